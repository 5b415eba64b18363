"""Checks that run emitted code and replay its calls in spec/Emitted.tla (C13 C++, C14 Rust, C15 Python)."""
import json
import os
import struct
import subprocess
from concurrent.futures import ThreadPoolExecutor
from fractions import Fraction

import gen_func as GF
import harness as H
from programs import show as show_prog
from wfdump_free import frac_str

NATIVE = f'{H.VERIF}/driver/native'


def show(plan):
    c = plan['cfg']
    return f"[{' '.join(f'{k}={v}' for k, v in c.items())}] " + show_prog(dict(plan, opt=''))


def sentinel(o, i):
    return 1000 + 16 * o + i


def flat_inputs(plan, env):
    out = []
    for a in plan['args']:
        if a['t'] == 'Table':
            out.append(env[a['n']])
        for path, _ in GF.leaves(a['t'], a['n']):
            out.append(env[path])
    return [float(Fraction(x)) for x in out]


def is_mat(t):
    return isinstance(t, (list, tuple))


def ctype(t, S):
    if t == 's':
        return S
    if t == 'i':
        return 'std::int64_t'
    if is_mat(t):
        return f'Eigen::Matrix<{S}, {t[0]}, {t[1]}>'
    return t


# ---------------------------------------------------------------------------------------- C++
def cpp_view(name, t, lay, S, const):
    """Object through which buffer name_b is passed as a matrix."""
    R, C = t
    q = 'const ' if const else ''
    off, rs, cs = lay['off'], lay['rs'], lay['cs']
    how = lay['how']
    if how == 'span':
        return (f'  {q}auto {name} = wf::make_span(static_cast<{q}{S}*>({name}_b + {off}), wf::make_constant_value_pack<{R}, {C}>(), '
                f'wf::make_constant_value_pack<{rs}, {cs}>());\n')
    if how == 'eigen':
        return f'  {q}Eigen::Matrix<{S}, {R}, {C}> {name} = Eigen::Map<{q}Eigen::Matrix<{S}, {R}, {C}>>({name}_b);\n'
    if how == 'map':
        st = f'{rs}, {cs}' if R == 1 and C > 1 else f'{cs}, {rs}'
        return (f'  {q}Eigen::Map<{q}Eigen::Matrix<{S}, {R}, {C}>, 0, Eigen::Stride<Eigen::Dynamic, Eigen::Dynamic>> '
                f'{name}({name}_b + {off}, Eigen::Stride<Eigen::Dynamic, Eigen::Dynamic>({st}));\n')
    if how == 'block':
        r0, c0 = off % cs, off // cs
        return (f'  Eigen::Map<Eigen::Matrix<{S}, {cs}, {c0 + C}>> {name}_m({name}_b);\n'
                f'  {q}auto {name} = {name}_m.template block<{R}, {C}>({r0}, {c0});\n')
    return f'  {q}Strided<{q}{S}, {R}, {C}> {name}{{{name}_b + {off}, {rs}, {cs}}};\n'


def cpp_null(t, lay, S):
    R, C = t
    if lay['size'] % 2 and lay['how'] == 'own':
        return f'Strided<{S}, {R}, {C}>{{nullptr, 1, 1}}'
    return 'nullptr'


def cpp_function(plan, k):
    S = 'double' if plan['cfg']['prec'] == '64' else 'float'
    eig = plan['cfg']['beh'] == 'eigen'
    body = []
    call = []
    for a in plan['args']:
        n, t = a['n'], a['t']
        if is_mat(t) and not eig:
            lay = a['lay']
            body.append(f'  {S} {n}_b[{lay["size"]}]; for (auto& z : {n}_b) z = NAN;\n')
            body.append(f'  for (int i = 0; i < {t[0]}; ++i) for (int j = 0; j < {t[1]}; ++j) '
                        f'load(p, {n}_b[{lay["off"]} + i * {lay["rs"]} + j * {lay["cs"]}]);\n')
            body.append(cpp_view(n, t, lay, S, True))
        else:
            body.append(f'  {ctype(t, S)} {n}; load(p, {n});\n')
        call.append(n)
    objs = []
    for i, o in enumerate(plan['outs']):
        if o['u'] == 'ret':
            continue
        n, t = o['n'], o['t']
        if is_mat(t) and not eig:
            body.append(f'  {S} {n}_b[{o["lay"]["size"]}]; {{ const double* q = mem[{i}]; for (auto& z : {n}_b) load(q, z); }}\n')
            body.append(cpp_view(n, t, o['lay'], S, False))
        else:
            body.append(f'  {ctype(t, S)} {n}; {{ const double* q = mem[{i}]; load(q, {n}); }}\n')
        objs.append((i, o))
    ret = next((i for i, o in enumerate(plan['outs']) if o['u'] == 'ret'), None)

    def invoke(mask):
        a = list(call)
        for i, o in objs:
            if o['u'] == 'out':
                a.append(o['n'])
            elif is_mat(o['t']) and not eig:
                a.append(o['n'] if mask[i] else cpp_null(o['t'], o['lay'], S))
            else:
                a.append('&' + o['n'] if mask[i] else 'nullptr')
        e = f'{plan["name"]}::{plan["name"]}<{S}>({", ".join(a)})'
        if ret is None:
            return e + ';'
        return f'const auto r_ = {e}; double* q = mem[{ret}]; dump(q, r_);'
    masks = sorted({tuple(r['req']) for r in plan['runs']})
    disp = ''
    for m in masks:
        cond = ' && '.join(f'req[{i}] == {x}' for i, x in enumerate(m))
        disp += f'  if ({cond}) {{ {invoke(m)} }}\n'
    back = ''
    for i, o in objs:
        if is_mat(o['t']) and not eig:
            src = f'{o["n"]}_b'
            if o['lay']['how'] == 'eigen':
                back += f'  {{ Eigen::Map<Eigen::Matrix<{S}, {o["t"][0]}, {o["t"][1]}>> e_({src}); e_ = {o["n"]}; }}\n'
            back += f'  {{ double* q = mem[{i}]; for (auto z : {src}) dump(q, z); }}\n'
        else:
            back += f'  {{ double* q = mem[{i}]; dump(q, {o["n"]}); }}\n'
    text = f'static void call_{k}(const double* p, const int* req, double** mem) {{\n' + ''.join(body) + disp + back + '}\n'
    # the history
    nm = len(plan['outs'])
    text += f'static void run_{k}() {{\n'
    for i, o in enumerate(plan['outs']):
        text += f'  double m{i}[] = {{{", ".join(str(sentinel(i, c)) for c in range(o["lay"]["size"]))}}};\n'
    text += f'  double* mem[] = {{{", ".join(f"m{i}" for i in range(nm))}}};\n'
    for r in plan['runs']:
        ins = ', '.join(x.hex() for x in flat_inputs(plan, r['env'])) or '0'
        text += f'  {{ const double in[] = {{{ins}}}; const int req[] = {{{", ".join(map(str, r["req"]))}}}; call_{k}(in, req, mem);\n'
        for i, o in enumerate(plan['outs']):
            text += f'    show(m{i}, {o["lay"]["size"]});\n'
        text += '    std::puts(""); }\n'
    return text + '}\n'


CPP_SHOW = '''#include <cstring>
static void show(const double* m, int n) { for (int i = 0; i < n; ++i) { std::uint64_t b; std::memcpy(&b, m + i, 8); std::printf("%016llx%c", (unsigned long long)b, i + 1 < n ? ',' : ' '); } }
'''


def cpp_unit(items):
    t = f'#include "{NATIVE}/harness.h"\n' + CPP_SHOW
    for k, (plan, tr) in enumerate(items):
        t += tr['code'] + '\n' + cpp_function(plan, k)
    t += 'int main() {\n' + ''.join(f'  std::printf("#{k}\\n"); run_{k}();\n' for k in range(len(items))) + '}\n'
    return t


def cpp_compile(src, exe):
    return subprocess.run(['g++', '-std=c++17', '-O0', '-w', f'-I{H.REPO}/components/runtime', '-I/usr/include/eigen3',
                           src, '-o', exe], capture_output=True, text=True, timeout=600)


# ---------------------------------------------------------------------------------------- Rust
def bits(x):
    return f'f64::from_bits(0x{struct.unpack("<Q", struct.pack("<d", x))[0]:x})'


def rtype(t):
    return 'f64' if t == 's' else 'i64' if t == 'i' else t


def rust_function(plan, k):
    body, call = '', []
    for a in plan['args']:
        n, t = a['n'], a['t']
        if is_mat(t):
            lay = a['lay']
            body += f'    let mut {n}_b = vec![f64::NAN; {lay["size"]}];\n'
            body += (f'    for i in 0..{t[0]} {{ for j in 0..{t[1]} {{ {n}_b[{lay["off"]} + i * {lay["rs"]} + j * {lay["cs"]}] '
                     f'= f64::load(&mut p); }} }}\n')
            body += f'    let {n} = In::<{t[0]}, {t[1]}> {{ d: &{n}_b, off: {lay["off"]}, rs: {lay["rs"]}, cs: {lay["cs"]} }};\n'
            call.append('&' + n)
        else:
            body += f'    let {n} = <{rtype(t)} as Elem>::load(&mut p);\n'
            call.append(n if t in ('s', 'i') else '&' + n)
    back, ret = '', None
    for i, o in enumerate(plan['outs']):
        n, t, lay = o['n'], o['t'], o['lay']
        if o['u'] == 'ret':
            ret = i
            continue
        if is_mat(t):
            body += f'    let mut {n}_b = mem[{i}].clone();\n'
            body += f'    let mut {n} = Out::<{t[0]}, {t[1]}> {{ d: &mut {n}_b, off: {lay["off"]}, rs: {lay["rs"]}, cs: {lay["cs"]} }};\n'
            back += f'    mem[{i}] = {n}_b;\n'
        else:
            body += f'    let mut {n} = <{rtype(t)} as Elem>::load(&mut &mem[{i}][..]);\n'
            back += f'    mem[{i}].clear(); {n}.dump(&mut mem[{i}]);\n'
        call.append(f'&mut {n}' if o['u'] == 'out' else f'if req[{i}] {{ Some(&mut {n}) }} else {{ None }}')
    e = f'{plan["name"]}::{plan["name"]}({", ".join(call)})'
    if ret is None:
        body += f'    {e};\n'
    else:
        body += f'    let r_ = {e};\n'
        back += f'    mem[{ret}].clear(); r_.dump(&mut mem[{ret}]);\n'
    text = f'fn run_{k}() {{\n  let mut mem: Vec<Vec<f64>> = vec![' + ', '.join(
        'vec![' + ', '.join(f'{sentinel(i, c)}.0' for c in range(o['lay']['size'])) + ']'
        for i, o in enumerate(plan['outs'])) + '];\n'
    runs = ', '.join('(vec![' + ', '.join(bits(x) for x in flat_inputs(plan, r['env'])) + '], vec!['
                     + ', '.join('true' if x else 'false' for x in r['req']) + '])' for r in plan['runs'])
    text += f'  let runs: Vec<(Vec<f64>, Vec<bool>)> = vec![{runs}];\n'
    text += '  for (inp, req) in runs.iter() {\n    let mut p: &[f64] = &inp[..]; let _ = &mut p; let _ = &req;\n' + body + back
    text += '    show(&mem);\n  }\n}\n'
    return text


RUST_SHOW = '''
fn show(mem: &Vec<Vec<f64>>) {
  for m in mem { print!("{} ", m.iter().map(|x| format!("{:016x}", x.to_bits())).collect::<Vec<_>>().join(",")); }
  println!();
}
'''


def rust_unit(items):
    t = '#![allow(warnings)]\n' + open(f'{NATIVE}/harness.rs').read() + RUST_SHOW
    for k, (plan, tr) in enumerate(items):
        t += f'mod {plan["name"]} {{\n{tr["code"]}\n#[allow(unused_imports)] use crate::*;\n}}\n' + rust_function(plan, k)
    t += 'fn main() {\n' + ''.join(f'  println!("#{k}"); run_{k}();\n' for k in range(len(items))) + '}\n'
    return t


def rust_compile(src, exe):
    return subprocess.run(['rustc', '--edition', '2021', '-C', 'debuginfo=0', '-C', 'opt-level=0', '-A', 'warnings', '--extern',
                           f'wrenfold_traits={os.path.dirname(exe)}/libwrenfold_traits.rlib', src, '-o', exe],
                          capture_output=True, text=True, timeout=600)


def rust_traits(wd):
    r = subprocess.run(['rustc', '--edition', '2021', '--crate-type', 'rlib', '--crate-name', 'wrenfold_traits', '-A', 'warnings',
                        f'{H.REPO}/components/rust/wrenfold-traits/src/lib.rs', '-o', f'{wd}/libwrenfold_traits.rlib'],
                       capture_output=True, text=True)
    if r.returncode:
        return r.stderr
    return ''


LANG = dict(cpp=(cpp_unit, cpp_compile, 'cc'), rust=(rust_unit, rust_compile, 'rs'))


def num(x):
    v = struct.unpack('<d', struct.pack('<Q', int(x, 16)))[0]
    return 'U' if v != v or v in (float('inf'), -float('inf')) else frac_str(Fraction(v))


def build_and_run(lang, items, wd, tag):
    """Compile one batch and run it.  Returns (observations per item, [(item, error text)])."""
    unit, comp, ext = LANG[lang]
    obs, bad = {}, []

    def attempt(its, name):
        src, exe = f'{wd}/{name}.{ext}', f'{wd}/{name}.exe'
        open(src, 'w').write(unit(its))
        r = comp(src, exe)
        if r.returncode:
            if 'Killed' in r.stderr or 'out of memory' in r.stderr or 'No space' in r.stderr:
                raise H.ToolError('compiler failed: ' + r.stderr[-500:])
            return 'compile', r.stderr
        try:
            r = subprocess.run([exe], capture_output=True, text=True, timeout=120)
        except subprocess.TimeoutExpired:
            return 'hang', ''
        finally:
            os.unlink(exe)
        cur = None
        for line in r.stdout.split('\n'):
            if line.startswith('#'):
                cur = its[int(line[1:])][0]['id']
                obs[cur] = []
            elif line.strip():
                obs[cur].append([[num(x) for x in m.split(',')] for m in line.split()])
        if r.returncode:
            return 'crash', f'exit {r.returncode}: {r.stderr[-400:]}'
        return '', ''

    how, text = attempt(items, tag)
    if how:
        obs.clear()
        for i, it in enumerate(items):
            h, t = attempt([it], f'{tag}_{i}')
            if h:
                obs.pop(it[0]['id'], None)
                bad.append((it, h, t))
                if len(bad) >= 3:
                    break
        if not bad:
            raise H.ToolError(f'batch {tag} fails ({how}) but no single function of it does:\n{text[-1500:]}')
    return obs, bad


def explain(traces, wd, tag):
    path = f'{wd}/{tag}.ndjson'
    H.write_ndjson(path, traces)
    out, stats, marks = H.run_tlc('Emitted', 'Emitted.cfg', wd, env=dict(TRACE=path))
    rej = [b for t, b in marks if t == 'REJECT']
    done = [b for t, b in marks if t == 'DONE']
    calls = [b for t, b in marks if t == 'CALL']
    missing = {t['id'] for t in traces} - {x['id'] for x in rej + done}
    if missing:
        raise H.ToolError(f'TLC did not finish {sorted(missing)[:5]}\n' + out[-2000:])
    return rej, done, calls, stats


def trace_of(plan, tr, obs, style='mem'):
    lay = [o['lay'] for o in plan['outs']]
    py = plan['cfg']['lang'] == 'py'
    return dict(
        id=plan['id'], nodes=tr['nodes'], prec=plan['cfg']['prec'], style=style,
        lim=('1000000000' if py else '1000000000000000') if plan['cfg']['prec'] == '64' else '100000000',
        tiny='1/' + '1' + '0' * (60 if plan['cfg']['prec'] == '64' else 15),
        outs=[dict(u=o['u'], n=o['n'] or 'return value', r=o['r'], x=o['x'], lay=l) for o, l in zip(tr['outs'], lay)],
        init=[[str(sentinel(i, c)) for c in range(l['size'])] for i, l in enumerate(lay)],
        runs=[dict(env=dict(r['env'], **{'#ro': 'F', '#p': ''}), req=r['req'], obs=ob) for r, ob in zip(plan['runs'], obs)])


def check(rep, lang, plans, wd, tag='e', batch=24):
    byid = {p['id']: p for p in plans}
    traces, crashes = H.run_recorder('run_py.py' if lang == 'py' else 'record_emit.py', plans, wd, tag)
    for plan, _, how, text in crashes:
        if how == 'hang':
            rep.add('hangs_dropped', 1)
            continue
        rep.violation(f'crash {show(plan)}', f'process terminated ({how}) on {show(plan)} :: ' + text.strip()[-200:],
                      dict(plan=plan, text=text))
    for t in [t for t in traces if 'raised' in t]:
        rep.violation(f"raised {show(byid[t['id']])}", f"{t['raised']}: {show(byid[t['id']])}\n{t.get('code', '')}",
                      dict(plan=byid[t['id']], raised=t['raised']))
    traces = [t for t in traces if 'raised' not in t]
    good = []
    if lang == 'py':
        good = [trace_of(byid[t['id']], t, t['obs'], 'mem' if byid[t['id']]['cfg']['outargs'] else 'ret') for t in traces]
    else:
        items = [(byid[t['id']], t) for t in traces]
        if lang == 'rust':
            err = rust_traits(wd)
            if err:
                rep.violation('traits', 'the runtime traits do not compile: ' + err[:400], dict(err=err))
                return []
        batches = [items[i:i + batch] for i in range(0, len(items), batch)]
        with ThreadPoolExecutor(H.NPROC) as ex:
            res = list(ex.map(lambda q: build_and_run(lang, q[1], wd, f'{tag}u{q[0]}'), enumerate(batches)))
        for obs, bad in res:
            for (plan, tr), how, text in bad:
                i = text.find('error')
                rep.violation(f'{how} {show(plan)}', f'emitted code: {how}: {text[max(0, i - 100):i + 500]}\n for {show(plan)}\n{tr["code"]}',
                              dict(plan=plan, code=tr['code'], how=how, text=text))
            for plan, tr in items:
                if plan['id'] in obs and len(obs[plan['id']]) == len(plan['runs']):
                    good.append(trace_of(plan, tr, obs[plan['id']]))
    code = {t['id']: t['code'] for t in traces}
    if not good:
        return []
    rej, done, calls, stats = explain(good, wd, tag)
    rep.tlc(stats)
    rep.add('traces_validated_against_impl', len(good))
    rep.add('calls', len(calls))
    rep.add('values_compared', sum(c['cmp'] for c in calls))
    rep.add('values_not_judged', sum(c['skip'] for c in calls))
    for r in rej:
        plan = byid[r['id']]
        call = plan['runs'][r['call'] - 1]
        rep.violation(f"{r['what']} {show(plan)}",
                      f"{r['what']} of {r['u']} {r['out']} (call {r['call']} with {call['env']}, requested {r['req']}): expected "
                      f"{r['want']}, got {r['got']} = {float(Fraction(r['got'])) if r['got'] not in ('', 'U', 'none') else r['got']} for {show(plan)}\n{code[r['id']]}",
                      dict(plan=plan, reject=r, code=code[r['id']]))
    for t in good[:3]:
        rep.sample(dict(function=t['id'], cfg=byid[t['id']]['cfg'], calls=len(t['runs']), outputs=[o['u'] for o in t['outs']]))
    return good
