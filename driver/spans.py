"""Uses of the C++ runtime spans, compiled against /repo's headers, run, and judged by spec/Span.tla."""
import json
import os
import random
import subprocess
from concurrent.futures import ThreadPoolExecutor
import harness as H

CXX = ['g++', '-std=c++17', '-w', '-O0', f'-I{H.REPO}/components/runtime', '-I/usr/include/eigen3']

PRELUDE = r'''
#include <array>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <utility>
#include <vector>
#include <sys/mman.h>
#define WF_SPAN_EIGEN_SUPPORT
#include <wrenfold/span.h>

// A user's own matrix type and its adaptor, as the documentation of convert_to_span shows.
template <typename T, int R, int C>
struct UserMatrix {
  T data_[R * C];
  T* data() { return data_; }
  const T* data() const { return data_; }
};
namespace wf {
template <typename Dimensions, typename T, int Rows, int Cols>
struct convert_to_span<Dimensions, UserMatrix<T, Rows, Cols>> {
  template <typename U>
  constexpr auto convert(U&& matrix) const noexcept {
    static_assert(constant_value_pack_axis_v<0, Dimensions> == Rows);
    static_assert(constant_value_pack_axis_v<1, Dimensions> == Cols);
    constexpr auto strides = make_constant_value_pack<Cols, 1>();
    return make_span(matrix.data(), make_constant_value_pack<Rows, Cols>(), strides);
  }
};
}  // namespace wf
'''

RUNTIME = r'''
static FILE* F;
struct Out {
  bool first = true;
  void begin() { std::fputs("[", F); first = true; }
  void num(long long x) { std::fprintf(F, first ? "\"%lld\"" : ",\"%lld\"", x); first = false; }
  void end() { std::fputs("]\n", F); std::fflush(F); }
  template <typename T> void cells(const T* b, long long lo, long long hi) { for (long long i = lo; i < hi; ++i) num((long long)b[i]); }
  template <typename T> void cell(const T* b, long long i) { num((long long)b[i]); }
};
static Out D;
template <typename S, std::size_t... I>
void axes(const S& s, std::index_sequence<I...>) {
  std::fputs("\"dims\":", F);
  const char* c = "[";
  ((std::fprintf(F, "%s\"%lld\"", c, (long long)s.template dimension<I>()), c = ","), ...);
  std::fputs("],\"str\":", F);
  c = "[";
  ((std::fprintf(F, "%s\"%lld\"", c, (long long)s.template stride<I>()), c = ","), ...);
  std::fputs("]", F);
}
template <typename S, typename T>
void shows(const S& s, const T* base) {
  std::fprintf(F, "{\"rank\":\"%zu\",\"at\":", S::num_dimensions);
  if (!s) std::fputs("\"null\"", F);
  else std::fprintf(F, "\"%lld\"", (long long)(((const char*)s.data() - (const char*)base) / (std::ptrdiff_t)sizeof(T)));
  std::fprintf(F, ",\"row\":\"%lld\"", (long long)s.rows());
  if constexpr (S::num_dimensions > 1) std::fprintf(F, ",\"col\":\"%lld\"", (long long)s.cols());
  else std::fputs(",\"col\":\"0\"", F);
  std::fputs(",", F);
  axes(s, std::make_index_sequence<S::num_dimensions>());
  std::fputs("}\n", F);
  std::fflush(F);
}
template <typename T> T* guarded(long long n) {
  T* p = (T*)std::malloc(sizeof(T) * (n + 1024));
  for (long long i = 0; i < n + 1024; ++i) p[i] = (T)(i - 512 + 1);
  return p + 512;
}
template <typename T> void iota(T* p, long long n) { for (long long i = 0; i < n; ++i) p[i] = (T)(i + 1); }
static int* far_region(unsigned long long n) {
  void* p = mmap(nullptr, n * sizeof(int), PROT_READ | PROT_WRITE, MAP_NORESERVE | MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  return p == MAP_FAILED ? nullptr : (int*)p;
}
'''


def pack(vals, const, g):
    if all(const) and g.random() < 0.7:
        return f"wf::make_constant_value_pack<{', '.join(f'{v}ull' for v in vals)}>()"
    out = []
    for v, c in zip(vals, const):
        if c:
            out.append(f'wf::constant<{v}ull>{{}}')
        else:
            small = v < 1 << 31
            out.append(g.choice([f'wf::dynamic({v}ull)', f'wf::dynamic{{{v}ull}}', f'static_cast<std::size_t>({v}ull)'] +
                                ([f'{v}', f'{v}u', f'static_cast<short>({v})'] if v < 30000 else [f'{v}' if small else f'{v}ll'])))
    return f"wf::make_value_pack({', '.join(out)})"


def mat(ty, r, c, order):
    o = {'row': ', Eigen::RowMajor', 'col': ''}[order]
    return f'Eigen::Matrix<{ty}, {r}, {c}{o}>'


def dims_arg(dims, g):
    """Template arguments naming expected dimensions."""
    d = ', '.join(str(x) for x in dims)
    return d if g.random() < 0.6 else f'wf::constant_value_pack<{d}>'


FN = {'in': 'make_input_span', 'out': 'make_output_span', 'opt': 'make_optional_output_span'}


def emit_session(plan):
    g = random.Random('emit' + plan['id'])
    S, regs, views = [], [], []

    def dump():
        S.append('D.begin();')
        for k, r in enumerate(regs, 1):
            p = r['probes']
            if r['kind'] == 'far':
                for a in p:
                    S.append(f'D.cell(b{k}, {a}ll);')
            else:
                S.append(f'D.cells(b{k}, {p[0]}, {p[-1] + 1});')
        S.append('D.end();')

    for o in plan['ops']:
        op = o['op']
        if op == 'region':
            r = o['reg']
            regs.append(r)
            k, ty, n = len(regs), r['ty'], r['n']
            kind = r['kind']
            if kind == 'guard':
                S.append(f'{ty}* b{k} = guarded<{ty}>({n});')
            elif kind == 'vec':
                S.append(f'std::vector<{ty}> x{k}({n}); {ty}* b{k} = x{k}.data(); iota(b{k}, {n});')
            elif kind == 'carr':
                S.append(f'{ty} x{k}[{n}]; {ty}* b{k} = x{k}; iota(b{k}, {n});')
            elif kind == 'stdarr':
                S.append(f'std::array<{ty}, {n}> x{k}; {ty}* b{k} = x{k}.data(); iota(b{k}, {n});')
            elif kind == 'eig':
                S.append(f"{mat(ty, r['r'], r['c'], r['order'])} x{k}; {ty}* b{k} = x{k}.data(); iota(b{k}, {n});")
            elif kind == 'eigdyn':
                S.append(f"{mat(ty, 'Eigen::Dynamic', 'Eigen::Dynamic', r['order'])} x{k}({r['r']}, {r['c']}); {ty}* b{k} = x{k}.data(); iota(b{k}, {n});")
            elif kind == 'quat':
                S.append(f'Eigen::Quaternion<{ty}> x{k}; {ty}* b{k} = x{k}.coeffs().data(); iota(b{k}, 4);')
            elif kind == 'mymat':
                S.append(f"UserMatrix<{ty}, {r['r']}, {r['c']}> x{k}; {ty}* b{k} = x{k}.data(); iota(b{k}, {n});")
            elif kind == 'far':
                S.append(f'int* b{k} = far_region({n}ull); if (!b{k}) {{ std::fputs("skip\\n", F); return; }}')
            dump()
            continue
        rg = o.get('rg')
        r = regs[rg - 1] if rg else None
        n = len(views) + 1
        if op == 'span':
            c = 'const ' if o['const'] else ''
            p = f"b{rg} + {o['off']}ll"
            p = f"static_cast<const {r['ty']}*>({p})" if c else p
            S.append(f"auto v{n} = wf::make_span({p}, {pack(o['dims'], o['kd'], g)}, {pack(o['str'], o['ks'], g)});")
        elif op == 'array':
            S.append(f"auto v{n} = wf::make_array_span({f'std::as_const(x{rg})' if o['const'] else f'x{rg}'});")
        elif op == 'adaptor':
            S.append(f"auto v{n} = wf::{FN[o['dir']]}<{dims_arg(o['dims'], g)}>(x{rg});")
        elif op == 'eigen':
            if r['kind'] in ('eig', 'eigdyn'):
                e = f'x{rg}'
            else:
                ty = mat(r['ty'], o['R'], o['C'], o['order'])
                ty = 'const ' + ty if o['constmap'] else ty
                ss, si = (o['outer'] if o['so'] else 'Eigen::Dynamic'), (o['inner'] if o['si'] else 'Eigen::Dynamic')
                stype = f'Eigen::Stride<{ss}, {si}>'
                if o['so'] and o['si']:
                    arg = ''
                    if o['inner'] == 0 and o['outer'] == 0 and g.random() < 0.5:
                        stype = None
                    elif o['outer'] == 0 and g.random() < 0.5:
                        stype = f"Eigen::InnerStride<{o['inner']}>"
                    elif o['inner'] == 0 and g.random() < 0.5:
                        stype = f"Eigen::OuterStride<{o['outer']}>"
                else:
                    arg = f", {stype}({o['outer']}, {o['inner']})"
                al = f', Eigen::Unaligned, {stype}' if stype else ''
                S.append(f"Eigen::Map<{ty}{al}> m{n}(b{rg} + {o['off']}{arg});")
                e = f'm{n}'
            for s in o['chain']:
                if s[0] == 'block':
                    e += f'.template block<{s[3]}, {s[4]}>({s[1]}, {s[2]})'
                elif s[0] == 'T':
                    e += '.transpose()'
                elif s[0] == 'diag':
                    e += '.diagonal()'
                else:
                    e += f'.{s[0]}({s[1]})'
            d = dims_arg(o['dims'], g)
            if o['dir'] == 'in' and g.random() < 0.5:
                S.append(f'auto v{n} = wf::make_input_span<{d}>({e});')
            elif o['chain']:
                S.append(f"auto e{n} = {e}; auto v{n} = wf::{FN[o['dir']]}<{d}>(e{n});")
            else:
                S.append(f"auto v{n} = wf::{FN[o['dir']]}<{d}>({e});")
        elif op == 'quat':
            if r['kind'] == 'quat':
                e = f'x{rg}'
            else:
                S.append(f"Eigen::Map<Eigen::Quaternion<{r['ty']}>> m{n}(b{rg} + {o['off']});")
                e = f'm{n}'
            S.append(f"auto v{n} = wf::{FN[o['dir']]}<{dims_arg([4, 1], g)}>({e});")
        elif op == 'null':
            d = ', '.join(str(x) for x in o['dims'])
            if o['how'] == 'make':
                S.append(f'auto v{n} = wf::make_always_null_span<wf::constant_value_pack<{d}>>();')
            else:
                S.append(f'std::nullptr_t z{n} = nullptr; auto v{n} = wf::make_optional_output_span<{d}>(z{n});')
        elif op == 'block':
            S.append(f"auto v{n} = v{o['v']}.block({pack(o['offs'], o['ko'], g)}, {pack(o['dims'], o['kd'], g)});")
        elif op == 'const':
            S.append(f"auto v{n} = v{o['v']}.as_const();")
        elif op == 'promote':
            t = f"decltype(v{o['v']})"
            S.append(f"wf::span<const {t}::element_type, std::decay_t<decltype(v{o['v']}.dimensions())>, "
                     f"std::decay_t<decltype(v{o['v']}.strides())>> v{n} = v{o['v']};")
        elif op == 'copy':
            S.append(f"auto v{n} = v{o['v']};")
        elif op in FN:
            S.append(f"auto v{n} = wf::{FN[op]}<{dims_arg(views[o['v'] - 1], g)}>(v{o['v']});")
        if op not in ('write', 'fill', 'read', 'all', 'index'):
            views.append(views[o['v'] - 1] if op in ('const', 'promote', 'copy', 'in', 'out', 'opt') else [4, 1] if op == 'quat' else o['dims'])
            S.append(f"shows(v{n}, {f'b{rg}' if rg else '(const int*)nullptr'});")
            continue
        v = f"v{o['v']}"
        if op in ('write', 'read', 'index'):
            ix = ', '.join(f'static_cast<{t}>({x}ll)' if abs(x) < (120 if 'char' in t else 30000 if t == 'short' else 1 << 31) else f'{x}ll'
                           for x, t in zip(o['idx'], o['it']))
            br = len(o['idx']) == 1 and g.random() < 0.6
            el = f'{v}[{ix}]' if br else f'{v}({ix})'
        if op == 'write':
            S.append(f"{el} = {o['val']};")
            dump()
        elif op == 'read':
            S.append(f'D.begin(); D.num((long long){el}); D.end();')
        elif op == 'index':
            S.append(f'D.begin(); D.num((long long){v}.compute_index({ix})); D.end();')
        else:
            dm = views[o['v'] - 1]
            it = g.choice(['std::size_t', 'int', 'std::ptrdiff_t'])
            loop = ' '.join(f'for ({it} i{k} = 0; i{k} < ({it}){v}.template dimension<{k}>(); ++i{k})' if g.random() < 0.5
                            else f'for ({it} i{k} = 0; i{k} < {d}; ++i{k})' for k, d in enumerate(dm))
            el = f"{v}({', '.join(f'i{k}' for k in range(len(dm)))})"
            if op == 'all':
                S.append(f'D.begin(); {loop} D.num((long long){el}); D.end();')
            else:
                S.append(f"{{ const int w[] = {{{', '.join(map(str, o['vals']))}}}; std::size_t q = 0; {loop} {el} = w[q++]; }}")
                dump()
    body = '\n  '.join(S)
    return f"static void s{plan['id']}() {{\n  {body}\n}}\n"


def strs(xs):
    return [str(x) for x in xs]


def trace_session(plan, lines):
    ops = []
    for o, r in zip(plan['ops'], lines):
        op = o['op']
        t = dict(op=op, rg=o.get('rg') or 0, v=o.get('v', 0), p=[], q=[], k=[], e=[], s='', r=r)
        if op == 'region':
            t['s'] = 'zero' if o['reg']['kind'] == 'far' else 'iota'
            t['q'] = strs(o['reg']['probes'])
        elif op == 'span':
            t['p'], t['q'], t['k'] = [str(o['off'])], strs(o['dims']), strs(o['str'])
        elif op in ('array', 'adaptor', 'null'):
            t['p'] = strs(o['dims'])
        elif op == 'eigen':
            t['p'], t['s'], t['q'] = strs([o['off'], o['R'], o['C']]), o['order'], strs([o['inner'], o['outer']])
            t['e'] = [strs(x) for x in o['chain']]
        elif op == 'quat':
            t['p'] = [str(o['off'])]
        elif op == 'block':
            t['p'], t['q'] = strs(o['offs']), strs(o['dims'])
        elif op in ('write', 'read', 'index'):
            t['p'], t['s'] = strs(o['idx']), str(o.get('val', ''))
        elif op == 'fill':
            t['p'] = strs(o['vals'])
        ops.append(t)
    return dict(id='r' + plan['id'], kind='run', ops=ops)


def compile_run(plans, wd, tag):
    """Compile sessions and run them; returns ({id: result lines}, crashed ids, compile failures)."""
    src = f'{wd}/{tag}.cc'
    with open(src, 'w') as f:
        f.write(PRELUDE + RUNTIME)
        for p in plans:
            f.write(emit_session(p))
        f.write('int main(int, char** a) {\n  F = std::fopen(a[1], "w");\n  int from = std::atoi(a[2]);\n')
        for k, p in enumerate(plans):
            f.write(f'  if (from <= {k}) {{ std::fputs("#{p["id"]}\\n", F); std::fflush(F); s{p["id"]}(); }}\n')
        f.write('  return 0;\n}\n')
    r = subprocess.run(CXX + [src, '-o', f'{wd}/{tag}.exe'], capture_output=True, text=True)
    if r.returncode:
        if len(plans) == 1:
            return {}, [], [(plans[0], r.stderr)]
        res, cr, bad = {}, [], []
        h = len(plans) // 2
        if len(plans) > 30:        # narrow down to the sessions that no longer compile
            h = len(plans) // 2
        for k, part in enumerate((plans[:h], plans[h:])):
            if len(bad) > 2:
                break
            a, b, c = compile_run(part, wd, f'{tag}_{k}')
            res.update(a)
            cr += b
            bad += c
        return res, cr, bad
    res, crashed, start = {}, [], 0
    while start < len(plans):
        out = f'{wd}/{tag}.out'
        try:
            r = subprocess.run([f'{wd}/{tag}.exe', out, str(start)], capture_output=True, text=True, timeout=120)
            rc = r.returncode
        except subprocess.TimeoutExpired:
            rc = -9
        cur = None
        for line in open(out):
            if line.startswith('#'):
                cur = line[1:].strip()
                res[cur] = []
            elif line.strip() == 'skip':
                res[cur] = None
            else:
                try:
                    res[cur].append(json.loads(line))
                except ValueError:
                    break
        if rc == 0:
            break
        crashed.append((cur, rc))
        start = [p['id'] for p in plans].index(cur) + 1
        if len(crashed) > 20:
            break
    return res, crashed, []


# ------------------------------------------------------------------- uses that fit or do not fit static shapes
def use_code(u):
    g = random.Random(u['seed'])
    d = u['dims']
    one = [1] * len(d)
    n = 1
    for x in d:
        n *= x
    S = ['static double buf[4096];']

    def sp(name, dims, kd=None, const=False):
        kd = kd or ([True] * len(dims) if u['mix'] else [g.random() < 0.5 for _ in dims])
        S.append(f"auto {name} = wf::make_span({'static_cast<const double*>(buf)' if const else 'buf'}, {pack(dims, kd, g)}, "
                 f"{pack([1] * len(dims), [True] * len(dims), g)});")
    op = u['op']
    if op == 'pass':
        k = u['k']
        if k == 'eigen':
            r, c = d
            o = 'row' if r == 1 else 'col'
            x = u['x']
            if x == 'own':
                S.append(f"{mat('double', r, c, o)} x;")
            elif x == 'rowmajor':
                S.append(f"{mat('double', r, c, 'row' if c > 1 else 'col')} x;")
            elif x == 'map':
                S.append(f"Eigen::Map<{mat('double', r, c, o)}> x(buf);")
            elif x == 'mapconst':
                S.append(f"Eigen::Map<const {mat('double', r, c, o)}> x(buf);")
            elif x == 'block':
                S.append(f"Eigen::Matrix<double, 6, 6> y; auto x = y.block<{r}, {c}>(1, 1);")
            elif x == 'T':
                o = 'row' if c == 1 else 'col'
                S.append(f"{mat('double', c, r, o)} y; auto x = y.transpose();")
            elif x == 'row':
                S.append(f"Eigen::Matrix<double, 5, {c}> y; auto x = y.row(2);")
            elif x == 'dyn':
                S.append(f"Eigen::MatrixXd x({r}, {c});")
            elif x == 'dynrow':
                S.append(f"Eigen::Matrix<double, Eigen::Dynamic, {c}> x({r}, {c});")
            elif x == 'dyncol':
                o = ', Eigen::RowMajor' if r == 1 else ''
                S.append(f"Eigen::Matrix<double, {r}, Eigen::Dynamic{o}> x({r}, {c});")
            else:
                S.append(f"Eigen::Matrix<double, 6, 6> y; auto x = y.block(1, 1, {r}, {c});")
        elif k == 'quat':
            S.append('Eigen::Quaterniond x;' if u['x'] == 'own' else 'Eigen::Map<Eigen::Quaterniond> x(buf);')
        elif k == 'span':
            sp('x', d, u['kd'])
        elif k == 'null':
            S.append('std::nullptr_t x = nullptr;')
        else:
            S.append({'vec': f'std::vector<double> x({n});', 'carr': f'double x[{n}];', 'dbl': 'double x = 1;'}[u['x']])
        S.append(f"auto v = wf::{FN[u['how']]}<{dims_arg(u['want'], g)}>(x);")
    elif op == 'make':
        kd, ks = ([True] * len(x) if u['mix'] else [g.random() < 0.5 for _ in x] for x in (d, u['want']))
        S.append(f"auto v = wf::make_span(buf, {pack(d, kd, g)}, {pack(u['want'], ks, g)});")
    elif op == 'index':
        sp('v', d)
        ix = [str(x - 1) for x in u['want']]
        if u['k'] == 'word':
            ix[g.randrange(len(ix))] = '"1"'
        S.append(f"double* z = &v({', '.join(ix)});" if u['fn'] == 'call' else f"auto z = v.compute_index({', '.join(ix)});")
    elif op == 'bracket':
        sp('v', d)
        S.append('double z = v[0];')
    elif op == 'block':
        sp('v', d)
        mk = lambda x: pack(x, [True] * len(x) if u['mix'] else [g.random() < 0.5 for _ in x], g)
        S.append(f"auto z = v.block({mk([0] * len(u['want']))}, {mk(u['e'])});")
    elif op == 'axis':
        sp('v', d)
        S.append(f"auto z = v.template {u['fn']}<{u['a']}>();")
    elif op == 'cols':
        sp('v', d)
        S.append('auto z = v.cols();')
    elif op == 'assign':
        how = u['how']
        if how == 'as_const':
            sp('w', d)
            S.append('auto v = w.as_const();')
        elif how == 'in':
            r, c = (d + [2])[:2]
            S.append(f"{mat('double', r, c, 'row' if r == 1 else 'col')} x; auto v = wf::make_input_span<{r}, {c}>(x);")
            d = [r, c]
        elif how == 'promote':
            sp('w', d)
            S.append('wf::span<const double, std::decay_t<decltype(w.dimensions())>, std::decay_t<decltype(w.strides())>> v = w;')
        elif how == 'block':
            sp('w', d, const=True)
            S.append(f"auto v = w.block({pack([0] * len(d), [True] * len(d), g)}, {pack(d, [False] * len(d), g)});")
        else:
            sp('v', d, const=u['s'] == 'const')
        S.append(f"v({', '.join('0' for _ in d)}) = 2.0;")
    else:
        kd = [True] * len(d)
        sp('a', d, kd, const=u['s'] == 'const')
        w = u['want']
        S.append(f"wf::span<{'const ' if u['k'] == 'const' else ''}double, wf::constant_value_pack<{', '.join(map(str, w))}>, "
                 f"wf::constant_value_pack<{', '.join('1' for _ in w)}>> v = a;")
    return '\n  '.join(S)


def use_trace(u, ok):
    t = dict(op=u['op'], p=strs(u.get('stat', u['dims'])), q=strs(u.get('want', [])), e=strs(u.get('e', [])), s=u.get('s', ''),
             k=u.get('k', ''), r='yes' if ok else 'no')
    if u['op'] == 'pass':
        t['s'] = u['how']
    if u['op'] == 'axis':
        t['q'] = [str(u['a'])]
    return t


def try_uses(uses, wd):
    pch = f'{wd}/use_prelude.h'
    with open(pch, 'w') as f:
        f.write(PRELUDE)
    r = subprocess.run(CXX + ['-x', 'c++-header', pch, '-o', pch + '.gch'], capture_output=True, text=True)
    if r.returncode:
        raise H.ToolError('the runtime headers do not compile:\n' + r.stderr[:2000])

    def one(u):
        src = f"{wd}/use{u['n']}.cc"
        code = f'#include "use_prelude.h"\nvoid use() {{\n  {use_code(u)}\n}}\n'
        with open(src, 'w') as f:
            f.write(code)
        r = subprocess.run(CXX + ['-fsyntax-only', '-fmax-errors=2', f'-I{wd}', src], capture_output=True, text=True)
        os.unlink(src)
        return r.returncode == 0, code, r.stderr
    with ThreadPoolExecutor(H.NPROC) as ex:
        return list(ex.map(one, uses))


# ----------------------------------------------------------------------------------------------- check
def describe(plan, upto):
    """The failing use in the order of the session, without unrelated reads."""
    return '; '.join(x.strip() for x in emit_session(dict(plan, ops=plan['ops'][:upto])).split('\n')[1:-2]
                     if not x.strip().startswith(('D.', 'shows')))[-700:]


def check(rep, plans, uses, wd, tag='p'):
    n = H.NPROC
    chunks = [plans[i::n] for i in range(n)]
    byid = {p['id']: p for p in plans}
    items = []
    with ThreadPoolExecutor(n) as ex:
        done = list(ex.map(lambda k: compile_run(chunks[k], wd, f'{tag}{k}') if chunks[k] else ({}, [], []), range(n)))
    for res, crashed, bad in done:
        for p, err in bad:
            e = next((x for x in err.split('\n') if 'error' in x), err[:300])
            rep.violation(f'refused {e}', f'a fitting use does not compile: {e} :: {describe(p, len(p["ops"]))}', dict(plan=p, error=err[:3000]))
        for c, rc in crashed:
            k = len(res[c])
            rep.violation(f'crash {describe(byid[c], k + 1)}', f'process terminated (signal {-rc}) in: {describe(byid[c], k + 1)}',
                          dict(plan=byid[c], op=k))
        gone = {c for c, _ in crashed}
        for i, lines in res.items():
            if lines is None or i in gone:
                rep.add('sessions_skipped', 1)
                continue
            if len(lines) != len(byid[i]['ops']):
                raise H.ToolError(f'session {i} recorded {len(lines)} of {len(byid[i]["ops"])} steps')
            items.append(trace_session(byid[i], lines))
    tried = try_uses(uses, wd)
    for u, (ok, code, err) in zip(uses, tried):
        items.append(dict(id=f"u{u['n']}", kind='compile', ops=[use_trace(u, ok)]))
    path = f'{wd}/{tag}.ndjson'
    H.write_ndjson(path, items)
    out, stats, marks = H.run_tlc('Span', 'Span.cfg', wd, env=dict(TRACE=path))
    seen = {b['sid']: b for t, b in marks if t == 'S'}
    if len(seen) != len(items):
        raise H.ToolError(f'TLC judged {len(seen)} of {len(items)} sessions\n' + out[-2000:])
    rep.tlc(stats)
    rep.add('traces_validated_against_impl', len(items))
    rep.add('span_operations', sum(b['n'] for b in seen.values()))
    rep.add('compiled_uses', sum(1 for ok, _, _ in tried if ok))
    rep.add('refused_uses', sum(1 for ok, _, _ in tried if not ok))
    usebyid = {f"u{u['n']}": (u, x) for u, x in zip(uses, tried)}
    for sid, b in seen.items():
        if b['verdict'] == 'ok':
            continue
        it = items[sid - 1]
        if it['kind'] == 'compile':
            u, (ok, code, err) = usebyid[it['id']]
            what = 'a use that does not fit compiles' if ok else 'a fitting use does not compile'
            rep.violation(f"{what}: {u['op']} {u.get('k', '')}", f"{what}: {code.split('{', 1)[1][:500]}", dict(use=u, code=code, error=err[:2000]))
        else:
            p = byid[it['id'][1:]]
            o = it['ops'][b['l'] - 1]
            rep.violation(f"{o['op']} {describe(p, b['l'])}",
                          f"{o['op']} recorded {json.dumps(o['r'])[:300]} does not follow from: {describe(p, b['l'])}", dict(plan=p, step=b['l'], op=o))
    for it in items[:2]:
        rep.sample(dict(ops=[dict(op=o['op'], r=o['r']) for o in it['ops'][:4]]))
