"""Interfaces of generated functions (C16): declared types, parameters, external calls and outputs, judged by
spec/Interface.tla on what the library reports, on reflected signatures and on logs of executed code."""
import glob
import json
import os
import struct
import subprocess
from concurrent.futures import ThreadPoolExecutor
from fractions import Fraction

import emitted as E
import gen_iface as GI
import harness as H
from wfdump_free import frac_str


def T(t):
    if t in ('s', 'i'):
        return dict(k=t, r=0, c=0, n='')
    if GI.is_mat(t):
        r, c = GI.dims(t)
        return dict(k='m', r=r, c=c, n='')
    return dict(k='c', r=0, c=0, n=t)


def show(plan):
    ty = '; '.join(f"{n} {{{', '.join(f'{f}: {t}' for f, t in fs)}}}" for n, fs in plan['types'])
    ex = '; '.join(f"{n}({', '.join(f'{a}: {t}' for a, t in ps)}) -> {rt}" for n, ps, rt in plan['exts'])
    ca = '; '.join(f"#{i} = {c['f']}({', '.join('[' + ' '.join(a) + ']' for a in c['a'])})" for i, c in enumerate(plan['calls'], 1))
    ou = '; '.join(f"{o['u']} {o['n']}: {o['t']} = [{' '.join(o['e'])}]" for o in plan['outs'])
    return f"{plan['name']}({', '.join(f'{n}: {t}' for n, t in plan['args'])}) types {ty} externals {ex} calls {ca} outputs {ou}"


class Names:
    def __init__(self, plan):
        self.plan = plan
        self.fields = {n: f for n, f in plan['types']}

    def leaves(self, t, p=''):
        if t in ('s', 'i'):
            return [(p, t)]
        if GI.is_mat(t):
            R, C = GI.dims(t)
            return [(f'{p}[{i},{j}]', 's') for i in range(R) for j in range(C)]
        if not self.fields[t]:
            return [(p, t)]
        return [x for f, ft in self.fields[t] for x in self.leaves(ft, f'{p}.{f}')]


# ---------------------------------------------------------------------------------------- C++
CPP_HEAD = '''#define WF_SPAN_EIGEN_SUPPORT
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <map>
#include <string>
#include <vector>
#include <Eigen/Core>
#include <wrenfold/span.h>
static std::map<std::pair<std::string, std::vector<double>>, std::vector<double>> memo;
static double fresh;
static void list(const std::vector<double>& v) { if (v.empty()) std::printf("-"); for (std::size_t i = 0; i < v.size(); ++i) std::printf("%s%.17g", i ? "," : "", v[i]); }
static const double* answer(const char* f, const std::vector<double>& in, int n) {
  auto& r = memo[{f, in}];
  if (r.empty()) for (int i = 0; i < n; ++i) r.push_back(fresh++);
  std::printf("C %s ", f); list(in); std::printf(" "); list(r); std::printf("\\n");
  return r.data();
}
inline void load(const double*& p, double& x) { x = *p++; }
inline void load(const double*& p, std::int64_t& x) { x = static_cast<std::int64_t>(*p++); }
template <class S, int R, int C> void load(const double*& p, Eigen::Matrix<S, R, C>& m) {
  for (int i = 0; i < R; ++i) for (int j = 0; j < C; ++j) load(p, m(i, j));
}
inline void dump(std::vector<double>& p, double x) { p.push_back(x); }
inline void dump(std::vector<double>& p, std::int64_t x) { p.push_back(static_cast<double>(x)); }
template <class S, int R, int C> void dump(std::vector<double>& p, const Eigen::Matrix<S, R, C>& m) {
  for (int i = 0; i < R; ++i) for (int j = 0; j < C; ++j) dump(p, m(i, j));
}
template <int R, int C, class M> void dump_mat(std::vector<double>& p, const M& m) {
  for (int i = 0; i < R; ++i) for (int j = 0; j < C; ++j) dump(p, static_cast<double>(m(i, j)));
}
// reflection of a function's parameters
template <class T> struct Tn { static void p() { T::type_text(); } };
template <> struct Tn<double> { static void p() { std::printf("s"); } };
template <> struct Tn<std::int64_t> { static void p() { std::printf("i"); } };
template <> struct Tn<void> { static void p() { std::printf("void"); } };
template <int R, int C> struct Tn<Eigen::Matrix<double, R, C>> { static void p() { std::printf("%dx%d", R, C); } };
template <class T> struct Fm { static void p() { std::printf(" in:"); Tn<T>::p(); } };
template <class T> struct Fm<const T&> { static void p() { std::printf(" in:"); Tn<T>::p(); } };
template <class T> struct Fm<T&> { static void p() { std::printf(" out:"); Tn<T>::p(); } };
template <class T> struct Fm<T*> { static void p() { std::printf(" opt:"); Tn<T>::p(); } };
template <class R, class... A> void reflect(R (*)(A...)) { std::printf("S ret:"); Tn<R>::p(); int z[] = {0, (Fm<A>::p(), 0)...}; (void)z; std::printf("\\n"); }
'''


def ctype(t):
    if t == 's':
        return 'double'
    if t == 'i':
        return 'std::int64_t'
    if GI.is_mat(t):
        R, C = GI.dims(t)
        return f'Eigen::Matrix<double, {R}, {C}>'
    return t


def arglist(xs):
    return ', '.join(xs)


def cpp_decls(plan, span):
    t = f"namespace {plan['name']} {{\n"
    for n, fs in plan['types']:
        fs = fs or [('value', 's')]
        t += f"struct {n} {{ {' '.join(f'{ctype(ft)} {f};' for f, ft in fs)} static void type_text() {{ std::printf(\"{n}\"); }} }};\n"
        t += f"inline void load(const double*& p, {n}& v) {{ {' '.join(f'::load(p, v.{f});' if ft in ('s', 'i') or GI.is_mat(ft) else f'load(p, v.{f});' for f, ft in fs)} }}\n"
        t += f"inline void dump(std::vector<double>& p, const {n}& v) {{ {' '.join(f'::dump(p, v.{f});' if ft in ('s', 'i') or GI.is_mat(ft) else f'dump(p, v.{f});' for f, ft in fs)} }}\n"
    nm = Names(plan)
    for n, ps, rt in plan['exts']:
        tp = [f'class M{i}' for i, (_, pt) in enumerate(ps) if span and GI.is_mat(pt)]
        par = []
        body = ''
        for i, (_, pt) in enumerate(ps):
            if span and GI.is_mat(pt):
                R, C = GI.dims(pt)
                par.append(f'const M{i}& a{i}')
                body += f'::dump_mat<{R}, {C}>(x_, a{i}); '
            else:
                par.append(f'{ctype(pt)} a{i}' if pt in ('s', 'i') else f'const {ctype(pt)}& a{i}')
                body += ('::' if pt in ('s', 'i') or GI.is_mat(pt) else '') + f'dump(x_, a{i}); '
        t += (f"template <{arglist(tp)}> " if tp else 'inline ') + f"{ctype(rt)} {n}({arglist(par)}) {{ std::vector<double> x_; {body}"
        t += f"const double* r_ = ::answer(\"{n}\", x_, {len(nm.leaves(rt))}); {ctype(rt)} o_; {'::' if rt in ('s', 'i') or GI.is_mat(rt) else ''}load(r_, o_); return o_; }}\n"
    return t + '}\n'


def cpp_calls(plan, k, span):
    """A function that makes the runs of the plan."""
    nm, ns = Names(plan), plan['name']
    q = lambda t: ctype(t) if t in ('s', 'i') or GI.is_mat(t) else f'{ns}::{t}'
    sc = lambda t: '::' if t in ('s', 'i') or GI.is_mat(t) else f'{ns}::'
    t = f'static void run_{k}() {{\n'
    if not span:
        t += f'  reflect(&{ns}::{ns}<double>);\n'
    for run in plan['runs']:
        vals = [run['env'][p] for n, at in plan['args'] for p, _ in nm.leaves(at, n)]
        t += f"  {{ fresh = 101; memo.clear(); std::printf(\"B\\n\"); const double in_[] = {{{arglist(vals)}}}; const double* p_ = in_; (void)p_;\n"
        call, after = [], ''
        for n, at in plan['args']:
            if span and GI.is_mat(at):
                R, C = GI.dims(at)
                t += f'    double {n}_b[{R * C}]; for (auto& z_ : {n}_b) ::load(p_, z_);\n'
                t += f'    const auto {n} = wf::make_span(static_cast<const double*>({n}_b), wf::make_constant_value_pack<{R}, {C}>(), wf::make_constant_value_pack<{C}, 1>());\n'
            else:
                t += f'    {q(at)} {n}; {sc(at)}load(p_, {n});\n'
            call.append(n)
        ret = None
        for i, o in enumerate(plan['outs']):
            n, ot = o['n'], o['t']
            if o['u'] == 'ret':
                ret = i
                continue
            size = len(nm.leaves(ot))
            if span and GI.is_mat(ot):
                R, C = GI.dims(ot)
                t += f'    double {n}_b[{size}]; for (auto& z_ : {n}_b) z_ = -1;\n'
                t += f'    auto {n} = wf::make_span({n}_b, wf::make_constant_value_pack<{R}, {C}>(), wf::make_constant_value_pack<{C}, 1>());\n'
                after += f'    o_[{i}].assign({n}_b, {n}_b + {size});\n'
                call.append(n if run['req'][i] else 'nullptr')
            else:
                t += f'    {q(ot)} {n}; {{ const std::vector<double> z_({size}, -1.0); const double* p_ = z_.data(); {sc(ot)}load(p_, {n}); }}\n'
                after += f'    {sc(ot)}dump(o_[{i}], {n});\n'
                call.append(n if o['u'] == 'out' else f'&{n}' if run['req'][i] else 'nullptr')
        e = f'{ns}::{ns}<double>({arglist(call)})'
        t += f"    std::vector<double> o_[{len(plan['outs'])}];\n"
        if ret is None:
            t += f'    {e};\n'
        else:
            rt = plan['outs'][ret]['t']
            t += f'    const {q(rt)} r_ = {e}; {sc(rt)}dump(o_[{ret}], r_);\n'
        t += after + '    std::printf("R"); for (auto& v_ : o_) { std::printf(" "); list(v_); } std::printf("\\n"); }\n'
    return t + '}\n'


def cpp_unit(items):
    t = CPP_HEAD
    for k, (plan, lang, code) in enumerate(items):
        t += cpp_decls(plan, lang == 'span') + code + '\n' + cpp_calls(plan, k, lang == 'span')
    return t + 'int main() {\n' + ''.join(f'  std::printf("#{k}\\n"); run_{k}();\n' for k in range(len(items))) + '}\n'


# ---------------------------------------------------------------------------------------- Rust
RUST_HEAD = '''#![allow(warnings)]
use std::cell::RefCell;
use std::collections::HashMap;
thread_local! { static MEMO: RefCell<(f64, HashMap<(String, Vec<i64>), Vec<f64>>)> = RefCell::new((101.0, HashMap::new())); }
fn list(v: &[f64]) -> String { if v.is_empty() { "-".to_string() } else { v.iter().map(|x| format!("{}", x)).collect::<Vec<_>>().join(",") } }
pub fn answer(f: &str, i: &Vec<f64>, n: usize) -> Vec<f64> {
  MEMO.with(|m| { let mut m = m.borrow_mut(); let key = (f.to_string(), i.iter().map(|x| x.to_bits() as i64).collect::<Vec<_>>());
    if !m.1.contains_key(&key) { let s = m.0; m.0 += n as f64; m.1.insert(key.clone(), (0..n).map(|k| s + k as f64).collect()); }
    let r = m.1[&key].clone(); println!("C {} {} {}", f, list(i), list(&r)); r })
}
fn begin() { MEMO.with(|m| { let mut m = m.borrow_mut(); m.0 = 101.0; m.1.clear(); }); println!("B"); }
#[derive(Clone, Copy)] pub struct Mat<const R: usize, const C: usize> { pub d: [[f64; C]; R] }
impl<const R: usize, const C: usize> std::ops::Index<(usize, usize)> for Mat<R, C> {
  type Output = f64;
  fn index(&self, ij: (usize, usize)) -> &f64 { &self.d[ij.0][ij.1] }
}
impl<const R: usize, const C: usize> wrenfold_traits::Span2D<R, C> for Mat<R, C> {
  type ValueType = f64;
  fn get(&self, i: usize, j: usize) -> f64 { self.d[i][j] }
}
impl<const R: usize, const C: usize> wrenfold_traits::OutputSpan2D<R, C> for Mat<R, C> {
  type ValueType = f64;
  fn set(&mut self, i: usize, j: usize, v: f64) { self.d[i][j] = v; }
}
pub trait Elem { fn load(p: &mut &[f64]) -> Self; fn dump(&self, p: &mut Vec<f64>); }
impl Elem for f64 {
  fn load(p: &mut &[f64]) -> f64 { let x = p[0]; *p = &p[1..]; x }
  fn dump(&self, p: &mut Vec<f64>) { p.push(*self) }
}
impl Elem for i64 {
  fn load(p: &mut &[f64]) -> i64 { f64::load(p) as i64 }
  fn dump(&self, p: &mut Vec<f64>) { p.push(*self as f64) }
}
impl<const R: usize, const C: usize> Elem for Mat<R, C> {
  fn load(p: &mut &[f64]) -> Self { let mut m = Mat { d: [[0.0; C]; R] }; for i in 0..R { for j in 0..C { m.d[i][j] = f64::load(p); } } m }
  fn dump(&self, p: &mut Vec<f64>) { for i in 0..R { for j in 0..C { p.push(self.d[i][j]) } } }
}
'''


def rtype(t):
    if GI.is_mat(t):
        R, C = GI.dims(t)
        return f'Mat<{R}, {C}>'
    return 'f64' if t == 's' else 'i64' if t == 'i' else t


def rust_unit(items):
    t = RUST_HEAD
    for k, (plan, lang, code) in enumerate(items):
        nm, ns = Names(plan), plan['name']
        t += f'mod {ns} {{\n{code}\nuse crate::*;\n'
        for n, fs in plan['types']:
            fs = fs or [('value', 's')]
            t += f"#[derive(Clone, Copy)] pub struct {n} {{ {arglist([f'pub {f}: {rtype(ft)}' for f, ft in fs])} }}\n"
            t += f"impl Elem for {n} {{ fn load(p: &mut &[f64]) -> Self {{ {' '.join(f'let f_{f} = <{rtype(ft)} as Elem>::load(p);' for f, ft in fs)} {n} {{ {arglist([f'{f}: f_{f}' for f, _ in fs])} }} }}\n"
            t += f"  fn dump(&self, p: &mut Vec<f64>) {{ {' '.join(f'self.{f}.dump(p);' for f, _ in fs)} }} }}\n"
        for n, ps, rt in plan['exts']:
            par, gen, body = [], [], ''
            for i, (_, pt) in enumerate(ps):
                if GI.is_mat(pt):
                    R, C = GI.dims(pt)
                    gen.append(f'M{i}: wrenfold_traits::Span2D<{R}, {C}, ValueType = f64>')
                    par.append(f'a{i}: &M{i}')
                    body += f'for i in 0..{R} {{ for j in 0..{C} {{ a{i}.get(i, j).dump(&mut x); }} }} '
                else:
                    par.append(f'a{i}: {rtype(pt)}' if pt in ('s', 'i') else f'a{i}: &{rtype(pt)}')
                    body += f'a{i}.dump(&mut x); '
            t += f"pub fn {n}{'<' + arglist(gen) + '>' if gen else ''}({arglist(par)}) -> {rtype(rt)} {{ let mut x: Vec<f64> = vec![]; {body}"
            t += f"let r = answer(\"{n}\", &x, {len(nm.leaves(rt))}); <{rtype(rt)} as Elem>::load(&mut &r[..]) }}\n"
        t += f'pub fn runs() {{\n'
        for run in plan['runs']:
            vals = [run['env'][p] + '.0' for n, at in plan['args'] for p, _ in nm.leaves(at, n)]
            t += f'  {{ begin(); let in_: Vec<f64> = vec![{arglist(vals)}]; let mut p_: &[f64] = &in_[..];\n'
            call, after, ret = [], '', None
            for n, at in plan['args']:
                t += f'    let {n} = <{rtype(at)} as Elem>::load(&mut p_);\n'
                call.append(n if at in ('s', 'i') else '&' + n)
            for i, o in enumerate(plan['outs']):
                n, ot = o['n'], o['t']
                if o['u'] == 'ret':
                    ret = i
                    continue
                t += f'    let mut {n} = <{rtype(ot)} as Elem>::load(&mut &vec![-1.0; {len(nm.leaves(ot))}][..]);\n'
                after += f'    {n}.dump(&mut o_[{i}]);\n'
                call.append(f'&mut {n}' if o['u'] == 'out' else f'Some(&mut {n})' if run['req'][i] else f'None::<&mut {rtype(ot)}>')
            t += f"    let mut o_: Vec<Vec<f64>> = vec![vec![]; {len(plan['outs'])}];\n"
            e = f'{ns}({arglist(call)})'
            t += f'    {e};\n' if ret is None else f"    let r_: {rtype(plan['outs'][ret]['t'])} = {e}; r_.dump(&mut o_[{ret}]);\n"
            t += after + '    println!("R {}", o_.iter().map(|v| list(v)).collect::<Vec<_>>().join(" ")); }\n'
        t += '}\n}\n'
    return t + 'fn main() {\n' + ''.join(f"  println!(\"#{k}\"); {it[0]['name']}::runs();\n" for k, it in enumerate(items)) + '}\n'


# ---------------------------------------------------------------------------------------- the C++ front end
def front_ok(plan):
    """Declarations the C++ front end can express."""
    return (all(f for _, f in plan['types']) and all(rt != 'i' for _, _, rt in plan['exts']) and 'eigen' in plan['langs'])


def ftype(t, ns=''):
    if t in ('s', 'i'):
        return 'scalar_expr' if t == 's' else 'ta::int_scalar_expr'
    if GI.is_mat(t):
        R, C = GI.dims(t)
        return f'ta::static_matrix<{R}, {C}>'
    return ns + t


def felem(p):
    if p[0] == '=':
        return f'scalar_expr({p[1:]})'
    p = p.replace('#', 'r').replace('[', '(').replace(']', ')')
    return f'static_cast<const scalar_expr&>({p})'


def front_unit(plans):
    t = f'#include "{E.NATIVE}/front.h"\n'
    for k, plan in enumerate(plans):
        ns = plan['name']
        nm = Names(plan)
        sig = {n: (ps, rt) for n, ps, rt in plan['exts']}
        for n, fs in plan['types']:
            t += f'namespace {ns} {{ struct {n} {{'
            for f, ft in reversed(fs):       # the order that counts is the registered one
                z = '{0}' if ft in ('s', 'i') else '{' + arglist(['0'] * len(nm.leaves(ft))) + '}' if GI.is_mat(ft) else '{}'
                if ft == '1x1':
                    z = '{wf::make_matrix(1, 1, 0)}'
                t += f' {ftype(ft)} {f}{z};'
            t += ' }; }\n'
            t += f'template <> struct wf::custom_type_registrant<{ns}::{n}> {{ auto operator()(wf::custom_type_registry& r) const {{ return wf::custom_type_builder<{ns}::{n}>(r, "{n}")'
            t += ''.join(f'.add_field("{f}", &{ns}::{n}::{f})' for f, _ in fs) + '; } };\n'
        t += f'namespace {ns} {{\n'
        for n, ps, rt in plan['exts']:
            t += f'struct ext_{n} : wf::declare_external_function<ext_{n}, {ftype(rt)}, wf::type_list<{arglist([ftype(pt) for _, pt in ps])}>> {{\n'
            quoted = arglist(['"' + a + '"' for a, _ in ps])
            t += f'  static constexpr std::string_view name() noexcept {{ return "{n}"; }}\n  static constexpr auto arg_names() noexcept {{ return std::make_tuple({quoted}); }}\n}};\n'

        def value(ot, it):
            if ot in ('s', 'i'):
                return f'{ftype(ot)}{{{felem(next(it))}}}'
            if GI.is_mat(ot):
                R, C = GI.dims(ot)
                return f'{ftype(ot)}{{wf::make_matrix({R}, {C}, {arglist([felem(next(it)) for _ in range(R * C)])})}}'
            return f'[&] {{ {ot} z{{}}; ' + ' '.join(f'z.{f} = {value(ft, it)};' for f, ft in nm.fields[ot]) + ' return z; }()'

        t += f"static auto body({arglist([f'{ftype(at)} {n}' for n, at in plan['args']])}) {{\n"
        for i, c in enumerate(plan['calls'], 1):
            ps, rt = sig[c['f']]
            t += f"  const auto r{i} = ext_{c['f']}::call({arglist([value(pt, iter(a)) for (_, pt), a in zip(ps, c['a'])])});\n"
        outs = []
        for o in plan['outs']:
            v = value(o['t'], iter(o['e']))
            outs.append(f'wf::return_value({v})' if o['u'] == 'ret' else
                        f"wf::{'optional_output_arg' if o['u'] == 'opt' else 'output_arg'}(\"{o['n']}\", {v})")
        t += f'  return std::make_tuple({arglist(outs)});\n}}\n'
        names = ''.join(f', wf::arg("{n}")' for n, _ in plan['args'])
        ex = ' + "," + '.join(f'ext<ext_{n}>()' for n, _, _ in plan['exts']) or 'std::string{}'
        t += f"inline void show_all() {{ show(wf::build_function_description(&body, \"{ns}\"{names}), {ex}, {plan['fact']}, {['false', 'true'][plan['tern']]}, \"{ns}\"); }}\n}}\n"
    calls = ''.join(f"  std::printf(\"#{k}\\n\"); try {{ {p['name']}::show_all(); }} catch (const std::exception& e) {{ std::printf(\"X %s\\n\", e.what()); }}\n" for k, p in enumerate(plans))
    return t + 'int main() {\n' + calls + '}\n'


def front(plans, wd, tag):
    """Run declarations through the C++ front end: {plan id: (description or None, code or error)}."""
    src, exe = f'{wd}/{tag}.cc', f'{wd}/{tag}.exe'
    open(src, 'w').write(front_unit(plans))
    r = subprocess.run(['g++', '-std=gnu++20', '-O0', '-w', '-DFMT_HEADER_ONLY=1', f'-I{H.REPO}/components/core', f'-I{H.REPO}/components/runtime', src,
                        f'{H.VERIF}/build/wf/components/core/libwf_core.a', '-o', exe] + FRONT_LIBS, capture_output=True, text=True, timeout=800)
    if r.returncode:
        if 'Killed' in r.stderr or 'out of memory' in r.stderr or 'No space' in r.stderr:
            raise H.ToolError('compiler failed: ' + r.stderr[-500:])
        if len(plans) > 1:
            out = {}
            for i, p in enumerate(plans):
                out.update(front([p], wd, f'{tag}_{i}'))
            return out
        i = r.stderr.find('error')
        return {plans[0]['id']: (None, 'the declaration does not compile: ' + r.stderr[max(0, i - 100):i + 600])}
    r = subprocess.run([exe], capture_output=True, text=True, timeout=120)
    os.unlink(exe)
    out, cur, code = {}, None, None
    for line in r.stdout.split('\n'):
        if code is not None:
            if line == '>>>':
                out[cur] = (out[cur][0], '\n'.join(code))
                code = None
            else:
                code.append(line)
        elif line.startswith('#'):
            cur = plans[int(line[1:])]['id']
            out[cur] = (None, f'no answer (exit {r.returncode})')
        elif line.startswith('D '):
            out[cur] = (json.loads(line[2:]), out[cur][1])
        elif line.startswith('X '):
            out[cur] = (None, line[2:])
        elif line == '<<<':
            code = []
    return out


FRONT_LIBS = ['-Wl,--as-needed'] + sorted(glob.glob('/usr/lib/*/libabsl_*.so'))
LANG = dict(cpp=(cpp_unit, E.cpp_compile, 'cc'), rust=(rust_unit, E.rust_compile, 'rs'))


def nums(s):
    return [] if s == '-' else [frac_str(Fraction(float(x))) if 'n' not in x else 'U' for x in s.split(',')]


def form(s):
    d, t = s.split(':')
    return dict(d=d, t=T(t) if t != 'void' else dict(k='void', r=0, c=0, n=''))


def build_and_run(kind, items, wd, tag):
    """Compile one batch and run it: (legs by (plan id, lang), [(item, how, text)])."""
    unit, comp, ext = LANG[kind]
    legs, bad = {}, []

    def attempt(its, name):
        src, exe = f'{wd}/{name}.{ext}', f'{wd}/{name}.exe'
        open(src, 'w').write(unit(its))
        r = comp(src, exe)
        if r.returncode:
            if 'Killed' in r.stderr or 'out of memory' in r.stderr or 'No space' in r.stderr:
                raise H.ToolError('compiler failed: ' + r.stderr[-500:])
            return 'does not compile for a caller of the declared signature', r.stderr
        try:
            r = subprocess.run([exe], capture_output=True, text=True, timeout=120)
        except subprocess.TimeoutExpired:
            return 'hang', ''
        finally:
            os.unlink(exe)
        leg = None
        for line in r.stdout.split('\n'):
            w = line.split()
            if not w:
                continue
            if w[0][0] == '#':
                it = its[int(w[0][1:])]
                leg = legs[it[0]['id'], it[1]] = dict(lang=it[1], sig=[], runs=[])
            elif w[0] == 'S':
                leg['sig'] = [form(x) for x in w[1:]]
            elif w[0] == 'B':
                leg['runs'].append(dict(log=[], obs=[]))
            elif w[0] == 'C':
                leg['runs'][-1]['log'].append(dict(f=w[1], i=nums(w[2]), o=nums(w[3])))
            elif w[0] == 'R':
                leg['runs'][-1]['obs'] = [nums(x) for x in w[1:]]
        return (f'exit {r.returncode}', r.stderr[-400:]) if r.returncode else ('', '')

    how, text = attempt(items, tag)
    if how:
        legs.clear()
        for i, it in enumerate(items):
            h, t = attempt([it], f'{tag}_{i}')
            if h:
                legs.pop((it[0]['id'], it[1]), None)
                bad.append((it, h, t))
                if len(bad) >= 3:
                    break
        if not bad:
            raise H.ToolError(f'batch {tag} fails ({how}) but no single function of it does:\n{text[-1500:]}')
    return legs, bad


def ref(p):
    return dict(k='lit', v=p[1:]) if p[0] == '=' else dict(k='path', v=p)


def trace_of(plan, t, legs, descs):
    return dict(
        id=plan['id'], name=plan['name'], types=[dict(n=n, fs=[dict(f=f, t=T(x)) for f, x in fs]) for n, fs in plan['types']],
        args=[dict(n=n, t=T(x)) for n, x in plan['args']],
        exts=[dict(n=n, ps=[dict(n=a, t=T(x)) for a, x in ps], r=T(rt)) for n, ps, rt in plan['exts']],
        calls=[dict(f=c['f'], a=[ref(p) for a in c['a'] for p in a]) for c in plan['calls']],
        outs=[dict(u=o['u'], n=o['n'], t=T(o['t']), e=[ref(p) for p in o['e']]) for o in plan['outs']],
        runs=plan['runs'], descs=descs, legs=legs,
        tries=[dict(k=a['k'], ok=ok, f=a.get('f', ''), pos=[T(x) for x in a.get('pos', [])] if a['k'] == 'call' else [],
                    kw=[dict(n=n, t=T(x)) for n, x in a.get('kw', [])], outs=[dict(u=u, n=n) for u, n in a.get('outs', [])],
                    t=T(a.get('t', 's')), fs=[T(x) for x in a.get('fs', [])],
                    ps=[n for n, _ in a.get('ps', [])]) for a, ok in zip(plan['attempts'], t['tries'])])


def check(rep, plans, wd, tag='i', batch=12, nfront=40, per=5):
    byid = {p['id']: p for p in plans}
    got, crashes = H.run_recorder('record_iface.py', plans, wd, tag)
    for plan, _, how, text in crashes:
        if how == 'hang':
            rep.add('hangs_dropped', 1)
            continue
        rep.violation(f'crash {show(plan)}', f'process terminated ({how}) on {show(plan)} :: ' + text.strip()[-200:], dict(plan=plan, text=text))
    for t in [t for t in got if 'raised' in t]:
        rep.violation(f"raised {show(byid[t['id']])}", f"{t['raised']}: {show(byid[t['id']])}", dict(plan=byid[t['id']], raised=t['raised']))
    got = [t for t in got if 'raised' not in t]
    err = E.rust_traits(wd)
    if err:
        rep.violation('traits', 'the runtime traits do not compile: ' + err[:400], dict(err=err))
        return
    ok = {t['id'] for t in got}
    native = [p for p in plans if p['id'] in ok and front_ok(p)][:nfront]
    units = [native[i:i + per] for i in range(0, len(native), per)]
    with ThreadPoolExecutor(H.NPROC) as ex:
        res = list(ex.map(lambda q: front(q[1], wd, f'{tag}f{q[0]}'), enumerate(units)))
    fdesc, fcode = {}, {}
    for r in res:
        for i, (d, text) in r.items():
            if d is None:
                rep.violation(f'front end {show(byid[i])}', f'C++ front end: {text} for {show(byid[i])}', dict(plan=byid[i], text=text))
            else:
                fdesc[i], fcode[i] = d, text
    work = []
    pycode = {t['id']: c['code'] for t in got for c in t['codes'] if c['lang'] == 'eigen'}
    other = [(byid[i], 'eigen', c) for i, c in fcode.items() if c != pycode.get(i)]      # the same text needs no second run
    rep.add('declared_in_cpp', len(fdesc))
    rep.add('declared_in_cpp_same_code', len(fdesc) - len(other))
    if other:
        work += [('cpp', other[i:i + batch], f'{tag}o{i}') for i in range(0, len(other), batch)]
    for kind, langs in (('cpp', ('eigen', 'span')), ('rust', ('rust',))):
        items = [(byid[t['id']], c['lang'], c['code']) for t in got for c in t['codes'] if c['lang'] in langs]
        work += [(kind, items[i:i + batch], f'{tag}{kind}{i}') for i in range(0, len(items), batch)]
    with ThreadPoolExecutor(H.NPROC) as ex:
        res = list(ex.map(lambda q: build_and_run(q[0], q[1], wd, q[2]), work))
    native, again = {}, {}
    for (_, its, name), (legs, bad) in zip(work, res):
        (again if name.startswith(f'{tag}o') else native).update(legs)
        for (plan, lang, code), how, text in bad:
            i = text.find('error')
            rep.violation(f'{how} {lang} {show(plan)}', f'{lang}: {how}: {text[max(0, i - 100):i + 500]}\n for {show(plan)}\n{code}',
                          dict(plan=plan, lang=lang, code=code, how=how, text=text))
    traces, codes = [], {}
    for t in got:
        plan = byid[t['id']]
        legs = [dict(lang=l['lang'], sig=[dict(p) for p in l['sig']], runs=l['runs']) for l in t['legs']]
        legs += [native[plan['id'], c['lang']] for c in t['codes'] if (plan['id'], c['lang']) in native]
        if (plan['id'], 'eigen') in again:
            legs.append(again[plan['id'], 'eigen'])
        for l in t['legs'] + t['codes']:
            codes[plan['id'], l['lang']] = l['code']
        descs = [dict(t['desc'], front='Python')]
        if t['id'] in fdesc:
            descs.append(dict(fdesc[t['id']], front='C++'))
        traces.append(trace_of(plan, t, legs, descs))
    if not traces:
        return
    path = f'{wd}/{tag}.ndjson'
    H.write_ndjson(path, traces)
    out, stats, marks = H.run_tlc('Interface', 'Interface.cfg', wd, env=dict(TRACE=path))
    ends = [b for m, b in marks if m in ('REJECT', 'DONE')]
    missing = {t['id'] for t in traces} - {b['id'] for b in ends}
    if missing:
        raise H.ToolError(f'TLC did not finish {sorted(missing)[:5]}\n' + out[-2000:])
    rep.tlc(stats)
    rep.add('traces_validated_against_impl', sum(len(t['legs']) for t in traces))
    rep.add('functions', len(traces))
    rep.add('calls_made', sum(len(l['runs']) for t in traces for l in t['legs']))
    rep.add('external_calls', sum(len(r['log']) for t in traces for l in t['legs'] for r in l['runs']))
    rep.add('elements_compared', sum(b.get('cmp', 0) for b in ends))
    rep.add('uses_attempted', sum(len(t['tries']) for t in traces))
    for m, b in marks:
        if m == 'REJECT':
            plan = byid[b['id']]
            rep.violation(f"{b['what']} {b['lang']} {show(plan)}",
                          f"{b['lang']}: {b['what']} (run {b['run']}): {b['detail']} for {show(plan)}\n{codes.get((b['id'], b['lang']), '')}",
                          dict(plan=plan, reject=b, code=codes.get((b['id'], b['lang']), '')))
    for t in traces[:3]:
        rep.sample(dict(function=show(byid[t['id']])[:400], legs=[l['lang'] for l in t['legs']], log=t['legs'][0]['runs'][0] if t['legs'] else []))
