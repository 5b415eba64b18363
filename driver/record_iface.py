"""Realize interface plans (gen_iface.py) with the real library: what it reports about the declared signature, the code it
emits, the calls of emitted Python, and which misuses it accepts.
usage: record_iface.py PLANS OUT PROGRESS"""
import dataclasses
import inspect
import os
import re
import sys
import types
import warnings
from typing import Annotated

os.environ['JAX_ENABLE_X64'] = '1'
sys.path.insert(0, os.path.dirname(__file__))
import gen_iface as GI
import numpy as np
import record_emit
from wfdump import frac_str
from fractions import Fraction
from wrenfold import code_generation as cg, sym, type_annotations as ta, type_info as ti
from wrenfold.code_generation import OutputArg, ReturnValue
from wrenfold.external_functions import declare_external_function

warnings.filterwarnings('ignore')


def T(t):
    """A declared type as the specification reads it."""
    if t in ('s', 'i'):
        return dict(k=t, r=0, c=0, n='')
    if GI.is_mat(t):
        r, c = GI.dims(t)
        return dict(k='m', r=r, c=c, n='')
    return dict(k='c', r=0, c=0, n=t)


def reported(t):
    """A type of the library, with everything below it."""
    if isinstance(t, ti.ScalarType):
        k = {ti.NumericType.Float: 's', ti.NumericType.Integer: 'i'}.get(t.numeric_type, 'b')
        return dict(k=k, r=0, c=0, n='', fs=[], size=1)
    if isinstance(t, ti.MatrixType):
        return dict(k='m', r=t.rows, c=t.cols, n='', fs=[], size=t.rows * t.cols)
    return dict(k='c', r=0, c=0, n=t.name, fs=[dict(f=f.name, t=reported(f.type)) for f in t.fields], size=t.total_size)


class World:
    """The user's types and external functions."""

    def __init__(self, plan):
        self.plan = plan
        self.fields = {n: f for n, f in plan['types']}
        self.py = {}
        for n, f in plan['types']:
            self.py[n] = dataclasses.make_dataclass(n, [(a, self.ann(t)) for a, t in f]) if f else type(n, (ta.Opaque,), {})
        self.exts = {n: declare_external_function(n, [(a, self.ann(t)) for a, t in ps], self.ann(rt)) for n, ps, rt in plan['exts']}
        self.sig = {n: (ps, rt) for n, ps, rt in plan['exts']}

    def ann(self, t):
        if t == 's':
            return ta.FloatScalar
        if t == 'i':
            return ta.IntScalar
        if GI.is_mat(t):
            r, c = GI.dims(t)
            return Annotated[sym.MatrixExpr, ta.Shape(rows=r, cols=c)]
        return self.py[t]

    def leaves(self, t, p=''):
        if t in ('s', 'i'):
            return [(p, t)]
        if GI.is_mat(t):
            R, C = GI.dims(t)
            return [(f'{p}[{i},{j}]', 's') for i in range(R) for j in range(C)]
        if not self.fields[t]:
            return [(p, t)]
        return [x for f, ft in self.fields[t] for x in self.leaves(ft, f'{p}.{f}')]

    def elements(self, t, o, p):
        if t in ('s', 'i'):
            return [(p, o)]
        if GI.is_mat(t):
            R, C = GI.dims(t)
            return [(f'{p}[{i},{j}]', o[i, j]) for i in range(R) for j in range(C)]
        if not self.fields[t]:
            return [(p, o)]
        return [x for f, ft in self.fields[t] for x in self.elements(ft, getattr(o, f), f'{p}.{f}')]

    def build(self, t, it, matrix):
        if t in ('s', 'i') or t in self.fields and not self.fields[t]:
            return next(it)
        if GI.is_mat(t):
            R, C = GI.dims(t)
            return matrix([[next(it) for _ in range(C)] for _ in range(R)])
        return self.py[t](**{f: self.build(ft, it, matrix) for f, ft in self.fields[t]})


def lit(x):
    return sym.Expr(int(x[1:]))


def function(plan, w):
    def body(**kw):
        env = {}
        for n, t in plan['args']:
            env.update(w.elements(t, kw[n], n))
        get = lambda p: lit(p) if p[0] == '=' else env[p]
        for i, c in enumerate(plan['calls'], 1):
            ps, rt = w.sig[c['f']]
            vals = [w.build(t, iter([get(p) for p in a]), sym.matrix) for (_, t), a in zip(ps, c['a'])]
            res = w.exts[c['f']](*vals[:c['pos']], **{ps[k][0]: vals[k] for k in c['kw']})
            env.update(w.elements(rt, res, f'#{i}'))
        out = []
        for o in plan['outs']:
            v = w.build(o['t'], iter([get(p) for p in o['e']]), sym.matrix)
            out.append(ReturnValue(v) if o['u'] == 'ret' else OutputArg(v, name=o['n'], is_optional=o['u'] == 'opt'))
        return out

    ns = dict(_body=body)
    names = [n for n, _ in plan['args']]
    exec(f"def {plan['name']}({', '.join(names)}):\n    return _body({', '.join(f'{n}={n}' for n in names)})\n", ns)
    fn = ns[plan['name']]
    fn.__annotations__ = {n: w.ann(t) for n, t in plan['args']}
    return fn


def describe(plan, w, fn):
    d = cg.create_function_description(fn)
    dirs = {cg.ArgumentDirection.Input: 'in', cg.ArgumentDirection.Output: 'out', cg.ArgumentDirection.OptionalOutput: 'opt'}
    return dict(name=d.name,
                params=[dict(n=a.name, d=dirs[a.direction], t=reported(a.type), opt=int(a.is_optional), inp=int(a.is_input)) for a in d.arguments],
                exts=[dict(n=n, num=f.num_arguments, ps=[dict(n=a.name, t=reported(a.type), at=f.arg_position(a.name)) for a in f.arguments],
                           r=reported(f.return_type)) for n, f in w.exts.items()])


def generator(plan, lang):
    G, W = cg.PythonGeneratorTarget, cg.PythonGeneratorFloatWidth
    if lang in ('eigen', 'span'):
        return cg.CppGenerator(cg.CppMatrixTypeBehavior.Eigen if lang == 'eigen' else cg.CppMatrixTypeBehavior.GenericSpan)
    if lang == 'rust':
        return cg.RustGenerator()
    return cg.PythonGenerator(target=dict(numpy=G.NumPy, numpyout=G.NumPy, torch=G.PyTorch, jax=G.JAX)[lang],
                              float_width=W.Float64, use_output_arguments=lang == 'numpyout')


# ------------------------------------------------------------------------------------- emitted Python
class Handle:
    """What the caller passes for a type the library knows nothing about."""

    def __init__(self, value):
        self.value = value


def show(x):
    v = float(x)
    return frac_str(Fraction(v)) if v == v and abs(v) != float('inf') else 'U'


class Runtime:
    def __init__(self, plan, w, lang):
        self.plan, self.w = plan, w
        if lang == 'torch':
            import torch
            self.arr = self.num = lambda m: torch.tensor(m, dtype=torch.float64)
        elif lang == 'jax':
            import jax.numpy as jnp
            self.arr = lambda m: jnp.array(m, dtype=jnp.float64)
            self.num = float
        else:
            self.arr, self.num = (lambda m: np.array(m, dtype=np.float64)), float
        self.log, self.memo, self.next = [], {}, 101

    def value(self, t, xs):
        """The object whose elements are the numbers xs."""
        it = iter([self.num(float(x)) if lt == 's' else int(x) if lt == 'i' else Handle(float(x)) for (_, lt), x in zip(self.w.leaves(t), xs)])
        return self.w.build(t, it, lambda m: self.arr([[float(x) for x in r] for r in m]))

    def flat(self, t, o, exact=True):
        if t in ('s', 'i'):
            a = np.asarray(o)
            if a.size != 1:
                raise TypeError(f'{a.shape} for a scalar')
            return [show(a.reshape(-1)[0])]
        if GI.is_mat(t):
            a, d = np.asarray(o), GI.dims(t)
            if tuple(a.shape) != d and (exact or 1 not in d or a.shape != (max(d),)):
                raise TypeError(f'shape {a.shape} for {t}')
            return [show(x) for x in a.reshape(-1)]
        if not self.w.fields[t]:
            return [show(o.value)]
        if type(o) is not self.w.py[t]:
            raise TypeError(f'{type(o).__name__} for {t}')
        return [x for f, ft in self.w.fields[t] for x in self.flat(ft, getattr(o, f), exact)]

    def external(self, name):
        ps, rt = self.w.sig[name]

        def f(*a):
            if len(a) != len(ps):
                raise TypeError(f'{len(a)} arguments to {name}')
            xs = [x for (_, t), o in zip(ps, a) for x in self.flat(t, o, False)]
            key = (name, tuple(xs))
            if key not in self.memo:
                n = len(self.w.leaves(rt))
                self.memo[key] = [str(self.next + i) for i in range(n)]
                self.next += n
            self.log.append(dict(f=name, i=xs, o=self.memo[key]))
            return self.value(rt, self.memo[key])
        return f


def form(a, w):
    """A Python annotation."""
    if isinstance(a, str):
        return a
    if isinstance(a, types.UnionType):
        return ' | '.join(form(x, w) for x in a.__args__)
    if a in (float, int, bool):
        return a.__name__
    if a is type(None):
        return 'None'
    if a in w.py.values():
        return a.__name__
    return 'array' if a.__name__ in ('ndarray', 'Tensor', 'Array') else a.__name__


def run_python(plan, w, fn, lang):
    g = generator(plan, lang)
    ctx = dict(w.py)
    holder = {}
    for n in w.exts:
        ctx[n] = lambda *a, n=n: holder['rt'].external(n)(*a)
    f, code = cg.generate_python(fn, g, convert_ternaries=bool(plan['tern']), context=ctx)
    sig = []
    for p in inspect.signature(f).parameters.values():
        sig.append(dict(n=p.name, t=form(p.annotation, w), d=int(p.default is not inspect.Parameter.empty)))
    runs = []
    order = [i for i, o in enumerate(plan['outs']) if o['u'] == 'ret'] + [i for i, o in enumerate(plan['outs']) if o['u'] != 'ret']
    for run in plan['runs']:
        rt = holder['rt'] = Runtime(plan, w, lang)
        args = {n: rt.value(t, [run['env'][p] for p, _ in w.leaves(t, n)]) for n, t in plan['args']}
        obs = [['none'] for _ in plan['outs']]
        if lang == 'numpyout':
            bufs = {}
            for i, o in enumerate(plan['outs']):
                if o['u'] == 'ret':
                    continue
                if run['req'][i]:
                    args[o['n']] = bufs[i] = np.full(GI.dims(o['t']), -1.0)
                elif not next(p['d'] for p in sig if p['n'] == o['n']):
                    args[o['n']] = None
            res = f(**args)
            for i, b in bufs.items():
                obs[i] = [show(x) for x in b.reshape(-1)]
            for i, o in enumerate(plan['outs']):
                if o['u'] == 'ret':
                    obs[i] = rt.flat(o['t'], res)
        else:
            for i, o in enumerate(plan['outs']):
                if o['u'] == 'opt':
                    args['compute_' + o['n']] = bool(run['req'][i])
            res = f(**args)
            res = [res] if len(order) == 1 else list(res)
            if len(res) != len(order):
                raise TypeError(f'{len(res)} objects returned')
            for i, x in zip(order, res):
                if x is not None:
                    obs[i] = rt.flat(plan['outs'][i]['t'], x)
        runs.append(dict(log=rt.log, obs=obs))
    return dict(lang=lang, sig=sig, code=code, runs=runs)


# ------------------------------------------------------------------------------------- misuse
def value_for(w, d, t, i):
    if t in ('s', 'i'):
        return sym.symbols(f'q{i}')
    if t == 'num':
        return 2.5 if i % 2 else 3
    if t == 'bool':
        return sym.symbols(f'q{i}') < 1
    if GI.is_mat(t):
        r, c = GI.dims(t)
        return sym.matrix([[sym.symbols(f'q{i}_{a}{b}') for b in range(c)] for a in range(r)])
    if not w.fields[t]:
        return w.py[t](provenance=d.add_input_argument(f'q{i}', ti.CustomType(t, [], w.py[t])))
    it = (sym.symbols(f'q{i}_{k}') for k in range(999))
    return w.build(t, it, sym.matrix)


def attempt(w, a, plan):
    """Does the library accept this use?"""
    d = cg.FunctionDescription('misuse')
    try:
        if a['k'] == 'call':
            w.exts[a['f']](*[value_for(w, d, t, i) for i, t in enumerate(a['pos'])],
                           **{n: value_for(w, d, t, 50 + i) for i, (n, t) in enumerate(a['kw'])})
        elif a['k'] == 'construct':
            v = w.py[a['t']](**{f: None if t == 'none' else value_for(w, d, t, i) for i, ((f, _), t) in enumerate(zip(w.fields[a['t']], a['fs']))})
            if a['how'] == 'arg':
                declare_external_function('ext', [('a', w.py[a['t']])], w.ann('s'))(v)
            else:
                def g():
                    return [ReturnValue(v) if a['how'] == 'ret' else OutputArg(v, name='o')]
                cg.create_function_description(g)
        elif a['k'] == 'describe':
            def f(**kw):
                x = sym.symbols('x')
                return [ReturnValue(x) if u == 'ret' else OutputArg(x, name=n, is_optional=u == 'opt') for u, n in a['outs']]
            names = [n for n, _ in plan['args']]
            ns = dict(_f=f)
            exec(f"def g({', '.join(names)}):\n    return _f()\n", ns)
            ns['g'].__annotations__ = {n: w.ann(t) for n, t in plan['args']}
            cg.create_function_description(ns['g'])
        else:
            declare_external_function('ext', [(n, w.ann(t)) for n, t in a['ps']], w.ann('s'))
    except (TypeError, RuntimeError, KeyError, AttributeError, ValueError, AssertionError) as e:
        return 0
    except Exception as e:
        if type(e).__module__.startswith(('wrenfold', 'pywrenfold')) or 'wf' in type(e).__module__:
            return 0
        raise
    return 1


def record(plan):
    w = World(plan)
    fn = function(plan, w)
    out = dict(id=plan['id'], desc=describe(plan, w, fn), legs=[], codes=[], tries=[])
    for lang in plan['langs']:
        try:
            if lang in ('eigen', 'span', 'rust'):
                p = cg.OptimizationParams()
                p.factorization_passes = plan['fact']
                g = generator(plan, lang)
                code = cg.generate_function(fn, g, optimization_params=p, convert_ternaries=bool(plan['tern']))
                code = g.apply_preamble(code) if lang == 'rust' else g.apply_preamble(code, plan['name'])
                out['codes'].append(dict(lang=lang, code=code))
            else:
                out['legs'].append(run_python(plan, w, fn, lang))
        except Exception as e:
            if record_emit.refused(e):
                continue
            return dict(id=plan['id'], raised=f'{lang}: {type(e).__name__}: {str(e)[:300]}')
    for a in plan['attempts']:
        out['tries'].append(attempt(w, a, plan))
    return out


record_emit.run_py = record
if __name__ == '__main__':
    record_emit.main()
