"""Generate Python for user functions with the real library, execute the histories of calls.
usage: run_py.py PLANS OUT PROGRESS"""
import os
import struct
import sys
import warnings
from fractions import Fraction

os.environ['JAX_ENABLE_X64'] = '1'
sys.path.insert(0, os.path.dirname(__file__))
import funcs
import gen_func as GF
import numpy as np
import record_emit
from emitted import sentinel
from wfdump import frac_str
from wrenfold import code_generation as cg

warnings.filterwarnings('ignore')


def interp(sh, xs):
    s = sh
    for i, x in enumerate(xs, 1):
        s = s + x * (2 * i + 1) / (i + 3)
    return s * (1 + sh / 5) + 2.0 / 11 * (xs[0] * xs[-1])


def flat(m):
    return [float(x) for x in np.asarray(m).reshape(-1)]


def context(num=float, arr=np.array):
    """`num` is the kind of number the caller keeps in its own objects (tensors for torch)."""
    T = {n: funcs.pytype(n) for n in GF.TYPES}
    P, B = T['Point2'], T['Box']
    c = dict(T)
    c['ext_s'] = lambda a, b: num(interp(0.5, [float(a), float(b)]))
    c['ext_v'] = lambda v, s: num(interp(-0.75, flat(v) + [float(s)]))
    c['ext_m'] = lambda a: arr([[interp(1 / 3, [float(a)]), interp(-0.4, [float(a)])],
                                     [interp(7 / 8, [float(a)]), interp(-1.25, [float(a)])]])
    c['ext_n'] = lambda v, s: arr([[interp(sh, flat(v) + [float(s)]) for sh in (2 / 9, -5 / 7, 11 / 8)],
                                   [interp(sh, flat(v) + [float(s)]) for sh in (-4 / 3, 6 / 5, -1 / 9)]])
    c['ext_p'] = lambda s, p: P(x=num(interp(3 / 7, [float(s), float(p.x), float(p.y)])),
                                y=num(interp(-1 / 6, [float(s), float(p.x), float(p.y)])))
    c['ext_0'] = lambda: num(1.4)
    c['ext_i'] = lambda a: -2 if a < 0 else 3
    c['ext_t'] = lambda t, a: num(interp(1.8, [t.value, float(a)]))

    def ext_b(m, b):
        xs = flat(m) + flat(b.t) + [float(b.k)]
        f = lambda sh: num(interp(sh, xs))
        return B(a=P(x=f(1 / 8), y=f(-3 / 8)), m=arr([[float(f(5 / 8)), float(f(-7 / 8))], [float(f(9 / 8)), float(f(-11 / 8))]]), w=f(13 / 8))
    c['ext_b'] = ext_b
    return c


def number(x):
    v = float(x)
    return 'U' if v != v or v in (float('inf'), -float('inf')) else frac_str(Fraction(v))


def build(t, it, arr, num=float):
    if t == 's':
        return num(float(next(it)))
    if t == 'i':
        return int(next(it))
    if isinstance(t, (list, tuple)):
        return arr([[float(next(it)) for _ in range(t[1])] for _ in range(t[0])])
    return funcs.pytype(t)(**{n: build(ft, it, arr, num) for n, ft in GF.TYPES[t]})


def flatten(t, o):
    """Elements of a returned object; raises if it does not have the type."""
    if t in ('s', 'i'):
        a = np.asarray(o)
        if a.size != 1:
            raise TypeError('scalar expected')
        return [number(a.reshape(-1)[0])]
    if isinstance(t, (list, tuple)):
        a = np.asarray(o)
        if tuple(a.shape) != tuple(t):
            raise TypeError(f'shape {a.shape}')
        return [number(a[r, c]) for r in range(t[0]) for c in range(t[1])]
    if type(o).__name__ != t:
        raise TypeError(f'type {type(o).__name__}')
    return [x for n, ft in GF.TYPES[t] for x in flatten(ft, getattr(o, n))]


class Buffer:
    """Memory the caller owns, seen as a matrix with arbitrary strides."""

    def __init__(self, i, o, dtype):
        self.lay = o['lay']
        self.cells = np.array([sentinel(i, c) for c in range(self.lay['size'])], dtype=dtype)
        k = self.cells.itemsize
        l = self.lay
        self.view = np.lib.stride_tricks.as_strided(self.cells[l['off']:], (l['rows'], l['cols']), (l['rs'] * k, l['cs'] * k))
        if l['rows'] == 1 and l['how'] == 'eigen':
            self.view = self.view[0]
        elif l['cols'] == 1 and l['how'] in ('eigen', 'span'):
            self.view = self.view[:, 0]

    def obs(self):
        return [number(x) for x in self.cells]


def run_py(plan):
    R = funcs.realize(plan)
    cfg = plan['cfg']
    g = record_emit.generator(cfg)
    f, num = lambda m: np.array(m), float
    if cfg['target'] == 'torch':
        import torch
        dt = torch.float64 if cfg['prec'] == '64' else torch.float32
        f = num = lambda m: torch.tensor(m, dtype=dt)
    ctx = context(num, f)
    try:
        if cfg['fact'] or cfg['bin']:
            code = cg.generate_function(R.func, g, optimization_params=record_emit.params(cfg), convert_ternaries=bool(cfg['tern']))
            ns = dict(ctx)
            exec(g.apply_preamble(code), ns)
            fn = ns[plan['name']]
        else:
            fn, code = cg.generate_python(R.func, g, convert_ternaries=bool(cfg['tern']), context=ctx)
    except Exception as e:
        if record_emit.refused(e):
            return None
        raise
    out = dict(id=plan['id'], nodes=R.nodes, code=code, outs=R.outs, obs=[])
    bufs = [Buffer(i, o, np.float64 if cfg['prec'] == '64' else np.float32) for i, o in enumerate(plan['outs'])]
    order = [i for i, o in enumerate(plan['outs']) if o['u'] == 'ret'] + [i for i, o in enumerate(plan['outs']) if o['u'] != 'ret']
    try:
        for r in plan['runs']:
            args, kw = [], {}
            for a in plan['args']:
                if a['t'] == 'Table':
                    t = funcs.pytype('Table')()
                    t.value = float(Fraction(r['env'][a['n']]))
                    args.append(t)
                else:
                    v = build(a['t'], iter([Fraction(r['env'][p]) for p, _ in GF.leaves(a['t'], a['n'])]), f, num)
                    if isinstance(a['t'], (list, tuple)) and cfg['target'] == 'numpy':
                        h = a['lay']['how']      # the shape and order of an input array are the caller's choice
                        v = v.reshape(-1) if h == 'span' or (h == 'eigen' and 1 in a['t']) else np.asfortranarray(v) if h == 'map' else v
                    args.append(v)
            obs = [None] * len(plan['outs'])
            if cfg['outargs']:
                # required parameters may follow optional ones: then those have no default value
                last = max([i for i, o in enumerate(plan['outs']) if o['u'] == 'out'], default=-1)
                for i, o in enumerate(plan['outs']):
                    if o['u'] == 'out' or (o['u'] == 'opt' and r['req'][i]):
                        kw[o['n']] = bufs[i].view
                    elif o['u'] == 'opt' and i < last:
                        kw[o['n']] = None
                res = fn(*args, **kw)
                for i, o in enumerate(plan['outs']):
                    if o['u'] == 'ret':
                        v = flatten(o['t'], res)
                        bufs[i].cells[:] = [float(Fraction(x)) if x != 'U' else np.nan for x in v]
                        obs[i] = v
                    else:
                        obs[i] = bufs[i].obs()
            else:
                for i, o in enumerate(plan['outs']):
                    if o['u'] == 'opt':
                        kw['compute_' + o['n']] = bool(r['req'][i])
                res = fn(*args, **kw)
                res = [res] if len(order) == 1 else list(res)
                if len(res) != len(order):
                    raise TypeError(f'{len(res)} objects returned, {len(order)} expected')
                for i, x in zip(order, res):
                    o = plan['outs'][i]
                    obs[i] = ['none'] if x is None else flatten(o['t'], x)
            out['obs'].append(obs)
    except Exception as e:
        return dict(id=plan['id'], raised=f'executing: {type(e).__name__}: {str(e)[:300]}', code=code)
    return out


record_emit.run_py = run_py
if __name__ == '__main__':
    record_emit.main()
