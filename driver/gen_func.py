"""Generators of user functions (arguments, body operations, outputs) for the code generation layer.
A plan depends on the seed only."""
import random

from gen_sym import Plan, SMALL, RATS, POS, is_clean

# user types: field name -> type ('s' scalar, 'i' integer, [r, c] matrix, or another type's name)
TYPES = {
    'Point2': [('x', 's'), ('y', 's')],
    'Pose': [('t', [3, 1]), ('k', 's')],
    'Box': [('a', 'Point2'), ('m', [2, 2]), ('w', 's')],
    'Nest': [('b', 'Box'), ('n', 'i'), ('p', 'Point2')],
    'Table': [],    # opaque
}
# external functions: argument types and return type
EXTERNALS = {
    'ext_s': ([('a', 's'), ('b', 's')], 's'),
    'ext_v': ([('v', [2, 1]), ('s', 's')], 's'),
    'ext_m': ([('a', 's')], [2, 2]),
    'ext_p': ([('s', 's'), ('p', 'Point2')], 'Point2'),
    'ext_t': ([('t', 'Table'), ('a', 's')], 's'),
    'ext_b': ([('m', [2, 2]), ('b', 'Pose')], 'Box'),
    'ext_n': ([('v', [1, 3]), ('s', 's')], [2, 3]),
    'ext_0': ([], 's'),
    'ext_i': ([('a', 's')], 'i'),
}


def leaves(t, prefix=''):
    """Element paths of a type, in declaration order (matrices row-major), with their numeric type."""
    if t in ('s', 'i'):
        return [(prefix, t)]
    if isinstance(t, (list, tuple)):
        return [(f'{prefix}[{r},{c}]', 's') for r in range(t[0]) for c in range(t[1])]
    out = []
    for n, ft in TYPES[t]:
        out += leaves(ft, f'{prefix}.{n}')
    return out


VALS = ['-9/8', '5/8', '13/16', '-7/4', '3/8', '21/16', '-5/16', '9/4', '-11/8', '7/16', '19/8', '-3/16', '17/16',
        '-1/2', '1', '-2', '23/32', '-29/16', '31/32', '11/16', '-15/8', '27/16', '-25/32', '37/16']
PVALS = ['9/8', '5/8', '13/16', '7/4', '3/8', '21/16', '5/16', '9/4', '11/8', '7/16', '19/8', '3/16', '17/16']
# generic values, on which no two different expressions happen to agree
GEN = ['-137/100', '29/37', '113/71', '-53/97', '211/89', '-19/83', '7/61', '-173/67', '41/59', '97/79', '-31/43',
       '61/103', '-89/73', '151/101', '-43/127', '71/53', '-23/47', '167/109', '-107/59', '37/89', '83/131', '-67/41']
INTS = ['2', '-3', '0', '5', '1', '-7', '4']


class FPlan(Plan):
    """A plan whose leaves are the elements of the function's arguments."""

    def __init__(self, r, pid, args, **kw):
        self.args = args
        super().__init__(r, pid, [], nsamples=0, **kw)
        self.d['args'] = [dict(n=n, t=t) for n, t in args]
        self.d['outs'] = []
        self.leafs = {}
        self.ints = set()
        self.objs = []      # whole objects: (type, elements)
        for n, t in args:
            first = len(self.kind) + 1
            for path, nt in leaves(t, n):
                i = self.op('in', v=path)
                self.leafs[path] = i
                self.nr[-1] = False
                if nt == 'i':
                    self.ints.add(i)
            if isinstance(t, str) and t not in ('s', 'i', 'Table'):
                self.objs.append((t, list(range(first, len(self.kind) + 1))))

    def op(self, k, a=(), v='', t='s', **kw):
        if k == 'in':
            self.d['ops'].append(dict(k='in', a=[], v=v))
            self.kind.append('s')
            self.nr.append(False)
            self.taint.append(False)
            self.neg.append(True)
            return len(self.kind)
        return super().op(k, a, v, t, **kw)

    def ext(self, name, i, a):
        n = self.op('ext', a, f'{name}#{i}')
        self.nr[-1] = any(self.nr[j - 1] for j in a)
        return n


def sample(r, args, vals):
    e = {}
    for n, t in args:
        if t == 'Table':
            e[n] = r.choice(PVALS)
        for path, nt in leaves(t, n):
            e[path] = r.choice(INTS) if nt == 'i' else r.choice(vals)
    return e


def pick_args(r, ext):
    args = []
    n = r.randint(1, 4)
    names = ['x', 'y', 'q', 'u']
    for i in range(n):
        z = r.random()
        if z < 0.5:
            t = 's'
        elif z < 0.58:
            t = 'i'
        elif z < 0.85 or not ext:
            t = [r.randint(1, 3), r.choice([1, 1, 2, 3])]
        else:
            t = r.choice(['Point2', 'Pose', 'Box', 'Nest'])
        args.append((names[i], t))
    if all(t == 'i' for _, t in args):
        args.append(('z', 's'))
    if ext and r.random() < 0.25:
        args.insert(r.randint(0, len(args)), ('tab', 'Table'))
    return args


def freal(p, avoid_int=False):
    s = [i for i in p.scalars() if is_clean(p, i)]
    r = p.r
    if r.random() < 0.55 and len(s) > 6:
        return r.choice(s[-6:])
    return r.choice(s)


def callable_externals(p, args):
    return [e for e in EXTERNALS if e != 'ext_t' or ('tab', 'Table') in args]


def ext_call(p, name):
    """Call an external function with available operands; all or some of its result elements."""
    r = p.r
    ats, rt = EXTERNALS[name]
    a = []
    for n, t in ats:
        if t == 'Table':
            continue
        for _ in leaves(t):
            a.append(freal(p))
    k = len(leaves(rt))
    out = []
    if isinstance(rt, str) and rt not in ('s', 'i') and r.random() < 0.4:
        out = [p.ext(name, i, a) for i in range(k)]
        p.objs.append((rt, out))
        return out
    for i in sorted(r.sample(range(k), r.randint(1, min(k, 3)))):
        out.append(p.ext(name, i, a))
    return out


def fstep(r, p, safe=True, ext=()):
    """One real-valued construction step; 'safe' keeps floating-point evaluation well conditioned."""
    x = r.random()
    a, b = freal(p), freal(p)
    if ext and r.random() < 0.12:
        return ext_call(p, r.choice(ext))
    if x < 0.20:
        return p.op('add', [freal(p) for _ in range(r.randint(2, 4))], alt=1)
    if x < 0.42:
        return p.op('mul', [freal(p) for _ in range(r.randint(2, 4))], alt=1)
    if x < 0.48:
        return p.op('sub', [a, b])
    if x < 0.52:
        return p.op('neg', [a])
    if x < 0.60:  # sums of products, for the factorizer
        c = freal(p)
        ts = [p.op('mul', [c, freal(p)] + ([freal(p)] if r.random() < 0.4 else []), alt=1) for _ in range(r.randint(2, 4))]
        if r.random() < 0.5:
            ts.append(c if r.random() < 0.5 else freal(p))
        return p.op('add', ts, alt=1)
    if x < 0.66:  # quotient by something away from zero
        d = p.op('add', [p.op('mul', [b, b]), p.num(r.choice(['1', '2', '1/2', '3/2']))])
        return p.op('div', [a, d])
    if x < 0.75:
        e = r.choice(['2', '3', '4', '2', '5', '7', '17'])
        if r.random() < 0.5:
            # real powers of something positive
            q = p.op('add', [p.op('mul', [a, a]), p.num(r.choice(['1', '1/3', '2']))])
            e = r.choice(['1/2', '-1/2', '3/2', '-3/2', '1/3', '-2', '-1', '5/2', '-1/3', '2/3', '-3', 'v'])
            if e == 'v':
                i = p.op('pow', [q, b])
            else:
                i = p.op('pow', [q, p.num(e)])
            p.nr[-1] = p.taint[-1] = False
            return i
        return p.op('pow', [a, p.num(e)])
    if x < 0.86:
        f = r.choice(['sin', 'cos', 'tanh', 'atan', 'exp', 'sinh', 'cosh', 'asinh', 'tan', 'sin', 'cos'])
        if f in ('exp', 'sinh', 'cosh'):
            a = p.op('fn', [a], r.choice(['sin', 'tanh']))
        return p.op('fn', [a], f)
    if x < 0.90:
        f = r.choice(['asin', 'acos', 'atanh', 'acosh', 'log'])
        if f in ('asin', 'acos', 'atanh'):
            q = p.op('mul', [p.op('fn', [a], 'sin'), p.num(r.choice(['1/2', '3/4', '-2/3']))])
        else:
            q = p.op('add', [p.op('mul', [a, a]), p.num(r.choice(['3/2', '2']))])
        i = p.op('fn', [q], f)
        p.nr[-1] = p.taint[-1] = False
        return i
    if x < 0.93:
        return p.op('atan2', [a, b])
    if x < 0.96:
        return p.op('fn', [a], 'abs')
    if x < 0.98:
        return p.op(r.choice(['sign', 'floor']), [a])
    return p.op('uneval', [a])


def frel(p, a=None, b=None):
    r = p.r
    return p.op(r.choice(['lt', 'le', 'gt', 'ge', 'eq', 'lt', 'gt']), [a or freal(p), b or freal(p)], t='b')


def fbranch(p):
    """A conditional over existing values (possibly nested in earlier ones)."""
    r = p.r
    bs = p.bools()
    c = r.choice(bs) if bs and r.random() < 0.45 else frel(p)
    x = r.random()
    if x < 0.70:
        return p.op('where', [c, freal(p), freal(p)])
    if x < 0.80:
        return p.op(r.choice(['min', 'max']), [freal(p), freal(p)])
    if x < 0.90:
        return p.op('iverson', [c])
    a = p.op('where', [c, freal(p), freal(p)])
    return p.op('where', [frel(p, a), freal(p), a])


def dress(p, a):
    """The last value as the operand of an operation; it may be written inside the other's text."""
    r = p.r
    if p.kind[a - 1] != 's':
        return
    b = freal(p)
    x = r.choice(['sign', 'floor', 'sign', 'floor', 'neg', 'mul', 'sub', 'atan2', 'abs', 'lt', 'pow', 'dbl', 'div', 'min'])
    if x == 'abs':
        p.op('fn', [a], 'abs')
    elif x == 'lt':
        p.op('iverson', [p.op('lt', r.choice([[a, b], [b, a]]), t='b')])
    elif x == 'pow':
        p.op('pow', [a, p.num(r.choice(['2', '3', '4']))])
    elif x == 'div':
        p.op('div', [b, p.op('add', [p.op('mul', [a, a]), p.num('1')])])
    elif x == 'dbl':
        p.op(r.choice(['sign', 'floor']), [p.op(r.choice(['min', 'max']), [a, b])])
    else:
        p.op(x, [a] if x in ('sign', 'floor', 'neg') else [a, b] if r.random() < 0.5 else [b, a])


def outputs(p, ret=True, custom=False, optional=True, span=False):
    r = p.r
    comp = [i for i in p.scalars() if is_clean(p, i)]
    nout = r.randint(1, 3)
    outs = []

    def elems(t):
        return [r.choice(comp[-7:]) if r.random() < 0.85 else r.choice(comp) for _ in leaves(t)]

    def ty(mat=True):
        z = r.random()
        if custom and z < 0.25:
            return r.choice(['Point2', 'Pose', 'Box'])
        if mat and z < 0.55:
            return [r.randint(1, 3), r.randint(1, 3)]
        return 's'
    for i in range(nout):
        t = ty()
        outs.append(dict(u='opt' if optional and r.random() < 0.6 else 'out', n=f'o{i}', t=t, e=elems(t)))
    if ret and r.random() < 0.8:
        t = ty(mat=not span)
        outs.insert(r.randint(0, len(outs)), dict(u='ret', n='', t=t, e=elems(t)))
    if custom:
        # whole existing objects: an argument, the result of an external call, or another output again
        for o in outs:
            z = r.random()
            if z < 0.25 and p.objs:
                o['t'], o['e'] = r.choice(p.objs)
            elif z < 0.4 and len(outs) > 1:
                q = r.choice(outs)
                if not (span and o['u'] == 'ret' and not isinstance(q['t'], str)):
                    o['t'], o['e'] = q['t'], list(q['e'])
    p.d['outs'] = outs
    return p.d


def gen_program(seed, idx, mode='C11', nbranch=None, nsteps=None):
    """Functions for the Program machine: any conditionals, any settings."""
    r = random.Random(f'{mode}:{seed}:{idx}')
    if random.Random(f'{mode}:{seed}:{idx}t').random() < 0.04:
        return gen_ties(f'{mode}{seed}', idx, '')
    useext = r.random() < 0.35
    args = pick_args(r, useext)
    p = FPlan(r, f'{mode}-{seed}-{idx}', args)
    ext = callable_externals(p, args) if useext else []
    if not p.scalars():
        return gen_program(seed, f'{idx}+', mode)
    for c in [r.choice(SMALL), r.choice(RATS)]:
        p.num(c)
    if r.random() < 0.1:
        p.op('const', v=r.choice(['pi', 'e']))
    if r.random() < 0.1:
        p.num(r.choice(['1/10', '7/5', '-3/10']), alt=1)
    nb = nbranch if nbranch is not None else r.choice([0, 1, 1, 2, 2, 3, 3, 4])
    for _ in range(nsteps or r.randint(5, 14)):
        fstep(r, p, ext=ext)
    for _ in range(nb):
        fbranch(p)
        for _ in range(r.randint(0, 3)):
            fstep(r, p, ext=ext)
    outputs(p, custom=useext or r.random() < 0.15)
    p.d['env'] = [sample(r, args, GEN)]
    p.d['opt'] = dict(fact=r.choice([0, 0, 1, 2, 3]), bin=r.choice([0, 0, 1]), tern=r.choice([1, 1, 1, 0]))
    return p.d


# ------------------------------------------------------------------ emitted code
def layout(r, t, strided):
    """Memory layout of an output: cell of element (i, j) is off + i*rs + j*cs, out of size cells."""
    if not isinstance(t, (list, tuple)):
        n = len(leaves(t))
        return dict(rows=1, cols=n, rs=0, cs=1, off=0, size=n, how='plain')
    rows, cols = t
    if not strided:
        return dict(rows=rows, cols=cols, rs=cols, cs=1, off=0, size=rows * cols, how='plain')
    how = r.choice(['own', 'own', 'span', 'eigen', 'map', 'block'])
    off = r.randint(0, 3)
    if how == 'eigen':
        rs, cs, off = 1, rows, 0
    elif how == 'map':      # strided column-major map
        rs = r.randint(1, 2)
        cs = rs * rows + r.randint(0, 2)
    elif how == 'block':    # block of a column-major matrix
        rs, cs = 1, rows + r.randint(0, 2)
        off = r.randint(0, cs - rows) + cs * r.randint(0, 1)
    elif r.random() < 0.5:  # row-major
        cs = r.randint(1, 3)
        rs = cs * cols + r.randint(0, 2)
    else:
        rs = r.randint(1, 3)
        cs = rs * rows + r.randint(0, 2)
    size = off + (rows - 1) * rs + (cols - 1) * cs + 1 + (0 if how == 'eigen' else r.randint(0, 2))
    if how == 'block':
        size = cs * (off // cs + cols)
    return dict(rows=rows, cols=cols, rs=rs, cs=cs, off=off, size=size, how=how)


def gen_emitted(seed, idx, lang, nruns=6):
    """A user function together with one generator configuration and a history of calls."""
    r = random.Random(f'emit:{lang}:{seed}:{idx}')
    cfg = dict(lang=lang, prec='64', fact=r.choice([0, 0, 1, 2, 3]), bin=r.choice([0, 0, 1]), tern=r.choice([1, 1, 0]))
    flat = False            # the generator cannot construct matrices
    if lang == 'cpp':
        cfg['beh'] = r.choice(['eigen', 'span'])
        flat = cfg['beh'] == 'span'
        cfg['prec'] = r.choice(['64', '64', '64', '32'])
    elif lang == 'rust':
        flat = True
    else:
        cfg['target'] = r.choice(['numpy', 'numpy', 'numpy', 'torch', 'jax'])
        cfg['prec'] = r.choice(['64', '64', '32'])
        cfg['outargs'] = int(cfg['target'] == 'numpy' and r.random() < 0.35)
        if cfg['target'] != 'numpy':
            cfg['tern'] = r.choice([0, 0, 0, 1])
    useext = r.random() < 0.35 and cfg['prec'] == '64' and (lang != 'py' or not cfg['outargs'])
    args = pick_args(r, useext)
    p = FPlan(r, f'{lang}-{seed}-{idx}', args)
    ext = callable_externals(p, args) if useext else []
    if flat:
        ext = [e for e in ext if e in ('ext_s', 'ext_p', 'ext_t', 'ext_0', 'ext_i')]
    if not p.scalars():
        return gen_emitted(seed, f'{idx}+', lang, nruns)
    for c in [r.choice(SMALL), r.choice(RATS)]:
        p.num(c)
    if r.random() < 0.15:
        p.op('const', v=r.choice(['pi', 'e']))
    if r.random() < 0.15:
        p.num(r.choice(['1/10', '7/5', '-3/10', '2', '1000000000000']), alt=1)
    for _ in range(r.randint(3, 11)):
        fstep(r, p, ext=ext)
    for _ in range(r.choice([0, 1, 1, 2, 2, 3])):
        fbranch(p)
        if r.random() < 0.25:
            dress(p, len(p.kind))
        for _ in range(r.randint(0, 3)):
            fstep(r, p, ext=ext)
    custom = useext
    outputs(p, ret=True, custom=custom, span=flat, optional=True)
    for o in p.d['outs']:
        if lang == 'py' and cfg['outargs'] and o['u'] != 'ret' and not isinstance(o['t'], (list, tuple)):
            n = len(leaves(o['t']))
            o['t'] = [n, 1]
        if flat and o['t'] in ('Pose', 'Box') and not any(o['e'] == e for t, e in p.objs):
            o['t'] = 'Point2'
            o['e'] = o['e'][:2]
        if flat and o['u'] == 'ret' and isinstance(o['t'], (list, tuple)):
            o['t'], o['e'] = 's', o['e'][:1]
        o['lay'] = layout(r, o['t'], flat)
    for a in p.d['args']:
        a['lay'] = layout(r, a['t'], flat)
    optional = [o['u'] == 'opt' for o in p.d['outs']]
    envs = [sample(r, args, VALS) for _ in range(4)]
    if cfg['prec'] == '64' and lang != 'py' and r.random() < 0.3:
        for n, t in args:   # beyond the range of 32-bit integers
            for path, nt in ([] if t == 'Table' else leaves(t, n)):
                if nt == 's' and r.random() < 0.5:
                    envs[3][path] = r.choice(['12000000001/4', '-21474836483/2', '5000000000', '-34359738369/8'])
    runs = []
    for i in range(nruns):
        z = r.random()
        req = [0 if o and (i == 1 or (i > 1 and r.random() < 0.5)) else 1 for o in optional]
        runs.append(dict(env=envs[i % len(envs)], req=req))
    p.d['runs'] = runs
    p.d['cfg'] = cfg
    p.d['name'] = 'w' + str(idx).replace('+', 'x')
    return p.d


def gen_ties(seed, idx, lang):
    """Functions full of ties: several conditions selecting equally often, products sharing equally many factors."""
    r = random.Random(f'ties:{seed}:{idx}')
    args = [(n, 's') for n in ['x', 'y', 'q', 'u'][:r.randint(2, 4)]] + [('w', [r.randint(2, 4), 1])]
    p = FPlan(r, f'ties-{seed}-{idx}', args)
    s = list(p.scalars())
    ks = [p.num(v) for v in ('1', '2', '3', '5')]
    conds = [p.op(r.choice(['lt', 'lt', 'le', 'eq']), r.choice([[i, k], [k, i]]), t='b')
             for i in r.sample(s, min(len(s), r.randint(3, 5))) for k in r.sample(ks, r.randint(1, 2))]
    terms = []
    for m in range(r.randint(1, 3)):
        for c in conds:
            vs = []
            for _ in range(2):
                e = p.op(r.choice(['add', 'mul']), [r.choice(s), r.choice(s), r.choice(ks)], alt=1)
                vs.append(p.op('fn', [e], r.choice(['sin', 'cos', 'tanh', 'atan'])) if r.random() < 0.7 else e)
            terms.append(p.op('where', [c] + vs))
    if r.random() < 0.5:
        for _ in range(r.randint(3, 8)):
            terms.append(p.op('mul', r.sample(s, min(len(s), 3)), alt=1))
    r.shuffle(terms)
    cut = r.randint(1, len(terms))
    outs = [p.op('add', x, alt=1) for x in (terms[:cut], terms[cut:]) if x]
    p.d['outs'] = [dict(u='ret' if not i else 'out', n='' if not i else f'o{i}', t='s', e=[e]) for i, e in enumerate(outs)]
    p.d['env'] = [sample(r, args, GEN)]
    p.d['name'] = 'tied'
    p.d['cfg'] = p.d['opt'] = dict(fact=r.choice([0, 1, 2, 3]), bin=r.choice([0, 1]), tern=r.choice([1, 1, 1, 0]), outargs=0)
    return p.d
