"""Generators of API-call plans for the symbolic layer.  A plan depends on the seed only, never on
what the library answers."""
import math
import random
from fractions import Fraction

POS = ['1/3', '2', '5/7', '7/2', '1/10', '3', '4/3', '1/2', '9/4']
REAL = ['-2', '-1/3', '5/7', '3/2', '-7/4', '1/5', '4/3', '-5/2', '2/3', '-3/7', '11/4', '-1/10', '-4/5', '3/8', '-5/6']
CPLX = ['1|2', '-1/2|1/3', '-3/4|-2', '2/3|-5/4', '-3|1/10', '1/7|3', '0|3/2', '-2/5|-1/7', '3/2|1/9']


def sample_value(r, s, cplx):
    if s == 'positive':
        return r.choice(POS)
    if s == 'nonnegative':
        return '0' if r.random() < 0.15 else r.choice(POS)
    if s == 'real':
        return '0' if r.random() < 0.06 else r.choice(REAL)
    if s == 'complex' and r.random() < 0.7:
        return r.choice(CPLX)
    return '0' if r.random() < 0.05 else r.choice(REAL)


class Plan:
    def __init__(self, r, pid, vars_, nsamples=4, cplx=False, ties=0.0, **kw):
        self.r = r
        self.vars = [dict(n=n, s=s) for n, s in vars_]
        self.env = []
        for _ in range(nsamples):
            e = {n: sample_value(r, s, cplx) for n, s in vars_}
            if ties and r.random() < ties and len(vars_) > 1:
                a, b = r.sample(range(len(vars_)), 2)
                va, vb = vars_[a], vars_[b]
                if not cplx:
                    v = r.choice(POS)
                    e[va[0]] = v
                    e[vb[0]] = v
            e['#ro'] = 'F'
            self.env.append(e)
        self.d = dict(id=pid, vars=self.vars, env=self.env, ops=[], **kw)
        self.kind = []   # 's' scalar, 'b' bool per heap entry (1-based via index-1)
        self.nr = []     # the entry may take a non-real value
        self.taint = []  # the entry lies behind a known finding (see known_findings.json)
        self.neg = []    # the entry may be negative
        self.sets = dict((n, s) for n, s in vars_)

    def op(self, k, a=(), v='', t='s', **kw):
        a = list(a)
        if self.kind and any(self.taint[i - 1] for i in a):
            # a tainted operand never reaches an operation that relies on its number set
            if k == 'pow' and self.taint[a[0] - 1] and not self.is_int(a[1]):
                k, a = 'mul', a
            elif k == 'fn' and v in ('sqrt', 'abs', 'log'):
                v = 'sin'
            elif k in ('sign', 'floor', 'atan2', 'lt', 'le', 'gt', 'ge', 'eq', 'min', 'max'):
                clean = [i for i in self.scalars() if not self.taint[i - 1]]
                a = [i if not self.taint[i - 1] else self.r.choice(clean) for i in a]
        nr = any(self.nr[i - 1] for i in a)
        tn = any(self.taint[i - 1] for i in a)
        neg = True
        if k == 'var':
            nr = self.sets[v] == 'complex'
            neg = self.sets[v] not in ('positive', 'nonnegative')
        elif k == 'const':
            nr = v == 'i'
            neg = v == 'i'
        elif k == 'num':
            neg = v.startswith('-')
        elif k == 'fn':
            nr = nr or v in ('log', 'asin', 'acos', 'acosh', 'atanh') or (v == 'sqrt' and self.neg[a[0] - 1])
            tn = tn or v == 'log'
            neg = v not in ('abs', 'exp', 'cosh') or nr
        elif k == 'pow':
            exact = self.d['ops'][a[1] - 1]['k'] == 'num'
            if not exact:
                tn = tn or self.neg[a[0] - 1] or self.nr[a[1] - 1]
            nr = nr or (self.neg[a[0] - 1] and not self.is_int(a[1]))
            neg = self.neg[a[0] - 1] or nr
        elif k in ('add', 'mul'):
            neg = any(self.neg[i - 1] for i in a)
        elif k in ('where',):
            neg = self.neg[a[1] - 1] or self.neg[a[2] - 1]
        self.d['ops'].append(dict(k=k, a=a, v=v, **kw))
        self.kind.append(t)
        self.nr.append(nr)
        self.taint.append(tn)
        self.neg.append(neg)
        return len(self.kind)

    def is_int(self, i):
        o = self.d['ops'][i - 1]
        return o['k'] == 'num' and '/' not in o['v']

    def var(self, n):
        return self.op('var', v=n)

    def num(self, v, **kw):
        return self.op('num', v=str(v), **kw)

    def scalars(self):
        return [i + 1 for i, t in enumerate(self.kind) if t == 's']

    def bools(self):
        return [i + 1 for i, t in enumerate(self.kind) if t == 'b']

    def pick(self):
        """A scalar operand: recent ones more often."""
        s = self.scalars()
        r = self.r
        if r.random() < 0.5 and len(s) > 3:
            return r.choice(s[-5:])
        return r.choice(s)


SMALL = ['-3', '-2', '-1', '0', '1', '2', '3', '4', '5', '6', '8', '9', '12', '27', '-4', '-8']
RATS = ['1/2', '-1/2', '1/3', '-1/3', '2/3', '3/2', '-3/2', '1/4', '3/4', '5/2', '-2/3', '5/3', '7/3', '-5/4', '1/6']
TRIG = ['sin', 'cos', 'tan']
INV = ['asin', 'acos', 'atan']
HYP = ['sinh', 'cosh', 'tanh', 'asinh', 'acosh', 'atanh']


def gen_construct(seed, idx, mode):
    """C01/C02: random compositions of the arithmetic and function constructors."""
    r = random.Random(f'{mode}:{seed}:{idx}')
    if mode == 'C01':
        cplx = r.random() < 0.15
        vs = [('x', r.choice(['real', 'unknown'])), ('y', r.choice(['real', 'unknown', 'real'])),
              ('z', 'real')]
        if cplx:
            vs = [('x', 'complex'), ('y', 'unknown'), ('z', 'real')]
    else:
        cplx = r.random() < 0.4
        pool = ['positive', 'nonnegative', 'real', 'unknown'] + (['complex'] if cplx else [])
        vs = [(n, r.choice(pool)) for n in 'xyz']
        if r.random() < 0.6:
            vs[0] = ('x', r.choice(['positive', 'nonnegative']))
    p = Plan(r, f'{mode}-{seed}-{idx}', vs, cplx=cplx)
    fl = r.random() < 0.08
    for n, _ in vs:
        p.var(n)
    consts = r.sample(SMALL, 2) + r.sample(RATS, 2)
    for c in consts:
        if fl and r.random() < 0.5:
            p.num(c, alt=1)
        else:
            p.num(c)
    if r.random() < 0.5:
        p.op('const', v=r.choice(['pi', 'e'] + (['i'] if cplx else [])))
    n = r.randint(7, 13)
    for _ in range(n):
        step_construct(r, p, mode, cplx)
    return p.d


def step_sets(r, p):
    """What is inferred about the sign of selections, indicators and functions, used by a root or an absolute value."""
    a, b = pick_real(p), pick_real(p)
    y = r.random()
    if y < 0.4:
        m = p.op('where', [rel(p), a, b])
    elif y < 0.5:
        m = p.op(r.choice(['min', 'max']), [a, b])
    elif y < 0.6:
        m = p.op('iverson', [rel(p)])
        m = p.op(r.choice(['mul', 'sub', 'add']), [m, a])
    elif y < 0.7:
        m = p.op(r.choice(['sign', 'floor']), [a])
    elif y < 0.8:
        m = p.op(r.choice(['mul', 'add', 'sub']), [a, p.op(r.choice(['sign', 'floor']), [b])])
    else:
        m = p.op('fn', [a], r.choice(['cos', 'sin', 'sinh', 'tanh', 'cosh', 'exp', 'abs', 'atan', 'asinh', 'tan']))
    if r.random() < 0.25:
        m = p.op(r.choice(['mul', 'add']), [m, pick_real(p)])
    y = r.random()
    if y < 0.35:
        q = p.op('pow', [m, p.num(r.choice(['2', '2', '4', '-2']))])
        return p.op('pow', [q, p.num(r.choice(['1/2', '1/2', '3/2', '-1/2', '1/4']))])
    if y < 0.55:
        return p.op('fn', [m], 'abs')
    if y < 0.75:
        return p.op('pow', [p.op('pow', [m, p.num(r.choice(RATS + ['2', '3']))]), p.num(r.choice(RATS))])
    if y < 0.9:
        return p.op('fn', [p.op('mul', [m, pick_real(p)])], 'sqrt')
    return p.op('sign', [m])


def step_construct(r, p, mode, cplx):
    if mode == 'C02' and r.random() < 0.15:
        return step_sets(r, p)
    x = r.random()
    a, b = p.pick(), p.pick()
    if x < 0.17:
        k = r.randint(2, 4)
        return p.op('add', [p.pick() for _ in range(k)], alt=r.randint(0, 1))
    if x < 0.33:
        k = r.randint(2, 4)
        return p.op('mul', [p.pick() for _ in range(k)], alt=r.randint(0, 1))
    if x < 0.40:
        return p.op('sub', [a, b])
    if x < 0.46:
        return p.op('div', [a, b])
    if x < 0.49:
        return p.op('neg', [a])
    if x < (0.66 if mode == 'C01' else 0.76):
        y = r.random()
        if y < 0.35:
            e = p.num(r.choice(['2', '3', '-1', '-2', '4', '0', '1']))
        elif y < 0.75:
            e = p.num(r.choice(RATS))
        else:
            e = b
        q = p.op('pow', [a, e], alt=r.randint(0, 1))
        if r.random() < 0.4:  # power of power / root of product
            e2 = p.num(r.choice(RATS + ['2', '-1', '3']))
            q = p.op('pow', [q, e2])
        return q
    if x < 0.70:
        return p.op('fn', [a], 'sqrt')
    if mode == 'C02':
        if x < 0.84:
            k = r.choice(['abs', 'sign', 'floor', 'abs', 'exp', 'log'])
            if k in ('sign', 'floor'):
                return p.op(k, [a])
            return p.op('fn', [a], k)
        if x < 0.90:
            m = p.op('mul', [a, b])
            return p.op('fn', [m], 'sqrt')
        if x < 0.94:
            m = p.op('fn', [a], r.choice(['exp', 'cosh', 'abs', 'sinh', 'tanh', 'log', 'cos']))
            m2 = p.op('pow', [m, p.num(r.choice(RATS + ['2']))])
            return p.op('pow', [m2, p.num(r.choice(RATS))])
    y = r.random()
    if y < 0.22:  # exact trigonometric values
        q = p.num(f"{r.randint(-26, 26)}/{r.choice([1, 2, 3, 4, 6, 5, 12])}")
        pi = p.op('const', v='pi')
        m = p.op('mul', [q, pi])
        if r.random() < 0.25:
            m = p.op('add', [m, a])
        return p.op('fn', [m], r.choice(TRIG + TRIG + ['exp', 'cosh']))
    if y < 0.34:  # exact inverse values
        v = r.choice(['0', '1', '-1', '1/2', '-1/2', 's', 's2', '3/2', '2'])
        if v == 's':
            m = p.op('fn', [p.num(r.choice(['2', '3', '1/2', '1/3']))], 'sqrt')
            m = p.op('mul', [m, p.num(r.choice(['1/2', '-1/2', '1', '-1', '1/3']))])
        elif v == 's2':
            m = p.op('pow', [p.num(r.choice(['2', '3'])), p.num(r.choice(['-1/2', '1/2']))])
        else:
            m = p.num(v)
        return p.op('fn', [m], r.choice(INV + ['asinh', 'acosh', 'atanh', 'log']))
    if y < 0.42:
        m = p.op('neg', [a]) if r.random() < 0.5 else p.op('mul', [a, p.num(r.choice(['-2', '-1/3', '-1']))])
        return p.op('fn', [m], r.choice(TRIG + INV + HYP + ['abs']))
    if y < 0.50:
        return p.op('atan2', [a, b])
    if y < 0.58:
        return p.op(r.choice(['sign', 'floor']), [a])
    if y < 0.62:
        inner = p.op('fn', [a], r.choice(['log', 'exp', 'cos', 'sin', 'tanh', 'sinh']))
        return p.op('fn', [inner], r.choice(['log', 'exp', 'acos', 'asin', 'abs', 'asinh']))
    if y < 0.66:
        return p.op('uneval', [a])
    return p.op('fn', [a], r.choice(TRIG + INV + HYP + ['exp', 'log', 'abs', 'exp', 'log', 'abs']))


# ------------------------------------------------------------------------- relations, conditionals
def is_clean(p, i):
    return not p.taint[i - 1] and not p.nr[i - 1]


def pick_real(p):
    s = [i for i in p.scalars() if is_clean(p, i)]
    r = p.r
    if r.random() < 0.5 and len(s) > 4:
        return r.choice(s[-5:])
    return r.choice(s)


RELS = ['lt', 'le', 'gt', 'ge', 'eq']


def rel(p, a=None, b=None):
    r = p.r
    a = a or pick_real(p)
    b = b or pick_real(p)
    return p.op(r.choice(RELS), [a, b], t='b', alt=r.randint(0, 1))


def step_real(r, p, smooth=False, calls=False):
    """One real-valued construction step without known-finding triggers."""
    x = r.random()
    a, b = pick_real(p), pick_real(p)
    if x < 0.24:
        return p.op('add', [pick_real(p) for _ in range(r.randint(2, 3))], alt=r.randint(0, 1))
    if x < 0.46:
        return p.op('mul', [pick_real(p) for _ in range(r.randint(2, 3))], alt=r.randint(0, 1))
    if x < 0.54:
        return p.op('sub', [a, b])
    if x < 0.60:
        return p.op('div', [a, b])
    if x < 0.64:
        return p.op('neg', [a])
    if x < 0.76:
        e = r.choice(['2', '3', '-1', '-2', '2', '4'])
        if not p.neg[a - 1] and r.random() < 0.4:
            e = r.choice(['1/2', '-1/2', '3/2', '1/3'])
        return p.op('pow', [a, p.num(e)], alt=r.randint(0, 1))
    if x < 0.90:
        return p.op('fn', [a], r.choice(['sin', 'cos', 'tanh', 'exp', 'atan', 'cosh', 'sinh', 'tan', 'asinh']))
    if smooth:
        if r.random() < 0.35:
            return p.op('atan2', [a, b])
        return p.op('fn', [a], 'abs')
    return p.op(r.choice(['sign', 'floor']), [a]) if r.random() < 0.5 else p.op('fn', [a], 'abs')


def gen_exact(seed, idx, mode='C04'):
    """Comparisons of integers, rationals and floating-point constants that differ by a rounding or by nothing; every
    value is exact, because nothing but comparison, selection, negation and substitution is done."""
    r = random.Random(f'exact:{mode}:{seed}:{idx}')
    vs = [(n, r.choice(['real', 'real', 'positive', 'nonnegative', 'unknown'])) for n in 'xyz']
    p = Plan(r, f'{mode}-{seed}-{idx}', vs, nsamples=4, exact=1)
    for n, _ in vs:
        p.var(n)
    big = 2 ** 63
    base = r.choice([Fraction(1, 3), Fraction(2, 3), Fraction(1, 10), Fraction(22, 7), Fraction(5, 9), Fraction(1, 2), Fraction(3),
                     Fraction(2 ** 53), Fraction(2 ** 53 + 1), Fraction(2 ** 53 + 2), Fraction(big - 1), Fraction(big - 512), Fraction(big - 513),
                     Fraction(2 ** 62 + 1, 3), Fraction(1, big - 1), Fraction(2 ** 53 + 1, 2 ** 20), Fraction(7 * 10 ** 17 + 1, 10 ** 17)])
    base *= r.choice([1, 1, -1])
    f = float(base)
    cand = [(base, 0), (Fraction(f), 1), (Fraction(math.nextafter(f, math.inf)), 1), (Fraction(math.nextafter(f, -math.inf)), 1),
            (Fraction(round(base)), 0), (Fraction(math.floor(f)), 1), (Fraction(f), 0),
            (base + 1, 0), (base - 1, 0), (Fraction(0), r.randint(0, 1)), (Fraction(r.choice([2 ** 100, -2 ** 100, 1])), 1)]
    ok = lambda q, a: a or (abs(q.numerator) < big and q.denominator < big)
    cs = [c for c in r.sample(cand, r.randint(4, 6)) if ok(*c)] + [cand[1]] + [cand[0]] * ok(*cand[0])
    ks = [p.num(str(q), alt=1) if a else p.num(str(q)) for q, a in cs]
    for e in p.env:
        for n, t in vs:
            q = r.choice(cs)[0]
            if r.random() < 0.7 and (t in ('real', 'unknown') or q > 0):
                e[n] = str(q)
    some = lambda: r.choice(ks) if r.random() < 0.55 else r.choice(p.scalars())
    for _ in range(r.randint(8, 14)):
        x = r.random()
        bs = p.bools()
        if x < 0.45 or not bs:
            p.op(r.choice(RELS), [some(), some()], t='b', alt=r.randint(0, 1))
        elif x < 0.6:
            p.op('where', [r.choice(bs), some(), some()])
        elif x < 0.72:
            p.op(r.choice(['min', 'max']), [some(), some()])
        elif x < 0.78:
            p.op('iverson', [r.choice(bs)])
        elif x < 0.84:
            p.op('neg', [some()]) if r.random() < 0.5 else p.op('fn', [some()], 'abs')
        elif x < 0.88:
            p.op(r.choice(['sign', 'floor']), [some()])
        else:
            i = r.choice([1, 2, 3])
            t = [k for k, (q, a) in zip(ks, cs) if vs[i - 1][1] in ('real', 'unknown') or q > 0]
            c = [j for j in p.scalars() if p.d['ops'][j - 1]['k'] not in ('num', 'var')]
            if t and c:
                p.op('subst', [r.choice(c[-6:]), i, r.choice(t)])
    return p.d


def gen_compare(seed, idx, mode='C04'):
    exact = random.Random(f'{mode}:{seed}:{idx}x').random() < 0.12
    return (gen_exact if exact else gen_relations)(seed, idx, mode)


def gen_relations(seed, idx, mode='C04'):
    r = random.Random(f'{mode}:{seed}:{idx}')
    pool = ['real', 'real', 'positive', 'nonnegative', 'unknown']
    vs = [(n, r.choice(pool)) for n in 'xyz']
    p = Plan(r, f'{mode}-{seed}-{idx}', vs, nsamples=5, ties=0.55)
    for n, _ in vs:
        p.var(n)
    cs = ['0', '1', r.choice(SMALL), r.choice(RATS), r.choice(RATS)]
    for c in cs:
        fl = r.random() < 0.04
        p.num(c, alt=1) if fl else p.num(c)
    if r.random() < 0.4:
        p.op('const', v=r.choice(['pi', 'e']))
    # samples that sit exactly on the constants
    for e in p.env:
        if r.random() < 0.3:
            n, s = r.choice(vs)
            c = r.choice(cs)
            if s in ('real', 'unknown') or not c.startswith('-') and (s == 'nonnegative' or c != '0'):
                e[n] = c
    for _ in range(r.randint(8, 13)):
        x = r.random()
        bs = p.bools()
        if x < 0.28 or not bs:
            y = r.random()
            if y < 0.25:
                rel(p, None, r.choice([i for i in p.scalars() if p.d['ops'][i - 1]['k'] == 'num']))
            elif y < 0.35:
                m = step_real(r, p)
                rel(p, m if is_clean(p, m) else None, None)
            elif y < 0.42:  # comparison with itself, negation or absolute value
                a = pick_real(p)
                b = p.op('neg', [a]) if r.random() < 0.5 else p.op('fn', [a], 'abs')
                rel(p, a, b)
            elif y < 0.5 and bs:
                rel(p, p.op('iverson', [r.choice(bs)]), None)
            else:
                rel(p)
        elif x < 0.46:
            p.op('where', [r.choice(bs), pick_real(p), pick_real(p)])
        elif x < 0.56:
            p.op(r.choice(['min', 'max']), [pick_real(p), pick_real(p)])
        elif x < 0.62:
            p.op('iverson', [r.choice(bs)])
        elif x < 0.72:  # substitute a variable by a constant or another expression
            vi = r.choice([1, 2, 3])
            t = r.choice([i for i in p.scalars() if is_clean(p, i)])
            s = vs[vi - 1][1]
            if s == 'positive':
                t = p.num(r.choice(POS))
            elif s == 'nonnegative':
                t = p.num(r.choice(POS + ['0']))
            c = [i for i in range(1, len(p.kind) + 1) if p.kind[i - 1] == 's' and is_clean(p, i)
                 and p.d['ops'][i - 1]['k'] not in ('num', 'var', 'const')]
            if c:
                p.op('subst', [r.choice(c[-6:]), vi, t])
        elif x < 0.77 and bs:  # nested selection on the same or related condition
            c = r.choice(bs)
            w = p.op('where', [c, pick_real(p), pick_real(p)])
            w2 = p.op('where', [c, w, pick_real(p)] if r.random() < 0.5 else [c, pick_real(p), w])
            if r.random() < 0.5:
                p.op('where', [r.choice(p.bools()), w2, w])
        else:
            step_real(r, p)
    return p.d


# --------------------------------------------------------------------------------- differentiation
GEN = ['-137/100', '29/37', '113/71', '-53/97', '211/89', '-19/83', '7/61', '-173/67', '41/59', '97/79', '-31/43']


def gen_deriv(seed, idx, mode='C05'):
    r = random.Random(f'{mode}:{seed}:{idx}')
    vs = [('x', r.choice(['real', 'unknown', 'positive'])), ('y', r.choice(['real', 'unknown'])), ('z', 'real')]
    p = Plan(r, f'{mode}-{seed}-{idx}', vs, nsamples=3, digits=7, udef='no')
    for e in p.env:
        for n, s in vs:
            v = r.choice(GEN)
            e[n] = v.lstrip('-') if s == 'positive' else v
        e['#ro'] = 'T'
    p.d['env'] = p.env
    for n, _ in vs:
        p.var(n)
    for c in [r.choice(SMALL[:5] + SMALL[5:9]), r.choice(RATS)]:
        p.num(c)
    calls = r.random() < 0.45
    n = r.randint(3, 7)
    for _ in range(n):
        x = r.random()
        if calls and x < 0.25:
            f = r.choice('fgh')
            k = {'f': 1, 'g': 2, 'h': 3}[f]
            p.op('call', [pick_real(p) for _ in range(k)], f)
        elif x < 0.33:
            c = rel_strict(p)
            p.op('where', [c, pick_real(p), pick_real(p)])
        elif x < 0.38:
            p.op(r.choice(['min', 'max']), [pick_real(p), pick_real(p)])
        elif x < 0.42:
            p.op('stopd', [pick_real(p)])
        elif x < 0.45:
            p.op(r.choice(['sign', 'floor']), [pick_real(p)])
        elif x < 0.47:
            p.op('uneval', [pick_real(p)])
        elif x < 0.49:
            p.op('iverson', [rel_strict(p)])
        elif x < 0.56:
            p.op('fn', [pick_real(p)], r.choice(['log', 'asin', 'acos', 'acosh', 'atanh', 'sqrt']))
            p.nr[-1] = False
            p.taint[-1] = False
        elif x < 0.62:
            p.op('pow', [pick_real(p), r.choice([i for i in p.scalars() if is_clean(p, i)])])
            p.nr[-1] = p.taint[-1] = False
        else:
            step_real(r, p, smooth=True)
    for _ in range(r.randint(1, 3)):
        cand = [i for i in p.scalars() if p.d['ops'][i - 1]['k'] not in ('num', 'var', 'const', 'deriv')]
        if not cand:
            continue
        a = r.choice(cand[-3:])
        order = r.choice(['1', '1', '1', '2', '2', '3'])
        calls_in = [i for i in cand if p.d['ops'][i - 1]['k'] == 'call']
        if calls_in and r.random() < 0.3:   # derivatives that stay derivatives, of one another
            v1, a = r.choice([1, 2, 3]), r.choice(calls_in)
            v2 = v1 if r.random() < 0.7 else r.choice([1, 2, 3])
            o1, o2 = r.choice([('1', '2'), ('2', '1'), ('1', '1'), ('1', '2')])
            u = 'ok' if depends_on(p, a, ('sign', 'floor', 'iverson', 'where', 'min', 'max', 'uneval', 'stopd')) else 'no'
            d = p.op('deriv', [a, v1], o1, alt=r.choice([0, 1, 1, 2]), udef=u)
            p.op('deriv', [d, v2], o2, alt=r.choice([0, 1, 1, 2]), udef=u)
            continue
        # a locally constant zero may make the formula of a derivative undefined
        u = 'ok' if depends_on(p, a, ('sign', 'floor', 'iverson', 'where', 'min', 'max', 'uneval', 'stopd')) else 'no'
        d = p.op('deriv', [a, r.choice([1, 1, 2, 3])], order, alt=r.choice([0, 0, 0, 2]), udef=u)
        if order == '1' and r.random() < 0.5:
            p.op('deriv', [d, r.choice([1, 2, 2, 3])], '1', alt=0, udef=u)
    return p.d


def depends_on(p, i, kinds):
    seen, stack = set(), [i]
    while stack:
        j = stack.pop()
        if j not in seen:
            seen.add(j)
            o = p.d['ops'][j - 1]
            if o['k'] in kinds:
                return True
            stack += o['a']
    return False


def rel_strict(p):
    return p.op(p.r.choice(['lt', 'le', 'gt', 'ge']), [pick_real(p), pick_real(p)], t='b')


# ----------------------------------------------------------------------------------- substitution
COEF = ['1', '2', '3', '-1', '-2', '4', '5', '7', '1/2', '3/2', '7/2', '4/3', '10/3', '-3/2', '-7/2', '5/4', '-5/3']


def subst_shape(r, p, e):
    """A target that is a part of a power, a sum or a product, with its own coefficients."""
    S = [i for i in p.scalars() if p.d['ops'][i - 1]['k'] not in ('num', 'const')]
    q, u, v = r.choice([1, 2, 3]), r.choice(S[:6]), r.choice(S[:6])
    cf = lambda i, c: i if c == '1' else p.op('mul', [p.num(c), i])
    c = [r.choice(COEF) for _ in range(4)]
    kind = r.choice(['pow', 'pow', 'pow', 'add', 'mul'])
    if kind == 'pow':    # b**(c0 u + c1 v) and b**(c2 u): what is left over must stay in the exponent
        base = q if r.random() < 0.7 else r.choice(S)
        ex = p.op('add', [cf(u, c[0]), cf(v, c[1])] + ([p.num(r.choice(RATS))] if r.random() < 0.3 else []))
        if r.random() < 0.3:
            ex = cf(u, c[0])
        tex = cf(u, c[2]) if r.random() < 0.8 else p.op('add', [cf(u, c[2]), cf(v, c[3])])
        if r.random() < 0.2:
            ex, tex = p.num(c[0]), p.num(c[2])
        big, t = p.op('pow', [base, ex]), p.op('pow', [base, tex])
        if r.random() < 0.4:
            big = p.op('mul', [big, pick_real(p)])
    elif kind == 'add':  # c0 u + c1 v + rest and c2 u + c3 v, sometimes a multiple
        if r.random() < 0.5:
            m = Fraction(r.choice(COEF))
            c[2], c[3] = [str(Fraction(a) / m) for a in c[:2]]
        big = p.op('add', [cf(u, c[0]), cf(v, c[1])] + ([pick_real(p)] if r.random() < 0.7 else []))
        t = p.op('add', [cf(u, c[2]), cf(v, c[3])])
    else:                # u**c0 v**c1 rest and u**c2 v**c3
        pw = lambda i, k: i if k == '1' else p.op('pow', [i, p.num(k)])
        k = [r.choice(['1', '2', '3', '4', '5', '-1', '-2', '-3', '6', '3/2', '5/2']) for _ in range(4)]
        big = p.op('mul', [pw(u, k[0]), pw(v, k[1])] + ([pick_real(p)] if r.random() < 0.7 else []))
        t = p.op('mul', [pw(u, k[2]), pw(v, k[3])])
    if r.random() < 0.5:
        big = p.op('add', [big, e])
    # powers of the target divide by zero where it vanishes
    p.op('csub', [big, t], w='w', raw=dict(k='given', a=[big, t], v=''), udef='ok')
    p.kind[-1] = '-'


def gen_subst(seed, idx, mode='C06'):
    r = random.Random(f'{mode}:{seed}:{idx}')
    vs = [(n, r.choice(['real', 'unknown'])) for n in 'xyz']
    p = Plan(r, f'{mode}-{seed}-{idx}', vs + [('w', 'unknown')], nsamples=3)
    for n, _ in vs:
        p.var(n)
    for c in [r.choice(SMALL), r.choice(RATS)]:
        p.num(c)
    comp = []
    for _ in range(r.randint(6, 10)):
        x = r.random()
        if x < 0.2:
            f = r.choice('fg')
            p.op('call', [pick_real(p) for _ in range({'f': 1, 'g': 2}[f])], f)
        elif x < 0.3:
            p.op('where', [rel(p), pick_real(p), pick_real(p)])
        elif x < 0.36:
            k = p.op('add', [pick_real(p) for _ in range(3)], alt=1)
        elif x < 0.42:
            k = p.op('mul', [pick_real(p) for _ in range(3)], alt=1)
        elif x < 0.48:
            p.op('pow', [pick_real(p), p.num(r.choice(['2', '3', '4', '-2', '5', '6', '-1']))])
        else:
            step_real(r, p)
    S = lambda: [i for i in p.scalars() if p.d['ops'][i - 1]['k'] not in ('num', 'const')]
    comp = [i for i in S() if p.d['ops'][i - 1]['k'] != 'var']
    if not comp:
        return p.d
    for _ in range(r.randint(2, 4)):
        e = r.choice(comp[-6:])
        x = r.random()
        if x < 0.3:
            p.op('subst', [e, r.choice([1, 2, 3]), pick_real(p)])
        elif x < 0.5:
            t = r.choice(comp)
            p.op('csub', [e, t], w='w', raw=dict(k='given', a=[e, t], v=''), udef='ok')
            p.kind[-1] = '-'
        elif x < 0.7:
            t = r.choice(comp)
            p.op('csub2', [e, t, pick_real(p)], w='w', raw=dict(k='lib', a=[], v=''))
            p.kind[-1] = '-'
        elif x < 0.84:
            m = r.randint(2, 3)
            a = [e]
            for _ in range(m):
                a += [r.choice([1, 2, 3]), pick_real(p)]
            p.op('mpsubst', a, raw=dict(k='seqsubst', a=a, v=''))
        elif x < 0.95:
            subst_shape(r, p, e)
        else:  # structured: power/sum/product targets inside e
            b = r.choice([1, 2, 3])
            n1, n2 = r.choice([('2', '6'), ('2', '4'), ('3', '6'), ('2', '-2'), ('1/2', '3/2')])
            big = p.op('pow', [b, p.num(n2)])
            e2 = p.op('add', [big, e])
            t = p.op('pow', [b, p.num(n1)])
            p.op('csub', [e2, t], w='w', raw=dict(k='given', a=[e2, t], v=''), udef='ok')
            p.kind[-1] = '-'
    return p.d


# ---------------------------------------------------------------------------------- rewriting tools
def gen_rewrite(seed, idx, mode='C07'):
    r = random.Random(f'{mode}:{seed}:{idx}')
    vs = [(n, r.choice(['real', 'unknown', 'positive'])) for n in 'xyz']
    p = Plan(r, f'{mode}-{seed}-{idx}', vs, nsamples=3)
    for n, _ in vs:
        p.var(n)
    for c in [r.choice(SMALL), r.choice(RATS)]:
        p.num(c)
    for _ in range(r.randint(5, 9)):
        x = r.random()
        if x < 0.22:  # products of sums, powers of sums
            s1 = p.op('add', [pick_real(p) for _ in range(r.randint(2, 3))])
            if r.random() < 0.5:
                s2 = p.op('add', [pick_real(p) for _ in range(2)])
                p.op('mul', [s1, s2] + ([pick_real(p)] if r.random() < 0.4 else []))
            else:
                p.op('pow', [s1, p.num(r.choice(['2', '3', '4', '2', '-1', '-2', '1/2', '3/2', '-3/2', '5/2']))])
        elif x < 0.32:  # polynomials
            b = r.choice(p.scalars())
            t = [p.op('mul', [pick_real(p), p.op('pow', [b, p.num(r.choice(['2', '3', '1', '-1', '1/2']))])])
                 for _ in range(r.randint(2, 4))]
            p.op('add', t)
        elif x < 0.38:
            p.op('uneval', [pick_real(p)])
        elif x < 0.44:
            p.op('where', [rel(p), pick_real(p), pick_real(p)])
        elif x < 0.48:
            p.op('call', [pick_real(p)], 'f')
        else:
            step_real(r, p)
        p.nr[-1] = p.nr[-1] and False
    comp = [i for i in p.scalars() if p.d['ops'][i - 1]['k'] not in ('num', 'const', 'var')]
    if not comp:
        return p.d
    for _ in range(r.randint(2, 4)):
        e = r.choice(comp[-6:])
        x = r.random()
        if x < 0.35:
            p.op('same', [e], alt=r.choice([1, 4]), raw=dict(k='same', a=[e], v=''))
        elif x < 0.6:
            t = [r.choice(p.scalars()[:3] + comp) for _ in range(r.randint(1, 3))]
            a = [e] + t
            p.op('same', a, alt=2 if len(t) == 1 else 3, raw=dict(k='same', a=a, v=''))
        else:
            p.op('cse', [e], minocc=r.choice([1, 2, 2, 3]), raw=dict(k='same', a=[e], v=''))
            p.kind[-1] = '-'
    return p.d


# --------------------------------------------------------------------------------------- constants
LIMS = ['9223372036854775807', '-9223372036854775807', '4611686018427387904', '3037000500', '-3037000499',
        '2147483648', '4294967296', '-2147483647', '9223372036854775807/2', '1/9223372036854775807', '3/4294967296',
        '2147483647/3', '-4611686018427387905/3', '6074001000', '1000000007', '999999937/7']


def gen_const(seed, idx, mode='C03'):
    r = random.Random(f'{mode}:{seed}:{idx}')
    ev = r.random() < 0.6      # numeric evaluation of moderate constants, or exact work near the limits
    p = Plan(r, f'{mode}-{seed}-{idx}', [('x', 'real')], nsamples=1, mayraise=1 if ev else 2)
    if ev:
        p.d['fl'] = 1
    for _ in range(4):
        p.num(r.choice(SMALL + RATS if ev or r.random() < 0.5 else LIMS))
    if ev:
        p.op('const', v=r.choice(['pi', 'e']))
        if r.random() < 0.3:
            p.num(r.choice(RATS), alt=1)
    if not ev:
        for _ in range(r.randint(4, 8)):
            x = r.random()
            a, b = p.pick(), p.pick()
            if x < 0.3:
                p.op(r.choice(['add', 'mul']), [a, b, p.pick()][:r.choice([2, 2, 2, 3])], alt=r.randint(0, 1), mayraise=2)
            elif x < 0.5:
                p.op(r.choice(['sub', 'div']), [a, b])
            elif x < 0.6:
                p.op('neg', [a])
            elif x < 0.7:
                p.op('pow', [p.num(r.choice(SMALL + RATS)), p.num(r.choice(['2', '3', '-1', '5', '-3', '7', '12', '20', '40', '-20']))])
            elif x < 0.8:
                p.op('pow', [p.num(r.choice(LIMS + SMALL + ['9223372030926249001', '4611686014132420609', '-8', '64/27', '-27/8'])),
                             p.num(r.choice(['1/2', '-1/2', '1/3', '3/2', '2/3', '-1/3', '1/5', '5/2', '-2/3', '7/3']))])
            elif x < 0.86:
                p.op('fn', [a], 'abs')
            elif x < 0.92:
                p.op('floor', [a])
            else:
                p.op(r.choice(['lt', 'le', 'eq', 'gt']), [a, b], t='b')
        return p.d
    for _ in range(r.randint(4, 8)):
        x = r.random()
        if x < 0.12 and p.bools():
            p.op('where', [r.choice(p.bools()), p.pick(), p.pick()])
        elif x < 0.2:
            real = [i for i in p.scalars() if is_clean(p, i)]
            p.op(r.choice(['lt', 'le', 'eq']), [r.choice(real), r.choice(real)], t='b')
        elif x < 0.25 and p.bools():
            p.op('iverson', [r.choice(p.bools())])
        else:
            step_construct(r, p, 'C01', False)
        if p.kind[-1] == 's' and not depends_on(p, len(p.kind), ('uneval',)):
            p.op('meval', [len(p.kind)], raw=dict(k='same', a=[len(p.kind)], v=''), digits=10)
            p.kind[-1] = '-'
    return p.d


# ---------------------------------------------------------------------------------- known findings
def _kf(name, vs, env, ops):
    """A fixed session that exhibits a known finding (listed in known_findings.json)."""
    e = [dict(env, **{'#ro': 'F'})]
    return dict(id=name, kf=1, vars=[dict(n=n, s=s) for n, s in vs], env=e,
                ops=[dict(k=k, a=list(a), v=v) for k, a, v in ops])


FIXED = {'C02': [
    _kf('KF1', [('x', 'positive')], {'x': '1/3'},
        [('var', (), 'x'), ('fn', (1,), 'log'), ('num', (), '2'), ('pow', (2, 3), ''), ('fn', (4,), 'sqrt')]),
    _kf('KF2', [('y', 'real'), ('p', 'positive')], {'y': '-100', 'p': '1/2'},
        [('var', (), 'y'), ('var', (), 'p'), ('pow', (1, 2), ''), ('fn', (3,), 'exp'), ('num', (), '3/4'),
         ('pow', (4, 5), '')]),
    _kf('KF3', [('x', 'real')], {'x': '1'},
        [('num', (), '-5/4'), ('fn', (1,), 'acosh'), ('num', (), '3'), ('pow', (3, 2), ''), ('num', (), '1/3'),
         ('pow', (4, 5), '')]),
]}
