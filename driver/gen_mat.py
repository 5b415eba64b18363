"""Generators of matrix and quaternion plans (spec/Matrix.tla).  Shapes are tracked here only to choose
mostly sensible operands; what is legal and what comes out is decided by the specification."""
import random
from fractions import Fraction as Fr

from gen_sym import REAL, POS

NUMS = ['0', '1', '-1', '2', '3', '-2', '1/2', '-3/4', '5', '2/3']


def fs(x):
    x = Fr(x)
    return str(x.numerator) if x.denominator == 1 else f'{x.numerator}/{x.denominator}'


def qmul(a, b):
    return (a[0]*b[0]-a[1]*b[1]-a[2]*b[2]-a[3]*b[3], a[0]*b[1]+a[1]*b[0]+a[2]*b[3]-a[3]*b[2],
            a[0]*b[2]+a[2]*b[0]+a[3]*b[1]-a[1]*b[3], a[0]*b[3]+a[3]*b[0]+a[1]*b[2]-a[2]*b[1])


def unit_quat(r):
    m = r.random()
    if m < 0.1:
        p = r.choice([(1, 0, 0, 0), (1, 1, 0, 0), (1, 0, 1, 0), (1, 0, 0, 1), (0, 1, 0, 0)])
    elif m < 0.3:
        p = (r.choice([30, 60, 200, 2000]), r.randint(-2, 2), r.randint(-2, 2), r.choice([-1, 1, 2]))
    elif m < 0.4:
        p = (r.choice([1, -1, 2]), r.choice([40, 100]), r.randint(-3, 3), r.randint(-3, 3))
    else:
        p = tuple(r.randint(-4, 4) for _ in range(4))
        if not any(p):
            p = (1, 2, 3, -1)
    n = sum(x * x for x in p)
    q = tuple(Fr(x, n) for x in qmul(p, p))
    return q if r.random() < 0.85 else tuple(-x for x in q)


def rotation(q):
    w, x, y, z = q
    return [[1-2*(y*y+z*z), 2*(x*y-w*z), 2*(x*z+w*y)], [2*(x*y+w*z), 1-2*(x*x+z*z), 2*(y*z-w*x)],
            [2*(x*z-w*y), 2*(y*z+w*x), 1-2*(x*x+y*y)]]


def rotvec(r):
    m = r.random()
    if m < 0.1:
        return ['0', '0', '0']
    if m < 0.25:
        return [fs(Fr(r.randint(-3, 3), r.choice([100, 1000, 100000]))) for _ in range(3)]
    if m < 0.35:
        v = ['0', '0', '0']
        v[r.randrange(3)] = r.choice(REAL)
        return v
    return [fs(Fr(r.randint(-14, 14), r.choice([8, 10, 12]))) for _ in range(3)]


class Gen:
    def __init__(self, r, pid, quat=False, ns=3):
        self.r = r
        self.vars = ['x', 'y', 'z']
        self.ns = ns
        self.env = [dict({v: r.choice(REAL) if r.random() > 0.05 else '0' for v in self.vars},
                         **{'#ro': 'F', '#p': ''}) for _ in range(ns)]
        self.ops, self.o = [], []      # objects: (kind, r, c)
        self.sym = set()
        self.id = pid
        self.var_leaf = {}

    def emit(self, k, a=(), out=(), p=(), v='', d=(), digits=20, udef='no', **kw):
        self.ops.append(dict(k=k, a=list(a), p=list(p), v=v, n=len(out), digits=digits, udef=udef,
                             **{'def': list(d)}, **kw))
        ids = []
        for t in out:
            self.o.append(t)
            ids.append(len(self.o))
        return ids[0] if len(ids) == 1 else ids

    def plan(self):
        return dict(id=self.id, env=self.env, ops=self.ops)

    # ---- scalars
    def expr(self, depth, nodes, names=None):
        r = self.r

        def add(k, a=(), v=''):
            nodes.append(dict(k=k, a=list(a), v=v))
            return len(nodes)
        if depth == 0 or r.random() < 0.3:
            if r.random() < 0.45:
                return add('num', v=r.choice(NUMS))
            return add('var', v=r.choice(names or self.vars))
        k = r.choice(['add', 'mul', 'sub', 'pow', 'fn', 'neg', 'div'])
        if k == 'pow':
            b = self.expr(depth - 1, nodes, names)
            return add('pow', [b, add('num', v=r.choice(['2', '3', '2']))])
        if k == 'fn':
            return add('fn', [self.expr(depth - 1, nodes, names)], r.choice(['sin', 'cos', 'exp', 'abs', 'sin']))
        if k == 'neg':
            return add('neg', [self.expr(depth - 1, nodes, names)])
        if k == 'div':
            b = self.expr(depth - 1, nodes, names)
            return add('div', [b, add('num', v=r.choice(['2', '3', '-4']))])
        return add(k, [self.expr(depth - 1, nodes, names), self.expr(depth - 1, nodes, names)])

    def scalar(self, depth=2, zero=0.1, const=False):
        r = self.r
        nodes = []
        if r.random() < zero:
            nodes.append(dict(k='num', a=[], v='0'))
        elif const:
            nodes.append(dict(k='num', a=[], v=r.choice([x for x in NUMS if '/' not in x] if const == 'int' else NUMS)))
        else:
            self.expr(depth, nodes)
        return self.emit('leaf', out=[('s', 1, 1)], d=nodes, v='s')

    def num(self, v):
        return self.emit('leaf', out=[('s', 1, 1)], d=[dict(k='num', a=[], v=v)], v='s')

    def var(self, n):
        if n not in self.var_leaf:
            self.var_leaf[n] = self.emit('leaf', out=[('s', 1, 1)], d=[dict(k='var', a=[], v=n)], v='s')
        return self.var_leaf[n]

    def cond(self):
        nodes = []
        a = self.expr(1, nodes)
        b = self.expr(1, nodes)
        nodes.append(dict(k=self.r.choice(['lt', 'le', 'eq', 'gt', 'ge']), a=[a, b], v=''))
        return self.emit('leaf', out=[('b', 1, 1)], d=nodes, v='b')

    # ---- matrices
    def mat(self, rr, cc, depth=1, zero=0.15, const=False):
        ids = [self.scalar(depth, zero, const) for _ in range(rr * cc)]
        alt = 'rows'
        if cc == 1 and self.r.random() < 0.5:
            alt = self.r.choice(['vector', 'flat'])
        elif rr == 1 and self.r.random() < 0.5:
            alt = 'row_vector'
        elif self.r.random() < 0.2:
            alt = self.r.choice(['gen', 'ctor'])
        return self.emit('mat', ids, [('m', rr, cc)] if rr * cc else [], p=[rr, cc], v=alt)

    def symbols(self, prefix, rr, cc, vals=None):
        if rr > 0 and cc > 0:
            for s, e in enumerate(self.env):
                for i in range(rr):
                    for j in range(cc):
                        e.setdefault(f'{prefix}_{i}_{j}', vals[s][i][j] if vals else self.r.choice(REAL))
        return self.emit('symbols', out=[('m', rr, cc)] if rr > 0 and cc > 0 else [], p=[rr, cc], v=prefix)

    def mats(self, f=lambda o: True):
        return [i + 1 for i, o in enumerate(self.o) if o[0] == 'm' and f(o)]

    def any_mat(self, f=lambda o: True):
        c = self.mats(f)
        if not c or self.r.random() < 0.1:
            rr, cc = self.r.choice([(1, 1), (2, 2), (2, 3), (3, 3), (3, 1), (1, 3), (3, 2), (2, 1), (4, 2)])
            if not f(('m', rr, cc)):
                return c[0] if c else None
            return self.mat(rr, cc)
        return self.r.choice(c[-6:])

    def any_slice(self, n):
        r = self.r
        st = r.choice([1, 1, 1, 2, -1, -2, 3, 0] if r.random() < 0.3 else [1, 1, 2, -1])

        def bound():
            return (0, 0) if r.random() < 0.35 else (1, r.randint(-n - 2, n + 2))
        a, b = bound(), bound()
        return [a[0], a[1], b[0], b[1], st]

    def slen(self, n, p):
        return len(range(n)[slice(p[1] if p[0] else None, p[3] if p[2] else None, p[4])]) if p[4] else 0


def small(o):
    return o[1] * o[2] <= 16


def matrix_step(g):
    r = g.r
    k = r.choice(['mat', 'mat', 'symbols', 'eye', 'zeros', 'vstack', 'hstack', 'diag', 'diags', 'info', 'get', 'get',
                  'row', 'rowslice', 'slice2', 'rowcols', 'rowscol', 'iter', 'tolist', 'flat', 'T', 'reshape', 'vec',
                  'neg', 'add', 'sub', 'mul', 'mul', 'mulms', 'divms', 'sqnorm', 'norm', 'det', 'det', 'where',
                  'unary', 'diff', 'jac', 'subs', 'same', 'eval', 'lu', 'lu', 'cse', 'bad'])
    if k == 'mat':
        return g.mat(r.randint(1, 4), r.randint(1, 4))
    if k == 'symbols':
        return g.symbols(r.choice(['s', 'k_']) + str(len(g.o)), r.randint(1, 3), r.randint(1, 3))
    if k in ('eye', 'zeros'):
        a, b = r.randint(1, 4), r.randint(1, 4)
        if k == 'eye' and r.random() < 0.4:
            return g.emit('eye', out=[('m', a, a)], p=[a, a], v='1')
        return g.emit(k, out=[('m', a, b)], p=[a, b])
    if k in ('vstack', 'hstack', 'diag'):
        m = g.any_mat(small)
        ax = 2 if k == 'vstack' else 1
        o = g.o[m - 1]
        ms = [m]
        for _ in range(r.randint(0, 2)):
            if k == 'diag':
                ms.append(g.any_mat(lambda q: q[1] * q[2] <= 6) or m)
            elif r.random() < 0.1:
                ms.append(g.any_mat(small))
            else:
                n = r.randint(1, 2)
                c = g.mats(lambda q: q[ax] == o[ax] and small(q))
                ms.append(r.choice(c) if r.random() < 0.7 or not o[ax] else
                          g.mat(*((n, o[2]) if k == 'vstack' else (o[1], n))))
        r.shuffle(ms)
        os_ = [g.o[i - 1] for i in ms]
        if k == 'diag':
            shp = (sum(q[1] for q in os_), sum(q[2] for q in os_))
            if shp[0] * shp[1] > 40:
                return None
        elif len({q[ax] for q in os_}) > 1:
            return g.emit(k, ms, v='')
        else:
            shp = (sum(q[1] for q in os_), o[2]) if k == 'vstack' else (o[1], sum(q[2] for q in os_))
        v = ''
        if k == 'vstack' and o[2] > 0:
            v = r.choice(['', 'rows', 'join' if len(ms) == 2 else ''])
        if k == 'hstack':
            v = r.choice(['', 'join' if len(ms) == 2 else ''])
        return g.emit(k, ms, [('m',) + shp], v=v)
    if k == 'diags':
        ids = [g.scalar(1) for _ in range(r.randint(1, 4))]
        return g.emit('diags', ids, [('m', len(ids), len(ids))])
    m = g.any_mat(small)
    t, rr, cc = g.o[m - 1]
    if k == 'info':
        return g.emit('info', [m], [('n', 5, 1)])
    if k in ('get',):
        i, j = r.randint(-rr - 1, rr), r.randint(-cc - 1, cc)
        ok = -rr <= i < rr and -cc <= j < cc
        return g.emit('get', [m], [('s', 1, 1)] if ok else [], p=[i, j])
    if k == 'row':
        i = r.randint(-rr - 1, rr)
        return g.emit('row', [m], ([('s', 1, 1)] if cc == 1 else [('m', 1, cc)]) if -rr <= i < rr else [], p=[i])
    if k == 'rowslice':
        p = g.any_slice(rr)
        return g.emit('rowslice', [m], [('m', g.slen(rr, p), cc)] if p[4] else [], p=p)
    if k == 'slice2':
        p, q = g.any_slice(rr), g.any_slice(cc)
        return g.emit('slice2', [m], [('m', g.slen(rr, p), g.slen(cc, q))] if p[4] and q[4] else [], p=p + q)
    if k == 'rowcols':
        i, p = r.randint(-rr - 1, rr), g.any_slice(cc)
        ok = -rr <= i < rr and p[4]
        if not ok and p[4] and g.slen(cc, p) == 0:
            return None
        return g.emit('rowcols', [m], [('m', 1, g.slen(cc, p))] if ok else [], p=[i] + p)
    if k == 'rowscol':
        j, p = r.randint(-cc - 1, cc), g.any_slice(rr)
        ok = -cc <= j < cc and p[4]
        if not ok and p[4] and g.slen(rr, p) == 0:
            return None
        return g.emit('rowscol', [m], [('m', g.slen(rr, p), 1)] if ok else [], p=[j] + p)
    if k == 'iter':
        return g.emit('iter', [m], [('s', 1, 1) if cc == 1 else ('m', 1, cc)] * rr)
    if k == 'tolist':
        return g.emit('tolist', [m], [('m', rr, cc)]) if rr else None
    if k == 'flat':
        return g.emit('flat', [m], [('m', 1, rr * cc)])
    if k == 'T':
        return g.emit('T', [m], [('m', cc, rr)], v=r.choice(['', 'm']))
    if k == 'reshape':
        n = rr * cc
        f = [i for i in range(1, n + 1) if n % i == 0] or [0]
        a = r.choice(f)
        b = n // a if a else r.randint(0, 3)
        if r.random() < 0.12:
            b += r.choice([1, -1])
            if a * b == n:
                return None
            return g.emit('reshape', [m], p=[a, b], v=r.choice(['', 't']))
        return g.emit('reshape', [m], [('m', a, b)], p=[a, b], v=r.choice(['', 't']))
    if k == 'vec':
        return g.emit('vec', [m], [('m', rr * cc, 1)])
    if k in ('neg', 'same', 'cse'):
        if k == 'cse' and not rr * cc:
            return None
        v = r.choice(['distribute', 'collect']) if k == 'same' else ''
        return g.emit(k, [m], [('m', rr, cc)], v=v, udef='ok' if k == 'cse' else 'no')
    if k in ('add', 'sub', 'where'):
        c = g.mats(lambda q: q[1:] == (rr, cc))
        b = r.choice(c) if r.random() < 0.7 and c else (g.mat(rr, cc) if r.random() < 0.7 and rr * cc else g.any_mat(small))
        ok = g.o[b - 1][1:] == (rr, cc)
        a = [m, b] if r.random() < 0.5 else [b, m]
        if k == 'where':
            a = [g.cond()] + a
        return g.emit(k, a, [('m', rr, cc)] if ok else [])
    if k == 'mul':
        c = g.mats(lambda q: q[1] == cc and q[2] <= 4)
        if rr > 4 or cc > 4:
            return None
        b = r.choice(c) if r.random() < 0.6 and c else (g.mat(cc, r.randint(1, 3)) if r.random() < 0.75 and cc else g.any_mat(small))
        ok = g.o[b - 1][1] == cc
        return g.emit('mul', [m, b], [('m', rr, g.o[b - 1][2])] if ok else [])
    if k in ('mulms', 'divms'):
        alt = r.choice(['', 'int', 'float', '', 'r' if k == 'mulms' else ''])
        if alt in ('int', 'float'):
            v = r.choice(['2', '3', '-4', '1'] if alt == 'int' else ['1/2', '-3/4', '2', '5/8'])
            return g.emit(k, [m, g.num(v)], [('m', rr, cc)], v=alt, w=v)
        s = g.scalar(1, 0) if k == 'mulms' else g.num(r.choice(['2', '3/4', '-5'])) if r.random() < 0.4 else g.var('x')
        if r.random() < 0.2 and k == 'mulms':
            alt = r.choice(['rint', 'rfloat'])
            v = r.choice(['2', '-3'] if alt == 'rint' else ['1/2', '-3/4'])
            return g.emit(k, [m, g.num(v)], [('m', rr, cc)], v=alt, w=v)
        return g.emit(k, [m, s], [('m', rr, cc)], v=alt)
    if k in ('sqnorm', 'norm'):
        return g.emit(k, [m], [('s', 1, 1)]) if rr * cc else None
    if k == 'det':
        if r.random() < 0.7:
            n = r.choice([1, 2, 3, 3, 4, 4, 5])
            m = g.mat(n, n, zero=0.2 if n < 4 else r.choice([0.25, 0.45]), const=n > 3 and r.random() < 0.6)
            t, rr, cc = g.o[m - 1]
        if rr != cc and r.random() < 0.6 or rr == cc == 0:
            return None
        return g.emit('det', [m], [('s', 1, 1)] if rr == cc else [], v=r.choice(['', 'm']), udef='ok' if rr > 3 else 'no',
                      digits=15)
    if k == 'lu':
        if r.random() < 0.8:
            a = r.randint(1, 5)
            b = r.randint(a, 5)
            m = g.mat(a, b, zero=r.choice([0.15, 0.3, 0.5]), const=a > 3 or r.random() < 0.5)
            t, rr, cc = g.o[m - 1]
        if not rr * cc or rr > cc:
            return None
        return g.emit('lu', [m], [('m', rr, rr), ('m', rr, rr), ('m', rr, cc), ('m', cc, cc)])
    if k == 'unary':
        return g.emit('unary', [m], [('m', rr, cc)], v=r.choice(['neg', 'sq', 'inc', 'twice', 'sin', 'exp']))
    if k == 'diff':
        if rr * cc > 9:
            return None
        return g.emit('diff', [m, g.var(r.choice(g.vars))], [('m', rr, cc)], p=[r.choice([1, 1, 2])], udef='ok', digits=8,
                      v=r.choice(['', 'abstract']))
    if k == 'jac':
        n = r.randint(1, 3)
        if r.random() < 0.75:
            m = g.mat(*((n, 1) if r.random() < 0.6 else (1, n)), depth=2)
            t, rr, cc = g.o[m - 1]
        if rr * cc > 4 or not rr * cc:
            return None
        names = r.sample(g.vars, r.randint(1, 3))
        sh = (len(names), 1) if r.random() < 0.6 else (1, len(names))
        vs = g.emit('mat', [g.var(n) for n in names], [('m',) + sh], p=list(sh), v='rows')
        ok = rr == 1 or cc == 1
        v = r.choice(['mm', 'sym', 'lists', 'ml'])
        if not ok and v == 'lists':
            v = 'mm'
        return g.emit('jac', [m, vs], [('m', rr * cc, len(names))] if ok else [], v=v, udef='ok', digits=8)
    if k == 'subs':
        t_ = g.var(r.choice(g.vars))
        rep = g.scalar(1, 0.05)
        return g.emit('subs', [m, t_, rep], [('m', rr, cc)], v=r.choice(['', 'pairs']), udef='no')
    if k == 'eval':
        arr = r.random() < 0.3
        m = g.mat(r.randint(1, 3), r.randint(1, 3), const='int' if arr else True)
        t, rr, cc = g.o[m - 1]
        if arr:
            return g.emit('eval', [m], [('m', rr, cc)], v='array', digits=10)
        if r.random() < 0.5:
            f = g.emit('unary', [m], [('m', rr, cc)], v=r.choice(['sin', 'exp', 'sq']))
            m = f
        return g.emit('eval', [m], [('m', rr, cc)], digits=10)
    if k == 'bad':
        w = r.choice(['eye', 'zeros', 'symbols', 'ragged', 'empty', 'hstack0', 'vstack0', 'diag0', 'jacmat'])
        if w in ('eye', 'zeros', 'symbols'):
            p = r.choice([[0, 2], [2, 0], [-1, 2], [3, -2], [0, 0]])
            return g.emit(w, p=p, v='bad' if w == 'symbols' else '')
        if w == 'ragged':
            return g.emit('ragged', [g.scalar(1) for _ in range(r.choice([3, 5]))], p=[2], v=r.choice(['rows', 'gen']))
        if w == 'empty':
            return g.emit('mat', p=r.choice([[0, 0], [1, 0], [2, 0], [0, 1]]), v=r.choice(['rows', 'vector', 'row_vector']))
        if w == 'jacmat':
            m = g.mat(2, 2)
            vs = g.emit('mat', [g.var('x')], [('m', 1, 1)], p=[1, 1], v='rows')
            return g.emit('jac', r.choice([[m, vs], [vs, m]]), v=r.choice(['mm', 'sym']), digits=8, udef='ok')
        return g.emit(w[:-1], [])
    return None


def gen_matrix(seed, i, n=9):
    r = random.Random(f'{seed}/mat/{i}')
    g = Gen(r, i)
    for _ in range(r.randint(0, 2)):
        g.mat(r.randint(1, 3), r.randint(1, 3))
    for _ in range(n):
        matrix_step(g)
    return g.plan()


# ------------------------------------------------------------------------------- quaternions
EPS = [None, '0', '1/1000', '1/10', '1/2']


def add_group(g, name, kind):
    for e in g.env:
        if kind == 'unit':
            v = [fs(x) for x in unit_quat(g.r)]
        else:
            v = [g.r.choice(REAL + ['0']) for _ in range(4)]
            if all(x == '0' for x in v):
                v[0] = '1'
        for s, x in zip('wxyz', v):
            e[f'{name}_{s}'] = x


def gen_quat(seed, i, n=8):
    r = random.Random(f'{seed}/quat/{i}')
    g = Gen(r, i, ns=4)
    Q1 = [('q', 4, 1)]
    add_group(g, 'u', 'unit')
    add_group(g, 't', 'unit')
    add_group(g, 'p', 'any')
    for e in g.env:
        for nme, x in zip(('vx', 'vy', 'vz'), rotvec(r)):
            e[nme] = x
        e['th'] = r.choice(REAL + ['3', '0', '7', '-5'])
    rots = [rotation(unit_quat(r)) for _ in g.env]
    qs = {}

    def quat(kinds=('u', 't', 'p', 'prod', 'list', 'const')):
        k = r.choice(kinds)
        if k in ('u', 't', 'p'):
            if k not in qs or r.random() < 0.2:
                if r.random() < 0.5:
                    qs[k] = g.emit('qname', out=Q1, v=k)
                else:
                    qs[k] = g.emit('q', [g.var(f'{k}_{s}') for s in 'wxyz'], Q1)
            return qs[k]
        if k == 'prod':
            return g.emit('qmul', [quat(('u', 't', 'p')), quat(('u', 't'))], Q1)
        if k == 'uprod':
            return g.emit('qmul', [quat(('u',)), quat(('t',))], Q1)
        if k == 'const':
            q = unit_quat(r)
            while max(x.denominator for x in q) > 4000:      # stay clear of 64-bit overflow
                q = unit_quat(r)
            q = [g.num(fs(x)) for x in q]
            return g.emit('q', q, Q1)
        if k == 'id':
            return g.emit('qid', out=Q1)
        if k == 'list':
            v = r.choice(['wxyz', 'xyzw'])
            m = g.emit('mat', [g.var(f'p_{s}') for s in 'wxyz'], [('m', 4, 1)], p=[4, 1], v='vector')
            return g.emit('qfrom', [m], Q1, v=v, alt=r.choice(['list', 'mat']))
    UNIT = ('u', 't', 'uprod', 'const', 'u', 'id')

    def eps():
        e = r.choice(EPS)
        return ([g.num(e)] if e is not None else []), [1 if e is not None else 0]

    def rvec():
        return g.emit('mat', [g.var('vx'), g.var('vy'), g.var('vz')], [('m', 3, 1)], p=[3, 1], v='vector')
    for _ in range(n):
        k = r.choice(['qmul', 'qconj', 'qinv', 'qunit', 'qnorm', 'qsqnorm', 'qrotmat', 'qrotate', 'qlist', 'qwxyz',
                      'qxyzw', 'qel', 'aa', 'aa3', 'rv', 'rv3', 'rv', 'qxang', 'q_to_aa', 'q_to_rv', 'q_to_rv', 'fromR',
                      'fromR', 'rrd', 'rlcd', 'ljac', 'iljac', 'qsubs', 'eval', 'bad', 'qfrom'])
        if k == 'qmul':
            g.emit(k, [quat(), quat()], Q1)
        elif k in ('qconj', 'qinv', 'qunit'):
            g.emit(k, [quat()], Q1)
        elif k in ('qnorm', 'qsqnorm'):
            g.emit(k, [quat()], [('s', 1, 1)])
        elif k == 'qrotmat':
            g.emit(k, [quat(UNIT)], [('m', 3, 3)])
        elif k == 'qrotate':
            v = r.choice([rvec(), g.mat(3, 1)])
            g.emit(k, [quat(UNIT), v], [('m', 3, 1)])
        elif k == 'qlist':
            g.emit(k, [quat()], [('m', 1, 4)])
        elif k in ('qwxyz', 'qxyzw'):
            g.emit(k, [quat()], [('m', 4, 1)])
        elif k == 'qel':
            g.emit(k, [quat()], [('s', 1, 1)] * 4)
        elif k == 'aa3':
            g.emit(k, [g.var('th')] + [g.scalar(1) for _ in range(3)], Q1)
        elif k == 'aa':
            g.emit(k, [g.var('th'), g.mat(3, 1)], Q1)
        elif k == 'rv':
            e, p = eps()
            g.emit(k, [rvec()] + e, Q1, p=p)
        elif k == 'rv3':
            e, p = eps()
            g.emit(k, [g.var(r.choice(['vx', 'vy'])), g.var('vy'), g.var('vz')] + e, Q1, p=p)
        elif k == 'qxang':
            g.emit(k, [g.var('th')], Q1, v=r.choice('xyz'))
        elif k == 'q_to_aa':
            e, p = eps()
            g.emit(k, [quat(UNIT)] + e, [('s', 1, 1), ('m', 3, 1)], p=p)
        elif k == 'q_to_rv':
            e, p = eps()
            g.emit(k, [quat(UNIT)] + e, [('m', 3, 1)], p=p, v=r.choice(['atan2', 'atan2', 'acos']))
        elif k == 'fromR':
            if r.random() < 0.6:
                m = g.symbols('R', 3, 3, [[[fs(x) for x in row] for row in R] for R in rots])
            else:
                m = g.emit('qrotmat', [quat(UNIT)], [('m', 3, 3)])
            g.emit(k, [m], Q1)
        elif k == 'rrd':
            g.emit(k, [quat()], [('m', 4, 3)], digits=12)
        elif k == 'rlcd':
            g.emit(k, [quat(UNIT)], [('m', 3, 4)], digits=12)
        elif k in ('ljac', 'iljac'):
            e, p = eps()
            g.emit(k, [rvec()] + e, [('m', 3, 3)], p=p)
        elif k == 'qsubs':
            q = quat(('u', 'p', 'prod', 'uprod'))
            g.emit(k, [q, g.var(r.choice(['u_w', 'p_x', 't_y', 'p_w', 'u_z'])), g.scalar(1)], Q1)
        elif k == 'eval':
            q = quat(('const', 'id'))
            g.emit('eval', [q], [('m', 4, 1)], v='q', digits=10)
        elif k == 'bad':
            w = r.choice(['qfrom', 'qrotate', 'rv', 'ljac', 'iljac', 'aa', 'fromR'])
            m = g.mat(*r.choice([(2, 1), (1, 3), (4, 1), (3, 3), (3, 2), (2, 2)]))
            o = g.o[m - 1]
            if w == 'qfrom':
                if o[1] * o[2] == 4:
                    continue
                g.emit(w, [m], [], v=r.choice(['wxyz', 'xyzw']), alt=r.choice(['list', 'mat']))
            elif w == 'fromR':
                if o[1:] == (3, 3):
                    continue
                g.emit(w, [m], [])
            elif w == 'qrotate':
                g.emit(w, [quat(UNIT), m], [])
            elif w == 'aa':
                g.emit(w, [g.var('th'), m], [])
            else:
                g.emit(w, [m], [], p=[0])
    return g.plan()
