"""Generator of expression pools (C08): leaves that are easily confused, every node kind, many rebuilds."""
import json
import random

SETS = ['unknown', 'real', 'positive', 'nonnegative', 'complex']
LAYOUTS = [
    [['x', 's'], ['y', 's'], ['n', 'i']],
    [['x', 'i'], ['n', 's'], ['m', [2, 2]]],
    [['b', 'Box'], ['p', 'Pose'], ['x', 's']],
    [['v', [3, 1]], ['y', 'i'], ['n', 's']],
    [['k', [2, 3]], ['x', 's']],
]
PATHS = {0: ['x', 'y', 'n'], 1: ['x', 'n', 'm[0,0]', 'm[0,1]', 'm[1,0]', 'm[1,1]'],
         2: ['b.a.x', 'b.a.y', 'b.m[0,1]', 'b.m[1,0]', 'b.w', 'p.t[0,0]', 'p.t[2,0]', 'p.k', 'x'],
         3: ['v[0,0]', 'v[1,0]', 'v[2,0]', 'y', 'n'], 4: ['k[0,0]', 'k[0,1]', 'k[0,2]', 'k[1,0]', 'x']}
INTS = ['-3', '-2', '-1', '0', '1', '2', '3', '4', '5', '6', '9007199254740993', '9007199254740992', '-9007199254740993',
        '4611686018427387904', '9223372036854775807', '-9223372036854775807']
RATS = ['1/2', '-1/2', '1/3', '2/3', '-3/2', '5/2', '3/4', '4611686018427387903/4611686018427387904',
        '4611686018427387904/4611686018427387905', '-7/3', '1/9007199254740993', '1/9007199254740992']
FLOATS = [x.hex() for x in (0.0, -0.0, 0.5, -0.5, 1.0, -1.0, 2.0, 0.1, 0.1 + 2 ** -56, 1 / 3, 9007199254740992.0, 1e300, -1e-300,
                            5e-324, 2.5, 1.0 + 2 ** -52)] + ['nan', 'inf', '-inf']
FN = ['cos', 'sin', 'tan', 'acos', 'asin', 'atan', 'cosh', 'sinh', 'tanh', 'acosh', 'asinh', 'atanh', 'log', 'exp', 'abs', 'sqrt']


class P:
    def __init__(self, r, pid):
        self.r = r
        self.ops = []
        self.t = []
        self.dims = {}
        self.d = dict(id=pid, ops=self.ops)

    def op(self, k, a=(), v='', t='s', alt=0):
        self.ops.append(dict(k=k, a=list(a), v=v, alt=alt))
        self.t.append(t)
        return len(self.t)

    def some(self, t='s'):
        c = [i + 1 for i, x in enumerate(self.t) if x == t]
        if not c:
            return None
        return self.r.choice(c[-6:]) if self.r.random() < 0.4 else self.r.choice(c)


def leaf(r, p):
    x = r.random()
    if x < 0.4:
        return p.op('var', v=r.choice(['x', 'x', 'y', 'z', 'xy', 'n', '$u_1']) + ':' + r.choice(SETS + ['real', 'real']))
    if x < 0.5:
        i = r.randrange(len(LAYOUTS))
        return p.op('farg', v=json.dumps([LAYOUTS[i], r.choice(PATHS[i])]))
    if x < 0.55:
        return p.op('uniq', v=r.choice(SETS))
    if x < 0.68:
        return p.op('num', v=r.choice(INTS if r.random() < 0.5 else INTS[:10]))
    if x < 0.78:
        return p.op('num', v=r.choice(RATS))
    if x < 0.86:
        return p.op('float', v=r.choice(FLOATS))
    return p.op('const', v=r.choice(['pi', 'e', 'i'])) if x < 0.97 else p.op(r.choice(['zoo', 'nan']))


def step(r, p):
    x = r.random()
    s = p.some
    if x < 0.30 and len(p.ops) > 6:      # again, from the same or permuted operands
        i = r.randrange(len(p.ops))
        o = p.ops[i]
        if o['k'] == 'uniq':
            return
        a = list(o['a'])
        if o['k'] in ('add', 'mul', 'eq', 'madd'):
            r.shuffle(a)
        elif r.random() < 0.25 and len(a) > 1 and p.t[a[0] - 1] == p.t[a[1] - 1]:
            a[0], a[1] = a[1], a[0]     # not a commutative construction: usually another expression
        return p.op(o['k'], a, o['v'], p.t[i], r.choice([0, 1]) if o['k'] in ('add', 'mul') else o['alt'])
    if x < 0.36:
        return leaf(r, p)
    if x < 0.48:
        return p.op('add', [s() for _ in range(r.randint(2, 5))], alt=r.randint(0, 1))
    if x < 0.60:
        return p.op('mul', [s() for _ in range(r.randint(2, 5))], alt=r.randint(0, 1))
    if x < 0.66:
        return p.op('pow', [s(), s() if r.random() < 0.5 else p.op('num', v=r.choice(RATS[:6] + ['2', '-1', '3']))], alt=r.randint(0, 1))
    if x < 0.70:
        return p.op(r.choice(['sub', 'div']), [s(), s()])
    if x < 0.76:
        return p.op('fn', [s()], r.choice(FN))
    if x < 0.78:
        return p.op(r.choice(['sign', 'floor']), [s()])
    if x < 0.80:
        return p.op(r.choice(['atan2', 'min', 'max']), [s(), s()])
    if x < 0.86:
        return p.op(r.choice(['lt', 'le', 'gt', 'ge', 'eq', 'eq']), [s(), s()], t='b')
    if x < 0.88:
        b = s('b')
        return p.op('where', [b, s(), s()]) if b else None
    if x < 0.90:
        b = s('b')
        return p.op('iverson', [b]) if b else None
    if x < 0.925:
        return p.op(r.choice(['uneval', 'stopd']), [s()])
    if x < 0.945:
        return p.op('call', [s() for _ in range(r.choice([0, 1, 1, 2, 2, 3]))], r.choice('fgh'))
    if x < 0.96:
        c = p.op('call', [s() for _ in range(r.randint(1, 2))], r.choice('fg'))
        v = p.op('var', v=r.choice('xyz') + ':' + r.choice(['real', 'unknown']))
        return p.op('deriv', [c, v], r.choice('112'), alt=r.choice([0, 1, 1, 2]))
    if x < 0.97:
        n = r.choice(['ext_s#0', 'ext_v#0', 'ext_m#1', 'ext_m#2', 'ext_p#0', 'ext_p#1', 'ext_0#0', 'ext_i#0'])
        na = {'ext_s': 2, 'ext_v': 3, 'ext_m': 1, 'ext_p': 3, 'ext_0': 0, 'ext_i': 1}[n[:5]]
        return p.op('ext', [s() for _ in range(na)], n)
    if x < 0.985:
        return p.op('pyop', [s()], r.choice(['r+', '+', 'r*', '*', 'r-', '-', 'r/', '/', '**']) + ' ' + r.choice(['2', '-1', '3', '1', 'f0x1p-1']))
    shape = r.choice([(1, 2), (2, 1), (2, 2), (1, 1), (2, 3)])
    m = s('m')
    if m and r.random() < 0.5:
        k = r.choice(['madd', 'madd', 'msub', 'mmul', 'mT'])
        return p.op(k, [m] if k == 'mT' else [m, s('m')], t='m')
    return p.op('mat', [s() for _ in range(shape[0] * shape[1])], f'{shape[0]}x{shape[1]}', 'm')


def gen_order(seed, idx, n=34):
    r = random.Random(f'C08:{seed}:{idx}')
    p = P(r, f'C08-{seed}-{idx}')
    theme = r.random()
    for _ in range(r.randint(4, 9)):
        leaf(r, p)
    if theme < 0.2:         # numbers
        for v in r.sample(INTS, 5) + r.sample(RATS, 4):
            p.op('num', v=v)
        for v in r.sample(FLOATS, 5):
            p.op('float', v=v)
    elif theme < 0.4:       # the same names
        for q in SETS:
            p.op('var', v='x:' + q)
        for i in range(len(LAYOUTS)):
            p.op('farg', v=json.dumps([LAYOUTS[i], r.choice(PATHS[i])]))
    elif theme < 0.55:      # matrices
        for _ in range(4):
            sh = r.choice([(1, 2), (2, 1), (2, 2)])
            p.op('mat', [p.some() for _ in range(sh[0] * sh[1])], f'{sh[0]}x{sh[1]}', 'm')
    elif theme < 0.7:       # n-ary sums and products over the same operands
        base = [p.some() for _ in range(r.randint(3, 6))]
        k = r.choice(['add', 'mul'])
        for _ in range(5):
            r.shuffle(base)
            p.op(k, base[:r.randint(2, len(base))], alt=r.randint(0, 1))
    while len(p.ops) < n:
        step(r, p)
    return p.d


def gen_print(seed, idx, n=22):
    """Expressions to be printed and read back (C18): as above, without user types in external calls."""
    r = random.Random(f'C18:{seed}:{idx}')
    p = P(r, f'C18-{seed}-{idx}')
    for _ in range(r.randint(4, 7)):
        leaf(r, p)
    while len(p.ops) < n:
        x = r.random()
        if x < 0.12:       # operands that need brackets, in every position
            s = [p.op('neg', [p.some()]), p.op('add', [p.some(), p.some()]), p.op('div', [p.some(), p.some()]),
                 p.op('num', v=r.choice(['-2', '-1/3', '2/3', '1/2'])), p.op('pow', [p.some(), p.some()])]
            a, b = r.choice(s), r.choice(s)
            k = r.choice(['pow', 'pow', 'mul', 'div', 'sub', 'add', 'lt', 'eq', 'call', 'uneval'])
            p.op(k, [a] if k == 'uneval' else [a, b], 'f' if k == 'call' else '', 'b' if k in ('lt', 'eq') else 's')
        elif x < 0.2:
            p.op('mul', [p.op('num', v=r.choice(['-1', '-2', '3/2', '-3/2', '1/3', '5'])),
                         p.op('pow', [p.some(), p.op('num', v=r.choice(['-1', '-2', '-1/2', '1/2', '2']))]), p.some()], alt=r.randint(0, 1))
        else:
            step(r, p)
    for o in p.ops:
        if o['k'] == 'num' and r.random() < 0.06:
            o['v'] = r.choice(['-9223372036854775808', '-9223372036854775808/3', '9223372036854775807'])
        if o['k'] == 'ext' and o['v'].startswith('ext_p'):
            o['v'] = 'ext_v#0'
    return p.d
