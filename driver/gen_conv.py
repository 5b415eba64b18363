"""Generator of walks between wrenfold and SymPy (C19)."""
import random
import gen_sym as G
from gen_sym import POS, RATS, REAL, SMALL

CALLS = {'f': 1, 'g': 2, 'h': 3}
SP_SETS = ['real', 'positive', 'nonnegative', 'unknown', 'complex', 'negative', 'integer', 'integer,positive', 'nonzero,real',
           'rational', 'integer,nonnegative', 'nonpositive', 'finite', 'commutative', 'extended_real']


def walk_steps(r, start):
    n = r.choice([1, 2, 2, 3, 4])
    return [r.randint(0, 1) for _ in range(n)]


def gen_conv(seed, idx):
    r = random.Random(f'C19:{seed}:{idx}')
    return gen_sp(r, seed, idx) if r.random() < 0.45 else gen_wf(r, seed, idx)


def gen_wf(r, seed, idx):
    x = r.random()
    if x < 0.45:
        d = G.gen_construct(f'c19-{seed}', idx, 'C01')
    elif x < 0.75:
        d = G.gen_relations(f'c19-{seed}', idx)
    else:
        d = G.gen_deriv(f'c19-{seed}', idx)
    ops = [{k: o[k] for k in ('k', 'a', 'v', 'alt') if k in o} for o in d['ops']]
    for o in ops:       # towers of powers exceed the working precision
        if o['k'] == 'pow' and ops[o['a'][1] - 1]['k'] not in ('num', 'var'):
            o['k'] = 'mul'
    kinds = ['b' if o['k'] in ('lt', 'le', 'gt', 'ge', 'eq', 'true', 'false') else 's' for o in ops]
    fnum = any(o['k'] == 'num' and o.get('alt') for o in ops)

    def add(k, a, v='', t='s', alt=0):
        ops.append(dict(k=k, a=list(a), v=v, alt=alt))
        kinds.append(t)
        return len(ops)

    def scal():
        c = [i + 1 for i, t in enumerate(kinds) if t == 's']
        return r.choice(c[-6:]) if r.random() < 0.6 else r.choice(c)

    nv = len(d['vars'])
    for _ in range(r.randint(1, 4)):
        y = r.random()
        if y < 0.15:
            add(r.choice(['min', 'max']), [scal(), scal()])
        elif y < 0.3:
            a, b = scal(), scal()
            c = add(r.choice(['lt', 'le', 'gt', 'ge', 'eq']), [a, b], t='b')
            u, w = r.choice([(a, b), (b, a), (a, scal()), (scal(), b)])
            add('where', [c, u, w])
        elif y < 0.4:
            f = r.choice('fgh')
            add('call', [scal() for _ in range(CALLS[f])], f)
        elif y < 0.5:
            f = r.choice('fgh')
            c = add('call', [r.randint(1, nv) if r.random() < 0.7 else scal() for _ in range(CALLS[f])], f)
            add('deriv', [c, r.randint(1, nv)], r.choice('12'), alt=r.choice([0, 1]))
        elif y < 0.6:
            add('subst', [scal(), r.randint(1, nv), scal()], alt=9)
        elif y < 0.7:
            add('uneval', [scal()])
        elif y < 0.75:
            c = add(r.choice(['lt', 'eq']), [scal(), scal()], t='b')
            add('iverson', [c])
        elif y < 0.79:
            add('stopd', [scal()])
        elif y < 0.84:
            add(r.choice(['zoo', 'nan']), [])
        else:
            add('add' if r.random() < 0.5 else 'mul', [scal(), scal()], alt=1)
    walks = []
    deep = [i + 1 for i, o in enumerate(ops) if o['a']] or [1]
    for _ in range(5):
        i = r.choice(deep[-6:]) if r.random() < 0.7 else r.choice(deep)
        walks.append([i, walk_steps(r, 'wf')])
    sh = r.choice([(1, 2), (2, 1), (2, 2), (2, 3), (3, 1)])
    m = add('mat', [scal() for _ in range(sh[0] * sh[1])], f'{sh[0]}x{sh[1]}', 'm')
    walks.append([m, walk_steps(r, 'wf')])
    env = d['env']
    hard = any(o['k'] == 'deriv' for o in ops)
    if hard:
        for e in env:
            e['#ro'] = 'T'
    return dict(id=f'C19-{seed}-{idx}', lang='wf', vars=d['vars'], env=env, ops=ops, walks=walks, digits=7 if hard else 25)


def sp_value(r, s):
    if 'nonnegative' in s:
        return r.choice(['0', '1', '4'] if 'integer' in s else ['0'] + POS)
    if 'nonpositive' in s:
        return r.choice(['0', '-1/3', '-2'])
    if 'positive' in s:
        return r.choice(['1', '2', '5'] if 'integer' in s else POS)
    if 'negative' in s:
        return r.choice(['-1/3', '-2', '-7/4'])
    if 'integer' in s:
        return r.choice(['-2', '-1', '0', '3'])
    if s == 'complex':
        return r.choice(G.CPLX + REAL)
    return r.choice(REAL)


def gen_sp(r, seed, idx):
    vs = [dict(n=n, s=r.choice(SP_SETS[:4] if r.random() < 0.5 else SP_SETS)) for n in 'xyz']
    env = [dict({v['n']: sp_value(r, v['s']) for v in vs}, **{'#ro': 'F'}) for _ in range(4)]
    for e in env:       # ties, so that the conditions of piecewise functions meet their boundaries
        if r.random() < 0.4:
            a, b = r.sample('xyz', 2)
            if all(v['s'] in ('real', 'unknown', 'positive', 'commutative') for v in vs if v['n'] in (a, b)):
                e[a] = e[b] = r.choice(POS)
    ops, kinds = [], []

    def add(k, a=(), v='', t='s', alt=0, ev=None):
        ops.append(dict(k=k, a=list(a), v=v, alt=alt, ev=(r.random() < 0.6) * 1 if ev is None else ev))
        kinds.append(t)
        return len(ops)

    def scal():
        c = [i + 1 for i, t in enumerate(kinds) if t == 's']
        return r.choice(c[-6:]) if r.random() < 0.5 else r.choice(c)

    def boolean():
        c = [i + 1 for i, t in enumerate(kinds) if t == 'b']
        if c and r.random() < 0.4:
            return r.choice(c)
        return add(r.choice(['lt', 'le', 'gt', 'ge', 'eq', 'lt', 'gt']), [scal(), scal()], t='b')

    for v in vs:
        add('var', v=v['n'])
    fl = r.random() < 0.12
    for c in r.sample(SMALL, 2) + r.sample(RATS, 2) + ['0', '1']:
        add('num', v=c, alt=int(fl and r.random() < 0.5))
    if r.random() < 0.3:
        add('const', v=r.choice(['pi', 'e', 'i', 'pi']))
    for _ in range(r.randint(6, 12)):
        x = r.random()
        if x < 0.18:
            add('add', [scal() for _ in range(r.randint(2, 4))])
        elif x < 0.36:
            add('mul', [scal() for _ in range(r.randint(2, 4))])
        elif x < 0.46:
            add('pow', [scal(), add('num', v=r.choice(['2', '-1', '1/2', '-1/2', '3', '2/3', '-2'])) if r.random() < 0.8 else r.choice([1, 2, 3])])
        elif x < 0.58:
            add('fn', [scal()], r.choice(['sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'sinh', 'cosh', 'tanh', 'asinh', 'acosh',
                                          'atanh', 'log', 'exp', 'abs', 'exp', 'abs']))
        elif x < 0.63:
            add(r.choice(['sign', 'floor', 'atan2']), [scal()])
            if ops[-1]['k'] == 'atan2':
                ops[-1]['a'].append(r.choice([1, 2, 3]))
        elif x < 0.70:
            add(r.choice(['Min', 'Max']), [scal() for _ in range(r.choice([2, 2, 2, 3]))])
        elif x < 0.80:
            n = r.randint(1, 3)
            a = []
            for _ in range(n):
                a += [scal(), boolean()]
            y = r.random()
            if y < 0.25:
                a = [9 if kinds[8] == 's' else scal(), boolean(), 8]     # 1 and 0
                a[0] = 9
                if r.random() < 0.4:        # without a value where neither condition holds
                    a.append(boolean())
            elif y < 0.85:
                a += [scal()]
            add('piecewise', a)
        elif x < 0.84:
            add('heaviside', [scal()] + ([r.choice([8, 9, 4, 6])] if r.random() < 0.5 else []))
        elif x < 0.87:
            add('uneval', [scal()])
        elif x < 0.92:
            f = r.choice('fgh')
            add('call', [scal() for _ in range(CALLS[f])], f, alt=int(r.random() < 0.05))
        elif x < 0.95:
            f = r.choice('fgh')
            c = add('call', [r.randint(1, 3) if r.random() < 0.7 else scal() for _ in range(CALLS[f])], f)
            k = r.choice([1, 1, 2])
            add('deriv', [c if r.random() < 0.8 else scal()] + r.sample([1, 2, 3], k), ','.join(r.choice('12' if k == 1 else '1') for _ in range(k)))
        elif x < 0.98:
            n = r.choice([1, 1, 2])
            f = r.choice('gh')
            c = add('call', [r.randint(1, 3) if r.random() < 0.7 else scal() for _ in range(CALLS[f])], f)
            add('subst', [c] + r.sample([1, 2, 3], n) + [r.choice([1, 2, 3, 4, 5, scal()]) for _ in range(n)])
        else:
            k = r.choice(['ne', 'And', 'Or', 'Not', 'ceiling', 'cot', 'sec', 'Mod', 'oo', 'zoo', 'big', 're', 'conjugate', 'sinc'])
            if k == 'ne':
                add('ne', [scal(), scal()], t='b')
            elif k in ('And', 'Or'):
                add(k, [boolean(), boolean()], t='b')
            elif k == 'Not':
                add(k, [boolean()], t='b', ev=0)
            elif k in ('oo', 'zoo'):
                add('const', v=k)
            elif k == 'big':
                add('num', v=r.choice(['9223372036854775808', '-9223372036854775809', '36893488147419103233/2', '9223372036854775807', '-9223372036854775807']))
            else:
                add(k, [scal()] * (2 if k == 'Mod' else 1))
    deep = [i + 1 for i, o in enumerate(ops) if o['a']]
    walks = []
    for _ in range(5):
        walks.append([r.choice(deep[-6:]) if r.random() < 0.7 else r.choice(deep), walk_steps(r, 'sp')])
    sh = r.choice([(1, 2), (2, 1), (2, 2), (2, 3), (1, 1)])
    m = add('mat', [scal() for _ in range(sh[0] * sh[1])], f'{sh[0]}x{sh[1]}', 'm', alt=r.randint(0, 1))
    walks.append([m, walk_steps(r, 'sp')])
    hard = any(o['k'] == 'deriv' for o in ops)
    if hard:
        for e in env:
            e['#ro'] = 'T'
    return dict(id=f'C19-{seed}-{idx}', lang='sp', vars=vs, env=env, ops=ops, walks=walks, digits=7 if hard else 25)


FIXED = [dict(id='KF4', kf=1, lang='sp', vars=[dict(n=n, s='unknown') for n in 'xyz'], env=[{'x': '2', 'y': '-1/3', 'z': '3', '#ro': 'F'}],
              ops=[dict(k='var', a=[], v=n) for n in 'xyz'] + [dict(k='call', a=[1, 2], v='g'), dict(k='num', a=[], v='2'), dict(k='pow', a=[2, 5]),
                   dict(k='const', a=[], v='pi'), dict(k='subst', a=[4, 1, 2, 6, 7], alt=1)], walks=[[8, [1]]], digits=25)]
