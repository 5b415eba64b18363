"""C03: arithmetic on constants through spec/Consts.tla."""
import random
from fractions import Fraction
import harness as H
from wfdump_free import frac_str

I63 = 2**63
INTS = [0, 1, -1, 2, -2, 3, -7, 10, 2**31, 2**31 - 1, -2**31, 2**32, 3037000499, 3037000500, -3037000500,
        2**53 + 1, 2**62, -2**62, 2**62 + 1, I63 - 1, -(I63 - 1), -I63, I63 - 2, 10**18, -10**18, 6, 12]
RATS = ['1/2', '-1/2', '2/3', '-3/2', '7/6', '-5/12', f'1/{2**31}', f'{2**31}/3', f'1/{I63 - 1}', f'{I63 - 1}/2',
        f'-{I63 - 1}/3', f'3/{2**62}', f'{2**62 + 1}/{2**62 - 1}', f'-{I63 - 2}/{I63 - 1}', '1000000007/998244353']
FLTS = [0.0, 0.1, -2.5, 1e300, 1e-300, 0.5, 3.0, -1.0, 2.0**63, 1.0, 1e17, -0.75]
BIN = ['add', 'sub', 'mul', 'div', 'pow', 'lt', 'le', 'eq', 'gt', 'ge', 'min', 'max']
UN = ['neg', 'abs', 'floor', 'sign']


def X(v):
    return dict(t='x', v=frac_str(Fraction(v)))


def Fl(v):
    return dict(t='f', v=frac_str(Fraction(v)))


def rnd(r):
    x = r.random()
    if x < 0.5:
        b = r.choice([3, 8, 20, 31, 32, 33, 45, 62, 63])
        return X(r.randint(-2**b, 2**b - 1))
    b, c = r.choice([2, 8, 20, 31, 40, 62]), r.choice([2, 8, 20, 31, 40, 62])
    f = Fraction(r.randint(-2**b, 2**b), r.randint(1, 2**c))
    return X(f)


def plans(seed, n):
    r = random.Random(f'const:{seed}')
    B = [X(v) for v in INTS + RATS] + [Fl(v) for v in FLTS] + [dict(t='z', v=''), dict(t='n', v='')]
    out = []
    for op in BIN:
        for a in B:
            for b in B:
                if op == 'pow' and b['t'] == 'x' and abs(Fraction(b['v'])) > 10**6 and a['v'] not in ('1', '0', '-1'):
                    if r.random() < 0.7:
                        continue
                out.append(dict(op=op, a=[a, b]))
    for op in UN:
        out += [dict(op=op, a=[a]) for a in B]
    for num in [0, 1, -1, 5, -6, 2**62, I63 - 1, -I63, -I63 + 1, 4]:
        for den in [None, 1, -1, 0, 2, -4, 6, I63 - 1, -I63, -I63 + 1, 2**62]:
            w = dict(t='x', v=frac_str(Fraction(num, 1 if den is None else den))) if den != 0 else dict(t='n', v='')
            out.append(dict(op='lit', a=[w, X(num), X(1 if den is None else den)], lit=[num, den]))
    for _ in range(n):
        op = r.choice(BIN + BIN + UN)
        if op == 'pow':
            a = rnd(r) if r.random() < 0.3 else X(Fraction(r.randint(-12, 12), r.randint(1, 9)))
            b = X(r.randint(-24, 24))
        elif r.random() < 0.25:
            # near-equal magnitudes: comparisons, cancellations, common factors
            f = Fraction(rnd(r)['v'])
            a, b = X(f), X(f + Fraction(r.choice([-1, 0, 1]), max(1, f.denominator)))
            if not all(fits(q['v']) for q in (a, b)):
                continue
        else:
            a, b = rnd(r), rnd(r)
            if r.random() < 0.1:
                b = Fl(r.choice(FLTS))
        out.append(dict(op=op, a=[a] if op in UN else [a, b]))
    out = [p for p in out if all(a['t'] != 'x' or fits(a['v']) or p['op'] == 'lit' for a in p['a'])]
    for i, p in enumerate(out):
        p['id'] = i
    return out


def fits(v):
    f = Fraction(v)
    return -I63 <= f.numerator < I63 and f.denominator < I63


def check(rep, seed, n, wd):
    ps = plans(seed, n)
    traces, crashes = H.run_recorder('record_const.py', ps, wd, 'const')
    for plan, _, how, text in crashes:
        _, again = H.run_recorder('record_const.py', [plan], wd, 'constc', nproc=1)
        if again:
            rep.violation(f'crash {plan}', f'process terminated ({how}): {show(plan)} :: {text[-200:]}', plan)
    path = f'{wd}/const.ndjson'
    H.write_ndjson(path, traces)
    out, stats, marks = H.run_tlc('Consts', 'Consts.cfg', wd, env=dict(TRACE=path))
    if stats['distinct'] < 2 * len(traces):
        raise H.ToolError('Consts: not all operations were explored\n' + out[-1500:])
    rep.tlc(stats)
    rep.add('traces_validated_against_impl', len(traces))
    rep.add('constant_operations', len(traces))
    lits = {p['id']: p.get('lit') for p in ps}
    by = {t['id']: dict(t, **({'lit': lits[t['id']]} if lits[t['id']] else {})) for t in traces}
    for _, b in marks:
        t = by[b['id']]
        s = f"{show(t)} gave {t['text'] or t['err']}; required {b['want']}"
        rep.violation(s, s, t)
    rep.sample(dict(operation=show(traces[-1]), result=traces[-1]['text'] or traces[-1]['err']))


def show(t):
    return t['op'] + '(' + ', '.join(a['t'] + ':' + a['v'] for a in t['a']) + ')' + (str(t['lit']) if 'lit' in t else '')
