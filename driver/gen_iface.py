"""Functions that only move values: random user types, external functions, parameters and outputs (C16).
A plan depends on the seed only.  Values are named by paths: `q.a.x`, `v[1,0]` (elements of arguments), `#2.x`, `#3[0,1]`
(elements of what external call 2, 3, .. returned), `=5` (a literal)."""
import random

TYPE_NAMES = ['Alpha', 'Beta', 'Gamma', 'Delta', 'PointXY', 'Pose']
FIELDS = ['x', 'y', 'a', 'b', 'm', 'n', 't', 'val', 'pos_1', 'w']
ARGS = ['x', 'y', 'q', 'u', 'tab', 'alpha', 'p_2', 'vec', 'k']
EXTS = ['lookup', 'h_2', 'get_pose', 'ext_a', 'interp']
PARAMS = ['a', 'b', 'c', 'd', 'e']


def is_mat(t):
    return 'x' in t and t[0].isdigit()


def dims(t):
    return tuple(int(z) for z in t.split('x'))


def mat(r):
    return f'{r.randint(1, 3)}x{r.choice([1, 1, 2, 3])}'


class G:
    def __init__(self, r, full):
        self.r, self.full = r, full
        self.types = {}
        names = r.sample(TYPE_NAMES, r.randint(1, 4))
        for n in names:
            if r.random() < 0.2:
                self.types[n] = []
                continue
            known = [k for k, f in self.types.items() if f]
            if known and r.random() < 0.25:       # the same members under another name
                self.types[n] = [(f, r.choice(['s', 'i']) if t in ('s', 'i') and r.random() < 0.2 else t) for f, t in self.types[r.choice(known)]]
                continue
            fs = []
            for f in r.sample(FIELDS, r.randint(1, 4)):
                z = r.random()
                t = 's' if z < 0.4 else 'i' if z < 0.55 else mat(r) if z < 0.75 or not known else r.choice(known)
                fs.append((f, t))
            self.types[n] = fs
        self.opaque = [n for n, f in self.types.items() if not f]
        self.structs = [n for n, f in self.types.items() if f]

    def leaves(self, t, p=''):
        if t in ('s', 'i'):
            return [(p, t)]
        if is_mat(t):
            R, C = dims(t)
            return [(f'{p}[{i},{j}]', 's') for i in range(R) for j in range(C)]
        if not self.types[t]:
            return [(p, t)]
        return [x for f, ft in self.types[t] for x in self.leaves(ft, f'{p}.{f}')]

    def flat_ok(self, t):      # can be constructed without constructing a matrix
        return t in ('s', 'i') or (not is_mat(t) and all(self.flat_ok(ft) for _, ft in self.types[t]))

    def constructible(self, t):
        return self.full or self.flat_ok(t)

    def pick_type(self, w_struct=0.4, ints=True, opaque=True, cons=False):
        r = self.r
        for _ in range(50):
            z = r.random()
            if z < w_struct and self.structs:
                t = r.choice(self.structs)
            elif z < w_struct + 0.12 and self.opaque:
                t = r.choice(self.opaque)
            elif z < 0.7:
                t = 's'
            elif z < 0.8:
                t = 'i'
            else:
                t = mat(r)
            if (t == 'i' and not ints) or (t in self.opaque and not opaque) or (cons and not self.constructible(t)):
                continue
            return t
        return 's'


def gen_iface(seed, idx):
    r = random.Random(f'iface:{seed}:{idx}')
    full = r.random() < 0.55
    g = G(r, full)
    args = []
    for n in r.sample(ARGS, r.randint(1, 5)):
        args.append((n, r.choice(args)[1] if args and r.random() < 0.25 else g.pick_type()))
    if not any(nt in ('s', 'i') for n, t in args for _, nt in g.leaves(t)):
        args.append(('z', 's'))
    exts = {}
    for n in r.sample(EXTS, r.choice([0, 1, 1, 2, 2, 3, 3])):
        ps = [(p, g.pick_type(ints=False, cons=True)) for p in r.sample(PARAMS, r.randint(0, 4))]
        rt = g.pick_type(0.35, cons=not full and r.random() < 0.8)
        if not full and is_mat(rt):
            rt = 's'
        exts[n] = (ps, rt)
    objs = [(t, n) for n, t in args]                    # whole objects
    leafs = [x for n, t in args for x in g.leaves(t, n)]
    calls = []

    def element(nt):
        """An existing element (or a literal) for a place of numeric type nt."""
        c = [p for p, t in leafs if t == nt] if nt in ('s', 'i') else []
        if nt == 's' and r.random() < 0.12:
            c = [p for p, t in leafs if t == 'i'] or c
        if nt in ('s', 'i') and (not c or r.random() < 0.06):
            return f'={r.randint(2, 9)}'
        if c and r.random() < 0.5:
            c = c[-6:]
        return r.choice(c)

    def value(t):
        """The elements of a value of type t: an existing object or a new one; None if there is none."""
        have = [o for ot, o in objs if ot == t]
        if have and (t in g.opaque or r.random() < 0.5):
            o = r.choice(have)
            return [p for p, _ in g.leaves(t, o)]
        near = have + [o for ot, o in objs if t in g.structs and ot != t and ot in g.structs and
                       [x for _, x in g.leaves(ot)] == [x for _, x in g.leaves(t)]]
        if near and r.random() < 0.6:       # almost an existing object
            o = r.choice(near)
            e = [p for p, _ in g.leaves(dict((b, a) for a, b in objs)[o], o)]
            ts = [nt for _, nt in g.leaves(t)]
            for _ in range(r.choice([0, 1, 1, 2])):
                i = r.randrange(len(e)) if r.random() < 0.7 else 0
                same = [j for j in range(len(e)) if ts[j] == ts[i]]
                other = [x for x in have if x != o]
                z = r.random()
                if z < 0.35:
                    j = r.choice(same)
                    e[i], e[j] = e[j], e[i]
                elif z < 0.75 and other:
                    e[i] = g.leaves(t, r.choice(other))[i][0]
                else:
                    e[i] = element(ts[i])
            return e
        if t in g.opaque:
            return None
        return [element(nt) for _, nt in g.leaves(t)]

    for _ in range(r.choice([1, 2, 3, 4, 5]) if exts else 0):
        f = r.choice(list(exts))
        ps, rt = exts[f]
        a = [value(t) for _, t in ps]
        if any(x is None for x in a):
            continue
        o = f'#{len(calls) + 1}'
        pos = r.choice([len(a), len(a), r.randint(0, len(a))])
        kw = list(range(pos, len(a)))
        r.shuffle(kw)
        calls.append(dict(f=f, a=a, pos=pos, kw=kw))
        objs.append((rt, o))
        leafs += g.leaves(rt, o)
    outs = []
    for i in range(r.randint(1, 4)):
        t = g.pick_type(0.35, ints=False, opaque=False)
        if not full and not is_mat(t) and not g.flat_ok(t):
            t = 's'
        outs.append(dict(u='opt' if r.random() < 0.45 else 'out', n=f'{r.choice("ozr")}{i}', t=t, e=value(t)))
    if r.random() < 0.7:
        t = g.pick_type(0.35, ints=False, opaque=False, cons=True)
        outs.insert(r.randint(0, len(outs)), dict(u='ret', n='', t=t, e=value(t)))
    if not full and r.random() < 0.5:    # output arguments of a Python function are matrices
        outs = [o for o in outs if o['u'] == 'ret' or is_mat(o['t'])]
        if not outs:
            outs = [dict(u='out', n='o9', t='2x1', e=[element('s'), element('s')])]
    runs = []
    for k in range(2):
        paths = [(p, t) for n, t in args for p, t in g.leaves(t, n)]
        vals = r.sample(range(1, 90), len(paths)) if len(paths) < 80 else list(range(1, len(paths) + 1))
        env = {p: str(v) for (p, _), v in zip(paths, vals)}
        runs.append(dict(env=env, req=[int(o['u'] != 'opt' or (k == 0) != (r.random() < 0.5)) for o in outs]))
    langs = (['eigen', 'numpy', r.choice(['torch', 'jax'])] if full else ['span', 'rust', 'numpy'])
    if all(is_mat(o['t']) for o in outs if o['u'] != 'ret'):
        langs.append('numpyout')
    return dict(id=f'C16-{seed}-{idx}', name='w' + str(idx), full=int(full), types=[[n, f] for n, f in g.types.items()],
                args=args, exts=[[n, ps, rt] for n, (ps, rt) in exts.items()], calls=calls, outs=outs, runs=runs, langs=langs,
                fact=r.choice([0, 0, 1, 2]), tern=r.randint(0, 1), attempts=attempts(r, g, exts, args))


def attempts(r, g, exts, args):
    """Uses that may or may not fit what was declared."""
    out = []
    names = list(g.types)
    for f, (ps, rt) in exts.items():
        for _ in range(3):
            pos = []
            for _, t in ps:
                z = r.random()
                alt = ['s', 'num', 'bool', mat(r)] + names
                if is_mat(t):
                    R, C = dims(t)
                    alt += [f'{C}x{R}', f'{R * C}x1', f'1x{R * C}', f'{R}x{C + 1}', f'{R + 1}x{C}'] * 2
                pos.append(t if z < 0.75 else r.choice(alt))
            z = r.random()
            if z < 0.1 and pos:
                pos.pop()
            elif z < 0.2:
                pos.append('s')
            elif z < 0.3 and len(pos) > 1:
                i = r.randrange(len(pos) - 1)
                pos[i], pos[i + 1] = pos[i + 1], pos[i]
            k = r.choice([len(pos), r.randint(0, len(pos))])
            kw = [[ps[i][0] if i < len(ps) and r.random() < 0.93 else r.choice(['zz'] + [p for p, _ in ps]), pos[i]] for i in range(k, len(pos))]
            seen = {}
            for n, t in kw:
                seen.setdefault(n, t)
            kw = [[n, t] for n, t in seen.items()]
            r.shuffle(kw)
            out.append(dict(k='call', f=f, pos=pos[:k], kw=kw))
    for _ in range(2):       # an object whose members may not be what its type declares
        ts = [n for n, fs in g.types.items() if fs]
        if not ts:
            break
        t = r.choice(ts)
        fs = []
        for _, ft in g.types[t]:
            z = r.random()
            if z < 0.7 or not (ft == 's' or is_mat(ft)):
                fs.append(ft)
            elif is_mat(ft):
                R, C = dims(ft)
                fs.append(r.choice([f'{C}x{R}', f'{R + 1}x{C}', f'{R * C}x1', mat(r), mat(r), 's', 'none']))
            else:
                fs.append(r.choice(['1x1', mat(r), 'none']))
        ms = [i for i, (_, ft) in enumerate(g.types[t]) if is_mat(ft)]
        if len(ms) > 1 and r.random() < 0.5:       # two members exchanged
            i, j = r.sample(ms, 2)
            fs = [ft for _, ft in g.types[t]]
            fs[i], fs[j] = fs[j], fs[i]
        out.append(dict(k='construct', t=t, fs=fs, how=r.choice(['ret', 'out', 'arg'])))
    for _ in range(2):
        n = r.randint(1, 4)
        pool = ['o1', 'o2', 'o3', 'o4', 'o5'] + [a for a, _ in args]
        out.append(dict(k='describe', outs=[[r.choice(['out', 'opt', 'ret']) if r.random() < 0.3 else 'out', r.choice(pool)] for _ in range(n)]))
    ps = [[r.choice(PARAMS[:4]), 's'] for _ in range(r.randint(0, 3))]
    out.append(dict(k='declare', ps=ps))
    return out
