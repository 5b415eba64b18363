"""Random plans of uses of the C++ runtime spans (C20): sequences of view creation, blocks, reads and writes,
and uses the compiler has to accept or refuse."""
import random

TYPES = ['int', 'double', 'float', 'long long']
G = 8          # guard cells on either side of a guarded region


class V:
    def __init__(s, rg, off, dims, str_, kd, ks, const, null=False, eig=False):
        s.rg, s.off, s.dims, s.str, s.kd, s.ks, s.const, s.null, s.eig = rg, off, list(dims), list(str_), list(kd), list(ks), const, null, eig


def rowmajor(dims):
    out, n = [], 1
    for d in reversed(dims):
        out.insert(0, n)
        n *= d
    return out


def gen_span(seed, i):
    g = random.Random(f'span{seed}.{i}')
    regs, views, ops = [], [], []
    val = [100]

    def fresh():
        val[0] += 1
        return val[0]

    def region(kind):
        ty = g.choice(TYPES)
        r = dict(kind=kind, ty=ty)
        if kind in ('eig', 'eigdyn', 'mymat'):
            r['r'], r['c'] = g.randint(1, 5), g.randint(1, 5)
            r['order'] = 'row' if r['c'] > 1 and r['r'] == 1 else 'col' if r['c'] == 1 else g.choice(['row', 'col'])
            if kind == 'mymat':
                r['order'] = 'row'
            r['n'] = r['r'] * r['c']
            r['probes'] = list(range(r['n']))
        elif kind == 'quat':
            r['ty'] = g.choice(['double', 'float'])
            r['n'], r['probes'] = 4, list(range(4))
        elif kind == 'far':
            r['ty'] = 'int'
            r['n'] = 1 << 33
            r['probes'] = [0, 1, 2, 3]
        else:
            r['n'] = g.randint(1, 9) if kind != 'guard' else g.randint(6, 40)
            lo, hi = (-G, r['n'] + G) if kind == 'guard' else (0, r['n'])
            r['probes'] = list(range(lo, hi))
        regs.append(r)
        ops.append(dict(op='region', rg=len(regs), reg=r))
        return len(regs)

    def sizes(n, hi=4):
        return [g.randint(1, hi) for _ in range(n)]

    def flags(n):
        k = g.random()
        if k < 0.3:
            return [True] * n
        if k < 0.5:
            return [False] * n
        return [g.random() < 0.5 for _ in range(n)]

    def add(op, nv, **kw):
        views.append(nv)
        ops.append(dict(op=op, rg=nv.rg, view=len(views), **kw))

    def extent(off, dims, str_):
        return off + sum((d - 1) * s for d, s in zip(dims, str_))

    def make_span(rg):
        r = regs[rg - 1]
        for _ in range(60):
            n = g.choice([1, 2, 2, 2, 3, 3, 4])
            if r['kind'] == 'far':
                dims = [g.choice([2, 3, 70000, 3000000000]) for _ in range(n)]
                str_ = [g.choice([1, 2, 65536, 1 << 31, (1 << 32) + 1, 3000000000]) for _ in range(n)]
                off = g.choice([0, 5, 1 << 32])
            else:
                dims = sizes(n)
                base = rowmajor(dims)
                m = g.random()
                if m < 0.3:
                    str_ = base
                elif m < 0.5:
                    str_ = list(reversed(rowmajor(list(reversed(dims)))))
                elif m < 0.7:
                    p = g.randint(2, 3)
                    str_ = [s * p for s in base]
                else:
                    str_ = [g.randint(0, 9) for _ in dims]
                off = g.randint(0, 6)
            if extent(off, dims, str_) < r['n']:
                break
        else:
            n, dims, str_, off = 1, [1], [1], 0
        const = g.random() < 0.15
        kd, ks = flags(n), flags(n)
        add('span', V(rg, off, dims, str_, kd, ks, const), off=off, dims=dims, str=str_, kd=kd, ks=ks, const=const)

    def make_array(rg):
        r = regs[rg - 1]
        const = g.random() < 0.2
        c = r['kind'] == 'carr'
        add('array', V(rg, 0, [r['n']], [1], [c], [True], const), dims=[r['n']], const=const, kd=[c])

    def eigen(rg):
        r = regs[rg - 1]
        own = r['kind'] in ('eig', 'eigdyn')
        inner = outer = 0
        si = so = True
        off = 0
        if own:
            R, C, order = r['r'], r['c'], r['order']
        else:
            for _ in range(60):
                R, C = g.randint(1, 4), g.randint(1, 4)
                order = 'row' if R == 1 and C > 1 else 'col' if C == 1 else g.choice(['row', 'col'])
                inner = g.choice([0, 0, 1, 2, 3])
                outer = g.choice([0, 0, 1]) and (inner or 1) * (C if order == 'row' else R) + g.randint(0, 3)
                if R == 1 or C == 1:
                    outer = 0
                off = g.randint(0, 6)
                iv = inner or 1
                ov = outer or iv * (C if order == 'row' else R)
                st = [ov, iv] if order == 'row' else [iv, ov]
                if R == 1 or C == 1:
                    st = [iv, iv]
                if extent(off, [R, C], st) < r['n']:
                    break
            else:
                R = C = 1
                order, inner, outer, off = 'col', 0, 0, 0
            si, so = g.random() < 0.6 or not inner, g.random() < 0.6 or not outer
        chain = []
        dims = [R, C]
        if r['kind'] == 'eigdyn' or g.random() < 0.6:
            for k in range(g.choice([1, 1, 2, 3])):
                w = g.random()
                if w < 0.5 or (k == 0 and r['kind'] == 'eigdyn'):
                    h, wd = g.randint(1, dims[0]), g.randint(1, dims[1])
                    ij = (g.randint(0, dims[0] - h), g.randint(0, dims[1] - wd))
                    chain.append(['block', *ij, h, wd])
                    dims = [h, wd]
                elif w < 0.7:
                    chain.append(['T', 0, 0, 0, 0])
                    dims = dims[::-1]
                elif w < 0.8:
                    chain.append(['row', g.randint(0, dims[0] - 1), 0, 0, 0])
                    dims = [1, dims[1]]
                elif w < 0.9:
                    chain.append(['col', g.randint(0, dims[1] - 1), 0, 0, 0])
                    dims = [dims[0], 1]
                elif k == 0 and own and r['kind'] == 'eig' and R > 1 and C > 1:
                    chain.append(['diag', min(dims), 0, 0, 0])
                    dims = [min(dims), 1]
                    break
        d = g.choice(['in', 'out', 'opt'])
        cm = (not own) and g.random() < 0.2
        if cm:
            d = 'in'
        add('eigen', V(rg, off, dims, [1, 1], [True, True], [False, False], d == 'in', eig=True),
            off=off, R=R, C=C, order=order, inner=inner, outer=outer, si=si, so=so, chain=chain, dims=dims, dir=d, constmap=cm)
        track(views[-1], R, C, order, inner, outer, chain)

    def track(v, R, C, order, inner, outer, chain):
        iv = inner or 1
        ov = outer or iv * (C if order == 'row' else R)
        s = [ov, iv] if order == 'row' else [iv, ov]
        if C == 1 or R == 1:
            s = [iv, iv]
        off, dims = v.off, [R, C]
        for e in chain:
            if e[0] == 'block':
                off += e[1] * s[0] + e[2] * s[1]
                dims = e[3:]
            elif e[0] == 'T':
                s, dims = s[::-1], dims[::-1]
            elif e[0] == 'row':
                off += e[1] * s[0]
                dims = [1, dims[1]]
            elif e[0] == 'col':
                off += e[1] * s[1]
                dims = [dims[0], 1]
            else:
                s, dims = [s[0] + s[1], 1], [e[1], 1]
        v.off, v.str, v.dims = off, s, dims

    def quat(rg):
        r = regs[rg - 1]
        off = 0 if r['kind'] == 'quat' else g.randint(0, max(0, r['n'] - 4))
        d = g.choice(['in', 'out', 'opt'])
        add('quat', V(rg, off, [4, 1], [1, 1], [True, True], [True, True], d == 'in', eig=True), off=off, dir=d)

    def adaptor(rg):
        r = regs[rg - 1]
        d = g.choice(['in', 'out', 'opt'])
        dims = [r['r'], r['c']]
        add('adaptor', V(rg, 0, dims, rowmajor(dims), [True, True], [True, True], d == 'in'), dims=dims, dir=d)

    def block(v):
        a = views[v - 1]
        n = len(a.dims)
        far = regs[a.rg - 1]['kind'] == 'far' if a.rg else False
        offs, dims = [], []
        for d in a.dims:
            if far:
                o = g.choice([0, 1, d // 2, d - 1])
                offs.append(o)
                dims.append(g.choice([1, min(2, d - o), d - o]))
            else:
                o = g.randint(0, d) if g.random() < 0.1 else g.randint(0, max(0, d - 1))
                offs.append(o)
                dims.append(g.randint(0, d - o) if g.random() < 0.1 else g.randint(min(1, d - o), d - o))
        ko, kd = flags(n), flags(n)
        nv = V(a.rg, a.off + sum(o * s for o, s in zip(offs, a.str)), dims, a.str, kd, a.ks, a.const, eig=a.eig)
        add('block', nv, v=v, offs=offs, dims=dims, ko=ko, kd=kd)

    def conv(v):
        a = views[v - 1]
        ch = ['const', 'promote', 'copy']
        if all(a.kd):
            ch += ['in', 'in', 'opt'] + ([] if a.null else ['out', 'out'])
        if a.null:
            ch = ['copy'] + (['opt'] if all(a.kd) else [])
        k = g.choice(ch)
        if k == 'promote' and a.const:
            k = 'copy'
        nv = V(a.rg, a.off, a.dims, a.str, a.kd, a.ks, a.const or k in ('const', 'promote'), a.null, a.eig)
        add(k, nv, v=v)

    def null():
        n = g.choice([1, 2, 2, 3])
        dims = sizes(n)
        add('null', V(0, 0, dims, [0] * n, [True] * n, [True] * n, False, null=True), dims=dims, how=g.choice(['make', 'opt']))

    def pick(pred):
        c = [k + 1 for k, v in enumerate(views) if pred(v)]
        return g.choice(c) if c else None

    def idx(v):
        far = regs[v.rg - 1]['kind'] == 'far'
        return [g.choice([0, min(1, d - 1), d - 1, d // 2]) if far else g.randint(0, d - 1) for d in v.dims]

    def near(r, a):
        for p in (a, a & 0xffffffff, (a & 0xffffffff) - (1 << 32 if a & 0x80000000 else 0), a & 0x7fffffff, a & 0xffff):
            if 0 <= p < r['n'] and p not in r['probes']:
                r['probes'].append(p)

    kind = g.random()
    if kind < 0.3:
        rg = region('guard')
    elif kind < 0.5:
        rg = region(g.choice(['vec', 'carr', 'stdarr']))
    elif kind < 0.75:
        rg = region(g.choice(['eig', 'eigdyn']))
    elif kind < 0.82:
        rg = region('quat')
    elif kind < 0.9:
        rg = region('mymat')
    else:
        rg = region('far')
    nops = g.randint(8, 20)

    def create(rg):
        k = regs[rg - 1]['kind']
        if k == 'guard':
            w = g.random()
            if w < 0.5:
                make_span(rg)
            elif w < 0.92 or regs[rg - 1]['ty'] not in ('float', 'double'):
                eigen(rg)
            else:
                quat(rg)
        elif k in ('vec', 'carr', 'stdarr'):
            make_array(rg) if g.random() < 0.7 else make_span(rg)
        elif k in ('eig', 'eigdyn'):
            eigen(rg) if g.random() < 0.8 else make_span(rg)
        elif k == 'quat':
            quat(rg) if g.random() < 0.8 else make_span(rg)
        elif k == 'mymat':
            adaptor(rg) if g.random() < 0.8 else make_span(rg)
        else:
            make_span(rg)

    create(rg)
    while len(ops) < nops:
        w = g.random()
        if w < 0.06 and len(regs) < 3:
            create(region(g.choice(['guard', 'vec', 'eig', 'carr', 'quat'])))
        elif w < 0.18:
            create(g.randint(1, len(regs)))
        elif w < 0.21:
            null()
        elif w < 0.4:
            v = pick(lambda v: not v.null)
            block(v)
        elif w < 0.5:
            conv(g.randint(1, len(views)))
        elif w < 0.72:
            v = pick(lambda v: not v.null and not v.const and all(v.dims))
            if v:
                a = views[v - 1]
                ix = idx(a)
                r = regs[a.rg - 1]
                if r['kind'] == 'far':
                    near(r, a.off + sum(x * s for x, s in zip(ix, a.str)))
                ops.append(dict(op='write', v=v, idx=ix, val=fresh(), it=[g.choice(IT) for _ in ix]))
        elif w < 0.79:
            v = pick(lambda v: not v.null and not v.const and all(v.dims) and regs[v.rg - 1]['kind'] != 'far')
            if v:
                n = 1
                for d in views[v - 1].dims:
                    n *= d
                ops.append(dict(op='fill', v=v, vals=[fresh() for _ in range(n)]))
        elif w < 0.87:
            v = pick(lambda v: not v.null and all(v.dims))
            if v:
                ops.append(dict(op='read', v=v, idx=idx(views[v - 1]), it=[g.choice(IT) for _ in views[v - 1].dims]))
        elif w < 0.95:
            v = pick(lambda v: not v.null and all(d <= 5 for d in v.dims))
            if v:
                ops.append(dict(op='all', v=v))
        else:
            v = pick(lambda v: not v.null and not v.eig)
            if v:
                big = g.random() < 0.4
                ix = [g.choice([-3, -1, 7, 100000, 1 << 32, 3000000000]) if big else g.randint(0, 9) for _ in views[v - 1].dims]
                if sum(abs(x) * s for x, s in zip(ix, views[v - 1].str)) >= 1 << 62:
                    continue
                ops.append(dict(op='index', v=v, idx=ix, it=['long long'] * len(ix) if big else [g.choice(IT) for _ in ix]))
    return dict(id=f'{i}', kind='run', ops=ops)


IT = ['int', 'std::size_t', 'short', 'std::ptrdiff_t', 'unsigned', 'signed char', 'long long', 'unsigned char']


# ------------------------------------------------------------------------------- accepted and refused uses
def shape(g, n=None):
    return [g.randint(1, 4) for _ in range(n or g.choice([1, 2, 2, 2, 3]))]


def vary(g, dims):
    """A shape that differs from dims in one place (or is equal to it)."""
    d = list(dims)
    w = g.random()
    if w < 0.35:
        return d
    if w < 0.6:
        k = g.randrange(len(d))
        d[k] += g.choice([-1, 1]) if d[k] > 1 else 1
        return d
    if w < 0.75:
        return d[::-1]
    if w < 0.88:
        return d + [g.choice([1, 2])]
    return d[:-1] or d + [1]


EXPR = ['own', 'own', 'rowmajor', 'map', 'mapconst', 'block', 'T', 'dyn', 'dynrow', 'dyncol', 'blockdyn', 'row']


def gen_use(seed, i):
    g = random.Random(f'use{seed}.{i}')
    op = g.choice(['pass'] * 7 + ['block'] * 3 + ['index', 'index', 'promote', 'promote', 'make', 'bracket', 'axis', 'cols', 'assign'])
    u = dict(op=op, n=i, mix=g.random() < 0.5, seed=g.randint(0, 10 ** 9))
    dims = shape(g)
    if op == 'pass':
        u['how'] = g.choice(['in', 'out', 'opt'])
        k = g.choice(['eigen'] * 5 + ['quat'] * 2 + ['span'] * 4 + ['null', 'other'])
        u['k'] = k
        if k == 'eigen':
            u['x'] = g.choice(EXPR)
            dims = [g.randint(1, 4), g.randint(1, 4)]
            if u['x'] == 'row':
                dims[0] = 1
            if u['x'] in ('mapconst',):
                u['how'] = 'in'
            if u['x'] in ('dyn', 'blockdyn'):
                u['stat'] = ['?', '?']
            elif u['x'] == 'dynrow':
                u['stat'] = ['?', dims[1]]
            elif u['x'] == 'dyncol':
                u['stat'] = [dims[0], '?']
            else:
                u['stat'] = list(dims)
        elif k == 'quat':
            dims = [4, 1]
            u['stat'] = [4, 1]
            u['x'] = g.choice(['own', 'map'])
        elif k == 'span':
            u['kd'] = [g.random() < 0.85 for _ in dims]
            u['stat'] = [d if s else '?' for d, s in zip(dims, u['kd'])]
        else:
            u['stat'] = list(dims)
            u['x'] = g.choice(['vec', 'carr', 'dbl'])
        u['dims'] = dims
        u['want'] = vary(g, dims)
    elif op == 'make':
        u['dims'], u['want'] = dims, vary(g, dims)
    elif op == 'index':
        u['dims'], u['want'] = dims, vary(g, dims)
        u['k'] = 'word' if g.random() < 0.15 else 'int'
        u['fn'] = g.choice(['call', 'compute_index'])
    elif op == 'bracket':
        u['dims'] = dims
    elif op == 'block':
        u['dims'], u['want'], u['e'] = dims, vary(g, dims) if g.random() < 0.5 else dims, vary(g, dims) if g.random() < 0.5 else dims
    elif op == 'axis':
        u['dims'], u['a'] = dims, g.randint(0, 4)
        u['fn'] = g.choice(['dimension', 'stride'])
    elif op == 'cols':
        u['dims'] = dims
    elif op == 'assign':
        u['dims'] = dims
        u['s'] = g.choice(['const', 'mut'])
        u['how'] = g.choice(['span', 'as_const', 'in', 'promote', 'block']) if u['s'] == 'const' else 'span'
    else:
        u['dims'], u['want'] = dims, vary(g, dims)
        u['s'], u['k'] = g.choice(['const', 'mut']), g.choice(['const', 'mut'])
    return u
