"""Determinism (C17): the same histories in different circumstances, judged by spec/Replay.tla."""
import json
import random
import harness as H
import gen_func as GF
import gen_mat as GM
import gen_order as GO
import gen_sym as G


def history(seed, i):
    g = random.Random(f'hist{seed}.{i}')
    k = g.choice(['sym', 'sym', 'sym', 'order', 'order', 'print', 'print', 'mat', 'emit', 'emit', 'emit', 'emit'])
    s = f'r{seed}'
    if k == 'sym':
        gen, mode = g.choice([(G.gen_deriv, 'C05'), (G.gen_subst, 'C06'), (G.gen_rewrite, 'C07'), (G.gen_relations, 'C04'),
                              (G.gen_construct, 'C01')])
        p = gen(s, i, mode)
    elif k == 'order':
        p = GO.gen_order(s, i, 20)
    elif k == 'print':
        p = GO.gen_print(s, i)
    elif k == 'mat':
        p = g.choice([GM.gen_matrix, GM.gen_quat])(s, i)
    else:
        p = (GF.gen_ties if g.random() < 0.25 else GF.gen_emitted)(s, i, g.choice(['cpp', 'rust', 'py']))
    return k, json.loads(json.dumps(p).replace('$u_1', 'q_1'))     # a user's variable of that name is not a unique variable


CIRC = ['first', 'backwards, other hash seed', 'after and between unrelated work, other memory', 'twice in a row', 'alone in a process']


def record(items, wd, tag, env, nproc=H.NPROC):
    old = H.wf_env
    H.wf_env = lambda: dict(old(), **env)
    try:
        got, crashes = H.run_recorder('record_det.py', items, wd, tag, nproc=nproc)
    finally:
        H.wf_env = old
    return {t['id']: t['ans'] for t in got}, crashes


def show(kind, plan):
    return f'{kind}: ' + json.dumps(plan.get('ops', plan))[:500]


def check(rep, seed, n, singles, wd, tag='d'):
    hs = [history(seed, i) for i in range(n)]
    item = lambda i, gap=(), times=1, keep=0: dict(id=str(i), kind=hs[i][0], plan=hs[i][1], gap=list(gap), times=times, keep=keep)
    g = random.Random(f'gap{seed}')
    fam = [history(f'{seed}u', i) for i in range(max(60, n // 6))]
    gap = lambda: [g.choice(fam + hs) for _ in range(g.choice([0, 1, 1, 2]))]
    runs = [
        ([item(i) for i in range(n)], {}),
        ([item(i) for i in reversed(range(n))], dict(PYTHONHASHSEED='4242')),
        (g.sample([item(i, gap(), 1, g.randint(0, 1)) for i in range(n)], n), dict(PYTHONHASHSEED='7', MALLOC_PERTURB_='170', PYTHONMALLOC='malloc')),
        ([item(i, (), 2, 1) for i in range(n)], dict(PYTHONHASHSEED='99', MALLOC_ARENA_MAX='1')),
    ]
    res = []
    for k, (items, env) in enumerate(runs):
        got, crashes = record(items, wd, f'{tag}{k}', env)
        rep.add('hangs_dropped', sum(1 for c in crashes if c[2] == 'hang'))
        rep.add('crashes_dropped', sum(1 for c in crashes if c[2] != 'hang'))     # crashes are judged by the other checks
        res.append(got)
    alone = {}
    for start in range(0, singles, H.NPROC):
        ids = [g.randrange(n) for _ in range(H.NPROC)]
        got, _ = record([item(i) for i in dict.fromkeys(ids)], wd, f'{tag}s', dict(PYTHONHASHSEED=str(start + 1)))
        alone.update(got)
    items = []
    for i in range(n):
        rs = []
        for k, got in enumerate(res + [alone]):
            for a in got.get(str(i), []):
                rs.append(dict(c=CIRC[k], ans=a))
        if len(rs) > 1:
            items.append(dict(id=str(i), runs=rs))
    path = f'{wd}/{tag}.ndjson'
    H.write_ndjson(path, items)
    out, stats, marks = H.run_tlc('Replay', 'Replay.cfg', wd, env=dict(TRACE=path))
    seen = {b['sid']: b for t, b in marks if t == 'S'}
    if len(seen) != len(items):
        raise H.ToolError(f'TLC judged {len(seen)} of {len(items)} histories\n' + out[-2000:])
    rep.tlc(stats)
    rep.add('traces_validated_against_impl', sum(len(it['runs']) for it in items))
    rep.add('histories', len(items))
    rep.add('answers', sum(b['n'] for b in seen.values()))
    for sid, b in seen.items():
        if b['verdict'] == 'ok':
            continue
        it = items[sid - 1]
        kind, plan = hs[int(it['id'])]
        r, l = b['r'] - 1, b['l'] - 1
        a = it['runs'][0]['ans'][l] if l < len(it['runs'][0]['ans']) else None
        c = it['runs'][r]['ans'][l] if r < len(it['runs']) and l < len(it['runs'][r]['ans']) else None
        rep.violation(f"{b['verdict']} {kind}",
                      f"the answer to operation {l + 1} {b['verdict']} when run `{it['runs'][min(r, len(it['runs']) - 1)]['c']}`: first {str(a)[:300]}, then {str(c)[:300]}; {show(kind, plan)}",
                      dict(kind=kind, plan=plan, first=a, then=c, runs=it['runs']))
    for it in items[:2]:
        rep.sample(dict(runs=[dict(c=x['c'], ans=[a['x'][:80] for a in x['ans'][:2]]) for x in it['runs']]))
