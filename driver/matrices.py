"""Checks that replay matrix and quaternion calls through spec/Matrix.tla."""
import json
import harness as H


def show(plan, upto):
    ops, first = plan['ops'], {}
    n = 0
    for i, op in enumerate(ops):
        for _ in range(op['n']):
            n += 1
            first[n] = i
    need, stack = set(), [upto - 1]
    while stack:
        i = stack.pop()
        if i in need:
            continue
        need.add(i)
        stack += [first[j] for j in ops[i]['a']]
    out, n = [], 0
    for i, op in enumerate(ops):
        ids = list(range(n + 1, n + 1 + op['n']))
        n += op['n']
        if i not in need:
            continue
        if op['k'] == 'leaf':
            d = op['def']

            def text(j):
                x = d[j - 1]
                return x['v'] if x['k'] in ('num', 'var') else \
                    (x['v'] or x['k']) + '(' + ','.join(text(q) for q in x['a']) + ')'
            out.append(f"#{ids[0]}={text(len(d))}")
        else:
            out.append((','.join(f'#{q}' for q in ids) + '=' if ids else '') + op['k'] +
                       (f"[{op['v']}]" if op['v'] else '') + (f"{op['p']}" if op['p'] else '') +
                       '(' + ','.join(f'#{q}' for q in op['a']) + ')')
    return '; '.join(out)


def explain(traces, wd, tag):
    if not traces:
        return [], dict(generated=0, distinct=0, initial=0), []
    path = f'{wd}/{tag}.ndjson'
    H.write_ndjson(path, traces)
    out, stats, marks = H.run_tlc('Matrix', 'Matrix.cfg', wd, env=dict(TRACE=path))
    rej = [b for t, b in marks if t == 'REJECT']
    done = [b for t, b in marks if t == 'DONE']
    ids = {d['id'] for d in done}
    missing = [t['id'] for t in traces if t['id'] not in ids]
    if missing:
        raise H.ToolError(f'TLC did not finish sessions {missing[:5]}\n' + out[-2000:])
    return rej, stats, done


def check(rep, plans, wd, tag='m'):
    traces, crashes = H.run_recorder('record_mat.py', plans, wd, tag)
    byid = {p['id']: p for p in plans}
    for plan, opi, how, text in crashes:
        if how == 'hang':
            rep.add('hangs_dropped', 1)
            continue
        _, again = H.run_recorder('record_mat.py', [plan], wd, tag + 'c', nproc=1)
        if again:
            s = show(plan, opi + 1)
            rep.violation(f'crash {s}', f'process terminated ({how}) by: {s} :: {text.strip()[-200:]}',
                          dict(plan=plan, op=opi, text=text))
    rej, stats, done = explain(traces, wd, tag)
    rep.tlc(stats)
    rep.add('traces_validated_against_impl', len(traces))
    rep.add('calls', sum(len(t['ev']) for t in traces))
    rep.add('results_judged', sum(d['cmp'] for d in done))
    rep.add('results_undefined', sum(d['skip'] for d in done))
    tb = {t['id']: t for t in traces}
    for r in rej:
        plan, t = byid[r['id']], tb[r['id']]
        ev = t['ev'][r['l'] - 1]
        env = {k: v for k, v in t['env'][max(r['sample'], 1) - 1].items() if not k.startswith('#')}

        def brief(xs):
            return '; '.join(f"{x['t']}[{x['r']}x{x['c']}] {x['el'] if len(x['el']) else ''}" for x in xs)[:400]
        s = show(plan, r['l'])
        rep.violation(f"{ev['k']}: {s}", f"{ev['k']} {r['what']}: {s} answered `{ev['text'] or ev['err']}`; at {env} "
                      f"expected {brief(r['want'])}, got {brief(r['got'])}"[:1800],
                      dict(plan=plan, event=r['l'], reject=r, text=ev['text'], err=ev['err']))
    kinds = {}
    for t in traces:
        for e in t['ev']:
            kinds[e['k']] = kinds.get(e['k'], 0) + 1
    rep.cov['operations'] = kinds
    for t in traces[:3]:
        rep.sample(dict(session=t['id'], calls=[f"{e['k']}: {e['text'] or e['err']}" for e in t['ev']][-4:]))
    return traces, rej
