"""Checks that replay pools of expressions through spec/Order.tla."""
import harness as H


def show(plan, *upto):
    ops = plan['ops']
    need, stack = set(), list(upto)
    while stack:
        i = stack.pop()
        if i not in need:
            need.add(i)
            stack += ops[i - 1]['a']
    return '; '.join(f"#{i}={ops[i - 1]['k']}" + (f"[{ops[i - 1]['v']}]" if ops[i - 1]['v'] else '') +
                     ('*' if ops[i - 1]['alt'] else '') + '(' + ', '.join(f'#{j}' for j in ops[i - 1]['a']) + ')'
                     for i in sorted(need))


def check(rep, plans, wd, tag='o'):
    traces, crashes = H.run_recorder('record_order.py', plans, wd, tag)
    byid = {p['id']: p for p in plans}
    for plan, opi, how, text in crashes:
        if how == 'hang':
            rep.add('hangs_dropped', 1)
            continue
        _, again = H.run_recorder('record_order.py', [plan], wd, tag + 'c', nproc=1)
        if again:
            s = show(plan, opi + 1)
            rep.violation(f'crash {s}', f'process terminated ({how}) by: {s} :: {text.strip()[-200:]}', dict(plan=plan, op=opi, text=text))
    path = f'{wd}/{tag}.ndjson'
    H.write_ndjson(path, traces)
    out, stats, marks = H.run_tlc('Order', 'Order.cfg', wd, env=dict(TRACE=path))
    rej = [b for t, b in marks if t == 'REJECT']
    done = [b for t, b in marks if t == 'DONE']
    ids = {d['id'] for d in done} | {d['id'] for d in rej}
    missing = [t['id'] for t in traces if t['id'] not in ids]
    if missing:
        raise H.ToolError(f'TLC did not finish pools {missing[:5]}\n' + out[-2000:])
    rep.tlc(stats)
    rep.add('traces_validated_against_impl', len(traces))
    rep.add('expressions', sum(len(t['steps']) for t in traces))
    rep.add('pairs_compared', sum(d['pairs'] for d in done))
    rep.add('identity_classes', sum(d['classes'] for d in done))
    tb = {t['id']: t for t in traces}
    for r in rej:
        st = tb[r['id']]['steps']
        s = show(byid[r['id']], r['i'], r['j'])
        rep.violation(f"{r['what']}: {s}", f"{r['what']}: {s}: #{r['i']} is `{st[r['i'] - 1]['text']}` and #{r['j']} is `{st[r['j'] - 1]['text']}`",
                      dict(plan=byid[r['id']], reject=r, steps=[st[r['j'] - 1], st[r['i'] - 1]]))
    for t in traces[:3]:
        rep.sample(dict(pool=t['id'], expressions=[s['text'] or s['err'] for s in t['steps']][-6:]))
