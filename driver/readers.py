"""Checks that read printed expressions back through spec/Reader.tla."""
import json
import harness as H
from orders import show


def check(rep, plans, wd, tag='r'):
    traces, crashes = H.run_recorder('record_read.py', plans, wd, tag)
    byid = {p['id']: p for p in plans}
    for plan, opi, how, text in crashes:
        if how == 'hang':
            rep.add('hangs_dropped', 1)
            continue
        _, again = H.run_recorder('record_read.py', [plan], wd, tag + 'c', nproc=1)
        if again:
            s = show(plan, opi + 1)
            rep.violation(f'crash {s}', f'process terminated ({how}) by: {s} :: {text.strip()[-200:]}', dict(plan=plan, op=opi, text=text))
    items, seen = [], set()
    for t in traces:
        for it in t['items']:
            pid, n = it['id'].rsplit('.', 1)
            if it['raised']:
                s = show(byid[pid], int(n))
                rep.violation(f'raised {s}', f"printing raised {it['raised']}: {s}", dict(plan=byid[pid], item=it))
                continue
            key = json.dumps([it['text'], it['snodes'], it['tree']])
            if key not in seen:
                seen.add(key)
                items.append(it)
    path = f'{wd}/{tag}.ndjson'
    H.write_ndjson(path, items)
    out, stats, marks = H.run_tlc('Reader', 'Reader.cfg', wd, env=dict(TRACE=path))
    rej = [b for t, b in marks if t == 'REJECT']
    done = [b for t, b in marks if t == 'DONE']
    ids = {d['id'] for d in done} | {d['id'] for d in rej}
    missing = [t['id'] for t in items if t['id'] not in ids]
    if missing:
        raise H.ToolError(f'TLC did not finish expressions {missing[:5]}\n' + out[-2000:])
    rep.tlc(stats)
    rep.add('traces_validated_against_impl', len(items))
    rep.add('tokens_read', sum(d['toks'] for d in done))
    rep.add('tree_lines_read', sum(d['lines'] for d in done))
    tb = {t['id']: t for t in items}
    for r in rej:
        pid, n = r['id'].rsplit('.', 1)
        it, s = tb[r['id']], show(byid[pid], int(n))
        rep.violation(f"{r['what']}: {s}", f"{r['what']} (meant {r['want'][:40]}, read {r['got'][:40]}): `{it['text']}`  built by {s}",
                      dict(plan=byid[pid], reject=r, item=it))
    for t in items[:3]:
        rep.sample(dict(text=t['text']))
