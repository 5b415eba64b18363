"""Checks that carry expressions between wrenfold and SymPy through spec/Convert.tla."""
import harness as H
from sessions import show_plan


def check(rep, plans, wd, tag='c'):
    traces, crashes = H.run_recorder('record_conv.py', plans, wd, tag)
    byid = {p['id']: p for p in plans}
    for plan, opi, how, text in crashes:
        if how == 'hang':
            rep.add('hangs_dropped', 1)
            continue
        _, again = H.run_recorder('record_conv.py', [plan], wd, tag + 'c', nproc=1)
        if again:
            s = show_plan(plan, opi + 1)
            rep.violation(f'crash {s}', f'process terminated ({how}) by: {s} :: {text.strip()[-200:]}', dict(plan=plan, op=opi, text=text))
    items = [it for t in traces for it in t['items']]
    rejects, stats, done = explain(items, wd, tag)
    if rejects:      # a rejection must repeat
        ids = sorted({r['id'].rsplit('.', 1)[0] for r in rejects})[:80]
        tr2, _ = H.run_recorder('record_conv.py', [byid[i] for i in ids], wd, tag + 'r')
        keep = {r['id'] for r in rejects}
        rej2, _, _ = explain([it for t in tr2 for it in t['items'] if it['id'] in keep], wd, tag + 'r')
        again = {(r['id'], r['l']) for r in rej2}
        rejects = [r for r in rejects if (r['id'], r['l']) in again]
    rep.tlc(stats)
    rep.add('traces_validated_against_impl', len(items))
    rep.add('conversions', sum(d['n'] for d in done))
    rep.add('refusals_explained', sum(d['refused'] for d in done))
    tb = {t['id']: t for t in items}
    for r in rejects:
        it, plan = tb[r['id']], byid[r['id'].rsplit('.', 1)[0]]
        root = plan['walks'][int(r['id'].rsplit('.', 1)[1])][0]
        a, b = it['objs'][r['l'] - 1], it['objs'][r['l']]
        env = it['env'][r['sample'] - 1] if r['sample'] else {}
        rep.violation(f"{'KF4: ' if plan.get('kf') else ''}{r['what']}: {a['lang']} `{a['text']}` -> {b['lang']} `{b['text'] or b['err']}`",
                      f"{r['what']} changed by conversion {r['l']}: {a['lang']} `{a['text']}` became {b['lang']} `{b['text'] or b['err']}`"
                      f" at {env}: expected {r['want']}, got {r['got']}; built by {show_plan(plan, root)}",
                      dict(plan=plan, reject=r, item=it))
    for t in items[:3]:
        rep.sample(dict(objects=[o['text'] for o in t['objs']]))


def explain(items, wd, tag):
    if not items:
        return [], dict(generated=0, distinct=0), []
    path = f'{wd}/{tag}.ndjson'
    H.write_ndjson(path, items)
    out, stats, marks = H.run_tlc('Convert', 'Convert.cfg', wd, env=dict(TRACE=path))
    rej = [b for t, b in marks if t == 'REJECT']
    done = [b for t, b in marks if t == 'DONE']
    ids = {d['id'] for d in done} | {d['id'] for d in rej}
    missing = [t['id'] for t in items if t['id'] not in ids]
    if missing:
        raise H.ToolError(f'TLC did not finish walks {missing[:5]}\n' + out[-2000:])
    return rej, stats, done
