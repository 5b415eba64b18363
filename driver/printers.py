"""User-defined printers (C21), judged by spec/Printer.tla."""
import json
import random
import gen_func as GF
import harness as H
from programs import show


def gen_print(seed, i):
    r = random.Random(f'printer{seed}.{i}')
    p = GF.gen_program(f'p{seed}', i, 'C21')
    lang = r.choice(['cppspan', 'cppspan', 'cppeigen', 'cppeigen', 'rust', 'rust', 'rust', 'py', 'py', 'py', 'pyout', 'base'])
    if lang == 'pyout' and r.random() < 0.9:
        for o in p['outs']:
            if o['u'] != 'ret' and not isinstance(o['t'], (list, tuple)):
                o['t'] = [len(GF.leaves(o['t'])), 1]
    p['printer'] = dict(lang=lang, target=r.choice(['numpy', 'torch', 'jax']), prec=r.choice(['64', '32']), indent=r.choice([4, 4, 2, 1]),
                        n=r.randint(5, 8))
    return p


def judge(rep, items, wd, tag):
    path = f'{wd}/{tag}.ndjson'
    H.write_ndjson(path, items)
    out, stats, marks = H.run_tlc('Printer', 'Printer.cfg', wd, env=dict(TRACE=path))
    seen = {b['sid']: b for t, b in marks if t == 'S'}
    if len(seen) != len(items):
        raise H.ToolError(f'TLC judged {len(seen)} of {len(items)} programs\n' + out[-2000:])
    rep.tlc(stats)
    return seen


def check(rep, plans, wd, tag='pr'):
    byid = {p['id']: p for p in plans}
    got, crashes = H.run_recorder('record_print.py', plans, wd, tag)
    for plan, _, how, text in crashes:
        if how == 'hang':
            rep.add('hangs_dropped', 1)
            continue
        _, again = H.run_recorder('record_print.py', [plan], wd, tag + 'c', nproc=1)
        if again:
            rep.violation(f'crash {show(plan)}', f'process terminated ({how}) printing {show(plan)} :: ' + text.strip()[-200:],
                          dict(plan=plan, text=text))
    for t in got:
        if 'raised' in t:
            rep.violation(f"raised {show(byid[t['id']])}", f"printing raised {t['raised']}: {show(byid[t['id']])}",
                          dict(plan=byid[t['id']], raised=t['raised']))
    items = [t for t in got if 'raised' not in t]
    seen = judge(rep, items, wd, tag)
    rep.add('traces_validated_against_impl', sum(len(t['prints']) for t in items))
    rep.add('programs', len(items))
    rep.add('elements', sum(len(t['nodes']) for t in items))
    rep.add('marks', sum(len(x['toks']) for t in items for x in t['prints']))
    rep.add('refusals', sum(1 for t in items for x in t['prints'] if x['err']))
    for sid, b in seen.items():
        if b['verdict'] == 'ok':
            continue
        it = items[sid - 1]
        plan = byid[it['id']]
        pr = it['prints'][b['p'] - 1]
        near = pr['toks'][max(0, b['i'] - 4):b['i'] + 2]
        rep.violation(f"{b['verdict']} {it['lang']}",
                      f"printing for {it['lang']} with printers {json.dumps(pr['ov'])[:300]} ({pr['how']}): {b['verdict']}"
                      + (f" (raised {pr['err']})" if pr['err'] else '') + (f"; expected `{b['want'][:200]}`" if b['want'] else '')
                      + f"; near {json.dumps(near)[:600]}; {show(plan)[:300]}",
                      dict(plan=plan, printed=pr, verdict=b, lang=it['lang'], plain=it['plain'], bare=it['bare']))
    for t in items[:3]:
        rep.sample(dict(lang=t['lang'], elements=len(t['nodes']), prints=[dict(how=x['how'], ov=x['ov'], err=x['err']) for x in t['prints'][2:4]]))
