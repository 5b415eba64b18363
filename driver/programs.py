"""Checks that execute transpiled programs in spec/Program.tla."""
import json
import re

import gen_func as GF
import harness as H


def show(plan):
    """Readable plan: what the user's function computes."""
    ops = []
    for i, op in enumerate(plan['ops'], 1):
        a = ', '.join(f'#{j}' for j in op['a'])
        ops.append(f"#{i}={op['k']}" + (f"[{op['v']}]" if op.get('v') else '') + (f'({a})' if a else ''))
    outs = ', '.join(f"{o['u']} {o['n']}:{o['t']}={o['e']}" for o in plan['outs'])
    return f"args {plan['args']}; " + '; '.join(ops) + f' => {outs}; opt {plan["opt"]}'


def explain(traces, wd, tag):
    path = f'{wd}/{tag}.ndjson'
    H.write_ndjson(path, traces)
    out, stats, marks = H.run_tlc('Program', 'Program.cfg', wd, env=dict(TRACE=path))
    rej = [b for t, b in marks if t == 'REJECT']
    done = [b for t, b in marks if t == 'DONE']
    dead = [b for t, b in marks if t == 'DEAD']
    seen = {x['id'] for x in rej + done + dead}
    missing = [t['id'] for t in traces if t['id'] not in seen]
    if missing:
        raise H.ToolError(f'TLC did not finish programs {missing[:5]}\n' + out[-2000:])
    return rej, done, dead, stats


def check(rep, pid, plans, wd, tag='p'):
    """pid decides which class of rejection is reported: C11 values, C12 form."""
    want = {'C11': 'value', 'C12': 'form'}[pid]
    traces, crashes = H.run_recorder('record_prog.py', plans, wd, tag)
    byid = {p['id']: p for p in plans}
    for plan, _, how, text in crashes:
        if how == 'hang':
            rep.add('hangs_dropped', 1)
            continue
        _, again = H.run_recorder('record_prog.py', [plan], wd, tag + 'c', nproc=1)
        if again:
            rep.violation(f'crash {show(plan)}', f'process terminated ({how}) generating {show(plan)} :: '
                          + text.strip()[-200:], dict(plan=plan, text=text))
    raised = [t for t in traces if 'raised' in t]
    for t in raised:
        rep.violation(f"raised {show(byid[t['id']])}", f"transpiling raised {t['raised']}: {show(byid[t['id']])}",
                      dict(plan=byid[t['id']], raised=t['raised']))
    traces = [t for t in traces if 'raised' not in t]
    for t in traces:
        if t['err']:
            rep.violation(f"unreadable {show(byid[t['id']])}",
                          f"the program is not well formed ({t['err']}): {show(byid[t['id']])}",
                          dict(plan=byid[t['id']], err=t['err']))
    good = [t for t in traces if not t['err']]
    rej, done, dead, stats = explain(good, wd, tag)
    rep.tlc(stats)
    rep.add('traces_validated_against_impl', len(good))
    rep.add('executions', len(done))
    rep.add('dead_executions', len(dead))
    rep.add('values_compared', sum(d['cmp'] for d in done))
    rep.add('values_undefined', sum(d['undef'] for d in done))
    rep.add('statements_executed', sum(d['n'] for d in done))
    other = {}
    for r in rej:
        if r['class'] != want:
            other[r['what']] = other.get(r['what'], 0) + 1
            continue
        plan = byid[r['id']]
        rep.violation(f"{r['what']} {show(plan)}",
                      f"{r['what']}: expected {r['want']}, got {r['got']} (requested {r['req']}, comparisons {r['dec']}, "
                      f"at {r['at']}) for {show(plan)}", dict(plan=plan, reject=r))
    if other:
        rep.cov['rejected_for_other_property'] = other
    for t in good[:3]:
        rep.sample(dict(program=t['id'], blocks=len(t['blocks']), statements=sum(len(b) for b in t['blocks']),
                        outputs=[o['u'] for o in t['outs']]))
    return good, rej
