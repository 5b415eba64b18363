"""Checks that replay API-call sessions through spec/Session.tla."""
import json
import harness as H


def show_plan(plan, upto=None):
    """A readable rendering of the calls of a plan, the failing one last; only what it depends on."""
    ops = plan['ops']
    last = len(ops) if upto is None else upto
    need, stack = set(), [last]
    while stack:
        i = stack.pop()
        if i in need or i < 1:
            continue
        need.add(i)
        stack += ops[i - 1]['a']
    out = []
    for i in sorted(need):
        op = ops[i - 1]
        args = ', '.join(f'#{j}' for j in op['a'])
        out.append(f"#{i}={op['k']}" + (f"[{op['v']}]" if op.get('v') else '') + f'({args})')
    sets = ' '.join(f"{v['n']}:{v['s']}" for v in plan['vars'])
    return f"vars {sets}; " + '; '.join(out)


def check_sessions(rep, plans, wd, tag='s', confirm=True):
    traces, crashes = H.run_recorder('record_sym.py', plans, wd, tag)
    byid = {str(p['id']): p for p in plans}
    for plan, opi, how, text in crashes:
        if how == 'hang':
            rep.add('hangs_dropped', 1)
            continue
        # a crash must repeat on its own
        _, again = H.run_recorder('record_sym.py', [plan], wd, tag + 'c', nproc=1)
        if again:
            rep.violation(f'crash {show_plan(plan, opi + 1)}',
                          f'process terminated ({how}) by call: {show_plan(plan, opi + 1)} :: {text.strip()[-200:]}',
                          dict(plan=plan, op=opi, text=text))
    rejects, stats, done = explain(traces, wd, tag)
    rep.tlc(stats)
    rep.add('traces_validated_against_impl', len(traces))
    rep.add('calls', sum(len(t['ev']) for t in traces))
    for d in done:
        rep.add('assignments_compared', d['cmp'])
        rep.add('assignments_undefined', d['skip'])
    exp = sum(len(t['ev']) for t in traces)
    if rejects and confirm:
        ids = [r['id'] for r in rejects][:60]
        tr2, _ = H.run_recorder('record_sym.py', [byid[str(i)] for i in ids], wd, tag + 'r')
        rej2, _, _ = explain(tr2, wd, tag + 'r')
        keys = {(str(r['id']), r['l']) for r in rej2}
        rejects = [r for r in rejects if (str(r['id']), r['l']) in keys]
    tbyid = {str(t['id']): t for t in traces}
    for r in rejects:
        plan, t = byid[str(r['id'])], tbyid[str(r['id'])]
        ev = t['ev'][r['l'] - 1]
        env = t['env'][r['sample'] - 1] if r['sample'] else {}
        s = (f"call {show_plan(plan, r['l'])} answered `{ev['text'] or ev['err']}`; at {env}: "
             f"expected {r['want']}, got {r['got']}"
             + ('' if r.get('structure', True) else f"; structural obligation violated: {ev}"[:600]))
        kf = f"{plan['id']}: " if plan.get('kf') else ''
        rep.violation(f"{kf}{show_plan(plan, r['l'])} -> {ev['text'] or ev['err']}", s,
                      dict(plan=plan, event=r['l'], env=env, want=r['want'], got=r['got'], text=ev['text']))
    for t in traces[:3]:
        rep.sample(dict(session=t['id'], env=t['env'][0], calls=[e['text'] or e['err'] for e in t['ev']][-4:]))
    return traces, rejects


def explain(traces, wd, tag):
    if not traces:
        return [], dict(generated=0, distinct=0), []
    path = f'{wd}/{tag}.ndjson'
    H.write_ndjson(path, traces)
    out, stats, marks = H.run_tlc('Session', 'Session.cfg', wd, env=dict(TRACE=path))
    rejects = [b for t, b in marks if t == 'REJECT']
    done = [b for t, b in marks if t == 'DONE']
    ids = {str(d['id']) for d in done}
    missing = [t['id'] for t in traces if str(t['id']) not in ids]
    if missing:
        raise H.ToolError(f'TLC did not finish sessions {missing[:5]}\n' + out[-2000:])
    return rejects, stats, done
