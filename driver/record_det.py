"""Run histories of user operations in a given circumstance and record every answer of the library.
usage: record_det.py PLANS OUT PROGRESS   (each plan: {id, kind, plan, times, keep, gap}); `gap` lists unrelated
histories that are run before it in the same process, `times` runs the history several times."""
import gc
import hashlib
import json
import os
import re
import sys

sys.path.insert(0, os.path.dirname(__file__))
import funcs
import record_conv
import record_emit
import record_mat
import record_order
import record_sym
import wfdump
from record_prog import classify_ok
from wrenfold import code_generation as cg, sym

UNIQ = re.compile(r'\$u_(\d+)|UniqueVariable \((\d+)')
record_sym.TEXT = record_order.TEXT = 10 ** 6
NULL = os.open(os.devnull, os.O_WRONLY)


SEEN = set()
WORDS = re.compile(r'\w+')


def answer(text, more=''):
    """Text with the numbers of unique variables taken out; structure as a digest.  With two or more of them, the order
    of creation (and so of printing) follows the storage order of operands, a matter of the numbers: then the words count."""
    u = [int(a or b) for a, b in UNIQ.findall(text + '\0' + more)]
    SEEN.update(u)
    x, y = UNIQ.sub('$u', text), UNIQ.sub('$u', more)
    if u and len(SEEN) > 1:
        x, y, u = ' '.join(sorted(WORDS.findall(x))), '', []
    h = hashlib.sha1((x + '\0' + y).encode()).hexdigest()[:16]
    return dict(x=x[:400] + ' #' + h, u=u)


def tree(e):
    return e.expression_tree_str() if hasattr(e, 'expression_tree_str') else ''


def do_sym(plan):
    s = record_sym.run_session(plan, NULL)
    out, uniq = [], False
    for ev in s['ev']:
        # operands of sums and products are stored by hash, and the hash of a unique variable is its number:
        # from there on only the printed form is compared
        more = json.dumps([ev['op'], ev['new'], ev['root'], ev['cmp'], ev['facts'], ev['absent'], ev['shared']])
        uniq = uniq or bool(UNIQ.search(ev['text'] + more))
        out.append(answer(ev['err'] or ev['text'], '' if uniq else more))
    return out


def do_order(plan):
    s = record_order.run(plan, NULL)
    out, uniq = [], False
    for st in s['steps']:
        uniq = uniq or st['k'] == 'uniq' or bool(UNIQ.search(st['text']))
        out.append(answer(st['err'] or st['text'], json.dumps([st['eqr'], st['eql'], st['shape']] + ([] if uniq else [st['cmp'], st['cmpl']]))))
    return out


def do_print(plan):
    """Expressions of every kind: text, tree, and the answers to questions about them."""
    heap, out = [], []
    for op in plan['ops']:
        A = [heap[j - 1] for j in op['a']]
        e = None
        try:
            e = record_order.build(op, A) if all(x is not None for x in A) else None
            t = '' if e is None else str(e) + '\0' + tree(e)
            if isinstance(e, (sym.Expr, sym.MatrixExpr)) and not UNIQ.search(t):
                t += '\0' + ' '.join(str(x) for x in sym.get_variables(e))
            out.append(answer(t))
        except Exception as x:
            out.append(answer(record_sym.classify(x)))
        heap.append(e)
    return out


def do_mat(plan):
    s = record_mat.run(plan, NULL)
    return [answer(json.dumps(ev, sort_keys=True)) for ev in s['ev']] if 'ev' in s else [answer(json.dumps(s, sort_keys=True))]


def do_emit(plan):
    out = []
    R = funcs.realize(plan, dump=False)
    for o in plan['outs']:
        out.append(answer(' ; '.join(str(R.heap[i - 1]) for i in o['e'])))
    for lang, target, prec, beh in (('cpp', '', '64', 'span'), ('cpp', '', '64', 'eigen'), ('rust', '', '64', ''),
                                    ('py', 'numpy', '64', ''), ('py', 'torch', '32', ''), ('py', 'jax', '64', '')):
        cfg = dict(plan['cfg'], lang=lang, target=target, prec=prec, beh=beh, outargs=plan['cfg'].get('outargs', 0))
        g = record_emit.generator(cfg)
        try:
            code = cg.generate_function(R.func, g, optimization_params=record_emit.params(cfg), convert_ternaries=bool(cfg['tern']))
            code = g.apply_preamble(code, plan['name']) if lang == 'cpp' else g.apply_preamble(code)
        except Exception as x:
            if not record_emit.refused(x):
                raise
            code = 'refused ' + re.sub(r'0x[0-9a-f]+', '', str(x))[:200]
        out.append(answer(code))
    return out


KINDS = dict(sym=do_sym, order=do_order, print=do_print, mat=do_mat, emit=do_emit)


def run(kind, plan):
    SEEN.clear()
    try:
        return KINDS[kind](plan)
    except wfdump.DumpError as e:
        return [answer('dump ' + str(e))]
    except Exception as e:
        return [answer(f'{type(e).__name__} {str(e)[:200]}')]


def main():
    plans, out, prog = sys.argv[1:4]
    progress = os.open(prog, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
    held = []
    with open(out, 'w') as f:
        for line in open(plans):
            p = json.loads(line)
            os.write(progress, f"{p['id']} 0\n".encode())
            for kind, q in p['gap']:
                if p['keep']:
                    held.append([sym.symbols(f'held{len(held)}') ** k for k in range(7)])
                run(kind, q)
            ans = [run(p['kind'], p['plan']) for _ in range(p['times'])]
            if not p['keep']:
                held.clear()
                gc.collect()
            f.write(json.dumps(dict(id=p['id'], ans=ans)) + '\n')
            f.flush()


if __name__ == '__main__':
    main()
