"""Replay API-call plans against the real library and record what it answers (one trace line per
session).  usage: record_sym.py PLANS OUT PROGRESS"""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(__file__))
import wfdump
from fractions import Fraction
from wfdump import Dumper, DumpError, node
from wrenfold import sym

SETS = {'unknown': {}, 'real': dict(real=True), 'positive': dict(positive=True),
        'nonnegative': dict(nonnegative=True), 'complex': dict(complex=True)}
TEXT = 300     # recorded length of texts
FUN = {n: sym.Function(n) for n in ('f', 'g', 'h')}
SYMFN = dict(cos=sym.cos, sin=sym.sin, tan=sym.tan, acos=sym.acos, asin=sym.asin, atan=sym.atan,
             cosh=sym.cosh, sinh=sym.sinh, tanh=sym.tanh, acosh=sym.acosh, asinh=sym.asinh,
             atanh=sym.atanh, log=sym.log, exp=sym.exp, abs=sym.abs, sqrt=sym.sqrt)


def num(v):
    if '/' in v:
        p, q = v.split('/')
        return sym.rational(int(p), int(q))
    return sym.integer(int(v))


def apply_op(op, A, vars_):
    """A: operands (library expressions); op: the plan record."""
    k, v, alt = op['k'], op.get('v', ''), op.get('alt', 0)
    if k == 'num':
        if alt == 1:  # floating-point constant
            p, q = (v.split('/') + ['1'])[:2]
            return sym.float_constant(int(p) / int(q))
        return num(v)
    if k == 'var':
        return vars_[v]
    if k == 'const':
        return {'pi': sym.pi, 'e': sym.E, 'i': sym.I}[v]
    if k == 'zoo':
        return sym.zoo
    if k == 'nan':
        return sym.nan
    if k == 'add':
        if alt == 1:
            return sym.addition(A)
        r = A[0]
        for x in A[1:]:
            r = r + x
        return r
    if k == 'mul':
        if alt == 1:
            return sym.multiplication(A)
        r = A[0]
        for x in A[1:]:
            r = r * x
        return r
    if k == 'sub':
        return A[0] - A[1]
    if k == 'div':
        return A[0] / A[1]
    if k == 'neg':
        return -A[0]
    if k == 'pow':
        return sym.pow(A[0], A[1]) if alt == 0 else A[0] ** A[1]
    if k == 'fn':
        return SYMFN[v](A[0])
    if k == 'sign':
        return sym.sign(A[0])
    if k == 'floor':
        return sym.floor(A[0])
    if k == 'atan2':
        return sym.atan2(A[0], A[1])
    if k in ('lt', 'le', 'gt', 'ge', 'eq'):
        if alt == 1 and k != 'eq':
            return {'lt': lambda: A[0] < A[1], 'le': lambda: A[0] <= A[1],
                    'gt': lambda: A[0] > A[1], 'ge': lambda: A[0] >= A[1]}[k]()
        return {'lt': sym.lt, 'le': sym.le, 'gt': sym.gt, 'ge': sym.ge, 'eq': sym.eq}[k](A[0], A[1])
    if k == 'true':
        return sym.true
    if k == 'false':
        return sym.false
    if k == 'where':
        return sym.where(A[0], A[1], A[2])
    if k == 'min':
        return sym.min(A[0], A[1])
    if k == 'max':
        return sym.max(A[0], A[1])
    if k == 'iverson':
        return sym.iverson(A[0])
    if k == 'uneval':
        return sym.unevaluated(A[0])
    if k == 'stopd':
        return sym.stop_derivative(A[0])
    if k == 'call':
        return FUN[v](*A)
    if k == 'deriv':
        if alt == 1:
            return sym.derivative(A[0], A[1], order=int(v))
        if alt == 2:
            return A[0].diff(A[1], int(v), True)
        return A[0].diff(A[1], int(v))
    if k == 'subst':
        return A[0].subs(A[1], A[2])
    if k == 'nsubst':
        return A[0].subs(A[1], A[2])
    if k == 'same':
        if alt == 1:
            return sym.distribute(A[0])
        if alt == 2:
            return A[0].collect(A[1])
        if alt == 3:
            return A[0].collect(list(A[1:]))
        if alt == 4:
            return A[0].distribute()
        raise KeyError('same')
    raise KeyError(k)


def classify(e):
    n = type(e).__name__
    if 'Arith' in n or 'Overflow' in n or 'ZeroDivision' in n:
        return 'arith'
    if 'Arguments to collect cannot be numeric' in str(e) or 'Cannot perform a substitution with target type' in str(e):
        return 'arith'  # documented refusal
    if 'contains symbolic components that cannot' in str(e) or 'Cannot call eval on' in str(e):
        return 'symbolic'
    return n + ': ' + str(e)[:160]


def special(op, A, vars_, d, ev):
    """Operations observed through more than one library object.  Returns (root, text, result or None)."""
    k = op['k']
    if k == 'csub':
        # substitution of any target t, by its value law: subs(e, t, w) with w standing for t means e,
        # and t is gone from the result
        w = vars_[op['w']]
        r = A[0].subs(A[1], w)
        ir, it, iw = d.dump(r), d.dump(A[1]), d.dump(w)
        root = d._emit(node('subst', [ir, iw, it]))
        if op.get('complete'):
            ev['absent'] = [ir, it]
        return root, str(r), None
    if k == 'csub2':
        # replacing t by r directly means the same as replacing it by a variable that is given r's value
        w = vars_[op['w']]
        r1 = A[0].subs(A[1], w)
        r2 = A[0].subs(A[1], A[2])
        i1, iw, ir, i2 = d.dump(r1), d.dump(w), d.dump(A[2]), d.dump(r2)
        ev['cmp'] = d._emit(node('subst', [i1, iw, ir]))
        return i2, str(r2), None
    if k == 'mpsubst':  # list of pairs, in order
        pairs = [(A[i], A[i + 1]) for i in range(1, len(A), 2)]
        r = A[0].subs(pairs)
        return d.dump(r), str(r), r
    if k == 'nochange':  # target does not occur
        r = A[0].subs(A[1], A[2])
        ev['facts'] = [[str(r), str(A[0])]]
        return d.dump(r), str(r), r
    if k == 'cse':
        outs, reps = sym.eliminate_subexpressions(A[0], None, op.get('minocc', 2))
        # read the definitions back as nested substitutions
        i0 = d.dump(A[0])
        idx = d.dump(outs)
        order = []
        for n, (var, val) in enumerate(reps):
            later = {str(v) for v, _ in list(reps)[n:]}
            order += [str(x) for x in sym.get_variables(val) if str(x) in later]
        for var, val in reversed(list(reps)):
            iw, iv = d.dump(var), d.dump(val)
            idx = d._emit(node('subst', [idx, iw, iv]))
        ev['facts'] = [['used before definition: ' + ' '.join(order), 'used before definition: ']]
        ev['shared'] = [i0, op.get('minocc', 2), len(reps)]
        return idx, f"{reps} {outs}", None
    if k == 'meval':  # numeric evaluation, of a constant expression
        m = sym.matrix([[A[0]]]).eval()
        x = complex(m[0][0]) if not hasattr(m, 'shape') else complex(m[0, 0])
        parts = [Fraction(t) for t in (x.real, x.imag)]
        v = wfdump.frac_str(parts[0]) + ('' if parts[1] == 0 else '|' + wfdump.frac_str(parts[1]))
        return d._emit(node('num', v=v)), repr(x), None
    return None


def run_session(plan, progress):
    vars_ = {}
    for var in plan['vars']:
        vars_[var['n']] = sym.symbols(var['n'], **SETS[var['s']])
    d = Dumper(max_nodes=plan.get('max_nodes', 1500))
    heap = []
    evs = []
    fl = 0
    for i, op in enumerate(plan['ops']):
        os.write(progress, f"{plan['id']} {i}\n".encode())
        A = [heap[j - 1] for j in op['a']]
        raw = op.get('raw', dict(k=op['k'], a=op['a'], v=op.get('v', '')))
        ev = dict(op=raw, new=[], root=0, cmp=0, err='', digits=op.get('digits', plan.get('digits', 25)),
                  udef=op.get('udef', plan.get('udef', 'no')),
                  mayraise=op.get('mayraise', plan.get('mayraise', 1)), text='',
                  absent=[], shared=[], facts=[])
        if any(x is None for x in A):
            ev['mayraise'] = 1
            ev['err'] = 'arith'
            heap.append(None)
            evs.append(ev)
            continue
        start = len(d.nodes)
        try:
            sp = special(op, A, vars_, d, ev)
            if sp is not None:
                ev['root'], text, r = sp
                ev['text'] = text[:TEXT]
                heap.append(r)
            else:
                r = apply_op(op, A, vars_)
                ev['text'] = str(r)[:TEXT]
                ev['root'] = d.dump(r)
                heap.append(r)
            ev['new'] = d.nodes[start:]
        except DumpError as e:
            if 'too many' in str(e):
                break  # expression grew beyond the session bound: end the session here
            ev['err'] = 'dump: ' + str(e)
            ev['mayraise'] = 0
            heap.append(None)
            ev['new'] = []
            evs.append(ev)
            break
        except Exception as e:
            ev['err'] = classify(e)
            ev['new'] = []
            ev.update(absent=[], shared=[], facts=[], cmp=0, op=raw)
            del d.nodes[start:]
            for h in list(d.memo):
                d.memo[h] = [(x, ix) for x, ix in d.memo[h] if ix <= start]
            heap.append(None)
        evs.append(ev)
        if d.floats:
            fl = 1
    env = [dict(e, **{'#p': ''}) for e in plan['env']]
    nb = len(env)
    if plan.get('exact'):
        fl = 0
    if fl or plan.get('fl'):
        fl = 1
        env += [dict(e, **{'#p': t}) for t in '12' for e in plan['env']]
    return dict(id=plan['id'], env=env, nb=nb, fl=fl, ev=evs)


def main():
    plans, out, prog = sys.argv[1:4]
    progress = os.open(prog, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
    with open(out, 'w') as f:
        for line in open(plans):
            s = run_session(json.loads(line), progress)
            if s['ev']:
                f.write(json.dumps(s) + '\n')
            else:
                f.write('\n')
            f.flush()


if __name__ == '__main__':
    main()
