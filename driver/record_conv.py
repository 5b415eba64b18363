"""Carry expressions between wrenfold and SymPy and record every object on the way.
usage: record_conv.py PLANS OUT PROGRESS"""
import json
import os
import re
import signal
import sys
import warnings
from fractions import Fraction

sys.path.insert(0, os.path.dirname(__file__))
import sympy as sp
import record_order
from record_sym import SETS
from wfdump import Dumper, DumpError, frac_str, node
from wrenfold import sym
from wrenfold.sympy_conversion import from_sympy, to_sympy

warnings.simplefilter('ignore')
KF = False
ASSUME = ('positive', 'nonnegative', 'real', 'complex')


class WfDumper(Dumper):
    def _dump(self, e):
        t = e.type_name
        if t == 'Variable':
            m = re.match(r'Variable \((.*), (\w+)\)\s*$', e.expression_tree_str().strip(), re.S)
            n = node('var', v=m.group(1))
            n['s'] = {'real_positive': 'positive', 'real_non_negative': 'nonnegative'}.get(m.group(2), m.group(2))
            return self._emit(n)
        if t in ('UniqueVariable', 'FunctionArgumentVariable', 'CompoundExpressionElement', 'ExternalFunctionInvocation'):
            return self._emit(node('lib', v=t))
        return super()._dump(e)


def dump_wf(e, cap):
    d = WfDumper(cap)
    if isinstance(e, sym.MatrixExpr):
        roots = [d.dump(x) for row in e.to_list() for x in row]
        form = f'm {e.shape[0]} {e.shape[1]}'
    else:
        roots = [d.dump(e)]
        form = 'b' if isinstance(e, sym.BooleanExpr) else 's'
    return d.nodes, roots, form, d.floats


class SpDumper:
    def __init__(self, cap):
        self.nodes = []
        self.memo = {}
        self.cap = cap
        self.floats = False

    def emit(self, k, a=(), v='', s=''):
        if len(self.nodes) >= self.cap:
            raise DumpError('too many nodes')
        self.nodes.append(dict(k=k, a=list(a), v=v, s=s))
        return len(self.nodes)

    def dump(self, e):
        key = (type(e), e)
        if key not in self.memo:
            self.memo[key] = self._dump(e)
        return self.memo[key]

    def _dump(self, e):
        c = type(e).__name__
        if isinstance(e, sp.Float):
            self.floats = True
            if not e.is_finite:
                return self.emit('NaN')
            return self.emit('Float', v=frac_str(Fraction(str(sp.Rational(e)))))
        if isinstance(e, sp.Rational):
            return self.emit(c, v=frac_str(Fraction(int(e.p), int(e.q))))
        if type(e) is sp.Symbol:
            return self.emit(c, v=e.name, s=','.join(a for a in ASSUME if getattr(e, 'is_' + a)))
        if isinstance(e, sp.core.function.AppliedUndef):
            return self.emit('AppliedUndef', [self.dump(x) for x in e.args], e.func.name,
                             'assumptions' if e.func.default_assumptions else '')
        if isinstance(e, sp.Piecewise):
            return self.emit(c, [self.dump(x) for vc in e.args for x in vc.args])
        if isinstance(e, sp.Derivative):        # by one variable after the other
            i = self.dump(e.expr)
            for x, n in e.variable_count:
                if not (n.is_Integer and n >= 0):
                    return self.emit('Derivative', [i, self.dump(x)], '0', 'symbolic order')
                if n > 0:
                    i = self.emit('Derivative', [i, self.dump(x)], str(n))
            return i
        if isinstance(e, sp.Subs):
            a = [self.dump(e.expr)]
            for x, y in zip(e.variables, e.point):
                a += [self.dump(x), self.dump(y)]
            # SymPy merges nested substitutions into one; what it means is then a matter of their order
            chain = any(y.free_symbols & set(e.variables[i + 1:]) for i, y in enumerate(e.point))
            return self.emit('Chain' if chain and not KF else c, a)
        return self.emit(c, [self.dump(x) for x in e.args])


def dump_sp(e, cap):
    d = SpDumper(cap)
    if isinstance(e, sp.MatrixBase):
        roots = [d.dump(e[i, j]) for i in range(e.shape[0]) for j in range(e.shape[1])]
        form = f'm {e.shape[0]} {e.shape[1]}'
    else:
        roots = [d.dump(e)]
        form = 'b' if isinstance(e, sp.logic.boolalg.Boolean) and not isinstance(e, sp.Symbol) else 's'
    return d.nodes, roots, form, d.floats


def observe(lang, e, cap):
    try:
        nodes, roots, form, fl = (dump_wf if lang == 'wf' else dump_sp)(e, cap)
        text = str(e)[:300]
    except DumpError:
        raise
    except Exception as x:      # SymPy cannot show what it holds (unevaluated comparisons, integers of thousands of digits)
        if lang == 'wf':
            raise
        raise DumpError('too many: ' + str(x)[:80])
    for n in nodes:
        n.setdefault('s', '')
    return dict(lang=lang, nodes=nodes, roots=roots, form=form, err='', text=text, ev=0), fl


def costly(o):
    """Nested derivatives and substitutions are evaluated numerically, again for every level."""
    d = []
    for n in o['nodes']:
        here = int(n['v']) if n['k'] in ('deriv', 'Derivative') else 1 if n['k'] in ('subst', 'Subs') else 0
        d.append(here + max([d[j - 1] for j in n['a'] if 0 < j <= len(d)], default=0))
    return max(d, default=0) > 3 and sum(x > 0 for x in d) > 8


def classify(e):
    n, m = type(e).__name__, str(e)
    if 'Arith' in n or 'Overflow' in n or 'ZeroDivision' in n:
        return 'arith'
    if 'not comparable' in m or 'Invalid comparison' in m or 'Invalid NaN' in m or 'Cannot construct relational' in m \
            or 'TypeError: cannot determine truth value' in m:
        return 'order'
    if in_sympy(e):
        return 'order'
    return f'{n}: {m[:150]}'


# ------------------------------------------------------------------ SymPy-side constructions
FN = dict(abs='Abs')
REL = dict(lt='Lt', le='Le', gt='Gt', ge='Ge', eq='Eq', ne='Ne')


def sp_symbol(n, s):
    return sp.Symbol(n, **{a: True for a in s.split(',') if a and a not in ('unknown', 'negative0')})


def sp_build(op, A, vars_):
    k, v, ev = op['k'], op.get('v', ''), bool(op.get('ev', 1))
    if k == 'num':
        p, q = (v.split('/') + ['1'])[:2]
        if op.get('alt') == 1:
            return sp.Float(int(p) / int(q))
        return sp.Rational(int(p), int(q))
    if k == 'var':
        return vars_[v]
    if k == 'const':
        return {'pi': sp.pi, 'e': sp.E, 'i': sp.I, 'zoo': sp.zoo, 'nan': sp.nan, 'oo': sp.oo}[v]
    if k in ('add', 'mul', 'pow'):
        return {'add': sp.Add, 'mul': sp.Mul, 'pow': sp.Pow}[k](*A, evaluate=ev)
    if k == 'fn':
        return getattr(sp, FN.get(v, v))(*A, evaluate=ev)
    if k in ('sign', 'floor', 'ceiling', 'atan2', 'Min', 'Max', 'And', 'Or', 'Not', 'cot', 'sec', 'sinc', 'Mod', 'Xor', 'gamma', 're', 'im', 'conjugate', 'arg'):
        return getattr(sp, k)(*A, evaluate=ev)
    if k in REL:
        return getattr(sp, REL[k])(*A, evaluate=ev)
    if k == 'piecewise':
        pairs = [(A[i], A[i + 1]) for i in range(0, len(A) - 1, 2)]
        if len(A) % 2:
            pairs.append((A[-1], True))
        return sp.Piecewise(*pairs, evaluate=ev)
    if k == 'heaviside':
        return sp.Heaviside(*A)
    if k == 'uneval':
        return sp.UnevaluatedExpr(A[0])
    if k == 'call':
        return sp.Function(v, **({'real': True} if op.get('alt') else {}))(*A)
    if k == 'deriv':
        return sp.Derivative(A[0], *[(A[i + 1], int(n)) for i, n in enumerate(v.split(','))])
    if k == 'subst':
        n = (len(A) - 1) // 2
        if not op.get('alt') and any(A[1 + n + i].free_symbols & set(A[2 + i:1 + n]) for i in range(n)):
            raise KeyError      # known finding: see known_findings.json (KF4)
        return sp.Subs(A[0], A[1:1 + n], A[1 + n:])
    if k == 'mat':
        r, c = map(int, v.split('x'))
        return (sp.ImmutableMatrix if op.get('alt') else sp.Matrix)(r, c, A)
    raise KeyError(k)


def wf_build(op, A, vars_):
    if op['k'] == 'var':
        return vars_[op['v']]
    if op['k'] == 'subst' and op.get('alt') == 9:
        return sym.substitution(*A)
    return record_order.build(op, A) if op['k'] == 'mat' else record_order.record_sym.apply_op(op, A, vars_)


class Slow(BaseException):
    """SymPy takes long to evaluate something: not judged."""


def timed(f):
    def ring(*_):
        raise Slow
    signal.signal(signal.SIGALRM, ring)
    signal.alarm(4)
    try:
        return f()
    finally:
        signal.alarm(0)


def in_sympy(x):
    tb = x.__traceback__
    while tb.tb_next is not None:
        tb = tb.tb_next
    f = tb.tb_frame.f_code.co_filename
    return '/sympy/' in f or '/mpmath/' in f


def run(plan, progress):
    global KF
    KF = bool(plan.get('kf'))
    wf = plan['lang'] == 'wf'
    vars_ = {v['n']: (sym.symbols(v['n'], **SETS[v['s']]) if wf else sp_symbol(v['n'], v['s'])) for v in plan['vars']}
    sets = {v['n']: (v['s'] if wf else 'unknown' if not v['s'] else v['s']) for v in plan['vars']}
    heap, out = [], []
    cap = 260
    for i, op in enumerate(plan['ops']):
        os.write(progress, f"{plan['id']} {i}\n".encode())
        A = [heap[j - 1] for j in op['a']]
        r = None
        n = (len(A) - 1) // 2
        if op['k'] == 'subst' and any(plan['ops'][j - 1]['k'] == 'var' and sets[plan['ops'][j - 1]['v']] not in ('unknown', 'complex', 'real')
                                      for j in op['a'][1:1 + n]):
            pass        # the value may lie outside the set that the variable is assumed to range over
        elif not any(x is None for x in A):
            try:
                r = timed(lambda: (wf_build if wf else sp_build)(op, A, vars_))
            except (Exception, Slow):
                r = None
        heap.append(r)
    for n, (root, evs) in enumerate(plan['walks']):
        os.write(progress, f"{plan['id']} {root - 1}\n".encode())
        e = heap[root - 1]
        if e is None:
            continue
        lang = plan['lang']
        try:
            first, fl = observe(lang, e, cap)
        except (DumpError, MemoryError):
            continue
        if costly(first):
            continue
        objs = [first]
        for ev in evs:
            nxt = 'sp' if lang == 'wf' else 'wf'
            src = e
            try:
                e = timed(lambda: to_sympy(src, evaluate=bool(ev)) if lang == 'wf' else from_sympy(src))
            except Slow:
                break
            except Exception as x:
                try:     # SymPy's evaluation may fail; it must then work without
                    if not (lang == 'wf' and ev and in_sympy(x)):
                        raise x
                    e = timed(lambda: to_sympy(src, evaluate=False))
                except Slow:
                    break
                except Exception as x:
                    objs.append(dict(lang=nxt, nodes=[], roots=[], form='', err=classify(x), text=''))
                    break
            lang = nxt
            try:
                o, f2 = observe(lang, e, 2 * cap)
            except DumpError as x:
                if 'too many' in str(x):
                    break
                o, f2 = dict(lang=nxt, nodes=[], roots=[], form='', err='dump: ' + str(x), text=''), False
            fl = fl or f2
            o['ev'] = ev if lang == 'sp' else 0
            objs.append(o)
            if o['err']:
                break
        if len(objs) < 2:
            continue
        env = [dict(x, **{'#p': ''}) for x in plan['env']]
        nb = len(env)
        if fl:
            env += [dict(x, **{'#p': t}) for t in '12' for x in plan['env']]
        out.append(dict(id=f"{plan['id']}.{n}", env=env, nb=nb, fl=int(fl), digits=plan.get('digits', 25), objs=objs))
    return out


def main():
    plans, out, prog = sys.argv[1:4]
    progress = os.open(prog, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
    with open(out, 'w') as f:
        for line in open(plans):
            plan = json.loads(line)
            f.write(json.dumps(dict(id=plan['id'], items=run(plan, progress))) + '\n')
            f.flush()


if __name__ == '__main__':
    main()
