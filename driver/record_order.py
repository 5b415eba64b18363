"""Build pools of expressions with the real library and record what it answers about every pair.
usage: record_order.py PLANS OUT PROGRESS"""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(__file__))
import funcs
import gen_func as GF
import record_sym
from record_sym import SETS, classify
from wrenfold import sym
from wrenfold.code_generation import ReturnValue, create_function_description

_ARGS = {}


def arguments(layout):
    """Elements of the arguments of a function with the given [(name, type)] signature."""
    key = json.dumps(layout)
    if key not in _ARGS:
        got = {}

        def body(**kw):
            for n, t in layout:
                for path, e in funcs.elements(t, kw[n], n):
                    got[path] = e
            return [ReturnValue(sym.integer(1))]

        ns = dict(_b=body)
        names = [n for n, _ in layout]
        exec(f"def fn({', '.join(names)}):\n    return _b({', '.join(f'{n}={n}' for n in names)})\n", ns)
        ns['fn'].__annotations__ = {n: funcs.pytype(t) for n, t in layout}
        create_function_description(ns['fn'])
        _ARGS[key] = got
    return _ARGS[key]


def build(op, A):
    k, v = op['k'], op.get('v', '')
    if k == 'var':
        n, s = v.split(':')
        return sym.symbols(n, **SETS[s])
    if k == 'uniq':
        return sym.unique_symbols(1, **SETS[v]) if v else sym.unique_symbols(1)
    if k == 'farg':
        layout, path = json.loads(v)
        return arguments(layout)[path]
    if k == 'float':
        return sym.float_constant(float.fromhex(v))
    if k == 'ext':
        name, i = v.split('#')
        ats, rt = GF.EXTERNALS[name]
        it = iter(A)
        return funcs.elements(rt, funcs.external(name)(*[funcs.build(t, it) for _, t in ats]))[int(i)][1]
    if k == 'mat':
        r, c = map(int, v.split('x'))
        return sym.matrix([[A[i * c + j] for j in range(c)] for i in range(r)])
    if k == 'madd':
        return A[0] + A[1]
    if k == 'msub':
        return A[0] - A[1]
    if k == 'mmul':
        return A[0] * A[1]
    if k == 'mT':
        return A[0].T
    if k == 'mget':
        r, c = map(int, v.split(','))
        return A[0][r, c]
    if k == 'pyop':     # operators with Python numbers
        o, n = v.split(' ')
        n = float.fromhex(n[1:]) if n[0] == 'f' else int(n)
        return {'r+': lambda: n + A[0], '+': lambda: A[0] + n, 'r*': lambda: n * A[0], '*': lambda: A[0] * n,
                'r-': lambda: n - A[0], '-': lambda: A[0] - n, 'r/': lambda: n / A[0], '/': lambda: A[0] / n,
                '**': lambda: A[0] ** n, 'r**': lambda: n ** A[0], '<': lambda: A[0] < n, 'r<': lambda: n < A[0]}[o]()
    if k == 'not':
        return sym.logical_not(A[0])
    return record_sym.apply_op(op, A, {})


class Shapes:
    """Structure of an expression, from its kind, its operands and the text of its leaves; interned without
    relying on what the library calls identical or on its hashes."""

    def __init__(self):
        self.table = {}
        self.budget = 60000

    def intern(self, key):
        return self.table.setdefault(key, len(self.table) + 1)

    def of(self, e):
        """(shape, opaque, has floats)"""
        self.budget -= 1
        if self.budget < 0:
            raise MemoryError
        t = e.type_name
        if isinstance(e, sym.MatrixExpr):
            ch = [self.of(x) for row in e.to_list() for x in row]
            return self.join((t, e.shape), ch)
        if t == 'FloatConstant':
            x = e.eval()
            return self.intern((t, (x + 0.0).hex() if x == x else 'nan')), 0, 1
        if t in ('FunctionArgumentVariable', 'CompoundExpressionElement'):
            return self.intern((t, text(e))), 1, 0
        args = e.args if t != 'BooleanConstant' else ()
        if not args:
            return self.intern((t, e.expression_tree_str())), 0, 0
        ch = [self.of(x) for x in args]
        return self.join((t, e.expression_tree_str().split('\n')[0]), ch)

    def join(self, head, ch):
        return self.intern((head, tuple(c[0] for c in ch))), max(c[1] for c in ch), max(c[2] for c in ch)


TEXT = 200


def text(e):
    try:
        return str(e)[:TEXT]
    except Exception as x:
        return f'<{type(x).__name__}>'


def sort_of(e):
    return {'Expr': 's', 'BooleanExpr': 'b', 'MatrixExpr': 'm'}[type(e).__name__]


def run(plan, progress):
    sh = Shapes()
    heap, steps, fl = [], [], []
    for i, op in enumerate(plan['ops']):
        os.write(progress, f"{plan['id']} {i}\n".encode())
        n = i + 1
        st = dict(k=op['k'], v=op.get('v', ''), alt=op.get('alt', 0), a=op['a'], sort='', inf=0, shape=0, opaque=0, exact=0,
                  pure=0 if op['k'] == 'uniq' else 1, hash='', eqr=[0] * n, eql=[0] * n, cmp=[0] * n, cmpl=[0] * n, ordered=0, err='', text='')
        A = [heap[j - 1] for j in op['a']]
        e = None
        if any(x is None for x in A):
            st['err'] = 'operand'
        else:
            try:
                e = build(op, A)
                if not isinstance(e, (sym.Expr, sym.BooleanExpr, sym.MatrixExpr)):
                    e = sym.Expr(e)
                shape = sh.of(e)
            except MemoryError:
                break
            except Exception as x:
                st['err'], e, shape = classify(x), None, None
        heap.append(e)
        steps.append(st)
        if e is None:
            fl.append(1)
            continue
        fl.append(shape[2])
        st['sort'] = sort_of(e)
        st['shape'], st['opaque'] = shape[0], shape[1]
        st['exact'] = int(not shape[2] and not any(fl[j - 1] for j in op['a']))
        st['inf'] = int(any('zoo' in text(heap[j - 1]) or 'nan' in text(heap[j - 1]) for j in op['a']))
        st['hash'] = str(hash(e))
        if op['k'] == 'deriv' and 'Subs(' in text(e):
            st['pure'] = 0      # bound variables are fresh
        st['ordered'] = int(st['sort'] == 's')
        st['text'] = text(e)
        for j, o in enumerate(heap):
            if o is None or sort_of(o) != st['sort']:
                continue
            st['eqr'][j] = int(bool(e.is_identical_to(o)))
            st['eql'][j] = int(bool(o.is_identical_to(e)))
            if st['ordered']:
                st['cmp'][j] = sym.compare(e, o)
                st['cmpl'][j] = sym.compare(o, e)
    return dict(id=plan['id'], steps=steps)


def main():
    plans, out, prog = sys.argv[1:4]
    progress = os.open(prog, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
    with open(out, 'w') as f:
        for line in open(plans):
            f.write(json.dumps(run(json.loads(line), progress)) + '\n')
            f.flush()


if __name__ == '__main__':
    main()
