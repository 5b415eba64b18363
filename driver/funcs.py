"""Realize a function plan (gen_func.py) with the real library: a symbolic Python function with annotated
arguments, its description, and a table that reads the library's leaves back as element paths.
Runs inside the wrenfold venv."""
import dataclasses
import re
from fractions import Fraction
from typing import Annotated

import gen_func as GF
import record_sym
import wfdump
from wfdump import Dumper, node
from wrenfold import sym, type_annotations as ta
from wrenfold.code_generation import OutputArg, ReturnValue, create_function_description
from wrenfold.external_functions import declare_external_function

PY = {}


def pytype(t):
    if t == 's':
        return ta.FloatScalar
    if t == 'i':
        return ta.IntScalar
    if isinstance(t, (list, tuple)):
        return Annotated[sym.MatrixExpr, ta.Shape(rows=t[0], cols=t[1])]
    if t not in PY:
        if not GF.TYPES[t]:
            PY[t] = type(t, (ta.Opaque,), {})
        else:
            PY[t] = dataclasses.make_dataclass(t, [(n, pytype(ft)) for n, ft in GF.TYPES[t]])
    return PY[t]


_EXT = {}


def external(name):
    if name not in _EXT:
        ats, rt = GF.EXTERNALS[name]
        _EXT[name] = declare_external_function(name, [(n, pytype(t)) for n, t in ats], pytype(rt))
    return _EXT[name]


def elements(t, obj, prefix=''):
    """Scalar elements of an argument object, by path."""
    if t in ('s', 'i'):
        return [(prefix, obj)]
    if isinstance(t, (list, tuple)):
        return [(f'{prefix}[{r},{c}]', obj[r, c]) for r in range(t[0]) for c in range(t[1])]
    out = []
    for n, ft in GF.TYPES[t]:
        out += elements(ft, getattr(obj, n), f'{prefix}.{n}')
    return out


def build(t, it):
    """Object of type t from an iterator over its scalar elements."""
    if t in ('s', 'i'):
        return next(it)
    if isinstance(t, (list, tuple)):
        return sym.matrix([[next(it) for _ in range(t[1])] for _ in range(t[0])])
    return pytype(t)(**{n: build(ft, it) for n, ft in GF.TYPES[t]})


class FuncDumper(Dumper):
    """Leaves are element paths of the arguments; elements of external results are known by identity."""

    def __init__(self, names, **kw):
        super().__init__(**kw)
        self.names = names      # text -> path
        self.exts = []          # (expr, 'name#i', arg ids)

    def _dump(self, e):
        t = e.type_name
        if t == 'CompoundExpressionElement':
            for other, label, ids in self.exts:
                if other.is_identical_to(e):
                    return self._emit(node('ext', ids, label))
        if t in ('FunctionArgumentVariable', 'CompoundExpressionElement'):
            s = str(e)
            if s in self.names:
                return self._emit(node('var', v=self.names[s]))
            raise wfdump.DumpError('unknown leaf ' + s)
        if t == 'FloatConstant':
            x = e.eval()
            return self._emit(node('num', v=simple(x)))
        return super()._dump(e)


def simple(x):
    """The simplest rational that rounds to the double x (decimal and rational constants are meant)."""
    f = Fraction(x).limit_denominator(10 ** 7)
    return wfdump.frac_str(f if float(f) == x else Fraction(x))


class Realized:
    pass


def realize(plan, dump=True):
    """Invoke the plan as a symbolic function.  Returns description, DAG nodes, outputs, ..."""
    R = Realized()
    R.names = {}
    args = plan['args']
    state = {}

    def body(**kw):
        heap, extkeep = [], []
        objs = {}
        for a in args:
            o = kw[a['n']]
            if a['t'] == 'Table':
                state['table'] = o
                continue
            for path, e in elements(a['t'], o, a['n']):
                objs[path] = e
                R.names[str(e)] = path
        for op in plan['ops']:
            A = [heap[j - 1] for j in op['a']]
            if op['k'] == 'in':
                heap.append(objs[op['v']])
            elif op['k'] == 'ext':
                name, i = op['v'].split('#')
                ats, rt = GF.EXTERNALS[name]
                it = iter(A)
                ca = [state['table'] if t == 'Table' else build(t, it) for _, t in ats]
                res = external(name)(*ca)
                e = elements(rt, res)[int(i)][1]
                extkeep.append((e, op['v'], A))
                heap.append(e)
            else:
                heap.append(record_sym.apply_op(op, A, {}))
        state['heap'], state['ext'] = heap, extkeep
        outs = []
        for o in plan['outs']:
            obj = build(o['t'], iter([heap[i - 1] for i in o['e']]))
            outs.append(ReturnValue(obj) if o['u'] == 'ret'
                        else OutputArg(obj, name=o['n'], is_optional=o['u'] == 'opt'))
        return outs

    src = f"def {plan.get('name', 'fn')}({', '.join(a['n'] for a in args)}):\n    return _body(" + \
          ', '.join(f"{a['n']}={a['n']}" for a in args) + ')\n'
    ns = dict(_body=body)
    exec(src, ns)
    fn = ns[plan.get('name', 'fn')]
    fn.__annotations__ = {a['n']: pytype(a['t']) for a in args}
    R.func = fn
    R.desc = create_function_description(fn)
    R.heap = state['heap']
    if dump:
        d = FuncDumper(R.names, max_nodes=plan.get('max_nodes', 1500))
        for e, label, A in state['ext']:
            ids = [d.dump(x if isinstance(x, sym.Expr) else sym.Expr(x)) for x in A]
            if label.startswith('ext_t#'):
                tn = next(a['n'] for a in args if a['t'] == 'Table')
                ids = [d._emit(node('var', v=tn))] + ids
            d.exts.append((e, label, ids))
        R.outs = []
        for o in plan['outs']:
            roots = [d.dump(R.heap[i - 1]) for i in o['e']]
            R.outs.append(dict(u=o['u'], n=o['n'], r=roots,
                               x=[p for p, _ in GF.leaves(o['t'])], t=[nt for _, nt in GF.leaves(o['t'])]))
        R.nodes = d.nodes
        R.dumper = d
    return R
