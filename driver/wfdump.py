"""Read a wrenfold expression back through the public Python interface (type_name, args, text of
leaves) into the node language of spec/Sem.tla.  Runs inside the wrenfold venv."""
import re
from fractions import Fraction
from wrenfold import sym

FN = {'cos', 'sin', 'tan', 'acos', 'asin', 'atan', 'cosh', 'sinh', 'tanh', 'acosh', 'asinh', 'atanh',
      'log', 'exp', 'abs'}


def frac_str(x):
    f = Fraction(x)
    return str(f.numerator) if f.denominator == 1 else f"{f.numerator}/{f.denominator}"


def node(k, a=(), v=''):
    return dict(k=k, a=list(a), v=v)


class DumpError(Exception):
    pass


def rel_op(text, l, r):
    lt, rt = str(l), str(r)
    for left in (lt, '(' + lt + ')'):
        if text.startswith(left + ' '):
            rest = text[len(left) + 1:]
            m = re.match(r'(<=|<|==) ', rest)
            if m and rest[m.end():] in (rt, '(' + rt + ')'):
                return {'<': 'lt', '<=': 'le', '==': 'eq'}[m.group(1)]
    # fall back on rebuilding the relation
    for name, f in (('lt', sym.lt), ('le', sym.le), ('eq', sym.eq)):
        try:
            if f(l, r).is_identical_to_text if False else str(f(l, r)) == text:
                return name
        except Exception:
            pass
    raise DumpError(f"cannot read relation: {text}")


class Dumper:
    """Dumps expressions into one growing node list; structurally identical sub-expressions (of the
    same Python-visible identity) share a node."""

    def __init__(self, max_nodes=4000):
        self.nodes = []
        self.memo = {}
        self.keep = []
        self.floats = False
        self.max_nodes = max_nodes

    def _emit(self, n):
        if len(self.nodes) >= self.max_nodes:
            raise DumpError('too many nodes')
        self.nodes.append(n)
        return len(self.nodes)

    def _key(self, e):
        # bucket by hash; confirm with is_identical_to
        h = hash(e)
        for other, idx in self.memo.get(h, ()):
            if type(other) is type(e) and other.is_identical_to(e) \
                    and other.type_name == e.type_name and str(other) == str(e):
                return h, idx
        return h, None

    def dump(self, e):
        h, idx = self._key(e)
        if idx is not None:
            return idx
        idx = self._dump(e)
        self.memo.setdefault(h, []).append((e, idx))
        return idx

    def _dump(self, e):
        t = e.type_name
        if t == 'IntegerConstant':
            return self._emit(node('num', v=str(e)))
        if t == 'RationalConstant':
            return self._emit(node('num', v=str(e)))
        if t == 'FloatConstant':
            self.floats = True
            x = e.eval()
            if x != x or x in (float('inf'), float('-inf')):
                return self._emit(node('nan'))
            return self._emit(node('num', v=frac_str(x)))
        if t in ('Variable', 'UniqueVariable', 'FunctionArgumentVariable'):
            return self._emit(node('var', v=str(e)))
        if t == 'SymbolicConstant':
            return self._emit(node('const', v={'pi': 'pi', 'E': 'e', 'e': 'e'}[str(e)]))
        if t == 'ImaginaryUnit':
            return self._emit(node('const', v='i'))
        if t == 'ComplexInfinity':
            return self._emit(node('zoo'))
        if t == 'Undefined':
            return self._emit(node('nan'))
        if t == 'BooleanConstant':
            return self._emit(node('true' if str(e) in ('True', 'true') else 'false'))
        args = e.args
        if t == 'Relational':
            op = rel_op(str(e), args[0], args[1])
            return self._emit(node(op, [self.dump(a) for a in args]))
        if t == 'BuiltInFunctionInvocation':
            name = re.match(r'(\w+)\(', str(e)).group(1)
            ids = [self.dump(a) for a in args]
            if name in FN:
                return self._emit(node('fn', ids, name))
            if name in ('sign', 'signum'):
                return self._emit(node('sign', ids))
            if name in ('floor', 'atan2'):
                return self._emit(node(name, ids))
            raise DumpError('function ' + name)
        if t == 'SymbolicFunctionInvocation':
            name = re.match(r'(\w+)\(', str(e)).group(1)
            return self._emit(node('call', [self.dump(a) for a in args], name))
        if t == 'Derivative':
            m = re.search(r', (\d+)\)$', str(e))
            order = '1'
            if m and str(e) == f"Derivative({args[0]}, {args[1]}, {m.group(1)})":
                order = m.group(1)
            return self._emit(node('deriv', [self.dump(args[0]), self.dump(args[1])], order))
        if t == 'Substitution':
            return self._emit(node('subst', [self.dump(a) for a in args]))
        kind = {'Addition': 'add', 'Multiplication': 'mul', 'Power': 'pow', 'Conditional': 'where',
                'IversonBracket': 'iverson', 'Unevaluated': 'uneval', 'StopDerivative': 'stopd'}.get(t)
        if kind is None:
            raise DumpError('unsupported kind ' + t)
        return self._emit(node(kind, [self.dump(a) for a in args]))
