"""Print expressions of many kinds with the real library; record their text and tree forms, split into tokens, next
to the expressions themselves.  usage: record_read.py PLANS OUT PROGRESS"""
import json
import os
import re
import sys
import zlib
from fractions import Fraction

sys.path.insert(0, os.path.dirname(__file__))
import gen_func as GF
import record_order as RO
import wfdump
from record_sym import classify
from wfdump import Dumper, DumpError, frac_str, node
from wrenfold import sym

TOKEN = re.compile(r'\s*(?:(\d+(?:\.\d+)?(?:e[+-]?\d+)?)|([$A-Za-z_][\w$]*)(\()?|(\.)([A-Za-z_]\w*)|(\*\*|<=|==|[-+*/<>])|([()\[\],]))')
EXT_PATHS = {n: [p.replace(', ', ',') for p, _ in GF.leaves(rt)] for n, (_, rt) in GF.EXTERNALS.items()}


def lex(s):
    out, i = [], 0
    s = s.rstrip()
    while i < len(s):
        m = TOKEN.match(s, i)
        if not m:
            return out + [dict(t='bad', v=s[i])]
        i = m.end()
        num, name, call, dot, field, op, punct = m.groups()
        if num:
            out.append(dict(t='num', v=frac_str(Fraction(float(num))) if re.search('[.e]', num) else num))
        elif name:
            out.append(dict(t='call' if call else 'name', v=name))
        elif dot:
            out.append(dict(t='field', v=field))
        elif op:
            out.append(dict(t='op', v=op))
        else:
            out.append(dict(t=punct, v=''))
    return out


SHORT = {'Addition': 'add', 'Multiplication': 'mul'}
SEG = {'│  ': 'bar', '   ': 'gap', '├─ ': 'tee', '└─ ': 'end'}


def lex_tree(s, fargs, keep):
    out = []
    for line in s.split('\n'):
        c = []
        while line[:3] in SEG:
            c.append(SEG[line[:3]])
            line = line[3:]
        m = re.match(r'(\w+)(?: \((.*)\))?:?$', line)
        if not m:
            out.append(dict(d=len(c), c=c, k='?', v=line))
            continue
        k, v = m.group(1), m.group(2) or ''
        if k == 'RationalConstant':
            v = v.replace(' / ', '/')
        elif k == 'FloatConstant':
            v = frac_str(Fraction(float(v)))
        elif k == 'UniqueVariable':
            v = '$u_' + v.split(',')[0] if not keep else v.replace(v.split(',')[0], '$u_' + v.split(',')[0], 1)
        elif k == 'Variable' and not keep:
            v = v.rsplit(', ', 1)[0]
        elif k == 'FunctionArgumentVariable':
            q = re.match(r'(\w+)\[(\d+)\]: (\w+)$', v)
            v = fargs.get((q.group(1), int(q.group(2)), q.group(3)), '?' + v) if q else '?' + v
        elif k == 'Derivative':
            v = v.replace('order = ', '')
        elif k == 'CompoundExpressionElement':
            v = v.replace('index = ', '')
        elif k == 'ExternalFunctionInvocation':
            v = v.replace('function = ', '').strip('`')
        out.append(dict(d=len(c), c=c, k=SHORT.get(k, k), v=v))
    return out


class ReadDumper(Dumper):
    """Two node tables at once: meaning (operators by what they do) and structure (operators by kind)."""

    def __init__(self, paths, exts):
        super().__init__(max_nodes=160)
        self.paths, self.exts = paths, exts

    def _dump(self, e):
        t = e.type_name
        if t == 'FunctionArgumentVariable':
            for o, p, _, _ in self.paths:
                if o.is_identical_to(e) and str(o) == str(e):
                    return self._emit(node('var', v=p.replace(', ', ',')))
            raise DumpError('unknown argument')
        if t == 'CompoundExpressionElement':
            for o, name, i, args in self.exts:
                if o.is_identical_to(e):
                    return self._emit(node('ext', [self.any(a) for a in args], f'{name}#{EXT_PATHS[name][i]}'))
            for o, p, _, _ in self.paths:
                if o.is_identical_to(e):
                    return self._emit(node('var', v=p.replace(', ', ',')))
            raise DumpError('unknown element')
        return super()._dump(e)

    def any(self, a):
        if isinstance(a, sym.MatrixExpr):
            rows = [self._emit(node('list', [self.dump(x) for x in r])) for r in a.to_list()]
            return self._emit(node('list', rows))
        return self.dump(a if isinstance(a, sym.Expr) else sym.Expr(a))


class Structure:
    def __init__(self, paths, exts):
        self.nodes, self.paths, self.exts = [], paths, exts

    def emit(self, k, a=(), v=''):
        if len(self.nodes) > 200:
            raise DumpError('too many nodes')
        self.nodes.append(node(k, a, v))
        return len(self.nodes)

    def of(self, e):
        if isinstance(e, sym.MatrixExpr):
            r, c = e.shape
            return self.emit('Matrix', [self.of(x) for row in e.to_list() for x in row], f'{r}, {c}')
        if not isinstance(e, (sym.Expr, sym.BooleanExpr)):
            e = sym.Expr(e)
        t = e.type_name
        k = SHORT.get(t, t)
        if t in ('IntegerConstant', 'RationalConstant', 'Variable', 'UniqueVariable', 'SymbolicConstant'):
            v = {'E': 'E'}.get(str(e), str(e))
            return self.emit(k, v=v)
        if t == 'FloatConstant':
            return self.emit(k, v=frac_str(Fraction(e.eval())))
        if t == 'BooleanConstant':
            return self.emit(k, v='true' if str(e) == 'True' else 'false')
        if t in ('ImaginaryUnit', 'ComplexInfinity', 'Undefined'):
            return self.emit(k)
        if t == 'FunctionArgumentVariable':
            for o, p, _, _ in self.paths:
                if o.is_identical_to(e) and str(o) == str(e):
                    return self.emit(k, v=p)
            raise DumpError('unknown argument')
        if t == 'CompoundExpressionElement':
            for o, name, i, args in self.exts:
                if o.is_identical_to(e):
                    inv = self.emit('ExternalFunctionInvocation', [self.of(a) for a in args], name)
                    return self.emit(k, [inv], str(i))
            for o, p, owner, i in self.paths:
                if o.is_identical_to(e):
                    return self.emit(k, [self.emit('CustomTypeArgument', v=owner)], str(i))
            raise DumpError('unknown element')
        v = ''
        if t in ('BuiltInFunctionInvocation', 'SymbolicFunctionInvocation'):
            v = re.match(r'(\w+)\(', str(e)).group(1)
        elif t == 'Relational':
            v = {'lt': '<', 'le': '<=', 'eq': '=='}[wfdump.rel_op(str(e), *e.args)]
        elif t == 'Derivative':
            m = re.search(r', (\d+)\)$', str(e))
            v = m.group(1) if m and str(e) == f"Derivative({e.args[0]}, {e.args[1]}, {m.group(1)})" else '1'
        return self.emit(k, [self.of(x) for x in e.args], v)


def weight(name, salt):
    h = zlib.crc32(f'{salt}:{name}'.encode())
    return frac_str(Fraction(h % 1999 + 300, 977) * (-1 if h >> 20 & 1 else 1))


def run(plan, progress):
    heap, items, exts = [], [], []
    paths, fargs = [], {}
    for i, op in enumerate(plan['ops']):
        os.write(progress, f"{plan['id']} {i}\n".encode())
        A = [heap[j - 1] for j in op['a']]
        if any(x is None for x in A):
            heap.append(None)
            continue
        try:
            e = RO.build(op, A)
            if not isinstance(e, (sym.Expr, sym.BooleanExpr, sym.MatrixExpr)):
                e = sym.Expr(e)
        except Exception:
            heap.append(None)
            continue
        heap.append(e)
        if op['k'] == 'farg':
            layout, path = json.loads(op['v'])
            for n, t in layout:
                for q, (p, nt) in enumerate(GF.leaves(t, n)):
                    if p == path:
                        paths.append((e, path, f'{n}: {t}', q))
                    fargs[n, q, 'floating_point' if nt == 's' else 'integral'] = p
        if op['k'] == 'ext':
            name, ix = op['v'].split('#')
            it = iter(A)
            ca = [RO.funcs.build(t, it) for _, t in GF.EXTERNALS[name][0]]
            exts.append((e, name, int(ix), ca))
        item = dict(id=f"{plan['id']}.{i + 1}", raised='')
        try:
            text, tree = str(e), e.expression_tree_str()
        except Exception as x:
            items.append(dict(item, raised=f'{type(x).__name__}: {str(x)[:200]}'))
            continue
        try:
            d, s = ReadDumper(paths, exts), Structure(paths, exts)
            m = isinstance(e, sym.MatrixExpr)
            roots = [d.dump(x) for row in e.to_list() for x in row] if m else [d.dump(e)]
            s.of(e)
        except DumpError:
            continue
        keep = op['k'] in ('var', 'uniq') and e.type_name in ('Variable', 'UniqueVariable')
        if keep:
            st = op['v'].split(':')[-1]
            st = dict(positive='real_positive', nonnegative='real_non_negative').get(st, st)
            s.nodes[-1]['v'] += ', ' + st
        toks = lex(text)
        if len(toks) > 220:
            continue
        names = {n['v'] for n in d.nodes if n['k'] == 'var'} | {'zoo', 'nan', 'True', 'False'}
        heads = {n['v'] for n in d.nodes if n['k'] in ('fn', 'call', 'ext')} | {t['v'] for t in toks if t['t'] == 'call'} | \
            {n['k'] for n in d.nodes} | {'<', '<=', '==', 'Derivative', 'Subs', 'StopDerivative', 'list'}
        items.append(dict(item, text=text, nodes=d.nodes, roots=roots, snodes=s.nodes, toks=toks,
                          tree=lex_tree(tree, fargs, keep), sort=RO.sort_of(e), rows=e.shape[0] if m else 1, cols=e.shape[1] if m else 1,
                          externals=sorted(EXT_PATHS), heads={h: weight(h, 'h') for h in heads},
                          env=[{n: weight(n, q) for n in names} for q in (1, 2)]))
    return items


def main():
    plans, out, prog = sys.argv[1:4]
    progress = os.open(prog, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
    with open(out, 'w') as f:
        for line in open(plans):
            f.write(json.dumps(dict(id=json.loads(line)['id'], items=run(json.loads(line), progress))) + '\n')
            f.flush()


if __name__ == '__main__':
    main()
