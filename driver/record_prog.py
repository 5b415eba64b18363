"""Transpile user functions with the real library and record the generated programs (statements and
expressions of the syntax tree) next to the meaning of the user's outputs.
usage: record_prog.py PLANS OUT PROGRESS"""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(__file__))
import funcs
import gen_func as GF
import wfdump
from wfdump import node
from wrenfold import ast
from wrenfold.code_generation import OptimizationParams, transpile
from wrenfold.type_info import NumericType

NT = {NumericType.Bool: 'bool', NumericType.Integer: 'int', NumericType.Float: 'float'}
STD = {'cos', 'sin', 'tan', 'acos', 'asin', 'atan', 'cosh', 'sinh', 'tanh', 'acosh', 'asinh', 'atanh', 'log', 'exp',
       'sqrt', 'abs'}


class Bad(Exception):
    """The syntax tree is not of a recognisable form."""


def type_leaves(t):
    """Element suffixes and numeric types of an AST type."""
    n = type(t).__name__
    if n == 'ScalarType':
        return [('', NT[t.numeric_type])]
    if n == 'MatrixType':
        return [(f'[{r},{c}]', 'float') for r in range(t.rows) for c in range(t.cols)]
    if n == 'CustomType':
        return [(f'.{f.name}{s}', nt) for f in t.fields for s, nt in type_leaves(f.type)]
    raise Bad('type ' + n)


class Prog:
    def __init__(self, opaque):
        self.blocks = []
        self.opaque = opaque   # names of opaque arguments

    def stmt(self, s, n='', x=(), t=(), r=(), e=(), b1=0, b2=0):
        return dict(s=s, n=n, x=list(x), t=list(t), r=list(r), e=list(e), b1=b1, b2=b2)

    def block(self, seq):
        i = len(self.blocks)
        self.blocks.append([])
        out = []
        for x in seq:
            st = self.statement(x)
            if st is not None:
                out.append(st)
        self.blocks[i] = out
        return i + 1

    def statement(self, x):
        k = type(x).__name__
        if k == 'Comment':
            return None
        if k == 'Declaration':
            tl = type_leaves(x.type)
            names = ['%' + x.name + s for s, _ in tl]
            types = [nt for _, nt in tl]
            if x.value is None:
                return self.stmt('decl', x.name, names, types)
            e = []
            v = self.expr(x.value, e)
            return self.stmt('set', x.name, names, types, self.roots(v, [s for s, _ in tl]), e)
        if k == 'AssignTemporary':
            e = []
            v = self.expr(x.right, e)
            names = list(v)
            return self.stmt('assign', x.left, ['%' + x.left + s for s in names], ['' for _ in names],
                             [v[s] for s in names], e)
        if k == 'Branch':
            e = []
            v = self.expr(x.condition, e)
            return self.stmt('branch', '', r=self.roots(v, ['']), e=e, b1=self.block(x.if_branch),
                             b2=self.block(x.else_branch))
        if k == 'OptionalOutputBranch':
            return self.stmt('opt', x.argument.name, b1=self.block(x.statements))
        if k in ('AssignOutputScalar', 'AssignOutputMatrix', 'AssignOutputStruct', 'ReturnObject'):
            e = []
            v = self.expr(x.value, e)
            return self.stmt('ret' if k == 'ReturnObject' else 'out', '' if k == 'ReturnObject' else x.arg.name,
                             x=list(v), r=list(v.values()), e=e)
        raise Bad('statement ' + k)

    @staticmethod
    def roots(v, suffixes):
        if set(v) != set(suffixes):
            raise Bad(f'shape of value {sorted(v)} differs from declared {sorted(suffixes)}')
        return [v[s] for s in suffixes]

    def expr(self, x, e):
        """Append nodes of x to e; returns {element suffix: node index}."""
        k = type(x).__name__

        def emit(kind, a=(), v=''):
            e.append(node(kind, a, v))
            return {'': len(e)}

        def sc(y):
            v = self.expr(y, e)
            if set(v) != {''}:
                raise Bad('scalar expected in ' + k)
            return v['']
        if k == 'GetArgument':
            a = x.argument
            if a.name in self.opaque:
                return emit('var', v=a.name)
            out = {}
            for s, _ in type_leaves(a.type):
                out[s] = emit('var', v=a.name + s)['']
            return out
        if k == 'VariableRef':
            return {s: emit('var', v='%' + x.name + s)[''] for s in self.declared(x.name)}
        if k == 'GetMatrixElement':
            v = self.expr(x.arg, e)
            key = f'[{x.row},{x.col}]'
            if key not in v:
                raise Bad(f'element {key} of {sorted(v)}')
            return {'': v[key]}
        if k == 'GetField':
            v = self.expr(x.arg, e)
            pre = '.' + x.field_name
            sub = {s[len(pre):]: i for s, i in v.items() if s.startswith(pre) and s[len(pre):][:1] in ('', '.', '[')}
            if not sub:
                raise Bad(f'field {pre} of {sorted(v)}')
            return sub
        if k == 'ConstructMatrix':
            args = [sc(a) for a in x.args]
            keys = [s for s, _ in type_leaves(x.type)]
            if len(args) != len(keys):
                raise Bad('matrix of the wrong size')
            return dict(zip(keys, args))
        if k == 'ConstructCustomType':
            out = {}
            for f in x.type.fields:
                y = x.get_field_value(f.name)
                if y is None:
                    raise Bad('missing field ' + f.name)
                v = self.expr(y, e)
                if set(v) != {s for s, _ in type_leaves(f.type)}:
                    raise Bad('field of the wrong type: ' + f.name)
                out.update({f'.{f.name}{s}': v[s] for s, _ in type_leaves(f.type)})
            return out
        if k == 'CallExternalFunction':
            ids = []
            for arg, decl in zip(x.args, x.function.arguments, strict=True):
                v = self.expr(arg, e)
                tl = [s for s, _ in type_leaves(decl.type)] or ['']
                ids += self.roots(v, tl)
            return {s: emit('ext', ids, f'{x.function.name}#{i}')['']
                    for i, (s, _) in enumerate(type_leaves(x.function.return_type))}
        if k == 'CallStdFunction':
            f = x.function.name if hasattr(x.function, 'name') else str(x.function).split('.')[-1]
            f = f.lower()
            args = [sc(a) for a in x.args]
            if f in STD:
                return emit('fn', args, f)
            if f in ('signum',):
                return emit('sign', args)
            if f in ('floor', 'atan2'):
                return emit(f, args)
            if f in ('powi', 'powf', 'pow'):
                return emit('pow', args, f)
            raise Bad('function ' + f)
        if k == 'Cast':
            return emit('cast', [sc(x.arg)], NT[x.destination_type])
        if k == 'Compare':
            op = {'<': 'lt', '<=': 'le', '==': 'eq'}[relop(x)]
            return emit(op, [sc(x.left), sc(x.right)])
        if k == 'Ternary':
            return emit('where', [sc(x.condition), sc(x.left), sc(x.right)])
        if k == 'Add':
            return emit('add', [sc(a) for a in x.args])
        if k == 'Multiply':
            return emit('mul', [sc(a) for a in x.args])
        if k == 'Divide':
            return emit('div', [sc(x.left), sc(x.right)])
        if k == 'Negate':
            return emit('neg', [sc(x.arg)])
        if k == 'Parenthetical':
            return self.expr(x.contents, e)
        if k == 'IntegerLiteral':
            return emit('num', v=str(x.value), a=())
        if k == 'FloatLiteral':
            r = emit('num', v=funcs.simple(x.value))
            e[-1]['k'] = 'fnum'
            return r
        if k == 'SpecialConstant':
            n = str(x.value).split('.')[-1].lower()
            return emit('const', v='pi' if n == 'pi' else 'e')
        if k == 'BooleanLiteral':
            return emit('true' if x.value else 'false')
        raise Bad('expression ' + k)

    def declared(self, name):
        if name not in self.shapes:
            raise Bad(f'variable {name} is not declared anywhere')
        return self.shapes[name]


def relop(x):
    n = str(x.operation).split('.')[-1].lower()
    return {'lessthan': '<', 'less_than': '<', 'lessthanorequal': '<=', 'less_than_or_equal': '<=',
            'lessthanorequalto': '<=', 'less_than_or_equal_to': '<=', 'equal': '=='}[n]


def collect_shapes(seq, shapes):
    for x in seq:
        k = type(x).__name__
        if k == 'Declaration':
            shapes[x.name] = [s for s, _ in type_leaves(x.type)]
        elif k == 'Branch':
            collect_shapes(x.if_branch, shapes)
            collect_shapes(x.else_branch, shapes)
        elif k == 'OptionalOutputBranch':
            collect_shapes(x.statements, shapes)


def record(plan):
    R = funcs.realize(plan)
    o = plan['opt']
    params = OptimizationParams()
    params.factorization_passes = o['fact']
    params.binarize_operations = bool(o['bin'])
    err = ''
    prog = Prog({a['n'] for a in plan['args'] if a['t'] == 'Table'})
    try:
        definition = transpile(R.desc, optimization_params=params, convert_ternaries=bool(o['tern']))
    except Exception as e:
        if 'UndefinedExpression' in str(e) or 'containing' in str(e):   # no code for infinities, ...
            return None
        raise
    try:
        prog.shapes = {}
        collect_shapes(definition.body, prog.shapes)
        prog.block(definition.body)
    except Bad as e:
        err = str(e)
    atype, xtype = {}, {}
    for a in plan['args']:
        if a['t'] == 'Table':
            atype[a['n']] = 'opaque'
        for path, nt in GF.leaves(a['t'], a['n']):
            atype[path] = 'int' if nt == 'i' else 'float'
    for n, (_, rt) in GF.EXTERNALS.items():
        for i, (_, nt) in enumerate(GF.leaves(rt)):
            xtype[f'{n}#{i}'] = 'int' if nt == 'i' else 'float'
    outs = [dict(u=x['u'], n=x['n'], r=x['r'], x=x['x'], t=['int' if t == 'i' else 'float' for t in x['t']])
            for x in R.outs]
    return dict(id=plan['id'], env=[dict(e, **{'#ro': 'F', '#p': ''}) for e in plan['env']], atype=atype, xtype=xtype,
                digits=9, nodes=R.nodes, outs=outs, opts=[x['n'] for x in outs if x['u'] == 'opt'], blocks=prog.blocks, err=err)


def main():
    plans, out, prog = sys.argv[1:4]
    progress = os.open(prog, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
    with open(out, 'w') as f:
        for line in open(plans):
            plan = json.loads(line)
            os.write(progress, f"{plan['id']} 0\n".encode())
            try:
                t = record(plan)
            except wfdump.DumpError:
                t = None
            except Exception as e:
                if classify_ok(e):
                    t = None
                else:
                    t = dict(id=plan['id'], raised=f'{type(e).__name__}: {str(e)[:300]}')
            f.write((json.dumps(t) if t else '') + '\n')
            f.flush()


def classify_ok(e):
    """Refusals the interface documents: exact overflow, expressions without code (infinities, ...)."""
    n = type(e).__name__
    return ('Arith' in n or 'Overflow' in n or 'Cannot generate code' in str(e) or
            ('Cannot construct relational' in str(e) and 'ComplexInfinity' in str(e)))


if __name__ == '__main__':
    main()
