"""Print generated programs with user-defined printers and record what they are handed and what is emitted.
usage: record_print.py PLANS OUT PROGRESS"""
import json
import os
import random
import re
import sys

sys.path.insert(0, os.path.dirname(__file__))
import funcs
import wfdump
from record_prog import classify_ok
from wrenfold import code_generation as cg, ast, type_info
from wrenfold.code_generation import OptimizationParams, transpile

O, S, C = '\x01', '\x02', '\x03'


def snake(name):
    return re.sub(r'(?<!^)([A-Z])', r'_\1', name).lower()


KINDS = ['add', 'assign_temporary', 'assign_output_matrix', 'assign_output_scalar', 'assign_output_struct', 'boolean_literal',
         'branch', 'call_external_function', 'call_std_function', 'cast', 'comment', 'compare', 'construct_custom_type',
         'construct_matrix', 'declaration', 'divide', 'float_literal', 'function_definition', 'function_signature',
         'get_argument', 'get_field', 'get_matrix_element', 'integer_literal', 'multiply', 'negate', 'optional_output_branch',
         'parenthetical', 'return_object', 'special_constant', 'ternary', 'variable_ref', 'custom_type', 'matrix_type',
         'scalar_type']


def enum(x):
    return str(x).split('.')[-1]


def parts(x):
    """Own description, types below, elements below."""
    k = type(x).__name__
    t, c, v = [], [], ''
    if k in ('Add', 'Multiply'):
        c = list(x.args)
    elif k == 'AssignTemporary':
        v, c = x.left, [x.right]
    elif k in ('AssignOutputMatrix', 'AssignOutputScalar', 'AssignOutputStruct'):
        v, c = x.arg.name, [x.value]
    elif k == 'BooleanLiteral':
        v = str(x.value)
    elif k == 'Branch':
        c = [x.condition] + list(x.if_branch) + list(x.else_branch)
        v = f'{len(x.if_branch)}/{len(x.else_branch)}'
    elif k == 'CallExternalFunction':
        v, c = x.function.name, list(x.args)
    elif k == 'CallStdFunction':
        v, c = enum(x.function), list(x.args)
    elif k == 'Cast':
        v, c = enum(x.destination_type), [x.arg]
    elif k == 'Comment':
        v = x.content
    elif k == 'Compare':
        v, c = enum(x.operation), [x.left, x.right]
    elif k == 'ConstructCustomType':
        t, c = [x.type], [x.get_field_value(f.name) for f in x.type.fields]
        v = x.type.name
    elif k == 'ConstructMatrix':
        t, c = [x.type], list(x.args)
        v = f'{x.type.rows}x{x.type.cols}'
    elif k == 'Declaration':
        v, t, c = x.name, [x.type], [] if x.value is None else [x.value]
    elif k in ('Divide',):
        c = [x.left, x.right]
    elif k in ('FloatLiteral', 'IntegerLiteral'):
        v = repr(x.value)
    elif k == 'FunctionDefinition':
        t, c = [x.signature], list(x.body)
    elif k == 'FunctionSignature':
        t = [a.type for a in x.arguments]
        c = [] if x.return_type is None else [x.return_type]
        v = x.name + '(' + ','.join(a.name + ':' + direction(a) for a in x.arguments) + ')'
    elif k == 'GetArgument':
        v = x.argument.name
    elif k == 'GetField':
        v, c = x.struct_type.name + '.' + x.field_name, [x.arg]
    elif k == 'GetMatrixElement':
        v, c = f'{x.row},{x.col}', [x.arg]
    elif k == 'Negate':
        c = [x.arg]
    elif k == 'OptionalOutputBranch':
        v, c = x.argument.name, list(x.statements)
    elif k == 'Parenthetical':
        c = [x.contents]
    elif k == 'ReturnObject':
        c = [x.value]
    elif k == 'SpecialConstant':
        v = enum(x.value)
    elif k == 'Ternary':
        c = [x.condition, x.left, x.right]
    elif k == 'VariableRef':
        v = x.name
    elif k == 'CustomType':
        v = x.name
    elif k == 'MatrixType':
        v = f'{x.rows}x{x.cols}'
    elif k == 'ScalarType':
        v = enum(x.numeric_type)
    else:
        raise RuntimeError('element ' + k)
    return v, t, c


def direction(a):
    return 'in' if a.is_input else 'opt' if a.is_optional else 'out'


def label(x):
    v, t, c = parts(x)
    return f'{snake(type(x).__name__)}:{v}:{len(t)}:{len(c)}'


def read_tree(x, nodes):
    v, t, c = parts(x)
    n = len(nodes)
    nodes.append(None)
    d = [direction(a) for a in x.arguments] if type(x).__name__ == 'FunctionSignature' else []
    me = dict(k=snake(type(x).__name__), v=v, l=label(x), d=d, t=[read_tree(y, nodes) for y in t],
              c=[read_tree(y, nodes) for y in c])
    me['key'] = me['l'] if me['k'] in ('custom_type', 'matrix_type', 'scalar_type') else str(n + 1)
    nodes[n] = me
    return n + 1


class Oops(Exception):
    pass


def method(kind):
    def f(self, element):
        mode = self.modes[kind]
        if mode == 'raise':
            raise Oops('stop ' + kind)
        if mode == 'bad':
            return 5
        if mode == 'loop':
            return self.format(element)
        head = O + label(element) + S
        if mode == 'replace':
            return head + '@' + C
        if mode == 'rebuild':
            _, t, c = parts(element)
            return head + '|'.join(self.format(y) for y in t + c) + C
        return head + self.super_format(element) + C
    f.__name__ = 'format_' + kind
    return f


T, W = cg.PythonGeneratorTarget, cg.PythonGeneratorFloatWidth
BASES = {
    'cppspan': (cg.CppGenerator, ()), 'cppeigen': (cg.CppGenerator, (cg.CppMatrixTypeBehavior.Eigen,)),
    'rust': (cg.RustGenerator, ()),
    'base': (cg.BaseGenerator, ()),
}


def base_of(lang, target, prec, indent):
    if lang in ('py', 'pyout'):
        return cg.PythonGenerator, (dict(numpy=T.NumPy, torch=T.PyTorch, jax=T.JAX)[target], W.Float64 if prec == '64' else W.Float32,
                                    indent, lang == 'pyout')
    return BASES[lang]


def tokens(text):
    """Marks, each with the text before it; indentation is not judged."""
    out, x = [], ''
    text = re.sub(r'\n +', '\n', text)
    for piece in re.split(r'(\x01[^\x02]*\x02|\x03)', text):
        if piece[:1] == O:
            out.append(dict(t='o', s=piece[1:-1], x=x))
            x = ''
        elif piece == C:
            out.append(dict(t='c', s='', x=x))
            x = ''
        else:
            x += piece
    out.append(dict(t='e', s='', x=x))
    return out


def learn_tokens(text):
    out = []
    for t in tokens(text):
        if t['x']:
            out.append(dict(t='x', s=t['x'], x=''))
        if t['t'] != 'e':
            out.append(dict(t=t['t'], s=t['s'], x=''))
    return out


def subclass(base, kinds, how):
    ns = {'format_' + k: method(k) for k in kinds}
    if how == 'flat':
        return type('Custom', (base,), ns)
    # half of the printers are inherited
    ks = sorted(kinds)
    mid = type('Mid', (base,), {'format_' + k: ns['format_' + k] for k in ks[::2]})
    return type('Custom', (mid,), {'format_' + k: ns['format_' + k] for k in ks[1::2]})


UNPRINTABLE = {'cppspan': ['matrix_type', 'construct_matrix'], 'rust': ['matrix_type', 'construct_matrix'],
               'py': ['return_object'], 'pyout': ['return_object'], 'cppeigen': [], 'base': KINDS}


def record(plan):
    R = funcs.realize(plan, dump=False)
    o = plan['opt']
    params = OptimizationParams()
    params.factorization_passes = o['fact']
    params.binarize_operations = bool(o['bin'])
    g = random.Random('print' + str(plan['id']))
    definition = transpile(R.desc, optimization_params=params, convert_ternaries=bool(o['tern']))
    nodes = []
    root = read_tree(definition, nodes)
    elements = []

    def collect(x):
        elements.append(x)
        _, t, c = parts(x)
        for y in t + c:
            collect(y)
    collect(definition)
    q = plan['printer']
    lang = q['lang']
    base, args = base_of(lang, q['target'], q['prec'], q['indent'])
    present = sorted({n['k'] for n in nodes})

    def show(gen, modes, roots, how):
        err, text = '', ''
        gen.modes = modes
        try:
            if how == 'generate' or (how == 'learn' and roots == [root]):
                text = gen.generate(definition)
                if how == 'learn' and 'function_definition' not in modes:
                    text = O + label(definition) + S + text + C
            elif how == 'twice':
                text = gen.generate([definition, definition])
            elif how == 'wrapper':
                text = cg.generate_function(R.func, gen, optimization_params=params, convert_ternaries=bool(o['tern']))
            else:
                text = gen.format(elements[roots[0] - 1])
        except Oops as e:
            err = 'Oops' if str(e)[:5] == 'stop ' and str(e)[5:] in modes else 'Oops with another text'
        except Exception as e:
            err = type(e).__name__; os.environ.get('PRDBG') and print(how, modes, str(e)[:600])
        return dict(how=how, roots=roots, ov=modes, err=err, toks=[] if err else (learn_tokens if how == 'learn' else tokens)(text)), text

    prints = []
    # there is no built-in printing of a whole definition that a user's printer could ask for
    all_modes = {k: 'rebuild' if k in UNPRINTABLE[lang] else 'wrap' for k in KINDS if lang == 'base' or k != 'function_definition'}
    first, text = show(subclass(base, list(all_modes), 'flat')(*args), all_modes, [root], 'learn')
    prints.append(first)
    if not first['err']:
        # what does not appear in the text of the function by itself
        done = set()
        for j, n in enumerate(nodes, 1):
            hidden = [c for c in n['c'] if n['k'] == 'assign_output_matrix'] if lang == 'cppeigen' else []
            if n['k'] in ('custom_type', 'matrix_type', 'scalar_type') and n['key'] not in done:
                done.add(n['key'])
                hidden = [j]
            for h in hidden:
                pr, _ = show(subclass(base, list(all_modes), 'flat')(*args), all_modes, [h], 'learn')
                prints.append(pr)
    bare = re.sub(r'\x01[^\x02]*\x02|\x03', '', text)
    plain = None
    if lang != 'base':
        try:
            plain = base(*args).generate(definition)
        except Exception as e:      # where the built-in printer cannot, Refused decides whether that is right
            if type(e).__name__ != 'TypeError':
                raise
            plain = None
        pr, _ = show(type('Empty', (base,), {})(*args), {}, [root], 'generate')
        prints.append(pr)
    live = []
    for j in range(q['n']):
        if live and g.random() < 0.4:
            gen, kinds = g.choice(live)        # the same printer again
        else:
            pool = present if g.random() < 0.8 else KINDS
            kinds = g.sample(pool, min(len(pool), g.choice([1, 1, 2, 3, 5, len(pool)])))
            if lang == 'base':
                kinds = [k for k in KINDS if g.random() < 0.97]
            gen = subclass(base, kinds, g.choice(['flat', 'flat', 'deep']))(*args)
            live.append((gen, kinds))
        w = g.random()
        ms = ['wrap', 'wrap', 'wrap', 'replace', 'rebuild'] if w < 0.7 else ['wrap'] if w < 0.85 else \
             ['wrap', 'rebuild', 'raise', 'bad', 'loop']
        if lang == 'base':
            ms = ['rebuild'] * 12 + ['replace'] if w < 0.85 else ['rebuild'] * 20 + ['raise', 'bad', 'loop', 'wrap']
        modes = {k: g.choice(ms) for k in kinds}
        if modes.get('function_definition') in ('wrap', 'loop'):
            modes['function_definition'] = 'rebuild'
        for k in modes:
            if k in UNPRINTABLE[lang] and g.random() < 0.7 and modes[k] == 'wrap':
                modes[k] = g.choice(['replace', 'rebuild'])
        how = g.choice(['generate', 'generate', 'generate', 'twice', 'element', 'wrapper'])
        roots = [root] * (2 if how == 'twice' else 1)
        if how == 'element':
            roots = [g.randrange(1, len(elements)) + 1]
        pr, _ = show(gen, modes, roots, how)
        prints.append(pr)
    return dict(id=plan['id'], lang=lang, nodes=nodes, prints=prints, plain=plain or '', bare=bare)


def main():
    plans, out, prog = sys.argv[1:4]
    progress = os.open(prog, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
    with open(out, 'w') as f:
        for line in open(plans):
            plan = json.loads(line)
            os.write(progress, f"{plan['id']} 0\n".encode())
            try:
                t = record(plan)
            except wfdump.DumpError:
                t = None
            except Exception as e:
                if classify_ok(e) or 'UndefinedExpression' in str(e) or 'containing' in str(e):
                    t = None
                else:
                    t = dict(id=plan['id'], raised=f'{type(e).__name__}: {str(e)[:300]}')
            f.write((json.dumps(t) if t else '') + '\n')
            f.flush()


if __name__ == '__main__':
    main()
