"""Replay matrix / quaternion plans (gen_mat.py) against the real library and record what it answers.
usage: record_mat.py PLANS OUT PROGRESS"""
import json
import os
import sys
from fractions import Fraction

sys.path.insert(0, os.path.dirname(__file__))
import wfdump
from record_sym import apply_op, classify
from wfdump import Dumper, DumpError, frac_str, node
from wrenfold import geometry, sym


def pynum(v):
    f = Fraction(v)
    return int(f) if f.denominator == 1 else float(f)


def leaf(op, vars_):
    heap = []
    for n in op['def']:
        heap.append(apply_op(n, [heap[j - 1] for j in n['a']], vars_))
    return heap[-1]


def slc(p):
    return slice(p[1] if p[0] else None, p[3] if p[2] else None, p[4])


UNARY = dict(neg=lambda x: -x, sq=lambda x: x * x, inc=lambda x: x + 1, twice=lambda x: x * 2, sin=sym.sin, exp=sym.exp)


def from_array(a):
    """numpy array -> list of lists of exact constants"""
    a = a.reshape(-1, 1) if a.ndim == 1 else a
    return ('num', a.shape, [complex(x) for x in a.flatten()])


def call(op, A, vars_):
    k, p, v = op['k'], op['p'], op['v']
    Q = geometry.Quaternion
    if k == 'leaf':
        return [leaf(op, vars_)]
    if k == 'mat':
        r, c = p
        rows = [[A[i * c + j] for j in range(c)] for i in range(r)]
        if v == 'vector':
            return [sym.vector(*A)]
        if v == 'row_vector':
            return [sym.row_vector(*A)]
        if v == 'flat':
            return [sym.matrix(A)]
        if v == 'gen':
            return [sym.matrix(tuple(x) for x in rows)]
        if v == 'ctor':
            return [sym.MatrixExpr(rows)]
        return [sym.matrix(rows)]
    if k == 'ragged':
        rows = [A[:p[0]], A[p[0]:]]
        return [sym.matrix(rows if v == 'rows' else (x for x in rows))]
    if k == 'symbols':
        return [sym.matrix_of_symbols(v, p[0], p[1])]
    if k == 'eye':
        return [sym.eye(p[0]) if v == '1' else sym.eye(p[0], p[1])]
    if k == 'zeros':
        return [sym.zeros(p[0], p[1])]
    if k == 'vstack':
        return [sym.matrix(A) if v == 'rows' else A[0].col_join(A[1]) if v == 'join' else sym.vstack(A)]
    if k == 'hstack':
        return [A[0].row_join(A[1]) if v == 'join' else sym.hstack(A)]
    if k in ('diag', 'diags'):
        return [sym.diag(A)]
    if k == 'info':
        m = A[0]
        return [('facts', [m.shape[0], m.shape[1], m.size, int(m.is_empty), len(m)])]
    if k == 'get':
        return [A[0][p[0], p[1]]]
    if k == 'row':
        return [A[0][p[0]]]
    if k == 'rowslice':
        return [A[0][slc(p)]]
    if k == 'slice2':
        return [A[0][slc(p[:5]), slc(p[5:])]]
    if k == 'rowcols':
        return [A[0][p[0], slc(p[1:])]]
    if k == 'rowscol':
        return [A[0][slc(p[1:]), p[0]]]
    if k == 'iter':
        return list(A[0])
    if k == 'tolist':
        rows = A[0].to_list()
        return [('list', (len(rows), len(rows[0])), [x for row in rows for x in row])]
    if k == 'flat':
        x = A[0].to_flat_list()
        return [('list', (1, len(x)), x)]
    if k == 'T':
        return [A[0].T if v == '' else A[0].transpose()]
    if k == 'reshape':
        return [A[0].reshape(p[0], p[1]) if v == '' else A[0].reshape((p[0], p[1]))]
    if k == 'vec':
        return [sym.vec(A[0])]
    if k == 'neg':
        return [-A[0]]
    if k == 'add':
        return [A[0] + A[1]]
    if k == 'sub':
        return [A[0] - A[1]]
    if k == 'mul':
        return [A[0] * A[1]]
    if k == 'mulms':
        if v in ('int', 'float'):
            n = pynum(op['w'])
            return [A[0] * (float(n) if v == 'float' else n)]
        if v in ('rint', 'rfloat'):
            n = pynum(op['w'])
            return [(float(n) if v == 'rfloat' else n) * A[0]]
        return [A[1] * A[0] if v == 'r' else A[0] * A[1]]
    if k == 'divms':
        if v in ('int', 'float'):
            n = pynum(op['w'])
            return [A[0] / (float(n) if v == 'float' else n)]
        return [A[0] / A[1]]
    if k == 'sqnorm':
        return [A[0].squared_norm()]
    if k == 'norm':
        return [A[0].norm()]
    if k == 'det':
        return [A[0].det() if v == 'm' else sym.det(A[0])]
    if k == 'lu':
        return list(sym.full_piv_lu(A[0]))
    if k == 'where':
        return [sym.where(A[0], A[1], A[2])]
    if k == 'unary':
        return [A[0].unary_map(UNARY[v])]
    if k == 'diff':
        return [A[0].diff(A[1], p[0], v == 'abstract')]
    if k == 'jac':
        if v == 'mm':
            return [A[0].jacobian(A[1])]
        if v == 'ml':
            return [A[0].jacobian(A[1].to_flat_list())]
        if v == 'lists':
            return [sym.jacobian(A[0].to_flat_list(), A[1].to_flat_list())]
        return [sym.jacobian(A[0], A[1])]
    if k == 'subs':
        return [A[0].subs([(A[1], A[2])]) if v == 'pairs' else A[0].subs(A[1], A[2])]
    if k == 'same':
        return [A[0].distribute() if v == 'distribute' else A[0].collect(vars_['x'])]
    if k == 'eval':
        import numpy as np
        return [from_array(np.array(A[0]) if v == 'array' else A[0].eval())]
    # quaternions
    if k == 'q':
        return [Q(*A)]
    if k == 'qid':
        return [Q()]
    if k == 'qname':
        return [Q.with_name(v)]
    if k == 'qfrom':
        x = A[0].to_flat_list() if op['alt'] == 'list' else A[0]
        return [Q.from_wxyz(x) if v == 'wxyz' else Q.from_xyzw(x)]
    if k == 'qmul':
        return [A[0] * A[1]]
    if k == 'qconj':
        return [A[0].conjugate()]
    if k == 'qinv':
        return [A[0].inverse()]
    if k == 'qunit':
        return [A[0].normalized()]
    if k == 'qnorm':
        return [A[0].norm()]
    if k == 'qsqnorm':
        return [A[0].squared_norm()]
    if k == 'qlist':
        x = A[0].to_list()
        return [('list', (1, len(x)), x)]
    if k == 'qwxyz':
        return [A[0].to_vector_wxyz()]
    if k == 'qxyzw':
        return [A[0].to_vector_xyzw()]
    if k == 'qel':
        return [A[0].w, A[0].x, A[0].y, A[0].z]
    if k == 'qrotmat':
        return [A[0].to_rotation_matrix()]
    if k == 'qrotate':
        return [A[0].rotate(A[1])]
    if k in ('aa3', 'aa'):
        return [Q.from_angle_axis(*A)]
    e = A[-1] if p and p[0] == 1 else None
    if k == 'rv':
        return [Q.from_rotation_vector(A[0], epsilon=e)]
    if k == 'rv3':
        return [Q.from_rotation_vector(A[0], A[1], A[2], epsilon=e)]
    if k == 'qxang':
        return [getattr(Q, f'from_{v}_angle')(A[0])]
    if k == 'q_to_aa':
        return list(A[0].to_angle_axis(epsilon=e))
    if k == 'q_to_rv':
        return [A[0].to_rotation_vector(epsilon=e, use_atan2=v == 'atan2')]
    if k == 'fromR':
        return [Q.from_rotation_matrix(A[0])]
    if k == 'rrd':
        return [A[0].right_retract_derivative()]
    if k == 'rlcd':
        return [A[0].right_local_coordinates_derivative()]
    if k == 'ljac':
        return [geometry.left_jacobian_of_so3(A[0], epsilon=e)]
    if k == 'iljac':
        return [geometry.inverse_left_jacobian_of_so3(A[0], epsilon=e)]
    if k == 'qsubs':
        return [A[0].subs(A[1], A[2])]
    raise KeyError(k)


def describe(x, d):
    """A library object as [t, r, c, ix] over the nodes of d."""
    o = dict(t='', r=1, c=1, ix=[], ns=[])
    if isinstance(x, tuple):
        kind = x[0]
        if kind == 'facts':
            o.update(t='n', r=len(x[1]), ns=[str(n) for n in x[1]])
        elif kind == 'list':
            o.update(t='m', r=x[1][0], c=x[1][1], ix=[d.dump(e) for e in x[2]])
        else:
            def text(z):
                re_ = frac_str(Fraction(z.real))
                return re_ if z.imag == 0 else re_ + '|' + frac_str(Fraction(z.imag))
            o.update(t='m', r=x[1][0], c=x[1][1], ix=[d._emit(node('num', v=text(e))) for e in x[2]])
    elif isinstance(x, sym.MatrixExpr):
        o.update(t='m', r=x.shape[0], c=x.shape[1])
        rows = x.to_list()
        if len(rows) != o['r'] or any(len(q) != o['c'] for q in rows):
            o['t'] = 'misshapen'
        o['ix'] = [d.dump(e) for row in rows for e in row]
    elif isinstance(x, geometry.Quaternion):
        o.update(t='q', r=4, ix=[d.dump(e) for e in (x.w, x.x, x.y, x.z)])
    elif isinstance(x, sym.BooleanExpr):
        o.update(t='b', ix=[d.dump(x)])
    else:
        o.update(t='s', ix=[d.dump(x)])
    return o


def run(plan, progress):
    vars_ = {n: sym.symbols(n) for n in plan['env'][0] if not n.startswith('#')}
    d = Dumper(max_nodes=plan.get('max_nodes', 2500))
    heap, evs = [], []
    for i, op in enumerate(plan['ops']):
        os.write(progress, f"{plan['id']} {i}\n".encode())
        ev = dict(k=op['k'], a=op['a'], p=op['p'], v=op['v'], n=op['n'], digits=op['digits'], udef=op['udef'], new=[],
                  res=[], err='', text='', **{'def': op['def']})
        A = [heap[j - 1] for j in op['a']]
        start = len(d.nodes)
        if any(x is None for x in A):
            ev['err'] = 'skip'
            heap += [None] * op['n']
            evs.append(ev)
            continue
        try:
            if op['k'] == 'cse':
                outs, reps = sym.eliminate_subexpressions(A[0])
                o = describe(outs, d)
                for var, val in reversed(list(reps)):
                    iw, iv = d.dump(var), d.dump(val)
                    o['ix'] = [d._emit(node('subst', [x, iw, iv])) for x in o['ix']]
                res, objs = [outs], [o]
            else:
                res = call(op, A, vars_)
                objs = [describe(x, d) for x in res]
            ev['text'] = ', '.join(str(x) for x in res)[:300]
            ev['res'], ev['new'] = objs, d.nodes[start:]
            if d.floats:
                ev['digits'] = min(ev['digits'], 8)
            # results that are not library objects cannot be operands of later calls
            if op['k'] in ('cse', 'eval', 'tolist', 'flat', 'qlist', 'info'):
                res = [sym.matrix(x[2]).reshape(*x[1]) if isinstance(x, tuple) and x[0] == 'list' and x[2] else None
                       for x in res]
            heap += res
            if len(res) != op['n']:
                evs.append(ev)
                break
        except DumpError as e:
            if 'too many' in str(e):
                break
            ev['err'] = 'dump: ' + str(e)
            evs.append(ev)
            break
        except Exception as e:
            ev['err'] = classify(e)
            ev['text'] = str(e)[:200]
            ev.update(res=[], new=[])
            del d.nodes[start:]
            for h in list(d.memo):
                d.memo[h] = [(x, ix) for x, ix in d.memo[h] if ix <= start]
            heap += [None] * op['n']
        evs.append(ev)
        if len(heap) and ev['err'] == '' and any(x is None for x in heap[-op['n']:] if op['n']):
            pass
    return dict(id=plan['id'], env=plan['env'], ev=evs)


def main():
    plans, out, prog = sys.argv[1:4]
    progress = os.open(prog, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
    with open(out, 'w') as f:
        for line in open(plans):
            s = run(json.loads(line), progress)
            f.write((json.dumps(s) if s['ev'] else '') + '\n')
            f.flush()


if __name__ == '__main__':
    main()
