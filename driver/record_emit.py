"""Generate code for user functions with the real library (C++ and Rust), next to the meaning of the outputs.
usage: record_emit.py PLANS OUT PROGRESS"""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(__file__))
import funcs
import wfdump
from record_prog import classify_ok
from wrenfold import code_generation as cg
from wrenfold.code_generation import OptimizationParams


def generator(cfg):
    if cfg['lang'] == 'cpp':
        return cg.CppGenerator(cg.CppMatrixTypeBehavior.Eigen if cfg['beh'] == 'eigen'
                               else cg.CppMatrixTypeBehavior.GenericSpan)
    if cfg['lang'] == 'rust':
        return cg.RustGenerator()
    T, W = cg.PythonGeneratorTarget, cg.PythonGeneratorFloatWidth
    return cg.PythonGenerator(target=dict(numpy=T.NumPy, torch=T.PyTorch, jax=T.JAX)[cfg['target']],
                              float_width=W.Float64 if cfg['prec'] == '64' else W.Float32,
                              use_output_arguments=bool(cfg['outargs']))


def params(cfg):
    p = OptimizationParams()
    p.factorization_passes = cfg['fact']
    p.binarize_operations = bool(cfg['bin'])
    return p


def refused(e):
    s = str(e)
    return classify_ok(e) or 'UndefinedExpression' in s or 'containing' in s or 'treats all matrices as' in s


def record(plan):
    R = funcs.realize(plan)
    g = generator(plan['cfg'])
    try:
        code = cg.generate_function(R.func, g, optimization_params=params(plan['cfg']),
                                    convert_ternaries=bool(plan['cfg']['tern']))
        code = g.apply_preamble(code, plan['name']) if plan['cfg']['lang'] == 'cpp' else g.apply_preamble(code)
    except Exception as e:
        if refused(e):
            return None
        raise
    return dict(id=plan['id'], nodes=R.nodes, code=code, outs=R.outs)


def main():
    plans, out, prog = sys.argv[1:4]
    progress = os.open(prog, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
    if 'run_py' in globals():
        rec = globals()['run_py']
    else:
        rec = record
    with open(out, 'w') as f:
        for line in open(plans):
            plan = json.loads(line)
            os.write(progress, f"{plan['id']} 0\n".encode())
            try:
                t = rec(plan)
            except wfdump.DumpError:
                t = None
            except Exception as e:
                t = None if classify_ok(e) else dict(id=plan['id'], raised=f'{type(e).__name__}: {str(e)[:300]}')
            f.write((json.dumps(t) if t else '') + '\n')
            f.flush()


if __name__ == '__main__':
    main()
