"""Record operations on constants.  usage: record_const.py PLANS OUT PROGRESS; a plan is one operation."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(__file__))
from fractions import Fraction
from record_sym import apply_op, classify
from wfdump import frac_str
from wrenfold import sym


def make(a):
    if a['t'] == 'x':
        f = Fraction(a['v'])
        return sym.integer(f.numerator) if f.denominator == 1 else sym.rational(f.numerator, f.denominator)
    if a['t'] == 'f':
        return sym.float_constant(float(Fraction(a['v'])))
    return {'z': sym.zoo, 'n': sym.nan}[a['t']]


def read(e):
    t = e.type_name
    if t in ('IntegerConstant', 'RationalConstant'):
        return dict(t='x', v=str(e))
    if t == 'FloatConstant':
        x = e.eval()
        if x != x or x in (float('inf'), float('-inf')):
            return dict(t='n', v='')
        return dict(t='f', v=frac_str(x))
    if t == 'ComplexInfinity':
        return dict(t='z', v='')
    if t == 'Undefined':
        return dict(t='n', v='')
    if t == 'BooleanConstant':
        return dict(t='b', v='T' if str(e) == 'True' else 'F')
    return dict(t='o', v='')


def main():
    plans, out, prog = sys.argv[1:4]
    progress = os.open(prog, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
    with open(out, 'w') as f:
        for line in open(plans):
            p = json.loads(line)
            os.write(progress, f"{p['id']} 0\n".encode())
            ev = dict({k: v for k, v in p.items() if k != 'lit'}, r=dict(t='', v=''), err='', text='')
            try:
                if p['op'] == 'lit':
                    n, d = p['lit']
                    r = sym.rational(n, d) if d is not None else sym.integer(n)
                else:
                    A = [make(a) for a in p['a']]
                    fn = p['op'] in ('abs',)
                    r = apply_op(dict(k='fn' if fn else p['op'], v='abs' if fn else ''), A, {})
                ev['r'] = read(r)
                ev['text'] = str(r)
            except Exception as e:
                c = classify(e)
                ev['err'] = 'arith' if c == 'arith' or 'Cannot construct relational' in c \
                    or 'OverflowError' in c or 'exceeds checked_int' in c or 'incompatible function arguments' in c else c
            f.write(json.dumps(ev) + '\n')
            f.flush()


if __name__ == '__main__':
    main()
