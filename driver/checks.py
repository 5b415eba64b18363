"""What each property's check explores (quick / thorough)."""
import consts
import converts
import spans
import gen_span as GS
import gen_conv as GC
import gen_func as GF
import gen_mat as GM
import gen_order as GO
import gen_sym as G
import emitted
import matrices
import orders
import readers
import gen_iface
import ifaces
import replays
import printers
import programs
import sessions as S

ASSUME = ['values are compared at sampled assignments (58-digit arithmetic), not symbolically',
          'node kinds are read back through the public Python interface (type_name, args, text of leaves)']


def fixed(mode):
    return G.FIXED.get(mode, [])


def session_round(rep, mode, seed, n, gen, wd, first=False):
    plans = (list(fixed(mode)) if first else []) + [gen(seed, i, mode) for i in range(n)]
    S.check_sessions(rep, plans, wd)


def session_check(mode, nquick, rounds, gen, extra=None):
    """Sessions in rounds; the thorough tier runs many rounds with different seeds."""
    def run(rep, tier, seed, wd):
        rep.assumptions += ASSUME
        for r in range(1 if tier == 'quick' else rounds):
            s = seed if r == 0 else f'{seed}.{r}'
            if extra:
                extra(rep, tier, s, wd)
            session_round(rep, mode, s, nquick, gen, wd, r == 0)
            if rep.new_violations():
                break
    return run


def const_extra(rep, tier, seed, wd):
    consts.check(rep, seed, 6000 if tier == 'quick' else 40000, wd)


PROG_ASSUME = ['programs are executed as the syntax trees handed to the printers, on exact or 58-digit values at one generic '
               'assignment; the outcomes of comparisons are explored freely, independent of that assignment',
               'values that react strongly to rounding of constants are not judged']


def program_check(pid, nquick, rounds):
    def run(rep, tier, seed, wd):
        rep.assumptions += PROG_ASSUME
        for r in range(1 if tier == 'quick' else rounds):
            s = seed if r == 0 else f'{seed}.{r}'
            programs.check(rep, pid, [GF.gen_program(s, i, pid) for i in range(nquick)], wd)
            if rep.new_violations():
                break
    return run


def matrix_check(nquick, rounds, gen, extra=None):
    def run(rep, tier, seed, wd):
        rep.assumptions += ASSUME
        for r in range(1 if tier == 'quick' else rounds):
            s = seed if r == 0 else f'{seed}.{r}'
            matrices.check(rep, [gen(s, i) for i in range(nquick)], wd)
            if rep.new_violations():
                break
    return run


EMIT_ASSUME = [
    'the installed compilers (g++ / rustc) and Python libraries execute the emitted text as their languages define',
    'floating-point agreement is judged with a tolerance scaled by the measured sensitivity of each value to perturbations of '
    'every operation; values too sensitive at an input, or beyond the exponent range, are not judged there',
    'inputs are sampled, six calls per function; functions, options, layouts and requested outputs are sampled from a seed',
]


def emitted_check(lang, nquick, rounds):
    def run(rep, tier, seed, wd):
        rep.assumptions += EMIT_ASSUME
        for r in range(1 if tier == 'quick' else rounds):
            s = seed if r == 0 else f'{seed}.{r}'
            emitted.check(rep, lang, [GF.gen_emitted(s, i, lang) for i in range(nquick)], wd)
            if rep.new_violations():
                break
    return run


def order_check(nquick, rounds):
    def run(rep, tier, seed, wd):
        rep.assumptions += ['pools of expressions are sampled from a seed; within a pool every pair is judged',
                            'external functions and user types of equal name but different definition are not mixed (documented limitation)']
        for r in range(1 if tier == 'quick' else rounds):
            s = seed if r == 0 else f'{seed}.{r}'
            orders.check(rep, [GO.gen_order(s, i) for i in range(nquick)], wd)
            if rep.new_violations():
                break
    return run


def reader_check(nquick, rounds):
    def run(rep, tier, seed, wd):
        rep.assumptions += ['expressions are sampled from a seed; operators that are not arithmetic are read as uninterpreted functions',
                            'objects built by constructing a user type print as a summary and are exempt']
        for r in range(1 if tier == 'quick' else rounds):
            s = seed if r == 0 else f'{seed}.{r}'
            readers.check(rep, [GO.gen_print(s, i) for i in range(nquick)], wd)
            if rep.new_violations():
                break
    return run


def convert_check(nquick, rounds):
    def run(rep, tier, seed, wd):
        rep.assumptions += ['expressions are sampled from a seed, meanings compared at sampled assignments with 25 digits (7 where derivatives occur)',
                            'where SymPy itself fails to evaluate, the conversion is judged without evaluation']
        for r in range(1 if tier == 'quick' else rounds):
            s = seed if r == 0 else f'{seed}.{r}'
            converts.check(rep, (GC.FIXED if r == 0 else []) + [GC.gen_conv(s, i) for i in range(nquick)], wd)
            if rep.new_violations():
                break
    return run


def span_check(nquick, uses, rounds):
    def run(rep, tier, seed, wd):
        rep.assumptions += ['the installed compiler (g++) and Eigen behave as documented',
                            'sequences of uses are sampled from a seed; ranks 1 to 4, at most 3 regions and about 20 uses per sequence',
                            'the stride along an axis with fewer than two elements is not judged (no element depends on it)']
        for r in range(1 if tier == 'quick' else rounds):
            s = seed if r == 0 else f'{seed}.{r}'
            spans.check(rep, [GS.gen_span(s, i) for i in range(nquick)], [GS.gen_use(s, i) for i in range(uses)], wd)
            if rep.new_violations():
                break
    return run


def replay_check(n, singles, rounds):
    def run(rep, tier, seed, wd):
        rep.assumptions += ['histories and their circumstances are sampled from a seed; every history is run five times in four or five processes',
                            'numbers of unique variables may be renamed in an order-preserving way']
        for r in range(1 if tier == 'quick' else rounds):
            s = seed if r == 0 else f'{seed}.{r}'
            replays.check(rep, s, n, singles, wd)
            if rep.new_violations():
                break
    return run


def iface_check(n, rounds):
    def run(rep, tier, seed, wd):
        rep.assumptions += ['declared types, external functions and functions that move values are sampled from a seed; all elements of a run are distinct numbers',
                            'generated C++ and Rust is compiled against callers of the declared signature; g++, rustc and the Python interpreter are trusted']
        for r in range(1 if tier == 'quick' else rounds):
            plans = [gen_iface.gen_iface(seed if r == 0 else f'{seed}.{r}', i) for i in range(n)]
            ifaces.check(rep, plans, wd)
            if rep.new_violations():
                break
    return run


def printer_check(n, rounds):
    def run(rep, tier, seed, wd):
        rep.assumptions += ['programs and sets of user-defined printers are sampled from a seed; indentation is compared only where no printer is replaced',
                            'the syntax tree is read through its public attributes']
        for r in range(1 if tier == 'quick' else rounds):
            s = seed if r == 0 else f'{seed}.{r}'
            printers.check(rep, [printers.gen_print(s, i) for i in range(n)], wd)
            if rep.new_violations():
                break
    return run


CHECKS = {
    'C21': printer_check(700, 20),
    'C16': iface_check(500, 24),
    'C17': replay_check(1200, 32, 16),
    'C20': span_check(400, 300, 20),
    'C19': convert_check(900, 26),
    'C18': reader_check(3000, 20),
    'C08': order_check(3000, 20),
    'C13': emitted_check('cpp', 520, 20),
    'C14': emitted_check('rust', 750, 30),
    'C15': emitted_check('py', 800, 30),
    'C09': matrix_check(2200, 20, GM.gen_matrix),
    'C10': matrix_check(1000, 20, GM.gen_quat),
    'C01': session_check('C01', 3000, 16, G.gen_construct),
    'C02': session_check('C02', 3000, 16, G.gen_construct),
    'C03': session_check('C03', 1800, 12, G.gen_const, const_extra),
    'C04': session_check('C04', 5000, 14, G.gen_compare),
    'C05': session_check('C05', 2000, 14, G.gen_deriv),
    'C06': session_check('C06', 4000, 14, G.gen_subst),
    'C11': program_check('C11', 2200, 30),
    'C12': program_check('C12', 2200, 30),
    'C07': session_check('C07', 3600, 14, G.gen_rewrite),
}
