"""Writes MANIFEST.json from the list of claimed properties below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRACE = 'TLA+ specification checked with TLC; conformance by trace validation of recorded API sessions'
NOTE = ('Every recorded call of the real library is explained by the TLA+ machine at sampled assignments in 58-digit '
        'arithmetic; trusts the arithmetic module (java/Num.java) and the reading of expressions through the public API.')
PROG = ('TLA+ specification checked with TLC: generated programs are transition systems of spec/Program.tla, every branch outcome and '
        'every set of requested outputs explored; programs recorded from the real transpiler')
PNOTE = ('TLC executes every recorded program exhaustively over branch outcomes and optional outputs and compares with the '
         "user's expressions; inputs are one generic assignment per program; trusts java/Num.java and the reading of the syntax tree.")
EMIT = ('TLA+ specification checked with TLC: the caller\'s memory and the calls of spec/Emitted.tla; the emitted text is compiled and '
        'called, and every recorded call must be the transition the specification allows')
ENOTE = ('Every call of every compiled function is explained by the TLA+ machine: outputs equal the user\'s expressions, only requested '
         'outputs and only their own cells are written. Inputs are sampled; trusts java/Num.java and the compilers.')
CLAIMS = {
    'C13': (EMIT, 'model_checking', ENOTE),
    'C14': (EMIT, 'model_checking', ENOTE),
    'C15': (EMIT, 'model_checking', ENOTE),
    'C01': (TRACE, 'model_checking', NOTE),
    'C02': (TRACE, 'model_checking', NOTE + ' Three known findings are listed and excluded from the random sessions.'),
    'C03': (TRACE + ' (Session, Consts)', 'model_checking', NOTE + ' Exact 64-bit representability is decided per operation.'),
    'C04': (TRACE, 'model_checking', NOTE),
    'C05': (TRACE, 'model_checking', NOTE + ' Derivatives are limits of difference quotients in the specification.'),
    'C06': (TRACE, 'model_checking', NOTE),
    'C07': (TRACE, 'model_checking', NOTE),
    'C08': ('TLA+ specification checked with TLC (Order): the pool of expressions as an ordered set of identity classes; every recorded answer '
            'about every pair must be the one the abstract state determines', 'model_checking',
            'Histories are sampled from a seed; each is judged for all pairs, and by insertion into one order for all triples. Trusts the structure '
            'read back through the public API.'),
    'C09': (TRACE + ' (Matrix)', 'model_checking', NOTE + ' LU factors are checked by their defining relation.'),
    'C10': (TRACE + ' (Matrix)', 'model_checking', NOTE + ' Derivatives are limits of difference quotients; conversions are checked as the same rotation.'),
    'C11': (PROG, 'model_checking', PNOTE),
    'C12': (PROG, 'model_checking', PNOTE),
    'C18': ('TLA+ specification checked with TLC (Reader): a reader of expressions as a pushdown transition system, one token or line at a time; '
            'every recorded text and tree form must be readable as the recorded expression', 'model_checking',
            'Expressions are sampled from a seed; the reading of each is judged for uninterpreted functions and random values of the variables. '
            'Trusts the structure read back through the public API.'),
    'C19': ('TLA+ specification checked with TLC (Convert): an expression travelling between the two systems; its meaning, form and symbols with '
            'assumptions are the state, and no recorded conversion may change it; which SymPy classes can be expressed is part of the specification',
            'model_checking', 'Expressions are sampled from a seed; ' + NOTE + ' One known finding (KF4) is listed and excluded from the random walks.'),
    'C20': ('TLA+ specification checked with TLC (Span): memory regions and views as a state machine; programs using the real headers are compiled and '
            'run, and every address, shape, read, write and memory image is replayed; which uses compile is a predicate of the specification',
            'model_checking', 'Sequences of uses are sampled from a seed, ranks 1 to 4, constant and dynamic shapes, Eigen objects and expressions, '
            'quaternions, user adaptors and regions beyond 32-bit offsets; trusts g++ and Eigen.'),
    'C16': ('TLA+ specification checked with TLC (Interface): declared type trees, parameters and external functions against what the library '
            'reports and what reflection sees of the emitted functions; runs of emitted C++, Rust and Python are replayed as external calls and returns '
            'over the elements known so far; uses of declared functions and types are accepted exactly when they fit',
            'model_checking', 'Declarations are sampled from a seed; integer parameters of external functions are not used (the library refuses them).'),
    'C21': ('TLA+ specification checked with TLC (Printer): printing as a pushdown machine over the syntax tree; text emitted by generators with '
            'user-defined printers is read back mark by mark and must be what the walk of the specification emits', 'model_checking',
            'Programs and sets of overrides are sampled from a seed; indentation is compared only where nothing is replaced. Trusts the syntax tree '
            'read through its public attributes.'),
    'C17': ('TLA+ specification checked with TLC (Replay): answers are a function of the history alone; the same histories are run in several '
            'processes, orders, hash seeds and after unrelated work, and replayed',
            'model_checking', 'Histories and circumstances are sampled from a seed; numbers of unique variables may be renamed order-preservingly.'),
}
EXTRA = os.path.join(V, 'tools', 'claims.json')
if os.path.exists(EXTRA):
    CLAIMS.update({k: tuple(v) for k, v in json.load(open(EXTRA)).items()})
props = [json.loads(l)['id'] for l in open(f'{V}/properties.jsonl')]
NA = {}
m = dict(version=1, setup_cmd='bash tools/build.sh', checks=[], not_applicable=[])
for p in props:
    if p in CLAIMS:
        t, l, n = CLAIMS[p]
        m['checks'].append(dict(property=p, quick_cmd=f'python3 driver/check.py {p} quick',
                                thorough_cmd=f'python3 driver/check.py {p} thorough',
                                evidence_file=f'evidence/{p}.json', technique=t, level=l, level_note=n))
    else:
        m['not_applicable'].append(dict(property=p, reason=NA.get(p, 'the check for this property is not finished yet')))
json.dump(m, open(f'{V}/MANIFEST.json', 'w'), indent=1)
open(f'{V}/MANIFEST.json', 'a').write('\n')
