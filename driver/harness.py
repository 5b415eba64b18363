"""Shared machinery of the checks: build, record, run TLC, confirm, report, evidence."""
import json
import os
import re
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
VENV_PY = '/opt/vp/venv/bin/python'
JAR = '/opt/veriftools/tla/tla2tools.jar'
CM = '/opt/veriftools/tla/CommunityModules-deps.jar'
NPROC = int(os.environ.get('VERIF_JOBS', '8'))


class ToolError(Exception):
    """The check itself could not do its work (never reported as a violation)."""


def build():
    r = subprocess.run(['bash', f'{VERIF}/tools/build.sh'], capture_output=True, text=True)
    if r.returncode != 0:
        raise ToolError('build failed:\n' + r.stdout[-4000:] + r.stderr[-2000:])


def wf_env():
    e = dict(os.environ)
    for k in ('PYTHONHOME', 'VIRTUAL_ENV'):
        e.pop(k, None)
    e.update(PYTHONDONTWRITEBYTECODE='1', JAX_PLATFORMS='cpu', OMP_NUM_THREADS='1',
             MKL_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', PYTHONHASHSEED='0',
             PYTHONPATH=f'{VERIF}/build/wf/components/wrapper:{REPO}/components/python:{VERIF}/driver')
    return e


def workdir(pid):
    d = os.path.join(VERIF, 'build', 'work', pid)
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(d):
        p = os.path.join(d, f)
        if os.path.isfile(p):
            os.unlink(p)
    return d


def run_recorder(script, plans, wd, tag, timeout=240, nproc=NPROC):
    """Run the recorder over the plans in nproc processes; survives crashes and hangs of the library.
    Returns (traces, crashes): crashes = [(plan, op_index, signal text)]."""
    traces, crashes = {}, []
    chunks = [plans[i::nproc] for i in range(nproc)]

    def work(ci):
        todo = list(chunks[ci])
        res, cr = [], []
        rounds = 0
        while todo:
            rounds += 1
            base = f'{wd}/{tag}.{ci}'
            with open(base + '.plans', 'w') as f:
                for p in todo:
                    f.write(json.dumps(p) + '\n')
            err = open(base + '.err', 'w')
            hang = False
            try:
                r = subprocess.run([VENV_PY, f'{VERIF}/driver/{script}', base + '.plans', base + '.out',
                                    base + '.prog'], env=wf_env(), stdout=err, stderr=err, timeout=timeout,
                                   cwd=wd)
                rc = r.returncode
            except subprocess.TimeoutExpired:
                rc, hang = -9, True
            err.close()
            lines = open(base + '.out').read().split('\n') if os.path.exists(base + '.out') else []
            done = [x for x in lines[:-1]]
            for x in done:
                res.append(json.loads(x) if x else None)
            if rc == 0:
                break
            n = len(done)
            if n >= len(todo):
                break
            prog = ''
            if os.path.exists(base + '.prog'):
                t = open(base + '.prog').read().strip().split('\n')
                prog = t[-1] if t else ''
            text = open(base + '.err').read()[-1500:]
            opi = -1
            m = re.match(r'(\S+) (\d+)$', prog)
            if m and m.group(1) == str(todo[n]['id']):
                opi = int(m.group(2))
            if rc > 0 or rounds > 40:
                raise ToolError(f'recorder {script} failed (rc {rc}) on plan {todo[n]["id"]}:\n{text}')
            cr.append((todo[n], opi, 'hang' if hang else f'signal {-rc}', text))
            res.append(None)
            todo = todo[n + 1:]
        return res, cr

    with ThreadPoolExecutor(nproc) as ex:
        for res, cr in ex.map(work, range(nproc)):
            for t in res:
                if t is not None:
                    traces[str(t['id'])] = t
            crashes += cr
    return [traces[str(p['id'])] for p in plans if str(p['id']) in traces], crashes


_META = 0


def run_tlc(module, cfg, wd, env=None, workers=NPROC, timeout=700, heap='6g', extra=()):
    global _META
    _META += 1
    meta = f'{wd}/meta{_META}_{os.getpid()}'
    e = dict(os.environ)
    e.update(env or {})
    cmd = ['java', '-XX:+UseParallelGC', f'-Xmx{heap}', '-Xss64m', '-cp',
           f'{VERIF}/build/java:{JAR}:{CM}', 'tlc2.TLC', '-workers', str(workers), '-metadir', meta,
           '-noGenerateSpecTE', '-config', cfg, *extra, module]
    try:
        r = subprocess.run(cmd, env=e, capture_output=True, text=True, cwd=f'{VERIF}/spec', timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError(f'TLC timed out on {module}')
    finally:
        subprocess.run(['rm', '-rf', meta])
    out = r.stdout
    if r.returncode not in (0,):
        if 'Invariant' in out and 'is violated' in out:
            pass
        else:
            i = out.find('Error')
            raise ToolError(f'TLC failed on {module} (rc {r.returncode}):\n' + out[i:i + 3000] + r.stderr[-800:])
    m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
    stats = dict(generated=int(m.group(1)), distinct=int(m.group(2))) if m else dict(generated=0, distinct=0)
    m = re.search(r'Finished computing initial states: (\d+) distinct', out) or \
        re.search(r'Finished computing initial states: (\d+) state', out)
    stats['initial'] = int(m.group(1)) if m else 0
    marks = []
    for line in out.split('\n'):
        line = line.strip()
        if line.startswith('"@@'):
            s = json.loads(line)
            tag, _, body = s.partition(' ')
            marks.append((tag[2:], json.loads(body)))
    return out, stats, marks


def write_ndjson(path, items):
    with open(path, 'w') as f:
        for t in items:
            f.write(json.dumps(t) + '\n')


# --------------------------------------------------------------------------------- known findings
def known_findings(pid):
    p = f'{VERIF}/known_findings.json'
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))['findings'] if k['property'] == pid and k.get('status') == 'open']


class Report:
    """Collects what a check did, and ends it."""

    def __init__(self, pid, tier, seed, level='model_checking'):
        self.pid, self.tier, self.seed, self.level = pid, tier, seed, level
        self.t0 = time.time()
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.viol = []
        self.assumptions = []

    def add(self, key, n):
        self.cov[key] = self.cov.get(key, 0) + n

    def tlc(self, stats):
        self.cov['states'] += stats['distinct']
        self.cov['transitions'] += max(0, stats['generated'] - stats['initial'])

    def sample(self, x):
        if len(self.cov['samples']) < 6:
            self.cov['samples'].append(x)

    def violation(self, key, summary, replay):
        self.viol.append((key, summary, replay))

    def new_violations(self):
        known = known_findings(self.pid)
        return [v for v in self.viol if not any(re.search(k['match'], v[0]) for k in known)]

    def finish(self):
        known = known_findings(self.pid)
        real, seen = [], []
        for key, summary, replay in self.viol:
            k = next((k for k in known if re.search(k['match'], key)), None)
            if k:
                seen.append(k['id'])
            else:
                real.append((key, summary, replay))
        for k in known:
            if k['id'] in seen:
                print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
            else:
                print(f"NOTE: known finding {k['id']} of {self.pid} did not show in this run")
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=self.cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                  violations=len(real))
        os.makedirs(f'{VERIF}/evidence', exist_ok=True)
        with open(f'{VERIF}/evidence/{self.pid}.json', 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')
        if real:
            d = f'{VERIF}/build/replay'
            os.makedirs(d, exist_ok=True)
            path = f'{d}/{self.pid}.json'
            json.dump([dict(key=k, summary=s, replay=r) for k, s, r in real], open(path, 'w'), indent=1)
            for k, s, r in real[:8]:
                print('  ' + s)
            print(f'VIOLATION property={self.pid} replay={path}')
            return 1
        print(f"OK property={self.pid} tier={self.tier} seed={self.seed} "
              + ' '.join(f'{k}={v}' for k, v in self.cov.items() if isinstance(v, int)))
        return 0
