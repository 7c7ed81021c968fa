"""Common machinery: running Quint, reading its traces, comparing, reporting."""
import hashlib, json, math, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
REPO = os.environ.get('VERIF_REPO', '/repo')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'
S = 10 ** 30
sys.set_int_max_str_digits(0)


class MachineryError(Exception):
    pass


# ------------------------------------------------------------------ numbers
def fl(n):
    """Fixed-point integer of the specification -> nearest double."""
    return n / S


def fx(x):
    """Double -> fixed-point integer (exact up to 1e-30)."""
    f = Fraction(float(x)) * S
    return int(f) if f.denominator == 1 else round(f)


def fv(v):
    return [fl(v['x']), fl(v['y']), fl(v['z'])]


# ------------------------------------------------------------------ scratch
_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='verif-')
        import atexit
        pid = os.getpid()
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True) if os.getpid() == pid else None)
    return _scratch


# ------------------------------------------------------------------ quint
def _val(x):
    if isinstance(x, dict):
        if '#bigint' in x:
            return int(x['#bigint'])
        if '#map' in x:
            return {_key(k): _val(v) for k, v in x['#map']}
        if '#set' in x:
            return [_val(v) for v in x['#set']]
        if '#tup' in x:
            return tuple(_val(v) for v in x['#tup'])
        return {k: _val(v) for k, v in x.items() if k != '#meta'}
    if isinstance(x, list):
        return [_val(v) for v in x]
    return x


def _key(k):
    k = _val(k)
    return tuple(k) if isinstance(k, list) else k


def read_itf(path):
    with open(path) as f:
        d = json.load(f)
    out = []
    for s in d['states']:
        out.append({k.split('::')[-1]: _val(v) for k, v in s.items() if k != '#meta' and not k.startswith('mbt::')}
                   | {k: _val(v) for k, v in s.items() if k == 'mbt::actionTaken'})
    return out


def seed_of(*parts):
    h = hashlib.sha256(('/'.join(str(p) for p in (SEED,) + parts)).encode()).hexdigest()
    return int(h[:12], 16)


def quint_run(model, main, samples, steps, tag='', seed=None, invariant=None, specdir=SPEC, timeout=850, mbt=False):
    """One `quint run`; returns the list of traces (lists of states)."""
    d = tempfile.mkdtemp(prefix='q-', dir=scratch())
    cmd = ['quint', 'run', '--main', main, '--max-samples', str(samples), '--n-traces', str(samples),
           '--max-steps', str(steps), '--n-threads', '1', '--verbosity', '1',
           '--seed', str(seed if seed is not None else seed_of(model, main, tag)),
           '--out-itf', os.path.join(d, 't_{seq}.itf.json')]
    if mbt:
        cmd.append('--mbt')
    if invariant:
        cmd += ['--invariant', invariant]
    cmd.append(os.path.join(specdir, model))
    r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=d)
    if r.returncode != 0:
        raise MachineryError(f'quint run {model} {main} failed: {(r.stdout + r.stderr)[:1500]}')
    traces = []
    for n in sorted(os.listdir(d), key=lambda s: int(s.split('_')[1].split('.')[0]) if s.startswith('t_') else 0):
        if n.startswith('t_'):
            traces.append(read_itf(os.path.join(d, n)))
    shutil.rmtree(d, ignore_errors=True)
    if not traces:
        raise MachineryError(f'quint run {model} {main} wrote no traces')
    return traces


def quint_many(model, main, samples, steps, jobs=8, tag='', **kw):
    """`samples` traces from several simulators with different seeds."""
    jobs = max(1, min(jobs, samples))
    per = [samples // jobs + (1 if i < samples % jobs else 0) for i in range(jobs)]
    with ThreadPoolExecutor(jobs) as ex:
        fs = [ex.submit(quint_run, model, main, n, steps, f'{tag}{i}', **kw) for i, n in enumerate(per) if n]
        return [t for f in fs for t in f.result()]


# ------------------------------------------------------------------ TLC on compiled Quint models
# main module -> (file, workers)
TLC_MODELS = {'lattice6': ('m_lattice.qnt', 8), 'refuse5': ('m_refuse.qnt', 8),
              'input2': ('m_input.qnt', 8), 'input3': ('m_input.qnt', 8), 'm_windin': ('m_input.qnt', 1)}


def spec_digest(model):
    """Digest of a Quint file and everything it imports."""
    seen, todo = {}, [model]
    while todo:
        n = todo.pop()
        if n not in seen:
            with open(os.path.join(SPEC, n)) as f:
                seen[n] = f.read()
            todo += [w + '.qnt' for w in re.findall(r'from "\./(\w+)"', seen[n])]
    return hashlib.sha256(json.dumps(sorted(seen.items())).encode()).hexdigest()[:16]


def tlc(main, dump=True, timeout=850):
    """Exhaustive exploration by TLC of a compiled model, with its invariant `inv`.

    Returns (all states as dicts, {'states': .., 'transitions': .., 'depth': ..})."""
    model, workers = TLC_MODELS[main]
    d = tempfile.mkdtemp(prefix='tlc-', dir=scratch())
    for n in os.listdir(os.path.join(SPEC, 'tlc')):
        shutil.copy(os.path.join(SPEC, 'tlc', n), d)
    with open(os.path.join(d, main + '.tla')) as f:
        text = f.read()
    if spec_digest(model) not in text.split('\n', 1)[0]:
        raise MachineryError(f'spec/tlc/{main}.tla is not compiled from the present {model}; run tools/tla.py')
    with open(os.path.join(d, main + '.cfg'), 'w') as f:
        f.write('INIT q_init\nNEXT q_step\nINVARIANT q_inv\nCHECK_DEADLOCK FALSE\n')
    cmd = ['tlc', '-workers', str(workers), '-metadir', os.path.join(d, 'meta'), '-config', main + '.cfg']
    if dump:
        cmd += ['-dump', os.path.join(d, 'states')]
    r = subprocess.run(cmd + [main + '.tla'], capture_output=True, text=True, timeout=timeout, cwd=d)
    out = r.stdout
    m = re.search(r'(\d+) states generated, (\d+) distinct states found, 0 states left', out)
    if r.returncode != 0 or 'No error has been found' not in out or not m:
        raise MachineryError(f'TLC on {main}: {out[-1500:]}')
    depth = re.search(r'depth of the complete state graph search is (\d+)', out)
    states = []
    if dump:
        with open(os.path.join(d, 'states.dump')) as f:
            for part in re.split(r'^State \d+:\n', f.read(), flags=re.M)[1:]:
                states.append(dict(_tla_assign(part)))
        if len(states) != int(m.group(2)):
            raise MachineryError(f'TLC on {main}: {len(states)} states dumped of {m.group(2)}')
    shutil.rmtree(d, ignore_errors=True)
    return states, {'states': int(m.group(2)), 'transitions': int(m.group(1)), 'depth': int(depth.group(1)) if depth else 0}


def _tla_assign(text):
    toks = re.findall(r'"[^"]*"|<<|>>|\|->|:>|@@|/\\|-?\d+|\w+|[{}\[\](),=]', text)
    pos = 0

    def val():
        nonlocal pos
        t = toks[pos]
        pos += 1
        if t == '<<':
            return many('>>')
        if t == '{':
            return many('}')
        if t == '[':
            d = {}
            while toks[pos] != ']':
                k = toks[pos]
                assert toks[pos + 1] == '|->'
                pos += 2
                d[k] = val()
                if toks[pos] == ',':
                    pos += 1
            pos += 1
            return d
        if t == '(':
            d = {}
            while True:
                k = val()
                assert toks[pos] == ':>'
                pos += 1
                d[tuple(k) if isinstance(k, list) else k] = val()
                t2 = toks[pos]
                pos += 1
                if t2 == ')':
                    return d
        if t in ('TRUE', 'FALSE'):
            return t == 'TRUE'
        if t[0] == '"':
            return t[1:-1]
        return int(t)

    def many(end):
        nonlocal pos
        l = []
        while toks[pos] != end:
            l.append(val())
            if toks[pos] == ',':
                pos += 1
        pos += 1
        return l

    while pos < len(toks):
        if toks[pos] == '/\\':
            pos += 1
        name = toks[pos]
        assert toks[pos + 1] == '=', toks[pos:pos + 3]
        pos += 2
        yield name, val()


# ------------------------------------------------------------------ recorded runs -> specification
BASE = 10 ** 60


def _pack(ints):
    half = BASE // 2
    return ''.join('%060d' % (v + half) for v in reversed(ints))


def _lit(ints, chunk=200):
    if not ints:
        return 'List()'
    parts = [ints[i:i + chunk] for i in range(0, len(ints), chunk)]
    return '[' + ', '.join(f'unpack({_pack(p)}, {len(p)})' for p in parts) + '].foldl(List(), (a, l) => a.concat(l))'


class Event:
    """An action of a recorded run and what was observed after it; numbers only."""

    def __init__(self, act):
        self.act, self.f = act, {}

    def ints(self, name, xs):
        self.f[name] = [int(x) for x in xs]
        return self

    def reals(self, name, xs):
        import numpy as np
        a = np.asarray(xs, dtype=float).reshape(-1)
        if not np.all(np.isfinite(a)):
            raise NotFinite(name)
        self.f[name] = [fx(x) for x in a]
        return self


class NotFinite(Exception):
    pass


def validate(module, runs, timeout=850, jobs=8):
    """Checks recorded runs (lists of Event) against the trace specification `module`; one verdict per run."""
    d = tempfile.mkdtemp(prefix='t-', dir=scratch())
    for n in os.listdir(SPEC):
        if n.endswith('.qnt'):
            shutil.copy(os.path.join(SPEC, n), d)
    size = lambda r: sum(len(v) for e in r for v in e.f.values())
    # spread the big runs
    order = sorted(range(len(runs)), key=lambda i: -size(runs[i]))
    groups = [order[k::jobs] for k in range(min(jobs, len(runs)))]

    def one(g):
        idx = groups[g]
        if not idx:
            return []
        vals = []
        for i in idx:
            ev = []
            for e in runs[i]:
                fs = ', '.join(f'"{k}" -> {_lit(v)}' for k, v in e.f.items())
                ev.append(f'{{ act: "{e.act}", f: Map({fs}) }}')
            vals.append(f'  pure val run_{i}: List[Event] = [\n    ' + ',\n    '.join(ev) + '\n  ]\n')
        name = f'batch_{g}'
        with open(os.path.join(d, name + '.qnt'), 'w') as f:
            f.write(f'module data_{g} {{\n  import num.* from "./num"\n  import trace.* from "./trace"\n' + ''.join(vals) +
                    '  pure val EVENTS: List[List[Event]] = [' + ', '.join(f'run_{i}' for i in idx) + f']\n}}\n'
                    f'module {name} {{\n  import data_{g}.*\n  import {module}(RUNS=EVENTS).* from "./{module}"\n}}\n')
        steps = sum(len(runs[i]) + 1 for i in idx) - 1
        t = quint_run(name + '.qnt', name, 1, steps, specdir=d, seed=1, timeout=timeout)
        last = t[0][-1]
        if last['which'] != len(idx) - 1 or last['pos'] != len(runs[idx[-1]]) or len(last['verdicts']) != len(idx):
            raise MachineryError(f'{module}: stopped in run {last["which"]} of {len(idx)}, event {last["pos"]}')
        return list(zip(idx, last['verdicts']))

    with ThreadPoolExecutor(jobs) as ex:
        res = dict(p for l in ex.map(one, range(len(groups))) for p in l)
    shutil.rmtree(d, ignore_errors=True)
    return [res[i] for i in range(len(runs))]


# ------------------------------------------------------------------ report
class Report:
    def __init__(self, prop, level, rule):
        self.prop, self.level, self.rule = prop, level, rule
        self.t0 = time.time()
        self.evaluations = 0
        self.keys = set()
        self.samples = []
        self.violations = []
        self.known = {}
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.extra = {}
        self.skips = {}
        self.assumptions = []
        self.margin = 0.0
        self.findings = load_findings(prop)

    def case(self, key, sample=None, n=1):
        self.evaluations += n
        if key is not None:
            self.keys.add(key if isinstance(key, str) else json.dumps(key, sort_keys=True, default=str))
        if sample is not None and len(self.samples) < 4:
            self.samples.append(sample)

    def trace(self, states):
        self.traces += 1
        self.states += states
        self.transitions += max(0, states - 1)

    def skip(self, why):
        self.skips[why] = self.skips.get(why, 0) + 1

    def violation(self, clause, detail, data=None):
        self.violations.append({'clause': clause, 'detail': detail, 'case': data})

    def finding(self, fid, what, clause, detail, data=None):
        """A deviation that matches a recorded finding, otherwise a violation."""
        if fid in self.findings:
            self.known.setdefault(fid, what)
        else:
            self.violation(clause, detail, data)

    def close(self, clause, got, want, data=None, rel=1e-9, scale=None, absolute=1e-12):
        """Numeric agreement of observed and specified values; True if they agree."""
        import numpy as np
        try:
            g = np.asarray(got, dtype=float)
            w = np.asarray(want, dtype=float)
        except Exception as e:
            self.violation(clause, f'not numbers: {e!r}', data)
            return False
        if g.shape != w.shape:
            self.violation(clause, f'shape {g.shape}, specified {w.shape}', data)
            return False
        if g.size == 0:
            return True
        s = scale if scale is not None else max(1e-300, float(np.max(np.abs(w))))
        tol = rel * s + absolute
        with np.errstate(all='ignore'):
            err = np.abs(g - w)
        if not np.all(np.isfinite(g)) or not np.all(err <= tol):
            bad = ~(np.isfinite(g) & (err <= tol))
            i = tuple(int(k) for k in np.argwhere(bad)[0])
            self.violation(clause, f'at {list(i)}: observed {g[i]!r}, specified {w[i]!r} (tolerance {tol:.3g}; {int(bad.sum())} of {g.size} differ)', data)
            return False
        self.margin = max(self.margin, float(np.max(err)) / tol)
        return True

    def same(self, clause, got, want, data=None):
        if got != want:
            self.violation(clause, f'observed {got!r}, specified {want!r}', data)
            return False
        return True

    def finish(self):
        ev = {'property': self.prop, 'tier': TIER, 'seed': SEED, 'level': self.level,
              'coverage': {'evaluations': self.evaluations, 'distinct_nontrivial': len(self.keys), 'rule': self.rule,
                           'samples': self.samples, 'states': self.states, 'transitions': self.transitions,
                           'traces_validated_against_impl': self.traces,
                           'skipped': self.skips, 'largest_error_over_tolerance': round(self.margin, 6), **self.extra},
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2),
              'violations': len(self.violations)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        for fid, what in sorted(self.known.items()):
            print(f'KNOWN-FINDING: property={self.prop} {fid}: {what}')
        if self.violations:
            os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
            path = os.path.join(VERIF, 'replays', f'{self.prop}-{TIER}-{SEED}.json')
            with open(path, 'w') as f:
                json.dump({'property': self.prop, 'seed': SEED, 'tier': TIER, 'violations': self.violations[:20]}, f, indent=1, default=str)
            for v in self.violations[:5]:
                print(f"  {v['clause']}: {v['detail']}"[:600])
            print(f'VIOLATION property={self.prop} replay={path}')
            return 1
        if self.evaluations == 0:
            print(f'{self.prop}: nothing was evaluated')
            return 2
        print(f'{self.prop}: held on {self.evaluations} cases ({len(self.keys)} distinct, {self.traces} traces, '
              f'skipped {self.skips}, margin {self.margin:.2g}, {time.time() - self.t0:.0f} s)')
        return 0


def load_findings(prop):
    out = {}
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for line in open(p):
            w = line.split()
            if len(w) > 2 and w[0] == 'finding:' and w[1] == f'property={prop}' and w[2].startswith('id='):
                out[w[2][3:]] = line.strip()
    return out


# ------------------------------------------------------------------ the code under test
def import_repo(jit=True):
    """Prepares the environment for importing pySailingVLM from the working tree."""
    sc = scratch()
    os.environ['NUMBA_CACHE_DIR'] = os.path.join(sc, 'numba')
    if not jit:
        os.environ['NUMBA_DISABLE_JIT'] = '1'
    os.environ.setdefault('MPLBACKEND', 'Agg')
    os.environ['MPLCONFIGDIR'] = os.path.join(sc, 'mpl')
    sys.dont_write_bytecode = True
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    for v in ('OPENBLAS_NUM_THREADS', 'OMP_NUM_THREADS', 'MKL_NUM_THREADS'):
        os.environ[v] = '1'
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import warnings
    warnings.simplefilter('ignore')
    import pySailingVLM
    where = list(getattr(pySailingVLM, '__path__', [])) or [os.path.dirname(pySailingVLM.__file__)]
    if not any(os.path.realpath(w).startswith(os.path.realpath(REPO)) for w in where):
        raise MachineryError(f'pySailingVLM imported from {where}')


class Refused(Exception):
    """SystemExit of the code under test, with its code and output."""

    def __init__(self, code, text):
        super().__init__(code)
        self.code, self.text = code, text


def quietly(f, *a, **k):
    """Calls f with its output captured; SystemExit becomes Refused."""
    import contextlib, io
    buf = io.StringIO()
    try:
        with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
            return f(*a, **k)
    except SystemExit as e:
        raise Refused(e.code, buf.getvalue()) from None


def parallel(f, items, procs=8):
    """Maps f over items in forked workers (the code is imported before forking)."""
    import multiprocessing as mp
    if procs <= 1 or len(items) <= 1:
        return [f(x) for x in items]
    with mp.get_context('fork').Pool(min(procs, len(items))) as pool:
        return pool.map(f, items, chunksize=max(1, len(items) // (procs * 4)))
