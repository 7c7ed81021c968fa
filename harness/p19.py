from core import *
from ship import *
from program import *
LEVEL = 'exploration'
TECHNIQUE = ('Histories of case files and program runs generated by the Quint model spec/m_program.qnt, replayed with the real program in scratch directories; what is '
             'stored is compared with library runs of the case by the trace specification spec/voyage.qnt')
RULE = ('histories of writing, replacing and removing case files in four directories and running the program with and without a directory argument; after every run '
        'exit status, every stored number, the copy of the case file, pictures and printed integrals; a few as separate operating system processes')
SHEETS = ('Components', 'Integrals', 'IC_at_reference_height')


def book(path):
    """Sheets of a workbook: text cells and number cells, in order."""
    import openpyxl
    wb = openpyxl.load_workbook(path, data_only=True)
    out = {}
    for n in SHEETS:
        rows = [list(r) for r in wb[n].iter_rows(values_only=True)]
        out[n] = ([str(c) for c in rows[0]], [[c for c in r if isinstance(c, str)] for r in rows[1:]], [[float(c) for c in r if isinstance(c, (int, float))] for r in rows[1:]])
    return out


def library(cas):
    """The tables of the case, computed step by step."""
    from pySailingVLM.results.save_utils import save_results_to_file
    try:
        v = Voyage(cas, unused=False)
        if v.flux_refused:
            return 'skip refused for a flux above 1e-12 that is rounding'
        cas['keelOn'] = True
        r = v.results()
        d = tempfile.mkdtemp(dir=scratch())
        comp, integ, inlet = quietly(save_results_to_file, v.vlm, v.csys, r, v.set, d, 'x')
        t = lambda df: ([str(c) for c in df.columns], [[x for x in row if isinstance(x, str)] for row in df.itertuples(index=False)],
                        [[float(x) for x in row if not isinstance(x, str)] for row in df.itertuples(index=False)])
        shutil.rmtree(d, ignore_errors=True)
        return {'sheets': dict(zip(SHEETS, (t(comp), t(integ), t(inlet)))), 'sails': v.sail_names(), 'cps': v.vlm.p_coeffs.tolist()}
    except (Refused, Exception) as e:
        import traceback
        return f'{e!r} {traceback.format_exc(limit=-3)}'


def page(path):
    """Sources of data in a saved bokeh page."""
    import base64, gzip
    import numpy as np
    with open(path) as f:
        text = f.read()
    found = []

    def array(x):
        if isinstance(x, dict) and x.get('type') == 'ndarray':
            b = base64.b64decode(x['array']['data'])
            return np.frombuffer(gzip.decompress(b) if b[:2] == b'\x1f\x8b' else b, dtype=x['dtype']).reshape(x['shape']).tolist()
        return [array(y) for y in x] if isinstance(x, list) else x

    def walk(x):
        if isinstance(x, dict):
            if x.get('name') == 'ColumnDataSource':
                d = x['attributes']['data']
                found.append({k: array(v) for k, v in (d['entries'] if isinstance(d, dict) and 'entries' in d else d.items())})
            for y in x.values():
                walk(y)
        elif isinstance(x, list):
            for y in x:
                walk(y)
    for m in re.finditer(r'<script type="application/json"[^>]*>(.*?)</script>', text, re.S):
        walk(json.loads(m.group(1)))
    return found


def printed(text):
    out = {}
    for l in text.splitlines():
        m = re.match(r'^\s*\d+\s+([FM]_\S.*?)\s+(-?[\d.]+(?:e[+-]?\d+)?)\s*$', l)
        if m:
            out[m.group(1)] = float(m.group(2))
    return out


def where(base, out, d):
    return {'new': 'out', 'new/deep': 'out/put/deep', 'absolute': os.path.join(base, 'elsewhere', 'store'), 'there': 'present', 'beside': os.path.join(base, d),
            'with blank': 'out of here'}[out]


def replay(job):
    """One history in its own scratch directory; a list of observations after the runs."""
    k, cs, tr, separate = job
    base = os.path.join(scratch(), f'prog{k}')
    for d in ('work', 'given', 'decoy', 'given/inner', 'work/present', 'elsewhere'):
        os.makedirs(os.path.join(base, d), exist_ok=True)
    with open(os.path.join(base, 'work', 'present', 'keep.txt'), 'w') as f:
        f.write('kept')
    obs = []
    try:
        for s in tr:
            for d, f in s['files'].items():
                p = os.path.join(base, d, 'variables.py')
                if f['num'] == 0:
                    if os.path.exists(p):
                        os.unlink(p)
                else:
                    o = where(base, f['out'], d)
                    with open(p, 'w') as h:
                        h.write(case_text(cs[f['num'] - 1], repr(o), f['name']))
            if s['act'] != 'run':
                continue
            r = s['last']
            full = os.path.join(base, r['dir'])
            arg = {'absolute': full, 'relative': os.path.relpath(full, os.path.join(base, 'work')), 'slash': full + '/'}[r['form']]
            before = tree(base)
            res = launch((['-dv', arg] if r['asked'] else []), os.path.join(base, 'work'), separate)
            o = {'code': res[0], 'text': res[1], 'kept': os.path.exists(os.path.join(base, 'work', 'present', 'keep.txt'))}
            if r['done']:
                w = os.path.join(base, 'work', where(base, r['took']['out'], r['dir']))
                o['files'] = sorted(os.listdir(w)) if os.path.isdir(w) else []
                o['sizes'] = {n: os.path.getsize(os.path.join(w, n)) for n in o['files']}
                try:
                    o['book'] = book(os.path.join(w, r['took']['name'] + '.xlsx'))
                    o['page'] = page(os.path.join(w, 'cp_plot.html'))
                    with open(os.path.join(w, 'variables.py')) as a, open(os.path.join(full, 'variables.py')) as b:
                        o['copied'] = a.read() == b.read()
                except Exception as e:
                    o['error'] = repr(e)
            else:
                o['changed'] = sorted(set(tree(base)) ^ set(before))
            obs.append(o)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    return obs


def tree(base):
    return [os.path.relpath(os.path.join(p, n), base) for p, ds, fs in os.walk(base) for n in ds + fs if n != '__pycache__' and '__pycache__' not in p]


def launch(argv, cwd, separate):
    if not separate:
        return alone(one, (argv, cwd))
    wrap = (f'import sys; sys.path.insert(0, {REPO!r})\n{PLAIN_STYLE}\nimport sys; sys.path.insert(0, "")\n'
            f'sys.argv[0] = "pySailingVLM"\nimport runpy; runpy.run_module("pySailingVLM", run_name="__main__")')
    env = dict(os.environ, MPLBACKEND='Agg', PYTHONPATH='', PYTHONDONTWRITEBYTECODE='1')
    r = subprocess.run([sys.executable, '-W', 'ignore', '-c', wrap] + argv, cwd=cwd, capture_output=True, text=True, env=env, timeout=400)
    return r.returncode, r.stdout + r.stderr


def one(job):
    argv, cwd = job
    keep = list(sys.path)
    sys.path.insert(0, cwd)
    try:
        return program(argv, cwd)[:2]
    finally:
        sys.path[:] = keep


def alone(f, x):
    """f(x) in a process forked for it (workers of a pool may not have pools)."""
    import pickle
    d = tempfile.mkdtemp(dir=scratch())
    pid = os.fork()
    if pid == 0:
        try:
            r = f(x)
        except BaseException as e:
            r = (repr(e), '')
        try:
            with open(os.path.join(d, 'r'), 'wb') as h:
                pickle.dump(r, h)
        finally:
            os._exit(0)
    os.waitpid(pid, 0)
    with open(os.path.join(d, 'r'), 'rb') as h:
        r = pickle.load(h)
    shutil.rmtree(d, ignore_errors=True)
    return r


def judge(rep, runs, texts, s, o, lib, case):
    r = s['last']
    if not o['kept']:
        rep.violation('leaves other files alone', 'a file in the output directory is gone', case)
    if not r['done']:
        if o['code'] == 0:
            rep.violation('fails without a variables.py', o['text'][-300:], case)
        elif 'variables' not in o['text'] + str(o['code']):
            rep.violation('reports that there is no variables.py', f"{o['code']}: {o['text'][-300:]}", case)
        if o['changed']:
            rep.violation('nothing is stored without a case', f"{o['changed']}", case)
        return
    if o['code'] != 0:
        rep.violation('exit status', f"{o['code']}: {o['text'][-600:]}", case)
        return
    if 'error' in o:
        rep.violation('what is stored', f"{o['error']} in {o['files']}", case)
        return
    rep.same('copy of the case file', o['copied'], True, case)
    for n in ('section_cl', 'section_cd'):
        if not any(f.split('.')[0] == n and o['sizes'][f] > 0 for f in o['files']):
            rep.violation('section plots', f"{n} missing in {o['files']}", case)
    cps = [d['p_coeffs'] for d in o['page'] if 'p_coeffs' in d]
    if len(cps) != 1:
        rep.violation('pressure page', f'{len(cps)} sources with p_coeffs', case)
    else:
        rep.close('pressure coefficients of the page', sorted(cps[0]), sorted(lib['cps']), case, rel=1e-9)
    got = o['book']
    ret, fil, digits = [], [], []
    for n in SHEETS:
        want = lib['sheets'][n]
        if n == 'Components' and got[n][0] != want[0] or got[n][1] != want[1] or [len(x) for x in got[n][2]] != [len(x) for x in want[2]]:
            rep.violation('shape of the workbook', f'{n}: {got[n][0]} {got[n][1][:3]} for {want[0]} {want[1][:3]}', case)
            return
        for a, b in zip(want[2], got[n][2]):
            ret += a
            fil += b
            digits += [S // 2 // 10 ** 8 + 10 ** 15 if n == 'Components' else S // 2 // 100 + 10 ** 18] * len(a)
    # what is printed are the totals: six digits at least
    names = [t[0] for t in lib['sheets']['Integrals'][1]]
    totals = [x[0] for x in lib['sheets']['Integrals'][2]]
    pr = printed(o['text'])
    if sorted(pr) != sorted(names):
        rep.violation('printed totals', f'{sorted(pr)} for {sorted(names)}', case)
        return
    big = max(abs(x) for x in totals)
    for n, x in zip(names, totals):
        ret.append(x)
        fil.append(pr[n])
        digits.append(fx(big * 2e-6 + 1e-6))
    runs.append([Event('stored').reals('returned', ret).reals('infile', fil).ints('digits', digits)])
    texts.append(case)


def run(rep):
    import scienceplots  # noqa: F401
    import pySailingVLM.runner.cli  # noqa: F401
    plain_style()
    n, steps, apart = (60, 14, 6) if THOROUGH else (16, 7, 2)
    cs = [dict(c, boat=dict(c['boat'], twistMode=0), keelOn=True, turn=-1) for c in cases(rep, 'small', 3 * n + 12, 'p19')]
    libs, good = parallel(library, cs), []
    for c, l in zip(cs, libs):
        if isinstance(l, str):
            if l.startswith('skip '):
                rep.skip(l[5:])
            else:
                rep.violation('library run', l, describe(c))
        else:
            good.append((c, l))
    trs = [t for t in quint_many('m_program.qnt', 'm_program', 4 * n, steps, tag='p19', invariant='inv') if any(s['act'] == 'run' for s in t)]
    # histories with failing and with succeeding runs
    trs.sort(key=lambda t: -len({(s['last']['done'], s['last']['took']['out'], s['last']['asked']) for s in t if s['act'] == 'run'}))
    trs = trs[:min(n, len(good) // 3)]
    jobs = []
    for k, t in enumerate(trs):
        rep.trace(len(t))
        jobs.append((k, [good[3 * k + i][0] for i in range(3)], t, k < apart))
    obs = fresh(replay, jobs)
    runs, texts = [], []
    for (k, cc, t, separate), oo in zip(jobs, obs):
        i = 0
        for m, s in enumerate(t):
            if s['act'] != 'run':
                continue
            took = s['last']['took']
            case = {'history': [x['act'] for x in t[:m + 1]], 'run': s['last'], 'files': {d: f['num'] for d, f in s['files'].items()}, 'separate process': separate,
                    'case': describe(cc[took['num'] - 1]) if took['num'] else None}
            rep.case(case, case)
            rep.extra['runs'] = rep.extra.get('runs', 0) + 1
            judge(rep, runs, texts, s, oo[i], good[3 * k + took['num'] - 1][1] if took['num'] else None, case)
            i += 1
    judged(rep, 'voyage', runs, texts)
