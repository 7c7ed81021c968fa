from core import *
import subprocess
LEVEL = 'exploration'
TECHNIQUE = 'Behaviours of the Quint specification spec/m_vortex.qnt replayed against the compiled and the uncompiled code and compared'
RULE = ('behaviours of spec/m_vortex.qnt: segments (degenerate ones included), semi-infinite lines, rings and both horseshoes of arbitrary '
        'strength, seen from points in general position, near the segment, on its line, at and around its ends, down the wake, far away; compiled and uncompiled')
K3 = 'compiled vortex elements cannot be called without the strength (default 1.0)'
CALLS = [('seg', 'vortex_line', 'ab', 1), ('back', 'vortex_line', 'ba', 1), ('part1', 'vortex_line', 'am', 1), ('part2', 'vortex_line', 'mb', 1),
         ('inf', 'vortex_infinite_line', 'aw', 1), ('ringv', 'vortex_ring', 'abcd', 1), ('shoe', 'vortex_horseshoe', 'bcw', 1),
         ('shoe2', 'vortex_horseshoe_v2', 'abcdw', 1)]


def evaluate(inputs):
    """[{element: velocity or error}] of the code, with and without the strength given."""
    import numpy as np
    from pySailingVLM.solver import velocity
    out = []
    for inp in inputs:
        arrs = {k: np.array(v, float) for k, v in inp.items() if k != 'gamma'}
        res = {}
        for name, fn, args, _ in CALLS:
            mine = {k: v.copy() for k, v in arrs.items()}
            a = [mine['p']] + [mine[k] for k in args]
            try:
                with np.errstate(all='ignore'):
                    res[name] = [float(x) for x in getattr(velocity, fn)(*a, inp['gamma'])]
            except ZeroDivisionError:
                res[name] = 'singular'
            except Exception as e:
                res[name] = repr(e)[:600]
            if any(not np.array_equal(mine[k], arrs[k]) for k in arrs):
                res[name] = 'changed its arguments'
            try:
                with np.errstate(all='ignore'):
                    res[name + '/1'] = [float(x) for x in getattr(velocity, fn)(*a)]
            except ZeroDivisionError:
                res[name + '/1'] = 'singular'
            except Exception as e:
                res[name + '/1'] = repr(e)[:600]
        out.append(res)
    return out


def uncompiled(inputs):
    d = scratch()
    src, dst = os.path.join(d, 'in.json'), os.path.join(d, 'out.json')
    with open(src, 'w') as f:
        json.dump(inputs, f)
    r = subprocess.run([sys.executable, os.path.abspath(__file__), src, dst], capture_output=True, text=True, timeout=600,
                       env=dict(os.environ, NUMBA_DISABLE_JIT='1'))
    if r.returncode != 0:
        raise MachineryError(f'uncompiled run: {r.stderr[-800:]}')
    with open(dst) as f:
        return json.load(f)


def compare(rep, how, inp, s, res, case):
    g, seen = inp['gamma'], s['seen']
    for name, fn, args, _ in CALLS:
        w = seen[name]
        for key, strength in ((name, g), (name + '/1', 1.0)):
            got = res[key]
            clause = f'{fn} ({how})'
            if key.endswith('/1') and how == 'compiled' and isinstance(got, str) and 'omitted(default=1.0)' in got:
                rep.finding('K3', K3, clause, got, case)
                continue
            if w['unsure']:
                rep.extra['comparisons_left_out'] = rep.extra.get('comparisons_left_out', 0) + 1
                continue
            if isinstance(got, str):
                rep.violation(clause, got, case | {'element': key})
                continue
            want = [strength * x for x in fv(w['v'])]
            if w['v'] == {'x': 0, 'y': 0, 'z': 0} and w['slack'] == 0:
                if any(x != 0 for x in got):
                    rep.violation(clause + ': exactly zero', f'observed {got}', case | {'element': key})
            else:
                rep.close(clause, got, want, case | {'element': key}, rel=1e-11, absolute=abs(strength) * fl(w['slack']) + 1e-15)


def run(rep):
    traces = quint_many('m_vortex.qnt', 'm_vortex', 12000 if THOROUGH else 2000, 1, invariant='inv')
    inputs = []
    for tr in traces:
        s = tr[-1]
        rep.trace(len(tr))
        inputs.append({k: fv(s[v]) for k, v in (('p', 'p'), ('a', 'a'), ('b', 'b'), ('c', 'c'), ('d', 'd'), ('w', 'w'), ('m', 'mid'))} | {'gamma': fl(s['gamma'])})
    for how, results in (('compiled', evaluate(inputs)), ('uncompiled', uncompiled(inputs))):
        for tr, inp, res in zip(traces, inputs, results):
            s = tr[-1]
            case = {'place': s['place'], **inp}
            rep.case(json.dumps(inp), {'place': s['place'], 'how': how, **inp})
            compare(rep, how, inp, s, res, case)


if __name__ == '__main__':
    import_repo(jit=False)
    with open(sys.argv[1]) as f:
        r = evaluate(json.load(f))
    with open(sys.argv[2], 'w') as f:
        json.dump(r, f)
