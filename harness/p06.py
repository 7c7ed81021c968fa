from core import *
LEVEL = 'exploration'
RULE = ('behaviours of spec/m_girths.qnt: tables of 2-10 (linear) or 4-9 (spline) girths for two sails with three quantities each '
        '(random, constant, cubic; a fifth of the tables in whole numbers, given as such), evaluated at 1-26 stations; single, mirrored and combined variants replayed')


def whole(l):
    """Whole numbers are given as such."""
    return [int(x // S) for x in l] if all(x % S == 0 for x in l) else [fl(x) for x in l]


def run(rep):
    import numpy as np
    from pySailingVLM.solver.interpolator import Interpolator
    for tr in quint_many('m_girths.qnt', 'm_girths', 3000 if THOROUGH else 320, 1, invariant='inv'):
        rep.trace(len(tr))
        s0, s1 = tr
        kind = ['linear', 'spline'][s0['kind']]
        n = s0['n']
        T = {k: (whole(s0[k]['xs']), [whole(ys) for ys in s0[k]['ys']]) for k in ('jib', 'mainsail')}
        at = {'jib': [[fl(y) for y in l] for l in s1['atJib']], 'mainsail': [[fl(y) for y in l] for l in s1['atMain']]}
        case = {'kind': kind, 'n': n, 'jib': T['jib'], 'main': T['mainsail']}
        rep.case(case, case)
        try:
            it = Interpolator(kind)
            for k in T:
                xs = np.array(T[k][0])
                for y, want in zip(T[k][1], at[k]):
                    sc = max(1e-3, max(map(abs, y)), max(map(abs, want)))
                    rep.close(f'{k} stations', it.interpolate_girths(xs, np.array(y), n), want, case, scale=sc)
                    rep.close(f'{k} mirrored stations', it.interpolate_and_mirror_girths(xs, np.array(y), n), want[::-1] + want, case, scale=sc)
            out = it.interpolate_data_for_sections([np.array(y) for y in T['mainsail'][1]], [np.array(y) for y in T['jib'][1]],
                                                   np.array(T['mainsail'][0]), np.array(T['jib'][0]), n)
            rep.same('number of quantities', len(out), 3, case)
            for q, o in enumerate(out):
                j, m = at['jib'][q], at['mainsail'][q]
                want = j[::-1] + j + m[::-1] + m
                rep.close('combined stations', o, want, case, scale=max(1e-3, max(map(abs, want))))
        except Exception as e:
            rep.violation('interpolation raises', repr(e), case)
