from core import *
from ship import judged
LEVEL = 'exploration'
TECHNIQUE = ('Recorded runs of the solver\'s building blocks on sets of surfaces drawn from the Quint model spec/surface.qnt (m_surfaces), judged by the trace '
             'specification spec/surfaces.qnt, which solves the small ones itself and relates the larger ones to their moved, renamed and divided selves')
RULE = ('one to three four-cornered surfaces (some with corners at whole metres, given as whole numbers) of 1-6 panels solved by the specification itself; sets of 12-40 panels solved by the code again after a rigid motion, with '
        'the other circulation sense, listed from the other end, in another order, and cut in two')


def solve(corners, nc, ns, streams, rho, turn, single):
    """The building blocks as the wing example and the solver use them."""
    import numpy as np
    from pySailingVLM.solver import coefs, forces, velocity
    from pySailingVLM.solver.panels import make_panels_from_le_te_points, get_panels_area
    parts = [make_panels_from_le_te_points([np.array(p) for p in c], [nc, ns]) for c in corners]
    p, te, le = (np.concatenate([np.asarray(x[k]) for x in parts]) for k in range(3))
    V = np.ascontiguousarray(streams)
    areas = get_panels_area(p)
    if single:
        nv, ctr, cp, rings, spans, _, _ = coefs.calculate_normals_collocations_cps_rings_spans_leading_trailing_mid_points(p, turn)
    else:
        nv, ctr, cp, rings, spans, _, _ = coefs.calculate_vlm_variables(p, te, turn, nc, ns)
    A, vi = coefs.calc_velocity_coefs(V, ctr, rings, nv, te, turn)
    gamma = coefs.solve_eq(A, coefs.calculate_RHS(V, nv))
    f = {k: forces.calc_force_wrapper(V, gamma, rho, cp, rings, ns, nv, spans, te, le, n, turn)[0] for k, n in (('force', 'force_xyz'), ('lift', 'lift'), ('drag', 'drag'))}
    pressure = forces.calc_pressure(f['force'], nv, areas)
    return {'panels': p, 'te': te, 'le': le, 'areas': areas, 'normals': nv, 'ctr': ctr, 'cp': cp, 'rings': rings, 'gamma': gamma, 'pressure': pressure,
            'pcoef': forces.calc_pressure_coeff(pressure, rho, V), **f}


def record(job):
    import numpy as np
    from pySailingVLM.solver.coefs import get_vlm_Cxyz, get_vlm_CL_CD_free_wing
    st, small = job
    s, s2 = st['s'], st['s2']
    # whole numbers are given as such
    whole = lambda x: all(c[k][a] % S == 0 for c in x['corners'] for k in c for a in 'xyz')
    pt = lambda x, p: np.array([int(p[a] // S) for a in 'xyz']) if whole(x) else np.array(fv(p))
    named = lambda x: [[pt(x, c[k]) for k in ('l0', 't0', 'l1', 't1')] for c in x['corners']]
    cs, V = named(s), np.array([fv(v) for v in s['streams']])
    nc, ns, rho, turn, n = s['nc'], s['ns'], fl(s['rho']), float(s['turn']), len(s['corners'])
    # one surface can be prepared panel by panel
    single = n == 1 and s['rho'] // 10**27 % 2 == 0
    try:
        a = solve(cs, nc, ns, V, rho, turn, single)
        again = lambda act, b: Event(act).reals('force2', b['force']).reals('gamma2', b['gamma']).reals('pressure2', b['pressure'])
        ev = [Event('laid out').ints('grid', [n, nc, ns, s['rho'], s['turn'], int(s['plane']), s['area']])
              .ints('corners', [c[k][x] for c in s['corners'] for k in ('l0', 't0', 'l1', 't1') for x in 'xyz']).ints('streams', [v[x] for v in s['streams'] for x in 'xyz'])
              .reals('panels', a['panels']).ints('flags', [int(x) for t in zip(a['te'], a['le']) for x in t]),
              Event('elements').reals('areas', a['areas']).reals('normals', a['normals']).reals('ctr', a['ctr']).reals('cp', a['cp']).reals('rings', a['rings'])]
        if small:
            ev.append(Event('solved'))
        else:
            ev.append(Event('weighed'))
        ev[-1].reals('gamma', a['gamma']).reals('pcoef', a['pcoef'])
        for k in ('force', 'lift', 'drag', 'pressure'):
            ev[-1].reals(k, a[k])
        F = lambda: (a['force'], V[0], rho, fl(s['area']))
        w = ev[-1] if not small else Event('weighed')
        w.reals('cxyz', get_vlm_Cxyz(*F())).reals('clcd', get_vlm_CL_CD_free_wing(*F()))
        if small:
            ev.append(w)
        b = solve(named(s2), nc, ns, np.array([fv(v) for v in s2['streams']]), rho, turn, single)
        ev.append(again('moved', b).ints('turning', [st['r'][k][x] for k in ('r1', 'r2', 'r3') for x in 'xyz']))
        ev.append(again('counted', solve(cs, nc, ns, V, rho, -turn, single)))
        flip = V.reshape(n, nc, ns, 3)[:, :, ::-1].reshape(-1, 3)
        ev.append(again('from the other end', solve([[c[2], c[3], c[0], c[1]] for c in cs], nc, ns, flip, rho, turn, single)))
        if n > 1:
            ev.append(again('reordered', solve(cs[::-1], nc, ns, V.reshape(n, nc * ns, 3)[::-1].reshape(-1, 3), rho, turn, False)))
        elif ns % 2 == 0:
            c = cs[0]
            m = ((c[0] + c[2]) / 2, (c[1] + c[3]) / 2)
            v = V.reshape(nc, 2, ns // 2, 3).transpose(1, 0, 2, 3).reshape(-1, 3)
            ev.append(again('cut', solve([[c[0], c[1], *m], [*m, c[2], c[3]]], nc, ns // 2, v, rho, turn, False)))
        return ev
    except NotFinite as e:
        return f'not finite: {e}'
    except Exception as e:
        import traceback
        return f'{e!r} {traceback.format_exc(limit=-3)}'


def run(rep):
    import pySailingVLM.runner.aircraft  # noqa: F401
    import pySailingVLM.solver.vlm  # noqa: F401
    jobs = [(tr[-1], True) for tr in quint_many('surface.qnt', 'surfaces_small', 480 if THOROUGH else 96, 1, invariant='inv', tag='p25')]
    jobs += [(tr[-1], False) for tr in quint_many('surface.qnt', 'surfaces_large', 480 if THOROUGH else 96, 1, invariant='inv', tag='p25b')]
    runs, texts = [], []
    for (st, _), r in zip(jobs, parallel(record, jobs)):
        s = st['s']
        text = {'corners': [[fv(c[k]) for k in ('l0', 't0', 'l1', 't1')] for c in s['corners']], 'chordwise': s['nc'], 'spanwise': s['ns'], 'rho': fl(s['rho']),
                'streams': [fv(v) for v in s['streams'][:3]], 'orientation': s['turn']}
        if isinstance(r, str):
            rep.case(text, text)
            rep.violation('run fails', r, text)
        else:
            runs.append(r)
            texts.append(text)
    judged(rep, 'surfaces', runs, texts)
