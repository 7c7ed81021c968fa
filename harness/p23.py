from core import *
from ship import *
LEVEL = 'exploration'
TECHNIQUE = ('Behaviours of the Quint model spec/m_whole.qnt, which computes sails, winds, circulations, forces and totals of a declared case from nothing but '
             'that case, replayed with the code in one process and compared state by state')
RULE = ('behaviours of spec/m_whole.qnt: a case of any sails, rig, shapes, wind, heel, leeway, then up to four changes, each of one setting (or of all by a hair), made in place on the same '
        'settings objects; panels, winds, circulations, velocities, loads and reported totals of every complete state')


def put(old, new):
    """Makes the settings those of another case without replacing the objects."""
    import numpy as np
    for k, n in vars(new).items():
        o = getattr(old, k, None)
        if isinstance(o, np.ndarray) and isinstance(n, np.ndarray) and o.shape == n.shape and o.dtype == n.dtype:
            o[...] = n
        else:
            setattr(old, k, n)


def follow(states):
    """Runs the code on the successive cases of one behaviour with one set of settings objects."""
    import numpy as np
    from pySailingVLM.results.inviscid_flow import InviscidFlowResults
    out, cont = [], None
    for s in states:
        new = containers(s['cas'], unused=False)
        if cont is None:
            cont = new
        else:
            for k in cont:
                put(cont[k], new[k])
        try:
            v = Voyage(s['cas'], cont=cont)
            m = v.vlm
            r = v.results()
            t, full, air = table(r.to_df_integral()), r.to_df_full(), m.inlet_conditions.to_df_full(v.csys)
            d = v.sail_names()
            out.append({'panels': np.array(v.set.panels), 'wind': np.array(m.inlet_conditions.V_app_infs), 'gamma': np.array(m.gamma_magnitude),
                        'vind': np.array(m.V_induced_at_cp), 'force': np.array(m.force), 'lift': np.array(m.lift), 'drag': np.array(m.drag),
                        'total force': triple(t, 'F_sails_total_COG'), 'total moment': triple(t, 'M_sails_total_COG'),
                        'forces of the sails': [triple(t, f'F_{n}_total_COG') for n in d], 'moments of the sails': [triple(t, f'M_{n}_total_COG') for n in d],
                        'centre of effort': np.array(r.above_water_centre_of_effort_estimate_xyz), 'keel moment': triple(t, 'M_keel_total_COG'),
                        'pressure': np.array(full['Pressure']), 'coefficient': np.array(m.p_coeffs),
                        **{n: np.array(d_[n]) for d_, n in ((air, 'AWA_infs_COG_deg'), (air, 'AWA_infs_COW_deg'), (full, 'AWA_fs_COG_deg'), (full, 'AWA_fs_COW_deg'))},
                        'overall moment': triple(t, 'M_total_COG'), 'refused': v.flux_refused})
        except Refused as e:
            out.append(f'refused with {e.code}: {e.text[:200]}')
        except Exception as e:
            import traceback
            out.append('skip' if 'flow through panel' in str(e) else f'{e!r} {traceback.format_exc(limit=-3)}')
    return out


def judge(rep, s, o, case):
    import numpy as np
    f, t = s['flowing'], s['sums']
    vs = lambda l: [fv(v) for v in l]
    P = np.array([[fv(q[c]) for c in ('se', 'sw', 'nw', 'ne')] for q in s['ps']])
    size = float(np.max(np.abs(P)))
    ok = rep.close('panels', o['panels'], P, case, rel=1e-10)
    ok = ok and rep.close('apparent winds', o['wind'], vs(s['winds']), case, rel=1e-9)
    if not ok:
        return
    F = np.array(vs(f['force']))
    big, amount = float(np.max(np.abs(F))) + 1e-30, float(np.sum(np.abs(F)))
    G = np.array([fl(g) for g in f['gamma']])
    # close panels make the system ill-conditioned; the judged accuracy is 1e-8 of the largest
    rep.close('circulations', o['gamma'], s['cas']['turn'] * G, case, rel=1e-8)
    rep.close('induced velocities', o['vind'], vs(f['vind']), case, rel=1e-8, scale=float(np.max(np.abs(vs(f['vind'])))) + float(np.max(np.abs(vs(s['winds'])))))
    for k in ('force', 'lift', 'drag'):
        rep.close(k, o[k], vs(f[k]), case, rel=1e-8, scale=big)
    # pressures: the load along the normal on the panel's area; a warped panel has no single one, and finding K2 (P11) may be in it
    load, A, W = np.array([fl(x) for x in t['press']]), np.array([[fl(x) for x in a] for a in t['areas']]), np.array(vs(s['winds']))
    lo, hi = np.minimum(load / A[:, 0], load / A[:, 1]), np.maximum(load / A[:, 0], load / A[:, 1])
    tol = big / A.min(axis=1) / 1e8
    got = o['pressure']
    ok = np.where(np.abs(got - load / A[:, 2]) <= tol, got, np.clip(got, lo, hi))
    rep.close('pressures', got / tol * 1e-8, ok / tol * 1e-8, case, rel=1e-8, scale=1.)
    rep.close('pressure coefficients', o['coefficient'], got / (fl(s['cas']['air']['rho']) / 2 * (W ** 2).sum(axis=1)), case, rel=1e-9, scale=float(np.max(np.abs(o['coefficient']))))
    lee = fl(s['cas']['boat']['leeway'])
    U = W + np.array(vs(f['vind']))
    for frame, less in (('COG', 0.), ('COW', lee)):
        for n, key, u in (('infs', 'angles', W), ('fs', 'flowAngles', U)):
            speed = np.hypot(u[:, 0], u[:, 1])
            sure = speed > 1e-6 * np.max(np.abs(W))
            d = o[f'AWA_{n}_{frame}_deg'] - (np.array([fl(x) for x in t[key]]) - less)
            # on the cut both signs do
            d = np.where((u[:, 0] < 0) & (np.abs(u[:, 1]) < 1e-6 * speed) & (np.abs(d) > 180.), np.abs(d) - 360., d)
            rep.close(f'wind angles AWA_{n}_{frame}', (d * speed / np.max(np.abs(W)))[sure], np.zeros(int(sure.sum())), case, rel=1e-6, scale=1.)
    lever = (size + float(np.max(np.abs(fv(s['cas']['ref']))))) * amount
    rep.close('total force', o['total force'], fv(t['force']), case, rel=1e-8, scale=amount)
    rep.close('total moment', o['total moment'], fv(t['moment']), case, rel=1e-8, scale=lever)
    rep.close('forces of the sails', o['forces of the sails'], vs(t['sailForce']), case, rel=1e-8, scale=amount)
    rep.close('moments of the sails', o['moments of the sails'], vs(t['sailMoment']), case, rel=1e-8, scale=lever)
    lever += (float(np.max(np.abs(fv(s['cas']['clr'])))) + size) * amount
    rep.close('keel moment', o['keel moment'], fv(t['keel']), case, rel=1e-8, scale=lever)
    rep.close('overall moment', o['overall moment'], fv(t['overall']), case, rel=1e-8, scale=lever)
    total = float(np.linalg.norm(fv(t['force'])))
    if t['effortKnown'] and total > 1e-3 * amount:
        rep.close('centre of effort', o['centre of effort'], fv(t['effort']), case, rel=1e-8, scale=lever / total * amount / total)


def run(rep):
    import pySailingVLM.solver.vlm  # noqa: F401
    import pySailingVLM.runner.sail  # noqa: F401
    plan = [('whole', 160, 24), ('whole_big', 32, 9)] if THOROUGH else [('whole', 48, 14), ('whole_big', 8, 4)]
    runs = []
    for main, n, steps in plan:
        for tr in quint_many('m_whole.qnt', main, n, steps, invariant='inv', tag='p23'):
            rep.trace(len(tr))
            done = [s for s in tr if s['stage'] == 'done']
            for s in tr:
                if s['stage'] in ('unsound', 'unsure'):
                    rep.skip({'unsound': 'outside the preconditions (sail at the water, section not accepted)', 'unsure': 'a point at the edge of a vortex core or on a wake'}[s['stage']])
            if done:
                runs.append(done)
    refused = total = 0
    for done, got in zip(runs, parallel(follow, runs)):
        for k, (s, o) in enumerate(zip(done, got)):
            case = dict(describe(s['cas']), after=[x['change'] for x in done[:k + 1]])
            total += 1
            if o == 'skip':
                refused += 1
                rep.skip('refused for a flux above the limit of 1e-12')
                continue
            rep.case(case, case)
            if isinstance(o, str):
                rep.violation('run fails', o, case)
            else:
                judge(rep, s, o, case)
    if 2 * refused > total:
        rep.violation('accepted solutions', f'{refused} of {total} cases refused for the flux through a panel')
