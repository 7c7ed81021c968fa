from core import *
from ship import *
LEVEL = 'exploration'
TECHNIQUE = ('Pairs of cases related by the transformations of the Quint model spec/m_scales.qnt, run by the code; the recorded pairs are judged by the trace '
             'specification spec/scaled.qnt')
RULE = ('cases with the same case in denser air, faster stream, of other size (any combination of factors), a third also reflected in y, half of them at rest and turned '
        'about the vertical with the wind, a third carried along by a stream that leaves the apparent wind alone; 22 quantities each')


def measure(cas, second=False):
    import numpy as np
    from pySailingVLM.solver.coefs import get_C
    v = Voyage(cas)
    m, r = v.vlm, v.results()
    d = v.sail_names()
    t, full = table(r.to_df_integral()), r.to_df_full()
    sec = lambda load: get_C(m.panels, m.areas, load, m.inlet_conditions.V_app_infs, m.n_spanwise, m.n_chordwise, m.rho)
    mo = np.array([full[f'M_sails_COG.{c}'] for c in 'xyz']).T
    out = {'gamma': m.gamma_magnitude, 'wind': m.inlet_conditions.V_app_infs, 'vind': m.V_induced_at_cp, 'vcp': m.V_app_fs_at_cp, 'force': m.force, 'lift': m.lift, 'drag': m.drag,
           'pressure': m.pressure, 'pcoef': m.p_coeffs, 'areas': m.areas, 'moment': mo, 'totf': triple(t, 'F_sails_total_COG'), 'totm': triple(t, 'M_sails_total_COG'),
           'sailf': [triple(t, f'F_{n}_total_COG') for n in d], 'sailm': [triple(t, f'M_{n}_total_COG') for n in d], 'totfcow': triple(t, 'F_sails_total_COW'),
           'totmcow': triple(t, 'M_sails_total_COW', COW), 'ce': r.above_water_centre_of_effort_estimate_xyz, 'seclift': sec(m.lift), 'secdrag': sec(m.drag)}
    if cas['keelOn']:
        out |= {'keelm': triple(t, 'M_keel_total_COG'), 'allm': triple(t, 'M_total_COG')}
    e = Event('varied' if second else 'base')
    for k, x in out.items():
        e.reals(k + ('2' if second else ''), x)
    if not second:
        f = np.linalg.norm(m.force, axis=1).sum()
        reach = max(np.abs(m.cp).max(), np.abs(v.c['csys'].reference_level_for_moments).max(), np.abs(v.c['keel'].center_of_lateral_resistance_upright).max())
        e.reals('forces', [f]).reals('leverage', [f * reach]).reals('netforce', [np.linalg.norm(out['totf']) + 1e-12])
        e.reals('control', m.ctr_p).reals('cp', m.cp).reals('rings', m.rings)
    return e, v.flux_refused


def record(s):
    try:
        c = s['change']
        a, r1 = measure(s['cas'])
        b, r2 = measure(s['varied'], True)
        return [a, b.ints('change', [c['density'], c['speed'], c['len'], int(c['mirrored']), c['turned']])], r1 or r2
    except NotFinite as e:
        return f'not finite: {e}'
    except Refused as e:
        return f'refused with {e.code}: {e.text[:200]}'
    except Exception as e:
        import traceback
        return f'{e!r} {traceback.format_exc(limit=-3)}'


def run(rep):
    import pySailingVLM.solver.vlm  # noqa: F401
    cs = []
    for tr in quint_many('m_scales.qnt', 'scales', 480 if THOROUGH else 96, 1, invariant='inv', tag='p18'):
        rep.trace(len(tr))
        if tr[-1]['ok']:
            cs.append(tr[-1])
        else:
            rep.skip('outside the preconditions (sail at the water, section not accepted)')
    runs, texts = [], []
    for s, r in zip(cs, parallel(record, cs)):
        text = {'case': describe(s['cas']), 'change': {k: v if isinstance(v, bool) else fl(v) for k, v in s['change'].items()}}
        if isinstance(r, str):
            rep.case(text, text)
            rep.violation('run fails', r, text)
        else:
            if r[1]:
                rep.skip('(not skipped) refused for a flux above 1e-12 that is rounding')
            runs.append(r[0])
            texts.append(text)
    judged(rep, 'scaled', runs, texts)
