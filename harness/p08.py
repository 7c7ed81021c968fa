from core import *
from ship import Voyage, cases, sail_runs
LEVEL = 'exploration'
TECHNIQUE = ('Behaviours of the Quint specification spec/m_wind.qnt replayed against the code; recorded runs of whole sail sets validated by the '
             'Quint trace specification spec/voyage.qnt')
RULE = ('behaviours of spec/m_wind.qnt: flat, exponential, logarithmic profiles (wind from any side, zero wind or boat speed, zero and '
        'unit exponents, water levels), 1-5 points above the water and their images; winds, lengths and angles compared')
NAMES = ['flat', 'exponential', 'logarithmic']


def angle(rep, clause, got, want, v, case, shift=0.0):
    """Angles of vectors of vanishing length, and at the branch cut, are compared as directions."""
    import numpy as np
    got, want, v = np.asarray(got, float), np.asarray(want, float), np.asarray(v, float)
    ln = np.hypot(v[..., 0], v[..., 1])
    if got.shape != want.shape:
        return rep.violation(clause, f'shape {got.shape}', case)
    d = np.abs(got - want)
    cut = (v[..., 0] < 0) & (np.abs(v[..., 1]) <= 1e-9 * np.maximum(ln, 1e-300))
    d = np.where(cut, np.minimum(d, np.abs(d - 360)), d)
    bad = ~(d <= 1e-8) & (ln > 1e-9)
    if np.any(bad):
        i = int(np.argmax(bad.reshape(-1)))
        rep.violation(clause, f'observed {got.reshape(-1)[i]}, specified {want.reshape(-1)[i]}', case)


def conditions(a, **kw):
    """The Conditions container of a specified wind."""
    from pySailingVLM.runner.container import Conditions
    return Conditions(**{**dict(SOG_yacht=fl(a['sog']), tws_ref=fl(a['tws']), alpha_true_wind_deg=fl(a['alpha']),
                                reference_water_level_for_wind_profile=fl(a['level']), wind_exp_coeff=fl(a['coeff']),
                                wind_reference_measurment_height=fl(a['href']), rho=fl(a['rho']), wind_profile=NAMES[a['kind']],
                                roughness=fl(a['rough'])), **kw})


def wiring(v):
    return [v.given(), v.elements('given'), v.inlet()]


def run(rep):
    import numpy as np
    from pySailingVLM.inlet.winds import FlatWindProfile, ExpWindProfile, LogWindProfile
    from pySailingVLM.inlet.inlet_conditions import InletConditions
    from pySailingVLM.rotations.csys_transformations import CSYS_transformations
    from pySailingVLM.runner.sail import Wind
    for tr in quint_many('m_wind.qnt', 'm_wind', 4000 if THOROUGH else 480, 1, invariant='inv'):
        rep.trace(len(tr))
        s = tr[-1]
        a, lee = s['air'], fl(s['leeway'])
        cps = np.array([fv(p) for p in s['pts']])
        case = {k: fl(v) if k != 'kind' else NAMES[v] for k, v in a.items()} | {'leeway': lee, 'points': cps.tolist()}
        rep.case(case, case)
        tw, aw = [fv(m['tw']) for m in s['met']], [fv(m['aw']) for m in s['met']]
        sc = max(1.0, fl(a['tws']) + abs(fl(a['sog'])), float(np.max(np.abs(tw))))
        try:
            al, t, v = fl(a['alpha']), fl(a['tws']), fl(a['sog'])
            direct = [FlatWindProfile(al, t, v), ExpWindProfile(al, t, v, fl(a['coeff']), fl(a['href']), fl(a['level'])),
                      LogWindProfile(al, t, v, fl(a['rough']), fl(a['href']))][a['kind']]
            cs = CSYS_transformations(0.0, lee)
            for prof in (direct, quietly(lambda: Wind(conditions(a)).profile)):
                for i, p in enumerate(cps):
                    w = prof.get_true_wind_speed_at_h(abs(p[2]))
                    rep.close('true wind', w, tw[i], case, scale=sc)
                    rep.close('apparent wind', prof.get_app_infs_at_h(w), aw[i], case, scale=sc)
                    if fl(s['met'][i]['tws']) > 1e-6 and (a['kind'] < 2 or fl(a['rough']) < abs(p[2])):
                        angle(rep, 'apparent wind angle', np.rad2deg(prof.get_app_alfa_infs_at_h(w)), fl(s['met'][i]['awa']), aw[i], case)
                ic = InletConditions(prof, fl(a['rho']), cps)
                rep.same('density', ic.rho, fl(a['rho']), case)
                df = ic.to_df_full(cs)
                vec = lambda n: np.array([df[f'{n}_COG.{c}'] for c in 'xyz']).T
                for clause, got, want, scale in (
                        ('inlet true wind', ic.tws_at_cp, tw, sc), ('inlet apparent wind', ic.V_app_infs, aw, sc),
                        ('true wind length', ic.tws_length_at_ctr_points, [fl(m['tws']) for m in s['met']], sc),
                        ('apparent wind length', ic.V_app_infs_length, [fl(m['aws']) for m in s['met']], sc),
                        ('table true wind', vec('TWS'), tw, sc), ('table apparent wind', vec('V_app_infs'), aw, sc),
                        ('table points', vec('cp_points'), cps, 1.0),
                        ('table true wind length', df['TWS_length'], [fl(m['tws']) for m in s['met']], sc),
                        ('table apparent wind length', df['V_app_infs_length'], [fl(m['aws']) for m in s['met']], sc)):
                    rep.close(clause, got, want, case, scale=scale)
                awa = [fl(m['awa']) for m in s['met']]
                angle(rep, 'angle to the course', ic.AWA_infs_deg, awa, aw, case)
                angle(rep, 'table angle to the course', df['AWA_infs_COG_deg'], awa, aw, case)
                angle(rep, 'table angle to the centreline', df['AWA_infs_COW_deg'], [fl(m['cow']) for m in s['met']], aw, case)
                if a['kind'] == 1:
                    d = prof.to_df_integral(cs)
                    d = dict(zip(d['Quantity'], d['Value']))
                    r = s['atRef']
                    for c in 'xyz':
                        rep.close('summary true wind', d[f'TWS_at_reference_height_COG.{c}'], fl(r['tw'][c]), case, scale=sc)
                        rep.close('summary apparent wind', d[f'V_app_infs_at_reference_height_COG.{c}'], fl(r['aw'][c]), case, scale=sc)
                    rep.close('summary lengths', [d['TWS_length_at_reference_height'], d['V_app_infs_length_at_reference_height_COG'],
                                                  d['Reference_measurement_height'], d['Reference_water_level_for_wind_profile']],
                              [fl(r['tws']), fl(r['aws']), fl(a['href']), fl(a['level'])], case, scale=sc)
                    angle(rep, 'summary angle to the course', d['AWA_infs_at_reference_height_COG_deg'], fl(r['awa']), fv(r['aw']), case)
                    angle(rep, 'summary angle to the centreline', d['AWA_infs_at_reference_height_COW_deg'], fl(r['cow']), fv(r['aw']), case)
        except Exception as e:
            rep.violation('wind raises', repr(e), case)
    # in a whole run: the winds of the panels and of their images
    sail_runs(rep, cases(rep, 'small', 240 if THOROUGH else 48, 'p08'), wiring)
    sail_runs(rep, cases(rep, 'large', 32 if THOROUGH else 5, 'p08l'), wiring)
