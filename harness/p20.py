from core import *
from ship import judged, flux_accepted
LEVEL = 'exploration'
TECHNIQUE = ('Quint model spec/wing.qnt (m_wing) solves small wings completely and is compared number by number; recorded runs of larger wings are judged by the '
             'trace specification spec/wings.qnt on cases of m_wings')
RULE = ('wings of 1-5 panels solved by the specification itself; wings of up to 5 x 12 panels flown by the code in two streams, at opposite incidence, with both '
        'orientations and as a mainsail on its image, judged by spec/wings.qnt')


def fly(w, aoa=1, speed=1.0, rho=None, turn=None):
    import numpy as np
    from pySailingVLM.runner.aircraft import Aircraft
    args = dict(chord_length=fl(w['chord']), half_wing_span=fl(w['half']), AoA_deg=aoa * fl(w['aoa']), n_spanwise=w['ns'], n_chordwise=w['nc'],
                V=np.array(fv(w['stream'])) * speed, rho=fl(w['rho']) if rho is None else rho)
    if turn is not None:
        args['gamma_orientation'] = turn
    try:
        return quietly(Aircraft, **args), False
    except ValueError as e:
        if 'flow through panel' not in str(e):
            raise
    # the absolute limit on the flux is P22's; rounding alone can exceed it
    with flux_accepted():
        return quietly(Aircraft, **args), True


def sail(w):
    import numpy as np
    from ship import Voyage
    from pySailingVLM.runner.container import Rig, Solver, Conditions, MainSail, Csys, Keel
    two = lambda x: np.array([x, x])
    solver = Solver(n_spanwise=w['ns'] // 2, n_chordwise=w['nc'], interpolation_type='linear')
    c = {'solver': solver, 'jib': None, 'csys': Csys(), 'keel': Keel(),
         'rig': Rig(main_sail_luff=fl(w['half']), sheer_above_waterline=0.0, boom_above_sheer=0.0, rake_deg=90.0, mast_LOA=0.0, sails_def='main'),
         'main': MainSail(girths=np.array([0.0, 1.0]), chords=two(fl(w['chord'])), centerline_twist_deg=two(-fl(w['aoa'])), camber=two(0.0),
                          camber_distance_from_luff=two(0.5)),
         'cond': Conditions(leeway_deg=0.0, heel_deg=0.0, SOG_yacht=0.0, tws_ref=fl(w['stream']['x']), alpha_true_wind_deg=0.0, rho=fl(w['rho']), wind_profile='flat')}
    return Voyage(None, cont=c).vlm


def small(s):
    """Both orientations of one wing, as plain numbers."""
    out = []
    for turn in (None, 1.0, -1.0):
        try:
            a, _ = fly(s['w'], turn=turn)
            out.append({'coefficients': list(a.Cxyz), 'lift coefficient': a.CL, 'drag coefficient': a.CD, 'aspect ratio': a.AR, 'force': a.force, 'pressure': a.pressure,
                        'pressure coefficient': a.Cp})
        except (Refused, Exception) as e:
            out.append('skip' if 'flow through panel' in str(e) else f'{e!r}')
    return out


def record(s):
    w = s['w']
    try:
        a, refused = fly(w)
        t = lambda x: (x.CL_theoretical, x.CD_theoretical)
        ev = [Event('wing').ints('wing', [w['chord'], w['half'], w['aoa'], w['nc'], w['ns'], w['rho']]).reals('stream', fv(w['stream'])).reals('force', a.force)
              .reals('pressure', a.pressure).reals('cxyz', a.Cxyz).reals('cl', [a.CL]).reals('cd', [a.CD]).reals('cp', [a.Cp]).reals('ar', [a.AR])
              .reals('clth', [a.CL_theoretical]).reals('cdth', [a.CD_theoretical])]
        b = fly(w, turn=-1.0)[0]
        ev.append(Event('turned').reals('turnforce', b.force).reals('turncxyz', b.Cxyz))
        b = fly(w, speed=fl(s['k']), rho=fl(s['rho2']))[0]
        ev.append(Event('stream').ints('k', [s['k']]).ints('rho2', [s['rho2']]).reals('strforce', b.force).reals('strcxyz', b.Cxyz).reals('strpressure', b.pressure))
        if w['stream']['y'] == 0 and w['stream']['z'] == 0:
            b = fly(w, aoa=-1)[0]
            ev.append(Event('opposite').reals('oppforce', b.force).reals('oppcxyz', b.Cxyz).reals('oppclth', [b.CL_theoretical]).reals('oppcdth', [b.CD_theoretical]))
            v = sail(w)
            ev.append(Event('as sail').reals('sailforce', v.force).reals('sailpressure', v.pressure))
        return ev, refused
    except NotFinite as e:
        return f'not finite: {e}'
    except Refused as e:
        return f'refused with {e.code}: {e.text[:200]}'
    except Exception as e:
        import traceback
        if 'flow through panel' in str(e):
            return 'skip'
        return f'{e!r} {traceback.format_exc(limit=-3)}'


def run(rep):
    import numpy as np
    import pySailingVLM.runner.aircraft  # noqa: F401
    import pySailingVLM.solver.vlm  # noqa: F401
    plain = lambda w: {k: fv(v) if k == 'stream' else v if k in ('nc', 'ns') else fl(v) for k, v in w.items()}
    ends = []
    for tr in quint_many('wing.qnt', 'm_wing', 640 if THOROUGH else 96, 2, invariant='inv', tag='p20'):
        rep.trace(len(tr))
        if tr[-1]['sol']['ok']:
            ends.append(tr[-1])
        else:
            rep.skip('a point at the edge of a vortex core')
    for s, got in zip(ends, parallel(small, ends)):
        w, case = s['w'], plain(s['w'])
        rep.case(case, case)
        f = [fv(v) for v in s['sol']['force']]
        q = float(np.max(np.abs(f))) + 1e-6
        for g, turn in zip(got, ('default', '+1', '-1')):
            c = dict(case, orientation=turn)
            if g == 'skip':
                rep.skip('refused for a flux above 1e-12')
                continue
            if isinstance(g, str):
                rep.violation('the wing raises', g, c)
                continue
            co = fv(s['coefs'])
            rep.close('force', g['force'], f, c, rel=1e-8, scale=q)
            rep.close('pressure', g['pressure'], [fl(p) for p in s['sol']['pressure']], c, rel=1e-8, scale=q * w['nc'] * w['ns'] / (2 * fl(w['half']) * fl(w['chord'])))
            rep.close('coefficients', g['coefficients'], co, c, rel=1e-8, absolute=1e-9)
            rep.close('lift coefficient', g['lift coefficient'], co[1], c, rel=1e-8, absolute=1e-9)
            rep.close('drag coefficient', g['drag coefficient'], co[0], c, rel=1e-8, absolute=1e-9)
            rep.close('pressure coefficient', g['pressure coefficient'], fl(s['cp']), c, rel=1e-7, absolute=1e-9)
            rep.close('aspect ratio', g['aspect ratio'], 2 * fl(w['half']) / fl(w['chord']), c)
    cs = [tr[-1] for tr in quint_many('wing.qnt', 'm_wings', 320 if THOROUGH else 48, 1, tag='p20')]
    runs, texts = [], []
    for s, r in zip(cs, parallel(record, cs)):
        text = dict(plain(s['w']), speed_factor=fl(s['k']), second_rho=fl(s['rho2']))
        if r == 'skip':
            rep.skip('refused for a flux above 1e-12')
        elif isinstance(r, str):
            rep.case(text, text)
            rep.violation('run fails', r, text)
        else:
            if r[1]:
                rep.skip('(not skipped) refused for a flux above 1e-12 that is rounding')
            runs.append(r[0])
            texts.append(text)
    if 2 * len(runs) < len(cs) and not rep.violations:
        rep.violation('accepted wings', f'{len(cs) - len(runs)} of {len(cs)} wings refused for the flux through a panel', plain(cs[0]['w']))
    judged(rep, 'wings', runs, texts)
