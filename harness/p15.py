from core import *
LEVEL = 'exploration'
TECHNIQUE = ('Exhaustive TLC exploration of the Quint specifications in spec/m_input.qnt (compiled to TLA+), every state replayed against the input '
             'checks of the code')
RULE = ('every sails_def (declared and undeclared names), complete input with up to two (thorough: three) things left out, added or given another length, '
        'in any combination; every wind profile name with every set of missing parameters')
MAIN_DIMS = ('main_sail_luff',)


def sail_state(s):
    """Verdict of the code on a state."""
    import numpy as np
    from pySailingVLM.runner.container import Rig, Solver, MainSail, JibSail
    from pySailingVLM.rotations.csys_transformations import CSYS_transformations
    from pySailingVLM.runner.sail import Sail
    vals = {'girths': lambda n: np.linspace(0, 1, n), 'chords': lambda n: np.linspace(3, 1, n), 'centerline_twist_deg': lambda n: np.linspace(5, 12, n),
            'camber': lambda n: np.full(n, 0.05), 'camber_distance_from_luff': lambda n: np.full(n, 0.4)}
    rig = Rig(sails_def=None if s['sails'] == 'none' else s['sails'])
    # zero is a value like others
    if seed_of('p15 zero', repr(s)) % 3 == 0:
        vals.update(centerline_twist_deg=np.zeros, camber=np.zeros)
        rig.foretriangle_base = rig.boom_above_sheer = rig.mast_LOA = 0.0

    def sail(cls, d):
        if d['absent']:
            return None
        o = cls(**{k: f(6 if k in d['longer'] else 5) for k, f in vals.items()})
        for k in d['missing']:
            setattr(o if k in vals else rig, k, None)
        return o
    jib, main = sail(JibSail, s['jib']), sail(MainSail, s['mainsail'])
    # dimensions belong to the rig, whether or not the sail is there
    for d in (s['jib'], s['mainsail']):
        for k in d['missing']:
            if k not in vals:
                setattr(rig, k, None)
    for k in s['common']:
        setattr(rig, k, None)
    solver = Solver(n_spanwise=2, n_chordwise=1, interpolation_type='linear')
    csys = CSYS_transformations(10.0, 5.0)
    try:
        obj = quietly(Sail, solver, rig, main, jib, csys)
        st = quietly(lambda: obj.sail_set)
        return 'accepted', [g.name for g in st.sails], tuple(np.asarray(st.panels).shape)
    except Refused as e:
        return 'refused', e.code, e.text
    except Exception as e:
        return 'fails', repr(e), ''


def wind_state(s):
    import numpy as np
    from pySailingVLM.runner.container import Conditions
    from pySailingVLM.runner.sail import Wind
    from pySailingVLM.inlet.winds import ExpWindProfile, FlatWindProfile, LogWindProfile
    a = {'wind_exp_coeff': 0.0 if s['zero'] else 0.2, 'wind_reference_measurment_height': 8.0, 'roughness': 0.03}
    p = {k: None if k in s['missing'] else v for k, v in a.items()}
    c = Conditions(wind_profile=None if s['profile'] == 'none' else s['profile'], tws_ref=7.0, alpha_true_wind_deg=40.0, SOG_yacht=3.0,
                   reference_water_level_for_wind_profile=-0.5, **p)
    try:
        w = quietly(lambda: Wind(c).profile)
        speeds = [float(np.linalg.norm(w.get_true_wind_speed_at_h(h))) for h in (1.0, 4.0, 20.0)]
        return 'accepted', speeds, ''
    except Refused as e:
        return 'refused', e.code, e.text
    except Exception as e:
        return 'fails', repr(e), ''


def refusal(rep, res, case):
    kind, code, text = res
    if kind == 'accepted':
        rep.violation('refusal', f'accepted: {code}', case)
    elif kind == 'fails':
        rep.violation('refusal', f'not refused with a message but {code}', case)
    elif code is None or code == 0:
        rep.violation('failing exit status', f'exit status {code!r}', case)
    elif not text.strip() and not isinstance(code, str):
        rep.violation('message', 'nothing was printed', case)


def run(rep):
    which = 'input3' if THOROUGH else 'input2'
    states, st = tlc(which)
    wind, stw = tlc('m_windin')
    rep.states, rep.transitions = st['states'] + stw['states'], st['transitions'] + stw['transitions']
    rep.extra['tlc'] = {which: st, 'm_windin': stw}
    rep.extra['exhaustive'] = RULE
    states.sort(key=lambda s: json.dumps(s, sort_keys=True))
    count = {}
    sail_state(states[0])
    for s, res in zip(states, parallel(sail_state, states)):
        case = {k: v for k, v in s.items() if k not in ('names',)}
        rep.case(case, case)
        count[s['verdict']] = count.get(s['verdict'], 0) + 1
        if s['verdict'] == 'refused':
            refusal(rep, res, case)
        elif s['verdict'] == 'fails':
            if res[0] == 'accepted':
                rep.violation('built without a common dimension', str(res[1:]), case)
        elif res[0] != 'accepted':
            rep.violation('acceptance', str(res), case)
        else:
            rep.same('sails of the accepted set', res[1], s['names'], case)
            rep.same('panels of the accepted set', res[2], (4 * len(s['names']), 4, 3), case)
    for s in wind:
        case = dict(s, wind=True)
        rep.case(case, case)
        res = wind_state(s)
        if not s['accepted']:
            refusal(rep, res, case)
        elif res[0] != 'accepted':
            rep.violation('acceptance of the wind', str(res), case)
        else:
            k = 0.0 if s['zero'] else 0.2
            want = {'flat': lambda h: 7.0, 'exponential': lambda h: 7.0 * ((h + 0.5) / 8.0) ** k,
                    'logarithmic': lambda h: 7.0 * math.log(h / 0.03) / math.log(8.0 / 0.03)}[s['profile']]
            rep.close('wind of the named profile', res[1], [want(h) for h in (1.0, 4.0, 20.0)], case)
    rep.extra['verdicts'] = count
