"""Cases of the specification as objects of the code under test, and recorded runs."""
from core import *
import contextlib

SAILS = ['jib', 'main', 'jib_and_main']
TWISTS = ['real_twist', 'sheeting_angle_const', 'average_const']
INTERP = ['linear', 'spline']
PROFILES = ['flat', 'exponential', 'logarithmic']


def arr(xs, fl=fl):
    """Numbers of the specification; whole ones as whole numbers if `fl` is `plain`."""
    import numpy as np
    xs = [fl(x) for x in xs]
    return np.array(xs) if all(isinstance(x, int) for x in xs) else np.array([float(x) for x in xs])


def plain(x):
    """As somebody types it: 12 rather than 12.0."""
    return int(x // S) if x % S == 0 else fl(x)


def typed(cas):
    """How numbers are given in a case."""
    b = cas['boat']
    return plain if (b['rig']['mainLuff'] // 10**27 + b['rig']['jibLuff'] // 10**27) % 2 == 0 else fl


def describe(cas):
    b, a = cas['boat'], cas['air']
    sail = lambda d: {k: [round(fl(x), 9) for x in v] for k, v in d.items()}
    return {'sails': SAILS[b['sails']], 'grid': [b['nc'], b['ns']], 'heel': fl(b['heel']), 'leeway': fl(b['leeway']),
            'twist_mode': TWISTS[b['twistMode']], 'interpolation': INTERP[b['interp']],
            'rig': {k: fl(v) for k, v in b['rig'].items()}, 'jib': sail(b['jib']), 'main': sail(b['mainsail']),
            'air': {k: (PROFILES[v] if k == 'kind' else fl(v)) for k, v in a.items()},
            'orientation': cas['turn'], 'reference': fv(cas['ref']), 'clr': fv(cas['clr'])}


def containers(cas, unused=None):
    """The settings objects of a case; the sail that is not declared may be absent."""
    import numpy as np
    from pySailingVLM.runner.container import Rig, Solver, Conditions, MainSail, JibSail, Csys, Keel
    b, a, r = cas['boat'], cas['air'], cas['boat']['rig']
    fl = typed(cas)
    arr_ = lambda xs: arr(xs, fl)
    solver = Solver(n_spanwise=b['ns'], n_chordwise=b['nc'], interpolation_type=INTERP[b['interp']])
    solver.LLT_twist = TWISTS[b['twistMode']]
    rig = Rig(main_sail_luff=fl(r['mainLuff']), jib_luff=fl(r['jibLuff']), foretriangle_height=fl(r['height']),
              foretriangle_base=fl(r['base']), sheer_above_waterline=fl(r['sheer']), boom_above_sheer=fl(r['boom']),
              rake_deg=fl(r['rake']), mast_LOA=fl(r['loa']), sails_def=SAILS[b['sails']])
    sail = lambda cls, d: cls(girths=arr_(d['girths']), chords=arr_(d['chords']), centerline_twist_deg=arr_(d['twist']),
                              camber=arr_(d['camber']), camber_distance_from_luff=arr_(d['pos']))
    absent = unused if unused is not None else b['heel'] > 0
    jib = None if absent and b['sails'] == 1 else sail(JibSail, b['jib'])
    main = None if absent and b['sails'] == 0 else sail(MainSail, b['mainsail'])
    ref = cas['ref']
    csys = Csys() if all(v == 0 for v in ref.values()) else Csys(reference_level_for_moments=arr_([ref[k] for k in 'xyz']))
    keel = Keel(center_of_lateral_resistance_upright=arr_([cas['clr'][k] for k in 'xyz']))
    cond = Conditions(leeway_deg=fl(b['leeway']), heel_deg=fl(b['heel']), SOG_yacht=fl(a['sog']), tws_ref=fl(a['tws']),
                      alpha_true_wind_deg=fl(a['alpha']), reference_water_level_for_wind_profile=fl(a['level']),
                      wind_exp_coeff=fl(a['coeff']), wind_reference_measurment_height=fl(a['href']), rho=fl(a['rho']),
                      wind_profile=PROFILES[a['kind']], roughness=fl(a['rough']))
    return {'solver': solver, 'rig': rig, 'jib': jib, 'main': main, 'csys': csys, 'keel': keel, 'cond': cond}


@contextlib.contextmanager
def flux_accepted():
    """Within, the test of the flux accepts everything, wherever it has been imported to."""
    import sys
    from pySailingVLM.solver import forces
    test = getattr(forces, 'is_no_flux_BC_satisfied', None)
    places = [(m, k) for n, m in list(sys.modules.items()) if n.startswith('pySailingVLM') and m is not None
              for k, v in list(vars(m).items()) if test is not None and v is test]
    try:
        for m, k in places:
            setattr(m, k, lambda *a, **kw: True)
        yield
    finally:
        for m, k in places:
            setattr(m, k, test)


class Voyage:
    """One run of the implementation on a case."""

    def __init__(self, cas, solve=True, cont=None, unused=None):
        self.cas = cas
        c = self.c = cont or containers(cas, unused)
        from pySailingVLM.rotations.csys_transformations import CSYS_transformations
        from pySailingVLM.runner.sail import Wind, Sail
        self.csys = CSYS_transformations(c['cond'].heel_deg, c['cond'].leeway_deg,
                                         v_from_original_xyz_2_reference_csys_xyz=c['csys'].reference_level_for_moments)
        self.wind = quietly(Wind, c['cond'])
        self.sail = quietly(Sail, c['solver'], c['rig'], c['main'], c['jib'], self.csys)
        self.set = quietly(lambda: self.sail.sail_set)
        self.flux_refused = False
        if solve:
            self.vlm = self.solve()

    def orientation(self):
        return {} if self.cas is None or self.cas['turn'] < 0 else {'gamma_orientation': 1.0}

    def solve(self):
        from pySailingVLM.solver.vlm import Vlm
        from pySailingVLM.solver import forces
        s, c = self.set, self.c
        go = lambda: Vlm(s.panels, c['solver'].n_chordwise, c['solver'].n_spanwise, c['cond'].rho, self.wind.profile,
                         s.trailing_edge_info, s.leading_edge_info, **self.orientation())
        try:
            return go()
        except ValueError as e:
            # the absolute limit of 1e-12 on the flux (P22) can be exceeded by rounding alone; the relations
            # of this specification decide whether the solution is right
            if 'flow through panel' not in str(e):
                raise
            self.flux_refused = True
            with flux_accepted():
                return go()

    def sail_names(self):
        return [['jib'], ['main_sail'], ['jib', 'main_sail']][self.cas['boat']['sails']]

    def solved(self):
        """The events up to the loads, as given facts."""
        return [self.given(), self.elements('given'), self.areas('given'), self.inlet('given'), self.circulation('given'),
                self.pressure_points('given'), self.loads('given')]

    def results(self):
        from pySailingVLM.results.inviscid_flow import InviscidFlowResults
        from pySailingVLM.yacht_geometry.hull_geometry import HullGeometry
        r = InviscidFlowResults(self.set, self.csys, self.vlm)
        if self.cas['keelOn']:
            self.hull = HullGeometry(self.c['rig'].sheer_above_waterline, self.c['rig'].foretriangle_base, self.csys,
                                     self.c['keel'].center_of_lateral_resistance_upright)
            r.estimate_heeling_moment_from_keel(self.hull.center_of_lateral_resistance)
        return r

    # ---- events
    def boat(self, act='given'):
        """The boat of the case, as the specification has it."""
        b = self.cas['boat']
        e = (Event(act).ints('rig', [b['rig'][k] for k in ('mainLuff', 'jibLuff', 'height', 'base', 'sheer', 'boom', 'rake', 'loa')])
             .ints('modes', [b['sails'], b['twistMode'], b['interp']]).ints('heel', [b['heel']]).ints('leeway', [b['leeway']]))
        for p, d in (('j', b['jib']), ('m', b['mainsail'])):
            for n, k in (('g', 'girths'), ('c', 'chords'), ('t', 'twist'), ('k', 'camber'), ('p', 'pos')):
                e.ints(p + n, d[k])
        return e

    def lattice(self, act='lattice'):
        return Event(act).reals('zero', self.set.zero_mesh)

    def built(self, act='built'):
        s = self.set.sails
        return (Event(act).reals('zero', self.set.zero_mesh).reals('tacks', [x.tack_mounting for x in s]).reals('heads', [x.head_mounting for x in s])
                .ints('names', [{'jib': 0, 'main_sail': 1}.get(x.name, -1) for x in s]))

    def given(self, oldrings=0):
        b = self.cas['boat']
        v = getattr(self, 'vlm', None)
        g = -1.0 if v is None else v.gamma_orientation
        e = Event('given').ints('grid', [b['nc'], b['ns'], int(g), oldrings]).reals('panels', self.set.panels)
        return e.ints('trailing', self.set.trailing_edge_info).ints('leading', self.set.leading_edge_info)

    def elements(self, act='elements'):
        v = self.vlm
        return (Event(act).reals('fore', v.leading_mid_points).reals('aft', v.trailing_mid_points).reals('control', v.ctr_p)
                .reals('cp', v.cp).reals('normals', v.normals).reals('rings', v.rings).reals('spans', v.span_vectors))

    def areas(self, act='areas'):
        return Event(act).reals('areas', self.vlm.areas)

    def inlet(self, act='inlet'):
        a = self.cas['air']
        ic = self.vlm.inlet_conditions
        return (Event(act).ints('air', [a[k] for k in ('kind', 'alpha', 'tws', 'sog', 'coeff', 'href', 'level', 'rough', 'rho')])
                .reals('tws', ic.tws_at_cp).reals('wind', ic.V_app_infs).reals('rho', [self.vlm.rho]))

    def some(self, many=3):
        """Which rows of the matrix to judge: at the ends and a few anywhere."""
        n, r = len(self.vlm.panels), random.Random(SEED * 1000003 + len(self.vlm.panels))
        return sorted({r.choice((0, n // 2 - 1, n - 1, n // 2)), *(r.randrange(n) for _ in range(many - 1))})

    def some_influence(self, act='influence'):
        rows = self.some()
        v = self.vlm
        return (Event(act).ints('rows', rows).reals('matrix', [v.coeff[i] for i in rows]).reals('vunit', [v.v_ind_coeff[i] for i in rows]).reals('rhs', v.RHS))

    def influence(self, act='influence'):
        return Event(act).reals('matrix', self.vlm.coeff).reals('vunit', self.vlm.v_ind_coeff).reals('rhs', self.vlm.RHS)

    def circulation(self, act='circulation'):
        v = self.vlm
        return Event(act).reals('gamma', v.gamma_magnitude).reals('vindctrl', v.V_induced_at_ctrl).reals('vctrl', v.V_app_fs_at_ctrl_p)

    def pressure_points(self, act='pressure points'):
        return Event(act).reals('vindcp', self.vlm.V_induced_at_cp).reals('vcp', self.vlm.V_app_fs_at_cp)

    def loads(self, act='loads'):
        v = self.vlm
        return (Event(act).reals('force', v.force).reals('lift', v.lift).reals('drag', v.drag)
                .reals('pressure', v.pressure).reals('pcoef', v.p_coeffs))


def cases(rep, module, n, tag):
    """Cases of the specification that satisfy the model's preconditions, as [(case, text)].

    Of fine grids, which are dear, many more are drawn and each grid gets its share."""
    if module == 'large':
        drawn, turns = {}, []
        for c in _cases(rep, module, 3 * n, tag):
            drawn.setdefault((c['boat']['nc'], c['boat']['ns']), []).append(c)
        for k in range(max(map(len, drawn.values()), default=0)):
            turns += [drawn[g][k] for g in sorted(drawn) if k < len(drawn[g])]
        return turns[:n]
    return _cases(rep, module, n, tag)


def _cases(rep, module, n, tag):
    out = []
    for tr in quint_many('m_case.qnt', module, n, 1, tag=tag):
        rep.trace(len(tr))
        if tr[-1]['ok']:
            out.append(tr[-1]['cas'])
        else:
            rep.skip('outside the preconditions (sail at the water, section not accepted)')
    return out


def sail_runs(rep, cs, script, known=None, procs=8, solve=True, module='voyage'):
    """Runs the code on the cases, has `voyage` judge the recorded events, reports.

    script: Voyage -> list of Event.  known: clause -> (finding id, text)."""
    global _script, _solve
    _script, _solve = script, solve
    res = parallel(_record, cs, procs)
    runs, kept = [], []
    refused = sum(isinstance(r, str) and r.startswith('skip refused for a flux') for r in res)
    if 2 * refused > len(cs):
        rep.violation('accepted solutions', f'{refused} of {len(cs)} cases refused for the flux through a panel', [describe(c) for c in cs[:1]])
    for cas, r in zip(cs, res):
        text = describe(cas)
        if isinstance(r, str):
            if r.startswith('skip '):
                rep.skip(r[5:])
            else:
                rep.case(text, text)
                rep.violation('run fails', r, text)
        else:
            if r[1]:
                rep.skip('(not skipped) refused for a flux above 1e-12 that is rounding')
            runs.append(r[0])
            kept.append(text)
    judged(rep, module, runs, kept, known)


def judged(rep, module, runs, texts, known=None):
    known = known or {}
    for text, ev, r in zip(texts, runs, validate(module, runs)):
        rep.case(text, {'case': text, 'events': [e.act for e in ev], 'comparisons': r['n']})
        rep.trace(len(ev) + 1)
        rep.extra['comparisons'] = rep.extra.get('comparisons', 0) + r['n']
        rep.extra['comparisons_left_out'] = rep.extra.get('comparisons_left_out', 0) + r['left']
        rep.margin = max(rep.margin, 0 if r['bad'] else r['worst'] / 1e6)
        for b in r['bad']:
            d = f"{b['clause']} [{b['idx']}]: observed {fl(b['got'])!r}, specified {fl(b['want'])!r}, tolerance {fl(b['tol']):.3g}"
            if b['clause'] in known:
                rep.finding(*known[b['clause']], b['clause'], d, text)
            else:
                rep.violation(b['clause'], d, text)


def _record(cas):
    try:
        v = Voyage(cas, solve=_solve)
        return _script(v), v.flux_refused
    except NotFinite as e:
        return f'not finite: {e}'
    except Refused as e:
        return f'refused with {e.code}: {e.text[:200]}'
    except Exception as e:
        import traceback
        if 'flow through panel' in str(e):
            return 'skip refused for a flux above the limit of 1e-12'
        return f'{e!r} {traceback.format_exc(limit=-3)}'


# ---- results tables
def table(df):
    """Quantity/Value table as a dict."""
    return dict(zip([str(q) for q in df['Quantity']], [float(x) for x in df['Value']]))


def triple(get, prefix, names=('x', 'y', 'z')):
    return [float(get[f'{prefix}.{c}']) for c in names]


COW = ('x (heel)', 'y (pitch)', 'z (yaw)')


def totals(v, r, act='totals'):
    import numpy as np
    d = v.sail_names()
    t, full = table(r.to_df_integral()), r.to_df_full()
    return (Event(act).reals('ref', v.c['csys'].reference_level_for_moments)
            .reals('moment', np.array([full[f'M_sails_COG.{c}'] for c in 'xyz']).T)
            .reals('totf', triple(t, 'F_sails_total_COG')).reals('totm', triple(t, 'M_sails_total_COG'))
            .reals('sailf', [triple(t, f'F_{n}_total_COG') for n in d]).reals('sailm', [triple(t, f'M_{n}_total_COG') for n in d])
            .reals('ce', r.above_water_centre_of_effort_estimate_xyz))


def keel(v, r, act='keel'):
    t = table(r.to_df_integral())
    return (Event(act).reals('clr', v.hull.center_of_lateral_resistance).reals('keelm', triple(t, 'M_keel_total_COG'))
            .reals('allm', triple(t, 'M_total_COG')))


def centreline(v, r, act='centreline'):
    import numpy as np
    t, full = table(r.to_df_integral()), r.to_df_full()
    e = (Event(act).ints('leeway', [v.cas['boat']['leeway']]).reals('fcow', np.array([full[f'F_sails_COW.{c}'] for c in 'xyz']).T)
         .reals('totfcow', triple(t, 'F_sails_total_COW')).reals('totmcow', triple(t, 'M_sails_total_COW', COW)))
    jg = [t['M_sails_total_COW.z (yaw - JG sign)']]
    if v.cas['keelOn']:
        e.reals('keelmcow', triple(t, 'M_keel_total_COW', COW)).reals('allmcow', triple(t, 'M_total_COW', COW))
        jg += [t['M_keel_total_COW.z (yaw - JG sign)'], t['M_total_COW.z (yaw - JG sign)']]
    else:
        e.ints('keelm', [])
    return e.reals('yawjg', jg)
