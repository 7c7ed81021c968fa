from core import *
from ship import *
from program import *
LEVEL = 'exploration'
TECHNIQUE = 'Histories generated by the Quint model spec/m_history.qnt, replayed in one process; every observation compared bit for bit with the first run of its case in a fresh process'
RULE = ('histories of 32 (thorough: 60) operations over three slots and families of four cases of spec/m_relatives.qnt that differ in one setting each, '
        'for every setting: building, solving, evaluating, keel, saving, '
        'reading again, sections, the building blocks one by one, plots, wings, refused input and default containers; everything in hand is digested after every operation')


def raw(x):
    import numpy as np
    import pandas as pd
    if isinstance(x, pd.DataFrame):
        return raw([list(map(str, x.columns)), [list(r) for r in x.itertuples(index=False)]])
    if isinstance(x, dict):
        return raw([[str(k), v] for k, v in x.items()])
    if isinstance(x, np.ndarray) and x.dtype.kind in 'fiub':
        return f'{x.shape}'.encode() + np.ascontiguousarray(x, float).tobytes()
    if isinstance(x, (list, tuple, np.ndarray)):
        return b'(' + b','.join(raw(y) for y in x) + b')'
    if isinstance(x, (bool, int, float, np.generic)) and not isinstance(x, (np.str_, np.bytes_)):
        try:
            return np.float64(x).tobytes()
        except Exception:
            pass
    return repr(x).encode()


def digest(x):
    return hashlib.sha256(raw(x)).hexdigest()[:20]


CONTAINERS = ('solver', 'rig', 'jib', 'main', 'csys', 'keel', 'cond')
VLM = ('areas', 'normals', 'leading_mid_points', 'trailing_mid_points', 'ctr_p', 'cp', 'rings', 'span_vectors', 'coeff', 'RHS', 'v_ind_coeff',
       'gamma_magnitude', 'force', 'pressure', 'V_app_fs_at_cp', 'V_induced_at_cp', 'V_app_fs_at_ctrl_p', 'V_induced_at_ctrl', 'p_coeffs', 'lift', 'drag')


def settings(c):
    import dataclasses
    return {k: None if c[k] is None else {f.name: getattr(c[k], f.name) for f in dataclasses.fields(c[k])} | {'LLT_twist': getattr(c[k], 'LLT_twist', None)}
            for k in CONTAINERS}


def of_set(s):
    return [s.panels, s.trailing_edge_info, s.leading_edge_info, s.zero_mesh, [[x.name, x.tack_mounting, x.head_mounting] for x in s.sails]]


def of_flow(m):
    i = m.inlet_conditions
    return [[getattr(m, k) for k in VLM], i.tws_at_cp, i.V_app_infs, i.AWA_infs_deg, m.rho, m.panels]


def of_results(r):
    return [r.to_df_full(), r.to_df_integral(), r.above_water_centre_of_effort_estimate_xyz]


class Process:
    """What a user does, in one process."""

    def __init__(self, cs):
        self.cs, self.conts, self.slots = cs, {}, {}

    def cont(self, k):
        if k not in self.conts:
            c = containers(self.cs[k])
            self.conts[k] = (c, settings(c) and digest(settings(c)))
        return self.conts[k][0]

    def hold(self, s, name, x):
        self.slots[s]['held'][name] = digest(x)

    # ---- operations; each returns what is shown
    def build(self, s, k):
        v = Voyage(self.cs[k], solve=False, cont=self.cont(k))
        self.slots[s] = {'k': k, 'v': v, 'held': {}}
        self.hold(s, 'set', of_set(v.set))
        return of_set(v.set)

    def rebuild(self, s):
        return of_set(quietly(lambda: self.slots[s]['v'].sail.sail_set))

    def solve(self, s):
        v = self.slots[s]['v']
        v.vlm = v.solve()
        self.slots[s].pop('r', None)
        self.slots[s]['held'].pop('r', None)
        self.hold(s, 'flow', of_flow(v.vlm))
        return of_flow(v.vlm)

    def evaluate(self, s):
        from pySailingVLM.results.inviscid_flow import InviscidFlowResults
        v = self.slots[s]['v']
        self.slots[s]['r'] = r = InviscidFlowResults(v.set, v.csys, v.vlm)
        self.hold(s, 'r', of_results(r))
        return of_results(r)

    def keel(self, s):
        from pySailingVLM.yacht_geometry.hull_geometry import HullGeometry
        v, r = self.slots[s]['v'], self.slots[s]['r']
        h = HullGeometry(v.c['rig'].sheer_above_waterline, v.c['rig'].foretriangle_base, v.csys, v.c['keel'].center_of_lateral_resistance_upright)
        r.estimate_heeling_moment_from_keel(h.center_of_lateral_resistance)
        self.slots[s]['hull'] = h
        self.hold(s, 'r', of_results(r))
        return of_results(r)

    def save(self, s):
        import pandas as pd
        from pySailingVLM.results.save_utils import save_results_to_file
        v, r = self.slots[s]['v'], self.slots[s]['r']
        d = tempfile.mkdtemp(dir=scratch())
        got = quietly(save_results_to_file, v.vlm, v.csys, r, v.set, d, 'book')
        sheets = pd.read_excel(os.path.join(d, 'book.xlsx'), sheet_name=None)
        shutil.rmtree(d, ignore_errors=True)
        return [list(got), {k: sheets[k] for k in sorted(sheets)}]

    def again(self, s):
        return of_results(self.slots[s]['r'])

    def points(self, s):
        import numpy as np
        t = self.slots[s]['v'].csys
        ps = [np.array(p) for p in ((1.0, 2.0, 3.0), (-2.0, 0.5, 0.0), (0.3, -4.0, -1.5), (0.0004, -0.0003, 0.0002), (-0.0, 1e-7, -0.0))]
        before = digest(ps)
        out = [[t.rotate_point_with_mirror(p), t.rotate_point_without_mirror(p), t.reverse_rotations_with_mirror(p)] for p in ps]
        out.append(t.from_xyz_to_centerline_csys(np.array(ps)))
        if digest(ps) != before:
            raise AssertionError('the points were changed')
        return out

    def parts(self, s):
        """The building blocks used one by one; none may change what it is given."""
        import numpy as np
        from pySailingVLM.solver import coefs, forces, panels, velocity, mesher
        from pySailingVLM.solver.interpolator import Interpolator
        from pySailingVLM.rotations import geometry_calc
        from pySailingVLM.rotations.csys_transformations import CSYS_transformations
        from pySailingVLM.yacht_geometry.hull_geometry import HullGeometry
        from pySailingVLM.inlet.inlet_conditions import InletConditions
        sl = self.slots[s]
        v, m, cas = sl['v'], sl['v'].vlm, self.cs[sl['k']]
        out = []

        def use(f, *a, **k):
            before = digest([list(a), k])
            x = quietly(f, *a, **k)
            if digest([list(a), k]) != before:
                raise AssertionError(f'{getattr(f, "__name__", f)} changed what it was given')
            out.append(x)
            return x
        new = lambda x: np.array(x, order='C', copy=True)
        heel, leeway = fl(cas['boat']['heel']), fl(cas['boat']['leeway'])
        # reference points and centres of lateral resistance: ordinary, tiny, whole numbers, negative zero
        for p in ([0.4, 3e-4, 1.2], [-2e-7, 1e-9, 5e-4], [1, 0, 2], [-0.0, 0.0, -0.0], [0.31, -1.7, -2.4]):
            ref, clr = np.array(p), np.array(p[::-1])
            frame = use(CSYS_transformations, heel, leeway, v_from_original_xyz_2_reference_csys_xyz=ref)
            out.pop()
            use(forces.calc_moment_arm_in_shifted_csys, new(m.cp), ref)
            before = digest([ref, clr])
            h = HullGeometry(v.c['rig'].sheer_above_waterline, v.c['rig'].foretriangle_base, frame, clr)
            out.append([h.center_of_lateral_resistance, h.deck_port_line])
            if digest([ref, clr]) != before:
                raise AssertionError('the reference point or the centre of lateral resistance was changed')
        for d in (v.c['jib'], v.c['main']):
            if d is not None:
                for kind in ('linear', 'spline') if len(d.girths) > 3 else ('linear',):
                    for y in (d.chords, d.camber, d.centerline_twist_deg):
                        use(Interpolator(kind).interpolate_girths, new(d.girths), new(y), 7)
                        use(Interpolator(kind).interpolate_and_mirror_girths, new(d.girths), new(y), 4)
        pts = np.array([[1.0, 2.0, 3.0], [-2.0, 0.5, 0.0], [3e-4, -4.0, -1e-9]])
        a, b = np.array([0.5, 0.1, 0.0]), np.array([0.5, 1e-7, 2.0])
        for angle in (0.0, 0.3, -2e-8):
            use(geometry_calc.rotate_points_around_arbitrary_axis, pts, a, b, angle)
            use(geometry_calc.rotate_points_around_origin_axis, pts, b, angle)
            use(geometry_calc.rotation_matrix, b, angle)
        corner = [new(m.panels[0][k]) for k in (1, 0, 2, 3)]
        use(panels.make_panels_from_le_te_points, corner, [2, 3])
        use(mesher.make_airfoil_mesh, [np.array([0.0, 0.0, 1.0]), np.array([0.2, 0.0, 5.0])], [2, 3],
            np.array([[3.0, 0, 0], [2.5, 0, 0], [2.0, 0, 0], [1e-4, 0, 0]]), np.array([.4, .5, 0.0, .45]), np.array([.1, 0.0, .05, 1e-4]))
        te, le = new(m.trailing_edge_info), new(m.leading_edge_info)
        use(panels.get_panels_area, new(m.panels))
        use(coefs.calculate_vlm_variables, new(m.panels), te, m.gamma_orientation, m.n_chordwise, m.n_spanwise)
        use(coefs.calculate_normals_collocations_cps_rings_spans_leading_trailing_mid_points, new(m.panels), m.gamma_orientation)
        use(InletConditions, v.wind.profile, m.rho, new(m.cp))
        out.pop()
        air = new(m.inlet_conditions.V_app_infs)
        air[0, 2] = 1e-7
        use(coefs.calc_velocity_coefs, air, new(m.ctr_p), new(m.rings), new(m.normals), te, m.gamma_orientation)
        use(coefs.calculate_RHS, air, new(m.normals))
        use(coefs.solve_eq, new(m.coeff), new(m.RHS))
        use(velocity.calculate_app_fs, air, new(m.v_ind_coeff), new(m.gamma_magnitude))
        for kind in ('force_xyz', 'lift', 'drag'):
            use(forces.calc_force_wrapper, air, new(m.gamma_magnitude), m.rho, new(m.cp), new(m.rings), m.n_spanwise, new(m.normals), new(m.span_vectors),
                te, le, kind, m.gamma_orientation)
        use(forces.calc_pressure, new(m.force), new(m.normals), new(m.areas))
        use(forces.calc_pressure_coeff, new(m.pressure), m.rho, air)
        if not getattr(v, 'flux_refused', False):
            use(forces.is_no_flux_BC_satisfied, new(m.V_app_fs_at_ctrl_p), new(m.panels), new(m.areas), new(m.normals))
        use(forces.calc_moments, new(m.cp), new(m.force))
        use(coefs.get_C, new(m.panels), new(m.areas), new(m.lift), air, m.n_spanwise, m.n_chordwise, m.rho)
        use(coefs.get_vlm_Cxyz, new(m.force), air[0], m.rho, 12.5)
        for x in (np.array([4.0, 1.0, 0.0]),):
            use(velocity.vortex_horseshoe, pts[0], a, b, x, 1.5)
            use(velocity.vortex_ring, pts[0], a, b, pts[1], pts[2], -1.0)
            use(velocity.vortex_line, pts[0], a, b, 2.0)
            use(velocity.vortex_infinite_line, pts[0], a, x, 2.0)
        return out

    def sections(self, s):
        from pySailingVLM.solver.coefs import get_data_for_coeff_plot
        v = self.slots[s]['v']
        return list(get_data_for_coeff_plot(v.vlm, v.c['solver']))

    def plot(self, s):
        import matplotlib.pyplot as plt
        from pySailingVLM.solver.panels_plotter import display_panels_xyz_and_winds, plot_section_coeff, plot_cp
        from pySailingVLM.yacht_geometry.hull_geometry import HullGeometry
        v, r = self.slots[s]['v'], self.slots[s]['r']
        h = HullGeometry(v.c['rig'].sheer_above_waterline, v.c['rig'].foretriangle_base, v.csys, v.c['keel'].center_of_lateral_resistance_upright)
        d = tempfile.mkdtemp(dir=scratch())
        quietly(display_panels_xyz_and_winds, v.vlm, r, v.vlm.inlet_conditions, h, show_plot=False)
        h_, y1, y2 = self.sections(s)
        names = [x.name for x in v.set.sails]
        quietly(plot_section_coeff, y1, h_, d, 'lift', ['blue', 'green'], names)
        quietly(plot_cp, v.set.zero_mesh, v.vlm.p_coeffs, d)
        plt.close('all')
        shutil.rmtree(d, ignore_errors=True)

    def wing(self, k):
        import numpy as np
        from pySailingVLM.runner.aircraft import Aircraft
        b = self.cs[k]['boat']
        V = np.array([fl(self.cs[k]['air']['tws']) + 1.0, 0.0, 0.0])
        before = digest(V)
        try:
            a = quietly(Aircraft, fl(b['rig']['base']), fl(b['rig']['mainLuff']), fl(b['leeway']) + 1.0, b['ns'] + 1, b['nc'], V, fl(self.cs[k]['air']['rho']))
        except ValueError as e:
            # the absolute limit on the flux can be exceeded by rounding
            if 'flow' not in str(e):
                raise
            return 'refused'
        if digest(V) != before:
            raise AssertionError('the velocity was changed')
        return [a.CL, a.CD, a.Cxyz, a.AR, a.Cp, a.force, a.pressure, a.CL_theoretical, a.CD_theoretical, a.CL, a.Cxyz]

    def refuse(self, kind):
        """Refused input must leave no trace either."""
        import numpy as np
        from pySailingVLM.runner.container import Rig, Solver, MainSail, JibSail, Conditions
        from pySailingVLM.runner.sail import Sail, Wind
        from pySailingVLM.rotations.csys_transformations import CSYS_transformations
        from pySailingVLM.thin_airfoil.vlm_airfoil import VlmAirfoil
        from pySailingVLM.solver.panels_plotter import plot_section_coeff
        from pySailingVLM.solver import forces
        c = CSYS_transformations(5.0, 3.0)
        short = lambda: MainSail(chords=np.array([1.0, 2.0]))
        go = {'sails': lambda: Sail(Solver(), Rig(sails_def='kite'), MainSail(), JibSail(), c),
              'profile': lambda: Wind(Conditions(wind_profile='storm')),
              'section': lambda: VlmAirfoil(0.9, 0.4),
              'panels': lambda: forces.is_no_flux_BC_satisfied(np.ones((2, 3)), np.zeros((2, 4, 3)), np.zeros(2), np.ones((2, 3))),
              'force kind': lambda: forces.calc_force_wrapper(*[np.zeros((1, 3))] * 11, 'weight'),
              'plot kind': lambda: plot_section_coeff([[1.0]], [[1.0]], scratch(), 'weight', ['blue']),
              'lengths': lambda: Sail(Solver(), Rig(), short(), JibSail(), c)}[kind]
        try:
            quietly(go)
        except (Refused, Exception):
            return
        raise AssertionError('was not refused')

    def defaults(self, kind):
        """Containers made with default values are pristine and do not share arrays."""
        import dataclasses
        import numpy as np
        from pySailingVLM.runner import container
        cls = getattr(container, kind)
        a, b = cls(), cls()
        want = digest([getattr(b, f.name) for f in dataclasses.fields(b)])
        if digest([getattr(a, f.name) for f in dataclasses.fields(a)]) != want:
            raise AssertionError('two default containers differ')
        for f in dataclasses.fields(a):
            x = getattr(a, f.name)
            if isinstance(x, np.ndarray):
                x += 1
            else:
                setattr(a, f.name, 'spoilt')
        for o in (b, cls()):
            if digest([getattr(o, f.name) for f in dataclasses.fields(o)]) != want:
                raise AssertionError('default containers share state')
        return want

    def do(self, sh):
        s, op = sh['slot'], sh['op']
        if op == 'build':
            return self.build(s, sh['cas'])
        if op in ('solve', 'solve again'):
            return self.solve(s)
        if op == 'wing':
            return self.wing(sh['cas'])
        if op == 'refuse':
            return self.refuse(sh['kind'])
        if op == 'defaults':
            return self.defaults(sh['kind'])
        return {'use the parts': self.parts, 'evaluate': self.evaluate, 'keel': self.keel, 'save': self.save, 'read again': self.again, 'build from the same settings': self.rebuild,
                'turn points': self.points, 'sections': self.sections, 'plot': self.plot}[op](s)

    def unchanged(self):
        """None, or what in hand has changed."""
        for k, (c, d) in self.conts.items():
            if digest(settings(c)) != d:
                return f'settings of case {k}'
        for s, sl in self.slots.items():
            v, h = sl['v'], sl['held']
            for name, f in (('set', lambda: of_set(v.set)), ('flow', lambda: of_flow(v.vlm)), ('r', lambda: of_results(sl['r']))):
                if name in h and digest(f()) != h[name]:
                    return f'{name} of slot {s}'
        return None


# first runs: each line in a process of its own, with what its operations show
FIRST = [('build set', 'solve flow', 'evaluate totals', 'save book'),
         ('build', 'solve', 'evaluate', 'keel totals with the keel', 'save book with the keel'),
         ('build', 'turn points points'), ('build', 'solve', 'sections sections'), ('build', 'solve', 'use the parts parts'), ('wing wing',)]
OPS = ('turn points', 'build', 'solve', 'evaluate', 'keel', 'save', 'sections', 'use the parts', 'wing')


def first(job):
    """What a case shows when it is run first; {what: digest}."""
    cas, line = job
    plain_style()
    p = Process([cas])
    out = {}
    try:
        for step in line:
            op = next(o for o in OPS if step.startswith(o))
            x = p.do({'slot': 0, 'op': op, 'cas': 0, 'kind': ''})
            if step[len(op) + 1:]:
                out[step[len(op) + 1:]] = 'flux' if getattr(p.slots.get(0, {}).get('v'), 'flux_refused', False) else digest(x)
    except Exception as e:
        out['run'] = f'! {e!r}'
    return out


def replay(job):
    cs, ops = job
    plain_style()
    p = Process(cs)
    out = []
    for sh in ops:
        try:
            x = p.do(sh)
            out.append((digest(x), p.unchanged()))
        except Exception as e:
            import traceback
            out.append((f'! {e!r} {traceback.format_exc(limit=-3)}', None))
            break
    return out


def run(rep):
    import scienceplots  # noqa: F401
    import pySailingVLM.runner.cli  # noqa: F401
    rounds, per, steps = (5, 6, 60) if THOROUGH else (1, 3, 32)
    families = []
    for tr in quint_many('m_relatives.qnt', 'relatives_small', rounds, 60, tag='p17', invariant='inv'):
        rep.trace(len(tr))
        families += [s['family'] for s in tr if s['family']]
    cs = [m['cas'] for f in families for m in f]
    jobs = [(c, line) for c in cs for line in FIRST]
    got = fresh(first, jobs)
    ref = [{} for _ in cs]
    for k, g in enumerate(got):
        ref[k // len(FIRST)].update(g)
    good = []
    for i, (c, r) in enumerate(zip(cs, ref)):
        if 'run' in r:
            rep.violation('first run', r['run'], describe(c))
        good.append('run' not in r and 'flux' not in r.values())
    sets, settings_ = [], []
    k = 0
    for f in families:
        if all(good[k:k + len(f)]):
            sets.append(list(range(k, k + len(f))))
            settings_.append([m['what'] for m in f[1:]])
        else:
            rep.skip('a first run is refused for a flux above 1e-12 that is rounding')
        for m, n in zip(f[1:], range(k + 1, k + len(f))):
            if good[k] and good[n] and all(ref[k][w] == ref[n][w] for w in ref[k]):
                rep.skip(f'(not skipped) a relative with the results of its base')
        k += len(f)
    if 2 * len(sets) < len(families):
        rep.violation('accepted solutions', f'{len(families) - len(sets)} of {len(families)} families refused for the flux through a panel')
    jobs, keys = [], []
    traces = quint_many('m_history.qnt', 'm_history', len(sets) * per, steps, tag='p17', invariant='inv')
    for n, tr in enumerate(traces):
        mine = sets[n % len(sets)]
        jobs.append(([cs[i] for i in mine], [s['shown'] for s in tr[1:]]))
        keys.append((mine, settings_[n % len(sets)]))
        rep.trace(len(tr))
    ops = {}
    for (mine, what), (_, shown), res in zip(keys, jobs, fresh(replay, jobs)):
        for n, (sh, (got, change)) in enumerate(zip(shown, res)):
            case = {'history': [f"{x['op']} {x['kind']} slot {x['slot']} case {x['cas']}" for x in shown[:n + 1]],
                    'cases differ in': what, 'cases': [describe(cs[i]) for i in mine]}
            rep.case(digest([n, sh, mine, [x['op'] for x in shown[:n + 1]]]), {'operation': sh, 'digest': got})
            ops[sh['op']] = ops.get(sh['op'], 0) + 1
            if got.startswith('!'):
                rep.violation(f"{sh['op']} {sh['kind']}", got, case)
                break
            if sh['what'] and got != ref[mine[sh['cas']]][sh['what']]:
                rep.violation('same as the first run', f"{sh['what']} of case {sh['cas']} after {n} operations", case)
                break
            if change:
                rep.violation('left as it was', f"{sh['op']} {sh['kind']} changed the {change}", case)
                break
    rep.extra['operations'] = ops
    rep.extra['settings'] = sorted({w for f in settings_ for w in f})
