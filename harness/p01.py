from core import *
from ship import *
LEVEL = 'exploration'
TECHNIQUE = ('Exhaustive TLC exploration of the Quint specification spec/m_lattice.qnt (compiled to TLA+), every final state replayed against the '
             'code; recorded sail sets validated by the Quint trace specification spec/voyage.qnt')
RULE = ('every grid up to 6 by 6 panels for one and two sails (all states of spec/m_lattice.qnt), replayed against the mesh and the wing '
        'panel makers and against sail sets built through the runner; cases of spec/m_case.qnt judged by spec/voyage.qnt')
CORNERS = ('se', 'sw', 'nw', 'ne')


def vertex(v):
    return v['half'], v['sail'], v['i'], v['j']


def flags(rep, got, cells, case):
    import numpy as np
    for name, g, k in (('trailing edge flags', got[0], 'last'), ('leading edge flags', got[1], 'first')):
        rep.same(name, [bool(x) for x in np.asarray(g).reshape(-1)], [c[k] for c in cells], case)


def pure_makers(rep, s):
    """The panel makers on meshes whose points are their own names."""
    import numpy as np
    from pySailingVLM.solver.panels import make_panels_from_mesh_spanwise, make_panels_from_le_te_points
    nc, ns = s['nc'], s['ns']
    cells = [c for c in s['cells'] if c['se']['half'] == 0 and c['se']['sail'] == 0]
    case = {'nc': nc, 'ns': ns, 'sails': s['sails']}
    rep.case(case, case)
    want = np.array([[(c[k]['i'], c[k]['j'], 7 * c[k]['i'] - 3 * c[k]['j'] + 1) for k in CORNERS] for c in cells], float)
    mesh = np.array([[(i, j, 7 * i - 3 * j + 1) for j in range(ns + 1)] for i in range(nc + 1)], float)
    try:
        p, te, le = make_panels_from_mesh_spanwise(mesh)
        rep.same('panels of a mesh', np.asarray(p).tolist(), want.tolist(), case)
        flags(rep, (te, le), cells, case)
        corners = [np.array([i, j, 7 * i - 3 * j + 1], float) for i, j in ((0, 0), (nc, 0), (0, ns), (nc, ns))]
        p, te, le = make_panels_from_le_te_points(corners, [nc, ns])
        if rep.close('panels of a wing', p, want, case, rel=1e-13):
            shared(rep, np.asarray(p), cells, case, 'wing')
        flags(rep, (te, le), cells, case)
    except Exception as e:
        rep.violation('panel maker raises', repr(e), case)


def shared(rep, panels, cells, case, what, pointed=()):
    """The same corner is the same point in every panel that has it, different corners are different points."""
    seen, places = {}, {}
    for k, c in enumerate(cells):
        for q, n in enumerate(CORNERS):
            p = tuple(panels[k][q])
            v = vertex(c[n])
            if seen.setdefault(v, p) != p:
                return rep.violation(f'corner shared by neighbours ({what})', f'panel {k} corner {n} {vertex(c[n])}: {p} and {seen[v]}', case)
            # a point on the water line is its own image
            own = places.setdefault(p, v)
            # another sail may touch
            if own == v or own[1] != v[1] or (p[2] == 0 and own[0] != v[0] and own[1:3] == v[1:3]):
                continue
            # a sail that ends in a point has all corners of its head there
            head = 0 if v[0] else max(d['nw']['j'] for d in cells)
            if not (v[1] in pointed and own[:2] == v[:2] and own[3] == v[3] == head):
                return rep.violation(f'corners coincide ({what})', f'{places[p]} and {v} both at {p}', case)


def built(job):
    """A sail set of the given lattice through the runner."""
    import numpy as np
    s, cas = job
    b = dict(cas['boat'], nc=s['nc'], ns=s['ns'])
    if s['sails'] == 2 or b['sails'] == 2:
        b['sails'] = 2 if s['sails'] == 2 else (s['nc'] + s['ns']) % 2
    try:
        v = Voyage(dict(cas, boat=b), solve=False)
        return b['sails'], np.asarray(v.set.panels), np.asarray(v.set.zero_mesh), v.set.trailing_edge_info, v.set.leading_edge_info, \
            [x.tack_mounting for x in v.set.sails], [x.head_mounting for x in v.set.sails]
    except Refused as e:
        return f'refused: {e.text[:100]}'
    except Exception as e:
        return repr(e)


def run(rep):
    import numpy as np
    states, st = tlc('lattice6')
    final = sorted((s for s in states if s['cur']['half'] == 2), key=lambda s: (s['sails'], s['nc'], s['ns']))
    rep.states, rep.transitions = st['states'], st['transitions']
    rep.extra['tlc'] = st
    rep.extra['exhaustive'] = 'all grids up to 6 by 6, one and two sails'
    if len(final) != 72:
        raise MachineryError(f'{len(final)} final states')
    for s in final:
        pure_makers(rep, s)
    cs = cases(rep, 'small', 60 if THOROUGH else 24, 'p01')
    rounds = 4 if THOROUGH else 1
    jobs = [(s, cs[(k + 7 * r) % len(cs)]) for r in range(rounds) for k, s in enumerate(final)]
    for (s, cas), res in zip(jobs, parallel(built, jobs)):
        case = {'nc': s['nc'], 'ns': s['ns'], 'sails': s['sails'], 'case': describe(cas)}
        rep.trace(0)
        if isinstance(res, str):
            # a section outside the accepted range at the new stations
            if res.startswith('refused') and 'Naca' in res:
                rep.skip('section not accepted at the new stations')
            else:
                rep.violation('sail set is not built', res, case)
            continue
        sails, panels, zero, te, le, tacks, heads = res
        rep.case(('set', s['nc'], s['ns'], s['sails'], sails, fl(cas['boat']['heel'])))
        if panels.shape != (len(s['cells']), 4, 3) or zero.shape != panels.shape:
            rep.violation('number of panels', f'{panels.shape}, {zero.shape}, expected {len(s["cells"])}', case)
            continue
        flags(rep, (te, le), s['cells'], case)
        data = [cas['boat'][k] for k in (('jib',), ('mainsail',), ('jib', 'mainsail'))[sails]]
        pointed = [k for k, d in enumerate(data) if d['chords'][-1] == 0]
        shared(rep, panels, s['cells'], case, 'sailing position', pointed)
        shared(rep, zero, s['cells'], case, 'unrotated', pointed)
    # the same, with the geometry: order of the sails, rows and heights
    script = lambda v: [v.given(), v.boat(), v.lattice()]
    sail_runs(rep, cases(rep, 'small', 240 if THOROUGH else 64, 'p01b') + cases(rep, 'medium', 120 if THOROUGH else 24, 'p01b')
              + cases(rep, 'large', 40 if THOROUGH else 6, 'p01c'), script, solve=False)
