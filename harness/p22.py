from core import *
from ship import *
LEVEL = 'exploration'
TECHNIQUE = ('Exhaustive TLC exploration of the Quint specification spec/m_refuse.qnt (compiled to TLA+), every state replayed against the acceptance test of '
             'the code; small linear systems of the specification spec/m_system.qnt solved by it and by the code; broken sail sets run through the solver')
RULE = ('every reachable solution of spec/m_refuse.qnt (all mixtures for two panels, one odd panel anywhere among up to five), replayed with values on the '
        'very limits; linear systems of spec/m_system.qnt, regular and singular; every panel of sail sets of spec/m_case.qnt collapsed, duplicated or not a number')
AREA = {'fine': 1.0, 'at the limit': 1e-14, 'zero': 0.0, 'negative': -1.0, 'not a number': float('nan'), 'infinite': float('inf'),
        'just below': math.nextafter(1e-14, 0)}
FLOW = {'none': 0.0, 'at the limit': 1e-12, 'at minus the limit': -1e-12, 'just over': math.nextafter(1e-12, 1), 'just under minus': -math.nextafter(1e-12, 1),
        'big': 1.0, 'infinite': float('inf'), 'minus infinite': float('-inf'), 'not a number': float('nan')}


def verdict(f, *a, **k):
    """'accepted', or the kind and text of the refusal."""
    try:
        return 'accepted', quietly(f, *a, **k)
    except Refused as e:
        return 'exit', f'{e.code} {e.text}'
    except Exception as e:
        return 'error', f'{type(e).__name__}: {e}'


def named(text):
    t = text.lower()
    return ({'area'} if 'area' in t else set()) | ({'flow'} if 'flow' in t or 'flux' in t else set())


def replay(rep, s, short=False):
    import numpy as np
    from pySailingVLM.solver import forces
    n = len(s['panels'])
    if n == 0:
        return
    with np.errstate(all='ignore'):
        # the normal along one axis at a time, of either sign, and flow within the panel in the others
        for turn in range(3):
            areas = np.array([AREA[p['area']] for p in s['panels']])
            normals, V = np.zeros((n, 3)), np.zeros((n, 3))
            for k, p in enumerate(s['panels']):
                ax, sg = (turn + k) % 3, (-1.0) ** (k + turn)
                normals[k, ax] = sg
                f = FLOW[p['flow']]
                V[k] = 5.0
                V[k, ax] = f * sg
            # a flow of infinity or NaN spoils the products with other panels' normals only if rows are mixed up
            case = {'panels': s['panels'] if not short else [len(s['panels'])] + [[k, p] for k, p in enumerate(s['panels']) if set(p.values()) != {'fine', 'none'}], 'axis': turn, 'causes': sorted(s['causes'])}
            rep.case(case, case)
            panels = np.zeros((n, 4, 3))
            kind, text = verdict(forces.is_no_flux_BC_satisfied, V, panels, areas, normals)
            if kind == 'accepted':
                if s['causes']:
                    rep.violation('refusal of the solution', f'accepted ({text!r})', case)
                elif not text:
                    rep.violation('acceptance of the solution', f'reported {text!r}', case)
            elif not s['causes']:
                rep.violation('acceptance of the solution', text, case)
            elif not named(text) & set(s['causes']):
                rep.violation('the cause is named', text, case)
            elif named(text) - set(s['causes']):
                rep.violation('the cause named is one', text, case)


def among_many(rep, states):
    """The same panels among many others that are fine: what is refused stays refused (`monotone`), what is accepted accepted."""
    rnd = random.Random(seed_of('p22', 'many'))
    fine = {'area': 'fine', 'flow': 'none'}
    for s in states:
        if len(s['panels']) not in (1, 2):
            continue
        n = rnd.choice((17, 64, 130, 257, 600, 1201))
        l = [fine] * n
        for p in s['panels']:
            l[rnd.choice((0, n // 2 - 1, n // 2, n - 1, rnd.randrange(n)))] = p
        causes = [c for c, bad in (('area', ('just below', 'zero', 'negative', 'not a number')),
                                   ('flow', ('just over', 'just under minus', 'big', 'infinite', 'minus infinite', 'not a number')))
                  if any(p[c] in bad for p in l)]
        replay(rep, {'panels': l, 'causes': causes}, short=True)


def systems(rep):
    import numpy as np
    from pySailingVLM.solver import coefs
    for tr in quint_many('m_system.qnt', 'm_system', 600 if THOROUGH else 160, 1, tag='p22', invariant='inv'):
        rep.trace(len(tr))
        s = tr[-1]
        a, b = np.array(s['a'], float), np.array(s['b'], float)
        case = {'matrix': s['a'], 'rhs': s['b'], 'kind': s['kind']}
        rep.case(case, case)
        kind, r = verdict(coefs.solve_eq, a, b)
        if s['kind'] in ('unlucky', 'none'):
            continue
        if s['kind'] == 'singular':
            if kind == 'accepted':
                rep.violation('singular system', f'solution {r!r}', case)
        elif kind != 'accepted':
            rep.violation('regular system', r, case)
        else:
            rep.close('solution of the system', r, [fl(x) for x in s['x']], case, rel=1e-9)
        # the same among other equations, that are solved already
        rnd = random.Random(seed_of('p22', len(s['a']), str(s['a'])))
        n, k = rnd.choice((20, 70, 300)), len(a)
        where = sorted(rnd.sample(range(n), k))
        A, B = np.eye(n), np.ones(n)
        A[np.ix_(where, where)], B[where] = a, b
        kind, r = verdict(coefs.solve_eq, A, B)
        case = dict(case, among=n, at=where)
        if (s['kind'] == 'singular') == (kind == 'accepted'):
            rep.violation('system among other equations', str(r)[:200], case)
        elif kind == 'accepted':
            want = np.ones(n)
            want[where] = [fl(x) for x in s['x']]
            rep.close('solution of the system', r, want, case, rel=1e-9)


def force_kinds(rep):
    import numpy as np
    from pySailingVLM.solver import forces
    n = 2
    V = np.tile([5.0, 1.0, 0.0], (n, 1))
    cp = np.array([[0.25, 0, 1.0], [0.25, 0, -1.0]])
    rings = np.array([[[1.25, 0, .5], [.25, 0, .5], [.25, 0, 1.5], [1.25, 0, 1.5]], [[1.25, 0, -1.5], [.25, 0, -1.5], [.25, 0, -.5], [1.25, 0, -.5]]])
    normals = np.tile([0.0, 1.0, 0.0], (n, 1))
    span = np.tile([0.0, 0.0, 1.0], (n, 1))
    te, le = np.array([True, True]), np.array([False, False])
    for name in ('force_xyz', 'lift', 'drag', '', 'force', 'Lift', 'DRAG', 'lift ', ' drag', 'force_xy', 'xyz', 'pressure', None, 0, 'lifting', 'lift,drag'):
        kind, r = verdict(forces.calc_force_wrapper, V, np.array([1.0, 1.0]), 1.2, cp, rings, 1, normals, span, te, le, name, -1.0)
        case = {'force kind': repr(name)}
        rep.case(case)
        if name in ('force_xyz', 'lift', 'drag'):
            if kind != 'accepted':
                rep.violation('known force kind', str(r), case)
        elif kind == 'accepted':
            rep.violation('unknown force kind', 'forces were returned', case)


def broken(job):
    """Verdicts of the solver for a sail set with one panel spoilt."""
    import numpy as np
    from pySailingVLM.solver.vlm import Vlm
    cas, spoils = job
    try:
        v = Voyage(cas, solve=False)
    except Refused as e:
        return 'skip'
    out = []
    n = len(v.set.panels)
    for how, k in spoils:
        k %= n
        p = np.array(v.set.panels, float)
        if how == 'collapsed':
            p[k, :] = p[k, 0]
        elif how == 'nan':
            p[k, 2, 1] = np.nan
        elif how == 'infinite':
            p[k, 1, 0] = np.inf
        elif how == 'flat':
            p[k, 3], p[k, 2] = p[k, 0], p[k, 1]
        c = v.c
        with np.errstate(all='ignore'):
            kind, r = verdict(Vlm, p, c['solver'].n_chordwise, c['solver'].n_spanwise, c['cond'].rho, v.wind.profile,
                              v.set.trailing_edge_info, v.set.leading_edge_info)
        out.append((how, k, kind, r if kind != 'accepted' else ''))
    return out


def run(rep):
    states, st = tlc('refuse5')
    rep.states, rep.transitions = st['states'], st['transitions']
    rep.extra['tlc'] = st
    rep.extra['exhaustive'] = 'all solutions of up to two panels, all with one odd panel among three to five'
    for s in sorted(states, key=lambda s: json.dumps(s['panels'])):
        replay(rep, s)
    among_many(rep, sorted(states, key=lambda s: json.dumps(s['panels'])))
    systems(rep)
    force_kinds(rep)
    cs = cases(rep, 'small', 160 if THOROUGH else 48, 'p22')
    cl = cases(rep, 'medium', 24 if THOROUGH else 6, 'p22m') + cases(rep, 'large', 8 if THOROUGH else 2, 'p22l')
    jobs = [(c, [('collapsed', 17 + 31 * i), ('nan', 5 + 23 * i), ('nan', 11 * i), ('infinite', i), ('flat', 60 + i)]) for i, c in enumerate(cl)]
    jobs += [(c, [('collapsed', k) for k in range(0, 8)] + [('nan', k) for k in range(0, 8)] + [('infinite', i), ('flat', i + 3)]) for i, c in enumerate(cs)]
    for (cas, _), res in zip(jobs, parallel(broken, jobs)):
        text = describe(cas)
        if res == 'skip':
            rep.skip('case not built')
            continue
        rep.trace(0)
        for how, k, kind, r in res:
            rep.case(('broken', how, k, str(text)), {'spoilt': how, 'panel': k, 'verdict': kind, 'text': r})
            if kind == 'accepted':
                rep.violation('results from a broken sail set', f'panel {k} {how}', text)
