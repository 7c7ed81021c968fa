from core import *
from ship import *
from program import *
LEVEL = 'exploration'
TECHNIQUE = 'Quint trace specification (spec/voyage.qnt, spec/sections.qnt) validates recorded runs on cases generated by the Quint model spec/m_case.qnt'
RULE = ('cases of spec/m_case.qnt solved by the code: section coefficients for lift, drag and force, the plotted series, and for some the figures the '
        'program saves; spec/voyage.qnt recomputes them from the panels\' loads. Plot kinds of spec/m_kinds.qnt')


def numbers(v):
    import numpy as np
    from pySailingVLM.solver.coefs import get_C, get_data_for_coeff_plot
    m, c = v.vlm, v.c
    sec = lambda load: get_C(m.panels, m.areas, load, m.inlet_conditions.V_app_infs, m.n_spanwise, m.n_chordwise, m.rho)
    h, y1, y2 = get_data_for_coeff_plot(m, c['solver'])
    return v.solved() + [Event('sections').reals('seclift', sec(m.lift)).reals('secdrag', sec(m.drag)).reals('secforce', sec(m.force)),
                         Event('series').reals('heights', h).reals('serlift', np.array(y1)).reals('serdrag', np.array(y2))]


def plotting(job):
    """The program's own run of the case."""
    cas, k = job
    d = os.path.join(scratch(), f'plot{k}')
    os.makedirs(d)
    out = os.path.join(d, 'out put')
    with open(os.path.join(d, 'variables.py'), 'w') as f:
        f.write(case_text(cas, repr(out), 'book'))
    code, text, figs = program(['-dv', d], d)
    files = sorted(os.listdir(out)) if os.path.isdir(out) else []
    sizes = {n: os.path.getsize(os.path.join(out, n)) for n in files}
    shutil.rmtree(d, ignore_errors=True)
    return code, text[-2000:], figs, sizes, out


def sort_series(c):
    names = {'jib': 0, 'main_sail': 1, 'main': 1}
    return sorted(((names.get(l, -1), pts) for l, pts, _ in c['series']), key=lambda s: s[0])


def figure_event(rep, res, case):
    """Event of the two section plots, or None if they are not there."""
    code, text, figs, sizes, out = res
    if code != 0:
        if 'flow through panel' in str(code):
            rep.skip('refused for a flux above 1e-12 that is rounding')
        else:
            rep.violation('the program fails', f'{code}: {text[-500:]}', case)
        return None
    got = {}
    for kind, sym in (('lift', 'cl'), ('drag', 'cd')):
        mine = [c for n, c in figs if os.path.basename(n).split('.')[0] == f'section_{sym}']
        files = [n for n in sizes if n.split('.')[0] == f'section_{sym}' and sizes[n] > 0]
        if len(mine) != 1 or len(files) != 1:
            rep.violation('one file per plot', f'section_{sym}: saved {len(mine)} times, files {sorted(sizes)}', case)
            return None
        c = mine[0]
        label = ' '.join(c['x']).replace('_', '').replace('{', '').replace('}', '').lower()
        other = 'cd' if sym == 'cl' else 'cl'
        if sym not in label or other in label:
            rep.violation('axis of the plot', f'section_{sym} has {c["x"]}', case)
        if sorted(c['legend']) != sorted(s[0] for s in c['series']):
            rep.violation('legend of the plot', f'{c["legend"]} for {[s[0] for s in c["series"]]}', case)
        got[sym] = sort_series(c)
    e = Event('plotted')
    for p, sym in (('l', 'cl'), ('d', 'cd')):
        e.ints(p + 'names', [n for n, _ in got[sym]])
        e.reals(p + 'x', [q[0] for _, s in got[sym] for q in s]).reals(p + 'y', [q[1] for _, s in got[sym] for q in s])
    return e


def kinds(rep):
    from pySailingVLM.solver.panels_plotter import plot_section_coeff
    for tr in quint_many('m_kinds.qnt', 'm_kinds', 200 if THOROUGH else 40, 1, jobs=2, tag='p16'):
        rep.trace(len(tr))
        s = tr[-1]
        d = tempfile.mkdtemp(dir=scratch())
        n = s['sails']
        case = {'kind': s['kind'], 'sails': n}
        rep.case(case, case)
        data = [[1.0 + i + 0.1 * j for j in range(3)] for i in range(n)], [[2.0 + i + 0.5 * j for j in range(3)] for i in range(n)]
        with Figures() as figs:
            try:
                quietly(plot_section_coeff, data[0], data[1], d, s['kind'], ['blue', 'green'][:n], ['jib', 'main_sail'][:n])
                verdict = 'drawn'
            except Refused as e:
                verdict = 'refused' if e.code not in (0, None) else f'exit status {e.code!r}'
            except Exception as e:
                verdict = repr(e)
        files = sorted(x.split('.')[0] for x in os.listdir(d))
        rep.same('plot kind', verdict, 'drawn' if s['file'] else 'refused', case)
        rep.same('files of the plot', files, [s['file']] if s['file'] else [], case)
        if s['file'] and verdict == 'drawn':
            shown = [(l, pts) for l, pts, _ in figs.seen[-1][1]['series']]
            rep.same('series of the plot', shown, [(l, [list(p) for p in zip(data[0][i], data[1][i])]) for i, l in enumerate(['jib', 'main_sail'][:n])], case)
        shutil.rmtree(d, ignore_errors=True)


def run(rep):
    import scienceplots  # noqa: F401
    import pySailingVLM.runner.cli  # noqa: F401
    plain_style()
    kinds(rep)
    known = {}
    sail_runs(rep, cases(rep, 'small', 240 if THOROUGH else 64, 'p16') + cases(rep, 'medium', 64 if THOROUGH else 16, 'p16m')
              + cases(rep, 'large', 24 if THOROUGH else 4, 'p16l'), numbers, known)
    cs = cases(rep, 'small', 80 if THOROUGH else 16, 'p16p')
    cs = [dict(c, boat=dict(c['boat'], twistMode=0)) for c in cs]
    runs, texts = [], []
    recorded = parallel(vlm_events, cs)
    for cas, res, ev in zip(cs, fresh(plotting, [(c, k) for k, c in enumerate(cs)]), recorded):
        text = describe(cas)
        if isinstance(ev, str):
            rep.skip('case not solved: ' + ev[:60])
            continue
        e = figure_event(rep, res, text)
        if e is not None:
            ev[0].ints('sails', [0, 1] if cas['boat']['sails'] == 2 else [cas['boat']['sails']])
            runs.append(ev + [e])
            texts.append(text)
    judged(rep, 'voyage', runs, texts)


def vlm_events(cas):
    try:
        return Voyage(cas).solved()
    except (Refused, Exception) as e:
        return repr(e)
