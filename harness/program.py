"""Running the command line program on case files, and what its figures show."""
from core import *
from ship import *


def case_text(cas, name, file_name, case_name="os.path.basename(__file__)", case_dir="os.path.dirname(os.path.realpath(__file__))"):
    """The variables.py of a case (the twist mode is not an input of the program)."""
    b, a, r = cas['boat'], cas['air'], cas['boat']['rig']
    num = typed(cas)
    f = lambda n: repr(num(n))
    ar = lambda l: 'np.array([' + ', '.join(f(x) for x in l) + '])'
    sail = lambda d: {'girths': ar(d['girths']), 'chords': ar(d['chords']), 'centerline_twist_deg': ar(d['twist']), 'camber': ar(d['camber']),
                      'camber_distance_from_luff': ar(d['pos'])}
    groups = {
        'output_args': {'case_name': case_name, 'case_dir': case_dir, 'name': name, 'file_name': repr(file_name)},
        'solver_args': {'n_spanwise': b['ns'], 'n_chordwise': b['nc'], 'interpolation_type': repr(INTERP[b['interp']])},
        'conditions_args': {'leeway_deg': f(b['leeway']), 'heel_deg': f(b['heel']), 'SOG_yacht': f(a['sog']), 'tws_ref': f(a['tws']),
                            'alpha_true_wind_deg': f(a['alpha']), 'reference_water_level_for_wind_profile': f(a['level']),
                            'wind_exp_coeff': f(a['coeff']), 'wind_reference_measurment_height': f(a['href']), 'rho': f(a['rho']),
                            'wind_profile': repr(PROFILES[a['kind']]), 'roughness': f(a['rough'])},
        'rig_args': {'main_sail_luff': f(r['mainLuff']), 'jib_luff': f(r['jibLuff']), 'foretriangle_height': f(r['height']), 'foretriangle_base': f(r['base']),
                     'sheer_above_waterline': f(r['sheer']), 'boom_above_sheer': f(r['boom']), 'rake_deg': f(r['rake']), 'mast_LOA': f(r['loa']),
                     'sails_def': repr(SAILS[b['sails']])},
        'main_sail_args': sail(b['mainsail']), 'jib_sail_args': sail(b['jib']),
        'csys_args': {'reference_level_for_moments': ar([cas['ref'][k] for k in 'xyz'])},
        'keel_args': {'center_of_lateral_resistance_upright': ar([cas['clr'][k] for k in 'xyz'])}}
    return 'import os\nimport numpy as np\n' + ''.join(
        f'{g} = {{\n' + ''.join(f'    {k!r}: {v},\n' for k, v in d.items()) + '}\n' for g, d in groups.items())


PLAIN_STYLE = ('import matplotlib.style as st\nimport scienceplots\n'
               'for s in list(st.library.values()):\n    if "text.usetex" in s: s["text.usetex"] = False\n')


def plain_style():
    """There is no LaTeX here: the styles keep everything but that."""
    exec(PLAIN_STYLE, {})


class Figures:
    """Collects what figures show when they are saved."""

    def __enter__(self):
        import matplotlib.figure as mf
        self.seen = []
        self.keep = mf.Figure.savefig
        seen, keep = self.seen, self.keep

        def savefig(fig, fname, *a, **k):
            seen.append((str(fname), content(fig)))
            return keep(fig, fname, *a, **k)
        mf.Figure.savefig = savefig
        return self

    def __exit__(self, *e):
        import matplotlib.figure as mf, matplotlib.pyplot as plt
        mf.Figure.savefig = self.keep
        plt.close('all')


def content(fig):
    """Series (label -> points), axis labels."""
    import numpy as np
    series = []
    for ax in fig.axes:
        for c in ax.collections:
            series.append((str(c.get_label()), np.ma.filled(np.ma.asarray(c.get_offsets(), float), np.nan).tolist(), rgb(c)))
        for l in ax.lines:
            series.append((str(l.get_label()), np.column_stack([l.get_xdata(), l.get_ydata()]).astype(float).tolist(), None))
    shown = [t.get_text() for ax in fig.axes if ax.get_legend() for t in ax.get_legend().get_texts()]
    return {'series': series, 'x': [ax.get_xlabel() for ax in fig.axes], 'y': [ax.get_ylabel() for ax in fig.axes], 'legend': shown}


def rgb(c):
    try:
        return [float(x) for x in c.get_facecolor()[0]]
    except Exception:
        return None


def program(argv, cwd):
    """The program in this process (a throw-away one); (exit status, output, figures)."""
    import contextlib, io
    buf = io.StringIO()
    os.chdir(cwd)
    plain_style()
    sys.argv = ['pySailingVLM'] + argv
    sys.modules.pop('variables', None)
    with Figures() as figs:
        try:
            with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
                from pySailingVLM.runner import cli
                code = cli.main()
            code = 0 if code is None else code
        except SystemExit as e:
            code = 0 if e.code is None else e.code
        except BaseException as e:
            import traceback
            return f'{e!r} {traceback.format_exc(limit=-4)}', buf.getvalue(), figs.seen
    return code, buf.getvalue(), figs.seen


def fresh(f, items, procs=8):
    """Maps f over items, each in a process of its own forked from this one."""
    import multiprocessing as mp
    with mp.get_context('fork').Pool(min(procs, max(1, len(items))), maxtasksperchild=1) as pool:
        return pool.map(f, items, chunksize=1)
