from core import *
from ship import *
LEVEL = 'exploration'
TECHNIQUE = ('Runs of the code on cases of the Quint model spec/m_case.qnt; what its figures and its page contain is read back and judged by the trace specification '
             'spec/pictures.qnt')
RULE = ('cases of spec/m_case.qnt with all sails, references and keels: every polygon and value of the pressure page, every panel, hull line, arrow and point of the '
        'three-dimensional view (by pressure coefficient and by circulation, with and without induced wind), every ring of the ring view')


def arrows(ax):
    """Start and end of the arrows in space, with colour and opacity, by projecting them along the axes."""
    import numpy as np
    from matplotlib.colors import to_rgb
    from matplotlib.patches import FancyArrowPatch
    keep = ax.M
    out = []
    for a in ax.get_children():
        if not isinstance(a, FancyArrowPatch):
            continue
        seen = []
        for first in (0, 1, 2):
            m = np.zeros((4, 4))
            m[0, first], m[1, (first + 1) % 3], m[3, 3] = 1, 1, 1
            ax.M = m
            a.do_3d_projection()
            seen.append([np.asarray(p, float) for p in a._posA_posB])
        xyz = [[float(seen[k][e][0]) for k in range(3)] for e in (0, 1)]
        out.append((xyz[0] + xyz[1], tuple(to_rgb(a.get_edgecolor()[:3])), a.get_alpha() if a.get_alpha() is not None else 1.0))
    ax.M = keep
    return out


def watch():
    """Polygons in space remember their corners."""
    import numpy as np
    from mpl_toolkits.mplot3d.art3d import Poly3DCollection
    keep = Poly3DCollection.set_verts
    if getattr(keep, 'watched', False):
        return

    def set_verts(self, verts, *a, **k):
        self.seen_verts = [np.array(np.ma.filled(np.ma.asarray(v, float), np.nan)) for v in verts]
        return keep(self, verts, *a, **k)
    set_verts.watched = True
    Poly3DCollection.set_verts = set_verts


def quads(ax):
    """Polygons in space with their colours, without the water (a surface at height zero)."""
    import numpy as np
    from mpl_toolkits.mplot3d.art3d import Poly3DCollection
    out = []
    for c in ax.collections:
        if not isinstance(c, Poly3DCollection):
            continue
        faces = c.seen_verts
        col = getattr(c, '_facecolor3d', None)
        col = np.atleast_2d(col if col is not None else c.get_facecolor())
        for k, f in enumerate(faces):
            if len(f) == 5 and np.array_equal(f[0], f[4]):
                f = f[:4]
            if not np.all(f[:, 2] == 0):
                out.append((f, col[k % len(col)][:3]))
    return out


def lines(ax):
    import numpy as np
    return [np.column_stack([np.asarray(c, float) for c in l.get_data_3d()]) for l in ax.lines]


def dots(ax):
    import numpy as np
    from mpl_toolkits.mplot3d.art3d import Path3DCollection
    return [p for c in ax.collections if isinstance(c, Path3DCollection) for p in np.column_stack([np.ma.filled(np.ma.asarray(x, float), np.nan) for x in c._offsets3d]).tolist()]


def figure(f, *a, **k):
    import matplotlib.pyplot as plt
    plt.close('all')
    quietly(f, *a, **k)
    figs = [plt.figure(n) for n in plt.get_fignums()]
    axes = [ax for g in figs for ax in g.axes if hasattr(ax, 'get_zlim')]
    if len(axes) != 1:
        raise ValueError(f'{len(axes)} views drawn')
    return axes[0]


COLOURS = {(0.0, 0.5, 0.0): 'green', (0.0, 0.0, 1.0): 'blue', (0.0, 0.0, 0.0): 'black'}


def view(v, r, induced, optimal, act='view'):
    import numpy as np
    from pySailingVLM.solver.panels_plotter import display_panels_xyz_and_winds
    m, h = v.vlm, v.hull
    ax = figure(display_panels_xyz_and_winds, m, r, m.inlet_conditions, h, show_plot=False, show_induced_wind=induced, is_sailopt_mode=optimal)
    qs = quads(ax)
    group = {'green': [], 'blue': [], 'black': [], 'otherArrows': []}
    opaque = {True: [], False: []}
    for a, c, alpha in arrows(ax):
        name = COLOURS.get(tuple(round(x, 2) for x in c), 'otherArrows')
        group[name].append(a)
        if name in ('green', 'blue'):
            opaque[a[2] > 0].append(alpha)
    hl = [np.asarray(x, float) for x in (h.deck_centerline, h.deck_port_line, h.deck_starboard_line, h.deck_port_line_underwater, h.deck_starboard_line_underwater)]
    ll = lines(ax)
    flat = lambda l: [x for p in l for x in np.ravel(p)]
    e = (Event(act).reals('faces', flat([f for f, _ in qs])).reals('shades', [sum(c) for _, c in qs]).reals('hull', flat(hl)).ints('hullsizes', [len(x) for x in hl])
         .reals('lines', flat(ll)).ints('linesizes', [len(x) for x in ll]).ints('induced', [int(induced)]).reals('dots', flat(dots(ax)))
         .reals('opaque', [min(opaque[True] or [0]), max(opaque[False] or [1])]).reals('totf', r.F_xyz_total)
         .reals('ce', r.above_water_centre_of_effort_estimate_xyz).reals('ref', v.c['csys'].reference_level_for_moments).reals('clr', h.center_of_lateral_resistance)
         .reals('speeds', np.linalg.norm(m.V_app_fs_at_cp, axis=1)))
    for k, l in group.items():
        e.reals(k, flat(l))
    text = ax.get_title().lower()
    if ('circulation' if optimal else 'pressure') not in text:
        raise ValueError(f'title {text!r}')
    return e


def script(v):
    import numpy as np
    import matplotlib.pyplot as plt
    from p19 import page
    from pySailingVLM.solver.panels_plotter import plot_cp, display_panels_or_rings
    watch()
    v.cas = dict(v.cas, keelOn=True)
    r = v.results()
    m = v.vlm
    ev = v.solved()
    d = tempfile.mkdtemp(dir=scratch())
    try:
        quietly(plot_cp, v.set.zero_mesh, m.p_coeffs, d)
        src = [s for s in page(os.path.join(d, 'cp_plot.html')) if 'p_coeffs' in s]
        if len(src) != 1:
            raise ValueError(f'{len(src)} sources of pressure coefficients')
        s = src[0]
        polys = [polygon(x, z) for x, z in zip(s['xs'], s['ys'])]
        ev.append(Event('page').reals('zero', v.set.zero_mesh).reals('polygons', [c for p in polys for x, z in p for c in (x, 0.0, z)]).reals('values', s['p_coeffs']))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    induced = v.cas['boat']['nc'] + v.cas['boat']['ns'] + v.cas['boat']['sails'] > 4
    ev += [view(v, r, induced, False), Event('pressure shades'), view(v, r, not induced, True), Event('circulation shades')]
    ax = figure(display_panels_or_rings, m.rings, m.pressure, m.leading_mid_points, m.trailing_mid_points)
    ev.append(Event('things').reals('ringfaces', [x for f, _ in quads(ax) for x in np.ravel(f)]))
    plt.close('all')
    return ev


def polygon(x, z):
    """Corners of one polygon of the page, the closing one left out."""
    import numpy as np
    x, z = np.ravel(np.asarray(x, float)).tolist(), np.ravel(np.asarray(z, float)).tolist()
    pts = list(zip(x, z))
    if len(pts) == 5 and pts[0] == pts[4]:
        pts = pts[:4]
    if len(pts) != 4:
        raise ValueError(f'polygon of {len(pts)} points')
    return pts


def run(rep):
    import pySailingVLM.solver.vlm  # noqa: F401
    import pySailingVLM.solver.panels_plotter  # noqa: F401
    sail_runs(rep, cases(rep, 'small', 160 if THOROUGH else 40, 'p24'), script, module='pictures')
    sail_runs(rep, cases(rep, 'medium', 16 if THOROUGH else 3, 'p24m'), script, module='pictures')
    sail_runs(rep, cases(rep, 'large', 6 if THOROUGH else 2, 'p24l'), script, module='pictures')
