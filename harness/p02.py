from core import *
from ship import *
import random
LEVEL = 'exploration'
TECHNIQUE = 'Recorded runs of the code on cases generated by the Quint specification, validated by the Quint trace specification spec/voyage.qnt'
RULE = ('cases of spec/m_case.qnt (grids up to 30 panels a sail); panels, circulations, pressures, velocities and forces of image pairs and the '
        'air induced on random points of the water plane, judged by spec/voyage.qnt')


def water_plane(v):
    """Velocities the code's own elements induce on points of the plane z = 0."""
    import numpy as np
    from pySailingVLM.solver import velocity
    m, rnd = v.vlm, random.Random(seed_of('p02', fl(v.cas['boat']['heel']), fl(v.cas['air']['alpha'])))
    box = np.abs(m.panels[:, :, :2]).max() * 1.5 + 1
    pts, vels, sizes = [], [], []
    for k in range(6):
        p = np.array([rnd.uniform(-box, box), rnd.uniform(-box, box), 0.0])
        q = []
        for j, (r, g) in enumerate(zip(m.rings, m.gamma_magnitude)):
            a, b, c, d = (np.ascontiguousarray(x) for x in r)
            f = m.gamma_orientation
            u = (velocity.vortex_horseshoe_v2(p, a, b, c, d, np.ascontiguousarray(m.inlet_conditions.V_app_infs[j]), f)
                 if m.trailing_edge_info[j] else velocity.vortex_ring(p, a, b, c, d, f))
            q.append(u * g)
        if not np.all(np.isfinite(q)):
            continue      # a point on a wake line
        pts.append(p)
        vels.append(np.sum(q, axis=0))
        sizes.append(float(np.sum(np.abs(q))))
    return Event('water plane').reals('plane', pts).reals('planevel', vels).reals('planesize', sizes)


def script(v):
    return [v.given(), Event('mirrored panels'), v.elements('given'), v.inlet('given'), v.circulation('given'), v.pressure_points('given'),
            v.loads('given'), Event('mirrored flow'), water_plane(v)]


def geometry(v):
    return [v.given(), Event('mirrored panels')]


def run(rep):
    sail_runs(rep, cases(rep, 'small', 400 if THOROUGH else 96, 'p02'), script)
    sail_runs(rep, cases(rep, 'medium', 160 if THOROUGH else 40, 'p02'), script if THOROUGH else geometry, solve=THOROUGH)
    sail_runs(rep, cases(rep, 'large', 32 if THOROUGH else 5, 'p02l'), script)
