from core import *
LEVEL = 'exploration'
RULE = ('behaviours of spec/m_hull.qnt: base, sheer, heel in (-90, 90), leeway in (-180, 180), centre of lateral resistance on either side of the water '
        'or on it; the outline and the centre as the code has them, upright and sailing')
LINES = {'centre': 'deck_centerline', 'port': 'deck_port_line', 'starboard': 'deck_starboard_line',
         'portBelow': 'deck_port_line_underwater', 'starboardBelow': 'deck_starboard_line_underwater'}


def run(rep):
    import numpy as np
    from pySailingVLM.rotations.csys_transformations import CSYS_transformations
    from pySailingVLM.yacht_geometry.hull_geometry import HullGeometry
    for tr in quint_many('m_hull.qnt', 'm_hull', 1200 if THOROUGH else 160, 2, invariant='inv'):
        rep.trace(len(tr))
        s0, s1, s2 = tr
        heel, lee, base, sheer = (fl(s0[k]) for k in ('heel', 'leeway', 'base', 'sheer'))
        c = np.array(fv(s0['clr0']))
        case = {'heel': heel, 'leeway': lee, 'base': base, 'sheer': sheer, 'clr': c.tolist()}
        rep.case(case, case)
        for h, l, s in ((0.0, 0.0, s1), (heel, lee, s2)):
            try:
                # the reference point of the moments has no part in this
                hull = HullGeometry(sheer, base, CSYS_transformations(h, l, v_from_original_xyz_2_reference_csys_xyz=np.array([1.0, -2.0, 0.5])), c.copy())
                for k, attr in LINES.items():
                    rep.close(f'{attr} ({s["stage"]})', getattr(hull, attr), [fv(v) for v in s['lines'][k]], case, scale=4 * base + sheer, rel=1e-12)
                rep.close(f'centre of lateral resistance ({s["stage"]})', hull.center_of_lateral_resistance, fv(s['clr']), case, scale=10.0, rel=1e-13)
            except Exception as e:
                rep.violation('the hull raises', repr(e), case)
    default = HullGeometry(1.0, 2.0, CSYS_transformations(10.0, 5.0))
    rep.close('default centre of lateral resistance', default.center_of_lateral_resistance, [0, 0, 0], {'clr': 'default'})
