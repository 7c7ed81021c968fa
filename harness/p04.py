from core import *
LEVEL = 'exploration'
RULE = ('behaviours of spec/m_frames.qnt: heel in (-90, 90), leeway of either sign, zero included, a point above, below or on the '
        'water, and 2-6 vectors; taken to the sailing position (mirrored and not), back, and reported along the centreline')
K1 = 'from_xyz_to_centerline_csys turns course-frame vectors by +leeway; a vector along the centreline comes out at twice the leeway'


def centreline(rep, clause, got, vs, want, leeway, case, total=False):
    """K1: the code turns by the opposite angle; anything else is a violation."""
    import numpy as np
    got, want = np.asarray(got, float), np.asarray(want, float)
    scale = max(1e-300, float(np.max(np.abs(want))))
    if got.shape == want.shape and np.all(np.abs(got - want) <= 1e-12 * scale):
        return True
    a = np.deg2rad(leeway)
    r = np.array([[np.cos(a), -np.sin(a), 0], [np.sin(a), np.cos(a), 0], [0, 0, 1]])
    other = np.asarray(vs, float) @ r.T
    if total:
        other = other[:len(other) // 2].sum(axis=0)
    if got.shape == other.shape and np.all(np.abs(got - other) <= 1e-12 * scale):
        rep.finding('K1', K1, clause, f'turned by +{leeway} degrees', case)
        return True
    return rep.close(clause, got, want, case, rel=1e-12, absolute=0.0)


def run(rep):
    import numpy as np
    from pySailingVLM.rotations.csys_transformations import CSYS_transformations
    for tr in quint_many('m_frames.qnt', 'm_frames', 4000 if THOROUGH else 480, 3, invariant='inv'):
        rep.trace(len(tr))
        s0, s1, s2, s3 = tr
        heel, lee, p = fl(s0['heel']), fl(s0['leeway']), np.array(fv(s0['start']))
        vs = np.array([fv(v) for v in s0['vs']])
        case = {'heel': heel, 'leeway': lee, 'point': p.tolist(), 'vectors': vs.tolist()}
        rep.case(case, case)
        size = max(1.0, float(np.max(np.abs(p))))
        try:
            cs = CSYS_transformations(heel, lee)
            rep.same('leeway_deg and heel_deg', (cs.leeway_deg, cs.heel_deg), (lee, heel), case)
            q = cs.rotate_point_with_mirror(p)
            rep.close('sailing position', q, fv(s1['p']), case, scale=size, rel=1e-12)
            rep.close('sailing position without mirror', cs.rotate_point_without_mirror(p), fv(s1['plain']), case, scale=size, rel=1e-12)
            if s2['stays']:
                rep.close('back to upright', cs.reverse_rotations_with_mirror(np.asarray(q)), fv(s2['p']), case, scale=size, rel=1e-12)
            else:
                rep.skip('heel takes the point through the water')
            cow = [fv(v) for v in s3['cow']]
            centreline(rep, 'vectors along the centreline', cs.from_xyz_to_centerline_csys(vs), vs, cow, lee, case)
            m, tot = cs.calc_centerline_moments(vs)
            centreline(rep, 'moments along the centreline', m, vs, cow, lee, case)
            centreline(rep, 'total along the centreline', tot, vs, fv(s3['total']), lee, case, total=True)
        except Exception as e:
            rep.violation('frame change raises', repr(e), case)
