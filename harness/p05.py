from core import *
LEVEL = 'exploration'
RULE = ('behaviours of spec/m_rotations.qnt: a line (any direction incl. parallel to the axes, any position, lengths 1e-3..1e3), '
        '1-6 points (some on the line), four successive turns of which the last undoes the others; every turn replayed with the code')


def run(rep):
    import numpy as np
    from pySailingVLM.rotations.geometry_calc import (rotation_matrix, rotate_points_around_arbitrary_axis,
                                                      rotate_points_around_origin_axis)
    for tr in quint_many('m_rotations.qnt', 'm_rotations', 4000 if THOROUGH else 400, 4, invariant='inv'):
        rep.trace(len(tr))
        a, b, how = fv(tr[0]['line']['a']), fv(tr[0]['line']['b']), tr[0]['how']
        axis = np.array(b) - np.array(a)
        obs = np.array([fv(p) for p in tr[0]['pts']])
        case = {'a': a, 'b': b, 'about': ['line', 'origin'][how], 'points': obs.tolist(), 'angles': [fl(s['angle']) for s in tr[1:]]}
        rep.case(case, case)
        size = max(1.0, float(np.max(np.abs(obs))), float(np.max(np.abs(a))))
        # a line given by two points far from the origin and close together is itself only so accurate
        rel = 2e-13 * (1 + float(np.max(np.abs(a))) / float(np.linalg.norm(axis)))
        for s in tr[1:]:
            th = fl(s['angle'])
            want = np.array([fv(p) for p in s['pts']])
            try:
                new = (rotate_points_around_arbitrary_axis(obs, np.array(a), np.array(b), th) if how == 0
                       else rotate_points_around_origin_axis(obs, axis, th))
                mat = rotation_matrix(list(axis), th)
            except Exception as e:
                rep.violation('rotation raises', repr(e), case)
                break
            ok = rep.close('rotated points', new, want, case, scale=size, rel=rel)
            ok &= rep.close('rotation matrix', mat, [fv(s['m'][r]) for r in ('r1', 'r2', 'r3')], case, scale=1.0, rel=rel)
            if not ok:
                break
            obs = np.asarray(new, dtype=float)
