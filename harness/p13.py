from core import *
from ship import *
import random
LEVEL = 'exploration'
TECHNIQUE = 'Recorded runs of the code on cases generated by the Quint specification, validated by the Quint trace specification spec/voyage.qnt'
RULE = ('cases of spec/m_case.qnt; moments, totals, per-sail totals, centre of effort and keel moments of the results tables, also about a '
        'second reference point, related to the recorded panel forces by spec/voyage.qnt')
KNOWN = {'along the centreline (K1)': ('K1', 'from_xyz_to_centerline_csys turns course-frame vectors by +leeway; a vector along the centreline comes out at twice the leeway')}


def script(v):
    import numpy as np
    from pySailingVLM.rotations.csys_transformations import CSYS_transformations
    from pySailingVLM.results.inviscid_flow import InviscidFlowResults
    r = v.results()
    out = v.solved() + [totals(v, r)]
    if v.cas['keelOn']:
        out.append(keel(v, r))
    out.append(centreline(v, r))
    rnd = random.Random(seed_of('p13', out[0].f['panels'][0]))
    ref2 = np.array([rnd.uniform(-5, 5), rnd.uniform(-3, 3), rnd.uniform(-2, 4)])
    other = CSYS_transformations(v.c['cond'].heel_deg, v.c['cond'].leeway_deg, v_from_original_xyz_2_reference_csys_xyz=ref2)
    r2 = InviscidFlowResults(v.set, other, v.vlm)
    if v.cas['keelOn']:
        r2.estimate_heeling_moment_from_keel(v.hull.center_of_lateral_resistance)
    t, full = table(r2.to_df_integral()), r2.to_df_full()
    e = (Event('moved').reals('ref2', ref2).reals('totf2', triple(t, 'F_sails_total_COG')).reals('totm2', triple(t, 'M_sails_total_COG'))
         .reals('force2', np.array([full[f'F_sails_COG.{c}'] for c in 'xyz']).T))
    if v.cas['keelOn']:
        e.reals('allm2', triple(t, 'M_total_COG'))
    return out + [e]


def run(rep):
    sail_runs(rep, cases(rep, 'small', 480 if THOROUGH else 112, 'p13'), script, KNOWN)
    sail_runs(rep, cases(rep, 'medium', 48 if THOROUGH else 8, 'p13'), script, KNOWN)
    sail_runs(rep, cases(rep, 'large', 24 if THOROUGH else 4, 'p13l'), script, KNOWN)
