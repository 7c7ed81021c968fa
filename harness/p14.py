from core import *
from ship import *
import os, random, shutil
LEVEL = 'exploration'
TECHNIQUE = 'Recorded runs of the code on cases generated by the Quint specification, validated by the Quint trace specification spec/voyage.qnt'
RULE = ('cases of spec/m_case.qnt; the tables returned by save_results_to_file and the workbook read back from a scratch directory, every '
        'column and total related to the recorded flow by spec/voyage.qnt')
KNOWN = {'along the centreline (K1)': ('K1', 'from_xyz_to_centerline_csys turns course-frame vectors by +leeway; a vector along the centreline comes out at twice the leeway')}
COLUMNS = (['Circulation_magnitude'] + [f'V_induced_COG.{c}' for c in 'xyz'] + ['V_induced_length'] + [f'V_app_fs_COG.{c}' for c in 'xyz'] +
           ['V_app_fs_length', 'AWA_fs_COG_deg', 'AWA_fs_COW_deg', 'Pressure'] + [f'{q}.{c}' for q in ('F_sails_COG', 'M_sails_COG', 'F_sails_COW') for c in 'xyz'] +
           [f'{q}.{c}' for q in ('cp_points_COG', 'TWS_COG', 'V_app_infs_COG') for c in 'xyz'] +
           ['TWS_length', 'V_app_infs_length', 'AWA_infs_COG_deg', 'AWA_infs_COW_deg', 'cp_points_upright.z', 'girths'])
INLET = (['Reference_measurement_height', 'Reference_water_level_for_wind_profile'] + [f'TWS_at_reference_height_COG.{c}' for c in 'xyz'] +
         ['TWS_length_at_reference_height'] + [f'V_app_infs_at_reference_height_COG.{c}' for c in 'xyz'] +
         ['V_app_infs_length_at_reference_height_COG', 'AWA_infs_at_reference_height_COG_deg', 'AWA_infs_at_reference_height_COW_deg'])
EXACT, SIX, TWO = 10 ** 19, S // 2 // 10 ** 8 + 10 ** 15, S // 2 // 100 + 10 ** 18


def components(v, cols, names, fmt):
    e = Event('components').ints('fmt', [fmt]).ints('rows', [len(names)])
    for n in COLUMNS:
        e.reals(n, cols[n])
    return e.ints('sail_name', [{'jib': 0, 'main_sail': 1}.get(n, -1) for n in names])


def sheets(v, t, fmt):
    e = (Event('column sums').ints('fmt2', [fmt]).reals('sheetf', triple(t, 'F_sails_total_COG')).reals('sheetm', triple(t, 'M_sails_total_COG'))
         .reals('sheetfcow', triple(t, 'F_sails_total_COW')))
    return e


def script(v):
    import openpyxl
    from pySailingVLM.results.save_utils import save_results_to_file
    r = v.results()
    b = v.cas['boat']
    rnd = random.Random(seed_of('p14', v.vlm.panels.tobytes()))
    base = os.path.join(scratch(), f'p14-{os.getpid()}-{rnd.randrange(10**9)}')
    where = os.path.join(base, *rnd.choice([['out'], ['a', 'b'], ['there']]))
    name = rnd.choice(['results', 'case 7', 'x.y', 'Jib and main, heeled 25 deg, wind from port at 12 knots', 'Fahrt nach Süden', 'a-b_c+d'])
    os.makedirs(base)
    there = []
    if where.endswith('there'):
        os.makedirs(where)
        there = ['notes']
        open(os.path.join(where, 'notes'), 'w').write('as before')
    try:
        # an older file under the same name: of another evaluation, or anything
        older = rnd.choice(['none', 'results', 'other'])
        if older == 'results':
            import numpy as np
            from pySailingVLM.rotations.csys_transformations import CSYS_transformations
            from pySailingVLM.results.inviscid_flow import InviscidFlowResults
            about = CSYS_transformations(v.c['cond'].heel_deg, v.c['cond'].leeway_deg,
                                         v_from_original_xyz_2_reference_csys_xyz=np.array(v.c['csys'].reference_level_for_moments, float) + [1., 2., -.5])
            save_results_to_file(v.vlm, about, InviscidFlowResults(v.set, about, v.vlm), v.set, where, name)
        elif older == 'other':
            os.makedirs(where, exist_ok=True)
            open(os.path.join(where, name + '.xlsx'), 'w').write('something else')
        comp, integ, inlet = save_results_to_file(v.vlm, v.csys, r, v.set, where, name)
        if sorted(os.listdir(where)) != sorted([name + '.xlsx'] + there) or len(os.listdir(base)) != 1 or any(open(os.path.join(where, n)).read() != 'as before' for n in there):
            raise AssertionError(f'files written: {os.listdir(base)} {os.listdir(where)}, expected {name}.xlsx')
        wb = openpyxl.load_workbook(os.path.join(where, name + '.xlsx'), data_only=True)
        sheet = lambda n: [list(row) for row in wb[n].iter_rows(values_only=True)]
        rows, f_int, f_in = sheet('Components'), sheet('Integrals'), sheet('IC_at_reference_height')
    finally:
        shutil.rmtree(base, ignore_errors=True)
    head = [str(c) for c in rows[0]]
    filed = {n: [row[i] for row in rows[1:]] for i, n in enumerate(head)}
    if head != [str(c) for c in comp.columns]:
        raise AssertionError(f'columns of the file {head}')
    given = v.boat().ints('sails', [[0], [1], [0, 1]][b['sails']])
    out = v.solved() + [given, totals(v, r)] + ([keel(v, r)] if v.cas['keelOn'] else [])
    out += [centreline(v, r), components(v, comp, list(comp['sail_name']), EXACT), sheets(v, table(integ), EXACT)]
    # the tables of totals: what the results object says, and what is in the file
    mine = table(integ)
    if mine != table(r.to_df_integral()):
        raise AssertionError('the returned totals are not those of the results')
    out += [components(v, filed, filed['sail_name'], SIX)]
    ti = {str(q): x for q, x in f_int[1:]}
    out += [sheets(v, ti, TWO)]
    if v.cas['air']['kind'] == 1:
        for t, tol in ((table(inlet), EXACT), ({str(q): x for q, x in f_in[1:]}, TWO)):
            out.append(Event('inlet sheet').ints('fmt3', [tol]).reals('inletsheet', [t[n] for n in INLET]))
    ret, fil, digits = [], [], []
    for got, want, tol in ((f_int, integ, TWO), (f_in, inlet, TWO)):
        if [str(r[0]) for r in got[1:]] != [str(q) for q in want['Quantity']]:
            raise AssertionError(f'rows of the file {[r[0] for r in got]}')
        for row, x in zip(got[1:], want['Value']):
            ret.append(float(x)); fil.append(row[1]); digits.append(tol)
    for n in comp.columns:
        for x, y in zip(comp[n], filed[n]):
            if isinstance(x, str):
                if x != y:
                    raise AssertionError(f'{n}: {x} returned, {y} in the file')
            else:
                ret.append(float(x)); fil.append(y); digits.append(SIX)
    out.append(Event('stored').reals('returned', ret).reals('infile', fil).ints('digits', digits))
    return out


def run(rep):
    sail_runs(rep, cases(rep, 'small', 320 if THOROUGH else 72, 'p14'), script, KNOWN)
    sail_runs(rep, cases(rep, 'medium', 32 if THOROUGH else 6, 'p14'), script, KNOWN)
    sail_runs(rep, cases(rep, 'large', 16 if THOROUGH else 3, 'p14l'), script, KNOWN)
