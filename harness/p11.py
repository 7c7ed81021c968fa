from core import *
from ship import *
LEVEL = 'exploration'
TECHNIQUE = 'Recorded runs of the code on cases generated by the Quint specification, validated by the Quint trace specification spec/voyage.qnt'
RULE = 'cases of spec/m_case.qnt; every panel element of the recorded runs related to the recorded panels by spec/voyage.qnt'
KNOWN = {'area (K2)': ('K2', 'get_panels_area adds two overlapping triangles, not the two that make up the panel')}


def script(v):
    return [v.given(), v.elements(), v.areas()]


def run(rep):
    sail_runs(rep, cases(rep, 'small', 400 if THOROUGH else 96, 'p11'), script, KNOWN)
    sail_runs(rep, cases(rep, 'large', 64 if THOROUGH else 6, 'p11l'), script, KNOWN)
