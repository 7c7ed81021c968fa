from core import *
from ship import *
LEVEL = 'exploration'
TECHNIQUE = 'Recorded runs of the code on cases generated by the Quint specification, validated by the Quint trace specification spec/voyage.qnt'
RULE = ('cases of spec/m_case.qnt (rigs raked either way, forestays leaning aft and forward, all twist modes, both interpolations, grids from one panel to hundreds '
        'a sail); mountings, unrotated and sailing panels of the recorded sail sets compared with the sails spec/rig.qnt builds')


def script(v):
    return [v.given(), v.boat(), v.built()]


def run(rep):
    cs = cases(rep, 'small', 480 if THOROUGH else 128, 'p03') + cases(rep, 'medium', 200 if THOROUGH else 48, 'p03') + cases(rep, 'large', 40 if THOROUGH else 6, 'p03l')
    sail_runs(rep, cs, script, solve=False)
