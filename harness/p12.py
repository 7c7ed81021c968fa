from core import *
from ship import *
LEVEL = 'exploration'
TECHNIQUE = 'Recorded runs of the code on cases generated by the Quint specification, validated by the Quint trace specification spec/voyage.qnt'
RULE = "cases of spec/m_case.qnt; forces, lift, drag, pressures and coefficients of the recorded runs related to the recorded circulations and velocities by spec/voyage.qnt"



def script(v):
    return [v.given(), v.elements("given"), v.areas("given"), v.inlet("given"), v.circulation("given"), v.pressure_points("given"), v.loads()]


def run(rep):
    sail_runs(rep, cases(rep, 'small', 400 if THOROUGH else 96, 'p12'), script)
    sail_runs(rep, cases(rep, 'large', 64 if THOROUGH else 6, 'p12l'), script)
