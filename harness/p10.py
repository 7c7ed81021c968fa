from core import *
from ship import *
LEVEL = 'exploration'
TECHNIQUE = 'Recorded runs of the code on cases generated by the Quint specification, validated by the Quint trace specification spec/voyage.qnt'
RULE = ('cases of spec/m_case.qnt (jib, main, both; any heel, leeway, twist, camber, wind); every recorded matrix entry, velocity and the '
        'solution are related by spec/voyage.qnt, which computes Biot-Savart itself; distinct by case')


def script(v):
    return [v.given(), v.elements('given'), v.inlet('given'), v.influence(), v.circulation(), v.pressure_points()]


def large(v):
    return [v.given(), v.elements('given'), v.inlet('given'), v.some_influence(), v.circulation(), v.pressure_points()]


def run(rep):
    sail_runs(rep, cases(rep, 'large', 48 if THOROUGH else 7, 'p10l'), large)
    sail_runs(rep, cases(rep, 'small', 400 if THOROUGH else 56, 'p10'), script)
