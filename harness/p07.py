from core import *
LEVEL = 'exploration'
RULE = ('behaviours of spec/m_sections.qnt: camber, position, thickness inside, at, just outside and far outside their limits or '
        'not a number, 1-9000 points (of which at most 51 are compared); verdict (accepted / refused with message and failing exit) and all surface points compared')


def run(rep):
    import numpy as np
    from pySailingVLM.thin_airfoil.vlm_airfoil import VlmAirfoil
    acc = ref = 0
    for tr in quint_many('m_sections.qnt', 'm_sections', 4000 if THOROUGH else 480, 1, invariant='inv'):
        rep.trace(len(tr))
        s = tr[-1]
        m, p, t = [float('nan') if s[k]['nan'] else fl(s[k]['v']) for k in ('mm', 'pp', 'tt')]
        case = {'camber': m, 'position': p, 'thickness': t, 'n': s['n'], 'verdict': s['verdict']}
        rep.case(case, case)
        try:
            foil = quietly(VlmAirfoil, m, p, t, s['n'])
            if s['verdict'] == 'refused':
                rep.violation('refusal', 'the section was accepted', case)
                continue
            acc += 1
        except Refused as e:
            ref += 1
            if s['verdict'] != 'refused':
                rep.violation('acceptance', f'the section was refused: {e.text}', case)
            elif e.code in (0, None):
                rep.violation('refusal', f'exit status {e.code!r} reports success', case)
            elif not e.text.strip() and not isinstance(e.code, str):
                rep.violation('refusal', 'no message', case)
            continue
        except Exception as e:
            rep.violation('section raises', repr(e), case)
            continue
        for name, key in (('xc', 'x'), ('yc', 'yc'), ('yt', 'yt'), ('xu', 'xu'), ('yu', 'yu'), ('xl', 'xl'), ('yl', 'yl')):
            try:
                if len(getattr(foil, name)) != s['n']:
                    rep.violation(name, f'{len(getattr(foil, name))} points', case)
                rep.close(name, [getattr(foil, name)[i] for i in s['picked']], [fl(q[key]) for q in s['pts']], case, scale=1.0, rel=1e-10)
            except Exception as e:
                rep.violation(name, repr(e), case)
    rep.extra.update(accepted=acc, refused=ref)
