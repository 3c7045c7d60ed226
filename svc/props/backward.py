"""C07, C08: backward equations reached with an explicit region."""
from .. import ref as F
from ..solve import Case
from . import Prop

BX = {('ph', 1): {'p': (0.0006, 100.0), 'h': (-0.05, 1700.0)}, ('ps', 1): {'p': (0.0006, 100.0), 's': (-0.01, 3.8)},
      ('ph', 2): {'p': (0.0006, 100.0), 'h': (2400.0, 4200.0)}, ('ps', 2): {'p': (0.0006, 100.0), 's': (5.0, 12.0)},
      ('ph', 3): {'p': (16.5291642526045, 100.0), 'h': (1500.0, 2900.0)},
      ('ps', 3): {'p': (16.5291642526045, 100.0), 's': (3.3, 5.4)},
      ('hs', 1): {'h': (-0.05, 1700.0), 's': (-0.01, 3.8)}, ('hs', 2): {'h': (2400.0, 4200.0), 's': (5.0, 12.2)},
      ('hs', 3): {'h': (1500.0, 2900.0), 's': (3.3, 5.4)}}


def case(id, fn, o, reg, f):
    b = BX[fn, reg]
    x, y = list(b)
    g = (lambda c, v: f(c, v[x], v[y]) - 273.15) if o == 'T' else (lambda c, v: f(c, v[x], v[y]))
    return Case(id, fn, F.O_ID[o], reg, b, lambda v: [v[x], v[y]], g)


PROPS = [
    Prop('C07', lambda t: [
        case('T_ph1', 'ph', 'T', 1, F.T_ph1), case('T_ps1', 'ps', 'T', 1, F.T_ps1),
        case('T_ph2', 'ph', 'T', 2, F.T_ph2), case('T_ps2', 'ps', 'T', 2, F.T_ps2),
        case('T_ph3', 'ph', 'T', 3, F.T_ph3), case('v_ph3', 'ph', 'v', 3, F.v_ph3),
        case('T_ps3', 'ps', 'T', 3, F.T_ps3), case('v_ps3', 'ps', 'v', 3, F.v_ps3),
    ], 'boxes enclosing regions 1, 2 and 3: ' + str({k: v for k, v in BX.items() if k[0] != 'hs'})),
    Prop('C08', lambda t: [
        case('p_hs1', 'hs', 'p', 1, F.p_hs1), case('p_hs2', 'hs', 'p', 2, F.p_hs2), case('p_hs3', 'hs', 'p', 3, F.p_hs3),
    ], 'boxes enclosing regions 1, 2 and 3: ' + str({k: v for k, v in BX.items() if k[0] == 'hs'})),
]
