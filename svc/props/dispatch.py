"""C16: what every function does with output ids, echoed inputs, region ids and inputs outside the domain."""
from .. import ref as F
from ..solve import Case
from . import Prop

ID = F.O_ID
INS = {'pt': 'pT', 'ph': 'ph', 'ps': 'ps', 'hs': 'hs', 'pv': 'pv', 'tv': 'Tv', 'th': 'Th', 'ts': 'Ts', 'px': 'px', 'tx': 'Tx',
       'hx': 'hx', 'sx': 'sx'}
BIG = (-1e9, 1e9)
AB = lambda v: [v['a'], v['b']]
# both saturation functions check their domain first; tx does so for computed properties only
DOM = {'px': {'a': (0.000611212677444, 22.064), 'b': (0.0, 1.0)}, 'hx': {'a': (0.381, 2803.27), 'b': (0.0, 1.0)},
       'sx': {'a': (0.336, 9.153), 'b': (0.0, 1.0)}}
UNKNOWN = ((36.0, 2147483647.0), (-2147483648.0, -1.0))
def echo():
    cs = []
    for fn, ins in INS.items():
        for i, n in enumerate(ins):
            f = lambda c, v, k='ab'[i]: v[k]
            box = DOM.get(fn, {'a': BIG, 'b': BIG})
            cs.append(Case('echo.%s.%s' % (fn, n), fn, ID[n], None, box, AB, f))
            if len(set('x') & set(ins)) == 0:
                for r in (1, 2, 3, 4, 5):
                    cs.append(Case('echo.%s.%s.r%d' % (fn, n, r), fn, ID[n], r, box, AB, f))
    return cs


EXP = {1: {'p': (0.01, 100.0), 'T': (0.0, 350.0), 'h': (1.0, 1650.0), 's': (0.01, 3.7), 'v': (0.00096, 0.0017)},
       2: {'p': (0.01, 30.0), 'T': (350.0, 800.0), 'h': (2800.0, 4000.0), 's': (6.0, 11.0), 'v': (0.01, 40.0)},
       3: {'p': (17.0, 100.0), 'T': (360.0, 550.0), 'h': (1700.0, 2700.0), 's': (3.8, 5.2), 'v': (0.0014, 0.01)},
       5: {'p': (0.01, 49.0), 'T': (801.0, 1999.0), 'h': (4200.0, 7300.0), 's': (8.0, 14.0), 'v': (0.01, 90.0)}}
WET = {'p': (0.1, 10.0), 'T': (150.0, 300.0), 'h': (1500.0, 2500.0), 's': (4.0, 5.2), 'v': (0.002, 0.018)}


def hint_boxes(fn, ins):
    """Where to look for a point of a path that ends in the equations of one region."""
    w = dict(WET, h=(1950.0, 2250.0), s=(4.9, 5.1)) if fn == 'hs' else WET
    return [{'a': b[ins[0]], 'b': b[ins[1]]} for b in [EXP[r] for r in (1, 2, 3, 5)] + ([] if fn == 'pt' else [w])]


def hxunknown(fn):
    def f(c, v):
        T = c.cut(c.impl(fn, v['a'], v['b'], ID['T']) + 273.15, 'T', 273.15, 623.15)
        c.cut(c.impl('tx', c.toC(T), v['b'], ID['p']), 'P', 0.0006, 16.53)
        return -1000.0
    return f


def unknown():
    cs = []
    for fn, ins in INS.items():
        for k, u in enumerate(UNKNOWN):
            if 'x' in ins:
                d = {'a': (0.0, 373.9) if fn == 'tx' else DOM[fn]['a']}
                for tag, b in (('wet', (1e-6, 1 - 1e-6)), ('liquid', (0.0, 0.0)), ('vapour', (1.0, 1.0))):
                    cs.append(Case('unknown.%s.%s.%d' % (fn, tag, k), fn, 'o', None, dict(d, b=b, o=u), AB,
                                   hxunknown(fn) if fn in ('hx', 'sx') else lambda c, v: -1000.0, fold=True))
            else:
                for r in (1, 2, 3, 5):
                    cs.append(Case('unknown.%s.r%d.%d' % (fn, r, k), fn, 'o', r,
                                   {'a': EXP[r][ins[0]], 'b': EXP[r][ins[1]], 'o': u}, AB, lambda c, v: -1000.0, fold=True))
    return cs


def quality():
    cs = []
    for fn, ins in INS.items():
        if 'x' in ins:
            continue
        for r in (1, 2, 3, 5):
            box = {'a': EXP[r][ins[0]], 'b': EXP[r][ins[1]]}
            cs.append(Case('x.%s.r%d' % (fn, r), fn, ID['x'], r, box, AB, lambda c, v, r=r: 0.0 if r == 1 else 1.0))
            cs.append(Case('r.%s.r%d' % (fn, r), fn, ID['r'], r, box, AB, lambda c, v, r=r: float(r)))
    return cs


# boxes enclosing the validity range of every function, out-of-range inputs included
FULL = {'p': (-1.0, 120.0), 'T': (-20.0, 2100.0), 'h': (-50.0, 7500.0), 's': (-0.1, 14.0), 'v': (1e-4, 2000.0)}
FULLHS = {'h': (-50.0, 4200.0), 's': (-0.1, 9.3)}


def auto():
    """Without a region: the property of the region that is reported; outside the range, the error code."""
    cs = []
    for fn, ins in INS.items():
        if 'x' in ins:
            continue
        B = FULLHS if fn == 'hs' else FULL
        def f(c, v, fn=fn, ins=ins):
            o = v['o']
            for n in ins + 'r':
                if c.iseq(o, ID[n]):
                    c.skip()
            r = c.impl(fn, v['a'], v['b'], ID['r'])
            for k in (1, 2, 3, 4, 5):       # the region may be symbolic
                if c.iseq(r, k):
                    return c.impl(fn, v['a'], v['b'], o, k)
            return -9999.0 if c.iseq(o, ID['x']) else r
        # (t,h) between 250 and 350 degrees Celsius: the region is found by a search over p, so it is uninterpreted here
        for k, A in enumerate([B[ins[0]]] if fn != 'th' else [(-20.0, 249.99), (350.0001, 2100.0), (249.99, 350.0001)]):
            cs.append(Case('auto.%s%s' % (fn, '.%d' % k if k else ''), fn, 'o', None,
                           {'a': A, 'b': B[ins[1]], 'o': (-2147483648.0, 2147483647.0)}, AB, f, fold=True,
                           glue=2 if k == 2 else True, weight=20, max_paths=3000, hints=hint_boxes(fn, ins)))
    return cs


PROPS = [Prop('C16', lambda t: echo() + unknown() + quality() + auto(),
              'echoed inputs: |input| <= 1e9, with and without a region; unknown output ids: every i32 outside 0..35 at states of each region '
              'and at saturation; x and r at states of each region; automatic region: every output id of i32, p -1..120 MPa, T -20..2100 C '
              '(t,h: without 250..350 C), h -50..7500 (h,s: 4200), s -0.1..14 (h,s: 9.3), v 1e-4..2000, with property and iterative '
              'functions uninterpreted; at most 3000 paths a case')]
