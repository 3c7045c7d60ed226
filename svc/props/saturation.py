"""C06 saturation line, C14 saturated liquid and steam, C15 wet steam."""
from .. import ref as F
from ..solve import Case
from . import Prop

PMIN, PMAX = 0.000611212677444, 22.064
TMIN, TMAX = 273.15, 647.096
PS = F.PS623
# region 3 saturated volume pieces; gaps around the published auxiliary boundaries are left out
LIQ = [('c', PS + 1e-6, 19.0087), ('s', 19.0089, 21.0433), ('u', 21.0435, 21.9315), ('y', 21.9317, 22.06399)]
VAP = [('t', PS + 1e-6, 20.4999), ('r', 20.5001, 21.0433), ('x', 21.0435, 21.9008), ('z', 21.9011, 22.06399)]
LEVER = ['h', 's', 'v', 'u', 'f', 'g', 'e']
# saturation temperatures of the pieces (K), rounded inwards
TPS = {}


def tsat_num(p):
    return float(F.tsat(F.NumCtx(), F.mpf(p)))


CUT1 = {'cut0': ('inv', 'y1', 1386.0, 1.222), 'p': ('aff', 'x1', -16.53, (7.1, 16.53))}
CUT2 = {'cut0': ('inv', 'y2', 540.0, 0.5)}
TP1 = {'T': ('inv', 'y1', 1386.0, 1.222), 'cut0': ('aff', 'x1', -16.53, (7.1, 16.53))}
TP2 = {'T': ('inv', 'y2', 540.0, 0.5)}


def line(tier):
    return [
        Case('psat', 'tx', F.O_ID['p'], None, {'T': (TMIN, TMAX), 'x': (0.0, 1.0)}, lambda v: [v['T'] - 273.15, v['x']],
             lambda c, v: F.psat(c, v['T']), tvars=('T',), rtol=1e-8),
        Case('tsat', 'px', F.O_ID['T'], None, {'p': (PMIN, PMAX), 'x': (0.0, 1.0)}, lambda v: [v['p'], v['x']],
             lambda c, v: F.tsat(c, v['p']) - 273.15, rtol=1e-8, atol=1e-7),
        Case('px.p', 'px', F.O_ID['p'], None, {'p': (PMIN, PMAX), 'x': (0.0, 1.0)}, lambda v: [v['p'], v['x']],
             lambda c, v: v['p']),
        Case('px.x', 'px', F.O_ID['x'], None, {'p': (PMIN, PMAX), 'x': (0.0, 1.0)}, lambda v: [v['p'], v['x']],
             lambda c, v: v['x']),
        Case('tx.t', 'tx', F.O_ID['T'], None, {'T': (TMIN, TMAX), 'x': (0.0, 1.0)}, lambda v: [v['T'] - 273.15, v['x']],
             lambda c, v: v['T'] - 273.15, tvars=('T',), atol=1e-9),
        Case('tx.x', 'tx', F.O_ID['x'], None, {'T': (TMIN, TMAX), 'x': (0.0, 1.0)}, lambda v: [v['T'] - 273.15, v['x']],
             lambda c, v: v['x'], tvars=('T',)),
    ] + outside()


def outside():
    cs = []
    for n in ('p', 'T', 'h', 'v', 's', 'x', 'cp'):
        for tag, b in (('lowp', {'p': (-1e6, 0.000611212), 'x': (0.0, 1.0)}), ('highp', {'p': (22.0641, 1e6), 'x': (0.0, 1.0)}),
                       ('lowx', {'p': (PMIN, PMAX), 'x': (-1e6, -1e-9)}), ('highx', {'p': (PMIN, PMAX), 'x': (1.0 + 1e-9, 1e6)})):
            cs.append(Case('px.%s.%s' % (n, tag), 'px', F.O_ID[n], None, b, lambda v: [v['p'], v['x']], lambda c, v: -9999.0))
        if n in ('T', 'x'):
            continue
        for tag, b in (('lowt', {'t': (-1e6, -1e-6), 'x': (0.0, 1.0)}), ('hight', {'t': (373.9461, 1e6), 'x': (0.0, 1.0)}),
                       ('lowx', {'t': (0.0, 373.94), 'x': (-1e6, -1e-9)}), ('highx', {'t': (0.0, 373.94), 'x': (1.0 + 1e-9, 1e6)})):
            cs.append(Case('tx.%s.%s' % (n, tag), 'tx', F.O_ID[n], None, b, lambda v: [v['t'], v['x']], lambda c, v: -9999.0))
    return cs


def satT(c, p, x):
    return c.impl('px', p, x, F.O_ID['T']) + 273.15


def satP(c, T, x):
    return c.impl('tx', c.toC(T), x, F.O_ID['p'])


def saturated(tier):
    names = F.THERMO + F.TRANSPORT
    cs = []
    for n in names:
        for x, reg, par, tpar in ((0.0, 1, CUT1, TP1), (1.0, 2, CUT2, TP2)):
            ph = 'lv'[int(x)]
            cs.append(Case('px.%s.r%d' % (n, reg), 'px', F.O_ID[n], None, {'p': (PMIN, PS - 1e-6)}, lambda v, x=x: [v['p'], x],
                           lambda c, v, n=n, reg=reg, x=x: F.prop(c, F.G(c, reg, v['p'], satT(c, v['p'], x)), n), params=par, weight=3))
            cs.append(Case('tx.%s.r%d' % (n, reg), 'tx', F.O_ID[n], None, {'T': (TMIN, 623.15)}, lambda v, x=x: [v['T'] - 273.15, x],
                           lambda c, v, n=n, reg=reg, x=x: F.prop(c, F.G(c, reg, satP(c, v['T'], x), v['T']), n), params=tpar,
                           tvars=('T',), weight=3))
            for L, lo, hi in (VAP if x else LIQ):
                if n == 'v':
                    f = lambda c, v, L=L, x=x: F.v_sub(c, L, v['p'], satT(c, v['p'], x))
                    g = lambda c, v, L=L, x=x: F.v_sub(c, L, satP(c, v['T'], x), v['T'])
                else:
                    def f(c, v, n=n, x=x):
                        T = satT(c, v['p'], x)
                        return F.prop(c, F.H(c, T, 1.0 / c.impl('px', v['p'], x, F.O_ID['v'])), n)

                    def g(c, v, n=n, x=x):
                        return F.prop(c, F.H(c, v['T'], 1.0 / c.impl('tx', c.toC(v['T']), x, F.O_ID['v'])), n)
                cs.append(Case('px.%s.%s.%s' % (n, ph, L), 'px', F.O_ID[n], None, {'p': (lo, hi)}, lambda v, x=x: [v['p'], x], f))
                tl, th = max(623.1500001, tsat_num(lo) + 1e-6), min(tsat_num(hi) - 1e-6, 647.09599)
                cs.append(Case('tx.%s.%s.%s' % (n, ph, L), 'tx', F.O_ID[n], None, {'T': (tl, th)},
                               lambda v, x=x: [v['T'] - 273.15, x], g, tvars=('T',)))
    return cs


MID = (1e-9, 1.0 - 1e-9)


def wet(tier):
    cs = []
    px = lambda c, p, x, n: c.impl('px', p, x, F.O_ID[n])
    tx = lambda c, T, x, n: c.impl('tx', c.toC(T), x, F.O_ID[n])
    pboxes = {'sub': (PMIN, PS - 1e-6), 'r3': (PS + 1e-6, 22.06399)}
    tboxes = {'sub': (TMIN, 623.15), 'r3': (623.1500001, 647.09599)}

    def lever(y1, y2, x, n):
        return y1 + x * (y2 - y1)
    for n in LEVER + ['d']:
        for tag, pb in pboxes.items():
            def f(c, v, n=n):
                m = 'v' if n == 'd' else n
                r = lever(px(c, v['p'], 0.0, m), px(c, v['p'], 1.0, m), v['x'], m)
                return 1.0 / r if n == 'd' else r
            cs.append(Case('px.%s.%s' % (n, tag), 'px', F.O_ID[n], None, {'p': pb, 'x': MID}, lambda v: [v['p'], v['x']], f))
            for y, fn in (('h', 'ph'), ('s', 'ps'), ('v', 'pv')):
                if n == y:
                    continue
                def f2(c, v, n=n, y=y):
                    a, b = px(c, v['p'], 0.0, y), px(c, v['p'], 1.0, y)
                    x = c.cut((v['y'] - a) / (b - a), 'q', 1e-6, 1 - 1e-6)
                    m = 'v' if n == 'd' else n
                    if n == 'd' and y == 'v':
                        return 1.0 / v['y']
                    r = lever(px(c, v['p'], 0.0, m), px(c, v['p'], 1.0, m), x, m)
                    return 1.0 / r if n == 'd' else r
                cs.append(Case('%s.%s.%s' % (fn, n, tag), fn, F.O_ID[n], 4, {'p': pb, 'y': YBOX[y]}, lambda v: [v['p'], v['y']], f2))
        for tag, tb in tboxes.items():
            def g(c, v, n=n):
                m = 'v' if n == 'd' else n
                r = lever(tx(c, v['T'], 0.0, m), tx(c, v['T'], 1.0, m), v['x'], m)
                return 1.0 / r if n == 'd' else r
            cs.append(Case('tx.%s.%s' % (n, tag), 'tx', F.O_ID[n], None, {'T': tb, 'x': MID}, lambda v: [v['T'] - 273.15, v['x']], g,
                           tvars=('T',)))
            for y, fn in (('h', 'th'), ('s', 'ts'), ('v', 'tv')):
                if n == y:
                    continue
                def g2(c, v, n=n, y=y):
                    a, b = tx(c, v['T'], 0.0, y), tx(c, v['T'], 1.0, y)
                    x = c.cut((v['y'] - a) / (b - a), 'q', 1e-6, 1 - 1e-6)
                    m = 'v' if n == 'd' else n
                    r = lever(tx(c, v['T'], 0.0, m), tx(c, v['T'], 1.0, m), x, m)
                    return 1.0 / r if n == 'd' else r
                cs.append(Case('%s.%s.%s' % (fn, n, tag), fn, F.O_ID[n], 4, {'T': tb, 'y': YBOX[y]},
                               lambda v: [v['T'] - 273.15, v['y']], g2, tvars=('T',)))
    # quality
    for y, fn in (('h', 'ph'), ('s', 'ps'), ('v', 'pv')):
        for tag, pb in pboxes.items():
            def q(c, v, y=y):
                a, b = px(c, v['p'], 0.0, y), px(c, v['p'], 1.0, y)
                return (v['y'] - a) / (b - a)
            cs.append(Case('%s.x.%s' % (fn, tag), fn, F.O_ID['x'], 4, {'p': pb, 'y': YBOX[y]}, lambda v: [v['p'], v['y']], q, atol=1e-9))
    for y, fn in (('h', 'th'), ('s', 'ts'), ('v', 'tv')):
        for tag, tb in tboxes.items():
            def q(c, v, y=y):
                a, b = tx(c, v['T'], 0.0, y), tx(c, v['T'], 1.0, y)
                return (v['y'] - a) / (b - a)
            cs.append(Case('%s.x.%s' % (fn, tag), fn, F.O_ID['x'], 4, {'T': tb, 'y': YBOX[y]}, lambda v: [v['T'] - 273.15, v['y']], q,
                           tvars=('T',), atol=1e-9))
    for fn, y in (('ph', 'h'), ('ps', 's'), ('pv', 'v')):
        cs.append(Case('%s.T' % fn, fn, F.O_ID['T'], 4, {'p': (PMIN, 22.06399), 'y': YBOX[y]}, lambda v: [v['p'], v['y']],
                       lambda c, v: F.tsat(c, v['p']) - 273.15, atol=1e-7))
    for fn, y in (('th', 'h'), ('ts', 's'), ('tv', 'v')):
        cs.append(Case('%s.p' % fn, fn, F.O_ID['p'], 4, {'T': (TMIN, TMAX), 'y': YBOX[y]}, lambda v: [v['T'] - 273.15, v['y']],
                       lambda c, v: F.psat(c, v['T']), tvars=('T',)))
    # (h,s): the published equation and what follows from it
    hb, sb = (1900.0, 2806.0), (5.2109, 9.1557)
    cs.append(Case('hs.T', 'hs', F.O_ID['T'], 4, {'h': hb, 's': sb}, lambda v: [v['h'], v['s']],
                   lambda c, v: F.T_hs4(c, v['h'], v['s']) - 273.15, atol=1e-6, rtol=1e-7))
    def hsT(c, v):
        return c.cut(c.impl('hs', v['h'], v['s'], F.O_ID['T'], 4) + 273.15, 'T', 273.16, 623.14)

    def hsP(c, v):
        hsT(c, v)
        return c.cut(c.impl('hs', v['h'], v['s'], F.O_ID['p'], 4), 'P', PMIN, PS - 1e-4)

    def hsx(c, v):
        p = hsP(c, v)
        a, b = px(c, p, 0.0, 'h'), px(c, p, 1.0, 'h')
        return (v['h'] - a) / (b - a)
    cs.append(Case('hs.p', 'hs', F.O_ID['p'], 4, {'h': hb, 's': sb}, lambda v: [v['h'], v['s']],
                   lambda c, v: F.psat(c, hsT(c, v)), rtol=1e-6))
    cs.append(Case('hs.x', 'hs', F.O_ID['x'], 4, {'h': hb, 's': sb}, lambda v: [v['h'], v['s']], hsx, atol=1e-9, rtol=1e-6))
    for n in LEVER + ['d']:
        def hsy(c, v, n=n):
            p = hsP(c, v)
            c.cut(satT(c, p, 0.0), 'T2', 273.155, 623.145)
            a, b = px(c, p, 0.0, 'h'), px(c, p, 1.0, 'h')
            x = c.cut((v['h'] - a) / (b - a), 'q', 1e-6, 1 - 1e-6)
            m = 'v' if n == 'd' else n
            y1, y2 = px(c, p, 0.0, m), px(c, p, 1.0, m)
            r = y1 + x * (y2 - y1)
            return 1.0 / r if n == 'd' else r
        if n not in 'hs':
            cs.append(Case('hs.%s' % n, 'hs', F.O_ID[n], 4, {'h': hb, 's': sb}, lambda v: [v['h'], v['s']], hsy, rtol=1e-6))
    # properties that are not defined inside the dome
    und = \
        [n for n in F.THERMO + F.TRANSPORT if n not in LEVER + ['d', 'z', 'r']]
    for n in und:
        cs.append(Case('px.%s.undefined' % n, 'px', F.O_ID[n], None, {'p': (PMIN, PMAX), 'x': MID}, lambda v: [v['p'], v['x']],
                       lambda c, v: -1000.0))
        cs.append(Case('tx.%s.undefined' % n, 'tx', F.O_ID[n], None, {'T': (TMIN, TMAX), 'x': MID}, lambda v: [v['T'] - 273.15, v['x']],
                       lambda c, v: -1000.0, tvars=('T',)))
    return cs


YBOX = {'h': (-1.0, 2810.0), 's': (-0.01, 9.2), 'v': (0.0009, 250.0)}

PROPS = [
    Prop('C06', line, 'all real p in [0.000611212677444, 22.064], T in [273.15, 647.096], x in [0, 1]; and out-of-domain '
         'inputs up to 1e6 in magnitude'),
    Prop('C14', saturated, 'p in [0.000611212677444, 22.06399] and T in [273.15, 647.09599]; 1e-6 MPa around p(623.15 K) and '
         '1e-4 MPa around the volume-piece boundaries 19.0088, 20.5, 21.0434, 21.9009, 21.9316 MPa left out'),
    Prop('C15', wet, 'p in [0.000611212677444, 22.06399] without 1e-6 MPa around 16.529164, T in [273.15, 647.09599]; '
         'x in [1e-9, 1-1e-9]; (h,s) with s in [5.2109, 9.1557], 273.16 <= T <= 623.14'),
]
