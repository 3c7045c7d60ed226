"""C10-C13: which IF97 region the library assigns to a pair of inputs."""
from .. import ref as F
from ..solve import Case
from . import Prop
from .saturation import tsat_num

PMIN, PC, TC, PS = 0.000611212677444, 22.064, 647.096, F.PS623
M = 1e-9
INV, IP, IT = -9999.0, -2100.0, -2101.0


def g(c, reg, p, T, n):
    return F.prop(c, F.G(c, reg, p, T), n)


def satT(c, p, lo=273.1, hi=623.2):
    return c.cut(c.impl('px', p, c.k(0.0), F.O_ID['T']) + 273.15, 'Ts', lo, hi)


def satP(c, T, lo=6e-4, hi=22.0641):
    return c.cut(c.impl('tx', c.toC(T), c.k(0.0), F.O_ID['p']), 'Ps', lo, hi)


def chain(c, y, steps, last, scale):
    """code of the first step (bound, code) with y <= bound; `last` beyond all of them."""
    bs = [b() for b, _ in steps]
    for a, b in zip(bs, bs[1:]):
        c.fact(a, b, y)
    for b, (_, code) in zip(bs, steps):
        if c.rel('le', y, b, M, scale):
            return code
    return last


# ------------------------------------------------------------------ (p, T)
BAND_IN, BAND_OUT = 1e-7, 1e-5      # |p/ps - 1|: on the saturation line / off it


def satband(c, p, T):
    """4 on the saturation line, 1 above, 2 below; the rim of the band is left open."""
    ps = c.cut(c.impl('tx', c.toC(T), c.k(0.0), F.O_ID['p']), 'ps', 6e-4, 22.0641)
    if c.rel('ge', p, ps * (1 + BAND_OUT)):
        return 'above'
    if c.rel('le', p, ps * (1 - BAND_OUT)):
        return 'below'
    c.assume('le', p, ps * (1 + BAND_IN))
    c.assume('ge', p, ps * (1 - BAND_IN))
    return 'on'


def pt_cases(tier):
    o = F.O_ID['r']
    args = lambda v: [v['p'], v['T'] - 273.15]

    def mk(id, pb, Tb, ref, **k):
        return Case(id, 'pt', o, None, {'p': pb, 'T': Tb}, args, ref, tvars=('T',), **k)

    def low(c, v):
        return {'above': 1.0, 'below': 2.0, 'on': 4.0}[satband(c, v['p'], v['T'])]

    def mid(c, v):
        p, T = v['p'], v['T']
        if c.rel('lt', T, c.k(TC)):
            # the saturation line runs through region 3 and is reported as region 4
            b = satband(c, p, T)
            if b == 'on':
                return 4.0
        return 2.0 if c.rel('le', p, F.b23_p(c, T), M, 50.0) else 3.0
    near = 0.0006111
    cs = [
        mk('r1r2', (PMIN, 100.0), (273.15, 623.15), low),
        mk('r2r3', (PMIN, 100.0), (623.15 + 1e-9, 863.15), mid),
        mk('r2.hot', (PMIN, 100.0), (863.15 + 1e-9, 1073.15), lambda c, v: 2.0),
        mk('r5', (PMIN, 50.0), (1073.15 + 1e-9, 2273.15), lambda c, v: 5.0),
        mk('r5.highp', (50.0 + 1e-9, 100.0), (1073.15 + 1e-9, 2273.15), lambda c, v: IP),
        mk('lowp', (-1e3, near), (273.15, 2273.15), lambda c, v: IP),
        mk('lowp.near', (near, PMIN - 1e-15), (273.15, 2273.15), lambda c, v: IP),
        mk('highp', (100.0 + 1e-9, 1e6), (273.15, 2273.15), lambda c, v: IP),
        mk('lowT', (PMIN, 100.0), (1.0, 273.15 - 1e-9), lambda c, v: IT),
        mk('highT', (PMIN, 50.0), (2273.15 + 1e-9, 1e5), lambda c, v: IT),
        mk('isobar.pmin', (PMIN, PMIN), (273.16, 623.15), lambda c, v: 2.0),
        mk('isobar.100', (100.0, 100.0), (273.15, 623.15), lambda c, v: 1.0),
        mk('isotherm.623', (PMIN, 100.0), (623.15, 623.15), low),
        mk('critical', (PC, PC), (TC, TC), lambda c, v: 3.0),
    ]
    return cs


# ------------------------------------------------------------------ (p, h) and (p, s)
def py_cases(tier, fn, y):
    o = F.O_ID['r']
    scale = {'h': 3000.0, 's': 6.0}[y]
    yb = {'h': (-50.0, 9000.0), 's': (-0.2, 20.0)}[y]
    sat = {'h': F.p3sat_h, 's': F.p3sat_s}[y]
    args = lambda v: [v['p'], v['y']]

    def lo(c, v):
        p = v['p']
        T = satT(c, p)
        return chain(c, v['y'], [(lambda: g(c, 1, p, c.k(273.15), y), INV), (lambda: g(c, 1, p, T, y), 1.0),
                                 (lambda: g(c, 2, p, T, y), 4.0), (lambda: g(c, 2, p, c.k(1073.15), y), 2.0),
                                 (lambda: g(c, 5, p, c.k(2273.15), y), 5.0)], INV, scale)

    def up(c, v, dome, r5):
        p, Y = v['p'], v['y']
        steps = [(lambda: g(c, 1, p, c.k(273.15), y), INV), (lambda: g(c, 1, p, c.k(623.15), y), 1.0),
                 (lambda: g(c, 2, p, F.b23_T(c, p), y), 3.0), (lambda: g(c, 2, p, c.k(1073.15), y), 2.0)]
        if r5:
            steps.append((lambda: g(c, 5, p, c.k(2273.15), y), 5.0))
        r = chain(c, Y, steps, INV, scale)
        if r == 3.0 and dome:
            ya, yb_ = YSAT[y]
            # outside the range of the saturation equation the point is above the dome
            if not c.rel('ge', Y, c.k(ya), 1e-7, scale) or not c.rel('le', Y, c.k(yb_), 1e-7, scale):
                return 3.0
            if c.rel('lt', p, sat(c, Y), 1e-8, 20.0):
                return 4.0
        return r
    mk = lambda id, pb, ref, **k: Case('%s.%s' % (fn, id), fn, o, None, {'p': pb, 'y': yb}, args, ref, weight=4, **k)
    def lowest(c, v):
        p = v['p']
        T = satT(c, p)
        # next to the triple point the liquid strip is thinner than the margin
        c.assume('ge', v['y'], c.k({'h': 3.0, 's': 0.02}[y]))
        return chain(c, v['y'], [(lambda: g(c, 2, p, T, y), 4.0), (lambda: g(c, 2, p, c.k(1073.15), y), 2.0),
                                 (lambda: g(c, 5, p, c.k(2273.15), y), 5.0)], INV, scale)
    cs = [mk('lowest', (PMIN, 0.00064), lowest), mk('sub', (0.00064, PS), lo), mk('near', (PS + 1e-9, PC - 1e-9), lambda c, v: up(c, v, True, True)),
          mk('super', (PC, 50.0), lambda c, v: up(c, v, False, True)),
          mk('high', (50.0 + 1e-9, 100.0), lambda c, v: up(c, v, False, False)),
          mk('lowp', (-10.0, PMIN - 1e-12), lambda c, v: INV), mk('highp', (100.0 + 1e-9, 1e4), lambda c, v: INV)]
    return cs


# saturated h and s of regions 1 and 2 at 623.15 K
_c = F.NumCtx()
YSAT = {n: (float(F.prop(_c, F.G(_c, 1, F.mpf(PS), F.mpf(623.15)), n)), float(F.prop(_c, F.G(_c, 2, F.mpf(PS), F.mpf(623.15)), n)))
        for n in ('h', 's')}


# ------------------------------------------------------------------ (h, s)
def num(reg, p, T, n):
    return float(F.prop(_c, F.G(_c, reg, F.mpf(p), F.mpf(T)), n))


H4L, S4L = num(1, PMIN, 273.15, 'h'), num(1, PMIN, 273.15, 's')
H4V, S4V = num(2, PMIN, 273.15, 'h'), num(2, PMIN, 273.15, 's')
S13, S13S = num(1, 100.0, 623.15, 's'), num(1, PS, 623.15, 's')
STPMAX = num(2, 100.0, 1073.15, 's')
S23T = num(2, 100.0, 863.15, 's')
R5S, R5H = num(5, 50.0, 1073.15, 's'), num(5, 50.0, 1073.15, 'h')
S100 = num(1, 100.0, 273.15, 's')
H23MIN, H23MAX = num(2, PS, 623.15, 'h'), num(2, 100.0, 863.15, 'h')
SC = F.SC
S23A, S23B = 5.049096828, 5.260578707


def hs_cases(tier):
    """Below the 100 MPa isobar by `DH`, above the 273.15 K line of region 4, outside the (h,s) rectangle of region 5."""
    o = F.O_ID['r']
    args = lambda v: [v['h'], v['s']]
    DH = 2.0

    def floor(c, v):
        # isotherm 273.15 K through the dome
        return H4L + (v['s'] - S4L) / (S4V - S4L) * (H4V - H4L)

    def lowline(c, v, out=None):
        """Assume (or test) the point is above the 273.15 K line."""
        return c.rel('ge', v['h'], floor(c, v), 1e-7, 100.0)

    def ceil1(c, v):
        # the library's estimate of the 100 MPa isobar; the margin DH covers the offset
        T = c.cut(c.impl('ps', c.k(100.0), v['s'], F.O_ID['T'], 1) + 273.15, 'T1', 270.0, 650.0)
        return g(c, 1, c.k(100.0), T - 0.0218, 'h')

    def ceil3(c, v):
        s = v['s']
        T = c.cut(c.impl('ps', c.k(100.0), s, F.O_ID['T'], 3) + 273.15, 'T3', 600.0, 900.0)
        vv = c.cut(c.impl('ps', c.k(100.0), s, F.O_ID['v'], 3), 'v3', 0.001, 0.01)
        return F.prop(c, F.H(c, T - 0.0248, 1.0 / (vv * (1.0 + 9.6e-5))), 'h')

    def ceil2(c, v):
        T = c.cut(c.impl('ps', c.k(100.0), v['s'], F.O_ID['T'], 2) + 273.15, 'T2', 800.0, 1200.0)
        return g(c, 2, c.k(100.0), T - 0.019, 'h')

    def hot(c, v):
        # the 1073.15 K isotherm through the library's own pressure of the state
        p = c.cut(c.impl('hs', v['h'], v['s'], F.O_ID['p'], 2), 'p2', 1e-5, 200.0)
        return g(c, 2, p, c.k(1073.15), 'h')

    def seg(sat, above, ceil, mids=()):
        def f(c, v):
            h = v['h']
            hs = sat(c, v['s'])
            c.fact(floor(c, v), hs, h)
            if not lowline(c, v):
                return INV
            if c.rel('lt', h, hs, 1e-8, 2000.0):
                return 4.0
            up = ceil(c, v) if ceil else None
            if up is not None:
                for m in mids:
                    b = m(c, v['s'])
                    c.fact(hs, b, h)
                    c.fact(b, up, h)
                c.fact(hs, up, h)
                if c.rel('ge', h, up + DH):
                    return INV
                c.assume('le', h, up - DH)
            return above(c, v)
        return f

    def a13(c, v):
        return 1.0 if c.rel('lt', v['h'], F.hb13_s(c, v['s']), 1e-8, 2000.0) else 3.0

    def ceil3x(c, v):
        # region 2 beyond the 100 MPa isobar of region 3 is not reached
        up = ceil3(c, v)
        c.fact(ceil2(c, v), up + 1.0, v['h'])
        c.fact(up, c.k(H23MAX + 1.0), v['h'])
        return up

    def ceil2x(c, v):
        up = ceil2(c, v)
        c.fact(c.k(H23MAX - 1.0), up, v['h'])
        return up

    def a23(c, v):
        h, s = v['h'], v['s']
        if c.rel('lt', h, c.k(H23MIN), 1e-7, 2000.0):
            return 3.0
        if c.rel('ge', h, c.k(H23MAX), 1e-7, 2000.0):
            return 2.0
        T = F.tb23_hs(c, h, s)
        return 2.0 if c.rel('le', F.p_hs2c(c, h, s), F.b23_p(c, T), 1e-8, 50.0) else 3.0
    def liquid(c, v):
        # compressed liquid colder than any saturated liquid; its 273.15 K edge (h from -0.04 to 95.4) is left out
        h = v['h']
        if c.rel('le', h, c.k(-0.05)):
            return INV
        c.assume('ge', h, c.k(95.5))
        up = ceil1(c, v)
        if c.rel('ge', h, up + DH):
            return INV
        c.assume('le', h, up - DH)
        return 1.0

    def thin(c, v):
        p = c.cut(c.impl('hs', v['h'], v['s'], F.O_ID['p'], 2), 'p2', 1e-5, 1.0)
        return 2.0 if c.rel('ge', p, c.k(PMIN), 1e-6, PMIN) else INV
    cst = lambda r: (lambda c, v: r)
    mk = lambda id, sb, ref, hb=(-20.0, 3700.0), **k: Case('hs.' + id, 'hs', o, None, {'h': hb, 's': sb}, args, ref, weight=4, **k)
    e = 1e-8
    cs = [
        mk('r1', (S4L + 1e-6, S13 - e), seg(F.h1_s, cst(1.0), ceil1)),
        mk('r1.cold', (S100 + 1e-7, S4L - 1e-6), liquid, hb=(-2000.0, 3700.0)),
        mk('r1r3', (S13 + 2e-4, S13S - e), seg(F.h1_s, a13, ceil3, (F.hb13_s,))),
        mk('r3a', (S13S + e, SC - e), seg(F.h3a_s, cst(3.0), ceil3)),
        mk('r3b', (SC + e, S23A - e), seg(F.h2c3b_s, cst(3.0), ceil3)),
        mk('r2r3.lo', (S23A + e, S23T - 1e-4), seg(F.h2c3b_s, a23, ceil3x)),
        mk('r2r3.hi', (S23T + 1e-4, S23B - e), seg(F.h2c3b_s, a23, ceil2x)),
        mk('r2c', (S23B + e, 5.85 - e), seg(F.h2c3b_s, cst(2.0), ceil2)),
        mk('r2b', (5.85 + e, STPMAX - e), seg(F.h2ab_s, cst(2.0), ceil2)),
        mk('r2ab.steep', (STPMAX + e, R5S - e), seg(F.h2ab_s, cst(2.0), hot), hb=(-20.0, 4400.0)),
        mk('r2ab', (R5S + e, S4V - 1e-6), seg(F.h2ab_s, cst(2.0), hot), hb=(-20.0, R5H - 1e-3)),
        mk('r2a', (S4V + 1e-6, 9.3), thin, hb=(2501.0, R5H - 1e-3)),
        mk('low', (-1.0, -0.009), cst(INV)),
        mk('cold', (S4L + 1e-6, S13 - e), cst(INV), hb=(-1e4, -0.5)),
        mk('cold2', (S13 + e, S4V - 1e-6), cst(INV), hb=(-1e4, -0.5)),
    ]
    return cs


# ------------------------------------------------------------------ (p,v), (t,v), (t,h), (t,s)
PM3 = 16.5291643          # the library's region 3 lower pressure; points between it and psat(623.15 K) are left out


def pv_cases(tier):
    o = F.O_ID['r']
    args = lambda v: [v['p'], v['v']]
    vb = (1e-5, 2000.0)

    def sub(c, v):
        p, Y = v['p'], v['v']
        T = F.tsat(c, p)
        return chain(c, Y, [(lambda: g(c, 1, p, c.k(273.15), 'v'), INV), (lambda: g(c, 1, p, T, 'v'), 1.0),
                            (lambda: g(c, 2, p, T, 'v'), 4.0), (lambda: g(c, 2, p, c.k(1073.15), 'v'), 2.0),
                            (lambda: g(c, 5, p, c.k(2273.15), 'v'), 5.0)], INV, 0.001)

    def near(liq, vap, lo, hi):
        def f(c, v):
            p, Y = v['p'], v['v']
            T = satT(c, p, tsat_num(lo) - 1e-6, tsat_num(hi) + 1e-6)
            return chain(c, Y, [(lambda: g(c, 1, p, c.k(273.15), 'v'), INV), (lambda: g(c, 1, p, c.k(623.15), 'v'), 1.0),
                                (lambda: F.v_sub(c, liq, p, T), 3.0), (lambda: F.v_sub(c, vap, p, T), 4.0),
                                (lambda: g(c, 2, p, F.b23_T(c, p), 'v'), 3.0), (lambda: g(c, 2, p, c.k(1073.15), 'v'), 2.0),
                                (lambda: g(c, 5, p, c.k(2273.15), 'v'), 5.0)], INV, 0.001)
        return f

    def sup(r5):
        def f(c, v):
            p, Y = v['p'], v['v']
            st = [(lambda: g(c, 1, p, c.k(273.15), 'v'), INV), (lambda: g(c, 1, p, c.k(623.15), 'v'), 1.0),
                  (lambda: g(c, 2, p, F.b23_T(c, p), 'v'), 3.0), (lambda: g(c, 2, p, c.k(1073.15), 'v'), 2.0)]
            if r5:
                st.append((lambda: g(c, 5, p, c.k(2273.15), 'v'), 5.0))
            return chain(c, Y, st, INV, 0.001)
        return f
    mk = lambda id, pb, ref, **k: Case('pv.' + id, 'pv', o, None, {'p': pb, 'v': vb}, args, ref, weight=4, **k)
    cs = [mk('sub', (0.00064, PS - 1e-7), sub), mk('super', (PC + 1e-9, 50.0), sup(True)), mk('high', (50.0 + 1e-9, 100.0), sup(False)),
          mk('lowp', (-10.0, 0.9e-8), lambda c, v: INV), mk('highp', (100.0 + 1e-9, 1e4), lambda c, v: INV)]
    for lo, hi, a, b in ((PM3 + 1e-4, 19.0087, 'c', 't'), (19.0089, 20.4999, 's', 't'), (20.5001, 21.0433, 's', 'r'),
                         (21.0435, 21.9008, 'u', 'x'), (21.9011, 21.9315, 'u', 'z'), (21.9317, PC - 1e-5, 'y', 'z')):
        cs.append(mk('near.%g' % lo, (lo, hi), near(a, b, lo, hi)))
    return cs


def ty_cases(tier, fn, y):
    o = F.O_ID['r']
    desc = y != 'v'                      # h and s fall with p; so does v
    args = lambda v: [v['T'] - 273.15, v['y']]
    yb = {'v': (1e-5, 5e6), 'h': (-50.0, 9000.0), 's': (-0.0085, 18.99)}[y]
    scale = {'v': 0.001, 'h': 3000.0, 's': 6.0}[y]
    P100 = 100.0
    below = INV

    def liq(c, v):
        T = v['T']
        p = satP(c, T)
        if y == 'h':
            st = [(lambda: g(c, 1, p, T, 'h'), None), (lambda: g(c, 1, c.k(P100), T, 'h'), 1.0)]
            # compression raises h below 523.15 K: liquid lies above saturated liquid and overlaps wet steam
            Y = v['y']
            if not c.rel('ge', Y, st[0][0](), M, scale):
                return below
            if c.rel('le', Y, st[1][0](), M, scale):
                return 1.0
            return chain(c, Y, [(lambda: g(c, 2, p, T, y), 4.0), (lambda: g(c, 2, c.k(1e-8), T, y), 2.0)], INV, scale)
        return chain(c, v['y'], [(lambda: g(c, 1, c.k(P100), T, y), below), (lambda: g(c, 1, p, T, y), 1.0),
                                 (lambda: g(c, 2, p, T, y), 4.0), (lambda: g(c, 2, c.k(1e-8), T, y), 2.0)], INV, scale)

    def y3(c, T, vv):
        return vv if y == 'v' else F.prop(c, F.H(c, T, 1.0 / vv), y)

    def crit(a, b, lo, hi):
        def f(c, v):
            T = v['T']
            p = satP(c, T, lo, hi)
            return chain(c, v['y'], [(lambda: y3(c, T, F.v_pT3(c, c.k(P100), T)), below), (lambda: y3(c, T, F.v_sub(c, a, p, T)), 3.0),
                                     (lambda: y3(c, T, F.v_sub(c, b, p, T)), 4.0), (lambda: g(c, 2, F.b23_p(c, T), T, y), 3.0),
                                     (lambda: g(c, 2, c.k(1e-8), T, y), 2.0)], INV, scale)
        return f

    def sup(c, v):
        T = v['T']
        return chain(c, v['y'], [(lambda: y3(c, T, F.v_pT3(c, c.k(P100), T)), below), (lambda: g(c, 2, F.b23_p(c, T), T, y), 3.0),
                                 (lambda: g(c, 2, c.k(1e-8), T, y), 2.0)], INV, scale)

    def hot(c, v):
        T = v['T']
        return chain(c, v['y'], [(lambda: g(c, 2, c.k(P100), T, y), below), (lambda: g(c, 2, c.k(1e-8), T, y), 2.0)], INV, scale)

    def r5(c, v):
        T = v['T']
        return chain(c, v['y'], [(lambda: g(c, 5, c.k(50.0), T, y), below), (lambda: g(c, 5, c.k(PMIN), T, y), 5.0)], INV, scale)
    mk = lambda id, Tb, ref, **k: Case('%s.%s' % (fn, id), fn, o, None, {'T': Tb, 'y': yb}, args, ref, tvars=('T',), weight=4, **k)
    tcold = {'v': 273.15, 's': 278.15, 'h': 273.15}[y]     # s(p) of liquid water is not monotone below 277 K
    inv = {'ts': IT}.get(fn, INV)
    cs = [mk('r1r2', (tcold, 623.15 if y != 'h' else 523.1), liq), mk('super', (TC + 1e-6, 863.1), sup),
          mk('hot', (863.15 + 1e-9, 1073.15), hot), mk('r5', (1073.15 + 1e-9, 2273.15), r5),
          mk('lowT', (10.0, 273.15 - 1e-9), lambda c, v: inv), mk('highT', (2273.15 + 1e-9, 1e4), lambda c, v: inv)]
    if y == 'h':
        cs.append(mk('r2.warm', (523.15, 623.15), warm))
    for lo, hi, a, b in ((PS, 19.0087, 'c', 't'), (19.0089, 20.4999, 's', 't'), (20.5001, 21.0433, 's', 'r'),
                         (21.0435, 21.9008, 'u', 'x'), (21.9011, 21.9315, 'u', 'z'), (21.9317, 22.06, 'y', 'z')):
        tl, th = max(623.15 + 1e-4, tsat_num(lo) + 1e-6), tsat_num(hi) - 1e-6
        cs.append(mk('near.%g' % lo, (tl, th), crit(a, b, lo, hi)))
    return cs


def warm(c, v):
    """(t,h) from 523.15 K to 623.15 K, above the highest enthalpy of compressed liquid."""
    T, Y = v['T'], v['y']
    p = satP(c, T)
    c.assume('ge', Y, g(c, 1, p, T, 'h') + 60.0)
    return chain(c, Y, [(lambda: g(c, 2, p, T, 'h'), 4.0), (lambda: g(c, 2, c.k(1e-8), T, 'h'), 2.0)], INV, 3000.0)


PROPS = [
    Prop('C10', pt_cases, 'all p in [-1000, 1e6], T in [1, 1e5] K'),
    Prop('C11', lambda t: py_cases(t, 'ph', 'h') + py_cases(t, 'ps', 's'), 'p in [-10, 1e4], h in [-50, 9000], s in [-0.2, 20]'),
    Prop('C12', hs_cases, 's in [-1, 9.3], h in [-20, 3700] (region 5 rectangle left out), up to 2 kJ/kg around the 100 MPa isobar left out'),
    Prop('C13', lambda t: pv_cases(t) + ty_cases(t, 'tv', 'v') + ty_cases(t, 'th', 'h') + ty_cases(t, 'ts', 's'),
         'p in [-10, 1e4], T in [10, 1e4] K'),
]
