"""C18: the iterative inversions reproduce their input."""
import math
import numpy as np
from .. import expr as X
from .. import ref as F
from .. import ref_tables as D
from ..inverse import Inverse
from . import Prop

ID = F.O_ID
C = lambda T: T - 273.15


def draw(rng, lo, hi, n):
    if lo > 0 and hi / lo > 30:
        return np.exp(rng.uniform(math.log(lo), math.log(hi), n))
    u = rng.uniform(lo, hi, n)
    k = n // 10         # and the ends
    u[:k] = lo + (hi - lo) * 10.0 ** rng.uniform(-9, -1, k)
    u[k:2 * k] = hi - (hi - lo) * 10.0 ** rng.uniform(-9, -1, k)
    return u


def num(x):
    return isinstance(x, float) and x == x


def hunter(fn, o, reg, vars, args, back, member, rtol=1e-5, n=4000):
    """Round trips on the native build; the first state that is not reproduced."""
    def hunt(nat, rng, case):
        v = [draw(rng, *case.box[k], n) for k in vars]
        pts = [tuple(float(x[i]) for x in v) for i in range(n)]
        ok = member(nat, pts)
        pts = [p for p, k in zip(pts, ok) if k]
        y = nat.many([args(p, None)[2] for p in pts])
        if y is None:
            return None
        pts, y = zip(*[(p, q) for p, q in zip(pts, y) if num(q)])
        call = [(fn,) + tuple(args(p, q)[:2]) + (o, reg) for p, q in zip(pts, y)]
        got = nat.many(call)
        if got is None:         # one call does not come back
            got = [nat.call(*c) for c in call[:40]]
        for p, c, g in zip(pts, call, got):
            if not num(g):
                return bad(c, g, p, args(p, None)[2], None)
        z = nat.many([back(p, g) for p, g in zip(pts, got)])
        if z is None:
            return None
        for p, q, c, g, w in zip(pts, y, call, got, z):
            if not num(w) or abs(w - q) > rtol * abs(q):
                return bad(c, g, p, back(p, g), w, q)
        return None

    def bad(c, g, p, b, w, q=None):
        return dict(case='%s region %s' % (fn, reg), call='%s(%r, %r, %d, %r)' % c, got=g,
                    expected='the state %s' % (p,), difference='%s gives %s, not %s' % (b, w, q))
    return hunt


def one(id, fn, on, reg, box, vars, fwd, order, back, pre=None, member=None, **kw):
    """vars = (con, unk); fwd(v) -> forward call (fn, a, b, o, reg); order(v, y) -> (a, b); back(v, g) -> forward call."""
    o = ID[on]

    def args(c, vs):
        v = tuple(vs[k] for k in vars)
        f = fwd(v)
        y = c.impl(*f)
        return list(order(v, y)), y, vars[1]

    def bk(c, vs, got):
        return c.impl(*back(tuple(vs[k] for k in vars), got))

    def nargs(p, q):
        f = fwd(p)
        if q is None:
            return None, None, f
        a = order(p, q)
        return a[0], a[1], f
    pr = None if pre is None else (lambda c, vs: pre(c, *[vs[k] for k in vars]))
    return Inverse(id, fn, o, reg, box, args, bk, pre=pr, native=hunter(fn, o, reg, vars, nargs, back, member), **kw)


def region_of(ptf):
    def member(nat, pts):
        pt = [ptf(p) for p in pts]
        r = nat.many([('pt', a, b, ID['r'], None) for a, b in pt])
        return lambda reg: [x == reg for x in r]
    return member


def inmember(reg, ptcalls):
    """Is the state in the region?  ptcalls(nat, pts) -> [(p, t)]"""
    def member(nat, pts):
        pt = ptcalls(nat, pts)
        r = nat.many([('pt', a, b, ID['r'], None) for a, b in pt])
        return [x == reg for x in r]
    return member


PT = lambda nat, pts: [(p, T - 273.15) for p, T in pts]
TP = lambda nat, pts: [(p, T - 273.15) for T, p in pts]


def P3(k):
    return lambda nat, pts: list(zip(nat.many([('tv', q[k] - 273.15, q[1 - k], ID['p'], 3) for q in pts]),
                                     [q[k] - 273.15 for q in pts]))


def cases(tier):
    K = 3 if tier == 'quick' else 5
    cs = []
    tsat = lambda c, p, T: c.assume('le', T, c.impl('px', p, 0.5, ID['T']) + 273.15)
    tsup = lambda c, p, T: c.assume('ge', T, c.impl('px', p, 0.5, ID['T']) + 273.15)
    psat = lambda c, T, p: c.assume('ge', p, c.impl('tx', C(T), 0.5, ID['p']))
    psub = lambda c, T, p: c.assume('le', p, c.impl('tx', C(T), 0.5, ID['p']))
    b23 = lambda c, T, p: c.assume('le', p, D.B23[0] + (D.B23[1] + D.B23[2] * T) * T)
    b23p = lambda c, p, T: c.assume('ge', T, D.B23_P[1] + ((p - D.B23_P[2]) / D.B23_P[0]) ** 0.5)
    PV = {1: (('lo', {'p': (0.001, 16.529), 'T': (278.0, 623.15)}, tsat), ('hi', {'p': (16.53, 100.0), 'T': (278.0, 623.15)}, None)),
          2: (('lo', {'p': (0.0012, 16.529), 'T': (273.16, 1073.15)}, tsup), ('hi', {'p': (16.53, 100.0), 'T': (623.16, 1073.15)}, b23p)),
          5: (('', {'p': (0.0007, 50.0), 'T': (1073.16, 2273.15)}, None),)}
    for r, bs in PV.items():
        for tag, box, pre in bs:
            cs.append(one('pv.r%d%s' % (r, tag), 'pv', 'T', r, box, ('p', 'T'), lambda v, r=r: ('pt', v[0], C(v[1]), ID['v'], r),
                          lambda v, y: (v[0], y), lambda v, g, r=r: ('pt', v[0], g, ID['v'], r), pre=pre, member=inmember(r, PT),
                          unroll=K, Lmax=0.43 if r == 2 else 1e3, direction=1))
    TX = {1: (('', {'T': (278.0, 623.15), 'p': (0.001, 100.0)}, psat),),
          2: (('lo', {'T': (273.16, 623.15)}, psub), ('mid', {'T': (623.16, 863.1)}, b23), ('hi', {'T': (863.16, 1073.15)}, None)),
          5: (('', {'T': (1073.16, 2273.15)}, None),)}
    if tier == 'quick':     # the code looks for an interval step by step: steps of each kind
        cut = dict(a=(0.0007, 0.003), b=(0.003, 0.07), c=(0.07, 1.5), d=(1.5, 3.0), f=(16.53, 18.0), g=(98.0, 100.0))
        use = {'lo': 'acd', 'mid': 'bf', 'hi': 'cg', '': 'acd'}
    else:
        e = [0.0007, 0.003, 0.07, 0.4, 1.5] + [1.0 + 2.0 * k for k in range(1, 9)]
        e += [20.0 + 5.0 * k for k in range(17)]
        cut = {'%03d' % k: (lo, hi) for k, (lo, hi) in enumerate(zip(e, e[1:]))}
        use = {'lo': [k for k in cut if cut[k][1] <= 16.53], 'mid': list(cut), 'hi': list(cut), '': [k for k in cut if cut[k][1] <= 50.0]}
    for r, bs in TX.items():
        for n in 'vhs':
            for tag, box, pre in bs:
                if r == 1:
                    parts = (('', *box['p']),)
                    if n == 'h':
                        box = dict(box, T=(278.0, 508.15))
                elif n == 's' or r == 5 and n == 'h':
                    parts = (('', 0.0007, 16.53 if tag == 'lo' else 50.0 if r == 5 else 100.0),)
                else:
                    parts = [(k,) + cut[k] for k in use[tag]]
                for pt, lo, hi in parts:
                    cs.append(one('t%s.r%d%s%s' % (n, r, tag, pt), 't' + n, 'p', r, dict(box, p=(lo, hi)), ('T', 'p'),
                                  lambda v, r=r, n=n: ('pt', v[1], C(v[0]), ID[n], r), lambda v, y: (C(v[0]), y),
                                  lambda v, g, r=r, n=n: ('pt', g, C(v[0]), ID[n], r), pre=pre, member=inmember(r, TP),
                                  unroll=K - (len(parts) > 1) * (1 if tier == 'quick' else 2),
                                  bracket=40 if len(parts) > 1 else None, direction=1 if (r, n) == (1, 'h') else -1))
    b5 = {'p': (0.0007, 50.0), 'T': (1073.16, 2273.15)}
    for n in 'hs':
        cs.append(one('p%s.r5' % n, 'p' + n, 'T', 5, b5, ('p', 'T'), lambda v, n=n: ('pt', v[0], C(v[1]), ID[n], 5),
                      lambda v, y: (v[0], y), lambda v, g, n=n: ('pt', v[0], g, ID[n], 5), member=inmember(5, PT), unroll=K,
                      direction=1))
    b3 = {'v': (0.00135, 0.0087), 'T': (623.16, 863.0)}
    cs.append(one('pv.r3', 'pv', 'T', 3, b3, ('v', 'T'), lambda v: ('tv', C(v[1]), v[0], ID['p'], 3), lambda v, y: (y, v[0]),
                  lambda v, g: ('tv', g, v[0], ID['p'], 3),
                  pre=lambda c, v, T: c.assume('ge', c.impl('tv', C(T), v, ID['p'], 3), 16.6), member=inmember(3, P3(1)), unroll=K, direction=1))
    for n in 'hs':
        cs.append(one('t%s.r3' % n, 't' + n, 'v', 3, b3, ('T', 'v'), lambda v, n=n: ('tv', C(v[0]), v[1], ID[n], 3),
                      lambda v, y: (C(v[0]), y), lambda v, g, n=n: ('tv', C(v[0]), g, ID[n], 3), member=inmember(3, P3(0)), unroll=K,
                      direction=1))
    cs.append(hs5(K))
    for n in 'hs':
        cs += [wet(n, tag, box) for tag, box in WET[n]]
    cs += [hs4(tag, box, K - 1 - (tag in 'cd')) for tag, box in HS4]
    return cs


HS4 = (('a', {'h': (843.0, 843.005), 's': (2.32, 2.36)}), ('b', {'h': (1240.0, 1240.005), 's': (3.13, 3.17)}),
       ('c', {'h': (2000.0, 2010.0), 's': (4.2, 4.25)}), ('d', {'h': (2300.0, 2310.0), 's': (4.9, 4.95)}))


def hs4(tag, box, K):
    """Wet steam from (h, s): the temperature and quality returned have the entropy given."""
    def args(c, v):
        return [v['h'], v['s']], v['s'], None

    def back(c, v, got):
        x = c.impl('hs', v['h'], v['s'], ID['x'], 4)
        for rel, a, b in (('ge', x, 0.0), ('le', x, 1.0), ('ge', got + 273.15, 273.2), ('le', got + 273.15, 623.1)):
            c.assume(rel, a, b)         # wet steam below 623.1 K
        return c.impl('tx', got, x, ID['s'])

    def hunt(nat, rng, case):
        h, s = draw(rng, *case.box['h'], 2000), draw(rng, *case.box['s'], 2000)
        st = list(zip(map(float, h), map(float, s)))
        got = nat.many([('hs', a, b, ID['T'], 4) for a, b in st])
        if got is None:
            return None
        x = nat.many([('hs', a, b, ID['x'], 4) for a, b in st])
        z = nat.many([('tx', g, q, ID['s'], None) for g, q in zip(got, x)])
        for (a, b), g, q, w in zip(st, got, x, z or []):
            if 0.02 < q < 0.98 and (not num(w) or abs(w - b) > 1e-5 * b):
                return dict(case='hs region 4', call='hs(%r, %r, 1, 4)' % (a, b), got=(g, q), expected='wet steam with s = %r' % b,
                            difference='s at the temperature and quality returned is %r' % w)
        return None
    return Inverse('hs.r4' + tag, 'hs', ID['T'], 4, box, args, back, unroll=K, native=hunt, near=lambda c, v, got: X.const(1.1e-6))


def hs5(K):
    """The pressure of region 5 from (h, s), the inner T(p, h) taken as exact (it is the case ph.r5)."""
    def args(c, v):
        f = c.composite()
        y = X.uf(f, (v['p'], v['h']))
        return [v['h'], y], y, 'p'

    def back(c, v, got):
        return X.uf(c.composite(), (got, v['h']))

    def hunt(nat, rng, case):
        p, T = draw(rng, 0.0007, 50.0, 4000), draw(rng, 1073.16, 2273.15, 4000)
        st = list(zip(map(float, p), map(float, T)))
        h, s = (nat.many([('pt', a, C(b), ID[n], 5) for a, b in st]) for n in 'hs')
        got = nat.many([('hs', a, b, ID['p'], 5) for a, b in zip(h, s)])
        if got is None:
            return None
        t = nat.many([('hs', a, b, ID['T'], 5) for a, b in zip(h, s)])
        z = nat.many([('pt', a, b, ID['s'], 5) for a, b in zip(got, t)])
        for q, a, b, g, u, w in zip(st, h, s, got, t, z):
            if not num(w) or abs(w - b) > 1e-5 * abs(b):
                return dict(case='hs region 5', call='hs(%r, %r, 0, 5)' % (a, b), got=(g, u), expected='the state (p, T) = %s' % (q,),
                            difference='s at the state returned is %r' % w)
        return None
    return Inverse('hs.r5', 'hs', ID['p'], 5, {'p': (0.0007, 50.0), 'h': (4000.0, 7374.0)}, args, back, unroll=K, direction=-1,
                   native=hunt, ideal=True)


WET = {'h': (('a', {'y': (495.0, 495.2), 'x': (0.1, 0.1001)}), ('b', {'y': (1200.0, 1200.2), 'x': (0.25, 0.2501)}),
             ('c', {'y': (1500.0, 1500.2), 'x': (0.0, 0.0001)}), ('d', {'y': (1800.0, 1800.2), 'x': (0.6, 0.6001)})),
       's': (('a', {'y': (1.5, 1.5006), 'x': (0.1, 0.1001)}), ('b', {'y': (6.0, 6.0006), 'x': (0.8, 0.8001)}),
             ('c', {'y': (3.6, 3.6006), 'x': (0.0, 0.0001)}), ('d', {'y': (5.5, 5.5006), 'x': (0.9999, 1.0)}))}


def wet(n, tag, box):
    """(h, x), (s, x): the bisection ends, with a residual in the quality below its tolerance."""
    o = ID[n]

    def args(c, v):
        return [v['y'], v['x']], v['y'], None

    def sat(c, got, x):
        return c.impl('tx', got, x, o)

    def back(c, v, got):
        w = sat(c, got, 0.0)
        return w + v['x'] * (sat(c, got, 1.0) - w)

    def near(c, v, got):
        return 1.001e-5 * (sat(c, got, 1.0) - sat(c, got, 0.0))

    def hunt(nat, rng, case):
        y, x = draw(rng, *case.box['y'], 4000), draw(rng, *case.box['x'], 4000)
        st = list(zip(map(float, y), map(float, x)))
        got = nat.many([(n + 'x', a, b, ID['T'], None) for a, b in st])
        if got is None:
            got = [nat.call(n + 'x', a, b, ID['T'], None) for a, b in st[:40]]
        z = nat.many([('tx', g, b, o, None) for g, (a, b) in zip(got, st)])
        for (a, b), g, w in zip(st, got, z or []):
            if not num(w) or abs(w - a) > 2e-5 * {'h': 2500.0, 's': 9.2}[n]:
                return dict(case=n + 'x', call='%sx(%r, %r, 1)' % (n, a, b), got=g, expected='the temperature where %s at this quality is %r' % (n, a),
                            difference='%s there is %r' % (n, w))
        return None
    return Inverse('%sx.%s' % (n, tag), n + 'x', ID['T'], None, box, args, back, unroll=100, native=hunt, near=near, whole=True)


PROPS = [Prop('C18', cases, 'secant loops at most 3 steps in quick, 2 after the search for an interval (thorough 5 and 3), interval search and (h,x), (s,x) bisection to '
              'the end (40, 100 steps), (h,s) region 4 at most 2 steps; (t,v), (t,h) in regions 2 and 5 (quick): pressure intervals 0.0007-0.003, 0.003-0.07, 0.07-1.5, 1.5-3, '
              '16.53-18, 98-100 MPa, otherwise the whole region; (h,x), (s,x), (h,s) region 4: the boxes WET, HS4 of svc/props/inverse.py; exits beyond the loop '
              'bounds are not decided, only replayed at 4000 states a case',
              ['the property functions solved for are uninterpreted; at the points visited they are strictly monotone (injective in composites) and share one Lipschitz constant L',
               'the inner inversion T(p,h) of hs in region 5 is exact (it is the case ph.r5)',
               'saturation pressure and temperature are inverse to each other (C06)',
               'an exit is accepted when the input is reproduced within 3e-8 L + 1e-8 max(1, |y|)'])]
