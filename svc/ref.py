"""Reference model of IAPWS-IF97, written from the releases, independent of the code under test.

Every function takes a context `c` first.  With a SymCtx numbers are symbolic
Nodes and comparisons fork the path; with a NumCtx they are high-precision
numbers.  Units: p MPa, T K, v m3/kg, h/u/g/f/e kJ/kg, s/cp/cv kJ/(kg K), w m/s.
"""
from fractions import Fraction
import mpmath
from mpmath import mpf
from . import expr as X
from . import ref_tables as D

R = 0.461526
TC = 647.096
PC = 22.064
DC = 322.0
HC = 2087.546845
SC = 4.41202148223476
T0 = 273.16          # reference temperature of the exergy
PS623 = 16.5291642526045


class Ambiguous(Exception):
    """A comparison falls inside its margin: the property does not fix the answer."""


class SymCtx:
    num = False

    def __init__(self, engine):
        self.e = engine

    def k(self, x):
        return X.const(x)

    def ln(self, x): return X.log(x)
    def exp(self, x): return X.exp(x)
    def sqrt(self, x): return X.sqrt(x)

    def pw(self, x, e):
        x = X.const(x)
        return X.powi(x, int(e)) if float(e).is_integer() else X.powf(x, X.const(float(e)))

    def rel(self, rel, a, b, margin=0.0, scale=None):
        """Truth of `a rel b` (rel in lt le gt ge); points within margin*scale are left out."""
        a, b = X.const(a), X.const(b)
        e = self.e
        up = rel in ('gt', 'ge')
        if margin:
            m = margin * (scale if scale is not None else 1.0)
            if e.decide('o' + rel, a, b):
                e.assume('ge' if up else 'le', a, b + m if up else b - m)
                return True
            e.assume('le' if up else 'ge', a, b - m if up else b + m)
            return False
        return e.decide('o' + rel, a, b)


class NumCtx:
    num = True

    def k(self, x):
        return mpf(x)

    def ln(self, x):
        if x <= 0:
            raise Ambiguous('log of a non-positive number')
        return mpmath.log(x)

    def exp(self, x): return mpmath.exp(x)

    def sqrt(self, x):
        if x < 0:
            raise Ambiguous('root of a negative number')
        return mpmath.sqrt(x)

    def pw(self, x, e):
        if float(e).is_integer():
            return mpf(x) ** int(e)
        if x < 0:
            raise Ambiguous('fractional power of a negative number')
        return mpmath.power(x, mpf(e))

    def rel(self, rel, a, b, margin=0.0, scale=None):
        if margin:
            m = mpf(margin) * (scale if scale is not None else 1)
            if abs(a - b) < m:
                raise Ambiguous('%s vs %s' % (mpmath.nstr(a, 12), mpmath.nstr(b, 12)))
        return {'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[rel]


# ------------------------------------------------------------------ sums
def psum(c, terms, x, y):
    """sum n x^I y^J"""
    s = c.k(0.0)
    for I, J, n in terms:
        s = s + c.k(n) * c.pw(x, I) * c.pw(y, J)
    return s


def dsum(c, terms, x, y, i, j):
    """d^(i+j)/dx^i dy^j of psum."""
    s = c.k(0.0)
    for I, J, n in terms:
        f = Fraction(1)
        for k in range(i):
            f *= I - k
        for k in range(j):
            f *= J - k
        if f:
            s = s + c.k(n) * c.k(float(f)) * c.pw(x, I - i) * c.pw(y, J - j)
    return s


def cubic(c, n, x):
    s = c.k(n[-1])
    for k in reversed(n[:-1]):
        s = s * x + c.k(k)
    return s


def poly1(c, n, x):
    s = c.k(0.0)
    for i, k in enumerate(n):
        s = s + c.k(k) * c.pw(x, i)
    return s


# ------------------------------------------------------------------ Gibbs regions 1, 2, 5
class G:
    """Reduced Gibbs energy and derivatives at (p, T) of one region."""

    def __init__(self, c, reg, p, T):
        self.c, self.reg, self.p, self.T = c, reg, p, T
        self.m = {}
        if reg == 1:
            self.ps, self.Ts = 16.53, 1386.0
        elif reg == 2:
            self.ps, self.Ts = 1.0, 540.0
        else:
            self.ps, self.Ts = 1.0, 1000.0
        self.pi = p if self.ps == 1.0 else p / c.k(self.ps)
        self.tau = c.k(self.Ts) / T

    def ideal(self, i, j):
        c = self.c
        if i:
            if j:
                return None
            return c.k(1.0) / self.pi if i == 1 else c.k(-1.0) / (self.pi * self.pi)
        s = c.ln(self.pi) if j == 0 else c.k(0.0)
        for J, n in (D.R2_0 if self.reg == 2 else D.R5_0):
            f = 1
            for k in range(j):
                f *= J - k
            if f:
                s = s + c.k(n) * c.k(float(f)) * c.pw(self.tau, J - j)
        return s

    def res(self, i, j):
        """Residual part (for region 1: the whole)."""
        key = ('r', i, j)
        if key not in self.m:
            c = self.c
            if self.reg == 1:
                s = dsum(c, D.R1, c.k(7.1) - self.pi, self.tau - c.k(1.222), i, j)
                if i % 2:
                    s = c.k(0.0) - s
            elif self.reg == 2:
                s = dsum(c, D.R2_R, self.pi, self.tau - c.k(0.5), i, j)
            else:
                s = dsum(c, D.R5_R, self.pi, self.tau, i, j)
            self.m[key] = s
        return self.m[key]

    def d(self, i, j):
        key = ('t', i, j)
        if key not in self.m:
            s = self.res(i, j)
            if self.reg != 1:
                o = self.ideal(i, j)
                if o is not None:
                    s = o + s
            self.m[key] = s
        return self.m[key]

    # pi * total derivatives, in the form that stays polynomial
    def cvb(self):
        """(pi*(g_pi - tau g_pitau), -pi^2 g_pipi)"""
        pi, tau = self.pi, self.tau
        if self.reg == 1:
            return None
        return (1.0 + pi * self.res(1, 0) - pi * tau * self.res(1, 1), 1.0 - pi * pi * self.res(2, 0))

    def get(self, name):
        c, p, T, pi, tau = self.c, self.p, self.T, self.pi, self.tau
        d = self.d
        f = name
        if f == 'v':
            return R * T * pi * d(1, 0) / p * 0.001
        if f == 'd':
            return 1.0 / self.get('v')
        if f == 'h':
            return R * T * tau * d(0, 1)
        if f == 'u':
            return R * T * (tau * d(0, 1) - pi * d(1, 0))
        if f == 's':
            return R * (tau * d(0, 1) - d(0, 0))
        if f == 'g':
            return R * T * d(0, 0)
        if f == 'f':
            return R * T * (d(0, 0) - pi * d(1, 0))
        if f == 'e':        # exergy relative to 273.16 K: h - T0 s
            return R * T * tau * d(0, 1) - T0 * R * (tau * d(0, 1) - d(0, 0))
        if f == 'cp':
            return c.k(0.0) - R * tau * tau * d(0, 2)
        if f == 'cv':
            if self.reg == 1:
                a = d(1, 0) - tau * d(1, 1)
                return R * (a * a / d(2, 0) - tau * tau * d(0, 2))
            a, b = self.cvb()
            return R * (c.k(0.0) - tau * tau * d(0, 2) - a * a / b)
        if f == 'w':
            if self.reg == 1:
                a = d(1, 0) - tau * d(1, 1)
                return c.sqrt(1000.0 * R * T * d(1, 0) * d(1, 0) / (a * a / (tau * tau * d(0, 2)) - d(2, 0)))
            a, b = self.cvb()
            g = pi * self.res(1, 0)
            return c.sqrt(1000.0 * R * T * (1.0 + 2.0 * g + g * g) / (b + a * a / (tau * tau * d(0, 2))))
        if f == 'dvdT':
            return 0.001 * R * pi / p * (d(1, 0) - tau * d(1, 1))
        if f == 'dvdp':
            return 0.001 * R * T * pi * pi / (p * p) * d(2, 0)
        if f == 'kt':
            return (c.k(0.0) - d(2, 0)) / d(1, 0) * pi / p
        if f == 'ec':
            return (1.0 - tau * d(1, 1) / d(1, 0)) / T
        if f == 'dpdT':
            return (tau * d(1, 1) - d(1, 0)) / (T * d(2, 0)) * p / pi
        if f == 'jtc':       # (dT/dp)_h
            return d(1, 1) / (tau * d(0, 2)) * T * pi / p
        if f == 'ijtc':      # (dh/dp)_T, kJ/(kg MPa)
            return R * T * tau * d(1, 1) * pi / p
        if f == 'z':
            return pi * d(1, 0)
        if f == 'ks':
            w = self.get('w')
            return 1e-6 * w * w / p / self.get('v')
        if f == 'pc':
            return self.get('dpdT') / p
        if f == 'betap':
            return 1.0 / (p * self.get('v') * self.get('kt'))
        if f == 'alfap':
            return self.get('ec') / self.get('kt') / p
        if f == 'fi':
            return c.exp(d(0, 0) if self.reg == 1 else self.res(0, 0))
        if f == 'fu':
            return p * self.get('fi')
        raise KeyError(f)


# ------------------------------------------------------------------ Helmholtz region 3
class H:
    reg = 3

    def __init__(self, c, T, d):
        self.c, self.T, self.rho = c, T, d
        self.m = {}
        self.tau = c.k(TC) / T
        self.dl = d / c.k(DC)

    def d(self, i, j):
        if (i, j) not in self.m:
            c = self.c
            s = dsum(c, D.R3[0:], self.dl, self.tau, i, j)
            n1 = c.k(1.0658070028513)
            if j == 0:
                s = s + n1 * (c.ln(self.dl) if i == 0 else 1.0 / self.dl if i == 1 else -1.0 / (self.dl * self.dl))
            self.m[(i, j)] = s
        return self.m[(i, j)]

    def get(self, name):
        c, T, rho, tau, dl, d = self.c, self.T, self.rho, self.tau, self.dl, self.d
        f = name
        if f == 'p':
            return 0.001 * R * T * rho * dl * d(1, 0)
        if f == 'v':
            return 1.0 / rho
        if f == 'd':
            return rho
        if f == 'u':
            return R * T * tau * d(0, 1)
        if f == 'h':
            return R * T * (tau * d(0, 1) + dl * d(1, 0))
        if f == 's':
            return R * (tau * d(0, 1) - d(0, 0))
        if f == 'g':
            return R * T * (d(0, 0) + dl * d(1, 0))
        if f == 'f':
            return R * T * d(0, 0)
        if f == 'e':
            return R * T * (tau * d(0, 1) + dl * d(1, 0)) - T0 * R * (tau * d(0, 1) - d(0, 0))
        a = lambda: d(1, 0) - tau * d(1, 1)
        b = lambda: 2.0 * d(1, 0) + dl * d(2, 0)
        if f == 'cv':
            return c.k(0.0) - R * tau * tau * d(0, 2)
        if f == 'cp':
            return R * (dl * a() * a() / b() - tau * tau * d(0, 2))
        if f == 'w':
            return c.sqrt(1000.0 * R * T * (2.0 * dl * d(1, 0) + dl * dl * d(2, 0)
                                            - dl * dl * a() * a() / (tau * tau * d(0, 2))))
        if f == 'dpdT':
            return 0.001 * R * rho * dl * a()
        if f == 'dpdrho':
            return 0.001 * R * T * dl * b()
        if f == 'dvdp':
            return -1.0 / (rho * rho * self.get('dpdrho'))
        if f == 'dvdT':
            return a() / (T * b() * rho)
        if f == 'kt':
            return 1.0 / (rho * self.get('dpdrho'))
        if f == 'ec':
            return a() / (T * b())
        if f == 'jtc':
            return 1000.0 / (rho * self.get('cp')) * (a() / b() - 1.0)
        if f == 'ijtc':
            return 1000.0 / rho * (1.0 - a() / b())
        if f == 'z':
            return dl * d(1, 0)
        if f == 'ks':
            w = self.get('w')
            return 1e-6 * w * w * rho / self.get('p')
        if f == 'pc':
            return self.get('dpdT') / self.get('p')
        if f == 'betap':
            return rho / (self.get('p') * self.get('kt'))
        if f == 'alfap':
            return self.get('ec') / self.get('kt') / self.get('p')
        if f == 'fi':
            return c.exp(d(0, 0) + dl * d(1, 0))
        if f == 'fu':
            return self.get('p') * self.get('fi')
        raise KeyError(f)


# ------------------------------------------------------------------ transport and further properties
def viscosity(c, rho, T):
    Tr = T / c.k(TC)
    Dr = rho / c.k(DC)
    s = c.k(0.0)
    for i, n in enumerate(D.VISC0):
        s = s + c.k(n) / c.pw(Tr, i)
    return 1e-6 * (100.0 * c.sqrt(Tr) / s) * c.exp(Dr * psum(c, D.VISC1, 1.0 / Tr - 1.0, Dr - 1.0))


def thcond(c, rho, T):
    Tr = T / c.k(TC)
    Dr = rho / c.k(DC)
    s = c.k(0.0)
    for i, n in enumerate(D.TC0):
        s = s + c.k(n) / c.pw(Tr, i)
    t = c.k(0.0)
    for i in range(5):
        q = c.k(0.0)
        for j in range(6):
            q = q + c.k(D.TC1[i][j]) * c.pw(Dr - 1.0, j)
        t = t + c.pw(1.0 / Tr - 1.0, i) * q
    return 1e-3 * (c.sqrt(Tr) / s) * c.exp(Dr * t)


def surface_tension(c, T):
    if c.rel('lt', T, c.k(248.15)) or c.rel('gt', T, c.k(TC)):
        return c.k(-9999.0)
    x = 1.0 - T / c.k(TC)
    return 1e-3 * 235.8 * c.pw(x, 1.256) * (1.0 - 0.625 * x)


def dielectric(c, rho, T):
    kB, Na, al, e0, mu, M = 1.380658e-23, 6.0221367e23, 1.636e-40, 8.854187817e-12, 6.138e-30, 0.018015268
    d = rho / c.k(DC)
    Tr = c.k(TC) / T
    g = 1.0 + c.k(D.DIEL12) * d * c.pw(T / 228.0 - 1.0, -1.2)
    for I, J, n in D.DIEL:
        g = g + c.k(n) * c.pw(d, I) * c.pw(Tr, J)
    ma, mb = (mpf(Na) * mpf(mu) ** 2 / (mpf(M) * mpf(e0) * mpf(kB))), (mpf(Na) * mpf(al) / (3 * mpf(M) * mpf(e0)))
    A = c.k(float(ma)) * rho * g / T
    B = c.k(float(mb)) * rho
    return (1.0 + A + 5.0 * B + c.sqrt(9.0 + 2.0 * A + 18.0 * B + A * A + 10.0 * A * B + 9.0 * B * B)) / (
        4.0 * (1.0 - B))


def transport(c, st, name):
    """st: G or H state."""
    T = st.T
    if name == 'st':
        return surface_tension(c, T)
    rho = st.get('d')
    if name == 'dv':
        return viscosity(c, rho, T)
    if name == 'kv':
        return viscosity(c, rho, T) / rho
    if name == 'tc':
        return thcond(c, rho, T)
    if name == 'sdc':
        return dielectric(c, rho, T)
    if name == 'td':
        return thcond(c, rho, T) / (1000.0 * st.get('cp') * rho)
    if name == 'pr':
        return 1000.0 * viscosity(c, rho, T) * st.get('cp') / thcond(c, rho, T)
    raise KeyError(name)


O_ID = dict(p=0, T=1, d=2, v=3, h=4, s=5, e=6, u=7, cp=8, cv=9, w=10, ks=11, f=12, g=13, z=14, x=15, r=16, ec=17, kt=18,
            dvdT=19, dvdp=20, dpdT=21, ijtc=22, jtc=23, dv=24, kv=25, tc=26, td=27, pr=28, st=29, sdc=30, pc=31,
            betap=32, fi=33, fu=34, alfap=35)
NAME = {v: k for k, v in O_ID.items()}
THERMO = ['d', 'v', 'h', 's', 'e', 'u', 'cp', 'cv', 'w', 'ks', 'f', 'g', 'z', 'ec', 'kt', 'dvdT', 'dvdp', 'dpdT', 'ijtc',
          'jtc', 'pc', 'betap', 'fi', 'fu', 'alfap']
TRANSPORT = ['dv', 'kv', 'tc', 'td', 'pr', 'st', 'sdc']


def prop(c, st, name):
    if name in TRANSPORT:
        return transport(c, st, name)
    return st.get(name)


# ------------------------------------------------------------------ saturation line
def psat(c, T):
    n = D.R4
    th = T + c.k(n[8]) / (T - c.k(n[9]))
    A = th * th + c.k(n[0]) * th + c.k(n[1])
    B = c.k(n[2]) * th * th + c.k(n[3]) * th + c.k(n[4])
    C = c.k(n[5]) * th * th + c.k(n[6]) * th + c.k(n[7])
    return c.pw(2.0 * C / (c.sqrt(B * B - 4.0 * A * C) - B), 4)


def tsat(c, p):
    n = D.R4
    b = c.pw(p, 0.25)
    E = b * b + c.k(n[2]) * b + c.k(n[5])
    F = c.k(n[0]) * b * b + c.k(n[3]) * b + c.k(n[6])
    Gq = c.k(n[1]) * b * b + c.k(n[4]) * b + c.k(n[7])
    Dq = 2.0 * Gq / (c.k(0.0) - F - c.sqrt(F * F - 4.0 * E * Gq))
    q = c.k(n[9]) + Dq
    return (q - c.sqrt(q * q - 4.0 * (c.k(n[8]) + c.k(n[9]) * Dq))) / 2.0


def b23_p(c, T):
    n = D.B23
    return c.k(n[0]) + c.k(n[1]) * T + c.k(n[2]) * T * T


def b23_T(c, p):
    n = D.B23_P
    return c.k(n[1]) + c.sqrt((p - c.k(n[2])) / c.k(n[0]))


# ------------------------------------------------------------------ region 1 backward
def T_ph1(c, p, h):
    return psum(c, D.R1_T_PH, p, h / 2500.0 + 1.0)


def T_ps1(c, p, s):
    return psum(c, D.R1_T_PS, p, s + 2.0)


def p_hs1(c, h, s):
    return 100.0 * psum(c, D.R1_P_HS, h / 3400.0 + 0.05, s / 7.6 + 0.05)


# ------------------------------------------------------------------ region 2 backward
M = 1e-9


def h2bc(c, p):
    n = D.H2BC
    return c.k(n[1]) + c.sqrt((p - c.k(n[2])) / c.k(n[0]))


def T_ph2(c, p, h):
    if c.rel('le', p, c.k(4.0)):
        return psum(c, D.R2a_T_PH, p, h / 2000.0 - 2.1)
    if c.rel('ge', h, h2bc(c, p), M, 2000.0):
        return psum(c, D.R2b_T_PH, p - 2.0, h / 2000.0 - 2.6)
    return psum(c, D.R2c_T_PH, p + 25.0, h / 2000.0 - 1.8)


def T_ps2(c, p, s):
    if c.rel('le', p, c.k(4.0)):
        return psum(c, D.R2a_T_PS, p, s / 2.0 - 2.0)
    if c.rel('ge', s, c.k(5.85)):
        return psum(c, D.R2b_T_PS, p, 10.0 - s / 0.7853)
    return psum(c, D.R2c_T_PS, p, 2.0 - s / 2.9251)


def h2ab(c, s):
    return cubic(c, D.H2AB, s)


def p_hs2c(c, h, s):
    return 100.0 * c.pw(psum(c, D.R2c_P_HS, h / 3500.0 - 0.7, s / 5.9 - 1.1), 4)


def p_hs2(c, h, s):
    if c.rel('le', h, h2ab(c, s), M, 3000.0):
        return 4.0 * c.pw(psum(c, D.R2a_P_HS, h / 4200.0 - 0.5, s / 12.0 - 1.2), 4)
    if c.rel('ge', s, c.k(5.85)):
        return 100.0 * c.pw(psum(c, D.R2b_P_HS, h / 4100.0 - 0.6, s / 7.9 - 1.01), 4)
    return p_hs2c(c, h, s)


# ------------------------------------------------------------------ region 3 backward
def h3ab(c, p):
    return cubic(c, D.H3AB, p)


def T_ph3(c, p, h):
    if c.rel('le', h, h3ab(c, p), M, 2000.0):
        return 760.0 * psum(c, D.R3a_ph_T, p / 100.0 + 0.240, h / 2300.0 - 0.615)
    return 860.0 * psum(c, D.R3b_ph_T, p / 100.0 + 0.298, h / 2800.0 - 0.720)


def v_ph3(c, p, h):
    if c.rel('le', h, h3ab(c, p), M, 2000.0):
        return 0.0028 * psum(c, D.R3a_ph_v, p / 100.0 + 0.128, h / 2100.0 - 0.727)
    return 0.0088 * psum(c, D.R3b_ph_v, p / 100.0 + 0.0661, h / 2800.0 - 0.720)


def T_ps3(c, p, s):
    if c.rel('le', s, c.k(SC)):
        return 760.0 * psum(c, D.R3a_ps_T, p / 100.0 + 0.240, s / 4.4 - 0.703)
    return 860.0 * psum(c, D.R3b_ps_T, p / 100.0 + 0.760, s / 5.3 - 0.818)


def v_ps3(c, p, s):
    if c.rel('le', s, c.k(SC)):
        return 0.0028 * psum(c, D.R3a_ps_v, p / 100.0 + 0.187, s / 4.4 - 0.755)
    return 0.0088 * psum(c, D.R3b_ps_v, p / 100.0 + 0.298, s / 5.3 - 0.816)


def p_hs3(c, h, s):
    if c.rel('le', s, c.k(SC)):
        return 99.0 * psum(c, D.R3a_hs_p, h / 2300.0 - 1.01, s / 4.4 - 0.750)
    return 16.6 / psum(c, D.R3b_hs_p, h / 2800.0 - 0.681, s / 5.3 - 0.792)


def T_hs4(c, h, s):
    """Saturation temperature of a wet state (s >= s''(623.15 K))."""
    return 550.0 * psum(c, D.R4_T_HS, h / 2800.0 - 0.119, s / 9.2 - 1.07)


# boundary equations of SR4
def p3sat_h(c, h):
    return 22.0 * psum(c, D.P3SAT_H, h / 2600.0 - 1.02, h / 2600.0 - 0.608)


def p3sat_s(c, s):
    return 22.0 * psum(c, D.P3SAT_S, s / 5.2 - 1.03, s / 5.2 - 0.699)


def h1_s(c, s):
    return 1700.0 * psum(c, D.H1_S, s / 3.8 - 1.09, s / 3.8 + 0.366e-4)


def h3a_s(c, s):
    return 1700.0 * psum(c, D.H3A_S, s / 3.8 - 1.09, s / 3.8 + 0.366e-4)


def h2ab_s(c, s):
    return 2800.0 * c.exp(psum(c, D.H2AB_S, 5.21 / s - 0.513, s / 9.2 - 0.524))


def h2c3b_s(c, s):
    return 2800.0 * c.pw(psum(c, D.H2C3B_S, s / 5.9 - 1.02, s / 5.9 - 0.726), 4)


def hb13_s(c, s):
    return 1700.0 * psum(c, D.HB13_S, s / 3.8 - 0.884, s / 3.8 - 0.864)


def tb23_hs(c, h, s):
    return 900.0 * psum(c, D.TB23_HS, h / 3000.0 - 0.727, s / 5.3 - 0.864)


# ------------------------------------------------------------------ region 3 v(p,T)
def v_sub(c, name, p, T):
    PS, TS, VS, a, b, cc, dd, e = D.V3P[name]
    pi, th = p / c.k(PS), T / c.k(TS)
    if name == 'n':
        return c.k(VS) * c.exp(psum(c, D.V3['n'], pi - a, th - b))
    x = c.pw(pi - a, cc)
    y = c.pw(th - b, dd)
    return c.k(VS) * c.pw(psum(c, D.V3[name], x, y), e)


def b3(c, name, p):
    if name == 'ef':
        return 3.727888004 * (p - PC) + TC
    x = c.ln(p) if name in ('ab', 'op', 'wx') else p
    s = c.k(0.0)
    for I, n in D.B3[name]:
        s = s + c.k(n) * c.pw(x, I)
    return s


P3CD = 19.00881189173929


def sub3(c, p, T):
    """Subregion letter of region 3 at (p, T) (SR5-05, Tables 2 and 10)."""
    def le(name):
        return c.rel('le', T, b3(c, name, p), 1e-9, 650.0)
    P = lambda x: c.rel('gt', p, c.k(x))
    if P(40.0):
        return 'a' if le('ab') else 'b'
    if P(25.0):
        if le('cd'):
            return 'c'
        if le('ab'):
            return 'd'
        return 'e' if le('ef') else 'f'
    if P(23.5):
        for b, r in (('cd', 'c'), ('gh', 'g'), ('ef', 'h'), ('ij', 'i'), ('jk', 'j')):
            if le(b):
                return r
        return 'k'
    if P(23.0):
        for b, r in (('cd', 'c'), ('gh', 'l'), ('ef', 'h'), ('ij', 'i'), ('jk', 'j')):
            if le(b):
                return r
        return 'k'
    if P(22.5):
        for b, r in (('cd', 'c'), ('gh', 'l'), ('mn', 'm'), ('ef', 'n'), ('op', 'o'), ('ij', 'p'), ('jk', 'j')):
            if le(b):
                return r
        return 'k'
    ps643 = 21.04336732
    if c.rel('gt', p, c.k(ps643), 1e-8, 21.0):
        if le('cd'):
            return 'c'
        if le('qu'):
            return 'q'
        if not le('rx'):
            return 'r' if le('jk') else 'k'
        # close to the critical point
        if P(22.11):
            for b, r in (('uv', 'u'), ('ef', 'v'), ('wx', 'w')):
                if le(b):
                    return r
            return 'x'
        if P(PC):
            for b, r in (('uv', 'u'), ('ef', 'y'), ('wx', 'z')):
                if le(b):
                    return r
            return 'x'
        if c.rel('le', T, tsat(c, p), 1e-9, 650.0):
            if c.rel('gt', p, c.k(21.93161551)):
                return 'u' if le('uv') else 'y'
            return 'u'
        if c.rel('gt', p, c.k(21.90096265)):
            return 'z' if le('wx') else 'x'
        return 'x'
    if P(20.5):
        if le('cd'):
            return 'c'
        if c.rel('le', T, tsat(c, p), 1e-9, 650.0):
            return 's'
        return 'r' if le('jk') else 'k'
    if P(P3CD):
        if le('cd'):
            return 'c'
        if c.rel('le', T, tsat(c, p), 1e-9, 650.0):
            return 's'
        return 't'
    if c.rel('le', T, tsat(c, p), 1e-9, 650.0):
        return 'c'
    return 't'


def v_pT3(c, p, T):
    return v_sub(c, sub3(c, p, T), p, T)
