"""Normal forms: real expressions as sums of monomials over atoms.

A polynomial is a dict {monomial: coefficient}; a monomial is a tuple of
(atom id, exponent) sorted by id; exponents are ints or Fractions.  Coefficients
are fixed-point integers with K fractional bits, so sums cancel exactly.  Atoms
are input variables, sums used as a factor (made monic), and transcendental
terms; two atoms are the same when their defining sums agree coefficientwise.
"""
import math
from fractions import Fraction
import mpmath
from mpmath import mp, mpf
from . import expr as X
from .llir import Unsupported

K = 1024
ONE = 1 << K
ZERO = 1 << (K - 800)          # coefficients below 2^-800 are cancellation residue
mp.prec = 1100
FUZZ_BITS = 37                 # relative 2^-37 (7e-12): constants this close name the same atom

ONEP = {(): ONE}


class TooBig(Exception):
    pass


class NotReal(Exception):
    """The expression is not a real number (NaN or infinity) for constant reasons."""


def tofix(x):
    """mpf -> fixed point."""
    return int(mpmath.floor(mpmath.ldexp(x, K) + mpf(0.5)))


def tomp(c):
    return mpmath.ldexp(mpf(c), -K)


def fixfloat(f):
    """Exact for every double above 2^-640 or so."""
    n, d = float(f).as_integer_ratio()
    return (n << K) // d


class Atom:
    __slots__ = ('id', 'kind', 'data', 'iv', 'nodes')

    def __init__(self, i, kind, data):
        self.id = i
        self.kind = kind    # var / poly / log / exp / abs / f32 / uf / pow
        self.data = data


class Ring:
    def __init__(self, limit=400, params=None):
        self.params = params or {}   # var name -> (new var, function of its Node): change of variables
        self.atoms = []
        self.vars = {}
        self.polykeys = {}      # frozenset of monos -> [atom]
        self.memo = {}
        self.limit = limit
        self.maxdev = 0.0       # largest relative constant deviation identified by fuzzy matching
        self.assumed = set()    # descriptions of sign assumptions used (radicands etc.)
        self.fnkeys = {}
        self.subst = {}         # node id -> node (proved equal): impl node -> reference node
        self.opaque = set()
        self.alias = {}
        self.shapetab = {}
        self.shapeenv = {}
        self.shapevals = {}
        self.shapesame = {}
        self.max_terms = 60000

    # ------------------------------------------------------------ atoms
    def new_atom(self, kind, data):
        a = Atom(len(self.atoms), kind, data)
        self.atoms.append(a)
        return a

    def var(self, name):
        a = self.vars.get(name)
        if a is None:
            a = self.vars[name] = self.new_atom('var', name)
        return a

    def _close(self, p, q):
        """Coefficientwise closeness of two polynomials with the same support; returns max rel dev or None."""
        dev = 0
        for m, c in p.items():
            d = c - q[m]
            if d:
                if abs(d) << FUZZ_BITS > abs(c):
                    return None
                r = float(Fraction(abs(d), abs(c)))
                if r > dev:
                    dev = r
        return dev

    def lookup(self, kind, p, create=True, extra=None):
        key = (kind, extra, frozenset(p))
        lst = self.polykeys.get(key)
        if lst is None:
            if not create:
                return None
            lst = self.polykeys[key] = []
        for a in lst:
            d = self._close(p, a.data if extra is None else a.data[0])
            if d is not None:
                if d > self.maxdev:
                    self.maxdev = d
                return a
        if not create:
            return None
        a = self.new_atom(kind, dict(p) if extra is None else (dict(p), extra))
        lst.append(a)
        return a

    # ------------------------------------------------------------ poly arithmetic
    @staticmethod
    def const(c):
        return {(): c} if abs(c) > 0 else {}

    @staticmethod
    def add_into(acc, p, s=1):
        for m, c in p.items():
            v = acc.get(m, 0) + (c if s > 0 else -c)
            if -ZERO < v < ZERO:
                acc.pop(m, None)
            else:
                acc[m] = v

    def add(self, p, q):
        r = dict(p)
        self.add_into(r, q)
        return r

    def sub(self, p, q):
        r = dict(p)
        self.add_into(r, q, -1)
        return r

    @staticmethod
    def scale(p, c):
        r = {}
        for m, k in p.items():
            v = (k * c) >> K
            if v >= ZERO or v <= -ZERO:
                r[m] = v
        return r

    @staticmethod
    def mono_mul(m1, m2):
        if not m1:
            return m2
        if not m2:
            return m1
        d = dict(m1)
        for a, e in m2:
            v = d.get(a, 0) + e
            if v == 0:
                d.pop(a, None)
            else:
                if isinstance(v, Fraction) and v.denominator == 1:
                    v = int(v)
                d[a] = v
        return tuple(sorted(d.items()))

    @staticmethod
    def mono_pow(m, e):
        if e == 0:
            return ()
        out = []
        for a, k in m:
            v = k * e
            if isinstance(v, Fraction) and v.denominator == 1:
                v = int(v)
            out.append((a, v))
        return tuple(out)

    def content(self, p):
        """Common monomial factor of a multi-term polynomial."""
        it = iter(p)
        m0 = dict(next(it))
        for m in it:
            d = dict(m)
            for a in list(m0):
                e = d.get(a, 0)
                if e < m0[a]:
                    m0[a] = e
            for a, e in d.items():
                if a not in m0 and e < 0:
                    m0[a] = e
        return tuple(sorted((a, e) for a, e in m0.items() if e != 0))

    def split(self, p):
        """p (multi-term) = lead * content * monic; returns (lead, content, monic)."""
        ct = self.content(p)
        if ct:
            inv = self.mono_pow(ct, -1)
            p = {self.mono_mul(m, inv): c for m, c in p.items()}
        lm = max(p, key=self.mono_order)
        lead = p[lm]
        if lead != ONE:
            p = {m: (c << K) // lead for m, c in p.items()}
            p[lm] = ONE
        return lead, ct, p

    @staticmethod
    def mono_order(m):
        return (sum(abs(e) for _, e in m), m)

    def factor(self, p, create=True):
        """Multi-term p as lead * content * atom: returns (lead, content mono, atom) or None."""
        lead, ct, q = self.split(p)
        a = self.lookup('poly', q, create)
        if a is None:
            return None
        return lead, ct, a

    def atomise(self, p):
        if len(p) <= 1:
            return p
        lead, ct, a = self.factor(p)
        return {self.mono_mul(ct, ((a.id, 1),)): lead}

    def mono_times(self, p, m, c):
        r = {}
        for k, v in p.items():
            w = (v * c) >> K
            if w >= ZERO or w <= -ZERO:
                r[self.mono_mul(k, m)] = w
        return r

    def mul(self, p, q):
        if not p or not q:
            return {}
        if len(p) == 1 and len(q) == 1:
            (m1, c1), = p.items()
            (m2, c2), = q.items()
            return self.mono_times(p, m2, c2)
        if len(p) > len(q):
            p, q = q, p
        # now len(q) >= 2
        if len(p) == 1:
            (m, c), = p.items()
            if m:
                f = self.factor(q, False)
                if f and any(a == f[2].id for a, _ in m):
                    mm = self.mono_mul(self.mono_mul(m, f[1]), ((f[2].id, 1),))
                    return self.unfold({mm: (c * f[0]) >> K})
            return self.mono_times(q, m, c)
        fp = self.factor(p, False)
        fq = self.factor(q, False)
        lp, cp, mp_ = self.split(p)
        lq, cq, mq = self.split(q)
        if mp_.keys() == mq.keys() and self._close(mp_, mq) is not None:
            a = self.lookup('poly', mp_)
            return {self.mono_mul(self.mono_mul(cp, cq), ((a.id, 2),)): (lp * lq) >> K}
        # termwise cancellation against a known atom
        for (f, s, o) in ((fp, p, q), (fq, q, p)):
            if f and any(any(a == f[2].id for a, _ in m) for m in o):
                r = {}
                aid = f[2].id
                for m, c in o.items():
                    if any(a == aid for a, _ in m):
                        mm = self.mono_mul(self.mono_mul(m, f[1]), ((aid, 1),))
                        self.add_into(r, self.unfold({mm: (c * f[0]) >> K}))
                    else:
                        self.add_into(r, self.mono_times(s, m, c))
                    if len(r) > self.max_terms:
                        raise TooBig()
                return r
        if len(p) * len(q) <= self.limit:
            r = {}
            for m, c in p.items():
                self.add_into(r, self.mono_times(q, m, c))
            return r
        return self.mul(self.atomise(p), self.atomise(q))

    def unfold(self, p):
        """Replace a lone atom^1 of a sum by the sum itself (keeps sums expanded)."""
        out = {}
        for m, c in p.items():
            hit = None
            for a, e in m:
                if e == 1 and self.atoms[a].kind == 'poly' and len(self.atoms[a].data) <= 60 and len(m) <= 3:
                    hit = a
                    break
            if hit is None:
                self.add_into(out, {m: c})
            else:
                rest = tuple((a, e) for a, e in m if a != hit)
                self.add_into(out, self.mono_times(self.atoms[hit].data, rest, c))
        return out

    def inv(self, p):
        if not p:
            raise NotReal('division by zero')
        return self.pow(p, -1)

    def cpow(self, c, e):
        """constant ** e"""
        if isinstance(e, int):
            if e == -1:
                return (ONE << K) // c
            return tofix(mpmath.power(tomp(c), e))
        if c < 0:
            raise NotReal('fractional power of a negative constant')
        return tofix(mpmath.power(tomp(c), mpf(e.numerator) / e.denominator))

    def pow(self, p, e):
        if isinstance(e, Fraction) and e.denominator == 1:
            e = int(e)
        if e == 0:
            return dict(ONEP)
        if e == 1:
            return p
        if not p:
            if e > 0:
                return {}
            raise NotReal('0 to a negative power')
        if len(p) == 1:
            (m, c), = p.items()
            if isinstance(e, int):
                return self.unfold({self.mono_pow(m, e): self.cpow(c, e)})
            if not m:
                return {(): self.cpow(c, e)}
            # fractional power of a monomial: the monomial must be non-negative
            if c < 0 or any(k % 1 == 0 and k % 2 == 0 and e * k % 1 != 0 for a, k in m if self.atoms[a].kind != 'exp'):
                # sqrt(x^2) = |x|: decide by the recorded sign of the atom if we know it
                if c > 0 and all((e * k) % 1 != 0 or not (k % 2 == 0) for a, k in m):
                    pass
            if c < 0:
                neg = self.new_named('poly', {m: -ONE})
                return {((neg.id, e),): self.cpow(-c, e)}
            for a, k in m:
                if not self.nonneg_atom(self.atoms[a]):
                    self.assumed.add('sign of %s under a fractional power' % self.atom_name(a))
            return self.unfold({self.mono_pow(m, e): self.cpow(c, e)})
        lead, ct, q = self.split(p)
        if isinstance(e, int):
            a = self.lookup('poly', q)
            return {self.mono_mul(self.mono_pow(ct, e), ((a.id, e),)): self.cpow(lead, e)}
        # fractional: keep the content inside (its sign is unknown), make |lead| = 1
        p2 = {m: (c << K) // abs(lead) for m, c in p.items()}
        for m in p2:
            if abs(abs(p2[m]) - ONE) < ZERO:
                p2[m] = ONE if p2[m] > 0 else -ONE
        if lead > 0 and not ct:
            a = self.lookup('poly', p2)
        else:
            a = self.lookup('poly', p2)
        self.assumed.add('radicand >= 0: atom%d' % a.id)
        return {((a.id, e),): self.cpow(abs(lead), e)}

    def new_named(self, kind, data):
        return self.lookup(kind, data)

    def nonneg_atom(self, a):
        return a.kind in ('exp', 'abs') or (a.kind == 'var')

    def atom_name(self, i):
        a = self.atoms[i]
        return a.data if a.kind == 'var' else '%s%d' % (a.kind, i)

    # ------------------------------------------------------------ functions
    def log(self, p):
        if not p:
            raise NotReal('log 0')
        if len(p) == 1:
            (m, c), = p.items()
            if c < 0:
                if not m:
                    raise NotReal('log of a negative constant')
                a = self.lookup('log', {m: -ONE})
                return self.add({((a.id, 1),): ONE}, self.const(tofix(mpmath.log(tomp(-c)))))
            r = self.const(tofix(mpmath.log(tomp(c)))) if c != ONE else {}
            for a, e in m:
                at = self.atoms[a]
                if at.kind == 'exp':
                    self.add_into(r, self.scale(at.data, int(Fraction(e) * ONE)))
                    continue
                la = self.lookup('log', {((a, 1),): ONE})
                self.add_into(r, {((la.id, 1),): int(Fraction(e) * ONE)})
            return r
        lead, ct, q = self.split(p)
        if lead < 0:
            q = {m: -c for m, c in q.items()}
            lead = -lead
        a = self.lookup('log', q)
        r = self.const(tofix(mpmath.log(tomp(lead))))
        self.add_into(r, {((a.id, 1),): ONE})
        if ct:
            self.add_into(r, self.log({ct: ONE}))
        return r

    def exp(self, p):
        c = p.get((), 0)
        if abs(c) > 300 << K:
            a = self.lookup('exp', p)
            return {((a.id, 1),): ONE}
        q = {m: k for m, k in p.items() if m}
        r = {(): tofix(mpmath.exp(tomp(c)))} if c else dict(ONEP)
        if not q:
            return r
        if len(q) == 1:
            (m, k), = q.items()
            if len(m) == 1 and m[0][1] == 1 and self.atoms[m[0][0]].kind == 'log':
                # exp(k log x) = x^k
                f = Fraction(k, ONE).limit_denominator(1 << 60)
                return self.mul(r, self.pow(self.atoms[m[0][0]].data, f))
        a = self.lookup('exp', q)
        return self.mono_times(r, ((a.id, 1),), ONE)

    def abs(self, p):
        if not p:
            return {}
        if len(p) == 1:
            (m, c), = p.items()
            if not m:
                return {(): abs(c)}
            if all(self.atoms[a].kind in ('exp', 'abs') for a, e in m):
                return {m: abs(c)}
        lm = max(p, key=self.mono_order)
        lead = abs(p[lm])
        q = {m: (c << K) // p[lm] for m, c in p.items()}
        q[lm] = ONE
        a = self.lookup('abs', q)
        return {((a.id, 1),): lead}

    # ------------------------------------------------------------ DAG -> normal form
    def of(self, node):
        memo = self.memo
        if node.id in memo:
            return memo[node.id]
        st = [node]
        while st:
            n = st[-1]
            if n.id in memo:
                st.pop()
                continue
            s = self.subst.get(n.id)
            if s is not None:
                if s.id not in memo:
                    st.append(s)
                    continue
                memo[n.id] = memo[s.id]
                st.pop()
                continue
            if n.op in ('add', 'sub', 'neg'):
                leaves = []
                self._flatten(n, leaves)
                todo = [l for _, l in leaves if l.id not in memo]
                if todo:
                    st.extend(todo)
                    continue
                acc = {}
                for s, l in leaves:
                    self.add_into(acc, memo[l.id], s)
                memo[n.id] = acc
                st.pop()
                continue
            todo = [a for a in n.args if isinstance(a, X.Node) and a.id not in memo]
            if todo:
                st.extend(todo)
                continue
            memo[n.id] = self._one(n, memo)
            st.pop()
        return memo[node.id]

    def _flatten(self, n, out):
        st = [(1, n)]
        first = True
        while st:
            s, x = st.pop()
            if (x.op in ('add', 'sub', 'neg')) and (first or (x.id not in self.memo and x.id not in self.subst)):
                first = False
                if x.op == 'neg':
                    st.append((-s, x.args[0]))
                else:
                    st.append((s, x.args[0]))
                    st.append((s if x.op == 'add' else -s, x.args[1]))
            else:
                out.append((s, x))

    def _one(self, n, memo):
        op = n.op
        if op == 'c':
            v = n.args[0]
            if v in (float('inf'), float('-inf')):
                raise NotReal('infinite constant')
            return self.const(fixfloat(v))
        if op == 'nan':
            raise NotReal('NaN constant')
        if op == 'v':
            pr = self.params.get(n.args[0])
            if pr is not None:
                return self.paramform(pr)
            a = self.var(n.args[0])
            return {((a.id, 1),): ONE}
        if op == 'mul':
            return self.mul(memo[n.args[0].id], memo[n.args[1].id])
        if op == 'div':
            p, q = memo[n.args[0].id], memo[n.args[1].id]
            if len(q) == 1:
                (m, c), = q.items()
                if not m:
                    r = {}
                    for mm, v in p.items():
                        w = (v << K) // c
                        if w >= ZERO or w <= -ZERO:
                            r[mm] = w
                    return r
            if p and p.keys() == q.keys() and len(p) > 1:
                l1, c1, m1 = self.split(p)
                l2, c2, m2 = self.split(q)
                if self._close(m1, m2) is not None:
                    return {(): (l1 << K) // l2}
            return self.mul(p, self.inv(q))
        if op == 'powi':
            return self.pow(memo[n.args[0].id], n.args[1])
        if op == 'powf':
            e = n.args[1]
            if not e.sym:
                pe = memo[e.id]
                if not pe:
                    return dict(ONEP)
                return self.pow(memo[n.args[0].id], Fraction(pe[()], ONE))
            # x^y = exp(y log x)
            return self.exp(self.mul(memo[e.id], self.log(memo[n.args[0].id])))
        if op == 'sqrt':
            return self.pow(memo[n.args[0].id], Fraction(1, 2))
        if op == 'log':
            return self.log(memo[n.args[0].id])
        if op == 'exp':
            return self.exp(memo[n.args[0].id])
        if op == 'abs':
            return self.abs(memo[n.args[0].id])
        if op == 'f32':
            p = memo[n.args[0].id]
            if not n.sym:
                return self.const(fixfloat(n.fval))
            a = self.lookup('f32', p)
            return {((a.id, 1),): ONE}
        if op == 'uf':
            key = []
            for a in n.args[1:]:
                if isinstance(a, X.Node):
                    key.append(self.polyid(memo[a.id]))
                else:
                    key.append(a)
            k = (n.args[0], tuple(key))
            a = self.fnkeys.get(k)
            if a is None:
                a = self.fnkeys[k] = self.new_atom('uf', (n.args[0], [memo[x.id] if isinstance(x, X.Node) else x
                                                                     for x in n.args[1:]]))
            return {((a.id, 1),): ONE}
        raise Unsupported('op ' + op)

    def paramform(self, pr):
        """('aff', name, k, c): k*name + c;  ('inv', name, k, c): k/(name + c)."""
        kind, name, k, c = pr
        y = {((self.var(name).id, 1),): ONE}
        kc, cc = fixfloat(k), ONE
        for f in (c if isinstance(c, tuple) else (c,)):
            cc = (cc * fixfloat(f)) >> K
        if kind == 'aff':
            return self.add(self.scale(y, kc), self.const(cc))
        return self.scale(self.inv(self.add(y, self.const(cc))), kc)

    def polyid(self, p):
        """A hashable identity for a polynomial (up to fuzz)."""
        a = self.lookup('arg', p)
        return a.id

    # ------------------------------------------------------------ clearing denominators / radicals
    def reduce(self, p, q=None, cap=20000):
        """Is p - q zero after clearing denominators and expanding sums (outermost first)?

        Every coefficient carries the magnitude of what was added up, so that a
        result below 2^-FUZZ_BITS of it counts as cancelled.  Returns the terms
        that remain (an empty dict: equal); raises TooBig if the expansion is too large.
        """
        pm = {}
        for m, c in p.items():
            m, c = self.aliased(m, c)
            r = pm.setdefault(m, [0, 0])
            r[0] += c
            r[1] += abs(c)
        for m, c in (q or {}).items():
            m, c = self.aliased(m, c)
            r = pm.setdefault(m, [0, 0])
            r[0] -= c
            r[1] += abs(c)
        p = pm
        while True:
            ids = {a for m in p for a, e in m if self.atoms[a].kind == 'poly' and (e % 1 == 0 or e >= 1 or e < 0)}
            if not ids:
                return self.remaining(p)
            a = max(ids)
            mn = min(dict(m).get(a, 0) for m in p)
            k = -(mn // 1) if mn < 0 else 0
            if k:
                p = {self.mono_mul(m, ((a, int(k)),)): c for m, c in p.items()}
            groups = {}
            for m, c in p.items():
                d = dict(m)
                e = d.pop(a, 0)
                fl = int(e // 1)
                fr = e - fl
                if fr:
                    d[a] = fr
                mm = tuple(sorted(d.items()))
                g = groups.setdefault(fl, {})
                r = g.setdefault(mm, [0, 0])
                r[0] += c[0]
                r[1] += c[1]
            base = {}
            for m, c in self.atoms[a].data.items():
                m, c = self.aliased(m, c)
                r = base.setdefault(m, [0, 0])
                r[0] += c
                r[1] += abs(c)
            out = {}
            powk = {(): [ONE, ONE]}
            cur = 0
            for fl in sorted(groups):
                while cur < fl:
                    powk = self.rawmul(powk, base, cap)
                    cur += 1
                for m, c in self.rawmul(groups[fl], powk, cap).items():
                    r = out.setdefault(m, [0, 0])
                    r[0] += c[0]
                    r[1] += c[1]
                if len(out) > cap:
                    raise TooBig()
            p = out
            if not self.remaining(p):
                return {}

    def aliased(self, m, c):
        """m, c with identified atoms replaced (atom a = k * atom b)."""
        if not self.alias or not any(a in self.alias for a, _ in m):
            return m, c
        r = ()
        for a, e in m:
            if a in self.alias:
                a, k = self.alias[a]
                if k != ONE:
                    c = (c * self.cpow(k, e)) >> K
            r = self.mono_mul(r, ((a, e),))
        return r, c

    def same_root(self, p, q):
        """Single monomials with fractional exponents (roots): compare suitable powers."""
        if len(p) != 1 or len(q) != 1:
            return False
        (m1, c1), = p.items()
        (m2, c2), = q.items()
        k = 1
        for _, e in m1 + m2:
            k = math.lcm(k, Fraction(e).denominator)
        if k == 1 or k > 12 or (c1 > 0) != (c2 > 0):
            return False
        a = {self.mono_pow(m1, k): self.cpow(abs(c1), k)}
        b = {self.mono_pow(m2, k): self.cpow(abs(c2), k)}
        return not self.reduce(a, b)

    def shape_values(self, a, box, key):
        """The form at three points of the box (None if it is not real there)."""
        vals = self.shapevals.get((a.id, key))
        if vals is None:
            vals = []
            for k in range(3):
                env = {}
                for i, (v, (lo, hi)) in enumerate(sorted(box.items())):
                    lo, hi = max(lo, -1e3), min(hi, 1e4)
                    env[v] = mpf(lo) + (mpf(hi) - mpf(lo)) * (((i * 7 + k * 5 + 3) % 11) * mpf(0.07) + mpf(0.1))
                for v in self.vars:
                    env.setdefault(v, self.shapeenv.setdefault((v, k), mpf(0.3) + mpf(len(self.shapeenv)) / 7))
                for v, (kind, name, kk, c) in self.params.items():
                    if v in env:
                        cc = mpf(1)
                        for f in (c if isinstance(c, tuple) else (c,)):
                            cc *= f
                        env[name] = (env[v] - cc) / kk if kind == 'aff' else kk / env[v] - cc
                try:
                    x = self.evalpoly(a.data, env, {})
                    vals.append(x if isinstance(x, mpf) else None)
                except (ZeroDivisionError, OverflowError, ValueError, KeyError):
                    vals.append(None)
            self.shapevals[(a.id, key)] = vals
        return vals

    def same_shape(self, a, lm, box, among):
        """One of the earlier forms `among` that equals a.data up to an additive constant
        and, unless the leading monomial is an input, a factor: (atom, constant, factor)."""
        key = tuple(sorted(box.items()))
        scaled = len(lm) != 1 or lm[0][1] != 1 or self.atoms[lm[0][0]].kind != 'var'
        kin = self.shapetab.setdefault(() if scaled else lm, [])
        if a not in kin:
            kin.append(a)
        res = (None, 0, ONE)
        vals = self.shape_values(a, box, key)
        if None in vals:
            return res
        for b in kin:
            if b is a or b.id not in among:
                continue
            w = self.shape_values(b, box, key)
            if None in w:
                continue
            rho = mpf(1)
            if scaled:
                if w[0] == w[1]:
                    continue
                rho = (vals[0] - vals[1]) / (w[0] - w[1])
            d = vals[0] - rho * w[0]
            sc = max(abs(x) for x in vals) + abs(rho) * max(abs(x) for x in w)
            if all(abs(vals[k] - rho * w[k] - d) <= sc * mpf(1e-10) for k in (1, 2)):
                yes = self.shapesame.get((a.id, b.id))
                D, R = tofix(d), tofix(rho)
                if yes is None:
                    q = {m: (c * R) >> K for m, c in b.data.items()}
                    q[()] = q.get((), 0) + D
                    try:
                        yes = not self.reduce(a.data, q, cap=4000)
                    except TooBig:
                        yes = False
                    self.shapesame[(a.id, b.id)] = yes
                if yes:
                    return b, D, R
        return res

    def evalpoly(self, p, env, memo):
        s = mpf(0)
        for m, c in p.items():
            t = tomp(c)
            for a, e in m:
                t *= self.evalatom(a, env, memo) ** (e if isinstance(e, int) else mpf(e.numerator) / e.denominator)
            s += t
        return s

    def evalatom(self, i, env, memo):
        v = memo.get(i)
        if v is None:
            a = self.atoms[i]
            if a.kind == 'var':
                v = env[a.data]
            elif a.kind == 'poly':
                v = self.evalpoly(a.data, env, memo)
            elif a.kind in ('log', 'exp', 'abs'):
                v = {'log': mpmath.log, 'exp': mpmath.exp, 'abs': abs}[a.kind](self.evalpoly(a.data, env, memo))
            elif a.kind == 'uf':
                import zlib
                args = tuple(mpmath.nstr(self.evalpoly(x, env, memo), 25) if isinstance(x, dict) else x for x in a.data[1])
                v = mpf(zlib.crc32(repr((a.data[0], args)).encode()) % 99991) / 1000 + 1
            else:
                raise Unsupported(a.kind)
            memo[i] = v
        return v

    def unify(self, p, q, env, cap=4000):
        """Identify non-polynomial or root atoms of p with those of q whose definitions reduce to the same.

        Candidates come from one evaluation at `env`; each is proved by `reduce`.
        """
        mpmath.mp.prec = 300
        try:
            memo, memo2 = {}, {}
            env2 = {v: x * mpf('1.0173') + mpf('0.0071') for v, x in env.items()}

            def below(r):
                seen = set()
                st = [a for m in r for a, _ in m]
                while st:
                    a = st.pop()
                    if a in seen:
                        continue
                    seen.add(a)
                    d = self.atoms[a].data
                    if isinstance(d, dict):
                        st += [x for m in d for x, _ in m]
                return seen
            sp, sq = below(p), below(q)
            n = 0
            for a in sorted(sp - sq):
                if a in self.alias or self.atoms[a].kind not in ('poly', 'log', 'exp', 'abs'):
                    continue
                va = self.evalatom(a, env, memo)
                va2 = self.evalatom(a, env2, memo2)
                for b in sorted(sq - sp):
                    if self.atoms[b].kind != self.atoms[a].kind or b in self.alias:
                        continue
                    vb = self.evalatom(b, env, memo)
                    vb2 = self.evalatom(b, env2, memo2)
                    k = ONE
                    if abs(va - vb) > abs(va) * mpf(2) ** -FUZZ_BITS:
                        # the same up to a positive constant factor?
                        if self.atoms[a].kind != 'poly' or not vb or not vb2 or va / vb <= 0 or \
                                abs(va / vb - va2 / vb2) > abs(va / vb) * mpf(2) ** -FUZZ_BITS:
                            continue
                        k = tofix(va / vb)
                    try:
                        if not self.reduce(self.atoms[a].data, self.scale(self.atoms[b].data, k), cap):
                            self.alias[a] = (b, k)
                            n += 1
                            break
                    except TooBig:
                        pass
            return n
        finally:
            mpmath.mp.prec = 1100

    @staticmethod
    def remaining(p):
        return {m: c[0] for m, c in p.items() if abs(c[0]) << FUZZ_BITS > c[1] and abs(c[0]) > 1 << 24}

    def rawmul(self, p, q, cap):
        if len(p) * len(q) > cap * 40:
            raise TooBig()
        r = {}
        for m, c in p.items():
            for n, d in q.items():
                k = self.mono_mul(m, n)
                x = r.setdefault(k, [0, 0])
                x[0] += (c[0] * d[0]) >> K
                x[1] += ((c[1] * d[1]) >> K) + 1
        if len(r) > cap:
            raise TooBig()
        return r

    def show(self, p, n=6):
        out = []
        for m, c in list(p.items())[:n]:
            out.append('%s%s' % (mpmath.nstr(tomp(c), 12), ''.join('*%s^%s' % (self.atom_name(a), e) for a, e in m)))
        return ' + '.join(out) + (' ...' if len(p) > n else '')
