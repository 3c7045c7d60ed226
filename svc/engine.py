"""Path exploration: decisions on symbolic comparisons, discharged by z3 over monomials."""
import sys
import time
from fractions import Fraction
import numpy as np
import z3
from . import expr as X
from . import norm as N
from .norm import Ring, ONE, K, ZERO, NotReal, TooBig
from .llir import Unsupported

sys.set_int_max_str_digits(0)
INF = float('inf')

SIGNS = {'lt': frozenset((-1,)), 'le': frozenset((-1, 0)), 'eq': frozenset((0,)),
         'gt': frozenset((1,)), 'ge': frozenset((0, 1)), 'ne': frozenset((-1, 1))}
ALL = frozenset((-1, 0, 1))


class Infeasible(Exception):
    """The current path contradicts an assumption."""


class Stats:
    def __init__(self):
        self.queries = 0
        self.sat = 0
        self.unsat = 0
        self.unknown = 0
        self.time = 0.0


def tofloat(c):
    try:
        return c / ONE
    except OverflowError:
        return INF if c > 0 else -INF


def imul(a, b):
    c = []
    for x in a:
        for y in b:
            if x == 0 or y == 0:
                c.append(0.0)
            else:
                c.append(x * y)
    return (min(c), max(c))


def widen(iv, r=1e-12):
    lo, hi = iv
    return (lo - abs(lo) * r - 1e-300 if lo != -INF else lo, hi + abs(hi) * r + 1e-300 if hi != INF else hi)


class Intervals:
    """Interval bounds of atoms and monomials over a variable box."""

    def __init__(self, ring, box):
        self.ring = ring
        self.box = box      # var name -> (lo, hi)
        self.memo = {}

    def atom(self, i):
        r = self.memo.get(i)
        if r is None:
            r = self._atom(i)
            if self.ring.atoms[i].kind != 'var':
                r = widen(r)
            self.memo[i] = r
        return r

    def _atom(self, i):
        import math
        a = self.ring.atoms[i]
        if a.kind == 'var':
            return self.box.get(a.data, (-INF, INF))
        if a.kind == 'poly':
            return self.poly(a.data)
        if a.kind == 'log':
            lo, hi = self.poly(a.data)
            return (math.log(lo) if lo > 0 else -INF, math.log(hi) if 0 < hi < INF else INF)
        if a.kind == 'exp':
            lo, hi = self.poly(a.data)
            return (math.exp(lo) if lo > -700 else 0.0, math.exp(hi) if hi < 700 else INF)
        if a.kind == 'abs':
            lo, hi = self.poly(a.data)
            if lo >= 0:
                return (lo, hi)
            if hi <= 0:
                return (-hi, -lo)
            return (0.0, max(-lo, hi))
        return (-INF, INF)

    def powiv(self, iv, e):
        lo, hi = iv
        if isinstance(e, int) or e % 1 == 0:
            e = int(e)
            if e < 0:
                if lo <= 0 <= hi:
                    if lo == 0 and hi > 0:
                        q = self.powiv((0.0, hi), -e)
                        return (1 / q[1] if q[1] not in (0, INF) else 0.0, INF)
                    return (-INF, INF)
                q = self.powiv(iv, -e)
                if q[0] == 0 or q[1] == 0:
                    return (-INF, INF)
                return (1 / q[1], 1 / q[0])
            try:
                a, b = lo ** e if abs(lo) != INF else (INF if e % 2 == 0 else lo), hi ** e if abs(hi) != INF else (
                    INF if e % 2 == 0 or hi > 0 else -INF)
            except OverflowError:
                return (-INF, INF)
            if e % 2 == 1:
                return (a, b)
            if lo <= 0 <= hi:
                return (0.0, max(a, b))
            return (min(a, b), max(a, b))
        lo = max(lo, 0.0)
        hi = max(hi, 0.0)
        f = float(e)
        try:
            if f > 0:
                return (lo ** f, hi ** f if hi != INF else INF)
            return (hi ** f if hi not in (0.0, INF) else 0.0, lo ** f if lo > 0 else INF)
        except OverflowError:
            return (-INF, INF)

    def mono(self, m):
        if len(m) == 1 and m[0][1] == 1:
            return self.atom(m[0][0])
        r = (1.0, 1.0)
        for a, e in m:
            r = imul(r, widen(self.powiv(self.atom(a), e)))
            if r[0] != r[0] or r[1] != r[1]:
                return (-INF, INF)
        return r

    def poly(self, p):
        lo = hi = 0.0
        # a two-term or single-variable affine form is exact; otherwise naive
        for m, c in p.items():
            cf = tofloat(c)
            if not m:
                lo += cf
                hi += cf
                continue
            a, b = imul((cf, cf), self.mono(m))
            lo += a
            hi += b
        if lo != lo or hi != hi:
            return (-INF, INF)
        s = 1e-13 * (abs(lo) + abs(hi)) if abs(lo) != INF and abs(hi) != INF else 0
        return (lo - s, hi + s)


def rat(c, bits=240):
    """Fixed point -> z3 rational (keeps `bits` fractional bits relative to the value)."""
    n = abs(c).bit_length()
    drop = max(0, n - bits)
    if drop:
        c = (c >> drop) << drop
    # strip trailing zeros
    d = K
    if c:
        tz = (c & -c).bit_length() - 1
        s = min(tz, K)
        c >>= s
        d = K - s
    return z3.RatVal(c, 1 << d)


def ratf(f):
    n, d = float(f).as_integer_ratio()
    return z3.RatVal(n, d)


class Engine:
    """One path: knows the decisions taken so far and answers new comparisons."""

    def __init__(self, ring, box, prefix, stats, use_solver=True, timeout=4000):
        self.ring = ring
        self.box0 = box
        self.cutvars = {}             # name -> (node, lo, hi)
        self.clear = set()            # names of positive cut variables
        self.box = dict(box)
        for v, (kind, name, k, c) in ring.params.items():
            if v not in box:
                continue
            lo, hi = box[v]
            if isinstance(c, tuple):
                c = float(np.prod(c))
            if kind == 'aff':
                a, b = (lo - c) / k, (hi - c) / k
            else:
                a, b = k / hi - c, k / lo - c
            self.box[name] = widen((min(a, b), max(a, b)), 1e-13)
        self.prefix = prefix          # list of bools still to replay
        self.pos = 0
        self.decisions = []           # bools taken at forks
        self.alts = []                # positions where the other outcome is feasible
        self.known = {}               # atom id of key poly -> allowed signs
        self.keys = {}                # key -> poly
        self.trace = []               # (pred, a, b, outcome) of every symbolic decision
        self.ndecisions = 0
        self.stats = stats
        self.solver = None
        self.vars = {}
        self.shapes = {}
        self.use_solver = use_solver
        self.timeout = timeout
        self.notes = []
        self.uncertain = 0
        self._iv = None

    # -------------------------------------------------------- keys
    def key(self, p):
        """(key id, sign) such that p has the sign of sign*keypoly."""
        p = self.cleared({m: c for m, c in p.items() if c})
        if len(p) == 1:
            (m, c), = p.items()
            a = self.ring.lookup('cmp', {m: ONE})
            return a.id, (1 if c > 0 else -1)
        lm = max(p, key=self.ring.mono_order)
        lead = p[lm]
        q = {m: (c << K) // lead for m, c in p.items()}
        q[lm] = ONE
        a = self.ring.lookup('cmp', q)
        return a.id, (1 if lead > 0 else -1)

    def cleared(self, p):
        """p times the positive variables in its denominators (same sign)."""
        if len(p) > 3:
            return p
        neg = {}
        for m in p:
            for a, e in m:
                if e < 0 and self.ring.atoms[a].kind == 'var':
                    neg[a] = min(neg.get(a, 0), e)
        neg = {a: e for a, e in neg.items() if e % 1 == 0 and self.ring.atoms[a].data in self.clear}
        if not neg:
            return p
        f = tuple(sorted((a, -int(e)) for a, e in neg.items()))
        r = {}
        for m, c in p.items():
            k = self.ring.mono_mul(m, f)
            r[k] = r.get(k, 0) + c
        return r

    def iv(self):
        if self._iv is None:
            self._iv = Intervals(self.ring, self.box)
        return self._iv

    def zvar(self, m):
        v = self.vars.get(m)
        if v is None:
            v = self.vars[m] = z3.Real('m%d' % len(self.vars))
            lo, hi = self.iv().mono(m)
            if lo != -INF:
                self.solver.add(v >= ratf(lo))
            if hi != INF:
                self.solver.add(v <= ratf(hi))
            if len(m) == 1 and m[0][1] == 1 and self.ring.atoms[m[0][0]].kind == 'abs':
                x = self.lin(self.ring.atoms[m[0][0]].data)
                self.solver.add(z3.Or(z3.And(v == x, x >= 0), z3.And(v == -x, x <= 0)))
        return v

    def lin(self, p):
        """Linear z3 term; the non-constant part of a long polynomial is one variable (equal up to constant rounding)."""
        if len(p) < 3:
            return self.lin0(p)
        q = {m: c for m, c in p.items() if m and c}
        if not q:
            return rat(p.get((), 0))
        lm = self.leader(q)
        lead = q[lm]
        q = {m: (c << K) // lead for m, c in q.items()}
        q[lm] = ONE
        a = self.ring.lookup('lin', q)
        v = self.shapes.get(a.id)
        if v is None:
            v = z3.Real('L%d' % a.id)
            b, d, rho = self.ring.same_shape(a, lm, self.box, self.shapes)
            if b is not None:
                v = self.shapes[b.id] * rat(rho) + rat(d)
            else:
                self.solver.add(v == self.lin0(a.data))
            self.shapes[a.id] = v
        return v * rat(lead) + rat(p.get((), 0))

    def leader(self, q):
        """The monomial to normalise by: an input that occurs only once, alone; else the leading monomial."""
        n = {}
        for m in q:
            for x, _ in m:
                n[x] = n.get(x, 0) + 1
        own = [m for m in q if len(m) == 1 and m[0][1] == 1 and n[m[0][0]] == 1 and self.ring.atoms[m[0][0]].kind == 'var'
               and self.ring.atoms[m[0][0]].data in self.box0]
        return own[0] if own else max(q, key=self.ring.mono_order)

    def lin0(self, p):
        terms = []
        c0 = 0
        for m, c in p.items():
            if not m:
                c0 = c
            else:
                terms.append(rat(c) * self.zvar(m))
        e = z3.Sum(terms) if len(terms) > 1 else (terms[0] if terms else z3.RealVal(0))
        return e + rat(c0)

    def getsolver(self):
        if self.solver is None:
            self.solver = z3.SolverFor('QF_LRA')
            self.solver.set('timeout', self.timeout)
            for k, s in self.known.items():
                self.solver.add(self.cons(self.keys[k], s))
        return self.solver

    def cons(self, p, signs):
        e = self.lin(p)
        if signs == ALL:
            return z3.BoolVal(True)
        if signs == frozenset((-1,)):
            return e < 0
        if signs == frozenset((1,)):
            return e > 0
        if signs == frozenset((0,)):
            return e == 0
        if signs == frozenset((-1, 0)):
            return e <= 0
        if signs == frozenset((0, 1)):
            return e >= 0
        if signs == frozenset((-1, 1)):
            return z3.Or(e < 0, e > 0)
        return z3.BoolVal(False)

    def check(self, *assumps):
        s = self.getsolver()
        t = time.time()
        self.stats.queries += 1
        s.push()
        for a in assumps:
            s.add(a)
        r = s.check()
        model = s.model() if r == z3.sat else None
        s.pop()
        self.stats.time += time.time() - t
        if r == z3.sat:
            self.stats.sat += 1
        elif r == z3.unsat:
            self.stats.unsat += 1
        else:
            self.stats.unknown += 1
        return r, model

    # -------------------------------------------------------- decisions
    def signs_of(self, pred):
        return SIGNS[pred]

    def decide(self, pred, a, b):
        if a.fval is not None and b.fval is not None:
            return fcmp(pred, a.fval, b.fval)
        self.ndecisions += 1
        if pred == 'ord' or pred == 'uno':
            return pred == 'ord'
        if pred in ('true', 'false'):
            return pred == 'true'
        # inputs are numbers, so ordered and unordered predicates coincide (NaN is covered separately)
        for z in (a, b):
            if z.fval is not None and z.fval != z.fval:
                return pred[0] == 'u'
            if z.fval is not None and abs(z.fval) == INF:
                x, y = (z.fval, 0.0) if z is a else (0.0, z.fval)
                return fcmp(pred, x, y)
        rel = {'eq': 'eq', 'ne': 'ne', 'lt': 'lt', 'le': 'le', 'gt': 'gt', 'ge': 'ge'}[pred[1:]]
        for x, y, r in ((a, b, rel), (b, a, {'lt': 'gt', 'le': 'ge', 'gt': 'lt', 'ge': 'le'}.get(rel, rel))):
            if x.op == 'v' and y.fval is not None and x.args[0] in self.box:
                lo, hi = self.box[x.args[0]]      # decided by the box alone
                if lo == hi or hi < y.fval or lo > y.fval or (r == 'lt' and lo >= y.fval) or (r == 'ge' and lo >= y.fval) or \
                        (r == 'gt' and hi <= y.fval) or (r == 'le' and hi <= y.fval):
                    q = lo if lo == hi else lo if r in ('lt', 'ge') and lo >= y.fval else hi
                    v = fcmp('o' + r, q, y.fval)
                    self.trace.append((rel, a, b, v))
                    return v
        try:
            p = self.ring.sub(self.ring.of(a), self.ring.of(b))
        except NotReal:
            # a NaN operand: ordered comparisons are false
            return pred[0] == 'u'
        r = self.decide_poly(p, SIGNS[rel])
        self.trace.append((rel, a, b, r))
        return r

    def decide_poly(self, p, want):
        if not p:
            return 0 in want
        if len(p) == 1 and () in p:
            return (1 if p[()] > 0 else -1) in want
        kid, sg = self.key(p)
        if sg < 0:
            want = frozenset(-x for x in want)
        allowed = self.known.get(kid, ALL)
        yes = allowed & want
        no = allowed - want
        if not no:
            return True
        if not yes:
            return False
        kp = self.ring.atoms[kid].data
        # interval test
        lo, hi = self.iv().poly(kp)
        poss = set()
        if lo < 0:
            poss.add(-1)
        if lo <= 0 <= hi:
            poss.add(0)
        if hi > 0:
            poss.add(1)
        poss = frozenset(poss)
        if not (yes & poss):
            self.learn(kid, kp, no)
            return False
        if not (no & poss):
            self.learn(kid, kp, yes)
            return True
        if self.pos < len(self.prefix):
            out = self.prefix[self.pos]
            self.pos += 1
            self.decisions.append(out)
            self.alts.append(False)
            self.learn(kid, kp, yes if out else no)
            return out
        fy = fn = True
        if self.use_solver:
            r, _ = self.check(self.cons_lazy(kp, yes))
            fy = r != z3.unsat
            if fy:
                r, _ = self.check(self.cons_lazy(kp, no))
                fn = r != z3.unsat
            else:
                fn = True
        if fy and fn:
            self.decisions.append(True)
            self.alts.append(True)
            self.pos += 1
            self.learn(kid, kp, yes)
            return True
        # recorded as well: a replay consumes the prefix at every decision that reaches this point
        self.decisions.append(fy)
        self.alts.append(False)
        self.pos += 1
        self.learn(kid, kp, yes if fy else no)
        return fy

    def cons_lazy(self, p, signs):
        self.getsolver()
        return self.cons(p, signs)

    def learn(self, kid, kp, signs):
        self.known[kid] = signs
        self.keys[kid] = kp
        if self.solver is not None:
            self.solver.add(self.cons(kp, signs))
        # single-variable linear facts tighten the box
        vs = [m for m in kp if m]
        if len(vs) == 1 and len(vs[0]) == 1 and self.ring.atoms[vs[0][0][0]].kind == 'var':
            a, e = vs[0][0]
            c0 = -tofloat(kp.get((), 0))      # key poly is monic: x^e + c
            name = self.ring.atoms[a].data
            lo, hi = self.box.get(name, (-INF, INF))
            if e == 1:
                if 1 not in signs:
                    hi = min(hi, c0)
                if -1 not in signs:
                    lo = max(lo, c0)
            elif e == -1 and lo > 0 and c0 > 0:
                if 1 not in signs:
                    lo = max(lo, 1 / c0)
                if -1 not in signs:
                    hi = min(hi, 1 / c0)
            if (lo, hi) != self.box.get(name):
                self.box[name] = (lo, hi)
                self._iv = None
                if self.solver is not None:
                    for m, v in self.vars.items():
                        if any(x == a for x, _ in m) or True:
                            l, h = self.iv().mono(m)
                            if l != -INF:
                                self.solver.add(v >= ratf(l))
                            if h != INF:
                                self.solver.add(v <= ratf(h))

    def assume(self, rel, a, b):
        """Restrict the path; raises Infeasible when that is contradictory."""
        a, b = X.const(a), X.const(b)
        if a.fval is not None and b.fval is not None:
            if not fcmp('o' + rel, a.fval, b.fval):
                raise Infeasible()
            return
        p = self.ring.sub(self.ring.of(a), self.ring.of(b))
        want = SIGNS[rel]
        if not p:
            if 0 not in want:
                raise Infeasible()
            return
        if len(p) == 1 and () in p:
            if (1 if p[()] > 0 else -1) not in want:
                raise Infeasible()
            return
        kid, sg = self.key(p)
        if sg < 0:
            want = frozenset(-x for x in want)
        s = self.known.get(kid, ALL) & want
        kp = self.ring.atoms[kid].data
        lo, hi = self.iv().poly(kp)
        if lo > 0:
            s &= frozenset((1,))
        if hi < 0:
            s &= frozenset((-1,))
        if not s:
            raise Infeasible()
        if s != self.known.get(kid, ALL):
            if self.use_solver:
                r, _ = self.check(self.cons_lazy(kp, s))
                if r == z3.unsat:
                    raise Infeasible()
            self.learn(kid, kp, s)
        self.trace.append((rel, a, b, True))


def fcmp(pred, x, y):
    if x != x or y != y:
        return pred[0] == 'u' and pred != 'ord' or pred == 'true'
    k = pred[1:]
    if pred == 'ord':
        return True
    if pred == 'uno' or pred == 'false':
        return False
    if pred == 'true':
        return True
    return {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[k]


def explore(make_engine, body, max_paths=4000, deadline=None):
    """Run body(engine) for every feasible decision sequence; yields (engine, result)."""
    stack = [[]]
    n = 0
    while stack:
        prefix = stack.pop()
        e = make_engine(prefix)
        try:
            r = body(e)
        except Infeasible:
            r = Infeasible
        for i in range(len(e.decisions) - 1, -1, -1):
            pass
        for i, alt in enumerate(e.alts):
            if alt:
                stack.append(e.decisions[:i] + [not e.decisions[i]])
        n += 1
        if n > max_paths:
            raise Unsupported('more than %d paths' % max_paths)
        if deadline and time.time() > deadline:
            raise TimeoutError('exploration deadline')
        if r is not Infeasible:
            yield e, r
