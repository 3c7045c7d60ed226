"""Deciding one case: joint symbolic execution of code and reference, final query, concretisation."""
import math
import os
import time
import numpy as np
import z3
import mpmath
from mpmath import mpf
from . import expr as X
from . import norm as N
from . import engine as E
from . import symexec as S
from . import ref as F
from . import icp
from .llir import Unsupported

RTOL = 1e-7          # relative deviation a counterexample must show natively
DEBUG = os.environ.get('SVC_DEBUG')
NOISE = 3e3          # allowance in units of the double-rounding noise of the reference itself


class Case:
    """One obligation: fn(a, b, (o[, reg])) equals ref on the box."""

    def __init__(self, id, fn, o, reg, box, args, ref, pre=None, tvars=(), opaque=(), max_sym=40, max_paths=600, limit=400,
                 points=(), atol=0.0, rtol=RTOL, weight=1, cap=None, entry=None, stubs=None, kind='value', native=None, params=None, fold=False, glue=False,
                 bind=None, hints=()):
        self.glue = glue            # property functions reached through a pointer are uninterpreted functions (2: region functions too)
        self.bind = bind            # a foreign-language binding: its module and its native process answer for the code
        self.hints = hints          # boxes to draw candidate points from, besides the case's own
        self.fold = fold            # iterative functions are uninterpreted functions of their arguments
        self.params = params
        self.id, self.fn, self.o, self.reg, self.box = id, fn, o, reg, box
        self.args = args            # function: env(name -> Node or float) -> [a, b] as given to the API
        self.ref = ref              # function: (ctx, env) -> Node/mpf or float code
        self.pre = pre              # function: (ctx, env) -> None (assumptions through ctx.assume)
        self.tvars = tvars          # variables in K that reach the API as degrees Celsius
        self.opaque, self.max_sym, self.max_paths, self.limit = set(opaque), max_sym, max_paths, limit
        self.points = points        # extra concrete points worth trying when concretising
        self.atol, self.rtol = atol, rtol
        self.weight = weight
        self.cap = cap
        self.entry = entry or '@v_' + fn + ('' if reg is None else '_r')
        self.stubs = stubs
        self.kind = kind
        self.native = native


class Fault:
    """A binding whose exported interface is not the documented one."""
    weight = 100
    cap = None

    def __init__(self, kind, text):
        self.id, self.text = 'interface.' + kind, text
        self.kind = kind

    def run(self, g, deadline):
        r = Result(self)
        r.violation = dict(case=self.id, call='the %s interface' % self.kind, got=self.text, expected='the documented interface')
        return r


class Result:
    def __init__(self, case):
        self.id = case.id
        self.paths = 0
        self.infeasible = 0
        self.equal = 0
        self.undischarged = []      # (reason)
        self.violation = None
        self.called = set()
        self.stats = E.Stats()
        self.wall = 0.0
        self.maxdev = 0.0
        self.steps = 0
        self.decisions = 0
        self.assumed = set()
        self.opaque = set()
        self.witness = None
        self.validated = 0
        self.candidates = 0
        self.pruned = 0
        self.boxes = 0
        self.refuted = 0
        self.encoding_mismatch = []


class SymEnvCtx(F.SymCtx):
    """Reference context on an engine; `impl` runs the code under test symbolically."""

    def __init__(self, engine, mach):
        super().__init__(engine)
        self.mach = mach
        self.cuts = []

    def impl(self, fn, a, b, o, reg=None):
        if isinstance(o, X.Node):
            o = S.SInt(o)
        r = self.mach.call('@v_' + fn + ('' if reg is None else '_r'), [X.const(a), X.const(b), o] + ([] if reg is None else [reg]))
        if isinstance(r, X.Node) and r.sym:
            self.cuts.append(r)
        return r

    def iseq(self, a, k):
        """Is the integer variable a equal to k?"""
        return self.e.decide('oeq', X.const(a), X.const(float(k)))

    def assume(self, rel, a, b):
        self.e.assume(rel, X.const(a), X.const(b))

    def fact(self, a, b, y):
        """a < b at every point of the case (checked separately); relates comparisons of y with a and with b."""
        e = self.e
        try:
            p, q = [e.ring.sub(e.ring.of(X.const(y)), e.ring.of(X.const(z))) for z in (a, b)]
        except (N.TooBig, N.NotReal):
            return
        e.getsolver()
        e.solver.add(e.lin(p) > e.lin(q))

    def cut(self, node, name, lo, hi):
        """Treat an intermediate result of the code as a free variable of [lo, hi] (over-approximation)."""
        n = under(node)
        r = self.e.ring
        if n.sym and n.op != 'v':
            r.memo[n.id] = {((r.var(name).id, 1),): N.ONE}
            self.e.box.setdefault(name, (-E.INF, E.INF))
            # bounds are recorded on the node itself, so that concrete points respect them
            self.e.cutvars[name] = (n, lo, hi)
            if lo > 0:
                self.e.clear.add(name)
            for rel, x in (('ge', lo), ('le', hi)):
                self.e.assume(rel, n, X.const(x))
        return node

    def toC(self, T):
        return X.sub(X.const(T), X.const(273.15))

    def skip(self):
        raise E.Infeasible()


class NumEnvCtx(F.NumCtx):
    checkfacts = False

    def __init__(self, native):
        self.nat = native

    def impl(self, fn, a, b, o, reg=None):
        r = self.nat.call(fn, float(a), float(b), int(o), reg)
        if isinstance(r, str):
            raise F.Ambiguous(r)
        return mpf(r) if r == r and abs(r) != math.inf else r

    def iseq(self, a, k):
        return int(a) == int(k)

    def assume(self, rel, a, b):
        if not {'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b, 'eq': a == b, 'ne': a != b}[rel]:
            raise F.Ambiguous('outside the precondition')

    def fact(self, a, b, y):
        if self.checkfacts and not a < b:
            raise AssertionError('fact fails: %s < %s' % (a, b))

    def cut(self, node, name, lo, hi):
        if not lo <= node <= hi:
            raise F.Ambiguous('outside the precondition')
        return node

    def toC(self, T):
        return mpf(float(T) - 273.15)

    def skip(self):
        raise F.Ambiguous('outside the property')


def stripped(P, Q):
    """P - Q with coefficient differences below the fuzz dropped; also the relative deviation dropped."""
    D = {}
    for m in set(P) | set(Q):
        a, b = P.get(m, 0), Q.get(m, 0)
        d = a - b
        if d and abs(d) << N.FUZZ_BITS > max(abs(a), abs(b)):
            if abs(d) > N.ZERO:
                D[m] = d
    return D


def query(e, P, Q, tol, extra=None):
    """Is |P - Q| > tol possible on the path?  unsat / sat / unknown."""
    e.getsolver()
    Qs = dict(Q)
    for m in P:          # identify coefficients equal up to the fuzz
        if m in Qs and P[m] != Qs[m] and abs(P[m] - Qs[m]) << N.FUZZ_BITS <= abs(P[m]):
            Qs[m] = P[m]
    a, b = e.lin(P), e.lin(Qs)
    t = E.ratf(tol)
    r, m = e.check(z3.Or(a - b > t, b - a > t))
    return r


def mkpoint(case, env):
    """Make env consistent with what the API can be given: T such that fl(fl(T-273.15)+273.15) = T."""
    out = dict(env)
    for t in case.tvars:
        c = out[t] - 273.15
        out[t] = c + 273.15
    if case.o == 'o':
        out['o'] = float(round(out['o']))
    return out


def oid(case, env):
    return int(env['o']) if case.o == 'o' else case.o


def native_args(case, env):
    """Exact doubles handed to the API (temperatures in Celsius chosen to convert back exactly)."""
    a = case.args({k: (_T(v) if k in case.tvars else v) for k, v in env.items()})
    r = []
    for x in a:
        if isinstance(x, _T):
            raise ValueError('absolute temperature handed to the API')
        r.append(float(x))
    return r


class _T(float):
    """Absolute temperature; subtracting 273.15 gives the Celsius double."""

    def __sub__(self, o):
        return float(float(self) - float(o))


def confirm(case, env, nat):
    """Compare the native result with the high-precision reference at one point.

    Returns None (agree / not applicable) or a dict describing the violation.
    """
    env = mkpoint(case, {k: float(v) for k, v in env.items()})
    for k, (lo, hi) in case.box.items():
        if not (lo <= env[k] <= hi):
            return None
    mpmath.mp.prec = 200
    c = NumEnvCtx(nat)
    menv = {k: mpf(v) for k, v in env.items()}
    try:
        if case.pre:
            case.pre(c, menv)
        want = case.ref(c, menv)
    except (F.Ambiguous, ZeroDivisionError, OverflowError, ValueError, TypeError):
        return None
    finally:
        mpmath.mp.prec = 1100
    if want is None:
        return None
    if case.native:
        got = case.native(c, env)
        a = native_args(case, env)
    else:
        a = native_args(case, env)
        got = nat.call(case.fn, a[0], a[1], oid(case, env), case.reg)
    call = '%s%s(%r, %r, %s)' % (case.bind + ' ' if case.bind else '', case.fn, a[0], a[1], oid(case, env) if case.reg is None else '(%d, %d)' % (oid(case, env), case.reg))
    info = dict(case=case.id, call=call, fn=case.fn, args=a, args_bits=[x.hex() for x in a], o_id=oid(case, env), region=case.reg,
                got=repr(got), expected=mpmath.nstr(mpf(want), 17) if not isinstance(want, float) else repr(want),
                env={k: repr(v) for k, v in env.items()})
    if isinstance(got, str):
        return info
    w = float(want)
    if w != w:
        return None if got != got else info
    if got != got or abs(got) == math.inf:
        return info
    if got == w:
        return None
    dev = abs(mpf(got) - mpf(want))
    lim = case.rtol * abs(mpf(want)) + case.atol
    if dev <= lim:
        return None
    # rounding noise: sensitivity of the reference to last-place changes of its inputs and operations
    if not case.native or case.bind:
        noise = mpf(0)
        for k in [k for k in env if k != case.o]:
            for s in (-1, 1):
                e2 = dict(menv)
                e2[k] = menv[k] * (1 + s * mpf(2) ** -52)
                try:
                    noise = max(noise, abs(mpf(case.ref(c, e2)) - mpf(want)))
                except Exception:
                    pass
        try:
            d = evalref_double(case, env, nat)
            if d is not None and d == d:
                noise = max(noise, abs(mpf(d) - mpf(want)))
        except Exception:
            pass
        if dev <= lim + NOISE * noise:
            return None
    info['deviation'] = mpmath.nstr(dev, 6)
    return info


def evalref_double(case, env, nat):
    """The reference in ordinary doubles."""
    old = mpmath.mp.prec
    mpmath.mp.prec = 53
    try:
        c = NumEnvCtx(nat)
        return float(case.ref(c, {k: mpf(v) for k, v in env.items()}))
    finally:
        mpmath.mp.prec = old


# ---------------------------------------------------------------- finding points on a path
def trace_violation(trace, env, n, uffn=None):
    """(sum of normalised violations, list of differences) for arrays of points."""
    if not trace:
        return np.zeros(n), []
    roots = []
    for rel, a, b, out in trace:
        roots += [a, b]
    vals = X.evalf(roots, env, uffn)
    tot = np.zeros(n)
    with np.errstate(all='ignore'):
        for i, (rel, a, b, out) in enumerate(trace):
            x, y = np.broadcast_to(vals[2 * i], (n,)), np.broadcast_to(vals[2 * i + 1], (n,))
            d = (x - y) / (np.abs(x) + np.abs(y) + 1e-300)
            if not out:
                rel = {'lt': 'ge', 'le': 'gt', 'gt': 'le', 'ge': 'lt', 'eq': 'ne', 'ne': 'eq'}[rel]
            if rel in ('lt', 'le'):
                v = np.where(d < 0 if rel == 'lt' else d <= 0, 0, np.abs(d) + 1e-12)
            elif rel in ('gt', 'ge'):
                v = np.where(d > 0 if rel == 'gt' else d >= 0, 0, np.abs(d) + 1e-12)
            elif rel == 'eq':
                v = np.abs(d)
            else:
                v = np.where(d != 0, 0, 1e-12)
            v = np.where(np.isnan(v), 10.0, v)
            tot += v
    return tot, vals


def initial_points(case, box, rng, n):
    """Random points of the box: uniform, logarithmic, close to faces, plus the constants met on the path."""
    env = {}
    for k, (lo, hi) in box.items():
        lo = max(lo, -1e6)
        hi = min(hi, 1e6)
        u = rng.random(n)
        x = lo + (hi - lo) * u
        if lo > 0 and hi / lo > 50:
            y = np.exp(math.log(lo) + (math.log(hi) - math.log(lo)) * u)
            x = np.where(rng.random(n) < 0.5, x, y)
        w = hi - lo
        r = rng.random(n)
        x = np.where(r < 0.06, lo + w * 10 ** (-12 * rng.random(n)), x)
        x = np.where((r >= 0.06) & (r < 0.12), hi - w * 10 ** (-12 * rng.random(n)), x)
        x = np.where((r >= 0.12) & (r < 0.14), lo, x)
        x = np.where((r >= 0.14) & (r < 0.16), hi, x)
        env[k] = np.round(x) if k == 'o' else x
    return env


def consts_on_trace(trace, names):
    """Constants a variable is compared with directly: (var, value)."""
    out = []
    for rel, a, b, o in trace:
        for x, y in ((a, b), (b, a)):
            if x.op == 'v' and y.fval is not None:
                out.append((x.args[0], y.fval))
            if x.op == 'sub' and x.args[0].op == 'v' and x.args[1].fval is not None and y.fval is not None:
                out.append((x.args[0].args[0], y.fval + x.args[1].fval))
    return out


def find_points(case, e, rng, budget=6.0, want=12, extra_roots=None, tol=0.0, uffn=None):
    """Points satisfying the path condition; if extra_roots=(a,b), prefers those with |a-b| > tol."""
    t0 = time.time()
    good = []
    names = list(case.box)
    n = 3000
    box = {k: e.box.get(k, case.box[k]) for k in names}
    if any(lo > hi for lo, hi in box.values()):
        return []
    pts = initial_points(case, box, rng, n)
    cs = consts_on_trace(e.trace, names)
    for (v, x) in cs:
        if v in pts:
            idx = rng.integers(0, n, n // 40)
            pts[v][idx] = x
            for s in (-1, 1):
                idx = rng.integers(0, n, n // 40)
                pts[v][idx] = x * (1 + s * 10 ** (-14 * rng.random(len(idx))))
    for pt in case.points:
        i = rng.integers(0, n)
        for k in pt:
            pts[k][i] = pt[k]
    it = 0
    while time.time() - t0 < budget and it < 60:
        it += 1
        for k in case.tvars:
            pts[k] = (pts[k] - 273.15) + 273.15
        for k in names:
            pts[k] = np.clip(pts[k], case.box[k][0], case.box[k][1])
        tot, _ = trace_violation(e.trace, pts, len(pts[names[0]]), uffn)
        ok = np.nonzero(tot == 0)[0]
        if len(ok):
            if extra_roots is not None:
                sub = {k: pts[k][ok] for k in names}
                a, b = X.evalf(list(extra_roots), sub, uffn)
                a = np.broadcast_to(a, (len(ok),))
                b = np.broadcast_to(b, (len(ok),))
                with np.errstate(all='ignore'):
                    d = np.abs(a - b) / (np.abs(b) + 1e-300)
                d = np.where(np.isnan(d), 1e30, d)
                order = np.argsort(-d)
                for j in order[:want]:
                    if d[j] > tol:
                        good.append({k: float(sub[k][j]) for k in names})
                # climb towards larger deviation
                if len(good) >= want or it > 12:
                    break
                best = ok[order[:max(5, len(order) // 20)]]
            else:
                for j in ok[:want]:
                    good.append({k: float(pts[k][j]) for k in names})
                if len(good) >= want:
                    break
                best = ok
        else:
            best = np.argsort(tot)[:max(10, n // 40)]
        # resample around the best points
        new = {}
        m = n
        pick = best[rng.integers(0, len(best), m)]
        scale = 10 ** (-rng.random(m) * (3 + it * 0.6)) * 0.5
        which = rng.random(m)
        for i, k in enumerate(names):
            w = box[k][1] - box[k][0]
            x = pts[k][pick]
            mv = (which < 0.34) if i == 0 else (which > 0.66) if i == 1 else np.ones(m, bool)
            mv = mv | ((which >= 0.34) & (which <= 0.66))
            new[k] = np.where(mv, x + rng.normal(size=m) * w * scale, x)
        # keep the best themselves, and bisect between pairs
        q = best[rng.integers(0, len(best), m // 5)]
        q2 = rng.integers(0, len(tot), m // 5)
        lam = rng.random(m // 5)
        for k in names:
            new[k][:m // 5] = pts[k][q] * lam + pts[k][q2] * (1 - lam)
            new[k][-len(best):] = pts[k][best]
        pts = new
    seen = set()
    out = []
    for g in good:
        key = tuple(sorted(g.items()))
        if key not in seen:
            seen.add(key)
            out.append(g)
    return out[:want]


# ---------------------------------------------------------------- one case
def tolerance(case, Fn, e, rng, uffn=None):
    """Absolute tolerance of the final query: 1e-9 of the typical magnitude of the expected value."""
    try:
        pts = initial_points(case, {k: e.box.get(k, case.box[k]) for k in case.box}, rng, 200)
        v, = X.evalf([Fn], pts, uffn)
        v = np.abs(np.broadcast_to(v, (200,)))
        v = v[np.isfinite(v)]
        if len(v):
            return float(max(1e-9 * np.median(v), 1e-300))
    except Exception:
        pass
    return 1e-12


def run_case(case, module, nat, seed=1, deadline=None, budget=6.0, validate=2, bindings=None):
    t0 = time.time()
    X.reset()
    res = Result(case)
    if case.bind:
        module = bindings[case.bind].module
        case.entry = bindings[case.bind].entries.get(case.fn)
        bn = bindings[case.bind].proc
        if bn is None or case.entry is None:
            res.undischarged.append('%s is not exported' % case.fn)
            return res
        case.native = lambda c, env: bn.call(case.fn, *native_args(case, env), oid(case, env))
    ring = N.Ring(limit=case.limit, params=case.params)
    rng = np.random.default_rng(seed + abs(hash_str(case.id)) % 100000)
    vs = {k: X.var(k) for k in case.box}
    opaque = set(case.opaque)
    folded = set()
    for attempt in range(12):
        mach = S.Machine(module, None, opaque=opaque, max_sym=case.max_sym, stubs=case.stubs)
        mach.fold, mach.glue = case.fold, case.glue
        retry = False

        def body(e):
            mach.e = e
            c = SymEnvCtx(e, mach)
            a = [X.const(z) for z in case.args(vs)]
            if case.pre:
                case.pre(c, vs)
            want = case.ref(c, vs)
            if want is None:
                raise E.Infeasible()
            try:
                got = mach.call(case.entry, a + [S.SInt(vs['o']) if case.o == 'o' else case.o] + ([] if case.reg is None else [case.reg]))
            except S.Panic:
                got = 'panic'
            return got, X.const(want), c.cuts

        try:
            for e, (got, want, cuts) in E.explore(lambda pre: E.Engine(ring, case.box, pre, res.stats), body,
                                                  max_paths=case.max_paths, deadline=deadline):
                res.paths += 1
                res.decisions += len(e.decisions)
                if validate and res.paths <= validate:
                    path_witness(case, e, got, nat, rng, res)
                if not res.violation:
                    judge(case, ring, e, got, want, cuts, res, nat, rng, budget)
                if res.violation:
                    break
        except S.Diverges as d:
            if d.fname is None or d.fname in opaque:
                res.undischarged.append('loop bounded only by data in %s' % d.fname)
            else:
                opaque.add(d.fname)
                retry = True
        except (Unsupported, TimeoutError, N.TooBig, F.Ambiguous, RecursionError, N.NotReal) as x:
            res.undischarged.append('%s: %s' % (type(x).__name__, x))
        res.called |= mach.called
        res.steps += mach.steps
        folded |= mach.folded
        if not retry:
            break
        res.paths = 0
        res.equal = 0
    res.opaque = opaque | folded
    res.maxdev = ring.maxdev
    res.assumed = set(ring.assumed)
    res.wall = time.time() - t0
    return res


def hash_str(s):
    import zlib
    return zlib.crc32(s.encode())


def path_witness(case, e, got, nat, rng, res):
    """Vacuity guard and translator validation: concrete points on the path, and the code's own answer there."""
    if case.bind:
        for p in hinted(case, e, rng, 2):
            v = confirm(case, p, nat)
            if v:
                v['difference'] = 'the binding answers differently'
                res.violation = v
                return
            res.validated += 1
        return
    if not isinstance(got, X.Node) or case.native:
        return
    if any(n.op == 'uf' for n in X.topo([got] + [z for t in e.trace for z in t[1:3]])):
        return
    pts = find_points(case, e, rng, 0.8, want=2)
    for p in pts:
        p = mkpoint(case, p)
        if any(not (case.box[k][0] <= p[k] <= case.box[k][1]) for k in case.box):
            continue
        if case.o == 'o' and trace_violation(e.trace, {k: np.array([x]) for k, x in p.items()}, 1)[0][0] > 0:
            continue
        a = native_args(case, p)
        r = nat.call(case.fn, a[0], a[1], oid(case, p), case.reg)
        if isinstance(r, str):
            continue
        v = float(X.evalf([got], {k: np.float64(x) for k, x in p.items()})[0])
        if case.entry != '@v_' + case.fn + ('' if case.reg is None else '_r'):
            continue
        if r == v or (r != r and v != v) or abs(r - v) <= 1e-6 * max(abs(r), abs(v)):
            res.validated += 1
        else:
            # confirm that it is not rounding or a boundary of the path
            q = {k: np.float64(x * (1 + 1e-13)) for k, x in p.items()}
            v2 = float(X.evalf([got], q)[0])
            if abs(v2 - v) * 1e3 > abs(r - v):
                continue
            res.encoding_mismatch.append('%s %r: code %r, encoding %r' % (case.id, a, r, v))
        if res.witness is None:
            res.witness = dict(case=case.id, call='%s(%r, %r, o=%d%s)' % (case.fn, a[0], a[1], oid(case, p), '' if case.reg is None else
                                                                    ', region=%d' % case.reg), code=r, encoding=v)


def under(n):
    """X of a result X - const (the Celsius conversion)."""
    while n.op == 'sub' and n.args[0].sym and not n.args[1].sym:
        n = n.args[0]
    return n


def judge(case, ring, e, got, want, cuts, res, nat, rng, budget):
    uffn = make_uffn(nat)
    if got == 'panic':
        diff = 'panic'
    else:
        got = X.const(got)
        diff = None
        if got.fval is not None and want.fval is not None:
            g, w = got.fval, want.fval
            if g == w or abs(g - w) <= 1e-12 * abs(w):
                r, _ = e.check(z3.BoolVal(False))
                res.equal += 1
                return
            diff = 'constant %r instead of %r' % (g, w)
        else:
            cuts = [under(n) for n in cuts]
            cuts = [n for n in dict.fromkeys(cuts) if n.op != 'v' and n is not want]
            if cuts:
                # the code's own intermediate results generalised to free variables
                g2, w2 = X.subst([got, want], {n: X.var('cut%d' % i) for i, n in enumerate(cuts)})
                try:
                    P, Q = ring.of(g2), ring.of(w2)
                    r = query(e, P, Q, tolerance(case, want, e, rng, uffn))
                    if r == z3.unsat or not ring.reduce(P, Q, cap=8000) or ring.same_root(P, Q):
                        res.equal += 1
                        return
                    env = midpoint(case, e, rng, cuts)
                    if env and ring.unify(P, Q, env) and (not ring.reduce(P, Q, cap=8000) or ring.same_root(P, Q)):
                        res.equal += 1
                        return
                    if DEBUG:
                        D = stripped(P, Q)
                        print('cut difference', case.id, [(ring.show({m: c}), ring.show({m: P.get(m, 0)}), ring.show({m: Q.get(m, 0)})) for m, c in D.items()][:6])
                except (N.TooBig, N.NotReal) as x:
                    if DEBUG:
                        print('cut', case.id, type(x), x)
            try:
                P, Q = ring.of(got), ring.of(want)
                tol = tolerance(case, want, e, rng, uffn)
                r = query(e, P, Q, tol)
                if r == z3.unsat:
                    res.equal += 1
                    return
                D = stripped(P, Q)
                try:
                    same = not ring.reduce(P, Q, cap=8000) or ring.same_root(P, Q)
                    if not same and ring.unify(P, Q, midpoint(case, e, rng)):
                        same = not ring.reduce(P, Q, cap=8000) or ring.same_root(P, Q)
                    if same:
                        query(e, {}, {}, tol)
                        res.equal += 1
                        return
                except N.TooBig:
                    pass
                diff = 'normal forms differ in %d of %d terms' % (len(D), max(len(P), len(Q)))
            except N.NotReal as x:
                if got is want:         # the same expression of the same inputs
                    e.check(z3.BoolVal(False))
                    res.equal += 1
                    return
                diff = 'not a real number: %s' % x
            except N.TooBig:
                diff = 'normal form too large'
    # the path itself may be impossible: interval branch and prune on the nonlinear path condition
    tr = [t for t in e.trace]
    if uf_free(tr):
        bx = {k: e.box.get(k, case.box[k]) for k in case.box}
        no = False
        if e.cutvars:
            # intermediate results generalised to variables of their stated range
            mp = {n: X.var(k) for k, (n, _, _) in e.cutvars.items()}
            flat = X.subst([z for t in tr for z in t[1:3]], mp)
            tr2 = [(t[0], flat[2 * i], flat[2 * i + 1], t[3]) for i, t in enumerate(tr)]
            bx2 = dict(bx)
            for k, (_, lo, hi) in e.cutvars.items():
                l, h = e.box.get(k, (lo, hi))
                bx2[k] = (max(l, lo), min(h, hi))
            no, boxes = icp.refute(tr2, bx2, budget=budget / 2)
            res.boxes += boxes
        if not no:
            no, boxes = icp.refute(tr, bx, budget=budget / 2)
            res.boxes += boxes
        if no:
            res.refuted += 1
            return
    res.candidates += 1
    # counterexample search: the abstraction is satisfiable; find a concrete point and run the real code
    roots = (got, want) if isinstance(got, X.Node) else None
    if not uf_free(tr) or (roots and not uf_free([(None,) + roots + (None,)])):
        # uninterpreted functions have no value here: concrete points of the rest of the path, all replayed
        w = type('W', (), dict(trace=[t for t in tr if uf_free([t])], box=e.box))
        pts = hinted(case, w, rng, 12) + find_points(case, w, rng, budget, want=60)
    else:
        pts = find_points(case, e, rng, budget, extra_roots=roots, tol=min(case.rtol, 1e-9), uffn=uffn)
    for p in pts:
        v = confirm(case, p, nat)
        if v:
            v['difference'] = diff
            v['path'] = ['%s %s %s: %s' % (X.show(a, 2), rel, X.show(b, 2), o) for rel, a, b, o in e.trace[-12:]]
            res.violation = v
            return
    res.undischarged.append('%s; no concrete point of this path deviates (%d tried)' % (diff, len(pts)))


def hinted(case, e, rng, n):
    """Up to n points of every hinted box that satisfy what is computable of the path condition."""
    out = []
    tr = [t for t in e.trace if uf_free([t])]
    for h in case.hints:
        box = {}
        for k in case.box:
            lo, hi = e.box.get(k, case.box[k])
            if k in h:
                lo, hi = max(lo, h[k][0]), min(hi, h[k][1])
            box[k] = (lo, hi)
        if any(lo > hi for lo, hi in box.values()):
            continue
        m = 200
        pts = {k: rng.uniform(lo, hi, m) for k, (lo, hi) in box.items()}
        if 'o' in pts:
            lo, hi = box['o']
            small = rng.integers(int(max(lo, -3)), int(max(min(hi, 40), max(lo, -3))) + 1, m)
            pts['o'] = np.where(rng.random(m) < 0.8, small, np.round(pts['o']))
            ks = [t[2].fval if t[1].op == 'v' else t[1].fval for t in tr if t[3] and t[0] == 'eq']
            ks = [k for k in ks if k is not None and lo <= k <= hi]
            if ks:
                pts['o'] = np.where(rng.random(m) < 0.8, rng.choice(ks, m), pts['o'])
        tot, _ = trace_violation(tr, pts, m)
        ok = np.nonzero(np.broadcast_to(tot, (m,)) == 0)[0]
        out += [{k: float(pts[k][j]) for k in pts} for j in ok[:n]]
    return out


def uf_free(trace):
    return not any(n.op == 'uf' for n in X.topo([z for t in trace for z in t[1:3]]))


def midpoint(case, e, rng, cuts=()):
    """An evaluation point inside the box, with the values of the cut nodes there."""
    for _ in range(8):
        env = {}
        for k, (lo, hi) in e.box.items():
            lo, hi = max(lo, -1e3), min(hi, 1e3)
            env[k] = mpf(lo) + (mpf(hi) - mpf(lo)) * mpf(float(rng.uniform(0.3, 0.6)))
        if not cuts:
            break
        vals = X.evalf(list(cuts), {k: np.float64(float(x)) for k, x in env.items()})
        if np.isfinite(vals).all():
            for i, x in enumerate(vals):
                env['cut%d' % i] = mpf(float(x))
            break
    else:
        return None
    for v, (kind, name, k, c) in (case.params or {}).items():
        if v not in env:
            continue
        cc = mpf(1)
        for f in (c if isinstance(c, tuple) else (c,)):
            cc *= f
        env[name] = (env[v] - cc) / k if kind == 'aff' else k / env[v] - cc
    return env


def make_uffn(nat):
    return None
