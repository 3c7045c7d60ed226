"""Iterative inversions: partial correctness of the root finders, decided in real arithmetic.

The code's inversion is executed symbolically with its loops unrolled; the functions handed to the root finders are
uninterpreted, constrained at the visited points by a common modulus of continuity and by monotonicity.  The input is
F(con, x*) of a free state x*; the obligation on every exit is that the state returned reproduces the input.
"""
import math
import time
import numpy as np
import z3
from . import expr as X
from . import symexec as S
from . import llir
from .engine import fcmp, Infeasible
from .llir import Unsupported

UFOPS = ('sqrt', 'log', 'exp', 'powf', 'f32')
QTIME = 4000
NEG = {'eq': 'ne', 'ne': 'eq', 'lt': 'ge', 'ge': 'lt', 'gt': 'le', 'le': 'gt'}


class Cut(Exception):
    """The loop bound is reached."""


def scan(module):
    """(functions passed by pointer: (f64, f64) -> f64;  those of them that iterate)."""
    r = getattr(module, '_invscan', None)
    if r is not None:
        return r
    names = set()
    for f in module.funcs.values():
        try:
            llir.parse_func(f)
        except Exception:
            continue
        for ins in f.blocks.values():
            for I in ins:
                if I[0] == 'call':
                    for t, v in I[4]:
                        if isinstance(v, tuple) and len(v) > 1 and v[0] == 'g' and v[1] in module.funcs:
                            names.add(v[1])
    glue = set()
    for n in names:
        g = module.funcs[n]
        try:
            llir.parse_func(g)
        except Exception:
            continue
        if g.ret == 'd' and [t for t, _ in g.params] == ['d', 'd']:
            glue.add(n)
    memo = {}

    def deep(n):
        if n in memo:
            return memo[n]
        memo[n] = False
        g = module.funcs.get(n)
        if g is None:
            return False
        try:
            llir.parse_func(g)
        except Exception:
            return False
        r = S.loopy(g, module)
        for ins in g.blocks.values():
            for I in ins:
                if I[0] == 'call' and I[3][0] == 'g' and not r:
                    r = deep(I[3][1])
        memo[n] = r
        return r
    comp = {n for n in glue if deep(n)}
    inner = set()
    for n in comp:
        todo, seen = [n], {n}
        while todo:
            g = module.funcs[todo.pop()]
            for ins in g.blocks.values():
                for I in ins:
                    if I[0] == 'call' and I[3][0] == 'g':
                        m = I[3][1]
                        if m in seen or m not in module.funcs:
                            continue
                        seen.add(m)
                        h = module.funcs[m]
                        llir.parse_func(h)
                        if deep(m) and h.ret == 'd' and all(t == 'd' for t, _ in h.params):
                            inner.add(m)
                        elif m not in glue:
                            todo.append(m)
    module._invscan = (glue - comp, comp, inner, deep)
    return module._invscan


def helper(module, name):
    """Not itself a function of one or two numbers that states something about water."""
    f = module.funcs.get(name)
    if f is None:
        return False
    llir.parse_func(f)
    return not (len(f.params) < 3 and all(t == 'd' for t, _ in f.params))


def big(module, name, op=None, memo={}):
    """Instructions of a function and of what it calls (of one kind)."""
    k = (id(module), name, op)
    if k not in memo:
        memo[k] = 0
        f = module.funcs.get(name)
        if f is not None:
            llir.parse_func(f)
            memo[k] = sum((op is None or I[0] == op) + (big(module, I[3][1], op) if I[0] == 'call' and I[3][0] == 'g' and
                                                        (op is None or helper(module, I[3][1])) else 0) for b in f.blocks.values() for I in b)
    return memo[k]


class Mach(S.Machine):
    """Folds the forward functions of the inversions; iterative functions run, unless they are inside a composite."""

    def __init__(self, module, engine, unroll, inner, bracket=None, ideal=False, known=None):
        super().__init__(module, engine, max_sym=unroll)
        self.unroll = unroll
        self.bracket = bracket or unroll
        self.gl, self.comp, self.innernames, self.deep = scan(module)
        self.inner = inner
        self.ideal = ideal
        self.known = {} if known is None else known
        self.countforks = True
        self.met = False
        self.links = {}
        self.fwd = {}

    def direction(self, name, k, n):
        if n == 1:
            return 1            # saturation lines
        return self.fwd.get((name, k), 0)

    def call(self, name, args):
        sym = any(isinstance(a, X.Node) and a.sym for a in args)
        if not sym and args and all(isinstance(a, X.Node) for a in args):
            k = (name,) + tuple(a.fval for a in args)
            r = self.known.get(k)
            if r is None:
                r = super().call(name, args)
                if isinstance(r, X.Node) and r.fval is not None:
                    self.known[k] = r.fval
            return X.const(r) if isinstance(r, float) else r
        if sym and name in self.module_funcs:
            f = self.m.funcs[name]
            llir.parse_func(f)
            if name in self.gl or self.ideal and name in self.comp:
                self.folded.add(name)
                return X.uf(name, tuple(args))
            if name in self.comp:
                self.met = True
                if self.inner:
                    n = X.uf(name, tuple(args))
                    if n.id not in self.links:
                        self.links[n.id] = None
                        self.links[n.id] = (n, super().call(name, args))
                    self.folded.add(name)
                    return n
            if name in self.innernames and self.inner:
                self.folded.add(name)
                return X.uf(name, tuple(args))
            if f.ret == 'd' and f.params and all(t == 'd' for t, _ in f.params) and not self.deep(name) and \
                    big(self.m, name) > 25 and (len(f.params) > 1 or big(self.m, name, 'binf') > 12):
                self.folded.add(name)
                a = args[0]
                if len(args) == 1 and a.op == 'uf' and len(a.args) == 2 and a.args[0] != name:
                    return a.args[1]        # saturation pressure and temperature are inverse functions (C06)
                return X.uf(name, tuple(args))
        if sym and name in self.module_funcs:
            keep = self.max_sym
            # a root finder (it is handed a function): the bound; the search for its interval: to the end
            self.max_sym = self.unroll if self.deep(name) and any(t != 'd' for t, _ in f.params) else self.bracket
            try:
                return super().call(name, args)
            finally:
                self.max_sym = keep
        return super().call(name, args)

    def anchors(self, name):
        """Values of a saturation function at the ends of its range."""
        k = ('anchors', name)
        if k not in self.known:
            f = lambda x: super(Mach, self).call(name, [X.const(x)]).fval
            at = (0.000611212677444, 1.0, 16.5291642526045) if f(1.0) and f(1.0) > 200 else (273.15, 450.0, 623.15)
            self.known[k] = [(x, f(x)) for x in at]
        return self.known[k]

    @property
    def module_funcs(self):
        return self.m.funcs


class Enc:
    """z3 encoding of nodes; nodes outside `inside` are free variables."""

    def __init__(self, inside=None, anchors=None):
        self.anchors = anchors or (lambda name: [])
        self.inside = inside
        self.memo = {}
        self.defs = []
        self.ufs = {}
        self.free = set()

    def num(self, x):
        n, d = float(x).as_integer_ratio()
        return z3.Q(n, d) if d != 1 else z3.RealVal(n)

    def enc(self, n):
        r = self.memo.get(n.id)
        if r is not None:
            return r
        if not n.sym:
            v = n.fval
            if v is None or v != v or abs(v) == math.inf:
                raise Unsupported('non-finite constant')
            r = self.num(v)
        elif n.op == 'v':
            r = z3.Real('v_' + n.args[0])
        elif self.inside is not None and n.id not in self.inside:
            self.free.add(n.id)
            r = z3.Real('n%d' % n.id)
            if n.op == 'uf':
                pass
        else:
            o = n.op
            if o in ('add', 'sub', 'mul', 'div'):
                a, b = self.enc(n.args[0]), self.enc(n.args[1])
                if o == 'add':
                    r = a + b
                elif o == 'sub':
                    r = a - b
                elif o == 'mul':
                    r = a * b
                elif not n.args[1].sym:
                    r = a / b
                else:
                    r = z3.Real('n%d' % n.id)
                    self.defs.append(z3.And(b != 0, r * b == a))
            elif o == 'neg':
                r = -self.enc(n.args[0])
            elif o == 'abs':
                a = self.enc(n.args[0])
                r = z3.If(a >= 0, a, -a)
            elif o == 'powi' and abs(n.args[1]) <= 4:
                a = self.enc(n.args[0])
                k = n.args[1]
                p = z3.RealVal(1)
                for _ in range(abs(k)):
                    p = p * a
                if k < 0:
                    r = z3.Real('n%d' % n.id)
                    self.defs.append(z3.And(p != 0, r * p == 1))
                else:
                    r = p
            else:
                r = z3.Real('n%d' % n.id)
                if o == 'sqrt' or o == 'powf' and n.args[1].fval == 0.5:
                    self.defs.append(z3.And(r >= 0, r * r == self.enc(n.args[0])))
                if o == 'uf' and all(isinstance(a, X.Node) for a in n.args[1:]):
                    self.ufs.setdefault(n.args[0], []).append((n, r, [self.enc(a) for a in n.args[1:]]))
        self.memo[n.id] = r
        return r

    def modulus(self, L, skip):
        """The modulus of continuity alone, between visited points."""
        out = []
        for name, apps in self.ufs.items():
            for i in range(len(apps)):
                for j in range(i):
                    n, r, a = apps[i]
                    m, q, b = apps[j]
                    diff = [k for k in range(len(a)) if n.args[k + 1] is not m.args[k + 1]]
                    if n.id in skip or m.id in skip or len(diff) != 1:
                        continue
                    d = a[diff[0]] - b[diff[0]]
                    d = L * z3.If(d >= 0, d, -d)
                    out += [r - q <= d, q - r <= d]
        return out

    def order(self, direction):
        """Strict monotonicity (or injectivity) in one argument."""
        out = []
        for name, apps in self.ufs.items():
            for i in range(len(apps)):
                if len(apps[i][2]) == 1:    # saturation pressure, temperature
                    out.append(apps[i][1] > 0)
                    for at, v in self.anchors(name):
                        if v is not None and v == v:
                            out.append((apps[i][1] < self.num(v)) == (apps[i][2][0] < self.num(at)))
                for j in range(i):
                    n, r, a = apps[i]
                    m, q, b = apps[j]
                    diff = [k for k in range(len(a)) if n.args[k + 1] is not m.args[k + 1]]
                    if len(diff) != 1:
                        continue
                    x = diff[0]
                    s = direction(name, x, len(a))
                    if s:
                        out += [(r < q) == (a[x] < b[x] if s > 0 else a[x] > b[x]), (r == q) == (a[x] == b[x])]
                    else:
                        out.append((r == q) == (a[x] == b[x]))
        return out

    def axioms(self, L, direction):
        """Applications of one function that differ in one argument: r - q = k (a - b) with a slope 0 < |k| <= L."""
        out = []
        for name, apps in self.ufs.items():
            for i in range(len(apps)):
                for j in range(i):
                    n, r, a = apps[i]
                    m, q, b = apps[j]
                    diff = [k for k in range(len(a)) if n.args[k + 1] is not m.args[k + 1]]
                    if len(diff) != 1:
                        continue
                    x = diff[0]
                    k = z3.Real('k_%d_%d' % (n.id, m.id))
                    s = direction(name, x, len(a))
                    out.append(r - q == k * (a[x] - b[x]))
                    if s:
                        out.append(k > 0 if s > 0 else k < 0)
                        out.append(k <= L if s > 0 else -k <= L)
                    else:
                        out += [k != 0, k <= L, -k <= L]
        return out


class ZEngine:
    def __init__(self, case, prefix, stats, mach):
        self.case, self.prefix, self.stats, self.mach = case, prefix, stats, mach
        self.pos = 0
        self.decisions, self.alts, self.trace = [], [], []
        self.ndecisions = 0
        self.forked = False
        self.known = {}
        self.npre = 0
        self.tol = None

    def assume(self, rel, a, b):
        a, b = X.const(a), X.const(b)
        self.trace.append((rel, a, b, True))
        self.known[(rel, a.id, b.id)] = True
        self.known[(NEG[rel], a.id, b.id)] = False

    def decide(self, pred, a, b):
        if a.fval is not None and b.fval is not None:
            return fcmp(pred, a.fval, b.fval)
        self.ndecisions += 1
        if pred in ('ord', 'uno'):
            return pred == 'ord'
        if pred in ('true', 'false'):
            return pred == 'true'
        for z in (a, b):
            if z.fval is not None and z.fval != z.fval:
                return pred[0] == 'u'
            if z.fval is not None and abs(z.fval) == math.inf:
                x, y = (z.fval, 0.0) if z is a else (0.0, z.fval)
                return fcmp(pred, x, y)
        rel = pred[1:]
        if a is b:
            return rel in ('eq', 'le', 'ge')
        k = (rel, a.id, b.id)
        if k in self.known:
            return self.known[k]
        if self.pos < len(self.prefix):
            v, fork = self.prefix[self.pos]
            self.alts.append(False)
        else:
            t = self.feasible((rel, a, b, True))
            f = self.feasible((rel, a, b, False)) if t else True
            v, fork = t, t and f
            self.alts.append(fork)
        self.pos += 1
        self.decisions.append((v, fork))
        self.trace.append((rel, a, b, v))
        neg = NEG[rel]
        self.known[(rel, a.id, b.id)] = v
        self.known[(neg, a.id, b.id)] = not v
        self.forked = fork
        return v

    # ------------------------------------------------------------- queries
    def feasible(self, c):
        for d, last, mode in ((3, 8, 'o'), (6, None, 'o'))[1 if self.case.near else 0:]:
            if self.query([c], d, 300, None, last, mode)[0] == z3.unsat:
                return False
        return True

    def query(self, cs, depth, timeout, goal, last=None, mode='s', skip=None, given=()):
        """cs and the path constraints within `depth` of them."""
        roots = [n for c in cs for n in c[1:3]]
        trace = self.trace[-last:] if last else self.trace
        if 'p' in mode:
            trace = self.trace[:self.npre] + trace[max(0, self.npre + len(trace) - len(self.trace)):]
        if 'c' in mode:             # iterates (arguments of the forward function) are free, but for the last one
            inside = {}
            keep = set()
            every = X.topo(roots + [n for t in trace for n in t[1:3]])
            its = {x.id for n in every if n.op == 'uf' for x in n.args[1:] if isinstance(x, X.Node)}
            for r in roots:
                if r.op == 'uf':
                    keep |= {x.id for x in r.args[1:] if isinstance(x, X.Node)}
            if 'x' in mode:
                keep = set()
            else:
                for t in trace:
                    keep |= {t[1].id, t[2].id}
            todo = roots + [n for t in trace for n in t[1:3]]
            while todo:
                n = todo.pop()
                if not n.sym or n.id in inside or (n.id in its and n.id not in keep and n.op != 'v'):
                    continue
                inside[n.id] = 0
                todo += [x for x in n.args if isinstance(x, X.Node)]
                if n.id in self.mach.links and self.mach.links[n.id]:
                    todo.append(self.mach.links[n.id][1])
            used = trace
        else:
            used = trace
            inside = None
            if depth is not None:
                inside, used = self.near(roots, trace, depth)
        E = Enc(inside, self.mach.anchors)
        s = z3.SolverFor('QF_NRA')
        s.set('timeout', timeout)
        L = z3.Real('L')
        s.add(L > 0)
        if self.case.Lmax:
            s.add(L <= E.num(self.case.Lmax))
        try:
            for rel, a, b, v in used + list(cs):
                if (a.fval is not None and abs(a.fval) == math.inf) or (b.fval is not None and abs(b.fval) == math.inf):
                    continue
                x, y = E.enc(a), E.enc(b)
                f = {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[rel]
                s.add(f if v else z3.Not(f))
            if goal is not None:
                s.add(goal(E, L))
            for g in given:
                s.add(g(E, L))
            done = set()
            while True:
                new = [x for x in E.memo if x in self.mach.links and x not in done and self.mach.links[x] and
                       (inside is None or x in inside)]
                if not new:
                    break
                for x in new:
                    done.add(x)
                    n, body = self.mach.links[x]
                    s.add(E.enc(n) == E.enc(body))
            for name, (lo, hi) in self.case.box.items():
                v = z3.Real('v_' + name)
                s.add(v >= E.num(lo), v <= E.num(hi))
            ax = []
            if 's' in mode:
                ax += E.axioms(L, self.mach.direction)
            if 'm' in mode:
                ax += E.modulus(L, set())
            if 'w' in mode:
                ax += E.modulus(L, {skip})
            if 'o' in mode:
                ax += E.order(self.mach.direction)
            for f in ax:
                s.add(f)
            for f in E.defs:
                s.add(f)
        except Unsupported:
            return z3.unknown, None
        t0 = time.time()
        r = s.check()
        self.stats.queries += 1
        self.stats.time += time.time() - t0
        if r == z3.sat:
            self.stats.sat += 1
        elif r == z3.unsat:
            self.stats.unsat += 1
        else:
            self.stats.unknown += 1
        return r, (s.model() if r == z3.sat else None)

    def near(self, roots, trace, depth):
        inside = {}
        todo = [(r, 0) for r in roots]
        while todo:
            n, d = todo.pop()
            if not n.sym or inside.get(n.id, 99) <= d or d > depth:
                continue
            inside[n.id] = d
            step = 1 if n.op in ('div', 'uf') else 0
            for x in n.args:
                if isinstance(x, X.Node):
                    todo.append((x, d + step))
            if n.id in self.mach.links and self.mach.links[n.id]:
                todo.append((self.mach.links[n.id][1], d))

        def ok(n, lvl):
            if not n.sym or n.op == 'v' or n.id in inside:
                return True
            return lvl > 0 and all(ok(x, lvl - 1) for x in n.args if isinstance(x, X.Node))
        used = [t for t in trace if ok(t[1], 2) and ok(t[2], 2)]
        for t in used:
            for n in t[1:3]:
                self.adds(n, inside, 2)
        return inside, used

    def adds(self, n, inside, lvl):
        if not n.sym or n.id in inside or lvl == 0:
            return
        inside[n.id] = 0
        for x in n.args:
            if isinstance(x, X.Node):
                self.adds(x, inside, lvl - 1)


class Ctx:
    def __init__(self, e, mach):
        self.e, self.mach = e, mach

    def impl(self, fn, a, b, o, reg=None):
        return self.mach.call('@v_' + fn + ('' if reg is None else '_r'), [X.const(a), X.const(b), o] + ([] if reg is None else [reg]))

    def composite(self):
        """The iterative function of two variables that is itself solved for one of them."""
        k = sorted(self.mach.comp)
        if not k:
            raise Unsupported('no iterative function is passed on')
        return k[0]

    def assume(self, rel, a, b):
        self.e.assume(rel, X.const(a), X.const(b))


def note(mach, y, x, d):
    """The sense of the forward function in the unknown x."""
    for n in X.topo([y]):
        if n.op == 'uf' and len(n.args) == 3:
            for k, a in enumerate(n.args[1:]):
                if isinstance(a, X.Node) and x in X.topo([a]):
                    inv = any(z.op == 'div' and z.args[1] is x for z in X.topo([a]))
                    mach.fwd[(n.args[0], k)] = -d if inv else d


class Inverse:
    """One inversion.  con/unk: names of the shared input and of the unknown; fwd(c, con, unk): the input reproduced by
    the state; got(c, con, result): the same at the state the code returns."""
    kind = 'inverse'

    def __init__(self, id, fn, o, reg, box, args, back, pre=None, unroll=3, tol=3e-8, etol=1e-8, native=None, Lmax=None,
                 direction=0, weight=50, cap=None, max_paths=3000, bracket=None, ideal=False, near=None, whole=False):
        self.whole = whole
        self.bracket, self.ideal, self.near = bracket, ideal, near
        self.id, self.fn, self.o, self.reg, self.box = id, fn, o, reg, box
        self.args, self.back, self.pre = args, back, pre
        self.unroll, self.tol, self.etol, self.native_states, self.Lmax, self.direction = unroll, tol, etol, native, Lmax, direction
        self.weight, self.cap, self.max_paths = weight, cap, max_paths

    def run(self, G, deadline):
        from .solve import Result
        t0 = time.time()
        res = Result(self)
        budget = min(deadline, t0 + (G['cap']))
        self.hunted = False
        for inner in (False, True):
            X.reset()
            res.paths = res.equal = 0
            res.undischarged = []
            again = self.explore(G, res, inner, budget)
            if not again or res.violation:
                break
        res.wall = time.time() - t0
        return res

    def explore(self, G, res, inner, deadline):
        stack = [[]]
        n = cutn = 0
        known = {}
        while stack:
            prefix = stack.pop()
            mach = Mach(G['module'], None, self.unroll, inner, self.bracket, self.ideal, known)
            e = ZEngine(self, prefix, res.stats, mach)
            mach.e = e
            c = Ctx(e, mach)
            vs = {k: X.var(k) for k in self.box}
            out = None
            try:
                if self.pre:
                    self.pre(c, vs)
                    e.npre = len(e.trace)
                a, y, unk = self.args(c, vs)
                if unk:
                    note(mach, X.const(y), vs[unk], self.direction)
                got = mach.call('@v_' + self.fn + ('' if self.reg is None else '_r'),
                                [X.const(a[0]), X.const(a[1]), self.o] + ([] if self.reg is None else [self.reg]))
                out = (got, y)
                back = X.const(self.back(c, vs, got)) if isinstance(got, X.Node) else None
                e.tol = X.const(self.near(c, vs, got)) if self.near and back is not None else None
            except Infeasible:
                out = None
            except S.Diverges:
                out = None
                cutn += 1
                if self.whole:
                    self.fail(e, None, 'loop bound', res, G)
                    if res.violation:
                        return False
            except S.Panic:
                out = ('panic', y)
            if mach.met and not inner:
                return True
            for i, alt in enumerate(e.alts):
                if alt:
                    stack.append(e.decisions[:i] + [(not e.decisions[i][0], True)])
            n += 1
            res.called |= mach.called
            res.opaque |= mach.folded
            res.steps += mach.steps
            res.decisions += len(e.decisions)
            if out is not None:
                res.paths += 1
                self.judge(e, out, back, res, G)
                if res.violation:
                    return False
            if n > self.max_paths or time.time() > deadline:
                res.undischarged.append('%d paths explored, bound reached' % n)
                break
        res.pruned += cutn
        if cutn and not self.hunted:        # states that need more steps than the bound: replayed only
            self.hunt(res, G)
        return False

    def judge(self, e, out, back, res, G):
        got, y = out
        if got == 'panic':
            return self.fail(e, None, 'panic', res, G)
        if not isinstance(got, X.Node):
            return self.fail(e, None, 'returns ' + repr(got), res, G)
        y = X.const(y)

        def off(b, strong=False):
            def goal(E, L):
                d, w = E.enc(b) - E.enc(y), E.enc(y)
                if e.tol is not None:
                    m = E.enc(e.tol)
                    return z3.Or(d > m, d < -m)
                m = E.num(self.tol) * L
                if not strong:
                    m += E.num(self.etol) * z3.If(w > 1, w, z3.If(w < -1, -w, 1))
                return z3.Or(d > m, d < -m)
            return goal
        easy = ((None, 5, 300, 'cxw+'), (3, 3, 300, 'cw+'), (3, 3, 300, 'w+'), (3, 6, 300, 'cmo+'), (3, 6, 500, 'cmo'), (4, 6, 500, 'mo'))
        hard = ((3, 6, 300, 'cw'), (3, 10, 1000, 'cmo'), (4, 6, 1000, 's'), (3, 6, QTIME, 'cmo'), (3, 6, QTIME, 'w'), (None, None, QTIME, 'mo'))
        dy = ('eq', y, y, True)

        def prove(b, plan):
            r = model = None
            for depth, last, lim, mode in plan:
                r, model = e.query([('eq', b, b, True), dy], depth, lim, off(b, '+' in mode), last, mode, y.id)
                if r == z3.unsat:
                    break
            return r, model
        if prove(back, easy)[0] == z3.unsat:
            res.equal += 1
            return
        # the result is a limit: the iterate beyond it reproduces the input, and the forward function is monotone
        for h in self.beyond(e, back):
            if prove(h, easy)[0] != z3.unsat:
                continue
            H = ('eq', h, h, True)
            for last, depth in ((3, 0), (6, 0), (10, 1)):
                if e.query([('eq', back, back, True), dy, H], depth, 500, off(back), last, 'op',
                           given=[lambda E, L: z3.Not(off(h)(E, L))])[0] == z3.unsat:
                    res.equal += 1
                    return
        r, model = prove(back, hard)
        if r == z3.unsat:
            res.equal += 1
            return
        self.fail(e, model, 'sat' if r == z3.sat else 'unknown', res, G)

    def beyond(self, e, back):
        out = []
        if back.op != 'uf':
            return out
        for rel, a, b, v in e.trace[-6:]:
            for x, y in ((a, b), (b, a)):
                for k, arg in enumerate(back.args[1:]):
                    if x is arg and isinstance(y, X.Node) and y.sym:
                        h = X.uf(back.args[0], tuple(y if j == k else z for j, z in enumerate(back.args[1:])))
                        if h is not back and h not in out:
                            out.append(h)
        return out[:3]

    def hunt(self, res, G):
        if not self.hunted and self.native_states:
            self.hunted = True
            res.candidates += 1
            res.violation = self.native_states(G['native'], np.random.default_rng(G['seed'] + 17), self)

    def fail(self, e, model, why, res, G):
        """The path may return a state that does not reproduce the input: look for a concrete one."""
        self.hunt(res, G)
        if res.violation:
            return
        if len(res.undischarged) < 40:
            res.undischarged.append('exit not decided (%s) after %d decisions' % (why, len(e.decisions)))
