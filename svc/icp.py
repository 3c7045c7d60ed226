"""Interval branch and prune over the expression DAG: refutes a conjunction of comparisons on a box."""
import numpy as np
import time
from . import expr as X

BIG = 1.7e308


def out(lo, hi):
    with np.errstate(all='ignore'):
        lo = np.where(np.isnan(lo), -np.inf, lo)
        hi = np.where(np.isnan(hi), np.inf, hi)
        return lo - np.abs(lo) * 4e-16 - 1e-300, hi + np.abs(hi) * 4e-16 + 1e-300


def mul(a, b):
    with np.errstate(all='ignore'):
        p = [a[0] * b[0], a[0] * b[1], a[1] * b[0], a[1] * b[1]]
        p = [np.where(np.isnan(x), 0.0, x) for x in p]
        lo = np.minimum(np.minimum(p[0], p[1]), np.minimum(p[2], p[3]))
        hi = np.maximum(np.maximum(p[0], p[1]), np.maximum(p[2], p[3]))
    return out(lo, hi)


def inv(a):
    with np.errstate(all='ignore'):
        z = (a[0] <= 0) & (a[1] >= 0)
        lo = np.where(z, np.where(a[0] == 0, 1 / np.where(a[1] == 0, np.nan, a[1]), -np.inf), 1 / a[1])
        hi = np.where(z, np.where(a[1] == 0, 1 / np.where(a[0] == 0, np.nan, a[0]), np.inf), 1 / a[0])
    return out(lo, hi)


def powi(a, n):
    if n == 0:
        return np.ones_like(a[0]), np.ones_like(a[1])
    if n < 0:
        return inv(powi(a, -n))
    with np.errstate(all='ignore'):
        x, y = np.power(a[0], n), np.power(a[1], n)
        if n % 2:
            lo, hi = x, y
        else:
            z = (a[0] <= 0) & (a[1] >= 0)
            lo = np.where(z, 0.0, np.minimum(x, y))
            hi = np.maximum(x, y)
        d = 1e-15 * max(1, abs(n))
        lo, hi = lo - np.abs(lo) * d, hi + np.abs(hi) * d
    return out(lo, hi)


def intervals(roots, box, table=False):
    """box: name -> (lo array, hi array)."""
    val = {}
    for n in X.topo(roots):
        op = n.op
        a = [val[x.id] if isinstance(x, X.Node) else x for x in n.args]
        if op == 'c':
            v = np.float64(a[0])
            r = (v, v)
        elif op == 'v':
            r = box[a[0]]
        elif op == 'add':
            r = out(a[0][0] + a[1][0], a[0][1] + a[1][1])
        elif op == 'sub':
            if n.args[0] is n.args[1]:
                r = (np.float64(0), np.float64(0))
            else:
                r = out(a[0][0] - a[1][1], a[0][1] - a[1][0])
        elif op == 'neg':
            r = (-a[0][1], -a[0][0])
        elif op == 'mul':
            r = powi(a[0], 2) if n.args[0] is n.args[1] else mul(a[0], a[1])
        elif op == 'div':
            r = mul(a[0], inv(a[1]))
        elif op == 'powi':
            r = powi(a[0], a[1])
        elif op == 'powf' and not n.args[1].sym:
            e = n.args[1].fval
            if float(e).is_integer():
                r = powi(a[0], int(e))
            else:
                with np.errstate(all='ignore'):
                    x, y = np.power(np.maximum(a[0][0], 0), abs(e)), np.power(np.maximum(a[0][1], 0), abs(e))
                r = out(x, y)
                r = (r[0] - np.abs(r[0]) * 1e-14, r[1] + np.abs(r[1]) * 1e-14)
                if e < 0:
                    r = inv(r)
        elif op == 'sqrt':
            r = out(np.sqrt(np.maximum(a[0][0], 0)), np.sqrt(np.maximum(a[0][1], 0)))
        elif op == 'log':
            with np.errstate(all='ignore'):
                r = out(np.where(a[0][0] > 0, np.log(np.maximum(a[0][0], 1e-308)), -np.inf),
                        np.log(np.maximum(a[0][1], 1e-308)))
        elif op == 'exp':
            with np.errstate(all='ignore'):
                r = out(np.exp(a[0][0]) * (1 - 1e-15), np.exp(a[0][1]) * (1 + 1e-15))
        elif op == 'abs':
            lo, hi = a[0]
            z = (lo <= 0) & (hi >= 0)
            r = (np.where(z, 0.0, np.minimum(np.abs(lo), np.abs(hi))), np.maximum(np.abs(lo), np.abs(hi)))
        else:
            r = (np.float64(-np.inf), np.float64(np.inf))
        with np.errstate(all='ignore'):
            r = (np.where(np.isnan(r[0]), -np.inf, r[0]), np.where(np.isnan(r[1]), np.inf, r[1]))
        val[n.id] = r
    if table:
        return [val[r.id] for r in roots], val
    return [val[r.id] for r in roots]


ZERO = (np.float64(0), np.float64(0))


def iadd(a, b):
    return out(a[0] + b[0], a[1] + b[1])


def isub(a, b):
    return out(a[0] - b[1], a[1] - b[0])


def meet(a, b):
    return np.maximum(a[0], b[0]), np.minimum(a[1], b[1])


def grads(roots, box, val):
    """Interval partial derivatives of every node: id -> {var: interval}; val: id -> interval on the box."""
    g = {}
    for n in X.topo(roots):
        op = n.op
        if op == 'v':
            g[n.id] = {n.args[0]: (np.float64(1), np.float64(1))}
            continue
        ks = [x for x in n.args if isinstance(x, X.Node)]
        vs = set()
        for x in ks:
            vs |= set(g[x.id])
        if not vs:
            g[n.id] = {}
            continue
        r = {}
        A = [val[x.id] for x in ks]
        G = [g[x.id] for x in ks]
        if op in ('add', 'sub'):
            for v in vs:
                a, b = G[0].get(v, ZERO), G[1].get(v, ZERO)
                r[v] = iadd(a, b) if op == 'add' else isub(a, b)
        elif op == 'neg':
            r = {v: (-x[1], -x[0]) for v, x in G[0].items()}
        elif op == 'mul':
            for v in vs:
                r[v] = iadd(mul(G[0].get(v, ZERO), A[1]), mul(A[0], G[1].get(v, ZERO)))
        elif op == 'div':
            ib = inv(A[1])
            q = val[n.id]
            for v in vs:
                r[v] = mul(isub(G[0].get(v, ZERO), mul(q, G[1].get(v, ZERO))), ib)
        else:
            if op == 'powi':
                k = n.args[1]
                d = mul((np.float64(k), np.float64(k)), powi(A[0], k - 1)) if k else ZERO
            elif op == 'powf' and not n.args[1].sym:
                e = n.args[1].fval
                with np.errstate(all='ignore'):
                    base = np.maximum(A[0][0], 0), np.maximum(A[0][1], 0)
                    x, y = np.power(base[0], e - 1), np.power(base[1], e - 1)
                d = (np.minimum(x, y) * (1 - 1e-13), np.maximum(x, y) * (1 + 1e-13))
                d = mul((np.float64(e), np.float64(e)), d)
            elif op == 'sqrt':
                with np.errstate(all='ignore'):
                    d = inv(mul((np.float64(2), np.float64(2)), val[n.id]))
            elif op == 'log':
                d = inv(A[0])
            elif op == 'exp':
                d = val[n.id]
            else:
                d = (np.float64(-np.inf), np.float64(np.inf))
            r = {v: mul(d, x) for v, x in G[0].items()}
        g[n.id] = r
    return [g[x.id] for x in roots]


def enclose(roots, box):
    """Intersection of the natural and the mean-value enclosures."""
    nat, val = intervals(roots, box, True)
    gr = grads(roots, box, val)
    mid = {}
    for k, (l, h) in box.items():
        m = 0.5 * (l + h)
        mid[k] = (m, m)
    cen = intervals(roots, mid)
    res = []
    for i, r in enumerate(roots):
        e = cen[i]
        for v, d in gr[i].items():
            m = mid[v][0]
            e = iadd(e, mul(d, isub(box[v], (m, m))))
        with np.errstate(all='ignore'):
            lo = np.where(np.isnan(e[0]), -np.inf, e[0])
            hi = np.where(np.isnan(e[1]), np.inf, e[1])
        res.append(meet(nat[i], (lo, hi)))
    return res


NEG = {'lt': 'ge', 'le': 'gt', 'gt': 'le', 'ge': 'lt', 'eq': 'ne', 'ne': 'eq'}


def refute(trace, box, max_boxes=60000, budget=6.0, extra=None):
    """As refute_joint, after trying the constraints on each variable alone."""
    total = 0
    if len(box) > 1 and not extra:
        by = {}
        for t in trace:
            vs = {n.args[0] for n in X.topo(list(t[1:3])) if n.op == 'v'}
            if len(vs) == 1:
                by.setdefault(vs.pop(), []).append(t)
        for v, tr in by.items():
            if v in box:
                no, n = refute_joint(tr, {v: box[v]}, 20000, budget / 3)
                total += n
                if no:
                    return True, total
    if len(box) > 1 and not extra:
        for y in box:
            tr = project(trace, y, box)
            if tr:
                no, n = refute_joint(tr, {k: b for k, b in box.items() if k != y}, 30000, budget / 3)
                total += n
                if no:
                    return True, total
    no, n = refute_joint(trace, box, max_boxes, budget, extra)
    return no, total + n


def project(trace, y, box):
    """Consequences of the trace that do not mention y: bounds on y paired with each other."""
    lower, upper, rest = [(X.const(box[y][0]), False)], [(X.const(box[y][1]), False)], []
    new = False
    for rel, a, b, o in trace:
        if not o:
            rel = NEG[rel]
        if b.op == 'v' and b.args[0] == y:
            a, b = b, a
            rel = {'lt': 'gt', 'le': 'ge', 'gt': 'lt', 'ge': 'le'}.get(rel, rel)
        ys = [any(n.op == 'v' and n.args[0] == y for n in X.topo([z])) for z in (a, b)]
        if not any(ys):
            rest.append((rel, a, b, True))
        elif a.op == 'v' and not ys[1]:
            new = True
            if rel in ('lt', 'le', 'eq'):
                upper.append((b, rel == 'lt'))
            if rel in ('gt', 'ge', 'eq'):
                lower.append((b, rel == 'gt'))
    if not new:
        return None
    for l, s in lower:
        for u, t in upper:
            if l is u and not (s or t) or not (l.sym or u.sym):
                continue
            rest.append(('lt' if s or t else 'le', l, u, True))
    return rest


def refute_joint(trace, box, max_boxes=60000, budget=6.0, extra=None):
    """True if no point of the box satisfies every (rel, a, b, outcome) of the trace.

    Also returns the number of boxes examined.  extra=(a, b, tol): additionally |a-b| > tol.
    """
    t0 = time.time()
    names = list(box)
    lo = np.array([[box[k][0] for k in names]], dtype=float)
    hi = np.array([[box[k][1] for k in names]], dtype=float)
    if (lo > hi).any():
        return True, 0
    if not np.isfinite(lo).all() or not np.isfinite(hi).all():
        return False, 0
    roots = []
    for rel, a, b, o in trace:
        roots += [X.sub(a, b)]
    if extra:
        roots.append(X.sub(extra[0], extra[1]))
    total = 0
    prev = 1
    while len(lo):
        total += len(lo)
        if total > max_boxes or time.time() - t0 > budget:
            return False, total
        bx = {k: (lo[:, i], hi[:, i]) for i, k in enumerate(names)}
        vals = enclose(roots, bx) if len(lo) < 20000 else intervals(roots, bx)
        alive = np.ones(len(lo), bool)
        for (rel, a, b, o), (l, h) in zip(trace, vals):
            if not o:
                rel = NEG[rel]
            if rel == 'lt':
                bad = l >= 0
            elif rel == 'le':
                bad = l > 0
            elif rel == 'gt':
                bad = h <= 0
            elif rel == 'ge':
                bad = h < 0
            elif rel == 'eq':
                bad = (l > 0) | (h < 0)
            else:
                bad = (l == 0) & (h == 0)
            alive &= ~np.broadcast_to(bad, alive.shape)
        if extra:
            l, h = vals[-1]
            alive &= ~np.broadcast_to((h <= extra[2]) & (l >= -extra[2]), alive.shape)
        lo, hi = lo[alive], hi[alive]
        if not len(lo):
            return True, total
        # bisect the relatively widest variable
        w = hi - lo
        w0 = np.array([box[k][1] - box[k][0] for k in names]) + 1e-300
        j = np.argmax(w / w0, axis=1)
        i = np.arange(len(lo))
        geo = (lo[i, j] > 0) & (hi[i, j] > 16 * lo[i, j])
        with np.errstate(all='ignore'):
            mid = np.where(geo, np.sqrt(np.abs(lo[i, j] * hi[i, j])), 0.5 * (lo[i, j] + hi[i, j]))
        if (w[i, j] <= np.abs(mid) * 1e-13).any():
            return False, total
        lo2, hi2 = lo.copy(), hi.copy()
        hi2[i, j] = mid
        lo3 = lo.copy()
        lo3[i, j] = mid
        lo, hi = np.concatenate([lo2, lo3]), np.concatenate([hi2, hi])
    return True, total
