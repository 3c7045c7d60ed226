"""Hash-consed expression DAG over the reals.

A Node stands for the real number that the code's f64 operation denotes when
every operation is exact ("real-arithmetic semantics").  Nodes whose leaves are
all constants carry `fval`, the IEEE value the machine computes; it is used
only to take concrete branches.
"""
import math
import numpy as np


class Node:
    __slots__ = ('op', 'args', 'fval', 'id', 'sym')

    def __repr__(self):
        return show(self)

    # operator sugar: lets reference code be written once for Nodes and numbers
    def __add__(s, o): return add(s, o)
    def __radd__(s, o): return add(o, s)
    def __sub__(s, o): return sub(s, o)
    def __rsub__(s, o): return sub(o, s)
    def __mul__(s, o): return mul(s, o)
    def __rmul__(s, o): return mul(o, s)
    def __truediv__(s, o): return div(s, o)
    def __rtruediv__(s, o): return div(o, s)
    def __neg__(s): return neg(s)

    def __pow__(s, n):
        if isinstance(n, int):
            return powi(s, n)
        return powf(s, const(n))


_table = {}


def reset():
    _table.clear()


def _mk(op, args, fval=None, sym=None):
    key = (op, args) if op != 'c' else ('c', args, math.copysign(1, args[0]) if args[0] == args[0] else 0)
    n = _table.get(key)
    if n is None:
        n = Node()
        n.op = op
        n.args = args
        n.fval = fval
        n.id = len(_table)
        if sym is None:
            sym = op in ('v', 'uf') or any(isinstance(a, Node) and a.sym for a in args)
        n.sym = sym
        _table[key] = n
    return n


def const(x):
    if isinstance(x, Node):
        return x
    x = float(x)
    return _mk('c', (x,), x, False) if x == x else _mk('nan', (), x, False)


def var(name):
    return _mk('v', (name,), None, True)


def _f(fn, *a):
    try:
        return fn(*a)
    except OverflowError:
        return math.inf
    except (ValueError, ZeroDivisionError):
        return math.nan


def _div(a, b):
    if b == 0:
        if a == 0 or a != a:
            return math.nan
        return math.copysign(math.inf, a) * math.copysign(1, b)
    return a / b


def _powi(a, n):
    try:
        return float(np.float64(a) ** n) if abs(n) < 2 ** 31 else math.nan
    except (OverflowError, ZeroDivisionError):
        return math.inf


def _pow(a, b):
    with np.errstate(all='ignore'):
        return float(np.power(np.float64(a), np.float64(b)))


def _log(a):
    if a > 0:
        return math.log(a) if a != math.inf else a
    return -math.inf if a == 0 else math.nan


def _sqrt(a):
    return math.sqrt(a) if a >= 0 else math.nan


def _exp(a):
    try:
        return math.exp(a)
    except OverflowError:
        return math.inf


def _fv(fn, *ns):
    vs = []
    for n in ns:
        if n.fval is None:
            return None
        vs.append(n.fval)
    with np.errstate(all='ignore'):
        return fn(*vs)


def add(a, b):
    a, b = const(a), const(b)
    if a.op == 'sub' and not b.sym and a.args[1] is b and a.args[0].sym:
        return a.args[0]        # (x - c) + c
    return _mk('add', (a, b), _fv(lambda x, y: x + y, a, b))


def sub(a, b):
    a, b = const(a), const(b)
    if a.op == 'add' and not b.sym and a.args[1] is b and a.args[0].sym:
        return a.args[0]        # (x + c) - c
    return _mk('sub', (a, b), _fv(lambda x, y: x - y, a, b))


def mul(a, b):
    a, b = const(a), const(b)
    return _mk('mul', (a, b), _fv(lambda x, y: x * y, a, b))


def div(a, b):
    a, b = const(a), const(b)
    if a.fval == 1.0 and b.op == 'div' and b.args[0].fval == 1.0 and b.args[1].sym:
        return b.args[1]        # 1/(1/x), x nonzero
    return _mk('div', (a, b), _fv(_div, a, b))


def neg(a):
    a = const(a)
    return _mk('neg', (a,), _fv(lambda x: -x, a))


def powi(a, n):
    a = const(a)
    return _mk('powi', (a, int(n)), _fv(lambda x: _powi(x, n), a))


def powf(a, b):
    a, b = const(a), const(b)
    return _mk('powf', (a, b), _fv(_pow, a, b))


def sqrt(a):
    a = const(a)
    return _mk('sqrt', (a,), _fv(_sqrt, a))


def log(a):
    a = const(a)
    return _mk('log', (a,), _fv(_log, a))


def exp(a):
    a = const(a)
    return _mk('exp', (a,), _fv(_exp, a))


def fabs(a):
    a = const(a)
    return _mk('abs', (a,), _fv(abs, a))


def f32(a):
    a = const(a)
    return _mk('f32', (a,), _fv(lambda x: float(np.float32(x)), a))


def uf(name, args):
    return _mk('uf', (name,) + tuple(args), None, True)


def show(n, depth=4):
    if not isinstance(n, Node):
        return repr(n)
    if n.op == 'c':
        return repr(n.args[0])
    if n.op == 'v':
        return n.args[0]
    if depth == 0:
        return '#%d' % n.id
    return '%s(%s)' % (n.op, ', '.join(show(a, depth - 1) for a in n.args))


def topo(roots):
    """All nodes below roots, children first."""
    seen = set()
    out = []
    st = [(r, False) for r in roots]
    while st:
        n, done = st.pop()
        if done:
            out.append(n)
            continue
        if n.id in seen:
            continue
        seen.add(n.id)
        st.append((n, True))
        for a in n.args:
            if isinstance(a, Node) and a.id not in seen:
                st.append((a, False))
    return out


def subst(roots, mapping):
    """Roots with the nodes of `mapping` (node -> node) replaced."""
    new = dict(mapping)
    for n in topo(roots):
        if n in new:
            continue
        if not any(isinstance(a, Node) and new.get(a, a) is not a for a in n.args):
            new[n] = n
        else:
            new[n] = _mk(n.op, tuple(new[a] if isinstance(a, Node) else a for a in n.args))
    return [new[r] for r in roots]


def evalf(roots, env, uffn=None):
    """Evaluate with numpy arrays (float64).  env: var name -> array."""
    val = {}
    with np.errstate(all='ignore'):
        for n in topo(roots):
            op = n.op
            a = [val[x.id] if isinstance(x, Node) else x for x in n.args]
            if op == 'c':
                r = np.float64(a[0])
            elif op == 'nan':
                r = np.float64(np.nan)
            elif op == 'v':
                r = env[a[0]]
            elif op == 'add':
                r = a[0] + a[1]
            elif op == 'sub':
                r = a[0] - a[1]
            elif op == 'mul':
                r = a[0] * a[1]
            elif op == 'div':
                r = a[0] / a[1]
            elif op == 'neg':
                r = -a[0]
            elif op == 'powi':
                r = np.power(a[0], np.float64(a[1]))
            elif op == 'powf':
                r = np.power(a[0], a[1])
            elif op == 'sqrt':
                r = np.sqrt(a[0])
            elif op == 'log':
                r = np.log(a[0])
            elif op == 'exp':
                r = np.exp(a[0])
            elif op == 'abs':
                r = np.abs(a[0])
            elif op == 'f32':
                r = np.float64(np.float32(a[0]))
            elif op == 'uf':
                r = uffn(n, a[1:]) if uffn else np.float64(np.nan)
            else:
                raise ValueError(op)
            val[n.id] = r
    return [val[r.id] for r in roots]
