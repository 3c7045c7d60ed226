"""Executes LLVM IR: integers, pointers, memory and control flow concretely; f64 as DAG nodes.

A comparison of symbolic f64 values asks the engine for a decision; the engine
enumerates the feasible outcomes by re-execution.
"""
import struct
from . import expr as X
from . import llir
from .llir import Unsupported, size_align, field_off


class Panic(Exception):
    """The code would panic (bounds check, unwrap, ...)."""


class Diverges(Exception):
    """A loop bounded only by symbolic values; the enclosing function gets summarised."""

    def __init__(self, fname):
        self.fname = fname


FNBASE = 1 << 60


class SInt:
    """A symbolic integer: the value of a real expression (no wrap-around; signed reading)."""
    __slots__ = ('node', 'id')

    def __init__(self, node):
        self.node, self.id = node, node.id

    def __eq__(self, o):
        return isinstance(o, SInt) and o.id == self.id

    def __hash__(self):
        return hash(('SInt', self.id))


class Memory:
    def __init__(self):
        self.n = 0
        self.cells = {}     # obj -> {off: (size, value)}
        self.bytes = {}     # obj -> bytes (read-only backing)
        self.const = set()

    def alloc(self, size, backing=None):
        self.n += 1
        self.cells[self.n] = {}
        if backing is not None:
            self.bytes[self.n] = backing
        return self.n << 32


PRED = {'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b,
        'ult': lambda a, b: a < b, 'ule': lambda a, b: a <= b, 'ugt': lambda a, b: a > b, 'uge': lambda a, b: a >= b}


_loopy = {}


def predicate(name, m):
    """A helper that compares numbers and answers yes or no."""
    g = m.funcs.get(name)
    if g is None:
        return False
    llir.parse_func(g)
    return g.ret == ('i', 1) and any(I[0] == 'fcmp' for ins in g.blocks.values() for I in ins)


def loopy(f, m):
    """Does a loop of f contain a floating-point comparison?"""
    r = _loopy.get(f.name)
    if r is not None:
        return r
    succ = {}
    for b, ins in f.blocks.items():
        s = set()
        for I in ins:
            if I[0] == 'jmp':
                s.add(I[1])
            elif I[0] == 'br':
                s |= {I[2], I[3]}
            elif I[0] == 'switch':
                s |= {I[3]} | set(I[4].values())
            elif I[0] == 'call' and I[5] is not None:
                s.add(I[5])
        succ[b] = s
    r = False
    for b, ins in f.blocks.items():
        if not any(I[0] == 'fcmp' or I[0] == 'call' and I[3][0] == 'g' and predicate(I[3][1], m) for I in ins):
            continue
        seen, todo = set(), list(succ[b])
        while todo:
            x = todo.pop()
            if x == b:
                r = True
                break
            if x not in seen and x in succ:
                seen.add(x)
                todo += succ[x]
        if r:
            break
    _loopy[f.name] = r
    return r


class Machine:
    def __init__(self, module, engine, opaque=(), max_sym=40, stubs=None):
        self.m = module
        self.e = engine
        self.mem = Memory()
        self.gaddr = {}
        self.fnids = {}
        self.fnnames = []
        self.fold = False               # summarise iterative functions (loops steered by floating-point tests)
        self.folded = set()
        self.gluenames = set()          # those met so far
        self.countforks = False         # the unrolling bound counts only decisions with two feasible outcomes
        self.glue = False               # summarise (f64, f64, i32) -> f64 functions called through a pointer
        self.opaque = opaque            # set of function names summarised as uninterpreted
        self.max_sym = max_sym
        self.stubs = stubs or {}
        self.steps = 0
        self.max_steps = 30_000_000
        self.called = set()
        self.memo = {}
        self.depth = 0
        self.panicked = None

    # ------------------------------------------------------------ globals
    def fnptr(self, name):
        i = self.fnids.get(name)
        if i is None:
            i = self.fnids[name] = len(self.fnnames)
            self.fnnames.append(name)
        return FNBASE + (i << 4)

    def gval(self, name):
        a = self.gaddr.get(name)
        if a is not None:
            return a
        if name in self.m.funcs or name in self.m.declares:
            a = self.fnptr(name)
            self.gaddr[name] = a
            return a
        rest = self.m.globals.get(name)
        if rest is None:
            raise Unsupported('global ' + name)
        p = llir.P(llir.tokenize(rest), self.m)
        mutable = False
        while True:
            v = p.peek()
            if v == 'constant':
                p.next()
                break
            if v == 'global':
                mutable = True
                p.next()
                break
            if v in ('unnamed_addr', 'private', 'internal', 'hidden', 'local_unnamed_addr', 'dso_local', 'external',
                     'weak', 'linkonce_odr'):
                p.next()
                continue
            raise Unsupported('global %s' % rest[:80])
        if mutable:
            raise Unsupported('mutable global ' + name)
        t = p.type()
        obj = self.mem.alloc(size_align(t)[0])
        self.gaddr[name] = obj
        v = p.value(t)
        self.init(obj, t, v)
        self.mem.const.add(obj >> 32)
        return obj

    def init(self, addr, t, v):
        cells = self.mem.cells[addr >> 32]
        off = addr & 0xffffffff
        k = v[0]
        if k == 'b':
            cells[off] = (len(v[1]), v[1])
            return
        if k == 'z':
            n = size_align(t)[0]
            if n:
                cells[off] = (n, bytes(n))
            return
        if k == 'u':
            return
        if k == 'agg':
            if t[0] == 's':
                for i, (et, ev) in enumerate(v[1]):
                    self.init(addr + field_off(t, i), et, ev)
            else:
                sz = size_align(t[2])[0]
                for i, (et, ev) in enumerate(v[1]):
                    self.init(addr + i * sz, et, ev)
            return
        val = self.ev(v, {}, t)
        self.store(addr, t, val)

    # ------------------------------------------------------------ memory
    def store(self, addr, t, val):
        if isinstance(t, tuple) and t[0] == 's':
            for i, et in enumerate(t[1]):
                self.store(addr + field_off(t, i), et, val[i])
            return
        if isinstance(t, tuple) and t[0] == 'a':
            sz = size_align(t[2])[0]
            for i in range(t[1]):
                self.store(addr + i * sz, t[2], val[i])
            return
        n = size_align(t)[0]
        obj = addr >> 32
        off = addr & 0xffffffff
        cells = self.mem.cells.get(obj)
        if cells is None:
            raise Unsupported('store to a wild address')
        old = cells.get(off)
        if old is None or old[0] != n:
            self.clear(cells, off, n)
        cells[off] = (n, val)

    def clear(self, cells, off, n):
        for o in list(cells):
            s, v = cells[o]
            if o < off + n and o + s > off:
                if o >= off and o + s <= off + n:
                    del cells[o]
                    continue
                b = self.tobytes(s, v)
                del cells[o]
                if o < off:
                    cells[o] = (off - o, b[:off - o])
                if o + s > off + n:
                    cells[off + n] = (o + s - off - n, b[off + n - o:])

    @staticmethod
    def tobytes(s, v):
        if isinstance(v, bytes):
            return v
        if isinstance(v, SInt):
            raise Unsupported('bytes of a symbolic integer')
        if isinstance(v, X.Node):
            if v.fval is None:
                raise Unsupported('bytes of a symbolic float')
            return struct.pack('<d', v.fval)
        return int(v).to_bytes(s, 'little')

    def load(self, addr, t):
        if isinstance(t, tuple) and t[0] == 's':
            return tuple(self.load(addr + field_off(t, i), et) for i, et in enumerate(t[1]))
        if isinstance(t, tuple) and t[0] == 'a':
            sz = size_align(t[2])[0]
            return tuple(self.load(addr + i * sz, t[2]) for i in range(t[1]))
        n = size_align(t)[0]
        obj = addr >> 32
        off = addr & 0xffffffff
        cells = self.mem.cells.get(obj)
        if cells is None:
            raise Unsupported('load from a wild address')
        c = cells.get(off)
        if c is not None and c[0] == n and not isinstance(c[1], bytes):
            return self.conv(c[1], t)
        b = self.getbytes(cells, off, n)
        if b is None:
            return None
        if t == 'd':
            return X.const(struct.unpack('<d', b)[0])
        if t == 'f':
            return X.const(struct.unpack('<f', b)[0])
        return int.from_bytes(b, 'little')

    def conv(self, v, t):
        if v is None or isinstance(v, SInt):
            return v
        if t == 'd':
            if isinstance(v, X.Node):
                return v
            return X.const(struct.unpack('<d', int(v).to_bytes(8, 'little'))[0])
        if t == 'f':
            return v
        if isinstance(v, X.Node):
            if v.fval is not None and t != 'd':
                return int.from_bytes(struct.pack('<d', v.fval), 'little')
            return v         # opaque 64-bit move of a symbolic float
        if isinstance(t, tuple) and t[1] < 64:
            return v & ((1 << t[1]) - 1)
        return v

    def getbytes(self, cells, off, n):
        out = bytearray(n)
        have = 0
        for o, (s, v) in cells.items():
            if o < off + n and o + s > off:
                b = self.tobytes(s, v)
                lo = max(o, off)
                hi = min(o + s, off + n)
                out[lo - off:hi - off] = b[lo - o:hi - o]
                have += hi - lo
        if have < n:
            return None          # undef
        return bytes(out)

    def memcpy(self, dst, src, n):
        if n == 0:
            return
        so, do = src >> 32, dst >> 32
        sc = self.mem.cells.get(so)
        dc = self.mem.cells.get(do)
        if sc is None or dc is None:
            raise Unsupported('memcpy wild')
        s0, d0 = src & 0xffffffff, dst & 0xffffffff
        items = []
        for o, (s, v) in list(sc.items()):
            if o < s0 + n and o + s > s0:
                if o >= s0 and o + s <= s0 + n:
                    items.append((o - s0, s, v))
                else:
                    b = self.tobytes(s, v)
                    lo = max(o, s0)
                    hi = min(o + s, s0 + n)
                    items.append((lo - s0, hi - lo, b[lo - o:hi - o]))
        self.clear(dc, d0, n)
        for o, s, v in items:
            dc[d0 + o] = (s, v)

    # ------------------------------------------------------------ operands
    def ev(self, v, regs, t=None):
        k = v[0]
        if k == 'r':
            return regs[v[1]]
        if k == 'c':
            if t == 'd' or t == 'f':
                return X.const(v[1])
            return v[1]
        if k == 'g':
            return self.gval(v[1])
        if k == 'u':
            return self.undef(v[1])
        if k == 'z':
            return self.zero(v[1])
        if k == 'gep':
            return self.gep(v[1], self.ev(v[2], regs), [(it, self.ev(iv, regs, it)) for it, iv in v[3]])
        if k == 'agg':
            return tuple(self.ev(ev, regs, et) for et, ev in v[1])
        raise Unsupported('operand %r' % (v,))

    def undef(self, t):
        if isinstance(t, tuple) and t[0] == 's':
            return tuple(self.undef(e) for e in t[1])
        if isinstance(t, tuple) and t[0] == 'a':
            return tuple(self.undef(t[2]) for _ in range(t[1]))
        return None

    def zero(self, t):
        if t == 'd' or t == 'f':
            return X.const(0.0)
        if isinstance(t, tuple) and t[0] == 's':
            return tuple(self.zero(e) for e in t[1])
        if isinstance(t, tuple) and t[0] == 'a':
            return tuple(self.zero(t[2]) for _ in range(t[1]))
        return 0

    def gep(self, bt, base, idx):
        a = base
        t = bt
        for n, (it, iv) in enumerate(idx):
            if isinstance(iv, X.Node) or iv is None:
                raise Unsupported('symbolic index')
            if isinstance(iv, SInt):
                iv = self.concrete(iv, it[1])
            if isinstance(it, tuple) and iv >> (it[1] - 1):
                iv -= 1 << it[1]
            if n == 0:
                a += iv * size_align(t)[0]
            elif t[0] == 's':
                a += field_off(t, iv)
                t = t[1][iv]
            else:
                t = t[2]
                a += iv * size_align(t)[0]
        return a

    # ------------------------------------------------------------ calls
    def call(self, name, args):
        st = self.stubs.get(name)
        if st is not None:
            return st(self, args)
        f = self.m.funcs.get(name)
        if f is None:
            return self.intrinsic(name, args)
        llir.parse_func(f)
        if name in self.gluenames:
            self.folded.add(name)
            return self.summarise(f, args)
        if name in self.opaque or (self.fold and f.ret == 'd' and self.iterative(f) and not any(
                t == 'p' and (not isinstance(a, int) or a < FNBASE) for (t, _), a in zip(f.params, args))):
            self.folded.add(name)
            return self.summarise(f, args)
        # pure scalar calls are memoised when they took no symbolic decision
        pure = f.ret == 'd' and all(not isinstance(a, tuple) and a is not None and t != 'p' or
                                    (t == 'p' and a >= FNBASE) for (t, _), a in zip(f.params, args))
        key = None
        if pure:
            key = (name,) + tuple(a.id if isinstance(a, X.Node) else ('i', a) for a in args)
            r = self.memo.get(key)
            if r is not None:
                return r
            before = self.e.ndecisions
        self.called.add(name)
        self.depth += 1
        if self.depth > 200:
            raise Unsupported('recursion')
        try:
            r = self.run(f, args)
        except Diverges as d:
            if d.fname is None and f.ret == 'd' and pure:
                raise Diverges(name)
            raise
        finally:
            self.depth -= 1
        if pure and self.e.ndecisions == before:
            self.memo[key] = r
        return r

    def iterative(self, f):
        """f loops until a floating-point test holds, or is a function of numbers that calls such a function."""
        if loopy(f, self.m):
            return True
        if any(t != 'd' for t, _ in f.params):
            return False
        seen, todo = {f.name}, [f]
        while todo:
            for ins in todo.pop().blocks.values():
                for I in ins:
                    g = self.m.funcs.get(I[3][1]) if I[0] == 'call' and I[3][0] == 'g' else None
                    if g is None or g.name in seen:
                        continue
                    seen.add(g.name)
                    llir.parse_func(g)
                    if loopy(g, self.m):
                        return True
                    if any(t == 'p' for t, _ in g.params):      # an iteration parameterised by a function
                        todo.append(g)
        return False

    def summarise(self, f, args):
        if f.ret not in ('d', ('i', 32)):
            raise Unsupported('summary of non-scalar ' + f.name)
        key = []
        for (t, _), a in zip(f.params, args):
            if t == 'p' and a >= FNBASE:
                key.append(self.fnnames[(a - FNBASE) >> 4])
            elif t == 'p':
                raise Unsupported('summary with data pointer ' + f.name)
            else:
                key.append(a.node if isinstance(a, SInt) else a)
        r = X.uf(f.name, key)
        return r if f.ret == 'd' else SInt(r)

    def intrinsic(self, name, a):
        b = name[1:].strip('"')
        if b.startswith('llvm.'):
            k = b[5:]
            if k.startswith('powi.f64'):
                n = a[1]
                if n >> 31:
                    n -= 1 << 32
                return X.powi(a[0], n)
            if k == 'pow.f64':
                return X.powf(a[0], a[1])
            if k == 'sqrt.f64':
                return X.sqrt(a[0])
            if k == 'log.f64':
                return X.log(a[0])
            if k == 'exp.f64':
                return X.exp(a[0])
            if k == 'fabs.f64':
                return X.fabs(a[0])
            if k == 'exp2.f64':
                return X.powf(X.const(2.0), a[0])
            if k == 'log10.f64':
                return X.div(X.log(a[0]), X.log(X.const(10.0)))
            if k == 'log2.f64':
                return X.div(X.log(a[0]), X.log(X.const(2.0)))
            if k in ('fma.f64', 'fmuladd.f64'):
                return X.add(X.mul(a[0], a[1]), a[2])
            if k in ('maxnum.f64', 'maximumnum.f64'):
                return a[0] if self.e.decide('ogt', a[0], a[1]) else a[1]
            if k in ('minnum.f64', 'minimumnum.f64'):
                return a[0] if self.e.decide('olt', a[0], a[1]) else a[1]
            if k == 'copysign.f64':
                m = X.fabs(a[0])
                return X.neg(m) if self.e.decide('olt', a[1], X.const(0.0)) else m
            if k.startswith('memcpy') or k.startswith('memmove'):
                self.memcpy(a[0], a[1], a[2])
                return None
            if k.startswith('memset'):
                n = a[2]
                if n:
                    cells = self.mem.cells[a[0] >> 32]
                    self.clear(cells, a[0] & 0xffffffff, n)
                    cells[a[0] & 0xffffffff] = (n, bytes([a[1] & 255]) * n)
                return None
            if k.startswith('lifetime') or k.startswith('dbg') or k.startswith('experimental.noalias'):
                return None
            if k.startswith('assume'):
                return None
            if k.startswith('expect'):
                return a[0]
            m = llir.re.match(r'(s|u)(add|sub|mul)\.with\.overflow\.i(\d+)', k)
            if m:
                bits = int(m.group(3))
                x, y = a
                if m.group(1) == 's':
                    x, y = self.signed(x, bits), self.signed(y, bits)
                r = {'add': x + y, 'sub': x - y, 'mul': x * y}[m.group(2)]
                w = r & ((1 << bits) - 1)
                back = self.signed(w, bits) if m.group(1) == 's' else w
                return (w, int(back != r))
            m = llir.re.match(r'(s|u)(min|max)\.i(\d+)', k)
            if m:
                bits = int(m.group(3))
                sg = (lambda v: self.signed(v, bits)) if m.group(1) == 's' else (lambda v: v)
                return (min if m.group(2) == 'min' else max)(a[0], a[1], key=sg)
            m = llir.re.match(r'abs\.i(\d+)', k)
            if m:
                bits = int(m.group(1))
                return abs(self.signed(a[0], bits)) & ((1 << bits) - 1)
            raise Unsupported('intrinsic ' + b)
        if b in ('memcmp', 'bcmp'):
            n = a[2]
            if n == 0:
                return 0
            x = self.getbytes(self.mem.cells[a[0] >> 32], a[0] & 0xffffffff, n)
            y = self.getbytes(self.mem.cells[a[1] >> 32], a[1] & 0xffffffff, n)
            if x is None or y is None:
                raise Unsupported('memcmp of undef')
            return 0 if x == y else (1 if x > y else 0xffffffff)
        if b in ('pow', 'exp', 'log', 'sqrt', 'fabs', 'cbrt'):
            if b == 'pow':
                return X.powf(a[0], a[1])
            if b == 'cbrt':
                return X.powf(a[0], X.const(1 / 3))
            return {'exp': X.exp, 'log': X.log, 'sqrt': X.sqrt, 'fabs': X.fabs}[b](a[0])
        if 'panic' in b or 'unwrap_failed' in b or 'expect_failed' in b:
            raise Panic(b)
        raise Unsupported('call to external ' + b)

    @staticmethod
    def signed(v, bits):
        return v - (1 << bits) if v >> (bits - 1) else v

    # ------------------------------------------------------------ the loop
    def run(self, f, args):
        regs = {}
        for (t, nm), a in zip(f.params, args):
            regs[nm] = a
        frame = []
        ev = self.ev
        blocks = f.blocks
        cur = f.entry
        prev = None
        symcount = {}
        try:
            while True:
                ins = blocks[cur]
                # phis first, in parallel
                k = 0
                if ins[0][0] == 'phi':
                    vals = []
                    while ins[k][0] == 'phi':
                        _, d, t, inc = ins[k]
                        vals.append((d, ev(inc[prev], regs, t)))
                        k += 1
                    for d, v in vals:
                        regs[d] = v
                nxt = None
                for I in ins[k:] if k else ins:
                    self.steps += 1
                    op = I[0]
                    if op == 'load':
                        regs[I[1]] = self.load(ev(I[3], regs), I[2])
                    elif op == 'store':
                        self.store(ev(I[3], regs), I[1], ev(I[2], regs, I[1]))
                    elif op == 'binf':
                        t = I[3]
                        if t != 'd':
                            raise Unsupported('f32 arithmetic')
                        a = ev(I[4], regs, 'd')
                        b = ev(I[5], regs, 'd')
                        o = I[2]
                        if o == 'fadd':
                            r = X.add(a, b)
                        elif o == 'fmul':
                            r = X.mul(a, b)
                        elif o == 'fsub':
                            r = X.sub(a, b)
                        elif o == 'fdiv':
                            r = X.div(a, b)
                        else:
                            raise Unsupported('frem')
                        regs[I[1]] = r
                    elif op == 'gep':
                        regs[I[1]] = self.gep(I[2], ev(I[3], regs), [(it, ev(iv, regs, it)) for it, iv in I[4]])
                    elif op == 'call':
                        _, d, rt, callee, cargs, norm = I
                        vals = [ev(v, regs, t) for t, v in cargs]
                        if callee[0] == 'g':
                            name = callee[1]
                        else:
                            addr = ev(callee, regs)
                            if addr is None or addr < FNBASE:
                                raise Unsupported('call through a data pointer')
                            name = self.fnnames[(addr - FNBASE) >> 4]
                            g = self.m.funcs.get(name) if self.glue else None
                            if g is not None:
                                llir.parse_func(g)
                                ts = [t for t, _ in g.params]
                                if g.ret == 'd' and ts == ['d', 'd', ('i', 32)] or \
                                        self.glue == 2 and g.ret == ('i', 32) and ts == ['d', 'd']:
                                    self.gluenames.add(name)
                        r = self.call(name, vals)
                        if d is not None:
                            regs[d] = r
                        if norm is not None:
                            nxt = norm
                            break
                    elif op == 'extract':
                        v = ev(I[2], regs)
                        for i in I[3]:
                            v = v[i]
                        regs[I[1]] = v
                    elif op == 'insert':
                        regs[I[1]] = self.insert(ev(I[3], regs), I[5], ev(I[4], regs, self.fieldt(I[2], I[5])))
                    elif op == 'fcmp':
                        a = ev(I[4], regs, 'd')
                        b = ev(I[5], regs, 'd')
                        if self.countforks:
                            self.e.forked = False
                            regs[I[1]] = int(self.e.decide(I[2], a, b))
                            if self.e.forked:
                                c = symcount[id(I)] = symcount.get(id(I), 0) + 1
                                if c > self.max_sym:
                                    raise Diverges(f.name if f.ret == 'd' else None)
                            continue
                        if a.sym or b.sym:
                            c = symcount.get(id(I), 0) + 1
                            symcount[id(I)] = c
                            if c > self.max_sym:
                                raise Diverges(f.name if f.ret == 'd' else None)
                        regs[I[1]] = int(self.e.decide(I[2], a, b))
                    elif op == 'icmp':
                        _, d, pred, t, a, b = I
                        x = ev(a, regs, t)
                        y = ev(b, regs, t)
                        if isinstance(x, SInt) or isinstance(y, SInt):
                            regs[d] = int(self.cmpint(pred, t[1], x, y))
                            continue
                        if pred[0] == 's':
                            bits = 64 if t == 'p' else t[1]
                            x, y = self.signed(x, bits), self.signed(y, bits)
                            pred = 'u' + pred[1:]
                        if isinstance(x, X.Node) or isinstance(y, X.Node) or x is None or y is None:
                            raise Unsupported('integer comparison of float bits')
                        regs[d] = int(PRED[pred](x, y))
                    elif op == 'bini':
                        regs[I[1]] = self.bini(I[2], I[3][1], ev(I[4], regs, I[3]), ev(I[5], regs, I[3]))
                    elif op == 'jmp':
                        nxt = I[1]
                        break
                    elif op == 'br':
                        c = ev(I[1], regs)
                        if c is None:
                            raise Unsupported('branch on undef')
                        nxt = I[2] if c & 1 else I[3]
                        break
                    elif op == 'alloca':
                        a = self.mem.alloc(I[2])
                        frame.append(a >> 32)
                        regs[I[1]] = a
                    elif op == 'fneg':
                        regs[I[1]] = X.neg(ev(I[3], regs, 'd'))
                    elif op == 'cast':
                        regs[I[1]] = self.cast(I[2], I[3], ev(I[4], regs, I[3]), I[5])
                    elif op == 'select':
                        c = ev(I[2], regs)
                        if c is None:
                            raise Unsupported('select on undef')
                        regs[I[1]] = ev(I[4] if c & 1 else I[5], regs, I[3])
                    elif op == 'switch':
                        v = ev(I[2], regs, I[1])
                        if isinstance(v, SInt):
                            nxt = I[3]
                            for k, b in I[4].items():
                                if self.cmpint('eq', I[1][1], v, k):
                                    nxt = b
                                    break
                            break
                        if v is None or isinstance(v, X.Node):
                            raise Unsupported('switch on undef')
                        nxt = I[4].get(v, I[3])
                        break
                    elif op == 'ret':
                        if I[1] == 'v':
                            return None
                        return ev(I[2], regs, I[1])
                    elif op == 'freeze':
                        regs[I[1]] = ev(I[2], regs)
                    elif op == 'unreachable':
                        raise Panic('unreachable')
                    else:
                        raise Unsupported(I[1] if op == 'unsupported' else op)
                if self.steps > self.max_steps:
                    raise Unsupported('step limit')
                prev = cur
                cur = nxt
        finally:
            for o in frame:
                self.mem.cells.pop(o, None)

    @staticmethod
    def fieldt(t, idx):
        for i in idx:
            t = t[1][i] if t[0] == 's' else t[2]
        return t

    def insert(self, agg, idx, v):
        l = list(agg)
        if len(idx) == 1:
            l[idx[0]] = v
        else:
            l[idx[0]] = self.insert(l[idx[0]], idx[1:], v)
        return tuple(l)

    def concrete(self, v, bits):
        """A symbolic integer as a number: one path for every value from -1 to 40 that it can have."""
        for k in range(-1, 41):
            if self.e.decide('oeq', v.node, X.const(float(k))):
                return k & ((1 << bits) - 1)
        if self.e.decide('olt', v.node, X.const(-1.0)) or self.e.decide('ogt', v.node, X.const(40.0)):
            raise Unsupported('symbolic integer in arithmetic')
        from .engine import Infeasible
        raise Infeasible()

    def cmpint(self, pred, bits, a, b):
        a, b = [z.node if isinstance(z, SInt) else X.const(float(self.signed(z, bits))) for z in (a, b)]
        if pred[0] == 'u':
            # comparison with a small non-negative constant, read as a range test
            if b.fval is None or b.fval < 0:
                raise Unsupported('unsigned comparison of a symbolic integer')
            neg = self.e.decide('olt', a, X.const(0.0))
            return pred[1] == 'g' if neg else self.e.decide('o' + pred[1:], a, b)
        return self.e.decide('o' + (pred if pred in ('eq', 'ne') else pred[1:]), a, b)

    def bini(self, op, bits, a, b):
        if (isinstance(a, SInt) or isinstance(b, SInt)) and op in ('add', 'sub') and a is not None and b is not None:
            x, y = [z.node if isinstance(z, SInt) else X.const(float(self.signed(z, bits))) for z in (a, b)]
            return SInt(X.add(x, y) if op == 'add' else X.sub(x, y))
        a, b = [self.concrete(z, bits) if isinstance(z, SInt) else z for z in (a, b)]
        if a is None or b is None or isinstance(a, (X.Node, SInt)) or isinstance(b, (X.Node, SInt)):
            raise Unsupported('integer arithmetic on undef or float bits')
        mask = (1 << bits) - 1
        if op == 'add':
            return (a + b) & mask
        if op == 'sub':
            return (a - b) & mask
        if op == 'mul':
            return (a * b) & mask
        if op == 'and':
            return a & b
        if op == 'or':
            return a | b
        if op == 'xor':
            return a ^ b
        if op == 'shl':
            return (a << b) & mask if b < bits else 0
        if op == 'lshr':
            return a >> b
        if op == 'ashr':
            return (self.signed(a, bits) >> b) & mask
        if op == 'udiv':
            return a // b
        if op == 'urem':
            return a % b
        x, y = self.signed(a, bits), self.signed(b, bits)
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0):
            q = -q
        if op == 'sdiv':
            return q & mask
        if op == 'srem':
            return (x - q * y) & mask
        raise Unsupported(op)

    def cast(self, op, t, v, t2):
        if isinstance(v, SInt):
            if op == 'sext':
                return v
            if op == 'sitofp':
                return v.node
            v = self.concrete(v, t[1])
        if op == 'trunc':
            if isinstance(v, X.Node) or v is None:
                raise Unsupported('trunc of float bits')
            return v & ((1 << t2[1]) - 1)
        if op == 'zext':
            return v
        if op == 'sext':
            return self.signed(v, t[1]) & ((1 << t2[1]) - 1)
        if op in ('sitofp', 'uitofp'):
            if v is None:
                raise Unsupported('sitofp undef')
            return X.const(float(self.signed(v, t[1]) if op == 'sitofp' else v))
        if op in ('ptrtoint', 'inttoptr'):
            return v
        if op == 'bitcast':
            return self.conv(v, t2)
        if op == 'fptrunc':
            return X.f32(v)
        if op == 'fpext':
            return v
        raise Unsupported('cast ' + op)
