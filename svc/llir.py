"""Parser for the textual LLVM IR that rustc emits (opt-level 0, no vectors).

Only what rustc emits for scalar numeric code is accepted; anything else makes
the parser or the executor raise Unsupported, never guess.
"""
import re
import struct


class Unsupported(Exception):
    pass


# ---------------------------------------------------------------- types
# int types: ('i', bits); double: 'd'; float: 'f'; ptr: 'p'; void: 'v'
# arrays: ('a', n, t); structs: ('s', (t...), packed)

def size_align(t):
    if t == 'd' or t == 'p':
        return 8, 8
    if t == 'f':
        return 4, 4
    k = t[0]
    if k == 'i':
        b = t[1]
        n = 1
        while n * 8 < b:
            n *= 2
        return n, min(n, 16)
    if k == 'a':
        s, a = size_align(t[2])
        return s * t[1], a
    if k == 's':
        off = 0
        al = 1
        for e in t[1]:
            s, a = size_align(e)
            if t[2]:
                a = 1
            off = (off + a - 1) // a * a + s
            al = max(al, a)
        return (off + al - 1) // al * al, al
    raise Unsupported('size of %r' % (t,))


def field_off(t, i):
    off = 0
    for j, e in enumerate(t[1]):
        s, a = size_align(e)
        if t[2]:
            a = 1
        off = (off + a - 1) // a * a
        if j == i:
            return off
        off += s
    raise Unsupported('field')


TOK = re.compile(r'''
   \s+
 | (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<id>[%@](?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>!(?:[-a-zA-Z$._0-9]+|\{))
 | (?P<attr>\#\d+)
 | (?P<num>-?\d+\.\d+(?:e[-+]?\d+)?|f?0x[0-9A-Fa-f]+|-?\d+)
 | (?P<word>[a-zA-Z_$.][-a-zA-Z0-9_.$]*)
 | (?P<dots>\.\.\.)
 | (?P<punct>[(){}\[\]<>,=*:|])
''', re.X)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m:
            if s[pos] == ';':
                break
            raise Unsupported('token at %r' % s[pos:pos + 60])
        pos = m.end()
        k = m.lastgroup
        if k:
            out.append((k, m.group(k)))
    return out


class P:
    """Token cursor."""

    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self, k=0):
        j = self.i + k
        return self.t[j][1] if j < len(self.t) else None

    def kind(self):
        return self.t[self.i][0] if self.i < len(self.t) else None

    def next(self):
        v = self.t[self.i]
        self.i += 1
        return v[1]

    def expect(self, s):
        v = self.next()
        if v != s:
            raise Unsupported('expected %r got %r' % (s, v))

    def accept(self, s):
        if self.peek() == s:
            self.i += 1
            return True
        return False

    def type(self):
        v = self.next()
        if v == 'double':
            return 'd'
        if v == 'float':
            return 'f'
        if v == 'ptr':
            return 'p'
        if v == 'void':
            return 'v'
        if re.fullmatch(r'i\d+', v):
            return ('i', int(v[1:]))
        if v == '[':
            n = int(self.next())
            self.expect('x')
            t = self.type()
            self.expect(']')
            return ('a', n, t)
        if v == '<':
            if self.peek() == '{':
                self.next()
                t = self._struct(True)
                self.expect('>')
                return t
            raise Unsupported('vector type')
        if v == '{':
            return self._struct(False)
        if v[0] == '%':
            t = self.mod.types.get(v)
            if isinstance(t, str):      # parsed on first use
                t = self.mod.types[v] = P(tokenize(t), self.mod).type()
            if t is None:
                raise Unsupported('opaque type %s' % v)
            return t
        raise Unsupported('type %r' % v)

    def _struct(self, packed):
        ts = []
        if self.accept('}'):
            return ('s', (), packed)
        while True:
            ts.append(self.type())
            if self.accept('}'):
                return ('s', tuple(ts), packed)
            self.expect(',')

    ATTRS = {'noundef', 'nonnull', 'noalias', 'nocapture', 'readonly', 'writeonly', 'readnone', 'signext', 'zeroext',
             'immarg', 'inreg', 'returned', 'noreturn', 'nounwind', 'writable', 'dead_on_unwind', 'dead_on_return',
             'nofree', 'allocptr'}

    def skip_attrs(self):
        """Skip parameter attributes; returns the sret type if there is one."""
        while True:
            v = self.peek()
            if v in self.ATTRS:
                self.i += 1
            elif v == 'align':
                self.i += 1
                if self.accept('('):
                    self.next()
                    self.expect(')')
                else:
                    self.i += 1
            elif v in ('sret', 'byval', 'dereferenceable', 'dereferenceable_or_null', 'captures', 'range',
                       'initializes', 'nofpclass', 'elementtype'):
                self.i += 1
                if self.accept('('):
                    d = 1
                    while d:
                        x = self.next()
                        d += (x == '(') - (x == ')')
            else:
                return

    def value(self, t):
        """A constant or register operand of type t -> ('r', name) / ('g', name) / ('c', value)."""
        k = self.kind()
        v = self.next()
        if k == 'id':
            return ('r', v) if v[0] == '%' else ('g', v)
        if k == 'num':
            if t == 'd':
                return ('c', parse_double(v))
            if t == 'f':
                return ('c', parse_double(v))
            return ('c', int(v, 0) & ((1 << t[1]) - 1))
        if v == 'true':
            return ('c', 1)
        if v == 'false':
            return ('c', 0)
        if v in ('poison', 'undef'):
            return ('u', t)
        if v == 'null':
            return ('c', 0)
        if v == 'zeroinitializer':
            return ('z', t)
        if v == 'getelementptr':
            while self.peek() in ('inbounds', 'nuw', 'nusw'):
                self.next()
            self.expect('(')
            bt = self.type()
            self.expect(',')
            pt = self.type()
            base = self.value(pt)
            idx = []
            while self.accept(','):
                it = self.type()
                idx.append((it, self.value(it)))
            self.expect(')')
            return ('gep', bt, base, idx)
        if v == '{' or v == '[' or v == '<':
            elems = []
            close = {'{': '}', '[': ']', '<': '>'}[v]
            inner = False
            if v == '<':
                self.expect('{')
                inner = True
                close = '}'
            while not self.accept(close):
                et = self.type()
                elems.append((et, self.value(et)))
                self.accept(',')
            if inner:
                self.expect('>')
            return ('agg', elems)
        if k == 'str':
            return ('b', unescape(v[2:-1]))
        raise Unsupported('value %r' % v)


def parse_double(v):
    if v.startswith('f'):
        v = v[1:]
    if v.startswith('0x'):
        return struct.unpack('>d', int(v, 16).to_bytes(8, 'big'))[0]
    return float(v)


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        c = s[i]
        if c == '\\' and s[i + 1:i + 2] == '\\':
            out.append(0x5c)
            i += 2
        elif c == '\\':
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(ord(c))
            i += 1
    return bytes(out)


class Func:
    __slots__ = ('name', 'ret', 'params', 'blocks', 'lines', 'mod', 'entry', 'human', 'key')


class Module:
    def __init__(self):
        self.types = {}
        self.globals = {}   # name -> (type, init text tokens) lazily decoded
        self.funcs = {}
        self.declares = set()


def parse_module(text, mod=None):
    """Parse text into mod (a new Module by default)."""
    mod = mod or Module()
    human = None
    lines = text.split('\n')
    i = 0
    n = len(lines)
    while i < n:
        ln = lines[i]
        if ln.startswith('%') and ' = type ' in ln:
            name, rest = ln.split(' = type ', 1)
            mod.types[name] = None if rest.strip() == 'opaque' else rest
        elif ln.startswith('@'):
            m = re.match(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = ', ln)
            mod.globals[m.group(1)] = ln[m.end():]
        elif ln.startswith('; ') and not ln.startswith('; Function Attrs'):
            human = ln[2:].strip()
        elif ln.startswith('define '):
            f = Func()
            f.mod = mod
            f.human = human
            f.key = None
            m = re.search(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+))\(', ln)
            f.name = m.group(1)
            body = []
            i += 1
            while lines[i] != '}':
                body.append(lines[i])
                i += 1
            f.lines = (ln, body)
            f.blocks = None
            mod.funcs[f.name] = f
        elif ln.startswith('declare '):
            m = re.search(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+))\(', ln)
            mod.declares.add(m.group(1))
        i += 1
    return mod


def parse_func(f):
    """Parse a function body on first use."""
    if f.blocks is not None:
        return
    head, body = f.lines
    m = re.search(re.escape(f.name) + r'\(', head)
    pre = head[:m.start()]
    p = P(tokenize(head[m.end():]), f.mod)
    f.params = []
    while not p.accept(')'):
        t = p.type()
        p.skip_attrs()
        nm = p.next() if p.kind() == 'id' else None
        f.params.append((t, nm))
        p.accept(',')
    # return type: last type in pre
    toks = tokenize(pre)
    rp = P(toks, f.mod)
    # skip linkage words until a type parses
    while True:
        v = rp.peek()
        if v in ('double', 'float', 'ptr', 'void', '[', '{', '<') or re.fullmatch(r'i\d+', v) or v.startswith('%"'):
            break
        if v in ('range', 'dereferenceable'):
            rp.next()
            if rp.accept('('):
                d = 1
                while d:
                    x = rp.next()
                    d += (x == '(') - (x == ')')
            continue
        rp.next()
    f.ret = rp.type()
    blocks = {}
    cur = None
    curname = None
    j = 0
    while j < len(body):
        ln = body[j]
        j += 1
        if not ln or ln.startswith(';'):
            continue
        if not ln.startswith(' '):
            m = re.match(r'("[^"]*"|[-a-zA-Z$._0-9]+):', ln)
            nm = '%' + m.group(1)
            cur = []
            blocks[nm] = cur
            if curname is None:
                f.entry = nm
            curname = nm
            continue
        if cur is None:
            cur = []
            f.entry = '%0'
            curname = f.entry
            blocks[curname] = cur
        s = ln.strip()
        if s.startswith('switch'):
            while not s.rstrip().endswith(']') and not re.search(r'\](,.*)?$', s.rstrip()):
                s += ' ' + body[j].strip()
                j += 1
        elif s.startswith('invoke') or re.match(r'%\S+ = invoke', s):
            s += ' ' + body[j].strip()
            j += 1
        elif 'landingpad' in s:
            while j < len(body) and body[j].startswith('          '):
                j += 1
            cur.append(('unsupported', 'landingpad'))
            continue
        try:
            cur.append(parse_instr(s, f.mod))
        except Unsupported as e:
            cur.append(('unsupported', '%s in %s' % (e, s[:120])))
    f.blocks = blocks


BIN_I = {'add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'}
BIN_F = {'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'trunc', 'zext', 'sext', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'bitcast', 'ptrtoint', 'inttoptr', 'fpext',
         'fptrunc'}
FLAGS = {'nsw', 'nuw', 'exact', 'inbounds', 'nneg', 'disjoint', 'tail', 'notail', 'musttail', 'nusw', 'samesign'}
FASTFLAGS = {'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'}


def parse_call(p, op):
    while p.peek() in ('tail', 'notail', 'musttail', 'fastcc', 'coldcc', 'ccc', 'x86_stdcallcc', 'x86_fastcallcc'):
        p.next()
    while p.peek() in FASTFLAGS:
        p.next()
    p.skip_attrs()
    rt = p.type()
    if p.peek() == '(':      # function type
        raise Unsupported('varargs call')
    callee = p.value('p')
    p.expect('(')
    args = []
    while not p.accept(')'):
        t = p.type()
        p.skip_attrs()
        args.append((t, p.value(t)))
        p.accept(',')
    return rt, callee, args


def parse_instr(s, mod):
    p = P(tokenize(s), mod)
    dst = None
    if p.kind() == 'id' and p.peek(1) == '=':
        dst = p.next()
        p.next()
    op = p.next()
    if op in ('tail', 'notail', 'musttail'):
        op = p.next()
    if op in BIN_I:
        while p.peek() in FLAGS:
            p.next()
        t = p.type()
        a = p.value(t)
        p.expect(',')
        return ('bini', dst, op, t, a, p.value(t))
    if op in BIN_F:
        while p.peek() in FASTFLAGS:
            raise Unsupported('fast-math flag')
        t = p.type()
        a = p.value(t)
        p.expect(',')
        return ('binf', dst, op, t, a, p.value(t))
    if op == 'fneg':
        t = p.type()
        return ('fneg', dst, t, p.value(t))
    if op == 'fcmp':
        pred = p.next()
        t = p.type()
        a = p.value(t)
        p.expect(',')
        return ('fcmp', dst, pred, t, a, p.value(t))
    if op == 'icmp':
        while p.peek() in FLAGS:
            p.next()
        pred = p.next()
        t = p.type()
        a = p.value(t)
        p.expect(',')
        return ('icmp', dst, pred, t, a, p.value(t))
    if op == 'alloca':
        t = p.type()
        return ('alloca', dst, size_align(t)[0])
    if op == 'load':
        t = p.type()
        p.expect(',')
        p.type()
        return ('load', dst, t, p.value('p'))
    if op == 'store':
        t = p.type()
        v = p.value(t)
        p.expect(',')
        p.type()
        return ('store', t, v, p.value('p'))
    if op == 'getelementptr':
        while p.peek() in FLAGS:
            p.next()
        bt = p.type()
        p.expect(',')
        p.type()
        base = p.value('p')
        idx = []
        while p.accept(','):
            it = p.type()
            idx.append((it, p.value(it)))
        return ('gep', dst, bt, base, idx)
    if op == 'br':
        if p.accept('label'):
            return ('jmp', p.next())
        p.type()
        c = p.value(('i', 1))
        p.expect(',')
        p.expect('label')
        a = p.next()
        p.expect(',')
        p.expect('label')
        return ('br', c, a, p.next())
    if op == 'switch':
        t = p.type()
        v = p.value(t)
        p.expect(',')
        p.expect('label')
        d = p.next()
        p.expect('[')
        cases = {}
        while not p.accept(']'):
            ct = p.type()
            cv = p.value(ct)
            p.expect(',')
            p.expect('label')
            cases[cv[1]] = p.next()
        return ('switch', t, v, d, cases)
    if op == 'ret':
        t = p.type()
        if t == 'v':
            return ('ret', 'v', None)
        return ('ret', t, p.value(t))
    if op == 'call':
        rt, callee, args = parse_call(p, op)
        return ('call', dst, rt, callee, args, None)
    if op == 'invoke':
        rt, callee, args = parse_call(p, op)
        while p.peek() != 'to':
            p.next()
        p.next()
        p.expect('label')
        return ('call', dst, rt, callee, args, p.next())
    if op == 'extractvalue':
        t = p.type()
        v = p.value(t)
        idx = []
        while p.accept(','):
            idx.append(int(p.next()))
        return ('extract', dst, v, tuple(idx))
    if op == 'insertvalue':
        t = p.type()
        v = p.value(t)
        p.expect(',')
        et = p.type()
        ev = p.value(et)
        idx = []
        while p.accept(','):
            idx.append(int(p.next()))
        return ('insert', dst, t, v, ev, tuple(idx))
    if op == 'select':
        ct = p.type()
        c = p.value(ct)
        p.expect(',')
        t = p.type()
        a = p.value(t)
        p.expect(',')
        t2 = p.type()
        return ('select', dst, c, t, a, p.value(t2))
    if op == 'phi':
        while p.peek() in FASTFLAGS:
            p.next()
        t = p.type()
        inc = {}
        while p.accept('['):
            v = p.value(t)
            p.expect(',')
            inc[p.next()] = v
            p.expect(']')
            p.accept(',')
        return ('phi', dst, t, inc)
    if op in CASTS:
        while p.peek() in FLAGS:
            p.next()
        t = p.type()
        v = p.value(t)
        p.expect('to')
        return ('cast', dst, op, t, v, p.type())
    if op == 'freeze':
        t = p.type()
        return ('freeze', dst, p.value(t))
    if op == 'unreachable':
        return ('unreachable',)
    raise Unsupported('instruction %s' % op)
