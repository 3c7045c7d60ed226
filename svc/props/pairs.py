"""C17: every property of an input pair is the property of one thermodynamic state."""
from .. import ref as F
from ..solve import Case
from . import Prop
from .dispatch import EXP, AB, INS, DOM

ID = F.O_ID
NAMES = F.THERMO + F.TRANSPORT
# state variables of a case are cut: bounds of the region
TB = {1: (273.15, 623.15), 2: (273.15, 1073.15), 5: (1073.15, 2273.15), 3: (623.15, 863.15)}
PB = {1: (1e-4, 100.0), 2: (1e-5, 100.0), 5: (1e-5, 50.0), 3: (16.0, 100.1)}
VB = (0.00125, 0.0126)


def state(fn, r, n):
    ins = INS[fn]

    def f(c, v):
        a, b = v['a'], v['b']

        def get(m, lo, hi, off=0.0):
            """Input or property m of the state, a free variable from here on."""
            if m in ins:
                return v['ab'[ins.index(m)]] + off
            y = c.impl(fn, a, b, ID[m], r)
            return c.cut(y + off if off else y, 'cut' + m, lo, hi)
        T = get('T', *TB[r], off=273.15)
        if r == 3:
            vv = 1.0 / get('d', 79.0, 800.0) if fn in ('th', 'ts') else get('v', *VB)
            return c.impl('tv', c.toC(T), vv, ID[n], 3)
        return c.impl('pt', get('p', *PB[r]), c.toC(T), ID[n], r)
    return f


def cases(tier):
    cs = []
    for fn, ins in INS.items():
        if 'x' in ins or fn == 'pt':
            continue
        for r in (1, 2, 3, 5):
            if (fn, r) == ('tv', 3):
                continue
            box = {'a': EXP[r][ins[0]], 'b': EXP[r][ins[1]]}
            for n in NAMES:
                if n in ins or (n == 'd' and 'v' in ins):
                    continue
                cs.append(Case('%s.%s.r%d' % (fn, n, r), fn, ID[n], r, box, AB, state(fn, r, n), fold=True, max_paths=200))
    # (h,s): temperature and volume are those of (p,h) at the pressure of (h,s)
    for r in (1, 2, 3, 5):
        for n in ('T', 'v') if r == 3 else ('T',):
            def f(c, v, r=r, n=n):
                p = c.cut(c.impl('hs', v['a'], v['b'], ID['p'], r), 'cutp', *PB[r])
                return c.impl('ph', p, v['a'], ID[n], r)
            cs.append(Case('hs.%s.r%d' % (n, r), 'hs', ID[n], r, {'a': EXP[r]['h'], 'b': EXP[r]['s']}, AB, f, fold=True))
    # (h,x), (s,x): the saturated or wet state at their temperature
    for fn in ('hx', 'sx'):
        for tag, x in (('wet', (1e-6, 1 - 1e-6)), ('liquid', (0.0, 0.0)), ('vapour', (1.0, 1.0))):
            for n in ['p'] + NAMES:
                if n == fn[0] or n in ('betap', 'alfap'):
                    continue

                def f(c, v, fn=fn, n=n):
                    T = c.cut(c.impl(fn, v['a'], v['b'], ID['T']) + 273.15, 'cutT', 273.15, 647.0959)
                    return c.impl('tx', c.toC(T), v['b'], ID[n])
                cs.append(Case('%s.%s.%s' % (fn, n, tag), fn, ID[n], None, {'a': DOM[fn]['a'], 'b': x}, AB, f, fold=True, max_paths=200))
    return cs


PROPS = [Prop('C17', cases, 'the input boxes EXP of svc/props/dispatch.py for each region and pair, every state and transport property; iterative '
              'functions uninterpreted; the state found by the code (p, T, v) is a free variable of the region (cut), so the property is '
              'decided for every state the code could find; (h,x), (s,x): x = 0, x = 1 and 1e-6..1-1e-6; at most 200 paths a case')]
