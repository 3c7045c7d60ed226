"""C01-C05, C09: the region equations reached with an explicit region."""
from .. import ref as F
from ..solve import Case
from . import Prop

PARAMS = {1: {'T': ('inv', 'y1', 1386.0, 1.222), 'p': ('aff', 'x1', -16.53, (7.1, 16.53))},
          2: {'T': ('inv', 'y2', 540.0, 0.5)}, 5: None}
# validity boxes of the equations (wider than the regions themselves)
BOX = {1: {'p': (0.0006, 100.0), 'T': (273.15, 623.15)}, 2: {'p': (1e-5, 100.0), 'T': (273.15, 1073.15)},
       5: {'p': (1e-5, 50.0), 'T': (1073.15, 2273.15)}}
BOX3 = {'d': (80.0, 780.0), 'T': (623.15, 863.15)}


def gibbs(reg, names):
    return [Case('r%d.%s' % (reg, n), 'pt', F.O_ID[n], reg, BOX[reg], lambda v: [v['p'], v['T'] - 273.15],
                 lambda c, v, n=n: F.prop(c, F.G(c, reg, v['p'], v['T']), n), tvars=('T',), params=PARAMS[reg])
            for n in names]


def helm(names):
    return [Case('r3.%s' % n, 'tv', F.O_ID[n], 3, BOX3, lambda v: [v['T'] - 273.15, 1.0 / v['d']],
                 lambda c, v, n=n: F.prop(c, F.H(c, v['T'], v['d']), n), tvars=('T',)) for n in names]


def v3(tier):
    box = {'p': (16.5291642526045, 100.0), 'T': (623.15, 863.15)}
    cs = []
    cuts = [16.5291642526045, 20.5, 21.0434, 22.0, 22.064, 22.11, 22.5, 23.0, 23.5, 25.0, 40.0, 100.0]
    for lo, hi in zip(cuts, cuts[1:]):
        for n in ('v', 'd'):
            f = (lambda c, v: F.v_pT3(c, v['p'], v['T'])) if n == 'v' else (lambda c, v: 1.0 / F.v_pT3(c, v['p'], v['T']))
            cs.append(Case('v3.%s[%g,%g]' % (n, lo, hi), 'pt', F.O_ID[n], 3, {'p': (lo, hi), 'T': box['T']},
                           lambda v: [v['p'], v['T'] - 273.15], f, tvars=('T',), weight=5))
    for n in [x for x in F.THERMO + F.TRANSPORT if x not in ('v', 'd')]:
        def f(c, v, n=n):
            vv = c.impl('pt', v['p'], c.toC(v['T']), F.O_ID['v'], 3)
            return F.prop(c, F.H(c, v['T'], 1.0 / vv), n)
        cs.append(Case('v3.%s' % n, 'pt', F.O_ID[n], 3, box, lambda v: [v['p'], v['T'] - 273.15], f, tvars=('T',), weight=6))
    return cs


def box_text(b):
    return ', '.join('%s in [%g, %g]' % (k, lo, hi) for k, (lo, hi) in b.items())


PROPS = [
    Prop('C01', lambda t: gibbs(1, F.THERMO), 'all real ' + box_text(BOX[1]) + '; no loop bound needed (fixed tables)'),
    Prop('C02', lambda t: gibbs(2, F.THERMO), 'all real ' + box_text(BOX[2])),
    Prop('C03', lambda t: helm(['p'] + F.THERMO), 'all real ' + box_text(BOX3)),
    Prop('C04', lambda t: gibbs(5, F.THERMO), 'all real ' + box_text(BOX[5])),
    Prop('C05', v3, 'all real p in [16.5291642526045, 100], T in [623.15, 863.15]'),
    Prop('C09', lambda t: gibbs(1, F.TRANSPORT) + gibbs(2, F.TRANSPORT) + gibbs(5, F.TRANSPORT) + helm(F.TRANSPORT),
         'the boxes of C01-C04'),
]
