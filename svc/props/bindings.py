"""C19, C20: the foreign-language interfaces are the Rust functions."""
from ..solve import Case
from . import Prop
from .dispatch import INS, AB, FULL, FULLHS, DOM, hint_boxes

O = (-2147483648.0, 2147483647.0)
FULLX = dict(FULL, x=(-0.5, 1.5))


def cases(kind):
    def make(tier):
        cs = []
        for fn, ins in INS.items():
            B = dict(FULLX, **(FULLHS if fn == 'hs' else {}))
            f = lambda c, v, fn=fn: c.impl(fn, v['a'], v['b'], v['o'])
            if 'x' in ins:
                A = (0.0, 373.9) if fn == 'tx' else DOM[fn]['a']
                boxes = [('low', (B[ins[0]][0], A[0]), B['x']), ('high', (A[1], B[ins[0]][1]), B['x']), ('xlow', A, (-0.5, -1e-9)),
                         ('xhigh', A, (1 + 1e-9, 1.5)), ('liquid', A, (0.0, 0.0)), ('vapour', A, (1.0, 1.0)), ('wet', A, (1e-9, 1 - 1e-9))]
            else:
                boxes = [('all', B[ins[0]], B[ins[1]])]
            for tag, a, b in boxes:
                hints = [{'a': a, 'b': b}] + ([] if 'x' in ins else hint_boxes(fn, ins))
                cs.append(Case('%s.%s.%s' % (kind, fn, tag), fn, 'o', None, {'a': a, 'b': b, 'o': O}, AB, f, fold=True, glue=2, bind=kind,
                               max_paths=3000, hints=hints, weight=10))
        return cs
    return make


BOUNDS = ('all 12 functions, every output id of i32; inputs p -1..120 MPa, T -20..2100 C, h -50..7500 (h,s: 4200), s -0.1..14 (h,s: 9.3), '
          'v 1e-4..2000, x -0.5..1.5; property, region and iterative functions are uninterpreted, with x: the iteration of the saturation '
          'temperature is; at most 3000 paths a case. ')
PROPS = [Prop('C19', lambda t: cases('cdecl')(t) + cases('stdcall')(t),
              BOUNDS + 'The stdcall interface exists on 32-bit targets: its exported signatures and calling conventions are those of the i686 IR, '
              'its bodies are encoded from an x86-64 build with the convention replaced by C', bindings=('cdecl', 'stdcall')),
         Prop('C20', cases('py'), BOUNDS + 'The conversion of Python arguments and results by pyo3 is sampled, not encoded', bindings=('py',))]
