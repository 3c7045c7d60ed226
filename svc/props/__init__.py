"""The properties and their obligations."""
from importlib import import_module

ASSUMPTIONS = [
    'f64 operations are encoded as exact real arithmetic (rounding, overflow and NaN inputs are outside the claim); '
    'branches on constants use IEEE values',
    'constants of code and reference that agree to 7e-12 relative are identified',
    'radicands and bases of fractional powers are non-negative, denominators are nonzero',
    'LLVM IR is produced by rustc 1.99.1 at opt-level 0 without overflow checks; rustc and the IR interpreter are trusted',
    'points within a relative margin of 1e-9 of a computed boundary, and exact ties at it, are outside the claim',
]


class Prop:
    def __init__(self, id, cases, bounds, assumptions=(), bindings=()):
        self.bindings = bindings      # foreign-language interfaces the cases need
        self.id, self.cases, self.bounds, self.assumptions = id, cases, bounds, list(assumptions)


PROPS = {}
for _m in ('forward', 'backward', 'saturation', 'regions', 'dispatch', 'pairs', 'bindings', 'inverse'):
    try:
        _mod = import_module('svc.props.' + _m)
    except ModuleNotFoundError as x:
        if x.name != 'svc.props.' + _m:
            raise
        continue
    for _p in _mod.PROPS:
        PROPS[_p.id] = _p
