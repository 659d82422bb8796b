"""No panics, index or domain errors (C24): every public operation of a spin or a chain, executed from its
body under the requires of its contract, with only the engine's own obligations (index range, integer
overflow, zero divisors, domains of roots, logarithms and arc functions, unwrap and panic) to discharge"""
from ..verify import *
import math
from . import spin, chain, energy, mc, langevin, build, logs


def walk_nan(vals):
    return any(isinstance(v, float) and math.isnan(v) for v in vals.values())


class _none:
    def post(self, I, O):
        if getattr(self, 'en', None) is not None:
            return []
        # real runs: a domain error shows as a value that is not a number
        return [('results are numbers', pycond(lambda m: not walk_nan(m.vals)))]

    def lemmas(self, I, O):
        return []


def mk_safe():
    out, seen = [], set()
    for m in (spin, chain, energy, mc, langevin, build, logs):
        for U in m.UNITS:
            if any(f in seen for f in U.fns) or U.fns in seen:
                continue
            seen.update(U.fns)
            nm = '+'.join('::'.join(f) for f in U.fns) + ' is safe'
            extra = {}
            if m is mc:
                # every even chain, not only those on which the effective Hamiltonians are defined
                extra['pre'] = lambda self, I: chain.chain(I, self.ty)
            out.append(type('Safe', (_none, U), dict(name=nm, side=True, needs=tuple(n for n in U.needs if n == 'Spin::rot_perp'), trials=True, draws=getattr(U, 'draws', 0), **extra)))
    return out


UNITS = mk_safe()
