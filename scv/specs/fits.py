"""Contract of the mean-field temperature (C17)"""
from .chain import *
from ..verify import *

TOL = rc(Fr(1, 100))


def step(e, b):
    """1/(e + coth b)"""
    return rdiv(ONE, radd(e, rdiv(ONE, fn('tanh', b))))


class SolveBeta(Unit):
    """when the solver stops, its result is 1/(e + coth b) for a b within 0.01 of it"""
    ty = 'SpinChain'
    props = ('C17',)
    line_timeout = 20
    side = 'aux'

    def pre(self, I):
        I.v['e'] = var('e', R, lambda md: md.rng.choice([-0.9, -0.5, -0.1, md.rng.uniform(-0.97, -0.03)]))
        I.require(lt(rc(-1), I.e), lt(I.e, ZERO))

    def run(self, X, I):
        self.conc = X.concrete
        if not X.concrete:
            e = I.e

            def cands(v0):
                # either the loop has not run yet, or one of its variables is the step from another
                first = lambda v: land(*[eq(a, b) for a, b in zip(v, v0)])
                n = len(v0)
                return [(lambda i, j: lambda v: lor(first(v), eq(v[i], step(e, v[j]))))(i, j) for i in range(n) for j in range(n) if i != j] + \
                    [(lambda i: lambda v: lt(ZERO, v[i]))(i) for i in range(n)]
            X.en.invs = cands
        return {'r': X.call((self.ty, 'solve_beta'), I.e)}

    def post(self, I, O):
        r = O['r']
        if self.conc:
            # the step is increasing and continuous in b: a b within 0.01 exists iff r is between the steps from the ends
            return [('solves the energy equation', land(le(step(I.e, rsub(r, TOL)), r), le(r, step(I.e, radd(r, TOL))))), ('positive', lt(ZERO, r))]
        loops = [l for l in self.en.loops if 'after' in l]
        ws = loops[-1]['carried'] if loops else [r]
        stops = []
        if len(loops) == 1:
            # lemmas/MeanField.lean: such an iteration ends
            l = loops[0]
            v0, v, v1 = l['entry'], l['carried'], l['after']
            it = lambda i, j: land(eq(v0[i], rc(20)), lt(TOL, fn('abs', rsub(v0[i], v0[j]))),
                                   implies(land(*l['hyps']), land(eq(v1[j], v[i]), eq(v1[i], step(I.e, v[i])), lt(TOL, fn('abs', rsub(v[i], v[j]))))))
            self.en.assumed.discard('termination of the loop at line %d' % l['node'].line)
            stops = [('iterates b -> 1/(e + coth b) from 20 while consecutive values differ by more than 0.01', Alt([it(i, j) for i in range(len(v)) for j in range(len(v)) if i != j]), {'aux': True})]
        return stops + [('solves the energy equation', Alt([land(le(fn('abs', rsub(r, b)), TOL), eq(r, step(I.e, b))) for b in ws]), {'aux': True}), ('positive', lt(ZERO, r), {'aux': True})]


UNITS = [type('SolveBeta' + t, (SolveBeta,), dict(ty=t, name=t + '::solve_beta', fns=((t, 'solve_beta'),))) for t in ('SpinChain', 'SpinChainLangevin')]
