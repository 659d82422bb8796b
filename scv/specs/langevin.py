"""Contract of the Langevin time step (C14)"""
from .chain import *
from .energy import unit


def cross(a, b):
    return [rsub(rmul(a[1], b[2]), rmul(a[2], b[1])), rsub(rmul(a[2], b[0]), rmul(a[0], b[2])), rsub(rmul(a[0], b[1]), rmul(a[1], b[0]))]


class LUpdate(Update):
    name, fns = 'SpinChainLangevin::update', ((SL, 'update'),)
    draws = 6
    # the noises of the two ends are independent and equally distributed: either may be drawn first
    orders = (0, 1)

    def pre(self, I):
        chain(I, SL)

    def run(self, X, I):
        h = X.obj(I.c)
        X.call((SL, 'update'), h)
        return {'c': h}

    def field(self, I, V):
        hd = drive_t(I.prog, V.v, radd(V.t, V.dt))
        g = I.c.f['gamma']
        swap = self.swap
        sig = fn('sqrt', rdiv(rmul(rc(2), g, V.dt), V.beta))
        last = isub(V.L, ic(1))

        def h(i):
            return vadd(V.h(i), [ite(V.insub(i), x, ZERO) for x in hd])

        def f(i, s):
            l, r = V.prv(i), V.nxt(i)
            jl, jr = had(V.J(l), s(l)), had(V.J(i), s(r))
            inner = vsub(vadd(jl, jr), h(i))

            def end(om, k):
                kick = [rdiv(rmul(sig, app('N01', ic(3 * (k ^ swap) + c))), V.dt) for c in range(3)]
                return vsub(vsub(om, smul(g, cross(s(i), om))), kick)
            a = end(vsub(jr, h(i)), 0)
            b = end(vsub(jl, h(i)), 1)
            return [ite(eq(i, ic(0)), x, ite(eq(i, last), y, z)) for x, y, z in zip(a, b, inner)]
        return f

    def spec(self, I, V):
        om = self.field(I, V)
        a = sweep(V, V.s, om, 0, rmul(HALF, V.dt))
        b = sweep(V, a, om, 1, V.dt)
        return sweep(V, b, om, 0, rmul(HALF, V.dt))


UNITS = [LUpdate]
