"""Contracts of the Monte Carlo updates (C11, C12) and of the effective energies (C13)"""
from .chain import *
from .energy import unit, Obs


# ------------------------------------------------------------- the energy functions of the ensembles
def H_plain(V, s, fields=True):
    def f(i):
        e = rneg(V.bond(i, None, s))
        return radd(e, dot(V.h(i), s(i))) if fields else e
    return Sum(ic(0), V.L, f)


def om(V):
    return rdiv(rmul(rc(2), PI), V.tau)


def H_maglab(V, s):
    def f(i):
        return rsub(rneg(V.bond(i, None, s)), rdiv(s(i)[2], rmul(rc(2), om(V))))
    return Sum(ic(0), V.L, f)


def trip(z, x, i):
    return rmul(i[2], radd(rmul(z[0], x[0]), rmul(z[1], x[1])))


def mg_rot(V, s):
    """pairs and triples of the first order rotating frame Magnus term, each once"""
    def f(i):
        l, r = V.prv(i), V.nxt(i)
        D = lambda j: rsub(V.J(j)[1], V.J(j)[0])
        a, b, c = s(l), s(i), s(r)
        return radd(rmul(D(i), D(i), radd(trip(b, b, c), trip(c, c, b))),
                    rmul(D(l), D(i), radd(trip(c, a, b), trip(a, c, b))))
    return Sum(ic(0), V.L, f)


def H_rot(V, s):
    def f(i):
        a, b, J = s(i), s(V.nxt(i)), V.J(i)
        jp = rmul(HALF, radd(J[0], J[1]))
        e = radd(rmul(jp, radd(rmul(a[0], b[0]), rmul(a[1], b[1]))), rmul(J[2], a[2], b[2]))
        return add(rneg(e), rneg(rmul(om(V), a[2])), ite(V.insub(i), a[0], ZERO))
    return rsub(Sum(ic(0), V.L, f), rdiv(mg_rot(V, s), rmul(rc(16), om(V))))


def H_magnus(V, s):
    def f(i):
        l, r = V.prv(i), V.nxt(i)
        A = vadd(had(V.J(l), s(l)), had(V.J(i), s(r)))
        m = radd(s(i)[2], rmul(rc(2), rsub(rmul(A[2], s(i)[0]), rmul(A[0], s(i)[2]))))
        return rsub(rneg(V.bond(i, None, s)), ite(V.insub(i), rmul(rdiv(PI, V.tau), m), ZERO))
    return Sum(ic(0), V.L, f)


def H_full(V, s):
    """second order in the inverse frequency, whole chain driven"""
    w = om(V)

    def A(i):
        l, r = V.prv(i), V.nxt(i)
        return vadd(had(V.J(l), s(l)), had(V.J(i), s(r)))

    def W(i):
        a, x = A(i), s(i)
        return [None, rsub(rmul(a[2], x[0]), rmul(a[0], x[2])), rsub(rmul(a[0], x[1]), rmul(a[1], x[0]))]

    def f(i):
        l, r = V.prv(i), V.nxt(i)
        a, x, y, J = A(i), s(i), s(r), V.J(i)
        h1 = rneg(radd(rmul(HALF, x[2]), rmul(rsub(J[2], J[0]), radd(rmul(x[0], y[2]), rmul(x[2], y[0])))))
        h2 = rmul(HALF, x[0])
        for co, j, k in ((HALF, 1, 2), (HALF, 2, 1), (rc(Fr(3, 2)), 0, 2), (rc(Fr(3, 2)), 2, 0)):
            h2 = rsub(h2, rmul(co, J[j], x[k], y[k]))
        t1 = rsub(rmul(a[0], dot(x, a)), rmul(x[0], norm2(a)))
        wl, wr = W(l), W(r)
        Jl = V.J(l)
        t2 = rsub(rmul(wl[1], Jl[1], x[2]), rmul(wl[2], Jl[2], x[1]))
        t3 = rsub(rmul(wr[1], J[1], x[2]), rmul(wr[2], J[2], x[1]))
        return add(rneg(V.bond(i, None, s)), rdiv(h1, w), rdiv(add(h2, t1, t2, t3), rmul(w, w)))
    return Sum(ic(0), V.L, f)


class Metropolis(Unit):
    """one Metropolis step with respect to an energy function of the whole chain"""
    ty = SC
    fn = ''
    minlen = 2
    draws = 3

    def pre(self, I):
        chain(I, self.ty)
        V = View(I.c)
        if self.minlen > 2:
            I.require(le(ic(self.minlen), V.L))
        I.require(*self.more(V))

    def more(self, V):
        return []

    def run(self, X, I):
        h = X.obj(I.c)
        X.call((self.ty, self.fn), h)
        return {'c': h}

    def H(self, V, s):
        raise NotImplementedError

    def change(self, V, i, new):
        s1 = lambda j: [ite(eq(j, i), a, b) for a, b in zip(new, V.s(j))]
        return rsub(self.H(V, s1), self.H(V, V.s))

    # the draws are independent and equally distributed: any order of drawing them is as good
    orders = ((0, 1, 2), (1, 0, 2), (1, 2, 0), (2, 1, 0))

    def proposal(self, o=(0, 1, 2)):
        u0, u1 = app('U01', ic(o[0])), app('U01', ic(o[1]))
        th = rmul(rc(2), PI, u0)
        z = rsub(ONE, rmul(rc(2), u1))
        sn = fn('sqrt', rsub(ONE, rmul(z, z)))
        return [rmul(sn, fn('cos', th)), rmul(sn, fn('sin', th)), z]

    def post(self, I, O):
        V, W = View(I.c), View(O['c'])
        i = app('Gidx', ic(0), V.L)

        def chosen(o):
            new = self.proposal(o)
            de = self.change(V, i, new)
            acc = lor(lt(de, ZERO), lt(app('U01', ic(o[2])), fn('exp', rneg(rmul(V.beta, de)))))
            return land(*[eq(W.s(i)[k], ite(acc, new[k], V.s(i)[k])) for k in range(3)])
        out = [('sites', eq(O['c'].f['spins'].n, V.L)), ('chosen site', Alt([chosen(o) for o in self.orders]))]
        for k, c in enumerate('xyz'):
            def g(j):
                return lor(eq(j, i), eq(W.s(j)[k], V.s(j)[k]))
            out.append(('other sites.' + c, Forall(ic(0), V.L, g)))
        out.append(('frame', frame(I.c, O['c'], ('spins',))))
        return out


class McClosed(Metropolis):
    def H(self, V, s):
        return H_plain(V, s)


class McLangevin(Metropolis):
    def H(self, V, s):
        return H_plain(V, s, False)


class McMaglab(Metropolis):
    minlen = 3

    def H(self, V, s):
        return H_maglab(V, s)


class McRot(Metropolis):
    minlen = 3
    timeout = 600
    item_timeout = 300
    cost = 5

    def H(self, V, s):
        return H_rot(V, s)


class McFull(Metropolis):
    minlen = 3
    timeout = 600
    item_timeout = 300
    cost = 9

    def more(self, V):
        return [eq(V.S, V.L)]

    def H(self, V, s):
        return H_full(V, s)


class McMagnus(Metropolis):
    minlen = 3

    def H(self, V, s):
        return H_magnus(V, s)


class EnergyRot(Obs):
    def pre(self, I):
        chain(I, self.ty)
        I.require(le(ic(3), View(I.c).L))

    def value(self, I, V):
        return rdiv(H_rot(V, V.s), toreal(V.L))


class EnergyMaglab(EnergyRot):
    def value(self, I, V):
        return rdiv(H_maglab(V, V.s), toreal(V.L))


UNITS = [unit(EnergyRot, SC, 'mc_system_energy_rot'), unit(EnergyMaglab, SC, 'mc_system_energy_maglab')]
UNITS += [unit(McMaglab, SC, 'metropolis_update_maglab'), unit(McRot, SC, 'metropolis_update_rot_magnus'),
         unit(McMagnus, SC, 'metropolis_update_magnus'), unit(McMagnus, SL, 'metropolis_update_magnus'), unit(McFull, SC, 'metropolis_update_mag_full'),
         unit(McClosed, SC, 'metropolis_update'), unit(McLangevin, SL, 'metropolis_update')]
