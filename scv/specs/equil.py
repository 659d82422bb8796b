"""One equilibrium of Monte Carlo and dynamics (C28): the energy a plain Monte Carlo update weighs is the
energy a time step of the undriven chain keeps, and every sweep of a time step preserves volume"""
from .laws import *
from .mc import H_plain


def undriven(I, V):
    names = [x[0] for x in I.prog.enums['DriveType'].vs]
    I.require(eq(V.v['drive'].t, ic(names.index('none'))))


class OneEnergy(Unit):
    """all energy functions of an undriven chain and both specifications are one function"""
    name = 'one energy of an undriven chain'
    fns = ((SC, 'mc_total_energy'), (SC, 'total_energy'), (SC, 'total_energy2'))

    def pre(self, I):
        chain(I)
        undriven(I, View(I.c))

    def run(self, X, I):
        h = X.obj(I.c)
        return {n: X.call((SC, n), h) for _, n in self.fns}

    def post(self, I, O):
        V = View(I.c)
        e = H_plain(V, V.s)
        out = [(n, eq(O[n], rdiv(e, toreal(V.L)))) for _, n in self.fns]
        return out + [('kept energy', eq(Sum(ic(0), V.L, site_energy(V, field_of(I, V), V.s)), e))]


class Volume(Unit):
    """turning about a common field keeps scalar and triple products, so it has determinant one"""
    name = 'turning preserves volume'
    fns = (('Spin', 'rotate'),)
    unfold = True

    def pre(self, I):
        I.v['f'] = vec('f')
        I.v['tm'] = var('tm', R, g_real(-3, 3))
        for n in 'abd':
            I.v[n] = unit_spin(n)

    def run(self, X, I):
        out = {}
        for n in 'abd':
            h = X.obj(I.v[n])
            X.call(('Spin', 'rotate'), h, I.f, I.tm)
            out[n] = h
        return out

    def post(self, I, O):
        a, b, d = [dir_(I.v[n]) for n in 'abd']
        p, q, r = [dir_(O[n]) for n in 'abd']
        return [('scalar product', eq(dot(p, q), dot(a, b))), ('triple product', eq(dot(p, cross(q, r)), dot(a, cross(b, d))))]


class Apart(Unit):
    """the neighbours whose spins enter a site's field belong to the other sweep"""
    name = 'sites of one sweep do not interact'
    trials = False

    def pre(self, I):
        chain(I)

    def run(self, X, I):
        return {}

    def post(self, I, O):
        V = View(I.c)
        par = lambda i: imod(i, ic(2))
        return [(n, Forall(ic(0), V.L, lambda i: lnot(eq(par(f(i)), par(i))))) for n, f in (('left', V.prv), ('right', V.nxt))]


UNITS = [OneEnergy, Volume, Apart]
