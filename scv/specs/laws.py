"""Laws of the time steps: unit spins (C01), energy (C06), reversibility (C07)"""
from .chain import *
from .energy import unit, TotalEnergy
from .langevin import LUpdate


class Reversible(Update):
    name = 'SpinChain::update there and back'
    contracts = {('Spin', 'rotate'): c_turn}
    needs = ('Spin::rotate there and back', 'Spin::rotate (length)')

    def run(self, X, I):
        h = X.obj(I.c)
        X.call((SC, 'update'), h)
        X.set(h, ('vars', 'dt'), rneg(View(I.c).dt))
        X.call((SC, 'update'), h)
        return {'c': h}

    def post(self, I, O):
        V, W = View(I.c), View(O['c'])
        out = [('sites', eq(O['c'].f['spins'].n, V.L)), ('clock', eq(W.t, V.t))]
        for par in (0, 1):
            for k, c in enumerate('xyz'):
                def g(j):
                    i = iadd(imulc(j, 2), ic(par))
                    return eq(W.s(i)[k], V.s(i)[k])
                out.append(('%s sites.%s' % (('even', 'odd')[par], c), Forall(ic(0), idiv(V.L, ic(2)), g)))
        return out


UNITS = [Reversible]


# ------------------------------------------------------------------ energy (C06)
def field_of(I, V):
    """external field when the drive does not depend on time"""
    names = [x[0] for x in I.prog.enums['DriveType'].vs]
    hs = [V.v['hs'].get(ic(k)) for k in range(3)]
    st = eq(V.v['drive'].t, ic(names.index('staticfield')))

    def f(i):
        return vadd(V.h(i), [ite(land(st, V.insub(i)), x, ZERO) for x in hs])
    return f


def site_energy(V, h, s):
    return lambda i: radd(rneg(V.bond(i, None, s)), dot(h(i), s(i)))


def static_drive(I, V):
    names = [x[0] for x in I.prog.enums['DriveType'].vs]
    k = V.v['drive'].t
    I.require(lor(*[eq(k, ic(names.index(x))) for x in ('none', 'staticfield') if x in names]))


class SweepEnergy(Unit):
    """turning the sites of one parity about their local fields keeps the energy of any state:
    the change of the energy of the first i sites is D(i), and D(0) = D(L) = 0"""
    par = 0
    trials = False
    needs = ('Spin::rotate (length and axis component)',)

    def pre(self, I):
        chain(I)
        I.v['tm'] = var('tm', R, g_real(-3, 3))

    def run(self, X, I):
        return {}

    def post(self, I, O):
        V = View(I.c)
        h = field_of(I, V)
        om = local(V, h)
        a = sweep(V, V.s, om, self.par, I.tm, turn)
        db = lambda i: rsub(V.bond(i, None, a), V.bond(i, None, V.s))
        last = db(isub(V.L, ic(1)))
        hit = (lambda i: even(i)) if self.par == 0 else (lambda i: lnot(even(i)))

        def D(i):
            # bonds leading into a turned site are charged to it only when it is reached
            if self.par == 0:
                return rsub(last, ite(hit(i), db(ite(eq(i, ic(0)), isub(V.L, ic(1)), iadd(i, ic(-1)))), ZERO))
            return rneg(ite(hit(i), db(iadd(i, ic(-1))), ZERO))
        e0, e1 = site_energy(V, h, V.s), site_energy(V, h, a)

        def step(par):
            def g(j):
                i = iadd(imulc(j, 2), ic(par))
                axis = eq(dot(turn(V.s(i), om(i, V.s), I.tm), om(i, V.s)), dot(V.s(i), om(i, V.s)))
                go = eq(rsub(e1(i), e0(i)), rsub(D(iadd(i, ic(1))), D(i)))
                return implies(axis, go) if par == self.par else go
            return Forall(ic(0), idiv(V.L, ic(2)), g)
        return [('start', eq(D(ic(0)), ZERO)), ('end', eq(D(V.L), ZERO)), ('step at even sites', step(0)), ('step at odd sites', step(1))]


class EvenSweepEnergy(SweepEnergy):
    name = 'energy of an even sweep'
    par = 0


class OddSweepEnergy(SweepEnergy):
    name = 'energy of an odd sweep'
    par = 1


class Conserve(Update):
    """with a static drive the step is three such sweeps, so the energy is unchanged"""
    name = 'SpinChain::update keeps the energy'
    contracts = {('Spin', 'rotate'): c_turn}
    turn = staticmethod(turn)
    needs = ('Spin::rotate (length and axis component)', 'energy of an even sweep', 'energy of an odd sweep')

    def pre(self, I):
        chain(I)
        static_drive(I, View(I.c))

    def ext(self, I, V):
        return field_of(I, V)

    def post(self, I, O):
        V, W = View(I.c), View(O['c'])
        # sufficient conditions: the step is some sequence of sweeps
        out = [(n, g, {'sufficient': True}) for n, g in Update.post(self, I, O) if n not in ('clock', 'frame')]
        h = field_of(I, V)
        for k in ('j_couple', 'static_h', 'vars'):
            out.append(('unchanged ' + k, eq_vals(I.c.f[k], O['c'].f[k]), {'sufficient': True}))
        E = lambda X: Sum(ic(0), V.L, site_energy(V, h, X.s))
        out.append(('energy', eq(E(W), E(V)), {'derived': True}))
        return out


UNITS += [EvenSweepEnergy, OddSweepEnergy, Conserve]


# ------------------------------------------------------------------ unit spins (C01)
class KeepsUnit(Unit):
    """every spin stays a unit vector"""
    ty = SC
    fn = ''
    minlen = 2
    contracts = {('Spin', 'rotate'): c_turn}
    needs = ('Spin::rotate (length)',)
    side = False        # index ranges etc. are C24's

    def pre(self, I):
        chain(I, self.ty)
        if self.minlen > 2:
            I.require(le(ic(self.minlen), View(I.c).L))

    def run(self, X, I):
        h = X.obj(I.c)
        X.call((self.ty, self.fn), h)
        return {'c': h}

    def post(self, I, O):
        V, W = View(I.c), View(O['c'])
        out = [('sites', eq(O['c'].f['spins'].n, V.L))]
        for par in (0, 1):
            def g(j):
                i = iadd(imulc(j, 2), ic(par))
                return unit_vec(W.s(i))
            out.append(('%s sites are unit vectors' % ('even', 'odd')[par], Forall(ic(0), idiv(V.L, ic(2)), g)))
        return out


class KeepsUnitMc(KeepsUnit):
    draws = 3
    needs = ()

    def post(self, I, O):
        V, W = View(I.c), View(O['c'])
        return [('sites', eq(O['c'].f['spins'].n, V.L)), ('sites are unit vectors', Forall(ic(0), V.L, lambda i: unit_vec(W.s(i))))]


def keeps(base, ty, fn, **kw):
    return unit(base, ty, fn, **dict(kw, name='%s::%s keeps unit spins' % (ty, fn)))


UNITS += [keeps(KeepsUnit, SC, 'update'), keeps(KeepsUnit, SC, 'update_no_field'), keeps(KeepsUnit, SL, 'update', draws=6),
          keeps(KeepsUnitMc, SC, 'metropolis_update'), keeps(KeepsUnitMc, SL, 'metropolis_update'),
          keeps(KeepsUnitMc, SC, 'metropolis_update_magnus'), keeps(KeepsUnitMc, SL, 'metropolis_update_magnus')]
UNITS += [keeps(KeepsUnitMc, SC, 'metropolis_update_' + x) for x in ('maglab', 'rot_magnus', 'mag_full')]
