"""Contracts of the energy, magnetisation, drive and boundary observables (C08, C09, C10, C15)"""
from .chain import *


class Obs(Unit):
    """a function of an unchanged chain"""
    ty = SC
    fn = ''
    args = ()

    def pre(self, I):
        chain(I, self.ty)

    def run(self, X, I):
        h = X.obj(I.c)
        r = X.call((self.ty, self.fn), h, *self.args)
        return {'r': r, 'c': h}

    def value(self, I, V):
        raise NotImplementedError

    def post(self, I, O):
        V = View(I.c)
        w = self.value(I, V)
        out = []
        if isinstance(w, list):
            out.append(('components', eq(O['r'].n if isinstance(O['r'].n, T) else ic(O['r'].n), ic(len(w)))))
            for k, x in enumerate(w):
                out.append(('value.%s' % 'xyz'[k], eq(O['r'].get(ic(k)), x)))
        else:
            out.append(('value', eq(O['r'], w)))
        out.append(('frame', frame(I.c, O['c'], ())))
        return out


def unit(base, ty_, fn_, **kw):
    d = dict(ty=ty_, fn=fn_, name='%s::%s' % (ty_, fn_), fns=((ty_, fn_),))
    d.update(kw)
    return type(fn_ + '_' + ty_, (base,), d)


class TotalEnergy(Obs):
    drive = True

    def value(self, I, V):
        e = Sum(ic(0), V.L, lambda i: radd(rneg(V.bond(i)), dot(V.h(i), V.s(i))))
        if self.drive:
            hd = drive_t(I.prog, V.v, V.t)
            e = radd(e, Sum(ic(0), V.S, lambda i: dot(hd, V.s(i))))
        return rdiv(e, toreal(V.L))


class McTotalEnergy(TotalEnergy):
    drive = False


class SystemEnergy(Obs):
    def value(self, I, V):
        hd = drive_t(I.prog, V.v, V.t)
        n1 = isub(V.S, ic(1))
        e = Sum(ic(0), n1, lambda i: radd(rneg(dot(had(V.J(i), V.s(i)), V.s(iadd(i, ic(1))))), dot(vadd(V.h(i), hd), V.s(i))))
        return rdiv(e, toreal(n1))


class McSystemEnergy(Obs):
    def value(self, I, V):
        e = Sum(ic(0), V.S, lambda i: radd(rneg(V.bond(i, V.S)), dot(V.h(i), V.s(i))))
        return rdiv(e, toreal(V.S))


class Mag(Obs):
    tot = False

    def value(self, I, V):
        n = V.L if self.tot else V.S
        return [Sum(ic(0), n, (lambda k: lambda i: V.s(i)[k])(k)) for k in range(3)]


class MagTot(Mag):
    tot = True


class Drive(Obs):
    deriv = False

    def pre(self, I):
        chain(I, self.ty)
        I.v['tt'] = var('tt', R, g_real(-5, 5))

    def run(self, X, I):
        h = X.obj(I.c)
        r = X.call((self.ty, self.fn), h, I.tt)
        return {'r': r, 'c': h}

    def value(self, I, V):
        return drive_t(I.prog, V.v, I.tt, self.deriv)


class DriveP(Drive):
    deriv = True


class Boundary(Obs):
    def value(self, I, V):
        if self.ty == SL:
            hd = drive_t(I.prog, V.v, V.t)
            h = lambda i: hd
            g = I.c.f['gamma']
        else:
            h = V.h
            g = ONE
        l, r = ic(0), isub(V.S, ic(1))
        o1 = vsub(had(V.J(l), V.s(ic(1))), h(l))
        o2 = vsub(had(V.J(isub(V.S, ic(2))), V.s(isub(V.S, ic(2)))), h(r))
        a, b = dot(o1, V.s(l)), dot(o2, V.s(r))
        out = rsub(rdiv(rmul(rc(2), g, radd(a, b)), V.beta),
                   rmul(g, radd(rsub(rmul(norm2(V.s(l)), norm2(o1)), rmul(a, a)), rsub(rmul(norm2(V.s(r)), norm2(o2)), rmul(b, b)))))
        if self.ty == SL:
            hp = drive_t(I.prog, V.v, V.t, True)
            m = [Sum(ic(0), V.S, (lambda k: lambda i: V.s(i)[k])(k)) for k in range(3)]
            out = radd(out, rdiv(rmul(rc(2), PI, dot(hp, m)), V.tau))
        return out


class Spectrum(Obs):
    """squared Fourier amplitudes, momenta -pi + 2 pi q / L in order"""
    draws = 0

    def post(self, I, O):
        V = View(I.c)
        L, r = V.L, O['r']
        h = idiv(L, ic(2))
        out = [('length', eq(r.n, L))]
        for part in (0, 1):
            def g(q, part=part):
                # momentum q: Fourier index q + L/2 modulo L
                i = iadd(q, h) if part == 0 else q
                at = q if part == 0 else iadd(q, h)
                tot = ZERO
                for c in range(3):
                    ph = lambda j: rdiv(rmul(rc(2), PI, toreal(i), toreal(j)), toreal(L))
                    re = Sum(ic(0), L, lambda j: rmul(V.s(j)[c], fn('cos', ph(j))))
                    im = Sum(ic(0), L, lambda j: rmul(V.s(j)[c], fn('sin', ph(j))))
                    tot = radd(tot, rmul(re, re), rmul(im, im))
                return eq(r.get(at), tot)
            out.append((('momenta below zero', 'momenta from zero')[part], Forall(ic(0), h, g)))
        out.append(('frame', frame(I.c, O['c'], ())))
        return out


UNITS = [unit(Spectrum, SC, 'energy_spectrum')]
for ty in (SC, SL):
    UNITS += [unit(TotalEnergy, ty, 'total_energy'), unit(TotalEnergy, ty, 'total_energy2'), unit(SystemEnergy, ty, 'system_energy'),
              unit(Mag, ty, 'm'), unit(MagTot, ty, 'm_tot'), unit(Drive, ty, 'h_ext'), unit(DriveP, ty, 'h_extp'), unit(Boundary, ty, 'boundary_term')]
UNITS += [unit(McTotalEnergy, SC, 'mc_total_energy'), unit(McSystemEnergy, SC, 'mc_system_energy')]
