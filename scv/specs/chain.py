"""Contracts of src/spinchain.rs and src/spinchain_langevin.rs: dynamics and energies"""
from ..verify import *
from .spin import *

SC, SL = 'SpinChain', 'SpinChainLangevin'
NMOD = {SC: 'closed chain', SL: 'Langevin chain'}


def g_hsize(md):
    return md.rng.choice([2, 2, 4, 4, 6, 8, 10])


def g_real(lo, hi):
    return lambda md: md.rng.uniform(lo, hi)


def ivar(name, gen, lo=0):
    return var(name, I, gen, lambda: [le(ic(lo), var(name, I))])


def config(I, name='c.vars', big=False, any_beta=False):
    """a valid configuration: even chain, 2 <= subsystem <= chain, positive dt, tau, beta (any_beta: zero too)"""
    prog = I.prog
    sh = I.sh
    f = {}
    for fld, ty in sh.fields('Config'):
        n = name + '.' + fld
        if fld == 'hsize':
            half = ivar(name + '.half', lambda md: g_hsize(md) // 2)
            f[fld] = imulc(half, 2)
        elif fld == 'ssize':
            f[fld] = ivar(n, (lambda hn: lambda md: md.rng.randint(2, max(2, 2 * md.sym(hn))))(name + '.half'))
        elif fld in ('hfield', 'hs'):
            f[fld] = vec(n)
        elif fld in ('dt', 'tau', 'beta'):
            f[fld] = var(n, R, g_real(0.05, 3))
            if fld == 'beta' and any_beta:
                g = g_real(0.05, 3)
                TM.SYMS[n].gen = lambda md: md.rng.choice([0.0, 1e-9, 400.0, 2000.0]) if md.rng.random() < 0.15 else g(md)
        elif fld in ('jvar', 'hvar'):
            f[fld] = var(n, R, g_real(0, 1))
        else:
            f[fld] = sh.of(ty, n)
            if isinstance(f[fld], T) and f[fld].s == R:
                TM.SYMS[n].gen = nice()
    c = StructV('Config', f)
    L, S = f['hsize'], f['ssize']
    I.require(le(ic(2), L), le(ic(2), S), le(S, L))
    I.require(lt(ZERO, f['dt']), lt(ZERO, f['tau']), (le if any_beta else lt)(ZERO, f['beta']), le(ZERO, f['jvar']), le(ZERO, f['hvar']))
    return c


def chain(I, ty=SC, name='c'):
    """a well-formed chain: as many spins, couplings and fields as configured, unit spins"""
    cfg = config(I, name + '.vars')
    L = cfg.f['hsize']
    f = {}
    for fld, t in I.sh.fields(ty):
        n = name + '.' + fld
        if fld == 'vars':
            f[fld] = cfg
        elif fld in ('spins', 'j_couple', 'static_h'):
            et = t.g[0]
            f[fld] = Seq(None, L, (lambda et, n: lambda i: I.sh.indexed(et, n, i))(et, n), root=n)
            if fld != 'spins':
                for c in 'xyz':
                    if n + '.' + c not in TM.SYMS:
                        decl(n + '.' + c, R, (lambda n: lambda md, i: nice()(md))(n))
        else:
            f[fld] = I.sh.of(t, n)
            if isinstance(f[fld], T) and f[fld].s == R:
                TM.SYMS[n].gen = nice()
    if ty == SL:
        TM.SYMS[name + '.gamma'].gen = g_real(0, 2)
        I.require(le(ZERO, f['gamma']))
    c = StructV(ty, f)
    I.v[name] = c
    return c


class View:
    """convenient access to the state of a chain"""

    def __init__(self, c):
        self.c = c
        v = c.f['vars'].f
        self.L, self.S = v['hsize'], v['ssize']
        self.dt, self.tau, self.beta = v['dt'], v['tau'], v['beta']
        self.t = c.f['t']
        self.v = v

    def s(self, i):
        d = self.c.f['spins'].get(i).f['dir']
        return [d.get(ic(k)) for k in range(3)]

    def J(self, i):
        d = self.c.f['j_couple'].get(i)
        return [d.get(ic(k)) for k in range(3)]

    def h(self, i):
        d = self.c.f['static_h'].get(i)
        return [d.get(ic(k)) for k in range(3)]

    def nxt(self, i, n=None):
        n = self.L if n is None else n
        return ite(eq(i, isub(n, ic(1))), ic(0), iadd(i, ic(1)))

    def prv(self, i, n=None):
        n = self.L if n is None else n
        return ite(eq(i, ic(0)), isub(n, ic(1)), iadd(i, ic(-1)))

    def bond(self, i, n=None, s=None):
        """S_i J_i S_{i+1}"""
        s = s or self.s
        return dot(had(self.J(i), s(i)), s(self.nxt(i, n)))

    def insub(self, i):
        return lt(i, self.S)


def drive_t(prog, v, t, deriv=False):
    """the configured waveform at time t (or its derivative with respect to the phase)"""
    ph = rdiv(rmul(rc(2), PI, t), v['tau'])
    c, s = fn('cos', ph), fn('sin', ph)
    k = v['drive'].t
    names = [x[0] for x in prog.enums['DriveType'].vs]
    e = v['e']
    hs = [v['hs'].get(ic(i)) for i in range(3)]
    if not deriv:
        tab = {'xyplane': [c, s, ZERO], 'xyelliptic': [c, rmul(e, s), ZERO], 'uniaxial': [c, ZERO, ZERO], 'staticfield': hs, 'none': [ZERO] * 3}
    else:
        tab = {'xyplane': [rneg(s), c, ZERO], 'xyelliptic': [rneg(s), rmul(e, c), ZERO], 'uniaxial': [rneg(s), ZERO, ZERO],
               'staticfield': [ZERO] * 3, 'none': [ZERO] * 3}
    out = [ZERO] * 3
    for n in names:
        if n not in tab:
            raise Unsupported('drive type ' + n)
        out = [ite(eq(k, ic(names.index(n))), x, y) for x, y in zip(tab[n], out)]
    return out


def frame(pre, post, changed):
    """nothing outside `changed` is modified"""
    out = []
    for k in pre.f:
        if k in changed:
            continue
        if pre.f[k] is post.f[k]:
            continue
        out.append(eq_vals(pre.f[k], post.f[k]))
    return land(*out)


def even(i):
    return eq(imod(i, ic(2)), ic(0))


# ---------------------------------------------------------------- the splitting (C05)
def sweep(V, s, field, par, tm, rot=rot):
    """turn the sites of one parity about the local field field(i, s)"""
    def f(i):
        r = rot(s(i), field(i, s), tm)
        c = even(i) if par == 0 else lnot(even(i))
        return [ite(c, a, b) for a, b in zip(r, s(i))]
    return f


def local(V, ext):
    """coupling-weighted sum of the two (periodic) neighbours minus the external field"""
    def f(i, s):
        l, r = V.prv(i), V.nxt(i)
        return vsub(vadd(had(V.J(l), s(l)), had(V.J(i), s(r))), ext(i))
    return f


class Update(Unit):
    name, fns = 'SpinChain::update', ((SC, 'update'),)
    contracts = {('Spin', 'rotate'): c_rotate}
    needs = ('Spin::rotate',)
    static = True
    turn = staticmethod(rot)
    orders = (0,)   # orders of the random draws the step may use
    swap = 0

    def pre(self, I):
        chain(I)

    def run(self, X, I):
        h = X.obj(I.c)
        X.call((SC, self.fns[0][1]), h)
        return {'c': h}

    def ext(self, I, V):
        hd = drive_t(I.prog, V.v, radd(V.t, rmul(HALF, V.dt)))

        def f(i):
            d = [ite(V.insub(i), x, ZERO) for x in hd]
            return vadd(V.h(i), d) if self.static else d
        return f

    def spec(self, I, V):
        om = local(V, self.ext(I, V))
        a = sweep(V, V.s, om, 0, rmul(HALF, V.dt), self.turn)
        b = sweep(V, a, om, 1, V.dt, self.turn)
        return sweep(V, b, om, 0, rmul(HALF, V.dt), self.turn)

    def post(self, I, O):
        V, W = View(I.c), View(O['c'])
        out = [('sites', eq(O['c'].f['spins'].n, V.L))]
        # with several orders of drawing, both ends must agree on one
        for pars in (((0,), (1,)) if len(self.orders) == 1 else ((0, 1),)):
            for k, c in enumerate('xyz'):
                def claim(o):
                    self.swap = o
                    want = self.spec(I, V)

                    def g(j):
                        at = [iadd(imulc(j, 2), ic(par)) for par in pars]
                        return land(*[eq(W.s(i)[k], want(i)[k]) for i in at])
                    return Forall(ic(0), idiv(V.L, ic(2)), g)
                gs = [claim(o) for o in self.orders]
                self.swap = 0
                out.append(('%s sites.%s' % ('/'.join(('even', 'odd')[par] for par in pars), c), Alt(gs) if len(gs) > 1 else gs[0]))
        out.append(('clock', eq(W.t, radd(V.t, V.dt))))
        out.append(('frame', frame(I.c, O['c'], ('spins', 't'))))
        return out


class UpdateNoField(Update):
    name, fns = 'SpinChain::update_no_field', ((SC, 'update_no_field'),)
    static = False


UNITS = [Update, UpdateNoField]
