"""Contracts of the constructors (C04)"""
from .chain import *
from ..verify import *
from .energy import unit

# direction returned by rot_perp: a unit vector at the requested angle
for _c in 'xyz':
    if 'rp.' + _c not in TM.SYMS:
        decl('rp.' + _c, R, unit=('rp', _c))


def rp_gen(md, th, ph, dx, dy, dz, a):
    import math
    o = (math.cos(th) * math.sin(ph), math.sin(th) * math.sin(ph), math.cos(ph))
    d = (dx, dy, dz)
    k = sum(x * y for x, y in zip(o, d))
    p = [y - k * x for x, y in zip(o, d)]
    n = math.sqrt(sum(x * x for x in p))
    if n < 1e-12:
        raise EvalError('degenerate direction')
    p = [x / n for x in p]
    cr = (p[1] * o[2] - p[2] * o[1], p[2] * o[0] - p[0] * o[2], p[0] * o[1] - p[1] * o[0])
    return tuple(math.cos(a) * x + math.sin(a) * y for x, y in zip(o, cr))


for _i, _c in enumerate('xyz'):
    TM.SYMS['rp.' + _c].gen = (lambda i: lambda md, *a: rp_gen(md, *a)[i])(_i)
    TM.SYMS['rp.' + _c].unit = ('rp', _c)


def c_rot_perp(en, args, node):
    """Spin::rot_perp at a call site: the angles of a unit vector rp at the requested angle from the old one"""
    o, d, a = en.val(args[0]), en.val(args[1]), args[2]
    k = [o.get(ic(0)), o.get(ic(1)), d.get(ic(0)), d.get(ic(1)), d.get(ic(2)), en.val(a)]
    r = [app('rp.' + c, *k) for c in 'xyz']
    en.ccalls.append((k, en.kvar))
    en.assumed.add('Spin::rot_perp')
    return Seq([fn('atan2', r[1], r[0]), fn('acos', r[2])])


class RotPerpAngles(Unit):
    """the contract of rot_perp as its callers use it"""
    name, fns = 'Spin::rot_perp (canonical angles)', (('Spin', 'rot_perp'),)
    contracts = {('Spin', 'rotate'): c_turn}
    needs = ('Spin::rotate (length)',)
    side = False
    trials = False      # a representation, not a property: angles of the same direction would do

    def pre(self, I):
        I.v['old'] = Seq([var('th0', R, ang), var('ph0', R, ang)])
        I.v['dir'] = vec('d')
        I.v['a'] = var('alpha', R, lambda md: md.rng.uniform(-3, 3))
        I.require(lt(ZERO, norm2(gs_def(from_angles(*I.old.el), I.dir.el))))

    def run(self, X, I):
        return {'r': X.call(('Spin', 'rot_perp'), I.old, I.dir, I.a)}

    def post(self, I, O):
        d = from_angles(*O['r'].el)
        return [('azimuth', eq(O['r'].get(ic(0)), fn('atan2', d[1], d[0])), {'soft': True}), ('polar angle', eq(O['r'].get(ic(1)), fn('acos', d[2])), {'soft': True})]


for _c in 'xyz':
    if 'rq.' + _c not in TM.SYMS:
        decl('rq.' + _c, R, unit=('rq', _c))


def abstract(t):
    """generalise a goal: the results of rot_perp and the values carried by the loop become arbitrary
    (a unit vector, reals), one for each distinct argument list"""
    seen = {}

    def go(x, memo={}):
        if not isinstance(x, T):
            return x
        if x.op == 'app' and x.a[0][:3] in ('rp.', 'it_'):
            k = seen.setdefault((x.a[0][:3] == 'it_' and x.a[0],) + tuple(x.a[1:]), len(seen))
            if x.a[0][:3] == 'rp.':
                return app('rq.' + x.a[0][3:], ic(k))
            nm = 'carried%d' % k
            if nm not in TM.SYMS:
                decl(nm, x.s)
            return app(nm)
        return rebuild(x, go)
    return go(t)


def en_recs(U):
    en = getattr(U, 'en', None)
    return list(en.recs.items()) if en is not None else []


def unroll(t, m):
    """replace values carried by the loop by what the previous iteration computed (once)"""
    def go(x):
        if x in m:
            return m[x]
        return rebuild(x, go)
    return go(t)


class NewChain(Unit):
    ty, fn = SC, 'new'
    contracts = {('Spin', 'rot_perp'): c_rot_perp}
    needs = ('Spin::rot_perp', 'Spin::rot_perp (canonical angles)')
    side = False

    def pre(self, I):
        I.v['conf'] = config(I, 'conf', any_beta=True)
        I.v['num'] = ivar('num', lambda md: md.rng.randint(0, 50))
        if self.ty == SL:
            I.v['gamma'] = var('gamma', R, g_real(0, 1))
        self.more(I)

    def more(self, I):
        pass

    def run(self, X, I):
        a = [I.conf, I.num] + ([I.gamma] if self.ty == SL else [])
        r = X.call((self.ty, 'new'), *a)
        return {'r': r, 'files': X.created()}

    def cosine(self, I, i, d=2, stable=True):
        """inverse transform of a uniform number: exp(beta cos) is uniform between its ends (the
        cosine itself is at infinite temperature); the two ways to write it are equal
        (stable_form in lemmas/InitialAngle.lean)"""
        b = I.conf.f['beta']
        u = app('U01', iadd(imulc(i, 3), ic(d)))   # d: which of the three draws of the site
        if stable:
            c = radd(ONE, rdiv(fn('ln', radd(ONE, rmul(u, rsub(fn('exp', rmul(rc(-2), b)), ONE)))), b))
        else:
            e1, e0 = fn('exp', b), fn('exp', rneg(b))
            c = rdiv(fn('ln', rsub(e1, rmul(u, rsub(e1, e0)))), b)
        return ite(eq(b, ZERO), rsub(ONE, rmul(rc(2), u)), c)

    def post(self, I, O):
        self.inp = I
        c = I.conf.f
        W = View(O['r'])
        f = O['r'].f
        L, S = c['hsize'], c['ssize']
        hf = [c['hfield'].get(ic(k)) for k in range(3)]
        hs = [c['hs'].get(ic(k)) for k in range(3)]
        base = [ONE, ONE, c['lambda']]
        out = [('as many spins as configured', eq(f['spins'].n, L)), ('as many couplings as configured', eq(f['j_couple'].n, L)),
               ('as many fields as configured', eq(f['static_h'].n, L)), ('start time', eq(W.t, rneg(c['trel']))),
               ('configuration kept', eq_vals(I.conf, f['vars']))]
        z = lambda i: [radd(hf[k], ite(lt(i, S), hs[k], ZERO)) for k in range(3)]
        out.append(('couplings without spread', implies(eq(c['jvar'], ZERO), Forall(ic(0), L, lambda i: veq(W.J(i), base)))))
        out.append(('fields without spread', implies(eq(c['hvar'], ZERO), Forall(ic(0), L, lambda i: veq(W.h(i), z(i))))))

        def N_(off, i, k):
            return app('N01', iadd(off, iadd(imulc(i, 3), ic(k))))
        for k, ch in enumerate('xyz'):
            out.append(('coupling noise.' + ch, Alt([Forall(ic(0), L, lambda i: eq(W.J(i)[k], radd(base[k], rmul(c['jvar'], N_(o, i, k))))) for o in (ic(0), imulc(L, 3))])))
            out.append(('field noise.' + ch, Alt([Forall(ic(0), L, lambda i: eq(W.h(i)[k], radd(z(i)[k], rmul(c['hvar'], N_(o, i, k))))) for o in (imulc(L, 3), ic(0))])))
        path = StrV(tuple(c['file'].parts) + (('arg', I.num, ''), '.dat'))
        if self.ty == SL:
            out.append(('gamma', eq(f['gamma'], I.gamma)))
            out.append(('log file', files_are(O['files'], (TRUE, path))))
        else:
            out.append(('log file', files_are(O['files'], (c['log'], path))))
            out.append(('log handle', iff(f['file'].some, c['log'])))

        def unitv(i):
            return abstract(implies(self.facts(i), unit_vec(W.s(i))))
        out.append(('spins have unit length', Forall(ic(0), L, unitv), {'soft': True}))

        def angle(d, st):
            def f(j):
                i = iadd(j, ic(1))
                g = implies(self.facts(i, d, st), eq(dot(W.s(i), W.s(j)), self.cosine(I, i, d, st)))
                # i >= 1: the values carried into iteration i are those computed in iteration i-1
                return abstract(unroll(g, {app(nm, i): rec(j) for nm, rec in en_recs(self)}))
            return Forall(ic(0), isub(L, ic(1)), f)
        out.append(('angle to the previous spin', Alt([angle(d, st) for d in (2, 0, 1) for st in (True, False)]), {'soft': True}))
        return out

    def facts(self, i, d=2, stable=True):
        """the contract of rot_perp in iteration i"""
        en = getattr(self, 'en', None)
        if en is None:
            return TRUE
        out = []
        for k, at in en.ccalls[-1:]:
            a = [subst(x, {at: i}) if at is not None else x for x in k]
            r = [app('rp.' + c, *a) for c in 'xyz']
            out.append(eq(dot(r, from_angles(a[0], a[1])), fn('cos', a[5])))
        # lemma cos_range (lemmas/InitialAngle.lean)
        c = self.cosine(self.inp, i, d, stable)
        out += [le(rc(-1), c), le(c, ONE)]
        return land(*out)


UNITS = [RotPerpAngles, unit(NewChain, SC, 'new'), unit(NewChain, SL, 'new')]
