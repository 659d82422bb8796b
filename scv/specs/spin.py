"""Contracts of src/spin.rs"""
from ..verify import *

F64 = N('path', 0, segs=['f64'], g=[])
SPIN = N('path', 0, segs=['Spin'], g=[])


def nice(scale=2.0):
    """values for sampling: generic, with zeros and axis-aligned cases now and then"""
    def g(md):
        r = md.rng.random()
        if r < 0.12:
            return 0.0
        if r < 0.2:
            return md.rng.choice([1.0, -1.0])
        return md.rng.uniform(-scale, scale)
    return g


def vec(name, gen=None):
    return Seq([var('%s.%s' % (name, c), R, gen or nice()) for c in 'xyz'])


def spin_gen(md):
    import math
    r = md.rng.random()
    if r < 0.3:
        return md.rng.choice([(1., 0., 0.), (-1., 0., 0.), (0., 1., 0.), (0., -1., 0.), (0., 0., 1.), (0., 0., -1.)])
    v = [md.rng.gauss(0, 1) for _ in range(3)]
    if r < 0.5:
        v[md.rng.randrange(3)] = 0.0
    n = math.sqrt(sum(x * x for x in v)) or 1.0
    return tuple(x / n for x in v)


def unit_spin(name):
    """a spin of length one (requires)"""
    for c in 'xyz':
        n = name + '.' + c
        if n not in TM.SYMS:
            decl(n, R, unit=(name, c))
    return StructV('Spin', {'dir': Seq([app(name + '.' + c) for c in 'xyz'])})


TM.UNITGEN['*spin'] = spin_gen


# ------------------------------------------------------------------ contracts as used by callers
def c_rotate(en, args, node):
    """Spin::rotate at a call site: the result is the specification function rot (unit preserving)"""
    r, f, dt = args[0], en.val(args[1]), en.val(args[2])
    if not isinstance(r, RefV):
        return NotImplemented
    s = en.val(r)
    d = s.f['dir']
    fe = [f.get(ic(i)) for i in range(3)]
    new = rot([d.get(ic(i)) for i in range(3)], fe, dt)
    en.write(r, s.with_('dir', Seq(new)))
    en.assumed.add('Spin::rotate')
    return UNIT


def c_turn(en, args, node):
    """Spin::rotate at a call site, of which only length, axis component and turning back are used"""
    r, f, dt = args[0], en.val(args[1]), en.val(args[2])
    if not isinstance(r, RefV):
        return NotImplemented
    s = en.val(r)
    d = s.f['dir']
    en.write(r, s.with_('dir', Seq(turn([d.get(ic(i)) for i in range(3)], [f.get(ic(i)) for i in range(3)], dt))))
    en.assumed.add('Spin::rotate (weak laws)')
    return UNIT


class New(Unit):
    name, fns = 'Spin::new', (('Spin', 'new'),)

    def pre(self, I):
        pass

    def run(self, X, I):
        return {'r': X.call(('Spin', 'new'))}

    def post(self, I, O):
        d = dir_(O['r'])
        return [('default-direction', veq(d, [ONE, ZERO, ZERO])), ('unit', unit_vec(d))]


class Default(New):
    name, fns = 'Spin::default', (('Spin', 'default'),)

    def run(self, X, I):
        return {'r': X.call(('Spin', 'default'))}


class NewXyz(Unit):
    name, fns = 'Spin::new_xyz', (('Spin', 'new_xyz'),)

    def pre(self, I):
        I.v['a'] = vec('a')
        I.require(lt(ZERO, norm2(I.a.el)))

    def run(self, X, I):
        return {'r': X.call(('Spin', 'new_xyz'), I.a)}

    def post(self, I, O):
        d, a = dir_(O['r']), I.a.el
        n = sqrt(norm2(a))
        return [('unit', unit_vec(d)), ('direction', veq(d, [rdiv(x, n) for x in a]))]


def from_angles(th, ph):
    c, s = (lambda x: fn('cos', x)), (lambda x: fn('sin', x))
    return [rmul(c(th), s(ph)), rmul(s(th), s(ph)), c(ph)]


def ang(md):
    return md.rng.choice([0.0, math.pi / 2, md.rng.uniform(-7, 7), md.rng.uniform(-7, 7)])


class NewAngles(Unit):
    name, fns = 'Spin::new_from_angles', (('Spin', 'new_from_angles'),)

    def pre(self, I):
        I.v['th'], I.v['ph'] = var('theta', R, ang), var('phi', R, ang)

    def run(self, X, I):
        return {'r': X.call(('Spin', 'new_from_angles'), I.th, I.ph)}

    def post(self, I, O):
        d = dir_(O['r'])
        return [('unit', unit_vec(d)), ('direction', veq(d, from_angles(I.th, I.ph)))]


class SetAngles(Unit):
    name, fns = 'Spin::set_angles', (('Spin', 'set_angles'),)

    def pre(self, I):
        I.v['s'] = unit_spin('s')
        I.v['th'], I.v['ph'] = var('theta', R, ang), var('phi', R, ang)

    def run(self, X, I):
        h = X.obj(I.s)
        X.call(('Spin', 'set_angles'), h, I.th, I.ph)
        return {'s': h}

    def post(self, I, O):
        d = dir_(O['s'])
        return [('unit', unit_vec(d)), ('direction', veq(d, from_angles(I.th, I.ph)))]


class Xyz(Unit):
    name, fns = 'Spin::xyz', (('Spin', 'xyz'),)

    def pre(self, I):
        I.v['s'] = unit_spin('s')

    def run(self, X, I):
        return {'r': X.call(('Spin', 'xyz'), I.s)}

    def post(self, I, O):
        r = O['r']
        return [('length', eq(r.n, ic(3))), ('coordinates', veq([r.get(ic(i)) for i in range(3)], dir_(I.s)))]


class AnglesRoundTrip(Unit):
    name = 'Spin::theta+phi round trip'
    fns = (('Spin', 'theta'), ('Spin', 'phi'))

    def pre(self, I):
        I.v['s'] = unit_spin('s')

    def run(self, X, I):
        th, ph = X.call(('Spin', 'theta'), I.s), X.call(('Spin', 'phi'), I.s)
        return {'th': th, 'ph': ph}

    def post(self, I, O):
        d = from_angles(O['th'], O['ph'])
        s = dir_(I.s)
        return [('direction.' + c, eq(d[i], s[i])) for i, c in enumerate('xyz')]


def gs_def(old, perp):
    k = rdiv(dot(perp, old), norm2(old))
    return vsub(perp, smul(k, old))


class Gs(Unit):
    name, fns = 'Spin::gs', (('Spin', 'gs'),)

    def pre(self, I):
        I.v['old'], I.v['perp'] = vec('old'), vec('perp')
        I.require(lt(ZERO, norm2(I.old.el)), lt(ZERO, norm2(gs_def(I.old.el, I.perp.el))))

    def run(self, X, I):
        return {'r': X.call(('Spin', 'gs'), I.old, I.perp)}

    def post(self, I, O):
        r, o, p = O['r'].el, I.old.el, I.perp.el
        g = gs_def(o, p)
        n = sqrt(norm2(g))
        return [('unit', unit_vec(r)), ('orthogonal', eq(dot(r, o), ZERO)),
                ('direction', veq(r, [rdiv(x, n) for x in g]))]


class RotPerp(Unit):
    name, fns = 'Spin::rot_perp', (('Spin', 'rot_perp'),)
    contracts = {('Spin', 'rotate'): c_rotate}
    needs = ('Spin::rotate',)
    unfold = True

    def pre(self, I):
        I.v['old'] = Seq([var('th0', R, ang), var('ph0', R, ang)])
        I.v['dir'] = vec('d')
        I.v['a'] = var('alpha', R, lambda md: md.rng.uniform(-3, 3))
        o = from_angles(*I.old.el)
        I.require(lt(ZERO, norm2(gs_def(o, I.dir.el))))

    def run(self, X, I):
        return {'r': X.call(('Spin', 'rot_perp'), I.old, I.dir, I.a)}

    def post(self, I, O):
        o = from_angles(*I.old.el)
        g = gs_def(o, I.dir.el)
        n = sqrt(norm2(g))
        p = [rdiv(x, n) for x in g]
        c, s = fn('cos', I.a), fn('sin', I.a)
        want = vadd(smul(c, o), smul(s, cross(p, o)))
        got = from_angles(*O['r'].el)
        return [('direction.' + ch, eq(got[i], want[i])) for i, ch in enumerate('xyz')] + \
               [('angle between the specified direction and the old one', eq(dot(want, o), c)), ('specified direction is a unit vector', unit_vec(want))]


class Rotate(Unit):
    """full contract of Spin::rotate: s' = s cos θ + f (f.s)(1 - cos θ) - (f x s) sin θ"""
    name, fns = 'Spin::rotate', (('Spin', 'rotate'),)

    def pre(self, I):
        I.v['s'] = unit_spin('s')
        I.v['f'] = vec('f')
        I.v['dt'] = var('dt', R, lambda md: md.rng.choice([0.0, md.rng.uniform(-3, 3), md.rng.uniform(-3, 3)]))

    def run(self, X, I):
        h = X.obj(I.s)
        X.call(('Spin', 'rotate'), h, I.f, I.dt)
        return {'s': h}

    def post(self, I, O):
        d = dir_(O['s'])
        want = rot_def(dir_(I.s), I.f.el, I.dt)
        return [('precession.' + c, eq(d[i], want[i])) for i, c in enumerate('xyz')]


class RotateWeak(Rotate):
    """what conservation of length and of energy need of Spin::rotate"""
    name = 'Spin::rotate (length and axis component)'

    def post(self, I, O):
        d = dir_(O['s'])
        return [('unit', unit_vec(d)), ('axis component', eq(dot(d, I.f.el), dot(dir_(I.s), I.f.el)))]


class RotateUnit(Rotate):
    name = 'Spin::rotate (length)'

    def post(self, I, O):
        return [('unit', unit_vec(dir_(O['s'])))]


class RotateBack(Rotate):
    """rotating back by the opposite time restores the spin; zero field = identity"""
    name = 'Spin::rotate there and back'

    def run(self, X, I):
        h = X.obj(I.s)
        X.call(('Spin', 'rotate'), h, I.f, I.dt)
        X.call(('Spin', 'rotate'), h, I.f, rneg(I.dt))
        return {'s': h}

    def post(self, I, O):
        return [('restored.' + c, eq(dir_(O['s'])[i], dir_(I.s)[i])) for i, c in enumerate('xyz')] + \
               []


class RotateZero(Rotate):
    name = 'Spin::rotate in a zero field'

    def pre(self, I):
        Rotate.pre(self, I)
        I.v['f'] = Seq([ZERO, ZERO, ZERO])

    def post(self, I, O):
        return [('unchanged', veq(dir_(O['s']), dir_(I.s)))]


UNITS = [New, Default, NewXyz, NewAngles, SetAngles, Xyz, AnglesRoundTrip, Gs, RotPerp, Rotate, RotateWeak, RotateUnit, RotateBack, RotateZero]


