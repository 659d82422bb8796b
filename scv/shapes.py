"""Symbolic inputs built from the type declarations found in the source."""
from .meth import *
from .meth import Engine


class Shapes:
    def __init__(self, prog, prefix=''):
        self.prog, self.p = prog, prefix

    def of(self, t, name, gens=None):
        """symbolic value of declared type t"""
        k = t.k
        if k == 'ref':
            return self.of(t.t, name, gens)
        if k == 'path':
            n = t.segs[-1]
            if n in ('f64', 'f32'):
                return var(name, R)
            if n in ('usize', 'u64', 'u32', 'u8', 'u16'):
                return var(name, I, None, lambda: [le(ic(0), var(name, I))])
            if n in ('i32', 'i64', 'isize'):
                return var(name, I)
            if n == 'bool':
                return var(name, B)
            if n in ('String', 'str', 'PathBuf'):
                return StrV((('sym', name),))
            if n in self.prog.enums:
                m = len(self.prog.enums[n].vs)
                v = var(name, I, lambda md: md.rng.randrange(m), lambda: [le(ic(0), var(name, I)), lt(var(name, I), ic(m))])
                SYMS[name].fixed = True
                return EnumV(n, v)
            if n in self.prog.structs:
                return StructV(n, {f[0]: self.of(f[1], name + '.' + f[0]) for f in self.fields(n)})
            if n == 'Option':
                return OptV(var(name + '.some', B), self.of(t.g[0], name))
            if n == 'File':
                return Opq('file', id=name)
            if n == 'Vec':
                ln = var(name + '.len', I, None, lambda: [le(ic(0), var(name + '.len', I))])
                return Seq(None, ln, self.elem(t.g[0], name))
            return Opq('sym', name=name, ty=n)
        if k == 'array':
            n = t.n
            c = n.v if n.k == 'int' else None
            if c is None:
                raise Unsupported('array length')
            return Seq([self.of(t.t, '%s.%s' % (name, 'xyz'[i] if c <= 3 else i)) for i in range(c)])
        if k == 'slice':
            ln = var(name + '.len', I)
            return Seq(None, ln, self.elem(t.t, name))
        if k == 'tuple':
            return TupV([self.of(x, '%s.%d' % (name, i)) for i, x in enumerate(t.ts)])
        raise Unsupported('type ' + k)

    def fields(self, n):
        out = []
        for f in self.prog.structs[n].fs:
            out.append((f[0], f[1]) if isinstance(f, tuple) else (f.name, f.t))
        return out

    def elem(self, t, name):
        """element getter of a symbolic sequence"""
        def el(i):
            return self.indexed(t, name, i)
        return el

    def indexed(self, t, name, i):
        if t.k == 'path':
            n = t.segs[-1]
            if n in ('f64',):
                if name not in TM.SYMS:
                    decl(name, R)
                return app(name, i)
            if n in ('usize', 'u64', 'u32', 'i32', 'i64'):
                if name not in TM.SYMS:
                    decl(name, I)
                return app(name, i)
            if n == 'Spin':
                for c in 'xyz':
                    if name + '.' + c not in TM.SYMS:
                        decl(name + '.' + c, R, unit=(name, c))
                return StructV('Spin', {'dir': Seq([app(name + '.' + c, i) for c in 'xyz'])})
            if n in self.prog.structs:
                return StructV(n, {f: self.indexed(ft, name + '.' + f, i) for f, ft in self.fields(n)})
        if t.k == 'array' and t.n.k == 'int':
            return Seq([self.indexed(t.t, '%s.%s' % (name, 'xyz'[c] if t.n.v <= 3 else c), i) for c in range(t.n.v)])
        raise Unsupported('element type')


def dir_(s):
    return s.f['dir'].el


def V3(x, y, z):
    return Seq([x, y, z])


def dot(a, b):
    return radd(*[rmul(x, y) for x, y in zip(a, b)])


def norm2(a):
    return dot(a, a)


def cross(a, b):
    return [rsub(rmul(a[1], b[2]), rmul(a[2], b[1])), rsub(rmul(a[2], b[0]), rmul(a[0], b[2])), rsub(rmul(a[0], b[1]), rmul(a[1], b[0]))]


# ---------------------------------------------------------------- rotation as a specification function
for _c in 'xyz':
    decl('rot.' + _c, R, unit=('rot', _c))
from . import prove as PV


def rot_gen(md, fx, fy, fz, dt, sx, sy, sz):
    import math
    w = math.sqrt(fx * fx + fy * fy + fz * fz)
    s = (sx, sy, sz)
    if w < 1e-12:
        return s
    f = (fx / w, fy / w, fz / w)
    c, sn = math.cos(w * dt), math.sin(w * dt)
    d = sum(a * b for a, b in zip(f, s))
    cr = (f[1] * s[2] - f[2] * s[1], f[2] * s[0] - f[0] * s[2], f[0] * s[1] - f[1] * s[0])
    return tuple(s[i] * c + f[i] * d * (1 - c) - cr[i] * sn for i in range(3))


for _i, _c in enumerate('xyz'):
    TM.SYMS['rot.' + _c].gen = (lambda i: lambda md, *a: rot_gen(md, *a)[i])(_i)
    TM.SYMS['rot.' + _c].unit = ('rot', _c)
# the result is a unit vector whenever the argument spin is
PV.UNIT_IF['rot'] = lambda fx, fy, fz, dt, sx, sy, sz: rsub(radd(rmul(sx, sx), rmul(sy, sy), rmul(sz, sz)), ONE)


def rot(s, field, dt):
    return [app('rot.' + c, field[0], field[1], field[2], dt, s[0], s[1], s[2]) for c in 'xyz']


def rot_def(s, field, dt):
    """s' = s cos θ + f(f·s)(1-cos θ) - (f×s) sin θ, θ=|field|dt, f=field/|field| ; identity for the zero field"""
    w = sqrt(norm2(field))
    f = [rdiv(x, w) for x in field]
    c, sn = fn('cos', rmul(w, dt)), fn('sin', rmul(w, dt))
    d = dot(f, s)
    cr = cross(f, s)
    z = eq(norm2(field), ZERO)
    return [ite(z, s[i], radd(rmul(s[i], c), rmul(f[i], d, rsub(ONE, c)), rneg(rmul(cr[i], sn)))) for i in range(3)]


for _i, _c in enumerate('xyz'):
    PV.UNFOLD['rot.' + _c] = (lambda i: lambda fx, fy, fz, dt, sx, sy, sz: rot_def([sx, sy, sz], [fx, fy, fz], dt)[i])(_i)


def rot_back(i, pre):
    """rot(f, t, rot(f, -t, s)) = s: the contract 'Spin::rotate there and back', and rot(f, 0, s) = s"""
    def rw(ctx, r):
        a = r.a[1:]
        inner = a[4:]
        if all(x.op == 'app' and x.a[0] == pre + c for x, c in zip(inner, 'xyz')) and inner[0].a[1:] == inner[1].a[1:] == inner[2].a[1:]:
            b = inner[0].a[1:]
            if ctx.zero(ctx.P(radd(a[3], b[3]))) and all(x is y or ctx.zero(ctx.P(rsub(x, y))) for x, y in zip(a[:3], b[:3])):
                return ctx.P(b[4 + i])
        return None
    return rw


# `turn`: a rotation of which only the weak laws are used (length, component along the field, turning
# back), so that a proof that needs no more does not depend on the sense or the rate of rotation
def turn(s, field, dt):
    return [app('turn.' + c, field[0], field[1], field[2], dt, s[0], s[1], s[2]) for c in 'xyz']


for _i, _c in enumerate('xyz'):
    decl('turn.' + _c, R, unit=('turn', _c))
    TM.SYMS['turn.' + _c].gen = TM.SYMS['rot.' + _c].gen
    TM.SYMS['turn.' + _c].unit = ('turn', _c)
    PV.REWRITE['rot.' + _c] = rot_back(_i, 'rot.')
    PV.REWRITE['turn.' + _c] = rot_back(_i, 'turn.')
PV.UNIT_IF['turn'] = PV.UNIT_IF['rot']
