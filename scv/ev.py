"""Expression and statement evaluation (mixed into Engine)."""
from fractions import Fraction as Fr
from .engine import *
from .engine import Engine as Base, Env
from . import engine as EN

FLOATC = {'PI': PI, 'FRAC_PI_2': rmul(rc(Fr(1, 2)), PI), 'TAU': rmul(rc(2), PI), 'FRAC_PI_4': rmul(rc(Fr(1, 4)), PI),
          'FRAC_PI_3': rmul(rc(Fr(1, 3)), PI), 'FRAC_PI_6': rmul(rc(Fr(1, 6)), PI), 'FRAC_PI_8': rmul(rc(Fr(1, 8)), PI),
          'FRAC_1_PI': rdiv(ONE, PI), 'FRAC_2_PI': rdiv(rc(2), PI)}
MUT = {'push', 'push_str', 'pop', 'clear', 'sort', 'reverse', 'swap', 'fill', 'extend', 'truncate', 'resize', 'insert',
       'remove', 'iter_mut', 'as_mut', 'as_mut_slice', 'extend_from_slice', 'append', 'next', 'drain', 'rotate_left', 'rotate_right',
       'take_mut', 'copy_from_slice', 'clone_from_slice', 'split_at_mut', 'chunks_mut', 'get_mut', 'last_mut', 'first_mut', 'sort_by'}


def rround(x):
    return ite(le(ZERO, x), floor(radd(x, rc(Fr(1, 2)))), imulc(floor(radd(rneg(x), rc(Fr(1, 2)))), -1))


def rtrunc(x):
    return ite(le(ZERO, x), floor(x), imulc(floor(rneg(x)), -1))


class Engine(Base):
    # ------------------------------------------------------------ blocks
    def block(self, b, env):
        env = env.sub()
        if b.d.get('label'):
            raise Unsupported('labelled block')
        for s in b.stmts:
            if s.k == 'item':
                it = s.it
                if it.k == 'fn':
                    it.d['mod'] = env.mod
                    env.v[it.name] = self.newcell(Opq('localfn', fn=it))
                elif it.k == 'constdef':
                    env.v[it.name] = self.newcell(self.ev(it.e, env))
                continue
            if s.k == 'let':
                if s.e is None:
                    if s.p.k != 'pid':
                        raise Unsupported('let without value')
                    env.v[s.p.name] = self.newcell(Poison('uninitialised'))
                    continue
                v = self.ev(s.e, env, s.t)
                if s.els is not None:
                    raise Unsupported('let else')
                if isinstance(v, RefV) and s.p.k == 'pid' and s.e.k not in ('addr', 'mcall', 'if', 'match', 'path', 'index', 'call', 'block', 'paren', 'unary'):
                    v = self.val(v)
                if isinstance(v, RefV) and s.t is not None and s.t.k != 'ref' and s.e.k != 'addr':
                    v = self.val(v)
                self.bind(s.p, v, env.v)
                continue
            self.ev(s.e, env)
        if b.tail is not None:
            return self.ev(b.tail, env)
        return UNIT

    # ------------------------------------------------------------ places
    def place(self, e, env):
        k = e.k
        if k == 'paren':
            return self.place(e.e, env)
        if k == 'path' and len(e.segs) == 1 and e.segs[0] in env.v:
            c = env.v[e.segs[0]]
            v = self.st[c] if c in self.st else None
            if v is None:
                raise Unsupported('lost variable %s' % e.segs[0])
            while isinstance(v, RefV):
                r = v
                v = self.read(r)
                if not isinstance(v, RefV):
                    return r
            return RefV(c)
        if k == 'field':
            p = self.place(e.e, env)
            v = self.val(p)
            while isinstance(v, Opq) and v.kind == 'box':
                v = v.d['v']
            if isinstance(v, TupV):
                return RefV(p.cell, p.path + (('t', int(e.f)),))
            if not isinstance(v, StructV) or e.f not in v.f:
                raise Unsupported('field .%s of %s' % (e.f, type(v).__name__))
            r = RefV(p.cell, p.path + (('f', e.f),))
            return self.chase(r)
        if k == 'index':
            p = self.place(e.e, env)
            v = self.val(p)
            i = self.val(self.ev(e.i, env))
            if isinstance(i, RangeV):
                lo, hi = self.range_of(i, v.n, e)
                return RefV(p.cell, p.path + (('s', (lo, hi)),))
            if not isinstance(v, Seq):
                raise Unsupported('index of %s' % type(v).__name__)
            self.oblig('bounds', land(le(ic(0), i), lt(i, v.n)), e)
            return self.chase(RefV(p.cell, p.path + (('i', i),)))
        if k == 'unary' and e.op == '*':
            v = self.ev(e.e, env)
            if isinstance(v, RefV):
                return self.chase(v)
            return RefV(self.newcell(v))
        v = self.ev(e, env)
        if isinstance(v, RefV):
            return self.chase(v)
        return RefV(self.newcell(v))

    def wplace(self, e, env):
        """place that is assigned to: what it goes through must be a reference, not a copy"""
        while e.k == 'paren':
            e = e.e
        if e.k == 'unary' and e.op == '*':
            v = self.ev(e.e, env)
            if isinstance(v, RefV):
                return self.chase(v)
            v = e.e
            while v.k == 'paren':
                v = v.e
            p = self.place(v, env)
            if not isinstance(self.read(p), Opq):
                raise Unsupported('assignment through a copied reference')
        return self.place(e, env)

    def chase(self, r):
        try:
            v = self.read(r)
        except (Dead, Unsupported):
            return r
        while isinstance(v, RefV):
            r = v
            v = self.read(r)
        return r

    def range_of(self, r, n, e):
        lo = r.lo if r.lo is not None else ic(0)
        hi = r.hi if r.hi is not None else n
        self.oblig('bounds', land(le(ic(0), lo), le(lo, hi), le(hi, n)), e)
        return lo, hi

    # ------------------------------------------------------------ expressions
    def ev(self, e, env, hint=None):
        m = getattr(self, 'e_' + e.k, None)
        if m is None:
            raise Unsupported('expression ' + e.k)
        if e.k in ('arr', 'cast', 'paren'):
            return m(e, env)
        return m(e, env)

    def rv(self, e, env):
        return self.val(self.ev(e, env))

    def e_int(self, e, env):
        if e.suf in ('f64', 'f32'):
            return rc(e.v)
        return ic(e.v)

    def e_float(self, e, env):
        return rc(Fr(str(e.v).replace('_', '')))

    def e_bool(self, e, env):
        return bc(e.v)

    def e_str(self, e, env):
        return StrV((str(e.v),))

    def e_char(self, e, env):
        return StrV((str(e.v),))

    def e_paren(self, e, env):
        return self.ev(e.e, env)

    def e_path(self, e, env):
        s = e.segs
        if len(s) == 1:
            if s[0] in env.v:
                c = env.v[s[0]]
                if c not in self.st:
                    raise Unsupported('lost variable ' + s[0])
                v = self.st[c]
                if isinstance(v, Poison):
                    raise Unsupported('%s: %r' % (s[0], v))
                return v
            if s[0] == 'None':
                return OptV(FALSE, None)
        if s[-1] in FLOATC and (len(s) == 1 or s[-2] == 'consts'):
            if (env.mod, s[-1]) not in self.prog.consts:
                return FLOATC[s[-1]]
        key = (env.self_t if s[0] == 'Self' else s[-2], s[-1]) if len(s) >= 2 else (env.mod, s[0])
        if key in self.prog.consts:
            it, mod = self.prog.consts[key]
            return self.ev(it.e, Env({}, mod, env.self_t))
        if len(s) == 1:
            for k, (it, mod) in self.prog.consts.items():
                if k[1] == s[0]:
                    return self.ev(it.e, Env({}, mod, env.self_t))
        if len(s) >= 2 and s[-2] in self.prog.enums:
            en = self.prog.enums[s[-2]]
            names = [x[0] if isinstance(x, tuple) else x for x in en.vs]
            if s[-1] in names:
                return EnumV(s[-2], ic(names.index(s[-1])))
        if s[-1] == 'EPSILON':
            return rc(Fr(2) ** -52)
        if s[-1] == 'MAX' and s[-2] in ('usize', 'u64'):
            return ic(2 ** 64 - 1)
        if s[-1] == 'MAX' and s[-2] in ('u32', 'i32'):
            return ic(2 ** (32 if s[-2] == 'u32' else 31) - 1)
        if s[-1] in ('MAX', 'INFINITY'):
            return rc(Fr(2) ** 1024)
        if s[-1] in ('MIN', 'NEG_INFINITY') and s[-2] == 'f64':
            return rc(-Fr(2) ** 1024)
        return Opq('fnref', segs=tuple(s), mod=env.mod, self_t=env.self_t)

    def arith(self, op, a, b, e):
        if not isinstance(a, T) or not isinstance(b, T):
            if op == '+' and isinstance(a, StrV):
                return StrV(a.parts + (b.parts if isinstance(b, StrV) else (b,)))
            raise Unsupported('%s on %s, %s' % (op, type(a).__name__, type(b).__name__))
        if a.s == B:
            r = {'&': land, '|': lor, '^': lambda x, y: lnot(iff(x, y))}.get(op)
            if r is None:
                raise Unsupported('bool ' + op)
            return r(a, b)
        if a.s != b.s:
            raise Unsupported('mixed sorts in ' + op)
        if a.s == R:
            if op == '+':
                return radd(a, b)
            if op == '-':
                return rsub(a, b)
            if op == '*':
                return rmul(a, b)
            if op == '/':
                self.oblig('domain', lnot(eq(b, ZERO)), e, 'divisor is non-zero')
                return rdiv(a, b)
            if op == '%':
                self.oblig('domain', lnot(eq(b, ZERO)), e, 'divisor is non-zero')
                return rsub(a, rmul(toreal(rtrunc(rdiv(a, b))), b))
        else:
            if op == '+':
                return iadd(a, b)
            if op == '-':
                r = isub(a, b)
                if iconst(a) is not None and iconst(b) is not None:
                    return r
                self.oblig('overflow', le(ic(0), r), e, 'subtraction does not underflow')
                return r
            if op == '*':
                return imul(a, b)
            if op == '/':
                self.oblig('panic', lnot(eq(b, ic(0))), e, 'integer divisor is non-zero')
                return idiv(a, b)
            if op == '%':
                self.oblig('panic', lnot(eq(b, ic(0))), e, 'integer divisor is non-zero')
                return imod(a, b)
            if op == '<<' and iconst(b) is not None:
                return imulc(a, 2 ** iconst(b))
            if op == '>>' and iconst(b) is not None:
                return idiv(a, ic(2 ** iconst(b)))
            if op == '&' and iconst(b) == 1:
                return imod(a, ic(2))
        raise Unsupported('operator ' + op)

    def compare(self, op, a, b):
        a, b = self.val(a), self.val(b)
        if isinstance(a, T) and isinstance(b, T):
            if a.s != b.s:
                raise Unsupported('comparison of mixed sorts')
            if op == '==':
                return eq(a, b)
            if op == '!=':
                return lnot(eq(a, b))
            if op == '<':
                return lt(a, b)
            if op == '<=':
                return le(a, b)
            if op == '>':
                return lt(b, a)
            if op == '>=':
                return le(b, a)
        if op in ('==', '!='):
            if isinstance(a, StructV) and (a.name, 'eq') in self.prog.fns:
                r = self.call((a.name, 'eq'), [a, b], None)
                return r if op == '==' else lnot(r)
            if isinstance(a, EnumV) and isinstance(b, EnumV):
                r = eq(a.t, b.t)
                return r if op == '==' else lnot(r)
            if isinstance(a, OptV) and isinstance(b, OptV):
                r = eq_vals(a, b)
                return r if op == '==' else lnot(r)
            if isinstance(a, (Seq, TupV, StructV)):
                r = eq_vals(a, b)
                return r if op == '==' else lnot(r)
        raise Unsupported('comparison of %s and %s' % (type(a).__name__, type(b).__name__))

    def e_bin(self, e, env):
        op = e.op
        if op == '&&' or op == '||':
            conds = self.flat(e) if op == '&&' else None
            if conds is not None and any(c.k == 'iflet' for c in conds):
                raise Unsupported('let chain outside if')
            a = self.rv(e.l, env)
            if op == '&&':
                return self.branch(a, lambda: self.rv(e.r, env), lambda: FALSE)
            return self.branch(a, lambda: TRUE, lambda: self.rv(e.r, env))
        a = self.rv(e.l, env)
        b = self.rv(e.r, env)
        if op in ('==', '!=', '<', '<=', '>', '>='):
            return self.compare(op, a, b)
        return self.arith(op, a, b, e)

    def e_unary(self, e, env):
        if e.op == '*':
            v = self.ev(e.e, env)
            return self.val(v)
        v = self.rv(e.e, env)
        if e.op == '-':
            return rneg(v) if v.s == R else imulc(v, -1)
        if e.op == '!':
            if v.s == B:
                return lnot(v)
        raise Unsupported('unary ' + e.op)

    def e_cast(self, e, env):
        v = self.rv(e.e, env)
        t = e.t.segs[-1] if e.t.k == 'path' else None
        if isinstance(v, EnumV) and t != 'f64':
            return v.t
        if not isinstance(v, T):
            raise Unsupported('cast of %s' % type(v).__name__)
        if t == 'f64':
            if v.s == I:
                return toreal(v)
            if v.s == R:
                return v
        elif t in ('u8', 'u16', 'i8', 'i16'):
            # narrow types: reals saturate, integers wrap
            m = 1 << int(t[1:])
            lo, hi = (0, m - 1) if t[0] == 'u' else (-m // 2, m // 2 - 1)
            if v.s == R:
                v = rtrunc(v)
                return ite(lt(v, ic(lo)), ic(lo), ite(lt(ic(hi), v), ic(hi), v))
            if v.s == I:
                return imod(v, ic(m)) if lo == 0 else isub(imod(iadd(v, ic(-lo)), ic(m)), ic(-lo))
            return ite(v, ic(1), ic(0))
        elif t in ('usize', 'u64', 'u32', 'u128'):
            if v.s == R:
                return ite(lt(v, ZERO), ic(0), floor(v))
            if v.s == I:
                self.oblig('overflow', le(ic(0), v), e, 'cast of a negative integer')
                return v
            return ite(v, ic(1), ic(0))
        elif t in ('i32', 'i64', 'isize', 'i128'):
            if v.s == R:
                return rtrunc(v)
            if v.s == I:
                return v
            return ite(v, ic(1), ic(0))
        raise Unsupported('cast')

    def e_addr(self, e, env):
        if e.mut:
            return self.place(e.e, env)
        x = e.e
        while x.k == 'paren':
            x = x.e
        return self.val(self.ev(x, env))

    def e_field(self, e, env):
        v = self.val(self.ev(e.e, env))
        if isinstance(v, TupV) and e.f.isdigit():
            return v.el[int(e.f)]
        if isinstance(v, StructV):
            if e.f not in v.f:
                raise Unsupported('field %s.%s' % (v.name, e.f))
            return v.f[e.f]
        raise Unsupported('field .%s of %s' % (e.f, type(v).__name__))

    def e_index(self, e, env):
        v = self.val(self.ev(e.e, env))
        i = self.val(self.ev(e.i, env))
        if not isinstance(v, Seq):
            raise Unsupported('index of %s' % type(v).__name__)
        if isinstance(i, RangeV):
            lo, hi = self.range_of(i, v.n, e)
            return v.slice(lo, hi)
        if not isinstance(i, T):
            raise Unsupported('index by %s' % type(i).__name__)
        self.oblig('bounds', land(le(ic(0), i), lt(i, v.n)), e, 'index in range')
        return v.get(i)

    def e_arr(self, e, env):
        return Seq([self.val(self.ev(x, env)) for x in e.es])

    def rep(self, v, n):
        c = iconst(n)
        if c is not None and c <= 64:
            return Seq([v] * c)
        return Seq(None, n, lambda j: v)

    def e_rep(self, e, env):
        return self.rep(self.rv(e.e, env), self.rv(e.n, env))

    def e_vecmac(self, e, env):
        if e.rep is not None:
            return self.rep(self.rv(e.rep[0], env), self.rv(e.rep[1], env))
        return Seq([self.val(self.ev(x, env)) for x in e.es])

    def e_tuple(self, e, env):
        return TupV([self.ev(x, env) for x in e.es])

    def e_block(self, e, env):
        return self.block(e, env)

    def e_closure(self, e, env):
        return ClosV(e, dict(env.v), env.mod, env.self_t, self.frames[-1].fn if self.frames else None)

    def e_range(self, e, env):
        lo = self.rv(e.lo, env) if e.lo is not None else None
        hi = self.rv(e.hi, env) if e.hi is not None else None
        if e.op == '..=' and hi is not None:
            hi = iadd(hi, ic(1)) if hi.s == I else hi
        return RangeV(lo, hi)

    def e_struct(self, e, env):
        n = e.segs[-1]
        if n == 'Self':
            n = env.self_t
        f = {}
        if e.base is not None:
            f.update(self.rv(e.base, env).f)
        for k, x in e.fs:
            f[k] = self.val(self.ev(x, env))
        return StructV(n, f)

    def e_assign(self, e, env):
        if e.op == '=':
            if e.l.k == 'pwild' or (e.l.k == 'path' and e.l.segs == ['_']):
                self.ev(e.r, env)
                return UNIT
            v = self.ev(e.r, env)
            l = e.l
            while l.k == 'paren':
                l = l.e
            if l.k == 'path' and len(l.segs) == 1 and l.segs[0] in env.v:
                self.st[env.v[l.segs[0]]] = v
                return UNIT
            if l.k in ('tuple', 'arr'):
                v = self.val(v)
                for x, y in zip(l.es, v.el):
                    self.write(self.place(x, env), self.val(y))
                return UNIT
            v = self.val(v)
            self.write(self.wplace(l, env), v)
            return UNIT
        b = self.rv(e.r, env)
        p = self.wplace(e.l, env)
        a = self.val(p)
        self.write(p, self.arith(e.op[:-1], a, b, e))
        return UNIT

    def e_return(self, e, env):
        v = self.ev(e.e, env) if e.e is not None else UNIT
        raise Ctl('return', self.val(v) if not isinstance(v, RefV) else v)

    def e_break(self, e, env):
        v = self.rv(e.e, env) if e.e is not None else UNIT
        raise Ctl('break', v, e.label)

    def e_continue(self, e, env):
        raise Ctl('continue', None, e.label)

    def e_try(self, e, env):
        v = self.rv(e.e, env)
        if not isinstance(v, OptV):
            raise Unsupported('?')
        if v.some is TRUE:
            return v.v
        if self.branch(v.some, lambda: TRUE, self._ret(v)) is None:
            pass
        return v.v

    def _ret(self, v):
        def f():
            raise Ctl('return', OptV(FALSE, v.v, v.e))
        return f

    # ------------------------------------------------------------ branching constructs
    def flat(self, c):
        if c.k == 'bin' and c.op == '&&':
            return self.flat(c.l) + self.flat(c.r)
        return [c]

    def e_if(self, e, env):
        conds = self.flat(e.c)
        if any(c.k == 'iflet' for c in conds):
            return self.iflet(conds, e, env)
        c = self.rv(e.c, env)
        return self.branch(c, lambda: self.block(e.a, env),
                           lambda: self.ev(e.b, env) if e.b is not None else UNIT)

    def iflet(self, conds, e, env):
        env = env.sub()
        if not conds:
            return self.block(e.a, env)
        c, rest = conds[0], conds[1:]
        els = lambda: self.ev(e.b, env) if e.b is not None else UNIT
        if c.k == 'iflet':
            v = self.ev(c.e, env)
            b = self.match(c.p, v, env.v)
        else:
            b = self.rv(c, env)
        return self.branch(b, lambda: self.iflet(rest, e, env), els)

    def e_match(self, e, env):
        # keep places for `match self.x { Some(ref mut f) ..`
        v = self.ev(e.e, env)

        def arm(i):
            if i == len(e.arms):
                raise Dead('no arm')        # rustc guarantees exhaustiveness
            p, g, body = e.arms[i]
            en = env.sub()
            c = self.match(p, v, en.v)
            if g is None:
                if i == len(e.arms) - 1:
                    if c is not TRUE:
                        self.assume(c)
                    return self.ev(body, en)
                return self.branch(c, lambda: self.ev(body, en), lambda: arm(i + 1))
            if c is TRUE:
                gv = self.rv(g, en)
                return self.branch(gv, lambda: self.ev(body, en), lambda: arm(i + 1))
            gv = self.branch(c, lambda: self.rv(g, en), lambda: FALSE)
            return self.branch(gv, lambda: self.ev(body, en), lambda: arm(i + 1))
        return arm(0)

    # ------------------------------------------------------------ macros
    def e_macro(self, e, env):
        n = e.name
        if n in ('println', 'print', 'eprintln', 'eprint'):
            return UNIT
        if n == 'panic' or n in ('unreachable', 'unimplemented', 'todo'):
            self.oblig('panic', FALSE, e, 'panic! is not reached')
            raise Dead('panic')
        if n in ('assert', 'debug_assert'):
            self.oblig('panic', self.rv(e.es[0], env), e, 'assertion')
            return UNIT
        if n in ('assert_eq', 'debug_assert_eq', 'assert_ne'):
            c = self.compare('==' if n != 'assert_ne' else '!=', self.rv(e.es[0], env), self.rv(e.es[1], env))
            self.oblig('panic', c, e, 'assertion')
            return UNIT
        if n == 'format':
            return StrV(self.fmt(e.es, e.kw, env))
        if n in ('writeln', 'write'):
            f = self.val(self.rv(e.es[0], env))
            parts = self.fmt(e.es[1:], e.kw, env) if len(e.es) > 1 else ()
            if n == 'writeln':
                parts = parts + ('\n',)
            self.event('write', f, parts)
            return OptV(TRUE, UNIT)
        if n in ('include_str', 'concat', 'env', 'stringify', 'file', 'line'):
            return StrV((('opaque', n),))
        if n in self.prog.macros:
            b = expand_macro(self.prog.macros[n].rules, e.toks)
            return self.block(b, env)
        raise Unsupported('macro ' + n)

    def fmt(self, es, kw, env):
        if not es:
            return ()
        if es[0].k != 'str':
            raise Unsupported('format string')
        s = str(es[0].v)
        out = []
        i = 0
        nxt = 1
        lit = ''
        while i < len(s):
            c = s[i]
            if c == '{':
                if s[i + 1] == '{':
                    lit += '{'
                    i += 2
                    continue
                j = s.index('}', i)
                body = s[i + 1:j]
                i = j + 1
                name, _, spec = body.partition(':')
                if name == '':
                    v = self.rv(es[nxt], env)
                    nxt += 1
                elif name.isdigit():
                    v = self.rv(es[int(name) + 1], env)
                elif name in (kw or {}):
                    v = self.rv(kw[name], env)
                else:
                    v = self.rv(N('path', 0, segs=[name], g=[]), env)
                if lit:
                    out.append(lit)
                    lit = ''
                out.append(('arg', v, spec))
            elif c == '}':
                lit += '}'
                i += 2
            else:
                lit += c
                i += 1
        if lit:
            out.append(lit)
        return tuple(out)

    # ------------------------------------------------------------ calls
    def e_call(self, e, env):
        if e.f.k == 'path':
            s = e.f.segs
            if len(s) == 1 and s[0] in env.v:
                f = self.val(self.st[env.v[s[0]]])
                args = [self.ev(a, env) for a in e.args]
                if isinstance(f, Opq) and f.kind == 'localfn':
                    return self.call_fn(f.d['fn'], args)
                return self.apply(f, args)
            args = [self.ev(a, env) for a in e.args]
            return self.call_path(s, args, e, env)
        f = self.ev(e.f, env)
        return self.apply(f, [self.ev(a, env) for a in e.args])

    def call_path(self, s, args, e, env):
        n = s[-1]
        if len(s) == 1:
            if n in ('Some', 'Ok'):
                return OptV(TRUE, args[0] if not isinstance(args[0], RefV) else args[0])
            if n == 'Err':
                return OptV(FALSE, None, args[0])
            if n in ('drop', 'black_box', 'sleep'):
                return UNIT
            if n == 'Box':
                return args[0]
            for key in ((env.mod, n),) + tuple(k for k in self.prog.fns if k[1] == n and not self.prog.fns[k].d.get('self_t')):
                if key in self.prog.fns:
                    return self.call(key, args, e)
            if n in self.prog.structs:
                raise Unsupported('tuple struct')
        else:
            t = s[-2]
            if t == 'Self':
                t = env.self_t
            if (t, n) in self.prog.fns or (t, n) in self.contracts:
                fn = self.prog.fns.get((t, n))
                if fn is not None and fn.self_kind == '&' and args:
                    args = [self.val(args[0])] + args[1:]
                return self.call((t, n), args, e)
        r = self.builtin(s, args, e, env)
        if r is not NotImplemented:
            return r
        raise Unsupported('call of %s' % '::'.join(s))

    def builtin(self, s, args, e, env):
        t, n = (s[-2] if len(s) > 1 else ''), s[-1]
        a = [self.val(x) for x in args]
        if n == 'thread_rng':
            return Opq('rng')
        if t == 'Uniform' and n in ('from', 'new'):
            r = a[0] if n == 'from' else RangeV(a[0], a[1])
            return Opq('unif', lo=r.lo, hi=r.hi)
        if t == 'Normal' and n == 'new':
            return OptV(TRUE, Opq('normal', m=a[0], sd=a[1]))
        if t in ('Vec', 'VecDeque') and n in ('new', 'with_capacity'):
            return Seq([])
        if t == 'String' and n == 'new':
            return StrV(())
        if t == 'String' and n in ('from',):
            return a[0]
        if t == 'File' and n in ('create', 'open'):
            path = a[0]
            if n == 'create':
                self.event('create', path)
            return OptV(TRUE, Opq('file', id=(n, path)))
        if t == 'FftPlanner' and n == 'new':
            return Opq('fftp')
        if t in ('f64', 'f32') and n in F1:
            return self.m_float(n, a[0], a[1:], e)
        if t in ('f64',) and n == 'from':
            return toreal(a[0]) if a[0].s == I else a[0]
        if t in ('usize', 'u64', 'i64', 'u32', 'i32') and n in ('from',):
            return a[0]
        if t in ('usize', 'u64') and n == 'try_from':
            self.oblig('overflow', le(ic(0), a[0]), e)
            return OptV(TRUE, a[0])
        if t in ('cmp',) and n in ('min', 'max') and a[0].s == I:
            return ite(le(a[0], a[1]), a[0], a[1]) if n == 'min' else ite(le(a[0], a[1]), a[1], a[0])
        if t == 'mem' and n == 'swap':
            x, y = self.val(args[0]), self.val(args[1])
            self.write(args[0], y)
            self.write(args[1], x)
            return UNIT
        if t == 'mem' and n == 'replace':
            x = self.val(args[0])
            self.write(args[0], a[1])
            return x
        if t == 'array' and n == 'from_fn':
            raise Unsupported('from_fn')
        if t == 'iter' and n == 'repeat':
            v = a[0]
            return IterV(ic(2 ** 63), lambda k: v)
        if t == 'iter' and n == 'once':
            v = a[0]
            return IterV(ic(1), lambda k: v)
        if t == 'Complex':
            return StructV('Complex', {'re': a[0], 'im': a[1]}) if n == 'new' else NotImplemented
        if t == 'mem' and n == 'take' and isinstance(a[0], (Seq, StrV)):
            self.write(args[0], Seq([]) if isinstance(a[0], Seq) else StrV(()))
            return a[0]
        # methods called by path
        if args and n not in MUT and t in ('Result', 'Option', 'Vec', 'str', 'String', 'bool', 'Iterator', 'IntoIterator', 'ToString', 'ToOwned', 'Clone'):
            return self.method(n, args[0], a[0], args[1:], e, env)
        return NotImplemented

    def e_mcall(self, e, env):
        m = e.m
        # receiver
        if m in MUT:
            p = self.place(e.e, env)
            v = self.val(p)
            args = [self.ev(a, env) for a in e.args]
            return self.m_mut(m, p, v, args, e, env)
        r = self.ev(e.e, env)
        v = self.val(r)
        if isinstance(v, StructV):
            fn = self.prog.fns.get((v.name, m))
            if fn is not None or (v.name, m) in self.contracts:
                if fn is not None and fn.self_kind == '&mut':
                    if not isinstance(r, RefV):
                        r = self.place(e.e, env)
                    else:
                        r = self.chase(r)
                    recv = r
                else:
                    recv = v
                args = [self.ev(a, env) for a in e.args]
                return self.call((v.name, m), [recv] + args, e)
        if m == 'gen_range' or m == 'sample' or m == 'gen' or m == 'gen_bool' or m == 'sample_iter':
            return self.m_rng(m, v, [self.ev(a, env) for a in e.args], e)
        if m == 'process' and isinstance(v, Opq) and v.kind == 'fft':
            return self.m_fft(v, self.ev(e.args[0], env), e)
        args = [self.ev(a, env) for a in e.args]
        return self.method(m, r, v, args, e, env)

    # ------------------------------------------------------------ randomness (ghost draw counters)
    def draw_u(self):
        k = self.gh('u')
        self.ghset('u', iadd(k, ic(1)))
        return app('U01', k)

    def m_rng(self, m, v, args, e):
        if m == 'gen_range':
            r = self.val(args[0])
            if not isinstance(r, RangeV):
                raise Unsupported('gen_range')
            if r.lo.s == I:
                self.oblig('panic', lt(r.lo, r.hi), e, 'gen_range on a non-empty range')
                k = self.gh('g')
                self.ghset('g', iadd(k, ic(1)))
                return iadd(r.lo, app('Gidx', k, isub(r.hi, r.lo)))
            return radd(r.lo, rmul(rsub(r.hi, r.lo), self.draw_u()))
        if m == 'sample':
            d = v
            if isinstance(v, Opq) and v.kind == 'rng':
                d = self.val(args[0])
            if isinstance(d, Opq) and d.kind == 'unif' and d.d['lo'].s == I:
                self.oblig('panic', lt(d.d['lo'], d.d['hi']), e, 'uniform on a non-empty range')
                k = self.gh('g')
                self.ghset('g', iadd(k, ic(1)))
                return iadd(d.d['lo'], app('Gidx', k, isub(d.d['hi'], d.d['lo'])))
            if isinstance(d, Opq) and d.kind == 'unif':
                u = self.draw_u()
                if d.d['lo'] is ZERO and d.d['hi'] is ONE:
                    return u
                return radd(d.d['lo'], rmul(rsub(d.d['hi'], d.d['lo']), u))
            if isinstance(d, Opq) and d.kind == 'normal':
                k = self.gh('n')
                self.ghset('n', iadd(k, ic(1)))
                return radd(d.d['m'], rmul(d.d['sd'], app('N01', k)))
        if m == 'gen':
            return self.draw_u()
        raise Unsupported('random ' + m)

    def m_fft(self, v, buf, e):
        x = self.val(buf)
        n = v.d['n']
        self.oblig('panic', eq(x.n, n), e, 'FFT buffer length')
        self.assumed.add('rustfft forward transform computes the DFT  X_k = sum_j x_j exp(-2 pi i jk/n)')

        def g(k):
            b = bvar('j')
            z = x.get(b)
            ph = rdiv(rmul(rc(2), PI, toreal(b), toreal(k)), toreal(n))
            c, s = fn('cos', ph), fn('sin', ph)
            return StructV('Complex', {
                're': sumt(b, ic(0), n, radd(rmul(z.f['re'], c), rmul(z.f['im'], s))),
                'im': sumt(b, ic(0), n, radd(rmul(z.f['im'], c), rneg(rmul(z.f['re'], s))))})
        self.write(buf, Seq(None, n, g))
        return UNIT

    # ------------------------------------------------------------ loops
    def e_for(self, e, env):
        it = self.to_iter(self.ev(e.e, env), e)

        def body(k):
            x = it.get(k)
            en = env.sub()
            self.bind(e.p, x, en.v)
            self.block(e.b, en)
        self.run_loop(it.n, body, e)
        return UNIT

    def to_iter(self, v, e):
        if isinstance(v, RefV):
            x = self.val(v)
            if isinstance(x, Seq):
                r = v
                return IterV(x.n, lambda k: RefV(r.cell, r.path + (('i', k),)))
            v = x
        if isinstance(v, IterV):
            return v
        if isinstance(v, RangeV):
            if v.hi is None:
                lo = v.lo
                return IterV(None, lambda k: iadd(lo, k))
            if v.lo.s != I:
                raise Unsupported('real range')
            lo, hi = v.lo, v.hi
            n = isub(hi, lo)
            if iconst(n) is None and self.decide(le(lo, hi)) is not True:
                n = ite(le(lo, hi), n, ic(0))
            elif iconst(n) is not None and iconst(n) < 0:
                n = ic(0)
            return IterV(n, lambda k: iadd(lo, k))
        if isinstance(v, Seq):
            return IterV(v.n, v.get)
        if isinstance(v, OptV):
            return IterV(ite(v.some, ic(1), ic(0)), lambda k: v.v)
        if isinstance(v, Opq) and v.kind == 'chan_rx':
            raise Unsupported('receiving from a channel')
        raise Unsupported('iteration over %s' % type(v).__name__)

    def run_body(self, body, k):
        """one iteration; merges `continue`; returns list of break/return pends"""
        fr = Frame(self.frames[-1].fn if self.frames else None, len(self.pc))
        self.frames.append(fr)
        old, n = self.ctx, len(self.pc)
        try:
            try:
                body(k)
                fin = self.st
            except Ctl as c:
                if c.label is not None:
                    raise Unsupported('labelled ' + c.kind)
                if c.kind == 'continue':
                    fin = self.st
                else:
                    fr.pend.append((land(*self.pc[fr.pc0:]), c.kind, c.val, self.st, c.label))
                    fin = None
            except Dead:
                fin = None
        finally:
            self.frames.pop()
        exits = []
        conts = []
        for p in fr.pend:
            if p[4] is not None:
                raise Unsupported('labelled ' + p[1])
            (conts if p[1] == 'continue' else exits).append(p)
        if conts or exits:
            self.pop(old, n)
        if fin is None and conts:
            fin = conts.pop()[3]
        if fin is not None:
            for c, _, _, st, _ in reversed(conts):
                fin = self.merge_st(c, st, fin)
            self.st = fin
        return fin is not None, exits

    def run_loop(self, n, body, node):
        c = iconst(n)
        if c is None:
            z = None
            try:
                z = self.ctx.Z(n)
            except (NeedSplit, Budget):
                pass
            if z is not None and iconst(z) is not None:
                c = iconst(z)
        if c is not None and c <= self.UNROLL:
            return self.unrolled(c, body, node)
        return self.symbolic(n, body, node)

    def unrolled(self, c, body, node):
        outs = []        # (cond relative to start, state) of breaks
        start = len(self.pc)
        old = self.ctx
        fr_outer = self.frames[-1] if self.frames else None
        alive = True
        for k in range(c):
            ok, exits = self.run_body(body, ic(k))
            for cond, kind, v, st, _ in exits:
                full = land(*(self.pc[start:])) if kind == 'break' else None
                if kind == 'break':
                    outs.append((land(full, cond), st))
                else:
                    if fr_outer is None:
                        raise Unsupported('return from loop')
                    fr_outer.pend.append((land(*(list(self.pc[fr_outer.pc0:]) + [cond])), kind, v, st, None))
            if not ok:
                alive = False
                break
            for cond, kind, v, st, _ in exits:
                self.assume(lnot(cond))
        if not alive and not outs:
            raise Dead('loop does not complete')
        if outs:
            fin = self.st
            self.pop(old, start)
            if not alive:
                fin = outs.pop()[1]
            for cond, st in reversed(outs):
                fin = self.merge_st(cond, st, fin)
            self.st = fin
        return UNIT

    # -- symbolic loops
    def changed(self, S0, start, S1):
        """leaf paths whose value differs from the start value"""
        out = []
        for c in S0:
            a, b = start[c], S1.get(c)
            if b is None or a is b:
                continue
            self.diff(c, (), S0[c], a, b, out)
        return out

    def diff(self, c, path, v0, a, b, out):
        if a is b or same(a, b):
            return
        if isinstance(a, StructV) and isinstance(b, StructV) and isinstance(v0, StructV) and a.name == b.name:
            for k in a.f:
                self.diff(c, path + (('f', k),), v0.f[k], a.f[k], b.f[k], out)
            return
        if isinstance(a, TupV) and isinstance(b, TupV):
            for k in range(len(a.el)):
                self.diff(c, path + (('t', k),), v0.el[k], a.el[k], b.el[k], out)
            return
        if isinstance(a, Seq) and isinstance(b, Seq) and a.el is not None and b.el is not None and len(a.el) == len(b.el) and isinstance(v0, Seq) and v0.el is not None:
            for k in range(len(a.el)):
                self.diff(c, path + (('i', ic(k)),), v0.el[k], a.el[k], b.el[k], out)
            return
        if isinstance(a, EnumV) and isinstance(b, EnumV):
            out.append((c, path + (('e', a.name),), v0.t, b))
            return
        out.append((c, path, v0, b))

    def fresh_like(self, v, base, idx=()):
        """symbolic value of the same shape; returns value, records symbol names"""
        def f(path, x):
            if isinstance(x, T):
                nm = '%s!%d' % (base, TM._fresh[0])
                TM._fresh[0] += 1
                decl(nm, x.s)
                self._syms.append(nm)
                return app(nm, *idx)
            if isinstance(x, Seq):
                j0 = bvar('s')
                sample = x.get(j0)
                memo = {}

                names = []

                def mkel(j):
                    # the symbols are created once, on a canonical bound index
                    if not names:
                        save = self._syms
                        self._syms = []
                        jj = bvar('q')
                        names.append((jj, self.fresh_like(sample, base, idx + (jj,)), self._syms))
                        save.extend(self._syms)
                        self._syms = save
                    jj, val, _ = names[0]
                    return vmap(val, lambda t: subst(t, {jj: j}))
                mkel(j0)
                return Seq(None, x.n, mkel)
            return Poison('loop-carried %s' % type(x).__name__)
        return map_leaves(v, f)

    def symbolic(self, n, body, node, cond=None, while_n=None):
        """for-loop with n iterations, or (cond given) a while loop: N fresh"""
        S0 = dict(self.st)
        pc0, ctx0 = len(self.pc), self.ctx
        kk = fresh('k', I)
        carried = {}      # (cell, path) -> (v0, symbolic value, names)
        rid = [0]

        def start_state(vals):
            st = dict(S0)
            for (c, path), v in vals.items():
                st[c] = set_path_e(st[c], path, v)
            return st

        def one(vals, k, last):
            self.st = start_state(vals)
            start = dict(self.st)
            self.assume(le(ic(0), k))
            if cond is None:
                self.assume(lt(k, n))
            kv0, self.kvar = self.kvar, k
            try:
                if cond is not None:
                    cv = cond()
                    self.assume(cv)
                ok, exits = self.run_body(body, k)
                pcx = list(self.pc[pc0:])
            finally:
                self.kvar = kv0
                self.pop(ctx0, pc0)
            return start, (self.st if ok else None), exits, (cv if cond is not None else None), pcx

        # 1. which leaves change
        self.mode += 1
        try:
            for rnd in range(8):
                try:
                    start, S1, exits, cv, _ = one({key: x[1] for key, x in carried.items()}, kk, False)
                except Dead:
                    # the body cannot run
                    self.st = dict(S0)
                    if self.mode == 1 and cond is None:
                        pass
                    S1 = None
                    exits = []
                if exits:
                    raise Unsupported('break/return in a loop with symbolic trip count')
                if S1 is None:
                    break
                new = []
                for c, path, v0, b in self.changed(S0, start, S1):
                    if (c, path) not in carried:
                        # a leaf nested under an already carried sequence cannot appear
                        new.append((c, path, v0, b))
                if not new:
                    break
                for c, path, v0, b in new:
                    rid[0] += 1
                    self._syms = []
                    base = 'c%d' % rid[0]
                    if isinstance(v0, T):
                        val = self.fresh_like(v0, base)
                        kind = 'T'
                    elif isinstance(v0, Seq):
                        val, kind, v0 = self.carry_seq(v0, b, base, rid[0])
                    elif isinstance(v0, TraceV):
                        val, kind = TraceV((), root=('root', id(kk), rid[0])), 'trace'
                    elif isinstance(v0, StrV) and isinstance(b, StrV):
                        val, kind = StrV((('root', 'text', '%d.%d' % (id(kk), rid[0])),)), 'text'
                    else:
                        val, kind = Poison('loop-carried value'), 'drop'
                    carried[(c, path)] = (v0, val, list(self._syms), kind)
                    # drop finer leaves now covered
                    for key in list(carried):
                        if key != (c, path) and key[0] == c and len(key[1]) > len(path) and key[1][:len(path)] == path:
                            del carried[key]
            else:
                raise Unsupported('loop analysis does not stabilise')
        finally:
            self.mode -= 1
        if S1 is None:
            # the body never completes: it must not be executed
            self.st = dict(S0)
            # record the failing obligation by running once with obligations on
            try:
                one({}, kk, True)
            except Dead:
                pass
            self.st = dict(S0)
            if cond is None:
                self.assume(le(n, ic(0)))
            else:
                self.assume(lnot(cv) if cv is not None else TRUE)
            return UNIT
        if cond is not None and self.invs is not None:
            return self.by_invariants(carried, S0, one, start_state, cond, kk, node, body)
        # 2. closed forms
        S1v = {}
        for key, (v0, val, names, kind) in carried.items():
            S1v[key] = get_path(S1[key[0]], strip_e(key[1]))
        F, check, opaque = self.solve(kk, carried, S1v, node)
        # 3. verification run with obligations recorded
        start, S2, exits, cv, pcx = one({key: F[key](kk) for key in carried if carried[key][3] != 'drop'} |
                                   {key: carried[key][1] for key in carried if carried[key][3] == 'drop'}, kk, True)
        if S2 is None:
            raise Unsupported('loop body diverges in closed form')
        for key in check:
            got = get_path(S2[key[0]], strip_e(key[1]))
            want = F[key](iadd(kk, ic(1)))
            goal = eq_vals(got, want)
            hy = list(self.hyps) + list(self.pc) + pcx
            if not self.mode:
                r = Prover(hy, timeout=60).prove(goal)
                if r.status != 'proved':
                    raise Unsupported('closed form of a loop is not inductive: ' + r.why[:300])
        for key in opaque:
            got = get_path(S2[key[0]], strip_e(key[1]))
            self.stepfacts.append((kk, n, list(self.hyps) + list(self.pc) + pcx, F[key](iadd(kk, ic(1))), got))
        # 4. state after
        if cond is not None:
            if self.kvar is not None and not getattr(self, 'isolated', False):
                raise Unsupported('while loop inside a loop')
            N = self.trip_count(cv, kk)
            counted = N is not None
            if N is None:
                N = fresh('N', I)
            n_after = N
        else:
            n_after = n
        self.st = start_state({key: (F[key](n_after) if carried[key][3] != 'drop' else Poison('loop')) for key in carried})
        if cond is not None:
            self.assume(le(ic(0), N))
            self.assume(forall(kk2 := bvar('w'), ic(0), N, subst(cv, {kk: kk2})))
            # the condition is false at the end
            c2 = cond()
            if not counted:
                self.assume(lnot(c2))
                if not self.grows(cv, kk, list(self.hyps) + list(self.pc[:pc0])):
                    self.assumed.add('termination of the loop at line %d' % node.line)
        else:
            self.assume(le(ic(0), n))
        self.loops.append(dict(node=node, fn=self.frames[-1].fn if self.frames else None, k=kk, n=n_after, F=F, carried=carried, cond=cv, hyps=list(self.hyps) + list(self.pc[:pc0])))
        return UNIT

    def grows(self, cv, kk, hyps):
        """the condition a < b (or a <= b) fails after some iterations, since a - b grows by the same
        positive amount in every one"""
        if cv is None or cv.op not in ('rlt', 'rle'):
            return False
        D = rsub(cv.a[0], cv.a[1])
        d = lambda k: rsub(subst(D, {kk: iadd(k, ic(1))}), subst(D, {kk: k}))
        return self.holds(hyps, lt(ZERO, d(ic(0)))) and self.holds(hyps + [le(ic(0), kk)], eq(d(kk), d(ic(0))))

    def trip_count(self, cv, kk):
        """number of iterations of a loop that goes on while rest + c*k <= 0 (c > 0)"""
        if cv is None or cv.op != 'ile':
            return None
        c0, d = TM._lin(cv.a[0])
        c = d.pop(kk, 0)
        if c <= 0 or any(kk in walk(x) for x in d):
            return None
        n = iadd(idiv(imulc(TM._mklin(c0, d), -1), ic(c)), ic(1))
        for q, v in ((le(ic(0), n), n), (le(n, ic(0)), ic(0))):
            if self.decide(q) is True:
                return v
        return ite(le(ic(0), n), n, ic(0))

    def by_invariants(self, carried, S0, one, start_state, cond, kk, node, body):
        """while loop by its invariants: of the candidates (a function of the carried scalars, given by
        the contract) the largest subset that holds on entry and is kept by every iteration is
        assumed afterwards; what the loop does to anything else is forgotten"""
        sc = [k for k in carried if carried[k][3] == 'T']
        vals = {k: carried[k][1] for k in sc}
        other = {}
        for k in carried:
            if k not in vals:
                other[k] = carried[k][1] if carried[k][3] == 'trace' else Poison('changed by a loop')
        v0 = [carried[k][0] for k in sc]
        cur = [vals[k] for k in sc]
        cands = list(self.invs(v0))
        pc = list(self.hyps) + list(self.pc)
        cands = [f for f in cands if self.holds(pc, f(v0))]
        self.mode += 1
        try:
            start, S1, exits, cv, pcx = one({**vals, **other}, kk, False)
        finally:
            self.mode -= 1
        S1v = [get_path(S1[k[0]], strip_e(k[1])) for k in sc]
        while True:
            hy = pc + [f(cur) for f in cands] + pcx
            keep = [f for f in cands if self.holds(hy, f(S1v))]
            if len(keep) == len(cands):
                break
            cands = keep
        # the body's own obligations, under the invariants
        n0 = len(self.pc)
        old = self.ctx
        for f in cands:
            self.assume(f(cur))
        one({**vals, **other}, kk, True)
        self.pop(old, n0)
        self.st = start_state({**vals, **other})
        for f in cands:
            self.assume(f(cur))
        c2 = cond()
        self.assume(lnot(c2))
        self.assumed.add('termination of the loop at line %d' % node.line)
        self.loops.append(dict(node=node, fn=self.frames[-1].fn if self.frames else None, invariants=[f(cur) for f in cands], entry=v0, carried=cur, after=S1v,
                               cond=cv, hyps=pc + [f(cur) for f in cands] + pcx))
        return UNIT

    def holds(self, hyps, goal, timeout=10):
        if goal is TRUE:
            return True
        return Prover(hyps, timeout=timeout).prove(goal).status == 'proved'

    def carry_seq(self, v0, b, base, rid):
        root = ('root', base, TM._fresh[0])
        TM._fresh[0] += 1
        if isinstance(b, Poison) or not isinstance(b, Seq):
            return Poison('loop-carried sequence'), 'drop', v0
        if v0.el is not None:
            # becomes symbolic
            el = v0.el
            if el:
                src = v0
                v0 = Seq(None, ic(len(el)), src.get)
            else:
                sample = b.el[0] if b.el is not None and b.el else None
                if sample is None:
                    if b.el is None:
                        sample = b.get(bvar('s'))
                    else:
                        return Poison('empty sequence'), 'drop', v0
                sm = sample
                v0 = Seq(None, ic(0), lambda j: sm)
        grows = (b.el is not None) or (b.n is not v0.n)
        tmp = self.fresh_like(Seq(None, v0.n, v0.get), base)
        nn = v0.n
        if grows:
            nm = '%s.len!%d' % (base, TM._fresh[0])
            TM._fresh[0] += 1
            decl(nm, I)
            self._syms.append(nm)
            nn = app(nm)
        return Seq(None, nn, tmp.g, root), 'seq', v0

    def solve(self, kk, carried, S1v, node):
        """closed forms of the carried leaves as functions of the iteration number"""
        F = {}
        check = []
        opaque = []
        name_of = {}
        for key, (v0, val, names, kind) in carried.items():
            for nm in names:
                name_of[nm] = key
        sols = {}       # symbol -> fn(kterm, args) -> term

        def deps(t):
            return {x.a[0] for x in walk(t) if x.op == 'app' and x.a[0] in name_of}

        def vdeps(v):
            s = set()
            vmap_collect(v, lambda t: s.update(deps(t)))
            return s

        def tr(t, k):
            return rewrite(t, {kk: k}, {nm: (lambda f: lambda args: f(k, args))(f) for nm, f in sols.items()})

        todo = [key for key in carried if carried[key][3] != 'drop']

        def solve_T(key):
            v0, val, names, _ = carried[key]
            new = S1v[key]
            if not isinstance(new, T):
                raise Unsupported('loop-carried scalar becomes %s' % type(new).__name__)
            c = val
            me = names[0]
            d = lindelta(new, c)
            if d is not None:
                if not (deps(d) <= set(sols)):
                    return False
                if c.s == R:
                    def f(k, args=(), d=d):
                        b = bvar('i')
                        return radd(v0, sumt(b, ic(0), k, tr(d, b)))
                    if d is ZERO:
                        f = lambda k, args=(): v0
                    else:
                        dd = tr(d, kk)
                        if kk not in walk(dd):
                            f = lambda k, args=(): radd(v0, rmul(toreal(k), dd))
                else:
                    dd = tr(d, kk)
                    if kk in walk(dd):
                        return None
                    f = lambda k, args=(): iadd(v0, imul(dd, k))
                sols[me] = f
                F[key] = lambda k: f(k)
                return True
            if c not in walk(new) and me not in deps(new):
                if not (deps(new) <= set(sols)):
                    return False
                f = lambda k, args=(): ite(le(k, ic(0)), v0, tr(new, isub(k, ic(1))))
                sols[me] = f
                F[key] = lambda k: f(k)
                return True
            return None

        def make_opaque(key):
            v0, val, names, _ = carried[key]
            me = names[0]
            nm = 'it_%s' % me
            decl(nm, val.s)
            f = lambda k, args=(): ite(le(k, ic(0)), v0, app(nm, k)) if iconst(k) != 0 else v0
            sols[me] = f
            F[key] = lambda k: f(k)
            opaque.append(key)
            # its recurrence: value after iteration k (k counted from 0)
            self.recs[nm] = lambda k, key=key: tr(S1v[key], k)

        def solve_seq(key):
            v0, val, names, _ = carried[key]
            new = S1v[key]
            if not isinstance(new, Seq) or new.root != val.root:
                # replaced wholesale: last value
                if isinstance(new, Seq):
                    dn = vdeps(new)
                    if not (dn & set(names)) and dn <= set(sols):
                        F[key] = lambda k: merge(le(k, ic(0)), v0, vmap(new, lambda t: tr(t, isub(k, ic(1)))))
                        for nm in names:
                            sols[nm] = _unav
                        return True
                raise Unsupported('loop-carried sequence has no closed form')
            own = set(names)
            if new.pushes and new.writes:
                raise Unsupported('pushes and writes in one loop')
            if new.pushes:
                if any(c is not TRUE for c, _ in new.pushes):
                    raise Unsupported('conditional push')
                ds = set()
                for _, v in new.pushes:
                    ds |= vdeps(v)
                if ds & own:
                    raise Unsupported('push depends on the sequence being built')
                if not ds <= set(sols):
                    return False
                p = len(new.pushes)
                n0 = v0.n

                def f(k):
                    def g(j):
                        off = isub(j, n0)
                        it = idiv(off, ic(p))
                        r = None
                        for m in range(p - 1, -1, -1):
                            x = vmap(new.pushes[m][1], lambda t: tr(t, it))
                            r = x if r is None else merge(eq(imod(off, ic(p)), ic(m)), x, r)
                        if iconst(n0) == 0:
                            return r
                        return merge(lt(j, n0), v0.get(j), r)
                    return Seq(None, iadd(n0, imulc(k, p)), g)
                F[key] = f
                for nm in names:
                    sols[nm] = _unav
                return True
            ds = set()
            for c, i, v in new.writes:
                ds |= deps(c) | deps(i) | vdeps(v)
            if not (ds - own) <= set(sols):
                return False
            if not new.writes:
                raise Unsupported('sequence changed without a write')
            acc = self.accumulation(new, val, own, deps)
            if acc is not None:
                c0, i0, d0 = acc

                def f(k):
                    def g(j):
                        b = bvar('i')
                        return radd(v0.get(j), sumt(b, ic(0), k, ite(land(tr(c0, b), eq(tr(i0, b), j)), tr(d0, b), ZERO)))
                    return Seq(None, v0.n, g)
                F[key] = f
                for nm, path in self.sym_paths(val, names).items():
                    sols[nm] = (lambda path: lambda k, args: get_path(f(k).get(args[0]), path) if len(args) == 1 else _unav(k, args))(path)
                return True
            # own reads see the initial content (checked afterwards)
            for nm in names:
                sols[nm] = None
            init = self.init_fun(val, v0, names)
            tr0 = lambda t, k: rewrite(t, {kk: k}, {**{nm: (lambda f: lambda args: f(k, args))(f) for nm, f in sols.items() if f is not None}, **init})
            ws = []
            for c, i, v in new.writes:
                a, b0 = affine(tr0(i, kk), kk)
                if a is None:
                    raise Unsupported('write at a non-affine index')
                ws.append((c, a, b0, v))

            def f(k):
                def g(j):
                    r = v0.get(j)
                    for c, a, b0, v in ws:
                        if a == 0:
                            hit = land(eq(j, b0), lt(ic(0), k))
                            it = isub(k, ic(1))
                        else:
                            off = isub(j, b0)
                            if a < 0:
                                off = imulc(off, -1)
                            it = idiv(off, ic(abs(a)))
                            hit = land(le(ic(0), off), eq(imod(off, ic(abs(a))), ic(0)), lt(it, k))
                        if c is not TRUE:
                            hit = land(hit, tr0(c, it))
                        r = merge(hit, vmap(v, lambda t: tr0(t, it)), r)
                    return r
                return Seq(None, v0.n, g)
            F[key] = f
            memo = {}

            def elt(nm_path):
                pass
            # element reads by other leaves: element of the closed form at iteration k
            for nm, path in self.sym_paths(val, names).items():
                sols[nm] = (lambda path: lambda k, args: get_path(f(k).get(args[0]), path) if len(args) == 1 else _unav(k, args))(path)
            check.append(key)
            return True

        def solve_trace(key):
            v0, val, names, _ = carried[key]
            new = S1v[key]
            if not isinstance(new, TraceV) or new.root != val.root:
                raise Unsupported('trace')
            ds = set()
            tdeps(new.segs, lambda t: ds.update(deps(t)))
            if not ds <= set(sols):
                return False
            F[key] = lambda k: TraceV(v0.segs + (('rep', k, lambda i: tmap(new.segs, lambda t: tr(t, i))),), v0.root)
            return True

        def solve_text(key):
            v0, val, names, _ = carried[key]
            new = S1v[key]
            at = str_atoms(new.parts) if isinstance(new, StrV) else ()
            root = val.parts[0]
            if not at or at[0] != root or any(p[:2] == root[:2] for p in at[1:] if not isinstance(p, str)):
                raise Unsupported('text that is not appended to')
            rest = StrV(tuple(at[1:]))
            if not vdeps(rest) <= set(sols):
                return False
            F[key] = lambda k: StrV(v0.parts + (('rep', k, lambda i: vmap(rest, lambda t: tr(t, i)).parts),))
            return True

        while todo:
            progress = False
            bad = []
            for key in list(todo):
                kind = carried[key][3]
                r = solve_T(key) if kind == 'T' else solve_seq(key) if kind == 'seq' else solve_text(key) if kind == 'text' else solve_trace(key)
                if r is True:
                    todo.remove(key)
                    progress = True
                elif r is None:
                    bad.append(key)
            if not progress:
                cand = [k for k in bad if carried[k][3] == 'T'] or [k for k in todo if carried[k][3] == 'T']
                if not cand:
                    raise Unsupported('cyclic loop-carried sequences')
                make_opaque(cand[0])
                todo.remove(cand[0])
        return F, check, opaque

    def accumulation(self, new, val, own, deps):
        """one write A[i] = A[i] + d per iteration, i and d not depending on A"""
        if len(new.writes) != 1:
            return None
        c, i, v = new.writes[0]
        if not isinstance(v, T) or v.s != R or (deps(c) | deps(i)) & own:
            return None
        old = val.get(i)
        if not isinstance(old, T):
            return None
        d = lindelta(v, old)
        if d is None or deps(d) & own:
            return None
        return c, i, d

    def init_fun(self, val, v0, names):
        """symbol -> fn(args) reading the initial sequence"""
        out = {}
        for nm, path in self.sym_paths(val, names).items():
            if path is None:
                out[nm] = lambda args: v0.n
            else:
                out[nm] = (lambda path: lambda args: get_path(v0.get(args[0]), path))(path)
        return out

    def sym_paths(self, val, names):
        j = bvar('p')
        el = val.get(j)
        out = {}
        if isinstance(val.n, T) and val.n.op == 'app' and val.n.a[0] in names:
            out[val.n.a[0]] = None
        for path, x in leaves(el):
            if isinstance(x, T) and x.op == 'app' and x.a[0] in names:
                out[x.a[0]] = strip_e(path)
        return out

    def e_while(self, e, env):
        if e.d.get('label'):
            raise Unsupported('label')
        cc = self.flat(e.c)
        if any(c.k == 'iflet' for c in cc):
            raise Unsupported('while let')
        cond = lambda: self.rv(e.c, env)

        def body(k):
            self.block(e.b, env)
        self.symbolic(None, body, e, cond=cond)
        return UNIT

    def e_loop(self, e, env):
        # loop { if c {break;} ... }  ==  while !c { ... }
        b = e.b
        if b.stmts and b.stmts[0].k == 'expr' and b.stmts[0].e.k == 'if':
            i = b.stmts[0].e
            if i.b is None and i.a.tail is None and len(i.a.stmts) == 1 and i.a.stmts[0].k == 'expr' and i.a.stmts[0].e.k == 'break' or \
                    i.b is None and not i.a.stmts and i.a.tail is not None and i.a.tail.k == 'break':
                rest = N('block', b.line, stmts=b.stmts[1:], tail=b.tail, label=None)
                w = N('while', e.line, c=N('unary', e.line, op='!', e=N('paren', e.line, e=i.c)), b=rest, label=None)
                return self.e_while(w, env)
        raise Unsupported('loop')


def _unav(k, args):
    raise Unsupported('sequence read inside the loop that builds it')


def strip_e(path):
    return path


def set_path_e(v, path, new):
    return set_path(v, path, new)


def vmap_collect(v, f):
    if isinstance(v, T):
        f(v)
    elif isinstance(v, StructV):
        for x in v.f.values():
            vmap_collect(x, f)
    elif isinstance(v, TupV):
        for x in v.el:
            vmap_collect(x, f)
    elif isinstance(v, Seq):
        if v.el is not None:
            for x in v.el:
                vmap_collect(x, f)
        else:
            f(v.n)
            vmap_collect(v.get(bvar('d')), f)
    elif isinstance(v, EnumV):
        f(v.t)
    elif isinstance(v, OptV):
        f(v.some)
        if v.v is not None:
            vmap_collect(v.v, f)
    elif isinstance(v, (tuple, list)):
        for x in v:
            vmap_collect(x(bvar('d')) if callable(x) else x, f)
    elif isinstance(v, StrV):
        vmap_collect(v.parts, f)
    elif isinstance(v, Opq):
        for x in v.d.values():
            vmap_collect(x, f)


def str_atoms(parts):
    """parts of a text, texts inside it opened"""
    out = []
    for p in parts:
        if isinstance(p, tuple) and p[0] == 'arg' and isinstance(p[1], StrV) and p[2] == '':
            out += str_atoms(p[1].parts)
        else:
            out.append(p)
    return out


def tdeps(segs, f):
    for s in segs:
        if s[0] == 'ev':
            vmap_collect(s[1], f)
        elif s[0] == 'if':
            f(s[1])
            tdeps(s[2], f)
            tdeps(s[3], f)
        else:
            f(s[1])
            tdeps(s[2](bvar('d')), f)


def rewrite(t, vars_, funs):
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        if x in vars_:
            r = vars_[x]
        elif x.op == 'app' and x.a[0] in funs:
            r = funs[x.a[0]](tuple(go(y) for y in x.a[1:]))
        else:
            r = rebuild(x, go)
        memo[x] = r
        return r
    return go(t)


def lindelta(t, c):
    """d with t == c + d and d free of c, or None"""
    if t is c:
        return ZERO if c.s == R else ic(0)
    if c not in walk(t):
        return None
    if c.s == R:
        if t.op == 'r+':
            hit = [x for x in t.a if c in walk(x)]
            if len(hit) != 1:
                return None
            d = lindelta(hit[0], c)
            if d is None:
                return None
            return radd(d, *[x for x in t.a if x is not hit[0]])
        if t.op == 'ite' and c not in walk(t.a[0]):
            a, b = lindelta(t.a[1], c), lindelta(t.a[2], c)
            if a is None or b is None:
                return None
            return ite(t.a[0], a, b)
        return None
    if t.op == 'lin':
        k, d = TM._lin(t)
        if d.get(c) == 1:
            d = dict(d)
            del d[c]
            r = TM._mklin(k, d)
            return r if c not in walk(r) else None
        its = [x for x in d if x.op == 'ite' and c in walk(x)]
        if len(its) == 1 and d[its[0]] == 1 and c not in walk(TM._mklin(k, {x: v for x, v in d.items() if x is not its[0]})):
            i = lindelta(its[0], c)
            return None if i is None else iadd(i, TM._mklin(k, {x: v for x, v in d.items() if x is not its[0]}))
        return None
    if t.op == 'ite' and c not in walk(t.a[0]):
        a, b = lindelta(t.a[1], c), lindelta(t.a[2], c)
        if a is None or b is None:
            return None
        return ite(t.a[0], a, b)
    return None


def affine(t, k):
    c, d = TM._lin(t)
    a = d.pop(k, 0) if d else 0
    r = TM._mklin(c, d)
    if k in walk(r):
        return None, None
    return a, r


F1 = {'sin', 'cos', 'tan', 'sqrt', 'abs', 'powi', 'powf', 'exp', 'ln', 'tanh', 'atan', 'atan2', 'acos', 'asin', 'floor', 'ceil',
      'round', 'trunc', 'signum', 'min', 'max', 'mul_add', 'hypot', 'to_radians', 'sin_cos', 'recip', 'rem_euclid', 'is_nan',
      'is_finite', 'is_infinite', 'clamp', 'sinh', 'cosh', 'fract', 'exp2', 'log10', 'total_cmp', 'partial_cmp', 'copysign', 'to_degrees', 'ln_1p', 'exp_m1'}
