"""Methods of floats, integers, sequences, iterators, options, strings."""
from .ev import *
from .ev import Engine as Base, rround, rtrunc


def gen_u(m, k):
    return m.rng.random()


def gen_n(m, k):
    return m.rng.gauss(0, 1)


def gen_g(m, k, n):
    return m.rng.randrange(n) if n > 0 else 0


decl('U01', R, gen_u, lambda k: [le(ZERO, app('U01', k)), lt(app('U01', k), ONE)])
decl('N01', R, gen_n)
decl('Gidx', I, gen_g, lambda k, n: [le(ic(0), app('Gidx', k, n)), lor(le(n, ic(0)), lt(app('Gidx', k, n), n))])

NOOP = {'set_style', 'set_position', 'set_message', 'inc', 'finish', 'finish_and_clear', 'finish_with_message', 'join',
        'join_and_clear', 'template', 'progress_chars', 'enable_steady_tick', 'flush', 'tick', 'println', 'set_length', 'reset'}


class Engine(Base):
    def method(self, m, r, v, args, e, env):
        if isinstance(v, T):
            if v.s == R:
                return self.m_float(m, v, [self.val(a) for a in args], e)
            if v.s == I:
                return self.m_int(m, v, [self.val(a) for a in args], e)
            if m in ('clone', 'to_owned'):
                return v
            if m == 'then':
                return OptV(v, self.apply(args[0], []))
            if m == 'then_some':
                return OptV(v, self.val(args[0]))
        if m in ('clone', 'to_owned', 'as_slice', 'borrow', 'as_ref', 'to_vec', 'into_boxed_slice', 'by_ref', 'deref', 'as_mut_slice', 'copied', 'cloned') and not isinstance(v, (IterV, RangeV)):
            if isinstance(v, StructV) and m == 'as_ref':
                return v
            return v
        if isinstance(v, RangeV):
            if m == 'contains':
                x = self.val(args[0])
                return land(le(v.lo, x), lt(x, v.hi))
            return self.m_iter(m, self.to_iter(v, e), args, e)
        if isinstance(v, IterV):
            return self.m_iter(m, v, args, e)
        if isinstance(v, Seq):
            return self.m_seq(m, v, args, e)
        if isinstance(v, OptV):
            return self.m_opt(m, v, args, e)
        if isinstance(v, StrV):
            return self.m_str(m, v, args, e)
        if isinstance(v, Opq):
            return self.m_opq(m, r, v, args, e, env)
        if isinstance(v, StructV) and v.name == 'Complex':
            re, im = v.f['re'], v.f['im']
            if m == 'norm_sqr':
                return radd(rmul(re, re), rmul(im, im))
            if m in ('norm', 'abs'):
                return sqrt(radd(rmul(re, re), rmul(im, im)))
            if m == 'conj':
                return StructV('Complex', {'re': re, 'im': rneg(im)})
        if isinstance(v, EnumV) and m == 'clone':
            return v
        raise Unsupported('method %s on %s' % (m, type(v).__name__))

    def m_opq(self, m, r, v, args, e, env):
        if v.kind == 'fftp' and m in ('plan_fft_forward',):
            return Opq('fft', n=self.val(args[0]))
        if m in NOOP:
            return UNIT if m not in ('template', 'progress_chars') else v
        raise Unsupported('method %s on %s' % (m, v.kind))

    # ------------------------------------------------------------ floats
    def m_float(self, m, x, a, e):
        if m in ('sin', 'cos', 'tanh', 'atan', 'sinh', 'cosh', 'tan'):
            if m == 'tan':
                self.oblig('domain', lnot(eq(fn('cos', x), ZERO)), e, 'tan is defined')
                return rdiv(fn('sin', x), fn('cos', x))
            return fn(m, x)
        if m == 'exp':
            return fn('exp', x)
        if m == 'sin_cos':
            return TupV([fn('sin', x), fn('cos', x)])
        if m == 'sqrt':
            self.oblig('domain', le(ZERO, x), e, 'sqrt of a non-negative number')
            return sqrt(x)
        if m in ('acos', 'asin'):
            self.oblig('domain', land(le(rc(-1), x), le(x, ONE)), e, m + ' argument in [-1,1]')
            return fn(m, x)
        if m == 'ln':
            self.oblig('domain', lt(ZERO, x), e, 'ln of a positive number')
            return fn('ln', x)
        if m == 'abs':
            return fn('abs', x)
        if m == 'atan2':
            return fn('atan2', x, a[0])
        if m == 'powi':
            k = iconst(a[0])
            if k is None or abs(k) > 12:
                raise Unsupported('powi')
            if k >= 0:
                return rmul(*([x] * k)) if k else ONE
            self.oblig('domain', lnot(eq(x, ZERO)), e, 'divisor is non-zero')
            return rdiv(ONE, rmul(*([x] * -k)))
        if m == 'powf':
            if a[0].op == 'rc' and a[0].a[0].denominator == 1 and 0 <= a[0].a[0] <= 12:
                return rmul(*([x] * int(a[0].a[0]))) if a[0].a[0] else ONE
            if a[0].op == 'rc' and a[0].a[0] == Fr(1, 2):
                return self.m_float('sqrt', x, [], e)
            raise Unsupported('powf')
        if m == 'floor':
            return toreal(floor(x))
        if m == 'ceil':
            return toreal(imulc(floor(rneg(x)), -1))
        if m == 'round':
            return toreal(rround(x))
        if m == 'trunc':
            return toreal(rtrunc(x))
        if m == 'fract':
            return rsub(x, toreal(rtrunc(x)))
        if m == 'signum':
            return ite(le(ZERO, x), ONE, rc(-1))
        if m == 'copysign':
            return ite(le(ZERO, a[0]), fn('abs', x), rneg(fn('abs', x)))
        if m in ('exp_m1', 'ln_1p'):
            return rsub(self.m_float('exp', x, [], e), ONE) if m == 'exp_m1' else self.m_float('ln', radd(ONE, x), [], e)
        if m == 'abs_sub':
            return ite(le(x, a[0]), ZERO, rsub(x, a[0]))
        if m == 'min':
            return ite(le(x, a[0]), x, a[0])
        if m == 'max':
            return ite(le(x, a[0]), a[0], x)
        if m == 'clamp':
            return ite(lt(x, a[0]), a[0], ite(lt(a[1], x), a[1], x))
        if m == 'mul_add':
            return radd(rmul(x, a[0]), a[1])
        if m == 'hypot':
            return sqrt(radd(rmul(x, x), rmul(a[0], a[0])))
        if m == 'recip':
            self.oblig('domain', lnot(eq(x, ZERO)), e, 'divisor is non-zero')
            return rdiv(ONE, x)
        if m == 'rem_euclid':
            self.oblig('domain', lnot(eq(a[0], ZERO)), e, 'divisor is non-zero')
            ab = fn('abs', a[0])
            return rsub(x, rmul(ab, toreal(floor(rdiv(x, ab)))))
        if m == 'to_radians':
            return rmul(x, rdiv(PI, rc(180)))
        if m in ('clone', 'to_owned', 'into'):
            return x
        if m == 'is_nan' or m == 'is_infinite':
            return FALSE
        if m == 'is_finite':
            return TRUE
        if m == 'is_sign_negative':
            return lt(x, ZERO)
        if m == 'is_sign_positive':
            return le(ZERO, x)
        if m == 'to_string':
            return StrV((('arg', x, ''),))
        raise Unsupported('f64::' + m)

    def m_int(self, m, x, a, e):
        if m in ('clone', 'to_owned', 'into'):
            return x
        if m == 'to_string':
            return StrV((('arg', x, ''),))
        if m in ('rem_euclid', 'div_euclid'):
            self.oblig('panic', lnot(eq(a[0], ic(0))), e, 'integer divisor is non-zero')
            return imod(x, a[0]) if m == 'rem_euclid' else idiv(x, a[0])
        if m == 'pow':
            k = iconst(a[0])
            if k is None or k > 10:
                raise Unsupported('pow')
            r = ic(1)
            for _ in range(k):
                r = imul(r, x)
            return r
        if m == 'min':
            return ite(le(x, a[0]), x, a[0])
        if m == 'max':
            return ite(le(x, a[0]), a[0], x)
        if m == 'abs':
            return ite(le(ic(0), x), x, imulc(x, -1))
        if m == 'saturating_sub':
            return ite(le(a[0], x), isub(x, a[0]), ic(0))
        if m in ('wrapping_add', 'saturating_add'):
            return iadd(x, a[0])
        if m == 'wrapping_sub':
            self.oblig('overflow', le(a[0], x), e, 'wrapping subtraction does not wrap')
            return isub(x, a[0])
        if m == 'checked_sub':
            return OptV(le(a[0], x), isub(x, a[0]))
        if m == 'is_multiple_of':
            return eq(imod(x, a[0]), ic(0))
        if m == 'try_into':
            return OptV(TRUE, x)
        raise Unsupported('integer method ' + m)

    # ------------------------------------------------------------ sequences
    def m_seq(self, m, v, args, e):
        if m == 'len':
            return v.n
        if m == 'is_empty':
            return eq(v.n, ic(0))
        if m in ('iter', 'into_iter'):
            return IterV(v.n, v.get)
        if m == 'first':
            return OptV(lt(ic(0), v.n), v.get(ic(0)) if iconst(v.n) != 0 else None)
        if m == 'last':
            return OptV(lt(ic(0), v.n), v.get(isub(v.n, ic(1))) if iconst(v.n) != 0 else None)
        if m == 'get':
            i = self.val(args[0])
            if isinstance(i, T):
                try:
                    return OptV(land(le(ic(0), i), lt(i, v.n)), v.get(i))
                except Dead:
                    return OptV(FALSE, None)
        if m == 'join':
            parts = []
            if v.el is None:
                raise Unsupported('join')
            sep = self.val(args[0])
            for k, x in enumerate(v.el):
                if k:
                    parts.extend(sep.parts)
                parts.extend(self.val(x).parts)
            return StrV(parts)
        if m == 'concat' and v.el is not None:
            parts = []
            for x in v.el:
                parts.extend(self.val(x).parts)
            return StrV(parts)
        if m == 'map' and v.el is not None:
            return Seq([self.val(self.apply(args[0], [x])) for x in v.el])
        if m == 'split_at':
            i = self.val(args[0])
            self.oblig('bounds', land(le(ic(0), i), le(i, v.n)), e)
            return TupV([v.slice(ic(0), i), v.slice(i, v.n)])
        if m == 'windows':
            w = self.val(args[0])
            n = ite(le(w, v.n), iadd(isub(v.n, w), ic(1)), ic(0))
            if self.decide(le(w, v.n)) is True:
                n = iadd(isub(v.n, w), ic(1))
            return IterV(n, lambda k: v.slice(k, iadd(k, w)))
        if m in ('chunks', 'chunks_exact'):
            w = self.val(args[0])
            if iconst(w) is None:
                raise Unsupported('chunks')
            if self.decide(eq(imod(v.n, w), ic(0))) is not True:
                if m == 'chunks':
                    raise Unsupported('chunks')
            return IterV(idiv(v.n, w), lambda k: v.slice(imul(k, w), iadd(imul(k, w), w)))
        if m in ('iter_mut',):
            raise Unsupported('iter_mut of a temporary')
        if m in ('contains',):
            raise Unsupported('contains')
        raise Unsupported('sequence method ' + m)

    def m_mut(self, m, p, v, args, e, env):
        if isinstance(v, Seq):
            if m == 'push':
                self.write(p, v.push(self.val(args[0])))
                return UNIT
            if m in ('iter_mut',):
                return IterV(v.n, lambda k: RefV(p.cell, p.path + (('i', k),)))
            if m == 'swap':
                i, j = self.val(args[0]), self.val(args[1])
                self.oblig('bounds', land(le(ic(0), i), lt(i, v.n), le(ic(0), j), lt(j, v.n)), e)
                self.write(p, v.set(i, v.get(j)).set(j, v.get(i)))
                return UNIT
            if m == 'clear':
                self.write(p, Seq([]))
                return UNIT
            if m == 'fill':
                x = self.val(args[0])
                self.write(p, Seq([x] * len(v.el)) if v.el is not None else Seq(None, v.n, lambda j: x))
                return UNIT
            if m in ('as_mut', 'as_mut_slice'):
                return p
            if m in ('copy_from_slice', 'clone_from_slice'):
                self.write(p, self.val(args[0]))
                return UNIT
            if m in ('extend', 'extend_from_slice', 'append'):
                it = self.to_iter(self.val(args[0]), e)

                def body(k):
                    self.write(p, self.val(p).push(self.val(it.get(k))))
                self.run_loop(it.n, body, e)
                return UNIT
            if m == 'reverse':
                old = v
                self.write(p, Seq(list(reversed(v.el))) if v.el is not None else Seq(None, v.n, lambda j: old.get(isub(isub(old.n, ic(1)), j))))
                return UNIT
            if m in ('first_mut', 'last_mut', 'get_mut'):
                i = ic(0) if m == 'first_mut' else isub(v.n, ic(1)) if m == 'last_mut' else self.val(args[0])
                return OptV(land(le(ic(0), i), lt(i, v.n)), RefV(p.cell, p.path + (('i', i),)))
            if m == 'resize':
                x = self.val(args[1])
                n = self.val(args[0])
                old = v
                self.write(p, Seq(None, n, lambda j: merge(lt(j, old.n), old.get(j), x)))
                return UNIT
            if m == 'chunks_mut' or m == 'chunks_exact_mut':
                w = self.val(args[0])
                if iconst(w) is None or self.decide(eq(imod(v.n, w), ic(0))) is not True:
                    raise Unsupported('chunks_mut')
                return IterV(idiv(v.n, w), lambda k: RefV(p.cell, p.path + (('s', (imul(k, w), iadd(imul(k, w), w))),)))
        if isinstance(v, StrV):
            if m == 'push_str' or m == 'push':
                self.write(p, StrV(v.parts + self.val(args[0]).parts))
                return UNIT
            if m == 'clear':
                self.write(p, StrV(()))
                return UNIT
        if isinstance(v, OptV) and m in ('as_mut',):
            return OptV(v.some, RefV(p.cell, p.path + (('o', None),)))
        if isinstance(v, StructV) and ((v.name, m) in self.prog.fns):
            return self.call((v.name, m), [p] + args, e)
        if isinstance(v, Opq):
            return self.m_opq(m, p, v, args, e, env)
        raise Unsupported('method %s on %s' % (m, type(v).__name__))

    # ------------------------------------------------------------ iterators
    def m_iter(self, m, it, args, e):
        if m in ('iter', 'into_iter', 'by_ref'):
            return it
        if m in ('cloned', 'copied'):
            return IterV(it.n, lambda k: self.val(it.get(k)), it.lazy)
        if m == 'enumerate':
            return IterV(it.n, lambda k: TupV([k, it.get(k)]), it.lazy)
        if m == 'map':
            f = args[0]
            return IterV(it.n, lambda k: self.apply(f, [it.get(k)]), True)
        if m == 'inspect':
            f = args[0]

            def g(k):
                x = it.get(k)
                self.apply(f, [x])
                return x
            return IterV(it.n, g, True)
        if m == 'zip':
            o = args[0]
            o = self.to_iter(o if isinstance(o, RefV) else self.val(o), e)
            if it.n is None:
                n = o.n
            elif o.n is None:
                n = it.n
            else:
                n = self.imin(it.n, o.n)
            return IterV(n, lambda k: TupV([it.get(k), o.get(k)]), it.lazy or o.lazy)
        if m == 'take':
            c = self.val(args[0])
            n = c if it.n is None else self.imin(it.n, c)
            return IterV(n, it.get, it.lazy)
        if m == 'skip':
            c = self.val(args[0])
            n = None
            if it.n is not None:
                n = isub(it.n, c) if self.decide(le(c, it.n)) is True else ite(le(c, it.n), isub(it.n, c), ic(0))
                if iconst(it.n) is not None and iconst(c) is not None:
                    n = ic(max(0, iconst(it.n) - iconst(c)))
            return IterV(n, self.pureget(lambda k: it.get(iadd(k, c)), it.lazy), it.lazy)
        if m == 'step_by':
            c = self.val(args[0])
            self.oblig('panic', lt(ic(0), c), e, 'step is positive')
            n = None if it.n is None else idiv(iadd(it.n, isub(c, ic(1))), c)
            return IterV(n, self.pureget(lambda k: it.get(imul(k, c)), it.lazy), it.lazy)
        if m == 'rev':
            n = it.n
            return IterV(n, self.pureget(lambda k: it.get(isub(isub(n, ic(1)), k)), it.lazy), it.lazy)
        if m == 'chain':
            o = self.to_iter(self.val(args[0]), e)
            n1 = it.n

            def g(k):
                return self.branch(lt(k, n1), lambda: it.get(k), lambda: o.get(isub(k, n1)))
            return IterV(iadd(it.n, o.n), g, it.lazy or o.lazy)
        if m == 'cycle':
            n1 = it.n
            return IterV(None, self.pureget(lambda k: it.get(imod(k, n1)), it.lazy), it.lazy)
        if m == 'peekable' or m == 'fuse':
            return it
        if m in ('len', 'count') and not it.lazy:
            return it.n
        # consumers
        if m == 'collect' and iconst(it.n) is None and self.wants_string(e):
            c = self.newcell(StrV(()))

            def body(k):
                x = self.val(it.get(k))
                if not isinstance(x, StrV):
                    raise Unsupported('collect to a text')
                self.st[c] = StrV(self.st[c].parts + x.parts)
            self.run_loop(it.n, body, e)
            return self.st.pop(c)
        if m == 'collect' or m == 'to_vec':
            c = self.newcell(Seq([]))

            def body(k):
                x = self.val(it.get(k))
                self.st[c] = self.st[c].push(x)
            self.run_loop(it.n, body, e)
            r = self.st.pop(c)
            if r.el is not None and r.el and isinstance(r.el[0], StrV) and self.wants_string(e):
                return StrV(sum((x.parts for x in r.el), ()))
            return r
        if m == 'sum' or m == 'product':
            srt = R
            g = e.g
            if g and g[0].k == 'path' and g[0].segs[-1] in ('usize', 'u64', 'i32', 'u32', 'i64'):
                srt = I
            if m == 'product':
                c = self.newcell(ONE if srt == R else ic(1))
            else:
                c = self.newcell(ZERO if srt == R else ic(0))

            def body(k):
                x = self.val(it.get(k))
                cur = self.st[c]
                if x.s != cur.s:
                    if cur is ZERO or cur is ic(0):
                        cur = ZERO if x.s == R else ic(0)
                    else:
                        raise Unsupported('sum sort')
                self.st[c] = (radd(cur, x) if x.s == R else iadd(cur, x)) if m == 'sum' else (rmul(cur, x) if x.s == R else imul(cur, x))
            self.run_loop(it.n, body, e)
            return self.st.pop(c)
        if m == 'fold':
            c = self.newcell(self.val(args[0]))
            f = args[1]

            def body(k):
                x = it.get(k)
                self.st[c] = self.val(self.apply(f, [self.st[c], x]))
            self.run_loop(it.n, body, e)
            return self.st.pop(c)
        if m == 'for_each':
            f = args[0]
            self.run_loop(it.n, lambda k: self.apply(f, [it.get(k)]), e)
            return UNIT
        if m in ('all', 'any') and iconst(it.n) is not None:
            r = m == 'all'
            acc = TRUE if r else FALSE
            for k in range(iconst(it.n)):
                b = self.val(self.apply(args[0], [it.get(ic(k))]))
                acc = land(acc, b) if r else lor(acc, b)
            return acc
        if m == 'last' and not it.lazy:
            return OptV(lt(ic(0), it.n), it.get(isub(it.n, ic(1))))
        if m == 'nth' and not it.lazy:
            k = self.val(args[0])
            return OptV(lt(k, it.n), it.get(k))
        if m == 'next' and not it.lazy:
            return OptV(lt(ic(0), it.n), it.get(ic(0)))
        if m == 'unzip':
            c1, c2 = self.newcell(Seq([])), self.newcell(Seq([]))

            def body(k):
                x = self.val(it.get(k))
                self.st[c1] = self.st[c1].push(self.val(x.el[0]))
                self.st[c2] = self.st[c2].push(self.val(x.el[1]))
            self.run_loop(it.n, body, e)
            return TupV([self.st.pop(c1), self.st.pop(c2)])
        raise Unsupported('iterator method ' + m)

    def wants_string(self, e):
        g = e.g
        return bool(g) and g[0].k == 'path' and g[0].segs[-1] == 'String'

    def imin(self, a, b):
        if a is b:
            return a
        ca, cb = iconst(a), iconst(b)
        if ca is not None and cb is not None:
            return ic(min(ca, cb))
        d = self.decide(le(a, b))
        if d is True:
            return a
        if d is False:
            return b
        if self.decide(le(b, a)) is True:
            return b
        return ite(le(a, b), a, b)

    def pureget(self, g, lazy):
        if not lazy:
            return g

        def h(k):
            before = dict(self.st)
            x = g(k)
            for c in before:
                if self.st.get(c) is not before[c]:
                    raise Unsupported('effectful closure in a reordered iterator')
            return x
        return h

    # ------------------------------------------------------------ options
    def m_opt(self, m, v, args, e):
        if m in ('unwrap', 'expect'):
            self.oblig('panic', v.some, e, 'unwrap of a present value')
            return v.v
        if m in ('as_ref', 'as_mut', 'ok', 'as_deref', 'cloned', 'copied', 'take', 'map_err'):
            return v
        if m in ('is_some', 'is_ok'):
            return v.some
        if m in ('is_none', 'is_err'):
            return lnot(v.some)
        if m == 'unwrap_or':
            d = self.val(args[0])
            return d if v.v is None else merge(v.some, self.val(v.v), d)
        if m == 'unwrap_or_else':
            return self.branch(v.some, lambda: v.v, lambda: self.apply(args[0], []))
        if m == 'unwrap_or_default':
            return merge(v.some, v.v, ZERO if v.v.s == R else ic(0))
        if m == 'map':
            return self.branch(v.some, lambda: OptV(TRUE, self.apply(args[0], [v.v])), lambda: OptV(FALSE, None))
        if m == 'map_or':
            return self.branch(v.some, lambda: self.val(self.apply(args[1], [v.v])), lambda: self.val(args[0]))
        if m == 'and_then':
            return self.branch(v.some, lambda: self.apply(args[0], [v.v]), lambda: OptV(FALSE, None))
        raise Unsupported('Option::' + m)

    def m_str(self, m, v, args, e):
        if m in ('to_string', 'to_owned', 'clone', 'as_str', 'into', 'as_ref', 'as_bytes', 'into_bytes', 'to_str', 'display', 'trim'):
            return v
        if m == 'len':
            return app('strlen')
        if m in ('split', 'split_whitespace', 'split_ascii_whitespace'):
            sep = ' '
            if m == 'split':
                a = self.val(args[0])
                sep = a.parts[0] if isinstance(a, StrV) and len(a.parts) == 1 else a
            if sep != ' ' and not (isinstance(sep, T) and iconst(sep) == 32):
                raise Unsupported('split at %r' % (sep,))
            # numbers print without spaces
            out, cur = [], []
            for p in v.parts:
                if isinstance(p, str):
                    w = p.split(' ')
                    for k, x in enumerate(w):
                        if k:
                            out.append(cur)
                            cur = []
                        if x:
                            cur.append(x)
                elif p[0] == 'arg' and isinstance(p[1], T) and p[2] == '':
                    cur.append(p)
                else:
                    raise Unsupported('split of opaque text')
            out.append(cur)
            return self.to_iter(Seq([StrV(tuple(x)) for x in out]), e)
        if m == 'parse':
            if len(v.parts) != 1 or isinstance(v.parts[0], str) or not isinstance(v.parts[0][1], T):
                raise Unsupported('parse of opaque text')
            # what {} prints, parse reads back (guaranteed by std for integers and f64)
            x = v.parts[0][1]
            t = e.g[0].segs[-1] if e is not None and e.g and e.g[0].k == 'path' else None
            if t in ('f64', 'f32') and x.s == I:
                x = toreal(x)
            elif t not in ('f64', 'f32', None) and x.s == R:
                raise Unsupported('parse of a float as integer')
            return OptV(TRUE, x)
        raise Unsupported('string method ' + m)


decl('strlen', I)
