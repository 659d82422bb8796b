"""Decision procedures: Laurent-polynomial normal form over canonical atoms with
rewriting (sqrt^2, sin^2, unit spins), prefix-sum normal form for finite sums,
case splitting on integer/real conditions, z3 for integer side conditions and
(bounded effort) nonlinear real ones, random models to refute."""
from fractions import Fraction as Fr
import math
import random
import time
import z3
from .terms import *
from . import terms as TM


class NeedSplit(Exception):
    def __init__(self, c):
        self.c = c


class Budget(Exception):
    pass


STATS = {'z3_calls': 0, 'z3_time': 0.0, 'splits': 0, 'leaves': 0}

# ------------------------------------------------------------------ polynomials
# poly: dict  mono -> Fraction ; mono: tuple((atom, exp), ...) sorted by atom.id


def pconst(c):
    return {(): Fr(c)} if c else {}


def patom(a, e=1):
    return {((a, e),): Fr(1)}


def padd(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def mmul(m, n):
    if not m:
        return n
    if not n:
        return m
    d = {}
    for a, e in m:
        d[a] = e
    for a, e in n:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda x: x[0].id))


def pmul(p, q):
    if len(p) > len(q):
        p, q = q, p
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            x = mmul(m, n)
            v = r.get(x, 0) + c * d
            if v:
                r[x] = v
            else:
                r.pop(x, None)
    if len(r) > 60000:
        raise Budget('polynomial too large')
    return r


def pscale(p, c):
    return {m: v * c for m, v in p.items()} if c else {}


def mkey(m):
    return tuple((a.id, e) for a, e in m)


def to_term(p):
    """canonical term of a polynomial"""
    ts = []
    for m in sorted(p, key=mkey):
        fs = [rc(p[m])] if (p[m] != 1 or not m) else []
        for a, e in m:
            b = a.a[0] if a.op == 'poly' else a
            for _ in range(abs(e)):
                fs.append(b if e > 0 else mk('r/', (ONE, b), R))
        if len(fs) == 1:
            ts.append(fs[0])
        else:
            ts.append(mk('r*', tuple(fs), R))
    if not ts:
        return ZERO
    return ts[0] if len(ts) == 1 else mk('r+', tuple(ts), R)


def isconst(p):
    if not p:
        return Fr(0)
    if len(p) == 1 and () in p:
        return p[()]
    return None


def fsqrt(x):
    if x < 0:
        return None
    n, d = math.isqrt(x.numerator), math.isqrt(x.denominator)
    return Fr(n, d) if n * n == x.numerator and d * d == x.denominator else None


_pure = {}


def pure(t):
    """no ite / sum / floor / unit-symbol inside: the normal form is context independent"""
    r = _pure.get(t)
    if r is None:
        if t.op in ('ite', 'sum', 'forall', 'floor', 'app', 'var', 'psum', 'r/', 'toreal', 'fn'):
            r = False
        else:
            r = all(pure(x) for x in kids(t))
        _pure[t] = r
    return r


_glob = {}
_depth_bv = {}


def dbv(i):
    if i not in _depth_bv:
        _depth_bv[i] = mk('bv', ('%%s%d' % i,), I)
    return _depth_bv[i]


class Ctx:
    """hypotheses + caches"""

    def __init__(self, hyps=(), parent=None, deadline=None):
        self.parent = parent
        self.own = []
        self.signs = {}
        self.sub = {}
        self.pm = {}
        self.dec = {}
        self.noted = set()
        self.renormed = parent is None
        self._solver = None
        self._lf = None
        self.rewritten_any = False
        self.dead = False
        self.deadline = deadline if deadline else (parent.deadline if parent else None)
        self.bdepth = parent.bdepth if parent else 0
        for h in hyps:
            self.add(h)

    def child(self, *hyps):
        return Ctx(hyps, self)

    def tick(self):
        if self.deadline and time.time() > self.deadline:
            raise Budget('time')

    def all_hyps(self):
        c = self
        out = []
        while c:
            out.extend(c.own)
            c = c.parent
        return out

    def add(self, h):
        if h.op == 'and':
            for x in h.a:
                self.add(x)
            return
        if h is TRUE:
            return
        if h is FALSE:
            self.dead = True
            return
        self.own.append(h)
        self._solver = None
        self._lf = None
        self.dec = {}
        if h.op == 'ieq':
            self.learn(h)
        elif h.op == 'ile' and self.parent is not None:
            n = ile0(imulc(h.a[0], -1))
            c = self
            while c:
                if n in c.own:
                    self.learn(ieq0(h.a[0]))
                    break
                c = c.parent
        if h.op in ('rlt', 'rle', 'req'):
            try:
                p = self.P(rsub(h.a[1], h.a[0]))
            except (NeedSplit, Budget):
                return
            sg = {'rlt': {1}, 'rle': {0, 1}, 'req': {0}}[h.op]
            self.addsign(p, sg)
            q, f = self.strip(p)
            if f in ({1}, {-1}):
                # the rest of a product with a factor of known sign
                if f == {-1}:
                    q = {m: -c for m, c in q.items()}
                z = self.as_int_scaled(q)
                if z is not None:
                    self.add({'rlt': lt(ic(0), z), 'rle': le(ic(0), z), 'req': ieq0(z)}[h.op])
        elif h.op == 'not' and h.a[0].op == 'req':
            try:
                p = self.P(rsub(h.a[0].a[1], h.a[0].a[0]))
            except (NeedSplit, Budget):
                return
            self.addsign(p, {-1, 1})

    def learn(self, h):
        """orient an integer equality as a rewrite rule on an atom"""
        z = self.Z(h.a[0])
        c, d = TM._lin(z)
        if len(d) == 1:
            (a, k), = d.items()
            if a.op == 'imod' and iconst(a.a[1]) and k in (1, -1):
                r = -c * k
                b = iconst(a.a[1])
                q = fresh('q', I)
                c2, d2 = TM._lin(a.a[0])
                for x in sorted(d2, key=lambda x: -x.id):
                    if d2[x] in (1, -1) and x.op in ('var', 'app') and not any(x in walk(y) for y in d2 if y is not x):
                        e = dict(d2)
                        s = e.pop(x)
                        rhs = iadd(imulc(iadd(imulc(q, b), ic(r)), s), imulc(TM._mklin(c2, e), -s))
                        self.sub[x] = rhs
                        self.own.append(ieq0(isub(x, rhs)))
                        self.pm = {}
                        return
                return
        best = None
        for a in d:
            if d[a] in (1, -1) and a.op in ('var', 'app', 'idiv', 'imod', 'floor', 'imul') and a.op != 'bv':
                if any(a in walk(y) for y in d if y is not a):
                    continue
                if bvs(a):
                    continue
                # prefer to eliminate the newest symbol
                if best is None or (a.op == 'var', a.id) > (best.op == 'var', best.id):
                    best = a
        if best is None:
            return
        e = dict(d)
        s = e.pop(best)
        self.sub[best] = imulc(TM._mklin(c, e), -s)
        self.pm = {}
        self.rewritten_any = True
        if best.op == 'var':
            self.rekey(best)

    def renorm(self):
        """real hypotheses read again under what is known now; True if a sign fact is new"""
        if self.renormed:
            return False
        self.renormed = True
        n = 0
        for h in self.all_hyps():
            o = h.op
            g = h.a[0] if o == 'not' else h
            if g.op not in ('rlt', 'rle', 'req') or (o == 'not' and g.op != 'req'):
                continue
            try:
                p = self.P(rsub(g.a[1], g.a[0]))
            except (NeedSplit, Budget):
                continue
            sg = {1} if o == 'rlt' else {0, 1} if o == 'rle' else {0} if o == 'req' else {-1, 1}
            if isconst(p) is not None:
                self.addsign(p, sg)
                if self.dead:
                    return True
                continue
            t, flip = self.canon(p)
            if flip:
                sg = {-x for x in sg}
            cur = self.lookup(t)
            if cur is None or not cur <= sg:
                self.addsign(p, {-x for x in sg} if flip else sg)
                n += 1
                if self.dead:
                    return True
        if n:
            self.dec = {}
        return n > 0

    def tighten(self, h):
        """inequalities that the new fact makes tight are equalities: learn them"""
        at = {y for y in walk(h) if y.s == I and y.op in ('var', 'app', 'floor', 'idiv', 'imod')}
        c = self
        seen = set()
        while c:
            for g in list(c.own):
                if g.op == 'ile' and g not in seen:
                    seen.add(g)
                    e = self.Z(g.a[0])
                    if iconst(e) is not None:
                        continue
                    if not any(y in at for y in walk(e)):
                        continue
                    q = ieq0(e)
                    if q.op == 'ieq' and q not in self.own and self.decide(q) is True:
                        self.own.append(q)
                        self.learn(q)
                        self.dec = {}
            c = c.parent

    def rekey(self, x):
        """x has just been given a value: facts about applications whose arguments mention x"""
        c = self
        subs, own = [], []
        while c:
            subs += [(k, v) for k, v in c.sub.items() if k.op == 'app']
            own += [h for h in c.own if h.op in ('ile', 'ieq')]
            c = c.parent
        for k, v in subs:
            if x in walk(k):
                k2 = mk('app', (k.a[0],) + tuple(self.K(y) for y in k.a[1:]), I)
                if k2 is not k and k2 not in self.sub and k2 is not v:
                    self.sub[k2] = v
                    self.pm = {}
        for h in own:
            if any(y.op == 'app' and x in walk(y) for y in walk(h.a[0])):
                h2 = (ile0 if h.op == 'ile' else ieq0)(self.Z(h.a[0]))
                if h2 is TRUE or h2 in self.own:
                    continue
                if h2 is FALSE:
                    self.dead = True
                    return
                self.add(h2)

    def rewritten(self, t):
        c = self
        while c:
            r = c.sub.get(t)
            if r is not None:
                return r
            c = c.parent
        return None

    def canon(self, p):
        """scale so that the leading coefficient is 1; returns (term, flip)"""
        m = min(p, key=mkey)
        c = p[m]
        if c != 1:
            p = pscale(p, 1 / c)
        return to_term(p), c < 0

    def addsign(self, p, s):
        if isconst(p) is not None:
            c = isconst(p)
            sg = (c > 0) - (c < 0)
            if sg not in s:
                self.dead = True
            return
        t, flip = self.canon(p)
        if flip:
            s = {-x for x in s}
        cur = self.lookup(t)
        s = (cur & s) if cur is not None else s
        if not s:
            self.dead = True
        self.signs[t] = s
        if s == {0}:
            # a vanishing sum of squares: every term vanishes
            q = self.P(t)
            if len(q) > 1 and len({c > 0 for c in q.values()}) == 1 and all(m and all(e % 2 == 0 for _, e in m) for m in q):
                for m in q:
                    if len(m) == 1:
                        self.addsign({((m[0][0], 1),): Fr(1)}, {0})
            if t.op == 'app' and t.a[0] in UNFOLD:
                try:
                    self.addsign(self.P(UNFOLD[t.a[0]](*t.a[1:])), {0})
                except (NeedSplit, Budget):
                    pass
        if t.op == 'fn' and t.a[0] == 'sqrt' and 0 not in s:
            try:
                self.addsign(self.P(t.a[1]), {1})
            except (NeedSplit, Budget):
                pass

    def lookup(self, t):
        c = self
        while c:
            if t in c.signs:
                return c.signs[t]
            c = c.parent
        return None

    def note(self, t):
        c = self
        while c:
            if t in c.noted:
                return
            c = c.parent
        self.noted.add(t)
        info = SYMS.get(t.a[0])
        if info is not None and info.facts is not None:
            for f in info.facts(*t.a[1:]):
                if bvs(f) and not bvs(t):
                    continue
                self.add(f)

    # ---------------------------------------------------------- normal form
    def Z(self, t):
        """canonicalise an integer term (decide ites inside)"""
        if t.op == 'bv':
            return t
        r = self.pm.get(t)
        if r is not None:
            return r
        if t.op == 'lin':
            r = ic(t.a[0])
            for x, k in t.a[1]:
                r = iadd(r, imulc(self.Z(x), k))
        elif t.op == 'ite':
            c = self.decide(t.a[0])
            if c is None:
                x, y = self.Z(t.a[1]), self.Z(t.a[2])
                r = x if x is y else ite(self.kcond(t.a[0]), x, y)
            else:
                r = self.Z(t.a[1] if c else t.a[2])
        elif t.op in ('idiv', 'imod'):
            a, b = self.Z(t.a[0]), self.Z(t.a[1])
            r = (idiv if t.op == 'idiv' else imod)(a, b)
            if r.op in ('idiv', 'imod'):
                # a in [0,b) : quotient 0, remainder a;  a in [b,2b) : 1, a - b;  a in [-b,0) : -1, a + b
                m, n = r.a
                q0 = self.decide(le(ic(0), m))
                q1 = self.decide(lt(m, n))
                u = lambda q, x: ic(q) if t.op == 'idiv' else self.Z(x)
                if q0 is True and q1 is True:
                    r = u(0, m)
                elif iconst(n) is None and self.decide(lt(ic(0), n)) is True:
                    up = self.decide(lt(m, iadd(n, n))) is True
                    dn = self.decide(le(ic(0), iadd(m, n))) is True
                    if q1 is False and up:
                        r = u(1, isub(m, n))
                    elif q0 is False and dn:
                        r = u(-1, iadd(m, n))
                    elif q0 is True and up:
                        r = ite(self.kcond(lt(m, n)), u(0, m), u(1, isub(m, n)))
                    elif q1 is True and dn:
                        r = ite(self.kcond(le(ic(0), m)), u(0, m), u(-1, iadd(m, n)))
        elif t.op == 'imul':
            r = ic(1)
            for x in t.a:
                r = imul(r, self.Z(x))
        elif t.op == 'floor':
            p = self.P(t.a[0])
            # integer parts come out of the floor
            ip, q = {}, {}
            for m, c in p.items():
                if not m:
                    if math.floor(c):
                        ip[m] = Fr(math.floor(c))
                    if c != math.floor(c):
                        q[m] = c - math.floor(c)
                elif len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'toreal' and c.denominator == 1:
                    ip[m] = c
                else:
                    q[m] = c
            r = self.as_int(ip)
            if q and isconst(q) is None:
                r = iadd(r, floor(to_term(q)))
        elif t.op == 'app':
            r = mk('app', (t.a[0],) + tuple(self.K(x) for x in t.a[1:]), I)
            self.note(r)
        elif t.op == 'var':
            self.note(t)
            r = t
        else:
            r = t
        if r.op != 'lin':
            w = self.rewritten(r)
            if w is not None:
                r = self.Z(w)
        self.pm[t] = r
        return r

    def kcond(self, c):
        """canonical form of an undecided condition (branches of a conditional stay lazy)"""
        o = c.op
        if o in ('and', 'or', 'not'):
            f = {'and': land, 'or': lor, 'not': lnot}[o]
            xs = []
            for x in c.a:
                d = self.decide(x)
                xs.append(bc(d) if d is not None else self.kcond(x))
            return f(*xs)
        if o == 'ile':
            return ile0(self.Z(c.a[0]))
        if o == 'ieq':
            return ieq0(self.Z(c.a[0]))
        if o in ('rlt', 'rle', 'req'):
            t, flip = self.canon(self.P(rsub(c.a[1], c.a[0])))
            if o == 'req':
                return eq(ZERO, t)
            f = lt if o == 'rlt' else le
            return f(t, ZERO) if flip else f(ZERO, t)
        if o == 'app':
            return mk('app', (c.a[0],) + tuple(self.K(x) for x in c.a[1:]), B)
        return c

    def as_int(self, p):
        """poly that is an integer-linear combination of toreal atoms -> int term"""
        r = ic(0)
        for m, c in p.items():
            if c.denominator != 1:
                return None
            if not m:
                r = iadd(r, ic(c))
            elif len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'toreal':
                r = iadd(r, imulc(m[0][0].a[0], int(c)))
            else:
                return None
        return r

    def K(self, t):
        """canonical form of an argument"""
        if t.s == I:
            return self.Z(t)
        if t.s == R:
            return to_term(self.P(t))
        d = self.decide(t)
        return t if d is None else bc(d)

    def P(self, t):
        r = self.pm.get(t)
        if r is not None:
            return r
        if pure(t):
            r = _glob.get(t)
            if r is None:
                r = self.P1(t)
                _glob[t] = r
            return r
        r = self.P1(t)
        self.pm[t] = r
        return r

    def P1(self, t):
        o = t.op
        if o == 'rc':
            return pconst(t.a[0])
        if o == 'r+':
            r = {}
            for x in t.a:
                r = padd(r, self.P(x))
            return r
        if o == 'r*':
            r = pconst(1)
            for x in t.a:
                r = self.reduce(pmul(r, self.P(x)))
            return r
        if o == 'r/':
            return self.reduce(pmul(self.P(t.a[0]), self.pinv(self.P(t.a[1]))))
        if o == 'pi':
            return patom(t)
        if o == 'toreal':
            z = self.Z(t.a[0])
            c, d = TM._lin(z)
            r = pconst(c)
            for x, k in d.items():
                if x.op == 'imul':
                    q = pconst(k)
                    for y in x.a:
                        q = pmul(q, patom(mk('toreal', (y,), R)))
                    r = padd(r, q)
                else:
                    r = padd(r, patom(mk('toreal', (x,), R)), k)
            return r
        if o == 'var':
            self.note(t)
            return patom(t)
        if o == 'app':
            r = mk('app', (t.a[0],) + tuple(self.K(x) for x in t.a[1:]), R)
            rw = REWRITE.get(t.a[0])
            if rw is not None:
                q = rw(self, r)
                if q is not None:
                    return q
            self.note(r)
            return patom(r)
        if o == 'ite':
            c = self.decide(t.a[0])
            if c is None:
                x, y = self.P(t.a[1]), self.P(t.a[2])
                if x == y:
                    return x
                return patom(ite(self.kcond(t.a[0]), to_term(x), to_term(y)))
            return self.P(t.a[1] if c else t.a[2])
        if o == 'fn':
            return self.Pfn(t)
        if o == 'sum':
            return self.Psum(t)
        if o in ('psum', 'poly'):
            return patom(t) if o == 'psum' else self.P(t.a[0])
        raise Budget('cannot normalise ' + o)

    def pinv(self, p):
        if len(p) == 1:
            (m, c), = p.items()
            return {tuple((a, -e) for a, e in m): 1 / c}
        if not p:
            raise Budget('division by the zero polynomial')
        p = self.clear(p) if False else p
        # content
        m = min(p, key=mkey)
        c = p[m]
        q = pscale(p, 1 / c)
        a = mk('poly', (to_term(q),), R)
        return {((a, -1),): 1 / c}

    def lead_neg(self, p):
        return p and p[min(p, key=mkey)] < 0

    def Pfn(self, t):
        n = t.a[0]
        args = [self.P(x) for x in t.a[1:]]
        p = args[0]
        c = isconst(p)
        if n == 'sqrt':
            if c is not None and fsqrt(c) is not None:
                return pconst(fsqrt(c))
            if c == 0:
                return {}
            p = self.tidy(p)
            c = isconst(p)
            if c is not None and fsqrt(c) is not None:
                return pconst(fsqrt(c))
            if self.lookup(self.canon(p)[0]) == {0}:
                return {}
            # pull out a rational content that is a perfect square
            g = abs(p[min(p, key=mkey)])
            if fsqrt(g) not in (None, 1):
                return pscale(patom(mk('fn', ('sqrt', to_term(pscale(p, 1 / g))), R)), fsqrt(g))
            if len(p) == 1:
                (m, cc), = p.items()
                if cc == 1 and all(e % 2 == 0 for _, e in m):
                    half = {tuple((a, e // 2) for a, e in m): Fr(1)}
                    s = self.sign(half)
                    if s is not None and s <= {0, 1}:
                        return half
                    if s is not None and s <= {0, -1}:
                        return pscale(half, -1)
                    return self.Pabs(half)
            return patom(mk('fn', ('sqrt', to_term(p)), R))
        if n in ('sin', 'cos', 'tan', 'atan', 'tanh', 'sinh', 'asin'):
            if n in ('sin', 'cos'):
                # remove multiples of pi
                pm = ((PI, 1),)
                k = p.get(pm)
                if k is not None and (k * 2).denominator == 1:
                    rest = dict(p)
                    del rest[pm]
                    q = int(k * 2) % 4     # multiples of pi/2
                    f = {('sin', 0): ('sin', 1), ('sin', 1): ('cos', 1), ('sin', 2): ('sin', -1), ('sin', 3): ('cos', -1),
                         ('cos', 0): ('cos', 1), ('cos', 1): ('sin', -1), ('cos', 2): ('cos', -1), ('cos', 3): ('sin', 1)}[(n, q)]
                    return pscale(self.P(fn(f[0], to_term(rest))), f[1])
            if c == 0:
                return pconst(1) if n == 'cos' else {}
            if n in ('sin', 'cos') and len(p) == 1:
                (m, cc), = p.items()
                if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'fn' and cc in (1, -1):
                    a = m[0][0]
                    if a.a[0] == 'acos':
                        x = self.P(a.a[1])
                        if n == 'cos':
                            return x
                        return pscale(self.P(sqrt(to_term(padd(pconst(1), self.reduce(pmul(x, x)), -1)))), cc)
                    if a.a[0] == 'atan2':
                        y, x = a.a[1], a.a[2]
                        r2 = self.P(radd(rmul(x, x), rmul(y, y)))
                        s = self.sign(r2)
                        if s is None or 0 in s:
                            if s == {0}:
                                return pconst(1) if n == 'cos' else {}
                            raise NeedSplit(eq(to_term(r2), ZERO))
                        inv = self.pinv(self.P(sqrt(to_term(r2))))
                        return pscale(self.reduce(pmul(self.P(x if n == 'cos' else y), inv)), 1 if n == 'cos' else cc)
                    if a.a[0] == 'atan':
                        x = self.P(a.a[1])
                        inv = self.pinv(self.P(sqrt(to_term(padd(pconst(1), pmul(x, x))))))
                        return inv if n == 'cos' else pscale(pmul(x, inv), cc)
            if self.lead_neg(p):
                r = patom(mk('fn', (n, to_term(pscale(p, -1))), R))
                return r if n == 'cos' else pscale(r, -1)
            return patom(mk('fn', (n, to_term(p)), R))
        if n == 'acos':
            if c == 1:
                return {}
            if c == 0:
                return pscale(patom(PI), Fr(1, 2))
            if c == -1:
                return patom(PI)
            return patom(mk('fn', (n, to_term(p)), R))
        if n == 'abs':
            return self.Pabs(p)
        if n == 'exp':
            if c == 0:
                return pconst(1)
            if len(p) == 1:
                (m, cc), = p.items()
                if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'fn' and m[0][0].a[0] == 'ln' and cc.denominator == 1:
                    x = self.P(m[0][0].a[1])
                    return x if cc == 1 else self.pinv(x) if cc == -1 else patom(mk('fn', (n, to_term(p)), R))
            if self.lead_neg(p):
                return patom(mk('fn', (n, to_term(pscale(p, -1))), R), -1)
            return patom(mk('fn', (n, to_term(p)), R))
        if n == 'ln':
            if c == 1:
                return {}
            if len(p) == 1:
                (m, cc), = p.items()
                if cc == 1 and len(m) == 1 and m[0][0].op == 'fn' and m[0][0].a[0] == 'exp':
                    return pscale(self.P(m[0][0].a[1]), m[0][1])
        return patom(mk('fn', (n,) + tuple(to_term(x) for x in args), R))

    def Pabs(self, p):
        s = self.sign(p)
        if s is not None and s <= {0, 1}:
            return p
        if s is not None and s <= {0, -1}:
            return pscale(p, -1)
        if self.lead_neg(p):
            p = pscale(p, -1)
        return patom(mk('fn', ('abs', to_term(p)), R))

    # -- reductions
    def red_rule(self, a, e):
        """replacement polynomial for a^2, or None"""
        if a.op == 'fn':
            if a.a[0] == 'sqrt':
                return self.P(a.a[1])
            if a.a[0] == 'sin':
                c = mk('fn', ('cos', a.a[1]), R)
                return {(): Fr(1), ((c, 2),): Fr(-1)}
            if a.a[0] == 'abs':
                q = self.P(a.a[1])
                return pmul(q, q)
        elif a.op == 'app':
            info = SYMS[a.a[0]]
            if info.unit is not None and info.unit[1] == 'z' and self.unit_ok(a, info):
                b = info.unit[0]
                x = mk('app', (b + '.x',) + a.a[1:], R)
                y = mk('app', (b + '.y',) + a.a[1:], R)
                return {(): Fr(1), ((x, 2),): Fr(-1), ((y, 2),): Fr(-1)}
        return None

    def unit_ok(self, a, info):
        cond = UNIT_IF.get(info.unit[0])
        if cond is None:
            return True
        k = ('unit', a)
        r = self.dec.get(k)
        if r is None:
            r = self.zero(self.P(cond(*a.a[1:])))
            self.dec[k] = r
        return r

    def reduce(self, p):
        while True:
            tgt = None
            for m in p:
                for a, e in m:
                    if e >= 2:
                        if a.op == 'fn' and a.a[0] in ('sqrt', 'sin', 'abs') or \
                                (a.op == 'app' and SYMS[a.a[0]].unit is not None and SYMS[a.a[0]].unit[1] == 'z' and self.unit_ok(a, SYMS[a.a[0]])):
                            tgt = a
                            break
                if tgt is not None:
                    break
            if tgt is None:
                return p
            rule = self.red_rule(tgt, 2)
            r = {}
            for m, c in p.items():
                e = 0
                for a, x in m:
                    if a is tgt:
                        e = x
                if e >= 2:
                    rest = tuple((a, x) for a, x in m if a is not tgt)
                    q = {mmul(rest, ((tgt, e % 2),) if e % 2 else ()): c}
                    for _ in range(e // 2):
                        q = pmul(q, rule)
                    r = padd(r, q)
                else:
                    v = r.get(m, 0) + c
                    if v:
                        r[m] = v
                    else:
                        r.pop(m, None)
            p = r

    def clear(self, p):
        """multiply by denominators until none is left (for zero tests)"""
        for _ in range(50):
            mn = {}
            for m in p:
                for a, e in m:
                    if e < 0:
                        mn[a] = min(mn.get(a, 0), e)
            pos = any(a.op == 'poly' and e > 0 for m in p for a, e in m)
            if not mn and not pos:
                return p
            if mn:
                mul = tuple(sorted(((a, -e) for a, e in mn.items()), key=lambda x: x[0].id))
                p = {mmul(m, mul): c for m, c in p.items()}
            # expand positive poly atoms
            r = {}
            for m, c in p.items():
                q = {tuple((a, e) for a, e in m if not (a.op == 'poly' and e > 0)): c}
                for a, e in m:
                    if a.op == 'poly' and e > 0:
                        for _ in range(e):
                            q = pmul(q, self.P(a.a[0]))
                r = padd(r, q)
            p = self.reduce(r)
        raise Budget('clear')

    def tidy(self, p):
        """p itself, or the constant 1 when p (a rational function) is identically 1"""
        if len(p) < 2 or len(p) > 3000 or not any(e < 0 for m in p for _, e in m):
            return p
        try:
            return pconst(1) if self.zero(padd(p, pconst(1), -1)) else p
        except Budget:
            return p

    def zero(self, p):
        if not p:
            return True
        if isconst(p) is not None:
            return False
        q = self.clear(self.reduce(p))
        if q and self.has_zero_atoms():
            q = {m: c for m, c in q.items() if not any(e > 0 and self.lookup(a) == {0} for a, e in m)}
        return not q

    def has_zero_atoms(self):
        c = self
        while c:
            if any(s == {0} for s in c.signs.values()):
                return True
            c = c.parent
        return False

    # -- sums
    def Psum(self, t):
        b, lo, hi, body = t.a
        lo, hi = self.Z(lo), self.Z(hi)
        nb = dbv(self.bdepth)
        body = subst(body, {b: nb})
        return self.sum_poly(nb, lo, hi, body)

    def sum_poly(self, b, lo, hi, body):
        self.tick()
        d = isub(hi, lo)
        cd = iconst(d)
        if cd is not None:
            if cd <= 0:
                return {}
            if cd <= 4:
                r = {}
                for k in range(cd):
                    r = padd(r, self.P(subst(body, {b: iadd(lo, ic(k))})))
                return r
        else:
            e = self.decide(le(lo, hi))
            if e is None:
                raise NeedSplit(le(lo, hi))
            if e is False:
                return {}
        c = self.child(le(lo, b), lt(b, hi))
        c.bdepth = self.bdepth + 1
        try:
            q = c.P(body)
        except NeedSplit as ns:
            cond = ns.c
            if b not in bvs(cond):
                raise
            pts = thresholds(cond, b)
            if pts is None:
                # keep as an opaque sum
                return patom(mk('psumx', (b, lo, hi, body), R))
            for p in pts:
                p = self.Z(p)
                x = self.decide(lt(lo, p))
                if x is None:
                    raise NeedSplit(lt(lo, p))
                if not x:
                    continue
                x = self.decide(lt(p, hi))
                if x is None:
                    raise NeedSplit(lt(p, hi))
                if not x:
                    continue
                return padd(self.sum_poly(b, lo, p, body), self.sum_poly(b, p, hi, body))
            raise Budget('sum split makes no progress on %s' % show(cond))
        # conditions on the summation index: split the range where they change
        for cond in ite_conds(q, b):
            pts = thresholds(cond, b)
            if pts is None:
                continue
            for p in pts:
                p = self.Z(p)
                x = self.decide(lt(lo, p))
                if x is None:
                    raise NeedSplit(lt(lo, p))
                if not x:
                    continue
                x = self.decide(lt(p, hi))
                if x is None:
                    raise NeedSplit(lt(p, hi))
                if not x:
                    continue
                return padd(self.sum_poly(b, lo, p, body), self.sum_poly(b, p, hi, body))
        # group monomials
        r = {}
        for m, co in q.items():
            dep = tuple((a, e) for a, e in m if b in bvs(a))
            ind = tuple((a, e) for a, e in m if b not in bvs(a))
            if not dep:
                r = padd(r, pmul({ind: co}, self.P(toreal(d))))
                continue
            s = self.prefix(b, dep, lo, hi)
            r = padd(r, self.reduce(pmul({ind: co}, s)))
        return r

    def prefix(self, b, dep, lo, hi):
        # canonical shift: smallest constant offset of b + const among integer arguments
        offs = []
        for a, _ in dep:
            for x in walk(a):
                if x.s == I and x.op in ('lin', 'bv') and b in bvs(x):
                    c, d = TM._lin(x)
                    if set(d) == {b} and d[b] == 1:
                        # an occurrence of b itself as part of a lin is also visited; ignore if nested
                        offs.append(c)
        # `walk` visits b inside every lin: only count b alone when it is a direct argument
        offs2 = []
        for a, _ in dep:
            for x in walk(a):
                if x.op == 'lin':
                    continue
                for y in x.a:
                    if isinstance(y, T) and y.s == I and b in bvs(y):
                        c, d = TM._lin(y)
                        if set(d) == {b} and d[b] == 1:
                            offs2.append(c)
        m = min(offs2) if offs2 else 0
        if m:
            dep2 = []
            for a, e in dep:
                q = self.P_shift(subst(a, {b: iadd(b, ic(-m))}))
                dep2.append((q, e))
            dep = tuple(sorted(dep2, key=lambda x: x[0].id))
            lo, hi = iadd(lo, ic(m)), iadd(hi, ic(m))
        body = to_term({dep: Fr(1)})
        return padd(self.pre1(b, body, hi), self.pre1(b, body, lo), -1)

    def P_shift(self, a):
        return a

    def pre1(self, b, body, e):
        """prefix sum S(e) = sum_{0<=k<e} body(k), S(0)=0, extended to negative e"""
        c, d = TM._lin(e)
        if abs(c) > 64:
            return patom(mk('psum', (b, body, e), R))
        base = TM._mklin(0, d)
        r = {} if not d else patom(mk('psum', (b, body, base), R))
        if c > 0:
            for k in range(c):
                r = padd(r, self.P(subst(body, {b: iadd(base, ic(k))})))
        else:
            for k in range(-c):
                r = padd(r, self.P(subst(body, {b: iadd(base, ic(-k - 1))})), -1)
        return r

    # ---------------------------------------------------------- deciding
    def undecided(self, c):
        """first undecided atomic condition inside c"""
        if c.op in ('and', 'or', 'not'):
            for x in c.a:
                if self.decide(x) is None:
                    return self.undecided(x)
        return c

    def decide(self, c):
        if c.op == 'bc':
            return c.a[0]
        r = self.dec.get(c, 0)
        if r != 0:
            return r
        r = self.decide1(c)
        self.dec[c] = r
        return r

    def decide1(self, c):
        o = c.op
        if self.dead:
            return True
        if o == 'and':
            res = True
            for x in c.a:
                d = self.decide(x)
                if d is False:
                    return False
                if d is None:
                    res = None
            return res
        if o == 'or':
            res = False
            for x in c.a:
                d = self.decide(x)
                if d is True:
                    return True
                if d is None:
                    res = None
            return res
        if o == 'not':
            d = self.decide(c.a[0])
            return None if d is None else not d
        if o in ('rlt', 'rle', 'req'):
            p = self.P(rsub(c.a[1], c.a[0]))
            s = self.sign(p)
            if s is None:
                return None
            want = {'rlt': {1}, 'rle': {0, 1}, 'req': {0}}[o]
            if s <= want:
                return True
            if not (s & want):
                return False
            return None
        if o in ('ile', 'ieq'):
            z = self.Z(c.a[0])
            c2 = (ile0 if o == 'ile' else ieq0)(z)
            if c2.op == 'bc':
                return c2.a[0]
            h = self.find_hyp(c2)
            if h is not None:
                return h
            q = self.quick(c2)
            if q is not None:
                return q
            return self.z3int(c2)
        if o in ('var', 'app'):
            if o == 'app':
                c = mk('app', (c.a[0],) + tuple(self.K(x) for x in c.a[1:]), B)
            return self.find_hyp(c)
        return None

    def find_hyp(self, c):
        n = lnot(c)
        x = self
        while x:
            for h in x.own:
                if h is c:
                    return True
                if h is n:
                    return False
            x = x.parent
        return None

    def linfacts(self):
        f = self._lf
        if f is None:
            f = {}
            self._lf = f
            for h in self.all_hyps():
                if h.op not in ('ile', 'ieq'):
                    continue
                e = self.Z(h.a[0])
                for g in ((e,) if h.op == 'ile' else (e, imulc(e, -1))):
                    c, d = TM._lin(g)
                    if d:
                        k = TM._mklin(0, d)
                        if k not in f or f[k] < c:
                            f[k] = c
        return f

    def quick(self, c):
        """entailment of a linear fact by at most two linear hypotheses"""
        f = self.linfacts()

        def le0(e):
            cc, d = TM._lin(e)
            k = TM._mklin(0, d)
            x = f.get(k)
            if x is not None and cc <= x:
                return True
            for k1, c1 in f.items():
                r = isub(k, k1)
                x = f.get(r)
                if x is not None and cc <= x + c1:
                    return True
            return False
        e = c.a[0]
        n = iadd(imulc(e, -1), ic(1))
        if c.op == 'ile':
            if le0(e):
                return True
            if le0(n):
                return False
            return None
        if le0(n) or le0(iadd(e, ic(1))):
            return False
        if le0(e) and le0(imulc(e, -1)):
            return True
        return None

    def z3int(self, c):
        self.tick()
        t0 = time.time()
        s = self.solver()
        tr = self.tr
        e = tr.b(c)
        for f in tr.flush():
            s.add(f)
        STATS['z3_calls'] += 1
        s.push()
        s.add(z3.Not(e))
        r1 = s.check()
        s.pop()
        res = None
        if r1 == z3.unsat:
            res = True
        else:
            s.push()
            s.add(e)
            r2 = s.check()
            s.pop()
            if r2 == z3.unsat:
                res = False
        STATS['z3_time'] += time.time() - t0
        return res

    def solver(self):
        if self._solver is None:
            s = z3.Solver()
            s.set('timeout', 2000)
            self.tr = Z3Tr(self)
            for h in self.all_hyps():
                if intonly(h):
                    s.add(self.tr.b(h))
            for f in self.tr.flush():
                s.add(f)
            self._solver = s
        return self._solver

    def sign(self, p):
        """set of possible signs, or None when nothing is known"""
        c = isconst(p)
        if c is not None:
            return {(c > 0) - (c < 0)}
        p = self.tidy(p)
        c = isconst(p)
        if c is not None:
            return {(c > 0) - (c < 0)}
        t, flip = self.canon(p)
        s = self.lookup(t)
        if s is not None:
            s = {-x for x in s} if flip else set(s)
            if len(s) == 1:
                return s
        s2 = self.sign1(p)
        if s is None:
            return s2
        if s2 is None:
            return s
        return s & s2

    def strip(self, p):
        """(q, sign set of f) with p = f * q, f the product of the factors common to all terms"""
        if len(p) < 2:
            return p, None
        it = iter(p)
        com = dict(next(it))
        for m in it:
            d = dict(m)
            com = {a: min(e, d[a]) for a, e in com.items() if a in d and e > 0 and d[a] > 0}
            if not com:
                return p, None
        f = tuple((a, e) for a, e in com.items())
        s = self.msign(f)
        q = {}
        for m, c in p.items():
            d = dict(m)
            for a, e in f:
                d[a] -= e
            q[tuple((a, d[a]) for a, _ in m if d[a])] = c
        return q, s

    def sign1(self, p):
        q, f = self.strip(p)
        if f is not None and len(f) == 1:
            s = self.sign(q)
            return s and {a * b for a in s for b in f}
        z = self.as_int_scaled(p)
        if z is not None:
            out = set()
            for sg, cd in ((1, lt(ic(0), z)), (0, ieq0(z)), (-1, lt(z, ic(0)))):
                if self.decide(cd) is not False:
                    out.add(sg)
            return out if len(out) < 3 else None
        pos = neg = zero = False
        strictp = strictn = False
        for m, c in p.items():
            s = self.msign(m)
            if s is None:
                return self.sign_fact(p)
            if c < 0:
                s = {-x for x in s}
            if s == {0}:
                continue
            if 1 in s:
                pos = True
            if -1 in s:
                neg = True
            if s == {1}:
                strictp = True
            if s == {-1}:
                strictn = True
        if pos and neg:
            return self.sign_fact(p)
        if pos:
            return {1} if strictp else {0, 1}
        if neg:
            return {-1} if strictn else {-1, 0}
        return {0}

    def sign_fact(self, p):
        """common factor extraction: monomial gcd times a poly of known sign"""
        if len(p) < 2:
            return None
        ms = list(p)
        common = dict(ms[0])
        for m in ms[1:]:
            d = dict(m)
            common = {a: min(e, d[a]) for a, e in common.items() if a in d and (d[a] > 0) == (e > 0)}
        # also clear negative exponents of known-sign atoms
        mn = {}
        for m in ms:
            for a, e in m:
                if e < 0:
                    mn[a] = min(mn.get(a, 0), e)
        g = {a: e for a, e in common.items() if e > 0}
        for a, e in mn.items():
            g[a] = e
        if not g:
            return self.sign_abs1(p)
        gm = tuple(sorted(g.items(), key=lambda x: x[0].id))
        sg = self.msign(gm)
        if sg is None:
            return None
        inv = tuple((a, -e) for a, e in gm)
        q = {mmul(m, inv): c for m, c in p.items()}
        sq = self.sign(q)
        if sq is None:
            return None
        return {x * y for x in sg for y in sq}

    def sign_abs1(self, p):
        """bounds of the form |x|<=1 with x in {sin,cos,unit component}: sum |c| <= const"""
        c0 = p.get((), Fr(0))
        tot = Fr(0)
        strict = False
        for m, c in p.items():
            if not m:
                continue
            for a, e in m:
                if e < 0 or not self.bounded1(a):
                    return None
            tot += abs(c)
        if tot == 0:
            return None
        if c0 > tot:
            return {1}
        if c0 == tot:
            return {0, 1}
        if c0 < -tot:
            return {-1}
        if c0 == -tot:
            return {-1, 0}
        return None

    def bounded1(self, a):
        if a.op == 'fn' and a.a[0] in ('sin', 'cos', 'tanh'):
            return True
        if a.op == 'app':
            info = SYMS[a.a[0]]
            return info.unit is not None and self.unit_ok(a, info)
        return False

    def as_int_scaled(self, p):
        l = 1
        for m, c in p.items():
            if m and not (len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'toreal'):
                return None
            l = l * c.denominator // math.gcd(l, c.denominator)
        return self.as_int(pscale(p, l))

    def msign(self, m):
        s = {1}
        for a, e in m:
            x = self.asign(a)
            if e < 0:
                x = (x or {-1, 0, 1}) - {0}     # divisor: non-zero by a separate obligation
            if e % 2 == 0:
                if x is None:
                    x = {0, 1}
                else:
                    x = {v * v for v in x}
            if x is None or x == {-1, 0, 1} or (x == {-1, 1} and e % 2):
                if e % 2:
                    return None
            s = {u * v for u in s for v in x}
        return s

    def asign(self, a):
        if a.op == 'pi':
            return {1}
        t = to_term({((a, 1),): Fr(1)})
        s = self.lookup(t)
        if s is not None and len(s) == 1:
            return s
        r = None
        if a.op == 'fn':
            if a.a[0] == 'exp':
                r = {1}
            elif a.a[0] == 'sqrt':
                x = self.sign(self.P(a.a[1]))
                r = {1} if x == {1} else {0, 1}
            elif a.a[0] in ('abs', 'acos'):
                r = {0, 1}
                if a.a[0] == 'abs':
                    x = self.sign(self.P(a.a[1]))
                    if x is not None and 0 not in x:
                        r = {1}
            elif a.a[0] in ('tanh', 'sinh', 'atan'):
                r = self.sign(self.P(a.a[1]))
        elif a.op == 'toreal':
            out = set()
            for sg, cd in ((1, lt(ic(0), a.a[0])), (0, ieq0(a.a[0])), (-1, lt(a.a[0], ic(0)))):
                if self.decide(cd) is not False:
                    out.add(sg)
            r = out if len(out) < 3 else None
        elif a.op == 'poly':
            r = self.sign(self.P(a.a[0]))
        elif a.op == 'ite':
            x, y = self.sign(self.P(a.a[1])), self.sign(self.P(a.a[2]))
            r = x | y if x is not None and y is not None else None
        if s is None:
            return r
        return s if r is None else s & r


REWRITE = {}
UNIT_IF = {}
UNFOLD = {}       # specification function -> definition (proved contract), used when a goal needs it


def atomic(c):
    if c.op in ('and', 'or', 'not'):
        for x in c.a:
            yield from atomic(x)
    else:
        yield c


def ite_conds(p, b):
    out = []
    seen = set()
    for m in p:
        for a, _ in m:
            if b not in bvs(a):
                continue
            for x in walk(a):
                if x.op == 'ite' and b in bvs(x.a[0]):
                    for c in atomic(x.a[0]):
                        if b in bvs(c) and c not in seen:
                            seen.add(c)
                            out.append(c)
    return out


def find_ite(ctx, terms):
    """condition of an outermost conditional in the given terms"""
    todo = list(terms)
    seen = set(todo)
    while todo:
        nxt = []
        for t in todo:
            if t.op == 'ite':
                for c in atomic(t.a[0]):
                    if not bvs(c) and ctx.decide(c) is None:
                        if c.op in ('rlt', 'rle', 'req'):
                            # a real condition is only comparable once its own integer conditions are resolved
                            d = find_ite(ctx, [atom for atom in kids(c)])
                            if d is not None and intonly(d):
                                return d
                        return c
            for x in kids(t):
                if x not in seen:
                    seen.add(x)
                    nxt.append(x)
        todo = nxt
    return None


def expand(ctx, p):
    """replace atoms of specification functions by their definitions; None if there is none"""
    hit = False
    for _ in range(6):
        tgt = None
        for m in p:
            for a, e in m:
                if a.op == 'app' and a.a[0] in UNFOLD and e > 0:
                    tgt = a
                    break
            if tgt is not None:
                break
        if tgt is None:
            break
        hit = True
        q = ctx.P(UNFOLD[tgt.a[0]](*tgt.a[1:]))
        r = {}
        for m, c in p.items():
            e = dict(m).get(tgt, 0)
            if e > 0:
                t = {tuple((a, x) for a, x in m if a is not tgt): c}
                for _ in range(e):
                    t = ctx.reduce(pmul(t, q))
                r = padd(r, t)
            else:
                v = r.get(m, 0) + c
                if v:
                    r[m] = v
                else:
                    r.pop(m, None)
        p = r
    return p if hit else None



def thresholds(c, b):
    """integer points where the atomic condition c, as a function of b, may change"""
    if c.op == 'ile':
        k, d = TM._lin(c.a[0])
        if d.get(b) in (1, -1) and not any(b in bvs(x) for x in d if x is not b):
            s = d.pop(b)
            rest = TM._mklin(k, d)
            # s=1: b <= -rest  -> changes at -rest+1 ; s=-1: b >= rest -> changes at rest
            return [iadd(imulc(rest, -1), ic(1))] if s == 1 else [rest]
        if d.get(b) and not any(b in bvs(x) for x in d if x is not b):
            s = d.pop(b)
            rest = TM._mklin(k, d)
            if iconst(rest) is not None:
                r = iconst(rest)
                # s*b + r <= 0
                if s > 0:
                    return [ic((-r) // s + 1)]
                return [ic(-((-r) // (-s)) if False else -(-r // -s) if False else math.ceil(Fr(r, -s)))]
        return None
    if c.op == 'ieq':
        k, d = TM._lin(c.a[0])
        if d.get(b) in (1, -1) and not any(b in bvs(x) for x in d if x is not b):
            s = d.pop(b)
            rest = TM._mklin(k, d)
            p = imulc(rest, -s)
            return [p, iadd(p, ic(1))]
    return None


_io = {}


def intonly(t):
    r = _io.get(t)
    if r is None:
        if t.s == R or t.op in ('forall', 'floor'):
            r = False
        else:
            r = all(intonly(x) for x in kids(t))
        _io[t] = r
    return r


class Z3Tr:
    def __init__(self, ctx=None):
        self.m = {}
        self.fns = {}
        self.pending = []
        self.extra = []
        self.ctx = ctx

    def flush(self):
        r = []
        while self.pending:
            t = self.pending.pop()
            r.extend(self.facts(t))
        return r

    def facts(self, t):
        out = []
        if t.op in ('var', 'app'):
            info = SYMS.get(t.a[0])
            if info is not None and info.facts is not None:
                for f in info.facts(*t.a[1:]):
                    if f.op != 'forall':
                        out.append(self.b(f))
            if info is not None and info.unit is not None and UNIT_IF.get(info.unit[0]) is None:
                xs = [self.b(mk('app', (info.unit[0] + '.' + c,) + t.a[1:], R)) for c in 'xyz']
                out.append(xs[0] * xs[0] + xs[1] * xs[1] + xs[2] * xs[2] == 1)
        elif t.op == 'fn':
            n = t.a[0]
            v = self.m[t]
            if n == 'sqrt':
                x = self.b(t.a[1])
                out += [z3.Implies(x >= 0, z3.And(v >= 0, v * v == x))]
            elif n in ('sin', 'cos'):
                o = self.b(mk('fn', ('cos' if n == 'sin' else 'sin', t.a[1]), R))
                out += [v * v + o * o == 1, v >= -1, v <= 1]
            elif n == 'exp':
                x = self.b(t.a[1])
                out += [v > 0, z3.Implies(x > 0, v > 1), z3.Implies(x < 0, v < 1), z3.Implies(x == 0, v == 1)]
            elif n == 'abs':
                x = self.b(t.a[1])
                out += [v == z3.If(x >= 0, x, -x)]
            elif n == 'acos':
                out += [v >= 0]
            elif n == 'tanh':
                x = self.b(t.a[1])
                out += [v < 1, v > -1, z3.Implies(x > 0, v > 0), z3.Implies(x < 0, v < 0), z3.Implies(x == 0, v == 0)]
        return out

    def b(self, t):
        r = self.m.get(t)
        if r is None:
            r = self.b1(t)
            self.m[t] = r
        return r

    def fun(self, name, t):
        k = (name,) + tuple(x.s for x in t.a[1:]) + (t.s,)
        f = self.fns.get(k)
        so = {R: z3.RealSort(), I: z3.IntSort(), B: z3.BoolSort()}
        if f is None:
            f = z3.Function(name, *([so[x.s] for x in t.a[1:]] + [so[t.s]]))
            self.fns[k] = f
        return f

    def b1(self, t):
        o, a = t.op, t.a
        b = self.b
        if o == 'lin':
            r = z3.IntVal(a[0])
            for x, k in a[1]:
                r = r + k * b(x)
            return r
        if o in ('var', 'bv'):
            r = {R: z3.Real, I: z3.Int, B: z3.Bool}[t.s](a[0])
            if o == 'var':
                self.pending.append(t)
            return r
        if o == 'app':
            if len(a) == 1:
                r = {R: z3.Real, I: z3.Int, B: z3.Bool}[t.s](a[0])
            else:
                r = self.fun(a[0], t)(*[b(x) for x in a[1:]])
            self.pending.append(t)
            return r
        if o == 'rc':
            return z3.RealVal('%d/%d' % (a[0].numerator, a[0].denominator))
        if o == 'pi':
            p = z3.Real('pi')
            self.extra.append(z3.And(p > z3.RealVal('3.14159265'), p < z3.RealVal('3.14159266')))
            return p
        if o == 'toreal':
            return z3.ToReal(b(a[0]))
        if o == 'floor':
            return z3.ToInt(b(a[0]))
        if o == 'r+':
            return z3.Sum([b(x) for x in a])
        if o == 'r*':
            return z3.Product([b(x) for x in a])
        if o == 'r/':
            return b(a[0]) / b(a[1])
        if o == 'imul':
            return z3.Product([b(x) for x in a])
        if o == 'idiv':
            return b(a[0]) / b(a[1])
        if o == 'imod':
            return b(a[0]) % b(a[1])
        if o == 'fn':
            r = self.fun('fn_' + a[0], t)(*[b(x) for x in a[1:]])
            self.pending.append(t)
            return r
        if o == 'ite':
            return z3.If(b(a[0]), b(a[1]), b(a[2]))
        if o == 'bc':
            return z3.BoolVal(a[0])
        if o == 'and':
            return z3.And([b(x) for x in a])
        if o == 'or':
            return z3.Or([b(x) for x in a])
        if o == 'not':
            return z3.Not(b(a[0]))
        if o == 'ile':
            return b(a[0]) <= 0
        if o == 'ieq':
            return b(a[0]) == 0
        if o == 'rlt':
            return b(a[0]) < b(a[1])
        if o == 'rle':
            return b(a[0]) <= b(a[1])
        if o == 'req':
            return b(a[0]) == b(a[1])
        if o in ('sum', 'psum', 'psumx', 'poly'):
            if o == 'poly':
                return b(a[0])
            return z3.Real('sum#%d' % t.id)
        if o == 'forall':
            v = z3.Int(a[0].a[0])
            return z3.ForAll([v], z3.Implies(z3.And(b(a[1]) <= v, v < b(a[2])), b(a[3])))
        raise Budget('z3: ' + o)


def z3_valid(hyps, goal, timeout=3000, canon=None):
    """True / False(sat) / None"""
    t0 = time.time()
    try:
        tr = Z3Tr()
        s = z3.Solver()
        s.set('timeout', timeout)
        s.add(z3.Not(tr.b(goal)))
        for h in hyps:
            if h.op != 'forall':
                s.add(tr.b(h))
        for f in tr.flush():
            s.add(f)
        for f in tr.flush():
            s.add(f)
        for f in tr.extra:
            s.add(f)
        r = s.check()
    except (z3.Z3Exception, Budget):
        return None
    finally:
        STATS['z3_calls'] += 1
        STATS['z3_time'] += time.time() - t0
    return True if r == z3.unsat else None


class Result:
    def __init__(self, status, why='', leaf=None):
        self.status, self.why, self.leaf = status, why, leaf

    def __repr__(self):
        return 'Result(%s %s)' % (self.status, self.why[:200])


class Prover:
    def __init__(self, hyps, timeout=60, maxsplit=6000, unfold=False):
        self.unfold = unfold
        self.hyps = list(hyps)
        self.deadline = time.time() + timeout
        self.splits = 0
        self.maxsplit = maxsplit

    def prove(self, goal):
        try:
            c = Ctx(self.hyps, None, self.deadline)
            return self.go(c, goal, 0)
        except Budget as e:
            return Result('unknown', str(e))
        except RecursionError:
            return Result('unknown', 'recursion')

    def go(self, ctx, goal, depth):
        if ctx.dead or goal is TRUE:
            STATS['leaves'] += 1
            return Result('proved')
        o = goal.op
        if o == 'and':
            for x in goal.a:
                r = self.go(ctx, x, depth)
                if r.status != 'proved':
                    return r
            return Result('proved')
        if o == 'forall':
            b, lo, hi, body = goal.a
            v = fresh('k', I)
            inner = ctx.child(le(lo, v), lt(v, hi))
            for h in ctx.all_hyps():
                # instantiate every universally quantified hypothesis at the fresh index
                if h.op == 'forall':
                    hb, hlo, hhi, hbody = h.a
                    if inner.decide(le(hlo, v)) is True and inner.decide(lt(v, hhi)) is True:
                        inner.add(subst(hbody, {hb: v}))
            return self.go(inner, subst(body, {b: v}), depth)
        if o == 'or':
            # assume the negation of the simple disjuncts, prove the last complex one
            ds = sorted(goal.a, key=lambda x: (x.op in ('forall',), x.op == 'and' and not any(y.op == 'not' for y in x.a), x.op == 'req', x.s and len(walk(x))))
            last = ds[-1]
            return self.go(ctx.child(*[lnot(x) for x in ds[:-1]]), last, depth)
        if o == 'not' and goal.a[0].op == 'forall':
            return Result('unknown', 'negated forall')
        return self.leaf(ctx, goal, depth)

    def leaf(self, ctx, goal, depth, orig=None):
        ctx.tick()
        orig = orig if orig is not None else goal
        try:
            d = ctx.decide(goal)
            if d is True:
                STATS['leaves'] += 1
                return Result('proved')
            if goal.op == 'req':
                p = ctx.P(rsub(goal.a[0], goal.a[1]))
                if ctx.zero(p):
                    STATS['leaves'] += 1
                    return Result('proved')
            if ctx_contradiction(ctx):
                return Result('proved')
            g0 = goal.a[0] if goal.op == 'not' else goal
            if g0.op in ('rlt', 'rle', 'req'):
                if g0 is not goal or g0.op != 'req':
                    p = ctx.P(rsub(g0.a[1], g0.a[0]))
                c = find_ite(ctx, [a for m in p for a, _ in m])
                if c is not None:
                    f = {'rlt': lt, 'rle': le, 'req': eq}[g0.op]
                    goal = f(ZERO, to_term(p)) if goal.op != 'not' else lnot(f(ZERO, to_term(p)))
                    raise NeedSplit(c)
            if goal.op == 'req':
                q = expand(ctx, p) if self.unfold else None
                if q is not None and (ctx.zero(q) or ctx.sign(q) == {0}):
                    STATS['leaves'] += 1
                    return Result('proved')
            sp = eq_hint(ctx, p) if goal.op == 'req' else None
            if sp is True:
                return self.leaf(ctx, goal, depth, orig)
            if ctx.renorm():
                return self.leaf(ctx, goal, depth, orig)
            if orig is not goal:
                return self.leaf(ctx, orig, depth)
            if goal.op in ('rlt', 'rle') or goal.op == 'not' and goal.a[0].op == 'req' or not intonly(goal):
                big = len(p) if g0.op in ('rlt', 'rle', 'req') else 0
                if z3_goal(ctx, goal, 3000 if big <= 20 else 500):
                    STATS['leaves'] += 1
                    return Result('proved')
            return Result('failed', 'not valid: %s under %s' % (show(goal)[:600], '; '.join(show(h) for h in ctx.all_hyps() if len(show(h)) < 120)[:800]), (ctx, goal))
        except NeedSplit as ns:
            c = ns.c
            self.splits += 1
            STATS['splits'] += 1
            if self.splits > self.maxsplit:
                raise Budget('case splits')
            for h in (c, lnot(c)):
                cc = mkchild(ctx, h)
                if cc is None:
                    continue
                g = goal
                if orig is not goal and g.op in ('rlt', 'rle', 'req') :
                    r = self.leaf(cc, g, depth + 1, orig)
                else:
                    r = self.go(cc, g, depth + 1)
                if r.status != 'proved':
                    return r
            return Result('proved')


def mkchild(ctx, h):
    if intonly(h):
        if ctx.decide(h) is False:
            return None
    c = ctx.child(h)
    if c.dead:
        return None
    if h.op in ('ile', 'not', 'and'):
        c.tighten(h)
        if c.dead:
            return None
    return c


def ctx_contradiction(ctx):
    if ctx.dead:
        return True
    s = ctx.solver()
    STATS['z3_calls'] += 1
    return s.check() == z3.unsat


def eq_hint(ctx, p):
    """integer arguments of the same function that the hypotheses force to be equal: add the equality"""
    args = {}
    seen = set()
    for m in p:
        for a, _ in m:
            for x in walk(a):
                if x.op == 'app' and x not in seen and not bvs(x):
                    seen.add(x)
                    for j, y in enumerate(x.a[1:]):
                        if y.s == I:
                            args.setdefault((x.a[0], j), set()).add(y)
                elif x.op == 'psum' and x not in seen and not bvs(x.a[2]):
                    seen.add(x)
                    args.setdefault('psum', set()).add(x.a[2])
    n = 0
    for k, ys in args.items():
        if len(ys) < 2:
            continue
        ys = sorted(ys, key=lambda y: y.id)
        for i in range(len(ys)):
            for j in range(i):
                d = isub(ys[i], ys[j])
                if iconst(d) is not None:
                    continue
                n += 1
                if n > 60:
                    return None
                if ctx.decide(ieq0(d)) is True:
                    ctx.rewritten_any = False
                    ctx.add(ieq0(d))
                    if ctx.rewritten_any:
                        return True
    return None


def norm_bool(ctx, t):
    """canonicalise the real atoms in a boolean"""
    if t.op in ('rlt', 'rle', 'req'):
        p = ctx.P(rsub(t.a[1], t.a[0]))
        return {'rlt': lt, 'rle': le, 'req': eq}[t.op](ZERO, to_term(p))
    if t.op in ('and', 'or', 'not'):
        return rebuild(t, lambda x: norm_bool(ctx, x))
    return t


def z3_goal(ctx, goal, timeout=3000):
    try:
        g = norm_bool(ctx, goal)
        hs = []
        for h in ctx.all_hyps():
            try:
                hs.append(norm_bool(ctx, h) if not intonly(h) else h)
            except (NeedSplit, Budget):
                pass
    except Budget:
        return False
    # keep hypotheses that share symbols with the goal (transitively, one round) to keep queries small
    return z3_valid(hs, g, timeout) is True


# ------------------------------------------------------------------ refutation
def repair(m, h):
    """change one free symbol of a model such that a comparison that fails comes to hold (a secant step)"""
    while h.op == 'and' or h.op == 'or':
        xs = [x for x in h.a if not m.ev(x)]
        if not xs:
            return False
        h = xs[0] if h.op == 'and' else m.rng.choice(xs)
    if h.op not in ('ile0', 'ieq0', 'rle', 'rlt', 'req'):
        return False
    f = (lambda: m.ev(h.a[0])) if h.op[0] == 'i' else (lambda: m.ev(h.a[0]) - m.ev(h.a[1]))
    vs = sorted({x for x in walk(h) if x.op == 'var' and x.s in (I, R) and SYMS[x.a[0]].unit is None}, key=lambda x: x.id)
    m.rng.shuffle(vs)
    y = f()
    for v in vs:
        key = (v.a[0],)
        x = m.ev(v)
        d = 1 if v.s == I else 1e-3 * max(1.0, abs(x))
        m.vals[key] = x + d
        m.memo.clear()
        g = (f() - y) / d
        if g:
            new = x - y / g
            if v.s == I:
                new = math.floor(new) + m.rng.choice((-1, 0, 0, 1, 1, 2))
            elif h.op != 'req':
                new -= math.copysign(m.rng.choice((1e-3, 0.1, 0.5)) * max(1.0, abs(new)), g)
            if abs(new) < 1e9:
                m.vals[key] = new
                m.memo.clear()
                return True
        m.vals[key] = x
        m.memo.clear()
    return False


def constants(ts):
    """the numbers (not the small ones) that formulas mention"""
    out = set()
    for t in ts:
        for x in walk(t):
            if x.op == 'rc':
                out.add(abs(x.a[0]))
            elif x.op == 'lin':
                out.add(abs(x.a[0]))
                out |= {abs(k) for _, k in x.a[1]}
    return sorted(x for x in out if 4 < x < 2 ** 40)


def refute(hyps, goal, seed=1, tries=300, timeout=20, presets=None):
    """look for a random concrete model of hyps in which goal is false"""
    rng = random.Random(seed)
    t0 = time.time()
    used = 0
    sat = 0
    near = constants([goal] + list(hyps))
    for k in range(tries):
        if time.time() - t0 > timeout:
            break
        m = Model(random.Random(rng.random()))
        if k % 3 == 2:
            m.near = near
        try:
            ok = False
            for rep in range(12):
                bad = None
                for h in hyps:
                    f0 = m.fuzzy
                    if not m.ev(h) or m.fuzzy != f0:
                        bad = h
                        break
                if bad is None:
                    ok = True
                    break
                if not repair(m, bad):
                    break
            if not ok:
                continue
            sat += 1
            f0 = m.fuzzy
            v = m.ev(goal)
            if not v and m.fuzzy == f0:
                # confirm with a looser tolerance
                m2 = Model(random.Random(0), m.vals)
                m2.tol = 1e-5
                if not m2.ev(goal):
                    return m, sat
        except EvalError:
            continue
        except (OverflowError, ZeroDivisionError, RecursionError):
            continue
    return None, sat
