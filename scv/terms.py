"""Hash-consed terms of the verifier's logic: integers, exact reals, booleans.

Machine integers are mathematical integers (the engine emits range and overflow
obligations separately); f64 is read as an exact real number (stated assumption).
"""
from fractions import Fraction as Fr
import math
import random

R, I, B = 'R', 'I', 'B'
_tab = {}
_cnt = [0]


class T:
    __slots__ = ('op', 'a', 's', 'id', 'bv', 'ctor')

    def __repr__(self):
        return show(self)


def mk(op, a, s):
    key = (op, s) + tuple(x.id if isinstance(x, T) else x for x in a) if op != 'lin' else ('lin', a[0]) + tuple((t.id, c) for t, c in a[1])
    r = _tab.get(key)
    if r is None:
        r = T()
        r.op, r.a, r.s = op, a, s
        r.id = _cnt[0]
        _cnt[0] += 1
        r.bv = None
        _tab[key] = r
    return r


# ------------------------------------------------------------------ symbols
class SymInfo:
    """generator and facts of a free symbol; used by the refuter and by z3."""

    def __init__(self, sort, gen=None, facts=None, unit=None):
        self.sort, self.gen, self.facts, self.unit = sort, gen, facts, unit
        self.fixed = False     # drawn by its generator only


SYMS = {}
_fresh = [0]


def var(name, s, gen=None, facts=None):
    if name not in SYMS:
        SYMS[name] = SymInfo(s, gen, facts)
    return mk('var', (name,), s)


def fresh(base, s, gen=None, facts=None):
    _fresh[0] += 1
    return var('%s!%d' % (base, _fresh[0]), s, gen, facts)


def bvar(base='b'):
    _fresh[0] += 1
    return mk('bv', ('%s~%d' % (base, _fresh[0]),), I)


def decl(name, s, gen=None, facts=None, unit=None):
    """declare an uninterpreted function symbol"""
    SYMS[name] = SymInfo(s, gen, facts, unit)
    return name


def app(name, *args):
    if name not in SYMS:
        raise KeyError('undeclared symbol ' + name)
    return mk('app', (name,) + tuple(args), SYMS[name].sort)


# ------------------------------------------------------------------ integers
def ic(n):
    return mk('lin', (int(n), ()), I)


def _lin(t):
    if t.op == 'lin':
        return t.a[0], dict(t.a[1])
    return 0, {t: 1}


def _mklin(c, d):
    items = tuple(sorted(((t, k) for t, k in d.items() if k != 0), key=lambda p: p[0].id))
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    return mk('lin', (c, items), I)


def iadd(a, b, kb=1):
    c1, d1 = _lin(a)
    c2, d2 = _lin(b)
    for t, k in d2.items():
        d1[t] = d1.get(t, 0) + kb * k
    return _mklin(c1 + kb * c2, d1)


def isub(a, b):
    return iadd(a, b, -1)


def imulc(a, k):
    c, d = _lin(a)
    return _mklin(c * k, {t: v * k for t, v in d.items()})


def iconst(t):
    return t.a[0] if t.op == 'lin' and not t.a[1] else None


def imul(a, b):
    ca, cb = iconst(a), iconst(b)
    if ca is not None:
        return imulc(b, ca)
    if cb is not None:
        return imulc(a, cb)
    # distribute over linear forms
    c1, d1 = _lin(a)
    c2, d2 = _lin(b)
    out = ic(c1 * c2)
    for t, k in d1.items():
        out = iadd(out, imulc(t, k * c2))
    for t, k in d2.items():
        out = iadd(out, imulc(t, k * c1))
    for t, k in d1.items():
        for u, j in d2.items():
            fs = (list(t.a) if t.op == 'imul' else [t]) + (list(u.a) if u.op == 'imul' else [u])
            fs.sort(key=lambda x: x.id)
            out = iadd(out, mk('imul', tuple(fs), I), k * j)
    return out


def idiv(a, b):
    """floor division (operands are non-negative where the code uses it)"""
    cb = iconst(b)
    ca = iconst(a)
    if cb == 1:
        return a
    if ca is not None and cb:
        return ic(ca // cb)
    if cb and cb > 0:
        c, d = _lin(a)
        if d and all(k % cb == 0 for k in d.values()):
            return _mklin(c // cb, {t: k // cb for t, k in d.items()})
        # split off multiples
        q = {t: k // cb for t, k in d.items() if k % cb == 0}
        r = {t: k for t, k in d.items() if k % cb != 0}
        cq, cr = divmod(c, cb)
        if q or cq:
            rest = _mklin(cr, r)
            return iadd(_mklin(cq, q), mk('idiv', (rest, b), I))
    return mk('idiv', (a, b), I)


def imod(a, b):
    cb = iconst(b)
    ca = iconst(a)
    if cb == 1:
        return ic(0)
    if ca is not None and cb:
        return ic(ca % cb)
    if cb and cb > 0:
        c, d = _lin(a)
        r = _mklin(c % cb, {t: k % cb for t, k in d.items() if k % cb != 0})
        if iconst(r) is not None:
            return ic(iconst(r) % cb)
        return mk('imod', (r, b), I)
    return mk('imod', (a, b), I)


def floor(x):
    """real -> integer, rounding down"""
    if x.op == 'rc':
        return ic(math.floor(x.a[0]))
    if x.op == 'toreal':
        return x.a[0]
    return mk('floor', (x,), I)


# ------------------------------------------------------------------ reals
def rc(x):
    return mk('rc', (Fr(x),), R)


PI = mk('pi', (), R)
ZERO, ONE = rc(0), rc(1)


def toreal(i):
    c = iconst(i)
    if c is not None:
        return rc(c)
    return mk('toreal', (i,), R)


def radd(*xs):
    c = Fr(0)
    out = []
    for x in xs:
        if x.op == 'rc':
            c += x.a[0]
        elif x.op == 'r+':
            for y in x.a:
                if y.op == 'rc':
                    c += y.a[0]
                else:
                    out.append(y)
        else:
            out.append(x)
    if c != 0 or not out:
        out.append(rc(c))
    return out[0] if len(out) == 1 else mk('r+', tuple(out), R)


def rmul(*xs):
    c = Fr(1)
    out = []
    for x in xs:
        if x.op == 'rc':
            c *= x.a[0]
        elif x.op == 'r*':
            for y in x.a:
                if y.op == 'rc':
                    c *= y.a[0]
                else:
                    out.append(y)
        else:
            out.append(x)
    if c == 0:
        return ZERO
    if c != 1 or not out:
        out.insert(0, rc(c))
    return out[0] if len(out) == 1 else mk('r*', tuple(out), R)


def rneg(x):
    return rmul(rc(-1), x)


def rsub(a, b):
    return radd(a, rneg(b))


def rdiv(a, b):
    if b.op == 'rc' and b.a[0] != 0:
        return rmul(rc(1 / b.a[0]), a)
    if a.op == 'rc' and a.a[0] == 0:
        return ZERO
    return mk('r/', (a, b), R)


def fn(name, *a):
    return mk('fn', (name,) + a, R)


def sqrt(x):
    if x.op == 'rc' and x.a[0] >= 0:
        n, d = x.a[0].numerator, x.a[0].denominator
        if math.isqrt(n) ** 2 == n and math.isqrt(d) ** 2 == d:
            return rc(Fr(math.isqrt(n), math.isqrt(d)))
    return fn('sqrt', x)


def sumt(b, lo, hi, body):
    return mk('sum', (b, lo, hi, body), R)


# ------------------------------------------------------------------ booleans
TRUE = mk('bc', (True,), B)
FALSE = mk('bc', (False,), B)


def bc(v):
    return TRUE if v else FALSE


def land(*xs):
    out = []
    for x in xs:
        if x is FALSE:
            return FALSE
        if x is TRUE:
            continue
        for y in (x.a if x.op == 'and' else (x,)):
            if y not in out:
                out.append(y)
    if not out:
        return TRUE
    return out[0] if len(out) == 1 else mk('and', tuple(out), B)


def lnot(x):
    if x.op == 'bc':
        return bc(not x.a[0])
    if x.op == 'not':
        return x.a[0]
    if x.op == 'and':
        return mk('or', tuple(lnot(y) for y in x.a), B)
    if x.op == 'or':
        return mk('and', tuple(lnot(y) for y in x.a), B)
    if x.op == 'ile':
        return ile0(isub(ic(1), x.a[0]))
    if x.op == 'rlt':
        return mk('rle', (x.a[1], x.a[0]), B)
    if x.op == 'rle':
        return mk('rlt', (x.a[1], x.a[0]), B)
    return mk('not', (x,), B)


def lor(*xs):
    out = []
    for x in xs:
        if x is TRUE:
            return TRUE
        if x is FALSE:
            continue
        for y in (x.a if x.op == 'or' else (x,)):
            if y not in out:
                out.append(y)
    if not out:
        return FALSE
    return out[0] if len(out) == 1 else mk('or', tuple(out), B)


def implies(a, b):
    return lor(lnot(a), b)


def iff(a, b):
    if a is b:
        return TRUE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE:
        return lnot(b)
    if b is FALSE:
        return lnot(a)
    return lor(land(a, b), land(lnot(a), lnot(b)))


def ile0(l):
    c = iconst(l)
    if c is not None:
        return bc(c <= 0)
    return mk('ile', (l,), B)


def ieq0(l):
    c = iconst(l)
    if c is not None:
        return bc(c == 0)
    if l.op == 'lin':
        g = 0
        for _, k in l.a[1]:
            g = math.gcd(g, k)
        if g > 1:
            if l.a[0] % g:
                return FALSE
            l = _mklin(l.a[0] // g, {t: k // g for t, k in l.a[1]})
        if l.op == 'lin' and l.a[1][0][1] < 0:
            l = imulc(l, -1)
    return mk('ieq', (l,), B)


def lt(a, b):
    if a.s == I:
        return ile0(iadd(isub(a, b), ic(1)))
    if a.op == 'rc' and b.op == 'rc':
        return bc(a.a[0] < b.a[0])
    if a is b:
        return FALSE
    return mk('rlt', (a, b), B)


def le(a, b):
    if a.s == I:
        return ile0(isub(a, b))
    if a.op == 'rc' and b.op == 'rc':
        return bc(a.a[0] <= b.a[0])
    if a is b:
        return TRUE
    return mk('rle', (a, b), B)


def eq(a, b):
    if a is b:
        return TRUE
    if a.s == I:
        return ieq0(isub(a, b))
    if a.s == B:
        return iff(a, b)
    if a.op == 'rc' and b.op == 'rc':
        return bc(a.a[0] == b.a[0])
    if a.id > b.id:
        a, b = b, a
    return mk('req', (a, b), B)


def ite(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if a.s == B:
        return lor(land(c, a), land(lnot(c), b))
    return mk('ite', (c, a, b), a.s)


def forall(b, lo, hi, body):
    if body is TRUE:
        return TRUE
    return mk('forall', (b, lo, hi, body), B)


# ------------------------------------------------------------------ traversal
def kids(t):
    if t.op == 'lin':
        return [x for x, _ in t.a[1]]
    return [x for x in t.a if isinstance(x, T)]


def bvs(t):
    """bound-variable terms occurring in t"""
    if t.bv is None:
        if t.op == 'bv':
            t.bv = frozenset((t,))
        else:
            s = frozenset()
            for x in kids(t):
                s |= bvs(x)
            t.bv = s
    return t.bv


def rebuild(t, f):
    o = t.op
    if o == 'lin':
        r = ic(t.a[0])
        for x, k in t.a[1]:
            r = iadd(r, imulc(f(x), k))
        return r
    if o in ('var', 'bv', 'rc', 'pi', 'bc'):
        return t
    a = [f(x) if isinstance(x, T) else x for x in t.a]
    return build(o, a, t.s)


def build(o, a, s):
    if o == 'imul':
        r = a[0]
        for x in a[1:]:
            r = imul(r, x)
        return r
    if o == 'idiv':
        return idiv(*a)
    if o == 'imod':
        return imod(*a)
    if o == 'floor':
        return floor(*a)
    if o == 'toreal':
        return toreal(*a)
    if o == 'r+':
        return radd(*a)
    if o == 'r*':
        return rmul(*a)
    if o == 'r/':
        return rdiv(*a)
    if o == 'fn':
        return sqrt(a[1]) if a[0] == 'sqrt' else mk('fn', tuple(a), R)
    if o == 'and':
        return land(*a)
    if o == 'or':
        return lor(*a)
    if o == 'not':
        return lnot(*a)
    if o == 'ile':
        return ile0(*a)
    if o == 'ieq':
        return ieq0(*a)
    if o == 'rlt':
        return lt(*a)
    if o == 'rle':
        return le(*a)
    if o == 'req':
        return eq(*a)
    if o == 'ite':
        return ite(*a)
    return mk(o, tuple(a), s)


def subst(t, m):
    """m: dict T -> T"""
    memo = {}

    def go(x):
        r = m.get(x)
        if r is not None:
            return r
        r = memo.get(x)
        if r is None:
            r = rebuild(x, go)
            memo[x] = r
        return r
    return go(t)


def walk(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        st.extend(kids(x))
    return seen


def show(t, d=0):
    o = t.op
    if d > 12:
        return '...'
    f = lambda x: show(x, d + 1)
    if o == 'lin':
        ps = []
        for x, k in t.a[1]:
            ps.append(('' if k == 1 else '-' if k == -1 else str(k) + '*') + f(x))
        if t.a[0] or not ps:
            ps.append(str(t.a[0]))
        s = ' + '.join(ps).replace('+ -', '- ')
        return s if len(ps) == 1 else '(' + s + ')'
    if o in ('var', 'bv'):
        return t.a[0]
    if o == 'rc':
        return str(t.a[0]) if t.a[0].denominator < 10**6 else '%g' % float(t.a[0])
    if o == 'pi':
        return 'pi'
    if o == 'bc':
        return str(t.a[0]).lower()
    if o in ('app', 'fn'):
        return '%s(%s)' % (t.a[0], ', '.join(f(x) for x in t.a[1:]))
    if o == 'toreal':
        return f(t.a[0])
    if o == 'r+':
        return '(' + ' + '.join(f(x) for x in t.a) + ')'
    if o == 'r*':
        return '*'.join(f(x) for x in t.a)
    if o == 'r/':
        return '(%s/%s)' % (f(t.a[0]), f(t.a[1]))
    if o == 'ile':
        return '%s <= 0' % f(t.a[0])
    if o == 'ieq':
        return '%s == 0' % f(t.a[0])
    if o == 'rlt':
        return '%s < %s' % (f(t.a[0]), f(t.a[1]))
    if o == 'rle':
        return '%s <= %s' % (f(t.a[0]), f(t.a[1]))
    if o == 'req':
        return '%s == %s' % (f(t.a[0]), f(t.a[1]))
    if o == 'ite':
        return '(if %s then %s else %s)' % tuple(f(x) for x in t.a)
    if o == 'and':
        return '(' + ' && '.join(f(x) for x in t.a) + ')'
    if o == 'or':
        return '(' + ' || '.join(f(x) for x in t.a) + ')'
    if o == 'not':
        return '!(%s)' % f(t.a[0])
    if o in ('sum', 'forall'):
        return '%s(%s in %s..%s: %s)' % (o, f(t.a[0]), f(t.a[1]), f(t.a[2]), f(t.a[3]))
    return '%s(%s)' % (o, ', '.join(f(x) if isinstance(x, T) else str(x) for x in t.a))


# ------------------------------------------------------------------ numeric evaluation
class EvalError(Exception):
    pass


TOL = 1e-7
UNITGEN = {}
FN = {
    'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'tanh': math.tanh, 'atan': math.atan,
    'atan2': math.atan2, 'abs': abs, 'sinh': math.sinh, 'cosh': math.cosh,
}


class Model:
    """random assignment to free symbols, generated on demand; numeric evaluation with tolerance.

    Comparisons within tolerance of equality are counted in self.fuzzy (the refuter then
    ignores the sample)."""

    def __init__(self, rng, preset=None):
        self.rng = rng
        self.vals = dict(preset or {})
        self.memo = {}
        self.fuzzy = 0
        self.tol = TOL
        self.near_ok = None
        self.near = ()        # numbers next to which values are drawn at times

    def sym(self, name, args=()):
        key = (name,) + tuple(round(x, 9) if isinstance(x, float) else x for x in args)
        if key in self.vals:
            return self.vals[key]
        info = SYMS[name]
        g = info.gen
        if g is not None and info.unit is not None:
            v = g(self, *args)
            self.vals[key] = v
            return v
        if info.unit is not None:
            base, comp = info.unit
            g = UNITGEN.get('*spin')
            if g is not None:
                v = g(self)
            else:
                v = [self.rng.gauss(0, 1) for _ in range(3)]
                n = math.sqrt(sum(x * x for x in v)) or 1.0
                v = [x / n for x in v]
            for c, x in zip('xyz', v):
                self.vals[(base + '.' + c,) + key[1:]] = x
            return self.vals[key]
        if g is not None:
            v = g(self, *args)
        elif info.sort == R:
            v = self.rng.uniform(-2, 2)
        elif info.sort == I:
            v = self.rng.randint(0, 6)
        else:
            v = self.rng.random() < 0.5
        if self.near and info.unit is None and info.sort != B and not info.fixed and self.rng.random() < 0.4:
            x = self.rng.choice(self.near)
            if info.sort == I:
                v = max(0, int(x) + self.rng.choice((-1, 0, 1, 2)))
            elif x < 2000 and (self.near_ok is None or self.near_ok(name)):
                v = float(x) * self.rng.choice((1.0, 1.0625, 0.9375, -1.0))
        self.vals[key] = v
        return v

    def ev(self, t, env=None):
        return self._ev(t, env or {}, {})

    def _ev(self, t, env, loc):
        b = bvs(t)
        memo = loc if b else self.memo
        if t in memo:
            return memo[t]
        v = self._ev1(t, env, loc)
        memo[t] = v
        return v

    def _ev1(self, t, env, loc):
        o = t.op
        a = t.a
        e = lambda x: self._ev(x, env, loc)
        if o == 'rc':
            return float(a[0])
        if o == 'lin':
            return a[0] + sum(k * e(x) for x, k in a[1])
        if o == 'bv':
            if t not in env:
                raise EvalError('unbound %s' % a[0])
            return env[t]
        if o == 'var':
            return self.sym(a[0])
        if o == 'app':
            return self.sym(a[0], tuple(e(x) for x in a[1:]))
        if o == 'pi':
            return math.pi
        if o == 'bc':
            return a[0]
        if o == 'toreal':
            return float(e(a[0]))
        if o == 'floor':
            x = e(a[0])
            if not math.isfinite(x):
                raise EvalError('floor of %r' % x)
            if abs(x - round(x)) < 1e-9:
                if abs(x - round(x)) > 0:
                    self.fuzzy += 0
                return int(round(x))
            return math.floor(x)
        if o == 'r+':
            return math.fsum(e(x) for x in a)
        if o == 'r*':
            r = 1.0
            for x in a:
                r *= e(x)
            return r
        if o == 'r/':
            d = e(a[1])
            if d == 0:
                raise EvalError('division by zero')
            return e(a[0]) / d
        if o == 'imul':
            r = 1
            for x in a:
                r *= e(x)
            return r
        if o in ('idiv', 'imod'):
            d = e(a[1])
            if d == 0:
                raise EvalError('division by zero')
            return e(a[0]) // d if o == 'idiv' else e(a[0]) % d
        if o == 'fn':
            xs = [e(x) for x in a[1:]]
            n = a[0]
            try:
                if n == 'sqrt':
                    if xs[0] < 0:
                        if xs[0] > -1e-9:
                            return 0.0
                        raise EvalError('sqrt of %r' % xs[0])
                    return math.sqrt(xs[0])
                if n == 'acos':
                    if abs(xs[0]) > 1 + 1e-9:
                        raise EvalError('acos of %r' % xs[0])
                    return math.acos(max(-1.0, min(1.0, xs[0])))
                if n == 'asin':
                    return math.asin(max(-1.0, min(1.0, xs[0])))
                if n == 'exp':
                    return math.exp(xs[0]) if xs[0] < 700 else math.exp(700)
                if n == 'ln':
                    if xs[0] <= 0:
                        raise EvalError('ln of %r' % xs[0])
                    return math.log(xs[0])
                return FN[n](*xs)
            except (ValueError, OverflowError, KeyError) as ex:
                raise EvalError('%s%r: %s' % (n, xs, ex))
        if o == 'ite':
            return e(a[1]) if e(a[0]) else e(a[2])
        if o == 'and':
            return all(e(x) for x in a)
        if o == 'or':
            return any(e(x) for x in a)
        if o == 'not':
            return not e(a[0])
        if o == 'ile':
            return e(a[0]) <= 0
        if o == 'ieq':
            return e(a[0]) == 0
        if o in ('rlt', 'rle', 'req'):
            x, y = e(a[0]), e(a[1])
            sc = 1 + abs(x) + abs(y)
            close = abs(x - y) <= self.tol * sc
            if o == 'req':
                return close
            if close:
                self.fuzzy += 1
                return True if o == 'rle' else x < y
            return x < y
        if o in ('sum', 'forall'):
            lo, hi = e(a[1]), e(a[2])
            if hi - lo > 20000:
                raise EvalError('range too long')
            if o == 'sum':
                r = []
                for k in range(lo, hi):
                    env2 = dict(env)
                    env2[a[0]] = k
                    r.append(self._ev(a[3], env2, {}))
                return math.fsum(r)
            for k in range(lo, hi):
                env2 = dict(env)
                env2[a[0]] = k
                if not self._ev(a[3], env2, {}):
                    return False
            return True
        if o == 'psum':
            raise EvalError('psum')
        if o == 'py':
            return PYC[a[0]](self)
        raise EvalError('op ' + o)


# conditions on outputs of the real code that are evaluated by a function of the model (never proved)
PYC = []


def pycond(f):
    PYC.append(f)
    return mk('py', (len(PYC) - 1,), B)


class Alt:
    """a goal with alternatives (e.g. two orders of the random draws): proved if one of them is"""

    def __init__(self, gs):
        self.gs = list(gs)


def goal_term(g):
    return lor(*g.gs) if isinstance(g, Alt) else g
