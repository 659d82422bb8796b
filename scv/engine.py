"""Symbolic executor: turns the real Rust source of /repo into terms and proof obligations.

Everything is computed from the parsed source on every run.  Values are functional; memory is a
map from cells to values; `&mut` is a place.  Loops with symbolic trip count are solved in closed
form (accumulators become sums, affine writes become index maps) and the closed form is checked
by base and step; what cannot be solved becomes an unknown function of the iteration number
constrained by the loop's own step (usable through invariants)."""
import itertools
from .rparse import N, parse_file, expand_macro, Parser, Tok
from .terms import *
from . import terms as TM
from .prove import Ctx, Prover, NeedSplit, Budget, intonly, Result


class Unsupported(Exception):
    pass


class Ctl(Exception):
    def __init__(self, kind, val=None, label=None):
        self.kind, self.val, self.label = kind, val, label


class Dead(Exception):
    """the current path is infeasible / diverges (panic)"""


# ------------------------------------------------------------------ values
class StructV:
    __slots__ = ('name', 'f')

    def __init__(self, name, f):
        self.name, self.f = name, f

    def with_(self, k, v):
        g = dict(self.f)
        g[k] = v
        return StructV(self.name, g)

    def __repr__(self):
        return '%s%r' % (self.name, self.f)


class Seq:
    """array / Vec / slice.  el: concrete list or None; otherwise length n and getter g"""
    __slots__ = ('el', 'n', 'g', 'root', 'writes', 'pushes', 'memo', 'orig')

    def __init__(self, el=None, n=None, g=None, root=None, writes=(), pushes=(), orig=None):
        self.el = el
        self.n = ic(len(el)) if el is not None else n
        self.g = g
        self.root, self.writes, self.pushes = root, writes, pushes
        self.memo = {}
        self.orig = orig

    def get(self, i):
        if self.el is not None:
            c = iconst(i)
            if c is not None:
                if not 0 <= c < len(self.el):
                    raise Dead('index %d of %d' % (c, len(self.el)))
                return self.el[c]
            if not self.el:
                raise Dead('index into empty')
            r = self.el[-1]
            for k in range(len(self.el) - 2, -1, -1):
                r = merge(eq(i, ic(k)), self.el[k], r)
            return r
        v = self.memo.get(i)
        if v is None:
            v = self.g(i)
            self.memo[i] = v
        return v

    def set(self, i, v):
        if self.el is not None:
            c = iconst(i)
            if c is not None:
                if not 0 <= c < len(self.el):
                    raise Dead('index')
                l = list(self.el)
                l[c] = v
                return Seq(l)
            return Seq([merge(eq(i, ic(k)), v, x) for k, x in enumerate(self.el)])
        old = self
        return Seq(None, self.n, lambda j: merge(eq(j, i), v, old.get(j)), self.root,
                   self.writes + ((TRUE, i, v),), self.pushes, self.orig)

    def push(self, v):
        if self.el is not None:
            return Seq(self.el + [v])
        old = self
        n = self.n
        return Seq(None, iadd(n, ic(1)), lambda j: v if j is n else merge(eq(j, n), v, old.get(j)), self.root,
                   self.writes, self.pushes + ((TRUE, v),), self.orig)

    def slice(self, lo, hi):
        if self.el is not None and iconst(lo) is not None and iconst(hi) is not None:
            return Seq(self.el[iconst(lo):iconst(hi)])
        old = self
        return Seq(None, isub(hi, lo), lambda j: old.get(iadd(j, lo)))

    def __repr__(self):
        return 'Seq%r' % (self.el,) if self.el is not None else 'Seq<%r>' % self.n


class TupV:
    __slots__ = ('el',)

    def __init__(self, el):
        self.el = el

    def __repr__(self):
        return 'Tup%r' % (self.el,)


class OptV:
    __slots__ = ('some', 'v', 'e')

    def __init__(self, some, v, e=None):
        self.some, self.v, self.e = some, v, e


class EnumV:
    __slots__ = ('name', 't')

    def __init__(self, name, t):
        self.name, self.t = name, t


class StrV:
    __slots__ = ('parts',)

    def __init__(self, parts):
        self.parts = tuple(parts)


class Opq:
    """opaque value (files, progress bars, ...)"""
    __slots__ = ('kind', 'd')

    def __init__(self, kind, **d):
        self.kind, self.d = kind, d

    def __repr__(self):
        return '<%s %r>' % (self.kind, self.d)


class ClosV:
    __slots__ = ('node', 'env', 'mod', 'self_t', 'fn')

    def __init__(self, node, env, mod, self_t, fn=None):
        self.node, self.env, self.mod, self.self_t, self.fn = node, env, mod, self_t, fn


class RefV:
    __slots__ = ('cell', 'path')

    def __init__(self, cell, path=()):
        self.cell, self.path = cell, path


class IterV:
    __slots__ = ('n', 'get', 'lazy', 'filt')

    def __init__(self, n, get, lazy=False, filt=None):
        self.n, self.get, self.lazy = n, get, lazy
        self.filt = filt


class RangeV:
    __slots__ = ('lo', 'hi')

    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi


class TraceV:
    """ghost sequence of events; segs: ('ev', data) | ('if', c, A, B) | ('rep', n, fn)"""
    __slots__ = ('segs', 'root')

    def __init__(self, segs=(), root=None):
        self.segs, self.root = tuple(segs), root

    def add(self, *s):
        return TraceV(self.segs + s, self.root)


class Poison:
    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return 'Poison(%s)' % self.why


UNIT = TupV([])


def merge(c, a, b):
    if a is b or c is TRUE:
        return a
    if c is FALSE:
        return b
    if isinstance(a, T) and isinstance(b, T):
        if a.s != b.s:
            return Poison('sorts')
        return ite(c, a, b)
    if type(a) is not type(b):
        return Poison('merge of %s and %s' % (type(a).__name__, type(b).__name__))
    if isinstance(a, StructV):
        if a.name != b.name:
            return Poison('structs')
        return StructV(a.name, {k: merge(c, a.f[k], b.f[k]) for k in a.f})
    if isinstance(a, TupV):
        return TupV([merge(c, x, y) for x, y in zip(a.el, b.el)])
    if isinstance(a, Seq):
        if a.el is not None and b.el is not None and len(a.el) == len(b.el):
            return Seq([merge(c, x, y) for x, y in zip(a.el, b.el)])
        root = a.root if a.root is not None and a.root == b.root else None
        w, p = (), ()
        if root is not None:
            # common prefix of writes
            k = 0
            while k < len(a.writes) and k < len(b.writes) and a.writes[k] is b.writes[k]:
                k += 1
            wa, wb = a.writes[k:], b.writes[k:]
            if len(wa) == 1 and len(wb) == 1 and wa[0][1] is wb[0][1] and wa[0][0] is wb[0][0]:
                w = a.writes[:k] + ((wa[0][0], wa[0][1], merge(c, wa[0][2], wb[0][2])),)
            else:
                w = a.writes[:k] + tuple((land(c, x), i, v) for x, i, v in wa) + tuple((land(lnot(c), x), i, v) for x, i, v in wb)
            k = 0
            while k < len(a.pushes) and k < len(b.pushes) and a.pushes[k] is b.pushes[k]:
                k += 1
            pa, pb = a.pushes[k:], b.pushes[k:]
            if len(pa) == len(pb):
                p = a.pushes[:k] + tuple((ite(c, x[0], y[0]) if x[0] is not y[0] else x[0], merge(c, x[1], y[1])) for x, y in zip(pa, pb))
            else:
                p = a.pushes[:k] + tuple((land(c, x), v) for x, v in pa) + tuple((land(lnot(c), x), v) for x, v in pb)
        if a.el == [] or b.el == []:
            # an index that is in range is one of the other sequence
            return Seq(None, ite(c, a.n, b.n), b.get if a.el == [] else a.get, root, w, p, a.orig)
        return Seq(None, ite(c, a.n, b.n), lambda j: merge(c, a.get(j), b.get(j)), root, w, p, a.orig)
    if isinstance(a, OptV):
        if a.v is None:
            v = b.v
        elif b.v is None:
            v = a.v
        else:
            v = merge(c, a.v, b.v)
        return OptV(ite(c, a.some, b.some), v, a.e or b.e)
    if isinstance(a, EnumV):
        return EnumV(a.name, ite(c, a.t, b.t))
    if isinstance(a, RefV):
        if a.cell == b.cell and a.path == b.path:
            return a
        return Poison('refs')
    if isinstance(a, TraceV):
        k = 0
        while k < len(a.segs) and k < len(b.segs) and a.segs[k] is b.segs[k]:
            k += 1
        x, y = a.segs[k:], b.segs[k:]
        if not x and not y:
            return a
        return TraceV(a.segs[:k] + (('if', c, x, y),), a.root)
    if isinstance(a, Opq):
        if a.kind == b.kind:
            if a.d == b.d:
                return a
            if a.kind == 'file':
                return Opq('file', id=('ite', c, a.d.get('id'), b.d.get('id')))
            if a.kind == 'chan':
                return Opq('chan', id=ite(c, a.d['id'], b.d['id']))
        return Poison('opaque')
    if isinstance(a, StrV):
        if a.parts == b.parts:
            return a
        return StrV((('ite', c, a.parts, b.parts),))
    if isinstance(a, RangeV):
        return RangeV(merge(c, a.lo, b.lo), merge(c, a.hi, b.hi))
    if isinstance(a, IterV):
        return IterV(ite(c, a.n, b.n), lambda k: merge(c, a.get(k), b.get(k)), a.lazy or b.lazy)
    return Poison('merge %s' % type(a).__name__)


def leaves(v, path=()):
    """(path, leaf) decomposition; symbolic sequences are leaves"""
    if isinstance(v, StructV):
        for k, x in v.f.items():
            yield from leaves(x, path + (('f', k),))
    elif isinstance(v, Seq) and v.el is not None:
        for k, x in enumerate(v.el):
            yield from leaves(x, path + (('i', ic(k)),))
    elif isinstance(v, TupV):
        for k, x in enumerate(v.el):
            yield from leaves(x, path + (('t', k),))
    elif isinstance(v, EnumV):
        yield path + (('e', v.name),), v.t
    else:
        yield path, v


def get_path(v, path):
    for k, x in path:
        if k == 'f':
            v = v.f[x]
        elif k == 'i':
            v = v.get(x)
        elif k == 't':
            v = v.el[x]
        elif k == 'e':
            v = v.t
        elif k == 's':
            v = v.slice(*x)
        elif k == 'o':
            v = v.v
        else:
            raise Unsupported('path ' + k)
    return v


def set_path(v, path, new):
    if not path:
        return new
    k, x = path[0]
    rest = path[1:]
    if k == 'f':
        return v.with_(x, set_path(v.f[x], rest, new))
    if k == 'i':
        return v.set(x, set_path(v.get(x) if rest else None, rest, new))
    if k == 't':
        l = list(v.el)
        l[x] = set_path(l[x], rest, new)
        return TupV(l)
    if k == 'e':
        return EnumV(x, new)
    if k == 'o':
        return OptV(v.some, set_path(v.v, rest, new), v.e)
    if k == 's' and rest and rest[0][0] == 'i':
        return set_path(v, (('i', iadd(rest[0][1], x[0])),) + rest[1:], new)
    raise Unsupported('write through ' + k)


def map_leaves(v, f, path=()):
    """rebuild v with f(path, leaf)"""
    if isinstance(v, StructV):
        return StructV(v.name, {k: map_leaves(x, f, path + (('f', k),)) for k, x in v.f.items()})
    if isinstance(v, Seq) and v.el is not None:
        return Seq([map_leaves(x, f, path + (('i', ic(k)),)) for k, x in enumerate(v.el)])
    if isinstance(v, TupV):
        return TupV([map_leaves(x, f, path + (('t', k),)) for k, x in enumerate(v.el)])
    if isinstance(v, EnumV):
        return EnumV(v.name, f(path + (('e', v.name),), v.t))
    return f(path, v)


def vmap(v, tf):
    """apply a term transformation everywhere in a value"""
    def f(_, x):
        if isinstance(x, T):
            return tf(x)
        if isinstance(x, Seq):
            return Seq(None, tf(x.n), lambda j: vmap(x.get(j), tf), x.root,
                       tuple((tf(c), tf(i), vmap(u, tf)) for c, i, u in x.writes),
                       tuple((tf(c), vmap(u, tf)) for c, u in x.pushes), x.orig)
        if isinstance(x, OptV):
            return OptV(tf(x.some), vmap(x.v, tf) if x.v is not None else None, x.e)
        if isinstance(x, TraceV):
            return TraceV(tmap(x.segs, tf), x.root)
        if isinstance(x, Opq):
            return Opq(x.kind, **{k: dmap(u, tf) for k, u in x.d.items()})
        if isinstance(x, StrV):
            return StrV(dmap(x.parts, tf))
        if isinstance(x, RangeV):
            return RangeV(vmap(x.lo, tf), vmap(x.hi, tf))
        return x
    return map_leaves(v, f)


def dmap(d, tf):
    if isinstance(d, T):
        return tf(d)
    if isinstance(d, (tuple, list)):
        return tuple(dmap(x, tf) for x in d)
    if callable(d):
        return lambda k: dmap(d(k), tf)
    if isinstance(d, (StructV, Seq, TupV, OptV, StrV, EnumV)):
        return vmap(d, tf)
    return d


def tmap(segs, tf):
    out = []
    for s in segs:
        if s[0] == 'ev':
            out.append(('ev', dmap(s[1], tf)))
        elif s[0] == 'if':
            out.append(('if', tf(s[1]), tmap(s[2], tf), tmap(s[3], tf)))
        else:
            out.append(('rep', tf(s[1]), (lambda f: lambda k: tmap(f(k), tf))(s[2])))
    return tuple(out)


def same(a, b):
    """definitely equal values (identity of terms)"""
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, T):
        return a is b
    if isinstance(a, StructV):
        return a.name == b.name and all(same(a.f[k], b.f[k]) for k in a.f)
    if isinstance(a, TupV):
        return len(a.el) == len(b.el) and all(same(x, y) for x, y in zip(a.el, b.el))
    if isinstance(a, Seq):
        if a.el is not None and b.el is not None:
            return len(a.el) == len(b.el) and all(same(x, y) for x, y in zip(a.el, b.el))
        return a.root is not None and a.root == b.root and a.writes == b.writes and a.pushes == b.pushes
    if isinstance(a, EnumV):
        return a.t is b.t
    if isinstance(a, RefV):
        return a.cell == b.cell and a.path == b.path
    if isinstance(a, TraceV):
        return a.segs == b.segs
    if isinstance(a, Opq):
        return a.kind == b.kind and a.d == b.d
    if isinstance(a, StrV):
        return a.parts == b.parts
    if isinstance(a, OptV):
        return a.some is b.some and (a.v is b.v or (a.v is not None and b.v is not None and same(a.v, b.v)))
    return False


def eq_vals(a, b):
    """boolean term: values equal"""
    if isinstance(a, T):
        return eq(a, b)
    if isinstance(a, StructV):
        return land(*[eq_vals(a.f[k], b.f[k]) for k in a.f])
    if isinstance(a, TupV):
        return land(*[eq_vals(x, y) for x, y in zip(a.el, b.el)])
    if isinstance(a, EnumV):
        return eq(a.t, b.t)
    if isinstance(a, Seq):
        if a.el is not None and b.el is not None:
            if len(a.el) != len(b.el):
                return FALSE
            return land(*[eq_vals(x, y) for x, y in zip(a.el, b.el)])
        if a.el == [] or b.el == []:
            return eq(a.n, b.n)
        k = bvar('j')
        return land(eq(a.n, b.n), forall(k, ic(0), a.n, eq_vals(a.get(k), b.get(k))))
    if isinstance(a, OptV):
        return land(iff(a.some, b.some), lor(lnot(a.some), eq_vals(a.v, b.v)) if a.v is not None and b.v is not None else TRUE)
    if isinstance(a, Opq) and isinstance(b, Opq) and (a.d.get('any') or b.d.get('any')):
        return TRUE
    if isinstance(a, StrV) and isinstance(b, StrV) and any(p[0] == 'any' for p in a.parts + b.parts):
        return TRUE
    if same(a, b):
        return TRUE
    raise Unsupported('equality of %s' % type(a).__name__)


# ------------------------------------------------------------------ program
class Program:
    def __init__(self, root, files):
        self.fns, self.structs, self.enums, self.macros, self.consts = {}, {}, {}, {}, {}
        self.src = {}
        self.where = {}
        self.errors = {}
        for f in files:
            path = '%s/%s' % (root, f)
            mod = f.rsplit('/', 1)[-1][:-3]
            try:
                src, items = parse_file(path)
            except Exception as e:
                self.errors[f] = '%s: %s' % (type(e).__name__, e)
                continue
            self.src[f] = src
            self.add(items, mod, f)

    def add(self, items, mod, f):
        for it in items:
            self.where[id(it)] = f
            if it.k == 'fn':
                it.d['mod'] = mod
                it.d['file'] = f
                self.fns[(mod, it.name)] = it
            elif it.k == 'impl':
                t = it.t
                while t.k == 'ref':
                    t = t.t
                tn = t.segs[-1] if t.k == 'path' else str(t.k)
                for x in it.items:
                    if x.k == 'fn':
                        x.d['mod'] = mod
                        x.d['file'] = f
                        x.d['self_t'] = tn
                        self.fns[(tn, x.name)] = x
                    elif x.k == 'constdef':
                        self.consts[(tn, x.name)] = (x, mod)
            elif it.k == 'structdef':
                self.structs[it.name] = it
            elif it.k == 'enumdef':
                self.enums[it.name] = it
            elif it.k == 'macrodef':
                self.macros[it.name] = it
            elif it.k == 'constdef':
                self.consts[(mod, it.name)] = (it, mod)
            elif it.k == 'mod' and it.items:
                self.add(it.items, mod, f)


class Oblig:
    __slots__ = ('name', 'kind', 'hyps', 'goal', 'line', 'file', 'fn', 'forms')

    def __init__(self, name, kind, hyps, goal, file='', line=0, fn=''):
        self.name, self.kind, self.hyps, self.goal, self.file, self.line, self.fn = name, kind, hyps, goal, file, line, fn


class Frame:
    def __init__(self, fn, pc0):
        self.fn = fn
        self.pend = []      # (rel. condition, kind, value, state, label)
        self.pc0 = pc0


class Engine:
    UNROLL = 40

    def __init__(self, prog, contracts=None, hyps=(), ghost=None, timeout=120):
        self.prog = prog
        self.contracts = contracts or {}
        self.st = {}
        self.ncell = 0
        self.ctx = Ctx(list(hyps), None, None)
        import time
        self.ctx.deadline = time.time() + timeout
        self.pc = []            # path conditions (since start)
        self.hyps = list(hyps)
        self.obl = []
        self.frames = []
        self.mode = 0           # >0: obligations are discarded (inference runs)
        self.depth = 0
        self.inlined = set()
        self.assumed = set()
        self.recs, self.ccalls, self.kvar = {}, [], None
        self.stepfacts = []     # (description) facts about unknown loop functions
        self.loops = []
        self.invs = None          # candidate invariants of while loops, see by_invariants
        self.ghost = self.newcell(ghost if ghost is not None else StructV('Ghost', {
            'u': ic(0), 'g': ic(0), 'n': ic(0), 'trace': TraceV()}))
        self.invariants = []    # callbacks for while loops

    # ---- state
    def newcell(self, v):
        self.ncell += 1
        self.st[self.ncell] = v
        return self.ncell

    def read(self, r):
        try:
            return get_path(self.st[r.cell], r.path)
        except KeyError:
            raise Unsupported('dangling place')

    def write(self, r, v):
        self.st[r.cell] = set_path(self.st[r.cell], r.path, v)

    def gh(self, k):
        return self.st[self.ghost].f[k]

    def ghset(self, k, v):
        self.st[self.ghost] = self.st[self.ghost].with_(k, v)

    def event(self, *data):
        self.ghset('trace', self.gh('trace').add(('ev', data)))

    def val(self, v):
        """auto-deref"""
        n = 0
        while isinstance(v, RefV):
            v = self.read(v)
            n += 1
            if n > 20:
                raise Unsupported('deref cycle')
        if isinstance(v, Poison):
            raise Unsupported(repr(v))
        return v

    # ---- conditions
    def decide(self, c):
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        try:
            return self.ctx.decide(c)
        except (NeedSplit, Budget):
            return None

    def push(self, c):
        self.pc.append(c)
        old = self.ctx
        self.ctx = self.ctx.child(c)
        return old

    def pop(self, old, n):
        self.ctx = old
        del self.pc[n:]

    def assume(self, c):
        """add to the current path (stays until the enclosing branch is left)"""
        if c is TRUE:
            return
        self.pc.append(c)
        self.ctx = self.ctx.child(c)
        if self.ctx.dead:
            raise Dead('assume')

    def oblig(self, kind, goal, node=None, name=''):
        if goal is TRUE:
            if not self.mode:
                self.count_trivial = getattr(self, 'count_trivial', 0) + 1
            return
        fn = self.frames[-1].fn if self.frames else None
        if not self.mode:
            self.obl.append(Oblig(name or kind, kind, list(self.hyps) + list(self.pc), goal,
                                  fn.d.get('file', '') if fn is not None else '', node.line if node is not None else 0,
                                  fn_name(fn) if fn is not None else ''))
        if goal is FALSE:
            raise Dead('obligation false')
        # what is checked here may be used afterwards
        self.pc.append(goal)
        self.ctx = self.ctx.child(goal)

    # ---- branching
    def branch(self, c, fa, fb):
        d = self.decide(c)
        if d is True:
            return fa()
        if d is False:
            return fb()
        st0 = dict(self.st)
        n = len(self.pc)
        res = []
        for cond, f in ((c, fa), (lnot(c), fb)):
            self.st = dict(st0)
            old = self.push(cond)
            if self.ctx.dead:
                self.pop(old, n)
                res.append(None)
                continue
            try:
                v = f()
                extra = self.pc[n + 1:]
                res.append((v, self.st, extra))
            except Ctl as e:
                self.frames[-1].pend.append((land(*self.pc[self.frames[-1].pc0:]), e.kind, e.val, self.st, e.label))
                res.append(None)
            except Dead:
                res.append(None)
            self.pop(old, n)
        a, b = res
        if a is None and b is None:
            self.st = st0
            raise Dead('both')
        if a is None or b is None:
            x = a or b
            self.st = x[1]
            self.assume(c if b is None else lnot(c))
            for e in x[2]:
                self.assume(e)
            return x[0]
        self.st = self.merge_st(c, a[1], b[1])
        return merge(c, a[0], b[0])

    def merge_st(self, c, sa, sb):
        out = {}
        for k in sa:
            if k in sb:
                x, y = sa[k], sb[k]
                out[k] = x if x is y else merge(c, x, y)
        return out

    # ---- calling
    def call_fn(self, fn, args, self_t=None):
        if self.depth > 40:
            raise Unsupported('recursion')
        self.inlined.add(fn_name(fn))
        self.depth += 1
        fr = Frame(fn, len(self.pc))
        self.frames.append(fr)
        env = {}
        ps = list(fn.params)
        if fn.self_kind:
            env['self'] = self.newcell(args[0])
            args = args[1:]
        if len(ps) != len(args):
            raise Unsupported('arity of %s' % fn.name)
        for (p, t), a in zip(ps, args):
            self.bind(p, a, env)
        old_ctx, n = self.ctx, len(self.pc)
        try:
            try:
                v = self.block(fn.body, Env(env, fn.d.get('mod'), fn.d.get('self_t') or self_t))
                fin = (None, v, self.st)
            except Ctl as e:
                if e.kind not in ('return',):
                    raise Unsupported('stray ' + e.kind)
                fin = (None, e.val, self.st)
            except Dead:
                fin = None
        finally:
            self.frames.pop()
            self.depth -= 1
        extra = self.pc[n:]
        if not fr.pend:
            if fin is None:
                raise Dead('callee diverges')
            self.st = fin[2]
            return fin[1]
        self.pop(old_ctx, n)
        outs = []
        for c, kind, v, st, _ in fr.pend:
            if kind != 'return':
                raise Unsupported('stray ' + kind)
            outs.append((c, v, st))
        if fin is None:
            c, v, st = outs.pop()
        else:
            v, st = fin[1], fin[2]
        for c, v2, st2 in reversed(outs):
            v = merge(c, v2, v)
            st = self.merge_st(c, st2, st)
        self.st = st
        return v

    def call(self, key, args, node):
        c = self.contracts.get(key)
        if c is not None:
            r = c(self, args, node)
            if r is not NotImplemented:
                return r
        fn = self.prog.fns.get(key)
        if fn is None:
            raise Unsupported('call of %s' % (key,))
        return self.call_fn(fn, args, key[0])

    def apply(self, f, args):
        """call a closure value (or function path)"""
        f = self.val(f)
        if isinstance(f, Opq) and f.kind == 'fnref':
            return self.call_path(f.d['segs'], args, None, Env({}, f.d['mod'], f.d['self_t']))
        if not isinstance(f, ClosV):
            raise Unsupported('call of %s' % type(f).__name__)
        node = f.node
        if len(node.ps) != len(args):
            raise Unsupported('closure arity')
        env = Env(dict(f.env), f.mod, f.self_t)
        for p, a in zip(node.ps, args):
            p = p[0] if isinstance(p, tuple) else p
            self.bind(p, a, env.v)
        fr = Frame(f.fn if f.fn is not None else (self.frames[-1].fn if self.frames else None), len(self.pc))
        self.frames.append(fr)
        old_ctx, n = self.ctx, len(self.pc)
        try:
            try:
                v = self.ev(node.b, env)
                fin = (v, self.st)
            except Ctl as e:
                if e.kind != 'return':
                    raise Unsupported('stray ' + e.kind)
                fin = (e.val, self.st)
            except Dead:
                fin = None
        finally:
            self.frames.pop()
        if not fr.pend:
            if fin is None:
                raise Dead('closure diverges')
            self.st = fin[1]
            return fin[0]
        self.pop(old_ctx, n)
        outs = [(c, v, st) for c, k, v, st, _ in fr.pend]
        if any(k != 'return' for _, k, _, _, _ in fr.pend):
            raise Unsupported('stray control flow in closure')
        if fin is None:
            c, v, st = outs.pop()
        else:
            v, st = fin
        for c, v2, st2 in reversed(outs):
            v = merge(c, v2, v)
            st = self.merge_st(c, st2, st)
        self.st = st
        return v

    # ---- patterns
    def bind(self, p, v, env):
        k = p.k
        if k == 'pid':
            if p.sub is not None:
                raise Unsupported('@ pattern')
            env[p.name] = self.newcell(v)
        elif k == 'pwild':
            pass
        elif k == 'pref':
            self.bind(p.p, self.val(v), env)
        elif k == 'ptuple':
            v = self.val(v)
            if not isinstance(v, TupV):
                raise Unsupported('tuple pattern')
            for q, x in zip(p.ps, v.el):
                if q.k == 'prest':
                    raise Unsupported('..')
                self.bind(q, x, env)
        elif k == 'pslice':
            v = self.val(v)
            if not isinstance(v, Seq) or v.el is None or len(v.el) != len(p.ps):
                raise Unsupported('slice pattern')
            for q, x in zip(p.ps, v.el):
                self.bind(q, x, env)
        elif k == 'pstruct':
            v = self.val(v)
            for f in p.fs:
                if isinstance(f, tuple):
                    self.bind(f[1], v.f[f[0]], env)
        else:
            raise Unsupported('pattern ' + k)

    def match(self, p, v, env):
        """condition under which p matches v; binds variables (optimistically)"""
        k = p.k
        if k == 'pwild':
            return TRUE
        if k == 'pid':
            en = self.enum_variant([p.name], v)
            if en is not None:
                return en
            if p.name == 'None':
                return lnot(self.val(v).some)
            if p.name[0].isupper():
                raise Unsupported('constant pattern ' + p.name)
            env[p.name] = self.newcell(v)
            if p.sub is not None:
                return self.match(p.sub, v, env)
            return TRUE
        if k == 'pref':
            return self.match(p.p, self.val(v), env)
        if k == 'por':
            return lor(*[self.match(q, v, env) for q in p.ps])
        if k == 'plit':
            x = self.ev(p.e, Env(env, None, None))
            return self.compare('==', self.val(v), x)
        if k == 'prange':
            v = self.val(v)
            c = []
            if p.lo is not None:
                c.append(le(self.ev(p.lo, Env(env, None, None)), v))
            if p.hi is not None:
                h = self.ev(p.hi, Env(env, None, None))
                c.append(le(v, h) if p.op == '..=' else lt(v, h))
            return land(*c)
        if k == 'ppath':
            if p.segs[-1] == 'None':
                v = self.val(v)
                return lnot(v.some)
            r = self.enum_variant(p.segs, v)
            if r is None:
                raise Unsupported('path pattern')
            return r
        if k == 'ptstruct':
            n = p.segs[-1]
            r = v
            v = self.val(v)
            if n in ('Some', 'Ok') and isinstance(v, OptV):
                inner = v.v
                if isinstance(r, RefV):
                    inner = RefV(r.cell, r.path + (('o', None),))
                if inner is None or v.some is FALSE:
                    return FALSE
                return land(v.some, self.match(p.ps[0], inner, env))
            if n == 'Err' and isinstance(v, OptV):
                return land(lnot(v.some), self.match(p.ps[0], v.e or Opq('err'), env))
            raise Unsupported('pattern ' + n)
        if k == 'ptuple':
            v = self.val(v)
            return land(*[self.match(q, x, env) for q, x in zip(p.ps, v.el)])
        raise Unsupported('match pattern ' + k)

    def enum_variant(self, segs, v):
        if len(segs) >= 2 and segs[-2] in self.prog.enums:
            e = self.prog.enums[segs[-2]]
            v = self.val(v)
            names = [x[0] if isinstance(x, tuple) else x for x in e.vs]
            if segs[-1] in names and isinstance(v, EnumV):
                return eq(v.t, ic(names.index(segs[-1])))
        return None


class Env:
    __slots__ = ('v', 'mod', 'self_t')

    def __init__(self, v, mod, self_t):
        self.v, self.mod, self.self_t = v, mod, self_t

    def sub(self):
        return Env(dict(self.v), self.mod, self.self_t)


def fn_name(fn):
    t = fn.d.get('self_t')
    return (t + '::' if t else fn.d.get('mod', '') + '::') + fn.name
