"""Contracts of the averaging commands (src/obs.rs average, two_point_average: C22).

The logs are F files; log f has h(f) (0 or 1) heading lines, which start with #, and then n(f) data
lines of M numbers, c(f,l,j) the j-th number of its line l.  The two loops over the logs and over the lines of a log carry
the invariants

    logs f .. done:   as many entries as the longest of the first f logs has lines, N(f)
                      nums[i] = cnt(f,i),  data[i][j] = tot(f,i,j)          for i < N(f)
    lines .. i done:  max(N(f), i) entries, those below i as after log f, the others as before it

with cnt(f+1,i) = (cnt(f,i) if i < N(f)) + (1 if i < n(f)), tot likewise, N(f+1) = max(N(f), n(f)).
lemmas/Averages.lean: cnt(F,i) is the number of logs that have line i, tot(F,i,j) the sum over exactly
those, and N(F) the number of line numbers that occur."""
from .chain import *
from ..obsx import *
from ..engine import get_path, eq_vals
from ..ev import strip_e, set_path_e

I_ = I
OBS = 'obs'
F, M = var('av.F', I_), var('av.M', I_)
decl('av.F', I_, facts=lambda: [le(ic(0), F)])
decl('av.M', I_, facts=lambda: [le(ic(1), M)])
n = lambda f: app('av.n', f)
N_ = lambda f: app('av.N', f)
z = lambda f: app('av.z', f)
hd = lambda f: app('av.h', f)
c = lambda f, l, j: app('av.c', f, l, j)
cnt = lambda f, i: app('av.cnt', f, i)
decl('av.n', I_, facts=lambda f: [le(ic(0), n(f))])
decl('av.h', I_, facts=lambda f: [le(ic(0), hd(f)), le(hd(f), ic(1))])
decl('av.N', I_, facts=lambda f: [le(ic(0), N_(f))])
decl('av.z', I_, facts=lambda f: [le(ic(0), z(f)), lt(z(f), n(f))])
decl('av.c', R)
decl('av.cnt', R, facts=lambda f, i: [implies(land(le(ic(0), i), lt(i, N_(f))), le(ONE, cnt(f, i)))])
decl('av.tot', R)
decl('av.tot2', R)


class Table:
    """one of the two commands: what a line contributes, and the sequences the loops carry"""

    def __init__(self, two):
        self.two = two
        self.tot = lambda f, i, j: app('av.tot2' if two else 'av.tot', f, i, j)

    def x(self, f, i, j):
        v = c(f, iadd(i, hd(f)), j)
        return ite(eq(j, ic(0)), v, rmul(v, c(f, iadd(z(f), hd(f)), j))) if self.two else v

    def logs(self, f, what):
        """after the logs below f"""
        if iconst(f) == 0:
            return Seq([])
        return self.seq(N_(f), lambda i: cnt(f, i), lambda i, j: self.tot(f, i, j), what)

    def seq(self, k, num, dat, what):
        if what == 'nums':
            return Seq(None, k, num)
        return Seq(None, k, lambda i: Seq(None, M, lambda j: dat(i, j)))

    def after(self, f):
        """entry i after log f, from the one before it"""
        old = lambda i, v: ite(lt(i, N_(f)), v, ZERO) if iconst(f) != 0 else ZERO
        num = lambda i: radd(old(i, cnt(f, i)), ite(lt(i, n(f)), ONE, ZERO))
        dat = lambda i, j: radd(old(i, self.tot(f, i, j)), ite(lt(i, n(f)), self.x(f, i, j), ZERO))
        return num, dat

    def logs1(self, f, what):
        """logs(f + 1), by the recursion"""
        return self.seq(ite(le(n(f), N_(f)), N_(f), n(f)), *self.after(f), what)

    def lines(self, f, k, what):
        """after the lines below k of log f"""
        num, dat = self.after(f)
        return self.seq(ite(le(k, N_(f)), N_(f), k), lambda i: ite(lt(i, k), num(i), cnt(f, i)),
                        lambda i, j: ite(lt(i, k), dat(i, j), self.tot(f, i, j)), what)

    def zero(self, f, k):
        return Seq(None, ite(lt(z(f), k), M, ic(0)), lambda j: c(f, iadd(z(f), hd(f)), j))


class AvgEngine(ObsEngine):
    table = None

    # ---- outside world
    def builtin(self, s, args, e, env):
        t, m = (s[-2] if len(s) > 1 else ''), s[-1]
        if m == 'glob' and t in ('', 'glob'):
            self.event('glob', self.val(args[0]))
            return OptV(TRUE, IterV(F, lambda f: OptV(TRUE, Opq('path', f=f))))
        if t == 'File' and m == 'open':
            p = self.val(args[0])
            if isinstance(p, Opq) and p.kind == 'path':
                return OptV(TRUE, Opq('log', f=p.d['f']))
        if t == 'BufReader' and m in ('new', 'with_capacity'):
            return self.val(args[-1])
        if t == 'fs' and m == 'read_to_string':
            p = self.val(args[0])
            if isinstance(p, Opq) and p.kind == 'path':
                return OptV(TRUE, Opq('logtext', f=p.d['f']))
        if m == 'parse' and t == 'str':
            return self.m_str('parse', self.val(args[0]), [], e)
        return super().builtin(s, args, e, env)

    def m_opq(self, m, r, v, args, e, env):
        if v.kind in ('log', 'logtext') and m == 'lines':
            f = v.d['f']
            ln = lambda l: Opq('line', f=f, l=l)
            return IterV(iadd(n(f), hd(f)), (lambda l: OptV(TRUE, ln(l))) if v.kind == 'log' else ln)
        if v.kind in ('path', 'line', 'log') and m in ('clone', 'as_path', 'as_str', 'as_ref', 'to_string', 'to_owned', 'trim', 'trim_end', 'trim_start', 'by_ref'):
            return v
        if v.kind == 'line' and m == 'starts_with':
            a = self.val(args[0])
            if not (isinstance(a, StrV) and a.parts == ('#',) or isinstance(a, T) and iconst(a) == 35):
                raise Unsupported('starts_with')
            return lt(v.d['l'], hd(v.d['f']))
        if v.kind == 'line' and m in ('split', 'split_whitespace', 'split_ascii_whitespace', 'split_terminator'):
            if m in ('split', 'split_terminator'):
                a = self.val(args[0])
                if not (isinstance(a, StrV) and a.parts == (' ',) or isinstance(a, T) and iconst(a) == 32):
                    raise Unsupported('split')
            return IterV(M, lambda j: StrV((('arg', c(v.d['f'], v.d['l'], j), ''),)))
        return super().m_opq(m, r, v, args, e, env)

    def m_iter(self, m, it, args, e):
        if m in ('flat_map', 'filter_map') or m == 'flatten' or (m == 'map_while'):
            def g(k):
                x = self.val(it.get(k))
                if m != 'flatten':
                    x = self.val(self.apply(args[0], [x]))
                if not isinstance(x, OptV) or self.decide(x.some) is not True:
                    raise Unsupported(m)
                return x.v
            return IterV(it.n, g, True)
        what = self.items(it) if m in ('filter', 'skip_while') and it.n is not None else None
        if what and what[0] == 'line':
            # exactly the heading is left out
            k, h = fresh('k', I_), hd(what[1])
            q = self.val(self.apply(args[0], [self.val(it.get(k))]))
            q = q if m == 'filter' else lnot(q)
            if not self.holds(list(self.hyps) + list(self.pc) + [le(ic(0), k), lt(k, it.n)], iff(q, le(h, k))):
                raise Unsupported(m)
            return IterV(isub(it.n, h), lambda j: it.get(iadd(j, h)), True)
        return super().m_iter(m, it, args, e)

    # ---- loops over logs and over lines, by their invariants
    def e_for(self, e, env):
        it = self.to_iter(self.ev(e.e, env), e)

        def body(k):
            en = env.sub()
            self.bind(e.p, it.get(k), en.v)
            self.block(e.b, en)
        what = self.items(it)
        if what is None:
            self.run_loop(it.n, body, e)
        else:
            self.annotated(it.n, body, e, *what)
        return UNIT

    def items(self, it):
        self.mode += 1
        st = self.st
        try:
            x = self.val(it.get(fresh('k', I_)))
        finally:
            self.mode -= 1
            self.st = st

        def find(x):
            if isinstance(x, Opq) and x.kind in ('path', 'line', 'log'):
                return (x.kind, x.d['f'])
            for y in x.el if isinstance(x, TupV) else [x.v] if isinstance(x, OptV) and x.v is not None else ():
                r = find(self.val(y))
                if r:
                    return r
            return None
        return find(x)

    def annotated(self, cntn, body, node, kind, f):
        S0 = dict(self.st)
        tb = self.table
        roles = {}
        k = fresh('k', I_)

        def at(i, last=False):
            """the invariant before iteration i (last: after iteration k)"""
            st = dict(S0)
            for (cell, path), r in roles.items():
                if kind == 'line':
                    v = tb.zero(f, i) if r == 'zero' else tb.lines(f, i, r)
                elif r == 'zero':
                    raise Unsupported('loop over the logs')
                else:
                    v = tb.logs1(k, r) if last else tb.logs(i, r)
                st[cell] = set_path_e(st[cell], path, v)
            return st

        def one():
            pc0, ctx0 = len(self.pc), self.ctx
            start = dict(self.st)
            self.assume(le(ic(0), k))
            self.assume(lt(k, cntn))
            if kind == 'line' and tb.two:
                t = c(f, iadd(k, hd(f)), ic(0))
                self.assume(iff(lt(fn('abs', t), rc(Fr(1, 100000))), eq(k, z(f))))
            try:
                ok, exits = self.run_body(body, k)
                pcx = list(self.pc[pc0:])
            finally:
                self.pop(ctx0, pc0)
            if not ok or exits:
                raise Unsupported('break in an annotated loop')
            return start, self.st, pcx

        self.mode += 1
        try:
            for rnd in range(4):
                start, S1, _ = one()
                new = [x for x in self.changed(S0, start, S1) if (x[0], x[1]) not in roles]
                if not new:
                    break
                for cell, path, v0, b in new:
                    roles[cell, path] = self.role(b)
                self.st = at(k)
            else:
                raise Unsupported('annotated loop does not stabilise')
        finally:
            self.mode -= 1
        name = {'path': 'logs', 'line': 'lines', 'log': 'logs'}[kind]

        def agree(a, b, pcx, tag):
            if self.mode:
                return
            for (cell, path), r in roles.items():
                g = eq_vals(get_path(a[cell], strip_e(path)), get_path(b[cell], strip_e(path)))
                fn_ = self.frames[-1].fn if self.frames else None
                self.obl.append(Oblig('invariant of the loop over the %s %s (%s)' % (name, tag, r), 'invariant', list(self.hyps) + list(self.pc) + pcx, g,
                                      fn_.d.get('file', '') if fn_ is not None else '', node.line, fn_name(fn_) if fn_ is not None else ''))
        agree(S0, at(ic(0)), [], 'holds at first')
        self.st = at(k)
        _, S2, pcx = one()
        agree(S2, at(iadd(k, ic(1)), True), pcx, 'is kept')
        self.st = at(cntn)

    def role(self, b):
        if not isinstance(b, Seq):
            raise Unsupported('loop over logs or lines changes %s' % type(b).__name__)
        x = b.get(bvar('r')) if b.el is None else b.el[-1] if b.el else None
        if isinstance(x, Seq):
            return 'data'
        if not isinstance(x, T) or x.s != R:
            raise Unsupported('element of a carried sequence')
        return 'zero' if any(t.op == 'app' and t.a[0] == 'av.c' for t in walk(x)) else 'nums'


class AvgSym(ObsSym):
    def __init__(self, U, prog, contracts, hyps, timeout):
        self.U, self.prog = U, prog
        self.en = AvgEngine(prog, contracts=contracts, hyps=hyps, timeout=timeout)
        self.en.table = U.table
        U.en = self.en


def columns(segs):
    """numbers and repetitions of a text, blanks left out: ('num', term) | 'nl' | ('rep', n, fn)"""
    out = []
    for s in segs:
        if s[0] == 'ev':
            for p in text_atoms(s[1][2]):
                if isinstance(p, str):
                    if p.strip(' \n'):
                        raise Unsupported('text of a line')
                    out += ['nl'] * p.count('\n')
                elif p[0] == 'rep':
                    out.append(('rep', p[1], (lambda g: lambda j: columns((('ev', ('write', None, g(j))),)))(p[2])))
                elif p[0] == 'arg' and isinstance(p[1], T) and p[2] == '':
                    out.append(('num', p[1]))
                else:
                    raise Unsupported('text of a line')
        elif s[0] == 'rep':
            out.append(('rep', s[1], (lambda g: lambda j: columns(seglist(g(j))))(s[2])))
        else:
            raise Unsupported('text of a line')
    return out


class Averages(ObsUnit):
    """one line for every data line number of some log: the column-wise mean over the logs that have it"""
    props = ('C22',)
    sym = AvgSym
    timeout = 60
    two = False
    out = 'avg.dat'

    def pre(self, I):
        self.table = Table(self.two)
        I.v['conf'] = config(I, 'conf')

    def run(self, X, I):
        X.en.assumed |= {'glob (the F files of the pattern)', 'BufRead::lines, str::split, str::parse (a log is an optional heading that starts with # and lines of M numbers)'}
        X.call((OBS, self.fn), X.obj(I.conf))
        return {'trace': X.created()}

    def post(self, I, O):
        tr = O['trace'].segs
        want = StrV(tuple(I.conf.f['file'].parts) + ('*.dat',))
        globs = [s[1][1] for s in tr if s[0] == 'ev' and s[1][0] == 'glob']
        w = trace_filter(tr, ('write',))
        files = []

        def collect(segs):
            for s in segs:
                if s[0] == 'ev':
                    files.append(s[1][1])
                elif s[0] == 'rep':
                    collect(seglist(s[2](bvar('e'))))
                else:
                    raise Unsupported('conditional text')
        collect(w)
        mine = all(isinstance(x, Opq) and x.d.get('id', (0, 0))[0] == 'create' and isinstance(x.d['id'][1], StrV) and x.d['id'][1].parts == (self.out,) for x in files)
        cols = columns(w)
        if len(cols) != 1 or cols[0][0] != 'rep':
            raise Unsupported('text of the file')
        i, j = bvar('e'), bvar('q')
        line = cols[0][2](i)
        if len(line) != 2 or line[0][0] != 'rep' or line[1] != 'nl':
            raise Unsupported('text of a line')
        x = line[0][2](j)
        if len(x) != 1 or x[0][0] != 'num':
            raise Unsupported('text of a column')
        rows, width = cols[0][1], line[0][1]
        return aux(('reads all logs of the configured name', land(TRUE if globs else FALSE, *[text_eq(g, want) for g in globs])),
                   ('writes %s only' % self.out, TRUE if files and mine else FALSE),
                   ('a line for every line number that occurs in some log', eq(rows, N_(F))),
                   ('all columns', forall(i, ic(0), N_(F), eq(width, M))),
                   ('mean over the logs that have the line', forall(i, ic(0), N_(F), forall(j, ic(0), M, eq(x[0][1], rdiv(self.table.tot(F, i, j), cnt(F, i)))))))


def unit(f, **kw):
    return type('Averages_' + f, (Averages,), dict(kw, name=f, fn=f, fns=((OBS, f),)))


UNITS = [unit('average'), unit('two_point_average', two=True, out='two-point.dat')]
