"""Lexer and parser for the Rust subset found in ordinary application code.

Produces a light AST (class N).  Everything the verifier looks at comes from
this parse of the files in /repo/src at the time of the run.  Items under
#[cfg(test)] are skipped.  macro_rules! macros are expanded by `expand_macro`.
"""
import re


class ParseError(Exception):
    pass


class N:
    __slots__ = ('k', 'line', 'd')

    def __init__(self, k, line, **d):
        self.k = k
        self.line = line
        self.d = d

    def __getattr__(self, a):
        try:
            return self.d[a]
        except KeyError:
            raise AttributeError(a)

    def __repr__(self):
        return 'N(%s@%s %s)' % (self.k, self.line, self.d)


class Tok:
    __slots__ = ('k', 's', 'line', 'pos', 'end', 'v')

    def __init__(self, k, s, line, pos, end, v=None):
        self.k, self.s, self.line, self.pos, self.end, self.v = k, s, line, pos, end, v

    def __repr__(self):
        return '%s:%r' % (self.k, self.s)


PUNCT = ['<<=', '>>=', '...', '..=', '::', '->', '=>', '==', '!=', '<=', '>=', '&&', '||',
         '+=', '-=', '*=', '/=', '%=', '^=', '&=', '|=', '<<', '>>', '..',
         '+', '-', '*', '/', '%', '^', '!', '&', '|', '=', '<', '>', '@', '.', ',', ';', ':',
         '#', '$', '?', '~', '(', ')', '[', ']', '{', '}']
ID = re.compile(r'[A-Za-z_][A-Za-z0-9_]*')
NUM = re.compile(r'0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|[0-9][0-9_]*(\.(?![.A-Za-z_])[0-9_]*)?([eE][+-]?[0-9_]+)?')
SUF = re.compile(r'(f64|f32|usize|isize|[iu](8|16|32|64|128))\b')


def lex(src):
    toks = []
    i, n, line = 0, len(src), 1
    while i < n:
        c = src[i]
        if c == '\n':
            line += 1
            i += 1
            continue
        if c.isspace():
            i += 1
            continue
        if src.startswith('//', i):
            j = src.find('\n', i)
            i = n if j < 0 else j
            continue
        if src.startswith('/*', i):
            d = 1
            j = i + 2
            while j < n and d:
                if src.startswith('/*', j):
                    d += 1
                    j += 2
                elif src.startswith('*/', j):
                    d -= 1
                    j += 2
                else:
                    if src[j] == '\n':
                        line += 1
                    j += 1
            i = j
            continue
        m = re.compile(r'b?r(#*)"').match(src, i)
        if m:
            close = '"' + m.group(1)
            j = src.find(close, m.end())
            if j < 0:
                raise ParseError('unterminated raw string line %d' % line)
            s = src[m.end():j]
            toks.append(Tok('str', src[i:j + len(close)], line, i, j + len(close), s))
            line += s.count('\n')
            i = j + len(close)
            continue
        if c == '"' or src.startswith('b"', i):
            j = i + (2 if c == 'b' else 1)
            out = []
            l0 = line
            while src[j] != '"':
                if src[j] == '\\':
                    e = src[j + 1]
                    mp = {'n': '\n', 't': '\t', 'r': '\r', '\\': '\\', '"': '"', "'": "'", '0': '\0'}
                    if e in mp:
                        out.append(mp[e])
                        j += 2
                    elif e == '\n':
                        line += 1
                        j += 2
                        while src[j].isspace():
                            if src[j] == '\n':
                                line += 1
                            j += 1
                    elif e == 'x':
                        out.append(chr(int(src[j + 2:j + 4], 16)))
                        j += 4
                    elif e == 'u':
                        q = src.index('}', j)
                        out.append(chr(int(src[j + 3:q], 16)))
                        j = q + 1
                    else:
                        raise ParseError('escape %r' % e)
                else:
                    if src[j] == '\n':
                        line += 1
                    out.append(src[j])
                    j += 1
            toks.append(Tok('str', src[i:j + 1], l0, i, j + 1, ''.join(out)))
            i = j + 1
            continue
        if c == "'":
            m = re.compile(r"'(\\.[^']*|[^\\'])'").match(src, i)
            if m:
                b = m.group(1)
                mp = {'\\n': '\n', '\\t': '\t', '\\r': '\r', '\\\\': '\\', "\\'": "'", '\\0': '\0', '\\"': '"'}
                toks.append(Tok('char', m.group(0), line, i, m.end(), mp.get(b, b)))
                i = m.end()
                continue
            m = ID.match(src, i + 1)
            if m:
                toks.append(Tok('life', src[i:m.end()], line, i, m.end()))
                i = m.end()
                continue
        m = ID.match(src, i)
        if m:
            toks.append(Tok('id', m.group(0), line, i, m.end()))
            i = m.end()
            continue
        if c.isdigit():
            m = NUM.match(src, i)
            # tuple index chains such as a.0.1 : do not lex "0.1" as a float after '.'
            if toks and toks[-1].s == '.' and toks[-1].end == i:
                m = re.compile(r'[0-9]+').match(src, i)
            txt = m.group(0)
            j = m.end()
            suf = None
            ms = SUF.match(src, j)
            if ms is None and j < n and src[j] == '_':
                ms = SUF.match(src, j + 1)
            mm = re.match(r'^(.*?)_?(f64|f32|usize|isize|[iu](8|16|32|64|128))$', txt)
            if ms:
                suf = ms.group(1)
                j = ms.end()
            t = txt.replace('_', '')
            if t.startswith(('0x', '0b', '0o')):
                toks.append(Tok('int', src[i:j], line, i, j, (int(t, 0), suf)))
            elif '.' in t or 'e' in t or 'E' in t or suf in ('f64', 'f32'):
                toks.append(Tok('float', src[i:j], line, i, j, (t, suf)))
            else:
                toks.append(Tok('int', src[i:j], line, i, j, (int(t), suf)))
            i = j
            continue
        for p in PUNCT:
            if src.startswith(p, i):
                toks.append(Tok('p', p, line, i, i + len(p)))
                i += len(p)
                break
        else:
            raise ParseError('cannot lex %r at line %d' % (src[i:i + 10], line))
    toks.append(Tok('eof', '', line, n, n))
    return toks


BIN = {'||': 1, '&&': 2, '==': 3, '!=': 3, '<': 3, '>': 3, '<=': 3, '>=': 3, '|': 4, '^': 5, '&': 6,
       '<<': 7, '>>': 7, '+': 8, '-': 8, '*': 9, '/': 9, '%': 9}
ASSIGN = {'=', '+=', '-=', '*=', '/=', '%=', '^=', '&=', '|=', '<<=', '>>='}
BLOCKLIKE = {'if', 'match', 'while', 'loop', 'for', 'block', 'unsafe'}
FMT = {'format', 'println', 'print', 'eprintln', 'eprint', 'write', 'writeln', 'panic', 'assert', 'assert_eq',
       'assert_ne', 'debug_assert', 'debug_assert_eq', 'debug_assert_ne', 'unreachable', 'todo',
       'unimplemented', 'dbg', 'format_args', 'matches'}


class Parser:
    def __init__(self, toks):
        self.t = toks
        self.i = 0
        self.nostruct = 0

    # -- helpers
    @property
    def c(self):
        return self.t[self.i]

    def peek(self, k=1):
        return self.t[min(self.i + k, len(self.t) - 1)]

    def at(self, *ss):
        t = self.c
        return t.k in ('p', 'id') and t.s in ss

    def eat(self, s):
        if self.at(s):
            self.i += 1
            return True
        return False

    def err(self, msg):
        raise ParseError('line %d: %s (at %r)' % (self.c.line, msg, self.c.s))

    def expect(self, s):
        t = self.c
        if t.k == 'p' and t.s != s and t.s.startswith(s) and s in ('>', '<', '&', '|'):
            # split a joined punctuation token
            rest = Tok('p', t.s[len(s):], t.line, t.pos + len(s), t.end)
            self.t = self.t[:self.i] + [Tok('p', s, t.line, t.pos, t.pos + len(s)), rest] + self.t[self.i + 1:]
            t = self.c
        if not (t.k in ('p', 'id') and t.s == s):
            self.err('expected %r' % s)
        self.i += 1
        return t

    def ident(self):
        t = self.c
        if t.k != 'id':
            self.err('expected identifier')
        self.i += 1
        return t.s

    # -- attributes
    def attrs(self):
        out = []
        while self.at('#'):
            start = self.i
            self.i += 1
            self.eat('!')
            self.expect('[')
            j = self.i
            d = 1
            while d:
                if self.at('['):
                    d += 1
                elif self.at(']'):
                    d -= 1
                self.i += 1
            out.append(''.join(t.s for t in self.t[j:self.i - 1]))
        return out

    # -- types (kept as text plus a little structure)
    def ty(self):
        l = self.c.line
        if self.at('&', '&&'):
            dbl = self.c.s == '&&'
            self.i += 1
            if self.c.k == 'life':
                self.i += 1
            mut = self.eat('mut')
            t = N('ref', l, mut=mut, t=self.ty())
            return N('ref', l, mut=False, t=t) if dbl else t
        if self.at('*'):
            self.i += 1
            self.eat('const') or self.eat('mut')
            return N('ptr', l, t=self.ty())
        if self.at('('):
            self.i += 1
            ts = []
            while not self.at(')'):
                ts.append(self.ty())
                if not self.eat(','):
                    break
            self.expect(')')
            return N('tuple', l, ts=ts)
        if self.at('['):
            self.i += 1
            t = self.ty()
            n = None
            if self.eat(';'):
                n = self.expr()
                self.expect(']')
                return N('array', l, t=t, n=n)
            self.expect(']')
            return N('slice', l, t=t)
        if self.at('impl', 'dyn'):
            self.i += 1
            bs = [self.ty()]
            while self.eat('+'):
                if self.c.k == 'life':
                    self.i += 1
                else:
                    bs.append(self.ty())
            return N('impl', l, bs=bs)
        if self.at('fn', 'Fn', 'FnMut', 'FnOnce') and self.peek().s == '(':
            nm = self.c.s
            self.i += 1
            self.expect('(')
            ts = []
            while not self.at(')'):
                ts.append(self.ty())
                if not self.eat(','):
                    break
            self.expect(')')
            r = None
            if self.eat('->'):
                r = self.ty()
            return N('fnty', l, name=nm, ts=ts, r=r)
        if self.at('_'):
            self.i += 1
            return N('infer', l)
        if self.at('!'):
            self.i += 1
            return N('never', l)
        if self.at('<'):
            self.i += 1
            t = self.ty()
            if self.eat('as'):
                self.ty()
            self.expect('>')
            segs = ['?']
            while self.eat('::'):
                segs.append(self.ident())
            return N('path', l, segs=segs, g=[])
        self.eat('::')
        segs = [self.ident()]
        g = []
        while True:
            if self.at('<') or (self.at('::') and self.peek().s == '<'):
                self.eat('::')
                g = self.generics()
            elif self.at('::'):
                self.i += 1
                segs.append(self.ident())
            else:
                break
        if self.at('(') and segs[-1] in ('Fn', 'FnMut', 'FnOnce'):
            self.i += 1
            while not self.at(')'):
                self.ty()
                if not self.eat(','):
                    break
            self.expect(')')
            if self.eat('->'):
                self.ty()
        return N('path', l, segs=segs, g=g)

    def generics(self):
        self.expect('<')
        g = []
        while not (self.c.k == 'p' and self.c.s.startswith('>')):
            if self.c.k == 'life':
                self.i += 1
            elif self.c.k == 'id' and self.peek().s == '=':
                self.i += 2
                g.append(self.ty())
            elif self.c.k == 'int' or self.at('{'):
                g.append(self.primary())
            else:
                g.append(self.ty())
            if not self.eat(','):
                break
        self.expect('>')
        return g

    # -- patterns
    def pat(self):
        l = self.c.line
        self.eat('|')
        p = self.pat1()
        if self.at('|'):
            ps = [p]
            while self.eat('|'):
                ps.append(self.pat1())
            return N('por', l, ps=ps)
        return p

    def pat1(self):
        l = self.c.line
        t = self.c
        if self.at('_'):
            self.i += 1
            return N('pwild', l)
        if self.at('..'):
            self.i += 1
            return N('prest', l)
        if self.at('&', '&&'):
            self.i += 1
            self.eat('mut')
            return N('pref', l, p=self.pat1())
        if self.at('('):
            self.i += 1
            ps = []
            trailing = False
            while not self.at(')'):
                ps.append(self.pat())
                trailing = self.eat(',')
                if not trailing:
                    break
            self.expect(')')
            if len(ps) == 1 and not trailing:
                return ps[0]
            return N('ptuple', l, ps=ps)
        if self.at('['):
            self.i += 1
            ps = []
            while not self.at(']'):
                ps.append(self.pat())
                if not self.eat(','):
                    break
            self.expect(']')
            return N('pslice', l, ps=ps)
        if t.k in ('int', 'float', 'str', 'char') or self.at('-') or self.at('true', 'false'):
            lo = self.patlit()
            if self.at('..=', '..'):
                op = self.c.s
                self.i += 1
                hi = None
                if self.c.k in ('int', 'float', 'char') or self.at('-') or self.c.k == 'id' and not self.at('if'):
                    hi = self.patlit()
                return N('prange', l, lo=lo, hi=hi, op=op)
            return N('plit', l, e=lo)
        if self.at('..='):
            self.i += 1
            return N('prange', l, lo=None, hi=self.patlit(), op='..=')
        if self.at('ref', 'mut') or (t.k == 'id'):
            byref = self.eat('ref')
            mut = self.eat('mut')
            segs = [self.ident()]
            while self.at('::'):
                self.i += 1
                if self.at('<'):
                    self.generics()
                else:
                    segs.append(self.ident())
            if self.at('('):
                self.i += 1
                ps = []
                while not self.at(')'):
                    ps.append(self.pat())
                    if not self.eat(','):
                        break
                self.expect(')')
                return N('ptstruct', l, segs=segs, ps=ps)
            if self.at('{'):
                self.i += 1
                fs = []
                while not self.at('}'):
                    if self.eat('..'):
                        break
                    self.eat('ref')
                    self.eat('mut')
                    f = self.ident()
                    p = None
                    if self.eat(':'):
                        p = self.pat()
                    fs.append((f, p or N('pid', l, name=f, mut=False, sub=None)))
                    if not self.eat(','):
                        break
                self.expect('}')
                return N('pstruct', l, segs=segs, fs=fs)
            if self.at('..=', '..') and len(segs) >= 1 and not byref and not mut and (segs[0][0].isupper() or len(segs) > 1):
                op = self.c.s
                self.i += 1
                hi = None
                if self.c.k in ('int', 'float', 'char', 'id') and not self.at('if'):
                    hi = self.patlit()
                return N('prange', l, lo=N('path', l, segs=segs, g=[]), hi=hi, op=op)
            if len(segs) > 1:
                return N('ppath', l, segs=segs)
            sub = None
            if self.eat('@'):
                sub = self.pat1()
            return N('pid', l, name=segs[0], mut=mut, sub=sub)
        self.err('pattern')

    def patlit(self):
        l = self.c.line
        if self.eat('-'):
            return N('unary', l, op='-', e=self.primary())
        return self.primary()

    # -- expressions
    def expr(self):
        return self.assign()

    def expr_nostruct(self):
        self.nostruct += 1
        try:
            return self.expr()
        finally:
            self.nostruct -= 1

    def free(self, f):
        s = self.nostruct
        self.nostruct = 0
        try:
            return f()
        finally:
            self.nostruct = s

    def assign(self):
        l = self.c.line
        e = self.range()
        if self.c.k == 'p' and self.c.s in ASSIGN:
            op = self.c.s
            self.i += 1
            r = self.assign()
            return N('assign', l, op=op, l=e, r=r)
        return e

    def range_end(self):
        t = self.c
        if t.k == 'p' and t.s in (')', ']', '}', ',', ';', '=>'):
            return False
        if t.k == 'p' and t.s == '{' and self.nostruct:
            return False
        if t.k == 'eof':
            return False
        return True

    def range(self):
        l = self.c.line
        if self.at('..', '..='):
            op = self.c.s
            self.i += 1
            hi = self.binary(0) if self.range_end() else None
            return N('range', l, lo=None, hi=hi, op=op)
        e = self.binary(0)
        if self.at('..', '..='):
            op = self.c.s
            self.i += 1
            hi = self.binary(0) if self.range_end() else None
            return N('range', l, lo=e, hi=hi, op=op)
        return e

    def binary(self, minp):
        l = self.c.line
        e = self.cast()
        while True:
            t = self.c
            if t.k != 'p' or t.s not in BIN or BIN[t.s] <= minp:
                return e
            op = t.s
            self.i += 1
            r = self.binary(BIN[op])
            e = N('bin', t.line, op=op, l=e, r=r)

    def cast(self):
        e = self.unary()
        while self.at('as'):
            l = self.c.line
            self.i += 1
            e = N('cast', l, e=e, t=self.ty())
        return e

    def unary(self):
        l = self.c.line
        if self.at('-', '!', '*'):
            op = self.c.s
            self.i += 1
            return N('unary', l, op=op, e=self.unary())
        if self.at('&', '&&'):
            dbl = self.c.s == '&&'
            self.i += 1
            mut = self.eat('mut')
            e = N('addr', l, mut=mut, e=self.unary())
            return N('addr', l, mut=False, e=e) if dbl else e
        return self.postfix(self.primary())

    def args(self, close=')'):
        def f():
            a = []
            while not self.at(close):
                a.append(self.expr())
                if not self.eat(','):
                    break
            self.expect(close)
            return a
        return self.free(f)

    def postfix(self, e):
        while True:
            l = self.c.line
            if self.at('.'):
                self.i += 1
                if self.c.k == 'int':
                    e = N('field', l, e=e, f=str(self.c.v[0]))
                    self.i += 1
                    continue
                if self.c.k == 'float':   # x.0.1
                    for p in self.c.s.split('.'):
                        e = N('field', l, e=e, f=p)
                    self.i += 1
                    continue
                name = self.ident()
                if name == 'await':
                    self.err('await')
                g = []
                if self.at('::'):
                    self.i += 1
                    g = self.generics()
                if self.at('('):
                    self.i += 1
                    e = N('mcall', l, e=e, m=name, g=g, args=self.args())
                else:
                    e = N('field', l, e=e, f=name)
            elif self.at('('):
                self.i += 1
                e = N('call', l, f=e, args=self.args())
            elif self.at('['):
                self.i += 1
                ix = self.free(self.expr)
                self.expect(']')
                e = N('index', l, e=e, i=ix)
            elif self.at('?'):
                self.i += 1
                e = N('try', l, e=e)
            else:
                return e

    def block(self):
        l = self.c.line
        self.expect('{')

        def f():
            stmts = []
            tail = None
            while not self.at('}'):
                if self.eat(';'):
                    continue
                a = self.attrs()
                if self.at('let'):
                    l2 = self.c.line
                    self.i += 1
                    p = self.pat()
                    t = None
                    if self.eat(':'):
                        t = self.ty()
                    e = None
                    els = None
                    if self.eat('='):
                        e = self.expr()
                        if self.eat('else'):
                            els = self.block()
                    if e is not None and t is not None and e.k == 'mcall' and e.m == 'collect' and not e.g and t.k == 'path':
                        e.d['g'] = [t]   # `let x: T = it.collect();` is `it.collect::<T>()`
                    self.expect(';')
                    stmts.append(N('let', l2, p=p, t=t, e=e, els=els))
                    continue
                if self.item_start():
                    it = self.item(a)
                    if it is not None:
                        stmts.append(N('item', it.line, it=it))
                    continue
                e = self.stmt_expr()
                if self.eat(';'):
                    stmts.append(N('expr', e.line, e=e, semi=True))
                elif self.at('}'):
                    tail = e
                elif e.k in BLOCKLIKE or e.k == 'macro':
                    stmts.append(N('expr', e.line, e=e, semi=False))
                else:
                    self.err('expected ; or }')
            self.expect('}')
            return N('block', l, stmts=stmts, tail=tail, label=None)
        return self.free(f)

    def stmt_expr(self):
        """expression in statement position: a block-like one ends the statement"""
        t = self.c
        if self.at('if', 'match', 'while', 'loop', 'for', '{', 'unsafe') or (t.k == 'life'):
            e = self.primary()
            if self.at('.', '?'):
                e = self.postfix(e)
                return self.continue_expr(e)
            return e
        return self.expr()

    def continue_expr(self, e):
        # continue binary parse after an already parsed primary
        while self.c.k == 'p' and self.c.s in BIN:
            op = self.c.s
            l = self.c.line
            self.i += 1
            r = self.binary(BIN[op])
            e = N('bin', l, op=op, l=e, r=r)
        if self.c.k == 'p' and self.c.s in ASSIGN:
            op = self.c.s
            l = self.c.line
            self.i += 1
            return N('assign', l, op=op, l=e, r=self.assign())
        return e

    def item_start(self):
        t = self.c
        if t.k != 'id':
            return False
        if t.s in ('fn', 'struct', 'enum', 'impl', 'mod', 'use', 'trait', 'type', 'macro_rules', 'extern'):
            if t.s == 'macro_rules':
                return self.peek().s == '!'
            return True
        if t.s in ('const', 'static'):
            return True
        if t.s == 'pub':
            return True
        if t.s == 'unsafe' and self.peek().s in ('fn', 'impl'):
            return True
        return False

    def ifexpr(self):
        l = self.c.line
        self.expect('if')
        c = self.cond()
        a = self.block()
        b = None
        if self.eat('else'):
            if self.at('if'):
                b = self.ifexpr()
            else:
                b = self.block()
        return N('if', l, c=c, a=a, b=b)

    def cond(self):
        l = self.c.line
        if self.at('let'):
            self.i += 1
            p = self.pat()
            self.expect('=')
            self.nostruct += 1
            e = self.binary(2)
            self.nostruct -= 1
            c = N('iflet', l, p=p, e=e)
            if self.eat('&&'):
                return N('bin', l, op='&&', l=c, r=self.cond())
            return c
        return self.expr_nostruct()

    def primary(self):
        t = self.c
        l = t.line
        if t.k == 'int':
            self.i += 1
            return N('int', l, v=t.v[0], suf=t.v[1])
        if t.k == 'float':
            self.i += 1
            return N('float', l, v=t.v[0], suf=t.v[1])
        if t.k == 'str':
            self.i += 1
            return N('str', l, v=t.v)
        if t.k == 'char':
            self.i += 1
            return N('char', l, v=t.v)
        if t.k == 'life':
            lab = t.s
            self.i += 1
            self.expect(':')
            e = self.primary()
            e.d['label'] = lab
            return e
        if self.at('('):
            self.i += 1

            def f():
                es = []
                tr = False
                while not self.at(')'):
                    es.append(self.expr())
                    tr = self.eat(',')
                    if not tr:
                        break
                self.expect(')')
                if len(es) == 1 and not tr:
                    return N('paren', l, e=es[0])
                return N('tuple', l, es=es)
            return self.free(f)
        if self.at('['):
            self.i += 1

            def f():
                if self.eat(']'):
                    return N('arr', l, es=[])
                e = self.expr()
                if self.eat(';'):
                    n = self.expr()
                    self.expect(']')
                    return N('rep', l, e=e, n=n)
                es = [e]
                while self.eat(','):
                    if self.at(']'):
                        break
                    es.append(self.expr())
                self.expect(']')
                return N('arr', l, es=es)
            return self.free(f)
        if self.at('{'):
            return self.block()
        if self.at('unsafe') and self.peek().s == '{':
            self.i += 1
            b = self.block()
            return b
        if self.at('if'):
            return self.ifexpr()
        if self.at('match'):
            self.i += 1
            e = self.expr_nostruct()
            self.expect('{')

            def f():
                arms = []
                while not self.at('}'):
                    self.attrs()
                    l2 = self.c.line
                    p = self.pat()
                    g = None
                    if self.eat('if'):
                        g = self.cond() if self.at('let') else self.expr()
                    self.expect('=>')
                    b = self.stmt_expr() if self.at('{', 'if', 'match', 'loop', 'for', 'while') else self.expr()
                    arms.append((p, g, b))
                    if not self.eat(','):
                        if b.k in BLOCKLIKE:
                            continue
                        break
                self.expect('}')
                return N('match', l, e=e, arms=arms)
            return self.free(f)
        if self.at('while'):
            self.i += 1
            c = self.cond()
            return N('while', l, c=c, b=self.block(), label=None)
        if self.at('loop'):
            self.i += 1
            return N('loop', l, b=self.block(), label=None)
        if self.at('for'):
            self.i += 1
            p = self.pat()
            self.expect('in')
            e = self.expr_nostruct()
            return N('for', l, p=p, e=e, b=self.block(), label=None)
        if self.at('move') or self.at('|', '||'):
            mv = self.eat('move')
            ps = []
            if self.eat('||'):
                pass
            else:
                self.expect('|')
                while not self.at('|'):
                    p = self.pat1()
                    ty = None
                    if self.eat(':'):
                        ty = self.ty()
                    ps.append((p, ty))
                    if not self.eat(','):
                        break
                self.expect('|')
            if self.eat('->'):
                self.ty()
                b = self.block()
            else:
                b = self.expr()
            return N('closure', l, ps=ps, b=b, mv=mv)
        if self.at('return'):
            self.i += 1
            e = self.expr() if self.range_end() else None
            return N('return', l, e=e)
        if self.at('break'):
            self.i += 1
            lab = None
            if self.c.k == 'life':
                lab = self.c.s
                self.i += 1
            e = self.expr() if self.range_end() else None
            return N('break', l, e=e, label=lab)
        if self.at('continue'):
            self.i += 1
            lab = None
            if self.c.k == 'life':
                lab = self.c.s
                self.i += 1
            return N('continue', l, label=lab)
        if self.at('true', 'false'):
            self.i += 1
            return N('bool', l, v=t.s == 'true')
        if self.at('<'):
            self.i += 1
            ty = self.ty()
            if self.eat('as'):
                self.ty()
            self.expect('>')
            segs = [ty.segs[-1] if ty.k == 'path' else '?']
            while self.eat('::'):
                segs.append(self.ident())
            return N('path', l, segs=segs, g=[])
        if t.k == 'id' or self.at('::'):
            self.eat('::')
            segs = [self.ident()]
            g = []
            while self.at('::'):
                self.i += 1
                if self.at('<'):
                    g = self.generics()
                else:
                    segs.append(self.ident())
            if self.at('!') and self.peek().s in ('(', '[', '{') and not (self.peek().s == '='):
                self.i += 1
                return self.macro(segs, l)
            if self.at('{') and not self.nostruct and (segs[-1][0].isupper()):
                return self.structlit(segs, l)
            return N('path', l, segs=segs, g=g)
        self.err('expression')

    def structlit(self, segs, l):
        self.expect('{')

        def f():
            fs = []
            base = None
            while not self.at('}'):
                self.attrs()
                if self.eat('..'):
                    base = self.expr()
                    break
                name = self.c.s
                self.i += 1
                if self.eat(':'):
                    v = self.expr()
                else:
                    v = N('path', l, segs=[name], g=[])
                fs.append((name, v))
                if not self.eat(','):
                    break
            self.expect('}')
            return N('struct', l, segs=segs, fs=fs, base=base)
        return self.free(f)

    def tt_group(self):
        """consume a balanced group, return inner tokens"""
        op = self.c.s
        cl = {'(': ')', '[': ']', '{': '}'}[op]
        d = 0
        j = self.i
        while True:
            t = self.c
            if t.k == 'eof':
                self.err('unbalanced')
            if t.k == 'p' and t.s in '([{':
                d += 1
            elif t.k == 'p' and t.s in ')]}':
                d -= 1
            self.i += 1
            if d == 0:
                break
        return self.t[j + 1:self.i - 1]

    def macro(self, segs, l):
        name = segs[-1]
        toks = self.tt_group()
        if name == 'vec':
            p = Parser(toks + [Tok('eof', '', l, 0, 0)])
            if p.c.k == 'eof':
                return N('vecmac', l, es=[], rep=None)
            e = p.expr()
            if p.eat(';'):
                n = p.expr()
                return N('vecmac', l, es=None, rep=(e, n))
            es = [e]
            while p.eat(','):
                if p.c.k == 'eof':
                    break
                es.append(p.expr())
            return N('vecmac', l, es=es, rep=None)
        if name == 'matches':
            p = Parser(toks + [Tok('eof', '', l, 0, 0)])
            e = p.expr()
            p.expect(',')
            pt = p.pat()
            g = p.expr() if p.eat('if') else None
            return N('match', l, e=e, arms=[(pt, g, N('bool', l, v=True)), (N('pwild', l), None, N('bool', l, v=False))])
        if name in FMT:
            p = Parser(toks + [Tok('eof', '', l, 0, 0)])
            es = []
            kw = {}
            while p.c.k != 'eof':
                if p.c.k == 'id' and p.peek().s == '=' and p.peek(2).s != '=':
                    n = p.ident()
                    p.expect('=')
                    kw[n] = p.expr()
                else:
                    es.append(p.expr())
                if not p.eat(','):
                    break
            if p.c.k != 'eof':
                p.err('macro arguments')
            return N('macro', l, name=name, es=es, kw=kw, toks=toks)
        return N('macro', l, name=name, es=None, kw=None, toks=toks)

    # -- items
    def skip_to_semi(self):
        d = 0
        while True:
            t = self.c
            if t.k == 'eof':
                return
            if t.k == 'p' and t.s in '([{':
                d += 1
            elif t.k == 'p' and t.s in ')]}':
                d -= 1
            self.i += 1
            if d == 0 and t.s == ';' and t.k == 'p':
                return

    def items(self, end='eof'):
        out = []
        while not (self.c.k == 'eof' or (end == '}' and self.at('}'))):
            a = self.attrs()
            if self.eat(';'):
                continue
            if self.c.k == 'eof' or (end == '}' and self.at('}')):
                break
            it = self.item(a)
            if it is not None:
                out.append(it)
        return out

    def item(self, attrs):
        l = self.c.line
        pos = self.c.pos
        test = any(re.match(r'cfg\(test\)', a) or a == 'test' or a == 'bench' for a in attrs)
        pub = False
        if self.eat('pub'):
            pub = True
            if self.at('('):
                self.tt_group()
        while self.at('const', 'unsafe', 'async', 'extern') and self.peek().s in ('fn', 'unsafe', 'extern', 'async'):
            self.i += 1
        r = self.item1(l, pub, attrs, pos)
        return None if test else r

    def item1(self, l, pub, attrs, pos):
        if self.at('fn'):
            return self.fn(l, pub, attrs, pos)
        if self.at('struct'):
            self.i += 1
            name = self.ident()
            if self.at('<'):
                self.skip_generics()
            fs = []
            if self.eat(';'):
                return N('structdef', l, name=name, fs=fs, attrs=attrs, pos=pos, pub=pub)
            if self.at('('):
                self.tt_group()
                self.skip_to_semi()
                return N('structdef', l, name=name, fs=None, attrs=attrs, pos=pos, pub=pub)
            self.expect('{')
            while not self.at('}'):
                fa = self.attrs()
                fpos = self.c.pos
                fp = self.eat('pub')
                if fp and self.at('('):
                    self.tt_group()
                f = self.ident()
                self.expect(':')
                fs.append((f, self.ty(), fa, fp, fpos))
                if not self.eat(','):
                    break
            self.expect('}')
            return N('structdef', l, name=name, fs=fs, attrs=attrs, pos=pos, pub=pub)
        if self.at('enum'):
            self.i += 1
            name = self.ident()
            if self.at('<'):
                self.skip_generics()
            self.expect('{')
            vs = []
            while not self.at('}'):
                self.attrs()
                v = self.ident()
                payload = None
                if self.at('(', '{'):
                    payload = self.tt_group()
                if self.eat('='):
                    self.expr()
                vs.append((v, payload))
                if not self.eat(','):
                    break
            self.expect('}')
            return N('enumdef', l, name=name, vs=vs, attrs=attrs, pos=pos, pub=pub)
        if self.at('impl'):
            self.i += 1
            if self.at('<'):
                self.skip_generics()
            t = self.ty()
            trait = None
            if self.eat('for'):
                trait = t
                t = self.ty()
            while not self.at('{'):
                self.i += 1
            self.expect('{')
            its = self.items('}')
            self.expect('}')
            return N('impl', l, t=t, trait=trait, items=its, pos=pos)
        if self.at('mod'):
            self.i += 1
            name = self.ident()
            if self.eat(';'):
                return N('mod', l, name=name, items=None)
            self.expect('{')
            its = self.items('}')
            self.expect('}')
            return N('mod', l, name=name, items=its)
        if self.at('use', 'extern', 'type'):
            self.skip_to_semi()
            return None
        if self.at('trait'):
            self.i += 1
            while not self.at('{'):
                self.i += 1
            self.tt_group()
            return None
        if self.at('const', 'static'):
            self.i += 1
            self.eat('mut')
            name = self.c.s
            self.i += 1
            self.expect(':')
            t = self.ty()
            e = None
            if self.eat('='):
                e = self.expr()
            self.expect(';')
            return N('constdef', l, name=name, t=t, e=e)
        if self.at('macro_rules'):
            self.i += 2
            name = self.ident()
            body = self.tt_group()
            self.eat(';')
            return N('macrodef', l, name=name, rules=parse_macro_rules(body))
        if self.c.k == 'id' and self.peek().s == '!':
            self.i += 2
            self.tt_group()
            self.eat(';')
            return None
        self.err('item')

    def skip_generics(self):
        d = 0
        names = []
        while True:
            s = self.c.s
            if self.c.k == 'p':
                if s == '->':
                    pass
                elif s == '>>':
                    d -= 2
                else:
                    d += {'<': 1, '>': -1}.get(s, 0)
            self.i += 1
            if d <= 0:
                return

    def fn(self, l, pub, attrs, pos):
        self.expect('fn')
        name = self.ident()
        if self.at('<'):
            self.skip_generics()
        self.expect('(')
        self_kind = None
        params = []
        while not self.at(')'):
            self.attrs()
            # self receivers
            j = self.i
            ref = mut = False
            if self.eat('&'):
                ref = True
                if self.c.k == 'life':
                    self.i += 1
            mut = self.eat('mut')
            if self.at('self'):
                self.i += 1
                if self.eat(':'):
                    self.ty()
                self_kind = ('&mut' if mut else '&') if ref else 'val'
            else:
                self.i = j
                p = self.pat()
                self.expect(':')
                params.append((p, self.ty()))
            if not self.eat(','):
                break
        self.expect(')')
        ret = None
        if self.eat('->'):
            ret = self.ty()
        if self.at('where'):
            while not self.at('{', ';'):
                self.i += 1
        body = None
        if not self.eat(';'):
            body = self.block()
        return N('fn', l, name=name, self_kind=self_kind, params=params, ret=ret, body=body, pub=pub,
                 attrs=attrs, pos=pos, end=self.t[self.i - 1].line)


# ---------------------------------------------------------------- macro_rules
def parse_macro_rules(toks):
    rules = []
    p = Parser(list(toks) + [Tok('eof', '', 0, 0, 0)])
    while p.c.k != 'eof':
        pat = p.tt_group()
        p.expect('=>')
        body = p.tt_group()
        rules.append((pat, body))
        p.eat(';')
    return rules


def _split_pat(toks):
    """token list -> pattern elements: ('tok',t) | ('frag',name,kind) | ('rep',elems,sep,op)"""
    out = []
    p = Parser(list(toks) + [Tok('eof', '', 0, 0, 0)])
    while p.c.k != 'eof':
        if p.at('$') and p.peek().s == '(':
            p.i += 1
            inner = p.tt_group()
            sep = None
            if not p.at('*', '+', '?'):
                sep = p.c.s
                p.i += 1
            op = p.c.s
            p.i += 1
            out.append(('rep', _split_pat(inner), sep, op))
        elif p.at('$') and p.peek().k == 'id':
            p.i += 1
            name = p.ident()
            if p.at(':'):
                p.i += 1
                out.append(('frag', name, p.ident()))
            else:
                out.append(('frag', name, None))
        elif p.c.k == 'p' and p.c.s in '([{':
            op = p.c
            inner = p.tt_group()
            out.append(('grp', op.s, _split_pat(inner), op))
        else:
            out.append(('tok', p.c))
            p.i += 1
    return out


def _match(elems, p, b):
    for e in elems:
        if e[0] == 'tok':
            if p.c.s != e[1].s:
                raise ParseError('macro mismatch')
            p.i += 1
        elif e[0] == 'grp':
            if p.c.s != e[1]:
                raise ParseError('macro mismatch')
            inner = p.tt_group()
            q = Parser(list(inner) + [Tok('eof', '', 0, 0, 0)])
            _match(e[2], q, b)
            if q.c.k != 'eof':
                raise ParseError('macro mismatch')
        elif e[0] == 'frag':
            i0 = p.i
            if e[2] == 'expr':
                p.expr()
                toks = p.t[i0:p.i]
                toks = [Tok('p', '(', toks[0].line, 0, 0)] + toks + [Tok('p', ')', toks[0].line, 0, 0)]
            elif e[2] in ('ident', 'lifetime', 'literal'):
                p.i += 1
                toks = p.t[i0:p.i]
            elif e[2] == 'ty':
                p.ty()
                toks = p.t[i0:p.i]
            elif e[2] == 'tt':
                if p.c.s in '([{':
                    p.tt_group()
                else:
                    p.i += 1
                toks = p.t[i0:p.i]
            elif e[2] == 'block':
                p.block()
                toks = p.t[i0:p.i]
            else:
                raise ParseError('macro fragment %s' % e[2])
            b[e[1]] = toks
        else:
            _, el, sep, op = e
            seq = []
            while p.c.k != 'eof':
                if seq and sep:
                    if p.c.s != sep:
                        break
                    p.i += 1
                    if p.c.k == 'eof':
                        break
                b2 = {}
                try:
                    i0 = p.i
                    _match(el, p, b2)
                except ParseError:
                    p.i = i0
                    break
                seq.append(b2)
                if op == '?':
                    break
            names = set()
            for x in _names(el):
                b[x] = ('seq', [q.get(x) for q in seq])
    return b


def _names(elems):
    for e in elems:
        if e[0] == 'frag':
            yield e[1]
        elif e[0] == 'rep':
            yield from _names(e[1])
        elif e[0] == 'grp':
            yield from _names(e[2])


def _subst(elems, b, out):
    cl = {'(': ')', '[': ']', '{': '}'}
    for e in elems:
        if e[0] == 'tok':
            out.append(e[1])
        elif e[0] == 'grp':
            out.append(e[3])
            _subst(e[2], b, out)
            out.append(Tok('p', cl[e[1]], e[3].line, 0, 0))
        elif e[0] == 'frag':
            v = b.get(e[1])
            if v is None:
                if e[1] == 'crate':
                    out.append(Tok('id', 'crate', 0, 0, 0))
                    continue
                raise ParseError('macro var %s' % e[1])
            if isinstance(v, tuple):
                raise ParseError('macro repetition depth')
            out.extend(v)
        else:
            _, el, sep, op = e
            ns = [x for x in _names(el) if isinstance(b.get(x), tuple)]
            n = len(b[ns[0]][1]) if ns else 0
            for k in range(n):
                b2 = dict(b)
                for x in ns:
                    b2[x] = b[x][1][k]
                if k and sep:
                    out.append(Tok('p', sep, 0, 0, 0))
                _subst(el, b2, out)


def expand_macro(rules, toks):
    """expand to an expression or block node"""
    last = None
    for pat, body in rules:
        p = Parser(list(toks) + [Tok('eof', '', 0, 0, 0)])
        try:
            b = _match(_split_pat(pat), p, {})
            if p.c.k != 'eof':
                raise ParseError('macro mismatch')
        except ParseError as e:
            last = e
            continue
        out = []
        _subst(_split_pat(body), b, out)
        ln = toks[0].line if toks else 0
        q = Parser([Tok('p', '{', ln, 0, 0)] + out + [Tok('p', '}', ln, 0, 0), Tok('eof', '', ln, 0, 0)])
        return q.block()
    raise ParseError('no macro rule matches: %s' % last)


def parse_file(path):
    src = open(path).read()
    p = Parser(lex(src))
    its = p.items()
    return src, its


if __name__ == '__main__':
    import sys
    for f in sys.argv[1:]:
        src, its = parse_file(f)
        for it in its:
            if it.k == 'impl':
                print(f, 'impl', it.t.segs, [x.name for x in it.items if x.k == 'fn'])
            else:
                print(f, it.k, getattr(it, 'name', None) if 'name' in it.d else '')
