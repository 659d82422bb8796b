"""Contracts of the log lines (C20)"""
from .chain import *
from .energy import *
from ..verify import *


def line(f, *vals):
    """one line of space separated numbers written to f"""
    parts = []
    for i, v in enumerate(vals):
        parts += ([' '] if i else []) + [('arg', v, '')]
    return ('ev', ('write', f, tuple(parts) + ('\n',)))


class Log(Obs):
    side = False

    def run(self, X, I):
        h = X.obj(I.c)
        X.call((self.ty, self.fn), h)
        return {'c': h, 'text': X.text(h)}

    def handle(self, I):
        f = I.c.f['file']
        return (f.some, f.v) if isinstance(f, OptV) else (TRUE, f)

    def post(self, I, O):
        V = View(I.c)
        some, f = self.handle(I)
        segs = self.lines(I, V, f)
        return [('text', text_is(O['text'], (('if', some, segs, ()),) if some is not TRUE else segs)),
                ('frame', frame(I.c, O['c'], ()))]

    def common(self, V):
        n1 = isub(V.S, ic(1))
        hd = drive_t(self.prog, V.v, V.t)
        sub = rdiv(Sum(ic(0), n1, lambda i: radd(rneg(dot(had(V.J(i), V.s(i)), V.s(iadd(i, ic(1))))), dot(vadd(V.h(i), hd), V.s(i)))), toreal(n1))
        tot = Sum(ic(0), V.L, lambda i: radd(rneg(V.bond(i)), dot(V.h(i), V.s(i))))
        tot = rdiv(radd(tot, Sum(ic(0), V.S, lambda i: dot(hd, V.s(i)))), toreal(V.L))
        m = [rdiv(Sum(ic(0), V.S, (lambda k: lambda i: V.s(i)[k])(k)), toreal(V.S)) for k in range(3)]
        mz = rdiv(Sum(ic(0), V.L, lambda i: V.s(i)[2]), toreal(V.L))
        return tot, sub, m, mz


class LogClosed(Log):
    def lines(self, I, V, f):
        self.prog = I.prog
        tot, sub, m, mz = self.common(V)
        q1, q3 = idiv(V.S, ic(4)), idiv(imulc(V.S, 3), ic(4))
        return (line(f, V.t, tot, sub, *m, mz, *V.s(q1), *V.s(q3)),)


class LogLangevin(Log):
    def lines(self, I, V, f):
        self.prog = I.prog
        tot, sub, m, mz = self.common(V)
        b = Boundary()
        b.ty = SL
        return (line(f, V.t, sub, sub, *m, mz, b.value(I, V)),)


class LogExt(Log):
    """one line for each subsystem site that is not an end of the chain, then an empty line"""

    def lines(self, I, V, f):
        hd = drive_t(I.prog, V.v, V.t)
        # sites 1 .. min(S, L-1) - 1
        n = isub(ite(lt(V.S, V.L), V.S, isub(V.L, ic(1))), ic(1))

        def at(k):
            j = iadd(k, ic(1))
            bonds = radd(V.bond(k), V.bond(j))
            e = radd(rmul(rc(Fr(-1, 2)), bonds), dot(vadd(V.h(j), hd), V.s(j)))
            return (line(f, V.t, j, e, *V.s(j)),)
        return (('rep', n, at), ('ev', ('write', f, ('\n',))))


UNITS = [unit(LogClosed, SC, 'log'), unit(LogLangevin, SL, 'log'), unit(LogExt, SC, 'log_ext')]
