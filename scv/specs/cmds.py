"""Contracts of the commands: batches of runs (C19), stroboscopic schedule (C25), sample counts (C18), profiles (C21)"""
import re
from .chain import *
from ..obsx import *
from .obs import OBS, EST, nm
from .logs import line

BIG = 2 ** 31
I_ = I


def batch_conf(I):
    c = config(I, 'conf')
    f = c.f
    I.require(le(ic(0), f['runs']), lt(f['runs'], ic(BIG)), le(ic(0), f['offset']), lt(f['offset'], ic(BIG)), le(ic(1), f['threads']))
    I.v['conf'] = c
    return c


def chains_get(en, want, what='every chain gets the stated configuration', but=()):
    """obliges every chain of the command to be made with the configuration `want`"""
    def on_new(c, node):
        en.oblig('ensures', land(*[eq_vals(c.f['vars'].f[k], want.f[k]) for k in want.f if k not in but]), node, what)
    en.on_new = on_new


def still(I, conf, file='x'):
    """the configuration without drive, logging to `file`"""
    return conf.with_('drive', EnumV('DriveType', ic([x[0] for x in I.prog.enums['DriveType'].vs].index('none')))).with_('file', StrV((file,)))


class Batch(ObsUnit):
    timeout = 120

    def pre(self, I):
        batch_conf(I)
        self.more(I)

    def more(self, I):
        pass

    def run(self, X, I):
        self.hooks(X.en, I)
        h = X.obj(I.conf)
        args = [h]
        fn = X.prog.fns.get((OBS, self.fn))
        if fn is None:
            raise Unsupported('no function ' + self.fn)
        if len(fn.params) > 1:
            args.append(var('gamma', R))
        X.call((OBS, self.fn), *args)
        return {'conf': h, 'trace': X.created(), 'sent': X.en.gh('sent'), 'jobs': X.en.gh('jobs')}

    def hooks(self, en, I):
        pass


class Indices(Batch):
    """one chain per run, numbered offset, offset+1, ...; afterwards the configuration is stored with the offset advanced"""
    props = ('C19',)
    keep = ()
    side = False        # that no index or division of a run panics is shown with the schedule

    def post(self, I, O):
        f = I.conf.f
        new, sto = [s for s in trace_filter(O['trace'].segs, ('new',))], trace_filter(O['trace'].segs, ('store',))
        end = O['conf']
        base = end.with_('offset', f['offset'])
        want = (('rep', f['runs'], lambda i: (('ev', ('new', self.ty, base, iadd(f['offset'], i))),)),)
        adv = I.conf.with_('offset', iadd(f['offset'], f['runs']))
        return aux(('one chain per run under consecutive indices', trace_eq(new, want)),
                   ('advanced configuration', land(*[eq_vals(end.f[k], adv.f[k]) for k in adv.f if k not in self.keep])),
                   ('stored configuration', trace_eq(sto, (('ev', ('store', StrV(('config.toml',)), end)),))))


class Schedule(Batch):
    """a run logs its initial state, then exactly the steps that end a period (all steps, without strob)"""
    props = ('C25',)
    logname = 'log'
    resp = False

    def more(self, I):
        f = I.conf.f
        self.n0 = ivar('n0', lambda md: md.rng.randrange(5))
        t = f['t'] if self.resp else f['trel']
        I.require(eq(t, rmul(toreal(self.n0), f['dt'])), le(f['dt'], f['tau']))

    def hooks(self, en, I):
        f = I.conf.f
        dt, T0 = f['dt'], rneg(rmul(toreal(self.n0), f['dt']))
        per = rround(rdiv(f['tau'], dt))

        def on_update(c, kind, node):
            if kind == 'metropolis_update':
                g = eq(en.gh('dyn'), ic(0))
            elif not self.resp:
                g = TRUE if kind == 'update' else FALSE
            else:
                g = lt(c.f['t'], ZERO) if kind == 'update' else le(ZERO, c.f['t']) if kind == 'update_no_field' else FALSE
            en.oblig('ensures', g, node, 'Monte Carlo updates before the first step, then driven steps' + (' and undriven ones from time zero on' if self.resp else ''))
        en.on_update = on_update
        chains_get(en, I.conf)

        def on_job(tr, pool):
            if en.mode:
                return
            segs = trace_filter(tr.segs, ('log',))
            if len(segs) != 2 or segs[1][0] != 'rep' or segs[0][0] != 'ev':
                raise Unsupported('shape of the log')
            N, v0 = segs[1][1], segs[0][1][3]
            step = lambda k: ('ev', ('log', self.logname, radd(T0, rmul(toreal(iadd(k, ic(1))), dt)), iadd(v0, iadd(k, ic(1)))))
            first = ('ev', ('log', 'log', rneg(f['trel']), v0))
            en.ensure('Monte Carlo updates before the initial state', lt(ic(0), v0))
            hit = lambda k: lor(lnot(f['strob']), eq(imod(iadd(iadd(k, ic(1)), imulc(self.n0, -1)), per), ic(0)))
            want = (first, ('rep', N, lambda k: (('if', hit(k), (step(k),), ()),)))
            en.ensure('the initial state, then exactly the whole periods', trace_eq(segs, want))
            at = lambda k: radd(rneg(f['t'] if self.resp else f['trel']), rmul(toreal(k), dt))
            en.ensure('ends at the first step at or after the final time', land(Forall(ic(0), N, lambda k: lt(at(k), f['t'])), le(f['t'], at(N))))
        en.on_job = on_job

    def post(self, I, O):
        return aux(('the command ends after its runs', awaited(O['trace'])))


def awaited(trace):
    """the workers are waited for after the last job"""
    segs = trace.segs
    last = max([i for i, s in enumerate(segs) if s[0] == 'rep' or s[0] == 'ev' and s[1][0] == 'job'] or [-1])
    if any(s[0] == 'ev' and s[1][0] == 'await' for s in segs[last + 1:]):
        return TRUE
    if any(s[0] != 'ev' or s[1][0] not in ('store', 'new', 'job', 'drop') for s in segs[last + 1:]):
        raise Unsupported('how the runs are waited for')
    return FALSE


def mc_conf(I):
    c = config(I, 'conf')
    f = c.f
    I.require(le(ic(1), f['mc_points']), lt(f['mc_points'], ic(BIG)), le(ic(1), f['threads']), lt(f['threads'], ic(BIG)))
    I.v['conf'] = c


class Samples(Batch):
    """no more workers than points, together exactly the requested samples, each after a block of updates"""
    props = ('C18',)
    lines = False     # one line per site
    kind = 'metropolis_update'

    def pre(self, I):
        mc_conf(I)

    def hooks(self, en, I):
        L = I.conf.f['hsize']
        S = I.conf.f['ssize']
        chains_get(en, I.conf, but=('log',))

        def on_update(c, kind, node):
            en.oblig('ensures', TRUE if kind == self.kind else FALSE, node, 'Monte Carlo updates of the stated ensemble')

        def on_send(ch, x, node):
            if en.mode or self.lines:
                return
            w = words(x)
            id, ver = en.chain.f['id'], en.gh('upd')
            sp = spins_of(id, ver, L)
            D = lambda j: [sp.get(j).f['dir'].get(ic(c)) for c in range(3)]
            want = [ob('total_energy2', id, ver), ob('mc_system_energy', id, ver)] + [rdiv(ob('m.' + c, id, ver), toreal(S)) for c in 'xyz'] + D(idiv(S, ic(4))) + D(idiv(imulc(S, 3), ic(4)))
            if len(w) != len(want):
                raise Unsupported('words of a line')
            en.ensure('a line holds the observables of the state it was taken from', land(*[eq(a, b) for a, b in zip(w, want)]), node)
        en.on_update, en.on_send = on_update, on_send

        def on_job(tr, pool):
            if en.mode:
                return
            segs = trace_filter(tr.segs, ('send',))
            if len(segs) != 1 or segs[0][0] != 'rep':
                raise Unsupported('shape of the samples')
            n, body = segs[0][1], segs[0][2]
            k = fresh('k', I_)
            hyps = [le(ic(0), k), lt(k, n)]
            ver = lambda k: self.version(seglist(body(k)), L, en)
            en.ensure('updates before the first sample', implies(land(*hyps), lt(ic(0), ver(ic(0)))))
            en.ensure('updates between consecutive samples', implies(land(*hyps), lt(ver(k), ver(iadd(k, ic(1))))))
        en.on_job = on_job

    def version(self, segs, L, en):
        if len(segs) != 1:
            raise Unsupported('shape of a sample')
        s = segs[0]
        if self.lines:
            if s[0] != 'rep':
                raise Unsupported('shape of a sample')
            en.ensure('one line per site', eq(s[1], L))
            k = fresh('i', I_)
            e = seglist(s[2](k))
            if len(e) != 1 or e[0][0] != 'ev' or k in walk(e[0][1][3]):
                raise Unsupported('shape of a line')
            return e[0][1][3]
        if s[0] != 'ev':
            raise Unsupported('shape of a sample')
        return s[1][3]

    def post(self, I, O):
        f = I.conf.f
        n = toreal(f['mc_points'])
        if self.lines:
            n = rmul(n, toreal(f['hsize']))
        return aux(('exactly the requested samples', eq(O['sent'], n)),
                   ('no more workers than points', le(O['jobs'], f['mc_points'])),
                   ('at least one worker', le(ic(1), O['jobs'])))


def words(s):
    """the numbers of a line of text, separated by single spaces"""
    out, gap = [], True
    if not isinstance(s, StrV):
        raise Unsupported('text of a line')

    def flat(ps):
        for p in ps:
            if not isinstance(p, str) and p[0] == 'arg' and isinstance(p[1], StrV) and p[2] == '':
                yield from flat(p[1].parts)
            else:
                yield p
    for p in flat(s.parts):
        if isinstance(p, str):
            if p != ' ' or gap:
                raise Unsupported('text of a line')
            gap = True
        else:
            if not gap or p[0] != 'arg' or not isinstance(p[1], T) or p[2] != '':
                raise Unsupported('text of a line')
            out.append(p[1])
            gap = False
    if gap:
        raise Unsupported('text of a line')
    return out


class Lines(Batch):
    """every line a worker sends: site, half the energy of the site's two periodic bonds, and the spin, of the state at that moment"""
    props = ('C21',)
    points = 'mc_points'

    def pre(self, I):
        if self.points == 'runs':
            batch_conf(I)
            I.require(le(ic(1), I.conf.f['runs']))
        else:
            mc_conf(I)

    def hooks(self, en, I):
        L = I.conf.f['hsize']

        def on_send(ch, x, node):
            if en.mode:
                return
            w = words(x)
            if len(w) != 5 or w[0].s != I_:
                raise Unsupported('words of a line')
            i = w[0]
            id, ver = en.chain.f['id'], en.gh('upd')
            sp, J = spins_of(id, ver, L), en.chain.f['j_couple']
            V3 = lambda s: [s.get(ic(c)) for c in range(3)]
            D = lambda j: V3(sp.get(j).f["dir"])
            l, r = ite(eq(i, ic(0)), isub(L, ic(1)), isub(i, ic(1))), ite(eq(i, isub(L, ic(1))), ic(0), iadd(i, ic(1)))
            e = radd(*[rmul(c, radd(rmul(a, d), rmul(b, f))) for c, a, d, b, f in zip(D(i), D(l), V3(J.get(l)), D(r), V3(J.get(i)))])
            en.ensure('a site of the chain', land(le(ic(0), i), lt(i, L)), node)
            en.ensure('half the energy of the two periodic bonds', eq(w[1], rneg(rmul(rc(Fr(1, 2)), e))), node)
            en.ensure('the spin of the site', land(*[eq(a, b) for a, b in zip(w[2:], D(i))]), node)
        en.on_send = on_send

        def on_job(tr, pool):
            if en.mode:
                return
            segs = trace_filter(tr.segs, ('send',))
            n = [0]
            self.whole_samples(en, L, segs, n)
            if not n[0]:
                raise Unsupported('no samples')
        en.on_job = on_job

    def whole_samples(self, en, L, segs, n):
        """the lines of a worker come in repetitions over all sites in order"""
        for s in segs:
            if s[0] == 'if':
                self.whole_samples(en, L, s[2], n)
                self.whole_samples(en, L, s[3], n)
                continue
            if s[0] != 'rep':
                raise Unsupported('shape of the samples')
            k = fresh('k', I_)
            body = seglist(s[2](k))
            if len(body) == 1 and body[0][0] == 'ev':
                n[0] += 1
                en.ensure('one line per site', land(eq(s[1], L), implies(land(le(ic(0), k), lt(k, L)), eq(words(body[0][1][2])[0], k))))
            else:
                self.whole_samples(en, L, body, n)

    def post(self, I, O):
        ws = [s[1] for s in O['trace'].segs if s[0] == 'ev' and s[1][0] == 'writer']
        if not ws:
            raise Unsupported('no writer')
        f = I.conf.f
        return aux(*[('writer for all sites and points', land(eq(w[3], f['hsize']), eq(w[4], f[self.points]))) for w in ws])


class Writer(ObsUnit):
    """the profile file: one line per site with the averages of the site's samples"""
    name = 'writers::profile_in_bg'
    fns = (('writers', 'profile_in_bg'),)
    props = ('C21',)

    def pre(self, I):
        I.v['size'] = ivar('size', lambda md: md.rng.randrange(1, 9))
        I.v['pts'] = ivar('pts', lambda md: md.rng.randrange(1, 9))
        I.require(le(ic(1), I.size), le(ic(1), I.pts))
        size = I.size
        decl('msg.site', I_, facts=lambda k: [le(ic(0), app('msg.site', k)), lt(app('msg.site', k), size)])
        for x in 'exyz':
            decl('msg.' + x, R)

    def run(self, X, I):
        en = X.en
        en.contracts.pop(self.fns[0], None)

        def on_recv(k):
            parts = []
            for i, x in enumerate(['msg.site'] + ['msg.' + c for c in 'exyz']):
                parts += ([' '] if i else []) + [('arg', app(x, k), '')]
            return StrV(tuple(parts))
        en.on_recv = on_recv
        f = Opq('file', id='profile')

        def on_job(tr, pool):
            if en.mode:
                return
            n = imul(I.size, I.pts)
            tot = lambda i, c: rdiv(Sum(ic(0), n, lambda k: ite(eq(app('msg.site', k), i), app('msg.' + c, k), ZERO)), toreal(I.pts))
            want = (('rep', I.size, lambda i: (line(f, i, *[tot(i, c) for c in 'exyz']),)),)
            en.ensure('averages of every site', trace_eq(trace_filter(tr.segs, ('write',)), want))
        en.on_job = on_job
        return {'r': X.call(self.fns[0], f, Opq('chan_rx', id=0), I.size, I.pts)}

    def post(self, I, O):
        return []


class DynTimes(Batch):
    """every trajectory sends one sample to the file of each profile, after as many periods as its name says"""
    props = ('C21',)

    def more(self, I):
        f = I.conf.f
        self.rel, self.per = var('relaxation_in_steps', R), var('period_in_steps', R)
        I.require(le(ZERO, self.rel), le(ONE, self.per))
        I.v['conf'] = I.conf.with_('trel', rmul(self.rel, f['dt'])).with_('tau', rmul(self.per, f['dt']))

    def hooks(self, en, I):
        self.files = []
        chains_get(en, I.conf.with_('t', rmul(I.conf.f['tau'], rc(4000))))

        def on_update(c, kind, node):
            g = eq(en.gh('dyn'), ic(0)) if kind == 'metropolis_update' else TRUE if kind == 'update' else FALSE
            en.oblig('ensures', g, node, 'Monte Carlo updates before the first step, then driven steps')
        en.on_update = on_update

        def on_job(tr, pool):
            if en.mode:
                return
            segs = trace_filter(tr.segs, ('send',))
            if len(segs) != 1 or segs[0][0] != 'rep':
                raise Unsupported('shape of the trajectory')
            N, body = segs[0][1:]
            ws = [s[1] for s in en.gh_outer.segs if s[0] == 'ev' and s[1][0] == 'writer']
            if not ws:
                raise Unsupported('no profiles')
            for w in ws:
                name = w[1].d['id'][1]
                m = re.fullmatch(r'dyn_profile-(\d+)-tau.dat', name.parts[0] if len(name.parts) == 1 else '')
                if not m:
                    raise Unsupported('name of a profile')
                # the step whose end is closest to the end of the period
                at = isub(imulc(floor(rsub(HALF, radd(rmul(rc(int(m.group(1))), self.per), self.rel))), -1), ic(1))
                hit = lambda k: self.hit(seglist(body(k)), w[2].d['id'])
                en.ensure('a sample after %s periods' % m.group(1), land(le(ic(0), at), lt(at, N), hit(at)))
                k = fresh('k', I_)
                en.ensure('no other sample for the profile of %s periods' % m.group(1), implies(land(le(ic(0), k), lt(k, N), hit(k)), eq(k, at)))
        en.on_job = on_job

    def hit(self, segs, id):
        if not segs:
            return FALSE
        if len(segs) != 1:
            raise Unsupported('shape of a step')
        s = segs[0]
        if s[0] == 'if':
            return lor(land(s[1], self.hit(s[2], id)), land(lnot(s[1]), self.hit(s[3], id)))
        if s[0] == 'rep':
            e = seglist(s[2](fresh('i', I_)))
            if len(e) == 1 and e[0][0] == 'ev':
                return eq(e[0][1][1], id)
        raise Unsupported('shape of a step')

    def post(self, I, O):
        return []


def waits(trace):
    """the writers of the lines are waited for after the last job; a background writer ends when the senders are gone"""
    evs = [(i, s[1]) for i, s in enumerate(trace.segs) if s[0] == 'ev']
    last = max([i for i, s in enumerate(trace.segs) if s[0] == 'rep' or s[0] == 'ev' and s[1][0] == 'job'] or [-1])
    n = 0
    for i, w in evs:
        if w[0] in ('bg', 'writer'):
            rx = w[2].d['id']
            js = [j for j, x in evs if x[0] == 'joined' and x[1] is rx and j > last]
            ds = [j for j, x in evs if x[0] == 'drop' and x[1] is rx]
            n += 1
            if not js or w[0] == 'bg' and not (ds and ds[0] < js[0]):
                return FALSE
    if not n:
        raise Unsupported('no writer')
    return TRUE


class Hist(Batch):
    """exactly the requested lines, each with the observables of the state at that moment, and further
    updates of the stated kind before every line"""
    props = ('C29',)
    files = (('hist_mc.dat', 'metropolis_update', False), ('hist_dyn.dat', 'update', True))

    def pre(self, I):
        batch_conf(I)
        I.v['num'] = ivar('sample_num', lambda md: md.rng.randrange(1, 9))
        I.require(le(ic(1), I.num))

    def run(self, X, I):
        en = X.en
        kinds = {k for _, k, _ in self.files}
        S = I.conf.f['ssize']

        def on_update(c, kind, node):
            en.oblig('ensures', TRUE if kind in kinds else FALSE, node, 'updates of the stated kind')

        def on_write(f, parts):
            en.event('mark', f, en.gh('upd'), en.gh('dyn'))
            if en.mode:
                return
            self.check_line(en, I, parts[:-1] if parts and parts[-1] == '\n' else ())
        en.on_update, en.on_write = on_update, on_write
        chains_get(en, still(I, I.conf), 'a chain without drive', ('log',))
        h = X.obj(I.conf)
        X.call((OBS, self.fn), h, I.num)
        return {'trace': X.created()}

    def post(self, I, O):
        segs = [s for s in trace_filter(O['trace'].segs, ('mark',))]
        if len(segs) != len(self.files) or any(s[0] != 'rep' for s in segs):
            raise Unsupported('shape of the histogram')
        out = []
        for s, (name, kind, dyn) in zip(segs, self.files):
            k = fresh('k', I_)
            m = lambda k: self.mark(seglist(s[2](k)))
            f = m(k)[1].d['id'][1]
            if not isinstance(f, StrV) or len(f.parts) != 1 or f.parts[0] != name:
                raise Unsupported('file of the histogram')
            U, D = (lambda k: m(k)[2]), (lambda k: m(k)[3])
            rng = land(le(ic(0), k), lt(k, s[1]))
            k1 = iadd(k, ic(1))
            if dyn:
                step = land(lt(D(k), D(k1)), eq(isub(U(k1), U(k)), isub(D(k1), D(k))))
                first = lt(ic(0), D(ic(0)))
            else:
                step, first = land(lt(U(k), U(k1)), eq(D(k), ic(0))), lt(ic(0), U(ic(0)))
            out += [(name + ': the requested number of lines', eq(s[1], I.num)),
                    (name + ': updates before every line', land(implies(rng, step), first))]
        return aux(*out)

    def check_line(self, en, I, parts):
        w = words(StrV(parts))
        S = I.conf.f['ssize']
        id, ver = en.chain.f['id'], en.gh('upd')
        sp = spins_of(id, ver, I.conf.f['hsize'])
        D = lambda j: [sp.get(j).f['dir'].get(ic(c)) for c in range(3)]
        want = [rdiv(ob('m.' + c, id, ver), toreal(S)) for c in 'xyz'] + [ob('system_energy', id, ver)]
        if len(w) == 11:
            want += D(idiv(S, ic(4))) + D(idiv(imulc(S, 3), ic(4)))
        if len(w) != len(want) + 1:
            raise Unsupported('words of a line')
        en.ensure('a line holds the observables of the state it was taken from', land(*[eq(a, b) for a, b in zip(w[1:], want)]))

    def mark(self, segs):
        if len(segs) != 1 or segs[0][0] != 'ev':
            raise Unsupported('shape of a sample')
        return segs[0][1]


class HistDyn(Hist):
    """one line per trajectory, of its state at the configured time"""

    def pre(self, I):
        super().pre(I)
        I.require(le(ZERO, I.conf.f['t']))

    def run(self, X, I):
        en = X.en

        def on_update(c, kind, node):
            en.oblig('ensures', TRUE if kind == 'update' else FALSE, node, 'time steps')

        def on_send(ch, x, node):
            if en.mode:
                return
            self.check_line(en, I, x.parts if isinstance(x, StrV) else ())
            en.ensure('taken at the configured time', eq(toreal(en.gh('dyn')), toreal(rround(rdiv(I.conf.f['t'], I.conf.f['dt'])))))
        en.on_update, en.on_send = on_update, on_send
        chains_get(en, I.conf, but=('log',))
        h = X.obj(I.conf)
        X.call((OBS, self.fn), h, I.num)
        return {'sent': en.gh('sent')}

    def post(self, I, O):
        return aux(('the requested number of lines', eq(O['sent'], toreal(I.num))))


class Single(Hist):
    """one line at the end of every period after the first thirty, the requested number of them"""

    def pre(self, I):
        super().pre(I)
        f = I.conf.f
        self.p = ivar('steps_per_period', lambda md: md.rng.randrange(1, 9))
        I.require(le(ic(1), self.p))
        I.v['conf'] = I.conf.with_('trel', ZERO).with_('tau', rmul(toreal(self.p), f['dt']))

    def run(self, X, I):
        en = X.en

        def on_update(c, kind, node):
            en.oblig('ensures', TRUE if kind == 'update' else FALSE, node, 'time steps')

        def on_write(f, parts):
            en.event('mark', f, en.gh('upd'), en.gh('dyn'))
            if not en.mode:
                self.check_line(en, I, parts[:-1] if parts and parts[-1] == '\n' else ())
        en.on_update, en.on_write = on_update, on_write
        chains_get(en, I.conf, but=('log',))
        h = X.obj(I.conf)
        X.call((OBS, self.fn), h, I.num)
        return {'trace': X.created()}

    def post(self, I, O):
        segs = [s for s in trace_filter(O['trace'].segs, ('mark',))]
        if len(segs) != 1 or segs[0][0] != 'rep':
            raise Unsupported('shape of the histogram')
        k = fresh('k', I_)
        body = seglist(segs[0][2](k))
        if len(body) != 1 or body[0][0] != 'if':
            raise Unsupported('shape of the histogram')
        c, yes, no = body[0][1:]
        if trace_filter(no, ('mark',)):
            c, yes, no = lnot(c), no, yes
        D = self.mark(seglist(yes))[3]
        rng = land(le(ic(0), k), lt(k, segs[0][1]))
        last = imul(self.p, iadd(I.num, ic(30)))
        return aux(('exactly the ends of the periods', implies(rng, land(implies(c, eq(imod(D, self.p), ic(0))), implies(eq(imod(D, self.p), ic(0)), c)))),
                   ('from the first period after the thirtieth', eq(subst(D, {k: ic(0)}), iadd(imulc(self.p, 30), ic(1)))),
                   ('one step at a time', implies(rng, eq(subst(D, {k: iadd(k, ic(1))}), iadd(D, ic(1))))),
                   ('to the end of the last requested period', land(le(last, iadd(subst(D, {k: segs[0][1]}), ic(-1))), Forall(ic(0), segs[0][1], lambda j: lt(iadd(subst(D, {k: j}), ic(-1)), last)))))


class TrajMean(Batch):
    """the mean of the subsystem energies sampled along the trajectories, one per period after Monte Carlo updates"""
    props = ('C29',)

    def pre(self, I):
        batch_conf(I)
        self.p = ivar('steps_per_period', lambda md: md.rng.randrange(1, 9))
        I.require(le(ic(1), self.p), le(ic(1), I.conf.f['runs']), eq(I.conf.f['trel'], ZERO))
        I.v['conf'] = I.conf.with_('tau', rmul(toreal(self.p), I.conf.f['dt']))

    def run(self, X, I):
        en = X.en
        decl('msgs.n', I_, facts=lambda: [le(ic(1), var('msgs.n', I_))])
        decl('msg.e', R)
        I.require(le(ic(1), var('msgs.n', I_)))
        en.hyps.append(le(ic(1), var('msgs.n', I_)))
        en.on_recv = lambda k: app('msg.e', k)

        def on_send(ch, x, node):
            if not en.mode:
                en.ensure('the subsystem energy of the state it was taken from', eq(x, ob('system_energy', en.chain.f['id'], en.gh('upd'))), node)
                en.ensure('after Monte Carlo updates', lt(ic(0), isub(en.gh('upd'), en.gh('dyn'))), node)
                d = en.gh('dyn')
                en.ensure('once per period', eq(imod(isub(d, ic(1)), self.p), ic(0)), node)

        def on_update(c, kind, node):
            en.oblig('ensures', TRUE if kind in ('update', 'metropolis_update') else FALSE, node, 'Monte Carlo updates and time steps')
        en.on_send, en.on_update = on_send, on_update
        chains_get(en, I.conf, but=('log',))
        h = X.obj(I.conf)
        r = X.call((OBS, self.fn), h)
        return {'r': r, 'jobs': en.gh('jobs')}

    def post(self, I, O):
        n = var('msgs.n', I_)
        return aux(('mean of the samples', eq(O['r'], rdiv(Sum(ic(0), n, lambda k: app('msg.e', k)), toreal(n)))),
                   ('one trajectory per run', eq(O['jobs'], I.conf.f['runs'])))


class Sweep(Batch):
    """one line per drive period: the state of its chain after the requested number of periods"""
    props = ('C29',)

    def pre(self, I):
        batch_conf(I)
        I.v['num'] = ivar('num_taus', lambda md: md.rng.randrange(1, 9))
        I.v['steps'] = ivar('steps', lambda md: md.rng.randrange(1, 9))
        I.require(le(ic(1), I.num), le(ic(1), I.steps))

    def run(self, X, I):
        en = X.en
        S = toreal(I.conf.f['ssize'])

        def on_send(ch, x, node):
            if en.mode:
                return
            w = words(x)
            id, ver = en.chain.f['id'], en.gh('upd')
            want = [ob('total_energy2', id, ver), ob('system_energy', id, ver)] + [rdiv(ob('m.' + c, id, ver), S) for c in 'xyz']
            if len(w) != 7 or w[0].op != 'app' or w[0].a[0] != 'taus':
                raise Unsupported('words of a line')
            en.ensure('observables of the state it was taken from', land(*[eq(a, b) for a, b in zip(w[2:], want)]), node)
            en.ensure('not before the requested number of periods', le(rmul(toreal(I.steps), w[0]), w[1]), node)
        en.on_send = on_send
        chains_get(en, I.conf)
        h = X.obj(I.conf)
        X.call((OBS, self.fn), Seq(None, I.num, lambda k: app('taus', k)), I.steps, h)
        return {'sent': en.gh('sent'), 'jobs': en.gh('jobs')}

    def post(self, I, O):
        return aux(('one line per period', land(eq(O['sent'], toreal(I.num)), eq(O['jobs'], I.num))))


class NoLog:
    """a chain which is only sampled has no log: making one would empty the log of a time run"""
    props = ('C19',)
    side = False

    def run(self, X, I):
        en = X.en

        def on_new(c, node):
            en.oblig('ensures', lnot(c.f['vars'].f['log']), node, 'a chain which is only sampled has no log')
        en.on_new = on_new
        decl('msgs.n', I_, facts=lambda: [le(ic(1), var('msgs.n', I_))])
        decl('msg.e', R)
        en.on_recv = lambda k: app('msg.e', k)
        fn = X.prog.fns.get((OBS, self.fn))
        if fn is None:
            raise Unsupported('no function ' + self.fn)
        more = [I.v[k] for k in ('num', 'b') if k in I.v]
        X.call((OBS, self.fn), X.obj(I.conf), *more[:len(fn.params) - 1])
        return {}

    def post(self, I, O):
        return []


def nolog(u):
    return type('NoLog' + u.fn, (NoLog, u), dict(name='%s (no log)' % nm(u.fn)))


class Delivery(Batch):
    """every line sent goes to a writer of its channel, which is waited for before the command ends"""
    props = ('C26',)
    side = False
    argn = 'conf'

    def pre(self, I):
        batch_conf(I)
        I.require(le(ic(1), I.conf.f['mc_points']), lt(I.conf.f['mc_points'], ic(BIG)), le(ic(1), I.conf.f['runs']), le(rneg(I.conf.f['trel']), ZERO))
        I.v['num'] = ivar('sample_num', lambda md: md.rng.randrange(1, 9))
        I.require(le(ic(1), I.num))

    def run(self, X, I):
        en = X.en
        self.chans = []

        def on_send(ch, x, node):
            if not en.mode:
                self.chans.append((ch.d['id'], list(en.hyps) + list(en.pc)))
        en.on_send = on_send
        h = X.obj(I.conf)
        args = {'conf': [h], 'num': [h, I.num], 'taus': [Seq(None, I.num, lambda k: app('taus', k)), ivar('steps', lambda md: 3), h]}[self.argn]
        X.call((OBS, self.fn), *args)
        return {'trace': X.created()}

    def post(self, I, O):
        evs = [s[1] for s in O['trace'].segs if s[0] == 'ev']
        rxs = [w[2].d['id'] for w in evs if w[0] in ('bg', 'writer')]
        if not self.chans:
            raise Unsupported('nothing is sent')
        return aux(('every line goes to a writer', land(*[implies(land(*h), lor(*[eq(c, r) for r in rxs])) for c, h in self.chans])),
                   ('all lines are written before the command ends', waits(O['trace'])))


class BgWriter(ObsUnit):
    """every received line is written, in order, once"""
    name = 'writers::write_in_bg'
    fns = (('writers', 'write_in_bg'),)
    props = ('C18',)

    def pre(self, I):
        decl('msgs.n', I_, facts=lambda: [le(ic(0), var('msgs.n', I_))])
        decl('msg.text', R)

    def run(self, X, I):
        en = X.en
        en.contracts.pop(self.fns[0], None)
        text = lambda k: ('arg', app('msg.text', k), '')
        en.on_recv = lambda k: StrV((text(k),))
        f = Opq('file', id='lines')

        def on_job(tr, pool):
            if en.mode:
                return
            want = (('rep', var('msgs.n', I_), lambda k: (('ev', ('write', f, (text(k), '\n'))),)),)
            en.ensure('every received line once, in order', trace_eq(trace_filter(tr.segs, ('write',)), want))
        en.on_job = on_job
        return {'r': X.call(self.fns[0], f, Opq('chan_rx', id=0))}

    def post(self, I, O):
        return []


def batch(cls, tag, f, **kw):
    return type(cls.__name__ + f, (cls,), dict(dict(name='%s (%s)' % (nm(f), tag), fn=f, fns=((OBS, f),), ty=SC), **kw))


RUNS = [batch(Indices, 'indices', f) for f in ('run_sim', 'run_ext', 'run_sim_response')] + \
    [batch(Indices, 'indices', 'run_langevin', ty=SL), batch(Indices, 'indices', 'run_dyn_profile', keep=('t',))]
STROB = [batch(Schedule, 'schedule', 'run_sim'), batch(Schedule, 'schedule', 'run_ext', logname='log_ext'),
         batch(Schedule, 'schedule', 'run_sim_response', resp=True), batch(Schedule, 'schedule', 'run_langevin', ty=SL)]

MCS = [batch(Samples, 'samples', 'run_mc'), batch(Samples, 'samples', 'run_mc_magnus', kind='metropolis_update_mag_full'), batch(Samples, 'samples', 'run_mc_profile', lines=True)]
PROF = [batch(Lines, 'lines', 'run_mc_profile'), batch(Lines, 'lines', 'run_dyn_profile', points='runs')]
decl('taus', R, facts=lambda k: [lt(ZERO, app('taus', k))])
DELIVER = [batch(Delivery, 'delivery', f, argn=a) for f, a in (('run_mc', 'conf'), ('run_mc_magnus', 'conf'), ('run_mc_profile', 'conf'), ('run_dyn_profile', 'conf'), ('gen_hist_dynamics', 'num'), ('run_tau', 'taus'))]
TIMES = [batch(DynTimes, 'times', 'run_dyn_profile')]
HIST = [batch(Hist, 'samples', 'gen_hist'), batch(Hist, 'samples', 'gen_hist_magnus', files=(('hist_mc_magnus.dat', 'metropolis_update_magnus', False),)), batch(HistDyn, 'samples', 'gen_hist_dynamics'), batch(Single, 'samples', 'gen_single_traj'), batch(TrajMean, 'mean', 'trajectory_mean_e'), batch(Sweep, 'lines', 'run_tau')]
WRITE = [Writer, BgWriter]
NOLOG = [nolog(u) for u in EST + MCS + HIST if u.fn != 'run_tau']
UNITS = RUNS + NOLOG + STROB + MCS + PROF + DELIVER + TIMES + HIST + WRITE
