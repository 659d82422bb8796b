"""The commands (src/obs.rs, src/writers.rs) executed over the contracts of the chain.

A chain is what its constructor's contract says (configuration, time 0, as many spins as
configured) plus two ghost numbers: which chain it is and its *version*, the number of
updates made.  Observables are unknown functions of (chain, version), so a sample is
identified by the state it was taken in.  Everything else is executed from the source."""
from .verify import *
from .engine import Oblig

SC, SL = 'SpinChain', 'SpinChainLangevin'
MC = ['metropolis_update', 'metropolis_update_magnus', 'metropolis_update_mag_full', 'metropolis_update_maglab', 'metropolis_update_rot_magnus']
DYN = ['update', 'update_no_field']
SCALARS = ['system_energy', 'total_energy', 'total_energy2', 'mc_system_energy', 'mc_total_energy', 'mc_system_energy_maglab', 'mc_system_energy_rot']
VECTORS = ['m', 'm_tot']
UI = {'ProgressBar', 'ProgressStyle', 'MultiProgress', 'ThreadPool', 'OpenOptions'}


def ob(name, id, ver):
    n = 'ob.' + name
    if n not in TM.SYMS:
        decl(n, R)
    return app(n, id, ver)


def spins_of(id, ver, n):
    for c in 'xyz':
        if 'ob.spin.' + c not in TM.SYMS:
            decl('ob.spin.' + c, R)
    return Seq(None, n, lambda j: StructV('Spin', {'dir': Seq([app('ob.spin.' + c, id, ver, j) for c in 'xyz'])}))


def table(name, id, n):
    for c in 'xyz':
        if 'ob.%s.%s' % (name, c) not in TM.SYMS:
            decl('ob.%s.%s' % (name, c), R)
    return Seq(None, n, lambda j: Seq([app('ob.%s.%s' % (name, c), id, j) for c in 'xyz']))


class ObsEngine(Engine):
    isolated = False
    extra = {}

    def __init__(self, prog, **kw):
        g = StructV('Ghost', {'u': ic(0), 'g': ic(0), 'n': ic(0), 'trace': TraceV(), 'upd': ic(0), 'news': ic(0), 'sent': ZERO, 'jobs': ic(0), 'lastsend': ic(0), 'recv': ic(0), 'dyn': ic(0)})
        super().__init__(prog, ghost=g, **kw)
        self.on_update = self.on_job = self.on_send = self.on_new = self.on_recv = self.on_write = None
        self.chain = None
        for ty in (SC, SL):
            self.contracts[(ty, 'new')] = (lambda ty: lambda en, a, node: en.new_chain(ty, a, node))(ty)
            for f in MC + DYN:
                self.contracts[(ty, f)] = (lambda f: lambda en, a, node: en.upd(f, a, node))(f)
            for f in SCALARS:
                self.contracts[(ty, f)] = (lambda f: lambda en, a, node: en.scalar(f, a))(f)
            for f in VECTORS:
                self.contracts[(ty, f)] = (lambda f: lambda en, a, node: Seq([en.scalar('%s.%s' % (f, c), a) for c in 'xyz']))(f)
            for f in ('log', 'log_ext'):
                self.contracts[(ty, f)] = (lambda f: lambda en, a, node: en.log(f, a))(f)
        self.contracts[('writers', 'profile_in_bg')] = lambda en, a, node: en.writer(a)
        self.contracts[('writers', 'write_in_bg')] = lambda en, a, node: en.bg(a)

    def writer(self, args):
        a = [self.val(x) for x in args]
        self.event('writer', *a)
        return Opq('thread', id=a[1].d['id'])

    def event(self, name, *a):
        if name == 'write' and self.on_write:
            self.on_write(*a)
        return super().event(name, *a)

    # ---- contracts
    def new_chain(self, ty, args, node):
        conf, num = self.val(args[0]), self.val(args[1])
        self.assumed.add(ty + '::new')
        k = self.gh('news')
        self.ghset('news', iadd(k, ic(1)))
        self.event('new', ty, conf, num)
        L = conf.f['hsize']
        f = {'vars': conf, 't': rneg(conf.f['trel']), 'ver': ic(0), 'id': k, 'num': num, 'j_couple': table('J', k, L), 'static_h': table('h', k, L), 'file': Opq('file', id='log')}
        if len(args) > 2:
            f['gamma'] = self.val(args[2])
        c = StructV(ty, f)
        self.chain = c
        if self.on_new:
            self.on_new(c, node)
        return c

    def upd(self, kind, args, node):
        c = self.val(args[0])
        if self.on_update:
            self.on_update(c, kind, node)
        self.assumed.add('%s::%s' % (c.name, kind))
        c2 = c.with_('ver', iadd(c.f['ver'], ic(1)))
        if kind in DYN:
            c2 = c2.with_('t', radd(c.f['t'], c.f['vars'].f['dt']))
            self.event('step', kind)
            self.ghset('dyn', iadd(self.gh('dyn'), ic(1)))
        self.write(args[0], c2)
        self.ghset('upd', iadd(self.gh('upd'), ic(1)))
        return UNIT

    def scalar(self, name, args):
        c = self.val(args[0])
        self.assumed.add('%s::%s' % (c.name, name.split('.')[0]))
        return ob(name, c.f['id'], c.f['ver'])

    def log(self, f, args):
        c = self.val(args[0])
        self.event('log', f, c.f['t'], c.f['ver'])
        return UNIT

    def bg(self, args):
        rx = self.val(args[1])
        self.event('bg', self.val(args[0]), rx)
        return Opq('thread', id=rx.d['id'])

    # ---- fields that depend on the version
    def virtual(self, v, f):
        if isinstance(v, StructV) and v.name in (SC, SL) and f == 'spins' and 'ver' in v.f:
            return spins_of(v.f['id'], v.f['ver'], v.f['j_couple'].n)
        return None

    def e_field(self, e, env):
        v = self.val(self.ev(e.e, env))
        x = self.virtual(v, e.f)
        if x is not None:
            return x
        return super().e_field(e, env)

    def place(self, e, env):
        if e.k == 'field' and e.f == 'spins':
            x = self.virtual(self.val(self.place(e.e, env)), 'spins')
            if x is not None:
                return RefV(self.newcell(x))
        return super().place(e, env)

    def to_iter(self, v, e):
        x = self.val(v) if isinstance(v, RefV) else v
        if isinstance(x, Opq) and x.kind == 'chan_rx' and self.on_recv:
            return IterV(var('msgs.n', I), lambda k: self.on_recv(k))
        return super().to_iter(v, e)

    # ---- outside world
    def call_path(self, s, args, e, env):
        if s == ['drop'] or s == ('drop',) or s[-1] == 'drop':
            x = self.val(args[0])
            if isinstance(x, Opq) and x.kind == 'chan':
                self.event('drop', x.d['id'])
        return super().call_path(s, args, e, env)

    def builtin(self, s, args, e, env):
        t, n = (s[-2] if len(s) > 1 else ''), s[-1]
        if (t, n) in self.extra:
            return self.extra[(t, n)](self, args, e)
        a = [self.val(x) for x in args]
        if t in UI:
            return Opq('pool' if t == 'ThreadPool' else 'open' if t == 'OpenOptions' else 'ui', **({'n': a[0]} if t == 'ThreadPool' else {}))
        if t == 'mpsc' and n == 'channel':
            k = self.gh('news')
            self.ghset('news', iadd(k, ic(1)))
            return TupV([Opq('chan', id=k), Opq('chan_rx', id=k)])
        if t == 'Sender' and n == 'clone':
            return a[0]
        if t == 'fs' and n == 'write':
            self.event('store', a[0], a[1].d['v'] if isinstance(a[1], Opq) and a[1].kind == 'toml' else a[1])
            return OptV(TRUE, UNIT)
        if t == 'toml' and n == 'to_string':
            return OptV(TRUE, Opq('toml', v=a[0]))
        if t == 'File' and n == 'create':
            self.event('open', a[0])
            return OptV(TRUE, Opq('file', id=(n, a[0])))
        if t == 'thread' and n == 'spawn':
            return self.job(a[0], 'thread')
        return super().builtin(s, args, e, env)

    def m_opq(self, m, r, v, args, e, env):
        if v.kind == 'pool':
            if m == 'execute':
                self.job(self.val(args[0]), v)
                return UNIT
            if m == 'join':
                self.event('await')
            if m in ('join', 'active_count'):
                return UNIT
        if v.kind == 'open':
            if m == 'open':
                self.event('open', self.val(args[0]))
                return OptV(TRUE, Opq('file', id=('append' if v.d.get('append') == TRUE and v.d.get('create') == TRUE else 'open', self.val(args[0]))))
            return Opq('open', **dict(v.d, **{m: self.val(args[0])})) if args else v
        if v.kind == 'chan':
            if m == 'send':
                x = self.val(args[0])
                if self.on_send:
                    self.on_send(v, x, e)
                self.event('send', v.d['id'], x, self.gh('upd'))
                self.ghset('sent', radd(self.gh('sent'), ONE))
                self.ghset('lastsend', self.gh('upd'))
                return OptV(TRUE, UNIT)
            if m == 'clone':
                return v
        if v.kind == 'chan_rx' and m == 'recv' and self.on_recv:
            k = self.gh('recv')
            self.ghset('recv', iadd(k, ic(1)))
            return OptV(TRUE, self.on_recv(k))
        if v.kind == 'chan_rx' and m == 'recv':
            raise Unsupported('receiving')
        if v.kind == 'ui':
            if m == 'join' or m == 'join_and_clear':
                self.event('await')
                return OptV(TRUE, UNIT)
            if m in ('add', 'clone', 'template', 'progress_chars', 'insert'):
                return v
            return UNIT
        if v.kind == 'thread' and m == 'join':
            if 'id' in v.d:
                self.event('joined', v.d['id'])
            return OptV(TRUE, UNIT)
        return super().m_opq(m, r, v, args, e, env)

    def job(self, f, pool):
        """a closure handed to a worker: it owns what it uses, so its effects are its events only"""
        if isinstance(f, ClosV) and f.node.d.get('mv') is False:
            raise Unsupported('closure that does not own its variables')
        keep = {k: self.gh(k) for k in ('trace', 'upd', 'lastsend', 'news', 'dyn')}
        self.gh_outer = keep['trace']
        self.ghset('trace', TraceV())
        self.ghset('upd', ic(0))
        self.ghset('dyn', ic(0))
        self.ghset('lastsend', ic(0))
        old, self.isolated = self.isolated, True
        st0 = self.st
        try:
            self.apply(f, [])
            if self.on_job:
                self.on_job(self.gh('trace'), pool)
        finally:
            self.isolated = old
        tr = self.gh('trace')
        sent = self.gh('sent')
        st = dict(st0)
        st[self.ghost] = self.st[self.ghost]
        self.st = st
        for k, v in keep.items():
            self.ghset(k, v)
        self.ghset('sent', sent)
        self.event('job')
        self.ghset('jobs', iadd(self.gh('jobs'), ic(1)))
        return Opq('thread')

    def ensure(self, name, goal, node=None):
        """an ensures of a job, in the state where it ends"""
        if not self.mode:
            fn = self.frames[-1].fn if self.frames else None
            self.obl.append(Oblig(name, 'ensures', list(self.hyps) + list(self.pc), goal, fn.d.get('file', '') if fn is not None else '', node.line if node is not None else 0,
                                  fn_name(fn) if fn is not None else ''))


class ObsSym(Sym):
    def __init__(self, U, prog, contracts, hyps, timeout):
        self.U, self.prog = U, prog
        self.en = ObsEngine(prog, contracts=contracts, hyps=hyps, timeout=timeout)
        U.en = self.en


class ObsUnit(Unit):
    """aux obligations only: what the code does is decided by running it; these show it for all inputs"""
    sym = ObsSym
    trials = False
    mild = True
    side = 'aux'


def aux(*posts):
    return [(n, g, {'aux': True}) for n, g in posts]
