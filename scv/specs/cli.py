"""Contracts of the command line (src/main.rs: C30) and of the configuration reader (read_config: C27)"""
from .chain import *
from ..obsx import *

I_ = I
WHOLE = ('find_beta', 'get_obs', 'get_obsh', 'get_obs_rot', 'get_obs_maglab')
TIME = ('run_sim', 'run_ext', 'run_sim_response', 'run_langevin', 'run_dyn_profile')
FIND = ('find_beta', 'find_beta2', 'find_betah', 'find_beta_rot', 'find_beta_maglab', 'trajectory_mean_e')
OBS4 = ('get_obs', 'get_obsh', 'get_obs_rot', 'get_obs_maglab')
OTHER = ('average', 'two_point_average', 'run_mc', 'run_mc_magnus', 'run_mc_profile', 'gen_hist', 'gen_hist_magnus', 'gen_hist_dynamics', 'gen_single_traj', 'run_tau')
PLAIN = {'avg': 'average', 'two_point': 'two_point_average', 'mc': 'run_mc', 'mc_profile': 'run_mc_profile', 'dyn_profile': 'run_dyn_profile', 'mc_full': 'run_mc_magnus', 'response': 'run_sim_response'}
COUNT = {'hist': ('gen_hist', 8000), 'dynhist': ('gen_hist_dynamics', 1000), 'singletraj': ('gen_single_traj', 1000), 'magnus_hist': ('gen_hist_magnus', 8000)}
FITS = {'rot': ('find_beta_rot', 'get_obs_rot', 'betat-rot.dat'), 'maglab': ('find_beta_maglab', 'get_obs_maglab', 'betat-maglab.dat'), 'fit': ('find_beta', 'get_obs', 'betat.dat'),
        'fit_effective': ('find_betah', 'get_obsh', 'betat.dat'), 'high_freq': (None, 'get_obsh', 'betat.dat')}
OPTS = ['', 'ext', 'n_steps_taus', 'adiab2', 'adiabatic', 'langevin', 'config_desc'] + list(FITS) + list(PLAIN) + list(COUNT)


def result(n, k=0):
    s = 'ret.%s.%d' % (n, k)
    if s not in TM.SYMS:
        decl(s, R)
    return app(s)


class Cli(ObsUnit):
    """with at most one command option, the command line makes exactly the stated calls on the stated configuration"""
    props = ('C30',)
    fns = (('main', 'main'),)
    opt = ''
    timeout = 60

    def pre(self, I):
        I.v['conf'] = config(I, 'conf')
        f = {}
        o = lambda n, s: OptV(var('given.' + n, B), var('arg.' + n, s))
        for n, ty in I.sh.fields('Args'):
            t = ty.segs[-1] if ty.k == 'path' else None
            inner = ty.g[0] if t == 'Option' else None
            if t == 'bool':
                f[n] = TRUE if n == self.opt else FALSE
            elif t != 'Option' or inner is None or inner.k != 'path':
                raise Unsupported('option ' + n)
            elif n in ('tau', 'beta'):
                f[n] = o(n, R)
            elif n == 'steps':
                f[n] = o(n, I_)
            elif n == self.opt:
                it = inner.segs[-1]
                if it == 'Option':
                    f[n] = OptV(TRUE, o(n, R if inner.g[0].segs[-1] == 'f64' else I_))
                elif it == 'Vec':
                    f[n] = OptV(TRUE, Seq(None, var('taus.n', I_), lambda k: app('taus', k)))
                else:
                    f[n] = OptV(TRUE, var('arg.' + n, R))
            else:
                f[n] = OptV(FALSE, None)
        for n in ('tau', 'adiab2', 'adiabatic'):
            I.require(lt(ZERO, f[n].v) if f[n].v is not None else TRUE)
        self.args = StructV('Args', f)
        decl('taus', R)
        decl('solve', R)

    def run(self, X, I):
        en = X.en
        c = en.contracts
        c[('Args', 'parse')] = lambda e, a, node: self.args
        for ty in (SC, SL):
            c[(ty, 'read_config')] = lambda e, a, node: self.read(e, a, node, I)
            c[(ty, 'solve_beta')] = lambda e, a, node: app('solve', e.val(a[0]))
        for n in WHOLE + TIME + FIND + OBS4 + OTHER:
            c[('obs', n)] = (lambda n: lambda e, a, node: self.call(e, n, a))(n)
        X.call(('main', 'main'))
        return {'trace': X.created()}

    def read(self, en, a, node, I):
        x = en.val(a[0])
        en.oblig('ensures', TRUE if isinstance(x, StrV) and x.parts == ('config.toml',) else FALSE, node, 'reads config.toml')
        return I.conf

    def call(self, en, n, args):
        vals, out = [], None
        for a in args:
            v = en.val(a)
            if isinstance(v, StructV) and v.name == 'Config':
                ref, conf = a, v
            else:
                vals.append(v)
        en.assumed.add('obs::' + n)
        en.event('call', n, conf, *vals)
        new = after(en, n, conf)
        if new is not conf and isinstance(ref, RefV):
            en.write(ref, new)
        if n in FIND:
            return result(n)
        if n in OBS4:
            return Seq([result(n, k) for k in range(4)])
        return UNIT

    def post(self, I, O):
        A, o = self.args.f, self.opt
        c = I.conf
        orr = lambda x, d: ite(x.some, x.v, d)
        c = c.with_('tau', orr(A['tau'], c.f['tau'])).with_('beta', orr(A['beta'], c.f['beta']))
        calls, lines = [], []
        xs = lambda *v: Seq(list(v))
        w = lambda c: rdiv(rmul(rc(2), PI), c.f['tau'])

        def call(c, n, *a):
            calls.append(('ev', ('call', n, c) + a))
            return after(self.en, n, c)
        obs4 = lambda n: [result(n, k) for k in range(4)]
        if o in FITS:
            find, get, name = FITS[o]
            E = A[o].v
            c = c.with_('ednsty', E)
            if o in ('fit', 'fit_effective'):
                c = c.with_('hs', xs(ONE, ZERO, ZERO)).with_('hfield', xs(ZERO, ZERO, rneg(w(c))))
            if o == 'fit':
                c = c.with_('hsize', c.f['ssize'])
            if o == 'high_freq':
                c = c.with_('hfield', xs(ZERO, ZERO, rneg(rdiv(c.f['tau'], rmul(rc(4), PI)))))
            if find:
                c = call(c, find).with_('beta', result(find))
            call(c, get)
            lines.append((name, [c.f['tau'], E, c.f['beta']] + obs4(get)))
        elif o == 'adiab2':
            c = c.with_('tau', A[o].v)
            c = c.with_('hs', xs(ONE, ZERO, ZERO)).with_('hfield', xs(ZERO, ZERO, rneg(w(c))))
            call(c, 'find_beta2')
            lines.append(('beta.dat', [c.f['tau'], c.f['beta'], result('find_beta2')]))
        elif o == 'adiabatic':
            c = c.with_('tau', A[o].v)
            c = call(c, 'trajectory_mean_e')
            e, b0 = result('trajectory_mean_e'), c.f['beta']
            c = c.with_('ednsty', e)
            c = c.with_('hs', xs(ONE, ZERO, rneg(w(c))))
            c = call(c, 'find_beta').with_('beta', result('find_beta'))
            call(c, 'get_obs')
            lines.append(('beta.dat', [c.f['tau'], b0, c.f['beta']] + obs4('get_obs') + [e]))
        elif o == 'ext':
            call(c, 'run_ext')
        elif o == 'n_steps_taus':
            call(c, 'run_tau', A[o].v, orr(A['steps'], ic(1000)))
        elif o != 'config_desc':
            c = c.with_('beta', orr(A['beta'], app('solve', c.f['ednsty'])))
            if o == 'langevin':
                call(c.with_('hsize', c.f['ssize']), 'run_langevin', orr(A[o].v, ONE))
            elif o in COUNT:
                call(c, COUNT[o][0], orr(A[o].v, ic(COUNT[o][1])))
            else:
                call(c, PLAIN.get(o, 'run_sim'))
        got = trace_filter(O['trace'].segs, ('call',))
        names = lambda s: [x[1][1] if x[0] == 'ev' else None for x in s]
        if None in names(got):
            raise Unsupported('shape of the calls')
        ok = TRUE
        if names(got) != names(calls):
            ok = FALSE
        else:
            for x, y in zip(got, calls):
                a, b = sorted(x[1][3:], key=kind), sorted(y[1][3:], key=kind)
                ok = land(ok, *([eq_vals(x[1][2].f[k], y[1][2].f[k]) for k in y[1][2].f] + [eq_vals(p, q) for p, q in zip(a, b)]))
                if len(a) != len(b):
                    ok = FALSE
        out = aux(('exactly the stated calls on the stated configuration', ok))
        ws = [s[1] for s in trace_filter(O['trace'].segs, ('write',))]
        good = TRUE if len(ws) == len(lines) else FALSE
        for x, (name, want) in zip(ws, lines):
            f, parts = x[1], x[2]
            got = numbers(parts)
            id = f.d.get('id')
            if not (isinstance(id, tuple) and id[0] == 'append' and isinstance(id[1], StrV) and id[1].parts == (name,)) or len(got) != len(want):
                good = FALSE
            else:
                good = land(good, *[eq(a, b) for a, b in zip(got, want)])
        return out + aux(('one line for the fit', good))


def kind(v):
    return (not isinstance(v, T), v.s if isinstance(v, T) else '')


def numbers(parts):
    from .cmds import words
    return words(StrV(tuple(parts[:-1]) if parts and parts[-1] == '\n' else parts))


def after(en, n, c):
    """the configuration a command leaves (contracts of C16, C19, C23, C29)"""
    if n in WHOLE:
        c = c.with_('ssize', c.f['hsize'])
    if n in TIME:
        c = c.with_('offset', iadd(c.f['offset'], c.f['runs']))
    if n == 'run_dyn_profile':
        c = c.with_('t', rmul(c.f['tau'], rc(4000)))
    if n in ('gen_hist', 'gen_hist_magnus'):
        c = c.with_('drive', EnumV('DriveType', ic([x[0] for x in en.prog.enums['DriveType'].vs].index('none')))).with_('file', StrV(('x',)))
    return c


class Read(ObsUnit):
    """a file that can be read and parsed gives what is in it and nothing is stored; one that cannot be
    read gives the defaults and stores them in config.toml"""
    props = ('C27',)
    timeout = 60

    def pre(self, I):
        I.v['parsed'] = config(I, 'parsed')
        self.valid = var('valid', B)
        I.require(self.valid)

    def run(self, X, I):
        en = X.en
        text = Opq('text', id='the file')

        def read(e, a, node):
            return OptV(self.exists, text)

        def parse(e, a, node):
            x = e.val(a[0])
            if x is not text:
                raise Unsupported('parsing something else')
            return OptV(self.valid, I.parsed)
        en.extra = {('fs', 'read_to_string'): read, ('toml', 'from_str'): parse}
        r = X.call((self.ty, 'read_config'), Opq('name', id='filename'))
        tr = X.created()
        return {'r': r, 'trace': tr, 'd': X.call(('Config', 'default'))}

    def post(self, I, O):
        d = self.en.val(O['d'])
        r = O['r']
        st = O['trace'].segs
        want = () if self.exists is TRUE else (('ev', ('store', StrV(('config.toml',)), d)),)
        w = I.parsed if self.exists is TRUE else d
        return aux(('what is in the file, else the defaults', land(*[eq_vals(r.f[k], w.f[k]) for k in w.f])),
                   ('stores the defaults exactly when the file cannot be read', trace_eq(trace_filter(st, ('store',)), want)))


CLI = [type('Cli' + o, (Cli,), dict(name='main (%s)' % (o or 'no option'), opt=o)) for o in OPTS]
READ = [type('Read' + t, (Read,), dict(name='%s::read_config (%s)' % (t, n), ty=t, exists=e, fns=((t, 'read_config'),))) for t in (SC, SL) for n, e in (('file', TRUE), ('no file', FALSE))]
UNITS = CLI + READ
