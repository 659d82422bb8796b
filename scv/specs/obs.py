"""Contracts of the commands: estimates (C23) and bisections (C16)"""
from .chain import *
from ..obsx import *
from ..terms import walk

OBS = 'obs'


def nm(f):
    return 'obs::' + f


def samples_of(r):
    """(number of samples, version of the state of sample k) read off a result: the first sum over states"""
    for x in walk(r):
        if x.op == 'sum':
            b, lo, hi, body = x.a
            for y in walk(body):
                if y.op == 'app' and y.a[0].startswith('ob.') and b in walk(y):
                    v = y.a[2]
                    return isub(hi, lo), (lambda k: subst(v, {b: iadd(lo, k)})), y.a[1]
    raise Unsupported('the result is not a sum over sampled states')


class Estimate(ObsUnit):
    """(1/n) sum of the observable over n >= 1 states, each after at least one more update of the stated
    ensemble at the stated inverse temperature; the configuration only gets the stated subsystem"""
    kind = 'metropolis_update'
    obs = ('mc_system_energy', None)
    whole = False
    timeout = 200

    def pre(self, I):
        I.v['conf'] = config(I, 'conf')
        I.v['b'] = var('beta', R)
        I.require(lt(ZERO, I.b))

    def run(self, X, I):
        en = X.en
        self.want = I.conf.f['beta'] if self.whole else I.b

        def on_update(c, kind, node):
            en.oblig('requires', TRUE if kind == self.kind else FALSE, node, 'updates of the stated ensemble')
            en.oblig('requires', eq(c.f['vars'].f['beta'], self.want), node, 'at the stated inverse temperature')
        en.on_update = on_update
        want = I.conf.with_('ssize', I.conf.f['hsize']) if self.whole else I.conf

        def on_new(c, node):
            en.oblig('requires', land(*[eq_vals(c.f['vars'].f[k], want.f[k]) for k in want.f if k != 'log']), node, 'a chain with the stated configuration')
        en.on_new = on_new
        h = X.obj(I.conf)
        args = [h] if self.whole else [h, I.b]
        return {'r': X.call((OBS, self.fn), *args), 'conf': h}

    def energy(self, c, id, v, S):
        e = ob(self.obs[0], id, v)
        if self.obs[1] == 'omega':
            e = radd(e, rdiv(rmul(rc(2), PI, ob('m.z', id, v)), rmul(c.f['tau'], S)))
        elif self.obs[1] == 'x':
            e = radd(e, rdiv(ob('m.x', id, v), S))
        return e

    def post(self, I, O):
        c = I.conf
        S = toreal(c.f['hsize'] if self.whole else c.f['ssize'])
        rs = O['r'].el if self.whole else [O['r']]
        out = []
        for k, r in enumerate(rs):
            n, V, id = samples_of(r)
            f = (lambda v: self.energy(c, id, v, S)) if k == 0 else (lambda v: rdiv(ob('m.' + 'xyz'[k - 1], id, v), S))
            nme = ['energy', 'mx', 'my', 'mz'][k]
            out += aux((nme + ' is the mean', land(eq(r, rdiv(Sum(ic(0), n, lambda q: f(V(q))), toreal(n))), lt(ic(0), n))),
                       (nme + ' samples are separated by updates', land(lt(ic(0), V(ic(0))), Forall(ic(0), isub(n, ic(1)), lambda q: lt(V(q), V(iadd(q, ic(1))))))))
        want = c.with_('ssize', c.f['hsize']) if self.whole else c
        out += aux(('configuration', land(*[eq_vals(O['conf'].f[k], want.f[k]) for k in want.f])))
        return out


def est(f, **kw):
    return type(f, (Estimate,), dict(name=nm(f), fn=f, fns=((OBS, f),), props=('C23',), **kw))


OM = ('mc_system_energy', 'omega')
EST = [est('estim_e', obs=OM), est('estim_e2', obs=('mc_total_energy', None)), est('estim_eh', obs=('mc_total_energy', None)),
       est('estim_e_maglab', obs=('mc_system_energy_maglab', None), kind='metropolis_update_maglab'),
       est('estim_e_rot', obs=('mc_system_energy_rot', None), kind='metropolis_update_rot_magnus'),
       est('get_obs', obs=OM, whole=True), est('get_obsh', whole=True),
       est('get_obs_maglab', obs=('mc_system_energy', 'x'), whole=True, kind='metropolis_update_maglab'),
       est('get_obs_rot', obs=('mc_system_energy', 'x'), whole=True, kind='metropolis_update_rot_magnus')]


# ---------------------------------------------------------------- C16
MIL = rc(Fr(1, 1000))


def estimate_contract(U, en, f):
    """obs::estim_*: leaves the configuration; its value is unknown (a sampled estimate).  With `crossing`:
    it is above the target below the crossing beta* and below the target above it"""
    def c(en, args, node):
        conf, b = en.val(args[0]), en.val(args[1])
        if U.whole:
            en.oblig('requires', eq(conf.f['ssize'], conf.f['hsize']), node, 'the whole chain as subsystem')
        en.oblig('requires', lt(ZERO, b), node, 'positive inverse temperature')
        if f != U.est:
            en.oblig('requires', FALSE, node, 'the estimate of the stated ensemble')
        en.assumed.add('obs::' + f)
        e = fresh('E', R)
        if U.crossing:
            # the contract speaks about the target the fit was asked for
            en.assume(implies(lt(b, U.star), lt(U.target, e)))
            en.assume(implies(lt(U.star, b), lt(e, U.target)))
        return e
    return c


class Bisect(ObsUnit):
    crossing = False
    whole = False
    timeout = 250

    def pre(self, I):
        I.v['conf'] = config(I, 'conf')
        self.target = I.conf.f['ednsty']
        if self.crossing:
            self.star = var('beta*', R)
            I.require(le(rc(self.low), self.star), le(self.star, rc(5)))

    def run(self, X, I):
        en = X.en
        for f in EST:
            if not f.whole:
                en.contracts[(OBS, f.fn)] = estimate_contract(self, en, f.fn)
        sgn = lambda e, x: land(implies(lt(x, self.star), lt(self.target, e)), implies(lt(self.star, x), lt(e, self.target)))

        def cands(v0):
            n = len(v0)
            P = [(i, j) for i in range(n) for j in range(n) if i != j]
            out = []
            if self.crossing:
                for i in range(n):
                    out += [(lambda i: lambda v: le(v[i], self.star))(i), (lambda i: lambda v: le(self.star, v[i]))(i)]
                out += [(lambda i, j: lambda v: sgn(v[i], v[j]))(i, j) for i, j in P]
            out += [(lambda i, c: lambda v: le(v[i], c))(i, c) for i in range(n) for c in v0] + [(lambda i, c: lambda v: le(c, v[i]))(i, c) for i in range(n) for c in v0]
            out += [(lambda i, j: lambda v: le(v[i], v[j]))(i, j) for i, j in P]
            out += [(lambda i, j, k: lambda v: eq(rmul(rc(2), v[i]), radd(v[j], v[k])))(i, j, k) for i in range(n) for j in range(n) for k in range(j) if i not in (j, k)]
            return out
        en.invs = cands
        h = X.obj(I.conf)
        return {'r': X.call((OBS, self.fn), h), 'conf': h}

    def post(self, I, O):
        r = O['r']
        loops = [l for l in self.en.loops if 'after' in l]
        if len(loops) != 1:
            raise Unsupported('not one loop')
        l = loops[0]
        # lemmas/Bisection.lean: a bracket halved by every iteration gets narrow (halving: the ensures of the unit that is not about a crossing)
        self.en.assumed.discard('termination of the loop at line %d' % l['node'].line)
        v, v1, v0 = l['carried'], l['after'], l['entry']
        P = [(i, j) for i in range(len(v)) for j in range(len(v)) if i != j]
        if self.crossing:
            return aux(('within 0.001 of the crossing', le(fn('abs', rsub(r, self.star)), MIL)))
        lo, hi = rc(self.low), rc(5)
        bracket = lambda i, j: land(le(v[i], r), le(r, v[j]), le(rsub(v[j], v[i]), MIL))
        st = land(*l['hyps'])
        halving = lambda i, j: land(eq(v0[i], lo), eq(v0[j], hi), implies(st, land(eq(rsub(v1[j], v1[i]), rmul(HALF, rsub(v[j], v[i]))), lt(MIL, rsub(v[j], v[i])))))
        want = I.conf.with_('ssize', I.conf.f['hsize']) if self.whole else I.conf
        return aux(('inside the search bracket', land(le(lo, r), le(r, hi))),
                   ('final bracket no wider than 0.001', Alt([bracket(i, j) for i, j in P])),
                   ('every iteration halves a bracket wider than 0.001', Alt([halving(i, j) for i, j in P])),
                   ('configuration', land(*[eq_vals(O['conf'].f[k], want.f[k]) for k in want.f])))


def fit(f, e, low, **kw):
    d = dict(fn=f, est=e, low=low, fns=((OBS, f),), props=('C16',), needs=(nm(e),), **kw)
    return [type(f, (Bisect,), dict(d, name=nm(f))), type(f + 'x', (Bisect,), dict(d, name=nm(f) + ' (crossing)', crossing=True))]


H, K = Fr(1, 100), Fr(1, 10000)
FITS = fit('find_beta', 'estim_e', H, whole=True) + fit('find_beta2', 'estim_e2', H) + fit('find_betah', 'estim_eh', H) + \
    fit('find_beta_maglab', 'estim_e_maglab', K) + fit('find_beta_rot', 'estim_e_rot', K)

UNITS = EST + FITS
