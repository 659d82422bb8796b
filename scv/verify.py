"""Contracts, their proof, and their concrete (machine arithmetic) evaluation.

A Unit is one contract: inputs + requires (`pre`), a short program of calls of real
functions of /repo (`run`), and ensures (`post`).  The same unit is
  * proved: the calls are executed symbolically from the source parsed on this run, every
    ensures and every engine obligation (index range, overflow, domain) goes to the prover;
  * sampled: inputs are drawn from the requires, the real code is run on them by the Rust
    harness, and the same ensures are evaluated numerically on its outputs.
"""
import math
import os
import random
import time
import traceback
from .shapes import *
from .meth import *
from .engine import *
from .terms import *
from . import terms as TM
from .prove import *
from .meth import Engine
from . import prove as PV

FILES = ['spin.rs', 'spinchain.rs', 'spinchain_langevin.rs', 'config.rs', 'obs.rs', 'macros.rs', 'writers.rs', 'main.rs']


def load(root):
    have = [f for f in FILES if os.path.exists('%s/src/%s' % (root, f))]
    more = sorted(f for f in os.listdir(root + '/src') if f.endswith('.rs') and f not in FILES + ['lib.rs', 'build.rs', 'test.rs'])
    p = Program(root + "/src", have + more)
    p.root = root
    return p


class Item:
    """one obligation and its outcome"""

    def __init__(self, name, kind, fn, line=0):
        self.name, self.kind, self.fn, self.line = name, kind, fn, line
        self.status, self.why, self.t = 'pending', '', 0.0
        self.model = None

    def d(self):
        return {'name': self.name, 'kind': self.kind, 'fn': self.fn, 'line': self.line, 'status': self.status,
                'why': self.why[:1500], 't': round(self.t, 4), 'model': self.model}


class Sym:
    """symbolic executor given to Unit.run"""
    concrete = False

    def __init__(self, U, prog, contracts, hyps, timeout):
        self.U, self.prog = U, prog
        self.en = Engine(prog, contracts=contracts, hyps=hyps, timeout=timeout)

    def obj(self, v):
        return RefV(self.en.newcell(v))

    def call(self, key, *args):
        fn = self.prog.fns.get(key)
        if fn is None:
            raise Unsupported('no function %s::%s' % key)
        args = list(args)
        if fn.self_kind and fn.self_kind != '&mut' and isinstance(args[0], RefV):
            args[0] = self.en.val(args[0])
        # the function under proof is executed from its body even when a contract exists for callers
        c = self.en.contracts.pop(key, None)
        try:
            return self.en.call(key, args, None)
        finally:
            if c is not None:
                self.en.contracts[key] = c

    def get(self, h):
        return self.en.val(h)

    def set(self, h, path, v):
        cur = self.en.read(h)
        def go(x, p):
            if not p:
                return v
            return x.with_(p[0], go(x.f[p[0]], p[1:]))
        self.en.write(h, go(cur, path))

    def created(self):
        return self.en.gh('trace')

    def text(self, h):
        return self.en.gh('trace')

    def draws(self):
        return self.en.gh('u'), self.en.gh('g'), self.en.gh('n')

    def reset_draws(self):
        for k in 'ugn':
            self.en.ghset(k, ic(0))


class Unit:
    """override pre / run / post"""
    name = ''
    fns = ()            # functions under contract in this unit
    props = ()          # properties whose statement this contract carries
    needs = ()          # names of the contracts of callees that are assumed here
    contracts = {}
    timeout = 300       # proof budget (s)
    item_timeout = 60
    side = True         # also prove the engine's own obligations
    draws = 0
    unfold = False      # may the definition of the rotation be used
    samples = 60
    tol = 1e-5          # relative tolerance when an ensures is evaluated on real outputs
    trials = True

    def pre(self, S):
        raise NotImplementedError

    def run(self, X, I):
        raise NotImplementedError

    def post(self, I, O):
        raise NotImplementedError

    def lemmas(self, I, O):
        """extra hypotheses: instances of lemmas proved elsewhere"""
        return []


class In:
    """inputs of a unit: named symbolic values and requires"""

    def __init__(self, prog):
        self.prog = prog
        self.sh = Shapes(prog)
        self.hyps = []
        self.v = {}

    def require(self, *hs):
        self.hyps.extend(hs)

    def __getattr__(self, k):
        if k in ('v', 'hyps', 'sh', 'prog'):
            raise AttributeError(k)
        return self.v[k]


def prove_unit(U, prog, tier='quick', log=None):
    """-> list of Items (dicts)"""
    items = []
    t0 = time.time()
    I = In(prog)
    fnn = '+'.join('::'.join(k) for k in U.fns)
    try:
        U.pre(I)
        X = getattr(U, 'sym', Sym)(U, prog, dict(U.contracts), I.hyps, U.timeout)
        U.en = X.en
        outs = U.run(X, I)
        en = X.en
        O = {k: (en.val(v) if not isinstance(v, (tuple, list)) else v) for k, v in outs.items()}
        posts = U.post(I, O)
        lem = U.lemmas(I, O)
    except (Unsupported, Budget, NeedSplit) as e:
        it = Item(U.name + '#exec', 'exec', fnn)
        it.status, it.why, it.t = 'unsupported', '%s: %s' % (type(e).__name__, e), time.time() - t0
        return [it.d()], {'inlined': [], 'assumed': []}
    except Dead as e:
        it = Item(U.name + '#exec', 'exec', fnn)
        it.status, it.why = 'unknown' if getattr(U, 'mild', False) else 'failed', 'the function cannot return normally from any state that satisfies its requires (%s)' % e
        try:
            side = [sided(U, o) for o in X.en.obl] if U.side else []
            run_items([x for x in side], U, t0)
            return [it.d()] + [x[0].d() for x in side], {'inlined': [], 'assumed': []}
        except Exception:
            return [it.d()], {'inlined': [], 'assumed': []}
    except RecursionError:
        it = Item(U.name + '#exec', 'exec', fnn)
        it.status, it.why, it.t = 'unsupported', 'recursion', time.time() - t0
        return [it.d()], {'inlined': [], 'assumed': []}
    except Exception as e:
        it = Item(U.name + '#exec', 'exec', fnn)
        it.status, it.why, it.t = 'unsupported', 'internal: ' + traceback.format_exc()[-700:], time.time() - t0
        return [it.d()], {'inlined': [], 'assumed': []}
    work = []
    hy = list(I.hyps) + list(en.pc[:]) + list(lem)
    # vacuity: the requires (and path) must be satisfiable: shown by a concrete model
    derived, suff, soft, aux = [], [], [], []
    for nm, goal, *opt in posts:
        opt = opt[0] if opt else {}
        it = Item('%s#%s' % (U.name, nm), 'ensures', fnn)
        if opt.get('derived'):
            derived.append((it, hy, goal))
            continue
        if opt.get('sufficient'):
            it.kind = 'sufficient'
            suff.append(it)
        if opt.get('soft'):
            soft.append(it)
        if opt.get('aux'):
            aux.append(it)
        work.append((it, hy, goal))
    if U.side:
        sd = [sided(U, o) for o in en.obl if o.kind != 'ensures']
        work += sd
        if U.side == 'aux':
            aux += [x[0] for x in sd]
    # ensures of workers, stated where they end
    for o in en.obl:
        if o.kind == 'ensures':
            work.append(sided(U, o))
            aux.append(work[-1][0])
    run_items(work, U, t0)
    # an ensures that follows from the sufficient conditions; those are not part of the property, so
    # one that does not hold leaves the ensures undecided
    for it in suff:
        if it.status != 'proved':
            it.why = '%s (sufficient condition, not the property itself): %s' % (it.status, it.why)
            it.status, it.model = 'unknown', None
    for it in soft:
        # the argument depends on how the loop is written: an undischarged one is left to the real runs
        if it.status == 'failed':
            it.status = 'unknown'
    for it in aux:
        # a witness or shape read off the way the code is written: undischarged, it decides nothing; but a
        # concrete state in which what the code does is not what is stated is a violation
        if it.status != 'proved' and not (it.status == 'refuted' and it.kind in ('ensures', 'requires', 'bounds', 'panic')):
            it.why = '%s (its witness depends on how the code is written): %s' % (it.status, it.why)
            it.status, it.model = 'unknown', None
    for it, hy_, goal in derived:
        okd = all(x.status == 'proved' for x in suff)
        it.status = 'proved' if okd else 'unknown'
        it.why = '' if okd else 'follows from the sufficient conditions, of which some are undischarged'
        work.append((it, hy_, goal))
    # vacuity guard
    v = Item(U.name + '#requires-satisfiable', 'vacuity', fnn)
    m, n = find_model(list(I.hyps), seed=1, tries=80)
    v.status = 'proved' if m is not None else 'unknown'
    v.why = '' if m is not None else 'no concrete state satisfying the requires was found'
    items = [w[0] for w in work] + [v]
    if hasattr(U, 'sym') or U.side == 'aux':
        # nor may the contracts and invariants assumed on the way contradict each other
        w = Item(U.name + '#assumptions-consistent', 'vacuity', fnn)
        r = Prover(hy, 20).prove(FALSE)
        w.status, w.why = ('unknown', 'what is assumed along the execution is contradictory') if r.status == 'proved' else ('proved', '')
        items.append(w)
    return [i.d() for i in items], {'inlined': sorted(en.inlined), 'assumed': sorted(str(x) for x in en.assumed),
                                    'trivial': getattr(en, 'count_trivial', 0)}


def sided(U, o):
    it = Item('%s/%s:%s#%s' % (U.name, o.file, o.line, o.name if o.kind == 'ensures' else o.kind), o.kind, o.fn, o.line)
    return (it, o.hyps, o.goal)


def run_items(work, U, t0):
    for it, hy, goal in work:
        if time.time() - t0 > U.timeout:
            it.status, it.why = 'unknown', 'time budget of the unit'
            continue
        t = time.time()
        try:
            for g in (goal.gs if isinstance(goal, Alt) else [goal]):
                if isinstance(goal, Alt) and g is not goal.gs[0] and refute(hy, g, seed=1, tries=20, timeout=2)[0] is not None:
                    continue    # this alternative is false
                r = Prover(hy, min(U.item_timeout, max(1, U.timeout - (time.time() - t0))), unfold=U.unfold).prove(g)
                it.status, it.why = r.status, r.why
                if r.status == 'proved':
                    break
        except Exception as e:
            it.status, it.why = 'unknown', 'internal: ' + traceback.format_exc()[-500:]
        if it.status != 'proved':
            try:
                m, n = refute(hy, goal_term(goal), seed=1, tries=400, timeout=10)
                if m is not None:
                    it.status = 'refuted'
                    it.model = dump_model(m)
                elif it.status == 'failed':
                    it.why += ' [no counter-model in %d samples]' % n
            except Exception as e:
                it.why += ' refuter: %r' % e
        it.t = time.time() - t


def dump_model(m, lim=60):
    return {'%s(%s)' % (k[0], ','.join('%g' % x if isinstance(x, (int, float)) else str(x) for x in k[1:])): (v if not isinstance(v, float) else float('%.6g' % v))
            for k, v in list(m.vals.items())[:lim]}


def find_model(hyps, seed=1, tries=200):
    rng = random.Random(seed)
    n = 0
    for _ in range(tries):
        m = Model(random.Random(rng.random()))
        n += 1
        try:
            if all(m.ev(h) for h in hyps):
                return m, n
        except (EvalError, OverflowError, ZeroDivisionError):
            continue
    return None, n


def trace_eq(a, b):
    """equality of two event sequences (under the conditions inside them) as a formula;
    consecutive writes to one file are compared as one text"""
    a, b = tuple(a), tuple(b)
    for x, y in ((a, b), (b, a)):
        if x and x[0][0] == 'if':
            _, c, p, q = x[0]
            return land(implies(c, trace_eq(tuple(p) + x[1:], y)), implies(lnot(c), trace_eq(tuple(q) + x[1:], y)))
        if x and x[0][0] == 'ev' and x[0][1][0] == 'write':
            f, parts = x[0][1][1:]
            z = tuple(rep_text(f, at) if at[:1] == ('rep',) else ('wr', f, at) for at in text_atoms(parts)) + x[1:]
            return trace_eq(z, y) if x is a else trace_eq(y, z)
        if x and x[0][0] == 'wr' and x[0][2] == '':
            return trace_eq(x[1:], y) if x is a else trace_eq(y, x[1:])
    if not a and not b:
        return TRUE
    if not a or not b:
        # only repetitions of nothing are left
        r = a or b
        if r[0][0] == 'rep':
            i = bvar('e')
            return land(forall(i, ic(0), r[0][1], trace_eq(seglist(r[0][2](i)), ())), trace_eq(r[1:], ()))
        return FALSE
    x, y = a[0], b[0]
    if x[0] == 'wr' and y[0] == 'wr':
        same_f = data_eq(x[1], y[1])
        p, q = x[2], y[2]
        if isinstance(p, str) and isinstance(q, str):
            n = min(len(p), len(q))
            if p[:n] != q[:n]:
                return FALSE
            return land(same_f, trace_eq((('wr', x[1], p[n:]),) + a[1:], (('wr', y[1], q[n:]),) + b[1:]))
        if isinstance(p, str) or isinstance(q, str):
            return FALSE
        return land(same_f, data_eq(p, q), trace_eq(a[1:], b[1:]))
    if x[0] == 'ev' and y[0] == 'ev':
        return land(data_eq(x[1], y[1]), trace_eq(a[1:], b[1:]))
    if x[0] == 'rep' and y[0] == 'rep':
        i = bvar('e')
        return land(eq(x[1], y[1]), forall(i, ic(0), x[1], trace_eq(seglist(x[2](i)), seglist(y[2](i)))), trace_eq(a[1:], b[1:]))
    if x[0] == 'rep' or y[0] == 'rep':
        raise Unsupported('event sequences of different shape')
    return FALSE


def rep_text(f, at):
    """a repeated part of a text, as repeated writes"""
    return ('rep', at[1], lambda i: (('ev', ('write', f, at[2](i))),))


def text_atoms(parts):
    """literal strings and ('arg', value, spec) / ('sym', name)"""
    out = []
    for p in parts:
        if isinstance(p, tuple) and p[0] == 'arg' and isinstance(p[1], StrV) and p[2] == '':
            out += text_atoms(p[1].parts)
        elif isinstance(p, tuple) and p[0] == 'lit':
            out.append(p[1])
        elif isinstance(p, tuple) and p[0] == 'ite':
            raise Unsupported('conditional text')
        else:
            out.append(p)
    return out


def trace_filter(segs, kinds):
    out = []
    for s in segs:
        if s[0] == 'ev':
            if s[1][0] in kinds:
                out.append(s)
        elif s[0] == 'if':
            x, y = trace_filter(s[2], kinds), trace_filter(s[3], kinds)
            if x or y:
                out.append(('if', s[1], x, y))
        else:
            i = bvar('e')
            if trace_filter(seglist(s[2](i)), kinds):
                out.append(('rep', s[1], (lambda g: lambda k: trace_filter(seglist(g(k)), kinds))(s[2])))
    return tuple(out)


def text_eq(x, y):
    """equality of two StrV"""
    return trace_eq((('ev', ('write', 'f', x.parts)),), (('ev', ('write', 'f', y.parts)),))


# -- the same on texts that the real code wrote
def render(m, parts, env=None):
    """text under a model as a list of str and numbers"""
    out = []
    for p in text_atoms(parts):
        if isinstance(p, str):
            out.append(p)
        elif p[0] == 'sym':
            out.append(m.vals[('str', p[1])])
        elif p[0] == 'any':
            out.append(m.vals[(p[1],)])
        elif p[0] == 'rep':
            for k in range(m.ev(p[1])):
                out += render(m, p[2](ic(k)))
        elif p[0] == 'arg' and isinstance(p[1], T) and p[1].s == I:
            out.append(str(m.ev(p[1])))
        elif p[0] == 'arg' and isinstance(p[1], T) and p[1].s == R:
            out.append(float(m.ev(p[1])))
        else:
            raise EvalError('text')
    return out


def render_trace(m, segs, files=None):
    out = []
    for s in segs:
        if s[0] == 'ev':
            if s[1][0] == 'write':
                out += render(m, s[1][2])
        elif s[0] == 'if':
            out += render_trace(m, s[2] if m.ev(s[1]) else s[3])
        else:
            for k in range(m.ev(s[1])):
                out += render_trace(m, seglist(s[2](ic(k))))
    return out


def text_matches(toks, text, tol):
    """real text against expected tokens: literals exactly, numbers within a tolerance"""
    pos = 0
    for k, t in enumerate(toks):
        if isinstance(t, str):
            if not text.startswith(t, pos):
                return False
            pos += len(t)
        else:
            mm = NUM.match(text, pos)
            if not mm:
                return False
            v = float(mm.group(0).replace('inf', 'inf'))
            if not abs(v - t) <= tol * (1 + abs(t)):
                return False
            pos = mm.end()
    return pos == len(text)


import re as _re
NUM = _re.compile(r'[-+]?(?:NaN|inf|[0-9]+(?:\.[0-9]*)?(?:e[-+]?[0-9]+)?)')


class ConcText:
    """text of a file after a real run"""

    def __init__(self, name):
        self.name = name

    def matches(self, segs, tol=1e-6):
        def f(m):
            got = m.vals.get((self.name,))
            if got is None:
                return not render_trace(m, segs)
            return text_matches(render_trace(m, segs), got, tol)
        return pycond(f)


class ConcFiles:
    """names of the files that a real run left in its (empty) directory"""

    def __init__(self, name):
        self.name = name

    def are(self, *opt):
        """opt: (condition, StrV)"""
        def f(m):
            want = sorted(''.join(str(x) for x in render(m, s.parts)) for c, s in opt if m.ev(c))
            return sorted(m.vals[(self.name,)]) == want
        return pycond(f)


def files_are(tr, *opt):
    """the run created exactly these files (condition, path), in this order"""
    if isinstance(tr, ConcFiles):
        return tr.are(*opt)
    segs = tuple(('if', c, (('ev', ('create', s)),), ()) for c, s in opt)
    return trace_eq(trace_filter(tr.segs, ('create',)), segs)


def text_is(tr, segs):
    """the run wrote exactly this"""
    if isinstance(tr, ConcText):
        return tr.matches(segs)
    return trace_eq(trace_filter(tr.segs, ('write',)), segs)


def seglist(x):
    return x.segs if isinstance(x, TraceV) else tuple(x)


def data_eq(x, y):
    if isinstance(x, (tuple, list)) and isinstance(y, (tuple, list)):
        return land(*[data_eq(p, q) for p, q in zip(x, y)]) if len(x) == len(y) else FALSE
    if isinstance(x, str) or isinstance(y, str):
        return TRUE if x == y else FALSE
    if isinstance(x, T) and isinstance(y, T):
        return eq(x, y) if x.s == y.s else FALSE
    if isinstance(x, StrV) and isinstance(y, StrV):
        return text_eq(x, y)
    return eq_vals(x, y)


# ---------------------------------------------------------------- shorthand for specifications
HALF = rc(Fr(1, 2))


def add(*x):
    return radd(*x)


def vadd(*vs):
    return [radd(*c) for c in zip(*vs)]


def vsub(a, b):
    return [rsub(x, y) for x, y in zip(a, b)]


def smul(k, a):
    return [rmul(k, x) for x in a]


def had(j, s):
    return [rmul(x, y) for x, y in zip(j, s)]


def Sum(lo, hi, f):
    b = bvar('n')
    return mk('sum', (b, lo, hi, f(b)), R)


def Forall(lo, hi, f):
    b = bvar('n')
    return mk('forall', (b, lo, hi, f(b)), B)


def veq(a, b):
    return land(*[eq(x, y) for x, y in zip(a, b)])


def unit_vec(v):
    return eq(norm2(v), ONE)
