"""Bounded runs of the real command functions (src/obs.rs, src/writers.rs).

The crate is built from /repo's own text: main.rs (its main renamed), obs.rs, writers.rs,
macros.rs, config.rs and spin.rs are copied as they are; in spinchain*.rs the bodies of the
state-changing functions, of the energies and of the log functions are replaced by recording
stand-ins (harness/mock/mk.rs), everything else in those files stays.  A run is one process
in its own scratch directory; what the command did is read off the recorded events, the
files it wrote and the configuration it left, and compared with the contract."""
import json
import os
import random
import re
import shutil
import struct
import subprocess
import tempfile
import time
from .rparse import lex
from .verify import load

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M64 = (1 << 64) - 1
SC, SL = 'SpinChain', 'SpinChainLangevin'
OPS = {'metropolis_update', 'metropolis_update_maglab', 'metropolis_update_rot_magnus', 'metropolis_update_mag_full', 'metropolis_update_magnus', 'update', 'update_no_field'}
OBS = {'total_energy', 'total_energy2', 'system_energy', 'mc_total_energy', 'mc_system_energy', 'mc_system_energy_rot', 'mc_system_energy_maglab', 'boundary_term'}
LOGS = {'log', 'log_ext', 'log_fft'}
FIELDS = {'j_couple', 'static_h', 'spins', 't', 'vars', 'file', 'gamma'}


# threads other than the command's own write their first lines slowly, so that a command that does not wait for them is seen
SLOW = '''
static SLOW_LINES__: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
#[allow(unused_macros)]
macro_rules! writeln {
    ($($a:tt)*) => {{
        if std::thread::current().name() != Some("main") && crate::SLOW_LINES__.fetch_add(1, std::sync::atomic::Ordering::Relaxed) < 2000 {
            std::thread::sleep(std::time::Duration::from_millis(2));
        }
        std::writeln!($($a)*)
    }};
}
'''


class NoHarness(Exception):
    pass


def f2h(x):
    return '%x' % struct.unpack('<Q', struct.pack('<d', float(x)))[0]


def h2f(s):
    return struct.unpack('<d', struct.pack('<Q', int(s, 16)))[0]


# ------------------------------------------------------------- the stand-in, again
def sm(z):
    z = (z + 0x9E3779B97F4A7C15) & M64
    z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & M64
    z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & M64
    return z ^ (z >> 31)


def h3(id, n, tag):
    h = sm(((id * 0x1000003) & M64) ^ ((n * 0x9E3779B1) & M64) ^ (tag << 56))
    f = lambda x: ((x & 2047) - 1024) / 1024
    return [f(h >> 53), f(h >> 42), f(h >> 31)]


def nameh(s):
    a = 7
    for b in s.encode():
        a = sm(a ^ b)
    return a


def obs_at(id, name, ver):
    z = sm(((id * 0x1000003) & M64) ^ ((ver * 0x9E3779B1) & M64) ^ nameh(name))
    return ((z >> 40) - 8388608) / 8388608


def fit_at(name, beta):
    h = nameh(name)
    return (h & 1023) / 1024 - 0.5 - (((h >> 10) & 1023) / 1024 + 0.5) * beta / (1 + beta)


def spin_at(id, L, i, ver):
    """spin i after ver updates: update n (from 1) replaces site (n-1) mod L"""
    if ver <= i:
        return h3(id, i, 1)
    n = i + 1 + ((ver - i - 1) // L) * L
    return h3(id, n, 0)


def spins_at(id, L, ver):
    return [spin_at(id, L, i, ver) for i in range(L)]


def coup(id, L):
    return [h3(id, i, 2) for i in range(L)]


# ------------------------------------------------------------- building
def body_span(src, fn):
    toks = lex(src[fn.pos:])
    d = 0
    for i, t in enumerate(toks):
        if t.s in ('(', '['):
            d += 1
        elif t.s in (')', ']'):
            d -= 1
        elif t.s == '{' and d == 0:
            k = 0
            for u in toks[i:]:
                if u.s == '{':
                    k += 1
                elif u.s == '}':
                    k -= 1
                    if k == 0:
                        return fn.pos + t.pos, fn.pos + u.end
    raise NoHarness('no body of ' + fn.name)


def stand_in(prog, st, fn, src):
    n = fn.name
    if fn.self_kind == '&mut' and n in OPS and not fn.params and fn.ret is None:
        tick = ' self.t += self.vars.dt;' if n.startswith('update') else ''
        return ('{ let v__ = self.mk__.op("%s", self.vars.beta); let l__ = self.spins.len(); let k__ = self.mk__.next_site(l__); self.spins[k__].dir = crate::mk::h3(self.mk__.id, v__, 0);%s }' % (n, tick))
    if fn.self_kind == '&' and n in OBS and not fn.params:
        return '{ self.mk__.obs("%s", self.vars.beta) }' % n
    if fn.self_kind == '&' and n in ('m', 'm_tot') and not fn.params:
        lim = 'self.vars.ssize as usize' if n == 'm' else 'self.spins.len()'
        zero = ' if crate::mk::FIT.load(std::sync::atomic::Ordering::Relaxed) == 2 { return [0.0; 3]; }' if n == 'm_tot' else ''
        return '{ self.mk__.note("%s");' % n + zero + ' let mut r__ = [0.0f64; 3]; for s__ in self.spins.iter().take(%s) { for k__ in 0..3 { r__[k__] += s__.dir[k__]; } } r__ }' % lim
    if n in LOGS and fn.self_kind and not fn.params:
        return '{ self.mk__.log("%s", self.t); }' % n
    if n == 'new' and not fn.self_kind:
        cf = num = None
        others = {}
        for p, ty in fn.params:
            if p.k != 'pid':
                raise NoHarness('parameters of new')
            nm = p.name
            tn = ty.segs[-1] if ty.k == 'path' else None
            if tn == 'Config':
                cf = nm
            elif tn == 'usize':
                num = nm
            else:
                others[nm] = tn
        if cf is None or num is None:
            raise NoHarness('parameters of new')
        out = ['mk__: mk__']
        from .shapes import Shapes
        for f in Shapes(prog).fields(st):
            fname, ty = f[0], f[1]
            g = lambda tag: '(0..L__).map(|i__| crate::mk::h3(mk__.id, i__ as u64, %d))' % tag
            txt = None
            if ty.k == 'path' and ty.segs[-1] == 'Vec' and ty.g:
                e = ty.g[0]
                if e.k == 'path' and e.segs[-1] == 'Spin':
                    txt = g(1).replace('.map(|i__| ', '.map(|i__| { let mut s__ = Spin::new(); s__.dir = ')[:-1] + '; s__ }).collect()'
                elif e.k == 'array':
                    txt = g(2 if fname == 'j_couple' else 3) + '.collect()'
            elif ty.k == 'path' and ty.segs[-1] == 'Config':
                txt = '%s.clone()' % cf
            elif ty.k == 'path' and ty.segs[-1] == 'Option':
                txt = 'None'
            elif ty.k == 'path' and ty.segs[-1] == 'File':
                txt = 'std::fs::File::create("/dev/null").unwrap()'
            elif fname == 't':
                txt = '-%s.trel' % cf
            elif fname in others:
                txt = fname
            if txt is None or fname not in FIELDS:
                raise NoHarness('field %s of %s' % (fname, st))
            out.append('%s: %s' % (fname, txt))
        return ('{ let L__ = %s.hsize as usize; let mk__ = crate::mk::Mk::new(%s, &toml::to_string(&%s).unwrap(), %d); %s { %s } }'
                % (cf, num, cf, 1 if st == SL else 0, st, ', '.join(out[1:] + out[:1])))
    return None


def mock_source(root, prog, st, f):
    src = open('%s/src/%s' % (root, f)).read()
    edits = []
    for key, fn in prog.fns.items():
        if key[0] != st or fn.d.get('file') != f:
            continue
        b = stand_in(prog, st, fn, src)
        if b is not None:
            i, j = body_span(src, fn)
            edits.append((i, j, b))
    toks = lex(src)
    ok = False
    for a, b, c in zip(toks, toks[1:], toks[2:]):
        if a.s == 'struct' and b.s == st and c.s == '{':
            edits.append((c.end, c.end, '\n    pub mk__: crate::mk::Mk,'))
            ok = True
    if not ok:
        raise NoHarness('struct ' + st)
    for i, j, b in sorted(edits, reverse=True):
        src = src[:i] + b + src[j:]
    return src


ARMS = {
    'conf': '"{n}" => {{ obs::{n}(&mut conf); }}',
    'gamma': '"{n}" => {{ obs::{n}(&mut conf, b(&a[4])); }}',
    'estim': '"{n}" => {{ let r = obs::{n}(&mut conf, b(&a[4])); res.push(w(r)); }}',
    'hist': '"{n}" => {{ obs::{n}(&mut conf, a[5].parse().unwrap()); }}',
    'taus': '"{n}" => {{ obs::{n}(a[6].split(\',\').map(|x| x.parse().unwrap()).collect(), a[5].parse().unwrap(), &mut conf); }}',
    'find': '"{n}" => {{ let r = obs::{n}(&mut conf); res.push(w(r)); }}',
    'writer': '"{n}" => {{ let (tx, rx) = std::sync::mpsc::channel::<String>(); let h = writers::{n}(std::fs::File::create("o.dat").unwrap(), rx); let n: usize = a[5].parse().unwrap(); for k in 0..n {{ if k == n / 2 {{ std::thread::sleep(std::time::Duration::from_millis(30)); }} let _ = tx.send(format!("{{}} {{}}", k, k % 7)); }} drop(tx); h.join().unwrap(); }}',
    'obs4': '"{n}" => {{ let r = obs::{n}(&mut conf); for x in r.iter() {{ res.push(w(*x)); }} }}',
}
KINDS = {'run_sim': 'conf', 'run_ext': 'conf', 'run_sim_response': 'conf', 'run_langevin': 'gamma', 'run_dyn_profile': 'conf', 'run_mc': 'conf', 'run_mc_magnus': 'conf', 'run_mc_profile': 'conf',
         'average': 'conf', 'two_point_average': 'conf'}
KINDS.update({n: 'estim' for n in ('estim_e', 'estim_e2', 'estim_eh', 'estim_e_rot', 'estim_e_maglab')})
KINDS.update({n: 'find' for n in ('find_beta', 'find_beta2', 'find_betah', 'find_beta_rot', 'find_beta_maglab')})
KINDS.update({n: 'hist' for n in ('gen_hist', 'gen_hist_magnus', 'gen_hist_dynamics', 'gen_single_traj')})
KINDS.update({'trajectory_mean_e': 'find', 'run_tau': 'taus'})
KINDS['write_in_bg'] = 'writer'
KINDS.update({n: 'obs4' for n in ('get_obs', 'get_obsh', 'get_obs_rot', 'get_obs_maglab')})


def sig_ok(fn, kind):
    def t(x):
        if x is None:
            return '()'
        if x.k == 'ref':
            return '&' + ('mut ' if x.mut else '') + t(x.t)
        if x.k == 'path' and x.segs[-1] == 'Vec' and x.g:
            return 'Vec<%s>' % t(x.g[0])
        if x.k == 'path':
            return x.segs[-1]
        if x.k == 'array':
            return '[%s]' % t(x.t)
        return x.k
    ps = [t(x[1]) for x in fn.params]
    r = t(fn.ret)
    return (ps, r) in {'conf': [(['&mut Config'], '()')], 'gamma': [(['&mut Config', 'f64'], '()')], 'estim': [(['&mut Config', 'f64'], 'f64')],
                       'find': [(['&mut Config'], 'f64')], 'hist': [(['&mut Config', 'usize'], '()')], 'taus': [(['Vec<f64>', 'u32', '&mut Config'], '()')], 'obs4': [(['&mut Config'], '[f64]')], 'writer': [(['File', 'Receiver'], 'JoinHandle')]}[kind]


class ObsHarness:
    def __init__(self, root, prog=None):
        self.root = root
        self.prog = prog or load(root)
        self.keep = os.environ.get('SCV_OBS_DIR')
        self.dir = self.keep or tempfile.mkdtemp(prefix='scv-ob-')
        self.err = ''
        self.fns = {}

    def build(self):
        try:
            return self._build()
        except NoHarness as e:
            self.err = str(e)
            return False

    def _build(self):
        d, root, prog = self.dir, self.root, self.prog
        for x in ('src', 'sc/src'):
            if os.path.exists('%s/%s' % (d, x)):
                shutil.rmtree('%s/%s' % (d, x))
            os.makedirs('%s/%s' % (d, x))
        self.manifest('mockrun')
        for f in os.listdir(root + '/src'):
            p = '%s/src/%s' % (root, f)
            if os.path.isdir(p):
                shutil.copytree(p, '%s/src/%s' % (d, f))
                shutil.copytree(p, '%s/sc/src/%s' % (d, f))
                continue
            if f in ('build.rs', 'lib.rs'):
                continue
            txt = open(p).read()
            if f == 'main.rs':
                toks = lex(txt)
                at = [b.pos for a, b, c in zip(toks, toks[1:], toks[2:]) if a.s == 'fn' and b.s == 'main' and c.s == '(']
                if len(at) != 1:
                    raise NoHarness('fn main')
                txt = txt[:at[0]] + 'original_main__' + txt[at[0] + 4:]
                i = 0
                while [t.s for t in toks[i:i + 3]] == ['#', '!', '[']:
                    while toks[i].s != ']':
                        i += 1
                    i += 1
                txt = txt[:toks[i].pos] + SLOW + txt[toks[i].pos:]
                arms = []
                for n, k in KINDS.items():
                    fn = prog.fns.get(('writers' if k == 'writer' else 'obs', n))
                    if fn is not None and sig_ok(fn, k):
                        arms.append('            ' + ARMS[k].format(n=n))
                        self.fns[n] = fn
                txt += open(HERE + '/harness/mock/dispatch.rs').read().replace('/*ARMS*/', '\n'.join(arms))
            open('%s/src/%s' % (d, f), 'w').write(txt)
            if f not in ('main.rs', 'obs.rs', 'writers.rs'):
                if f == 'spinchain.rs':
                    txt = mock_source(root, prog, SC, f)
                elif f == 'spinchain_langevin.rs':
                    txt = mock_source(root, prog, SL, f)
                open('%s/sc/src/%s' % (d, f), 'w').write(txt)
        open(d + '/sc/src/lib.rs', 'w').write(open(root + '/src/lib.rs').read() + '\npub mod mk;\n')
        shutil.copy(HERE + '/harness/mock/mk.rs', d + '/sc/src/mk.rs')
        return self.cargo('mockrun')

    def manifest(self, name):
        d, root = self.dir, self.root
        ct = open(root + '/Cargo.toml').read()
        deps = ct.split('[dependencies]')[1].split('\n[')[0]
        edition = re.search(r'^edition\s*=\s*"(\d+)"', ct, re.M)
        edition = edition.group(1) if edition else '2018'
        head = '[package]\nname = "%s"\nversion = "0.1.0"\nedition = "' + edition + '"\n'
        prof = '[profile.dev]\ndebug = 0\nopt-level = 2\n[profile.dev.package."*"]\nopt-level = 0\n[profile.dev.package.sc]\nopt-level = 2\n[profile.dev.build-override]\nopt-level = 0\n'
        open(d + '/Cargo.toml', 'w').write(head % name + '[workspace]\nmembers = ["sc"]\n[dependencies]\n' + deps + '\nsc = { path = "sc" }\n' + prof)
        open(d + '/sc/Cargo.toml', 'w').write(head % 'sc' + '[dependencies]\n' + deps + '\n')
        if os.path.exists(root + '/Cargo.lock') and not os.path.exists(d + '/Cargo.lock'):
            shutil.copy(root + '/Cargo.lock', d + '/Cargo.lock')

    def cargo(self, name):
        d = self.dir
        env = dict(os.environ)
        for k in ('RUSTFLAGS', 'CARGO_TARGET_DIR', 'RUSTC_WRAPPER'):
            env.pop(k, None)
        env.update(CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', CARGO_TARGET_DIR=d + '/target', PATH='/root/.cargo/bin:' + env.get('PATH', ''))
        r = subprocess.run(['cargo', 'build', '--offline', '--bin', name], cwd=d, env=env, capture_output=True, text=True)
        if r.returncode:
            self.err = r.stderr[-3000:]
            return False
        self.exe = d + '/target/debug/' + name
        return True

    def close(self):
        if not self.keep:
            shutil.rmtree(self.dir, ignore_errors=True)

    def run(self, tr, timeout=100):
        """tr: {fn, mode, arg, conf, files} -> Res"""
        d = tempfile.mkdtemp(prefix='scv-or-')
        try:
            os.makedirs(d + '/cwd')
            open(d + '/in.toml', 'w').write(conf_toml(tr['conf']))
            open(d + '/cwd/config.toml', 'w').write('')
            for n, t in tr.get('files', {}).items():
                open('%s/cwd/%s' % (d, n), 'w').write(t)
            cmd = [self.exe, tr['fn'], d, tr.get('mode', 'plain')] + ([f2h(tr.get('arg', 0.0))] + [str(x) for x in tr.get('more', [])])
            try:
                p = subprocess.run(cmd, cwd=d + '/cwd', stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL, timeout=timeout)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                return Res(tr, 'timeout')
            if os.path.exists(d + '/panic'):
                return Res(tr, 'panicked: ' + open(d + '/panic').read()[:300])
            if rc != 0 or not os.path.exists(d + '/events'):
                return Res(tr, 'exit code %r' % rc)
            r = Res(tr, None)
            r.parse(open(d + '/events').read())
            r.conf_after = toml_conf(open(d + '/conf_after.toml').read())
            for n in sorted(os.listdir(d + '/atret')):
                r.files[n] = open('%s/atret/%s' % (d, n), errors='replace').read()
            return r
        finally:
            shutil.rmtree(d, ignore_errors=True)


class Chain:
    def __init__(self, id, num, kind, conf):
        self.id, self.num, self.kind, self.conf = id, num, kind, conf
        self.ev = []          # ('P', op, count, beta) ('O', name, ver) ('L', name, ver, t)
        self.L = conf['hsize']

    def nops(self, pre=''):
        return sum(e[2] for e in self.ev if e[0] == 'P' and e[1].startswith(pre))

    def spins(self, ver):
        return spins_at(self.id, self.L, ver)

    def m(self, ver):
        s = self.spins(ver)[:self.conf['ssize']]
        return [sum(x[k] for x in s) for k in range(3)]

    def profile(self, ver):
        s, j, L = self.spins(ver), coup(self.id, self.L), self.L
        out = []
        for i in range(L):
            e = -0.5 * sum(s[i - 1][k] * j[i - 1][k] * s[i][k] + s[i][k] * j[i][k] * s[(i + 1) % L][k] for k in range(3))
            out.append([e] + s[i])
        return out


class Res:
    def __init__(self, tr, err):
        self.tr, self.err = tr, err
        self.chains, self.result, self.files, self.conf_after, self.late = {}, [], {}, None, 0

    def parse(self, txt):
        for l in txt.split('\n'):
            w = l.split()
            if not w:
                continue
            if w[0] == 'X':
                self.late += 1
            elif w[0] == 'N':
                conf = toml_conf(bytes.fromhex(w[4]).decode())
                self.chains[int(w[1])] = Chain(int(w[1]), int(w[2]), int(w[3]), conf)
            elif w[0] == 'P':
                self.chains[int(w[1])].ev.append(('P', w[2], int(w[3]), h2f(w[4])))
            elif w[0] == 'O':
                self.chains[int(w[1])].ev.append(('O', w[2], int(w[3])))
            elif w[0] == 'L':
                self.chains[int(w[1])].ev.append(('L', w[2], int(w[3]), h2f(w[4])))
            elif w[0] == 'R':
                self.result.append(h2f(w[1]))


def conf_toml(c):
    o = []
    for k, v in c.items():
        if isinstance(v, bool):
            o.append('%s = %s' % (k, 'true' if v else 'false'))
        elif isinstance(v, str):
            o.append('%s = %s' % (k, json.dumps(v)))
        elif isinstance(v, list):
            o.append('%s = [%s]' % (k, ', '.join(repr(float(x)) for x in v)))
        else:
            o.append('%s = %r' % (k, v))
    return '\n'.join(o) + '\n'


def toml_conf(t):
    import tomllib
    return tomllib.loads(t)


_LITS = {}


def literals(root):
    """the numbers that the sources of the binary mention: drawn values are taken from around them too"""
    if root not in _LITS:
        xs = set()
        for f in ('obs', 'writers', 'main'):
            try:
                t = open('%s/src/%s.rs' % (root, f)).read()
            except OSError:
                continue
            t = re.sub(r'//[^\n]*', '', t)
            xs |= {float(x) for x in re.findall(r'(?<![\w.])(\d+(?:\.\d+)?(?:e-?\d+)?)', t)}
        _LITS[root] = sorted(xs)
    return _LITS[root]


def count(rng, lo, hi):
    """a number in lo..hi, at times next to one that the sources mention"""
    near = sorted({int(x) + d for x in getattr(rng, 'lits', ()) if x == int(x) for d in (-1, 0, 1) if lo <= int(x) + d <= hi})
    if near and rng.random() < 0.4:
        return rng.choice(near)
    return rng.choice([rng.randrange(lo, hi + 1), min(hi, lo + int((hi - lo) * rng.random() ** 3))])


def real(rng, base, lo, hi):
    near = [x * g for x in getattr(rng, 'lits', ()) for g in (1, -1, 1.0625, 0.9375) if lo <= x * g <= hi]
    u = rng.random()
    return rng.choice(near) if near and u < 0.25 else round(rng.uniform(lo, hi), 4) if u < 0.5 else rng.choice(base)


# what some runs do on a larger scale: sizes beyond those a mistake of the kind "at most k" would show at
BIG = {'C16': (), 'C18': ('points', 'size'), 'C19': ('runs', 'size'), 'C21': ('size', 'runs', 'points'), 'C22': (), 'C23': ('size',), 'C25': ('runs', 'size'), 'C26': ('points',), 'C29': ('num', 'size', 'runs')}


def widen(prop, tr, rng, i):
    what = BIG.get(prop, ())
    if not what or i % 4 != 2:
        return tr
    c = tr['conf']
    k = what[(i // 4) % len(what)]
    fn = tr['fn']
    if k == 'size':
        c['hsize'] = rng.choice([258, 300, 512, 40, 2 * count(rng, 5, 260)])
        c['ssize'] = rng.choice([c['hsize'] - 1, 8, c['hsize'] // 2 + 1, count(rng, 2, c['hsize'] - 1)])
        if 'profile' in fn:
            c['mc_points'], c['runs'] = min(c['mc_points'], 3), 1
            if fn == 'run_dyn_profile':
                c['hsize'] = rng.choice([258, 300])
                c['ssize'] = min(c['ssize'], c['hsize'])
    elif k == 'points' and 'mc' in fn:
        c['mc_points'] = count(rng, 20, 60) if 'profile' in fn else count(rng, 100, 1100)
        c['threads'] = rng.choice([1, 3, 16, count(rng, 2, 40)])
    elif k == 'runs' and fn != 'run_dyn_profile' and (prop != 'C29' or fn == 'trajectory_mean_e'):
        c['runs'], c['threads'] = count(rng, 9, 40), rng.choice([1, 2, 7, 50])
        if prop == 'C19':
            c['offset'] = rng.choice([c['offset'], count(rng, 100, 70000)])
    elif k == 'num' and fn in HISTS[:4]:
        tr['num'] = count(rng, 9, 130)
        tr['more'] = [tr['num']] + tr['more'][1:]
    return tr


def base_conf(rng):
    L = rng.choice([4, 6, 8])
    return dict(hsize=L, ssize=rng.randrange(2, L + 1), t=1.0, dt=0.25, runs=1, trel=0.0, threads=rng.randrange(1, 5), tau=rng.choice([1.0, 2.0, 4.0]), mc_points=2,
                beta=rng.choice([0.5, 1.25, 2.0, real(rng, [2.88], 0.02, 30.0)]), ednsty=-0.5, offset=rng.choice([0, 3, 17]), file='log', log=False, strob=rng.random() < 0.5,
                **{'lambda': rng.choice([1.0, 0.5, 0.0, -0.75])}, hs=rng.choice([[0.0, 0.0, 0.25], [1.0, 0.0, -0.5]]), hfield=rng.choice([[0.5, 0.0, 0.0], [0.25, -0.125, 2.0]]), jvar=rng.choice([0.0, 0.001, 0.25]), hvar=rng.choice([0.0, 0.5]), e=rng.choice([0.5, 0.0]),
                drive=rng.choice(['none', 'xyplane', 'uniaxial', 'xyelliptic', 'staticfield']))


# ------------------------------------------------------------- contracts
def close(a, b, tol=1e-9):
    return a == a and b == b and abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def given(x, c, but=(), **other):
    """the chain was made with the configuration c, up to `other` and not looking at `but`"""
    for k, v in {**c, **other}.items():
        if k not in but and k in x.conf and x.conf[k] != v:
            return 'chain with the given configuration', 'chain %d has %s = %r, stated %r' % (x.id, k, x.conf[k], v)
    return None


def g16(rng, i):
    fn = ['find_beta', 'find_beta2', 'find_betah', 'find_beta_rot', 'find_beta_maglab'][i % 5]
    c = base_conf(rng)
    en = {'find_beta': 'mc_system_energy', 'find_beta2': 'mc_total_energy', 'find_betah': 'mc_total_energy', 'find_beta_rot': 'mc_system_energy_rot', 'find_beta_maglab': 'mc_system_energy_maglab'}[fn]
    low = 0.01 if fn in ('find_beta', 'find_beta2', 'find_betah') else 0.0001
    k = (i // 5) % 5
    tr = dict(fn=fn, mode='fit', conf=c, low=low, high=5.0)
    if k == 3:
        tr['mode'] = 'plain'          # any (not decreasing) estimates
        c['ednsty'] = rng.uniform(-0.05, 0.05)
    elif k == 4:
        c['ednsty'] = fit_at(en, rng.choice([0.0, 7.0]))     # crossing outside the bracket
    else:
        bs = [rng.uniform(4.95, 5.0), rng.uniform(low, 0.05), rng.uniform(low, 5.0)][k]
        tr['cross'] = bs
        c['ednsty'] = fit_at(en, bs)
    return tr


def c16(tr, r):
    x = r.result[0]
    if not (tr['low'] <= x <= tr['high']):
        return 'in bracket', 'returned %r, bracket [%r, %r]' % (x, tr['low'], tr['high'])
    if 'cross' in tr and abs(x - tr['cross']) > 0.001:
        return 'within 0.001 of the crossing', 'returned %r, the estimate crosses the target at %r' % (x, tr['cross'])
    if tr['fn'] == 'find_beta':
        for c in r.chains.values():
            if c.conf['ssize'] != c.conf['hsize']:
                return 'whole chain as subsystem', 'estimated with ssize %d of hsize %d' % (c.conf['ssize'], c.conf['hsize'])
    if len(r.chains) > 200:
        return 'finitely many halvings', '%d estimates' % len(r.chains)
    return None


def g18(rng, i):
    fn = ['run_mc', 'run_mc_magnus', 'run_mc_profile'][i % 3]
    c = base_conf(rng)
    k = i // 3
    c['mc_points'], c['threads'] = (1 + k % 6, 1 + k // 6) if k < 30 else (rng.randrange(1, 30), rng.randrange(1, 12))
    return dict(fn=fn, conf=c)


def c18(tr, r):
    c = tr['conf']
    P = c['mc_points']
    work = [x for x in r.chains.values() if x.nops() > 0]
    if len(r.chains) > P:
        return 'no more workers than points', '%d workers for %d points' % (len(r.chains), P)
    if tr['fn'] == 'run_mc_profile':
        lines = [l for l in r.files.get('mc_profile.dat', '').split('\n') if l.strip()]
        if len(lines) != c['hsize']:
            return 'one line per site', '%d lines for %d sites' % (len(lines), c['hsize'])
        for x in work:
            if x.nops('metropolis_update') != x.nops():
                return 'only Monte Carlo updates', repr(x.ev[:4])
        return profile_check(r, list(r.chains.values()), P, 'mc_profile.dat', exact=False)
    lines = [l.split() for l in r.files.get('mc_live.dat', '').split('\n') if l.strip()]
    if len(lines) != P:
        return 'requested number of samples', '%d lines for %d points' % (len(lines), P)
    kind = 'metropolis_update' if tr['fn'] == 'run_mc' else 'metropolis_update_mag_full'
    for x in work:
        if x.nops(kind) != x.nops():
            return 'Monte Carlo updates of the stated ensemble', '%s makes %s' % (tr['fn'], sorted({e[1] for e in x.ev if e[0] == 'P'}))
    pool = {}
    total = 0
    for x in r.chains.values():
        last = -1
        ver = 0
        for e in x.ev:
            if e[0] == 'P':
                ver += e[2]
            elif e[0] == 'O' and e[1] == 'm':
                if e[2] == last:
                    continue
                if ver == 0:
                    return 'updates before every sample', 'chain %d sampled before any update' % x.id
                last = e[2]
                m = [v / x.conf['ssize'] for v in x.m(e[2])]
                pool.setdefault(tuple('%.10f' % v for v in m), []).append((x.id, e[2], x))
                total += 1
    used = {}
    for l in lines:
        try:
            key = tuple('%.10f' % float(v) for v in l[2:5])
        except (ValueError, IndexError):
            return 'a sample per line', 'line %r' % ' '.join(l)
        if key not in pool:
            return 'a line reports a sample', 'line %r is no sampled state' % ' '.join(l)[:120]
        used[key] = used.get(key, 0) + 1
        id, v, x = pool[key][0]
        sp, S = x.spins(v), x.conf['ssize']
        want = [obs_at(id, 'total_energy2', v), obs_at(id, 'mc_system_energy', v)] + [a / S for a in x.m(v)] + list(sp[S // 4]) + list(sp[3 * S // 4])
        got = [float(a) for a in l]
        if len(got) != len(want) or not all(close(a, b) for a, b in zip(got, want)):
            return 'a line reports energies, magnetisations and spins of its sample', 'line %r, the state gives %r' % (' '.join(l), want)
    for k, n in used.items():
        if n > len(pool[k]):
            return 'every sample after updates of its own', 'the state of chain %d after %d updates is reported %d times' % (pool[k][0][0], pool[k][0][1], n)
    return None


def profile_check(r, chains, P, fname, exact=True):
    """mc profile: every sample is taken after one block; blocks are equal"""
    L = chains[0].L
    tot = sum(x.nops() for x in chains)
    if P <= 0 or tot % P:
        return 'requested number of samples', '%d updates in all for %d points' % (tot, P)
    B = tot // P
    if B == 0:
        return 'updates before every sample', 'no update at all'
    acc = [[0.0] * 4 for _ in range(L)]
    n = 0
    for x in chains:
        if x.nops() % B:
            return 'requested number of samples', 'chain %d makes %d updates, block %d' % (x.id, x.nops(), B)
        for k in range(1, x.nops() // B + 1):
            n += 1
            for i, v in enumerate(x.profile(k * B)):
                for q in range(4):
                    acc[i][q] += v[q]
    return profile_file(r, fname, acc, n)


def profile_file(r, fname, acc, n):
    L = len(acc)
    rows = [l.split() for l in r.files.get(fname, '').split('\n') if l.strip()]
    if len(rows) != L:
        return 'one line per site', '%s has %d lines for %d sites' % (fname, len(rows), L)
    for i, w in enumerate(rows):
        try:
            v = [float(a) for a in w]
        except ValueError:
            return 'one line per site', 'line %r' % ' '.join(w)
        if len(v) != 5 or v[0] != i:
            return 'one line per site', 'line %d is %r' % (i, ' '.join(w))
        for q in range(4):
            if not close(v[1 + q], acc[i][q] / n):
                return ('site energy' if q == 0 else 'site spin') + ' is the mean over the samples', '%s site %d column %d: %r, mean of the samples %r' % (fname, i, q + 1, v[1 + q], acc[i][q] / n)
    return None


def g21(rng, i):
    c = base_conf(rng)
    if i % 4 == 3:
        c['tau'], c['dt'] = rng.choice([(1.0, 0.5), (0.5, 0.25), (2.0, 0.5)])
        c['runs'] = rng.choice([1, 2, 3])
        c['trel'] = rng.choice([0.0, 4 * c['dt']])
        if i % 8 == 7:            # periods which are no multiple of the time step
            c['tau'], c['dt'], c['trel'] = rng.choice([(1.0, 0.3, 0.0), (1.1, 0.3, 0.0), (1.0, 0.3, 0.1), (0.5, 0.3, 0.1), (0.8, 0.3, 0.6)])
        return dict(fn='run_dyn_profile', conf=c)
    c['mc_points'], c['threads'] = rng.randrange(1, 8), rng.randrange(1, 5)
    return dict(fn='run_mc_profile', conf=c)


def c21(tr, r):
    c = tr['conf']
    ch = [r.chains[k] for k in sorted(r.chains)]
    if tr['fn'] == 'run_mc_profile':
        return profile_check(r, ch, c['mc_points'], 'mc_profile.dat')
    if len(ch) != c['runs']:
        return 'one chain per run', '%d chains for %d runs' % (len(ch), c['runs'])
    for cyc in range(500, 4001, 500):
        acc = [[0.0] * 4 for _ in range(c['hsize'])]
        for x in ch:
            n0 = x.nops('metropolis')
            ver = n0 + round((cyc * c['tau'] + c['trel']) / c['dt'])
            if ver > x.nops():
                return 'profiles every 500 periods', 'the run ends after %d steps' % (x.nops() - n0)
            for i, v in enumerate(x.profile(ver)):
                for q in range(4):
                    acc[i][q] += v[q]
        f = profile_file(r, 'dyn_profile-%d-tau.dat' % cyc, acc, c['runs'])
        if f:
            return f
    return None


def g19(rng, i):
    if i % 2:
        fn = SAMPLING[i // 2 % len(SAMPLING)]
        tr = g23(rng, list(EST).index(fn)) if fn in EST else g29(rng, HISTS.index(fn)) if fn in HISTS else g18(rng, ['run_mc', 'run_mc_magnus', 'run_mc_profile'].index(fn))
        tr['conf']['log'] = True
        return dict(tr, samples=True)
    i //= 2
    fn = ['run_sim', 'run_ext', 'run_langevin', 'run_sim_response', 'run_dyn_profile'][i % 5]
    c = base_conf(rng)
    c['runs'] = rng.choice([1, 2, 3, 0]) if fn != 'run_dyn_profile' else rng.choice([1, 2])
    c['offset'] = rng.randrange(0, 50)
    c['t'] = 1.0
    tr = dict(fn=fn, conf=c)
    if fn == 'run_langevin':
        tr['arg'] = 0.5
    if fn == 'run_dyn_profile':
        c['tau'], c['dt'] = 0.5, 0.25
    return tr


def c19(tr, r):
    c = tr['conf']
    if 'samples' in tr:
        for x in r.chains.values():
            if x.conf['log']:
                return 'a chain which is only sampled has no log', '%s makes the log of chain %d' % (tr['fn'], x.num)
        return None
    nums = sorted(x.num for x in r.chains.values())
    want = list(range(c['offset'], c['offset'] + c['runs']))
    if nums != want:
        return 'one index per run from the offset', 'indices %r, expected %r' % (nums, want)
    try:
        stored = toml_conf(r.files.get('config.toml', ''))
    except Exception as e:
        return 'stored configuration', 'config.toml: %r' % e
    if stored.get('offset') != c['offset'] + c['runs']:
        return 'stored offset', 'offset %r after %d runs from %d' % (stored.get('offset'), c['runs'], c['offset'])
    for k, v in c.items():
        if tr['fn'] == 'run_dyn_profile' and k == 't':
            v = 4000 * c['tau']
        if k != 'offset' and stored.get(k) != v:
            return 'otherwise unchanged', '%s stored as %r, the batch was run with %r' % (k, stored.get(k), v)
    for x in r.chains.values():
        for k in ('hsize', 'ssize', 'dt', 'tau', 'trel', 'lambda', 'hs', 'hfield', 'file', 'drive', 'beta', 'jvar', 'hvar', 'e', 'log'):
            if x.conf.get(k) != stored.get(k):
                return 'the configuration the batch was run with', '%s: run with %r, stored %r' % (k, x.conf.get(k), stored.get(k))
    return None


def g22(rng, i):
    fn = ['average', 'two_point_average'][i % 2]
    c = base_conf(rng)
    c['file'] = rng.choice(['log', 'run-', 'a'])
    nf = rng.randrange(1, 5)
    cols = rng.randrange(2, 7) if i % 10 < 8 else rng.randrange(60, 300)
    scale = rng.choice([1, 1, 1e-7, 1e7])
    step = rng.choice([0.5, 0.5, 0.1, 0.02, 1e-3])
    num = (lambda: rng.randrange(-64, 65) / 16) if i % 4 < 2 else (lambda: rng.uniform(-2, 2) * scale)
    rows = [rng.randrange(0 if fn == 'average' else 1, 6) for _ in range(nf)]
    if i < 4:
        rows = [2, 4, 3][:max(2, nf)]
        nf = len(rows)
    nums = rng.sample(range(0, 30), nf)
    files = {}
    for f in range(nf):
        n = rows[f]
        z = rng.randrange(0, n) if n else 0
        ls = ['#t E_total E_sub M_x M_y M_z'] if rng.random() < 0.5 else []
        for j in range(n):
            t = (j - z) * step + (0.0 if step == 0.5 else rng.choice([0.0, 1e-13, -3e-12]))
            ls.append(' '.join(repr(x) for x in [t] + [num() for _ in range(cols - 1)]))
        files['%s%d.dat' % (c['file'], nums[f])] = ''.join(l + '\n' for l in ls)
    files['zzz-other.dat'] = '1000.0 1000.0\n'
    return dict(fn=fn, conf=c, files=files)


def c22(tr, r):
    c = tr['conf']
    logs = []
    for n, t in tr['files'].items():
        if n.startswith(c['file']):
            logs.append([[float(x) for x in l.split()] for l in t.split('\n') if l.strip() and l[0] != '#'])
    out = 'avg.dat'
    if tr['fn'] == 'two_point_average':
        out = 'two-point.dat'
        for lg in logs:
            z = [list(l) for l in lg if abs(l[0]) < 1e-5][0]
            for l in lg:
                for k in range(1, len(l)):
                    l[k] *= z[k]
    rows = [l.split() for l in r.files.get(out, '').split('\n') if l.strip()]
    n = max([len(l) for l in logs] + [0])
    if len(rows) != n:
        return 'a line for every line number', '%s has %d lines, expected %d' % (out, len(rows), n)
    for i in range(n):
        have = [l[i] for l in logs if len(l) > i]
        mean = [sum(x[k] for x in have) / len(have) for k in range(len(have[0]))]
        got = [float(x) for x in rows[i]]
        if len(got) != len(mean) or any(not close(a, b) for a, b in zip(got, mean)):
            return 'column-wise mean over the logs with this line', '%s line %d is %r, the mean over %d logs is %r' % (out, i, got, len(have), mean)
    return None


EST = {'estim_e': ('metropolis_update', 'mc_system_energy', 'rot'), 'estim_e2': ('metropolis_update', 'mc_total_energy', None), 'estim_eh': ('metropolis_update', 'mc_total_energy', None),
       'estim_e_rot': ('metropolis_update_rot_magnus', 'mc_system_energy_rot', None), 'estim_e_maglab': ('metropolis_update_maglab', 'mc_system_energy_maglab', None),
       'get_obs': ('metropolis_update', 'mc_system_energy', 'rot'), 'get_obsh': ('metropolis_update', 'mc_system_energy', None),
       'get_obs_rot': ('metropolis_update_rot_magnus', 'mc_system_energy', 'x'), 'get_obs_maglab': ('metropolis_update_maglab', 'mc_system_energy', 'x')}


def g23(rng, i):
    fn = list(EST)[i % len(EST)]
    c = base_conf(rng)
    c['tau'] = rng.choice([0.75, 1.5, 3.25])
    if i < 2 * len(EST) and c['ssize'] == c['hsize']:
        c['ssize'] -= rng.randrange(1, 3)
    tr = dict(fn=fn, conf=c)
    if fn.startswith('estim'):
        tr['arg'] = rng.choice([0.125, 0.75, 3.5])
    return tr


def c23(tr, r):
    import math
    c = tr['conf']
    op, en, corr = EST[tr['fn']]
    beta = tr.get('arg', c['beta'])
    vers = []
    for x in r.chains.values():
        since = 0
        last = None
        for e in x.ev:
            if e[0] == 'P':
                if e[1] != op:
                    return 'updates of the matching ensemble', '%s makes %s' % (tr['fn'], e[1])
                if e[3] != beta:
                    return 'requested inverse temperature', 'updates at %r, requested %r' % (e[3], beta)
                since += e[2]
            elif e[0] == 'O':
                if e[2] == last:
                    continue
                if since == 0:
                    return 'updates between consecutive samples', 'sample %d has no update before it' % len(vers)
                since = 0
                last = e[2]
                vers.append((x, e[2]))
    if not vers:
        return 'samples', 'no observable was evaluated'
    om = 2 * math.pi / c['tau']
    es, ms = [], []
    for x, v in vers:
        if tr['fn'].startswith('get_obs') and x.conf['ssize'] != x.conf['hsize']:
            return 'whole chain as subsystem', 'ssize %d of %d' % (x.conf['ssize'], x.conf['hsize'])
        f = given(x, c, ('ssize', 'log') if tr['fn'].startswith('get_obs') else ('log',))
        if f:
            return f
        m = [q / x.conf['ssize'] for q in x.m(v)]
        e = obs_at(x.id, en, v) + (om * m[2] if corr == 'rot' else m[0] if corr == 'x' else 0.0)
        es.append(e)
        ms.append(m)
    want = [math.fsum(es) / len(es)]
    if tr['fn'].startswith('get_obs'):
        want += [math.fsum(m[k] for m in ms) / len(ms) for k in range(3)]
    if len(want) != len(r.result):
        return 'result', repr(r.result)
    for k, (a, b) in enumerate(zip(r.result, want)):
        if not close(a, b):
            return ['mean energy', 'mean x magnetisation', 'mean y magnetisation', 'mean z magnetisation'][k], 'returned %r, the mean over the %d samples is %r' % (a, len(es), b)
    return None


def g25(rng, i):
    fn = ['run_sim', 'run_langevin', 'run_ext', 'run_sim_response'][i % 4]
    c = base_conf(rng)
    dt, steps = rng.choice([(0.1, 10), (0.1, 3), (0.25, 4), (0.02, 7), (0.3, 5), (0.125, 2), (0.7, 1), (0.1, 6)])
    c['dt'] = dt
    c['tau'] = rng.choice([dt * steps, round(dt * steps, 6), dt * (steps + rng.choice([0.25, -0.25])) if steps > 1 else dt * steps])
    c['strob'] = (i // 4) % 3 != 2
    c['runs'] = 1 + (i % 7 == 3)
    n = rng.randrange(steps, 6 * steps)
    c['t'] = dt * (n + rng.choice([0.5, 0.25, 0.75]))
    c['trel'] = rng.choice([0.0, 0.0, dt * rng.randrange(1, 3 * steps + 1)]) if fn != 'run_sim_response' else 0.0
    if fn == 'run_sim_response':
        c['t'] = dt * n
    tr = dict(fn=fn, conf=c)
    if fn == 'run_langevin':
        tr['arg'] = 0.5
    return tr


def c25(tr, r):
    c = tr['conf']
    dt = c['dt']
    per = round(c['tau'] / dt)
    resp = tr['fn'] == 'run_sim_response'
    if len(r.chains) != c['runs']:
        return 'one chain per run', '%d chains for %d runs' % (len(r.chains), c['runs'])
    for x in r.chains.values():
        n = 0
        seq = []          # step numbers at which a log line is written
        t0 = -c['t'] if resp else -c['trel']
        k0 = round(t0 / dt)
        f = given(x, c)
        if f:
            return f
        exact = dt in (0.125, 0.25, 0.5)
        if not (x.ev and x.ev[0][0] == 'P' and x.ev[0][1] == 'metropolis_update'):
            return 'Monte Carlo updates before the initial state', 'chain %d starts with %r' % (x.id, x.ev[:1])
        for e in x.ev:
            if e[0] == 'P' and e[1].startswith('update'):
                a, b = k0 + n, k0 + n + e[2]            # steps starting at a dt, ..., (b - 1) dt
                if e[1] == 'update_no_field' if not resp else (b - 1 > 0 or exact and b - 1 == 0) if e[1] == 'update' else (a < 0):
                    return 'driven steps, for the response only before time zero', 'chain %d (dt %r, start %r): %s from step %d to %d' % (x.id, dt, t0, e[1], a, b)
                n += e[2]
            elif e[0] == 'P' and (n or e[1] != 'metropolis_update'):
                return 'Monte Carlo updates before the first step only', 'chain %d: %r after %d steps' % (x.id, e[1:3], n)
            elif e[0] == 'L':
                seq.append(n)
        need = (c['t'] - t0) / dt
        ends = {int(-(-need // 1))} if abs(need - round(need)) > 1e-6 else {round(need), round(need) + 1}
        if need <= 0:
            ends = {0}
        if n not in ends:
            return 'ends at the first step at or after the final time', '%d steps of %r from %r to %r' % (n, dt, t0, c['t'])
        want = [0] + [k for k in range(1, n + 1) if not c['strob'] or (k0 + k) % per == 0]
        if seq != want:
            return ('initial state once, then every whole period' if c['strob'] else 'initial state once, then every step'), 'chain %d (dt %r, tau %r, start %r): logged after steps %r, expected %r' % (x.id, dt, c['tau'], t0, seq[:20], want[:20])
    return None


HISTS = ['gen_hist', 'gen_hist_magnus', 'gen_hist_dynamics', 'gen_single_traj', 'trajectory_mean_e', 'run_tau']
SAMPLING = list(EST) + ['run_mc', 'run_mc_magnus', 'run_mc_profile'] + HISTS[:-1]
STEPS = [(1.0, 0.25, 4), (0.3, 0.1, 3), (0.5, 0.25, 2), (0.7, 0.1, 7), (0.25, 0.25, 1), (0.6, 0.2, 3)]


def g29(rng, i):
    fn = HISTS[i % 6]
    c = base_conf(rng)
    num = rng.randrange(1, 6)
    if i < 12:
        c['drive'] = 'xyplane'
    c['tau'], c['dt'], p = STEPS[(i // 6) % 6]
    c['t'], c['runs'], c['trel'] = rng.choice([3, 7, 10]) * c['tau'], rng.choice([1, 2]), 0.0
    if fn == 'gen_hist':
        c['ednsty'] = 0.0
        return dict(fn=fn, conf=c, mode='hist', more=[num], num=num)
    if fn == 'run_tau':
        taus = [rng.choice([0.5, 2.0, 5.0, 12.0]) for _ in range(rng.randrange(1, 4))]
        return dict(fn=fn, conf=c, more=[num, ','.join(repr(x) for x in taus)], num=num, taus=taus)
    return dict(fn=fn, conf=c, more=[num], num=num, p=p)


def states(x):
    """versions of a chain at which something was observed -> (Monte Carlo updates, time steps, kinds) before"""
    out, mc, dyn, kinds = {}, 0, 0, ()
    for e in x.ev:
        if e[0] == 'P':
            if e[1].startswith('update'):
                dyn += e[2]
            else:
                mc += e[2]
            kinds += (e[1],)
        elif e[0] == 'O':
            out.setdefault(e[2], (mc, dyn, kinds))
    return out


def table_lines(r, name):
    rows = []
    for l in r.files.get(name, '').split('\n'):
        if l.strip():
            rows.append([float(a) for a in l.split()])
    return rows


def reported(r, w, ecol=4):
    """(chain, version) whose per-site magnetisations and energy a line holds"""
    for x in r.chains.values():
        for v in states(x):
            m = x.m(v)
            if all(close(a, b / x.conf['ssize']) for a, b in zip(w[1:4], m)) and close(w[ecol], obs_at(x.id, 'system_energy', v)):
                return x, v
    return None


def c29(tr, r):
    fn, c, num = tr['fn'], tr['conf'], tr['num']
    try:
        for x in r.chains.values():
            f = given(x, c, ('log',), drive='none', file='x') if fn in ('gen_hist', 'gen_hist_magnus') else given(x, c, ('tau', 'dt', 't') if fn == 'run_tau' else ('log',))
            if f:
                return f
        if fn in ('gen_hist', 'gen_hist_magnus'):
            for name, kind, dyn in ((('hist_mc.dat', 'metropolis_update', False), ('hist_dyn.dat', 'update', True)) if fn == 'gen_hist' else (('hist_mc_magnus.dat', 'metropolis_update_magnus', False),)):
                rows = table_lines(r, name)
                if len(rows) != num:
                    return 'the requested number of lines', '%s has %d lines, %d requested' % (name, len(rows), num)
                prev = None
                for w in rows:
                    q = reported(r, w)
                    if q is None:
                        return 'a line holds the observables of a state', '%s: %r' % (name, w)
                    x, v = q
                    mc, dy, kinds = states(x)[v]
                    if dyn:
                        ok = dy > 0 if prev is None else (mc == prev[0] and dy > prev[1])
                    else:
                        ok = dy == 0 and set(kinds) <= {kind} and (mc > 0 if prev is None else mc > prev[0])
                    if not ok:
                        return 'updates before every line', '%s: %d Monte Carlo updates and %d time steps before a line, %r before the one above' % (name, mc, dy, prev)
                    prev = (mc, dy)
                    if len(w) == 11:
                        sp, S = x.spins(v), x.conf['ssize']
                        if not all(close(a, b) for a, b in zip(w[5:], sp[S // 4] + sp[3 * S // 4])):
                            return 'spins at one and three quarters of the subsystem', '%s: %r' % (name, w)
        elif fn == 'gen_hist_dynamics':
            rows = table_lines(r, 'dyn-hist-t-%s.dat' % rust_f(c['t']))
            if len(rows) != num:
                return 'the requested number of lines', '%d lines, %d requested' % (len(rows), num)
            used = set()
            for w in rows:
                q = reported(r, w)
                if q is None or q[0].id in used:
                    return 'one line per trajectory', repr(w)
                used.add(q[0].id)
                mc, dy, _ = states(q[0])[q[1]]
                if mc or dy != round(c['t'] / c['dt']):
                    return 'taken at the configured time', '%d steps of %r for a time of %r' % (dy, c['dt'], c['t'])
        elif fn == 'gen_single_traj':
            rows = table_lines(r, 'hist-st-t-%s.dat' % rust_f(c['t']))
            if len(rows) != num:
                return 'the requested number of lines', '%d lines, %d requested' % (len(rows), num)
            for k, w in enumerate(rows):
                q = reported(r, w)
                if q is None:
                    return 'a line holds the observables of a state', repr(w)
                if states(q[0])[q[1]][:2] != (0, (31 + k) * tr['p']):
                    return 'the ends of the periods', 'line %d is taken after %d steps, %d steps in a period' % (k, q[1], tr['p'])
                if not close(w[0], q[1] * c['dt']):
                    return 'time of a line', repr(w)
        elif fn == 'trajectory_mean_e':
            if len(r.chains) != c['runs']:
                return 'one trajectory per run', '%d for %d' % (len(r.chains), c['runs'])
            es = []
            for x in r.chains.values():
                prev = None
                st = states(x)
                for v in sorted(v for v in st if any(e == ('O', 'system_energy', v) for e in x.ev)):
                    mc, dy, _ = st[v]
                    if mc == 0 or prev is not None and (dy - prev[1] != tr['p'] or mc != prev[0]):
                        return 'one sample per period', '%r after %r, %d steps in a period' % ((mc, dy), prev, tr['p'])
                    prev = (mc, dy)
                    es.append(obs_at(x.id, 'system_energy', v))
            if not es or not close(r.result[0], sum(es) / len(es)):
                return 'mean of the samples', '%r, mean of %d samples' % (r.result[0], len(es))
        else:
            rows = table_lines(r, 'evt%d.dat' % num)
            if len(rows) != len(tr['taus']) or sorted(w[0] for w in rows) != sorted(tr['taus']):
                return 'one line per period', '%r for %r' % ([w[0] for w in rows], tr['taus'])
            left = list(r.chains.values())
            for w in rows:
                for x in left:
                    v = x.nops()
                    m = x.m(v)
                    if close(w[2], obs_at(x.id, 'total_energy2', v)) and close(w[3], obs_at(x.id, 'system_energy', v)) and all(close(a, b / x.conf['ssize']) for a, b in zip(w[4:7], m)):
                        break
                else:
                    return 'observables of the state at the end', repr(w)
                left.remove(x)
                if w[1] < num * w[0] * (1 - 1e-9) or len(w) != 7:
                    return 'the requested number of periods', 'time %r for %d periods of %r' % (w[1], num, w[0])
    except (ValueError, IndexError, KeyError) as e:
        return 'lines of numbers', repr(e)
    return None


def rust_f(x):
    return repr(int(x)) if x == int(x) else repr(x)


def g26(rng, i):
    if i % 12 == 11:
        return dict(fn='write_in_bg', conf=base_conf(rng), more=[rng.choice([rng.randrange(0, 3000), 65536 + rng.randrange(1, 40000), 131072 + rng.randrange(1, 20000)][i // 12 % 2:])])
    if i % 4 < 2:
        return dict(g18(rng, i % 2 + 3 * rng.randrange(0, 40)))
    return g29(rng, {2: 2, 3: 5}[i % 4] + 6 * rng.randrange(36))


def c26(tr, r):
    if tr['fn'] == 'write_in_bg':
        n = tr['more'][0]
        got = r.files.get('o.dat', '').split('\n')
        if got != ['%d %d' % (k, k % 7) for k in range(n)] + ['']:
            return 'every line sent is in the file, in order', '%d lines of %d' % (len(got) - 1, n)
        return None
    n = {'run_mc': tr['conf']['mc_points'], 'run_mc_magnus': tr['conf']['mc_points'], 'gen_hist_dynamics': tr.get('num'), 'run_tau': len(tr.get('taus', ()))}[tr['fn']]
    name = {'run_mc': 'mc_live.dat', 'run_mc_magnus': 'mc_live.dat', 'gen_hist_dynamics': 'dyn-hist-t-%s.dat' % rust_f(tr['conf']['t']), 'run_tau': 'evt%s.dat' % tr.get('num')}[tr['fn']]
    try:
        rows = table_lines(r, name)
    except ValueError as e:
        return 'unbroken lines', repr(e)
    if len(rows) != n:
        return 'every sample is in the file when the command ends', '%s has %d lines of %d' % (name, len(rows), n)
    if len({tuple(w) for w in rows}) != n:
        return 'every sample once', '%s repeats a line' % name
    if any(len(w) != len(rows[0]) for w in rows):
        return 'unbroken lines', '%s has lines of different length' % name
    return None


CONTRACTS = {'C26': (g26, c26, 24, 200), 'C29': (g29, c29, 36, 200), 'C16': (g16, c16, 25, 150), 'C18': (g18, c18, 102, 400), 'C19': (g19, c19, 34, 120), 'C21': (g21, c21, 12, 60), 'C22': (g22, c22, 60, 600),
             'C23': (g23, c23, 18, 45), 'C25': (g25, c25, 48, 400)}


def one(a):
    h, prop, i, seed = a
    g, c, _, _ = CONTRACTS[prop]
    rng = random.Random('%s-%d-%d' % (prop, seed, i))
    rng.lits = literals(h.root)
    tr = widen(prop, g(rng, i), rng, i)
    if tr['fn'] not in h.fns:
        return i, tr, 'skip', None
    return (i, tr) + judge(h, prop, tr)


def judge(h, prop, tr):
    r = h.run(tr)
    if r.err:
        return 'fail', ('the command ends normally', r.err)
    if r.late:
        return 'fail', ('the command ends after its runs', '%d states are logged after it has returned' % r.late)
    f = CONTRACTS[prop][1](tr, r)
    return ('fail', f) if f else ('ok', None)


def runs(prop, **kw):
    return make_runs(prop, CONTRACTS, ObsHarness, one, judge, 'bounded runs of the real commands')


def make_runs(prop, CONTRACTS, Harness, one, judge, title):
    def go(root, prog, tier, seed):
        from multiprocessing.pool import ThreadPool
        t0 = time.time()
        h = Harness(root, prog)
        out = {'name': title, 'status': 'unknown', 'why': '', 'obligations': 0, 'discharged': 0, 'kind': 'bounded', 'runs': 0}
        try:
            if not h.build():
                out['why'] = 'the run harness does not build: ' + h.err[-600:]
                return out
            g, c, nq, nt = CONTRACTS[prop]
            n = nq if tier == 'quick' else nt
            fails, ran, fns, cases = [], 0, {}, []
            with ThreadPool(6) as p:
                for i, tr, st, f in p.imap_unordered(one, [(h, prop, i, seed) for i in range(n)]):
                    if st == 'skip':
                        continue
                    ran += 1
                    fns[tr['fn']] = fns.get(tr['fn'], 0) + 1
                    if len(cases) < 4:
                        cases.append({k: v for k, v in tr.items() if k != 'files'})
                    if st == 'fail':
                        fails.append((i, tr, f))
            out['runs'] = ran
            out['functions'] = fns
            out['cases'] = cases
            out['bound'] = '%d drawn configurations, chains of 4 to 8 sites (some of up to 520), some with up to 1100 points or 40 runs' % n
            # a run that did not end is tried again, alone, before it counts
            fails.sort(key=lambda x: x[0])
            for i, tr, f in fails[:3]:
                st, f2 = judge(h, prop, tr)
                if st == 'fail':
                    out.update(status='failed', why='%s: %s: %s' % (tr['fn'], f2[0], f2[1]), inputs=tr, post=f2[0], how=f2[1], kind='obsrun')
                    return out
            out['status'] = 'bounded' if ran else 'unknown'
        except Exception:
            import traceback
            out['why'] = traceback.format_exc()[-600:]
        finally:
            out['time_s'] = round(time.time() - t0, 1)
            h.close()
        return out
    go.__name__ = 'obsruns'
    return go


if __name__ == '__main__':
    import sys
    sys.setrecursionlimit(40000)
    root = sys.argv[2] if len(sys.argv) > 2 else '/repo'
    for p in (sys.argv[1].split(',') if sys.argv[1] != 'all' else CONTRACTS):
        r = runs(p)(root, load(root), sys.argv[3] if len(sys.argv) > 3 else 'quick', int(os.environ.get('VERIF_SEED') or 1))
        print(p, r['status'], r['runs'], r['time_s'], r['why'][:600])
        if 'inputs' in r:
            print(r['inputs'])
