"""Bounded runs of the real command line (src/main.rs) and of the real configuration reader.

The crate is built from /repo's own text: main.rs (its main renamed), config.rs and the chains are
copied as they are; only the bodies of the public functions of obs.rs and of solve_beta are replaced
by stand-ins that record the call with the configuration it gets and change the configuration the
way their contracts say (C16, C19, C23, C29).  A run is one process in a scratch directory of its own."""
import math
from .obsrun import *
from .obsrun import body_span, conf_toml, base_conf, close, h2f, f2h, NoHarness
from .shapes import Shapes

WHOLE = ('find_beta', 'get_obs', 'get_obsh', 'get_obs_rot', 'get_obs_maglab')
TIME = ('run_sim', 'run_ext', 'run_sim_response', 'run_langevin', 'run_dyn_profile')
HISTS = ('gen_hist', 'gen_hist_magnus')

HEAD = '''
#[allow(dead_code)]
pub fn mk_call__(name: &str, conf: &Config, extra: &str) {
    use std::io::Write;
    let d = std::env::var("MK_DIR").unwrap();
    let mut f = std::fs::OpenOptions::new().create(true).append(true).open(format!("{}/calls", d)).unwrap();
    writeln!(f, "{}\\t{}\\t{}", name, mk_vals__(conf), extra).unwrap();
}
#[allow(dead_code)]
pub fn mk_val__() -> f64 {
    static K: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    0.375 + 0.25 * (K.fetch_add(1, std::sync::atomic::Ordering::SeqCst) as f64)
}
#[allow(dead_code)]
fn mk_hex__(x: &str) -> String {
    x.bytes().map(|b| format!("{:02x}", b)).collect()
}
#[allow(dead_code)]
fn mk_unhex__(x: &str) -> String {
    String::from_utf8((0..x.len() / 2).map(|i| u8::from_str_radix(&x[2 * i..2 * i + 2], 16).unwrap()).collect()).unwrap()
}
#[allow(dead_code)]
fn mk_bits__(x: &str) -> f64 {
    f64::from_bits(u64::from_str_radix(x, 16).unwrap())
}
#[allow(dead_code)]
pub fn mk_vals__(c: &Config) -> String {
    let mut o: Vec<String> = vec![];
/*VALS*/
    o.join(" ")
}
#[allow(dead_code, unused_variables)]
fn mk_set__(c: &mut Config, k: &str, v: &str) {
    match k {
/*SETS*/
        _ => panic!("no field {}", k),
    }
}
#[allow(dead_code)]
fn mk_config__(a: &[String]) {
    // write FILE k=v ... : store the defaults with these values; read TYPE FILE
    let d = std::env::var("MK_DIR").unwrap();
    let put = |n: &str, c: &Config| std::fs::write(format!("{}/{}", d, n), mk_vals__(c)).unwrap();
    match a[0].as_str() {
        "write" => {
            let mut c = Config::default();
            put("defaults", &c);
            for kv in &a[2..] {
                let i = kv.find('=').unwrap();
                mk_set__(&mut c, &kv[..i], &kv[i + 1..]);
            }
            std::fs::write(&a[1], toml::to_string(&c).unwrap()).unwrap();
        }
        "describe" => {
            put("defaults", &Config::default());
            std::fs::write(&a[1], sc::config::CS).unwrap();
        }
        "defaults" => put("defaults", &Config::default()),
        _ => panic!(),
    }
    put("chain", &SpinChain::read_config(&a[1]));
    put("langevin", &SpinChainLangevin::read_config(&a[1]));
}
fn main() {
    match std::env::var("MK_CONFIG") {
        Ok(s) => mk_config__(&s.split('\\u{1}').map(|x| x.to_string()).collect::<Vec<_>>()),
        Err(_) => original_main__(),
    }
}
'''


def tname(t):
    if t is None:
        return '()'
    if t.k == 'ref':
        return '&' + ('mut ' if t.mut else '') + tname(t.t)
    if t.k == 'path':
        return t.segs[-1] + ('<%s>' % tname(t.g[0]) if t.g else '')
    if t.k == 'array':
        return '[%s]' % tname(t.t)
    return t.k


def call_stand_in(fn):
    cf, extra = None, []
    for p, ty in fn.params:
        if p.k != 'pid':
            raise NoHarness('parameters of ' + fn.name)
        if tname(ty) in ('&mut Config', '&Config', 'Config'):
            cf = (p.name, tname(ty))
        else:
            extra.append(p.name)
    if cf is None:
        raise NoHarness('parameters of ' + fn.name)
    c, mut = cf[0], cf[1] == '&mut Config'
    o = ['crate::mk_call__("%s", &%s, &format!("{:?}", (%s)));' % (fn.name, '*' + c if cf[1][0] == '&' else c, ''.join(x + ', ' for x in extra))]
    if mut:
        n = fn.name
        if n in WHOLE:
            o.append('%s.ssize = %s.hsize;' % (c, c))
        if n in TIME:
            o.append('%s.offset += %s.runs as u32;' % (c, c))
        if n == 'run_dyn_profile':
            o.append('%s.t = %s.tau * 4000.0;' % (c, c))
        if n in HISTS:
            o.append('%s.drive = DriveType::none; %s.file = "x".to_string();' % (c, c))
    r = tname(fn.ret)
    if r == 'f64':
        o.append('crate::mk_val__()')
    elif r == '[f64]':
        o.append('[crate::mk_val__(), crate::mk_val__(), crate::mk_val__(), crate::mk_val__()]')
    elif r != '()':
        raise NoHarness('result of ' + fn.name)
    return '{ %s }' % ' '.join(o)


def cut(src, edits):
    for i, j, b in sorted(edits, reverse=True):
        src = src[:i] + b + src[j:]
    return src


class MainHarness(ObsHarness):
    def __init__(self, root, prog=None):
        super().__init__(root, prog)
        if self.keep:
            self.dir = self.keep + '-main'
            os.makedirs(self.dir, exist_ok=True)

    def _build(self):
        d, root, prog = self.dir, self.root, self.prog
        for x in ('src', 'sc/src'):
            if os.path.exists('%s/%s' % (d, x)):
                shutil.rmtree('%s/%s' % (d, x))
            os.makedirs('%s/%s' % (d, x))
        self.manifest('mainrun')
        for f in os.listdir(root + '/src'):
            p = '%s/src/%s' % (root, f)
            if os.path.isdir(p):
                shutil.copytree(p, '%s/src/%s' % (d, f))
                shutil.copytree(p, '%s/sc/src/%s' % (d, f))
                continue
            if f == 'build.rs':
                continue
            if not f.endswith('.rs'):
                shutil.copy(p, '%s/src/%s' % (d, f))
                shutil.copy(p, '%s/sc/src/%s' % (d, f))
                continue
            txt = open(p).read()
            lib = txt
            if f == 'main.rs':
                toks = lex(txt)
                at = [b.pos for a, b, c in zip(toks, toks[1:], toks[2:]) if a.s == 'fn' and b.s == 'main' and c.s == '(']
                if len(at) != 1:
                    raise NoHarness('fn main')
                txt = txt[:at[0]] + 'original_main__' + txt[at[0] + 4:] + self.tail()
            elif f == 'obs.rs':
                edits = []
                for key, fn in prog.fns.items():
                    if key[0] == 'obs' and fn.d.get('file') == f and not fn.name.startswith('estim') and any(tname(t).endswith('Config') for _, t in fn.params) and (fn.name in CALLS):
                        i, j = body_span(txt, fn)
                        edits.append((i, j, call_stand_in(fn)))
                        self.fns[fn.name] = fn
                txt = cut(txt, edits)
            elif f in ('spinchain.rs', 'spinchain_langevin.rs'):
                edits = []
                for key, fn in prog.fns.items():
                    if key[1] == 'solve_beta' and fn.d.get('file') == f:
                        if len(fn.params) != 1 or fn.params[0][0].k != 'pid':
                            raise NoHarness('solve_beta')
                        i, j = body_span(txt, fn)
                        edits.append((i, j, '{ 1.25 - %s }' % fn.params[0][0].name))
                lib = cut(txt, edits)
            if f != 'lib.rs':
                open('%s/src/%s' % (d, f), 'w').write(txt)
            if f not in ('main.rs', 'obs.rs', 'writers.rs'):
                open('%s/sc/src/%s' % (d, f), 'w').write(lib)
        for n in CALLS:
            if n not in self.fns:
                raise NoHarness('no function obs::' + n)
        return self.cargo('mainrun')

    def tail(self):
        self.fields = []
        vals, sets = [], []
        for f in Shapes(self.prog).fields('Config'):
            n, t = f[0], tname(f[1])
            self.fields.append((n, t))
            if t == 'f64':
                e, s = 'format!("{:x}", c.%s.to_bits())', 'mk_bits__(v)'
            elif t in ('i32', 'u32', 'usize', 'bool', 'i64', 'u64'):
                e, s = 'format!("{}", c.%s)', 'v.parse().unwrap()'
            elif t == 'String':
                e, s = 'mk_hex__(&c.%s)', 'mk_unhex__(v)'
            elif t == 'Vec<f64>':
                e, s = 'c.%s.iter().map(|x| format!("{:x}", x.to_bits())).collect::<Vec<_>>().join(",")', 'v.split(\',\').map(mk_bits__).collect()'
            elif t == 'DriveType':
                e = 'format!("{:?}", c.%s)'
                s = 'match v { %s, _ => panic!() }' % ', '.join('"%s" => DriveType::%s' % (x[0], x[0]) for x in self.prog.enums['DriveType'].vs)
            else:
                raise NoHarness('field %s of Config' % n)
            vals.append('    o.push(format!("%s={}", %s));' % (n, e % n))
            sets.append('        "%s" => c.%s = %s,' % (n, n, s))
        return HEAD.replace('/*VALS*/', '\n'.join(vals)).replace('/*SETS*/', '\n'.join(sets))

    def vals(self, s):
        o = {}
        ty = dict(self.fields)
        for kv in s.split(' '):
            k, v = kv.split('=', 1)
            t = ty[k]
            o[k] = h2f(v) if t == 'f64' else v == 'true' if t == 'bool' else bytes.fromhex(v).decode() if t == 'String' else [h2f(x) for x in v.split(',') if x] if t == 'Vec<f64>' else v if t == 'DriveType' else int(v)
        return o

    def enc(self, k, v):
        t = dict(self.fields)[k]
        s = f2h(v) if t == 'f64' else ('true' if v else 'false') if t == 'bool' else v.encode().hex() if t == 'String' else ','.join(f2h(x) for x in v) if t == 'Vec<f64>' else str(v)
        return '%s=%s' % (k, s)

    def run(self, tr, timeout=60):
        d = tempfile.mkdtemp(prefix='scv-mr-')
        try:
            os.makedirs(d + '/cwd')
            for n, t in tr.get('files', {}).items():
                open('%s/cwd/%s' % (d, n), 'w').write(t)
            env = {k: v for k, v in os.environ.items() if not k.startswith('MK_')}
            env['MK_DIR'] = d
            argv = []
            if tr['fn'] == 'config':
                do = list(tr['do'])
                env['MK_CONFIG'] = '\x01'.join(do[:2] + [self.enc(k, v) for k, v in tr.get('set', {}).items()])
            else:
                argv = tr['argv']
                open(d + '/cwd/config.toml', 'w').write(conf_toml(tr['conf']))
            try:
                p = subprocess.run([self.exe] + argv, cwd=d + '/cwd', env=env, capture_output=True, text=True, errors='replace', stdin=subprocess.DEVNULL, timeout=timeout)
            except subprocess.TimeoutExpired:
                return Res(tr, 'timeout')
            if p.returncode != 0:
                return Res(tr, 'exit code %r: %s' % (p.returncode, p.stderr[-300:]))
            r = Res(tr, None)
            r.out, r.calls, r.h = p.stdout, [], self
            if os.path.exists(d + '/calls'):
                for l in open(d + '/calls').read().split('\n'):
                    if l:
                        n, c, x = l.split('\t')
                        r.calls.append((n, self.vals(c), x))
            for n in ('defaults', 'chain', 'langevin'):
                if os.path.exists('%s/%s' % (d, n)):
                    setattr(r, n, self.vals(open('%s/%s' % (d, n)).read()))
            for n in sorted(os.listdir(d + '/cwd')):
                r.files[n] = open('%s/cwd/%s' % (d, n), errors='replace').read()
            return r
        finally:
            shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------- C27
def same_val(a, b):
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(same_val(x, y) for x, y in zip(a, b))
    if isinstance(a, float):
        return f2h(a) == f2h(b)
    return type(a) is type(b) and a == b


def diff(got, want):
    for k in want:
        if k not in got or not same_val(got[k], want[k]):
            return '%s is read as %r, stored %r' % (k, got.get(k), want[k])
    return None


def draw(rng, t, k=''):
    if t == 'f64':
        return rng.choice([0.0, -0.0, 1.0, 256.0, 0.1, -0.66, 1e300, 5e-324, 1e-7, 123456789.125, math.pi, float(rng.randrange(-99, 99)), rng.uniform(-5, 5), rng.uniform(-1, 1) * 10.0 ** rng.randrange(-300, 300)])
    if t == 'i32':
        return rng.choice([0, 1, -1, 2 ** 31 - 1, -2 ** 31, rng.randrange(1000)])
    if t == 'u32':
        return rng.choice([0, 1, 2 ** 32 - 1, rng.randrange(1000)])
    if t in ('usize', 'u64', 'i64'):
        return rng.choice([0, 1, 2 ** 63 - 1, rng.randrange(1000)])
    if t == 'bool':
        return rng.random() < 0.5
    if t == 'String':
        return rng.choice(['', 'log', 'a b', 'x"y', "it's", 'a\\b', 'tab\tnew\nline', 'é≠', "'''", '"""', '#no', 'true', '1.5', '[x]', 'a=b'])
    if t == 'Vec<f64>':
        return [draw(rng, 'f64') for _ in range(rng.choice([3, 3, 3, 1, 4]))]
    return None


def g27(rng, i):
    kind = ['stored', 'keys', 'missing', 'described', 'one'][i % 5] if i >= 10 else ['stored', 'keys', 'missing', 'described', 'one'][i // 2]
    return dict(fn='config', kind=kind, seed=rng.randrange(1 << 30), i=i)


def fill(h, tr):
    """the values depend on the fields the configuration has"""
    rng = random.Random(tr['seed'])
    names = [n for n, _ in h.fields]
    dr = [x[0] for x in h.prog.enums['DriveType'].vs]
    val = lambda n: rng.choice(dr) if dict(h.fields)[n] == 'DriveType' else draw(rng, dict(h.fields)[n])
    k = tr['kind']
    if k in ('stored', 'one'):
        ns = names if k == 'stored' else [names[(tr['i'] // 5 + tr['i']) % len(names)]]
        tr['set'] = {n: val(n) for n in ns}
        tr['do'] = ['write', 'w.toml']
    elif k == 'keys':
        ns = rng.sample(names, rng.randrange(len(names) + 1)) if tr['i'] % 2 else [n for n in names if n != names[(tr['i'] // 5) % len(names)]]
        tr['given'] = {n: val(n) for n in ns}
        tr['files'] = {'in.toml': conf_toml(tr['given'])}
        tr['do'] = ['defaults', 'in.toml']
    elif k == 'missing':
        tr['do'] = ['defaults', rng.choice(['config.toml', 'absent.toml'])]
    else:
        tr['do'] = ['describe', 'w.toml']
    return tr


def c27(tr, r):
    names = {n for n, _ in r.h.fields}
    for who in ('chain', 'langevin'):
        got = getattr(r, who)
        k = tr['kind']
        if k in ('stored', 'one'):
            d = diff(got, {**r.defaults, **tr['set']})
            if d:
                return 'a stored configuration is read back unchanged', d
        elif k == 'keys':
            d = diff(got, {**r.defaults, **tr['given']})
            if d:
                return 'given keys take their values, the others their defaults', d
        elif k == 'missing':
            d = diff(got, r.defaults)
            if d:
                return 'a missing file gives the defaults', d
            try:
                t = toml_conf(r.files['config.toml'])
            except Exception as e:
                return 'a missing file stores the defaults', repr(e)
            for n, v in r.defaults.items():
                if n not in t or t[n] != v:
                    return 'a missing file stores the defaults', '%s stored as %r, default %r' % (n, t.get(n), v)
        else:
            d = diff(got, r.defaults)
            if d:
                return 'the description holds the defaults', d
            t = toml_conf(r.files['w.toml'])
            bad = [n for n in t if n not in names]
            if bad:
                return 'the description names keys of the configuration', ', '.join(bad)
    return None


# ------------------------------------------------------------- C30
CALLS = ['average', 'find_beta', 'find_beta2', 'find_beta_maglab', 'find_beta_rot', 'find_betah', 'gen_hist', 'gen_hist_dynamics', 'gen_hist_magnus', 'gen_single_traj', 'get_obs', 'get_obs_maglab', 'get_obs_rot',
         'get_obsh', 'run_dyn_profile', 'run_ext', 'run_langevin', 'run_mc', 'run_mc_magnus', 'run_mc_profile', 'run_sim', 'run_sim_response', 'run_tau', 'trajectory_mean_e', 'two_point_average']
PLAIN = [(['-a', '--avg'], 'average'), (['--two-point'], 'two_point_average'), (['-m', '--monte-carlo'], 'run_mc'), (['-p', '--monte-carlo-profile'], 'run_mc_profile'), (['-P', '--dynamic-profile'], 'run_dyn_profile'),
         (['--monte-carlo-magnus'], 'run_mc_magnus'), (['--response'], 'run_sim_response')]
COUNT = [(['--histogram'], 'gen_hist', 8000), (['-d', '--dynamic-histogram'], 'gen_hist_dynamics', 1000), (['-s', '--trajectory'], 'gen_single_traj', 1000), (['--magnus-hist'], 'gen_hist_magnus', 8000)]
OPTS = ['none', 'ext', 'n', 'D', 'r', 'E', 'f', 'F', 'H', 'A', 'l', 'desc'] + [p[1] for p in PLAIN] + [p[1] for p in COUNT] + ['two', 'f', 'F', 'n', 'r']


BETAS = ('beta.dat', 'betat.dat', 'betat-rot.dat', 'betat-maglab.dat')


def g30(rng, i):
    c = base_conf(rng)
    if c['ssize'] == c['hsize']:
        c['ssize'] -= 1
    c['ednsty'] = real(rng, [-0.5, -0.25, -0.75, 0.0, 0.25], -1.0, 1.0)
    c['hs'], c['hfield'] = [0.0, 0.5, 0.25], [0.5, 0.0, 0.125]
    c['runs'] = rng.choice([1, 2, 3])
    o = OPTS[i % len(OPTS)]
    argv = []
    tr = dict(fn='main', conf=c, opt=o)
    if i // len(OPTS) % 2:
        # lines of earlier fits, which stay
        tr['files'] = {n: '0.125 0.25 0.5 %d 1 1 1\n' % k * k for k, n in enumerate(BETAS)}
    if rng.random() < 0.5:
        tr['tau'] = real(rng, [0.5, 3.0, 7.25], 0.01, 50.0)
        argv.append([rng.choice(['-t', '--tau']), repr(tr['tau'])])
    if rng.random() < 0.5:
        tr['beta'] = real(rng, [0.625, 1.5, 4.0], 0.01, 50.0)
        argv.append([rng.choice(['-b', '--beta']), repr(tr['beta'])])
    E = real(rng, [-0.375, -0.125, 0.25], -2.0, 2.0)
    if o in 'rEfFH':
        tr['E'] = E
        lg = {'r': '--rot-frame', 'E': '--magnus-fit', 'H': '--high-freq'}.get(o)
        argv.append([lg, repr(E)] if lg and rng.random() < 0.5 else ['-' + o, repr(E)])
    elif o in ('A', 'D'):
        tr['T'] = real(rng, [1.5, 6.0], 0.01, 50.0)
        argv.append([rng.choice(['-' + o, {'A': '--adiabatic', 'D': '--adiab_full'}[o]]), repr(tr['T'])])
    elif o == 'n':
        tr['taus'] = [real(rng, [0.5, 2.0, 5.0, 12.5], 0.01, 50.0) for _ in range(rng.randrange(1, 4))]
        if rng.random() < 0.5:
            tr['steps'] = count(rng, 1, 20000)
            argv.append(['--steps', str(tr['steps'])])
        argv.append([rng.choice(['-n', '--n-steps']), ','.join(repr(x) for x in tr['taus'])])
    elif o == 'ext':
        argv.append([rng.choice(['-e', '--ext'])])
    elif o == 'desc':
        argv.append(['--config-desc'])
    elif o == 'l':
        a = [rng.choice(['-l', '--langevin'])]
        if rng.random() < 0.5:
            tr['gamma'] = real(rng, [0.25, 2.0, 0.0], 0.0, 30.0)
            a.append(repr(tr['gamma']))
        argv.append(a)
    elif o == 'two':
        a, b = rng.sample(PLAIN, 2)
        tr['pair'] = sorted([a[1], b[1]])
        argv += [[rng.choice(a[0])], [rng.choice(b[0])]]
    else:
        for p in PLAIN:
            if p[1] == o:
                argv.append([rng.choice(p[0])])
        for p in COUNT:
            if p[1] == o:
                a = [rng.choice(p[0])]
                tr['num'] = p[2]
                if rng.random() < 0.6:
                    tr['num'] = count(rng, 1, 20000)
                    a.append(str(tr['num']))
                argv.append(a)
    rng.shuffle(argv)
    tr['argv'] = [x for a in argv for x in a]
    return tr


def numbers(t):
    return [[float(x) for x in l.split()] for l in t.split('\n') if l.strip()]


def c30(tr, r):
    c = dict(tr['conf'])
    o = tr['opt']
    if 'tau' in tr:
        c['tau'] = tr['tau']
    if 'beta' in tr:
        c['beta'] = tr['beta']
    names = [x[0] for x in r.calls]
    if o == 'two':
        if sorted(names) != tr['pair']:
            return 'exactly the requested commands', '%r runs %r' % (tr['argv'], names)
        return None
    val = (0.375 + 0.25 * k for k in range(100))
    want, lines = [], {}

    def call(n, extra='()', **kw):
        want.append((n, dict(c), extra))
        if n in WHOLE:
            c['ssize'] = c['hsize']

    def obs4(n):
        call(n)
        return [next(val) for _ in range(4)]
    if o in 'rEfFH':
        c['ednsty'] = tr['E']
        w = 2 * math.pi / c['tau']
        find, get, name = {'r': ('find_beta_rot', 'get_obs_rot', 'betat-rot.dat'), 'E': ('find_beta_maglab', 'get_obs_maglab', 'betat-maglab.dat'), 'f': ('find_beta', 'get_obs', 'betat.dat'),
                           'F': ('find_betah', 'get_obsh', 'betat.dat'), 'H': (None, 'get_obsh', 'betat.dat')}[o]
        if o in 'fF':
            c['hs'], c['hfield'] = [1.0, 0.0, 0.0], [0.0, 0.0, -w]
        if o == 'f':
            c['hsize'] = c['ssize']
        if o == 'H':
            c['hfield'] = [0.0, 0.0, -c['tau'] / (4 * math.pi)]
        if find:
            call(find)
            c['beta'] = next(val)
        lines[name] = [c['tau'], tr['E'], c['beta']] + obs4(get)
    elif o == 'D':
        c['tau'] = tr['T']
        c['hs'], c['hfield'] = [1.0, 0.0, 0.0], [0.0, 0.0, -2 * math.pi / c['tau']]
        call('find_beta2')
        lines['beta.dat'] = [c['tau'], c['beta'], next(val)]
    elif o == 'A':
        c['tau'] = tr['T']
        call('trajectory_mean_e')
        c['ednsty'] = next(val)
        c['hs'] = [1.0, 0.0, -2 * math.pi / c['tau']]
        b0 = c['beta']
        call('find_beta')
        c['beta'] = next(val)
        e = c['ednsty']
        lines['beta.dat'] = [c['tau'], b0, c['beta']] + obs4('get_obs') + [e]
    elif o == 'ext':
        call('run_ext')
    elif o == 'n':
        call('run_tau', '(%s, %d)' % ('[%s]' % ', '.join(repr(x) for x in tr['taus']), tr.get('steps', 1000)))
    elif o != 'desc':
        if 'beta' not in tr:
            c['beta'] = 1.25 - c['ednsty']
        if o == 'l':
            c['hsize'] = c['ssize']
            call('run_langevin', '(%r,)' % tr.get('gamma', 1.0))
        elif 'num' in tr:
            call(o, '(%d,)' % tr['num'])
        else:
            call('run_sim' if o == 'none' else o)
    if names != [x[0] for x in want]:
        return 'exactly the requested command', '%r runs %r, expected %r' % (tr['argv'], names, [x[0] for x in want])
    for (n, got, x), (_, exp, y) in zip(r.calls, want):
        for k in exp:
            if k in got and not (got[k] == exp[k] or isinstance(exp[k], float) and close(got[k], exp[k]) or isinstance(exp[k], list) and len(exp[k]) == len(got[k]) and all(close(a, b) for a, b in zip(got[k], exp[k]))):
                return 'on the stated configuration', '%r: %s gets %s = %r, stated %r' % (tr['argv'], n, k, got[k], exp[k])
        if args_of(x) != args_of(y):
            return 'with the number or period given', '%r: %s gets %s, stated %s' % (tr['argv'], n, x, y)
    for n in BETAS:
        try:
            got = numbers(r.files.get(n, ''))
        except ValueError as e:
            return 'one line for the fit', '%s: %r' % (n, e)
        exp = numbers(tr.get('files', {}).get(n, '')) + ([lines[n]] if n in lines else [])
        if len(got) != len(exp) or any(len(a) != len(b) or not all(close(p, q) for p, q in zip(a, b)) for a, b in zip(got, exp)):
            return 'one line for the fit', '%r: %s holds %r, stated %r' % (tr['argv'], n, got, exp)
    if o == 'desc':
        try:
            toml_conf(r.out)
        except Exception as e:
            return 'prints the description', repr(e)
        if 'hsize' not in r.out:
            return 'prints the description', repr(r.out[:100])
    return None


def args_of(s):
    """numbers passed besides the configuration, in any order"""
    return sorted(json.dumps(x) for x in eval(s, {'__builtins__': {}}))


CONTRACTS = {'C27': (g27, c27, 60, 600), 'C30': (g30, c30, 112, 700)}


def one(a):
    h, prop, i, seed = a
    g, c, _, _ = CONTRACTS[prop]
    rng = random.Random('%s-%d-%d' % (prop, seed, i))
    rng.lits = literals(h.root)
    tr = g(rng, i)
    if tr['fn'] == 'config':
        tr = fill(h, tr)
    return (i, tr) + judge(h, prop, tr)


def judge(h, prop, tr):
    if tr['fn'] == 'config' and 'do' not in tr:
        tr = fill(h, tr)
    r = h.run(tr)
    if r.err:
        return 'fail', ('the command ends normally', r.err)
    f = CONTRACTS[prop][1](tr, r)
    return ('fail', f) if f else ('ok', None)


def runs(prop, **kw):
    return make_runs(prop, CONTRACTS, MainHarness, one, judge, 'bounded runs of the real command line' if prop == 'C30' else 'bounded runs of the real configuration reader')


if __name__ == '__main__':
    import sys
    sys.setrecursionlimit(40000)
    root = sys.argv[2] if len(sys.argv) > 2 else '/repo'
    for p in (sys.argv[1].split(',') if sys.argv[1] != 'all' else CONTRACTS):
        r = runs(p)(root, load(root), sys.argv[3] if len(sys.argv) > 3 else 'quick', int(os.environ.get('VERIF_SEED') or 1))
        print(p, r['status'], r['runs'], r['time_s'], r['why'][:900])
        if 'inputs' in r:
            print(r['inputs'])
