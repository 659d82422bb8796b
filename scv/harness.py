"""Running the real code: a generated crate with the very source files of /repo (text copied
mechanically, an access module appended to each file, nothing else changed), real
dependencies except rand/rand_distr, whose draws are scripted and recorded."""
import os
import re
import select
import shutil
import struct
import subprocess
import tempfile
import time
from .verify import *

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIBMODS = ['config', 'spin', 'spinchain', 'spinchain_langevin']


class HarnessError(Exception):
    pass


def hx(x):
    return '%x' % struct.unpack('<Q', struct.pack('<d', float(x)))[0]


def unhx(s):
    return struct.unpack('<d', struct.pack('<Q', int(s, 16)))[0]


def hs(s):
    return 's' + s.encode().hex()


def tyk(t, self_t=None):
    n = t.segs[-1] if t.k == 'path' else None
    return self_t if n == 'Self' else n


def rty(t, self_t=None):
    """Rust text of a type (owned form)"""
    k = t.k
    if k == 'ref':
        return rty(t.t, self_t)
    if k == 'slice':
        return 'Vec<%s>' % rty(t.t, self_t)
    if k == 'array':
        if t.n.k != 'int':
            raise Unsupported('array type')
        return '[%s; %d]' % (rty(t.t, self_t), t.n.v)
    if k == 'tuple':
        return '(%s)' % ''.join(rty(x, self_t) + ', ' for x in t.ts) if t.ts else '()'
    if k == 'path':
        n = tyk(t, self_t)
        if n == 'str':
            return 'String'
        if n == 'File':
            return 'std::fs::File'
        if t.g:
            return '%s<%s>' % (n, ', '.join(rty(x, self_t) for x in t.g))
        return n
    raise Unsupported('type')


IOT = {'f64', 'usize', 'u64', 'u32', 'u16', 'u8', 'i64', 'i32', 'isize', 'bool', 'String', 'str', 'File'}


def io_able(prog, t, self_t=None):
    k = t.k
    if k in ('ref', 'slice'):
        return io_able(prog, t.t, self_t)
    if k == 'array':
        return t.n.k == 'int' and io_able(prog, t.t, self_t)
    if k == 'tuple':
        return len(t.ts) in (0, 2, 3) and all(io_able(prog, x, self_t) for x in t.ts)
    if k == 'path':
        n = tyk(t, self_t)
        if n in IOT:
            return True
        if n in ('Vec', 'Option'):
            return all(io_able(prog, x, self_t) for x in t.g)
        if n in prog.structs:
            return all(io_able(prog, f[1]) for f in Shapes(prog).fields(n))
        return n in prog.enums and all(v[1] is None for v in prog.enums[n].vs)
    return False


def hook_text(prog, mod, f):
    """the appended access module of one source file"""
    out = ['\npub mod hk__ {\n    #![allow(unused_imports, unused_variables, unused_mut, dead_code, clippy::all)]\n    use super::*;\n    use crate::hkio::*;\n']
    types = []
    for n, s in sorted(prog.structs.items()):
        if prog_file(prog, s, f) and io_able(prog, N('path', 0, segs=[n], g=[])):
            fs = [x[0] for x in Shapes(prog).fields(n)]
            types.append(n)
            rd = ' '.join('let %s_ = Io::rd(t);' % x for x in fs)
            out.append('    impl Io for %s {\n        fn rd(t: &mut Tok) -> Self { %s %s { %s } }\n        fn wr(&self, o: &mut String) { %s }\n    }\n' % (
                n, rd, n, ', '.join('%s: %s_' % (x, x) for x in fs), ' '.join('self.%s.wr(o);' % x for x in fs)))
    for n, s in sorted(prog.enums.items()):
        if prog_file(prog, s, f) and all(v[1] is None for v in s.vs):
            vs = [v[0] for v in s.vs]
            out.append('    impl Io for %s {\n        fn rd(t: &mut Tok) -> Self { match t.s() { %s _ => panic!("HX protocol: variant") } }\n        fn wr(&self, o: &mut String) { o.push_str(match self { %s }) }\n    }\n' % (
                n, ' '.join('"%d" => %s::%s,' % (i, n, v) for i, v in enumerate(vs)), ' '.join('%s::%s => " %d",' % (n, v, i) for i, v in enumerate(vs))))
    out.append('    pub fn new(ty: &str, t: &mut Tok) -> Option<Box<dyn std::any::Any>> { match ty { %s _ => None } }\n' % ' '.join('"%s" => Some(Box::new(<%s as Io>::rd(t))),' % (n, n) for n in types))
    out.append('    pub fn get(x: &Box<dyn std::any::Any>, o: &mut String) -> bool { %s false }\n' % ' '.join('if let Some(v) = x.downcast_ref::<%s>() { v.wr(o); return true; }' % n for n in types))
    sets = []

    def leaves(n, pre):
        for x in Shapes(prog).fields(n):
            yield pre + [x[0]]
            if x[1].k == 'path' and x[1].segs[-1] in prog.structs:
                yield from leaves(x[1].segs[-1], pre + [x[0]])
    for n in types:
        sets.append('if let Some(v) = x.downcast_mut::<%s>() { match p { %s _ => return false } return true; }' % (
            n, ' '.join('"%s" => v.%s = Io::rd(t),' % ('.'.join(q), '.'.join(q)) for q in leaves(n, []))))
    out.append('    pub fn set(x: &mut Box<dyn std::any::Any>, p: &str, t: &mut Tok) -> bool { %s false }\n' % ' '.join(sets))
    arms = []
    have = set()
    for key, fn in sorted(prog.fns.items()):
        if fn.d.get('file') != f or fn.d.get('cfgtest'):
            continue
        st = fn.d.get('self_t')
        if st is not None and st not in prog.structs:
            continue
        if any(a.startswith('test') or a.startswith('cfg') for a in fn.attrs):
            continue
        try:
            code, args = [], []
            if fn.self_kind:
                if st not in types and st not in prog.structs:
                    raise Unsupported('self')
                code.append('let k: usize = t.s().parse().unwrap();')
            okk = True
            for i, (p, ty) in enumerate(fn.params):
                if not io_able(prog, ty, st):
                    okk = False
                    break
                if ty.k == 'ref' and ty.mut:
                    code.append('let mut a%d: %s = Io::rd(t);' % (i, rty(ty, st)))
                    args.append('&mut a%d' % i)
                else:
                    code.append('let a%d: %s = Io::rd(t);' % (i, rty(ty, st)))
                    args.append(('&a%d' if ty.k == 'ref' else 'a%d') % i)
            if not okk or (fn.ret is not None and not io_able(prog, fn.ret, st)):
                continue
            if fn.self_kind == '&mut':
                call = 's[k].downcast_mut::<%s>().unwrap().%s(%s)' % (st, fn.name, ', '.join(args))
            elif fn.self_kind == '&':
                call = 's[k].downcast_ref::<%s>().unwrap().%s(%s)' % (st, fn.name, ', '.join(args))
            elif fn.self_kind:
                continue
            else:
                call = '%s%s(%s)' % (st + '::' if st else '', fn.name, ', '.join(args))
            arms.append('            "%s::%s" => { %s let r = %s; Io::wr(&r, o); }\n' % (key[0], key[1], ' '.join(code), call))
            have.add(key)
        except Unsupported:
            continue
    out.append('    pub fn call(f: &str, t: &mut Tok, s: &mut Slots, o: &mut String) -> bool {\n        match f {\n%s            _ => return false,\n        }\n        true\n    }\n}\n' % ''.join(arms))
    return ''.join(out), have


def prog_file(prog, item, f):
    return item.d.get('file', None) in (None, f) and prog.where.get(id(item)) == f


class Harness:
    """built generated crate + a running driver process"""

    def __init__(self, root, prog, keep=None, log=None):
        self.root, self.prog = root, prog
        self.dir = keep or tempfile.mkdtemp(prefix='scv-hx-')
        self.keep = keep
        self.p = None
        self.have = set()
        self.scratch = tempfile.mkdtemp(prefix='scv-run-')
        self.built = False

    def build(self):
        d = self.dir
        os.makedirs(d + '/src/bin', exist_ok=True)
        for s in ('rand', 'rand_distr'):
            t = d + '/shims/' + s
            if os.path.exists(t):
                shutil.rmtree(t)
            shutil.copytree(HERE + '/harness/shims/' + s, t)
        toml = open(self.root + '/Cargo.toml').read()
        deps = {m.group(1): m.group(2).strip() for m in re.finditer(r'^([A-Za-z0-9_-]+)\s*=\s*(.+)$', toml.split('[dependencies]')[1].split('\n[')[0], re.M)}
        deps['rand'] = '{ path = "shims/rand" }'
        deps['rand_distr'] = '{ path = "shims/rand_distr" }'
        for x in ('indicatif', 'clap', 'glob', 'threadpool', 'itertools'):
            deps.pop(x, None)
        open(d + '/Cargo.toml', 'w').write('[package]\nname = "sc"\nversion = "0.0.1"\nedition = "2021"\n\n[workspace]\n\n[dependencies]\n%s\n[profile.dev]\ndebug = 0\nopt-level = 1\n[profile.dev.build-override]\nopt-level = 0\n'
                                           % ''.join('%s = %s\n' % kv for kv in deps.items()))
        open(d + '/Cargo.toml', 'a').write('[profile.dev.package."*"]\nopt-level = 0\n')
        edition = re.search(r'^edition\s*=\s*"(\d+)"', toml, re.M)
        s = open(d + '/Cargo.toml').read().replace('edition = "2021"', 'edition = "%s"' % (edition.group(1) if edition else '2018'))
        open(d + '/Cargo.toml', 'w').write(s)
        lib = open(self.root + '/src/lib.rs').read()
        mods = [m for m in LIBMODS if os.path.exists('%s/src/%s.rs' % (self.root, m))]
        for f in os.listdir(self.root + '/src'):
            src = '%s/src/%s' % (self.root, f)
            if os.path.isfile(src) and f not in ('main.rs', 'obs.rs', 'writers.rs', 'lib.rs', 'build.rs'):
                txt = open(src).read()
                if f.endswith('.rs') and f[:-3] in mods:
                    h, have = hook_text(self.prog, f[:-3], f)
                    self.have |= have
                    txt += h
                open('%s/src/%s' % (d, f), 'w').write(txt)
            elif os.path.isdir(src):
                shutil.copytree(src, '%s/src/%s' % (d, f), dirs_exist_ok=True)
        hk = ''.join('''
pub fn hk_new(ty: &str, t: &mut hkio::Tok) -> Box<dyn std::any::Any> {
%s    panic!("HX protocol: type {}", ty)
}
pub fn hk_get(x: &Box<dyn std::any::Any>, o: &mut String) {
%s    panic!("HX protocol: get")
}
pub fn hk_set(x: &mut Box<dyn std::any::Any>, p: &str, t: &mut hkio::Tok) {
%s    panic!("HX protocol: set")
}
pub fn hk_call(f: &str, t: &mut hkio::Tok, s: &mut hkio::Slots, o: &mut String) {
%s    panic!("HX protocol: function {}", f)
}
''' % (''.join('    if let Some(x) = %s::hk__::new(ty, t) { return x; }\n' % m for m in mods),
            ''.join('    if %s::hk__::get(x, o) { return; }\n' % m for m in mods),
            ''.join('    if %s::hk__::set(x, p, t) { return; }\n' % m for m in mods),
            ''.join('    if %s::hk__::call(f, t, s, o) { return; }\n' % m for m in mods)))
        open(d + '/src/lib.rs', 'w').write(lib + '\npub mod hkio;\n' + hk)
        shutil.copy(HERE + '/harness/hkio.rs', d + '/src/hkio.rs')
        shutil.copy(HERE + '/harness/hx.rs', d + '/src/bin/hx.rs')
        if os.path.exists(self.root + '/Cargo.lock') and not os.path.exists(d + '/Cargo.lock'):
            shutil.copy(self.root + '/Cargo.lock', d + '/Cargo.lock')
        env = dict(os.environ)
        for k in ('RUSTFLAGS', 'CARGO_TARGET_DIR', 'RUSTC_WRAPPER'):
            env.pop(k, None)
        env.update(CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', CARGO_TARGET_DIR=d + '/target', PATH='/root/.cargo/bin:' + env.get('PATH', ''))
        r = subprocess.run(['cargo', 'build', '--offline', '--bin', 'hx'], cwd=d, env=env, capture_output=True, text=True)
        if r.returncode != 0:
            self.err = r.stderr[-3000:]
            return False
        self.exe = d + '/target/debug/hx'
        self.built = True
        return True

    def start(self):
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=self.scratch)
        self.buf = b''

    def line(self, s, timeout=60):
        """send a script, return the reply tokens or ('timeout'|'died')"""
        if self.p is None or self.p.poll() is not None:
            self.start()
        try:
            self.p.stdin.write(s.encode() + b'\n')
            self.p.stdin.flush()
        except BrokenPipeError:
            return 'died'
        t0 = time.time()
        fd = self.p.stdout.fileno()
        while True:
            i = self.buf.find(b'\x01R')
            if i >= 0:
                j = self.buf.find(b'\n', i)
                if j >= 0:
                    r = self.buf[i + 2:j].decode()
                    self.buf = self.buf[j + 1:]
                    return r.split()
            left = timeout - (time.time() - t0)
            if left <= 0:
                self.p.kill()
                self.p.wait()
                self.p = None
                return 'timeout'
            rr, _, _ = select.select([fd], [], [], left)
            if rr:
                b = os.read(fd, 1 << 16)
                if not b:
                    self.p.wait()
                    self.p = None
                    return 'died'
                self.buf += b

    def close(self):
        if self.p is not None:
            self.p.kill()
            self.p.wait()
            self.p = None
        shutil.rmtree(self.scratch, ignore_errors=True)
        if not self.keep:
            shutil.rmtree(self.dir, ignore_errors=True)


# ------------------------------------------------------------------ symbolic outputs, concrete values
class OutShapes(Shapes):
    """shapes of outputs: every leaf is a symbol whose value the harness supplies"""

    def of(self, t, name, gens=None, self_t=None):
        if t.k == 'path':
            n = tyk(t, self_t)
            if n in ('f64', 'f32'):
                return var(name, R)
            if n in ('usize', 'u64', 'u32', 'u8', 'u16', 'i32', 'i64', 'isize'):
                return var(name, I)
            if n == 'bool':
                return var(name, B)
            if n in self.prog.enums:
                return EnumV(n, var(name, I))
            if n in self.prog.structs:
                return StructV(n, {f: self.of(ft, name + '.' + f, None, n) for f, ft in self.fields(n)})
            if n in ('String', 'str'):
                return StrV((('any', name),))
            if n == 'File':
                return Opq('file', any=True)
            if n == 'Option':
                return OptV(var(name + '.some', B), self.of(t.g[0], name, None, self_t))
            if n == 'Vec':
                return Seq(None, var(name + '.len', I), self.oelem(t.g[0], name, self_t))
        if t.k == 'slice':
            return Seq(None, var(name + '.len', I), self.oelem(t.t, name, self_t))
        if t.k == 'ref':
            return self.of(t.t, name, None, self_t)
        if t.k == 'array':
            return Seq([self.of(t.t, '%s.%s' % (name, i), None, self_t) for i in range(t.n.v)])
        if t.k == 'tuple':
            return TupV([self.of(x, '%s.%d' % (name, i), None, self_t) for i, x in enumerate(t.ts)])
        raise Unsupported('output type')

    def oelem(self, t, name, self_t):
        return lambda i: self.oidx(t, name, i, self_t)

    def oidx(self, t, name, i, self_t):
        if t.k == 'path':
            n = tyk(t, self_t)
            if n == 'f64':
                return self.oapp(name, R, i)
            if n in ('usize', 'u64', 'u32', 'i32', 'i64'):
                return self.oapp(name, I, i)
            if n in self.prog.structs:
                return StructV(n, {f: self.oidx(ft, name + '.' + f, i, n) for f, ft in self.fields(n)})
        if t.k == 'array':
            return Seq([self.oidx(t.t, '%s.%d' % (name, c), i, self_t) for c in range(t.n.v)])
        raise Unsupported('output element type')

    def oapp(self, name, s, i):
        if name not in TM.SYMS:
            decl(name, s, None)
        return app(name, i)


class Toks:
    def __init__(self, l):
        self.l, self.i = l, 0

    def s(self):
        self.i += 1
        return self.l[self.i - 1]

    def peek(self):
        return self.l[self.i] if self.i < len(self.l) else None


INTS = ('usize', 'u64', 'u32', 'u16', 'u8', 'i64', 'i32', 'isize')


def preset(prog, vals, t, name, tk, self_t=None, idx=()):
    """read one output value of type t into the model's symbol table (mirrors OutShapes)"""
    k = t.k
    if k == 'ref':
        return preset(prog, vals, t.t, name, tk, self_t, idx)
    if k == 'array':
        for c in range(t.n.v):
            preset(prog, vals, t.t, '%s.%d' % (name, c), tk, self_t, idx)
        return
    if k == 'tuple':
        for c, x in enumerate(t.ts):
            preset(prog, vals, x, '%s.%d' % (name, c), tk, self_t, idx)
        return
    if k == 'slice' or (k == 'path' and t.segs[-1] == 'Vec'):
        et = t.t if k == 'slice' else t.g[0]
        n = int(tk.s())
        vals[(name + '.len',) + idx] = n
        for i in range(n):
            preset(prog, vals, et, name, tk, self_t, idx + (i,))
        return
    n = tyk(t, self_t)
    if n == 'f64':
        vals[(name,) + idx] = unhx(tk.s())
    elif n in INTS or n in prog.enums:
        vals[(name,) + idx] = int(tk.s())
    elif n == 'bool':
        vals[(name,) + idx] = tk.s() == '1'
    elif n in ('String', 'str'):
        vals[(name,) + idx] = bytes.fromhex(tk.s()[1:]).decode()
    elif n == 'File':
        pass
    elif n == 'Option':
        some = tk.s() == '1'
        vals[(name + '.some',) + idx] = some
        if some:
            preset(prog, vals, t.g[0], name, tk, self_t, idx)
    elif n in prog.structs:
        for f, ft in Shapes(prog).fields(n):
            preset(prog, vals, ft, name + '.' + f, tk, n, idx)
    else:
        raise HarnessError('type ' + str(n))


def ser(prog, m, t, v, out, self_t=None, fname='scratch.dat'):
    """serialise a symbolic input value under model m for declared type t"""
    k = t.k
    if k == 'ref':
        return ser(prog, m, t.t, v, out, self_t)
    if k == 'array':
        for c in range(t.n.v):
            ser(prog, m, t.t, v.get(ic(c)), out, self_t)
        return
    if k == 'tuple':
        for x, y in zip(t.ts, v.el):
            ser(prog, m, x, y, out, self_t)
        return
    if k == 'slice' or (k == 'path' and t.segs[-1] == 'Vec'):
        et = t.t if k == 'slice' else t.g[0]
        n = m.ev(v.n)
        out.append(str(n))
        for i in range(n):
            ser(prog, m, et, v.get(ic(i)), out, self_t)
        return
    n = tyk(t, self_t)
    if n == 'f64':
        out.append(hx(m.ev(v)))
    elif n in INTS:
        out.append(str(int(m.ev(v))))
    elif n in prog.enums:
        out.append(str(int(m.ev(v.t))))
    elif n == 'bool':
        out.append('1' if m.ev(v) else '0')
    elif n in ('String', 'str'):
        if isinstance(v, StrV) and len(v.parts) == 1 and v.parts[0][0] == 'sym':
            k = ('str', v.parts[0][1])
            if k not in m.vals:
                m.vals[k] = m.rng.choice(['hx', 'log', 'a-b_'])
            out.append(hs(m.vals[k]))
        else:
            out.append(hs('hx'))
    elif n == 'File':
        out.append(hs(fname))
    elif n == 'Option':
        some = m.ev(v.some)
        out.append('1' if some else '0')
        if some:
            ser(prog, m, t.g[0], v.v, out, self_t)
    elif n in prog.structs:
        for f, ft in Shapes(prog).fields(n):
            ser(prog, m, ft, v.f[f], out, n)
    else:
        raise HarnessError('type ' + str(n))


class H:
    def __init__(self, k, ty):
        self.k, self.ty = k, ty


class Conc:
    """executor recording the calls of Unit.run as a harness script; outputs are symbols"""
    concrete = True

    def __init__(self, U, prog, have):
        self.U, self.prog, self.have = U, prog, have
        self.osh = OutShapes(prog)
        self.script = []      # ('N', ty, value) ('C', key, args, outname) ('G', k, outname)
        self.nslots = 0
        self.nout = 0
        self.latest = {}

    def obj(self, v):
        ty = v.name
        self.script.append(('N', ty, v))
        h = H(self.nslots, ty)
        self.nslots += 1
        return h

    def call(self, key, *args):
        fn = self.prog.fns.get(key)
        if fn is None or key not in self.have:
            raise HarnessError('function %s::%s not callable' % key)
        args = list(args)
        if fn.self_kind and not isinstance(args[0], H):
            args[0] = self.obj(args[0])
        name = 'out%d' % self.nout
        self.nout += 1
        self.script.append(('C', key, args, name))
        st = fn.d.get('self_t')
        if fn.ret is None:
            return UNIT
        return self.osh.of(fn.ret, name, None, st)

    def get(self, h):
        name = 'out%d' % self.nout
        self.nout += 1
        self.script.append(('G', h, name))
        return self.osh.of(N('path', 0, segs=[h.ty], g=[]), name)

    def set(self, h, path, v):
        self.script.append(('S', h, path, v))

    def created(self):
        """names of the files the run left behind (its directory is emptied first)"""
        self.script.insert(0, ('F', None))
        name = 'out%d' % self.nout
        self.nout += 1
        self.script.append(('F', name))
        return ConcFiles(name)

    def text(self, h):
        """what the run wrote to the file of object h"""
        self.script.insert(0, ('F', None))
        name = 'out%d' % self.nout
        self.nout += 1
        self.script.append(('R', name))
        return ConcText(name)

    def draws(self):
        return var('outdraws.u', I), var('outdraws.g', I), var('outdraws.n', I)

    def reset_draws(self):
        raise HarnessError('reset_draws')

    # one run
    def script_text(self, m, seed):
        out = [str(seed)]
        for op in self.script:
            if op[0] == 'N':
                out += ['N', op[1]]
                ser(self.prog, m, N('path', 0, segs=[op[1]], g=[]), op[2], out)
            elif op[0] == 'C':
                key, args = op[1], op[2]
                fn = self.prog.fns[key]
                out += ['C', '%s::%s' % key]
                st = fn.d.get('self_t')
                if fn.self_kind:
                    out.append(str(args[0].k))
                    args = args[1:]
                for (p, ty), a in zip(fn.params, args):
                    ser(self.prog, m, ty, a, out, st)
            elif op[0] == 'S':
                t = N('path', 0, segs=[op[1].ty], g=[])
                for x in op[2]:
                    t = dict((a[0], a[1]) for a in Shapes(self.prog).fields(t.segs[-1]))[x]
                out += ['S', str(op[1].k), '.'.join(op[2])]
                ser(self.prog, m, t, op[3], out)
            elif op[0] == 'F':
                out.append('F')
            elif op[0] == 'R':
                out += ['R', hs('scratch.dat')]
            elif op[0] == 'G':
                out += ['G', str(op[1].k)]
        return ' '.join(out)

    def absorb(self, m, toks):
        """read the reply; returns None or a panic message"""
        tk = Toks(toks)
        panic = None
        for op in self.script:
            if tk.peek() == 'P':
                tk.s()
                panic = bytes.fromhex(tk.s()[1:]).decode(errors='replace')
                break
            if op[0] == 'C':
                fn = self.prog.fns[op[1]]
                if fn.ret is not None:
                    preset(self.prog, m.vals, fn.ret, op[3], tk, fn.d.get('self_t'))
            elif op[0] == 'F':
                fl = [bytes.fromhex(tk.s()[1:]).decode() for _ in range(int(tk.s()))]
                m.vals[(op[1],)] = fl
            elif op[0] == 'R':
                ok = tk.s() == '1'
                m.vals[(op[1],)] = bytes.fromhex(tk.s()[1:]).decode() if ok else None
            elif op[0] == 'G':
                preset(self.prog, m.vals, N('path', 0, segs=[op[1].ty], g=[]), op[2], tk)
        if panic is None and tk.peek() == 'P':
            tk.s()
            panic = bytes.fromhex(tk.s()[1:]).decode(errors='replace')
        if tk.s() != 'D':
            raise HarnessError('protocol: ' + ' '.join(toks)[:300])
        n = int(tk.s())
        c = {'u': 0, 'g': 0, 'n': 0}
        for _ in range(n):
            k, sz, v = tk.s(), int(tk.s()), tk.s()
            if k == 'g':
                m.vals[('Gidx', c[k], sz)] = int(v, 16)
            else:
                m.vals[('U01' if k == 'u' else 'N01', c[k])] = unhx(v)
            c[k] += 1
        for k in c:
            m.vals[('outdraws.' + k,)] = c[k]
        return panic


def walk_nan(vals):
    return [k for k, v in vals.items() if isinstance(v, float) and v != v]


def literals(prog):
    """the numbers that the sources of the library mention: inputs are drawn next to them at times"""
    if getattr(prog, 'lits_', None) is None:
        xs = set()
        for f in {fn.d.get('file') for fn in prog.fns.values()} - {'obs.rs', 'main.rs', 'writers.rs', None}:
            try:
                t = open('%s/src/%s' % (prog.root, f)).read()
            except OSError:
                continue
            t = re.sub(r'#\[cfg\(test\)\].*', '', re.sub(r'//[^\n]*', '', t), flags=re.S)
            xs |= {float(x.replace('_', '')) for x in re.findall(r'(?<![\w.])(\d[\d_]*(?:\.\d+)?(?:e-?\d+)?)', t)}
        prog.lits_ = sorted(x for x in xs if 0 < x < 520 and x not in (1.0, 2.0))
    return prog.lits_


def well_conditioned(name):
    """reals that may be large without making the results depend on rounding: the clock and the inverse temperature"""
    return name.rsplit('.', 1)[-1] in ('t', 'beta')


def kin(vals, rng):
    """some of the inputs of the trial before (whole vectors and sequences), the others are drawn anew: code that
    keeps results for later calls is seen when only a part of what they depend on stays the same"""
    p, keep, out = rng.choice((0.3, 0.6, 0.9)), {}, {}
    for k, v in vals.items():
        g = k[0].rsplit('.', 1)[0] if SYMS.get(k[0]) is not None and SYMS[k[0]].unit is not None else k[:2] if k[0] == 'str' else k[0]
        if g not in keep:
            keep[g] = rng.random() < p
        if keep[g]:
            out[k] = v
    return out


def sample_unit(U, prog, hx_, seed, count, budget, log=None):
    """run the unit's script on real code for random inputs; -> dict(tried, ran, fails=[...], note)"""
    res = {'ran': 0, 'tried': 0, 'fuzzy': 0, 'fails': [], 'note': '', 'distinct': 0}
    t0 = time.time()
    try:
        I = In(prog)
        U.pre(I)
        X = Conc(U, prog, hx_.have)
        outs = U.run(X, I)
        O = {k: (X.get(v) if isinstance(v, H) else v) for k, v in outs.items()}
        posts = U.post(I, O)
    except (HarnessError, Unsupported, Dead, NeedSplit, Budget, AttributeError, KeyError, TypeError) as e:
        res['note'] = 'not sampled: %s: %s' % (type(e).__name__, str(e)[:200])
        return res
    rng = random.Random('%s/%s' % (seed, U.name))
    seen = set()
    prev, lits = None, literals(prog)
    while res['ran'] < count and time.time() - t0 < budget and res['tried'] < 40 * count:
        res['tried'] += 1
        m = Model(random.Random(rng.random()), kin(prev, rng) if prev and rng.random() < 0.3 else None)
        if lits and rng.random() < 0.15:
            m.near, m.near_ok = lits, well_conditioned
        sd = rng.randrange(1 << 48)
        try:
            f0 = m.fuzzy
            if not all(m.ev(h) for h in I.hyps) or m.fuzzy != f0:
                continue
            txt = X.script_text(m, sd)
            prev = dict(m.vals)
        except (EvalError, OverflowError, ZeroDivisionError):
            continue
        r = hx_.line(txt, getattr(U, 'line_timeout', 60))
        res['ran'] += 1
        if r == 'timeout' or r == 'died':
            res['fails'].append({'post': 'returns normally', 'how': 'no answer within %ds' % getattr(U, 'line_timeout', 60) if r == 'timeout' else 'process died', 'script': txt, 'inputs': dump_model(m)})
            break
        m.memo = {}
        pn = X.absorb(m, r)
        seen.add(hash((txt.split(' ', 1)[-1], tuple(r[r.index('D'):]))))
        if pn is not None:
            if pn.startswith('HX protocol'):
                res['note'] = pn
                return res
            res['fails'].append({'post': 'returns normally', 'how': 'panic: ' + pn, 'script': txt, 'inputs': dump_model(m)})
            break
        bad = None
        for nm, goal, *opt in posts:
            goal = goal_term(goal)
            if opt and opt[0].get("sufficient"):
                continue
            try:
                f0 = m.fuzzy
                v = m.ev(goal)
                if v or m.fuzzy != f0:
                    res['fuzzy'] += m.fuzzy != f0
                    continue
                m2 = Model(random.Random(0), m.vals)
                m2.tol = U.tol
                if not m2.ev(goal) and m2.fuzzy == 0:
                    bad = (nm, goal)
                    break
            except (EvalError, OverflowError, ZeroDivisionError) as e:
                if walk_nan(m.vals):
                    bad = (nm, goal)
                    break
                res['fuzzy'] += 1
        if bad:
            res['fails'].append({'post': bad[0], 'how': 'ensures false on the real outputs', 'script': txt, 'inputs': dump_model(m, 120), 'reply': ' '.join(r)[:4000],
                                 'vals': [[list(k), v] for k, v in m.vals.items()] if len(m.vals) < 20000 else None})
            break
    res['distinct'] = len(seen)
    res['t'] = round(time.time() - t0, 3)
    return res


def replay_unit(U, prog, hx_, fail):
    """run a recorded failing script on the current tree; -> (still fails, text)"""
    I = In(prog)
    U.pre(I)
    X = Conc(U, prog, hx_.have)
    outs = U.run(X, I)
    O = {k: (X.get(v) if isinstance(v, H) else v) for k, v in outs.items()}
    posts = {x[0]: x[1] for x in U.post(I, O)}
    r = hx_.line(fail['script'], getattr(U, 'line_timeout', 60))
    if isinstance(r, str):
        return True, r
    m = Model(random.Random(0), {tuple(k): v for k, v in fail.get('vals') or []})
    m.memo = {}
    pn = X.absorb(m, r)
    if pn is not None:
        return True, 'panic: ' + pn
    if fail['post'] not in posts:
        return False, 'the contract has no such ensures now'
    m.tol = U.tol
    try:
        ok = m.ev(goal_term(posts[fail['post']]))
    except (EvalError, OverflowError, ZeroDivisionError) as e:
        return True, 'not a number: %r' % e
    return not ok, 'reply: ' + ' '.join(r)[:1500]
