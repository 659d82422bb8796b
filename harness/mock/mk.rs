//! Recording stand-in for the dynamics of a chain: every update changes one spin to a value
//! computed from (chain, update number); energies are values computed from (name, chain,
//! update number), or a decreasing function of the inverse temperature when a fit is run.
#![allow(dead_code)]
use std::cell::{Cell, RefCell};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

pub static IDS: AtomicU64 = AtomicU64::new(0);
pub static FIT: AtomicU64 = AtomicU64::new(0);
pub static RETURNED: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub static OUT: Mutex<Vec<String>> = Mutex::new(Vec::new());

pub fn sm(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
pub fn h3(id: u64, n: u64, tag: u64) -> [f64; 3] {
    if FIT.load(Ordering::Relaxed) == 1 {
        return [0.0; 3];
    }
    let h = sm(id.wrapping_mul(0x1000003) ^ n.wrapping_mul(0x9E3779B1) ^ (tag << 56));
    let f = |x: u64| ((x & 2047) as f64 - 1024.0) / 1024.0;
    [f(h >> 53), f(h >> 42), f(h >> 31)]
}
pub fn nameh(name: &str) -> u64 {
    name.bytes().fold(7u64, |a, b| sm(a ^ b as u64))
}

pub struct Mk {
    pub id: u64,
    ver: Cell<u64>,
    site: Cell<usize>,
    op: Cell<&'static str>,
    opn: Cell<u64>,
    beta: Cell<u64>,
    logged: Cell<bool>,
    ev: RefCell<Vec<String>>,
}

impl std::fmt::Debug for Mk {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "")
    }
}

impl Clone for Mk {
    fn clone(&self) -> Self {
        Mk::new(0, "clone", 0)
    }
}

impl Mk {
    pub fn new(num: usize, conf: &str, kind: u64) -> Mk {
        let id = IDS.fetch_add(1, Ordering::SeqCst);
        let m = Mk { id, ver: Cell::new(0), site: Cell::new(0), op: Cell::new(""), opn: Cell::new(0), beta: Cell::new(0), logged: Cell::new(false), ev: RefCell::new(vec![]) };
        let hex: String = conf.bytes().map(|b| format!("{:02x}", b)).collect();
        m.ev.borrow_mut().push(format!("N {} {} {} {}", id, num, kind, hex));
        m
    }
    #[inline]
    pub fn op(&self, name: &'static str, beta: f64) -> u64 {
        if name.as_ptr() != self.op.get().as_ptr() || beta.to_bits() != self.beta.get() {
            self.cut();
            self.op.set(name);
            self.beta.set(beta.to_bits());
        }
        self.opn.set(self.opn.get() + 1);
        let v = self.ver.get() + 1;
        self.ver.set(v);
        v
    }
    #[inline]
    pub fn next_site(&self, l: usize) -> usize {
        let k = self.site.get();
        let k = if k >= l { 0 } else { k };
        self.site.set(k + 1);
        k
    }
    pub fn cut(&self) {
        if self.opn.get() > 0 {
            self.ev.borrow_mut().push(format!("P {} {} {} {:x}", self.id, self.op.get(), self.opn.get(), self.beta.get()));
            self.opn.set(0);
        }
        self.op.set("");
    }
    pub fn obs(&self, name: &str, beta: f64) -> f64 {
        self.note(name);
        let h = nameh(name);
        if FIT.load(Ordering::Relaxed) == 1 {
            let a = (h & 1023) as f64 / 1024.0 - 0.5;
            let b = ((h >> 10) & 1023) as f64 / 1024.0 + 0.5;
            return a - b * beta / (1.0 + beta);
        }
        if FIT.load(Ordering::Relaxed) == 2 && name == "total_energy2" {
            return 0.0;
        }
        let z = sm(self.id.wrapping_mul(0x1000003) ^ self.ver.get().wrapping_mul(0x9E3779B1) ^ h);
        ((z >> 40) as f64 - 8388608.0) / 8388608.0
    }
    pub fn note(&self, name: &str) {
        self.cut();
        self.ev.borrow_mut().push(format!("O {} {} {}", self.id, name, self.ver.get()));
    }
    pub fn log(&self, name: &str, t: f64) {
        self.cut();
        if std::thread::current().name() != Some("main") {
            if !self.logged.replace(true) {
                // a command that does not wait for this run has returned before its next line
                std::thread::sleep(std::time::Duration::from_millis(60));
            }
            if RETURNED.load(Ordering::SeqCst) {
                self.ev.borrow_mut().push(format!("X {}", self.id));
            }
        }
        self.ev.borrow_mut().push(format!("L {} {} {} {:x}", self.id, name, self.ver.get(), t.to_bits()));
    }
}

impl Drop for Mk {
    fn drop(&mut self) {
        self.cut();
        let mut e = self.ev.borrow_mut();
        OUT.lock().unwrap().append(&mut e);
    }
}

/// wait for detached threads, then write what was recorded
pub fn finish(path: &str, result: &[String]) {
    for _ in 0..3000 {
        let n = std::fs::read_dir("/proc/self/task").map(|d| d.count()).unwrap_or(1);
        if n <= 1 {
            break;
        }
        std::thread::sleep(std::time::Duration::from_millis(2));
    }
    let mut s = OUT.lock().unwrap().join("\n");
    for r in result {
        s.push_str(&format!("\nR {}", r));
    }
    s.push_str("\nE ok\n");
    std::fs::write(path, s).unwrap();
}
