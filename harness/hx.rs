//! Driver: one line in (a script of calls on objects), one line out (results and draws).
use sc::hkio::*;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let mut out = std::io::stdout();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let mut res = String::new();
        let r = {
            let resr = &mut res;
            catch_unwind(AssertUnwindSafe(|| run(&line, resr)))
        };
        if let Err(e) = r {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            res.push_str(" P");
            m.wr(&mut res);
        }
        let (n, d) = rand::script::take();
        out.write_all(format!("\u{1}R{} D {}{}\n", res, n, d).as_bytes()).unwrap();
        out.flush().unwrap();
    }
}
fn run(line: &str, res: &mut String) {
    let mut t = Tok(line.split_whitespace());
    let mut slots: Slots = vec![];
    rand::script::reset(t.s().parse().unwrap());
    while let Some(op) = t.0.next() {
        match op {
            "N" => { let ty = t.s(); let v = sc::hk_new(ty, &mut t); slots.push(v); }
            "C" => { let f = t.s(); sc::hk_call(f, &mut t, &mut slots, res); }
            "G" => { let k: usize = t.s().parse().unwrap(); sc::hk_get(&slots[k], res); }
            "F" => {
                let mut v: Vec<String> = std::fs::read_dir(".").unwrap().map(|x| x.unwrap().file_name().into_string().unwrap()).collect();
                v.sort();
                for x in &v { let _ = std::fs::remove_file(x); }
                v.wr(res);
            }
            "S" => { let k: usize = t.s().parse().unwrap(); let p = t.s().to_string(); sc::hk_set(&mut slots[k], &p, &mut t); }
            "R" => { let p = String::rd(&mut t); match std::fs::read_to_string(&p) { Ok(x) => { res.push_str(" 1"); x.wr(res); } Err(_) => res.push_str(" 0") } }
            "X" => { let p = String::rd(&mut t); let _ = std::fs::remove_file(&p); }
            _ => panic!("HX protocol: {}", op),
        }
    }
}
