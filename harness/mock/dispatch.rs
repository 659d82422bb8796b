
#[allow(dead_code, unused_imports, unused_variables, unused_mut)]
mod mk_main__ {
    use super::*;
    fn b(s: &str) -> f64 {
        f64::from_bits(u64::from_str_radix(s, 16).unwrap())
    }
    fn w(x: f64) -> String {
        format!("{:x}", x.to_bits())
    }
    pub fn run() {
        let a: Vec<String> = std::env::args().collect();
        let d = a[2].clone();
        {
            let d = d.clone();
            std::panic::set_hook(Box::new(move |i| {
                let _ = std::fs::write(format!("{}/panic", d), format!("{}", i));
                std::process::exit(101);
            }));
        }
        if a[3] == "fit" {
            sc::mk::FIT.store(1, std::sync::atomic::Ordering::SeqCst);
        }
        if a[3] == "hist" {
            sc::mk::FIT.store(2, std::sync::atomic::Ordering::SeqCst);
        }
        let mut conf: Config = toml::from_str(&std::fs::read_to_string(format!("{}/in.toml", d)).unwrap()).unwrap();
        let mut res: Vec<String> = vec![];
        match a[1].as_str() {
/*ARMS*/
            x => panic!("no function {}", x),
        }
        sc::mk::RETURNED.store(true, std::sync::atomic::Ordering::SeqCst);
        // what has been written when the command returns is what its user finds
        std::fs::create_dir_all(format!("{}/atret", d)).unwrap();
        for f in std::fs::read_dir(".").unwrap().flatten() {
            let _ = std::fs::copy(f.path(), format!("{}/atret/{}", d, f.file_name().to_string_lossy()));
        }
        std::fs::write(format!("{}/conf_after.toml", d), toml::to_string(&conf).unwrap()).unwrap();
        sc::mk::finish(&format!("{}/events", d), &res);
        std::process::exit(0);
    }
}
fn main() {
    mk_main__::run();
}
