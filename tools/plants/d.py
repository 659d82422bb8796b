SC, SL, SP, OB, WR, MA, CF = 'src/spinchain.rs', 'src/spinchain_langevin.rs', 'src/spin.rs', 'src/obs.rs', 'src/writers.rs', 'src/main.rs', 'src/config.rs'

plant('s33-log-name-pattern', 'C22', [(OB, 'file_glob.push_str("*.dat");', 'file_glob.push_str("[0-9].dat");')],
'''fn main() {
    for k in 0..12 { std::fs::write(format!("log{}.dat", k), format!("0 1\\n1 {}\\n", k)).unwrap(); }
    let mut c = conf(4, 4); two_point_average(&mut c);
    let t = std::fs::read_to_string("two-point.dat").unwrap();
    let v: Vec<f64> = t.split_whitespace().map(|x| x.parse().unwrap()).collect();
    if v.len() != 4 || (v[3] - 5.5).abs() > 1e-9 { eprintln!("averages {:?}", v); std::process::exit(1); }
}''', 'eleven logs or more', 'logs numbered 10 and up are left out of the two-point average', inside='obs')

plant('s34-points-per-worker', 'C18', [(OB, ('let t_points: u32 = (points / threads) as u32;', 2), 'let t_points: u32 = ((points + threads - 1) / threads) as u32;'),
 (OB, ('_ if i == threads - 1 => t_points + (points as u32) - (threads as u32) * t_points,', 2), '_ if i == threads - 1 => (points as u32).saturating_sub((threads as u32 - 1) * t_points),')],
'''fn main() {
    for (p, w) in [(8, 3), (5, 4)] {
        let mut c = conf(4, 4); c.threads = w; c.mc_points = p;
        let _ = std::fs::remove_file("mc.dat"); let _ = std::fs::remove_file("mc_live.dat");
        run_mc(&mut c);
        let n = std::fs::read_dir(".").unwrap().filter_map(|f| f.ok()).filter(|f| f.file_name().to_string_lossy().starts_with("mc")).map(|f| std::fs::read_to_string(f.path()).unwrap().lines().filter(|l| !l.starts_with('#')).count()).max().unwrap();
        if n != p { eprintln!("{} samples asked for, {} written", p, n); std::process::exit(1); }
    }
}''', 'a number of points such that rounding up gives the workers before the last more than all of them (5 points, 4 workers)', 'more samples are written than were asked for', inside='obs')

plant('s35-capped-damping', 'C14', [(SL, '''                Self::cross(&self.spins[2 * (l - 1) + 1].dir, &omega_bare, -self.gamma);''', '''                Self::cross(&self.spins[2 * (l - 1) + 1].dir, &omega_bare, -self.gamma.min(1.0));''')],
'''fn main() {
    let a = SpinChainLangevin::new(conf(6, 4), 0, 1.7);
    let h = vec![[0.2, 0.1, -0.4]; 6];
    let o = a.odd_omega(&h, 0.0, &[0.0, 0.0, 0.0]);
    let (j, s, t) = (&a.j_couple[4], &a.spins[4].dir, &a.spins[5].dir);
    let b = [j[0] * s[0] - h[5][0], j[1] * s[1] - h[5][1], j[2] * s[2] - h[5][2]];
    let c = [t[1] * b[2] - t[2] * b[1], t[2] * b[0] - t[0] * b[2], t[0] * b[1] - t[1] * b[0]];
    let g = SpinChainLangevin::cross(t, &b, -1.7);
    let e = [b[0] + g[0] , b[1] + g[1], b[2] + g[2]];
    let d = SpinChainLangevin::ssh_sum(&b, &g, &[0.0, 0.0, 0.0]);
    for k in 0..3 { close(o[2][k], d[k], "field of the last site"); }
}''', 'a damping above one', 'the damping of the right end is capped at one, the left one is not', inside='spinchain_langevin')

plant('s36-trajectory-cadence', 'C29', [(OB, 'let cycle_steps: u64 = (conf.tau / conf.dt).round() as u64;', 'let cycle_steps: u64 = (conf.tau / conf.dt) as u64;')],
'''fn main() {
    // tau / dt = 2.9999999999999996
    let mut c = conf(4, 4); c.tau = 0.3; c.dt = 0.1; c.t = 1.0;
    gen_single_traj(&mut c, 6);
    let n = std::fs::read_to_string("hist-st-t-1.dat").unwrap().lines().count();
    if n != 6 { eprintln!("{} samples, 6 asked for", n); std::process::exit(1); }
}''', 'a step that divides the period only up to rounding (0.3 and 0.1)', 'samples are taken at every second step instead of once per period', inside='obs')

plant('s37-reused-number', 'C12', [(SC, ('''        let phi: f64 = (1.0 - 2.0 * unif.sample(&mut rng)).acos();''', 4), '''        let u: f64 = unif.sample(&mut rng);
        let phi: f64 = (1.0 - 2.0 * u).acos();'''), (SC, ('if de < 0.0 || unif.sample(&mut rng) < (-self.vars.beta * de).exp() {', 4), 'if de < 0.0 || u < (-self.vars.beta * de).exp() {')],
'''fn main() {
    // free spins: spins in a constant field, <z> known
    let mut c = conf(4, 4); c.jvar = 0.0; c.hvar = 0.0; c.hfield = vec![0.0; 3]; c.tau = std::f64::consts::PI; c.beta = 2.0;
    let mut a = SpinChain::new(c, 0);
    for j in a.j_couple.iter_mut() { *j = [0.0; 3]; }
    let (mut z, n) = (0.0, 200000);
    for k in 0..n + 1000 { a.metropolis_update_magnus(); if k >= 1000 { z += a.m_tot()[2] / 4.0; } }
    let e = 1.0 / 2.0f64.tanh() - 0.5;
    println!("{} {}", z / n as f64, e);
    if (z / n as f64 - e).abs() > 0.03 { std::process::exit(1); }
}''', 'the statistics of many updates', 'the number that decides on acceptance is the one that chose the polar angle, so the update does not sample the ensemble')

plant('s38-turns-past-half', 'C02', [(SP, 'let ds: f64 = dts.sin();', 'let ds: f64 = (1.0 - dc * dc).max(0.0).sqrt().copysign(dts);')],
'''fn main() {
    let f = [0.0, 0.0, 2.0];
    let mut a = Spin::new_xyz(&[1.0, 0.0, 0.0]);
    a.rotate(&f, 2.0);
    let e = [4.0f64.cos(), -4.0f64.sin(), 0.0];
    for k in 0..3 { close(a.dir[k], e[k], "turned"); }
}''', 'a field times step of more than half a turn', 'the spin turns the other way round')

plant('s39-subsystem-set-late', 'C23', [(OB, '''pub fn get_obsh(conf: &mut Config) -> [f64; 4] {
    conf.ssize = conf.hsize;
    //    println!("Target? {}", estim_e(conf,2.88));

    let mut sc: SpinChain = sampling_chain(conf, 0);
''', '''pub fn get_obsh(conf: &mut Config) -> [f64; 4] {
    //    println!("Target? {}", estim_e(conf,2.88));

    let mut sc: SpinChain = sampling_chain(conf, 0);
    conf.ssize = conf.hsize;
    sc.vars.ssize = conf.ssize;
''')],
'''fn main() {
    let mut c = conf(6, 2); c.jvar = 0.0; c.hvar = 0.0; c.hfield = vec![0.0; 3]; c.hs = vec![0.0, 0.0, 8.0]; c.log = false; c.beta = 3.0;
    let o = get_obsh(&mut c);
    if o[3] > -0.8 { eprintln!("magnetisation {:?}", o); std::process::exit(1); }
}''', 'a static field of the subsystem and a subsystem shorter than the chain', 'the chain that is sampled has the static field on the former subsystem only', inside='obs')

plant('s40-period-by-fraction', 'C25', [(OB, ('''((spin_chain.t / spin_chain.vars.dt).round() as i64).rem_euclid(tau_steps)
                        == 0
''', 1), '''(spin_chain.t / spin_chain.vars.tau).fract().abs()
                        < 0.5 / (tau_steps as f64)
''')],
'''fn main() {
    let mut c = conf(4, 4); c.log = true; c.strob = true; c.runs = 1; c.threads = 1; c.tau = 1.0; c.dt = 0.1; c.t = 20.05;
    run_sim_response(&mut c);
    let n = std::fs::read_to_string("log0.dat").unwrap().lines().filter(|l| !l.starts_with('#')).count();
    if n < 40 || n > 43 { eprintln!("{} lines", n); std::process::exit(1); }
}''', 'times that the accumulated steps reach a rounding error early', 'periods are left out of the stroboscopic log of the response run', inside='obs')

plant('s41-last-of-subsystem', 'C20', [(SC, '''            .take((self.vars.hsize - 1) as usize)
            .skip(1)''', '''            .take((self.vars.ssize - 1) as usize)
            .skip(1)''')],
'''fn main() {
    let mut c = conf(8, 4); c.log = true;
    let a = SpinChain::new(c, 0); a.log_ext(); drop(a);
    let t = std::fs::read_to_string("log0.dat").unwrap();
    let n = t.lines().filter(|l| !l.starts_with('#') && !l.is_empty()).count();
    if n != 3 { println!("{} sites", n); std::process::exit(1); }
}''', 'a subsystem shorter than the chain', 'the spatially resolved log leaves out the last site of the subsystem')

plant('s42-quarter-rounded', 'C24', [(SC, 'let sp: [f64; 3] = self.spins[(3.0 * s / 4.0) as usize].dir;', 'let sp: [f64; 3] = self.spins[(3.0 * s / 4.0).round() as usize].dir;')],
'''fn main() {
    for l in [8, 4, 2] {
        let mut c = conf(l, l); c.log = true;
        SpinChain::new(c, 0).log();
    }
}''', 'a chain of two sites which is all subsystem', 'logging reads a spin past the end of the chain and panics')

plant('s43-nearly-unit', 'C01', [(SP, '''        let norm: f64 = input.iter().map(|x| x * x).sum::<f64>().sqrt();
        Spin {''', '''        let norm2: f64 = input.iter().map(|x| x * x).sum::<f64>();
        // unit vectors need no normalisation
        let norm: f64 = if (norm2 - 1.0).abs() < 1e-3 { 1.0 } else { norm2.sqrt() };
        Spin {''')],
'''fn main() {
    let a = Spin::new_xyz(&[0.6003, 0.0, 0.8]);
    close(dot(&a.dir, &a.dir), 1.0, "length");
}''', 'a vector whose length is close to one but not one', 'the spin is not of unit length')


plant('s44-log-number', 'C19', [(SC, '&[conf.file.clone(), num.to_string(), ".dat".to_string()].join("");', '&[conf.file.clone(), (num % 1000).to_string(), ".dat".to_string()].join("");')],
'''fn main() {
    let mut c = conf(2, 2); c.log = true;
    for k in [0, 7, 10, 100, 1000, 1001] {
        SpinChain::new(c.clone(), k);
        let f = format!("{}{}.dat", c.file, k);
        if !std::path::Path::new(&f).exists() { println!("no {}", f); std::process::exit(1); }
    }
}''', 'a thousand runs or more', 'the runs numbered 1000 and up write their logs over those of the first runs')

plant('s45-closing-triple', 'C13', [(SC, ('_ if index == 0 => &self.j_couple[h - 1],', 0), '_ if index == 0 => &self.j_couple[index],')],
'''fn main() {
    let mut a = SpinChain::new(conf(5, 5), 0);
    a.static_h = vec![[0.0; 3]; 5];
    let e = a.mc_system_energy_rot();
    a.spins.rotate_left(1); a.j_couple.rotate_left(1);
    close(a.mc_system_energy_rot(), e, "energy of the ring counted from its next site");
}''', 'couplings which differ between bonds and between x and y', 'the energy of the rotating-frame ensemble takes the wrong bond for the triple around the closing site')

plant('s46-writer-cap', 'C26', [(WR, '''        for received in rx {
            writeln!''', '''        for received in rx.iter().take(1 << 16) {
            writeln!''')],
'''fn main() {
    let (tx, rx) = std::sync::mpsc::channel();
    let f = File::create("o.dat").unwrap();
    let w = write_in_bg(f, rx);
    for k in 0..70000 { if tx.send(k.to_string()).is_err() { break; } }
    drop(tx); w.join().unwrap();
    let n = std::fs::read_to_string("o.dat").unwrap().lines().count();
    if n != 70000 { eprintln!("{} of 70000 lines", n); std::process::exit(1); }
}''', 'more than 65536 samples', 'the writer stops after 65536 lines', inside='obs')

plant('s47-runs-not-awaited', 'C25', [(OB, ('''    //    m.join_and_clear().unwrap();
    m.join().unwrap();

    //Update config''', 2), '''    //    m.join_and_clear().unwrap();
    //Update config''')],
'''fn main() {
    let mut c = conf(6, 6); c.log = true; c.runs = 2; c.threads = 2; c.t = 30.0; c.strob = false; c.drive = DriveType::xyplane;
    c.trel = 0.0; c.offset = 0;
    std::fs::write("config.toml", toml::to_string(&c).unwrap()).unwrap();
    run_sim(&mut c);
    for k in 0..2 {
        let n = std::fs::read_to_string(format!("{}{}.dat", c.file, k)).map(|t| t.lines().count()).unwrap_or(0);
        if n < 1500 { eprintln!("log {} has {} lines when the command is done", k, n); std::process::exit(1); }
    }
}''', 'a command that ends while runs are still going', 'the command does not wait for its runs: the logs are cut off', inside='obs')

plant('s48-remembered-field', 'C08', [(SC, 'fn h_ext(&self, t: f64) -> [f64; 3] {', '''fn h_ext(&self, t: f64) -> [f64; 3] {
        // both halves of a step ask for the same time
        thread_local!(static LAST: std::cell::Cell<(f64, [f64; 3])> = std::cell::Cell::new((f64::NAN, [0.0; 3])));
        let (at, field) = LAST.with(|l| l.get());
        if at == t {
            return field;
        }
        let field = self.h_ext_at(t);
        LAST.with(|l| l.set((t, field)));
        field
    }

    fn h_ext_at(&self, t: f64) -> [f64; 3] {''')],
'''fn main() {
    let mut c = conf(4, 4); c.drive = DriveType::xyplane; c.tau = 8.0;
    let mut d = c.clone(); d.tau = 4.0;
    let (mut a, mut b) = (SpinChain::new(c, 0), SpinChain::new(d, 0));
    b.spins = a.spins.clone(); b.static_h = a.static_h.clone(); b.j_couple = a.j_couple.clone();
    a.t = 1.0; b.t = 1.0;
    let mut fresh = SpinChain::new(b.vars.clone(), 0);
    fresh.spins = b.spins.clone(); fresh.static_h = b.static_h.clone(); fresh.j_couple = b.j_couple.clone(); fresh.t = 1.0;
    a.update(); b.update();
    let f = std::thread::spawn(move || { fresh.update(); fresh }).join().unwrap();
    for i in 0..4 { for k in 0..3 { close(b.spins[i].dir[k], f.spins[i].dir[k], "a step after another chain's step"); } }
}''', 'two chains with different drives that are asked for the same time one after the other', 'the field is that of the chain that was asked before')

plant('s49-near-zero', 'C22', [(OB, 'if line_data[0].abs() < 1e-5 {', 'if line_data[0].abs() < 1e-2 {')],
'''fn main() {
    std::fs::write("log0.dat", "-0.005 7\\n0 2\\n0.005 5\\n").unwrap();
    let mut c = conf(4, 4); two_point_average(&mut c);
    let t = std::fs::read_to_string("two-point.dat").unwrap();
    let v: Vec<f64> = t.split_whitespace().map(|x| x.parse().unwrap()).collect();
    if v.len() != 6 || (v[5] - 10.0).abs() > 1e-9 { eprintln!("averages {:?}", v); std::process::exit(1); }
}''', 'logs with a time step below 0.01', 'the values that are multiplied are not those at time zero', inside='obs')
