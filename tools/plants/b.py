SC, SL, SP, OB, WR = 'src/spinchain.rs', 'src/spinchain_langevin.rs', 'src/spin.rs', 'src/obs.rs', 'src/writers.rs'

plant('s09-edge-of-subsystem', 'C04', [(SL, '_ if x < conf.ssize => [', '_ if x <= conf.ssize => [')],
'''fn main() {
    let mut c = conf(8, 4); c.hvar = 0.0; c.hs = vec![0.5, 0.0, -0.2];
    let a = SpinChainLangevin::new(c, 0, 0.1);
    for i in 0..8 { for k in 0..3 {
        let want = a.vars.hfield[k] + if i < 4 { a.vars.hs[k] } else { 0.0 };
        close(a.static_h[i][k], want, "field");
    } }
}''', 'open chain with a subsystem smaller than the chain and a subsystem field', 'the first site of the environment gets the field of the subsystem')

plant('s10-closing-sweep-clock', 'C07', [(SC, ('self.rotate_even(&self.even_omega(&h), self.vars.dt / 2.0);\n\n        self.t += self.vars.dt;', 1),
'self.t += self.vars.dt;\n        let shift: [f64; 3] = {\n            let (a, b) = (h_ext, self.h_ext(self.t));\n            [b[0] - a[0], b[1] - a[1], b[2] - a[2]]\n        };\n        let h: Vec<[f64; 3]> = h\n            .iter()\n            .enumerate()\n            .map(|(i, item)| if i < s { Self::sum_vec(item, &shift) } else { *item })\n            .collect();\n        self.rotate_even(&self.even_omega(&h), self.vars.dt / 2.0);')],
'''fn main() {
    let mut c = conf(6, 4); c.drive = DriveType::uniaxial; c.dt = 0.3;
    let mut a = SpinChain::new(c, 0); a.t = 0.4;
    let s0: Vec<[f64; 3]> = a.spins.iter().map(|s| s.dir).collect();
    for _ in 0..5 { a.update(); }
    a.vars.dt = -a.vars.dt;
    for _ in 0..5 { a.update(); }
    for (x, y) in a.spins.iter().zip(s0.iter()) { for k in 0..3 { close(x.dir[k], y[k], "reversed"); } }
}''', 'a time-dependent drive', 'the closing half sweep uses the drive at the end of the step, so a step back does not undo a step')

plant('s11-drive-before-zero', 'C08', [(SC, ('let phi: f64 = 2.0 * pi * t / self.vars.tau;\n\n                [phi.cos(), self.vars.e * phi.sin(), 0.0]', 0), 'let phi: f64 = 2.0 * pi * (t / self.vars.tau).fract().abs();\n\n                [phi.cos(), self.vars.e * phi.sin(), 0.0]')],
'''fn main() {
    let mut c = conf(6, 6); c.drive = DriveType::xyelliptic;
    let mut a = SpinChain::new(c, 0);
    for t in [-9.3, -2.0, -0.4, 0.0, 1.1, 8.2] {
        a.t = t;
        let w = 2.0 * std::f64::consts::PI * t / 7.0;
        let on = a.total_energy();
        a.vars.drive = DriveType::none;
        let off = a.total_energy();
        a.vars.drive = DriveType::xyelliptic;
        let m = a.m();
        close(on - off, (m[0] * w.cos() + 0.6 * m[1] * w.sin()) / 6.0, "energy in the drive");
    }
}''', 'the elliptic drive at a negative time, off the multiples of half a period', 'the elliptic drive turns the wrong way before t = 0')

plant('s12-packed-transform', 'C10', [(SC, '''                re: x.dir[0],
                im: 0.0,''', '''                re: x.dir[0],
                im: x.dir[1],'''), (SC, ('''                + x_buffer[i].im * x_buffer[i].im
                + y_buffer[i].re * y_buffer[i].re
                + y_buffer[i].im * y_buffer[i].im
''', 0), '''                + x_buffer[i].im * x_buffer[i].im
'''), (SC, ('''                + x_buffer[i].im * x_buffer[i].im
                + y_buffer[i].re * y_buffer[i].re
                + y_buffer[i].im * y_buffer[i].im
''', 0), '''                + x_buffer[i].im * x_buffer[i].im
''')],
'''fn main() {
    let a = SpinChain::new(conf(8, 8), 0);
    let ek = a.energy_spectrum();
    for n in 0..8 {
        let q = 2.0 * std::f64::consts::PI * (n as f64 - 4.0) / 8.0;
        let mut want = 0.0;
        for k in 0..3 {
            let (mut re, mut im) = (0.0, 0.0);
            for (x, s) in a.spins.iter().enumerate() { re += s.dir[k] * (q * x as f64).cos(); im += s.dir[k] * (q * x as f64).sin(); }
            want += re * re + im * im;
        }
        close(ek[n], want, "spectrum");
    }
}''', 'a configuration with a handedness in the x-y plane (sum over k and each pair of opposite k stay right)', 'x and y components are packed into one complex transform, which mixes in their cross correlation')

plant('s13-shared-noise', 'C14', [(SL, '''            h_normal.sample(&mut r),
        ];

        //let h_l: [f64;3] = [0.0,0.0,0.0];''', '''            -h_l[2],
        ];

        //let h_l: [f64;3] = [0.0,0.0,0.0];''')],
'''fn main() {
    let mut c = conf(4, 4); c.jvar = 0.0; c.hvar = 0.0; c.hfield = vec![0.0; 3]; c.dt = 0.01;
    let mut a = SpinChainLangevin::new(c, 0, 0.2);
    for j in a.j_couple.iter_mut() { *j = [0.0; 3]; }
    let (mut xy, mut xx, mut yy) = (0.0, 0.0, 0.0);
    for _ in 0..4000 {
        for s in a.spins.iter_mut() { *s = Spin::new_xyz(&[1.0, 0.0, 0.0]); }
        a.update();
        let (x, y) = (a.spins[0].dir[1], a.spins[3].dir[1]);
        xy += x * y; xx += x * x; yy += y * y;
    }
    let r: f64 = xy / (xx * yy).sqrt();
    if r.abs() > 0.2 { println!("the kicks of the two ends are correlated: {}", r); std::process::exit(1); }
}''', 'a look at both ends at once: each end alone has the right noise', 'one component of the noise of the right end is the negative of that of the left end', inside='spinchain_langevin')

plant('s14-cold-coth', 'C17', [(SC, 'beta = 1.0 / (e + 1.0 / beta.tanh());', 'beta = 1.0 / (e + if beta > 3.0 { 1.0 } else { 1.0 / beta.tanh() });')],
'''fn main() {
    for k in 0..200 {
        let e = -0.95 + 0.004 * k as f64;
        let b = SpinChain::solve_beta(e);
        let r = 1.0 / (e + 1.0 / b.tanh()) - b;
        if !(b > 0.0 && r.abs() < 0.012) { println!("solve_beta({}) = {} misses by {}", e, b, r); std::process::exit(1); }
    }
}''', 'an energy density whose inverse temperature lies a little above 3', 'coth is replaced by its limit 1 too early')

plant('s15-quarter-site', 'C20', [(SC, 'let sp: [f64; 3] = self.spins[(3.0 * s / 4.0) as usize].dir;', 'let sp: [f64; 3] = self.spins[3 * (self.vars.ssize as usize / 4)].dir;')],
'''fn main() {
    for l in [4, 6, 8, 10, 14] {
        let mut c = conf(l, l); c.log = true; c.file = format!("x{}-", l);
        let a = SpinChain::new(c, 0);
        a.log();
        let t = std::fs::read_to_string(format!("x{}-0.dat", l)).unwrap();
        let v: Vec<f64> = t.split_whitespace().map(|x| x.parse().unwrap()).collect();
        let want = a.spins[(3.0 * l as f64 / 4.0) as usize].dir;
        for k in 0..3 { close(v[10 + k], want[k], "site at three quarters"); }
    }
}''', 'a subsystem length that is not a multiple of four', 'the log shows another site than the one at three quarters')

plant('s16-last-field', 'C06', [(SC, 'result.push(SpinChain::ssh_sum(&left_s, &right_s, &h[2 * (l - 1) + 1]));', 'result.push(SpinChain::ssh_sum(&left_s, &right_s, &h[2 * (l - 1)]));')],
'''fn main() {
    let mut c = conf(6, 4); c.dt = 1e-3; c.hvar = 1.0;
    let mut a = SpinChain::new(c, 0);
    let e0 = a.total_energy();
    for _ in 0..3000 { a.update(); }
    let e1 = a.total_energy();
    if (e1 - e0).abs() > 1e-4 { println!("energy went from {} to {}", e0, e1); std::process::exit(1); }
}''', 'disordered fields (the last two sites have different ones)', 'the last site turns in the field of its neighbour, so the energy is not conserved')

plant('s17-ext-log-bound', 'C24', [(SC, '''            .take((self.vars.hsize - 1) as usize)
            .skip(1)''', '''            .take(self.vars.hsize as usize)
            .skip(1)''')],
'''fn main() {
    for s in [2, 4, 6] {
        let mut c = conf(6, s); c.log = true; c.file = "y".to_string();
        SpinChain::new(c, 0).log_ext();
    }
}''', 'a subsystem that is the whole chain', 'the extended log indexes past the end of the chain')

plant('s18-config-before-offset', 'C19', [(OB, ('''    conf.offset += num as u32;
    fs::write("config.toml", toml::to_string(&conf).unwrap()).unwrap();
''', 2), '''    fs::write("config.toml", toml::to_string(&conf).unwrap()).unwrap();
    conf.offset += num as u32;
''')],
'''fn main() {
    let mut c = conf(4, 4); c.log = true; c.runs = 2; c.threads = 2; c.t = 0.1;
    run_sim(&mut c);
    let f = std::fs::read("log0.dat").unwrap();
    // the next invocation reads the configuration back
    let mut d: Config = toml::from_str(&std::fs::read_to_string("config.toml").unwrap()).unwrap();
    run_sim(&mut d);
    if std::fs::read("log0.dat").unwrap() != f || !std::path::Path::new("log3.dat").exists() { eprintln!("the second batch overwrote the first"); std::process::exit(1); }
}''', 'two batches, each its own invocation', 'the stored configuration has the old offset, so the next batch overwrites the logs of this one', inside='obs')


plant('s19-magnus-sample-site', 'C18', [(OB, ('let sp: [f64; 3] = sc.spins[(3.0 * s / 4.0) as usize].dir;', 3), 'let sp: [f64; 3] = sc.spins[3 * (s / 4.0) as usize].dir;')],
'''fn main() {
    // subsystem of two sites: the second site shown is site 1, so the two sites give the magnetisation
    let mut c = conf(6, 2); c.threads = 2; c.mc_points = 6;
    run_mc_magnus(&mut c);
    for l in std::fs::read_to_string("mc_live.dat").unwrap().lines() {
        let v: Vec<f64> = l.split_whitespace().map(|x| x.parse().unwrap()).collect();
        for k in 0..3 { close(v[2 + k], 0.5 * (v[5 + k] + v[8 + k]), "magnetisation of the two sites"); }
    }
}''', 'a subsystem length that is not a multiple of four', 'the samples show another site than the one at three quarters', inside='obs')

plant('s20-profile-closing-bond', 'C21', [(OB, '''                        _ if i == 0 => &sc.j_couple[L - 1],''', '''                        _ if i == 0 => &sc.j_couple[sc.vars.ssize as usize - 1],''')],
'''fn main() {
    // every bond counts half for each of its ends: on a ring of four, the alternating sum vanishes
    let mut c = conf(4, 2); c.threads = 1; c.mc_points = 3; c.jvar = 1.5;
    run_mc_profile(&mut c);
    let e: Vec<f64> = std::fs::read_to_string("mc_profile.dat").unwrap().lines().map(|l| l.split_whitespace().nth(1).unwrap().parse().unwrap()).collect();
    close(e[0] + e[2], e[1] + e[3], "alternating sum of the site energies");
}''', 'a subsystem smaller than the chain and disordered couplings', 'the bond that closes the ring uses the coupling at the end of the subsystem', inside='obs')

plant('s21-average-by-files', 'C22', [(OB, ('''    for entry in entries {
        match entry {
            Ok(path) => {
                //Load data into memory
                let file''', 0), '''    let mut files: f64 = 0.0;
    for entry in entries {
        match entry {
            Ok(path) => {
                files += 1.0;
                //Load data into memory
                let file'''), (OB, 'let to_add: String = format!(" {}", j / avg_nums[i]);', 'let to_add: String = format!(" {}", j / files);')],
'''fn main() {
    std::fs::write("log0.dat", "h\\n0 1\\n1 3\\n2 7\\n").unwrap();
    std::fs::write("log1.dat", "h\\n0 5\\n1 9\\n").unwrap();
    let mut c = conf(4, 4); average(&mut c);
    let t = std::fs::read_to_string("avg.dat").unwrap();
    let v: Vec<f64> = t.split_whitespace().map(|x| x.parse().unwrap()).collect();
    if v != vec![0.0, 3.0, 1.0, 6.0, 2.0, 7.0] { eprintln!("averages {:?}", v); std::process::exit(1); }
}''', 'logs of different lengths', 'lines that only some logs have are divided by the number of all logs', inside='obs')

plant('s22-bisection-lags', 'C16', [(OB, '''        beta_mid = 0.5 * (beta_low + beta_high);
        e_mid = estim_e_rot(conf, beta_mid);

''', '''        e_mid = estim_e_rot(conf, beta_mid);
        beta_mid = 0.5 * (beta_low + beta_high);

''')],
'''fn main() {
    let mut c = conf(4, 4); c.jvar = 0.0; c.hvar = 0.0; c.lambda = 1.0; c.log = false; c.tau = 60.0;
    for b in [0.5, 1.6, 3.1] {
        c.ednsty = estim_e_rot(&mut c, b);
        let f = find_beta_rot(&mut c);
        let e = estim_e_rot(&mut c, f);
        if (e - c.ednsty).abs() > 0.08 { eprintln!("target {} found beta {} with {} (from {})", c.ednsty, f, e, b); std::process::exit(1); }
    }
}''', 'a target whose bisection needs a turn of direction', 'the energy compared is that of the previous middle', inside='obs')

plant('s23-late-subsystem', 'C23', [(OB, '''    conf.ssize = conf.hsize;

    let mut sc: SpinChain = sampling_chain(conf, 0);
''' if False else ('''    conf.ssize = conf.hsize;
    //    println!("Target? {}", estim_e(conf,2.88));

    let mut sc: SpinChain = sampling_chain(conf, 0);
''', 0), '''    let mut sc: SpinChain = sampling_chain(conf, 0);
    conf.ssize = conf.hsize;
''')],
'''fn main() {
    // the observables of the whole chain in the subsystem field, compared with a chain built that way
    let mut c = conf(8, 2); c.jvar = 0.0; c.hvar = 0.0; c.hfield = vec![0.0; 3]; c.hs = vec![0.0, 0.0, 1.0]; c.beta = 0.8; c.lambda = 1.0;
    let mut d = c.clone(); d.ssize = 8;
    let mut a = SpinChain::new(d, 0);
    let (mut e, mut m) = (0.0, 0.0);
    for _ in 0..200 { a.metropolis_update(); }
    for _ in 0..8000 { for _ in 0..100 { a.metropolis_update(); } e += a.mc_system_energy() / 8000.0; m += a.m()[2] / 64000.0; }
    let r = get_obsh(&mut c);
    if (r[0] - e).abs() > 0.03 || (r[3] - m).abs() > 0.03 { eprintln!("observables {:?}, expected energy {} and magnetisation {}", r, e, m); std::process::exit(1); }
}''', 'a subsystem smaller than the chain, with a field of its own', 'the chain is built before the subsystem is extended to the whole chain', inside='obs')

plant('s24-histogram-drive', 'C29', [(OB, '''    conf.drive = DriveType::none;
    conf.file = "x".to_string();
    let mut sc: SpinChain = sampling_chain(conf, 0);
    let s: f64''', '''    conf.file = "x".to_string();
    let mut sc: SpinChain = sampling_chain(conf, 0);
    conf.drive = DriveType::none;
    let s: f64''')],
'''fn main() {
    let mut c = conf(6, 2); c.jvar = 0.0; c.hvar = 0.0; c.drive = DriveType::xyplane;
    gen_hist_magnus(&mut c, 5);
    for l in std::fs::read_to_string("hist_mc_magnus.dat").unwrap().lines() {
        let v: Vec<f64> = l.split_whitespace().map(|x| x.parse().unwrap()).collect();
        let (a, b) = ([v[5], v[6], v[7]], [v[8], v[9], v[10]]);
        let want = -(a[0] * b[0] + a[1] * b[1] + 0.7 * a[2] * b[2]) + 0.1 * a[0] - 0.2 * a[1] + 0.3 * a[2];
        close(v[4], want, "energy of the sample");
    }
}''', 'a configured drive', 'the samples contain the energy in a drive that Monte Carlo does not have', inside='obs')

plant('s25-buffered-writer', 'C26', [(WR, '''        for received in rx {
            writeln!(&file, "{}", &received).unwrap();
        }
''', '''        let mut block: Vec<String> = Vec::with_capacity(100);
        for received in rx {
            block.push(received);
            if block.len() == 100 {
                writeln!(&file, "{}", block.join("\\n")).unwrap();
                block.clear();
            }
        }
''')],
'''fn main() {
    for n in [100, 137] {
        let _ = std::fs::remove_file("mc_live.dat");
        let mut c = conf(4, 4); c.threads = 3; c.mc_points = n;
        run_mc(&mut c);
        let k = std::fs::read_to_string("mc_live.dat").unwrap().lines().count();
        if k != n { eprintln!("{} of {} samples written", k, n); std::process::exit(1); }
    }
}''', 'a number of samples that is not a multiple of 100 (the default is 1000)', 'samples in an incomplete block are never written', inside='obs')

plant('s26-response-switch', 'C25', [(OB, 'if spin_chain.t < 0.0 {', 'if spin_chain.t <= 0.0 {')],
'''fn main() {
    // binary fractions: the time hits 0 exactly; in the step from 0 on there is no field
    let mut c = conf(4, 4); c.log = true; c.runs = 1; c.threads = 1; c.t = 0.015625; c.dt = 0.015625; c.tau = 1.0; c.strob = false;
    c.jvar = 0.0; c.hvar = 0.0; c.hfield = vec![0.0, 0.0, 2.0]; c.lambda = 1.0; c.beta = 1e-3;
    run_sim_response(&mut c);
    let t = std::fs::read_to_string("log0.dat").unwrap();
    let r: Vec<Vec<f64>> = t.lines().map(|l| l.split_whitespace().map(|x| x.parse().unwrap()).collect()).collect();
    // isotropic couplings keep the total magnetisation unless there is a field
    let (a, b) = (&r[r.len() - 2], &r[r.len() - 1]);
    close(a[0], 0.0, "time"); close(b[0], 0.015625, "time");
    for k in 3..6 { if (a[k] - b[k]).abs() > 1e-4 { eprintln!("the field still acts: {} -> {}", a[k], b[k]); std::process::exit(1); } }
}''', 'a step that starts at exactly t = 0', 'the field acts one step longer', inside='obs')
