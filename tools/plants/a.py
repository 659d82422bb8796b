SC, SL, SP = 'src/spinchain.rs', 'src/spinchain_langevin.rs', 'src/spin.rs'

plant('s01-weak-field', 'C02', [(SP, 'let dts: f64 = fs * dt;', 'let dts: f64 = if fs < 1e-2 { 0.0 } else { fs * dt };')],
'''fn main() {
    let mut s = Spin::new_xyz(&[1.0, 0.0, 0.0]);
    s.rotate(&[0.0, 0.004, 0.0], 100.0);
    close(s.dir[2], 0.4f64.sin(), "z"); close(s.dir[0], 0.4f64.cos(), "x");
}''', 'a field shorter than 0.01 together with a long time', 'weak fields are treated as no field, so the spin does not turn')

plant('s02-drive-end-of-step', 'C05', [(SC, ('let h_ext: [f64; 3] = self.h_ext(self.t + self.vars.dt / 2.0);\n\n        let s: usize', 1), 'self.t += self.vars.dt / 2.0;\n        let h_ext: [f64; 3] = self.h_ext(self.t + self.vars.dt / 2.0);\n\n        let s: usize'),
 (SC, ('self.t += self.vars.dt;', 1), 'self.t += self.vars.dt / 2.0;')],
'''fn main() {
    // the drive of one step must be the one in the middle of the step
    let mut c = conf(4, 2); c.drive = DriveType::xyplane; c.dt = 0.5; c.tau = 1.7; c.jvar = 0.0; c.hvar = 0.0; c.lambda = 1.0; c.hfield = vec![0.0; 3];
    let mut a = SpinChain::new(c, 0);
    for j in a.j_couple.iter_mut() { *j = [0.0; 3]; }
    a.t = 0.3;
    let s0 = a.spins[1].dir;
    a.update();
    let w = 2.0 * std::f64::consts::PI / 1.7; let t = 0.3 + 0.25;
    let mut e = Spin::new_xyz(&s0);
    e.rotate(&[-(w * t).cos(), -(w * t).sin(), 0.0], 0.5);
    for k in 0..3 { close(a.spins[1].dir[k], e.dir[k], "spin 1"); }
    close(a.t, 0.8, "t");
}''', 'a time-dependent drive; two sites of the change that each look fine alone', 'the drive is evaluated at the end instead of the middle of the step')

plant('s03-ring-closing-coupling', 'C09', [(SC, ('e -= self.spins[s - 1].dir[k] * self.j_couple[s - 1][k] * self.spins[0].dir[k];\n            e += self.spins[s - 1].dir[k] * self.static_h[s - 1][k];\n        }\n\n        e / (s as f64)', 1),
 'e -= self.spins[s - 1].dir[k]\n                * self.j_couple[self.j_couple.len() - 1][k]\n                * self.spins[0].dir[k];\n            e += self.spins[s - 1].dir[k] * self.static_h[s - 1][k];\n        }\n\n        e / (s as f64)')],
'''fn main() {
    let a = SpinChain::new(conf(6, 4), 0);
    let mut e = 0.0;
    for i in 0..4 { let j = (i + 1) % 4; for k in 0..3 { e += -a.spins[i].dir[k] * a.j_couple[i][k] * a.spins[j].dir[k] + a.spins[i].dir[k] * a.static_h[i][k]; } }
    close(a.mc_system_energy(), e / 4.0, "ring energy");
}''', 'a subsystem smaller than the chain and disordered couplings', 'the closing bond of the subsystem ring uses the coupling of the chain end')

plant('s04-second-neighbour', 'C12', [(SC, ('_ if index == s - 1 => &self.spins[1],', 0), '_ if index == s - 1 => &self.spins[0],')],
'''fn h(a: &SpinChain) -> f64 { a.mc_system_energy_rot() * a.vars.hsize as f64 }
fn main() {
    let mut c = conf(6, 6); c.beta = 1e9; c.tau = 40.0;
    for _ in 0..60 {
        let mut a = SpinChain::new(Config { beta: 1.0, ..c.clone() }, 0);
        a.vars.beta = 1e9;
        for j in a.j_couple.iter_mut() { j[1] = -j[0] * 1.5; }
        for _ in 0..200 {
            let e0 = h(&a); a.metropolis_update_rot_magnus(); let e1 = h(&a);
            if e1 > e0 + 1e-9 { println!("at zero temperature the energy rose from {} to {}", e0, e1); std::process::exit(1); }
        }
    }
}''', 'the last site is picked, strongly anisotropic couplings', 'the energy change of a move of the last site uses the wrong second neighbour')

plant('s05-turn-sense', 'C03', [(SP, 'old_spin.rotate(&perp_dir, -rot_angle);', 'old_spin.rotate(&perp_dir, if perp_dir[2] < 0.0 { rot_angle } else { -rot_angle });')],
'''fn main() {
    let r = Spin::rot_perp(&[0.0, std::f64::consts::PI / 2.0], &[0.0, 0.8, -0.6], 0.5);
    let t = Spin::new_from_angles(r[0], r[1]);
    let e = Spin::new_xyz(&[0.5f64.cos(), -0.5f64.sin() * 0.6, -0.5f64.sin() * 0.8]);
    for k in 0..3 { close(t.dir[k], e.dir[k], "turned"); }
}''', 'a rotation direction with negative z component', 'the spin turns the other way round')

plant('s08-polar-angle', 'C03', [(SP, 'self.dir[2].acos()', '(self.dir[0] * self.dir[0] + self.dir[1] * self.dir[1])\n            .sqrt()\n            .min(1.0)\n            .asin()')],
'''fn main() {
    let s = Spin::new_xyz(&[0.48, 0.64, -0.6]);
    let t = Spin::new_from_angles(s.theta(), s.phi());
    for k in 0..3 { close(s.dir[k], t.dir[k], "round trip"); }
}''', 'a spin below the equator', 'the polar angle is that of the mirror image in the x-y plane')

plant('s06-boundary-omega', 'C15', [(SL, ('.map(|x| self.j_couple[ell - 2][x] * self.spins[ell - 2].dir[x] - h_e[x])', 0), '.map(|x| self.j_couple[ell - 1][x] * self.spins[ell - 2].dir[x] - h_e[x])')],
'''fn main() {
    let a = SpinChainLangevin::new(conf(6, 4), 0, 0.4);
    let c = &a.vars; let (j, s) = (&a.j_couple, &a.spins);
    let om = |j: &[f64; 3], s: &Spin| [j[0] * s.dir[0], j[1] * s.dir[1], j[2] * s.dir[2]];
    let o1 = om(&j[0], &s[1]); let o2 = om(&j[2], &s[2]);
    let mut e = 0.0;
    for (o, s) in [(o1, &s[0]), (o2, &s[3])] { e += 2.0 * 0.4 / c.beta * dot(&o, &s.dir) - 0.4 * (dot(&o, &o) - dot(&o, &s.dir).powi(2)); }
    close(a.boundary_term(), e, "boundary term");
}''', 'disordered couplings', 'the right end of the subsystem is coupled with the bond that leads out of it', inside='spinchain_langevin')

plant('s07-last-site-frozen', 'C11', [(SL, ('let index: usize = rng.gen_range(0..s) as usize;', 0), 'let index: usize = rng.gen_range(0..s - 1) as usize;')],
'''fn main() {
    let mut a = SpinChainLangevin::new(conf(4, 2), 0, 0.4);
    let s = a.spins[3].dir;
    for _ in 0..4000 { a.vars.beta = 0.01; a.metropolis_update(); }
    if s == a.spins[3].dir { println!("the last site was never updated"); std::process::exit(1); }
}''', 'waiting for a site that is never picked', 'the last site of the chain is never updated')
