SC, SL, SP, OB, WR, MA, CF = 'src/spinchain.rs', 'src/spinchain_langevin.rs', 'src/spin.rs', 'src/obs.rs', 'src/writers.rs', 'src/main.rs', 'src/config.rs'
# the real binary, with the Monte Carlo lengths cut down (they take minutes otherwise); case.sh decides
CLI = """#!/bin/bash
# run with cwd = repository root after the build; exit 0: property holds here, nonzero: broken
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
mkdir -p "$d/p" "$d/run"; cp -r "$repo/src" "$d/p/src"; cp "$repo/Cargo.lock" "$d/p/"
sed '/^\\[\\[bench/,$d' "$repo/Cargo.toml" > "$d/p/Cargo.toml"; printf '[workspace]\\n' >> "$d/p/Cargo.toml"
[ -f "$repo/build.rs" ] && cp "$repo/build.rs" "$d/p/"
sed -i -E 's/2e7 as usize/2e2 as usize/; s/1e6 as usize/1e2 as usize/; s/1e4 as usize/1e2 as usize/; s/0\\.\\.10000 /0..100 /' "$d/p/src/obs.rs"
CARGO_TARGET_DIR="$d/t" cargo build --offline --quiet --manifest-path "$d/p/Cargo.toml" >"$d/log" 2>&1 || { tail -5 "$d/log"; exit 3; }
cd "$d/run" && SC="$d/t/debug/sc" timeout 200 bash "$here/case.sh" > "$d/out" 2>&1; r=$?; tail -1 "$d/out"; exit $r
"""

plant('s27-period-after-ext', 'C30', [(MA, '''    if let Some(tau) = args.tau {
        conf.tau = tau;
    }
''', ''), (MA, '''    let steps = args.steps.unwrap_or(1000);
''', '''    if let Some(tau) = args.tau {
        conf.tau = tau;
    }
    let steps = args.steps.unwrap_or(1000);
''')], None, 'the option -t together with --ext', 'the period given on the command line is not used by --ext', script=CLI, files={'case.sh': '''
printf 'hsize = 4\\nssize = 4\\nruns = 1\\nthreads = 1\\nt = 1\\ndt = 0.5\\ntau = 10\\n' > config.toml
"$SC" -e -t 2.5 >/dev/null 2>&1
grep -q '^tau = 2.5$' config.toml || { echo "ran with $(grep ^tau config.toml)"; exit 1; }
'''})

plant('s28-step-limit', 'C30', [(MA, 'let steps = args.steps.unwrap_or(1000);', 'let steps = args.steps.unwrap_or(u32::MAX).min(1000);')],
None, 'a number of steps above the default', 'the number of steps given is silently cut to 1000', script=CLI, files={'case.sh': '''
printf 'hsize = 2\\nssize = 2\\nthreads = 1\\n' > config.toml
"$SC" -n 0.5 --steps 1100 >/dev/null 2>&1
t=$(cut -d' ' -f2 evt*.dat); echo "ended at t = $t"
awk -v t="$t" 'BEGIN { exit !(t > 549.9 && t < 550.1) }'
'''})

plant('s29-zero-not-stored', 'C27', [(CF, '''    pub lambda: f64,
''', '''    #[serde(skip_serializing_if = "is_zero")]
    pub lambda: f64,
'''), (CF, '''    pub mc_points: usize,
    pub e: f64,
''', '''    pub mc_points: usize,
    #[serde(skip_serializing_if = "is_zero")]
    pub e: f64,
'''), (CF, '''impl Default for Config {''', '''fn is_zero(x: &f64) -> bool {
    *x == 0.0
}

impl Default for Config {''')], None, 'a zero anisotropy or eccentricity (an XY chain)', 'a zero lambda is not written to config.toml, so the next run reads the default 1', script=CLI, files={'case.sh': '''
printf 'hsize = 4\\nssize = 4\\nruns = 1\\nthreads = 1\\nt = 1\\ndt = 0.5\\nlambda = 0.0\\n' > config.toml
"$SC" >/dev/null 2>&1
grep -q '^lambda = 0' config.toml || { echo "stored configuration has lambda: $(grep ^lambda config.toml)"; exit 1; }
'''})

plant('s30-mean-field-weights', 'C28', [(SC, ('let local_field: [f64; 3] = self.static_h[index];', 2), '''let mut local_field: [f64; 3] = [0.0; 3];
        for (k, x) in local_field.iter_mut().enumerate() {
            *x = self.vars.hfield[k] + if index < ss { self.vars.hs[k] } else { 0.0 };
        }''')],
'''fn main() {
    let mut c = conf(2, 2); c.hvar = 4.0; c.hfield = vec![0.0; 3]; c.jvar = 0.0;
    let mut a = SpinChain::new(c, 0);
    // the field is strong compared with the couplings: spins point against it
    let mut m = 0.0;
    let b: f64 = (0..2).map(|i| dot(&a.static_h[i], &a.static_h[i])).sum::<f64>().sqrt();
    for _ in 0..20000 { a.metropolis_update(); for i in 0..2 { m += dot(&a.spins[i].dir, &a.static_h[i]) / 20000.0 / b; } }
    if m > -0.3 { println!("mean component of the spins along their fields {}", m); std::process::exit(1); }
}''', 'disordered fields', 'Monte Carlo weighs the configured mean field, dynamics and energies the field of the site')

plant('s31-positive-energy', 'C30', [(MA, '''    } else {
        conf.beta = SpinChain::solve_beta(conf.ednsty);
    }
''', '''    } else if conf.ednsty < 0.0 {
        conf.beta = SpinChain::solve_beta(conf.ednsty);
    }
''')], None, 'an energy density of zero or above', 'the configured beta is used instead of the one of the configured energy density', script=CLI, files={'case.sh': '''
printf 'hsize = 4\\nssize = 4\\nruns = 1\\nthreads = 1\\nt = 1\\ndt = 0.5\\nednsty = 0.05\\nbeta = 2.88\\n' > config.toml
"$SC" >/dev/null 2>&1
grep -q '^beta = 2.88$' config.toml && { echo "beta of the energy density 0.05 was not solved for"; exit 1; } || exit 0
'''})

plant('s32-site-number-byte', 'C21', [(WR, 'let index: usize = v[0].parse::<usize>().unwrap();', 'let index: usize = v[0].parse::<usize>().unwrap() as u8 as usize;')],
'''fn main() {
    let mut c = conf(300, 8); c.threads = 2; c.mc_points = 2; c.jvar = 0.0; c.hvar = 0.0;
    run_mc_profile(&mut c);
    let t = std::fs::read_to_string("mc_profile.dat").unwrap();
    let z = t.lines().filter(|l| l.split_whitespace().skip(1).all(|x| x.parse::<f64>().unwrap() == 0.0)).count();
    if z > 0 { eprintln!("{} sites without samples", z); std::process::exit(1); }
}''', 'a chain of more than 256 sites', 'the samples of site 256 are added to site 0', inside='obs')
