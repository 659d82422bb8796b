#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as data here so the file stays consistent)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,
        quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],
                     observe_at=observe or [],hook_needed=hook)))
SP="src/spin.rs";SC="src/spinchain.rs";SL="src/spinchain_langevin.rs";OB="src/obs.rs";WR="src/writers.rs"
p("C01","Every spin is a unit vector",
 "Every public way of producing or changing a spin direction (default, from Cartesian coordinates, from angles, setting angles, rotating, Gram-Schmidt) returns a vector of length one for every non-degenerate input, and the result is the direction the input asks for. Building a chain, advancing it in time (closed or Langevin) and doing any Monte Carlo update all keep every spin of the chain at length one.",
 ["inputs","histories"],"all coordinates, angles, fields, time steps; all sequences of chain operations",
 "unit tests build five particular spins; nothing checks norms of a chain after any operation, and no test can cover all reals or all histories",
 [SP,SC,SL],[("new/new_xyz/new_from_angles/set_angles/rotate/gs","src/spin.rs"),("new, update, metropolis_update*","src/spinchain.rs, src/spinchain_langevin.rs")],["Spin.dir","SpinChain.spins"])
p("C02","Rotation is an exact precession about the field",
 "Rotating a unit spin about a field for a time turns it about the field's axis by an angle equal to the field's length times the time, always in the same sense (a spin along x in a field along y turns towards +z). The component along the field never changes, rotating back by the opposite time restores the spin, and a zero field leaves the spin as it was.",
 ["inputs"],"all unit spins, all fields including zero, all times of either sign",
 "tests rotate about an axis for two coordinate planes at fixed steps with tolerance 1e-3; no oblique axis, no zero field, no inverse",
 [SP],[("Spin::rotate","src/spin.rs")],["Spin.dir after rotate"])
p("C03","Angles and Cartesian direction of a spin agree",
 "Reading a unit spin's azimuthal and polar angle and building a spin from those two angles gives back the same direction, wherever the spin points. Turning a direction given by angles towards or away from another direction by a requested angle gives a direction at exactly that angle from the old one, turned about the part of the other direction perpendicular to the old one; component access returns the stored coordinates.",
 ["inputs"],"all unit directions including the x=0 plane and the poles; all turning angles",
 "tests only build from angles; the reverse conversion and the turn are untested",
 [SP],[("theta/phi/xyz/rot_perp/gs","src/spin.rs")],["Spin::theta, phi, xyz, rot_perp"])
p("C04","A new chain is what its configuration says",
 "A newly built chain (closed or Langevin) has exactly the configured number of sites, spins, couplings and fields; couplings are (1, 1, lambda) plus noise of the configured coupling spread, fields are the global field (plus the subsystem field on the first ssize sites only) plus noise of the configured field spread, so with zero spreads they are exact. It starts at time minus trel, keeps the configuration unchanged, each spin is turned from the previous one by an angle whose cosine is drawn by inverse transform from exp(beta cos) on [-1,1] (uniformly at beta zero), and a log file named from the configured prefix and run number is created (for the closed chain only if logging is on).",
 ["configurations","inputs"],"all configurations and run numbers, all outcomes of the random draws",
 "tests build only the default configuration (hs = hfield = 0, hvar = 0), where most of these clauses are vacuous",
 [SC,SL],[("SpinChain::new","src/spinchain.rs"),("SpinChainLangevin::new","src/spinchain_langevin.rs")],["fields of the returned chain","log file name"])
p("C05","A time step is the symmetric even-odd-even splitting",
 "One time step of the closed chain turns every even site for half a step, then every odd site for a full step, then every even site for half a step again, each about the current local field: the coupling-weighted sum of its two neighbours (periodic) minus its external field. The external field is the static field plus, on the first ssize sites only, the drive evaluated at the middle of the step (without the static field in the field-free step); time advances by exactly dt and nothing else in the chain changes.",
 ["inputs","configurations"],"all even chain sizes, subsystem sizes, couplings, fields, spins, times, steps and drives",
 "tests step only a chain with interactions switched off and look at one spin",
 [SC],[("update, update_no_field, even_omega, odd_omega, rotate_even, rotate_odd","src/spinchain.rs")],["SpinChain.spins, t after update()"])
p("C06","Time steps conserve the energy when the field is static",
 "When the external field does not depend on time (no drive or a static one), a time step of the closed chain leaves the chain's total energy exactly unchanged, for any step length, any couplings and any static fields. Hence the energy is constant along every trajectory.",
 ["inputs","histories","configurations"],"all even chain sizes, states, couplings, fields, step lengths, numbers of steps",
 "no test looks at energy conservation; a sampled trajectory could only bound the drift it sees",
 [SC],[("update + total_energy2","src/spinchain.rs")],["SpinChain::total_energy2 before and after update()"])
p("C07","A time step can be undone exactly",
 "Taking a time step of the closed chain and then a step of the opposite length returns every spin and the clock to where they were, with or without a time-dependent drive.",
 ["inputs","histories","configurations"],"all even chain sizes, states, couplings, fields, drives, times and step lengths",
 "no test runs the dynamics backwards; the property needs the drive at the step's middle and a palindromic order of substeps",
 [SC],[("update, update_no_field, Spin::rotate","src/spinchain.rs, src/spin.rs")],["SpinChain.spins, t"])
p("C08","The drive follows the configured waveform",
 "The drive is (cos w t, sin w t, 0) for circular, (cos w t, e sin w t, 0) for elliptic, (cos w t, 0, 0) for uniaxial, the configured subsystem field for static and zero for no drive, with w = 2 pi / tau, in both the closed and the Langevin chain. Its derivative with respect to the phase w t is the one used in the power term of the boundary observable.",
 ["inputs","configurations"],"all times, periods, eccentricities, drive types",
 "every test with a chain uses drive none or never looks at the drive",
 [SC,SL],[("h_ext, h_extp","src/spinchain.rs, src/spinchain_langevin.rs")],["total_energy2, update, boundary_term"])
p("C09","Energy observables equal the Hamiltonian",
 "The total energy density of either chain is the sum over all periodic bonds of minus S J S plus the sum over sites of field times S, with the drive at the current time included on exactly the first ssize sites, divided by the number of sites; the two total-energy functions agree. The Monte Carlo total energy is the same without the drive, the subsystem energy is its open-chain restriction (first ssize-1 bonds and sites, per bond), and the Monte Carlo subsystem energy is the ring of the first ssize sites without the drive, per site.",
 ["inputs","configurations"],"all chain sizes, subsystem sizes, states, couplings, fields, times, drives",
 "tests evaluate energy only at saturation with uniform couplings and no field, within a statistical tolerance",
 [SC,SL],[("total_energy, total_energy2, system_energy, mc_total_energy, mc_system_energy","src/spinchain.rs, src/spinchain_langevin.rs")],["return values"])
p("C10","Magnetisation and spectrum count each site once",
 "The subsystem magnetisation is the vector sum of the first ssize spins and the total magnetisation the vector sum of all spins, in both chains. The momentum spectrum of an even chain contains, for each momentum from -pi upwards, the sum over the three components of the squared modulus of the Fourier amplitude at that momentum, each momentum once.",
 ["inputs","configurations"],"all chain sizes, subsystem sizes and states",
 "no test calls these functions",
 [SC,SL],[("m, m_tot, energy_spectrum","src/spinchain.rs, src/spinchain_langevin.rs")],["return values"])
p("C11","A plain Monte Carlo update is an exact Metropolis step",
 "A plain Monte Carlo update picks one site of the whole chain, proposes a direction uniform on the sphere, and replaces that spin if and only if the energy change is negative or a fresh uniform number is below exp(-beta times the change), where the change is exactly the change of the chain's undriven Hamiltonian (static fields included for the closed chain, left out for the Langevin chain). No other spin and nothing else in the chain changes.",
 ["inputs","configurations","histories"],"all chain sizes from 2, states, couplings, fields, temperatures, sites (both ends included) and random draws",
 "the one test checks an average after a million moves at beta=1000 with uniform couplings and zero field",
 [SC,SL],[("metropolis_update","src/spinchain.rs, src/spinchain_langevin.rs")],["SpinChain.spins after the update"])
p("C12","Magnus-corrected Monte Carlo updates are Metropolis steps too",
 "Each Monte Carlo update for a high-frequency effective Hamiltonian (lab frame, rotating frame, first and second order in the inverse frequency) is a Metropolis step at the configured temperature: one site, a uniform proposal, accepted if and only if the change is negative or a fresh uniform number is below exp(-beta times the change). The change used is exactly the change of one energy function of the whole chain, the same for every site, so that undoing a move costs minus what the move cost (for the second-order update: in a chain that is all subsystem).",
 ["inputs","configurations","histories"],"all chain sizes from 3, states, couplings, periods, temperatures, sites and random draws",
 "no test calls these four updates",
 [SC,SL],[("metropolis_update_maglab, _rot_magnus, _mag_full, _magnus","src/spinchain.rs, src/spinchain_langevin.rs")],["SpinChain.spins after the update"])
p("C13","Reported effective energies belong to the sampled ensemble",
 "The energy density reported for the rotating-frame and for the lab-frame effective ensemble changes, when one spin is changed, by exactly the energy change which that ensemble's Monte Carlo update weighs, divided by the number of sites.",
 ["inputs","configurations"],"all chain sizes from 3, states, couplings, periods, changed sites and new directions",
 "no test calls these functions",
 [SC],[("mc_system_energy_rot, mc_system_energy_maglab","src/spinchain.rs")],["return values"])
p("C14","A Langevin step couples only the chain ends to the bath",
 "A Langevin time step uses the same even-odd-even splitting on an open chain: interior sites turn about their usual local field, the first and last site have one neighbour each, plus a Landau-Lifshitz damping term of strength gamma and a thermal kick of spread sqrt(2 gamma dt / beta) per unit time. The same kick is used in both half steps of a site, the drive acts on the first ssize sites only, time advances by dt and nothing else changes.",
 ["inputs","configurations"],"all even chain sizes, states, couplings, fields, gamma, beta, dt, drives and random draws",
 "tests step only a chain with interactions off and look at an interior spin",
 [SL],[("update, even_omega, odd_omega, cross, rotate_even, rotate_odd","src/spinchain_langevin.rs")],["SpinChainLangevin.spins, t after update()"])
p("C15","The boundary observable is the bath's energy flow",
 "The boundary observable of the closed chain is 2/beta times the sum of Omega.S minus the sum of |S|^2 |Omega|^2 - (Omega.S)^2, both over the two ends of the subsystem, with Omega the coupling to the single inner neighbour minus the end's static field. The Langevin chain's is gamma times the same expression, with the drive in place of the static field in Omega, plus 2 pi / tau times the drive derivative dotted with the subsystem magnetisation.",
 ["inputs","configurations"],"all subsystem sizes from 2, states, couplings, fields, beta, gamma, times, drives",
 "no test calls it",
 [SC,SL],[("boundary_term","src/spinchain.rs, src/spinchain_langevin.rs")],["return values"])
p("C16","Temperature fits are convergent bisections",
 "Every inverse-temperature fit returns a value inside its search bracket and stops after finitely many halvings with the bracket no wider than 0.001. If the estimated energy decreases with inverse temperature and crosses the target inside the bracket, the returned value is within 0.001 of the crossing; the fit for the driven ensemble is carried out with the whole chain as subsystem.",
 ["inputs","configurations"],"all targets, all decreasing energy estimates, all configurations",
 "no test calls the fits, each of which takes minutes of sampling",
 [OB],[("find_beta, find_beta2, find_betah, find_beta_rot, find_beta_maglab","src/obs.rs")],["return values"])
p("C17","The mean-field temperature solves the energy equation",
 "When the solver for the inverse temperature of a free chain at energy density e stops (as it does for every e between -1 and 0), the value returned is 1/(e + coth b) for some b within 0.01 of it, i.e. it solves e = 1/beta - coth(beta) up to that tolerance; for an energy density between -1 and 0 it is positive.",
 ["inputs"],"all energy densities for which the iteration stops",
 "no test calls it",
 [SC,SL],[("solve_beta","src/spinchain.rs, src/spinchain_langevin.rs")],["return value"])
p("C18","Monte Carlo runs produce exactly the requested samples",
 "A Monte Carlo run with any positive number of points and threads starts no more workers than points, and all workers together produce exactly the requested number of samples (one line each, or one line per site for profiles), each after at least one more Monte Carlo update of the ensemble named by the command. A live line holds total energy, subsystem energy, the per-site subsystem magnetisations and the spins at one and three quarters of the subsystem of that sample.",
 ["configurations"],"all positive numbers of points and threads, divisible or not, fewer points than threads",
 "the binary has no tests",
 [OB],[("run_mc, run_mc_magnus, run_mc_profile","src/obs.rs")],["mc_live.dat, mc_profile.dat"])
p("C19","Consecutive runs never reuse a log index",
 "A batch of runs writes its logs under consecutive indices starting at the configured offset, one per run, and then stores a configuration whose offset is advanced by exactly the number of runs and which is otherwise the configuration the batch was run with. The next batch therefore never overwrites a log of this one; and commands which only sample or fit (Monte Carlo runs, estimates and fits, histograms and trajectory means) make chains without a log, so they leave the logs of earlier batches as they are.",
 ["configurations","histories"],"all run counts and offsets, all kinds of time-run batch, all sampling commands",
 "the binary has no tests",
 [OB],[("run_sim, run_langevin, run_sim_response, run_ext, run_dyn_profile","src/obs.rs")],["log file names, config.toml"])
p("C20","A log line reports the state it was taken from",
 "A log line of the closed chain holds time, total energy density, subsystem energy, the three subsystem magnetisations per site, total z magnetisation per site and the spins at one and three quarters of the subsystem, in this order; a Langevin log line holds the subsystem energy in both energy columns and ends with the boundary observable. The spatially resolved log writes one line per subsystem site which is not an end of the chain, with time, index, local energy (half of each adjacent bond plus field energy) and spin, then an empty line.",
 ["inputs","configurations"],"all chain states and sizes",
 "tests never read a log",
 [SC,SL],[("log, log_ext","src/spinchain.rs, src/spinchain_langevin.rs")],["log file lines"])
p("C21","Spatial profiles are site averages whose energy adds up",
 "Every profile sample gives for each site half the energy of its two periodic bonds and its three spin components, so the energies of one sample add up to the chain's bond energy. The profile file has one line per site holding the averages of that site's samples over the number of points. In a dynamical run every trajectory gives one sample to the file of each profile, at the step closest to the end of as many periods as the file's name says.",
 ["inputs","configurations"],"all chain sizes, states, couplings and numbers of points",
 "the binary has no tests",
 [OB,WR],[("run_mc_profile, run_dyn_profile","src/obs.rs"),("profile_in_bg","src/writers.rs")],["mc_profile.dat, dyn_profile-*.dat"])
p("C22","Averaging over logs is a per-line mean",
 "The averaging command outputs, for every data line number that occurs in some log (data lines are those that do not start with #), the column-wise mean over exactly the logs that have this line. The two-point command does the same after multiplying every column but the first with that log's value at time zero.",
 ["inputs"],"all numbers of logs, with or without a heading, of lines (equal or not) and columns",
 "the binary has no tests",
 [OB],[("average, two_point_average","src/obs.rs")],["avg.dat, two-point.dat"])
p("C23","Ensemble estimates are sample means of the stated observable",
 "Each ensemble estimate is the arithmetic mean over its samples of the stated observable (energy in the matching frame, or energy and per-site magnetisations), with updates of the matching ensemble made between consecutive samples, at the requested inverse temperature. The energy estimates sample a chain with the given configuration, the observable estimates one whose subsystem is the whole chain.",
 ["inputs","configurations"],"all configurations, temperatures and random draws",
 "the binary has no tests",
 [OB],[("estim_e, estim_e2, estim_eh, estim_e_rot, estim_e_maglab, get_obs, get_obsh, get_obs_rot, get_obs_maglab","src/obs.rs")],["return values"])
p("C24","Valid configurations never index out of range or divide by zero",
 "For every configuration with a positive even chain length, a subsystem between 2 and the chain length and positive time step, period and temperature, no operation of a spin or of a chain (construction, stepping, Monte Carlo, observables, logging) accesses a site out of range, overflows an index, divides by zero or takes a root, logarithm or arc function outside its domain.",
 ["inputs","configurations"],"all valid configurations, states and random draws",
 "tests only run the default configuration of 512 sites with a subsystem of 8",
 [SP,SC,SL],[("all functions","src/spin.rs, src/spinchain.rs, src/spinchain_langevin.rs")],["absence of panics and NaN"])
p("C25","Stroboscopic logging keeps exactly whole periods",
 "With stroboscopic logging on, a run logs the state exactly at those steps whose time, counted in steps from time zero, is a multiple of the number of steps in a period, which is the period divided by the time step, rounded; with it off, it logs after every step. In both cases the initial state, after Monte Carlo updates, is logged once before the first step, and the run ends at the first step at or after the configured final time. All steps are driven, except that the response run makes undriven steps from time zero on.",
 ["configurations"],"all periods, time steps up to a period, start and final times",
 "the binary has no tests",
 [OB],[("run_sim, run_langevin, run_ext, run_sim_response","src/obs.rs")],["log file lines"])
p("C26","Every sample sent to a writer is in its file when the command ends",
 "When a command that hands its samples to a background writer ends normally, every sample line that a worker produced is in the output file exactly once and unbroken, however the threads were scheduled.",
 ["schedules"],"all interleavings of workers, writer thread and process exit",
 "needs all thread interleavings; the binary has no tests",
 [WR,OB],[("write_in_bg, profile_in_bg","src/writers.rs"),("run_mc, run_mc_magnus, run_mc_profile, run_dyn_profile, gen_hist_dynamics, run_tau","src/obs.rs")],["mc_live.dat, evt*.dat, dyn-hist-*.dat"])
p("C27","Configuration files are read as documented and what was stored is read back",
 "Reading a configuration file that the program wrote gives exactly the configuration that was stored; every key of the description is read into the setting it names, and a missing key takes its documented default. A missing file yields the defaults and stores them, without touching an existing file. The description printed by the command line is itself such a file: it holds the defaults and names only keys that exist.",
 ["configurations"],"all configurations and all subsets of keys",
 "no test reads or writes a configuration",
 ["src/config.rs",SC,SL,"src/config-desc.toml"],[("derive(Serialize, Deserialize), read_config","src/config.rs, src/spinchain.rs")],["config.toml"])
p("C28","Monte Carlo sampling and dynamics have one equilibrium",
 "For an undriven closed chain the Boltzmann distribution at the configured temperature is stationary under both plain Monte Carlo updates and time steps. The energy whose change a Monte Carlo update weighs is the energy which every time step keeps and which the energy observables report; the acceptance rule satisfies detailed balance for it; and a time step is a sequence of sweeps, each of which turns spins that do not interact with each other about fields that do not depend on them, so that it preserves volume.",
 ["configurations","histories"],"all chains, couplings, fields, time steps, temperatures and random draws",
 "tests of averages sample a few short trajectories of one configuration and cannot tell a biased equilibrium from noise",
 [SC,SP],[("update, rotate_even, rotate_odd, metropolis_update, mc_total_energy, total_energy","src/spinchain.rs"),("Spin::rotate","src/spin.rs")],["spins of the chain, energies in logs and histograms"])
p("C29","Histogram and trajectory commands record exactly the requested samples",
 "Each histogram command writes exactly the requested number of lines to each of its files, every line holding the per-site magnetisations and energy of the subsystem (and spins where listed) of the state at that moment, with further updates of the stated kind before every line: Monte Carlo, Magnus Monte Carlo or time steps; the equilibrium histograms use a chain without drive. A dynamic histogram takes its lines at the configured time, a single trajectory at the end of every period after the first thirty. The trajectory mean is the mean of the subsystem energies taken once per period, and a sweep over periods writes one line per period after the requested number of periods.",
 ["configurations"],"all sample numbers, configurations, periods and time steps, including periods whose quotient by the time step is not exact in floating point",
 "the binary has no tests",
 [OB],[("gen_hist, gen_hist_magnus, gen_hist_dynamics, gen_single_traj, trajectory_mean_e, run_tau","src/obs.rs")],["hist_mc.dat, hist_dyn.dat, hist_mc_magnus.dat, dyn-hist-t-*.dat, hist-st-t-*.dat, evt*.dat"])
p("C30","The command line runs the requested command on the stated configuration",
 "Each command option runs exactly its own command, once, with the number or period given on the command line or the documented default, on the configuration of config.toml with tau and beta overridden by -t and -b; without any command option the plain time run is done. Without -b, the beta of time runs, Monte Carlo runs and histograms solves the configured energy density (the external-period and period-sweep commands keep the configured one). The fit options first fit the temperature to the given energy density in the ensemble they name (rotating-frame fields (1,0,0) on the subsystem, (0,0,-2 pi/tau) on the chain and so on) and append one line with period, target energy, temperature and the four observables. Options that print print the documented text.",
 ["configurations"],"all configurations, options, numbers and periods, one command option at a time",
 "no test starts the binary",
 ["src/main.rs",OB],[("main, Args","src/main.rs")],["standard output, betat*.dat, beta.dat"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P), [x['id'] for x in P if len(x['title'])>80], [ (x['id'],x['statement'].count('. ')+1) for x in P if x['statement'].count('. ')+1>3])
