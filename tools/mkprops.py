#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the texts stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))
SP="src/spin.rs"; SC="src/spinchain.rs"; SL="src/spinchain_langevin.rs"; MA="src/main.rs"; OB="src/obs.rs"; WR="src/writers.rs"; CF="src/config.rs"

p("C01","Spins stay finite unit vectors through every history",
 "Every spin produced or changed by any public operation (constructors, angle setting, rotation about any field including the zero field, chain creation at any finite inverse temperature, and any sequence of dynamical or Monte-Carlo updates of either engine) is a finite vector of unit length to rounding accuracy.",
 ["inputs","histories","configurations"],"all finite non-zero vectors/angles/fields/time steps (zero fields included), all random draws, all operation sequences up to a bound, all drives",
 "Unit tests rotate three hand-picked spins and never use a zero field, a pole, zero or very large beta or the extreme random draws; the guarantee ranges over all inputs and all operation histories.",
 [SP,SC,SL],[("renormalisation in rotation","src/spin.rs rotate"),("normalising constructor","src/spin.rs new_xyz"),("inverse-transform initial state","src/spinchain.rs new"),("accepted proposal","metropolis_update*")],["Spin.dir","SpinChain.spins"])
p("C02","Rotation is the exact precession and angles round-trip",
 "Rotating a spin about a field for a time step gives exactly the solution of dS/dt = S x field at that time: the component along the field is kept, the perpendicular part turns by |field|*dt in the stated sense, a zero field or zero step leaves the spin alone, opposite steps cancel and consecutive steps add. The azimuth/polar angles reported for a spin rebuild that spin, and turning a spin by an angle towards a direction yields a spin at exactly that angle, for every orientation including poles and axes.",
 ["inputs","histories"],"all spins (axes, poles, signed zeros, generic), all field directions and magnitudes, all positive/negative steps, all sequences of rotations up to a bound",
 "Tests check three planar rotations in small steps to 1e-3; they cover no other axis, angle, sign or zero field, and never read the angles back.",
 [SP],[("Rodrigues rotation","src/spin.rs rotate"),("angles","src/spin.rs theta/phi/set_angles/new_from_angles"),("rotation towards a direction","src/spin.rs rot_perp/gs")],["Spin.dir","theta()","phi()"])
p("C03","Chain update integrates the equations of motion to second order",
 "One dynamical update of the chain advances time by dt and moves every spin along dS_n/dt = S_n x (J_{n-1}S_{n-1} + J_n S_{n+1} - B_n), on a ring, with the static field everywhere plus the drive on subsystem sites only, with an error that is third order in dt per step and second order over a trajectory. The variant without static field does the same with only the drive; couplings, static fields and configuration never change.",
 ["inputs","histories","configurations"],"all even chain lengths, subsystem sizes, couplings, fields, drives, spin configurations, times (negative too) and step counts within bounds",
 "Tests only check that spins stand still when interactions are off and that a uniform field works; no test covers neighbour indexing at the ring ends, the subsystem edge, the drive phase or the order of accuracy.",
 [SC],[("Suzuki-Trotter splitting","src/spinchain.rs update/update_no_field"),("neighbour fields","src/spinchain.rs even_omega/odd_omega"),("mid-step drive","src/spinchain.rs h_ext")],["SpinChain.spins","SpinChain.t"])
p("C04","Energy conservation and time reversal of the isolated chain",
 "With time-independent fields the total energy is conserved to rounding by every update, for any step size and any number of steps; and with any drive, following a run of updates by the same number of updates with the step negated returns every spin and the clock to where they started.",
 ["inputs","histories","configurations"],"all chain sizes, couplings, static fields, spin configurations, step sizes (large ones too) and histories up to a bound, every drive for reversal",
 "No test runs an interacting trajectory and measures the energy, let alone for all sizes, couplings and step sizes or reversed histories.",
 [SC],[("symmetric even/odd splitting of exact rotations","src/spinchain.rs update")],["total_energy*tests","SpinChain.spins","SpinChain.t"])
p("C05","Energy and magnetisation observables equal the Hamiltonian",
 "The per-site total energy (both forms), the Monte-Carlo total and subsystem energies, the subsystem energy and the subsystem and total magnetisations reported by either engine equal the documented Hamiltonian H = -sum S_j J_j S_{j+1} + sum B_j.S_j evaluated on the current state: total ones over the closed ring of the whole system per site with the drive on subsystem sites, Monte-Carlo ones without drive over the ring of their sites, the subsystem one over the subsystem's internal bonds and the fields on their left sites per bond, the lab-frame and rotating-frame Magnus ones their effective Hamiltonians over the ring of the whole system per site.",
 ["inputs","configurations"],"all chain and subsystem sizes, couplings, fields, drives, times and spin configurations within bounds",
 "Tests check one dot product helper and a statistical average within a few percent; dropping a term, a site or a bond at an edge passes.",
 [SC,SL],[("energies","src/spinchain.rs total_energy/total_energy2/mc_total_energy/mc_system_energy/system_energy, same in src/spinchain_langevin.rs"),("magnetisation","m/m_tot")],["return values"])
p("C06","Drive has the configured shape, period, phase and support",
 "At every time t the drive field is (cos wt, sin wt, 0) for xyplane, (cos wt, 0, 0) for uniaxial, (cos wt, e sin wt, 0) for xyelliptic with w = 2 pi/tau, the subsystem field for staticfield, and zero for none; it acts exactly on the subsystem sites, is added to the static field, is tau-periodic and is the same in the energy observables and in the equations of motion of both engines.",
 ["inputs","configurations"],"all drive types, periods, ellipticities, times of either sign over many periods, subsystem sizes, both engines",
 "No test reads a drive value at all; a wrong phase, sign, scale or support compiles and passes.",
 [SC,SL,CF],[("drive","h_ext in both engines"),("support","update/total_energy loops over ssize")],["total_energy","system_energy","update"])
p("C07","Plain Metropolis samples the Boltzmann distribution",
 "Each plain Monte-Carlo update of either engine picks a site uniformly, proposes a spin uniform on the sphere, changes at most that one spin, and accepts so that detailed balance holds exactly with respect to exp(-beta E), where E is the closed-ring exchange energy plus, for the chain engine, the static field energy; couplings, fields, time and configuration are untouched.",
 ["inputs","histories","configurations"],"all states of a discretised chain, all sites, all proposals on a grid, all acceptance draws (by bisection), several temperatures, couplings and fields",
 "One test checks that a cold chain ends near its ground state, which any downhill dynamics passes; the acceptance law on each transition is never looked at.",
 [SC,SL],[("Metropolis rule","src/spinchain.rs metropolis_update"),("Metropolis rule (Langevin engine)","src/spinchain_langevin.rs metropolis_update")],["SpinChain.spins after one update"])
p("C08","Magnus and rotating-frame samplers obey detailed balance for their H",
 "Each effective-Hamiltonian Monte-Carlo update (first-order Magnus in both engines, lab-frame Magnus, rotating-frame Magnus, second-order Magnus with system equal to subsystem) changes at most one uniformly chosen spin by a uniform proposal and satisfies detailed balance for one fixed energy function of the whole configuration at inverse temperature beta, and that function is the documented expansion: leading exchange (and field) terms plus corrections in 1/omega on subsystem sites, complete to second order for the second-order sampler when every site is driven; the lab-frame and rotating-frame energies the temperature fits average equal that function per site.",
 ["inputs","histories","configurations"],"all states of a discretised chain, all single-site transitions, all closed cycles (potential existence on the full state graph), several periods and subsystem sizes",
 "No test calls any of these samplers; an energy difference that mixes old and new spins or drops a neighbour term compiles and still samples something.",
 [SC,SL],[("acceptance energies","metropolis_update_magnus / _maglab / _rot_magnus / _mag_full")],["SpinChain.spins after one update"])
p("C09","Initial state follows the configured thermal and disorder law",
 "A new chain (either engine) has the configured number of spins whose successive relative angles follow the density proportional to exp(beta cos) sin with uniform azimuth, for every finite inverse temperature of either sign and zero; couplings are (1, 1, lambda) and static fields the uniform field plus, on subsystem sites only, the subsystem field, each component with its own independent normal deviation of the configured width; and the clock starts at minus the relaxation time.",
 ["inputs","configurations"],"all random draws on a grid including both extremes, betas from very negative to very large, sizes, disorder widths, field settings",
 "Tests check a sample mean energy (excluded as flaky) at one temperature; the law, its support at extreme draws, other temperatures and the field layout are untested.",
 [SC,SL],[("inverse transform sampling","new in both engines"),("disorder layout","new: j_couple, static_h")],["spins","j_couple","static_h","t"])
p("C10","Temperature matching the target energy density",
 "The inverse temperature computed from a target energy density e in (-1,1) is the one for which an infinite isotropic classical chain has that energy density, 1/beta - coth(beta) = e, to the accuracy of the arithmetic rather than of an early stop, is monotone in e and always terminates.",
 ["inputs"],"all energy densities on a fine grid of (-1,1), dense near 0 and near the ends",
 "No test calls the solver; it ranges over a continuum of targets and an early stop is invisible at the single default energy.",
 [SC,SL],[("solve_beta","src/spinchain.rs solve_beta, src/spinchain_langevin.rs solve_beta")],["return value","config beta after a run"])
p("C11","Langevin dynamics: open chain, end damping, matched noise",
 "A Langevin update advances time by dt and moves the spins of the open chain by precession in their neighbour and external fields, with Landau-Lifshitz damping of strength gamma and Gaussian field noise on the two end spins only; the noise components are independent with variance 2 gamma dt / beta per step and axis (fluctuation-dissipation), the damping never raises the energy, and with gamma = 0 and time-independent fields the open-chain energy is conserved exactly.",
 ["inputs","histories","configurations"],"all even sizes, spin configurations, fields, drives, dampings, temperatures, step sizes, noise draws on a grid, histories up to a bound",
 "Tests with interactions off or uniform fields do not reach damping, noise amplitude or open ends.",
 [SL],[("end damping and noise","src/spinchain_langevin.rs update/even_omega/odd_omega")],["SpinChainLangevin.spins","t"])
p("C12","Boundary term is the exact mean energy rate of the Langevin chain",
 "The boundary term reported by the Langevin engine equals, in every state, the instantaneous mean rate of change of the open-chain energy under its own dynamics (damping, noise and drive work together), including when static fields are present; the chain engine's boundary term is that rate at unit damping without a drive.",
 ["inputs","configurations"],"all spin configurations, sizes, static fields, drives, times, dampings and temperatures within bounds",
 "No test evaluates the boundary term.",
 [SL],[("boundary_term","src/spinchain_langevin.rs boundary_term")],["boundary_term()","log column 8"])
p("C13","Every log row reports the true state at its time",
 "Each log call appends exactly one complete row holding, in order, the time and the observables of the current state (energies per site, subsystem magnetisation per site, total z magnetisation per site and the two probe spins for the chain; boundary term for Langevin; site-resolved energy and spin for the extended log), readable back to full precision; with logging disabled no file is created and nothing is written; Langevin logs start with one header line.",
 ["inputs","histories","configurations"],"all sequences of update/log operations up to a bound, all sizes, drives, log settings and run numbers",
 "No test reads a log file.",
 [SC,SL],[("row formatting","log/log_ext in both engines"),("file naming","new")],["log{n}.dat"])
p("C14","Energy spectrum is the centred power spectrum of the spins",
 "The spectrum returned for a chain of even length L holds, for the wave numbers -pi + 2 pi n/L in order, the squared modulus of the discrete Fourier transform of the spin field summed over components; it is non-negative, symmetric in k, and sums to L times the sum of squared spin lengths.",
 ["inputs","configurations"],"all even lengths up to a bound and all spin configurations of a finite alphabet",
 "No test calls it.",
 [SC],[("energy_spectrum","src/spinchain.rs energy_spectrum")],["return value"])
p("C15","Monte-Carlo runs record every requested sample exactly once",
 "A Monte-Carlo averaging run (plain or Magnus) that ends normally has appended exactly the configured number of complete, correct sample rows to its output file, on top of what was there, whatever the number of threads, how the points divide among them, and however threads are scheduled; it always ends.",
 ["schedules","configurations","histories"],"all thread interleavings up to a preemption bound, all (threads, points) splits up to a bound, consecutive invocations",
 "The tests never start a worker thread; a row lost at process exit or by a wrong split needs a particular interleaving or ratio.",
 [OB,WR,MA],[("point splitting","src/obs.rs run_mc/run_mc_magnus"),("background writer","src/writers.rs write_in_bg")],["mc_live.dat"])
p("C16","Dynamical histogram and period sweep lose no sample",
 "A dynamical-histogram run appends exactly one complete row per requested sample and a period sweep exactly one row per requested period (at its own period, step and final time), computed from the final state of that trajectory run with the configured settings, whatever the thread count and however threads are scheduled; the run always ends.",
 ["schedules","configurations","histories"],"all thread interleavings up to a preemption bound, all sample/period lists and thread counts up to a bound",
 "The tests never start a worker thread; a row lost at exit or a trajectory run with another one's period shows only in particular interleavings or lists.",
 [OB,WR,MA],[("workers and channel","src/obs.rs gen_hist_dynamics/run_tau"),("background writer","src/writers.rs write_in_bg")],["dyn-hist-t-*.dat","evt*.dat"])
p("C17","Site profiles are the exact averages over all samples, and end",
 "A Monte-Carlo profile run and a dynamical profile run write, for every site exactly once and in order, the average over all requested samples of that site's bond energy and spin components at the right time, whatever the thread count, time step and scheduling, and they always terminate.",
 ["schedules","configurations"],"all thread interleavings up to a preemption bound, all (threads, samples) up to a bound, time steps that do and do not divide the period",
 "No test runs the profile modes; termination and exact averaging depend on the schedule and on the time step/period ratio.",
 [OB,WR],[("aggregating thread","src/writers.rs profile_in_bg"),("producers","src/obs.rs run_mc_profile/run_dyn_profile")],["mc_profile.dat","dyn_profile-*-tau.dat"])
p("C18","Trajectory runs keep separate, complete, never-overwritten logs",
 "A trajectory run (default, extended, response, Langevin) writes each of its runs (unless logging is disabled) to its own numbered log starting at the configured offset, each log complete when the program ends, and leaves a configuration whose offset is advanced by the number of runs and whose other settings are those in effect, so that any sequence of such invocations never overwrites or mixes earlier logs, under every schedule.",
 ["schedules","histories","configurations"],"all thread interleavings up to a preemption bound, sequences of invocations of the trajectory modes, runs/threads combinations",
 "No test runs the program; overlap or loss needs several runs, several threads or several invocations.",
 [OB,SC,SL],[("offset bookkeeping","src/obs.rs run_sim/run_ext/run_sim_response/run_langevin"),("per-run file","new")],["log*.dat","config.toml"])
p("C19","Stroboscopic logging samples once per drive period",
 "With stroboscopic logging on and a period and starting time that are whole numbers of steps, every trajectory mode logs its initial state and then exactly once at every whole multiple of the period reached (negative times too), at that time and at no other; with it off it logs after every step; the single-trajectory mode records exactly one sample per period after its transient.",
 ["configurations","inputs"],"all (period, step) pairs whose ratio is whole, final times, relaxation times and modes within bounds",
 "No test runs the modes; rounding in the period/step ratio only bites for particular values such as 0.3/0.1.",
 [OB],[("period test","src/obs.rs run_sim/run_ext/run_sim_response/run_langevin/gen_single_traj")],["log*.dat","hist-st-t-*.dat"])
p("C20","Averaging returns the row-wise mean of all logs",
 "Averaging writes, for each data row index present in any matching log (first line of each log skipped), the column-wise arithmetic mean over exactly the logs that have that row, in row order, independent of the order in which files are found, leaving the logs unchanged.",
 ["inputs","configurations"],"all small sets of log files with all combinations of lengths and values from a finite alphabet",
 "No test runs averaging; ragged or empty logs and counts are never exercised.",
 [OB],[("average","src/obs.rs average")],["avg.dat"])
p("C21","Two-point average correlates every row with its own t=0 row",
 "The two-point average writes, for each data row index present in any matching log, the mean over the logs having that row of the time (first column) and of each observable multiplied by the same observable on the t=0 row of the same log, in row order and leaving the logs unchanged.",
 ["inputs","configurations"],"all small sets of log files with all combinations of lengths, positions of the t=0 row and values from a finite alphabet",
 "No test runs it.",
 [OB],[("two_point_average","src/obs.rs two_point_average")],["two-point.dat"])
p("C22","Temperature fits converge to the target energy",
 "Each temperature fit (plain, effective, adiabatic, rotating frame, lab Magnus) returns and records an inverse temperature within 0.001 of the one whose sampled mean energy equals the target whenever the target lies inside its search range (and the range's nearer end otherwise), for every target and every monotone energy curve, sampling the chain in the fields of the fit's own documented frame with all other settings as configured, and appending one row with period, target, result and the averages over the whole chain measured at the result.",
 ["inputs","configurations"],"all targets on a grid inside and outside the range, several monotone energy curves, all fit modes",
 "No test runs a fit: a bracket updated on the wrong side or the wrong ensemble still compiles.",
 [OB,MA],[("bisection","src/obs.rs find_beta*"),("averages","src/obs.rs get_obs*"),("recording","src/main.rs")],["betat*.dat","beta.dat"])
p("C23","Configuration files are honoured, defaulted, and refused when invalid",
 "Reading a configuration yields exactly the values given under every documented key (including the documented drive type key) and the documented defaults for all others, in any combination and order; writing a configuration and reading it back is lossless; a missing file yields the defaults and writes them; a malformed or ill-typed file is refused rather than silently replaced by defaults; and the program prints a description covering every key on request.",
 ["inputs","configurations"],"all subsets (up to a size) and orders of documented keys with several values each, all drive types, all single-key corruptions",
 "No test reads a configuration file.",
 [SC,SL,CF,MA],[("read_config","src/spinchain.rs read_config"),("defaults","src/config.rs")],["Config fields","config.toml","--config-desc output"])
p("C24","Command line overrides and selections take effect",
 "The period and inverse-temperature overrides govern every mode that uses them, the comma-separated list of periods, the sample counts, the step limit, the damping and negative target energies are accepted in the documented form and used as given, exactly the requested modes run, and with no mode requested the default trajectory run happens.",
 ["inputs","configurations"],"all mode flags crossed with the overrides, all list forms up to a bound",
 "No test parses a command line.",
 [MA],[("argument handling","src/main.rs Args/main")],["effective tau/beta seen by the engines","output files"])
p("C25","A crash never destroys the configuration or finished logs",
 "If the program is killed at any moment, the configuration file afterwards is either the complete previous one or the complete new one, so that the next invocation continues with the user's settings and an offset that does not overwrite the logs of invocations that had finished.",
 ["crash_points","fault_sequences"],"every prefix of the sequence of file-system operations of a run, torn writes at every cut of the configuration",
 "No test kills the program.",
 [OB,SC],[("configuration rewrite","src/obs.rs end of run_*")],["config.toml","log*.dat"])
p("C26","Analysis modes leave existing trajectory logs alone",
 "Monte-Carlo sampling, profiles, histograms, single-trajectory sampling, fits and averaging never create, truncate, append to or remove the numbered trajectory logs of earlier runs, a sweep over periods touches no log numbered below the offset, and the averaging modes change nothing but their own result file.",
 ["histories","configurations"],"all sequences trajectory run -> analysis mode over all modes and run counts up to a bound",
 "No test runs one mode after another in the same directory.",
 [OB,MA],[("logging switched off in sampling modes","src/obs.rs")],["log*.dat"])
p("C27","Histogram runs record the thermal and the dynamical ensemble",
 "A histogram run appends to the Monte-Carlo histogram file exactly the configured number of complete rows, numbered in order, each the energy and subsystem spin averages of a fresh plain Monte-Carlo sample of the undriven chain at the inverse temperature in effect; and to the dynamical histogram file exactly that number of rows, numbered in order, sampled at equal intervals along one undriven trajectory that starts from a sampled state only when that state lies within the stated tolerance of the target energy (0.005 per site) and of zero magnetisation per component (0.003), at the first such state met. The Magnus histogram is the Monte-Carlo one sampled with the first-order Magnus update.",
 ["inputs","configurations","histories"],"all scripts of sampled states (inside, on either side and outside of each tolerance) up to a length, histogram sizes, sweep of modes and disorder",
 "No test produces a histogram; a state accepted with the wrong sign or component, or a shifted sampling interval, only changes distributions.",
 [OB,MA],[("histograms","src/obs.rs gen_hist/gen_hist_magnus"),("energy condition","src/obs.rs gen_hist")],["hist_mc.dat","hist_dyn.dat","hist_mc_magnus.dat"])
p("C28","Every trajectory and sample is freshly thermalised with its own disorder",
 "Before any trajectory of the default, extended, Langevin, response, sweep, profile and adiabatic modes starts and before any sampled state is recorded, its chain has gone through its own full burst of Monte-Carlo updates (twenty million before a trajectory, a million per Monte-Carlo sample, ten thousand per histogram sample) of the right kind (plain, rotating-frame or lab Magnus) at the inverse temperature in effect, and no two trajectories or samples that stand for independent disorder realisations share their couplings or initial spins, whatever the thread count and schedule; fits average over a thousand samples or more that are separated by a thousand updates (ten thousand for the Magnus ensembles).",
 ["configurations","schedules","inputs"],"all modes crossed with temperatures, sizes, run and thread counts within bounds; schedules within a preemption bound",
 "No test runs a mode; too few updates, a wrong temperature or a chain shared between runs keeps the output plausible.",
 [OB,MA],[("thermalisation","src/obs.rs run_sim/run_ext/run_langevin/run_mc/run_dyn_profile"),("estimates","src/obs.rs get_obs")],["log*.dat","mc_live.dat","betat*.dat"])
p("C29","Adiabatic target is the exact mean over all trajectories under any schedule",
 "The energy the adiabatic fit aims at is the mean energy per site of every requested trajectory, each a thousand drive periods long and sampled once per period over the last nine hundred, each counted exactly once, whatever the number of threads and however they are scheduled, and the computation always ends.",
 ["schedules","configurations"],"all thread interleavings up to a preemption bound, all (runs, threads) up to a bound, several periods and steps",
 "No test runs the adiabatic mode; a trajectory lost or counted twice needs a particular split or interleaving.",
 [OB,MA],[("mean over trajectories","src/obs.rs trajectory_mean_e"),("adiabatic fit","src/obs.rs find_betat / src/main.rs")],["betat.dat"])
p("C30","A refused invocation leaves everything as it was",
 "An invocation that is refused - an unknown option, an ill-typed, missing or repeated value, or a configuration file that cannot be read as one - ends with a non-zero status and a message, and creates, changes or removes no file; asking for help or the version, or for the description of the configuration where one exists, ends with status zero and likewise touches nothing.",
 ["inputs","configurations"],"all options crossed with malformed values, all truncations and single-key corruptions of a configuration, crossed with modes",
 "No test runs the program; a configuration rewritten before the arguments are validated loses the user's settings.",
 [MA,SC,CF],[("argument parsing","src/main.rs Args"),("configuration parsing","src/spinchain.rs read_config")],["config.toml","log*.dat"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
