#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 tools/gen_props.py)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                               observe_at=observe or [], hook_needed=None)))
FC = "include/tree_topology/filling_curve.h"; TT = "include/tree_topology/tree_topology.h"; TG = "include/tree_topology/tree_geometry.h"
HT = "include/tree_topology/hashtable.h"; TY = "include/tree_topology/tree_types.h"
BS = "mpisph/bodies_system.h"; PS = "mpisph/psort.h"; IO = "mpisph/io.h"; UT = "mpisph/utils.h"
DP = "include/physics/default_physics.h"; KE = "include/physics/kernels.h"; ND = "include/physics/node.h"; FM = "include/physics/fmm.h"
VI = "include/physics/viscosity.h"; AN = "include/physics/analysis.h"; IN = "include/physics/integration.h"; EF = "include/physics/eforce.h"
BO = "include/physics/boundary.h"; PA = "include/params.h"; LA = "include/lattice.h"; DE = "include/physics/density_profiles.h"; BD = "include/physics/body.h"
UTESTS = "the unit tests build only the key and tensor tests here, on a handful of fixed values; "
p("C01", "Space-filling-curve keys identify the cell that contains the point",
  "For every dimension, domain box and point in it, the key computed at a given depth decodes to a position inside the cell of that depth containing the point (both curves), is the same for all points of one cell and different for different cells. Morton keys are the bit interleaving of the quantised coordinates, and the box reported for a Morton key is exactly its cell.",
  ["inputs"], "all boxes, points, depths, dimensions 1-3, Morton and Hilbert",
  UTESTS + "they check a few hundred random keys at full depth in one unit box.", [FC],
  [("Morton/Hilbert key constructors, coordinates(), range()", FC)], ["key values and decoded coordinates"])
p("C02", "Keys nest: parents are prefixes and the curve visits every cell once",
  "Truncating a full-depth key gives the key generated directly at the shallower depth, and pushing/popping child digits, last digit, depth, comparison and conflict depth behave as operations on the digit string. Ordering all cells of a level by key visits every cell exactly once, and consecutive Hilbert cells share a face.",
  ["inputs", "histories"], "all points and depths; all cells of a (sub)level; sequences of push/pop/truncate operations",
  UTESTS + "no test truncates, pushes or walks the curve.", [FC],
  [("pop/push/truncate/conflict_depth/operators", FC), ("hilbert rotations", FC)], ["key digits and order"])
p("C03", "Geometric tests used to prune the tree are exact up to rounding",
  "The predicates point-in-box, point-within-distance, box-box and sphere-box intersection and the opening (multipole acceptance) criteria agree with their mathematical definition for every dimension and input away from rounding ties, and are invariant under exchange of equivalent arguments and under translation.",
  ["inputs"], "all boxes, spheres, points in 1-3D, including degenerate (zero-size, touching, nested) ones",
  "no test of the geometry builds here; a wrong answer on one configuration silently drops neighbours.", [TG],
  [("tree_geometry static predicates", TG)], ["predicate results"])
p("C04", "Vectors and tensors obey their algebra in every symmetry storage",
  "Tensor element access is consistent with the declared symmetry for every rank, dimension and index tuple, and element-wise arithmetic, in-place operations, norm, dot, cross product, reflection and products agree with the component-wise mathematical definition for every operand including aliased ones.",
  ["inputs", "programs"], "all shapes up to rank 4/dimension 3, all symmetries, random expression programs",
  "tensors.sanity checks single values of each shape; it never combines operations or aliases operands.", ["include/tensor.h", "include/space_vector.h"],
  [("tensor storage and operators", "include/tensor.h"), ("space_vector operators", "include/space_vector.h")], ["component values"])
p("C05", "Tree cells keep their flags, children and indices independent",
  "After any sequence of updates to a tree cell (child added, node or particle index, owner, shared/requested/received flags), every query about it equals what a plain record of those updates says; likewise for particles, and copies of cells, nodes and particles carry every field. A lookup table of cells behaves as a map from key to cell for any sequence of insertions, lookups, in-place updates, counts and clearings, including colliding keys.",
  ["histories"], "all operation sequences, all indices and ranks representable, dimensions 1-3, colliding and non-colliding keys",
  "no unit test of the cell record or the table builds here; packed bits only interfere for particular sequences.", [TY, HT],
  [("hcell bit packing", TY), ("hashtable open addressing", HT)], ["cell queries, map contents"])
p("C06", "The distributed sort is a sort",
  "For every number of processes and every distribution of records over them (including empty processes and equal keys), the distributed sort leaves each process with the requested number of records (as many as it had, unless another distribution is asked for), the concatenation over processes is in key order, and it is a permutation of the input.",
  ["inputs", "schedules", "configurations"], "1-9 processes, 0-hundreds of records per process, many duplicates, every message schedule",
  "the sort's own test does not build without FleCSI and samples one random array.", [PS], [("median-of-medians splitting, alltoall exchange and multiway merge", PS)], ["output arrays"])
p("C07", "Redistribution conserves particles and balances them",
  "After each domain update, whatever the shares before it (empty ones included), every particle exists exactly once over all processes with all of its attributes unchanged, particles are ordered along the curve across processes, process loads differ by at most one particle, and the computational domain contains every particle (with its smoothing length).",
  ["inputs", "schedules", "configurations", "histories"], "all particle clouds and initial distributions, 1-9 processes, repeated updates with moving particles",
  "no test running the particle system builds here; loss or duplication appears only for particular counts and process numbers.", [BS, PS, "include/tree.h", BD],
  [("update_iteration / compute_range / psort", BS)], ["particle attributes per process"])
p("C08", "The distributed tree accounts for every particle exactly once",
  "After the tree is built, on every process, the root summarises all particles: total particle count, total mass, centre of mass and bounds enclosing every particle and its smoothing sphere. Every node's summary equals that of the particles under it, every particle is below exactly one leaf, and the result is the same for every number of processes.",
  ["inputs", "configurations", "schedules"], "all clouds whose particles lie in distinct finest cells, 1-13 processes including non powers of two, every message order",
  "tree tests do not build here, and the branch exchange is different for each process count and split of the key space.", [TT, ND, BD],
  [("build_tree, share_nodes_, cofm_update_", TT), ("compute_cofm", ND)], ["node summaries reachable from the root"])
p("C09", "Radius search equals brute force",
  "A search of the tree around any centre with any radius returns every particle whose distance is within the larger of the search radius and its own smoothing length, and nothing else, each once.",
  ["inputs"], "all clouds, centres, radii, smoothing lengths, dimensions 1-3", "the search test does not build here and checks one regular cloud.", [TT, TG, ND],
  [("find_in_radius", TT)], ["returned set"])
p("C10", "Every particle receives its complete neighbour set on every process count",
  "In one neighbour sweep each local particle is processed exactly once, and the neighbour list it is given contains every particle of the whole system, local or remote, whose distance is within the kernel support of the pair, each once with its true attributes, and no particle farther than the larger smoothing length of the two. That set of interacting neighbours does not depend on how particles are spread over processes.",
  ["inputs", "configurations", "schedules"], "all clouds with particles in distinct finest cells, smoothing lengths, 1-13 processes, clusters beyond group and message-batch limits",
  "no traversal test builds here; remote cells, request batching and group pruning only matter for particular clouds, sizes and schedules.", [TT, TG, ND],
  [("traversal_sph with request/reply protocol", TT)], ["neighbour lists passed to the particle function"])
p("C11", "Parallel sweeps terminate and give the same answer under every schedule",
  "For every interleaving of processes and every delivery order the message layer allows, tree construction, neighbour sweeps and gravity sweeps terminate with every message received, and the neighbour sets and interactions computed are the same as under any other schedule.",
  ["schedules", "configurations"], "seeded schedules of 2-9 simulated processes with eager and rendezvous completion, delayed and unfair delivery",
  "tests run one schedule; lost replies, early termination or stale requests need a particular one.", [TT], [("check_comms_/wait_comms_/DONE_COMMS", TT)], ["termination, leftover messages, results"])
p("C12", "Gravity by multipoles converges to the direct sum",
  "In three dimensions, with the opening angle set to zero, the gravitational acceleration of every particle equals the direct pairwise sum (and its potential the defining expansion); for a positive angle the error of each particle stays within what replacing each accepted cell by its monopole, and the receiving cell's field by its first terms, can cause, so it shrinks as the angle shrinks. Without expansion forces cancel in pairs, and the result does not depend on the number of processes beyond that accuracy.",
  ["inputs", "configurations"], "random clouds and masses in 3D, opening angles 0-1, 1-13 processes",
  "the gravity test does not build here and compares one cloud.", [FM, TT, ND], [("taylor_c2c, taylor_p2c, fc_c2p, fc_p2p", FM), ("traversal_fmm", TT)], ["accelerations and potentials"])
p("C13", "Every kernel is a normalised, compact, smooth bump and its gradient is its derivative",
  "For each kernel and dimension: it is non-negative and non-increasing in distance where its definition is, has its documented shape inside its support and vanishes beyond it, integrates to one over space (to the accuracy of its published normalisation), scales with the smoothing length as required, and the kernel gradient is its spatial derivative, antisymmetric in the separation and zero at zero separation.",
  ["inputs"], "all kernels, dimensions 1-3, distances, smoothing lengths over many decades, directions",
  "the kernel test does not build here; it checks few sample points.", [KE], [("kernel and gradKernel functions", KE)], ["kernel values"])
p("C14", "Choosing a kernel by name selects exactly that kernel",
  "For every kernel name accepted in a parameter file, the selected function, gradient and support width belong to the named kernel in the compiled dimension, the selected pair is mutually consistent, and an unknown name is rejected rather than ignored.",
  ["configurations", "inputs"], "all names, dimensions, orders of (re)selection, non-names", "no test selects kernels by name.", [KE, PA], [("kernels::select", KE)], ["kernel values after selection"])
p("C15", "Density and hydrodynamic rates equal the pairwise sums and are frame independent",
  "The density of a particle is the kernel-weighted sum over all particles, and the pressure acceleration, thermal and total energy rates equal their defining pairwise sums for every configuration; so does the repulsion added to close pairs while particles are relaxed. They do not depend on particle order, rotate with the frame, and are invariant under translation and (except for total energy) uniform boosts.",
  ["inputs"], "all particle sets, kernels, smoothing lengths, viscosities, dimensions 1-3", "no physics test builds here and sums need arbitrary configurations.", [DP, KE, VI],
  [("compute_density, compute_acceleration, compute_dudt, compute_dedt", DP)], ["particle attributes"])
p("C16", "Hydrodynamic forces conserve momentum",
  "For any closed set of particles the mass-weighted sum of hydrodynamic accelerations is zero up to rounding, and so is the torque, for every kernel, viscosity setting and smoothing-length distribution.",
  ["inputs"], "closed random particle sets, 1-3D, all viscosity forms", "no test of forces builds here; asymmetry only shows with unequal partners.", [DP, VI, KE], [("symmetrised pair force", DP)], ["sum m a, sum x cross m a"])
p("C17", "Hydrodynamic forces conserve total energy",
  "For any closed set of particles, the rate of change of kinetic energy by hydrodynamic forces plus the rate of change of thermal energy is zero up to rounding; likewise the total-energy rates of all particles sum to zero, and both formulations agree on a particle once kinetic energy is accounted for. In the total-energy formulation internal energy is total minus kinetic minus potential energy; a run in which a particle has none left is aborted.",
  ["inputs"], "closed random particle sets, 1-3D, viscosity on/off", "no test of rates builds here.", [DP, VI], [("compute_dudt/compute_dedt", DP)], ["sum m(v.a + du/dt), sum m de/dt"])
p("C18", "Artificial viscosity only dissipates",
  "Artificial viscosity is zero for separating or resting pairs, positive for approaching ones, symmetric under exchange of the pair, independent of the frame, and never decreases thermal energy through its own work; the viscosity switch never raises a coefficient above the larger of its previous value and the configured maximum, raises it at once to what the trigger and the shear limiter ask for, and otherwise lets it decay over h/(2 l v_sig).",
  ["inputs"], "all pairs, velocities, sound speeds, coefficient settings", "no viscosity test builds here.", [VI, DP], [("artificial_viscosity, mu, compute_alpha", VI)], ["viscous term and heating"])
p("C19", "The time step is positive, stable and common to all processes",
  "The adaptive time step is positive, at most 1.1 times the smallest of the Courant, acceleration and (in both energy formulations) energy criteria over all particles of all processes, the same on every process, and proportional to the safety factor. With outputs requested by time, steps are adjusted so that every requested output time is hit exactly, none is skipped, and the initial state is output.",
  ["inputs", "configurations", "histories"], "particle states, process counts, output intervals and histories of steps", "no test of the step control builds.", [DP, AN, IO], [("compute_dt, set_adaptive_timestep", DP)], ["time step and output times"])
p("C20", "Time integrators update exactly the states they should and are reversible",
  "Leapfrog kicks (velocity, internal and total energy), drift, saving of the half-step velocity and the update of the adiabatic invariant change only the intended quantity of each particle, by the documented increment, each particle exactly once; a full step reversed in time returns to the start up to rounding, and positions, velocities and energies follow analytic motion for constant acceleration.",
  ["inputs", "histories"], "all particle states, types, step sizes and sequences", "no integrator test builds.", [IN, BD], [("leapfrog_*", IN)], ["particle attributes"])
p("C21", "Each equation of state is internally consistent",
  "For every equation of state and valid density and energy, pressure, sound speed and internal energy are those of its formula, the adiabatic invariant computed initially reproduces the initial pressure, internal energy obeys the first law along an adiabat, squared sound speed is the derivative it is defined by, the pressure used in the rates is that half a step ahead while energies stay untouched, and the name in the parameter file selects exactly that equation (unknown ones are rejected).",
  ["inputs", "configurations"], "all EOS names, densities, energies, indices", "no EOS test builds.", ["include/physics/eos/eos.h", PA], [("eos::init/select and functions", "include/physics/eos/eos.h")], ["pressure, sound speed, temperature"])
p("C22", "External forces derive from their potential and add up",
  "Each external force equals minus the gradient of the potential reported for it, a comma-separated list of forces applies their sum regardless of order, and an unknown name is rejected.",
  ["inputs", "configurations"], "all force names, parameter values, positions, lists", "no external force test builds.", [EF, PA], [("external_force::select, acceleration_*, potential_*", EF)], ["acceleration and potential"])
p("C23", "Periodic boundaries wrap and replicate particles exactly once",
  "After wrapping, every particle lies inside the periodic box at a position differing from the original by an integer number of box lengths in periodic directions only. The ghost images created around the box are exactly the translated copies that lie within the halo, with attributes of the original, and are removed again afterwards. After a domain update on any number of processes every particle sees as neighbours exactly the particles within the kernel support at the periodic distance.",
  ["inputs", "configurations"], "clouds, boxes, periodic axis subsets, moves of less than a box length, halo widths below half a box, 1-3D", "no boundary test builds.", [BO], [("pboundary_generate/clean", BO)], ["particle set"])
p("C24", "Parameter files set exactly what they say",
  "Every parameter that can be read from a file is read back from it with exactly that value whatever the layout, comments, order or repetition, unset parameters keep their default, and unknown or malformed lines never silently change another parameter.",
  ["inputs"], "all parameters, values of every type, whitespace, comments, duplicates, junk lines", "no parameter test exists; only one file per app is ever read.", [PA], [("read_params, set_param", PA)], ["parameter values"])
p("C25", "Snapshots round-trip particles bit-exactly",
  "Writing particles to snapshots (one file, or a file per snapshot) with any number of processes, also empty ones, and reading one of them back with any number of processes gives the same particles in the same order, with bit-identical positions, velocities, mass, smoothing length, density, pressure, internal energy, time step, type, state and identifier, and with the time and time step stored with it; the particles are shared out evenly. Every field written (also accelerations and diagnostics of the particle) is in the file under its name, once per particle, together with iteration, time and dimension. Of initial data, fields that are missing (identifiers, time step, type, state, energy, pressure, density, length, velocity) are zero, or their documented default, and missing identifiers are generated unique, 1 to N. Writing changes no particle, reading changes no file.",
  ["inputs", "configurations"], "particle sets, process counts for writing and reading, multiple steps, 1-3D", "the io test does not build here and uses one set.", [IO], [("outputDataHDF5, inputDataHDF5, H5P_*", IO)], ["file content and particles"])
p("C26", "Restart continues from the requested step and does not destroy other outputs",
  "A restart from iteration i > 0 reads the snapshot whose stored iteration is i. If the output prefix is another one, all of its old snapshots (and nothing else) are removed and the new series starts at step 0; if it is the input prefix, the snapshots up to and including the restarted one stay as they are, later ones (file per snapshot) are removed, and every snapshot written afterwards appears as a new step, except that writing iteration i again leaves the snapshot there. A restart that cannot be honoured (no such iteration, no such input, not the last step of the single file to be continued, continuing a file-per-snapshot series from iteration 0) ends every process with a failure code and neither creates, removes nor changes a file. Files of other prefixes, in any directory, and files that only look similar are never touched. (Continuing initial data with the same single file, iteration 0, is not part of this.)",
  ["histories", "configurations", "inputs"], "sequences of outputs/restarts, prefixes, single-file and file-per-step modes", "no restart test builds.", [IO], [("H5P_hasStep/setStep/removePrefix, init", IO)], ["directory content, step read"])
p("C27", "Lattices fill the requested region with the requested spacing",
  "For the regular lattices (rectangular, and close packings, which are triangular in 2D and HCP or FCC in 3D) in a box or in the sphere inscribed in it, the generated particles lie inside the region (up to a tolerance of 1e-6 of the box), no two are closer than the spacing, every one away from the boundary has the neighbours of its lattice at the spacing and beyond, no place of the region that far inside is without a particle in reach, and a box is half open: the lattice includes the sites on its lower faces and not those on its upper ones. The icosahedral lattice is a centre and concentric shells of 10k^2+2 particles, the random lattice a ball of points, whose radial distribution follows the selected density profile. Counting and generating agree on the number of particles, and only those entries of the arrays are written.",
  ["inputs", "configurations"], "lattice types, boxes, spheres, spacings, offsets, array positions, 1-3D", "the lattice test does not build here.", [LA], [("generator_lattice", LA)], ["positions and count"])
p("C28", "Density profiles are normalised and their mass is their integral",
  "For every selected radial density profile and radius in [0, 1], the density is non-negative, the enclosed mass is the integral of the density over the ball of the dimension, grows from zero to one, and the density slope is its derivative; names are recognised in any letter case. A profile read from a table returns the tabulated density, mass and slope at the points of the table, interpolates between them with a cubic through neighbouring points (at least four points), and is zero outside. An unknown profile or a missing table ends the program with a failure code.",
  ["inputs", "configurations"], "profile names, rim widths, radii, tables, dimensions", "no profile test exists.", [DE], [("density_profiles::select", DE)], ["density and mass functions"])
p("C29", "Global diagnostics equal sums over all particles for every distribution",
  "Each line of the scalar reductions holds the current iteration, time and time step and, summed over all normal (not wall) particles of the whole system, the mass, total, kinetic and internal (or gravitational) energy, linear momentum and, where it exists, angular momentum, and in 3D the centre of mass of the tree; each line of the diagnostics holds minimum, maximum and mean (neighbours: rounded down) of smoothing length, number of neighbours and speed over all particles, and the distance of the closest pair - whatever the distribution over processes, including uneven and empty ones, and whatever was reported before. Lines appear exactly when the output schedule asks for them and have one value per column of the header. The progress lines on the screen show iteration and time of every iteration their own schedule (by iteration or by time) asks for, once, whatever the number of processes. The check of recorded conservation laws accepts constant quantities and reports changing ones.",
  ["inputs", "configurations", "histories"], "particle sets, process counts, distributions, sequences of reports", "no diagnostics test builds.", [AN, "include/diagnostic.h", UT], [("compute_* and reduce_*", AN), ("output", "include/diagnostic.h")], ["report files"])
p("C30", "Communication helpers deliver the right data to the right process",
  "The collective helpers exchange variable-sized arrays so that each process receives exactly the elements addressed to it, in source order, for every size pattern including empty ones, and reductions equal the mathematical reduction. An assertion that fails on any process aborts the run.",
  ["inputs", "configurations", "schedules"], "size matrices, process counts, schedules", "the utils test does not build here.", [UT], [("mpi_alltoallv_p2p, mpi_allgatherv, reduce_*", UT)], ["received arrays"])
DR = ["app/drivers/hydro/main_driver.cc", "app/drivers/newtonian/main_driver.cc"]
p("C31", "A simulation's results do not depend on the number of processes",
  "For every problem and parameter file, a whole run of the hydrodynamics or Newtonian gravity program gives, on any number of processes, with any arrival order of messages and any order of the particles in the initial file, the same snapshots (same iterations, times, particles by identifier and, up to accumulated rounding, all fields), the same scalar reductions and the same diagnostics.",
  ["inputs", "configurations", "schedules"], "initial states, parameter files (kernels, equations of state, viscosities, energy formulations, smoothing length modes, step control, periodic boxes, relaxation, gravity with exact opening), process counts, message orders; runs of a few steps", "no test runs a program; one number of processes cannot show a dependence on it.", DR + [DP, VI, BS],
  [("main loop", DR[0]), ("ghost updates around sweeps", BS)], ["snapshots, scalar_reductions.dat, diagnostic.dat"])
p("C32", "A whole run follows the discretised equations of motion",
  "At every output iteration, positions, velocities, accelerations, densities, pressures, internal energies, smoothing lengths and time steps in the snapshot, and the quantities in the scalar reductions, are those of the kick-drift-kick scheme applied to the initial state with all pairs of particles and simultaneous sweeps (each sweep sees the values its predecessors computed for every neighbour): first iteration, drag and repulsion during relaxation, one or two pressure passes, adaptive or fixed steps, variable or averaged smoothing lengths, periodic images and self-gravity included.",
  ["inputs", "configurations", "histories"], "as for C31, 1 to 7 processes", "no test of the drivers exists; single functions can be right while their sequence, their arguments' age or the ghost data is wrong.", DR + [DP, IN, VI, BO],
  [("main loop", DR[0]), ("main loop with gravity", DR[1])], ["snapshots, scalar_reductions.dat"])
p("C33", "A restarted run continues from its snapshot",
  "A run restarted from a snapshot, on any number of processes, starts from exactly the saved particles, time, time step and iteration: mass, momentum and (where they are evolved) energies at the restart equal those of the interrupted run, the continuation is the run that starts from that state, outputs requested by time continue from the time of the snapshot, and earlier snapshots in the same files are not changed.",
  ["inputs", "configurations", "histories"], "as for C31, with a restart at any output, other process counts, same or other output files, one file or one per output", "no test restarts a program.", DR + [IO, AN],
  [("read_bodies and first iteration", DR[0]), ("inputDataHDF5", IO), ("set_output_times", AN)], ["snapshots and reductions after the restart"])
p("C34", "An isolated system keeps mass, momentum, angular momentum and energy over a run",
  "Without external forces, walls and drag, every snapshot of a run has the mass, the linear and angular momentum and, when the total energy is evolved without self-gravity, the energy of the initial state up to rounding, on any number of processes; and the mass, energies, momentum and times in the scalar reductions of an iteration are those of the particles in the snapshot of that iteration.",
  ["inputs", "configurations", "histories"], "as for C31 without external forces", "no test runs a program; conservation breaks through stale or missing ghosts only for particular distributions.", DR + [DP, IN, AN],
  [("main loop", DR[0]), ("leapfrog", IN), ("compute_*", AN)], ["snapshots, scalar_reductions.dat"])
GE = "app/id_generators"
p("C35", "Initial data are the problem they are named for",
  "For every parameter file, the program that generates initial data leaves a file (replacing an old one of that name) that the evolution programs read back unchanged: the same one for any number of processes, with as many particles as it says, unique identifiers, distinct positions inside the (where asked, adjusted) domain, which the particles fill, and pressure, density, internal energy and smoothing length in the relations of the ideal gas and of the mass per particle. Each problem has its state: the mass of a particle is the density times the volume of its lattice cell, or together the mass of the domain; shock tube: both states of the chosen test in their thirds; Sedov: the density profile and the whole blast energy inside the blast radius, also when applied to existing particles, whose masses and positions stay; Noh: uniform inflow; implosion: energy rising linearly in the outer shell; collapse, wind tunnel: uniform; fluid and Rayleigh-Taylor: hydrostatic pressure, and the perturbation in its strip; Kelvin-Helmholtz: a middle layer of the other density in opposite motion, equal masses, a lattice that continues periodically, and the perturbation in its strips.",
  ["inputs", "configurations", "schedules"], "all generators, lattices, box and sphere sizes, resolutions, periodic axes, density ratios, kernels, 1-3D, 1 to 5 processes", "no test builds or runs a generator; the few parameter files that exist sample one resolution each.",
  [GE + "/%s/main.cc" % k for k in ("sodtube", "sedov", "noh", "implosion", "collapse", "wtunnel", "fluid", "KH", "RT")], [("set_derived_params and main", GE + "/*/main.cc")], ["initial data file"])
p("C36", "The relaxation program moves particles to the target distribution and nowhere else",
  "In the relaxation (wvt) program for spheres, in 2 and 3 dimensions: the selected method's pseudo-force on a particle is the documented repulsive pair sum over its neighbours, with mirror images at the sphere's edge (reflective) or only its tangential part (frozen) near the edge, and none outside; an unknown method is refused. A step moves every particle by the step size times its force, shortened until it stays within one per cent of the edge and reflected inside, so that no particle leaves the sphere; the step size falls linearly to zero over the cool-down; mass, identity and everything else stay, and density and smoothing length are those of the target profile (finite everywhere in the sphere), the latter rescaled over all processes to the desired number of neighbours where asked. The run ends with the last cool-down iteration or as soon as the share of particles, over all processes, still moving by more than a thousandth of their spacing is below the limit; its last snapshot has the target density. The snapshots are those of the equations, for every number of processes, and a run continued from one of its snapshots goes on as if it had not been interrupted.",
  ["inputs", "configurations", "schedules", "histories"], "both methods and boundary conditions, all profiles and kernels, neighbours on any side of the edge, up to 9 iterations of whole runs on 1 to 7 processes", "no test runs the relaxation; edge images, step halving and convergence need particular particles.",
  ["include/physics/wvt.h", "app/drivers/wvt/main_driver.cc"], [("wvt_acceleration_diehl, wvt_acceleration_arth", "include/physics/wvt.h"), ("wvt_displacement", "include/physics/wvt.h"), ("mpi_init_task", "app/drivers/wvt/main_driver.cc")], ["particle attributes", "snapshots of the wvt program"])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
