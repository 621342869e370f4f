"""Which programs decide which property, and how they are built."""

MPI_INC = ["-isystem", "/usr/lib/x86_64-linux-gnu/openmpi/include"]
H5_INC = ["-isystem", "/usr/include/hdf5/openmpi"]
BASE = ["-std=gnu++17", "-w", "-fopenmp", "-DPARALLEL_IO", "-DLOG_STRIP_LEVEL=0", "-D_GLIBCXX_ASSERTIONS"]


def dim(b):
    return [f"-DEXT_GDIMENSION={b['dim']}"] if b["dim"] else ["-DEXT_GDIMENSION=3"]


def plain(b, exe, here, repo, incs):
    """One translation unit, real MPI headers/libs (no MPI_Init needed)."""
    return [["g++"] + BASE + b.get("opt", ["-O1"]) + dim(b) + b.get("flags", []) + incs + MPI_INC + H5_INC +
            [f"{here}/{b['src']}", "-o", exe] + b.get("libs", ["-lmpi", "-lmpi_cxx"]) ]


def mock(b, exe, here, repo, incs):
    """In-process MPI (ranks are fibres, generated schedules); headers of /repo unchanged."""
    return [["g++", "-std=gnu++17", "-w", "-fopenmp", "-DNDEBUG", "-DPARALLEL_IO", "-DLOG_STRIP_LEVEL=5"] + b.get("opt", ["-O1"]) + dim(b) +
            b.get("flags", []) + [f"-I{here}/mock"] + incs + H5_INC + [f"{here}/{b['src']}", "-o", exe, "-Wl,--unresolved-symbols=ignore-all"]]


def mockio(b, exe, here, repo, incs):
    """As mock, with real HDF5 files behind collective calls made once for all ranks."""
    return [["g++", "-std=gnu++17", "-w", "-fopenmp", "-DNDEBUG", "-DPARALLEL_IO", "-DLOG_STRIP_LEVEL=5", "-fvisibility=hidden"] + b.get("opt", ["-O1"]) + dim(b) +
            b.get("flags", []) + [f"-I{here}/mockh5", f"-I{here}/mock"] + incs + H5_INC + [f"{here}/{b['src']}", "-o", exe] + b.get("libs", []) +
            ["-L/usr/lib/x86_64-linux-gnu/hdf5/openmpi", "-lhdf5"]]


PROFILES = {"plain": plain, "mock": mock, "mockio": mockio}
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-g1"]

CHECKS = {}
NOT_APPLICABLE = {}
PBT = "property-based testing: generated inputs against "

CHECKS["C01"] = dict(
    bins=[dict(src="keys.cc", props=["morton_round_trip", "hilbert_round_trip", "morton_range", "morton_interleave"])],
    technique=PBT + "an independent key model (round trip, cell arithmetic)",
    note="random boxes, points, depths; 1, 2 and 3 dimensions; 64-bit keys",
    rule="non-trivial: the point is strictly inside the domain (round trip), or the case compares cells at a depth > 0; distinct by the recorded choice sequence",
    quick_s=30)
CHECKS["C02"] = dict(
    bins=[dict(src="keys.cc", props=["morton_prefix", "hilbert_prefix", "morton_visits", "hilbert_visits", "key_path"])],
    technique="property-based testing: stateful key operations against a digit-string model; bijection over whole levels",
    note="all levels up to a few thousand cells; random digit paths of any depth",
    rule="non-trivial: depth strictly between 0 and the maximum (prefix), more than one refinement level (visits), path of at least two digits (stateful)",
    quick_s=30)
CHECKS["C03"] = dict(
    bins=[dict(src="geom.cc")],
    technique=PBT + "long-double reference predicates and metamorphic relations (exchange, translation)",
    note="decisions inside the rounding band are not judged",
    rule="non-trivial: at least one predicate of the case has a decision outside of the rounding band (4e-15 relative and absolute), i.e. the oracle demands a definite answer",
    quick_s=40)
CHECKS["C04"] = dict(
    bins=[dict(src="tens.cc")],
    technique="property-based testing: random programs over tensors against a component-wise model",
    note="ranks 1 to 4, dimensions 1 to 3, all symmetry storages, aliased operands",
    rule="non-trivial: a tensor with more than one component (access), a program of more than one step (arithmetic), two distinct non-zero vectors (functions)",
    quick_s=40)
TREE_ASSUME = ["particles lie in distinct finest cells of the curve and there are at least as many particles as processes (build_tree's precondition)",
               "MPI is an in-process model: ranks are fibres, a generated policy chooses the next rank and when messages become visible; synchronous sends complete only when received"]
def tree(props, **kw):
    return dict(bins=[dict(src="tree.cc", profile="mock", dims=[1, 2, 3], props=props)], parallel=3, assumptions=TREE_ASSUME, **kw)
CHECKS["C07"] = tree(["redistribute"],
    technique="property-based testing: generated clouds, rank counts and schedules against a conservation oracle (every particle once, attributes bit-equal, key order, loads)",
    note="1 to 13 simulated ranks, up to 600 particles, up to 3 moves per case",
    rule="non-trivial: more than one rank", quick_s=30)
CHECKS["C08"] = tree(["tree_nodes"],
    technique="property-based testing: every tree node on every simulated rank against aggregates computed from the particle list",
    note="1 to 13 simulated ranks, up to 300 particles; fresh tree, rebuilt tree and after a sweep",
    rule="non-trivial: more than one rank", quick_s=30)
CHECKS["C09"] = tree(["radius_search"],
    technique="differential property-based testing against a brute-force search",
    note="up to 400 particles, one rank; distances within 1e-9 of the radius are not judged",
    rule="non-trivial: the queries return some but not all particles", quick_s=20)
CHECKS["C10"] = tree(["neighbours", "neighbours_big"],
    technique="differential property-based testing of distributed neighbour sweeps against all-pairs search, over simulated ranks and schedules",
    note="1 to 13 simulated ranks, up to 2500 particles, up to 3 sweeps with changed attributes in between",
    rule="non-trivial: at least one required neighbour lives on another rank (or more than one particle on one rank)", quick_s=45)
CHECKS["C11"] = tree(["schedules_sweep"],
    technique="schedule fuzzing of the distributed sweeps on an in-process MPI model: termination, no lost message, same result under other schedules",
    note="2 to 9 simulated ranks, 2 or 3 schedules per case out of 5 policies (round robin, random, starvation, delayed delivery, slow rank)",
    rule="non-trivial: at least one required neighbour lives on another rank", quick_s=45)
CHECKS["C11"]["bins"].append(dict(src="fmm.cc", profile="mock", dims=[3], props=["fmm_schedules"]))
CHECKS["C11"]["parallel"] = 4
MOCK_ASSUME = TREE_ASSUME[1:]
CHECKS["C05"] = dict(
    bins=[dict(src="cells.cc", profile="mock", dims=[1, 2, 3], flags=["-fsanitize=address", "-g1"])], parallel=3,
    technique="stateful (model-based) property-based testing: random update sequences against a plain record / std::map",
    note="cells of 1, 2, 3 dimensions on any simulated rank; lookup table with colliding keys, in-place updates and clearing",
    rule="non-trivial: more than two different kinds of updates (cells); a collision occurred (table)", quick_s=25)
ASAN = ["-fsanitize=address", "-g1"]
CHECKS["C06"] = dict(
    bins=[dict(src="comm.cc", profile="mock", dims=[3], flags=ASAN, props=["sort_nonempty", "sort_any"])], parallel=1,
    technique="property-based testing of the distributed sort on simulated ranks against permutation and order oracles, under AddressSanitizer",
    note="1 to 16 simulated ranks, empty ranks, equal and extreme keys, generated schedules",
    rule="non-trivial: more than one rank and more records than ranks", quick_s=25, assumptions=MOCK_ASSUME)
CHECKS["C12"] = dict(
    bins=[dict(src="fmm.cc", profile="mock", dims=[3], props=["fmm_exact", "fmm_bound", "fmm_momentum", "fmm_schedules"])], parallel=1,
    technique="differential property-based testing against the direct sum with a rigorous per-particle error bound; momentum and schedule metamorphic relations",
    note="3 dimensions (the only one gravity exists for), monopole with constant force per cell; 1 to 13 simulated ranks",
    rule="non-trivial: more than two particles (exact), a multipole was really used (bound)", quick_s=40, assumptions=TREE_ASSUME)
CHECKS["C30"] = dict(
    bins=[dict(src="comm.cc", profile="mock", dims=[3], flags=ASAN, props=["alltoallv", "alltoallv_p2p", "alltoallv_buckets", "allgatherv", "reductions", "reduce_in_place", "reduce_vector", "failed_assertion"])], parallel=1,
    technique="property-based testing: generated size matrices and values against the addressed data and the mathematical reduction, on simulated ranks under AddressSanitizer",
    note="1 to 16 simulated ranks, several rounds, generated schedules",
    rule="non-trivial: some data is exchanged between more than one rank; reductions over unequal values", quick_s=25, assumptions=MOCK_ASSUME)
CHECKS["C13"] = dict(
    bins=[dict(src="kern.cc", profile="mock", dims=[1, 2, 3], props=["kernel_value", "kernel_monotone", "kernel_integral", "kernel_grad"])], parallel=3,
    technique=PBT + "long-double reference shapes normalised by quadrature, plus scaling, monotonicity and difference-quotient relations",
    note="8 kernels x 3 dimensions, smoothing lengths over 24 decades, sinc index 3..12",
    rule="non-trivial: the distance is strictly inside the support (and not zero)", quick_s=20)
CHECKS["C14"] = dict(
    bins=[dict(src="kern.cc", profile="mock", dims=[1, 2, 3], props=["select_by_name", "select_unknown"])], parallel=3,
    technique="stateful property-based testing: sequences of selections by (respelled) name against reference kernels; mutated names must be rejected",
    note="8 kernels x 3 dimensions, sequences of up to 6 selections",
    rule="non-trivial: more than one selection in sequence; every mutated name that is not a kernel's", quick_s=15)
CHECKS["C24"] = dict(
    bins=[dict(src="params.cc", profile="mock", dims=[3], flags=ASAN)], parallel=1,
    technique="property-based testing of generated parameter files against a model of the format, under AddressSanitizer; single-mutation files must be rejected",
    note="all 105 readable parameters, every value type, layouts, comments, duplicates, 1 to 6 simulated ranks",
    rule="non-trivial: at least three lines (file), value differs from the default (single), every malformed file", quick_s=20)
PHYS_NOTE = "particle sets of up to 40 particles, 8 kernels, both viscosities, lengths, masses and speeds over tens of decades; "
def phys(props, **kw):
    return dict(bins=[dict(src="phys.cc", profile="mock", dims=[1, 2, 3], props=props)], parallel=3, **kw)
CHECKS["C15"] = phys(["density", "density_order", "smoothing_length", "rates", "repulsion", "frames", "pipeline"],
    technique="differential property-based testing against long-double pair sums, plus metamorphic relations (order, translation, rotation, scaling, boost, number of ranks)",
    note=PHYS_NOTE + "the whole density/force/energy pipeline on 1 to 13 simulated ranks", rule="non-trivial: two distinct particles overlap (and have a non-zero rate); pipeline: more than one rank",
    quick_s=40, assumptions=TREE_ASSUME)
CHECKS["C16"] = phys(["momentum", "pipeline_momentum"], technique="property-based testing: conservation of linear and angular momentum for generated closed systems, alone and spread over simulated ranks",
    note=PHYS_NOTE + "bound: 4e-13 of the sum of the magnitudes of the pair terms", rule="non-trivial: two distinct particles overlap; pipeline: more than one rank", quick_s=30, assumptions=TREE_ASSUME)
CHECKS["C17"] = phys(["energy", "recovered_energy", "pipeline_energy"], technique="property-based testing: conservation of energy for generated closed systems in both formulations, alone and spread over simulated ranks",
    note=PHYS_NOTE + "bound: 4e-13 of the sum of the magnitudes of the pair terms", rule="non-trivial: two distinct particles overlap and move; pipeline: more than one rank", quick_s=30, assumptions=TREE_ASSUME)
CHECKS["C18"] = phys(["viscosity_pair", "viscous_heating", "divergence", "alpha_switch", "alpha_start", "signal_speed"],
    technique="property-based testing of pairs and particle sets against the sign, symmetry, frame and bound relations of the viscosity, and long-double formulas",
    note=PHYS_NOTE + "both switch models", rule="non-trivial: an approaching pair (pair), overlapping moving particles (sets), alpha changes (switch)", quick_s=30)
CHECKS["C19"] = phys(["step_of_particle", "step_history", "end_of_run"],
    technique="stateful property-based testing: histories of adaptive steps on simulated ranks (own copy of the step control per rank) against schedule and stability invariants",
    note="1 to 5 simulated ranks, histories of up to 125 steps, three output schedules, sudden changes of the stable step by three decades",
    rule="non-trivial: every limiting criterion (particle), more than one rank and an output schedule (history), an end condition (end)", quick_s=30, assumptions=MOCK_ASSUME)
def state(props, **kw):
    return dict(bins=[dict(src="state.cc", profile="mock", dims=[1, 2, 3], flags=ASAN, props=props)], parallel=3, **kw)
CHECKS["C20"] = state(["updates", "constant_acceleration", "reversible", "every_particle_once"],
    technique=PBT + "long-double update formulas; exactness, time reversal and discrete energy over generated step sequences; every particle visited once on simulated ranks",
    note="all six update functions, sequences of up to 200 steps forwards and back, 1 to 6 simulated ranks",
    rule="non-trivial: the time step is not zero (updates), more than one step (sequences), more than one particle (visits)", quick_s=25)
CHECKS["C21"] = state(["eos_state", "eos_first_law", "half_step_pressure", "eos_names"],
    technique="property-based testing: every equation of state against long-double relations, the first law along adiabats and the half-step identity; stateful selection by name",
    note="five equations of state, densities over 12 decades (relativity parameter of the white dwarf 0.02 to 1000), sequences of up to 3 selections",
    rule="non-trivial: an equation of state other than 'none' is selected (state), ideal gas whose pressure follows the energy (half step)", quick_s=30)
CHECKS["C22"] = state(["force_is_gradient", "force_sum", "force_unknown", "drag"],
    technique=PBT + "an automatically differentiated reference potential for every external force, sums of lists in any order, rejection of unknown names",
    note="all eight named forces, lists of up to 5, all wall axes that exist in the dimension; positions where the potential is not smooth are not judged",
    rule="non-trivial: the force does not vanish at the position", quick_s=40)
CHECKS["C23"] = state(["wrap_and_images", "periodic_neighbours"],
    technique="property-based testing of histories of moves against the set of images of a periodic box; whole domain updates against minimum-image distances, on simulated ranks under AddressSanitizer",
    note="1 to 6 simulated ranks, all combinations of periodic axes, moves of less than a box length, halo below half a box",
    rule="non-trivial: there are images (images), more than one rank (neighbours)", quick_s=45, assumptions=TREE_ASSUME)
IO_ASSUME = MOCK_ASSUME + ["collective HDF5 calls are executed once for all simulated ranks by the installed HDF5 on real files in a scratch directory; MPI-IO itself is not exercised",
                           "removal of files is limited to the scratch directory, exit() ends the simulated rank"]
def io(props, **kw):
    return dict(bins=[dict(src="io.cc", profile="mockio", dims=[1, 2, 3], flags=ASAN, props=props)], parallel=3, assumptions=IO_ASSUME, **kw)
CHECKS["C25"] = io(["round_trip", "initial_data"],
    technique="property-based testing: write/read round trips between different numbers of simulated ranks, bit-exact, plus the file content read with HDF5 itself, under AddressSanitizer",
    note="1 to 7 ranks, up to 3 snapshots, up to about 100 particles, special floating-point values; initial data with any subset of optional fields",
    rule="non-trivial: more than one rank writes or reads", quick_s=30)
CHECKS["C26"] = io(["restart_history", "long_series", "long_file"],
    technique="stateful (model-based) property-based testing: histories of runs of the program (fresh, restart, impossible restart) against a model of all snapshot series in the directory",
    note="2 to 5 runs per history, series with step numbers up to 99999, 6 prefixes in 4 directories (names up to about 400 characters), both output modes, look-alike files, 1 to 7 ranks",
    rule="non-trivial: at least one restart, honoured or refused", quick_s=40)
def init(props, **kw):
    return dict(bins=[dict(src="init.cc", profile="mock", dims=[1, 2, 3], flags=ASAN, props=props)], parallel=3, **kw)
CHECKS["C27"] = init(["regular_lattice", "icosahedral", "random_sphere"],
    technique="property-based testing of generated lattices against their crystallographic coordination, hole-freeness, translation closure and radial distribution",
    note="rectangular, triangular, HCP, FCC, icosahedral and random lattices; boxes with edges of 16 decades, off-centre, boxes and spheres; guarded output arrays",
    rule="non-trivial: the domain has particles that are more than 1.7 separations away from its boundary and the hole and translation oracles were applied (regular); more than one shell (icosahedral); a sphere (random)", quick_s=30)
CHECKS["C28"] = init(["profile", "profile_from_file", "profile_unknown", "profile_missing_file"],
    technique=PBT + "long-double quadrature of the profile, generated tables (polynomials reproduced, cubic through neighbouring points), mutated names must be refused",
    note="all named profiles, rim widths, radii in [0, 1] and tables of 4 to 44 points over 130 decades, under AddressSanitizer",
    rule="non-trivial: radius strictly between 0 and 1 (formulas); every table; every name that is not a profile", quick_s=20)
CHECKS["C29"] = dict(
    bins=[dict(src="diag.cc", profile="mockio", dims=[1, 2, 3], flags=ASAN, props=["reports", "closest_pair", "conservation_kept", "conservation_broken"]),
          dict(src="screen.cc", profile="mock", dims=[3], flags=["-ULOG_STRIP_LEVEL", "-DLOG_STRIP_LEVEL=1"])], parallel=4,
    technique="property-based testing: the lines of both report files over histories of changing particles on simulated ranks, against sums, means and extrema over all particles",
    note="1 to 13 simulated ranks with even, uneven and empty shares, up to 4 reports per run, both output schedules; compared to the 13 digits printed",
    rule="non-trivial: more than one rank and at least one report", quick_s=30, assumptions=IO_ASSUME)
CHECKS["C35"] = dict(
    bins=[dict(src="setup.cc", profile="mockio", dims=[1], flags=["-g1"], props=["sodtube", "sedov", "noh"]),
          dict(src="setup.cc", profile="mockio", dims=[2], flags=["-g1"], props=["sodtube", "sedov", "noh", "implosion", "wtunnel", "fluid", "kelvin_helmholtz", "rayleigh_taylor"]),
          dict(src="setup.cc", profile="mockio", dims=[3], flags=["-g1"], props=["sodtube", "sedov", "noh", "implosion", "collapse", "wtunnel", "fluid", "kelvin_helmholtz", "rayleigh_taylor"])], parallel=3,
    technique="property-based testing of whole generator runs: generated parameter files on simulated ranks, the file left behind against the analytic initial state, the measured lattice cell, a second run, and the reader of the evolution programs",
    note="all nine generators in every dimension they are for; lattices of 3 to 40 particles per edge; several ranks where the generator allows it (not Sedov and Noh, which refuse); wind tunnel and fluid boxes of at least three layers",
    rule="non-trivial: more than 20 particles", quick_s=40, assumptions=IO_ASSUME)
RUN_ASSUME = TREE_ASSUME + IO_ASSUME[1:] + ["smoothing lengths, steps and speeds are such that no particle runs out of internal energy (such cases are discarded)"]
def run(props, **kw):
    def b(drv, dims): return dict(src="run.cc", profile="mockio", dims=dims, flags=["-DDRIVER_" + drv, "-g1"], props=props, tag="_" + drv.lower())
    return dict(bins=[b("HYDRO", [1, 2]), b("NEWTONIAN", [3])], parallel=3, assumptions=RUN_ASSUME, **kw)
RUN_NOTE = "hydro driver in 1 and 2 dimensions, Newtonian driver (with and without gravity, which otherwise is the same loop) in 3; up to about 220 particles, mostly 1 to 6 iterations per run and sometimes 10 to 24, 1 to 7 simulated ranks; "
CHECKS["C31"] = run(["processes"],
    technique="metamorphic property-based testing of whole program runs: generated problems and parameter files run on two numbers of simulated ranks, schedules and file orders must give the same output files",
    note=RUN_NOTE + "compared to 1e-8 of the largest value of a field", rule="non-trivial: the two runs differ in the number of ranks", quick_s=50)
CHECKS["C32"] = run(["trajectory"],
    technique="differential property-based testing of whole program runs against a reference integrator over all pairs with synchronous sweeps",
    note=RUN_NOTE + "compared to 1e-9; the pair terms themselves are judged by C13, C15 to C18 and C21", rule="non-trivial: more than one step and more than four particles", quick_s=45)
CHECKS["C33"] = run(["restart"],
    technique="property-based testing of interrupted runs: first part, restart on other simulated ranks, continuation against a reference run from the saved snapshot and continuity of the conserved quantities",
    note=RUN_NOTE + "same or other output prefix, one file or one per output, later snapshots dropped", rule="non-trivial: the two parts ran on different numbers of ranks", quick_s=45)
CHECKS["C34"] = run(["conserved"],
    technique="property-based testing of whole program runs against conservation laws evaluated on the snapshots, and consistency of the report with the snapshots",
    note=RUN_NOTE + "all eight kernels, both energy formulations", rule="non-trivial: more than one rank and more than one step", quick_s=40)
CHECKS["C36"] = dict(
    bins=[dict(src="wvt.cc", profile="mockio", dims=[2, 3], flags=["-g1"])], parallel=2,
    technique="property-based testing: pseudo-force, displacement, lengths and convergence against long-double references; whole relaxation runs on simulated ranks against a reference over all pairs, and continued from their snapshots",
    note="up to 12 neighbours per force, displacements up to 300 radii, 1 to 8 simulated ranks; whole runs of up to about 150 particles and 9 iterations, compared to 1e-9 plus thirty times the divergence of a run started 1e-12 away",
    rule="non-trivial: a particle inside with a neighbour that pushes (force); a step size above zero (displacement); more than one rank (lengths, convergence, runs of more than one iteration)",
    quick_s=45, assumptions=RUN_ASSUME[:-1])
