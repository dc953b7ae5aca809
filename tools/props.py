"""Source of properties.jsonl (python tools/props.py rewrites it)."""
import json
from pathlib import Path

S = "src/lambdapic/"
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over.split(), "text": text}, "why_tests_cant": why,
              "anchors": {"files": [S + f for f in files],
                          "mechanism": [{"name": a, "where": S + b} for a, b in mech],
                          "state": [{"name": a, "meaning": b, "where": S + c} for a, b, c in state],
                          "observe_at": list(observe), "hook_needed": hook}})


# ------------------------------------------------------------------ decomposition / communication
prop("M01", "Patch neighbour topology is exact, mutual and follows the boundary kinds",
     "For every patch and every direction (faces, edges and corners) the recorded neighbour is exactly the patch that adjoins it there: the wrapped one across a "
     "periodic boundary, none across an open boundary or a removed region. The relation is mutual, and every process resolves it to the right local patch or the right owning process. "
     "This also holds after patches are removed by a mask, after moving-window shifts and after rebalancing.",
     "configurations histories", "every patch grid, boundary-kind combination, mask, ownership assignment and sequence of window shifts / rebalances",
     "Tests build one or two fixed grids and check no neighbour tables at all; wrong corner neighbours only show up with particular grids and boundary mixes.",
     ["core/patch/patch.py", "simulation/simulation.py", "simulation/_mask_simulation.py", "callback/utils.py", "core/mpi/load_balancer.py"],
     [("rectangular neighbour construction", "core/patch/patch.py"), ("local index / rank resolution", "core/patch/patch.py"), ("window shift re-indexing", "callback/utils.py")],
     [("neighbor_index / neighbor_ipatch / neighbor_rank", "neighbour tables of a patch", "core/patch/patch.py")], ["patch tables after initialize(), after each step"])
prop("M02", "Patch ownership is a valid partition all processes agree on",
     "At start-up and after every rebalancing each patch is owned by exactly one existing process, no process is left without patches when there are at least as many patches as processes, "
     "and every process names the true owner for each of its patches' neighbours.",
     "configurations histories", "every patch grid, process count, load distribution and sequence of rebalances",
     "The tests run on one process except two manual MPI scripts with one layout each.",
     ["core/patch/metis.py", "core/mpi/load_balancer.py", "simulation/simulation.py", "core/patch/patch.py"],
     [("graph partition", "core/patch/metis.py"), ("ownership exchange", "core/mpi/load_balancer.py")], observe=["rank of every patch on every process"])
prop("M03", "Local particle migration is lossless and puts particles where they belong",
     "After particles are exchanged between patches of one process, every live particle is stored exactly once, in the patch whose extent contains its (periodically wrapped) position, with all other attributes unchanged. "
     "Only particles that left through an open boundary disappear. This holds whatever the number of particles moving, the directions they move in and the free slots available.",
     "inputs configurations histories", "all subsets of particles crossing each face, edge and corner, positions on and one ulp around boundaries, all grids and boundary kinds, any slot occupancy, repeated exchanges",
     "Tests move a handful of random particles on one layout and compare totals.",
     ["core/patch/sync_particles_2d.c", "core/patch/sync_particles_3d.c", "core/patch/patch.py", "core/particles.py"],
     [("outgoing count / extend / copy", "core/patch/sync_particles_2d.c"), ("3D counterpart", "core/patch/sync_particles_3d.c"), ("driver", "core/patch/patch.py")],
     [("is_dead", "free-slot marker", "core/particles.py")], ["particles of every patch after the exchange"])
prop("M04", "Particle migration between processes equals migration on one process",
     "Whatever the assignment of patches to processes, the order in which processes progress and the way messages are buffered, exchanging particles between processes leaves the same set of live particles in each patch "
     "(identity, position, momentum, weight, all attributes) as one process holding all patches would, and every message sent is received.",
     "schedules configurations inputs histories", "all ownership assignments, process schedules and MPI buffering/completion behaviours, several species in flight at once, repeated exchanges",
     "MPI tests are two scripts outside the reliable suite; they sample one schedule of one layout.",
     ["core/mpi/sync_particles_2d.c", "core/mpi/sync_particles_3d.c", "core/mpi/mpi_manager.py"],
     [("non-blocking count/payload exchange", "core/mpi/sync_particles_2d.c"), ("3D counterpart", "core/mpi/sync_particles_3d.c"), ("start/wait handles", "core/mpi/mpi_manager.py")],
     observe=["particles of every patch on every process"])
prop("M05", "Guard cells always mirror the owning patch",
     "After a guard-cell exchange every guard cell of every patch holds exactly the value of the interior cell it mirrors, on the same or another process, including edges and corners and across periodic boundaries; "
     "interior cells and guard cells outside an open boundary are untouched. In a time step this holds whenever user callbacks see the fields.",
     "schedules configurations", "all patch grids, sizes, guard widths, boundary kinds, ownership assignments, process schedules and MPI buffering behaviours",
     "Tests never inspect guard cells; errors at corners or in one periodic direction change results slightly.",
     ["core/patch/sync_fields2d.c", "core/patch/sync_fields3d.c", "core/mpi/sync_fields2d.c", "core/mpi/sync_fields3d.c", "core/mpi/mpi_manager.py"],
     [("local copy", "core/patch/sync_fields2d.c"), ("message exchange", "core/mpi/sync_fields2d.c")], observe=["field arrays after an exchange", "fields in maxwell_1 / end callbacks"])
prop("M06", "Each deposited current and charge is accumulated exactly once",
     "After current synchronisation every interior cell holds the sum of everything any patch on any process deposited at that physical cell, each contribution counted once, whether deposited in an interior or a guard cell. "
     "Synchronising again in the same step, or from callbacks at any stage in any number, changes nothing further.",
     "schedules configurations histories", "all grids, guard widths, boundary kinds, ownerships, schedules, buffering behaviours and sequences of synchronisation requests by callbacks",
     "No test checks current halos; double counting needs a specific callback order or layout.",
     ["core/patch/sync_fields2d.c", "core/patch/sync_fields3d.c", "core/mpi/sync_fields2d.c", "core/mpi/sync_fields3d.c", "simulation/simulation.py"],
     [("halo accumulation", "core/patch/sync_fields2d.c"), ("async start/wait with idempotence flag", "simulation/simulation.py")], observe=["jx,jy,jz,rho after synchronisation"])
prop("M07", "Physics does not depend on how the domain is decomposed",
     "For problems without random processes, running with any patch grid and any distribution over processes produces the same fields and the same particles after every step, up to floating-point rounding.",
     "configurations schedules histories", "all patch grids of a domain, all ownerships, several steps, 2D and 3D, several species",
     "Each test runs one decomposition and never compares two.",
     ["simulation/simulation.py", "core/patch/patch.py", "core/mpi/mpi_manager.py", "core/current/deposition.py", "core/maxwell/solver/solver.py"],
     [("time step", "simulation/simulation.py")], observe=["global fields and particle set after each step"])
prop("M08", "Rebalancing moves patches without changing any simulation state",
     "Migrating patches between processes from any ownership to any other leaves fields, absorbing-boundary memory, particles with all attributes, neighbour relations and boundary handling of every patch exactly as before, and the run continues exactly as an unbalanced run would.",
     "configurations schedules histories", "all pairs (old ownership, new ownership) of small grids, all process schedules and buffering behaviours, sequences of rebalances, continued steps",
     "One manual MPI script migrates one layout.",
     ["core/mpi/load_balancer.py", "simulation/simulation.py", "core/patch/patch.py", "core/particles.py"],
     [("migration plan and transfer", "core/mpi/load_balancer.py"), ("list rebuild", "simulation/simulation.py")], observe=["per-patch state before/after", "state after further steps"])
prop("M09", "All processes stay in step: no deadlock, mismatch or abandoned message",
     "For any schedule and any placement of data, all processes execute the same sequence of collective operations, every message is matched with the right size, no buffer is touched while in flight, and the run ends on all processes. "
     "A stop or checkpoint request or an exception arriving on one process at any point makes all processes leave the loop (or abort) instead of hanging.",
     "schedules fault_sequences configurations", "every process and stage at which a signal, stop request or exception arrives; processes without particles or with unequal numbers of patches; all process orders and MPI modes",
     "Needs an event on one process at a specific point in the schedule; tests are single-process.",
     ["simulation/simulation.py", "callback/restart.py", "core/mpi/mpi_manager.py", "core/mpi/load_balancer.py", "core/mpi/utils.py"],
     [("step loop", "simulation/simulation.py"), ("signal handling", "callback/restart.py"), ("abort on error", "core/mpi/utils.py")], observe=["termination and matching of all MPI calls"])

# ------------------------------------------------------------------ kernels
prop("K01", "Deposited current conserves charge exactly",
     "For every particle move of less than one cell per step, in any direction and from any position, the deposited current satisfies the discrete continuity equation with the deposited charge in every cell to rounding, "
     "and the total deposited charge equals the sum of q*w. Dead or untracked particles deposit nothing.",
     "inputs", "all start cells/sub-cell positions and displacements including cell-boundary crossings and exact ties, 2D and 3D, fused and staged paths",
     "Tests compare with a reference for random particles, not at boundary ties, and never check continuity.",
     ["core/current/cpu2d.c", "core/current/cpu3d.c", "core/current/current_deposit.h", "core/pusher/unified/unified_pusher_2d.c", "core/pusher/unified/unified_pusher_3d.c"],
     [("Esirkepov deposition", "core/current/current_deposit.h")], observe=["rho and j before/after a step"])
prop("K02", "Fused and staged pushers give the same step",
     "Choosing the fused particle step or the separate stages (as happens when a callback is attached to an inner stage) never changes the result of a step beyond rounding: same positions, momenta, fields at particles, currents and charge, in 2D and 3D, for any species.",
     "configurations inputs histories", "2D/3D, every set of inner-stage callbacks, all particle positions/momenta/fields of a bounded alphabet, live/dead patterns",
     "Tests compare the two on a fixed random state in kernel isolation, not through the step loop and not in every stage combination.",
     ["simulation/simulation.py", "core/pusher/pusher.py", "core/pusher/cpu.py", "core/pusher/unified/unified_pusher_2d.c", "core/pusher/unified/unified_pusher_3d.c", "core/interpolation/field_interpolation.py"],
     [("choice of path", "simulation/simulation.py"), ("staged position push", "core/pusher/pusher.py")], observe=["state after each step"])
prop("K03", "The particle pusher obeys the Lorentz-force invariants",
     "A pure magnetic field never changes a particle's momentum magnitude; a pure electric field adds exactly q E dt / (m c) ; the recorded inverse gamma is always 1/sqrt(1+u^2); speed never reaches light speed; massless particles keep momentum and move at light speed. "
     "Reversing the step recovers the start to rounding.",
     "inputs", "all combinations of field components, momenta (0, sub-relativistic, ultra-relativistic), charge signs and both pusher paths",
     "Tests sample random values and compare implementations with each other.",
     ["core/pusher/boris.py", "core/pusher/photon.py", "core/pusher/pusher.py", "core/pusher/cpu.py", "core/pusher/unified/unified_pusher_2d.c", "core/pusher/unified/unified_pusher_3d.c"],
     [("momentum rotation", "core/pusher/boris.py")], observe=["particle attributes after a push"])
prop("K04", "Fields gathered at particles are the grid fields at the right place",
     "The field a live particle feels is the staggered-grid field interpolated with the documented particle shape at that particle's position: uniform fields are reproduced exactly, linear fields at the exact position, "
     "each component at its own staggering, identically in every patch including its guard region.",
     "inputs configurations", "every grid node's unit impulse against every sub-cell position and owner cell of a small patch, 2D and 3D, each component, both paths",
     "Tests compare random fields against one numpy copy of the same formula away from edges.",
     ["core/interpolation/cpu2d.c", "core/interpolation/cpu3d.c", "core/interpolation/field_interpolation.py", "core/pusher/unified/unified_pusher_2d.c", "core/pusher/unified/unified_pusher_3d.c"],
     [("interpolation", "core/interpolation/cpu2d.c")], observe=["ex_part.. of particles, momentum change"])
prop("K05", "Field solver keeps div B and Gauss's law, absorbing layers only absorb",
     "For every initial field the solver updates each component exactly by the discrete curl of its neighbours, so that div B never changes and div E changes only through charge; vacuum energy stays bounded in a periodic box for any time step below the stability limit (at the limit it grows at most with the step count), "
     "and absorbing boundaries never amplify fields that arrive from outside them and reflect only a small fraction of well-resolved waves, alike on each side and corner.",
     "inputs configurations", "a unit impulse of each component in each cell (the update is linear, so impulses span all inputs), all boundary mixes, patch layouts, 2D and 3D",
     "Tests only run laser demos and inspect pictures or maxima.",
     ["core/maxwell/cpu.py", "core/maxwell/solver/solver.py", "core/boundary/cpml.py", "core/boundary/utils.py"],
     [("curl update", "core/maxwell/cpu.py"), ("CPML", "core/boundary/cpml.py")], observe=["field arrays after half steps"])

# ------------------------------------------------------------------ particle storage
prop("S01", "Sorting permutes particles and nothing else",
     "Sorting a species, for any content, leaves the multiset of live particles with all their attributes unchanged, places them grouped by their cell bucket with correct bucket bounds, and never resurrects, drops or mixes up attributes of particles.",
     "inputs histories", "all bucket occupancy patterns and live/dead patterns of small patches, all initial permutations, 2D and 3D, one and two bucket dimensions, repeated sorts with motion in between",
     "Tests sort a few random sets and check ordering.",
     ["core/sort/cpu2d.c", "core/sort/cpu3d.c", "core/sort/particle_sort.py"], [("bucket cycle sort", "core/sort/cpu2d.c")], observe=["particle arrays and bucket bounds after sorting"])
prop("S02", "Every live particle has an identity of its own for the whole run",
     "No two live particles of a species ever share an identifier, on any set of processes, and a particle keeps its identifier for life while it is sorted, migrated, rebalanced, pruned or its neighbours are created and destroyed; a new particle never gets the identifier of an earlier one.",
     "histories configurations", "all short sequences of create / kill / extend / prune / migrate / rebalance / window injection / pair creation operations on 1-3 processes",
     "No test looks at identifiers after anything but creation.",
     ["core/particles.py", "core/patch/patch.py", "core/qed/radiation.py", "core/qed/pair_production.py", "core/mpi/load_balancer.py", "callback/utils.py"],
     [("identifier generation", "core/particles.py")], observe=["id of live particles"])
prop("S03", "Particle storage grows, shrinks and is reused without corruption",
     "Any sequence of adding, killing, extending, pruning and migrating particles keeps every live particle's attributes intact, creates new slots empty, keeps liveness and length consistent over all attributes, and keeps every module operating on the current storage.",
     "histories", "all operation sequences up to a depth over a small alphabet, compared with a dictionary model, with extra attributes present",
     "Tests perform single operations.",
     ["core/particles.py", "core/patch/patch.py", "core/current/deposition.py", "core/interpolation/field_interpolation.py", "core/pusher/pusher.py", "core/sort/particle_sort.py", "core/qed/radiation.py"],
     [("extend / prune / initialize", "core/particles.py"), ("storage-moved flag and list refresh", "simulation/simulation.py")], observe=["particle arrays, step results"])

# ------------------------------------------------------------------ QED / collisions
prop("Q01", "Photon and pair creation balances particles and momentum",
     "Each emission event creates exactly one photon with the emitter's weight and position and the momentum the emitter loses; each pair event removes its photon and creates one electron and one positron with its weight sharing its momentum; "
     "no event happens without creation, no creation without an event, and existing particles are never overwritten.",
     "inputs histories", "all subsets of emitting particles, all free-slot patterns in the target species, thresholds, several patches, repeated steps",
     "Tests run statistics over many random events.",
     ["core/qed/radiation.py", "core/qed/pair_production.py", "core/qed/cpu.py", "core/qed/inline.py"],
     [("event flags, slot search, creation, recoil", "core/qed/cpu.py")], observe=["particles of all three species before/after a step"])
prop("Q02", "QED sampling stays inside its tables and is monotone and bounded",
     "For any field, momentum and random number the quantum parameter is finite and non-negative, event rates are finite, non-negative, never fall with the quantum parameter and agree with the published rates at the table nodes; an event happens exactly when a particle's optical depth is used up; the emitted share is between 0 and 1 and rises with the random number; lookups always end and never read outside the tables.",
     "inputs", "all table nodes, values between, one ulp around each node, below the minimum and above the maximum, random numbers 0, tiny, table plateaus, close to 1; both sampling tables",
     "Tests sample inside the table range.",
     ["core/qed/inline.py", "core/qed/optical_depth.py", "core/qed/optical_depth_tables.py", "core/qed/optical_depth_tables_sigmoid.py", "core/qed/cpu.py"],
     [("table lookup and inversion", "core/qed/optical_depth.py"), ("table generation", "core/qed/optical_depth_tables.py")], observe=["rates and sampled energies"])
prop("C01", "Collision pairing gives every particle its due partners",
     "In every cell, for each pair of colliding groups, every particle of the larger group is paired exactly once (same-species: every particle once, or twice in the odd triple), the members of the smaller group being shared evenly; partners come only from that cell and from live particles, never a particle with itself, for any counts.",
     "inputs schedules", "all counts of each group in a cell up to a bound, all live/dead patterns, every shuffle outcome of the random source",
     "Tests collide two fixed counts.",
     ["core/collision/collision.py", "core/collision/cpu.py", "core/collision/utils.py"], [("shuffle and pairing", "core/collision/cpu.py")], observe=["pairs handed to the scattering kernel / momenta changed"])
prop("C02", "A collision conserves momentum and energy",
     "For equal weights each binary collision conserves total momentum and energy to rounding and keeps both inverse gammas consistent; for unequal weights each particle is either scattered elastically or left exactly unchanged; particles at rest relative to each other, "
     "and extreme momenta or weights, never yield non-finite values. The deflection depends on the relative motion only, not on how the pair is oriented in space or which of the two comes first.",
     "inputs", "alphabet of momenta (rest, equal, opposite, ultra-relativistic), mass ratios, weight ratios, random-number corner values, densities",
     "Tests check averages of one setup.",
     ["core/collision/cpu.py", "core/collision/utils.py"], [("relativistic binary collision", "core/collision/cpu.py")], observe=["momenta before/after"])
prop("C03", "Debye length depends only on the present plasma state",
     "The screening length used for collisions in each cell is a function of the present densities and temperatures of the charged species there: repeating the computation, earlier steps, patch rebuilding, particle order, splitting a particle into lighter ones, or neutral species and photons do not change it.",
     "histories inputs", "repeated steps, list rebuilds and rebalances in any order; small cell populations incl. empty cells and single particles",
     "The test computes it once on a fresh object.",
     ["core/collision/collision.py", "core/collision/cpu.py", "core/collision/utils.py"], [("per-cell accumulation", "core/collision/collision.py")], observe=["debye_length arrays"])

prop("C04", "Collision frequency is set by the densities, not by the macro-particles",
     "In every cell, the collision strengths applied in one step add up to those of the physical densities: each particle sees on average the density of its collision partners times the time step, for any numbers of macro-particles of the two groups, dead slots, weights, cell volume, time step and Coulomb logarithm, and every time step of a run collides exactly once for its full length.",
     "inputs", "all counts of both groups in a cell up to a bound, dead slots, weight ratios, shuffles, volumes, steps",
     "Tests check a relaxation trend for one setup.",
     ["core/collision/cpu.py", "core/collision/utils.py", "simulation/simulation.py"], [("pairing corrections", "core/collision/utils.py")], observe=["momenta before/after each collision"])

# ------------------------------------------------------------------ lifecycle and output
prop("L01", "A run resumed from a checkpoint is the uninterrupted run",
     "Stopping after any step, saving and loading a checkpoint, and continuing gives bit-identical fields, absorbing-layer memory, particles with identifiers, random streams of the simulation, window position, time and step counter to the run that never stopped, on any number of processes, also if checkpoints chain.",
     "crash_points histories configurations", "every step as checkpoint step, all feature sets (absorbing layers, QED, collisions, several species), 1-3 processes, chains of checkpoints",
     "Tests resume one simple run once and compare a few arrays.",
     ["callback/restart.py", "simulation/simulation.py", "core/patch/patch.py", "core/particles.py"], [("dump / load", "callback/restart.py")], observe=["complete state after the same step"])
prop("L02", "A crash while checkpointing never loses the last good checkpoint",
     "At every instant during a checkpoint there is at least one complete checkpoint set once the first has been finished, loading never silently accepts a partial, mixed or mismatched set, and retention keeps exactly the requested newest ones, never the only good one.",
     "crash_points fault_sequences histories", "a crash after every file-system operation of every checkpoint, torn writes, failures of writes, retention counts, dumps by interval and by signal, changed process count",
     "Tests never interrupt a dump.",
     ["callback/restart.py"], [("dump, commit marker, garbage collection", "callback/restart.py")], observe=["checkpoint directory after a crash", "result of loading"])
prop("L03", "Callbacks run exactly when and where their schedule says",
     "Each callback runs exactly once per due step at its stage, in registration order, due being exactly: every k-th step, every interval of simulated time once, or whenever its predicate holds; init callbacks run once at the beginning of every run call, and final ones once at its end unless it was stopped early.",
     "histories inputs configurations", "all interval kinds and values (integers, times incl. multiples and non-multiples of the time step, predicates), all stages, run lengths, split runs",
     "Tests use two intervals for a few steps.",
     ["callback/callback.py", "callback/utils.py", "simulation/utils.py", "simulation/simulation.py"], [("schedule evaluation", "callback/callback.py")], observe=["sequence of calls"])
prop("L04", "Splitting a run into several calls changes nothing",
     "Running n steps in any number of consecutive calls, by step count, by simulated time, or with stop requests in between, gives exactly the same state, step counter and time as one call of n steps, and the number of steps executed is the requested one.",
     "histories", "all compositions of small n, both ways to give the length, stop requests at each step",
     "Tests call run once.",
     ["simulation/simulation.py"], [("run length handling", "simulation/simulation.py")], observe=["state, itime, time after each call"])
prop("O01", "Output files equal the data in memory for any layout and schedule",
     "Field and particle output files contain exactly the global fields, densities and live particles at that step, every cell and particle once and in place, whatever the patch grid, process count, process schedule, selected components, slices and previous outputs.",
     "schedules configurations inputs", "all grids, ownerships, process orders, component selections and slices; files written by several processes in every order",
     "Tests write from one process.",
     ["callback/hdf5.py"], [("collective and per-process writers", "callback/hdf5.py")], observe=["content of the files"])
prop("O02", "Global gathers return the true global array on any layout",
     "Collecting fields, slices or species densities from all patches gives on the collecting process exactly the array assembled cell by cell from the patches, for any layout, component, slice position and order of message arrival.",
     "schedules configurations inputs", "all grids, ownerships, slice positions (every plane), schedules incl. wildcard matching orders",
     "Tests gather on one process, at the central slice.",
     ["callback/utils.py"], [("gather", "callback/utils.py")], observe=["returned arrays / contributed densities"])
prop("O03", "Particles written out and read back are the same particles",
     "Saving species to a file and loading them, in the same or another layout, restores every live particle once with identical position, momentum, weight and consistent inverse gamma, in the patch it belongs to, for every species and any number of processes.",
     "configurations inputs", "all pairs of (layout saved, layout loaded), process counts, species lists, live/dead patterns",
     "The test loads into the layout it saved from, one species.",
     ["callback/hdf5.py", "callback/utils.py"], [("save / load callbacks", "callback/hdf5.py")], observe=["particles after loading"])
prop("W01", "The moving window shifts the frame and nothing else",
     "Each shift moves the window by a whole patch column (the first as soon as the window starts to move forward): fields, absorbing-layer memory and particles inside stay at their physical positions, those left behind vanish, new plasma follows the species' density where the window arrives. "
     "With any start time and any velocity (also zero or time-dependent), window position follows the integrated velocity, and process distribution does not matter.",
     "histories configurations schedules", "velocities and start times, injection on/off, 2D and 3D, all layouts and ownerships, sequences of shifts",
     "Tests check shift counts on one process.",
     ["callback/utils.py", "core/patch/patch.py"], [("shift and re-use of patches", "callback/utils.py")], observe=["particles/fields against absolute coordinates"])
prop("I01", "Initial plasma follows the requested density on any layout",
     "Every cell outside the absorbing layers where the requested density exceeds the minimum holds exactly the requested number of macro-particles inside that cell and weighing density times cell volume in total, no other cell holds any, "
     "independent of patch grid and process distribution; a fixed seed reproduces the same plasma.",
     "configurations inputs", "all layouts and ownerships of a domain, density profiles incl. zero, step, negative and tiny values, particles per cell constant or by function",
     "Tests check totals for one layout.",
     ["core/patch/cpu.py", "core/patch/patch.py", "core/species.py"], [("count and fill", "core/patch/cpu.py")], observe=["particles after initialize()"])
prop("R01", "Results do not depend on thread scheduling",
     "With any number of threads and any order in which they work, every step of a run (moving, depositing, sorting, migrating and exchanging with other processes, absorbing layers, collisions, quantum events, lasers, moving window) leaves the same particles and fields, "
     "and no two threads touch the same memory between two synchronisations unless both only read it.",
     "schedules", "all orders of patch iterations and thread counts of every parallel kernel of a small simulation, with conflicting accesses monitored",
     "Tests run whatever the scheduler does once.",
     ["core/pusher/unified/unified_pusher_2d.c", "core/current/cpu2d.c", "core/sort/cpu2d.c", "core/patch/sync_fields2d.c", "core/patch/sync_particles_2d.c", "core/mpi/sync_fields2d.c", "core/mpi/sync_particles_2d.c", "core/maxwell/cpu.py", "core/qed/cpu.py", "core/collision/cpu.py"],
     [("parallel loops over patches", "core/current/cpu2d.c")], observe=["state after a step per thread schedule"])
prop("E01", "Disabled components have no effect, enabled ones act, for every history",
     "A species that is disabled (by flag or by predicate, before or during the run, even in the middle of a step) neither moves, deposits, radiates nor collides in any step it does not take part in, a step is done completely or not at all, and re-enabling it resumes from exactly the state it was left in, in any on/off history. "
     "The same holds for the modules (pusher, interpolation, deposition, radiation, pair creation, load balancing) and for collision pairs; enabled ones act as if the disabled ones were not there. Densities of a species are written and extracted whichever species are disabled.",
     "histories", "all on/off histories of small length for species, modules and collision pairs, flags and predicates, flips at every stage of a step",
     "Tests toggle once.",
     ["core/utils/enable_mixin.py", "simulation/simulation.py", "core/species.py", "callback/callback.py", "simulation/utils.py"], [("enable flag", "core/utils/enable_mixin.py")], observe=["state after each step"])
prop("X01", "A laser enters the same way whatever the layout, and sources superpose",
     "An injected laser pulse has the requested amplitude, phase, polarisation, centre (an edge at 0 included) and time window, travels away from the xmin side at most at the speed of light, and produces the same fields for every patch grid, process distribution and rebalancing history. "
     "Sources combined with + add linearly in any order, a disabled summand adds nothing, and a source that has stopped or is disabled does nothing. Patches too small to hold the source give an error instead of a missing pulse.",
     "configurations histories", "all layouts/ownerships, rebalancing histories, polarisations, centres, sums of lasers, on/off times",
     "Tests run one laser in one layout.",
     ["callback/laser.py"], [("boundary source", "callback/laser.py")], observe=["fields after each step"])
prop("T01", "Momentum and temperature setters reach exactly the intended particles",
     "Setting momenta or a temperature on species changes exactly their live particles, once, at the requested time, on every patch and process, keeps inverse gamma consistent, leaves positions, weights and other species untouched, and matches the requested values or distribution.",
     "configurations inputs histories", "all layouts/ownerships, value kinds (constants, callables, partial), intervals, species subsets, re-runs",
     "Tests set one species on one layout.",
     ["callback/utils.py"], [("setter callbacks", "callback/utils.py")], observe=["particles after the callback"])

prop("G01", "Memory and handles stay bounded however long a run is",
     "Repeating any cycle of steps, callbacks, dumps, diagnostics, window shifts, exchanges between processes and rebalancings that brings the simulation back to the same particles and layout neither keeps allocating memory "
     "nor keeps arrays, files, messages or other objects of former steps or of former owners of a patch: what is held after warming up does not depend on how many times the cycle was run.",
     "histories configurations", "all words of operations up to a bound, repeated; 2D and 3D; one to three processes; collisions, QED, moving window",
     "Tests run a few steps and never look at what is kept; a leak of bytes per step passes every assertion.",
     ["core/patch/sync_particles_2d.c", "core/patch/sync_particles_3d.c", "core/mpi/sync_particles_2d.c", "core/mpi/sync_particles_3d.c", "core/mpi/load_balancer.py", "core/current/deposition.py", "core/interpolation/field_interpolation.py", "simulation/simulation.py"],
     [("reference counts and buffers in the extensions", "core/utils/cutils.h"), ("lists of arrays rebuilt on every change", "simulation/simulation.py")], observe=["memory held by the process, reachable arrays, descriptors, open requests"])

if __name__ == "__main__":
    out = Path(__file__).resolve().parent.parent / "properties.jsonl"
    out.write_text("".join(json.dumps(p) + "\n" for p in P))
    print(len(P))
