#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
L = "dorado/lagrangian_walker.py"; P = "dorado/particle_track.py"
R = "dorado/routines.py"; PR = "dorado/parallel_routing.py"; S = "dorado/spatial.py"
LG = "dorado/logging_config.py"
WD = dict(name="walk_data", meaning="per particle, the append-only lists xinds, yinds, travel_times and tracked variables", where=P)
props = []
def p(id, title, statement, over, text, why, files, mech, observe, state=(WD,)):
    assert len(title) <= 80, title
    props.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
        why_tests_cant=why, anchors=dict(files=files, state=list(state), mechanism=[dict(name=n, where=w) for n, w in mech],
        observe_at=observe, hook_needed=None)))

p("C01", "Particles stay on the grid and move one D8 neighbour at a time",
  "Wherever particles are seeded on the grid (the outermost rows and columns included), every position in their recorded history is an integer cell inside the grid. "
  "Two consecutive recorded positions of a particle are always distinct cells that share an edge or a corner. "
  "This holds for every sequence of random draws and across single iterations, target-time runs, flow-field changes, interrupted calls and restarts.",
  ["inputs", "histories", "schedules", "fault_sequences"],
  "every flow field, boundary layout and seed cell; every sequence of random draws (0.0 and the largest double below 1 included); every order of seeding, stepping, target-time runs, Ctrl-C, new flow fields and restarts",
  "The tests step a few particles from interior cells with a fixed seed; no test seeds the first row or column, feeds an extreme draw or mixes modes, so a walk that leaves the grid (negative indices wrap silently) is never reached.",
  [L, P], [("boundary window test", L + ":check_for_boundary"), ("target-time boundary test", P + ":Particles.run_iteration"), ("choice of the next cell", L + ":random_pick, steep_descent, calculate_new_ind")],
  ["return value of Particles.run_iteration", "Particles.walk_data"])

p("C02", "Particles never enter dry or land cells unless they are at a dead end",
  "A particle never moves into a cell that is land (cell type 2) or whose depth is at or below dry_depth, unless no neighbour of its current cell has a positive routing weight. "
  "At such a dead end it goes to one of the deepest cells of the 3x3 window around it, and stays if its own cell is the only deepest one. "
  "This holds for every random draw, the extreme values included, in every routing mode.",
  ["inputs", "schedules", "histories"],
  "every wet/dry/land layout, weighting parameters, routing mode and history; every sequence of uniform draws including exactly 0.0 and 1-2^-53",
  "Tests check the weights of a handful of 3x3 windows and a couple of picks under np.random.seed(0); a wrong move needs a specific draw (for instance exactly 0.0) or a rare window.",
  [L], [("dry and land cells get weight zero", L + ":make_weight"), ("dead-end rule", L + ":make_weight"), ("draw against cumulative weights", L + ":random_pick")],
  ["consecutive positions in walk_data against depth and cell_type"])

p("C03", "The next cell is drawn with the documented routing probabilities",
  "A particle that is free to move chooses each of the surrounding cells with probability proportional to depth^theta * (gamma * normalised downhill surface slope + (1 - gamma) * normalised discharge component towards the cell). "
  "Cells of zero weight are never chosen, and at a dead end all deepest cells of the window are equally likely. "
  "The probabilities do not depend on the other particles, on the particle's earlier path, or on whether it is moved by single iterations, to a target time or after a restart.",
  ["inputs", "schedules", "histories", "configurations"],
  "every flow field given as discharge or velocity in either axis convention, every theta, gamma and dry depth, every cell, every stream of random draws and every mix of run modes",
  "A probability law quantifies over all draws and all cells; the tests look at single picks from hand-made weight vectors and never compare frequencies with the law.",
  [L, P], [("routing weights", L + ":make_weight"), ("weighted pick", L + ":random_pick"), ("flow components from qx/qy/u/v", P + ":Particles.__init__")],
  ["recorded moves of many particles under a controlled random stream"])

p("C04", "Travel times follow the documented travel-time law and never decrease",
  "A step of length d from one cell to the next adds 0.5*d*max(0, cos(angle between the step and the flow at the old cell))*(1/v_old + 1/v_new) to the particle's travel time, times 1 + e with e drawn per step, independently and uniformly, within half the diffusion coefficient of zero. "
  "With a diffusion coefficient of zero (the default under steepest descent) the time is exact, and with a coefficient up to 2 travel times never decrease. "
  "The history of a particle starts at its seed time, and nothing other than its own steps changes its clock.",
  ["inputs", "schedules", "histories"],
  "every velocity field (zero and undefined velocities included), diffusion coefficient, seed time and stream of random draws; single iterations, target-time runs, new flow fields, restarts and interruptions",
  "Tests compare the travel time of one or two steps with a stored number; bounds and spread must hold for every draw, and accumulation for every history.",
  [L, P], [("travel time of one step", L + ":calc_travel_times"), ("accumulation", L + ":particle_stepper"), ("velocity and its angle", P + ":Particles.__init__")],
  ["travel_times in walk_data"])

p("C05", "Particles next to an edge cell stop for good; all others keep moving",
  "Once the 3x3 window around a particle contains an edge cell (type -1), no later iteration, target-time run, restart or draw adds a position to its history. "
  "Any other particle seeded away from the outermost ring gets exactly one new position per single iteration, unless its cell is a dead end from which its own cell may be chosen. "
  "The particles of one call do not hold each other back: every particle that can move does so, whatever happens to the others.",
  ["inputs", "schedules", "histories"],
  "every edge layout (outer ring, custom and interior edge cells), every number of particles, every draw, every sequence of single iterations and target-time runs",
  "One unit test calls the boundary helper on a toy array; termination and progress are statements about every later step of every history.",
  [L, P], [("stop at the edge", L + ":check_for_boundary"), ("skip particles at the edge", P + ":Particles.run_iteration")],
  ["growth of each particle's history between calls"])

p("C06", "Target-time runs stop at the step closest to the target and respect max_iter",
  "In a run to a target time a particle takes another step exactly while its predicted next time (current time plus its last step, at least 0.1 s after a step of this run; 0.1 s for a particle that never moved) is no further from the target than its current time, and it stops on reaching an edge, on failing to move, or after max_iter steps. "
  "The rule applies to each particle by itself, whatever the number and state of the other particles. "
  "With verbosity on, one warning names all and only the particles that were cut off at max_iter.",
  ["inputs", "schedules", "histories"],
  "every set of particles at different times (seeded late, already past the target, stopped at an edge), target, iteration limit, flow field and draw sequence; repeated targets and resumed histories",
  "Tests run one target time on one data set and look at a few final values; the stopping rule must hold for each particle at every step it takes.",
  [P], [("target-time loop", P + ":Particles.run_iteration"), ("iteration-limit warning", P + ":Particles.run_iteration")],
  ["travel_times appended by a call", "warnings raised by the call"])

p("C07", "Seeding creates exactly the requested particles and preserves existing ones",
  "Seeding N particles adds exactly N one-point histories at the given seed time: each at coordinates from the given lists for the random method, or going round the listed locations in order for the exact method, so that no location is used more than once more often than another. "
  "Under the random method the x and the y of each particle are picked independently and uniformly from their lists, whatever the draws. "
  "Particles already present, and those of a supplied earlier history, keep their complete records, ordered as supplied history first, then present particles, then new ones.",
  ["inputs", "schedules", "histories"],
  "every seed list (single entries, repeats, two-dimensional arrays), every N including 0, every draw, and every sequence of seeding, moving, clearing and resuming calls",
  "The tests seed 1 to 3 particles a couple of times from short lists; counts and order must survive any sequence of calls, and uniformity concerns all draws.",
  [P, L], [("seeding", P + ":Particles.generate_particles"), ("random location", L + ":random_pick_seed")],
  ["Particles.walk_data after generate_particles"])

p("C08", "Histories are append-only and aligned, even across interruptions and errors",
  "No operation ever alters or removes a recorded point: each call only appends, and afterwards the position, time and tracked-variable lists of each particle have equal length. "
  "A rejected call leaves the recorded history exactly as it was. "
  "If a seeding or moving call is interrupted (Ctrl-C) while drawing random numbers, the history is still aligned, holds every earlier point and only legal new ones, and the run can be continued from it.",
  ["histories", "fault_sequences", "crash_points"],
  "every interleaving of seeding, moving, querying, rejected calls, tracked variables added on resume, and a KeyboardInterrupt at every random draw and (for earlier points only) at every source line of the package",
  "Unit tests make each call once on fresh state and never interrupt one; alignment after an interruption depends on the exact point at which it lands.",
  [P, L], [("append after the step is complete", P + ":Particles.run_iteration"), ("seeding replaces the history only at its end", P + ":Particles.generate_particles")],
  ["deep copies of walk_data before and after each operation"])

p("C09", "Tracked variables and ROI flags record the field at the recorded position",
  "For every tracked variable, the value recorded with a position equals that field (in the flow field in force when the point was recorded) at that cell, and the ROI flag is 1 exactly when the cell is inside the region of interest. "
  "There is one value per recorded position, for every particle, in every mode of movement, across restarts, re-seeding and flow-field changes. "
  "Points recorded while a variable was not tracked are marked as missing instead of shifting later values.",
  ["inputs", "histories", "schedules"],
  "every subset of trackable variables with or without an ROI, single iterations and target-time runs, changing flow fields, resumed histories that lack a variable, every draw sequence",
  "Existing tests check presence and length of the lists for one step; value-to-position correspondence must hold along whole histories of all particles.",
  [P, L], [("sampling at the new position", L + ":particle_stepper"), ("sampling at the seed", P + ":Particles.generate_particles"), ("append together with the position", P + ":Particles.run_iteration")],
  ["tracked lists in walk_data against the fields"])

p("C10", "A run resumed from its saved history continues as if never interrupted",
  "Stop after any operation, keep only the history (as returned or saved to and loaded from a JSON file), build a new particle object from the same inputs and resume: with the same random draws from there on, every later position, time and tracked value equals that of the uninterrupted run. "
  "This holds for repeated restarts, for single iterations, target-time runs and further seeding. "
  "A resumed history that is cut at any recorded step is a valid starting point in the same way.",
  ["crash_points", "histories", "schedules"],
  "every crash point between operations, any number of crashes, every mix of operations, every draw sequence, in-memory and JSON checkpoints",
  "One test resumes once from one stored history; equivalence must hold at every possible stopping point.",
  [P, R], [("resume from previous data", P + ":Particles.generate_particles"), ("step estimate from recorded history", P + ":Particles.run_iteration"), ("JSON save format", R + ":steady_plots")],
  ["final walk_data of the crashed and of the uninterrupted run"])

p("C11", "A routine that reports success has saved its complete history to disk",
  "When a saving routine (steady, unsteady or time plots) returns normally, data/data.txt in the output folder parses to exactly the history it returns and there is one figure file per step. "
  "If the file system fails at any point (full disk, denied or failed open, short or failed write, failed close, failed directory creation), the call raises instead of returning. "
  "Whatever happens, a file that parses never holds anything but a complete history, and files outside the output folder are untouched.",
  ["fault_sequences", "crash_points", "histories", "configurations"],
  "every disk-error kind at every file operation and byte count, process death at any write, existing or missing output folders, with and without tracked variables, float32 and float64 inputs",
  "The tests never call the routines with save enabled to completion and inject no disk error; a swallowed close error looks like success.",
  [R], [("saving the history", R + ":steady_plots, unsteady_plots, time_plots"), ("plain numbers in the history", L + ":particle_stepper")],
  ["return or exception of the routine", "bytes on disk afterwards"],
  state=(WD, dict(name="data/data.txt", meaning="JSON dump of walk_data", where=R)))

p("C12", "Unsteady runs apply the model outputs in name order, one per time step",
  "An unsteady run moves the particles to the multiples 1..n of the time step, the i-th of them under the i-th model output of each field in the order of the file names, whatever order the operating system lists the files in. "
  "csv, npy and npz outputs holding the same numbers give the same result, extra unrelated files change nothing, and asking for more steps than there are outputs runs exactly the outputs present. "
  "An output that is missing, unreadable or truncated makes the call raise; a step is never run with another step's data.",
  ["inputs", "schedules", "fault_sequences", "histories"],
  "every directory listing order, storage format, number of outputs and steps, every read error at any file and offset, every draw sequence",
  "No test runs the unsteady routine; the listing order is chosen by the file system and read faults never occur in tests.",
  [R, P], [("sorted file lists", R + ":unsteady_plots"), ("target times", R + ":unsteady_plots"), ("carry the history over", P + ":Particles.generate_particles")],
  ["returned walk_data against a step-by-step reference run"])

p("C13", "Parallel routing returns every worker's particles exactly once or fails whole",
  "Parallel routing over n cores returns n groups of the requested particles, each routed for the requested number of iterations, in one aligned history; none is lost, duplicated or mixed with another, however the workers are scheduled. "
  "If a worker raises, the call raises and returns no partial result. "
  "No worker process is left behind in either case, and the caller's particle object is unchanged.",
  ["schedules", "fault_sequences", "inputs"],
  "every assignment and completion order of tasks over worker processes (a worker taking several tasks included), fork and spawn start states, a worker raising or dying at any task",
  "One test routes a few particles on two real cores and checks the keys; the operating system picks the schedule and workers never fail.",
  [PR], [("task list and map", PR + ":parallel_routing"), ("merge", PR + ":combine_result"), ("pool shutdown", PR + ":parallel_routing")],
  ["return value, exception and live workers after the call"])

p("C14", "Parallel results depend on the seed only, with independent walks per worker",
  "For a given state of the caller's random generator, parallel routing returns the same result whatever the order in which worker processes start, take tasks and finish, and whether workers are forked or spawned. "
  "The groups of particles routed by different workers are independent random walks: no two workers replay the same random stream. "
  "Consecutive parallel calls are likewise independent of each other.",
  ["schedules", "configurations", "inputs"],
  "every schedule of 1 to 8 workers over the tasks, start method, number of particles and iterations, and consecutive calls",
  "A single real schedule is observed by the one test, and identical streams look like valid output.",
  [PR], [("per-worker random stream", PR + ":run_iter, parallel_routing")],
  ["walk_data groups per worker under different simulated schedules"])

p("C15", "Simulations that share inputs or run concurrently do not affect each other",
  "Several particle objects built from the same parameters, branching from the same earlier history, or moved in different threads produce exactly the histories each would produce alone with the same random draws. "
  "Building and moving particles never modifies the parameter arrays, the supplied earlier history or the seed lists. "
  "This holds for every interleaving of the operations, down to single lines of the package.",
  ["schedules", "histories"],
  "every interleaving (operation by operation and, for threads, line by line) of two to four sessions over shared parameters, shared checkpoints and shared seed lists",
  "Tests build one object at a time; shared arrays and lists corrupt a second simulation only when operations interleave.",
  [P, L], [("copies of inputs", P + ":Particles.__init__"), ("copy of the supplied history", P + ":Particles.generate_particles"), ("per-object weights", L + ":make_weight")],
  ["walk_data of each session against its solo run", "inputs before and after"])

p("C16", "Equal seeds give equal runs; observing a run does not change it",
  "Two runs with the same inputs and the same seed of the random generator record identical histories, whatever the clock, environment, hash seed or previous activity in the process. "
  "Queries (state, time state, exposure, plots of the state), log level, verbosity, saving or not saving results and the output folder change neither the history nor the draws that follow. "
  "Queries leave the history they are given unmodified.",
  ["configurations", "histories", "schedules"],
  "every placement of observers between operations, log and verbosity setting, saved or unsaved, clock and entropy source values, process history",
  "Repeatability is a comparison of whole runs under changed surroundings; the tests make each run once.",
  [P, R, LG, L], [("all randomness from the seeded generator", L + ":random_pick, calc_travel_times"), ("read-only queries", R + ":get_state, get_time_state"), ("logging", LG + ":setup_logging")],
  ["walk_data of paired runs", "number of draws consumed"])

p("C17", "Exposure times account for every step inside the region exactly once",
  "A particle's exposure time is the sum of its step durations weighted 1 if both ends of the step lie in the region of interest, 0.5 if one does and 0 otherwise, over its whole recorded history. "
  "Hence the exposures to a region and to its complement add up to the time travelled, disjoint regions add, and the result for a history equals that for its part before a restart plus the increment after it. "
  "The chunked (localized and system-wide) exposure maps attribute every particle by its first position and list, per chunk, those particles' exposures in order.",
  ["histories", "inputs", "schedules"],
  "every recorded history (re-entries, particles that never move or never leave, late seeds, restarts) under every draw sequence, every region and chunk size",
  "Tests use one hand-made track; additivity and restart splits quantify over whole histories.",
  [P, S], [("exposure accounting", P + ":exposure_time"), ("chunk attribution", S + ":systemwide, localized")],
  ["exposure lists against an incremental account kept by the simulator"])

p("C18", "State queries return exactly the recorded point they are asked for",
  "The state at iteration k is, for each particle in order, its k-th recorded position, time and tracked values, negative k counting from the end, and its last record if it has fewer. "
  "The state at time t is the record whose travel time is nearest to t, the earliest such record on ties. "
  "All returned lists describe the same record of each particle, at any moment of a simulation.",
  ["histories", "inputs", "schedules"],
  "every history with particles of different length (stopped, late, unmoved), every k and t, tracked variables or none, queries placed at every point of a session",
  "The tests query one short history; mixed lengths and ties arise only along generated histories.",
  [R], [("state by iteration", R + ":get_state"), ("state by time", R + ":get_time_state")],
  ["query results against the history recorded by the simulator"])

p("C19", "Steepest descent always follows a neighbour of maximal routing weight",
  "With steepest descent enabled, a particle that is free to move goes to a neighbour of maximal routing weight; among exact ties it picks each with equal chance. "
  "If the only cell of maximal weight is its own (a pit), it stays there for good. "
  "The path does not depend on random draws where there are no ties, nor on how often or by how many particles the cell was visited before.",
  ["inputs", "schedules", "histories"],
  "every flow field, draw sequence and number of visits to a cell; single iterations, target-time runs and restarts",
  "Tests call the picker on two hand-made vectors; the picker edits its weights in place, so only repeated visits and pits in long histories exercise it.",
  [L], [("steepest choice", L + ":steep_descent"), ("weights", L + ":make_weight")],
  ["recorded moves against the reference weights"])

p("C20", "Nourishment maps count every recorded visit of every particle exactly once",
  "The nourishment area of a history is the number of recorded positions in each cell over all particles, divided by its maximum, with unvisited cells missing. "
  "The nourishment time of a cell is the mean of half the step into it plus half the step out of it over all visits other than a particle's first and last record. "
  "Both depend on the recorded history alone, however it came about (restarts, interruptions, several seedings, new flow fields), and are clipped at the given percentile and smoothed with the given width only afterwards.",
  ["histories", "inputs", "schedules"],
  "every recorded history (cells revisited, particles that never move, late seeds, restarts, interruptions) under every draw sequence, every clip and smoothing setting",
  "Tests use one hand-made track of one particle; counting quantifies over whole histories of many particles.",
  [P], [("visit counts", P + ":nourishment_area"), ("occupation times", P + ":nourishment_time")],
  ["maps against counts kept by the simulator move by move"])

p("C21", "Steady and time plots move particles like that many single iterations",
  "After steady_plots (saving or not) or time_plots with num_iter = n, every particle's history is the one n calls of run_iteration would have recorded under the same random draws, the returned dictionary is that history, no other draw has been used, and the particles can be moved on from there as usual. "
  "If the routine is stopped while saving, by an I/O error or by the user, the particles hold a whole number, at most n, of those iterations. "
  "This holds whatever was done with the particles before, wherever the results go and whether or not anything was there already.",
  ["histories", "fault_sequences", "inputs"],
  "every sequence of seeding calls, iterations, target-time runs and plotting routines on one particle object; every output folder; failures and interrupts at every file operation and frame",
  "The tests run each routine once on fresh particles and look for the files; an extra, missing or repeated iteration after particular histories or failures goes unseen.",
  [R, P], [("loop of the steady routine", R + ":steady_plots"), ("loop of the time routine", R + ":time_plots"), ("one iteration", P + ":Particles.run_iteration")],
  ["walk_data before and after the routine, next to a twin moved by single iterations"])

p("C22", "Plots show the flow field and the particles where they were recorded",
  "The i-th figure steady_plots, time_plots and unsteady_plots write (output0.png, output1.png, ...) shows the depth of that step and marks every particle at its start and at its position after that step; time_plots colours the latter by their travel times then. "
  "draw_travel_path draws, for exactly the particles asked for (named by the legend), their recorded positions in order at the given interval; the tails of snake_plots are pieces of recorded paths of the given length that end at the step of the frame, in the given colours; plot_state marks the positions of the state asked for; nourishment plots mark the seed location unless told not to, grow more opaque with the value and give the colour scale truly. "
  "Columns run along x and rows along y in all of them.",
  ["histories", "inputs", "fault_sequences"],
  "every history (restarts, late seeds, stopped particles), every step, interval and subset of particles; output folders used before; frames after a failed one",
  "The tests check that image files exist; what they show at each step of a long or restarted run is never compared with the history.",
  [R], [("frames of the running routines", R + ":steady_plots, unsteady_plots, time_plots"), ("plots of a history", R + ":draw_travel_path, snake_plots, plot_state, show_nourishment_area, show_nourishment_time")],
  ["artists of each figure when it is saved or returned"])

p("C23", "Exposure time plots save and draw exactly the exposures they are given",
  "If plot_exposure_time returns with saving on, data/exposure_times.txt holds exactly the list it was given and every figure is complete on disk; if any of that failed it raises, leaves no other file changed, and a repetition succeeds. With saving off nothing is written. The same holds for the figure of plot_exposure_time_thresholds. "
  "The cumulative curves rise by one N-th, N the number of all particles, at the exposure time of each particle that entered the region (exposure above 1e-6 s) and left it (below 99 % of the end), end being the smallest final travel time, or the largest with uniform timesteps; they cover the time from 0 to the end, all in view, in the given unit, which the axis names, and the density is the slope of the cumulative curve. "
  "Both routines draw their curves for every list of exposures, also when not all percentiles are reached, and change neither the list nor the history.",
  ["fault_sequences", "inputs", "histories"],
  "every history and exposure list (never entered, never left, equal values), unit, number of bins and output folder; full disks, failed opens, writes, closes and crashes at every point",
  "The tests plot one small list into a writable folder and check that files exist; failing disks and lists with few finished particles are not tried.",
  [R], [("exposure curves and saving", R + ":plot_exposure_time"), ("threshold plot", R + ":plot_exposure_time_thresholds")],
  ["files below the output folder after the call", "curves of the figures"])

p("C24", "Log messages reach every handler once, at the level last set",
  "The level last set governs, whether by setup_logging or by a deprecated verbose argument that takes effect (True is INFO, False is ERROR, None changes nothing). Every message of at least that level is delivered exactly once to each handler handed to setup_logging, whenever in the session it was given, and to stderr if none was ever given; lesser messages go nowhere. "
  "A level that is not a logging level is rejected with an exception and changes neither level nor handlers. "
  "This holds for every order of these calls, also from several threads at once, and no setting or failing handler (full disk, closed stream) changes or ends a simulation or query.",
  ["histories", "schedules", "fault_sequences"],
  "every sequence of setup_logging calls, verbose arguments, rejected levels, simulation steps, queries and saving routines; every interleaving of threads setting up logging; handlers failing at any message",
  "The test sets three levels on a fresh logger; the outcome of a setting depends on all settings before it, on other threads and on the handlers' health.",
  [LG], [("setting level and handlers", LG + ":setup_logging"), ("deprecated verbose arguments", LG + ":handle_verbose_deprecation")],
  ["messages received by each handler after every operation", "results of the session"], state=())

p("C25", "Coordinates describe the history as it is when they are asked for",
  "ind2coord adds to a history, at any moment of a simulation, the geographic position of every recorded point of every particle, aligned with the positions: x = x0 + y index * cell size, y = y0 + (rows - x index) * cell size; coord2ind takes every such coordinate back to its cell, and every point nearer to a cell than to any other to that cell. "
  "Converting alters no recorded point, can be repeated at any time (after more moves, after an interruption, with another origin) and changes nothing about the run: a simulation that converts its history in between, is seeded through coordinates, or is resumed from a history saved with its coordinates records what it would have recorded otherwise.",
  ["histories", "fault_sequences", "inputs"],
  "every history (late seeds, restarts, interruptions), every moment of conversion, raster size, origin and cell size; conversions interrupted at any line",
  "The test converts two short lists once; conversions within a run that goes on, is interrupted or resumed are not tried.",
  [P], [("conversion", P + ":coord2ind, ind2coord"), ("resuming", P + ":Particles.generate_particles")],
  ["coordinate lists and recorded history after every operation"], state=())

p("C26", "An interpolator grids every data set as a call of its own would",
  "The function unstruct2grid returns can be applied to any series of data sets (the time steps of a model): in every order, repeatedly, after a failed or interrupted call and from several threads at once, each result depends on its own data only and equals the grid a call of unstruct2grid with that data returns. "
  "Each node of that grid (x to the right, y upwards, from the smallest coordinates) is the inverse-distance-weighted mean of its k nearest samples, so that it lies within their range and equals a sample it coincides with; nodes outside the boundary are missing, and cropping removes nothing but empty borders. "
  "Neither the inputs nor results returned earlier change.",
  ["histories", "schedules", "fault_sequences", "inputs"],
  "every point set, neighbour count, cell size and boundary; every series of data sets, interleaving of threads and point of failure",
  "The tests grid one data set of three points per option and never apply the returned function to other data.",
  [P], [("interpolation", P + ":unstruct2grid")], ["grids returned by every call"], state=())

p("C27", "Animations and exposure maps show the figures and maps they are given",
  "If animate_plots(a, b, folder) returns, animation.mp4 in that folder holds exactly the figures output a to output b-1, each once, in order, upright and as they are on disk. If a figure is missing or cannot be read, or the writer fails (does not start, full disk), the call raises; a repetition is not affected by the failure, and neither figures nor other files nor other open plots change. "
  "plot_spatial draws the maps it is given unchanged and in order from left to right, each over the elevation and across its full extent with rows downwards, all on one colour scale from 0 to the given maximum, which the colour bar and the names of the maps state truly.",
  ["fault_sequences", "histories", "inputs"],
  "every range of figures, folders with more or broken figures, repeated calls; failures at any read, open, write or close; every set of maps",
  "animate_plots is not tested at all, plot_spatial only for not raising.",
  [R, S], [("animation", R + ":animate_plots"), ("maps", S + ":plot_spatial")],
  ["frames handed to the movie writer", "files below the folder", "artists of the returned figure"], state=())

p("C28", "Discharge-proportional seeding brings exactly the requested particles",
  "flux_proportional_seeding returns one count per seeding step: whole, non-negative, each its step's share of the absolute discharge of the seeding period rounded up or down, none where the discharge is zero, and together exactly the requested total. "
  "A campaign that seeds these counts step by step ends with exactly the requested particles, each with the time of its step, also if it is stopped at any point, restarted from its saved history and the counts are computed again. "
  "The result does not depend on earlier, failed, interrupted or concurrent calls nor on the form of the series (list, array, column); impossible requests (no discharge, too short a series) raise, and inputs stay as they are.",
  ["inputs", "crash_points", "histories"],
  "every discharge series (reversals, zeros, ties, longer than the seeding period), total and number of steps; every point of stopping the campaign",
  "The test uses one series whose shares are whole numbers, so that nothing is ever left to distribute, and seeds nothing.",
  [P], [("counts per step", P + ":flux_proportional_seeding"), ("seeding", P + ":Particles.generate_particles")],
  ["returned counts", "start times in the recorded history"], state=())

p("C29", "Exposure percentile maps report each chunk's own E50, E75 and E90",
  "For every chunk with at least five distinct positive exposure times the percentile maps hold, in the chunk's place and in the given unit, the times below which half, three quarters and nine tenths of the smoothed distribution of its times lie, in this order; all other chunks are missing. "
  "Each value is then replaced by the mean of those values within its window that are no further from the window's median than the threshold times the median deviation (by the median if that is zero). "
  "At any moment of a simulation, repeatedly, after a failed or interrupted call and from several threads, equal lists give equal maps, and neither the lists nor maps returned earlier change.",
  ["inputs", "histories", "schedules"],
  "every set of chunk lists (as simulated or arbitrary), chunk size, unit, window and threshold; every interruption and interleaving of calls",
  "Tests use one small list per function and only compare shapes or finite values.",
  [S], [("percentiles", S + ":compute_thresholds"), ("outlier filter", S + ":median_absolute_deviation_filter")],
  ["returned maps", "exposure lists after every call"], state=())
p("C30", "The same flow handed over in any sufficient form gives the same run",
  "Particles accepts a flow in every sufficient form and simulates the same walk from each, given equal draws: depth, stage and topography in any sufficient choice, discharge or velocity or both, either axis convention with the matching model name, missing values or emerged ground in dry cells, documented defaults left out or spelled out, any memory layout, whole-numbered parameters as integers, parameters set in any order, and the number and cells of a seeding as whole numbers of any numeric type in any sequence or array. "
  "Discharge and velocity of one flow lead through the same cells with times equal up to rounding. "
  "Insufficient input or a region of interest of another shape is refused at every stage of filling the parameters, a refused or failed attempt leaves no trace in later ones, and the given arrays stay as they are.",
  ["inputs", "histories"],
  "every flow field, every sufficient and insufficient choice of inputs and every order of setting them with attempts in between; every sequence of operations afterwards",
  "The tests build a handful of objects with constant fields and check that attributes are copied; no run from one form is compared with the run from another.",
  [P], [("parameters", P + ":Particles.__init__"), ("moves", L + ":get_weight, calc_travel_times")],
  ["recorded histories of the paired sessions", "exceptions of insufficient attempts", "given arrays"], state=())

p("C31", "Every plot is drawn on a figure of its own, alike in every session",
  "What a plotting routine draws depends on its arguments alone: steady_plots, time_plots, unsteady_plots, snake_plots, draw_travel_path, the exposure time plots and plot_spatial draw, on figures of their own, what the same call draws in a fresh session, and plot_state and the nourishment plots add to the current axes what they draw there (the random colours of travel paths aside). "
  "This holds whatever was plotted before, whichever figures are open or current, and after calls that failed or were interrupted. "
  "Figures that were open before, the user's or those of earlier calls, stay open and as they were, and the histories plotted stay as they are.",
  ["histories", "fault_sequences"],
  "every sequence of plotting calls and of opening, drawing on, choosing and closing figures; failures at any write, Ctrl-C at any line",
  "The tests call each plotting routine once or twice and look at the files written, never at what is drawn or at other figures.",
  [R, S], [("running plots", R + ":steady_plots, time_plots, unsteady_plots"), ("plots of histories", R + ":snake_plots, draw_travel_path, plot_state, show_nourishment_area"),
           ("exposure plots", R + ":plot_exposure_time, plot_exposure_time_thresholds"), ("maps", S + ":plot_spatial")],
  ["artists of every figure when it is saved or left open", "artists of every other open figure"], state=())
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for q in props:
        f.write(json.dumps(q) + "\n")
print(len(props))
