"""Writes properties.jsonl (kept as a script so that the long texts stay editable)."""
import json, os
P = []
DF = "data_formatting/data_formatting/"
RS = "railway_solvers/railway_solvers/"


def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))


p("C01", "Timetable file is read completely and without mixing trains",
  "Reading a block timetable file yields exactly one entry per train listed in it, in file order, carrying that train's own type, name, origin line and destination line. The entry's block table has exactly the rows between the train's origin and destination lines, in order, with every cell (block, speed class, arrival, departure, approximate entry, label, shunting, turnaround) unchanged and empty cells left empty. The per-train arrival/departure extraction returns exactly the rows that carry at least one of those times, in order.",
  ["inputs"], "all well-formed timetable files: any number and order of trains, any train number, any route length, any combination of empty cells",
  "Tests look at a handful of cells of one train (42100) of one fixed file; a file with other train orders, one-block routes, first/last trains or different empty-cell patterns is never parsed.",
  [DF + "time_table_check.py"], [("timetable_to_train_dict", DF + "time_table_check.py"), ("get_arr_dep_vals / get_arrdep", DF + "time_table_check.py")],
  ["return value of the timetable reader and of the arrival/departure extraction"])

p("C02", "Running times and station labels attached to a train come from its own links",
  "After enrichment every block of every train carries the running time of the network link from it to the next block on the route, taken for that block's speed class (regional or inter-city) and for the direction in which the train runs over the link, whichever way round the link is listed in the network table; the last block carries none. Every block is labelled with the station that owns it, and blocks that belong to no station get no label. A route step that is not a link of the network is rejected instead of being given a time. On request, and only then, the enriched timetables are also stored as they are.",
  ["inputs"], "all networks (each link listed once in either orientation, four independent running times) and all routes over them, forwards and backwards, with any mix of speed classes",
  "Tests check few sums of running times on one data set in which the four times of a link often coincide; wrong column, wrong direction or a neighbour's link is invisible there.",
  [DF + "new_time_tables.py", DF + "utils.py"],
  [("single_passing_time, passing_times_4blocks, update_all_timetables", DF + "new_time_tables.py"), ("get_block_station, get_path_type_colunm", DF + "utils.py")],
  ["enriched timetable tables", "single link query", "per-route query"])

p("C03", "Station-level route queries agree with the block routes",
  "For every set of enriched timetables the station-level queries tell the truth about the block routes: the station sequence of a train is the labels along its route, the next station is the following one (none at the end or off the route), a station's train list is exactly the trains whose route touches it and its departures-only variant leaves out exactly the trains whose route ends there. Common stations and common blocks of two trains, the blocks a train uses at a station, whether a train passes a station, and the station to be skipped (the station in which a train's route ends, none if the route ends outside a station) are likewise exact.",
  ["inputs"], "all timetables over all networks; every train, station and pair of trains in them, including stations the train does not visit and routes that begin or end outside a station",
  "Tests ask these queries for about five trains of one data set with hand-written answers.",
  [DF + "utils.py", DF + "time_table_check.py"],
  [("get_Paths, subsequent_station, get_trains_at_station, check_common_station, blocks_list_4station, is_train_passing_thru_station, get_skip_stations", DF + "utils.py"), ("train_important_stations", DF + "time_table_check.py")],
  ["return values of the station-level queries"])

p("C04", "Blocks between stations and blocks shared by two trains are exact",
  "For a train and two stations on its route, the reported blocks between them are exactly the blocks strictly between its visits to the two stations, in running order, and they are reported as running forwards. If the train visits the two stations in the opposite order, no blocks and the opposite order are reported; if it does not serve both, no blocks and no order. For two trains that both serve the two stations, the shared blocks are exactly the blocks of the first train's stretch that the second train also uses there, in the first train's running order, and the reported relation is same or opposite direction.",
  ["inputs"], "all pairs of trains and all pairs of stations (adjacent or not) they serve, in all networks including parallel tracks that share only some blocks",
  "Tests use one pair of trains on a line of a single block.",
  [DF + "utils.py"], [("get_blocks_b2win_station4train, get_common_blocks_and_direction_b2win_trains, check_common_specific_elements_lists", DF + "utils.py")],
  ["return values of the block queries"])

p("C05", "Route continuity check accepts exactly the connected routes",
  "The route check accepts a route if and only if every two consecutive blocks of it are joined by a link of the network, in either listing orientation. Any other route is rejected with an error.",
  ["inputs"], "all routes over all networks: routes with an unknown block at any position, with two known but unconnected neighbours, with a missing block, of length one",
  "The only test feeds one valid route; the rejecting direction is never exercised.",
  [DF + "time_table_check.py"], [("check_path_continuity", DF + "time_table_check.py")], ["normal return or error of the route check"])

p("C06", "Trains are grouped for headway exactly when they follow the same track",
  "For each station and each directly following station, every train that runs from the one to the other is put in exactly one headway group, and two trains are in the same group if and only if they run over the same blocks between these stations. No other trains, stations or directions appear, and a request restricted to some stations gives exactly the part of the full answer that starts at those stations.",
  ["inputs"], "all timetables and networks: lines with one or several tracks, partially shared tracks, adjacent stations without a block in between, any order of trains in the file",
  "Tests compare a fixed list for one data set where nearly every line has one track per direction.",
  [DF + "make_J_taus.py", DF + "utils.py"], [("jd", DF + "make_J_taus.py"), ("common_path", DF + "utils.py")], ["headway groups"])

p("C07", "Every opposing pair on a shared single-track line is found, and only those",
  "Two trains running in opposite directions between two directly following stations over the same non-empty sequence of blocks (reversed) are reported as a single-track conflict for this line exactly once, whichever of them is listed first and wherever they start or end. No pair that shares no block, runs in the same direction or does not run between these two stations directly is reported.",
  ["inputs"], "all timetables and networks, any train order, any number of trains per direction, trains that start or terminate at either end of the line",
  "Tests contain one single-track line with one opposing pair.",
  [DF + "make_J_taus.py"], [("josingle, josingle_dict_generate", DF + "make_J_taus.py")], ["set of single-track conflicts"])

p("C08", "Trains sharing a platform track are grouped exactly",
  "At every station, each train that uses a track of the station is put in exactly one group of trains, and two trains are in the same group if and only if they use the same track. The only exceptions are the depot stations and the depot tracks, which never create groups, and a station without such trains has no group.",
  ["inputs"], "all timetables and networks, stations with any number of tracks, depot stations and depot tracks, any train order",
  "Tests compare fixed lists for one data set.",
  [DF + "make_J_taus.py"], [("jtrack, jtrack_subroutine, exclusion_list_jtrack", DF + "make_J_taus.py")], ["track groups per station"])

p("C09", "Switch conflicts are reported exactly where two movements share a switch",
  "For every station and every two trains serving it, an entry for a combination of movements (entering or leaving, for each of the two trains) is present exactly once if and only if the two movements run over a common switch of the station, where a train makes no entering movement at the first and no leaving movement at the last station of its route. The depot stations report nothing, and movements on the connection between the main station and its shunting area are reported only at the main station. Switch lists may be given as several numbers, one number or left empty.",
  ["inputs"], "all timetables and networks, all ways of writing switch lists (none, one, many), links listed in either orientation, all stations including the special ones",
  "Tests check a few trains' switch sets and a fixed list for one data set in which no station link has an empty or purely numeric list.",
  [DF + "make_switch_set.py", DF + "make_J_taus.py"], [("z_in, z_out, block_indices_to_interprete_switches", DF + "make_switch_set.py"), ("jswitch, make_jswitch_dict", DF + "make_J_taus.py")],
  ["switch sets of single movements", "switch conflicts per station"])

p("C10", "Rolling-stock hand-overs are recognised with the right station and order",
  "A train number n and the shunting number made by appending the digit 9 are recognised as one rolling stock exactly when both trains exist. The hand-over is reported once, at the station where one of the two routes ends and the other begins, with the train that ends there first and the train that begins there second, whichever of the two is the shunting train. Two such trains whose routes do not meet end to start are never reported as a hand-over.",
  ["inputs"], "all timetables with any number of such pairs, either running order, several pairs at one station, look-alike numbers that are no pairs",
  "Tests list the pairs of one data set.",
  [DF + "make_J_taus.py"], [("get_trains_pair9, get_jround", DF + "make_J_taus.py")], ["pair list", "hand-overs per station"])

p("C11", "Minimal running time between stations is the sum over the blocks in between",
  "For every train and every two directly following stations on its route there is exactly one minimal running time: the sum of the running times of the blocks strictly between its two visits, rounded to the nearest minute when rounding is asked for and exact otherwise. There is no entry for anything else.",
  ["inputs", "configurations"], "all timetables and networks, with and without rounding, all trains or a chosen list of trains",
  "Tests compare a fixed table for one data set.",
  [DF + "make_J_taus.py", DF + "utils.py"], [("get_taus_pass", DF + "make_J_taus.py"), ("minimal_passing_time", DF + "utils.py")], ["running-time table"])

p("C12", "Minimal stops and preparation times split the turnaround correctly",
  "For every train and every station on its route from which it goes on, there is exactly one minimal stop: the running time over its track in the station plus, except at its first station, the turnaround time written there; there is none where the route ends in the station. The preparation time of a train is the turnaround time written at the first station of its route if one is written, and no other station ever gets one. Both are rounded to minutes when rounding is asked for and exact otherwise.",
  ["inputs", "configurations"], "all timetables, turnaround times written at first, middle and last stations, with and without rounding",
  "Tests compare fixed tables where turnaround times occur almost only at first stations.",
  [DF + "make_J_taus.py", DF + "utils.py"], [("get_taus_stop, get_taus_prep", DF + "make_J_taus.py"), ("minimal_stay, turn_around_time", DF + "utils.py"), ("make_taus", "helpers.py")], ["stop table", "preparation table", "combined table used by the solvers"])

p("C13", "Headway is the least separation that keeps the follower clear of the leader",
  "For every ordered pair of different trains that run over the same blocks between two directly following stations, the headway is the least departure gap such that the second train, running undisturbed, never enters a block before the first has cleared that block and the next one (only that block itself on lines equipped for closer following), the last blocks of the line being cleared when the first train reaches the next station. It is rounded to the nearest minute when rounding is asked for and exact otherwise.",
  ["inputs", "configurations"], "all pairs of slow and fast trains in both orders, lines of any length including none, lines with and without closer following, with and without rounding",
  "Tests compare a fixed table for one data set, where leader and follower mostly have equal speeds.",
  [DF + "make_J_taus.py"], [("get_taus_headway", DF + "make_J_taus.py")], ["headway table"])

p("C14", "Schedules and initial conditions are the timetable in minutes from reference",
  "Every station with a written departure of every train has exactly one scheduled time, equal to the signed number of minutes from the reference time to that departure, and stations without one have none. Every train has exactly one initial condition, at the first station of its route: the written departure there, else the approximate entry time there, else zero.",
  ["inputs", "configurations"], "all same-day timetables and reference times, times before and after the reference, all patterns of missing times",
  "Tests compare a few values for one data set and one reference time.",
  [DF + "scheduling_tools.py"], [("get_schedule, get_initial_conditions, calc_time_diff", DF + "scheduling_tools.py")], ["schedule table", "initial condition table"])

p("C15", "A disturbance delays exactly the named train, additively",
  "Adding a delay to a train moves exactly that train's initial times by exactly this delay and nothing else, whatever other train numbers exist; a train that is not present changes nothing. Several disturbances in any order add up, and the table given as input is left as it was.",
  ["histories", "inputs"], "all sequences of disturbances on all tables, in particular train numbers that are suffixes or prefixes of each other",
  "The test adds one delay to one train whose number is not the tail of another one.",
  [DF + "scheduling_tools.py"], [("add_delay", DF + "scheduling_tools.py")], ["initial condition table after each disturbance"],
  [dict(name="initial conditions", meaning="train_station -> earliest departure in minutes", where="timetable dict")])

p("C16", "Every train is weighted once, by its class, at its last relevant station",
  "Every train gets exactly one penalty weight: its class weight (stopping, fast or express, as configured), or the empty-run weight exactly when it is the shunting partner of another train in the set. The weight is placed at the last station of the route or, when that station is to be skipped for this train, at the one before it.",
  ["inputs", "configurations"], "all timetables, train classes, skip sets, weight settings and train numbers (including numbers that only resemble a shunting partner)",
  "Tests check a few trains of one data set.",
  [DF + "scheduling_tools.py"], [("make_weights", DF + "scheduling_tools.py")], ["weight table"])

p("C17", "Earliest departures accumulate unavoidable delay and never beat the schedule",
  "The earliest departure of a train at its first station is the later of its initial condition and its scheduled departure; at every other station it is the later of the scheduled departure there (if any) and the earliest departure at the previous station plus minimal running time plus minimal stop. The dispatching model has exactly one secondary-delay variable, ranging over all values from zero to the allowed maximum, for every train and station except stations to be skipped and stations where the train hands its stock over.",
  ["inputs"], "all train sets and timetables, with and without schedules at intermediate stations, any skip and hand-over pattern",
  "Tests evaluate a few trains on small fixed examples, and none of the solver tests is part of the guarded suite.",
  [RS + "helpers_functions.py", RS + "linear_solver.py"], [("earliest_dep_time, tau", RS + "helpers_functions.py"), ("delay_varibles", RS + "linear_solver.py")], ["earliest departure query", "variables of the model"])

p("C18", "Every solution the dispatching model admits is conflict-free",
  "Any assignment of delays that satisfies the dispatching model describes train movements without conflict: followers on one track keep the headway, opposing trains are never together on a single-track line, no two trains occupy a platform track at once and trains that follow each other do not swap places there, switches are free for the required time between movements, every train runs and stops at least the minimal times, and a train that takes over rolling stock leaves only after the stock has arrived and been prepared. A train holds a platform track from its arrival until its departure, or until the train taking over its stock departs; a train that ends its route and whose stock is not taken over is off its track from its arrival on.",
  ["inputs", "schedules"], "all train sets, timetables and all delay assignments in the allowed range, with any choice of orders; train sets as produced from network data",
  "Tests solve single small instances and look at one optimal solution; soundness quantifies over all admitted assignments.",
  [RS + "linear_solver.py", RS + "helpers_functions.py"],
  [("minimal_span, single_line, track_occuparion, switch_occupation, minimal_stay, rolling_stock_circ", RS + "linear_solver.py"), ("get_M, can_MO_on_line, not_the_same_rolling_stock, skip_station", RS + "helpers_functions.py")],
  ["constraints and variables of the created model"])

p("C19", "Every conflict-free dispatching decision is admitted by the model",
  "Any conflict-free movement of the trains whose delays lie within the allowed maximum can be completed to a solution of the dispatching model: the model forbids no meeting, overtaking at stations, waiting or ordering that the rules allow, so its optimum is the true optimum.",
  ["inputs", "schedules"], "all train sets, timetables and all conflict-free delay assignments in the allowed range (same scope as C18)",
  "A test can only show that one good solution is found; over-restriction (too small big constants, orders tied that are independent) shows only for particular assignments.",
  [RS + "linear_solver.py", RS + "helpers_functions.py"],
  [("big-M constants (get_M)", RS + "helpers_functions.py"), ("order_variables, keep_trains_order", RS + "linear_solver.py")],
  ["constraints and variables of the created model"])

p("C20", "The objective is the weighted sum of secondary delays",
  "The model minimises exactly the sum over trains and stations of penalty weight times secondary delay divided by the maximal delay; delays without a weight do not count. For any solution the contribution reported for a train at a station is that term, and the contributions add up to the objective.",
  ["inputs"], "all train sets, weight tables (including zero weights and weights at several stations of a train), maximal delays and solutions",
  "Tests compare one number on a few fixed instances.",
  [RS + "linear_solver.py", RS + "helpers_functions.py"], [("objective, impact_to_objective", RS + "linear_solver.py"), ("penalty_weights", RS + "helpers_functions.py")], ["objective of the model", "reported contributions"])

p("C21", "The constrained quadratic model is equivalent to the linear model",
  "Converting a bounded integer program to a constrained model keeps the variables, their types and the sizes of their ranges (a value may be counted from the variable's lower bound), the constraints with their names, and the objective: an assignment is feasible for the one if and only if it is feasible for the other, violates the same named constraints, and has the same objective value. A program with a continuous variable, or with an objective to be maximised, is refused.",
  ["inputs"], "all bounded integer programs with any senses, coefficients, constants and ranges, and all their assignments",
  "Tests convert a few small programs and look at single entries; none is part of the guarded suite.",
  [RS + "converter_cqm.py"], [("convert_to_cqm, _is_binary", RS + "converter_cqm.py")], ["constrained model"])

p("C22", "QUBO energy equals weighted objective plus squared penalties",
  "For every assignment of the program's variables, the least QUBO energy over the auxiliary bits equals the objective weight times the objective plus, for every constraint, its class penalty times the squared amount by which it is missed. In particular feasible assignments have energy equal to the weighted objective, every infeasible one costs at least its penalty more, and every value in a variable's range can be represented. A program with a continuous variable, or with an objective to be maximised, is refused.",
  ["inputs", "configurations"], "all bounded integer programs built from the six constraint classes, all penalty settings and all assignments",
  "Tests compare solver outcomes on a few programs; a slack range that is too small or a wrong class penalty shows only on particular assignments.",
  [RS + "converter_bqm.py"], [("convert_to_pyqubo, convert_to_bqm, _get_slack_ub, _get_placeholder", RS + "converter_bqm.py")], ["QUBO coefficients", "offset", "decoded values"])

p("C23", "QUBO samples are decoded to the program's variables without loss or reordering",
  "Interpreting a set of QUBO samples gives one decoded sample per input sample with the same energy, holding exactly the program's variables at the values encoded by the bits, every value inside its variable's range. The result does not depend on the order in which samples are supplied.",
  ["inputs"], "all sample sets (any number, order and duplication of samples, any bit pattern) of all small programs",
  "Tests decode the best annealing sample of a few programs.",
  [RS + "converter_bqm.py"], [("interpreter returned by convert_to_bqm", RS + "converter_bqm.py")], ["decoded sample set"])

p("C24", "Sample analysis tells the truth about every sample",
  "For every sample set and program the analysis returns one record per sample, ordered by objective, holding the sample, its energy, its true objective value, for every named constraint whether it is satisfied, the number of satisfied constraints, and a feasibility flag that is true exactly when all are satisfied.",
  ["inputs"], "all programs (all senses, constants, negative coefficients) and all sample sets, including ties and duplicates",
  "Tests check a couple of samples where all or one constraint holds.",
  [RS + "results_manipulation.py"], [("analyze_constraints, get_objective, get_results", RS + "results_manipulation.py")], ["analysis records"])

p("C25", "The reported best sample is the best feasible one, else the lowest-energy one",
  "Selecting from analysed samples returns a feasible sample of least objective whenever a feasible one exists, and otherwise a sample of least energy. It never returns an infeasible sample when a feasible one exists.",
  ["inputs"], "all analysed sample sets: every pattern of feasibility, objective and energy orderings, ties",
  "Tests have one selection on an annealing result.",
  [RS + "results_manipulation.py"], [("get_best_feasible_sample, get_results", RS + "results_manipulation.py")], ["selected record"])

p("C26", "Quantum-style solving returns the best of what the sampler returned",
  "For every solving method (simulated, annealer, hybrid quadratic, hybrid constrained) and whatever samples the sampler returns, the final answer is the best one among those samples after decoding, with its energy, objective, feasibility and satisfied-constraint count being true for the dispatching program, and with the sampler's information and settings attached. The sampler is called on the given program with the requested settings (number of reads, sweeps, temperature range, annealing time, chain strength, time limit).",
  ["inputs", "configurations", "schedules"], "all programs, all sampler answers (adversarial sampler), all methods and parameters",
  "Tests run simulated annealing only on a few programs; samplers for hardware are never exercised.",
  ["helpers.py", RS + "d_wave_solves.py"], [("q_process, solve_on_quantum", "helpers.py"), ("sim_anneal, real_anneal, hybrid_anneal, constrained_solver", RS + "d_wave_solves.py")], ["returned record", "arguments received by the sampler"])

p("C27", "The output timetable is the solution, minute for minute",
  "The result timetable lists every train with its stations in route order: at each station with a delay decision the departure equals earliest departure plus decided delay, the conflicted departure is the earliest departure, the secondary delay and the objective contribution are those of the solution, and the arrival (planned and conflicted) is the previous departure plus the minimal running time, absent at the first station. Skipped stations show an arrival only. It is the same whether the solution is taken from the solved program or from an externally supplied sample.",
  ["inputs"], "all train sets, solutions, reference times, skip patterns and both sources of the solution",
  "No test calls the timetable printer.",
  ["helpers.py", RS + "linear_solver.py"], [("print_optimisation_results", "helpers.py"), ("delay_and_acctual_time, impact_to_objective", RS + "linear_solver.py")], ["returned timetable"])

p("C28", "Model statistics count orders, delays and constraints correctly",
  "The reported size of a model is exact: number of order (binary) variables, number of delay variables and number of constraints add up to what the model contains, and a solution in which an order variable is neither 0 nor 1 is rejected by the checking variant. The QUBO statistics count exactly the non-zero linear and quadratic coefficients.",
  ["inputs"], "all models and solutions, station and train names of all kinds",
  "No test calls these counters on anything but one annealing example.",
  ["helpers.py", RS + "results_manipulation.py"], [("count_vars, check_count_vars", "helpers.py"), ("count_quadratic_couplings, count_linear_fields", RS + "results_manipulation.py")], ["returned counts"])

p("C29", "Route, rolling-stock and conflict predicates of the solver are exact",
  "The solver's elementary queries agree with the train sets for every train and station: previous and next station on a route, whether two trains share rolling stock, which train hands stock to or takes stock from a train at a station, where a train departs before passing a switch, whether two different trains occur in one group, whether two trains entering a station may change order on the way, whether they enter over common switches, and whether a station is to be skipped. Merging an entry into a nested table keeps all other entries.",
  ["inputs"], "all train sets (any station and train identifiers, numbers or names) and all arguments",
  "Tests evaluate each query on one or two small fixed examples, none in the guarded suite.",
  [RS + "helpers_functions.py"], [("occurs_as_pair, previous_station, subsequent_station, not_the_same_rolling_stock, departure_station4switches, previous_train_from_Jround, subsequent_train_at_Jround, can_MO_on_line, are_two_trains_entering_via_the_same_switches, skip_station, update_dictofdicts", RS + "helpers_functions.py")], ["return values"])

p("C30", "From timetable file to dispatching decision: no conflict survives",
  "For a timetable file, a network and a set of disturbances, every solution of the model that the tool chain builds from them is conflict-free when judged directly on the block routes of the file: no two trains on one platform track or on one single-track line at the same time, headways kept, common switches passed at sufficiently different times, minimal running, stopping and preparation times kept, no departure before the timetable. Conversely a conflict-free plan within the delay limit is never excluded.",
  ["inputs", "schedules"], "all small networks and timetables and the shipped data sets, all disturbances, all admitted delay assignments",
  "No test runs the chain end to end; errors that cancel or hide between the data and solver halves are out of reach of both test suites.",
  ["helpers.py", DF + "make_J_taus.py", RS + "linear_solver.py"], [("build_timetables, make_taus, make_timetable, make_train_set", "helpers.py"), ("create_linear_problem", RS + "linear_solver.py")], ["model built from files"])

p("C31", "Queries and model building neither change their inputs nor depend on history",
  "After timetables are enriched, no query, table builder, disturbance, model construction, conversion or report changes the timetables, station table, network table, train sets, timetable data or model handed to it. Each call returns the same answer whenever it is made, in any order and any number of repetitions, also for several scenarios processed one after another in one process.",
  ["histories"], "all sequences of API calls on shared inputs, any interleaving of scenarios",
  "Tests call each function once on fresh data.",
  [DF + "__init__.py", RS + "__init__.py", "helpers.py"], [("copying in add_delay; pure builders", DF + "scheduling_tools.py")], ["digest of all inputs and of the answer after each call"])

p("C32", "Command-line scenarios solve the scenario they announce",
  "Running a scenario script with a case number builds the model from that case's timetable, station and network files with that case's disturbances applied to the undisturbed timetable, the configured maximal delay and variable category, hands it to the selected solver, and stores or shows results for exactly this model. Consecutive problem instances in one run start again from the undisturbed timetable.",
  ["configurations", "histories"], "all cases, categories, solver selections and run counts of the three scenario scripts",
  "No test runs a script.",
  ["solve_real_problem.py", "solve_KO_GLC_problems.py", "wisla_problems.py"], [("argument handling and scenario tables", "solve_real_problem.py"), ("disturbance loop", "solve_KO_GLC_problems.py"), ("hand-written instance", "wisla_problems.py")], ["arguments of model construction", "solver calls", "files written"])

p("C33", "Train diagrams show exactly the events of the solution on the segment",
  "The diagram script emits, for each train with at least two relevant stations on the chosen segment (or explicitly requested), its resolved and its conflicted path: exactly the arrival and departure events of that train at the stations of the segment, at the station's position, in travel order with the correct minute. Other trains and other stations do not appear, and for sampled solutions (of whatever sampler and file name) the requested realisation is shown. The axis marks the stations of the segment at their positions. The listing script prints for every train of the requested realisation its conflicted and its resolved path with all stops and times.",
  ["inputs", "configurations"], "all solution files, segments, realisations and explicitly requested trains",
  "The diagram scripts have no tests.",
  ["solutions_quantum/data4diagrams/echo_gnuplot_file.py", "solutions_quantum/data4diagrams/train_utils.py", "solutions_quantum/data4diagrams/railway_lines.py", "solutions_quantum/data4diagrams/read_quantum_pickle.py"],
  [("kdtrain2trainpath", "solutions_quantum/data4diagrams/train_utils.py"), ("station2km, train_on_segment", "solutions_quantum/data4diagrams/railway_lines.py"), ("echo_gnuplot_train", "solutions_quantum/data4diagrams/echo_gnuplot_file.py")], ["standard output of the script"])

p("C34", "Statistics and comparison figures show the stored results",
  "The plot scripts draw exactly what the result files hold. Delay statistics: for every case and each of the selected stations the minimum, quartiles, mean and maximum of the secondary delays of all departures there (all realisations of a sampled solution together), printed and, for cases 0, 4 and 7, drawn. Line comparisons: for every line and time setting the sampled objective in minutes (objective times d_max), run time and QPU time in seconds, green exactly for feasible samples, next to objective and time of the exact (and time-limited) linear solver, and the mean model sizes. Time sweeps: mean, least and greatest objective in minutes over the runs of each time setting, their log-linear fit, mean run times and QPU times; a set of runs with an infeasible one is refused. Every figure is headed by its network, line or disturbance number.",
  ["inputs"], "all result files of the announced layout",
  "The plot scripts have no tests, and a wrong figure looks like a right one.",
  ["solutions_quantum/data4diagrams/visualise_statistics.py", "results_KO_GLC/fast_plot.py", "results_KO_GLC/fast_plot_lim.py", "solutions_quantum/tmin_plot.py", "solutions_quantum/tmin_plot_rev.py"],
  [("add_delays_one_realisation, get_print_statistics, plot_stats", "solutions_quantum/data4diagrams/visualise_statistics.py"), ("plotting_comparisons", "results_KO_GLC/fast_plot.py"), ("plotting_objective", "solutions_quantum/tmin_plot.py")],
  ["series passed to matplotlib", "standard output of the scripts"])

p("C35", "Shipped data sets fit together",
  "In every shipped data set (the four Silesian timetables and the three KO-GLC ones) the station table, the network and the timetable fit: a stored station table equals the one its script makes; each station track is a block of the network and belongs to one station only; the network has no self-link, no pair twice, only positive passing times, and allows or forbids a direction for both speed classes alike; each train's route runs over network links in an allowed direction, uses no block twice, passes at least two stations and each of them once, and its times never go back.",
  ["inputs"], "all trains, blocks and links of the seven shipped data sets",
  "Tests look at a few trains of the data; a typing error in one row silently drops a track, a passing time or a conflict.",
  ["data/important_stations.py", "data/important_stations_Gt.py", "data/KO_GLC/important_stations_KO_GLC.py", "data/KO_GLC/important_stations_KO_GLC_R.py", "data/trains_schedules.csv", "data/network_paths.ods"],
  [("important_stations", "data/important_stations.py"), ("routes and times", "data/trains_schedules.csv")],
  ["stored tables, timetables and network files"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
