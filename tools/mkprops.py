"""Writes properties.jsonl (kept as a script so that the statements stay reviewable)."""
import json
A = "jinete/algorithms/"
M = "jinete/models/"
INS = [A + "heuristics/insertion/algorithm.py", A + "heuristics/insertion/iterators/abc.py",
       A + "heuristics/insertion/iterators/ranking.py", A + "heuristics/insertion/iterators/stateless.py",
       A + "heuristics/insertion/strategies/abc.py", A + "heuristics/insertion/strategies/intensive.py",
       A + "heuristics/insertion/strategies/sampling.py", A + "heuristics/insertion/strategies/tail.py"]
LS = [A + "heuristics/local_search/algorithm.py", A + "heuristics/local_search/strategies/abc.py",
      A + "heuristics/local_search/strategies/plannings/reallocation.py",
      A + "heuristics/local_search/strategies/routes/one_shift.py",
      A + "heuristics/local_search/strategies/routes/two_opt.py"]
META = [A + "metaheuristics/iterative.py", A + "metaheuristics/sequential.py", A + "metaheuristics/grasp.py"]
CORE = [M + "routes.py", M + "stops.py", M + "planned_trips.py", M + "trips.py"]


def mech(*pairs):
    return [{"name": n, "where": w} for n, w in pairs]


P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, state=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "state": list(state), "mechanism": mechanism, "observe_at": observe,
                          "hook_needed": hook}})


prop("C01", "Every planning a solve returns can actually be driven",
     "Whatever the instance, algorithm configuration, seed, random draws and iteration order of unordered collections, "
     "a solve by the heuristics or metaheuristics ends without an error and each returned route can be driven: it "
     "leaves its vehicle's origin depot not before it opens and ends at its destination depot before it closes, every "
     "arrival is the previous "
     "departure plus the travel time, every service starts after the arrival and inside its time window, and the load "
     "never exceeds the vehicle capacity. No trip rides longer than its maximum ride time and no route lasts longer "
     "than its vehicle's maximum duration. Each pickup happens before its delivery.",
     ["inputs", "schedules", "configurations", "histories"],
     "All well-formed instances (heterogeneous fleets, shared positions, tight windows), all iterator/strategy/"
     "criterion/objective/metaheuristic combinations, all random draws and all set iteration orders.",
     "The tests solve a handful of instances whose feasibility is only read from the library's own cached flags; set "
     "order depends on memory addresses, so each test run samples one order and cannot repeat a bad one.",
     INS + LS + META + CORE,
     mech(("feasibility of a route", M + "routes.py Route.feasible"), ("stop timing recurrence and cache flush",
          M + "stops.py Stop.flush"), ("candidate construction", A + "heuristics/insertion/strategies/abc.py"),
          ("partial route clone", M + "routes.py RouteCloner")),
     ["Result.planning.routes", "Route.stops", "Stop.arrival_time/starting_time/departure_time"])

prop("C02", "No trip is lost, duplicated, split or invented",
     "In every planning a solve returns, each trip of the job is served at most once, its pickup and its delivery are "
     "on the same route, only trips of the job and vehicles of the fleet appear, and each vehicle has at most one "
     "route. Trips already served by an initial solution stay served after any local search, warm-started insertion or "
     "sequence of them. An algorithm that promises to serve everything (the exact one) either serves everything or "
     "raises.",
     ["inputs", "schedules", "configurations", "histories"],
     "All instances, algorithm chains (warm starts included), random draws and set iteration orders.",
     "Tests check counts on tiny instances where at most one improvement happens per route; duplicates and losses "
     "need several improvements on one route, several vehicles or a warm start, in a particular order.",
     INS + LS + META + CORE + [A + "exacts/models/three_index.py"],
     mech(("pending trips bookkeeping", A + "heuristics/insertion/iterators/abc.py _set_route"),
          ("ranking invalidation", A + "heuristics/insertion/iterators/ranking.py _update_ranking"),
          ("route replacement per vehicle", A + "heuristics/local_search/strategies/abc.py _update_routes")),
     ["Result.planning.routes", "Result.completed_trips"])

prop("C03", "What a result reports is what its routes really do",
     "The feasibility flag, coverage rate, completed trips and objective value of a result, and the times, loads, "
     "waiting, distances and durations reported by its routes and trips, always equal the values recomputed from scratch "
     "from the raw instance and the sequence of visits. This holds for feasible and infeasible plannings, empty ones "
     "included, and whatever was read, copied or computed before.",
     ["inputs", "histories", "schedules"],
     "All plannings reachable by solves or built by hand, and all orders in which cached values were read before.",
     "Reported values are cached per stop, trip and route; tests read each value once, right after building it.",
     CORE + [M + "results.py", M + "plannings.py", M + "objectives.py"],
     mech(("cached values and their flush", M + "stops.py, " + M + "planned_trips.py, " + M + "routes.py"),
          ("objective functions", M + "objectives.py")),
     ["Result.feasible", "Result.coverage_rate", "Result.optimization_value", "Route.duration"])

prop("C04", "Improving never makes a solution worse",
     "A local search returns a solution whose objective value is never worse than the one it started from, for every "
     "neighbourhood and objective. An iterated algorithm returns the best solution among all its episodes, feeds the "
     "best one so far (and only that) to the next episode when it does not restart, and a sequence of algorithms hands "
     "each stage the result of the previous one, in order.",
     ["inputs", "schedules", "configurations", "histories"],
     "All initial solutions, neighbourhoods, objectives, episode counts and sequences of episode qualities.",
     "Tests compare against fixed expectations for one small instance; a regression needs an order of candidate moves "
     "or of episode results the tests do not produce.",
     LS + META + [M + "objectives.py", M + "constants.py"],
     mech(("keep the best result", A + "heuristics/local_search/algorithm.py"), ("best of the episodes",
          A + "metaheuristics/iterative.py"), ("stage hand-over", A + "metaheuristics/sequential.py")),
     ["Result.optimization_value", "arguments received by each stage"])

prop("C05", "Solves terminate, and no vehicle idles while it could help",
     "Every solve ends within a number of steps bounded by the instance size, for every random draw and iteration "
     "order. When an insertion-based solve ends, no trip is left unserved that some still empty vehicle, identical to "
     "the others of the fleet, could serve on its own with slack, warm starts included.",
     ["inputs", "schedules", "configurations"],
     "All instances with interchangeable vehicles, all configurations, random draws and set iteration orders.",
     "Termination and progress are liveness properties: the tests only sample runs that happened to finish, and "
     "assert coverage on instances where everything fits in the first route tried.",
     INS + LS + META + ["jinete/utils/random.py"],
     mech(("opening an empty vehicle", A + "heuristics/insertion/iterators/abc.py _attractive_routes"),
          ("stop criterion", A + "heuristics/local_search/algorithm.py"), ("pair sampling", "jinete/utils/random.py")),
     ["steps executed until the result is returned", "Result.completed_trips"])

prop("C06", "The same seed gives the same result",
     "With the same instance, configuration, seed and iteration order of unordered collections, a solve returns the "
     "same planning. Neither the clock, the state of the process-wide random generator, operating-system entropy, nor "
     "solves performed before in the process change it, and a solve does not disturb the process-wide random generator.",
     ["inputs", "schedules", "histories", "configurations"],
     "All instances, configurations, seeds, ambient states (clock, global generator, entropy) and earlier solves.",
     "A test run has one ambient state; a hidden dependency on it shows only when two runs that differ only in that "
     "state are compared under a pinned iteration order, which ordinary execution cannot pin.",
     INS + LS + META + ["jinete/utils/random.py"],
     mech(("seeded generators", A + "heuristics/insertion/iterators/ranking.py, " + A +
           "heuristics/insertion/strategies/sampling.py, " + A + "metaheuristics/iterative.py")),
     ["canonical planning of two runs"])

prop("C07", "An interrupted solve leaves no trace",
     "If a solve is cut short at any point by an interrupt, an allocation failure or an error of a component, the job, "
     "the fleet, the options and any initial solution it was given are exactly as before. Running the same solve again on the same "
     "objects then returns the same result as if nothing had happened.",
     ["crash_points", "inputs", "configurations"],
     "Every point of execution inside the library at which an exception can surface, for all solves.",
     "No test interrupts a solve; the number of interruption points is the number of executed statements.",
     INS + LS + META + CORE + ["jinete/solvers.py"],
     mech(("inputs are only copied", A + "heuristics/insertion/iterators/abc.py, " + A +
           "heuristics/local_search/strategies/abc.py")),
     ["job, fleet, options and initial result after the failure", "result of the second run"])

prop("C08", "Solves that share inputs do not disturb each other",
     "Solves running concurrently in threads of one process that share the loaded instance, the loader, the solver "
     "object, the options or the initial solution, or only the process, each return the same result as when run alone. None of them fails because of the "
     "others, and the shared objects are left as they were.",
     ["schedules", "inputs", "configurations"],
     "All interleavings of two or three concurrent solves or loads at statement granularity.",
     "No test runs two solves concurrently, and ordinary thread tests only sample the interleavings of one machine.",
     INS + LS + META + [M + "surfaces.py", M + "jobs.py", "jinete/loaders/file.py", "jinete/loaders/abc.py",
                        "jinete/solvers.py"],
     mech(("lazily filled caches on shared objects", M + "surfaces.py cached_distance, " + M + "trips.py, " + M +
           "jobs.py objective, jinete/loaders/file.py")),
     ["canonical results of each thread"])

prop("C09", "A route stays coherent under any sequence of edits and reads",
     "After any interleaving of appending trips, inserting or removing stops, removing trips, adjusting service "
     "times (followed by a flush of the route) and reading its values, a route reports exactly the times, loads, distances and feasibility recomputed from its "
     "current sequence of stops, and each stop is linked to its predecessor. An edit that is rejected with an error "
     "leaves the route as it was.",
     ["histories", "inputs"],
     "All sequences of edits of a route interleaved with reads that fill its caches, rejected edits included.",
     "Tests apply one edit to a fresh route; stale values need a read before the edit and a second read after it.",
     CORE + ["jinete/exceptions.py"],
     mech(("flush after edits", M + "routes.py insert_stop_at/remove_stop_at"), ("flush of cached values", M +
          "stops.py flush")),
     ["Route.feasible", "Stop.arrival_time", "Stop.capacity"])

prop("C10", "Copies and candidates never leak into their source",
     "Cloning a route, deep-copying a route, planning or result, generating insertion candidates, and improving a "
     "solution leave the source exactly as it was. Whatever is later done to the copy or candidate (edits of the part "
     "it does not share with its source), the source keeps the same visits, times and feasibility, and the copy is "
     "itself coherent and equal to its source until edited.",
     ["histories", "inputs", "schedules"],
     "All routes, clone depths, candidate generations and later edits of the copies.",
     "Clones share stops with their source by design; leaks need a later edit and a re-read of the source after its "
     "caches are dropped, which tests do not do.",
     CORE + [M + "plannings.py", A + "heuristics/insertion/strategies/abc.py",
             A + "heuristics/local_search/strategies/abc.py"],
     mech(("partial clone", M + "routes.py RouteCloner"), ("deep copies", M + "routes.py, " + M + "plannings.py")),
     ["source route before and after"])

prop("C11", "A stored file is always complete: the previous one or the new one",
     "When storing a solution as text in a file, at every moment and after any formatting error, disk error, full disk, short "
     "write, interrupt, process crash or power loss, the target file holds either the complete previous content (or "
     "does not exist if it did not) or the complete new one. A store that returns normally has written the complete "
     "new content, a failed one raises, and neither leaves other files behind nor touches them.",
     ["crash_points", "fault_sequences", "histories"],
     "All fault sequences over the file operations performed by repeated stores, crashes at each of them included.",
     "Tests store once on a healthy disk.",
     ["jinete/storers/file.py", "jinete/storers/abc.py", "jinete/storers/formatters/abc.py"],
     mech(("write and replace", "jinete/storers/file.py")),
     ["content of the target file and its directory"])

prop("C12", "Loading is all or nothing",
     "Loading an instance file either yields exactly the instance described by one complete version of the file (every "
     "trip, vehicle, window, capacity and position) or raises, under read errors, short reads, missing rows, interrupts "
     "and files replaced while loading; job and fleet always come from the same version. After a failed load, the same "
     "loader yields the complete instance once the cause is gone, and a new loader always sees the current file.",
     ["fault_sequences", "crash_points", "inputs", "histories"],
     "All fault sequences over the read operations, truncations at row or column granularity, and interruption points.",
     "Tests load intact files once.",
     ["jinete/loaders/file.py", "jinete/loaders/abc.py", "jinete/loaders/formatters/cordeau_laporte.py",
      "jinete/loaders/formatters/hashcode.py", M + "surfaces.py"],
     mech(("cached formatter and parts", "jinete/loaders/file.py, jinete/loaders/abc.py"),
          ("row access by declared counts", "jinete/loaders/formatters/*.py")),
     ["Loader.job", "Loader.fleet"])

prop("C13", "Each stage of a solve runs once, in order, on the real result",
     "A solve loads the instance, then optimizes it, then stores the outcome: each stage runs exactly once per solve "
     "with its configured options, receives what the previous one produced, and the stored result is the returned "
     "one. If a stage fails the error reaches the caller, later stages do not run, nothing is stored, and a later "
     "solve with the same solver object starts afresh from the current input. A set of storers runs each of its "
     "storers exactly once with the same result.",
     ["fault_sequences", "histories", "configurations", "schedules"],
     "All sequences of solves with faults injected in any stage, storer set and iteration order.",
     "Tests run the pipeline once, without faults, and do not observe the hand-over.",
     ["jinete/solvers.py", "jinete/dispatchers/static.py", "jinete/dispatchers/abc.py", "jinete/storers/sets.py",
      "jinete/algorithms/abc.py"],
     mech(("stage order", "jinete/dispatchers/static.py"), ("option injection", "jinete/solvers.py"),
          ("fan-out", "jinete/storers/sets.py")),
     ["calls received by each stage", "returned result"])

prop("C14", "The exact algorithm never turns a solver mishap into a wrong plan",
     "Whatever an external linear solver does within its contract (an exact or alternative feasible solution, values "
     "off by its numerical tolerance, infeasible, unbounded, unsolved or undefined status, missing values, a crash), the "
     "exact algorithm either returns a drivable planning that serves every trip of the job exactly once, or raises; for a proper "
     "solution within the solver's tolerance it returns the planning, whatever happened in earlier solves.",
     ["fault_sequences", "inputs", "configurations"],
     "All solver outcomes within its contract, for all instances of the class the model supports (one shared depot).",
     "The test calls one healthy solver on one instance.",
     [A + "exacts/milp.py", A + "exacts/models/three_index.py", A + "exacts/models/abc.py"],
     mech(("validation of the solution", A + "exacts/models/three_index.py"), ("route reconstruction",
          A + "exacts/models/three_index.py")),
     ["Result.planning.routes", "raised exceptions"])

prop("C15", "Computation times are real elapsed times",
     "The computation time of a result is never negative and equals the time that really elapsed during the "
     "optimization, nested optimizations included, even if the wall clock is stepped forwards or backwards meanwhile.",
     ["fault_sequences", "schedules", "configurations"],
     "All sequences of clock jumps and durations of the inner steps, for all algorithms.",
     "Tests run on a clock that never jumps and do not check the value.",
     ["jinete/algorithms/abc.py", M + "results.py"],
     mech(("time measurement", "jinete/algorithms/abc.py")),
     ["Result.computation_time"])

prop("C16", "Stored artifacts say what the result says, every time",
     "The text or figure stored for a result describes exactly its routes, trips in visiting order, times and summary "
     "values, whatever storer delivers it. Storing the same result again, after any other results were formatted, "
     "stored or plotted in the process, yields the same artifact.",
     ["histories", "inputs", "schedules"],
     "All results and all histories of earlier formatting, storing and plotting in the same process.",
     "Tests format one result once in a fresh process.",
     ["jinete/storers/formatters/columnar.py", "jinete/storers/formatters/hashcode.py", "jinete/storers/plots/graph.py",
      "jinete/storers/prompt.py", "jinete/storers/abc.py", "jinete/storers/formatters/abc.py"],
     mech(("formatters", "jinete/storers/formatters/"), ("plot on process-wide figure state",
          "jinete/storers/plots/graph.py")),
     ["stored text", "stored image bytes"])

prop("C17", "Intact instance files are decoded by their published format",
     "Every number of an intact Cordeau-Laporte or HashCode file reaches the documented attribute of the trip, vehicle "
     "or service it describes.",
     ["inputs"], "All intact files of both formats.",
     "Tests decode a few small files.",
     ["jinete/loaders/formatters/cordeau_laporte.py", "jinete/loaders/formatters/hashcode.py"],
     mech(("row decoding", "jinete/loaders/formatters/*.py")), ["Loader.job", "Loader.fleet"])

prop("C18", "The exact model's optimum is the true optimum",
     "When the linear solver is exact, the total distance of the planning returned by the exact algorithm is the "
     "minimum over all plannings that serve every trip.",
     ["inputs"], "All instances of the class supported by the linear model.",
     "The test compares one instance with a known value.",
     [A + "exacts/models/three_index.py"], mech(("linear formulation", A + "exacts/models/three_index.py")),
     ["Result.optimization_value"])

prop("C19", "Distances and criteria obey their mathematical definitions",
     "Distances are symmetric, non-negative and satisfy the triangle inequality for the chosen metric, and each route "
     "criterion orders routes exactly by its defining quantity and direction.",
     ["inputs"], "All coordinates and all routes.",
     "Tests compare a few values.",
     [M + "constants.py", M + "criterions.py", M + "positions.py"],
     mech(("metrics", M + "constants.py"), ("criteria", M + "criterions.py")), ["Position.distance_to"])

import os
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
