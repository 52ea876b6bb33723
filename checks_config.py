"""Build configurations and the jobs of every check."""
SANENV = {"ASAN_OPTIONS": "abort_on_error=1:detect_leaks=0:detect_stack_use_after_return=1:hard_rss_limit_mb=4000:check_initialization_order=1:strict_init_order=1",
          "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1"}
CONFIGS = {
    "fast": {"flags": "-O1 -g1 -D_GLIBCXX_ASSERTIONS"},
    "asan": {"flags": "-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined,float-cast-overflow -fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS"},
    "tsan": {"flags": "-O1 -g1 -fsanitize=thread"},
    "ndebug": {"flags": "-O1 -g1 -DNDEBUG"},
    "nan": {"flags": "-O1 -g1 -DEIGEN_INITIALIZE_MATRICES_BY_NAN"},
}
CHECKS = {}


def check(prop, jobs, rule, **kw):
    for j in jobs:
        j.setdefault("config", "fast")
        if "harness" in j:
            j.setdefault("name", j["harness"] if j["config"] == "fast" else j["harness"] + "_" + j["config"])
    CHECKS[prop] = dict(jobs=jobs, rule=rule, **kw)


check("C01", [{"harness": "c01", "quick": 20000}],
      "a case computes all seven preview matrices on one reused object for 1-3 random (N, S, T, height, gravity, masses), "
      "probes every column and random combinations against step-by-step integration, and checks transposes and inverses; "
      "non-trivial: N>1")
check("C02", [{"harness": "c02", "quick": 60000}],
      "a case integrates one random state (split and unsplit durations) and runs 3-15 set/advance operations on one model with every axis "
      "watched, then compares with the preview; non-trivial: all (distinct operation histories are counted)")
check("C03", [{"harness": "c03", "quick": 200000}],
      "a case runs a random sequence of setters (with overwrites, resizes, manual recomputation) on one model and compares all published "
      "matrices, parameters and states with a fresh model given the final values; non-trivial: at least two setters")
check("C04", [{"harness": "c04", "quick": 400000}],
      "a case builds a polygon from a point set on an exact integer grid (duplicates, collinear, rotated, translated) or in general position "
      "and compares vertices, half-planes and bounds with an exact-arithmetic hull; non-trivial: at least three points")
check("C05", [{"harness": "c05", "quick": 100000}],
      "a case computes 1-n splines on one reused interpolator, samples each against the unique three-piece motion found by integration, and "
      "replays re-planning in the foot model; non-trivial: all")
check("C06", [{"harness": "c06", "quick": 16000}],
      "a case evaluates tracking and jerk objectives 2-n times on one model through changes of size, period, state and reference against "
      "step-by-step simulation; non-trivial: N>1")
check("C07", [{"harness": "c07", "quick": 16000}],
      "a case evaluates CoP/CoM centring through changes of masses, heights, gravity, state and references against the simulated two-mass "
      "robot; non-trivial: N>1")
check("C08", [{"harness": "c08", "quick": 24000}],
      "a case evaluates tilt objectives through changes of masses, heights, contact point and states against the integrated tilt equation; "
      "non-trivial: N>1")
check("C09", [{"harness": "c09", "quick": 40000}],
      "a case evaluates all constraint rows of the base or trajectory for control sequences inside, on and outside the limits and compares "
      "row sets and verdicts with a step-by-step simulation, through changes of polygons, limits, states and sizes; non-trivial: N>1")
check("C10", [{"harness": "c10", "quick": 36000}],
      "a case walks a random schedule (reference schedule in integer ticks) and evaluates the three humanoid objectives at random plans in "
      "random phases against the CoM motion that realises the planned CoPs; non-trivial: at least one step previewed")
check("C11", [{"harness": "c11", "quick": 20000}],
      "a case walks a random schedule with random foot, hull and kinematic polygons (replaced on the way) and compares the constraint rows "
      "and bounds with hulls built from exact orientation tests; non-trivial: at least one constrained sample")
check("C12", [{"harness": "c12", "quick": 30000}],
      "a case runs a whole walk (move requests, period changes at legal instants) against a reference schedule kept in integer ticks and "
      "compares phase, time left, preview selection and number of steps at every tick; non-trivial: at least one step taken")
check("C13", [{"harness": "c13", "quick": 90000}, {"harness": "c13g", "quick": 12000}],
      "a case drives the feet through whole walks with random landing plans, move requests and period changes and checks each foot's pose, "
      "continuity, height and landing at every tick; c13g does so for the feet of a generator which plans its own landings and is reconfigured "
      "while it walks; non-trivial: at least one step landed (c13g: at least one cycle in the air)",
      need_counters={"c13g.landings": 500, "c13g.heights_in_band": 5000, "c13g.set_rightZ": 50})
check("C14", [{"harness": "c14", "quick": 45000}],
      "a case runs a trajectory generator in closed loop with random reconfiguration between cycles and compares each applied jerk with the "
      "certified minimiser of a program rebuilt from simulated motions; non-trivial: at least one optimum compared")
check("C15", [{"harness": "c15", "quick": 30000}],
      "a case runs a mobile-base generator in closed loop with random reconfiguration between cycles and compares the four applied jerks with "
      "the certified minimiser of a program rebuilt from the simulated two-mass robot; non-trivial: at least one jerk compared")
check("C16", [{"harness": "c16", "quick": 24000}],
      "a case runs a humanoid generator through a walk (move requests, reconfiguration while running) and compares each applied jerk with the "
      "certified minimiser of a program rebuilt from a reference schedule, exact hulls and simulated CoM motions, and checks balance, reach and "
      "still supporting feet; non-trivial: at least one comparison")
check("C17", [{"harness": "c17", "quick": 40000}],
      "a case configures one generator through detours (overwritten values, earlier runs or walks with another configuration) and another one "
      "directly, then runs both and a slightly perturbed third (which calibrates the tolerance) and compares every state after every cycle; "
      "non-trivial: at least one detour and one compared cycle")
check("C18", [{"harness": "c18", "quick": 240000}],
      "a case drives one to three solver objects (single and double precision, 0-30 rows) through cold and warm solves with faults and normalisation, "
      "and compares what reached the underlying solver with the program, bit for bit; non-trivial: all")
check("C19", [{"harness": "c19", "quick": 24000}],
      "a case runs one generator (or the solver layer) with injected solver failures (iterate written or not, bursts, all codes) and natural ones, "
      "checks verdicts and integration at every cycle and compares the optima after the failures with certified ones; non-trivial: at least one failure "
      "and one compared optimum")
check("C20", [{"harness": "c20", "quick": 60000}],
      "a case runs a generator, its shifted, reversed or axis-exchanged twin and a slightly perturbed third one (which calibrates the tolerance) in closed "
      "loop through reconfigurations and walks, and compares every state after every cycle; non-trivial: at least one compared cycle")
check("C21", [{"harness": "c21", "quick": 100000}],
      "a case drives one component or generator in single and double precision through the same random calls and compares everything a caller can "
      "read; a third, slightly perturbed double-precision run calibrates what rounding may do; non-trivial: at least ten compared groups")
VALGRIND = ["valgrind", "-q", "--error-exitcode=99", "--exit-on-first-error=yes", "--track-origins=no"]
# the other monitors' workloads under sanitizers: only reports count here, their verdicts belong to their own checks
SAN = {"c01": 500, "c02": 500, "c03": 600, "c04": 3000, "c05": 800, "c06": 300, "c07": 300, "c08": 300, "c09": 600, "c10": 400, "c11": 300,
       "c12": 500, "c13": 500, "c13g": 200, "c14": 500, "c15": 300, "c16": 300, "c17": 500, "c18": 2000, "c19": 400}
check("C22", [{"harness": "c22", "config": "asan", "quick": 3000, "env": SANENV},
              {"harness": "c22g", "config": "asan", "quick": 8, "env": SANENV, "startup": True},
              {"harness": "c22g", "quick": 8, "startup": True},
              {"harness": "c22", "name": "c22_valgrind", "quick": 320, "wrap": VALGRIND}] +
      [{"harness": h, "config": "asan", "quick": n, "env": SANENV, "only_crash": True} for h, n in sorted(SAN.items())],
      "a case makes, uses and destroys up to four objects of random classes and precisions through random legal calls with extreme values, under address and "
      "undefined-behaviour sanitizers (heap balance checked by repetition) or memcheck (every result checked for undefined bits); the other monitors' workloads "
      "are run under the sanitizers as well, and objects made before main are compared with later ones; non-trivial: all",
      technique="runtime monitoring: compiler sanitizers, memcheck and heap-balance monitor over random legal call sequences")
check("C23", [{"harness": "c23", "config": "tsan", "quick": 1500, "env": {"TSAN_OPTIONS": "halt_on_error=1:exitcode=66:abort_on_error=0"}},
              {"harness": "c23", "quick": 16000},
              {"harness": "c23", "config": "asan", "quick": 1200, "env": SANENV}],
      "a case runs 2-6 independent objects of random classes and precisions (in some cases generators whose solves are made to fail) in threads of their own, or in turns in one thread, and compares every answer "
      "with the same object used alone; or lets 2-5 threads evaluate objectives and constraints of shared const models and polygons (interleavings of calls "
      "seen are counted); non-trivial: all",
      need_counters={"c23.failing_solves_in_threads": 1000, "c23.shared_cases": 500, "c23.interleaved_cases": 500},
      technique="runtime monitoring: ThreadSanitizer over stressed threads, and comparison of answer streams with solitary runs")
check("C24", [{"custom": "across_builds", "name": "across_builds", "harness_name": "c24", "configs": ["fast", "ndebug", "nan"], "count": 24000}],
      "a case runs the same random calls on an object 2-3 times in one process, with other work before, and with fresh heap blocks and stack filled with different "
      "garbage, and compares every answer bit by bit; digests of every answer are then compared between builds with assertions, without assertions, and with "
      "matrices initialised by NaN, run after different other work; states: distinct (object class, garbage, work before); non-trivial: all",
      need_counters={"calls_compared_across_builds": 100000},
      technique="runtime monitoring: bitwise comparison of repeated executions under memory garbage and across builds")
