"""Registry: which monitors decide which property."""
import glob
import os

PACKAGES = ["hardware_interface", "controller_interface", "controller_manager", "joint_limits", "transmission_interface"]
SAN = {
    "asan": ["-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all", "-fno-sanitize=vptr"],
    "tsan": ["-fsanitize=thread", "-DVERIF_TSAN"],
    "plain": [],
}
LIBS = ["-lfmt", "-ltinyxml2", "-lurdfdom_model", "-lurdfdom_world", "-lconsole_bridge", "-lpthread", "-ldl"]
COMMON_ASSUMPTIONS = [
    "ROS 2 itself is not installed here: rclcpp, lifecycle nodes, pluginlib, realtime_tools, messages are stand-ins from /verif/shim",
    "held on the executions counted here, nothing is claimed about inputs or interleavings not produced",
]


def expand(sources, repo):
    out = []
    for s in sources:
        g = sorted(glob.glob(os.path.join(repo, s)))
        if not g and "*" not in s:
            g = [os.path.join(repo, s)]
        out += [x for x in g if not x.endswith("ros2_control_node.cpp")]
    return list(dict.fromkeys(out))


LEX = ["hardware_interface/src/lexical_casts.cpp"]
LIMITS = ["joint_limits/src/*.cpp"]
TRANS = ["transmission_interface/src/*.cpp"]
HWI = ["hardware_interface/src/*.cpp", "joint_limits/src/*.cpp"]
MOCK = ["hardware_interface/src/mock_components/*.cpp"]
CTRL = ["controller_interface/src/*.cpp"]
CM = ["controller_manager/src/*.cpp"]

CHECKS = {}
NOT_YET = {}


def check(pid, targets, rule, **kw):
    CHECKS[pid] = dict(targets=targets, rule=rule, **kw)


check("C01", [dict(name="lexical", harness=["lexical.cpp"], sources=LEX, cases=160, thorough_cases=8000,
                   require=["cpp_locale_with_comma", "long_texts", "stod.value", "stod.refused"])],
      "texts printed from random bit patterns, boundary literals, and 1-3 edit mutations of them; half of the cases under a "
      "comma-decimal locale; distinct = distinct (function, accepted value/array text)")
check("C02", [dict(name="helpers", harness=["helpers.cpp"], sources=LEX, cases=240, thorough_cases=8000,
                   require=["tf", "list_steps", "ordered"])],
      "random prefixes/namespaces over a small alphabet with separators and tildes; random histories of list/map helper calls; "
      "random interface sets and orderings; distinct = distinct inputs/histories")

check("C05", [dict(name="range", harness=["limiter.cpp"], sources=LIMITS, cases=400, thorough_cases=20000, mode="range",
                   require=["limited", "passed", "refused", "resets"])],
      "random limit sets (each limit present or absent, stale values behind absent ones) x open- and closed-loop command histories; every "
      "limited command compared with a reference model of the documented intervals and with stand-alone safety bounds; distinct = "
      "distinct (limited command, actual state)")
check("C06", [dict(name="soft", harness=["limiter.cpp"], sources=LIMITS, cases=400, thorough_cases=20000, mode="soft",
                   require=["limited", "passed", "refused", "resets"])],
      "as C05 with soft limits, gains (including zero and missing) and joints simulated with 0-2 cycles delay driven into the soft band; "
      "distinct = distinct (limited command, actual state)")
check("C07", [dict(name="traj", harness=["traj.cpp"], sources=LIMITS, cases=200, thorough_cases=10000,
                   require=["limited", "passed", "refused", "braked", "limits_from_parameters"])],
      "random trajectory points for 1-7 joints, limits given directly or as parameters, open and closed loop; compared with a reference "
      "model of the per-joint rule plus stand-alone bounds; distinct = distinct limited points")

PARSER = ["hardware_interface/src/component_parser.cpp"] + LEX
check("C03", [dict(name="limits", harness=["parser.cpp"], sources=PARSER, cases=300, thorough_cases=12000, mode="limits",
                   require=["descriptions", "joints_compared", "direct"])],
      "random descriptions (joint types x declared/omitted limits x soft limits x per-interface bounds and enable flags, several joints "
      "and components); every joint's derived limits compared with an independent model of the tightest combination; distinct = distinct descriptions")
check("C10", [dict(name="parse", harness=["parser.cpp"], sources=PARSER, cases=600, thorough_cases=12000, mode="parse",
                   require=["descriptions", "parts", "refused", "damaged_refused"])],
      "random well-formed descriptions compared field by field with what they were generated from, structured damage that must be refused, "
      "random damage that must neither crash nor be undefined; distinct = distinct descriptions and kinds of damage")
check("C04", [dict(name="rosparam", harness=["rosparam.cpp"], sources=[], cases=240, thorough_cases=8000, mode="",
                   require=["reads", "updates", "e2e"]),
              dict(name="rosparam_tsan", harness=["rosparam.cpp"], sources=[], cases=40, thorough_cases=1500, mode="stress", san="tsan",
                   require=["stress_cycles", "stress_changes_seen"])],
      "random parameter sets read back, random update histories (order, number of parameters per update, several updates between two "
      "cycles, similarly named joints, wrong types) compared with a model of the union of old and new values; a limiter cycling under "
      "ThreadSanitizer while updates arrive; distinct = distinct limit sets / interleaving counts")

check("C08", [dict(name="trans", harness=["trans.cpp", "trans_simple.cpp", "trans_diff.cpp", "trans_four.cpp"], sources=[], cases=400, thorough_cases=20000,
                   require=["mapped", "roundtrip", "power", "construct_refused", "configure_refused"])],
      "random reductions (both signs, 1e-3..1e3), offsets, connected interface subsets and handle orders for the three transmissions; "
      "values compared with the linear laws evaluated in long double, round trips and power balance, sentinels behind every other handle; "
      "distinct = distinct (kind, reductions, offsets, connected quantities)")
check("C09", [dict(name="load", harness=["transload.cpp"], sources=TRANS + PARSER, cases=240, thorough_cases=8000,
                   require=["loaded", "refused", "from_description"])],
      "random transmission descriptions (omitted, zero, negative reductions; missing members) parsed and loaded through the plugin loader; the "
      "loaded object is judged by the mapping it performs; distinct = distinct descriptions")

check("C11", [dict(name="handle", harness=["handle.cpp"], sources=LEX, cases=1600, thorough_cases=60000,
                   require=["copies", "moves", "writes", "mistyped", "busy", "loans"]),
              dict(name="handle_tsan", harness=["handle.cpp"], sources=LEX, cases=48, thorough_cases=2000, mode="stress", san="tsan",
                   require=["concurrent_reads", "concurrent_writes", "loan_races"])],
      "random histories of create/copy/move/assign/drop/read/write over handles of every data type with own and external storage, compared "
      "with a value model after every step (ASan watches for dangling storage); concurrent writers and readers with writer-tagged values under "
      "ThreadSanitizer; distinct = distinct histories / interleaving counts")

check("C31", [dict(name="stats", harness=["stats.cpp"], sources=[], cases=240, thorough_cases=10000,
                   require=["compared", "resets", "updates", "threshold_resets", "measurements"]),
              dict(name="stats_tsan", harness=["stats.cpp"], sources=[], cases=32, thorough_cases=1500, mode="stress", san="tsan",
                   require=["concurrent_reads"])],
      "random measurement sequences (tiny spread on large offsets, huge dynamic range, constants, non-finite values) with resets, transfers and "
      "sample limits, recomputed in long double after every step; concurrent readers under ThreadSanitizer; distinct = distinct histories")

check("C21", [dict(name="semantic", harness=["semantic.cpp"], sources=LEX, cases=240, thorough_cases=10000,
                   require=["reads", "reads_blocked", "missing", "releases", "colors", "colors_refused"])],
      "every adapter with random component names, random offered orders with unrelated and missing interfaces, random (also non-finite) values, "
      "interfaces locked by another thread, several assign/release rounds; every field compared with its documented interface; distinct = distinct field vectors")

check("C13", [dict(name="hwcomp", harness=["hwcomp.cpp"], sources=HWI, cases=300, thorough_cases=12000, repo_opt="-O0",
                   require=["ops", "multi_callback_ops", "ops_on_finalized"]),
              dict(name="hwcomp_tsan", harness=["hwcomp.cpp"], sources=HWI, cases=40, thorough_cases=1000, mode="async", san="tsan", repo_opt="-O0",
                   require=["async_reads", "async_writes", "async_failures"])],
      "random request histories over actuator/sensor/system components with every callback answer (success, failure, error, exceptions), compared "
      "callback by callback and state by state with a reference lifecycle; asynchronous components under ThreadSanitizer; distinct = distinct "
      "(type, request, state before/after, callbacks)")

INTRO = dict(harness=["introspect.cpp"], sources=HWI + CTRL, repo_opt="-O0")
check("C35", [dict(INTRO, name="registered", mode="rm", cases=240, thorough_cases=8000,
                   require=["registrations_compared", "values_set", "transitions", "refused_deactivations", "bad_loads", "limited_commands", "imports", "removals"]),
              dict(INTRO, name="controllers", mode="ctrl", cases=800, thorough_cases=30000, require=["controller_operations", "refused_deactivations", "refused_activations"]),
              dict(INTRO, name="status", mode="status", cases=800, thorough_cases=30000, require=["status_messages", "without_status", "without_node"])],
      "random hardware with interfaces of every type (also exported the old way), refused descriptions, lifecycle histories with every callback answer, limited commands, "
      "controllers' interfaces imported and removed; after every step every registered name, its value and whether it is published compared with the interfaces that "
      "exist and the states; controllers and status messages alike; distinct = distinct histories")

RM = dict(harness=["rm.cpp"], sources=HWI, repo_opt="-O0")
check("C12", [dict(RM, name="claim", cases=240, thorough_cases=8000, mode="claim", require=["claims", "claims_refused", "releases", "state_claims"]),
              dict(RM, name="claim_tsan", cases=40, thorough_cases=1000, mode="claim_stress", san="tsan", require=["concurrent_claims", "concurrent_refusals"])],
      "random histories of claims, moves, drops, exceptions, hardware state changes and controller references compared with an ownership model after "
      "every step; concurrent claimants with an owner counter per interface under ThreadSanitizer; distinct = distinct histories")
check("C14", [dict(RM, name="avail", cases=240, thorough_cases=8000, mode="avail", require=["requests_ok", "requests_failed", "bad_loads", "controller_imports", "shutdowns"])],
      "random hardware descriptions, loads that must fail, and histories of state requests with every callback answer; listings and availability compared "
      "with a lifecycle model after every operation; distinct = distinct (component, request, callbacks)")
check("C15", [dict(RM, name="cycle", cases=160, thorough_cases=6000, mode="cycle", require=["reads", "writes", "slow_calls", "failed", "failed_by_group", "self_deactivated"]),
              dict(RM, name="cycle_tsan", cases=16, thorough_cases=300, mode="cycle_stress", san="tsan", require=["stress_cycles", "stress_lists", "stress_requests", "cycles_during_transition"])],
      "random sets of components (types, groups, rates) driven for 50-250 cycles with jitter, errors, exceptions and self-deactivation; every call, its "
      "period, every result and every state compared with a model; cycles racing with requests and listings under ThreadSanitizer; distinct = distinct runs")
check("C16", [dict(RM, name="switch", cases=240, thorough_cases=8000, mode="switch", require=["accepted", "refused", "asked", "empty_requests"])],
      "random start/stop lists over components in every state, with unknown and unavailable interfaces, refusing and throwing components; calls and "
      "answers compared with the documented rule; distinct = distinct requests")
check("C17", [dict(RM, name="limit", cases=240, thorough_cases=8000, mode="limit", require=["limited_seen", "passed", "changed_by_limits"])],
      "random joints with and without limits, random claims and hostile commands through the loaned interfaces, enforcement and write; what the hardware "
      "receives compared with a reference limiter per joint and with the plain bounds; distinct = distinct commands received")

PY = dict(kind="python")
check("C28", [dict(PY, name="spawner", script="spawner.py", cases=20000, thorough_cases=120000, shards=6,
                   require=["spawner_uninterrupted", "spawner_interrupted", "unloads_on_kill", "lock_timeouts", "waited_for_signal", "unspawner_runs", "hardware_spawner_runs"])],
      "random command lines in both forms, controller manager states, parameter files, service faults and lost answers, late managers, busy locks and signals "
      "at every point; requests, lock, exit code and final states compared with a model; distinct = distinct (options, outcome, last requests)")
check("C29", [dict(PY, name="params_files", script="params_files.py", cases=12000, thorough_cases=300000, shards=6,
                   require=["attributed", "not_attributed", "mixed", "ambiguous", "lookup_value", "lookup_none", "lookup_error", "sent_ok", "refused_parameters", "missing_file"])],
      "random sets of YAML files with sections for the controller, for others with similar names and for other namespaces, wildcards, broken structure; files "
      "attributed, values looked up and parameters sent compared with the documented rules; distinct = distinct (controller, namespace, sections)")
check("C30", [dict(PY, name="cli", script="cli.py", cases=40000, thorough_cases=300000, shards=6,
                   require=["helper_calls", "silent_managers", "managers_missing", "parameters_set", "verb_switch_controllers", "verb_load_controller", "verb_set_controller_state",
                            "verb_set_hardware_component_state", "verb_cleanup_controller", "verb_unload_controller", "verb_reload_controller_libraries", "listing_list_controllers",
                            "listing_list_hardware_components", "listing_list_hardware_interfaces", "listing_list_controller_types", "listing_view_controller_chains",
                            "status_views", "completions", "gui_controller_actions", "gui_hardware_actions", "launches", "test_checks"])],
      "every verb, helper, completer, menu of the front end and launch helper with random arguments, namespaces, controller manager states, faults, lost and late "
      "answers; requests and results compared with what was asked; distinct = distinct (verb, arguments, outcome)")

check("C34", [dict(name="loop", harness=["loop.cpp"], sources=HWI + CTRL + CM, repo_opt="-O0", cases=400, thorough_cases=20000,
                   require=["overruns", "periodic", "blocking_long", "blocking_short", "sim_failed", "sim_slept", "node_periodic", "node_unmanaged", "node_blocking", "node_sim", "node_sim_broken"])],
      "the sleeping policies called directly and the whole ros2_control_node program run on a virtual steady clock (only sleeping and the scripted hardware let "
      "time pass) with random rates, cycle durations (short, exact multiples, long), interrupted and late sleeps, managed and unmanaged overruns, blocking hardware and "
      "simulated time; every schedule, start, period and sleep compared with the documented rule; distinct = distinct (rate, lateness class, mode)")

check("C18", [dict(name="mock", harness=["mock.cpp"], sources=HWI + MOCK, repo_opt="-O0", cases=2400, thorough_cases=60000,
                   require=["cycles", "dynamic_cycles", "modes_accepted", "modes_refused", "infinite_refused", "reconfigured"])],
      "random descriptions of 1-2 mock systems (joints whose names contain each other, mimic joints, sensors, GPIOs, offsets, dynamics, disabled "
      "commands) behind the real resource manager; random commands, cycles, mode and lifecycle requests; every state compared after every cycle "
      "with a reference model of the documentation; distinct = distinct vectors of states")

CI = dict(harness=["ctrl.cpp"], sources=CTRL + HWI, repo_opt="-O0")
check("C19", [dict(CI, name="life", mode="life", cases=1600, thorough_cases=60000,
                   require=["histories", "configured", "configuration_refused", "sync_updates", "async_updates", "async_skipped", "init_failed"]),
              dict(CI, name="async_tsan", mode="async", san="tsan", cases=40, thorough_cases=1500, require=["stress_updates", "async_cycles"]),
              dict(CI, name="id_tsan", mode="id", san="tsan", cases=40, thorough_cases=1500, require=["state_reads"])],
      "random histories of lifecycle requests, callback outcomes (success, failure, error, exception), parameter changes, loans and updates of a "
      "controller derived from the real base class, compared with a lifecycle and rate model after every request; an asynchronous controller "
      "triggered by a loop thread while it is activated, deactivated, fails and is configured again, under TSan; distinct = distinct "
      "(states, callbacks, rates)")
check("C20", [dict(CI, name="chain", mode="chain", cases=2400, thorough_cases=80000,
                   require=["exports", "refused_exports", "modes_changed", "modes_refused", "cycles_chained", "cycles_unchained", "references_seen"])],
      "random histories of exports (both interfaces of the base class, foreign names, duplicates, wrong sizes), mode requests, lifecycle requests "
      "and updates with failing stages of a chainable controller; distinct = distinct (state, mode, stages, exports)")

CMT = dict(harness=["cm.cpp"], sources=HWI + CTRL + CM, repo_opt="-O0")
check("C22", [dict(CMT, name="switch", mode="switch", cases=600, thorough_cases=20000,
                   require=["accepted", "refused", "with_failures", "nothing_to_do", "restarts", "best_effort", "chained", "references_passed", "states_passed"])],
      "random worlds of 1-3 hardware components and 2-7 controllers (chains of any acyclic shape, exported states, shared interfaces, fallbacks, "
      "asynchronous controllers) and histories of switch requests with unknown names, duplicates, conflicts, refusing hardware and failing callbacks; "
      "answers, callbacks, states, claims, chained modes and the following cycle compared with a model; distinct = distinct (world, request)")
check("C23", [dict(CMT, name="chain", mode="chain", cases=500, thorough_cases=20000,
                   require=["accepted", "restarts", "chained", "references_passed", "states_passed", "connections_listed", "configure_done", "unload_done"])],
      "random worlds of 3-10 controllers, most of them chainable (exported references and states, any acyclic shape, any order of loading), and histories of "
      "switch, load, configure, clean up and unload requests with refused parts; modes, states, order of updates and the values passed along the chains "
      "compared with a model after every request; distinct = distinct (world, states, request)")
check("C27", [dict(CMT, name="life", mode="life", cases=350, thorough_cases=15000,
                   require=["load_done", "load_refused", "configure_done", "configure_refused", "cleanup_done", "unload_done", "unload_refused", "reloads", "listed", "connections_listed", "statistics_audited"])],
      "random histories of load, configure, clean up, unload, switch and reload requests for controllers with unknown types, failing callbacks (failure, error, "
      "exception) and changing interfaces; answers, callbacks, every field of the listings, executor nodes, live instances and exported interfaces compared "
      "with a lifecycle model after every request; distinct = distinct (world, states, request)")
check("C24", [dict(CMT, name="fail", mode="fail", cases=700, thorough_cases=20000,
                   require=["failed_updates", "failed_with_group", "fallbacks_activated", "fallbacks_impossible", "stopped_for_failed_hardware", "stopped_for_inactive_hardware", "stopped_with_group", "undisturbed", "hardware_brought_back", "async_quiet"])],
      "Real controller manager with scripted controllers (updates failing or throwing, chains, fallbacks) and hardware (cycles failing, throwing or deactivating itself); every cycle's callbacks, updates, answers, listings and availability compared with a model of the failure rules")
check("C25", [dict(CMT, name="rate", mode="rate", cases=500, thorough_cases=20000,
                   require=["due", "not_due", "slow_due", "first_updates"])],
      "Real controller manager at rates from 1 to 1000 Hz with controllers of any rate, ideal, jittered and stalling cycles and histories of switches; the whole recorded history of updates compared with the rule of when a controller is due and which period it is given; distinct = distinct (rates, period)")
RACE = ["load_ok", "configure_ok", "switch_ok", "cleanup_ok", "unload_ok", "hw_state_ok", "visible", "injected_failures", "slow_callbacks", "active_at_the_end"]
check("C26", [dict(CMT, name="race", mode="race", cases=480, thorough_cases=10000, require=RACE),
              dict(CMT, name="race_tsan", mode="race", san="tsan", cases=240, thorough_cases=5000, require=RACE)],
      "Real controller manager, its control loop in one thread and 2-4 threads making random service requests (each for its own controllers, or all for the same), with failing updates, hardware and callbacks, slow callbacks and short timeouts, under AddressSanitizer and ThreadSanitizer; every success must be visible in the next listing, slow callbacks must not stop the loop, and the state left behind is audited; distinct = distinct (world, end state, cycles)")
check("C33", [dict(CMT, name="diag", mode="diag", cases=2000, thorough_cases=16000, require=["activities", "injected_controllers", "injected_hardware", "controllers_OK", "controllers_WARN", "controllers_ERROR", "hardware_OK", "hardware_WARN", "hardware_ERROR", "manager_OK", "manager_WARN", "manager_ERROR", "without_description", "broken_description", "hardware_changes", "failed_updates", "hardware_failures"])],
      "Real controller manager with random thresholds and scripted controllers and hardware; after every request, failure and run of cycles with good and bad timing the diagnostics are computed and their levels, named offenders and values compared with the thresholds applied to the measured (and separately recorded) statistics, and the activity message with the listings; distinct = distinct (messages, states)")
BOOT = ["starts", "starts_with_failures", "starts_ended", "groups", "groups_rolled_back", "groups_not_configured", "shutdowns", "shutdowns_with_failures", "stopped_active", "stopping_failed"]
check("C32", [dict(CMT, name="boot", mode="boot", cases=800, thorough_cases=16000, require=BOOT),
              dict(CMT, name="boot_tsan", mode="boot", san="tsan", cases=240, thorough_cases=4000, require=BOOT[:4] + BOOT[6:9])],
      "Real controller manager: it is started with random components, groups, initial states and failing callbacks, and shut down with controllers and hardware in every state, failing and slow callbacks, while the control loop runs in another thread, under AddressSanitizer and ThreadSanitizer; callbacks, order, states, interfaces and what still runs afterwards are compared with a model; distinct = distinct (world, callbacks)")
