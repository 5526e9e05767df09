# Per-property text of DESIGN.md: (how it is decided, why tests cannot, bounds and what is left out, corrections)
PARTS = {
"C01": ("Texts are printed from random bit patterns (every finite double/float, every integer width), boundary literals and 1-3 edit mutations of them, converted by the real functions and compared with the C locale's `strtod`/`strtoll` on the grammar written down in the harness (accept exactly the complete numbers; otherwise throw `std::invalid_argument`/`out_of_range` or return nullopt, never anything else). Half of the cases run under a comma-decimal locale.",
 "Any text is an input; tests hold a dozen.", "Texts up to some 60 characters plus a few very long ones (the original recursed in std::regex)."),
"C02": ("Random prefixes, node namespaces and interface names over a small alphabet rich in '/' and '~'; the documented rule for prefixes is written as a function of the text. List and map helpers are driven as histories against std containers with the documented meaning, orderings against a permutation model (same elements, in the order asked for).",
 "Collisions need particular pairs of names.", "Short names, histories of helper calls. Correction of the statement: one leading separator of a prefix is dropped (first written as never changing anything)."),
"C03": ("A description is generated together with the truth: joint types, URDF limits declared/omitted, soft limits, per-interface min/max and enable flags. The model takes the tightest of all bounds; the derived `JointLimits` of every joint of every component are compared field by field, including has_* flags. Limits must never leak from one joint to another.",
 "The combination is a product of a dozen independent choices.", "A few joints and components per description. Correction of the statement: an unreadable bound is reported and skipped together with its pair instead of refusing the description."),
"C04": ("Parameter sets are generated, declared on the (shim) node and read back; update histories (order, grouping of parameters into one call, several updates between two cycles, similarly named joints, wrong types) are compared with the union of old and new values. A limiter cycles under TSan while updates arrive; a reader that mixes two generations of limits is detected because every generation's values carry its tag.",
 "Atomicity is about interleavings.", "Schedules are whatever 8 cores and random delays give; distinct interleavings are counted in the evidence."),
"C05": ("Open- and closed-loop command histories against random limit sets (each limit present or absent, stale values behind an absent flag) are fed to the real range limiter. Two oracles: a reference model of the documented intervals, and stand-alone bounds (never beyond position/velocity/acceleration/effort limits; untouched if already inside) that do not use the model.",
 "Violations hide in particular combinations of limits, cycle time and previous commands.", "Corrections of the statement: where limits contradict each other for a moment the command stays between them and within the velocity limit."),
"C06": ("As C05 with soft limits and gains; joints are simulated with 0-2 cycles of delay and driven into the soft band. The soft-limit velocity bounds k_p*(x-limit) are recomputed, and the result must also satisfy the hard bounds.",
 "Needs trajectories into the band.", "As C05. Correction of the statement: a joint found outside the soft band is brought back towards it."),
"C07": ("Random points for 1-7 joints; the per-joint rule is a reference model, and stand-alone bounds are checked in addition: no joint beyond its limits, unlimited points unchanged, `enforce` reports exactly whether a limit was applied, all joints brake together when one could not stop in time.",
 "Joint coupling: one joint's limit changes the others.", "Open and closed loop, limits given directly and as parameters. Correction of the statement: the limiter does not slow all joints by a common factor (first written that way), only braking is joint."),
"C08": ("Values are pushed through the three transmissions; the documented linear laws are evaluated in long double. Round trips joint->actuator->joint, the power balance, and sentinels behind every handle that must not change. Random connected subsets and handle orders.",
 "Sign and subset errors show only for particular configurations.", "Reductions 1e-3..1e3 of both signs. Corrected: the model of unused extra axes. Left open: Differential/FourBar match handles by sorted names (documented quirk of the code), so names are generated in that order."),
"C09": ("Random `<transmission>` descriptions (omitted, zero, negative, non-numeric members) are parsed and loaded through the loader plugins; the loaded object is judged by the mapping it performs, a refused one by there being no object.",
 "Descriptions are unbounded.", "Correction of the statement: only too few members and zero reductions are refused; a reduction that cannot be read takes the documented default."),
"C10": ("A well-formed description is generated with the structure it denotes and compared field by field with the parsed `HardwareInfo`; structured damage (missing/duplicated/mistyped members) must be refused with an exception; random damage (byte and tree edits) must neither crash nor hang nor be undefined (ASan+UBSan).",
 "The input is an arbitrary document.", "Well-formed documents stay small; size itself is not stressed."),
"C11": ("Random histories of create/copy/move/assign/drop/read/write over handles of every data type, with own and external storage, against a value model after each step. ASan watches for dangling storage. Concurrent writers write values tagged with their identity; a reader may only see a complete written value; TSan watches for races.",
 "Tearing needs interleavings, dangling needs histories.", "A few handles alive at a time; concurrency from stress."),
"C12": ("Random histories of claims, moves, drops, exceptions, hardware state changes and controller references are compared with an ownership model after every step (claimed flag, refusal of second claims, deleter exactly once); concurrent claimants keep an owner counter per interface that must never exceed one, under TSan.",
 "Uniqueness under concurrency.", "A few components and threads; interleavings from stress."),
"C13": ("Scripted actuators/sensors/systems answer every callback with success/failure/error/exception; a reference lifecycle predicts each state and each callback. Asynchronous components run under TSan while requests arrive; a read or write during a transition, or a callback overlapping another, is reported.",
 "All histories of answers.", "Histories of a few dozen requests."),
"C14": ("Random descriptions, loads that must fail, and histories of state requests; listings, availability and existence of every interface are compared with the lifecycle model after every operation.",
 "As C13, over several components.", "Correction: the oracle for the result of state requests was first too strict."),
"C15": ("Components with groups and rates run for 50-250 cycles with jitter, errors, exceptions and self-deactivation; each call, its period, each result and each state is compared with a model. A second target races cycles with requests and listings under TSan.",
 "Faults at any point of any cycle.", "Known finding: after one component of a group deactivates itself in write, the next read treats the retained group state as an error (identified by the exact history `write DEACTIVATE of a group member, then read`)."),
"C16": ("Random start/stop lists over components in every state, including unknown and unavailable interfaces and refusing or throwing components; every call that reached hardware and every answer compared with the documented rule.",
 "Routing depends on the whole list and on all states.", "A few components per world."),
"C17": ("Hostile commands (NaN, infinities, jumps) are written through real loaned interfaces, limits enforced and written to recording hardware; what the hardware receives is compared with a reference limiter per joint and with the plain bounds.",
 "End-to-end path; a missing call is invisible to unit tests of the limiter.", "Double command interfaces only."),
"C18": ("1-2 mock systems behind the real resource manager; random commands, cycles, mode and lifecycle requests; every state compared after every cycle with a model of the documentation.",
 "Names containing each other, mimic chains, modes and offsets interact.", "Corrections: the harness ignored prefixes of command interface names; infinite commands are outside the statement."),
"C19": ("Real base class with scripted callbacks; lifecycle, rate and loan model compared after each request; asynchronous controllers under TSan.",
 "Histories of parameter changes and failures.", "Corrections: a missed asynchronous trigger is legitimate; ERROR in shutdown goes to on_error."),
"C20": ("Random histories of exports (foreign names, duplicates, wrong sizes), mode requests, lifecycle requests and updates with failing stages.",
 "Order of mode, lifecycle and exports.", "A few exported interfaces per controller."),
"C21": ("Every adapter, random component names, offered orders with unrelated and missing interfaces, non-finite values, interfaces locked by another thread, several assign/release rounds; each message field is compared with its documented interface.",
 "Order- and name-dependent mappings.", "Correction of the statement: a value that cannot be read may become the documented not-available value."),
"C22": ("The real ControllerManager with the real ResourceManager on scripted controllers and hardware (hwfake.hpp, cmfake.hpp), services called through the shim while the control loop cycles in the main thread. A model plans each request (unknown names, duplicates, conflicts, chain rules, restarts), and after it the answer, every callback in order, states, claimed interfaces, chained modes, the following cycle, the listings and the interfaces that the *hardware* was last told to run are compared. Some requests time out because the control loop stands still, some use the default timeout with a slow loop.",
 "Histories over arbitrary worlds; maximality of best effort is a fixpoint.", "2-7 controllers, 1-3 components, 4-14 requests per world. Corrections: a resource conflict refuses even a best-effort request as a whole (documented design); lifecycle callbacks throwing non-std exceptions are excluded; claimed interfaces are listed only while available; what hardware hears of controllers whose activation never got as far as their callback, or that refuse deactivation, is left open."),
"C23": ("As C22 with up to ten controllers, most chainable, interleaved with load/configure/clean-up/unload; each cycle's order of updates and the values that travel along chains within one cycle (tagged values) are compared.",
 "Order must be a linear extension for every acyclic shape and every load order.", "Use-cycles are excluded (the code recurses without end on them; noted below)."),
"C24": ("Running systems are hit by patterns of failing/throwing updates and failing/throwing/self-deactivating hardware in one cycle; the model of the failure rules predicts callbacks, updates, answers, listings, availability and the mode switches the hardware is told.",
 "Combinations of simultaneous failures with chains and fallbacks.", "Corrections: fallbacks that exclude each other are unspecified (only `none of them stays active`); an ERROR and a DEACTIVATE in the same write cycle are not combined."),
"C25": ("The whole recorded tape of updates is checked offline against the rule of when a controller is due (half a cycle early counts) and which period it is given, for manager rates 1-1000 Hz, jittered and stalling cycles, and switches.",
 "Drift and resets show over hundreds of cycles.", "Synchronous controllers; ties within 1e-6 s are accepted both ways. Corrections: the start-of-cycle activity decides for involved controllers; asynchronous teardown."),
"C26": ("The control loop in one thread and 2-4 threads of random service requests with failing everything and short timeouts, under ASan and under TSan; successes must be visible in the next listing (for the owner of the controllers), slow callbacks must not stop the loop (progress monitor), and the state left behind is audited by the C22/C27 oracles.",
 "Interleavings.", "Schedules come from stress and the random yields of `realtime_tools::shim_sched_hook`. TSan's lock-order heuristics are off (gate-locked orders are reported falsely). Left open: parameter-driven `*params_ = get_params()` in the diagnostics timer (the shim never changes parameters at run time)."),
"C27": ("Random histories of all lifecycle services with unknown types, failing callbacks and changing exports; answers, callbacks, each field of the listings, executor nodes, live instances and exported interfaces after each request.",
 "Residue shows only in later requests.", "Correction: a failing on_init also calls shutdown."),
"C28": ("The real Python tools run in-process against a simulated controller manager; random command lines, parameter files, faults, lost answers, late managers, busy locks and signals at every point; requests, lock, exit code, final states compared with a model.",
 "Crash points and fault sequences.", "Corrections: duplicates within a group, lock timing."),
"C29": ("Random sets of YAML files; the documented matching rules are a function of (namespace, name, section path).",
 "Near-miss names, several files, wildcards.", "Left open: what a section shadowed by a later one in the same file means."),
"C30": ("Every verb, completer, menu and launch helper with random arguments and faults, compared with what was asked. An unexpected Python exception is a violation.",
 "Product of verbs, states and faults.", "rqt is driven through its functions, without Qt."),
"C31": ("Measurements with tiny spread on large offsets, huge dynamic range, constants, non-finite values, with resets and sample limits, recomputed in long double after each step; concurrent readers under TSan.",
 "Numerical drift.", "Sequences up to some thousands of samples."),
"C32": ("The manager is started with random components, groups, initial states and failing callbacks, and shut down with everything in every state, while the control loop runs in another thread (ASan and TSan); callbacks, their order, states and what still runs afterwards are compared.",
 "Shut-down races with the loop.", "Order within a group is not specified. Correction: shut-down does not clean up first; group roll-back ends inactive. Left open: services running concurrently with shut-down."),
"C33": ("Random thresholds; after each request, failure and run of cycles the diagnostics are computed and levels, named offenders and values compared with the thresholds applied to separately recorded statistics; the activity message is compared with the listings.",
 "Worst-of over all components and thresholds.", "Correction: groups with unloaded members. `update_rate/hw` diagnostics return early when no hardware is active (left as is)."),
"C34": ("The sleeping policies and the complete ros2_control_node program run on a virtual steady clock (only sleeping and scripted hardware let time pass); each schedule, start, period and sleep is compared with the documented rule.",
 "Long overruns and late wake-ups cannot be waited for in tests.", "Correction: a shim macro was not a no-op."),
"C35": ("What is registered with the (stand-in) statistics library is a monitored set: after every step of random histories of real hardware components, controllers and the resource manager every name, its count, its value and whether it is published are compared with the interfaces that exist and the states. Under ASan, every registered value is read after every step, so anything left behind is a use after free. Status publishers are compared message by message.",
 "Nobody subscribes to these topics in tests.", "The publishing thread of the real library is not there; the manager's own statistics are audited within C27."),
}
