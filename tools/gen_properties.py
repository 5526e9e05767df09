#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only so that the text is easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, **kw):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    a.update(kw)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

HI = "hardware_interface/"
prop("C01", "Text-to-value conversion is exact, total and locale independent",
     "Every text from a robot description or parameter is converted either to exactly the number, boolean or list it denotes, or to an error of the documented kind: the whole text must be consumed, out-of-range and non-finite values are refused, and nothing is silently truncated, wrapped or guessed. The result never depends on the process locale, and no text can cause undefined behaviour. Converting the printed form of any finite value gives that value back.",
     ["inputs", "configurations"], "all byte strings (well formed, nearly well formed, hostile, long), all finite doubles/floats and 8/16/32-bit integers, all installed locales",
     "The tests convert a few dozen literals in the C locale; numbers near the range limits, malformed tails, long lists and random byte strings are not sampled.",
     [HI+"src/lexical_casts.cpp", HI+"include/hardware_interface/lexical_casts.hpp"],
     [("stod/stof/stoi*/stoui*", HI+"src/lexical_casts.cpp"), ("parse_bool, parse_array", HI+"src/lexical_casts.cpp and lexical_casts.hpp")])
prop("C02", "Name prefixes and name-list helpers preserve exactly what they are given",
     "A frame prefix is built from the configured prefix and the node's namespace by one fixed rule: an empty prefix stays empty, a leading tilde stands for the node namespace, the result ends with a separator and one leading separator is dropped. The list and map helpers used for bookkeeping of controllers and interfaces add an item at most once, remove exactly the item asked for, keep the order of all others, and report truthfully whether something was found or removed. None of them changes any element it was not asked to change.",
     ["inputs", "histories"], "all prefix/namespace strings and all sequences of add/remove/lookup operations on lists and maps",
     "Tests call each helper with a handful of literals; they do not compare against a model on arbitrary sequences.",
     ["controller_interface/include/controller_interface/tf_prefix.hpp", "controller_interface/include/controller_interface/helpers.hpp", HI+"include/hardware_interface/helpers.hpp"],
     [("resolve_tf_prefix", "tf_prefix.hpp"), ("interface_list_contains_interface_type(s), get_ordered_interfaces, add/remove/has/get_item, convert_to_snake/lower", "helpers.hpp of both packages")])
prop("C03", "Joint limits in force are the most restrictive of all that were declared",
     "For every joint, the limits the system derives from a robot description are the tightest combination of what the joint declares and what the control section declares for the same quantity, a limit is reported as present exactly when it was declared and not disabled, and soft limits never reach beyond the hard ones. Continuous joints have no position limits unless the control section gives them. An unreadable bound is reported and skipped together with its pair, never loosening what was declared elsewhere, and limits of one joint never leak into another.",
     ["inputs", "configurations"], "all robot descriptions with any mix of joint types, limit attributes, soft-limit attributes, per-interface min/max and enable flags",
     "The tests parse a few fixed descriptions; the combinations of joint type x declared x disabled x per-interface bounds are not enumerated.",
     ["joint_limits/include/joint_limits/joint_limits_urdf.hpp", HI+"src/component_parser.cpp"],
     [("getJointLimits/getSoftJointLimits", "joint_limits_urdf.hpp"), ("update_interface_limits / limits retrieval", HI+"src/component_parser.cpp")])
prop("C04", "Limits from parameters are read completely and updated atomically",
     "Limits declared as parameters are read back exactly as given, a limit that is announced but has no usable value stays unset, and absent entries leave the corresponding limit unchanged. A parameter update that changes any limit is noticed whatever the order or number of parameters in it and after it the limits in use equal the union of the old values and the update, taken over as a whole; an update that would make the limits in use contradictory keeps the previous ones, and parameters of other joints never have any effect.",
     ["inputs", "histories"], "all sets of limit parameters and all sequences and orders of parameter updates",
     "Tests apply one or two updates with the parameters in one order.",
     ["joint_limits/include/joint_limits/joint_limits_rosparam.hpp", "joint_limits/include/joint_limits/joint_limiter_interface.hpp"],
     [("declare_parameters/get_joint_limits", "joint_limits_rosparam.hpp"), ("check_for_limits_update", "joint_limits_rosparam.hpp")])
prop("C05", "A limited command never exceeds the limits and is otherwise untouched",
     "Whatever is commanded in whatever order, the command that leaves the range limiter respects every limit that is declared for the joint - position, velocity, acceleration, deceleration, effort and jerk, each taken relative to the previous command and the elapsed period - and never pushes a joint at or beyond a position limit further outward; where these limits contradict each other for a moment the command stays between them and within the velocity limit. A command that already respects them passes through bit for bit, and the limiter reports a change exactly when it changed something. An elapsed time that is not positive changes nothing, a position command for a joint found clearly outside its position range is reported as an error, and limits that are not declared never restrict anything.",
     ["inputs", "histories"], "all limit sets, and all sequences of desired and measured values and periods, including infinities, missing values and out-of-range measurements",
     "Tests drive a few hand-written sequences through a few limit sets; the behaviour depends on the history of previous commands and on the combination of limits.",
     ["joint_limits/src/joint_range_limiter.cpp", "joint_limits/src/joint_limits_helpers.cpp", "joint_limits/include/joint_limits/joint_saturation_limiter.hpp"],
     [("JointSaturationLimiter<JointControlInterfacesData>::on_enforce", "joint_range_limiter.cpp"), ("compute_*_limits", "joint_limits_helpers.cpp")])
prop("C06", "Soft limits slow the joint down before the hard limits, and never loosen them",
     "With soft limits configured, the limited command still respects every hard limit, and inside the soft band the permitted velocity or effort falls off in proportion to the distance to the soft limit with the configured gains, so that no sequence of commands can drive the joint past its soft position limit faster than that law allows; a joint found outside the soft band is brought back towards it. Without soft limits (or with zero gains where documented) the behaviour is that of the hard limits alone. Commands that already respect the law pass through unchanged, and a change is reported exactly when one was made.",
     ["inputs", "histories"], "all hard/soft limit sets and gains, and all sequences of desired and measured values and periods",
     "Tests step through a few hand-computed sequences with one gain set.",
     ["joint_limits/src/joint_soft_limiter.cpp", "joint_limits/src/joint_limits_helpers.cpp", "joint_limits/include/joint_limits/joint_soft_limiter.hpp"],
     [("JointSoftLimiter::on_enforce", "joint_soft_limiter.cpp"), ("compute_*_limits", "joint_limits_helpers.cpp")])
prop("C07", "Trajectory points are limited jointly without breaking any joint limit",
     "For every trajectory point with any number of joints, the limited point is finite, respects each joint's declared position, velocity, acceleration, deceleration and effort limits given the current point and the period, and is left alone when it already does. A joint approaching a position limit is stopped in time within its declared deceleration, and when any joint could no longer stop in time all joints brake together. A missing velocity or acceleration is derived from the rest of the point. The limiter reports a change exactly when a limit was applied, and refuses points whose sizes do not match.",
     ["inputs", "histories"], "all joint counts, limit sets, current and desired points (with any subset of positions/velocities/accelerations present) and periods",
     "Tests check a few points for one or three joints with fixed limits.",
     ["joint_limits/src/joint_saturation_limiter.cpp", "joint_limits/include/joint_limits/joint_saturation_limiter.hpp", "joint_limits/include/joint_limits/joint_limiter_interface.hpp"],
     [("JointSaturationLimiter<JointTrajectoryPoint>::on_enforce", "joint_saturation_limiter.cpp")])
prop("C08", "Transmissions are exact inverses and conserve power",
     "For every valid set of reductions and offsets, mapping joint values to actuators and back (and the reverse) returns the original position, velocity, effort and force-like values up to rounding, mechanical power is the same on both sides, and each quantity follows the transmission's documented linear law with offsets applied to positions only. Only the quantities whose interfaces are connected are written, and no other connected value is read or changed. Invalid reductions, inconsistent or missing connections are refused with the documented error.",
     ["inputs", "configurations"], "all finite reductions and offsets (negative, small, large), all interface subsets and orders, all finite values",
     "The tests evaluate a few reductions and values.",
     ["transmission_interface/include/transmission_interface/simple_transmission.hpp", "transmission_interface/include/transmission_interface/differential_transmission.hpp", "transmission_interface/include/transmission_interface/four_bar_linkage_transmission.hpp", "transmission_interface/include/transmission_interface/accessor.hpp"],
     [("actuator_to_joint / joint_to_actuator / configure", "*_transmission.hpp")])
prop("C09", "A transmission is loaded exactly as described, or not at all",
     "For every described transmission, loading either yields a transmission with exactly the described reductions and offsets (documented defaults where omitted) in the described roles, or reports failure without producing one and without letting an exception escape. A description with too few joints or actuators, or with a zero reduction, never yields a transmission; a reduction or offset that cannot be read is replaced by the documented default.",
     ["inputs", "configurations"], "all transmission descriptions, well formed and malformed",
     "Tests load a few fixed descriptions.",
     ["transmission_interface/src/simple_transmission_loader.cpp", "transmission_interface/src/differential_transmission_loader.cpp", "transmission_interface/src/four_bar_linkage_transmission_loader.cpp"],
     [("*TransmissionLoader::load", "transmission_interface/src/*_loader.cpp")])
prop("C10", "Robot descriptions are parsed faithfully or refused without crashing",
     "Every well-formed description yields exactly the components, joints, sensors, GPIOs, interfaces, initial values, data types, sizes, parameters, transmissions, mimic relations, update rates and asynchronous settings it declares, in declaration order and with the documented defaults for what is omitted. Every other text - truncated, mutated, empty or arbitrary - is refused with an ordinary error; no input crashes the parser, corrupts memory or is undefined behaviour. Parsing the same text twice gives the same result.",
     ["inputs"], "all texts: generated well-formed descriptions, structured mutations of them, and arbitrary bytes",
     "Tests use a fixed list of good and bad descriptions.",
     [HI+"src/component_parser.cpp", HI+"include/hardware_interface/hardware_info.hpp"],
     [("parse_control_resources_from_urdf and its helpers", HI+"src/component_parser.cpp")])
prop("C11", "Interface values are never torn, lost, mistyped or left dangling",
     "A value written to a state or command interface is what every later read returns, with the declared data type, until the next successful write; a read or write that cannot be done right now reports that instead of returning or storing something else, and using the wrong type is reported as an error. Concurrent readers and writers of any interface see only values that were really written, never a mixture and never a data race. Copying, moving or assigning an interface never leaves either object referring to storage that the other owns.",
     ["schedules", "histories", "inputs"], "all interleavings of reader and writer threads, all data types, all copy/move/assign histories",
     "Tests are single threaded and use one or two handles of each type.",
     [HI+"include/hardware_interface/handle.hpp", HI+"include/hardware_interface/loaned_state_interface.hpp", HI+"include/hardware_interface/loaned_command_interface.hpp"],
     [("Handle::get_optional/set_value, copy/swap, locks", "handle.hpp")])
prop("C12", "A command interface has at most one owner and each claim ends exactly once",
     "At any time at most one loan exists for a command interface; while it exists every further claim is refused, and when it ends - normally, by being moved and dropped, or by an exception - the interface becomes claimable again exactly once and never before. Claims of interfaces that do not exist or are not available are refused, and state interfaces can be shared by any number of readers. This holds for concurrent claimants.",
     ["schedules", "histories"], "all interleavings and histories of claim, move, release, and availability changes from several threads",
     "Tests claim and release one interface at a time from one thread.",
     [HI+"src/resource_manager.cpp", HI+"include/hardware_interface/loaned_command_interface.hpp"],
     [("claim_command_interface/claim_state_interface/release_command_interface", "resource_manager.cpp")])
prop("C13", "Hardware components follow their lifecycle whatever their callbacks return",
     "For every history of requested transitions and every success, failure, error or exception of the component's own callbacks, the component is only ever in the state the lifecycle prescribes: a callback is invoked only from the state it belongs to and at most once per request, failed activation returns to inactive, errors go through the error handler to unconfigured or finalized, and a finalized component never leaves that state nor has any callback invoked again. Reading happens only while inactive or active and writing only while active, and never for sensors. Exported interfaces and names stay those declared at initialisation.",
     ["histories", "fault_sequences"], "all sequences of lifecycle requests and read/write cycles with all callback outcomes, for actuators, sensors and systems",
     "Tests walk a few fixed transition sequences.",
     [HI+"src/hardware_component.cpp", HI+"src/hardware_component_interface.cpp"],
     [("initialize/configure/activate/deactivate/cleanup/shutdown/error/read/write", "hardware_component.cpp")])
prop("C14", "Interfaces are available exactly while their hardware is configured",
     "After every operation, an interface provided by hardware is listed and available exactly when that component is inactive or active, exists and is claimable by the documented rules, and disappears from availability when the component is cleaned up, shut down, fails, or is put into an error state - for state changes requested one by one or through intermediate states. A requested state change either ends in exactly the requested state and reports success, or reports an error; unknown components or states are refused. Loading a description with duplicate names, failing components or missing declared interfaces leaves nothing behind.",
     ["histories", "fault_sequences", "configurations"], "all histories of loading and state change requests over sets of components with arbitrary callback outcomes",
     "Tests use a fixed robot with scripted states.",
     [HI+"src/resource_manager.cpp"],
     [("set_component_state, load_and_initialize_components, available lists", "resource_manager.cpp")])
prop("C15", "A hardware failure is contained, reported and never hidden",
     "In every read or write cycle, each component that is due is called once and no other is; a component that reports an error or throws is taken out of service, is named in the result together with every component of its group, and its interfaces become unavailable, while all other components keep being served in the same and in later cycles. A component that asks to be deactivated becomes inactive. Components with a lower rate are called at that rate - never more often than due - with the time really elapsed since their previous call.",
     ["fault_sequences", "histories", "configurations"], "all patterns of ok/error/deactivate/exception results over components, groups, rates and cycle jitter",
     "Tests make one component fail once in a fixed robot.",
     [HI+"src/resource_manager.cpp", HI+"src/hardware_component.cpp"],
     [("ResourceManager::read/write", "resource_manager.cpp"), ("group state", "resource_manager.cpp")])
prop("C16", "Mode switches reach exactly the hardware they concern, or are refused as a whole",
     "A request to start or stop command interfaces is passed to a component exactly when it concerns that component's interfaces and with only those, first as a check and only then as the change. It is refused - and then nothing is changed anywhere - if any named interface is unknown or not available, if the hardware is not in a state that allows it, or if any component refuses or throws. An empty request succeeds without disturbing any component.",
     ["histories", "fault_sequences", "configurations"], "all start/stop sets over several components in all states and all component answers",
     "Tests switch a few fixed interface lists.",
     [HI+"src/resource_manager.cpp"],
     [("prepare_command_mode_switch/perform_command_mode_switch", "resource_manager.cpp")])
prop("C17", "Commands reach hardware only after the declared limits were applied",
     "With limit enforcement on, in every cycle each claimed joint command that is written to hardware satisfies the joint's declared limits no matter what a controller wrote, joints without declared limits are passed through unchanged, and each limited joint uses its own limits, its own measured state and the real period. Values for interfaces that are not limited, and all values with enforcement off, arrive unchanged.",
     ["inputs", "histories", "configurations"], "all robots with any subset of limited joints and interfaces, all command sequences",
     "Tests check single commands on one joint.",
     [HI+"src/resource_manager.cpp", "joint_limits/src/joint_range_limiter.cpp", HI+"include/hardware_interface/handle.hpp"],
     [("import_joint_limiters, enforce_command_limits", "resource_manager.cpp"), ("set_limited_value", "handle.hpp")])
prop("C18", "Mock hardware mirrors commands faithfully, per joint and per mode",
     "The built-in simulated hardware reports, after each cycle, for every joint exactly the state its last accepted commands prescribe: mirrored values (with the configured offset on positions only), integrated motion in the selected control mode when dynamics are enabled, scaled and offset values for mimic joints, and untouched states where commands are disabled. A mode change affects only the joints it names, values for one joint never influence another, and infinite commands never reach a state; where a command is mirrored they are reported as errors.",
     ["inputs", "histories", "configurations"], "all joint/interface sets, parameters, mode switches and command sequences",
     "Tests use fixed robots with one or two joints whose names are not prefixes of each other.",
     [HI+"src/mock_components/generic_system.cpp"],
     [("GenericSystem::read, prepare/perform_command_mode_switch", "generic_system.cpp")])
prop("C19", "Controllers follow their lifecycle, rate and ownership contract",
     "For every history of lifecycle requests and callback outcomes a controller ends in the state the lifecycle prescribes, holds its interfaces only while it should, and can be asked to run asynchronously without its update ever running concurrently with itself or outside the active state. A requested update rate is refused if invalid, is never higher than the manager's, and is otherwise the achievable rate nearest to the request by the documented rule, on every configuration and not only the first.",
     ["histories", "inputs", "schedules"], "all lifecycle histories, update-rate values and callback outcomes, synchronous and asynchronous",
     "Tests configure a controller once with one or two rates.",
     ["controller_interface/src/controller_interface_base.cpp", "controller_interface/src/controller_interface.cpp"],
     [("ControllerInterfaceBase::init/configure/trigger_update/release_interfaces", "controller_interface_base.cpp")])
prop("C20", "Chainable controllers expose exactly their own references and honour the mode",
     "A chainable controller exports exactly the reference and state interfaces it declared, each under its own name and unique, and a wrong, foreign or duplicated export is refused. In every cycle its references come from the upstream controller while chained and from its own subscribers otherwise, an error in either stage is reported and stops the cycle, and the mode cannot be changed while it is active. Values written through an exported reference are those the controller sees.",
     ["histories", "inputs", "configurations"], "all export lists, mode changes and update outcomes",
     "Tests export one reference and switch the mode once.",
     ["controller_interface/src/chainable_controller_interface.cpp", "controller_interface/src/controller_interface.cpp"],
     [("export_reference_interfaces/export_state_interfaces/set_chained_mode/update", "chainable_controller_interface.cpp")])
prop("C21", "Sensor and device adapters map interfaces to message fields exactly",
     "For every sensor or device adapter, each named interface is connected to the field it belongs to whatever the order in which interfaces are offered, a message or vector built from it holds exactly the latest values of those interfaces and a value that cannot be read keeps its previous one or becomes the documented not-available value. Commands written through an adapter arrive on exactly the interfaces of the matching fields, and out-of-range commands are refused as a whole. Releasing an adapter leaves no interface behind.",
     ["inputs", "configurations", "histories"], "all interface orders, subsets, names and values (including missing and out-of-range values)",
     "Tests assign interfaces in one order and read one set of values.",
     ["controller_interface/include/semantic_components/*.hpp"],
     [("assign_loaned_*, get_values_as_message, set_values_from_message", "semantic_components")])
prop("C22", "Controller switches are atomic when strict and maximal when best effort",
     "A strict switch request either makes exactly the requested activations and deactivations or changes no controller's state and reports failure; a best-effort request applies every part that is possible and leaves the rest untouched. No switch ever lets two active controllers hold the same command interface or an active controller miss an interface it declared, no controller outside the request changes its activity, the hardware is told to run exactly the interfaces the active controllers command, and the reported result matches what happened. After a refused request the system keeps running as before and later requests behave as if the refused one had never been made.",
     ["histories", "configurations", "fault_sequences"], "all histories of switch requests (both strictness levels, duplicates, unknown names, conflicts) with any controller or hardware callback failing",
     "Tests run scripted switches over two or three controllers.",
     ["controller_manager/src/controller_manager.cpp"],
     [("switch_controller_cb, manage_switch, activate_controllers, deactivate_controllers", "controller_manager.cpp")])
prop("C23", "Chained controllers are always consistent and run in dependency order",
     "In every reachable configuration of chained controllers, a controller whose references are used by an active controller is itself active and in chained mode, and a controller that is not so used is not in chained mode once the switch is done. In each cycle a controller runs before every controller whose references it writes and after those whose outputs it reads, for any order of loading and configuring, and the set of loaded controllers is never changed by re-ordering. A switch that would break a chain is refused or adapted as a whole.",
     ["histories", "configurations"], "all acyclic chain topologies, loading/configuring orders and switch histories",
     "Tests use fixed chains with a fixed order of loading.",
     ["controller_manager/src/controller_manager.cpp"],
     [("configure_controller ordering, update_list_with_controller_chain, check_following/preceding, switch_chained_mode", "controller_manager.cpp")])
prop("C24", "A failing controller or hardware is isolated and its fallback takes over",
     "When a controller's update fails or throws, that controller and those chained with it are deactivated in the same cycle, its fallback controllers are activated if they can be, controllers unrelated to it keep running undisturbed, and the failure is reported. When hardware fails or deactivates itself, exactly the active controllers that depend on it (and those chained with them) are deactivated, with the documented difference between failure and self-deactivation. No failed controller is updated again until it is activated anew, no interface stays owned by a controller that is no longer active, and the hardware that keeps running is told exactly which of its interfaces are no longer or newly commanded.",
     ["fault_sequences", "histories"], "all patterns of controller update failures and hardware failures over running systems with chains and fallbacks",
     "Tests inject one failure in one fixed setup.",
     ["controller_manager/src/controller_manager.cpp", HI+"src/resource_manager.cpp"],
     [("ControllerManager::read/update/write failure paths", "controller_manager.cpp")])
prop("C25", "Every active controller is updated at its rate, and no other is updated",
     "In each control cycle the active controllers that are due are updated exactly once, and a controller that is inactive, unconfigured or being switched is not updated. Over any run a controller with a lower rate is updated as often as its rate asks for within one cycle, never more often than the manager itself, and is given as period the time really elapsed since its previous update. The first update after each activation is given a sane period.",
     ["histories", "configurations"], "all manager and controller rates, jittered cycle times, activation histories",
     "Tests check a few rate pairs with ideal timing.",
     ["controller_manager/src/controller_manager.cpp"],
     [("ControllerManager::update", "controller_manager.cpp")])
prop("C26", "Service requests never race with, corrupt or stall the control loop",
     "While the control loop runs, any number of concurrent requests to load, configure, switch, clean up, unload and list may be made in any interleaving: there is no data race, deadlock or use of freed memory, the loop keeps cycling, and each cycle works on one consistent set of controllers. Every request ends with an answer, and an answer that reports success is visible in the next listing.",
     ["schedules", "histories"], "all interleavings of service threads with the real-time loop",
     "Tests call services from one thread while a loop runs, without a race detector.",
     ["controller_manager/src/controller_manager.cpp", "controller_manager/include/controller_manager/controller_manager.hpp"],
     [("RTControllerListWrapper, services_lock_, switch_params_", "controller_manager.cpp")])
prop("C27", "Loading, configuring and unloading answer truthfully and leave no residue",
     "For every history of load, configure, clean up and unload requests, each request succeeds exactly when the controller's state allows it and its callbacks agree, and a failed request leaves the set of controllers and their states as the lifecycle prescribes. Listings report exactly the controllers, states, types, claimed, required and exported interfaces and chain connections that exist at that time. After unloading, nothing of the controller remains and the same name can be loaded again.",
     ["histories", "fault_sequences"], "all histories of management requests with arbitrary controller callback outcomes",
     "Tests run scripted sequences over one or two controllers.",
     ["controller_manager/src/controller_manager.cpp"],
     [("load_controller/configure_controller/cleanup_controller/unload_controller/list_*", "controller_manager.cpp")])
prop("C28", "The spawner brings controllers to the requested state or says that it failed",
     "For every combination of options and every outcome of the services it calls, the controller spawner loads only controllers that are not loaded, configures and activates each in order and only as far as requested, stops at the first failure, and, unless it is interrupted, exits with success exactly when everything requested was done. Its lock is held while it makes requests and always released at the end, and when asked to unload on termination it deactivates and unloads exactly the controllers it had activated when the interrupt came. The unspawner reports success exactly when every controller was unloaded, and the hardware spawner exactly when every component reached the requested state.",
     ["fault_sequences", "configurations", "inputs"], "all option combinations, controller lists and service outcomes, and interruption at any point",
     "The existing Python tests need a running ROS system; here they do not run at all.",
     ["controller_manager/controller_manager/spawner.py", "controller_manager/controller_manager/unspawner.py", "controller_manager/controller_manager/hardware_spawner.py"],
     [("main", "spawner.py, unspawner.py, hardware_spawner.py")])
prop("C29", "Parameter files are attributed to the right controller",
     "For every set of parameter files and every namespace, a file is passed on to a controller exactly when it holds parameters that apply to that controller by the documented name and wildcard rules, in the order given and at most once. The controller type and fallback list sent to the manager are those of the first applicable file that gives them. Files without the required structure are reported as errors and files of other controllers are never used.",
     ["inputs", "configurations"], "all parameter-file contents, namespaces, controller names and file orders",
     "The existing Python tests cover a few files and need a ROS installation.",
     ["controller_manager/controller_manager/controller_manager_services.py"],
     [("get_params_files_with_controller_parameters, get_parameter_from_param_files, set_controller_parameters_from_param_files", "controller_manager_services.py")])
prop("C30", "Command-line tools ask for exactly what the user typed and report what happened",
     "Every command-line verb, client and launch helper and menu of the graphical front end sends exactly one kind of request carrying exactly the names, states, strictness and timeouts given, to the named manager in the right namespace, waits and retries only as configured, and returns success exactly when the manager reported success. A missing or silent service ends in an error after the configured attempts rather than in a false success, and requests are not reordered or duplicated beyond the configured attempts.",
     ["inputs", "fault_sequences", "configurations"], "all verbs, arguments, service outcomes and timeouts",
     "No test of these modules can run here; the upstream tests need a ROS graph.",
     ["ros2controlcli/ros2controlcli/verb/*.py", "ros2controlcli/ros2controlcli/api/__init__.py", "controller_manager/controller_manager/controller_manager_services.py", "controller_manager/controller_manager/launch_utils.py", "rqt_controller_manager/rqt_controller_manager/controller_manager.py"],
     [("service_caller and wrappers", "controller_manager_services.py"), ("main of each verb", "ros2controlcli/verb")])
prop("C31", "Execution statistics are the true statistics of what was measured",
     "After any sequence of measurements, resets and configuration changes, the reported count, mean, minimum, maximum and standard deviation are those of the measurements since the last reset up to rounding, and non-finite measurements never disturb them. The latest value reported is the last one measured. Reading statistics from another thread while they are updated is free of data races.",
     ["inputs", "histories", "schedules"], "all measurement sequences (large, tiny, non-finite), resets, and concurrent readers",
     "No test computes the statistics against an independent model.",
     [HI+"include/hardware_interface/types/statistics_types.hpp"],
     [("MovingAverageStatistics", "statistics_types.hpp")])
prop("C32", "Start-up and shut-down take hardware and controllers through states in order",
     "At start-up each hardware component ends in exactly the state the configuration names (active when nothing is said). Components of one hardware group are all configured before any of them is activated; a component that cannot reach its state is reported and rolled back - when one of a group cannot be configured none of the group is activated, when one cannot be activated those already activated return to inactive - without affecting components outside its group, or ends the start-up if so configured. On shut-down, with the control loop still running, every active controller is deactivated (once, never while it is being updated, and never updated afterwards) and every controller is finalized before its hardware goes away, whatever state it was in and even if some callbacks refuse or fail.",
     ["configurations", "fault_sequences"], "all assignments of initial states to components, all callback outcomes, all controller states at shut-down",
     "Tests start one fixed robot with fixed initial states.",
     ["controller_manager/src/controller_manager.cpp", HI+"src/resource_manager.cpp"],
     [("set_initial_hardware_components_state, shutdown_controllers", "controller_manager.cpp"), ("shutdown_components", "resource_manager.cpp")])
prop("C33", "Diagnostics report the worst condition that really holds",
     "For every set of controllers, hardware components and measured timing statistics, the published diagnostic level is the highest that the configured thresholds and component states justify, no component or controller that exceeds an error threshold or is in a bad state is omitted, and values inside the thresholds are never reported as warnings or errors. The activity message lists exactly the current state of each controller and hardware component.",
     ["inputs", "configurations", "histories"], "all statistics, thresholds, states and rates",
     "Tests only check that messages are produced.",
     ["controller_manager/src/controller_manager.cpp"],
     [("*_diagnostic_callback, publish_activity", "controller_manager.cpp")])
prop("C34", "The control loop keeps its cadence and catches up after overruns without bursts",
     "Under every pattern of short, long and overlong cycles, the start of each periodic cycle is not before its scheduled time, the schedule advances by whole periods, and with overrun handling on a missed deadline skips the missed cycles instead of running them back to back. With blocking hardware a cycle shorter than the minimum is prolonged to it, and with simulated time the loop waits for the simulated clock and ends cleanly when the clock becomes unusable.",
     ["schedules", "histories"], "all patterns of cycle durations and configurations of the loop",
     "There are no tests for the sleeping policies.",
     ["controller_manager/src/sleeping_policies.cpp", "controller_manager/src/ros2_control_node.cpp"],
     [("sleep_for_periodic_cycle, sleep_for_blocking_read_write, sleep_for_sim_time", "sleeping_policies.cpp")])
prop("C35", "Introspection shows live values under their own names and nothing that is gone",
     "At every point of every history each interface of loaded hardware and controllers, each variable a component registers and each statistic of what is loaded is registered for introspection exactly once, under its own name, and shows the value that interface or variable has now; nothing of a refused, removed or unloaded component, controller or description remains registered, so nothing is read after its destruction. Values of a component or controller are published exactly while it is active, also when a transition is refused or fails. Hardware status messages are published on the component's own topic with exactly the contents that the component wrote in that update, and components that declare none, or refuse, publish nothing and are not disturbed.",
     ["histories", "inputs", "fault_sequences"], "all interface types, descriptions (also refused ones), lifecycle histories with any callback outcome, and imports and removals of controllers' interfaces",
     "Tests never look at what is registered or published.",
     [HI+"include/hardware_interface/handle.hpp", HI+"include/hardware_interface/introspection.hpp", HI+"include/hardware_interface/hardware_component_interface.hpp", HI+"src/hardware_component.cpp", HI+"src/resource_manager.cpp", "controller_interface/src/controller_interface_base.cpp"],
     [("registerIntrospection, unregisterIntrospection", "handle.hpp"), ("enable_introspection", "controller_interface_base.cpp"), ("init_hardware_status_message, update_hardware_status_message", "hardware_component_interface.hpp"), ("clear, remove_command_interface", "resource_manager.cpp")])
out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
