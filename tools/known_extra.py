fixed("C03", "d4b8819", "soft limits completely outside the hard limits reached beyond them")
fixed("C04", "b595410", "first cycle worked on an empty limit list (out of bounds) when an update was under way (initRT)")
fixed("C08", "dc7ed7f", "four bar linkage accepted connections without any pair-wise interface")
fixed("C11", "9d26041", "moving a double handle with its own storage left it pointing into the moved-from handle; self-move deadlocked")
fixed("C11", "70fe2a0", "concurrent readers of a bool handle as number raced on the notification flag")
fixed("C31", "99fdd7d", "statistics stayed NaN without an explicit reset and reported 0/max/lowest without samples")
fixed("C31", "2496e66", "readers of hardware statistics copied them without holding the lock (data race)")
fixed("C21", "5007e35", "GPS status/service NaN or out of range: undefined behaviour")
fixed("C21", "0774251", "LED device accepted NaN colors")
fixed("C21", "0ceb0a6", "get_values threw when an interface was not accessible")
fixed("C21", "0aacc79", "default orientation of the pose sensor was a half turn about x")
fixed("C13", "8a7b013", "error() on a finalized component called on_error again and could bring it back to unconfigured")
fixed("C13", "e7f1a60", "an exception thrown by on_error left the component inactive/active and escaped from the read/write cycle")
fixed("C13", "dfd0b01", "a failed asynchronous cycle from before on_configure was reported again after the component had been configured anew")
fixed("C14", "977c0bb", "joint limits of a rejected robot description stayed in force for the next one")
fixed("C14", "a0c832b", "interfaces of a component whose transition failed into unconfigured/finalized stayed available")
fixed("C15", "77c34fb", "DEACTIVATE of one component in write() hid the ERROR of another one in the result")
fixed("C15", "462bdff", "an exception in read/write did not fail the other components of the group")
fixed("C15", "504879c", "data races between the control loop and service threads on the lists of available interfaces; lock inversion in shutdown_components")
known("C15", "group_deactivation_becomes_error", "", "after one component of a group returned DEACTIVATE from write (all components of the group deactivated) the next read cycle treats the retained group state as an error and takes them out of service (unconfigured) - call site ResourceManager::read, update_hardware_component_group_state")

fixed("C28", "5bf9021", "spawner interrupted during bring-up tried to unload controllers it had not activated, or none; list of spawned controllers lost")
fixed("C28", "cdf93d8", "spawner went on after the controller manager refused the parameter file of a controller")
fixed("C29", "68b1aca", "looking a parameter up in an empty list of files raised UnboundLocalError")
fixed("C28", "0a766f8", "hardware_spawner exited with success although components could not be brought to the state")
fixed("C30", "465d0cc", "switch_controllers --switch-timeout was passed on as text")
fixed("C30", "9bd060c", "launch helpers changed the caller's list of controllers")
fixed("C30", "b4affb8", "ports of the controller diagram were separated by the length of their names")
fixed("C30", "5401dbe", "controller diagram: last interface port and first controller port could be merged (delimiter left out between the two lists)")
fixed("C30", "b6644d0", "graphical front end looked the type of a controller that is not loaded up under the wrong parameter name")
fixed("C18", "97de09f", "a mode switch changed the control mode of joints whose name is contained in the name of the requested interface")
fixed("C18", "e0e59f8", "mock joint without a velocity drifted by the following offset in every cycle")
fixed("C18", "ece3e58", "joint with the custom offset interface but without a position command failed every cycle")
fixed("C18", "dc79bc5", "mimic joint with a state its mimicked joint lacks failed every cycle")
fixed("C19", "927cbf8", "update rate could not be raised again by configuring anew after it had been lowered once")
fixed("C19", "03939d1", "cached lifecycle id stayed outdated when read while a transition starts")
fixed("C19", "15eb532", "controller kept its interfaces when its error handler threw")
fixed("C19", "de132fb", "an asynchronous update could start after prepare_for_deactivation had returned")
fixed("C19", "f7b0d13", "an asynchronous controller had no update thread any more after its cleanup was refused (FAILURE, stays inactive)")
fixed("C22", "1a2467d", "a controller listed twice in a switch request conflicted with itself")
fixed("C22", "c3ac010", "chained modes, exported interfaces and asynchronous updates were left wrong by refused, failed and best-effort switches; chains could not be restarted; order of activation")
fixed("C22", "c5eb56d", "a controller was refused although the interface it needs is exported by a controller activated in the same request")
fixed("C22", "3713c03", "interfaces exported by a controller stayed available after its activation failed")
fixed("C22", "49a68d1", "fallback controllers were accepted while the controllers whose interfaces they use are not configured")
fixed("C23", "83a269f", "controllers sharing several chains were updated in an order violating their dependencies")
fixed("C26", "793df0f", "joint limiters looked up interfaces in the control loop while services add or remove interfaces (use after free)")
fixed("C26", "e8502c4", "command limiters looked up states in the control loop while services add or remove interfaces (use after free)")
fixed("C27", "23660ea", "statistics of controllers that failed to load stayed registered after the controllers were gone (use after free when published)")
fixed("C27", "84d71a9", "finalized controllers could not be unloaded")
fixed("C27", "072f15d", "chain connections listed the reference interfaces of other chained controllers")
fixed("C27", "3904357", "claimed interfaces were listed wrong for controllers switched by a failure in the control loop")
fixed("C27", "3856006", "a chainable controller lost its exported interfaces when its cleanup was refused")
fixed("C26", "ccd68d7", "control loop and services raced for the list of controllers (freed or half-written list used)")
fixed("C24", "8f1e5b4", "control loop deadlocked with a service waiting for it after a controller or hardware failure")
fixed("C24", "4a6c011", "hardware failures stopped controllers of earlier activations and missed fallback controllers")
fixed("C24", "acd812e", "hardware deactivating itself stopped controllers that only read it")
fixed("C24", "ba459cb", "controllers chained with those stopped for failing hardware or for fallback controllers stayed active")
fixed("C24", "1a76b7b", "hardware was told to stop the interfaces of an unrelated request when fallback controllers failed to activate")
fixed("C26", "9c9af0f", "switch requests that timed out were cleared while the control loop used them")
fixed("C26", "0c2db9e", "failures in the control loop and switches performed by services changed controllers at the same time")
fixed("C24", "70feebf", "interfaces of asynchronous controllers were released while updating when stopped by the control loop")
fixed("C22", "135bd14", "a controller that refused its deactivation stayed active without its interfaces")
fixed("C24", "7d191ec", "fallback controllers disturbed active controllers and left the controllers they use out of the chained mode")
fixed("C24", "3958993", "control loop ended with an exception when a fallback controller is not configured")
fixed("C26", "4c687ac", "control loop waited for a service loading a controller when hardware changed its state")
fixed("C26", "ed18f49", "services performing switches wrote the execution times of the control loop")
fixed("C26", "2f3ff2c", "interfaces exported by a failed controller stayed registered after unloading it (use after free)")
fixed("C26", "357632c", "controllers were configured, cleaned up or unloaded while active controllers used their exported interfaces (use after free)")
fixed("C33", "69bca8f", "activity was not published when failing hardware or services changed the states of controllers and hardware")
fixed("C32", "86a7830", "controllers were used by the control loop, or left active, while they were shut down")
fixed("C22", "e15645f", "hardware was not told to stop the interfaces of a chain whose activation failed")
fixed("C24", "aea380e", "after failures hardware was told to stop the interfaces of running controllers, or was not told anything")
fixed("C35", "742fe9f", "interfaces of a refused robot description were sampled after their destruction")
fixed("C35", "db50a72", "introspection of hardware that refused its deactivation stayed disabled")
fixed("C35", "25a0eb3", "introspection of controllers was enabled although they are not active, or disabled although they are")
fixed("C35", "e385605", "statistics of a controller's triggers were registered again with every configuration")
fixed("C19", "845402b", "cached lifecycle id stayed outdated when a reader was delayed over several transitions")
