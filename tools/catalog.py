#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run it after editing; it rewrites both)."""
import json, os, sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)

MODELS = ["BouncingBall/model.c", "Dahlquist/model.c", "Feedthrough/model.c", "Resource/model.c",
          "Stair/model.c", "VanDerPol/model.c", "Clocks/model.c", "Roberts/model.c", "StateSpace/model.c"]
F2, F3, CS = "src/fmi2Functions.c", "src/fmi3Functions.c", "src/cosimulation.c"

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mechanism],
                               observe_at=list(observe), hook_needed=hook)))


prop("C01", "FMI 3.0 calls outside the state machine are refused and terminate the FMU",
     "An FMI 3.0 function called in a mode in which the FMU's state machine does not permit it returns Error, and the same call in a permitted mode returns OK and moves the instance to exactly the successor mode of the standard (Model Exchange, Co-Simulation with and without event mode, Scheduled Execution). "
     "After a call has failed with Error the instance accepts only the functions of the Terminated mode until it is reset or freed. "
     "A NULL instance always yields Error.",
     ["histories", "configurations"],
     "every sequence of FMI 3.0 calls up to the exploration bound, for every model, interface type, and event-mode / early-return setting",
     "The tests drive each FMU through one legal call sequence per interface type; no illegal call and no call after an error is ever made.",
     [F3, CS, "include/model.h"] + MODELS,
     [("per-function mask of permitted states", F3), ("error turns the instance into the Terminated state", F3)],
     state=[("mode", "mode of the instance", "include/model.h")],
     observe=["return status of every FMI 3.0 function", "which calls are accepted afterwards"])

prop("C02", "FMI 2.0 calls outside the state machine are refused and terminate the FMU",
     "An FMI 2.0 function called in a state in which the FMU's state machine does not permit it returns Error, and the same call in a permitted state returns OK (or the documented Discard) and moves the instance to exactly the successor state of the standard, for Model Exchange and Co-Simulation. "
     "After a call has failed with Error the instance accepts only the functions of the terminated state until it is reset or freed. "
     "A NULL instance always yields Error.",
     ["histories", "configurations"],
     "every sequence of FMI 2.0 calls up to the exploration bound, for every model and both interface types",
     "The tests drive each FMU through one legal call sequence per interface type; no illegal call and no call after an error is ever made.",
     [F2, CS, "include/model.h"] + MODELS[:6],
     [("per-function mask of permitted states", F2), ("error turns the instance into the terminated state", F2)],
     state=[("mode", "state of the instance", "include/model.h")],
     observe=["return status of every FMI 2.0 function", "which calls are accepted afterwards"])

prop("C03", "A reset instance is indistinguishable from a freshly instantiated one",
     "Whatever an instance has been through (any mode, after errors, after termination, after events), a successful reset makes it behave from then on exactly like a newly instantiated instance of the same FMU with the same instantiation arguments: same start values, same accepted calls, same statuses, events, times and results.",
     ["histories", "configurations"],
     "every call history up to the bound before the reset, and every continuation up to the bound after it; all models, both FMI versions, all interface types",
     "Reset is never called by any test or example.",
     [CS, F2, F3] + MODELS,
     [("reset re-establishes start values and the simulation bookkeeping", CS), ("start values of the model", "*/model.c")],
     observe=["all getters, event information, DoStep outputs and call acceptance after a reset"])

prop("C04", "Saving and restoring the FMU state round-trips exactly",
     "Restoring a saved FMU state, directly or after serialization and deserialization, into the same instance or another instance of the same FMU and kind, brings back exactly the behaviour the saved instance had at the moment of saving: mode, time, values, pending events and all later results. "
     "Saving or serializing changes nothing, a restored state can be restored again any number of times, and a serialized state of the wrong length or a missing state is refused with Error.",
     ["histories", "configurations", "inputs"],
     "every history before saving, between saving and restoring, and after restoring, up to the bound; all models, both FMI versions, all interface types",
     "The examples never save a state; no test restores one.",
     [CS, F2, F3, "include/cosimulation.h"],
     [("copy of the instance into and out of the FMU state", CS), ("serialized size check", F3)],
     observe=["all getters, event information, DoStep outputs and call acceptance after a restore"])

prop("C05", "Instances of the same FMU do not influence each other",
     "Any number of instances of one FMU can be alive at once, and however their calls are interleaved each one returns exactly the statuses, values and callbacks that it would return if it were the only instance; freeing or failing one leaves the others untouched.",
     ["schedules", "histories"],
     "every interleaving of two (and three) bounded call sequences on instances of the same FMU binary, all models and both FMI versions",
     "All tests use a single instance per process.",
     [CS, F2, F3] + MODELS,
     [("all mutable data is stored per instance", CS)],
     observe=["statuses, outputs and callbacks of each instance compared with a solo run"])

prop("C06", "Co-Simulation results do not depend on the communication grid",
     "Dividing the same time interval into communication steps in any other way (each step a multiple of the internal step, or falling between internal steps) and reading variables or saving states at the communication points in any pattern leaves every value at the common communication points identical.",
     ["schedules", "inputs"],
     "every composition of the bounded interval into communication steps for every model and FMI version, with and without intermediate reads, including intervals that contain events",
     "Each example uses one fixed communication step size.",
     [F2, F3, CS] + MODELS,
     [("fixed-step loop inside DoStep", F3), ("fixed-step loop inside DoStep", F2), ("time computed from the step count", CS)],
     observe=["all variables at common communication points"])

prop("C07", "DoStep honours its time contract",
     "DoStep is refused with Error, without advancing time or changing any value, if the current communication point is not where the last step ended, if the step size is not positive, or if the step would pass the stop time (when one is defined). "
     "An accepted step ends at the last internal step that does not pass the requested communication point, unless the FMU terminates or may return early, and the reported last successful time equals the FMU's time variable and never exceeds the requested point by more than rounding. "
     "The early-return flag is set only when early return was allowed and the requested point was not reached.",
     ["histories", "inputs", "configurations"],
     "every bounded sequence of DoStep calls with right and wrong communication points, step sizes (negative, zero, fractions and multiples of the internal step) and stop times; every model, both FMI versions, start times other than zero",
     "Examples call DoStep only with consistent arguments and a fixed step size.",
     [F2, F3, CS],
     [("argument checks of DoStep", F3), ("argument checks of DoStep", F2), ("tolerant comparison of times", CS)],
     observe=["status and outputs of DoStep", "time variable before and after"])

prop("C08", "Co-Simulation events are found, reported and handled exactly once",
     "For every model with events, each time event and each state event inside a Co-Simulation step takes effect at the internal step at which it occurs, exactly once, no matter whether the FMU handles events internally or through event mode and whether early return is allowed; all these configurations give the same trajectory. "
     "With event mode the FMU reports that event handling is needed (and with early return stops at the event); a model that asks for termination makes the step end there and says so (Discard plus terminated status in FMI 2.0, the terminate flag in FMI 3.0).",
     ["histories", "configurations", "schedules"],
     "all communication grids over the bounded interval, all event-mode and early-return combinations, events handled by the importer or left to the FMU; BouncingBall and Stair over start values, and every other model with event support",
     "Two examples run one model with one grid; they do not check when events happen.",
     [F2, F3, CS, "BouncingBall/model.c", "Stair/model.c", "Feedthrough/model.c"],
     [("event detection of the fixed step", CS), ("event handling branches of DoStep", F3), ("event handling of DoStep", F2), ("discrete update of the model", "Stair/model.c, BouncingBall/model.c")],
     observe=["values, time and event flags after every DoStep and UpdateDiscreteStates"])

prop("C09", "Model Exchange and Co-Simulation describe the same system",
     "Integrating a model through the Model Exchange interface with the explicit Euler method on the Co-Simulation internal step grid, handling events as the FMU announces them, gives the same values of all variables at every grid point as Co-Simulation does.",
     ["histories", "inputs", "configurations"],
     "every model with both interfaces, both FMI versions, all combinations of listed start values and parameters, all grid points up to the bound, and every placement of bounded input or parameter changes on the grid",
     "The tests run both interfaces but never compare their results.",
     [F2, F3, CS] + MODELS,
     [("fixed step integrator", CS), ("derivatives, states and event indicators of the model", "*/model.c")],
     observe=["all variables at each grid point through both interfaces"])

prop("C10", "Model Exchange event functions report correct event information",
     "In Model Exchange the event update announces exactly the model's next time event, termination, and whether continuous states changed; event indicators change sign exactly where the model's state events lie; setting states, time and inputs followed by reading gives the derivatives and indicators of the values just set, in any order of calls. "
     "A completed integrator step changes nothing and requests neither event mode nor termination.",
     ["histories", "inputs"],
     "every bounded sequence of set-time, set-states, set-values, event update, completed-step and read calls, over a small value alphabet, for every model with Model Exchange, both FMI versions",
     "The ME examples use one input-free forward simulation and do not check the event information.",
     [F2, F3] + MODELS,
     [("event update, event indicators and derivatives of the model", "*/model.c"), ("event information copied to the caller", F3), ("event information copied to the caller", F2)],
     observe=["outputs of the event update, event indicators, derivatives, states, nominals"])

prop("C11", "Values read are always consistent with the values last set",
     "At any moment, every variable read returns the value determined by the model's documented equations from the current time, states, parameters and inputs, regardless of which variables were set or read before, in what order, and in which calls. "
     "Reading never changes what any later call returns.",
     ["histories", "inputs"],
     "every bounded interleaving of set, get, time/state changes and steps with a small value alphabet for every variable, all models and both FMI versions",
     "The tests set no variables between reads except in one input demonstration.",
     [F2, F3] + MODELS,
     [("recalculation of dependent values after a set", F3), ("recalculation of dependent values after a set", F2), ("equations of the model", "*/model.c")],
     observe=["every getter after every step of the history"])

prop("C12", "Variable lists are transferred element by element within caller's arrays",
     "Getting or setting a list of variables of a type, in any order and with repetitions, has the same effect as accessing them one at a time in that order, and an empty list succeeds without effect. "
     "If the number of values does not match the variables, if a variable does not exist or has another type, or if a required array is missing, the call returns Error. "
     "No call reads or writes outside the arrays the caller passed.",
     ["inputs"],
     "every list of up to three value references (known, unknown, of another type, arrays) with every number of values around the right one, for each get and set function of every model and both FMI versions",
     "Tests pass only correct, mostly single-element lists; nothing checks array bounds.",
     [F2, F3] + MODELS,
     [("iteration over the value references", F3), ("iteration over the value references", F2), ("size checks of the model's accessors", "*/model.c, include/model.h")],
     observe=["status, values and the bytes around the caller's arrays"])

prop("C13", "Variables can be set only when and as the model description allows",
     "A fresh instance has exactly the start values of its model description. "
     "Outputs, constants, calculated values and the independent variable can never be set; in Model Exchange, parameters and discrete variables can be set only in the modes the FMI standard and the variable's variability allow, and out-of-range values are always refused; each refused set returns Error and leaves the variable at its old value.",
     ["inputs", "histories", "configurations"],
     "every variable of every model description, each setter, each reachable mode of each interface type, both FMI versions",
     "Tests set a handful of inputs before and during simulation and never try a forbidden set.",
     MODELS + [F2, F3],
     [("per-variable checks in the model's setters", "*/model.c"), ("mode masks of setters", F3)],
     observe=["status of setters, values read before and after"])

prop("C14", "Feedthrough passes every value of every type through unchanged",
     "For each pair of input and output of the feedthrough model, the output equals the input last set, bit for bit, for every type including special floating point values, extreme integers, strings of every length up to the documented maximum and binaries of every size up to the maximum with arbitrary bytes; longer strings or binaries and illegal enumeration values are refused with Error. "
     "Setting one input never changes any other variable, and the caller's data may be reused as soon as the set returns.",
     ["inputs", "histories"],
     "all values of small types, boundary values of large types, all string and binary lengths 0 to beyond the maximum, all bounded set/get orders, both FMI versions and interface types",
     "One example sets a few inputs once; limits, special values and cross-talk are never tried.",
     ["Feedthrough/model.c", F2, F3],
     [("typed accessors and copy of input to output", "Feedthrough/model.c")],
     observe=["all outputs after every set"])

prop("C15", "State space model follows its matrices for every configured dimension",
     "In configuration and reconfiguration mode the numbers of inputs, states and outputs can be set to any values up to their maxima, larger values are refused, and array sizes of all variables and the number of continuous states follow at once. "
     "For every combination of dimensions, matrices and inputs are stored and returned in row-major order, the derivatives equal A x + B u, the outputs equal C x + D u, and the states start at the declared initial state values.",
     ["configurations", "inputs", "histories"],
     "all dimension triples within the maxima, matrices with distinct entries, configuration before initialization and reconfiguration in mid-simulation, both interface types",
     "One test reconfigures one dimension of a diagonal system (and currently fails); others use the default dimensions.",
     ["StateSpace/model.c", F3],
     [("dimension-aware accessors and equations", "StateSpace/model.c"), ("configuration mode", F3)],
     observe=["statuses, array sizes, values, number of states, derivatives, trajectories"])

prop("C16", "Directional and adjoint derivatives equal the model's Jacobian",
     "Wherever they are offered, directional and adjoint derivatives equal, for every list of unknowns and knowns in any order and every seed, the products of the seed with the analytic Jacobian of the documented equations at the current values; both are linear in the seed, mutually transposed, and do not change the instance. "
     "Calls whose seed or sensitivity lengths do not match are refused, and models without derivatives refuse every non-empty request.",
     ["inputs", "configurations", "histories"],
     "every list of unknowns and knowns up to the bound with unit and mixed seeds, at every state of a small grid, each mode, both FMI versions",
     "No example or test requests derivatives other than through one demonstration program whose output is not checked.",
     [F2, F3, "VanDerPol/model.c", "Roberts/model.c"],
     [("partial derivatives of the model", "VanDerPol/model.c, Roberts/model.c"), ("seed products", F3), ("seed products", F2)],
     observe=["sensitivities returned"])

prop("C17", "Scheduled execution is correct under every permitted preemption",
     "For every schedule in which higher-priority clocks may preempt lower-priority model partitions at any point not protected by the preemption lock, each activation is counted exactly once in its own counter and in the total, the computed outputs equal those of some serial order of the activations, and the importer is notified exactly once for each tick of the output clock. "
     "Lock and unlock callbacks are always paired, never nested, and not held while the importer is notified; the highest-priority partition needs no lock.",
     ["schedules"],
     "every placement of up to the bounded number of preemptions at instruction-level points of the partitions, every order of activations up to the bound, nested over all priorities",
     "The synchronous and threaded example programs run one timing-dependent schedule and check nothing.",
     ["Clocks/model.c", F3],
     [("preemption lock around shared counters", "Clocks/model.c")],
     state=[("counters and output clock", "ticks per clock and in total, output clock", "Clocks/model.c")],
     observe=["tick counters, outputs, clock and interval getters, callbacks"])

prop("C18", "Logging follows the enabled categories and always explains errors",
     "Messages of a category reach the importer's logger, with its environment pointer and instance name, exactly when that category is enabled by instantiation (error messages always are) or by the latest debug-logging call; with a category disabled no message of it is sent, and an unknown category is refused. "
     "Every call on a live instance that returns Error because of a wrong argument, mode or value sends at least one error message while error logging is enabled, and successful calls never send an error message. "
     "A message, formatted the way the logger of that FMI version formats it, shows texts given by the importer (category names, resource locations) unchanged.",
     ["histories", "configurations", "inputs"],
     "every sequence of debug-logging calls up to the bound with every list of known, unknown and missing categories, followed by every kind of failing and succeeding call, both FMI versions",
     "The tests only print the log.",
     [CS, F2, F3],
     [("category switches and message dispatch", CS)],
     observe=["logger callback"])

prop("C19", "Running out of memory is reported and never corrupts or leaks",
     "If any memory allocation made inside an FMU or importer call fails, the call reports failure (NULL or Error) or still completes correctly, nothing crashes, no memory allocated by the failed call is lost, and the instance can still be freed, or used again after a reset where that needs no memory.",
     ["fault_sequences", "histories"],
     "every single allocation failure (and every suffix of failing allocations) at every allocation point of every call in the bounded histories, all models, both FMI versions, and the importer library",
     "Allocation failures never happen in the tests.",
     [CS, F2, F3, "src/FMI.c", "src/FMI2.c", "src/FMI3.c"],
     [("checks of allocation results", CS), ("checks of allocation results", "src/FMI.c")],
     observe=["return values, heap contents after free, later behaviour"])

prop("C20", "Every history is memory safe and freeing releases everything",
     "Along every call history, legal or not, an FMU touches only its own memory and the buffers of the current call, never reads uninitialised or freed memory, and keeps no reference to caller data beyond the call; freeing the instance and the saved states releases every byte the FMU allocated, and freeing a NULL instance or NULL state does nothing.",
     ["histories", "configurations"],
     "every bounded call history ending in free, for all models, FMI versions and interface types, with guarded heap and caller buffers",
     "Tests are built without any memory checking and run one history each.",
     [CS, F2, F3] + MODELS,
     [("allocation and release of the instance and FMU states", CS)],
     observe=["guarded allocator, sanitizer, live allocations after free"])

prop("C21", "Instantiation accepts exactly valid and supported requests",
     "Instantiation succeeds if and only if the instance name is non-empty, the instantiation token matches the model description, and the requested interface type and options are supported by the FMU (and, for FMI 2.0, callback functions with a logger are given); otherwise it returns NULL, allocates nothing, and explains a wrong name, token or option to the logger if there is one. "
     "A new instance reports the model's start values and uses the instance name and environment given in all callbacks.",
     ["inputs", "configurations"],
     "the full product of instance names, tokens, interface types, flags, missing callbacks and resource paths from a small alphabet including NULL and empty, for every model and both FMI versions",
     "Tests instantiate with valid arguments only.",
     [CS, F2, F3],
     [("argument validation at instantiation", CS), ("interface type guards", F3)],
     observe=["return value, logger, allocations"])

prop("C22", "Intermediate update reports every internal step truthfully",
     "During a Co-Simulation step with an intermediate-update callback the FMU calls it exactly once per internal step, in increasing time order, with the importer's environment, the time of that internal step, and flags stating that values may be read, the step is finished and it cannot be ended early; values read inside the callback are those of that moment. "
     "Providing a callback, or reading inside it, does not change any result, and without a callback nothing is called.",
     ["schedules", "inputs", "configurations"],
     "all communication grids up to the bound, with reads at every subset of callback invocations, for all FMI 3.0 Co-Simulation models, with and without event mode and early return",
     "One example passes a callback and ignores what it reports.",
     [CS, F3],
     [("callback at the end of each internal step", CS)],
     observe=["arguments and order of callback invocations, values read inside"])

prop("C23", "The resource model reads its file from every legal resource location",
     "The value of the resource model is the first character of the file in the resource location, for every legal way of writing that location (FMI 3.0 path with trailing separator; FMI 2.0 file URI with one or three slashes and any characters percent-encoded), for any path length. "
     "A missing, empty or over-long location, a missing file or an unsupported URI makes leaving initialization fail with Error instead of returning a value, and nothing is written or read out of bounds.",
     ["inputs"],
     "all spellings of the location from a small grammar (schemes, slash counts, each byte plain or encoded in upper and lower case), all path lengths around the internal limits, every first byte of the file",
     "The tests use one resource path.",
     ["Resource/model.c", CS],
     [("location decoding and file access", "Resource/model.c")],
     observe=["status and value after initialization"])

prop("C24", "The binary does what its model description declares",
     "Every capability declared in a model description is honoured by its binary: interface types, event mode, state saving and serialization, directional and adjoint derivatives, instantiation token, numbers of continuous states and event indicators, variable types, dimensions and start values, dependencies of outputs and derivatives, and the fixed internal step size; interface types not declared are refused.",
     ["configurations", "inputs"],
     "every attribute and every variable, unknown and dependency entry of all shipped model descriptions, each exercised on the binary",
     "The tests validate the descriptions alone and never compare them to the binary.",
     ["*/FMI2.xml", "*/FMI3.xml", "*/config.h"] + MODELS,
     [("model description", "*/FMI2.xml, */FMI3.xml"), ("model configuration", "*/config.h")],
     observe=["behaviour of the binary versus the parsed description"])

prop("C25", "Path and URI helpers of the importer are exact",
     "Converting an absolute path to a file URI yields a valid URI whose decoding gives back exactly the original path, for every byte value and every length, and fails without writing out of bounds when the destination is too small. "
     "The platform binary path is the FMU directory, the version's platform folder and the library name, for every directory spelling with or without trailing separator and every buffer size, or an error.",
     ["inputs"],
     "every byte value in every position class, all path lengths around the buffer sizes, every destination size from zero up, FMI 1, 2 and 3",
     "Examples convert one fixed path.",
     ["src/FMI.c", "include/FMI.h"],
     [("percent encoding", "src/FMI.c"), ("path composition", "src/FMI.c")],
     observe=["returned status and destination bytes"])

prop("C26", "The importer's call log shows every call completely",
     "Each call logged by the importer library is one line with the function's name and all its arguments in order, with the status the FMU returned: scalars, texts, binary data, value references, values of variables, continuous states, derivatives, nominal values and event indicators by their values after the call (16 significant digits for double, 7 for float), all other arrays by their address. "
     "The line is complete for every length of text and every number of values, and appending to the log buffer never loses, repeats or overruns a character.",
     ["inputs", "histories"],
     "every sequence of appended text lengths crossing the buffer's growth boundaries, every type and array length up to beyond the boundaries, every wrapped function",
     "Logs are written by the tests but never read.",
     ["src/FMI.c", "src/FMI2.c", "src/FMI3.c"],
     [("growing message buffer", "src/FMI.c"), ("log statements of the wrappers", "src/FMI3.c, src/FMI2.c")],
     observe=["log callback of the importer"])

prop("C27", "The importer passes calls through unchanged and keeps track of the mode",
     "Every wrapper of the importer library calls exactly the FMU function of the same name once, with the arguments it was given, writes back exactly what that function returned, and returns its status. "
     "In any sequence of legal mode-changing calls that the FMU accepts, the importer's record of the instance's mode is the mode the FMI standard prescribes, and no other call and no call for another instance changes it. "
     "Messages of the FMU reach the importer's message callback with the instance, status, category and text the FMU gave, FMI 2.0 messages formatted and up to the maximum message length.",
     ["inputs", "histories"],
     "each wrapper with every status the FMU may return and pairwise distinct arguments and results; all bounded sequences of mode-changing calls, alone and beside another instance",
     "The tests exercise only the success path of about half of the wrappers and check no argument.",
     ["src/FMI2.c", "src/FMI3.c", "include/FMI2.h", "include/FMI3.h"],
     [("wrapper functions", "src/FMI2.c, src/FMI3.c")],
     observe=["arguments received by a recording FMU, values returned by the importer"])

prop("C28", "Loading an incomplete or unsuitable FMU fails cleanly",
     "Loading a library that is missing, is not a library, or lacks any function that the requested FMI version and interface type need reports an error instead of crashing or calling a missing function, and everything acquired is released when the importer instance is freed. "
     "A library that has all needed functions loads, and unloading and loading again works any number of times.",
     ["fault_sequences", "configurations", "histories"],
     "every single missing function of FMI 2.0 and FMI 3.0 for every interface type, missing and malformed files, and every bounded sequence of load, instantiate, use, free instance, unload",
     "The tests load complete FMUs once per process.",
     ["src/FMI.c", "src/FMI2.c", "src/FMI3.c"],
     [("symbol loading", "src/FMI2.c, src/FMI3.c"), ("library loading", "src/FMI.c")],
     observe=["returned status, log callback, liveness, released memory"])

prop("C29", "The FMUs reproduce their published reference results",
     "Simulating each model with its default start values over its default experiment gives, at every point of the published reference result, the listed values within the printed precision, identically for FMI 2.0 and FMI 3.0.",
     ["configurations", "histories"],
     "every model with a reference result, every row of it, both FMI versions",
     "The tests run the simulations but compare nothing with the reference results.",
     MODELS + [F2, F3, CS],
     [("model equations and solver", "*/model.c"), ("solver", CS)],
     observe=["outputs at the reference time points"])

prop("C30", "FMI 2.0 and FMI 3.0 versions of a model behave identically",
     "For every model offered in both versions, the same stimulus (start values, parameters, inputs, communication steps or Model Exchange calls) applied through FMI 2.0 and FMI 3.0 gives identical values of all variables, event times and termination at every point.",
     ["histories", "inputs", "configurations"],
     "every bounded stimulus over the common alphabet for BouncingBall, Dahlquist, Feedthrough, Resource, Stair and VanDerPol, both interface types",
     "The versions are tested in separate runs and never compared.",
     [F2, F3, CS] + MODELS[:6],
     [("shared model and solver code behind two interfaces", CS)],
     observe=["all variables and event information through both interfaces"])

prop("C31", "Clock ticks and interval changes are reported exactly once",
     "In scheduled execution a tick of the output clock is reported by the first reading of that clock after it and by no later one, and a newly known or changed interval of the countdown clock is reported as changed, with its value, by exactly one reading, as unchanged afterwards and as not yet known before. Activations that make the output clock tick or change the interval notify the importer exactly once, no other call notifies it, and nothing but reading (or a reset) makes an unreported tick or interval disappear. Clocks that cannot be read, intervals that are not offered and partitions that do not exist are refused with Error.",
     ["histories", "inputs"],
     "every sequence of activations (at times around the one that sets the interval), readings, sets, detours, saves and restores up to the bound, with and without logging",
     "The tests run one fixed schedule and do not look at clock readings or intervals.",
     ["Clocks/model.c", F3],
     [("partitions set the output clock and the interval qualifier, readings consume them", "Clocks/model.c"), ("list access to clocks and intervals", F3)],
     observe=["GetClock, GetIntervalDecimal, clock update callback, SetClock and ActivateModelPartition statuses"])

prop("C32", "Output derivatives are those of the model's equations",
     "Where derivatives of outputs are offered, the first derivative of each output at the current communication point equals the right-hand side of the model's equations for the current values, for every list of outputs in any order and with repetitions, also right after an event, an internal step in between communication points, and termination. Orders other than the first, variables without derivative, a wrong number of values and missing arrays are refused with Error without writing outside the caller's arrays, models without output derivatives refuse every request for one, and asking never changes the instance.",
     ["histories", "inputs", "configurations"],
     "every division of a window of internal steps with bounces from a grid of start values, every list of up to four outputs, every order from a boundary set, both FMI versions and all event configurations",
     "No test calls the function.",
     ["BouncingBall/model.c", F2, F3],
     [("derivative per output taken from the states", "BouncingBall/model.c"), ("list access with orders", F3)],
     observe=["fmi2GetRealOutputDerivatives, fmi3GetOutputDerivatives"])

prop("C33", "A refused call leaves every value as it was",
     "When a call on an instance is refused with Error because of its mode, its arguments or its values, the time and all variables, states, derivatives and event indicators that can still be read afterwards are exactly those of before the call; only the variables named in a refused list of assignments may already have their new values. A refused call on a missing instance changes no other instance.",
     ["histories", "inputs", "configurations"],
     "every function with right and wrong arguments in every reachable condition up to the bound and along whole experiments, for all FMUs, versions and interface types",
     "The tests issue no refused calls.",
     [F2, F3, CS] + MODELS,
     [("checks before effects in each function", F3), ("checks before assignments in each model", MODELS[0])],
     observe=["all readable values after the refused call"])

prop("C34", "Results do not depend on the start time",
     "For every model whose equations do not contain the time (all but the stair and the clocked model), moving the start time, and with it the stop time and all communication points or times that are set, by any amount moves the reported times by that amount and changes nothing else: statuses, events, termination, and values of all variables stay identical.",
     ["histories", "inputs", "configurations"],
     "every bounded history and two whole experiments per configuration, with eight shifts of the start time of both signs",
     "All tests start at time zero.",
     [F2, F3, CS] + [x for x in MODELS if "Stair" not in x and "Clocks" not in x],
     [("time is computed from start time and number of internal steps", CS)],
     state=[("time base", "start time, internal steps taken, next communication point", "ModelInstance")],
     observe=["time, last successful time, all variables and statuses of both runs"])

prop("C35", "Informative arguments do not influence results",
     "Arguments that only inform the FMU or ask for information do not change any status, value, time or event: logging and its categories, visibility, tolerance, a stop time that is not reached, the instance name, the environment, a resource location that the model does not use, the absence of an optional logger or of optional callback functions, required intermediate variables, an intermediate-update callback, and the promise not to return to earlier states.",
     ["histories", "configurations"],
     "every bounded history and two whole experiments per configuration, executed with each of twelve variations of these arguments beside the plain one",
     "The tests use one fixed set of these arguments.",
     [F2, F3, CS] + MODELS,
     [("arguments stored at instantiation and initialization", CS)],
     observe=["statuses and values of all calls of both runs"])

prop("C36", "Event iteration ends and settles",
     "In Event Mode with at most one time event due, repeated event updates end within a few iterations with no further update needed, and from then on each further update at the same time changes no variable, reports no change of states, and announces the same next event. In particular one event takes effect once, however often the importer asks for an update.",
     ["histories", "inputs", "configurations"],
     "every event-mode condition reachable within the bound, along whole experiments, and over a wide grid of states, parameters and times around the events, Model Exchange and Co-Simulation with event mode",
     "The tests follow the importer's loop, which never asks for a further update.",
     ["BouncingBall/model.c", "Stair/model.c", F2, F3],
     [("event condition must no longer hold after its event was handled", "BouncingBall/model.c")],
     observe=["event information and all variables after each update"])

prop("C37", "FMI 2.0 status queries tell the truth about the last step",
     "After any sequence of Co-Simulation steps, accepted, refused or ended by the model, the last successful time reported by FMI 2.0 equals the time variable, and the terminated status is true exactly when the model has asked for termination. Every other combination of query function and status kind is answered with Discard, queries outside of the step and terminated states are refused with Error, and queries change nothing.",
     ["histories", "inputs"],
     "every division of windows with events into steps of quarters of the internal step from three start times, with refused steps, termination and reset, and every query with every kind after each",
     "The tests use FMI 3.0 results or look at the trajectories only.",
     [F2, CS, "Stair/model.c", "BouncingBall/model.c"],
     [("status kinds answered from time and termination flag", F2)],
     observe=["fmi2GetStatus, fmi2GetRealStatus, fmi2GetIntegerStatus, fmi2GetBooleanStatus, fmi2GetStringStatus"])

prop("C38", "Histories that lead to the same condition continue alike",
     "Two histories of an FMU that end in the same mode, at the same time and communication point, with the same states, parameters, inputs and announced events cannot be told apart by any later calls. Repeated or overwritten assignments, the order of independent assignments, readings, detours through other modes and resets leave no hidden trace.",
     ["histories", "configurations"],
     "all pairs of bounded histories that end in the same condition, continued with every call up to the bound, for all FMUs, versions and interface types",
     "The tests run one history per model.",
     [F2, F3, CS] + MODELS,
     [("cached values, saved indicators and dirty flags must follow the visible state", CS)],
     state=[("hidden state", "cached derived values, previous event indicators, dirty flag", "ModelInstance")],
     observe=["results of all later calls"])

prop("C39", "The sources in an FMU build the same FMU",
     "The source files, preprocessor definitions and model identifier that an FMU declares for building it from its bundled sources are sufficient: with the FMI headers alone they compile, and the library exports every function of the declared FMI version under the declared prefix. "
     "The FMU built that way cannot be told apart from the shipped binary by any calls: statuses, values, flags and log messages are identical, whatever the compiler and its optimisation.",
     ["configurations", "histories", "programs"],
     "every FMU of both FMI versions, every listed build (two compilers, three optimisation levels, with and without an own function prefix), every interface type, logging on and off, all call sequences up to the bound and four whole experiments",
     "The tests run only the binary that the build produced; the sources in the FMU and their build description are never used.",
     [F2, F3, CS, "include/model.h"] + MODELS + [m.replace("model.c", "config.h") for m in MODELS] + [m.replace("model.c", "buildDescription.xml") for m in MODELS],
     [("list of sources, definitions and identifier", "*/buildDescription.xml"), ("function prefix from the model identifier", F3), ("all sources compiled apart or together", CS)],
     state=[("build", "compiler, optimisation, prefix", "the FMU's sources folder")],
     observe=["compiler and linker result", "exported functions", "results and messages of every call compared with the shipped binary"])

prop("C40", "Manifests of layered standards agree with the FMU",
     "Each layered-standard manifest in an FMU names the standard of its folder, only files that are in the FMU, and only result columns that are variables. "
     "The DAE manifest of an FMU holds for the binary: the enabling parameter switches the formulation in every permitted mode, each unknown changes with exactly the declared knowns and by a constant factor where declared constant, nominal values agree, and there are as many residuals as algebraic variables. "
     "Where the residuals are solved for the algebraic variables, the state derivatives and event indicators are those of the ODE formulation, whatever was set or switched before.",
     ["configurations", "inputs", "histories"],
     "every manifest of every FMU; every declared unknown with every state and algebraic variable at every point of a grid, in Initialization Mode and Continuous-Time Mode; every sequence of switching the formulation, setting and reading up to the bound",
     "No test reads the manifests or enables the DAE formulation.",
     ["Roberts/model.c", "Roberts/config.h", "Roberts/fmi-ls-dae.xml", F3] + [m.replace("model.c", "fmi-ls-ref.xml") for m in MODELS if "Clocks" not in m],
     [("choice of formulation", "Roberts/model.c"), ("residual and algebraic variable", "Roberts/model.c"), ("declared unknowns and dependencies", "Roberts/fmi-ls-dae.xml")],
     state=[("formulation", "whether the algebraic variable is set or calculated", "Roberts/model.c")],
     observe=["values of all unknowns and knowns", "existence and columns of the named files"])

prop("C41", "An FMU behaves the same called directly, loaded or linked",
     "Driven through the importer library, an FMU gives the statuses, values, messages, intermediate updates and lock calls that it gives when its functions are called directly. "
     "An importer compiled with the function prefix of an FMU and linked with the FMU's sources builds, and behaves and logs its calls like an importer that loaded the shared library.",
     ["histories", "configurations"],
     "every FMU, version and interface type, with logging on and off; every sequence of calls up to the bound from a new, an initializing and a running instance, legal or not, and whole experiments",
     "The tests drive FMUs through the importer only along complete simulations, and never link one.",
     [F2, F3, CS, "src/FMI.c", "src/FMI2.c", "src/FMI3.c", "include/FMI.h", "include/FMI2.h", "include/FMI3.h", "include/fmi2Functions.h", "include/fmi3Functions.h"],
     [("resolving functions by prefix or from the library", "src/FMI2.c, src/FMI3.c"), ("forwarding of calls and callbacks", "src/FMI2.c, src/FMI3.c")],
     state=[("importer mode", "mode the importer tracks for the instance", "include/FMI.h")],
     observe=["statuses and values of all calls", "messages and callbacks", "logged function calls"])

# ---------------------------------------------------------------- manifest
CHECKS = {}
NOT_APPLICABLE = {}
SETUP = "bash ./setup.sh"
NOTES = ""
exec(open(os.path.join(HERE, "checks_registry.py")).read())

MCLEVEL = "model_checking"


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    checks = []
    na = []
    for p in P:
        i = p["id"]
        if i in CHECKS:
            c = CHECKS[i]
            d = dict(property=i, quick_cmd="bash ./check.sh %s" % i, thorough_cmd="bash ./check.sh %s" % i,
                     evidence_file="evidence/%s.json" % i,
                     technique=c["technique"], level=c.get("level", MCLEVEL), level_note=c["note"])
            checks.append(d)
        else:
            na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, "no check built yet")))
    m = dict(version=1, setup_cmd=SETUP, checks=checks, not_applicable=na, notes=NOTES)
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print("properties", len(P), "checks", len(checks), "not applicable", len(na))


main()
