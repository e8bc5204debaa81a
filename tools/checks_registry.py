BFS = ("explicit-state breadth-first search on the real FMU binaries: the memory image of the instance and a reference model form the state, "
       "every call of the alphabet is tried in every reachable state, each result is compared with the reference")
TWIN = ("explicit-state exploration of pairs of memory images of the real FMU binaries: both histories are continued with every call of the alphabet "
        "in every reachable pair and must answer alike (results, callbacks, messages); pairs with equal memory are not explored further")
CHECKS = {
    "C01": dict(technique=BFS, note="all reachable states of the bounded alphabet (explored to a fixpoint), from four start times, all interface types and options of all nine FMI 3.0 FMUs; plus every call after up to 120 points of four whole experiments (150 steps) per configuration; after every kind of failing call (wrong mode, variable, value, number, missing array, unreadable file, failed event) from every condition within six calls the instance must be terminated; every edge is executed on the real library"),
    "C02": dict(technique=BFS, note="all reachable states of the bounded alphabet (explored to a fixpoint), from four start times, both interface types of all six FMI 2.0 FMUs; plus every call after up to 120 points of four whole experiments per configuration; after every kind of failing call from every condition within six calls the instance must be terminated; every edge is executed on the real library"),
    "C07": dict(technique=BFS, note="all sequences of legal and illegal steps within ten internal steps of seven start/stop time pairs, targets on a grid of a tenth of the internal step; illegal and legal steps after every call of four whole experiments; plus runs of 3,000 and 200,000 internal steps from several start times and single steps of up to 1,200 time units"),
    "C08": dict(technique=BFS, note="all divisions of windows of 5 to 20 internal steps that contain the events, and coarser divisions of windows of 80 to 1,200 internal steps with several events, from start values placed before, on and after the events (slow, fast and upward), six start times, for all event configurations"),
    "C10": dict(technique=BFS, note="all call sequences over finite grids of times and states from four start times on both sides of the events (fixpoint for most models, depth 5 to 7 for Feedthrough and StateSpace); plus every combination of a wide grid of states and parameters, and four whole experiments with every variable compared after each call"),
    "C11": dict(technique=BFS, note="all orders of set, read, step and mode calls over two values per variable (fixpoint; depth bound for Feedthrough and StateSpace); plus every combination of wide grids of states and parameters, with internal steps, and four whole experiments with every variable compared after each call"),
    "C13": dict(technique=BFS, note="in every reachable mode every value reference (declared or not) with every setter and boundary values, followed by reading everything; texts of up to 4,096 characters"),
    "C14": dict(technique=BFS, note="every 8- and 16-bit value, boundary values of the wider types, all lengths 0..300, in every mode; plus all orders of three sets"),
    "C15": dict(technique=BFS, note="all 216 dimension triples and all 46,656 reconfigurations between them, for each interface"),
    "C16": dict(technique=BFS, note="all lists of up to three unknowns and knowns with unit and mixed seeds and wrong lengths, lists of up to 13 unknowns and 12 knowns, at several points of the state space, in every mode; unit seeds over a wide grid of states and parameters and along four whole experiments"),
    "C03": dict(technique=TWIN, note="reset after every state reachable with a rich alphabet (up to 60,000 states per configuration), each distinct image after the reset compared with a new instance over all continuations of up to 10 calls; also reset after every call of four whole experiments, once and after a previous experiment; up to 70 resets in a row; all changes of the StateSpace dimensions before the reset; three logging settings"),
    "C04": dict(technique=TWIN, note="up to 4,000 saved states per configuration and 600 more from each of several starts close to events, restored after every continuation of up to two calls, directly, serialized, repeatedly and into other instances; compared with the saved instance over all continuations of up to 6 calls; along four whole experiments a state saved at any of about 100 points is restored at any later one, with all of them alive at once; up to 80 saves and restores in a row; all pairs of StateSpace dimensions"),
    "C05": dict(technique=TWIN, note="interleavings of two and three instances of every FMU and pair of interface types (breadth-first, up to 15,000 joint states each), also with instances created later and with logging switched, all interleavings at 36x36 points of two whole experiments, and 70 instances at once, compared with the same calls on a single instance"),
    "C06": dict(technique="explicit-state exploration of all communication grids on the real FMU binaries, memory images as states; values at common points compared between all paths", note="all divisions of windows of 8 to 14 internal steps into steps of a half to five internal steps, with five patterns of reading, saving and restoring at each point; windows of 60 to 70,000 internal steps with coarser steps"),
    "C09": dict(technique="explicit-state exploration of one Model Exchange and one Co-Simulation instance in lockstep on the real FMU binaries (joint memory image as state); all variables compared at every grid point", note="all combinations of listed start values and parameters, up to 300 grid points (3,500 for the bouncing ball; 70,000 in single runs), every placement of up to two input or parameter changes within the first 12 grid points"),
    "C12": dict(technique=BFS, note="every list of up to three value references (all variables of the type, unknown ones and ones of another type), every number of values around the right one, missing arrays and elements, lists naming all variables with up to 99 entries and an unknown one at the start, middle or end, for each get and set function in each mode"),
    "C18": dict(technique=BFS, note="reference model extended by the logging switches; every list of up to two (from Instantiated: three) known, unknown, empty and missing categories followed by every function with right and wrong arguments and values, depth 5 to 6; the same from up to 60 points of four whole experiments with each combination of categories enabled"),
    "C21": dict(technique="exhaustive enumeration of the product of instantiation arguments on the real FMU binaries against the acceptance rule; start values and callbacks of each new instance compared with the reference model", note="nine names (and names of up to 10,000 characters), all single-character mutations of the token, all interface types and option combinations, five resource locations, lists of up to 300 required intermediate variables, missing logger or callback functions: about 600,000 instantiations"),
    "C22": dict(technique=BFS, note="all grids of 5 to 14 internal steps with steps of a half to three internal steps and reads in every subset of the callbacks, with and without callback, all event configurations; plus whole experiments with reads in all, none or every third callback"),
    "C23": dict(technique="exhaustive enumeration of resource locations on the real FMU binaries with files created for the purpose; oracle is the first byte of the file", note="all 256 first bytes, every byte in directory names plain and encoded, 48 path lengths around buffer limits, missing files, wrong schemes and relative locations: about 55,000 locations"),
    "C30": dict(technique="explicit-state exploration of one FMI 2.0 and one FMI 3.0 instance in lockstep on the real FMU binaries (joint memory images as state); results of every call and all variables compared", note="breadth-first over all stimuli of the common alphabet, up to 120,000 joint states per variant (fixpoint for most), several start values and times per model"),
    "C19": dict(level="fault_enumeration", technique="exhaustive fault enumeration on the real FMU binaries: every allocation of every call, in every reachable state up to the bound, fails once alone and once together with all later ones; the memory image is restored before each", note="up to 800 reachable states per configuration (4,000 in the thorough tier); after each failure status, messages, leaks, the untouched rest of the heap, other saved states and the continued use of the instance are checked"),
    "C20": dict(technique="exhaustive re-execution of all bounded call histories under the address and undefined-behaviour sanitizers, and explicit-state exploration of pairs of runs that differ only in the content of uninitialised memory; all memory of the FMU lies in an arena with guarded blocks, all caller buffers are exact and guarded", note="all calls of the full alphabet (right and wrong arguments) up to depth 3 beyond each legal start history of every FMU and interface; saved states alone up to three further calls with two of them held; everything freed after each distinct state"),
    "C24": dict(technique="exhaustive enumeration over every attribute, variable, unknown and dependency entry of all model descriptions, each exercised on the real FMU binaries; the oracle is the parsed description", note="every variable with every type and wrong sizes in each mode, all assignments of known variables from a grid of seven values for each declared dependency, all sequences of five activations and inputs of the clocked model, every declared capability in every mode"),
    "C29": dict(technique="explicit-state exploration on the real FMU binaries of all paths through the points of the published result (memory images as states), every row compared", note="every row of every published result; next communication point one, two or ten rows on or the end, in all combinations; both FMI versions, with and without event mode, early return and stop time"),
    "C17": dict(technique="explicit-state exploration of schedules on the real Clocks binary, compiled so that every access to its memory is a point at which the harness may run partitions of higher priority; each outcome compared with all serial orders of the reference partitions", note="from all states reachable by six serial activations, every placement of up to three preemptions (nested, four in the thorough tier) in one activation, then every single preemption in a further one; importer reads nothing, the clock, or clock and interval in the notification"),
    "C25": dict(technique="exhaustive enumeration of inputs and destination sizes on the real importer library, destinations ending at an unmapped page; the oracle decodes the URI and composes the path", note="every byte in ten position classes, all pairs of bytes, all patterns of plain and encoded characters up to length 7, all lengths to 2,200, directories over six characters up to length 5; for each every destination size (or those around the needed one)"),
    "C26": dict(technique="explicit enumeration of call histories on the real importer library with a recording FMU; the oracle prints each call from a table of signatures, the log buffer is compared with the concatenation of everything appended, all its memory lies between guarded blocks", note="every wrapper with every status, counts 0..3 of every array, array lengths to 520, text lengths to 2,200; every fill level of the buffer to 2,150 followed by every critical length and every type; all sequences of four appends from 22 critical ones"),
    "C27": dict(technique="explicit enumeration of call histories on the real importer library with a recording FMU: arguments received, results returned and the recorded mode are compared with a table of signatures and the FMI mode graph, alone and beside an instance of the other FMI version", note="every wrapper with every status, counts 0..3 of every array, small and boundary values, with and without log; all legal sequences of up to seven mode changes, each accepted with OK or Warning; every other function in every mode; all combinations of instantiation options, also with an importer instance used before for another version or interface type"),
    "C28": dict(technique="explicit enumeration of load, instantiate, use and free histories on the real importer library; each function in turn is hidden by the harness's dynamic loader functions, which also count loaded libraries, while the arena counts memory", note="every function missing for each version and interface in nine histories, thirteen kinds of unsuitable file, all histories of up to eight steps, with and without callbacks"),
    "C31": dict(technique=BFS, note="all sequences of activations of the three partitions (up to 16 in total, 31 with running times), readings, sets, refused calls, detours, resets; saving and restoring in every state; notifications counted"),
    "C32": dict(technique=BFS, note="all divisions of 40 internal steps into steps of a half, one and three internal steps, and a long one, from 32 start conditions; every list of up to four outputs, boundary orders, wrong counts, missing arrays; all variables read in every state"),
    "C33": dict(technique="explicit-state exploration of the real FMU binaries: in every reachable condition every call of the full alphabet is made and, if it is refused, everything readable is compared with what was there before", note="up to 2,500 reachable conditions per configuration (600 for Feedthrough) and 120 points of four whole experiments, about 700 calls in each"),
    "C34": dict(technique="explicit-state exploration of pairs of runs of the real FMU binaries that differ in the start time (joint memory images as state); all results and variables compared after each call", note="eight shifts, up to 10,000 joint states per configuration and shift (2,500 for Feedthrough and StateSpace), and four whole experiments"),
    "C35": dict(technique="explicit-state exploration of pairs of runs of the real FMU binaries that differ in one informative argument (joint memory images as state); all results and variables compared exactly after each call", note="23 variations, up to 4,000 joint states per configuration and variation (1,000 for Feedthrough and StateSpace), and four whole experiments; a step of 3,000 s"),
    "C36": dict(technique="explicit-state exploration of the real FMU binaries: from every reachable event-mode condition the update is repeated and everything readable compared", note="up to 60,000 reachable conditions per configuration (10,000 for Feedthrough and StateSpace), four whole experiments, and a grid of 3,456 states and parameters of the ball and 117 counters and start times of the stair"),
    "C37": dict(technique=BFS, note="all divisions of up to 40 internal steps (60 for the stair) into steps of 1 to 28 quarters of an internal step, three start times, with and without stop time; all 25 queries in every state"),
    "C38": dict(technique=TWIN, note="up to 12,000 reachable images per configuration (4,000 for Feedthrough and StateSpace), grouped by the condition the reference assigns to them; each compared with the first of its group over all continuations of up to 4 calls; cycles of calls repeated up to 300 times"),
    "C39": dict(technique=TWIN,
                note="Every FMU is rebuilt from its own sources as declared (gcc -O0 and -O3, clang -O2, plain export names) and explored in lockstep with the shipped binary: all calls up to the bound in every reachable condition plus four whole experiments, results bit-identical, messages identical."),
    "C40": dict(technique="exhaustive enumeration over every entry of all layered-standard manifests on the real FMU binaries: every known perturbed at every grid point (memory image restored before each), residuals solved and compared with the other formulation, all sequences of switching and setting; the oracle is the parsed manifest and a fresh instance",
                note="all 15 manifests; 343 points of a grid of the three knowns, two perturbations of each, in two modes; all sequences of six calls out of switching on and off, setting states and algebraic variables, and reading"),
    "C41": dict(technique="exhaustive enumeration of all call sequences up to the bound on the real FMUs, each executed three times: by direct calls, through the importer with the library loaded, and through an importer linked with the FMU; all results and logged calls compared history by history",
                note="all sequences of three calls (thorough: four) out of 27 (FMI 2.0) or 30 (FMI 3.0) from a running instance and of two (three) from a new and an initializing one, after which everything is read; 6 experiments of 60 rounds; values of one pattern for each round; Linux x86_64 only"),
}
