"""Source of properties.jsonl and MANIFEST.json:  python3 tools/props.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = "lib/b_asic/"
P = []


def prop(id, title, statement, over, text, tests, files, mech, built=True, note="", observe=(), tech=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests,
                  files=files, mech=mech, built=built, note=note, observe=observe, tech=tech))


prop("C01", "Simulating a graph computes the recurrence the graph describes",
     "For every signal flow graph without delay-free loops, including feedback, initial delay values, multi-output "
     "operations and nested graphs, simulation yields on every output, and records for every node, exactly the values of "
     "the recurrence obtained by evaluating every operation on its sources' current values, with each delay giving its "
     "initial value first and afterwards its source's previous value. This does not depend on how the iterations are "
     "advanced (single steps, runs of any length, up to an iteration, or to the end of the input), on how inputs are "
     "provided, or on results being saved; clearing the state restarts from the initial values, and separate simulations "
     "of one graph do not influence each other.",
     ["programs", "inputs", "histories"], "all graphs, all input sequences, all sequences of advancing calls",
     "tests simulate a dozen fixed graphs with fixed inputs, always advanced in one way",
     [L + "simulation.py", L + "sfg.py", L + "operation.py"],
     [("evaluation in topological order with deferred delays", L + "sfg.py:SFG.evaluate_output"),
      ("simulation state", L + "simulation.py:Simulation.run_until")])
prop("C02", "Graphs and operations can be copied and instantiated without loss",
     "Building a graph from operations, instantiating a graph again, or copying an operation yields a component with the "
     "same structure, connections, names, identifiers, parameters, latencies, execution times and plotting coordinates, "
     "and the same simulated behaviour as the original. Changing a parameter, name or timing of the copy never alters the "
     "original, and constructing a graph leaves the given operations and their connections unchanged.",
     ["programs", "histories"], "all graphs and operation types with all parameter values; all edits of a copy",
     "tests copy a few operations and compare a few graphs by their printed form",
     [L + "sfg.py", L + "graph_component.py", L + "operation.py", L + "core_operations.py"],
     [("copying of a component", L + "graph_component.py:AbstractGraphComponent.copy"),
      ("copying into a graph", L + "sfg.py:SFG.__init__"), ("instantiation", L + "sfg.py:SFG.__call__")])
prop("C03", "Structural queries report the graph's actual structure",
     "A graph lists every one of its operations and signals exactly once with unique identifiers, finds components by "
     "identifier, name and type exactly when they exist, and, for graphs without feedback, lists its operations in an order "
     "where every operation follows its sources. Its precedence levels place every output port (of a non-output operation) "
     "exactly one level after the latest of the ports it needs in the same iteration, and input-dependence queries "
     "report exactly the inputs an output can reach, through delays and nested operations alike. The path search finds every "
     "path without repeated nodes once.",
     ["programs"], "all graphs, connected or not, with feedback, multi-output operations and fan-out",
     "tests query a handful of fixed graphs",
     [L + "sfg.py", L + "operation.py"],
     [("precedence list", L + "sfg.py:SFG.get_precedence_list"), ("order", L + "sfg.py:SFG.get_operations_topological_order"),
      ("lookup", L + "sfg.py:SFG.find_by_id"), ("dependencies", L + "sfg.py:SFG.inputs_required_for_output")])
prop("C04", "Graph transformations keep the input/output behaviour",
     "Flattening nested graphs (also expanding composite operations), replacing an operation by its own graph, rewriting "
     "additions, subtractions and constant multiplications to add/sub, shift-and-add or shift operations (also a nested graph of "
     "a shift and an addition or subtraction to one shift-and-add), joining an "
     "imaginary multiplication with its successors, swapping the ports of a swappable operation, merging equal delays and "
     "extracting operations into a nested graph all yield a graph with the same outputs for every input sequence. "
     "Inserting an operation before or after a component, port or signal, replacing an operation by another one and "
     "removing an operation have exactly that effect; the original graph is left unchanged, and requests that name unknown "
     "components or do not fit the port counts are refused.",
     ["programs", "histories"], "all graphs and transformation sequences",
     "tests transform small fixed graphs and mostly compare printed structure",
     [L + "sfg.py", L + "operation.py", L + "core_operations.py", L + "wdf_operations.py"],
     [("replacement", L + "sfg.py:SFG.replace"), ("swap", L + "operation.py:AbstractOperation.swap_io"),
      ("insertion", L + "sfg.py:SFG.insert_operation_after"), ("rewriting", L + "sfg.py:SFG.rewrite"),
      ("delay placement", L + "sfg.py:SFG.simplify_delay_element_placement"), ("flattening", L + "sfg.py:SFG.flatten")])
prop("C05", "An unfolded graph computes consecutive iterations of the original",
     "Unfolding a graph without nested graphs by any positive factor yields a graph in which each original input, output "
     "and operation (with its parameters, latencies and execution time) exists factor times, and which, fed with "
     "consecutive input samples in parallel (earliest first), produces exactly the consecutive output samples of the "
     "original. It holds the same number of delays in total with the same initial values, a non-positive factor is "
     "refused, and the original graph is left unchanged.",
     ["programs", "inputs"], "all graphs, factors and input sequences", "tests unfold three fixed graphs by small factors",
     [L + "sfg.py"], [("unfolding", L + "sfg.py:SFG.unfold")])
prop("C06", "Ports and signals stay mutually consistent under any editing",
     "After any sequence of connecting, moving, disconnecting, creating and removing signals at ports and operations "
     "(including inserting delays at a port and building operations on existing ones), a signal is listed once by exactly "
     "the ports it names as its source and destination, an input port has at most one signal, and all connection queries "
     "of ports, signals and operations agree with this. Connecting to an occupied input, adding a signal twice, removing a "
     "signal that is not there, or using an operation without a unique port is refused, and a refused call leaves all "
     "connections as they were.",
     ["histories"], "all sequences of connection edits over all kinds of ports", "tests make short fixed sequences",
     [L + "port.py", L + "signal.py", L + "operation.py"],
     [("port bookkeeping", L + "port.py:InputPort.add_signal"), ("signal bookkeeping", L + "signal.py:Signal.set_source")])
prop("C07", "Each operation computes its documented function",
     "Every arithmetic, wave digital filter and FFT operation, for all admissible parameter and numeric input values, "
     "evaluates to its documented function, and the arithmetic and shift operators written between ports, operations and "
     "numbers create operations that compute the corresponding expression in the corresponding operand order. Its "
     "parameters read back as given, and values outside the documented range are refused without changing anything.",
     ["inputs", "programs"], "all operation types, parameters, inputs and operator expressions",
     "tests evaluate each operation on one or two values",
     [L + "core_operations.py", L + "wdf_operations.py", L + "fft_operations.py", L + "port.py"],
     [("evaluation", L + "core_operations.py"), ("operators", L + "port.py:SignalSourceProvider")])
prop("C08", "Linear analysis agrees with the simulated impulse response",
     "For every linear graph without nested graphs whose constants are only used as factors and divisors, the impulse "
     "responses (from each input, or from the outputs of chosen operations, to the outputs or all operations, cut after the "
     "last value above the threshold), their 1- and 2-norms, the state-space matrices, the transfer functions and their "
     "zeros, poles and gain agree with the response of the graph to unit impulses from the zero state. An operation is "
     "reported constant exactly when all its sources are, and a graph linear exactly when each of its operations is linear "
     "or made linear by a constant factor or divisor; analysing a non-linear graph is refused, and the analysed graph is "
     "left unchanged.",
     ["programs"], "all linear graphs, real and complex, with feedback and initial values; thresholds and iteration limits",
     "tests analyse a few fixed real filters",
     [L + "sfg.py", L + "state_space.py", L + "transfer_function.py"],
     [("impulse responses", L + "sfg.py:SFG._get_impulse_responses_between_nodes"),
      ("state space", L + "state_space.py:StateSpace.from_sfg"), ("norms", L + "sfg.py:SFG.get_l2_norms"),
      ("transfer function", L + "state_space.py:StateSpace._calc_tfs"), ("linearity", L + "sfg.py:SFG.is_linear")])
prop("C09", "Timing and resource bounds of a graph are the true bounds",
     "The critical path time is the latest end of any operation when each starts as soon as the operands of its own "
     "iteration are available, and the iteration period bound is the largest ratio, over all loops, of the latency from port "
     "to port along the loop to its number of delays (-1 without loops); the enumerated loops are exactly the simple loops of "
     "the graph, each once. The resource lower bound is the total execution time of a type over the schedule time, rounded "
     "up. Timing given to an operation, or to all operations of a type, is read back on exactly those operations (latency is "
     "the largest output minus input offset, and the plotting coordinates follow it), negative latencies and execution times "
     "are refused, and asking for a bound leaves the graph unchanged.",
     ["programs", "configurations"], "all graphs and all latencies and execution times",
     "tests compute them on a few fixed graphs",
     [L + "sfg.py"],
     [("critical path", L + "sfg.py:SFG.critical_path_time"), ("iteration period bound", L + "sfg.py:SFG.iteration_period_bound")])
prop("C10", "ASAP and ALAP schedules are valid and extremal",
     "For every graph and timing, an as-soon-as-possible schedule starts every operation exactly when the last operand of its "
     "own iteration is available (inputs at their requested times or 0), and an as-late-as-possible schedule starts every "
     "operation at the latest time its consumers, placed before it, allow, with outputs at the end or at their requested "
     "times; outputs with requested relative times keep exactly those distances, as early as possible. In all of them every "
     "operation starts within the schedule time, which is the requested one or the latest end, no operand is used before it "
     "is produced, the delays between operations are those of the graph up to retiming, and the reported slacks are the true "
     "distances between production and use; a too short schedule time is refused. A schedule given by start times and laps is "
     "accepted exactly when it covers the operations and is valid in that sense, and scheduling leaves the graph unchanged.",
     ["programs", "configurations"], "all graphs without loops of delays only, all timings, schedule times and requested times",
     "tests schedule a few filters",
     [L + "scheduler.py", L + "schedule.py"],
     [("ASAP", L + "scheduler.py:ASAPScheduler.apply_scheduling"), ("ALAP", L + "scheduler.py:ALAPScheduler.apply_scheduling"),
      ("moves", L + "schedule.py:Schedule._move_operations"), ("validation", L + "schedule.py:Schedule._validate")])
prop("C11", "Resource-constrained schedulers respect precedence and limits",
     "Every schedule made by a list scheduler, a recursive list scheduler or the ILP scheduler obeys all precedence relations, "
     "including those across iterations; the delays between operations are those of the graph, for cyclic and recursive "
     "scheduling up to whole iterations per operation. At no time, modulo the schedule time, do more operations of a type "
     "execute than the given limit, or than one if there is no limit for the type (list schedulers), and values that are not "
     "used the moment they are produced are not read or written more often at a time than allowed. Inputs are at their "
     "requested times, outputs at the requested distances, and the schedule time is the requested one. If the scheduler "
     "finds no such schedule it raises a ValueError; it does so only if something is limited or requested (list schedulers without a requested schedule time: only if delays, requested "
     "times or operations with more ports than memory accesses allowed make it necessary) and never runs "
     "forever. Scheduling changes neither the graph nor the given limits, and a scheduler used again gives the same schedule.",
     ["programs", "configurations"], "all graphs without loops of delays only, all timings, schedule times, limits and requested times",
     "tests schedule FFT and filter examples",
     [L + "scheduler.py", L + "list_schedulers.py", L + "schedule.py"],
     [("list scheduling", L + "scheduler.py:ListScheduler.apply_scheduling"),
      ("recursive list scheduling", L + "scheduler.py:RecursiveListScheduler.apply_scheduling"),
      ("ILP scheduling", L + "scheduler.py:ILPScheduler.apply_scheduling")])
prop("C12", "Editing a schedule never makes it invalid",
     "After any sequence of edits of a valid schedule (moves, as-soon/late-as-possible moves, rotations, schedule time "
     "changes, changes of the time resolution, latency and execution time changes, operand swaps, row changes) the schedule "
     "is valid: every operation starts in the schedule period, every operand is available when it is used, and the delays "
     "between operations are those of the graph up to whole iterations per operation. An edit changes only what it names, "
     "and moves change the slacks by exactly the distance moved. The forward and backward slacks reported are exactly the "
     "distances to the nearest use and from the latest operand. An edit that is not possible (a move outside the slacks, a "
     "schedule time before the last operation is done, rotating a non-cyclic schedule, a resolution that does not divide the "
     "times, a non-positive factor, a latency that does not fit, an unknown operation) is refused and leaves the schedule as "
     "it was.",
     ["histories"], "all schedules and all edit sequences", "tests make short fixed edits",
     [L + "schedule.py"], [("moves", L + "schedule.py:Schedule.move_operation"),
                           ("latency changes", L + "schedule.py:Schedule.set_latency_of_type"),
                           ("schedule time", L + "schedule.py:Schedule.set_schedule_time"),
                           ("rotation", L + "schedule.py:Schedule.rotate_forward"),
                           ("time resolution", L + "schedule.py:Schedule.increase_time_resolution")])
prop("C13", "The graph of a schedule behaves as the scheduled graph",
     "Whatever operations are moved or rotated, the graph obtained from a schedule computes, for a graph whose delays start "
     "at zero, the outputs of the graph that was scheduled, with each input and output shifted by as many iterations as "
     "the schedule moved it, and has the same operations and parameters in it. The input-to-output latency reported for a "
     "schedule is the time from the input to the output including those iterations.",
     ["histories", "programs"], "all schedules and edit sequences", "tests compare printed structure for a few edits",
     [L + "schedule.py"], [("delay reintroduction", L + "schedule.py:Schedule.sfg"),
                           ("simplification", L + "sfg.py:SFG.simplify_delay_element_placement")])
prop("C14", "Memory variables carry every value from production to last use",
     "However a schedule was edited, its memory variables contain, for each operation output that is used, exactly one "
     "variable, written at the time (modulo the schedule time) the output is produced and read by each operand that uses it, "
     "as long after as that use is (iterations of delay included); its life time is that of the last read. The operation "
     "processes contain each operation, except don't cares and sinks, once, with its start time and execution time, and are "
     "refused if an execution time is missing.",
     ["programs", "histories"], "all schedules", "tests count variables of fixed schedules",
     [L + "schedule.py", L + "process.py"], [("memory variables", L + "schedule.py:Schedule.get_memory_variables"),
                                             ("operations", L + "schedule.py:Schedule.get_operations"),
                                             ("processes", L + "process.py:MemoryProcess")])
prop("C15", "Splitting on execution time gives conflict-free resources",
     "Every splitting of processes on execution time (left edge, graph colouring with any order, ILP) places each process in "
     "exactly one part; no part is empty, and no two processes of a part ever execute at the same time (modulo the schedule "
     "time). The ILP uses as few parts as possible, and the left-edge method does when no process crosses the end of the "
     "period. Processes longer than the schedule time, and too few colours, are refused. The reported lower bound is the "
     "largest number of processes executing at the same time.",
     ["inputs"], "all process collections and methods", "tests split a few collections",
     [L + "resources.py"], [("splitting", L + "resources.py:ProcessCollection.split_on_execution_time"),
                            ("left edge", L + "resources.py:ProcessCollection._left_edge_assignment"),
                            ("exclusion graph", L + "resources.py:ProcessCollection.exclusion_graph_from_execution_time")])
prop("C16", "Splitting on ports respects the number of memory ports",
     "Every splitting of memory variables on ports (left edge and its variants, graph colouring, equitable colouring, ILP and "
     "the ILPs that minimise multiplexers) places each variable in exactly one part, in which at no time (modulo the schedule "
     "time) more reads, writes or accesses in total occur than there are ports. The ILP graph colouring uses as few memories "
     "as possible, and the ILP for input multiplexers as few connections from processing elements to memories as possible "
     "with the number of memories allowed. Variables that cannot fit and inconsistent port numbers are refused.",
     ["inputs"], "all collections, port numbers and methods", "tests split a few collections",
     [L + "resources.py"], [("splitting", L + "resources.py:ProcessCollection.split_on_ports"),
                            ("left edge", L + "resources.py:ProcessCollection.split_ports_sequentially"),
                            ("exclusion graph", L + "resources.py:ProcessCollection.exclusion_graph_from_ports")])
prop("C17", "Splitting memory variables by lifetime or in chains loses no access",
     "Splitting a collection on a length puts every read of every variable, at its time, into the short part if its life time "
     "is at most the length and otherwise into the long part. Splitting into chains gives, for each memory variable longer "
     "than the limit, the fewest links none of which is longer, each link written exactly when the one before is read for it, "
     "such that every operand still reads its value as long after the original write as before. Other processes stay as they "
     "are, what cannot be chained is refused, and the original collection does not change.",
     ["inputs"], "all collections", "tests split one collection",
     [L + "resources.py", L + "process.py"], [("length", L + "resources.py:ProcessCollection.split_on_length"),
                                              ("chains", L + "resources.py:ProcessCollection.split_into_chains")])
prop("C18", "The bounds and queries of process collections are exact",
     "After any history of adding and removing processes, a collection contains exactly the processes added and not removed; "
     "adding one twice or removing one that is not there is refused. The reads, writes, accesses and executions reported per "
     "time slot and the bounds derived from them are those of its processes modulo the schedule time; finding processes by "
     "start time, name, operation type or type name gives exactly those that match; and the exclusion graphs connect exactly "
     "the processes that execute, or need the same memory port, at the same time.",
     ["histories", "inputs"], "all collections and histories", "tests query a few collections",
     [L + "resources.py", L + "process.py"],
     [("accesses", L + "resources.py:ProcessCollection.total_port_accesses"),
      ("queries", L + "resources.py:ProcessCollection.get_by_type_name"),
      ("exclusion", L + "resources.py:ProcessCollection.exclusion_graph_from_ports")])
prop("C19", "Resource assignment places every operation and every variable within the limits",
     "assign_processing_elements_and_memories, for every strategy, puts every operation of the schedule in exactly one processing "
     "element of its type that executes at most one operation in each time slot (modulo the schedule time), every stored value "
     "(memory variable, or links of its chain) in exactly one memory whose accesses fit its ports and whose cells hold one value at "
     "a time, and returns exactly the immediate reads as direct connections. It uses no more processing elements of a type than "
     "`resources`, no more memories than `max_mems` and no multiplexer larger than `max_mux_size`: an assignment that is not "
     "possible within the limits is refused with ValueError, never returned incomplete; one that the strategy itself produces "
     "without limits is not refused when the limits allow it. ilp_graph_color uses the smallest possible numbers of processing "
     "elements and memories, and ilp_min_mux has no more connections than the other strategies have with the same resources. "
     "Operation names need not be unique.",
     ["programs", "configurations"], "all schedules, strategies and limits",
     "tests assign a handful of example schedules and compare counts",
     [L + "resource_assigner.py", L + "architecture.py"],
     [("assignment", L + "resource_assigner.py:assign_processing_elements_and_memories"),
      ("limits", L + "resource_assigner.py:_split_operations_and_variables")])
prop("C28", "Architectures keep every process in one resource and know the connections",
     "Under any sequence of moves of processes between resources (with or without assignment, by name or object), added resources, "
     "removals of empty resources and assignment of all resources, every process is in exactly one resource of its kind (same "
     "operation type and latency, or memory); a move that is refused (wrong type or latency, process not in the source, or with "
     "assign=True executions at the same time or more accesses at a time than ports) leaves all resources as they were, and other "
     "moves are not refused. get_interconnects_for_pe, get_interconnects_for_memory and get_multiplexer_input_count report exactly "
     "the connections between resources that the present placement needs. Architectures whose resources do not cover the ports of "
     "the operations, share a name within a kind or have different schedule times are refused.",
     ["histories", "programs"], "all architectures and edit histories", "tests move three processes in one architecture",
     [L + "architecture.py"],
     [("moves", L + "architecture.py:Architecture.move_process"),
      ("connections", L + "architecture.py:Architecture.get_interconnects_for_pe"),
      ("memories", L + "architecture.py:Architecture.get_interconnects_for_memory")])
prop("C20", "Generated VHDL of an architecture computes what the graph computes",
     "The VHDL that VhdlPrinter writes for an architecture (processing elements shared and pipelined, memories of RAM or registers, "
     "multiplexers; real or complex fixed-point data with any quantization and overflow mode, own word lengths of outputs) compiles "
     "and, when inputs are driven in their scheduled clock cycles (arbitrary values elsewhere) after a reset, outputs in the "
     "scheduled clock cycles of every period exactly the bits which simulating the graph of the schedule with that data type gives, "
     "with each of the printer options (registered inputs and outputs add their cycles; pipelined control; output synchronization) "
     "and when the enable pin stalls it at any time.",
     ["programs", "inputs", "configurations"], "all architectures of printable operations, options, input values and stalls",
     "tests compare printed text; the two cocotb examples are not part of the stable suite",
     [L + "code_printer/vhdl/vhdl_printer.py", L + "code_printer/vhdl/top_level.py", L + "code_printer/vhdl/processing_element.py",
      L + "code_printer/vhdl/memory_storage.py", L + "code_printer/vhdl/register_storage.py"],
     [("operations", L + "code_printer/vhdl/vhdl_printer.py:VhdlPrinter"), ("top level", L + "code_printer/vhdl/top_level.py"),
      ("memories", L + "code_printer/vhdl/memory_storage.py")])
prop("C29", "Generated test benches accept the simulated results and nothing else",
     "The VHDL test bench that VhdlTbPrinter writes for an architecture and a simulation of its schedule drives every simulated "
     "input and checks every simulated output in its clock cycle: run with the printed architecture it passes, and with one changed "
     "bit of one expected output sample it fails. The sequence which CocotbPrinter writes holds, in time order, exactly every input "
     "and output sample of the simulation with its bits and clock cycle (registered inputs and outputs add theirs), which the printed "
     "architecture fulfils.",
     ["programs", "inputs"], "all architectures and simulations", "tests compare the text of two benches",
     [L + "tb_printer/vhdl/vhdl_tb_printer.py", L + "tb_printer/cocotb/cocotb_printer.py"],
     [("VHDL bench", L + "tb_printer/vhdl/vhdl_tb_printer.py"), ("cocotb bench", L + "tb_printer/cocotb")])
prop("C21", "Generated VHDL storages return each variable when it is read",
     "A storage that ProcessCollection writes as VHDL for an interleaver with one input and one output value per cycle (matrix "
     "transposers and any other permutation of the cycles of a period, also with unused cycles, with lifetimes from zero to a whole "
     "period), from a register allocation or from any memory assignment, with or without registered inputs, with any address "
     "multiplexers, compiles and, after a reset and while enabled, outputs from the first period on each value exactly one "
     "lifetime (and the constant latency of the storage) after it was input. Collections that write or read more values at the same "
     "time than there are ports are refused, others are not, except when the register allocation heuristic fails.",
     ["inputs", "configurations"], "all single-port collections, options and data", "tests only write files",
     [L + "resources.py", L + "research/interleaver_codegen.py"],
     [("memory", L + "resources.py:ProcessCollection.generate_memory_based_storage_vhdl"),
      ("registers", L + "resources.py:ProcessCollection.generate_register_based_storage_vhdl")])
prop("C22", "Quantization and simulation in a data type are exact",
     "quantize returns exactly the value (per part for complex numbers) rounded to the fractional bits by the documented mode: "
     "truncation towards minus infinity, rounding with ties towards plus infinity, both magnitude truncations towards zero, "
     "jamming sets the least significant bit, unbiased jamming only when bits are discarded, unbiased rounding with ties to even; "
     "then wrapped or saturated to the integer bits, as an APyTypes number of that format. Simulating a graph, also nested in "
     "another graph, with a fixed-point data type gives for every operation and iteration the exact result of its quantized "
     "operands, rounded and limited in the same way (there magnitude truncation adds the sign bit when bits are discarded); "
     "inputs, constants and initial values are rounded to nearest and wrapped, and simulating does not change the graph. With a "
     "floating-point data type every operation is rounded to that precision. A DataType has the word lengths, modes and numbers "
     "of bits it was created with and copies to an equal one.",
     ["inputs", "configurations", "programs"], "all values, formats, modes and graphs",
     "tests sample a few values per mode and two filters",
     [L + "quantization.py", L + "operation.py", L + "data_type.py", L + "simulation.py", L + "core_operations.py"],
     [("quantize", L + "quantization.py:quantize"), ("casting", L + "operation.py:AbstractOperation._cast_to_data_type"),
      ("data types", L + "data_type.py:DataType")])
prop("C23", "Saving and loading gives back the same graph and schedule",
     "Writing any graph with sfg_to_python and reading it with python_to_sfg, or pickling and unpickling it, gives a graph with the "
     "same name, operations, connections, inputs and outputs, graph identifiers (of operations and signals), names (any text), "
     "parameters (also false or zero ones and ones of numpy types), latency offsets, execution times, word lengths, graphs inside "
     "graphs, order of operations, printed form and simulation results, and the positions given as suffix. Executing what "
     "schedule_to_python writes for any edited schedule, or pickling and unpickling the schedule, gives a schedule with the same "
     "graph, schedule time, cyclicity, start times, delays, slacks and vertical positions. Saving changes nothing.",
     ["programs", "inputs"], "all graphs and schedules", "tests save and load two graphs",
     [L + "save_load_structure.py"],
     [("graph", L + "save_load_structure.py:sfg_to_python"), ("schedule", L + "save_load_structure.py:schedule_to_python")])
prop("C24", "Generated filter and transform graphs implement their specification",
     "Direct-form and transposed FIR filters and direct-form I and II IIR filters implement the difference equation of their "
     "coefficients (the symmetric FIR form for symmetric coefficients with half the multiplications, rounded up; n-1 delays), "
     "IIR generators refuse unusable coefficients, and names, latencies and execution times that are passed on reach every "
     "operation. wdf_allpass and lattice filters implement the nested allpass sections of their coefficients, zero "
     "coefficients included, with the requested adaptors, names and timing; lattice coefficients of a transfer function give back a stable "
     "real denominator and, for classical odd-order lowpass filters, the transfer function. The radix-2 FFT gives the DFT for every power of two and refuses "
     "other sizes. Matrix products and the six inverse generators (symmetric positive definite matrices, every mode and number "
     "of processing elements, odd sizes refused where blocks need even ones) give the product and the inverse, with inputs and outputs in the documented "
     "order and names. Interleavers and transposers produce the specified permutation with one write and one read per port and "
     "time, the shortest lifetime asked for and no lifetime above the schedule time.",
     ["inputs"], "all coefficients, sizes and options", "tests check small fixed instances",
     [L + "sfg_generators/", L + "wdf/", L + "research/interleaver.py"],
     [("generators", L + "sfg_generators/digital_filters.py"), ("wave digital", L + "sfg_generators/wave_digital_filters.py"),
      ("lattice", L + "wdf/lattice.py"), ("interleavers", L + "research/interleaver.py")])
prop("C25", "Signal sources produce their documented sequences",
     "Every signal generator and any sums, differences, products and quotients of generators with one another and with numbers "
     "(on either side), delays, up- and downsampling of generators or lists (with phase) give at every integer time, negative ones "
     "included, exactly the documented value; lists and files are zero outside their range, and seeded random sources give the "
     "numbers of numpy's default_rng in the order they are asked for. Driving a simulation they give the values at times 0, 1, 2 and "
     "so on, each asked for once. Printing a generator (str or repr) gives an expression that evaluates to the same sequence. "
     "Operands that are neither numbers nor generators are refused with TypeError.",
     ["inputs", "programs"], "all generators, expressions and times", "tests check short prefixes of fixed generators",
     [L + "signal_generator.py", L + "simulation.py"],
     [("generators", L + "signal_generator.py:SignalGenerator"), ("printing", L + "signal_generator.py:_SubGenerator")])
prop("C26", "Digit and sequence utilities are exact",
     "int_to_csd and float_to_csd represent every integer and every finite number exactly, most significant digit first, with digits "
     "-1, 0 and 1, no two adjacent nonzero digits (so as few nonzero digits as possible) and no leading zero; float_to_csd has no "
     "trailing zeros and gives the number of fractional bits, which is negative for large powers of two. interleave, downsample, "
     "upsample and decompose place every element as documented for every factor and phase below the factor, downsampling undoes "
     "upsampling, interleaving undoes decomposing, and sequences of different lengths are not interleaved.",
     ["inputs"], "all integers, floats, sequences, factors and phases", "tests check a few numbers and sequences",
     [L + "utils.py"], [("csd", L + "utils.py:float_to_csd"), ("sequences", L + "utils.py:upsample")])
prop("C27", "The compiled simulation computes what the graph describes",
     "FastSimulation, compiled from src/, gives for every graph (any operations, also ones evaluated in Python, delays with initial "
     "values, feedback, nested graphs) the outputs that the documented functions of the operations give, for every way of advancing "
     "(step, run_for, run_until, run), for inputs given as functions, lists, arrays or numbers, also when inputs change on the way; "
     "records under the keys of the interpreted simulation the values of everything the outputs depend on, for exactly the "
     "iterations that were saved; and continues from the initial values of the delays after clear_state.",
     ["programs", "histories", "inputs"], "all graphs and histories",
     "the stable tests do not build the extension; its own tests simulate a few fixed graphs",
     ["src/simulation/compile.cpp", "src/simulation/run.cpp", "src/simulation/simulation.cpp"],
     [("compiler", "src/simulation/compile.cpp"), ("interpreter of the code", "src/simulation/run.cpp"),
      ("advancing", "src/simulation/simulation.cpp")])
prop("C30", "Printed and drawn forms describe the graph",
     "The expressions of a graph give, once for every output and delay, a formula over inputs, constants and delays that "
     "evaluates to what the graph computes (with the initial value of the delay unless it is zero), and so does the expression and "
     "the short form of every operation; operations without algebraic notation appear as calls with their operands in order, and "
     "with the used port if they have several. The symbolic state-space equations are the ones of the matrices, and the tables of a "
     "schedule hold every operation once with its start time and slacks in the requested order. The drawing of a graph, its "
     "precedence graph and their printed lists contain exactly the operations and signals with names, ports and levels, whatever "
     "drawing options are chosen, and printing changes nothing.",
     ["programs", "configurations"], "all graphs, schedules and drawing options",
     "tests compare the printed form of a few fixed graphs",
     [L + "sfg.py", L + "operation.py", L + "core_operations.py", L + "special_operations.py", L + "state_space.py",
      L + "schedule.py"],
     [("expressions", L + "operation.py:AbstractOperation.expression"), ("drawing", L + "sfg.py:SFG.sfg_digraph"),
      ("precedence graph", L + "sfg.py:SFG.precedence_graph"), ("equations", L + "state_space.py:StateSpace.equations"),
      ("tables", L + "schedule.py:Schedule.print_slacks")])
prop("C31", "The scheduler window edits the schedule like the schedule itself",
     "Every edit in the scheduler window - dragging operations in time and between rows, dragging the end of the schedule, rotating, "
     "reordering, changing the time resolution, saving, closing and opening - changes the schedule in the window exactly as the "
     "corresponding methods change a schedule: an operation is moved as far as it is dragged, but no further than its slacks and "
     "the ends of the schedule allow, the schedule time no further than the last operation, and what the schedule refuses changes "
     "nothing. The schedule stays valid after every edit, the one passed to the window is never changed, and the window always "
     "shows the operations at their start times and rows, in order, and the schedule time and slacks of the schedule.",
     ["histories"], "all schedules and all sequences of edits",
     "tests press a handful of buttons on one schedule",
     [L + "scheduler_gui/main_window.py", L + "scheduler_gui/scheduler_event.py", L + "scheduler_gui/scheduler_item.py",
      L + "scheduler_gui/axes_item.py", L + "scheduler_gui/operation_item.py"],
     [("dragging", L + "scheduler_gui/scheduler_event.py:SchedulerEvent.operation_mouseMoveEvent"),
      ("allowed positions", L + "scheduler_gui/scheduler_item.py:SchedulerItem.is_component_valid_pos"),
      ("end of the schedule", L + "scheduler_gui/scheduler_item.py:SchedulerItem.change_schedule_time"),
      ("time resolution", L + "scheduler_gui/main_window.py:ScheduleMainWindow._increase_time_resolution")])

prop("C32", "The graph editor window creates and keeps exactly the graph that is drawn",
     "A graph created in the editor from the selected inputs and outputs (in the order of selection) has exactly the operations, "
     "values and connections that are drawn, whatever was drawn and removed before; connections that are refused (to an input that "
     "is connected already, or with no or several outputs selected) change nothing, and deleting removes exactly the selected "
     "operations with their connections. The properties dialog shows and changes the name, value and latencies of the operation that "
     "was clicked, also in the graph created from it, and leaves alone what is not edited. Any later edit of the drawn operations "
     "and connections of a graph removes that graph, and no other, from the window. Saving and loading gives the same graph with the same "
     "positions and directions, also with several graphs in the window, and the simulation dialog simulates each graph with the "
     "iterations and input signals that were entered for it.",
     ["histories"], "all graphs, orders of drawing and histories of edits",
     "tests draw one graph of three operations and load one file",
     [L + "sfg_gui/main_window.py", L + "sfg_gui/drag_button.py", L + "sfg_gui/port_button.py", L + "sfg_gui/arrow.py",
      L + "sfg_gui/properties_window.py", L + "sfg_gui/simulate_sfg_window.py", L + "sfg_gui/signal_generator_input.py"],
     [("creating", L + "sfg_gui/main_window.py:SFGMainWindow.create_sfg_from_toolbar"),
      ("connecting", L + "sfg_gui/main_window.py:SFGMainWindow._connect_callback"),
      ("deleting", L + "sfg_gui/drag_button.py:DragButton.remove"),
      ("properties", L + "sfg_gui/properties_window.py:PropertiesWindow.save_properties"),
      ("simulating", L + "sfg_gui/simulate_sfg_window.py:SimulateSFGWindow.save_properties")])


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            fh.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["tests"],
                "anchors": {"files": p["files"],
                            "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                            "observe_at": list(p["observe"]), "hook_needed": None},
            }) + "\n")
    checks = []
    na = []
    for p in P:
        if p["built"]:
            checks.append({
                "property": p["id"],
                "quick_cmd": f"python3 run.py {p['id']} --tier quick",
                "thorough_cmd": f"python3 run.py {p['id']} --tier thorough",
                "evidence_file": f"evidence/{p['id']}.json",
                "technique": p["tech"] or "property-based testing (Hypothesis) against an independent reference model",
                "level": "exploration",
                "level_note": p["note"] or "Random search over generated graphs, inputs and histories; no claim beyond the cases "
                                           "explored. Trusts the reference model and Python arithmetic.",
            })
        else:
            na.append({"property": p["id"], "reason": "the check for this property is not built yet"})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
        json.dump({"version": 1,
                   "setup_cmd": "python3 tools/setup.py",
                   "checks": checks, "not_applicable": na}, fh, indent=1)
        fh.write("\n")


main()
