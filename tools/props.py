#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": hook}})

prop("C01", "Emitted expressions compute what the expression tree means",
  "For every well-typed expression built through the API from ports, variables, constants, slices, concatenation, reductions, arithmetic, shifts, comparisons, extension, signed casts and the conditional operator, the SystemVerilog text emitted for it, parsed and sized by IEEE 1800 rules, yields for every input value exactly the value the tree denotes. Grouping, operand order, width and signedness all survive printing, wherever the expression is used (assignment, condition, port connection, index).",
  ["programs", "inputs"], "every expression tree up to a depth bound over a small leaf alphabet, every value of the inputs",
  "Tests compare a few printed strings; parenthesisation and sign mistakes only show on particular operator nestings and operand values.",
  ["src/expr.cc", "src/expr.hh", "src/syntax.cc", "src/codegen.cc"],
  [("Expr::to_string / parenthesisation", "src/expr.cc"), ("Const::to_string", "src/expr.cc"), ("assign codegen", "src/codegen.cc")],
  observe=["emitted module text", "outputs of the elaborated module for every input"])
prop("C02", "Emitted processes behave as the statement tree says",
  "For every legal combination of continuous assignments, combinational, sequential, latch and initial blocks, blocking and non-blocking assignments, if/else, switch with default, bounded for loops, and function definitions with calls, the emitted module goes through the same sequence of register and output values as the statement tree for every sequence of inputs, clock edges and resets. Clock and reset edges, branch polarity, case labels, statement order, loop bounds and function arguments are those the program specified, with and without the unique-case and line-wrap options.",
  ["programs", "inputs", "histories"], "every statement tree up to a size bound over small alphabets, all input sequences (product of both state machines explored to a fixpoint)",
  "Existing tests check that codegen runs or compare a gold text for a handful of shapes; equivalence over histories of clock/reset events is never examined.",
  ["src/codegen.cc", "src/stmt.cc", "src/stmt.hh"],
  [("stmt_code / block_code", "src/codegen.cc"), ("fix_assignment_type", "src/transform.cc")],
  observe=["emitted module text", "outputs per step"])
prop("C03", "Emitted hierarchies are wired as the program connected them",
  "For every hierarchy of generators in which child ports are connected to parent variables, slices, constants, expressions, or directly to sibling and parent ports, in either assignment direction and with multiple or nested instances, the emitted modules and instantiations compose to the same input/output behaviour as the connected tree. Every instance names an emitted module, every port connection refers to the right signal, direction and width, and nothing connected is dropped.",
  ["programs", "inputs", "histories"], "every small hierarchy (up to 3 levels, 3 instances) over connection shapes, all inputs",
  "Unit tests check single hand-written hierarchies textually.",
  ["src/codegen.cc", "src/transform.cc", "src/stmt.cc", "src/generator.cc", "src/optimize.cc"],
  [("ModuleInstantiationStmt", "src/stmt.cc"), ("create_module_instantiation", "src/transform.cc"), ("decouple_generator_ports", "src/optimize.cc")],
  observe=["emitted modules"])
prop("C04", "Every way of selecting bits reads and writes the same bits",
  "Constant slices, nested slices, multi-dimensional packed and unpacked arrays, run-time indexed elements and packed-struct fields denote one fixed set of bits, element 0 and bit 0 least significant: a value written through any selection path is read back through every other path to the same bits, in the emitted code and in what the object reports about itself (width, low and high bit). A selection outside the declared bounds is rejected when it is built.",
  ["programs", "inputs"], "every declaration shape and selection path up to 3 levels over small sizes, every value and index in range",
  "Tests check a few slice strings; aliasing of different paths is not examined.",
  ["src/expr.cc", "src/expr.hh", "src/port.cc", "src/codegen.cc"],
  [("VarSlice / VarVarSlice", "src/expr.cc"), ("PackedSlice", "src/expr.cc"), ("var declaration codegen", "src/codegen.cc")],
  observe=["emitted module", "var_low/var_high/width"])
prop("C05", "Statement-level passes do not change what a design does",
  "For every legal design, running any of the clean-up passes on it (if-to-case conversion, merging of wire assignments, merging of ifs, removal of fan-out-one wires, dead code, unused variables and unused statements, statement sorting, assignment-type fixing, SSA-style ordering helpers), alone or two in sequence, yields a design whose outputs take the same values for every input sequence. A pass that does not apply leaves the behaviour alone instead of failing.",
  ["programs", "inputs", "histories"], "every design up to a size bound, every pass and ordered pair of passes, all input sequences",
  "Tests run each pass on one or two designs shaped for it and mostly check statement counts or text.",
  ["src/transform.cc", "src/optimize.cc", "src/pass.cc"],
  [("transform_if_to_case", "src/transform.cc"), ("merge_wire_assignments", "src/optimize.cc"), ("remove_fanout_one_wires", "src/optimize.cc"), ("dead_code_elimination", "src/optimize.cc"), ("merge_if_block", "src/transform.cc")],
  observe=["emitted module before and after the pass"])
prop("C06", "Hierarchy-level passes do not change what a design does",
  "For every legal hierarchy, removing pass-through modules, inlining marked instances, merging constant port assignments, generating loops of instances, decoupling or legalising port connections, and uniquifying generators yields a hierarchy whose top-level outputs take the same values for every input sequence as before. Modules whose body is not a pure feed-through, instances that are not identical and ports that are not constant are left as they are.",
  ["programs", "inputs", "histories"], "every small hierarchy over body and connection shapes, each pass and the default pass order, all input sequences",
  "Tests run each pass on one design and check instance counts or text.",
  ["src/optimize.cc", "src/transform.cc"],
  [("remove_pass_through_modules", "src/optimize.cc"), ("inline_instance", "src/transform.cc"), ("merge_const_port_assignment", "src/optimize.cc"), ("lift_genvar_instances", "src/transform.cc"), ("port_legality_fix", "src/transform.cc")],
  observe=["emitted hierarchy before and after the pass"])
prop("C07", "Behaviour-adding passes add exactly the behaviour they promise",
  "A generator marked for N pipeline stages produces on every output, N clock cycles later, what the unmarked one produces, and nothing else changes; auto clock enable makes every register hold while the enable is low and run unchanged while it is high; auto sync reset forces registers to their reset value on a clock edge with reset active and is otherwise invisible; zeroing stubs or inputs drives exactly the marked, undriven ports to zero; removing asynchronous reset leaves clocked behaviour with reset inactive unchanged.",
  ["programs", "inputs", "histories"], "small clocked hierarchies, all settings of the attributes, all input/clock/reset histories",
  "Tests compare one gold text each.",
  ["src/transform.cc", "src/optimize.cc"],
  [("insert_pipeline_stages", "src/transform.cc"), ("auto_insert_clock_enable", "src/transform.cc"), ("auto_insert_sync_reset", "src/transform.cc"), ("zero_out_stubs", "src/optimize.cc"), ("zero_generator_inputs", "src/optimize.cc")],
  observe=["emitted module after the pass"])
prop("C08", "A realised state machine is the state machine that was described",
  "For every Moore or Mealy machine described with states, guarded transitions and per-state outputs, including nested machines and any start state, the realised hardware starts in the start state on reset, takes on each clock edge the first transition (in the order they were added) whose guard holds, stays when none does, and drives the outputs specified for the current state (Moore) or for the state the machine is about to enter (Mealy).",
  ["programs", "inputs", "histories"], "every machine up to 3 states with all transition/guard structures, all input and reset histories",
  "Tests check a two-state machine textually.",
  ["src/fsm.cc", "src/fsm.hh"],
  [("FSM::realize", "src/fsm.cc"), ("generate_state_transition", "src/fsm.cc"), ("generate_output", "src/fsm.cc")],
  observe=["emitted module, stepwise"])
prop("C09", "The built-in simulator agrees with the design",
  "For every supported design and every sequence of inputs, clock edges and resets, values read from the built-in simulator equal those the design's semantics (the emitted SystemVerilog) give: arithmetic wraps at the declared width, comparisons and shifts honour signedness, slices and arrays address the right bits, non-blocking assignments take effect together with the last one winning, and hierarchies propagate until stable.",
  ["programs", "inputs", "histories"], "all small expressions/processes/hierarchies, all input histories",
  "Tests drive a counter and a few operators with a handful of values.",
  ["src/sim.cc", "src/eval.cc", "src/graph.cc", "src/sim.hh"],
  [("Simulator::eval", "src/sim.cc"), ("eval_bin_op / eval_unary_op", "src/eval.cc")],
  observe=["Simulator::get after each set"])
prop("C10", "Typing is exact: widths and signs are checked and reported truthfully",
  "An operation or assignment is accepted exactly when its operands satisfy the width and sign rules, and rejected with an exception and no side effect on the design otherwise: the two sides of an assignment, a port connection or a function argument have equal width and sign (a constant or a loop expression takes the width of the other side when no value is lost); a narrower operand of an arithmetic, bitwise or comparison operator is widened, and a constant that does not fit the other operand is refused; the condition of a conditional operator, an event and a control signal have one bit; parts of a concatenation share a sign; selections and extensions fit their operand; enum variables only take values of their enum; unpacked arrays are only copied, compared or selected from, with the same shape; constants, parameters, loop variables and computed values are never assigned. Building or refusing an operation never changes what its operands report. The width and signedness any accepted expression reports are those the emitted SystemVerilog expression has under IEEE 1800.",
  ["programs", "inputs"], "all operators and assignment forms over all operand shapes of a small alphabet of widths, signs and kinds",
  "Tests assert a few rejected cases.",
  ["src/expr.cc", "src/stmt.cc", "src/expr.hh"],
  [("Var::generate_expr checks", "src/expr.cc"), ("AssignStmt constructor checks", "src/stmt.cc")],
  observe=["exceptions, width(), is_signed()"])
prop("C11", "Who-drives-what bookkeeping stays exact under any edits",
  "After any sequence of API edits (adding and removing assignments, conditional and block statements, child generators and ports; unassigning; moving fan-out or sources to another variable; renaming), the assignments reported as driving a variable and the assignments reported as reading it are exactly those present in the design: no stale, missing or duplicate entry, for whole variables and for slices, and looking up a variable by name agrees with its name.",
  ["histories", "programs"], "every operation sequence up to a depth bound over a small alphabet of operations and variables",
  "Tests check single edits; passes chain many of them.",
  ["src/expr.cc", "src/stmt.cc", "src/generator.cc"],
  [("add_source/add_sink/remove_*", "src/expr.cc"), ("remove_stmt", "src/stmt.cc"), ("Var::move_src_to/move_sink_to", "src/expr.cc")],
  observe=["sources(), sinks(), get_var(name)"])
prop("C12", "Driver checks flag exactly the designs with wrong drivers",
  "For every design, the driver checks (multiple drivers, mixed assignment styles in one variable or block, unconnected or wrongly driven ports) raise an error if and only if some bit of a variable or port is driven by more than one process, a variable mixes blocking and non-blocking assignment, or a required port bit is undriven; a design in which every bit has exactly one driver is accepted.",
  ["programs"], "all small designs over assignment targets (whole, slices, array elements), block kinds and instances",
  "Tests cover one failing and one passing design per check.",
  ["src/analysis.cc", "src/optimize.cc", "src/transform.cc"],
  [("check_multiple_driver", "src/analysis.cc"), ("verify_generator_connectivity", "src/analysis.cc"), ("check_mixed_assignment", "src/analysis.cc"), ("verify_assignments", "src/transform.cc")],
  observe=["exception or not"])
prop("C13", "Structural checks flag exactly the offending designs",
  "For every design, the checks for inferred latches, combinational loops, always_ff resets, function return paths, sensitivity lists, active-high resets and non-synthesizable content raise an error if and only if the design has the flaw: a combinational variable not assigned on some path, a zero-delay cycle through assignments and instances, and so on. Each check leaves a flawless design unchanged and terminates on a flawed one.",
  ["programs"], "all small designs over control-flow shapes and connection graphs",
  "Tests cover one failing and one passing design per check.",
  ["src/analysis.cc", "src/graph.cc"],
  [("check_inferred_latch", "src/analysis.cc"), ("check_combinational_loop", "src/analysis.cc"), ("check_flip_flop_always_ff", "src/analysis.cc"), ("check_function_return", "src/analysis.cc")],
  observe=["exception or not"])
prop("C14", "Modules that differ never share one definition",
  "When several generators carry the same module name, the emitted text contains one definition per distinct content: two instances share a definition only if their bodies and interfaces behave identically, however small the difference (operator, operand order, constant, width, sign, label, edge, branch, port or child), and generators that are identical do share one. Every instance refers to a definition that behaves like its own generator, whether the hashes were computed sequentially or in parallel.",
  ["programs", "schedules"], "all pairs of bodies at distance one edit over the statement/expression alphabet, sequential and every parallel hash order",
  "Tests compare two or three chosen generators.",
  ["src/hash.cc", "src/analysis.cc", "src/context.cc", "src/transform.cc"],
  [("hash_generators", "src/hash.cc"), ("uniquify_generators", "src/optimize.cc")],
  observe=["emitted text: module per instance"])
prop("C15", "Clones are faithful and independent; replacement is transparent",
  "A clone of any generator behaves identically to the original, and later edits of either one never affect the other. Replacing a child instance by another generator with a compatible interface connects the new one exactly as the old one was, leaves no reference to the old one, and is refused, leaving the design unchanged, when the interfaces are incompatible.",
  ["programs", "histories"], "all small generators over port/variable/statement kinds, clone/edit/replace sequences up to a depth bound",
  "Tests clone one generator and check the text.",
  ["src/generator.cc", "src/expr.cc", "src/stmt.cc", "src/port.cc"],
  [("Generator::clone", "src/generator.cc"), ("Generator::replace", "src/generator.cc")],
  observe=["emitted text of both designs after each step"])
prop("C16", "Parallel traversal is exact, ordered and race-free",
  "Whatever the number of worker threads and however the tasks are scheduled, a parallel traversal of the generator hierarchy visits every generator exactly once (respecting parent/child order where promised), tasks that may run concurrently never touch the same data without synchronisation, and every result computed through it (hashes, emitted text, per-instance lists) equals the sequential one.",
  ["schedules", "configurations"], "all hierarchies up to a size bound (trees and shared clones), all task orders and worker counts",
  "Tests run one schedule, chosen by the OS, on one design.",
  ["src/ir.cc", "src/hash.cc", "src/codegen.cc", "src/util.cc", "src/pass.cc"],
  [("visit_generator_root_p / _tp", "src/ir.cc"), ("thread pool size", "src/util.cc"), ("generate_verilog_pkg", "src/codegen.cc")],
  observe=["visit log, per-task memory accesses, emitted text"])
prop("C17", "Output depends only on the program",
  "Building the same design through the same sequence of API calls and passes yields byte-identical text, names, hashes and analysis results every time, independent of memory layout, thread schedule, worker count and of other contexts alive in the process.",
  ["programs", "schedules", "configurations"], "a family of designs through the full pass pipeline under perturbed allocation orders, worker counts, task orders and interleaved other contexts",
  "Tests run each design once in one process layout.",
  ["src/codegen.cc", "src/hash.cc", "src/ir.cc", "src/context.cc", "src/generator.cc", "src/optimize.cc"],
  [("ordered containers and sorted visits", "src/generator.cc"), ("uniquify name assignment", "src/optimize.cc")],
  observe=["emitted text"])
prop("C18", "Names are legal and unique, and lookups follow them",
  "Whatever names a program picks and whatever the library invents (unique variable, instance, module and enum names), every name in a scope of the emitted text is a legal non-keyword identifier declared exactly once, and names given by the user are kept or refused, never silently redirected to another object. Asking twice for a fresh name never returns one in use.",
  ["histories", "programs"], "every sequence of naming operations up to a depth bound over a colliding name alphabet",
  "Tests check a couple of collisions.",
  ["src/generator.cc", "src/codegen.cc", "src/syntax.cc", "src/context.cc", "src/util.cc"],
  [("Generator::get_unique_variable_name", "src/generator.cc"), ("is_valid_verilog", "src/syntax.cc")],
  observe=["emitted text", "get_var / get_child_generator"])
prop("C19", "Bundles and interfaces connect matching members, in the right direction",
  "Port bundles (and their conversion to packed structs) and interfaces (with modports, clocks, parameters, local or passed through ports) connect each member of one side with the same-named member of the other in the declared direction, and the emitted design behaves as if each member were an individually wired signal. Flipping twice is the identity, and mismatching sides are refused.",
  ["programs", "inputs"], "all bundle/interface definitions up to 3 members over directions and widths, all wiring shapes",
  "Tests check one or two bundles textually.",
  ["src/port.cc", "src/interface.cc", "src/transform.cc", "src/codegen.cc"],
  [("PortBundle", "src/port.cc"), ("change_port_bundle_struct", "src/transform.cc"), ("InterfaceRef", "src/interface.cc")],
  observe=["emitted text"])
prop("C20", "Parameters override consistently through the hierarchy",
  "A parameterised module behaves, for every value set on an instance (directly or through a parent's parameter), exactly as if that value had been written in place of the parameter, wherever the parameter is used: widths of ports and variables, operands and nested instances. Instances with different values keep their own, and the widths and values the API reports match the emitted ones.",
  ["programs", "inputs", "histories"], "all uses of one or two parameters over values 1..4, two levels of hierarchy, all orders of setting",
  "Tests print one parameterised module.",
  ["src/expr.cc", "src/generator.cc", "src/codegen.cc", "src/stmt.cc"],
  [("Param", "src/expr.cc"), ("set_width_param", "src/expr.cc"), ("generate_parameters", "src/codegen.cc")],
  observe=["emitted text elaborated with the parameter values"])
prop("C21", "Writing output files always leaves the directory right",
  "After generating into an output directory that was empty, held an earlier version of the design, foreign files, or files torn at any point of an earlier interrupted run, every emitted module's file and the shared definition header hold exactly the current complete text, other files are untouched, and a module whose text did not change is not rewritten. Generating again immediately changes nothing.",
  ["crash_points", "histories", "configurations"], "all crash points/torn prefixes of an earlier run's writes, followed by a run of the same or a changed design",
  "Tests generate once into a fresh directory.",
  ["src/codegen.cc", "src/util.cc"],
  [("generate_verilog(output_dir)", "src/codegen.cc"), ("generate_verilog_pkg", "src/codegen.cc")],
  observe=["directory contents, write calls"])
prop("C22", "Imported modules get exactly the ports the source declares",
  "Importing an existing (System)Verilog source yields a generator with exactly the declared ports (names, directions, widths, signedness, packed dimensions) for every accepted formatting of the header, comments included, and instances of it are emitted with connections the source's header accepts while its own definition is not emitted again.",
  ["inputs", "programs"], "all headers up to 3 ports over directions, ranges, data types, separators, comment and whitespace placements",
  "Tests import one file.",
  ["src/generator.cc", "src/util.cc"],
  [("Generator::from_verilog", "src/generator.cc"), ("get_port_from_verilog", "src/util.cc")],
  observe=["ports of the generator", "emitted parent"])
prop("C23", "Constants are exactly representable or refused",
  "A constant of given width and signedness is accepted exactly when the value is representable in that many bits (two's complement when signed), for every width, and every accepted constant is emitted as a literal that has that width, signedness and value; changing its width or value later follows the same rule.",
  ["inputs"], "all widths 1..66 with all boundary values, all values for small widths, signed and unsigned, set/set-width sequences",
  "Tests sample a few constants.",
  ["src/expr.cc", "src/expr.hh"],
  [("Const::is_legal", "src/expr.cc"), ("Const::to_string", "src/expr.cc")],
  observe=["exception", "literal text"])
prop("C24", "Every recorded source line number points at the right emitted line",
  "With debug extraction on, the line recorded for each emitted declaration, statement, block and instance is the line of the generated file on which that construct appears, and each emitted statement's debug entry lists the source locations attached to it, for every combination of constructs preceding it in the file.",
  ["programs"], "all sequences of constructs up to a length bound, in single modules and hierarchies, with all code generation options",
  "Tests check a few line numbers of one design.",
  ["src/codegen.cc", "src/debug.cc", "src/stmt.hh"],
  [("Stream line counting", "src/codegen.hh"), ("extract_debug_info", "src/debug.cc"), ("fix_verilog_ln", "src/debug.cc")],
  observe=["verilog_ln vs. text", "extract_debug_info"])
prop("C25", "Removing instrumentation leaves exactly the plain design",
  "Removing assertions or event statements from a design removes all of them, however nested, and nothing else: the result behaves, for every input sequence, like the design written without them, and the extracted event information lists each event statement once with its fields and enabling condition.",
  ["programs", "inputs", "histories"], "all statement trees up to a size bound with instrumentation statements at every subset of positions",
  "Tests check one design.",
  ["src/event.cc", "src/transform.cc", "src/tb.cc", "src/optimize.cc", "src/analysis.cc"],
  [("remove_event_stmts", "src/event.cc"), ("remove_assertion", "src/transform.cc"), ("extract_event_info", "src/event.cc")],
  observe=["emitted text before and after"])
prop("C26", "Enable conditions and coverage describe real executions",
  "The enable condition computed for a statement holds in exactly those situations in which the statement executes, for every nesting of if/else and switch; and the statements reported as covered by a simulation run are exactly those that executed.",
  ["programs", "inputs"], "all nestings up to a depth bound, all values of the controlling signals, all short stimulus sequences",
  "Tests check one nesting and one run.",
  ["src/debug.cc", "src/fault.cc", "src/sim.cc", "src/analysis.cc"],
  [("compute_enable_condition", "src/debug.cc"), ("FaultAnalyzer::compute_hit_stmts / coverage", "src/fault.cc")],
  observe=["condition expression value, coverage sets"])
prop("C27", "Stubs, wrappers and library memories match the interface they stand for",
  "A stub generated for a module declares the same interface (names, directions, widths, types, parameters) with every output driven to zero; a flattening wrapper exposes every array element as its own port and behaves as the wrapped design; and a library memory composed of smaller macros or emulated behaves as one memory of the requested depth and width.",
  ["programs", "inputs", "histories"], "all small interfaces; memories over small capacities with all access histories of bounded length",
  "Tests check one instance each.",
  ["src/codegen.cc", "src/util.cc", "src/lib.cc", "src/transform.cc"],
  [("create_stub", "src/codegen.cc"), ("create_wrapper_flatten", "src/codegen.cc"), ("SinglePortSRAM", "src/lib.cc")],
  observe=["emitted text elaborated"])
prop("C28", "Shared type definitions are emitted once, complete and consistent",
  "Enumerations, packed structs, interfaces and imported functions used anywhere in a hierarchy are defined exactly once in a place visible to every use (module, package or header), with the declared members, values and widths; using an enum value or struct field anywhere behaves as its declared value, and conflicting definitions under one name are refused.",
  ["programs", "inputs"], "all small sets of type definitions over one to three using modules, with and without a package",
  "Tests check one enum and one struct.",
  ["src/codegen.cc", "src/context.cc", "src/generator.cc", "src/expr.cc"],
  [("generate_sv_package_header", "src/codegen.cc"), ("enum codegen", "src/codegen.cc"), ("extract_struct_info/extract_enum_info", "src/util.cc")],
  observe=["emitted text elaborated"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
for p in P:
    assert p["statement"].count(". ") <= 2, p["id"]
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
