import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)

p("C01","Combinational expressions compute their source-level value in hardware",
 "For every accepted combinational unit and every input value, the emitted Verilog drives the output with exactly the value the Spade expression denotes: + - * are exact in their widened result type, wrapping forms and trunc keep the low bits, sign and zero extension, casts between int, uint and bit arrays preserve value or bits as documented, comparisons and right shifts respect signedness, and if, let, blocks and literals mean what they say. This holds for all operand widths, including 0, 1 and widths above 32 and 64 bits. A well-typed unit of this kind is never rejected and never crashes the compiler.",
 ["programs","inputs"],"All well-typed combinational units over bool, int, uint, bit arrays and all input valuations.",
 "Unit tests compare the emitted text of a few fixed programs with stored text; they never execute the Verilog, and Verilog's context-dependent widths and signs make text correct for one width wrong for another.",
 ["spade-hir-lowering/src/lib.rs","spade-mir/src/codegen/mod.rs","spade-typeinference/src/expression.rs","spade-parser/src/expression.rs","spade-compiler/core/ops.spade","spade-compiler/stdlib/num.spade","spade-compiler/stdlib/conv.spade"],
 [("operator lowering (dual signed/unsigned operators)","spade-hir-lowering/src/lib.rs"),("forward_expression_code","spade-mir/src/codegen/mod.rs"),("width constraints of + - *","spade-typeinference/src/expression.rs")],
 ["spade::compile output file executed by a Verilog simulator"])
p("C02","Pattern matching selects the first matching arm; exhaustiveness is exact",
 "In every accepted match, if-let and destructuring let, the result is that of the first arm whose pattern (and guard) matches the value, with every binding equal to the corresponding part of the value. A match that leaves some value of the scrutinee type uncovered is rejected with an error, and a match whose unguarded arms cover every value is accepted.",
 ["programs","inputs"],"All matches over nested tuples, structs, enums, arrays, ints and bools, with guards, wildcards and bindings, and all scrutinee values.",
 "Tests pin the text of single small matches and a few accepted or rejected examples; both the priority encoding and the coverage algorithm are recursive over arbitrary pattern matrices.",
 ["spade-hir-lowering/src/lib.rs","spade-hir-lowering/src/pattern.rs","spade-hir-lowering/src/usefulness.rs","spade-mir/src/codegen/mod.rs","spade-ast-lowering/src/lib.rs"],
 [("usefulness algorithm","spade-hir-lowering/src/usefulness.rs"),("pattern condition lowering","spade-hir-lowering/src/lib.rs"),("priority casez emission","spade-mir/src/codegen/mod.rs")],
 ["compile verdict and simulated outputs"])
p("C03","Composite values are laid out consistently and projections invert constructors",
 "Reading a tuple element, struct field, array element, array slice or enum payload of a constructed value yields the value that was put there, for every type nesting and size including zero-sized parts. The bit layout at unit boundaries follows the documented representation: tuples and structs with the first member in the most significant bits, array element 0 in the least significant bits, enums with the variant tag on top followed by the payload.",
 ["programs","inputs"],"All finite nestings of bool, int, uint, tuple, array, struct, enum and Option types, all values, static and dynamic indices in range.",
 "Offsets and widths are computed arithmetically from nested sizes; tests fix a handful of shapes and zero-sized and one-bit shapes take separate code paths.",
 ["spade-mir/src/codegen/mod.rs","spade-mir/src/types.rs","spade-mir/src/enum_util.rs","spade-typeinference/src/mir_type_lowering.rs","spade-hir-lowering/src/lib.rs"],
 [("compute_tuple_index, array and enum member indexing","spade-mir/src/codegen/mod.rs"),("type sizes","spade-mir/src/types.rs")],
 ["simulated outputs against an independent bit-level encoder"])
p("C04","Registers, resets, initial values and memories behave cycle-accurately",
 "A register takes its input value at each rising edge of its own clock, its reset value when its reset is true at that edge, its initial value before the first edge, and otherwise never changes; registers declared with several names, feedback through declared-ahead names, and registers in different clock domains behave alike. A clocked memory write becomes visible to reads after its edge at exactly the written address when enabled, all other cells keep their contents, and initial contents are those given. Instances have state independent of one another.",
 ["programs","histories"],"All accepted entities over registers, memories and sub-instances, and all input and clock histories.",
 "Stored-text tests never run the design, so they say nothing about sequences of cycles, reset interplay or multiple clocks.",
 ["spade-hir-lowering/src/lib.rs","spade-mir/src/codegen/mod.rs","spade-mir/src/eval.rs","spade-hir-lowering/src/passes/flatten_regs.rs","spade-compiler/stdlib/mem.spade"],
 [("register statement emission","spade-mir/src/codegen/mod.rs"),("register pattern flattening","spade-hir-lowering/src/passes/flatten_regs.rs"),("initial value evaluation","spade-mir/src/eval.rs"),("DeclClockedMemory","spade-mir/src/codegen/mod.rs")],
 ["simulated outputs per cycle"])
p("C05","Pipelines align every value to its stage and deliver at the declared depth",
 "The output of a depth-N pipeline after each clock edge equals the value its body denotes for the inputs given N edges earlier, independent of how many stage statements, multi-stage registers, labels, relative or absolute stage references, sub-pipelines or nested blocks are used. A stage reference yields the named value as of the referenced stage, stage enables stall exactly the stages they should, and stage.valid and stage.ready report the documented handshake. A depth that does not match the number of stages, use of a value before its pipeline result is available, and out-of-range stage references are rejected.",
 ["programs","histories"],"All accepted pipelines and all input and enable histories; all mis-staged mutants for the rejection part.",
 "Tests pin the text of small pipelines; latency bookkeeping is a global substitution process whose errors show only as off-by-one data on multi-cycle traces.",
 ["spade-hir-lowering/src/pipelines.rs","spade-hir-lowering/src/substitution.rs","spade-hir-lowering/src/lib.rs","spade-ast-lowering/src/pipelines.rs"],
 [("stage register insertion and substitution","spade-hir-lowering/src/pipelines.rs"),("availability tracking","spade-hir-lowering/src/substitution.rs")],
 ["simulated outputs per cycle against a delay-line reference model","compile verdict"])
p("C06","Generics, traits, methods, lambdas and inlining do not change meaning",
 "A program using type or number generics, trait methods, inherent methods, named or defaulted argument forms, lambdas with captures, higher-order functions, compile-time branches, user infix calls or the inline attribute computes the same outputs as the program with every abstraction expanded by hand. Distinct instantiations of one generic unit never share or mix code, and every instantiation a reachable unit needs is emitted.",
 ["programs","inputs"],"All accepted programs over these abstraction features and all inputs.",
 "Monomorphisation, capture conversion and inlining compose; tests cover each alone, on one instantiation, as text.",
 ["spade-hir-lowering/src/monomorphisation.rs","spade-hir-lowering/src/inline.rs","spade-hir-lowering/src/passes","spade-ast-lowering/src/lambda.rs","spade-ast-lowering/src/impls.rs","spade-typeinference/src/method_resolution.rs","spade-ast-lowering/src/type_level_if.rs"],
 [("work-list monomorphiser","spade-hir-lowering/src/monomorphisation.rs"),("MIR inliner","spade-hir-lowering/src/inline.rs"),("lambda lowering","spade-hir-lowering/src/passes/lower_lambda_defs.rs"),("method selection","spade-typeinference/src/method_resolution.rs")],
 ["simulated outputs against the reference interpreter of the expanded program"])
p("C07","Bidirectional ports are driven exactly once and connected faithfully",
 "In every accepted program each inverted (driven-by-user) wire reachable in the design is set exactly once, and what is read from the other side of the port is the value that was set, through tuples, structs, arrays, generics, instances and transposition in either direction. Programs in which some inverted wire is unused, set twice, or used after being consumed, directly or inside aggregates, are rejected with an error.",
 ["programs","inputs"],"All accepted programs using ports and all values; all programs derived by dropping or duplicating one use of a linear value.",
 "The tests check small fixed programs; linearity has to be tracked through arbitrary nesting of aggregates, patterns, calls and methods.",
 ["spade-hir-lowering/src/linear_check/mod.rs","spade-hir-lowering/src/linear_check/linear_state.rs","spade-mir/src/codegen/mod.rs","spade-mir/src/passes/deduplicate_mut_wires.rs","spade-compiler/stdlib/ports.spade"],
 [("linear state tree","spade-hir-lowering/src/linear_check/linear_state.rs"),("backward expression emission","spade-mir/src/codegen/mod.rs"),("DeduplicateMutWires","spade-mir/src/passes/deduplicate_mut_wires.rs")],
 ["compile verdict; driver count and values in the simulated design"])
p("C08","Optimisation passes never change observable behaviour",
 "For every program, enabling any set of the optional optimisation passes, globally or by attribute on a unit, yields a design whose outputs equal those of the unoptimised design in every cycle in which the unoptimised outputs are defined. Enabling a pass never makes an accepted program fail to compile.",
 ["programs","histories","configurations"],"All accepted programs, all subsets and orders of passes, all input histories.",
 "Passes are tested on single hand-written modules by text comparison; equivalence is a statement about all input histories.",
 ["spade-mir/src/passes/auto_clock_gating.rs","spade-mir/src/passes/split_compound_regs.rs","spade-mir/src/passes/mod.rs","spade-hir-lowering/src/monomorphisation.rs"],
 [("auto clock gating","spade-mir/src/passes/auto_clock_gating.rs"),("compound register splitting","spade-mir/src/passes/split_compound_regs.rs")],
 ["lock-step simulation of optimised and unoptimised output"])
p("C09","Emitted Verilog is structurally well formed",
 "For every accepted program the output is syntactically valid Verilog in which every identifier is declared exactly once in its module before use, no wire has more than one driver or a driver of a different width, every instance names an emitted or external module and connects each of its ports once with equal widths, and module names are unique. User-chosen names, including ones that look like generated names or Verilog keywords and names reused in nested scopes, never collide.",
 ["programs"],"All accepted programs, with adversarially chosen names, shadowing, zero-sized values and assertion texts.",
 "No Verilog tool is run in the unit tests, and the stored texts contain only the names their authors chose.",
 ["spade-mir/src/codegen/mod.rs","spade-mir/src/codegen/util.rs","spade-mir/src/renaming.rs","spade-mir/src/aliasing.rs","spade-mir/src/unit_name.rs","spade-mir/src/verilog.rs"],
 [("name predictability pass","spade-mir/src/renaming.rs"),("escaping and mangling","spade-mir/src/codegen/util.rs"),("instance naming","spade-mir/src/unit_name.rs")],
 ["static monitor over the emitted text"])
p("C10","Compilation is deterministic and independent of scheduling and unrelated code",
 "Compiling the same sources with the same options twice, in different processes, with any number of worker threads, produces byte-identical Verilog, MIR, item list, wrapper and diagnostics. Adding unrelated items or reordering items and files changes neither acceptance nor the behaviour of the remaining units.",
 ["programs","schedules","configurations"],"All inputs, thread counts, thread interleavings, and hash seeds.",
 "Tests run each program once in one process; nondeterminism from hash iteration or parallel code generation appears only across runs and only in programs with several candidates.",
 ["spade-compiler/src/lib.rs","spade-hir-lowering/src/monomorphisation.rs","spade-typeinference/src/lib.rs","spade-compiler/src/name_dump.rs","spade-mir/src/unit_name.rs"],
 [("ordered collection after parallel codegen","spade-compiler/src/lib.rs"),("BTreeMap of executables","spade-compiler/src/lib.rs"),("name and id trackers","spade-common/src/id_tracker.rs")],
 ["bytes of all output files over repeated runs"])
p("C11","No input crashes the compiler and failed builds leave no output",
 "For any bytes given as source, the compiler terminates with success or with at least one error diagnostic, and never panics, overflows its stack on moderate nesting, or loops. It exits with failure exactly when an error was reported, and in that case writes or modifies none of the requested Verilog, MIR or item list files. Every reported location lies inside the named file on character boundaries.",
 ["inputs","programs","fault_sequences"],"All source texts, in particular mutated and truncated valid programs and unwritable outputs.",
 "The tests feed well-chosen erroneous programs; crash freedom ranges over all inputs.",
 ["spade-parser/src","spade-ast-lowering/src","spade-typeinference/src","spade-hir-lowering/src","spade-compiler/src/main.rs","spade-compiler/src/error_handling.rs","spade-diagnostics/src"],
 [("error recovery","spade-parser/src/lib.rs"),("ErrorHandler","spade-compiler/src/error_handling.rs"),("file writing gated on errors","spade-compiler/src/lib.rs")],
 ["exit status, files, diagnostics, panic hook"])
p("C12","Ill-typed programs are rejected and inference is sound",
 "Every accepted program is well typed: the widths and types of both sides of every binding, argument, operator, branch, return, field and register agree, integer literals fit their types, numeric and trait bounds and where-clauses hold, and safety, purity and instantiation-kind rules are obeyed. A program obtained from a well-typed one by introducing a single such violation is rejected with an error diagnostic, whether or not type annotations are written.",
 ["programs"],"All single-fault mutants of well-typed programs, in any annotation style.",
 "Tests list specific erroneous snippets; unification order, deferred requirements and constraint propagation depend on the whole program.",
 ["spade-typeinference/src/lib.rs","spade-typeinference/src/constraints.rs","spade-typeinference/src/equation.rs","spade-typeinference/src/requirements.rs","spade-ast-lowering/src/lib.rs"],
 [("unification","spade-typeinference/src/lib.rs"),("constraint bundle solver","spade-typeinference/src/constraints.rs"),("deferred requirements","spade-typeinference/src/requirements.rs")],
 ["compile verdict"])
p("C13","Meaning is independent of source formatting and of harmless rewriting",
 "Inserting or removing comments, documentation, whitespace and redundant parentheses, writing an integer literal in another base or with separators, using positional or named arguments, adding an annotation that was inferred, and consistently renaming user identifiers leave acceptance and hardware behaviour unchanged; the errors of a rejected program stay the same and point at the same tokens. Operator precedence and associativity are those documented, so a fully parenthesised program equals its minimally parenthesised form.",
 ["programs","inputs"],"All accepted programs and all compositions of these rewrites.",
 "Parser tests check one spelling of each construct.",
 ["spade-parser/src/lib.rs","spade-parser/src/expression.rs","spade-ast/src/token.rs","spade-ast-lowering/src/lib.rs","spade-hir/src/param_util.rs"],
 [("lexer","spade-ast/src/token.rs"),("Pratt expression parser","spade-parser/src/expression.rs"),("argument matching","spade-hir/src/param_util.rs")],
 ["emitted Verilog and simulated outputs of both spellings"])
p("C14","Simulation interface encodes, decodes and accesses values as the hardware does",
 "A testbench that loads the saved compiler state can evaluate any Spade constant expression of a port's type to exactly the bits the hardware uses, read any field path of an output as exactly the bits at that field, and compare an output with an expected expression: equal values compare equal ignoring undefined padding, different values compare different. Saving and reloading the compiler state loses nothing needed for this.",
 ["programs","inputs","histories"],"All unit port types and values, field paths, and sequences of requests on one loaded state.",
 "Cocotb and verilator tests are not run here; unit tests do not touch this interface.",
 ["spade-simulation-ext/src/lib.rs","spade-simulation-ext/src/field_ref.rs","spade-compiler/src/compiler_state.rs","spade-mir/src/eval.rs"],
 [("snippet compilation and evaluation","spade-simulation-ext/src/lib.rs"),("constant evaluation of MIR","spade-mir/src/eval.rs"),("state serialisation","spade-compiler/src/compiler_state.rs")],
 ["simulation extension API against an independent encoder"])
p("C15","Waveform translation shows the source-level value of every signal",
 "For every type and every bit pattern, the textual translation of a signal value names the variant, fields and elements that the bits encode, with signed and unsigned numbers in their own value, and undefined or high-impedance bits never shown as defined numbers. For every signal of every module instance in the design, looking up its hierarchical Verilog name in the saved compiler state yields the source-level type whose size equals the width of that signal.",
 ["programs","inputs"],"All types, all 4-valued bit patterns, all signals of all accepted designs.",
 "Existing tests translate a few fixed values and one fixed hierarchy.",
 ["vcd-translate/src/translation.rs","spade-compiler/src/compiler_state.rs","spade-mir/src/renaming.rs","spade-mir/src/unit_name.rs"],
 [("value translation","vcd-translate/src/translation.rs"),("type_of_hierarchical_value","spade-compiler/src/compiler_state.rs"),("VerilogNameMap","spade-mir/src/renaming.rs")],
 ["translation API against an independent decoder; declarations of emitted modules"])
p("C16","Standard library units satisfy their documentation",
 "Every documented example of the standard library holds in hardware, and beyond the examples each array, number, option and conversion function returns the documented result for every input and every size. The FIFO delivers every accepted element exactly once and in order under any clocking and back-pressure, never reads when empty or accepts when full, and the clock-domain crossing and edge-detection units satisfy their documented timing.",
 ["inputs","histories","schedules"],"All inputs and sizes of the combinational functions; all push, pop, reset and clock interleavings of the sequential ones.",
 "The documented examples are not executed by the unit tests and give one value per function.",
 ["spade-compiler/stdlib/array.spade","spade-compiler/stdlib/num.spade","spade-compiler/stdlib/conv.spade","spade-compiler/stdlib/option.spade","spade-compiler/stdlib/mem.spade","spade-compiler/stdlib/cdc.spade","spade-compiler/stdlib/io.spade","spade-compiler/stdlib/ops.spade","spade-compiler/stdlib/default.spade","spade-compiler/core/ops.spade"],
 [("library sources","spade-compiler/stdlib")],
 ["simulated assertion monitors and history checkers"])
p("C17","Names resolve to the visible lexical definition and privacy is enforced",
 "Every name denotes the innermost preceding binding or the item reached by its path, across shadowing in blocks, match arms, lambdas, modules, use statements with renames, re-exports, lib and super prefixes, and several files and namespaces. Referring to an item, or through a path segment, that is private to another module is rejected, as is an unknown name, and declaring two items with one name in a scope is rejected.",
 ["programs"],"All module trees, visibility assignments, use graphs and scope nestings.",
 "Tests list small fixed module trees.",
 ["spade-hir/src/symbol_table.rs","spade-ast-lowering/src/global_symbols.rs","spade-ast-lowering/src/lib.rs","spade-common/src/name.rs","spade-compiler/src/namespaced_file.rs"],
 [("scoped symbol table with aliases and visibility","spade-hir/src/symbol_table.rs"),("gathering of global symbols","spade-ast-lowering/src/global_symbols.rs")],
 ["simulated value identifying the resolved definition; compile verdict"])
p("C18","Compile-time arithmetic is exact",
 "Type-level number expressions, their use in array sizes, integer widths, pipeline depths, generic arguments, compile-time conditions and where-clauses, and constant initial values evaluate to the mathematically exact result for all magnitudes. A where-clause is accepted exactly when its condition is true, and a literal is accepted exactly when it fits its type.",
 ["programs","inputs"],"All type-level expressions over + - * / %, comparison, bits_for, log2 and all argument values.",
 "Tests use single small constants.",
 ["spade-typeinference/src/constraints.rs","spade-typeinference/src/equation.rs","spade-ast-lowering/src/type_level_if.rs","spade-mir/src/eval.rs","spade-hir-lowering/src/lib.rs"],
 [("ConstraintExpr evaluation","spade-typeinference/src/constraints.rs"),("gen-if pruning","spade-ast-lowering/src/type_level_if.rs"),("literal range check","spade-typeinference/src/requirements.rs"),("eval_statements","spade-mir/src/eval.rs")],
 ["simulated constants, emitted widths, compile verdict"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(d)+'\n' for d in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for d in P:
    jsonschema.validate(d,s)
    import os
    for f in d['anchors']['files']:
        if not os.path.exists('/repo/'+f): print('missing',d['id'],f)
    for m in d['anchors']['mechanism']:
        if not os.path.exists('/repo/'+m['where']): print('missing',d['id'],m['where'])
