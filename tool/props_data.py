P("C01", "IR nodes report and replace every child, type and variable they hold",
  "For every intermediate-representation node, the queries for used values, types and variables return every such reference the node holds, once it is set, and nothing the node does not hold (no null, no reference it only might have). "
  "Replacing a value, type or variable rewrites every reference that matches and no other, at every position, and returns the number of references rewritten. "
  "Queries and replacements terminate and work for every optional part being absent.",
  ["inputs", "programs"], "every node class, every combination of present and absent optional parts, every container length, every position of the matching reference",
  "tests build one node of some classes with one choice of optional parts; a missing position shows only in a pass that walks or rewrites that position",
  ["codon/cir/flow.cpp", "codon/cir/instr.cpp", "codon/cir/func.cpp", "codon/cir/var.cpp", "codon/cir/value.cpp", "codon/cir/const.h", "codon/cir/types/types.cpp", "codon/cir/transform/parallel/schedule.cpp", "codon/cir/analyze/dataflow/cfg.h"],
  [("getUsed*/replaceUsed* of each node class", "codon/cir/base.h"), ("doGetUsed*/doReplaceUsed* hooks", "codon/cir/flow.cpp")],
  "abstract interpretation of every query/replace method against the class's field layout",
  "Every path of every query and replacement method of every node class is compared with the references found in the class's own field layout.")
P("C02", "Cloning IR yields an equivalent graph that shares no internal node",
  "A clone of an intermediate-representation node has the same class and the same value in every semantic field, and every child value, local variable and loop is replaced by its clone while module-level entities and types are shared. "
  "References to a node from inside itself (jumps to enclosing loops, recursive functions, arguments) refer to the clone, and cloning the same node twice with one cloner gives the same clone. "
  "Every attribute that asks to be cloned is cloned, with all of its fields.",
  ["inputs", "programs"], "every node class and attribute class, every combination of field values, every nesting",
  "tests clone a few node kinds with default fields; a field that is dropped or shared is visible only when it is non-default or the original is later mutated",
  ["codon/cir/util/cloning.cpp", "codon/cir/util/cloning.h", "codon/cir/attribute.cpp", "codon/cir/attribute.h"],
  [("one clone rule per node class", "codon/cir/util/cloning.cpp"), ("attribute clone methods", "codon/cir/attribute.cpp")],
  "abstract interpretation of clone rules: field-by-field flow from original to copy",
  "Each clone rule is interpreted on a symbolic node and the resulting object is compared field by field with the original.")
P("C03", "Structural matching compares every semantic part of two IR nodes",
  "Two intermediate-representation nodes are reported as matching only when they are of the same class and every semantic field agrees: constants, types, operands in order, flags, schedules, handlers, pipeline stages and jump targets. "
  "Variable identities are required to agree exactly when the caller asks for it and names are compared exactly when asked for, at every nesting level. "
  "A node matches itself and its clone.",
  ["inputs", "programs"], "every pair of nodes of every class, both settings of both options, every nesting depth",
  "tests compare one equal and one unequal pair for some classes; a field left out of the comparison only shows for pairs that differ in just that field",
  ["codon/cir/util/matching.cpp", "codon/cir/util/matching.h"],
  [("match visitor: one rule per node class", "codon/cir/util/matching.cpp")],
  "abstract interpretation of match rules: every accepting path must compare every field",
  "Decides that no accepting path skips a field; custom nodes supply their own comparison and are out of scope.")
P("C04", "Operating on a replaced IR node operates on its replacement",
  "Once a node has been replaced, every public query or change of it - name, attributes, module, children, types, variables, class tests, casts, visits and the kind-specific accessors of values, variables and types - acts on the last node of the chain of replacements and never on the fields of the replaced node itself. "
  "A chain of replacements of any length resolves to its end, and a node that was not replaced resolves to itself.",
  ["histories", "inputs"], "every public operation of the replaceable node roots and every visit or class test of every node class; chains of replacements of any length",
  "tests replace a node once and query it through one or two accessors; an accessor that reads the stale node only shows after a replacement (or two) and through that accessor",
  ["codon/cir/base.h", "codon/cir/base.cpp", "codon/cir/value.h", "codon/cir/value.cpp", "codon/cir/var.h", "codon/cir/types/types.h", "codon/cir/types/types.cpp"],
  [("ReplaceableNodeBase, Node accessors", "codon/cir/base.h"), ("getActual() in Value, Var and Type accessors", "codon/cir/value.h")],
  "field read/write effects of each accessor, interpreted on a replaced node",
  "The effect analysis runs each operation on node -> replacement -> final replacement and reports any field of the first two that is used.")
P("C05", "Every IR class has one identity, and casts and visits follow it",
  "Every class of intermediate-representation node has an identity distinct from all others; a class test succeeds exactly for the class of the node and its ancestors, so a cast never yields an object of another class. "
  "Accepting a visitor calls the visitor's rule for exactly that class with the node itself, once; a visitor with no rule for the class reaches its default. "
  "No two attribute classes share an identifier, so an attribute is never read as one of another class.",
  ["inputs"], "every pair of node classes, every attribute class, mutable and constant visitors",
  "tests cast and visit a few classes; a wrong identity is an unchecked downcast that shows only for the pair of classes involved",
  ["codon/cir/base.h", "codon/cir/util/visitor.cpp", "codon/cir/util/visitor.h", "codon/cir/attribute.h", "codon/cir/instr.h", "codon/cir/flow.h"],
  [("AcceptorExtend and node identities", "codon/cir/base.h"), ("default visits", "codon/cir/util/visitor.cpp"), ("AttributeID constants", "codon/cir/attribute.h")],
  "exhaustive evaluation of class tests and dispatch over the class table",
  "The class test is interpreted for every pair of classes; identities and attribute identifiers are resolved from the declarations.")
P("C06", "Walking the IR handles every reachable node once with its true parents",
  "The walker that optimisation passes are built on enters the main function, every other function, every function body and every child of every node that was not entered before, and never leaves a walk early. "
  "For each node the before-hook, the handler and the after-hook run once, in this order, with the children before or after as requested. "
  "While a child is walked its parent is on the parent stack, and the stack is restored on every path.",
  ["inputs", "programs"], "every node class, both child orders, every sharing of children between parents",
  "tests walk small trees without shared children in one order; a skipped sibling or a stale parent shows only for a sharing pattern or order that no test has",
  ["codon/cir/util/operator.h", "codon/cir/util/visitor.cpp"],
  [("Operator::visit/processChildren", "codon/cir/util/operator.h")],
  "path-sensitive typestate of the walker: hook order, stack balance and children entered on every path",
  "The walk methods are interpreted on every path, for a generic child.")
P("C07", "Optimisation passes run on fresh analysis results of the right kind",
  "In every standard pipeline (debug, release, JIT) a pass or analysis reads only results of analyses it is registered to require, under keys of analyses that produce the kind of result it expects. "
  "Whenever a pass runs or repeats, the required analyses and everything they depend on have been computed on the program as the previous pass left it: running a pass invalidates what it declares and, transitively, every result that depends on it. "
  "Groups pass the manager and the module to every pass they hold, disabled keys are not registered, constructs the code generator refuses are lowered in every pipeline, and the JIT pipeline never demotes globals.",
  ["histories", "inputs"], "every pipeline mode, every pass and repetition in it, every dependency graph between analyses",
  "tests run single passes with hand-made managers; a stale or missing result shows only for the program and pass order in which it matters",
  ["codon/cir/transform/manager.cpp", "codon/cir/transform/manager.h", "codon/cir/transform/pass.cpp", "codon/cir/transform/pass.h", "codon/cir/transform/folding/folding.cpp", "codon/cir/analyze/analysis.h"],
  [("PassManager::registerStandardPasses", "codon/cir/transform/manager.cpp"), ("PassManager::runPass, runAnalysis, invalidate", "codon/cir/transform/manager.cpp"), ("PassGroup::run/setManager", "codon/cir/transform/pass.cpp")],
  "abstract interpretation of the registration code, simulation of result freshness, path analysis of the manager",
  "The pipelines are read from the source; every pass is assumed to change the program. Staleness inside a group of passes is by design and out of scope.")
P("C08", "Constant folding yields what the folded operation computes at run time",
  "Every rewrite rule of the constant-folding pass fires only on calls of the magic method it is written for, with operands of its types and the constants it requires, and yields the value and type that method computes: the right operator and operand order, Python quotient and remainder for every combination of signs in Python mode, truncation otherwise. "
  "No rule divides by a constant zero in Python mode (the exception stays), traps in the compiler, or drops an operand that may have side effects. "
  "The numeric mode chosen for the program reaches every folding pass, and the operators used to build IR call the method of that operator on their operands in order.",
  ["inputs", "programs"], "every registered rule, both numeric modes, all constant operands incl. zero, negative and extreme ones",
  "tests fold a few positive constants; a wrong rule shows only for particular signs, zero divisors or effectful operands",
  ["codon/cir/transform/folding/const_fold.cpp", "codon/cir/transform/folding/rule.h", "codon/cir/transform/rewrite.h", "codon/cir/value.cpp", "codon/cir/transform/manager.cpp", "codon/compiler/compiler.cpp"],
  [("FoldingPass::registerStandardRules", "codon/cir/transform/folding/const_fold.cpp"), ("rule classes", "codon/cir/transform/folding/rule.h"), ("operators of Value", "codon/cir/value.cpp")],
  "abstract interpretation of each rule to its result term; algebraic tables and a sign domain decide the term",
  "Rules are read from the registration code. Overflow of + - * and shifts by out-of-range counts, and floating-point rounding, are not judged.")
P("C09", "Nothing with an observable effect is reported as free of side effects",
  "The side-effect analysis over-approximates: the status of a construct is at least that of everything it evaluates or calls (every operand, branch, loop body, schedule operand, pipeline argument, handler), at least the assigned variable's if it assigns, loops over or catches into one, and never free of effects for returns, yields, throws, breaks, continues and member updates. "
  "A call of an unknown function is unknown; a function's status covers its whole body and that of its callees, analysing a callee never forgets the effects of its caller, and attributes that declare a function pure map to the status they name. "
  "A value the analysis has no result for counts as having effects.",
  ["programs"], "every construct with every operand, all nestings and orders of analysis, both treatments of global assignments",
  "tests check a handful of functions; a forgotten operand makes a later pass delete code only in programs with an effect exactly there",
  ["codon/cir/analyze/module/side_effect.cpp", "codon/cir/analyze/module/side_effect.h", "codon/cir/util/side_effect.cpp", "codon/cir/util/side_effect.h"],
  [("visit methods of the side-effect analyser", "codon/cir/analyze/module/side_effect.cpp"), ("SideEffectResult::hasSideEffect", "codon/cir/analyze/module/side_effect.cpp")],
  "abstract interpretation of each visit: the recorded status as a join of operand statuses",
  "Trusts the attributes of library functions. The special case of member updates on objects that do not escape is taken as it is.")
P("C10", "Clean-up passes remove or replace only code that is dead or constant",
  "Dead-code elimination removes a statement only if it has no side effects, takes the branch a constant condition selects (and nothing when that branch is absent), and removes a loop only if its condition is constantly false or its constant bounds and step make it run zero times. "
  "Constant propagation replaces a variable only by the constant of its single known reaching definition, a field only by that of the tuple constructed there, and a global only if it is assigned once, is not thread-local, its address is not taken and no loop or handler assigns it. "
  "Only globals used by exactly one function that are not external, thread-local or the argument vector become locals.",
  ["programs"], "every handler of the clean-up passes on every path, all constant bounds and steps, every number of using functions",
  "tests exercise few shapes; removing a live construct shows only in programs with that shape and value (a loop counting down, a third user)",
  ["codon/cir/transform/cleanup/dead_code.cpp", "codon/cir/transform/folding/const_prop.cpp", "codon/cir/transform/cleanup/global_demote.cpp", "codon/cir/analyze/module/global_vars.cpp"],
  [("DeadCodeCleanupPass::handle", "codon/cir/transform/cleanup/dead_code.cpp"), ("ConstPropPass::handle", "codon/cir/transform/folding/const_prop.cpp"), ("GlobalDemotionPass::run", "codon/cir/transform/cleanup/global_demote.cpp"), ("GlobalVarAnalyzer", "codon/cir/analyze/module/global_vars.cpp")],
  "path conditions of every removal/replacement, compared with the facts that justify it",
  "Relies on C09 for side effects. Reading a global before its only assignment is treated as reading the assigned constant, as the pass does.")
P("C11", "Canonicalising expressions keeps their value",
  "Every rewrite of the canonicalisation pass follows from laws its methods declare: operands are swapped only under commutativity, regrouped only under associativity, factored out or multiplied in only under distributivity (and swapped factors only if the multiplication commutes as well). "
  "The rewritten calls have operands of the types their methods take, nothing with side effects is reordered, duplicated or dropped by them, and opposite comparisons are used only for operands swapped with them. "
  "Flattening nested statement groups keeps every statement once and in order.",
  ["programs"], "every rewrite rule, every combination of declared laws, all operand shapes and types",
  "tests canonicalise commutative built-in arithmetic; a wrong law shows only for a type whose operators lack it",
  ["codon/cir/transform/cleanup/canonical.cpp", "codon/cir/transform/cleanup/canonical.h", "codon/cir/util/irtools.cpp"],
  [("canonicalisation rules", "codon/cir/transform/cleanup/canonical.cpp"), ("CanonicalizationPass::handle", "codon/cir/transform/cleanup/canonical.cpp")],
  "abstract interpretation of each rule to its result term; equality modulo the laws the path has tested",
  "Trusts the algebraic attributes of library methods. Ranking of operands (which order is chosen) is not judged.")
P("C12", "The control-flow graph contains every order of execution",
  "For every construct, each order in which its parts can be executed is a path of the control-flow graph: operands left to right, both branches, zero or more loop iterations with the update of the loop variable, break and continue to the loop they name, return to the end, an exception from anywhere in a protected body to its handlers and outwards, and finally branches on every way out. "
  "Every value is located in the block in which it is evaluated, loop and exception variables are assigned where they get their value, and each function with a body has a graph.",
  ["programs"], "every construct, all nestings of loops and protected regions, every kind of exit",
  "tests build a few graphs without nested exits; a missing edge makes later optimisations delete or move live code only in programs with that exit",
  ["codon/cir/analyze/dataflow/cfg.cpp", "codon/cir/analyze/dataflow/cfg.h"],
  [("CFVisitor visit methods", "codon/cir/analyze/dataflow/cfg.cpp"), ("CFGraph and buildCFGraph", "codon/cir/analyze/dataflow/cfg.cpp")],
  "abstract interpretation of each visit building a symbolic graph; the required words are checked against its language",
  "Exceptions are modelled at block granularity, as the graph does.")
P("C13", "Reaching definitions and dominance never claim more than holds on every path",
  "Every assignment whose value can be the value of a local variable at a location is in the (non-empty) answer of the reaching-definitions analysis for that variable and location; where the analysis cannot know (globals, variables whose address is taken, before any definition) the answer is empty. "
  "A definition carries a value only if the assignment stores exactly that value. A value is said to be dominated by another only if every path from the entry of the function passes the other first. Every function with a graph gets both results.",
  ["programs"], "every control-flow graph, every variable and location, any number of blocks and definitions",
  "tests query a few straight-line functions and one loop; a lost definition shows only in a graph that needs another round of the fixed point or has the definition on a rare path",
  ["codon/cir/analyze/dataflow/reaching.cpp", "codon/cir/analyze/dataflow/reaching.h", "codon/cir/analyze/dataflow/dominator.cpp"],
  [("RDInspector::analyze and getReachingDefinitions", "codon/cir/analyze/dataflow/reaching.cpp"), ("DominatorInspector::analyze and isDominated", "codon/cir/analyze/dataflow/dominator.cpp")],
  "symbolic set terms of gen/kill, transfer and result loops, compared with the data-flow equations by truth table; exits of the fixed-point loops",
  "Takes the control-flow graph as it is (C12). Precision is not judged: an answer with too many definitions, or dominance answered false, is accepted.")
P("C14", "A copied syntax tree is complete and independent, and clean if asked to be",
  "Copying a node of the abstract syntax tree (every generic function, class and template is copied before each instantiation) yields a new node of the same kind owned by the same cache: every child is itself copied, every other field and the source location keep their value, and attributes are kept. "
  "A clean copy asks the same of every child and carries no types, no `done` marks and only attributes which do not depend on type checking; an ordinary copy keeps them. "
  "Copying parameters, arguments and other parts of nodes obeys the same rules.",
  ["inputs", "programs"], "every kind of node, every field, both modes of copying, all nestings",
  "tests instantiate few generics; a dropped or shared field shows only when that construct occurs in code that is instantiated a second time",
  ["codon/parser/ast/expr.cpp", "codon/parser/ast/stmt.cpp", "codon/parser/ast/expr.h", "codon/parser/ast/stmt.h", "codon/parser/ast/node.h", "codon/parser/ast/attr.h"],
  [("copy constructors and clone of expressions", "codon/parser/ast/expr.cpp"), ("copy constructors and clone of statements", "codon/parser/ast/stmt.cpp"), ("generic clone helpers", "codon/parser/ast/node.h")],
  "abstract interpretation of clone and the copy constructors; every field of the result compared with the original",
  "The signature cache of functions is derived from copied data and not judged.")
P("C15", "The default visitors of the syntax tree reach every child",
  "Accepting a visitor calls the visit method of the node's own kind. Unless overridden, the visitors that walk the tree (searching for identifiers, unresolved nodes, documentation) transform every child expression and statement of every kind of node exactly once, and the replacing visitor stores each result back in the place it came from.",
  ["programs"], "every kind of node and every child it can have, optional children present or absent",
  "tests run few programs through these visitors; a skipped child shows only for that construct (an else of a try, an argument of a parallel loop)",
  ["codon/parser/visitors/visitor.h", "codon/parser/visitors/visitor.cpp", "codon/parser/ast/expr.cpp", "codon/parser/ast/stmt.cpp"],
  [("CallbackASTVisitor and ReplacingCallbackASTVisitor", "codon/parser/visitors/visitor.h"), ("accept of expressions and statements", "codon/parser/ast/expr.cpp"), ("ASTVisitor", "codon/parser/visitors/visitor.cpp")],
  "abstract interpretation of every visit and accept; the transformed children compared with the fields that hold nodes",
  "Visitors with their own visit methods are not covered by this property.")
P("C16", "Unification succeeds only for types that agree, and failure leaves no trace",
  "Two types unify only if all their components do: the same class name and number of generics and every (hidden) generic, the same function, parent and function generics, equal static values, equal members of unions, the signature a trait asks for. A failed component fails the whole. "
  "A variable is linked only to a type that does not contain it, has its trait and its kind of literal, and newer variables are linked to older ones; variables that become part of an older one take its level. "
  "A type is changed only if an undo record is given, every change is in the record, and undoing (done whenever a unification fails or was only a test) restores the state before.",
  ["inputs", "programs", "histories"], "every kind of type and every path through unification, all orders of changes before a failure",
  "tests unify few types; a leak of a failed attempt shows only when a later overload or branch uses the variable it changed",
  ["codon/parser/ast/types/class.cpp", "codon/parser/ast/types/function.cpp", "codon/parser/ast/types/link.cpp", "codon/parser/ast/types/static.cpp", "codon/parser/ast/types/traits.cpp", "codon/parser/ast/types/type.cpp", "codon/parser/ast/types/union.cpp", "codon/parser/cache.cpp", "codon/parser/visitors/typecheck/special.cpp"],
  [("unify methods", "codon/parser/ast/types/class.cpp"), ("LinkType::unify and occurs", "codon/parser/ast/types/link.cpp"), ("Unification::undo and operator<<", "codon/parser/ast/types/type.cpp")],
  "effect analysis and abstract interpretation of every path of unify, occurs and undo with uninterpreted recursive calls",
  "Homogeneous tuples and unrealised types have rules of their own, taken as they are. The occurs check is required for the generics of classes, as in the code.")

P("C17", "Generalizing, instantiating, asking and naming types involve every component",
  "Generalizing or instantiating a type gives a new type of the same class in which every component (generic and hidden generic, function generic, parent, pending member of a union, argument of a trait) is the generalized (instantiated) one and everything else is kept; within one instantiation every use of a generic becomes the same fresh variable, of the asked level, "
  "with the same kind of literal, name, default and trait, and a generalized variable keeps its number and all of these. "
  "A type is said to have no unbounds, to be realizable or instantiated only if every component is, and the opposite only because of a component; the list of unbounds has those of each component. "
  "Realized names contain the names of the class, the parent and all named components, are remembered only when final, and the names of different static values differ (escaped strings can be read back).",
  ["inputs", "programs"], "every kind of type, every list of components, every static string, and every memo state of an instantiation",
  "tests use few generic classes; an overlooked hidden generic, default or parent shows when two instantiations are mixed up far from the cause",
  ["codon/parser/ast/types/class.cpp", "codon/parser/ast/types/function.cpp", "codon/parser/ast/types/link.cpp", "codon/parser/ast/types/static.cpp", "codon/parser/ast/types/traits.cpp", "codon/parser/ast/types/union.cpp", "codon/parser/common.cpp"],
  [("generalize, instantiate, hasUnbounds, canRealize, realizedName of each class", "codon/parser/ast/types/class.cpp"), ("type variables", "codon/parser/ast/types/link.cpp"), ("escape, unescape", "codon/parser/common.cpp")],
  "abstract interpretation of the methods of all type classes with uninterpreted recursive calls; each component of the result, answer or name is judged on every path",
  "A function can be realized although its return type is open, and its list of unbounds leaves the return type out, as in the code.")
P("C18", "Translation to the IR keeps every part of the program exactly once, in its place",
  "Translating an expression or statement of the typed syntax tree gives the IR node of that construct whose operands, bodies and types are the translations of the corresponding parts: every present part is translated exactly once, absent parts stay absent, and statements go to the series they belong to (bodies, branches, handlers, finally and else to their own; all else to the enclosing one), in order. "
  "Arguments, pipeline stages (their arguments, the slot of the previous result, generator and parallel marks), handlers, and elements of list, set, dictionary and partial literals keep number and order. "
  "Variables are found, made once with the type of their value, entered in the enclosing function and scope; asynchronous, thread-local, external, generator and schedule marks are carried over; the stacks of series, functions, scopes and literals are left as found. Each pending realization of a function is generated exactly once with the names, types and attributes of its declaration.",
  ["inputs", "programs"], "every kind of syntax node with every combination of present and absent parts, lists of any length",
  "tests run small programs end to end; a lost finally, a swapped chunk or a mark dropped from the last stage changes results only in rare programs",
  ["codon/parser/visitors/translate/translate.cpp", "codon/parser/visitors/translate/translate_ctx.cpp"],
  [("visitors of every expression and statement", "codon/parser/visitors/translate/translate.cpp"), ("transformFunction, transformLLVMFunction", "codon/parser/visitors/translate/translate.cpp")],
  "abstract interpretation of each visitor with translation of the parts left uninterpreted; the made IR node, the trace of translations and the modelled stacks are judged on every path",
  "Which instructions evaluate operands in the emitted order is the matter of code generation; for dominated variables the second entry in the function's list, as in the code, is accepted.")

P("C19", "IR types are unique by name, and carry what the checked types they stand for say",
  "The module has one type object per name: a getter returns the existing type of exactly the name its new type would have, or makes one, of the kind and from the arguments asked for; different arguments (base, width, sign, count, members in order) give different names, and families of types do not share names. "
  "A type counts as free of pointers for the collector only if it is primitive or everything it holds is. Members are found by name and keep order, with types and names paired. "
  "For every realized type the type checker makes, once, the IR type of its kind, from its own arguments, knowing the type it stands for and found again afterwards, polymorphic exactly when its class has run-time type information; for every realized function the IR function of its kind with its result type, its run-time parameters in order, and the variadic mark. "
  "Objects are stored in, found in and removed from the module's tables together, and each arena owns exactly what is stored while it is the last.",
  ["inputs", "programs"], "every type that can be asked for or realized, any number of members and parameters",
  "two types that share a name, or a record wrongly called atomic, give memory corruption only for particular combinations of types and collections",
  ["codon/cir/module.cpp", "codon/cir/types/types.cpp", "codon/cir/types/types.h", "codon/cir/func.cpp", "codon/parser/visitors/typecheck/infer.cpp"],
  [("getters and storage of types", "codon/cir/module.cpp"), ("names, atomicity and members", "codon/cir/types/types.cpp"), ("makeIRType, makeIRFunction", "codon/parser/visitors/typecheck/infer.cpp")],
  "abstract interpretation of getters, name functions, atomicity and member queries, makeIRType, makeIRFunction and the module's storage; keys of lookups are compared with names of made types as terms, per path",
  "Whether the representation LLVM gives a type matches its IR type belongs to code generation.")

P("C20", "The LLVM code made for control flow and operations does what the IR node means",
  "For every IR flow, instruction, value, constant and function, the blocks, branches, stores, loads and calls emitted for it, followed from its start on every path, evaluate its parts once each, in order and in the right operands, branch on its condition, store into its targets, and leave its value and its end where the code that follows continues: loops test, advance and repeat as their kind says, break and continue reach the loop they name, through each finally part between, and calls unwind to the innermost try, catch cleanup or finally part. "
  "A try statement runs its body inside it and its handlers and else part outside, gives an exception to the first handler of its type, its own before enclosing ones, passes the rest on, and runs its finally part once on every way out, which then goes on to where it was heading; an exception in a handler goes to the enclosing statement. "
  "A function has its linkage, attributes and storage for each parameter and variable, and a generator the frame, the promise, the suspension at start and every yield, and the final one, that its kind asks for.",
  ["programs", "inputs"], "every IR tree, any number of loops, try statements, parameters and iterations",
  "the tests run a fixed set of programs; a jump that skips a finally part or a handler that is out of order only shows in particular nestings",
  ["codon/cir/llvm/llvisitor.cpp", "codon/cir/llvm/llvisitor.h", "codon/cir/flow.h", "codon/cir/instr.h"],
  [("visit(...) of every node, makeYield, call", "codon/cir/llvm/llvisitor.cpp"), ("TryCatchData, LoopData and their stacks", "codon/cir/llvm/llvisitor.h")],
  "abstract interpretation of each visit with a symbolic LLVM IR builder; the resulting graph of blocks is walked from the start block, with the state of try statements followed, and the effects on each path are compared with those the node's meaning prescribes",
  "One known finding: an exception in a handler inside further try statements (TryCatchFlow:rethrow-nested). What LLVM makes of the code, numeric semantics of instructions, debug information and the bodies of library functions are not covered.")

P("C21", "Lowering passes and inlining put an equivalent tree in a node's place",
  "Every loop, pipeline, await and async-for that a lowering pass replaces is replaced by a tree that does what it did, for every shape of its parts: an imperative loop has the start, step, end, variable, body and schedule of the range or list it comes from (a loop whose iterator or step is not known is left alone), a pipeline stage is called once with the item or value before it in the place left open and loops (in parallel as its stage says) exactly after a generator stage, and await and async-for wait, yield, check for cancellation and take the result in the prescribed order. "
  "Inlining assigns each argument, as the caller sees it, to a fresh copy of its parameter, runs a copy of the body with its own variables, and turns each return into the assignment or evaluation of its value and, unless it is the last thing done, a jump out of a loop that is run once; a function that needs that loop is inlined only when asked, and one whose parameters do not match never. "
  "New variables become variables of the function they are used in.",
  ["programs", "inputs"], "every IR tree a pass can meet, any number of stages, arguments and nested returns",
  "the tests lower a few loops and pipelines and inline three functions; recursion, missing results and returns in nested blocks each need their own shape",
  ["codon/cir/transform/lowering", "codon/cir/util/inlining.cpp", "codon/cir/util/irtools.cpp"],
  [("ImperativeForFlowLowering, PipelineLowering, AwaitLowering, AsyncForLowering", "codon/cir/transform/lowering"), ("inlineFunction, inlineCall", "codon/cir/util/inlining.cpp")],
  "abstract interpretation of each pass with symbolic node construction; the tree built on each path is compared with the one the node's meaning prescribes under the conditions of that path",
  "Three repaired defects (value of a result-less return dropped, endless loop when a body falls off its end, arguments captured in a recursive call). That the library functions called (e.g. _wait_on) do their part, and that nothing outside the replaced loop names it in a break, is not covered; inlining a generator is the caller's fault.")

N("N01", "Compiled programs compute what Python (in Codon's dialect) says",
  "Running a compiled program has the output and exit status the language definition gives for its source, in debug and release mode alike.",
  ["programs", "inputs"], "all programs and their inputs", "tests run a fixed set of programs",
  ["codon/cir/llvm/llvisitor.cpp", "stdlib"], [("code generator", "codon/cir/llvm/llvisitor.cpp"), ("standard library", "stdlib")],
  "end-to-end semantic equivalence quantifies over run-time values and needs an executable semantics of the language as oracle; no sound static argument over this code base reaches it. Its static parts are claimed one by one (C01-C19 and later).")
N("N02", "Numbers are read, computed and printed with correct rounding",
  "Literals denote the nearest representable number, and arithmetic, formatting and conversion of integers and floats round as the language prescribes.",
  ["inputs"], "all numeric strings and operands", "tests sample some numbers",
  ["codon/runtime/lib.cpp", "stdlib/internal/types"], [("conversion and formatting", "codon/runtime/lib.cpp")],
  "rounding and digit generation are properties of run-time numeric values; the source gives no finite set of paths or terms from which a static rule could decide them.")
N("N03", "The parser accepts exactly the grammar and gives the tree it prescribes",
  "Every source text of the language is accepted with the syntax tree the grammar prescribes, and every other text is rejected with the position of the error.",
  ["inputs"], "all source texts", "tests parse a fixed set of files",
  ["codon/parser/peg/grammar.peg", "codon/parser/peg/peg.cpp"], [("PEG grammar", "codon/parser/peg/grammar.peg")],
  "the grammar is itself the specification and is interpreted at run time by a PEG engine; there is no second description to compare it with, and equality of languages is undecidable.")
N("N04", "Memory in use is never reclaimed, and reclaimed memory is never used",
  "The collector keeps every object a program can still reach, in every thread, and compiled code never touches memory that was given back.",
  ["programs", "schedules", "histories"], "all heap shapes, threads and moments of collection", "tests allocate little",
  ["codon/runtime/gc.cpp", "codon/runtime/lib.cpp"], [("allocation entry points", "codon/runtime/gc.cpp")],
  "the collector is an external library and reachability is a run-time quantity; what the compiler decides itself, which types count as free of pointers, is part of C19.")
N("N05", "Parallel loops and asynchronous programs do not depend on scheduling",
  "A parallel loop whose iterations are independent, and an asynchronous program, give the same result under every schedule.",
  ["schedules"], "all interleavings of worker threads and tasks", "tests see a few interleavings",
  ["codon/runtime/exec.cpp", "stdlib/openmp.codon", "codon/cir/transform/parallel/openmp.cpp"], [("outlined loop bodies", "codon/cir/transform/parallel/openmp.cpp")],
  "interleavings are produced by the OpenMP runtime and by library code in Codon itself, which this family cannot parse or bound here.")
N("N06", "Type checking terminates and finds the types the language prescribes",
  "Type checking any program terminates within its iteration limits with the most general types, or reports the first conflict at its source position.",
  ["programs"], "all programs", "tests check a fixed set of programs",
  ["codon/parser/visitors/typecheck/infer.cpp", "codon/parser/visitors/typecheck/call.cpp"], [("inference loop", "codon/parser/visitors/typecheck/infer.cpp")],
  "the inference loop iterates over instantiations created while it runs and evaluates static code; neither its termination nor completeness has a static bound in the source. The operations it is made of are claimed as C14-C17.")
