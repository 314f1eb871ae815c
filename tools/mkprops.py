"""Writes /verif/properties.jsonl (run by hand when the list changes)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})
T = "tealish/"
COMP = "compile_program(source) -> TEAL lines"
RUN = "behaviour of the emitted TEAL on an AVM: exit status and value, ordered logs / state writes / inner transactions"

p("C01", "Expressions compute the value their source denotes",
  "For every well-typed expression the emitted TEAL leaves exactly the value the language defines: each operator and opcode is applied to its operands in source order with its immediates intact, and literals, constants, variables and transaction/global fields (including own, indexed, relative-group, array and inner fields) deliver their own value. Operands are each evaluated exactly once, left to right, without short-circuiting, and an expression that must fail at run time (overflow, division by zero, bad index) makes the program fail.",
  ["programs", "inputs"], "every well-typed expression tree in every position an expression may appear, under every transaction context",
  "The tests compile a few dozen fixed one- or two-operator expressions and compare instruction lists; the space of nestings, operand kinds, positions and contexts is unbounded and the tests never execute the result.",
  [T+"expression_nodes.py", T+"tealish_expressions.tx", T+"tx_expressions.py", T+"langspec.py", T+"base.py", T+"nodes.py"],
  [("binary/unary/group/call emission order", T+"expression_nodes.py:UnaryOp,BinaryOp,Group,OpCall"), ("field and index access", T+"expression_nodes.py:TxnField..GlobalField"), ("expression grammar", T+"tealish_expressions.tx")],
  [COMP, RUN])
p("C02", "Control flow executes exactly the statements the source selects",
  "For every program, the emitted TEAL runs the same statements in the same order as the source's if/elif/else (with and without `not`), while (with and without `not`), break, for, switch, jump, block, assert and exit statements say, and finishes with the same result. No statement is skipped, repeated, or reached by falling out of a block, function, branch or loop, and a switch without a matching option takes its else target or fails.",
  ["programs", "inputs"], "every nesting and sequence of control statements and every valuation of their conditions",
  "Tests check the instruction list of one or two shapes per statement; nesting, label numbering across statements, break targets and branch order interact combinatorially and are never executed.",
  [T+"nodes.py"],
  [("branch/loop labels and jumps", T+"nodes.py:IfStatement,Elif,Else,WhileStatement,ForStatement,For_Statement,Break"), ("block/jump/switch targets", T+"nodes.py:Block,Jump,Switch"), ("exit / assert", T+"nodes.py:Exit,Assert")],
  [COMP, RUN])
p("C03", "Variables keep their own value: live storage is never shared",
  "A variable read yields the value most recently assigned to that variable, whatever other variables, loop variables, function parameters, function locals, box references or hidden compiler flags the program has, and however calls, loops and blocks interleave. Names resolve to the innermost visible declaration, and disjoint scopes may reuse a name without affecting each other. A program that needs more storage than the AVM's 256 scratch slots is rejected rather than compiled to aliased or invalid storage.",
  ["programs", "histories"], "every set of declarations over main program, nested blocks, functions, branches and loops, every order of reads, writes and calls, any number of variables",
  "Slot numbers depend on global allocation state, the order of processing and scope nesting; tests have at most a handful of variables and check slot numbers of a few fixed programs.",
  [T+"base.py", T+"scope.py", T+"nodes.py", T+"__init__.py"],
  [("slot allocation", T+"scope.py:find_slot,declare_scratch_var"), ("function slots above all others", T+"base.py:declare_scratch_var"), ("scope merging", T+"base.py:get_scope,get_slots")],
  [COMP, RUN], [("max_slot", "highest slot used so far", T+"__init__.py:TealishCompiler"), ("scope slots", "name -> slot per scope", T+"scope.py")])
p("C04", "Function calls bind arguments and return values by position",
  "Calling a function (in an expression, statement, assignment or return, nested or repeated) binds the i-th argument value to the i-th parameter, runs the body until the executed return, and delivers the i-th return value to the i-th assigned name, with `_` discarding its value. The same positional rule holds for opcodes with several results, documented order included. A call leaves the caller's pending operands and variables untouched, and the function called is the innermost visible one of that name.",
  ["programs", "inputs"], "every call graph without recursion, every arity 0..5 of arguments and returns, every nesting of calls",
  "Argument reversal, return reversal, stack discipline and scratch allocation must agree at every call site; the tests check single fixed signatures textually.",
  [T+"nodes.py", T+"expression_nodes.py", T+"langspec.py"],
  [("parameter stores", T+"nodes.py:Func.write_teal"), ("return order", T+"nodes.py:Return"), ("multi-assignment stores", T+"nodes.py:Assignment"), ("call emission", T+"expression_nodes.py:UserDefinedFuncCall"), ("opcode result order", T+"langspec.py:Op.returns_types")],
  [COMP, RUN])
p("C05", "Struct and box fields read and write exactly their own bytes",
  "Fields of a struct occupy consecutive, non-overlapping byte ranges in declaration order with the sizes of their types, and the reported layout (size, per-field offset, size and type) is that one. Assigning a field of a struct variable or typed box changes exactly that field's bytes and reading it returns the last value written (integers big-endian in their declared width), for every offset and size. Box declarations refer to the given key; Create fails if the box exists, Open fails if it is missing or of another size, and a plain reference checks nothing.",
  ["programs", "histories", "inputs"], "every struct layout up to box size, every sequence of field writes and reads on several structs and boxes, every pre-existing box state",
  "Tests use two or three small layouts; offsets and sizes beyond one byte, uint8 and nested fields, multiple instances and box pre-states are never combined or executed.",
  [T+"nodes.py", T+"expression_nodes.py", T+"types.py", T+"__init__.py"],
  [("layout", T+"types.py:StructType.add_field"), ("field write", T+"nodes.py:StructOrBoxAssignment"), ("field read", T+"expression_nodes.py:StructOrBoxField"), ("box open/create", T+"nodes.py:BoxDeclaration"), ("layout report", T+"__init__.py:inspect_program")],
  [COMP, RUN, "inspect_program(source)"])
p("C06", "Inner transactions submit exactly the written fields, grouped as written",
  "Each executed inner_txn submits one transaction with exactly the fields written, in order, with their values (array fields element by element); each executed inner_group submits one atomic group with exactly the transactions executed inside it, in order, and nothing else. This holds for any mixture of groups and single transactions, conditional or loop-generated members, surrounding statements, and functions that submit transactions called inside or outside a group.",
  ["programs", "histories"], "every arrangement of inner_txn and inner_group statements in control flow and functions, every path through them",
  "Tests compare the instruction list of a few fixed groups (and failed at the pinned commit); begin/next/submit state across branches, functions and repeated groups is never executed.",
  [T+"nodes.py", T+"__init__.py"],
  [("transaction emission", T+"nodes.py:InnerTxn,InnerTxnFieldSetter"), ("group emission and runtime flag", T+"nodes.py:InnerGroup,Program.write_teal")],
  [COMP, RUN], [("inner group flag", "scratch slot with the group state", T+"nodes.py:Program")])
p("C07", "Router dispatches to the named method with decoded arguments and logs results",
  "A router call runs exactly the listed public function whose name equals the first application argument and fails when none does; it fails unless the transaction's OnCompletion (or, for creation, absence of an application id) is the one the function was declared for, NoOp by default. Each parameter receives the corresponding later application argument converted to its declared type, and an argument that does not fit its type fails the call. Return values are logged once as the ARC-4 return prefix followed by the results in declaration order, and the call then approves.",
  ["programs", "inputs"], "every set of routes, signatures, on-completion decorators, and every application-argument vector",
  "The single router test compares one fixed text; argument-type combinations, dispatch among several methods, malformed arguments and multi-value returns are not executed.",
  [T+"nodes.py", T+"tealish_builtins.py", T+"stdlib.py"],
  [("dispatch and checks", T+"nodes.py:Router.write_teal"), ("argument decoding", T+"nodes.py:Route.process"), ("decorators", T+"nodes.py:DecoratedFunc,Decorator")],
  [COMP, RUN])
p("C08", "Standard library functions meet their documented contracts on every value",
  "Cast and EnsureType return their operand unchanged when it satisfies the target type and fail otherwise; Convert and ToBytes/FromBytes convert between integers and big-endian bytes of the requested width without ever silently changing the number; Rpad/Lpad pad with zero bytes to exactly the requested length or fail. Concat joins its arguments in order, SizeOf is the byte size of a type, Address is the raw public key, ARC28Event is the 4-byte SHA-512/256 signature prefix followed by its arguments, UncheckedCast changes nothing and Error() always fails.",
  ["programs", "inputs"], "every stdlib function with every target type, size and operand value, nested in any expression",
  "Tests compare emitted text for a few sizes and never run it on boundary values, so off-by-one width checks, truncation and padding direction are unobservable.",
  [T+"stdlib.py", T+"types.py"],
  [("conversions and assertions", T+"stdlib.py:Convert,Cast,ToBytes,FromBytes,EnsureType"), ("padding/concat", T+"stdlib.py:Rpad,Lpad,Concat"), ("compile-time values", T+"stdlib.py:SizeOf,Address,ARC28Event,Bzero")],
  [COMP, RUN])
p("C09", "A program is accepted exactly when its types and arities agree",
  "Assignments, declarations, function and opcode arguments, return values, struct and box field assignments, constants, conditions of assert and box keys are accepted if the value's type can be held by the target (same kind; an integer no wider than the target; bytes into unsized bytes; equal sizes for sized bytes and structs; an unknown value only into int, bytes or bigint) and the number of arguments, immediates and values matches. Otherwise compilation is rejected with a ParseError or CompileError, never accepted.",
  ["programs"], "every pair of source type and target type in every typed position, every arity",
  "Tests try a dozen accept/reject pairs; the matrix of types, positions and nested expressions is far larger and both directions matter.",
  [T+"types.py", T+"base.py", T+"nodes.py", T+"expression_nodes.py"],
  [("compatibility", T+"types.py:can_hold"), ("argument checks", T+"base.py:check_arg_types"), ("position checks", T+"nodes.py:Assignment,VarDeclaration,Return,StructOrBoxAssignment,Const,Assert,BoxDeclaration")],
  [COMP, "ParseError / CompileError raised"])
p("C10", "Accepted programs never hit a type fault or corrupt the stack",
  "Running the TEAL of any accepted program that uses no raw TEAL, no push, pop or raw stack or branch opcodes, no unchecked casts, no values of unknown type and no variable before it is assigned never pops an empty stack, never gives an opcode a value of the wrong AVM type, and always holds in a variable of sized type a value of that size. Statements leave the stack as they found it: nothing is left behind for a later return, exit or caller to consume.",
  ["programs", "inputs"], "every accepted program in the checked subset, every execution path",
  "Needs executing arbitrary accepted programs with stack and type monitoring; the tests never execute anything.",
  [T+"nodes.py", T+"expression_nodes.py", T+"stdlib.py", T+"langspec.py", T+"types.py"],
  [("statement stack discipline", T+"nodes.py:FunctionCallStatement,Assignment,Return,ForStatement"), ("declared types", T+"types.py"), ("opcode result types", T+"langspec.py:Op")],
  [COMP, "per-instruction monitor of stack depth, value types and scratch contents"])
p("C11", "Every accepted program yields TEAL the assembler accepts",
  "Whatever source the compiler accepts (without raw TEAL), the emitted lines assemble: every label is defined exactly once and every branch target exists, opcodes and field names exist, immediate arguments are complete and within range, literals and escapes are well formed, and macros are consistent. The first line is the source's #pragma when given, with the same version.",
  ["programs"], "every accepted program, including odd but legal names, large offsets, many labels and unusual literals",
  "Tests have no assembler; each only compares text for a fixed program, so label clashes, out-of-range immediates or malformed literals from other inputs are invisible.",
  [T+"nodes.py", T+"expression_nodes.py", T+"stdlib.py", T+"__init__.py"],
  [("label naming", T+"nodes.py:Block,Func,IfStatement,WhileStatement,ForStatement,Route"), ("immediates", T+"expression_nodes.py:OpCall, "+T+"nodes.py:StructOrBoxAssignment"), ("line emission", T+"__init__.py:TealWriter.write")],
  [COMP, "an independent TEAL assembler-checker"])
p("C12", "Formatting preserves meaning, is stable and never loses code",
  "For every program the compiler accepts, reformatting returns a program that is also accepted and compiles to the same instructions, and reformatting that program returns it unchanged. Indentation, trailing whitespace and the spacing of the input do not influence the formatted text, and comment lines outside of struct and inner_txn bodies are kept in place.",
  ["programs"], "every accepted program and every layout of it (indentation, spacing, blank and comment lines)",
  "Tests format a handful of snippets; each node kind prints itself separately, so meaning preservation must hold for all combinations.",
  [T+"nodes.py", T+"expression_nodes.py", T+"stdlib.py", T+"__init__.py"],
  [("per-node printers", T+"nodes.py:_tealish, "+T+"expression_nodes.py:_tealish"), ("entry point", T+"__init__.py:reformat_program")],
  ["reformat_program(source)", COMP])
p("C13", "The source map attributes each TEAL line to the statement it came from",
  "Every emitted TEAL line is mapped to exactly one line of the source, that of the statement (or option, branch or field line) whose code it is (support routines that no statement stands for go to line 0, else and elif labels may go to their `if`), and the messages recorded for assert statements are exactly those written, keyed by their line. Statement comments in the TEAL quote the statement's own line number and text, and source comments appear at their place.",
  ["programs"], "every accepted program with any layout of blank lines, comments and nesting",
  "Tests check maps for one program; attribution must hold for every statement kind at every position.",
  [T+"__init__.py", T+"nodes.py", T+"base.py", T+"utils.py"],
  [("map recording", T+"__init__.py:TealWriter.write"), ("line numbers", T+"base.py:line_no, "+T+"__init__.py:consume_line"), ("assert messages", T+"nodes.py:Assert.process")],
  ["compile_program(source) -> (teal, map)"])
p("C14", "Any input text gives TEAL or a ParseError/CompileError, promptly",
  "For any text at all, compiling, reformatting or inspecting it either succeeds or raises ParseError or CompileError within time proportionate to its size. No other exception, hang, endless loop or interpreter crash occurs, and nothing outside the returned value changes.",
  ["inputs"], "all finite texts: truncated, mutated, reordered and random Tealish, and arbitrary Unicode",
  "Tests contain a few malformed snippets; robustness quantifies over all strings.",
  [T+"__init__.py", T+"nodes.py", T+"expression_nodes.py", T+"tx_expressions.py", T+"errors.py"],
  [("line-based parser loops", T+"nodes.py:consume methods"), ("error wrapping", T+"nodes.py:Node.__init__, "+T+"nodes.py:GenericExpression.parse")],
  ["compile_program / reformat_program / inspect_program"])
p("C15", "Compilation is a pure function of the source text",
  "Compiling, reformatting or inspecting the same source always gives the same result (output, map, or error), whatever other sources were compiled, reformatted, inspected or rejected before in the same process, in a fresh process or under a different hash seed, and whichever API or repeated call is used. No declaration of one program is visible to another, and the source lines given are not modified.",
  ["histories", "programs"], "every sequence of operations on every set of sources, including rejected ones",
  "State leaks only appear through particular histories of operations; each test uses fresh, unrelated programs in one order.",
  [T+"__init__.py", T+"types.py", T+"expression_nodes.py", T+"langspec.py"],
  [("per-compiler state", T+"__init__.py:TealishCompiler"), ("struct registry", T+"types.py:_structs")],
  ["sequences of compile_program / reformat_program / inspect_program / TealishCompiler calls"], [("struct registry", "struct definitions known to the type lookup", T+"types.py")])
p("C16", "Minifying or stripping comments never changes what TEAL does",
  "Minifying compiled TEAL or stripping its comments yields TEAL that assembles and behaves identically: labels merged only when they denote the same place, every branch retargeted consistently, and literals left intact. The minifier's line map sends every output line to the input line it came from.",
  ["programs", "inputs"], "every compiled program and every TEAL text with arbitrary label names, consecutive labels, comments and literals",
  "Tests minify one fixed program; label-name and literal interactions are input dependent.",
  [T+"utils.py"],
  [("label merging and replacement", T+"utils.py:minify_teal"), ("comment removal", T+"utils.py:strip_comments")],
  ["minify_teal(lines)", "strip_comments(lines)"])
p("C17", "Structural and scoping rules are enforced, and only those",
  "Programs that follow the documented structure (structs first, blocks and functions only after an exit statement, blocks ending in one, functions ending in return, return only in functions and with the declared number of values, break only in while, no functions inside functions, redeclared, undeclared or out-of-scope names never used, routes naming public functions, jump and switch targets visible) are accepted. Programs that break one of these rules are rejected with ParseError or CompileError.",
  ["programs"], "every valid program and every single-rule violation placed anywhere in it",
  "Tests reject about ten fixed programs; a rule must be enforced at every position and nesting without rejecting valid neighbours.",
  [T+"nodes.py", T+"base.py", T+"scope.py"],
  [("placement rules", T+"nodes.py:Program.consume,Block.consume,Func.consume,StructDefinition.consume"), ("scope rules", T+"scope.py, "+T+"base.py"), ("context rules", T+"nodes.py:Break,Return,Route")],
  [COMP, "ParseError / CompileError raised"])
p("C18", "Opcodes are exactly those of the active language specification",
  "A call is compiled to an opcode exactly when the active langspec (a langspec.json in the working directory, else the packaged one) defines it, with the argument types, immediates, result count and result order it gives, and is rejected otherwise. Comparing two language specifications reports precisely the opcodes that one has and the other lacks, and printed signatures state the actual arguments and results.",
  ["configurations", "programs"], "every language specification and every call against it",
  "Tests use only the packaged specification and a few opcodes.",
  [T+"langspec.py", T+"expression_nodes.py", T+"base.py", T+"cli.py"],
  [("spec parsing", T+"langspec.py:Op,LangSpec"), ("active spec choice", T+"langspec.py:get_active_langspec"), ("diff", T+"langspec.py:compare_langspecs"), ("call checking", T+"expression_nodes.py:OpCall")],
  [COMP, "tealish.langspec API", "tealish langspec diff"])
p("C19", "The command line tool writes what the compiler returns and never harms sources",
  "`tealish compile` writes for each given .tl file exactly the TEAL the API returns to build/<name>.teal, for files and directories; `build` also writes the assembler's bytecode and the composed source map, but neither when the assembler fails. `format` replaces a file by exactly the API's formatted text, and on any failure a command exits non-zero with the error, leaves the sources byte for byte unchanged and writes no TEAL for a file that does not compile. `inspect`, `stats` and `langspec diff` print what they describe and change nothing.",
  ["inputs", "configurations", "fault_sequences"], "every set of source files (valid or not), names, directories and pre-existing outputs, and every order of commands; assembler failures",
  "There are no tests of the command line at all.",
  [T+"cli.py", T+"build.py", T+"utils.py"],
  [("compile/build", T+"cli.py:_build"), ("format", T+"cli.py:format"), ("source map composition", T+"utils.py:TealishMap.update_from_teal_sourcemap")],
  ["tealish CLI: exit status, stdout, files"])
p("C20", "Literals and constants denote exactly the written value",
  "Every integer and byte-string literal and every hex constant, whether used directly, as an argument, through a constant, as a message or in a switch option, denotes exactly the written value: all characters of a string (spaces, slashes, hashes, quotes and escapes, semicolons, keywords, non-ASCII) reach the program and integers keep their full 64-bit range. The static size of a byte literal is its length in bytes, and a literal that has no such value is rejected.",
  ["inputs", "programs"], "every integer, every string over all characters and escapes, every hex string, in every position",
  "Tests use a few plain ASCII literals; the value of a string depends on every character of it at every text-processing stage.",
  [T+"tealish_expressions.tx", T+"expression_nodes.py", T+"nodes.py", T+"__init__.py"],
  [("literal nodes", T+"expression_nodes.py:Integer,Bytes,Constant"), ("constants", T+"nodes.py:Const,LiteralInt,LiteralBytes,LiteralHex"), ("comment stripping and alignment", T+"__init__.py:consume_line,TealWriter.write")],
  [COMP, RUN])
p("C21", "Source-map lookups agree with each other and survive serialisation",
  "For any source map, the lookups pc to TEAL line, TEAL line to Tealish line, pc to Tealish line, pc to error and Tealish line to TEAL lines are mutually consistent: composition is exact, the reverse lookup returns precisely the TEAL lines that map to that line, and unknown keys give nothing. This holds equally for maps obtained from a compilation, after adding an assembler's source map, and after serialising to JSON and reading back.",
  ["histories", "inputs"], "every map content and every sequence of build, update, serialise and query operations",
  "One test builds one map; the reverse and error lookups of a compiled program's map are never queried.",
  [T+"utils.py", T+"__init__.py"],
  [("lookups", T+"utils.py:TealishMap"), ("construction from a compilation", T+"__init__.py:get_map")],
  ["TealishMap methods", "TealishCompiler.get_map / compile_program"])
p("C22", "Inline TEAL, push and pop give exact access to the stack",
  "Lines in a teal block are emitted verbatim, once and in order at that place; push(a, b, ...) evaluates its arguments left to right and leaves them on the stack, and pop() as the first operand evaluated in a statement consumes the value on top of the stack at that point, so that values can be passed in both directions between Tealish statements and raw TEAL. Source comments inside a teal block do not end up as instructions.",
  ["programs", "inputs"], "every mixture of push, pop and raw TEAL lines with surrounding statements and literals",
  "Two tests compare fixed text; raw lines with arbitrary tokens, nesting and stack interplay are not executed.",
  [T+"nodes.py", T+"stdlib.py", T+"__init__.py"],
  [("raw lines", T+"nodes.py:Teal,TealLine"), ("push / pop", T+"stdlib.py:Push,Pop")],
  [COMP, RUN])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
