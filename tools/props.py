# Table of properties: source of properties.jsonl and MANIFEST.json (see gen.py)

def Q(over, text):
    return {"over": over, "text": text}

def A(files, mechanism, observe=(), state=()):
    d = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism],
         "observe_at": list(observe), "hook_needed": None}
    if state:
        d["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    return d

ENGINE = "path-sensitive backward dataflow on SSA with linear arithmetic and type-tag abstraction, closed over all callers"
ENGINE_NOTE = ("Each site is an obligation: the offending states are pushed backward along all paths, through helpers, callers, "
  "closures and interface implementations, until contradicted. Over-approximate: a discharged site cannot fail. The sites of the table in "
  "checks_engine.go (undecidedSites) are not decided and are counted apart in the evidence. Trusts go/ssa and the axioms on pools and regexps of step.go.")

PROPS = [
 dict(id="C01", title="Commands only access the arguments they were given",
  statement="Whatever number of arguments a command or subcommand is called with, it never reads an argument that was not supplied: it either handles the call or returns a usage error. No call, however malformed, crashes the interpreter by reading past its arguments.",
  quantifier=Q(["inputs", "programs"], "every command and subcommand of both dialects and of the native modules, for every argument count and every combination of argument types"),
  why_tests_cant="Tests call each command with a few argument counts; the guard has to dominate every access for all counts, including through ensembles, prefixes, aliases and help requests.",
  anchors=A(["src/helena_dialect/*.go", "src/picol_dialect/picol_dialect.go", "src/native/*/*.go"],
   [("arity guards", "len(args) checks at the top of Execute and Help methods"), ("subcommand prefix dispatch", "subcommands.go, ensembles.go"), ("argument specifications", "argspecs.go, arguments.go")],
   ["Command.Execute", "Command.Resume", "Command.Help"]),
  technique=ENGINE, note=ENGINE_NOTE),
 dict(id="C02", title="Positions and sizes taken from scripts never escape their bounds",
  statement="Any index, range, count or length that a script passes to a list, string, tuple, dictionary or similar operation either designates existing elements or is reported as an error or an empty result. No such value, however large or negative, crashes the interpreter.",
  quantifier=Q(["inputs", "programs"], "every integer and collection reachable by a command operation or selector"),
  why_tests_cant="The space of (length, first, last) triples including extremes is unbounded; tests sample a few around the edges.",
  anchors=A(["src/helena_dialect/lists.go", "src/helena_dialect/strings.go", "src/helena_dialect/tuples.go", "src/core/values.go"],
   [("index conversion and clamping", "lists.go, strings.go: at, range, remove, insert, replace"), ("indexed selectors", "values.go SelectIndex")],
   ["Command.Execute", "Value.SelectIndex"]),
  technique=ENGINE, note=ENGINE_NOTE),
 dict(id="C03", title="Analysis of any script text stays within the text",
  statement="Tokenizing, parsing, checking and compiling any text, well-formed or not, never reads outside of the text, token list, word or sentence being processed. Every malformed input ends with a reported syntax error.",
  quantifier=Q(["inputs"], "every byte string given to the tokenizer, parser, syntax checker and compiler"),
  why_tests_cant="Tests cover the documented syntax and selected errors; truncated or interleaved constructs are unbounded.",
  anchors=A(["src/core/tokenizer.go", "src/core/parser.go", "src/core/syntax.go", "src/core/compiler.go"],
   [("stream end guards", "tokenizer.go, parser.go"), ("word shape checks", "syntax.go"), ("morpheme walks", "compiler.go")],
   ["Tokenizer.Tokenize", "Parser.Parse", "Compiler.CompileScript"]),
  technique=ENGINE, note=ENGINE_NOTE),
 dict(id="C04", title="Values are checked before being used as a specific kind",
  statement="A command never assumes the kind of a value, state or result supplied by a script: whatever value is passed where another kind is expected, the outcome is an error or a conversion, never a crash.",
  quantifier=Q(["inputs", "programs"], "every combination of value kinds for every argument of every command, including custom values"),
  why_tests_cant="Each argument accepts any of a dozen kinds of values and custom ones; tests try one or two wrong kinds per argument.",
  anchors=A(["src/helena_dialect/*.go", "src/core/*.go", "src/picol_dialect/picol_dialect.go", "src/native/*/*.go"],
   [("type tag checks", "Value.Type() comparisons"), ("fallible conversions", "ValueToX helpers")],
   ["Command.Execute", "Command.Resume"]),
  technique=ENGINE, note=ENGINE_NOTE),

 dict(id="C05", title="Values never change once created",
  statement="No operation alters a value, script or parsed word that already exists: every list, dictionary, tuple, string or script operation yields a new value and leaves the values it was given, and every other value sharing structure with them, as they were.",
  quantifier=Q(["inputs", "programs", "histories"], "every operation of every command, selector and compiler step, on every value reachable by any alias"),
  why_tests_cant="An in-place write only shows through another alias of the same storage, possibly its spare capacity, after a particular sequence of operations; tests compare results, not the inputs and their aliases.",
  anchors=A(["src/helena_dialect/lists.go", "src/helena_dialect/dicts.go", "src/helena_dialect/tuples.go", "src/core/values.go", "src/core/compiler.go"],
   [("copying operations", "append, insert, remove, replace, sort, add, merge of lists.go and dicts.go"), ("value constructors", "core/values.go"), ("aggregates", "compiler.go: MAKE_TUPLE, JOIN_STRINGS, EXPAND")],
   ["core.Value implementations", "Command.Execute"]),
  technique="ownership analysis: interprocedural origins of slices and maps on SSA (fresh, parameter, value payload, argument frame, state), effects of functions on their parameters",
  note="Every write of an element, map entry or through append into spare capacity is an obligation: the container must originate from an allocation of the same operation and not yet be part of a value. Assumes the Go library functions called do not keep or write their slice arguments except sort and slices functions, which are modelled."),
 dict(id="C06", title="Argument frames are never kept past a call",
  statement="The arguments received by a command stay its own for the duration of the call only: what it keeps (values, deferred bodies, registered states, resumable executions) is unaffected by later reuse of the calling frame, so that deferred executions always see the arguments they were called with.",
  quantifier=Q(["programs", "histories", "schedules"], "every command that builds a value or a resumable state from its arguments, for every way of calling it (directly, through an ensemble, an alias, a prefix) and every interleaving of resumptions"),
  why_tests_cant="The overwrite requires a caller that reuses its frame (ensemble dispatch, pooled program states) between the call and the use, usually several resumptions later.",
  anchors=A(["src/helena_dialect/*.go", "src/core/compiler.go"],
   [("frame reuse", "ensembles.go EnsembleCommand.Execute; compiler.go ProgramState.CloseFrame and Reset"), ("states kept across yields", "controls.go, logic.go, core.go")],
   ["Command.Execute", "Command.Resume"]),
  technique="escape analysis of argument frames: origins of slices on SSA, closed over callers, against the set of publications into values, states, closures and globals",
  note="EnsembleCommand.Execute is the one function allowed to rearrange the frame it received (exemption frameWriter)."),
 dict(id="C07", title="Recycled objects never leak state between executions",
  statement="Execution states and continuations recycled by the interpreter carry nothing over from one execution to the next: each execution starts from a fully initialised state, and once finished, its state is not consulted or released again.",
  quantifier=Q(["histories", "schedules"], "every sequence of executions, nested, interrupted, failed or interleaved, sharing the recycling pools"),
  why_tests_cant="A stale field only shows when the pool hands back an object last used by an execution that ended in a particular way (break, error, second source), which test runs rarely line up; pools are also emptied at random by the garbage collector.",
  anchors=A(["src/helena_dialect/controls.go", "src/helena_dialect/logic.go", "src/helena_dialect/core.go", "src/core/compiler.go"],
   [("pools", "loop, while, if, when, and/or states; continuations; program states"), ("reset", "ProgramState.Reset")],
   ["ProcessStack", "CreateContinuationValueWithCallback"]),
  technique="typestate analysis of pooled objects on SSA: definite assignment of every field from retrieval to each read, no use after release, through helpers and callbacks",
  note="Every sync.Pool of the module is enumerated. Assumes that the opaque data of a continuation is only passed to the callback it was created with (checked for Process.Run by the who-may-call rules)."),
 dict(id="C08", title="Failures are never mistaken for successes",
  statement="When a conversion, resolution, compilation, evaluation or library call that an operation relies on fails, the operation does not carry on as if it had succeeded: the outcome is always consulted, what the failed step yields is not used, and the operation does not report success, except where the failure itself is the outcome looked for.",
  quantifier=Q(["inputs", "programs"], "every call of a fallible operation, on every path of every function of the interpreter, dialects, native modules and CLI"),
  why_tests_cant="Each of some thousand calls needs an input making that very step fail after all previous ones succeeded; the suite covers a minority of them, and a dropped failure often still yields a plausible value.",
  anchors=A(["src/core/*.go", "src/helena_dialect/*.go", "src/picol_dialect/picol_dialect.go", "src/native/*/*.go", "src/cli/cli.go"],
   [("results", "core.Result codes, (Result, value) functions"), ("conversions", "ValueToX, XFromValue"), ("syntax errors", "core.RecoverSyntaxError, Scope.Compile")],
   ["Command.Execute", "Process.Run"]),
  technique="forward dataflow on SSA over sets of possible result codes, with function summaries by codes of their arguments; uses of the values that accompany each result",
  note="Exemptions are listed with their reason in errors.go and counted in the evidence. What an operation returns on failure (its message) is not decided."),
 dict(id="C09", title="Absent things are never used as if they were there",
  statement="No execution crashes on something absent: a missing entry of a table (variable, command, export, module, dictionary key), a value of another type, an optional parameter, option or position that was left out, or what a failed step yields, is either detected or never used. Values, commands, programs and scopes that are stored or passed on are always present.",
  quantifier=Q(["inputs", "programs", "histories"], "every use of a pointer, interface, function or map that may be nil, on every path of every function from every entry point, for every argument"),
  why_tests_cant="Each use needs the one input for which the thing is absent (unknown name, second import of a module that failed, value used in two ways); a nil value stored in a collection or a result crashes far from where it was produced.",
  anchors=A(["src/core/*.go", "src/helena_dialect/*.go", "src/picol_dialect/picol_dialect.go", "src/native/*/*.go", "src/cli/cli.go"],
   [("lookups", "ResolveCommand, ResolveVariable, Exports, ModuleRegistry, dictionaries"), ("options", "DisplayFunction, ProcessOptions, positions, sources"), ("programs", "CompileScriptValue, ScriptValueCache")],
   ["Command.Execute", "Command.Help", "Process.Run", "Display"]),
  technique="fixpoint of what may be nil over values, fields, results and parameters (with inferred preconditions of parameters), then backward path-sensitive dataflow on SSA for each use of such a value",
  note="Assumes that the parameters of entry points are present, except the functions and options that the code treats as optional, and that elements of collections are present unless the code looks whether they are. Slices are out of scope (nil ones are empty); entries of the undecided table are counted in the evidence."),
 dict(id="C10", title="Interruptions reach the construct they are meant for",
  statement="When a script run by a command is interrupted by return, break, continue, an error or a custom result, the command stops and passes it on unchanged to the enclosing program, except for the constructs defined by it: loop, while and foreach bodies, which break ends and continue resumes; callable and definition bodies (proc, namespace, scope, ensemble, coroutine), whose return gives the value and which turn the others into errors; modules and guards, which only accept values; and catch. Errors are always passed on unchanged. An interrupted program is never resumed with anything but a value.",
  quantifier=Q(["programs", "histories"], "every place where a command runs a script or another command, for every result code"),
  why_tests_cant="Each construct must handle seven codes at each point where it runs a script, in any nesting; tests combine a few.",
  anchors=A(["src/helena_dialect/*.go", "src/core/compiler.go", "src/core/evaluator.go", "src/picol_dialect/picol_dialect.go"],
   [("continuation callbacks", "CreateContinuationValueWithCallback in controls.go, logic.go, procs.go, ..."), ("delivery", "Process.Run in core.go"), ("nested processes", "coroutines.go, modules.go, argspecs.go")],
   ["Process.Run", "Command.Execute"]),
  technique="abstract interpretation of result codes on SSA: outcome of each callback and nested run for each code, compared with the class of its construct",
  note="Classes of constructs are tabulated in results.go; functions not in the table must pass everything on. How catch selects its handlers, and the delivery of yields to resumed commands, are left to tests."),
 dict(id="C11", title="Commands accept exactly the arguments that their usage describes",
  statement="Every builtin command and subcommand accepts a call if the number of its arguments fits its usage message, optional and repeated ones included, and otherwise rejects it with an arity error that gives that usage. Help gives the same usage under the same name, and accepts requests with up to as many arguments. The subcommands that a command lists, those it executes and those help knows are the same.",
  quantifier=Q(["inputs"], "every command, subcommand and help of both dialects, the native modules and the CLI, for every number of arguments up to 14"),
  why_tests_cant="Tests try one or two wrong counts of some commands; the native modules and the CLI have few or none, and nothing compares the lists of subcommands with what is dispatched.",
  anchors=A(["src/helena_dialect/*.go", "src/picol_dialect/picol_dialect.go", "src/native/*/*.go", "src/cli/cli.go"],
   [("arity checks", "len(args) checks of Execute and Help, ARITY_ERROR"), ("usages", "SIGNATURE constants and functions"), ("lists", "NewSubcommands variables")],
   ["Command.Execute", "CommandWithHelp.Help"]),
  technique="abstract evaluation of Execute and Help on SSA (conditional constant propagation over argument count and subcommand name, with sets of outcomes), compared with the counts denoted by the usage message",
  note="Counts are judged when the outcome does not depend on the contents of the arguments. Commands whose arguments are described by an argument specification at run time (procs, closures, macros, ensembles) are counted as not decided, as are the keyword clauses of if and catch."),
 dict(id="C13", title="Constants and locals are protected, and assignments all-or-nothing",
  statement="Within a scope of the Helena dialect, let never defines a constant over a local, constant or variable of the same name, set never assigns over a local or constant, unset only removes variables, and get and exists see locals, then constants, then variables. Refused operations report an error and change nothing: when one name of an assignment or removal of several names, nested or not, is refused, none of them is written.",
  quantifier=Q(["inputs", "histories"], "every combination of local (given a value or not), constant and variable of a name, every nesting of names, for the commands and for the operations of Scope used by argument passing, iteration and embedding programs"),
  why_tests_cant="The outcome depends on which of the three tables hold each name and, for several names, on the position of the refused one; locals without a value only occur with optional arguments.",
  anchors=A(["src/helena_dialect/core.go", "src/helena_dialect/variables.go", "src/helena_dialect/argspecs.go", "src/helena_dialect/controls.go"],
   [("tables", "Scope.localSlots, localValues, Context.Constants, Context.Variables"), ("checks", "checkNamedConstant, checkNamedVariable, checkNamedLocal"), ("two passes", "DestructureValue, unset, SetNamedVariables")],
   ["let", "set", "unset", "get", "exists", "Scope.SetNamedConstant", "Scope.SetNamedVariable", "Scope.SetNamedVariables", "DestructureValue"]),
  technique="abstract evaluation on SSA of every operation in each of the ten abstract states of a name, with its must and may effects on the tables; dominance of writing passes by complete checking passes over the same names",
  note="Tables are found by their types in Scope. Names of a tuple are taken to be distinct: (a a) is checked against the scope, not against itself."),
 dict(id="C14", title="Panics never leave the interpreter",
  statement="No script makes the interpreter panic on its own account: assertions of impossible cases (panic statements) cannot be reached, integers are never divided by zero, syntax errors raised by the compiler are always turned into error results by whoever compiles (evaluators, scopes, lists of words), a function recovering from a panic leaves an error or panics again, values of unknown types are compared or used as keys only once known to be comparable, and library functions that panic on bad arguments only get good ones. Compiler.Compile* raising SyntaxError to embedding programs is documented, as are panics when the environment is broken at startup.",
  quantifier=Q(["inputs", "histories"], "every script, token, value, result code and argument reaching a panic statement, a division, a compilation, a comparison or a library call"),
  why_tests_cant="A panic statement is by definition a case nobody expected: tests cannot show that no input reaches it, nor that no caller of the compiler is left unprotected.",
  anchors=A(["src/core/syntax.go", "src/core/compiler.go", "src/core/tokenizer.go", "src/core/selectors.go", "src/core/values.go", "src/core/evaluator.go", "src/helena_dialect/core.go", "src/helena_dialect/lists.go", "src/helena_dialect/controls.go"],
   [("panics", "CANTHAPPEN and unreachable cases of switches"), ("syntax", "RecoverSyntaxError, SyntaxError"), ("comparison", "SameValue")],
   ["Tokenizer.Tokenize", "Compiler.CompileScript", "Scope.Compile", "RESULT_CODE_NAME", "catch", "Executor.ExecuteUntil"]),
  technique="backward path analysis on SSA of every panic statement and integer division with enumerated types and code ranges; call-graph exception effects with dominating recovery; dominance of comparability tests; constant evaluation of library arguments",
  note="Index, slice, nil and assertion panics are C01 to C04 and C09. Two panics over the kinds of option arguments and one comparison are listed as not decided. Stack exhaustion by unbounded recursion is not claimed (N05)."),
 dict(id="C15", title="Modules load once, and circular imports are refused",
  statement="A module file is read and its script run at most once per registry: it is only loaded once known not to be registered nor being loaded, its path is reserved for as long as its script runs, by whoever loads it and nobody else, and released whatever the outcome (missing file, syntax error, failed or interrupted script). It is registered under the very path it was read from, only when its script succeeded, and never replaces another module. Files that it imports are found from its own directory. Commands are only taken from a module under names that it exports.",
  quantifier=Q(["inputs", "histories", "crash points"], "every outcome of reading, parsing and running a file, every nesting and repetition of imports, every path"),
  why_tests_cant="It depends on what happened to earlier imports of the same path, and on every way loading may fail in between.",
  anchors=A(["src/helena_dialect/modules.go"], [("registry", "ModuleRegistry.modules, ModuleRegistry.reservedNames"), ("loading", "resolveModule, loadFileBasedModule, createModule"), ("exports", "importCommand")],
   ["import", "module", "ModuleRegistry.Reserve", "ModuleRegistry.Release", "ModuleRegistry.Register"]),
  technique="typestate of reservations and registrations on every path from the commands, entering the loading functions (helpers, closures and deferred calls), with result codes and equality of paths tracked",
  note="Tables are found by their types. Programs that execute inside the load (Process.Run) are atomic: what they import in turn is covered by the same rules, as reservations of other paths don't matter to this one."),
 dict(id="C16", title="Interpreters are independent and deterministic",
  statement="What one interpreter does can't be seen by another one of the same process: once packages are initialised, nothing that their variables give access to is written (tables of commands and subcommands, constant values, shared opcodes, closures made once), apart from pools of cleared objects and the module registry that InitCommands documents as shared. Outside of the import command and of the native modules for files and logs, commands depend on their arguments and scope only, and act on nothing else: no files, environment, time, random numbers, standard output or process exit. Commands run one after the other in the order of the script: no goroutine, no channel.",
  quantifier=Q(["histories", "schedules", "inputs"], "every sequence of scripts run by any number of scopes, and every function of the interpreter packages (core, dialects, native modules)"),
  why_tests_cant="Each test makes its own interpreter and looks at its own results; state leaking between interpreters only shows with particular sequences of scripts in several of them.",
  anchors=A(["src/core", "src/helena_dialect", "src/picol_dialect", "src/native"], [("shared tables", "package variables: Subcommands, opcodes, commands, operators"), ("pools", "sync.Pool variables"), ("registry", "globalModuleRegistry")],
   ["NewRootScope", "InitCommands", "every command"]),
  technique="taint of everything reachable from package variables and closures made at initialisation, through fields, calls and returns, to writes; effect whitelist of library functions per package; absence of concurrency in the SSA",
  note="The CLI is a program, not an interpreter: exempt. Values and commands passed around as interfaces are left to C05 and C06."),
 dict(id="C17", title="Compiled programs are well-formed",
  statement="Whatever script, sentences, word or constant is compiled, the evaluation machine runs the program without losing track of its stack: every opcode finds the values it needs on its own frame, frames are closed in the order they are opened and none is left open, the values of a closed frame are used by the very next opcode, every opcode that takes a constant has its own, in order, and with captured positions every opcode has its own. Scripts, lists of sentences and constants leave exactly one value, so does a word unless it expands. The same holds of programs made from tables of opcodes, and the executor gives each opcode the same effect on all its paths.",
  quantifier=Q(["inputs"], "every script, sentence, word and constant given to the compiler, with any nesting of tuples, blocks, expressions, strings, substitutions and selectors"),
  why_tests_cant="Tests compile a few dozen words; the opcodes come from mutually recursive functions whose combinations are unbounded.",
  anchors=A(["src/core/compiler.go", "src/helena_dialect/core.go"], [("emission", "Compile* and emit* methods of Compiler, Program.PushOpCode and PushConstant"), ("execution", "Executor.ExecuteUntil and ProgramState"), ("tables", "Scope.CompileTupleValue, Scope.CompilePair")],
   ["Compiler.CompileScript", "CompileSentences", "CompileWord", "CompileConstant", "every command that compiles code"]),
  technique="effect of each opcode on stack, frames, constants and counters derived from the paths of the executor; type system for programs (numbers of values per frame, needed values, closed frame) inferred for the mutually recursive emission functions by a fixpoint of summaries over their SSA form",
  note="Whether a substitution, expansion or selector yields the right value is left to tests: these opcodes replace one value by another."),
 dict(id="C18", title="Suspended work resumes where it stopped, once",
  statement="When a command yields, everything that was executing it is kept, and resuming goes on from there, once. The program stops at that command and, when it is run again, resumes it before anything else, with the value given and the state that it yielded; it goes on after commands that succeed only. Commands that execute others (ensembles and value commands, aliases, tuple prefixes) can be suspended with them, and resume the same command with its own state, again after each suspension. A process runs its innermost program that hasn't ended, with the result of the one that it ran; it runs continuations instead of returning them, calls the callback of each program once with its result before removing it, and never removes a suspended program. Coroutines and catch bodies, handlers and finally scripts are run or given values only when they can be: a coroutine that is running refuses to be run again, one that has ended is done and keeps its result, active and done tell its state, and every suspended one can go on.",
  quantifier=Q(["programs", "schedules", "histories"], "every sequence of yields, waits, yields back and errors, in any nesting of commands, coroutines and catch"),
  why_tests_cant="Tests suspend once or twice at a few places; suspensions nest and repeat without bound, and each layer must keep the state of the one below.",
  anchors=A(["src/core/compiler.go", "src/helena_dialect/core.go", "src/helena_dialect/coroutines.go", "src/helena_dialect/controls.go", "src/helena_dialect/ensembles.go"], [("programs", "Executor.ExecuteUntil"), ("processes", "Process.Run, Process.YieldBack, ProcessStack"), ("wrappers", "Execute and Resume of ensembles, aliases, ExpandPrefixCommand and value commands"), ("processes kept", "coroutineCommand, catchCmd and catchState")],
   ["Process.Run", "coroutine wait, yield, active, done", "catch", "Resume methods"]),
  technique="typestate analysis of the objects that hold processes (closed under any sequence of calls, including re-entrant ones), of the program state in the executor and of the stack of a process, by forward exploration of the SSA paths with result codes; provenance of the results, states and commands kept by suspensions",
  note="A body that yields inside a catch command without a yield handler is abandoned, by design of the language. Values computed by the commands are not examined."),
 dict(id="C19", title="Scripts run, and names resolve, in the scope they belong to",
  statement="Each script or command that a command runs is run in the scope that the command defines for it, whatever the callers. Procedures run their body in a new child of the scope where they were defined, and the defaults and guards of their arguments and their return guard in that scope. Closures run their body in a local scope of the one where they were defined, and defaults and guards in that one; macros do the same with the scope of their caller. Coroutines run in the scope that created them. Namespaces, scopes and ensembles run their body in a new child of the scope of the caller, keep it, register themselves in the scope of the caller, and run what they are given by eval and call, and find their subcommands, in the scope kept; ensemble subcommands run in the scope of the caller. Loops run their bodies, scripts and command sources, and set their variables, in a local scope of the caller. Handlers of catch, conditionals, logical operators and everything else run in the scope of the caller or a local one. Variables are set, unset and read, and commands defined and found, in the scope of the caller, except for these. Modules run in a root scope of their own.",
  quantifier=Q(["programs", "inputs"], "every command, on every path, with any nesting of callers and definitions"),
  why_tests_cant="A script run in the wrong scope often gives the same result, unless a name happens to have another meaning there; tests use few names and little nesting.",
  anchors=A(["src/helena_dialect/core.go", "src/helena_dialect/procs.go", "src/helena_dialect/closures.go", "src/helena_dialect/macros.go", "src/helena_dialect/namespaces.go", "src/helena_dialect/scopes.go", "src/helena_dialect/ensembles.go", "src/helena_dialect/controls.go", "src/helena_dialect/argspecs.go", "src/helena_dialect/modules.go"], [("scopes given", "CreateContinuationValue, CreateContinuationValueWithCallback, Scope.PrepareProcess, ArgspecValue.CollectArguments"), ("scopes kept", "scope fields of commands"), ("names", "Scope.RegisterCommand, Scope.Set*, Scope.Resolve*")],
   ["proc", "closure", "macro", "namespace", "scope", "ensemble", "coroutine", "loop", "list foreach", "dict foreach", "catch", "import"]),
  technique="provenance analysis: what each scope is (that of the caller, that of the command, a child or local scope of one of them) is propagated from the entry points of every command through calls, closures, fields and results to each use, and compared with a table of the language",
  note="Scopes reached through values other than commands and state structures are not followed. What scopes do with names is C13."),
]

NA = [
 dict(id="N01", title="Displayed values read back as the same values",
  statement="Displaying a value that has a text form and evaluating that text yields an equal value: quoting, escaping and nesting choose delimiters that the tokenizer reads back unchanged.",
  quantifier=Q(["inputs"], "every string, list, dictionary, tuple, block and word, with any characters and nesting"),
  why_tests_cant="The space of strings mixing delimiters and escapes is unbounded.",
  anchors=A(["src/core/display.go", "src/core/tokenizer.go"], [("display", "Display methods and functions")], ["DisplayValue"]),
  reason="Equality of the values denoted by two unbounded strings through the tokenizer and parser: a functional relation between two programs, out of reach of dataflow, effect or type analyses."),
 dict(id="N02", title="Tokenizing loses nothing",
  statement="The literals of the tokens of a text, concatenated in order, are the text itself, and positions count its lines and columns.",
  quantifier=Q(["inputs"], "every text"),
  why_tests_cant="Escapes, line continuations and non-ASCII characters combine without bound.",
  anchors=A(["src/core/tokenizer.go"], [("streams", "StringStream, Tokenizer.Tokenize")], ["Tokenizer"]),
  reason="Needs an inductive invariant relating two strings and a position; only its safety part (no read outside of the text) is within reach, see C03."),
 dict(id="N03", title="Incremental, script and word compilation agree",
  statement="Evaluating a script by compilation or by the direct evaluator gives the same results, and programs resumed after a yield give the same results as uninterrupted ones.",
  quantifier=Q(["programs", "schedules"], "every script, every interruption point"),
  why_tests_cant="Programs are unbounded.",
  anchors=A(["src/core/compiler.go", "src/core/evaluator.go"], [("opcodes", "Executor.ExecuteUntil")], ["Compiler", "Executor"]),
  reason="Semantic equivalence of two interpreters. Local consequences are decided elsewhere (C07, C10)."),
 dict(id="N04", title="Arithmetic, comparisons and sorting compute the right values",
  statement="Numeric commands compute integer results exactly or as reals, comparisons agree with the order of numbers or strings, and sorting yields an ordered permutation.",
  quantifier=Q(["inputs"], "every operand, every list"),
  why_tests_cant="Overflow, mixed integers and reals, and equal elements are rarely sampled.",
  anchors=A(["src/helena_dialect/math.go", "src/helena_dialect/numbers.go", "src/helena_dialect/lists.go"], [("numbers", "arithmetics, numberCommand"), ("sort", "list sort")], ["+", "-", "*", "/", "list sort"]),
  reason="Values of results, over unbounded operands and user-supplied comparison scripts: neither a flow nor a typestate property."),
 dict(id="N05", title="Execution is bounded by memory, not by the Go stack",
  statement="Recursive scripts, self-referential aliases and deeply nested texts end with an error rather than by exhausting the Go stack.",
  quantifier=Q(["programs", "inputs"], "every recursion depth"),
  why_tests_cant="Depth is unbounded.",
  anchors=A(["src/core/parser.go", "src/helena_dialect/aliases.go", "src/helena_dialect/core.go"], [("recursion", "resolveLeadingTuple, alias execution, nested parsers")], ["Process.Run"]),
  reason="Depth of recursion depends on run-time values. The property does not hold today (see Defects found): no repair is small."),
 dict(id="N06", title="Listing commands give names in a stable order",
  statement="Lists of names, dictionary keys and displays come in an order that depends only on the operations that built them.",
  quantifier=Q(["histories"], "every dictionary, scope and ensemble"),
  why_tests_cant="Go randomises map iteration; tests sort the results.",
  anchors=A(["src/helena_dialect/dicts.go", "src/helena_dialect/ensembles.go", "src/core/values.go"], [("map iteration", "range loops over maps")], ["dict keys", "subcommands"]),
  reason="Does not hold by design of the current representation (Go maps), and the tests sort accordingly; nothing to protect."),
 dict(id="N07", title="Argument specifications bind arguments to the right names",
  statement="Positional, optional, remainder and option arguments are bound to the slots that the specification describes, defaults and guards being applied in order.",
  quantifier=Q(["inputs", "programs"], "every specification and number of arguments"),
  why_tests_cant="Specifications are unbounded combinations of kinds.",
  anchors=A(["src/helena_dialect/argspecs.go", "src/helena_dialect/arguments.go"], [("binding", "findSlots, setSlotValues, setPositionalSlotValues")], ["argspec", "proc", "closure", "macro"]),
  reason="Relates sums of argument kinds of a run-time specification to positions in a frame; indexes in that code are counted as not decided in C01 for the same reason. Its arity and memory safety at the entry points are covered by C01 and C11."),
]
