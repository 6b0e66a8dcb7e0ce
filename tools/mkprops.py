#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so the long strings stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or ["rendered output of an executed plan"],
                          "hook_needed": None}})

prop("C01", "Literal text is rendered byte for byte",
 "Every byte of a template that is not part of a directive, of a reference or of a '##' line comment appears in the output unchanged, exactly once and in order, including '$' and '#' that do not introduce a reference or directive, text around conditionals and loops, and a reference to an undefined variable, which is rendered as it was written (of the quiet form '$!{x}' the '!' is dropped). The content of a raw block '#[[ ... ]]#' is rendered verbatim without its delimiters. A '##' comment removes only the bytes from '##' to the end of its line, newline included.",
 ["inputs", "configurations"], "all byte strings as template text (including UTF-8, control bytes, quotes, '$', '#', brackets), at every position relative to directives and references, for every planner buffer size and HTML escaping setting",
 "The tests render a few dozen fixed templates with tame text; the guarantee is over every byte sequence next to every construct.",
 ["parser/parser.go", "parser/select.go", "parser/matcher/velty.go", "parser/matcher/whitespace.go", "stmt.go", "est/stmt/select.go"],
 [("template scanner", "parser.Parse"), ("raw block", "parser.checkIfEscaped"), ("append statement", "Planner.compileAppend"), ("placeholder of undefined reference", "directAppender.appendSelectorName")])

prop("C02", "Any template compiles or is rejected cleanly, and blocks must balance",
 "Compiling any byte sequence as a template, against any set of defined variables, terminates and either returns an executable plan or an error, never a panic, and the outcome is the same every time. A template in which an #if, #for or #foreach is left open, or in which #end, #else or #elseif occurs with nothing it can belong to, is rejected with an error; a template whose blocks balance and whose directives are well formed is accepted.",
 ["inputs"], "all byte strings, in particular random bytes, random sequences of template tokens, and mutated or truncated valid templates",
 "The tests compile only hand-written valid templates and a handful of invalid ones.",
 ["parser/parser.go", "parser/builder.go", "parser/select.go", "parser/operand.go", "parser/expr.go", "parser/range.go", "planner.go"],
 [("statement stack", "parser.Builder.PushStatement/terminateStatement"), ("open block check", "parser.Parse"), ("selector resolution errors", "Planner.matchSelector")],
 ["error or plan returned by compilation"])

prop("C03", "Expressions evaluate to the mathematically expected value",
 "An expression over integers, floats, strings and booleans built from + - * /, == != < <= > >=, && ||, ! and parentheses evaluates as in ordinary arithmetic and logic: parentheses first, then * and /, then + and -, then comparisons, then && and then ||, operators of one level grouping from the left, + on strings concatenating, an integer meeting a float being converted to float, and a number, bool or time meeting a string in +, == or != (directly or through a pointer) being converted to its text. The value is the same whether an operand is a literal, a variable, a struct field, a field behind a pointer, a slice element or a function result, and wherever the expression stands (assignment, condition, loop header or function argument). An operand that is an undefined variable is rejected at compile time.",
 ["inputs", "programs"], "all well-typed expression trees up to the generated depth, over all operator combinations, operand kinds, operand sources and values (integer wrap-around as in Go; division by zero and nil pointers as arithmetic operands excluded)",
 "The tests fix a few expressions with two or three operands; each operator has separate direct and indirect code paths and the combinations are unbounded.",
 ["parser/operand.go", "parser/expr.go", "binary.go", "unary.go", "est/expr/binary.go", "est/expr/int.go", "est/expr/float.go", "est/expr/string.go", "est/expr/bool.go"],
 [("operator parsing and precedence", "parser.matchOperand/addEquationIfNeeded"), ("operand type unification", "Planner.compileBinary"), ("operator tables", "computeBinaryInt/Float/String/Bool")])

prop("C04", "Conditionals and loops run exactly the prescribed bodies, in order",
 "In an if/elseif/else chain exactly the first branch whose condition is true is rendered, or the else branch if none is, and nothing otherwise; non-boolean conditions are true when the number is non-zero, the string or slice non-empty, the map or interface non-nil, and the pointer non-nil (a pointer to a number, string or bool: non-nil and pointing to a true value). A foreach renders its body once per element of the slice or half-open literal range (descending when the start is larger), in order, with the loop variable bound to that element, and a for loop renders it while its condition holds, applying its step after each round; a step such as += applies the value of its whole right side to what is counted, an int, float or string variable or field. Blocks nest to any depth and may contain any number of statements, all of which are executed in order.",
 ["programs", "inputs"], "all nestings of if/elseif/else, for and foreach over generated data, with bodies of 0 to 40 and more statements and loops of 0 to many iterations",
 "Blocks are executed by code specialised per statement count and loops by code specialised per element kind; tests reach a few of these.",
 ["stmt.go", "range.go", "est/stmt/block.go", "est/stmt/if.go", "est/stmt/for.go", "est/stmt/foreach.go", "parser/builder.go", "parser/range.go", "ast/stmt/ifstmt.go"],
 [("block specialisations", "stmt.NewBlock"), ("condition truthiness", "stmt.conditionOperand"), ("else chaining", "stmt.If.AddCondition"), ("loop drivers", "stmt.ForEach, stmt.For")])

prop("C05", "Assignment sets its target to the value and changes nothing else",
 "After #set the target variable or field (nested, embedded or behind a non-nil pointer) reads back as the assigned value, for every supported kind, and every other variable, field, and value of the state keeps what it had. An assignment through a nil pointer has no effect on any value that can be read, in this execution or any other.",
 ["histories", "inputs"], "all sequences of assignments and reads over variables and struct fields of every scalar kind, strings, slices, maps, structs and pointers, direct and indirect",
 "The tests assign a few ints and strings; each kind has its own unchecked memory copy whose size or direction can be wrong for values the tests do not use.",
 ["stmt.go", "planner.go", "est/stmt/assign/assign.go", "est/stmt/assign/int.go", "est/stmt/assign/bool.go", "est/stmt/assign/float.go", "est/stmt/assign/string.go", "est/op/upstream.go"],
 [("kind specific copies", "assign.assignValue"), ("implicit variable definition", "Planner.adjustSelector"), ("type unification", "Planner.computeAssignment")])

prop("C06", "A reference reads exactly the field, under exactly the names, it denotes",
 "A dotted reference into a defined or embedded variable yields the value that the same path has in Go, through any mix of nested structs, embedded structs and pointers, and through a nil pointer it yields the zero value of its type instead of failing. Tags give a field its template names: every listed name works, an embedded prefix is required in front of the promoted names, and a field tagged '-' is rejected at compile time. A path that does not exist in the type is rejected at compile time, and a type in which a name would denote two fields is refused when the variable is defined. Template identifiers are ASCII and start with a letter.",
 ["inputs", "configurations"], "all struct shapes generated at run time (nesting, embedding, pointers, slices of them, tags, padding), all values and nil patterns, all paths into them",
 "Offsets and indirections are computed from the run-time layout; tests use a dozen fixed struct types.",
 ["planner.go", "selector.go", "tag.go", "cyclic.go", "est/type.go", "est/op/selector.go", "est/op/upstream.go"],
 [("selector creation", "Planner.createSelectors"), ("reference resolution", "Planner.matchSelector/fieldByName"), ("pointer walking", "op.Upstream"), ("tag parsing", "velty.Parse")])

prop("C07", "Indexing returns the addressed element, or the zero value for a missing key",
 "Indexing a slice (also nested, also inside structs and interface values) yields the element at that position and an index outside the slice is reported by a panic and never reads other memory. Indexing a map with a string, integer or other supported key yields the stored value, and a missing key or nil map yields the zero value, with integer-like and pointer keys matching their plain int or string form.",
 ["inputs"], "all slices and maps of generated element kinds and sizes, indexes given as literals, variables and expressions, in and out of range",
 "Tests index one or two containers with one literal.",
 ["planner.go", "est/op/slice.go", "est/op/map.go", "est/op/iface.go", "est/op/selector.go", "keys/normalize.go"],
 [("slice access", "op.Slice.Exec"), ("map access", "op.Map.Exec"), ("interface access", "op.Interface.Exec")])

prop("C08", "Values are rendered in canonical form, independent of buffer sizing",
 "An int is rendered in decimal, a float in shortest non-exponent decimal form, a bool as true or false, a string as is, a time as RFC3339 and any other non-basic value as fmt's %v when the reference's type is an interface, and other values as their JSON encoding. The rendered bytes do not depend on the configured initial buffer size nor on how much was written to the buffer before, and integer formatting agrees with the standard library in every base and at every magnitude.",
 ["inputs", "configurations", "histories"], "all values of the supported kinds including extremes, all initial buffer sizes from 0 up, all sequences of appends and resets",
 "The number formatter and buffer growth have boundary conditions (digit counts, buffer edges) that depend on the exact sequence of writes.",
 ["est/buffer.go", "utils/itoa.go", "est/stmt/select.go", "options.go"],
 [("buffer growth", "est.Buffer.growIfNeeded"), ("integer formatting", "utils.AppendInt"), ("appenders", "stmt.Selector")])

prop("C09", "HTML escaping covers all rendered values and nothing else",
 "With HTML escaping enabled, the output is the template's literal text unchanged with every rendered reference value replaced by its HTML-escaped form, so no rendered value can contribute a raw '<', '>', '&' or quote; with escaping disabled values are rendered unescaped. Escaping happens only at rendering: it does not change comparisons, assignments, or values passed to functions, and is applied exactly once.",
 ["inputs", "configurations"], "all templates and values containing HTML-special bytes, value sources of every kind (variables, fields, function results, map and slice elements, interfaces, JSON-rendered values, evaluated templates)",
 "A single test template uses the option; the guarantee is over every rendering path.",
 ["est/buffer.go", "options.go", "compile.go", "evaluate.go", "est/stmt/select.go"],
 [("escaping append", "est.Buffer.AppendString"), ("literal append", "est.Buffer.AppendStringWithoutEscaping")])

prop("C10", "Built-in functions agree with their Go standard library counterparts",
 "The functions in the strings, math, strconv, slices, types and time namespaces return in a template what the Go function of the same name (or the documented helper) returns for the same arguments, for every argument value and whether arguments are literals, variables, fields or nested calls. Helpers without such a counterpart behave as named: slice reversal returns a reversed copy and leaves its argument alone, element access returns that element, length the number of elements, and type predicates are true exactly for that type.",
 ["inputs"], "all argument values of the declared types for every registered namespace function, through every calling path",
 "The tests call a few functions with one argument list each.",
 ["functions/strings.go", "functions/math.go", "functions/strconv.go", "functions/slices.go", "functions/types.go", "functions/time.go", "est/op/func.go"],
 [("namespaces", "functions.Strings/Math/Strconv/Slices/Types"), ("optimised call wrappers", "op.Functions.discover")])

prop("C11", "Registered functions and methods get the right arguments and are called once",
 "A call in a template passes the receiver and arguments to the registered function or Go method by position and by value, renders or assigns the returned value, and invokes it exactly once per evaluation, in template order, including in chained and nested calls. The result does not depend on whether the function's signature is one with an optimised wrapper or is called by reflection, nor on how it was registered.",
 ["inputs", "programs", "configurations"], "all functions of generated arity and parameter types (optimised signatures, reflective ones, variadic, namespaces, per-type functions, methods on values and pointers) with all argument values and sources",
 "Some thirty signatures have hand-written wrappers, of which the tests exercise a few; argument order mistakes show only with distinguishable arguments.",
 ["est/op/func.go", "est/op/upstream.go", "planner.go", "parser/select.go"],
 [("signature wrappers", "op.Functions.discover"), ("reflective call", "op.Func.execute"), ("chained receivers", "op.Upstream"), ("argument parsing", "parser.matchFunctionCall")],
 ["arguments recorded by the registered function", "rendered output"])

prop("C12", "Function errors are recorded on the state and never lost",
 "When a called function returns an error, that error is recorded on the state in evaluation order and the state reports itself invalid, while an execution without errors leaves it valid; with the panic-on-error option, or PanicOnError set on the state and its execution, the execution stops at the first such error and returns it. This holds wherever the call stands: in text, conditions, assignments, loops, arguments of other calls, and templates evaluated at run time. Error messages arrive exactly as the function produced them.",
 ["programs", "configurations", "fault_sequences"], "all placements and sequences of failing and succeeding calls, with and without the option, and all message texts",
 "One test checks one failing call; the guarantee is over every position and sequence of failures.",
 ["est/state.go", "est/op/func.go", "functions/errors.go", "functions/maps.go", "functions/json.go", "evaluate.go", "compile.go", "est/execution.go"],
 [("error recording", "est.State.AddError"), ("function invocation", "op.Func.CallFunc"), ("evaluated templates", "evaluator.newState")],
 ["errors recorded on the state", "returned error", "validity flag"])

prop("C13", "Evaluating a template at run time equals having written it inline",
 "Rendering '#evaluate' of a template string yields what the same text would render if it stood in the outer template at that place with the current variable values, except that variables it assigns do not change the outer ones and a string that is not a valid template renders as nothing. The output does not depend on the configured cache size nor on which templates were evaluated before, and evaluated templates see the values current at each evaluation.",
 ["programs", "histories", "configurations"], "all evaluated templates over defined variables, all sequences of evaluations mixing repeated and new templates, all cache sizes including 0 and ones that overflow",
 "The tests evaluate one or two strings once; cache replacement needs more distinct templates than they use.",
 ["evaluate.go", "cache.go", "planner.go", "est/type.go", "est/op/selectors.go"],
 [("evaluation", "evaluator.compute"), ("state transfer", "evaluator.newState"), ("cache", "cache.expression/put")])

prop("C14", "Executions of one plan are independent and repeatable",
 "Executing a plan on a fresh state with given variable values always renders the same output, whatever was executed before with this or any other plan, state or planner; executing it again on the same state after a reset, with every variable it reads set to the same value again, renders the same output again. Execution changes no value supplied by the caller other than through #set on data reachable by pointer.",
 ["histories"], "all interleavings (in one thread) of compiling, creating states, setting values, executing, resetting over several plans and planners sharing the process",
 "Tests execute each plan once; leaks through shared constants, caches or accumulators need particular histories.",
 ["compile.go", "const.go", "est/const.go", "est/state.go", "est/execution.go", "planner.go", "literal.go"],
 [("state provider", "Planner.stateProvider"), ("shared constants", "est.ZeroIntPtr and friends"), ("accumulators", "Planner.accumulator"), ("reset", "est.State.Reset")])

prop("C15", "One plan can be executed concurrently on separate states",
 "Any number of goroutines may execute one compiled plan at the same time, each on its own state, also with run-time evaluated templates, any cache size and states from a shared pool: there is no data race and each execution renders what it would render alone.",
 ["schedules", "configurations"], "all schedules of concurrent executions of generated templates with generated per-goroutine values",
 "Only one test is concurrent and it renders three variables; races and cross-talk depend on the schedule and on shared caches.",
 ["cache.go", "evaluate.go", "pool.go", "est/execution.go", "est/type.go", "const.go", "planner.go"],
 [("cache locking", "cache.locker"), ("per-execution memory", "est.State"), ("pool", "velty.Pool")],
 ["race detector reports", "rendered output per goroutine"])

prop("C16", "Values set on a state are read back by name, and unknown names are errors",
 "Setting a defined or embedded variable on a state to a value of its type makes every read of that variable, in the template and through the state, yield that value and leaves all other variables as they were, for every kind of value and any number and order of defined variables. Setting a name that was never defined, or embedding a value of a type that was never embedded, returns an error and changes nothing, as does defining a variable under the name of an embedded one, or with an additional name that a variable already has, or embedding a type whose name is already taken.",
 ["inputs", "configurations"], "all sets and orders of variable definitions with generated types, and all sequences of settings",
 "The variable layout is a struct type built at run time; tests define a handful of variables of few kinds.",
 ["est/type.go", "est/state.go", "planner.go", "compile.go"],
 [("layout", "est.Type.addField"), ("setters", "est.State.SetValue/EmbedValue"), ("definition", "Planner.DefineVariable/EmbedVariable")],
 ["rendered output", "returned errors", "values read through the state's accessors"])

prop("C17", "A pool hands out exclusive, clean states",
 "A state obtained from a pool is held by nobody else until it is put back, has an empty output and no errors, and renders exactly what a newly created state would render for the same values set, whatever the previous holders of pooled states did. This holds for any pool size and any sequence of get and put, including more holders than the pool size.",
 ["histories", "configurations", "schedules"], "all sequences of get, set, execute and put over any number of held states and any pool size",
 "One test takes and puts twenty states and asserts nothing about them.",
 ["pool.go", "est/state.go", "est/buffer.go"],
 [("exclusive take", "est.State.Take"), ("cleaning", "est.State.Reset"), ("accounting", "Pool.Put")],
 ["identity of returned states", "rendered output"])

prop("C18", "Equivalent spellings of a template render the same",
 "The reference forms $x, ${x}, $!x and $!{x}, the directive forms #else and #{else}, #end and #{end}, and extra blanks inside directive parentheses and around operators, commas and the 'in' of a foreach do not change what a template renders. Rendering a template that is the concatenation of two templates yields the concatenation of what each renders after the other's assignments.",
 ["programs"], "all generated templates and all combinations of these rewritings at all places",
 "Tests contain these spellings at a few fixed places only.",
 ["parser/parser.go", "parser/select.go", "parser/operand.go", "parser/range.go", "parser/lex.go"],
 [("selector forms", "parser.MatchSelector"), ("directive forms", "parser.matchStatement"), ("whitespace", "parser.matchOperand")])

prop("C19", "Comparing pointer operands compares the pointed-to values",
 "Comparing two pointers to numbers, strings or booleans with == and != compares the values they point to, two nil pointers being equal and nil differing from non-nil; ordering two pointers to numbers orders the values they point to, nil being less than anything else. A pointer can also be compared with a plain value. The full width of every integer and float kind takes part in the comparison.",
 ["inputs"], "all pairs of pointers of one element kind, nil or not, over the whole value range, for all six operators",
 "Each kind and operator pair has its own hand-written function; tests exercise a few with small values.",
 ["est/expr/ptr.go", "est/expr/binary.go"],
 [("comparison table", "expr.computePtr")])

prop("C20", "Map lookup, key presence and indexing by field agree with the data",
 "HasKey and the maps functions report a key as present exactly when the map holds it and return exactly its stored value, reporting an error when the value is not of the requested type; IndexBy on a slice of structs (or pointers) yields a map in which every element can be found under the value of that field, the last one winning for equal keys. Keys given as integers of other widths or as pointers to int or string are looked up as the plain int or string.",
 ["inputs"], "all maps and slices of generated contents, all keys present and absent, all key forms",
 "Tests use one-entry maps.",
 ["functions/maps.go", "functions/slices.go", "keys/normalize.go", "est/op/func.go"],
 [("key normalisation", "keys.Normalize"), ("HasKey", "functions.HasKeyFunc"), ("IndexBy", "functions.SliceIndexByFunc"), ("maps namespace", "functions.Maps")])

prop("C21", "JSON functions round-trip values",
 "Marshalling a value to JSON in a template yields its Go JSON encoding, and unmarshalling a JSON text into a named type yields a value equal to what Go's decoder produces for that type, so marshal after unmarshal reproduces the value; malformed JSON, an unconvertible source or an unknown type is reported as an error and yields nothing.",
 ["inputs"], "all generated values and types, all well-formed and malformed JSON texts, sources as string, pointer to string, bytes and reader",
 "Tests decode one fixed document.",
 ["functions/json.go", "est/op/func.go", "planner.go"],
 [("marshal", "functions.JSON.Marshal"), ("unmarshal", "functions.JSON.UnmarshalInto"), ("static result type", "functions.JSON.MethodResultType")])

prop("C22", "Calls that do not fit the function are reported and never made",
 "When a function, method or namespace function is called with too few or too many arguments, or with an argument (or receiver) whose type cannot be converted to that of the parameter, or a builtin taking any value is given one of a kind it refuses, the function is not called; exactly one error is recorded on the state for the call, the call yields the zero value of its result type, the rest of the template executes as usual and Exec returns the error; with PanicOnError execution stops there. Numbers are converted to numeric parameters of any type, and fitting calls around it happen with unchanged arguments.",
 ["programs", "inputs"], "all signatures (with and without a specialised implementation, variadic), all ways of registering, all argument lists that do not fit, wherever the call stands",
 "Specialised implementations read their arguments without checking; tests call functions with the arguments they expect.",
 ["est/op/func.go", "functions/slices.go", "functions/maps.go", "functions/errors.go"],
 [("argument checks", "op.Func.execute, op.Func.argument"), ("guard of specialised functions", "op.Func.optimised"), ("error recording", "op.Func.CallFunc")])

prop("C23", "Ill-typed templates are rejected by Compile",
 "A template is rejected with an error by Compile, wherever the construct stands and whether or not it would be executed, when it: uses an undefined variable as an operand, condition, index, evaluated value or argument of a known function; reads or assigns a field a struct does not have, or a field of something that is not a struct; calls an unknown function inside an expression, an unknown method or an unknown function of a namespace, or calls a variable; gives structs, slices, maps, arrays or functions to + - * / or strings to - * / < <= > >=, or bool as the first operand of arithmetic; negates something that is not a bool; has a first operand of && or || that is not a bool; uses a struct as a condition; loops over something that is not a slice, or with an item that is not a variable, or a variable of another type; assigns to an element of a map or a call; indexes something that is neither a slice, a map nor an interface, or a slice by something that is not an integer; evaluates something that is not a string; or assigns between incompatible types (to or from structs, slices, maps, arrays and functions of another type, text or bool to a float). The same template with a well-typed construct in that place is accepted.",
 ["programs"], "all ill-typed constructs of these forms, at all places of all programs, on values reached in all ways",
 "Tests compile valid templates, almost without exception.",
 ["planner.go", "stmt.go", "binary.go", "unary.go", "est/op/selector.go", "est/op/slice.go", "est/stmt/assign", "est/expr/binary.go"],
 [("references", "Planner.selector, matchSelector, matchFirstSelector"), ("operands", "unifyTypes, expr.Binary"), ("statements", "Planner.compileForEachLoop, compileIf, compileEvaluate"), ("assignments", "stmt.Assign")])

prop("C24", "Values survive garbage collection",
 "Whenever the garbage collector runs - while a planner, plan or state is alive, between compiling, creating a state, setting its variables, executing and reading, or in the functions a template calls - literals, variables, items of a loop over the result of a call, arguments, results, compiled plans, evaluated templates and rendered output keep their values as long as the plan or the state that uses them is reachable, even when the planner, the template text and the values given to SetValue are not, and when the caller overwrites the bytes of the template after compiling it.",
 ["schedules", "programs"], "all programs and all points at which garbage can be collected",
 "Values are addressed with unsafe pointers throughout; the tests are too short for a collection to happen, and keep everything reachable.",
 ["compile.go", "literal.go", "est/op/operand.go", "est/op/func.go", "est/op/upstream.go", "est/stmt/foreach.go", "est/stmt/assign", "est/expr"],
 [("state memory", "Planner.stateProvider"), ("literals", "Planner.literalExpr, constants"), ("call arguments and results", "op.Func.CallFunc"), ("loops", "stmt.ForEach")])

prop("C25", "Calls reach the function registered for them, and bad registrations are refused",
 "A call on a receiver reaches the method of that name of the receiver's type, else the function registered for the kind of the receiver, else the plain function, else the function registered for exactly that type; a call without receiver reaches the plain, else the standalone function of that name; a call on a namespace reaches the methods of the value it was registered with; a name registered for none of these is rejected by Compile. Registering a namespace, a standalone function or a function of a type under a name already taken is an error and leaves the first in place, while a plain or kind function replaces the one before; handlers that are not functions, return nothing, more than two results or a second result that is no error are refused and leave everything as it was. Planners made with the same functions, or by New of another planner, share what is registered at any time, other planners don't; plans compiled before a registration keep calling what they called.",
 ["histories"], "all histories of registrations and calls over any number of planners and registries",
 "Tests register one function each.",
 ["est/op/func.go", "planner.go"],
 [("lookup", "op.Functions.method, functionByKind, funcByName"), ("registration", "op.Functions.Register*"), ("kinds", "op.KindIndex"), ("sharing", "Planner.New, Planner.init")])

prop("C26", "The function registry describes all builtin functions, copies are independent",
 "A copy of the function registry has one entry for every namespace and every function of a kind that templates can call, and nothing else: the type, kinds and handler of each entry, registered in any order with empty functions, make every call of every builtin function do the same (output, errors, rejection) as it does with the functions of a new planner. Whatever is defined in, changed in or deleted from a registry, or done to what it returned, no other registry and no later copy changes; a name defined with $, braces or both is found without them, and names that were not defined are not.",
 ["histories", "inputs"], "all histories of definitions and changes over any number of registries, and all calls of the builtin functions with all arguments",
 "No test uses the registry.",
 ["functions/init.go", "functions/consts.go", "est/op/func.go"],
 [("registry", "functions.Registry, functions.CopyInstance"), ("entries", "functions.FuncErrors … functions.SliceIndexBy"), ("builtin functions", "op.NewFunctions, op.EmptyFunctions")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
