#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one record per property). Run: python3 tools/properties.py"""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
            observe_at=observe or ["output buffer after execution"], hook_needed=hook)))

prop("C01", "Literal text reaches the output verbatim and in order",
 "Every byte of a template that is not part of a directive, a reference or a comment is written to the output unchanged, exactly once and in template order. A ## comment removes the text from ## to the end of its line (newline included), #[[ ... ]]# writes its body uninterpreted, and a $ or # that does not start a reference or a directive is ordinary text.",
 ["inputs", "programs"], "all template texts, in particular all arrangements of $ # { } [ ] . ! quotes, newlines and identifier characters around literal text",
 "The tests hold a few dozen fixed templates; the way a special character is treated depends on what precedes and follows it, which only an enumeration of the arrangements covers.",
 ["parser/parser.go", "parser/select.go", "parser/lex.go", "parser/matcher/velty.go", "parser/matcher/whitespace.go", "stmt.go", "est/buffer.go"],
 [("scanner splitting text from special signs", "parser/parser.go Parse"), ("literal block escape", "parser/parser.go checkIfEscaped"), ("append statement", "stmt.go compileAppend")])

prop("C02", "References render values canonically, unknown ones as their own text",
 "A reference to a defined variable, in any of the forms $x, $!x, ${x}, is replaced by the canonical text of its value: integers of any magnitude in decimal, floats in shortest plain decimal notation, booleans as true or false, strings unchanged, and composite, narrow-integer and pointer values as JSON. A reference to a name that is not defined at that point of the template is written out as it appears in the source ($!{x} as ${x}); the bare name of a function namespace is no variable.",
 ["inputs", "programs"], "all values of all supported types, all reference forms, all texts around the reference",
 "Tests render a handful of small values; integer formatting has separate code paths for small, medium and large magnitudes and for signs, and each value kind takes its own path.",
 ["est/stmt/select.go", "est/buffer.go", "utils/itoa.go", "parser/select.go", "expr.go"],
 [("per kind appenders", "est/stmt/select.go"), ("integer formatting", "utils/itoa.go"), ("placeholder of unresolved selector", "expr.go/selector.go")])

prop("C03", "Field paths reach the right data and never fail on nil",
 "A path $a.b.c reads exactly the named field through any combination and depth of structs, pointers, embedded structs and recursive types. When any pointer on the path is nil, the path reads as the zero value of the field's type and the execution goes on without a panic or an error.",
 ["inputs", "programs", "configurations"], "all struct shapes and layouts (field offsets, pointer/value nesting, embedding, recursion), all placements of nil pointers, all paths",
 "Reads go through raw memory offsets computed from the type shape; tests fix a few shapes with few nil placements.",
 ["planner.go", "est/op/upstream.go", "est/op/selector.go", "est/op/operand.go", "cyclic.go"],
 [("selector indexing with accumulated offsets", "planner.go createSelectors"), ("pointer chasing with nil check", "est/op/upstream.go upstreamOrNil"), ("zero value for nil parents", "est/op/upstream.go zeroValue")])

prop("C04", "Expressions follow precedence, associativity and type unification",
 "The value of an expression is the one given by conventional operator precedence (|| lowest, then &&, equality, relational, additive, multiplicative), left associativity and parentheses, whatever its length and nesting. Operands of different types are unified first (integer with float gives float, anything with string gives string), integer division truncates, and an operator that the unified type does not support is reported when the template is compiled.",
 ["programs", "inputs"], "all operator chains, groupings, operand types (literals, variables, fields, pointers, narrow integers) and operand values",
 "The tests use chains of at most three operators over a few types; the regrouping and the choice among dozens of typed operator routines depend on the whole chain and both operand kinds.",
 ["binary.go", "unary.go", "parser/operand.go", "parser/expr.go", "est/expr"],
 [("operator precedence regrouping", "binary.go rearrange"), ("operand unification", "binary.go unifyOperands"), ("typed operator routines", "est/expr/*.go")])

prop("C05", "#set changes exactly its target, converted to the target's type",
 "After #set($target = expression) the target variable or field holds the value the expression had, converted to the target's declared type, and later statements see it; nothing else changes: not another variable or field, not the value the expression was read from, not data of other executions. An impossible conversion is reported as an execution error and leaves the target unchanged, and assigning below a nil pointer is a no-op.",
 ["programs", "inputs", "histories"], "all sequences of assignments over all target and source types, aliasing through pointers included",
 "A stray write of a wrong width or to a wrong place is visible only in a neighbouring field or later statement that the tests do not look at.",
 ["stmt.go", "est/stmt/assign", "est/op/expr.go", "est/op/upstream.go"],
 [("unification with the target type", "stmt.go computeAssignment"), ("typed stores", "est/stmt/assign/*.go"), ("destination of nil parents", "est/op/upstream.go destination")],
 observe=["output", "every variable and all reachable data after the execution"])

prop("C06", "Exactly the first true branch of a conditional runs",
 "In an #if / #elseif / #else chain, of any length and nested in any way, exactly the body of the first true condition runs, the #else body runs when none is true, and conditions after the first true one are not evaluated. Non boolean conditions are true unless zero, empty or nil.",
 ["programs", "inputs"], "all chains, nestings, condition types and values",
 "Tests check chains of two or three branches with boolean conditions and a few value kinds.",
 ["est/stmt/if.go", "stmt.go", "parser/if.go", "parser/builder.go", "ast/stmt/ifstmt.go"],
 [("branch selection", "est/stmt/if.go"), ("truthiness conversion", "est/stmt/if.go conditionOperand"), ("attaching else branches to the innermost open if", "parser/builder.go, ast/stmt/ifstmt.go")])

prop("C07", "Loops and blocks run every statement of every iteration once, in order",
 "#foreach runs its body once per element of the slice or range (end exclusive, ascending or descending) in order with the item bound to that element, #for runs init, then test, body and post until the test fails, for any nesting of loops. A block executes each of its statements exactly once, in order, whatever the number of statements.",
 ["programs", "inputs"], "all slice types and lengths (nil and empty included), ranges, loop headers, post operators, nestings and block sizes",
 "Blocks of each size from 0 to 16 and above have a hand written implementation each, and each element kind its own loop; the tests reach a few of them.",
 ["est/stmt/block.go", "est/stmt/for.go", "est/stmt/foreach.go", "range.go", "parser/range.go", "stmt.go"],
 [("unrolled blocks", "est/stmt/block.go"), ("loops per element kind", "est/stmt/foreach.go"), ("range expansion", "range.go compileRange"), ("for post operators", "parser/range.go matchForPost")])

prop("C08", "Concurrent executions of one plan do not affect each other",
 "Any number of goroutines may execute one compiled template, or templates compiled by one planner, at the same time, each with a state of its own; every one of them produces exactly the output, error and variable values it would produce running alone. No execution writes memory that another execution, the compiled plan or process-wide constants read.",
 ["schedules", "histories"], "all interleavings of any number of executions with differing inputs, dynamic evaluation, loops, assignments and function calls included",
 "The tests execute templates one at a time; interference needs particular interleavings.",
 ["est/state.go", "est/execution.go", "compile.go", "evaluate.go", "cache.go", "est/utils.go", "est/op/upstream.go"],
 [("all mutable data in the state", "est/state.go"), ("dynamic template cache lock", "cache.go getOrCompile"), ("per call copies of receiver operands", "est/op/upstream.go")],
 observe=["output, error and variables of each execution", "data race detector"])

prop("C09", "A pooled state is never held twice and always behaves like a new one",
 "A state obtained from a pool is not handed out again before it is put back, under any interleaving of State and Put calls. A state obtained from a pool always starts with an empty output, no errors and zero valued variables like a newly created one, whatever its earlier holders did, and State never blocks or returns nil whatever the pool size.",
 ["schedules", "histories"], "all histories of take, use, put, by any number of goroutines and any pool size (zero included)",
 "Tests take and put a few states sequentially.",
 ["pool.go", "est/state.go"],
 [("taken flag under a lock", "est/state.go Take"), ("reset before reuse", "pool.go Put, est/state.go Reset")],
 [("isTaken", "state is held", "est/state.go State"), ("counter", "number of states handed out", "pool.go Pool")],
 observe=["identity of states handed out", "their buffer and errors"])

prop("C10", "#evaluate behaves as the template text it is given, cached or not",
 "#evaluate(t) writes exactly what the text t would write as a template at that place with the current variable values, and its own assignments to plain variables are not seen outside it; text that does not compile contributes nothing to the output. The result never depends on the cache: any cache size, any history of earlier evaluations of the same or other texts, in this or another execution or scope, gives the same output.",
 ["histories", "inputs", "configurations"], "all histories of evaluated texts and variable values, all cache sizes, nested evaluation, several evaluation sites with different variables in scope",
 "Tests evaluate one or two texts once; staleness and mix-ups need repeated evaluation with eviction, changed variables or a second scope.",
 ["evaluate.go", "cache.go", "planner.go"],
 [("copy of variables into the evaluated scope", "evaluate.go newState"), ("cache keyed by text and scope", "cache.go"), ("eviction", "cache.go cleanCacheIfNeeded")],
 [("cache", "compiled dynamic templates by text and scope", "cache.go")])

prop("C11", "Runtime errors are reported, first one first, and do not leak",
 "When a called function or a conversion fails, the execution returns a non-nil error that wraps the first failure; an execution without failures returns nil. With panic-on-error the execution stops at the failing statement (output holds what was written before it) and still returns the failure as an error; without it the execution goes on to the end. After Reset a state carries no error and no output of an earlier execution.",
 ["histories", "programs", "fault_sequences", "configurations"], "all placements and sequences of failing calls, in conditions, arguments, loops and evaluated text, with either setting, followed by reuse of the state",
 "Tests raise one error at one place.",
 ["est/execution.go", "est/state.go", "est/op/func.go", "evaluate.go", "functions/errors.go"],
 [("error list of the state", "est/state.go AddError"), ("recovering of template errors only", "est/execution.go Exec"), ("errors of evaluated text", "evaluate.go compute")],
 [("Errors", "failures of the current execution", "est/state.go State")],
 observe=["error returned by Exec", "output written before it", "state after Reset"])

prop("C12", "HTML escaping applies to every inserted value exactly once",
 "With HTML escaping enabled every value inserted by a reference, whatever its type or origin (variables, fields, function results, loop items, evaluated text), appears with <, >, &, ' and \" escaped exactly once, while literal template text is never altered. With escaping disabled values are inserted unchanged.",
 ["inputs", "programs", "configurations"], "all values and all places where a value can be inserted, both settings, nested evaluation included",
 "The tests escape one string variable at one place.",
 ["est/buffer.go", "planner.go", "compile.go", "evaluate.go", "stmt.go", "est/stmt/select.go"],
 [("escaping append and literal append", "est/buffer.go"), ("option passed to states", "compile.go stateProvider"), ("shared buffer of evaluated scope", "evaluate.go newState")])

prop("C13", "Buffer capacity never shows in the output",
 "For any initial buffer size, zero included, and any sequence of appended strings, bytes, integers, booleans and floats, the buffer content is exactly their concatenation, and after a reset it starts empty again. Templates therefore produce the same output for every configured buffer size and any output length.",
 ["inputs", "histories", "configurations"], "all buffer sizes and all append and reset histories",
 "Growth happens only at particular relations between size, fill level and appended length; tests use one or two sizes.",
 ["est/buffer.go", "utils/itoa.go", "options.go"],
 [("growth before copy", "est/buffer.go growIfNeeded"), ("write index", "est/buffer.go index")],
 [("buf", "storage", "est/buffer.go Buffer"), ("index", "bytes written", "est/buffer.go Buffer")])

prop("C14", "Names resolve by tags, prefixes, embedding and aliases",
 "A struct field is reachable under the names its velty tag declares (all of them, and then not under another name of a sibling), or under its own name without a tag, and not at all when omitted; fields of an embedded variable are reachable directly, with the prefix when one is declared, and a variable is reachable under each of its additional names. Every such name reads and writes the same field.",
 ["configurations", "inputs"], "all struct layouts with tags, prefixes, embedding by value or pointer, anonymous holders and aliases",
 "Tests declare a few types; the mapping is computed from arbitrary types with accumulated offsets.",
 ["tag.go", "planner.go", "est/type.go", "est/state.go"],
 [("tag parsing", "tag.go Parse"), ("selector indexing", "planner.go createSelectors"), ("embedded variables", "planner.go EmbedVariable, est/state.go EmbedValue")],
 observe=["output", "variables after execution", "compile errors for unknown names"])

prop("C15", "A function call evaluates each argument once, left to right, and passes it on",
 "A registered function or a method is called exactly once per execution of the call, with its receiver and the values of its arguments, evaluated once each from left to right and passed in that order; numeric arguments are converted to the parameter type and the result takes part in the surrounding expression, index or text. A call with missing, superfluous or inconvertible arguments is reported as an error instead of crashing.",
 ["programs", "inputs"], "all signatures, argument kinds and counts, nested and chained calls, value and pointer receivers",
 "Dozens of specialised call paths exist by signature and operand count; tests call a few functions and do not count calls.",
 ["est/op/func.go", "est/op/upstream.go", "planner.go", "parser/select.go", "parser/matcher/argument.go"],
 [("specialised signatures", "est/op/func.go discover"), ("reflective call with argument conversion", "est/op/func.go call"), ("chained receivers", "est/op/upstream.go")],
 observe=["events recorded by the called functions", "output", "error"])

prop("C16", "Only well formed block structure compiles, and compiling never crashes",
 "A template whose #if, #foreach, #for, #elseif, #else and #end do not nest properly is rejected when compiled, a properly nested one of any depth is accepted with each branch and body belonging to the innermost open block. Compiling any text at all ends with a plan or an error, never with a panic or without end.",
 ["inputs", "programs"], "all sequences of block directives, references and text fragments, malformed ones included",
 "Tests hold a few malformed templates.",
 ["parser/parser.go", "parser/builder.go", "ast/stmt", "parser/operand.go"],
 [("stack of open blocks", "parser/builder.go"), ("unterminated check", "parser/parser.go Parse")],
 observe=["error of Compile", "output of compiled template"])

prop("C17", "Built-in function namespaces compute what they document",
 "The functions of the strings, math, strconv, slices, types, maps, errors, json and time namespaces, and HasKey and IndexBy, return for every argument what their name documents (the results of the corresponding Go library function where there is one), report input that cannot be parsed, looked up or asserted as an execution error, and never modify their arguments. As in Go, indexing past the end of a slice panics instead of yielding other memory.",
 ["inputs"], "all arguments of each function",
 "Tests call most functions once or never.",
 ["functions", "keys/normalize.go"],
 [("namespaces", "functions/*.go"), ("key normalisation", "keys/normalize.go")])

prop("C18", "An execution depends only on its own template, state and inputs",
 "Executing a compiled template with a new state gives the same output, error and variable values every time, whatever was executed or compiled before: the same template with other inputs, failed executions, other templates of the same planner or of other planners. Executing again with the same state after Reset continues from the variable values left in the state and an empty output.",
 ["histories"], "all histories of defining, compiling, executing and resetting, over several templates and states",
 "Tests execute each template once or repeat it with the same input.",
 ["compile.go", "planner.go", "est/state.go", "est/utils.go", "const.go"],
 [("state created per execution", "compile.go stateProvider"), ("literals and accumulators separate from results", "literal.go, planner.go accumulator")])

prop("C19", "Values held by pointers compare by value, nil only equals nil",
 "Comparing operands of which one or both are pointers, for every numeric width, string and bool, gives the comparison of the pointed-to values. A nil pointer equals only another nil and orders below every value; no comparison panics or alters its operands.",
 ["inputs", "programs"], "all widths, all six comparison operators, all nil placements, pointer against pointer, value and literal",
 "There is a routine per width and operator; tests cover a fraction, mostly without nil.",
 ["est/expr/ptr.go", "est/expr/binary.go", "binary.go"],
 [("per width comparison routines", "est/expr/ptr.go"), ("operand unification", "binary.go unifyOperands")])

prop("C20", "Index expressions select the addressed element",
 "$m[k] and $s[i], with literal, variable, field or computed index, on variables, fields, nested containers and values held in interfaces, give the element stored under that key or position; a missing key or a nil map gives the zero value. Keys are matched by value across numeric types, an impossible key is an execution error, and an index outside a slice never yields other memory.",
 ["inputs", "programs"], "all maps and slices of all key and element types, all index expressions",
 "Tests index a few maps with literal keys.",
 ["est/op/slice.go", "est/op/map.go", "est/op/iface.go", "keys/normalize.go", "planner.go"],
 [("bounds check", "est/op/slice.go index"), ("key normalisation", "keys/normalize.go"), ("interface holding container", "est/op/iface.go")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
