#!/usr/bin/env python3
# Source of /verif/properties.jsonl (kept readable here; regenerate with: python3 tools/gen_properties.py)
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

p("C01", "Templates parse to exactly the documented grammar",
  "For every template string, parsing terminates and yields either an error or the sequence of expressions of the template language in source order: plain text, bind variables ($n with the index written, ? numbered by occurrence), calls #nameN / #name(args) with the literal arguments written (number, string with '' for ', true/false, null/nil), and bare function values #name. Malformed input ($ or # followed by nothing valid, ? followed by a non-zero digit, $ and ? mixed in either order, an unterminated or malformed argument list) is always an error and well-formed input never is. What follows a bare function name (text, another #function, a bind variable) keeps its own meaning.",
  ["inputs"], "every string over the symbol classes of the lexer up to a length bound, every sequence of tokens up to a bound, every Unicode code point and every byte in every lexical context",
  "TestParser has 7 inputs and TestScanner 7; the space of token adjacencies (what follows a name, a doubled $$, a quote in an argument, ...) is combinatorial. Both '$1,?' (accepted, although listed as wantErr) and '#f#arg' (rejected) were wrong under a green suite.",
  ["syntax/scanner.go", "syntax/parser.go", "syntax/lexer.go", "syntax/nodes.go"],
  [("state-function scanner", "syntax/scanner.go"), ("recursive-descent parser with one token of push back", "syntax/parser.go")],
  [("token queue", "tokens scanned and not yet parsed", "syntax/scanner.go"), ("bind variable index/style", "numbering of ?, and the style all must share", "syntax/parser.go")],
  ["syntax.Parse", "Fragment.BuildQuery"])

p("C02", "Text outside references is reproduced byte for byte",
  "Building a fragment reproduces every byte of its template that is not part of a bind variable or function reference, in order, without loss, duplication or change, whatever the bytes are (NUL, control characters, invalid UTF-8, any Unicode); only leading and trailing white space of the whole fragment is trimmed. Inside '...', \"...\" and `...` (and after the doubled forms $$ and ??) nothing is interpreted, so no $, ? or # there is ever replaced or counted.",
  ["inputs"], "every byte value and every Unicode code point in every position class (start, middle, end, inside each quote kind, next to each kind of reference), all strings of the quoting alphabet up to a length bound",
  "Tests use ASCII SQL only. A NUL used to cut the query silently (dropping the rest of a WHERE clause) and no test noticed; only enumeration over all bytes and contexts settles it.",
  ["syntax/scanner.go", "syntax/lexer.go", "build.go"],
  [("plain and quoted scanning", "syntax/scanner.go"), ("rune decoding and the end-of-input marker", "syntax/lexer.go"), ("trim and prefix/suffix", "build.go")],
  [], ["Fragment.BuildQuery", "syntax.Parse"])

p("C03", "Placeholders and args stay aligned in every composition",
  "For every tree of fragments and both bind variable styles, a successful build returns a query and an arg list that fit each other: in the Question style there are exactly as many ? placeholders as args and the k-th placeholder stands for the k-th arg; in the Dollar style every $n satisfies 1<=n<=len(args) and stands for args[n-1]. Every arg in the list is referenced by some placeholder, and each placeholder stands for the very value the fragment containing it referenced at that position.",
  ["programs", "configurations"], "all fragment trees up to a size/depth bound built from bind variables, #arg, #f, #join (ranges, zipped lists, mixed references, empty items), with repeated references and both styles",
  "TestBuildFragment has 16 hand-written trees; alignment depends on the interaction of repetition, order of evaluation, skipped items and lists of different lengths. #join left orphan args behind at the end of a list, which no test triggers.",
  ["build.go", "context_args.go", "func_builtin.go", "properties.go"],
  [("args committed while text is emitted", "context_args.go"), ("side effects of the dropped #join item rolled back", "func_builtin.go")],
  [("arg store", "args committed so far in the root context", "context_args.go")],
  ["Fragment.BuildQuery", "Context.Args"])

p("C04", "Dollar style merges equal args and only equal args",
  "With the Dollar style two references share a number exactly if their values are equal as Go values of the same dynamic type; values that merely look alike (1, int64(1), \"1\", true, 1.0, distinct pointers, named types) never share one. New numbers are assigned 1, 2, 3, ... in order of first reference, and the arg list is the sequence of first-referenced values, unchanged. Values that cannot be compared ([]byte, maps, structs holding them) are accepted and each reference gets its own number; the Question style never merges.",
  ["inputs", "programs"], "all sequences up to a bound over an alphabet of look-alike values of many dynamic types, all equality patterns over longer lists, list lengths through one, two and three digit placeholder numbers",
  "Tests merge small ints only; the property quantifies over all dynamic types and reference orders. A []byte argument panicked.",
  ["context_args.go"], [("dictionary from value to number", "context_args.go")],
  [("dict/args", "numbers given to values", "context_args.go")], ["Fragment.BuildQuery", "Context.CommitArg"])

p("C05", "A build is the composition of its parts, scoped per fragment",
  "Building a fragment yields its template with each #f / #fragment reference replaced by the build of the fragment at that index and each bind variable or #arg by a placeholder for the arg at that index, where indexes always refer to the fragment containing the template, never to an enclosing or sibling one. The result is trimmed, and prefix and suffix are added with one space exactly if the result is not empty; a nil fragment builds to the empty string. A fragment referenced several times is built each time in full.",
  ["programs"], "all fragment trees up to a size/depth bound, against a reference evaluator; nesting depth and item counts swept far beyond the bound of the trees",
  "The combinatorics of nesting, repeated references, prefixes and empty items is unbounded; the tests have one or two levels in a dozen fixed shapes.",
  ["build.go", "fragment.go", "properties.go", "property.go", "context_fragment.go", "func_builtin.go"],
  [("per-fragment context with fresh properties", "context_fragment.go"), ("clause evaluation", "build.go")],
  [("fragment context", "args and fragments of the fragment being built", "context_fragment.go")],
  ["Fragment.BuildQuery", "Fragment.BuildFragment"])

p("C06", "#join covers exactly the requested range and nothing silently",
  "#join renders its template once per index from the start of the range to its end (to the end of the list if no end is given), in order, and joins the non-empty results with the separator, without leading, trailing or doubled separators. An index that was asked for explicitly but does not exist, a reversed range, too many arguments, a template without function or with an unknown or incompatible function is an error. The list ends only where a function of the template itself has no item at that index: an error inside an existing item, or of any other reference in the template, is reported and never taken as the end of the list.",
  ["inputs", "programs"], "all templates from an alphabet of references, list lengths, from/to values including zero, negative and beyond the end, separators, positions of empty items and positions of failing items, up to bounds",
  "The tests cover three ranges and no failing item. An item with an invalid reference of its own silently ended the list (e.g. dropped the last WHERE condition).",
  ["func_builtin.go", "properties.go", "errors.go", "func.go"],
  [("#join loop and end detection", "func_builtin.go"), ("errors from inside an item are marked", "errors.go"), ("compatibility probe with index 0", "func.go")],
  [], ["Fragment.BuildQuery"])

p("C07", "Nothing supplied is silently ignored, nothing missing is invented",
  "A build succeeds only if every arg and every fragment supplied to each fragment that was built is referenced by it; otherwise it fails, at whatever depth the unused item is. A reference to an index that the fragment does not have ($n, ?, #argN, #fN, including 0 and huge numbers) always fails the build. Lists of different lengths zipped in one #join template never lose the surplus items silently.",
  ["programs", "inputs"], "all subsets of referenced items for all small numbers of args and fragments, all ways to reference (bind variables of either style, #arg, #f, #join ranges, zips), at every depth up to a bound; all out-of-range indexes around the boundaries",
  "No test checks an unused or out-of-range item; the property is a negative one over all trees.",
  ["context_fragment.go", "properties.go", "property.go", "build.go", "func_builtin.go"],
  [("usage flags and check after build", "context_fragment.go"), ("range checks", "properties.go")],
  [("used flags", "whether an item was referenced in this build", "property.go")],
  ["Fragment.BuildQuery"])

p("C08", "Bad input is an error, never a panic or a hang",
  "For every template string, arg value, fragment list (including nil fragments) and builder call sequence through the public API, building terminates and returns either a result or an error, and never panics; on error the query is empty and the args are nil. This includes calls with any number and kind of literal arguments to any built-in or registered function, and registered functions that panic.",
  ["inputs", "programs"], "all strings over a template alphabet up to a length bound built with several argument/fragment supplies in both styles; all literal argument lists up to a bound to every function; panicking functions and items at every position",
  "Panics hide in rarely combined inputs: #join(1,2), a []byte arg, CrossJoin, a builder without From all panicked under a green suite.",
  ["build.go", "func_exec.go", "func_builtin.go", "syntax/parser.go", "syntax/scanner.go", "context_args.go", "sqlb/query_builder_build.go", "sqlb/query_builder_dependecy.go", "sqlb/query_builder_join.go"],
  [("argument conversion and safe call", "func_exec.go"), ("range checks", "build.go")],
  [], ["Fragment.BuildQuery", "QueryBuilder.BuildQuery", "syntax.Parse"])

p("C09", "Custom functions: exactly the documented signatures and conversions",
  "Registering functions succeeds exactly if every name consists of letters and underscores and every signature takes only numbers, strings, bools (optionally variadic, optionally a context first) and returns nothing, a string, or a string and an error. A call passes exactly the literal arguments written, converted to the parameter types, with the current context first if asked for; a wrong number of arguments or a literal of the wrong kind is an error and the function is not called. The string returned becomes the text, a returned error or a panic fails the build.",
  ["inputs", "configurations"], "all signatures up to a number of parameters and results over an alphabet of types, variadic or not; all short names over a symbol alphabet and every Unicode code point; all literal argument lists up to a length against each signature",
  "Tests register three signatures. The predicate and the conversions quantify over all Go function types and argument lists.",
  ["func.go", "func_exec.go", "context_func.go"],
  [("signature check", "func.go"), ("argument evaluation and call by reflection", "func_exec.go")],
  [("function info", "cached description of a registered function", "func.go")],
  ["ContextWithFuncs", "Fragment.BuildFragment"])

p("C10", "Contexts: innermost function wins, one arg list per root",
  "A function name resolves to the innermost context, from the one used to build up to its root, which registers it; registering never affects the parent or sibling contexts or the built-in functions of other roots. All contexts derived from one root share one arg list: args committed through any of them appear in it once per commit (merged in the Dollar style) in commit order, numbering continues across consecutive builds, and contexts of different roots share nothing.",
  ["histories", "configurations"], "all sequences up to a bound of deriving contexts (with overlapping function sets, overriding built-ins), committing args and building fragments through any live context, over one or two roots",
  "One example derives a single context. The property is over trees of contexts and histories of operations.",
  ["context.go", "contex_with.go", "context_func.go", "context_args.go"],
  [("parent chain lookup", "contex_with.go"), ("root arg store", "context_args.go")],
  [("context chain", "functions and fragment by level", "context.go")],
  ["ContextWithFuncs", "Context.CommitArg", "Context.Args", "Fragment.BuildFragment"])

p("C11", "Concurrent and nested builds do not influence each other",
  "Builds which use different contexts are independent: any number of goroutines may build the same or different fragments and query builders at the same time, and a build may be started from inside a callback of another, under every interleaving each returns exactly what it returns when run alone. The same holds for concurrent parsing, interpolation, flattening, scanning and registering of functions, and for making and editing separate fragments and builders from shared parts. Using a package concurrently is free of data races, since none of its state is shared without synchronization.",
  ["schedules"], "every interleaving of two builds (and of three in the thorough tier) at statement granularity up to a preemption bound, every pair from a set of scenarios covering each code path; nested builds at every callback",
  "The test suite runs sequentially apart from t.Parallel on two tests; no schedule is controlled, and the failing ones would be rare. Building a query builder wrote to it (selection prefix, ordering columns to select), so that two builds of one, even as part of a shared fragment, could lose columns.",
  ["build.go", "context.go", "func_builtin.go", "func.go", "syntax/parser.go", "syntax/scanner.go", "sqlb/query_builder_build.go", "util/interpolate.go"],
  [("all build state lives in the context, scanner and parser objects of the build", "context.go"), ("built-in function table is read only", "func_builtin.go")],
  [("package-level variables", "shared by all builds; must be read only", "func_builtin.go")],
  ["Fragment.BuildQuery", "QueryBuilder.BuildQuery", "syntax.Parse", "util.Interpolate"],
  "none in the tree: scheduling points are inserted into a build-time copy of the sources (go build -overlay)")

p("C12", "Building is repeatable and leaves its inputs alone",
  "Building a fragment or a query builder any number of times, in any order and with any mix of styles, interleaved with builds of others and with failing builds, gives each time the result that a freshly constructed equal object gives. Building does not change what is observable of the objects it uses: fragments passed in (also those passed as ON conditions, sub-queries or shared between several parents), their args, and earlier returned results.",
  ["histories"], "all sequences of build operations (style, object) up to a bound over sets of objects that share sub-fragments, each compared with a fresh object and with the reference model; deep snapshots of inputs before and after",
  "Tests build each object once, with one exception in an example (twice, no ORDER BY). Building a DISTINCT query with ORDER BY twice selected the extra columns twice; an invalid order was reported only by the second build.",
  ["build.go", "sqlb/query_builder_build.go", "sqlb/query_builder_order.go", "sqlb/query_builder_join.go", "func_builtin.go", "context_fragment.go"],
  [("properties are created per build", "context_fragment.go"), ("touches recomputed per build", "sqlb/query_builder_order.go")],
  [("touches/selects", "fragments owned and updated by the query builder", "sqlb/query_builder.go")],
  ["Fragment.BuildQuery", "QueryBuilder.BuildQuery"])

p("C13", "Fragment editing affects that fragment only",
  "After any sequence of the constructors and With/Append methods, a fragment holds exactly the template, args, fragments, prefix and suffix last set, plus those appended since, and builds accordingly. Appending to one fragment never changes another fragment, the caller's slices, or the args returned by an earlier build, even if they were created from the same slice; args returned by a context can be appended to without affecting it.",
  ["histories"], "all sequences up to a bound of constructors and editing methods on two or three fragments created from shared slices with and without spare capacity, against a value model",
  "Aliasing shows only for particular histories over slices with spare capacity; tests edit one fragment once.",
  ["fragment.go", "shortcut.go", "context_args.go"],
  [("slices taken over with clipped capacity", "shortcut.go"), ("append methods", "fragment.go")],
  [("Args/Fragments", "exported slices of a fragment", "fragment.go")],
  ["Fragment.WithArgs", "Fragment.AppendArgs", "Context.Args"])

p("C14", "A query builder renders the query its call history describes",
  "For every history of builder calls, a successful build renders WITH, SELECT [DISTINCT], FROM with joins, WHERE, GROUP BY, ORDER BY, LIMIT, OFFSET and UNIONs, in that order, each exactly if it has content: the last Select wins, conditions are joined with AND and grouping and ordering columns with commas in call order, unions are parenthesized, non-positive limits and offsets and nil conditions are ignored. The FROM clause is the last From table followed by the joins in the order first declared, where joining an alias again replaces the earlier join in place, each with its ON condition if any. The result does not depend on the order of calls to different kinds of clauses.",
  ["histories"], "all histories of builder calls over an alphabet of about 40 calls up to a depth, breadth-first over the states of a reference builder, and all pairs of further calls from richer start states",
  "The tests have five fixed call chains; every other order, repetition and omission of calls is unchecked. CrossJoin panicked, UNION () and FROM without table were emitted.",
  ["sqlb/query_builder.go", "sqlb/query_builder_build.go", "sqlb/query_builder_join.go", "sqlb/query_builder_where.go", "sqlb/query_builder_order.go", "sqlb/query_builder_with.go"],
  [("clause assembly", "sqlb/query_builder_build.go"), ("join append/replace", "sqlb/query_builder_join.go")],
  [("builder fields", "clauses collected so far", "sqlb/query_builder.go")],
  ["QueryBuilder.BuildQuery"])

p("C15", "Query builder args stay aligned, wherever in the query they are",
  "For every placement of args over the clauses of a query (CTEs, selected expressions, ON conditions, WHERE, GROUP BY, ORDER BY, unions, nested query builders), with or without DISTINCT and ORDER BY, each placeholder of the built query stands for the value referenced there: by position in the Question style, by number in the Dollar style. Args of trimmed joins and omitted CTEs do not appear in the arg list.",
  ["configurations", "programs"], "all assignments of zero, one or two args to each of the clause positions, shared and distinct values, distinct on or off, optional joins kept or trimmed, both styles, one level of nesting",
  "Tests put args into WHERE and CTEs only, and mostly with the Dollar style, where the text order does not matter. With the Question style args in SELECT were bound to the wrong placeholders.",
  ["sqlb/query_builder_build.go", "sqlb/query_builder_order.go"],
  [("clauses are built in the order of the text", "sqlb/query_builder_build.go")],
  [], ["QueryBuilder.BuildQuery"])

p("C16", "Join elimination trims exactly the unreferenced optional joins",
  "A join is omitted from the built query exactly if the query is DISTINCT, the join was declared optional, and its table is needed by no rendered part: not by selected, grouping, ordering columns or conditions, at any nesting depth of fragments, nor by the ON condition of a table that is itself kept. In particular every table referenced anywhere in the rendered query is present in its FROM clause.",
  ["configurations", "programs"], "all graphs of up to three (thorough: four) joins with every combination of optional flags and ON references among them, every set of directly referenced tables, every kind and depth of place a reference can be in, DISTINCT on or off",
  "One example and one test trim a single unreferenced join; correctness is a reachability property over all reference graphs. An optional join needed only by a mandatory join was trimmed, leaving an invalid query.",
  ["sqlb/query_builder_dependecy.go", "sqlb/query_builder_build.go", "sqlb/table_column.go"],
  [("dependency collection", "sqlb/query_builder_dependecy.go"), ("FROM assembly", "sqlb/query_builder_build.go")],
  [("dependency set", "tables needed by the query", "sqlb/query_builder_dependecy.go")],
  ["QueryBuilder.BuildQuery"])

p("C17", "WITH contains exactly the CTEs the query needs, in order",
  "A CTE is rendered exactly if it is used as a kept table of the FROM clause or is a declared dependency, directly or transitively, of such a CTE, whatever aliases the tables have and even if dependencies are cyclic. Rendered CTEs appear once each, in the order they were declared, with their name and body; if none is needed there is no WITH clause.",
  ["configurations"], "all dependency graphs over three (thorough: four) CTEs including cycles and undeclared names, all choices of aliased or unaliased use as main table and mandatory, optional-kept or trimmed joins",
  "One test omits one CTE. A CTE used without alias lost its dependencies.",
  ["sqlb/query_builder_dependecy.go", "sqlb/query_builder_with.go", "sqlb/query_builder_build.go"],
  [("transitive marking", "sqlb/query_builder_dependecy.go"), ("WITH assembly", "sqlb/query_builder_build.go")],
  [("ctes", "CTEs in order and by name", "sqlb/query_builder.go")],
  ["QueryBuilder.BuildQuery"])

p("C18", "A query builder never emits a query from invalid input",
  "Every build of a query builder fails if the query has no from table or no selected column, if a rendered part refers through a column or table value to an alias that the current FROM clause does not declare, if a table name was empty, an order is not one of the six defined, or a join and the from table claim the same alias. It fails on the first build and on every later one, and also when the builder is used as a sub-query, CTE or union of another; valid histories never fail.",
  ["histories", "inputs"], "all histories over an alphabet of valid and invalid calls up to a depth; every place and depth a reference to an undeclared or replaced table can be in; all order values around the boundary",
  "No test builds an invalid query. The missing from table panicked, a replaced from table could still be referenced, an invalid order was dropped from the first build.",
  ["sqlb/query_builder_errors.go", "sqlb/query_builder_dependecy.go", "sqlb/query_builder_join.go", "sqlb/query_builder_order.go", "sqlb/query_builder_build.go"],
  [("collected errors", "sqlb/query_builder_errors.go"), ("undefined table check", "sqlb/query_builder_dependecy.go")],
  [("errors", "errors collected from calls", "sqlb/query_builder.go")],
  ["QueryBuilder.BuildQuery", "QueryBuilder.BuildFragment"])

p("C19", "ORDER BY is rendered fully, also under DISTINCT",
  "Every ordering column appears in ORDER BY in call order with its direction (ASC or DESC, optionally NULLS FIRST or NULLS LAST) exactly as requested. For SELECT DISTINCT, each ordering expression is additionally selected after the requested columns under its own generated alias and ORDER BY refers to that alias, the k-th alias to the k-th expression; without DISTINCT nothing is added to the selection.",
  ["inputs", "configurations"], "all sequences of up to three (thorough: four) orderings over columns (plain, duplicated, with args) and all six directions, with DISTINCT set before, after or not at all, one to twelve orderings swept",
  "No test has an ORDER BY.",
  ["sqlb/query_builder_order.go", "sqlb/query_builder_build.go"],
  [("touched columns and aliases", "sqlb/query_builder_order.go")],
  [("touches", "extra selected columns", "sqlb/query_builder.go")],
  ["QueryBuilder.BuildQuery"])

p("C20", "Tables, aliases and columns render as the identifiers they name",
  "A table renders as its name or alias as given, an aliased table as its alias if it has one and its name otherwise, and in FROM as 'name AS alias' or just 'name'. A column renders as 'table.name' with the applied name of its table, an anonymous column as just its name; the plural forms give one column per name in the same order. All of them count as references to that applied name for join elimination and undefined-table checks.",
  ["inputs"], "all combinations of empty and non-empty names and aliases and column names from an identifier alphabet (including quoted identifiers with special characters), every constructor and method, in every place of a query",
  "Tests use a handful of aliased tables with simple names.",
  ["sqlb/table.go", "sqlb/table_aliased.go", "sqlb/table_column.go", "sqlb/query_builder_join.go"],
  [("applied name", "sqlb/table_aliased.go"), ("column construction", "sqlb/table.go")],
  [], ["Table.Column", "TableAliased.Column", "QueryBuilder.BuildQuery"])

p("C21", "Interpolation substitutes each value as one faithful literal",
  "Interpolating args into a query replaces each bind variable by the literal of the arg it stands for and leaves all other text as it is: strings (and values rendered as strings) quoted with every ' doubled so that re-reading the literal gives the value back, integers in decimal, floats in fixed notation, bools as TRUE/FALSE, nil and nil pointers as NULL, times in the requested format, driver values by their value. No content of a value can end its literal, start a comment or be taken for a bind variable. A missing arg or an unsupported type is an error.",
  ["inputs"], "all strings over an alphabet of SQL-significant characters up to a length bound as values and named/Valuer/Stringer variants of them, boundary values of every numeric kind, all template shapes up to a bound with every assignment of values, wrong numbers of args",
  "ExampleInterpolate has one string and one time. Escaping must hold for every string; a missing arg panicked and '5-?' with -1 started a comment.",
  ["util/interpolate.go"], [("literal encoding", "util/interpolate.go"), ("template parsing shared with fragments", "syntax/parser.go")],
  [], ["util.Interpolate"])

p("C22", "ArgsFlatted flattens exactly one level, in order",
  "Flattening a list of values returns, in order, each value that is not a slice or array, and the elements of each value that is a slice, array or pointer to one, exactly one level deep, keeping every element with its dynamic type and value. Empty and nil slices contribute nothing, nil and nil pointers are kept as values; the inputs are not modified and the result does not alias them. WhereIn and WhereNotIn accept lists by the same rule.",
  ["inputs"], "all element kinds of Go (every fast path and the reflective path) in slice, array, pointer-to and named form, lengths 0 to 3, nested one level, all sequences of up to three such values",
  "TestArgsFlatted covers int, string, any and a named string; each of the 20 typed fast paths can be wrong on its own.",
  ["util/args.go", "sqlb/query_builder_where.go"], [("typed fast paths and reflective fallback", "util/args.go")],
  [], ["util.ArgsFlatted", "QueryBuilder.WhereIn"])

p("C23", "Scan returns all rows or an error, whatever the driver does",
  "Scanning a query returns one destination per row in row order with every requested field set from its column, dropping surplus columns wherever rows are wider than the destination; it returns an error and no rows if running the query, fetching any row, converting any value or the column count fails, at whichever row this happens. The result set is always closed exactly once, also on errors, and the caller's slices are not written to.",
  ["fault_sequences", "inputs"], "all result shapes up to 4 rows by 4 columns and 0 to 4 fields, with a fault of each kind injected at every driver call of the run, and every NULL pattern of surplus columns",
  "The tests need a database and are skipped; no driver fault is ever exercised. An error in the middle of the iteration returned the rows so far without error.",
  ["util/scan.go"], [("row loop and error checks", "util/scan.go"), ("surplus columns into a discarding scanner", "util/scan.go")],
  [("rows", "open result set", "util/scan.go")], ["util.Scan", "util.ScanRow"])

p("C24", "Query helpers pass query, args and errors through unchanged",
  "The builder variants of the scan and count helpers run exactly the query and args that building with the given style returns, run nothing if building fails, and return that error. Counting runs the query wrapped in one SELECT COUNT, with the same args, returns the number the database returns and 0 if it returns no row; any database error is returned wrapped so that it can still be matched, even if the args do not fit the query.",
  ["fault_sequences", "inputs"], "all combinations of builders (fragments and query builders, valid and failing), styles, arg numbers, driver results and driver faults at each driver call",
  "The examples have no database and check nothing.",
  ["util/scan.go"], [("builder wrappers", "util/scan.go"), ("error wrapping with the interpolated query", "util/scan.go")],
  [], ["util.ScanBuilder", "util.CountBuilder", "util.Count"])

p("C25", "Expressions carry the source position where they start",
  "Every bind variable, function call and function value parsed from a template carries the line and column at which it starts, counted in lines from 1 and in characters (not bytes) from 1 within the line, for templates with any number of lines and any mix of multi-byte, invalid and control characters. The text form of a position is line:column.",
  ["inputs"], "all strings up to a length bound over an alphabet of line breaks, multi-byte and invalid characters, quotes and references; long lines and many lines swept",
  "The scanner tests discard positions and the parser tests have one-line ASCII inputs.",
  ["syntax/lexer.go", "syntax/pos.go", "syntax/parser.go", "syntax/scanner.go"],
  [("line/column counting per rune", "syntax/lexer.go")], [], ["syntax.Parse", "Node.Pos"])

p("C26", "An error anywhere in a build fails the build and stays matchable",
  "If any function, fragment, sub-query or custom builder involved in a build returns an error, the whole build returns an error and no query or args, wherever it is: directly referenced, inside #join at any index, nested at any depth, in any clause of a query builder, in CTEs, ON conditions or unions, in the first or a later reference. The original error can be matched with errors.Is in the error returned, and it is never lost, replaced by another outcome or turned into an omitted part.",
  ["fault_sequences", "programs"], "a fault injected at every position of every small tree and of every clause of a query builder, as a returned error, as the invalid-index error, and as a panic, for every reference kind and the first or the n-th evaluation",
  "No test has a failing item; each place that evaluates an item can drop or hide the error on its own.",
  ["build.go", "func_builtin.go", "func_exec.go", "errors.go", "sqlb/query_builder_build.go"],
  [("error returns with %w", "build.go"), ("end-of-list detection", "func_builtin.go")],
  [], ["Fragment.BuildQuery", "QueryBuilder.BuildQuery"])

p("C27", "Debug mode changes nothing and logs the query that is built",
  "Turning on debug mode of a query builder, at any point of its history and at any level of nesting, never changes the query, the args or the error of any build, also not if an arg has a value that cannot be interpolated or whose conversion fails. Each successful build of a builder in debug mode writes its own query to the standard logger with every placeholder replaced by the literal of the arg it stands for, in both styles, also if the builder is a sub-query of a larger one or shares its context with other builds. Builders not in debug mode log nothing.",
  ["inputs", "programs", "histories"], "all bounded histories with Debug at any position, all placements of one or two builders in the parts of another one, each in debug mode or not, sequences of builds in one context, and all kinds of values, both styles",
  "No test turns on debug mode, and what is logged is not part of any result.",
  ["sqlb/query_builder_build.go", "util/interpolate.go"], [("debug branch at the end of a build", "sqlb/query_builder_build.go")],
  [("debug", "flag of the builder", "sqlb/query_builder.go")], ["QueryBuilder.Debug"])

p("C28", "Property lists resolve indexes exactly and track what is used",
  "For every list of args or fragments made by NewArgsProperties or NewFragmentProperties and every history of operations on it, Build(ctx, i) with 1<=i<=n gives exactly what item i builds to in that context (an arg is committed to it and gives its placeholder) and its error if it fails, still matchable; every other index, however far off, gives an error matching ErrInvalidIndex, builds nothing and commits nothing. An item is reported as used exactly if that item was built, also if it failed, or was reported as used, equal items are tracked separately, and later writes to the slice the list was made of do not change it. A custom function that resolves its index with Build works alone and in #join like #arg and #fragment do: the list ends at its end, an item failing with an invalid index of its own is an error.",
  ["inputs", "histories"], "all lists of up to 2 (3 in functions) args and fragments of 10 kinds including nil, failing and user-defined ones, all histories of up to 3 operations with all indexes around the ends and the extreme ones, two contexts, both styles; lists of sizes around all powers of two and ten up to 4098",
  "Properties are public and no test uses them; whether an item counts as used depends on the history, and which error ends a #join on where in the item it came from.",
  ["properties.go", "property.go", "errors.go", "func_builtin.go"], [("index check and nested errors", "properties.go"), ("usage flag", "property.go")],
  [("used", "flag per item", "property.go")], ["Properties.Build", "Property.Used"])

p("C29", "Both styles describe one query, and a built query is its own template",
  "For every fragment and query builder, building in the Question and in the Dollar style either fails in both or succeeds in both, then with the same text around the placeholders, as many placeholders, and the k-th placeholder standing for the same value in both. A built query which reads as a template of its placeholders is one: Fa(query, args...) builds in either style to what the original builds to in that style, and as a part of one larger query together with the original it gives the same text twice, with the same numbers in the Dollar style and the args twice in the Question style. Interpolating the builds of both styles gives the same text, and interpolating that again changes nothing.",
  ["inputs", "programs", "histories"], "the cases of the bounded families of trees, joins, values and histories of C03 to C06 and C14 to C20, each built in both styles, rebuilt, combined and interpolated",
  "Tests compare single builds with expected texts; relations between builds need no expected text, so they hold the code to account where the model of the other checks might share its mistake.",
  ["context_args.go", "build.go", "fragment.go", "sqlb/query_builder_build.go", "util/interpolate.go", "syntax/parser.go"],
  [("numbering and merging of args", "context_args.go"), ("order of the clauses", "sqlb/query_builder_build.go")],
  [("argStore", "args committed to a context", "context_args.go")], ["Fragment.BuildQuery", "QueryBuilder.BuildQuery", "util.Interpolate"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
