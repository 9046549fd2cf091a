HELD = "Held on the generated executions counted in the evidence; sampled, not exhaustive. "

prop("C04", "Integer arithmetic is exact or reported as overflow",
 "Checked addition, subtraction, multiplication and absolute value of every integer type give the exact mathematical result, or report an overflow or underflow according to the direction of the exact result; nothing wraps silently. Division gives the quotient rounded half away from zero for integers of any size, the exact quotient for rationals and the nearest one for floats, and reports division by zero. Big number operands other than the one receiving the result are not modified.",
 ["inputs"], "all operand pairs of all signed and unsigned widths and named subtypes, and big number operands",
 "tests use a few pairs of values per type; overflow happens only in thin bands of the operand space, different for every width",
 ["math/math.go"], [("overflow tests per operation","math/math.go AddInt.. Div, DivBigOps, Abs")],
 ["results, errors and panics of the math package functions"],
 "runtime monitor: exact big integer oracle, exhaustive over 8 bit operands, boundary biased sampling above",
 HELD + "All pairs of 8 bit operands are covered completely. Trusts math/big.")

prop("C05", "Comparison, minimum, maximum and range tests follow the order",
 "Comparison of ordered values agrees with the order of the type, complex values are ordered by magnitude, and minimum and maximum return the operand that the comparison says, also for values compared by their own method. A range with open or closed ends can be made exactly when its initial value lies within its ends, then accepts a new value exactly when it lies within them, keeps its current value when it refuses one, and never changes its ends.",
 ["inputs","histories"], "all pairs and triples of values incl. NaN, infinities, signed zeros and ties; all combinations of open and closed ends and sequences of set operations",
 "tests check a handful of ordered pairs and ranges, never transitivity, ties or values next to a bound",
 ["math/math.go","math/range.go"], [("Cmp functions and Min/Max","math/math.go"),("range construction and checks","math/range.go")],
 ["results of comparisons; range values after each operation"],
 "runtime monitor: order axioms and a model of ranges over random histories", HELD)

prop("C06", "Decimals denote exactly the number they were made from",
 "A decimal made from an integer and a scale, or from text, denotes exactly that number or is refused; text is accepted exactly when it is an optional minus and digits with an optional point, with at least one and at most eighteen significant digits, and formatted text reads back as the same decimal. Negation, sign, normalization and comparison agree with the exact number. Aligning scales is exact when both fit in eighteen digits, otherwise one operand is rounded half away from zero; a refused operation leaves its operands unchanged.",
 ["inputs"], "all 64 bit values, all scales, all texts, and all pairs of decimals",
 "tests list dozens of values; the text grammar, eighteen digit limit and scale alignment interact in corners no list covers",
 ["math/decimal.go"], [("construction, parsing, formatting, scale adjustment","math/decimal.go")],
 ["values, errors and texts returned by the decimal type"],
 "runtime monitor: exact rational oracle over generated decimals and texts", HELD + "Trusts math/big.")

prop("C07", "Decimal arithmetic is exact or correctly rounded once",
 "Sums and differences are exact whenever both operands fit a common scale within eighteen digits; products and quotients are the exact result rounded half away from zero once, to the largest scale that fits in eighteen digits. A result that does not fit and a zero divisor are reported as errors, never as wrapped values or panics (the panicking forms panic exactly then). Dividing into integer parts gives parts that differ by at most one unit and sum exactly to the dividend.",
 ["inputs","histories"], "all pairs of decimals and chains of operations on their results",
 "rounding and overflow errors need operands with many digits or chains of operations; tests use short numbers",
 ["math/decimal.go"], [("Add, Sub, Mul, Div and integer division","math/decimal.go")],
 ["result of every step of a chain of operations"],
 "runtime monitor: exact rational oracle at every step of random chains", HELD + "Division may refuse divisors above 10^17, as documented. Trusts math/big.")

prop("C08", "Iterators deliver each element once, in order, then end",
 "Every iterator yields exactly the elements of its source once each in source order, then reports the end, and keeps reporting it however often it is asked again. Elements given back are returned first, last given back first, and mixing that with reading never loses, repeats or reorders an element. A source error is reported after all elements that precede it, and concatenation and other combined iterators preserve all of this.",
 ["inputs","histories","fault_sequences"], "all source contents (also empty and failing), all iterator kinds, and all interleavings of reads and give backs",
 "tests drain each iterator once; state errors appear only in particular sequences of calls around the end, errors and give backs",
 ["iter/iter.go","iter/gen.go"], [("Next, Unread and the element generators","iter/iter.go, iter/gen.go")],
 ["sequence of values and errors returned by each call"],
 "runtime monitor: stack model checked after every call of random histories", HELD)

prop("C09", "Reader iterators decode the same however bytes arrive",
 "The iterators over bytes, UTF-8 characters, lines and CSV rows of a reader yield exactly what the complete byte sequence denotes, independent of how the reader splits it into chunks, stalls with empty reads, or returns data together with its end or an error. Invalid UTF-8 is reported as an error, never delivered as a wrong character. A reader error is reported after everything before it was delivered, and does not become a normal end.",
 ["inputs","fault_sequences"], "all byte sequences, all line endings, all chunkings, and an error at every position",
 "tests read from strings that arrive in one piece; chunk boundaries within characters, line endings or quotes and errors in mid stream are never sampled",
 ["iter/gen.go"], [("reader generators with their own decoding state","iter/gen.go")],
 ["values and errors yielded over scripted readers"],
 "runtime monitor: whole input reference decoders against chunked and failing readers", HELD + "Trusts unicode/utf8 and encoding/csv.")

prop("C10", "Stream transforms compute what their list definitions say",
 "Each transform, reduction, expansion, sort, match, numeric summary and chain of them yields exactly what the corresponding operation on the complete list yields, including for empty sources, and passes a source error on at the right position. Transforms that need not see the whole source read only as much as is asked of them, and source elements are never modified. A transform can be applied to any number of data sets one after the other, with no state carried over.",
 ["inputs","histories","fault_sequences"], "all chains of transforms, sources of every length with an error at any position, and reuse of the same transform",
 "tests apply each transform alone to two or three short lists; composition, reuse, error positions and numeric limits multiply beyond what they list",
 ["stream/stream.go"], [("generators returned by each transform","stream/stream.go")],
 ["elements and errors of the transformed iterator; elements taken from the source so far"],
 "runtime monitor: list model of random pipelines with source access counting", HELD)

prop("C11", "Parallel transformation equals the sequential one",
 "Applying a transform in parallel yields the transform applied to consecutive buckets of the source concatenated in order, in which every source element appears exactly once, with as many buckets and items per bucket as the options ask for, on every schedule. An error of the source or of any element is the outcome. There are no data races, and the source data is left unchanged.",
 ["schedules","inputs","configurations","fault_sequences"], "all schedules of the worker threads, source sizes, thread and bucket options, and error positions",
 "tests run small sources once each; races and ordering faults depend on the schedule and on sizes that do not divide evenly",
 ["stream/stream.go"], [("bucket computation and worker goroutines","stream/stream.go Parallel, generateRanges")],
 ["result elements in order, elements seen by each worker, race detector reports"],
 "Go race detector and runtime monitor: sequential model, bucket accounting, injected delays", HELD + "Schedules are those the Go scheduler produced with injected delays.")

prop("C12", "The JSON parser accepts exactly JSON and decodes it correctly",
 "Exactly the RFC 8259 documents that are objects or arrays, in valid UTF-8 and without duplicate keys, are accepted, and every string, number, structure and order in them is decoded faithfully; anything else, including anything after the document, is refused with an error. No input makes the parser crash or hang, however deeply nested or however it is split by the reader, and a reader error is reported. Elements of a top level array can be consumed before the rest of the input has been read.",
 ["inputs","fault_sequences"], "all byte sequences, all chunkings, and a reader error at any position",
 "tests list some valid and invalid texts; grammars are infinite, and escapes, surrogates, number forms, nesting and truncation combine",
 ["encoding/json/parse/lex.go","encoding/json/parse/parse.go"], [("lexer","encoding/json/parse/lex.go"),("object, array and end parsing","encoding/json/parse/parse.go")],
 ["values and errors returned; how much of the reader was consumed"],
 "runtime monitor: strict reference parser (cross checked with encoding/json) over generated and mutated documents", HELD + "Nesting of thousands of levels must be accepted; deeper may be refused.")

prop("C13", "Written JSON is valid and reads back as the same value",
 "The text written for any JSON value is valid JSON and parses back to an equal value: every string survives including control characters, quotes and characters of all planes, and numbers keep their exact text. The functions restricted to objects or arrays refuse other values and otherwise write the same. An error of the destination is reported, and nothing is written after it.",
 ["inputs","fault_sequences"], "all values that can be constructed and a destination failure at any position",
 "tests write a few small values to a destination that never fails",
 ["encoding/json/write/write.go"], [("string quoting and recursive writing","encoding/json/write/write.go")],
 ["text received by the destination; value parsed from it; error returned"],
 "runtime monitor: round trip through the parser and encoding/json, with failing destinations", HELD)

prop("C14", "Go values survive conversion to and from JSON values",
 "Converting maps, slices, strings, numbers and booleans, nested in any way, to a JSON value and back preserves structure and content, and numbers denote the same number as text. Values that JSON cannot express are refused with an error and not a panic. The result is a copy that later changes to the source do not affect, and asking a value for a type it does not have panics.",
 ["inputs","histories"], "all nested combinations of acceptable and unacceptable values, and later changes of the source",
 "tests convert a few values of each kind and never change the source afterwards",
 ["encoding/json/value.go"], [("toValue and the accessors","encoding/json/value.go")],
 ["values returned by conversions and accessors before and after mutation"],
 "runtime monitor: structural model over generated nested values and mutations", HELD + "Non integer rationals may be approximated to 1e-15.")

prop("C15", "JSON path lookup equals direct navigation",
 "A path is accepted exactly when it is a series of .key and [index] steps, and looking it up gives exactly the element reached by taking those steps in turn, or an error when a step names a missing key, an index out of range, or something that is not an object or array. A parsed path can be used any number of times and concurrently, on different documents, with the same results, and never changes a document.",
 ["inputs","histories","schedules"], "all path texts, documents, repeated and concurrent uses",
 "tests look up a few fixed paths once in one document",
 ["encoding/json/search.go"], [("path parsing and lookup composition","encoding/json/search.go")],
 ["error or function from parsing; value or error from lookup"],
 "runtime monitor: direct navigation model, reuse and concurrent use of the same path", HELD)

prop("C16", "Events reach every receiver once, in order",
 "Sending a value passes it through every registered receiver exactly once, in order of identifier and then of registration, each one receiving what the previous one returned, and the last result is returned. Removal affects exactly the receivers asked for (the first matching one, all matching ones, or all of an identifier), and receivers not affected by changes made while a value is being sent still run exactly once in order. Independent values can be sent concurrently without races.",
 ["histories","schedules"], "all histories of register, remove and send, including changes made by receivers during a send, and concurrent sends",
 "tests register two or three receivers and send once; removal among duplicates and changes during a send need longer histories",
 ["event/event.go"], [("ordered registry and send loop","event/event.go"),("ordered tuple map","funcs/funcs.go")],
 ["sequence of receiver calls with arguments and results"],
 "runtime monitor: sequential registry model over histories, re-entrant scripts, race detector for concurrent sends",
 HELD + "Known finding: removing a receiver that is a function closure cannot tell it from other closures of the same literal.")

prop("C17", "Requests are routed by method and path pattern",
 "A request is served, once, by the first registered route with its method whose pattern (a regular expression) matches its path, and its handler receives the matched text and the captured parts in order. It is answered 405 if only routes of other methods match, and 404 if none does. An invalid method, pattern or handler is refused with an error and changes nothing; the predefined UUID part matches exactly UUIDs.",
 ["inputs","histories"], "all sets of routes and all request methods and paths",
 "tests try a few routes and paths; overlapping patterns, partial matches and optional groups are combinations no test lists",
 ["rest/rest.go"], [("Handle and ServeHTTP","rest/rest.go")],
 ["handler invoked, captured parts, status code"],
 "runtime monitor: reference router over generated routes and requests", HELD)

prop("C18", "Routes can be added while requests are served",
 "Routes may be registered, from any number of threads, while requests are being served. Once a registration has returned, its route serves matching requests and no registration is ever lost; a request concurrent with a registration sees the routes either with or without it. There are no data races.",
 ["schedules","histories"], "all interleavings of registrations and requests",
 "tests register all routes first and then send requests from one thread",
 ["rest/rest.go"], [("lock around the route table","rest/rest.go")],
 ["recorded begin and end of registrations and requests with the handler that served them; race detector reports"],
 "Go race detector and runtime monitor: history checker over recorded registrations and requests", HELD + "Schedules are those observed.")

prop("C19", "Request content is decoded exactly or fails",
 "The body of a request whose encoding header says gzip is delivered decompressed and any other body unchanged, however it arrives; a corrupt, truncated or non gzip body results in a read error, never in a panic or wrong data. An iterator of CSV rows or of JSON values is provided exactly when the content type says so, and yields exactly the rows or values of the body, or an error.",
 ["inputs","fault_sequences"], "all bodies, encodings, corruptions, truncations and deliveries",
 "tests send one small correct body per type",
 ["rest/content.go"], [("content negotiation","rest/content.go")],
 ["bytes, rows or values read, and errors"],
 "runtime monitor: reference decoders over corrupted and chunked bodies", HELD + "Content type parameters are not asserted. Trusts compress/gzip.")

prop("C20", "Writers and fault injectors deliver exactly what was written",
 "Writers into slices, maps and output streams deliver exactly the values written, in order and encoded as specified (bytes, UTF-8 characters and strings, lines, CSV rows), or return an error, including when the destination fails, writes short or writes nothing. What was delivered before a failure is a prefix of what was written. The error injecting readers and writers give exactly the scripted bytes and then the scripted error, with any buffer size.",
 ["inputs","histories","fault_sequences"], "all value sequences, destination faults at every position, and buffer sizes",
 "tests write to destinations that accept everything, or fail at one fixed place",
 ["io/writer/gen.go","io/writer/writer.go","io/io.go"], [("writer generators","io/writer/gen.go"),("error reader and writer","io/io.go")],
 ["bytes and values in the destination; errors"],
 "runtime monitor: expected output model over scripted failing destinations", HELD)

prop("C21", "Slice helpers equal their list definitions without side effects",
 "Every slice helper (adding, removing, indexing, copying, flattening, reversing, sorting, de-duplicating, collecting into maps) returns what its definition as a list operation says, for every element type including uncomparable ones and for nil, empty and out of range arguments. Helpers that are not documented to work in place leave their arguments unchanged, and a copy shares no memory with its source. Sorting yields an ordered permutation, in the same slice.",
 ["inputs"], "all slices (nil, empty, with spare capacity), element types, indexes and options",
 "tests use short slices of a few integers; aliasing, spare capacity and element type corners never occur in them",
 ["funcs/funcs.go"], [("Slice functions","funcs/funcs.go")],
 ["results and arguments before and after each call"],
 "runtime monitor: list models with aliasing and mutation probes", HELD)

prop("C22", "Map helpers and ordered maps agree with a plain map",
 "Setting, reading, testing and removing entries in one and two level maps, and sorting maps into keys, values or pairs, agree with a plain map model after every operation, including for nil and missing maps. The maps ordered by key keep their keys strictly ordered and return exactly the entries put and not removed, in order, whatever the order of operations.",
 ["inputs","histories"], "all histories of operations, key types and nil or missing levels",
 "tests perform two or three operations per function; ordering faults need particular insertion and removal orders",
 ["funcs/funcs.go"], [("Map, Map2 and ordered tuple map functions","funcs/funcs.go")],
 ["results of every operation; full contents after it"],
 "runtime monitor: plain map model after every step of random histories", HELD)

prop("C23", "Functional helpers combine and guard calls as defined",
 "Filter combinations have the truth value of the boolean formula, evaluated left to right without evaluating more than needed; compositions call each function once in order; conditional helpers evaluate only the chosen alternative. A guarded call runs the function, then every cleanup in reverse order even if some panic, and then hands the last panic, if any, to its handler; the panicking forms panic exactly on an error. A cached supplier calls its function once, also when used concurrently, and nil tests and checked conversions of untyped values are right for every type.",
 ["inputs","histories","schedules"], "all combinations of filters and functions, panicking functions, value kinds, and concurrent use of suppliers",
 "tests check single calls with one or two values, never call order, call counts or panics inside the callbacks",
 ["funcs/funcs.go"], [("filters, compose, ternary, try, suppliers, nil tests","funcs/funcs.go")],
 ["results, call logs and panics"],
 "runtime monitor: call log and truth value oracle; race detector for cached suppliers", HELD)

prop("C24", "Name case conversion is exact, reversible and total",
 "Converting a snake case name of words that begin with a letter to camel case capitalises and joins exactly its words, and converting a camel case name to snake case separates them with underscores in lower case, so that converting there and back gives the original name, for letters of all languages. No string makes a conversion panic or lose a letter, digit or symbol other than the word separators.",
 ["inputs"], "all strings, including non ASCII letters, digits, leading, trailing and repeated separators",
 "tests convert a few ordinary names",
 ["funcs/funcs.go"], [("case conversion functions","funcs/funcs.go")],
 ["converted strings"],
 "runtime monitor: independent reference conversion and round trip over generated names", HELD)

prop("C25", "Unions, optionals, results and tuples hold what they were given",
 "A union reports exactly the member last set and returns its value, and asking for any other member panics. An optional is present exactly when it holds a non nil value, every way of reading it agrees on that, and setting it when it must be empty is refused without change. A result holds a value or an error and refuses both; tuples return their parts in order; copies are independent.",
 ["inputs","histories"], "all histories of construction, setting and reading, for value, pointer, interface and nilable types",
 "tests construct each variant once and read it back",
 ["union/union.go","tuple/tuple.go"], [("variant tags and presence","union/union.go")],
 ["every accessor after every operation"],
 "runtime monitor: state model after every step of random histories", HELD)

prop("C26", "Reflection helpers describe and change values correctly",
 "Type and value inspection through any number of pointers (dereferencing, nil tests, base types and conversions to them, numeric and primitive classification, field access) agrees with the language's own definition, and never panics on nil pointers, invalid values or named subtypes. Optional values read and written by reflection behave exactly as through their own methods, and a value of the wrong type or one that cannot be set is refused without change.",
 ["inputs"], "all kinds, named subtypes, pointer depths, nil positions and wrongly typed values",
 "tests inspect a few types at one or two pointer depths",
 ["reflect/reflect.go","union/reflect/reflect.go"], [("type helpers","reflect/reflect.go"),("optional access","union/reflect/reflect.go")],
 ["results of each helper; the value after each change"],
 "runtime monitor: oracle built from the generated value's known type and nil positions", HELD)

prop("C27", "Code definitions are kept faithfully; output stays under its base",
 "Type, value and expression definitions hold exactly what they were constructed from, refuse missing parts, and every operator and type belongs to exactly one class. A generator creates exactly the directories and source files asked for, with exactly the text written, under its base path, which it empties first, and touches nothing else. The base path can be set once, a directory or file can be created once, and a refused call changes nothing on disk.",
 ["inputs","histories","fault_sequences"], "all definitions, all histories of generator calls, and base paths that are new, from a prior run, files, links or not permitted",
 "tests construct one definition of each kind and never run the generator",
 ["code/types.go","code/statements.go","code/api.go"], [("constructors","code/types.go, code/statements.go"),("base generator","code/api.go")],
 ["fields of definitions; complete directory tree after every generator call"],
 "runtime monitor: structural model; file tree model in an unprivileged child process on scratch files", HELD + "The language specific generator is commented out in the repository.")

prop("C28", "Read-only and independent calls can be made concurrently",
 "Calls that share no argument, or only read the arguments they share, can be made from any number of goroutines at once: each gives the result it gives on its own, there is no data race, and an operand is not modified even temporarily. This holds for conversions, arithmetic and decimals, JSON documents, path lookups and compiled paths, slices and maps that are searched or sorted, filters, compositions, suppliers and stream transforms made once and used by all, separate iterators and streams, unions, and reflection helpers.",
 ["schedules","inputs"], "all pairs of calls, values shared between them, and schedules",
 "tests make one call at a time from one goroutine, so shared scratch state, unsynchronised caches and temporary changes of operands cannot show",
 ["conv/conv.go","math/math.go","math/decimal.go","encoding/json/search.go","encoding/json/parse/lex.go","funcs/funcs.go","stream/stream.go","iter/iter.go","reflect/reflect.go"],
 [("conversion tables and lookups","conv/conv.go"),("operations tables","math/math.go"),("compiled paths","encoding/json/search.go"),("transforms and reductions","stream/stream.go"),("filters, compositions, slices and maps","funcs/funcs.go")],
 ["memory accesses (race detector)","results of each call made concurrently and alone"],
 "Go race detector over shared read-only operations and concurrent cases of the other monitors; differential monitor against running alone", HELD)
