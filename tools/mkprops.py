"""Source of properties.jsonl (python3 tools/mkprops.py rewrites it)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, **kw):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    a.update(kw)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

C, V = "src/vm/compiler.c", "src/vm/vm.c"

p("L01", "Expressions evaluate to the documented value, however the operands are held",
  "Every expression over numbers, booleans, nil and strings built from the arithmetic, comparison, equality, bitwise, logical, ternary and grouping operators has the value the documented precedence, left associativity, short-circuiting and IEEE double arithmetic give it, and prints that value. The value is the same whether each operand is written as a constant, held in a global, local or captured variable, an attribute or a collection element, or returned from a call. Operands are evaluated left to right, each exactly once, and a short-circuited one not at all.",
  ["programs", "inputs"], "all expression trees over the operators, all operand values in range, all ways of holding each operand",
  "The operator tests are a fixed list of small expressions; precedence interactions, folded constants next to non-constants and operand storage classes multiply beyond any list.",
  [C, V, "src/vm/value.c"], [("constant folding and precedence climbing", C + " foldBinary/foldUnary/parsePrecedence"), ("binary operator bytecodes", V + " run")])

p("L02", "Control flow runs exactly the documented statements in the documented order",
  "For any nesting of if/else, while, for, switch (several values per case, default), break, continue and return, a program performs exactly the sequence of effects the documentation prescribes: each branch condition is tested when it should be, loops run the right number of times, break and continue affect the innermost loop, and a switch runs exactly the first matching case or the default. Leaving a block, loop or function early never disturbs variables that are still in scope.",
  ["programs"], "all nestings of control statements with locals declared at every level, and all branch outcomes",
  "Tests exercise each statement alone or one level deep; jump patching and local clean-up depend on the combination of nesting, early exits and declared locals.",
  [C, V], [("jump emission and patching", C + " loops, switch, break, continue"), ("scope exit pops", C + " endScope")])

p("L03", "Variables are lexically scoped and closures share what they capture",
  "Every name refers to the innermost enclosing declaration visible at that point; inner declarations shadow without changing outer ones. A function that uses an enclosing function's or block's variable shares that one variable with every other function capturing it, sees later assignments, and keeps it alive after the scope ended; each execution of a declaration makes a new variable. Compound assignment forms update exactly the named variable.",
  ["programs"], "all nestings of blocks, functions and loops that declare, capture, shadow and assign variables",
  "Closure tests cover a few hand-picked captures; open and closed captures, several closures sharing one variable and captures from loop bodies are program-shaped inputs.",
  [C, V, "src/vm/object.c"], [("upvalue capture and closing", V + " captureUpvalue/closeUpvalues"), ("local and upvalue resolution", C + " resolveLocal/resolveUpvalue")])

p("L04", "Calls bind every argument to the declared parameter or are refused",
  "A call to a function, method, constructor or arrow function binds positional arguments in order, gives omitted optional parameters their default expressions (evaluated at the call, left to right, able to use earlier parameters), collects the surplus of a variadic parameter in a list in order, and spreads an unpacked list as if its elements had been written out. A call with too few or too many arguments, or of a value that is not callable, is refused with a runtime error before any of the body runs. The call's value is what the body returns, or nil.",
  ["programs", "inputs"], "all parameter list shapes and all argument lists, including unpacked lists of any length and nested and recursive calls",
  "Tests try a few signatures; the combinations of required, optional, variadic and unpacked arguments and of the callee kinds are combinatorial.",
  [V, C], [("argument adjustment", V + " call/callValue"), ("parameter and default compilation", C + " functions and argument lists")])

p("L05", "Objects follow the declared class: fields, inheritance, super, traits, statics",
  "For any class hierarchy, calling a method on an instance runs the definition of the nearest class in the chain, where among a class's own methods and its used traits the one that comes later in the class body wins; an attribute of that name holding a function is called only if there is no such method. Reading an attribute yields the instance's own attribute if it has one, else the method bound to the instance, else the constant or variable of the nearest class that declares it. super reaches the parent's version and this is always the receiver. Class variables belong to the class and are shared with its subclasses until these assign their own, instance attributes belong to the instance, static methods need no instance, and constructor parameters marked var set attributes. A class that leaves an inherited abstract method unimplemented, calling an abstract class or a trait, inheriting from something that is no class, calling a non-static method on a class, and using a missing member are runtime errors.",
  ["programs"], "all class hierarchies (depth, overriding, traits, statics, class variables, constructors, bound methods) and all sequences of attribute and method uses",
  "Class tests check one feature at a time on a two-level hierarchy; lookup order only shows in combinations of overriding, traits, class variables and instance attributes.",
  [V, C, "src/vm/datatypes/instance.c", "src/vm/datatypes/class.c"], [("method lookup and inheritance", V + " invoke/getProperty/OP_SUBCLASS"), ("class bodies", C + " classes, traits, methods")])

p("L06", "Private members, constants and enums cannot be reached or changed from outside",
  "A private attribute or private method can be used through this inside the methods of the class that declares it and by nobody else: reading, calling or updating it from outside, from another class or through another object is a runtime error, and nothing done from outside changes its value (a plain assignment from outside makes a separate public attribute). A name declared const in any scope, a class constant and an enum member can never be assigned after their declaration, whichever scope, closure, subclass or compound or unpacking form tries: the attempt is an error with no effect, and the value stays. Inner declarations may shadow a constant without affecting it. Enum members have the value given or else their position.",
  ["programs"], "all placements of private members, constants and enums, and all ways of trying to read, write, call or shadow them",
  "Tests cannot show the absence of a way round: each way of reaching a member (direct, compound assignment, inherited, through a method value, nested scope) has to be tried on each kind.",
  [V, C, "src/vm/datatypes/instance.c", "src/vm/datatypes/enums.c"], [("private tables", V + " OP_GET_PRIVATE_ATTRIBUTE/OP_SET_PRIVATE_ATTRIBUTE"), ("constant checks", C + " checkConst / constants table")])

p("L07", "Reflection agrees with the object it describes",
  "For any object, hasAttribute, getAttribute, getAttributes, setAttribute, methods, isInstance, toDict, the class and name attributes, type() and the Object module report exactly the members the object has and the classes it derives from, and an attribute set or read through reflection is the same one that ordinary access uses. Annotations are reported exactly as written. Optional chaining yields nil instead of an error exactly when the receiver is nil.",
  ["programs"], "all class hierarchies and all histories of attribute changes followed by every reflective query",
  "Tests query one small object; agreement between two views over arbitrary hierarchies and mutation histories is not a finite list.",
  ["src/vm/datatypes/instance.c", "src/vm/datatypes/class.c", "src/optionals/object/object.c", V], [("instance reflection methods", "src/vm/datatypes/instance.c"), ("class reflection methods", "src/vm/datatypes/class.c")])

p("L08", "The built-in functions read, write, assert and answer exactly",
  "For any standard input and any arguments: input returns each line of standard input unchanged and in order (its prompt goes to standard output; past the end it gives the empty text), whatever the line's length; print and printError write exactly the text of their arguments, one per line, to standard output and standard error and nowhere else; assert lets a program continue when its argument is truthy and otherwise ends it with a runtime error at that line, before anything after it runs; isDefined is true exactly for the names that are, at that moment, defined as globals of the asking function's module, and for built-in functions and modules.",
  ["inputs", "programs"], "all standard inputs, argument lists and points at which a name is asked about",
  "Tests hardly touch the built-ins: input and the standard streams need a driven process, line lengths around every growth step of the buffer need generation.",
  ["src/vm/natives.c"], [("built-in functions", "src/vm/natives.c"), ("script-visible documentation", "docs/docs/built-ins.md")])

p("D01", "Lists behave as sequences under any series of operations",
  "After any series of list operations (literal, index read and write with negative indexes, push, insert, pop, remove, extend, +, reverse, sort, sortFunc, splice, join, contains, map, filter, reduce, forEach, find, findIndex, unique, len, in-place and copying forms) the list holds exactly the elements, in exactly the order, that a plain sequence model predicts, and every query returns what the model returns. An out-of-range index or absent value is refused with an error and leaves the list unchanged. Sorting yields an ordered permutation.",
  ["histories", "inputs"], "all operation sequences over lists of any length and element kind",
  "Tests call each method once on a list of three to five elements; growth, boundaries, and interactions between operations need histories.",
  ["src/vm/datatypes/lists/list.du", "src/vm/datatypes/lists", V], [("native list methods", "src/vm/datatypes/lists/lists.c"), ("list methods written in Dictu", "src/vm/datatypes/lists/list.du"), ("subscript access", V + " OP_SUBSCRIPT")])

p("D02", "Dictionaries behave as maps under any series of operations",
  "After any series of dictionary operations (literal, index read and write, get with default, remove, exists, keys, len, merge, forEach, map-like access in loops) each key that was set and not removed since maps to the last value stored, no other key is present, and len, keys, exists, printed form and truth value agree with that. Keys of different types never collide, and reading or removing an absent key is an error that changes nothing.",
  ["histories", "inputs"], "all operation sequences with keys of every allowed type, any number of keys, with removals and re-insertions",
  "Tests use a handful of keys and few removals; probe chains, tombstones and growth only matter with many keys, collisions and mixed histories.",
  ["src/vm/value.c", "src/vm/datatypes/dicts", V], [("open-addressed dictionary", "src/vm/value.c dictSet/dictGet/dictDelete/adjustDictCapacity"), ("dictionary methods", "src/vm/datatypes/dicts")])

p("D03", "Sets behave as sets under any series of operations",
  "After any series of set operations (creation, add, remove, contains, containsAll, values, len, printing, truth test) the set contains exactly the values added and not removed since, each once, and every query agrees with that. Removing an absent value is an error that changes nothing, and no history of operations makes an operation fail to return.",
  ["histories", "inputs"], "all operation sequences with elements of every allowed type, including many more add/remove cycles than the set ever holds at once",
  "Tests add and remove a few values once; deleted slots accumulate only over long histories.",
  ["src/vm/value.c", "src/vm/datatypes/sets.c"], [("open-addressed set", "src/vm/value.c setInsert/setGet/setDelete"), ("set methods", "src/vm/datatypes/sets.c")])

p("D04", "String methods compute what the documentation says for every string",
  "For every string and argument in the documented domain, each string method (len, lower, upper, split, replace, contains, find, findLast, startsWith, endsWith, strip, leftStrip, rightStrip, count, title, repeat, isUpper, isLower, wordCount, collapseSpaces, wrap, format, toNumber, toBool) and + return the documented result and leave the original unchanged. Arguments outside the domain are refused with an error.",
  ["inputs"], "all strings (empty, one character, repeated separators, leading/trailing matches, long, non-ASCII bytes) and all arguments",
  "Tests give one or two ordinary strings per method; empty strings, adjacent and overlapping matches and size-dependent buffers are unbounded input classes.",
  ["src/vm/datatypes/strings.c"], [("string methods", "src/vm/datatypes/strings.c"), ("interning and concatenation", "src/vm/object.c, " + V)])

p("D05", "Indexing and slicing select exactly the addressed elements",
  "For any list or string and any start and end (positive, negative, omitted, beyond either end), indexing returns the addressed element or an out-of-range error, and slicing returns exactly the elements from start up to but excluding end, as a new value; slicing a list never shares structure with the original. Index assignment and compound index assignment change exactly that element.",
  ["inputs"], "all lists and strings, all integer start/end/index values including omitted and out of range",
  "Tests try a few bounds; the boundary arithmetic has many sign and clamp combinations per length.",
  [V], [("subscript and slice bytecodes", V + " OP_SUBSCRIPT/OP_SLICE/OP_SUBSCRIPT_ASSIGN/OP_SUBSCRIPT_PUSH")])

p("D06", "Copies are equal to the original and independent of it",
  "A shallow copy of a list, dictionary or instance has the same contents at the moment of copying and afterwards shares nested containers but not its own slots with the original; a deep copy shares nothing mutable. Any later sequence of changes to one is invisible in the other, except through nested containers of a shallow copy.",
  ["histories", "inputs"], "all nested container and instance structures and all sequences of changes to original and copy",
  "Tests change one element of one small structure; independence is a statement about every later change at every depth.",
  ["src/vm/datatypes/copy.c", "src/vm/datatypes/instance.c", "src/vm/datatypes/dicts", "src/vm/datatypes/lists"], [("copying", "src/vm/datatypes/copy.c")])

p("D07", "Printing, equality and truth of values follow their structure",
  "For every value, print and toString give the same documented rendering of its structure (nested lists, dictionaries, sets, strings quoted inside containers, numbers to 15 significant digits); == holds exactly when two values have the same type and equal contents (numbers, strings, booleans, nil, lists, dictionaries, sets) and != is its negation; a value is falsey exactly when it is nil, false, 0, an empty string or collection, or an error Result, and not, and, or, ternary, if and toBool all agree on that.",
  ["inputs", "histories"], "all nested values, including ones reached after insertions and removals, and all pairs of values",
  "Tests print and compare a few literals; structural equality, rendering and truth must hold for every nesting and every history that leads to a value.",
  ["src/vm/value.c", V, "src/vm/object.c"], [("rendering", "src/vm/value.c valueToString and helpers"), ("equality", "src/vm/value.c valuesEqual"), ("truth", V + " isFalsey")])

p("D08", "Literals denote the text and numbers written",
  "A string literal denotes exactly the characters written, with each documented escape sequence replaced by the character it names and raw strings taken verbatim; decimal, scientific, hexadecimal and underscore-separated number literals denote the nearest double to the written number; comments and layout never change a program's meaning. toNumber of the text of a number yields that number, and text that is no number yields an error Result.",
  ["inputs", "programs"], "all string contents and quoting styles, all number spellings, all placements of comments and blanks",
  "Tests list a few escapes and numbers; literal decoding must be right for every character sequence and every numeral.",
  ["src/vm/scanner.c", C, "src/vm/datatypes/strings.c"], [("tokens", "src/vm/scanner.c"), ("escape processing", C + " parseString"), ("number literals", C + " number")])

p("D09", "Results carry success or error faithfully through every combinator",
  "A Result holds exactly the value or error it was made with: success, unwrap, unwrapError, match, matchWrap and matchError report and route it to exactly the right callback once, unwrapping the wrong side is a runtime error, and failures of library calls are reported as error Results rather than as crashes.",
  ["programs", "inputs"], "all chains of Result operations over success and error Results with any payload",
  "Tests apply each combinator once; routing through chains with arbitrary payloads and callback results is not enumerable.",
  ["src/vm/datatypes/result", "src/vm/natives.c"], [("Result methods", "src/vm/datatypes/result"), ("Success/Error natives", "src/vm/natives.c")])

p("M01", "Garbage collection is invisible to programs",
  "A program's output, errors and exit status are the same whenever collections happen: at every allocation, at the normal threshold, or never. No reachable value is ever freed, moved or altered by a collection, in the language, the built-in methods or the standard library, and no execution reads or writes memory it does not own.",
  ["programs", "schedules"], "all programs using all built-in types and modules, under all collection schedules",
  "The test suite runs each fixed program under one schedule and only looks at its assertions; a missing root shows only when a collection falls between two particular allocations of a particular operation.",
  ["src/vm/memory.c", "src/vm/object.c", "src/vm/value.c", V, "src/vm/datatypes", "src/optionals"], [("mark and sweep", "src/vm/memory.c"), ("temporary roots pushed on the value stack", "src/vm and src/optionals")],
  state=[{"name": "object graph", "meaning": "every heap value reachable from stack, globals, modules, frames, open upvalues and compiler"}])

p("M02", "Every byte allocated for a program is returned when it ends",
  "After a program ends normally, or with a runtime or compile error reported by the interpreter, all memory it obtained through the interpreter's allocator, and every block the interpreter's own code took from the C library, has been released, and long-running programs that drop their data do not keep growing: memory in use is bounded by what is reachable.",
  ["programs"], "all programs, including ones using every built-in type and module",
  "The runner checks the balance only for its fixed test files; a leak on one path (an error path, a growth path, a repeated call) needs a program taking that path.",
  ["src/vm/memory.c", "src/vm/object.c", "src/vm/datatypes", "src/optionals"], [("accounting allocator", "src/vm/memory.c reallocate"), ("object release", "src/vm/memory.c freeObject")])

p("R01", "Any source text is accepted or rejected cleanly",
  "Given any sequence of bytes as a program, the interpreter either runs it or reports a compile error with file and line and exits with the compile-error status; it never crashes, hangs while compiling, or reads outside the text. A program that is rejected has no effects, and text that is a valid program is never rejected because of its layout or size within documented limits.",
  ["inputs", "programs"], "all byte strings, in particular truncated, spliced and token-mutated programs",
  "Tests contain only valid programs; nothing in them exercises the reject paths of the scanner and parser.",
  ["src/vm/scanner.c", C], [("scanner", "src/vm/scanner.c"), ("parser error recovery", C + " synchronize/errorAt")])

p("R02", "Runtime errors stop the program cleanly with the right location",
  "When an operation is applied to operands it does not support, or a limit is exceeded (including unbounded recursion), the program stops at that statement with a runtime error naming the failing line and enclosing functions, keeps all output produced before it, performs nothing after it, and exits with the runtime-error status; it never crashes, hangs or continues with a corrupted value. Built-in functions and methods given wrong argument counts or types behave the same way.",
  ["programs", "inputs"], "all operators, built-in functions, methods and library calls with arguments of every type and count, at any call depth and position in a program",
  "The tests assert successes; a failing program would fail the test run, so runtime errors are almost untested.",
  [V, "src/vm/natives.c", "src/vm/datatypes", "src/optionals"], [("runtimeError", V), ("argument checks of natives", "src/vm/natives.c, src/vm/datatypes, src/optionals")])

p("I01", "Imports load each module once and keep namespaces apart",
  "For any graph of files importing one another (by path, with or without an alias, or from-importing names), each file's body runs exactly once, before the first importer continues; every importer sees the same module values, including later changes; a module's globals are visible elsewhere only through its name or imported names, never leak into or get overwritten by another module. Importing an unknown module, file or name is an error.",
  ["programs"], "all import graphs, alias choices and name clashes between modules",
  "Tests import a few fixed files; run-once and isolation are statements over all graphs and name clashes.",
  [V, C, "src/optionals/optionals.c"], [("module loading", V + " OP_IMPORT and relatives"), ("built-in module lookup", "src/optionals/optionals.c")])

p("C01", "The command line and the REPL run code as a file would",
  "Running a program from a file, with -c, or line by line in the REPL gives the same output and the same effects on later code; an error in one REPL line leaves earlier definitions usable. Command-line arguments reach the program unchanged and in order, and the exit status tells success, compile error, runtime error, missing file, or the status given to exit apart.",
  ["programs", "histories", "inputs"], "all programs split into REPL lines, all argument vectors, all ways of ending",
  "The test runner only runs files without arguments; nothing drives the REPL or checks exit statuses.",
  ["src/cli/main.c", "src/cli/argparse.c", V, "src/optionals/system.c"], [("entry points", "src/cli/main.c"), ("argument vector", "src/optionals/system.c")])

p("S01", "JSON output and input round-trip and follow the JSON standard",
  "For every value made of nil, booleans, numbers, strings, lists and string-keyed dictionaries, stringify produces valid JSON that any conforming parser reads as that value, with the indentation asked for, and parse of it gives the value back; for every valid JSON text parse yields the value the standard assigns, including escapes, surrogate pairs, nesting and numbers. Text that is not valid JSON and values that cannot be represented give an error Result.",
  ["inputs"], "all nested values and all JSON texts, valid and mutated",
  "Tests parse and print a few documents; escapes, Unicode ranges, number spellings and nesting form an unbounded grammar.",
  ["src/optionals/json.c", "src/optionals/json/jsonParseLib.c", "src/optionals/json/jsonBuilderLib.c"], [("parser", "src/optionals/json/jsonParseLib.c"), ("serialiser", "src/optionals/json/jsonBuilderLib.c"), ("value mapping", "src/optionals/json.c")])

p("S02", "BigInt arithmetic is exact for integers of every size",
  "For all decimal integers, BigInt addition, subtraction, multiplication, division, modulo, exponentiation-by-repetition, comparison, negation, absolute value and bitwise operations on non-negative values give exactly the mathematical result, printing gives its canonical decimal form, and operands are not changed. Division by zero is reported as an error.",
  ["inputs"], "all pairs of integers of any sign and length, including word-boundary values and lengths that switch algorithms",
  "Tests use a few short numbers; carries, borrows, word boundaries and the large-number algorithms need long structured operands.",
  ["src/optionals/bigint.c", "src/optionals/bigint/bigint.c"], [("multi-word arithmetic", "src/optionals/bigint/bigint.c"), ("language binding", "src/optionals/bigint.c")])

p("S03", "Buffers read back exactly the bytes and numbers written",
  "For any series of buffer operations, a read at an offset returns exactly what the last writes to those bytes put there, in the stated width, signedness and byte order; writes touch no other byte, len and resizing are exact, and strings, sub-buffers and values lists reflect the same bytes. Any access outside the buffer is refused with an error and changes nothing.",
  ["histories", "inputs"], "all operation sequences, offsets (including at, past and below the ends), widths, byte orders and values",
  "Tests write and read one value per method at small offsets; overlap, alignment, byte order and bounds combine freely.",
  ["src/optionals/buffer.c"], [("bounds checks and typed access", "src/optionals/buffer.c")])

p("S04", "Base64 and hash functions compute the standard functions for every input",
  "Base64 encoding of every string is the standard padded encoding and decoding inverts it exactly; sha256 and hmac give the standard digest for every message and key length, and bcrypt verification accepts exactly the password that was hashed. Inputs that are not valid are rejected or ignored without reading or writing outside them.",
  ["inputs"], "all byte strings (within what a string literal or file can hold) and keys of every length, malformed encodings",
  "Tests check a few vectors; padding cases and block boundaries depend on length modulo 3 and 64, and hmac on key lengths around the block size.",
  ["src/optionals/base64.c", "src/optionals/base64/base64Lib.c", "src/optionals/hashlib.c", "src/optionals/hashlib"], [("base64", "src/optionals/base64/base64Lib.c"), ("sha256, hmac", "src/optionals/hashlib")])

p("S05", "Path functions decompose and compose paths consistently",
  "For every path string, basename, dirname, extname, isAbsolute and join return the documented component computed from the text alone, and exists, isDir, isSymlink, realpath and listDir report the actual state of the file system, with failures as false or an error Result rather than garbage.",
  ["inputs"], "all path strings (empty, root, repeated and trailing separators, dots, no extension) and all small directory trees",
  "Tests use a few well-formed paths; separators, dots and empty components combine in many ways.",
  ["src/optionals/path.c"], [("path text functions", "src/optionals/path.c"), ("file system queries", "src/optionals/path.c")])

p("S06", "Queues are first-in first-out and stacks last-in first-out, whatever the history",
  "For any series of push, pop, peek, len, isEmpty, cap and creation with a given capacity, a queue returns elements in the order pushed and a stack in the reverse order, nothing is lost, duplicated or invented when the storage grows or wraps around, elements held stay alive, and popping or peeking at an empty one is a runtime error that changes nothing.",
  ["histories"], "all operation sequences, including ones that grow after elements were removed, and any initial capacity",
  "Tests push then pop a few values; wrap-around with growth needs an interleaving the tests never make.",
  ["src/optionals/queue.c", "src/optionals/stack.c"], [("ring buffer", "src/optionals/queue.c"), ("array stack", "src/optionals/stack.c")])

p("S07", "SQLite queries return what was stored, with parameters bound as data",
  "For any series of statements on any connections, with nil, booleans, numbers and strings bound to their placeholders, each query gives exactly the rows SQLite defines with values and types preserved, statements without columns give nil, parameters are never interpreted as SQL and must match the placeholders in number and kind, failing statements come back as error Results with SQLite's message and leave the connection usable, foreign keys are enforced, a locked database is waited for as long as asked, and files hold exactly what was committed.",
  ["histories", "inputs"], "all sequences of inserts, updates, deletes, selects and failing statements, with any parameter values",
  "Tests insert a few rows; binding must be right for every value, statement shape and history of failures.",
  ["src/optionals/sqlite.c"], [("statement preparation and binding", "src/optionals/sqlite.c")])

p("S08", "Files hold exactly what was written and reads return it",
  "For any series of writes, appends, reads, line reads and seeks through with-blocks and the IO module, in the modes documented, the file on disk contains exactly the bytes the operations define and each read returns exactly the addressed bytes or lines; the file is closed when the block ends however it is left. Operations not permitted by the mode are errors that change nothing.",
  ["histories", "inputs"], "all contents (empty, no final newline, long lines), all modes and all operation sequences including early exits from the block",
  "Tests write one short text; buffering, line lengths, modes and seeks combine, and closing on early exit is never observed.",
  ["src/vm/datatypes/files.c", V, C, "src/optionals/io.c"], [("file methods", "src/vm/datatypes/files.c"), ("with statement", C + " withStatement, " + V + " OP_OPEN_FILE/OP_CLOSE_FILE"), ("copyFile", "src/optionals/io.c")])

p("S09", "Math functions return the mathematical result for every valid argument",
  "Each function of the Math module (floor, ceil, round, abs, min, max, sum, average, gcd, lcm, sqrt, trigonometric functions, constants), called with separate arguments or one list, returns the mathematical result of its arguments, and wrong types, counts or empty input give a documented value or a runtime error, never a crash.",
  ["inputs"], "all number arguments including negative, zero, fractional and large, and argument lists of every length",
  "Tests check two or three ordinary arguments per function.",
  ["src/optionals/math.c"], [("math natives", "src/optionals/math.c")])

p("S10", "Formatting and parsing of dates are exact inverses in UTC",
  "For every time from year 1000 on and every documented format directive, strftime gives the calendar text of that UTC time whatever the local time zone and the length of the result, and strptime of such a date text gives the time back; text that does not match gives nil, times no calendar date exists for are errors, and now() and nowUTC() show the current local and UTC time.",
  ["inputs"], "all times from year 1000 to 9999 (and beyond for the plain directives), all time zones, and all format strings over the documented directives",
  "Tests format one or two fixed times; calendar arithmetic and buffer growth need many dates and formats.",
  ["src/optionals/datetime.c"], [("strftime/strptime bindings", "src/optionals/datetime.c")])

p("S11", "Random values and UUIDs stay within what was asked for",
  "Random.random lies in [0,1], Random.range returns only integers within the given inclusive bounds and reaches all of them, Random.select returns only elements of the list and reaches all of them, and invalid requests are errors. Every UUID generated is well formed, of the requested version, and different from the others.",
  ["inputs", "histories"], "all bounds and lists, long series of draws",
  "Tests draw a handful of numbers from one range.",
  ["src/optionals/random.c", "src/optionals/uuid.c"], [("random natives", "src/optionals/random.c"), ("uuid natives", "src/optionals/uuid.c")])

p("S12", "Environment variables are stored, read and loaded faithfully",
  "For any series of set, get, clear and file loads, Env.get returns the last value set for that name or the default, child and parent see exactly those, removing a variable removes only it, and reading an environment file defines exactly the variables its lines state.",
  ["histories", "inputs"], "all names and values, all environment file contents of documented form, all operation orders",
  "Tests set one variable and load one file.",
  ["src/optionals/env/env.c", "src/optionals/env/env.du"], [("native environment access", "src/optionals/env/env.c"), ("file reader", "src/optionals/env/env.du")])

p("S13", "Argument parsing assigns every argument to the declared option or reports it",
  "For any parser declared with flags, string, number and list options, required or not, and any argument vector, parsing either gives each option exactly the value the vector states (false, nil or the default form when absent) or an error Result stating what is missing or wrong.",
  ["inputs"], "all parser declarations and all argument vectors",
  "Tests parse a few fixed vectors.",
  ["src/optionals/argparse/argparse.du"], [("parser written in Dictu", "src/optionals/argparse/argparse.du")])

p("S14", "File system calls do exactly what they say and report failures",
  "For any series of System calls that create, list, change or remove files and directories inside a directory, the file system afterwards is exactly what the calls that reported success describe, each call that cannot succeed returns an error Result (or false) and changes nothing (mkdirAll may have made the leading directories it could), and queries report the actual state.",
  ["histories"], "all operation sequences over small directory trees, including failing ones",
  "Tests create and remove one directory or file.",
  ["src/optionals/system.c", "src/optionals/path.c", "src/optionals/io.c"], [("system calls", "src/optionals/system.c")])

p("S15", "Child processes get the given arguments and their output and status come back",
  "For any argument vector and any child output, Process.exec, Process.run and their capturing form start exactly that program with exactly those arguments, return its complete output unchanged once it has ended, and report a program that cannot be started, exits with a non-zero status or is ended by a signal as an error Result; Process.kill delivers exactly the given signal, and each signal constant names its own signal.",
  ["inputs"], "all argument vectors and output sizes and contents, all exit statuses",
  "Tests run ls or a missing program once; argument quoting, output size and status need generated inputs.",
  ["src/optionals/process.c"], [("fork, exec and pipes", "src/optionals/process.c")])

p("S16", "HTTP and socket calls carry requests and responses unaltered",
  "For any sequence of HTTP calls (get, post, put, head, options; direct or through a reconfigured client) with any headers and body, each request that leaves is exactly the one described (an options call asks about the server as a whole, '*', and dict bodies go out as key=value pairs), redirects are followed unless turned off, and the response object holds exactly the status, the header lines and the decoded body received, whatever their size and content and however they were cut on the way; refused or broken connections, truncated or malformed responses and time-outs are error Results and leave the client usable. Bytes written to a stream socket arrive unchanged and in order, recv returns what is there up to what was asked for, datagrams arrive one by one, and a closed socket or a peer that is gone is an error Result. The named constants for methods, status codes and headers have the value they name.",
  ["inputs", "histories"], "all request descriptions and server responses over the loopback network",
  "Tests need a public server and look at the status only.",
  ["src/optionals/http/http.c", "src/optionals/socket.c"], [("libcurl binding", "src/optionals/http"), ("sockets", "src/optionals/socket.c")])

p("S17", "The unit test runner counts and reports every test truthfully",
  "For any test class, each test method (own, inherited or overridden) runs exactly once per provided value between its set-up and tear-down, every assertion passes or fails exactly according to its documented condition, the printed report shows exactly the outcomes asked for with the line and values of each failure and counts exactly the passed, failed and skipped ones, the run ends at the first failure exactly when that was asked for, and the process status is a failure exactly when an assertion failed.",
  ["programs"], "all test classes with any mix of methods, assertions, providers and skips",
  "The runner tests itself only with passing assertions, as a failing one would fail the suite.",
  ["src/optionals/unittest"], [("runner written in Dictu", "src/optionals/unittest/unittest.du")])

p("S18", "Log output is exactly the stamped and prefixed messages, at their destination",
  "For any loggers (destination, prefix set, changed or removed) and any series of log calls, exactly the messages are written, each once, in order, after the local time and the logger's current prefix, to the configured destination and nowhere else, whatever characters they hold; fatal calls end the process with status 1 after writing, and nothing later runs.",
  ["histories", "inputs"], "all configurations and sequences of log calls with any message",
  "Tests only check that calls do not fail.",
  ["src/optionals/log.c"], [("logger", "src/optionals/log.c")])

p("S19", "Network addresses and terminal queries tell the truth",
  "For any text, Net.parseIp4 succeeds exactly when it is a dotted IPv4 address and then holds its four octets in order, a list of the program's own, and is an error Result otherwise; for any choice of standard descriptors being a terminal of any size, Term.isatty is true for exactly those descriptors and Term.getSize reports the rows, columns and pixel sizes of the terminal on standard input, and zeros without one.",
  ["inputs"], "all address-like texts; all terminal sizes and assignments of the standard descriptors",
  "Tests parse two addresses and only look at the types of the terminal answers.",
  ["src/optionals/net.c", "src/optionals/term.c"], [("octet loop", "src/optionals/net.c"), ("ioctl and dictionary", "src/optionals/term.c")])

p("S20", "Native modules see and build Dictu values faithfully",
  "For any native module built against the FFI header (the current one or the one the API version was fixed with) and any series of calls between it and the program while the module is reachable, every value passed either way arrives unchanged, containers built or changed by native code behave exactly like the program's own (equality, look-up, printing, collection), native functions offered by the interface do what the corresponding language operation does, runtime errors raised natively are reported with the Dictu call chain and end the program like any other, and native objects are freed once, by their own function, after they become unreachable; FFI.load of a missing, unsuitable, refusing or newer module or with wrong arguments is a runtime error from which a REPL session goes on, and loads of good modules before and after it work.",
  ["histories", "inputs"], "all call histories and values between program and native module; all sequences of good and failing loads",
  "The tests load one prebuilt library with two functions.",
  ["src/optionals/ffi", "src/include/dictu_ffi_include.h"], [("function table and loader", "src/optionals/ffi"), ("structures the module is compiled against", "src/include/dictu_ffi_include.h")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P:
            f.write(json.dumps(x) + "\n")
    print(len(P), "properties")
