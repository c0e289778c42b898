"""Properties P14 and up."""


def extend(prop, ref, NA, LAWNOTE, REFNOTE, REFTECH, C, PRE):
    ref("P14", "What is written can be read back, and reading follows the notation",
        "Reading text yields exactly the sequence of data its notation denotes, whatever whitespace, comments, prefixes and delimiters separate them, from a string or a file, and malformed text is reported as an error. "
        "Writing any datum made of lists, vectors, boxes, numbers, symbols, strings and characters and reading it back gives an equal datum.",
        ["inputs"], "every text up to a length over several alphabets of tokens and delimiters, every datum up to a size over several sets of atoms, all characters and strings of special characters, and symbols and integers of boundary sizes",
        "Tests read a few well-formed files; reader states multiply with every adjacent pair of tokens.", [C + "read.c", C + "print.c"], [("reader", C + "read.c"), ("writer", C + "print.c")])
    ref("P15", "Binary serialization loses nothing and rejects cut-off data",
        "A datum written in the binary format is read back equal, in the order written, whatever was written before or after it to the same port. Data cut off at any byte is reported as an error, never accepted or a crash, and objects that cannot be serialized are rejected.",
        ["inputs", "crash_points"], "every datum up to a size over several sets of atoms, sequences of data on one port, every length through the size classes, and a cut after every byte of every sample",
        "Tests serialize a few literals and never cut a file short.", [C + "fasl.c"], [("binary writer and reader", C + "fasl.c")])
    ref("P16", "A port delivers exactly its own characters, in order",
        "Whatever history of reading, peeking, writing, flushing, closing and extracting is performed on ports, each input port delivers exactly its own characters in order and then end of file, and each output port accumulates exactly what was written to it. "
        "Using a closed port, a port of the wrong direction or something that is not a port is reported as an error.",
        ["histories"], "every history up to a depth over aliased string ports and file ports, every byte value, text of every length through the buffer sizes, and every operation on every kind of argument and on closed ports",
        "Tests read and write once per port.", [C + "io.c", C + "read.c", PRE], [("port primitives", C + "io.c"), ("port procedures", PRE)])
    LIB = "src/library/private/"
    ref("P17", "Derived forms of the language mean what they should",
        "let, named let, let*, letrec, cond, case, when, unless, and, or, do, define and bodies with internal definitions evaluate exactly the subexpressions their definitions call for, once, in order and in the right scope, however they are nested; their last expressions are in tail position. "
        "A malformed use of any form, or a reference to an unknown variable, is rejected before anything is evaluated.",
        ["programs"], "every nesting of the derived forms up to a size over several alphabets (binding, loops, branches, bodies, shadowing), every malformed shape of every form up to a size, and loops through every composition of two tail positions",
        "Tests use each form a few times; expansion mistakes show in particular nestings, scopes and shapes.",
        [LIB + "let.min", LIB + "cond.min", LIB + "case.min", LIB + "define.min", LIB + "do.min", LIB + "and-or.min", LIB + "when-unless.min", "src/library/expander.min"],
        [("form definitions", LIB + "let.min"), ("bodies and static checks", "src/library/expander.min"), ("module REPL", "src/library/module.min")])
    ref("P18", "syntax-case matches and builds exactly what its pattern and template say",
        "Every pattern made of variables, wildcards, literals, data, lists, improper lists, vectors and ellipses matches exactly the syntax it describes and binds each variable to the part it stands for; clauses are tried in order. "
        "A template yields the syntax it describes, with every sequence repeated element by element, and a template whose ellipses do not fit its variables is rejected.",
        ["programs", "inputs"], "every pattern up to a size against every datum up to a size, and every template up to a size over eight shapes of pattern",
        "Tests match some seventeen patterns; ellipses, tails and vectors interact in many more ways.", [LIB + "stxcase.min", LIB + "template-utils.min", LIB + "stx.min"],
        [("matcher", LIB + "stxcase.min"), ("templates", LIB + "template-utils.min")])
    ref("P19", "A macro use means what its transformer builds, wherever the macro is bound",
        "A use of a macro is replaced by what the newest, innermost binding of its name builds for it, recursively, in expressions, bodies and at the top level, whether the macro was defined in the module, in a body, by another macro, at the REPL or imported from a module that keeps its helper macros to itself. "
        "A use that no clause matches is rejected before anything is evaluated.",
        ["programs", "histories"], "every nesting of uses of sixteen macros up to a size, every order of module-level definitions and uses up to a length in modules and bodies, every history of redefinitions at the REPL, all of it also with the macros imported",
        "Tests use a macro right after its definition.", ["src/library/expander.min", LIB + "stxcase-extra.min", LIB + "stxcase.min", "src/library/module.min"],
        [("expander", "src/library/expander.min"), ("syntax-rules", LIB + "stxcase-extra.min")])
    ref("P20", "An error stops the computation and reaches the handler, fully described",
        "When a procedure or a program reports an error, nothing after it is evaluated, the error handler in force is called once with an exception that describes it completely (who, message, and the expected and given values, ranges or keys), and what the handler returns takes the place of the failing call. "
        "The default handler prints that description on the error port and ends the process with status 1; exit ends it with exactly the status asked for. Every public procedure returns the prescribed value or that complete error for arguments of any kind.",
        ["programs", "inputs", "histories"], "every way of raising an error over small sets of who, message and detail values; every error in every nesting of two out of 25 contexts under eight kinds of handler; every history of handler changes and errors up to a length; every exit status; every procedure on every tuple of up to 26 kinds of argument",
        "Tests that end in an error are not run at all; messages, handlers and exit statuses are unchecked.", [C + "error.c", C + "eval.c", C + "check.c", PRE], [("reporting of errors", C + "error.c"), ("exceptions and handlers", PRE)])
    ref("P21", "Printing and formatted printing give exactly the text asked for",
        "write, display, put-datum, printf, eprintf, fprintf and format print every value in its notation, human-readable or machine-readable as asked, calling the writers of record types, onto the port given and no other. "
        "A format string yields its text with each directive replaced by its argument in order; an ill-formed one or a wrong number of arguments is reported before anything is printed.",
        ["inputs", "histories"], "every value of 44 kinds in eight containers through 17 ways of printing, every format string up to length 5 with every number of arguments, every directive character, sizes up to 10000, and every sequence of three print operations on several ports",
        "Tests print a few literals and compare nothing.", [C + "print.c", C + "io.c", PRE], [("printer", C + "print.c"), ("format", PRE)])
    prop("P22", "The collector frees exactly what cannot be reached, exactly once",
        "After any history of allocations, links, reallocations, registrations, frees and collections, every object reachable from a root, a register or the stack is intact at its place, a collection frees every other object and runs its destructor exactly once, and the allocated, reachable and collectable byte counts are exact. "
        "Collection starts by itself when enough was allocated, never while paused, and shutting down frees everything.",
        ["histories"], "breadth-first over every history of up to 6 operations out of 44 on two slots and up to four objects, with colliding and reused addresses; tables of every size around each resize; automatic collection for six block sizes",
        "The collector has no tests; its failures need particular histories, collisions and table sizes.", ["src/gc/minim-gc/gc-impl.c", "src/gc/minim-gc/gc.c", "src/gc/minim-gc/gc-types.h"],
        [("collector", "src/gc/minim-gc/gc-impl.c"), ("interface", "src/gc/minim-gc/gc.c")],
        technique="explicit-state exploration of operation histories of the real collector code against a reachability model",
        note="The collector's own sources run in a harness with a controlled allocator and stack; the model is a small object graph. Trusts the model and the small-scope hypothesis beyond the bounds.")
    prop("P23", "When memory is reclaimed never shows in a result",
        "Whatever moments the garbage collector picks to run, a program gives the same values, output and errors as if nothing were ever reclaimed: no object that can still be reached through a variable, a pending call, a container, a port, an environment, a symbol or a handler is lost or damaged, and no released memory is used.",
        ["schedules", "programs"], "every program of the corpora (all small expressions; 23 kinds of fresh object held in 19 ways; histories of tables, environments and ports; reading, printing, serializing; errors; every procedure on small argument tuples) under the schedule that collects at every allocation; growing workloads under periodic schedules with all listed phases",
        "A missed reference matters only if a collection falls between two particular instructions; tests run with whatever schedule the collector happens to choose.",
        [C + "global.c", C + "symbol.c", C + "io.c", C + "list.c", C + "hashtable.c", C + "thread.c", C + "frame.c"],
        [("roots", C + "global.c"), ("objects and finalizers", C + "io.c"), ("interned names", C + "symbol.c")],
        technique="exhaustive control of the collection schedule of the real interpreter: a substituted collector runs at every allocation, poisons what it frees and never reuses it; results are compared with a run that never collects",
        note="The runtime is compiled unchanged against a stand-in for the collector's interface. The schedule that collects everywhere has freed, at every moment, whatever any other schedule has freed. Trusts the stand-in and the compiler flags used here.")
    ref("P24", "Modules are evaluated once, in order, and share exactly what they export",
        "Importing a module evaluates, once per process and before its own body, every module it imports directly or indirectly, in the order written and however its path is spelled. A module sees its own definitions and what its imports export (values, procedures with their state, and macros), and nothing else; definitions it keeps to itself never collide with those of others. "
        "A missing file, an unknown variable, a malformed clause or an export that is not defined stops the program before anything that depends on it is evaluated, and so does a module that needs itself, directly or through others.",
        ["programs", "configurations"], "every cyclic import structure of three modules with up to two imports each, every acyclic import structure of three and four modules (with every order of imports) under several export policies, one fault of each kind in each module, every spelling of paths over three modules, and every order of importing several roots",
        "Tests import a library file or two; sharing, ordering and isolation depend on the shape of the import graph.", ["src/library/module.min", "src/library/expander.min", LIB + "path.min"],
        [("module loader", "src/library/module.min"), ("paths", LIB + "path.min")])
    prop("P25", "The command line, loading and the prompt do what was asked",
        "Options before the file name select the banner, the library and the prompt in any combination and order; everything from the file name on is the program's command line; unknown options are refused. The process prints exactly the program's output and, at a prompt, each value of each expression, and ends with the status the program asked for, 1 after an error and 0 otherwise. "
        "Loading a file evaluates it with its own folder as the current directory and then returns to the previous one, however loads nest.",
        ["configurations", "histories"], "every argument list up to length 3 over twelve tokens, every combination of flags with ten kinds of file and nine kinds of typed input, and every history of loads and directory changes up to length 3 over three folders",
        "Tests start the interpreter in one way only.", ["src/boot/c/minim.c", C + "system.c"], [("command line and prompt", "src/boot/c/minim.c"), ("loading and directories", C + "system.c")],
        technique="exhaustive enumeration of argument lists, inputs and operation histories of the real executable against a small model of the command line and the current directory",
        note="Every run is a process of its own, compiled from the working tree. Trusts the model in the check and the small-scope hypothesis beyond the bounds.")
    ref("P26", "A record declaration makes exactly the procedures it describes",
        "define-record-type defines a type, constructor, predicate, accessors and mutators under the names and with the fields, mutability, parent, uid, sealing, opacity, protocol, equality and writer its clauses state, in whatever order they are written, at the prompt, in modules and in bodies; a malformed, duplicated or contradictory declaration is rejected. "
        "A generic interface given to a type holds the newest implementation given to exactly that type, of exactly the declared number and arity of methods.",
        ["programs", "histories"], "every field list up to length 3 (five kinds of field) with three kinds of parent, every order of up to three of nine clauses, every duplicate, every small shape in each place of a declaration, histories of declarations and uses, declarations in bodies; every pair of declared and implemented method signatures and every history of registrations up to a length",
        "Tests declare a dozen types; clauses, parents and protocols interact.", [LIB + "record.min", LIB + "generics.min", C + "record.c", PRE], [("record declarations", LIB + "record.min"), ("generic interfaces", LIB + "generics.min")])
    ref("P27", "Library lists, sets, enumerations, promises, strings and paths keep their laws",
        "List procedures, folds and searches return what they define without changing their arguments; sort is stable and leaves its argument alone; sets behave as finite mathematical sets under every history and combination; enumeration sets keep to their universe and its order; a promise computes its value when first forced and keeps it; substring and path procedures cut and join exactly. "
        "Arguments of the wrong kind are reported as errors.",
        ["inputs", "histories"], "all lists up to a length with all keys and indices, all sequences over three keys up to length 5 and all permutations for sort, all pairs and triples of subsets and all histories of fourteen set operations up to length 3, all enumeration universes and members over four symbols, all histories of promise operations over six setups, all indices of substring, all path texts up to five pieces",
        "Tests call each procedure a few times.", [LIB + "list.min", LIB + "sort.min", LIB + "set.min", LIB + "enum.min", LIB + "promise.min", LIB + "string.min", LIB + "path.min"],
        [("sets", LIB + "set.min"), ("sorting", LIB + "sort.min"), ("promises", LIB + "promise.min")])
    ref("P28", "Syntax objects wrap and unwrap data exactly",
        "datum->syntax and quote-syntax wrap every part of a datum (pairs, improper tails, vectors, boxes), leave what is already syntax alone and never change the datum; syntax->datum gives the datum back, fresh in its containers and with the same leaves, however syntax and data are nested; "
        "syntax-e removes one layer and syntax->list opens exactly the lists. The library's views of syntax (identifier?, stx-pair?, stx-car and the like) see the same structure whether wrapped or not. Arguments of the wrong kind are reported as errors.",
        ["inputs", "histories"], "every value reachable from 24 data by chains of 19 conversions and constructions up to length 3 (5 thorough), told apart by full structure; every history of mutations of a datum and of the values taken from its syntax; nestings and lengths up to 1000; every path into each datum through the library's views",
        "Every macro is a function on these objects; tests convert a handful.", [C + "syntax.c", PRE, LIB + "stx.min"], [("conversions", C + "syntax.c"), ("views", LIB + "stx.min")])
    ref("P29", "Programs in modules and at the prompt are read as the notation defines",
        "The reader behind modules and the prompt turns every text into exactly the sequence of data the notation denotes (numbers, symbols, strings, characters, lists, vectors, prefixes, line, block and datum comments, any whitespace), every part of which is syntax, ends on every input, and reports malformed or unfinished text as an error.",
        ["inputs"], "every text up to a length over thirteen alphabets (structure, prefixes, digits and signs, radix prefixes, string and symbol escapes, character names, comments, delimiters next to every token), every byte in every role, and depths and lengths of structure",
        "Tests read well-formed programs; a reader fails on particular adjacent characters and at the end of the text.", ["src/library/read.min"], [("reader", "src/library/read.min"), ("port primitives", C + "io.c")])
