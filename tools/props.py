"""The table of properties; `python3 tools/props.py` writes properties.jsonl and MANIFEST.json from it."""
import json, os

C = "src/core/c/"
PRE = "src/core/s/prelude.min"
P = []


def prop(id, title, statement, over, quant, why, files, mech, technique, note, level="model_checking", state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, technique=technique, note=note, level=level, state=state, observe=observe))


REFNOTE = ("Every program of the enumerated space runs on the real binary and must give the value, output and exit status an independent reference interpreter gives. "
           "Trusts the reference (written from the language's documentation and definitions, not from the compiler) and the small-scope hypothesis beyond the stated bounds; behaviour the language leaves open is skipped and counted.")
REFTECH = "exhaustive enumeration of programs/histories on the real code against an executable reference model"
LAWNOTE = "Every case of the enumerated space runs on the real binary; the law is evaluated on the results. Trusts the law's statement and the small-scope hypothesis beyond the bounds."


def ref(*a, **k):
    prop(*a, technique=REFTECH, note=REFNOTE, **k)


ref("P01", "Core evaluation follows the language semantics",
    "Evaluating any program built from the core forms (quote, if, lambda, case-lambda, begin, let-values, letrec-values, set!, values, call-with-values, application, top-level definition) yields the value and the sequence of side effects that left-to-right, call-by-value, lexically scoped evaluation prescribes. "
    "Closures share the variables they capture, every call gets fresh variables, and a malformed form is reported as an error instead of being evaluated.",
    ["programs"], "every core program up to a size bound over several alphabets of names, constants and nesting contexts (shadowing, escaping closures, assignment, recursion, multiple values)",
    "Tests run a few dozen fixed expressions; compiler and optimizer mistakes need particular nestings of scopes, captures and assignments.",
    [C + "eval.c", C + "jitcompile.c", C + "jitopt.c", C + "jitanalyze.c", C + "check.c"],
    [("compiler passes", C + "jitcompile.c"), ("inlining and closure elimination", C + "jitopt.c"), ("free and assigned variable analysis", C + "jitanalyze.c"), ("register machine", C + "eval.c")])
ref("P02", "Argument passing and arity are exact for every procedure shape",
    "A call binds exactly its arguments to the parameters in order, collects surplus arguments of a variadic procedure in a fresh list, and picks the first matching clause of a multi-clause procedure. "
    "A call with a number of arguments that no clause accepts, or of something that is not a procedure, is always reported as an error, and the reported arity of a procedure is exactly the set of counts it accepts.",
    ["programs"], "every combination of parameter lists and argument counts up to 20+ (thorough: hundreds), clause combinations, calling styles (direct, apply, map, values receivers), and every procedure of the initial environment",
    "Tests call procedures with a handful of argument counts; stack layout and register allocation depend on the count and the calling context.",
    [C + "eval.c", C + "jitcompile.c", C + "procedure.c"], [("argument frames and rest lists", C + "eval.c"), ("clause dispatch", C + "jitcompile.c"), ("apply", C + "eval.c")])
ref("P03", "Recursion depth is limited only by memory, and tail calls use no space",
    "Non-tail recursion of any depth returns the same result as shallow recursion, at whatever depth the control stack has to grow, and with any number of values, arguments or pending frames live at that moment. "
    "Loops made of tail calls run in constant memory.",
    ["programs", "configurations"], "every recursion depth around the growth points of the stack for every frame shape, argument count and calling context of a family; loops of a hundred thousand to millions of tail calls in each tail position",
    "Tests never grow the control stack at all positions; a frame straddling a segment boundary shows only at specific depths and sizes.",
    [C + "eval.c", C + "frame.c", C + "thread.c"], [("stack segments and underflow", C + "frame.c"), ("tail calls", C + "eval.c")])
prop("P04", "No call of any procedure can crash the system",
     "Applying any public procedure to any values, in any number, returns or reports an error; it never corrupts memory, crashes, or ends the process silently. The same holds for any value placed in any syntactic position of a program.",
     ["inputs"], "every public procedure applied to all tuples over a pool of every kind of value (35 values for one and two arguments, smaller pools for three to six), extreme integers, and every value in every position of every core form",
     "Tests pass well-typed arguments; memory safety must hold for every misuse.",
     ["src/core/c", PRE], [("argument contracts", PRE), ("primitives", C + "prim.c")],
     "exhaustive enumeration of calls on the address-sanitized real code", LAWNOTE + " Runs on a build with AddressSanitizer and a malloc-backed allocator, so stray accesses are seen.")
ref("P05", "Arithmetic and comparison on integers are exact",
    "Integer procedures return the mathematically exact result for every operand combination whose result is representable, with quotient, remainder and modulo following their sign conventions, and comparisons decide the whole chain of operands. Division by zero and non-numeric operands are reported as errors.",
    ["inputs"], "all pairs of a dense range and of boundary values, all triples and longer operand lists over small pools, and every calling style (direct, curried through variables, apply, map)",
    "Tests check a few sums; sign and boundary cases are combinatorial.",
    [C + "number.c", PRE, C + "jitopt.c"], [("fixnum primitives", C + "number.c"), ("n-ary operators", PRE)])
ref("P06", "Pairs and lists keep structure, sharing and order under every operation",
    "Construction, selection, mutation, append, reverse, mapping and searching over lists give the structure, sharing and left-to-right effects their definitions prescribe for every list and pair structure. Improper, unequal or non-list arguments are reported as errors that name the called procedure.",
    ["inputs", "histories"], "every pair structure up to four pairs, every list up to a length, every pairing of mapper and lists, and every history of mutations up to a depth over shared structures",
    "Tests use proper lists of two or three elements.", [C + "list.c", PRE], [("list procedures", PRE), ("primitive pairs", C + "list.c")])
ref("P07", "Strings, characters and symbols behave as sequences of characters",
    "String construction, indexing, mutation, copying, conversion and comparison give exactly the characters their definitions prescribe, mutations touch only the addressed string, and conversions between strings, lists, symbols, characters and numbers invert each other. Out-of-range indices and arguments of the wrong kind are reported as errors.",
    ["inputs", "histories"], "all strings over a small alphabet with all indices, all byte characters, lengths through buffer sizes, and every mutation history up to a depth over aliased strings",
    "Tests use a few literals.", [C + "string.c", C + "char.c", C + "symbol.c", PRE], [("string primitives", C + "string.c"), ("string procedures", PRE)])
ref("P08", "Vectors and boxes hold exactly what was stored",
    "Vectors and boxes return the last value stored at each position, mutation of one object never shows in another object, and conversions to and from lists keep order and length. Out-of-range indices and arguments of the wrong kind are reported as errors.",
    ["inputs", "histories"], "all lengths and indices of a range and every history of operations up to a depth over aliased vectors and boxes", "Tests read back a few positions.",
    [C + "vector.c", C + "box.c", PRE], [("vector primitives", C + "vector.c"), ("vector procedures", PRE)])
ref("P09", "Equality is an equivalence and hashing agrees with it",
    "eq? and equal? decide identity and structural equality for every pair of values, as reflexive, symmetric and transitive relations, honouring the equality a record type defines. Values that are equal have equal hashes.",
    ["inputs"], "all pairs of a pool of over a hundred values of every kind and nesting, records with inherited and own equality, and hashtables of every small content", "Tests compare a few literals; the law ranges over pairs.",
    [C + "object.c", C + "hashtable.c", PRE], [("structural equality and hashing", PRE), ("hash primitives", C + "hashtable.c")])
ref("P10", "A hashtable behaves as a finite map under every history",
    "After any history of insertions, updates, deletions, copies and clearings a hashtable holds exactly the keys a finite map would, with the last value of each, whatever collisions and resizings happened on the way. Copies are independent, and key, value and entry listings and the size agree with the content.",
    ["histories"], "every history up to a depth over colliding, equal, eq-comparable and custom keys, and every size through several growth and shrink thresholds", "Tests insert a few keys; resizing and collisions need specific sizes and hashes.",
    [C + "hashtable.c", PRE], [("bucket arrays and resizing", PRE), ("hash primitives", C + "hashtable.c")])
prop("P11", "Interning gives one symbol per name, always",
     "Two symbols with the same spelling that were read or converted from strings are the same object, and symbols with different spellings are different, however many symbols were interned in between. Generated symbols are different from every other symbol.",
     ["histories"], "every size of the symbol table through its growth thresholds, every short name, and every early symbol re-checked after each growth", "Tests intern too few symbols to resize the table.",
     [C + "symbol.c"], [("intern table and resizing", C + "symbol.c")], "exhaustive enumeration of interning histories on the real code", LAWNOTE)
ref("P12", "Environments isolate definitions and evaluation",
    "Definitions, assignments and evaluations in one environment are visible exactly through that environment and the procedures made in it, never in copies or other environments, and evaluating in an environment restores the previous one afterwards. An environment keeps every binding however many are added.",
    ["histories"], "every history up to a depth of definitions, assignments, evaluations, copies and closure creations over three environments, every expression kind in every environment and context, and every environment size through its growth thresholds",
    "Tests evaluate in the one top-level environment.", [C + "env.c", C + "eval.c", C + "jitprims.c", PRE], [("top-level environment tables", C + "env.c"), ("eval", C + "jitprims.c")])
ref("P13", "Records keep their fields, types and inheritance",
    "Every record returns for each field the value last stored in it, through the accessors of its own type and of every ancestor, and predicates accept exactly the instances of a type and its descendants. Sealed, opaque, immutable-field and constructor-arity rules are enforced, and custom equality, hashing and printing are inherited.",
    ["inputs", "histories"], "every type hierarchy up to three levels with every small field list and flag combination, every mutation history up to a depth, field counts and inheritance depths through wide ranges, and every misuse of a descriptor argument",
    "Tests define one or two record types.", [C + "record.c", PRE], [("field offsets and inheritance", PRE), ("record primitives", C + "record.c")])


NA = []
try:
    import props2
    props2.extend(prop, ref, NA, LAWNOTE, REFNOTE, REFTECH, C, PRE)
except ImportError:  # not written yet
    pass


def main():
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(root, "properties.jsonl"), "w") as fh:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            fh.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
                                 "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p["observe"] or ["program results, output and exit status"], "hook_needed": None}}) + "\n")
    na = {n["property"] for n in NA}
    man = {"version": 1, "setup_cmd": "python3 -c \"from mc import build; build.get(('rel', 'asan'))\"",
           "checks": [{"property": p["id"], "quick_cmd": "python3 checks/run.py %s quick" % p["id"], "thorough_cmd": "python3 checks/run.py %s thorough" % p["id"], "evidence_file": "evidence/%s.json" % p["id"],
                       "technique": p["technique"], "level": p["level"], "level_note": p["note"]} for p in P if p["id"] not in na],
           "not_applicable": NA, "notes": "Every check rebuilds what it needs from /repo's working tree into /verif/build (keyed by content); no hooks are compiled into /repo."}
    with open(os.path.join(root, "MANIFEST.json"), "w") as fh:
        json.dump(man, fh, indent=1)
        fh.write("\n")


main()
