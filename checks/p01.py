"""P01: every small core program evaluates to what the language definition says."""
import itertools
from mc.gen import Core, PRE, number

FULL = ["lambda0", "lambda1", "lambda2", "rest", "rest1", "case-lambda", "set!", "call0", "call1", "call2", "begin", "list",
        "let1", "let2", "letrec1", "letrec2", "letv", "letrecv", "cwv", "values", "if"]
CLO = ["lambda0", "lambda1", "set!", "call0", "call1", "list", "let1", "begin"]
REC = ["lambda0", "lambda1", "set!", "call0", "letrec1", "letrec2", "if", "begin"]
VAL = ["lambda0", "values", "cwv", "letv", "letrecv", "lambda2", "begin", "if", "let1", "call0"]

OBS = PRE + "(define-values (o) (lambda (v) (if (procedure? v) (list 'P (v 7)) v))) "


def top(es):
    for e in es:
        yield PRE + number(e)


def twice(es):
    """The expression is the body of a procedure called twice; its results are observed."""
    for e in es:
        yield OBS + "(define-values (f) (lambda (x0) %s)) (let-values ([(a) (f 41)] [(b) (f 42)]) (list (o a) (o b) (o a)))" % number(e)


def inside(es):
    """The expression in a nested, non-tail position with free variables of two enclosing procedures."""
    for e in es:
        yield PRE + "((lambda (x0) ((lambda (x1) (call-with-values (lambda () (list 0 %s x1 x0)) list)) 32)) 31)" % number(e)


def scoped2(es):
    """The expression where both names are bound already, so every binder shadows."""
    for e in es:
        yield PRE + "((lambda (x y) (list %s x y)) 31 32)" % number(e)


def scoped3(es):
    for e in es:
        yield PRE + "(call-with-values (lambda () (values 30 31)) (lambda (x y) ((lambda (x) (begin %s (list x y))) 32)))" % number("(p %s)" % e)


ATOMS = ["K", "w", "(begin)", "((lambda () (begin)))", "(values)", "(values K)", "(values K K)", "(p K)", "(begin (p K) (begin))", "(begin (begin) (p K))", "(set! w (p K))", "(if (p K) (begin) K)", "(if #f K (begin))", "(quote (a))", "(let-values () (begin))",
         "(let-values ([() (values)]) (p K))", "(call-with-values (lambda () (values)) list)", "(lambda () (begin))", "(lambda r r)", "(case-lambda [() (begin)] [(q) q])", "((case-lambda [() K] [(q) q]))", "((case-lambda [() K] [(q) q]) K)", "(apply list '())",
         "(apply values (list K K))", "(vector)", "#()", "()", "(quote ())", "car", "((lambda r r))", "((lambda r (begin)) K)", "(letrec-values ([(q) (lambda () w)]) (q))", "(letrec-values () (begin))", "(call-with-values (lambda () (begin)) list)",
         "(call-with-values (lambda () (p K)) (lambda r r))", "(quote-syntax (a))", "(let-values ([(q) (begin)]) (p K))", "(if w w)"]
POSITIONS = ["@", "(list @ (p K))", "(list (p K) @)", "(@)", "(@ K)", "(begin @ (p K))", "(begin (p K) @)", "(begin @)", "(if @ (p K) (p K))", "(if (p K) @ K)", "(if #f K @)", "((lambda () @))", "((lambda () @ (p K)))", "((lambda (q) (list q w)) @)", "((lambda (q . r) r) K @)",
             "(let-values ([(q) @]) (list q w))", "(let-values ([(q) K] [(r) @]) (list r q))", "(let-values ([() @]) (p K))", "(let-values ([(q r) @]) (list r q))", "(let-values ([q @]) q)", "(let-values ([(q) (p K)]) @)", "(let-values ([(w) (p K)]) @)",
             "(letrec-values ([(q) @]) (list q w))", "(letrec-values ([(q) (lambda () r)] [(r) @]) (q))", "(letrec-values ([(q) (p K)]) @)", "(set! z @)", "(begin (set! z @) z)", "(begin (set! w @) (list w z))", "(values @)", "(values @ K)", "(values K @)", "(call-with-values (lambda () @) list)",
             "(call-with-values (lambda () (p K) @) (lambda r r))", "(call-with-values (lambda () @) (lambda (q) q))", "(call-with-values (lambda () @) (lambda (q . r) (list r q)))", "(call-with-values (lambda () (values K K)) (lambda r @))", "(call-with-values @ list)",
             "(call-with-values (lambda () @) (case-lambda [() 'none] [(q) (list q)] [r r]))", "((case-lambda [() @] [(q) (p K)]))", "((case-lambda [() (p K)] [(q) @]) K)", "((case-lambda [(q r) K] [(q . r) (list q r)]) @)", "(apply list (list @))", "(apply list @)", "(apply @ (list K))",
             "(lambda (q) @)", "(list ((lambda () @)) w)", "(vector @ w)"]


def scopes(kinds, widths):
    """Nested scopes of given kinds and widths around a body that reads, assigns or captures every variable."""
    names = [["v%d-%d" % (i, j) for j in range(w)] for i, w in enumerate(widths)]
    allv = [x for ns in names for x in ns]
    every = "(list %s)" % " ".join(allv)

    def wrap(body):
        for i in reversed(range(len(kinds))):
            ns = names[i]
            ini = ["(quote %s)" % x if i == 0 or j % 2 else "(cons %s '%s)" % (names[i - 1][j % len(names[i - 1])], x) for j, x in enumerate(ns)]
            body = {"lambda": lambda: "((lambda (%s) %s) %s)" % (" ".join(ns), body, " ".join(ini)),
                    "rest": lambda: "((lambda (%s . %s) %s) %s)" % (" ".join(ns[:-1]), ns[-1], body, " ".join(ini)) if len(ns) > 1 else "((lambda %s %s) %s)" % (ns[0], body, ini[0]),
                    "let": lambda: "(let-values (%s) %s)" % (" ".join("[(%s) %s]" % t for t in zip(ns, ini)), body),
                    "values": lambda: "(let-values ([(%s) (values %s)]) %s)" % (" ".join(ns), " ".join(ini), body),
                    "letrec": lambda: "(letrec-values (%s) %s)" % (" ".join("[(%s) %s]" % t for t in zip(ns, ini)), body)}[kinds[i]]()
        return body
    yield wrap(every)
    yield wrap("(begin %s %s)" % (" ".join("(set! %s (list %s))" % (x, x) for x in reversed(allv)), every))
    yield "(%s)" % wrap("(lambda () %s)" % every)
    for x in allv:
        yield wrap("(let-values ([(get put) (values (lambda () %s) (lambda (n) (set! %s n)))]) (begin (put 'new) (list (get) %s)))" % (every, x, x))


def run(c):
    for nm, size in (("fresh", c.q(4, 5)), ("shadow", 5), ("mod2", c.q(4, 5))):
        g = Core(FULL, nm)
        for s in range(1, size + 1):
            c.diff("all core forms, size %d, %s names" % (s, nm), top(g.exprs(s, 0)))
    g2, g3 = Core(FULL, "mod2", atoms=("K",), maxvars=5), Core(FULL, "mod2", atoms=("K",), maxvars=6)
    for s in range(1, 6):
        c.diff("everything shadows, size %d" % s, scoped2(g2.exprs(s, 2)))
        if s < c.q(5, 6):
            c.diff("everything shadows, deeper, size %d" % s, scoped3(g3.exprs(s, 3)))
    g = Core(FULL, "fresh", atoms=("K",), maxvars=4)
    for s in range(1, 6):
        c.diff("body called twice, size %d" % s, twice(g.exprs(s, 1)))
        if s <= 4:
            c.diff("nested in procedures, size %d" % s, inside(g.exprs(s, 2)))
    for forms, label, s0, s1 in ((CLO, "closures and assignment", 5, c.q(5, 6)), (REC, "recursive bindings", 5, c.q(5, 6)),
                                 (VAL, "multiple values", 5, c.q(5, 6))):
        for nm in ("fresh", "shadow"):
            g = Core(forms, nm, atoms=("K",), maxvars=4)
            for s in range(s0, s1 + 1):
                c.diff("%s, twice, size %d, %s" % (label, s, nm), twice(g.exprs(s, 1)))
            g = Core(forms, nm, atoms=("K",), maxvars=3)
            c.diff("%s, size %d, %s" % (label, s1 + 1, nm), top(g.exprs(s1 + 1, 0)))
    # scopes of every kind and width around each other
    w = []
    for d in range(1, 5):
        for ks in itertools.product(("lambda", "rest", "let", "values", "letrec"), repeat=d):
            if d == 4 and len(set(ks)) > 2 and not c.thorough:
                continue
            for ws in itertools.product(((1, 2, 3, 5), (1, 2, 3, 5), (1, 3), (1, 2))[d - 1], repeat=d):
                w += [PRE + p for p in scopes(ks, ws)]
    c.diff("scopes of every kind and width", w)
    # every kind of expression, degenerate ones too, in every position of every form, positions nested
    w = [PRE + "(define-values (w z) (values 5 6)) " + number(p2.replace("@", p1.replace("@", a))) for p2 in POSITIONS for p1 in POSITIONS for a in ATOMS]
    if c.thorough:
        w += [PRE + "(define-values (w z) (values 5 6)) " + number(p3.replace("@", p2.replace("@", p1.replace("@", a)))) for p3 in POSITIONS for p2 in POSITIONS for p1 in POSITIONS for a in ATOMS[:16]]
    c.diff("every expression in every position", list(dict.fromkeys(w)))
    # syntax errors: every form with every kind of damage is rejected, not evaluated
    bad = []
    forms = ["(quote)", "(quote 1 2)", "(quote . 1)", "(if)", "(if 1)", "(if 1 2)", "(if 1 2 3 4)", "(if 1 2 3 . 4)", "(lambda)",
             "(lambda x)", "(lambda (x))", "(lambda (1) 1)", "(lambda (x . 1) 1)", "(lambda x . 1)", "(lambda (x) 1 . 2)", "(lambda 1 1)",
             "(case-lambda)", "(case-lambda 1)", "(case-lambda [])", "(case-lambda [x])", "(case-lambda [(x)])", "(case-lambda [(1) 2])",
             "(case-lambda [x 1] . 2)", "(case-lambda [x 1] 2)",
             "(let-values)", "(let-values ())", "(let-values x 1)", "(let-values ((x 1)) 1)", "(let-values (((x))) 1)",
             "(let-values (((x) 1 2)) 1)", "(let-values (((1) 1)) 1)", "(let-values (((x) 1) . 2) 1)", "(let-values (((x . y) 1)) 1)",
             "(letrec-values)", "(letrec-values ())", "(letrec-values x 1)", "(letrec-values ((x 1)) 1)", "(letrec-values (((x))) 1)",
             "(letrec-values (((x) 1 2)) 1)", "(letrec-values (((x) . 1)) 1)", "(set!)", "(set! p)", "(set! p 1 2)", "(set! 1 2)",
             "(set! (p) 2)", "(set! p . 1)", "(begin . 1)", "(begin 1 . 2)", "(define-values)", "(define-values (x))",
             "(define-values x 1)", "(define-values (x) 1 2)", "(define-values (1) 1)", "(define-values (x . y) 1)", "()", "(1 . 2)",
             "(p . 1)", "(p 1 . 2)", "(quote-syntax)", "(quote-syntax 1 2)", "((if) 1)"]
    for f in forms:
        bad.append(PRE + f)
        for ctx in ("(list (p 1) %s)", "(begin (p 1) %s)", "(if #t (p 1) %s)", "(lambda () %s)", "(let-values ([(q) %s]) 1)",
                    "(let-values ([(q) 1]) %s)", "(letrec-values ([(q) %s]) 1)", "(letrec-values ([(q) 1]) (p 1) %s)",
                    "(case-lambda [(x) 1] [(y z) %s])", "(define-values (q) %s)", "(%s 1)", "(set! p %s)",
                    "(call-with-values (lambda () (p 1)) %s)", "(values (p 1) %s)", "(begin (p 1) (begin %s (p 2)))", "(if %s (p 1) 2)"):
            if "define-values" not in f:
                bad.append(PRE + ctx % f)
    c.diff("malformed forms in every position", bad, expect=[("E", "1", "")] * len(bad))
    good = ["(begin)", "(lambda () (begin))", "(let-values () 1)", "(letrec-values () (begin) 2)", "((lambda x x))", "((case-lambda [x x]) 1 2)",
            "(define-values () (values))", "(let-values ([() (values)]) 3)", "((lambda () 1 2 3))", "(quote (quote))", "(quote (if . 1))",
            "'()", "'(1 . 2)", "#(1 a (b))", '"s"', "#\\a", "#t", "#f", "(if #f 1 2)", "(if '() 1 2)", "(if 0 1 2)", '(if "" 1 2)']
    c.diff("edge forms that are legal", [PRE + g for g in good])
    c.assumptions.append("programs whose meaning the definition leaves open (duplicate binders, values in a test position) are skipped")
