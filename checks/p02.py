"""P02: every way of passing arguments and values, for every count up to a bound."""
import itertools
from mc.gen import PRE


def xs(n, p="x", a=0):
    return " ".join("%s%d" % (p, i) for i in range(a, n))


def ks(n, a=0):
    return " ".join(str(i + 100) for i in range(a, n))


def fam(n, k):
    """Families with n parameters and k arguments."""
    rest = "(lambda (%s . r) (list %s r))" % (xs(n), xs(n)) if n else "(lambda r (list r))"
    yield "((lambda (%s) (list %s)) %s)" % (xs(n), xs(n), ks(k))
    yield "(%s %s)" % (rest, ks(k))
    f = "(define-values (f) (lambda (%s) (list %s))) " % (xs(n), xs(n))
    g = "(define-values (f) %s) " % rest
    for d in (f, g):
        yield d + "(f %s)" % ks(k)
        yield d + "(list (f %s) (f %s))" % (ks(k), ks(k))
        yield d + "(apply f '(%s))" % ks(k)
        yield d + "(list (apply f '(%s)))" % ks(k)
        if k:
            yield d + "(apply f 100 '(%s))" % ks(k, 1)
        if k > 2:
            yield d + "(list (apply f %s '(%s)))" % (ks(k - 1), ks(k, k - 1))
            yield d + "(apply f %s '())" % ks(k)
        yield d + "(call-with-values (lambda () (values %s)) f)" % ks(k)
        yield d + "(list (call-with-values (lambda () (values %s)) f))" % ks(k)
        yield d + "(call-with-values (lambda () (apply values '(%s))) f)" % ks(k)
        yield d + "(list 7 (call-with-values (lambda () (let-values ([(q) 1]) (values %s))) f) 8)" % ks(k)
        yield d + "((lambda (h) (h %s)) f)" % ks(k)
        yield d + "((lambda l (apply f l)) %s)" % ks(k)
        yield d + "(procedure-arity f)"
    yield "(list (let-values ([(%s) (values %s)]) (list %s)))" % (xs(n), ks(k), xs(n))
    yield "(let-values ([(a) 1] [(%s) (values %s)] [(b) 2]) (list a b %s))" % (xs(n), ks(k), xs(n))
    yield "(letrec-values ([(a) 1] [(%s) (values %s)] [(b) (lambda () (list %s))]) (b))" % (xs(n), ks(k), xs(n))
    yield "(define-values (%s) (values %s)) (list %s)" % (xs(n), ks(k), xs(n))
    yield "(define-values (%s) (apply values '(%s))) (list %s)" % (xs(n), ks(k), xs(n))


def clauses(n, k):
    """case-lambda with n clauses of growing arity, k arguments; also in shrinking order and with a rest clause."""
    up = " ".join("[(%s) (list 'c%d %s)]" % (xs(i), i, xs(i)) for i in range(n))
    down = " ".join("[(%s) (list 'c%d %s)]" % (xs(i), i, xs(i)) for i in reversed(range(n)))
    for body in (up, down):
        for tail in ("", " [(%s . r) (list 'rest %s r)]" % (xs(n + 1), xs(n + 1)), " [r (list 'any r)]"):
            d = "(define-values (f) (case-lambda %s%s)) " % (body, tail)
            yield d + "(f %s)" % ks(k)
            yield d + "(list (f %s) (procedure-arity f))" % ks(k)
            yield d + "(apply f '(%s))" % ks(k)
            yield d + "(list 1 (call-with-values (lambda () (values %s)) f))" % ks(k)


def sizes(n):
    """One-parameter families: locals, frees, nesting, sequences."""
    if n:
        yield "(let-values (%s) (list %s))" % (" ".join("[(x%d) %d]" % (i, i + 100) for i in range(n)), xs(n))
        yield "(letrec-values (%s) (list %s))" % (" ".join("[(x%d) (lambda () %d)]" % (i, i + 100) for i in range(n)),
                                                 " ".join("(x%d)" % i for i in range(n)))
        yield "(letrec-values (%s) (x0))" % " ".join(
            "[(x%d) (lambda () %s)]" % (i, "(list %d (x%d))" % (i, i + 1) if i + 1 < n else "'end") for i in range(n))
        e = "(list %s)" % xs(n)
        f = "(lambda () (list %s))" % xs(n)
        g = "(lambda (y) (begin (set! x0 y) (lambda () (list %s))))" % xs(n)
        for i in reversed(range(n)):
            e = "(let-values ([(x%d) %d]) %s)" % (i, i + 100, e)
            f = "(lambda (x%d) %s)" % (i, f)
            g = "(lambda (x%d) %s)" % (i, g)
        yield e
        app = lambda h, m: "(" * m + h + "".join(" %d)" % (i + 100) for i in range(m))
        yield "(%s)" % app(f, n)
        yield "((%s 7))" % app(g, n)
        yield "((lambda (%s) ((lambda (y) (begin (set! x%d y) (list %s))) 9)) %s)" % (xs(n), n - 1, xs(n), ks(n))
        yield "((lambda (%s) (begin (set! x0 1) (set! x%d 2) ((lambda () (list %s))))) %s)" % (xs(n), n - 1, xs(n), ks(n))
    yield "(begin %s 5)" % " ".join("(display %d)" % (i % 10) for i in range(n))
    yield "((lambda () %s 5))" % " ".join("(display %d)" % (i % 10) for i in range(n))
    yield "(list %s)" % " ".join("(p %d)" % i for i in range(n))
    yield "(vector %s)" % ks(n)
    yield "(append %s)" % " ".join("'(%d)" % i for i in range(n))
    yield "(string-append %s)" % " ".join('"%d"' % i for i in range(n))
    yield "(+ %s)" % ks(n)
    yield "(* %s)" % " ".join("1" for i in range(n))
    if n:
        yield "(string %s)" % " ".join("#\\a" for i in range(n))
        yield "(- %s)" % ks(n)
        yield "(< %s)" % ks(n)
        yield "(= %s)" % " ".join("1" for i in range(n))
        yield "(map (lambda (%s) (list %s)) %s)" % (xs(n), xs(n), " ".join("'(%d %d)" % (i, i + 50) for i in range(n)))
        yield "(for-each (lambda (%s) (display (list %s))) %s)" % (xs(n), xs(n), " ".join("'(%d %d)" % (i, i + 50) for i in range(n)))
        yield "(andmap (lambda (%s) (list %s)) %s)" % (xs(n), xs(n), " ".join("'(%d %d)" % (i, i + 50) for i in range(n)))
        yield "(ormap (lambda (%s) (list %s)) %s)" % (xs(n), xs(n), " ".join("'(%d %d)" % (i, i + 50) for i in range(n)))
    e = "1"
    for i in range(n):
        e = "(list %s)" % e
    yield e
    e = "x"
    for i in range(n):
        e = "((lambda (y) (list y x)) %s)" % e
    yield "((lambda (x) %s) 1)" % e
    e = "1"
    for i in range(n):
        e = "(if #t %s 2)" % e
    yield e
    e = "1"
    for i in range(n):
        e = "(begin (display %d) %s)" % (i % 10, e)
    yield e


def shapes():
    """case-lambda with every sequence of up to three clause shapes, every argument count."""
    import itertools
    sh = ["()", "(a)", "(a b)", "(a b c)", "r", "(a . r)", "(a b . r)", "(a b c . r)"]
    for m in (1, 2, 3):
        for cs in itertools.product(sh, repeat=m):
            body = " ".join("[%s (list %d %s)]" % (s, i, s.replace("(", "").replace(")", "").replace(". ", "")) for i, s in enumerate(cs))
            for k in range(6):
                yield "((case-lambda %s) %s)" % (body, ks(k))
                yield "(define-values (f) (case-lambda %s)) (list (f %s) (procedure-arity f))" % (body, ks(k))
            yield "(define-values (f) (case-lambda %s)) (list (procedure-arity f) (procedure-name f) (procedure-arity (procedure-rename f 'g)))" % body


FIXED = {"car": 1, "cdr": 1, "cons": 2, "set-car!": 2, "caddr": 1, "length": 1, "reverse": 1, "vector-ref": 2, "vector-set!": 3,
         "string-ref": 2, "add1": 1, "remainder": 2, "not": 1, "eq?": 2, "equal?": 2, "null?": 1, "call-with-values": 2, "raise": 1,
         "identity": 1, "box": 1, "unbox": 1, "set-box!": 2, "procedure-rename": 2, "datum->syntax": 1, "syntax-e": 1,
         "symbol->string": 1, "list": (0, None), "vector": (0, None), "append": (0, None), "string-append": (0, None), "+": (0, None),
         "*": (0, None), "-": (1, None), "values": (0, None), "apply": (2, None), "map": (2, None),
         "for-each": (2, None), "andmap": (2, None), "ormap": (2, None), "pair?": 1, "procedure-arity": 1, "procedure?": 1,
         "string->list": 1, "eof-object?": 1, "hashtable-size": 1}
LIM = 40


def accepts(v):
    """The set of argument counts (below LIM) an arity value stands for."""
    v = v.strip()
    if v.isdigit():
        return {int(v)}
    out, w = set(), v.strip("()").split()
    for i, x in enumerate(w):
        if x == ".":
            assert w[i + 1] == "#f"
            return out | set(range(int(w[i - 1]), LIM))
        out.add(int(x))
    return out


def wrong(n):
    """Wrong argument counts for fixed-arity primitives in every calling style."""
    for f, m in FIXED.items():
        if n == m or isinstance(m, tuple):
            continue
        if f in ("datum->syntax",):
            continue
        yield "(%s %s)" % (f, ks(n))
        yield "(list (%s %s))" % (f, ks(n))
        yield "(apply %s '(%s))" % (f, ks(n))
        yield "(list (apply %s '(%s)))" % (f, ks(n))
        yield "(call-with-values (lambda () (values %s)) %s)" % (ks(n), f)
        yield "((lambda (f) (f %s)) %s)" % (ks(n), f)
        yield "(map %s %s)" % (f, " ".join("'(1)" for i in range(n))) if n else "(%s)" % f


def run(c):
    N = c.q(12, 16)
    c.diff("n parameters, k arguments", [p for n in range(N) for k in range(N) for p in fam(n, k)])
    big = c.q([10, 16, 17, 31, 32, 33, 64, 127, 128, 129], [10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300])
    c.diff("many parameters", [p for n in big for k in (n - 1, n, n + 1) for p in fam(n, k)])
    M = c.q(7, 10)
    c.diff("case-lambda clauses", [p for n in range(M) for k in range(M + 3) for p in clauses(n, k)])
    c.diff("clause shapes", shapes())
    c.diff("sizes", [PRE + p for n in c.q(list(range(0, 70)) + [100, 127, 128, 129, 200, 255, 256, 257], list(range(0, 140)) + [200, 255, 256, 257, 400]) for p in sizes(n)])
    ar = [("(procedure-arity %s)", "%s"), ("(procedure-arity (procedure-rename %s 'other))", "%s")]
    progs = [(w % f, set(range(m[0], LIM)) if isinstance(m, tuple) else {m}) for f, m in FIXED.items() for w, _ in ar]
    c.diff("arity of primitives", [p for p, _ in progs], expect=[m for _, m in progs],
           same=lambda e, r: r.k == "V" and accepts(r.v) == e)
    sh = ["(a)", "(a b)", "(a . r)", "r", "()"]
    fs = ["(lambda %s 1)" % x for x in sh] + ["(case-lambda %s)" % " ".join("[%s %d]" % (x, i) for i, x in enumerate(t)) for n in (2, 3) for t in itertools.product(sh, repeat=n)]
    fs += ["car", "list", "make-vector", "apply"]
    c.diff("changing a reported arity", ["(define-values (f) %s) (let-values ([(l) (procedure-arity f)]) %s) (write (procedure-arity f)) (write (procedure-arity (procedure-rename f 'g))) (f %s)" % (f, m, k)
           for f in fs for m in ("(if (pair? l) (set-car! l 'x) 0)", "(if (pair? l) (set-cdr! l 'x) 0)", "(if (pair? l) (if (pair? (cdr l)) (set-car! (cdr l) 7) 0) 0)", "(if (pair? l) (if (pair? (car l)) (begin (set-car! (car l) 5) (set-cdr! (car l) 5)) 0) 0)") for k in ("", "1 2 3 4 5")])
    c.diff("wrong counts for primitives", [p for n in range(0, 6) for p in wrong(n)])
    bad = ["5", "'a", '"s"', "#t", "'()", "(vector)", "(list 1)", "(void)", "#\\a", "(box 1)"]
    c.diff("applying a non-procedure", [w % b for b in bad for w in
           ("(%s)", "(%s 1)", "(list (%s 1 2))", "(apply %s '())", "(apply %s 1 '(2))", "(call-with-values %s list)",
            "(call-with-values (lambda () 1) %s)", "(list (call-with-values (lambda () (values 1 2)) %s))", "(map %s '(1))", "((lambda (f) (f 1)) %s)")])
    c.diff("improper last argument of apply", ["(apply %s %s)" % (f, a) for f in ("list", "car", "(lambda r r)")
           for a in ("1", "1 2", "'(1 . 2)", "1 '(2 . 3)", "#f", '"s"', "(vector 1)")])
