"""P05: integer arithmetic and comparison over every tuple of a value set."""
import itertools

B = sorted({0, 1, -1, 2, -2, 3, -3, 5, 7, -7, 10, -10, 63, 64, 255, 256, -256, 1000, -1000, 65535, 65536, 2 ** 31 - 1, 2 ** 31, -2 ** 31, -2 ** 31 - 1,
            2 ** 32, 2 ** 32 + 1, -2 ** 32, 10 ** 12, -10 ** 12 - 7, 2 ** 53 + 1, 2 ** 60, -2 ** 60, 2 ** 61 - 1, -2 ** 61})
ONE = ["add1", "sub1", "zero?", "positive?", "negative?", "non-negative?", "positive-integer?", "negative-integer?", "non-negative-integer?",
       "integer?", "number?", "fixnum?", "-", "+", "*", "number->string", "=", "<", ">", "<=", ">=", "eq-hash", "not", "identity"]
TWO = ["+", "-", "*", "/", "remainder", "modulo", "=", "<", ">", "<=", ">=", "eq?", "equal?"]
NARY = ["+", "-", "*", "=", "<", ">", "<=", ">="]


def run(c):
    ps = ["(%s %d)" % (f, a) for f in ONE if f != "eq-hash" for a in B]
    ps += ["(string->number (number->string %d))" % a for a in B]
    ps += ["(= (eq-hash %d) (eq-hash (add1 %d)))" % (a, a - 1) for a in B] + ["(= (equal-hash %d) (equal-hash (add1 %d)))" % (a, a - 1) for a in B]
    c.diff("one argument", ps)
    rng = range(-c.q(60, 140), c.q(61, 141))
    c.diff("two arguments, small", ["(%s %d %d)" % (f, a, b) for f in TWO for a in rng for b in rng])
    c.diff("two arguments, boundary values", ["(%s %d %d)" % (f, a, b) for f in TWO for a in B for b in B])
    small = [-3, -2, -1, 0, 1, 2, 3]
    c.diff("three arguments", ["(%s %d %d %d)" % ((f,) + t) for f in NARY + ["/"] for t in itertools.product(c.q(small, [-7] + small + [6, 12]), repeat=3)])
    k = [-1, 0, 1, 2]
    for n in (4, 5) + ((6,) if c.thorough else ()):
        c.diff("%d arguments" % n, ["(%s %s)" % (f, " ".join(map(str, t))) for f in NARY for t in itertools.product(k if n < 6 else k[:3], repeat=n)])
    # algebraic laws observed on the implementation, quotient and remainder together
    laws = []
    for a in list(rng) + B:
        for b in [x for x in (-9, -8, -7, -5, -3, -2, -1, 1, 2, 3, 4, 6, 7, 10, 97, 2 ** 31, -2 ** 33)]:
            laws.append("(list (+ (* (/ %d %d) %d) (remainder %d %d)) (- %d (- %d %d)) (+ (- %d) %d) (= %d %d) (< %d %d) (> %d %d))" % (a, b, b, a, b, a, a, b, b, b, a, b, a, b, a, b))
    c.diff("laws", laws)
    # compiled forms: the operators as values, in tail position, through apply, in conditions, with locals
    vals = [-2 ** 31, -7, -1, 0, 1, 2, 7, 2 ** 32]
    ctx = ["((lambda (f) (f %(a)d %(b)d)) %(f)s)", "(apply %(f)s '(%(a)d %(b)d))", "((lambda (x y) (%(f)s x y)) %(a)d %(b)d)",
           "(let-values ([(x y) (values %(a)d %(b)d)]) (list (%(f)s x y) x y))", "((lambda (x) ((lambda (y) (%(f)s y x)) %(a)d)) %(b)d)",
           "(if (%(f)s %(a)d %(b)d) 'yes 'no)", "(map %(f)s '(%(a)d %(b)d) '(%(b)d %(a)d))", "((lambda (x) (%(f)s x x)) %(a)d)",
           "(call-with-values (lambda () (values %(a)d %(b)d)) %(f)s)", "(let-values ([(x) %(a)d]) (begin (set! x (%(f)s x %(b)d)) x))",
           "((lambda (x . r) (apply %(f)s x r)) %(a)d %(b)d)", "(begin (define-values (x) %(a)d) (%(f)s x %(b)d))"]
    ctx = [x for x in ctx if "define" not in x]
    c.diff("operators in every calling style", [w % {"f": f, "a": a, "b": b} for w in ctx for f in TWO for a in vals for b in vals])
    # wrong operands in every position
    bad = ["'a", '"1"', "#t", "'()", "(list 1)", "#\\1", "(void)", "car"]
    ps = []
    for f in ["+", "-", "*", "/", "remainder", "modulo", "=", "<", ">", "<=", ">=", "add1", "sub1", "zero?", "positive?", "negative?", "non-negative?"]:
        for x in bad:
            ps += ["(%s %s)" % (f, x), "(%s %s 1)" % (f, x), "(%s 1 %s)" % (f, x), "(%s 1 2 %s)" % (f, x), "(%s 1 %s 2)" % (f, x), "(%s %s 1 2)" % (f, x), "(%s 2 1 %s)" % (f, x), "(%s 1 1 1 %s)" % (f, x)]
    ps += ["(%s %s)" % (f, x) for f in ONE for x in bad if f in ("integer?", "number?", "fixnum?", "positive-integer?", "negative-integer?", "non-negative-integer?")]
    h = "(current-error-handler (lambda (e) (begin (write (list (exn-who e) (argument-exn? e) (argument-exn-expect e) (argument-exn-actual e))) (exit 5)))) "
    c.diff("wrong operands", ps)
    c.diff("wrong operands, what is reported", [h + p for p in ps if not any(("(" + f + " ") in p for f in ("integer?",))])
    c.assumptions.append("results outside the 62-bit range are not specified and are not generated as expectations")
