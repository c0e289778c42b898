"""P06: pairs and lists: structure, sharing and mutation, for every structure and operation history of a bounded size."""
import itertools
from mc.gen import PRE, histories


def trees(n, atoms, depth=9):
    """Every pair structure with n pairs."""
    if n == 0:
        return list(atoms)
    out = []
    for a in range(n):
        for x in trees(a, atoms):
            for y in trees(n - 1 - a, atoms):
                out.append("(%s . %s)" % (x, y))
    return out


def lists(elems, maxlen):
    for n in range(maxlen + 1):
        for t in itertools.product(elems, repeat=n):
            yield list(t)


CXR = ["c%sr" % "".join(t) for n in (1, 2, 3, 4) for t in itertools.product("ad", repeat=n)]
H = ("(current-error-handler (lambda (e) (begin (write (list (exn-who e) (exn-message e) (argument-exn? e) (if (argument-exn? e) (argument-exn-expect e) #f) (if (argument-exn? e) (argument-exn-actual e) #f))) (exit 7)))) ")


def run(c):
    shapes = [t for n in range(0, 5) for t in trees(n, ["()", "a"] if n >= 4 else ["()", "1", "a"])]
    c.diff("selectors on every structure", ["(%s '%s)" % (f, t) for f in CXR for t in shapes if t.count(".") <= c.q(3, 4)])
    preds = ["list?", "pair?", "null?", "length", "reverse", "list->vector", "append", "enumerate", "list->string", "equal-hash"]
    c.diff("predicates on every structure", ["(%s '%s)" % (f, t) for f in preds[:-1] for t in shapes])
    c.diff("full structures through selectors", ["(list %s)" % " ".join("(%s '((((1 . 2) . (3 . 4)) . ((5 . 6) . (7 . 8))) . (((9 . 10) . (11 . 12)) . ((13 . 14) . (15 . 16)))))" % f for f in CXR)])
    els = ["1", "b", "(c)"]
    L = ["(%s)" % " ".join(l) for l in lists(els, c.q(4, 5))]
    ps = []
    for l in L:
        ps += ["(%s '%s)" % (f, l) for f in ("length", "reverse", "append", "enumerate", "list->vector", "list?")]
        ps += ["(let-values ([(l) '%s]) (list (eq? l (append l)) (reverse (reverse l)) (equal? l (vector->list (list->vector l))) (append l l) (append l '() l) l))" % l]
    S = ["(%s)" % " ".join(l) for l in lists(["1", "b"], 3)] + ["(1 . 2)", "5"]
    ps += ["(append '%s '%s)" % t for t in itertools.product(S, S)]
    ps += ["(append '%s '%s '%s)" % t for t in itertools.product(S[:8] + S[-2:], repeat=3)]
    ps += ["(append %s)" % " ".join("'" + x for x in t) for n in (4, 5) for t in itertools.product(["()", "(1)", "(2 3)"], repeat=n)]
    c.diff("list operations", ps)
    # mappers: every combination of list lengths, with effects and order
    fs = ["(lambda (x) (p x))", "(lambda (x) (begin (p x) (< x 3)))", "(lambda (x) (begin (p x) (if (= x 2) 'two #f)))", "list", "(lambda (x y) (begin (p x) (p y) (< x y)))",
          "(lambda (x y) (p (+ x y)))", "(lambda l (begin (display l) (p (apply + l))))", "(lambda (x y z) (list z y x))", "car", "(lambda () 1)", "(lambda (x) (values x x))", "(lambda (x) (values))", "5"]
    ls = ["(%s)" % " ".join(l) for l in lists(["1", "2", "3"], c.q(3, 4))] + ["(1 . 2)", "7", "(1 2 . 3)"]
    ps = [PRE + "(%s %s '%s)" % (m, f, l) for m in ("map", "for-each", "andmap", "ormap") for f in fs for l in ls]
    ls2 = ["()", "(1)", "(2)", "(1 2)", "(2 1)", "(3 2 1)", "(1 2 3)", "(1 . 2)", "4"]
    ps += [PRE + "(%s %s '%s '%s)" % (m, f, a, b) for m in ("map", "for-each", "andmap", "ormap") for f in fs for a in ls2 for b in ls2]
    ps += [PRE + "(%s %s '%s '%s '%s)" % (m, f, a, b, d) for m in ("map", "for-each", "andmap", "ormap") for f in ("list", fs[6], fs[7]) for a in ls2 for b in ls2[:5] for d in ls2[:7]]
    ps += [H + x for x in ps if "(values" not in x]
    c.diff("mapping procedures", ps)
    ps = ["(iota %s)" % n for n in list(range(-2, 40)) + ["'a", "#t", '"3"']]
    ps += ["(let-values ([(l) (iota %d)]) (list (length l) (apply + l) (length (reverse l)) (length (append l l)) (equal? l (reverse (reverse l))) (length (map add1 l)) (apply + (map add1 l))))" % n
           for n in list(range(0, 130, 3)) + [200, 256, 500, 1000, 2000]]
    ps += ["(make-list %s %s)" % (n, x) for n in (-1, 0, 1, 2, 5, "'a") for x in ("1", "'b", "(list 1)")]
    ps += ["(let-values ([(l) (make-list 3 (list 1))]) (begin (set-car! (car l) 9) l))"]
    c.diff("constructors", ps)
    # mutation histories over aliased structures; the state is observed after every step
    init = "(define-values (a b k) (values (list 1 2) (cons 3 4) '())) (define-values (o) (lambda () (begin (write (list a b k (eq? a b) (eq? a k) (eq? b k) (if (pair? a) (eq? (cdr a) b) #f))) (newline)))) "
    ops = ["(set! a (cons b a))", "(set! b (cons 5 b))", "(set! k (cons a b))", "(set! k a)", "(set! a (list b b))", "(set-car! a 6)", "(set-cdr! a b)", "(set-cdr! b k)", "(set-car! b k)",
           "(set-car! a a)", "(set! a (reverse a))", "(set! b (list-copy a))", "(set! b (cdr a))", "(set! a (car a))", "(set! k (map (lambda (x) x) a))", "(set-cdr! (cdr a) '())", "(set! a b)"]
    ops = [o for o in ops if "list-copy" not in o]
    c.diff("mutation histories", histories(init, ops, "(o)", c.q(3, 4)))
    ops4 = ["(set! a (cons b a))", "(set! k a)", "(set-cdr! a b)", "(set-car! b k)", "(set! b (cdr a))", "(set-cdr! b '(9))", "(set! a (list a))"]
    c.diff("mutation histories, deeper", histories(init, ops4, "(o)", c.q(5, 6)))
    # which cells of a result are the cells of an argument: every cell of the result is overwritten, then everything is shown
    lens = ["'()", "(list 1)", "(list 1 2)", "(list 1 2 3)"]
    # (whether append shares its last argument is left open)
    mk = ["(append a '())", "(append a (list 5))", "(append a b '())", "(append a b (list 5))", "(append '() a '())", "(append a '() b '())", "(append a (append b '()))", "(append (append a '()) b '())", "(append a a '())",
          "(append a b '() '() '())", "(apply append (list a b '()))", "(reverse a)", "(reverse (reverse a))", "(map (lambda (x) x) a)", "(map (lambda (x y) x) a a)", "(apply list a)",
          "(apply (lambda r r) a)", "(apply (lambda (x . r) r) 1 a)", "(vector->list (list->vector a))", "(list a b)", "(cons a b)", "(call-with-values (lambda () (apply values a)) (lambda r r))", "(enumerate a)",
          "(let-values ([(v) (list->vector a)]) (begin (vector-fill! v 9) a))", "(filter (lambda (x) #t) a)", "(list->string a)"]
    smash = "(define-values (smash) (lambda (l n) (if (pair? l) (begin (set-car! l n) (smash (cdr l) (add1 n))) (void)))) "
    cut = "(define-values (cut) (lambda (l) (if (pair? l) (if (pair? (cdr l)) (cut (cdr l)) (set-cdr! l 'end)) (void)))) "
    c.diff("what a result shares with its arguments", [smash + cut + "(define-values (a b) (values %s %s)) (define-values (c) %s) (%s c%s) (list a b c)" % (x, y, m, f, k)
                                                      for x in lens for y in lens for m in mk for f, k in (("smash", " 20"), ("cut", ""))])
    bad = ["5", "'a", "'()", '"s"', "(vector 1)", "#f", "(void)"]
    ps = [w % b for b in bad for w in ["(%s %%s)" % f for f in CXR] + ["(set-car! %s 1)", "(set-cdr! %s 1)", "(length %s)", "(reverse %s)", "(append %s)", "(append '(1) %s)", "(append %s '(1))",
                                                                   "(list->vector %s)", "(enumerate %s)", "(apply list %s)", "(list? %s)", "(pair? %s)", "(null? %s)", "(map car %s)", "(map %s '(1))"]]
    c.diff("arguments of the wrong kind", ps + [H + p for p in ps])
