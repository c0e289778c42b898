"""P19: a macro use means what its transformer builds, wherever the macro is bound and used."""
import itertools, re
from mc import lib, macro
from mc.lib import Templates

MACROS = {
    "twice": "(define-syntax twice (syntax-rules () [(_ e) (begin e e)]))",
    "swap!": "(define-syntax swap! (syntax-rules () [(_ a b) (let ([t1 a]) (set! a b) (set! b t1))]))",
    "my-or": "(define-syntax my-or (syntax-rules () [(_) #f] [(_ e) e] [(_ e r ...) (let ([t2 e]) (if t2 t2 (my-or r ...)))]))",
    "my-let": "(define-syntax (my-let stx) (syntax-case stx () [(_ ([v e] ...) b ...) #'((lambda (v ...) b ...) e ...)]))",
    "my-let*": "(define-syntax my-let* (syntax-rules () [(_ () b ...) (my-let () b ...)] [(_ ([v e] . rest) b ...) (my-let ([v e]) (my-let* rest b ...))]))",
    "while": "(define-syntax while (syntax-rules () [(_ c b ...) (let loop1 () (when c b ... (loop1)))]))",
    "for": "(define-syntax for (syntax-rules (in) [(_ v in e b ...) (for-each (lambda (v) b ...) e)] [(_ v e b ...) (for v in (list e) b ...)]))",
    "kind": "(define-syntax (kind stx) (syntax-case stx () [(_ x) (identifier? #'x) #''id] [(_ (x ...)) #''(app x ...)] [(_ #(x ...)) #''(vec (x) ...)] [(_ x) #''other]))",
    "rev-args": "(define-syntax rev-args (syntax-rules () [(_ () r) r] [(_ (a . d) (r ...)) (rev-args d (a r ...))]))",
    "tuple": "(define-syntax (tuple stx) (syntax-case stx () [(_ a b ...) (with-syntax ([(x y) #'(a (list b ...))]) #'(cons x y))]))",
    "pairs": "(define-syntax pairs (syntax-rules () [(_ (a b ...) ...) (list (cons a (list b ...)) ...)]))",
    "seven": "(define-syntax (seven stx) (syntax-case stx () [x (identifier? #'x) #'7] [(_ a ...) #'(list 7 a ...)]))",
    "getter": "(define-syntax getter (syntax-rules () [(_ n v) (define (n) v)]))",
    "define2": "(define-syntax define2 (syntax-rules () [(_ [a x] [b y]) (begin (define a x) (define b y))]))",
    "define-const": "(define-syntax define-const (syntax-rules () [(_ n v) (define-syntax n (syntax-rules () [(_) v]))]))",
    "getter2": "(define-syntax getter2 (syntax-rules () [(_ n v) (define (n) (my-let () (twice v)))]))",
    "quad": "(define-syntax quad (syntax-rules () [(_ e) (twice (twice e))]))",
}

GROUPS = {
    # name: (templates, atoms, naming, maxvars, quick size, thorough size)
    "expressions": (["(twice E)", "(quad E)", "(my-or E E)", "(my-or E E E)", "(tuple E E)", "(pairs (E E) (E))", "(rev-args (E E list) ())", "(seven E)", "(kind E)", "(list E E)", "(if E E E)"],
                    ("K", "#f", "(p K)", "seven", "(my-or)", "(kind x)", "(kind #(1 2))"), "fresh", 2, 4, 5),
    "binding": (["(my-let ([V0 E]) E0)", "(my-let ([V0 E] [V1 E]) E01)", "(my-let* ([V0 E] [V1 E0]) E01)", "(let ([V0 E]) E0)", "(twice E)", "(my-or E E)", "(set! V0 E)", "(lambda (V0) E0)",
                 "(let-syntaxes ([(m) (lambda (stx) (syntax-case stx () [(_ a) #'(my-let ([k a]) (list k k))]))]) (m E))"],
                ("K", "(p K)"), "fresh", 3, 4, 6),
    "state": (["(let ([V0 E] [V1 E]) (swap! V0 V1) E01)", "(let ([V0 (p 2)]) (while (> V0 0) (set! V0 (- V0 1)) E0) E0)", "(for V0 in (list E E) E0)", "(for V0 E E0)", "(twice E)", "(begin E E)"],
              ("K", "(p K)"), "fresh", 3, 5, 6),
    "bodies": (["(let () (getter V0 E) (list (V0) E0))", "(let () (define2 [V0 E] [V1 E0]) E01)", "(let () (define V0 E) (getter V1 E0) E01)", "(let () (define-const V0 E) (list (V0) (V0)))",
                "(let () (define V0 E) (define-const V1 (list V0 E0)) (cons (V1) E0))", "(let () (define-syntax V0 (syntax-rules () [(_ a) (list E a)])) (V0 E))",
                "(let () E (define-syntax V0 (syntax-rules () [(_ a b) (twice (list a E b))])) (define V1 E) (V0 E1 V1))", "(lambda (V0) (getter V1 E0) (V1))", "(let () (getter2 V0 E) (list (V0) E0))", "(let () (define V0 E) (begin (getter2 V1 E0) (define V2 E01)) E012)", "(twice E)"],
               ("K", "(p K)"), "fresh", 3, 3, 4),
}

# Forms of one module-level sequence; every order of every choice of them
FORMS = [
    "(define-syntax m1 (syntax-rules () [(_ a) (list a a)]))",
    "(define-syntax m2 (syntax-rules () [(_ a) (m1 (p a))]))",
    "(define (f x) (m2 (p x)))",
    "(define g (lambda () (m1 y)))",
    "(define-const y2 (m1 y))",
    "(define y (p 1))",
    "(p (m1 (p 2)))",
    "(p (m2 3))",
    "(p (y2))",
    "(begin (p (f 4)) (p (g)))",
    "(getter2 f (m1 (p 6)))",
]

# Lines typed at the REPL one after another: the newest definition of a macro counts
LINES = [
    "(define-syntax m1 (syntax-rules () [(_ a) (list 'one a)]))",
    "(define-syntax m1 (syntax-rules () [(_ a) (list 'two a)]))",
    "(define-syntax m2 (syntax-rules () [(_ a) (m1 (m1 a))]))",
    "(define-syntax do (syntax-rules () [(_ a b) (list 'mine a b)]))",
    "(define-syntax twice (syntax-rules () [(_ a) (list 'my-twice a)]))",
    "(define (f x) (m1 x))",
    "(list (m1 5) (do 5 6))",
    "(list (m2 7) (quad 8))",
    "(list (f 9) (twice 1))",
]

BAD = ["(twice)", "(twice 1 2)", "(swap! 1)", "(my-let 1)", "(my-let ([x]) 1)", "(for 1 in)", "(rev-args 1 1)", "(seven . 1)", "(pairs (1) ())", "(pairs 1)", "twice", "(define2 [a 1])",
       "(let-syntaxes ([(m) 5]) 1)", "(let-syntaxes ([(m) (lambda (stx) 5)]) (m))", "(define-syntax m 5)", "(let () (define-syntax m 5) 1)", "(let () (define-syntax m (syntax-rules ())))",
       "(begin (define-syntax (m stx) 'x) (m))", "(define-syntax)", "(define-syntax m)", "(define-syntax m (syntax-rules ()) 1)", "(my-let* ([x 1] 2) 3)", "(define-const)"]


def programs(c, less=0):
    ps, names = [], {}
    for name, (forms, atoms, naming, mv, qs, ts) in GROUPS.items():
        t = list(Templates(forms, naming, atoms, mv).upto(c.q(qs, ts) - less))
        names[name] = len(t)
        ps += t
    k = len(ps)
    ps += ["(begin (define z (p 0)) %s)" % b for b in BAD] + ["(list (p 0) (lambda () %s))" % b for b in BAD]
    names["malformed"] = len(ps) - k
    return ps, names


def orders(c):
    """Sequences in which everything used is defined; up to length 3 all of them."""
    out = []
    for n in range(1, c.q(5, 6) + 1):
        for s in itertools.permutations(FORMS, n):
            names = {w for f in s for w in ("m1", "m2", "f", "g", "y", "y2") if "define-syntax " + w + " " in f or "(define (%s " % w in f or "define %s " % w in f or "define-const " + w + " " in f or "getter2 " + w + " " in f}
            used = {w for f in s for w in ("m1", "m2", "f", "g", "y", "y2") if re.search(r"[( ]%s[ )]" % w, f)}
            if n <= 3 or used <= names:
                out.append("(begin %s)" % " ".join(s))
            if n <= 2 or used | {"m1", "y"} <= names:
                out.append("(let () %s (list (m1 1) y))" % " ".join(s))
    return out


def lines(c):
    out = []
    for n in range(1, c.q(4, 5) + 1):
        for s in itertools.product(LINES, repeat=n):
            if not s[-1].startswith("(define"):
                out.append(" ".join(s))
    return out


def run(c):
    text = "\n".join(MACROS.values()) + "\n"
    ps, names = programs(c)
    runner = macro.cached(text)
    os_, ls = orders(c), lines(c)
    lib.diff(c, "macros of the module: %s, orders %d, lines %d" % (", ".join("%s %d" % x for x in names.items()), len(os_), len(ls)),
             list(dict.fromkeys(ps + os_ + ls)), text=lib.BASE + text, runner=runner, fresh=True)
    # the same macros imported from another module, which exports only those used directly
    hidden = ("my-let", "twice")
    ps, names = programs(c, 1)
    ps = [x for x in ps if not any("(%s " % h in x for h in hidden)]
    lib.target(c, "(import \"library/base.min\")\n(export %s)\n%s" % (" ".join(m for m in MACROS if m not in hidden), text), "mc_macros.min")
    lib.diff(c, "macros of an imported module", ps, text=lib.BASE + "(import \"mc_macros.min\")\n", runner=runner, fresh=True)
