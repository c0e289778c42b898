"""P12: top-level environments: definition, assignment, evaluation and copying never leak between environments."""
import itertools
from mc.gen import histories
from p06 import H

INIT = ("(define-values (x y f t) (values 'gx 'gy (lambda () 'f0) (current-environment))) (define-values (e1 e2) (values (copy-environment t) (make-empty-environment))) "
        "(define-values (g) (lambda () x)) "
        "(define-values (o) (lambda () (begin (write (list x y (g) (f) (environment-ref e1 'x 'no) (environment-ref e1 'y 'no) (environment-ref e2 'x 'no) (environment-ref e2 'y (lambda () 'none)) (eq? e1 e2) (eq? (current-environment) t))) (newline)))) ")
OPS = ["(environment-set! e1 'x 1)", "(environment-set! e2 'x 2)", "(eval '(define-values (x) 3) e1)", "(eval '(define-values (x y) (values 4 5)) e1)" , "(eval '(set! x 6) e1)", "(set! x 7)", "(define-values (y) 8)",
       "(set! f (eval '(lambda () x) e1))", "(set! f (eval '(lambda () (begin (set! x 9) x)) e1))", "(set! f (lambda () (eval 'x)))", "(set! f (lambda () (eval '(begin (set! x 10) x) e1)))", "(set! e2 (copy-environment e1 #t '(x)))",
       "(set! e2 (copy-environment e1 #t '(x y values)))", "(set! e1 (copy-environment t))", "(set! e2 e1)", "(begin (current-environment e1) (eval '(define-values (x) 11)) (current-environment t))",
       "(begin (current-environment e1) (set! f (eval '(lambda () (begin (define-values (y) 12) y)))) (current-environment t))", "(eval '(define-values (g) (lambda () 'other)) e1)", "(set! e1 t)", "(f)"]
OPS = [o for o in OPS if "(begin (define-values" not in o]


def run(c):
    c.diff("histories", histories(INIT, OPS, "(o)", c.q(3, 4)))
    deep = ["(environment-set! e1 'x 1)", "(eval '(define-values (x) 3) e1)", "(set! x 7)", "(set! f (eval '(lambda () x) e1))", "(set! e2 (copy-environment e1 #t '(x)))", "(set! e1 (copy-environment t))", "(eval '(set! x 6) e1)"]
    c.diff("deeper histories", histories(INIT, deep, "(o)", c.q(5, 6)))
    # every expression kind evaluated in every environment from inside every context
    exprs = ["'x", "'(list x y)", "'(lambda () x)", "'((lambda (x) x) 5)", "'(let-values ([(x) 1]) (set! x 2))", "'(define-values (z) x)", "'(begin (define-values (x) 20) x)", "'(set! x 21)", "'(if x y 1)", "'(eval 'x)", "'(eval '(set! x 22))",
             "'(letrec-values ([(h) (lambda () x)]) (h))", "'(quote x)", "'undefined-name", "'(undefined-name)", "'(set! undefined-name 1)", "'(environment-ref (current-environment) 'x 'no)", "5", "(list 'car (list 'quote '(1 2)))", "(lambda () 1)", "\"s\"", "'()"]
    exprs = [e for e in exprs if "(begin (define" not in e]
    envs = ["", "t", "e1", "e2", "(make-base-environment)", "(copy-environment e1 #t '(x list))"]
    ctxs = ["%s", "(list %s)", "(let-values ([(x) 'local]) %s)", "(let-values ([(x) 'local]) (list x %s x))", "((lambda (y) (begin %s y)) 'ly)", "(call-with-values (lambda () %s) list)", "(begin %s (eval 'x))", "(map (lambda (q) %s) '(1 2))"]
    pre = "(define-values (x y t) (values 'gx 'gy (current-environment))) (define-values (e1 e2) (values (copy-environment t) (make-empty-environment))) (environment-set! e1 'x 'ex) (environment-set! e2 'x 'e2x) (define-values (o) (lambda (r) (list r x y (environment-ref e1 'x 'no) (environment-ref e2 'x 'no) (environment-ref t 'z 'no) (environment-ref e1 'z 'no) (eq? t (current-environment))))) "
    ps = [pre + "(o (let-values ([(r) %s]) (if (procedure? r) (r) r)))" % (w % ("(eval %s %s)" % (e, v))) for e in exprs for v in envs for w in ctxs]
    ps += [pre + (w % ("(eval %s %s)" % (e, v))) + " (o 1)" for e in exprs for v in envs for w in ctxs[:4]]
    c.diff("evaluation in an environment", ps)
    # arguments
    bad = ["5", "'a", "'()", "\"x\"", "(vector)", "#f"]
    ps = [pre + w % b for b in bad for w in ("(environment-ref %s 'x)", "(environment-ref e1 %s)", "(environment-ref e1 %s 1)", "(environment-ref e2 'none %s)", "(environment-set! %s 'x 1)", "(environment-set! e1 %s 1)", "(eval 1 %s)", "(copy-environment %s)", "(copy-environment e1 %s)",
                                           "(copy-environment e1 #t %s)", "(environment? %s)", "(current-environment %s)", "(environment-symbols %s)", "(copy-environment e1 #t (list 'x %s))")]
    ps += [pre + p for p in ("(environment-ref e2 'none)", "(environment-ref e2 'none (lambda () 'thunk))", "(environment-ref e2 'x (lambda () 'thunk))", "(environment-symbols (make-empty-environment))", "(environment-symbols e2)", "(eval 'x (make-empty-environment))",
                             "(environment? t)", "(list (environment? e1) (environment? car))", "(copy-environment e2 #f)", "(environment-symbols (copy-environment e2 #f '(x)))", "(environment-symbols (copy-environment e2 #t '(nothing)))")]
    # (a one-argument copy is written as a copy of all symbols, and its error names that step)
    c.diff("arguments", ps + [H + p for p in ps if not any("(copy-environment %s)" % b in p for b in bad)])
    # many definitions: every earlier one is intact after each table growth, in the original and in copies
    fam, exp = [], []
    sym = "(string->symbol (string-append \"v\" (number->string i)))"
    pre = "(define-values (each) (lambda (a b f) (if (< a b) (if (f a) (each (add1 a) b f) (list 'bad a)) #t))) (define-values (sym) (lambda (i) %s)) " % sym
    for mk in ("(make-empty-environment)", "(make-base-environment)", "(copy-environment (current-environment))"):
        for how in ("(environment-set! e (sym i) i)", "(eval (list 'define-values (list (sym i)) i) e)"):
            if "eval" in how and "empty" in mk:
                pass
            for n in list(range(0, c.q(40, 150), 3)) + c.q([200, 400, 1200], [200, 300, 400, 500, 800, 1200, 3000, 8000]):
                fam.append(pre + "(let-values ([(e) %s]) (let-values ([(s0) (length (environment-symbols e))]) (begin (each 0 %d (lambda (i) (begin %s #t))) (let-values ([(k) (copy-environment e)]) (list (each 0 %d (lambda (i) (eq? i (environment-ref e (sym i) #f)))) (each 0 %d (lambda (i) (eq? i (environment-ref k (sym i) #f)))) "
                           "(- (length (environment-symbols e)) s0) (- (length (environment-symbols k)) s0) (environment-ref e 'v-none 'none) (begin (each 0 %d (lambda (i) (begin (environment-set! e (sym i) 'new) #t))) (each 0 %d (lambda (i) (if (eq? 'new (environment-ref e (sym i) #f)) (eq? i (environment-ref k (sym i) #f)) #f))))))))))" .replace("))))))))))", ")))))))))") % (mk, n, how, n, n, n, n))
                exp.append(("V", "(#t #t %d %d |none| #t)" % (n, n), ""))
    c.diff("many definitions", fam, expect=exp, args=["--timeout", "15000"])
    # every single name: an assignment in one environment shows in that one only, whatever the other environments came from
    pre = ("(define-values (cnt) 0) (define-values (say) (lambda (p) (begin (write p) (newline)))) "
           "(define-values (diffs) (let-values ([(esr) environment-ref] [(eqq) eq?] [(cr) car] [(cd) cdr] [(nl) null?] [(cns) cons]) (lambda (a b names) (letrec-values ([(go) (lambda (l acc) (if (nl l) acc (go (cd l) (if (eqq (esr a (cr l) 'none) (esr b (cr l) 'none)) acc (cns (cr l) acc)))))]) (go names '()))))) ")
    mk = ["(make-base-environment)", "(copy-environment (current-environment))", "(copy-environment (make-base-environment))", "(copy-environment (current-environment) #t (environment-symbols (current-environment)))"]
    fam, exp = [], []
    sets = {"environment-set!": "(environment-set! e s 'changed)", "define": "(eval (list 'define-values (list s) ''changed) e)", "set!": "(eval (list 'set! s ''changed) e)"}
    for m1 in mk:
        for m2 in mk:
            for sn, st in sets.items():
                # names are changed one at a time in e; k and the current environment must keep theirs
                fam.append(pre + "(define-values (e k ref) (values %s %s (make-base-environment))) (define-values (names) (environment-symbols ref)) "
                           "(let-values ([(orig) (map (lambda (s) (environment-ref k s)) names)] [(cur) (map (lambda (s) (environment-ref (current-environment) s 'none)) names)]) "
                           "(letrec-values ([(go) (lambda (l o q bad) (if (null? l) (list bad) (let-values ([(s) (car l)]) (begin %s "
                           "(go (cdr l) (cdr o) (cdr q) (if (eq? (environment-ref e s) 'changed) (if (eq? (environment-ref k s) (car o)) (if (eq? (environment-ref (current-environment) s 'none) (car q)) bad (cons (cons 'cur s) bad)) (cons s bad)) (cons (cons 'lost s) bad)))))))]) (go names orig cur '())))" % (m1, m2, st))
                exp.append(("V", "(())", ""))
    # many names in one table: each assignment changes exactly that name in exactly that environment
    for n in c.q((12, 60, 300), (5, 12, 30, 60, 150, 300, 700)):
        for mk2 in ("(copy-environment e)", "(copy-environment e #t (environment-symbols e))"):
            for who in ("e", "k"):
                fam.append("(define-values (sym) (lambda (i) (string->symbol (string-append \"w\" (number->string i))))) (define-values (each) (lambda (a b f) (if (< a b) (if (f a) (each (add1 a) b f) (list 'bad a)) #t))) (define-values (e) (make-empty-environment)) (each 0 %d (lambda (i) (begin (environment-set! e (sym i) i) #t))) (define-values (k) %s) "
                           "(list (each 0 %d (lambda (i) (begin (environment-set! %s (sym i) (- -1 i)) (if (eq? (environment-ref e (sym i)) (if (eq? %s e) (- -1 i) i)) (eq? (environment-ref k (sym i)) (if (eq? %s e) i (- -1 i))) #f)))) (each 0 %d (lambda (i) (if (eq? (environment-ref e (sym i)) (if (eq? %s e) (- -1 i) i)) (eq? (environment-ref k (sym i)) (if (eq? %s e) i (- -1 i))) #f))))" % (n, mk2, n, who, who, who, n, who, who))
                exp.append(("V", "(#t #t)", ""))
    c.diff("every name of every kind of copy", fam, expect=exp, args=["--timeout", "15000"])
    # globals referenced by compiled code before and after definition, and redefined while referenced
    names = ["a", "b"]
    steps = ["(define-values (a) %d)", "(define-values (f) (lambda () a))", "(define-values (b) (lambda () (list a (f))))", "(set! a %d)", "(f)", "(b)", "(list a)", "(define-values (f) (lambda () 'f2))", "(define-values (a f) (values %d (lambda () (list 'f3 a))))", "(eval '(define-values (a) %d))", "((lambda () (set! a %d)))"]
    ps = []
    for t in itertools.product(steps, repeat=c.q(4, 5)):
        ps.append(" ".join("(write %s)" % s if s[1] in "fbl" and "define" not in s else (s % (i + 1) if "%d" in s else s) for i, s in enumerate(t)))
    c.diff("definition and use orders", ps)
