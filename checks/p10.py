"""P10: hashtables behave as finite maps after every operation history, through every growth and shrinkage."""
import itertools
from mc.gen import histories
from p06 import H

# kind -> (constructor, keys): keys contain values that are equal but not identical
KINDS = {
    "equal": ("(make-hashtable)", ['"k"', "(string-append \"k\" \"\")", "'k"]),
    "eq": ("(make-eq-hashtable)", ["'k", "1", "#\\a"]),
    "colliding": ("(make-custom-hashtable (lambda (x) 5) equal?)", ['"k"', "(list 1)", "1"]),
    "custom equivalence": ("(make-custom-hashtable (lambda (x) (modulo x 3)) (lambda (a b) (= (modulo a 3) (modulo b 3))))", ["1", "4", "2"]),
    # hash and equivalence procedures that use tables themselves: another one, or the table being asked
    "using another table": ("(let-values ([(u) (make-hashtable)]) (make-custom-hashtable (lambda (x) (begin (hashtable-set! u x #t) (if (hashtable-contains? u x) (modulo x 2) 99))) (lambda (a b) (begin (hashtable-clear! u) (equal? a b)))))", ["0", "1", "2"]),
    "asking the same table": ("(letrec-values ([(t) (make-custom-hashtable (lambda (x) (if (= x 77) 1 (begin (hashtable-contains? t 77) (hashtable-size t) 1))) (lambda (a b) (if (= a 77) #f (if (= b 77) #f (begin (hashtable-ref t 77 0) (= a b))))))]) t)", ["0", "1", "2"]),
    "negative hash": ("(make-custom-hashtable (lambda (x) (- -7 x)) =)", ["0", "13", "26"]),
}
OBS = ("(define-values (k0 k1 k2) (values %s %s %s)) (define-values (o1) (lambda (x) (list (hashtable-size x) (length (vector->list (hashtable-keys x))) (length (vector->list (hashtable-vals x))) (apply + (vector->list (hashtable-vals x))) "
       "(andmap (lambda (q) (hashtable-contains? x q)) (vector->list (hashtable-keys x))) (hashtable-ref x k0 #f) (hashtable-ref x k1 #f) (hashtable-ref x k2 (lambda () 'none)) (hashtable-contains? x k0) (hashtable-contains? x k1) (hashtable-contains? x k2)))) "
       "(define-values (o) (lambda () (begin (write (list (o1 h) (o1 g))) (newline)))) ")


class Model:
    """The map an operation history denotes, for the analytic size families."""


def seqs(mk, keys, depth, ops):
    init = "(define-values (h g) (values %s %s)) " % (mk, mk) + OBS % tuple(keys)
    return histories(init, ops, "(o)", depth)


OPS = ["(hashtable-set! h k0 1)", "(hashtable-set! h k1 2)", "(hashtable-set! h k2 4)", "(hashtable-delete! h k0)", "(hashtable-delete! h k1)", "(hashtable-update! h k0 (lambda (v) (+ v 8)) 16)",
       "(hashtable-update! h k1 add1 (lambda () 32))", "(hashtable-clear! h)", "(set! g (hashtable-copy h))", "(hashtable-set! g k0 64)", "(set! h g)"]


def run(c):
    # the reference has no key order; observations that sum and count are order free
    import mc.ref as ref
    ref.ORDER_FREE = True
    for nm, (mk, keys) in KINDS.items():
        c.diff("histories, %s keys" % nm, seqs(mk, keys, c.q(3, 4), OPS), same=None)
    deep = ["(hashtable-set! h k0 1)", "(hashtable-set! h k1 2)", "(hashtable-delete! h k0)", "(hashtable-update! h k1 add1 0)", "(set! g (hashtable-copy h))"]
    for nm in ("equal", "colliding"):
        mk, keys = KINDS[nm]
        c.diff("deeper histories, %s keys" % nm, seqs(mk, keys, c.q(5, 7), deep))
    # updaters and defaults that change the table themselves
    inner = ["(hashtable-set! h k0 1)", "(hashtable-set! h k1 2)", "(hashtable-set! h k2 4)", "(hashtable-delete! h k0)", "(hashtable-clear! h)", "(hashtable-update! h k1 add1 32)", "(hashtable-update! h k0 add1 32)", "(set! g (hashtable-copy h))", "(for-each (lambda (i) (hashtable-set! h (+ 100 (* 3 i)) i)) (iota 20))"]
    upd = ["(hashtable-update! h k0 (lambda (v) (begin %s (+ v 8))) 16)" % i for i in inner] + ["(hashtable-update! h k0 add1 (lambda () (begin %s 64)))" % i for i in inner]
    for nm in KINDS:
        mk, keys = KINDS[nm]
        if nm != "eq":
            us = upd if nm not in ("equal", "colliding") else [u for u in upd if "for-each" not in u] + [u.replace("(+ 100 (* 3 i))", "(list i)") for u in upd if "for-each" in u]
        else:
            us = upd
        init = "(define-values (h g) (values %s %s)) " % (mk, mk) + OBS % tuple(keys)
        base = OPS[:5] + OPS[7:9]
        hs = []
        for u in us:
            for t in itertools.product(base, repeat=c.q(1, 2)):
                for z in itertools.product(base, repeat=1):
                    hs.append(init + " (o) ".join(t + (u,) + z) + " (o)")
            hs.append(init + u + " (o)")
            for u2 in us:
                hs.append(init + u + " (o) " + u2 + " (o)")
        c.diff("updaters that change the table, %s keys" % nm, hs)
    fam, exp = [], []
    memo = "(letrec-values ([(h) %s] [(fib) (lambda (n) (begin (hashtable-update! h n (lambda (v) (if v v (if (< n 2) n (+ (fib (- n 1)) (fib (- n 2)))))) #f) (hashtable-ref h n)))]) (let-values ([(r) (fib %d)]) (list r (hashtable-size h) (vector-length (hashtable-keys h)) (andmap (lambda (i) (hashtable-contains? h i)) (iota %d)))))"
    for n in c.q((1, 2, 5, 12, 13, 14, 15, 27, 28, 29, 60), range(1, 80)):
        a, b = 0, 1
        for _ in range(n):
            a, b = b, a + b
        for mk in ("(make-hashtable)", "(make-eq-hashtable)", "(make-custom-hashtable (lambda (x) 1) =)"):
            fam.append(memo % (mk, n, n))
            exp.append(("V", "(%d %d %d #t)" % (a, 2 if n == 0 else n + (n > 0), n + 1, ), "") if n > 1 else ("V", "(1 1 1 #f)", ""))
    c.diff("memoizing through updates", [f for f in fam], expect=exp)
    # growth and shrinkage: insert 0..n-1, delete the first m (or the last m), then read everything back
    fam, exp = [], []
    mkkey = {"fixnum": "i", "string": "(number->string i)", "symbol": "(string->symbol (number->string i))", "list": "(list i \"x\")", "character": "(integer->char (modulo i 256))"}
    pre = ("(define-values (for) (lambda (a b f) (if (< a b) (begin (f a) (for (add1 a) b f)) (void)))) "
           "(define-values (ok) (lambda (h key a b) (letrec-values ([(go) (lambda (i n) (if (< i b) (go (add1 i) (if (equal? (hashtable-ref h (key i) 'none) (* i i)) (add1 n) n)) n))]) (go a 0)))) ")
    ns = list(range(0, c.q(64, 140))) + [200, 255, 256, 257, 400] + ([1000, 3000] if c.thorough else [])
    for kn, key in mkkey.items():
        for mk in ("(make-hashtable)", "(make-eq-hashtable)", "(make-custom-hashtable (lambda (x) 1) equal?)"):
            if "eq-hash" in mk and kn in ("string", "list"):
                continue
            for n in ns:
                if (kn == "character" and n > 250) or ("lambda" in mk and n > 80) or (kn == "list" and n > 400):
                    continue
                if not c.thorough and n > 14 and n % 4 and (kn != "fixnum" or mk != "(make-hashtable)"):
                    continue
                for m in sorted({0, 1, n // 3, n // 2, (3 * n) // 4, n - 1, n}):
                    if m < 0 or m > n:
                        continue
                    for order in ("first", "last"):
                        a, b = (0, m) if order == "first" else (n - m, n)
                        fam.append(pre + "(let-values ([(h) %s] [(key) (lambda (i) %s)]) (begin (for 0 %d (lambda (i) (hashtable-set! h (key i) (* i i)))) (let-values ([(g) (hashtable-copy h)] [(s0) (hashtable-size h)]) (begin (for %d %d (lambda (i) (hashtable-delete! h (key i)))) "
                                   "(list s0 (hashtable-size h) (ok h key 0 %d) (vector-length (hashtable-keys h)) (apply + (vector->list (hashtable-vals h))) (hashtable-size g) (ok g key 0 %d) (if (= 0 %d) #t (hashtable-contains? h (key %d))))))))" % (mk, key, n, a, b, n, n, m, a))
                        left = [i for i in range(n) if not a <= i < b]
                        exp.append(("V", "(%d %d %d %d %d %d %d %s)" % (n, n - m, n - m, n - m, sum(i * i for i in left), n, n, "#t" if m == 0 else "#f"), ""))
    c.diff("growth and shrinkage", fam, expect=exp, args=["--timeout", "10000"])
    fam, exp = [], []
    for n in c.q((5, 14, 30, 60), (5, 13, 14, 15, 27, 28, 30, 53, 54, 60, 110, 250)):
        for rounds in (1, 2, 3):
            for mk in ("(make-hashtable)", "(make-eq-hashtable)"):
                fam.append(pre + "(let-values ([(h) %s]) (begin (for 0 %d (lambda (r) (begin (for 0 %d (lambda (i) (hashtable-set! h i (* i i)))) (for 0 %d (lambda (i) (hashtable-update! h i (lambda (v) (- v 1)) 0))) (for 0 %d (lambda (i) (hashtable-delete! h (- %d i 1)))))))"
                           " (list (hashtable-size h) (apply + (vector->list (hashtable-vals h))))))" % (mk, rounds, n, n, n - 2, n))
                exp.append(("V", "(2 %d)" % (0 - 1 + 1 - 1), ""))
                fam.append(pre + "(let-values ([(h) %s]) (begin (for 0 %d (lambda (i) (hashtable-set! h i (* i i)))) (for 0 %d (lambda (r) (begin (hashtable-clear! h) (for 0 %d (lambda (i) (hashtable-set! h (+ i r) 1)))))) (list (hashtable-size h) (vector-length (hashtable-vals h)) (hashtable-contains? h 0))))" % (mk, n, rounds, n))
                exp.append(("V", "(%d %d %s)" % (n, n, "#t" if rounds == 1 else "#f"), ""))
    c.diff("repeated filling and emptying", fam, expect=exp)
    # missing keys, defaults, wrong arguments
    ks = ['"k"', "'k", "1", "(list 1)"]
    ps = []
    for k in ks:
        for fill in ("", "(hashtable-set! h %s 5)" % k):
            for d in ("", "7", "(lambda () 'd)", "(lambda () (begin (display 'called) (values)))", "(lambda (x) x)", "#f"):
                ps.append("(let-values ([(h) (make-hashtable)]) (begin %s (hashtable-ref h %s %s)))" % (fill, k, d))
                for u in ("add1", "(lambda (x) x)", "(lambda (x) (begin (display x) 'new))", "(lambda () 1)", "5"):
                    ps.append("(let-values ([(h) (make-hashtable)]) (begin %s (hashtable-update! h %s %s %s) (write (hashtable-size h)) (hashtable-ref h %s 'none)))" % (fill, k, u, d, k))
    bad = ["5", "'a", "(list 1)", "(vector)", "#f"]
    ps += [w % b for b in bad for w in ("(hashtable-ref %s 1)", "(hashtable-ref %s 1 2)", "(hashtable-set! %s 1 2)", "(hashtable-delete! %s 1)", "(hashtable-update! %s 1 add1)", "(hashtable-update! %s 1 add1 0)", "(hashtable-contains? %s 1)", "(hashtable-size %s)", "(hashtable-keys %s)",
                                     "(hashtable-vals %s)", "(hashtable-entries %s)", "(hashtable-clear! %s)", "(hashtable-copy %s)", "(hashtable? %s)")]
    ps += ["(call-with-values (lambda () (hashtable-entries (let-values ([(h) (make-hashtable)]) (begin (hashtable-set! h 1 2) h)))) list)", "(let-values ([(h) (make-eq-hashtable)]) (list (eq? (hashtable-hash-proc h) eq-hash) (eq? (hashtable-equiv-proc h) eq?)))"]
    c.diff("defaults and wrong arguments", ps + [H + p for p in ps])
