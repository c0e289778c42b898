"""P08: vectors and boxes against a reference heap: every operation history and every index."""
import itertools
from mc.gen import histories
from p06 import H

IDX = ["-1", "0", "1", "2", "3", "4", "'a", '"0"', "4611686018427387903", "4294967296", "4294967297", "2147483648"]
VEC = ["(vector)", "(vector 1)", "(vector 1 2)", "(vector 1 'b \"c\" #\\d)", "(make-vector 3)", "(make-vector 2 'x)", "#(1 2)", "'#(1 (2) #(3))", "(list->vector '(1 2 3))", "'(1 2)", "5", '"ab"', "(box 1)", "'()"]


# a procedure's result, or its argument, is changed afterwards
OWN = [
    r'''(let-values ([(s) (symbol->string 'abc)]) (begin (string-set! s 0 #\z) (list s (symbol->string 'abc) (eq? 'abc (string->symbol "abc")) (string->symbol s) (eq? 'zbc (string->symbol s)))))''',
    r'''(let-values ([(s) (string #\a #\b)]) (let-values ([(y) (string->symbol s)]) (begin (string-set! s 0 #\z) (list s y (eq? y 'ab) (symbol->string y) (string->symbol s)))))''',
    r'''(let-values ([(s) (string #\a #\b #\c)]) (let-values ([(p) (open-input-string s)]) (let-values ([(c) (read-char p)]) (begin (string-set! s 1 #\z) (list s c (read-char p) (read-char p))))))''',
    r'''(let-values ([(s p) (values (string #\a #\b) (open-output-string))]) (begin (put-string p s) (string-set! s 0 #\z) (display s p) (string-set! s 1 #\y) (get-output-string p)))''',
    r'''(let-values ([(p) (open-output-string)]) (begin (put-string p "ab") (let-values ([(s) (get-output-string p)]) (begin (string-set! s 0 #\z) (put-string p "cd") (let-values ([(t) (get-output-string p)]) (begin (string-set! t 1 #\q) (list s t (get-output-string p))))))))''',
    r'''(let-values ([(xs f) (values (list 1 2 3) (lambda r r))]) (let-values ([(r) (apply f xs)]) (begin (set-car! r 'new) (list xs r (eq? xs r)))))''',
    r'''(let-values ([(xs f) (values (list 1 2 3) (lambda r r))]) (let-values ([(r) (apply f xs)]) (begin (set-car! (cdr xs) 'new) (set-cdr! xs '()) (list xs r))))''',
    r'''(let-values ([(xs f) (values (list 1 2 3) (lambda (a . r) (begin (set-car! r a) (list a r))))]) (list (apply f xs) xs (apply f 0 xs) xs))''',
    r'''(let-values ([(xs) (list 1 2 3)]) (call-with-values (lambda () (apply values xs)) (lambda r (begin (set-car! r 'new) (list xs r)))))''',
    r'''(let-values ([(f) (lambda r r)]) (let-values ([(a) (f 1 2)] [(b) (f 3 4)]) (begin (set-car! a 'x) (set-cdr! b 'y) (list a b (f 5 6)))))''',
    r'''(let-values ([(xs) (list 1 2)]) (let-values ([(l) (apply list xs)] [(v) (apply vector xs)]) (begin (set-car! xs 'new) (set-cdr! (cdr l) 'end) (vector-set! v 0 'v) (list xs l v))))''',
    r'''(let-values ([(cs) (list #\a #\b)]) (let-values ([(s) (apply string cs)]) (begin (string-set! s 0 #\z) (list cs s (list->string cs) (string->list s)))))''',
    r'''(let-values ([(h) (make-hashtable)]) (begin (hashtable-set! h 'k 1) (let-values ([(ks) (hashtable-keys h)]) (begin (vector-set! ks 0 'other) (list ks (hashtable-keys h) (hashtable-ref h 'k #f) (hashtable-contains? h 'other))))))''',
    r'''(let-values ([(h) (make-hashtable)]) (begin (hashtable-set! h 'k 1) (let-values ([(g) (hashtable-copy h)]) (begin (hashtable-set! g 'k 2) (hashtable-set! h 'j 3) (list (hashtable-ref h 'k 0) (hashtable-ref g 'k 0) (hashtable-ref g 'j 0))))))''',
    r'''(let-values ([(v) (vector 1 2)]) (let-values ([(l) (vector->list v)]) (let-values ([(w) (list->vector l)]) (begin (vector-set! v 0 'v) (set-car! l 'l) (vector-set! w 1 'w) (list v l w)))))''',
    r'''(let-values ([(a b) (values (number->string 12) (number->string 12))]) (begin (string-set! a 0 #\9) (list a b (number->string 12))))''',
    r'''(let-values ([(a b) (values (make-string 2 #\a) (make-string 2 #\a))]) (begin (string-set! a 0 #\9) (list a b (make-string 2 #\a))))''',
    r'''(let-values ([(e) (make-empty-environment)]) (begin (environment-set! e 'x 1) (let-values ([(l) (environment-symbols e)]) (begin (set-car! l 'y) (list l (environment-symbols e) (environment-ref e 'x 0) (environment-ref e 'y 0))))))''',
    r'''(let-values ([(xs) (list 1 2)] [(t) (make-record-type-descriptor 't #f #f #f #f (vector '(mutable a) '(mutable b)))]) (let-values ([(r) (apply (record-constructor t) xs)]) (begin (set-car! xs 'new) ((record-mutator t 1) r 'b) (list xs ((record-accessor t 0) r) ((record-accessor t 1) r)))))''',
    r'''(let-values ([(a b) (values (make-list 2 'x) (make-list 2 'x))]) (begin (set-car! a 'y) (list a b (make-list 2 'x))))''',
    r'''(let-values ([(p q) (values (open-input-string "\"ab\" (1 2)") (open-input-string "\"ab\" (1 2)"))]) (let-values ([(a b c d) (values (read p) (read q) (read p) (read q))]) (begin (string-set! a 0 #\z) (set-car! c 'x) (list a b c d))))''',
    r'''(let-values ([(f) (lambda () (string #\a))]) (let-values ([(a b) (values (f) (f))]) (begin (string-set! a 0 #\z) (list a b (f)))))''',
    r'''(let-values ([(h) (make-hashtable)] [(s) (string #\a)]) (begin (hashtable-set! h 1 s) (string-set! s 0 #\z) (list (hashtable-ref h 1 0) (eq? s (hashtable-ref h 1 0)))))''',
    r'''(let-values ([(xs) (list 'a 'b)]) (let-values ([(s) (format "~s" xs)]) (begin (set-car! xs 1) (string-set! s 0 #\[) (list s (format "~s" xs)))))''',
    r'''(let-values ([(n) (string #\f)]) (let-values ([(g) (procedure-rename car (string->symbol n))]) (begin (string-set! n 0 #\z) (list g n))))''',
    r'''(let-values ([(xs) (list 1 2 3)]) (let-values ([(m) (map (lambda (x) (begin (set-car! xs 'seen) x)) xs)]) (list m xs)))''',
    r'''(let-values ([(a) (append (list 1) (list 2))]) (let-values ([(b) (append a '())] [(c) (append a)]) (begin (set-car! a 'x) (list a b c (eq? a c)))))''',
    r'''(let-values ([(a) (list 1 2)]) (let-values ([(b) (reverse a)]) (begin (set-car! a 'x) (set-car! b 'y) (list a b))))''',
    r'''(let-values ([(s) (make-string 3 #\a)]) (let-values ([(x y) (values (string->number "12") (list->string (string->list s)))]) (begin (string-set! y 0 #\z) (list s y x))))''',
    r'''(let-values ([(b) (box 1)]) (let-values ([(c) (box (unbox b))]) (begin (set-box! c 2) (list b c))))''',
    r'''(let-values ([(s) (string->symbol "abc")]) (let-values ([(a b) (values (symbol->string s) (symbol->string s))]) (begin (string-set! a 0 #\z) (list a b s))))''',
    r'''(let-values ([(s) (string #\a #\b)]) (let-values ([(t) (string-append s "c")] [(u) (string-append "" s "c")]) (begin (string-set! s 0 #\z) (list s t u))))''',
]


def run(c):
    ps = ["(vector-ref %s %s)" % t for t in itertools.product(VEC, IDX)] + ["(let-values ([(v) %s]) (begin (vector-set! v %s 'new) v))" % t for t in itertools.product(VEC, IDX)]
    ps += ["(%s %s)" % (f, v) for f in ("vector-length", "vector->list", "vector?", "box?", "unbox", "list->vector", "pair?", "null?", "list?") for v in VEC]
    ps += ["(let-values ([(v) %s]) (begin (vector-fill! v %s) v))" % t for t in itertools.product(VEC, ["0", "'a", "(list 1)", "(vector 1)"])]
    ps += ["(make-vector %s)" % n for n in ["-1", "0", "1", "2", "17", "'a", '"2"', "#f"]] + ["(make-vector %s %s)" % t for t in itertools.product(["-1", "0", "1", "2", "5", "'a"], ["1", "'b", "(list 1)", "(vector)"])]
    ps += ["(let-values ([(v) (make-vector 3 (list 1))]) (begin (set-car! (vector-ref v 0) 9) v))", "(let-values ([(v) (vector 1 2)]) (list (eq? v v) (eq? v (vector 1 2)) (equal? v (vector 1 2)) (eq? (vector->list v) (vector->list v))))"]
    ps += [w % (b,) for b in ["(box 1)", "(box (box 1))", "5", "'a", "'()", "(vector 1)", "(list 1)"] for w in ("(unbox %s)", "(let-values ([(b) %s]) (begin (set-box! b 2) (list b (unbox b))))", "(box %s)", "(box? %s)", "(vector %s)")]
    c.diff("indices and kinds", ps + [H + p for p in ps])
    ns = list(range(0, c.q(40, 140))) + [200, 255, 256, 257, 1000, 4096]
    ps = ["(let-values ([(v) (make-vector %d 'i)]) (list (vector-length v) (length (vector->list v)) (equal? v (list->vector (vector->list v)))))" % n for n in ns]
    for n in ns:
        if n:
            ps.append("(let-values ([(v) (list->vector (iota %d))]) (begin (vector-set! v 0 'first) (vector-set! v %d 'last) (list (vector-ref v %d) (vector-ref v %d) v)))" % (n, n - 1, n - 1, n // 2))
            ps.append("(vector-ref (make-vector %d 1) %d)" % (n, n))
            ps.append("(let-values ([(v) (make-vector %d 1)]) (begin (vector-fill! v 'z) v))" % n)
            ps.append("(let-values ([(v) (make-vector %d 1)]) (vector-set! v %d 1))" % (n, n))
    c.diff("lengths", ps)
    init = ("(define-values (a b k) (values (vector 1 2 3) (make-vector 2 0) (box 7))) (define-values (o) (lambda () (begin (write (list a b k (eq? a b) (eq? (unbox k) a) (equal? a b))) (newline)))) ")
    ops = ["(vector-set! a 0 5)", "(vector-set! a 2 (vector-ref a 0))", "(vector-set! b 0 a)", "(vector-set! b 1 (unbox k))", "(vector-fill! a 9)", "(vector-fill! b (vector-ref a 1))", "(set! b a)", "(set! a (vector 4 4 k))",
           "(set! b (list->vector (vector->list a)))", "(set-box! k a)", "(set-box! k (unbox k))", "(set! k (box k))", "(set! a (vector b b b))", "(set! b (make-vector 2 k))", "(vector-set! b 0 'q)", "(vector-set! a 1 (vector->list b))",
           "(set-box! k (vector->list a))"]
    c.diff("mutation histories", histories(init, ops, "(o)", c.q(3, 4)))
    deep = ["(vector-set! a 0 b)", "(vector-set! b 0 8)", "(set! b (vector 1 a))", "(set-box! k b)", "(set! a (vector k 2 b))", "(vector-fill! b 3)"]
    c.diff("mutation histories, deeper", histories(init, deep, "(o)", c.q(5, 6)))
    # literals are shared with later evaluations of the same expression only
    ps = ["(define-values (f) (lambda () (vector 1 2))) (let-values ([(x) (f)]) (begin (vector-set! x 0 9) (list x (f) (eq? (f) (f)))))",
          "(define-values (f) (lambda () (box 1))) (let-values ([(x) (f)]) (begin (set-box! x 9) (list x (f))))",
          "(define-values (f) (lambda () (list 1 2))) (let-values ([(x) (f)]) (begin (set-car! x 9) (list x (f))))"]
    c.diff("fresh objects", ps)
    c.diff("what is given out belongs to the caller", OWN)
