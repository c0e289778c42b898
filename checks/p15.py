"""P15: binary serialization: what is written is read back equal, and cut-off data is reported, for every datum and cut."""
import itertools
from mc import ref
from p14 import data

W = ("(define-values (w) (lambda (f x) (let-values ([(o) (open-output-file f)]) (begin (for-each (lambda (x) (fasl-write x o)) x) (close-output-port o))))) "
     "(define-values (r) (lambda (f n) (let-values ([(i) (open-input-file f)]) (letrec-values ([(go) (lambda (n) (if (= n 0) '() (let-values ([(x) (fasl-read i)]) (cons x (go (- n 1))))))]) (let-values ([(l) (go n)]) (let-values ([(e) (read-char i)]) (begin (close-input-port i) (list (eof-object? e) l)))))))) ")
CUT = ("(define-values (cut) (lambda (f g k) (let-values ([(i o) (values (open-input-file f) (open-output-file g))]) (letrec-values ([(go) (lambda (k) (if (= k 0) #t (let-values ([(c) (read-char i)]) (if (eof-object? c) #f (begin (put-char o c) (go (- k 1)))))))]) "
       "(let-values ([(x) (go k)]) (begin (close-input-port i) (close-output-port o) x)))))) ")


def rt(c, name, exprs, flavor="rel"):
    """exprs: expressions for lists of values."""
    ps = [W + "(define-values (x) %s) (w \"f%d\" x) (let-values ([(y) (r \"f%d\" (length x))]) (list (equal? (cadr y) x) y))" % (e, i, i) for i, e in enumerate(exprs)]
    exp = []
    for e in exprs:
        k, v, out = ref.run("(list (eof-object? eof) %s)" % e)
        assert k == "V", (e, k, v)
        exp.append(("V", "(#t %s)" % v, ""))
    c.diff(name, ps, expect=exp, flavor=flavor)


def run(c):
    atoms = ["a", "-7", "\"x\\n\"", "#\\space", "#t", "#f"]
    ds = [d for n in range(1, c.q(4, 5)) for d in data(n, atoms)] + [d for n in (c.q(4, 5), c.q(5, 6)) for d in data(n, ["b"])]
    rt(c, "data", ["(list '%s)" % d for d in ds if "#&" not in d])
    small = ["'a", "-1", "\"\"", "eof", "(void)", "'()", "(vector)", "'(1 . 2)", "#\\a", "#t"]
    rt(c, "several values in one file", ["(list %s)" % " ".join(t) for n in (0, 2, 3) for t in itertools.product(small, repeat=n)])
    ints = sorted(set(range(-200, 300)) | {s * (2 ** k + d) for k in range(0, 61) for s in (1, -1) for d in (-1, 0, 1)} | {s * 10 ** k for k in range(18) for s in (1, -1)})
    rt(c, "integers", ["(list %d '(%d . %d))" % (i, i, -i) for i in ints])
    rt(c, "characters and strings", ["(list (integer->char %d) (string (integer->char %d)) (string #\\a (integer->char %d)) (string->symbol (string (integer->char %d))))" % (b, b, b, b) for b in range(1, 256)] + ["(list (integer->char 0))"])
    L = list(range(0, c.q(70, 300))) + [126, 127, 128, 129, 255, 256, 257, 1000] + c.q([16383, 16384], [4095, 4096, 8191, 8192, 16383, 16384, 16385, 40000])
    ex = []
    for n in L:
        ex.append("(let-values ([(s) (make-string %d #\\s)]) (list s (string->symbol (string-append s \"x\")) (make-vector %d 'v) (iota %d) '(1 %s . tail)))" % (n, n, n, " ".join(map(str, range(min(n, 1000))))))
    rt(c, "lengths", ex)
    rt(c, "nesting", ["(list '%s)" % (a * n + b + e * n) for n in list(range(1, 20)) + [100, 400] for a, b, e in (("(", "", ")"), ("#(", "a", ")"), ("(a . ", "b", ")"), ("(1 ", "2", " 3)"), ("#((", "x", ") z)"))])
    # records: contents survive; their type is an equal description
    ps, exp = [], []
    for fields, vals in (("", ""), ("'(immutable x)", "1"), ("'(mutable x) '(immutable y)", "'(a \"b\") #\\c"), ("'(mutable x) '(mutable y) '(mutable z)", "(vector 1 2) '() -1")):
        for parent in ("#f", "(make-record-type-descriptor 'par #f #f #f #f (vector '(mutable p)))"):
            n = len(ps)
            pv = "" if parent == "#f" else "'pp"
            ps.append(W + "(define-values (t) (make-record-type-descriptor 'rec %s #f #f #f (vector %s))) (w \"r%d\" (list ((record-constructor t) %s %s) 'end)) (let-values ([(y) (r \"r%d\" 2)]) (let-values ([(q) (car (cadr y))]) (let-values ([(d) (record-rtd q)]) "
                      "(list (record? q) (record-type-name d) (record-type-field-names d) (if (record-type-parent d) (list (record-type-name (record-type-parent d)) ((record-accessor (record-type-parent d) 0) q)) #f) (map (lambda (i) ((record-accessor d i) q)) (iota (vector-length (record-type-field-names d)))) (cadr (cadr y)) (car y)))))" % (parent, fields, n, pv, vals, n))
            names = [f.split()[1].rstrip(")") for f in fields.split(" '")] if fields else []
            k, v, o = ref.run("(list #t 'rec (vector %s) %s (list %s) 'end #t)" % (" ".join("'" + x for x in names), "#f" if parent == "#f" else "(list 'par 'pp)", vals))
            exp.append(("V", v, ""))
    c.diff("records", ps, expect=exp)
    # cut after every byte
    cuts = ["'()", "'a", "'symbol", "\"string\"", "-5", "300", "#\\a", "'(1 2 3)", "'(1 . 2)", "(vector 1 'a \"b\")", "(vector)", "'((a \"b\") #(1 #(2)) . c)", "#t", "(void)", "eof", "(iota 20)", "(list 'a (make-string 30 #\\z) (vector '(1 2) -1))", "4611686018427387903",
            "((record-constructor (make-record-type-descriptor 'rec #f #f #f #f (vector '(immutable x) '(mutable y)))) 1 'two)"]
    for fl in ("rel", "asan"):
        ps, exp = [], []
        for x in cuts:
            for k in range(0, c.q(60, 90)):
                n = len(ps)
                ps.append(W + CUT + "(w \"c%d\" (list %s)) (if (cut \"c%d\" \"d%d\" %d) (let-values ([(i) (open-input-file \"c%d\")]) (letrec-values ([(size) (lambda (n) (if (eof-object? (read-char i)) n (size (add1 n))))]) (if (= (size 0) %d) 'whole (begin (display \"cut\") (r \"d%d\" 1) 'no-error)))) 'past)" % (n, x, n, n, k, n, k, n))
        good = lambda r: (r.k == "V" and r.v in ("|whole|", "|past|") and r.out == "") or (r.k == "E" and r.v == "1" and r.out == "cut" and r.err != "")
        c.law("cut after every byte" + (", memory-checked" if fl == "asan" else ""), ps, good, flavor=fl)
    # what cannot be serialized, and wrong arguments
    bad = ["car", "(lambda () 1)", "(make-eq-hashtable)", "(current-output-port)", "(current-environment)", "(list 1 car)", "(vector car)", "(quote-syntax a)"]
    c.law("objects that cannot be serialized", [W + "(w \"b%d\" (list %s))" % (i, b) for i, b in enumerate(bad)] + ["(fasl-write 1 %s)" % b for b in bad + ["1", "\"f\"", "'a"] if "current-output" not in b] + ["(fasl-read %s)" % b for b in bad + ["1", "\"f\"", "'a"]], lambda r: r.k == "E" and r.v == "1" and r.err != "")
