"""P07: strings, characters and symbols against a reference, every operation history and index."""
import itertools
from mc.gen import histories
from p06 import H

CH = "a\"\\ \t(;#|'0Z~"


def lit(s):
    return '"' + "".join({'"': '\\"', "\\": "\\\\", "\t": "\\t", "\n": "\\n"}.get(c, c) for c in s) + '"'


def run(c):
    ST = [""] + ["".join(t) for n in (1, 2) for t in itertools.product("ab\"\\ 0", repeat=n)] + ["abc", "hello world", "a\tb", "~a~s", "#t", "'x", "1e5", "(", "|a b|"]
    L = [lit(s) for s in ST]
    ps = ["(%s %s)" % (f, s) for f in ("string-length", "string->list", "string->symbol", "string?", "symbol?", "write", "display", "string-append", "string->number") for s in L if f != "string->number" or s in ('"10"',)]
    ps += ["(let-values ([(s) %s]) (list (equal? s (list->string (string->list s))) (equal? s (symbol->string (string->symbol s))) (eq? (string->symbol s) (string->symbol (string-append s))) (string-append s \"\" s) (apply string (string->list s))))" % s for s in L]
    IDX = ["-1", "0", "1", "2", "3", "'a", "4294967296", "4611686018427387903"]
    ps += ["(string-ref %s %s)" % (s, i) for s in L for i in IDX] + ["(let-values ([(s) (string-append %s)]) (begin (string-set! s %s #\\Q) s))" % (s, i) for s in L for i in IDX]
    ps += ["(let-values ([(s) (string-append %s)]) (begin (string-set! s 0 #\\%s) (list s (string-length s) (string-ref s 0))))" % (s, ch) for s in L[1:] for ch in ("a", "\\", '"', "space", "tab", "(")]
    ps += ["(string-append %s %s)" % t for t in itertools.product(L, L)]
    ps += ["(equal? %s %s)" % t for t in itertools.product(L, L)] + ["(eq? (string->symbol %s) (string->symbol %s))" % t for t in itertools.product(L, L)]
    c.diff("strings and indices", ps)
    c.diff("three strings", ["(string-append %s %s %s)" % t for t in itertools.product(L[:9], repeat=3)])
    CHS = ["#\\" + x for x in ("a", "Z", "0", "(", ")", ";", "\"", "\\", "'", "#", "|", "space", "newline", "tab", "nul", "alarm", "backspace", "delete", "esc", "page", "return", "vtab", "~", "x", "n", "s")]
    ps = ["(%s %s)" % (f, x) for f in ("char->integer", "char?", "string", "write", "display", "write-char", "symbol?", "list") for x in CHS if not (x == "#\\nul" and f == "string")]
    ps += ["(let-values ([(x) %s]) (list (eq? x (integer->char (char->integer x))) (equal? x (integer->char (char->integer x))) (char->integer (integer->char (char->integer x)))))" % x for x in CHS]
    ps += ["(let-values ([(x) (integer->char %d)]) (list x (char->integer x) (char? x) (eq? x (integer->char %d))))" % (i, i) for i in range(0, 256)]
    ps += ["(let-values ([(s) (string (integer->char %d) #\\a)]) (list (string-length s) (char->integer (string-ref s 0)) (map char->integer (string->list s))))" % i for i in range(1, 256)]
    ps += ["(begin (write (integer->char %d)) (display (integer->char %d)) (write (string (integer->char %d))) (display (string (integer->char %d))) (write (string->symbol (string (integer->char %d)))))" % ((i,) * 5) for i in range(1, 256)]
    ps += ["(eq? %s %s)" % t for t in itertools.product(CHS, CHS)]
    c.diff("characters", ps)
    ps = ["(make-string %s)" % n for n in ("-1", "0", "1", "3", "'a")] + ["(make-string %s %s)" % t for t in itertools.product(("-1", "0", "1", "3", "64", "'a"), ("#\\x", "#\\\"", "5", '"s"'))]
    for n in list(range(0, c.q(70, 300))) + [127, 128, 129, 255, 256, 257, 1000, 4096, 20000]:
        ps.append("(let-values ([(s) (make-string %d #\\k)]) (list (string-length s) (length (string->list s)) (string-length (string-append s s)) (equal? s (list->string (string->list s))) (string-length (symbol->string (string->symbol s)))))" % n)
        if n:
            ps.append("(let-values ([(s) (make-string %d #\\k)]) (begin (string-set! s %d #\\z) (string-set! s 0 #\\a) (list (string-ref s %d) s)))" % (n, n - 1, n - 1))
            ps.append("(string-ref (make-string %d #\\k) %d)" % (n, n))
            ps.append("(let-values ([(s) (make-string %d #\\k)]) (string-set! s %d #\\a))" % (n, n))
    ps += ["(begin (write (make-string %d)) (string-length (make-string %d)))" % (n, n) for n in (0, 1, 5)]
    c.diff("lengths", ps)
    bad = ["5", "'a", '"s"', "#\\a", "'()", "(list 1)", "(list #\\a 1)", "'(#\\a . #\\b)", "#t"]
    ps = [w % b for b in bad for w in ("(string-length %s)", "(string-ref %s 0)", "(string-append %s)", "(string-append \"a\" %s)", "(string-append %s \"a\")", "(string->list %s)", "(string->symbol %s)", "(symbol->string %s)", "(string %s)", "(string #\\a %s)",
                                    "(char->integer %s)", "(integer->char %s)", "(number->string %s)", "(string->number %s)", "(string-ref \"abc\" %s)", "(make-string %s #\\a)", "(make-string 1 %s)", "(list->string (list #\\a %s))", "(string-append \"a\" \"b\" %s)", "(string-append %s \"a\" \"b\")")
          if not (w.startswith("(string->number") and b == '"s"')]
    c.diff("arguments of the wrong kind", ps + [H + p for p in ps])
    N = list(range(-120, 1200, 7)) + [s * (10 ** k + d) for k in range(1, 18) for d in (-1, 0, 1) for s in (1, -1)]
    c.diff("numbers as text", ["(list (number->string %d) (string->number (number->string %d)) (string-length (number->string %d)))" % (n, n, n) for n in N] +
           ["(string->number \"%s\")" % s for s in ("0", "-0", "007", "-12", "123456789012345678")])
    init = "(define-values (a b) (values (make-string 3 #\\.) (string-append \"xy\"))) (define-values (o) (lambda () (begin (write (list a b (eq? a b) (equal? a b) (string-length a) (eq? (string->symbol a) (string->symbol b)))) (newline)))) "
    ops = ["(string-set! a 0 #\\A)", "(string-set! b 1 #\\B)", "(string-set! a 2 (string-ref b 0))", "(set! a (string-append a b))", "(set! b a)", "(set! b (string-append a))", "(set! b (list->string (string->list a)))",
           "(set! a (symbol->string (string->symbol a)))", "(set! a (apply string (string->list b)))", "(set! b (string-append \"xy\"))", "(set! a (string-append b \"\"))", "(string-set! b 0 (string-ref a 0))", "(set! a (make-string 2 (string-ref b 1)))"]
    # the sharing between a one-argument string-append, symbol names and their strings is not specified: copy after them
    ops = [o for o in ops if o not in ("(set! b (string-append a))", "(set! a (symbol->string (string->symbol a)))")]
    init = init.replace('(string-append "xy")', "(string #\\x #\\y)")
    ops = [o.replace('(string-append "xy")', "(string #\\x #\\y)") for o in ops]
    c.diff("mutation histories", histories(init, ops, "(o)", c.q(4, 5)))
    names = ["a", "b", "ab", "", "1", "a b", "quote", "lambda", "&", "..."]
    ps = ["(list (eq? (string->symbol %s) (string->symbol %s)) (equal? (string->symbol %s) (string->symbol %s)))" % (lit(x), lit(y), lit(x), lit(y)) for x in names for y in names]
    ps += ["(list (eq? '%s (string->symbol %s)) (symbol->string '%s))" % (x, lit(x), x) for x in ("a", "b", "ab", "quote", "lambda", "&", "x-y!", "->z", "+a")]
    c.diff("symbols", ps)
