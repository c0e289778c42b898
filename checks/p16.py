"""P16: ports: every history of reading, writing and closing gives each port exactly its own characters in order."""
import itertools
from mc.gen import histories
from p06 import H

IN = ("(define-values (a b) (values (open-input-string \"x (y\\n\\\"z\\\")#\\\\w 12\") (open-input-string \"\"))) "
      "(define-values (o) (lambda () (begin (write (list (input-port? a) (output-port? a) (string-port? a) (eq? a b))) (newline)))) (define-values (w) (lambda (x) (begin (write x) (newline)))) ")
INOPS = ["(w (read-char a))", "(w (peek-char a))", "(w (read a))", "(w (char-ready? a))", "(close-input-port a)", "(w (list (peek-char a) (read-char a) (read-char a)))", "(set! b a)", "(w (list (read-char b) (eof-object? (peek-char b))))",
         "(set! a (open-input-string \"q r\"))", "(w (list (read a) (read-char a) (read a) (read-char a)))"]
OUT = ("(define-values (s t) (values (open-output-string) (open-output-string))) (define-values (w) (lambda (x) (begin (write x) (newline)))) (define-values (o) (lambda () (begin (write (list (output-port? s) (input-port? s) (string-port? s) (eq? s t))) (newline)))) ")
OUTOPS = ["(write-char #\\a s)", "(put-string s \"bcd\" 1)", "(put-string t \"efgh\" 1 2)", "(write '(\"q\" #\\r) s)", "(display '(\"u\" #\\v) t)", "(newline s)", "(w (get-output-string s))", "(w (get-output-string t))", "(close-output-port s)", "(set! t s)", "(put-char t #\\nul)"[:0] or "(put-char t #\\z)", "(put-datum s 'm)", "(flush-output-port s)", "(set! s (open-output-string))"]
FILE = ("(define-values (w) (lambda (x) (begin (write x) (newline)))) (define-values (f g) (values \"%s\" \"%sg\")) (define-values (o i) (values (open-output-file f) (open-input-string \"k (l) m\"))) (define-values (ob) (lambda () (begin (write (list (output-port? o) (string-port? o) (input-port? i))) (newline)))) ")
FILEOPS = ["(write '(a \"b\") o)", "(put-string o \"cde\" 1)", "(close-output-port o)", "(flush-output-port o)", "(set! i (open-input-file f))", "(w (read i))", "(w (read-char i))", "(w (peek-char i))", "(close-input-port i)", "(set! o (open-output-file g))", "(set! i (open-input-file g))", "(newline o)"]


def run(c):
    c.diff("histories of input string ports", histories(IN, INOPS, "(o)", c.q(4, 5)))
    c.diff("histories of output string ports", histories(OUT, OUTOPS, "(o)", c.q(3, 4)))
    deep = ["(write-char #\\a s)", "(display \"bc\" t)", "(w (get-output-string s))", "(w (get-output-string t))", "(set! t s)"]
    c.diff("histories of output string ports, deeper", histories(OUT, deep, "(o)", c.q(5, 7)))
    seqs = itertools.product(FILEOPS, repeat=c.q(4, 5))
    c.diff("histories of files", [FILE % ("f%d" % n, "f%d" % n) + " (ob) ".join(t) + " (ob) (close-output-port o) (w (let-values ([(i) (open-input-file f)]) (letrec-values ([(all) (lambda () (let-values ([(c) (read-char i)]) (if (eof-object? c) '() (cons c (all)))))]) (all))))" for n, t in enumerate(seqs) if t.count("(set! i (open-input-file g))") == 0 or "(set! o (open-output-file g))" in t])
    # a file written again holds exactly what was written last, for every sequence of contents; another file keeps its own
    txt = ["", "a", "bcd", "efghijk", "mnopqrstuvwxyzmnopqrstuvwxyz"]
    ps, exp = [], []
    for n, t in enumerate(itertools.product(itertools.product(range(len(txt)), "fg"), repeat=c.q(3, 4))):
        cur, want, body = {}, [], []
        for k, f in t:
            cur[f] = txt[k]
            body.append("(put \"r%d%s\" \"%s\")" % (n, f, txt[k]))
            body.append("(list %s)" % " ".join("(get \"r%d%s\")" % (n, x) for x in sorted(cur)))
            want.append('("%s")' % '" "'.join(cur[x] for x in sorted(cur)))
        ps.append("(define-values (put) (lambda (n s) (let-values ([(p) (open-output-file n)]) (begin (put-string p s) (close-output-port p))))) (define-values (get) (lambda (n) (let-values ([(p) (open-input-file n)]) (letrec-values ([(go) (lambda (l) (let-values ([(x) (read-char p)]) (if (eof-object? x) (begin (close-input-port p) (list->string (reverse l))) (go (cons x l)))))]) (go '()))))) "
                  "(letrec-values ([(all) (lambda () (let-values %s (list %s)))]) (all))" % ("()", " ".join("(begin %s %s)" % (body[i], body[i + 1]) for i in range(0, len(body), 2))))
        exp.append(("V", "(%s)" % " ".join(want), ""))
    c.diff("files written again", ps, expect=exp)
    # buffer sizes: text of every length comes back whole, by characters, by peeks, by data
    all_ = "(letrec-values ([(all) (lambda (i acc) (let-values ([(k) (peek-char i)]) (let-values ([(c) (read-char i)]) (if (eof-object? c) (if (eof-object? k) (list->string (reverse acc)) 'bad) (if (eq? k c) (all i (cons c acc)) 'bad2)))))]) %s)"
    L = list(range(0, c.q(50, 300))) + [511, 512, 513, 1023, 1024, 1025, 4094, 4095, 4096, 4097, 4098, 8191, 8192, 8193] + c.q([], [16383, 16384, 16385, 65535, 65536, 65537, 100000])
    ps, exp = [], []
    for n in L:
        mk = "(let-values ([(s) (make-string %d #\\m)]) (begin (for-each (lambda (i) (string-set! s i (integer->char (+ 97 (modulo i 23))))) (iota %d)) %%s))" % (n, n)
        n_ = len(ps)
        for b in ("(equal? s (all (open-input-string s) '()))", "(let-values ([(o) (open-output-string)]) (begin (display s o) (let-values ([(x) (get-output-string o)]) (begin (write s o) (if (equal? x s) (equal? s (read (open-input-string (get-output-string o)))) #f)))))" if n <= 4096 else "#t",
                  "(let-values ([(o) (open-output-string)]) (begin (for-each (lambda (i) (put-string o s i 1)) (iota (string-length s))) (equal? s (get-output-string o))))",
                  "(let-values ([(o) (open-output-file \"b%d\")]) (begin (display s o) (close-output-port o) (let-values ([(i) (open-input-file \"b%d\")]) (let-values ([(x) (all i '())]) (begin (close-input-port i) (equal? s x))))))" % (n_, n_),
                  "(let-values ([(o) (open-output-file \"c%d\")]) (begin (for-each (lambda (i) (write-char (string-ref s i) o)) (iota (string-length s))) (flush-output-port o) (let-values ([(i) (open-input-file \"c%d\")]) (let-values ([(x) (all i '())]) (begin (close-input-port i) (close-output-port o) (equal? s x))))))" % (n_, n_)):
            ps.append(all_ % (mk % b))
            exp.append(("V", "#t", ""))
    c.diff("sizes", ps, expect=exp, args=["--timeout", "10000"])
    # every byte, through files (also NUL) and strings
    ps, exp = [], []
    for b in range(256):
        for pre in ("", "ab"):
            ps.append("(let-values ([(o) (open-output-file \"y%d%s\")]) (begin (display \"%s\" o) (write-char (integer->char %d) o) (put-char o (integer->char %d)) (display \"z\" o) (close-output-port o) (let-values ([(i) (open-input-file \"y%d%s\")]) (let-values ([(x) (values (peek-char i))]) (letrec-values ([(all) (lambda () (let-values ([(r) (char-ready? i)]) (let-values ([(p) (peek-char i)]) (let-values ([(c) (read-char i)]) (if (eof-object? c) (list r (eof-object? p)) (cons r (cons (char->integer p) (cons (char->integer c) (all)))))))))]) (all))))))" % (b, pre, pre, b, b, b, pre))
            cs = [ord(x) for x in pre] + [b, b, ord("z")]
            exp.append(("V", "(%s #f #t)" % " ".join("#t %d %d" % (x, x) for x in cs), ""))
    c.diff("every byte through a file", ps, expect=exp)
    # arguments
    vals = ["5", "'a", "\"s\"", "#\\a", "'()", "car", "(open-input-string \"x\")", "(open-output-string)", "(current-output-port)"]
    ps = []
    for f in ("read-char", "peek-char", "read", "char-ready?", "close-input-port", "close-output-port", "get-output-string", "flush-output-port", "open-input-string", "newline", "input-port?", "output-port?", "string-port?"):
        ps += ["(%s %s)" % (f, v) for v in vals if not (f in ("close-output-port", "flush-output-port", "get-output-string") and v == "(current-output-port)")]
    for f in ("write-char", "put-char", "write", "display", "put-datum", "put-string"):
        ps += ["(%s %s %s)" % (f, v, w) for v in vals for w in vals]
    for v in ("5", "'a", "#f", "\"no-such-file\"", "\"\""):
        ps += ["(open-input-file %s)" % v] + (["(open-output-file %s)" % v] if v[0] != '"' else [])
    ps += ["(put-string (current-output-port) \"abcd\" %s)" % x for x in ("0", "2", "4", "5", "-1", "'a")] + ["(put-string (current-output-port) \"abcd\" %s %s)" % (x, y) for x in ("0", "2", "4", "5", "-1", "'a") for y in ("0", "1", "2", "4", "5", "-1", "'a")]
    c.diff("arguments", ps + [H + p for p in ps])
    shut = "(define-values (i o) (values (open-input-string \"x\") (open-output-string))) (close-input-port i) (close-output-port o) "
    ps = [shut + "(%s)" % x for f in (["read-char i", "peek-char i", "read i", "char-ready? i", "close-input-port i", "close-output-port o", "get-output-string o", "flush-output-port o", "newline o", "write 1 o", "display 1 o", "write-char #\\a o", "put-char o #\\a", "put-string o \"abc\"", "put-datum o 1", "fprintf o \"x\"", "input-port? i", "output-port? o", "string-port? o", "fasl-read i"],) for x in f]
    c.diff("closed ports", [p for p in ps if "fasl" not in p])
    c.law("closed ports, binary", [p for p in ps if "fasl" in p] + [shut + "(fasl-write 1 o)"], lambda r: r.k == "E" and r.v == "1")
