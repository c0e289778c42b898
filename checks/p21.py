"""P21: printing and formatted printing produce exactly the text their directives and values call for."""
import itertools
from mc.gen import PRE

DEFS = ("(define-values (HT) (lambda () (let-values ([(h) (make-hashtable)]) (begin (hashtable-set! h 'a 1) h)))) "
        "(define-values (T) (make-record-type-descriptor 'point #f #f #f #f (vector '(immutable x)))) (define-values (W) (make-record-type-descriptor 'shown #f #f #f #f (vector '(immutable x) '(immutable y)))) "
        "(define-values (mt mw) (values (record-constructor T) (record-constructor W))) "
        "(record-writer W (lambda (r p d?) (begin (fprintf p (if d? \"<d ~a>\" \"<w ~s>\") ((record-accessor W 0) r)) (if d? (display ((record-accessor W 1) r) p) (write ((record-accessor W 1) r) p))))) ")
VALS = ["0", "-7", "123456789", "4611686018427387904", "'sym", "'|two words|", "'()", "#t", "#f", '""', '"s"', r'"q\"b\\n\nt\t"', "#\\a", "#\\space", "#\\newline", "#\\0", "#\\\\", "(void)", "eof",
        "(list 1 2)", "(cons 1 2)", "(list 1 (cons 'a \"b\") #\\c)", "(vector)", '(vector 1 "x" #\\y)', '(box "b")', "(box (box 'a))", "(cons 1 (cons 2 3))", "''a", "'(quote a b)", "'(quasiquote x)", "(HT)", "T", "(mt 1)", "(mw 'f \"t\")",
        "(mw (mw 1 2) #\\z)", "(list (mw 1 \"u\") (mt 2))", "(vector (mw \"i\" 'j))", "(box (mw #\\k (list \"l\")))", "(quote-syntax (a \"s\" #\\c))", "(list (quote-syntax x) 1)", '(open-input-string "x")', "(open-output-string)", "'~a", '"~a~%"']
SHOW = ["(write %s)", "(display %s)", "(put-datum (current-output-port) %s)", "(printf \"~a\" %s)", "(printf \"~s\" %s)", "(begin (printf \"[~A|\" %s) (printf \"~S]\" 1))", "(fprintf (current-output-port) \"~s~%%\" %s)",
        "(display (format \"~a\" %s))", "(write (format \"~s\" %s))", "(eprintf \"~a\" %s)", "(eprintf \"~s\" %s)", "(fprintf (current-error-port) \"~a-\" %s)", "(let-values ([(o) (open-output-string)]) (begin (write %s o) (display 'x o) (write (get-output-string o))))",
        "(let-values ([(o) (open-output-string)]) (begin (fprintf o \"~a \" %s) (put-datum o 1) (display (get-output-string o))))", "(write %s (current-error-port))", "(display %s (current-error-port))", "(list (write %s) 1)"]
WRAP = ["%s", "(list %s %s)", "(cons %s %s)", "(vector 0 %s)", "(box %s)", "(list (vector (box %s)) 'z)", "(mw %s 1)", "(mw 1 %s)"]


def run(c):
    # 1. every value, wrapped in every container, through every way of printing
    ps = []
    for w, v, s in itertools.product(WRAP, VALS, SHOW):
        e = w.replace("%s", v)
        ps.append(DEFS + s.replace("%s", e).replace("%%", "%"))
    c.diff_err("every value through every printer", ps)
    # 2. every format string up to a length, with every number of arguments
    ps = []
    alpha = ["~", "a", "S", "%", "x"] if not c.thorough else ["~", "a", "S", "%", "x", "A", "s", " "]
    args = ["'q", '"r"', "#\\t", "(list \"u\" #\\v)"]
    for n in range(0, 6):
        for t in itertools.product(alpha, repeat=n):
            f = "".join(t)
            k = 0
            i = 0
            while i < len(f):
                if f[i] == "~" and i + 1 < len(f):
                    k += f[i + 1] in "aAsS"
                    i += 1
                i += 1
            for m in sorted({k, k + 1, max(0, k - 1), 0}):
                if m != k and (n == 5 and not c.thorough):
                    continue
                ps.append("(printf \"%s\" %s)" % (f, " ".join(args[:m])))
    c.diff_err("every format string", ps)
    who = ["(fprintf (current-output-port) ", "(fprintf (current-error-port) ", "(eprintf ", "(format ", "(errorf 'w ", "(apply format (list ", "(let-values ([(o) (open-output-string)]) (begin (fprintf o ", "(fprintf 5 ", "(fprintf (open-input-string \"i\") ", "(errorf #f "]
    end = [")", ")", ")", ")", ")", "))", ") (get-output-string o)))", ")", ")", ")"]
    ps = []
    for n in range(0, c.q(4, 6)):
        for t in itertools.product(["~", "a", "s", "%", "x"], repeat=n):
            for m in range(0, 3):
                for w, e in zip(who, end):
                    ps.append(w + '"%s" ' % "".join(t) + " ".join(args[:m]) + e)
    # a format of the wrong kind, and directives of every character
    for w, e in zip(who, end):
        for f in ("1", "'a", "#\\a", "'()", '(string #\\~ #\\a)', '(make-string 3 #\\~)'):
            for m in (0, 1):
                ps.append(w + f + " " + " ".join(args[:m]) + e)
    for ch in range(33, 127):
        if chr(ch) not in '"\\':
            ps.append('(list (format "<~%s>" 1))' % chr(ch))
            ps.append('(list (format "<%s>"))' % chr(ch))
            ps.append('(list (format "~a%s~s" \'x "y"))' % chr(ch))
    c.diff_err("formatting procedures", ps)
    # 3. long results and many arguments
    ps = []
    for n in list(range(0, 40)) + [100, 255, 256, 257, 1000, 4095, 4096, 4097, 10000]:
        ps.append("(string-length (format \"~a\" (make-string %d #\\x)))" % n)
        ps.append("(string-length (format \"~s\" (make-string %d #\\\")))" % n)
        ps.append("(display (format (make-string %d #\\y)))" % n)
        ps.append("(string-length (format \"~s\" (iota %d)))" % n)
        if n <= 1000:
            ps.append("(display (apply format (list->string (apply append (map (lambda (i) (list #\\~ (if (= 0 (remainder i 2)) #\\a #\\s) #\\,)) (iota %d)))) (map (lambda (i) (list i \"s\")) (iota %d))))" % (n, n))
    c.diff_err("sizes", ps)
    # 4. printing interleaved on several ports, with writers that print elsewhere
    ops = ["(display 'a o)", "(write \"b\" q)", "(fprintf o \"~a~s\" 1 \"c\")", "(printf \"~a\" 'd)", "(display (mw 1 2) o)", "(write (mw \"e\" (mw #\\f 3)))", "(display (get-output-string o))", "(newline q)", "(put-string q \"gh\")", "(write-char #\\i o)", "(display (mo 7) q)", "(write (get-output-string q))", "(eprintf \"~a\" (mw 0 (mo 1)))"]
    pre = DEFS + "(define-values (o) (open-output-string)) (define-values (q) (open-output-string)) (define-values (O) (make-record-type-descriptor 'other #f #f #f #f (vector '(immutable x)))) (define-values (mo) (record-constructor O)) (record-writer O (lambda (r p d?) (begin (display 'elsewhere o) (display d? p)))) "
    ps = [pre + " ".join(t) + " (list (get-output-string o) (get-output-string q))" for n in (1, 2, 3) for t in itertools.product(ops, repeat=n)]
    if c.thorough:
        ps += [pre + " ".join(t) + " (list (get-output-string o) (get-output-string q))" for t in itertools.product(ops[::2], repeat=5)]
    c.diff_err("printing on several ports", ps)
