"""P11: symbols with the same name are the same object, however and whenever they come to be."""


def run(c):
    pre = ("(define-values (each) (lambda (f xs) (if (null? xs) #t (if (f (car xs)) (each f (cdr xs)) (car xs))))) "
           "(define-values (read1) (lambda (s) (read (open-input-string s)))) "
           "(define-values (nm) (lambda (p i) (string-append p (number->string i)))) ")
    makers = {"string->symbol": "(string->symbol (nm \"%s\" i))", "read": "(read1 (nm \"%s\" i))", "eval": "(eval (read1 (string-append \"'\" (nm \"%s\" i))))"}
    checks = {"string->symbol": "(eq? (cdr c) (string->symbol (nm \"%s\" (car c))))", "read": "(eq? (cdr c) (read1 (nm \"%s\" (car c))))",
              "name": "(equal? (symbol->string (cdr c)) (nm \"%s\" (car c)))", "hash": "(= (eq-hash (cdr c)) (eq-hash (string->symbol (nm \"%s\" (car c)))))",
              "key": "(let-values ([(h) (make-eq-hashtable)]) (begin (hashtable-set! h (cdr c) 1) (hashtable-contains? h (string->symbol (nm \"%s\" (car c))))))"}
    fam, exp = [], []
    # grow the table by n symbols, verifying every earlier symbol after every `step` new ones; cases share a process,
    # so every case starts where the previous one left the table
    for step, n in c.q(((1, 60), (7, 400), (50, 900)), ((1, 150), (7, 1000), (50, 6000), (500, 40000))):
        for mn, mk in makers.items():
            for cn, ck in checks.items():
                if not c.thorough and step > 1 and mn != "string->symbol" and cn not in ("string->symbol", "name"):
                    continue
                tag = "%s%s%d-%d-" % (mn[0], cn[0], step, n)
                fam.append(pre + "(letrec-values ([(go) (lambda (i acc) (if (= i %d) (each (lambda (c) %s) acc) (let-values ([(acc) (cons (cons i %s) acc)]) (if (= 0 (modulo i %d)) (let-values ([(r) (each (lambda (c) %s) acc)]) (if (eq? r #t) (go (add1 i) acc) (list 'at i r))) (go (add1 i) acc)))))]) (go 0 '()))"
                           % (n, ck % tag, mk % tag, step if step < 50 else step * 4, ck % tag))
                exp.append(("V", "#t", ""))
    c.diff("interning while the table grows", fam, expect=exp, args=["--timeout", "15000"])
    # literals: the symbols of programs read one after another agree with symbols made at run time
    lits, exp = [], []
    n = c.q(4000, 40000)
    for i in range(n):
        s = "lit%d" % i
        lits.append("(list (eq? '%s (string->symbol \"%s\")) (eq? '%s '%s) (eq? '%s (car '(%s))) (eq? '%s 'lit%d))" % (s, s, s, s, s, s, s, i + 1))
        exp.append(("V", "(#t #t #t #f)", ""))
    c.diff("literals of successive programs", lits, expect=exp, args=[])
    for k in ("lambda", "if", "quote", "car", "x", "define-values", "&argument", "...", "set!"):
        pass
    special = ["lambda", "if", "quote", "begin", "define-values", "let-values", "letrec-values", "set!", "case-lambda", "quote-syntax", "car", "+", "-", "...", "&exn", "->", "<=?", "!x", "a.b", "|", "x|y"]
    special = [s for s in special if "|" not in s]
    c.diff("special names", ["(list (eq? '%s (string->symbol \"%s\")) (symbol->string '%s) (eq? '%s (read (open-input-string \"%s\"))))" % ((s,) * 5) for s in special],
           expect=[("V", '(#t "%s" #t)' % s, "") for s in special])
    # names that collide in every short hash: all strings over a two-letter alphabet up to a length
    import itertools
    words = ["".join(t) for k in range(1, c.q(10, 13)) for t in itertools.product("ab", repeat=k)]
    prog = ("(define-values (ws) '(%s)) (define-values (ss) (map string->symbol ws)) (letrec-values ([(go) (lambda (w s n) (if (null? w) n (if (eq? (string->symbol (car w)) (car s)) (if (equal? (symbol->string (car s)) (car w)) (go (cdr w) (cdr s) (add1 n)) (car w)) (car w))))]) (go ws ss 0))"
            % " ".join('"%s"' % w for w in words))
    c.diff("all short names", [prog], expect=[("V", str(len(words)), "")], args=["--timeout", "15000"])
    # all pairs of letters (and longer words that only differ in such a pair): every name interned twice through different routes,
    # with every other name already present, so the names whose hashes agree meet in one bucket
    alpha = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789!$%&*+-./:<=>?@^_~"
    fix = [("k", ""), ("", "k"), ("pre-", ""), ("", "-post"), ("a", "z"), ("kk", "kk")]
    for pf, sf in c.q(fix, fix + [(x, "") for x in "xyzXYZ!"] + [("", x) for x in "xyzXYZ!"] + [("longer-prefix-of-names-", ""), ("", "-longer-suffix-of-names"), ("q-", "-r")]):
        ws = [pf + x + y + sf for x in alpha for y in alpha]
        prog = ("(define-values (ws) '(%s)) (define-values (ss) (map string->symbol ws)) (letrec-values ([(go) (lambda (w s n) (if (null? w) n (if (eq? (string->symbol (car w)) (car s)) (if (equal? (symbol->string (car s)) (car w)) (if (eq? (car s) (read (open-input-string (string-append (car w) \" \")))) (go (cdr w) (cdr s) (add1 n)) (list 'read (car w))) (list 'name (car w))) (list 'twice (car w)))))]) (go ws ss 0))"
                % " ".join('"%s"' % w for w in ws))
        c.diff("all pairs of characters", [prog], expect=[("V", str(len(ws)), "")], args=["--timeout", "15000"])
    # distinctness: no two different names are the same symbol
    ws = words[:c.q(126, 254)]
    prog = "(define-values (ss) '(%s)) (letrec-values ([(count) (lambda (x l n) (if (null? l) n (count x (cdr l) (if (eq? x (car l)) (add1 n) n))))]) (andmap (lambda (x) (= 1 (count x ss 0))) ss))" % " ".join(ws)
    c.diff("different names differ", [prog], expect=[("V", "#t", "")])
    # fresh symbols of the syntax machinery are never equal to a name that was read
    # procedures, records and environments keyed by symbols survive table growth
    prog = pre + ("(define-values (r) (make-record-type-descriptor 'rr #f #f #f #f (vector '(mutable alpha) '(immutable beta)))) (define-values (e) (copy-environment (current-environment))) "
                  "(letrec-values ([(go) (lambda (i) (if (= i %d) (list (record-type-name r) (eq? 'alpha (vector-ref (record-type-field-names r) 0)) (eval '(car '(1 2)) e) (procedure-name car)) (begin (string->symbol (nm \"grow\" i)) (go (add1 i)))))]) (go 0))" % c.q(20000, 200000))
    c.diff("holders of symbols across growth", [prog], expect=[("V", "(|rr| #t 1 |car|)", "")], args=["--timeout", "15000"])
