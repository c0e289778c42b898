"""P14: reading external text, and reading back what was written, for every text and datum of a bounded size."""
import itertools
from mc import reader, ref
from mc.check import pmap

PRE = ("(define-values (all) (lambda (s) (let-values ([(p) (open-input-string s)]) (letrec-values ([(go) (lambda (acc) (let-values ([(x) (read p)]) (if (eof-object? x) (begin (close-input-port p) (reverse acc)) (go (cons x acc)))))]) (go '())))))")
LIT = {7: "\\a", 8: "\\b", 9: "\\t", 10: "\\n", 11: "\\v", 12: "\\f", 13: "\\r", 34: '\\"', 92: "\\\\"}


def lit(bs):
    if len(bs) > 1500:
        return "(string-append %s)" % " ".join(lit(bs[i:i + 1500]) for i in range(0, len(bs), 1500))
    return '"' + "".join(LIT.get(b, chr(b)) for b in bs) + '"'


def model(bs):
    """Expected result of reading all data of a text."""
    r = reader.Reader(bs)
    out = []
    try:
        while True:
            x = r.read()
            if x is None:
                return ("V", ref.show(ref.lst(out)), "")
            out.append(x)
    except reader.Malformed:
        return ("E", "1", "")
    except ref.Unspecified:
        return None


def texts(c, name, ts, flavor="rel"):
    ts = [t if isinstance(t, list) else [ord(x) for x in t] for t in ts]
    c.diff(name, [PRE + "(all %s)" % lit(t) for t in ts], expect=pmap(model, ts), flavor=flavor)


def words(alphabet, lo, hi):
    for n in range(lo, hi + 1):
        for t in itertools.product(alphabet, repeat=n):
            yield "".join(t)


def data(size, atoms):
    """Every datum with that many nodes, as program text of a constructing expression is not needed: external text."""
    if size == 1:
        return atoms + ["()", "#()"]
    out = []
    for x in data(size - 1, atoms):
        out += ["#&" + x, "(%s)" % x, "#(%s)" % x]
    for a in range(1, size - 1):
        for x in data(a, atoms):
            for y in data(size - 1 - a, atoms):
                out += ["(%s . %s)" % (x, y), "(%s %s)" % (x, y), "#(%s %s)" % (x, y)]
    return out


RT = ("(define-values (rt) (lambda (x) (let-values ([(o) (open-output-string)]) (begin (write x o) (let-values ([(s) (get-output-string o)]) (let-values ([(i) (open-input-string s)]) (let-values ([(y) (read i)]) "
      "(let-values ([(r) (list s (equal? x y) y (eof-object? (read i)))]) (begin (close-input-port i) (close-output-port o) r))))))))) ")


def run(c):
    chars = list("()['.#;|\"\\a1- \n&tx%")
    texts(c, "texts of single characters", words(chars, 0, c.q(3, 4)))
    texts(c, "texts of single characters, longer", words(list("(a.#;|\" \n)"), 4, c.q(4, 5)))
    texts(c, "character texts", ["#\\" + w for w in words(list("anse w(t;\"#x") + ["space", "newline", "nul", "u"], 0, c.q(3, 4))] + ["#\\%s%s" % (n[:k], s) for n in reader.NAMES for k in range(1, len(n) + 1) for s in ("", "x", " ", ")", "\"", "n", "#")])
    texts(c, "string texts", ["\"" + w for w in words(list("a\\n\"'x \n(;0t"), 0, c.q(4, 5))])
    texts(c, "number texts", words(list("+-019a."), 1, c.q(5, 6)))
    texts(c, "number texts, hexadecimal", ["#x" + w for w in words(list("+-0aFg "), 0, c.q(4, 5))])
    texts(c, "comments", words(["#|", "|#", "|", "#", "a", "#;", ";", "\n", "(", ")"], 1, c.q(4, 5)))
    toks = ["(", ")", "[", "]", "'", " . ", "a", "12", "#(", "#&", "\"s\"", "#;", "#|c|#", ";c\n", "#t", "#\\a", " "]
    texts(c, "texts of tokens", words(toks, 1, c.q(4, 4)))
    texts(c, "texts of tokens, longer", words(["(", ")", "[", "]", " . ", "a ", "#;", "#("], 5, c.q(5, 6)))
    texts(c, "texts of tokens, bracketed", [o + w + e for o, e in (("(", ")"), ("#(", ")"), ("[", "]"), ("(a . ", ")"), ("#;(", ") b"), ("'(", ")"), ("{", "}"), ("(", "]")) for w in words([" . ", "a ", "#;", "(", ")", "'", "1", "#\\)", "\"(\"", "#|)|#", ";)\n"], 0, c.q(3, 4))])
    # every byte in every role
    B = [b for b in range(1, 256)]
    o = lambda s: [ord(x) for x in s]
    ts = []
    for b in B:
        for pre, post in (("", ""), ("a", "c"), ("1", "2"), ("#\\", ""), ("#\\", "x"), ("#\\", ")"), ("(", ")"), ("\"", "\""), ("\"x", "y\""), ("\"\\", "\""), ("#", ""), ("#", "a"), ("(a ", " b)"), ("a", ""), ("-", ""), (";", "\na"), ("#|", "|#a"), ("'", "a"), ("#;", "a b"), ("(a .", "b)"),
                          ("#\\a", ""), ("#\\space", ""), ("12", ""), ("#t", ""), ("#x1", ""), ("(a . b", ")"), ("\"a\"", "b"), ("(a)", "(b)")):
            ts.append(o(pre) + [b] + o(post))
    texts(c, "every byte in every role", ts)
    texts(c, "every pair of bytes as text", [[a, b] for a in B for b in (B if c.thorough else B[:127]) if a < 127 or c.thorough])
    # lengths
    ts = []
    for n in sorted(set(range(1, 40)) | set(range(120, 132)) | set(range(250, 260)) | {500, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049} | set(range(4080, 4110)) | {5000, 8191, 8192, 8193, 20000}):
        for t in ("a" * n, "\"%s\"" % ("b" * n), "(x %s y)" % ("c" * n), "#%" + "d" * n, "\"%s\"" % ("\\n" * n), "0" * n, "-" + "0" * n, "#x" + "0" * n, "1" + "a" * n, "(\"%s\" z)" % ("e" * n), " " * n + "a", ";" + "c" * n + "\nb", "#|" + "|" * n + "|#c", "#%s" % ("0" * n), "#\\" + "a" * n, "\"" + "a" * n, "1" * min(n, 17) + "x" * n):
            ts.append(t)
    texts(c, "lengths", ts)
    texts(c, "lengths, memory-checked", [t for t in ts if len(t) < 60 or 4080 < len(t) < 4115 or len(t) == 8192], flavor="asan")
    texts(c, "nesting", [a * n + b + e * n for n in list(range(1, 30)) + [50, 100, 500, 1000, 1500] for a, b, e in (("(", "", ")"), ("(", "a", ")"), ("#(", "", ")"), ("#&", "1", ""), ("'", "a", ""), ("(a . ", "b", ")"), ("[", "", "]"), ("#;", "a " * n, "b"), ("#|", "", "|#"), ("(", "", ""), ("#'", "x", ""), ("(#;", "x", ")"))])
    texts(c, "short texts, memory-checked", list(words(list("(a.#;|\" )\\1"), 0, 3)) + list(words(["(", ")", "#(", "#&", "#;", "#|", " . ", "\"", "#\\", "#x", "'", "a"], 1, 3)), flavor="asan")
    # round trips
    atoms = ["a", "-7", "\"x\\n\"", "#\\space", "#t"]
    ps = [RT + "(rt '%s)" % d for n in range(1, c.q(4, 5)) for d in data(n, atoms)] + [RT + "(rt '%s)" % d for n in (c.q(4, 5), c.q(5, 6)) for d in data(n, ["b"])]
    c.diff("round trips of data", ps)
    ps = [RT + "(rt (integer->char %d))" % b for b in B] + [RT + "(rt (list (integer->char %d) (integer->char %d)))" % (a, b) for a in B[::c.q(3, 1)] for b in (9, 32, 40, 97, 127, 200)]
    ps += [RT + "(rt (string (integer->char %d)))" % b for b in B] + [RT + "(rt (string %s))" % " ".join("(integer->char %d)" % x for x in t) for t in itertools.product((7, 8, 9, 10, 11, 12, 13, 27, 34, 39, 92, 97, 110, 127, 200), repeat=2)]
    ps += [RT + "(rt (string %s))" % " ".join("(integer->char %d)" % x for x in t) for t in itertools.product((10, 34, 92, 97, 110), repeat=c.q(4, 5))]
    c.diff("round trips of characters and strings", ps)
    ints = sorted(set(range(-300, 301)) | {s * (2 ** k + d) for k in range(0, 61) for s in (1, -1) for d in (-1, 0, 1)} | {s * 10 ** k for k in range(18) for s in (1, -1)})
    c.diff("round trips of integers", [RT + "(rt %d)" % i for i in ints])
    syms = ["".join(t) for n in (1, 2, 3) for t in itertools.product("a-+1.*", repeat=n)] + ["...", "set!", "<=?", "a->b", "$x", "%y", "&z", "a'b", "a#b", "x|y", "a`b,c@d", "~", "^", "_", "=>", "A", "é"]
    ps = []
    for s in syms:
        m = model([ord(x) & 255 for x in s])
        if m and m[1] == "(|%s|)" % s and s != ".":
            ps += [RT + "(rt '%s)" % s, RT + "(rt '(%s . %s))" % (s, s), RT + "(rt (string->symbol \"%s\"))" % s]
    c.diff("round trips of symbols", ps)
    ds = [d for n in range(1, 4) for d in data(n, ["a", "\"x\\n\""])] + ["#\\%s" % n for n in reader.NAMES]
    ps, exp = [], []
    for x in ds[::c.q(3, 1)]:
        for y in ("a", "#\\;", "(b . 1)"):
            f = "\"rt%d.txt\"" % len(ps)
            ps.append("(let-values ([(o x y) (values (open-output-file %s) '%s '%s)]) (begin (write x o) (newline o) (write y o) (close-output-port o) (let-values ([(i) (open-input-file %s)]) (let-values ([(a) (read i)]) (let-values ([(b) (read i)]) (let-values ([(e) (read i)]) "
                      "(begin (close-input-port i) (list (equal? a x) (equal? b y) (eof-object? e) a b))))))))" % (f, x, y, f))
            exp.append(("V", "(#t #t #t %s %s)" % (ref.show(ref.parse_all(x)[0]), ref.show(ref.parse_all(y)[0])), ""))
    c.diff("round trips through files", ps, expect=exp)
