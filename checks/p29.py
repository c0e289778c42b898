"""P29: the reader of the module system (library/read.min) reads the notation the grammar defines, for every text of a bounded size."""
import itertools
from checks.p14 import data, words
from mc import lib, reader, ref
from mc.check import pmap
from mc.ref import S, lst

LIT = {10: "\\n", 34: '\\"', 92: "\\\\"}


class Reader(reader.Reader):
    """The same grammar; #' stands for syntax, and what the library's reader may refuse is left open."""

    def read(self):
        self.skip()
        s, i = self.s, self.i
        if s[i:i + 2] == [35, 39]:
            self.i += 2
            return lst([S("syntax"), self.datum()])
        x = super().read()
        if x is not None and s[i] == 34 and not self.delim(self.i):
            raise ref.Unspecified("text right after a string")
        return x


def model(bs):
    r, out = Reader(bs), []
    try:
        while True:
            x = r.read()
            if x is None:
                return ("V", "", "%s\n> " % ref.text(lst([True, lst(out)]), False))
            out.append(x)
    except reader.Malformed:
        return ("E", "1", "")
    except ref.Unspecified:
        return None


def lit(bs):
    """An expression for the text that the reader under test reads without special notation."""
    parts, cur = [], ""
    for b in bs:
        if b in LIT or 32 <= b < 127:
            cur += LIT.get(b, chr(b))
            if len(cur) > 1000:
                parts.append('"%s"' % cur)
                cur = ""
        else:
            if cur:
                parts.append('"%s"' % cur)
                cur = ""
            parts.append("(string (integer->char %d))" % b)
    if cur or not parts:
        parts.append('"%s"' % cur)
    return parts[0] if len(parts) == 1 else "(string-append %s)" % " ".join(parts)


# every part of what is read has to be syntax
HEAD = """(import "library/base.min")
(import "library/read.min")
(define (wrapped? x)
  (and (syntax? x)
       (let ([e (syntax-e x)])
         (cond [(pair? e) (let lp ([e e]) (cond [(pair? e) (and (wrapped? (car e)) (lp (cdr e)))] [(null? e) #t] [else (wrapped? e)]))]
               [(vector? e) (andmap wrapped? (vector->list e))]
               [(box? e) (wrapped? (unbox e))]
               [else (not (syntax? e))]))))
(define (all s)
  (let ([p (open-input-string s)])
    (let lp ([acc (list)] [ok #t])
      (let ([x (read p)])
        (if (eof-object? x)
            (let ([r (list (if (eof-object? (read p)) ok 'again) (reverse acc))]) (begin (close-input-port p) r))
            (lp (cons (if (syntax? x) (syntax->datum x) x) acc) (and ok (wrapped? x))))))))
"""


def texts(c, name, ts):
    ts = [list(t) for t in dict.fromkeys(tuple(t if isinstance(t, list) else [ord(x) for x in t]) for t in ts)]
    lib.diff(c, name, ["(all %s)" % lit(t) for t in ts], text=HEAD, expect=pmap(model, ts), agree=agree, timeout=10000)


def agree(e, r):
    if e[0] == "E":
        return r.k == "E" and r.v == "1" and r.out == ""
    return r.k == "V" and r.out == e[2]


def run(c):
    chars = list("()['.#;|\"\\a1- \n&tx%")
    texts(c, "texts of single characters", words(chars, 0, c.q(2, 3)))
    texts(c, "texts of single characters, longer", words(list("(a.#;|\" \n)"), 3, c.q(3, 4)))
    texts(c, "character texts", ["#\\" + w for w in words(list("anse w(t;\"#x") + ["space", "newline", "nul", "u"], 0, c.q(2, 3))] + ["#\\%s%s" % (n[:k], s) for n in reader.NAMES for k in range(1, len(n) + 1) for s in ("", "x", " ", ")", "\"", "n", "#") if n != "nul"])
    texts(c, "string texts", ["\"" + w for w in words(list("a\\n\"'x \n(;0t"), 0, c.q(3, 4))])
    texts(c, "number texts", words(list("+-019a."), 1, c.q(4, 5)))
    texts(c, "number texts, hexadecimal", ["#x" + w for w in words(list("+-0aFg "), 0, c.q(3, 4))])
    texts(c, "comments", words(["#|", "|#", "|", "#", "a", "#;", ";", "\n", "(", ")"], 1, c.q(3, 4)))
    toks = ["(", ")", "[", "]", "'", " . ", "a", "12", "#(", "#&", "\"s\"", "#;", "#|c|#", ";c\n", "#t", "#\\a", " "]
    texts(c, "texts of tokens", words(toks, 1, c.q(3, 4)))
    texts(c, "texts of tokens, longer", words(["(", ")", "[", "]", " . ", "a ", "#;", "#("], 4, c.q(4, 5)))
    texts(c, "texts of tokens, bracketed", [o + w + e for o, e in (("(", ")"), ("#(", ")"), ("[", "]"), ("(a . ", ")"), ("#;(", ") b"), ("'(", ")"), ("{", "}"), ("(", "]"), ("(a #;", ")")) for w in words([" . ", "a ", "#;", "(", ")", "'", "1", "#\\)", "\"(\"", "#|)|#", ";)\n"], 0, c.q(2, 3))])
    o = lambda s: [ord(x) for x in s]
    ts = []
    for b in range(1, 256):
        for pre, post in (("", ""), ("a", "c"), ("1", "2"), ("#\\", ""), ("#\\", "x"), ("#\\", ")"), ("(", ")"), ("\"x", "y\""), ("\"\\", "\""), ("#", ""), ("#", "a"), ("(a ", " b)"), ("-", ""), (";", "\na"), ("#|", "|#a"), ("'", "a"), ("#;", "a b"), ("(a .", "b)"), ("#\\space", ""), ("12", ""), ("#x1", ""), ("(a . b", ")"), ("(a)", "(b)")):
            ts.append(o(pre) + [b] + o(post))
    texts(c, "every byte in every role", ts)
    ts = []
    for n in sorted(set(range(1, 20)) | {50, 127, 128, 129, 255, 256, 257, 500, 1000, 1500}):
        ts += ["a" * n, "\"%s\"" % ("b" * n), "(x %s y)" % ("c" * n), "\"%s\"" % ("\\n" * n), "0" * n, "-" + "0" * n, "#x" + "0" * n, "1" + "a" * n, " " * n + "a", ";" + "c" * n + "\nb", "#|" + "|" * n + "|#c", "(%s)" % ("a " * n), "#(%s)" % ("1 " * n), "(%s . b)" % ("a " * n), "#;a " * n, "#|c|#" * n]
        if n < 300:
            ts += [a * n + b + e * n for a, b, e in (("(", "", ")"), ("#(", "", ")"), ("#&", "1", ""), ("'", "a", ""), ("(a . ", "b", ")"), ("[", "", "]"), ("#;", "a " * n, "b"), ("#|", "", "|#"), ("(", "", ""), ("#'", "a", ""))]
    texts(c, "lengths and nesting", ts)
    texts(c, "data as written", [d for n in range(1, c.q(5, 6)) for d in data(n, ["a", "-7", "\"x\\n\"", "#\\space", "#t"][:5 if n < 4 else 1])])
