"""Reference semantics of the core language, written independently of the implementation.

A small direct-style interpreter over Python objects: programs are parsed to
data, compiled to Python closures and run.  Results use the same canonical text
as the driver, so `run(text)` and the real system can be compared directly.

`Unspecified` marks behaviour the documented semantics leave open; a check skips
such a case (and counts it).
"""
import sys

sys.setrecursionlimit(100000)

FX_MIN, FX_MAX = -(1 << 63), (1 << 63) - 1


class Unspecified(Exception):
    pass


class Exit(Exception):
    def __init__(self, code):
        self.code = code


class StaticError(Exception):
    """A syntax error: reported before anything of the form is evaluated."""


class Sym:
    __slots__ = ("n",)
    tab = {}

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


def S(n):
    s = Sym.tab.get(n)
    if s is None:
        s = Sym.tab[n] = Sym(n)
    return s


class Char:
    __slots__ = ("c",)
    tab = {}

    def __init__(self, c):
        self.c = c


def C(c):
    if isinstance(c, str):
        c = ord(c)
    r = Char.tab.get(c)
    if r is None:
        r = Char.tab[c] = Char(c)
    return r


class _K:
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


NIL, VOID, EOF, UNBOUND = _K("()"), _K("#<void>"), _K("#<eof>"), _K("#<unbound>")


class Pair:
    __slots__ = ("a", "d")

    def __init__(self, a, d):
        self.a, self.d = a, d


class Str:
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s      # list of character codes


class Vec:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class Box:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class Values:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class Syntax:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e


class Proc:
    __slots__ = ("name",)


class Prim(Proc):
    __slots__ = ("f", "lo", "hi", "wm")

    def __init__(self, name, f, lo, hi, wm=False):
        self.name, self.f, self.lo, self.hi, self.wm = name, f, lo, hi, wm

    def arities(self):
        return [(self.lo, self.hi)]


class Closure(Proc):
    """A procedure; its free global variables belong to the environment it was made in, as lexical ones do."""
    __slots__ = ("clauses", "env", "tenv")

    def __init__(self, clauses, env, tenv):
        self.name, self.clauses, self.env, self.tenv = None, clauses, env, tenv


class HT:
    __slots__ = ("cells", "hash", "equiv")

    def __init__(self, hash, equiv):
        self.cells, self.hash, self.equiv = [], hash, equiv


class Rtd:
    __slots__ = ("name", "parent", "uid", "sealed", "opaque", "fields", "eqp", "hashp", "writer")

    def __init__(self, name, parent, uid, sealed, opaque, fields):
        self.name, self.parent, self.uid, self.sealed, self.opaque, self.fields = name, parent, uid, sealed, opaque, fields
        self.eqp = parent.eqp if parent else False
        self.hashp = parent.hashp if parent else False
        self.writer = parent.writer if parent else False

    def size(self):
        return len(self.fields) + (self.parent.size() if self.parent else 0)


class Rec:
    __slots__ = ("rtd", "v")

    def __init__(self, rtd, v):
        self.rtd, self.v = rtd, v


class TopEnv:
    __slots__ = ("d",)

    def __init__(self, d):
        self.d = d


class InPort:
    __slots__ = ("s", "i", "open", "file", "version")

    def __init__(self, s, file=None):
        self.s, self.i, self.open, self.file = s, 0, True, file
        self.version = file.version if file else 0


class File:
    """A file: its bytes, and how often it changed.  Data of an open port that was not flushed may or may not be there."""
    __slots__ = ("s", "version", "writer")

    def __init__(self):
        self.s, self.version, self.writer = [], 0, None


class OutPort:
    __slots__ = ("buf", "kind", "open", "file")

    def __init__(self, kind, file=None):
        self.buf, self.kind, self.open, self.file = [], kind, True, file

    def flush(self):
        if self.file and self.buf:
            self.file.s += [ord(c) for c in "".join(self.buf)]
            self.file.version += 1
            self.buf = []


def lst(xs, tail=NIL):
    r = tail
    for x in reversed(xs):
        r = Pair(x, r)
    return r


def unl(x):
    """Python list of a proper list, or None."""
    r = []
    while isinstance(x, Pair):
        r.append(x.a)
        x = x.d
    return r if x is NIL else None


def is_int(x):
    return type(x) is int


# ---------------------------------------------------------------- parsing (programs only)

_DELIM = set(" \t\n()[]\";")
_CHARS = {"space": 32, "newline": 10, "tab": 9, "nul": 0, "alarm": 7, "backspace": 8, "delete": 127, "esc": 27,
          "page": 12, "return": 13, "vtab": 11}
_STRESC = {"n": 10, "t": 9, "\\": 92, '"': 34, "a": 7, "b": 8, "f": 12, "r": 13, "v": 11, "'": 39, "?": 63}


def parse_all(t):
    out, i = [], 0
    while True:
        i = _ws(t, i)
        if i >= len(t):
            return out
        x, i = _parse(t, i)
        out.append(x)


def _ws(t, i):
    while i < len(t) and t[i] in " \t\n":
        i += 1
    return i


def _parse(t, i):
    c = t[i]
    if c in "([":
        close = ")" if c == "(" else "]"
        xs, tail, i = [], NIL, i + 1
        while True:
            i = _ws(t, i)
            if t[i] == close:
                return lst(xs, tail), i + 1
            if t[i] == "." and t[i + 1] in " \t\n":
                tail, i = _parse(t, _ws(t, i + 1))
                continue
            x, i = _parse(t, i)
            xs.append(x)
    if c == "'":
        x, i = _parse(t, i + 1)
        return lst([S("quote"), x]), i
    if c == '"':
        i, s = i + 1, []
        while t[i] != '"':
            if t[i] == "\\":
                s.append(_STRESC[t[i + 1]])
                i += 2
            else:
                s.append(ord(t[i]))
                i += 1
        return Str(s), i + 1
    if c == "#":
        d = t[i + 1]
        if d == "(":
            x, i = _parse(t, i + 1)
            return Vec(unl(x)), i
        if d == "&":
            x, i = _parse(t, i + 2)
            return Box(x), i
        if d == "'":
            x, i = _parse(t, i + 2)
            return lst([S("quote-syntax"), x]), i
        if d == "\\":
            j = i + 3
            while j < len(t) and t[j] not in _DELIM:
                j += 1
            n = t[i + 2:j]
            return (C(n) if len(n) == 1 else C(_CHARS[n])), j
        if d in "tf" and (i + 2 >= len(t) or t[i + 2] in _DELIM):
            return d == "t", i + 2
        raise ValueError("parse: %r" % t[i:])
    j = i
    while j < len(t) and t[j] not in _DELIM:
        j += 1
    n = t[i:j]
    if n.lstrip("+-").isdigit() and n.count("-") + n.count("+") <= 1:
        return int(n), j
    return S(n), j


# ---------------------------------------------------------------- canonical text

def show(x):
    if x is True:
        return "#t"
    if x is False:
        return "#f"
    t = type(x)
    if t is int:
        return str(x)
    if t is Sym:
        return "|%s|" % x.n
    if t is Pair:
        out = []
        while type(x) is Pair:
            out.append(show(x.a))
            x = x.d
        return "(" + " ".join(out) + ("" if x is NIL else " . " + show(x)) + ")"
    if t is _K:
        return x.n
    if t is Str:
        return '"' + "".join(chr(c) if c not in (34, 92) else "\\" + chr(c) for c in x.s) + '"'
    if t is Char:
        return "#\\%d" % x.c
    if t is Vec:
        return "#(" + " ".join(map(show, x.v)) + ")"
    if t is Box:
        return "#&" + show(x.v)
    if isinstance(x, Proc):
        return "#<procedure>"
    if t is Values:
        return "#<values" + "".join(" " + show(v) for v in x.v) + ">"
    if t in (HT, Rec, Rtd):
        return "#<record>"
    if t is Syntax:
        return "#<syntax " + show(x.e) + ">"
    if t is TopEnv:
        return "#<environment>"
    if t is InPort:
        return "#<input-port>"
    if t is OutPort:
        return "#<output-port>"
    raise TypeError(t)


# ---------------------------------------------------------------- external text (write / display)

_CHNAME = {7: "alarm", 8: "backspace", 127: "delete", 27: "esc", 10: "newline", 0: "nul", 12: "page", 13: "return",
           32: "space", 9: "tab", 11: "vtab"}
_WESC = {7: "\\a", 8: "\\b", 10: "\\n", 12: "\\f", 13: "\\r", 9: "\\t", 11: "\\v", 34: '\\"', 92: "\\\\"}


def text(x, d):
    """What display (d) or write prints, for data without user-defined writers."""
    t = type(x)
    if t is Char:
        return chr(x.c) if d else "#\\" + _CHNAME.get(x.c, chr(x.c))
    if t is Str:
        return "".join(map(chr, x.s)) if d else '"' + "".join(_WESC.get(c, chr(c)) for c in x.s) + '"'
    if t is Sym:
        return x.n
    if t is Pair:
        out = []
        while type(x) is Pair:
            out.append(text(x.a, d))
            x = x.d
        return "(" + " ".join(out) + ("" if x is NIL else " . " + text(x, d)) + ")"
    if t is Vec:
        return "#(" + " ".join(text(v, d) for v in x.v) + ")"
    if t is Box:
        return "#&" + text(x.v, d)
    if t is HT:
        return "#<hashtable>"
    if t is InPort:
        return "#<input port>"
    if t is OutPort:
        return "#<output port>"
    if t is Syntax:
        return "#<syntax " + text(strip(x), d) + ">"
    if t is Rtd:
        return "#<record-type:" + x.name.n + ">"
    if t is Rec:
        if x.rtd.writer is not False:
            raise Unspecified("writer")
        return "#<" + x.rtd.name.n + ">"
    return show(x)


def strip(x):
    t = type(x)
    if t is Syntax:
        return strip(x.e)
    if t is Pair:
        return Pair(strip(x.a), strip(x.d))
    if t is Vec:
        return Vec([strip(v) for v in x.v])
    if t is Box:
        return Box(strip(x.v))
    return x


# ---------------------------------------------------------------- the machine

class Env:
    __slots__ = ("v", "up", "t")

    def __init__(self, v, up, t):
        self.v, self.up, self.t = v, up, t


class Exn(Exception):
    pass


class Machine:
    def __init__(self, fuel=20000):
        self.fuel = fuel
        self.out, self.err = OutPort("std"), OutPort("err")
        self.handler = None             # None: the default handler
        self.req, self.rhash = False, False     # default record equality / hash procedures
        self.tenv = TopEnv(base_env(self))
        self.names = {}
        self.files = {}
        self.err_any = False            # the text on the error port is not specified

    # -- errors -----------------------------------------------------------
    def raise_(self, x):
        if self.handler is None:
            self.default_handler(x)
        return self.app(self.handler, [x])

    def default_handler(self, x):
        """Describe the exception on the error port, stop with status 1."""
        p = self.err

        def say(*parts):
            for q in parts:
                if type(q) is str:
                    emit(self, p, q)
                else:
                    put(self, q[0], True, p)
        if not isa(x, EXN["base"]):
            say("uncaught exception: ", (x,), "\n")
            raise Exit(1)
        v = x.v
        if v[0] is False:
            say("error: ", (v[1],), "\n")
        else:
            say((v[0],), ": ", (v[1],), "\n")
        if isa(x, EXN["arg"]):
            say("  expected: ", (v[2],), "\n  given: ", (v[3],), "\n")
        elif isa(x, EXN["arity"]):
            say("  expected: ")
            if is_int(v[2]):
                say((v[2],), "\n")
            elif not arity_ok(v[2]):
                raise Unspecified("arity description")
            else:
                ns, a = [], v[2]
                while type(a) is Pair:
                    ns.append(str(a.a))
                    a = a.d
                if a is False:
                    ns[-1] = "at least " + ns[-1]
                say(", ".join(ns), "\n")
            say("  given: ", (v[3],), "\n")
        elif isa(x, EXN["range"]):
            if type(v[3]) is not Str:
                raise Unspecified("range description")
            say("  range: [", (v[4],), ", ", (v[5],), ")\n")
            say(*(("  ", (v[3],), " index: ") if v[3].s else ("  index: ",)))
            say((v[6],), "\n  in: ", (v[2],), "\n")
        elif isa(x, EXN["missing"]):
            say("  ", (v[2],), ": ", (v[4],), "\n  in: ", (v[3],), "\n")
        elif isa(x, EXN["syntax"]):
            if v[2] is not False:
                say("  in: ", (v[2],), "\n")
            if v[3] is not False:
                say("  at: ", (v[3],), "\n")
        raise Exit(1)

    def err_exn(self, kind, who, msg, *rest):
        return self.raise_(Rec(EXN[kind], [who, msg] + list(rest)))

    def argerr(self, who, expect, actual):
        return self.err_exn("arg", S(who), mkstr("contract violation"), mkstr(expect), actual)

    def error(self, who, msg, *args):
        m = msg
        if args:
            m += "\n" + ("  argument: " + text(args[0], False) if len(args) == 1 else
                         "  arguments...:" + "".join("\n   " + text(a, False) for a in args))
        return self.err_exn("base", S(who) if isinstance(who, str) else who, mkstr(m))

    def rangeerr(self, who, v, upper, index):
        return self.err_exn("range", S(who), mkstr("index out of bounds"), v, mkstr(""), 0, upper, index)

    def cerror(self, what):
        """An error found by the evaluator itself; resuming from it is not specified."""
        if self.handler is None:
            self.err_any = True
            raise Exit(1)
        raise Unspecified("resume after " + what)

    # -- application --------------------------------------------------------
    def app(self, f, args):
        while True:
            self.fuel -= 1
            if self.fuel < 0:
                raise Unspecified("fuel")
            if type(f) is Prim:
                n = len(args)
                if n < f.lo or (f.hi is not None and n > f.hi):
                    return self.cerror("arity")
                r = f.f(self, args) if f.wm else f.f(*args)
            elif type(f) is Closure:
                n = len(args)
                for req, rest, body in f.clauses:
                    if n == req:
                        e = Env([[a] for a in args], f.env, f.tenv)
                        if rest:
                            e.v.append([NIL])
                        break
                    if rest and n > req:
                        e = Env([[a] for a in args[:req]], f.env, f.tenv)
                        e.v.append([lst(args[req:])])
                        break
                else:
                    return self.cerror("arity")
                r = body(e)
            else:
                return self.cerror("not a procedure")
            if type(r) is Tail:
                f, args = r.f, r.args
                continue
            return r

    def call1(self, f, args):
        return self.one(self.app(f, args))

    def one(self, x):
        if type(x) is Values:
            self.cerror("result arity")
        return x

    # -- compilation to Python closures ---------------------------------------
    def comp(self, x, scope, tail):
        """scope: list of lists of names, innermost first."""
        t = type(x)
        if t is Sym:
            return self.comp_ref(x, scope)
        if t is not Pair:
            if x is NIL:
                raise StaticError("missing procedure")
            if t in (bool, int, Char, Str, Box, Vec):
                return lambda e: x
            raise StaticError("bad syntax")
        h = x.a
        if type(h) is Sym:
            f = FORMS.get(h.n)
            if f:
                return f(self, x, scope, tail)
        xs = unl(x)
        if xs is None:
            raise StaticError("malformed application")
        parts = [self.comp(p, scope, False) for p in xs]
        one, app = self.one, self.app
        f0, rest = parts[0], parts[1:]
        if h is VALUES and len(rest) == 1:
            # whether (values e) stands for e when e delivers several values is left open
            r0 = rest[0]

            def go(e):
                f, v = f0(e), r0(e)
                if type(v) is Values:
                    raise Unspecified("values of values")
                return Tail(f, [v]) if tail else app(f, [v])
            return go
        if tail:
            def go(e):
                f = one(f0(e))
                return Tail(f, [one(p(e)) for p in rest])
        else:
            def go(e):
                f = one(f0(e))
                return app(f, [one(p(e)) for p in rest])
        return go

    def find(self, x, scope):
        for d, names in enumerate(scope):
            for i in range(len(names)):
                if names[i] is x:
                    return d, i
        return None

    def comp_ref(self, x, scope):
        at = self.find(x, scope)
        if at is None:
            m = self

            def go(e):
                c = ((e.t if e else None) or m.tenv).d.get(x.n)
                if c is None:
                    m.cerror("unbound variable")
                return c[0]
            return go
        d, i = at
        m = self
        if d == 0:
            def go(e):
                r = e.v[i][0]
                if r is UNBOUND:
                    m.cerror("uninitialised variable")
                return r
        else:
            def go(e):
                for _ in range(d):
                    e = e.up
                r = e.v[i][0]
                if r is UNBOUND:
                    m.cerror("uninitialised variable")
                return r
        return go

    def body(self, xs, scope, tail):
        """A sequence of expressions; xs is a Python list."""
        if not xs:
            return lambda e: VOID
        init = [self.comp(p, scope, False) for p in xs[:-1]]
        last = self.comp(xs[-1], scope, tail)
        if not init:
            return last

        def go(e):
            for p in init:
                p(e)
            return last(e)
        return go

    def toplevel(self, x):
        if type(x) is Pair and x.a is DEFINE_VALUES:
            xs = unl(x)
            if xs is None or len(xs) != 3:
                raise StaticError("define-values")
            ids = ids_of(xs[1])
            f = self.comp(xs[2], [], False)
            v = f(None)
            vs = v.v if type(v) is Values else [v]
            if len(vs) != len(ids):
                self.cerror("result arity")
            for i, val in zip(ids, vs):
                self.name(i, val)
                c = self.tenv.d.get(i.n)
                if c is not None:
                    c[0] = val
                else:
                    self.tenv.d[i.n] = [val]
            return VOID
        return self.comp(x, [], False)(None)

    def name(self, i, val):
        if type(val) is Closure and val.name is None:
            val.name = i

    def run(self, text_or_data):
        """Result of a program: (k, v) with k in V/E."""
        r = VOID
        try:
            for x in parse_all(text_or_data) if isinstance(text_or_data, str) else text_or_data:
                r = self.toplevel(x)
            return "V", r
        except Exit as e:
            return "E", str(e.code)
        except StaticError:
            self.err_any = True
            return "E", "1"
        except RecursionError:
            raise Unspecified("depth")

    def stdout(self):
        return "".join(self.out.buf)


class Tail:
    __slots__ = ("f", "args")

    def __init__(self, f, args):
        self.f, self.args = f, args


DEFINE_VALUES = S("define-values")
VALUES = S("values")


def ids_of(x):
    xs = unl(x)
    if xs is None or not all(type(i) is Sym for i in xs):
        raise StaticError("identifiers")
    if len(set(xs)) != len(xs):
        raise Unspecified("duplicate identifiers")
    return xs


def formals(x):
    ids = []
    while type(x) is Pair:
        ids.append(x.a)
        x = x.d
    rest = x is not NIL
    if rest:
        ids.append(x)
    if not all(type(i) is Sym for i in ids):
        raise StaticError("formals")
    if len(set(ids)) != len(ids):
        raise Unspecified("duplicate formals")
    return ids, rest


def need(x, n):
    xs = unl(x)
    if xs is None or len(xs) != n:
        raise StaticError("syntax")
    return xs


def f_quote(m, x, scope, tail):
    v = need(x, 2)[1]
    return lambda e: v


def to_syntax(x):
    t = type(x)
    if t is Syntax:
        return x
    if t is Pair:
        return Syntax(Pair(to_syntax(x.a), _stx_tail(x.d)))
    if t is Vec:
        return Syntax(Vec([to_syntax(v) for v in x.v]))
    if t is Box:
        return Syntax(Box(to_syntax(x.v)))
    return Syntax(x)


def _stx_tail(x):
    if type(x) is Pair:
        return Pair(to_syntax(x.a), _stx_tail(x.d))
    if x is NIL:
        return x
    return to_syntax(x)


def f_quote_syntax(m, x, scope, tail):
    v = need(x, 2)[1]
    s = to_syntax(v)
    return lambda e: s


def f_if(m, x, scope, tail):
    _, c, t, f = need(x, 4)
    c = m.comp(c, scope, False)
    t = m.comp(t, scope, tail)
    f = m.comp(f, scope, tail)

    def go(e):
        v = c(e)
        if type(v) is Values:
            raise Unspecified("if of values")
        return f(e) if v is False else t(e)
    return go


def f_begin(m, x, scope, tail):
    xs = unl(x)
    if xs is None:
        raise StaticError("begin")
    if not scope and any(type(p) is Pair and p.a is DEFINE_VALUES for p in xs[1:]):
        raise Unspecified("define in begin")
    return m.body(xs[1:], scope, tail)


def clause(m, x, scope):
    if type(x) is not Pair:
        raise StaticError("lambda")
    ids, rest = formals(x.a)
    xs = unl(x.d)
    if not xs:
        raise StaticError("lambda body")
    body = m.body(xs, [ids] + scope, True)
    return len(ids) - (1 if rest else 0), rest, body


def f_lambda(m, x, scope, tail):
    cl = [clause(m, x.d, scope)]
    return lambda e: Closure(cl, e, (e.t if e else None) or m.tenv)


def f_case_lambda(m, x, scope, tail):
    xs = unl(x)
    if xs is None or len(xs) < 2:
        raise StaticError("case-lambda")
    cl = [clause(m, c, scope) for c in xs[1:]]
    return lambda e: Closure(cl, e, (e.t if e else None) or m.tenv)


def f_set(m, x, scope, tail):
    xs = need(x, 3)
    if type(xs[1]) is not Sym:
        raise StaticError("set!")
    v = m.comp(xs[2], scope, False)
    at = m.find(xs[1], scope)
    if at is None:
        n = xs[1].n

        def go(e):
            val = m.one(v(e))
            c = ((e.t if e else None) or m.tenv).d.get(n)
            if c is None:
                if scope:
                    raise Unspecified("set! of an undefined variable inside a procedure")
                m.cerror("set! of undefined")
            c[0] = val
            return VOID
        return go
    d, i = at

    def go(e):
        val = m.one(v(e))
        for _ in range(d):
            e = e.up
        if e.v[i][0] is UNBOUND:
            raise Unspecified("set! of uninitialised")
        e.v[i][0] = val
        return VOID
    return go


def bindings(x):
    if type(x.d) is not Pair:
        raise StaticError("let")
    bs = unl(x.d.a)
    if bs is None:
        raise StaticError("let bindings")
    out = []
    for b in bs:
        b = unl(b)
        if b is None or len(b) != 2:
            raise StaticError("binding")
        out.append((ids_of(b[0]), b[1]))
    body = unl(x.d.d)
    if not body:
        raise StaticError("let body")
    names = [i for ids, _ in out for i in ids]
    if len(set(names)) != len(names):
        raise Unspecified("duplicate identifiers")
    return out, body, names


def f_let_values(m, x, scope, tail):
    bs, body, names = bindings(x)
    rhs = [(ids, m.comp(r, scope, False)) for ids, r in bs]
    body = m.body(body, [names] + scope, tail)

    def go(e):
        cells = []
        for ids, r in rhs:
            v = r(e)
            vs = v.v if type(v) is Values else (v,)
            if len(vs) != len(ids):
                m.cerror("result arity")
            for i, val in zip(ids, vs):
                m.name(i, val)
                cells.append([val])
        return body(Env(cells, e, e.t if e else None))
    return go


def f_letrec_values(m, x, scope, tail):
    bs, body, names = bindings(x)
    inner = [names] + scope
    rhs = [(ids, m.comp(r, inner, False)) for ids, r in bs]
    body = m.body(body, inner, tail)

    def go(e):
        e2 = Env([[UNBOUND] for _ in names], e, e.t if e else None)
        k = 0
        for ids, r in rhs:
            v = r(e2)
            vs = v.v if type(v) is Values else (v,)
            if len(vs) != len(ids):
                m.cerror("result arity")
            for i, val in zip(ids, vs):
                m.name(i, val)
                e2.v[k][0] = val
                k += 1
        return body(e2)
    return go


def f_define(m, x, scope, tail):
    raise Unspecified("inner define-values")


FORMS = {"quote": f_quote, "quote-syntax": f_quote_syntax, "if": f_if, "begin": f_begin, "lambda": f_lambda,
         "case-lambda": f_case_lambda, "set!": f_set, "let-values": f_let_values, "letrec-values": f_letrec_values,
         "define-values": f_define}


def mkstr(s):
    return Str([ord(c) for c in s])


def pstr(x):
    return "".join(map(chr, x.s))


# ---------------------------------------------------------------- built-in procedures

EXN = {}
_b = Rtd(S("&exn"), None, False, False, True, [("immutable", S("who")), ("immutable", S("message"))])
EXN["base"] = _b
for _k, _n, _fs in (("arg", "&argument-exn", ("expect", "actual")), ("arity", "&arity-exn", ("expect", "actual")),
                    ("range", "&range-exn", ("value", "description", "lower", "upper", "index")),
                    ("missing", "&missing-exn", ("description", "value", "key")),
                    ("syntax", "&syntax-exn", ("form", "subform"))):
    EXN[_k] = Rtd(S(_n), _b, False, True, True, [("immutable", S(f)) for f in _fs])

PRIMS = {}


def prim(name, lo, hi=-1, wm=True):
    if hi == -1:
        hi = lo

    def deco(f):
        PRIMS[name] = Prim(S(name), f, lo, hi, wm)
        return f
    return deco


class BaseDict(dict):
    """The base environment; a cell is made when it is first looked at."""

    def get(self, k):
        c = dict.get(self, k)
        if c is None and k in GLOBALS:
            c = self[k] = [GLOBALS[k]]
        return c

    def all(self):
        for k in GLOBALS:
            self.get(k)
        return self


def base_env(m):
    return BaseDict()


def simple(name, n, f):
    PRIMS[name] = Prim(S(name), f, n, n, False)


def is_list(x):
    while type(x) is Pair:
        x = x.d
    return x is NIL


simple("null?", 1, lambda x: x is NIL)
simple("void?", 1, lambda x: x is VOID)
simple("eof-object?", 1, lambda x: x is EOF)
simple("boolean?", 1, lambda x: type(x) is bool)
simple("not", 1, lambda x: x is False)
simple("char?", 1, lambda x: type(x) is Char)
simple("symbol?", 1, lambda x: type(x) is Sym)
simple("pair?", 1, lambda x: type(x) is Pair)
simple("list?", 1, is_list)
simple("cons", 2, Pair)
simple("vector?", 1, lambda x: type(x) is Vec)
for _n in ("fixnum?", "integer?", "number?"):
    simple(_n, 1, is_int)
simple("string?", 1, lambda x: type(x) is Str)
simple("box?", 1, lambda x: type(x) is Box)
simple("box", 1, Box)
simple("procedure?", 1, lambda x: isinstance(x, Proc))
simple("syntax?", 1, lambda x: type(x) is Syntax)
simple("environment?", 1, lambda x: type(x) is TopEnv)
simple("input-port?", 1, lambda x: type(x) is InPort)
simple("output-port?", 1, lambda x: type(x) is OutPort)
simple("record-type-descriptor?", 1, lambda x: type(x) is Rtd)
simple("hashtable?", 1, lambda x: type(x) is HT)
simple("identity", 1, lambda x: x)
simple("void", 0, lambda: VOID)
PRIMS["list"] = Prim(S("list"), lambda *a: lst(a), 0, None, False)
PRIMS["vector"] = Prim(S("vector"), lambda *a: Vec(list(a)), 0, None, False)


def eqp(a, b):
    if a is b:
        return True
    return is_int(a) and is_int(b) and a == b


simple("eq?", 2, eqp)


@prim("values", 0, None)
def _values(m, a):
    return a[0] if len(a) == 1 else Values(list(a))


@prim("call-with-values", 2)
def _cwv(m, a):
    v = m.app(a[0], [])
    return Tail(a[1], v.v if type(v) is Values else [v])


@prim("apply", 2, None)
def _apply(m, a):
    if not isinstance(a[0], Proc):
        return m.cerror("apply")
    r = unl(a[-1])
    if r is None:
        return m.cerror("apply")
    return Tail(a[0], list(a[1:-1]) + r)


@prim("raise", 1)
def _raise(m, a):
    if m.handler is None:
        m.default_handler(a[0])
    return Tail(m.handler, [a[0]])


@prim("exit", 0, 1)
def _exit(m, a):
    if not a:
        raise Exit(0)
    if is_int(a[0]) and 0 <= a[0] <= 255:
        raise Exit(a[0])
    return m.argerr("exit", "an integer between 0 and 255", a[0])


@prim("eval", 1, 2)
def _eval(m, a):
    if len(a) == 2:
        if type(a[1]) is not TopEnv:
            return m.cerror("eval")
        old, m.tenv = m.tenv, a[1]
        try:
            r = m.toplevel(a[0])
        finally:
            m.tenv = old
        return r
    try:
        return m.toplevel(a[0])
    except StaticError:
        return m.cerror("syntax")


@prim("current-error-handler", 0, 1)
def _ceh(m, a):
    if not a:
        return m.handler if m.handler is not None else GLOBALS["default-error-handler"]
    if not isinstance(a[0], Proc):
        return m.argerr("current-error-handler", "procedure?", a[0])
    m.handler = None if a[0] is GLOBALS["default-error-handler"] else a[0]
    return VOID


@prim("default-error-handler", 1)
def _deh(m, a):
    m.default_handler(a[0])


# -- pairs and lists

def _cxr(name):
    ops = name[1:-1][::-1]

    def f(m, a):
        x = a[0]
        for o in ops:
            if type(x) is not Pair:
                return m.argerr(name, cxr_expect(ops), a[0])
            x = x.a if o == "a" else x.d
        return x
    PRIMS[name] = Prim(S(name), f, 1, 1, True)


def cxr_expect(ops):
    """The contract of a selector: the first operation applied is the outermost pairof."""
    if len(ops) == 1:
        return "pair?"
    e = cxr_expect(ops[1:])
    return "(pairof %s any)" % e if ops[0] == "a" else "(pairof any %s)" % e


def _all_cxr(k, pre=""):
    if pre:
        _cxr("c" + pre + "r")
    if k:
        for o in "ad":
            _all_cxr(k - 1, pre + o)


_all_cxr(4)


def acyclic(target, v):
    """Storing v in target must not close a cycle (cyclic data is outside the definition)."""
    seen, todo = set(), [v]
    while todo:
        x = todo.pop()
        if x is target:
            raise Unspecified("cyclic data")
        t = type(x)
        if t in (Pair, Vec, Box) and id(x) not in seen:
            seen.add(id(x))
            if t is Pair:
                todo += (x.a, x.d)
            elif t is Vec:
                todo += x.v
            else:
                todo.append(x.v)


@prim("set-car!", 2)
def _(m, a):
    if type(a[0]) is not Pair:
        return m.argerr("set-car!", "pair?", a[0])
    acyclic(a[0], a[1])
    a[0].a = a[1]
    return VOID


@prim("set-cdr!", 2)
def _(m, a):
    if type(a[0]) is not Pair:
        return m.argerr("set-cdr!", "pair?", a[0])
    acyclic(a[0], a[1])
    a[0].d = a[1]
    return VOID


@prim("make-list", 2)
def _(m, a):
    if not is_int(a[0]) or a[0] < 0:
        return m.argerr("make-list", "non-negative-integer?", a[0])
    return lst([a[1]] * a[0])


@prim("length", 1)
def _(m, a):
    xs = unl(a[0])
    return len(xs) if xs is not None else m.argerr("length", "list?", a[0])


@prim("reverse", 1)
def _(m, a):
    xs = unl(a[0])
    return lst(xs[::-1]) if xs is not None else m.argerr("reverse", "list?", a[0])


@prim("append", 0, None)
def _(m, a):
    order = list(a) if len(a) <= 2 else list(a)[::-1]
    for x in order:
        if not is_list(x):
            return m.argerr("append", "list?", x)
    if not a:
        return NIL
    if len(a) == 1:
        return a[0]
    # sharing of the result with the last argument is not specified
    return lst([e for x in a for e in unl(x)])


def _mapper(name, step):
    def f(m, a):
        fn, xss = a[0], a[1:]
        if not isinstance(fn, Proc):
            return m.argerr(name, "procedure?", fn)
        ls, prev = [], None
        for x in xss:
            l = unl(x)
            if l is None:
                return m.argerr(name, "list?", x)
            if prev is not None and len(l) != prev:
                return m.error(name, "lists do not have same size; expected %d, given %s" % (prev, text(x, True)))
            prev = len(l)
            ls.append(l)
        return step(m, fn, list(zip(*ls)))
    PRIMS[name] = Prim(S(name), f, 2, None, True)


def _foreach(m, fn, rows):
    for r in rows:
        m.app(fn, list(r))
    return VOID


def _truth(v):
    if type(v) is Values:
        raise Unspecified("if of values")
    return v is not False


_mapper("for-each", _foreach)
_mapper("map", lambda m, fn, rows: lst([m.call1(fn, list(r)) for r in rows]))
_mapper("andmap", lambda m, fn, rows: all(_truth(m.app(fn, list(r))) for r in rows))
_mapper("ormap", lambda m, fn, rows: any(_truth(m.app(fn, list(r))) for r in rows))


@prim("iota", 1)
def _(m, a):
    if not is_int(a[0]) or a[0] < 0:
        return m.argerr("iota", "non-negative-fixnum?", a[0])
    return lst(list(range(a[0])))


@prim("enumerate", 1)
def _(m, a):
    xs = unl(a[0])
    if xs is None:
        return m.argerr("enumerate", "list?", a[0])
    return lst([Pair(x, i) for i, x in enumerate(xs)])


# -- numbers

def fx(n):
    if not FX_MIN <= n <= FX_MAX:
        raise Unspecified("fixnum overflow")
    return n


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def _cmp(name, op):
    def f(m, a):
        if not is_int(a[0]):
            return m.argerr(name, "number?", a[0])
        if len(a) == 2:
            return op(a[0], a[1]) if is_int(a[1]) else m.argerr(name, "number?", a[1])
        x = a[0]
        for y in a[1:]:
            if not is_int(y):
                return m.argerr(name, "number?", y)
            if not op(x, y):
                return False
            x = y
        return True
    PRIMS[name] = Prim(S(name), f, 1, None, True)


_cmp("=", lambda a, b: a == b)
_cmp("<", lambda a, b: a < b)
_cmp(">", lambda a, b: a > b)
_cmp("<=", lambda a, b: a <= b)
_cmp(">=", lambda a, b: a >= b)


def _arith(name, lo, unit, un, op):
    def f(m, a):
        if not a:
            return unit
        if not is_int(a[0]):
            return m.argerr(name, "number?", a[0])
        if len(a) == 1:
            if name == "/" and a[0] == 0:
                return m.error("/", "division by zero", 0)
            return fx(un(a[0]))
        x = a[0]
        if not is_int(a[1]):
            return m.argerr(name, "number?", a[1])
        for y in a[1:]:
            if not is_int(y):
                return m.argerr(name, "number?", y)
            if name == "/" and y == 0:
                return m.error("/", "division by zero", 0)
            x = fx(op(x, y))
        return x
    PRIMS[name] = Prim(S(name), f, lo, None, True)


_arith("+", 0, 0, lambda x: x, lambda a, b: a + b)
_arith("-", 1, None, lambda x: -x, lambda a, b: a - b)
_arith("*", 0, 1, lambda x: x, lambda a, b: a * b)
_arith("/", 1, None, lambda x: tdiv(1, x), tdiv)


def _fx1(name, f):
    def g(m, a):
        return fx(f(a[0])) if is_int(a[0]) else m.argerr(name, "number?", a[0])
    PRIMS[name] = Prim(S(name), g, 1, 1, True)


_fx1("add1", lambda x: x + 1)
_fx1("sub1", lambda x: x - 1)


def _divop(name, op):
    def g(m, a):
        for x in a:
            if not is_int(x):
                return m.argerr(name, "number?", x)
        if a[1] == 0:
            return m.error(name, "division by zero", 0)
        return op(a[0], a[1])
    PRIMS[name] = Prim(S(name), g, 2, 2, True)


_divop("remainder", lambda a, b: a - b * tdiv(a, b))
_divop("modulo", lambda a, b: a % b)
for _ns, _p in ((("negative-integer?", "negative?"), lambda x: x < 0),
                (("non-negative-integer?", "non-negative?"), lambda x: x >= 0),
                (("positive-integer?", "positive?"), lambda x: x > 0)):
    for _n in _ns:
        simple(_n, 1, (lambda p: lambda x: is_int(x) and p(x))(_p))


@prim("zero?", 1)
def _(m, a):
    return a[0] == 0 if is_int(a[0]) else m.argerr("=", "number?", a[0])


# -- procedures

def arity_of(p):
    """Set of accepted counts: (set of exact counts, at-least or None)."""
    cl = [(p.lo, p.hi)] if type(p) is Prim else [(r, None if rest else r) for r, rest, _ in p.clauses]
    exact, least = set(), None
    for lo, hi in cl:
        if hi is None:
            least = lo if least is None else min(least, lo)
        else:
            exact |= set(range(lo, hi + 1))
    return exact, least


def arity_value(p):
    exact, least = arity_of(p)
    if least is not None:
        exact = {k for k in exact if k < least}
        while least - 1 in exact and False:
            pass
        return lst(sorted(exact) + [least], False)
    ks = sorted(exact)
    return ks[0] if len(ks) == 1 else lst(ks)


@prim("procedure-arity", 1)
def _(m, a):
    if not isinstance(a[0], Proc):
        return m.argerr("procedure-arity", "procedure?", a[0])
    return arity_value(a[0])


# -- characters and strings

@prim("char->integer", 1)
def _(m, a):
    return a[0].c if type(a[0]) is Char else m.argerr("char->integer", "char?", a[0])


@prim("integer->char", 1)
def _(m, a):
    if not is_int(a[0]):
        return m.argerr("integer->char", "integer?", a[0])
    if not 0 <= a[0] <= 255:
        raise Unspecified("integer->char range")
    return C(a[0])


def chk(s):
    if 0 in s:
        raise Unspecified("NUL in string")
    return Str(s)


@prim("string", 0, None)
def _(m, a):
    for x in a:
        if type(x) is not Char:
            return m.argerr("string", "char?", x)
    return chk([x.c for x in a])


@prim("list->string", 1)
def _(m, a):
    xs = unl(a[0])
    if xs is None:
        return m.argerr("for-each", "list?", a[0])
    for x in xs:
        if type(x) is not Char:
            return m.argerr("list->string", "char?", x)
    return chk([x.c for x in xs])


@prim("make-string", 1, 2)
def _(m, a):
    if not is_int(a[0]) or a[0] < 0:
        return m.argerr("make-string", "non-negative-integer?", a[0])
    c = a[1] if len(a) == 2 else C("a")
    if type(c) is not Char:
        return m.argerr("make-string", "char?", c)
    return chk([c.c] * a[0])


@prim("string-length", 1)
def _(m, a):
    return len(a[0].s) if type(a[0]) is Str else m.argerr("string-length", "string?", a[0])


@prim("string-ref", 2)
def _(m, a):
    s, i = a
    if type(s) is not Str:
        return m.argerr("string-ref", "string?", s)
    if not is_int(i) or i < 0:
        return m.argerr("string-ref", "non-negative-integer?", i)
    return C(s.s[i]) if i < len(s.s) else m.rangeerr("string-ref", s, len(s.s), i)


@prim("string-set!", 3)
def _(m, a):
    s, i, c = a
    if type(s) is not Str:
        return m.argerr("string-set!", "string?", s)
    if not is_int(i) or i < 0:
        return m.argerr("string-set!", "non-negative-integer?", i)
    if i >= len(s.s):
        return m.rangeerr("string-set!", s, len(s.s), i)
    if type(c) is not Char:
        return m.argerr("string-set!", "char?", c)
    if c.c == 0:
        raise Unspecified("NUL")
    s.s[i] = c.c
    return VOID


@prim("string-append", 0, None)
def _(m, a):
    for x in a:
        if type(x) is not Str:
            return m.argerr("string-append", "string?", x)
    if len(a) == 1:
        return a[0]
    return Str([c for x in a for c in x.s])


@prim("number->string", 1)
def _(m, a):
    return mkstr(str(a[0])) if is_int(a[0]) else m.argerr("number->string", "number?", a[0])


@prim("string->number", 1)
def _(m, a):
    if type(a[0]) is not Str:
        return m.argerr("string->number", "string?", a[0])
    s = pstr(a[0])
    t = s[1:] if s[:1] in ("-", "+") else s
    if not t.isdigit():
        raise Unspecified("string->number of a non-number")
    return fx(int(s))


@prim("symbol->string", 1)
def _(m, a):
    return mkstr(a[0].n) if type(a[0]) is Sym else m.argerr("symbol->string", "symbol?", a[0])


@prim("string->symbol", 1)
def _(m, a):
    return S(pstr(a[0])) if type(a[0]) is Str else m.argerr("string->symbol", "string?", a[0])


@prim("string->list", 1)
def _(m, a):
    return lst([C(c) for c in a[0].s]) if type(a[0]) is Str else m.argerr("string->list", "string?", a[0])


# -- vectors and boxes

@prim("make-vector", 1, 2)
def _(m, a):
    if not is_int(a[0]) or a[0] < 0:
        return m.argerr("make-vector", "non-negative-integer?", a[0])
    return Vec([a[1] if len(a) == 2 else 0] * a[0])


@prim("vector-length", 1)
def _(m, a):
    return len(a[0].v) if type(a[0]) is Vec else m.argerr("vector-length", "vector?", a[0])


@prim("vector-ref", 2)
def _(m, a):
    v, i = a
    if type(v) is not Vec:
        return m.argerr("vector-ref", "vector?", v)
    if not is_int(i) or i < 0:
        return m.argerr("vector-ref", "non-negative-integer?", i)
    return v.v[i] if i < len(v.v) else m.rangeerr("vector-ref", v, len(v.v), i)


@prim("vector-set!", 3)
def _(m, a):
    v, i, x = a
    if type(v) is not Vec:
        return m.argerr("vector-set!", "vector?", v)
    if not is_int(i) or i < 0:
        return m.argerr("vector-set!", "non-negative-integer?", i)
    if i >= len(v.v):
        return m.rangeerr("vector-set!", v, len(v.v), i)
    acyclic(v, x)
    v.v[i] = x
    return VOID


@prim("vector-fill!", 2)
def _(m, a):
    if type(a[0]) is not Vec:
        return m.argerr("vector-fill!", "vector?", a[0])
    acyclic(a[0], a[1])
    a[0].v[:] = [a[1]] * len(a[0].v)
    return VOID


@prim("list->vector", 1)
def _(m, a):
    xs = unl(a[0])
    return Vec(xs) if xs is not None else m.argerr("list->vector", "list?", a[0])


@prim("vector->list", 1)
def _(m, a):
    return lst(a[0].v) if type(a[0]) is Vec else m.argerr("vector->list", "vector?", a[0])


@prim("unbox", 1)
def _(m, a):
    return a[0].v if type(a[0]) is Box else m.argerr("unbox", "box?", a[0])


@prim("set-box!", 2)
def _(m, a):
    if type(a[0]) is not Box:
        return m.argerr("set-box!", "box?", a[0])
    acyclic(a[0], a[1])
    a[0].v = a[1]
    return VOID


# -- equality

def equal(m, a, b):
    if eqp(a, b):
        return True
    t = type(a)
    if t is Str:
        return type(b) is Str and a.s == b.s
    if t is Pair:
        return type(b) is Pair and equal(m, a.a, b.a) and equal(m, a.d, b.d)
    if t is Vec:
        return type(b) is Vec and len(a.v) == len(b.v) and all(equal(m, x, y) for x, y in zip(a.v, b.v))
    if t is Box:
        return type(b) is Box and equal(m, a.v, b.v)
    if t is HT:
        if type(b) is not HT or a.hash is not b.hash or a.equiv is not b.equiv or len(a.cells) != len(b.cells):
            return False
        for k, v in a.cells:
            c = ht_find(m, b, k)
            if c is None or not equal(m, v, c[1]):
                return False
        return True
    if t is Rec:
        if type(b) is not Rec:
            return False
        p = a.rtd.eqp if a.rtd.eqp is not False and a.rtd.eqp is b.rtd.eqp else m.req
        if p is not False:
            return m.call1(p, [a, b, GLOBALS["equal?"]])
        return False
    return False


@prim("equal?", 2)
def _(m, a):
    return equal(m, a[0], a[1])


class Hash:
    """An opaque hash value: only equality with another one means anything."""


# -- hashtables (association lists: the specification has no buckets)

def ht_find(m, ht, k):
    for c in ht.cells:
        if ht_eq(m, ht, c[0], k):
            return c
    return None


def ht_eq(m, ht, a, b):
    if ht.equiv is GLOBALS["eq?"]:
        return eqp(a, b)
    if ht.equiv is GLOBALS["equal?"]:
        return equal(m, a, b)
    r = m.call1(ht.equiv, [a, b])
    if r is False:
        return False
    return True


@prim("make-eq-hashtable", 0)
def _(m, a):
    return HT(GLOBALS["eq-hash"], GLOBALS["eq?"])


@prim("make-hashtable", 0)
def _(m, a):
    return HT(GLOBALS["equal-hash"], GLOBALS["equal?"])


@prim("make-custom-hashtable", 2)
def _(m, a):
    return HT(a[0], a[1])


@prim("eq-hash", 1)
def _(m, a):
    raise Unspecified("hash value")


@prim("equal-hash", 1)
def _(m, a):
    raise Unspecified("hash value")


def _htop(name, lo, hi=-1, who=None):
    def deco(f):
        def g(m, a):
            if type(a[0]) is not HT:
                return m.argerr(who or name, "hashtable?", a[0])
            return f(m, *a)
        PRIMS[name] = Prim(S(name), g, lo, lo if hi == -1 else hi, True)
        return f
    return deco


@_htop("hashtable-size", 1)
def _(m, h):
    return len(h.cells)


@_htop("hashtable-contains?", 2)
def _(m, h, k):
    return ht_find(m, h, k) is not None


def no_key(m, who, h, k):
    return m.err_exn("missing", S(who), mkstr("key not found"), mkstr("key"), h, k)


@_htop("hashtable-ref", 2, 3)
def _(m, h, k, *d):
    c = ht_find(m, h, k)
    if c is not None:
        return c[1]
    if not d:
        return no_key(m, "hashtable-ref", h, k)
    return Tail(d[0], []) if isinstance(d[0], Proc) else d[0]


@_htop("hashtable-set!", 3)
def _(m, h, k, v):
    c = ht_find(m, h, k)
    if c is not None:
        c[1] = v
    else:
        h.cells.append([k, v])
    return VOID


@_htop("hashtable-update!", 3, 4)
def _(m, h, k, up, *d):
    if not isinstance(up, Proc):
        return m.argerr("hashtable-update!", "procedure?", up)
    c = ht_find(m, h, k)
    if c is not None:
        x = c[1]
    elif not d:
        x = m.one(no_key(m, "hashtable-update!", h, k))
    else:
        x = m.call1(d[0], []) if isinstance(d[0], Proc) else d[0]
    v = m.call1(up, [x])
    c = ht_find(m, h, k)            # the updater may have changed the table
    if c is not None:
        c[1] = v
    else:
        h.cells.append([k, v])
    return VOID


@_htop("hashtable-delete!", 2)
def _(m, h, k):
    for i, c in enumerate(h.cells):
        if ht_eq(m, h, c[0], k):
            del h.cells[i]
            break
    return VOID


@_htop("hashtable-clear!", 1)
def _(m, h):
    h.cells = []
    return VOID


@_htop("hashtable-copy", 1)
def _(m, h):
    r = HT(h.hash, h.equiv)
    r.cells = [[k, v] for k, v in h.cells]
    return r


ORDER_FREE = False      # set by checks whose observations do not depend on the order of keys


def _order(h):
    if len(h.cells) > 1 and not ORDER_FREE:
        raise Unspecified("order of keys")
    return h.cells


@_htop("hashtable-keys", 1)
def _(m, h):
    return Vec([k for k, v in _order(h)])


@_htop("hashtable-vals", 1)
def _(m, h):
    return Vec([v for k, v in _order(h)])


@_htop("hashtable-entries", 1)
def _(m, h):
    return Values([Vec([k for k, v in _order(h)]), Vec([v for k, v in _order(h)])])


# -- records

@prim("make-record-type-descriptor", 6)
def _(m, a):
    name, parent, uid, sealed, opaque, fields = a
    w = "make-record-type-descriptor"
    if type(name) is not Sym:
        return m.argerr(w, "symbol?", name)
    if type(parent) is Rtd:
        if parent.sealed:
            return m.argerr(w, "non-sealed record type", parent)
    elif parent is not False:
        return m.argerr(w, "record-type-descriptor? or #f", parent)
    if uid is not False and type(uid) is not Sym:
        return m.argerr(w, "symbol? or #f", uid)
    if type(sealed) is not bool:
        return m.argerr(w, "boolean?", sealed)
    if type(opaque) is not bool:
        return m.argerr(w, "boolean?", opaque)
    if type(fields) is not Vec:
        return m.argerr(w, "vector?", fields)
    fs = []
    for f in fields.v:
        l = unl(f) if type(f) is Pair else None
        if l is None or len(l) != 2 or l[0] not in (S("immutable"), S("mutable")) or type(l[1]) is not Sym:
            return m.argerr(w, "invalid field; '(immutable <name>) or '(mutable <name>)", f)
        if any(l[1] is n for _, n in fs):
            return m.argerr(w, "duplicate field", l[1])
        fs.append((l[0].n, l[1]))
    return Rtd(name, parent or None, uid, sealed, opaque, fs)


def _rtdop(name, f):
    def g(m, a):
        return f(a[0]) if type(a[0]) is Rtd else m.argerr(name, "record-type-name?", a[0])
    PRIMS[name] = Prim(S(name), g, 1, 1, True)


_rtdop("record-type-name", lambda r: r.name)
_rtdop("record-type-parent", lambda r: r.parent or False)
_rtdop("record-type-uid", lambda r: r.uid)
_rtdop("record-type-sealed?", lambda r: r.sealed)
_rtdop("record-type-opaque?", lambda r: r.opaque)
_rtdop("record-type-field-names", lambda r: Vec([n for _, n in r.fields]))


@prim("record-type-field-mutable?", 2)
def _(m, a):
    r, i = a
    if type(r) is not Rtd:
        return m.argerr("record-type-field-mutable?", "record-type-name?", r)
    if not is_int(i) or i < 0:
        return m.argerr("record-type-field-mutable?", "non-negative integer?", i)
    if i >= len(r.fields):
        return m.rangeerr("record-type-field-mutable?", r, len(r.fields), i)
    return r.fields[i][0] == "mutable"


@prim("record?", 1)
def _(m, a):
    if type(a[0]) is HT:
        return False
    return type(a[0]) is Rec and not a[0].rtd.opaque


@prim("record-rtd", 1)
def _(m, a):
    if type(a[0]) is Rec and not a[0].rtd.opaque:
        return a[0].rtd
    return m.argerr("record-rtd", "record?", a[0])


@prim("record-constructor", 1)
def _(m, a):
    r = a[0]
    if type(r) is not Rtd:
        return m.argerr("record-constructor", "record-type-descriptor?", r)
    n = r.size()
    p = Prim(None, None, 0, None, True)

    def make(m, args):
        if len(args) == n:
            return Rec(r, list(args))
        return m.err_exn("arity", p.name or S("make"), mkstr("arity mismatch"), n, len(args))
    p.f = make
    return p


def isa(rec, r):
    if type(rec) is not Rec:
        return False
    t = rec.rtd
    while t is not None:
        if t is r:
            return True
        t = t.parent
    return False


@prim("record-predicate", 1)
def _(m, a):
    r = a[0]
    if type(r) is not Rtd:
        return m.argerr("record-predicate", "record-type-descriptor?", r)
    return Prim(None, lambda x: isa(x, r), 1, 1, False)


def _acc(name, mut):
    def g(m, a):
        r, i = a
        if type(r) is not Rtd:
            return m.argerr(name, "record-type-descriptor?", r)
        if not is_int(i) or i < 0:
            return m.argerr(name, "non-negative-integer?", i)
        if i >= len(r.fields):
            return m.rangeerr(name, r, len(r.fields), i)
        at = i + (r.parent.size() if r.parent else 0)

        def get(m, a):
            if not isa(a[0], r):
                return m.argerr("acc", text(r.name, True), a[0])
            if mut:
                a[0].v[at] = a[1]
                return VOID
            return a[0].v[at]
        return Prim(None, get, 2 if mut else 1, 2 if mut else 1, True)
    PRIMS[name] = Prim(S(name), g, 2, 2, True)


_acc("record-accessor", False)
_acc("record-mutator", True)


def _rtproc(name, slot):
    def g(m, a):
        if type(a[0]) is not Rtd:
            return m.argerr(name, "record-type-desriptor?", a[0])
        if len(a) == 1:
            return getattr(a[0], slot)
        if not isinstance(a[1], Proc):
            return m.argerr(name, "procedure?", a[1])
        setattr(a[0], slot, a[1])
        return VOID
    PRIMS[name] = Prim(S(name), g, 1, 2, True)


_rtproc("record-type-equal-procedure", "eqp")
_rtproc("record-type-hash-procedure", "hashp")
_rtproc("record-writer", "writer")


def _defproc(name, slot):
    def g(m, a):
        if not a:
            return getattr(m, slot)
        if not isinstance(a[0], Proc):
            return m.argerr(name, "procedure?", a[0])
        setattr(m, slot, a[0])
        return VOID
    PRIMS[name] = Prim(S(name), g, 0, 1, True)


_defproc("default-record-equal-procedure", "req")
_defproc("default-record-hash-procedure", "rhash")


# hashtables are opaque records underneath; whether these two see through that is left open
@prim("record-equal-procedure", 2)
def _(m, a):
    if HT in map(type, a):
        raise Unspecified("a hashtable as a record")
    for x in a:
        if type(x) is not Rec:
            return m.argerr("record-equal-procedure", "record?", x)
    p = a[0].rtd.eqp
    return p if p is not False and p is a[1].rtd.eqp else False


@prim("record-hash-procedure", 1)
def _(m, a):
    if type(a[0]) is HT:
        raise Unspecified("a hashtable as a record")
    return a[0].rtd.hashp if type(a[0]) is Rec else m.argerr("record-hash-procedure", "record?", a[0])


# -- environments

@prim("make-empty-environment", 0)
def _(m, a):
    return TopEnv({})


@prim("make-base-environment", 0)
def _(m, a):
    return TopEnv(base_env(m))


def env_prim(name, lo, hi=-1):
    def deco(f):
        def g(m, a):
            if type(a[0]) is not TopEnv:
                return m.argerr(name, "environment?", a[0])
            return f(m, *a)
        PRIMS[name] = Prim(S(name), g, lo, lo if hi == -1 else hi, True)
        return f
    return deco


@env_prim("copy-environment", 1, 3)
def _(m, env, mut=True, syms=None):
    if type(mut) is not bool:
        return m.argerr("copy-environment", "boolean?", mut)
    if syms is None:
        ks = list(env.d.all() if type(env.d) is BaseDict else env.d)
    else:
        ks = unl(syms)
        if ks is None:
            return m.argerr("copy-environment", "list of symbols", syms)
        if not all(type(k) is Sym for k in ks):
            return m.argerr("copy-environment", "list of symbols", syms)
        if len(set(ks)) != len(ks):
            raise Unspecified("duplicate symbols")
        ks = [k.n for k in ks]
    return TopEnv({k: [env.d.get(k)[0]] for k in ks if env.d.get(k) is not None})


@env_prim("environment-symbols", 1)
def _(m, env):
    if len(env.d) > 1 or type(env.d) is BaseDict:
        raise Unspecified("order of symbols")
    return lst([S(k) for k in env.d])


@env_prim("environment-ref", 2, 3)
def _(m, env, k, *fail):
    if type(k) is not Sym:
        return m.argerr("environment-ref", "symbol?", k)
    c = env.d.get(k.n)
    if c is not None:
        return c[0]
    if not fail:
        return m.err_exn("missing", S("environment-ref"), mkstr("key not found"), mkstr("key"), env, k)
    return Tail(fail[0], []) if isinstance(fail[0], Proc) else fail[0]


@env_prim("environment-set!", 3)
def _(m, env, k, v):
    if type(k) is not Sym:
        return m.argerr("environment-set!", "symbol?", k)
    c = env.d.get(k.n)
    if c is not None:
        c[0] = v
    else:
        env.d[k.n] = [v]
    return VOID


@prim("current-environment", 0, 1)
def _(m, a):
    if not a:
        return m.tenv
    if type(a[0]) is not TopEnv:
        return m.argerr("current-environment", "environment?", a[0])
    m.tenv = a[0]
    return VOID


# -- ports and output

@prim("open-output-string", 0)
def _(m, a):
    return OutPort("string")


@prim("current-output-port", 0)
def _(m, a):
    return m.out


@prim("current-error-port", 0)
def _(m, a):
    return m.err


@prim("string-port?", 1)
def _(m, a):
    if type(a[0]) is InPort:
        return True
    if type(a[0]) is OutPort:
        return a[0].kind == "string"
    raise Unspecified("string-port? of a non-port")


@prim("open-output-file", 1)
def _(m, a):
    if type(a[0]) is not Str:
        return m.argerr("open-output-file", "string?", a[0])
    n = pstr(a[0])
    if "/" in n or not n:
        raise Unspecified("path")
    f = m.files.setdefault(n, File())
    if f.writer and f.writer.open:
        raise Unspecified("two writers of a file")
    f.s, f.version = [], f.version + 1
    f.writer = OutPort("file", f)
    return f.writer


@prim("open-input-file", 1)
def _(m, a):
    if type(a[0]) is not Str:
        return m.argerr("open-input-file", "string?", a[0])
    f = m.files.get(pstr(a[0]))
    if f is None:
        return m.cerror("no such file")
    if f.writer and f.writer.open and f.writer.buf:
        raise Unspecified("unflushed data")
    return InPort(f.s, f)


@prim("open-input-string", 1)
def _(m, a):
    return InPort(list(a[0].s)) if type(a[0]) is Str else m.argerr("open-input-string", "string?", a[0])


def _closer(name, who, ty, what):
    def g(m, a):
        if type(a[0]) is not ty:
            return m.argerr(who, what, a[0])
        if ty is OutPort:
            a[0].flush()
        a[0].open = False
        return VOID
    PRIMS[name] = Prim(S(name), g, 1, 1, True)


_closer("close-input-port", "close-input-port", InPort, "input-port?")
_closer("close-output-port", "close-output-port", OutPort, "output-port?")


@prim("get-output-string", 1)
def _(m, a):
    if type(a[0]) is not OutPort or a[0].kind != "string":
        return m.argerr("get-output-string", "(and output-port? string-port?)", a[0])
    s = opened(m, a[0]).buf
    a[0].buf = []
    return mkstr("".join(s))


def opened(m, p):
    if not p.open:
        m.cerror("closed port")
    return p


def emit(m, p, s):
    opened(m, p).buf.append(s)
    return VOID


def _inop(name, f):
    def g(m, a):
        if not a:
            raise Unspecified("standard input")
        if type(a[0]) is not InPort:
            return m.argerr(name, "input-port?", a[0])
        p = opened(m, a[0])
        if p.file and p.file.version != p.version:
            raise Unspecified("the file changed under a reader")
        return f(m, p)
    PRIMS[name] = Prim(S(name), g, 0, 1, True)


def _rdch(m, p):
    if p.i >= len(p.s):
        return EOF
    p.i += 1
    return C(p.s[p.i - 1])


_inop("read-char", _rdch)
def _read(m, p):
    from . import reader
    r = reader.Reader(p.s, p.i)
    try:
        x = r.read()
    except reader.Malformed:
        return m.cerror("malformed datum")
    p.i = r.i
    return EOF if x is None else x


_inop("read", _read)
_inop("char-ready?", lambda m, p: p.i < len(p.s))
_inop("peek-char", lambda m, p: C(p.s[p.i]) if p.i < len(p.s) else EOF)


def _outp(m, who, p, what="output-port?"):
    return type(p) is OutPort or m.argerr(who, what, p)


@prim("put-char", 2)
def _(m, a):
    p, c = a
    if type(p) is not OutPort:
        return m.argerr("put-char", "output-port?", c)
    if type(c) is not Char:
        return m.argerr("put-char", "char?", c)
    return emit(m, p, chr(c.c))


@prim("write-char", 1, 2)
def _(m, a):
    if type(a[0]) is not Char:
        return m.argerr("write-char", "char?", a[0])
    p = a[1] if len(a) == 2 else m.out
    if type(p) is not OutPort:
        return m.argerr("write-char", "output-port?", p)
    return emit(m, p, chr(a[0].c))


@prim("put-string", 2, 4)
def _(m, a):
    p, s = a[0], a[1]
    if type(p) is not OutPort:
        return m.argerr("put-string", "output-port?", p)
    if type(s) is not Str:
        return m.argerr("put-string", "string?", s)
    for x in a[2:]:
        if not is_int(x) or x < 0:
            return m.argerr("put-string", "integer?", x)
    n = len(s.s)
    start = a[2] if len(a) > 2 else 0
    cnt = a[3] if len(a) > 3 else n - start
    for d, v in (("start", start), ("end", start + cnt)):
        if v > n:
            return m.err_exn("range", S("put-string"), mkstr(d + " index out of bounds"), s, mkstr(d), 0, n + 1, v)
    return emit(m, p, "".join(map(chr, s.s[start:start + cnt])))


@prim("newline", 0, 1)
def _(m, a):
    p = a[0] if a else m.out
    if type(p) is not OutPort:
        return m.argerr("newline", "output port?", p)
    return emit(m, p, "\n")


@prim("flush-output-port", 1)
def _(m, a):
    if type(a[0]) is not OutPort:
        return m.argerr("flush-output-port", "output-port?", a[0])
    opened(m, a[0]).flush()
    return VOID


def put(m, x, d, p):
    """Print x, calling record writers where they are installed."""
    t = type(x)
    if t is Rec and x.rtd.writer is not False:
        m.app(x.rtd.writer, [x, p, d])
    elif t is Pair:
        emit(m, p, "(")
        while True:
            put(m, x.a, d, p)
            x = x.d
            if type(x) is not Pair:
                break
            emit(m, p, " ")
        if x is not NIL:
            emit(m, p, " . ")
            put(m, x, d, p)
        emit(m, p, ")")
    elif t is Vec:
        emit(m, p, "#(")
        for i, v in enumerate(x.v):
            if i:
                emit(m, p, " ")
            put(m, v, d, p)
        emit(m, p, ")")
    elif t is Box:
        emit(m, p, "#&")
        put(m, x.v, d, p)
    else:
        emit(m, p, text(x, d))
    return VOID


def _wr(name, d):
    def g(m, a):
        p = a[1] if len(a) == 2 else m.out
        if type(p) is not OutPort:
            return m.argerr(name, "output-port?", p)
        return put(m, a[0], d, p)
    PRIMS[name] = Prim(S(name), g, 1, 2, True)


_wr("write", False)
_wr("display", True)


@prim("put-datum", 2)
def _(m, a):
    if type(a[0]) is not OutPort:
        return m.argerr("put-datum", "output-port?", a[0])
    return put(m, a[1], False, a[0])


def do_format(m, who, p, fmt, args):
    if type(fmt) is not Str:
        return m.argerr("string-length", "string?", fmt)
    s, items, i = pstr(fmt), [], 0
    while i < len(s):
        if s[i] != "~":
            items.append(s[i])
            i += 1
            continue
        if i + 1 >= len(s):
            return m.error(who, "ill-formed format string `%s`" % s)
        c = s[i + 1]
        if c in "aA":
            items.append(True)
        elif c in "sS":
            items.append(False)
        elif c == "%":
            items.append("\n")
        elif c == "~":
            items.append("~")
        else:
            return m.error(who, "unknown format directive `%s`" % c)
        i += 2
    n = sum(type(x) is bool for x in items)
    if n != len(args):
        return m.error(who, "format string requires %d argument, given %d" % (n, len(args)))
    args = list(args)
    if p is None:
        p = OutPort("string")
    for x in items:
        if type(x) is bool:
            put(m, args.pop(0), x, p)
        else:
            emit(m, p, x)
    return p


def fmt_result(m, r, f):
    """do_format returned either the port or what the handler made of an error."""
    if type(r) is OutPort:
        return f(r)
    raise Unspecified("format goes on after its error")


@prim("format", 1, None)
def _(m, a):
    return fmt_result(m, do_format(m, "format", None, a[0], a[1:]), lambda p: mkstr("".join(p.buf)))


@prim("printf", 1, None)
def _(m, a):
    return fmt_result(m, do_format(m, "printf", m.out, a[0], a[1:]), lambda p: VOID)


@prim("eprintf", 1, None)
def _(m, a):
    return fmt_result(m, do_format(m, "eprintf", m.err, a[0], a[1:]), lambda p: VOID)


@prim("fprintf", 2, None)
def _(m, a):
    if type(a[0]) is not OutPort:
        return m.argerr("fprintf", "output port?", a[0])
    return fmt_result(m, do_format(m, "fprintf", a[0], a[1], a[2:]), lambda p: VOID)


# -- syntax objects

@prim("datum->syntax", 1)
def _(m, a):
    return to_syntax(a[0])


def _stx(name, f):
    def g(m, a):
        return f(a[0]) if type(a[0]) is Syntax else m.argerr(name, "syntax?", a[0])
    PRIMS[name] = Prim(S(name), g, 1, 1, True)


_stx("syntax-e", lambda s: s.e)
_stx("syntax-loc", lambda s: False)
_stx("syntax->datum", strip)


def stx_list(s):
    out, x = [], s.e
    while True:
        if type(x) is Pair:
            out.append(x.a)
            x = x.d
        elif type(x) is Syntax and type(x.e) in (Pair,) or type(x) is Syntax and x.e is NIL:
            x = x.e
        else:
            return lst(out) if x is NIL else False


_stx("syntax->list", stx_list)


# -- exceptions

for _k, _n, _fs in (("base", "exn", ("who", "message")),) + tuple(
        (k, EXN[k].name.n[1:], tuple(f.n for _, f in EXN[k].fields)) for k in ("arg", "arity", "range", "missing", "syntax")):
    def _mk(k, n, fs):
        r = EXN[k]
        PRIMS["make-" + n] = p = Prim(S("make-" + n), None, 0, None, True)
        size = r.size()

        def make(m, args):
            if len(args) == size:
                return Rec(r, list(args))
            return m.err_exn("arity", S("make-" + n), mkstr("arity mismatch"), size, len(args))
        p.f = make
        PRIMS[n + "?"] = Prim(S(n + "?"), lambda x: isa(x, r), 1, 1, False)
        base = r.parent.size() if r.parent else 0
        for i, f in enumerate(fs):
            def acc(m, a, i=i, f=f):
                if not isa(a[0], r):
                    return m.argerr(n + "-" + f, r.name.n, a[0])
                return a[0].v[base + i]
            PRIMS[n + "-" + f] = Prim(S(n + "-" + f), acc, 1, 1, True)
    _mk(_k, _n, _fs)


def _who(m, w, fn, strings=False):
    return w is False or type(w) is Sym or (strings and type(w) is Str)


@prim("error", 2, None)
def _(m, a):
    who, msg = a[0], a[1]
    if not _who(m, who, "error", True):
        return m.argerr("error", "symbol? or string? or #f", who)
    if type(msg) is not Str:
        return m.argerr("error", "string?", msg)
    if len(a) == 2:
        return m.err_exn("base", who, msg)
    return m.error(who, pstr(msg), *a[2:])


@prim("errorf", 2, None)
def _(m, a):
    if not _who(m, a[0], "errorf"):
        return m.argerr("errorf", "symbol? or #f", a[0])
    if type(a[1]) is not Str:
        return m.argerr("errorf", "string?", a[1])
    r = do_format(m, "format", None, a[1], a[2:])
    return fmt_result(m, r, lambda p: m.err_exn("base", a[0], mkstr("".join(p.buf))))


@prim("raise-argument-error", 3)
def _(m, a):
    if not _who(m, a[0], ""):
        return m.argerr("raise-argument-error", "symbol? or #f", a[0])
    if type(a[1]) is not Str:
        return m.argerr("raise-argument-error", "string?", a[1])
    return m.err_exn("arg", a[0], mkstr("contract violation"), a[1], a[2])


@prim("raise-arity-error", 3)
def _(m, a):
    if not _who(m, a[0], ""):
        return m.argerr("raise-arity-error", "symbol? or #f", a[0])
    if not arity_ok(a[1]):
        return m.argerr("raise-arity-error", "procedure-arity?", a[1])
    return m.err_exn("arity", a[0], mkstr("arity mismatch"), a[1], a[2])


def arity_ok(x):
    if is_int(x):
        return x >= 0
    p = -1
    if type(x) is not Pair:
        return False
    while type(x) is Pair:
        if not is_int(x.a) or x.a <= p:
            return False
        p, x = x.a, x.d
    return x is NIL or x is False


simple("procedure-arity?", 1, arity_ok)


@prim("raise-range-error", 6)
def _(m, a):
    who, v, d, lo, hi, i = a
    w = "raise-range-error"
    if not _who(m, who, ""):
        return m.argerr(w, "symbol? or #f", who)
    if type(d) is not Str:
        return m.argerr(w, "string?", d)
    for x in (lo, hi, i):
        if not is_int(x):
            return m.argerr(w, "integer?", x)
    return m.err_exn("range", who, mkstr(pstr(d) + " index out of bounds" if d.s else "index out of bounds"), v, d, lo, hi, i)


@prim("raise-missing-error", 4)
def _(m, a):
    who, d, x, k = a
    if not _who(m, who, ""):
        return m.argerr("raise-argument-error", "symbol? or #f", who)
    if type(d) is not Str:
        return m.argerr("raise-argument-error", "string?", d)
    return m.err_exn("missing", who, mkstr(pstr(d) + " not found"), d, x, k)


@prim("raise-syntax-error", 2, 4)
def _(m, a):
    who, msg = a[0], a[1]
    stx = a[2] if len(a) > 2 else False
    sub = a[3] if len(a) > 3 else False
    if not _who(m, who, ""):
        return m.argerr("syntax-error", "symbol? or #f", who)
    if type(msg) is not Str:
        return m.argerr("syntax-error", "string", msg)
    for x in (stx, sub):
        if x is not False and type(x) is not Syntax:
            return m.argerr("syntax-error", "syntax or #f", x)
    return m.err_exn("syntax", who, msg, strip(stx) if stx is not False else False, strip(sub) if sub is not False else False)


@prim("procedure-name", 1)
def _(m, a):
    raise Unspecified("procedure-name")


@prim("procedure-rename", 2)
def _(m, a):
    p, n = a
    if not isinstance(p, Proc):
        return m.argerr("procedure-rename", "procedure?", p)
    if type(n) is not Sym:
        return m.argerr("procedure-rename", "symbol?", n)
    q = Prim(n, p.f, p.lo, p.hi, p.wm) if type(p) is Prim else Closure(p.clauses, p.env, p.tenv)
    q.name = n
    return q


@prim("hashtable-hash-proc", 1)
def _(m, a):
    return a[0].hash if type(a[0]) is HT else m.argerr("hashtable-hash-proc", "hashtable", a[0])


@prim("hashtable-equiv-proc", 1)
def _(m, a):
    return a[0].equiv if type(a[0]) is HT else m.argerr("hashtable-equiv-proc", "hashtable", a[0])


GLOBALS = dict(PRIMS)
GLOBALS.update({"null": NIL, "true": True, "false": False, "eof": EOF})
for _k, _n in (("base", "&exn"), ("arg", "&argument"), ("arity", "&arity"), ("range", "&range"), ("missing", "&missing"),
               ("syntax", "&syntax")):
    GLOBALS[_n] = EXN[_k]


def run(program, fuel=20000):
    """(k, v, out): canonical result of a program, as the driver reports it."""
    m = Machine(fuel)
    k, v = m.run(program)
    if k == "V":
        v = show(v)
    return k, v, m.stdout()


def run_counted(program, fuel=20000):
    """run, plus the number of procedure applications made; None if unspecified."""
    m = Machine(fuel)
    try:
        k, v = m.run(program)
        if k == "V":
            v = show(v)
    except Unspecified as u:
        return None, str(u), fuel - m.fuel
    return (k, v, m.stdout()), None, fuel - m.fuel


def run_full(program, fuel=20000):
    """run_counted, with the text on the error port as well (None: any text)."""
    m = Machine(fuel)
    try:
        k, v = m.run(program)
        if k == "V":
            v = show(v)
    except Unspecified as u:
        return None, str(u), fuel - m.fuel
    return (k, v, m.stdout(), None if m.err_any else "".join(m.err.buf)), None, fuel - m.fuel
