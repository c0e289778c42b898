"""Reference reader: the grammar of external data, over a list of byte codes."""
from .ref import C, Pair, Str, Vec, Box, S, NIL, lst, Unspecified

SPACE = {9, 10, 11, 12, 13, 32}
OPEN = {40: 41, 91: 93, 123: 125}
CLOSE = set(OPEN.values())
DELIM = SPACE | set(OPEN) | CLOSE | {34, 59}
NAMES = {"alarm": 7, "backspace": 8, "delete": 127, "esc": 27, "linefeed": 10, "newline": 10, "nul": 0, "page": 12, "return": 13, "space": 32, "tab": 9, "vtab": 11}
ESC = {"a": 7, "b": 8, "f": 12, "r": 13, "v": 11, "n": 10, "t": 9, "\\": 92, "'": 39, '"': 34}
MAXTOK = 4096


class Malformed(Exception):
    pass


class Reader:
    def __init__(self, s, i=0):
        self.s, self.i, self.n = s, i, len(s)

    def delim(self, i):
        return i >= self.n or self.s[i] in DELIM

    def skip(self):
        """Whitespace and comments."""
        s, n = self.s, self.n
        while self.i < n:
            c = s[self.i]
            d = s[self.i + 1] if self.i + 1 < n else -1
            if c in SPACE:
                self.i += 1
            elif c == 59:
                while self.i < n and s[self.i] != 10:
                    self.i += 1
            elif c == 35 and d == 124:
                self.i += 2
                depth = 1
                while depth:
                    if self.i + 1 >= n:
                        raise Malformed("block comment")
                    two = (s[self.i], s[self.i + 1])
                    if two == (35, 124):
                        depth += 1
                        self.i += 2
                    elif two == (124, 35):
                        depth -= 1
                        self.i += 2
                    else:
                        self.i += 1
            elif c == 35 and d == 59:
                self.i += 2
                self.datum()
            else:
                return

    def peek(self):
        self.skip()
        if self.i >= self.n:
            raise Malformed("end of input")
        return self.s[self.i]

    def datum(self):
        self.peek()
        return self.read()

    def read(self):
        """The next datum, or None at the end."""
        self.skip()
        if self.i >= self.n:
            return None
        s, c = self.s, self.s[self.i]
        if c in OPEN:
            self.i += 1
            return self.list(OPEN[c])
        if c in CLOSE:
            raise Malformed("unexpected closing parenthesis")
        if c == 39:
            self.i += 1
            return lst([S("quote"), self.datum()])
        if c == 34:
            return self.string()
        if c == 35:
            d = s[self.i + 1] if self.i + 1 < self.n else -1
            if d == 37:
                return self.symbol()
            self.i += 2
            if d in (116, 102):
                if not self.delim(self.i):
                    raise Unspecified("text after a boolean")
                return d == 116
            if d == 92:
                return self.char()
            if d == 39:
                return lst([S("quote-syntax"), self.datum()])
            if d == 38:
                return Box(self.datum())
            if d == 40:
                out = []
                while self.peek() != 41:
                    out.append(self.datum())
                self.i += 1
                return Vec(out)
            if d == 120:
                return self.number(16, "0123456789abcdefABCDEF")
            raise Malformed("#")
        j = self.i + (1 if c in (43, 45) else 0)
        if j < self.n and 48 <= s[j] <= 57:
            while j < self.n and 48 <= s[j] <= 57:
                j += 1
            if self.delim(j):
                return self.number(10, "0123456789")
        return self.symbol()

    def number(self, base, digits):
        i = j = self.i
        if j < self.n and self.s[j] in (43, 45):
            j += 1
        k = j
        while k < self.n and chr(self.s[k]) in digits:
            k += 1
        if k == j or not self.delim(k):
            raise Malformed("number")
        if k - i > MAXTOK:
            raise Malformed("too long")
        v = int(bytes(self.s[i:k]), base)
        if not -2 ** 62 <= v < 2 ** 62:
            raise Unspecified("number out of range")
        self.i = k
        return v

    def symbol(self):
        j = self.i
        while not self.delim(j):
            j += 1
        if j - self.i > MAXTOK:
            raise Malformed("too long")
        b, self.i = self.s[self.i:j], j
        if b == [46]:
            raise Unspecified("lone dot")
        if 0 in b:
            raise Unspecified("NUL")
        return S("".join(map(chr, b)))

    def string(self):
        out, i = [], self.i + 1
        while True:
            if i >= self.n:
                raise Malformed("string")
            c = self.s[i]
            if c == 34:
                break
            if c == 92:
                i += 1
                e = chr(self.s[i]) if i < self.n else ""
                if e not in ESC or not e:
                    raise Malformed("escape")
                c = ESC[e]
            if c == 0:
                raise Unspecified("NUL")
            out.append(c)
            i += 1
        if len(out) > MAXTOK:
            raise Malformed("too long")
        self.i = i + 1
        return Str(out)

    def char(self):
        if self.i >= self.n:
            raise Malformed("character")
        c = self.s[self.i]
        self.i += 1
        if self.delim(self.i):
            return C(c)
        j = self.i
        while not self.delim(j):
            j += 1
        w = "".join(map(chr, self.s[self.i - 1:j]))
        self.i = j
        if w not in NAMES:
            raise Malformed("character name")
        return C(NAMES[w])

    def list(self, close):
        out, tail = [], NIL
        while True:
            c = self.peek()
            if c in CLOSE:
                if c != close:
                    raise Malformed("mismatch")
                self.i += 1
                return lst(out, tail)
            if c == 46 and self.delim(self.i + 1):
                if not out or self.i + 1 >= self.n or self.s[self.i + 1] not in SPACE:
                    raise Unspecified("lone dot")
                self.i += 1
                if self.peek() == 46 and self.delim(self.i + 1):
                    raise Unspecified("lone dot")
                tail = self.datum()
                if self.peek() != close:
                    raise Malformed("after the tail")
                self.i += 1
                return lst(out, tail)
            out.append(self.datum())
