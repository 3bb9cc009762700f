"""Sets of Unicode scalar values plus the pseudo-character EOF, as interval lists."""

EOF = 0x110000
LIM = EOF + 1


_and = {}


class CharSet:
    __slots__ = ("iv", "_h")
    _pool = {}

    def __new__(cls, iv=()):
        iv = tuple(iv)
        s = cls._pool.get(iv)
        if s is None:
            s = object.__new__(cls)
            s.iv = iv
            s._h = hash(iv)
            cls._pool[iv] = s
        return s

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.iv < o.iv

    def __bool__(self):
        return bool(self.iv)

    @staticmethod
    def of(*items):
        """of('a', ('0','9'), 0x20, EOF) -> set"""
        out = []
        for it in items:
            if isinstance(it, tuple):
                lo, hi = it
            else:
                lo = hi = it
            lo = ord(lo) if isinstance(lo, str) else lo
            hi = ord(hi) if isinstance(hi, str) else hi
            out.append((lo, hi + 1))
        return CharSet.norm(out)

    @staticmethod
    def chars(s):
        return CharSet.of(*list(s))

    @staticmethod
    def norm(ivs):
        out = []
        for lo, hi in sorted(ivs):
            if lo >= hi:
                continue
            if out and lo <= out[-1][1]:
                if hi > out[-1][1]:
                    out[-1] = (out[-1][0], hi)
            else:
                out.append((lo, hi))
        r = CharSet(out)
        return r

    def __or__(self, o):
        return CharSet.norm(list(self.iv) + list(o.iv))

    def __and__(self, o):
        if self is o:
            return self
        k = (self, o)
        r = _and.get(k)
        if r is None:
            r = _and[k] = self._and(o)
        return r

    def _and(self, o):
        a, b = self.iv, o.iv
        i = j = 0
        out = []
        while i < len(a) and j < len(b):
            lo = max(a[i][0], b[j][0])
            hi = min(a[i][1], b[j][1])
            if lo < hi:
                out.append((lo, hi))
            if a[i][1] < b[j][1]:
                i += 1
            else:
                j += 1
        return CharSet(out)

    def __invert__(self):
        out = []
        p = 0
        for lo, hi in self.iv:
            if p < lo:
                out.append((p, lo))
            p = hi
        if p < LIM:
            out.append((p, LIM))
        return CharSet.norm(out) & UNIVERSE

    def __sub__(self, o):
        return self & ~o

    def __contains__(self, c):
        c = ord(c) if isinstance(c, str) else c
        return any(lo <= c < hi for lo, hi in self.iv)

    def __le__(self, o):
        return (self & o) is self

    def size(self):
        return sum(h - l for l, h in self.iv)

    def single(self):
        if len(self.iv) == 1 and self.iv[0][1] - self.iv[0][0] == 1:
            return self.iv[0][0]
        return None

    def __repr__(self):
        return show(self)


# surrogates are no scalar values
UNIVERSE = CharSet(((0, 0xD800), (0xE000, LIM)))
CHARS = CharSet(((0, 0xD800), (0xE000, EOF)))
EMPTY = CharSet(())
EOFSET = CharSet.of(EOF)
ASCII = CharSet(((0, 0x80),))


def _c(c):
    if c == EOF:
        return "EOF"
    ch = chr(c)
    if ch in "\n\r\t":
        return {"\n": "\\n", "\r": "\\r", "\t": "\\t"}[ch]
    if 0x20 < c < 0x7F:
        return ch
    if c == 0x20:
        return "SPACE"
    return "U+%04X" % c


def show(s):
    if s is UNIVERSE:
        return "[any or EOF]"
    if s is CHARS:
        return "[any char]"
    inv = ~s
    neg = ""
    if len(inv.iv) and EOF in s and CharSet(inv.iv).size() < 3000 and s.size() > 100000:
        neg = "^"
        s = inv
    elif EOF not in s and s.size() > 100000 and (CHARS - s).size() < 3000:
        neg = "^"
        s = CHARS - s
        if not s:
            return "[any char]"
    parts = []
    for lo, hi in s.iv:
        if hi - lo == 1:
            parts.append(_c(lo))
        elif hi - lo == 2:
            parts.append(_c(lo) + " " + _c(hi - 1))
        elif hi == LIM and lo < EOF:
            parts.append(_c(lo) + "-" + _c(EOF - 1) + " EOF")
        else:
            parts.append(_c(lo) + "-" + _c(hi - 1))
    if len(parts) > 24:
        parts = parts[:24] + ["... %d ranges" % len(s.iv)]
    return "[" + neg + " ".join(parts) + "]"


def utf8_len_set(n):
    return {
        1: CharSet(((0, 0x80),)),
        2: CharSet(((0x80, 0x800),)),
        3: CharSet(((0x800, 0xD800), (0xE000, 0x10000))),
        4: CharSet(((0x10000, EOF),)),
    }[n]
