"""A normal form of decision trees, for trees that say the same thing in different shapes.

Used when two trees are not identical at once.  Every step keeps the meaning:
  split   a leaf that mentions a character known to be one of a few is split by that character
  hoist   a test of the character at p stands above the rule call, repetition or condition at p
  absorb  "if the first character starts an item then repeat items, else go on" = repeat items
"""
import sys

import engine
from charset import UNIVERSE, CharSet
from terms import Cat, piece, T, After, NIL, Text, append, UNIT
from engine import kids, mk_sw, mk_call, mk_lit, mk_cond, TREE

SPLIT_MAX = 80


ALL = ("all",)


def roots(t):
    """the places from which positions in t are counted"""
    r = t._roots
    if r is None:
        if t.op == "P0":
            r = frozenset((t,))
        else:
            r = frozenset()
            for x in kids(t):
                y = roots(x)
                if not y <= r:
                    r = r | y
        t._roots = r
    return r


def known_chars(n):
    """a test for characters in a text of which the length is known by now"""
    t = n.a[0]
    if t.op != "App" or t.a[0] != "any-of-text" or t.a[1].op != "Text":
        return n
    p, q = t.a[1].a
    ps = []
    while q is not p and q.op == "Next" and len(ps) < 32:
        q = q.a[0]
        ps.append(q)
    d = dict(n.a[1])
    if q is not p or 0 not in d or 1 not in d:
        return n
    r = d[0]
    for x in ps:
        r = engine.mk_sw(x, [(t.a[2].a[0], d[1]), (UNIVERSE - t.a[2].a[0], r)])
    return r


class Canon:
    def __init__(self, e):
        self.e = e
        self.memo = {}
        self.recs = {}

    # ------------------------------------------------------------ rebuilding
    def build(self, t, a):
        op = t.op
        if op == "Sw":
            return mk_sw(a[0], list(a[1]))
        if op == "Call":
            return mk_call(*a)
        if op == "Lit":
            return mk_lit(*a)
        if op == "Cond":
            return mk_cond(*a)
        if op == "Star":
            return engine.mk_star(*a)
        if op == "Text":
            return Text(*a)
        if op == "Cat":
            return Cat(*a)
        if op == "Chr1":
            return piece(a[0])
        if op == "App2":
            return append(*a)
        if op == "Not":
            return engine.notv(a[0])
        return T(op, *a)

    def mapargs(self, t, f):
        ch = False
        na = []
        for x in t.a:
            if isinstance(x, T):
                y = f(x)
            elif isinstance(x, tuple):
                y = tuple((c[0], f(c[1])) if isinstance(c, tuple) and len(c) == 2 and isinstance(c[1], T) else
                          (f(c) if isinstance(c, T) else c) for c in x)
                if y == x:
                    y = x
            else:
                y = x
            if y is not x:
                ch = True
            na.append(y)
        return self.build(t, na) if ch else t

    def subst(self, t, m, cache):
        keys = cache.get(None)
        if keys is None:
            keys = set()
            for x in m:
                r = roots(x)
                if not r:
                    keys = ALL
                    break
                keys |= r
            cache[None] = keys
        return self.subst1(t, m, cache, keys)

    def subst1(self, t, m, cache, keys):
        if t in m:
            return m[t]
        if keys is not ALL and keys.isdisjoint(roots(t)):
            return t
        r = cache.get(t)
        if r is None:
            r = self.mapargs(t, lambda x: self.subst1(x, m, cache, keys))
            if r.op == "Cond":
                r = known_chars(r)
            cache[t] = r
        return r

    # ------------------------------------------------------------ canonical form
    def canon(self, t):
        if t is None:
            return None
        r = self.memo.get(t)
        if r is None:
            r = t
            if t.op == "Body":
                s = self.split(t.a[1], {}, {})
                r = T("Body", t.a[0], s)
            r = self.mapargs(r, self.canon)
            r = self.node(r)
            self.memo[t] = r
        return r

    def top(self, t):
        return self.canon(self.split(t, {}, {}))

    def node(self, n):
        for _ in range(8):
            m = n
            if n.op in ("Call", "Star"):
                n = self.hoist(n, n.a[1])
            elif n.op == "Cond":
                p = self.condpos(n.a[0])
                if p is not None:
                    n = self.hoist(n, p)
            if n.op == "Sw":
                n = self.absorb(n)
            if n is m:
                break
        return n

    def condpos(self, term):
        if term.op == "Moved":
            return term.a[0]
        return None

    # tests of the character at p inside n (not inside bodies)
    def tests(self, n, p, acc, seen):
        if n is None or n in seen:
            return
        seen.add(n)
        if n.op == "Sw":
            if n.a[0] is p:
                acc.extend(s for s, _ in n.a[1])
            for _, x in n.a[1]:
                self.tests(x, p, acc, seen)
        elif n.op == "Cond":
            for _, x in n.a[1]:
                self.tests(x, p, acc, seen)
        elif n.op in ("Call", "Star"):
            for x in n.a[2:]:
                self.tests(x, p, acc, seen)
        elif n.op == "Lit":
            for x in n.a[3:]:
                self.tests(x, p, acc, seen)

    def restrict(self, n, p, cs, cache):
        """n when the character at p is in cs; None: cannot happen"""
        if n is None:
            return None
        if n in cache:
            return cache[n]
        f = lambda x: self.restrict(x, p, cs, cache) if x is not None else None
        if n.op == "Sw":
            cases = []
            for s, x in n.a[1]:
                if n.a[0] is p:
                    s = s & cs
                    if not s:
                        continue
                y = f(x)
                if y is not None:
                    cases.append((s, y))
            r = None
            if cases:
                if n.a[0] is p and len(cases) == 1:
                    r = cases[0][1]
                else:
                    r = mk_sw(n.a[0], cases)
        elif n.op == "Cond":
            cs2 = [(l, f(x)) for l, x in n.a[1]]
            if any(y is None for _, y in cs2):
                cs2 = [(l, y if y is not None else x) for (l, y), (_, x) in zip(cs2, n.a[1])]
            r = mk_cond(n.a[0], tuple(cs2))
        elif n.op in ("Call", "Star", "Lit"):
            k = 3 if n.op == "Lit" else 2
            xs = []
            for x in n.a[k:]:
                y = f(x)
                xs.append(y if y is not None else x)
            r = self.build(n, list(n.a[:k]) + xs)
        else:
            r = n
        cache[n] = r
        return r

    def hoist(self, n, p):
        acc = []
        self.tests(n, p, acc, set())
        if not acc:
            return n
        parts = []
        rest = UNIVERSE
        classes = []
        for s in acc:
            new = []
            for c in classes:
                i = c & s
                d = c - s
                if i:
                    new.append(i)
                if d:
                    new.append(d)
            s2 = s
            for c in classes:
                s2 = s2 - c
            if s2:
                new.append(s2)
            classes = new
        for c in classes:
            r = self.restrict(n, p, c, {})
            if r is not None:
                parts.append((c, r))
        if not parts:
            return n
        return mk_sw(p, parts)

    # ------------------------------------------------------------ empty repetition
    def rec(self, vb):
        r = self.recs.get(vb)
        if r is None:
            t = engine.map_leaves(vb.a[1], lambda n: T("Ok", n.a[0], UNIT) if n.op == "Ok" else n)
            r = self.canon(T("Body", vb.a[0], t))
            self.recs[vb] = r
        return r

    def lists_at(self, t, p, body, m, seen):
        if not isinstance(t, T) or t in seen:
            return
        seen.add(t)
        if t.op == "L" and t.a[1] is p and self.rec(t.a[0]) is body:
            m[t] = NIL
        for x in engine.kids(t):
            self.lists_at(x, p, body, m, seen)

    def absorb(self, n):
        p = n.a[0]
        for cs, x in n.a[1]:
            if x.op != "Star" or x.a[1] is not p or x.a[3] is not None or x.a[4] is not None:
                continue
            body = x.a[0]
            first, sure = self.e.body_sets(body)
            if first is not sure or not (cs <= first):
                continue
            nxt = x.a[2]
            p2 = After(p, body)
            m = {p2: p}
            self.lists_at(nxt, p, body, m, set())
            alt = self.subst(nxt, m, {})
            good = True
            for s, y in n.a[1]:
                if y is x:
                    continue
                z = self.restrict(alt, p, s, {})
                if z is None or self.canon(z) is not y:
                    good = False
                    break
            if good:
                return x
        return n

    # ------------------------------------------------------------ known characters in leaves
    def chars(self, t, acc, seen):
        if not isinstance(t, T) or t in seen:
            return
        seen.add(t)
        if t.op == "C":
            acc.add(t.a[0])
        if t.op == "Body":
            return
        for x in engine.kids(t):
            self.chars(x, acc, seen)

    def split(self, n, K, cache):
        if not self.mentions_c(n):
            return n
        key = (n, tuple(sorted(((p.id, s) for p, s in K.items()), key=lambda z: z[0])))
        if key in cache:
            return cache[key]
        r = n
        if n.op == "Sw":
            p = n.a[0]
            r = mk_sw(p, [(s, self.split(x, dict(K, **{}) | {p: s}, cache)) for s, x in n.a[1]])
        elif n.op == "Cond":
            r = mk_cond(n.a[0], tuple((l, self.split(x, K, cache)) for l, x in n.a[1]))
        elif n.op in ("Call", "Star"):
            r = self.build(n, list(n.a[:2]) + [self.split(x, K, cache) if x is not None else None for x in n.a[2:]])
        elif n.op == "Lit":
            r = self.build(n, list(n.a[:3]) + [self.split(x, K, cache) for x in n.a[3:]])
        elif n.op == "Ok":
            acc = set()
            self.chars(n, acc, set())
            r = self.split_leaf(n, sorted(acc, key=lambda p: p.id), K)
        cache[key] = r
        return r

    def split_leaf(self, n, ps, K):
        if not ps:
            return n
        p = ps[0]
        s = K.get(p)
        if s is None or s.size() > SPLIT_MAX:
            return self.split_leaf(n, ps[1:], K)
        cases = []
        for lo, hi in s.iv:
            for c in range(lo, hi):
                y = self.subst(n, {T("C", p): T("Int", c)}, {})
                cases.append((CharSet(((c, c + 1),)), self.split_leaf(y, ps[1:], K)))
        return mk_sw(p, cases)

    def mentions_c(self, t):
        c = self.__dict__.setdefault("_mc", {})
        r = c.get(t)
        if r is None:
            c[t] = False
            r = t.op == "C" or any(self.mentions_c(x) for x in engine.kids(t))
            c[t] = r
        return r
