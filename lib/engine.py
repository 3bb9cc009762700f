"""Abstract interpretation of the parser program.

Parser-building code (MIR of /repo, or the reference grammar) is evaluated over
abstract values.  The input is a symbolic string; a position in it is a term.
The result for one grammar rule is a canonical decision tree: which class the
next character belongs to, which sub-rule is tried where, which repetition runs,
and - at the leaves - the end position and the term that builds the tree value.
Nothing of /repo is executed.
"""
import functools
import json
import os
import sys
import time

from charset import (CharSet, UNIVERSE, CHARS, EMPTY, EOFSET, EOF, ASCII)
from terms import *
from terms import T

sys.setrecursionlimit(200000)


class Unsupported(Exception):
    pass


class TooBig(Exception):
    pass


class FirstRound(Exception):
    """a loop does something else in its first round"""


# ---------------------------------------------------------------- state

class St:
    __slots__ = ("store", "K", "memo", "cond")

    def __init__(self, store=None, K=None, memo=None, cond=None):
        self.store = store if store is not None else {}
        self.K = K if K is not None else {}
        self.memo = memo if memo is not None else {}
        self.cond = cond if cond is not None else {}

    def clone(self):
        return St(dict(self.store), dict(self.K), dict(self.memo), dict(self.cond))

    def k(self, pos):
        return self.K.get(pos, UNIVERSE)


# ---------------------------------------------------------------- nodes

ERR = T("Err")
FAIL = T("Fail")
ABORT = T("Abort")


def unk(reason):
    return T("Unk", reason)


def panic(reason):
    return T("Panic", reason)


DEAD = T("Dead")        # no input gets here

LEAF = ("Ok", "Err", "Fail", "Abort", "Unk", "Panic", "Same", "Diff", "Ret", "Dead")


def guards(n, pos, cs, e, depth=0):
    """does n end in e whenever the character at pos is outside cs, whatever else holds?"""
    if n is e:
        return True
    if depth > 12:
        return False
    if n.op == "Lit":
        q = n.a[2]
        if q is pos:
            return False
        for s in lit_sets(n.a[0], n.a[1]):
            if q is pos:
                return s <= cs and guards(n.a[4], pos, cs, e, depth + 1)
            q = Next(q)
        return guards(n.a[3], pos, cs, e, depth + 1) and guards(n.a[4], pos, cs, e, depth + 1)
    if n.op == "Sw" and n.a[0] is not pos:
        return all(guards(x, pos, cs, e, depth + 1) for _, x in n.a[1])
    return False


def mk_sw(pos, cases):
    """cases: [(CharSet, node)] with disjoint sets."""
    acc = {}
    order = []
    for s, n in cases:
        if not s or n is DEAD:
            continue
        if n.op == "Sw" and n.a[0] is pos:
            sub = [(s & s2, n2) for s2, n2 in n.a[1]]
        else:
            sub = [(s, n)]
        for s2, n2 in sub:
            if not s2:
                continue
            if n2 in acc:
                acc[n2] = acc[n2] | s2
            else:
                acc[n2] = s2
                order.append(n2)
    if not order:
        return DEAD
    if len(order) == 1:
        return order[0]
    if len(order) == 2:
        for x, e in (order, order[::-1]):
            if x.op in ("Lit", "Sw") and guards(x, pos, acc[x], e):
                return x
    cs = tuple(sorted(((acc[n], n) for n in order), key=lambda x: x[0].iv))
    return T("Sw", pos, cs)


def mk_call(name, pos, ok, err, fail):
    if err is DEAD:
        err = None
    if fail is DEAD:
        fail = None
    if ok is DEAD:
        rest = {x for x in (err, fail) if x is not None}
        if not rest:
            return DEAD
        if len(rest) == 1:
            return rest.pop()
    if ok is err and (fail is None or fail is ok):
        return ok
    return T("Call", name, pos, ok, err, fail)


def mk_lit(s, nocase, pos, ok, err):
    if ok is err or err is DEAD:
        return ok
    if ok is DEAD:
        return err
    # literals at one position that exclude each other commute
    if err.op == "Lit" and err.a[2] is pos:
        s2, nc2 = err.a[0], err.a[1]
        if lit_disjoint(s, nocase, s2, nc2) and (s2, nc2) < (s, nocase):
            return mk_lit(s2, nc2, pos, err.a[3], mk_lit(s, nocase, pos, ok, err.a[4]))
    return T("Lit", s, nocase, pos, ok, err)


@functools.lru_cache(maxsize=None)
def ci(c):
    o = {c}
    if c.isascii():
        o |= {c.lower(), c.upper()}
    return CharSet.of(*sorted(o))


@functools.lru_cache(maxsize=None)
def lit_sets(s, nocase):
    return [ci(c) if nocase else CharSet.of(c) for c in s]


def lit_disjoint(a, na, b, nb):
    for x, y in zip(lit_sets(a, na), lit_sets(b, nb)):
        if not (x & y):
            return True
    return False


def mk_cond(term, cases):
    """cases: tuple of (label, node)"""
    ns = {n for _, n in cases if n is not DEAD}
    if not ns:
        return DEAD
    if len(ns) == 1:
        return next(iter(ns))
    return T("Cond", term, tuple(sorted(cases, key=lambda c: str(c[0]))))


def holds_ref(t):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "RefMut":
            return True
        st.extend(kids(x))
    return False


def word_test(b):
    """does the function itself look at the first bytes of a text?"""
    r = b.get("word_test")
    if r is None:
        r = b["word_test"] = any(
            bl["t"][0] == "call" and not bl.get("cleanup") and "eq_ignore_ascii_case" in json.dumps(bl["t"])
            for bl in b["blocks"])
    return r


def errs(x, y):
    """both the same failure"""
    if x is y:
        return True
    if x.op == y.op == "Val":
        e = [z.a[0] for z in (x, y)]
        return all(v.op == "Adt" and v.a[0] == RESULT and v.a[1] == 1 and v.a[2].op == "Adt" and v.a[2].a[:2] == (NOMERR, 1)
                   for v in e)
    return False


def one_word(t):
    """tests that a word being there makes come out one way, where failing them is the same as the word not being there"""
    if t.op == "Sw":
        cases = [(cs, one_word(x)) for cs, x in t.a[1]]
        for cs, x in cases:
            if x.op == "Lit" and all(y is x or errs(y, x.a[4]) for _, y in cases):
                p = x.a[2]
                for s in lit_sets(x.a[0], x.a[1]):
                    if p is t.a[0] and s <= cs:
                        return x
                    p = Next(p)
        return mk_sw(t.a[0], cases)
    if t.op == "Cond":
        cases = tuple((l, one_word(x)) for l, x in t.a[1])
        c = t.a[0]
        if c.op == "App" and c.a[0] in ("len-Ge", "is_char_boundary") and c.a[1].op == "Rest":
            for l, x in cases:
                if l == 1 and x.op == "Lit" and x.a[2] is c.a[1].a[0] and x.a[0].isascii() and len(x.a[0]) >= c.a[2].a[0] \
                        and all(y is x or errs(y, x.a[4]) for _, y in cases):
                    return x
        return mk_cond(c, cases)
    if t.op == "Lit":
        return mk_lit(t.a[0], t.a[1], t.a[2], one_word(t.a[3]), one_word(t.a[4]))
    return t


_ment = {}


def mentions(node, pos):
    k = (node, pos)
    r = _ment.get(k)
    if r is None:
        _ment[k] = False
        r = node is pos or any(mentions(x, pos) for x in kids(node))
        _ment[k] = r
    return r


def kids(node):
    for x in node.a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, T):
                    yield y
                elif isinstance(y, tuple):
                    for z in y:
                        if isinstance(z, T):
                            yield z


@functools.lru_cache(maxsize=None)
def rules_in(t):
    out = set()
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op in ("Call", "NT"):
            out.add(x.a[0])
        st.extend(kids(x))
    return frozenset(out)


def mk_star(body, pos, nxt, abort, fail):
    p2 = After(pos, body)
    if abort is DEAD:
        abort = None
    if fail is DEAD:
        fail = None
    if nxt is DEAD:
        rest = {x for x in (abort, fail) if x is not None}
        if not rest:
            return DEAD
        if len(rest) == 1:
            return rest.pop()
    if abort is None and fail is None and not mentions(nxt, p2):
        return nxt
    return T("Star", body, pos, nxt, abort, fail)


def map_leaves(n, f, cache=None):
    cache = {} if cache is None else cache
    if n in cache:
        return cache[n]
    g = lambda x: map_leaves(x, f, cache) if x is not None else None
    if n.op == "Sw":
        r = mk_sw(n.a[0], [(s, g(x)) for s, x in n.a[1]])
    elif n.op == "Call":
        r = mk_call(n.a[0], n.a[1], g(n.a[2]), g(n.a[3]), g(n.a[4]))
    elif n.op == "Lit":
        r = mk_lit(n.a[0], n.a[1], n.a[2], g(n.a[3]), g(n.a[4]))
    elif n.op == "Star":
        r = mk_star(n.a[0], n.a[1], g(n.a[2]), g(n.a[3]), g(n.a[4]))
    elif n.op == "Cond":
        r = mk_cond(n.a[0], tuple((l, g(x)) for l, x in n.a[1]))
    else:
        r = f(n)
    cache[n] = r
    return r


def leaves(n, seen=None):
    seen = set() if seen is None else seen
    if n is None or n in seen:
        return
    seen.add(n)
    if n.op in ("Sw", "Cond"):
        for _, x in n.a[1]:
            yield from leaves(x, seen)
    elif n.op in ("Call", "Lit", "Star"):
        for x in n.a[2:]:
            if isinstance(x, T) and x.op in TREE:
                yield from leaves(x, seen)
    else:
        yield n


TREE = {"Sw", "Call", "Lit", "Star", "Cond", "Ok", "Err", "Fail", "Abort", "Unk", "Panic", "Same", "Diff", "Ret", "Back", "Exit",
        "Dead"}


CUTS = {"trim", "trim_end", "trim_matches", "trim_end_matches", "trim_right", "trim_right_matches",
        "to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase", "replace", "replacen", "repeat",
        "strip_suffix"}


CASES = {"to_uppercase": str.upper, "to_lowercase": str.lower,
         "to_ascii_uppercase": lambda c: c.upper() if c.isascii() else c,
         "to_ascii_lowercase": lambda c: c.lower() if c.isascii() else c}
_pre = {}


def uncased(how, to):
    """the characters that become the character `to`"""
    m = _pre.get(how)
    if m is None:
        m = _pre[how] = {}
        f = CASES[how]
        for i in range(0x20000):
            if not 0xD800 <= i < 0xE000:
                m.setdefault(f(chr(i)), []).append(i)
    if ord(to) >= 0x20000:
        return CharSet.of(to)
    return CharSet.of(*m.get(to, ()))


def cut_text(v):
    """the input with something done to it that does not leave a suffix of it"""
    while v.op == "App" and v.a[1:]:
        x = v.a[1] if isinstance(v.a[1], T) else None
        if x is None:
            return False
        if v.a[0].split("::")[-1] in CUTS and x.op in ("Rest", "Text", "App"):
            while x.op == "App" and len(x.a) > 1 and isinstance(x.a[1], T):
                x = x.a[1]
            return x.op in ("Rest", "Text")
        v = x
    return False


# ---------------------------------------------------------------- program

_homes = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "homes.txt")
HOMES = dict(l.split() for l in open(_homes)) if os.path.exists(_homes) else {}


class Program:
    def __init__(self, dump):
        self.d = dump
        self.crate = dump["crate"]
        self.bodies = {b["path"]: b for b in dump["bodies"]}
        self.adts = {a["path"]: a for a in dump["adts"]}
        self.short = {}
        for p in self.adts:
            self.short.setdefault(p.split("::")[-1], []).append(p)
        self.fns = {}
        for b in dump["bodies"]:
            if b["kind"] == "Fn":
                self.fns.setdefault(b["name"], []).append(b["path"])
        self.impls = dump["impls"]

    def is_rule(self, b):
        """fn(&str) -> IResult<&str, T>"""
        if b["kind"] != "Fn" or len(b["inputs"]) != 1:
            return False
        i = b["inputs"][0]
        if not (i["k"] == "ref" and i["t"] == {"k": "prim", "name": "str"}):
            return False
        o = b["output"]
        if not (o["k"] == "adt" and o["path"] == RESULT):
            return False
        e = o["args"][1]
        return e["k"] == "adt" and e["path"] == NOMERR

    def rule_types(self):
        """rule -> type of the value it builds"""
        if not hasattr(self, "_rt"):
            self._rt = {}
            for n, b in self.rule_bodies().items():
                t = b["output"]["args"][0]
                if t["k"] == "tuple" and len(t.get("args", t.get("ts", ()))) == 2:
                    self._rt[n] = t.get("args", t.get("ts"))[1]
        return self._rt

    def rule_bodies(self):
        """name -> rule; of several with one name, the one where the reference grammar has it"""
        if not hasattr(self, "_rb"):
            self._rb = {}
            for b in self.d["bodies"]:
                if self.is_rule(b):
                    o = self._rb.get(b["name"])
                    if o is None or HOMES.get(b["name"]) == b["path"]:
                        self._rb[b["name"]] = b
        return self._rb

    def rule_named(self, b):
        return b["kind"] == "Fn" and self.is_rule(b) and self.rule_bodies()[b["name"]] is b


class NtInfo:
    def __init__(self):
        self.first = EMPTY
        self.nullable = False
        self.total = False
        self.canfail = False
        self.post = EMPTY

    def key(self):
        return (self.first, self.nullable, self.total, self.canfail, self.post)


STEP_LIMIT = 2500000
START = time.time()


class Engine:
    def __init__(self, prog, nts=None, transparent=None):
        self.prog = prog
        self.nts = nts if nts is not None else {}       # name -> NtInfo (opaque rules)
        self.transparent = transparent or {}           # name -> parser value used instead
        self.expand = {}      # name -> parser value used instead, one level deep
        self.own = set()      # names of rules analysed in place
        self.depth = 0
        self.frame = 0
        self.steps = 0
        self.limit = STEP_LIMIT
        self.rule = None
        self.events = {}      # (kind, where, detail) -> count
        self.inline_stack = []
        self.star_cache = {}
        self.stars_at = {}
        self.peels = {}
        self.base = {}              # start of a round of a loop -> where the loop starts
        self.looped = set()         # bodies with a loop that was summarised
        self.loop_bodies = set()    # bodies of the repetitions those loops are
        self.cal = {}         # callee json -> id
        self.callees = []
        self.jcache = {}
        self.jkeep = []
        self.pyfns = []
        self.loops = {}
        self.touched = set()
        self.used = set()     # bodies run for the current rule
        self.implied_err = {}   # name -> set of names whose failure implies name's failure
        self.implied_ok = {}
        self.span = None
        self.visited = {}     # body -> blocks run
        self.deep = False     # use what the rounds of repetitions tell
        self.canon = None     # normal form for the bodies of repetitions

    # ------------------------------------------------------------ events
    def event(self, kind, where, detail=""):
        k = (kind, self.rule, where, detail)
        self.events[k] = self.events.get(k, 0) + 1

    def tick(self):
        self.steps += 1
        if self.steps & 255 == 0 and self.limit > 500:
            spent = time.time() - START
            if spent > 90:
                self.limit = min(self.limit, 100000 if spent < 120 else 10000 if spent < 180 else 500)
        if self.steps > self.limit:
            raise TooBig("more than %d steps in rule %s" % (self.limit, self.rule))

    # ------------------------------------------------------------ forks
    def up(self, st, pos):
        """what the end of a repetition at pos tells about the character at pos"""
        K = st.k(pos)
        for rb in self.stars_at.get(pos, ()):
            if st.memo.get((("star", rb), pos)) == "ok":
                first = self.body_sets(rb)[0]
                if not (K <= first):
                    K = K & (first | self.up(st, After(pos, rb)))
        return K

    def know(self, st, pos):
        """the characters that can stand at pos"""
        K = self.up(st, pos)
        p = pos
        while p.op == "After" and p.a[1].op == "Body":
            q = p.a[0]
            k = self.up(st, q)
            first, sure = self.body_sets(p.a[1])
            if k & first:
                if self.deep:
                    K = K & (self.know(st, q) - sure | self.body_ends(p.a[1]))
                break
            K = K & k
            p = q
        return K

    def body_ends(self, body):
        """the characters that can stand where a round of a repetition ends"""
        c = self.__dict__.setdefault("_be", {})
        r = c.get(body)
        if r is None:
            c[body] = UNIVERSE
            n = 0
            r = EMPTY
            todo = [(body.a[1], St())]
            while todo:
                t, st = todo.pop()
                n += 1
                if t is None:
                    continue
                if n > 2000:
                    r = UNIVERSE
                    break
                if t.op == "Ok":
                    r = r | self.know(st, t.a[0])
                elif t.op in ("Sw", "Cond"):
                    for l, x in t.a[1]:
                        s2 = st.clone()
                        if t.op == "Sw":
                            s2.K[t.a[0]] = l & st.k(t.a[0])
                            if not s2.K[t.a[0]]:
                                continue
                        todo.append((x, s2))
                elif t.op == "Lit":
                    todo.append((t.a[3], st.clone()))
                    todo.append((t.a[4], st))
                elif t.op in ("Call", "Star"):
                    s2 = st.clone()
                    if t.op == "Star":
                        p2 = After(t.a[1], t.a[0])
                        s2.K[p2] = s2.k(p2) - self.body_sets(t.a[0])[1]
                    else:
                        p2 = After(t.a[1], T("NT", t.a[0]))
                        s2.K[p2] = s2.k(p2) & self.nts[t.a[0]].post
                    todo.append((t.a[2], s2))
                    todo.append((t.a[3], st.clone()))
                    todo.append((t.a[4], st))
                elif t.op in ("Unk", "Panic"):
                    r = UNIVERSE
                    break
            c[body] = r
        return r

    def test(self, st, pos, cs, yes, no):
        K = self.know(st, pos)
        if not K:
            return DEAD
        i = K & cs
        if not i:
            return no(st)
        d = K - cs
        if not d:
            return yes(st)
        self.tick()
        st2 = st.clone()
        st.K[pos] = i
        n1 = yes(st)
        st2.K[pos] = d
        n2 = no(st2)
        return mk_sw(pos, [(i, n1), (d, n2)])

    def lit(self, st, s, nocase, pos, ok, err):
        if s == "":
            return ok(pos, Str(""), st)
        if nocase:
            s = s.lower() if s.isascii() else s
            nocase = s.isascii() and s.lower() != s.upper()
        sets = lit_sets(s, nocase)
        if len(s) == 1:
            q = Next(pos)
            return self.test(st, pos, sets[0], lambda st: ok(q, Text(pos, q), st), err)
        p = pos
        known = True
        ps = []
        for cs in sets:
            K = self.know(st, p)
            if not (K & cs):
                return err(st)
            if not (K <= cs):
                known = False
            ps.append(p)
            p = Next(p)
        end = p
        if known:
            return ok(end, Text(pos, end), st)
        # earlier failed literals at this position that are prefixes of this one
        for (k, q), v in st.memo.items():
            if q is pos and v == "err" and isinstance(k, tuple) and k[0] == "lit":
                s0, nc0 = k[1], k[2]
                z = list(zip(lit_sets(s0, nc0), sets))
                if len(s0) <= len(s) and all(b <= a for a, b in z):
                    return err(st)

        def second(st):
            self.tick()
            st2 = st.clone()
            for p, cs in zip(ps, sets):
                st.K[p] = self.know(st, p) & cs
            n1 = ok(end, Text(pos, end), st)
            st2.memo[(("lit", s, nocase), pos)] = "err"
            n2 = err(st2)
            return mk_lit(s, nocase, pos, n1, n2)

        return self.test(st, pos, sets[0], second, err)

    def call_nt(self, name, pos, st, ok, err, fail):
        info = self.nts[name]
        self.touched.add(name)
        key = (("nt", name), pos)
        m = st.memo.get(key)
        p2 = After(pos, T("NT", name))
        val = T("V", name, pos)
        if m == "ok":
            self.event("retry-ok", name)
            return ok(p2, val, st)
        if m == "err":
            self.event("retry-err", name)
            return err(st)
        if m == "fail":
            return fail(st)
        if not info.nullable and not (self.know(st, pos) & info.first):
            return err(st)
        for other in self.implied_err.get(name, ()):
            if st.memo.get((("nt", other), pos)) == "err":
                return err(st)

        def go(st):
            self.tick()
            sts = [st, st.clone(), st.clone()]
            sts[0].memo[key] = "ok"
            sts[0].K[p2] = sts[0].k(p2) & info.post
            n1 = ok(p2, val, sts[0])
            n2 = None
            if not info.total:
                sts[1].memo[key] = "err"
                n2 = err(sts[1])
            n3 = None
            if info.canfail:
                sts[2].memo[key] = "fail"
                n3 = fail(sts[2])
            if n2 is None and n3 is None:
                n2 = None
            return T("Call", name, pos, n1, n2, n3) if n2 is None else mk_call(name, pos, n1, n2, n3)

        if info.nullable:
            return go(st)
        return self.test(st, pos, info.first, go, err)

    def back(self, tag, f):
        def g(*x):
            saved = self.inline_stack
            self.inline_stack = [y for y in saved if y != tag]
            try:
                return f(*x)
            finally:
                self.inline_stack = saved
        return g

    def guarded(self, tag, go, k):
        saved = self.inline_stack
        self.inline_stack = saved + [tag]
        try:
            return go(self.back(tag, k))
        finally:
            self.inline_stack = saved

    def expand_run(self, name, val, pos, st, ok, err, fail):
        """run val in place of rule name; inside it the rule is opaque again"""
        self.touched.add(name)
        tag = "x:" + name
        saved = self.inline_stack
        self.inline_stack = saved + [tag]
        try:
            return self.run(val, pos, st, self.back(tag, ok), self.back(tag, err), self.back(tag, fail))
        finally:
            self.inline_stack = saved

    def cond(self, st, term, labels, f):
        """Fork on an opaque condition; f(label, st)."""
        v = st.cond.get(term)
        if v is not None and v in labels:
            return f(v, st)
        if v is not None and "*" in labels:
            return f("*", st)
        self.tick()
        cases = []
        for i, l in enumerate(labels):
            s2 = st.clone() if i + 1 < len(labels) else st
            s2.cond[term] = l
            cases.append((l, f(l, s2)))
        return mk_cond(term, tuple(cases))

    # ------------------------------------------------------------ emptiness
    def if_moved(self, st, p, q, yes, no):
        segs = []
        x = q
        while x is not p:
            if x.op == "Next":
                return yes(st)
            if x.op == "After":
                key = x.a[1]
                prev = x.a[0]
                if key.op == "NT":
                    if not self.nts[key.a[0]].nullable:
                        return yes(st)
                    segs.append((prev, key))
                else:
                    segs.append((prev, key))
                x = prev
            elif x in self.base:
                x = self.base[x]
                if x is p:
                    raise FirstRound
            elif x.op == "P0":
                return no(st)      # not comparable: treated as unmoved
            else:
                return no(st)

        def step(i, st):
            if i == len(segs):
                return no(st)
            prev, key = segs[i]
            if key.op == "NT":
                return self.cond(st, T("Moved", prev, key), [0, 1],
                                 lambda l, s: yes(s) if l else step(i + 1, s))
            first, sure = self.body_sets(key)
            if first is sure:
                return self.test(st, prev, first, yes, lambda s: step(i + 1, s))
            return self.cond(st, T("Moved", prev, key), [0, 1],
                             lambda l, s: yes(s) if l else step(i + 1, s))
        return step(0, st)

    # ------------------------------------------------------------ sets of a closed tree
    def first_of(self, n, roots, cache=None):
        """characters at the root position for which n may end in an Ok leaf"""
        cache = {} if cache is None else cache
        k = (n, roots)
        if k in cache:
            return cache[k]
        cache[k] = EMPTY
        f = lambda x, r=roots: self.first_of(x, r, cache) if x is not None else EMPTY
        if n.op == "Sw":
            if n.a[0] in roots:
                r = EMPTY
                for s, x in n.a[1]:
                    r = r | (s & f(x))
            else:
                r = EMPTY
                for s, x in n.a[1]:
                    r = r | f(x)
        elif n.op == "Call":
            name, pos, ok, err, fail = n.a
            if pos in roots:
                info = self.nts[name]
                if info.nullable:
                    r = f(ok, roots | {After(pos, T("NT", name))})
                    r = r | (info.first & self.has_ok(ok))
                else:
                    r = info.first & self.has_ok(ok)
                r = r | f(err) | f(fail)
            else:
                r = f(ok) | f(err) | f(fail)
        elif n.op == "Lit":
            s, nc, pos, ok, err = n.a
            if pos in roots:
                r = (lit_sets(s, nc)[0] & f(ok)) | f(err)
            else:
                r = f(ok) | f(err)
        elif n.op == "Star":
            body, pos, nxt, ab, fl = n.a
            if pos in roots:
                r = f(nxt, roots | {After(pos, body)})
                r = r | (self.body_sets(body)[0] & self.has_ok(nxt))
            else:
                r = f(nxt)
            r = r | f(ab) | f(fl)
        elif n.op == "Cond":
            r = EMPTY
            for _, x in n.a[1]:
                r = r | f(x)
        elif n.op in ("Ok", "Fail", "Unk", "Abort", "Panic"):
            r = UNIVERSE
        else:
            r = EMPTY
        cache[k] = r
        return r

    def has_ok(self, n):
        if n is None:
            return EMPTY
        return UNIVERSE if any(l.op in ("Ok", "Fail", "Unk", "Abort", "Panic") for l in leaves(n)) else EMPTY

    def sure_of(self, n, roots):
        """characters at the root position for which n surely ends in an Ok leaf"""
        if n is None:
            return UNIVERSE
        if n.op == "Sw":
            if n.a[0] in roots:
                r = EMPTY
                for s, x in n.a[1]:
                    r = r | (s & self.sure_of(x, roots))
                return r
            r = UNIVERSE
            for s, x in n.a[1]:
                r = r & self.sure_of(x, roots)
            return r
        if n.op == "Call":
            r = self.sure_of(n.a[2], roots)
            for x in n.a[3:]:
                r = r & self.sure_of(x, roots)
            return r
        if n.op == "Lit":
            return self.sure_of(n.a[3], roots) & self.sure_of(n.a[4], roots)
        if n.op == "Star":
            r = self.sure_of(n.a[2], roots)
            for x in n.a[3:]:
                r = r & self.sure_of(x, roots)
            return r
        if n.op == "Cond":
            r = UNIVERSE
            for _, x in n.a[1]:
                r = r & self.sure_of(x, roots)
            return r
        return UNIVERSE if n.op in ("Ok", "Dead") else EMPTY

    def root_of(self, n):
        m = None
        seen = set()

        def w(x):
            nonlocal m
            if x in seen:
                return
            seen.add(x)
            if x.op == "P0":
                if m is None or x.a[0] > m.a[0]:
                    m = x
                return
            if x.op == "Star":
                for y in x.a[1:]:
                    if isinstance(y, T):
                        w(y)
                return
            if x.op == "L":
                w(x.a[1])
                return
            if x.op == "After":
                w(x.a[0])
                return
            for y in kids(x):
                w(y)
        w(n)
        return m

    def body_sets(self, body):
        c = self.__dict__.setdefault("_bs", {})
        r = c.get(body)
        if r is None:
            c[body] = (EMPTY, EMPTY)
            root = body.a[0]
            tree = body.a[1]
            fs = self.first_of(tree, frozenset([root]))
            ss = self.sure_of(tree, frozenset([root]))
            r = (fs, ss & fs)
            c[body] = r
        return r

    # ------------------------------------------------------------ repetition
    def body_tree(self, p, st):
        """(value body, recognition body) of a repeated parser"""
        depth = self.depth + 1
        ck = (p, depth, frozenset(x for x in self.inline_stack if x.startswith("x:")) if self.expand or self.own else None)
        if ck in self.star_cache and self.star_cache[ck][2] == self.rule:
            return self.star_cache[ck][:2]
        root = P0(depth)
        self.depth = depth
        try:
            s0 = St(dict(st.store), {}, {}, dict(st.cond))
            null = []

            def ok(pos, v, s):
                def no(s):
                    null.append(1)
                    return ABORT
                return self.if_moved(s, root, pos, lambda s: T("Ok", pos, v), no)
            tree = self.run(p, root, s0, ok, lambda s: ERR, lambda s: FAIL)
        finally:
            self.depth = depth - 1
        if null:
            self.event("nullable-repeat", self.site(p))
        if self.canon is not None:
            tree = self.canon.canon(T("Body", root, tree)).a[1]
        vb = T("Body", root, tree)
        rec = map_leaves(tree, lambda n: T("Ok", n.a[0], UNIT) if n.op == "Ok" else n)
        rb = T("Body", root, rec)
        if self.canon is not None:
            rb = self.canon.canon(rb)
        if not self.has_ref(p):
            self.star_cache[ck] = (vb, rb, self.rule)
        return vb, rb

    def has_ref(self, t):
        return t.op == "RefMut" or any(self.has_ref(x) for x in kids(t))

    def star(self, p, pos, st, ok, err, fail):
        vb, rb = self.body_tree(p, st)
        return self.star_body(vb, rb, pos, st, ok, err, fail)

    def star_body(self, vb, rb, pos, st, ok, err, fail):
        first, sure = self.body_sets(rb)
        kinds = {l.op for l in leaves(rb.a[1])}
        simple = "Abort" not in kinds and "Fail" not in kinds
        if simple and not (self.know(st, pos) & first):
            return ok(pos, NIL, st)
        p2 = After(pos, rb)
        self.stars_at.setdefault(pos, {})[rb] = 1
        mk = (("star", rb), pos)
        lst = T("L", vb, pos)
        m = st.memo.get(mk)
        if m is not None:
            self.event("retry-star", " ".join(sorted(rules_in(rb))))
            return {"ok": lambda: ok(p2, lst, st), "abort": lambda: err(st), "fail": lambda: fail(st)}[m]()
        self.tick()
        # known empty for characters outside first: decided lazily, only when needed
        sa = st.clone() if "Abort" in kinds else None
        sf = st.clone() if "Fail" in kinds else None
        st.memo[mk] = "ok"
        if sa is not None:
            sa.memo[mk] = "abort"
        if sf is not None:
            sf.memo[mk] = "fail"
        st.K[p2] = st.k(p2) - sure
        nxt = ok(p2, lst, st)
        ab = err(sa) if sa is not None else None
        fl = fail(sf) if sf is not None else None
        return mk_star(rb, pos, nxt, ab, fl)

    def lexical(self, vb):
        """do the list elements carry nothing but text?"""
        for l in leaves(vb.a[1]):
            if l.op == "Ok":
                v = l.a[1]
                if v.op not in ("C", "Text", "Str", "Tup") or (v.op == "Tup" and v.a):
                    if not (v.op == "Int"):
                        return False
        return True

    def many1(self, p, pos, st, ok, err, fail):
        vb, rb = self.body_tree(p, st)
        first, sure = self.body_sets(rb)
        kinds = {l.op for l in leaves(rb.a[1])}
        if first is sure and "Abort" not in kinds and "Fail" not in kinds and self.lexical(vb):
            return self.test(st, pos, first,
                             lambda s: self.star_body(vb, rb, pos, s, ok, err, fail), err)
        return self.run(p, pos, st,
                        lambda q, v, s: self.star_body(vb, rb, q, s,
                                                       lambda q2, l, s2: ok(q2, Cons(v, l), s2),
                                                       err, fail),
                        err, fail)

    # ------------------------------------------------------------ parsers
    def site(self, p):
        while isinstance(p, T):
            if p.op == "Nom" and p.a[-1]:
                return p.a[-1]
            if p.op == "Fn":
                return self.callees[p.a[1]]["path"] if p.a[1] is not None else p.a[0]
            if p.op == "Clo":
                return p.a[0]
            return p.op
        return "?"

    def run(self, p, pos, st, ok, err, fail):
        self.tick()
        if p.op == "Nom":
            h = NOM.get(p.a[0])
            if h is None:
                return unk("no model of parser " + p.a[0])
            return h(self, p, p.a[1], pos, st, ok, err, fail)

        def done(v, st):
            return self.dispatch(v, st, ok, err, fail)
        return self.apply(p, [Rest(pos)], st, done)

    def dispatch(self, v, st, ok, err, fail):
        if v.op == "Adt" and v.a[0] == RESULT:
            if v.a[1] == 0:
                t = v.a[2]
                if t.op == "Tup" and len(t.a) == 2:
                    r = t.a[0]
                    if r.op == "Rest":
                        return ok(r.a[0], t.a[1], st)
                    if cut_text(r):
                        return ok(T("Cut", r), t.a[1], st)
                    return unk("remainder is not a suffix of the input: " + show(r))
                return unk("opaque result tuple " + show(t))
            e = v.a[2]
            if e.op == "Adt" and e.a[0] == NOMERR:
                if e.a[1] == 1:
                    return err(st)
                if e.a[1] == 2:
                    return fail(st)
                self.event("incomplete", "Err::Incomplete")
                return fail(st)
            return unk("opaque error " + show(e))
        return unk("opaque parser result " + show(v))

    # ------------------------------------------------------------ functions
    def fnval(self, callee):
        j = self.jcache.get(id(callee))
        if j is None:
            j = self.jcache[id(callee)] = json.dumps(callee, sort_keys=True)
            self.jkeep.append(callee)
        i = self.cal.get(j)
        if i is None:
            i = len(self.callees)
            self.cal[j] = i
            self.callees.append(callee)
        return T("Fn", callee["path"], i)

    def pyfn(self, f, key=None):
        self.pyfns.append(f)
        return T("Py", len(self.pyfns) - 1)

    def apply(self, f, args, st, k):
        """call function value f; k(value, st)"""
        self.tick()
        if f.op == "Nom":
            if len(args) == 1 and args[0].op == "Rest":
                return self.run(f, args[0].a[0], st,
                                lambda p, v, s: k(Ok(Tup(Rest(p), v)), s),
                                lambda s: k(NERR, s), lambda s: k(NFAIL, s))
            return unk("parser applied to something that is not the input: " + ", ".join(map(show, args)))
        if f.op == "Clo":
            b = self.prog.bodies.get(f.a[0])
            if b is None:
                return unk("closure body " + f.a[0])
            if len(args) == 1 and args[0].op == "Rest" and word_test(b):
                return self.isolated(b, [f] + args, st, k)
            return self.exec_fn(b, [f] + args, st, k)
        if f.op == "Fn":
            return self.call(self.callees[f.a[1]], args, st, k)
        if f.op == "Py":
            return self.pyfns[f.a[0]](self, args, st, k)
        return unk("call of an opaque function value " + show(f))

    def isolated(self, b, args, st, k):
        """run a function on its own first, so that its many ways to fail become one"""
        alone = self.exec_fn(b, args, st.clone(), lambda v, s: T("Val", self.whole_bytes(v, s)))
        alone = one_word(alone)
        seen = set()

        def plain(t):
            if t in seen:
                return True
            seen.add(t)
            if t.op == "Sw" or t.op == "Cond":
                return all(plain(x) for _, x in t.a[1])
            if t.op == "Lit":
                return plain(t.a[3]) and plain(t.a[4])
            return t.op == "Val" and not holds_ref(t)
        if not plain(alone):
            return self.exec_fn(b, args, st, k)

        def go(t, st):
            if t.op == "Val":
                return k(t.a[0], st)
            if t.op == "Lit":
                return self.lit(st, t.a[0], t.a[1], t.a[2], lambda q, v, s: go(t.a[3], s), lambda s: go(t.a[4], s))
            if t.op == "Cond":
                m = dict(t.a[1])
                return self.cond(st, t.a[0], [l for l, _ in t.a[1]], lambda l, s: go(m[l], s))

            def step(i, s):
                cs, x = t.a[1][i]
                if i + 1 == len(t.a[1]):
                    return go(x, s)
                return self.test(s, t.a[0], cs, lambda s2: go(x, s2), lambda s2: step(i + 1, s2))
            return step(0, st)
        return go(alone, st)

    def exec_fn(self, b, args, st, k):
        # a closure can be reached from itself as the parser it was given
        if b["path"] in self.inline_stack and self.inline_stack.count(b["path"]) > (1 if not (args and args[0].op == "Clo") else 6):
            return unk("recursion through " + b["path"])
        self.frame += 1
        fr = self.frame
        if b["args"] != len(args):
            # closures called with a tuple
            if b["args"] == 2 and len(args) > 2:
                args = [args[0], Tup(*args[1:])]
            else:
                return unk("arity of " + b["path"])
        for i, a in enumerate(args):
            st.store[(fr, i + 1)] = a
        self.inline_stack.append(b["path"])

        def ret(v, s):
            saved = self.inline_stack
            self.inline_stack = saved[:-1] if saved and saved[-1] == b["path"] else list(saved)
            # drop the frame
            for kk in [x for x in s.store if x[0] == fr]:
                del s.store[kk]
            try:
                return k(v, s)
            finally:
                self.inline_stack = saved
        try:
            return self.exec(b, fr, 0, st, ret, frozenset())
        finally:
            self.inline_stack = list(self.inline_stack)
            if self.inline_stack and self.inline_stack[-1] == b["path"]:
                self.inline_stack.pop()

    # ------------------------------------------------------------ MIR
    def loop_heads(self, b):
        h = self.loops.get(b["path"])
        if h is None:
            succ = [succs(bl["t"]) for bl in b["blocks"]]
            color = {}
            heads = set()

            stack = [(0, iter(succ[0]))]
            color[0] = 1
            while stack:
                u, it = stack[-1]
                for v in it:
                    if color.get(v, 0) == 1:
                        heads.add(v)
                    elif color.get(v, 0) == 0:
                        color[v] = 1
                        stack.append((v, iter(succ[v])))
                        break
                else:
                    color[u] = 2
                    stack.pop()
            h = heads
            self.loops[b["path"]] = h
        return h

    def exec(self, b, fr, bb, st, kret, entered, back=(), skip=False):
        """back: the loops being summarised (loops.Entry), innermost last; skip: enter a loop head as it is"""
        heads = self.loop_heads(b)
        while True:
            self.tick()
            if not skip:
                for j in range(len(back) - 1, -1, -1):
                    en = back[j]
                    if bb == en.head:
                        return en.onback(st)
                    if bb not in en.blocks:
                        return en.onexit(bb, st, back[:j])
                if bb in heads:
                    from loops import run_loop
                    return run_loop(self, b, fr, bb, st, kret, back)
            skip = False
            bl = b["blocks"][bb]
            vis = self.visited.get(b["path"])
            if vis is None:
                vis = self.visited[b["path"]] = set()
            vis.add(bb)
            self.used.add(b["path"])
            for s in bl["s"]:
                self.span = s[-1]
                if s[0] == "=":
                    v = self.boxcopy(b, fr, s, st) or self.rvalue(b, fr, s[2], st, s[-1])
                    self.write(fr, s[1], v, st)
                elif s[0] == "setdiscr":
                    return unk("set discriminant")
            t = bl["t"]
            op = t[0]
            sp = bl["sp"]
            if op in ("goto",):
                bb = t[1]
                continue
            if op == "drop":
                bb = t[2]
                continue
            if op == "return":
                return kret(st.store.get((fr, 0), UNIT), st)
            if op == "switch":
                v = self.operand(b, fr, t[1], st)
                tgt = {x[0]: x[1] for x in t[2]}
                oth = t[3]
                oth_dead = b["blocks"][oth]["t"][0] == "unreachable"
                if v.op == "Int":
                    bb = tgt.get(v.a[0], oth)
                    continue
                cont = lambda nb, s: self.exec(b, fr, nb, s, kret, entered, back)
                return self.switch(v, tgt, None if oth_dead else oth, st, cont, t[4])
            if op == "call":
                f = self.operand(b, fr, t[1], st)
                args = [self.operand(b, fr, a, st) for a in t[2]]
                dest = t[3]
                nb = t[4]
                self.span = sp

                def k(v, s, dest=dest, nb=nb):
                    if nb is None:
                        return panic("call that does not return")
                    self.write(fr, dest, v, s)
                    return self.exec(b, fr, nb, s, kret, entered, back)
                if f.op == "Fn":
                    c = self.callees[f.a[1]]
                    if nb is None:
                        self.event("panic", b["path"], c["path"])
                        return panic("call of %s in %s" % (c["path"], b["path"]))
                    return self.call(c, args, st, k, sp, b["path"])
                return self.apply(f, args, st, k)
            if op == "assert":
                v = self.operand(b, fr, t[1], st)
                if v.op == "Int":
                    if bool(v.a[0]) == t[2]:
                        bb = t[4]
                        continue
                    self.event("panic", b["path"], t[3])
                    return panic("%s in %s" % (t[3], b["path"]))
                self.event("guarded" if guarded(st, [v]) else "assert", b["path"], t[3])
                bb = t[4]
                continue
            if op == "unreachable":
                return T("Unk", "unreachable code reached")
            return unk("terminator " + op)

    def switch(self, v, tgt, oth, st, cont, ty):
        if v.op == "InSet":
            pos, cs = v.a
            f = tgt.get(0, oth)
            t = tgt.get(1, oth)
            return self.test(st, pos, cs, lambda s: cont(t, s), lambda s: cont(f, s))
        if v.op in ("C", "Cast", "Arith") and charpos(v) is not None:
            pos = charpos(v)
            items = list(tgt.items())

            def step(i, st):
                if i == len(items):
                    if oth is None:
                        return unk("no target")
                    return cont(oth, st)
                val, nb = items[i]
                cs = cmp_set("Eq", v, val)
                return self.test(st, pos, cs, lambda s: cont(nb, s), lambda s: step(i + 1, s))
            return step(0, st)
        if v.op == "TextEq":
            f = tgt.get(0, oth)
            t = tgt.get(1, oth)
            return self.text_eq(v.a[0], v.a[1].a[0], st, lambda s: cont(t, s), lambda s: cont(f, s))
        if v.op == "TextIn":
            f = tgt.get(0, oth)
            t = tgt.get(1, oth)
            return self.word(st, v.a[0].a[0], v.a[2], v.a[1].a[0], lambda s: cont(t, s), lambda s: cont(f, s))
        if v.op == "TextEqCI":
            f = tgt.get(0, oth)
            t = tgt.get(1, oth)
            return self.text_eq(v.a[0], v.a[1].a[0], st, lambda s: cont(t, s), lambda s: cont(f, s), True)
        if v.op == "IsPrefix":
            f = tgt.get(0, oth)
            t = tgt.get(1, oth)
            return self.lit(st, v.a[1], False, v.a[0], lambda q, x, s: cont(t, s), lambda s: cont(f, s))
        if v.op == "AtEof":
            f = tgt.get(0, oth)
            t = tgt.get(1, oth)
            return self.test(st, v.a[0], EOFSET, lambda s: cont(t, s), lambda s: cont(f, s))
        if v.op == "Moved2":
            f = tgt.get(0, oth)
            t = tgt.get(1, oth)
            return self.if_moved(st, v.a[0], v.a[1], lambda s: cont(t, s), lambda s: cont(f, s))
        if v.op == "NonEmpty":
            f = tgt.get(0, oth)
            t = tgt.get(1, oth)
            l = v.a[0]
            return self.nonempty(l, st, lambda s: cont(t, s), lambda s: cont(f, s))
        if v.op == "Not":
            nt = {0: tgt.get(1, oth), 1: tgt.get(0, oth)}
            return self.switch(v.a[0], nt, None, st, cont, ty)
        if v.op == "App" and v.a[0] in ("len-Ge", "len-Gt", "len-Lt", "len-Le") and v.a[1].op == "Rest" and \
                v.a[2].op == "Int" and 0 < v.a[2].a[0] <= 64:
            n = v.a[2].a[0] + (v.a[0] in ("len-Gt", "len-Le"))
            f, t = tgt.get(0, oth), tgt.get(1, oth)
            if v.a[0] in ("len-Lt", "len-Le"):
                f, t = t, f
            known = self.bytes_known(st, v.a[1].a[0], n)
            if known is not None:
                return cont(t if known else f, st)
            return self.cond(st, App("len-Ge", v.a[1], Int(n)), [0, 1], lambda l, s: cont(t if l else f, s))
        labels = sorted(tgt)
        if oth is not None:
            n = self.ncases(v, ty)
            if n is not None:
                rest = [i for i in range(n) if i not in tgt]
                m = dict(tgt)
                for r in rest:
                    m[r] = oth
                return self.cond(st, v, sorted(m), lambda l, s: cont(m[l], s))
            return self.cond(st, v, labels + ["*"], lambda l, s: cont(tgt.get(l, oth), s))
        return self.cond(st, v, labels, lambda l, s: cont(tgt[l], s))

    def nonempty(self, l, st, yes, no):
        if l.op == "Cons":
            return yes(st)
        if l is NIL:
            return no(st)
        if l.op == "L":
            rb = None
            vb, pos = l.a
            # find whether this star moved
            rec = map_leaves(vb.a[1], lambda n: T("Ok", n.a[0], UNIT) if n.op == "Ok" else n)
            rb = T("Body", vb.a[0], rec)
            return self.if_moved(st, pos, After(pos, rb), yes, no)
        return self.cond(st, T("NonEmpty", l), [0, 1], lambda x, s: yes(s) if x else no(s))

    def ncases(self, v, ty):
        if ty.get("k") == "prim" and ty["name"] == "bool":
            return 2
        if v.op == "Discr":
            p = v.a[1]
            if p in (OPTION, RESULT):
                return 2
            if p == NOMERR:
                return 3
            if p in self.prog.adts:
                return len(self.prog.adts[p]["variants"])
        return None

    def bytes_known(self, st, p, n, whole=False):
        """are there n bytes at p (whole: of one-byte characters)? None: not known"""
        i = 0
        while i < n:
            k = self.know(st, p)
            if k <= ASCIISET:
                i += 1
                p = Next(p)
                continue
            if k <= EOFSET:
                return False
            return None
        return True

    def whole_bytes(self, v, st):
        """v with the first bytes of the input as text, where they are known to be ASCII"""
        import canon
        rebuild = canon.Canon(self)

        def f(t):
            if t.op in ("Body", "After", "Next", "P0", "C", "V", "L"):
                return t
            if t.op == "App" and t.a[0] in ("bytes-before", "bytes-after"):
                p = t.a[1].a[0]
                if self.bytes_known(st, p, t.a[2].a[0]):
                    q = p
                    for _ in range(t.a[2].a[0]):
                        q = Next(q)
                    return Text(p, q) if t.a[0] == "bytes-before" else Rest(q)
                return t
            if not t.a or t.op in ("Clo", "Nom", "RefMut"):
                return t
            return rebuild.mapargs(t, f)
        return f(v)

    def text_eq(self, x, lit, st, yes, no, nocase=False):
        """x == lit for a text value"""
        if x.op == "App" and len(x.a) == 2 and x.a[0].split("::")[-1] in CASES and not nocase and x.a[1].op in ("Text", "Str"):
            how = CASES[x.a[0].split("::")[-1]]
            if x.a[1].op == "Str":
                return yes(st) if "".join(how(c) for c in x.a[1].a[0]) == lit else no(st)
            p, q = x.a[1].a
            ps = []
            while q.op == "Next" and q is not p:
                q = q.a[0]
                ps.append(q)
            if q is p and len(ps) == len(lit):
                # as many characters as there are, so each stands for one
                return self.word(st, p, [uncased(x.a[0].split("::")[-1], c) for c in lit], lit, yes, no)
            if q is p and len(ps) > len(lit):
                return no(st)
        if x.op == "App" and x.a[0] == "bytes-before" and lit.isascii():
            if len(lit) != x.a[2].a[0]:
                return no(st)
            return self.lit(st, lit, nocase, x.a[1].a[0], lambda q, v, s: yes(s), no)
        if x.op == "Str":
            same = x.a[0].lower() == lit.lower() if nocase else x.a[0] == lit
            return yes(st) if same else no(st)
        if x.op == "Rest":
            end = lambda q, s: self.test(s, q, EOFSET, yes, no)
            if lit == "":
                return end(x.a[0], st)
            return self.lit(st, lit, nocase, x.a[0], lambda q, v, s: end(q, s), no)
        if x.op == "Text":
            p, q = x.a
            # count Next steps
            n = 0
            y = q
            while y.op == "Next" and y is not p:
                y = y.a[0]
                n += 1
            if y is p:
                if n != len(lit):
                    return no(st)

                return self.lit(st, lit, nocase, p, lambda q2, v, s: yes(s), no)
            if lit == "":
                return self.if_moved(st, p, q, no, yes)
        return self.cond(st, T("TextEqCI" if nocase else "TextEq", x, Str(lit)), [0, 1], lambda l, s: yes(s) if l else no(s))

    def word(self, st, start, sets, lit, yes, no):
        """the characters from start on are in sets, which is much the same as being lit"""
        todo = []
        for cs in sets:
            todo.append((todo[-1][0] if todo else start, cs))
            if len(todo) > 1:
                todo[-1] = (Next(todo[-1][0]), cs)

        def rest(i, s):
            if i == len(todo):
                return yes(s)
            return self.test(s, todo[i][0], todo[i][1], lambda s2: rest(i + 1, s2), no)
        if not lit.isascii() or not lit:
            return rest(0, st)
        for nocase in (True, False):
            two = lit_sets(lit.lower() if nocase else lit, nocase)
            if any(b - c for b, (_, c) in zip(two, todo)):
                continue

            # the word, or with another character at i and only its letters before
            def odd(i, s):
                if i == len(todo):
                    return no(s)
                x, cs = todo[i]
                if not any(c - b for b, (_, c) in zip(two[i:], todo[i:])):
                    return no(s)

                def plain(s2):
                    return self.test(s2, x, two[i], lambda s3: odd(i + 1, s3), no)
                if not cs - two[i]:
                    return plain(s)
                return self.test(s, x, cs - two[i], lambda s2: rest(i + 1, s2), plain)
            return self.lit(st, lit.lower() if nocase else lit, nocase, start, lambda q2, v, s: yes(s), lambda s: odd(0, s))
        return rest(0, st)

    # places and values
    def read_addr(self, fr, local, st):
        v = st.store.get((fr, local))
        return v if v is not None else T("Uninit", )

    def read(self, fr, place, st):
        local, proj = place
        v = self.read_addr(fr, local, st)
        return self.project(v, proj, st, fr)

    def boxcopy(self, b, fr, s, st):
        """the compiler copies the pointer of a Box behind a reference before it follows it: the copy is the place"""
        r = s[2]
        if r[0] != "use" or r[1][0] != "copy" or s[1][1] or not r[1][1][1] or r[1][1][1][0][0] != "deref":
            return None
        t = b["locals"][s[1][0]]
        if t["k"] != "adt" or t["path"] != "alloc::boxed::Box" or self.read_addr(fr, r[1][1][0], st).op != "RefMut":
            return None
        return self.mkref(fr, r[1][1][0], r[1][1][1], st)

    def project(self, v, proj, st, fr):
        i = 0
        var = None
        while i < len(proj):
            pr = proj[i]
            if v.op == "RefMut":
                if pr[0] == "deref":
                    v = self.load(v, st)
                    i += 1
                    continue
            if pr[0] == "deref":
                i += 1
                continue
            if pr[0] == "downcast":
                var = pr[1]
                i += 1
                continue
            if pr[0] == "field":
                # the pointer inside a freshly allocated box is the box
                v = v if v.op == "RefMut" else field(v, pr[1], var)
                var = None
                i += 1
                continue
            if pr[0] == "index":
                idx = self.read_addr(fr, pr[1], st)
                v = index(v, idx)
            elif pr[0] == "item":
                v = item(v, pr[1])
            elif pr[0] == "cindex":
                v = index(v, Int(pr[1])) if not pr[3] else App("index-from-end", v, Int(pr[1]))
            else:
                v = App("proj-" + str(pr[0]), v)
            i += 1
        return v

    def load(self, r, st):
        fr, local, proj = r.a
        v = self.read_addr(fr, local, st)
        return self.project(v, proj, st, fr)

    def store_ref(self, r, v, st):
        fr, local, proj = r.a
        self.write(fr, [local, list(proj)], v, st)

    def write(self, fr, place, v, st):
        local, proj = place
        if not proj:
            st.store[(fr, local)] = v
            return
        cur = self.read_addr(fr, local, st)
        # write through references
        if cur.op == "RefMut":
            if proj[0][0] == "deref":
                f2, l2, p2 = cur.a
                return self.write(f2, [l2, list(p2) + list(proj[1:])], v, st)
        st.store[(fr, local)] = self.update(cur, [tuple(p) for p in proj], v)

    def update(self, cur, proj, v):
        if not proj:
            return v
        p = proj[0]
        if p[0] in ("deref", "downcast"):
            return self.update(cur, proj[1:], v)
        if p[0] == "field":
            i = p[1]
            if cur.op == "Tup" or cur.op == "Uninit":
                xs = list(cur.a) if cur.op == "Tup" else []
                while len(xs) <= i:
                    xs.append(T("Uninit"))
                xs[i] = self.update(xs[i], proj[1:], v)
                return T("Tup", *xs)
            if cur.op == "Adt":
                xs = list(cur.a)
                xs[i + 2] = self.update(xs[i + 2], proj[1:], v)
                return T("Adt", *xs)
            return with_field(cur, i, self.update(field(cur, i, None), proj[1:], v))
        if p[0] == "item":
            return with_item(cur, p[1], self.update(item(cur, p[1]), proj[1:], v))
        return App("with", cur, v)

    def operand(self, b, fr, o, st):
        if o[0] in ("copy", "move"):
            return self.read(fr, o[1], st)
        if o[0] == "const":
            return self.const(o[1], st)
        return App("operand", o[1])

    def const(self, c, st):
        k = c["k"]
        if k in ("int", "bool", "char"):
            return Int(c["v"])
        if k == "str":
            return Str(c["v"])
        if k == "bytearr":
            return T("Arr", *[Int(x) for x in c["v"]])
        if k == "unit":
            return UNIT
        if k == "fn":
            return self.fnval(c["fn"])
        if k == "zst":
            ty = c["ty"]
            if ty["k"] == "closure":
                return T("Clo", ty["path"])
            if ty["k"] == "adt":
                return T("Adt", ty["path"], 0)
            return UNIT
        if k == "promoted":
            return self.body_value("%s::{promoted#%d}" % (c["of"], c["i"]))
        if k in ("other", "uneval") and c.get("item"):
            v = self.body_value(c["item"])
            if v is not None:
                return v
        return App("const", json.dumps(c, sort_keys=True))

    def body_value(self, path):
        b = self.prog.bodies.get(path)
        if b is None:
            return App("const", path)
        out = []

        def k(v, s):
            out.append(v)
            return ERR
        self.frame += 1
        fr = self.frame
        self.exec(b, fr, 0, St(), k, frozenset())
        if len(out) == 1:
            return out[0]
        return App("const", path)

    def rvalue(self, b, fr, r, st, sp):
        op = r[0]
        if op == "use":
            return self.operand(b, fr, r[1], st)
        if op == "ref":
            if r[2]:
                local, proj = r[1]
                return self.mkref(fr, local, proj, st)
            return self.read(fr, r[1], st)
        if op == "agg":
            kind = r[1]
            ops = [self.operand(b, fr, x, st) for x in r[2]]
            if kind[0] == "tuple":
                return T("Tup", *ops)
            if kind[0] == "array":
                return T("Arr", *ops)
            if kind[0] == "adt":
                return mk_adt(kind[1], kind[2], ops)
            if kind[0] == "closure":
                return T("Clo", kind[1], *ops)
            return App("agg", str(kind), *ops)
        if op == "discr":
            v = self.read(fr, r[1], st)
            return self.discr(v, r[2])
        if op == "cast" and r[1] == "BoxDerefTransmute" and r[2][0] in ("copy", "move") and r[2][1][1] and \
                r[2][1][1][-1][0] == "field":
            # a Box is what is in it
            local, proj = r[2][1]
            v = self.read(fr, [local, proj[:-1]], st)
            return v if v.op == "RefMut" else self.mkref(fr, local, proj[:-1], st)
        if op == "cast":
            v = self.operand(b, fr, r[2], st)
            return self.cast(r[1], v, r[3], r[4])
        if op == "bin":
            x = self.operand(b, fr, r[2], st)
            y = self.operand(b, fr, r[3], st)
            return binop(r[1], x, y)
        if op == "un":
            x = self.operand(b, fr, r[2], st)
            if r[1] == "Not":
                return notv(x)
            if r[1] == "Neg" and x.op == "Int":
                return Int(-x.a[0])
            if r[1] == "PtrMetadata":
                if x.op == "App" and x.a[0] == "rawptr":
                    x = x.a[1]
                if x.op == "RefMut":
                    x = self.load(x, st)
                return Int(len(x.a)) if x.op == "Arr" else T("Len", x)
            return App("un-" + r[1], x)
        if op == "rawptr":
            return App("rawptr", self.read(fr, r[1], st))
        return App("rvalue", json.dumps(r, sort_keys=True))

    def mkref(self, fr, local, proj, st):
        # &mut *r  -> r itself
        v = self.read_addr(fr, local, st)
        pr = [tuple(p) for p in proj]
        while pr and pr[0] == ("deref",) and v.op == "RefMut":
            fr, local, p2 = v.a
            pr = list(p2) + pr[1:]
            v = self.read_addr(fr, local, st)
        return T("RefMut", fr, local, tuple(pr))

    def discr(self, v, ty):
        if v.op == "RefMut":
            return App("discr-ref", v)
        if v.op == "Adt":
            return Int(v.a[1])
        return T("Discr", v, ty.get("path", "?") if ty["k"] == "adt" else ty["k"])

    def cast(self, kind, v, frm, to):
        if kind == "IntToInt":
            tn = to.get("name")
            if v.op == "Int":
                x = v.a[0]
                if tn == "bool" or tn is None:
                    return v
                return Int(wrap(x, tn))
            if charpos(v) is not None:
                return T("Cast", tn, v)
            return App("cast", tn, v)
        if kind.startswith("PointerCoercion"):
            return v
        if v.op == "RefMut" and kind in ("PtrToPtr", "BoxDerefTransmute"):
            return v
        return App("cast", kind, v)

    # ------------------------------------------------------------ calls
    def call(self, c, args, st, k, sp=None, where=None):
        if "ctor" in c:
            return k(mk_adt(c["ctor"]["adt"], c["ctor"]["variant"], args), st)
        path = c["path"]
        resolved = c.get("resolved", path)
        name = resolved.split("::")[-1]
        local = resolved in self.prog.bodies
        if local:
            b = self.prog.bodies[resolved]
            if self.prog.rule_named(b):
                n = b["name"]
                if (n in self.expand or n in self.own) and ("x:" + n) not in self.inline_stack:
                    if args[0].op == "Rest":
                        if n in self.expand:
                            return self.expand_run(n, self.expand[n], args[0].a[0], st,
                                                   lambda p, v, s: k(Ok(Tup(Rest(p), v)), s),
                                                   lambda s: k(NERR, s), lambda s: k(NFAIL, s))
                        return self.guarded("x:" + n, lambda k2: self.exec_fn(b, args, st, k2), k)
                elif n in self.own:
                    return unk("recursion through " + n)
                elif n in self.transparent:
                    if args[0].op == "Rest":
                        self.touched.add(n)
                        return self.run(self.transparent[n], args[0].a[0], st,
                                        lambda p, v, s: k(Ok(Tup(Rest(p), v)), s),
                                        lambda s: k(NERR, s), lambda s: k(NFAIL, s))
                elif n in self.nts:
                    if args[0].op == "Rest":
                        return self.call_nt(n, args[0].a[0], st,
                                            lambda p, v, s: k(Ok(Tup(Rest(p), v)), s),
                                            lambda s: k(NERR, s), lambda s: k(NFAIL, s))
                    return unk("rule %s called on something that is not the input" % n)
            if b["kind"] != "Fn" and len(args) == 2 and args[1].op == "Tup" and \
                    path.split("::")[-1] in ("call", "call_mut", "call_once"):
                if args[0].op == "RefMut":
                    args = [self.load(args[0], st)] + args[1:]
                return self.apply(args[0], list(args[1].a), st, k)
            if not (c.get("impl_derived") and c.get("trait", "").split("::")[-1] in ("Clone", "PartialEq")):
                return self.exec_fn(b, args, st, k)
        from models import builtin
        return builtin(self, c, args, st, k, sp, where)


def succs(t):
    op = t[0]
    if op == "goto":
        return [t[1]]
    if op == "drop":
        return [t[2]]
    if op == "switch":
        return [x[1] for x in t[2]] + [t[3]]
    if op == "call":
        return [t[4]] if t[4] is not None else []
    if op == "assert":
        return [t[4]]
    return []


def mk_adt(path, variant, fields):
    # rebuilding exactly the value that was taken apart gives that value
    if fields:
        f0 = fields[0]
        if f0.op == "Fld" and f0.a[0] == variant and f0.a[1] == 0 and path in (OPTION, RESULT):
            t = f0.a[2]
            if all(f.op == "Fld" and f.a == (variant, i, t) for i, f in enumerate(fields)):
                return t
    if path in ("alloc::boxed::Box", "alloc::borrow::Cow"):
        return fields[0]
    return T("Adt", path, variant, *fields)


def with_field(cur, i, v):
    """the struct cur with another value in field i"""
    if v.op == "Fld" and v.a[1] == i and v.a[2] is cur:
        return cur
    if cur.op == "App" and cur.a[0] == "with-field":
        if cur.a[2] == i:
            return with_field(cur.a[1], i, v)
        if cur.a[2] > i:
            return with_field(with_field(cur.a[1], i, v), cur.a[2], cur.a[3])
    return App("with-field", cur, i, v)


def item(l, at):
    """the first or last item of a list that is not empty"""
    if l.op == "App" and l.a[0] == "with-item" and l.a[2] is Str(at):
        return l.a[3]
    if l.op == "Cons" and (at == "first" or l.a[1] is NIL):
        return l.a[0]
    return field(App("slice::" + at, l), 0, 1)


def with_item(l, at, v):
    """a list that is not empty with another first or last item"""
    if l.op == "App" and l.a[0] == "with-item" and l.a[2] is Str(at):
        l = l.a[1]
    if v is item(l, at):
        return l
    if l.op == "Cons" and (at == "first" or l.a[1] is NIL):
        return Cons(v, l.a[1])
    return App("with-item", l, Str(at), v)


def field(v, i, var):
    if v.op == "App" and v.a[0] == "with-field":
        return v.a[3] if v.a[2] == i else field(v.a[1], i, var)
    if v.op == "Tup":
        return v.a[i] if i < len(v.a) else T("Uninit")
    if v.op == "Adt":
        if i + 2 < len(v.a):
            return v.a[i + 2]
        return App("nofield", v, i)
    if v.op == "Clo":
        return v.a[i + 1] if i + 1 < len(v.a) else App("nocapture", v, i)
    return T("Fld", var, i, v)


def index(v, idx):
    if v.op == "Arr" and idx.op == "Int":
        return v.a[idx.a[0]]
    return App("index", v, idx)


def charpos(v):
    while v.op in ("Cast", "Arith"):
        v = v.a[1]
    return v.a[0] if v.op == "C" else None


BITS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128, "usize": 64,
        "i8": 8, "i16": 16, "i32": 32, "i64": 64, "i128": 128, "isize": 64, "char": 32}


def wrap(x, tn):
    n = BITS.get(tn)
    if n is None:
        return x
    x &= (1 << n) - 1
    if tn[0] == "i" and x >= 1 << (n - 1):
        x -= 1 << n
    return x


def evalc(v, c):
    if v.op == "C":
        return c
    if v.op == "Cast":
        return wrap(evalc(v.a[1], c), v.a[0])
    if v.op == "Arith":
        op, x, k = v.a
        x = evalc(x, c)
        if x is None:
            return None
        return ARITH[op](x, k)
    raise Unsupported(v.op)


def _lower(x, k):
    return x + 32 if 65 <= x <= 90 else x


def _upper(x, k):
    return x - 32 if 97 <= x <= 122 else x


def _lead(x, k):
    """the first byte of a character"""
    return x if x < 0x80 else 0xC0 | x >> 6 if x < 0x800 else 0xE0 | x >> 12 if x < 0x10000 else 0xF0 | x >> 18


ARITH = {"lead": _lead, "add": lambda x, k: x + k, "sub": lambda x, k: (x - k) & 0xFFFFFFFF,
         "and": lambda x, k: x & k, "or": lambda x, k: x | k, "rem": lambda x, k: x % k if k else None,
         "ascii_lower": _lower, "ascii_upper": _upper}

_pre = {}


def preimage(v, pred, tag=None):
    """{c | pred(v(c))} exactly"""
    if v.op == "C":
        # pred on plain code points: probe through a generic scan below
        pass
    if v.op == "Cast" and v.a[0] == "u8" and v.a[1].op == "C":
        good = [x for x in range(256) if pred(x)]
        ivs = []
        runs = CharSet.of(*good).iv if good else ()
        for blk in range(0, 0x110000, 256):
            for lo, hi in runs:
                ivs.append((blk + lo, blk + hi))
        return CharSet.norm(ivs) & CHARS
    base = v
    while base.op == "Cast" and base.a[0] in ("u32", "u64", "i32", "i64", "usize", "char", "i128", "u128", "isize"):
        base = base.a[1]
    y = v
    while y.op in ("Cast", "Arith") and not (y.op == "Arith" and y.a[0] == "lead"):
        y = y.a[1]
    if y.op == "Arith":
        # one character for all that start with the same byte
        ivs = []
        blocks = [(c, c + 1) for c in range(0x80)] + [(c, c + 64) for c in range(0x80, 0x800, 64)] + \
            [(max(c, 0x800), c + 4096) for c in range(0, 0x10000, 4096)] + \
            [(max(c, 0x10000), min(c + (1 << 18), 0x110000)) for c in range(0, 0x110000, 1 << 18)]
        for lo, hi in blocks:
            x = evalc(v, lo)
            if x is not None and pred(x):
                ivs.append((lo, hi))
        return CharSet.norm(ivs) & CHARS
    out = []
    run = None
    f = (lambda c: c) if base.op == "C" else (lambda c: evalc(v, c))
    for c in range(0x110000):
        x = f(c)
        if x is not None and pred(x):
            if run is None:
                run = c
        elif run is not None:
            out.append((run, c))
            run = None
    if run is not None:
        out.append((run, 0x110000))
    return CharSet.norm(out) & CHARS


CMP = {"Eq": lambda a, b: a == b, "Ne": lambda a, b: a != b, "Lt": lambda a, b: a < b,
       "Le": lambda a, b: a <= b, "Gt": lambda a, b: a > b, "Ge": lambda a, b: a >= b}
def address(v):
    """where in the input an address taken of it points to"""
    if v.op == "App" and v.a[0] == "cast" and len(v.a) == 3 and v.a[2].op == "App":
        v = v.a[2]
        if v.a[0].split("::")[-1] == "as_ptr" and len(v.a) == 2 and v.a[1].op in ("Rest", "Text"):
            return v.a[1].a[0]
    return None


ASCIISET = CharSet.of((0, 0x7F))
FLIP = {"Eq": "Eq", "Ne": "Ne", "Lt": "Gt", "Le": "Ge", "Gt": "Lt", "Ge": "Le"}


def cmp_set(op, v, k):
    key = (op, strip(v), k)
    r = _pre.get(key)
    if r is None:
        base = v
        while base.op == "Cast" and base.a[0] in ("u32", "u64", "i32", "i64", "usize", "char"):
            base = base.a[1]
        if base.op == "C":
            lo, hi = 0, 0x110000
            if op == "Eq":
                r = CharSet.norm([(k, k + 1)])
            elif op == "Ne":
                r = CHARS - CharSet.norm([(k, k + 1)])
            elif op == "Lt":
                r = CharSet.norm([(0, k)])
            elif op == "Le":
                r = CharSet.norm([(0, k + 1)])
            elif op == "Gt":
                r = CharSet.norm([(k + 1, hi)])
            else:
                r = CharSet.norm([(k, hi)])
            r = r & CHARS
        else:
            r = preimage(v, lambda x: CMP[op](x, k))
        _pre[key] = r
    return r


def strip(v):
    """the function applied, without its position"""
    if v.op == "C":
        return "C"
    return (v.op, v.a[0], strip(v.a[1])) + tuple(v.a[2:])


def in_set(v, cs):
    return T("InSet", charpos(v), cs)


def notv(x):
    if x.op == "Int":
        return Int(0 if x.a[0] else 1)
    if x.op == "InSet":
        return T("InSet", x.a[0], CHARS - x.a[1])
    if x.op == "Not":
        return x.a[0]
    return T("Not", x)


def on_chain(p, q):
    """is p a position on the way to q?"""
    while q is not p:
        if q.op not in ("Next", "After"):
            return False
        q = q.a[0]
    return True


def binop(op, x, y):
    ov = op.endswith("WithOverflow")
    base = op.replace("WithOverflow", "").replace("Unchecked", "")
    if base in CMP:
        if x.op == "Int" and y.op == "Int":
            return Bool(CMP[base](x.a[0], y.a[0]))
        if charpos(x) is not None and y.op == "Int":
            return in_set(x, cmp_set(base, x, y.a[0]))
        if charpos(y) is not None and x.op == "Int":
            return in_set(y, cmp_set(FLIP[base], y, x.a[0]))
        if x.op == "Len" and y.op == "Int":
            return len_cmp(base, x.a[0], y.a[0])
        if y.op == "Len" and x.op == "Int":
            return len_cmp(FLIP[base], y.a[0], x.a[0])
        if x is y:
            return Bool(CMP[base](0, 0))
        if x.op == "Len" and y.op == "Len" and x.a[0].op == y.a[0].op == "Rest":
            # the length of what is left, before and after
            p, q = x.a[0].a[0], y.a[0].a[0]
            if on_chain(q, p):
                p, q, base = q, p, FLIP[base]
            if on_chain(p, q):
                # left at p is never shorter than left at q
                m = T("Moved2", p, q)
                return {"Eq": notv(m), "Ne": m, "Lt": FALSE, "Ge": TRUE, "Gt": m, "Le": notv(m)}[base]
        if base == "Ne":
            return notv(binop("Eq", x, y))
        if base in ("Eq",) and y.id < x.id:
            x, y = y, x
        return App("bin-" + base, x, y)
    if base in ("BitAnd", "BitOr", "BitXor"):
        if x.op == "Int" and y.op == "Int":
            a, b = x.a[0], y.a[0]
            return Int({"BitAnd": a & b, "BitOr": a | b, "BitXor": a ^ b}[base])
        if x.op == "InSet" and y.op == "InSet" and x.a[0] is y.a[0]:
            if base == "BitAnd":
                return T("InSet", x.a[0], x.a[1] & y.a[1])
            if base == "BitOr":
                return T("InSet", x.a[0], x.a[1] | y.a[1])
        if charpos(x) is not None and y.op == "Int" and base in ("BitAnd", "BitOr"):
            return T("Arith", {"BitAnd": "and", "BitOr": "or"}[base], x, y.a[0])
        return App("bin-" + base, x, y)
    if base in ("Add", "Sub", "Mul"):
        r = None
        if x.op == "Int" and y.op == "Int":
            r = Int({"Add": x.a[0] + y.a[0], "Sub": x.a[0] - y.a[0], "Mul": x.a[0] * y.a[0]}[base])
        elif charpos(x) is not None and y.op == "Int" and base in ("Add", "Sub"):
            r = T("Arith", base.lower(), x, y.a[0])
        elif base == "Sub" and x.op == "Len" and y.op == "Len" and x.a[0].op == y.a[0].op == "Rest" and \
                on_chain(x.a[0].a[0], y.a[0].a[0]):
            r = T("Len", Text(x.a[0].a[0], y.a[0].a[0]))
        elif base == "Sub" and address(x) is not None and address(y) is not None and on_chain(address(y), address(x)):
            r = T("Len", Text(address(y), address(x)))
        elif base == "Add" and x.op == "Len" and y.op == "Len" and x.a[0].op == y.a[0].op == "Text" and \
                (x.a[0].a[1] is y.a[0].a[0] or y.a[0].a[1] is x.a[0].a[0]):
            u, v = (x, y) if x.a[0].a[1] is y.a[0].a[0] else (y, x)
            r = T("Len", Text(u.a[0].a[0], v.a[0].a[1]))
        elif base == "Add" and x is Int(0) or base in ("Add", "Sub") and y is Int(0):
            r = y if x is Int(0) and base == "Add" else x
        else:
            r = App("bin-" + base, x, y)
            if ov and base == "Sub" and x.op == "Len" and y.op == "Int" and y.a[0] <= min_len(x.a[0]):
                return Tup(r, FALSE)
            if ov:
                return Tup(r, App("overflow-" + base, x, y))
        return Tup(r, FALSE) if ov else r
    return App("bin-" + op, x, y)


def min_len(v):
    """characters (items) that are there in any case"""
    n = 0
    if v.op == "Text":
        p, q = v.a
        while q is not p and q.op in ("Next", "After"):
            n += q.op == "Next"
            q = q.a[0]
        return n
    if v.op == "Str":
        return len(v.a[0].encode())
    while v.op == "Cons":
        n, v = n + 1, v.a[1]
    return n


def len_cmp(op, x, k):
    """comparison of a list's or text's length with a constant"""
    if (op, k) in (("Gt", 0), ("Ne", 0), ("Ge", 1)):
        return nonempty_v(x)
    if (op, k) in (("Eq", 0), ("Lt", 1), ("Le", 0)):
        return notv(nonempty_v(x))
    return App("len-" + op, x, Int(k))


def nonempty_v(x):
    if x.op == "Rest":
        return T("Not", T("AtEof", x.a[0]))
    if x.op == "Text":
        return T("Moved2", x.a[0], x.a[1])
    if x.op == "Str":
        return Bool(x.a[0] != "")
    if x is NIL:
        return FALSE
    if x.op == "Cons":
        return TRUE
    if x.op in ("L",):
        return T("NonEmpty", x)
    return App("nonempty", x)


NOM = {}
