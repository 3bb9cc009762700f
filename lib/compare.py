"""Comparison of the rules of the analysed source with the reference grammar.

A rule agrees when its decision tree is the reference tree, when both have the
same normal form, or when the joint tree of both - the source's rule run on what
is known at every end of the reference's - has no end where they disagree.
"""
import engine
import refine
from canon import Canon, SPLIT_MAX
from charset import CharSet
from engine import Engine, St, ERR, FAIL, LEAF, TooBig, Unsupported, leaves, kids, unk
from spec import SpecError
from terms import Cat, P0, Rest, T

SAME = T("Same")


def called(tree):
    """names of the rules a tree calls, in its bodies too"""
    out = set()
    seen = set()
    st = [tree]
    while st:
        t = st.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op in ("NT", "Call", "V"):
            out.add(t.a[0])
        st.extend(kids(t))
    return out


def unks(tree):
    out = []
    seen = set()
    st = [tree]
    while st:
        t = st.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op == "Unk":
            out.append(t.a[0])
        st.extend(kids(t))
    return out


def opaque(v, seen=None):
    """a function of unknown meaning applied inside a value"""
    seen = set() if seen is None else seen
    if v in seen:
        return False
    seen.add(v)
    if v.op == "App" and not v.a[0].startswith("parse"):
        return True
    return any(opaque(x, seen) for x in kids(v))


BOOLS = ("InSet", "TextEq", "TextEqCI", "TextIn", "IsPrefix", "AtEof", "Moved2", "NonEmpty")


def bools(v):
    """truth values inside a value, outside the items of lists"""
    out = []
    seen = set()
    st = [v]
    while st:
        t = st.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op in BOOLS:
            out.append(t)
        elif t.op not in ("Body", "After", "Next", "V"):
            st.extend(kids(t))
    return sorted(out, key=lambda t: t.id)


# functions whose result is known to be another value than what they were given
CHANGING = set("""dedup dedup_by dedup_by_key retain retain_mut sort sort_by sort_by_key sort_unstable sort_unstable_by
sort_unstable_by_key sort_by_cached_key reverse rev swap swap_remove truncate clear rotate_left rotate_right fill
to_lowercase to_uppercase to_ascii_lowercase to_ascii_uppercase make_ascii_lowercase make_ascii_uppercase trim
trim_end trim_start trim_matches trim_end_matches trim_start_matches trim_left trim_right replace replacen repeat
filter filter_map skip skip_while take_while step_by take nth last first pop remove drain split_off resize
unique strip_suffix abs neg not wrapping_neg wrapping_add wrapping_sub wrapping_mul saturating_sub saturating_add
saturating_mul checked_neg overflowing_neg wrapping_abs signum pow powi powf round floor ceil trunc fract sqrt
rem_euclid swap_bytes reverse_bits to_be to_le rotate count_ones leading_zeros max min clamp env var args now
truncate_to lines split_whitespace split_ascii_whitespace hash""".split())


def wild(v):
    """the result of a function nothing is known about"""
    if v.op != "App":
        return False
    n = v.a[0]
    if n.startswith("parse"):
        return False
    n = n[len("changed-by-"):] if n.startswith("changed-by-") else n
    if n.startswith(("bin-", "un-", "len-", "cast", "overflow-", "nonempty", "with-field", "with-item")):
        return False
    return n.split("::")[-1] not in CHANGING or n.startswith(("Option::", "core::mem::", "Result::"))


def wild_names(v):
    out = set()
    seen = set()
    st = [v]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if wild(x):
            out.add(x.a[0])
        st.extend(kids(x))
    return out


def has_wild(v):
    return bool(wild_names(v))


LISTY = ("Cons", "Nil", "App2", "L", "Map")


# functions whose result is a part of what they are given
PARTS = set("""split splitn rsplit rsplitn split_terminator split_inclusive split_once rsplit_once split-first next
next_back nth last first get index strip_prefix strip_suffix split_at split_first split_last chunks windows lines""".split())


def part_of(a, b):
    """b is cut out of a, or out of something a is built around"""
    n = 0
    inside = set()
    todo = [a]
    while todo:
        x = todo.pop()
        if x.op in ("Adt", "Tup", "Cons"):
            new = [y for y in x.a if isinstance(y, T) and y not in inside]
            inside.update(new)
            todo += new
    while b is not a:
        if b in inside:
            return True
        if b.op == "Fld":
            b = b.a[2]
        elif b.op == "App" and len(b.a) > 1 and b.a[0].replace("changed-by-", "").split("::")[-1] in PARTS:
            b = b.a[1]
            n += 1
        else:
            return False
    return n > 0


def might_equal(a, b, seen=None):
    """could b be a, were the unknown functions in b the right ones?"""
    if a is b:
        return True
    if b.op == "App" and b.a[0] == "with-field":
        c = b
        touched = {}
        while c.op == "App" and c.a[0] == "with-field":
            touched.setdefault(c.a[2], c.a[3])
            c = c.a[1]
        if a.op == "Adt":
            return all(might_equal(x, touched[i] if i in touched else engine.field(c, i, 0)) for i, x in enumerate(a.a[2:]))
        return might_equal(a, c) and all(might_equal(engine.field(a, i, 0), x) for i, x in touched.items())
    if b.op == "App" and b.a[0] == "with-item":
        return might_equal(a, b.a[1]) and might_equal(engine.item(b.a[1], b.a[2].a[0]), b.a[3])
    if changing(b) or part_of(a, b):
        return False
    if wild(b):
        return True
    if not has_wild(b):
        return False
    if a.op == "Cons" and b.op == "Cons":
        return might_equal(a.a[0], b.a[0]) and might_equal(a.a[1], b.a[1])
    if b.op in LISTY or a.op in LISTY:
        return True
    if b.op in ("Fld", "Str", "Text", "App", "Cat", "Chr1"):
        return b.op != "App" or not changing(b)
    if a.op != b.op or len(a.a) != len(b.a):
        return False
    for x, y in zip(a.a, b.a):
        if isinstance(x, T) and isinstance(y, T):
            if not might_equal(x, y):
                return False
        elif x != y:
            return False
    return True


def changing(v):
    """a function known to change what it is given is applied somewhere in v"""
    seen = set()
    st = [v]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "App" and not x.a[0].startswith(("parse", "with-field", "with-item")) and not wild(x):
            return True
        st.extend(kids(x))
    return False


class Result:
    """equal: True, False or None (not decided)"""
    __slots__ = ("name", "equal", "how", "S", "I", "diff", "unk")

    def __init__(self, name, equal, how, S, I, diff=None, unk=()):
        self.name = name
        self.equal = equal
        self.how = how
        self.S = S
        self.I = I
        self.diff = diff
        self.unk = list(unk)


class Joint:
    """reference rule, then source rule from the same start on the same knowledge"""

    def __init__(self, g):
        self.g = g
        self.e = Engine(g.prog, g.nts, g.transparent)
        self.canon = Canon(self.e)
        self.e.canon = self.canon
        self.e.limit = 300000
        self.holes = {}

    def run(self, name, expand=(), own=()):
        g, e = self.g, self.e
        e.rule = name
        e.steps = 0
        e.depth = 0
        e.inline_stack = []
        e.touched = set()
        e.star_cache = {}
        e.stars_at = {}
        e.events = {}
        e.expand = {n: g.spec.vals[n] for n in expand}
        e.own = set(own)
        body = g.body(name)

        def second(out, st):
            saved = e.inline_stack
            e.inline_stack = []
            try:
                return e.exec_fn(body, [Rest(P0(0))], st,
                                 lambda v, s: e.dispatch(v, s, lambda p, v2, s2: self.leaf(out, T("Ok", p, v2), s2),
                                                         lambda s2: self.leaf(out, ERR, s2),
                                                         lambda s2: self.leaf(out, FAIL, s2)))
            finally:
                e.inline_stack = saved
        try:
            return e.run(g.spec.vals[name], P0(0), St(), lambda p, v, s: second(T("Ok", p, v), s),
                         lambda s: second(ERR, s), lambda s: second(FAIL, s))
        except (TooBig, Unsupported, SpecError, RecursionError) as x:
            return unk("%s: %s" % (type(x).__name__, x))
        except (AttributeError, TypeError, KeyError, IndexError, ValueError) as x:
            return unk("analysis error %s: %s" % (type(x).__name__, x))
        finally:
            e.expand = {}
            e.own = set()

    def settle(self, v, st):
        """v with texts of known characters written out"""
        c = {}

        def one(p):
            k = st.k(p)
            return chr(k.iv[0][0]) if k.size() == 1 and k.iv[0][0] < 0x110000 else None

        def text(t):
            out = []
            p = t.a[1]
            while p is not t.a[0]:
                x = one(p.a[0]) if p.op == "Next" else None
                if x is None:
                    return t
                out.append(x)
                p = p.a[0]
            return engine.Str("".join(reversed(out)))

        def cat(t):
            xs = list(t.a)
            for i in range(1, len(xs)):
                if xs[i].op == "Str" and xs[i - 1].op == "Text":
                    p, q = xs[i - 1].a
                    w = xs[i].a[0]
                    while w and one(q) == w[0]:
                        w, q = w[1:], engine.Next(q)
                    xs[i - 1], xs[i] = engine.Text(p, q), engine.Str(w)
            for i in range(len(xs) - 1):
                if xs[i].op == "Str" and xs[i + 1].op in ("Text", "Rest"):
                    p = xs[i + 1].a[0]
                    w = xs[i].a[0]
                    while w and p.op == "Next" and one(p.a[0]) == w[-1]:
                        w, p = w[:-1], p.a[0]
                    xs[i], xs[i + 1] = engine.Str(w), T(xs[i + 1].op, p, *xs[i + 1].a[1:])
            return Cat(*xs)

        def f(t):
            if t.op in ("Body", "After", "Next", "P0"):
                return t
            r = c.get(t)
            if r is None:
                if t.op == "Cat":
                    t2 = Cat(*[x if x.op in ("Text", "Str", "Rest") else f(x) for x in t.a])
                    r = cat(t2) if t2.op == "Cat" else t2
                else:
                    r = self.canon.mapargs(t, f)
                if r.op == "Text":
                    r = text(r)
                c[t] = r
            return r
        return f(v)

    def leaf(self, a, b, st):
        r = self.leaf_(a, b, st)
        if r.op == "Diff":
            for x in [b] + [key[1] for key, _ in st.memo if isinstance(key, tuple) and key[0] == "star"]:
                why = self.holes.get(x)
                if why is None:
                    u = unks(x)
                    why = self.holes[x] = u[0] if u else ""
                if why:
                    return unk(why)
        return r

    def leaf_(self, a, b, st):
        if a is b:
            return SAME
        if a.op == b.op == "Ok":
            m = {}
            open_ = set()
            for t in (a, b):
                ps = set()
                self.canon.chars(t, ps, set())
                open_ |= ps
            rest = []
            for p in sorted(open_, key=lambda p: p.id):
                k = st.k(p)
                if k.size() == 1:
                    m[T("C", p)] = T("Int", k.iv[0][0])
                elif k.size() <= SPLIT_MAX:
                    rest.append(p)
            c = {}
            a2, b2 = self.canon.canon(self.canon.subst(a, m, c)), self.canon.canon(self.canon.subst(b, m, c))
            if a2 is b2 or self.settle(a2, st) is self.settle(b2, st):
                return SAME
            if rest:
                p = rest[0]
                out = []
                for lo, hi in st.k(p).iv:
                    for x in range(lo, hi):
                        cs = CharSet(((x, x + 1),))
                        s2 = st.clone()
                        s2.K[p] = cs
                        out.append((cs, self.leaf(a2, b2, s2)))
                return engine.mk_sw(p, out)
            bs = bools(a2) + bools(b2)
            if bs:
                t = bs[0]

                def cont(x, s):
                    m = {t: T("Int", x)}
                    return self.leaf(self.canon.subst(a2, m, {}), self.canon.subst(b2, m, {}), s)
                return self.e.switch(t, {0: 0, 1: 1}, None, st.clone(), cont, None)
            if a2.a[0] is b2.a[0] and might_equal(a2.a[1], b2.a[1]):
                return unk("a value computed with %s, of which nothing is known" % ", ".join(sorted(wild_names(b2.a[1]))[:3]))
            return T("Diff", a2, b2)
        return T("Diff", a, b)


class Walk:
    """both trees side by side, with what the path so far tells"""
    LIMIT = 60000

    def __init__(self, nts, joint):
        self.nts = nts
        self.e = joint.e
        self.leaf = joint.leaf
        self.canon = joint.canon
        self.joint = joint
        self.none = {}
        self.peeled = {}
        self.eqs = {}
        self.values = {}
        self.steps = 0
        self.unroll = None

    def decided(self, t, st):
        """t without the tests at its root that st decides"""
        while True:
            if t.op == "Sw":
                k = self.e.know(st, t.a[0])
                live = [(s & k, x) for s, x in t.a[1] if s & k]
                if len(live) != 1:
                    return t
                t = live[0][1]
            elif t.op == "Call":
                m = st.memo.get((("nt", t.a[0]), t.a[1]))
                i = {"ok": 2, "err": 3, "fail": 4}.get(m)
                if i is None or t.a[i] is None:
                    return t
                t = t.a[i]
            elif t.op == "Star":
                m = st.memo.get((("star", t.a[0]), t.a[1]))
                i = {"ok": 2, "abort": 3, "fail": 4}.get(m)
                if i is None or t.a[i] is None:
                    u = self.empty(t, st) or self.peel(t, st) or self.alike(t, st)
                    if u is None and self.unroll is not None:
                        u = self.unroll(t)
                    if u is None:
                        return t
                    t = u
                    continue
                t = t.a[i]
            elif t.op == "Cond":
                v = st.cond.get(t.a[0])
                nx = [x for l, x in t.a[1] if l == v]
                if v is None or len(nx) != 1:
                    return t
                t = nx[0]
            elif t.op == "Lit":
                known = True
                p = t.a[2]
                for cs in engine.lit_sets(t.a[0], t.a[1]):
                    k = self.e.know(st, p)
                    if not (k & cs):
                        known = None
                        break
                    if not k <= cs:
                        known = False
                    p = engine.Next(p)
                if known is None or st.memo.get((("lit", t.a[0], t.a[1]), t.a[2])) == "err":
                    t = t.a[4]
                elif known:
                    t = t.a[3]
                else:
                    return t
            else:
                return t

    def empty(self, t, st):
        """what follows a repetition that cannot start"""
        body, pos, nxt, ab, fl = t.a
        if ab is not None or fl is not None or self.e.know(st, pos) & self.e.body_sets(body)[0]:
            return None
        r = self.none.get(t)
        if r is None:
            m = {engine.After(pos, body): pos}
            self.canon.lists_at(nxt, pos, body, m, set())
            r = self.none[t] = self.canon.subst(nxt, m, {})
        return r

    def peel(self, t, st):
        """a repetition that surely starts, with its first round written out"""
        body, pos, nxt, ab, fl = t.a
        if not self.e.know(st, pos) <= self.e.body_sets(body)[1]:
            return None
        if t in self.peeled:
            return self.peeled[t]
        ls = {}
        self.canon.lists_at(nxt, pos, body, ls, set())
        vbs = {l.a[0] for l in ls}
        if len(vbs) > 1:
            return None
        vb = vbs.pop() if vbs else body
        x = self.canon.subst(vb.a[1], {vb.a[0]: pos}, {})

        def leaf(l):
            if l.op == "Ok":
                q = l.a[0]
                m = {engine.After(pos, body): engine.After(q, body)}
                if ls:
                    m[T("L", vb, pos)] = engine.Cons(l.a[1], T("L", vb, q))
                return engine.mk_star(body, q, self.canon.subst(nxt, m, {}), ab, fl)
            if l.op == "Abort":
                return ab if ab is not None else engine.ERR
            if l.op == "Fail":
                return fl if fl is not None else engine.FAIL
            return engine.DEAD if l.op == "Err" else l
        r = self.peeled[t] = engine.map_leaves(x, leaf)
        return r

    def alike(self, t, st):
        """another repetition that does the same was already gone through at this place"""
        body, pos = t.a[:2]
        for other in list(self.e.stars_at.get(pos, ())):
            if other is body:
                continue
            m = st.memo.get((("star", other), pos))
            i = {"ok": 2, "abort": 3, "fail": 4}.get(m)
            if i is None or t.a[i] is None and m != "abort":
                continue
            K = self.e.know(st, pos)
            if not self.same_body(body, other, K):
                continue
            if m != "ok":
                return t.a[i] if t.a[i] is not None else engine.ERR
            nxt = t.a[2]
            sub = {engine.After(pos, body): engine.After(pos, other)}
            ls = {}
            self.canon.lists_at(nxt, pos, body, ls, set())
            for l in ls:
                for vb in self.values.get(other, ()):
                    if self.same_body(l.a[0], vb, K):
                        sub[l] = T("L", vb, pos)
                        break
            return self.canon.subst(nxt, sub, {})
        return None

    def same_body(self, a, b, K):
        """do the rounds a and b agree, when the characters in K can stand where a round starts?"""
        key = (a, b, K)
        r = self.eqs.get(key)
        if r is None:
            self.eqs[key] = False
            r = self.eqs[key] = self.same_body1(a, b, K)
        return r

    def same_body1(self, a, b, K):
        root = T("P0", 1000 + len(self.eqs))
        x = self.canon.subst(a.a[1], {a.a[0]: root}, {})
        y = self.canon.subst(b.a[1], {b.a[0]: root}, {})
        for _ in range(5):
            ends = [K]

            def leaf(l1, l2, st):
                for l in (l1, l2):
                    if l.op == "Ok":
                        ends[0] = ends[0] | self.e.know(st, l.a[0])
                return self.leaf(l1, l2, st)
            st = St()
            st.K[root] = K
            w = Walk(self.nts, self.joint)
            w.leaf = leaf
            w.eqs, w.values = self.eqs, self.values
            w.steps = self.steps
            j = w.run(x, y, st)
            self.steps = w.steps
            if not all(l.op in ("Same", "Dead") for l in leaves(j)):
                return False
            if ends[0] == K:
                return True
            K = ends[0]
        return False

    def collect(self, t, seen):
        """the repetitions whose items are used, by what they recognise"""
        if t in seen:
            return
        seen.add(t)
        if t.op == "L":
            self.values.setdefault(self.canon.rec(t.a[0]), []).append(t.a[0])
        for x in engine.kids(t):
            self.collect(x, seen)

    def run(self, s, i, st):
        self.steps += 1
        if self.steps > self.LIMIT:
            return unk("joint walk too big")
        s, i = self.decided(s, st), self.decided(i, st)
        if s is i or s.op == "Dead" or i.op == "Dead":
            return SAME
        if s.op in LEAF and i.op in LEAF:
            return i if i.op == "Unk" else self.leaf(s, i, st)
        t = s if s.op not in LEAF else i
        if t.op == "Sw":
            p = t.a[0]
            out = []
            kp = self.e.know(st, p)
            for cs, _ in t.a[1]:
                k = cs & kp
                if k:
                    s2 = st.clone()
                    s2.K[p] = k
                    out.append((k, self.run(s, i, s2)))
            return engine.mk_sw(p, out)
        if t.op == "Lit":
            s2 = st.clone()
            p = t.a[2]
            for cs in engine.lit_sets(t.a[0], t.a[1]):
                s2.K[p] = s2.k(p) & cs
                p = engine.Next(p)
            s3 = st.clone()
            s3.memo[(("lit", t.a[0], t.a[1]), t.a[2])] = "err"
            return engine.mk_lit(t.a[0], t.a[1], t.a[2], self.run(s, i, s2), self.run(s, i, s3))
        if t.op == "Cond":
            out = []
            for l, _ in t.a[1]:
                s2 = st.clone()
                s2.cond[t.a[0]] = l
                out.append((l, self.run(s, i, s2)))
            return engine.mk_cond(t.a[0], tuple(out))
        labels = ("ok", "err", "fail") if t.op == "Call" else ("ok", "abort", "fail")
        kind = "nt" if t.op == "Call" else "star"
        out = []
        for l, x in zip(labels, t.a[2:]):
            if x is None:
                out.append(None)
                continue
            s2 = st.clone()
            s2.memo[((kind, t.a[0]), t.a[1])] = l
            if l == "ok" and kind == "star":
                self.e.stars_at.setdefault(t.a[1], {})[t.a[0]] = 1
                p2 = engine.After(t.a[1], t.a[0])
                s2.K[p2] = s2.k(p2) - self.e.body_sets(t.a[0])[1]
            if l == "ok" and kind == "nt":
                p2 = engine.After(t.a[1], T("NT", t.a[0]))
                s2.K[p2] = s2.k(p2) & self.nts[t.a[0]].post
            out.append(self.run(s, i, s2))
        if all(x is None or x is SAME for x in out):
            return SAME
        return T(t.op, t.a[0], t.a[1], *out)


def agrees(j):
    return all(l.op in ("Same", "Dead") for l in leaves(j))


class Compare:
    def __init__(self, g):
        self.g = g
        self.canon = Canon(g.S.e)
        self.joint = Joint(g)
        self.results = {}
        self.budget = [8 * refine.Unroll.LIMIT]

    def both(self, name, expand=(), own=()):
        g = self.g
        for side in (g.S, g.I):
            side.e.expand = {n: g.spec.vals[n] for n in expand}
            side.e.own = set(own)
        try:
            return g.S.probe(name), g.I.probe(name)
        finally:
            for side in (g.S, g.I):
                side.e.expand = {}
                side.e.own = set()

    def same(self, s, i):
        if unks(s) or unks(i):
            return None
        if s is i:
            return "identical"
        if self.canon.top(s) is self.canon.top(i):
            return "same normal form"
        return None

    def try_at(self, name, expand, own):
        """(how, S, I, joint tree)"""
        if expand or own:
            s, i = self.both(name, expand, own)
        else:
            s, i = self.g.S.trees[name], self.g.I.trees[name]
        how = self.same(s, i)
        if how:
            return how, s, i, None
        j = self.joint.run(name, expand, own)
        if any(l.op == "Unk" for l in leaves(j)):
            # the walk over the finished trees needs less
            w = Walk(self.g.nts, self.joint).run(self.canon.top(s), self.canon.top(i), St())
            j = w
        if agrees(j):
            return "no joint end disagrees", s, i, j
        return None, s, i, j

    def rule(self, name, own=()):
        g = self.g
        how, s, i, j = self.try_at(name, (), own)
        if how:
            return Result(name, True, how, s, i)
        first = (s, i, j)
        tries = [first]
        # a rule used in place on one side, called on the other
        expand = set()
        for _ in range(5):
            cs, ci = called(s), called(i)
            new = {n for n in cs - ci if n in g.nts} - expand - {name}
            if not new:
                new = {n for n in ci - cs if n in g.nts} - expand - {name}
            if not new:
                break
            expand |= new
            how, s, i, j = self.try_at(name, expand, own)
            if how:
                return Result(name, True, how + " with %s in place" % ", ".join(sorted(expand)), s, i)
            if unks(s):
                break
            tries.append((s, i, j))
        s, i, j = first
        r = Result(name, False, "", s, i, j, unks(i))
        if all(l.op in ("Same", "Dead", "Unk") for l in leaves(j)):
            r.equal = None
            return r
        for s, i, _ in tries:
            v, how = self.second(s, i)
            if v is not False:
                r.equal = v
                r.how = how
                if v is None:
                    r.unk = r.unk + [how]
                    continue
                break
        return r

    def second(self, s, i):
        """a closer look at a disagreement: (verdict, how)"""
        if not hasattr(self, "feas"):
            self.feas = refine.Feasible(self.joint.e, self.canon, self.g.S.trees)
        s, i = self.canon.top(s), self.canon.top(i)
        v = self.walk(s, i)
        if v:
            return True, "no possible path disagrees"
        if v is None:
            return None, "a difference that depends on functions nothing is known about"
        x, y = refine.stars(s), refine.stars(i)
        odd = x ^ y
        if not odd:
            return False, ""
        bx, by = {b for b, _ in x}, {b for b, _ in y}
        picks = [lambda b, p: (b, p) in odd or (b, p) not in x or (b, p) not in y]
        if bx != by:
            picks.insert(0, lambda b, p: b not in bx or b not in by)
        for pick in picks:
            for n in range(refine.ROUNDS, 0, -1):
                try:
                    v = self.walk(s, i, refine.Unroll(self.canon, pick, n, self.budget))
                except (refine.Out, RecursionError):
                    continue
                if v is False:
                    break
                return None, "other repetitions, the same for up to %d rounds" % n
        return False, ""

    def walk(self, s, i, unroll=None):
        w = Walk(self.g.nts, self.joint)
        w.unroll = unroll
        seen = set()
        w.collect(s, seen)
        w.collect(i, seen)
        self.joint.e.deep = True
        try:
            v = refine.Second(w, self.feas, CHANGING | PARTS).run(s, i, St())
        finally:
            self.joint.e.deep = False
        if unroll is not None and w.steps > w.LIMIT:
            raise refine.Out
        return v

    def run(self):
        g = self.g
        for n in g.rules:
            if g.body(n):
                self.results[n] = self.rule(n)
        # a changed internal rule whose callers make up for the change
        for n in [n for n, r in self.results.items() if not r.equal]:
            if self.exported(n):
                continue
            callers = self.callers(n)
            if not callers or n in callers:
                continue
            rs = [self.rule(c, own={n}) for c in sorted(callers)]
            if all(r.equal for r in rs):
                for r in rs:
                    if not self.results[r.name].equal:
                        r.how += " together with " + n
                        self.results[r.name] = r
                r = self.results[n]
                r.equal = True
                r.how = "together with its callers " + ", ".join(sorted(callers))
        return self.results

    def exported(self, n):
        return self.g.body(n)["effvis"]

    def callers(self, n):
        out = set()
        for m in self.g.rules:
            if self.g.body(m) and (n in self.g.S.touch.get(m, ()) or n in self.g.I.touch.get(m, ())):
                out.add(m)
        return out
