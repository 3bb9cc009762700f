"""A second look at disagreements.

  Feasible   can any input take the path to a disagreement?  The rules whose outcome the path
             assumes are evaluated on the sets of characters the path knows: an outcome they
             cannot have makes the path impossible.
  unroll     repetitions that only one side has are written out for up to a few rounds; where
             the rounds agree, the repetitions are different but no difference is shown.
"""
import engine
from charset import CHARS, EMPTY, UNIVERSE
from engine import After, Next, T, TREE, kids, leaves, lit_sets, unk, DEAD
from terms import P0, NIL, Cons, UNIT

ROUNDS = 6
BOUND = T("Dead", "more rounds")


class Out(Exception):
    pass


def part(t, v, val):
    """what a condition about v says of val: a number; None: not known"""
    def ev(t):
        if t is v:
            return val
        if t.op == "Fld":
            x = ev(t.a[2])
            if x is None or x.op not in ("Adt", "Tup"):
                return None
            if x.op == "Tup":
                return x.a[t.a[1]] if t.a[1] < len(x.a) else None
            return x.a[2 + t.a[1]] if x.a[1] == t.a[0] or t.a[0] is None and 2 + t.a[1] < len(x.a) else None
        return None
    x = ev(t.a[0])
    if x is None:
        return None
    if t.op == "Discr":
        return x.a[1] if x.op == "Adt" else None
    if t.op == "NonEmpty":
        return {"Cons": 1, "Nil": 0}.get(x.op)
    return None


def root_len(p):
    n = 0
    while p.op in ("Next", "After"):
        n += 1
        p = p.a[0]
    return n


class Feasible:
    FUEL = 30000
    DEPTH = 14

    def __init__(self, e, canon, trees):
        self.e = e
        self.canon = canon
        self.trees = trees
        self.at = {}
        self.asked = 0
        self.cut = 0

    # ------------------------------------------------------------ whole path
    def check(self, st):
        """False: no input has the characters and the outcomes st tells"""
        self.asked += 1
        self.fuel = self.FUEL
        try:
            return self.facts(st.clone())
        except (Out, RecursionError):
            return True

    def values(self, st):
        """can the values rules return have all the fields the conditions of the path ask for?"""
        by = {}
        for t, l in st.cond.items():
            r = t
            while r.op in ("Discr", "NonEmpty", "Fld"):
                r = r.a[2] if r.op == "Fld" else r.a[0]
            if r.op == "V" and r is not t and r.a[0] in self.trees:
                by.setdefault(r, []).append((t, l))
        for v, asked in by.items():
            ends = list(leaves(self.trees[v.a[0]]))
            if any(l.op == "Unk" for l in ends):
                continue
            if not any(all(w is None or l == "*" or w == l for w, l in ((part(t, v, e.a[1]), l) for t, l in asked))
                       for e in ends if e.op == "Ok"):
                return False
        return True

    def facts(self, st):
        if not self.values(st):
            return False
        self.alias = {}
        told = {}
        todo = sorted([(k, p, v) for (k, p), v in st.memo.items() if k[0] in ("nt", "star")], key=lambda x: (root_len(x[1]), x[1].id))
        for k, p, v in todo:
            q = self.res(p, self.alias)
            if q is None:
                continue
            if told.setdefault((k, q), v) != v:
                return False
            K = self.e.know(st, q)
            if not K:
                return False
            s0 = st.clone()
            s0.memo.pop((k, p), None)
            s0.memo.pop((k, q), None)
            if k[0] == "nt":
                if k[1] not in self.trees:
                    continue
                outs = self.rule(k[1], q, s0, 0)
                key = T("NT", k[1])
            else:
                outs = self.star(k[1], q, s0, 0)
                key = k[1]
            want = {"abort": "err"}.get(v, v)
            outs = [(o, e) for o, e in outs if o == want or o == "any"]
            if not outs:
                return False
            if want != "ok":
                continue
            p2 = After(p, key)
            K2 = self.e.know(st, p2)
            ends = {e for o, e in outs}
            if None in ends:
                continue
            ends = {e for e in ends if self.e.know(st, e) & K2}
            if not ends:
                return False
            if len(ends) == 1:
                e = ends.pop()
                if e is not After(q, key):
                    self.alias[After(q, key)] = e
                    # what is known of positions that turn out to be the same
                    for x, k in list(st.K.items()):
                        y = self.res(x, self.alias)
                        if y is not None and y is not x:
                            st.K[y] = st.k(y) & k
                            if not st.K[y]:
                                return False
        return True

    def res(self, p, alias):
        """the position p is, given what is known of the ends of rules; None: not known"""
        if p.op == "Next":
            q = self.res(p.a[0], alias)
            r = None if q is None else Next(q)
        elif p.op == "After":
            q = self.res(p.a[0], alias)
            r = None if q is None else After(q, p.a[1])
        else:
            r = p
        if r is not None and r in alias:
            return alias[r]
        return r

    # ------------------------------------------------------------ one rule, one repetition
    def tick(self):
        self.fuel -= 1
        if self.fuel < 0:
            raise Out

    def placed(self, tree, root, p):
        k = (tree, root, p)
        r = self.at.get(k)
        if r is None:
            r = self.at[k] = self.canon.subst(tree, {root: p}, {})
        return r

    def rule(self, name, p, st, depth):
        m = st.memo.get((("nt", name), p))
        if m is not None:
            return {(m, After(p, T("NT", name)))} if m == "ok" else {(m, None)}
        t = self.trees.get(name)
        info = self.e.nts.get(name)
        K = self.e.know(st, p)
        if t is None or info is None or depth > self.DEPTH:
            return {("any", None)}
        if not info.nullable and not (K & info.first):
            return {("err", None)}
        if K == UNIVERSE:
            out = {("ok", After(p, T("NT", name)))}
            if not info.total:
                out.add(("err", None))
            if info.canfail:
                out.add(("fail", None))
            return out
        return self.ev(self.placed(t, P0(0), p), {}, st, depth + 1)

    def star(self, body, p, st, depth):
        out = set()
        seen = set()
        front = [p]
        while front:
            q = front.pop()
            if q in seen:
                continue
            seen.add(q)
            self.tick()
            if q is None or len(seen) > 60:
                out.add(("ok", None))
                continue
            K = self.e.know(st, q)
            first = self.e.body_sets(body)[0]
            kinds = {l.op for l in leaves(body.a[1])}
            if not (K & first) and "Fail" not in kinds and "Abort" not in kinds:
                out.add(("ok", q))
                continue
            if K == UNIVERSE:
                out.add(("ok", None))
                if "Fail" in kinds:
                    out.add(("fail", None))
                if "Abort" in kinds:
                    out.add(("err", None))
                continue
            for o, e in self.ev(self.placed(body.a[1], body.a[0], q), {}, st, depth + 1):
                if o == "ok":
                    front.append(e)
                elif o == "err":
                    out.add(("ok", q))
                elif o == "abort":
                    out.add(("err", None))
                elif o == "any":
                    return {("any", None)}
                else:
                    out.add((o, None))
        return out

    def ev(self, n, alias, st, depth):
        """{(outcome, end)}"""
        self.tick()
        if n is None:
            return set()
        op = n.op
        if op == "Ok":
            return {("ok", self.res(n.a[0], alias))}
        if op in ("Err", "Fail", "Abort"):
            return {(op.lower(), None)}
        if op not in TREE or op in ("Unk", "Panic"):
            return {("any", None)}
        if op == "Dead":
            return set()
        out = set()
        if op == "Sw":
            q = self.res(n.a[0], alias)
            if q is None:
                for _, x in n.a[1]:
                    out |= self.ev(x, alias, st, depth)
                return out
            K = self.e.know(st, q)
            live = [(cs & K, x) for cs, x in n.a[1] if cs & K]
            for cs, x in live:
                s2 = st
                if len(live) > 1:
                    s2 = st.clone()
                    s2.K[q] = cs
                out |= self.ev(x, alias, s2, depth)
            return out
        if op == "Lit":
            s, nc, p, ok, err = n.a
            q = self.res(p, alias)
            yes, no = True, False
            s2 = st
            if q is None:
                no = True
            else:
                if st.memo.get((("lit", s, nc), q)) == "err":
                    yes, no = False, True
                else:
                    s2 = st.clone()
                    for cs in lit_sets(s, nc):
                        k = self.e.know(st, q)
                        if not (k & cs):
                            yes, no = False, True
                            break
                        if not k <= cs:
                            no = True
                        s2.K[q] = k & cs
                        q = Next(q)
            if yes:
                out |= self.ev(ok, alias, s2, depth)
            if no:
                out |= self.ev(err, alias, st, depth)
            return out
        if op == "Cond":
            for _, x in n.a[1]:
                out |= self.ev(x, alias, st, depth)
            return out
        key = T("NT", n.a[0]) if op == "Call" else n.a[0]
        q = self.res(n.a[1], alias)
        if q is None:
            outs = {("any", None)}
        elif op == "Call":
            outs = self.rule(n.a[0], q, st, depth)
        elif st.memo.get((("star", n.a[0]), q)) == "ok":
            outs = {("ok", After(q, key))}
        else:
            outs = self.star(n.a[0], q, st, depth)
        for o, e in outs:
            if o in ("ok", "any"):
                a2 = alias
                p2 = After(q, key) if q is not None else None
                if p2 is not None and e is not p2:
                    a2 = dict(alias)
                    a2[p2] = e
                out |= self.ev(n.a[2], a2, st, depth)
            if o in ("err", "any", "abort"):
                out |= self.ev(n.a[3], alias, st, depth)
            if o in ("fail", "any"):
                out |= self.ev(n.a[4], alias, st, depth)
        return out


# ---------------------------------------------------------------- repetitions written out
class Unroll:
    LIMIT = 200000

    def __init__(self, canon, pick, rounds=ROUNDS, budget=None):
        self.canon = canon
        self.pick = pick          # (body, position) -> write it out?
        self.rounds = rounds
        self.steps = 0
        self.budget = [10 * self.LIMIT] if budget is None else budget     # shared by all of a comparison
        self.cache = {}

    def __call__(self, n):
        """the repetition n written out; None: stays as it is"""
        if not self.pick(n.a[0], n.a[1]):
            return None
        r = self.cache.get(n)
        if r is None:
            r = self.cache[n] = self.write(n)
        return r

    def write(self, n):
        body, pos, nxt, ab, fl = n.a
        vbs = set()
        self.lists(nxt, pos, body, vbs, set())
        if len(vbs) > 1:
            raise Out
        vb = vbs.pop() if vbs else body
        def cost(n):
            self.steps += n
            self.budget[0] -= n
            if self.steps > self.LIMIT or self.budget[0] < 0:
                raise Out

        def rounds(k, p, items):
            t = self.canon.subst(vb.a[1], {vb.a[0]: p}, {})

            def leaf(l):
                if l.op == "Ok":
                    if k == 0:
                        return BOUND
                    return rounds(k - 1, l.a[0], items + [l.a[1]])
                if l.op == "Err":
                    lst = NIL
                    for x in reversed(items):
                        lst = Cons(x, lst)
                    c = {}
                    r = self.canon.subst(nxt, {After(pos, body): p, T("L", vb, pos): lst}, c)
                    cost(len(c))
                    return r
                if l.op == "Abort":
                    return ab if ab is not None else engine.ERR
                if l.op == "Fail":
                    return fl if fl is not None else engine.FAIL
                return l
            cost(50)
            return engine.map_leaves(t, leaf)
        return rounds(self.rounds, pos, [])

    def lists(self, t, p, body, out, seen):
        if t in seen:
            return
        seen.add(t)
        if t.op == "L" and t.a[1] is p and self.canon.rec(t.a[0]) is body:
            out.add(t.a[0])
        for x in kids(t):
            self.lists(x, p, body, out, seen)


# functions whose answer can be either, whatever else holds
FREE = set("""contains ends_with starts_with eq ne len count is_empty any all cmp partial_cmp lt le gt ge is_ascii find
rfind position rposition matches char_indices last max min sum product is_some is_none is_ok is_err is_char_boundary
eq_ignore_ascii_case any-of all-of capacity is_nan is_finite is_infinite""".split())

LOOKS = {"any", "all", "find", "rfind", "position", "rposition"}


def free(term, also=()):
    """may the condition come out either way?"""
    seen = set()
    st = [term]
    while st:
        v = st.pop()
        if v in seen:
            continue
        seen.add(v)
        if v.op == "Discr" and v.a[0].op == "App" and v.a[0].a[0].split("::")[-1] in ("next", "next_back"):
            return False        # how many items something yields
        if v.op == "App":
            n = v.a[0]
            if n.startswith("changed-by-"):
                n = n[len("changed-by-"):]
            if not n.startswith(("bin-", "len-", "nonempty", "parse", "cast", "un-", "overflow-")) and \
                    n.split("::")[-1] not in FREE and n.split("::")[-1] not in also:
                return False
            if n.split("::")[-1] in LOOKS and any(x.op in ("Clo", "Fn") for x in v.a[1:]) and \
                    any(x.op in ("CharIdx", "Chars", "Rest") for y in v.a[1:] for x in (y, *kids(y))):
                return False        # what it says depends on the characters
        st.extend(kids(v))
    return True


class Found(Exception):
    pass


class Second:
    """walk both trees again; only disagreements an input can reach count"""

    def __init__(self, walk, feas, also=()):
        self.w = walk
        self.also = also
        self.f = feas
        self.inner = walk.leaf
        walk.leaf = self.leaf
        self.unsure = 0
        self.dropped = 0

    def leaf(self, a, b, st):
        r = self.inner(a, b, st)
        if not any(l.op == "Diff" for l in leaves(r)):
            return r
        if not self.f.check(st):
            self.dropped += 1
            return engine.DEAD
        if any(not free(t, self.also) and not self.loose(t, st) for t in st.cond):
            self.unsure += 1
            return r
        raise Found

    def loose(self, t, st):
        """can a text that a repetition of characters matched have a character of a set, and can it have none?

        So it is when nothing but the repetition looks at where the text starts."""
        if t.op != "App" or t.a[0] != "any-of-text" or t.a[1].op != "Text":
            return False
        p, q = t.a[1].a
        if q.op != "After" or q.a[0] is not p or q.a[1].op != "Body":
            return False
        at = self.places.get(p, ())
        b = q.a[1].a[1]
        if len(at) != 1 or b.op != "Sw" or sum(1 for x in st.cond if x.op == "App" and x.a[0] == "any-of-text") != 1:
            return False
        cs = EMPTY
        for c, l in b.a[1]:
            if l.op == "Ok" and l.a[0] is Next(b.a[0]):
                cs = cs | c
            elif l.op != "Err":
                return False
        cs = cs & CHARS
        return bool(cs & t.a[2].a[0]) and bool(cs - t.a[2].a[0])

    def look(self, *trees):
        """what is tried where"""
        self.places = {}
        seen, st = set(), list(trees)
        while st:
            x = st.pop()
            if x is None or x in seen:
                continue
            seen.add(x)
            if x.op == "Star":
                self.places.setdefault(x.a[1], set()).add(x.a[0])
                st.extend(x.a[2:])
            elif x.op == "Call":
                self.places.setdefault(x.a[1], set()).add(x.a[0])
                st.extend(x.a[2:])
            elif x.op == "Sw":
                self.places.setdefault(x.a[0], set()).add("Sw")
                st.extend(y for _, y in x.a[1])
            elif x.op == "Cond":
                st.extend(y for _, y in x.a[1])
            elif x.op == "Lit":
                self.places.setdefault(x.a[2], set()).add(x.a[0])
                st.extend(x.a[3:])

    def run(self, s, i, st):
        """True: no disagreement is possible; None: none shown; False: there is one"""
        self.look(s, i)
        try:
            j = self.w.run(s, i, st)
        except Found:
            return False
        if self.unsure:
            return None
        if any(l.op == "Unk" for l in leaves(j)):
            return None
        return True


def stars(t):
    out = set()
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x is None or x in seen:
            continue
        seen.add(x)
        if x.op == "Star":
            out.add((x.a[0], x.a[1]))
        if x.op in ("Sw", "Cond"):
            st.extend(y for _, y in x.a[1])
        elif x.op == "Lit":
            st.extend(x.a[3:])
        elif x.op in ("Call", "Star"):
            st.extend(x.a[2:])
    return out
