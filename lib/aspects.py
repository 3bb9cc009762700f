"""What the disagreements of a joint tree are about."""
import engine
from charset import CharSet, EOFSET, ASCII
from engine import kids, LEAF
from terms import T

WS = CharSet.of(" ", "\t", "\r", "\n", "#")
LETTERS = CharSet.of(("a", "z"), ("A", "Z"))


def nodes(tree):
    seen = set()
    st = [tree]
    while st:
        t = st.pop()
        if t is None or t in seen:
            continue
        seen.add(t)
        yield t
        if t.op in ("Sw", "Cond"):
            st.extend(x for _, x in t.a[1])
        elif t.op == "Lit":
            st.extend(t.a[3:])
        elif t.op in ("Call", "Star"):
            st.extend(t.a[2:])


def edges(t):
    if t.op in ("Sw", "Cond"):
        for l, x in t.a[1]:
            yield l, x
    elif t.op == "Lit":
        for l, x in zip(("match", "no match"), t.a[3:]):
            yield l, x
    elif t.op in ("Call", "Star"):
        for l, x in zip(("match", "no match", "failure"), t.a[2:]):
            if x is not None:
                yield l, x


def diffs(tree):
    """Diff leaf -> the tests right above it: (node, label)"""
    out = {}
    for t in nodes(tree):
        if t.op == "Diff":
            out.setdefault(t, [])
        for l, x in edges(t):
            if x.op == "Diff":
                out.setdefault(x, []).append((t, l))
    return out


def path_to(tree, leaf):
    """one path from the root to leaf: [(node, label)]"""
    prev = {tree: None}
    st = [tree]
    while st:
        t = st.pop(0)
        if t is leaf:
            break
        for l, x in edges(t):
            if x not in prev:
                prev[x] = (t, l)
                st.append(x)
    out = []
    t = leaf
    while prev.get(t) is not None:
        t, l = prev[t]
        out.append((t, l))
    out.reverse()
    return out


def wsbody(b):
    """does a repetition take only white space and comments?"""
    if b.op != "Body":
        return False
    t = b.a[1]
    if t.op != "Sw":
        return False
    ok = CharSet()
    for cs, x in t.a[1]:
        if x.op not in ("Err", "Abort", "Fail"):
            ok = ok | cs
    return ok <= WS


def chain(p):
    out = []
    while p.op in ("Next", "After"):
        out.append(p)
        p = p.a[0]
    out.append(p)
    return out


def ws_chars(cs):
    return cs <= (WS | EOFSET) and bool(cs & WS)


def about_ws(tree, d, ups):
    a, b = d.a
    for t, l in ups:
        if t.op == "Sw":
            others = CharSet()
            for cs, _ in t.a[1]:
                others = others | cs
            if ws_chars(l) or ws_chars(others - l) or (len(t.a[1]) == 2 and any(ws_chars(cs) for cs, _ in t.a[1])):
                return True
        if t.op == "Star" and wsbody(t.a[0]):
            return True
        if t.op == "Cond" and "Moved" in str(t.a[0])[:12]:
            return True
    if a.op == b.op == "Ok" and a.a[0] is not b.a[0]:
        x, y = set(chain(a.a[0])), set(chain(b.a[0]))
        d1 = [p for p in x ^ y]
        if any(p.op == "After" and wsbody(p.a[1]) for p in d1):
            return True
    return False


def ws_tests(tree, d, ups):
    return about_ws(tree, d, ups)


def about_case(tree, d, ups, deep):
    """a keyword, or single letters, decided the disagreement"""
    for t, l in ups:
        if t.op == "Lit" and any(c.isalpha() for c in t.a[0]):
            return True
        if t.op == "Sw":
            for cs, _ in t.a[1]:
                if cs.size() <= 60 and (cs & LETTERS) and not (LETTERS <= cs):
                    return True
                if cs.size() <= 8 and not (cs & ASCII) and not (cs & EOFSET):
                    return True
    return False


def fragments(v, out, seen):
    if v in seen:
        return
    seen.add(v)
    if v.op == "Text":
        out.add(v)
        return
    if v.op == "App" and not v.a[0].startswith("parse"):
        out.add(v)
    for x in kids(v):
        fragments(x, out, seen)


def about_rest(d):
    a, b = d.a
    if a.op == b.op == "Ok":
        if a.a[0] is not b.a[0]:
            return "stops at another place"
        x, y = set(), set()
        fragments(a.a[1], x, set())
        fragments(b.a[1], y, set())
        if x != y:
            return "stores another part of the text"
    return None


def off_chain(tree):
    """values built from text that the rule did not take: [(value, end position)]"""
    out = []
    for t in nodes(tree):
        if t.op != "Ok":
            continue
        ps = set(chain(t.a[0]))
        keys = {(p.a[0], p.a[1].op if p.a[1].op == "Body" else p.a[1]) for p in ps if p.op == "After"}
        seen = set()
        st = [t.a[1]]
        while st:
            v = st.pop()
            if v in seen:
                continue
            seen.add(v)
            bad = False
            if v.op == "V":
                bad = (v.a[1], T("NT", v.a[0])) not in keys
            elif v.op == "Text":
                bad = v.a[0] not in ps or v.a[1] not in ps
            elif v.op == "C":
                bad = v.a[0] not in ps or engine.Next(v.a[0]) not in ps
            elif v.op == "L":
                bad = v.a[1] not in ps or (v.a[1], "Body") not in keys
            if bad:
                out.append((v, t.a[0]))
            if v.op in ("V", "Text", "C", "L"):
                continue
            st.extend(kids(v))
    return out


SHOWN = ("bin-", "len-", "nonempty", "parse", "cast", "un-", "overflow-")


def unmodelled(v, seen=None):
    """does v apply a function the models say nothing about?"""
    seen = set() if seen is None else seen
    if v in seen:
        return False
    seen.add(v)
    if v.op == "App" and not v.a[0].startswith(SHOWN):
        return True
    return any(unmodelled(x, seen) for x in kids(v))


def sure(tree):
    """leaves reached without an answer of a function the models say nothing about"""
    out = set()
    seen = set()
    st = [tree]
    while st:
        t = st.pop()
        if t is None or t in seen:
            continue
        seen.add(t)
        if t.op in LEAF:
            out.add(t)
        if t.op == "Cond" and unmodelled(t.a[0]):
            continue
        st.extend(x for _, x in edges(t))
    return out


def parents(v, up, out, seen):
    """rule value -> the constructor fields it is put into"""
    if (v, up) in seen:
        return
    seen.add((v, up))
    if v.op == "V":
        out.setdefault(v.a[0], set()).add(up)
        return
    for i, x in enumerate(v.a):
        if isinstance(x, T):
            if v.op in ("Cons", "App2", "Tup") or (v.op == "L"):
                u = up
            elif v.op == "Adt":
                u = (v.a[0], v.a[1], i)
            else:
                u = (v.op, str(v.a[0])[:40] if not isinstance(v.a[0], T) else "", i)
            if v.op == "L" and i == 1:
                continue
            parents(x, u, out, seen)
        elif isinstance(x, tuple):
            for y in x:
                for z in (y if isinstance(y, tuple) else (y,)):
                    if isinstance(z, T):
                        parents(z, up, out, seen)


def concerned(d, ups):
    """rules whose value, or whose being tried, the disagreement is about"""
    a, b = d.a
    out = set()
    if a.op == b.op == "Ok":
        x, y = {}, {}
        parents(a.a[1], None, x, set())
        parents(b.a[1], None, y, set())
        out |= {n for n in set(x) | set(y) if x.get(n) != y.get(n)}
    if a.op != b.op or a.op == "Ok" and a.a[0] is not b.a[0]:
        for t, l in ups:
            if t.op == "Call":
                out.add(t.a[0])
    return out
