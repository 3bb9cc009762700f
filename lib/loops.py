"""Loops of the analysed source, summarised.

  cursor loop   state moves along the input: one round, from an arbitrary position, gives the
                body of a repetition; the loop is that repetition followed by one round that leaves
  list loop     over a list whose items are known: unrolled; over the result of a repetition: item by item
Anything else is left undecided.
"""
import engine
from engine import ERR, DEAD, St, leaves, kids, unk
from terms import App, Cat, piece, T, P0, After, NIL, Text, append, UNIT, Tup, Int, Str, Cons

TEXTS = ("Str", "Text", "Cat")
LISTS = ("Nil", "Cons", "App2", "L")


class Entry:
    __slots__ = ("head", "blocks", "onback", "onexit")

    def __init__(self, head, blocks, onback, onexit):
        self.head = head
        self.blocks = blocks
        self.onback = onback
        self.onexit = onexit


class Info:
    """blocks of a loop; locals it assigns or lends mutably; locals read before they are set again"""

    def __init__(self, b, head):
        bl = b["blocks"]
        n = len(bl)
        succ = [engine.succs(x["t"]) for x in bl]
        pred = [[] for _ in range(n)]
        for u in range(n):
            for v in succ[u]:
                pred[v].append(u)
        fwd = reach(head, succ)
        bwd = reach(head, pred)
        self.blocks = frozenset(fwd & bwd)
        self.assigned = set()
        self.iters = set()
        refs = {}
        for u in self.blocks:
            for s in bl[u]["s"]:
                if s[0] == "=":
                    self.assigned.add(s[1][0])
                    r = s[2]
                    if r[0] in ("ref", "rawptr") and (r[0] == "rawptr" or r[2]):
                        self.assigned.add(r[1][0])
                        if not s[1][1]:
                            refs[s[1][0]] = r[1][0]
            t = bl[u]["t"]
            if t[0] == "call":
                self.assigned.add(t[3][0])
        for u in self.blocks:
            t = bl[u]["t"]
            if t[0] == "call" and t[1][0] == "const" and t[1][1].get("k") == "fn":
                f = t[1][1]["fn"]
                if f.get("method") in ("next",) or f["path"].split("::")[-1] == "next":
                    o = t[2][0]
                    if o[0] in ("copy", "move"):
                        x = o[1][0]
                        while x in refs and refs[x] != x:
                            x = refs[x]
                        self.iters.add(x)
        self.live = live_in(b, head, succ)


def reach(a, succ):
    seen = {a}
    st = [a]
    while st:
        u = st.pop()
        for v in succ[u]:
            if v not in seen:
                seen.add(v)
                st.append(v)
    return seen


def uses(x, out):
    """locals read by an operand, rvalue or terminator part"""
    if isinstance(x, (list, tuple)):
        if x and x[0] in ("copy", "move") and len(x) == 2 and place(x[1]):
            use_place(x[1], out)
            return
        if x and x[0] in ("ref", "discr", "rawptr", "len", "copyforderef", "tls") and len(x) > 1 and place(x[1]):
            use_place(x[1], out)
            for y in x[2:]:
                uses(y, out)
            return
        for y in x:
            uses(y, out)


def place(x):
    return isinstance(x, (list, tuple)) and len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], (list, tuple))


def use_place(p, out):
    out.add(p[0])
    for pr in p[1]:
        if pr[0] == "index":
            out.add(pr[1])


def live_in(b, head, succ):
    bl = b["blocks"]
    gen, kill = [], []
    for x in bl:
        g, k = set(), set()

        def define(p):
            if p[1]:
                u = set()
                use_place(p, u)
                g.update(u - k)
            else:
                k.add(p[0])
        for s in x["s"]:
            if s[0] == "=":
                u = set()
                uses(s[2], u)
                g |= u - k
                define(s[1])
        t = x["t"]
        u = set()
        if t[0] == "call":
            uses([t[1]] + list(t[2]), u)
            g |= u - k
            define(t[3])
        elif t[0] == "return":
            g |= {0} - k
        elif t[0] in ("switch", "assert"):
            uses(t[1], u)
            g |= u - k
        gen.append(g)
        kill.append(k)
    live = [set() for _ in bl]
    ch = True
    while ch:
        ch = False
        for i in range(len(bl) - 1, -1, -1):
            o = set()
            for v in succ[i]:
                o |= live[v]
            n = gen[i] | (o - kill[i])
            if n != live[i]:
                live[i] = n
                ch = True
    return frozenset(live[head])


def info(e, b, head):
    c = e.__dict__.setdefault("_loopinfo", {})
    k = (b["path"], head)
    if k not in c:
        c[k] = Info(b, head)
    return c[k]


# ---------------------------------------------------------------- values
def refs_in(v, out, seen):
    if v in seen:
        return
    seen.add(v)
    if v.op == "RefMut":
        out.add((v.a[0], v.a[1]))
        return
    if v.op in ("Body", "After", "Next"):
        return
    for x in kids(v):
        refs_in(x, out, seen)


def cursors(v, out, seen):
    """positions at which v stands"""
    if v in seen:
        return
    seen.add(v)
    if v.op == "Rest":
        out.add(v.a[0])
    elif v.op == "CharIdx":
        out.add(v.a[1])
    elif v.op in ("Chars", "Tup", "Adt"):
        for x in kids(v):
            cursors(x, out, seen)


def depth_of(p):
    n = 0
    while p.op in ("Next", "After"):
        p = p.a[0]
        n += 1
    return n


class Mismatch(Exception):
    def __init__(self, key, value):
        self.key = key
        self.value = value


def gen(v, p, r, key, path, flags):
    """v with the cursor p replaced by r and lists replaced by unknown ones"""
    if (key, path) in flags:
        if v is Int(0):
            return T("Len", Text(p, r))
        if v.op == "Str" and v.a[0] == "":
            return Text(p, r)
    if v.op in LISTS:
        return T("Acc", key, path)
    if v.op == "Rest":
        return T("Rest", r) if v.a[0] is p else v
    if v.op == "CharIdx":
        return T("CharIdx", v.a[0], r) if v.a[1] is p else v
    if v.op == "Text":
        return Text(v.a[0], r) if v.a[1] is p else v
    if v.op in ("Chars", "Len"):
        x = gen(v.a[0], p, r, key, path, flags) if v.a[0].op in ("Rest", "Text") else v.a[0]
        return T(v.op, x)
    if v.op in ("Tup", "Adt"):
        xs = [gen(x, p, r, key, path + (i,), flags) if isinstance(x, T) else x for i, x in enumerate(v.a)]
        return T(v.op, *xs)
    return v


def inst(t, r, q, accs):
    """a generalised value, at cursor q and with known lists"""
    if t is r:
        return q
    if t.op == "Acc":
        return accs[t]
    if t.op == "Text":
        return Text(t.a[0], q) if t.a[1] is r else t
    if t.op in ("Rest", "CharIdx", "Chars", "Len", "Tup", "Adt"):
        xs = [inst(x, r, q, accs) if isinstance(x, T) else x for x in t.a]
        if t.op == "Len" and xs[0].op == "Str":
            return Int(len(xs[0].a[0].encode()))
        return T(t.op, *xs)
    return t


def match(t, v, r, key, bind, pushes):
    """v as an instance of the generalised value t"""
    if t.op == "Acc":
        if v is t:
            pushes[t] = []
            return
        if v.op == "App2" and v.a[0] is t:
            xs = []
            y = v.a[1]
            while y.op == "Cons":
                xs.append(y.a[0])
                y = y.a[1]
            if y is NIL:
                pushes[t] = xs
                return
        if v.op == "Cat" and v.a[0] is t and not any(mentions(x, t) for x in v.a[1:]):
            pushes[t] = [Cat(*v.a[1:])]
            return
        raise Mismatch(key, v)
    if t is v:
        if mentions(t, r):
            bindto(r, r, key, bind)
        return
    if t.op != v.op or len(t.a) != len(v.a):
        raise Mismatch(key, v)
    if t.op in ("Rest",):
        if t.a[0] is not r:
            raise Mismatch(key, v)
        return bindto(r, v.a[0], key, bind)
    if t.op in ("CharIdx", "Text"):
        if t.a[0] is not v.a[0] or t.a[1] is not r:
            raise Mismatch(key, v)
        return bindto(r, v.a[1], key, bind)
    if t.op in ("Chars", "Len", "Tup", "Adt"):
        for x, y in zip(t.a, v.a):
            if isinstance(x, T) and isinstance(y, T):
                match(x, y, r, key, bind, pushes)
            elif x != y:
                raise Mismatch(key, v)
        return
    raise Mismatch(key, v)


def mentions(t, r):
    return engine.mentions(t, r)


def bindto(r, q, key, bind):
    if bind.setdefault(r, q) is not q:
        raise Mismatch(key, q)


def foreign(tree, r, seen):
    """a test, outside bodies, of a position that does not come after r, or of an unknown list"""
    def bad(x, seen2):
        if x in seen2:
            return False
        seen2.add(x)
        if x.op in ("Acc", "Elem"):
            return True
        if x.op == "P0":
            return x is not r and x.a[0] < r.a[0]
        if x.op in ("Body",):
            return False
        if x.op == "After":
            return bad(x.a[0], seen2)
        return any(bad(y, seen2) for y in kids(x))
    st = [tree]
    while st:
        t = st.pop()
        if t is None or t in seen:
            continue
        seen.add(t)
        if t.op == "Sw":
            if bad(t.a[0], set()):
                return True
            st.extend(x for _, x in t.a[1])
        elif t.op == "Cond":
            if bad(t.a[0], set()):
                return True
            st.extend(x for _, x in t.a[1])
        elif t.op == "Lit":
            if bad(t.a[2], set()):
                return True
            st.extend(t.a[3:])
        elif t.op in ("Call", "Star"):
            if bad(t.a[1], set()):
                return True
            st.extend(t.a[2:])
        elif t.op == "Ok":
            if bad(t.a[0], set()):
                return True
    return False


# ---------------------------------------------------------------- the loop
def run_loop(e, b, fr, head, st, kret, back):
    i = info(e, b, head)
    e.looped.add(b["path"])
    go = lambda s: e.exec(b, fr, head, s, kret, frozenset(), back, True)
    keys = {(fr, x) for x in i.live if (fr, x) in st.store}
    todo = list(keys)
    while todo:
        k = todo.pop()
        out = set()
        refs_in(st.store[k], out, set())
        for x in out:
            if x in st.store and x not in keys:
                keys.add(x)
                todo.append(x)
    cand = sorted(k for k in keys if k[0] != fr or k[1] in i.assigned)
    its = [k for k in cand if k[0] == fr and k[1] in i.iters]
    for k in its:
        v = st.store[k]
        if v is NIL or v.op == "Cons" or v.op == "IterMut" and e.load(v.a[0], st) is NIL:
            e.tick()
            return go(st)
        if v.op == "IterMut" and e.load(v.a[0], st).op in ("L", "App2", "Cons"):
            return over_list(e, b, fr, head, st, kret, back, i, cand, k)
        if v.op in ("L", "App2") or v.op == "Chars" and v.a[0].op not in ("Rest", "Str") and \
                not (v.a[0].op == "Text" and v.a[0].a[1].op == "Next"):
            return over_list(e, b, fr, head, st, kret, back, i, cand, k)
    ps = set()
    for k in cand:
        cursors(st.store[k], ps, set())
    if not ps:
        return peel(e, b, fr, head, st, go, "no cursor")
    deep = max(depth_of(p) for p in ps)
    ps = sorted((p for p in ps if depth_of(p) == deep), key=lambda p: p.id)
    p = ps[-1]
    flags = set()
    for _ in range(4):
        try:
            return cursor_loop(e, b, fr, head, st, kret, back, i, cand, p, flags)
        except engine.FirstRound:
            return peel(e, b, fr, head, st, go, "other rounds than the first differ")
        except Mismatch as x:
            v = st.store.get(x.key)
            f = {(x.key, pt) for pt, y in parts(v, ()) if y is Int(0) or y is Str("")} - flags if v is not None else set()
            if not f:
                return peel(e, b, fr, head, st, go, "state that is neither a cursor, a list nor constant: %s"
                            % engine.show(x.value)[:120])
            flags |= f
    return unk("loop in " + b["path"])


def parts(v, path):
    yield path, v
    if v.op in ("Tup", "Adt"):
        for i, x in enumerate(v.a):
            if isinstance(x, T):
                yield from parts(x, path + (i,))


def peel(e, b, fr, head, st, go, why):
    """run one round as it is"""
    k = (fr, head)
    n = e.peels.get(k, 0)
    if n >= 2:
        return unk("loop in %s: %s" % (b["path"], why))
    e.peels[k] = n + 1
    try:
        return go(st)
    finally:
        e.peels[k] = n


def cursor_loop(e, b, fr, head, st, kret, back, i, cand, p, flags):
    e.tick()
    depth = e.depth + 1
    r = P0(depth)
    tmpl = {k: gen(st.store[k], p, r, k, (), flags) for k in cand}
    accs0 = {}

    def note(t, v):
        if t.op == "Acc":
            accs0[t] = v
        elif t.op in ("Tup", "Adt"):
            for x, y in zip(t.a, v.a):
                if isinstance(x, T):
                    note(x, y)
    for k in cand:
        note(tmpl[k], st.store[k])
    order = sorted(accs0, key=lambda a: a.id)
    problems = []
    s0 = St(dict(st.store), dict(st.K), dict(st.memo), dict(st.cond))
    s0.store.update(tmpl)

    def onback(s):
        bind, pushes = {}, {}
        for k in cand:
            match(tmpl[k], s.store[k], r, k, bind, pushes)
        q = bind.get(r, r)

        def still(s):
            problems.append("a round that takes no input")
            return unk("loop in %s: a round that takes no input" % b["path"])
        for a in order:
            if len(pushes.get(a, [])) > 1:
                raise Mismatch(a.a[0], a)
        vals = tuple(pushes[a][0] if pushes[a] else T("NoPush") for a in order)
        return e.if_moved(s, r, q, lambda s: T("Ok", q, Tup(*vals)), still)
    e.depth = depth
    base = e.base
    e.base = dict(base)
    e.base[r] = p
    try:
        tree = e.exec(b, fr, head, s0, lambda v, s: ERR, frozenset(),
                      (Entry(head, i.blocks, onback, lambda nb, s, rest: ERR),), True)
    finally:
        e.depth = depth - 1
        e.base = base
    if problems:
        e.event("nullable-repeat", b["path"])
    us = [l for l in leaves(tree) if l.op == "Unk"]
    if us:
        return us[0]
    if e.canon is not None:
        tree = e.canon.canon(T("Body", r, tree)).a[1]
    if any(l.op not in ("Ok", "Err", "Dead") for l in leaves(tree)):
        return unk("loop in %s: a round that can panic" % b["path"])
    if foreign(tree, r, set()):
        return unk("loop in %s: a round depends on earlier text" % b["path"])
    oks = [l for l in leaves(tree) if l.op == "Ok"]
    if not oks:
        # never goes round
        return e.exec(b, fr, head, st, kret, frozenset(), back, True)
    n = len(order)
    for j in range(n):
        pushed = {l.a[1].a[j] is T("NoPush") for l in oks}
        if len(pushed) > 1:
            return unk("loop in %s: a list that grows in some rounds only" % b["path"])
    rec = engine.map_leaves(tree, lambda l: T("Ok", l.a[0], UNIT) if l.op == "Ok" else l)
    rb = T("Body", r, rec)
    if e.canon is not None:
        rb = e.canon.canon(rb)
    e.loop_bodies.add(rb)
    vbs = []
    for j in range(n):
        if oks[0].a[1].a[j] is T("NoPush"):
            vbs.append(None)
            continue
        t = engine.map_leaves(tree, lambda l: T("Ok", l.a[0], l.a[1].a[j]) if l.op == "Ok" else l)
        vb = T("Body", r, t)
        vbs.append(e.canon.canon(vb) if e.canon is not None else vb)

    def ok(p2, l, s):
        accs = {}
        for a, vb in zip(order, vbs):
            more = NIL if vb is None or l is NIL else T("L", vb, p)
            accs[a] = append(accs0[a], more)
        for k in cand:
            s.store[k] = inst(tmpl[k], r, p2, accs)
        dead = Entry(head, i.blocks, lambda s: DEAD,
                     lambda nb, s, rest: e.exec(b, fr, nb, s, kret, frozenset(), rest))
        return e.exec(b, fr, head, s, kret, frozenset(), back + (dead,), True)
    return e.star_body(rb, rb, p, st, ok, None, None)


def over_list(e, b, fr, head, st, kret, back, i, cand, it, lists=()):
    """for x in list { acc.push(f(x)) }, for x in list.iter_mut() { *x = f(x) }"""
    l = st.store[it]
    cell = place = None
    if l.op == "IterMut":
        place = l.a[0]
        l = e.load(place, st)
        e.frame += 1
        cell = (e.frame, 0)
        elem = T("ElemMut", T("RefMut", e.frame, 0, ()))
    else:
        elem = T("Elem", l)
    x = T("FoldItem", l)
    tmpl = {}
    accs0 = {}
    for k in cand:
        v = st.store[k]
        if k == it:
            tmpl[k] = elem
        elif place is not None and k == tuple(place.a[:2]):
            tmpl[k] = v
        elif v.op in LISTS or v.op in TEXTS or k in lists:
            tmpl[k] = T("Acc", k, ())
            accs0[tmpl[k]] = v
        else:
            tmpl[k] = v
    s0 = St(dict(st.store), dict(st.K), dict(st.memo), dict(st.cond))
    s0.store.update(tmpl)
    if cell:
        s0.store[cell] = x
    got = []
    odd = []

    def onback(s):
        bind, pushes = {}, {}
        for k in cand:
            if k == it:
                continue
            if tmpl[k].op == "Acc":
                n = growth(s.store[k], tmpl[k])
                if n is not None:
                    pushes[tmpl[k]] = [T("Odd")] * n
                    odd.append(s.store[k])
                    continue
                if s.store[k].op == "App2" and s.store[k].a[0] is tmpl[k] and \
                        not ends(s.store[k].a[1]) and not mentions(s.store[k].a[1], tmpl[k]):
                    # several items at once
                    pushes[tmpl[k]] = s.store[k].a[1]
                    continue
            match(tmpl[k], s.store[k], P0(10 ** 6), k, bind, pushes)
        if cell:
            pushes[cell] = s.store[cell]
        got.append(pushes)
        return T("Ok", P0(0), Int(len(got) - 1))
    try:
        tree = e.exec(b, fr, head, s0, lambda v, s: ERR, frozenset(),
                      (Entry(head, i.blocks, onback, lambda nb, s, rest: ERR),), True)
        # the way out is the end of the list
    except Mismatch as m:
        if m.key in tmpl and m.key not in lists and m.value.op == "App2" and m.value.a[0] is tmpl[m.key]:
            return over_list(e, b, fr, head, st, kret, back, i, cand, it, tuple(lists) + (m.key,))
        return unk("loop in %s: folds a list into %s" % (b["path"], engine.show(m.value)[:120]))
    if not got or any(y.op != "Ok" for y in leaves(tree)):
        return unk("loop in %s: looks at the items of a list" % b["path"])

    def leave(res):
        for k in cand:
            st.store[k] = NIL if k == it else res.get(tmpl[k], tmpl[k])
        if cell:
            e.store_ref(place, res[cell], st)
        return e.exec(b, fr, head, st, kret, frozenset(), back, True)
    keys = list(accs0) + ([cell] if cell else [])
    old = lambda a: x if a is cell else NIL
    if len(got) > 1 and any(g[a] is not got[0][a] for g in got for a in keys):
        # the items are not all treated alike
        whole = plain_items(l)
        res = {}
        for a in keys:
            how = {kind(g[a], x, a is cell) for g in got}
            if len(how) == 1 and how <= {"none", "same"}:
                res[a] = l if a is cell else append(accs0[a], l) if how == {"same"} else accs0[a]
            elif "?" in how or how <= {"one", "other"} or odd and how != {"none", "one"}:
                return unk("loop in %s: looks at the items of a list" % b["path"])
            elif not chosen(tree, whole and how <= {"none", "same"}):
                return unk("loop in %s: looks at the items of a list" % b["path"])
            else:
                # some on the list as they are, others not at all or otherwise
                n = len(res)
                res[a] = App("filter", l, *([] if a is cell else [accs0[a]]), *([Int(n)] if n else []))
        return leave(res)
    if tree.op != "Ok" or odd:
        return unk("loop in %s: looks at the items of a list" % b["path"])
    res = {}
    for a, v in accs0.items():
        xs = got[0][a]
        if isinstance(xs, T) or len(xs) > 1:
            return unk("loop in %s: several pushes per item" % b["path"])
        if xs and v.op in TEXTS:
            t = texts(e, l, x, xs[0])
            if t is None:
                return unk("loop in %s: writes a text" % b["path"])
            res[a] = Cat(v, t)
            continue
        if xs and l.op == "Chars":
            return unk("loop in %s: a list of characters" % b["path"])
        res[a] = append(v, each(e, l, x, xs[0])) if xs else v
    if cell:
        res[cell] = each(e, l, x, got[0][cell])
    return leave(res)


def kind(c, x, inplace):
    """what a round does: none: leaves the list alone, same: adds the item, one: adds one that may be the same,
    other: adds something that is not just the item"""
    from compare import might_equal
    if inplace:
        return "same" if c is x else "?" if might_equal(x, c) else "other"
    if isinstance(c, T):
        n = 0
        while c.op == "Cons":
            n += 1
            c = c.a[1]
        return "other" if n > 1 or c.op == "Fld" and inside(c, x) else "?"
    if not c:
        return "none"
    if len(c) > 1:
        return "other"
    return "same" if c[0] is x else "one" if c[0].op == "Odd" else "?" if might_equal(x, c[0]) else "other"


def ends(l):
    """a list of so many items"""
    while l.op == "Cons":
        l = l.a[1]
    return l is NIL


def inside(c, x):
    """is the list c a part of x?"""
    while c is not x:
        if c.op == "Fld":
            c = c.a[2]
        elif c.op == "App" and c.a[0] == "index":
            c = c.a[1]
        else:
            return False
    return True


# functions that change items but not the length of a list
SAME_LENGTH = ("iter_mut", "last_mut", "first_mut", "get_mut", "find", "find_map", "position", "rposition", "any", "all",
               "index_mut", "sort", "reverse", "rfind", "next", "next_back", "rev", "filter", "last", "nth", "swap")


def growth(v, acc):
    """by how many items v is longer than acc, if other items may have changed"""
    n = 0
    w = v
    while v is not acc:
        if v.op == "App2" and v.a[1].op == "Cons" and v.a[1].a[1] is NIL:
            v = v.a[0]
            n += 1
            continue
        if v.op != "App" or len(v.a) < 2 or v.a[0].replace("changed-by-", "").split("::")[-1] not in SAME_LENGTH:
            return None
        v = v.a[1]
    return n if any(x.op == "App" for x in spine(w)) else None


def spine(v):
    while True:
        yield v
        if v.op == "App2":
            v = v.a[0]
        elif v.op == "App" and len(v.a) > 1:
            v = v.a[1]
        else:
            return


def plain_items(l):
    """are the items what one rule returns, as it returns it?"""
    while l.op == "Cons" and l.a[0].op == "V":
        l = l.a[1]
    return l.op == "L" and l.a[0].op == "Body" and \
        all(x.a[1].op == "V" for x in leaves(l.a[0].a[1]) if x.op == "Ok")


def chosen(tree, whole=False):
    """is every condition one that can come out either way, and not just the kind of the item (where the kinds are
    not those of a rule)?"""
    import refine
    from compare import CHANGING, PARTS
    st = [tree]
    while st:
        t = st.pop()
        if t.op == "Cond":
            c = t.a[0]
            if not refine.free(c, CHANGING | PARTS | set(SAME_LENGTH)) or \
                    c.op == "Discr" and not has_app(c.a[0]) and not whole:
                return False
            st.extend(x for _, x in t.a[1])
    return True


def has_app(t):
    return t.op == "App" or any(has_app(x) for x in kids(t))


def texts(e, l, x, item):
    """all the items, written as item says, as one text"""
    if l.op == "Chars":
        return l.a[0] if item is piece(x) else None
    from models import cat_list
    return cat_list(e, each(e, l, x, item))


def each(e, l, x, item):
    from models import subst, map_list_term
    if item is x:
        return l
    if l is NIL:
        return NIL
    if l.op == "Cons":
        return Cons(subst(item, x, l.a[0]), each(e, l.a[1], x, item))
    if l.op == "App2":
        return append(each(e, l.a[0], x, item), each(e, l.a[1], x, item))
    return map_list_term(e, l, x, item)
