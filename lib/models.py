"""Models of nom 5.1.3 combinators and of the std functions the parsers use."""
import json

from charset import (CharSet, UNIVERSE, CHARS, EMPTY, EOFSET, EOF, ASCII)
import engine
from engine import (NOM, ERR, FAIL, unk, panic, field, mk_adt, charpos, in_set, preimage, notv, nonempty_v,
                    strip, _pre, Unsupported, ci)
from terms import *
from terms import T


def nom(op, *args, site=""):
    return T("Nom", op, tuple(args), site)


def model(name):
    def d(f):
        NOM[name] = f
        return f
    return d


# ------------------------------------------------------------------ combinators

@model("tuple")
def _tuple(e, p, a, pos, st, ok, err, fail):
    def step(i, q, vs, st):
        if i == len(a):
            return ok(q, Tup(*vs), st)
        return e.run(a[i], q, st, lambda q2, v, s: step(i + 1, q2, vs + [v], s), err, fail)
    return step(0, pos, [], st)


@model("preceded")
def _preceded(e, p, a, pos, st, ok, err, fail):
    return e.run(a[0], pos, st, lambda q, v, s: e.run(a[1], q, s, ok, err, fail), err, fail)


@model("terminated")
def _terminated(e, p, a, pos, st, ok, err, fail):
    return e.run(a[0], pos, st,
                 lambda q, v, s: e.run(a[1], q, s, lambda q2, _, s2: ok(q2, v, s2), err, fail), err, fail)


@model("delimited")
def _delimited(e, p, a, pos, st, ok, err, fail):
    return e.run(a[0], pos, st, lambda q, _, s: e.run(
        a[1], q, s, lambda q2, v, s2: e.run(
            a[2], q2, s2, lambda q3, _, s3: ok(q3, v, s3), err, fail), err, fail), err, fail)


@model("separated_pair")
def _separated_pair(e, p, a, pos, st, ok, err, fail):
    return e.run(a[0], pos, st, lambda q, v, s: e.run(
        a[1], q, s, lambda q2, _, s2: e.run(
            a[2], q2, s2, lambda q3, w, s3: ok(q3, Tup(v, w), s3), err, fail), err, fail), err, fail)


@model("map")
def _map(e, p, a, pos, st, ok, err, fail):
    return e.run(a[0], pos, st, lambda q, v, s: e.apply(a[1], [v], s, lambda w, s2: ok(q, w, s2)), err, fail)


@model("map_res")
def _map_res(e, p, a, pos, st, ok, err, fail):
    def got(q, v, s):
        def res(w, s2):
            return match_result(e, w, s2, lambda x, s3: ok(q, x, s3), lambda x, s3: err(s3))
        return e.apply(a[1], [v], s, res)
    return e.run(a[0], pos, st, got, err, fail)


@model("map_opt")
def _map_opt(e, p, a, pos, st, ok, err, fail):
    def got(q, v, s):
        return e.apply(a[1], [v], s,
                       lambda w, s2: match_option(e, w, s2, lambda x, s3: ok(q, x, s3), err))
    return e.run(a[0], pos, st, got, err, fail)


@model("map_parser")
def _map_parser(e, p, a, pos, st, ok, err, fail):
    return unk("map_parser")


@model("flat_map")
def _flat_map(e, p, a, pos, st, ok, err, fail):
    return e.run(a[0], pos, st,
                 lambda q, v, s: e.apply(a[1], [v], s, lambda w, s2: e.run(w, q, s2, ok, err, fail)), err, fail)


@model("verify")
def _verify(e, p, a, pos, st, ok, err, fail):
    t = a[0]
    if t.op == "Nom" and t.a[0] == "take" and t.a[1][0].op == "Int" and 0 < t.a[1][0].a[0] <= 64:
        # `n` characters that spell a word: the same as testing for the word
        q = pos
        for _ in range(t.a[1][0].a[0]):
            q = Next(q)
        got1 = []
        e.apply(a[1], [Text(pos, q)], st.clone(), lambda w, s2: (got1.append(w), ERR)[1])
        if len(got1) == 1 and got1[0].op == "TextEqCI" and got1[0].a[0] is Text(pos, q) \
                and len(got1[0].a[1].a[0]) == t.a[1][0].a[0]:
            return e.lit(st, got1[0].a[1].a[0], True, pos, ok, err)
        if len(got1) == 1 and got1[0].op == "TextIn" and got1[0].a[0] is Text(pos, q) \
                and len(got1[0].a[1].a[0]) == t.a[1][0].a[0] and all(cs <= CHARS for cs in got1[0].a[2]):
            return e.word(st, pos, got1[0].a[2], got1[0].a[1].a[0], lambda s: ok(q, Text(pos, q), s), err)

    def got(q, v, s):
        return e.apply(a[1], [v], s, lambda w, s2: branch(e, w, s2, lambda s3: ok(q, v, s3), err))
    return e.run(a[0], pos, st, got, err, fail)


@model("value")
def _value(e, p, a, pos, st, ok, err, fail):
    return e.run(a[1], pos, st, lambda q, v, s: ok(q, a[0], s), err, fail)


@model("opt")
def _opt(e, p, a, pos, st, ok, err, fail):
    def some(q, v, s):
        e.event("branch-live", p.a[2] or "opt", "some")
        return ok(q, Some(v), s)

    def none(s):
        e.event("branch-live", p.a[2] or "opt", "none")
        return ok(pos, NONE, s)
    if p.a[2]:
        e.event("branch", p.a[2], "some")
    return e.run(a[0], pos, st, some, none, fail)


@model("alt")
def _alt(e, p, a, pos, st, ok, err, fail):
    site = p.a[2]

    def step(i, st):
        if i == len(a):
            return err(st)

        def got(q, v, s):
            if site:
                e.event("branch-live", site, i)
            return ok(q, v, s)
        if site:
            e.event("branch", site, i)
        return e.run(a[i], pos, st, got, lambda s: step(i + 1, s), fail)
    return step(0, st)


@model("cut")
def _cut(e, p, a, pos, st, ok, err, fail):
    return e.run(a[0], pos, st, ok, fail, fail)


@model("complete")
def _complete(e, p, a, pos, st, ok, err, fail):
    return e.run(a[0], pos, st, ok, err, fail)


@model("peek")
def _peek(e, p, a, pos, st, ok, err, fail):
    return e.run(a[0], pos, st, lambda q, v, s: ok(pos, v, s), err, fail)


@model("not")
def _not(e, p, a, pos, st, ok, err, fail):
    return e.run(a[0], pos, st, lambda q, v, s: err(s), lambda s: ok(pos, UNIT, s), fail)


@model("recognize")
def _recognize(e, p, a, pos, st, ok, err, fail):
    return e.run(a[0], pos, st, lambda q, v, s: ok(q, Text(pos, q), s), err, fail)


@model("all_consuming")
def _all(e, p, a, pos, st, ok, err, fail):
    return e.run(a[0], pos, st, lambda q, v, s: e.test(s, q, EOFSET, lambda s2: ok(q, v, s2), err), err, fail)


@model("cond")
def _cond(e, p, a, pos, st, ok, err, fail):
    return branch(e, a[0], st,
                  lambda s: e.run(a[1], pos, s, lambda q, v, s2: ok(q, Some(v), s2), err, fail),
                  lambda s: ok(pos, NONE, s))


@model("success")
def _success(e, p, a, pos, st, ok, err, fail):
    return ok(pos, a[0], st)


@model("fail")
def _failm(e, p, a, pos, st, ok, err, fail):
    return err(st)


@model("many0")
def _many0(e, p, a, pos, st, ok, err, fail):
    return e.star(a[0], pos, st, ok, err, fail)


@model("many1")
def _many1(e, p, a, pos, st, ok, err, fail):
    return e.many1(a[0], pos, st, ok, err, fail)


@model("many0_count")
def _many0c(e, p, a, pos, st, ok, err, fail):
    return e.star(a[0], pos, st, lambda q, l, s: ok(q, T("Len", l), s), err, fail)


@model("many1_count")
def _many1c(e, p, a, pos, st, ok, err, fail):
    return e.many1(a[0], pos, st, lambda q, l, s: ok(q, T("Len", l), s), err, fail)


@model("many_m_n")
def _many_m_n(e, p, a, pos, st, ok, err, fail):
    m, n, f = a
    if m.op != "Int" or n.op != "Int":
        return unk("many_m_n bounds")
    if n.a[0] > 12 and m.a[0] <= 1:
        # as many as there are, unless there are more than n
        def bounded(q, l, s):
            def more(b, s):
                if b:
                    return ok(After(pos, T("Times", n, l)), App("slice::truncate", l, n), s)
                return ok(q, l, s)
            return e.cond(s, App("len-Gt", l, n), [0, 1], more)
        return (e.many1 if m.a[0] else e.star)(f, pos, st, bounded, err, fail)

    def step(i, q, vs, st):
        if i == n.a[0]:
            return ok(q, mklist(vs), st)
        return e.run(f, q, st, lambda q2, v, s: step(i + 1, q2, vs + [v], s),
                     (lambda s: ok(q, mklist(vs), s)) if i >= m.a[0] else err, fail)
    return step(0, pos, [], st)


@model("count")
def _count(e, p, a, pos, st, ok, err, fail):
    f, n = a
    if n.op != "Int":
        return unk("count")

    def step(i, q, vs, st):
        if i == n.a[0]:
            return ok(q, mklist(vs), st)
        return e.run(f, q, st, lambda q2, v, s: step(i + 1, q2, vs + [v], s), err, fail)
    return step(0, pos, [], st)


def mklist(vs):
    l = NIL
    for v in reversed(vs):
        l = Cons(v, l)
    return l


@model("seplist_item")
def _item(e, p, a, pos, st, ok, err, fail):
    """one `sep f` iteration of nom's separated lists: an empty separator or item aborts"""
    def sep(q, _, s):
        def moved(s):
            def item(q2, v, s2):
                return e.if_moved(s2, q, q2, lambda s3: ok(q2, v, s3), lambda s3: abort(s3))
            return e.run(a[1], q, s, item, err, fail)

        def abort(s):
            e.event("nullable-sep", p.a[2])
            return engine.ABORT
        return e.if_moved(s, pos, q, moved, abort)
    return e.run(a[0], pos, st, sep, err, fail)


def _seplist(e, p, a, pos, st, ok, err, fail, nonempty):
    sep, f = a
    item = nom("seplist_item", sep, f, site=p.a[2])

    def first(q, v, s):
        def go(s):
            return e.star(item, q, s, lambda q2, l, s2: ok(q2, Cons(v, l), s2), err, fail)

        def null(s):
            e.event("nullable-item", p.a[2])
            return err(s)
        if nonempty:
            return e.if_moved(s, pos, q, go, null)
        return e.if_moved(s, pos, q, go, null)
    return e.run(f, pos, st, first, err if nonempty else (lambda s: ok(pos, NIL, s)), fail)


@model("separated_list")
def _sl(e, p, a, pos, st, ok, err, fail):
    return _seplist(e, p, a, pos, st, ok, err, fail, False)


@model("separated_nonempty_list")
def _snl(e, p, a, pos, st, ok, err, fail):
    return _seplist(e, p, a, pos, st, ok, err, fail, True)


@model("fold_many0")
def _fold0(e, p, a, pos, st, ok, err, fail):
    return fold(e, p, a, pos, st, ok, err, fail, False)


@model("fold_many1")
def _fold1(e, p, a, pos, st, ok, err, fail):
    return fold(e, p, a, pos, st, ok, err, fail, True)


def fold(e, p, a, pos, st, ok, err, fail, one):
    f, init, g = a

    def done(q, l, s):
        return fold_list(e, l, init, g, s, lambda v, s2: ok(q, v, s2))
    return (e.many1 if one else e.star)(f, pos, st, done, err, fail)


def fold_list(e, l, init, g, st, k):
    """fold over a symbolic list; exact for folds that push one item per step"""
    if l is NIL:
        return k(init, st)
    if l.op == "Cons":
        return e.apply(g, [init, l.a[0]], st, lambda v, s: fold_list(e, l.a[1], v, g, s, k))
    acc = T("FoldAcc", l)
    x = T("FoldItem", l)
    out = []
    probe = e.apply(g, [acc, x], st.clone(), lambda v, s: (out.append(v), ERR)[1])
    if len(out) == 1 and out[0].op == "App2" and out[0].a[0] is acc and out[0].a[1].op == "Cons" \
            and out[0].a[1].a[1] is NIL:
        item = out[0].a[1].a[0]
        return k(append(init, map_list_term(e, l, x, item)), st)
    if len(out) == 1 and out[0].op == "Cat" and out[0].a[0] is acc and l.op == "L":
        t = collect_text(map_list_term(e, l, x, Cat(*out[0].a[1:])))
        if t is not None:
            return k(Cat(init, t), st)
    return k(App("fold", l, init, *out), st)


def map_list_term(e, l, x, item):
    if item is x:
        return l
    if l.op == "L":
        vb, pos = l.a
        t = engine.map_leaves(vb.a[1], lambda n: T("Ok", n.a[0], subst(item, x, n.a[1])) if n.op == "Ok" else n)
        return T("L", T("Body", vb.a[0], t), pos)
    return App("maplist", l, x, item)


def subst(t, x, y, cache=None):
    cache = {} if cache is None else cache
    if t is x:
        return y
    if t in cache:
        return cache[t]
    na = []
    ch = False
    for z in t.a:
        if isinstance(z, T):
            w = subst(z, x, y, cache)
            ch |= w is not z
            na.append(w)
        else:
            na.append(z)
    r = T(t.op, *na) if ch else t
    if ch and t.op in ("Cat", "Chr1"):
        r = Cat(*na) if t.op == "Cat" else piece(na[0])
    if ch and t.op == "Fld":
        r = field(na[2], na[1], na[0])
    cache[t] = r
    return r


# ------------------------------------------------------------------ terminals

@model("tag")
def _tag(e, p, a, pos, st, ok, err, fail):
    if a[0].op != "Str":
        return unk("tag of a computed text " + show(a[0]))
    return e.lit(st, a[0].a[0], False, pos, ok, err)


@model("kw")
def _kw(e, p, a, pos, st, ok, err, fail):
    """reference keyword: ASCII case-insensitive"""
    return e.lit(st, a[0].a[0], True, pos, ok, err)


@model("tag_no_case")
def _tagnc(e, p, a, pos, st, ok, err, fail):
    if a[0].op != "Str":
        return unk("tag_no_case of a computed text " + show(a[0]))
    s = a[0].a[0]
    if any(c in "ikIK" or not c.isascii() for c in s):
        e.event("unicode-fold", p.a[2], s)
    return e.lit(st, s, True, pos, ok, err)


@model("cc")
def _cc(e, p, a, pos, st, ok, err, fail):
    cs = a[0]
    q = Next(pos)
    return e.test(st, pos, cs, lambda s: ok(q, C(pos), s), err)


@model("star_cc")
def _star_cc(e, p, a, pos, st, ok, err, fail):
    return e.star(nom("cc", a[0]), pos, st, lambda q, l, s: ok(q, Text(pos, q), s), err, fail)


@model("plus_cc")
def _plus_cc(e, p, a, pos, st, ok, err, fail):
    return e.many1(nom("cc", a[0]), pos, st, lambda q, l, s: ok(q, Text(pos, q), s), err, fail)


def predset(e, f, st):
    """the set of characters a predicate accepts"""
    key = ("pred", f)
    if key in _pre:
        return _pre[key]
    pos = T("P0", 1000 + e.depth)
    s = st.clone()
    s.K[pos] = CHARS
    acc = []

    def k(v, s):
        b = branch(e, v, s, lambda s2: (acc.append((s2.k(pos))), T("Ok", pos, TRUE))[1],
                   lambda s2: ERR)
        return b
    t = e.apply(f, [C(pos)], s, k)
    if any(l.op not in ("Ok", "Err") for l in engine.leaves(t)) or has_op(t, ("Cond", "Call", "Star", "Lit")):
        raise Unsupported("character predicate " + e.site(f))
    r = EMPTY
    for x in acc:
        r = r | x
    r = r & CHARS
    _pre[key] = r
    return r


def has_op(t, ops, seen=None):
    seen = set() if seen is None else seen
    if t in seen:
        return False
    seen.add(t)
    if t.op in ops:
        return True
    return any(has_op(x, ops, seen) for x in engine.kids(t))


def withset(f):
    def h(e, p, a, pos, st, ok, err, fail):
        try:
            cs = predset(e, a[-1], st)
        except Unsupported as x:
            return unk(str(x))
        return f(e, p, a, cs, pos, st, ok, err, fail)
    return h


@model("take_while")
@withset
def _tw(e, p, a, cs, pos, st, ok, err, fail):
    return _star_cc(e, p, (cs,), pos, st, ok, err, fail)


@model("take_while1")
@withset
def _tw1(e, p, a, cs, pos, st, ok, err, fail):
    return _plus_cc(e, p, (cs,), pos, st, ok, err, fail)


@model("take_till")
@withset
def _tt(e, p, a, cs, pos, st, ok, err, fail):
    return _star_cc(e, p, (CHARS - cs,), pos, st, ok, err, fail)


@model("take_till1")
@withset
def _tt1(e, p, a, cs, pos, st, ok, err, fail):
    return _plus_cc(e, p, (CHARS - cs,), pos, st, ok, err, fail)


@model("take_while_m_n")
@withset
def _twmn(e, p, a, cs, pos, st, ok, err, fail):
    m, n = a[0], a[1]
    if m.op != "Int" or n.op != "Int" or n.a[0] > 16:
        return unk("take_while_m_n bounds")

    def step(i, q, st):
        if i == n.a[0]:
            return ok(q, Text(pos, q), st)
        return e.test(st, q, cs, lambda s: step(i + 1, Next(q), s),
                      (lambda s: ok(q, Text(pos, q), s)) if i >= m.a[0] else err)
    return step(0, pos, st)


@model("take")
def _take(e, p, a, pos, st, ok, err, fail):
    n = a[0]
    if n.op != "Int" or n.a[0] > 16:
        return unk("take of a computed length")

    def step(i, q, st):
        if i == n.a[0]:
            return ok(q, Text(pos, q), st)
        return e.test(st, q, CHARS, lambda s: step(i + 1, Next(q), s), err)
    return step(0, pos, st)


@model("take_until")
def _take_until(e, p, a, pos, st, ok, err, fail):
    if a[0].op != "Str" or len(a[0].a[0]) != 1:
        return unk("take_until")
    c = CharSet.of(a[0].a[0])
    return e.star(nom("cc", CHARS - c), pos, st,
                  lambda q, l, s: e.test(s, q, c, lambda s2: ok(q, Text(pos, q), s2), err), err, fail)


@model("rest")
def _rest(e, p, a, pos, st, ok, err, fail):
    return e.star(nom("cc", CHARS), pos, st, lambda q, l, s: ok(q, Text(pos, q), s), err, fail)


@model("eof")
def _eof(e, p, a, pos, st, ok, err, fail):
    return e.test(st, pos, EOFSET, lambda s: ok(pos, Str(""), s), err)


@model("escaped")
def _escaped(e, p, a, pos, st, ok, err, fail):
    """nom's escaped(normal, control, escapable); fails on empty content unless at the end"""
    normal, ctl, esc = a
    item = nom("esc_item", normal, ctl, esc, site=p.a[2])

    def done(q, l, s):
        return e.if_moved(s, pos, q, lambda s2: ok(q, Text(pos, q), s2),
                          lambda s2: e.test(s2, pos, EOFSET, lambda s3: ok(q, Text(pos, q), s3), err))
    return e.star(item, pos, st, done, err, fail)


@model("esc_item")
def _esc_item(e, p, a, pos, st, ok, err, fail):
    normal, ctl, esc = a
    cs = CharSet.of(ctl.a[0])

    def control(s):
        def yes(s):
            return e.run(esc, Next(pos), s, lambda q, v, s2: ok(q, UNIT, s2), lambda s2: engine.ABORT, fail)
        return e.test(s, pos, cs, yes, err)
    return e.run(normal, pos, st, lambda q, v, s: ok(q, UNIT, s), control, fail)


@model("not_line_ending")
def _nle(e, p, a, pos, st, ok, err, fail):
    # complete::not_line_ending: up to the first \r or \n; a \r without \n is an error
    def done(q, l, s):
        def cr(s):
            return e.test(s, Next(q), CharSet.of("\n"), lambda s2: ok(q, Text(pos, q), s2), err)
        return e.test(s, q, CharSet.of("\r"), cr, lambda s2: ok(q, Text(pos, q), s2))
    return e.star(nom("cc", CHARS - CharSet.chars("\r\n")), pos, st, done, err, fail)


DIGIT = CharSet.of(("0", "9"))
ALPHA = CharSet.of(("a", "z"), ("A", "Z"))
HEX = CharSet.of(("0", "9"), ("a", "f"), ("A", "F"))
SETS = {
    "digit": DIGIT, "alpha": ALPHA, "alphanumeric": ALPHA | DIGIT, "hex_digit": HEX,
    "oct_digit": CharSet.of(("0", "7")), "space": CharSet.chars(" \t"),
    "multispace": CharSet.chars(" \t\r\n"),
}


# ------------------------------------------------------------------ branching helpers

def branch(e, v, st, yes, no):
    if v.op == "Int":
        return yes(st) if v.a[0] else no(st)
    return e.switch(v, {0: 0, 1: 1}, None, st, lambda t, s: yes(s) if t else no(s),
                    {"k": "prim", "name": "bool"})


def match_adt(e, v, path, st, cases):
    """cases: {variant: f(fields_getter, st)}"""
    if v.op == "RefMut":
        v = e.load(v, st)
    if v.op == "Adt":
        return cases[v.a[1]](lambda i: v.a[2 + i], st)
    d = T("Discr", v, path)
    return e.cond(st, d, sorted(cases), lambda l, s: cases[l](lambda i: field(v, i, l), s))


def match_option(e, v, st, some, none):
    return match_adt(e, v, OPTION, st, {0: lambda g, s: none(s), 1: lambda g, s: some(g(0), s)})


def match_result(e, v, st, ok, err):
    return match_adt(e, v, RESULT, st, {0: lambda g, s: ok(g(0), s), 1: lambda g, s: err(g(0), s)})


# ------------------------------------------------------------------ std

IDENT = {
    "Deref::deref", "DerefMut::deref_mut", "AsRef::as_ref", "AsMut::as_mut", "Borrow::borrow", "Clone::clone",
    "ToOwned::to_owned", "Box::new", "String::as_str", "String::as_mut_str", "IntoIterator::into_iter",
    "slice::to_vec", "slice::into_vec", "slice::iter", "Vec::iter", "Vec::into_boxed_slice", "Vec::as_slice", "Vec::as_mut_slice",
    "String::into_boxed_str", "str::into_string", "Option::as_ref", "Option::as_deref", "Option::as_mut",
    "Option::cloned", "Option::copied", "Result::as_ref", "core::convert::identity",
    "Cow::into_owned", "Iterator::cloned", "Iterator::copied", "Iterator::by_ref", "Pin::new", "Into::into",
    "str::to_string", "str::to_owned", "core::hint::must_use", "str::as_str", "Box::into_inner",
    "alloc::boxed::box_new", "core::mem::take_unused",
    "Option::as_deref_mut", "Vec::shrink_to_fit", "Result::into_ok", "alloc::slice::{impl#0}::into_vec",
}


def tyname(t):
    if t["k"] == "adt":
        return t["path"].split("::")[-1]
    if t["k"] == "prim":
        return t["name"]
    if t["k"] == "ref":
        return tyname(t["t"])
    return t["k"]


def fname(c):
    if "inherent" in c:
        return tyname(c["inherent"]) + "::" + c["method"]
    if "trait" in c:
        return c["trait"].split("::")[-1] + "::" + c["method"]
    return c["path"]


TEXTY = ("Text", "Str", "Rest")

ORDERING = set("""reverse sort sort_by sort_by_key sort_unstable sort_unstable_by sort_unstable_by_key
sort_by_cached_key dedup dedup_by dedup_by_key""".split())


def of_short_list(name, l):
    """what list functions without a model do to the empty list and to a single item"""
    if l.op == "Cons" and l.a[1].op == "Nil":
        return UNIT if name in ORDERING else None
    if l.op != "Nil":
        return None
    if name in ORDERING or name in ("retain", "retain_mut"):
        return UNIT
    if name in ("position", "rposition", "find", "find_map", "max_by", "min_by", "max_by_key", "min_by_key", "rfind",
                "try_find", "reduce"):
        return Adt(OPTION, 0)
    if name in ("any", "contains"):
        return FALSE
    if name == "all":
        return TRUE
    return None


def builtin(e, c, args, st, k, sp, where):
    path = c["path"]
    if path.startswith("nom::"):
        r = nom_builtin(e, c, path, args, st, k, sp, where)
        if r is not None:
            return r
    n = fname(c)
    h = STD.get(n)
    if h is not None:
        r = h(e, c, args, st, k)
        if r is not None:
            return r
    if n in IDENT:
        return k(args[0], st)
    if n.startswith("Fn::call") or n.startswith("FnMut::call") or n.startswith("FnOnce::call"):
        f = args[0]
        if f.op == "RefMut":
            f = e.load(f, st)
        t = args[1]
        if t.op != "Tup":
            return unk("call arguments " + show(t))
        return e.apply(f, list(t.a), st, k)
    if args:
        r = of_short_list(n.split("::")[-1], e.load(args[0], st) if args[0].op == "RefMut" else args[0])
        if r is not None:
            return k(r, st)
    # an unknown function: opaque, pure in its arguments; a &mut argument is forgotten
    name = n
    ga = [a for a in c.get("args", []) if a["k"] in ("adt", "prim")]
    for a in args:
        if a.op == "RefMut":
            e.store_ref(a, App("changed-by-" + name, e.load(a, st), *[x for x in args if x is not a]), st)
    args = [e.load(a, st) if a.op == "RefMut" else a for a in args]
    e.event("guarded-call" if guarded(st, args[:1]) and not beyond(st, args) else "opaque-call", where or "", path)
    return k(App(name, *args), st)


def beyond(st, args):
    """an index that the tests made so far do not keep below the length"""
    if len(args) != 2:
        return False
    v, r = args
    if r.op == "Adt" and v.op in ("Text", "Rest", "Cat"):
        # lengths say nothing about where characters begin
        if all(of_lengths(x) for x in r.a[2:]) and any(x.op != "Int" for x in r.a[2:]) and \
                all(of_lengths(t) or t.op == "App" and t.a[0].endswith("starts_with")
                    for t in st.cond if guarded_by(t, v)):
            return True
    if r.op == "Adt" and r.a[0].split("::")[-1] in ("RangeFrom", "RangeTo") and r.a[2].op == "Int":
        need = r.a[2].a[0]
    elif r.op == "Int":
        need = r.a[0] + 1
    else:
        return False
    n = 0
    for t, l in st.cond.items():
        if not guarded_by(t, v):
            continue
        if t.op == "App" and t.a[0].startswith("len-") and t.a[1] is v and t.a[2].op == "Int" and l in (0, 1):
            op, k = t.a[0][4:], t.a[2].a[0]
            if not l:
                op = {"Ge": "Lt", "Gt": "Le", "Lt": "Ge", "Le": "Gt", "Eq": "Ne", "Ne": "Eq"}.get(op, op)
            n = max(n, {"Ge": k, "Gt": k + 1, "Eq": k}.get(op, 0))
        elif t.op in ("NonEmpty", "Moved2") or t.op == "App" and t.a[0] == "nonempty":
            n = max(n, 1 if l else 0)
        elif t.op == "Len" and isinstance(l, int):
            n = max(n, l)
        else:
            return False
    return n < need


def of_lengths(t):
    """a number (or a comparison of numbers) made of lengths and constants"""
    if t.op in ("Int", "Len", "Not"):
        return t.op != "Not" or of_lengths(t.a[0])
    return t.op == "App" and (t.a[0].startswith(("bin-", "len-")) or
                              t.a[0].split("::")[-1] in ("min", "max", "saturating_sub")) and \
        all(of_lengths(x) or t.a[0].startswith("len-") for x in t.a[1:])


def sitestr(sp, where):
    return "%s @ %s" % (where, sp) if where else ""


def nom_builtin(e, c, path, args, st, k, sp, where):
    parts = path.split("::")
    op = parts[-1]
    site = sitestr(sp, where)
    if "trait" in c:
        return nom_trait(e, c, args, st, k)
    mod = parts[1]
    if mod in ("sequence", "combinator", "multi"):
        if op in ("tuple", "alt", "permutation"):
            if args[0].op != "Tup":
                return k(unk("tuple"), st)
            return k(nom(op, *args[0].a, site=site), st)
        if op == "pair":
            return k(nom("tuple", *args, site=site), st)
        if op in ("rest",):
            return direct(e, nom("rest"), args, st, k)
        if op == "map" and len(args) == 2 or op in NOM:
            return k(nom(op, *args, site=site), st)
        return None
    if mod == "branch":
        if op == "alt" and args[0].op == "Tup":
            return k(nom("alt", *args[0].a, site=site), st)
        return None
    if mod == "error":
        if op in ("make_error", "append_error", "context"):
            if op == "context":
                return k(args[1], st)
            return k(EPAY, st)
        return k(EPAY, st)
    if mod in ("bytes", "character"):
        streaming = "streaming" in parts
        if streaming:
            e.event("incomplete", site or where or "", path)
        if len(parts) == 3 and mod == "character":
            # predicates on bytes
            cs = {"is_alphabetic": ALPHA, "is_digit": DIGIT, "is_hex_digit": HEX, "is_alphanumeric": ALPHA | DIGIT,
                  "is_oct_digit": SETS["oct_digit"], "is_space": SETS["space"]}.get(op)
            if cs is not None:
                return k(charset_pred(args[0], cs), st)
            if op == "is_newline":
                return k(charset_pred(args[0], CharSet.of("\n")), st)
            return None
        if op in ("tag", "tag_no_case", "take_while", "take_while1", "take_while_m_n", "take_till", "take_till1",
                  "take", "take_until", "escaped"):
            return k(nom(op, *args, site=site), st)
        if op in ("is_a", "is_not", "one_of", "none_of", "char"):
            cs = char_list(args[0], op)
            if cs is None:
                return k(nom("opaque-" + op, *args), st)
            if op == "char" or op == "one_of":
                return k(nom("cc", cs, site=site), st)
            if op == "none_of":
                return k(nom("cc", CHARS - cs, site=site), st)
            if op == "is_a":
                return k(nom("plus_cc", cs, site=site), st)
            return k(nom("plus_cc", CHARS - cs, site=site), st)
        if op == "anychar":
            return direct(e, nom("cc", CHARS), args, st, k)
        if op == "newline":
            return direct(e, nom("cc", CharSet.of("\n")), args, st, k)
        if op == "tab":
            return direct(e, nom("cc", CharSet.of("\t")), args, st, k)
        if op == "crlf":
            return direct(e, nom("tag", Str("\r\n")), args, st, k)
        if op == "line_ending":
            return direct(e, nom("alt", nom("tag", Str("\n")), nom("tag", Str("\r\n"))), args, st, k)
        if op == "not_line_ending":
            return direct(e, nom("not_line_ending"), args, st, k)
        for base, cs in SETS.items():
            if op == base + "0":
                return direct(e, nom("star_cc", cs), args, st, k)
            if op == base + "1":
                return direct(e, nom("plus_cc", cs), args, st, k)
    return None


def direct(e, p, args, st, k):
    return e.apply(p, args, st, k)


def char_list(v, op):
    if op == "char":
        return CharSet.of(v.a[0]) if v.op == "Int" else None
    if v.op == "Str":
        return CharSet.chars(v.a[0]) if v.a[0] else EMPTY
    if v.op == "Arr" and all(x.op == "Int" for x in v.a):
        return CharSet.of(*[x.a[0] for x in v.a])
    return None


def charset_pred(v, cs):
    if v.op == "Int":
        return Bool(v.a[0] in cs)
    if charpos(v) is None:
        return App("in" + repr(cs), v)
    key = ("cs", strip(v), cs)
    r = _pre.get(key)
    if r is None:
        if v.op == "C":
            r = cs & CHARS
        else:
            r = preimage(v, lambda x: 0 <= x < 0x110000 and x in cs)
        _pre[key] = r
    return in_set(v, r)


def nom_trait(e, c, args, st, k):
    n = c["trait"].split("::")[-1] + "::" + c["method"]
    if n.startswith("AsChar::"):
        m = c["method"]
        cs = {"is_alpha": ALPHA, "is_alphanum": ALPHA | DIGIT, "is_dec_digit": DIGIT, "is_hex_digit": HEX,
              "is_oct_digit": SETS["oct_digit"]}.get(m)
        if cs is not None:
            return k(charset_pred(args[0], cs), st)
        if m == "as_char":
            return k(args[0], st)
    if n == "ParseTo::parse_to":
        # str::parse::<T>().ok()
        r = parse_app(c["args"][-1], args[0])
        return match_result(e, r, st, lambda x, s: k(Some(x), s), lambda x, s: k(NONE, s))
    if n == "InputLength::input_len":
        return k(T("Len", args[0]), st)
    if n.startswith("ParseError::"):
        return k(EPAY, st)
    if n == "InputTake::take_split":
        return None
    return None


def parse_app(ty, v):
    return App("parse:" + tyname(ty), v)


STD = {}


def std(*names):
    def d(f):
        for n in names:
            STD[n] = f
        return f
    return d


def opt_fn(f):
    """handler on an Option/Result in args[0]"""
    return f


@std("Option::map")
def _(e, c, a, st, k):
    return match_option(e, a[0], st, lambda x, s: e.apply(a[1], [x], s, lambda v, s2: k(Some(v), s2)),
                        lambda s: k(NONE, s))


@std("Option::and_then")
def _(e, c, a, st, k):
    return match_option(e, a[0], st, lambda x, s: e.apply(a[1], [x], s, k), lambda s: k(NONE, s))


@std("Option::or_else")
def _(e, c, a, st, k):
    return match_option(e, a[0], st, lambda x, s: k(Some(x), s), lambda s: e.apply(a[1], [], s, k))


@std("Option::or")
def _(e, c, a, st, k):
    return match_option(e, a[0], st, lambda x, s: k(Some(x), s), lambda s: k(a[1], s))


@std("Option::filter")
def _(e, c, a, st, k):
    return match_option(e, a[0], st, lambda x, s: e.apply(
        a[1], [x], s, lambda v, s2: branch(e, v, s2, lambda s3: k(Some(x), s3), lambda s3: k(NONE, s3))),
        lambda s: k(NONE, s))


@std("Option::unwrap_or")
def _(e, c, a, st, k):
    return match_option(e, a[0], st, k, lambda s: k(a[1], s))


@std("Option::unwrap_or_else")
def _(e, c, a, st, k):
    return match_option(e, a[0], st, k, lambda s: e.apply(a[1], [], s, k))


def default_of(ty):
    if ty["k"] == "prim":
        if ty["name"] == "bool":
            return FALSE
        if ty["name"] == "str":
            return Str("")
        if ty["name"] in engine.BITS:
            return Int(0)
    if ty["k"] == "adt":
        if ty["path"] == OPTION:
            return NONE
        if ty["path"].endswith("vec::Vec"):
            return NIL
        if ty["path"].endswith("string::String"):
            return Str("")
    if ty["k"] == "tuple":
        return Tup(*[default_of(x) for x in ty["args"]])
    if ty["k"] == "ref":
        return default_of(ty["t"])
    return App("default", json.dumps(ty, sort_keys=True))


def call_default(e, ty, st, k):
    if ty["k"] == "adt":
        for im in e.prog.impls:
            if im["trait"] == "core::default::Default" and im["self"].get("path") == ty["path"]:
                for nme, p in im["items"]:
                    if nme == "default" and p in e.prog.bodies:
                        return e.exec_fn(e.prog.bodies[p], [], st, k)
    return k(default_of(ty), st)


@std("Option::unwrap_or_default", "Result::unwrap_or_default")
def _(e, c, a, st, k):
    ty = c["args"][0]
    if c["method"] and tyname(c["inherent"]) == "Result":
        return match_result(e, a[0], st, k, lambda x, s: call_default(e, ty, s, k))
    return match_option(e, a[0], st, k, lambda s: call_default(e, ty, s, k))


@std("Default::default")
def _(e, c, a, st, k):
    return call_default(e, c["self"], st, k)


@std("Option::map_or")
def _(e, c, a, st, k):
    return match_option(e, a[0], st, lambda x, s: e.apply(a[2], [x], s, k), lambda s: k(a[1], s))


@std("Option::map_or_else")
def _(e, c, a, st, k):
    return match_option(e, a[0], st, lambda x, s: e.apply(a[2], [x], s, k), lambda s: e.apply(a[1], [], s, k))


@std("Option::is_some", "Option::is_none")
def _(e, c, a, st, k):
    y, n = (TRUE, FALSE) if c["method"] == "is_some" else (FALSE, TRUE)
    return match_option(e, a[0], st, lambda x, s: k(y, s), lambda s: k(n, s))


@std("Option::ok_or", "Option::ok_or_else")
def _(e, c, a, st, k):
    return match_option(e, a[0], st, lambda x, s: k(Ok(x), s),
                        lambda s: k(Err(a[1]), s) if c["method"] == "ok_or"
                        else e.apply(a[1], [], s, lambda v, s2: k(Err(v), s2)))


@std("Option::unwrap", "Option::expect")
def _(e, c, a, st, k):
    def none(s):
        e.event("panic", "unwrap", c["path"])
        return panic("unwrap of None")
    return match_option(e, a[0], st, k, none)


@std("Result::unwrap", "Result::expect")
def _(e, c, a, st, k):
    def bad(x, s):
        e.event("panic", "unwrap", c["path"])
        return panic("unwrap of Err")
    return match_result(e, a[0], st, k, bad)


@std("Option::into_iter", "Option::iter")
def _(e, c, a, st, k):
    return match_option(e, a[0], st, lambda x, s: k(Cons(x, NIL), s), lambda s: k(NIL, s))


@std("Option::zip")
def _(e, c, a, st, k):
    return match_option(e, a[0], st,
                        lambda x, s: match_option(e, a[1], s, lambda y, s2: k(Some(Tup(x, y)), s2),
                                                  lambda s2: k(NONE, s2)),
                        lambda s: k(NONE, s))


@std("Option::unzip", "Option::flatten")
def _(e, c, a, st, k):
    if c["method"] == "flatten":
        return match_option(e, a[0], st, k, lambda s: k(NONE, s))
    return None


@std("Option::as_mut", "Option::as_deref_mut")
def _(e, c, a, st, k):
    r = a[0]
    if r.op != "RefMut":
        return None

    def some(x, s):
        e.store_ref(r, Some(x), s)
        return k(Some(T("RefMut", r.a[0], r.a[1], tuple(r.a[2]) + (("downcast", 1), ("field", 0)))), s)
    return match_option(e, e.load(r, st), st, some, lambda s: k(NONE, s))


@std("slice::first_mut", "slice::last_mut")
def _(e, c, a, st, k):
    r = a[0]
    if r.op != "RefMut":
        return None
    l = e.load(r, st)
    if l is NIL:
        return k(NONE, st)
    at = "first" if c["method"] == "first_mut" else "last"
    ref = Some(T("RefMut", r.a[0], r.a[1], tuple(r.a[2]) + (("item", at),)))
    if l.op == "Cons" and (at == "first" or l.a[1] is NIL):
        return k(ref, st)
    if l.op not in ("L", "App2", "V", "Fld", "Cons", "Map"):
        return None
    return e.cond(st, T("Discr", App("slice::" + at, l), OPTION), [0, 1], lambda b, s: k(ref if b else NONE, s))


@std("Option::take", "core::mem::take")
def _(e, c, a, st, k):
    if a[0].op != "RefMut":
        return None
    v = e.load(a[0], st)
    ty = c["args"][0]
    if v.op != "Adt" and (c.get("method") == "take" or tyname(ty) == "Option"):
        def some(x, s):
            e.store_ref(a[0], NONE, s)
            return k(v, s)
        # what holds nothing stays as it is
        return match_option(e, v, st, some, lambda s: k(v, s))
    e.store_ref(a[0], NONE if c.get("method") == "take" else default_of(ty), st)
    return k(v, st)


@std("core::mem::replace")
def _(e, c, a, st, k):
    if a[0].op != "RefMut":
        return None
    v = e.load(a[0], st)
    e.store_ref(a[0], a[1], st)
    return k(v, st)


@std("core::mem::swap")
def _(e, c, a, st, k):
    if a[0].op != "RefMut" or a[1].op != "RefMut":
        return None
    x, y = e.load(a[0], st), e.load(a[1], st)
    e.store_ref(a[0], y, st)
    e.store_ref(a[1], x, st)
    return k(UNIT, st)


@std("Option::replace", "Option::insert", "Option::get_or_insert", "Option::get_or_insert_with")
def _(e, c, a, st, k):
    r = a[0]
    if r.op != "RefMut":
        return None
    v = e.load(r, st)
    inside = T("RefMut", r.a[0], r.a[1], tuple(r.a[2]) + (("downcast", 1), ("field", 0)))
    if c["method"] in ("replace", "insert"):
        e.store_ref(r, Some(a[1]), st)
        return k(v if c["method"] == "replace" else inside, st)

    def some(x, s):
        e.store_ref(r, Some(x), s)
        return k(inside, s)

    def none(s):
        if c["method"] == "get_or_insert":
            return some(a[1], s)
        return e.apply(a[1], [], s, some)
    return match_option(e, v, st, some, none)


@std("Result::map")
def _(e, c, a, st, k):
    return match_result(e, a[0], st, lambda x, s: e.apply(a[1], [x], s, lambda v, s2: k(Ok(v), s2)),
                        lambda x, s: k(Err(x), s))


@std("Result::map_err")
def _(e, c, a, st, k):
    return match_result(e, a[0], st, lambda x, s: k(Ok(x), s),
                        lambda x, s: e.apply(a[1], [x], s, lambda v, s2: k(Err(v), s2)))


@std("Result::and_then")
def _(e, c, a, st, k):
    return match_result(e, a[0], st, lambda x, s: e.apply(a[1], [x], s, k), lambda x, s: k(Err(x), s))


@std("Result::or_else")
def _(e, c, a, st, k):
    return match_result(e, a[0], st, lambda x, s: k(Ok(x), s), lambda x, s: e.apply(a[1], [x], s, k))


@std("Result::or")
def _(e, c, a, st, k):
    return match_result(e, a[0], st, lambda x, s: k(Ok(x), s), lambda x, s: k(a[1], s))


@std("Result::ok")
def _(e, c, a, st, k):
    return match_result(e, a[0], st, lambda x, s: k(Some(x), s), lambda x, s: k(NONE, s))


@std("Result::err")
def _(e, c, a, st, k):
    return match_result(e, a[0], st, lambda x, s: k(NONE, s), lambda x, s: k(Some(x), s))


@std("Result::unwrap_or")
def _(e, c, a, st, k):
    return match_result(e, a[0], st, k, lambda x, s: k(a[1], s))


@std("Result::unwrap_or_else")
def _(e, c, a, st, k):
    return match_result(e, a[0], st, k, lambda x, s: e.apply(a[1], [x], s, k))


@std("Result::is_ok", "Result::is_err")
def _(e, c, a, st, k):
    y, n = (TRUE, FALSE) if c["method"] == "is_ok" else (FALSE, TRUE)
    return match_result(e, a[0], st, lambda x, s: k(y, s), lambda x, s: k(n, s))


@std("Try::branch")
def _(e, c, a, st, k):
    if tyname(c["self"]) == "Option":
        return match_option(e, a[0], st, lambda x, s: k(mk_adt(CFLOW, 0, [x]), s),
                            lambda s: k(mk_adt(CFLOW, 1, [NONE]), s))
    return match_result(e, a[0], st, lambda x, s: k(mk_adt(CFLOW, 0, [x]), s),
                        lambda x, s: k(mk_adt(CFLOW, 1, [Err(x)]), s))


@std("FromResidual::from_residual")
def _(e, c, a, st, k):
    return k(a[0], st)


@std("Try::from_output")
def _(e, c, a, st, k):
    return k(Some(a[0]) if tyname(c["self"]) == "Option" else Ok(a[0]), st)


def typeof(e, v):
    """the type of a value passed for a type parameter, as far as it shows"""
    if v.op in TEXTY:
        return {"k": "prim", "name": "str"}
    if v.op == "Adt":
        return {"k": "adt", "path": v.a[0]}
    if v.op == "V":
        b = e.prog.rule_types().get(v.a[0])
        while b is not None and b["k"] == "ref":
            b = b["t"]
        return b
    return None


@std("From::from", "Into::into")
def _(e, c, a, st, k):
    # between text types, Box, identity
    src = c["args"][1] if c["method"] == "from" else c["self"]
    dst = c["self"] if c["method"] == "from" else c["args"][1]
    if src["k"] == "param":
        src = typeof(e, a[0]) or src
        if src["k"] == "adt" and src["path"] == dst.get("path"):
            return k(a[0], st)
    if c["method"] == "into":
        # a local impl of From behind the blanket impl
        for im in e.prog.impls:
            if im["trait"] == "core::convert::From" and im["self"].get("path") == dst.get("path") and dst["k"] == "adt":
                for nme, p in im["items"]:
                    b = e.prog.bodies.get(p)
                    if nme == "from" and b is not None and b["inputs"][0] == src:
                        return e.exec_fn(b, a, st, k)
    names = (tyname(src), tyname(dst))
    if dst["k"] == "adt" and dst["path"] == OPTION and src != dst:
        return k(Some(a[0]), st)
    if names[0] == "char" and names[1] == "String":
        return k(piece(a[0]), st)
    if names[1] in ("String", "Box", "Rc", "Arc", "Cow", "str") or src == dst or dst["k"] == "param":
        return k(a[0], st)
    if names[0] == "char" and names[1] in ("u32", "u64"):
        return k(e.cast("IntToInt", a[0], src, dst), st)
    if names[0] in engine.BITS and names[1] in engine.BITS:
        return k(e.cast("IntToInt", a[0], src, dst), st)
    return None


@std("TryFrom::try_from", "TryInto::try_into")
def _(e, c, a, st, k):
    if c["method"] == "try_into":
        dst, src = c["args"][1], c["self"]
        for im in e.prog.impls:
            if im["trait"] == "core::convert::TryFrom" and im["self"].get("path") == dst.get("path"):
                for nme, p in im["items"]:
                    b = e.prog.bodies.get(p)
                    if nme == "try_from" and b is not None:
                        return e.exec_fn(b, a, st, k)
    return None


@std("ToString::to_string")
def _(e, c, a, st, k):
    t = c["self"]
    while t["k"] == "ref":
        t = t["t"]
    if t["k"] == "param":
        t = typeof(e, a[0]) or t
    if tyname(t) in ("str", "String", "Arguments"):
        return k(a[0], st)
    if tyname(t) == "char":
        return k(piece(a[0]), st)
    return k(App("to_string:" + tyname(c["self"]), a[0]), st)


@std("str::parse")
def _(e, c, a, st, k):
    ty = c["args"][0]
    if tyname(ty) == "String":
        return k(Ok(a[0]), st)
    if ty["k"] == "adt":
        for im in e.prog.impls:
            if im["trait"] == "core::str::traits::FromStr" and im["self"].get("path") == ty.get("path"):
                for nme, p in im["items"]:
                    b = e.prog.bodies.get(p)
                    if nme == "from_str" and b is not None:
                        return e.exec_fn(b, a, st, k)
    return k(parse_app(ty, a[0]), st)


@std("FromStr::from_str")
def _(e, c, a, st, k):
    return k(parse_app(c["self"], a[0]), st)


for _t in ("u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "i128", "u128", "isize"):
    def _fsr(e, c, a, st, k, _t=_t):
        if a[1] is Int(10):
            return k(App("parse:" + _t, a[0]), st)
        return k(App("radix:" + _t, *a), st)
    STD[_t + "::from_str_radix"] = _fsr


@std("PartialEq::eq", "PartialEq::ne")
def _(e, c, a, st, k):
    a = [e.load(x, st) if x.op == "RefMut" else x for x in a]
    neg = c["method"] == "ne"
    v = eqv(a[0], a[1])
    return k(notv(v) if neg else v, st)


def eqv(x, y):
    if x is y:
        return TRUE
    if x.op == "Int" and y.op == "Int":
        return Bool(x.a[0] == y.a[0])
    if charpos(x) is not None or charpos(y) is not None:
        return engine.binop("Eq", x, y)
    if x.op == "Str" and y.op == "Str":
        return Bool(x.a[0] == y.a[0])
    if y.op == "Str":
        return text_eq_v(x, y)
    if x.op == "Str":
        return text_eq_v(y, x)
    if x.op == "Adt" and y.op == "Adt" and x.a[0] == y.a[0]:
        if x.a[1] != y.a[1]:
            return FALSE
        if len(x.a) == 2:
            return TRUE
        if x.a[0] == OPTION:
            return eqv(x.a[2], y.a[2])
    if x.op == "Adt" and len(x.a) == 2 and y.op != "Adt":
        x, y = y, x
    if y.op == "Adt" and len(y.a) == 2 and x.op != "Adt":
        return engine.binop("Eq", T("Discr", x, y.a[0]), Int(y.a[1]))
    if x.op == "Rest" and y.op == "Rest":
        return notv(T("Moved2", x.a[0], y.a[0]))
    if y.id < x.id:
        x, y = y, x
    return App("eq", x, y)


def text_eq_v(x, lit):
    if lit.a[0] == "":
        return notv(nonempty_v(x)) if x.op in ("Text", "Rest") else T("TextEq", x, lit)
    return T("TextEq", x, lit)


@std("str::eq_ignore_ascii_case", "String::eq_ignore_ascii_case", "slice::eq_ignore_ascii_case")
def _(e, c, a, st, k):
    x, y = a
    if c["path"].split("::")[-1] == "eq_ignore_ascii_case" and "slice" in c["path"]:
        # bytes of texts
        x, y = (z.a[0] if z.op == "Bytes" else z.a[1] if z.op == "App" and z.a[0] in ("bytes", "as_bytes") else z
                for z in (x, y))
        if x.op not in ("Text", "Rest", "Str", "App") or y.op not in ("Text", "Rest", "Str", "App"):
            return None
    if x.op == "Str" and y.op == "Str":
        return k(Bool(x.a[0].lower() == y.a[0].lower()), st)
    if y.op != "Str":
        x, y = y, x
    if y.op == "Str" and y.a[0].isascii():
        return k(T("TextEqCI", x, y), st)
    return None


@std("str::is_empty", "String::is_empty", "Vec::is_empty", "slice::is_empty")
def _(e, c, a, st, k):
    v = e.load(a[0], st) if a[0].op == "RefMut" else a[0]
    return k(notv(nonempty_v(v)), st)


@std("str::len", "String::len", "Vec::len", "slice::len")
def _(e, c, a, st, k):
    v = e.load(a[0], st) if a[0].op == "RefMut" else a[0]
    if v.op == "Str":
        return k(Int(len(v.a[0].encode())), st)
    if v.op == "Text":
        # characters known to be ASCII
        n, p = 0, v.a[0]
        while p is not v.a[1] and n < 64 and e.know(st, p) <= engine.ASCIISET:
            n, p = n + 1, Next(p)
        if p is v.a[1]:
            return k(Int(n), st)
    return k(T("Len", v), st)


@std("str::contains", "slice::contains", "Vec::contains")
def _(e, c, a, st, k):
    h, n = a[0], a[1]
    cs = char_list(h, "one_of") if h.op in ("Str", "Arr") else None
    if cs is not None and charpos(n) is not None:
        return k(charset_pred(n, cs), st)
    if h.op == "Text" and (n.op in ("Int", "Arr", "Clo", "Fn") or n.op == "Str" and len(n.a[0]) == 1):
        try:
            cs = (CharSet.of(n.a[0]) if n.op == "Int" else CharSet.chars(n.a[0]) if n.op == "Str" else
                  char_list(n, "one_of") if n.op == "Arr" else predset(e, n, st))
        except Unsupported:
            cs = None
        if cs is not None:
            return has_char(e, h, cs, st, k)
    return k(App("contains", h, n), st)


def prefix_pattern(e, h, pat, st, yes, no):
    """does the text at position of h start with pat?"""
    if h.op != "Rest":
        return None
    pos = h.a[0]
    if pat.op == "Str":
        return e.lit(st, pat.a[0], False, pos, lambda q, v, s: yes(q, s), no)
    cs = None
    if pat.op == "Int":
        cs = CharSet.of(pat.a[0])
    elif pat.op == "Arr":
        cs = char_list(pat, "one_of")
    elif pat.op in ("Clo", "Fn"):
        try:
            cs = predset(e, pat, st)
        except Unsupported:
            return None
    if cs is None:
        return None
    return e.test(st, pos, cs, lambda s: yes(Next(pos), s), no)


@std("str::starts_with")
def _(e, c, a, st, k):
    return prefix_pattern(e, a[0], a[1], st, lambda q, s: k(TRUE, s), lambda s: k(FALSE, s))


@std("str::strip_prefix")
def _(e, c, a, st, k):
    return prefix_pattern(e, a[0], a[1], st, lambda q, s: k(Some(Rest(q)), s), lambda s: k(NONE, s))


@std("str::trim_start_matches")
def _(e, c, a, st, k):
    if a[0].op != "Rest":
        return None
    pat = a[1]
    if pat.op == "Int":
        cs = CharSet.of(pat.a[0])
    elif pat.op in ("Clo", "Fn"):
        try:
            cs = predset(e, pat, st)
        except Unsupported:
            return None
    elif pat.op == "Arr":
        cs = char_list(pat, "one_of")
    else:
        return None
    if cs is None:
        return None
    return e.star(nom("cc", cs), a[0].a[0], st, lambda q, l, s: k(Rest(q), s), None, None)


WHITE = CharSet.of((9, 13), 0x20, 0x85, 0xA0, 0x1680, (0x2000, 0x200A), 0x2028, 0x2029, 0x202F, 0x205F, 0x3000)


@std("str::trim_start", "str::trim_left", "str::trim_ascii_start")
def _(e, c, a, st, k):
    if a[0].op != "Rest":
        return None
    cs = CharSet.of(9, 10, 12, 13, 32) if c["method"] == "trim_ascii_start" else WHITE
    return e.star(nom("cc", cs), a[0].a[0], st, lambda q, l, s: k(Rest(q), s), None, None)


@std("str::chars", "str::char_indices", "str::bytes")
def _(e, c, a, st, k):
    if c["method"] == "chars":
        return k(T("Chars", a[0]), st)
    if a[0].op == "Rest" and c["method"] == "char_indices":
        return k(T("CharIdx", a[0].a[0], a[0].a[0]), st)
    if a[0].op == "Rest" and c["method"] == "bytes":
        return k(T("Bytes", a[0]), st)
    return k(App(c["method"], a[0]), st)


@std("str::as_bytes", "String::as_bytes", "String::into_bytes")
def _(e, c, a, st, k):
    if a[0].op == "Rest":
        return k(T("Bytes", a[0]), st)
    return k(App("as_bytes", a[0]), st)


@std("slice::first", "slice::get")
def _(e, c, a, st, k):
    """a byte of the input"""
    if a[0].op != "Bytes" or len(a) > 1 and a[1].op != "Int":
        return None
    n = a[1].a[0] if len(a) > 1 else 0

    def step(i, p, s):
        if i == n:
            return e.test(s, p, CHARS, lambda s2: k(Some(T("Arith", "lead", C(p), 0)), s2), lambda s2: k(NONE, s2))
        return e.test(s, p, ASCII, lambda s2: step(i + 1, Next(p), s2),
                      lambda s2: e.test(s2, p, EOFSET, lambda s3: k(NONE, s3),
                                        lambda s3: k(App("byte", Rest(p)), s3)))
    return step(0, a[0].a[0].a[0], st)


@std("Iterator::next")
def _(e, c, a, st, k):
    r = a[0]
    if r.op != "RefMut":
        return None
    it = e.load(r, st)
    if it.op == "ElemMut":
        e.store_ref(r, T("ElemMut", it), st)
        return k(Some(it.a[0]), st)
    if it.op == "IterMut" and e.load(it.a[0], st) is NIL:
        return k(NONE, st)
    if it.op == "Elem":
        e.store_ref(r, T("Elem", it), st)
        return k(Some(T("FoldItem", it.a[0])), st)
    if it.op == "CharIdx":
        base, pos = it.a

        def more(s):
            e.store_ref(r, T("CharIdx", base, Next(pos)), s)
            n = T("Len", Text(base, pos)) if base is not pos else Int(0)
            return k(Some(Tup(n, C(pos))), s)
        return e.test(st, pos, CHARS, more, lambda s: k(NONE, s))
    if it.op == "Bytes" and it.a[0].op == "Rest":
        pos = it.a[0].a[0]

        def plain(s):
            e.store_ref(r, T("Bytes", Rest(Next(pos))), s)
            return k(Some(T("Arith", "lead", C(pos), 0)), s)

        def wide(s):
            e.store_ref(r, App("inside", Rest(pos)), s)
            return k(Some(T("Arith", "lead", C(pos), 0)), s)
        return e.test(st, pos, ASCII, plain,
                      lambda s: e.test(s, pos, EOFSET, lambda s2: k(NONE, s2), wide))
    if it.op == "App" and it.a[0].split("::")[-1] in SPLITS:
        # there is always a first piece
        e.store_ref(r, App("changed-by-Iterator::next", it), st)
        return k(Some(App("split-first", it)), st)
    if it.op == "Chars" and it.a[0].op == "Str":
        w = it.a[0].a[0]
        e.store_ref(r, T("Chars", Str(w[1:])), st)
        return k(Some(Int(ord(w[0]))) if w else NONE, st)
    if it.op == "Chars" and it.a[0].op in ("Rest", "Text"):
        x = it.a[0]
        pos = x.a[0]
        if x.op == "Rest":
            def yes(s):
                e.store_ref(r, T("Chars", Rest(Next(pos))), s)
                return k(Some(C(pos)), s)
            return e.test(st, pos, CHARS, yes, lambda s: k(NONE, s))
        if x.op == "Text" and x.a[1].op == "Next":
            e.store_ref(r, T("Chars", Text(Next(pos), x.a[1])) if x.a[1] is not Next(pos) else T("Chars", Str("")), st)
            st.K[pos] = st.k(pos) & CHARS
            return k(Some(C(pos)), st)
        return None
    if it is NIL:
        return k(NONE, st)
    if it.op == "Cons":
        e.store_ref(r, it.a[1], st)
        return k(Some(it.a[0]), st)
    return None


def cut_inside(e, c):
    e.event("panic", "slice of a text at a byte offset", c["path"])
    return panic("slice inside a character or beyond the end")


def text_slice(e, h, r, method, st, fin, bad):
    """part of a text of known shape, cut after ASCII characters; None: not known"""
    p, q = h.a

    def front(v, s, kk):
        """v bytes from the beginning"""
        if v.op == "Len" and v.a[0].op == "Text" and v.a[0].a[0] is p and engine.on_chain(v.a[0].a[1], q):
            return kk(v.a[0].a[1], s)
        if v is T("Len", h):
            return kk(q, s)
        if v.op == "App" and v.a[0] == "bin-Sub" and v.a[1] is T("Len", h) and v.a[2].op == "Int":
            return back(v.a[2].a[0], q, s, kk)
        if v.op != "Int":
            return None
        x = p
        for _ in range(v.a[0]):
            x = Next(x)
        if not engine.on_chain(x, q):
            return None

        def step(x, n, s):
            return kk(x, s) if n == 0 else e.test(s, x, ASCII, lambda s2: step(Next(x), n - 1, s2), bad)
        return step(p, v.a[0], s)

    def back(n, x, s, kk):
        if n == 0:
            return kk(x, s)
        if x.op != "Next" or x is p:
            return None
        y = x.a[0]
        if not e.know(s, y) <= ASCII:
            return None
        return back(n - 1, y, s, kk)
    if method == "split_at":
        return front(r, st, lambda x, s: fin(Tup(Text(p, x), Text(x, q)), s))
    ty = r.a[0].split("::")[-1]
    if ty == "RangeFull":
        return fin(h, st)
    if ty == "RangeFrom":
        return front(r.a[2], st, lambda x, s: fin(Text(x, q), s))
    if ty == "RangeTo":
        return front(r.a[2], st, lambda x, s: fin(Text(p, x), s))
    if ty == "Range":
        return front(r.a[2], st, lambda x, s: front(
            r.a[3], s, lambda y, s2: fin(Text(x, y), s2) if engine.on_chain(x, y) else unk("part of a text")) or unk("part of a text"))
    return None


@std("Vec::drain")
def _(e, c, a, st, k):
    if a[0].op != "RefMut" or a[1].op != "Adt" or not a[1].a[0].endswith("RangeFull"):
        return None
    v = e.load(a[0], st)
    e.store_ref(a[0], NIL, st)
    return k(v, st)


SPLITS = ("split", "splitn", "rsplit", "rsplitn", "split_terminator", "split_inclusive")


@std("Index::index", "str::get", "str::get_unchecked", "str::split_at")
def _(e, c, a, st, k):
    h, r = a
    get = c["method"] == "get"
    fin = (lambda v, s: k(Some(v), s)) if get else k
    if h.op == "Rest" and (r.op == "Adt" or c["method"] == "split_at"):
        ty = r.a[0].split("::")[-1] if r.op == "Adt" else ""
        if ty == "RangeFull":
            return fin(h, st)

        def forth(n, p0, s, kk):
            """n bytes of ASCII text from p0"""
            def step(i, p, s):
                if i == n:
                    return kk(p, s)

                def bad(s):
                    if get:
                        return k(NONE, s)
                    e.event("panic", "slice of the input at a byte offset", c["path"])
                    return panic("slice inside a character or beyond the end")
                return e.test(s, p, ASCII, lambda s2: step(i + 1, Next(p), s2), bad)
            # the first bytes, where the characters are not known
            x = (Rest(p0), Int(n))
            fine = App("is_char_boundary", *x)
            if p0 is h.a[0] and n <= 64 and e.bytes_known(s, p0, n) is None and (get and n > 1 or s.cond.get(fine) == 1):
                def cut(s):
                    if c["method"] == "split_at":
                        return k(Tup(App("bytes-before", *x), App("bytes-after", *x)), s)
                    return fin(App("bytes-before" if ty != "RangeFrom" else "bytes-after", *x), s)
                return e.cond(s, fine, [0, 1], lambda l, s2: cut(s2) if l else k(NONE, s2))
            return step(0, p0, s)

        def at(v, s, kk):
            """advance v bytes from the start: text after text, and ASCII characters of a fixed number"""
            n, rest = 0, []

            def parts(x):
                nonlocal n
                if x.op == "App" and x.a[0] == "bin-Add":
                    return all([parts(y) for y in x.a[1:]])
                if x.op == "Int":
                    n += x.a[0]
                elif x.op == "Len" and x.a[0].op == "Str":
                    n += len(x.a[0].a[0].encode())
                elif x.op == "Len" and x.a[0].op in ("Text", "Rest"):
                    rest.append(x)
                else:
                    return False
                return True
            if not parts(v):
                return None

            def walk(p, n, rest, s):
                for i, x in enumerate(rest):
                    if x.a[0].a[0] is p:
                        left = rest[:i] + rest[i + 1:]
                        if x.a[0].op == "Text":
                            return walk(x.a[0].a[1], n, left, s)
                        # the end of the input
                        if n == 0 and not left:
                            return end(p, s)
                if not rest:
                    return forth(n, p, s, kk)
                if n > 0:
                    return forth(1, p, s, lambda q, s2: walk(q, n - 1, rest, s2))
                return unk("a byte offset is not the length of the text before it: %r" % (v,))

            def end(p, s):
                for q, K in s.K.items():
                    if K <= EOFSET and engine.on_chain(p, q):
                        return kk(q, s)
                return e.star(nom("cc", CHARS), p, s, lambda q, l, s2: kk(q, s2), None, None)
            return walk(h.a[0], n, rest, s)
        if c["method"] == "split_at":
            return at(r, st, lambda p, s: k(Tup(Text(h.a[0], p), Rest(p)), s))
        if ty == "RangeFrom":
            return at(r.a[2], st, lambda p, s: fin(Rest(p), s))
        if ty == "RangeTo":
            return at(r.a[2], st, lambda p, s: fin(Text(h.a[0], p), s))
        if ty == "Range" and r.a[2] is Int(0):
            return at(r.a[3], st, lambda p, s: fin(Text(h.a[0], p), s))
    if h.op == "Text" and (r.op == "Adt" or c["method"] == "split_at"):
        x = text_slice(e, h, r, c["method"], st, fin, lambda s: k(NONE, s) if get else cut_inside(e, c))
        if x is not None:
            return x
    if h.op == "Arr" and r.op == "Int" and r.a[0] < len(h.a):
        return fin(h.a[r.a[0]], st)
    if r.op == "Int":
        x, n = h, r.a[0]
        while x.op == "Cons" and n > 0:
            x, n = x.a[1], n - 1
        if x.op == "Cons" and n == 0:
            return fin(x.a[0], st)
    if r.op == "Adt" and h.op not in ("Rest", "Arr"):
        ty = r.a[0].split("::")[-1]
        n = T("Len", h)
        if ty == "RangeFull" or ty == "RangeFrom" and r.a[2] is Int(0) or ty == "RangeTo" and r.a[2] is n \
                or ty == "Range" and r.a[2] is Int(0) and r.a[3] is n:
            return fin(h, st)
    if not get:
        e.event("panic", "index", c["path"])
    return None


@std("char::len_utf8")
def _(e, c, a, st, k):
    v = e.load(a[0], st) if a[0].op == "RefMut" else a[0]
    if v.op == "C":
        return k(T("Len", Text(v.a[0], Next(v.a[0]))), st)
    if v.op == "Int":
        return k(Int(len(chr(v.a[0]).encode())), st)
    return k(App("len_utf8", v), st)


@std("str::is_char_boundary")
def _(e, c, a, st, k):
    if a[1] is Int(0) or a[1] is T("Len", a[0]):
        return k(TRUE, st)
    if a[0].op != "Rest" or a[1].op != "Int" or a[1].a[0] > 64:
        return None
    known = e.bytes_known(st, a[0].a[0], a[1].a[0])
    if known is not None:
        return k(Bool(known), st)
    return e.cond(st, App("is_char_boundary", *a), [0, 1], lambda l, s: k(Bool(l == 1), s))


@std("str::find")
def _(e, c, a, st, k):
    if a[0].op != "Rest":
        return None
    p = a[0].a[0]
    pat = a[1]
    cs = None
    if pat.op == "Int":
        cs = CharSet.of(pat.a[0])
    elif pat.op in ("Clo", "Fn"):
        try:
            cs = predset(e, pat, st)
        except Unsupported:
            return None
    elif pat.op == "Arr":
        cs = char_list(pat, "one_of")
    if cs is None:
        return None

    def done(q, l, s):
        n = Int(0) if q is p else T("Len", Text(p, q))
        return e.test(s, q, EOFSET, lambda s2: k(NONE, s2), lambda s2: k(Some(n), s2))
    return e.star(nom("cc", CHARS - cs), p, st, done, None, None)


@std("Iterator::take_while")
def _(e, c, a, st, k):
    it = a[0]
    if it.op != "Chars" or it.a[0].op != "Rest":
        return None
    try:
        cs = predset(e, a[1], st)
    except Unsupported:
        return None
    p = it.a[0].a[0]
    return e.star(nom("cc", cs), p, st, lambda q, l, s: k(T("Chars", Text(p, q)), s), None, None)


def chars_at(it):
    """the position of an iterator over the characters of the input, and how to build its item and itself"""
    if it.op == "CharIdx":
        base, p = it.a
        return p, (lambda q: Tup(T("Len", Text(base, q)) if q is not base else Int(0), C(q))), (lambda q: T("CharIdx", base, q))
    if it.op in ("Chars", "Bytes") and it.a[0].op == "Rest":
        return it.a[0].a[0], C, lambda q: T(it.op, Rest(q))
    return None


HIGH = CharSet.of((0x80, 0xff))


def byte_stops(cs, stop_in):
    """the characters at which a walk over the bytes of a text stops, when it does so at bytes (not) in cs"""
    stop = cs if stop_in else CharSet.of((0, 0xff)) - cs
    if not stop & HIGH:
        return stop & ASCII
    if HIGH <= stop:
        return stop & ASCII | CHARS - ASCII
    return None


def has_char(e, v, cs, st, k):
    """is a character of cs in a text?"""
    ps = positions(v)
    if ps is None:
        return e.cond(st, App("any-of-text", v, T("Set", cs)), [0, 1], lambda b, s: k(Bool(b == 1), s))

    def go(i, s):
        if i == len(ps):
            return k(FALSE, s)
        return e.test(s, ps[i], cs, lambda s2: k(TRUE, s2), lambda s2: go(i + 1, s2))
    return go(0, st)


def item_set(e, f, it, st):
    """the characters whose items a predicate accepts"""
    if it.op in ("Chars", "Bytes"):
        return predset(e, f, st)
    # the offset plays no part in the answer, or it is not a set of characters
    return predset(e, e.pyfn(lambda e2, a, s, k: e2.apply(f, [Tup(App("some-offset"), a[0])], s, k)), st)


def positions(v):
    """the positions of the characters of a text of known length"""
    if v.op != "Text":
        return None
    p, q = v.a
    ps = []
    while q.op == "Next" and q is not p and len(ps) < 64:
        q = q.a[0]
        ps.append(q)
    return ps[::-1] if q is p else None


def ends_of_zip(t):
    """what is walked, and whether byte by byte"""
    if t.op in ("Chars", "Bytes"):
        return t.a[0], t.op == "Bytes"
    if t.op == "App" and t.a[0] == "bytes":
        return t.a[1], True
    return None, False


@std("Iterator::zip")
def _(e, c, a, st, k):
    x, y = a
    (v, bx), (w, by) = ends_of_zip(x), ends_of_zip(y)
    if v is None or w is None or bx != by:
        return None
    for lit, other in ((v, w), (w, v)):
        if lit.op == "Str" and lit.a[0].isascii() and other.op != "Str":
            return k(App("zip", x, y), st)
    return None


def all_of_zip(e, f, it, st):
    """all(|(x, y)| f) of the characters of a text and those of a constant: None, or a function of yes and no"""
    (v, bytewise), (w, _) = ends_of_zip(it.a[1]), ends_of_zip(it.a[2])
    first = w.op == "Str"
    lit, v = (w.a[0], v) if first else (v.a[0], w)
    ps = positions(v)
    if ps is None and v.op == "App" and v.a[0] == "bytes-before" and v.a[2].op == "Int" and v.a[2].a[0] == len(lit):
        p, ps, bytewise = v.a[1].a[0], [], True     # as many bytes as the constant has: all of them have to be ASCII
        for _ in lit:
            ps.append(p)
            p = Next(p)
    if ps is None or not ps:
        return None
    sets = []
    for ch in lit[:len(ps)]:
        key = ("pair", f, ch, first)
        if key not in _pre:
            def pair(e2, a, s, k, ch=ch):
                n = Int(ord(ch))
                return e2.apply(f, [Tup(a[0], n) if first else Tup(n, a[0])], s, k)
            try:
                _pre[key] = predset(e, e.pyfn(pair), st)
            except Unsupported:
                _pre[key] = None
        cs = _pre[key]
        if cs is None or bytewise and cs & CharSet.of((0x80, 0xff)):
            return None
        sets.append(cs & ASCII if bytewise else cs)
    if v.op == "App" and any(cs - ASCII for cs in sets):
        return None
    lit = lit[:len(ps)]
    if len(ps) == len(lit) and v.op == "Text":
        if all(cs is c for cs, c in zip(sets, engine.lit_sets(lit, True))) or \
                all(cs <= c and c <= cs for cs, c in zip(sets, engine.lit_sets(lit, True))):
            return T("TextEqCI", v, Str(lit))
        return T("TextIn", v, Str(lit), tuple(sets))
    return lambda yes, no: e.word(st, ps[0], sets, lit, yes, no)


def unroll(e, l, s, each, end):
    """the items of a list of known length, one after the other: each(item, rest, st, more)"""
    if l is NIL:
        return end(s)
    return each(l.a[0], l.a[1], s, lambda s2: unroll(e, l.a[1], s2, each, end))


def known_list(l):
    n = 0
    while l.op == "Cons" and n < 200:
        l, n = l.a[1], n + 1
    return l is NIL


@std("Iterator::any", "Iterator::all", "Iterator::find", "Iterator::position")
def _(e, c, a, st, k):
    r, f = a
    it = e.load(r, st) if r.op == "RefMut" else r
    m = c["method"]

    def put(v, s):
        if r.op == "RefMut":
            e.store_ref(r, v, s)
    if it.op == "Chars" and it.a[0].op == "Str":
        it = mklist([Int(ord(x)) for x in it.a[0].a[0]])
    if m == "all" and it.op == "App" and it.a[0] == "zip":
        go = all_of_zip(e, f, it, st)
        if go is None:
            return None
        put(App("changed-by-Iterator::all", it), st)
        if isinstance(go, T):
            return k(go, st)
        return go(lambda s: k(TRUE, s), lambda s: k(FALSE, s))
    if m in ("any", "all") and (it.op == "Chars" or it.op == "App" and it.a[0] == "bytes"):
        v = it.a[0] if it.op == "Chars" else it.a[1]
        if v.op == "V":
            # characters of what a rule returns: told apart by its first one already?
            try:
                cs = predset(e, f, st)
            except Unsupported:
                return None
            first = e.nts[v.a[0]].first & CHARS
            if first & cs and first - cs and (it.op == "Chars" or cs <= ASCII):
                put(App("changed-by-Iterator::" + m, it), st)
                return e.cond(st, App("Iterator::%s-of" % m, v, T("Set", cs)), [0, 1], lambda b, s: k(Bool(b), s))
    v, bytewise = ends_of_zip(it)
    if m in ("any", "all") and v is not None and v.op == "Text":
        try:
            cs = predset(e, f, st)
        except Unsupported:
            return None
        stop = byte_stops(cs, m == "any") if bytewise else CHARS - cs if m == "all" else cs
        if stop is None:
            return None
        put(App("changed-by-Iterator::" + m, it), st)
        return has_char(e, v, stop, st, lambda b, s: k(b if m == "any" else notv(b), s))
    if it.op == "CharIdx" or it.op == "Chars" or it.op == "Bytes":
        h = chars_at(it)
        if h is None:
            return None
        p, item, at = h
        try:
            cs = item_set(e, f, it, st)
        except Unsupported:
            return None
        stop = CHARS - cs if m == "all" else cs
        if it.op == "Bytes":
            stop = byte_stops(cs, m != "all")
            if stop is None or stop - ASCII:
                return None

        def done(q, l, s):
            def none(s):
                put(at(q), s)
                return k({"any": FALSE, "all": TRUE}.get(m, NONE), s)

            def some(s):
                put(at(Next(q)), s)
                if m == "find":
                    return k(Some(item(q)), s)
                if m == "position":
                    if q is p:
                        return k(Some(Int(0)), s)
                    n = T("Len", Text(p, q)) if CHARS - stop <= ASCII or it.op == "Bytes" else App("number-of-chars", Text(p, q))
                    return k(Some(n), s)
                return k(Bool(m == "any"), s)
            return e.test(s, q, EOFSET, none, some)
        return e.star(nom("cc", CHARS - stop), p, st, done, None, None)
    it = arr_list(it)
    if not known_list(it):
        return None

    def each(x, rest, s, more):
        def hit(s):
            put(rest, s)
            if m == "find":
                return k(Some(x), s)
            if m == "position":
                i, l = 0, it
                while l.a[1] is not rest:
                    i, l = i + 1, l.a[1]
                return k(Some(Int(i)), s)
            return k(Bool(m == "any"), s)

        def answer(v, s):
            return branch(e, v, s, more, hit) if m == "all" else branch(e, v, s, hit, more)
        return e.apply(f, [x], s, answer)

    def end(s):
        put(NIL, s)
        return k({"any": FALSE, "all": TRUE}.get(m, NONE), s)
    return unroll(e, it, st, each, end)


@std("Iterator::rev", "Iterator::enumerate", "Iterator::skip", "Iterator::take")
def _(e, c, a, st, k):
    l = arr_list(a[0])
    if l.op == "Chars" and l.a[0].op == "Str":
        l = mklist([Int(ord(x)) for x in l.a[0].a[0]])
    m = c["method"]
    if m == "skip" and a[1].op == "Int":
        h = chars_at(l)
        if h is not None:
            def go(i, p, s):
                if i == a[1].a[0]:
                    return k(h[2](p), s)
                return e.test(s, p, CHARS, lambda s2: go(i + 1, Next(p), s2), lambda s2: k(h[2](p), s2))
            return go(0, h[0], st) if a[1].a[0] < 32 else None
    if not known_list(l):
        return None
    xs = []
    while l is not NIL:
        xs.append(l.a[0])
        l = l.a[1]
    if m == "rev":
        return k(mklist(xs[::-1]), st)
    if m == "enumerate":
        return k(mklist([Tup(Int(i), x) for i, x in enumerate(xs)]), st)
    if a[1].op != "Int":
        return None
    return k(mklist(xs[a[1].a[0]:] if m == "skip" else xs[:a[1].a[0]]), st)


@std("Iterator::sum")
def _(e, c, a, st, k):
    if a[0].op == "CharLens":
        v = a[0].a[0]
        return k(Int(0) if v.op == "Str" else T("Len", v), st)
    return None


# characters
def cpred(cs):
    def h(e, c, a, st, k):
        v = e.load(a[0], st) if a[0].op == "RefMut" else a[0]
        return k(charset_pred(v, cs), st)
    return h


PUNCT = CharSet.of(("!", "/"), (":", "@"), ("[", "`"), ("{", "~"))
for _ty in ("char", "u8"):
    STD[_ty + "::is_ascii_digit"] = cpred(DIGIT)
    STD[_ty + "::is_ascii_alphabetic"] = cpred(ALPHA)
    STD[_ty + "::is_ascii_alphanumeric"] = cpred(ALPHA | DIGIT)
    STD[_ty + "::is_ascii_hexdigit"] = cpred(HEX)
    STD[_ty + "::is_ascii_uppercase"] = cpred(CharSet.of(("A", "Z")))
    STD[_ty + "::is_ascii_lowercase"] = cpred(CharSet.of(("a", "z")))
    STD[_ty + "::is_ascii_whitespace"] = cpred(CharSet.chars(" \t\n\r\x0c"))
    STD[_ty + "::is_ascii_punctuation"] = cpred(PUNCT)
    STD[_ty + "::is_ascii_control"] = cpred(CharSet.of((0, 0x1F), 0x7F))
    STD[_ty + "::is_ascii"] = cpred(ASCII)
    STD[_ty + "::is_ascii_graphic"] = cpred(CharSet.of(("!", "~")))
STD["char::is_control"] = cpred(CharSet.of((0, 0x1F), (0x7F, 0x9F)))
STD["char::is_whitespace"] = cpred(CharSet.of((9, 13), 0x20, 0x85, 0xA0, 0x1680, (0x2000, 0x200A), 0x2028, 0x2029,
                                              0x202F, 0x205F, 0x3000))
_uni = {}


def unipred(name):
    import unicodedata

    def build():
        ivs = []
        run = None
        for c in range(0x110000):
            cat = unicodedata.category(chr(c))
            y = {"is_alphabetic": cat[0] == "L" or cat == "Nl",
                 "is_numeric": cat[0] == "N",
                 "is_alphanumeric": cat[0] in "LN",
                 "is_lowercase": cat == "Ll", "is_uppercase": cat == "Lu"}[name]
            if y and run is None:
                run = c
            elif not y and run is not None:
                ivs.append((run, c))
                run = None
        return CharSet.norm(ivs)

    def h(e, c, a, st, k):
        if name not in _uni:
            _uni[name] = build()
        return k(charset_pred(a[0], _uni[name]), st)
    return h


for _n in ("is_alphabetic", "is_numeric", "is_alphanumeric", "is_lowercase", "is_uppercase"):
    STD["char::" + _n] = unipred(_n)


@std("char::is_digit")
def _(e, c, a, st, k):
    if a[1].op == "Int" and 2 <= a[1].a[0] <= 36:
        r = a[1].a[0]
        cs = CharSet.of(("0", chr(ord("0") + min(r, 10) - 1)))
        if r > 10:
            cs = cs | CharSet.of(("a", chr(ord("a") + r - 11)), ("A", chr(ord("A") + r - 11)))
        return k(charset_pred(a[0], cs), st)
    return None


@std("char::to_ascii_lowercase", "u8::to_ascii_lowercase")
def _(e, c, a, st, k):
    if charpos(a[0]) is not None:
        return k(T("Arith", "ascii_lower", a[0], 0), st)
    return None


@std("char::to_ascii_uppercase", "u8::to_ascii_uppercase")
def _(e, c, a, st, k):
    if charpos(a[0]) is not None:
        return k(T("Arith", "ascii_upper", a[0], 0), st)
    return None


@std("char::eq_ignore_ascii_case", "u8::eq_ignore_ascii_case")
def _(e, c, a, st, k):
    x, y = a
    if charpos(x) is not None and y.op == "Int":
        return k(charset_pred(x, ci(chr(y.a[0]))), st)
    if charpos(y) is not None and x.op == "Int":
        return k(charset_pred(y, ci(chr(x.a[0]))), st)
    return None


@std("RangeInclusive::new")
def _(e, c, a, st, k):
    return k(T("Adt", "core::ops::range::RangeInclusive", 0, a[0], a[1], FALSE), st)


@std("RangeInclusive::contains", "Range::contains", "RangeFrom::contains", "RangeTo::contains", "RangeToInclusive::contains",
     "RangeBounds::contains")
def _(e, c, a, st, k):
    r = a[0]
    v = e.load(a[1], st) if a[1].op == "RefMut" else a[1]
    if r.op != "Adt":
        return None
    ty = r.a[0].split("::")[-1]
    b = r.a[2:]
    tests = {"RangeInclusive": [("Ge", 0), ("Le", 1)], "Range": [("Ge", 0), ("Lt", 1)], "RangeFrom": [("Ge", 0)],
             "RangeTo": [("Lt", 0)], "RangeToInclusive": [("Le", 0)]}.get(ty)
    if tests is None:
        return None

    def step(i, s):
        if i == len(tests):
            return k(TRUE, s)
        op, j = tests[i]
        return branch(e, engine.binop(op, v, b[j]), s, lambda s2: step(i + 1, s2), lambda s2: k(FALSE, s2))
    xs = [engine.binop(op, v, b[j]) for op, j in tests]
    if all(x.op in ("InSet", "Int") for x in xs):
        x = xs[0]
        for y in xs[1:]:
            x = engine.binop("BitAnd", x, y) if x.op == y.op else (x if y.a[0] else y) if y.op == "Int" else \
                (y if x.a[0] else x)
        return k(x, st)
    return step(0, st)


# vectors
@std("Vec::new", "Vec::with_capacity", "String::new", "String::with_capacity")
def _(e, c, a, st, k):
    return k(NIL if tyname(c["inherent"]) == "Vec" else Str(""), st)


@std("Vec::push")
def _(e, c, a, st, k):
    r, x = a
    if r.op != "RefMut":
        return None
    e.store_ref(r, append(e.load(r, st), Cons(x, NIL)), st)
    return k(UNIT, st)


@std("String::push_str", "String::push", "AddAssign::add_assign", "Write::write_str", "Write::write_char",
     "Write::write_fmt", "String::write_str")
def _(e, c, a, st, k):
    r, x = a
    v = e.load(r, st) if r.op == "RefMut" else None
    if v is None or not stringy(e, v):
        return None
    if c["method"] in ("push", "write_char"):
        x = piece(x)
    e.store_ref(r, Cat(v, x), st)
    return k(Ok(UNIT) if c["method"].startswith("write") else UNIT, st)


@std("String::insert_str", "String::insert")
def _(e, c, a, st, k):
    r, i, x = a
    v = e.load(r, st) if r.op == "RefMut" else None
    if v is None or i is not Int(0):
        return None
    e.store_ref(r, Cat(piece(x) if c["method"] == "insert" else x, v), st)
    return k(UNIT, st)


@std("Add::add")
def _(e, c, a, st, k):
    if tyname(c["self"]) == "String":
        return k(Cat(a[0], a[1]), st)
    return None


@std("String::from_utf8", "String::from_utf8_lossy", "String::from_utf8_unchecked", "core::str::converts::from_utf8",
     "core::str::converts::from_utf8_unchecked", "str::from_utf8")
def _(e, c, a, st, k):
    x = a[0]
    if x.op == "Bytes" or x.op == "App" and x.a[0] == "as_bytes":
        t = x.a[0] if x.op == "Bytes" else x.a[1]
        return k(t if c["path"].endswith(("lossy", "unchecked")) else Ok(t), st)
    return None


@std("String::clear")
def _(e, c, a, st, k):
    if a[0].op != "RefMut":
        return None
    e.store_ref(a[0], Str(""), st)
    return k(UNIT, st)


def stringy(e, v):
    if v.op in ("Text", "Str", "Cat", "Rest"):
        return True
    t = typeof(e, v)
    return v.op in ("FoldAcc", "Acc") or t is not None and tyname(t) in ("String", "str")


# formatting
@std("Argument::new_display")
def _(e, c, a, st, k):
    t = next((t for t in c["args"] if t["k"] not in ("lifetime",)), None)
    while t is not None and t["k"] == "ref":
        t = t["t"]
    if t is None or t["k"] == "param":
        t = typeof(e, a[0]) or t
    n = tyname(t) if t is not None else ""
    if n in ("str", "String"):
        return k(T("FmtArg", a[0]), st)
    if n == "char":
        return k(T("FmtArg", piece(a[0])), st)
    return k(T("FmtArg", App("to_string:" + n, a[0])), st)


@std("Arguments::from_str", "Arguments::from_str_nonconst")
def _(e, c, a, st, k):
    return k(a[0], st)


@std("Arguments::new")
def _(e, c, a, st, k):
    tpl, xs = a
    if tpl.op != "Arr" or xs.op != "Arr" or any(x.op != "Int" for x in tpl.a) or any(x.op != "FmtArg" for x in xs.a):
        return None
    b = bytes(x.a[0] for x in tpl.a)
    out, i, n = [], 0, 0
    while i < len(b) and b[i]:
        if b[i] < 0x80:
            out.append(Str(b[i + 1:i + 1 + b[i]].decode()))
            i += 1 + b[i]
        elif b[i] == 0x80:
            m = b[i + 1] | b[i + 2] << 8
            out.append(Str(b[i + 3:i + 3 + m].decode()))
            i += 3 + m
        elif b[i] in (0xC0, 0xC8):
            if b[i] == 0xC8:
                n = b[i + 1] | b[i + 2] << 8
                i += 2
            out.append(xs.a[n].a[0])
            n += 1
            i += 1
        else:
            return None                 # width, precision or flags
    return k(Cat(*out), st)


@std("alloc::fmt::format")
def _(e, c, a, st, k):
    return k(a[0], st) if a[0].op in ("Cat", "Str", "Text") or stringy(e, a[0]) or not a[0].op == "App" else None


@std("Vec::append", "Vec::extend_from_slice", "Extend::extend")
def _(e, c, a, st, k):
    r, x = a
    if r.op != "RefMut":
        return None
    v = e.load(r, st)
    if v.op in ("Str", "Text", "Cat") or tyname(c.get("self") or {"k": ""}) == "String":
        t = x.a[0] if x.op == "Chars" else cat_list(e, x)
        if t is None:
            return None
        e.store_ref(r, Cat(v, t), st)
        return k(UNIT, st)
    if x.op == "RefMut":
        y = e.load(x, st)
        e.store_ref(x, NIL, st)
    else:
        y = x
    if y.op == "Adt" and y.a[0] == OPTION:
        y = Cons(y.a[2], NIL) if y.a[1] == 1 else NIL
    e.store_ref(r, append(e.load(r, st), y), st)
    return k(UNIT, st)


@std("Vec::insert")
def _(e, c, a, st, k):
    r, i, x = a
    if r.op != "RefMut":
        return None
    if i is Int(0):
        e.store_ref(r, Cons(x, e.load(r, st)), st)
        return k(UNIT, st)
    return None


@std("Iterator::map")
def _(e, c, a, st, k):
    l, f = a
    if l.op == "Chars" and f.op == "Fn" and f.a[0].endswith("len_utf8"):
        return k(T("CharLens", l.a[0]), st)
    return map_list(e, l, f, st, k)


def map_list(e, l, f, st, k):
    if l is NIL:
        return k(NIL, st)
    if l.op == "Cons":
        return e.apply(f, [l.a[0]], st,
                       lambda v, s: map_list(e, l.a[1], f, s, lambda r, s2: k(Cons(v, r), s2)))
    if l.op == "App2":
        return map_list(e, l.a[0], f, st,
                        lambda x, s: map_list(e, l.a[1], f, s, lambda y, s2: k(append(x, y), s2)))
    if l.op == "Adt" and l.a[0] == OPTION:
        return map_list(e, Cons(l.a[2], NIL) if l.a[1] == 1 else NIL, f, st, k)
    x = T("FoldItem", l)
    out = []
    e.apply(f, [x], st.clone(), lambda v, s: (out.append(v), ERR)[1])
    if len(out) == 1:
        return k(map_list_term(e, l, x, out[0]), st)
    return None or k(App("maplist", l, f), st)


@std("Iterator::chain")
def _(e, c, a, st, k):
    def aslist(v):
        if v.op == "Adt" and v.a[0] == OPTION:
            return Cons(v.a[2], NIL) if v.a[1] == 1 else NIL
        return v
    return k(append(aslist(a[0]), aslist(a[1])), st)


@std("core::iter::sources::once::once")
def _(e, c, a, st, k):
    return k(Cons(a[0], NIL), st)


@std("Iterator::fold")
def _(e, c, a, st, k):
    return fold_list(e, a[0], a[1], a[2], st, k)


@std("Iterator::collect", "FromIterator::from_iter")
def _(e, c, a, st, k):
    v = a[0]
    ty = None
    for t in reversed(c["args"]):
        if t["k"] == "adt":
            ty = t
            break
    if c["method"] == "from_iter":
        ty = c["self"]
    if ty is not None and tyname(ty) == "Vec":
        return k(v, st)
    if ty is not None and tyname(ty) == "String":
        if v.op == "Chars":
            return k(v.a[0], st)
        t = cat_list(e, v)
        if t is not None:
            return k(t, st)
    return None


def cat_list(e, l):
    """the items of a list, texts or chars, as one text"""
    if l is NIL:
        return Str("")
    if l.op == "Cons":
        t = cat_list(e, l.a[1])
        x = l.a[0]
        if t is None or x.op not in ("C", "Int", "Chr1") and not stringy(e, x):
            return None
        return Cat(piece(x) if x.op in ("C", "Int") else x, t)
    if l.op == "App2":
        x, y = cat_list(e, l.a[0]), cat_list(e, l.a[1])
        return None if x is None or y is None else Cat(x, y)
    if l.op == "L":
        return collect_text(l)
    return None


def collect_text(l):
    """concatenation of a list of verbatim pieces = the text itself"""
    vb, pos = l.a
    root = vb.a[0]
    for x in engine.leaves(vb.a[1]):
        if x.op == "Ok":
            p, v = x.a
            if v.op == "C" and v.a[0] is root and p is Next(root):
                continue
            if v.op == "Text" and v.a[0] is root and v.a[1] is p:
                continue
            return None
    rec = engine.map_leaves(vb.a[1], lambda n: T("Ok", n.a[0], UNIT) if n.op == "Ok" else n)
    return Text(pos, After(pos, T("Body", root, rec)))


CUTS = ("str::split", "str::splitn", "str::lines", "str::split_whitespace", "str::split_ascii_whitespace",
        "str::split_terminator", "str::split_inclusive")


@std("slice::concat", "Concat::concat", "slice::join", "Join::join")
def _(e, c, a, st, k):
    l = arr_list(a[0])
    if l.op == "App" and l.a[0] in CUTS and len(a) < 3:
        # a text cut up and put together again: as it was, or with all it was cut at replaced
        sep = a[1] if len(a) > 1 else Str("")
        cut = l.a[0].split("::")[-1]
        if cut in ("split", "splitn") and l.a[-1] is sep or cut == "split_inclusive" and sep is Str(""):
            return k(l.a[1], st)
        if l.a[0] != "str::split_inclusive" and not (cut == "splitn" and l.a[2].op == "Int" and l.a[2].a[0] < 2) \
                and (l.a[-1].op in ("Str", "Int") or len(l.a) == 2):
            return k(App("str::replace", l.a[1], T("Str", cut) if len(l.a) == 2 else l.a[-1], sep), st)
    if c["method"] == "join":
        xs = []
        while l.op == "Cons":
            xs.append(l.a[0])
            l = l.a[1]
        if l is not NIL or a[1].op not in ("Str", "Text"):
            return None
        l = NIL
        for i, x in enumerate(reversed(xs)):
            l = Cons(x, Cons(a[1], l) if i else l)
    t = cat_list(e, l)
    return k(t, st) if t is not None else None


@std("alloc::vec::from_elem")
def _(e, c, a, st, k):
    if a[1].op == "Int" and a[1].a[0] < 8:
        return k(mklist([a[0]] * a[1].a[0]), st)
    return None


@std("slice::into_vec", "alloc::slice::into_vec", "alloc::slice::hack::into_vec")
def _(e, c, a, st, k):
    return k(arr_list(a[0]), st)


@std("Box::new_uninit")
def _(e, c, a, st, k):
    # `vec![..]`: a fresh cell, filled through a raw pointer, then turned into a vector
    e.frame += 1
    return k(T("RefMut", e.frame, 0, ()), st)


@std("alloc::boxed::box_assume_init_into_vec_unsafe")
def _(e, c, a, st, k):
    v = e.load(a[0], st) if a[0].op == "RefMut" else a[0]
    while v.op == "Tup" and v.a and v.a[-1].op in ("Tup", "Arr"):
        v = v.a[-1]
    return k(arr_list(v), st)


def arr_list(v):
    if v.op == "Arr":
        return mklist(list(v.a))
    return v


@std("Iterator::partition")
def _(e, c, a, st, k):
    if a[0] is NIL:
        return k(Tup(NIL, NIL), st)
    return k(Tup(App("Iterator::filter", a[0], a[1]), App("Iterator::filter", a[0], a[1], Int(1))), st)


@std("slice::iter_mut")
def _(e, c, a, st, k):
    return items_mut(e, a[0], st, k)


def items_mut(e, r, st, k):
    if r.op != "RefMut":
        return None
    l = e.load(r, st)
    if l.op == "RefMut":
        return items_mut(e, l, st, k)
    return k(T("IterMut", r), st) if l.op in ("Nil", "Cons", "App2", "L", "Map", "Fld", "V") else None


@std("IntoIterator::into_iter", "slice::iter", "Vec::iter", "slice::to_vec", "Vec::into_iter")
def _(e, c, a, st, k):
    if a[0].op == "RefMut" and c["method"] == "into_iter" and c.get("args"):
        t = c["args"][0]
        if t["k"] == "ref" and tyname(t["t"]) in ("Vec", "slice"):
            return items_mut(e, a[0], st, k)
    v = e.load(a[0], st) if a[0].op == "RefMut" and c["method"] != "into_iter" else a[0]
    return k(arr_list(v), st)


@std("From::from#vec")
def _(e, c, a, st, k):
    return None


@std("bool::then", "bool::then_some")
def _(e, c, a, st, k):
    return branch(e, a[0], st,
                  lambda s: k(Some(a[1]), s) if c["method"] == "then_some"
                  else e.apply(a[1], [], s, lambda v, s2: k(Some(v), s2)),
                  lambda s: k(NONE, s))


@std("ops::Not::not", "Not::not")
def _(e, c, a, st, k):
    return k(notv(a[0]), st)
