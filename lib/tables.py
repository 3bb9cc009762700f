"""Decision tables of the small functions on the tree types, read off their MIR.

Each function is run abstractly once per shape of its arguments: every variant, the
fields opaque.  The result is a decision tree over the opaque fields.
"""
import json

import engine
import refine

from compare import unks
from engine import Engine, St, TooBig, Unsupported, leaves, unk
from findings import Finding
from terms import *
from terms import T
import show as showmod


def arg(name):
    return T("Arg", name)


def evaluate(a, body, args):
    e = Engine(a.g.prog, a.g.nts, a.g.transparent)
    e.visited = a.g.I.e.visited
    e.rule = body["path"]
    try:
        return e.exec_fn(body, args, St(), lambda v, s: T("Ret", v)), e
    except (TooBig, Unsupported, RecursionError, AttributeError, TypeError, KeyError, IndexError, ValueError) as x:
        return unk("%s: %s" % (type(x).__name__, x)), e


def method(a, ty, name, trait=None):
    """the body of a method of a type"""
    for i in a.dump["impls"]:
        if i["self"].get("path", "").split("::")[-1] != ty:
            continue
        tr = (i["trait"] or "").split("::")[-1] or None
        if tr != trait:
            continue
        for n, p in i["items"]:
            if n == name:
                return a.g.prog.bodies.get(p)
    return None


def adt(a, name):
    ps = a.g.prog.short.get(name, [])
    return a.g.prog.adts[ps[0]] if len(ps) == 1 else None


def shapes(t, prefix):
    """every variant of a type with opaque fields"""
    for i, va in enumerate(t["variants"]):
        yield va["name"], T("Adt", t["path"], i, *[arg("%s.%s" % (prefix, f["name"])) for f in va["fields"]])


def structural(a, t, tr, i):
    """does a hand-written ==, != or clone do what the derived one does?

    None: cannot be told, "": yes, else the difference
    """
    meth = {"PartialEq": "eq", "Clone": "clone", "ne": "ne"}[tr]
    b = [a.g.prog.bodies.get(p) for n, p in i["items"] if n == meth]
    if not b or b[0] is None:
        return None
    b = b[0]
    pr = showmod.Printer(a.g.prog)
    unknown = False
    for n1, x in shapes(t, "self"):
        if tr == "Clone":
            pairs = [(n1, [x], T("Ret", x), lambda n: n)]
        else:
            pairs = []
            for n2, y in shapes(t, "other"):
                want = RF
                if n1 == n2:
                    want = RT
                    for p, q in reversed(list(zip(x.a[2:], y.a[2:]))):
                        want = truth(eqterm(p, q), want, RF)
                if tr == "ne":
                    want = engine.map_leaves(want, lambda l: RF if l is RT else RT)
                pairs.append(("%s and %s" % (n1, n2), [x, y], want, bools))
        for what, args, want, norm in pairs:
            got = norm(evaluate(a, b, args)[0])
            if ordered(got) is ordered(want):
                continue
            if unks(got):
                unknown = True
                continue
            return "%s of %s gives %s" % (meth, what, " / ".join(l.strip() for l in pr.tree(got))[:300])
    return None if unknown else ""


def eqterm(x, y):
    from models import eqv
    return eqv(x, y)


def ordered(t):
    """tests on independent boolean terms, in one fixed order"""
    return _ordered(t, {})


def _ordered(t, memo):
    r = memo.get(t)
    if r is None:
        terms = set()
        if t.op != "Cond" or not _bool_terms(t, terms):
            r = t
        else:
            m = min(terms, key=lambda x: x.id)
            lo, hi = [_ordered(_restrict(t, m, b, {}), memo) for b in (0, 1)]
            r = lo if lo is hi else T("Cond", m, ((0, lo), (1, hi)))
        memo[t] = r
    return r


def _bool_terms(t, out):
    if t.op != "Cond":
        return not any(k.op == "Cond" for k in engine.kids(t)) if t.op in ("Sw", "Eof") else True
    if set(l for l, _ in t.a[1]) != {0, 1}:
        return False
    out.add(t.a[0])
    return all(_bool_terms(n, out) for _, n in t.a[1])


def _restrict(t, m, b, memo):
    if t.op != "Cond":
        return t
    r = memo.get(t)
    if r is None:
        if t.a[0] is m:
            r = _restrict(dict(t.a[1])[b], m, b, memo)
        else:
            r = engine.mk_cond(t.a[0], tuple((l, _restrict(n, m, b, memo)) for l, n in t.a[1]))
        memo[t] = r
    return r


def fields_of(a, ty, name, depth):
    """values of a type: structs opened, booleans both ways, everything else opaque"""
    if ty["k"] == "prim" and ty["name"] == "bool":
        return [FALSE, TRUE]
    if ty["k"] == "tuple":
        return [T("Tup", *xs) for xs in product([fields_of(a, x, "%s.%d" % (name, i), depth)
                                                 for i, x in enumerate(ty["args"])])]
    if ty["k"] == "adt" and ty["path"] == "alloc::boxed::Box":
        return fields_of(a, ty["args"][0], name, depth)
    if ty["k"] == "adt" and ty["path"] in a.g.prog.adts and depth > 0:
        t = a.g.prog.adts[ty["path"]]
        if len(t["variants"]) == 1:
            return values(a, t, name, depth - 1)
    return [arg(name)]


def product(ls):
    out = [()]
    for l in ls:
        out = [x + (y,) for x in out for y in l]
    return out


def values(a, t, name, depth=3):
    out = []
    for i, va in enumerate(t["variants"]):
        for xs in product([fields_of(a, f["ty"], "%s.%s" % (name, f["name"]), depth) for f in va["fields"]]):
            out.append(T("Adt", t["path"], i, *xs))
    return out


def variant(a, v):
    return a.g.prog.adts[v.a[0]]["variants"][v.a[1]]["name"]


def get(a, v, *path):
    """field by name"""
    for f in path:
        fs = a.g.prog.adts[v.a[0]]["variants"][v.a[1]]["fields"]
        v = v.a[2 + [x["name"] for x in fs].index(f)]
    return v


def truth(v, st_true, st_false):
    """a boolean value as a tree"""
    if v.op == "Int":
        return st_true if v.a[0] else st_false
    if v.op == "Not":
        return truth(v.a[0], st_false, st_true)
    if v.op == "App" and v.a[0] in ("bin-BitAnd",):
        return truth(v.a[1], truth(v.a[2], st_true, st_false), st_false)
    if v.op == "App" and v.a[0] in ("bin-BitOr",):
        return truth(v.a[1], st_true, truth(v.a[2], st_true, st_false))
    return engine.mk_cond(v, ((0, st_false), (1, st_true)))


RT, RF = T("Ret", TRUE), T("Ret", FALSE)


def bools(tree):
    """returned boolean terms turned into tests"""
    def f(n):
        if n.op == "Ret":
            return truth(n.a[0], RT, RF)
        return n
    return engine.map_leaves(tree, f)


def eqtest(x, y):
    from models import eqv
    return truth(eqv(x, y), RT, RF)


def strs(t):
    out = set()
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        if x.op == "Str":
            out.add(x.a[0])
        st.extend(engine.kids(x))
    return out


def written(tree, want):
    """[(True | False | None, text)]: what is written on every path of a function that writes to a formatter"""
    out = []

    def walk(n, conds):
        if n.op == "Cond":
            for l, x in n.a[1]:
                walk(x, conds + [(n.a[0], l)])
            return
        if n.op != "Ret":
            out.append((None, "not decided"))
            return
        v = n.a[0]
        if v.op == "Adt" and v.a[0] == RESULT and v.a[1] == 1:
            return                       # an error of the formatter, passed on
        terms = [v] + [t for t, _ in conds]
        texts = [s for t in terms for s in writes(t)]
        if set(texts) == {want} and v.op == "App":
            out.append((True, want))
        elif len(set(texts)) > 1 or not all(refine.free(t) or writes(t) or flag(t) for t, _ in conds):
            out.append((None, "written in parts or under conditions nothing is known about"))
        elif texts and texts[0] is None:
            out.append((None, "a text that is not known"))
        elif set(texts) == {want}:
            out.append((True, want))
        elif texts:
            out.append((False, repr(texts[0])))
        elif v.op == "Adt" and v.a[0] == RESULT:
            out.append((False, "nothing"))
        else:
            out.append((None, "no call that writes was found"))
    walk(tree, [])
    return out


def flag(t):
    """what the caller of a formatter asked for"""
    return t.op == "App" and t.a[0].split("::")[-1] in ("alternate", "sign_plus", "sign_minus", "sign_aware_zero_pad") \
        or t.op == "Discr" and t.a[0].op == "App" and t.a[0].a[0].split("::")[-1] in ("width", "precision", "align")


def template(t):
    """a format string with more in it than one {}"""
    for x in t.a[1:]:
        if isinstance(x, T) and x.op == "App" and x.a[0] == "Arguments::new":
            c = json.loads(x.a[1].a[1]) if x.a[1].op == "App" and x.a[1].a[0] == "const" else {}
            return c.get("ty", {}).get("t", {}).get("n") != "2"
    return False


def writes(t):
    """the texts written by the calls in t; None for one that is not known"""
    out = []
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "App" and x.a[0].split("::")[-1] in ("write_str", "write_char", "pad", "write_fmt", "fmt"):
            s = strs(T("Tup", *x.a[1:]))
            if x.a[0].endswith("write_char") and x.a[-1].op == "Int":
                s = {chr(x.a[-1].a[0])}
            if len(s) == 1 and not template(x):
                out.extend(s)
            else:
                out.append(None)
            continue
        st.extend(engine.kids(x))
    return out


class Table:
    def __init__(self, a, v, prop):
        self.a, self.v, self.prop = a, v, prop
        self.rows = 0
        self.functions = []

    def missing(self, what):
        self.v.undecided.append("%s is not there" % what)

    def row(self, body, args, want, got=None, norm=bools):
        """the function gives `want` (a tree) on these arguments"""
        a = self.a
        pr = showmod.Printer(a.g.prog)
        if got is None:
            got, _ = evaluate(a, body, args)
        got = norm(got)
        self.rows += 1
        if got is want or ordered(got) is ordered(want):
            return
        what = "%s(%s)" % (body["path"].split("::")[-1], ", ".join(pr.val(x) for x in args))
        if unks(got):
            self.v.undecided.append("%s: %s" % (what, unks(got)[0][:200]))
            return
        self.v.findings.append(Finding(self.prop, what, "%s (%s)" % (body["path"], body["span"]),
                                       "%s is not what it has to be" % what,
                                       ["expected: " + " / ".join(x.strip() for x in pr.tree(want))[:400],
                                        "source:   " + " / ".join(x.strip() for x in pr.tree(got))[:400]]))

    def done(self, text):
        self.v.coverage.update(functions_tabulated=self.functions, table_rows=self.rows)
        self.v.summary = (self.v.summary + "; " if self.v.summary else "") + \
            "%d rows of the tables of %s" % (self.rows, text)


def drop_payload(n):
    """error payloads do not count"""
    def f(n):
        if n.op == "Ret" and n.a[0].op == "Adt" and n.a[0].a[0] == RESULT and n.a[0].a[1] == 1:
            return T("Ret", Err(UNIT))
        return n
    return engine.map_leaves(n, f)


def C28(a, v):
    t = Table(a, v, "C28")
    ty = adt(a, "Aggregate")
    b = method(a, "Aggregate", "is_distinct")
    if ty is None or b is None:
        t.missing("Aggregate::is_distinct")
    else:
        t.functions.append(b["path"])
        for x in values(a, ty, "self"):
            y = x.a[2]
            want = get(a, y, "expression", "distinct") if variant(a, x) == "GroupConcat" else get(a, y, "distinct")
            t.row(b, [x], truth(want, RT, RF))
    t.done("Aggregate::is_distinct")


def C32(a, v):
    t = Table(a, v, "C32")
    ty = adt(a, "StringLiteral")
    b = method(a, "StringLiteral", "compatible_arg")
    if ty is None or b is None:
        t.missing("StringLiteral::compatible_arg")
    else:
        t.functions.append(b["path"])
        for x in values(a, ty, "self"):
            for y in values(a, ty, "other"):
                p, q = variant(a, x) == "Language", variant(a, y) == "Language"
                if p and q:
                    want = eqtest(x.a[2].a[1], y.a[2].a[1])
                else:
                    want = RF if q else RT
                t.row(b, [x, y], want)
    t.done("StringLiteral::compatible_arg")


def from_text(a, t, b, table, other):
    """a from_str: table of whole texts"""
    e = Engine(a.g.prog, a.g.nts, a.g.transparent)
    root = P0(0)

    def step(items, st):
        if not items:
            return T("Ret", other)
        s, r = items[0]
        return e.text_eq(Rest(root), s, st, lambda s2: T("Ret", r), lambda s2: step(items[1:], s2))
    t.row(b, [Rest(root)], drop_payload(step(table, St())), norm=drop_payload)


def enum(a, ty, name):
    for i, va in enumerate(ty["variants"]):
        if va["name"] == name:
            return T("Adt", ty["path"], i)
    return T("Missing", name)


def C33(a, v):
    t = Table(a, v, "C33")
    sg, pm = adt(a, "Sign"), adt(a, "PathMod")
    if sg is None:
        t.missing("Sign")
    else:
        pos, neg = enum(a, sg, "POS"), enum(a, sg, "NEG")
        txt = {pos: "+", neg: "-"}
        same = lambda n: n
        b = method(a, "Sign", "default", "Default")
        if b:
            t.functions.append(b["path"])
            t.row(b, [], T("Ret", pos), norm=same)
        b = method(a, "Sign", "as_ref", "AsRef")
        if b:
            t.functions.append(b["path"])
            for x in (pos, neg):
                t.row(b, [x], T("Ret", Str(txt[x])), norm=same)
        b = method(a, "Sign", "from_str", "FromStr")
        if b:
            t.functions.append(b["path"])
            from_text(a, t, b, [("+", Ok(pos)), ("", Ok(pos)), ("-", Ok(neg))], Err(UNIT))
        b = method(a, "Sign", "fmt", "Display")
        if b:
            t.functions.append(b["path"])
            for x in (pos, neg):
                got, _ = evaluate(a, b, [x, arg("f")])
                t.rows += 1
                for verdict, text in written(got, txt[x]):
                    if verdict is False:
                        v.findings.append(Finding("C33", "Display of %s" % variant(a, x), "%s (%s)" % (b["path"], b["span"]),
                                                  "Sign::%s is displayed as %s" % (variant(a, x), text)))
                        break
                    if verdict is None:
                        v.undecided.append("Display of Sign::%s: %s" % (variant(a, x), text))
    if pm is None:
        t.missing("PathMod")
    else:
        b = method(a, "PathMod", "from_str", "FromStr")
        if b:
            t.functions.append(b["path"])
            from_text(a, t, b, [("?", Ok(enum(a, pm, "QuestionMark"))), ("*", Ok(enum(a, pm, "Asterisk"))),
                                ("+", Ok(enum(a, pm, "Plus")))], Err(UNIT))
    t.done("Sign and PathMod conversions")


def construct(a, t, ty, name, want, nargs):
    b = method(a, ty, name)
    if b is None:
        return
    t.functions.append(b["path"])
    xs = [arg("a%d" % i) for i in range(nargs)]
    w = want(*xs)
    t.row(b, xs, T("Ret", w), norm=untext)


def untext(n):
    """to_string / into of an opaque argument is that text"""
    c = {}

    def g(x):
        if x in c:
            return c[x]
        r = x
        if x.op == "App" and len(x.a) == 2 and x.a[0].split(":")[0] in ("to_string", "into", "to_owned"):
            r = g(x.a[1])
        elif x.op == "Adt":
            r = T("Adt", x.a[0], x.a[1], *[g(y) for y in x.a[2:]])
        c[x] = r
        return r
    return engine.map_leaves(n, lambda l: T("Ret", g(l.a[0])) if l.op == "Ret" else l)


def make(a, tyname, var, **fs):
    ty = adt(a, tyname)
    for i, va in enumerate(ty["variants"]):
        if va["name"] == var:
            return T("Adt", ty["path"], i, *[fs[f["name"] if not f["name"].isdigit() else "_" + f["name"]]
                                           for f in va["fields"]])
    return T("Missing", var)


def news(a, t, types):
    """a derived constructor fills the fields in order"""
    for ty in types:
        d = adt(a, ty)
        if d is not None and method(a, ty, "new") is not None:
            construct(a, t, ty, "new", lambda *xs: T("Adt", d["path"], 0, *xs), len(d["variants"][0]["fields"]))


def C21(a, v):
    t = Table(a, v, "C21")
    if adt(a, "LimitOffsetClause"):
        construct(a, t, "LimitOffsetClause", "limit_offset",
                  lambda l, o: make(a, "LimitOffsetClause", "LimitOffset", limit=l, offset=o), 2)
        construct(a, t, "LimitOffsetClause", "offset_limit",
                  lambda o, l: make(a, "LimitOffsetClause", "OffsetLimit", limit=l, offset=o), 2)
    t.done("LimitOffsetClause constructors")


def C10(a, v):
    t = Table(a, v, "C10")
    if adt(a, "Iri"):
        construct(a, t, "Iri", "iri_ref", lambda x: make(a, "Iri", "Iri", _0=x), 1)
        construct(a, t, "Iri", "prefixed_name", lambda x: make(a, "Iri", "PrefixedName", _0=x), 1)
    t.done("Iri constructors")


def C13(a, v):
    t = Table(a, v, "C13")
    if adt(a, "RdfLiteral"):
        construct(a, t, "RdfLiteral", "new",
                  lambda l, d: make(a, "RdfLiteral", "RdfLiteral", literal=l, descriptor=Some(d)), 2)
        construct(a, t, "RdfLiteral", "literal",
                  lambda l: make(a, "RdfLiteral", "RdfLiteral", literal=l, descriptor=NONE), 1)
    t.done("RdfLiteral constructors")


NEWS = {"C22": ["InlineDataOneVar", "InlineDataFull"], "C30": ["LoadStatement", "ClearStatement", "DropStatement",
                                                                "CreateStatement"],
        "C17": ["PrefixDecl"], "C31": ["Quads", "QuadsEntry", "QuadsNotTriples"], "C24": ["VerbList"]}


def _news(pid):
    def f(a, v):
        t = Table(a, v, pid)
        news(a, t, NEWS[pid])
        t.done("constructors of " + ", ".join(NEWS[pid]))
    return f


for _p in NEWS:
    globals()[_p] = _news(_p)
