"""From the comparison results to findings per property."""
import aspects
import owners
import show
from engine import leaves
from terms import T


class Finding:
    def __init__(self, prop, key, where, text, detail=None):
        self.prop = prop
        self.key = key          # stable identification, used by the known-findings file
        self.where = where
        self.text = text
        self.detail = detail or []

    def json(self):
        return {"property": self.prop, "key": self.key, "where": self.where, "what": self.text, "detail": self.detail}


def label(l, pr):
    if type(l).__name__ == "CharSet":
        from charset import show as showset
        return showset(l)
    return str(l)


def describe(pr, tree, leaf, limit=14):
    """the path to a disagreement, in words"""
    out = []
    for t, l in aspects.path_to(tree, leaf):
        lab = label(l, pr)
        if t.op == "Sw":
            out.append("character at %s is in %s" % (pr.p(t.a[0]), lab))
        elif t.op == "Call":
            out.append("rule %s at %s: %s" % (t.a[0], pr.p(t.a[1]), lab))
        elif t.op == "Lit":
            out.append("text %r%s at %s: %s" % (t.a[0], " (any case)" if t.a[1] else "", pr.p(t.a[2]), lab))
        elif t.op == "Star":
            out.append("repetition %s at %s: %s" % (pr.body(t.a[0]), pr.p(t.a[1]), lab))
        elif t.op == "Cond":
            out.append("%s is %s" % (pr.val(t.a[0])[:120], lab))
    if len(out) > limit:
        out = out[:3] + ["... %d steps ..." % (len(out) - limit)] + out[-(limit - 4):]
    a, b = leaf.a
    out.append("reference: " + pr.leaf(a)[:900])
    out.append("source:    " + pr.leaf(b)[:900])
    return out


def where_of(g, name):
    b = g.body(name)
    return "%s (%s)" % (b["path"], b["span"]) if b else name


def rule_findings(g, c):
    """{prop: [Finding]}, {prop: [undecided text]}"""
    out, und = {}, {}
    for name, r in c.results.items():
        if r.equal:
            continue
        if r.equal is None:
            why = "; ".join(sorted(set(r.unk)))[:300] or "not decided"
            for p in owners.owners(name):
                und.setdefault(p, []).append("%s: %s" % (name, why))
            for p in ("C04", "C05", "C15", "C16"):
                und.setdefault(p, []).append("%s: %s" % (name, why))
            continue
        pr = show.Printer(g.prog)
        ds = aspects.diffs(r.diff) if r.diff is not None else {}
        if r.diff is not None:
            # a panic that only an unmodelled function's answer leads to is not shown to be reachable
            ok = aspects.sure(r.diff)
            for d in [d for d in ds if d.a[1].op == "Panic" and d not in ok]:
                del ds[d]
            if not ds and not any(l.op == "Panic" for l in ok):
                for p in owners.owners(name) | {"C01"}:
                    und.setdefault(p, []).append("%s: panics if an unmodelled check fails" % name)
                continue
        order = sorted(ds, key=lambda d: (d.a[1].op == "Unk", len(aspects.path_to(r.diff, d))))
        w = where_of(g, name)

        def add(p, what, d):
            if any(f.key.startswith(name + ":") for f in out.get(p, [])):
                return
            out.setdefault(p, []).append(Finding(p, "%s: %s" % (name, what), w,
                                                 "rule %s: %s" % (name, what), describe(pr, r.diff, d) if d else []))

        def kind(d):
            a, b = d.a
            if a.op == "Ok" and b.op == "Ok":
                if a.a[0] is b.a[0]:
                    return "builds another value"
                return "accepts another extent of the text"
            if b.op == "Panic":
                return "panics"
            if a.op == "Ok":
                return "rejects text it has to accept"
            if b.op == "Ok":
                return "accepts text it has to reject"
            return "reports the wrong kind of error"
        d0 = order[0] if order else None
        for p in sorted(owners.owners(name)):
            add(p, kind(d0) if d0 else "differs from the reference rule", d0)
        for d in order:
            ups = ds[d]
            a, b = d.a
            if b.op == "Panic":
                add("C01", "panics: " + b.a[0], d)
            if b.op == "Fail" and a.op != "Fail":
                add("C05", "fails for good where it must not", d)
            elif a.op == "Fail" and b.op != "Fail":
                pass
            w2 = aspects.about_rest(d)
            if w2:
                add("C04", w2, d)
            for n in sorted(aspects.concerned(d, ups)):
                for p in sorted(owners.owners(n)):
                    add(p, "%s (%s)" % (kind(d), n), d)
            if aspects.about_ws(r.diff, d, ups):
                add("C15", kind(d) + " around white space", d)
            if aspects.about_case(r.diff, d, ups, None):
                add("C16", kind(d) + " at a keyword", d)
    return out, und


def panics(g):
    out = []
    for name in g.bodies:
        for l in leaves(g.I.trees[name]):
            if l.op == "Panic":
                out.append((name, l.a[0]))
    return out
