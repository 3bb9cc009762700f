"""Analyses that are not a comparison with one reference rule."""
import re

import aspects
import compare
import engine
import refine
import retry
import show
from charset import CharSet
from compare import called, unks
from engine import St, kids, leaves
from findings import Finding, where_of
from terms import T


# ---------------------------------------------------------------- call graph
def strings(x, out):
    if isinstance(x, str):
        out.add(x)
    elif isinstance(x, dict):
        for v in x.values():
            strings(v, out)
    elif isinstance(x, list):
        for v in x:
            strings(v, out)


class Graph:
    """which bodies of the crate can run: everything named by the bodies that can"""

    def __init__(self, a):
        d = a.dump
        self.bodies = {b["path"]: b for b in d["bodies"]}
        self.traits = {}
        self.derived = set()
        for i in d["impls"]:
            for _, p in i["items"]:
                self.traits[p] = i
                if i["derived"]:
                    self.derived.add(p)
        self.refs = {}
        roots = []
        for p, b in self.bodies.items():
            i = self.traits.get(p)
            # rules no public function leads to yet (update requests) count too
            if b.get("effvis") or (i is not None and i["trait"]) or a.g.prog.is_rule(b):
                roots.append(p)
        self.live = set()
        st = list(roots)
        while st:
            p = st.pop()
            if p in self.live:
                continue
            self.live.add(p)
            st.extend(self.names(p))

    def names(self, p):
        r = self.refs.get(p)
        if r is None:
            s = set()
            strings(self.bodies[p]["blocks"], s)
            r = self.refs[p] = {x for x in s if x in self.bodies and x != p}
            # promoted constants belong to their function
            r |= {q for q in self.bodies if q.startswith(p + "::{promoted")}
        return r

    def is_derived(self, p):
        return any(p == x or p.startswith(x + "::") for x in (self.derived if False else ())) or \
            p in self.derived or re.sub(r"(::\{(closure|promoted)#\d+\})+$", "", p) in self.derived

    def label(self, p):
        """a name that does not depend on impl numbering"""
        q = re.sub(r"(::\{(closure|promoted)#\d+\})+$", "", p)
        i = self.traits.get(q)
        if i is None:
            return p
        ty = i["self"].get("path", i["self"]["k"]).split("::")[-1]
        tr = (i["trait"] or "").split("::")[-1]
        return "%s::%s" % (("<%s as %s>" % (ty, tr)) if tr else ty, q.split("::")[-1])


def graph(a):
    if not hasattr(a, "_graph"):
        a._graph = Graph(a)
    return a._graph


def callee(t):
    f = t[1]
    if f[0] == "const" and f[1]["k"] == "fn":
        return f[1]["fn"]
    return None


def callees(body):
    """(function, span, block) of every function named in a body"""
    def w(x, sp, i):
        if isinstance(x, dict):
            if x.get("k") == "fn" and isinstance(x.get("fn"), dict):
                yield x["fn"], sp, i
            for v in x.values():
                yield from w(v, sp, i)
        elif isinstance(x, list):
            for v in x:
                yield from w(v, sp, i)
    for i, bl in enumerate(body["blocks"]):
        for s in bl["s"]:
            yield from w(s, s[-1], i)
        yield from w(bl["t"], bl["sp"], i)


def unk_rules(a):
    """bodies whose analysis in some rule was cut short"""
    out = set()
    for n, t in a.g.I.trees.items():
        if unks(t):
            out |= a.g.I.used.get(n, set())
    return out


# ---------------------------------------------------------------- C01
PANICKY = set("""unwrap expect unwrap_err expect_err unwrap_unchecked index index_mut split_at split_at_mut remove
swap_remove insert split_off drain copy_from_slice clone_from_slice with_capacity reserve reserve_exact repeat swap
rotate_left rotate_right chunks chunks_exact windows step_by borrow borrow_mut get_unchecked slice_unchecked from_digit
to_digit from_utf8_unchecked replace_range set_len exit abort todo unimplemented truncate range slice_error_fail
from_u32_unchecked unreachable_unchecked from_str_radix div_euclid rem_euclid pow abs isqrt ilog ilog2 ilog10
copy_within select_nth_unstable split_first_chunk fill_with advance_by nth_unchecked add_assign sub_assign""".split())
SAFE_RADIX = {"from_str_radix", "to_digit", "from_digit", "is_digit"}


def const_int(o):
    return o[1]["v"] if o and o[0] == "const" and o[1].get("k") == "int" else None


def site_ok(b, bl, f):
    """a call that cannot panic with these arguments"""
    m = f["path"].split("::")[-1]
    args = bl["t"][2] if bl["t"][0] == "call" else []
    if m in SAFE_RADIX:
        r = const_int(args[1]) if len(args) > 1 else None
        return r is not None and 2 <= r <= 36
    if "mem::" in f["path"] and m in ("swap", "replace", "take") or "option" in f["path"] and m in ("insert", "replace") or \
            m == "truncate" and "vec" in f["path"]:
        return True
    if m == "insert" and "vec" in f["path"]:
        return const_int(args[1]) == 0 if len(args) > 1 else False
    if m in ("with_capacity", "reserve", "reserve_exact"):
        c = const_int(args[-1]) if args else None
        return c is not None and c < 1 << 20
    if m in ("insert", "remove", "truncate", "drain", "range", "swap", "advance_by", "nth_unchecked") and \
            any(x in f["path"] for x in ("collections", "btree", "hash")):
        return True
    if m in ("add_assign", "sub_assign", "pow", "abs"):
        return not any(x in f["path"] for x in ("num", "arith"))
    return False


def ext_panicky(f):
    p = f.get("resolved", f["path"])
    return f["path"].split("::")[-1] in PANICKY and p.split("::")[0] in ("core", "alloc", "std")


def unref(t):
    while t.get("k") == "ref":
        t = t["t"]
    return t


def harmless_assert(b, msg):
    """checks of compiler-made pointers, and counters that would have to exceed the address space"""
    if msg.startswith(("MisalignedPointer", "NullPointer", "NullReference")):
        return True
    if msg.startswith("Overflow(Add") or msg.startswith("Overflow(Sub"):
        ids = [int(x) for x in re.findall(r"_(\d+)", msg)]
        tys = [b["locals"][i] for i in ids if i < len(b["locals"])]
        return msg.startswith("Overflow(Add") and bool(tys) and all(unref(t) == {"k": "prim", "name": "usize"} for t in tys)
    return False


def C01(a, v):
    g = graph(a)
    seen = a.g.I.e.visited
    cut = unk_rules(a)
    n = dict(bodies=0, derived=0, dead=0, sites=0, unreachable=0, discharged=0)

    def add(key, where, text):
        v.findings.append(Finding("C01", key, where, text))
    # what the abstract interpretation reached
    done = set()
    for name, t in a.g.I.trees.items():
        ok = aspects.sure(t)
        bad = [l for l in leaves(t) if l.op == "Panic"]
        can = reachable(a, name) if bad else None
        for l in bad:
            if l.a[0] not in done:
                if can is not None and l not in can:
                    continue
                if l not in ok:
                    v.undecided.append("%s: %s, if an unmodelled check fails" % (name, l.a[0]))
                    continue
                done.add(l.a[0])
                pr = show.Printer(a.g.prog)
                v.findings.append(Finding("C01", "%s: panic" % name, where_of(a.g, name),
                                          "rule %s can panic: %s" % (name, l.a[0]), path_words(pr, t, l)))
    for (k, rule, where, det), _ in [x for ev in a.g.I.events.values() for x in ev.items()]:
        if k == "guarded-call" and det.split("::")[-1] in PANICKY and det.split("::")[0] in ("core", "alloc", "std"):
            v.undecided.append("%s: %s, behind a test of its argument (in rule %s)" % (where, det, rule))
        if k == "opaque-call" and det.split("::")[-1] in PANICKY and det.split("::")[0] in ("core", "alloc", "std"):
            b = g.bodies.get(where)
            if b is None or not all(site_ok(b, bl, f) for f, _, i in callees(b) for bl in [b["blocks"][i]]
                                    if f["path"] == det):
                add("%s: %s" % (where, det), where, "%s is called on values it can panic on (in rule %s)" % (det, rule))
    for p in sorted(g.live):
        b = g.bodies[p]
        n["bodies"] += 1
        if g.is_derived(p):
            n["derived"] += 1
            continue
        vis = seen.get(p)
        for i, bl in enumerate(b["blocks"]):
            if bl.get("cleanup"):
                continue
            t = bl["t"]
            what = None
            if t[0] == "assert":
                n["sites"] += 1
                if harmless_assert(b, t[3]):
                    n["discharged"] += 1
                    continue
                what = t[3]
            elif t[0] == "call":
                f = callee(t)
                if f is None:
                    continue
                if t[4] is None:
                    n["sites"] += 1
                    what = f["path"]
                elif ext_panicky(f):
                    n["sites"] += 1
                    if site_ok(b, bl, f):
                        n["discharged"] += 1
                        continue
                    what = f["path"]
            if what is None:
                continue
            if vis is not None:
                if i in vis:
                    if t[0] == "assert":
                        if any((("guarded", r, p, what) in ev) for r, ev in a.g.I.events.items()):
                            v.undecided.append("%s (%s): %s, behind a test" % (g.label(p), bl["sp"], what[:80]))
                        if any((("assert", r, p, what) in ev) for r, ev in a.g.I.events.items()):
                            add("%s: %s" % (g.label(p), what[:60]), "%s (%s)" % (g.label(p), bl["sp"]),
                                "cannot be shown not to panic: " + what)
                            continue
                    # decided by the model: a panic end was reported above
                    n["discharged"] += 1
                    continue
                if p in cut:
                    if t[0] == "call" and t[4] is None or (t[0] == "call"):
                        v.undecided.append("%s (%s): %s" % (g.label(p), bl["sp"], what))
                    else:
                        v.undecided.append("%s (%s): %s" % (g.label(p), bl["sp"], what[:80]))
                    continue
                n["unreachable"] += 1
                continue
            if p in cut:
                v.undecided.append("%s (%s): %s" % (g.label(p), bl["sp"], what[:80]))
                continue
            add("%s: %s" % (g.label(p), what.split("::")[-1][:60]), "%s (%s)" % (g.label(p), bl["sp"]),
                "%s can panic: %s" % (g.label(p), what))
    n["dead"] = len(g.bodies) - len(g.live)
    v.coverage.update(bodies_reachable=n["bodies"], bodies_derived=n["derived"], bodies_not_reachable=n["dead"],
                      panic_sites=n["sites"], sites_discharged=n["discharged"],
                      sites_never_reached=n["unreachable"], rules_interpreted=len(a.g.I.trees))
    v.summary = ("%d reachable bodies scanned, %d panic sites, %d rules interpreted without reaching one"
                 % (n["bodies"], n["sites"], len(a.g.I.trees)))


def path_words(pr, tree, leaf):
    import findings
    out = []
    for t, l in aspects.path_to(tree, leaf):
        lab = findings.label(l, pr)
        if t.op == "Sw":
            out.append("character at %s is in %s" % (pr.p(t.a[0]), lab))
        elif t.op in ("Call", "Lit"):
            out.append("%s %r at %s: %s" % (t.op, t.a[0], pr.p(t.a[2] if t.op == "Lit" else t.a[1]), lab))
    return out[-12:]


# ---------------------------------------------------------------- C02
def moved_fn(a):
    nts = a.g.nts

    def moved(p):
        while p.op in ("Next", "After"):
            if p.op == "Next":
                return True
            k = p.a[1]
            if k.op == "NT" and k.a[0] in nts and not nts[k.a[0]].nullable and k.a[0] not in nullable_impl(a):
                return True
            p = p.a[0]
        return False
    return moved


def nullable_impl(a):
    """rules of the source that can succeed without taking anything, beyond those of the reference"""
    r = getattr(a, "_null", None)
    if r is None:
        a._null = r = set()
        changed = True
        todo = [n for n, x in a.results.items() if not x.equal and n in a.g.nts]
        while changed:
            changed = False
            mv = moved_fn(a)
            for n in todo:
                if n in r or a.g.nts[n].nullable:
                    continue
                if any(l.op == "Ok" and not certainly(a, l.a[0], mv) for l in leaves(a.g.I.trees[n])):
                    r.add(n)
                    changed = True
    return r


def certainly(a, p, mv):
    if mv(p):
        return True
    # repetitions that were entered on a character that starts an item are not told apart here
    return any(k.op == "Body" for k in [x.a[1] for x in aspects.chain(p) if x.op == "After"]) and False


def left_graph(a, trees):
    mv = moved_fn(a)
    return {n: retry.left_calls(t, mv) for n, t in trees.items()}


def C02(a, v):
    trees = a.g.I.trees
    edges = left_graph(a, trees)
    cyc = retry.cycles(edges)
    if cyc:
        v.findings.append(Finding("C02", "left recursion " + " ".join(sorted(set(cyc))), where_of(a.g, cyc[0]),
                                  "left recursion without taking any input: " + " -> ".join(cyc)))
    for n, ev in sorted(a.g.I.events.items()):
        for (k, rule, where, det), _ in ev.items():
            if k in ("nullable-repeat", "nullable-sep", "nullable-item"):
                what = {"nullable-repeat": "a repeated item", "nullable-sep": "a list separator or item",
                        "nullable-item": "a list item"}[k]
                v.findings.append(Finding("C02", "%s: %s %s" % (n, k, where), where_of(a.g, n),
                                          "%s can match the empty text in rule %s (%s)" % (what, n, where)))
    reps = 0
    for n, t in trees.items():
        reps += sum(1 for x in aspects.nodes(t) if x.op == "Star")
        for u in unks(t):
            v.undecided.append("%s: %s" % (n, u[:200]))
    v.coverage.update(rules=len(trees), repetitions=reps, left_edges=sum(len(x) for x in edges.values()))
    v.summary = ("%d repetitions take input on every round; no cycle among %d calls at a rule's start position"
                 % (reps, v.coverage["left_edges"]))


# ---------------------------------------------------------------- C03
def C03(a, v):
    g = graph(a)
    n = 0
    for name, ev in sorted(a.g.I.events.items()):
        for (k, rule, where, det), _ in ev.items():
            if k == "incomplete":
                v.findings.append(Finding("C03", "%s: %s" % (name, det), where_of(a.g, name),
                                          "rule %s can answer 'incomplete' (%s at %s)" % (name, det, where)))
    seen = a.g.I.e.visited
    names = 0
    for p in sorted(g.live):
        if p in seen:
            n += 1
        for f, sp, _ in callees(g.bodies[p]):
            names += 1
            path = f.get("resolved", f["path"])
            if "::streaming::" in path and p not in seen:
                v.findings.append(Finding("C03", "%s: %s" % (g.label(p), path), "%s (%s)" % (g.label(p), sp),
                                          "streaming parser %s" % path))
    for name, t in a.g.I.trees.items():
        for u in unks(t):
            v.undecided.append("%s: %s" % (name, u[:200]))
    v.coverage.update(rules=len(a.g.I.trees), bodies_interpreted=n, functions_named=names)
    v.summary = ("%d rules interpreted at every position where the text can end, %d function uses looked at; "
                 "no 'incomplete' answer" % (len(a.g.I.trees), names))


# ---------------------------------------------------------------- C04
def C04(a, v):
    ends = 0
    for n, t in sorted(a.g.I.trees.items()):
        pr = show.Printer(a.g.prog)
        for l in leaves(t):
            if l.op == "Ok":
                ends += 1
        # helpers hand values to the rules that use them, and are judged there
        off = aspects.off_chain(t) if n in a.results and a.results[n].equal is not True else []
        if off and not any(f.key.startswith(n + ":") for f in v.findings):
            x, p = off[0]
            v.findings.append(Finding("C04", "%s: value from outside" % n, where_of(a.g, n),
                                      "rule %s stores %s, which is not part of the text it takes (up to %s)"
                                      % (n, pr.val(x)[:300], pr.p(p)[:300])))
    v.coverage.update(rules=len(a.g.I.trees), ends_checked=ends)
    v.summary = "%d rules, %d successful ends: remainder and stored text checked" % (len(a.g.I.trees), ends)


# ---------------------------------------------------------------- C05
def C05(a, v):
    cuts = []
    for n, t in sorted(a.g.I.trees.items()):
        if any(l.op == "Fail" for l in leaves(t)):
            cuts.append(n)
    spec = {n for n, t in a.g.S.trees.items() if any(l.op == "Fail" for l in leaves(t))}
    for n in cuts:
        if n not in spec and n in a.results and a.results[n].equal is not True and \
                not any(f.key.startswith(n + ":") for f in v.findings):
            v.findings.append(Finding("C05", "%s: fails for good" % n, where_of(a.g, n),
                                      "rule %s can report an unrecoverable failure" % n))
    v.coverage.update(rules=len(a.g.I.trees), rules_with_hard_failure=cuts)
    v.summary = "%d rules; unrecoverable failures only in %s" % (len(a.g.I.trees), ", ".join(cuts) or "none")


# ---------------------------------------------------------------- C06
def C06(a, v):
    trees = a.g.I.trees
    rg = retry.rule_graph(trees)
    rec = retry.recursive_rules(rg)
    for n, ev in sorted(a.g.I.events.items()):
        base = {(k, w) for (k, r, w, d) in a.g.S.events.get(n, {})}
        for (k, rule, where, det), _ in ev.items():
            if k in ("retry-ok", "retry-err", "retry-star") and (k, where) not in base:
                ms = [m for m in where.split(" ") if m in rec]
                if ms:
                    v.findings.append(Finding("C06", "%s: %s again" % (n, ms[0]), where_of(a.g, n),
                                              "rule %s parses %s a second time from the same position" % (n, ms[0])))
    todo = [n for n, r in a.results.items() if r.how != "identical"]
    todo += [n for n in trees if n not in a.results]
    if a.tier == "thorough":
        todo = list(trees)
    ov = 0
    if todo:
        fi = retry.Fronts(trees, rg)
        fs = retry.Fronts(a.g.S.trees, retry.rule_graph(a.g.S.trees))
        for n in todo:
            x = fi.overlaps(n)
            y = fs.overlaps(n) if n in a.g.S.trees else set()
            ov += len(x)
            for b, m, k, same in sorted(x - y):
                if not same and a.results.get(n) is not None and a.results[n].equal is not False:
                    continue
                v.findings.append(Finding("C06", "%s: %s %s %s" % (n, b, m, k), where_of(a.g, n),
                                          "in rule %s, %s may parse a nested %s and fail, and %s then parses it again"
                                          % (n, b, k, m)))
    v.coverage.update(rules=len(trees), nested_constructs=sorted(rec), rules_with_own_overlap_search=todo)
    v.summary = ("%d rules, %d of them nested: no construct tried twice at one position beyond the reference grammar"
                 % (len(trees), len(rec)))


# ---------------------------------------------------------------- C07
IMPURE = ("std::env", "std::fs", "std::io", "std::net", "std::os", "std::process", "std::thread", "std::time",
          "std::sync", "core::sync", "core::cell", "alloc::sync", "std::collections::hash", "std::hash", "core::hash",
          "std::random", "core::ptr", "core::any", "core::arch", "core::intrinsics", "std::panic", "core::panic::",
          "std::backtrace", "core::time", "std::alloc", "hashbrown")


def C07(a, v):
    g = graph(a)
    d = a.dump
    ext = 0

    def add(key, where, text):
        v.findings.append(Finding("C07", key, where, text))
    for s in d["statics"]:
        p = s["path"] if isinstance(s, dict) else str(s)
        if isinstance(s, dict) and s.get("freeze") and not s.get("mut"):
            continue
        add("static " + p, p, "global state: " + str(s)[:200])
    for p, b in sorted(g.bodies.items()):
        if b.get("unsafe"):
            add("unsafe " + g.label(p), "%s (%s)" % (g.label(p), b["span"]), "unsafe function")
        if p not in g.live:
            continue
        for f, sp, _ in callees(b):
            path = f.get("resolved", f["path"])
            if path.startswith(d["crate"]):
                continue
            ext += 1
            if any(path == x or path.startswith(x if x.endswith("::") else x + "::") for x in IMPURE) \
                    and not (g.is_derived(p) and "::hash" in path):
                add("%s: %s" % (g.label(p), path), "%s (%s)" % (g.label(p), sp),
                    "%s uses %s: the result may depend on more than the text" % (g.label(p), path))
            elif f.get("unsafe") and not path.startswith(("alloc::boxed::box_assume_init_into_vec_unsafe",
                                                              "core::fmt::")):     # what vec! and format! expand to
                add("%s: unsafe %s" % (g.label(p), path), "%s (%s)" % (g.label(p), sp), "calls the unsafe function " + path)
            elif path.endswith("::new_pointer") or path.startswith("core::fmt::Pointer"):
                add("%s: %s" % (g.label(p), path), "%s (%s)" % (g.label(p), sp), "prints an address in memory")
            elif path.split("::")[0] not in ("core", "alloc", "std", "nom"):
                add("%s: %s" % (g.label(p), path), "%s (%s)" % (g.label(p), sp), "calls into another crate: " + path)
        for i, bl in enumerate(b["blocks"]):
            for s in bl["s"]:
                if s[0] == "=" and isinstance(s[2], list) and s[2] and s[2][0] == "tls":
                    add("tls " + g.label(p), "%s (%s)" % (g.label(p), s[-1]), "thread-local state")
    for w in d.get("unsafe_blocks", []):
        add("unsafe block " + w, w, "unsafe block")
    for n, t in sorted(a.g.I.trees.items()):
        # the difference of two addresses in the input is a length; an address alone is not the same in the next run
        if address_in(t):
            b = a.g.body(n)
            add("address " + n, "%s (%s)" % (g.label(b["path"]), b["span"]),
                "the result of rule %s depends on an address in memory" % n)
    refs = 0
    for t in d["adts"]:
        if not t["freeze"]:
            add("interior " + t["path"], "%s (%s)" % (t["path"], t["span"]), "interior mutability in " + t["path"])
        for va in t["variants"]:
            for f in va["fields"]:
                refs += 1
                s = set()
                strings(f["ty"], s)
                if borrows(f["ty"]) or any(x.startswith(("core::cell", "alloc::rc", "alloc::sync", "std::sync")) for x in s):
                    add("borrow %s.%s" % (t["path"], f["name"]), "%s (%s)" % (t["path"], t["span"]),
                        "field %s.%s does not own its data" % (t["path"], f["name"]))
    v.coverage.update(bodies=len(g.live), external_calls=ext, statics=len(d["statics"]), types=len(d["adts"]), fields=refs)
    v.summary = ("%d bodies with %d uses of functions of other crates, %d types: no state, effect or unsafe code"
                 % (len(g.live), ext, len(d["adts"])))


def address_in(t):
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "App" and str(x.a[0]).split("::")[-1] in ("as_ptr", "as_mut_ptr", "addr", "expose_provenance"):
            return True
        st.extend(engine.kids(x))
    return False


def borrows(ty):
    if ty["k"] in ("ref", "ptr", "fnptr", "dyn"):
        return True
    return any(borrows(x) for x in ty.get("args", []) if isinstance(x, dict)) or \
        (isinstance(ty.get("t"), dict) and borrows(ty["t"]))


# ---------------------------------------------------------------- C08
def C08(a, v):
    import tables
    g = graph(a)
    impls = {}
    for i in a.dump["impls"]:
        if i["self"]["k"] == "adt" and i["trait"]:
            impls.setdefault(i["self"]["path"], {})[i["trait"].split("::")[-1]] = i
    n = dict(derived=0, manual=0)
    floats = []
    for t in a.dump["adts"]:
        im = impls.get(t["path"], {})
        where = "%s (%s)" % (t["path"], t["span"])
        for tr in ("PartialEq", "Clone"):
            i = im.get(tr)
            if i is None:
                v.findings.append(Finding("C08", "%s: no %s" % (t["path"], tr), where, "%s has no %s" % (t["path"], tr)))
            elif i["derived"]:
                n["derived"] += 1
            else:
                n["manual"] += 1
                bad = tables.structural(a, t, tr, i)
                if bad is None:
                    v.undecided.append("%s: hand-written %s" % (t["path"], tr))
                elif bad:
                    v.findings.append(Finding("C08", "%s: %s" % (t["path"], tr), "%s (%s)" % (t["path"], i["span"]),
                                              "hand-written %s of %s is not structural: %s" % (tr, t["path"], bad)))
        if im.get("PartialEq") is not None:
            for meth, _p in im["PartialEq"]["items"]:
                if meth == "ne" and not im["PartialEq"]["derived"]:
                    bad = tables.structural(a, t, "ne", im["PartialEq"])
                    if bad:
                        v.findings.append(Finding("C08", "%s: ne" % t["path"], where, "'!=' of %s: %s" % (t["path"], bad)))
        for va in t["variants"]:
            for f in va["fields"]:
                if has_float(f["ty"]):
                    floats.append("%s::%s.%s" % (t["path"], va["name"], f["name"]))
    # floats come from decimal text only, so they are never NaN
    for name, tr in sorted(a.g.I.trees.items()):
        if not parses_float(tr):
            continue
        cs = taken(tr)
        if cs & CharSet.of("n", "N"):
            v.findings.append(Finding("C08", "%s: nan" % name, where_of(a.g, name),
                                      "rule %s can parse 'nan', which is not equal to itself" % name))
    v.coverage.update(types=len(a.dump["adts"]), derived_impls=n["derived"], handwritten_impls=n["manual"],
                      float_fields=floats)
    v.summary = ("%d types with %d derived equality and clone impls, %d hand-written; float fields %s hold parsed "
                 "decimals only" % (len(a.dump["adts"]), n["derived"], n["manual"], ", ".join(floats)))


def has_float(ty):
    if ty["k"] == "prim" and ty["name"] in ("f32", "f64"):
        return True
    return any(has_float(x) for x in ty.get("args", []) if isinstance(x, dict)) or \
        (isinstance(ty.get("t"), dict) and has_float(ty["t"]))


def parses_float(t):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "App" and x.a[0] in ("parse:f64", "parse:f32"):
            return True
        st.extend(kids(x))
    return False


def taken(t):
    """characters some test lets through"""
    out = CharSet()
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "Sw":
            for cs, y in x.a[1]:
                if y.op not in ("Err", "Abort", "Fail") and cs.size() < 1000:
                    out = out | cs
        if x.op == "Lit":
            for cs in engine.lit_sets(x.a[0], x.a[1]):
                out = out | cs
        st.extend(kids(x))
    return out


# ---------------------------------------------------------------- C09
def variants_in(trees):
    out = set()
    seen = set()
    st = list(trees)
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "Adt":
            out.add((x.a[0], x.a[1]))
        st.extend(kids(x))
    return out


def reachable(a, name):
    """the panics of a rule that an input can reach; None: not known"""
    j = a.c.joint
    w = compare.Walk(a.g.nts, j)
    feas = refine.Feasible(j.e, a.c.canon, a.g.I.trees)
    out = set()

    def leaf(x, _, st):
        if x.op == "Panic" and x not in out and feas.check(st):
            out.add(x)
        return x
    w.leaf = leaf
    j.e.deep = True
    try:
        w.run(a.c.canon.top(a.g.I.trees[name]), T("Diff"), St())
        return None if w.steps > w.LIMIT else out
    except RecursionError:
        return None
    finally:
        j.e.deep = False


def built(a, names):
    """variants in the values of ends an input can reach"""
    j = a.c.joint
    trees = a.g.I.trees
    feas = refine.Feasible(j.e, a.c.canon, trees)
    out = set()
    cache = {}

    def variants(t):
        if t not in cache:
            cache[t] = variants_in([t])
        return cache[t]
    for n in names:
        t = a.c.canon.top(trees[n])
        rest = variants_in([trees[n]])
        w = compare.Walk(a.g.nts, j)

        def leaf(x, _, st):
            if x.op == "Ok":
                new = variants(x.a[1]) - out
                if new and feas.check(st):
                    out.update(new)
            return x
        w.leaf = leaf
        j.e.deep = True
        try:
            w.run(t, T("Diff"), St())
            if w.steps > w.LIMIT:
                out |= rest
        except RecursionError:
            out |= rest
        finally:
            j.e.deep = False
    return out


def C09(a, v):
    g = a.g
    br, live = {}, set()
    for n, ev in g.I.events.items():
        for (k, rule, where, det), _ in ev.items():
            if k == "branch":
                br.setdefault((where, det), []).append(n)
            elif k == "branch-live":
                live.add((where, det))
    cut = {n for n, t in g.I.trees.items() if unks(t)}
    for (w, d), ns in sorted(br.items(), key=str):
        if (w, d) in live:
            continue
        n = ns[0]
        if cut & set(ns):
            v.undecided.append("%s: alternative %s at %s" % (n, d, w))
            continue
        v.findings.append(Finding("C09", "%s: alternative %s" % (n, d), "%s at %s" % (where_of(g, n), w),
                                  "alternative %s of %s can never be taken: what stands before it always takes its text"
                                  % (d if isinstance(d, str) else d + 1, w)))
    want, have = variants_in(g.S.trees.values()), variants_in(g.I.trees.values())
    odd = sorted(n for n, r in a.results.items() if not r.equal and n in g.I.trees)
    if odd:
        sure = variants_in([t for n, t in g.I.trees.items() if n not in odd])
        have = sure | built(a, odd) | (have - want)
    names = lambda p, i: "%s::%s" % (p, a.g.prog.adts[p]["variants"][i]["name"]) if p in a.g.prog.adts else "%s#%d" % (p, i)
    for p, i in sorted(want - have):
        if p in g.prog.adts:
            t = g.prog.adts[p]
            if cut and (cut & {n for n in g.S.trees if (p, i) in variants_in([g.S.trees[n]])} or cut - set(g.S.trees)):
                v.undecided.append("never seen built: " + names(p, i))
                continue
            v.findings.append(Finding("C09", "never built: " + names(p, i), "%s (%s)" % (t["path"], t["span"]),
                                      "%s is never built by any rule" % names(p, i)))
    # every variant of a type the parser returns
    types = set()
    st = [b["output"] for b in g.bodies.values()]
    while st:
        ty = st.pop()
        if not isinstance(ty, dict):
            continue
        if ty.get("k") == "adt" and ty["path"] in g.prog.adts and ty["path"] not in types:
            types.add(ty["path"])
            for va in g.prog.adts[ty["path"]]["variants"]:
                st.extend(f["ty"] for f in va["fields"])
        st.extend(x for x in ty.get("args", []) if isinstance(x, dict))
        if isinstance(ty.get("t"), dict):
            st.append(ty["t"])
    nv = 0
    for p in sorted(types):
        for i, va in enumerate(g.prog.adts[p]["variants"]):
            nv += 1
            if (p, i) not in have and (p, i) not in want:
                if cut:
                    v.undecided.append("never seen built: " + names(p, i))
                    continue
                v.findings.append(Finding("C09", "never built: " + names(p, i), "%s (%s)" % (p, g.prog.adts[p]["span"]),
                                          "%s is never built by any rule" % names(p, i)))
    v.coverage.update(alternatives=len(br), result_types=len(types), variants=nv, variants_built=len(have))
    v.summary = "%d alternatives can be taken; %d variants of %d result types are built" % (len(br), nv, len(types))
