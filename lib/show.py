"""Readable form of decision trees and of the first difference between two."""
from charset import show as showset
from engine import LEAF
from terms import T, RESULT, OPTION


class Printer:
    def __init__(self, prog=None):
        self.pos = {}
        self.bodies = {}
        self.prog = prog
        self.defs = []

    def p(self, p):
        if p not in self.pos:
            if p.op == "P0":
                self.pos[p] = "start" if p.a[0] == 0 else "item%d" % p.a[0]
            elif p.op == "Next":
                b = p
                n = 0
                while b.op == "Next":
                    b = b.a[0]
                    n += 1
                self.pos[p] = "%s+%d" % (self.p(b), n)
            elif p.op == "After":
                k = p.a[1]
                self.pos[p] = "after(%s, %s)" % (self.key(k), self.p(p.a[0]))
            else:
                self.pos[p] = p.op
        return self.pos[p]

    def key(self, k):
        if k.op == "NT":
            return k.a[0]
        return "*" + self.body(k)

    def body(self, b):
        if b not in self.bodies:
            self.bodies[b] = "B%d" % (len(self.bodies) + 1)
        return self.bodies[b]

    def val(self, t, d=0):
        if not isinstance(t, T):
            return showset(t) if type(t).__name__ == "CharSet" else repr(t)
        if d > 12:
            return "..."
        f = lambda x: self.val(x, d + 1)
        if t.op == "Tup":
            return "(" + ", ".join(f(x) for x in t.a) + ")"
        if t.op == "Adt":
            path, var = t.a[0], t.a[1]
            name = path.split("::")[-1] + "#%d" % var
            if path == OPTION:
                name = ["None", "Some"][var]
            elif path == RESULT:
                name = ["Ok", "Err"][var]
            elif self.prog and path in self.prog.adts:
                a = self.prog.adts[path]
                name = path.split("::")[-1]
                if a["kind"] == "Enum":
                    name += "::" + a["variants"][var]["name"]
                fs = a["variants"][var]["fields"]
                if fs and not fs[0]["name"].isdigit():
                    return name + "{" + ", ".join("%s: %s" % (x["name"], f(v)) for x, v in zip(fs, t.a[2:])) + "}"
            return name + ("(" + ", ".join(f(x) for x in t.a[2:]) + ")" if t.a[2:] else "")
        if t.op == "Int":
            return str(t.a[0])
        if t.op == "Str":
            return repr(t.a[0])
        if t.op == "V":
            return "<%s@%s>" % (t.a[0], self.p(t.a[1]))
        if t.op == "Text":
            return "text[%s..%s]" % (self.p(t.a[0]), self.p(t.a[1]))
        if t.op == "C":
            return "char[%s]" % self.p(t.a[0])
        if t.op == "L":
            return "list[%s from %s]" % (self.body(t.a[0]), self.p(t.a[1]))
        if t.op in ("P0", "Next", "After"):
            return self.p(t)
        if t.op == "Cons":
            return f(t.a[0]) + " :: " + f(t.a[1])
        if t.op == "Nil":
            return "[]"
        if t.op == "App":
            return "%s(%s)" % (t.a[0], ", ".join(f(x) for x in t.a[1:]))
        return t.op + "(" + ", ".join(f(x) for x in t.a) + ")"

    def tree(self, n, ind=0, out=None, seen=None):
        out = [] if out is None else out
        seen = {} if seen is None else seen
        pad = "  " * ind
        if n is None:
            return out
        if n.op not in LEAF:
            if n in seen:
                out.append(pad + "(as #%d)" % seen[n])
                return out
            seen[n] = len(seen) + 1
            tag = "#%d " % seen[n]
        if n.op == "Sw":
            out.append(pad + tag + "at %s:" % self.p(n.a[0]))
            for s, x in n.a[1]:
                if x.op in LEAF:
                    out.append(pad + "  %s -> %s" % (showset(s), self.leaf(x)))
                else:
                    out.append(pad + "  %s ->" % showset(s))
                    self.tree(x, ind + 2, out, seen)
        elif n.op == "Call":
            out.append(pad + tag + "rule %s at %s" % (n.a[0], self.p(n.a[1])))
            for l, x in zip(("match", "no match", "failure"), n.a[2:]):
                if x is not None:
                    out.append(pad + "  %s:" % l)
                    self.tree(x, ind + 2, out, seen)
        elif n.op == "Lit":
            out.append(pad + tag + "text %r%s at %s" % (n.a[0], " (any case)" if n.a[1] else "", self.p(n.a[2])))
            for l, x in zip(("match", "no match"), n.a[3:]):
                out.append(pad + "  %s:" % l)
                self.tree(x, ind + 2, out, seen)
        elif n.op == "Star":
            out.append(pad + tag + "repeat %s at %s" % (self.body(n.a[0]), self.p(n.a[1])))
            for l, x in zip(("then", "aborted", "failure"), n.a[2:]):
                if x is not None:
                    out.append(pad + "  %s:" % l)
                    self.tree(x, ind + 2, out, seen)
        elif n.op == "Cond":
            out.append(pad + tag + "if %s" % self.val(n.a[0]))
            for l, x in n.a[1]:
                out.append(pad + "  %s:" % l)
                self.tree(x, ind + 2, out, seen)
        else:
            out.append(pad + self.leaf(n))
        return out

    def leaf(self, n):
        if n.op == "Ok":
            return "ok, rest at %s, value %s" % (self.p(n.a[0]), self.val(n.a[1]))
        if n.op == "Unk":
            return "NOT ANALYSED: %s" % n.a[0]
        if n.op == "Panic":
            return "PANIC: %s" % n.a[0]
        if n.op == "Ret":
            return "returns %s" % self.val(n.a[0])
        if n.op == "Same":
            return "same"
        if n.op == "Diff":
            return "expected: %s; source: %s" % (self.leaf(n.a[0]), self.leaf(n.a[1]))
        return {"Err": "no match", "Fail": "failure", "Abort": "abort"}[n.op]

    def full(self, n):
        out = self.tree(n)
        done = set()
        while True:
            todo = [b for b in self.bodies if b not in done]
            if not todo:
                break
            for b in todo:
                done.add(b)
                out.append("where %s (from %s) is" % (self.bodies[b], self.p(b.a[0])))
                self.tree(b.a[1], 1, out)
        return "\n".join(out)
