"""The reference grammar: reader, and compilation to the engine's parser values."""
import os
import re

from charset import CharSet, CHARS, EMPTY
import engine
from engine import NOM, unk, mk_adt, field
from models import nom, match_result, parse_app, DIGIT
from terms import *
from terms import T


class SpecError(Exception):
    pass


TOK = re.compile(r"""
  (?P<ws>\s+|\#[^\n]*(?=\n))
 |(?P<lit>'(?:\\.|[^'\\])*')
 |(?P<kw>"(?:\\.|[^"\\])*")
 |(?P<cls>\[(?:\\u\{[0-9A-Fa-f]+\}|\\.|[^\]\\])*\])
 |(?P<ws3>___(?![A-Za-z0-9_]))
 |(?P<ws2>__(?![A-Za-z0-9_]))
 |(?P<ws1>_(?![A-Za-z0-9_]))
 |(?P<name>[A-Za-z][A-Za-z0-9_]*(?:::[A-Za-z][A-Za-z0-9_]*)?)
 |(?P<op>\{\?|[=|?*+!&^$@(){}<>,:\[\]])
""", re.X)


def unescape(s, quote=None):
    out = []
    i = 0
    while i < len(s):
        if s[i] == "\\":
            if s[i + 1] == "u":
                j = s.index("}", i)
                out.append(chr(int(s[i + 3:j], 16)))
                i = j + 1
                continue
            out.append({"n": "\n", "r": "\r", "t": "\t"}.get(s[i + 1], s[i + 1]))
            i += 2
        else:
            out.append(s[i])
            i += 1
    return "".join(out)


def parse_class(s):
    body = s[1:-1]
    neg = body.startswith("^")
    if neg:
        body = body[1:]
    items = []          # (char, escaped)
    i = 0
    while i < len(body):
        if body[i] == "\\":
            if body[i + 1] == "u":
                j = body.index("}", i)
                items.append((int(body[i + 3:j], 16), True))
                i = j + 1
            else:
                items.append((ord({"n": "\n", "r": "\r", "t": "\t"}.get(body[i + 1], body[i + 1])), True))
                i += 2
        else:
            items.append((ord(body[i]), False))
            i += 1
    ivs = []
    i = 0
    while i < len(items):
        c = items[i][0]
        if i + 2 < len(items) and items[i + 1] == (ord("-"), False):
            ivs.append((c, items[i + 2][0] + 1))
            i += 3
        else:
            ivs.append((c, c + 1))
            i += 1
    cs = CharSet.norm(ivs) & CHARS
    return CHARS - cs if neg else cs


class Rule:
    def __init__(self, name, inline, ast, line):
        self.name = name
        self.inline = inline
        self.ast = ast
        self.line = line


class Reader:
    def __init__(self, text, fname):
        self.toks = []
        pos = 0
        line = 1
        while pos < len(text):
            m = TOK.match(text, pos)
            if not m:
                raise SpecError("%s:%d: cannot read %r" % (fname, line, text[pos:pos + 20]))
            k = m.lastgroup
            v = m.group()
            # a class only opens where a primary may start; in actions `[` is a list
            if k != "ws":
                self.toks.append((k, v, line))
            line += v.count("\n")
            pos = m.end()
        self.i = 0
        self.f = fname

    def peek(self, k=0):
        return self.toks[self.i + k] if self.i + k < len(self.toks) else ("eof", "", 0)

    def next(self):
        t = self.peek()
        self.i += 1
        return t

    def expect(self, v):
        t = self.next()
        if t[1] != v:
            raise SpecError("%s:%d: expected %r, found %r" % (self.f, t[2], v, t[1]))

    def at(self, v):
        return self.peek()[1] == v and self.peek()[0] == "op"

    def rules(self):
        out = {}
        classes = {}
        self.classes = classes
        while self.peek()[0] != "eof":
            t = self.next()
            if t[1] == "class":
                n = self.next()[1]
                self.expect("=")
                cs = EMPTY
                while True:
                    p = self.peek()
                    if p[0] == "cls":
                        cs = cs | parse_class(p[1])
                    elif p[0] == "name" and p[1] in classes:
                        cs = cs | classes[p[1]]
                    else:
                        break
                    self.next()
                classes[n] = cs
                continue
            if t[1] not in ("rule", "inline"):
                raise SpecError("%s:%d: expected a rule, found %r" % (self.f, t[2], t[1]))
            n = self.next()[1]
            self.expect("=")
            if n in out:
                raise SpecError("rule %s twice" % n)
            out[n] = Rule(n, t[1] == "inline", self.alts(), t[2])
        return out

    def alts(self):
        a = [self.seq()]
        while self.at("|"):
            self.next()
            a.append(self.seq())
        return a[0] if len(a) == 1 else ("alt", tuple(a))

    def starts(self):
        k, v, _ = self.peek()
        if k in ("lit", "kw", "cls", "ws1", "ws2", "ws3"):
            return True
        if k == "name":
            return v not in ("rule", "inline", "class")
        return k == "op" and v in ("(", "!", "&", "^", "$", "@")

    def seq(self):
        items = []
        while self.starts():
            items.append(self.item())
        act = None
        if self.at("{") or self.at("{?"):
            t = self.next()
            act = ("try" if t[1] == "{?" else "do", self.expr())
            self.expect("}")
        if not items:
            raise SpecError("%s:%d: empty sequence" % (self.f, self.peek()[2]))
        return ("seq", tuple(items), act)

    def item(self):
        label = None
        if self.at("@"):
            self.next()
            label = "@"
        elif self.peek()[0] == "name" and self.peek(1)[1] == ":" and self.peek(1)[0] == "op":
            label = self.next()[1]
            self.next()
        return (label, self.prefix())

    def prefix(self):
        if self.peek()[0] == "op" and self.peek()[1] in ("!", "&", "^", "$"):
            o = self.next()[1]
            return ({"!": "not", "&": "peek", "^": "cut", "$": "text"}[o], self.prefix())
        return self.postfix()

    def postfix(self):
        p = self.primary()
        while self.peek()[0] == "op" and self.peek()[1] in ("?", "*", "+"):
            o = self.next()[1]
            p = ({"?": "opt", "*": "star", "+": "plus"}[o], p)
        return p

    def primary(self):
        k, v, ln = self.next()
        if k == "lit":
            return ("lit", unescape(v[1:-1]))
        if k == "kw":
            return ("kw", unescape(v[1:-1]))
        if k == "cls":
            return ("cc", parse_class(v))
        if k == "ws1":
            return ("ref", "sp")
        if k == "ws2":
            return ("ref", "sp1")
        if k == "ws3":
            return ("ref", "kwsep")
        if k == "op" and v == "(":
            a = self.alts()
            self.expect(")")
            return a
        if k == "name" and v in ("list", "list0") and self.at("<"):
            self.next()
            a = self.alts()
            self.expect(",")
            b = self.alts()
            self.expect(">")
            return (v, a, b)
        if k == "name" and v == "escaped":
            self.expect("<")
            a = self.alts()
            self.expect(",")
            b = self.alts()
            self.expect(",")
            c = self.alts()
            self.expect(">")
            return ("escaped", a, b, c)
        if k == "name":
            if v in self.classes:
                return ("cc", self.classes[v])
            return ("ref", v)
        raise SpecError("%s:%d: unexpected %r" % (self.f, ln, v))

    # ---- actions
    def expr(self):
        k, v, ln = self.next()
        if k in ("lit", "kw"):
            return ("str", unescape(v[1:-1]))
        if k == "cls":
            # [o] reads as a class token: a one-element list
            return ("listof", (("var", v[1:-1].strip()),))
        if k == "op" and v == "(":
            xs = []
            while not self.at(")"):
                xs.append(self.expr())
                if self.at(","):
                    self.next()
            self.next()
            return ("tup", tuple(xs))
        if k == "name":
            if self.at("("):
                self.next()
                xs = []
                while not self.at(")"):
                    xs.append(self.expr())
                    if self.at(","):
                        self.next()
                self.next()
                return ("call", v, tuple(xs))
            if self.at("{"):
                self.next()
                fs = []
                while not self.at("}"):
                    n = self.next()[1]
                    self.expect(":")
                    fs.append((n, self.expr()))
                    if self.at(","):
                        self.next()
                self.next()
                return ("struct", v, tuple(fs))
            if "::" in v or v[0].isupper():
                return ("call", v, ())
            return ("var", v)
        raise SpecError("%s:%d: unexpected %r in an action" % (self.f, ln, v))


def read(path):
    return Reader(open(path).read(), os.path.basename(path)).rules()


# ------------------------------------------------------------------ compilation

class Spec:
    def __init__(self, rules, prog):
        self.rules = rules
        self.prog = prog
        self.vals = {}
        for n, r in rules.items():
            self.vals[n] = self.comp(r.ast)

    def comp(self, a):
        k = a[0]
        if k == "alt":
            return nom("alt", *[self.comp(x) for x in a[1]])
        if k == "seq":
            items, act = a[1], a[2]
            if len(items) == 1 and act is None:
                return self.comp(items[0][1])
            ps = tuple(self.comp(x) for _, x in items)
            labels = tuple(l for l, _ in items)
            return nom("specseq", ps, labels, act)
        if k == "lit":
            return nom("tag", Str(a[1]))
        if k == "kw":
            return nom("kw", Str(a[1]))
        if k == "cc":
            return nom("cc", a[1])
        if k == "ref":
            if a[1] not in self.rules:
                raise SpecError("no rule " + a[1])
            return nom("specref", a[1])
        if k in ("opt", "peek", "not", "cut"):
            return nom(k, self.comp(a[1]))
        if k == "text":
            return nom("recognize", self.comp(a[1]))
        if k == "star":
            return nom("many0", self.comp(a[1]))
        if k == "plus":
            return nom("many1", self.comp(a[1]))
        if k == "list":
            item, sep = self.comp(a[1]), self.comp(a[2])
            return nom("speclist", item, nom("many0", nom("preceded", sep, item)))
        if k == "list0":
            item, sep = self.comp(a[1]), self.comp(a[2])
            l = nom("speclist", item, nom("many0", nom("preceded", sep, item)))
            return nom("speclist0", l)
        if k == "escaped":
            ctl = a[2][1][0][1] if a[2][0] == "seq" else a[2]
            return nom("escaped", self.comp(a[1]), Int(ord(ctl[1])), self.comp(a[3]))
        raise SpecError(str(a))

    # ---- actions
    def ctor(self, name):
        if "::" in name:
            en, var = name.split("::")
        else:
            en, var = name, name
        for path in self.prog.short.get(en, []):
            for i, v in enumerate(self.prog.adts[path]["variants"]):
                if v["name"] == var or ("::" not in name and len(self.prog.adts[path]["variants"]) == 1):
                    return path, i, [f["name"] if isinstance(f, dict) else f for f in v["fields"]]
        return None

    def eval(self, x, env):
        k = x[0]
        if k == "var":
            n = x[1]
            if n == "true":
                return TRUE
            if n == "false":
                return FALSE
            if n == "none":
                return NONE
            if n == "nil":
                return NIL
            if n not in env:
                raise SpecError("no label " + n)
            return env[n]
        if k == "str":
            return Str(x[1])
        if k == "tup":
            return Tup(*[self.eval(y, env) for y in x[1]])
        if k == "listof":
            l = NIL
            for y in reversed(x[1]):
                l = Cons(self.eval(y, env), l)
            return l
        if k == "struct":
            c = self.ctor(x[1])
            if c is None:
                return App("missing type " + x[1])
            fs = dict(x[2])
            vals = []
            for f in c[2]:
                if f not in fs:
                    return App("missing field %s of %s" % (f, x[1]))
                vals.append(self.eval(fs.pop(f), env))
            if fs:
                return App("extra fields of " + x[1])
            return mk_adt(c[0], c[1], vals)
        if k == "call":
            n = x[1]
            args = x[2]
            if n[0].islower():
                v = [self.eval(y, env) if y[0] != "int" else y for y in args]
                return self.builtin(n, v)
            c = self.ctor(n)
            if c is None:
                return App("missing variant " + n)
            return mk_adt(c[0], c[1], [self.eval(y, env) for y in args])
        raise SpecError(str(x))

    def builtin(self, n, v):
        if n == "some":
            return Some(v[0])
        if n.startswith("parse_"):
            return parse_app({"k": "prim", "name": n[6:]}, v[0])
        if n == "is_some":
            return Bool(v[0].a[1] == 1)
        if n in ("opt_first", "opt_second"):
            i = 0 if n == "opt_first" else 1
            if v[0].a[1] == 0:
                return NONE
            y = v[0].a[2].a[i]
            return Some(y) if n == "opt_first" else y
        raise SpecError("no function " + n)


def install(spec):
    """register the models that need the reference grammar"""

    def specseq(e, p, a, pos, st, ok, err, fail):
        ps, labels, act = a

        def step(i, q, env, st):
            if i == len(ps):
                if act is None:
                    return ok(q, env.get("@", UNIT), st)
                v = spec.eval(act[1], env)
                if act[0] == "try":
                    return match_result(e, v, st, lambda x, s: ok(q, x, s), lambda x, s: err(s))
                return ok(q, v, st)

            def got(q2, v, s):
                en = env
                if labels[i] is not None:
                    en = dict(env)
                    en[labels[i]] = v
                return step(i + 1, q2, en, s)
            return e.run(ps[i], q, st, got, err, fail)
        return step(0, pos, {}, st)
    NOM["specseq"] = specseq

    def specref(e, p, a, pos, st, ok, err, fail):
        n = a[0]
        if (n in e.expand or n in e.own) and ("x:" + n) not in e.inline_stack:
            return e.expand_run(n, spec.vals[n], pos, st, ok, err, fail)
        if n in e.own:
            return unk("recursion through " + n)
        if n in e.transparent:
            e.touched.add(n)
            return e.run(e.transparent[n], pos, st, ok, err, fail)
        if n in e.nts:
            return e.call_nt(n, pos, st, ok, err, fail)
        # a rule the analysed source does not have: used in place
        if ("x:" + n) in e.inline_stack:
            return unk("recursion through the reference rule " + n)
        return e.expand_run(n, spec.vals[n], pos, st, ok, err, fail)
    NOM["specref"] = specref

    def speclist(e, p, a, pos, st, ok, err, fail):
        return e.run(a[0], pos, st,
                     lambda q, v, s: e.run(a[1], q, s, lambda q2, l, s2: ok(q2, Cons(v, l), s2), err, fail),
                     err, fail)
    NOM["speclist"] = speclist

    def speclist0(e, p, a, pos, st, ok, err, fail):
        return e.run(a[0], pos, st, ok, lambda s: ok(pos, NIL, s), fail)
    NOM["speclist0"] = speclist0
