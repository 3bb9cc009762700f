"""Trees of every rule, from the analysed source and from the reference grammar."""
import os
import threading

import engine
import models
import spec as specmod
from charset import CharSet, UNIVERSE, CHARS, EMPTY, EOFSET
from engine import (Engine, NtInfo, Program, St, ERR, FAIL, TooBig, Unsupported, leaves, unk)
from terms import *
from terms import T

HERE = os.path.dirname(os.path.abspath(__file__))
SPECFILE = os.path.join(os.path.dirname(HERE), "spec", "sparql.spec")


def big_stack(f, *a):
    """run f on a thread with a deep stack; returns its result"""
    out = []

    def go():
        try:
            out.append(("ok", f(*a)))
        except BaseException as x:      # noqa
            import traceback
            out.append(("exc", x, traceback.format_exc()))
    threading.stack_size(1 << 30)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    if out[0][0] == "exc":
        raise RuntimeError(out[0][2])
    return out[0][1]


class Side:
    """one grammar: name -> tree"""

    def __init__(self, g, which):
        self.g = g
        self.which = which
        self.e = Engine(g.prog, g.nts, g.transparent)
        self.trees = {}
        self.posts = {}
        self.null = {}
        self.touch = {}
        self.used = {}
        self.events = {}
        self.exc = {}

    def probe(self, name):
        """the tree of a rule, leaving what is recorded about it alone"""
        slots = (self.trees, self.posts, self.null, self.touch, self.used, self.events)
        keep = [d.get(name) for d in slots]
        try:
            return self.tree(name)
        finally:
            for d, v in zip(slots, keep):
                if v is None:
                    d.pop(name, None)
                else:
                    d[name] = v

    def tree(self, name):
        e = self.e
        e.rule = name
        e.steps = 0
        e.depth = 0
        e.inline_stack = []
        e.touched = set()
        e.used = set()
        e.star_cache = {}
        e.stars_at = {}
        e.events = {}
        post = [EMPTY]
        null = [False]
        root = P0(0)

        def unmoved(s):
            null[0] = True
            return ERR

        def ok(p, v, s):
            post[0] = post[0] | s.k(p)
            if self.which == "spec" and not null[0]:
                e.if_moved(s.clone(), root, p, lambda s: ERR, unmoved)
            return T("Ok", p, v)
        try:
            if self.which == "impl":
                b = self.g.body(name)
                t = e.exec_fn(b, [Rest(P0(0))], St(),
                              lambda v, s: e.dispatch(v, s, ok, lambda s2: ERR, lambda s2: FAIL))
            else:
                t = e.run(self.g.spec.vals[name], P0(0), St(), ok, lambda s: ERR, lambda s: FAIL)
        except TooBig as x:
            t = unk(str(x))
        except (Unsupported, specmod.SpecError, RecursionError) as x:
            t = unk("%s: %s" % (type(x).__name__, x))
        except (AttributeError, TypeError, KeyError, IndexError, ValueError) as x:
            import traceback
            t = unk("analysis error %s: %s" % (type(x).__name__, x))
            self.exc[name] = traceback.format_exc()
            if os.environ.get("VTRACE"): print(self.exc[name])
        self.trees[name] = t
        self.posts[name] = post[0]
        self.null[name] = null[0]
        self.touch[name] = e.touched
        self.used[name] = e.used
        self.events[name] = e.events
        return t


class Grammar:
    def __init__(self, dump):
        self.prog = Program(dump)
        self.rules = specmod.read(SPECFILE)
        self.spec = specmod.Spec(self.rules, self.prog)
        specmod.install(self.spec)
        self.bodies = self.prog.rule_bodies()
        self.nts = {}
        self.transparent = {}
        self.inst = {}
        for n, r in self.rules.items():
            if n not in self.bodies:
                continue
            if r.inline:
                self.transparent[n] = self.spec.vals[n]
            else:
                self.nts[n] = NtInfo()
        self.S = Side(self, "spec")
        self.I = Side(self, "impl")

    def body(self, name):
        return self.bodies.get(name)

    # ------------------------------------------------------------ facts
    def info(self, name):
        e = self.S.e
        t = self.S.trees[name]
        i = NtInfo()
        root = frozenset([P0(0)])
        i.first = e.first_of(t, root)
        ls = list(leaves(t))
        i.nullable = self.S.null[name]
        if i.nullable:
            i.first = UNIVERSE
        i.total = not any(l.op in ("Err", "Unk", "Abort", "Panic") for l in ls)
        i.canfail = any(l.op == "Fail" for l in ls)
        i.post = self.S.posts[name]
        return i

    def fixpoint(self):
        todo = list(self.nts)
        n = 0
        while todo:
            n += 1
            if n > 40:
                raise RuntimeError("facts do not settle: " + ", ".join(todo))
            changed = set()
            for name in todo:
                self.S.e._bs = {}
                self.S.tree(name)
                i = self.info(name)
                if i.key() != self.nts[name].key():
                    self.nts[name].__dict__.update(i.__dict__)
                    changed.add(name)
            todo = [r for r in self.nts if self.S.touch.get(r, set()) & changed]
        self.rounds = n
        self.settle_implied()

    def settle_implied(self):
        self.S.e._bs = {}

    def run(self):
        self.fixpoint()
        engine_reset(self.S.e)
        for n in self.rules:
            if n in self.bodies:
                self.S.tree(n)
        for n in self.bodies:
            self.I.tree(n)


def engine_reset(e):
    e._bs = {}
    e.star_cache = {}
