"""Which nested constructs may be parsed twice from one position, and left recursion."""
import engine
from engine import kids
from terms import T


class Fronts:
    """front(R): the nested constructs R may parse first, before any other nested construct, as
    (construct, position relative to the start of R) -> known characters on the way"""

    def __init__(self, trees, graph):
        self.trees = trees
        self.rec = recursive_rules(graph)
        self.core = core_rules(graph, self.rec)
        self.memo = {}
        self.atmemo = {}

    def isfront(self, p):
        while p.op != "P0":
            if p.op == "After" and p.a[1].op == "NT" and p.a[1].a[0] in self.rec:
                return False
            p = p.a[0]
        return True

    def shift(self, t, root, to, cache):
        """position t with root replaced"""
        if t is root:
            return to
        r = cache.get(t)
        if r is None:
            r = t
            if t.op in ("Next", "After"):
                x = self.shift(t.a[0], root, to, cache)
                r = T(t.op, x, *t.a[1:])
            cache[t] = r
        return r

    def base(self, p):
        while p.op != "P0":
            p = p.a[0]
        return p

    def reroot(self, p, roots):
        for r, to in roots:
            if self.base(p) is r:
                return self.shift(p, r, to, {})
        return p

    def succ(self, t, first_only=False):
        if t.op == "Call":
            if not (first_only and t.a[0] in self.rec):
                yield t.a[2], None
            for x in t.a[3:]:
                yield x, None
        elif t.op == "Sw":
            for s, x in t.a[1]:
                yield x, ((t.a[0], s),)
        elif t.op == "Cond":
            for _, x in t.a[1]:
                yield x, None
        elif t.op == "Lit":
            p = t.a[2]
            d = []
            for cs in engine.lit_sets(t.a[0], t.a[1]):
                d.append((p, cs))
                p = engine.Next(p)
            yield t.a[3], tuple(d)
            yield t.a[4], None
        elif t.op == "Star":
            for x in t.a[2:]:
                yield x, None

    def flow(self, tree, roots, env0, succ):
        """one pass over the tree in topological order; where paths meet, environments are joined"""
        order = []
        seen = {tree}
        st = [(tree, iter(list(succ(tree))))]
        while st:
            t, it = st[-1]
            for x, _ in it:
                if x is not None and x not in seen:
                    seen.add(x)
                    st.append((x, iter(list(succ(x)))))
                    break
            else:
                order.append(t)
                st.pop()
        order.reverse()
        envs = {tree: env0}
        for t in order:
            env = envs[t]
            for x, d in succ(t):
                if x is None:
                    continue
                e2 = env
                if d:
                    e2 = dict(env)
                    for p, s in d:
                        p = self.reroot(p, roots)
                        e2[p] = e2[p] & s if p in e2 else s
                old = envs.get(x)
                if old is None:
                    envs[x] = e2
                else:
                    envs[x] = {p: c | e2[p] for p, c in old.items() if p in e2}
        return order, envs

    def envs(self, tree, env0):
        return self.flow(tree, (), env0, self.succ)[1]

    def calls(self, tree, first_only=False):
        """(rule, position) -> set of environments (frozenset of (position, characters)); bodies of
        repetitions at their first item.  first_only: stop behind the first nested construct.
        One pass over the tree in topological order; where paths meet, the environments are joined."""
        out = {}

        def succ(t):
            return self.succ(t, first_only)

        def w(tree, roots, env0):
            order, envs = self.flow(tree, roots, env0, succ)
            for t in order:
                env = envs[t]
                if t.op == "Call":
                    out.setdefault((t.a[0], self.reroot(t.a[1], roots)), set()).add(frozenset(env.items()))
                if t.op == "Star":
                    body = t.a[0]
                    r = dict(roots)
                    r[body.a[0]] = self.reroot(t.a[1], roots)
                    w(body.a[1], tuple(sorted(r.items(), key=lambda z: z[0].id)), env)
        w(tree, (), {})
        return out

    def merge(self, a, b):
        d = dict(a)
        for p, s in b:
            i = d[p] & s if p in d else s
            if not i:
                return None
            d[p] = i
        return frozenset(d.items())

    def move(self, env, root, to):
        c = {}
        return frozenset((self.shift(p, root, to, c), s) for p, s in env)

    def front0(self, name):
        """core constructs reached through other rules only: (core, position) -> environments"""
        if name in self.memo:
            return self.memo[name]
        self.memo[name] = {}
        out = {}
        tree = self.trees.get(name)
        if tree is None:
            return out
        root = T("P0", 0)
        for (m, q), envs in self.calls(tree, True).items():
            if self.base(q) is not root or not self.isfront(q):
                continue
            if m in self.core:
                self.add(out, (m, q), envs)
            else:
                self.extend(out, m, q, envs, self.front0(m))
        self.memo[name] = out
        return out

    def extend(self, out, m, q, envs, fr):
        root = T("P0", 0)
        for (n, q2), envs2 in fr.items():
            mv = [self.move(x, root, q) for x in envs2]
            self.add(out, (n, self.shift(q2, root, q, {})),
                     [z for z in (self.merge(a, b) for a in envs for b in mv) if z is not None])

    def front(self, name):
        k = ("front", name)
        if k in self.memo:
            return self.memo[k]
        out = dict((x, set(y)) for x, y in self.front0(name).items())
        level = self.front0(name)
        for _ in range(2):
            new = {}
            for (m, q), envs in level.items():
                self.extend(new, m, q, envs, self.front0(m))
            for x, envs in new.items():
                self.add(out, x, envs)
            level = new
        self.memo[k] = out
        return out

    def add(self, out, key, envs):
        if not envs:
            return
        s = out.setdefault(key, set())
        s.update(envs)
        if len(s) > 24:
            # forget all but what every environment knows
            common = None
            for e in s:
                ps = {p for p, _ in e}
                common = ps if common is None else common & ps
            d = {}
            for e in s:
                for p, c in e:
                    if p in common:
                        d[p] = d[p] | c if p in d else c
            s.clear()
            s.add(frozenset(d.items()))

    def at(self, name, pos):
        k = (name, pos)
        if k in self.atmemo:
            return self.atmemo[k]
        root = T("P0", 0)
        r = {}
        if name in self.core:
            r[(name, pos)] = {frozenset()}
        for (n, q), envs in self.front(name).items():
            self.add(r, (n, self.shift(q, root, pos, {})), [self.move(e, root, pos) for e in envs])
        self.atmemo[k] = r
        return r

    def overlaps(self, name):
        """(first rule, second rule, construct): parsed by the first, which failed, and then again"""
        tree = self.trees[name]
        out = set()
        seen = set()

        def common(b, p, m, q, env):
            x, y = self.at(b, p), self.at(m, q)
            for k, envs in x.items():
                if k in y and any(self.meets(env, a, c) for a in envs for c in y[k]):
                    out.add((b, m, k[0], p is q))

        def w(t, failed):
            if t is None or (t, failed) in seen:
                return
            seen.add((t, failed))
            if t.op == "Call":
                m, q = t.a[0], t.a[1]
                for b, p in failed:
                    if (b, p) != (m, q):
                        common(b, p, m, q, env_of[t])
                # given up later, what was parsed here may be parsed again
                w(t.a[2], failed | {(m, q)})
                w(t.a[3], failed | {(m, q)})
                w(t.a[4], failed)
            elif t.op in ("Sw", "Cond"):
                for _, x in t.a[1]:
                    w(x, failed)
            elif t.op == "Lit":
                w(t.a[3], failed)
                w(t.a[4], failed)
            elif t.op == "Star":
                body = t.a[0]
                top(body.a[1])
                end = engine.After(t.a[1], body)
                nf = failed | frozenset((m, self.shift(q, body.a[0], end, {})) for m, q in self.calls(body.a[1], True))
                w(t.a[2], nf)
                for x in t.a[3:]:
                    w(x, failed)
        env_of = {}
        tops = set()

        def top(tree):
            if tree in tops:
                return
            tops.add(tree)
            env_of.update(self.envs(tree, {}))
            w(tree, frozenset())
        top(tree)
        return out

    def meets(self, env, a, c):
        m = self.merge(a, c)
        if m is None:
            return False
        return all(env[p] & s for p, s in m if p in env)


def rule_graph(trees):
    g = {}
    for n, t in trees.items():
        s = set()
        seen = set()
        st = [t]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op in ("Call", "NT"):
                s.add(x.a[0])
            st.extend(kids(x))
        g[n] = s
    return g


def reach(g, n):
    seen = set()
    st = list(g.get(n, ()))
    while st:
        m = st.pop()
        if m in seen:
            continue
        seen.add(m)
        st.extend(g.get(m, ()))
    return seen


def recursive_rules(g):
    """rules that can contain themselves"""
    return {n for n in g if n in reach(g, n)}


def core_rules(g, rec):
    """a set of rules on every cycle"""
    g = {n: {m for m in s if m in rec} for n, s in g.items() if n in rec}
    core = set()
    while True:
        cyc = [n for n in g if n in reach(g, n)]
        if not cyc:
            return core
        indeg = {n: sum(1 for m in cyc if n in g[m]) for n in cyc}
        best = max(cyc, key=lambda n: (n in g[n], indeg[n] * len([m for m in g[n] if m in cyc]), n))
        core.add(best)
        g = {n: {m for m in s if m != best} for n, s in g.items() if n != best}


def left_calls(tree, moved):
    """rules called at the start position (moved(p) tells whether p is certainly beyond it)"""
    f = Fronts({}, {})
    out = set()
    for m, q in f.calls(tree):
        if f.base(q).op == "P0" and f.base(q).a[0] == 0 and not moved(q):
            out.add(m)
    return out


def cycles(edges):
    """a cycle in a graph name -> names, or None"""
    color = {}
    path = []

    def dfs(u):
        color[u] = 1
        path.append(u)
        for v in sorted(edges.get(u, ())):
            if color.get(v) == 1:
                return path[path.index(v):] + [v]
            if v not in color and v in edges:
                r = dfs(v)
                if r:
                    return r
        path.pop()
        color[u] = 2
        return None
    for u in sorted(edges):
        if u not in color:
            r = dfs(u)
            if r:
                return r
    return None
