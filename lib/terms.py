"""Hash-consed terms: values, positions and decision-tree nodes."""


class T:
    __slots__ = ("op", "a", "id", "_pos", "_txt", "_roots")
    pool = {}
    n = 0

    def __new__(cls, op, *a):
        key = (op,) + a
        t = cls.pool.get(key)
        if t is None:
            t = object.__new__(cls)
            t.op = op
            t.a = a
            t._pos = None
            t._txt = None
            t._roots = None
            cls.n += 1
            t.id = cls.n
            cls.pool[key] = t
        return t

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return show(self)


RESULT = "core::result::Result"
OPTION = "core::option::Option"
NOMERR = "nom::internal::Err"
CFLOW = "core::ops::control_flow::ControlFlow"

UNIT = T("Tup")


def Tup(*xs):
    return T("Tup", *xs)


def Adt(path, variant, *fields):
    return T("Adt", path, variant, *fields)


def Int(v):
    return T("Int", v)


def Bool(b):
    return T("Int", 1 if b else 0)


TRUE = Int(1)
FALSE = Int(0)


def Chr(v):
    return T("Int", v)


def Str(s):
    return T("Str", s)


def Some(x):
    return Adt(OPTION, 1, x)


NONE = Adt(OPTION, 0)


def Ok(x):
    return Adt(RESULT, 0, x)


def Err(x):
    return Adt(RESULT, 1, x)


EPAY = T("ErrPayload")
NERR = Err(Adt(NOMERR, 1, EPAY))
NFAIL = Err(Adt(NOMERR, 2, EPAY))
NINC = Err(Adt(NOMERR, 0, EPAY))

NIL = T("Nil")


def Cons(h, t):
    return T("Cons", h, t)


def append(a, b):
    if a is NIL:
        return b
    if b is NIL:
        return a
    if a.op == "Cons":
        return Cons(a.a[0], append(a.a[1], b))
    if a.op == "App2":
        return append(a.a[0], append(a.a[1], b))
    return T("App2", a, b)


def P0(depth):
    return T("P0", depth)


def Next(p):
    return T("Next", p)


def After(p, key):
    return T("After", p, key)


def Rest(p):
    return T("Rest", p)


def Text(p, q):
    if p is q:
        return Str("")
    return T("Text", p, q)


def piece(v):
    """a char as a text"""
    if v.op == "C":
        return Text(v.a[0], Next(v.a[0]))
    if v.op == "Int":
        return Str(chr(v.a[0]))
    return T("Chr1", v)


def Cat(*xs):
    """texts one after the other"""
    out = []
    todo = list(reversed(xs))
    while todo:
        x = todo.pop()
        if x.op == "Cat":
            todo.extend(reversed(x.a))
            continue
        if x.op == "Chr1" and x.a[0].op in ("C", "Int"):
            x = piece(x.a[0])
        if x.op == "Str" and x.a[0] == "":
            continue
        if out:
            y = out[-1]
            if x.op == y.op == "Str":
                out[-1] = Str(y.a[0] + x.a[0])
                continue
            if y.op == "Text" and x.op == "Text" and y.a[1] is x.a[0]:
                out[-1] = Text(y.a[0], x.a[1])
                continue
            if y.op == "Text" and x.op == "Rest" and y.a[1] is x.a[0]:
                out[-1] = Rest(y.a[0])
                continue
        out.append(x)
    if not out:
        return Str("")
    return out[0] if len(out) == 1 else T("Cat", *out)


def C(p):
    return T("C", p)


def App(name, *args):
    return T("App", name, *args)


def guarded(st, vals):
    """was something asked before about one of these values, or what they are computed from?"""
    if not st.cond:
        return False
    want, todo = set(), list(vals)
    while todo:
        v = todo.pop()
        if v.op in ("Int", "Str", "Tup") or v in want:
            continue
        want.add(v)
        if v.op in ("Not", "Len") or v.op == "App" and str(v.a[0]).split("-")[0] in ("bin", "overflow", "len"):
            todo += [x for x in v.a if hasattr(x, "op")]
    if not want:
        return False
    return any(guarded_by(t, *want) for t in st.cond)


def guarded_by(t, *want):
    """does one of these values occur in this condition?"""
    seen, todo = set(), [t]
    while todo:
        t = todo.pop()
        if t in want:
            return True
        if t.op == "Moved2" and any(w.op == "Text" and w.a == t.a for w in want):
            return True
        if t not in seen:
            seen.add(t)
            todo += [x for x in t.a if hasattr(x, "op")]
    return False


def show(t, depth=0):
    if not isinstance(t, T):
        return repr(t) if not isinstance(t, str) else t
    if depth > 40:
        return "..."
    op, a = t.op, t.a
    s = lambda x: show(x, depth + 1)
    if op == "Tup":
        return "(" + ", ".join(s(x) for x in a) + ")"
    if op == "Adt":
        name = a[0].split("::")[-1]
        return "%s#%s%s" % (name, a[1], "(" + ", ".join(s(x) for x in a[2:]) + ")" if a[2:] else "")
    if op in ("Int",):
        return str(a[0])
    if op == "Str":
        return repr(a[0])
    return op + ("(" + ", ".join(s(x) for x in a) + ")" if a else "")
