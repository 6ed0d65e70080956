"""Hash-consed terms: the abstract values of the analysis."""


class T(str):
    """Derived from str for its fast hash, which unlike that of an object
    does not depend on where it lies in memory: runs are repeatable."""
    __slots__ = ("op", "a", "id", "_syms", "_size")

    def __repr__(self):
        return show(self)


_table = {}
_next = [0]


def mk(op, *a):
    k = (op, a)
    t = _table.get(k)
    if t is None:
        t = T("\0%d" % _next[0])
        t.op = op
        t.a = a
        t.id = _next[0]
        _next[0] += 1
        t._syms = None
        t._size = None
        _table[k] = t
    return t


class Dropped(tuple):
    """What becomes of an element which is taken out of a list, as opposed to
    one which was never put into it: nothing, too."""

    def __eq__(self, o):
        return o is self

    def __ne__(self, o):
        return o is not self

    def __hash__(self):
        return 7


DROPPED = Dropped()


def subterms(t):
    """All sub-terms (T instances) of a term, cached as a frozenset of ids."""
    s = t._syms
    if s is None:
        s = {t}
        _collect(t.a, s)
        s = frozenset(s)
        t._syms = s
    return s


def _collect(a, s):
    for x in a:
        if isinstance(x, T):
            s |= subterms(x)
        elif isinstance(x, (tuple, frozenset)):
            _collect(x, s)


_subs = {}
_EMPTY = frozenset()


def allsubs(x):
    """Sub-terms of anything made of terms, tuples and sets (cached)."""
    if isinstance(x, T):
        s = x._syms
        return s if s is not None else subterms(x)
    if isinstance(x, (tuple, frozenset)):
        r = _subs.get(x)
        if r is None:
            s = set()
            for y in x:
                s |= allsubs(y)
            r = frozenset(s)
            _subs[x] = r
        return r
    return _EMPTY


def mentions(x, t):
    """Does x (term, tuple, ...) have t as a sub-term?"""
    return t in allsubs(x)


UNIT = mk("unit")
TRUE = mk("bool", True)
FALSE = mk("bool", False)
ERR = mk("anyhow")
UNDEF = mk("undef")


def INT(n):
    return mk("int", n)


def STR(s):
    return mk("str", s)


def BOOL(b):
    return TRUE if b else FALSE


def adt(path, variant, *fields):
    return mk("adt", path, variant, *fields)


OPTION = "core::option::Option"
RESULT = "core::result::Result"
ORDERING = "core::cmp::Ordering"
CONTROL = "core::ops::control_flow::ControlFlow"

NONE = adt(OPTION, 0)


def SOME(x):
    return adt(OPTION, 1, x)


def OK(x):
    return adt(RESULT, 0, x)


def ERRV(x):
    return adt(RESULT, 1, x)


def app(name, *args):
    return mk("app", name, *args)


def short(p):
    if not isinstance(p, str):
        return str(p)
    return p.split("::")[-1] if not p.startswith("<") else p.rsplit("::", 1)[-1]


def show(t, depth=9):
    if not isinstance(t, T):
        if isinstance(t, (tuple, frozenset)):
            return "(" + ",".join(show(x, depth - 1) for x in t) + ")"
        return str(t)
    if depth <= 0:
        return "…"
    op = t.op
    if op == "int" or op == "bool":
        return str(t.a[0])
    if op == "str":
        return repr(t.a[0])
    if op == "adt":
        n = short(t.a[0])
        fs = t.a[2:]
        return "%s#%s(%s)" % (n, t.a[1], ",".join(show(x, depth - 1) for x in fs))
    if op == "fld":
        return "%s.%s" % (show(t.a[0], depth - 1), t.a[3] if t.a[2] in (0, None) else "%s@%s" % (t.a[3], t.a[2]))
    if op == "app":
        return "%s(%s)" % (short(t.a[0]), ",".join(show(x, depth - 1) for x in t.a[1:]))
    return "%s(%s)" % (op, ",".join(show(x, depth - 1) for x in t.a))
