"""Inter-procedural, branch-sensitive data-flow / typestate analysis over the
MIR dump.

A state holds an abstract memory (places -> terms), facts established by the
branches taken so far, and the typestate of the property monitor.  States
which reach the same program point with the same live memory and the same
typestate are joined (facts are intersected); loops and call graphs are
iterated to a fixpoint.  No path is ever executed and no solver is involved.
"""
import heapq
import re
import sys

from terms import *

sys.setrecursionlimit(20000)

ALLREL = frozenset("<=>")
FLIP = {"<": ">", ">": "<", "=": "="}


class Budget(Exception):
    pass


class Unsupported(Exception):
    pass


class Frame:
    __slots__ = ("id", "parent", "body", "bb", "depth")

    def __init__(self, id, parent, body, bb):
        self.id = id
        self.parent = parent
        self.body = body
        self.bb = bb
        self.depth = 0 if parent is None else parent.depth + 1

    def chain(self):
        f = self
        while f is not None:
            yield f
            f = f.parent

    def where(self):
        out = []
        for f in self.chain():
            out.append(f.body.path)
        return out


class State:
    __slots__ = ("mem", "facts", "ps", "its", "loops")

    def __init__(self, mem=None, facts=None, ps=(), its=(), loops=None):
        self.mem = mem if mem is not None else {}
        self.facts = facts if facts is not None else {}
        self.ps = ps
        self.its = its
        self.loops = loops if loops is not None else {}

    def copy(self):
        return State(dict(self.mem), dict(self.facts), self.ps, self.its,
                     self.loops)

    def key(self):
        return (frozenset(self.mem.items()), self.ps, self.its)


NOTHING = (("m", "nothing"), True)


def join_value(k, a, b):
    """Join of the values of one fact; None = nothing known."""
    if a == b:
        return a
    if isinstance(k, tuple):
        if k[0] == "ord":
            r = a | b
            return None if r == ALLREL else r
        if k[0] == "var":
            return a | b
        if k[0] == "rng":
            lo = None if a[0] is None or b[0] is None else min(a[0], b[0])
            hi = None if a[1] is None or b[1] is None else max(a[1], b[1])
            # counting must come to an end
            if hi is not None and hi > 2 and hi != a[1]:
                hi = None
            if lo is not None and lo < -2 and lo != a[0]:
                lo = None
            return None if lo is None and hi is None else (lo, hi)
        if k[0] in ("forall", "cond"):
            # of nothing at all everything holds
            if NOTHING in a:
                return b
            if NOTHING in b:
                return a
            r = a & b
            return r if r else None
    return None


def interval(facts, s, depth=0):
    """The least and greatest value a number may have."""
    if s.op == "int":
        return s.a[0], s.a[0]
    r = facts.get(("rng", s))
    if r is None and s.op == "app" and s.a[0] == "bin:Add" and depth < 8:
        x, y = interval(facts, s.a[1], depth + 1), interval(facts, s.a[2], depth + 1)
        r = tuple(None if m is None or n is None else m + n for m, n in zip(x, y))
    return r or (None, None)


def about(k, v, e):
    """Is a fact about the element e? (Not one about all of its collection.)"""
    if isinstance(k, tuple) and k[0] == "forall" and el(k[1]) is e:
        return mentions(k[1], e)
    return mentions(k, e) or (isinstance(v, (frozenset, tuple)) and mentions(v, e) and occurs(v, e))


def occurs(x, e):
    """Does x speak of the element e itself, rather than of each element of
    the collection (where what is said binds e)?"""
    if isinstance(x, T):
        if x is e:
            return True
        if e not in subterms(x):
            return False
        if x.op == "each" and el(x.a[0]) is e:
            return mentions(x.a[0], e)
        return any(occurs(y, e) for y in x.a)
    if isinstance(x, (tuple, frozenset)):
        if e not in allsubs(x):
            return False
        if binds(x, e):
            return mentions(x[0][1], e)
        return any(occurs(y, e) for y in x)
    return False


def binds(x, e):
    return isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], tuple) and len(x[0]) == 3 and x[0][0] == "forall" and \
        isinstance(x[0][1], T) and el(x[0][1]) is e


def is_mark(k):
    """Whether a fact is a mark of a monitor.  (That there is nothing is no
    such mark: nothing that is done can undo it.)"""
    return isinstance(k, tuple) and k[0] == "m" and k[1:] != ("nothing",)


def join_facts(a, b):
    """Returns (joined, changed-with-respect-to-a)."""
    out = {}
    changed = False
    for k, v in a.items():
        w = b.get(k)
        if w is None:
            changed = True
            if isinstance(k, tuple) and k[0] == "forall":
                w = of_each(b, k)
                j = join_value(k, v, w) if w else None
                if j is not None:
                    out[k] = j
            continue
        if v is w or v == w:
            out[k] = v
            continue
        j = join_value(k, v, w)
        if j is None:
            changed = True
        else:
            out[k] = j
            if j != v:
                changed = True
    if not changed:
        return a, False
    for k, v in b.items():
        if isinstance(k, tuple) and k[0] == "forall" and k[2] and k not in a:
            w = of_each(a, k)
            j = join_value(k, w, v) if w else None
            if j is not None:
                out[k] = j
    return out, True


def of_each(facts, key):
    """What is known of the elements for which some conditions hold."""
    B, oc = key[1], key[2]
    r = set()
    for k, v in facts.items():
        if isinstance(k, tuple) and k[0] == "forall" and k[1] is B and k[2] <= oc:
            r |= v
    if r and oc:
        d = dict(oc)
        for k, v in r:
            w = d.get(k)
            if w is not None and w != v and (not isinstance(k, tuple) or k[0] in ("ord", "var") and not (w & v)):
                return frozenset([NOTHING])
    return frozenset(r)


def join_loops(a, b):
    if a is b or not b:
        return a, False
    changed = False
    out = a
    for L, recs in b.items():
        old = out.get(L)
        if old is None:
            if out is a:
                out = dict(a)
            out[L] = recs
            changed = True
            continue
        if old is recs:
            continue
        new = None
        for rk, conds in recs.items():
            oc = old.get(rk)
            if oc is None:
                nc = conds
            else:
                nc = join_conds(oc, conds)
                if nc == oc:
                    continue
            if new is None:
                new = dict(old)
            new[rk] = nc
        if new is not None:
            if out is a:
                out = dict(a)
            out[L] = new
            changed = True
    return out, changed


def join_conds(a, b):
    if a == b:
        return a
    da, db = dict(a), dict(b)
    j, _ = join_facts(da, db)
    return frozenset(j.items())


_mrefs = {}


def mref_roots(t):
    r = _mrefs.get(t)
    if r is None:
        s = set()
        for x in subterms(t):
            if x.op == "mref":
                s.add(x.a[0])
        r = frozenset(s)
        _mrefs[t] = r
    return r


def subst(x, m, memo=None):
    """Replace sub-terms according to m (dict T->T)."""
    if memo is None:
        memo = {}
    if isinstance(x, T):
        r = m.get(x)
        if r is not None:
            return r
        r = memo.get(x)
        if r is not None:
            return r
        ss = subterms(x)
        if m.keys().isdisjoint(ss):
            memo[x] = x
            return x
        r = remk(x.op, tuple(subst(y, m, memo) for y in x.a))
        memo[x] = r
        return r
    if isinstance(x, tuple):
        return tuple(subst(y, m, memo) for y in x) if x else x
    if isinstance(x, frozenset):
        return frozenset(subst(y, m, memo) for y in x)
    return x


def remk(op, a):
    if op == "fld":
        return proj(a[0], a[1], a[2], a[3])
    if op == "ordt":
        return mk_ord(a[1], a[2], a[0])
    if op == "not":
        return mk_not(a[0])
    if op == "disc":
        return mk("disc", *a)
    return mk(op, *a)


def norm_fact(k):
    """Facts on ordered pairs are stored under a canonical key."""
    if isinstance(k, tuple) and k[0] == "ord" and k[1].id > k[2].id:
        return ("ord", k[2], k[1]), True
    return k, False


def subst_fact(k, v, m, memo, e=None):
    k2 = subst(k, m, memo)
    v2 = subst(v, m, memo) if e is None else subst_keep_parts(v, m, e)
    k3, fl = norm_fact(k2)
    if fl:
        v2 = frozenset(FLIP[c] for c in v2)
    return k3, v2


# ---- terms with meaning --------------------------------------------------

def proj(v, path, variant, idx):
    op = v.op
    if op == "adt":
        if v.a[1] == variant or variant is None:
            return v.a[2 + idx] if 2 + idx < len(v.a) else mk("undef")
        return UNDEF
    if op == "tup" or op == "clo":
        n = idx if op == "tup" else idx + 1
        return v.a[n] if n < len(v.a) else UNDEF
    if op == "mref" or op == "undef":
        return v
    if op == "sum":
        for var, pay in v.a[2]:
            if variant is None or var == variant:
                return pay[idx] if idx < len(pay) else UNDEF
        return UNDEF
    return mk("fld", v, path, variant or 0, idx)


def mk_not(t):
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    if t.op == "not":
        return t.a[0]
    if t.op == "ordt":
        return mk_ord(t.a[1], t.a[2], "".join(sorted(ALLREL - set(t.a[0]))))
    return mk("not", t)


CONSTOPS = ("int", "str", "bool", "bytes", "unit")


def mk_ord(a, b, rel):
    """The truth of 'a R b' for a relation R given as a subset of '<=>'."""
    rel = "".join(sorted(rel))
    if a is b:
        return BOOL("=" in rel)
    if len(rel) == 3:
        return TRUE
    if not rel:
        return FALSE
    if a.op == b.op and a.op in ("int", "str", "bool"):
        x, y = a.a[0], b.a[0]
        r = "<" if x < y else ">" if x > y else "="
        return BOOL(r in rel)
    if rel in ("=", "<>"):
        e = struct_eq(a, b)
        if e is not None:
            return e if rel == "=" else mk_not(e)
    if a.id > b.id:
        a, b = b, a
        rel = "".join(sorted(FLIP[c] for c in rel))
    return mk("ordt", rel, a, b)


def mk_eq(a, b):
    return mk_ord(a, b, "=")


def struct_eq(a, b):
    if a.op == "adt" and b.op == "adt" and a.a[0] == b.a[0]:
        if a.a[1] != b.a[1]:
            return FALSE
        return mk_and([mk_eq(x, y) for x, y in zip(a.a[2:], b.a[2:])])
    if a.op == "tup" and b.op == "tup" and len(a.a) == len(b.a):
        return mk_and([mk_eq(x, y) for x, y in zip(a.a, b.a)])
    if b.op == "adt" and a.op != "adt":
        a, b = b, a
    if a.op == "adt" and b.op not in CONSTOPS and b.op != "adt":
        path, var = a.a[0], a.a[1]
        nv = ADTS.get(path)
        if nv is not None and nv["kind"] == "enum":
            fs = [mk_eq(x, proj(b, path, var, i)) for i, x in enumerate(a.a[2:])]
            return mk_and([mk_isvar(b, path, var)] + fs)
        if nv is not None and nv["kind"] == "struct" and len(a.a) > 2:
            fs = [mk_eq(x, proj(b, path, 0, i)) for i, x in enumerate(a.a[2:])]
            return mk_and(fs)
    return None


def mk_and(ts):
    out = []
    for t in ts:
        if t is FALSE:
            return FALSE
        if t is TRUE:
            continue
        if t.op == "and":
            out.extend(t.a)
        else:
            out.append(t)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk("and", *out)


def mk_or(ts):
    return mk_not(mk_and([mk_not(t) for t in ts]))


def mk_isvar(v, path, var):
    if v.op == "app" and v.a[0] == "cmp" and path == ORDERING:
        return mk_ord(v.a[1], v.a[2], "<=>"[var])
    if v.op == "adt":
        return BOOL(v.a[1] == var)
    return mk("isvar", v, path, var)


ADTS = {}


def nvariants(path):
    a = ADTS.get(path)
    return len(a["v"]) if a else None


# vectors

IDENT = None


def el(base):
    return mk("el", base)


def one(v):
    return mk("one", v)


def each(base, outs=None):
    if outs is None:
        outs = frozenset([(frozenset(), (el(base),))])
    return mk("each", base, outs)


def is_ident(part):
    return part.op == "each" and part.a[1] == frozenset([(frozenset(), (el(part.a[0]),))])


def vec(parts=(), attrs=frozenset()):
    return mk("vec", attrs, tuple(parts))


EMPTYVEC = vec()


def parts_of(t, eng=None):
    if t.op == "vec":
        return t.a[1]
    if t.op == "arr":
        return tuple(one(x) for x in t.a)
    return (each(t),)


def attrs_of(t, eng=None):
    if t.op == "vec":
        return t.a[0]
    if eng is not None:
        return eng.vec_attrs(t)
    return frozenset()


def tovec(t, eng=None):
    if t.op == "vec":
        return t
    if t.op == "arr":
        return vec(tuple(one(x) for x in t.a))
    return vec((each(t),), attrs_of(t, eng))


def cat(*parts):
    out = []
    for p in parts:
        if p.op == "cat":
            ps = p.a
        else:
            ps = (p,)
        for q in ps:
            if q.op == "str" and q.a[0] == "":
                continue
            if q.op == "str" and out and out[-1].op == "str":
                out[-1] = STR(out[-1].a[0] + q.a[0])
            else:
                out.append(q)
    if not out:
        return STR("")
    if len(out) == 1:
        return out[0]
    return mk("cat", *out)


GEN = re.compile(r"::<[^<>]*(?:<[^<>]*(?:<[^<>]*(?:<[^<>]*>[^<>]*)*>[^<>]*)*>[^<>]*)*>(?=::|$)")


def npath(p):
    """Callee path without generic arguments."""
    if p is None:
        return None
    r = _np.get(p)
    if r is None:
        r = GEN.sub(lambda m: m.group(0) if m.group(0).startswith("::<impl ") else "", p)
        _np[p] = r
    return r


_np = {}


RET = ("r", -9)
AGG = ("vec", "adt", "tup", "clo", "sum")


def mapt(fn, x):
    if isinstance(x, T):
        return fn(x)
    if isinstance(x, tuple):
        return tuple(mapt(fn, y) for y in x) if x else x
    return x


def symbols(x, out):
    """The symbols in a term which stand for one evaluation of something."""
    r = _symc.get(x)
    if r is None:
        r = frozenset(y for y in allsubs(x) if y.op in ("site", "phi"))
        _symc[x] = r
    out |= r
    return out


_symc = {}


class AU:
    """Anti-unification of the memories of two states."""

    def __init__(self, eng, a, b, tag):
        self.eng = eng
        self.tag = tag
        self.a, self.b = a, b
        self.pairs = {}
        self.done = {}
        self.used = set()
        self.order = []
        self.n = 0

    def fresh(self, a, b, pos):
        k = (a, b)
        p = self.pairs.get(k)
        if p is not None:
            return p
        p = None
        if a.op == "phi" and a.a[0] == self.tag and a not in self.used:
            p = a
        if p is None:
            n = 0
            p = mk("phi", self.tag, pos)
            while p in self.used:
                n += 1
                p = mk("phi", self.tag, pos + (n,))
        self.used.add(p)
        self.pairs[k] = p
        self.order.append((a, b, p))
        if p.op == "phi":
            d = self.eng.phidef.setdefault(p, set())
            d.add(a)
            d.add(b)
            d.discard(p)
            self.eng.phi_attrs(p, a, b)
        return p

    def go(self, a, b, pos):
        if a is b:
            return a
        p = self.pairs.get((a, b))
        if p is not None:
            return p
        # a position, or the length where it is known that there is none
        if a.op == "posidx" and self.eng.rel(self.b, a, b) == frozenset("="):
            return a
        if b.op == "posidx" and self.eng.rel(self.a, a, b) == frozenset("="):
            return b
        if a.op == "phi" and a.a[0] == self.tag:
            return self.fresh(a, b, pos)
        if a.op in ("adt", "sum") and b.op in ("adt", "sum") and a.a[0] == b.a[0] and (a.op == "sum" or b.op == "sum" or a.a[1] != b.a[1]):
            return self.sum(a, b, pos)
        if a.op == "adt" and nvariants(a.a[0]) == 1 and b.op in ("fld", "app", "arg", "el"):
            b = adt(a.a[0], a.a[1], *[proj(b, a.a[0], a.a[1], i) for i in range(len(a.a) - 2)])
        elif b.op == "adt" and nvariants(b.a[0]) == 1 and a.op in ("fld", "app", "arg", "el"):
            a = adt(b.a[0], b.a[1], *[proj(a, b.a[0], b.a[1], i) for i in range(len(b.a) - 2)])
        if a.op == b.op and len(a.a) == len(b.a) and a.a and a.op not in ("mref", "el", "wit", "open", "prev", "phi", "clo", "ordt", "isvar", "and"):
            if a.op == "vec":
                r = self.vec(a, b, pos)
                if r is not None:
                    return r
                return self.fresh(a, b, pos)
            if all((x is y or x == y) or (isinstance(x, T) and isinstance(y, T)) for x, y in zip(a.a, b.a)) and (a.op != "app" or a.a[0] == b.a[0]):
                r = self.done.get((a, b))
                if r is None:
                    r = self.done[(a, b)] = remk(a.op, tuple(x if x is y or x == y else self.go(x, y, pos + (i,)) for i, (x, y) in enumerate(zip(a.a, b.a))))
                return r
        return self.fresh(a, b, pos)

    def sum(self, a, b, pos):
        p = None
        if a.op == "sum" and a.a[1].a[0] == self.tag and a.a[1] not in self.used:
            p = a.a[1]
        if p is None:
            n = 0
            p = mk("phi", self.tag, pos)
            while p in self.used:
                n += 1
                p = mk("phi", self.tag, pos + (n,))
        self.used.add(p)
        ca = dict(a.a[2]) if a.op == "sum" else {a.a[1]: a.a[2:]}
        cb = dict(b.a[2]) if b.op == "sum" else {b.a[1]: b.a[2:]}
        cs = []
        for w in sorted(set(ca) | set(cb)):
            if w in ca and w in cb:
                cs.append((w, tuple(self.go(x, y, pos + (w, i)) for i, (x, y) in enumerate(zip(ca[w], cb[w])))))
            else:
                cs.append((w, ca.get(w, cb.get(w))))
        r = mk("sum", a.a[0], p, tuple(cs))
        self.pairs[(a, b)] = r
        self.order.append((a, b, r))
        return r

    def vec(self, a, b, pos):
        pa, pb = a.a[1], b.a[1]
        at = a.a[0] & b.a[0]
        if len(pa) == len(pb) and all(x.op == y.op for x, y in zip(pa, pb)):
            out = []
            for i, (x, y) in enumerate(zip(pa, pb)):
                if x is y:
                    out.append(x)
                elif x.op == "one":
                    out.append(one(self.go(x.a[0], y.a[0], pos + (i,))))
                elif x.op == "each":
                    ba = self.go(x.a[0], y.a[0], pos + (i,))
                    ma = {p: q for p, r, q in reversed(self.order) if p is not q}
                    mb = {r: q for p, r, q in reversed(self.order) if r is not q}
                    oa = dict((v, c) for c, v in subst(x.a[1], ma))
                    ob = dict((v, c) for c, v in subst(y.a[1], mb))
                    if oa.keys() != ob.keys():
                        # outcomes which only one side has
                        if not all(self.same_vals(v, oa, ob) for v in oa.keys() | ob.keys()):
                            return None
                    if ba is x.a[0] and ba is y.a[0]:
                        oa = self.with_all(oa, self.a, ba)
                        ob = self.with_all(ob, self.b, ba)
                    o = frozenset((join_conds(norm_conds(oa[v]), norm_conds(ob[v])) if v in oa and v in ob else norm_conds(oa.get(v) or ob.get(v) or frozenset()), v) for v in oa.keys() | ob.keys())
                    out.append(each(ba, o))
                else:
                    return None
            return vec(tuple(out), at)
        if not pa or not pb:
            # each element of the other one, or none
            ps = pa or pb
            if all(p.op == "each" for p in ps):
                out = []
                for p in ps:
                    o = dict((v, c) for c, v in p.a[1])
                    o[()] = frozenset()
                    out.append(each(p.a[0], frozenset((c, v) for v, c in o.items())))
                return vec(tuple(out), a.a[0] if pa else b.a[0])
        if pa and pb and not all(p.op in ("one", "many") for p in pa + pb):
            r = self.align(pa, pb)
            if r is not None:
                out = []
                for i, (x, y) in enumerate(r):
                    if x is None or y is None:
                        # which one side may not have
                        p = x or y
                        if p.op == "one":
                            f = self.present(p.a[0], (self.a, self.b)[x is None], (self.b, self.a)[x is None])
                            p = each(mk("opt", self.tag, pos + (i,), p.a[0]), frozenset(((frozenset(), ()), (f, (p.a[0],)))))
                        elif p.op == "each":
                            o = dict((v, c) for c, v in p.a[1])
                            f = (self.a if x is None else self.b).facts
                            if not all(NOTHING in f.get(("forall", p.a[0], c), ()) for v, c in o.items() if v):
                                o[()] = frozenset()
                            p = each(p.a[0], frozenset((c, v) for v, c in o.items()))
                        out.append(p)
                        continue
                    if "each" in (x.op, y.op) and x.op != y.op:
                        p, q, u, w = (x, y, self.a, self.b) if x.op == "one" else (y, x, self.b, self.a)
                        o = dict((v, c) for c, v in q.a[1])
                        o[(p.a[0],)] = join_conds(o[(p.a[0],)], self.present(p.a[0], u, None))
                        out.append(each(q.a[0], frozenset((c, v) for v, c in o.items())))
                        continue
                    if x.op != y.op or x.op == "many" and x is not y:
                        out.append(mk("many", frozenset(v for p in (x, y) for v in ([p.a[0]] if p.op == "one" else p.a[0]))))
                        continue
                    w = self.vec(mk("vec", frozenset(), (x,)), mk("vec", frozenset(), (y,)), pos + (i,))
                    if w is None:
                        return None
                    out.extend(w.a[1])
                return vec(tuple(out), at)
        if all(p.op in ("one", "many") for p in pa + pb):
            vals = frozenset(p.a[0] for p in pa + pb if p.op == "one") | frozenset(x for p in pa + pb if p.op == "many" for x in p.a[0])
            if len(vals) > 12:
                return None
            return vec((mk("many", vals),))
        return None

    def align(self, pa, pb):
        """Pairs the parts of two vectors, each of which has some which the
        other one has not."""
        out = []
        j = 0

        def fits(x, y):
            if x.op == "each":
                return y.op == "each" and x.a[0] is y.a[0] or y.op == "one" and fits(y, x)
            if y.op == "each" and x.op == "one" and y.a[0].op == "opt":
                return y.a[0].a[2] is x.a[0] and any(v == (x.a[0],) for c, v in y.a[1])
            return x.op in ("one", "many") and y.op in ("one", "many") or x is y
        for x in pa:
            for k in range(j, len(pb)):
                if fits(x, pb[k]):
                    break
            else:
                if x.op not in ("one", "each", "many"):
                    return None
                out.append((x, None))
                continue
            for y in pb[j:k]:
                if y.op not in ("one", "each", "many"):
                    return None
                out.append((None, y))
            out.append((x, pb[k]))
            j = k + 1
        for y in pb[j:]:
            if y.op not in ("one", "each", "many"):
                return None
            out.append((None, y))
        if len(out) > 6 or not any(x and y for x, y in out):
            return None
        return out

    def present(self, x, a, b):
        """What a state knows of the parts of a value which another one may
        not have."""
        ps = set()

        def go(v):
            for y in v.a:
                if isinstance(y, T) and y.op not in CONSTOPS:
                    ps.add(y)
                    if y.op in AGG:
                        go(y)
        go(x)
        return norm_conds(frozenset((k, v) for k, v in a.facts.items() if (b is None or b.facts.get(k) != v) and (
            not ps.isdisjoint(allsubs(k)) or isinstance(k, tuple) and k[0] == "forall" and not ps.isdisjoint(allsubs(v)))))

    def with_all(self, outs, st, base):
        """The outcomes with all that is known of these elements."""
        r = {}
        for vals, c in outs.items():
            f = of_each(st.facts, ("forall", base, c))
            if vals and NOTHING in f:
                continue
            have = {k for k, v in c}
            r[vals] = c | frozenset((k, v) for k, v in f if k not in have and (k, v) != NOTHING)
        return r

    def same_vals(self, v, oa, ob):
        return True

    def facts(self, facts, side):
        """Facts of one side, restated on the join symbols."""
        out = dict(facts)
        prs = [((a, b)[side], p) for a, b, p in self.order]
        prs = [(x, p) for x, p in prs if x is not p and x.op not in CONSTOPS]
        if not prs:
            self.consts(out, side, facts)
            return out
        # a symbol used again: what was known about it is no longer true
        stale = set()
        for a, b, p in self.order:
            x = (a, b)[side]
            if x is not p:
                if p.op == "sum":
                    out.pop(("var", p), None)
                    continue
                stale.add(p)
        if stale:
            for k in [k for k in out if not stale.isdisjoint(allsubs(k)) or not stale.isdisjoint(allsubs(out[k]))]:
                del out[k]
        base = dict(out)
        first = {}
        extra = []
        for x, p in prs:
            if x in first:
                extra.append((x, p))
            else:
                first[x] = p
        for m in [first] + [{x: p} for x, p in extra]:
            memo = {}
            ks = m.keys()
            for k, v in base.items():
                if not ks.isdisjoint(allsubs(k)) or not ks.isdisjoint(allsubs(v)):
                    k2, v2 = subst_fact(k, v, m, memo)
                    if k2 not in out:
                        out[k2] = v2
        for x, p in prs:
            if x.op == "vec" and p.op == "phi" and len(x.a[1]) == 1 and x.a[1][0].op == "each":
                # what holds of the elements which are in it
                part = x.a[1][0]
                e = el(part.a[0])
                ins = [c for c, vals in part.a[1] if vals]
                if ins and all(vals in ((), (e,)) for c, vals in part.a[1]):
                    c = ins[0]
                    for d in ins[1:]:
                        c = join_conds(c, d)
                    m = {e: el(p)}
                    c = frozenset(subst_fact(k, v, m, {}) for k, v in c)
                    g = ("forall", part.a[0], frozenset())
                    if g in facts:
                        c |= frozenset(subst_fact(k, v, m, {}) for k, v in facts[g])
                    k = ("forall", p, frozenset())
                    if c and k not in out:
                        out[k] = c
        self.consts(out, side, facts)
        return out

    def consts(self, out, side, orig):
        for a, b, p in self.order:
            x = (a, b)[side]
            if x.op == "int":
                n = x.a[0]
                out[("rng", p)] = (n, n)
            elif x.op == "app" and x.a[0] == "bin:Add":
                r = interval(orig, x)
                if r != (None, None):
                    out[("rng", p)] = r
            elif x.op == "bool":
                out[p] = x.a[0]
            elif x.op == "adt" and x is not p:
                out[("var", p)] = frozenset([x.a[1]])
            elif x.op == "sum" and x is not p and ("var", p) not in out:
                out[("var", p)] = frozenset(w for w, _ in x.a[2])


def norm_conds(c):
    return frozenset(norm_fact2(k, v) for k, v in c)


def norm_fact2(k, v):
    k2, fl = norm_fact(k)
    if fl:
        v = frozenset(FLIP[c] for c in v)
    return k2, v


def int_bits(t):
    if t.get("k") != "int":
        return None
    n = t["s"][1:]
    return 64 if n == "size" else int(n)


def mapget(m, k):
    while True:
        if m.op == "emptymap":
            return mk("adt", OPTION, 0)
        if m.op == "mapset":
            if m.a[1] is k:
                return mk("adt", OPTION, 1, m.a[2])
            if m.a[1].op == "str" and k.op == "str":
                m = m.a[0]
                continue
        if m.op == "mapdel" and m.a[1] is k:
            return mk("adt", OPTION, 0)
        return app("mapget", m, k)


def mapval(m, k):
    return proj(mapget(m, k), OPTION, 1, 0)


def mapset(m, k, v):
    while m.op == "mapset" and m.a[1] is k:
        m = m.a[0]
    return mk("mapset", m, k, v)


class Engine:
    def __init__(self, prog, monitor, opts=None):
        import models
        self.prog = prog
        self.psids = {}
        self.phidef = {}    # phi -> the terms it may stand for
        self.mon = monitor
        self.stored = getattr(monitor, "stored", None)
        self.inserted = getattr(monitor, "inserted", None)
        self.opts = opts or {}
        ADTS.clear()
        ADTS.update(prog.adts)
        self.frames = {}
        self.ctxkeys = {}
        self.pushlog = {}       # what is changed in which loop (by context)
        self.openvals = {}
        self.nframes = self.opts.get("frame0", 0)
        self.loopinfo = {}
        self.steps = 0
        self.max_steps = self.opts.get("max_steps", 400000)
        self.unknown = {}
        self.called = set()
        self.models = models
        self.pure_memo = {}
        self.effect_memo = {}
        self.closures = {}
        self.fns = {}
        self.sorted_syms = {}
        self.phiattrs = set()
        self.narrowed = set()
        self.savedattrs = {}
        self.posinfo = {}
        self.trace = self.opts.get("trace")
        self.keycap = self.opts.get("keycap", 16)
        self.headcap = self.opts.get("headcap", 1)
        self.shapecap = self.opts.get("shapecap", 1)
        self.shapedepth = self.opts.get("shapedepth", 1)
        self.skels = {}
        self.openmemo = {}
        self.callcount = 0
        self.merges = 0
        self.cur = None
        self.promos = {}
        self.phaseinfo = {}
        self.phaseattrs = {}
        self.phasesrc = {}
        models.install(self)

    # -- helpers -----------------------------------------------------------
    def frame(self, parent, bb, body):
        k = (parent.id if parent else -1, bb, body.key)
        f = self.frames.get(k)
        if f is None:
            f = Frame(self.nframes, parent, body, bb)
            self.nframes += 1
            self.frames[k] = f
            self.ctxkeys[f.id] = ((self.ctxkeys[parent.id] if parent else ()) + ((bb, body.key),))
            body.prep()
        return f

    def vec_attrs(self, t):
        r = self.sorted_syms.get(t)
        if r is None and t.op == "fld" and self.savedattrs:
            # read back as it is always saved
            r = self.savedattrs.get((t.a[1], t.a[2], t.a[3]))
            if r:
                b = t.a[0]
                while b.op in ("fld", "el"):
                    b = b.a[0]
                if not (b.op == "app" and b.a[0] == "fromjson"):
                    r = None
        return r or frozenset()

    def phi_name(self, p):
        """Its name, whatever the number of the first frame."""
        f0 = self.opts.get("frame0", 0)

        def go(x):
            if isinstance(x, tuple):
                return tuple(go(y) for y in x)
            return x - f0 if isinstance(x, int) and x >= f0 else x
        return go(p.a)

    def phi_attrs(self, p, a, b):
        """A join is in an order in which both sides are."""
        no = self.opts.get("nophiattrs", ())
        if no is True or (no and self.phi_name(p) in no):
            return
        r = None
        for x in (a, b):
            if x is p or (x.op == "vec" and not x.a[1]):
                continue
            y = attrs_of(x, self) if x.op in ("vec", "phi", "fld") else frozenset()
            r = y if r is None else r & y
        old = self.sorted_syms.get(p)
        if r is None:
            if old is not None:
                return
            r = frozenset()
        if old is not None and p in self.phiattrs:
            r &= old
            if r != old:
                self.narrowed.add(self.phi_name(p))
        self.phiattrs.add(p)
        self.sorted_syms[p] = r

    def site(self, fr, bb):
        return (fr.id, bb)

    # -- facts -------------------------------------------------------------
    def rel(self, st, a, b):
        """The relations possible between a and b according to the facts."""
        if a is b:
            return frozenset("=")
        if a.op == b.op and a.op in ("int", "str", "bool"):
            return frozenset("<" if a.a[0] < b.a[0] else ">" if a.a[0] > b.a[0] else "=")
        fl = a.id > b.id
        x, y = (b, a) if fl else (a, b)
        r = st.facts.get(("ord", x, y), ALLREL)
        if fl:
            r = frozenset(FLIP[c] for c in r)
        for s, c, f in ((a, b, False), (b, a, True)):
            if c.op == "int":
                rg = interval(st.facts, s)
                if rg != (None, None):
                    lo, hi = rg
                    q = set()
                    n = c.a[0]
                    if lo is None or lo < n:
                        q.add("<")
                    if (lo is None or lo <= n) and (hi is None or hi >= n):
                        q.add("=")
                    if hi is None or hi > n:
                        q.add(">")
                    if f:
                        q = {FLIP[x] for x in q}
                    r = r & q
            if c.op in ("int", "str"):
                k = st.facts.get(("const", s))
                if k is not None:
                    x0, y0 = k.a[0], c.a[0]
                    o = "<" if x0 < y0 else ">" if x0 > y0 else "="
                    if f:
                        o = FLIP[o]
                    r = r & frozenset(o)
        return r

    def variants(self, st, v, path):
        if v.op == "adt":
            return frozenset([v.a[1]])
        f = st.facts.get(("var", v))
        if v.op == "sum":
            c = frozenset(x for x, _ in v.a[2])
            return c if f is None else f & c
        n = nvariants(path)
        if f is not None:
            return f
        return frozenset(range(n)) if n else None

    def known(self, st, t):
        """True / False / None"""
        if t is TRUE:
            return True
        if t is FALSE:
            return False
        op = t.op
        if op == "not":
            k = self.known(st, t.a[0])
            return None if k is None else not k
        if op == "ordt":
            r = self.rel(st, t.a[1], t.a[2])
            rs = frozenset(t.a[0])
            if r <= rs:
                return True
            if not (r & rs):
                return False
            return None
        if op == "and":
            allk = True
            for x in t.a:
                k = self.known(st, x)
                if k is False:
                    return False
                if k is None:
                    allk = False
            if allk:
                return True
            return st.facts.get(t)
        if op == "isvar":
            vs = self.variants(st, t.a[0], t.a[1])
            if vs is not None:
                if vs == frozenset([t.a[2]]):
                    return True
                if t.a[2] not in vs:
                    return False
            return None
        return st.facts.get(t)

    def assume(self, st, t, val):
        """States in which t has the given truth value (st may be reused)."""
        k = self.known(st, t)
        if k is not None:
            if k != val:
                return []
            if self.mon.on_known is not None:
                self.tested(st, t, val)
            return [st]
        op = t.op
        if op == "not":
            return self.assume(st, t.a[0], not val)
        if op == "and":
            if val:
                sts = [st]
                for x in t.a:
                    nx = []
                    for s in sts:
                        nx.extend(self.assume(s, x, True))
                    sts = nx
                return sts
            out = []
            cur = [st]
            for x in t.a:
                nxt = []
                for s in cur:
                    out.extend(self.assume(s.copy(), x, False))
                    nxt.extend(self.assume(s, x, True))
                cur = nxt
            return out
        if op == "ordt":
            rs = frozenset(t.a[0])
            if not val:
                rs = ALLREL - rs
            r = self.rel(st, t.a[1], t.a[2]) & rs
            if not r:
                return []
            self.set_fact(st, ("ord", t.a[1], t.a[2]), r)
            for s, c, f in ((t.a[1], t.a[2], False), (t.a[2], t.a[1], True)):
                rr = frozenset(FLIP[x] for x in r) if f else r
                if c.op in ("int", "str") and rr == frozenset("="):
                    st.facts[("const", s)] = c
                if c.op == "int":
                    n = c.a[0]
                    lo, hi = st.facts.get(("rng", s), (None, None))
                    if ">" not in rr:
                        m = n if "=" in rr else n - 1
                        hi = m if hi is None else min(hi, m)
                    if "<" not in rr:
                        m = n if "=" in rr else n + 1
                        lo = m if lo is None else max(lo, m)
                    if lo is not None or hi is not None:
                        if lo is not None and hi is not None and lo > hi:
                            return []
                        st.facts[("rng", s)] = (lo, hi)
            return [st] if self.fact_hook(st, ("ord", t.a[1], t.a[2]), r) else []
        if op == "isvar":
            v, path, i = t.a
            vs = self.variants(st, v, path)
            if vs is None:
                self.set_fact(st, t, val)
                return [st]
            vs = vs & {i} if val else vs - {i}
            if not vs:
                return []
            self.set_fact(st, ("var", v), vs)
            return [st] if self.fact_hook(st, ("var", v), vs) else []
        self.set_fact(st, t, val)
        return [st] if self.fact_hook(st, t, val) else []

    def assume_one(self, st, t, val):
        r = self.assume(st, t, val)
        return r[0] if r else None

    def set_fact(self, st, k, v):
        st.facts[k] = v
        if isinstance(k, T):
            if k.op == "phi":
                self.uncond(st, k, v)
        elif k[0] == "var" and k[1].op in ("sum", "phi"):
            self.uncond(st, k[1], v)
        # universal facts on the element being visited
        for L, p, base, oconds, status in st.its:
            if status == "in" and about(k, v, el(base)):
                self.instantiate(st, base)
                break

    def fact_hook(self, st, k, v):
        h = self.mon.on_fact
        if h is not None:
            return h(self, st, k, v) is not False
        return True

    def tested(self, st, t, val):
        """A condition was tested whose outcome was known already."""
        while t.op == "not":
            t, val = t.a[0], not val
        if t.op == "ordt":
            self.mon.on_known(self, st, ("ord", t.a[1], t.a[2]), frozenset(t.a[0]) if val else ALLREL - frozenset(t.a[0]))

    def must(self, st, *k):
        st.facts[("m",) + k] = True

    def has(self, st, *k):
        return st.facts.get(("m",) + k) is True

    def instantiate(self, st, base):
        todo = []
        for k, v in st.facts.items():
            if isinstance(k, tuple) and k[0] == "forall" and k[1] is base:
                if all(self.holds(st, c[0], c[1]) for c in k[2]):
                    todo.append(v)
        for v in todo:
            for fk, fv in v:
                if fk not in st.facts:
                    st.facts[fk] = fv
                elif isinstance(fk, tuple) and fk[0] in ("ord", "var"):
                    st.facts[fk] = st.facts[fk] & fv

    def holds(self, st, k, v):
        w = st.facts.get(k)
        if w is None:
            return False
        if w == v:
            return True
        if isinstance(k, tuple) and k[0] in ("ord", "var"):
            return w <= v
        if isinstance(k, tuple) and k[0] in ("forall", "cond"):
            return v <= w
        return False

    def add_conds(self, st, conds):
        """Assume recorded facts; False if contradictory."""
        for k, v in conds:
            w = st.facts.get(k)
            if w is None:
                st.facts[k] = v
            elif w != v:
                if isinstance(k, tuple) and k[0] in ("ord", "var"):
                    r = w & v
                    if not r:
                        return False
                    st.facts[k] = r
                elif isinstance(k, tuple) and k[0] == "forall":
                    st.facts[k] = w | frozenset(x for x in v if not is_mark(x[0]))
                elif isinstance(k, T):
                    return False
        return True

    def rename(self, st, m):
        """Substitute terms everywhere in the state."""
        ks = m.keys()
        memo = {}
        for r, v in list(st.mem.items()):
            ss = subterms(v)
            if not ks.isdisjoint(ss):
                st.mem[r] = subst(v, m, memo)
        nf = {}
        ch = False
        for k, v in st.facts.items():
            if not ks.isdisjoint(allsubs(k)) or not ks.isdisjoint(allsubs(v)):
                k2, v2 = subst_fact(k, v, m, memo)
                ch = True
                if k2 not in nf:
                    nf[k2] = v2
            else:
                nf[k] = v
        if ch:
            st.facts = nf
        if hasattr(self.mon, "rename"):
            st.ps = self.mon.rename(st.ps, m)

    def forget(self, st, t):
        """A symbol is about to be produced again: forget its former value."""
        used = any(t in subterms(v) for v in st.mem.values())
        if used:
            old = mk("prev", t if t.op != "prev" else t.a[0])
            # facts about the former value are dropped
            self.drop_facts(st, t)
            self.drop_facts(st, old)
            memo = {}
            for r, v in list(st.mem.items()):
                if t in subterms(v):
                    st.mem[r] = subst(v, {t: old}, memo)
        else:
            self.drop_facts(st, t)

    def drop_facts(self, st, t):
        kill = [k for k, v in st.facts.items() if about(k, v, t)]
        for k in kill:
            del st.facts[k]

    # -- memory --------------------------------------------------------------
    def load(self, st, root, path):
        v = st.mem.get(root, UNDEF)
        for e in path:
            if e[0] == "f":
                v = proj(v, e[1], e[2], e[3])
            elif e[0] == "k":
                v = mapval(v, e[1])
            elif e[0] == "i":
                v = self.index(v, e[1])
        return v

    def index(self, v, i):
        if v.op in ("vec", "arr"):
            ps = parts_of(v)
            if i.op == "int" and all(p.op == "one" for p in ps) and 0 <= i.a[0] < len(ps):
                return ps[i.a[0]].a[0]
        if i.op == "app" and i.a[0] == "index" and (i.a[1] is v or self.bare(i.a[1]) == self.bare(v)):
            return i.a[2]
        return mk("idx", v, i)

    def bare(self, v):
        """What a vector is made of."""
        if v.op in ("vec", "arr"):
            return tuple(p for p in parts_of(v) if p.op != "open")
        return (each(v),)

    def upd(self, old, path, n, val):
        if n == len(path):
            return val
        e = path[n]
        if e[0] == "f":
            _, ap, var, idx, arity = e
            if old.op == "adt" and old.a[1] == (var or 0):
                if 2 + idx >= len(old.a):
                    return mk("upd", old, e[1:4], val)
                fs = list(old.a[2:])
                fs[idx] = self.upd(fs[idx], path, n + 1, val)
                return mk("adt", old.a[0], old.a[1], *fs)
            if old.op == "sum":
                cs = []
                for v0, pay in old.a[2]:
                    if v0 == (var or 0) and idx < len(pay):
                        pay = pay[:idx] + (self.upd(pay[idx], path, n + 1, val),) + pay[idx + 1:]
                    cs.append((v0, pay))
                return mk("sum", old.a[0], old.a[1], tuple(cs))
            if old.op == "tup":
                fs = list(old.a)
                while len(fs) <= idx:
                    fs.append(UNDEF)
                fs[idx] = self.upd(fs[idx], path, n + 1, val)
                return mk("tup", *fs)
            if old.op == "clo":
                fs = list(old.a)
                fs[idx + 1] = self.upd(fs[idx + 1], path, n + 1, val)
                return mk("clo", *fs)
            if ap == "()":
                fs = [proj(old, ap, 0, i) if old is not UNDEF else UNDEF for i in range(max(arity or 0, idx + 1))]
                fs[idx] = self.upd(fs[idx], path, n + 1, val)
                return mk("tup", *fs)
            a = ADTS.get(ap)
            if a is not None:
                nf = len(a["v"][var or 0]["f"])
                if old.op == "adt" or old is UNDEF:
                    fs = [UNDEF] * nf
                else:
                    fs = [proj(old, ap, var or 0, i) for i in range(nf)]
                fs[idx] = self.upd(fs[idx], path, n + 1, val)
                return mk("adt", ap, var or 0, *fs)
            return mk("upd", old, e[1:4], val)
        if e[0] == "k":
            return mapset(old, e[1], self.upd(mapval(old, e[1]), path, n + 1, val))
        if e[0] == "i":
            if old.op in ("vec", "arr"):
                ps = list(parts_of(old))
                if e[1].op == "int" and all(p.op == "one" for p in ps) and 0 <= e[1].a[0] < len(ps):
                    i = e[1].a[0]
                    ps[i] = one(self.upd(ps[i].a[0], path, n + 1, val))
                    return vec(ps)
            inner = self.upd(mk("idx", old, e[1]), path, n + 1, val)
            return mk("idxset", old, e[1], inner)
        raise Unsupported("path " + str(e))

    def store(self, st, root, path, val):
        if not path or root[0] == "hp":
            st.mem[root] = val
        else:
            if self.stored is not None:
                self.stored(self, st, root, path, val)
            st.mem[root] = self.upd(st.mem.get(root, UNDEF), path, 0, val)

    # resolves a place to (root, path); derefs of mutable references followed
    def resolve(self, st, fr, pl):
        body = fr.body
        tys = body.tys
        root, path = ("l", fr.id, pl[0]), ()
        ty = body.locals[pl[0]][0]
        var = None
        for e in pl[1:]:
            k = e[0]
            if k == "*":
                v = self.load(st, root, path)
                t = tys[ty] if ty is not None else None
                inner = t["t"] if t and "t" in t else None
                if e[1] == "s" and inner is not None and t["k"] == "ref" and tys[inner]["k"] == "refm":
                    pass
                elif v.op == "mref":
                    root, path = v.a[0], v.a[1]
                elif e[1] == "b":
                    pass
                ty = inner if not (t and t["k"] == "adt") else (t["a"][0] if t.get("a") and isinstance(t["a"][0], int) else None)
                var = None
            elif k == ".":
                t = tys[ty] if ty is not None else None
                ap, ar = None, None
                if t is not None:
                    if t["k"] == "adt":
                        ap = t["n"]
                    elif t["k"] == "tuple":
                        ap = "()"
                        ar = len(t.get("f") or t.get("a") or ())
                    elif t["k"] == "closure":
                        ap = "{closure}"
                cur = self.load(st, root, path)
                if cur.op == "mref" and (ap or "").startswith("alloc::boxed"):
                    pass
                elif root[0] == "hp":
                    pass
                else:
                    path = path + (("f", ap, var, e[1], ar),)
                ty = e[2]
                var = None
            elif k == "v":
                var = e[1]
            elif k == "[]":
                i = st.mem.get(("l", fr.id, e[1]), UNDEF)
                path = path + (("i", i),)
                ty = self.elem_ty(tys, ty)
                var = None
            elif k == "[c]":
                path = path + (("i", INT(e[1]) if not (len(e) > 2 and e[2]) else mk("fromend", INT(e[1]))),)
                ty = self.elem_ty(tys, ty)
                var = None
            else:
                path = path + (("i", mk("sub", *[INT(x) for x in e[1:] if isinstance(x, int)])),)
                var = None
        return root, path, ty, var

    def elem_ty(self, tys, ty):
        if ty is None:
            return None
        t = tys[ty]
        return t.get("t")

    def read(self, st, fr, pl):
        if len(pl) == 1:
            return st.mem.get(("l", fr.id, pl[0]), UNDEF)
        root, path, ty, var = self.resolve(st, fr, pl)
        v = self.load(st, root, path)
        return v

    def operand(self, st, fr, o):
        k = o[0]
        if k == "k":
            return self.const(st, fr, o[1])
        return self.read(st, fr, o[1])

    def const(self, st, fr, c):
        if "promoted" in c:
            return self.promoted(st, fr, c["promoted"])
        if "bool" in c:
            return BOOL(c["bool"])
        if "int" in c:
            return INT(c["int"])
        if "str" in c:
            return STR(c["str"])
        if "unit" in c:
            return UNIT
        if "bytes" in c:
            return mk("bytes", bytes(c["bytes"]))
        if "fn" in c:
            return self.fnval(c["fn"])
        if "adt" in c:
            if "def" in c and ADTS.get(c["adt"], {}).get("local") is not True and c["adt"] not in (OPTION, RESULT, ORDERING):
                return mk("const", c["def"])
            return mk("adt", c["adt"], c["variant"], *[self.const(st, fr, f) for f in c["fields"]])
        if "closure" in c:
            return mk("clo", c["closure"])
        if "def" in c:
            return mk("const", c["def"])
        t = fr.body.tys[c["ty"]]
        if t["k"] == "fndef":
            return mk("const", t.get("s", "?"))
        return mk("const", t.get("s", "?"))

    def fnval(self, f):
        k = f.get("key") or f.get("rpath") or f.get("path")
        self.fns[k] = f
        return mk("fn", k)

    def promoted(self, st, fr, i):
        b = fr.body
        k = (b.key, i)
        r = self.promos.get(k)
        if r is None:
            from ir import Body
            d = dict(b.promoted[i])
            d.setdefault("path", b.path + "::promoted")
            pb = Body("promoted:%s:%d" % (b.key, i), d, b.crate)
            f2 = self.frame(None, -2 - i, pb)
            ex = self.run(f2, State())
            r = ex[0][1] if ex else UNDEF
            self.promos[k] = r
        return r

    def rvalue(self, st, fr, rv, dstty):
        k = rv[0]
        if k == "use":
            return self.operand(st, fr, rv[1])
        if k == "ref" or k == "reborrow":
            kind = rv[1]
            if kind == "m":
                root, path, ty, var = self.resolve(st, fr, rv[2])
                return mk("mref", root, path)
            return self.read(st, fr, rv[2])
        if k == "agg":
            _, kind, path, variant, ops = rv
            vs = [self.operand(st, fr, o) for o in ops]
            if kind == "adt":
                return mk("adt", path, variant or 0, *vs)
            if kind == "tuple":
                return mk("tup", *vs) if vs else UNIT
            if kind == "array":
                return vec(tuple(one(v) for v in vs))
            if kind == "closure":
                return mk("clo", path, *vs)
            return app("agg:" + str(kind), *vs)
        if k == "disc":
            root, path, ty, var = self.resolve(st, fr, rv[1])
            v = self.load(st, root, path)
            return self.disc(v, fr.body.tys[ty] if ty is not None else None)
        if k == "cast":
            v = self.operand(st, fr, rv[2])
            if rv[1] == "IntToInt" and rv[2][0] != "k" and v.op not in CONSTOPS and len(rv) > 3:
                ty = self.resolve(st, fr, rv[2][1])[2]
                a, b = (int_bits(fr.body.tys[t]) if t is not None else None for t in (ty, rv[3]))
                if a and b and b < a:
                    # a number that may not fit
                    return app("trunc:%d" % b, v)
            if v.op in CONSTOPS or rv[1].startswith(("Ptr", "Pointer", "Transmute", "BoxDeref", "IntToInt")):
                return v
            return app("cast:" + rv[1], v)
        if k == "bin":
            return self.binop(st, rv[1], self.operand(st, fr, rv[2]), self.operand(st, fr, rv[3]))
        if k == "un":
            v = self.operand(st, fr, rv[2])
            if rv[1] == "Not":
                if v.op == "int":
                    return app("bitnot", v)
                return mk_not(v)
            if rv[1] == "PtrMetadata":
                return self.length(v)
            return app("un:" + rv[1], v)
        if k == "repeat":
            return app("repeat", *[self.operand(st, fr, x) for x in rv[1:] if isinstance(x, list) and x and x[0] in ("cp", "mv", "k")])
        return app("rv:" + str(k), *[self.operand(st, fr, x) for x in rv[1:] if isinstance(x, list) and x and x[0] in ("cp", "mv", "k")])

    def length(self, v):
        if v.op in ("vec", "arr"):
            ps = parts_of(v)
            if all(p.op == "one" for p in ps):
                return INT(len(ps))
        if v.op == "str":
            return INT(len(v.a[0].encode()))
        if v.op == "bytes":
            return INT(len(v.a[0]))
        return app("len", v)

    def disc(self, v, ty):
        ap = ty["n"] if ty and ty["k"] == "adt" else None
        if v.op == "adt":
            a = ADTS.get(v.a[0])
            if a:
                d = a["v"][v.a[1]].get("d")
                return INT(v.a[1] if d is None else d)
            return INT(v.a[1])
        return mk("disc", v, ap)

    def binop(self, st, op, a, b):
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            rel = {"Eq": "=", "Ne": "<>", "Lt": "<", "Le": "<=", "Gt": ">", "Ge": "=>"}[op]
            return mk_ord(a, b, rel)
        if op in ("BitAnd", "BitOr") and (a.op in ("bool", "ordt", "not", "and", "isvar") or b.op in ("bool", "ordt", "not", "and", "isvar")):
            return mk_and([a, b]) if op == "BitAnd" else mk_or([a, b])
        ov = op.endswith("WithOverflow")
        o = op.replace("WithOverflow", "").replace("Unchecked", "")
        if a.op == "int" and b.op == "int":
            x, y = a.a[0], b.a[0]
            r = None
            if o == "Add":
                r = x + y
            elif o == "Sub":
                r = x - y
            elif o == "Mul":
                r = x * y
            elif o == "Rem" and y:
                r = x % y
            elif o == "Div" and y:
                r = x // y
            elif o == "BitAnd":
                r = x & y
            elif o == "BitOr":
                r = x | y
            if r is not None:
                v = INT(r)
                return mk("tup", v, FALSE) if ov else v
        v = app("bin:" + o, a, b)
        return mk("tup", v, FALSE) if ov else v

    # -- statements ----------------------------------------------------------
    def assign(self, st, fr, pl, val):
        if len(pl) == 1:
            st.mem[("l", fr.id, pl[0])] = val
            return
        root, path, ty, var = self.resolve(st, fr, pl)
        self.store(st, root, path, val)

    def statement(self, st, fr, s):
        if s[0] == "=":
            val = self.rvalue(st, fr, s[2], None)
            self.assign(st, fr, s[1], val)
        elif s[0] == "setd":
            root, path, ty, var = self.resolve(st, fr, s[1])
            v = self.load(st, root, path)
            if v.op == "adt":
                self.store(st, root, path, mk("adt", v.a[0], s[2], *v.a[2:]))
            elif v.op == "sum":
                pay = dict(v.a[2]).get(s[2], ())
                self.store(st, root, path, mk("adt", v.a[0], s[2], *pay))
            elif ty is not None and fr.body.tys[ty]["k"] == "adt":
                self.store(st, root, path, mk("adt", fr.body.tys[ty]["n"], s[2]))
        elif s[0] == "dead":
            pass

    # -- running a body --------------------------------------------------------
    def gc(self, st, fr, live):
        """Drop the locals of this frame which are dead."""
        mem = st.mem
        fid = fr.id
        dead = [r for r in mem if (r[1] == fid and r[0] == "l" and r[2] not in live)]
        if not dead:
            self.gc_heap(st)
            return
        dset = set(dead)
        bor = fr.body.borrowed
        # borrowed locals stay while something reachable refers to them
        cand = {r for r in dead if r[2] in bor}
        if cand:
            keep = set()
            work = [r for r in mem if r not in dset]
            seen = set(work)
            while work:
                r = work.pop()
                v = mem.get(r)
                if v is None:
                    continue
                for q in mref_roots(v):
                    if q not in seen:
                        seen.add(q)
                        keep.add(q)
                        work.append(q)
            for r in dead:
                if r not in keep:
                    del mem[r]
        else:
            for r in dead:
                del mem[r]
        self.gc_heap(st)

    def gc_heap(self, st):
        hs = [r for r in st.mem if r[0] in ("hp", "t")]
        if not hs:
            return
        used = set()
        work = [r for r in st.mem if r[0] == "l"]
        seen = set(work)
        while work:
            r = work.pop()
            v = st.mem.get(r)
            if v is None:
                continue
            for q in mref_roots(v):
                if q not in seen:
                    seen.add(q)
                    work.append(q)
        for r in hs:
            if r not in seen:
                del st.mem[r]

    def run(self, fr, st):
        """Analyse a body from one entry state; returns [(state, value)]."""
        body = fr.body.prep()
        order = body.order
        tables = {}
        heap = []
        exits = {}
        exgroups = {}
        pend = {}
        self.callcount += 1

        groups = {}

        def push(bi, s):
            s2 = s
            self.gc(s2, fr, body.live_in[bi])
            tab = tables.setdefault(bi, {})
            grp = groups.setdefault(bi, {})
            k = self.insert(tab, grp, s2, None, (fr.id, bi), bi in body.heads)
            if k is None:
                return
            if k not in pend.setdefault(bi, set()):
                pend[bi].add(k)
                heapq.heappush(heap, (order[bi], bi))

        push(0, st)
        while heap:
            _, bi = heapq.heappop(heap)
            ks = pend.get(bi)
            if not ks:
                continue
            ks = list(ks)
            pend[bi].clear()
            for k in ks:
                s = tables[bi].get(k)
                if s is None:
                    continue
                self.steps += 1
                if self.steps > self.max_steps:
                    raise Budget("analysis budget exceeded in " + fr.body.path)
                s = s.copy()
                sts = self.close_loops(s, fr, bi)
                for s in sts:
                    for (tb, s2) in self.block(s, fr, bi):
                        if tb == "ret":
                            self.exit(exits, exgroups, fr, s2)
                        else:
                            push(tb, s2)
        out = []
        for s in exits.values():
            ret = s.mem.pop(RET)
            out.append((s, ret))
        return out

    def insert(self, tab, grp, s2, what, tag, head):
        """Adds a state to a table; returns its key if anything is new."""
        while True:
            k = s2.key()
            old = tab.get(k)
            if old is not None:
                f, c1 = join_facts(old.facts, s2.facts)
                l, c2 = join_loops(old.loops, s2.loops)
                if not (c1 or c2):
                    return None
                tab[k] = State(old.mem, f, old.ps, old.its, l)
                return k
            gk = (s2.ps, s2.its, self.shape(s2, what, tag[0]))
            g = grp.setdefault(gk, [])
            cap = 1 if what == "exit" else self.headcap if head else self.shapecap
            mate = None
            if len(g) >= cap:
                mate = self.nearest(tab, g, s2)
            else:
                ks = [x for x in tab if x[1] == s2.ps and x[2] == s2.its]
                if len(ks) >= self.keycap:
                    mate = self.nearest(tab, ks, s2)
                elif len(tab) > 600:
                    raise Budget("too many states")
            if mate is None:
                tab[k] = s2
                g.append(k)
                return k
            self.merges += 1
            o = tab[mate]
            s3 = self.merge(o, s2, tag)
            k3 = s3.key()
            if k3 == mate:
                f, c1 = join_facts(o.facts, s3.facts)
                l, c2 = join_loops(o.loops, s3.loops)
                if not (c1 or c2):
                    return None
                tab[mate] = State(o.mem, f, o.ps, o.its, l)
                return mate
            # the merged state replaces the one it covers
            del tab[mate]
            for x in grp.values():
                if mate in x:
                    x.remove(mate)
            s2 = s3

    def nearest(self, tab, ks, st):
        best = None
        for k in ks:
            o = tab[k]
            d = 0
            for r, v in st.mem.items():
                if o.mem.get(r) is not v:
                    d += 1
            d += 3 * len(set(o.mem) ^ set(st.mem))
            d += len(o.facts.keys() ^ st.facts.keys()) / 100.0
            if best is None or d < best[0]:
                best = (d, k)
        return best[1]

    def shape(self, st, what, fid):
        h = getattr(self.mon, "shape", None)
        if h is not None:
            # what a rule wants to keep apart
            return (h(self, st), self.shape0(st, what, fid))
        return self.shape0(st, what, fid)

    def shape0(self, st, what, fid):
        if what == "exit":
            return tuple((r, self.skel(st.mem[r], 4 if r is RET else 1)) for r in sorted(st.mem, key=str) if r is RET or st.mem[r].op in ("adt", "bool", "mref"))
        return tuple((r, self.skel(st.mem[r], self.shapedepth if r[1] == fid else 0)) for r in sorted(st.mem, key=str)
                     if r[1] == fid or self.anyopen(st.mem[r]))

    def anyopen(self, v):
        r = self.openmemo.get(v)
        if r is None:
            r = v.op in AGG and any(x.op == "open" for x in subterms(v))
            self.openmemo[v] = r
        return r

    def skel(self, v, d):
        op = v.op
        if op in ("bool", "mref", "fn", "undef"):
            return v
        if d == 0 and not self.anyopen(v):
            return "?"
        s = self.skels.get((v, d))
        if s is None:
            if op == "adt":
                d2 = d if v.a[0] in (OPTION, RESULT, CONTROL) else max(0, d - 1)
                s = (v.a[0], v.a[1]) + tuple(self.skel(x, d2) for x in v.a[2:])
            elif op == "tup":
                s = ("()",) + tuple(self.skel(x, d) for x in v.a)
            elif op == "clo":
                s = (v.a[0],) + tuple(self.skel(x, max(0, d - 1)) for x in v.a[1:])
            elif op in ("ordt", "not", "and", "isvar"):
                s = "b?"
            elif op == "vec":
                s = tuple(q.op if q.op != "open" else q.a[0] for q in v.a[1]) if self.anyopen(v) else ("vec",) if v.a[1] else ("vec0",)
            else:
                s = "?"
            self.skels[(v, d)] = s
        return s

    def merge(self, a, b, tag):
        """The join of two states of the same typestate: terms in which they
        differ become one join symbol each, and what both states know about
        the two terms is known about the symbol."""
        if self.opts.get("psphi"):
            # joins of different typestates are told apart
            tag = tag + (self.psids.setdefault(a.ps, len(self.psids)),)
        phis = set()
        for r, v in a.mem.items():
            for x in subterms(v):
                if x.op == "phi" and x.a[0] == tag:
                    phis.add(x)
        if phis:
            # b's use of the same symbols stands for their former value
            b = b.copy()
            moved = []
            for r, v in b.mem.items():
                if a.mem.get(r) is not v:
                    for x in subterms(v):
                        if x in phis and x not in moved:
                            moved.append(x)
            for x in moved:
                self.forget(b, x)
        au = AU(self, a, b, tag)
        mem = {}
        for r in a.mem:
            if r in b.mem:
                mem[r] = au.go(a.mem[r], b.mem[r], r)
            else:
                # the other state never gave this place a value
                mem[r] = a.mem[r] if r[0] != "l" else au.go(a.mem[r], UNDEF, r)
        for r in b.mem:
            if r not in a.mem:
                mem[r] = b.mem[r] if r[0] != "l" else au.go(UNDEF, b.mem[r], r)
        fa = au.facts(a.facts, 0)
        fb = au.facts(b.facts, 1)
        for x, y, p in au.order:
            if p.op == "phi":
                # nothing at all: everything holds of its elements
                for v, f, g in ((x, fa, fb), (y, fb, fa)):
                    if v.op == "vec" and not v.a[1]:
                        for k in [k for k in g if isinstance(k, tuple) and k[0] == "forall" and k[1] is p and k not in f]:
                            f[k] = g[k]
        f, _ = join_facts(fa, fb)
        f = dict(f)
        # what one side knows about symbols which do not exist on the other
        for x, y, o in ((fa, fb, b), (fb, fa, a)):
            extra = [k for k in x if k not in f and k not in y]
            if not extra:
                continue
            syms = set()
            for v in o.mem.values():
                symbols(v, syms)
            for k, v in o.facts.items():
                symbols(k, syms)
                if isinstance(v, (frozenset, tuple)):
                    symbols(v, syms)
            news = au.used
            for k in extra:
                ks = symbols(k, set())
                if ks and any(q not in syms and q not in news for q in ks):
                    f[k] = x[k]
        self.correlate(au, fa, fb, f)
        l, _ = join_loops(a.loops, b.loops)
        return State(mem, f, a.ps, a.its, l)

    def correlate(self, au, fa, fb, f):
        """Marks which come with one variant of a joined value: known again
        once the variant is."""
        seen = set()
        for _, _, p in au.order:
            if p in seen:
                continue
            seen.add(p)
            k = ("var", p) if p.op == "sum" or ("var", p) in fa else p
            wa, wb = fa.get(k), fb.get(k)
            for x, y, w, o in ((fa, fb, wa, wb), (fb, fa, wb, wa)):
                for ck, cv in [(ck, cv) for ck, cv in x.items() if isinstance(ck, tuple) and ck[0] == "cond" and ck[1] is p]:
                    if ck in f:
                        continue
                    if not self.apart(ck[2], o):
                        cv = frozenset(m for m in cv if y.get(m) is True)
                    if cv:
                        f[ck] = cv
            if wa is None or wb is None or not self.apart(wa, wb):
                continue
            for x, y, w, o in ((fa, fb, wa, wb), (fb, fa, wb, wa)):
                ck = ("cond", p, w)
                if any(isinstance(c, tuple) and c[0] == "cond" and c[1] is p and not self.apart(c[2], w) for c in list(x) + list(y)):
                    continue
                cv = frozenset(m for m in x if is_mark(m) and x[m] is True and f.get(m) is not True)
                if cv:
                    f[ck] = cv

    def apart(self, w, o):
        if o is None:
            return False
        if isinstance(w, bool) or isinstance(o, bool):
            return w is not o
        return not (w & o)

    def uncond(self, st, p, w):
        """The variant of a joined value is known: so is what came with it."""
        for k, v in list(st.facts.items()):
            if isinstance(k, tuple) and k[0] == "cond" and k[1] is p:
                if (w is k[2]) if isinstance(w, bool) else (not isinstance(k[2], bool) and w <= k[2]):
                    for m in v:
                        st.facts[m] = True

    def exit(self, exits, exgroups, fr, st):
        for L in sorted(st.loops):
            if L[0] == fr.id:
                self.close(st, L)
        ret = st.mem.get(("l", fr.id, 0), UNIT)
        t = fr.body.tys[fr.body.locals[0][0]]
        if t["k"] == "tuple" and not (t.get("f") or t.get("a")):
            ret = UNIT
        keep = mref_roots(ret)
        fid = fr.id
        rm = []
        for r in st.mem:
            if r[1] == fid and r[0] == "l" and r not in keep:
                rm.append(r)
        for r in rm:
            del st.mem[r]
        st.mem[RET] = ret
        self.insert(exits, exgroups, st, "exit", (fid, "ret"), False)

    # -- blocks ----------------------------------------------------------------
    def block(self, st, fr, bi):
        b = fr.body.blocks[bi]
        for s in b["s"]:
            self.statement(st, fr, s)
        t = b["t"]
        k = t["k"]
        if k == "goto":
            return [(t["to"], st)]
        if k == "ret":
            return [("ret", st)]
        if k == "switch":
            return self.switch(st, fr, bi, t)
        if k == "call":
            return self.do_call(st, fr, bi, t)
        if k == "drop":
            return self.do_drop(st, fr, bi, t)
        if k == "assert":
            if self.opts.get("panics") and not str(t.get("msg")).startswith("Overflow") and isinstance(t.get("c"), list):
                c = self.operand(st, fr, t["c"])
                if self.known(st, c) is not bool(t.get("e", True)):
                    self.event(st, fr, bi, ("ASSERT", t.get("msg"), c))
            return [(t["to"], st)]
        if k in ("unreachable", "resume"):
            return []
        if t.get("to") is not None:
            return [(t["to"], st)]
        return []

    def switch(self, st, fr, bi, t):
        mac = t.get("mac")
        if mac and mac.startswith("log::"):
            r = self.skip_log(fr, bi, t)
            if r is not None:
                return [(r, st)]
        d = self.operand(st, fr, t["d"])
        vals = t["v"]
        out = []
        if d.op == "int":
            for v, bb in vals:
                if v == d.a[0] or (d.a[0] < 0 and v == d.a[0] % 256):
                    return [(bb, st)]
            return [(t["else"], st)] if t["else"] is not None else []
        if d.op == "bool":
            n = 1 if d.a[0] else 0
            for v, bb in vals:
                if v == n:
                    return [(bb, st)]
            return [(t["else"], st)] if t["else"] is not None else []
        if d.op == "disc":
            v, ap = d.a
            if v.op == "app" and v.a[0] == "cmp":
                return self.switch_cmp(st, v, vals, t)
            a = ADTS.get(ap) if ap else None
            rest = self.variants(st, v, ap) if ap else None
            d2i = {}
            if a:
                for i, x in enumerate(a["v"]):
                    dd = x.get("d")
                    d2i[i if dd is None else dd] = i
            for val, bb in vals:
                i = d2i.get(val, val)
                if rest is not None:
                    if i not in rest:
                        continue
                    rest = rest - {i}
                for s in self.assume(st.copy(), mk("isvar", v, ap, i), True):
                    out.append((bb, s))
            if t["else"] is not None and (rest is None or rest):
                s = st.copy()
                ok = True
                if rest is not None:
                    for val, bb in vals:
                        i = d2i.get(val, val)
                        r = self.assume(s, mk("isvar", v, ap, i), False)
                        if not r:
                            ok = False
                            break
                        s = r[0]
                if ok:
                    out.append((t["else"], s))
            return out
        dty = self.opty(fr, t["d"])
        if dty == "bool" or d.op in ("ordt", "not", "and", "isvar"):
            seen = set()
            for val, bb in vals:
                seen.add(val)
                for s in self.assume(st.copy(), d, bool(val)):
                    out.append((bb, s))
            if t["else"] is not None:
                for o in (0, 1):
                    if o not in seen:
                        for s in self.assume(st.copy(), d, bool(o)):
                            out.append((t["else"], s))
            return out
        # an integer or character
        s = st
        for val, bb in vals:
            for s1 in self.assume(s.copy(), mk_eq(d, INT(val)), True):
                out.append((bb, s1))
            r = self.assume(s, mk_eq(d, INT(val)), False)
            if not r:
                s = None
                break
            s = r[0]
        if s is not None and t["else"] is not None:
            out.append((t["else"], s))
        return out

    def switch_cmp(self, st, v, vals, t):
        # the result of a three-way comparison
        out = []
        a, b = v.a[1], v.a[2]
        left = set("<=>")
        for val, bb in vals:
            c = {255: "<", -1: "<", 0: "=", 1: ">"}.get(val)
            if c is None:
                continue
            left.discard(c)
            for s in self.assume(st.copy(), mk_ord(a, b, c), True):
                out.append((bb, s))
        if t["else"] is not None and left:
            for s in self.assume(st.copy(), mk_ord(a, b, "".join(sorted(left))), True):
                out.append((t["else"], s))
        return out

    def opty(self, fr, o):
        if o[0] == "k":
            return fr.body.tys[o[1]["ty"]]["k"]
        pl = o[1]
        if len(pl) == 1:
            return fr.body.tys[fr.body.locals[pl[0]][0]]["k"]
        last = pl[-1]
        if last[0] == ".":
            return fr.body.tys[last[2]]["k"]
        # deref of a local reference
        if last[0] == "*" and len(pl) == 2:
            t = fr.body.tys[fr.body.locals[pl[0]][0]]
            if "t" in t:
                return fr.body.tys[t["t"]]["k"]
        if last[0] == "*" and pl[-2][0] == ".":
            t = fr.body.tys[pl[-2][2]]
            if "t" in t and t["t"] is not None:
                return fr.body.tys[t["t"]]["k"]
        return None

    def skip_log(self, fr, bi, t):
        """A log statement without effects is skipped."""
        body = fr.body
        key = (body.key, bi)
        if key in self.pure_memo:
            return self.pure_memo[key]
        reg, ip = body.region(bi)
        r = None
        if ip != -1:
            ok = True
            for b in reg:
                tt = body.blocks[b]["t"]
                if tt["k"] == "call" and not self.pure_call(tt["f"], tt):
                    ok = False
                    break
                if tt["k"] in ("ret",):
                    ok = False
                for s in body.blocks[b]["s"]:
                    # assignments to anything which lives on after the region
                    if s[0] == "=" and (len(s[1]) > 1 or s[1][0] in body.live_in[ip]):
                        if len(s[1]) > 1 or s[1][0] in body.live_in[ip] and not self.only_unit(body, s):
                            ok = False
            if ok:
                r = ip
        self.pure_memo[key] = r
        return r

    def only_unit(self, body, s):
        t = body.tys[body.locals[s[1][0]][0]]
        return (t["k"] == "tuple" and not (t.get("f") or t.get("a"))) or t["k"] == "bool" and False

    def pure_call(self, f, t):
        if self.opts.get("panics") and (t.get("to") is None or self.opts["panics"](f)):
            return False
        k = f.get("key")
        if k is not None and k in self.prog.bodies:
            return self.pure_body(k)
        if "dyn" in f:
            return False
        return self.models.external_pure(f)

    def pure_body(self, key, stack=()):
        m = self.effect_memo.get(key)
        if m is not None:
            return m
        if key in stack:
            return True
        b = self.prog.bodies[key].prep()
        ok = True
        # assume pure while looking, to allow for recursion
        self.effect_memo[key] = True
        for bi in b.reach:
            bl = b.blocks[bi]
            t = bl["t"]
            if t["k"] == "call" and not self.pure_call(t["f"], t):
                ok = False
                break
            for s in bl["s"]:
                if s[0] == "=" and any(e[0] == "*" and e[1] == "m" for e in s[1][1:]):
                    ok = False
            if t["k"] == "call" and any(e[0] == "*" and e[1] == "m" for e in t["dst"][1:]):
                ok = False
        self.effect_memo[key] = ok
        return ok

    def do_drop(self, st, fr, bi, t):
        h = getattr(self.mon, "drop_types", None)
        name = None
        ty = fr.body.tys[t["ty"]] if t.get("ty") is not None else None
        if ty is not None and ty["k"] == "adt":
            name = ty["n"]
        if name and name.endswith("LockFile"):
            v = self.read(st, fr, t["p"])
            outs = self.event(st, fr, bi, ("UNLOCK", v))
            return [(t["to"], s) for s in outs]
        return [(t["to"], st)]

    # -- events ----------------------------------------------------------------
    def event(self, st, fr, bi, ev):
        """Tells the monitor about an effect; returns the states after it."""
        self.cur = (fr, bi)
        r = self.mon.event(self, st, fr, bi, ev)
        if r is None:
            return [st]
        if r is False:
            return []
        return r

    # -- calls -------------------------------------------------------------------
    def do_call(self, st, fr, bi, t):
        f = t["f"]
        args = [self.operand(st, fr, a) for a in t["a"]]
        rs = self.call(st, fr, bi, f, args, t)
        out = []
        to = t.get("to")
        if to is None:
            return []
        for s, ret in rs:
            self.assign(s, fr, t["dst"], ret)
            out.append((to, s))
        return out

    def call(self, st, fr, bi, f, args, t=None):
        if "dyn" in f:
            fv = self.operand(st, fr, f["dyn"]) if isinstance(f["dyn"], list) else UNDEF
            return self.call_value(st, fr, bi, fv, args, t)
        if f.get("ctor"):
            # a tuple struct or variant used as a function
            return [(st, mk("adt", f["path"] if ADTS.get(f["path"]) else f.get("adt", f["path"]), f.get("variant", 0), *args))]
        h = getattr(self.mon, "external", None)
        if h is not None:
            r = h(self, st, fr, bi, f, args, t)
            if r is not None:
                return r
        r = self.models.dispatch(self, st, fr, bi, f, args, t)
        if r is not None:
            return r
        key = f.get("key")
        if key is not None and key in self.prog.bodies:
            return self.call_body(st, fr, bi, key, args, f, t)
        return self.models.unknown(self, st, fr, bi, f, args, t)

    def call_body(self, st, fr, bi, key, args, f=None, t=None):
        body = self.prog.bodies[key]
        h = self.mon.stub
        if h is not None:
            r = h(self, st, fr, bi, body, args, t)
            if r is not None:
                return r
        self.called.add(key)
        n = sum(1 for x in fr.chain() if x.body.key == key)
        if n >= self.opts.get("recursion", 4):
            return self.models.recursion(self, st, fr, bi, body, args, t)
        if fr.depth > 60:
            raise Budget("call depth in " + body.path)
        nf = self.frame(fr, bi, body)
        argv = list(args)
        if body.spread is not None or (body.closure and len(argv) == 2 and body.argc != 2 and argv[1].op in ("tup", "unit")):
            if argv and argv[-1].op in ("tup", "unit") and len(argv) != body.argc:
                tp = argv.pop()
                argv.extend(tp.a if tp.op == "tup" else [])
        if body.closure and len(argv) == 2 and body.argc == 2 and f is not None and (f.get("path") or "").startswith("core::ops::function::"):
            if argv[1].op == "tup" and len(argv[1].a) == 1:
                argv[1] = argv[1].a[0]
        if len(argv) < body.argc and argv and argv[-1].op not in ("tup", "unit"):
            # opaque argument tuple
            tp = argv.pop()
            need = body.argc - len(argv)
            argv.extend(mk("fld", tp, "()", 0, i) for i in range(need))
        ent = getattr(self.mon, "enter", None)
        if ent is not None:
            r = ent(self, st, fr, bi, body, argv)
            if r is False:
                return []
        s = st
        for r in [r for r in s.mem if r[1] == nf.id and r[0] == "l"]:
            del s.mem[r]
        for i, a in enumerate(argv[: body.argc]):
            s.mem[("l", nf.id, i + 1)] = a
        ex = self.run(nf, s)
        lv = getattr(self.mon, "leave", None)
        if lv is not None:
            ex = [(s2, r2) for s2, r2 in ex if lv(self, s2, fr, bi, body, argv, r2) is not False]
        return ex

    def call_value(self, st, fr, bi, fv, args, t=None):
        """Call a closure or function value with separate arguments."""
        holder = None
        while fv.op == "mref":
            holder = fv
            fv = self.load(st, fv.a[0], fv.a[1])
        if fv.op == "clo":
            key = fv.a[0]
            body = self.prog.bodies.get(key)
            if body is None:
                cands = [k for k in self.prog.bodies if k == key or k.endswith("::" + key)]
                body = self.prog.bodies.get(cands[0]) if cands else None
            if body is None:
                return [(st, app("callclosure", fv, *args))]
            kind = body.d.get("closure_kind")
            envty = body.tys[body.locals[1][0]]["k"] if body.argc >= 1 else None
            env = fv
            if envty == "refm":
                if holder is not None:
                    env = holder
                else:
                    root = ("t", fr.id, bi, fv.id)
                    st.mem[root] = fv
                    env = mk("mref", root, ())
            argv = [env] + list(args)
            if len(argv) > body.argc and body.argc == 1:
                argv = argv[:1]
            h = self.mon.stub
            nf = self.frame(fr, ("c", bi, key), body)
            n = sum(1 for x in fr.chain() if x.body.key == body.key)
            if n >= 4:
                return self.models.recursion(self, st, fr, bi, body, args, t)
            self.called.add(body.key)
            for r in [r for r in st.mem if r[1] == nf.id and r[0] == "l"]:
                del st.mem[r]
            for i, a in enumerate(argv[: body.argc]):
                st.mem[("l", nf.id, i + 1)] = a
            return self.run(nf, st)
        if fv.op == "fn":
            f = self.fns.get(fv.a[0])
            if f is not None:
                if f.get("ctor"):
                    return self.call(st, fr, bi, f, list(args), t)
                return self.call(st, fr, bi, f, list(args), None)
        if fv.op == "ctor":
            return [(st, mk("adt", fv.a[0], fv.a[1], *args))]
        return self.models.unknown(self, st, fr, bi, {"path": "dyn-call:" + fv.op, "dynamic": True}, [fv] + list(args), t)

    # -- loops -------------------------------------------------------------------
    def enclosing_loop(self, fr, bi):
        """Blocks of the innermost loop around a block (None: not in a loop)."""
        body = fr.body
        c = getattr(body, "_loopof", None)
        if c is None:
            c = {}
            body._loopof = c
        if bi in c:
            return c[bi]
        # natural loop: strongly connected component containing bi, refined by
        # removing outer heads
        best = None
        nodes = set(body.reach)
        while True:
            comp = self.scc_of(body, nodes, bi)
            if comp is None:
                break
            best = comp
            head = min(comp, key=lambda b: body.order[b])
            if head == bi:
                break
            nodes = comp - {head}
            nxt = self.scc_of(body, nodes, bi)
            if nxt is None:
                break
        c[bi] = best
        return best

    def scc_of(self, body, nodes, b):
        fwd = set()
        st = [s for s in body.succ[b] if s in nodes]
        while st:
            x = st.pop()
            if x in fwd:
                continue
            fwd.add(x)
            st.extend(s for s in body.succ[x] if s in nodes)
        if b not in fwd:
            return None
        bwd = set()
        st = [b]
        while st:
            x = st.pop()
            if x in bwd:
                continue
            bwd.add(x)
            st.extend(s for s in body.pred[x] if s in nodes and s in fwd)
        return frozenset(fwd & bwd | {b})

    def close_loops(self, st, fr, bi):
        for L in sorted(k for k in st.loops if k[0] == fr.id):
            if L[0] == fr.id:
                blocks = self.loopinfo[L]
                if bi not in blocks:
                    self.close(st, L)
        for x in st.its:
            if x[4] == "one" and x[0][0] == fr.id and bi not in self.loopinfo[x[0][:2]]:
                st.its = tuple(y for y in st.its if y is not x)
        return [st]

    def open_phase(self, st, L, pos, part, attrs, src=frozenset()):
        """Start visiting the elements of one part of a collection."""
        key = L + (pos, part.id)
        self.loopinfo[key] = self.loopinfo[L]
        self.phaseinfo[key] = (part.a[0], part)
        self.phaseattrs[key] = attrs
        self.phasesrc[key] = frozenset((d, mk("srckey", L, k.a[-1] if k.op == "srckey" else k)) for d, k in src)
        if key not in st.loops:
            st.loops = dict(st.loops)
            st.loops[key] = {}
            # a mark at the end of every vector in memory
            self.pushlog.setdefault(self.loopctx(L), set())
            vals = self.openvals.setdefault(key, {})
            for r in list(st.mem):
                w = st.mem[r] = self.mark(st.mem[r], key, (r,), None)
                vals.setdefault(r, set()).add(w)
        return key

    def quiet(self, p):
        """Is nothing added to this vector by the rounds of the loop, as is
        known from an earlier analysis?"""
        known = (self.opts.get("pushlog") or {}).get(self.loopctx(p.a[0][:-2]))
        return known is not None and self.rootctx(p.a[1][0]) not in known

    def loopctx(self, L):
        return (self.ctxkeys[L[0]],) + tuple(L[1:])

    def rootctx(self, r):
        if isinstance(r, tuple) and len(r) > 1 and isinstance(r[1], int):
            return (r[0], self.ctxkeys.get(r[1])) + tuple(r[2:])
        return r

    def mark(self, v, key, where, n):
        op = v.op
        if op == "vec":
            return mk("vec", v.a[0], v.a[1] + (mk("open", key, where),))
        if op == "adt":
            fs = tuple(self.mark(x, key, where + (i,), n) if isinstance(x, T) and x.op in AGG else x for i, x in enumerate(v.a[2:]))
            return mk("adt", v.a[0], v.a[1], *fs) if fs != v.a[2:] else v
        if op == "sum":
            cs = tuple((w, tuple(self.mark(x, key, where + (w, i), n) if x.op in AGG else x for i, x in enumerate(pay))) for w, pay in v.a[2])
            return mk("sum", v.a[0], v.a[1], cs)
        if op == "tup":
            fs = tuple(self.mark(x, key, where + (i,), n) if x.op in AGG else x for i, x in enumerate(v.a))
            return mk("tup", *fs)
        if op == "clo":
            fs = tuple(self.mark(x, key, where + (i,), n) if isinstance(x, T) and x.op in AGG else x for i, x in enumerate(v.a))
            return mk("clo", *fs)
        return v

    def has_open(self, v, key):
        for x in subterms(v):
            if x.op == "open" and x.a[0] == key:
                return True
        return False

    def fold(self, st, entry):
        """One iteration of a phase ends: record what it pushed and learned."""
        key, p, base, oconds, status = entry
        e = el(base)
        pushes = {}
        h = getattr(self.mon, "folding", None)
        if h is not None:
            h(self, st, base)

        def strip(v):
            op = v.op
            if op == "vec":
                ps = v.a[1]
                for i, q in enumerate(ps):
                    if q.op == "open" and q.a[0] == key:
                        suf = ps[i + 1:]
                        if suf:
                            pushes[q.a[1]] = suf
                            return mk("vec", v.a[0], ps[: i + 1])
                        return v
                return v
            if op == "adt":
                if not self.has_open(v, key):
                    return v
                return mk("adt", v.a[0], v.a[1], *[strip(x) for x in v.a[2:]])
            if op == "tup":
                return mk("tup", *[strip(x) for x in v.a])
            if op == "sum":
                return mk("sum", v.a[0], v.a[1], tuple((w, tuple(strip(x) for x in pay)) for w, pay in v.a[2]))
            if op == "clo":
                return mk("clo", *[strip(x) if isinstance(x, T) else x for x in v.a])
            return v

        vals = self.openvals.get(key, {})
        log = self.pushlog[self.loopctx(key[:-2])]
        for r, v in list(st.mem.items()):
            if v not in vals.get(r, ()):
                log.add(self.rootctx(r))
            st.mem[r] = strip(v)
        learned = []
        for k in list(st.facts):
            v = st.facts[k]
            if about(k, v, e):
                if isinstance(k, tuple) and k[0] == "forall" and not mentions(k, e):
                    # only what is said of the element
                    rest = frozenset(x for x in v if not occurs(x, e))
                    if rest:
                        learned.append((k, v - rest))
                        st.facts[k] = rest
                        continue
                learned.append((k, v))
                del st.facts[k]
        rk = (oconds, frozenset(pushes.items()))
        conds = frozenset(learned)
        recs = st.loops.get(key, {})
        old = recs.get(rk)
        if old is not None:
            conds = join_conds(old, conds)
        if old is None or conds != old:
            nr = dict(recs)
            nr[rk] = conds
            st.loops = dict(st.loops)
            st.loops[key] = nr
        # a former element which is still referred to
        m = {e: mk("prev", e)}
        for r, v in list(st.mem.items()):
            if e in subterms(v):
                st.mem[r] = subst_keep_parts(v, m, e)
        if hasattr(self.mon, "fold"):
            self.mon.fold(self, st, base)
        if hasattr(self.mon, "rename"):
            st.ps = self.mon.rename(st.ps, m)

    def close(self, st, key):
        """A loop has been left: turn what it did into parts and facts."""
        recs = st.loops.get(key)
        if recs is None:
            return
        st.loops = dict(st.loops)
        del st.loops[key]
        entry = None
        for x in st.its:
            if x[0] == key:
                entry = x
        st.its = tuple(x for x in st.its if x[0] != key)
        info = self.phaseinfo[key]
        base, src = info
        done = entry is None or entry[4] == "done"
        e = el(base)
        if not done:
            self.partly(st, recs, base, entry[4] == "in")
        if not done and entry[4] == "in":
            w = mk("wit", base, key)
            self.drop_facts(st, w)
            # facts on the element at which the loop was left
            m = {e: w}
            memo = {}
            nf = {}
            for k, v in st.facts.items():
                if about(k, v, e):
                    k2, v2 = subst_fact(k, v, m, memo, e)
                    nf[k2] = v2
                else:
                    nf[k] = v
            st.facts = nf
            for r, v in list(st.mem.items()):
                if e in subterms(v):
                    st.mem[r] = subst_keep_parts(v, m, e)
            if hasattr(self.mon, "rename"):
                st.ps = self.mon.rename(st.ps, m)
        h = getattr(self.mon, "closed", None)
        if h is not None:
            h(self, st, base, done, recs)
        # outcomes per slot
        slots = {}
        for r, v in st.mem.items():
            for x in subterms(v):
                if x.op == "open" and x.a[0] == key:
                    slots.setdefault(x.a[1], None)
        newparts = {}
        # vectors to which nothing was added: nothing was their first element
        pushed = {s for oc, pushes in recs for s, suf in pushes if suf}

        def gone(x):
            return x.op == "app" and x.a[0] in ("firstel", "lastel") and x.a[1].op == "vec" and \
                all(q.op == "open" and q.a[0] == key and q.a[1] not in pushed for q in x.a[1].a[1])
        recs = {rk: conds for rk, conds in recs.items() if not any(gone(x) for k, v in conds for x in allsubs(k))}
        for slot in slots:
            outs = {}
            odd = False
            for (oc, pushes), conds in recs.items():
                suf = dict(pushes).get(slot, ())
                if all(q.op == "one" for q in suf):
                    vals = tuple(q.a[0] for q in suf)
                else:
                    odd = True
                    vals = tuple(q.a[0] if q.op == "one" else mk("spread", q) for q in suf)
                if vals in outs:
                    outs[vals] = join_conds(outs[vals], conds)
                else:
                    outs[vals] = conds
            if not any(outs):
                newparts[slot] = ()
                continue
            # elements which the iterated collection left out
            left = {vals: oc for oc, vals in src.a[1] if not vals}
            if left and () in outs:
                outs[DROPPED] = outs.pop(())
            for vals, oc in left.items():
                outs[vals] = join_conds(outs[vals], oc) if vals in outs else oc
            if not done:
                outs[()] = frozenset()
            newparts[slot] = (each(base, frozenset((c, v) for v, c in outs.items())),)
        if slots:
            def repl(v):
                op = v.op
                if not isinstance(v, T) or not self.has_open(v, key):
                    return v
                if op == "vec":
                    ps = []
                    for q in v.a[1]:
                        if q.op == "open" and q.a[0] == key:
                            ps.extend(newparts[q.a[1]])
                        else:
                            ps.append(repl(q))
                    at = v.a[0]
                    if any(newparts[q.a[1]] for q in v.a[1] if q.op == "open" and q.a[0] == key):
                        at = frozenset()
                        # an order-preserving copy of what was iterated
                        q0 = [q for q in ps]
                        if len(q0) == 1 and info[1] is not None:
                            at = self.copy_attrs(key, q0[0])
                        if not at:
                            # values in the order of what was iterated
                            at = self.phasesrc.get(key) or frozenset()
                            news = [q for n in newparts.values() for q in n]
                            if any(len(vals) > 1 for q in news for c, vals in q.a[1]) or \
                                    (v.a[0] != at and any(q.op != "open" and q not in news for q in ps)):
                                at = frozenset()
                    return mk("vec", at, tuple(ps))
                return remk(op, tuple(mapt(repl, x) for x in v.a))
            for r, v in list(st.mem.items()):
                st.mem[r] = repl(v)
        if done and not recs:
            for oc, vals in src.a[1]:
                if vals:
                    st.facts[("forall", base, oc)] = frozenset([NOTHING])
        if done:
            by = {}
            for (oc, pushes), conds in recs.items():
                by[oc] = conds if oc not in by else join_conds(by[oc], conds)
            for oc, conds in by.items():
                k = ("forall", base, oc)
                old = st.facts.get(k)
                if old:
                    old = frozenset(x for x in old if not is_mark(x[0]))
                v = frozenset(conds) | (old or frozenset())
                if v:
                    st.facts[k] = v
                else:
                    st.facts.pop(k, None)

    def partly(self, st, recs, base, inside):
        """A loop was left early: what it may have undone no longer holds of
        all elements."""
        for k, v in list(st.facts.items()):
            if isinstance(k, tuple) and k[0] == "forall" and k[1] is base:
                nv = frozenset(
                    x for x in v if not is_mark(x[0]) or (
                        all(x in c for c in recs.values()) and (not inside or st.facts.get(x[0]) is True)))
                if nv != v:
                    if nv:
                        st.facts[k] = nv
                    else:
                        del st.facts[k]

    def copy_attrs(self, key, part):
        a = self.phaseattrs.get(key)
        if not a:
            return frozenset()
        # only if the elements themselves are carried over
        e = el(part.a[0])
        for c, vals in part.a[1]:
            if vals not in ((), (e,)):
                return frozenset()
        return a


def subst_keep_parts(v, m, e):
    """Substitute an element symbol, but not where a vector part binds it."""
    memo = {}

    def go(x):
        if isinstance(x, T):
            if x is e:
                return m[e]
            r = memo.get(x)
            if r is not None:
                return r
            if e not in subterms(x):
                return x
            if x.op == "each" and el(x.a[0]) is e:
                r = x
            else:
                r = remk(x.op, tuple(go(y) for y in x.a))
            memo[x] = r
            return r
        if isinstance(x, (tuple, frozenset)):
            if e not in allsubs(x) or binds(x, e):
                return x
            return type(x)(go(y) for y in x)
        return x

    return go(v)
