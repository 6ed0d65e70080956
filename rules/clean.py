"""C07, C08, C17: what is superseded is kept for the configured time."""
from common import *
import models
from interp import subst_keep_parts
from publish import Switch, nf_parts
from runs import Fresh


def linear(t, n=1, out=None):
    """A sum of terms as {atom: coefficient}."""
    if out is None:
        out = {}
    if t.op == "app" and t.a[0] == "bin:Add" or t.op == "add":
        a, b = t.a[-2], t.a[-1]
        linear(a, n, out)
        linear(b, n, out)
    elif t.op == "app" and t.a[0] == "bin:Sub":
        linear(t.a[1], n, out)
        linear(t.a[2], -n, out)
    elif t.op == "app" and t.a[0] == "bin:Neg":
        linear(t.a[1], -n, out)
    else:
        out[t] = out.get(t, 0) + n
        if not out[t]:
            del out[t]
    return out


def is_now(t):
    return app_is(t, "timestamp") and app_is(t.a[1], "now")


class Aged:
    """The age of records."""

    def old_enough(self, eng, st, X, strict=False):
        """Is it known that the stamp X is at least cleanup_after seconds ago?"""
        for k, v in st.facts.items():
            if not (isinstance(k, tuple) and k[0] == "ord" and (mentions(k[1], X) or mentions(k[2], X))):
                continue
            d = linear(k[1])
            linear(k[2], -1, d)
            if len(d) != 3 or X not in d:
                continue
            s = -d[X]
            now = [a for a in d if a is not X and is_now(a)]
            cl = [a for a in d if self.ctx.is_cfg(a, "cleanup_after")]
            if len(now) != 1 or len(cl) != 1 or d[now[0]] != s or d[cl[0]] != -s or s not in (1, -1):
                continue
            r = v if s == 1 else frozenset({"<": ">", ">": "<", "=": "="}[c] for c in v)
            # now - cleanup_after - X: r
            if r <= frozenset("=>"):
                return True
        return False

    def stamps(self, st, p):
        """The time stamps of the records which name the path p (fields of
        the same record), or of the value p is the part of."""
        out = set()
        if p.op == "fld" and p.a[0].op in ("el", "wit", "fld"):
            E = p.a[0]
            for k in st.facts:
                if isinstance(k, tuple) and k[0] == "ord":
                    for x in allsubs(k):
                        if x.op == "fld" and self.root(x, E) and x is not p:
                            out.add((x, E))
        found = set()

        def go(v):
            if isinstance(v, T):
                if p not in subterms(v):
                    return
                if v.op == "adt" and p in v.a[2:]:
                    found.add(v)
                for x in v.a:
                    go(x)
            elif isinstance(v, (tuple, frozenset)):
                for x in v:
                    go(x)
        for r, v in st.mem.items():
            go(v)
        return out, found

    def root(self, x, E):
        while x.op == "fld":
            x = x.a[0]
            if x is E:
                return True
        return False

    def stamped_now(self, X):
        """Was the stamp X, part of a saved record, always made by now()?"""
        xs = self.ctx.origins(X)
        return bool(xs) and all(is_now(x) for x in xs)


class C07(Fresh, Aged):
    """Every operation which removes a file of the public RRDP directory is
    enumerated over all paths of a run: what it removes must be the path of a
    record whose stamp (always made by the clock when the record is made) is
    compared with now minus the configured age, must be known to differ from
    the path of every file in the notification file written in this run, and
    the switch to that notification file must have happened before."""

    def data(self, eng, st, fr, bi, d, target):
        if nf_parts(d) is None:
            self.bad("what the new notification file lists is not known", fr, bi, show(d, 3))
            return
        # states in which something else is listed are kept apart
        st.ps = (tuple(st.ps or ()) + (None, None))[:2] + ((d, target),)

    def rename(self, ps, m):
        if ps and len(ps) > 2:
            d = ps[2]
            for e in m:
                d = tuple(subst_keep_parts(x, m, e) for x in d)
            return ps[:2] + (d,)
        return ps

    def event(self, eng, st, fr, bi, ev):
        k = ev[0]
        if k in ("REMOVE_FILE", "REMOVE_DIR_ALL", "RENAME") and ev[1]:
            ks = self.ctx.kinds(ev[2])
            if "PUB" in ks or "DIR:PUB" in ks:
                self.gone(eng, st, fr, bi, k, ev[2], ks)
        elif k == "REMOVE_DIR" and ev[1] and "PUB" in "".join(self.ctx.kinds(ev[2])):
            self.ok("a directory is removed only if it is empty", fr, bi)
        return Fresh.event(self, eng, st, fr, bi, ev)

    def gone(self, eng, st, fr, bi, k, p, ks):
        if k == "REMOVE_DIR_ALL":
            self.bad("a public directory is removed with what it holds", fr, bi, show(p))
            return
        if p.op in ("parent", "anc"):
            return          # a directory: the removal of a file fails
        if k == "RENAME":
            if eng.has(st, "exists", p) or any(True for x in marks(st, "holds", p)):
                return      # a file written in this run (C01 decides where it goes)
            self.bad("a public file is moved away", fr, bi, show(p))
            return
        ls = [st.ps[2]] if st.ps and len(st.ps) > 2 else []
        if not ls:
            self.bad("a public file is removed before the new notification file is in place", fr, bi, show(p))
            return
        self.ok("a public file is removed after the switch", fr, bi)
        flds, adts = self.stamps(st, p)
        if any(self.old_enough(eng, st, x) and self.stamped_now(x) for x, E in flds):
            self.ok("the record of a removed file is old enough", fr, bi)
        elif adts and all(any(is_now(x) and self.old_enough(eng, st, x) for a in v.a[2:] for x in allsubs(a)) for v in adts):
            self.ok("the record of a removed file is old enough", fr, bi)
        else:
            self.bad("a file is removed without its record being known to be old enough", fr, bi, show(p))
        for d, target in ls:
            self.removed = p
            Switch.data(self, eng, st, fr, bi, d, target)

    def listed_file(self, eng, st, fr, bi, what, uri, hash, dserial, session, serial, base):
        rel = self.split_uri(uri)[1]
        if rel is None or base is None:
            self.bad("the URI of a listed %s is not derived from its file" % what, fr, bi, show(uri, 5))
            return
        q = models.join_path(base, rel)
        r = eng.rel(st, q, self.removed)
        if r is not None and "=" not in r:
            self.ok("a removed file is not the listed %s" % what, fr, bi)
        else:
            self.bad("a file is removed which may be the listed %s" % what, fr, bi, "%s / %s" % (show(self.removed, 5), show(q, 5)))

    def finish(self, eng, exits):
        self.expect("a public file is removed after the switch")
        self.expect("the record of a removed file is old enough")
        self.expect("a removed file is not the listed snapshot")
        self.expect("a removed file is not the listed delta")


class Kept(Fresh, Aged):
    """Base of the rules which follow records from one run to the next."""

    def __init__(self, ctx):
        Fresh.__init__(self, ctx)
        self.rel = set()        # fields which hold the relative path of a listed file
        self.path = set()       # fields of records which hold the path of a superseded file
        self.root = set()
        for k, vs in ctx.saved.items():
            for v in vs:
                if any(app_is(o, "stripped") and app_is(o.a[1], "uri") for o in ctx.origins(v)):
                    self.rel.add(k)
                elif v.op == "join" and "PUB" in ctx.kinds(v):
                    self.path.add(k)
        self.recs, self.lists, self.opts1 = set(), set(), set()
        for k, vs in ctx.saved.items():
            for v in vs:
                for x in ctx.expand(v):
                    if x.op == "vec":
                        for p in x.a[1]:
                            for y in part_values(p):
                                if y.op == "adt" and self.has(y, self.path):
                                    self.recs.add(k)
                                if y.op == "adt" and self.has(y, self.rel):
                                    self.lists.add(k)
                    elif x.op == "adt" and x.a[0] == OPTION and x.a[1] == 1 and x.a[2].op == "adt" and self.has(x.a[2], self.rel):
                        self.opts1.add(k)
        self.types = {k[0] for k in self.recs}

    def has(self, y, keys):
        return any((y.a[0], y.a[1], i) in keys for i in range(len(y.a) - 2))

    def shape(self, eng, st):
        """States in which these lists were made differently are kept apart."""
        out = []
        for r in sorted(st.mem, key=str):
            v = st.mem[r]
            if v.op == "adt" and v.a[0] in self.types:
                s = self.shapes.get(v)
                if s is None:
                    s = self.shapes[v] = tuple(
                        tuple((p.op, p.a[0] if p.op == "each" and self.ctx.is_saved(p.a[0]) else 0) for p in x.a[1]) if x.op == "vec" else
                        x.a[1] if x.op == "adt" else x.op for x in v.a[2:])
                out.append(s)
            elif v.op == "vec" and any(p.op == "one" and p.a[0].op == "adt" and self.has(p.a[0], self.path) for p in v.a[1]):
                out.append(tuple(p.a[0] for p in v.a[1] if p.op == "one" and p.a[0].op == "adt" and self.has(p.a[0], self.path)))
        return tuple(out)

    shapes = {}


class C08(Kept):
    """At every write of the saved state each file listed before is followed
    along all paths: the previous snapshot, and each element of the previous
    delta list by cases of how the new lists were made from it, must be listed
    still, be recorded with a stamp made in this run, or be known to equal a
    listed path; a record of the previous state may be missing only when its
    path is known to equal a listed one or, when it is old enough, its file
    was removed or was not there."""

    def event(self, eng, st, fr, bi, ev):
        k = ev[0]
        if k == "REMOVE_FILE" and ev[1] and "PUB" in self.ctx.kinds(ev[2]):
            self.gone(eng, st, ev[2])
        elif k == "WRITE" and ev[1]:
            v = saved_json(ev[3])
            if v is not None and any(x.op == "adt" and x.a[0] in self.types for x in self.ctx.expand(v)):
                for x in self.ctx.expand(v):
                    self.saved(eng, st, fr, bi, x)
        return Fresh.event(self, eng, st, fr, bi, ev)

    def on_fact(self, eng, st, k, v):
        Fresh.on_fact(self, eng, st, k, v)
        if isinstance(k, T):
            if v is False and app_is(k, "q:exists", "q:try_exists", "q:is_file", "q:symlink_exists") and "PUB" in self.ctx.kinds(k.a[1]):
                self.gone(eng, st, k.a[1])
            return
        x = not_found(k, v)
        if x is not None and "PUB" in self.ctx.kinds(x[1]):
            self.gone(eng, st, x[1])
        if k[0] == "var" and k[1].op == "fld" and (k[1].a[1], k[1].a[2], k[1].a[3]) in self.opts1:
            st.ps = (tuple(st.ps) + (None, None))[:2] + (tuple(sorted(v)),)
            return
        if k[0] != "ord":
            return
        if v == frozenset("="):
            for p, q in ((k[1], k[2]), (k[2], k[1])):
                if p.op in ("join", "fld") and q.op == "join" and self.listed_now(eng, st, q):
                    eng.must(st, "acct", p)
        self.on_known(eng, st, k, v)

    def on_known(self, eng, st, k, v):
        t = self.threshold(k, v)
        if t is not None:
            X, n, r = t
            for p in self.paths_of(st, X):
                if r <= frozenset("=>"):
                    eng.must(st, "old", p, n)
                    if eng.has(st, "gone", p) or eng.has(st, "cleaned", p, n):
                        eng.must(st, "acct", p)
                        eng.must(st, "cleaned", p, n)
                elif r == frozenset("<"):
                    eng.must(st, "cleaned", p, n)

    def threshold(self, k, v):
        """(stamp, the present, relation of the present minus cleanup_after to
        the stamp)"""
        d = linear(k[1])
        linear(k[2], -1, d)
        cl = [a for a in d if self.ctx.is_cfg(a, "cleanup_after")]
        if len(d) != 3 or len(cl) != 1 or d[cl[0]] not in (1, -1):
            return None
        c = d[cl[0]]
        n = [a for a in d if is_now(a) and d[a] == -c]
        X = [a for a in d if a is not cl[0] and d[a] == c]
        if len(n) != 1 or len(X) != 1:
            return None
        return X[0], n[0], v if c == -1 else frozenset({"<": ">", ">": "<", "=": "="}[x] for x in v)

    def paths_of(self, st, X):
        """The paths of the records with the stamp X."""
        out = set()
        x = X
        while x.op == "fld":
            x = x.a[0]
            for a, var, i in self.path:
                if x.op in ("el", "wit"):
                    out.add(mk("fld", x, a, var, i))

        def go(v):
            if isinstance(v, T):
                if X not in subterms(v):
                    return
                if v.op == "adt":
                    for i, y in enumerate(v.a[2:]):
                        if (v.a[0], v.a[1], i) in self.path:
                            out.add(y)
                for y in v.a:
                    go(y)
            elif isinstance(v, (tuple, frozenset)):
                for y in v:
                    go(y)
        for r, v in st.mem.items():
            go(v)
        return out

    def gone(self, eng, st, p):
        eng.must(st, "gone", p)
        for (n,) in list(marks(st, "old", p)):
            eng.must(st, "acct", p)
            eng.must(st, "cleaned", p, n)

    def rels(self, v, out):
        """The relative paths of the listed files which a value speaks of:
        (path, base of the list it is an element of)."""
        if v.op == "adt":
            for i, y in enumerate(v.a[2:]):
                if (v.a[0], v.a[1], i) in self.rel:
                    out.append(y)
        elif v.op in ("el", "wit", "fld"):
            for a, var, i in self.rel:
                out.append(mk("fld", v, a, var, i))
        return out

    def listed_now(self, eng, st, q):
        rel, base = q.a[1], q.a[0]
        if "PUB" not in self.ctx.kinds(q):
            return False
        ws = {w: el(w.a[0]) for w in subterms(rel) if w.op == "wit"}
        ws.update({w: el(w.a[0].a[0]) for w in subterms(rel) if w.op == "el" and w.a[0].op == "again"})
        rel = subst(rel, ws) if ws else rel
        found = []

        def go(v):
            if isinstance(v, T):
                if v.op == "each":
                    for c, vals in v.a[1]:
                        for x in vals:
                            if rel in self.rels(x, []):
                                found.append(v)
                elif v.op == "adt":
                    if rel in self.rels(v, []):
                        found.append(v)
                    for x in v.a[2:]:
                        go(x)
                elif v.op in ("vec", "sum", "one", "tup", "many"):
                    for x in v.a:
                        go(x)
            elif isinstance(v, (tuple, frozenset)):
                for x in v:
                    go(x)
        for r, v in st.mem.items():
            go(v)
        return bool(found)

    # what is saved

    def whole_state(self, st, v):
        out = set()
        for x in list(subterms(v)) + [y for k in st.facts for y in allsubs(k)]:
            if x.op == "app" and x.a[0] == "fromjson" and from_rrdp_state(self.ctx, x):
                out.add(x)
        return out

    def saved(self, eng, st, fr, bi, v):
        if any(st.facts.get(k) is False for k in self.nostate):
            self.ok("there is no earlier state", fr, bi)
            return
        Js = self.whole_state(st, v)
        if not Js:
            self.bad("the earlier state is not taken into account when it is saved", fr, bi, show(v, 3))
            return
        vecs = [x for x in v.a[2:] if x.op == "vec"]
        for J in Js:
            ty = J.a[2].a[0]
            for a, var, i in self.opts1:
                if a == ty:
                    self.one_before(eng, st, fr, bi, v, mk("fld", J, a, var, i))
            for a, var, i in self.lists:
                if a == ty:
                    self.list_before(eng, st, fr, bi, v, vecs, mk("fld", J, a, var, i), False)
            for a, var, i in self.recs:
                if a == ty:
                    self.list_before(eng, st, fr, bi, v, vecs, mk("fld", J, a, var, i), True)

    def one_before(self, eng, st, fr, bi, v, o):
        var = st.facts.get(("var", o))
        if var == frozenset([0]) or any(x is o for x in v.a[2:]):
            return
        e = proj(o, OPTION, 1, 0)
        for x in v.a[2:]:
            if x.op == "adt" and x.a[0] == OPTION and x.a[1] == 1 and any(y in self.rels(e, []) for y in self.rels(x.a[2], [])):
                return
        if self.recorded_one(eng, st, v, self.rels(e, [])):
            self.ok("the previous snapshot is recorded", fr, bi)
        else:
            self.bad("the file of the previous snapshot is forgotten", fr, bi, show(v, 3))

    def is_path(self, p, rels):
        return p.op == "join" and p.a[1] in rels and "PUB" in self.ctx.kinds(p)

    def record(self, x, rels):
        """A record made in this run for one of these files."""
        if x.op != "adt":
            return False
        return any((x.a[0], x.a[1], i) in self.path and self.is_path(y, rels) for i, y in enumerate(x.a[2:])) and \
            any(is_now(z) for y in x.a[2:] for z in allsubs(y))

    def recorded_one(self, eng, st, v, rels):
        for x in v.a[2:]:
            if x.op == "vec":
                for p in x.a[1]:
                    if p.op == "one" and self.record(p.a[0], rels):
                        return True
                    if p.op == "each" and all(vals and any(self.record(y, rels) for y in vals) for c, vals in p.a[1]):
                        return True
        return any(self.is_path(p, rels) for (p,) in marks(st, "acct"))

    def list_before(self, eng, st, fr, bi, v, vecs, L, recs):
        if any(x is L for x in v.a[2:]):
            return
        n = eng.rel(st, INT(0), eng.length(L))
        if n == frozenset("="):
            return
        what = "an earlier record" if recs else "a previous delta"
        parts = {}
        for x in vecs:
            for p in x.a[1]:
                if p.op == "each" and L in self.ctx.expand(p.a[0]):
                    parts.setdefault(p.a[0], []).append(p)
        if not parts:
            self.bad("%s is forgotten: nothing is made of the previous list" % what, fr, bi, show(v, 3))
            return
        for B, ps in parts.items():
            e = el(B)
            rels = self.rels(e, [])
            paths = [mk("fld", e, a, var, i) for a, var, i in self.path]
            s0 = st.copy()
            eng.instantiate(s0, B)
            todo = [(s0, ())]
            for p in ps:
                nxt = []
                for s, vals in todo:
                    for conds, vs in p.a[1]:
                        s2 = s.copy()
                        if eng.add_conds(s2, conds) is not False:
                            nxt.append((s2, vals + vs))
                todo = nxt
            for s, vals in todo:
                eng.instantiate(s, B)
                if eng.has(s, "nothing"):
                    continue
                if recs:
                    good = e in vals or any(eng.has(s, "acct", p) for p in paths)
                else:
                    good = any(y in rels for x in vals for y in self.rels(x, [])) or any(self.record(x, rels) for x in vals) or \
                        any(self.is_path(p, rels) for (p,) in marks(s, "acct"))
                if good:
                    self.ok("%s is listed, recorded or accounted for" % what, fr, bi)
                else:
                    self.bad("%s may be forgotten" % what, fr, bi, show(L, 4))

    def finish(self, eng, exits):
        self.expect("there is no earlier state")
        self.expect("the previous snapshot is recorded")
        self.expect("a previous delta is listed, recorded or accounted for")
        self.expect("an earlier record is listed, recorded or accounted for")
