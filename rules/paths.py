"""C13: names chosen by the source."""
from common import *
import models


class C13(Rule):
    """At every operation on a file (over all paths of a run) whose name is
    derived from the URI of a snapshot or delta: the name must be what follows
    a base which the URI is known to start with, each of its segments must be
    known to be neither empty nor '.' nor '..', and it must be appended to the
    staging directory, the public RRDP directory or the configured local
    source. The same is required of each such name where it is saved, which
    makes it hold for the names read back from the saved state."""
    ops = tuple(CHANGES) + ("OPEN", "READ", "READ_DIR", "LSTAT", "STAT", "QUERY", "READ_LINK", "COPY", "CANON")

    def event(self, eng, st, fr, bi, ev):
        k = ev[0]
        if k in self.ops:
            for p in ev[2:4] if k in ("RENAME", "COPY", "HARDLINK", "SYMLINK") else ev[2:3]:
                if isinstance(p, T):
                    self.path(eng, st, fr, bi, k, p)
        if k == "WRITE" and ev[1]:
            v = saved_json(ev[3])
            if v is not None:
                for x in self.ctx.expand(v):
                    self.save(eng, st, fr, bi, x, 0)
        return None

    def uris(self, t):
        """The announced URIs a term is derived from, other than by what a
        file holds."""
        todo, seen = [t], set()
        while todo:
            x = todo.pop()
            if x in seen or x.op == "file" or app_is(x, "content", "objects", "readall", "objdata", "fromjson", "parse"):
                continue
            seen.add(x)
            if app_is(x, "uri") and len(x.a) > 1:
                yield x
                continue
            for y in x.a:
                if isinstance(y, T):
                    todo.append(y)
                elif isinstance(y, tuple):
                    todo.extend(z for z in y if isinstance(z, T))

    def chosen(self, t):
        return any(True for x in self.uris(t))

    def kept_name(self, x):
        """A name read back from the saved state?"""
        return x.op == "fld" and self.ctx.is_saved(x) and any(self.chosen(o) for o in self.ctx.origins(x))

    def path(self, eng, st, fr, bi, k, p):
        while p.op in ("parent", "anc", "withext"):
            p = p.a[0]
        if p.op == "file":
            p = p.a[0]
        for x in self.alts(p):
            root, names = x
            hit = False
            for i, n in enumerate(names):
                r = self.name(eng, st, n)
                if r is None:
                    continue
                hit = True
                if r:
                    self.bad(r, fr, bi, show(p, 7))
                else:
                    self.ok("a name chosen by the source has been checked", fr, bi)
            if self.chosen(root):
                self.bad("a path chosen by the source is used as it is", fr, bi, show(p, 7))
            elif hit:
                ks = self.ctx.kinds(models.join_path(root, names[0])) if names[0].op == "str" else self.ctx.kinds(root)
                src = root.op == "fld" and any(self.ctx.is_cfg(y, "fetch_map", "source_uri_base") for y in subterms(root))
                if names[0].op == "str" and names[0].a[0] == STAGING and self.ctx.is_cfg(root, "state_dir") and len(names) > 1:
                    pass
                elif self.ctx.is_cfg(root, "rrdp_dir") or self.saved_root(root) or src:
                    pass
                else:
                    self.bad("a name chosen by the source is used elsewhere than in the staging, RRDP or source directory", fr, bi, show(p, 7))
                    continue
                self.ok("a name chosen by the source is used below a known directory", fr, bi)

    def saved_root(self, root):
        if not self.ctx.is_saved(root):
            return False
        os = self.ctx.origins(root)
        return bool(os) and all(self.ctx.is_cfg(o, "rrdp_dir") for o in os)

    def alts(self, p):
        out = []
        for x in self.ctx.expand(p):
            root, names = self.ctx.parts(x)
            for r in self.ctx.expand(root):
                r, more = self.ctx.parts(r)
                out.append((r, more + names))
        return out

    def name(self, eng, st, n):
        """None: not chosen by the source; '': checked; else what is wrong."""
        if n.op == "extname":
            return self.name(eng, st, n.a[0])
        if self.kept_name(n):
            return ""
        if n.op == "fld" or n.op == "phi":
            xs = self.ctx.expand(n)
            if xs != frozenset([n]):
                rs = [self.name(eng, st, x) for x in xs]
                rs = [r for r in rs if r is not None]
                return None if not rs else max(rs)
        if not self.chosen(n):
            return None
        if n.op == "cat":
            if all(x is n.a[0] or x.op == "str" and "/" not in x.a[0] for x in n.a):
                return self.name(eng, st, n.a[0])
            return "a name is made of one chosen by the source and others"
        if app_is(n, "display", "lossy", "to_string"):
            return self.name(eng, st, n.a[1])
        if not app_is(n, "stripped"):
            return "a URI chosen by the source is used as a name without being related to the base"
        u, b = n.a[1], n.a[2]
        if self.chosen(b):
            return "the base of a name is chosen by the source"
        if not any(v is True and isinstance(f, T) and app_is(f, "starts_with") and f.a[1] is u and f.a[2] is b for f, v in st.facts.items()):
            return "a URI chosen by the source may not start with the base"
        # (what follows another base, too, holds only these segments, or those
        # of the configured base: bases end in a slash, C29)
        for base, facts in self.segments(st, u, None if any(self.ctx.is_cfg(y, "fetch_map") for y in subterms(b)) else b):
            if all(any(self.excludes(kk, v, el(base), s) for kk, v in facts) for s in ("", ".", "..")):
                return ""
        return "a segment of a name chosen by the source may be empty, '.' or '..'"

    def segments(self, st, u, b):
        for k, v in st.facts.items():
            if isinstance(k, tuple) and k[0] == "forall" and not k[2] and app_is(k[1], "split") and k[1].a[2] in (INT(47), STR("/")):
                n = k[1].a[1]
                if app_is(n, "stripped") and n.a[1] is u and (n.a[2] is b or b is None and not self.chosen(n.a[2])):
                    yield k[1], v

    def excludes(self, k, v, e, s):
        if not (isinstance(k, tuple) and k[0] == "ord"):
            if k == ("const", e):
                return False
            return False
        for a, b in ((k[1], k[2]), (k[2], k[1])):
            if b is e and a.op == "str" and a.a[0] == s and "=" not in v:
                return True
            # an empty name by its length
            if s == "" and app_is(b, "len") and b.a[1] is e and a.op == "int" and a.a[0] == 0 and "=" not in v:
                return True
        return False

    def save(self, eng, st, fr, bi, x, depth):
        if depth > 8 or not isinstance(x, T):
            return
        if x.op == "vec":
            for p in x.a[1]:
                if p.op == "each":
                    for conds, vals in p.a[1]:
                        s = st.copy()
                        if eng.add_conds(s, conds) is False:
                            continue
                        eng.instantiate(s, p.a[0])
                        if eng.has(s, "nothing"):
                            continue
                        for y in vals:
                            self.save(eng, s, fr, bi, y, depth + 1)
                else:
                    for y in part_values(p):
                        self.save(eng, st, fr, bi, y, depth + 1)
        elif x.op in ("adt", "tup"):
            for y in x.a:
                self.save(eng, st, fr, bi, y, depth + 1)
        elif x.op == "sum":
            for var, pay in x.a[2]:
                for y in pay:
                    self.save(eng, st, fr, bi, y, depth + 1)
        elif x.op == "phi":
            for y in self.ctx.expand(x):
                if y is not x:
                    self.save(eng, st, fr, bi, y, depth + 1)
        elif app_is(x, "stripped") and self.chosen(x):
            r = self.name(eng, st, x)
            if r:
                self.bad(r + " (where it is saved)", fr, bi, show(x, 6))
            else:
                self.ok("a saved name has been checked", fr, bi)
        elif x.op == "join":
            for r, names in self.alts(x):
                for n in names:
                    w = self.name(eng, st, n)
                    if w:
                        self.bad(w + " (where it is saved)", fr, bi, show(x, 6))

    def finish(self, eng, exits):
        self.expect("a name chosen by the source has been checked", 4)
        self.expect("a name chosen by the source is used below a known directory", 4)
        self.expect("a saved name has been checked")
