"""C14, C16, C18, C19: what rsync clients get to see."""
from common import *
import models
from publish import Switch
from clean import Aged, linear, is_now


def same_value(t):
    """The value of which t is another notation."""
    while app_is(t, "hyphenated", "as_hyphenated", "simple", "as_simple", "urn", "as_urn", "to_string", "clone", "display", "lossy"):
        t = t.a[1]
    return t


def revname(ctx, t):
    """The (session, serial) a directory name is made of: only if different
    sessions and serials give different names."""
    xs = ctx.expand(t)
    if len(xs) == 1:
        t = next(iter(xs))
    if t.op != "cat":
        return None
    ses = ser = None
    for x in t.a:
        if x.op == "str":
            if "/" in x.a[0]:
                return None
        elif app_is(x, "display") and ses is None:
            ses = same_value(x.a[1])
        elif app_is(x, "dec") and ser is None:
            ser = x.a[1]
        else:
            return None
    return (ses, ser) if ses is not None and ser is not None else None


class Rsync(Switch):
    """Follows the new revision: ('below', e, D) the object e was written in
    full below the directory D, ('complete', D, reader) every object of the
    snapshot was, ('link', L, N) the symbolic link L refers to N, ('notcur',)
    'current' does not refer to the announced revision."""
    attrs = ("holds", "link")

    def rsync_path(self, p):
        """(root, name of the directory of the revision, names below it)"""
        root, rels = self.ctx.parts(p)
        if self.ctx.is_cfg(root, "rsync_dir"):
            return root, rels[0] if rels else None, rels[1:]
        return None

    def rev_dirs(self, p):
        """All a path below the rsync directory may be."""
        out = []
        for x in self.ctx.expand(p):
            r, rels = self.ctx.parts(x)
            for y in self.ctx.expand(r):
                y, more = self.ctx.parts(y)
                if self.ctx.is_cfg(y, "rsync_dir"):
                    n = (more + rels)
                    out.append((y, n[0] if n else None, n[1:]))
        return out

    def dir_of(self, p):
        d = self.rsync_path(p)
        if d is None or d[1] is None:
            return None
        return models.join_path(d[0], d[1])

    def new_revision(self, n):
        r = revname(self.ctx, n)
        return r is not None and announced(self.ctx, r[0], "session_id") and announced(self.ctx, r[1], "serial")

    def object_of(self, d):
        """The object whose bytes these are."""
        if app_is(d, "readall") and app_is(d.a[1], "objdata"):
            return d.a[1].a[1]
        return None

    options = ("rsync_disable", "rsync_include_host", "rsync_dir_force_moves")

    def option(self, st, name):
        """What is known of an option here. (Part of the monitor's state, so
        that states which differ in it are kept apart.)"""
        return dict(st.ps).get(name)

    def moves(self, st):
        return self.option(st, "rsync_dir_force_moves") is True

    def target(self, eng, L, n):
        """The directory which a link in the rsync directory refers to."""
        if "RSYNC" in self.ctx.kinds(n):
            return n
        d = self.rsync_path(L)
        return models.join_path(d[0], n) if d is not None else None

    def event(self, eng, st, fr, bi, ev):
        r = Switch.event(self, eng, st, fr, bi, ev)
        k = ev[0]
        if k == "WRITE" and ev[1]:
            e = self.object_of(ev[3])
            D = self.dir_of(ev[2])
            if e is not None and D is not None:
                eng.must(st, "below", e, D)
        elif k == "PROCESSED" and ev[1]:
            f = st.facts.get(("forall", ev[3], frozenset()), ())
            if NOTHING in f:
                eng.must(st, "complete", STR("any"), ev[2])
            for kk, v in f:
                if isinstance(kk, tuple) and kk[:2] == ("m", "below") and v is True and kk[2] is el(ev[3]):
                    eng.must(st, "complete", kk[3], ev[2])
        elif k == "SYMLINK" and ev[1]:
            eng.must(st, "link", ev[3], ev[2])
        elif k == "READ_LINK" and not ev[1] and "CURRENT" in self.ctx.kinds(ev[2]):
            eng.must(st, "notcur")
        elif k == "RENAME" and ev[1] and "CURRENT" in self.ctx.kinds(ev[3]):
            for (n,) in list(marks(st, "link", ev[3])):
                self.switched(eng, st, fr, bi, self.target(eng, ev[3], n))
            if self.moves(st):
                self.switched(eng, st, fr, bi, ev[2])
        return r

    def switched(self, eng, st, fr, bi, D):
        for x, reader in list(marks(st, "complete")):
            if (x is D or x is STR("any")) and reader.op == "file":
                eng.must(st, "shown", D, reader.a[0])

    def on_fact(self, eng, st, k, v):
        if isinstance(k, T) and self.ctx.is_cfg(k, *self.options):
            o = dict(st.ps)
            o[self.ctx.cfgfields[k.a[3]]] = v
            st.ps = tuple(sorted(o.items()))
        if isinstance(k, tuple) and k[0] == "ord":
            for a, b in ((k[1], k[2]), (k[2], k[1])):
                if app_is(a, "linktarget") and any("CURRENT" in self.ctx.kinds(x) for x in a.a[1].a[1:] if isinstance(x, T)):
                    n = b if b.op != "join" else b.a[-1]
                    if not self.new_revision(n):
                        continue
                    if "=" not in v:
                        eng.must(st, "notcur")
                    elif v == frozenset("="):
                        eng.must(st, "iscur", n)


class C16(Rsync):
    """Every operation below the rsync directory is enumerated over all paths
    of a run. 'current' may only be the target of the rename of a symbolic
    link, in the same directory, which refers to a directory below which every
    object of the processed snapshot is known to have been written; only the
    directory named after the announced session and serial is written to, and
    only where 'current' is known not to refer to it; the temporary link is
    created only where it is known to be absent."""

    def event(self, eng, st, fr, bi, ev):
        k = ev[0]
        ctx = self.ctx
        if k in CHANGES and ev[1]:
            if k == "RENAME" and "CURRENT" in ctx.kinds(ev[3]):
                self.switch_current(eng, st, fr, bi, ev[2], ev[3])
                for d in self.rev_dirs(ev[2]):
                    if not self.new_revision(d[1]) and not self.constant(d[1]):
                        self.bad("another directory than the new revision's is moved", fr, bi, show(ev[2], 6))
            elif k == "RENAME" and "CURRENT" in ctx.kinds(ev[2]) and self.moves(st):
                pass
            elif k != "REMOVE_DIR_ALL" or "CURRENT" in ctx.kinds(ev[2]):
                for p in changed_paths(ev):
                    ks = ctx.kinds(p)
                    if "CURRENT" in ks:
                        if k in ("CREATE_DIR_ALL",):
                            continue
                        self.bad("'current' is changed other than by a rename onto it (%s)" % k, fr, bi, show(p, 6))
                    elif "RSYNC" in ks:
                        self.below(eng, st, fr, bi, k, p)
            if k == "SYMLINK" and self.rsync_path(ev[3]) is not None:
                if eng.has(st, "absent", ev[3]):
                    self.ok("the temporary link is absent when it is created", fr, bi)
                else:
                    self.bad("a left-over link may prevent the creation of the new one", fr, bi, show(ev[3], 6))
                drop_marks(st, "absent", ev[3])
        if k in ("LSTAT", "QUERY", "READ_LINK"):
            p = ev[2]
            if "RSYNC" in ctx.kinds(p) and (k == "LSTAT" or k == "READ_LINK" or ev[1] in ("symlink_exists", "is_symlink")):
                d = self.rsync_path(p)
                if d is not None and d[1] is not None and self.constant(d[1]):
                    if k == "LSTAT":
                        if ev[1]:
                            eng.must(st, "leftover", p)
                        else:
                            eng.must(st, "absent", p)
        elif k in ("REMOVE_FILE", "RENAME") and ev[1]:
            drop_marks(st, "leftover", ev[2])
            if self.rsync_path(ev[2]) is not None:
                eng.must(st, "absent", ev[2])
        elif k == "NEWERR":
            if any(True for x in marks(st, "leftover")):
                self.bad("a left-over link makes the run fail", fr, bi, "")
        return Rsync.event(self, eng, st, fr, bi, ev)

    def on_fact(self, eng, st, k, v):
        Rsync.on_fact(self, eng, st, k, v)
        x = not_found(k, v)
        if x is not None and self.rsync_path(x[1]) is not None:
            eng.must(st, "absent", x[1])

    def constant(self, n):
        if n is None:
            return False
        if n.op == "str":
            return n.a[0] not in ("current", ".", "..")
        if n.op == "extname":
            return n.a[0].op == "str" and n.a[1].op == "str"
        return n.op == "cat" and all(x.op == "str" for x in n.a)

    def below(self, eng, st, fr, bi, k, p):
        for root, n, more in self.rev_dirs(p):
            if n is None:
                if k in ("CREATE_DIR", "CREATE_DIR_ALL", "SET_PERM"):
                    continue
                self.bad("the rsync directory itself is changed (%s)" % k, fr, bi, show(p, 6))
            elif self.constant(n):
                continue
            elif not self.new_revision(n):
                self.bad("a directory is changed which is not named after the new session and serial (%s)" % k, fr, bi, show(p, 8))
            elif eng.has(st, "notcur"):
                self.ok("only the new revision is written to, and it is not current", fr, bi)
            else:
                self.bad("a revision is changed which may be current (%s)" % k, fr, bi, show(p, 6))

    def switch_current(self, eng, st, fr, bi, a, b):
        ls = [x[0] for x in marks(st, "link", a)]
        if ls:
            if not same_parent(a, b):
                self.bad("the new link is renamed from another directory", fr, bi, "%s -> %s" % (show(a), show(b)))
            ds = [self.target(eng, a, n) for n in ls]
        elif self.moves(st):
            ds = [a]
        else:
            self.bad("'current' is not replaced by a new symbolic link", fr, bi, show(a, 6))
            return
        for D in ds:
            if D is None or not any(x is D or x is STR("any") for x, r in marks(st, "complete")):
                self.bad("'current' is switched to a directory which is not known to hold every object", fr, bi, show(D, 6) if D is not None else "?")
            else:
                self.ok("'current' is switched to a complete revision", fr, bi)

    def finish(self, eng, exits):
        self.expect("'current' is switched to a complete revision", 2)
        self.expect("only the new revision is written to, and it is not current")
        self.expect("the temporary link is absent when it is created")


def same_parent(a, b):
    from publish import same_dir
    return same_dir(a, b)


class C18(Rsync):
    """For every write below the rsync directory: the data must be all the
    bytes of one object, the path the revision's directory followed by the
    path of that same object's URI, preceded by its host and module exactly if
    the option is set. Where the snapshot has been processed, each object must
    be known to have been written, and a file written is not changed again.
    A time stamp is set on the file of the object it is computed from."""

    def event(self, eng, st, fr, bi, ev):
        k = ev[0]
        ctx = self.ctx
        if k in CHANGES and ev[1]:
            for i in CHANGES[k]:
                p = ev[i] if i < len(ev) else None
                if p is None or "RSYNC" not in ctx.kinds(p) or "CURRENT" in ctx.kinds(p):
                    continue
                for root, n, more in self.rev_dirs(p):
                    if n is not None and self.new_revision(n):
                        self.change(eng, st, fr, bi, k, ev, p, i, more)
        r = Rsync.event(self, eng, st, fr, bi, ev)
        if k == "PROCESSED" and ev[1] and not self.ours(fr):
            pass
        elif k == "PROCESSED" and ev[1]:
            if any(x[1] is ev[2] for x in marks(st, "complete")):
                self.ok("each object of the snapshot is written", fr, bi)
            else:
                self.bad("an object of the snapshot may be left out", fr, bi, show(ev[2], 6))
        elif k == "FAIL" and ev[1] == "PROCESS" and self.ours(fr):
            self.seen["a broken snapshot makes the run fail"] = 1
            eng.must(st, "broken")
        elif k == "FAIL" and ev[1] == "WRITE" and "RSYNC" in ctx.kinds(ev[2][0]):
            eng.must(st, "broken")
        return r

    def ours(self, fr):
        return not any(summary.is_validation(f.body.key) for f in fr.chain() if not f.body.path.startswith("synth"))

    def change(self, eng, st, fr, bi, k, ev, p, i, more):
        if k in ("CREATE_DIR", "CREATE_DIR_ALL", "SET_PERM"):
            return
        if not more:
            if k == "RENAME" and i == 2:
                return      # the directory itself (C16)
            self.bad("the directory of the new revision is changed (%s)" % k, fr, bi, show(p, 6))
            return
        if k == "CREATE":
            if any(True for x in marks(st, "holds", p)):
                self.bad("a file of the new revision is emptied", fr, bi, show(p, 6))
            return
        if k == "WRITE":
            e = self.object_of(ev[3])
            if e is None:
                self.bad("a file of the new revision does not hold exactly the bytes of an object", fr, bi, show(ev[3], 6))
                return
            self.ok("a file of the new revision holds the bytes of an object", fr, bi)
            self.place(eng, st, fr, bi, e, more, p)
            return
        if k == "SET_MTIME":
            ds = [x[0] for x in marks(st, "holds", p)]
            es = {self.object_of(d) for d in ds}
            for x in self.leaves(ev[3]):
                fine = es and None not in es and any(self.object_of(y) is not None for y in subterms(x)) and \
                    not any(app_is(y, "now") for y in subterms(x))
                if fine:
                    self.ok("a time stamp is derived from the object", fr, bi)
                else:
                    self.bad("a time stamp is not derived from the object", fr, bi, show(x, 12))
            return
        self.bad("a file of the new revision is changed by other than writing the object (%s)" % k, fr, bi, show(p, 6))

    def leaves(self, t, depth=0):
        """The terms a value may be computed from where flows join."""
        xs = self.ctx.expand(t)
        if xs != frozenset([t]):
            out = set()
            for x in xs:
                out |= self.leaves(x, depth + 1)
            return out
        if t.op == "app" and depth < 12:
            for i in range(1, len(t.a)):
                if isinstance(t.a[i], T):
                    ys = self.leaves(t.a[i], depth + 1)
                    if ys != {t.a[i]}:
                        out = set()
                        for y in ys:
                            out |= self.leaves(app(t.a[0], *(t.a[1:i] + (y,) + t.a[i + 1:])), depth + 1)
                        return out
        return {t}

    def place(self, eng, st, fr, bi, e, more, p):
        u = app("objuri", e)
        inc = self.option(st, "rsync_include_host")
        short_ = [("path", u)]
        long_ = [("authority", u), ("module_name", u), ("path", u)]
        want = {True: [long_], False: [short_], None: []}[inc]
        got = segments(self.ctx, more)
        if inc is None:
            # the option decides where flows join: every alternative is tried
            alts = [segments(self.ctx, [x] + more[1:]) for x in self.ctx.expand(more[0])]
            if alts and all(a in (short_, long_) for a in alts):
                self.ok("an object is written at the path of its URI", fr, bi)
                return
        if got in want:
            self.ok("an object is written at the path of its URI", fr, bi)
        else:
            self.bad("an object is not written at the path of its URI", fr, bi, show(p, 8))

    def finish(self, eng, exits):
        for st, ret in exits:
            if exit_ok(ret) and eng.has(st, "broken"):
                self.viol["a run succeeds although the rsync tree could not be written @ exit"] = {"rule": "exit", "where": "main", "span": "", "text": ""}
        for w in ("a file of the new revision holds the bytes of an object", "an object is written at the path of its URI",
                  "each object of the snapshot is written", "a time stamp is derived from the object"):
            self.expect(w)


def segments(ctx, more):
    """Names below a directory as parts of a URI; None for anything else."""
    out = []
    for m in more:
        xs = ctx.expand(m)
        m = next(iter(xs)) if len(xs) == 1 else m
        ps = m.a if m.op == "cat" else (m,)
        sep = True
        for x in ps:
            if x.op == "str":
                if x.a[0] != "/":
                    return None
                sep = True
                continue
            if not sep:
                return None
            sep = False
            x = same_value(x)
            if not app_is(x, "path", "authority", "module_name"):
                return None
            out.append((short(x.a[0]), x.a[1]))
        if ps and ps[-1].op == "str":
            return None
    return out


class C14(Rsync):
    """At every operation on a path below a revision's directory: its names
    must be made of the (checked) path of an object's URI, or of its host and
    module where both are known to be neither '.' nor '..'."""

    def event(self, eng, st, fr, bi, ev):
        if ev[0] in CHANGES or ev[0] in ("OPEN", "READ_DIR"):
            for i in CHANGES.get(ev[0], (2,)):
                p = ev[i] if i < len(ev) else None
                if isinstance(p, T) and self.ctx.kinds(p) & {"RSYNC", "DIR:RSYNC", "CURRENT"}:
                    self.check_path(eng, st, fr, bi, p)
                elif isinstance(p, T) and any(app_is(x, "objuri") for x in subterms(p)) or isinstance(p, T) and any(
                        app_is(y, "objuri") for x in subterms(p) if x.op == "phi" for z in self.ctx.expand(x) for y in subterms(z)):
                    self.bad("an object is placed outside the rsync directory", fr, bi, show(p, 6))
        return Rsync.event(self, eng, st, fr, bi, ev)

    def check_path(self, eng, st, fr, bi, p):
        p0 = p
        while p.op in ("parent", "anc"):
            p = p.a[0]
        for root, n, more in self.rev_dirs(p):
            for m in more:
                for x in self.ctx.expand(m):
                    ps = x.a if x.op == "cat" else (x,)
                    for y in ps:
                        y = same_value(y)
                        if y.op == "str":
                            if ".." in y.a[0].split("/") or y.a[0].startswith("/") and y is ps[0]:
                                self.bad("a constant leads out of the revision's directory", fr, bi, show(p0, 6))
                        elif app_is(y, "path") and app_is(y.a[1], "objuri"):
                            self.ok("the path of an object's URI has been checked", fr, bi)
                        elif app_is(y, "authority", "module_name") and app_is(y.a[1], "objuri"):
                            self.segment(eng, st, fr, bi, y, p0)
                        else:
                            self.bad("an object's file is named after something which has not been checked", fr, bi, show(y, 6))

    def segment(self, eng, st, fr, bi, y, p):
        for d in (".", ".."):
            r = eng.rel(st, y, STR(d))
            if "=" in r:
                self.bad("the %s of an object's URI may be '%s'" % (short(y.a[0]), d), fr, bi, show(p, 6))
                return
        self.ok("host and module of an object's URI have been checked", fr, bi)

    def finish(self, eng, exits):
        self.expect("the path of an object's URI has been checked")


class C19(Rsync):
    """Where the notification file is replaced: if the option does not
    disable rsync, 'current' must be known to have been switched to, or to
    refer to, the directory named after the listed session and serial, made
    from the very file listed as the snapshot, and the rsync state saved;
    where the option disables rsync nothing in the rsync directory or its
    state may be changed."""

    def event(self, eng, st, fr, bi, ev):
        k = ev[0]
        if k in CHANGES:
            for p in changed_paths(ev):
                if self.ctx.kinds(p) & {"RSYNC", "CURRENT", "SSTATE"}:
                    if self.disabled(st) is False:
                        self.ok("rsync is changed only if it is enabled", fr, bi)
                    else:
                        self.bad("something is changed for rsync without the option being known to be off (%s)" % k, fr, bi, show(p, 6))
        r = Rsync.event(self, eng, st, fr, bi, ev)
        if k == "RENAME" and ev[1] and "SSTATE" in self.ctx.kinds(ev[3]):
            for (d,) in list(marks(st, "holds", ev[3])):
                v = saved_json(d)
                if v is not None:
                    for x in self.ctx.expand(v):
                        if x.op == "adt":
                            self.saved_rev(eng, st, x)
        return r

    def saved_rev(self, eng, st, x):
        for y in x.a[2:]:
            if y.op == "adt" and y.a[0] == OPTION and y.a[1] == 1:
                for z in self.ctx.expand(y.a[2]):
                    if z.op == "adt":
                        ps = [q for q in z.a[2:]]
                        ses = [q for q in ps if announced(self.ctx, q, "session_id")]
                        ser = [q for q in ps if announced(self.ctx, q, "serial")]
                        if ses and ser:
                            eng.must(st, "stated", ses[0], ser[0])

    def disabled(self, st):
        return self.option(st, "rsync_disable")

    def head(self, eng, st, fr, bi, session, serial, target):
        dis = self.disabled(st)
        if dis is True:
            return
        if dis is None:
            self.bad("the notification file is replaced whether or not rsync is enabled", fr, bi, "")
            return
        got = [(D, q) for D, q in marks(st, "shown")]
        cur = [n for (n,) in marks(st, "iscur")]
        names = [(self.rsync_path(D), q) for D, q in got]
        good = False
        for d, q in names:
            n = revname(self.ctx, d[1]) if d is not None and d[1] is not None else None
            if n is not None and self.same(eng, st, n[0], session) and self.same(eng, st, n[1], serial):
                good = True
                self.files = getattr(self, "files", None)
        for n in cur:
            n = revname(self.ctx, n)
            if n is not None and self.same(eng, st, n[0], session) and self.same(eng, st, n[1], serial):
                good = True
        if not good:
            self.bad("the notification file is replaced although 'current' may not show its session and serial", fr, bi, show(session, 4))
        elif not any(self.same(eng, st, a, session) and self.same(eng, st, b, serial) for a, b in marks(st, "stated")):
            self.bad("the notification file is replaced although the state of the rsync directory was not saved", fr, bi, "")
        else:
            self.ok("'current' shows the session and serial of the notification file", fr, bi)

    def same(self, eng, st, a, b):
        return a is b or eng.rel(st, a, b) == frozenset("=")

    def fresh_entry(self, eng, st, fr, bi, what, info, ub, rel, hash, dserial, session, serial, base):
        if what != "snapshot" or self.disabled(st) is not False:
            return
        q = models.join_path(base, rel) if base is not None else None
        qs = [x for D, x in marks(st, "shown")]
        if not qs and any(True for x in marks(st, "iscur")):
            return          # an earlier run was interrupted after the switch
        if q is not None and any(x is q for x in qs):
            self.ok("'current' was made from the listed snapshot", fr, bi)
        else:
            self.bad("'current' was made from another file than the listed snapshot", fr, bi, "%s / %s" % (show(q, 6) if q is not None else "?", [show(x, 6) for x in qs]))

    def kept_entry(self, eng, st, fr, bi, what, *a):
        if what == "snapshot":
            self.bad("an earlier snapshot is listed", fr, bi, "")

    def finish(self, eng, exits):
        self.expect("'current' shows the session and serial of the notification file")
        self.expect("'current' was made from the listed snapshot")
        self.expect("rsync is changed only if it is enabled")


class C17(Rsync, Aged):
    """Every removal below the rsync directory is enumerated over all paths
    of a run: after the switch, of a directory named after the session and
    serial of a record whose stamp (always made by the clock when the record
    is made) is known to be old enough, and which is known to differ from the
    new revision. Where the state is saved, the previous current revision and
    each earlier record are followed: each must be recorded, be known to be
    the new revision, or be old enough with its directory gone; and no record
    may be for the new revision."""

    def __init__(self, ctx):
        Rsync.__init__(self, ctx)
        self.nostate = set()
        # fields of the saved revisions, records and of the state
        self.revf, self.recs, self.lists, self.cur = {}, {}, set(), set()
        for (a, var, i), vs in ctx.saved.items():
            for what in ("session_id", "serial"):
                if any(announced(ctx, o, what) for v in vs for o in ctx.origins(v)):
                    self.revf.setdefault((a, var), {})[what] = i
        self.revf = {k: v for k, v in self.revf.items() if len(v) == 2}
        for (a, var, i), vs in ctx.saved.items():
            for v in vs:
                for x in ctx.expand(v):
                    if self.is_rev(x) and any(k[0] == a and any(is_now(y) for w in ws for y in subterms(w)) for k, ws in ctx.saved.items() if k[2] != i):
                        self.recs[(a, var)] = i
        for (a, var, i), vs in ctx.saved.items():
            for v in vs:
                for x in ctx.expand(v):
                    if x.op == "vec" and any(y.op == "adt" and y.a[:2] in self.recs for p in x.a[1] for z in part_values(p) for y in ctx.expand(z)):
                        self.lists.add((a, var, i))
                    elif x.op == "adt" and x.a[0] == OPTION and x.a[1] == 1 and any(self.is_rev(y) for y in ctx.expand(x.a[2])):
                        self.cur.add((a, var, i))
        self.cur = {k for k in self.cur if any(k[:2] == l[:2] for l in self.lists)}

    def shape(self, eng, st):
        """States in which the lists of records were made differently are
        kept apart."""
        out = []
        for r in sorted(st.mem, key=str):
            x = self.ones(st.mem[r])
            if x:
                out.append((r, x))
        return tuple(out)

    _ones = {}

    def ones(self, v, depth=0):
        """The single records in the vectors of a value."""
        r = self._ones.get((v, id(self)))
        if r is None:
            out = []
            if v.op == "vec":
                out = [p.a[0] for p in v.a[1] if p.op == "one" and p.a[0].op == "adt" and p.a[0].a[:2] in self.recs]
            elif v.op in ("adt", "tup") and depth < 4:
                for i, x in enumerate(v.a):
                    y = self.ones(x, depth + 1) if isinstance(x, T) else ()
                    if y:
                        out.append((i, y))
            elif v.op == "iter":
                out = [p[0].a[0] for p in v.a[0] if p[0].op == "one" and p[0].a[0].op == "adt" and p[0].a[0].a[:2] in self.recs]
            r = self._ones[(v, id(self))] = tuple(out)
        return r

    def is_rev(self, x):
        if x.op == "adt":
            return x.a[:2] in self.revf
        if x.op == "fld" and self.ctx.is_saved(x):
            return any(self.is_rev(y) for y in self.ctx.saved.get((x.a[1], x.a[2], x.a[3]), ()) if y is not x and y.op == "adt")
        return False

    # what is known of revisions

    def rev_part(self, t):
        """(revision, what) if t is a part of an earlier revision."""
        if t.op == "fld" and self.ctx.is_saved(t):
            f = self.revf.get(t.a[1:3])
            if f:
                for what, i in f.items():
                    if i == t.a[3]:
                        return t.a[0], what
        return None

    def on_fact(self, eng, st, k, v):
        Rsync.on_fact(self, eng, st, k, v)
        if isinstance(k, T):
            if v is False and k in self.nostate:
                self.put(st, "state", "none")
            elif v is False and app_is(k, "q:exists", "q:try_exists", "q:is_dir", "q:symlink_exists") and "RSYNC" in self.ctx.kinds(k.a[1]):
                self.gone(eng, st, k.a[1])
            return
        x = not_found(k, v)
        if x is not None and "RSYNC" in self.ctx.kinds(x[1]):
            self.gone(eng, st, x[1])
        if k[0] == "var" and v == frozenset([0]) and k[1].op == "fld" and k[1].a[1:4] in self.cur and self.ctx.is_saved(k[1]):
            self.put(st, "prev", "none")
        self.on_known(eng, st, k, v)

    def put(self, st, name, val):
        o = dict(st.ps)
        o[name] = val
        st.ps = tuple(sorted(o.items()))

    def on_known(self, eng, st, k, v):
        if k[0] != "ord":
            return
        for a, b in ((k[1], k[2]), (k[2], k[1])):
            p = self.rev_part(a)
            if p is not None and announced(self.ctx, b, p[1]):
                E = p[0]
                if "=" not in v:
                    eng.must(st, "other", E)
                    rel = "other"
                elif v == frozenset("="):
                    eng.must(st, "same", E, p[1])
                    rel = "same" if all(eng.has(st, "same", E, w) for w in ("session_id", "serial")) else None
                else:
                    rel = None
                if rel and self.prev(E):
                    self.put(st, "prev", rel)
        d = linear(k[1])
        linear(k[2], -1, d)
        cl = [a for a in d if self.ctx.is_cfg(a, "cleanup_after")]
        if len(d) != 3 or len(cl) != 1 or d[cl[0]] not in (1, -1):
            return
        c = d[cl[0]]
        now = [a for a in d if is_now(a) and d[a] == -c]
        X = [a for a in d if a is not cl[0] and d[a] == c]
        if len(now) != 1 or len(X) != 1:
            return
        r = v if c == -1 else frozenset({"<": ">", ">": "<", "=": "="}[x] for x in v)
        for E in self.revs_of(st, X[0]):
            if r <= frozenset("=>"):
                if self.stamped_now(X[0]):
                    eng.must(st, "old", E, now[0])
                if eng.has(st, "gone", E) or eng.has(st, "cleaned", E, now[0]):
                    eng.must(st, "acct", E)
                    eng.must(st, "cleaned", E, now[0])
            elif r == frozenset("<"):
                eng.must(st, "cleaned", E, now[0])

    def prev(self, E):
        """Is this the revision which was current before?"""
        return E.op == "fld" and E.a[1] == OPTION and E.a[0].op == "fld" and E.a[0].a[1:4] in self.cur

    def revs_of(self, st, X):
        """The revisions of the records with the stamp X."""
        out = set()
        x = X
        while x.op == "fld":
            x = x.a[0]
            if x.op in ("el", "wit"):
                for (a, var), i in self.recs.items():
                    out.add(mk("fld", x, a, var, i))

        def go(v):
            if isinstance(v, T):
                if X not in subterms(v):
                    return
                if v.op == "adt" and v.a[:2] in self.recs:
                    out.add(v.a[2 + self.recs[v.a[:2]]])
                for y in v.a:
                    go(y)
            elif isinstance(v, (tuple, frozenset)):
                for y in v:
                    go(y)
        for r, v in st.mem.items():
            go(v)
        return out

    def rev_of_dir(self, p):
        """The earlier revision whose directory a path is."""
        for root, n, more in self.rev_dirs(p):
            r = revname(self.ctx, n) if n is not None and not more else None
            if r is None:
                return None
            a, b = self.rev_part(r[0]), self.rev_part(r[1])
            if a is None or b is None or a[0] is not b[0] or (a[1], b[1]) != ("session_id", "serial"):
                return None
            return a[0]
        return None

    def gone(self, eng, st, p):
        E = self.rev_of_dir(p)
        if E is None:
            return
        eng.must(st, "gone", E)
        for (n,) in list(marks(st, "old", E)):
            eng.must(st, "acct", E)
            eng.must(st, "cleaned", E, n)

    # events

    def event(self, eng, st, fr, bi, ev):
        k = ev[0]
        ctx = self.ctx
        if k == "QUERY" and "SSTATE" in ctx.kinds(ev[2]) and ev[1] in ("exists", "is_file", "try_exists"):
            self.nostate.add(ev[3])
        elif k == "REMOVE_DIR_ALL" and "RSYNC" in ctx.kinds(ev[2]) and ev[1]:
            self.removed(eng, st, fr, bi, ev[2])
            self.gone(eng, st, ev[2])
        elif k in ("REMOVE_FILE", "REMOVE_DIR", "REMOVE_DIR_ALL") and ev[1]:
            for d in self.rev_dirs(ev[2]):
                if d[2] or k == "REMOVE_DIR_ALL":
                    self.bad("something below the rsync directory is removed other than a revision as a whole", fr, bi, show(ev[2], 6))
        elif k == "WRITE" and ev[1]:
            v = saved_json(ev[3])
            if v is not None:
                for x in ctx.expand(v):
                    if x.op == "adt" and any(x.a[:2] == l[:2] for l in self.lists):
                        self.saving(eng, st, fr, bi, x)
        return Rsync.event(self, eng, st, fr, bi, ev)

    def removed(self, eng, st, fr, bi, p):
        E = self.rev_of_dir(p)
        if E is None:
            self.bad("a directory is removed which is not that of a recorded revision", fr, bi, show(p, 7))
            return
        if not any(True for x in marks(st, "shown")) and not any(True for x in marks(st, "iscur")):
            self.bad("a revision is removed before 'current' is known to refer to the new one", fr, bi, show(p, 7))
        if not eng.has(st, "other", E):
            self.bad("a revision is removed which may be the new one", fr, bi, show(p, 7))
        else:
            self.ok("a removed revision is not the current one", fr, bi)
        if any(True for x in marks(st, "old", E)):
            self.ok("the record of a removed revision is old enough", fr, bi)
        else:
            self.bad("a revision is removed without its record being known to be old enough", fr, bi, show(p, 7))

    # what is saved

    def same_rev(self, y, e):
        return y is e or y.op == "adt" and all(x.op == "fld" and x.a[0] is e and x.a[3] == i for i, x in enumerate(y.a[2:]))

    def record(self, y, e):
        """A record made in this run for the revision e."""
        if y.op != "adt" or y.a[:2] not in self.recs:
            return False
        i = self.recs[y.a[:2]]
        return self.same_rev(y.a[2 + i], e) and any(is_now(z) for j, x in enumerate(y.a[2:]) if j != i for z in subterms(x))

    def equal_new(self, eng, st, e):
        for (a, var), f in self.revf.items():
            if all(eng.has(st, "same", e, w) for w in f):
                return True
        return False

    def saving(self, eng, st, fr, bi, v):
        for a, var, i in self.cur:
            c = v.a[2 + i]
            good = c.op == "adt" and c.a[0] == OPTION and c.a[1] == 1 and c.a[2].op == "adt" and \
                all(announced(self.ctx, c.a[2].a[2 + j], w) for w, j in self.revf.get(c.a[2].a[:2], {"": 0}).items())
            if good:
                self.ok("the new revision is saved as the current one", fr, bi)
            else:
                self.bad("another revision than the new one is saved as the current one", fr, bi, show(c, 5))
        opts = dict(st.ps)
        if opts.get("state") == "none":
            self.ok("there is no earlier state", fr, bi)
            return
        Js = set()
        for x in list(subterms(v)) + [y for k in st.facts for y in allsubs(k)]:
            if x.op == "app" and x.a[0] == "fromjson" and x.a[1].op == "app" and x.a[1].a[0] == "content" and self.ctx.kinds(x.a[1].a[1]) == frozenset(["SSTATE"]):
                Js.add(x)
        if not Js:
            self.bad("the earlier state is not taken into account when it is saved", fr, bi, show(v, 3))
        for J in Js:
            for a, var, i in self.cur:
                self.prev_saved(eng, st, fr, bi, v, mk("fld", J, a, var, i), opts)
            for a, var, i in self.lists:
                self.list_saved(eng, st, fr, bi, v, mk("fld", J, a, var, i))
        for a, var, i in self.lists:
            self.none_current(eng, st, fr, bi, v.a[2 + i])

    def prev_saved(self, eng, st, fr, bi, v, o, opts):
        if opts.get("prev") in ("none", "same") or st.facts.get(("var", o)) == frozenset([0]):
            self.ok("there was no other current revision", fr, bi)
            return
        e = proj(o, OPTION, 1, 0)
        for a, var, i in self.lists:
            x = v.a[2 + i]
            if x.op == "vec":
                for p in x.a[1]:
                    if p.op == "one" and self.record(p.a[0], e) or \
                            p.op == "each" and p.a[1] and all(vals and any(self.record(y, e) for y in vals) or
                                                              self.kept_out(eng, st, p.a[0], c, e) for c, vals in p.a[1]):
                        self.ok("the previous revision is recorded", fr, bi)
                        return
        if eng.has(st, "acct", e):
            self.ok("the previous revision is recorded", fr, bi)
        else:
            self.bad("the previous revision is not recorded", fr, bi, show(v, 3))

    def kept_out(self, eng, st, base, conds, e):
        """Under these conditions the record made for e has gone again."""
        s = st.copy()
        if eng.add_conds(s, conds) is False:
            return True
        eng.instantiate(s, base)
        return eng.has(s, "nothing") or eng.has(s, "acct", e)

    def list_saved(self, eng, st, fr, bi, v, L):
        if any(x is L for x in v.a[2:]):
            return
        if eng.rel(st, INT(0), eng.length(L)) == frozenset("="):
            return
        ps = {}
        for a, var, i in self.lists:
            x = v.a[2 + i]
            if x.op == "vec":
                for p in x.a[1]:
                    if p.op == "each" and L in self.ctx.expand(p.a[0]):
                        ps.setdefault(p.a[0], []).append(p)
        if not ps:
            self.bad("the earlier records are forgotten", fr, bi, show(v, 3))
            return
        for B, parts in ps.items():
            e = el(B)
            revs = [mk("fld", e, a, var, i) for (a, var), i in self.recs.items()]
            s0 = st.copy()
            eng.instantiate(s0, B)
            todo = [(s0, ())]
            for p in parts:
                nxt = []
                for s, vals in todo:
                    for conds, vs in p.a[1]:
                        s2 = s.copy()
                        if eng.add_conds(s2, conds) is not False:
                            nxt.append((s2, vals + vs))
                todo = nxt
            for s, vals in todo:
                eng.instantiate(s, B)
                if eng.has(s, "nothing"):
                    continue
                if any(self.same_rev(y, e) for y in vals) or any(eng.has(s, "acct", r) or self.equal_new(eng, s, r) for r in revs):
                    self.ok("an earlier record is kept or accounted for", fr, bi)
                else:
                    self.bad("an earlier record may be forgotten", fr, bi, show(L, 4))

    def none_current(self, eng, st, fr, bi, x):
        if x.op != "vec":
            if not self.ctx.is_saved(x):
                self.bad("the saved records are not known", fr, bi, show(x, 4))
            else:
                self.bad("the new revision may still be recorded as superseded", fr, bi, show(x, 4))
            return
        for p in x.a[1]:
            todo = []
            if p.op == "one":
                todo = [(st, p.a[0])]
            elif p.op == "each":
                for conds, vals in p.a[1]:
                    for y in vals:
                        s = st.copy()
                        if eng.add_conds(s, conds) is False:
                            continue
                        eng.instantiate(s, p.a[0])
                        if not eng.has(s, "nothing"):
                            todo.append((s, y))
            else:
                todo = [(st, y) for y in part_values(p)]
            for s, y in todo:
                if y.op == "adt" and y.a[:2] in self.recs:
                    r = [y.a[2 + self.recs[y.a[:2]]]]
                    if not any(is_now(z) for w in y.a[2:] for z in subterms(w)):
                        self.bad("a record is not stamped with the time at which it is made", fr, bi, show(y, 5))
                else:
                    r = [mk("fld", y, a, var, i) for (a, var), i in self.recs.items()]
                for q in list(r):
                    if q.op == "adt" and len(q.a) > 2 and all(z.op == "fld" and z.a[0] is q.a[2].a[0] for z in q.a[2:]):
                        r.append(q.a[2].a[0])
                if any(eng.has(s, "other", q) for q in r):
                    self.ok("the new revision is not recorded as superseded", fr, bi)
                else:
                    self.bad("the new revision may be recorded as superseded", fr, bi, show(y, 5))

    def finish(self, eng, exits):
        for w in ("a removed revision is not the current one", "the record of a removed revision is old enough", "there is no earlier state",
                  "the previous revision is recorded", "an earlier record is kept or accounted for", "the new revision is not recorded as superseded",
                  "the new revision is saved as the current one"):
            self.expect(w)
