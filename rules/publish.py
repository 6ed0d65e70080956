"""C01–C04, C10, C11: how files reach the public directory and the state."""
from common import *

SNAP_PARSE = "Snapshot>::parse"
DELTA_PARSE = "Delta>::parse"


def same_dir(a, b):
    """Are two path terms certainly in the same directory?"""
    if a.op == "withext":
        return same_dir(a.a[0], b)
    if b.op == "withext":
        return same_dir(a, b.a[0])
    if a is b:
        return True
    if a.op == "join" and b.op == "join" and a.a[0] is b.a[0]:
        x, y = a.a[1], b.a[1]
        return sibling(x, y)
    return False


def sibling(x, y):
    """Names which differ only in constant text without a separator."""
    if x is y:
        return True
    if x.op == "withext":
        return sibling(x.a[0], y)
    if y.op == "withext":
        return sibling(x, y.a[0])
    xs = x.a if x.op == "cat" else (x,)
    ys = y.a if y.op == "cat" else (y,)
    rx = [q for q in xs if not single(q)]
    ry = [q for q in ys if not single(q)]
    return rx == ry and all(single(q) for q in xs + ys if q.op == "str")


class C01(Files):
    """Notification file: replaced by rename of a complete new version only."""

    def event(self, eng, st, fr, bi, ev):
        k = ev[0]
        ctx = self.ctx
        if k == "RENAME":
            a, b = ev[2], ev[3]
            if "NOTIF" in ctx.kinds(a):
                self.bad("the notification file is moved away", fr, bi, show(a))
            if "NOTIF" in ctx.kinds(b):
                data = [x[0] for x in marks(st, "holds", a)]
                if not any(nf_parts(d) for d in data):
                    self.bad("the notification file is replaced by a file that is not known to be a complete new notification file", fr, bi, show(a))
                elif not same_dir(a, b):
                    self.bad("the new notification file is renamed from another directory", fr, bi, "%s -> %s" % (show(a), show(b)))
                elif ev[1]:
                    self.ok("rename of a complete new notification file onto the public one", fr, bi)
            elif "PUB" in ctx.kinds(b):
                self.other(eng, st, fr, bi, k, b)
        elif k in CHANGES and k not in ("WRITE", "CREATE_DIR", "CREATE_DIR_ALL"):
            for p in changed_paths(ev):
                ks = ctx.kinds(p)
                if "NOTIF" in ks:
                    self.bad("%s on the public notification file" % k, fr, bi, show(p))
                elif "PUB" in ks:
                    self.other(eng, st, fr, bi, k, p)
                elif "DIR:PUB" in ks or "DIR:NOTIF" in ks:
                    if k == "REMOVE_DIR_ALL":
                        self.bad("a public directory is removed with its content", fr, bi, show(p))
        return Files.event(self, eng, st, fr, bi, ev)

    def other(self, eng, st, fr, bi, k, p):
        """A file other than the notification file: must differ from it."""
        for x in self.ctx.expand(p):
            if x is p and p.op == "phi":
                continue
            root, rels = self.ctx.parts(x)
            if self.ctx.is_saved(root) or any(self.ctx.is_saved(r) for r in self.ctx.expand(root)):
                if not rels:
                    continue        # a path recorded by an earlier run
            if not rels:
                if k == "REMOVE_DIR_ALL":
                    self.bad("the public directory is removed", fr, bi, show(p))
                continue
            if len(rels) != 1:
                continue
            r = rels[0]
            src = [o for o in self.ctx.expand(r) if app_is(o, "stripped") and not self.ctx.is_cfg(o.a[1], "notification_uri")]
            if not src:
                continue
            n = self.name_term(st, root)
            if n is None or "=" in eng.rel(st, r, n):
                self.bad("a file named by the source may take the place of the notification file (%s)" % k, fr, bi, show(p))
            else:
                self.ok("a file named by the source is never the notification file", fr, bi)

    def name_term(self, st, root):
        """A term for the notification file's name which facts talk about."""
        for k in st.facts:
            if isinstance(k, tuple) and k[0] == "ord":
                for x in (k[1], k[2]):
                    if x.op != "int" and self.ctx.is_notif_name(x):
                        return x
        return None

    def finish(self, eng, exits):
        self.expect("rename of a complete new notification file onto the public one")
        self.expect("a file named by the source is never the notification file")


class Switch(Files):
    """Base of the rules about what the new notification file lists."""
    kept_needs = True

    def event(self, eng, st, fr, bi, ev):
        if ev[0] in ("RENAME", "COPY", "HARDLINK", "SYMLINK") and ev[1] and "NOTIF" in self.ctx.kinds(ev[3]):
            self.switch(eng, st, fr, bi, ev[2], ev[3])
        elif ev[0] == "WRITE" and ev[1] and "NOTIF" in self.ctx.kinds(ev[2]):
            self.data(eng, st, fr, bi, ev[3], ev[2])
        return Files.event(self, eng, st, fr, bi, ev)

    def switch(self, eng, st, fr, bi, a, b):
        ds = [x[0] for x in marks(st, "holds", a) if nf_parts(x[0])]
        if not ds:
            self.bad("what the new notification file lists is not known", fr, bi, show(a))
            return
        for d in ds:
            self.data(eng, st, fr, bi, d, b)

    def data(self, eng, st, fr, bi, d, target):
        p = nf_parts(d)
        if p is None:
            self.bad("what the new notification file lists is not known", fr, bi, show(d, 3))
            return
        session, serial, snap, deltas = p
        self.head(eng, st, fr, bi, session, serial, target)
        base = target.a[0] if target.op == "join" else None
        if app_is(snap, "new") and len(snap.a) == 3:
            self.listed_file(eng, st, fr, bi, "snapshot", snap.a[1], snap.a[2], None, session, serial, base)
        else:
            self.bad("the snapshot listed in the new notification file is not known", fr, bi, show(snap, 4))
        for v in self.alternatives(deltas):
            if v.op != "vec":
                self.bad("the deltas listed in the new notification file are not known", fr, bi, show(v, 4))
                continue
            for part in v.a[1]:
                self.part(eng, st, fr, bi, part, session, serial, base)

    def alternatives(self, v):
        return self.ctx.expand(v)

    def part(self, eng, st, fr, bi, part, session, serial, base):
        if part.op == "one":
            todo = [(st, part.a[0])]
        elif part.op == "each":
            todo = []
            for conds, vals in part.a[1]:
                for v in vals:
                    s = st.copy()
                    if eng.add_conds(s, conds) is False:
                        continue
                    eng.instantiate(s, part.a[0])
                    todo.append((s, v))
        elif part.op == "many":
            todo = [(st, v) for v in part.a[0]]
        else:
            self.bad("a delta listed in the new notification file is not known", fr, bi, show(part, 4))
            return
        for s, v in todo:
            if app_is(v, "new") and "DeltaInfo" in v.a[0]:
                self.listed_file(eng, s, fr, bi, "delta", v.a[2], v.a[3], v.a[1], session, serial, base)
            else:
                self.bad("a delta listed in the new notification file is not known", fr, bi, show(v, 4))

    def listed_file(self, eng, st, fr, bi, what, uri, hash, dserial, session, serial, base):
        """One listed file: the URI is taken apart, then looked up."""
        ub, rel = self.split_uri(uri)
        if rel is None:
            self.bad("the URI of a listed %s is not derived from its file" % what, fr, bi, show(uri, 5))
            return
        info = self.info_of(rel)
        if info is not None:
            self.fresh_entry(eng, st, fr, bi, what, info, ub, rel, hash, dserial, session, serial, base)
            return
        e = self.saved_entry(rel)
        if e is not None:
            self.kept_entry(eng, st, fr, bi, what, e, ub, rel, hash, dserial, session, serial, base)
            return
        self.bad("a listed %s is neither one staged in this run nor one in the saved state" % what, fr, bi, show(rel, 5))

    def split_uri(self, uri):
        """The base and the relative path a listed URI is made of."""
        u = uri.a[1] if uri.op == "app" and uri.a[0] == "ok" else uri
        if app_is(u, "join"):
            ub, rel = u.a[1], u.a[2]
            if app_is(rel, "as_bytes"):
                rel = rel.a[1]
            return ub, rel
        if u.op == "join":
            return u.a[0], u.a[1]
        if app_is(u, "uri"):
            # the source's own URI
            return None, app("stripped", u, mk("any"))
        return None, None

    def info_of(self, rel):
        """The announced item a relative path was derived from."""
        if app_is(rel, "stripped") and app_is(rel.a[1], "uri"):
            return rel.a[1].a[1]
        return None

    def saved_entry(self, rel):
        if rel.op == "fld":
            for x in self.ctx.expand(rel):
                if self.ctx.is_saved(x) or (x.op == "fld" and self.ctx.is_saved(x)):
                    return rel.a[0]
        return None

    def head(self, eng, st, fr, bi, session, serial, target):
        pass

    def fresh_entry(self, *a):
        pass

    def kept_entry(self, *a):
        pass

    def file_of(self, eng, st, base, rel):
        """Does the state know the file at base/rel? Its contents."""
        p = models.join_path(base, rel) if base is not None else None
        if p is None:
            return None, []
        return p, [x[0] for x in marks(st, "holds", p)]

    def field_role(self, e, t):
        """Which part of the announced item a saved field holds."""
        if not (t.op == "fld" and t.a[0] is e):
            return None
        roles = set()
        for v in self.ctx.saved.get((t.a[1], t.a[2], t.a[3]), ()):
            for o in self.ctx.origins(v):
                if app_is(o, "serial", "hash"):
                    roles.add(short(o.a[0]))
                elif app_is(o, "stripped") and app_is(o.a[1], "uri"):
                    roles.add("path")
                else:
                    roles.add("?")
        return roles.pop() if len(roles) == 1 else None


class C02(Switch):
    def head(self, eng, st, fr, bi, session, serial, target):
        if target.op != "join":
            self.bad("the directory of the notification file is not known", fr, bi, show(target))

    def gen(self, t):
        return "saved" if all(self.ctx.is_saved(x) for x in self.ctx.expand(t)) else "config"

    def bases(self, fr, bi, ub, base, what):
        """URI base and directory must belong together."""
        if ub is None or base is None:
            self.bad("the URI of a listed %s is not below the published base" % what, fr, bi, "%s" % (ub,))
            return
        if self.gen(ub) != self.gen(base):
            self.bad("a listed %s is announced from one configuration and placed by another" % what, fr, bi, "%s | %s" % (show(ub), show(base)))
            return
        for o in self.ctx.origins(ub):
            x = o.a[0] if o.op == "fld" and o.a[1] == OPTION else o
            if not (x.op in ("app", "parent") and "parent" in (x.op, short(x.a[0]) if x.op == "app" else "") and self.ctx.is_cfg(x.a[-1], "notification_uri")):
                self.bad("a listed %s is announced below a base which is not that of the notification file" % what, fr, bi, show(o))
                return
        for o in self.ctx.origins(base):
            if not self.ctx.is_cfg(o, "rrdp_dir"):
                self.bad("a listed %s is placed below another directory than the RRDP directory" % what, fr, bi, show(o))
                return
        self.ok("the listed %s is announced and placed from the same base" % what, fr, bi)

    def fresh_entry(self, eng, st, fr, bi, what, info, ub, rel, hash, dserial, session, serial, base):
        p, ds = self.file_of(eng, st, base, rel)
        if p is None or not (ds or eng.has(st, "exists", p)):
            self.bad("a listed %s is not known to be in place before the notification file is switched" % what, fr, bi, show(rel, 6))
        else:
            self.ok("a new %s is in place when it is listed" % what, fr, bi)
        self.bases(fr, bi, ub, base, what)

    def kept_entry(self, eng, st, fr, bi, what, e, ub, rel, hash, dserial, session, serial, base):
        if self.field_role(e, rel) != "path":
            self.bad("a listed %s does not have the path it was placed at" % what, fr, bi, show(rel, 6))
        else:
            self.ok("a %s kept from the saved state is listed at the path it was placed at" % what, fr, bi)
        self.bases(fr, bi, ub, base, what)

    def finish(self, eng, exits):
        self.expect("a new snapshot is in place when it is listed")
        self.expect("a new delta is in place when it is listed")
        self.expect("a delta kept from the saved state is listed at the path it was placed at")


class C03(Switch):
    """Hash of every file published and listed."""
    attrs = ("holds", "checked")

    def event(self, eng, st, fr, bi, ev):
        if ev[0] in ("RENAME", "COPY", "HARDLINK") and ev[1]:
            a, b = ev[2], ev[3]
            ks = self.ctx.kinds(b)
            if "PUB" in ks and "NOTIF" not in ks:
                self.place(eng, st, fr, bi, a, b)
        elif ev[0] == "WRITE" and ev[1]:
            ks = self.ctx.kinds(ev[2])
            if "PUB" in ks and "NOTIF" not in ks and nf_parts(ev[3]) is None:
                if not self.matching(eng, st, ev[3], None):
                    self.bad("data is put in the public directory without comparing its hash", fr, bi, show(ev[2], 6))
        r = Switch.event(self, eng, st, fr, bi, ev)
        if ev[0] in ("WRITE", "READ") and ev[1] and isinstance(ev[2], T):
            for (d,) in list(marks(st, "holds", ev[2])):
                for h in self.hashes(st, d):
                    eng.must(st, "checked", ev[2], h)
        return r

    def on_fact(self, eng, st, k, v):
        if v is True and isinstance(k, T) and app_is(k, "matches"):
            for p, d in list(marks(st, "holds")):
                if d is k.a[2]:
                    eng.must(st, "checked", p, k.a[1])

    def hashes(self, st, d):
        return [k.a[1] for k, v in st.facts.items() if v is True and isinstance(k, T) and app_is(k, "matches") and k.a[2] is d]

    def matching(self, eng, st, d, h):
        for k, v in st.facts.items():
            if v is True and isinstance(k, T) and app_is(k, "matches") and k.a[2] is d and (h is None or k.a[1] is h):
                return k.a[1]
        if h is not None and eng.known(st, app("rpki::rrdp::Hash::matches", h, d)) is True:
            return h
        return None

    def place(self, eng, st, fr, bi, a, b):
        if any(marks(st, "checked", a)):
            self.ok("a file is moved to the public directory after its hash was checked", fr, bi)
            return
        self.bad("a file is moved to the public directory without a check of its hash", fr, bi, show(b, 6))

    def head(self, eng, st, fr, bi, session, serial, target):
        for what, t in (("session_id", session), ("serial", serial)):
            if not announced(self.ctx, t, what):
                self.bad("the new notification file does not carry the announced %s" % what, fr, bi, show(t, 6))
            else:
                self.ok("the announced %s is carried over" % what, fr, bi)

    def listed(self, t):
        """Is an item one the source's notification file lists?"""
        if app_is(t, "snapshot"):
            return True
        if t.op == "el" and (app_is(t.a[0], "deltas") or (app_is(t.a[0], "retained") and app_is(t.a[0].a[1], "deltas"))):
            return True
        return False

    def fresh_entry(self, eng, st, fr, bi, what, info, ub, rel, hash, dserial, session, serial, base):
        if not self.listed(info) or (what == "snapshot") != app_is(info, "snapshot"):
            self.bad("a listed %s is not one announced by the source" % what, fr, bi, show(info, 5))
            return
        if not (app_is(hash, "hash") and hash.a[1] is info):
            self.bad("a listed %s does not have its announced hash" % what, fr, bi, show(hash, 5))
            return
        if dserial is not None and not (app_is(dserial, "serial") and dserial.a[1] is info):
            self.bad("a listed delta does not have its announced serial", fr, bi, show(dserial, 5))
            return
        p, ds = self.file_of(eng, st, base, rel)
        if p is not None and eng.has(st, "checked", p, hash):
            self.ok("a new %s is listed with the hash its file was compared with" % what, fr, bi)
        else:
            self.bad("a listed %s was not compared with its announced hash" % what, fr, bi, show(rel, 6))

    def kept_entry(self, eng, st, fr, bi, what, e, ub, rel, hash, dserial, session, serial, base):
        if self.field_role(e, rel) != "path" or self.field_role(e, hash) != "hash" or \
                (dserial is not None and self.field_role(e, dserial) != "serial"):
            self.bad("a kept %s is not listed with its own URI, hash and serial" % what, fr, bi, show(rel, 6))
        else:
            self.ok("a kept %s is listed with its own URI, hash and serial" % what, fr, bi)

    def finish(self, eng, exits):
        self.expect("a new snapshot is listed with the hash its file was compared with")
        self.expect("a new delta is listed with the hash its file was compared with")
        self.expect("a file is moved to the public directory after its hash was checked", 2)
        self.expect("a kept delta is listed with its own URI, hash and serial")


class C04(Switch):
    """Every listed new file was parsed as what it is announced to be."""

    def fresh_entry(self, eng, st, fr, bi, what, info, ub, rel, hash, dserial, session, serial, base):
        p, ds = self.file_of(eng, st, base, rel)
        want = "Snapshot" if what == "snapshot" else "Delta"
        own = serial if what == "snapshot" else dserial
        why = "no parse of it"
        for d in ds:
            for k, v in st.facts.items():
                if v is True and isinstance(k, T) and app_is(k, "parse") and k.a[1] is d and ("rrdp::%s>::parse" % want in k.a[0] or "rrdp::%s::parse" % want in k.a[0]):
                    o = app("ok", k)
                    if eng.rel(st, self.attr(st, "session_id", o, want), session) != frozenset("="):
                        why = "its session was not compared"
                    elif eng.rel(st, self.attr(st, "serial", o, want), own) != frozenset("="):
                        why = "its serial was not compared"
                    else:
                        self.ok("a new %s was parsed and has the announced session and serial" % what, fr, bi)
                        return
        self.bad("a listed %s was not parsed with the announced session and serial" % what, fr, bi, "%s: %s" % (why, show(rel, 6)))

    def attr(self, st, name, o, want):
        """The accessor term of a parsed file which the facts mention."""
        for k in st.facts:
            if isinstance(k, tuple) and k[0] == "ord":
                for x in (k[1], k[2]):
                    if app_is(x, name) and x.a[1] is o:
                        return x
        return mk("none", o)

    def finish(self, eng, exits):
        self.expect("a new snapshot was parsed and has the announced session and serial")
        self.expect("a new delta was parsed and has the announced session and serial")


class C11(Files):
    """Saved state: replaced by rename of a complete new version only."""

    def event(self, eng, st, fr, bi, ev):
        k = ev[0]
        ctx = self.ctx
        if k == "RENAME":
            a, b = ev[2], ev[3]
            if ctx.kinds(a) & {"RSTATE", "SSTATE"}:
                self.bad("saved state is moved away", fr, bi, show(a))
            for w, n in (("RSTATE", "RRDP"), ("SSTATE", "rsync")):
                if w in ctx.kinds(b):
                    data = [x[0] for x in marks(st, "holds", a)]
                    if not any(saved_json(d) for d in data):
                        self.bad("saved %s state is replaced by a file that is not known to be a complete new version" % n, fr, bi, show(a))
                    elif not same_dir(a, b):
                        self.bad("saved %s state is renamed from another directory" % n, fr, bi, "%s -> %s" % (show(a), show(b)))
                    elif ev[1]:
                        self.ok("rename of a complete new version onto the saved %s state" % n, fr, bi)
        elif k in CHANGES and k not in ("CREATE_DIR", "CREATE_DIR_ALL"):
            for p in changed_paths(ev):
                if ctx.kinds(p) & {"RSTATE", "SSTATE"}:
                    self.bad("%s on saved state" % k, fr, bi, show(p))
        return Files.event(self, eng, st, fr, bi, ev)

    def finish(self, eng, exits):
        self.expect("rename of a complete new version onto the saved RRDP state")
        self.expect("rename of a complete new version onto the saved rsync state")


class C34(Rule):
    """Where the notification file is replaced: the configured delay must be
    known to be zero, or a sleep of exactly the configured number of seconds
    must lie between the last file placed in the RRDP directory and the
    replacement, on every path."""

    def configured(self, t):
        return self.ctx.is_cfg(t, "rrdp_notify_delay")

    def whole_delay(self, d):
        """Is this duration (at least) the configured number of seconds?"""
        if app_is(d, "from_secs") and self.configured(d.a[1]):
            return True
        if app_is(d, "new") and "Duration" in d.a[0]:
            return self.configured(d.a[1])
        if app_is(d, "from_millis", "from_micros", "from_nanos"):
            n = {"from_millis": 1000, "from_micros": 10 ** 6, "from_nanos": 10 ** 9}[short(d.a[0])]
            x = d.a[1]
            parts = x.a[1:] if x.op == "app" else x.a
            return any(isinstance(p, T) and self.configured(p) for p in parts) and any(isinstance(p, T) and p.op == "int" and p.a[0] == n for p in parts)
        return False

    def one_second(self, d):
        return app_is(d, "from_secs") and d.a[1].op == "int" and d.a[1].a[0] == 1

    def seconds(self, base):
        return isinstance(base, T) and base.op == "adt" and base.a[0].endswith("::Range") and base.a[2].op == "int" and base.a[2].a[0] == 0 and self.configured(base.a[3])

    # ps: (waited, the path written since, the clock readings since the last
    # file was placed)

    def parts(self, st):
        return st.ps or (False, None, frozenset())

    def waited(self, eng, st, fr, bi):
        st.ps = (True,) + self.parts(st)[1:]
        self.ok("a wait for the configured number of seconds", fr, bi)

    def external(self, eng, st, fr, bi, f, args, t):
        if (f.get("path") or "").endswith(("Instant::now", "SystemTime::now")):
            w, late, clocks = self.parts(st)
            st.ps = (w, late, clocks | {mk("site", models.eng_site(fr, bi))})
        return None

    def reading(self, st, t):
        """Was the clock read for this term after the last file was placed?"""
        return any(x.op == "site" and x in self.parts(st)[2] for x in subterms(t))

    def on_fact(self, eng, st, k, v):
        if not (isinstance(k, tuple) and k[0] == "ord"):
            return
        for end, now, less in ((k[1], k[2], ">"), (k[2], k[1], "<")):
            if less in v:
                continue
            # end <= now
            if app_is(now, "elapsed") and self.reading(st, now) and self.whole_delay(end):
                pass
            elif app_is(now, "duration_since", "bin:Sub", "sub") and self.reading(st, now.a[-1]) and self.whole_delay(end):
                pass
            elif end.op == "app" and short(end.a[0]) in ("bin:Add", "add") and len(end.a) == 3 and self.whole_delay(end.a[2]) and self.reading(st, end.a[1]) \
                    and any(x.op == "site" for x in subterms(now)):
                pass
            else:
                continue
            st.ps = (True,) + self.parts(st)[1:]
            self.oblig.setdefault(("a wait for the configured number of seconds", "clock"), "discharged")
            self.seen["a wait for the configured number of seconds"] = 1

    def closed(self, eng, st, base, done, recs):
        # once round the loop for each second
        if done and recs and self.seconds(base):
            if all(any(isinstance(x[0], tuple) and x[0][:2] == ("m", "second") for x in conds) for conds in recs.values()):
                st.ps = (True,) + self.parts(st)[1:]
                self.oblig.setdefault(("a wait for the configured number of seconds", "loop"), "discharged")
                self.seen["a wait for the configured number of seconds"] = 1

    def event(self, eng, st, fr, bi, ev):
        k = ev[0]
        if k == "SLEEP":
            if self.whole_delay(ev[1]):
                self.waited(eng, st, fr, bi)
            elif self.one_second(ev[1]):
                for x in st.its:
                    if self.seconds(x[2]):
                        eng.must(st, "second", el(x[2]))
            return None
        if k in ("WRITE", "CREATE", "RENAME", "COPY", "HARDLINK", "SYMLINK") and ev[1]:
            p = ev[2] if k in ("WRITE", "CREATE") else ev[3]
            ks = self.ctx.kinds(p)
            w, late, clocks = self.parts(st)
            if "NOTIF" in ks and not (k == "CREATE"):
                # (the new version of itself may be written after the delay)
                if w and late in (None, ev[2]):
                    self.ok("the notification file is replaced after the delay", fr, bi)
                elif self.zero(eng, st):
                    self.ok("the notification file is replaced at once if there is no delay", fr, bi)
                else:
                    self.bad("the notification file may be replaced before the delay has passed", fr, bi, show(p, 6))
            elif "PUB" in ks:
                self.seen["a file is placed before the delay"] = self.seen.get("a file is placed before the delay", 0) + 1
                st.ps = (True, p, frozenset()) if w and late in (None, p) else ()
                for m in [m for m in st.facts if isinstance(m, tuple) and m[:2] == ("m", "second")]:
                    del st.facts[m]
        return None

    def zero(self, eng, st):
        for k, v in st.facts.items():
            if isinstance(k, tuple) and k[0] == "ord":
                for a, b, less in ((k[1], k[2], "<"), (k[2], k[1], ">")):
                    if self.configured(a) and b.op == "int":
                        if b.a[0] == 0 and ">" not in self.flip(v, a is k[2]):
                            return True
                        if b.a[0] == 1 and self.flip(v, a is k[2]) <= frozenset("<"):
                            return True
            if isinstance(k, T) and v is True and app_is(k, "is_zero") and self.whole_delay(k.a[1]):
                return True
        return False

    def flip(self, v, f):
        return frozenset({"<": ">", ">": "<", "=": "="}[x] for x in v) if f else v

    def finish(self, eng, exits):
        self.expect("a file is placed before the delay", 2)
        self.expect("a wait for the configured number of seconds")
        self.expect("the notification file is replaced after the delay")
