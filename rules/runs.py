"""C05, C09, C10, C12, C15, C20, C21: the order and conditions of a run."""
from common import *
from publish import Switch, nf_parts


class Fresh(Switch):
    """Tracks how the announced session and serial compare with the saved
    ones: ps = (session, serial) with None for not compared; the mark 'fresh'
    where publishing is allowed."""

    def __init__(self, ctx):
        Switch.__init__(self, ctx)
        self.nostate = set()

    def event(self, eng, st, fr, bi, ev):
        if ev[0] == "QUERY" and "RSTATE" in self.ctx.kinds(ev[2]) and ev[1] in ("exists", "is_file", "try_exists"):
            self.nostate.add(ev[3])
        return Switch.event(self, eng, st, fr, bi, ev)

    def sess(self, st):
        return st.ps[0] if st.ps else None

    def ser(self, st):
        return st.ps[1] if st.ps else None

    def on_fact(self, eng, st, k, v):
        if isinstance(k, T):
            if v is False and k in self.nostate:
                st.ps = ("none", None) + tuple(st.ps[2:])
                self.none(eng, st)
            return
        if k[0] == "var" and v == frozenset([0]) and k[1].op == "fld" and holds_session(self.ctx, k[1]):
            st.ps = ("none", None) + tuple(st.ps[2:])
            self.none(eng, st)
            return
        c = compared(self.ctx, k, v)
        if c is None:
            return
        what, r = c
        se, sr = (st.ps or (None, None))[:2]
        if what == "session_id":
            se = "diff" if "=" not in r else "same" if r == frozenset("=") else se
        else:
            sr = {frozenset("<"): "newer", frozenset("="): "equal", frozenset(">"): "older", frozenset("<>"): "other",
                  frozenset("<="): "notolder", frozenset("=>"): "notnewer"}.get(r, sr)
        st.ps = (se, sr) + tuple(st.ps[2:])
        self.relation(eng, st, se, sr)

    def none(self, eng, st):
        eng.must(st, "fresh")

    def relation(self, eng, st, se, sr):
        pass


class C05(Fresh):
    """Publishing needs a higher serial, another session, or no earlier state."""

    def relation(self, eng, st, se, sr):
        if se == "diff" or sr == "newer":
            eng.must(st, "fresh")

    def event(self, eng, st, fr, bi, ev):
        k = ev[0]
        if k in CHANGES:
            for p in changed_paths(ev):
                if is_public(self.ctx.kinds(p)):
                    if eng.has(st, "fresh"):
                        self.ok("public effects need a higher serial, a new session or no earlier state", fr, bi)
                    else:
                        self.bad("something public is changed without a higher serial, a new session or no earlier state", fr, bi, "%s %s" % (k, show(p, 6)))
        elif k == "NEWERR" and self.ser(st) in ("older", "equal", "notnewer") and self.sess(st) not in ("same",):
            self.bad("the serial alone makes the run fail, also if the session is another one", fr, bi, str(st.ps))
        r = Fresh.event(self, eng, st, fr, bi, ev)
        if k in ("RENAME", "COPY", "HARDLINK", "WRITE") and ev[1] and "NOTIF" in self.ctx.kinds(ev[3] if k != "WRITE" else ev[2]):
            eng.must(st, "switched")
        return r

    def kept_entry(self, eng, st, fr, bi, what, e, ub, rel, hash, dserial, session, serial, base):
        if self.sess(st) == "diff":
            self.bad("a %s of the previous session is listed" % what, fr, bi, show(rel, 6))
        elif self.sess(st) not in ("same", "none"):
            # (a saved state without a snapshot has never been published)
            self.bad("a %s kept from the saved state is listed without comparing the session" % what, fr, bi, show(rel, 6))
        else:
            self.ok("%ss of the saved state are only kept in the same session" % what, fr, bi)

    def finish(self, eng, exits):
        for st, ret in exits:
            if not exit_ok(ret):
                continue
            if self.sess(st) == "diff" and not eng.has(st, "switched"):
                self.viol["a new session is not published @ exit"] = {"rule": "exit", "where": "main", "span": "", "text": str(st.ps)}
            if self.sess(st) == "same" and self.ser(st) in ("older",):
                self.viol["a lower serial does not make the run fail @ exit"] = {"rule": "exit", "where": "main", "span": "", "text": str(st.ps)}
            if self.sess(st) == "same" and self.ser(st) == "newer" and not eng.has(st, "switched"):
                self.viol["a higher serial is not published @ exit"] = {"rule": "exit", "where": "main", "span": "", "text": str(st.ps)}
        self.expect("public effects need a higher serial, a new session or no earlier state", 3)
        self.expect("deltas of the saved state are only kept in the same session")


class C15(Fresh):
    """No effects if the session and serial are those already published."""

    def relation(self, eng, st, se, sr):
        if se == "diff" or sr in ("newer", "older", "other"):
            eng.must(st, "fresh")

    def on_fact(self, eng, st, k, v):
        Fresh.on_fact(self, eng, st, k, v)
        if isinstance(k, tuple) and k[0] == "ord" and v == frozenset("="):
            for a, b in ((k[1], k[2]), (k[2], k[1])):
                if a.op == "int" and a.a[0] == 304 and any(app_is(x, "status") for x in subterms(b)) and not self.parsed(st):
                    st.ps = ("unmodified", None)

    def parsed(self, st):
        return any(v is True and isinstance(k, T) and app_is(k, "parse") and "NotificationFile" in k.a[0] for k, v in st.facts.items())

    def event(self, eng, st, fr, bi, ev):
        k = ev[0]
        if k in CHANGES:
            for p in changed_paths(ev):
                if is_public(self.ctx.kinds(p)):
                    if self.sess(st) == "unmodified":
                        self.bad("something public is changed although the source reports no change", fr, bi, "%s %s" % (k, show(p, 6)))
                    elif eng.has(st, "fresh"):
                        self.ok("public effects need a difference from what is published", fr, bi)
                    else:
                        self.bad("something public is changed without a difference from what is published", fr, bi, "%s %s" % (k, show(p, 6)))
        elif k == "NEWERR":
            if st.ps == ("same", "equal") or self.sess(st) == "unmodified":
                self.bad("a run which finds nothing new fails", fr, bi, str(st.ps))
        return Fresh.event(self, eng, st, fr, bi, ev)

    def finish(self, eng, exits):
        self.expect("public effects need a difference from what is published", 3)
        got = {st.ps for st, ret in exits if exit_ok(ret)}
        for ps, name in ((("same", "equal"), "an unchanged session and serial"), (("unmodified", None), "an unmodified source")):
            if ps in got:
                self.seen["success exit with " + name] = 1
                self.oblig[("success exit with " + name, "main")] = "discharged"
            else:
                self.viol["%s does not end the run successfully @ exit" % name] = {"rule": "exit", "where": "main", "span": "", "text": str(sorted(map(str, got)))}


# failures which have a documented fallback or no bearing on the output
TOLERATED_CALLS = ("decode", "from_utf8", "to_str")
TOLERATED_KINDS = ("STAT", "LSTAT", "READ_LINK", "CANON", "SET_MTIME")


class C09(Files):
    """A failing step fails the run and stops publication.

    ps: None, ('failed', what), or a failure whose fallback is under way:
    ('copy', a, b), ('unlink', a) or ('refetch', path)."""

    def event(self, eng, st, fr, bi, ev):
        k = ev[0]
        ps = st.ps
        if k == "FAIL":
            self.fail(eng, st, fr, bi, ev[1], ev[2], ev[3])
        elif k == "NEWERR":
            if not (ps and ps[0] == "failed"):
                st.ps = ("failed", "NEWERR", chain(fr))
        elif k == "NOERR":
            if ps and ps[:2] == ("failed", "NEWERR"):
                st.ps = None
        elif k == "EXIT":
            if ps and ev[1].op == "int" and ev[1].a[0] == 0:
                self.bad("the process reports success after a failure (%s)" % ps[1], fr, bi, str(ps))
            elif ps:
                self.ok("a failure ends in a non-zero exit", fr, bi)
        if k in CHANGES and (len(ev) < 2 or ev[1]):
            self.progress(eng, st, fr, bi, ev)
        return Files.event(self, eng, st, fr, bi, ev)

    def progress(self, eng, st, fr, bi, ev):
        k, ps = ev[0], st.ps
        if not ps:
            return
        if ps[0] == "copy" and k == "COPY" and ev[2] is ps[1] and ev[3] is ps[2]:
            st.ps = ("unlink", ps[1])
        elif ps[0] == "unlink" and k == "REMOVE_FILE" and ev[2] is ps[1]:
            st.ps = None
            self.ok("a failed rename is redone as copy and delete", fr, bi)
        elif ps[0] == "refetch" and k == "WRITE" and ev[2] is ps[1]:
            st.ps = None
            self.ok("an unusable staged file is fetched again", fr, bi)
        else:
            for p in changed_paths(ev):
                ks = self.ctx.kinds(p)
                if ks & {"NOTIF", "RSTATE"}:
                    self.bad("%s of %s after a failure (%s)" % (k, "the notification file" if "NOTIF" in ks else "the saved state", ps[1] if ps[0] == "failed" else ps[0]), fr, bi, str(ps)[:300])

    def fail(self, eng, st, fr, bi, kind, args, sym):
        if st.ps and st.ps[0] == "failed":
            return
        ctx = self.ctx
        new = ("failed", kind, chain(fr))
        if kind in TOLERATED_KINDS:
            return
        if kind == "CALL":
            if args and isinstance(args[0], T) and self.is_parent(args[0]):
                return
            if isinstance(sym, T) and app_is(sym, *TOLERATED_CALLS) and self.harmless(sym):
                return
            if isinstance(sym, T) and sym.op == "app":
                new = ("failed", short(sym.a[0]), chain(fr))
        if kind == "RENAME" and "STAGE" in ctx.kinds(args[0]) and not st.ps:
            new = ("copy", args[0], args[1])
        elif kind in ("OPEN", "READ") and args and isinstance(args[0], T) and not st.ps:
            p = args[0].a[0] if args[0].op == "file" else args[0]
            if ctx.kinds(p) == frozenset(["STAGE"]):
                new = ("refetch", p)
        elif kind in ("REMOVE_DIR", "REMOVE_FILE") and self.is_parent(args[0]):
            return
        st.ps = new

    def on_fact(self, eng, st, k, v):
        x = not_found(k, v)
        if x is not None and st.ps and st.ps[0] == "failed" and st.ps[1] == x[0]:
            # what is to be removed is not there
            st.ps = None

    def is_parent(self, p):
        alts = self.ctx.expand(p)
        if p not in alts:
            return bool(alts) and all(self.is_parent(x) for x in alts)
        return p.op in ("parent", "anc") or (p.op == "app" and p.a[0] in ("parent", "anc"))

    def harmless(self, sym):
        """Not a failure to get at the source's or the saved data."""
        return not any(app_is(x, "fromjson") and x is sym for x in subterms(sym))

    def rename(self, ps, m):
        if ps and ps[0] in ("copy", "unlink", "refetch"):
            return (ps[0],) + tuple(subst(x, m) if isinstance(x, T) else x for x in ps[1:])
        return ps

    def finish(self, eng, exits):
        for st, ret in exits:
            if st.ps and exit_ok(ret):
                key = "the process reports success after a failure (%s)" % (st.ps[1] if st.ps[0] == "failed" else st.ps[0])
                where = st.ps[2] if st.ps[0] == "failed" else "?"
                self.oblig[(key, where)] = "violated"
                self.viol["%s @ %s" % (key, where)] = {"rule": key, "where": where, "span": "", "text": str(st.ps)[:400]}
        self.expect("a failure ends in a non-zero exit")
        self.expect("a failed rename is redone as copy and delete")
        self.expect("an unusable staged file is fetched again")


class C10(Switch):
    """Saved state: only after the switch, and whenever there was one."""

    def event(self, eng, st, fr, bi, ev):
        k = ev[0]
        if k in ("RENAME", "COPY", "HARDLINK", "WRITE", "CREATE", "MODIFY"):
            target = ev[3] if k in ("RENAME", "COPY", "HARDLINK") else ev[2]
            ks = self.ctx.kinds(target)
            if "RSTATE" in ks:
                if not (st.ps and st.ps[0] != "start"):
                    self.bad("state is saved before the notification file is switched", fr, bi, show(target))
                else:
                    self.ok("state is saved after the switch", fr, bi)
                    if k == "RENAME" and ev[1]:
                        self.compare(eng, st, fr, bi, ev[2])
        r = Switch.event(self, eng, st, fr, bi, ev)
        if k in ("RENAME", "COPY", "HARDLINK", "WRITE") and ev[1]:
            target = ev[3] if k != "WRITE" else ev[2]
            ks = self.ctx.kinds(target)
            if "NOTIF" in ks:
                st.ps = ("switched",)
            elif "RSTATE" in ks and st.ps:
                st.ps = ("saved",)
        return r

    def data(self, eng, st, fr, bi, d, target):
        drop_marks(st, "published")
        eng.must(st, "published", d)

    def compare(self, eng, st, fr, bi, tmp):
        pub = [x[0] for x in marks(st, "published")]
        sav = [saved_json(x[0]) for x in marks(st, "holds", tmp)]
        sav = [x for x in sav if x is not None]
        if not pub or not sav:
            self.bad("what is saved is not known to be what was published", fr, bi, show(tmp))
            return
        session, serial, snap, deltas = nf_parts(pub[0])
        got = set()
        for v in self.flat(sav[0]):
            if v is session:
                got.add("session")
            if v is serial:
                got.add("serial")
            if app_is(snap, "new") and len(snap.a) == 3:
                if v is snap.a[2]:
                    got.add("hash")
                u = snap.a[1].a[1] if app_is(snap.a[1], "ok") else snap.a[1]
                if app_is(u, "join") and (v is u.a[2] or (app_is(u.a[2], "as_bytes") and v is u.a[2].a[1])):
                    got.add("path")
        for w in ("session", "serial", "hash", "path"):
            if w not in got:
                self.bad("the saved state does not have the %s of the published snapshot" % w, fr, bi, show(sav[0], 4))
        if not self.same_deltas(deltas, sav[0]):
            self.bad("the saved deltas are not the published ones", fr, bi, show(deltas, 5))
        if len(got) == 4:
            self.ok("what is saved is what was published", fr, bi)

    def flat(self, v, depth=0):
        """The values which make up the saved snapshot."""
        out = []
        for x in self.ctx.expand(v):
            out.append(x)
            if x.op == "adt" and depth < 6:
                for y in x.a[2:]:
                    out.extend(self.flat(y, depth + 1))
        return out

    def same_deltas(self, deltas, v):
        """Some vector in the saved state has the published deltas' bases."""
        want = self.bases(deltas)
        todo = [v]
        seen = set()
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == "vec" or x.op == "phi" or self.ctx.is_saved(x):
                if self.bases(x) == want:
                    return True
            if x.op == "adt":
                todo.extend(x.a[2:])
        return False

    def bases(self, v):
        """What the elements of a vector were made from."""
        if v.op == "vec":
            return tuple(p.a[0] if p.op == "each" else p for p in v.a[1])
        return (v,)

    def finish(self, eng, exits):
        for st, ret in exits:
            if exit_ok(ret) and st.ps and st.ps[0] == "switched":
                key = "a run succeeds without saving the state it published"
                self.viol[key + " @ exit"] = {"rule": key, "where": "main", "span": "", "text": str(st.ps)}
        self.expect("state is saved after the switch")
        self.expect("what is saved is what was published")


BEFORE_LOCK = ("QUERY", "CREATE_DIR", "CREATE_DIR_ALL", "LOCK_OPEN", "LOCK", "STAT", "FAIL", "NEWERR", "NOERR", "EXIT", "PANIC", "UNLOCK")


class C12(Rule):
    """Lock before everything, unlock after everything."""

    def event(self, eng, st, fr, bi, ev):
        k = ev[0]
        s = st.ps or "start"
        ctx = self.ctx
        if k in ("NEWERR", "NOERR", "FAIL", "PANIC", "SLEEP", "RECURSE"):
            return None
        if k == "LOCK":
            l = ev[2]
            p = l.a[1] if l.op == "app" and len(l.a) > 1 else l
            root, rels = ctx.parts(p)
            if not (ctx.is_cfg(root, "state_dir") and len(rels) == 1 and single(rels[0])):
                self.bad("the lock is not tied to the state directory alone", fr, bi, show(p))
            st.ps = "locked"
            return None
        if k == "UNLOCK":
            st.ps = "unlocked"
            return None
        if k == "EXIT":
            if ev[1].op == "int" and ev[1].a[0] == 0 and s == "start":
                self.bad("a run without the lock reports success", fr, bi, "")
            return None
        if s == "locked":
            self.ok("access under the lock", fr, bi)
            return None
        if s == "start":
            paths = [x for x in ev[1:] if isinstance(x, T)]
            if k in ("QUERY", "CREATE_DIR", "CREATE_DIR_ALL", "LOCK_OPEN", "STAT"):
                p = next((x for x in ev[2:] if isinstance(x, T)), None)
                if p is not None and ctx.kinds(p) <= {"STATEDIR", "STATEOTHER", "DIR:STATEOTHER"}:
                    return None
            self.bad("%s before the lock is held" % k, fr, bi, ", ".join(show(x, 4) for x in paths)[:300])
        else:
            self.bad("%s after the lock was released" % k, fr, bi, "")
        return None

    def finish(self, eng, exits):
        for st, ret in exits:
            if exit_ok(ret) and (st.ps or "start") == "start":
                self.viol["a run without the lock reports success @ exit"] = {"rule": "exit", "where": "main", "span": "", "text": ""}
        self.expect("access under the lock", 20)


class Gate(Rule):
    """Conditions before the first public effect of a run."""

    def public(self, eng, st, fr, bi, ev):
        k = ev[0]
        if k in CHANGES:
            for p in changed_paths(ev):
                if is_public(self.ctx.kinds(p)):
                    return p
        return None

    def cfg_true(self, eng, st, name):
        """Is a flag of the configuration known to be set / not set?"""
        for k, v in st.facts.items():
            if isinstance(k, T) and self.ctx.is_cfg(k, name):
                return v
        return None

    def empty_list(self, k, v, name):
        """A fact that a list of the configuration is empty."""
        if isinstance(k, tuple) and k[0] == "ord" and v == frozenset("="):
            for a, b in ((k[1], k[2]), (k[2], k[1])):
                if a.op == "int" and a.a[0] == 0 and app_is(b, "len") and self.ctx.is_cfg(b.a[1], name):
                    return True
        return False


def related(ctx, k):
    """A fact about an option of the configuration."""
    ts = [k] if isinstance(k, T) else [x for x in k[1:] if isinstance(x, T)]
    for x in ts:
        if x.op == "int":
            continue
        if app_is(x, "len"):
            x = x.a[1]
        if not (x.op == "fld" and x.a[1] == CONFIG):
            return False
    return True


class C20(Gate):
    """With rejection on, nothing public before a clean TAL validation."""

    # ps: (what is known of the validation, what an error would be about)

    def flag(self, st, f):
        st.ps = ((st.ps[0] if st.ps else frozenset()) | {f}, st.ps[1] if st.ps else None)

    def flagged(self, st, f):
        return bool(st.ps) and f in st.ps[0]

    def about(self, st, what):
        st.ps = (st.ps[0] if st.ps else frozenset(), what)

    def stub(self, eng, st, fr, bi, body, args, t):
        if summary.is_validation(body.key) and not summary.is_validation(fr.body.key) and not body.closure:
            rt = body.tys[body.locals[0][0]]
            if self.is_report(body, rt):
                self.validates(eng, st, fr, bi, body, args)
        return Gate.stub(self, eng, st, fr, bi, body, args, t)

    def is_report(self, body, rt):
        return rt["k"] == "adt" and rt["n"] == RESULT and "ValidationReport" in body.tys[rt["a"][0]].get("n", "")

    def validates(self, eng, st, fr, bi, body, args):
        """A validation starts: under which locators?"""
        if self.flagged(st, "notals"):
            self.bad("validation is done although no locators are configured", fr, bi, body.path)
        v = models.deref(eng, st, args[0])
        good = bool(self.ctx.expand(v))
        why = ""
        for x in self.ctx.expand(v):
            r = self.under_all(eng, st, x)
            if r is not True:
                good = False
                why = r
        if good:
            self.ok("validation is under all configured locators", fr, bi)
            self.flag(st, "validated")
        else:
            self.bad("validation is not known to be under all configured locators", fr, bi, why)

    def under_all(self, eng, st, x):
        if app_is(x, "initialise_staging_data", "validate") or (x.op == "app" and x.a[0].startswith("changed:")):
            for y in self.ctx.expand(x.a[1]):
                r = self.under_all(eng, st, y)
                if r is not True:
                    return r
            return True
        if x.op == "fld" and self.ctx.is_saved(x):
            # a validator kept from an earlier run
            for k, v in st.facts.items():
                if v is True and isinstance(k, T) and app_is(k, "equivalent"):
                    a, b = k.a[1], k.a[2]
                    for p, q in ((a, b), (b, a)):
                        if p is x and self.all_tals(q):
                            return True
            if self.flagged(st, "equiv"):
                return True
            return "a validator kept from an earlier run: %s" % show(x, 4)
        if self.all_tals(x):
            return True
        return show(x, 5)

    def on_fact(self, eng, st, k, v):
        ctx = self.ctx
        if isinstance(k, T):
            if ctx.is_cfg(k, "tal_reject_invalid") and v is False:
                self.flag(st, "gate")
            if app_is(k, "equivalent") and v is True:
                if any(self.all_tals(x) for y in k.a[1:3] for x in ctx.expand(y)):
                    self.flag(st, "equiv")
        elif self.empty_list(k, v, "tal_files"):
            self.flag(st, "gate")
            self.flag(st, "notals")
        elif k[0] == "ord" and v == frozenset("="):
            for a, b in ((k[1], k[2]), (k[2], k[1])):
                if a.op == "int" and a.a[0] == 0 and app_is(b, "len") and self.issues(b.a[1]):
                    if self.flagged(st, "validated"):
                        self.flag(st, "gate")
        if k[0:1] == ("ord",) if isinstance(k, tuple) else False:
            for a, b in ((k[1], k[2]), (k[2], k[1])):
                if a.op == "int" and a.a[0] == 0 and app_is(b, "len") and self.issues(b.a[1]):
                    self.about(st, "clean" if v == frozenset("=") else "issues")
        elif isinstance(k, tuple) and k[0] == "var" and self.lookup(k[1]) and v == frozenset([0]):
            self.about(st, "absent")
        if st.ps and st.ps[1] and not (related(self.ctx, k) or any(self.lookup(x) for x in allsubs(k))):
            self.about(st, None)    # errors from here on have other causes

    def lookup(self, t):
        """The report on the source repository in the validation report."""
        if not app_is(t, "mapget"):
            return False
        m = t.a[1]
        if not (m.op == "fld" and "ValidationReport" in str(m.a[1])):
            return False
        adt = self.ctx.prog.adts.get(m.a[1])
        if adt and adt["v"][0]["f"][m.a[3]] != "rrdp_repositories":
            return False
        r = m.a[0]
        if not (app_is(r, "ok") and app_is(r.a[1], "validate") or r.op == "phi" or app_is(r, "ok")):
            return False
        return any(self.ctx.is_cfg(x, "notification_uri") for x in subterms(t.a[2]))

    def issues(self, t):
        """The list of issues of the source repository's report."""
        if t.op == "fld" and "RepositoryReport" in str(t.a[1]):
            adt = self.ctx.prog.adts.get(t.a[1])
            if adt and adt["v"][t.a[2]]["f"][t.a[3]] != "issues":
                return False
            s = t.a[0]
            return s.op == "fld" and s.a[1] == OPTION and self.lookup(s.a[0])
        return False

    def all_tals(self, x):
        """A validator made for every configured locator file."""
        if not (app_is(x, "new") and "Validator" in x.a[0]):
            return False
        tals = x.a[1]
        if tals.op == "vec" and len(tals.a[1]) == 1 and tals.a[1][0].op == "each":
            p = tals.a[1][0]
            if self.ctx.is_cfg(p.a[0], "tal_files"):
                return all(len(vals) == 1 and app_is(vals[0], "ok") and app_is(vals[0].a[1], "parse") for c, vals in p.a[1])
        return False

    def event(self, eng, st, fr, bi, ev):
        p = self.public(eng, st, fr, bi, ev)
        if p is not None:
            if self.flagged(st, "gate"):
                self.ok("a public effect comes after a clean validation, or does not need one", fr, bi)
            else:
                self.bad("something public is changed without a clean validation although rejection may be on", fr, bi, "%s %s" % (ev[0], show(p, 5)))
        if (p is not None or ev[0] == "FAIL") and st.ps and st.ps[1]:
            self.about(st, None)
        if ev[0] == "NEWERR" and st.ps and st.ps[1] in ("issues", "absent") and self.cfg_true(eng, st, "tal_reject_invalid") is not True:
            self.bad("validation issues stop the run although rejection is off", fr, bi, st.ps[1])
        return None

    def finish(self, eng, exits):
        self.expect("validation is under all configured locators")
        self.expect("a public effect comes after a clean validation, or does not need one", 3)


class C21(Gate):
    """Every script is run to its end before anything public is changed."""

    def on_fact(self, eng, st, k, v):
        if st.ps == "failed" and not (related(self.ctx, k) or self.of_script(k)):
            st.ps = "failed before"     # errors from here on have other causes
        if isinstance(k, T):
            if app_is(k, "success") and self.of_script(k):
                if v is False:
                    st.ps = "failed"
                elif st.ps == "unjudged":
                    st.ps = ()
        elif self.empty_list(k, v, "pre_validation_scripts"):
            eng.must(st, "scripts")
        elif k[0] == "ord" and v == frozenset("=") and st.ps == "unjudged":
            for a, b in ((k[1], k[2]), (k[2], k[1])):
                if a.op == "int" and a.a[0] == 0 and self.of_script(b) and any(app_is(x, "code") for x in subterms(b)):
                    st.ps = ()

    def of_script(self, t):
        return any(x.op == "el" and self.ctx.is_cfg(x.a[0], "pre_validation_scripts") or
                   (x.op == "wit" and self.ctx.is_cfg(x.a[0], "pre_validation_scripts")) for x in allsubs(t))

    def closed(self, eng, st, base, done, recs):
        if not self.ctx.is_cfg(base, "pre_validation_scripts") or not done:
            return
        e = el(base)
        for (oc, pushes), conds in recs.items():
            if not any(x[0][1:3] == ("ran", e) for x in conds if isinstance(x[0], tuple) and x[0][0] == "m"):
                return
            if not any(isinstance(x[0], tuple) and x[0][:2] == ("m", "status") for x in conds):
                return
        eng.must(st, "scripts")

    def event(self, eng, st, fr, bi, ev):
        k = ev[0]
        if k in ("EXEC", "WAIT") and ev[1]:
            if not st.ps and self.of_script(ev[2]):
                st.ps = "unjudged"
            if k == "EXEC":
                eng.must(st, "ran", ev[2])
                eng.must(st, "status", ev[2])
            else:
                for x in subterms(ev[2]):
                    if x.op == "el":
                        eng.must(st, "ran", x)
                        eng.must(st, "status", x)
        elif k == "FAIL":
            if ev[1] in ("EXEC", "SPAWN", "WAIT"):
                st.ps = "notrun"
            elif st.ps == "failed":
                st.ps = "failed before"
        elif k == "NEWERR" and st.ps == "failed" and self.rejecting(st) is False:
            self.bad("a failing script stops the run although rejection is off", fr, bi, "")
        p = self.public(eng, st, fr, bi, ev)
        if p is not None:
            if not eng.has(st, "scripts"):
                self.bad("something public is changed before every script was run to its end", fr, bi, "%s %s" % (k, show(p, 5)))
            elif st.ps == "notrun":
                self.bad("something public is changed although a script could not be run", fr, bi, "%s %s" % (k, show(p, 5)))
            elif st.ps in ("failed", "failed before", "unjudged") and self.rejecting(st) is not False:
                self.bad("something public is changed although a script failed and rejection may be on", fr, bi, "%s %s" % (k, show(p, 5)))
            else:
                self.ok("a public effect comes after all scripts", fr, bi)
            if st.ps == "failed":
                st.ps = "failed before"
        return None

    def rejecting(self, st):
        for k, v in st.facts.items():
            if isinstance(k, T) and self.ctx.is_cfg(k, "tal_reject_invalid"):
                return v
        return None

    def finish(self, eng, exits):
        for st, ret in exits:
            if exit_ok(ret) and st.ps == "notrun":
                self.viol["a script which cannot be run does not fail the run @ exit"] = {"rule": "exit", "where": "main", "span": "", "text": ""}
        self.expect("a public effect comes after all scripts", 3)
