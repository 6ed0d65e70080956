"""C06–C08, C17: what is listed, kept, superseded and deleted."""
from common import *
from publish import Switch, nf_parts
from runs import Fresh, Gate, is_public


class C06(Fresh):
    """Gapped delta lists are refused; exactly the right deltas are listed.

    At each public effect the fact 'the announced deltas, cut to the
    configured maximum, have no gap' must hold. Where the notification file is
    replaced, the list of deltas is taken apart: the part made of the source's
    deltas must leave out only those not above the newest one held in the same
    session, the part made of held ones must have in it exactly those not
    below the cut-off, and the list must be in descending order."""

    # ps = (session, serial, whether deltas are held)

    def on_fact(self, eng, st, k, v):
        held = st.ps[2] if st.ps and len(st.ps) > 2 else None
        se, sr = (st.ps[0], st.ps[1]) if st.ps else (None, None)
        st.ps = (se, sr) if st.ps else ()
        Fresh.on_fact(self, eng, st, k, v)
        if isinstance(k, tuple) and k[0] == "ord":
            for a, b in ((k[1], k[2]), (k[2], k[1])):
                if a.op == "int" and a.a[0] == 0 and app_is(b, "len") and self.held_list(b.a[1]):
                    held = "none" if v == frozenset("=") else "some" if "=" not in v else held
        if st.ps or held:
            se, sr = st.ps if st.ps else (None, None)
            st.ps = (se, sr, held)

    def held(self, st):
        return st.ps[2] if st.ps else None

    def held_list(self, t):
        """The list of deltas in the saved state."""
        if not (t.op == "fld" and from_rrdp_state(self.ctx, t)):
            return False
        return self.serial_of(el(t)) is not None

    def serial_of(self, e):
        """The field of a held delta which is its serial."""
        for (adt, var, i) in self.ctx.saved:
            x = mk("fld", e, adt, var, i)
            if self.field_role(e, x) == "serial" and self.is_elem(e, adt):
                return x
        return None

    def is_elem(self, e, adt):
        """Is e, an element of a saved list, of type adt?"""
        b = e.a[0]
        if b.op == "fld":
            for v in self.ctx.saved.get((b.a[1], b.a[2], b.a[3]), ()):
                for p in (v.a[1] if v.op == "vec" else ()):
                    for x in part_values(p):
                        for y in self.ctx.expand(x):
                            if y.op == "adt":
                                return y.a[0] == adt
            return False
        return True

    def event(self, eng, st, fr, bi, ev):
        p = Gate.public(self, eng, st, fr, bi, ev)
        if p is not None:
            if self.gapless(st):
                self.ok("no gap in the announced deltas is known before a public effect", fr, bi)
            else:
                self.bad("something public is changed without a check for gaps in the announced deltas", fr, bi, "%s %s" % (ev[0], show(p, 5)))
        return Fresh.event(self, eng, st, fr, bi, ev)

    def gapless(self, st):
        for k, v in st.facts.items():
            if v is True and isinstance(k, T) and app_is(k, "gapless"):
                x = k.a[1]
                if x.op == "nfsorted" and self.is_max(x.a[1]) and is_nf(self.ctx, x.a[0]):
                    return True
        return False

    def is_max(self, t):
        if t.op == "adt" and t.a[0] == OPTION and t.a[1] == 1:
            t = t.a[2]
        return self.ctx.is_cfg(t, "rrdp_max_deltas")

    def is_retained(self, t):
        return app_is(t, "retained") and app_is(t.a[1], "deltas") and is_nf(self.ctx, t.a[1].a[1]) and self.is_max(t.a[2])

    def cutoff(self, eng, st, t):
        """Is t the oldest remaining serial of the source, or else its serial?"""
        xs = self.ctx.expand(t)
        low = False
        for x in xs:
            if app_is(x, "serial") and app_is(x.a[1], "firstel") and self.is_retained(x.a[1].a[1]):
                low = True
            elif not announced(self.ctx, x, "serial"):
                return False
        return bool(xs) and (low or self.none_left(st))

    def none_left(self, st):
        for k, v in st.facts.items():
            if isinstance(k, tuple) and k[0] == "ord" and v == frozenset("="):
                for a, b in ((k[1], k[2]), (k[2], k[1])):
                    if a.op == "int" and a.a[0] == 0 and app_is(b, "len") and self.is_retained(b.a[1]):
                        return True
        return False

    def data(self, eng, st, fr, bi, d, target):
        p = nf_parts(d)
        if p is None:
            self.bad("what the new notification file lists is not known", fr, bi, show(d, 3))
            return
        for v in self.ctx.expand(p[3]):
            if v.op != "vec":
                self.bad("the deltas listed in the new notification file are not known", fr, bi, show(v, 4))
                continue
            self.order(fr, bi, v)
            fresh = kept = False
            for part in v.a[1]:
                if part.op == "each" and self.is_retained(part.a[0]):
                    fresh = True
                    self.fresh_part(eng, st, fr, bi, part)
                elif part.op == "each" and self.is_held(part.a[0]):
                    kept = True
                    self.kept_part(eng, st, fr, bi, part)
                else:
                    self.bad("some of the listed deltas are neither the announced nor the held ones", fr, bi, show(part, 4))
            if not fresh and not self.none_left(st) and self.sess(st) == "diff":
                self.bad("the announced deltas are not listed", fr, bi, "")
            if fresh:
                self.ok("announced deltas are listed when the session is %s" % self.sess(st), fr, bi)
            if not kept and self.sess(st) == "same" and self.held(st) != "none":
                self.bad("the deltas held are not listed", fr, bi, str(st.ps))

    def order(self, fr, bi, v):
        if len(v.a[1]) == 0:
            return
        for d, k in v.a[0]:
            x = k.a[-1] if k.op == "srckey" else k
            if d == "desc":
                if app_is(x, "serial"):
                    return self.ok("the deltas are listed newest first", fr, bi)
                if x.op == "fld":
                    e = mk("el", mk("any"))
                    if self.field_role(e, mk("fld", e, *x.a[1:])) == "serial":
                        return self.ok("the deltas are listed newest first", fr, bi)
        self.bad("the deltas are not known to be listed newest first", fr, bi, str([(d, show(k, 4)) for d, k in v.a[0]]))

    def is_held(self, b):
        xs = self.ctx.expand(b)
        for x in xs:
            if x.op == "vec":
                for p in x.a[1]:
                    if p.op != "each" or not self.is_held(p.a[0]):
                        return False
            elif not self.held_list(x):
                return False
        return bool(xs)

    def below(self, eng, st, conds, ser):
        """How the newest held serial compares with ser, with given conditions."""
        s = st.copy()
        if eng.add_conds(s, conds) is False:
            return None
        for k, v in s.facts.items():
            if isinstance(k, tuple) and k[0] == "ord":
                for a, b, fl in ((k[1], k[2], False), (k[2], k[1], True)):
                    if b is ser and self.newest_held(eng, a):
                        return frozenset(FLIP[c] for c in v) if fl else v
        return ALLREL

    def newest_held(self, eng, t):
        """firstel(held).serial where held is known to be in descending order"""
        if t.op == "fld" and app_is(t.a[0], "firstel", "lastel") and self.held_list(t.a[0].a[1]):
            want = "desc" if app_is(t.a[0], "firstel") else "asc"
            e = mk("el", mk("any"))
            if self.field_role(e, mk("fld", e, *t.a[1:])) != "serial":
                return False
            for d, k in eng.vec_attrs(t.a[0].a[1]):
                x = k.a[-1] if k.op == "srckey" else k
                if d == want and x.op == "fld" and x.a[1:] == t.a[1:]:
                    return True
        return False

    def fresh_part(self, eng, st, fr, bi, part):
        ser = None
        e = el(part.a[0])
        for conds, vals in part.a[1]:
            new = None
            for k, _ in conds:
                for x in allsubs(k):
                    if app_is(x, "serial") and x.a[1] is e:
                        ser = x
            r = self.below(eng, st, conds, ser) if ser is not None else ALLREL
            if r is None:
                continue
            if vals:
                if self.sess(st) in ("diff", "none") or self.held(st) == "none" or r == frozenset("<"):
                    self.ok("announced deltas are added only if they are new", fr, bi)
                else:
                    self.bad("an announced delta may be listed although it is already held", fr, bi, "%s %s" % (st.ps, r))
            else:
                if self.sess(st) == "diff":
                    self.bad("an announced delta is not listed although the session is new", fr, bi, str(st.ps))
                elif ">" in r or "=" in r:
                    if "<" in r and not (self.sess(st) == "none" and self.held(st) is None):
                        self.bad("an announced delta which is not held may not be listed", fr, bi, "%s %s" % (st.ps, "".join(sorted(r))))
                    else:
                        self.ok("only deltas which are held are not added", fr, bi)

    def kept_part(self, eng, st, fr, bi, part):
        e = el(part.a[0])
        ser = self.serial_elem(part.a[0], e)
        for conds, vals in part.a[1]:
            s = st.copy()
            eng.instantiate(s, part.a[0])
            if eng.add_conds(s, conds) is False or eng.has(s, "nothing"):
                continue
            r = self.rel_cutoff(eng, s, ser) if ser is not None else None
            if vals:
                if r is not None and ">" not in r:
                    self.ok("no delta below the cut-off is kept", fr, bi)
                else:
                    self.bad("a delta below the cut-off may be kept", fr, bi, show(part.a[0], 4))
            else:
                self.dropped(fr, bi, r)
        self.left_out(eng, st, fr, bi, part.a[0])

    def left_out(self, eng, st, fr, bi, b):
        for x in self.ctx.expand(b):
            if x.op != "vec":
                continue
            for p in x.a[1]:
                e = el(p.a[0])
                ser = self.serial_elem(p.a[0], e)
                for conds, vals in p.a[1]:
                    if vals:
                        continue
                    s = st.copy()
                    eng.add_conds(s, conds)
                    r = self.rel_cutoff(eng, s, ser)
                    self.dropped(fr, bi, r)

    def dropped(self, fr, bi, r):
        if r == frozenset(">"):
            self.ok("a held delta is dropped only if it is below the cut-off", fr, bi)
        else:
            self.bad("a held delta may be dropped although it is not below the cut-off", fr, bi, "%s" % (r and "".join(sorted(r))))

    def sources(self, b, depth=0):
        """The saved lists which the elements of b come from."""
        out = set()
        for x in self.ctx.expand(b):
            if x.op == "vec" and depth < 6:
                for p in x.a[1]:
                    if p.op == "each":
                        out |= self.sources(p.a[0], depth + 1)
            elif x.op == "fld":
                out.add(x)
        return out

    def serial_elem(self, b, e):
        for y in self.sources(b):
            s = self.serial_of(el(y))
            if s is not None:
                return mk("fld", e, *s.a[1:])
        return None

    def rel_cutoff(self, eng, s, ser):
        for k, v in s.facts.items():
            if isinstance(k, tuple) and k[0] == "ord":
                for a, b, fl in ((k[1], k[2], False), (k[2], k[1], True)):
                    if b is ser and self.cutoff(eng, s, a):
                        return frozenset(FLIP[c] for c in v) if fl else v
        return None

    def finish(self, eng, exits):
        for n in ("no gap in the announced deltas is known before a public effect", "the deltas are listed newest first",
                  "announced deltas are added only if they are new", "only deltas which are held are not added",
                  "announced deltas are listed when the session is diff",
                  "announced deltas are listed when the session is same", "no delta below the cut-off is kept", "a held delta is dropped only if it is below the cut-off"):
            self.expect(n)
