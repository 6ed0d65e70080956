"""Validation: what is accepted, what is reported, and that it ends."""
from common import *
from runs import Gate

VAL = "krill_sync::validation::"
REP = VAL + "report::"
ACCEPTED = ("ValidatedRoa", "ValidatedAspa", "ValidatedChild", "ValidatedRouterCert")
RECORDS = ACCEPTED + ("IgnoredObjectInfo", "ValidationIssue")
CACERT = "ValidatedCaCertificate"


def cycles(prog):
    """Sets of functions of the validation module which call each other."""
    own = {}
    for k, b in prog.bodies.items():
        if summary.is_validation(k) and not b.derived:
            own[k] = {q for q in (summary.closure_bodies(prog, f["key"]) for f in summary.referred(b) if f.get("key")) if q and summary.is_validation(q)}
    out = []
    reach = {}
    for k in sorted(own):
        seen = set()
        work = list(own[k])
        while work:
            x = work.pop()
            if x in seen or x not in own:
                continue
            seen.add(x)
            work.extend(own[x])
        reach[k] = seen
    for k in sorted(own):
        if k in reach[k]:
            c = frozenset(x for x in reach[k] if k in reach.get(x, ()))
            if c not in out:
                out.append(c)
    return out


def head(prog):
    """The function which validates a CA and, by calling itself, all CAs
    beneath it."""
    cs = cycles(prog)
    if len(cs) != 1:
        raise Missing("the recursive function which validates a CA")
    callers = set()
    for k, b in prog.bodies.items():
        if k not in cs[0]:
            for f in summary.referred(b):
                if f.get("key") in cs[0]:
                    callers.add(f["key"])
    hs = sorted(k for k in callers if not prog.bodies[k].closure)
    if len(hs) != 1:
        raise Missing("the recursive function which validates a CA")
    return prog.bodies[hs[0]], cs[0]


def deep(ctx, t, seen=None):
    """The terms within a term, also through joins."""
    if seen is None:
        seen = set()
    for x in subterms(t):
        if x not in seen:
            seen.add(x)
            if x.op == "phi":
                for y in ctx.phidef.get(x, ()):
                    deep(ctx, y, seen)
    return seen


_free = {}


def free_els(t):
    """The elements in a term, other than those which stand for each element
    of a list within it."""
    r = _free.get(t)
    if r is None:
        r = set()
        todo = list(t.a)
        while todo:
            x = todo.pop()
            if isinstance(x, T):
                r |= free_els(x)
            elif isinstance(x, (tuple, frozenset)):
                todo.extend(x)
        if t.op == "each":
            r = {x for x in r if x is not el(t.a[0])}
        if t.op == "el":
            r = r | {t}
        r = _free[t] = frozenset(r)
    return r


def from_arg(t):
    """(name, path of fields) if the value is part of an argument."""
    p = []
    while t.op == "fld":
        p.append((t.a[1], t.a[2], t.a[3]))
        t = t.a[0]
    return (t.a[0], tuple(reversed(p))) if t.op == "arg" else None


def is_data(body):
    """Does a function give access to the data of a repository?"""
    rt = body.tys[body.locals[0][0]]
    return "RepositoryData" in rt.get("s", "") and not body.closure


class Tree(Rule):
    """Analyses the recursive function on its own: its arguments are symbols,
    the data of repositories is whatever the function that gets it returns."""
    stub_validation = False
    opts = dict(Rule.opts, recursion=1)

    def run(self, entry=None):
        self.head, self.cycle = head(self.ctx.prog)
        ex = self.run_once(self.head, {})
        self.params = []
        self.finish(self.eng, ex)

    def stub(self, eng, st, fr, bi, body, args, t):
        if is_data(body):
            return summary.opaque(eng, st, fr, bi, body, args)
        return Rule.stub(self, eng, st, fr, bi, body, args, t)

    def names(self):
        """The parameters of the function."""
        out = []
        for i in range(self.head.argc):
            b = self.head.locals[i + 1]
            out.append(b[1] if len(b) > 1 and b[1] else str(i))
        return out

    def passed(self, eng, st, args, t):
        """What is passed on in the place of an argument (or a part of it)."""
        n, path = from_arg(t)
        if n not in self.names():
            return None
        v = models.deref(eng, st, args[self.names().index(n)])
        for a, b, i in path:
            v = models.deref(eng, st, proj(v, a, b, i))
        return v

    def external(self, eng, st, fr, bi, f, args, t):
        p = f.get("path") or ""
        if p.startswith("alloc::vec::Vec") and short(p) in ("push", "insert"):
            v = models.deref(eng, st, args[-1])
            self.pushed(eng, st, fr, bi, v)
        return None

    def pushed(self, eng, st, fr, bi, v):
        pass

    def kind(self, v):
        if v.op == "adt" and v.a[0].startswith(REP):
            return v.a[0][len(REP):]
        return None

    def holds(self, eng, st, t, want=True):
        return eng.known(st, t) is want

    # what is known of a CA

    def true_facts(self, st, name, where=None, value=True):
        for k, v in list(st.facts.items()):
            if isinstance(k, T) and v is value and app_is(k, name) and (where is None or where in str(k.a[0])):
                yield k

    def current(self, eng, st, x, when):
        """Is it known that x was not stale?"""
        for k in x:
            if eng.known(st, k) is False:
                return True
        return False

    def not_stale(self, eng, st, obj, when):
        for k, v in st.facts.items():
            if isinstance(k, tuple) and k[0] == "ord" and v <= frozenset("<=") and k[1] is when and app_is(k[2], "next_update") and k[2].a[1] is obj:
                return True
            if isinstance(k, tuple) and k[0] == "ord" and v <= frozenset(">=") and k[2] is when and app_is(k[1], "next_update") and k[1].a[1] is obj:
                return True
            if isinstance(k, T) and v is False and app_is(k, "is_stale") and k.a[1] is obj:
                return True
        return False

    def manifests(self, eng, st):
        """(manifest content, EE certificate, issuer, time) of the manifests
        which were found, decoded, validly signed and not stale."""
        out = []
        for V in self.true_facts(st, "validate_at", "::manifest::"):
            m, issuer, when = V.a[1], V.a[2], V.a[-1]
            if not (app_is(m, "ok") and app_is(m.a[1], "decode") and self.holds(eng, st, m.a[1])):
                continue
            if from_arg(issuer) is None:
                continue
            r = app("ok", V)
            ee, c = mk("fld", r, None, 0, 0), mk("fld", r, None, 0, 1)
            for x in self.parts_of(st, r):
                if x.a[3] == 1:
                    c = x
                elif x.a[3] == 0:
                    ee = x
            if self.not_stale(eng, st, c, when):
                out.append((c, ee, issuer, when))
        return out

    def parts_of(self, st, r):
        seen = set()
        for k in st.facts:
            for t in ([k] if isinstance(k, T) else [y for y in k if isinstance(y, T)]):
                for x in subterms(t):
                    if x.op == "fld" and x.a[0] is r and x not in seen:
                        seen.add(x)
                        yield x

    def listed(self, t, c):
        """Was it taken from the entries of the manifest?"""
        return any(app_is(x, "iter_uris", "iter") and x.a[1] is c for x in deep(self.ctx, t))

    def crls(self, eng, st, m):
        """The CRLs which belong to the manifest and pass all checks."""
        c, ee, issuer, when = m
        out = []
        for S in self.true_facts(st, "verify_signature", "::crl::"):
            k = S.a[1]
            if not (app_is(S.a[2], "subject_public_key_info") and S.a[2].a[1] is issuer):
                continue
            if not (app_is(k, "ok") and app_is(k.a[1], "decode") and self.holds(eng, st, k.a[1])):
                continue
            if not self.not_stale(eng, st, k, when):
                continue
            if not self.unrevoked(eng, st, k, ee):
                continue
            if not self.hashed(eng, st, k.a[1].a[1], c):
                continue
            out.append(k)
        return out

    def unrevoked(self, eng, st, k, cert):
        for C in self.true_facts(st, "contains", "::crl::", False):
            if C.a[1] is k and app_is(C.a[2], "serial_number") and C.a[2].a[1] is cert:
                return True
        return False

    def hashed(self, eng, st, data, c, entry=None):
        """Does the data match the hash of the manifest's entry for the place
        where it was found?"""
        for H in self.true_facts(st, "verify"):
            if H.a[2] is not data or not self.listed(H.a[1], c):
                continue
            h = H.a[1]
            at = self.found_at(data)
            if at is None:
                continue
            while h.op == "fld" and h.a[1] is not None and not h.a[0].op == "el":
                h = h.a[0]
            if app_is(h, "mapget") and h.a[2] is at and entry is None:
                return True
            if h.op == "fld" and h.a[0].op == "el" and h.a[3] == 1:
                if at.op == "fld" and at.a[0] is h.a[0] and at.a[3] == 0:
                    return entry is None or entry is h.a[0]
        return False

    def found_at(self, data):
        """The URI under which data was found in a repository."""
        x = data
        while x.op == "fld":
            x = x.a[0]
        if app_is(x, "mapget"):
            return x.a[2]
        return None

    def entry_of(self, v):
        """The manifest entries which a value names."""
        es = {x for x in free_els(v) if any(app_is(y, "iter_uris", "iter") and "::manifest::" in str(y.a[0]) for y in deep(self.ctx, x))
              and not any(app_is(y, "decode") and "::manifest::" not in str(y.a[0]) for y in subterms(x))}
        return {x for x in es if not any(y is not x and x in subterms(y) for y in es)}


class Outer(Rule):
    """Analyses what calls the recursive function: from where the rest of
    the program enters the validation."""
    stub_validation = False

    def __init__(self, ctx, owner, hd, on_tree, on_exit=None):
        Rule.__init__(self, ctx)
        self.viol, self.oblig, self.seen = owner.viol, owner.oblig, owner.seen
        self.head, self.on_tree, self.on_exit = hd, on_tree, on_exit
        self.owner = owner
        self.entered = 0

    def entries(self):
        prog = self.ctx.prog
        own = {k for k in prog.bodies if summary.is_validation(k)}
        ks = set()
        for k, b in prog.bodies.items():
            if k not in own:
                for f in summary.referred(b):
                    q = f.get("key")
                    if q in own and self.head.key in summary.reach(prog, [q]):
                        ks.add(q)
        if not ks:
            raise Missing("the function through which validation is entered")
        return [prog.bodies[k] for k in sorted(ks)]

    def on_fact(self, eng, st, k, v):
        if hasattr(self.owner, "known_report"):
            self.owner.known_report(st, k, v)

    def folding(self, eng, st, base):
        if hasattr(self.owner, "folding"):
            self.owner.folding(eng, st, base)

    def inserted(self, eng, st, m, k, old, v):
        if hasattr(self.owner, "inserted"):
            self.owner.inserted(eng, st, m, k, old, v)

    def run(self, entry=None):
        for b in self.entries():
            ex = self.run_once(b, {})
            if self.on_exit is not None:
                self.on_exit(self.eng, ex)
        if not self.entered:
            raise Missing("the call of the function which validates a CA")

    def stub(self, eng, st, fr, bi, body, args, t):
        if body.key == self.head.key:
            self.entered += 1
            self.on_tree(self, eng, st, fr, bi, args)
            return summary.opaque(eng, st, fr, bi, body, args)
        if is_data(body):
            return summary.opaque(eng, st, fr, bi, body, args)
        return Rule.stub(self, eng, st, fr, bi, body, args, t)


class C23(Tree):
    """At every place where an object is added to the accepted ones, and
    wherever a CA certificate is kept to be descended into, the facts on the
    path say that the manifest and CRL in use passed every check under the
    issuing certificate, and that the object did."""

    def __init__(self, ctx):
        Tree.__init__(self, ctx)
        self.cas = {}

    CHECKS = {"ValidatedRoa": "::roa::", "ValidatedAspa": "::aspa::"}

    def pushed(self, eng, st, fr, bi, v):
        k = self.kind(v)
        cas = {x for x in subterms(v) if app_is(x, "ok") and app_is(x.a[1], "validate_ca_at")}
        if k not in ACCEPTED:
            if not cas or k is not None:
                return
        what = k or "a CA certificate to descend into"
        es = self.entry_of(v)
        for x in cas:
            es |= self.entry_of(x)
        if len(es) != 1:
            self.bad("%s is accepted which is no entry of the manifest" % what, fr, bi, show(v, 5))
            return
        e = es.pop()
        ms = [m for m in self.manifests(eng, st) if self.listed(e, m[0])]
        if not ms:
            self.bad("%s is accepted although its manifest may not have passed all checks" % what, fr, bi, show(v, 5))
            return
        why = "although the CRL may not have passed all checks"
        for m in ms:
            for crl in self.crls(eng, st, m):
                why = "although it may not have passed all checks"
                o = self.valid(eng, st, k, cas, e, m, crl)
                if o:
                    self.ok("%s is accepted after all checks" % what, fr, bi)
                    for x in cas:
                        self.cas[x] = m
                    return
        self.bad("%s is accepted %s" % (what, why), fr, bi, show(v, 5))

    def object_ok(self, eng, st, o, e, m):
        """Found at its place with the hash listed, and decoded."""
        return app_is(o, "ok") and app_is(o.a[1], "decode") and self.holds(eng, st, o.a[1]) and self.hashed(eng, st, o.a[1].a[1], m[0], e)

    def valid(self, eng, st, k, cas, e, m, crl):
        c, ee, issuer, when = m
        if k in ("ValidatedRoa", "ValidatedAspa"):
            for P in self.true_facts(st, "process", self.CHECKS[k]):
                o = P.a[1]
                if P.a[2] is issuer and self.object_ok(eng, st, o, e, m) and self.unrevoked(eng, st, crl, app("eecert", o)) and eng.has(st, "crlcheck", o):
                    return True
            return False
        if k == "ValidatedRouterCert":
            for P in self.true_facts(st, "validate_router_at"):
                o = P.a[1]
                if P.a[2] is issuer and P.a[-1] is when and self.object_ok(eng, st, o, e, m) and self.unrevoked(eng, st, crl, o):
                    return True
            return False
        if not cas:
            return False
        return all(self.ca_ok(eng, st, x, e, m, crl) for x in cas)

    def ca_ok(self, eng, st, x, e, m, crl):
        P = x.a[1]
        o = P.a[1]
        return self.holds(eng, st, P) and P.a[2] is m[2] and P.a[-1] is m[3] and self.object_ok(eng, st, o, e, m) and self.unrevoked(eng, st, crl, o)

    def on_RECURSE(self, eng, st, fr, bi, key, args):
        if key != self.head.key:
            return
        ms = {m for m in self.cas.values()}
        if not ms:
            self.bad("a CA is descended into which was not accepted", fr, bi, "")
            return
        for m in ms:
            for what, t in (("issuer", m[2]), ("time", m[3])):
                v = self.passed(eng, st, args, t)
                if v is None:
                    self.bad("the %s of a CA is not known" % what, fr, bi, show(t, 4))
                    continue
                xs = self.ctx.expand(v)
                if what == "time":
                    if xs != frozenset([t]):
                        self.bad("CAs are not all validated at the same time", fr, bi, show(v, 4))
                    continue
                for x in xs:
                    if x not in self.cas:
                        self.bad("a CA is descended into whose certificate was not accepted", fr, bi, show(x, 4))
                    else:
                        self.ok("a CA is descended into under its accepted certificate", fr, bi)

    def event(self, eng, st, fr, bi, ev):
        if ev[0] == "RECURSE":
            self.on_RECURSE(eng, st, fr, bi, *ev[1:])

    def finish(self, eng, exits):
        for k in ACCEPTED:
            self.expect("%s is accepted after all checks" % k)
        self.expect("a CA is descended into under its accepted certificate")


class C31(Tree):
    """Every call by which the recursive function of the validation calls
    itself changes a number by a constant towards a limit that is tested on
    the way, and the first call from elsewhere passes a constant; the call
    graph has no other cycle there."""

    def run(self, entry=None):
        self.limits = None
        Tree.run(self, entry)
        o = Outer(self.ctx, self, self.head, self.called)
        o.run()

    def event(self, eng, st, fr, bi, ev):
        if ev[0] != "RECURSE" or ev[1] not in self.cycle:
            return
        if ev[1] != self.head.key:
            self.bad("a function calls itself without a limit", fr, bi, ev[1])
            return
        got = set()
        for a in ev[2]:
            for y in subterms(models.deref(eng, st, a)):
                if y.op == "app" and y.a[0] in ("bin:Add", "bin:Sub"):
                    for x, k in ((y.a[1], y.a[2]), (y.a[2], y.a[1])):
                        if k.op == "int" and k.a[0] >= 1 and from_arg(x) is not None and self.passed(eng, st, ev[2], x) is y:
                            if self.limited(st, y, x, k) and (y.a[0] == "bin:Add" or y.a[1] is x):
                                got.add(x)
        self.limits = got if self.limits is None else self.limits & got
        if got:
            self.ok("a descent comes closer to the limit", fr, bi)
        else:
            self.bad("validation descends without a limit", fr, bi, "")

    def limited(self, st, y, x, k):
        lo, hi = st.facts.get(("rng", x), (None, None))
        if y.a[0] == "bin:Add":
            return hi is not None
        if lo is not None and lo >= k.a[0]:
            return True
        for n, v in st.facts.items():
            if k.a[0] == 1 and isinstance(n, tuple) and n[0] == "ord" and INT(0) in n[1:] and x in n[1:] and "=" not in v:
                return True
        return False

    def called(self, o, eng, st, fr, bi, args):
        for x in self.limits or ():
            v = self.passed(eng, st, args, x)
            if all(z.op == "int" for z in self.ctx.expand(v)):
                self.ok("the first call passes a constant", fr, bi)
                return
        self.bad("the number that limits the depth does not start from a constant", fr, bi, "")

    def finish(self, eng, exits):
        self.expect("a descent comes closer to the limit")


class C24(Tree):
    """On every path through the recursive function exactly one result for
    the CA is added to the report. Before that, either each manifest entry
    was recorded exactly once (accepted, ignored or an issue), or no entry
    was looked at and an issue is recorded. The result reaches the report on
    its repository, as does all of every report on a CA beneath it; the
    functions which merge reports are analysed on their own for that."""

    opts = dict(Rule.opts, recursion=1, psphi=True)

    def run(self, entry=None):
        self.cas = []
        self.rec = set()
        self.descends = False
        self.kinds_seen = set()
        self.adds = {}
        adts = self.ctx.prog.adts
        if REP + CACERT not in adts:
            raise Missing("the result of the validation of a CA")
        fs = adts[REP + CACERT]["v"][0]["f"]
        if "issues" not in fs:
            raise Missing("the issues of a CA")
        self.issues = 2 + fs.index("issues")
        Tree.run(self, entry)
        o = Outer(self.ctx, self, self.head, lambda *a: None, self.ended)
        o.run()
        self.expect("the reports on all trees are returned")

    def ended(self, eng, exits):
        """Of the functions from which the trees are validated."""
        for st, ret in exits:
            if exit_ok(ret) is False:
                continue
            while ret.op == "adt" and ret.a[0] in (RESULT, OPTION):
                ret = ret.a[2]
            certs, repos, fs = self.report(ret)
            n = 0
            for ps in self.vec_parts(certs):
                for p in ps or ():
                    if p.op == "each" and all(any(y.op == "spread" and any(self.is_rec(z) for z in subterms(y)) for y in ys) for c, ys in p.a[1]):
                        n += 1
            R = {}
            self.repositories(repos, R, set())
            bad = [i for (a, i), vs in sorted(R.items()) if {r for x in vs for r in self.role(x, i, a, None, [])} - {"zero"} != {"child", "sum"}]
            if not n or not R or bad:
                self.wrong("the report on a tree is not returned in full", "%s %s" % (show(certs, 4), bad))
            else:
                self.right("the reports on all trees are returned")

    def event(self, eng, st, fr, bi, ev):
        if ev[0] == "RECURSE":
            self.descends = True

    def known_report(self, st, k, v):
        """Is there a report on the repository of a CA beneath already?"""
        if "taken" in st.ps and isinstance(k, tuple) and k[0] == "var" and app_is(k[1], "mapget") and len(v) == 1 and any(self.is_rec(y) for y in subterms(k[1].a[2])):
            self.unmark(st)
            st.ps = st.ps + (("had", v == frozenset([1])),)

    def unmark(self, st):
        st.ps = tuple(x for x in st.ps if x != "taken" and not (isinstance(x, tuple) and x[0] == "had"))

    def folding(self, eng, st, base):
        self.unmark(st)

    def inserted(self, eng, st, m, k, old, v):
        """v: None if the entry is removed"""
        if not any(self.is_rec(y) for y in subterms(k)):
            return
        if v is None:
            self.unmark(st)
            st.ps = st.ps + ("taken",)
        elif ("had", True) in st.ps or st.facts.get(("var", old)) == frozenset([1]):
            for x in self.ctx.expand(v):
                if x.op == "fld" and any(self.is_rec(y) for y in subterms(x)) and not any(app_is(y, "mapget") for y in subterms(x)):
                    self.wrong("the report on a CA beneath replaces what was reported on the repository", show(x, 4))

    def on_fact(self, eng, st, k, v):
        self.known_report(st, k, v)
        if isinstance(k, tuple) and k[0] == "var" and v == frozenset([0]) and "none" not in st.ps and from_arg(k[1]) is not None:
            st.ps = st.ps + ("none",)
        if "in" in st.ps:
            return
        for t in ([k] if isinstance(k, T) else [y for y in k if isinstance(y, T)]):
            if self.entry_of(t):
                st.ps = st.ps + ("in",)
                return

    def vec_parts(self, v):
        out = []
        for x in self.ctx.expand(v):
            out.append(list(x.a[1]) if x.op == "vec" else None)
        return out

    def pushed(self, eng, st, fr, bi, v):
        k = self.kind(v)
        if k in RECORDS:
            es = self.entry_of(v)
            if len(es) > 1:
                self.bad("a record names two entries of the manifest", fr, bi, show(v, 5))
            for e in es:
                if eng.has(st, "rec", e):
                    self.bad("an entry of the manifest is recorded twice", fr, bi, show(v, 5))
                eng.must(st, "rec", e)
                self.rec.add(k)
                self.ok("an entry of the manifest is recorded", fr, bi)
                if "in" not in st.ps:
                    st.ps = st.ps + ("in",)
            if k in ACCEPTED and not es:
                self.bad("an object is recorded which is no entry of the manifest", fr, bi, show(v, 5))
        elif k == CACERT:
            if any(isinstance(x, int) for x in st.ps):
                self.bad("the result for a CA is reported twice", fr, bi, "")
            self.result(eng, st, fr, bi, v)

    def result(self, eng, st, fr, bi, v):
        whole_loop = [k[1] for k, w in st.facts.items() if isinstance(k, tuple) and k[0] == "forall" and not k[2] and any(f in (("m", "rec", el(k[1])), ("m", "nothing")) and x is True for f, x in w)
                      and self.complete(k[1], True)]
        issue = all(ps is not None and any(p.op == "one" and self.kind(p.a[0]) == "ValidationIssue" for p in ps) for ps in self.vec_parts(v.a[self.issues]))
        if whole_loop:
            for b in whole_loop:
                if not self.complete(b, st=st):
                    self.bad("not all entries of the manifest are looked at", fr, bi, show(b, 6))
            self.ok("each entry of the manifest was recorded", fr, bi)
            for x in v.a[3:]:
                for ps in self.vec_parts(x):
                    for p in ps or ():
                        for y in part_values(p):
                            for z in self.ctx.expand(y):
                                if self.kind(z):
                                    self.kinds_seen.add(self.kind(z))
        elif "in" in st.ps:
            self.bad("an entry of the manifest may go unreported", fr, bi, show(v.a[self.issues], 5))
        elif not issue:
            self.bad("the validation of a CA ends early without an issue", fr, bi, show(v, 5))
        else:
            self.ok("the validation of a CA ends early with an issue", fr, bi)
        if v not in self.cas:
            self.cas.append(v)
        st.ps = st.ps + (self.cas.index(v),)

    def external(self, eng, st, fr, bi, f, args, t):
        p = f.get("path") or ""
        if p.startswith("std::collections::hash::map::HashMap") and short(p) == "insert" and len(args) == 3:
            for e in self.entry_of(models.deref(eng, st, args[1])):
                if e.a[0].op == "app":
                    eng.must(st, "listed", e)
        return Tree.external(self, eng, st, fr, bi, f, args, t)

    def complete(self, b, part=False, st=None):
        """All entries of a manifest but its CRL (or some of them)?"""
        n = 0
        if part:
            return any(app_is(y, "iter_uris", "iter") and "::manifest::" in str(y.a[0]) for y in deep(self.ctx, b))
        while True:
            if b.op == "mapdel":
                n += 1
                if n > 1 or not any(app_is(x, "crl_uri") for x in subterms(b.a[1])):
                    return False
                b = b.a[0]
            elif b.op == "mapfrom":
                b = b.a[0]
            elif b.op == "phi":
                # filled in a loop
                ys = set()
                for x in self.ctx.expand(b):
                    if x.op == "mapset":
                        ys |= self.entry_of(x.a[1])
                    elif x.op != "emptymap":
                        return False
                ys = {y.a[0] for y in ys}
                if len(ys) != 1 or st is None:
                    return False
                b = ys.pop()
                if not any(isinstance(k, tuple) and k[0] == "forall" and k[1] is b and not k[2]
                           and any(f in (("m", "listed", el(b)), ("m", "nothing")) and x is True for f, x in w) for k, w in st.facts.items()):
                    return False
            elif b.op == "vec":
                ps = list(b.a[1])
                if len(ps) != 1 or ps[0].op != "each":
                    return False
                if any(c or len(vs) != 1 for c, vs in ps[0].a[1]):
                    return False
                b = ps[0].a[0]
            else:
                return app_is(b, "iter_uris", "iter")

    def finish(self, eng, exits):
        self.expect("an entry of the manifest is recorded", 5)
        self.expect("each entry of the manifest was recorded")
        self.expect("the validation of a CA ends early with an issue", 5)
        for k in sorted(self.rec - self.kinds_seen):
            self.viol["records of a kind do not reach the result for the CA: %s @ exit" % k] = {
                "rule": "exit", "where": self.head.path, "span": "", "text": k}
        for st, ret in exits:
            n = [x for x in st.ps if isinstance(x, int)]
            if len(n) != 1:
                self.viol["no result is reported for a CA @ exit"] = {"rule": "exit", "where": self.head.path, "span": "", "text": show(ret, 4)}
                continue
            self.merged(eng, st, ret, self.cas[n[0]])
        # whether or not there is a report on the repository already
        for i, rs in sorted(self.adds.items()):
            if not {"child", "sum"} <= rs:
                self.wrong("results of CAs beneath a CA do not reach the report: %d" % i, str(sorted(rs)))

    # the report

    def report(self, ret):
        """(certificates, repositories) of a report."""
        a = self.ctx.prog.adts.get(ret.a[0]) if ret.op == "adt" else None
        fs = a["v"][0]["f"] if a else []
        if "certs" not in fs or "rrdp_repositories" not in fs:
            raise Missing("the report of a validation")
        return ret.a[2 + fs.index("certs")], ret.a[2 + fs.index("rrdp_repositories")], fs

    def wrong(self, what, text):
        self.viol[what + " @ exit"] = {"rule": "exit", "where": self.head.path, "span": "", "text": text}
        self.oblig[(what, "exit")] = "violated"

    def right(self, what):
        self.oblig.setdefault((what, "exit"), "discharged")
        self.seen[what] = self.seen.get(what, 0) + 1

    def is_rec(self, t):
        return t.op == "app" and t.a[0] in ("rec:" + self.head.key, "call:" + self.head.path)

    def merged(self, eng, st, ret, v):
        certs, repos, fs = self.report(ret)
        main = any(k[0] == "forall" and self.complete(k[1], True) for k in st.facts if isinstance(k, tuple)) or "in" in st.ps
        for ps in self.vec_parts(certs):
            if ps is None or not any(p.op == "one" and self.kind(p.a[0]) == CACERT for p in ps):
                self.wrong("the result for a CA does not reach the report", show(certs, 4))
            else:
                self.right("the result for a CA reaches the report")
        issues = [p for ps in self.vec_parts(v.a[self.issues]) for p in ps or ()]
        R = {}
        bare = self.repositories(repos, R, set())
        if bare and "none" not in st.ps:
            self.wrong("the issues of a CA do not reach the report on its repository", show(repos, 4))
        if not R:
            return
        name = next(iter(R))[0]
        own = {}
        for (n, i), vs in R.items():
            for x in vs:
                own.setdefault(i, set()).update(self.role(x, i, name, v, issues))
        for i, rs in sorted(own.items()):
            if "?" in rs:
                self.wrong("part of the report on a repository is not what the CAs add up to: %d" % i, str(sorted(rs)))
            elif "own" not in rs:
                self.wrong("results of a CA do not reach the report on its repository: %d" % i, str(sorted(rs)))
            elif self.descends and "each" in self.tags(v) and not {"child", "sum"} & rs:
                self.wrong("results of CAs beneath a CA do not reach the report: %d" % i, str(sorted(rs)))
            else:
                if self.descends and "each" in self.tags(v):
                    self.adds.setdefault(i, set()).update(rs)
                self.right("all results reach the report on the repository")
        # the CAs beneath
        acc = self.conditions(v.a[2:], lambda y: self.kind(y) == "ValidatedChild")
        des = self.conditions([certs], lambda y: y.op == "spread" and any(self.is_rec(z) for z in subterms(y)))
        for e, cs in acc.items():
            if not all(any(d <= c for d in des.get(e, ())) for c in cs):
                self.wrong("an accepted CA is not validated, or its report is lost", show(e, 4))
            else:
                self.right("each accepted CA is validated and its report is kept")

    def tags(self, v):
        return {p.op for x in v.a[2:] for ps in self.vec_parts(x) for p in ps or ()}

    def conditions(self, vs, want):
        """Under which conditions a list has such an entry for an element."""
        out = {}
        for v in vs:
            for ps in self.vec_parts(v):
                for p in ps or ():
                    if p.op == "each":
                        for c, ys in p.a[1]:
                            if any(want(z) for y in ys for z in (self.ctx.expand(y) if y.op == "phi" else [y])):
                                out.setdefault(p.a[0], set()).add(frozenset(c))
        return out

    def repositories(self, m, R, seen):
        """Collects the reports on repositories in a map: (type, field) ->
        values; returns whether it may be empty."""
        bare = False
        for x in self.ctx.expand(m):
            if x in seen:
                continue
            seen.add(x)
            if x.op == "mapset":
                for y in self.ctx.expand(x.a[2]):
                    if y.op == "adt":
                        for i, z in enumerate(y.a[2:]):
                            R.setdefault((y.a[0], i), set()).update(self.ctx.expand(z))
                    else:
                        a = self.ctx.prog.adts.get(REP + "RepositoryReport")
                        for i in range(len(a["v"][0]["f"]) if a else 0):
                            R.setdefault((REP + "RepositoryReport", i), set()).add(mk("fld", y, REP + "RepositoryReport", 0, i))
                if any(y.op != "emptymap" for y in self.ctx.expand(x.a[0])):
                    self.repositories(x.a[0], R, seen)
            else:
                bare = True
        return bare

    def role(self, x, i, name, v, issues):
        """What a part of the report on a repository is."""
        if self.child(x, i):
            return {"child"}
        if x.op == "vec":
            ps = list(x.a[1])
            if any(p.op == "open" for p in ps):
                return {"zero"}         # not finished yet
            if not ps and (v is None or issues):
                return {"zero"}
            if v is not None and all(any(self.covers(q, p) for q in ps) for p in issues):
                return {"own"}
            # (a former report may be one just made, with nothing in it)
            bases = [p.a[0] for p in ps if p.op == "each" and any(ys for c, ys in p.a[1])
                     and all(ys or (not c and self.former(p.a[0], i)) for c, ys in p.a[1])]
            bases += [p.a[0] for p in ps if p.op in ("spread", "all")]
            if any(self.child(b, i) for b in bases):
                new = any(self.former(b, i) and self.fresh(b, i) for b in bases) or any(p.op == "each" and self.former(p.a[0], i) and not all(ys for c, ys in p.a[1]) for p in ps)
                return {"sum", "child"} if new else {"sum" if any(self.former(b, i) for b in bases) else "child" if len(bases) == len(ps) else "?"}
            if bases and len(bases) == len(ps) and all(self.former(b, i) for b in bases):
                return {"zero"}
            return {"?"}
        if x.op == "int" and v is not None and not self.main(v):
            return {"own"}
        if x is INT(0) or self.former(x, i):
            return {"zero"}
        if x.op == "app" and x.a[0] == "bin:Add":
            for a, b in ((x.a[1], x.a[2]), (x.a[2], x.a[1])):
                A, B = self.ctx.expand(a), self.ctx.expand(b)
                z = any(y is INT(0) for y in A)
                if not all(y is INT(0) or self.former(y, i) for y in A):
                    continue
                rs = set()
                for y in B:
                    if self.child(y, i):
                        rs |= {"sum", "child"} if any(y is not INT(0) and self.fresh(y, i) for y in A) else {"sum"} if not z else {"child"} if len(A) == 1 else {"child", "sum"}
                    elif any(app_is(w, "len", "count", "sum") for w in subterms(y)):
                        rs.add("own")
                    elif y is INT(0):
                        rs.add("own" if v is not None and not self.main(v) else "zero")
                    else:
                        rs.add("?")
                return rs
        return {"?"}

    def main(self, v):
        return any(p.op == "each" for ps in (self.vec_parts(y) for y in v.a[2:]) for q in ps for p in q or ())

    def covers(self, q, p):
        if q is p:
            return True
        if q.op == "many":
            return p.op == "each" and set(map(self.sketch, part_values(p))) <= set(map(self.sketch, part_values(q)))
        if p.op == "each" and q.op == "each" and p.a[0] is q.a[0]:
            return {(frozenset(c), ys) for c, ys in p.a[1] if ys} <= {(frozenset(c), ys) for c, ys in q.a[1]}
        return False

    def sketch(self, y):
        return (self.kind(y), frozenset(self.entry_of(y))) if self.kind(y) else y

    def child(self, x, i):
        return x.op == "fld" and x.a[3] == i and any(y.op == "el" for y in subterms(x)) and any(self.is_rec(y) for y in subterms(x)) and not any(app_is(y, "mapget") for y in subterms(x.a[0]) if not self.under_rec(y, x))

    def under_rec(self, y, x):
        return any(self.is_rec(z) and y in subterms(z) for z in subterms(x))

    def former(self, x, i):
        return x.op == "fld" and x.a[3] == i and app_is(whole(x), "mapget")


    def fresh(self, x, i):
        """May a former report be one just made, with nothing in it?"""
        for m in self.ctx.expand(whole(x).a[1]):
            if m.op == "mapset":
                for y in self.ctx.expand(m.a[2]):
                    if y.op == "adt" and any(z is INT(0) or z.op == "vec" and not z.a[1] for z in self.ctx.expand(y.a[2 + i])):
                        return True
        return False


class C25(Tree):
    """Wherever the validation of a tree is started, the certificate it
    starts from is one that was validated as a trust anchor at the current
    time and whose key was found equal to the key in the locator; success is
    returned only after this was done for all locators."""

    def run(self, entry=None):
        self.issuers = set()
        Tree.run(self, entry)
        if len(self.issuers) != 1:
            raise Missing("the certificate under which a CA is validated")
        self.keys = set()
        o = Outer(self.ctx, self, self.head, self.called, self.ended)
        o.run()
        for a, b, i in sorted(self.keys):
            self.constructors(a, b, i)
        self.expect("validation starts from a checked certificate")
        self.expect("success after all locators")
        self.expect("the key of a locator is the one read from it")

    def pushed(self, eng, st, fr, bi, v):
        for V in self.true_facts(st, "validate_at", "::manifest::"):
            self.issuers.add(V.a[2])

    def called(self, o, eng, st, fr, bi, args):
        issuer = next(iter(self.issuers))
        v = self.passed(eng, st, args, issuer) if from_arg(issuer) else None
        for x in self.ctx.expand(v) if v is not None else [None]:
            if x is None or not (app_is(x, "ok") and app_is(x.a[1], "validate_ta_at")):
                self.bad("validation starts from a certificate which was not validated as a trust anchor", fr, bi, show(x, 5) if x is not None else "")
                continue
            V = x.a[1]
            if not all(app_is(w, "now") for w in self.ctx.expand(V.a[-1])):
                self.bad("a trust anchor is not validated at the current time", fr, bi, show(V, 5))
                continue
            for a in args:
                for y in subterms(models.deref(eng, st, a)):
                    if app_is(y, "validate_ta_at") and y is not V:
                        self.bad("validation starts from data of two certificates", fr, bi, show(y, 5))
            e = None
            for k, w in st.facts.items():
                if isinstance(k, tuple) and k[0] == "ord" and w == frozenset("="):
                    for p, q in ((k[1], k[2]), (k[2], k[1])):
                        if app_is(p, "subject_public_key_info") and p.a[1] is x and q.op == "fld" and q.a[0].op == "el" and eng.known(st, V) is True:
                            e = q
            if e is None:
                self.bad("validation starts from a certificate whose key is not known to be that of the locator", fr, bi, show(x, 5))
                continue
            self.keys.add((e.a[1], e.a[2], e.a[3]))
            eng.must(st, "tree", e.a[0])
            self.ok("validation starts from a checked certificate", fr, bi)

    def ended(self, eng, exits):
        for st, ret in exits:
            if exit_ok(ret) is False:
                continue
            if any(isinstance(k, tuple) and k[0] == "forall" and not k[2] and any(f == ("m", "tree", el(k[1])) and w is True for f, w in v) for k, v in st.facts.items()):
                self.seen["success after all locators"] = self.seen.get("success after all locators", 0) + 1
                self.oblig[("success after all locators", "exit")] = "discharged"
            else:
                self.viol["validation succeeds without a trust anchor of each locator @ exit"] = {
                    "rule": "exit", "where": "validation", "span": "", "text": show(ret, 4)}

    def constructors(self, a, b, i):
        """Wherever a locator is made, its key is what was read from it."""
        n = 0
        for k in sorted(self.ctx.prog.bodies):
            body = self.ctx.prog.bodies[k]
            if body.derived or body.closure or body.generic or a not in str(body.tys[body.locals[0][0]].get("s", "")) or not summary.is_validation(k):
                continue
            if body.argc and a in str(body.tys[body.locals[1][0]].get("s", "")):
                continue
            p = Parser(self.ctx)
            for st, ret in p.run_once(body, {}):
                for x in subterms(ret):
                    if x.op == "adt" and x.a[0] == a and x.a[1] == b:
                        n += 1
                        for y in self.ctx.expand(x.a[2 + i]):
                            if not (app_is(y, "key_info") and app_is(y.a[1], "ok") and app_is(y.a[1].a[1], "read_named", "read")):
                                self.viol["the key of a locator is not the one read from it @ " + k] = {
                                    "rule": "key", "where": k, "span": "", "text": show(y, 5)}
        if n:
            self.seen["the key of a locator is the one read from it"] = n
            self.oblig[("the key of a locator is the one read from it", "its constructors")] = "discharged"


class Parser(Rule):
    stub_validation = False


class C26(Tree):
    """The function which gets the data of a repository is analysed on its
    own, for any data held. Wherever the elements of a file have been gone
    through, each must have been applied in a way that fits; a delta counts
    only with the announced hash and as the next one; on each way out the
    data must be at the session and serial of the notification file that was
    read, or be unchanged if none was, or be gone."""
    opts = dict(Rule.opts, psphi=True)

    def stub(self, eng, st, fr, bi, body, args, t):
        return Rule.stub(self, eng, st, fr, bi, body, args, t)

    def external(self, eng, st, fr, bi, f, args, t):
        return None

    def run(self, entry=None):
        prog = self.ctx.prog
        ds = {k: b for k, b in prog.bodies.items() if summary.is_validation(k) and is_data(b) and not b.derived}
        used = set()
        for k, b in prog.bodies.items():
            if k not in ds and summary.closure_bodies(prog, k) == k or k not in ds and not b.closure:
                used |= {f.get("key") for f in summary.referred(b)} & set(ds)
        used = {k for k in used if "VisitedRepositories" in str([prog.bodies[k].tys[x[0]].get("s", "") for x in prog.bodies[k].locals[1:prog.bodies[k].argc + 1]])} or used
        if len(used) != 1:
            raise Missing("the function which gets the data of a repository")
        self.head = ds[used.pop()]
        rs = [k for k in prog.adts if k.startswith(VAL) and k.endswith("::RepositoryData")]
        if len(rs) != 1:
            raise Missing("the data of a repository")
        self.rd = rs[0]
        fs = prog.adts[self.rd]["v"][0]["f"]
        for n in ("etag", "session_id", "serial", "objects"):
            if n not in fs:
                raise Missing("the %s of the data of a repository" % n)
        self.i = {n: fs.index(n) for n in fs}
        ex = self.run_once(self.head, {})
        self.ends(self.eng, ex)

    # what was held before

    def held(self, t, n):
        return t.op == "fld" and t.a[1] == self.rd and t.a[3] == self.i[n] and app_is(whole(t), "mapget") and from_arg(whole(t).a[1]) is not None

    def data_map(self, t):
        """Is it the field of the data, not of the fetchers?"""
        a = self.ctx.prog.adts.get(t.a[1]) if t.op == "fld" else None
        return a is not None and a["v"][0]["f"][t.a[3]] == "data"

    def all_held(self, t, n):
        return all(self.held(x, n) for x in self.ctx.expand(t))

    def keep(self, st, x):
        if x not in st.ps:
            st.ps = st.ps + (x,)

    def is_nf(self, t):
        return app_is(t, "ok") and app_is(t.a[1], "parse") and "NotificationFile" in t.a[1].a[0] or app_is(t, "nfsorted") and self.is_nf(t.a[1])

    def of_nf(self, t, what):
        return app_is(t, what) and self.is_nf(t.a[1])

    def event(self, eng, st, fr, bi, ev):
        if ev[0] == "FAIL" and "Delta" in st.ps:
            self.keep(st, ("failed",))

    def on_fact(self, eng, st, k, v):
        if isinstance(k, T):
            if app_is(k, "parse") and v is True:
                for n in ("NotificationFile", "Delta", "Snapshot"):
                    if "::%s::" % n in k.a[0] or "::%s>::" % n in k.a[0]:
                        self.keep(st, n)
                        if n == "NotificationFile":
                            self.keep(st, ("nf", k))
                        else:
                            self.keep(st, ("file", k))
            elif app_is(k, "matches") and v is True and any(self.element(x) for x in subterms(k.a[1])):
                self.keep(st, ("matched",))
        elif isinstance(k, tuple) and k[0] == "ord" and v == frozenset("="):
            for a, b in ((k[1], k[2]), (k[2], k[1])):
                if self.of_nf(b, "session_id") and self.all_held(a, "session_id"):
                    self.keep(st, "session")
                if self.of_nf(b, "serial") and not self.of_nf(a, "serial"):
                    self.keep(st, ("at", a))
        elif isinstance(k, tuple) and k[0] == "var" and self.element(k[1]) and len(v) == 1:
            self.keep(st, ("is", min(v)))
        elif isinstance(k, tuple) and k[0] == "var" and v == frozenset([0]) and app_is(k[1], "mapget") and from_arg(k[1].a[1]) and self.data_map(k[1].a[1]):
            self.keep(st, "absent")

    def elements(self, b):
        """The file whose elements these are."""
        if app_is(b, "into_elements", "elements") and app_is(b.a[1], "ok") and app_is(b.a[1].a[1], "parse"):
            return b.a[1].a[1]
        return None

    def element(self, t):
        return t.op == "el" and self.elements(t.a[0]) is not None

    def rename(self, ps, m):
        out = []
        for x in ps:
            if isinstance(x, tuple) and len(x) > 1 and isinstance(x[1], T):
                y = subst(x[1], m)
                x = (x[0], y) + x[2:]
            out.append(x)
        return tuple(out)

    def datas(self, st):
        """All data of repositories in memory."""
        for v in st.mem.values():
            for x in subterms(v):
                if x.op == "adt" and x.a[0] == self.rd:
                    yield x

    def maps(self, st):
        seen = set()
        for x in self.datas(st):
            seen.add(x.a[2 + self.i["objects"]])
        for v in st.mem.values():
            if v.op in ("phi", "mapset", "mapdel", "emptymap"):
                seen.add(v)
        return seen

    def change(self, eng, st, o, e):
        """What became of a map of objects: True if the element was applied
        to it as it should be, False if otherwise, None if not at all."""
        if o.op not in ("mapset", "mapdel") or e not in subterms(o.a[1]):
            return None
        if self.data_of(self.elements(e.a[0])) == "Snapshot":
            return o.op == "mapset" and e in subterms(o.a[2])
        if ("is", 0) in st.ps:
            return o.op == "mapset" and e in subterms(o.a[2])
        if ("is", 1) in st.ps and not (o.op == "mapset" and e in subterms(o.a[2])) or ("is", 2) in st.ps and o.op != "mapdel":
            return False
        if not {("is", 1), ("is", 2)} & set(st.ps):
            return False
        for k, v in st.facts.items():
            if isinstance(k, T) and v is True and app_is(k, "matches") and e in subterms(k.a[1]) and \
                    any(app_is(y, "mapget") and self.same_key(y.a[2], o.a[1]) for y in deep(self.ctx, k.a[2])):
                return True
        return False

    def same_key(self, a, b):
        def core(x):
            while x.op == "adt" and len(x.a) == 3:
                x = x.a[2]
            return x
        return core(a) is core(b)

    def data_of(self, P):
        for n in ("Delta", "Snapshot"):
            if "::%s::" % n in P.a[0] or "::%s>::" % n in P.a[0]:
                return n
        return None

    def hashed(self, eng, st, D, want):
        """Was the content of a file found to have the announced hash?"""
        return any(isinstance(k, T) and v is True and app_is(k, "matches") and k.a[2] is D and app_is(k.a[1], "hash") and want(k.a[1].a[1]) for k, v in st.facts.items())

    def where(self):
        return self.head.path

    def wrong(self, what, text):
        self.viol[what + " @ " + self.head.path] = {"rule": what, "where": self.head.path, "span": "", "text": text}
        self.oblig[(what, self.head.path)] = "violated"

    def right(self, what):
        self.oblig.setdefault((what, self.head.path), "discharged")
        self.seen[what] = self.seen.get(what, 0) + 1

    def folding(self, eng, st, base):
        e = el(base)
        if self.elements(base) is not None:
            kind = self.data_of(self.elements(base))
            done = False
            for m in self.maps(st):
                rs = [self.change(eng, st, o, e) for o in self.ctx.expand(m)]
                if all(r is True for r in rs) and rs:
                    done = True
                elif False in rs and kind == "Delta":
                    self.wrong("an element of a delta is applied which does not fit", show(m, 5))
            if kind == "Delta" and done:
                self.right("an element of a delta is applied")
            if done:
                eng.must(st, "applied", e)
                self.keep(st, ("touched",))
        elif self.announced_deltas(base):
            if ("touched",) in st.ps and not {("up",), ("next",)} & set(st.ps):
                self.wrong("a delta is applied which may not be the next one, or not in full", show(base, 4))
            elif {("up",), ("next",)} & set(st.ps):
                self.right("a delta is applied in full, as the next one")

    def stored(self, eng, st, root, path, v):
        p = path[-1]
        if p[0] == "f" and p[1] == self.rd and p[3] == self.i["serial"]:
            # counted in a variable of its own, and stored at the end?
            after = all(self.counted(x) for x in self.ctx.expand(v)) and not any(self.announced_deltas(eng.phaseinfo[k][0]) for k in st.loops)
            if ("next",) not in st.ps and not after:
                self.wrong("the serial is moved on although no delta was applied in full", show(v, 4))
            st.ps = tuple(x for x in st.ps if x != ("next",))
            self.keep(st, ("up",))

    def fold(self, eng, st, base):
        drop = {("matched",), ("is", 0), ("is", 1), ("is", 2)} if self.elements(base) is not None else \
            {("next",), ("touched",), ("failed",), ("up",)} if self.announced_deltas(base) else ()
        st.ps = tuple(x for x in st.ps if x not in drop and not (isinstance(x, tuple) and x[0] == "file" and self.announced_deltas(base)))

    def announced_deltas(self, base):
        return any(app_is(x, "deltas") and self.is_nf(x.a[1]) for x in subterms(base))

    def closed(self, eng, st, base, done, recs):
        P = self.elements(base)
        if P is None or not done:
            return
        if self.data_of(P) == "Snapshot" and not recs and self.of_announced(eng, st, P):
            self.keep(st, "nothing")
        if self.data_of(P) != "Delta":
            return
        e = el(base)
        if not all(any(k in (("m", "applied", e), ("m", "nothing")) and v is True for k, v in c) for c in recs.values()):
            return
        infos = set()
        for k, v in st.facts.items():
            if isinstance(k, T) and v is True and app_is(k, "matches") and k.a[2] is P.a[1] and app_is(k.a[1], "hash") \
                    and k.a[1].a[1].op == "el" and self.announced_deltas(k.a[1].a[1].a[0]):
                infos.add(k.a[1].a[1])
        for x in self.datas(st):
            s = x.a[2 + self.i["serial"]]
            if any(self.next(eng, st, d, s) for d in infos):
                self.keep(st, ("next",))
                return
        # counted in a variable of its own
        for s in {x for k in st.facts if isinstance(k, tuple) and k[0] == "ord" for y in k[1:3] for x in (y, y.a[1] if app_is(y, "bin:Add") else y)}:
            if (s.op == "phi" or self.counted(s)) and all(self.counted(x) for x in self.ctx.expand(s)) and any(self.next(eng, st, d, s) for d in infos):
                self.keep(st, ("next",))
                self.keep(st, ("local",))
                return

    def counted(self, x):
        return self.held(x, "serial") or app_is(x, "bin:Add") and x.a[2] is INT(1) or app_is(x, "serial") and not self.is_nf(x.a[1])

    def next(self, eng, st, d, s):
        n = [k for k in st.facts if isinstance(k, tuple) and k[0] == "ord"]
        for k in n:
            for a, b, eq, gt in ((k[1], k[2], "=", "<"), (k[2], k[1], "=", ">")):
                # a: from the data held, b: of the delta
                if not (app_is(b, "serial") and b.a[1] is d):
                    continue
                if app_is(a, "bin:Add") and a.a[1] is s and a.a[2] is INT(1) and st.facts[k] == frozenset("="):
                    return True
                if a is s and st.facts[k] == frozenset(gt) and self.gapless(eng, st, d):
                    return True
        return False

    def gapless(self, eng, st, d):
        if not any(isinstance(k, T) and v is True and app_is(k, "gapless") for k, v in st.facts.items()):
            return False
        for k, v in st.facts.items():
            if isinstance(k, tuple) and k[0] == "ord":
                for a, b, ok in ((k[1], k[2], frozenset("<=")), (k[2], k[1], frozenset(">="))):
                    if app_is(a, "serial") and app_is(a.a[1], "firstel") and self.announced_deltas(a.a[1]) and app_is(b, "bin:Add") and b.a[2] is INT(1) \
                            and self.all_held(b.a[1], "serial") and v <= ok:
                        return True
        return False

    # the ways out

    def ends(self, eng, exits):
        for st, ret in exits:
            ms = set()
            for r, v in st.mem.items():
                if isinstance(r, tuple) and len(r) > 1 and r[1] == -1:
                    for x in self.fields(v):
                        if any(y.op in ("mapset", "mapdel") for y in self.ctx.expand(x)):
                            ms.add(x)
            read = "NotificationFile" in st.ps
            if not ms and read and "absent" not in st.ps:
                self.wrong("a notification file was read, but the data is as before", str(st.ps))
            for m in ms:
                self.entries(eng, st, m, (), set(), read)
        self.expect("the data is as announced, after deltas")
        self.expect("the data is as announced, from the snapshot")
        self.expect("the data was already as announced")
        self.expect("the data is removed")
        self.expect("an element of a delta is applied", 3)
        self.expect("a delta is applied in full, as the next one")

    def fields(self, v):
        yield v
        if v.op == "adt":
            for x in v.a[2:]:
                yield from self.fields(x)

    def entries(self, eng, st, m, keys, seen, read):
        for x in self.ctx.expand(m):
            if (x, keys) in seen:
                continue
            seen.add((x, keys))
            if x.op == "mapset":
                if x.a[1] not in keys:
                    for v in self.ctx.expand(x.a[2]):
                        self.entry(eng, st, v, read)
                self.entries(eng, st, x.a[0], keys + (x.a[1],), seen, read)
            elif x.op == "mapdel":
                if not keys:
                    self.right("the data is removed")
                self.entries(eng, st, x.a[0], keys + (x.a[1],), seen, read)
            elif read and not keys and "absent" not in st.ps:
                self.wrong("a notification file was read, but the data is as before", show(x, 4))

    def entry(self, eng, st, v, read):
        if v.op != "adt" or v.a[0] != self.rd:
            if read and not {"session", ("at", mk("fld", v, self.rd, 0, self.i["serial"]))} <= set(st.ps):
                self.wrong("a notification file was read, but the data is as before", show(v, 4))
            return
        part = {n: v.a[2 + i] for n, i in self.i.items()}
        same = {n: self.all_held(part[n], n) for n in ("etag", "session_id", "serial", "objects")}
        if not read:
            if not (same["session_id"] and same["serial"] and same["objects"]):
                self.wrong("the data changes although no notification file was read", show(v, 4))
            elif not same["etag"]:
                self.wrong("an ETag is kept without what came with it", show(part["etag"], 4))
            else:
                self.right("the data is as before, as no notification file was read")
            return
        now = all(self.of_nf(x, "session_id") for x in self.ctx.expand(part["session_id"])) or same["session_id"] and "session" in st.ps
        if not now:
            self.wrong("the data may be of another session than announced", show(part["session_id"], 4))
        ss = self.ctx.expand(part["serial"])
        at = [x[1] for x in st.ps if isinstance(x, tuple) and x[0] == "at"]
        if not (all(self.of_nf(x, "serial") for x in ss) or part["serial"] in at or all(x in at for x in ss)):
            self.wrong("the data may be at another serial than announced", show(part["serial"], 4))
        if not same["etag"] and not self.etag(part["etag"], st):
            self.wrong("an ETag is kept which did not come with the notification file", show(part["etag"], 5))
        os = self.ctx.expand(part["objects"])
        if same["objects"]:
            self.right("the data was already as announced")
        elif all(self.of_snapshot(eng, st, o, part["objects"]) for o in os):
            self.right("the data is as announced, from the snapshot")
        elif all(self.updated(o) for o in os):
            for x in ss:
                if not self.counted(x):
                    self.wrong("the serial is not the one that the deltas lead to", show(x, 4))
            self.right("the data is as announced, after deltas")
        else:
            self.wrong("the data is not what the files say", show(part["objects"], 5))

    def updated(self, o):
        while o.op in ("mapset", "mapdel", "prev", "phi"):
            if o.op in ("phi", "prev"):
                return True         # judged on its own
            if not any(self.element(y) for y in deep(self.ctx, o.a[1])):
                return False
            o = o.a[0]
        return self.held(o, "objects")

    def of_announced(self, eng, st, P):
        """Is it the announced snapshot?"""
        return self.data_of(P) == "Snapshot" and eng.known(st, P) is True and self.hashed(eng, st, P.a[1], lambda x: app_is(x, "snapshot") and self.is_nf(x.a[1]))

    def of_snapshot(self, eng, st, o, whole_map):
        if o.op == "mapfrom" and o.a[0].op == "vec":
            ps = o.a[0].a[1]
            if not ps:
                return "nothing" in st.ps
            return all(p.op == "each" and self.elements(p.a[0]) is not None and self.of_announced(eng, st, self.elements(p.a[0]))
                                    and all(not c and len(ys) == 1 and el(p.a[0]) in subterms(ys[0]) for c, ys in p.a[1]) for p in ps)
        if o is whole_map and o.op == "emptymap":
            return "nothing" in st.ps
        if o.op == "emptymap" or o.op == "mapset":
            # filled in a loop
            bs = {y.a[0] for x in self.ctx.expand(whole_map) if x.op == "mapset" for y in deep(self.ctx, x.a[1]) if self.element(y)}
            bs |= {y.a[0].a[0] for x in self.ctx.expand(whole_map) if x.op == "mapset" for y in deep(self.ctx, x.a[1]) if y.op == "prev" and self.element(y.a[0])}
            return len(bs) == 1 and all(self.of_announced(eng, st, self.elements(b)) and any(
                isinstance(k, tuple) and k[0] == "forall" and k[1] is b and not k[2] and any(f in (("m", "applied", el(b)), ("m", "nothing")) and x is True for f, x in w)
                for k, w in st.facts.items()) for b in bs)
        return False

    def etag(self, t, st):
        """Did it come with the notification file (or is there none)?"""
        for x in self.ctx.expand(t):
            for y in deep(self.ctx, x):
                if app_is(y, "headers") and not any(y.a[1] in deep(self.ctx, k[1]) for k in st.ps if isinstance(k, tuple) and k[0] == "nf"):
                    return False
                if y.op == "fld" and y.a[1] == self.rd and not self.held(y, "etag"):
                    return False
        return True


def types_of(body, i):
    """The name of the type of a parameter."""
    return body.tys[body.locals[i + 1][0]].get("s", "")


def constant(t):
    return t.op in ("int", "bool", "str") or t.op == "adt" and all(constant(x) for x in t.a[2:])


class C22(Gate):
    """Run of the whole program: wherever the validation of a CA is started,
    the data of the source's repository was obtained before, from a validator
    that is new or the same as a new one would be. The function that obtains
    it is analysed on its own, with what it is told to do there: it must not
    succeed without having read the notification file. What is compared of
    validators is taken from the function that compares them."""
    stub_validation = False
    opts = dict(Gate.opts)

    def run(self, entry=None):
        prog = self.ctx.prog
        self.head, self.cycle = head(prog)
        ds = [b for k, b in prog.bodies.items() if summary.is_validation(k) and is_data(b) and not b.derived and b.argc]
        self.repos = {types_of(b, 0) for b in ds if types_of(b, 0).startswith("&mut ")}
        if not self.repos:
            raise Missing("the function which gets the data of a repository")
        self.told = {}          # functions which obtain data, with constant arguments
        self.asking = None
        self.contracts = {}     # comparisons, with the outcome relied on
        self.flags = set()      # what says that data was read in this run
        Gate.run(self, entry)
        for f, consts in sorted(self.told, key=str):
            Reads(self.ctx, self, consts).run(f)
        for f, v in sorted(self.contracts):
            self.compares(f, v)
        for n in sorted(self.flags):
            self.per_run(n)
        self.expect("validation starts with the staged data just obtained")
        self.expect("the data is not obtained without reading the notification file")
        self.expect("a new validator reads the staged files")
        self.expect("a validator is kept if all fetchers and locators are the same")

    # run of the whole program

    def keep(self, st, x):
        if x not in st.ps:
            st.ps = st.ps + (x,)

    def obtains(self, body):
        if body.closure or body.derived or not summary.is_validation(body.key) or not body.argc:
            return False
        return types_of(body, 0) in self.repos and body.tys[body.locals[0][0]].get("n") == RESULT

    def comparison(self, body):
        return summary.is_validation(body.key) and not body.closure and not body.derived and body.tys[body.locals[0][0]].get("s") == "bool" \
            and sum(any(n in types_of(body, i) for n in ("Validator", "Fetcher", "Tal>", "Tal]")) for i in range(body.argc)) >= 2

    def stub(self, eng, st, fr, bi, body, args, t):
        if body.key == self.head.key:
            self.tree(eng, st, fr, bi, args)
            return summary.opaque(eng, st, fr, bi, body, args)
        if self.obtains(body):
            self.asking = (body.path, self.called(fr, bi, body) if self.obtained(eng, st, fr, bi, body, args) else None)
            return summary.opaque(eng, st, fr, bi, body, args)
        if self.comparison(body):
            return summary.opaque(eng, st, fr, bi, body, args)
        return Gate.stub(self, eng, st, fr, bi, body, args, t)

    def called(self, fr, bi, body):
        return ("fresh", body.path, mk("site", models.eng_site(fr, bi)))

    def current(self, st, v, seen=()):
        """Does the value hold what was obtained?"""
        while v.op == "prev":
            v = v.a[0]
        if v.op == "fld" and v.a[0].op == "app" and v.a[0].a[0].startswith("changed:"):
            old = v.a[0].a[1]
            return self.current(st, old.a[2 + v.a[3]] if old.op == "adt" and old.a[0] == v.a[1] else mk("fld", old, *v.a[1:]), seen)
        if v.op == "phi":
            if v in seen:
                return True
            xs = self.ctx.expand(v)
            return bool(xs) and all(self.current(st, x, seen + (v,)) for x in xs if x is not v)
        if v.op == "app" and v.a[0].startswith("changed:"):
            return ("fresh", v.a[0][len("changed:"):], v.a[-1]) in st.ps or self.current(st, v.a[1], seen)
        if v.op == "adt":
            return any(self.current(st, x, seen) for x in v.a[2:] if isinstance(x, T) and x.op in ("phi", "app", "adt", "fld"))
        return False

    def on_fact(self, eng, st, k, v):
        if self.empty_list(k, v, "tal_files"):
            self.keep(st, "none")
        elif isinstance(k, T) and k.op == "app" and k.a[0].startswith("call:"):
            if self.asking and k.a[0] == "call:" + self.asking[0]:
                if v is not True:
                    self.keep(st, "failed")
                elif self.asking[1] is not None:
                    self.keep(st, self.asking[1])
            bs = [b for b in self.ctx.prog.bodies.values() if "call:" + b.path == k.a[0] and self.comparison(b)]
            if bs:
                ns = [x for x in k.a[1:] if isinstance(x, T) and any(self.staged(y) for z in self.ctx.expand(x) for y in subterms(z))]
                if ns and any(self.kept(x) for x in k.a[1:] if isinstance(x, T) and x not in ns):
                    self.keep(st, ("same", bs[0].key, v))

    def kept(self, t):
        return any(self.ctx.is_saved(y) for x in self.ctx.expand(t) for y in subterms(x))

    def alts(self, t):
        """The values a term may stand for, with the variants it may have."""
        for x in self.ctx.expand(t):
            if x.op == "sum":
                for v, fs in x.a[2]:
                    yield mk("adt", x.a[0], v, *fs)
            else:
                yield x

    def ours(self, t):
        """A fetcher of the source."""
        return t.op == "adt" and t.a[0].endswith("::Fetcher") and any(self.ctx.is_cfg(x, "notification_uri") for x in t.a[2:] if isinstance(x, T))

    def staged(self, t):
        """A fetcher of the source, which reads what is staged."""
        if not self.ours(t):
            return False
        ms = [x for i, n in enumerate(self.ctx.prog.adts[t.a[0]]["v"][0]["f"]) if n == "fetch_map" for x in self.alts(t.a[2 + i])]
        return bool(ms) and all(self.reads_staged(x) for x in ms)

    def reads_staged(self, m):
        maps = [x for x in subterms(m) if x.op == "adt" and x.a[0].endswith("::FetchMap")]
        return len(maps) == 1 and any(self.staging_dir(x) for x in subterms(maps[0])) and any(
            app_is(x, "parent") and self.ctx.is_cfg(x.a[1], "notification_uri") for x in subterms(maps[0]))

    def staging_dir(self, x):
        if x.op != "adt" or not x.a[0].endswith("::FetchSource"):
            return False
        return any(self.is_staging(y) for y in x.a[2:])

    def is_staging(self, p):
        return p.op == "join" and p.a[1].op == "str" and p.a[1].a[0] == STAGING and self.ctx.is_cfg(p.a[0], "state_dir")

    def obtained(self, eng, st, fr, bi, body, args):
        """Is the staged data asked for?"""
        if not any(self.ctx.is_cfg(models.deref(eng, st, x), "notification_uri") for x in args[1:]):
            return False
        v = models.deref(eng, st, args[0])
        for x in self.ctx.expand(v):
            if self.ctx.is_saved(whole(x)) or self.ctx.is_saved(x):
                cs = [y[1:] for y in st.ps if isinstance(y, tuple) and y[0] == "same"]
                self.contracts.update((y, True) for y in cs)
                if not cs:
                    self.bad("validation data is kept although the configuration may have changed", fr, bi, show(x, 5))
                    return False
            else:
                fs = [self.staged(y) for y in subterms(x) if self.ours(y)]
                if not fs or not all(fs):
                    self.bad("a new validator does not read the staged files", fr, bi, show(x, 8))
                    return False
                self.ok("a new validator reads the staged files", fr, bi)
        vals = tuple((i, models.deref(eng, st, x)) for i, x in enumerate(args) if constant(models.deref(eng, st, x)))
        self.told[(body.key, vals)] = True
        return True

    def tree(self, eng, st, fr, bi, args):
        v = models.deref(eng, st, args[0])
        if all(self.current(st, x) for x in self.ctx.expand(v)):
            self.ok("validation starts with the staged data just obtained", fr, bi)
        else:
            self.bad("validation starts without having obtained the staged data", fr, bi, show(v, 5))

    def event(self, eng, st, fr, bi, ev):
        p = self.public(eng, st, fr, bi, ev)
        if p is not None:
            if "none" in st.ps or any(isinstance(x, tuple) and x[0] == "fresh" for x in st.ps) and "failed" not in st.ps:
                self.ok("something public is changed after the staged data was obtained for validation, or without validation", fr, bi)
            else:
                self.bad("something public is changed although the staged data was not obtained for validation", fr, bi, "%s %s" % (ev[0], str(st.ps)[:200]))

    # what is compared

    def compares(self, key, outcome):
        """On the way to this outcome, all fetchers of one validator must have
        been found among those of the other, and the locators be equal."""
        prog = self.ctx.prog
        body = prog.bodies[key]
        sub = Rule(self.ctx)
        sub.stub_validation = False
        n = 0
        for st, ret in sub.run_once(body, {}):
            for r in self.ctx.expand(ret):
                if r.op == "bool" and r.a[0] is not outcome:
                    continue
                n += 1
                eqs = [(k[1], k[2], ()) for k, v in st.facts.items() if isinstance(k, tuple) and k[0] == "ord" and v == frozenset("=")]
                if r.op == "ordt" and (r.a[0] == frozenset("=") or str(r.a[0]) == "=") is outcome:
                    eqs.append((r.a[1], r.a[2], ()))
                for k, w in st.facts.items():
                    if isinstance(k, tuple) and k[0] == "forall" and not k[2]:
                        eqs += [(f[1], f[2], k[1]) for f, v in w if f[0] == "ord" and v == frozenset("=")]
                what = [x for x in ("tals", "fetchers") if not any(self.pair(body, x, a, b, base) for a, b, base in eqs)]
                if what:
                    self.wrong(body, "a validator may be kept although the %s differ" % " and ".join(
                        {"tals": "locators", "fetchers": "fetchers"}[x] for x in what), show(r, 4))
                else:
                    self.right(body, "a validator is kept if all fetchers and locators are the same")
        for n in ("::Fetcher", "::FetchMap", "::FetchSource", "::FetchMode", "::Tal", "::TalKeyInfo"):
            for k, b in prog.bodies.items():
                if k.startswith("<krill_sync::") and k.endswith("PartialEq>::eq") and k[1:].split(" as ")[0].endswith(n):
                    if not b.derived:
                        self.wrong(b, "not all parts are compared", k)

    def pair(self, body, what, a, b, base):
        ra, rb = self.roots(a), self.roots(b)
        if not (len(ra) == 1 and len(rb) == 1 and ra != rb):
            return False
        if what == "tals":
            return base == () and all(self.part(x, "tals", body) for x in (a, b))
        xs = []
        for x in (a, b):
            if base != () and (x is el(base) or app_is(x, "deref") and x.a[1] is el(base)):
                x = base
            elif x.op == "wit":
                x = x.a[0]
            while x.op == "app" and len(x.a) == 2 and short(x.a[0]) in ("values", "iter", "keys"):
                x = x.a[1]
            xs.append(x)
        return all(self.part(x, "fetchers", body) for x in xs)

    def roots(self, t):
        return {x for x in subterms(t) if x.op == "arg"}

    def part(self, x, name, body):
        """The locators or the fetchers of a validator."""
        if x.op == "fld":
            a = self.ctx.prog.adts.get(x.a[1])
            return a is not None and a["v"][0]["f"][x.a[3]] == name
        return x.op == "arg" and any({"tals": "Tal", "fetchers": "Fetcher"}[name] in types_of(body, i) for i in range(body.argc)
                                     if (body.locals[i + 1][1] if len(body.locals[i + 1]) > 1 else None) == x.a[0])

    def wrong(self, body, what, text):
        k = "%s @ %s" % (what, body.path)
        self.oblig[(what, body.path)] = "violated"
        self.viol.setdefault(k, {"rule": what, "where": body.path, "span": "", "text": text})

    def right(self, body, what):
        self.oblig.setdefault((what, body.path), "discharged")
        self.seen[what] = self.seen.get(what, 0) + 1

    def per_run(self, name):
        """What says that data was read in this run must not be saved."""
        what = "the mark that data was read in this run is not saved"
        for k, b in self.ctx.prog.bodies.items():
            if "::RepositoryData" in k and "ser::Serialize" in k and "serialize" in k.rsplit(">::", 1)[-1]:
                if '"%s"' % name in str(b.blocks) or "'%s'" % name in str(b.blocks):
                    self.wrong(b, "a mark that data was read in this run is saved", name)
                else:
                    self.right(b, what)
        self.expect(what)


class Reads(Rule):
    """The function which obtains the data, told what it is told there."""
    stub_validation = False

    def __init__(self, ctx, owner, consts):
        Rule.__init__(self, ctx)
        self.owner, self.consts = owner, consts

    def run(self, key):
        prog = self.ctx.prog
        self.head = prog.bodies[key]
        self.i = None
        ex = self.run_once(self.head, {}, dict(self.consts))
        n = 0
        for st, ret in ex:
            for r in self.ctx.expand(ret):
                if r.op == "adt" and r.a[0] == RESULT and r.a[1] == 1:
                    continue
                marks = [x[1] for x in st.ps if isinstance(x, tuple)]
                if not st.ps:
                    self.owner.wrong(self.head, "data may be taken to be current without reading the notification file", show(r, 5))
                else:
                    self.owner.right(self.head, "the data is not obtained without reading the notification file")
                if "read" not in st.ps:
                    self.owner.flags |= set(marks)

    def keep(self, st, x):
        if x not in st.ps:
            st.ps = st.ps + (x,)

    def on_fact(self, eng, st, k, v):
        if isinstance(k, T):
            if app_is(k, "parse") and v is True and "NotificationFile" in k.a[0]:
                if any(app_is(y, "mapget") and from_arg(y.a[1]) and y.a[2].op == "arg" or y.op == "arg" and y.a[0] != "self" for y in deep(self.ctx, k.a[1])):
                    self.keep(st, "read")
            elif v is True and k.op == "fld" and k.a[1].endswith("::RepositoryData") and app_is(whole(k), "mapget"):
                self.keep(st, ("mark", self.ctx.prog.adts[k.a[1]]["v"][0]["f"][k.a[3]]))
        elif k[0] == "ord" and v == frozenset("="):
            for a, b in ((k[1], k[2]), (k[2], k[1])):
                if a.op == "int" and a.a[0] == 304 and any(app_is(x, "status") for x in subterms(b)):
                    self.keep(st, "read")


SOURCES = ("HTTP", "OPEN", "READ", "BODY", "EXEC", "UNKNOWN")


class C35(C22):
    """Run of the whole program with the option for offline validation set:
    what the validation of a CA, and the function which gets the data of a
    repository, are told through their arguments is followed down the calls;
    told so, neither may read from anywhere. Where the data of a repository is
    obtained before the validation of CAs, it must be that of the source."""

    def run(self, entry=None):
        prog = self.ctx.prog
        self.head, self.cycle = head(prog)
        ds = [b for k, b in prog.bodies.items() if summary.is_validation(k) and is_data(b) and not b.derived and b.argc]
        self.repos = {types_of(b, 0) for b in ds if types_of(b, 0).startswith("&mut ")}
        if not self.repos:
            raise Missing("the function which gets the data of a repository")
        self.todo = {}          # (function, what it is told) -> where from
        Gate.run(self, entry)
        done = set()
        reads = 0
        while True:
            more = sorted((x for x in self.todo if x not in done), key=str)
            if not more:
                break
            for x in more:
                done.add(x)
                Told(self.ctx, self, x).run()
        if not any(k == self.head.key for k, _ in done):
            raise Missing("the validation of CAs with the option set")
        # without being told so, the same functions do read
        for k in sorted({k for k, _ in done if k != self.head.key}):
            t = Told(self.ctx, self, (k, ()), True)
            t.run()
            reads += t.reads
        if not reads:
            raise Missing("the function which reads the data of a repository")
        self.expect("nothing is read where the data of a repository is obtained offline")

    def finish(self, eng, exits):
        pass

    def setting(self, st, args):
        for k in st.facts:
            if isinstance(k, T) and self.ctx.is_cfg(k, "offline_validation"):
                return k
        for a in args:
            for x in subterms(a):
                if self.ctx.is_cfg(x, "offline_validation"):
                    return x
        return None

    def told_offline(self, eng, st, args):
        """The constant arguments if the option is set; None if it is not."""
        vs = [models.deref(eng, st, a) for a in args]
        c = self.setting(st, vs)
        if c is not None:
            if st.facts.get(c) is False:
                return None
            st = st.copy()
            st.facts[c] = True
        return tuple((i, x) for i, x in ((i, self.settled(eng, st, v)) for i, v in enumerate(vs)) if x is not None)

    def settled(self, eng, st, v):
        """What is certain of an argument."""
        if v.op == "adt":
            ps = [self.settled(eng, st, x) for x in v.a[2:]]
            if all(p is not None for p in ps) if ps else v.a[1] is not None:
                return mk("adt", v.a[0], v.a[1], *ps)
            if v.a[1] == 0 and any(p is not None for p in ps) and len(self.ctx.prog.adts.get(v.a[0], {}).get("v", ())) == 1:
                return mk("adt", v.a[0], 0, *[p if p is not None else mk("arg", "%s.%d" % (v.a[0], i)) for i, p in enumerate(ps)])
            return None
        k = eng.known(st, v)
        if k is not None:
            return models.BOOL(k) if hasattr(models, "BOOL") else (TRUE if k else FALSE)
        if v.op == "phi":
            xs = {self.settled(eng, st, x) for x in self.ctx.expand(v)}
            return xs.pop() if len(xs) == 1 else None
        return None

    def stub(self, eng, st, fr, bi, body, args, t):
        if body.key == self.head.key:
            c = self.told_offline(eng, st, args)
            if c is not None:
                self.todo[(body.key, c)] = chain(fr)
            return summary.opaque(eng, st, fr, bi, body, args)
        if self.obtains(body):
            if self.told_offline(eng, st, args) is not None:
                if any(self.ctx.is_cfg(models.deref(eng, st, x), "notification_uri") for x in args[1:]):
                    self.ok("only the data of the source is obtained before validation", fr, bi)
                else:
                    self.bad("the data of another repository than the source may be obtained although validation is to be offline", fr, bi, "")
            return summary.opaque(eng, st, fr, bi, body, args)
        if self.comparison(body):
            return summary.opaque(eng, st, fr, bi, body, args)
        return Gate.stub(self, eng, st, fr, bi, body, args, t)

    def on_fact(self, eng, st, k, v):
        pass

    def event(self, eng, st, fr, bi, ev):
        pass


class Told(Rule):
    """A function of the validation, with what it is told if the option for
    offline validation is set."""
    stub_validation = False
    opts = dict(Rule.opts, recursion=1)

    def __init__(self, ctx, owner, what, free=False):
        Rule.__init__(self, ctx)
        self.owner, self.free = owner, free
        self.key, self.consts = what
        self.reads = 0

    def run(self):
        self.body = self.ctx.prog.bodies[self.key]
        self.run_once(self.body, {}, dict(self.consts))
        if not self.free and self.key != self.owner.head.key and not self.reads:
            self.owner.right(self.body, "nothing is read where the data of a repository is obtained offline")

    def stub(self, eng, st, fr, bi, body, args, t):
        if self.key == self.owner.head.key and (is_data(body) or self.owner.obtains(body)):
            self.owner.todo[(body.key, self.told(eng, st, args))] = chain(fr)
            return summary.opaque(eng, st, fr, bi, body, args)
        return Rule.stub(self, eng, st, fr, bi, body, args, t)

    def told(self, eng, st, args):
        vs = [models.deref(eng, st, a) for a in args]
        return tuple((i, x) for i, x in ((i, self.owner.settled(eng, st, v)) for i, v in enumerate(vs)) if x is not None)

    def event(self, eng, st, fr, bi, ev):
        if ev[0] == "RECURSE" and ev[1] == self.owner.head.key:
            self.owner.todo[(ev[1], self.told(eng, st, ev[2]))] = chain(fr)
        elif ev[0] in SOURCES or ev[0] == "FAIL" and ev[1] in SOURCES:
            self.reads += 1
            if not self.free:
                self.owner.bad("something is read for validation although it is to be offline", fr, bi, "%s, told %s" % (
                    ev[0] if ev[0] != "FAIL" else ev[1], ", ".join("%d: %s" % (i, show(x, 3)) for i, x in self.consts)))
