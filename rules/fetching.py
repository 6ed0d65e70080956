"""Requests: where they go, how they are checked, what is made of the answer."""
from common import *

FS = "krill_sync::fetch::FetchSource"


HOLE = mk("hole")


def skeletons(ctx, t, d=0):
    """The forms a value may have: with everything that is not constant left
    open."""
    out = set()
    for x in ctx.expand(t):
        if x.op == "adt" and d < 5:
            fs = [()]
            for y in x.a[2:]:
                fs = [f + (z,) for f in fs for z in sorted(skeletons(ctx, y, d + 1), key=str)][:64]
            out |= {mk("adt", x.a[0], x.a[1], *f) for f in fs}
        elif x.op == "sum" and d < 5:
            for v, ys in x.a[2]:
                fs = [()]
                for y in ys:
                    fs = [f + (z,) for f in fs for z in sorted(skeletons(ctx, y, d + 1), key=str)][:64]
                out |= {mk("adt", x.a[0], v, *f) for f in fs}
        elif x.op in ("bool", "int", "str", "unit"):
            out.add(x)
        else:
            out.add(HOLE)
    return out


def anyhole(x):
    return any(y is HOLE for y in subterms(x))


def fill(x, sym):
    if x is HOLE:
        return sym
    if x.op == "adt":
        return mk("adt", x.a[0], x.a[1], *[fill(y, mk("fld", sym, x.a[0], x.a[1], i)) for i, y in enumerate(x.a[2:])])
    return x


def base_form(b):
    """none, uri, file or ? of a source base given."""
    if b.op == "adt" and b.a[0] == OPTION:
        if b.a[1] == 0:
            return "none"
        x = b.a[2]
        if x.op == "adt" and x.a[0] == FS:
            return "uri" if len(x.a) == 4 else "file"
    return "?"


class Parser(Rule):
    """Only to run the argument parser."""
    stub_config = False


class Net(Rule):
    """ps: pairs (what, value) of what is known: 'insecure' the option,
    'base' whether a source base was given and its form, 'http' what became
    of the last request, 'nf' whether the notification file was read."""
    stub_config = False
    opts = dict(Rule.opts, psphi=True)
    fromclap = None

    # the arguments

    def run(self, entry=None):
        self.arguments()
        return Rule.run(self, entry)

    def arguments(self):
        """What the argument parser can make of each option."""
        bs = [b for k, b in self.ctx.prog.bodies.items() if k.endswith("::from_clap") and CONFIG in k]
        if len(bs) != 1:
            raise Missing("the argument parser of the configuration")
        p = Parser(self.ctx)
        ex = p.run_once(bs[0], {})
        self.fromclap = [ret for st, ret in ex if ret.op == "adt" and ret.a[0] == CONFIG]
        if not self.fromclap or len(self.fromclap) != len(ex):
            raise Missing("the configuration made from the arguments")
        n = {f: i for i, f in enumerate(self.ctx.cfgfields)}
        for r in self.fromclap:
            for x in self.ctx.expand(r.a[2 + n["insecure"]]):
                if not (app_is(x, "is_present") and x.a[2] is STR("insecure")):
                    self.viol["the insecure option can be on without being given @ arguments"] = {
                        "rule": "insecure", "where": "config::Config", "span": "", "text": show(x, 5)}

    def parsed_args(self, t):
        """The configurations that may come from the arguments: fields are
        symbols, except that options which cannot be given have the value
        they always have and the source base the forms which it can have."""
        names = self.ctx.cfgfields
        vals = [set() for _ in names]
        for r in self.fromclap:
            for i in range(len(names)):
                vals[i] |= skeletons(self.ctx, r.a[2 + i])
        out = [()]
        for i, f in enumerate(names):
            sym = mk("fld", t, CONFIG, 0, i)
            vs = vals[i]
            if f == "source_uri_base" and HOLE not in vs:
                out = [o + (fill(v, sym),) for o in out for v in sorted(vs, key=str)]
            elif len(vs) == 1 and not anyhole(next(iter(vs))):
                out = [o + (fill(next(iter(vs)), sym),) for o in out]
            else:
                out = [o + (sym,) for o in out]
        return [mk("adt", CONFIG, 0, *o) for o in out]

    fr = bi = None

    def event(self, eng, st, fr, bi, ev):
        self.fr, self.bi = fr, bi
        return Rule.event(self, eng, st, fr, bi, ev)

    def external(self, eng, st, fr, bi, f, args, t):
        if (f.get("path") or "").endswith("StructOpt::from_args"):
            if self.fromclap is None:
                return None
            out = []
            for c in self.parsed_args(app("from_args")):
                s = st.copy()
                b = c.a[2 + self.ctx.cfgfields.index("source_uri_base")]
                self.put(s, "base", base_form(b))
                out.append((s, c))
            return out
        return None

    def get(self, st, k):
        return dict(st.ps).get(k)

    def put(self, st, k, v):
        d = dict(st.ps)
        if v is None:
            d.pop(k, None)
        else:
            d[k] = v
        st.ps = tuple(sorted(d.items(), key=str))

    def in_base(self, t):
        """A part of the source base that was given."""
        n = 0
        while t.op == "fld" and n < 6:
            if self.ctx.is_cfg(t, "source_uri_base"):
                return True
            t = t.a[0]
            n += 1
        return False

    def on_fact(self, eng, st, k, v):
        if isinstance(k, T) and self.ctx.is_cfg(k, "insecure"):
            self.put(st, "insecure", v)
        self.fact(eng, st, k, v)

    def fact(self, eng, st, k, v):
        pass

    # requests

    def request(self, req):
        """[(URI, headers, client settings)] of a request; settings None if
        they are not known."""
        out = []
        for x in self.ctx.expand(req):
            out += self.req1(x, (), 0)
        return out

    def req1(self, x, calls, n):
        if n > 30:
            return [(None, calls, None)]
        if x.op != "app":
            return [(None, calls, None)]
        p = str(x.a[0]).replace("call:", "")
        if "::request::RequestBuilder::" in p:
            out = []
            for y in self.ctx.expand(x.a[1]):
                out += self.req1(y, calls + ((short(p),) + tuple(x.a[2:]),), n + 1)
            return out
        if "::client::Client::" in p and short(p) in ("get", "request", "head", "post"):
            out = []
            for y in self.ctx.expand(x.a[1]):
                for s in self.client(y, (), 0):
                    out.append((x.a[3] if short(p) == "request" else x.a[2], calls, s))
            return out
        if p.endswith("reqwest::blocking::get"):
            return [(x.a[1], calls, ())]
        return [(None, calls, None)]

    def client(self, x, sets, n):
        if n > 30 or x.op != "app":
            return [None]
        p = str(x.a[0]).replace("call:", "")
        if short(p) == "ok":
            return [s for y in self.ctx.expand(x.a[1]) for s in self.client(y, sets, n + 1)]
        if "::client::Client::new" in p or "::client::Client::builder" in p or p.endswith("ClientBuilder::new"):
            return [sets]
        if "::client::ClientBuilder::" in p:
            if short(p) != "build":
                sets = sets + ((short(p),) + tuple(x.a[2:]),)
            return [s for y in self.ctx.expand(x.a[1]) for s in self.client(y, sets, n + 1)]
        if short(p) in ("clone", "default"):
            return [sets]
        return [None]



def is_status(t):
    return any(app_is(x, "status") and "Response" in x.a[0] for x in subterms(t))


def part_of_body(ctx, t):
    return any(x.op == "app" and x.a[0] == "body" for y in ctx.expand(t) for x in subterms(y))


class C27(Net):
    """Every request for publication is made with certificates and host names
    checked, unless the insecure option was given."""
    RELAX = ("danger", "tls_danger", "use_preconfigured_tls", "add_root_certificate", "tls_certs", "tls_built_in", "resolve", "proxy", "min_tls", "max_tls")

    def on_HTTP(self, eng, st, fr, bi, ok, req, *more):
        if not ok:
            return
        ins = self.get(st, "insecure")
        if ins is True:
            self.ok("a request of a run with the insecure option", fr, bi)
            return
        for u, calls, sets in self.request(req):
            if sets is None:
                self.bad("a request is made by a client whose settings are not known", fr, bi, show(req, 8))
                continue
            for c in sets:
                if not c[0].startswith(self.RELAX):
                    continue
                for x in self.ctx.expand(c[1]) if c[0].startswith("danger") else [None]:
                    if x is BOOL(False) or (x is not None and self.ctx.is_cfg(x, "insecure")):
                        continue
                    self.bad("%s is used without the insecure option" % c[0], fr, bi, show(x, 6) if x is not None else "")
                    break
            self.ok("a request is made with all checks", fr, bi)

    def finish(self, eng, exits):
        self.expect("a request is made with all checks", 3)


class C28(Net):
    """Content only from a 200 response; 'unmodified' only from a 304; other
    responses fail; requests time out."""
    MAXTIME = 86400

    def __init__(self, ctx):
        Net.__init__(self, ctx)
        self.conds = set()

    def status(self, st, k, v):
        if isinstance(k, tuple) and k[0] == "ord" and self.get(st, "http") is not None:
            for a, b in ((k[1], k[2]), (k[2], k[1])):
                if a.op == "int" and is_status(b) and v == frozenset("="):
                    self.put(st, "http", a.a[0])

    def fact(self, eng, st, k, v):
        self.status(st, k, v)
        if isinstance(k, T) and v is True and app_is(k, "parse") and part_of_body(self.ctx, k.a[1]):
            self.used(st, self.fr, self.bi)
            if "NotificationFile" in k.a[0]:
                self.put(st, "nf", True)

    def on_known(self, eng, st, k, v):
        self.status(st, k, v)

    def event(self, eng, st, fr, bi, ev):
        k = ev[0]
        if k == "HTTP" and ev[1]:
            self.put(st, "http", "sent")
            self.timeout(fr, bi, ev[2])
            self.condition(fr, bi, ev[2])
        elif k == "FAIL" and ev[1] in ("HTTP", "BODY"):
            self.put(st, "http", "failed")
        elif k == "WRITE" and ev[1]:
            if part_of_body(self.ctx, ev[3]):
                self.used(st, fr, bi)
            self.saves(st, fr, bi, ev[3])
        if k in CHANGES and (len(ev) < 2 or ev[1]):
            for p in changed_paths(ev):
                ks = self.ctx.kinds(p)
                if is_public(ks):
                    self.passed(st, fr, bi)
                if "NOTIF" in ks:
                    self.put(st, "pub", True)
        return Net.event(self, eng, st, fr, bi, ev)

    def used(self, st, fr, bi):
        h = self.get(st, "http")
        if h == 200:
            self.ok("content is used after a 200 response", fr, bi)
        else:
            self.bad("content is used without a 200 response", fr, bi, str(h))

    def passed(self, st, fr, bi):
        """The run carries on to publish."""
        h = self.get(st, "http")
        if h in (None, 200):
            self.ok("publication follows a 200 response", fr, bi)
        else:
            self.bad("publication goes on after a response which is no 200", fr, bi, str(h))

    def timeout(self, fr, bi, req):
        for u, calls, sets in self.request(req):
            ts = [c[1] for c in calls if c[0] == "timeout"] or [c[1] for c in sets or () if c[0] == "timeout"][:1]
            if sets is None:
                self.bad("a request is made by a client whose settings are not known", fr, bi, show(req, 8))
            elif not ts:
                self.ok("a request has a finite time-out", fr, bi)      # the client's default
            for t in ts[:1]:
                xs = [self.seconds(x) for x in self.ctx.expand(t)]
                if all(x is not None and 0 < x <= self.MAXTIME for x in xs):
                    self.ok("a request has a finite time-out", fr, bi)
                else:
                    self.bad("a request may wait for ever", fr, bi, show(t, 6))

    def seconds(self, x):
        if x.op == "adt" and x.a[0] == OPTION:
            return self.seconds(x.a[2]) if x.a[1] == 1 else None
        f = {"from_secs": 1, "from_millis": 0.001, "from_mins": 60, "from_hours": 3600}
        if x.op == "app" and short(x.a[0]) in f and x.a[1].op == "int":
            return x.a[1].a[0] * f[short(x.a[0])]
        if x.op == "app" and short(x.a[0]) == "new" and "Duration" in x.a[0] and x.a[1].op == "int":
            return x.a[1].a[0] or 1
        return None

    def condition(self, fr, bi, req):
        for u, calls, sets in self.request(req):
            for c in calls:
                if c[0] != "header":
                    if c[0] == "headers":
                        self.bad("a request is sent with headers which are not known", fr, bi, show(c[1], 5))
                    continue
                names = [str(y) for y in self.ctx.expand(c[1])]
                if not any("if_" in n.lower() or "if-" in n.lower() for n in names):
                    continue
                for x in self.ctx.expand(c[2]):
                    k = self.savedfield(x)
                    if k is not None:
                        self.conds.add(k)
                        self.ok("the condition of a request is a saved one", fr, bi)
                    elif x.op != "str":
                        self.bad("the condition of a request is not one that was saved", fr, bi, show(x, 6))

    def savedfield(self, x):
        n = 0
        while x.op == "fld" and n < 5:
            if x.a[1] != OPTION:
                return x.a[1:] if from_rrdp_state(self.ctx, x) else None
            x = x.a[0]
            n += 1
        return None

    def saves(self, st, fr, bi, d):
        """The ETag of a response is only saved after its content was
        processed."""
        if saved_json(d) is None:
            return
        for x in subterms(d):
            if x.op == "adt" and self.get(st, "pub") is not True:
                for i, y in enumerate(x.a[2:]):
                    if y.op in ("app", "adt", "phi", "fld") and any(self.etag_now(z) for z in self.ctx.expand(y)):
                        self.bad("an ETag is saved before the content which it came with was processed", fr, bi, show(y, 5))

    def etag_now(self, z):
        if z.op == "adt" and z.a[0] != OPTION:
            return False
        return any(app_is(x, "headers") or (x.op == "app" and x.a[0] == "response") for x in subterms(z)) and not any(x.op == "app" and x.a[0] == "body" for x in subterms(z))

    def finish(self, eng, exits):
        for w in ("content is used after a 200 response", "publication follows a 200 response", "a request has a finite time-out"):
            self.expect(w)
        for st, ret in exits:
            if exit_ok(ret):
                h = self.get(st, "http")
                if h not in (None, 200, 304) or (h == 304 and self.get(st, "nf")):
                    self.viol["a run succeeds after a response which is neither content nor 'unmodified' @ exit"] = {"rule": "exit", "where": "main", "span": "", "text": str(st.ps)}


class C29(Net):
    """With a source base, everything is fetched from beneath it, at the path
    which the URI has beneath the parent of the notification URI."""

    def relative(self, t):
        """The URI whose path below the notification URI's parent this is."""
        while app_is(t, "as_bytes", "as_str", "as_ref", "borrow", "deref", "to_string", "to_owned"):
            t = t.a[1]
        if not app_is(t, "stripped"):
            return None
        if not self.parent(t.a[2]):
            return None
        return t.a[1]

    def same(self, a, b):
        """The same path, relative to the base of this run or of an earlier
        one."""
        return a is b or app_is(a, "stripped") and app_is(b, "stripped") and a.a[1] is b.a[1] and self.parent(a.a[2])

    def parent(self, b):
        xs = self.ctx.origins(b)
        for x in xs:
            while x.op == "fld" and x.a[1] in (OPTION, RESULT) or app_is(x, "ok", "as_str", "to_string"):
                x = x.a[0] if x.op == "fld" else x.a[1]
            if not (app_is(x, "parent") or x.op == "parent"):
                return False
            if not self.ctx.is_cfg(x.a[1] if x.op == "app" else x.a[0], "notification_uri"):
                return False
        return bool(xs)

    def in_base(self, t):
        n = 0
        while t.op == "fld" and n < 6:
            if self.ctx.is_cfg(t, "source_uri_base"):
                return True
            t = t.a[0]
            n += 1
        return False

    def plain(self, eng, st, rel, u):
        """No segment of the path is special."""
        if self.ctx.is_cfg(u, "notification_uri"):
            return True             # one segment
        segs = {"..": False, "": False, ".": False}
        for k, v in st.facts.items():
            if isinstance(k, tuple) and k[0] == "forall" and app_is(k[1], "split") and self.same(k[1].a[1], rel) and not k[2]:
                for kk, vv in v:
                    if isinstance(kk, tuple) and kk[0] == "ord" and "=" not in vv:
                        for x in (kk[1], kk[2]):
                            if x.op == "str":
                                segs[x.a[0]] = True
        return segs[".."] and segs[""]

    def on_HTTP(self, eng, st, fr, bi, ok, req, *more):
        if not ok:
            return
        b = self.get(st, "base")
        if b == "none":
            self.ok("a request of a run without a source base", fr, bi)
            return
        if b == "file":
            self.bad("a request is made although the source base is a directory", fr, bi, show(req, 6))
            return
        for u, calls, sets in self.request(req):
            for x in self.ctx.expand(u) if u is not None else [None]:
                while x is not None and (app_is(x, "ok", "as_str", "to_string") or x.op == "fld" and x.a[1] == RESULT):
                    x = x.a[1] if x.op == "app" else x.a[0]
                if x is None or not app_is(x, "join") or not self.in_base(x.a[1]):
                    self.bad("a request is not made to the source base", fr, bi, show(x, 7) if x is not None else "unknown")
                else:
                    self.fetched(eng, st, fr, bi, x.a[2])

    def fetched(self, eng, st, fr, bi, r):
        while app_is(r, "as_bytes", "as_str", "as_ref"):
            r = r.a[1]
        n = self.relative(r)
        if n is None:
            self.bad("a file is not fetched at its path beneath the source base", fr, bi, show(r, 7))
        elif not self.plain(eng, st, r, n):
            self.bad("a file may be fetched from outside the source base", fr, bi, show(r, 7))
        else:
            self.ok("a file is fetched at its path beneath the source base", fr, bi)

    def on_READ(self, eng, st, fr, bi, ok, p, *more):
        if not ok:
            return
        if any(self.in_base(y) for x in self.ctx.expand(p) for y in subterms(x)):
            for x in self.ctx.expand(p):
                if x.op == "join" and self.in_base(x.a[0]):
                    self.fetched(eng, st, fr, bi, x.a[1])
                else:
                    self.bad("a file is not read beneath the source base", fr, bi, show(x, 6))
            if self.get(st, "base") != "file":
                self.bad("a file is read although the source base is no directory", fr, bi, show(p, 6))

    def finish(self, eng, exits):
        self.expect("a file is fetched at its path beneath the source base", 6)
