"""What the rules share: the description of the program's paths and saved
state, the base monitor, and the collection of obligations and violations."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "engine"))

from terms import *
from interp import *
import models
import summary

CONFIG = "krill_sync::config::Config"
STAGING = "pre-validate-staging"
RRDP_STATE = "rrdp-state.json"
RSYNC_STATE = "rsync-state.json"


class Missing(Exception):
    """An anchor of the rule is not found in the program."""


def whole(t):
    """What a value is a part of."""
    while True:
        if t.op in ("fld", "el"):
            t = t.a[0]
        elif t.op == "app" and t.a[0] in ("firstel", "lastel"):
            t = t.a[1]
        else:
            return t


class Ctx:
    """The program under analysis."""

    def __init__(self, prog):
        self.prog = prog
        if CONFIG not in prog.adts:
            raise Missing("type " + CONFIG)
        self.cfgfields = prog.adts[CONFIG]["v"][0]["f"]
        self.saved = {}      # (adt, variant, field) -> values it is saved with
        self.frame0 = 0
        self.pushlog = None
        self.savedattrs = {}  # (adt, variant, field) -> order it is saved in
        self.phidef = {}
        self.counts = {}
        self.writers = None  # functions of the validation module which write
        self._exp = {}
        self._busy = set()
        self._cyclic = False

    def cfg(self, name):
        if name not in self.cfgfields:
            raise Missing("configuration option " + name)
        return self.cfgfields.index(name)

    # ---- terms ------------------------------------------------------------

    def is_cfg(self, t, *names):
        return t.op == "fld" and t.a[1] == CONFIG and self.cfgfields[t.a[3]] in names

    def is_saved(self, t):
        """A (part of a) value read back from saved state."""
        t = whole(t)
        return t.op == "app" and t.a[0] == "fromjson"

    def saved_type(self, t):
        t = whole(t)
        if t.op == "app" and t.a[0] == "fromjson":
            return t.a[2].a[0] if t.a[2].op == "ty" else None

    def expand(self, t, seen=()):
        """The terms a term may stand for where flows of data were joined."""
        if t.op == "phi":
            if t in seen:
                return frozenset()
            out = set()
            for d in self.phidef.get(t, ()):
                out |= self.expand(d, seen + (t,))
            return frozenset(out) if out or t in self.phidef else frozenset([t])
        if t.op == "el" and t.a[0].op in ("phi", "vec"):
            if t in seen:
                return frozenset()
            out = set()
            for b in self.expand(t.a[0], seen + (t,)):
                if b.op == "vec":
                    for p in b.a[1]:
                        for v in part_values(p):
                            out |= self.expand(v, seen + (t,))
                elif b.op != "phi":
                    out.add(mk("el", b))
            return frozenset(out) if out else frozenset([t])
        if t.op == "fld" and t.a[0].op in ("phi", "fld", "el"):
            b = self.expand(t.a[0], seen)
            if b != frozenset([t.a[0]]):
                out = set()
                for x in b:
                    p = proj(x, t.a[1], t.a[2], t.a[3])
                    if p.op != "undef":
                        out |= self.expand(p, seen) if p is not t else {p}
                return frozenset(out)
        if t.op == "sum":
            return frozenset([t])
        return frozenset([t])

    def origins(self, t, seen=()):
        """expand(), and through the saved state to what was saved."""
        out = set()
        for x in self.expand(t):
            if x.op == "fld" and self.is_saved(x):
                k = (x.a[1], x.a[2], x.a[3])
                if k in seen:
                    continue
                vs = self.saved.get(k)
                if vs:
                    for v in vs:
                        out |= self.origins(v, seen + (k,))
                    continue
            out.add(x)
        return frozenset(out)

    def save_value(self, v, depth=0, seen=None):
        """Records the fields of a value which is saved."""
        if seen is None:
            seen = set()
        if v in seen or depth > 12:
            return
        seen.add(v)
        if v.op == "phi":
            for x in self.expand(v):
                self.save_value(x, depth + 1, seen)
        elif v.op == "adt":
            for i, x in enumerate(v.a[2:]):
                self.saved.setdefault((v.a[0], v.a[1], i), set()).add(x)
                self.save_value(x, depth + 1, seen)
        elif v.op == "sum":
            for var, pay in v.a[2]:
                for i, x in enumerate(pay):
                    self.saved.setdefault((v.a[0], var, i), set()).add(x)
                    self.save_value(x, depth + 1, seen)
        elif v.op == "vec":
            for p in v.a[1]:
                for x in part_values(p):
                    self.save_value(x, depth + 1, seen)

    # ---- paths ------------------------------------------------------------

    def parts(self, t):
        """A path as its root and the names appended to it."""
        if t.op == "join":
            r, ps = self.parts(t.a[0])
            return r, ps + [t.a[1]]
        if t.op == "withext":
            r, ps = self.parts(t.a[0])
            if ps:
                return r, ps[:-1] + [mk("extname", ps[-1], t.a[1])]
            return mk("extname", r, t.a[1]), []
        if t.op in ("parent", "anc"):
            r, ps = self.parts(t.a[0])
            if t.op == "parent" and ps:
                return r, ps[:-1] + ([] if single(ps[-1]) else [mk("parentname", ps[-1])])
            if t.op == "anc" and ps:
                return r, [mk("ancname", *ps)]
            return mk("parentof", r), []
        if t.op == "cat" and t.a[0].op in ("display", "lossy", "join"):
            h = t.a[0]
            r, ps = self.parts(h if h.op == "join" else h.a[0])
            rest = t.a[1:]
            if rest and rest[0].op == "str" and rest[0].a[0].startswith("/"):
                n = rest[0].a[0].lstrip("/")
                tail = ((STR(n),) if n else ()) + rest[1:]
                return r, ps + ([cat(*tail)] if tail else [])
            return r, ps[:-1] + [cat(ps[-1], *rest)] if ps else ps
        if t.op == "app" and t.a[0] in ("canonical", "display", "lossy") and len(t.a) > 1:
            return self.parts(t.a[1])
        if t.op == "display":
            return self.parts(t.a[0])
        return t, []

    def kinds(self, t):
        """What a path may denote (a set of class names)."""
        r = self._exp.get(t)
        if r is None:
            if t in self._busy:
                # a path made from itself: what it is made of otherwise counts
                self._cyclic = True
                return frozenset()
            outer, self._cyclic = self._cyclic, False
            self._busy.add(t)
            try:
                r = frozenset(self._kinds(t)) or frozenset(["UNKNOWN"])
            finally:
                self._busy.discard(t)
            if not self._cyclic or not self._busy:
                self._exp[t] = r
                self._cyclic = outer
        return r

    def _kinds(self, t, depth=0):
        out = set()
        if depth > 6:
            return {"UNKNOWN"}
        alts = self.expand(t)
        if alts != frozenset([t]):
            for x in alts:
                out |= self._kinds(x, depth + 1)
            return out
        root, rels = self.parts(t)
        for r in self.expand(root):
            if r is not root:
                r, more = self.parts(r)
                rs = more + rels
            else:
                rs = rels
            out |= self.classify(r, rs)
        return out

    def classify(self, r, rels):
        if r.op == "parentof":
            return {x if x.startswith("DIR:") else "DIR:" + x for x in self.kinds(r.a[0])}
        if r.op == "extname":
            return {"OTHER"}
        if r.op == "fld" and r.a[1] == CONFIG:
            f = self.cfgfields[r.a[3]]
            if f == "state_dir":
                if not rels:
                    return {"STATEDIR"}
                n = rels[0]
                if n.op == "str":
                    if n.a[0] == STAGING:
                        return {"STAGE"}
                    if len(rels) == 1 and n.a[0] == RRDP_STATE:
                        return {"RSTATE"}
                    if len(rels) == 1 and n.a[0] == RSYNC_STATE:
                        return {"SSTATE"}
                return {"STATEOTHER"}
            if f == "rrdp_dir":
                return self.public(rels)
            if f == "rsync_dir":
                if len(rels) == 1 and rels[0].op == "str" and rels[0].a[0] == "current":
                    return {"CURRENT"}
                return {"RSYNC"}
            return {"INPUT"}
        if self.is_saved(r):
            return self.public(rels)
        if r.op == "str" or r.op == "cat":
            return {"OTHER"}
        if any(x.op == "fld" and x.a[1] == CONFIG for x in subterms(r)):
            return {"INPUT"}
        return {"OTHER"}

    def public(self, rels):
        if len(rels) == 1 and any(self.is_notif_name(x) for x in self.expand(rels[0])):
            return {"PUB", "NOTIF"}
        return {"PUB"}

    def is_notif_name(self, t):
        """The last segment of the notification URI."""
        for x in self.origins(t):
            if x.op == "app" and x.a[0] == "stripped" and self.is_cfg(x.a[1], "notification_uri"):
                return True
        return False


def single(t):
    return t.op == "str" and "/" not in t.a[0]


def part_values(p):
    if p.op == "one":
        return [p.a[0]]
    if p.op == "many":
        return list(p.a[0])
    if p.op == "each":
        out = []
        for c, vs in p.a[1]:
            out.extend(vs)
        return out
    return []


# ---- monitors ------------------------------------------------------------------


def fn_name(fr):
    f = fr
    while f is not None and (f.body.closure or f.body.path.startswith("synth")):
        f = f.parent
    return (f or fr).body.path


def chain(fr):
    """Where an event happens: its function and who called it, without lines."""
    out = []
    for f in fr.chain():
        n = f.body.path
        if f.body.closure or n.startswith("synth") or "synth" in n:
            continue
        if not out or out[-1] != n:
            out.append(n)
    return " < ".join(short2(x) for x in out[:4])


def short2(p):
    return p.replace("krill_sync::", "")


class Rule:
    """Base of the monitors."""
    on_fact = None
    on_known = None
    stub_config = True
    stub_validation = True
    entry = "krill_sync::main"
    opts = {"max_steps": 400000}

    def __init__(self, ctx):
        self.ctx = ctx
        self.viol = {}
        self.oblig = {}
        self.seen = {}
        self.stubbed = set()

    # obligations

    def ok(self, what, fr, bi):
        self.oblig.setdefault((what, chain(fr)), "discharged")
        self.seen[what] = self.seen.get(what, 0) + 1

    def bad(self, key, fr, bi, text):
        k = "%s @ %s" % (key, chain(fr))
        self.oblig[(key, chain(fr))] = "violated"
        if k not in self.viol:
            self.viol[k] = {"rule": key, "where": chain(fr), "span": span(fr, bi), "text": text}

    def expect(self, what, n=1):
        if self.seen.get(what, 0) < n:
            raise Missing("no construct found for: " + what)

    def finish(self, eng, exits):
        pass

    def rename(self, ps, m):
        return ps

    # engine interface

    def stub(self, eng, st, fr, bi, body, args, t):
        if self.stub_config and returns_config(body) and not body.closure:
            self.stubbed.add(body.path)
            return summary.opaque(eng, st, fr, bi, body, args)
        if self.stub_validation and not body.closure and summary.is_validation(body.key) and not summary.is_validation(fr.body.key) \
                and not fr.body.path.startswith("synth"):
            if body.key in (self.ctx.writers or ()):
                return None
            if pure_data(body):
                return None
            self.stubbed.add(body.path)
            return summary.opaque(eng, st, fr, bi, body, args)

    def event(self, eng, st, fr, bi, ev):
        h = getattr(self, "on_" + ev[0], None)
        if h is not None:
            return h(eng, st, fr, bi, *ev[1:])
        return None

    def run(self, entry=None):
        prog = self.ctx.prog
        b = prog.find(entry or self.entry)
        if not b:
            raise Missing("function " + (entry or self.entry))
        before = (dict(self.viol), dict(self.oblig), dict(self.seen))
        ex = self.run_once(b[0], {})
        no = set()
        for n in range(4):
            if not self.eng.narrowed:
                break
            # an order was taken for granted which did not last
            no |= self.eng.narrowed
            self.viol, self.oblig, self.seen = (dict(x) for x in before)
            ex = self.run_once(b[0], {"nophiattrs": True if n == 3 else no})
        self.finish(self.eng, ex)
        return ex

    def run_once(self, body, more, names=None):
        prog = self.ctx.prog
        opts = dict(self.opts)
        opts.update(more)
        opts["frame0"] = self.ctx.frame0
        opts["pushlog"] = self.ctx.pushlog
        self.ctx.frame0 += 100000       # join symbols of different runs differ
        eng = Engine(prog, self, opts)
        self.eng = eng
        eng.phidef = self.ctx.phidef
        eng.savedattrs = self.ctx.savedattrs
        fr = eng.frame(None, 0, body)
        ex = eng.run(fr, summary.entry_state(eng, fr, body, names))
        self.steps = eng.steps
        return ex


def app_is(t, *names):
    return t.op == "app" and any(short(t.a[0]) == n for n in names)


def is_nf(ctx, n, depth=0):
    """A parsed notification file of the source (or one made from it)."""
    if depth > 6:
        return False
    for x in ctx.expand(n):
        if app_is(x, "ok") and app_is(x.a[1], "parse") and "NotificationFile" in x.a[1].a[0]:
            continue
        if x.op == "nfsorted" and is_nf(ctx, x.a[0], depth + 1):
            continue
        if app_is(x, "new") and "NotificationFile" in x.a[0] and announced(ctx, x.a[1], "session_id", depth + 1) and announced(ctx, x.a[2], "serial", depth + 1):
            continue
        return False
    return True


def announced(ctx, t, what, depth=0):
    """Is t the session or serial of the source's notification file?"""
    xs = ctx.expand(t)
    return bool(xs) and all(app_is(x, what) and "NotificationFile" in x.a[0] and is_nf(ctx, x.a[1], depth) for x in xs)


def from_rrdp_state(ctx, t):
    """Part of what was read from the saved RRDP state?"""
    t = whole(t)
    if not (t.op == "app" and t.a[0] == "fromjson"):
        return False
    c = t.a[1]
    return c.op == "app" and c.a[0] == "content" and ctx.kinds(c.a[1]) == frozenset(["RSTATE"])


def was_announced(ctx, t, what):
    """Is t, part of the saved state, always saved with an announced value?"""
    if not all(from_rrdp_state(ctx, x) for x in ctx.expand(t)):
        return False
    xs = ctx.origins(t)
    return bool(xs) and all(announced(ctx, x, what) for x in xs)


def compared(ctx, k, r):
    """A fact which compares the published session or serial with the
    announced one: (what, relation of published to announced)."""
    if not (isinstance(k, tuple) and k[0] == "ord"):
        return None
    for what in ("session_id", "serial"):
        if was_announced(ctx, k[1], what) and announced(ctx, k[2], what):
            return what, r
        if was_announced(ctx, k[2], what) and announced(ctx, k[1], what):
            return what, frozenset({"<": ">", ">": "<", "=": "="}[x] for x in r)
    return None


def holds_session(ctx, S, depth=0):
    """Would a value here contain the published session?"""
    if S.op != "fld" or not from_rrdp_state(ctx, S) or depth > 4:
        return False
    seen = set()
    todo = list(ctx.saved.get((S.a[1], S.a[2], S.a[3]), ()))
    while todo:
        v = todo.pop()
        if v in seen or len(seen) > 200:
            continue
        seen.add(v)
        for x in ctx.expand(v):
            if announced(ctx, x, "session_id"):
                return True
            if x.op == "adt":
                todo.extend(x.a[2:])
            elif x.op == "sum":
                for var, pay in x.a[2]:
                    todo.extend(pay)
    return False


def exit_ok(ret):
    """Does the process report success when main returns this?"""
    if ret.op == "adt" and ret.a[0] == RESULT:
        return ret.a[1] == 0
    if ret.op == "adt" and "ExitCode" in str(ret.a[0]):
        return None
    return True


def pure_data(body):
    return False


def returns_config(body):
    rt = body.tys[body.locals[0][0]]
    if rt.get("n") == CONFIG:
        return True
    return rt["k"] == "adt" and rt["n"] == RESULT and body.tys[rt["a"][0]].get("n") == CONFIG


def span(fr, bi):
    f = fr
    try:
        while f is not None and (f.body.path.startswith("synth") or not f.body.blocks):
            bi = f.bb
            f = f.parent
        return f.body.blocks[bi]["t"].get("sp", "")
    except (AttributeError, IndexError, TypeError, KeyError):
        return ""


class Collect(Rule):
    """First pass: what is saved, and which events the program has."""

    def event(self, eng, st, fr, bi, ev):
        self.ctx.counts[ev[0]] = self.ctx.counts.get(ev[0], 0) + 1
        if ev[0] == "WRITE" and ev[1] and ev[3].op == "app" and ev[3].a[0] == "json":
            self.ctx.save_value(ev[3].a[1])
        return None


def saved_attrs(ctx):
    out = {}
    for k, vs in ctx.saved.items():
        at = None
        for v in vs:
            if v.op == "fld" and ctx.is_saved(v) and (v.a[1], v.a[2], v.a[3]) == k:
                continue
            a = v.a[0] if v.op == "vec" and v.a[1] else frozenset() if v.op != "vec" else None
            if a is not None:
                at = a if at is None else at & a
        if at:
            out[k] = at
    return out


def prepare(prog):
    ctx = Ctx(prog)
    if "krill_sync::main" not in [b.path for b in prog.bodies.values()]:
        raise Missing("krill_sync::main")
    w, n = summary.modular_writes(prog, summary.is_validation)
    ctx.writers = w
    ctx.modular = n
    # what is known of the order of saved lists holds again of what is saved
    used = {}
    for n in range(4):
        ctx.saved = {}
        ctx.phidef = {}
        c = Collect(ctx)
        c.run()
        ctx.pushlog = c.eng.pushlog if ctx.pushlog is None else ctx.pushlog
        ctx._exp = {}
        at = saved_attrs(ctx)
        if n and at == used:
            break
        used = ctx.savedattrs = at if n == 0 else {k: used[k] & at[k] for k in used if at.get(k, frozenset()) & used[k]}
        if not used:
            break
    else:
        ctx.savedattrs = {}
    ctx.collect_steps = c.steps
    return ctx


# ---- file typestate ----------------------------------------------------------------


def marks(st, kind, *pre):
    """The must-marks ('m', kind, pre…, x) of a state: yields the rest."""
    n = 2 + len(pre)
    for k, v in list(st.facts.items()):
        if isinstance(k, tuple) and k[0] == "m" and k[1] == kind and k[2:n] == pre and v is True:
            yield k[n:]


def drop_marks(st, kind, *pre):
    n = 2 + len(pre)
    for k in [k for k in st.facts if isinstance(k, tuple) and k[0] == "m" and k[1] == kind and k[2:n] == pre]:
        del st.facts[k]


class Files(Rule):
    """Tracks what files are known to hold: ('holds', path, data) for a file
    written in full or read in full, ('empty', path) after its creation.
    Rules add further attributes of files, which move along with them."""
    attrs = ("holds",)

    def event(self, eng, st, fr, bi, ev):
        k = ev[0]
        r = None
        h = getattr(self, "on_" + k, None)
        if h is not None:
            r = h(eng, st, fr, bi, *ev[1:])
            if r is not None:
                return r
        self.track(eng, st, k, ev)
        h = getattr(self, "post_" + k, None)
        if h is not None:
            r = h(eng, st, fr, bi, *ev[1:])
        return r

    def track(self, eng, st, k, ev):
        if k == "CREATE":
            self.unhold(st, ev[2])
            if ev[1]:
                eng.must(st, "empty", ev[2])
        elif k == "WRITE":
            e = eng.has(st, "empty", ev[2])
            self.unhold(st, ev[2])
            if ev[1] and e:
                eng.must(st, "holds", ev[2], ev[3])
        elif k in ("PARTWRITE", "MODIFY", "TRUNCATE"):
            self.unhold(st, ev[2])
        elif k == "READ" and ev[1]:
            if isinstance(ev[2], T):
                eng.must(st, "holds", ev[2], ev[3])
        elif k in ("RENAME", "COPY", "HARDLINK"):
            a, b = ev[2], ev[3]
            if ev[1]:
                ds = [(n,) + (b,) + x for n in self.attrs for x in marks(st, n, a)]
                self.unhold(st, b)
                if k == "RENAME":
                    self.unhold(st, a)
                for d in ds:
                    eng.must(st, *d)
                eng.must(st, "exists", b)
            elif k == "COPY":
                self.unhold(st, b)
        elif k in ("REMOVE_FILE", "REMOVE_DIR", "REMOVE_DIR_ALL"):
            if ev[1]:
                self.unhold(st, ev[2])

    def unhold(self, st, p):
        for n in self.attrs:
            drop_marks(st, n, p)
        drop_marks(st, "empty", p)
        drop_marks(st, "exists", p)


# kinds of events which change something at a path, and which argument it is
CHANGES = {
    "CREATE": (2,), "MODIFY": (2,), "WRITE": (2,), "PARTWRITE": (2,), "RENAME": (2, 3), "COPY": (3,),
    "HARDLINK": (3,), "SYMLINK": (3,), "REMOVE_FILE": (2,), "REMOVE_DIR": (2,), "REMOVE_DIR_ALL": (2,),
    "CREATE_DIR": (2,), "CREATE_DIR_ALL": (2,), "SET_MTIME": (2,), "SET_PERM": (2,), "TRUNCATE": (2,),
}


def changed_paths(ev):
    for i in CHANGES.get(ev[0], ()):
        if i < len(ev) and isinstance(ev[i], T):
            yield ev[i]


PUBLIC = ("PUB", "NOTIF", "RSYNC", "CURRENT", "RSTATE", "SSTATE")


def is_public(ks):
    return any(k in PUBLIC for k in ks)


def nf_parts(d):
    """(session, serial, snapshot info, deltas) of a new notification file."""
    if d.op == "app" and d.a[0] == "xml":
        n = d.a[1]
        if n.op == "app" and n.a[0].endswith("NotificationFile>::new") or (n.op == "app" and n.a[0].endswith("NotificationFile::new")):
            return n.a[1:5]
    return None


def not_found(k, v):
    """(kind, path) of a removal which is known to have failed because there
    is nothing to remove."""
    if not (isinstance(k, tuple) and k[0] == "var" and v == frozenset([0]) and k[1].op == "app" and k[1].a[0].endswith("::kind")):
        return None
    e = k[1].a[1]
    if not app_is(e, "err") or e.a[1].op != "app" or not e.a[1].a[0].startswith("io:REMOVE_"):
        return None
    return e.a[1].a[0][3:], e.a[1].a[1]


def saved_json(d):
    if d.op == "app" and d.a[0] == "json":
        return d.a[1]
    return None
