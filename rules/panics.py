"""C36: nothing that comes from the source makes a run panic."""
from common import *
import validation
from validation import C22, Told, head, is_data, types_of

# functions of the standard library which panic for some arguments, and which
# argument decides
RISKY = {"index": 1, "index_mut": 1, "remove": 1, "swap_remove": 1, "insert": 1, "drain": 1, "split_off": 1, "split_at": 1, "split_at_mut": 1,
         "copy_from_slice": 1, "clone_from_slice": 1, "chunks": 1, "chunks_exact": 1, "windows": 1, "step_by": 1, "replace_range": 1, "rotate_left": 1,
         "rotate_right": 1, "select_nth_unstable": 1, "copy_within": 1, "swap": 1, "insert_str": 1, "chunk_by": 1}
ON = ("alloc::vec::Vec", "alloc::string::String", "core::slice::", "core::str::", "core::ops::index::", "alloc::collections::vec_deque", "alloc::slice::", "alloc::str::",
      "bytes::")


def risky(f):
    p = f.get("path") or ""
    return short(p) in RISKY and p.startswith(ON) and not p.startswith("core::mem")


class NoPanic:
    """What counts as a panic, and where."""

    def panics(self, eng, st, fr, bi, what):
        if self.contradiction(st):
            return
        o = self.owner
        o.bad("a panic can be reached (%s)" % short(what or "?"), fr, bi, "; ".join(
            "%s = %s" % (show(k, 4) if isinstance(k, T) else " ".join(show(y, 4) if isinstance(y, T) else str(y) for y in k), v if not isinstance(v, frozenset) else sorted(v, key=str))
            for k, v in list(st.facts.items())[-2:]))

    def contradiction(self, st):
        """The parent of a URI is a prefix of it."""
        return any(v is False and isinstance(k, T) and app_is(k, "starts_with") and any(app_is(x, "parent") and x.a[1] is k.a[1] for x in subterms(k.a[2]))
                   for k, v in st.facts.items())

    def event(self, eng, st, fr, bi, ev):
        if ev[0] == "PANIC":
            self.panics(eng, st, fr, bi, ev[1])
        elif ev[0] == "ASSERT" and own(fr.body) and ev[1].startswith(("BoundsCheck", "DivisionByZero", "RemainderByZero")):
            c = ev[2]
            if ev[1].startswith("BoundsCheck") and c.op == "ordt" and any(self.place(None, x) for x in c.a[1:] if not app_is(x, "len")):
                return
            if c.op == "ordt" and (c.a[0] == "<" and self.less(eng, st, c.a[1], c.a[2]) or c.a[0] == ">" and self.less(eng, st, c.a[2], c.a[1])):
                return
            self.owner.bad("a panic can be reached (%s)" % ev[1].split("{")[0].split("(")[0].strip(), fr, bi, show(c, 6))

    # where entries of a map are taken without asking: ps is the key (or
    # its alternatives) that was last found in one

    def on_fact(self, eng, st, k, v):
        if self.owner.keys and isinstance(k, tuple) and k[0] == "var" and v == frozenset([1]) and app_is(k[1], "mapget"):
            st.ps = (k[1].a[2],)
        elif self.owner.keys and isinstance(k, T) and k.op == "phi" and v is True:
            ks = {x.a[0].a[2] if x.op == "isvar" and app_is(x.a[0], "mapget") else None for x in self.ctx.expand(k)}
            if ks and None not in ks:
                st.ps = tuple(sorted(ks, key=str))

    def folding(self, eng, st, base):
        st.ps = ()

    def rename(self, ps, m):
        return tuple(subst(x, m) for x in ps)

    def external(self, eng, st, fr, bi, f, args, t):
        if not risky(f) or not own(fr.body) or f.get("key") in eng.prog.bodies:
            return None
        o = self.owner
        n = short(f["path"])
        c, i = models.deref(eng, st, args[0]), models.deref(eng, st, args[min(RISKY[n], len(args) - 1)])
        what = "a place that is asked for exists"
        if self.inside(eng, st, n, c, i):
            o.ok(what, fr, bi)
        else:
            o.bad("a place that may not exist is asked for (%s)" % n, fr, bi, "%s of %s" % (show(i, 5), show(c, 5)))
        return None

    def inside(self, eng, st, n, c, i):
        """Is the position known to exist?"""
        if i.op == "adt" and "Range" in i.a[0]:
            return all(self.bound(eng, st, c, x) for x in i.a[2:])
        if i.op == "const" or n in ("chunks", "windows", "step_by", "chunks_exact"):
            return i.op != "int" or i.a[0] > 0
        for m in ("contains_key", "contains"):
            if any(v is True and isinstance(k, T) and app_is(k, m) and k.a[1] is c and k.a[2] is i for k, v in st.facts.items()):
                return True
        if eng.known(st, models.mk_isvar(models.mapget(c, i), OPTION, 1)) is True:
            return True
        if self.place(c, i) or i in st.ps:
            return True
        return self.less(eng, st, i, eng.length(c)) or n == "insert" and self.bound(eng, st, c, i)

    def less(self, eng, st, i, n):
        r = eng.rel(st, i, n)
        if i.op == "int" and i.a[0] == 0:       # (a length is not negative)
            r = r - frozenset(">")
        return r <= frozenset("<")

    def place(self, c, i):
        """A place where something was found, or which was counted there."""
        return any(x.op == "posidx" or app_is(x, "index", "find", "rfind", "position", "rposition", "partition_point", "min", "len") for x in subterms(i)) and \
            not any(x.op == "app" and x.a[0].startswith("bin:") for x in subterms(i))

    def bound(self, eng, st, c, x):
        if x.op == "int" and x.a[0] == 0 or self.place(c, x):
            return True
        return eng.rel(st, x, eng.length(c)) <= frozenset("<=")


def own(body):
    return body.key.startswith(("krill_sync", "<krill_sync", "krill-sync")) or "krill_sync" in body.key


class C36(NoPanic, C22):
    """Every construct that can panic (a failing unwrap or expect, an
    unreachable!, a place in a list, map or text that may not exist) must be
    unreachable: in a run of the whole program, in the validation of any CA,
    and where the data of any repository is obtained, whatever is received."""
    opts = dict(C22.opts, panics=risky)

    def run(self, entry=None):
        prog = self.ctx.prog
        self.owner = self
        self.head, self.cycle = head(prog)
        ds = [b for k, b in prog.bodies.items() if summary.is_validation(k) and is_data(b) and not b.derived and b.argc]
        self.repos = {types_of(b, 0) for b in ds if types_of(b, 0).startswith("&mut ")}
        self.alone = {}
        self.keys = any(t["t"].get("k") == "call" and "HashMap" in str(t["t"]["f"]) and short((t["t"]["f"].get("path") if isinstance(t["t"]["f"], dict) else "") or "") == "index"
                        for b in prog.bodies.values() if own(b) for t in b.blocks)
        self.called = set()
        Rule.run(self, entry)
        self.called |= self.eng.called
        done = set()
        self.alone[self.head.key] = True
        while set(self.alone) - done:
            k = min(set(self.alone) - done)
            done.add(k)
            self.called.add(k)
            a = Alone(self.ctx, self, k)
            a.run()
            self.called |= a.eng.called
        self.sites()

    def finish(self, eng, exits):
        pass

    def sites(self):
        prog = self.ctx.prog
        missed = []
        for k, b in sorted(prog.bodies.items()):
            if not own(b) or b.generic:
                continue
            n = 0
            for x in b.blocks:
                t = x["t"]
                if t.get("k") == "call" and not x.get("c") and isinstance(t["f"], dict):
                    f = t["f"]
                    if short(f.get("path") or "") in ("unwrap", "expect", "unwrap_err", "expect_err") or t.get("to") is None or risky(f):
                        n += 1
            if n and k in self.called:
                self.seen["a function with something that could panic"] = self.seen.get("a function with something that could panic", 0) + n
                if not any(b.path in v["where"] for v in self.viol.values()):
                    self.oblig.setdefault(("what could panic cannot be reached", b.path), "discharged")
            elif n and not b.derived:
                missed.append(b.path)
        self.extra = {"not_analysed": missed}
        self.expect("a function with something that could panic", 2)

    def stub(self, eng, st, fr, bi, body, args, t):
        if body.key == self.head.key or self.obtains(body):
            self.alone[body.key] = True
            return summary.opaque(eng, st, fr, bi, body, args)
        if self.comparison(body):
            self.alone[body.key] = True
            return summary.opaque(eng, st, fr, bi, body, args)
        if returns_config(body) and not body.closure:
            return summary.opaque(eng, st, fr, bi, body, args)
        return None


class Alone(NoPanic, Rule):
    """One function, for any arguments."""
    stub_validation = False
    opts = dict(Rule.opts, recursion=1, panics=risky)

    def __init__(self, ctx, owner, key):
        Rule.__init__(self, ctx)
        self.owner, self.key = owner, key

    def run(self):
        self.run_once(self.ctx.prog.bodies[self.key], {})

    def stub(self, eng, st, fr, bi, body, args, t):
        if self.key != body.key and (self.owner.obtains(body) or self.key == self.owner.head.key and is_data(body)):
            self.owner.alone[body.key] = True
            return summary.opaque(eng, st, fr, bi, body, args)
        return None
