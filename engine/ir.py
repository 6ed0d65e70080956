"""Loads the MIR dump written by the driver and prepares control-flow facts."""
import json


class Crate:
    def __init__(self, d):
        self.tys = d["tys"]
        self.adts = d["adts"]


class Body:
    def __init__(self, key, d, crate):
        self.key = key
        self.d = d
        self.crate = crate
        self.tys = crate.tys
        self.path = d.get("path", key)
        self.span = d.get("span", "")
        self.argc = d["argc"]
        self.spread = d.get("spread")
        self.locals = d["locals"]
        self.blocks = d["blocks"]
        self.derived = d.get("derived")
        self.closure = d.get("closure")
        self.parent = d.get("parent")
        self.generic = d.get("generic") or key.startswith("generic:")
        self.promoted = d.get("promoted") or []
        self._prep = False

    @property
    def file(self):
        return self.span.rsplit(":", 1)[0]

    def prep(self):
        if self._prep:
            return self
        self._prep = True
        n = len(self.blocks)
        self.succ = [succs(b["t"]) for b in self.blocks]
        reach = set()
        st = [0]
        while st:
            b = st.pop()
            if b in reach:
                continue
            reach.add(b)
            st.extend(self.succ[b])
        self.reach = reach
        self.pred = [[] for _ in range(n)]
        for b in reach:
            for s in self.succ[b]:
                self.pred[s].append(b)
        self._wto()
        self._live()
        return self

    # weak topological order: loop bodies come before what follows the loop
    def _wto(self):
        order = []
        heads = set()

        def sccs(nodes, start):
            index = {}
            low = {}
            stack = []
            on = set()
            out = []
            counter = [0]

            def strong(v0):
                work = [(v0, iter(self.succ[v0]))]
                index[v0] = low[v0] = counter[0]
                counter[0] += 1
                stack.append(v0)
                on.add(v0)
                while work:
                    v, it = work[-1]
                    adv = False
                    for w in it:
                        if w not in nodes:
                            continue
                        if w not in index:
                            index[w] = low[w] = counter[0]
                            counter[0] += 1
                            stack.append(w)
                            on.add(w)
                            work.append((w, iter(self.succ[w])))
                            adv = True
                            break
                        elif w in on:
                            low[v] = min(low[v], index[w])
                    if adv:
                        continue
                    work.pop()
                    if work:
                        u = work[-1][0]
                        low[u] = min(low[u], low[v])
                    if low[v] == index[v]:
                        comp = []
                        while True:
                            w = stack.pop()
                            on.discard(w)
                            comp.append(w)
                            if w == v:
                                break
                        out.append(comp)

            for s in start:
                if s in nodes and s not in index:
                    strong(s)
            for s in nodes:
                if s not in index:
                    strong(s)
            return list(reversed(out))  # topological order

        def go(nodes, start):
            for comp in sccs(nodes, start):
                cs = set(comp)
                if len(comp) == 1 and comp[0] not in self.succ[comp[0]]:
                    order.append(comp[0])
                    continue
                # head: the entry of the component
                head = None
                for v in comp:
                    if v == 0 or any(p not in cs for p in self.pred[v] if p in nodes or True):
                        if head is None or v in start:
                            head = v
                if head is None:
                    head = comp[0]
                heads.add(head)
                order.append(head)
                rest = cs - {head}
                go(rest, [s for s in self.succ[head] if s in rest])

        go(set(self.reach), [0])
        self.order = {b: i for i, b in enumerate(order)}
        self.heads = heads

    def _live(self):
        n = len(self.blocks)
        use = [set() for _ in range(n)]
        dfn = [set() for _ in range(n)]
        borrowed = set()
        for bi in self.reach:
            b = self.blocks[bi]
            u, d = use[bi], dfn[bi]

            def rd(pl):
                if pl[0] not in d:
                    u.add(pl[0])
                for e in pl[1:]:
                    if e[0] == "[]" and e[1] not in d:
                        u.add(e[1])

            def wr(pl):
                if len(pl) == 1:
                    if pl[0] not in u:
                        d.add(pl[0])
                else:
                    rd(pl)

            def op(o):
                if o[0] in ("cp", "mv"):
                    rd(o[1])

            for s in b["s"]:
                if s[0] == "=":
                    rv = s[2]
                    k = rv[0]
                    if k in ("use", "un", "repeat"):
                        for x in rv[1:]:
                            if isinstance(x, list) and x and x[0] in ("cp", "mv"):
                                rd(x[1])
                    elif k in ("ref", "reborrow"):
                        rd(rv[2])
                        if k == "ref" and rv[1] in ("m", "f") and not any(e[0] == "*" for e in rv[2][1:]):
                            borrowed.add(rv[2][0])
                    elif k == "cast":
                        op(rv[2])
                    elif k == "bin":
                        op(rv[2]); op(rv[3])
                    elif k == "disc":
                        rd(rv[1])
                    elif k == "agg":
                        for x in rv[4]:
                            op(x)
                    else:
                        for x in rv[1:]:
                            if isinstance(x, list) and x and x[0] in ("cp", "mv"):
                                rd(x[1])
                    wr(s[1])
                elif s[0] == "setd":
                    rd(s[1])
            t = b["t"]
            k = t["k"]
            if k == "switch":
                op(t["d"])
            elif k == "call":
                if isinstance(t["f"].get("dyn"), list):
                    op(t["f"]["dyn"])
                for x in t["a"]:
                    op(x)
                wr(t["dst"])
            elif k == "drop":
                rd(t["p"])
            elif k == "assert":
                for x in t.values():
                    if isinstance(x, list) and x and x[0] in ("cp", "mv"):
                        rd(x[1])
            elif k == "ret":
                u.add(0)
        self.borrowed = borrowed
        live = [set() for _ in range(n)]
        work = list(self.reach)
        work.sort(key=lambda b: -self.order[b])
        changed = True
        while changed:
            changed = False
            for b in work:
                out = set()
                for s in self.succ[b]:
                    out |= live[s]
                new = use[b] | (out - dfn[b])
                if new != live[b]:
                    live[b] = new
                    changed = True
        self.live_in = live

    # blocks strictly between a branch and its immediate post-dominator
    def region(self, bi):
        if not hasattr(self, "_pdom"):
            self._pdoms()
        ip = self._ipdom(bi)
        seen = set()
        st = list(self.succ[bi])
        while st:
            b = st.pop()
            if b == ip or b in seen:
                continue
            seen.add(b)
            st.extend(self.succ[b])
        return seen, ip

    def _pdoms(self):
        exits = [b for b in self.reach if not self.succ[b]]
        allb = frozenset(self.reach) | {-1}
        pd = {b: set(allb) for b in self.reach}
        order = sorted(self.reach, key=lambda b: -self.order[b])
        changed = True
        while changed:
            changed = False
            for b in order:
                # paths which only end in unreachable/panic do not count
                ss = [s for s in self.succ[b]]
                if not ss:
                    t = self.blocks[b]["t"]
                    new = {b, -1} if t["k"] == "ret" else set(allb)
                else:
                    new = set(allb)
                    for s in ss:
                        new &= pd[s]
                    new = new | {b}
                if new != pd[b]:
                    pd[b] = new
                    changed = True
        self._pdom = pd

    def _ipdom(self, b):
        pd = self._pdom[b] - {b}
        # closest: the one whose own post-dominator set is the largest
        best = None
        for x in pd:
            if x == -1:
                continue
            if best is None or len(self._pdom[x]) > len(self._pdom[best]):
                best = x
        return best if best is not None else -1

    def sp(self, bi):
        return self.blocks[bi]["t"].get("sp", self.span)


def succs(t):
    k = t["k"]
    if k == "goto" or k == "drop":
        return [t["to"]]
    if k == "call":
        return [t["to"]] if t.get("to") is not None else []
    if k == "assert":
        return [t["to"]]
    if k == "switch":
        out = []
        for _, b in t["v"]:
            if b not in out:
                out.append(b)
        if t["else"] is not None and t["else"] not in out:
            out.append(t["else"])
        return out
    if k == "other" and t.get("to") is not None:
        return [t["to"]]
    return []


class Program:
    def __init__(self, outdir):
        self.bodies = {}
        self.adts = {}
        self.crates = []
        for n in ("lib", "bin"):
            d = json.load(open("%s/krill_sync-%s.json" % (outdir, n)))
            c = Crate(d)
            self.crates.append(c)
            for k, v in d["adts"].items():
                self.adts.setdefault(k, v)
            for k, b in d["bodies"].items():
                if k not in self.bodies:
                    self.bodies[k] = Body(k, b, c)
        # a 'unreachable' target of a switch is dropped
        for b in self.bodies.values():
            for bl in b.blocks:
                t = bl["t"]
                if t["k"] == "switch" and t["else"] is not None:
                    eb = b.blocks[t["else"]]
                    if eb["t"]["k"] == "unreachable" and not eb["s"]:
                        t["else"] = None

    def find(self, suffix):
        return [b for k, b in self.bodies.items() if not b.generic and (k == suffix or k.endswith("::" + suffix))]
