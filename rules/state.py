"""What is saved is read back: the tables of names and encodings."""
import re

from common import *

JSON_OUT = ("to_string", "to_string_pretty", "to_vec", "to_vec_pretty", "to_writer", "to_writer_pretty")
JSON_IN = ("from_slice", "from_str", "from_reader")
PLUMBING = {"branch", "from_residual", "from_output", "map_err", "custom", "deref", "as_ref", "borrow", "as_str", "as_bytes", "as_slice", "clone", "to_owned",
            "into", "from", "to_vec", "copy_from_slice", "into_boxed_slice", "drop", "map", "and_then", "ok_or_else", "to_string_lossy", "must_use",
            "new_display", "new", "hyphenated", "to_hyphenated", "to_hyphenated_ref", "simple", "to_simple", "to_simple_ref", "as_hyphenated", "as_simple",
            "format", "copied", "cloned", "into_string", "into_bytes"}
# what writes a value as text (or a number), and what reads that back
INVERSE = {"to_string": {"parse_str", "from_str", "parse", "try_from", "try_parse"}, "encode": {"decode"}, "collect_str": {"parse_str", "from_str", "parse", "try_parse"},
           "to_rfc3339": {"parse_from_rfc3339"}, "timestamp": {"timestamp", "from_timestamp", "timestamp_opt"}, "as_u128": {"from_u128"},
           "to_bytes": {"from_bytes", "from_slice"}, None: {None}}


def calls(b):
    for i, x in enumerate(b.blocks):
        t = x["t"]
        if t.get("k") == "call" and not x.get("c"):
            yield i, t, t["f"] if isinstance(t["f"], dict) else {}


def last(p):
    return (p or "").rsplit("::", 1)[-1].split("<")[0]


def const_str(o):
    return o[1].get("str") if o[0] == "k" else None


class C30(Rule):
    """For every type that is part of saved state, the table of names, fields
    and encodings by which it is written is compared with the one by which it
    is read. The tables are taken from the bodies of the generated (or hand-
    written) functions."""

    def check(self):
        prog = self.ctx.prog
        outs, ins = {}, {}
        for k, b in prog.bodies.items():
            for i, t, f in calls(b):
                p = f.get("path") or ""
                if p.startswith("serde_json::") and last(p) in JSON_OUT + JSON_IN:
                    for a in f.get("args", []):
                        if isinstance(a, int):
                            ty = b.tys[a]
                            while ty.get("k") in ("ref", "refm"):
                                ty = b.tys[ty["t"]]
                            if ty.get("k") == "adt" and ty["n"].startswith("krill_sync::"):
                                (outs if last(p) in JSON_OUT else ins).setdefault(ty["n"], (b, ty))
        if len(ins) < 2:
            raise Missing("the types of the saved states")
        self.extra = {"saved": sorted(ins), "tables": {}}
        for n in sorted(ins):
            if n not in outs:
                self.wrong("a state is read that is not the one that is written", n, ins[n][0].path)
            else:
                self.right("a state is read as it is written", n)
        self.types = {}
        for n in sorted(ins):
            self.reach(ins[n][0], ins[n][1])
        for n in sorted(self.types):
            self.table(n, *self.types[n])
        self.steps = len(self.types)
        self.expect("a part of the state is read back as it is written", 25)

    def wrong(self, what, where, text):
        k = "%s @ %s" % (what, where)
        self.oblig[(what, where)] = "violated"
        self.viol.setdefault(k, {"rule": what, "where": where, "span": "", "text": text})

    def right(self, what, where):
        self.oblig.setdefault((what, where), "discharged")
        self.seen[what] = self.seen.get(what, 0) + 1

    def reach(self, b, ty):
        """All types of the program which are part of a type."""
        tys = b.tys
        work = [ty]
        seen = set()
        while work:
            t = work.pop()
            if id(t) in seen:
                continue
            seen.add(id(t))
            for a in t.get("a") or ():
                if isinstance(a, int):
                    work.append(tys[a])
            if isinstance(t.get("t"), int):
                work.append(tys[t["t"]])
            if t.get("k") == "adt" and t["n"].startswith("krill_sync::"):
                self.types.setdefault(t["n"], (tys, t))
                for v in t.get("f") or ():
                    work.extend(tys[x] for x in v)

    # the tables

    def table(self, n, tys, t):
        adt = self.ctx.prog.adts[n]
        w = self.written(n)
        r = self.read(n)
        if w is None or r is None:
            self.custom(n)
            return
        self.extra["tables"][n] = {"written": sorted("%s: %s%s%s" % (x["name"], x["i"], " with " + x["with"] if x["with"] else "", " if" if x["cond"] else "") for x in w["parts"]),
                                   "read": sorted("%s: %s%s" % (x["name"], x["i"], " with " + x["with"] if x["with"] else "") for x in r["parts"])}
        if w["kind"] != r["kind"]:
            self.wrong("a type is written and read in different ways", n, "%s / %s" % (w["kind"], r["kind"]))
            return
        names = [v["n"] for v in adt["v"]] if w["kind"] == "enum" else adt["v"][0]["f"]
        for i, name in enumerate(names):
            where = "%s.%s" % (n, name)
            ws = [x for x in w["parts"] if x["i"] == i]
            rs = [x for x in r["parts"] if x["i"] == i]
            if not ws or not rs:
                if w["kind"] == "struct" and n.endswith("::RepositoryData") and tys[t["f"][0][i]].get("k") == "bool":
                    self.right("the per-run mark is left out", where)
                    continue
                self.wrong("a part of the state is not %s" % ("written" if not ws else "read back"), where, n)
                continue
            for x in ws:
                if x["name"] not in {y["name"] for y in rs}:
                    self.wrong("a part of the state is read under another name than it is written", where, "%s / %s" % (x["name"], ", ".join(sorted(str(y["name"]) for y in rs))))
                    continue
                if any(x["name"] == y["name"] for y in r["parts"] if y["i"] != i):
                    self.wrong("two parts of the state are read under one name", where, x["name"])
                    continue
                if x["cond"] and not self.restored(n, x, rs[0], r):
                    self.wrong("a part of the state is left out when it has a value", where, str(x["cond"]))
                    continue
                if not all(self.encoded(x, y, where) for y in rs):
                    continue
                self.right("a part of the state is read back as it is written", where)

    def restored(self, n, x, y, r):
        """Does reading yield the value for which a part was left out?"""
        p, ty = x["cond"]
        if p == "is_none":
            return x["ty"].startswith("core::option::Option<") and x["name"] not in r["required"] or x["ty"].startswith("core::option::Option<") and not x["with"]
        if p == "is_empty":
            return x["name"] not in r["required"] and any(d == x["ty"] for d in r["defaults"])
        return False

    def encoded(self, x, y, where):
        if not x["with"] and not y["with"]:
            if x["ty"] != y["ty"] and not x["ty"] == y["ty"].replace("alloc::boxed::Box", ""):
                self.wrong("a part of the state is read as another type than it is written", where, "%s / %s" % (x["ty"], y["ty"]))
                return False
            return True
        e = self.chain(x["with"], True) if x["with"] else [(None, x["ty"])]
        d = self.chain(y["with"], False) if y["with"] else [(None, y["ty"])]
        if e is None or d is None or not self.inverse(e, d):
            self.wrong("a part of the state is not read in the encoding in which it is written", where, "%s / %s" % (e, d))
            return False
        return True

    def inverse(self, e, d):
        """e: what is done to write a value, d: what is done to read it."""
        if not e or not d or len(e) != len(d):
            return False
        if e[-1][1] != d[0][1]:
            return False
        es = [x[0] for x in e[:-1]] + ([] if e[-1][0] is None else [e[-1][0]])
        ds = ([] if d[0][0] is None else [d[0][0]]) + [x[0] for x in d[1:]]
        if len(es) != len(ds):
            return False
        for (p, q) in zip(es, reversed(ds)):
            if last(q) not in INVERSE.get(last(p), ()):
                return False
            if last(p) == "encode" and (p.split("::")[0] != q.split("::")[0]):
                return False
        return True

    def chain(self, key, out, depth=0):
        """What a function does to a value in order to write or read it."""
        prog = self.ctx.prog
        bs = [b for k, b in prog.bodies.items() if k.startswith("generic:" + key + "<") or k == key or k == "generic:" + key]
        if not bs or depth > 4:
            return None
        b = bs[0]
        r = []
        for i, t, f in calls(b):
            p = f.get("path") or ""
            q = f.get("rpath") or p
            s = last(p)
            if p == "serde::ser::Serialize::serialize" or p == "serde::de::Deserialize::deserialize":
                ty = self.name(b, f["args"][0])
                r.append((None, "str" if ty in ("alloc::string::String", "str", "alloc::borrow::Cow<str>") else ty))
            elif s.startswith("serialize_") and p.startswith("serde::ser::Serializer"):
                r.append((None, s[len("serialize_"):]))
            elif s == "collect_str":
                r.append(("to_string", None))
                r.append((None, "str"))
            elif p.startswith("krill_sync::"):
                c = self.chain(f.get("key") or p, out, depth + 1)
                if c is None:
                    return None
                r += c
            elif s in PLUMBING and s not in ("format",):
                continue
            elif s in INVERSE or any(s in v for v in INVERSE.values()):
                base = p if s in ("encode", "decode") else s
                r.append((base, None))
            else:
                r.append(("?" + p, None))
        return r

    def name(self, b, a):
        t = b.tys[a] if isinstance(a, int) else {}
        while t.get("k") in ("ref", "refm"):
            t = b.tys[t["t"]]
        return t.get("s", "?")

    def find(self, n, what, end):
        """A generated function of the type, not one nested in another."""
        out = []
        for k, b in self.ctx.prog.bodies.items():
            i = k.find("<impl serde::%s for %s" % (what, n))
            if i < 0 or not k.startswith("generic:"):
                continue
            rest = k[i:].split(">::", 1)
            if k[i + len("<impl serde::%s for %s" % (what, n)):][:1] not in (">", "<"):
                continue
            if end(rest[1]):
                out.append(b)
        return out[0] if len(out) == 1 else None

    def origin(self, b, o):
        """The field of the value from which an operand comes."""
        defs = {}
        for x in b.blocks:
            if x.get("c"):
                continue
            for s in x["s"]:
                if s[0] == "=" and len(s[1]) == 1:
                    defs.setdefault(s[1][0], []).append(s[2])
        todo = [o[1]] if o[0] in ("cp", "mv") else []
        seen = set()
        found = set()
        while todo:
            pl = todo.pop()
            if str(pl) in seen:
                continue
            seen.add(str(pl))
            if pl[0] == 1:
                ix = [p[1] for p in pl[1:] if p[0] == "."]
                vs = [p[1] for p in pl[1:] if p[0] == "v"]
                if ix:
                    found.add((vs[0] if vs else None, ix[0]))
                continue
            for d in defs.get(pl[0], ()):
                if d[0] == "ref":
                    todo.append(d[2])
                elif d[0] in ("use", "cast"):
                    for y in d[1:]:
                        if isinstance(y, list) and y and y[0] in ("cp", "mv"):
                            todo.append(y[1])
                elif d[0] == "agg":
                    for y in d[-1]:
                        if y[0] in ("cp", "mv"):
                            todo.append(y[1])
        return found.pop() if len(found) == 1 else None

    def written(self, n):
        b = self.find(n, "ser::Serialize", lambda r: r.split("<")[0] == "serialize" and "::" not in r)
        if b is None:
            return None
        parts = []
        kind = None
        conds = {}
        for i, t, f in calls(b):
            p = f.get("path") or ""
            s = last(p)
            if s == "skip_field":
                conds[const_str(t["a"][1])] = self.condition(b, i)
        for i, t, f in calls(b):
            p = f.get("path") or ""
            s = last(p)
            if p == "serde::ser::Serializer::serialize_struct":
                kind = "struct"
            elif p == "serde::ser::Serializer::serialize_newtype_struct":
                kind = "newtype"
                ty = self.name(b, f["args"][1])
                parts.append({"name": "0", "i": 0, "ty": ty, "with": self.with_fn(ty, "serialize"), "cond": None})
            elif p == "serde::ser::SerializeStruct::serialize_field":
                nm = const_str(t["a"][1])
                o = self.origin(b, t["a"][2])
                ty = self.name(b, f["args"][1])
                if o is None:
                    return {"kind": "?", "parts": []}
                parts.append({"name": nm, "i": o[1], "ty": ty, "with": self.with_fn(ty, "serialize"), "cond": conds.get(nm)})
            elif p.startswith("serde::ser::Serializer::serialize_") and s.endswith("_variant"):
                kind = "enum"
                parts.append({"name": const_str(t["a"][3]), "i": t["a"][2][1].get("int"), "ty": s[len("serialize_"):], "with": None, "cond": None})
            elif p == "serde::ser::Serialize::serialize":
                kind = kind or "newtype"
                parts.append({"name": "0", "i": 0, "ty": self.name(b, f["args"][0]), "with": None, "cond": None})
        return {"kind": kind, "parts": parts} if kind else None

    def with_fn(self, ty, method):
        """The function to which a generated wrapper hands a value."""
        if "__SerializeWith" not in ty and "__DeserializeWith" not in ty:
            return None
        want = re.sub(r"<'[^>]*>", "", ty)
        for k, b in self.ctx.prog.bodies.items():
            if not k.startswith("generic:<"):
                continue
            q = re.sub(r"<'[^>]*>", "", k[9:])
            if q.startswith(want + " as serde::") and (">::" + method + "<") in q:
                for i, t, f in calls(b):
                    p = f.get("path") or ""
                    if last(p) not in PLUMBING:
                        return f.get("key") or p
        return "?"

    def condition(self, b, i):
        """The function whose answer decides that a field is left out."""
        for j, x in enumerate(b.blocks):
            t = x["t"]
            if t.get("k") == "switch" and (t.get("else") == i or i in [v[1] for v in t["v"]]):
                d = t["d"][1][0]
                neg = i in [v[1] for v in t["v"] if v[0] == 0]
                for _, c, f in calls(b):
                    if c["dst"] == [d]:
                        return ("not " if neg else "") + last(f.get("path")), self.name(b, f["args"][0]) if f.get("args") else ""
        return "?", ""

    def read(self, n):
        vs = self.find(n, "de::Deserialize<'de>", lambda r: "__FieldVisitor as " in r and r.split(">::")[-1].startswith("visit_str<"))
        nt = self.find(n, "de::Deserialize<'de>", lambda r: "deserialize::__Visitor" in r and "visit_newtype_struct<" in r and "visit_enum" not in r)
        if nt is not None:
            for i, t, f in calls(nt):
                if f.get("path") == "serde::de::Deserialize::deserialize":
                    return {"kind": "newtype", "parts": [{"name": "0", "i": 0, "ty": self.name(nt, f["args"][0]), "with": None}], "required": set(), "defaults": []}
                if last(f.get("path")) not in PLUMBING:
                    return {"kind": "newtype", "parts": [{"name": "0", "i": 0, "ty": "?", "with": f.get("key") or f.get("path")}], "required": set(), "defaults": []}
            return None
        if vs is None:
            d = self.find(n, "de::Deserialize<'de>", lambda r: r.split("<")[0] == "deserialize" and "::" not in r)
            if d is not None:
                for i, t, f in calls(d):
                    if f.get("path") == "serde::de::Deserialize::deserialize":
                        return {"kind": "newtype", "parts": [{"name": "0", "i": 0, "ty": self.name(d, f["args"][0]), "with": None}], "required": set(), "defaults": []}
            return None
        names = {}
        for i, t, f in calls(vs):
            if f.get("path") == "core::cmp::PartialEq::eq" and const_str(t["a"][1]) is not None:
                d = t["dst"]
                for x in vs.blocks:
                    u = x["t"]
                    if u.get("k") == "switch" and u["d"][1] == d and u.get("else") is not None:
                        v = self.variant(vs, u["else"])
                        if v is not None:
                            names.setdefault(v, []).append(const_str(t["a"][1]))
        ve = self.find(n, "de::Deserialize<'de>", lambda r: "deserialize::__Visitor" in r and r.split(">::")[-1].startswith("visit_enum<") and "__DeserializeWith" not in r)
        if ve is not None:
            out = []
            kinds = self.arms(ve, "__Field", ("unit_variant", "newtype_variant", "tuple_variant", "struct_variant"))
            for v, ns in names.items():
                for m in ns:
                    out.append({"name": m, "i": v, "ty": kinds.get(v, (None,))[0], "with": None})
            return {"kind": "enum", "parts": out, "required": set(), "defaults": []}
        vm = self.find(n, "de::Deserialize<'de>", lambda r: "deserialize::__Visitor" in r and r.split(">::")[-1].startswith("visit_map<") and "__DeserializeWith" not in r)
        if vm is None:
            return None
        vals = self.arms(vm, "__Field", ("next_value",))
        out = []
        for v, ns in names.items():
            got = vals.get(v)
            if got is None:
                continue
            ty = self.name(vm, got[1]["args"][1])
            for m in ns:
                out.append({"name": m, "i": v, "ty": ty, "with": self.with_fn(ty, "deserialize")})
        req = set()
        defs = []
        for i, t, f in calls(vm):
            if last(f.get("path")) == "missing_field":
                req.add(const_str(t["a"][0]))
            elif f.get("path") == "core::default::Default::default" and f.get("args"):
                defs.append(self.name(vm, f["args"][0]))
        return {"kind": "struct", "parts": out, "required": req, "defaults": defs}

    def variant(self, b, i):
        seen = set()
        while i is not None and i not in seen:
            seen.add(i)
            for s in b.blocks[i]["s"]:
                if s[0] == "=" and s[2][0] == "agg" and s[2][1] == "adt" and s[2][2].endswith("::__Field"):
                    return s[2][3]
            t = b.blocks[i]["t"]
            i = t.get("to") if t.get("k") == "goto" else None
        return None

    def arms(self, b, field, names):
        """For each variant of the field, the first of the named calls in its
        arm of the switch."""
        out = {}
        b.prep()
        for x in b.blocks:
            t = x["t"]
            if t.get("k") != "switch" or x.get("c"):
                continue
            ds = [s[2] for s in x["s"] if s[0] == "=" and s[1] == t["d"][1] and s[2][0] == "disc"]
            if not ds or not b.tys[ds[0][2]].get("s", "").endswith("::__Field"):
                continue
            arms = list(t["v"])
            nv = len(self.ctx.prog.adts.get(b.tys[ds[0][2]].get("n"), {"v": ()})["v"])
            rest = [i for i in range(nv) if i not in [a[0] for a in arms]]
            if t.get("else") is not None and len(rest) == 1:
                arms.append([rest[0], t["else"]])
            for v, to in arms:
                seen = set()
                work = [to]
                while work:
                    i = work.pop(0)
                    if i in seen or i not in b.reach or b.blocks[i].get("c"):
                        continue
                    seen.add(i)
                    u = b.blocks[i]["t"]
                    if u.get("k") == "call" and isinstance(u["f"], dict) and last(u["f"].get("path")) in names:
                        out[v] = (last(u["f"]["path"]), u["f"])
                        break
                    if u.get("k") == "call" and isinstance(u["f"], dict) and last(u["f"].get("path")) == "next_key":
                        continue
                    work.extend(b.succ[i])
        return out

    def custom(self, n):
        """Functions written by hand."""
        e = self.chain("<%s as serde::ser::Serialize>::serialize" % n, True)
        d = self.chain("<%s as serde::de::Deserialize<'de>>::deserialize" % n, False)
        if e is None or d is None:
            raise Missing("the functions which write and read " + n)
        if self.inverse(e, d):
            self.right("a part of the state is read back as it is written", n)
        else:
            self.wrong("a part of the state is not read in the encoding in which it is written", n, "%s / %s" % (e, d))
