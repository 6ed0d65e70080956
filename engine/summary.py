"""Opaque summaries of functions which only read, and call-graph queries."""
from interp import *
from terms import *
import models

READING = (
    "std::fs::File::open", "std::fs::read", "std::fs::read_to_string", "std::fs::metadata",
    "std::fs::symlink_metadata", "std::fs::canonicalize", "std::fs::read_dir", "std::fs::read_link",
    "std::fs::exists", "std::fs::File::metadata", "std::fs::ReadDir", "std::fs::DirEntry::",
    "std::fs::Metadata::", "std::fs::FileType::", "std::path::Path::", "reqwest::", "std::io::Read::",
    "std::io::read", "std::io::BufReader", "std::io::buffered::", "std::io::Cursor", "std::io::cursor::",
    "std::thread::sleep", "std::env::", "std::io::error::", "std::io::Error", "std::io::impls::",
    "alloc::io::read::", "core::io::", "std::fs::OpenOptions::new", "std::io::BufRead",
    "alloc::io::Read", "std::io::Take", "std::io::copy::stack", "alloc::io::cursor", "alloc::io::buf",
)


def reads_only(f):
    for q in (npath(f.get("path")) or "", npath(f.get("rpath")) or ""):
        if q.startswith(READING):
            return True
    if f.get("trait") in ("std::io::Read", "alloc::io::read::Read", "std::io::BufRead", "alloc::io::BufRead"):
        return True
    return False


def const_fns(x, out):
    if isinstance(x, dict):
        if "fn" in x and isinstance(x["fn"], dict):
            out.append(x["fn"])
        if "closure" in x:
            out.append({"key": x["closure"]})
        for v in x.values():
            const_fns(v, out)
    elif isinstance(x, list):
        for v in x:
            const_fns(v, out)


def referred(body):
    """All functions a body calls, builds closures of, or names."""
    r = getattr(body, "_referred", None)
    if r is not None:
        return r
    body.prep()
    out = []
    for bi in body.reach:
        bl = body.blocks[bi]
        for s in bl["s"]:
            if s[0] == "=":
                rv = s[2]
                if rv[0] == "agg" and rv[1] == "closure":
                    out.append({"key": rv[2]})
                const_fns(rv, out)
        t = bl["t"]
        if t["k"] == "call":
            out.append(t["f"])
            const_fns(t["a"], out)
    body._referred = out
    return out


def closure_bodies(prog, key):
    if key in prog.bodies:
        return key
    for k in prog.bodies:
        if k.endswith("::" + key):
            return k
    return None


def reach(prog, keys, skip=None):
    """Keys of the bodies reachable from the given ones."""
    seen = set()
    work = list(keys)
    while work:
        k = work.pop()
        if k in seen or k not in prog.bodies:
            continue
        if skip is not None and skip(k):
            continue
        seen.add(k)
        for f in referred(prog.bodies[k]):
            q = f.get("key")
            if q:
                q = closure_bodies(prog, q)
                if q:
                    work.append(q)
    return seen


def write_free(prog, key, memo={}):
    k = (id(prog), key)
    r = memo.get(k)
    if r is None:
        r = True
        for b in reach(prog, [key]):
            for f in referred(prog.bodies[b]):
                if f.get("key") and closure_bodies(prog, f["key"]):
                    continue
                if "path" not in f:
                    continue
                if not models.external_pure(f) and not reads_only(f):
                    r = False
        memo[k] = r
    return r


def opaque(eng, st, fr, bi, body, args):
    """The call's result as a fresh symbol; what it may change is forgotten."""
    vals = [models.deref(eng, st, x) for x in args]
    name = "call:" + body.path
    rt = body.tys[body.locals[0][0]]
    outs = models.opaque_result(eng, st, fr, bi, name, vals, rt, body.tys, True)
    for s, r in outs:
        for i, x in enumerate(args):
            if x.op == "mref":
                m = x
                while True:
                    inner = eng.load(s, m.a[0], m.a[1])
                    if inner.op != "mref":
                        break
                    m = inner
                v = app("changed:" + body.path, vals[i], INT(i), mk("site", models.eng_site(fr, bi)))
                eng.forget(s, v)
                eng.store(s, m.a[0], m.a[1], v)
    return outs


WRITES = ("CREATE", "MODIFY", "WRITE", "PARTWRITE", "RENAME", "COPY", "HARDLINK", "SYMLINK", "REMOVE_FILE",
          "REMOVE_DIR", "REMOVE_DIR_ALL", "CREATE_DIR", "CREATE_DIR_ALL", "SET_MTIME", "SET_PERM", "EXEC",
          "SPAWN", "LOCK_OPEN", "LOCK", "EXIT", "TRUNCATE")


class WriteMon:
    on_fact = None
    on_known = None

    def __init__(self, own):
        self.own = own
        self.found = []
        self.entry = None

    def stub(self, eng, st, fr, bi, body, args, t):
        if self.own(body.key) and not body.closure:
            return opaque(eng, st, fr, bi, body, args)

    def event(self, eng, st, fr, bi, ev):
        if ev[0] in WRITES or (ev[0] == "EFFECT" and not ev[1].startswith(READING)):
            self.found.append((ev[0], fr.body.path))
        return None


def entry_state(eng, fr, body, names=None):
    """Opaque arguments; mutable references point to opaque places."""
    st = State()
    for i in range(body.argc):
        t = body.tys[body.locals[i + 1][0]]
        nm = body.locals[i + 1][1] if len(body.locals[i + 1]) > 1 and body.locals[i + 1][1] else str(i)
        v = mk("arg", nm)
        if names and i in names:
            v = names[i]
        if t["k"] == "refm":
            st.mem[("l", -1, i)] = v
            v = mk("mref", ("l", -1, i), ())
        st.mem[("l", fr.id, i + 1)] = v
    return st


def modular_writes(prog, own, limit=60000):
    """Writes the functions of a module make themselves or through functions
    of other modules, found by analysing each of them on its own."""
    out = {}
    n = 0
    for k in sorted(prog.bodies):
        b = prog.bodies[k]
        if not own(k) or b.closure or b.generic or b.derived:
            continue
        if write_free(prog, k):
            continue
        m = WriteMon(own)
        eng = Engine(prog, m, {"max_steps": limit})
        fr = eng.frame(None, 0, b)
        n += 1
        try:
            eng.run(fr, entry_state(eng, fr, b))
        except (Budget, Unsupported) as e:
            m.found.append(("BUDGET", b.path))
        if m.found:
            out[k] = sorted(set(m.found))
    return out, n


def is_validation(key):
    return key.startswith(("krill_sync::validation::", "<krill_sync::validation::"))
