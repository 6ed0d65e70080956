"""Meaning of library functions (standard library, anyhow, rpki, ...)."""
from interp import *
from terms import *
import interp

# types which are interchangeable with the text or path they hold
TRANSPARENT = (
    "str", "&str", "alloc::string::String", "std::path::PathBuf", "std::path::Path",
    "std::ffi::os_str::OsStr", "std::ffi::os_str::OsString", "rpki::uri::Https",
    "rpki::uri::Rsync", "alloc::borrow::Cow", "std::path::Display",
    "alloc::boxed::Box<str>", "bytes::bytes::Bytes", "std::ffi::os_str::Display",
)


def strip_refs(s):
    s = s or ""
    while True:
        if s.startswith("&"):
            s = s[1:].lstrip()
            if s.startswith("'"):
                s = s.split(" ", 1)[1] if " " in s else ""
            if s.startswith("mut "):
                s = s[4:]
        else:
            return s


def is_transparent(s):
    s = strip_refs(s)
    return s.startswith(TRANSPARENT[0]) and s == "str" or s in TRANSPARENT or s.startswith("alloc::borrow::Cow<")


def ret_type(fr, t):
    if t is None or t.get("dty") is None:
        return None
    return fr.body.tys[t["dty"]]


def result_types(fr, t):
    ty = ret_type(fr, t)
    if ty and ty["k"] == "adt" and ty["n"] == RESULT:
        return fr.body.tys[ty["a"][0]], fr.body.tys[ty["a"][1]]
    return None


def is_unit(ty):
    return ty is not None and ty["k"] == "tuple" and not ty.get("a")


def is_vec_ty(ty):
    return ty is not None and ty["k"] == "adt" and ty["n"] == "alloc::vec::Vec"


def deref(eng, st, v):
    while v.op == "mref":
        v = eng.load(st, v.a[0], v.a[1])
    return v


def arg_ty(fr, f, i):
    """The i-th generic argument of the callee."""
    a = f.get("args") or []
    if i < len(a) and isinstance(a[i], int):
        return fr.body.tys[a[i]]
    return None


M = {}


def model(*names):
    def d(fn):
        for n in names:
            M[n] = fn
        return fn
    return d


def dispatch(eng, st, fr, bi, f, a, t):
    p = npath(f.get("path"))
    fn = M.get(p)
    if fn is not None:
        r = fn(eng, st, fr, bi, f, a, t)
        if r is not None:
            return r
    rp = npath(f.get("rpath"))
    if rp != p:
        fn = M.get(rp)
        if fn is not None:
            return fn(eng, st, fr, bi, f, a, t)
    return None


# ---- purity of externals ----------------------------------------------------

EFFECT_PREFIX = ("std::fs::", "std::os::", "std::process::", "std::net::", "std::env::set",
                 "std::env::remove", "std::thread::", "libc::", "nix::", "filetime::set",
                 "fslock::", "reqwest::", "std::io::", "alloc::io::", "core::io::", "std::sys::",
                 "fs2::", "tempfile::", "std::path::Path::exists", "std::path::Path::is_",
                 "std::path::Path::metadata", "std::path::Path::symlink_metadata",
                 "std::path::Path::read_", "std::path::Path::canonicalize", "std::path::Path::try_exists")
IMPURE_NOEFFECT = ("chrono::offset::local::Local::now", "chrono::offset::utc::Utc::now",
                   "std::time::SystemTime::now", "std::time::Instant::now",
                   "rpki::repository::x509::Time::now", "uuid::Uuid::new_v4", "std::env::var", "std::env::args")
PURE_IO = ("std::io::stdio::_eprint", "std::io::stdio::_print", "std::io::error::", "core::io::error::", "std::io::Error")


def external_pure(f):
    p = npath(f.get("path")) or ""
    rp = npath(f.get("rpath")) or ""
    for q in (p, rp):
        if q.startswith(PURE_IO):
            return True
        if q.startswith(EFFECT_PREFIX):
            return False
    if f.get("trait") in ("std::io::Write", "alloc::io::write::Write", "std::io::Read", "alloc::io::read::Read", "core::io::Write"):
        return False
    return True


# ---- results ------------------------------------------------------------------

def fork_result(eng, st, fr, bi, sym, okv, errv=None, fail=None, t=None, post_ok=None, post_err=None):
    """Both outcomes of a fallible operation named by the term sym."""
    out = []
    rt = result_types(fr, t)
    if errv is None:
        errv = ERR if rt is None or rt[1].get("n") == "anyhow::Error" else app("err", sym)
    k = eng.known(st, sym)
    if k is not False:
        s = st.copy()
        for s1 in eng.assume(s, sym, True):
            sts = [s1] if post_ok is None else post_ok(s1)
            out.extend((x, OK(okv)) for x in sts)
    if k is not True:
        s = st.copy()
        for s1 in eng.assume(s, sym, False):
            sts = [s1] if post_err is None else post_err(s1)
            for x in sts:
                if fail is not None:
                    out.extend((y, ERRV(errv)) for y in eng.event(x, fr, bi, ("FAIL",) + fail))
                else:
                    out.append((x, ERRV(errv)))
    return out


def io_op(eng, st, fr, bi, kind, args, t, okv=UNIT):
    """A file-system operation: its event is raised for either outcome."""
    sym = app("io:" + kind, *args, mk("site", eng_site(fr, bi)))
    eng.forget(st, sym)
    v = okv(sym) if callable(okv) else okv
    return fork_result(
        eng, st, fr, bi, sym, v, fail=(kind, args, sym), t=t,
        post_ok=lambda s: eng.event(s, fr, bi, (kind, True) + tuple(args)),
        post_err=lambda s: eng.event(s, fr, bi, (kind, False) + tuple(args)))


def eng_site(fr, bi):
    return (fr.id, str(bi))


def impure(eng, st, fr, bi, name, *args):
    s = app(name, *args, mk("site", eng_site(fr, bi)))
    eng.forget(st, s)
    return s


# ---- identity-like functions -----------------------------------------------------

def ident(eng, st, fr, bi, f, a, t):
    return [(st, deref(eng, st, a[0]))]


def ident_raw(eng, st, fr, bi, f, a, t):
    return [(st, a[0])]


for n in """alloc::string::String::as_str alloc::string::String::as_bytes core::str::<impl str>::as_bytes
alloc::string::String::into_bytes alloc::string::String::into_boxed_str alloc::string::String::as_mut_str
std::path::Path::new std::path::Path::to_path_buf std::path::PathBuf::as_path std::path::Path::as_os_str
std::path::Path::to_string_lossy std::path::Path::display std::ffi::os_str::OsStr::to_string_lossy
std::ffi::os_str::OsStr::to_os_string std::path::PathBuf::into_os_string std::path::Path::as_path
alloc::borrow::Cow::into_owned alloc::borrow::ToOwned::to_owned rpki::uri::Https::as_str rpki::uri::Rsync::as_str
core::hint::must_use core::hint::black_box alloc::slice::<impl [T]>::to_vec alloc::slice::<impl [T]>::into_vec
alloc::vec::Vec::as_slice alloc::vec::Vec::into_boxed_slice core::option::Option::as_ref core::option::Option::as_deref
core::option::Option::copied core::option::Option::cloned core::result::Result::as_ref core::result::Result::as_deref
core::slice::<impl [T]>::as_ref core::array::<impl [T; N]>::as_slice bytes::bytes::Bytes::from
bytes::bytes::Bytes::copy_from_slice bytes::bytes::Bytes::to_vec alloc::string::String::into_string
alloc::boxed::Box::new alloc::rc::Rc::new alloc::rcs::arc::Arc::new alloc::sync::Arc::new alloc::rcs::rc::Rc::new
std::io::buffered::bufreader::BufReader::new alloc::io::buffered::bufreader::BufReader::new
std::io::buffered::bufwriter::BufWriter::new alloc::io::buffered::bufwriter::BufWriter::new
alloc::io::buffered::bufreader::BufReader::with_capacity alloc::io::buffered::bufwriter::BufWriter::with_capacity
core::mem::manually_drop::ManuallyDrop::new core::iter::traits::iterator::Iterator::by_ref
core::str::<impl str>::to_string alloc::str::<impl str>::to_owned core::char::methods::<impl char>::to_string
alloc::str::<impl str>::into_string core::str::<impl str>::as_ref alloc::str::<impl str>::into_boxed_str
core::convert::identity alloc::vec::Vec::from_iter_identity core::cell::Cell::new
alloc::slice::<impl alloc::borrow::ToOwned for [T]>::to_owned
alloc::str::<impl alloc::borrow::ToOwned for str>::to_owned""".split("\n"):
    for m in n.split():
        M[m] = ident
M["core::iter::traits::iterator::Iterator::by_ref"] = ident_raw
M["core::slice::<impl [T]>::to_vec"] = ident
M["alloc::slice::<impl [T]>::to_owned"] = ident


@model("core::ops::deref::Deref::deref", "core::convert::AsRef::as_ref", "core::borrow::Borrow::borrow")
def m_deref(eng, st, fr, bi, f, a, t):
    if f.get("key") and f.get("key") in eng.prog.bodies and not f.get("impl_derived"):
        return None
    return ident(eng, st, fr, bi, f, a, t)


@model("core::ops::deref::DerefMut::deref_mut", "core::convert::AsMut::as_mut", "core::borrow::BorrowMut::borrow_mut",
       "alloc::vec::Vec::as_mut_slice")
def m_deref_mut(eng, st, fr, bi, f, a, t):
    if f.get("key") and f.get("key") in eng.prog.bodies:
        return None
    return [(st, a[0])]


@model("core::clone::Clone::clone")
def m_clone(eng, st, fr, bi, f, a, t):
    if f.get("key") in eng.prog.bodies and not f.get("impl_derived"):
        return None
    return ident(eng, st, fr, bi, f, a, t)


@model("core::convert::From::from", "core::convert::Into::into")
def m_from(eng, st, fr, bi, f, a, t):
    if f.get("key") in eng.prog.bodies:
        return None
    rt = ret_type(fr, t)
    s = (rt or {}).get("s") or f.get("impl_self") or ""
    if s == "anyhow::Error" or strip_refs(f.get("impl_self") or "") == "anyhow::Error":
        return [(st, ERR)]
    v = deref(eng, st, a[0])
    if rt is not None:
        if is_transparent(rt["s"]) or is_vec_ty(rt):
            return [(st, v)]
        if rt["k"] == "int" or rt["k"] == "bool":
            return [(st, v)]
        if rt["k"] == "adt" and rt["n"] == OPTION:
            return [(st, SOME(v))]
        if rt["k"] == "adt" and rt["n"].startswith(("alloc::boxed::Box", "alloc::sync::Arc", "alloc::rcs::arc::Arc", "alloc::rc::Rc")):
            return [(st, v)]
        # T: From<T>
        src = arg_ty(fr, f, 1) or arg_ty(fr, f, 0)
        if src is not None and src["s"] == rt["s"]:
            return [(st, v)]
    elif is_transparent(f.get("impl_self")):
        return [(st, v)]
    return [(st, app("from:" + s, v))]


@model("alloc::string::ToString::to_string")
def m_to_string(eng, st, fr, bi, f, a, t):
    if f.get("key") in eng.prog.bodies:
        return None
    v = deref(eng, st, a[0])
    # 'impl_self' is the implementing type when it is not the blanket impl
    ty = arg_ty(fr, f, 0)
    return [(st, display(eng, v, ty))]


def display(eng, v, ty, kind="display"):
    if v.op == "str":
        return v
    if v.op == "int":
        return STR(str(v.a[0]))
    if v.op in ("cat",):
        return v
    if ty is not None:
        s = strip_refs(ty["s"])
        if is_transparent(s):
            return v
        if ty["k"] == "int":
            return app("dec", v)
        if s.endswith("UriString") and v.op == "adt" and len(v.a) == 3:
            return v.a[2]
    return app(kind, v)


# ---- formatting ------------------------------------------------------------------

@model("core::fmt::rt::Argument::new_display", "core::fmt::rt::Argument::new_debug", "core::fmt::rt::Argument::new_lower_hex",
       "core::fmt::rt::Argument::new_upper_hex", "core::fmt::rt::Argument::new_lower_exp", "core::fmt::rt::Argument::from_usize",
       "core::fmt::rt::Argument::new_octal", "core::fmt::rt::Argument::new_binary", "core::fmt::rt::Argument::new_pointer")
def m_fmtarg(eng, st, fr, bi, f, a, t):
    v = deref(eng, st, a[0])
    ty = arg_ty(fr, f, 0)
    if ty is None or f.get("path", "").endswith("new_display"):
        for i in range(len(f.get("args") or [])):
            x = arg_ty(fr, f, i)
            if x is not None:
                ty = x
    k = npath(f["path"]).rsplit("::", 1)[1]
    return [(st, mk("fa", display(eng, v, ty) if k == "new_display" else app(k, v)))]


@model("core::fmt::Arguments::new", "core::fmt::Arguments::new_v1", "core::fmt::rt::<impl core::fmt::Arguments>::new_v1")
def m_fmtargs(eng, st, fr, bi, f, a, t):
    tpl = deref(eng, st, a[0])
    args = deref(eng, st, a[1]) if len(a) > 1 else EMPTYVEC
    av = [deref(eng, st, p.a[0]) for p in parts_of(args) if p.op == "one"]
    if tpl.op != "bytes":
        return [(st, app("fmt", tpl, *av))]
    b = tpl.a[0]
    out = []
    i = 0
    nxt = 0
    while i < len(b):
        c = b[i]
        i += 1
        if c == 0:
            break
        if c < 0x80:
            out.append(STR(b[i:i + c].decode("utf8", "replace")))
            i += c
        elif c == 0x80:
            n = b[i] | b[i + 1] << 8
            i += 2
            out.append(STR(b[i:i + n].decode("utf8", "replace")))
            i += n
        else:
            spec = False
            idx = nxt
            if c & 1:
                fl = b[i:i + 4]
                i += 4
                spec = fl not in (b"\x20\x00\x00\xe0", b"\x00\x00\x00\x00")
            if c & 2:
                i += 2
                spec = True
            if c & 4:
                i += 2
                spec = True
            if c & 8:
                idx = b[i] | b[i + 1] << 8
                i += 2
            nxt = idx + 1
            x = av[idx].a[0] if idx < len(av) and av[idx].op == "fa" else UNDEF
            out.append(app("fmtspec", x) if spec else x)
    return [(st, cat(*out))]


@model("core::fmt::Arguments::from_str", "core::fmt::Arguments::new_const", "core::fmt::Arguments::as_str")
def m_fmt_str(eng, st, fr, bi, f, a, t):
    return ident(eng, st, fr, bi, f, a, t)


@model("alloc::fmt::format")
def m_format(eng, st, fr, bi, f, a, t):
    return ident(eng, st, fr, bi, f, a, t)


# ---- errors -----------------------------------------------------------------------

@model("anyhow::error::<impl anyhow::Error>::msg", "anyhow::__private::format_err", "anyhow::error::<impl anyhow::Error>::new",
       "anyhow::kind::Adhoc::new", "anyhow::kind::Trait::new", "anyhow::error::<impl anyhow::Error>::context",
       "anyhow::kind::Boxed::new", "anyhow::error::<impl anyhow::Error>::from_adhoc")
def m_err(eng, st, fr, bi, f, a, t):
    return [(s, ERR) for s in eng.event(st, fr, bi, ("NEWERR",))]


@model("anyhow::__private::must_use")
def m_err_id(eng, st, fr, bi, f, a, t):
    return [(st, a[0])]


def split_result(eng, st, v):
    """[(state, is_ok, payload)]"""
    v = deref(eng, st, v)
    if v.op == "adt":
        return [(st, v.a[1] == 0, v.a[2] if len(v.a) > 2 else UNIT)]
    out = []
    for i in (0, 1):
        for s in eng.assume(st.copy(), mk_isvar(v, RESULT, i), True):
            out.append((s, i == 0, proj(v, RESULT, i, 0)))
    return out


def split_option(eng, st, v):
    v = deref(eng, st, v)
    if v.op == "adt":
        return [(st, v.a[1] == 1, v.a[2] if len(v.a) > 2 else None)]
    out = []
    for i in (0, 1):
        for s in eng.assume(st.copy(), mk_isvar(v, OPTION, i), True):
            out.append((s, i == 1, proj(v, OPTION, 1, 0) if i else None))
    return out


@model("anyhow::Context::with_context", "anyhow::Context::context")
def m_context(eng, st, fr, bi, f, a, t):
    isopt = strip_refs(f.get("impl_self") or "").startswith(OPTION) or (a[0].op in ("adt", "sum") and a[0].a[0] == OPTION)
    out = []
    if isopt:
        parts = [(s, ok, v) for s, ok, v in split_option(eng, st, a[0])]
    else:
        parts = split_result(eng, st, a[0])
    for s, ok, v in parts:
        if ok:
            out.append((s, OK(v)))
            continue
        fv = deref(eng, s, a[1])
        if fv.op == "clo" and not eng.pure_body(closure_key(eng, fv)):
            for s2, _ in eng.call_value(s, fr, bi, a[1], []):
                out.append((s2, ERRV(ERR)))
        else:
            out.append((s, ERRV(ERR)))
    return out


def closure_key(eng, fv):
    return fv.a[0]


@model("core::option::Option::ok_or")
def m_ok_or(eng, st, fr, bi, f, a, t):
    out = []
    for s, some, v in split_option(eng, st, a[0]):
        if some:
            if a[1] is ERR:
                # the error was made, but is not used
                out.extend((x, OK(v)) for x in eng.event(s, fr, bi, ("NOERR",)))
            else:
                out.append((s, OK(v)))
        else:
            out.append((s, ERRV(a[1])))
    return out


@model("core::ops::try_trait::Try::branch")
def m_branch(eng, st, fr, bi, f, a, t):
    v = a[0]
    selfty = f.get("impl_self") or f.get("rpath") or ""
    isopt = (v.op in ("adt", "sum") and v.a[0] == OPTION) or (v.op != "adt" and "option::Option" in (f.get("rpath") or ""))
    out = []
    if isopt:
        for s, some, x in split_option(eng, st, v):
            out.append((s, mk("adt", CONTROL, 0, x) if some else mk("adt", CONTROL, 1, NONE)))
    else:
        for s, ok, x in split_result(eng, st, v):
            out.append((s, mk("adt", CONTROL, 0, x) if ok else mk("adt", CONTROL, 1, ERRV(x))))
    return out


@model("core::ops::try_trait::FromResidual::from_residual")
def m_residual(eng, st, fr, bi, f, a, t):
    v = a[0]
    if v.op in ("adt", "sum") and v.a[0] == OPTION:
        rt = ret_type(fr, t)
        if rt and rt.get("n") == OPTION:
            return [(st, NONE)]
    rts = result_types(fr, t)
    if rts is not None and rts[1].get("n") == "anyhow::Error":
        return [(st, ERRV(ERR))]
    # the same error type on both sides
    e = v.a[2] if v.op == "adt" and len(v.a) > 2 else app("residual", v)
    key = f.get("key")
    if key in eng.prog.bodies:
        return None
    return [(st, ERRV(e))]


@model("core::ops::try_trait::Try::from_output")
def m_from_output(eng, st, fr, bi, f, a, t):
    rt = ret_type(fr, t)
    if rt and rt.get("n") == OPTION:
        return [(st, SOME(a[0]))]
    return [(st, OK(a[0]))]


# panics --------------------------------------------------------------------------

def m_panic(eng, st, fr, bi, f, a, t):
    eng.event(st, fr, bi, ("PANIC", f.get("path")))
    return []


for n in """core::panicking::panic core::panicking::panic_fmt core::panicking::unreachable_display core::option::unwrap_failed
core::result::unwrap_failed core::result::unwrap_failed::unwrap_failed_inner core::option::expect_failed std::panicking::begin_panic
core::panicking::panic_explicit core::panicking::panic_display core::panicking::assert_failed std::rt::begin_panic
core::panicking::panic_bounds_check std::process::abort std::rt::panic_fmt""".split():
    M[n] = m_panic


@model("std::process::exit")
def m_exit(eng, st, fr, bi, f, a, t):
    eng.event(st, fr, bi, ("EXIT", deref(eng, st, a[0])))
    return []


# ---- comparison -----------------------------------------------------------------

def unwrap_newtype(v, ty, eng):
    """A struct with a single field is compared by that field."""
    for _ in range(3):
        if v.op == "adt" and len(v.a) == 3 and ADTS.get(v.a[0], {}).get("kind") == "struct":
            v = v.a[2]
        else:
            break
    return v


def cmp_args(eng, st, fr, f, a):
    x, y = deref(eng, st, a[0]), deref(eng, st, a[1])
    ty = arg_ty(fr, f, 0)
    while ty is not None and ty["k"] in ("ref", "refm"):
        ty = fr.body.tys[ty["t"]]
    for _ in range(3):
        if ty is not None and ty["k"] == "adt":
            d = ADTS.get(ty["n"])
            if d and d.get("local") and d["kind"] == "struct" and len(d["v"][0]["f"]) == 1:
                x = proj(x, ty["n"], 0, 0)
                y = proj(y, ty["n"], 0, 0)
                fl = ty.get("f")
                ty = fr.body.tys[fl[0][0]] if fl and fl[0] else None
                continue
        break
    return unwrap_newtype(x, ty, eng), unwrap_newtype(y, ty, eng)


def local_manual(eng, f):
    return f.get("key") in eng.prog.bodies and not f.get("impl_derived") and \
        not (f.get("key") or "").startswith(("<core::", "core::", "<&", "<alloc::"))


def cmp_model(rel):
    def go(eng, st, fr, bi, f, a, t):
        if local_manual(eng, f):
            return None
        if f["path"].startswith("core::cmp::PartialOrd") and "log::" in (f.get("rpath") or "") + (f.get("impl_self") or ""):
            return [(st, app("loglevel", mk("site", eng_site(fr, bi))))]
        x, y = cmp_args(eng, st, fr, f, a)
        if rel in ("=", "<>"):
            e = vec_eq(eng, st, x, y)
            return [(st, e if rel == "=" else mk_not(e))]
        return [(st, mk_ord(x, y, rel))]
    return go


def vec_eq(eng, st, x, y):
    if x.op in ("vec", "arr") and y.op in ("vec", "arr"):
        px, py = parts_of(x), parts_of(y)
        if all(p.op == "one" for p in px + py):
            if len(px) != len(py):
                return FALSE
            return mk_and([mk_eq(p.a[0], q.a[0]) for p, q in zip(px, py)])
    return mk_eq(x, y)


M["core::cmp::PartialEq::eq"] = cmp_model("=")
M["core::cmp::PartialEq::ne"] = cmp_model("<>")
M["core::cmp::PartialOrd::lt"] = cmp_model("<")
M["core::cmp::PartialOrd::le"] = cmp_model("<=")
M["core::cmp::PartialOrd::gt"] = cmp_model(">")
M["core::cmp::PartialOrd::ge"] = cmp_model("=>")
M["core::str::<impl str>::eq_ignore_ascii_case"] = lambda eng, st, fr, bi, f, a, t: [(st, app("eqi", deref(eng, st, a[0]), deref(eng, st, a[1])))]


@model("core::cmp::Ord::cmp", "core::cmp::PartialOrd::partial_cmp")
def m_cmp(eng, st, fr, bi, f, a, t):
    if local_manual(eng, f):
        return None
    x, y = cmp_args(eng, st, fr, f, a)
    opt = f["path"].endswith("partial_cmp")
    for i, c in enumerate("<=>"):
        if eng.known(st, mk_ord(x, y, c)) is True:
            r = mk("adt", ORDERING, i)
            return [(st, SOME(r) if opt else r)]
    r = app("cmp", x, y)
    return [(st, SOME(r) if opt else r)]


@model("core::cmp::Ord::max", "core::cmp::Ord::min", "core::cmp::max", "core::cmp::min")
def m_maxmin(eng, st, fr, bi, f, a, t):
    x, y = deref(eng, st, a[0]), deref(eng, st, a[1])
    mx = f["path"].endswith("max")
    out = []
    for s in eng.assume(st.copy(), mk_ord(x, y, "<=" if mx else ">"), True):
        out.append((s, y))
    for s in eng.assume(st.copy(), mk_ord(x, y, ">" if mx else "<="), True):
        out.append((s, x))
    return out


def ord_method(rel):
    def go(eng, st, fr, bi, f, a, t):
        v = deref(eng, st, a[0])
        if v.op == "app" and v.a[0] == "cmp":
            return [(st, mk_ord(v.a[1], v.a[2], rel))]
        if v.op == "adt":
            return [(st, BOOL("<=>"[v.a[1]] in rel))]
        return [(st, app("ordm:" + rel, v))]
    return go


for n, r in (("is_lt", "<"), ("is_le", "<="), ("is_gt", ">"), ("is_ge", "=>"), ("is_eq", "="), ("is_ne", "<>")):
    M["core::cmp::Ordering::" + n] = ord_method(r)


@model("core::cmp::Ordering::reverse")
def m_ord_rev(eng, st, fr, bi, f, a, t):
    v = deref(eng, st, a[0])
    if v.op == "app" and v.a[0] == "cmp":
        return [(st, app("cmp", v.a[2], v.a[1]))]
    if v.op == "adt":
        return [(st, mk("adt", ORDERING, 2 - v.a[1]))]
    return None


@model("core::ops::bit::Not::not")
def m_not(eng, st, fr, bi, f, a, t):
    return [(st, mk_not(deref(eng, st, a[0])))]


def arith(op):
    def go(eng, st, fr, bi, f, a, t):
        if f.get("key") in eng.prog.bodies:
            return None
        x, y = deref(eng, st, a[0]), deref(eng, st, a[1])
        if op == "Add" and is_transparent(f.get("impl_self")):
            return [(st, cat(x, y))]
        return [(st, eng.binop(st, op, x, y))]
    return go


M["core::ops::arith::Add::add"] = arith("Add")
M["core::ops::arith::Sub::sub"] = arith("Sub")


@model("core::num::<impl u64>::saturating_sub", "core::num::<impl i64>::saturating_sub", "core::num::<impl i64>::wrapping_sub",
       "core::num::<impl usize>::saturating_sub")
def m_satsub(eng, st, fr, bi, f, a, t):
    return [(st, eng.binop(st, "Sub", a[0], a[1]))]


@model("core::bool::<impl bool>::then", "core::bool::<impl bool>::then_some")
def m_then(eng, st, fr, bi, f, a, t):
    out = []
    c = deref(eng, st, a[0])
    for s in eng.assume(st.copy(), c, True):
        if f["path"].endswith("then_some"):
            out.append((s, SOME(a[1])))
        else:
            for s2, v in eng.call_value(s, fr, bi, a[1], []):
                out.append((s2, SOME(v)))
    for s in eng.assume(st.copy(), c, False):
        out.append((s, NONE))
    return out


# ---- memory ----------------------------------------------------------------------

@model("core::mem::replace", "core::mem::take", "core::option::Option::take", "core::option::Option::replace", "core::mem::swap",
       "core::option::Option::insert", "core::mem::drop", "core::mem::forget", "core::option::Option::get_or_insert")
def m_mem(eng, st, fr, bi, f, a, t):
    n = npath(f["path"]).rsplit("::", 1)[1]
    if n in ("drop", "forget"):
        v = a[0]
        if v.op == "app" and v.a[0] == "lockfile" and n == "drop":
            return [(s, UNIT) for s in eng.event(st, fr, bi, ("UNLOCK", v))]
        return [(st, UNIT)]
    m = a[0]
    if m.op != "mref":
        return [(st, m)] if n != "swap" else [(st, UNIT)]
    old = eng.load(st, m.a[0], m.a[1])
    if n == "swap":
        m2 = a[1]
        o2 = eng.load(st, m2.a[0], m2.a[1])
        eng.store(st, m.a[0], m.a[1], o2)
        eng.store(st, m2.a[0], m2.a[1], old)
        return [(st, UNIT)]
    if "option::Option" in f["path"]:
        if n == "take":
            eng.store(st, m.a[0], m.a[1], NONE)
            return [(st, old)]
        eng.store(st, m.a[0], m.a[1], SOME(a[1]))
        if n == "replace":
            return [(st, old)]
        return [(st, mk("mref", m.a[0], m.a[1] + (("f", OPTION, 1, 0, None),)))]
    if n == "take":
        rt = ret_type(fr, t)
        eng.store(st, m.a[0], m.a[1], default_value(eng, fr, rt))
        return [(st, old)]
    eng.store(st, m.a[0], m.a[1], a[1])
    return [(st, old)]


def default_value(eng, fr, ty):
    if ty is None:
        return app("default")
    if ty["k"] == "adt":
        if ty["n"] == "alloc::vec::Vec":
            return EMPTYVEC
        if ty["n"] == OPTION:
            return NONE
        if ty["n"] == "alloc::string::String":
            return STR("")
        if "HashMap" in ty["n"] or "BTreeMap" in ty["n"] or "HashSet" in ty["n"] or "BTreeSet" in ty["n"]:
            return mk("emptymap")
    if ty["k"] == "bool":
        return FALSE
    if ty["k"] == "int":
        return INT(0)
    return app("default", mk("ty", ty.get("s")))


@model("core::default::Default::default")
def m_default(eng, st, fr, bi, f, a, t):
    if f.get("key") in eng.prog.bodies:
        return None
    return [(st, default_value(eng, fr, ret_type(fr, t)))]


@model("core::ops::function::FnOnce::call_once", "core::ops::function::FnMut::call_mut", "core::ops::function::Fn::call")
def m_call(eng, st, fr, bi, f, a, t):
    fv = deref(eng, st, a[0])
    if fv.op in ("clo", "fn", "ctor"):
        tp = a[1] if len(a) > 1 else UNIT
        args = list(tp.a) if tp.op == "tup" else []
        return eng.call_value(st, fr, bi, a[0], args, t)
    return None


@model("alloc::boxed::Box::new_uninit")
def m_box_uninit(eng, st, fr, bi, f, a, t):
    root = ("hp", fr.id, bi)
    st.mem[root] = UNDEF
    return [(st, mk("mref", root, ()))]


@model("alloc::boxed::box_assume_init_into_vec_unsafe")
def m_box_vec(eng, st, fr, bi, f, a, t):
    return [(st, deref(eng, st, a[0]))]


# ---- strings and paths --------------------------------------------------------------

def P(eng, st, v):
    return deref(eng, st, v)


def join_path(a, b):
    if b.op == "str" and b.a[0].startswith("/"):
        return b
    if b.op == "cat" and b.a[0].op == "str" and b.a[0].a[0].startswith("/"):
        return b
    if b.op == "str" and "/" in b.a[0].strip("/"):
        x, y = b.a[0].split("/", 1)
        return join_path(join_path(a, STR(x)), STR(y))
    if b.op == "join":
        return join_path(join_path(a, b.a[0]), b.a[1])
    return mk("join", a, b)


@model("std::path::Path::join", "std::path::Path::with_file_name", "std::path::Path::with_extension")
def m_join(eng, st, fr, bi, f, a, t):
    x, y = P(eng, st, a[0]), P(eng, st, a[1])
    n = f["path"].rsplit("::", 1)[1]
    if n == "join":
        return [(st, join_path(x, y))]
    if n == "with_file_name":
        return [(st, join_path(parent_path(x), y))]
    return [(st, mk("withext", x, y))]


@model("std::path::PathBuf::push", "std::path::PathBuf::set_extension", "std::path::PathBuf::set_file_name", "std::path::PathBuf::pop")
def m_pathmut(eng, st, fr, bi, f, a, t):
    m = a[0]
    if m.op != "mref":
        return None
    x = eng.load(st, m.a[0], m.a[1])
    n = f["path"].rsplit("::", 1)[1]
    if n == "push":
        r, ret = join_path(x, P(eng, st, a[1])), UNIT
    elif n == "set_extension":
        r, ret = mk("withext", x, P(eng, st, a[1])), TRUE
    elif n == "pop":
        r, ret = parent_path(x), TRUE
    else:
        r, ret = join_path(parent_path(x), P(eng, st, a[1])), UNIT
    eng.store(st, m.a[0], m.a[1], r)
    return [(st, ret)]


def parent_path(p):
    if p.op == "join" and p.a[1].op == "str" and "/" not in p.a[1].a[0]:
        return p.a[0]
    if p.op == "withext":
        return parent_path(p.a[0])
    if p.op == "anc":
        return p
    if p.op == "parent":
        return mk("anc", p.a[0])
    return mk("parent", p)


@model("std::path::Path::parent")
def m_parent(eng, st, fr, bi, f, a, t):
    p = P(eng, st, a[0])
    out = []
    sym = app("hasparent", p)
    if p.op == "anc":
        # any number of steps up: each step is a new question
        sym = app("hasparent", p, mk("site", eng_site(fr, bi)))
        eng.drop_facts(st, sym)
    for s in eng.assume(st.copy(), sym, True):
        out.append((s, SOME(parent_path(p))))
    for s in eng.assume(st.copy(), sym, False):
        out.append((s, NONE))
    return out


@model("std::path::Path::to_str", "std::ffi::os_str::OsStr::to_str")
def m_to_str(eng, st, fr, bi, f, a, t):
    p = P(eng, st, a[0])
    sym = app("utf8", p)
    return [(s, SOME(p)) for s in eng.assume(st.copy(), sym, True)] + [(s, NONE) for s in eng.assume(st.copy(), sym, False)]


@model("alloc::string::String::push_str", "alloc::string::String::push", "alloc::string::String::clear", "std::ffi::os_str::OsString::push")
def m_pushstr(eng, st, fr, bi, f, a, t):
    m = a[0]
    if m.op != "mref":
        return None
    x = eng.load(st, m.a[0], m.a[1])
    n = f["path"].rsplit("::", 1)[1]
    if n == "clear":
        r = STR("")
    else:
        y = P(eng, st, a[1])
        if y.op == "int":
            y = STR(chr(y.a[0]))
        r = cat(x, y)
    eng.store(st, m.a[0], m.a[1], r)
    return [(st, UNIT)]


@model("core::str::<impl str>::is_empty", "alloc::string::String::is_empty")
def m_str_empty(eng, st, fr, bi, f, a, t):
    return [(st, mk_eq(P(eng, st, a[0]), STR("")))]


@model("alloc::string::String::new", "alloc::string::String::with_capacity")
def m_str_new(eng, st, fr, bi, f, a, t):
    return [(st, STR(""))]


@model("std::path::PathBuf::new")
def m_path_new(eng, st, fr, bi, f, a, t):
    return [(st, STR(""))]


@model("core::str::<impl str>::strip_prefix")
def m_strip_prefix(eng, st, fr, bi, f, a, t):
    x, y = P(eng, st, a[0]), P(eng, st, a[1])
    if x.op == "str" and y.op == "str":
        if x.a[0].startswith(y.a[0]):
            return [(st, SOME(STR(x.a[0][len(y.a[0]):])))]
        return [(st, NONE)]
    sym = app("starts_with", x, y)
    v = app("stripped", x, y)
    return [(s, SOME(v)) for s in eng.assume(st.copy(), sym, True)] + [(s, NONE) for s in eng.assume(st.copy(), sym, False)]


@model("core::str::<impl str>::starts_with")
def m_starts_with(eng, st, fr, bi, f, a, t):
    x, y = P(eng, st, a[0]), P(eng, st, a[1])
    if y.op == "int":
        y = STR(chr(y.a[0]))
    if x.op == "str" and y.op == "str":
        return [(st, BOOL(x.a[0].startswith(y.a[0])))]
    return [(st, app("starts_with", x, y))]


@model("std::path::Path::is_absolute", "std::path::Path::has_root", "std::path::Path::is_relative", "std::path::Path::starts_with",
       "std::path::Path::ends_with", "std::path::Path::file_name", "std::path::Path::extension", "std::path::Path::file_stem",
       "std::path::Path::components", "std::path::Path::iter", "std::path::Path::ancestors", "std::path::Path::strip_prefix")
def m_path_pure(eng, st, fr, bi, f, a, t):
    return unknown(eng, st, fr, bi, f, a, t)


@model("core::str::converts::from_utf8", "alloc::string::String::from_utf8", "core::str::<impl str>::from_utf8")
def m_from_utf8(eng, st, fr, bi, f, a, t):
    x = P(eng, st, a[0])
    return fork_result(eng, st, fr, bi, app("utf8", x), x, t=t)


@model("alloc::string::String::from_utf8_lossy")
def m_from_utf8_lossy(eng, st, fr, bi, f, a, t):
    return [(st, P(eng, st, a[0]))]


# ---- vectors -----------------------------------------------------------------------

@model("alloc::vec::Vec::new", "alloc::vec::Vec::with_capacity")
def m_vec_new(eng, st, fr, bi, f, a, t):
    return [(st, EMPTYVEC)]


def pending_marks(eng, st, v):
    """Marks of the loops under way, for a vector first changed inside them."""
    return None


def vec_for_update(eng, st, m):
    v = eng.load(st, m.a[0], m.a[1])
    if v.op in ("vec",):
        return v
    if v.op == "undef":
        return EMPTYVEC
    if v.op == "arr":
        return tovec(v, eng)
    # an unknown vector: it has been there since before the loops under way
    # started, unless it belongs to an element which is being visited
    marks = []
    for x in st.its:
        key, pos, base, oc, status = x
        if key in st.loops and not (status == "in" and mentions(v, el(base))):
            marks.append(mk("open", key, (m.a[0], m.a[1])))
    return vec((each(v),) + tuple(marks), eng.vec_attrs(v))


@model("alloc::vec::Vec::push", "alloc::vec::Vec::push_mut", "alloc::collections::vec_deque::VecDeque::push_back")
def m_push(eng, st, fr, bi, f, a, t):
    m = a[0]
    if m.op != "mref":
        return None
    v = vec_for_update(eng, st, m)
    eng.store(st, m.a[0], m.a[1], vec(v.a[1] + (one(a[1]),)))
    return [(st, UNIT)]


@model("alloc::vec::Vec::append")
def m_append(eng, st, fr, bi, f, a, t):
    m, o = a
    if m.op != "mref" or o.op != "mref":
        return None
    v = vec_for_update(eng, st, m)
    w = tovec(eng.load(st, o.a[0], o.a[1]), eng)
    eng.store(st, m.a[0], m.a[1], append_parts(v, w))
    eng.store(st, o.a[0], o.a[1], EMPTYVEC)
    return [(st, UNIT)]


def append_parts(v, w):
    wp = tuple(p for p in w.a[1] if p.op != "open")
    if not v.a[1]:
        return vec(wp, w.a[0])
    if not wp:
        return v
    return vec(v.a[1] + wp)


@model("alloc::vec::Vec::extend_from_slice")
def m_extend_slice(eng, st, fr, bi, f, a, t):
    m = a[0]
    if m.op != "mref":
        return None
    v = vec_for_update(eng, st, m)
    o = P(eng, st, a[1])
    if o.op in ("vec", "arr") or is_vecish(eng, fr, f):
        eng.store(st, m.a[0], m.a[1], append_parts(v, tovec(o, eng)))
    else:
        eng.store(st, m.a[0], m.a[1], append_parts(v, tovec(o, eng)))
    return [(st, UNIT)]


def is_vecish(eng, fr, f):
    return True


@model("alloc::vec::Vec::clear")
def m_clear(eng, st, fr, bi, f, a, t):
    m = a[0]
    if m.op == "mref":
        eng.store(st, m.a[0], m.a[1], EMPTYVEC)
    return [(st, UNIT)]


@model("alloc::vec::Vec::insert")
def m_insert(eng, st, fr, bi, f, a, t):
    m = a[0]
    if m.op != "mref":
        return None
    v = vec_for_update(eng, st, m)
    if a[1] is INT(0):
        eng.store(st, m.a[0], m.a[1], vec((one(a[2]),) + v.a[1]) if not any(p.op == "open" for p in v.a[1]) else vec(v.a[1] + (one(a[2]),)))
    else:
        eng.store(st, m.a[0], m.a[1], vec(v.a[1] + (one(a[2]),)))
    return [(st, UNIT)]


def is_empty_term(eng, v):
    if v.op in ("vec", "arr"):
        ps = [p for p in parts_of(v) if p.op != "open"]
        if not ps:
            return TRUE if all(p.op == "open" and eng.quiet(p) for p in parts_of(v)) else mk_eq(eng.length(v), INT(0))
        if any(p.op == "one" for p in ps):
            return FALSE
        if len(ps) == 1 and is_ident(ps[0]):
            return mk_eq(eng.length(ps[0].a[0]), INT(0))
    if v.op == "str":
        return BOOL(v.a[0] == "")
    return mk_eq(eng.length(v), INT(0))


@model("alloc::vec::Vec::is_empty", "core::slice::<impl [T]>::is_empty", "bytes::bytes::Bytes::is_empty",
       "std::collections::hash::map::HashMap::is_empty", "alloc::collections::vec_deque::VecDeque::is_empty")
def m_is_empty(eng, st, fr, bi, f, a, t):
    v = P(eng, st, a[0])
    return [(st, is_empty_term(eng, v))]


@model("alloc::vec::Vec::len", "core::slice::<impl [T]>::len", "core::str::<impl str>::len", "alloc::string::String::len", "bytes::bytes::Bytes::len")
def m_len(eng, st, fr, bi, f, a, t):
    v = P(eng, st, a[0])
    if v.op in ("vec", "arr") and len(parts_of(v)) == 1 and is_ident(parts_of(v)[0]):
        v = parts_of(v)[0].a[0]
    return [(st, eng.length(v))]


def elem_option(eng, st, v, which):
    """first() / last() of a vector"""
    if v.op in ("vec", "arr"):
        ps = [p for p in parts_of(v)]
        if not ps:
            return [(st, NONE)]
        p = ps[0] if which == "first" else ps[-1]
        if p.op == "one":
            return [(st, SOME(p.a[0]))]
        if len(ps) == 1 and is_ident(p):
            v = p.a[0]
    x = app(which, v)
    e = mk_eq(eng.length(v), INT(0))
    out = []
    for s in eng.assume(st.copy(), mk_isvar(x, OPTION, 1), True):
        for s2 in eng.assume(s, e, False):
            out.append((s2, SOME(app(which + "el", v))))
    for s in eng.assume(st.copy(), mk_isvar(x, OPTION, 0), True):
        for s2 in eng.assume(s, e, True):
            out.append((s2, NONE))
    return out


@model("core::slice::<impl [T]>::first")
def m_first(eng, st, fr, bi, f, a, t):
    return elem_option(eng, st, P(eng, st, a[0]), "first")


@model("core::slice::<impl [T]>::last")
def m_last(eng, st, fr, bi, f, a, t):
    return elem_option(eng, st, P(eng, st, a[0]), "last")


@model("alloc::vec::Vec::pop", "alloc::collections::vec_deque::VecDeque::pop_front", "alloc::collections::vec_deque::VecDeque::pop_back")
def m_pop(eng, st, fr, bi, f, a, t):
    m = a[0]
    if m.op != "mref":
        return None
    v = eng.load(st, m.a[0], m.a[1])
    front = f["path"].endswith("pop_front")
    if v.op != "iter" and eng.enclosing_loop(fr, bi) is not None and (v.op != "vec" or any(p.op not in ("one", "open") for p in v.a[1])):
        # taken apart one by one
        v = make_iter(eng, st, v)
        if not front:
            v = mk("iter", tuple(reversed(v.a[0])), v.a[1], v.a[2], flip_attrs(v.a[3]))
        eng.store(st, m.a[0], m.a[1], v)
    if v.op == "iter":
        out = it_next(eng, st, fr, bi, m)
        for s, r in out:
            if r is NONE:
                eng.store(s, m.a[0], m.a[1], EMPTYVEC)
        return out
    if front:
        if v.op == "vec" and v.a[1] and v.a[1][0].op == "one":
            eng.store(st, m.a[0], m.a[1], mk("vec", v.a[0], v.a[1][1:]))
            return [(st, SOME(v.a[1][0].a[0]))]
        return unknown(eng, st, fr, bi, f, a, t)
    if v.op == "vec":
        if not v.a[1]:
            return [(st, NONE)]
        if v.a[1][-1].op == "one":
            eng.store(st, m.a[0], m.a[1], mk("vec", v.a[0], v.a[1][:-1]))
            return [(st, SOME(v.a[1][-1].a[0]))]
    return unknown(eng, st, fr, bi, f, a, t)


@model("core::slice::<impl [T]>::get", "core::ops::index::Index::index")
def m_get(eng, st, fr, bi, f, a, t):
    v, i = P(eng, st, a[0]), P(eng, st, a[1])
    opt = f["path"].endswith("get")
    if f.get("key") in eng.prog.bodies:
        return None
    if i.op == "adt":
        # a range of it
        return [(st, app("slice", v, i))] if not opt else [(st, app("sliceopt", v, i))]
    if is_transparent(f.get("impl_self")):
        return [(st, app("slice", v, i))]
    x = eng.index(v, i)
    if not opt:
        return [(st, x)]
    if x.op != "idx":
        return [(st, SOME(x))]
    n = eng.length(v)
    out = [(s, SOME(x)) for s in eng.assume(st.copy(), mk_ord(i, n, "<"), True)]
    out += [(s, NONE) for s in eng.assume(st.copy(), mk_ord(i, n, "<"), False)]
    return out


@model("core::ops::index::IndexMut::index_mut")
def m_index_mut(eng, st, fr, bi, f, a, t):
    m = a[0]
    if m.op != "mref":
        return None
    return [(st, mk("mref", m.a[0], m.a[1] + (("i", P(eng, st, a[1])),)))]


HOLE = mk("hole")


def key_pattern(eng, st, fr, bi, clo):
    """The sort key computed by a closure, as a pattern over HOLE."""
    probe = mk("probe")
    ex = eng.call_value(st.copy(), fr, bi, clo, [probe])
    if len(ex) != 1:
        return None
    return subst(ex[0][1], {probe: HOLE})


def set_sorted(eng, st, m, attr):
    v = eng.load(st, m.a[0], m.a[1])
    v = tovec(v, eng)
    eng.store(st, m.a[0], m.a[1], vec(v.a[1], attr))


@model("alloc::slice::<impl [T]>::sort_by_key", "core::slice::<impl [T]>::sort_unstable_by_key", "alloc::slice::<impl [T]>::sort_by_cached_key")
def m_sort_by_key(eng, st, fr, bi, f, a, t):
    m = a[0]
    if m.op != "mref":
        return None
    k = key_pattern(eng, st, fr, bi, a[1])
    attr = frozenset()
    if k is not None:
        d = "asc"
        if k.op == "adt" and k.a[0].endswith("cmp::Reverse"):
            k, d = k.a[2], "desc"
        attr = frozenset([(d, k)])
    set_sorted(eng, st, m, attr)
    return [(st, UNIT)]


@model("alloc::slice::<impl [T]>::sort_by", "core::slice::<impl [T]>::sort_unstable_by")
def m_sort_by(eng, st, fr, bi, f, a, t):
    m = a[0]
    if m.op != "mref":
        return None
    p, q = mk("probe", 1), mk("probe", 2)
    ex = eng.call_value(st.copy(), fr, bi, a[1], [p, q])
    attr = frozenset()
    if len(ex) == 1:
        r = ex[0][1]
        if r.op == "app" and r.a[0] == "cmp":
            x, y = r.a[1], r.a[2]
            if subst(x, {p: HOLE}) is subst(y, {q: HOLE}) and not mentions(x, q):
                attr = frozenset([("asc", subst(x, {p: HOLE}))])
            elif subst(x, {q: HOLE}) is subst(y, {p: HOLE}) and not mentions(x, p):
                attr = frozenset([("desc", subst(x, {q: HOLE}))])
    set_sorted(eng, st, m, attr)
    return [(st, UNIT)]


@model("alloc::slice::<impl [T]>::sort", "core::slice::<impl [T]>::sort_unstable")
def m_sort(eng, st, fr, bi, f, a, t):
    m = a[0]
    if m.op != "mref":
        return None
    set_sorted(eng, st, m, frozenset([("asc", HOLE)]))
    return [(st, UNIT)]


def flip_attrs(at):
    return frozenset(("desc" if d == "asc" else "asc", k) for d, k in at)


@model("core::slice::<impl [T]>::reverse")
def m_reverse(eng, st, fr, bi, f, a, t):
    m = a[0]
    if m.op != "mref":
        return None
    v = tovec(eng.load(st, m.a[0], m.a[1]), eng)
    if any(p.op == "open" for p in v.a[1]):
        eng.store(st, m.a[0], m.a[1], app("reversed", v))
    else:
        eng.store(st, m.a[0], m.a[1], vec(reversed(v.a[1]), flip_attrs(v.a[0])))
    return [(st, UNIT)]


@model("alloc::vec::Vec::drain", "alloc::vec::Vec::split_off", "alloc::vec::Vec::truncate")
def m_drain(eng, st, fr, bi, f, a, t):
    m = a[0]
    if m.op != "mref":
        return None
    n = f["path"].rsplit("::", 1)[1]
    v = tovec(eng.load(st, m.a[0], m.a[1]), eng)
    r = P(eng, st, a[1])
    drained, kept = None, None
    frm = None
    if n in ("split_off", "truncate"):
        frm = r
    elif r.op == "adt" and r.a[0].endswith("RangeFrom"):
        frm = r.a[2]
    elif r.op == "adt" and r.a[0].endswith("RangeFull") or (r.op == "const" and "RangeFull" in str(r.a[0])):
        drained, kept = v, EMPTYVEC
    if v.op == "vec" and not v.a[1]:
        drained, kept = v, v
    elif frm is INT(0):
        drained, kept = v, EMPTYVEC
    elif frm is not None and frm.op == "posidx" and frm in eng.posinfo:
        pv, pred = eng.posinfo[frm]
        if pv is v or (pv.op != "vec" and tovec(pv, eng) is v) or (pv.op == "vec" and pv.a[1] == v.a[1]):
            r2 = split_parts(eng, v, pred)
            if r2 is not None:
                kept, drained = r2
    if drained is None:
        sym = impure(eng, st, fr, bi, "drain", v, r)
        drained = vec((each(app("drained", sym)),))
        kept = app("rest", sym)
    eng.store(st, m.a[0], m.a[1], kept)
    if n == "truncate":
        return [(st, UNIT)]
    if n == "split_off":
        return [(st, drained)]
    return [(st, make_iter(eng, st, drained))]


def split_parts(eng, v, pred):
    """Split a sorted vector where a monotone predicate becomes true.

    pred: {part index: [conds under which the predicate holds]} and the same
    for when it does not."""
    # monotone: the predicate compares the sort key with something constant
    ok = False
    for d, k in v.a[0]:
        good = True
        for i, part in enumerate(v.a[1]):
            if part.op == "open":
                continue
            if part.op != "each":
                good = False
                break
            base = part.a[0]
            for yes, no in pred[i]:
                if len(yes) != 1 or len(no) != 1:
                    good = False
                    continue
                y = dict(yes[0])
                kk = subst(k, {HOLE: part_elem(part)})
                found = False
                for fk, fv in y.items():
                    if isinstance(fk, tuple) and fk[0] == "ord" and kk in (fk[1], fk[2]):
                        other = fk[2] if fk[1] is kk else fk[1]
                        if mentions(other, el(base)):
                            continue
                        rel = fv if fk[1] is kk else frozenset(FLIP[c] for c in fv)
                        if d == "desc" and rel in (frozenset("<"), frozenset("<=")):
                            found = True
                        if d == "asc" and rel in (frozenset(">"), frozenset("=>")):
                            found = True
                if not found:
                    good = False
        if good:
            ok = True
    if not ok:
        return None
    kept, drained = [], []
    for i, part in enumerate(v.a[1]):
        if part.op == "open":
            kept.append(part)
            continue
        ko, do = {}, {}
        for (conds, vals), (yes, no) in zip(sorted_outs(part), pred[i]):
            if not vals:
                ko[()] = merge_c(ko.get(()), conds)
                do[()] = merge_c(do.get(()), conds)
                continue
            y, n = conds | yes[0], conds | no[0]
            ko[vals] = merge_c(ko.get(vals), n)
            ko[()] = merge_c(ko.get(()), y)
            do[vals] = merge_c(do.get(vals), y)
            do[()] = merge_c(do.get(()), n)
        kept.append(each(part.a[0], frozenset((c, x) for x, c in ko.items())))
        drained.append(each(part.a[0], frozenset((c, x) for x, c in do.items())))
    return vec(kept, v.a[0]), vec(drained, v.a[0])


def merge_c(a, b):
    return b if a is None else join_conds(a, b)


def sorted_outs(part):
    return sorted(part.a[1], key=lambda o: (len(o[1]), o[1] is DROPPED, tuple(x.id for x in o[1]), repr(sorted(map(repr, o[0])))))


def part_elem(part):
    for conds, vals in part.a[1]:
        if len(vals) == 1:
            return vals[0]
    return el(part.a[0])


# ---- iterators -----------------------------------------------------------------------
# iter(sources, position, inside) with sources = ((part, adaptors), ...)

def make_iter(eng, st, v, ad=()):
    if v.op == "iter":
        return v
    if v.op == "adt" and v.a[0].endswith("::Range") and v.a[2] is INT(0) and v.a[3].op == "app" and v.a[3].a[0] == "len":
        # the positions in a vector
        w = v.a[3].a[1]
        return make_iter(eng, st, w, ad + (("index", w),))
    v2 = tovec(v, eng)
    return mk("iter", tuple((p, ad) for p in v2.a[1]), 0, False, v2.a[0])


def as_iter(eng, st, v):
    v = deref(eng, st, v)
    if v.op == "iter":
        return v
    return make_iter(eng, st, v)


@model("core::iter::traits::collect::IntoIterator::into_iter", "core::slice::<impl [T]>::iter", "alloc::vec::Vec::into_iter",
       "core::slice::<impl [T]>::iter_mut", "std::collections::hash::map::HashMap::iter", "core::option::Option::iter",
       "core::option::Option::into_iter", "alloc::collections::vec_deque::VecDeque::iter")
def m_into_iter(eng, st, fr, bi, f, a, t):
    if f.get("key") in eng.prog.bodies and (f.get("key") or "").startswith("<krill_sync"):
        return None
    v = a[0]
    selfs = f.get("impl_self") or ""
    mut = f["path"].endswith("iter_mut") or (v.op == "mref" and selfs.startswith("&mut "))
    if v.op == "mref":
        w = deref(eng, st, v)
        if w.op == "iter":
            return [(st, v)]
        if mut and is_seq(w):
            # elements may be changed through the iterator: forget them
            eng.store(st, v.a[0], v.a[1], impure(eng, st, fr, bi, "changed", w))
        v = w
    ty = arg_ty(fr, f, 0)
    tys = strip_refs((ty or {}).get("s") or selfs)
    if tys.startswith("core::option::Option<") or (v.op in ("adt", "sum") and v.a[0] == OPTION):
        out = []
        for s, some, x in split_option(eng, st, v):
            out.append((s, make_iter(eng, s, vec((one(x),)) if some else EMPTYVEC)))
        return out
    return [(st, make_iter(eng, st, v))]


def is_seq(v):
    return True


def src_key(k):
    return k if k.op == "srckey" else mk("srckey", k)


def adapt(kind):
    def go(eng, st, fr, bi, f, a, t):
        it = as_iter(eng, st, a[0])
        at = it.a[3] if kind in ("filter", "inspect") else frozenset((d, src_key(k)) for d, k in it.a[3])
        srcs = tuple((p, ads + ((kind, a[1] if len(a) > 1 else None),)) for p, ads in it.a[0])
        return [(st, mk("iter", srcs, it.a[1], it.a[2], at))]
    return go


for n in ("map", "filter", "filter_map", "inspect", "enumerate", "take_while", "skip_while", "map_while"):
    M["core::iter::traits::iterator::Iterator::" + n] = adapt(n)


@model("core::iter::traits::iterator::Iterator::rev")
def m_rev(eng, st, fr, bi, f, a, t):
    it = as_iter(eng, st, a[0])
    return [(st, mk("iter", tuple(reversed(it.a[0])), it.a[1], it.a[2], flip_attrs(it.a[3])))]


@model("core::iter::traits::iterator::Iterator::take", "core::iter::traits::iterator::Iterator::skip", "core::iter::traits::iterator::Iterator::step_by")
def m_take(eng, st, fr, bi, f, a, t):
    it = as_iter(eng, st, a[0])
    n = f["path"].rsplit("::", 1)[1]
    if all(p.op == "one" for p, ad in it.a[0]) and a[1].op == "int" and n in ("take", "skip"):
        k = a[1].a[0]
        srcs = it.a[0][:k] if n == "take" else it.a[0][k:]
        return [(st, mk("iter", srcs, it.a[1], it.a[2], it.a[3]))]
    srcs = tuple((p, ads + ((n, a[1]),)) for p, ads in it.a[0])
    return [(st, mk("iter", srcs, it.a[1], it.a[2], it.a[3]))]


@model("core::iter::traits::iterator::Iterator::chain")
def m_chain(eng, st, fr, bi, f, a, t):
    x = as_iter(eng, st, a[0])
    out = []
    o = deref(eng, st, a[1])
    if o.op in ("adt", "sum") and o.a[0] == OPTION or (o.op != "iter" and "option::Option" in str((arg_ty(fr, f, 1) or {}).get("s"))):
        for s, some, v in split_option(eng, st, o):
            y = make_iter(eng, s, vec((one(v),)) if some else EMPTYVEC)
            out.append((s, mk("iter", x.a[0] + y.a[0], x.a[1], x.a[2], frozenset())))
        return out
    y = as_iter(eng, st, a[1])
    return [(st, mk("iter", x.a[0] + y.a[0], x.a[1], x.a[2], frozenset()))]


for n in ("cloned", "copied", "fuse", "peekable"):
    M["core::iter::traits::iterator::Iterator::" + n] = lambda eng, st, fr, bi, f, a, t: [(st, as_iter(eng, st, a[0]))]


@model("core::iter::sources::once::once")
def m_once(eng, st, fr, bi, f, a, t):
    return [(st, make_iter(eng, st, vec((one(a[0]),))))]


@model("core::iter::sources::empty::empty")
def m_iterempty(eng, st, fr, bi, f, a, t):
    return [(st, make_iter(eng, st, EMPTYVEC))]


@model("core::iter::traits::iterator::Iterator::zip", "core::iter::traits::iterator::Iterator::flat_map", "core::iter::traits::iterator::Iterator::flatten",
       "core::iter::traits::iterator::Iterator::scan", "core::iter::traits::iterator::Iterator::cycle")
def m_iter_opaque(eng, st, fr, bi, f, a, t):
    it = as_iter(eng, st, a[0])
    n = f["path"].rsplit("::", 1)[1]
    if n == "flatten" and all(p.op == "one" for p, ad in it.a[0]) and not any(ad for p, ad in it.a[0]):
        # a list of options or vectors
        outs = [(st, ())]
        for p, ad in it.a[0]:
            v = deref(eng, st, p.a[0])
            nx = []
            for s, acc in outs:
                if v.op in ("adt", "sum") and v.a[0] == OPTION:
                    for s2, some, x in split_option(eng, s, v):
                        nx.append((s2, acc + ((one(x),) if some else ())))
                else:
                    nx.append((s, acc + tovec(v, eng).a[1]))
            outs = nx
        return [(s, make_iter(eng, s, vec(acc))) for s, acc in outs]
    return [(st, make_iter(eng, st, app(n, it, *[deref(eng, st, x) for x in a[1:]])))]


def run_adaptors(eng, st, fr, bi, v, ads, n=0):
    """[(state, 'yield'|'skip'|'stop', value)]"""
    outs = [(st, "yield", v)]
    for kind, fv in ads:
        nx = []
        for s, k, v in outs:
            if k != "yield":
                nx.append((s, k, v))
                continue
            if kind == "map":
                for s2, r in eng.call_value(s, fr, bi, fv, [v]):
                    nx.append((s2, "yield", r))
            elif kind in ("filter", "take_while", "skip_while"):
                for s2, r in eng.call_value(s, fr, bi, fv, [v]):
                    r = deref(eng, s2, r)
                    if kind == "skip_while":
                        for s3 in eng.assume(s2.copy(), r, True):
                            nx.append((s3, "skip", v))
                        nx.append((s2, "yield", v))
                        continue
                    for s3 in eng.assume(s2.copy(), r, True):
                        nx.append((s3, "yield", v))
                    for s3 in eng.assume(s2, r, False):
                        nx.append((s3, "skip" if kind == "filter" else "stop", v))
            elif kind in ("filter_map", "map_while"):
                for s2, r in eng.call_value(s, fr, bi, fv, [v]):
                    for s3, some, x in split_option(eng, s2, r):
                        nx.append((s3, "yield" if some else ("skip" if kind == "filter_map" else "stop"), x))
            elif kind == "inspect":
                for s2, r in eng.call_value(s, fr, bi, fv, [v]):
                    nx.append((s2, "yield", v))
            elif kind == "index":
                nx.append((s, "yield", app("index", fv, v)))
            elif kind == "enumerate":
                nx.append((s, "yield", mk("tup", app("position", v), v)))
            elif kind in ("take", "skip", "step_by"):
                sym = app(kind + "n", v, fv)
                for s3 in eng.assume(s.copy(), sym, True):
                    nx.append((s3, "yield", v))
                for s3 in eng.assume(s, sym, False):
                    nx.append((s3, "skip", v))
            else:
                nx.append((s, "yield", app(kind, v)))
        outs = nx
    return outs


def set_entry(st, key, entry):
    out = tuple(x for x in st.its if x[0] != key)
    st.its = out + ((entry,) if entry is not None else ())


def get_entry(st, key):
    for x in st.its:
        if x[0] == key:
            return x
    return None


def it_next(eng, st, fr, bi, m):
    it = eng.load(st, m.a[0], m.a[1]) if m.op == "mref" else m
    if it.op == "mref":
        m = it
        it = eng.load(st, m.a[0], m.a[1])
    if it.op != "iter":
        it = make_iter(eng, st, it)
    srcs, pos0, in0, attrs = it.a
    L = (fr.id, bi)
    blocks = eng.enclosing_loop(fr, bi)
    results = {}

    def emit(s, pos, inp, ret):
        if m.op == "mref":
            eng.store(s, m.a[0], m.a[1], mk("iter", srcs, pos, inp, attrs))
        k = (s.key(), ret)
        o = results.get(k)
        if o is None:
            results[k] = (s, ret)
        else:
            f, _ = join_facts(o[0].facts, s.facts)
            l, _ = join_loops(o[0].loops, s.loops)
            results[k] = (State(o[0].mem, dict(f), o[0].ps, o[0].its, l), ret)

    if blocks is not None:
        eng.loopinfo[L] = blocks
    work = [(st, pos0, in0)]
    seen = {}
    guard = 0
    while work:
        s, pos, inp = work.pop()
        guard += 1
        if guard > 300:
            raise Budget("iteration in " + fr.body.path)
        if blocks is not None:
            # rounds for the single elements of a short list are kept apart
            n = sum(1 for x in srcs if x[0].op == "one")
            o = (L + ("one",), pos, None, frozenset(), "one") if n <= 6 and pos < len(srcs) and srcs[pos][0].op == "one" else None
            if o is not None or get_entry(s, L + ("one",)) is not None:
                s = s.copy()
                set_entry(s, L + ("one",), o)
        if pos >= len(srcs):
            if blocks is not None:
                for x in list(s.its):
                    if x[0][:2] == L and x[4] == "head":
                        set_entry(s, x[0], x[:4] + ("done",))
            emit(s, pos, False, NONE)
            continue
        part, ads = srcs[pos]
        if part.op == "one":
            for s2, k, v in run_adaptors(eng, s, fr, bi, part.a[0], ads):
                if k == "yield":
                    emit(s2, pos + 1, False, SOME(v))
                elif k == "skip":
                    work.append((s2, pos + 1, False))
                else:
                    emit(s2, len(srcs), False, NONE)
            continue
        if part.op == "open" and eng.quiet(part):
            work.append((s, pos + 1, False))
            continue
        if part.op == "many":
            part = each(part, frozenset((frozenset(), (v,)) for v in part.a[0]))
        elif part.op == "open":
            part = each(part)
        if part.op == "spread":
            part = each(part)
        base = part.a[0]
        if blocks is None:
            # a single step outside of a loop
            w = mk("wit", base, ("n",) + L)
            for conds, vals in part.a[1]:
                for v in vals:
                    s2 = s.copy()
                    eng.drop_facts(s2, w)
                    mm = {el(base): w}
                    ok = eng.add_conds(s2, [subst_fact(k, x, mm, {}) for k, x in conds])
                    if not ok:
                        continue
                    for s3, k, v2 in run_adaptors(eng, s2, fr, bi, subst(v, mm), ads):
                        if k == "yield":
                            emit(s3, pos, False, SOME(v2))
            work.append((s, pos + 1, False))
            continue
        # nested visits of the same collection are kept apart
        if any(x[2] is base and x[4] == "in" and x[0][:2] != L for x in s.its):
            nb = mk("again", base, L)
            mm = {el(base): el(nb)}
            part = each(nb, subst(part.a[1], mm))
            base = nb
        key = L + (pos, part.id)
        if not inp:
            at = attrs if len(srcs) == 1 and all(k in ("filter", "inspect") for k, _ in ads) else frozenset()
            eng.open_phase(s, L, pos, part, at, attrs)
            set_entry(s, key, (key, pos, base, frozenset(), "head"))
        else:
            e = get_entry(s, key)
            if e is not None and e[4] == "in":
                eng.fold(s, e)
            set_entry(s, key, (key, pos, base, frozenset(), "head"))
        sk = (pos, s.key())
        o = seen.get(sk)
        if o is not None:
            f, c1 = join_facts(o.facts, s.facts)
            l, c2 = join_loops(o.loops, s.loops)
            if not (c1 or c2):
                continue
            s = State(dict(o.mem), dict(f), o.ps, o.its, l)
        seen[sk] = s.copy()
        for conds, vals in sorted_outs(part):
            for v in vals:
                s2 = s.copy()
                set_entry(s2, key, (key, pos, base, conds, "in"))
                if not eng.add_conds(s2, conds):
                    continue
                eng.instantiate(s2, base)
                if eng.has(s2, "nothing"):
                    continue
                inst_again(eng, s2, base)
                for s3, k, v2 in run_adaptors(eng, s2, fr, bi, v, ads):
                    if k == "yield":
                        emit(s3, pos, True, SOME(v2))
                    elif k == "skip":
                        work.append((s3, pos, True))
                    else:
                        emit(s3, len(srcs), False, NONE)
        s2 = s.copy()
        set_entry(s2, key, (key, pos, base, frozenset(), "done"))
        work.append((s2, pos + 1, False))
    return list(results.values())


def inst_again(eng, st, base):
    if base.op == "again":
        b0 = base.a[0]
        m = {el(b0): el(base)}
        for k, v in list(st.facts.items()):
            if isinstance(k, tuple) and k[0] == "forall" and k[1] is b0 and not k[2]:
                for fk, fv in v:
                    k2, v2 = subst_fact(fk, fv, m, {})
                    st.facts.setdefault(k2, v2)


@model("core::iter::traits::iterator::Iterator::next", "core::iter::traits::double_ended::DoubleEndedIterator::next_back", "model:next")
def m_next(eng, st, fr, bi, f, a, t):
    if f.get("key") in eng.prog.bodies:
        return None
    return it_next(eng, st, fr, bi, a[0])


# synthetic bodies for iterator consumers ------------------------------------------------

class Asm:
    """Assembles small MIR bodies."""

    def __init__(self, name, argc, nloc):
        self.name, self.argc, self.n = name, argc, nloc
        self.blocks = []

    def b(self, stmts, term):
        self.blocks.append({"s": stmts, "t": term, "c": False})

    def body(self):
        from ir import Body

        class C:
            tys = [{"k": "other", "s": "?"}, {"k": "refm", "t": 0, "s": "&mut ?"}, {"k": "bool", "s": "bool"}, {"k": "adt", "n": OPTION, "a": [0], "f": [[], [0]], "s": "Option"},
                   {"k": "adt", "n": RESULT, "a": [0, 0], "f": [[0], [0]], "s": "Result"}]
        return Body("model:" + self.name, {"path": "model:" + self.name, "argc": self.argc, "locals": [[0] for _ in range(self.n)], "blocks": self.blocks}, C)


def call(name, args, dst, to):
    return {"k": "call", "f": {"path": "model:" + name}, "a": args, "dst": dst, "to": to}


def cp(*pl):
    return ["cp", list(pl)]


def refm(l):
    return ["ref", "m", [l]]


def asg(l, rv):
    return ["=", [l], rv]


def use(o):
    return ["use", o]


KB = lambda b: ["k", {"ty": 2, "bool": b}]
SOMEV = lambda l: cp(l, ["v", 1], [".", 0, 0])
GO = lambda b: {"k": "goto", "to": b}
RET = {"k": "ret"}


def sw_opt(l):
    return [["=", [l + 1], ["disc", [l]]]]


def build_synth():
    B = {}

    def optloop(name, argc, pre, body_builder, n=16, byref=False):
        pass

    # any / all (it: &mut iter, f)
    for name, hit, ret_hit, ret_end in (("any", True, True, False), ("all", False, False, True)):
        a = Asm(name, 2, 10)
        a.b([asg(9, refm(2))], GO(1))
        a.b([], call("next", [cp(1)], [3], 2))
        a.b([asg(4, ["disc", [3]])], {"k": "switch", "d": cp(4), "v": [[0, 3]], "else": 4, "ty": 0})
        a.b([asg(0, use(KB(ret_end)))], RET)
        a.b([], call("callv", [cp(9), SOMEV(3)], [5], 5))
        a.b([], {"k": "switch", "d": cp(5), "v": [[0, 6 if not hit else 1]], "else": 6 if hit else 1, "bool": True})
        a.b([asg(0, use(KB(ret_hit)))], RET)
        B[name] = a.body()
    # find (it, f) -> Option
    a = Asm("find", 2, 10)
    a.b([asg(9, refm(2))], GO(1))
    a.b([], call("next", [cp(1)], [3], 2))
    a.b([asg(4, ["disc", [3]])], {"k": "switch", "d": cp(4), "v": [[0, 3]], "else": 4})
    a.b([asg(0, ["agg", "adt", OPTION, 0, []])], RET)
    a.b([], call("callv", [cp(9), SOMEV(3)], [5], 5))
    a.b([], {"k": "switch", "d": cp(5), "v": [[0, 1]], "else": 6, "bool": True})
    a.b([asg(0, use(cp(3)))], RET)
    B["find"] = a.body()
    # find_map
    a = Asm("find_map", 2, 10)
    a.b([asg(9, refm(2))], GO(1))
    a.b([], call("next", [cp(1)], [3], 2))
    a.b([asg(4, ["disc", [3]])], {"k": "switch", "d": cp(4), "v": [[0, 3]], "else": 4})
    a.b([asg(0, ["agg", "adt", OPTION, 0, []])], RET)
    a.b([], call("callv", [cp(9), SOMEV(3)], [5], 5))
    a.b([], call("isopt", [cp(5)], [6], 6))
    a.b([], {"k": "switch", "d": cp(6), "v": [[0, 1]], "else": 7, "bool": True})
    a.b([asg(0, use(cp(5)))], RET)
    B["find_map"] = a.body()
    # for_each (it by value, f)
    a = Asm("for_each", 2, 10)
    a.b([asg(9, refm(2)), asg(8, refm(1))], GO(1))
    a.b([], call("next", [cp(8)], [3], 2))
    a.b([asg(4, ["disc", [3]])], {"k": "switch", "d": cp(4), "v": [[0, 3]], "else": 4})
    a.b([], RET)
    a.b([], call("callv", [cp(9), SOMEV(3)], [5], 1))
    B["for_each"] = a.body()
    # try_for_each (it: &mut, f) -> Result
    a = Asm("try_for_each", 2, 10)
    a.b([asg(9, refm(2))], GO(1))
    a.b([], call("next", [cp(1)], [3], 2))
    a.b([asg(4, ["disc", [3]])], {"k": "switch", "d": cp(4), "v": [[0, 3]], "else": 4})
    a.b([asg(0, ["agg", "adt", RESULT, 0, [["k", {"ty": 0, "unit": True}]]])], RET)
    a.b([], call("callv", [cp(9), SOMEV(3)], [5], 5))
    a.b([], call("isok", [cp(5)], [6], 6))
    a.b([], {"k": "switch", "d": cp(6), "v": [[0, 7]], "else": 1, "bool": True})
    a.b([asg(0, use(cp(5)))], RET)
    B["try_for_each"] = a.body()
    # fold (it by value, init, f)
    a = Asm("fold", 3, 10)
    a.b([asg(9, refm(3)), asg(8, refm(1)), asg(7, use(cp(2)))], GO(1))
    a.b([], call("next", [cp(8)], [4], 2))
    a.b([asg(5, ["disc", [4]])], {"k": "switch", "d": cp(5), "v": [[0, 3]], "else": 4})
    a.b([asg(0, use(cp(7)))], RET)
    a.b([], call("callv", [cp(9), cp(7), SOMEV(4)], [7], 1))
    B["fold"] = a.body()
    # collect into a vector (it by value)
    a = Asm("collect", 1, 10)
    a.b([asg(8, refm(1)), asg(7, refm(0))], call("vecnew", [], [0], 1))
    a.b([], call("next", [cp(8)], [4], 2))
    a.b([asg(5, ["disc", [4]])], {"k": "switch", "d": cp(5), "v": [[0, 3]], "else": 4})
    a.b([], RET)
    a.b([], call("push", [cp(7), SOMEV(4)], [6], 1))
    B["collect"] = a.body()
    # extend (vec: &mut, it by value)
    a = Asm("extend", 2, 10)
    a.b([asg(8, refm(2))], GO(1))
    a.b([], call("next", [cp(8)], [4], 2))
    a.b([asg(5, ["disc", [4]])], {"k": "switch", "d": cp(5), "v": [[0, 3]], "else": 4})
    a.b([], RET)
    a.b([], call("push", [cp(1), SOMEV(4)], [6], 1))
    B["extend"] = a.body()
    # collect into a Result<Vec>
    a = Asm("try_collect", 1, 10)
    a.b([asg(8, refm(1)), asg(7, refm(9))], call("vecnew", [], [9], 1))
    a.b([], call("next", [cp(8)], [4], 2))
    a.b([asg(5, ["disc", [4]])], {"k": "switch", "d": cp(5), "v": [[0, 3]], "else": 4})
    a.b([asg(0, ["agg", "adt", RESULT, 0, [cp(9)]])], RET)
    a.b([asg(3, use(SOMEV(4)))], call("isok", [cp(3)], [6], 5))
    a.b([], {"k": "switch", "d": cp(6), "v": [[0, 6]], "else": 7, "bool": True})
    a.b([asg(0, use(cp(3)))], RET)
    a.b([], call("okval", [cp(3)], [2], 8))
    a.b([], call("push", [cp(7), cp(2)], [6], 1))
    B["try_collect"] = a.body()
    # retain (vec: &mut, f):  taken = take(vec); for x in taken { if f(&x) { push } }
    a = Asm("retain", 2, 12)
    a.b([asg(9, refm(2))], call("takeiter", [cp(1)], [8], 1))
    a.b([asg(7, refm(8))], GO(2))
    a.b([], call("next", [cp(7)], [3], 3))
    a.b([asg(4, ["disc", [3]])], {"k": "switch", "d": cp(4), "v": [[0, 4]], "else": 5})
    a.b([], call("restore", [cp(1), cp(8)], [0], 8))
    a.b([], call("callv", [cp(9), SOMEV(3)], [5], 6))
    a.b([], {"k": "switch", "d": cp(5), "v": [[0, 2]], "else": 7, "bool": True})
    a.b([], call("push", [cp(1), SOMEV(3)], [6], 2))
    a.b([], RET)
    B["retain"] = a.body()
    # partition (it by value, f) -> (Vec, Vec)
    a = Asm("partition", 2, 14)
    a.b([asg(9, refm(2)), asg(8, refm(1)), asg(10, refm(12)), asg(11, refm(13))], call("vecnew", [], [12], 1))
    a.b([], call("vecnew", [], [13], 2))
    a.b([], call("next", [cp(8)], [3], 3))
    a.b([asg(4, ["disc", [3]])], {"k": "switch", "d": cp(4), "v": [[0, 4]], "else": 5})
    a.b([asg(0, ["agg", "tuple", None, 0, [cp(12), cp(13)]])], RET)
    a.b([], call("callv", [cp(9), SOMEV(3)], [5], 6))
    a.b([], {"k": "switch", "d": cp(5), "v": [[0, 8]], "else": 7, "bool": True})
    a.b([], call("push", [cp(10), SOMEV(3)], [6], 2))
    a.b([], call("push", [cp(11), SOMEV(3)], [6], 2))
    B["partition"] = a.body()
    return B


SYNTH = None


def synth(eng, st, fr, bi, name, args):
    global SYNTH
    if SYNTH is None:
        SYNTH = build_synth()
    body = SYNTH[name]
    nf = eng.frame(fr, ("s", bi, name), body)
    for r in [r for r in st.mem if r[1] == nf.id and r[0] == "l"]:
        del st.mem[r]
    for i, a in enumerate(args):
        st.mem[("l", nf.id, i + 1)] = a
    return eng.run(nf, st)


@model("model:callv")
def m_callv(eng, st, fr, bi, f, a, t):
    return [(s, deref(eng, s, v)) for s, v in eng.call_value(st, fr, bi, a[0], a[1:])]


@model("model:vecnew")
def m_vecnew(eng, st, fr, bi, f, a, t):
    return [(st, EMPTYVEC)]


@model("model:push")
def m_mpush(eng, st, fr, bi, f, a, t):
    return m_push(eng, st, fr, bi, f, a, t)


@model("model:isok")
def m_isok(eng, st, fr, bi, f, a, t):
    v = deref(eng, st, a[0])
    return [(st, mk_isvar(v, RESULT, 0))]


@model("model:isopt")
def m_isopt(eng, st, fr, bi, f, a, t):
    v = deref(eng, st, a[0])
    return [(st, mk_isvar(v, OPTION, 1))]


@model("model:okval")
def m_okval(eng, st, fr, bi, f, a, t):
    return [(st, proj(deref(eng, st, a[0]), RESULT, 0, 0))]


@model("model:takeiter")
def m_takeiter(eng, st, fr, bi, f, a, t):
    m = a[0]
    v = tovec(eng.load(st, m.a[0], m.a[1]), eng)
    opens = tuple(p for p in v.a[1] if p.op == "open")
    eng.store(st, m.a[0], m.a[1], EMPTYVEC)
    return [(st, make_iter(eng, st, v))]


@model("model:restore")
def m_restore(eng, st, fr, bi, f, a, t):
    return [(st, UNIT)]


def consumer(name, byref):
    def go(eng, st, fr, bi, f, a, t):
        if f.get("key") in eng.prog.bodies:
            return None
        args = list(a)
        if byref and args[0].op != "mref":
            root = ("t", fr.id, bi)
            st.mem[root] = as_iter(eng, st, args[0])
            args[0] = mk("mref", root, ())
        elif not byref and args[0].op != "mref":
            args[0] = as_iter(eng, st, args[0])
        return [(s, UNIT if name in ("for_each",) else v) for s, v in synth(eng, st, fr, bi, name, args)]
    return go


for n, r in (("any", True), ("all", True), ("find", True), ("find_map", True), ("for_each", False), ("try_for_each", True),
             ("fold", False), ("partition", False)):
    M["core::iter::traits::iterator::Iterator::" + n] = consumer(n, r)


@model("core::iter::traits::iterator::Iterator::collect", "core::iter::traits::collect::FromIterator::from_iter")
def m_collect(eng, st, fr, bi, f, a, t):
    rt = ret_type(fr, t)
    it = a[0] if a[0].op == "mref" else as_iter(eng, st, a[0])
    if rt is not None and rt["k"] == "adt":
        if rt["n"] == RESULT:
            return synth(eng, st, fr, bi, "try_collect", [it])
        if rt["n"] == "alloc::vec::Vec" or "VecDeque" in rt["n"] or "Set" in rt["n"] or rt["n"].startswith("alloc::boxed"):
            return synth(eng, st, fr, bi, "collect", [it])
        out = []
        for s, v in synth(eng, st, fr, bi, "collect", [it]):
            if is_transparent(rt["s"]):
                out.append((s, collect_path(eng, v, rt)))
            elif "Map" in rt["n"]:
                out.append((s, mk("mapfrom", v)))
            else:
                out.append((s, app("collect:" + rt["n"], v)))
        return out
    return synth(eng, st, fr, bi, "collect", [it])


def collect_path(eng, v, rt):
    ps = parts_of(v)
    if all(p.op == "one" for p in ps):
        if "PathBuf" in rt["s"]:
            r = None
            for p in ps:
                r = p.a[0] if r is None else join_path(r, p.a[0])
            return r if r is not None else STR("")
        return cat(*[p.a[0] for p in ps])
    return app("collected", v)


@model("core::iter::traits::collect::Extend::extend")
def m_extend(eng, st, fr, bi, f, a, t):
    m = a[0]
    if m.op != "mref":
        return None
    cur = eng.load(st, m.a[0], m.a[1])
    selfs = strip_refs(f.get("impl_self") or "")
    if "HashMap" in selfs or "Set" in selfs:
        return unknown(eng, st, fr, bi, f, a, t)
    src = deref(eng, st, a[1])
    out = []
    if src.op in ("adt", "sum") and src.a[0] == OPTION or (src.op not in ("iter", "vec", "arr") and "option::Option" in str((arg_ty(fr, f, 2) or arg_ty(fr, f, 1) or {}).get("s"))):
        for s, some, x in split_option(eng, st, src):
            if some:
                v = vec_for_update(eng, s, m)
                eng.store(s, m.a[0], m.a[1], vec(v.a[1] + (one(x),)))
            out.append((s, UNIT))
        return out
    if src.op in ("vec", "arr"):
        v = vec_for_update(eng, st, m)
        eng.store(st, m.a[0], m.a[1], append_parts(v, tovec(src, eng)))
        return [(st, UNIT)]
    it = a[1] if a[1].op == "mref" else as_iter(eng, st, a[1])
    return [(s, UNIT) for s, v in synth(eng, st, fr, bi, "extend", [m, it])]


@model("alloc::vec::Vec::retain", "alloc::vec::Vec::retain_mut")
def m_retain(eng, st, fr, bi, f, a, t):
    if a[0].op != "mref":
        return None
    m = a[0]
    v0 = tovec(eng.load(st, m.a[0], m.a[1]), eng)
    parts = v0.a[1]
    if len(parts) == 1 and parts[0].op == "each" or any(p.op not in ("one", "each") and not (p.op == "open" and eng.quiet(p)) for p in parts):
        return [(s, UNIT) for s, v in synth(eng, st, fr, bi, "retain", [a[0], a[1]])]
    # part by part, so that it remains known which ones are left of each
    states = [(st, ())]
    for p in parts:
        nxt = []
        for s, done in states:
            if p.op == "one":
                eng.store(s, m.a[0], m.a[1], vec((p,)))
                for s2, r in eng.call_value(s, fr, bi, a[1], [p.a[0]]):
                    r = deref(eng, s2, r)
                    nxt.extend((s3, done + (p,)) for s3 in eng.assume(s2.copy(), r, True))
                    nxt.extend((s3, done) for s3 in eng.assume(s2, r, False))
                continue
            if p.op == "open":
                nxt.append((s, done + (p,)))
                continue
            eng.store(s, m.a[0], m.a[1], vec((p,)))
            for s2, v in synth(eng, s, fr, bi, "retain", [a[0], a[1]]):
                nxt.append((s2, done + tovec(eng.load(s2, m.a[0], m.a[1]), eng).a[1]))
        states = nxt
    for s, done in states:
        eng.store(s, m.a[0], m.a[1], vec(done, v0.a[0]))
    return [(s, UNIT) for s, done in states]


@model("core::slice::<impl [T]>::contains")
def m_contains(eng, st, fr, bi, f, a, t):
    v, x = P(eng, st, a[0]), P(eng, st, a[1])
    clo = mk("eqto", x)
    root = ("t", fr.id, bi)
    st.mem[root] = make_iter(eng, st, v)
    return synth(eng, st, fr, bi, "any", [mk("mref", root, ()), clo])


@model("core::iter::traits::iterator::Iterator::position", "core::slice::<impl [T]>::partition_point")
def m_position(eng, st, fr, bi, f, a, t):
    it = as_iter(eng, st, a[0])
    srcs, pos, inp, attrs = it.a
    if f["path"].endswith("partition_point"):
        # the first element for which the predicate does not hold
        neg = True
    else:
        neg = False
    pred = []
    ok = all(not ads for p, ads in srcs) and pos == 0 and not inp
    if ok:
        for p, ads in srcs:
            if p.op != "each":
                if p.op == "open":
                    pred.append([])
                    continue
                ok = False
                break
            rows = []
            for conds, vals in sorted_outs(p):
                if not vals:
                    rows.append(((frozenset(),), (frozenset(),)))
                    continue
                s = st.copy()
                before = dict(s.facts)
                eng.add_conds(s, conds)
                yes, no = [], []
                for s2, r in eng.call_value(s, fr, bi, a[1], [vals[0]]):
                    r = deref(eng, s2, r)
                    for val, lst in ((True, yes), (False, no)):
                        for s3 in eng.assume(s2.copy(), r, val):
                            new = frozenset((k, v) for k, v in s3.facts.items() if about(k, None, el(p.a[0])))
                            lst.append(new)
                if neg:
                    yes, no = no, yes
                rows.append((tuple(yes), tuple(no)))
            pred.append(rows)
    V = vec(tuple(p for p, ads in srcs), attrs)
    idx = mk("posidx", V, eng_site(fr, bi), fr.body.key)
    eng.forget(st, idx)
    out = []
    found = app("found", idx)
    eng.drop_facts(st, found)
    if ok:
        eng.posinfo[idx] = (V, pred)
    if neg:
        return [(st, idx)]
    s = st.copy()
    s.facts[found] = True
    out.append((s, SOME(idx)))
    s = st.copy()
    s.facts[found] = False
    n = eng.length(V.a[1][0].a[0] if len(V.a[1]) == 1 and is_ident(V.a[1][0]) else V)
    s = eng.assume(s, mk_eq(idx, n), True)[0]
    if ok:
        for (p, ads), rows in zip(srcs, pred):
            if p.op != "each":
                continue
            for (conds, vals), (yes, no) in zip(sorted_outs(p), rows):
                if vals and len(no) >= 1:
                    c = no[0]
                    for x in no[1:]:
                        c = join_conds(c, x)
                    k = ("forall", p.a[0], conds)
                    s.facts[k] = (s.facts.get(k) or frozenset()) | c
    out.append((s, NONE))
    return out


@model("core::iter::traits::iterator::Iterator::count", "core::iter::traits::iterator::Iterator::sum", "core::iter::traits::iterator::Iterator::max",
       "core::iter::traits::iterator::Iterator::min", "core::iter::traits::iterator::Iterator::last", "core::iter::traits::iterator::Iterator::nth",
       "core::iter::traits::iterator::Iterator::max_by_key", "core::iter::traits::iterator::Iterator::min_by_key", "core::iter::traits::iterator::Iterator::product")
def m_reduce(eng, st, fr, bi, f, a, t):
    # the elements are visited (closures may have effects), the result is unknown
    out = []
    n = f["path"].rsplit("::", 1)[1]
    it = a[0] if a[0].op == "mref" else as_iter(eng, st, a[0])
    for s, v in synth(eng, st, fr, bi, "collect", [it]):
        out.append((s, app(n, v, *[deref(eng, s, x) for x in a[1:]])))
    return out


# ---- maps ---------------------------------------------------------------------------

@model("std::collections::hash::map::HashMap::new", "alloc::collections::btree::map::BTreeMap::new")
def m_map_new(eng, st, fr, bi, f, a, t):
    return [(st, mk("emptymap"))]


@model("std::collections::hash::map::HashMap::get", "alloc::collections::btree::map::BTreeMap::get",
       "std::collections::hash::map::HashMap::contains_key", "alloc::collections::btree::map::BTreeMap::contains_key")
def m_map_get(eng, st, fr, bi, f, a, t):
    r = mapget(P(eng, st, a[0]), P(eng, st, a[1]))
    if f["path"].endswith("contains_key"):
        return [(st, mk_isvar(r, OPTION, 1))]
    return [(st, r)]


@model("std::collections::hash::map::HashMap::insert", "std::collections::hash::map::HashMap::remove",
       "alloc::collections::btree::map::BTreeMap::insert", "alloc::collections::btree::map::BTreeMap::remove")
def m_map_insert(eng, st, fr, bi, f, a, t):
    m = a[0]
    if m.op != "mref":
        return None
    v = eng.load(st, m.a[0], m.a[1])
    k = P(eng, st, a[1])
    old = mapget(v, k)
    if eng.inserted is not None:
        eng.inserted(eng, st, v, k, old, a[2] if f["path"].endswith("insert") else None)
    if f["path"].endswith("insert"):
        eng.store(st, m.a[0], m.a[1], mapset(v, k, a[2]))
    else:
        eng.store(st, m.a[0], m.a[1], mk("mapdel", v, k))
    return [(st, old)]


@model("std::collections::hash::map::HashMap::get_mut", "alloc::collections::btree::map::BTreeMap::get_mut")
def m_map_get_mut(eng, st, fr, bi, f, a, t):
    m = a[0]
    if m.op != "mref":
        return None
    v = eng.load(st, m.a[0], m.a[1])
    k = P(eng, st, a[1])
    out = []
    for s, some, x in split_option(eng, st, mapget(v, k)):
        if some:
            out.append((s, SOME(mk("mref", m.a[0], m.a[1] + (("k", k),)))))
        else:
            out.append((s, NONE))
    return out


@model("std::collections::hash::map::HashMap::entry", "alloc::collections::btree::map::BTreeMap::entry")
def m_map_entry(eng, st, fr, bi, f, a, t):
    return [(st, mk("entry", a[0], P(eng, st, a[1])))]


@model("std::collections::hash::map::Entry::or_default", "std::collections::hash::map::Entry::or_insert", "std::collections::hash::map::Entry::or_insert_with",
       "std::collections::hash::map::Entry::or_insert_with_key",
       "alloc::collections::btree::map::entry::Entry::or_default", "alloc::collections::btree::map::entry::Entry::or_insert")
def m_entry_or(eng, st, fr, bi, f, a, t):
    e = a[0]
    if e.op != "entry" or e.a[0].op != "mref":
        return None
    m, k = e.a
    v = eng.load(st, m.a[0], m.a[1])
    out = []
    for s, some, x in split_option(eng, st, mapget(v, k)):
        r = mk("mref", m.a[0], m.a[1] + (("k", k),))
        if some:
            out.append((s, r))
            continue
        if f["path"].endswith("or_default"):
            rt = ret_type(fr, t)
            inner = fr.body.tys[rt["t"]] if rt and "t" in rt else None
            dv = None
            if inner is not None and inner["k"] == "adt" and ADTS.get(inner["n"], {}).get("local"):
                # the default of a local type: run its implementation
                for kk in eng.prog.bodies:
                    if kk.startswith("<" + inner["n"]) and kk.endswith("Default>::default"):
                        r2 = eng.call_body(s, fr, bi, kk, [])
                        if r2:
                            s, dv = r2[0]
            if dv is None:
                dv = default_value(eng, fr, inner)
            vals = [(s, dv)]
        elif f["path"].endswith("or_insert"):
            vals = [(s, a[1])]
        else:
            vals = eng.call_value(s, fr, bi, a[1], [])
        for s2, dv in vals:
            eng.store(s2, m.a[0], m.a[1], mapset(v, k, dv))
            out.append((s2, r))
    return out


@model("std::collections::hash::map::HashMap::values", "std::collections::hash::map::HashMap::keys", "std::collections::hash::map::HashMap::into_values")
def m_map_values(eng, st, fr, bi, f, a, t):
    n = f["path"].rsplit("::", 1)[1]
    return [(st, make_iter(eng, st, app(n.replace("into_", ""), P(eng, st, a[0]))))]


# ---- files -----------------------------------------------------------------------------

def fs_op(kind, nargs=1, okv=UNIT):
    def go(eng, st, fr, bi, f, a, t):
        args = [P(eng, st, x) for x in a[:nargs]]
        return io_op(eng, st, fr, bi, kind, args, t, okv)
    return go


M["std::fs::rename"] = fs_op("RENAME", 2)
M["std::fs::hard_link"] = fs_op("HARDLINK", 2)
M["std::os::unix::fs::symlink"] = fs_op("SYMLINK", 2)
M["std::fs::soft_link"] = fs_op("SYMLINK", 2)
M["std::fs::remove_file"] = fs_op("REMOVE_FILE")
M["std::fs::remove_dir"] = fs_op("REMOVE_DIR")
M["std::fs::remove_dir_all"] = fs_op("REMOVE_DIR_ALL")
M["std::fs::create_dir"] = fs_op("CREATE_DIR")
M["std::fs::create_dir_all"] = fs_op("CREATE_DIR_ALL")
M["std::fs::copy"] = fs_op("COPY", 2, lambda sym: app("copied", sym))
M["std::fs::set_permissions"] = fs_op("SET_PERM", 1)
M["filetime::set_file_mtime"] = fs_op("SET_MTIME", 2)
M["filetime::set_file_times"] = fs_op("SET_MTIME", 2)
M["std::fs::read_link"] = fs_op("READ_LINK", 1, lambda sym: app("linktarget", sym))
M["std::path::Path::read_link"] = M["std::fs::read_link"]
M["std::fs::canonicalize"] = fs_op("CANON", 1, lambda sym: app("canonical", sym))
M["std::path::Path::canonicalize"] = M["std::fs::canonicalize"]
M["std::fs::metadata"] = fs_op("STAT", 1, lambda sym: app("metadata", sym))
M["std::path::Path::metadata"] = M["std::fs::metadata"]
M["std::fs::symlink_metadata"] = fs_op("LSTAT", 1, lambda sym: app("lmetadata", sym))
M["std::path::Path::symlink_metadata"] = M["std::fs::symlink_metadata"]
M["std::path::Path::try_exists"] = fs_op("STAT", 1, lambda sym: app("tryexists", sym))
M["std::fs::exists"] = M["std::path::Path::try_exists"]
M["std::fs::read_dir"] = fs_op("READ_DIR", 1, lambda sym: app("entries", sym))
M["std::path::Path::read_dir"] = M["std::fs::read_dir"]


def query(name):
    def go(eng, st, fr, bi, f, a, t):
        p = P(eng, st, a[0])
        s = impure(eng, st, fr, bi, "q:" + name, p)
        return [(x, s) for x in eng.event(st, fr, bi, ("QUERY", name, p, s))]
    return go


for n in ("exists", "is_file", "is_dir", "is_symlink"):
    M["std::path::Path::" + n] = query(n)


@model("std::fs::File::create", "std::fs::File::create_new")
def m_create(eng, st, fr, bi, f, a, t):
    p = P(eng, st, a[0])
    return io_op(eng, st, fr, bi, "CREATE", [p], t, lambda sym: mk("file", p, "w"))


@model("std::fs::File::open")
def m_open(eng, st, fr, bi, f, a, t):
    p = P(eng, st, a[0])
    return io_op(eng, st, fr, bi, "OPEN", [p], t, lambda sym: mk("file", p, "r"))


@model("std::fs::File::options", "std::fs::OpenOptions::new")
def m_oo(eng, st, fr, bi, f, a, t):
    return [(st, mk("oo", frozenset()))]


def oo_set(eng, st, fr, bi, f, a, t):
    n = f["path"].rsplit("::", 1)[1]
    m = a[0]
    v = deref(eng, st, m)
    fl = v.a[0] if v.op == "oo" else frozenset(["?"])
    val = a[1]
    if val is TRUE:
        fl = fl | {n}
    elif val is FALSE:
        fl = fl - {n}
    elif n != "mode":
        fl = fl | {"?" + n}
    r = mk("oo", fl)
    if m.op == "mref":
        eng.store(st, m.a[0], m.a[1], r)
        return [(st, m)]
    return [(st, r)]


for n in ("read", "write", "append", "truncate", "create", "create_new"):
    M["std::fs::OpenOptions::" + n] = oo_set


@model("std::fs::OpenOptions::open")
def m_oo_open(eng, st, fr, bi, f, a, t):
    v = deref(eng, st, a[0])
    p = P(eng, st, a[1])
    fl = v.a[0] if v.op == "oo" else frozenset("?")
    if any(x.strip("?") in ("write", "append", "truncate", "create", "create_new", "") for x in fl):
        if "append" in fl or ("truncate" not in fl and "create_new" not in fl):
            return io_op(eng, st, fr, bi, "MODIFY", [p], t, lambda sym: mk("file", p, "m"))
        return io_op(eng, st, fr, bi, "CREATE", [p], t, lambda sym: mk("file", p, "w"))
    return io_op(eng, st, fr, bi, "OPEN", [p], t, lambda sym: mk("file", p, "r"))


@model("std::fs::File::set_len", "std::fs::File::set_permissions", "std::fs::File::set_times", "std::fs::File::set_modified")
def m_file_set(eng, st, fr, bi, f, a, t):
    v = P(eng, st, a[0])
    p = v.a[0] if v.op == "file" else app("unknownpath", v)
    return io_op(eng, st, fr, bi, "SET_MTIME" if "set_t" in f["path"] or "set_m" in f["path"] else "MODIFY", [p], t)


@model("std::fs::File::sync_all", "std::fs::File::sync_data")
def m_sync(eng, st, fr, bi, f, a, t):
    v = P(eng, st, a[0])
    return io_op(eng, st, fr, bi, "SYNC", [v], t)


def file_path(v):
    return v.a[0] if v.op == "file" else app("unknownpath", v)


def write_model(eng, st, fr, bi, f, a, t):
    n = f["path"].rsplit("::", 1)[1]
    dest = deref(eng, st, a[0])
    data = deref(eng, st, a[1]) if len(a) > 1 else None
    if dest.op in ("vec",) or is_vec_self(f):
        # writing to memory
        m = a[0]
        while m.op == "mref" and eng.load(st, m.a[0], m.a[1]).op == "mref":
            m = eng.load(st, m.a[0], m.a[1])
        if m.op == "mref" and data is not None:
            eng.store(st, m.a[0], m.a[1], data if dest is EMPTYVEC else cat_bytes(dest, data))
        return [(st, OK(UNIT))]
    if n == "flush":
        return io_op(eng, st, fr, bi, "SYNC", [dest], t)
    kind = "WRITE" if n in ("write_all", "write_fmt") else "PARTWRITE"
    return io_op(eng, st, fr, bi, kind, [file_path(dest), data], t, UNIT if kind == "WRITE" else (lambda sym: app("written", sym)))


def is_vec_self(f):
    return strip_refs(f.get("impl_self") or "").startswith("alloc::vec::Vec<u8")


def cat_bytes(a, b):
    return mk("catbytes", a, b)


for tr in ("std::io::Write", "alloc::io::write::Write", "core::io::write::Write", "std::io::write::Write", "alloc::io::Write"):
    for n in ("write_all", "write", "flush", "write_fmt"):
        M[tr + "::" + n] = write_model


def read_model(eng, st, fr, bi, f, a, t):
    src = deref(eng, st, a[0])
    n = f["path"].rsplit("::", 1)[1]
    m = a[1]
    isfile = src.op == "file"
    site = mk("site", eng_site(fr, bi))
    content = app("content", file_path(src), site) if isfile else app("readall", src)
    if isfile:
        eng.forget(st, content)
    if n not in ("read_to_end", "read_to_string"):
        content = app("partial", content)

    def ok(s):
        old = eng.load(s, m.a[0], m.a[1]) if m.op == "mref" else UNDEF
        if m.op == "mref":
            new = content if (old is EMPTYVEC or old is STR("") or old.op == "undef") else cat_bytes(old, content)
            eng.store(s, m.a[0], m.a[1], new)
        return eng.event(s, fr, bi, ("READ", True, file_path(src) if isfile else src, content))
    sym = app("io:READ", src, site)
    eng.forget(st, sym)
    return fork_result(eng, st, fr, bi, sym, app("nread", sym), fail=("READ", [file_path(src) if isfile else src], sym), t=t, post_ok=ok)


for tr in ("std::io::Read", "alloc::io::read::Read", "core::io::read::Read", "std::io::read::Read"):
    for n in ("read_to_end", "read_to_string", "read", "read_exact"):
        M[tr + "::" + n] = read_model
M["std::fs::File::read_to_end"] = read_model


@model("std::fs::read", "std::fs::read_to_string")
def m_fsread(eng, st, fr, bi, f, a, t):
    p = P(eng, st, a[0])
    content = app("content", p, mk("site", eng_site(fr, bi)))
    eng.forget(st, content)
    sym = app("io:READ", p, mk("site", eng_site(fr, bi)))
    eng.forget(st, sym)
    return fork_result(eng, st, fr, bi, sym, content, fail=("READ", [p], sym), t=t,
                       post_ok=lambda s: eng.event(s, fr, bi, ("READ", True, p, content)))


@model("std::fs::write")
def m_fswrite(eng, st, fr, bi, f, a, t):
    p, d = P(eng, st, a[0]), P(eng, st, a[1])
    out = []
    for s, r in io_op(eng, st, fr, bi, "CREATE", [p], None):
        if r.a[1] != 0:
            out.append((s, ERRV(app("ioerr"))))
            continue
        sym = app("io:WRITE", p, d, mk("site", eng_site(fr, str(bi) + "w")))
        eng.forget(s, sym)
        out.extend(fork_result(eng, s, fr, bi, sym, UNIT, fail=("WRITE", [p, d], sym), t=t,
                               post_ok=lambda x: eng.event(x, fr, bi, ("WRITE", True, p, d)),
                               post_err=lambda x: eng.event(x, fr, bi, ("WRITE", False, p, d))))
    return out


@model("std::io::copy", "std::io::util::copy", "alloc::io::util::copy")
def m_iocopy(eng, st, fr, bi, f, a, t):
    src, dst = deref(eng, st, a[0]), deref(eng, st, a[1])
    data = app("content", file_path(src), mk("site", eng_site(fr, bi))) if src.op == "file" else app("readall", src)
    return io_op(eng, st, fr, bi, "WRITE", [file_path(dst), data], t, lambda sym: app("copied", sym))


@model("std::thread::functions::sleep", "std::thread::sleep")
def m_sleep(eng, st, fr, bi, f, a, t):
    return [(s, UNIT) for s in eng.event(st, fr, bi, ("SLEEP", a[0]))]


# ---- processes ---------------------------------------------------------------------------

@model("std::process::Command::new")
def m_cmd(eng, st, fr, bi, f, a, t):
    return [(st, mk("cmd", P(eng, st, a[0])))]


@model("std::process::Command::output", "std::process::Command::status", "std::process::Command::spawn")
def m_cmd_run(eng, st, fr, bi, f, a, t):
    c = deref(eng, st, a[0])
    prog = c
    while prog.op not in ("cmd",) and prog.op == "app" and len(prog.a) > 1 and isinstance(prog.a[1], T):
        prog = prog.a[1]
    kind = "EXEC" if not f["path"].endswith("spawn") else "SPAWN"
    p = prog.a[0] if prog.op == "cmd" else c
    n = f["path"].rsplit("::", 1)[1]
    return io_op(eng, st, fr, bi, kind, [p], t, lambda sym: app("exec_" + n, sym))


@model("std::process::Child::wait", "std::process::Child::wait_with_output")
def m_child_wait(eng, st, fr, bi, f, a, t):
    c = deref(eng, st, a[0])
    return io_op(eng, st, fr, bi, "WAIT", [c], t, lambda sym: app("waited", c, sym))


# ---- locks -----------------------------------------------------------------------------------

@model("fslock::LockFile::open")
def m_lock_open(eng, st, fr, bi, f, a, t):
    p = P(eng, st, a[0])
    return io_op(eng, st, fr, bi, "LOCK_OPEN", [p], t, lambda sym: app("lockfile", p))


@model("fslock::LockFile::try_lock", "fslock::LockFile::lock", "fslock::LockFile::lock_with_pid", "fslock::LockFile::try_lock_with_pid")
def m_lock(eng, st, fr, bi, f, a, t):
    l = deref(eng, st, a[0])
    n = f["path"].rsplit("::", 1)[1]
    b = app("locked", l, mk("site", eng_site(fr, bi)))
    eng.forget(st, b)
    sym = app("io:LOCK", l, mk("site", eng_site(fr, bi)))
    eng.forget(st, sym)
    out = []
    for s, r in fork_result(eng, st, fr, bi, sym, UNIT, fail=("LOCK", [l], sym), t=t):
        if r.a[1] == 1:
            out.append((s, r))
        elif n.startswith("try"):
            for s2 in eng.assume(s.copy(), b, True):
                for s3 in eng.event(s2, fr, bi, ("LOCK", True, l)):
                    out.append((s3, OK(TRUE)))
            for s2 in eng.assume(s, b, False):
                out.append((s2, OK(FALSE)))
        else:
            for s3 in eng.event(s, fr, bi, ("LOCK", True, l)):
                out.append((s3, OK(UNIT)))
    return out


@model("fslock::LockFile::unlock")
def m_unlock(eng, st, fr, bi, f, a, t):
    l = deref(eng, st, a[0])
    return [(s, OK(UNIT)) for s in eng.event(st, fr, bi, ("UNLOCK", l))]


@model("fslock::LockFile::owns_lock")
def m_owns(eng, st, fr, bi, f, a, t):
    return [(st, app("owns_lock", deref(eng, st, a[0])))]


# ---- HTTP ----------------------------------------------------------------------------------------

@model("reqwest::blocking::request::RequestBuilder::send", "reqwest::blocking::client::Client::execute", "reqwest::blocking::get")
def m_send(eng, st, fr, bi, f, a, t):
    req = deref(eng, st, a[-1])
    return io_op(eng, st, fr, bi, "HTTP", [req], t, lambda sym: app("response", sym))


@model("reqwest::blocking::response::Response::bytes", "reqwest::blocking::response::Response::text")
def m_body(eng, st, fr, bi, f, a, t):
    r = deref(eng, st, a[0])
    return io_op(eng, st, fr, bi, "BODY", [r], t, lambda sym: app("body", r))


def pure_external(eng, st, fr, bi, f, a, t):
    return unknown(eng, st, fr, bi, f, a, t)


for n in ("reqwest::blocking::client::Client::builder", "reqwest::blocking::client::ClientBuilder::new",
          "reqwest::blocking::client::Client::get", "reqwest::blocking::response::Response::status", "reqwest::blocking::response::Response::headers"):
    M[n] = lambda eng, st, fr, bi, f, a, t: [(st, app(npath(f["path"]), *[deref(eng, st, x) for x in a]))]


# ---- rpki ---------------------------------------------------------------------------------------

NF = "rpki::rrdp::NotificationFile"


@model(NF + "::new", "rpki::rrdp::DeltaInfo::new", "rpki::rrdp::UriAndHash::new", "rpki::rrdp::SnapshotInfo::new")
def m_nf_new(eng, st, fr, bi, f, a, t):
    return [(st, app(npath(f["path"]), *[deref(eng, st, x) for x in a]))]


def getter(ctor, i, name):
    def go(eng, st, fr, bi, f, a, t):
        v = deref(eng, st, a[0])
        if v.op == "app" and v.a[0] == ctor:
            return [(st, v.a[1 + i])]
        if v.op == "nfsorted":
            if name == NF + "::deltas":
                return [(st, app("retained", get_nf(v.a[0], name, 3), v.a[1]))]
            return [(st, get_nf(v.a[0], name, i))]
        if v.op == "app" and v.a[0] == "rpki::rrdp::DeltaInfo::new" and ctor == "rpki::rrdp::UriAndHash::new":
            return [(st, v.a[2 + i])]
        return [(st, app(name, v))]
    return go


def get_nf(v, name, i):
    if v.op == "app" and v.a[0] == NF + "::new":
        return v.a[1 + i]
    if v.op == "nfsorted":
        return get_nf(v.a[0], name, i)
    return app(name, v)


for i, n in enumerate(("session_id", "serial", "snapshot", "deltas")):
    M[NF + "::" + n] = getter(NF + "::new", i, NF + "::" + n)
M["rpki::rrdp::DeltaInfo::serial"] = getter("rpki::rrdp::DeltaInfo::new", 0, "rpki::rrdp::DeltaInfo::serial")
M["rpki::rrdp::UriAndHash::uri"] = getter("rpki::rrdp::UriAndHash::new", 0, "rpki::rrdp::UriAndHash::uri")
M["rpki::rrdp::UriAndHash::hash"] = getter("rpki::rrdp::UriAndHash::new", 1, "rpki::rrdp::UriAndHash::hash")


@model(NF + "::sort_and_verify_deltas")
def m_nf_sort(eng, st, fr, bi, f, a, t):
    m = a[0]
    if m.op != "mref":
        return None
    v = eng.load(st, m.a[0], m.a[1])
    lim = deref(eng, st, a[1])
    nv = mk("nfsorted", v, lim)
    eng.store(st, m.a[0], m.a[1], nv)
    r = app("gapless", nv)
    d = app("retained", get_nf(v, NF + "::deltas", 3), lim)
    eng.sorted_syms[d] = frozenset([("asc", app("rpki::rrdp::DeltaInfo::serial", HOLE))])
    return [(st, r)]


@model(NF + "::write_xml")
def m_write_xml(eng, st, fr, bi, f, a, t):
    v = deref(eng, st, a[0])
    m = a[1]
    while m.op == "mref" and eng.load(st, m.a[0], m.a[1]).op == "mref":
        m = eng.load(st, m.a[0], m.a[1])
    x = app("xml", v)
    dest = deref(eng, st, m)
    if dest.op == "file":
        return io_op(eng, st, fr, bi, "WRITE", [file_path(dest), x], t)
    sym = app("io:XML", v)

    def ok(s):
        if m.op == "mref":
            old = eng.load(s, m.a[0], m.a[1])
            eng.store(s, m.a[0], m.a[1], x if old is EMPTYVEC else cat_bytes(old, x))
        return [s]
    return fork_result(eng, st, fr, bi, sym, UNIT, fail=("XML", [v], sym), t=t, post_ok=ok)


@model("serde_json::ser::to_string_pretty", "serde_json::ser::to_string", "serde_json::ser::to_vec", "serde_json::ser::to_vec_pretty")
def m_to_json(eng, st, fr, bi, f, a, t):
    v = deref(eng, st, a[0])
    return fork_result(eng, st, fr, bi, app("io:JSON", v), app("json", v), fail=("JSON", [v], v), t=t)


@model("serde_json::de::from_slice", "serde_json::de::from_str", "serde_json::de::from_reader")
def m_from_json(eng, st, fr, bi, f, a, t):
    v = deref(eng, st, a[0])
    rt = result_types(fr, t)
    ty = rt[0]["s"] if rt else "?"
    return fork_result(eng, st, fr, bi, app("io:FROMJSON", v, mk("ty", ty)), app("fromjson", v, mk("ty", ty)), fail=("FROMJSON", [v], v), t=t)


def process_model(kind):
    def go(eng, st, fr, bi, f, a, t):
        # the reader calls meta() once and then publish() for each object
        selfty = f.get("impl_self")
        ty = arg_ty(fr, f, 0)
        name = strip_refs((ty or {}).get("s") or selfty or "")
        def find(meth):
            for k in eng.prog.bodies:
                if k.startswith("<" + name + " as ") and "Process" + kind in k and k.endswith(">::" + meth):
                    return k
            return None
        km, kp, kw = find("meta"), find("publish"), find("withdraw")
        if kp is None:
            return None
        reader = deref(eng, st, a[1])
        out = []
        ev = []
        sts = [(st, None)]
        sym0 = app("objects", reader)
        if km:
            nx = []
            for s, _ in sts:
                for s2, r in eng.call_body(s, fr, bi, km, [a[0], app("metasession", reader), app("metaserial", reader)]):
                    for s3, ok, x in split_result(eng, s2, r):
                        if ok:
                            nx.append((s3, None))
                        else:
                            out.append((s3, ERRV(ERR)))
            sts = nx
        for s, _ in sts:
            # closure over publish
            eng.fns["model:publish:" + kp] = {"path": kp, "key": kp, "publish": True}
            fv = mk("pubcall", a[0], kp)
            root = ("t", fr.id, bi)
            s.mem[root] = make_iter(eng, s, sym0)
            for s2, r in synth(eng, s, fr, bi, "try_for_each", [mk("mref", root, ()), fv]):
                for s3, ok, x in split_result(eng, s2, r):
                    if not ok:
                        out.append((s3, ERRV(ERR)))
                        continue
                    # the XML may be broken after any number of objects
                    psym = app("io:PROCESS", reader)
                    out.extend(fork_result(eng, s3, fr, bi, psym, UNIT, errv=ERR, fail=("PROCESS", [reader], psym), t=None,
                                           post_ok=lambda q: eng.event(q, fr, bi, ("PROCESSED", True, reader, sym0))))
        return out
    return go


M["rpki::rrdp::ProcessSnapshot::process"] = process_model("Snapshot")
M["rpki::rrdp::ProcessDelta::process"] = process_model("Delta")


@model("rpki::repository::roa::Roa::process", "rpki::repository::aspa::Aspa::process")
def m_roa_process(eng, st, fr, bi, f, a, t):
    """Ok only if the object is valid under the issuer and the check passed."""
    obj, issuer = deref(eng, st, a[0]), deref(eng, st, a[1])
    check = a[-1]
    sym = app(npath(f["path"]), obj, issuer, deref(eng, st, a[2]))
    out = []
    ee = app("eecert", obj)
    s = st.copy()
    for s2, r in eng.call_value(s, fr, bi, check, [ee]):
        for s3, ok, x in split_result(eng, s2, r):
            if ok:
                s3.facts[("m", "crlcheck", obj)] = True
                out.extend(fork_result(eng, s3, fr, bi, sym, mk("tup", app("eeresource", obj), app("payload", obj)), t=t))
            else:
                out.append((s3, ERRV(app("err", sym))))
    for s2 in eng.assume(st.copy(), sym, False):
        out.append((s2, ERRV(app("err", sym))))
    return out


# ---- anything else --------------------------------------------------------------------------------

def recursion(eng, st, fr, bi, body, args, t):
    eng.event(st, fr, bi, ("RECURSE", body.key, args))
    vals = [deref(eng, st, x) for x in args]
    return opaque_result(eng, st, fr, bi, "rec:" + body.key, vals, body.tys[body.locals[0][0]], body.tys, True)


def opaque_result(eng, st, fr, bi, name, vals, rt, tys, site):
    if site:
        sym = impure(eng, st, fr, bi, name, *vals)
    else:
        sym = app(name, *vals)
    if rt is not None and rt["k"] == "adt" and rt["n"] == RESULT:
        okt = tys[rt["a"][0]]
        errt = tys[rt["a"][1]]
        okv = UNIT if is_unit(okt) else app("ok", sym)
        errv = ERR if errt.get("n") == "anyhow::Error" else app("err", sym)
        return fork_result(eng, st, fr, bi, sym, okv, errv, fail=("CALL", vals, sym))
    if is_unit(rt):
        return [(st, UNIT)]
    return [(st, sym)]


CONST_NO_FAIL = ()


def unknown(eng, st, fr, bi, f, a, t):
    """A function without a body: a function of its arguments, unless it is
    known to depend on or to change the world."""
    p = npath(f.get("path")) or "?"
    name = npath(f.get("rpath")) if f.get("rpath") and f.get("impl_self") is None else p
    name = p
    eng.unknown[p] = eng.unknown.get(p, 0) + 1
    vals = [deref(eng, st, x) for x in a]
    pure = external_pure(f)
    rt = ret_type(fr, t)
    if t is not None and t.get("to") is None:
        eng.event(st, fr, bi, ("PANIC", p))
        return []
    sts = [st]
    if not pure:
        sts = eng.event(st, fr, bi, ("EFFECT", p, tuple(vals)))
    out = []
    for s in sts:
        # closures handed over may be called
        cur = [s]
        for x in a:
            v = deref(eng, s, x)
            if v.op == "clo" and v.a[0] in eng.prog.bodies:
                body = eng.prog.bodies[v.a[0]]
                if eng.pure_body(v.a[0]):
                    continue
                nx = []
                for s1 in cur:
                    nx.append(s1.copy())
                    argn = body.argc - 1
                    for s2, r in eng.call_value(s1, fr, bi, x, [app("cbarg", mk("site", eng_site(fr, bi)), INT(i)) for i in range(argn)]):
                        nx.append(s2)
                cur = nx
        for s1 in cur:
            for i, x in enumerate(a):
                if x.op == "mref":
                    old = deref(eng, s1, x)
                    m = x
                    while True:
                        inner = eng.load(s1, m.a[0], m.a[1])
                        if inner.op != "mref":
                            break
                        m = inner
                    eng.store(s1, m.a[0], m.a[1], app("mut:" + p, *([old] + [v for j, v in enumerate(vals) if j != i])))
            site = (not pure) or p.startswith(IMPURE_NOEFFECT)
            out.extend(opaque_result(eng, s1, fr, bi, name, vals, rt, fr.body.tys, site))
    return out


def install(eng):
    old = eng.call_value

    def call_value(st, fr, bi, fv, args, t=None):
        v = deref(eng, st, fv)
        if v.op == "eqto":
            x = deref(eng, st, args[0])
            return [(st, mk_eq(unwrap_newtype(x, None, eng), unwrap_newtype(v.a[0], None, eng)))]
        if v.op == "pubcall":
            e = deref(eng, st, args[0])
            rd = app("objdata", e)
            root = ("t", fr.id, bi, "rd")
            st.mem[root] = rd
            return eng.call_body(st, fr, bi, v.a[1], [v.a[0], app("objuri", e), mk("mref", root, ())])
        return old(st, fr, bi, fv, args, t)
    eng.call_value = call_value
