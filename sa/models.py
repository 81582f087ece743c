"""Semantics of the external functions the analysed crate calls (std, tokio, bendy, ...).

MODELS[name](I, st, call, args) returns a Term, a list of (state, Term) alternatives,
("inline", body, args, kwargs), ("callv", closure, args), None (diverges) or NotImplemented.
RUST_MODELS[name] names a body of the models crate that is inlined instead.
"""
import re
from terms import *
from arith import *

OPT = "std::option::Option"
RES = "std::result::Result"
ABSENT = mk("absent")


# ------------------------------------------------------------------ helpers
def place(I, p):
    return I.deref(p)


def rd(I, st, p):
    """value behind a reference (one level)"""
    b, pa = I.deref(p)
    return I.read(st, b, pa)


def rdall(I, st, p):
    v = p
    n = 0
    while v.op == "ptr" and n < 8:
        v = I.read(st, v.a[0], v.a[1])
        n += 1
    return v


def ptr_to(p, extra, I, mut=None):
    b, pa = I.deref(p)
    return mk("ptr", b, pa + extra, p.a[2] if (mut is None and p.op == "ptr") else bool(mut))


def innermost(I, st, p):
    """the innermost reference in a chain of references"""
    n = 0
    while p.op == "ptr" and n < 8:
        v = I.read(st, p.a[0], p.a[1])
        if v.op != "ptr":
            return p
        p = v
        n += 1
    return p


def wr(I, st, p, v):
    b, pa = I.deref(p)
    I.write(st, b, pa, v)


def cases(I, st, v, def_, names):
    """[(state, variant, payload getter)] for an Option/Result-like value"""
    if v.op == "agg" and v.a[1]:
        return [(st, v.a[1], lambda i="0": field(v, v.a[1], i))]
    d = mk("discr", v)
    I.discr_ty[d] = def_
    out = []
    for k, n in names:
        s = st.copy()
        if I.assume(s, d, k):
            out.append((s, n, (lambda i="0", n=n: field(v, n, i))))
    return out


def opt_cases(I, st, v):
    return cases(I, st, v, OPT, [(0, "None"), (1, "Some")])


def res_cases(I, st, v):
    return cases(I, st, v, RES, [(0, "Ok"), (1, "Err")])


def seq_len(v):
    return length(v)


def pure(name, ty=None):
    def f(I, st, c, args):
        t = mk("call", name, *I.vals(st, args))
        if ty and t.ty is None:
            t.ty = ty
        return t
    return f


def ident(I, st, c, args):
    return args[0]


def oblige(I, st, c, kind, cond, want=1):
    """an implicit check inside a std function: panics unless cond==want"""
    if c.ctx.body.prog is I.prog:
        I.obligation(st, c.ctx, c.bb, kind, cond, want, c.term)
    return I.assume(st, cond, want)


def le(a, b):
    return binop("Le", a, b, "usize")


# ------------------------------------------------------------------ closures
def m_call_once(I, st, c, args):
    f, tupargs = args[0], args[1]
    if tupargs.op == "agg" and tupargs.a[0] == "()":
        a = list(tupargs.a[3])
    elif tupargs is UNIT:
        a = []
    else:
        a = [field(tupargs, "", "0")]
    return ("callv", f, a)


# ------------------------------------------------------------------ Try
def m_branch(I, st, c, args):
    v = args[0]
    dn = c.tname(0) or ""
    CF = "std::ops::ControlFlow"
    cont = lambda x: agg(CF, "Continue", ["0"], [x])
    brk = lambda x: agg(CF, "Break", ["0"], [x])
    if dn.startswith(OPT) or v is NONE or (v.op == "agg" and v.a[0] == OPT):
        return [(s, cont(g()) if n == "Some" else brk(NONE)) for s, n, g in opt_cases(I, st, v)]
    if dn.startswith("std::task::Poll"):
        return NotImplemented
    return [(s, cont(g()) if n == "Ok" else brk(err(g()))) for s, n, g in res_cases(I, st, v)]


def m_from_residual(I, st, c, args):
    v = args[0]
    d = c.dtname() or ""
    if v.op == "agg" and v.a[0] == OPT or d.startswith(OPT):
        return NONE
    e = field(v, "Err", "0")
    # a local From impl between the error types is what `?` calls
    return err(conv(e))


def conv(e):
    return e


# ------------------------------------------------------------------ panics
def m_unwrap(I, st, c, args):
    v = args[0]
    nm = c.name
    is_opt = "option::Option" in nm
    good = ("Some",) if is_opt else (("Err",) if "unwrap_err" in nm or "expect_err" in nm else ("Ok",))
    out = []
    for s, n, g in (opt_cases if is_opt else res_cases)(I, st, v):
        if n in good:
            out.append((s, g()))
        elif c.ctx.body.prog is I.prog or True:
            I.panic(s, c.ctx, c.bb, "unwrap", data={"value": I.val(s, v), "name": nm, "state": s.copy() if I.recording else None})
    return out


def m_mem_replace(I, st, c, args):
    old = rd(I, st, args[0])
    wr(I, st, args[0], args[1])
    return old


def m_mem_take(I, st, c, args):
    old = rd(I, st, args[0])
    t = c.tname(0) or ""
    d = default_of(I, c, t)
    wr(I, st, args[0], d)
    return old


def m_mem_swap(I, st, c, args):
    a, b = rd(I, st, args[0]), rd(I, st, args[1])
    wr(I, st, args[0], b)
    wr(I, st, args[1], a)
    return UNIT


def default_of(I, c, t):
    if t in BITS:
        return C(0)
    if t.startswith(OPT):
        return NONE
    if t.startswith(("std::vec::Vec", "std::string::String")):
        return mk("empty")
    if t.startswith(("std::collections::HashMap", "std::collections::HashSet")):
        return mk("emptymap")
    return mk("call", "default", mk("str", t))


def m_default(I, st, c, args):
    return default_of(I, c, c.tname(0) or "")


# ------------------------------------------------------------------ views
def m_deref(I, st, c, args):
    p = args[0]
    v = rd(I, st, p)
    if v.op == "agg" and v.a[0].endswith("MutexGuard"):
        return v.a[3][0]
    ty = c.tname(0) or ""
    # static wrappers around a reference: Pin<&mut T>, &T
    if ty.startswith(("std::pin::Pin<&", "&")):
        return v
    if v.op == "ptr" and ty.startswith(("std::sync::MutexGuard", "std::cell::Ref")):
        return v
    return p


def m_view(I, st, c, args):
    return args[0]


def m_clone(I, st, c, args):
    v = rd(I, st, args[0])
    return v


def m_lock(I, st, c, args):
    """Mutex::lock: another thread may have changed the contents"""
    I.kill(st, c.site)
    inner = innermost(I, st, args[0])
    content = mk("opq", c.site, "locked", I.val(st, inner))
    g = agg("std::sync::MutexGuard", "", ["p"], [mk("ptr", I.M(mk("opq", c.site, "lockref", inner_id(I, st, inner))), (), True)])
    r = mk("opq", c.site, "lockres", I.val(st, inner))
    # poisoning needs a panic while the lock was held
    return ok(g)


def inner_id(I, st, p):
    return I.val(st, p)


# ------------------------------------------------------------------ integers
def m_min(I, st, c, args):
    return minmax(I, st, "min", args[0], args[1])


def m_max(I, st, c, args):
    return minmax(I, st, "max", args[0], args[1])


def minmax(I, st, w, a, b):
    if is_c(a) and is_c(b):
        return C(min(a.a[0], b.a[0]) if w == "min" else max(a.a[0], b.a[0]))
    k = I.truth(st, binop("Le", a, b, "usize")) if I.arith_like(a) or I.arith_like(b) else None
    if k is not None:
        return (a if k else b) if w == "min" else (b if k else a)
    t = mk("call", w, a, b)
    t.ty = t.ty or a.ty or b.ty
    return t


def int_ty(c):
    """type of the integer method from its path: core::num::<impl u32>::checked_add"""
    import re
    m = re.search(r"<impl (\w+)>", c.name)
    return m.group(1) if m else "usize"


def m_checked(op):
    def f(I, st, c, args):
        ty = int_ty(c)
        a, b = args
        if op in ("Div", "Rem"):
            s0, s1 = st.copy(), st
            out = []
            z = binop("Eq", b, C(0), ty)
            if I.assume(s0, z, 1):
                out.append((s0, NONE))
            if I.assume(s1, z, 0):
                out.append((s1, some(binop(op, a, b, ty))))
            return out
        o = I.mkovf(op, a, b, ty)
        v = binop(op, a, b, ty)
        if v.ty is None and v.op != "c":
            v.ty = ty
        out = []
        s1 = st.copy()
        if I.assume(s1, o, 0):
            out.append((s1, some(v)))
        if I.assume(st, o, 1):
            out.append((st, NONE))
        return out
    return f


def m_satsub(I, st, c, args):
    a, b = args
    ty = int_ty(c)
    k = I.truth(st, binop("Le", b, a, ty))
    if k == 1:
        return bsub(a, b, ty)
    if k == 0 and ty[0] == "u":
        return C(0)
    t = mk("call", "satsub", a, b)
    t.ty = ty
    return t


def m_satadd(I, st, c, args):
    a, b = args
    ty = int_ty(c)
    o = I.mkovf("Add", a, b, ty)
    if I.truth(st, o) == 0:
        return badd(a, b, ty)
    t = mk("call", "satadd", a, b)
    t.ty = ty
    return t


def m_div_ceil(I, st, c, args):
    a, b = args
    ty = int_ty(c)
    z = binop("Eq", b, C(0), ty)
    if not oblige(I, st, c, "div by zero", z, 0):
        return None
    t = mk("call", "div_ceil", a, b)
    t.ty = ty
    return t


def m_intpure(nm):
    def f(I, st, c, args):
        t = mk("call", nm, *I.vals(st, args))
        t.ty = t.ty or int_ty(c)
        return t
    return f


def m_to_be_bytes(I, st, c, args):
    ty = int_ty(c)
    n = BITS[ty] // 8
    le_ = "to_le" in c.name
    x = args[0]
    out = []
    for i in range(n):
        sh = 8 * (i if le_ else n - 1 - i)
        out.append(byte_of(x, sh, n))
    return array(out)


def byte_of(x, sh, n):
    if is_c(x):
        return C((x.a[0] >> sh) & 255)
    if x.op == "lanes":
        return dict(x.a[0]).get(sh, C(0))
    if x.ty == "u8":
        return x if sh == 0 else C(0)
    t = mk("byte", x, sh, n)
    t.ty = "u8"
    return t


def m_from_be_bytes(I, st, c, args):
    ty = int_ty(c)
    n = BITS[ty] // 8
    le_ = "from_le" in c.name
    arr = args[0]
    d = {}
    for i in range(n):
        b = elem(arr, C(i))
        if b.ty is None and b.op != "c":
            b.ty = "u8"
        d[8 * (i if le_ else n - 1 - i)] = b
    r = mk_lanes(d, ty)
    if r.op != "c" and r.ty is None:
        r.ty = ty
    return r


def m_try_into(I, st, c, args):
    """slice -> array, integer narrowing; anything else opaque"""
    d = c.dtname() or ""
    src = args[0]
    import re
    m = re.match(r"std::result::Result<&?(?:mut )?\[(.+); (\d+)\]", d)
    if m:
        n = int(m.group(2))
        v = rdall(I, st, src)
        e = binop("Eq", length(v), C(n), "usize")
        out = []
        s1 = st.copy()
        if I.assume(s1, e, 1):
            x = v
            if "Result<&" in d:
                x = src
            else:
                x = asarr(v, n)
            out.append((s1, ok(x)))
        if I.assume(st, e, 0):
            out.append((st, err(mk("call", "TryFromSliceError"))))
        return out
    m = re.match(r"std::result::Result<(\w+), ", d)
    if m and m.group(1) in BITS:
        to = m.group(1)
        r = ty_range(to)
        s1 = st.copy()
        out = []
        inb = binop("BitAnd", binop("Le", C(r[0]), src, "i128"), binop("Le", src, C(r[1]), "i128"), "bool")
        if I.assume(s1, inb, 1):
            out.append((s1, ok(src)))
        if I.assume(st, inb, 0):
            out.append((st, err(mk("call", "TryFromIntError"))))
        return out
    # a local TryFrom impl: resolved through its key
    return local_conv(I, st, c, args, "std::convert::TryFrom", "try_from")


def asarr(v, n):
    if v.op == "agg" and v.a[0] == "array":
        return v
    if n <= 64:
        out = []
        for i in range(n):
            out.append(elem(v, C(i)))
        return array(out)
    t = mk("toarr", v, n)
    t.ty = "#arr:%d" % n
    return t


def local_conv(I, st, c, args, trait, meth):
    """Into/TryInto blanket impls: the From/TryFrom impl whose source and target types match"""
    src = c.tname(0)
    d = c.dtname() or ""
    tgt = c.tname(1) or d
    best = None
    for b in I.prog.impls.get((trait, meth), ()):
        b_arg = b.tystr(b.locals[1])
        b_ret = b.tystr(b.locals[0])
        if meth == "from" and b_arg == src and b_ret == tgt:
            best = b
        if meth == "try_from" and b_arg == src and b_ret.split(",")[0].endswith("<" + tgt):
            best = b
    if best is None:
        for b in I.prog.impls.get((trait, meth), ()):
            k = b.tystr(b.locals[0])
            a0 = b.tystr(b.locals[1])
            if meth == "from" and k == tgt and len(a0) <= 2:   # generic source
                best = b
    if best is not None:
        return ("inline", best, args, {})
    return None if False else NotImplemented


def m_into(I, st, c, args):
    src, tgt = c.tname(0), c.tname(1)
    if src is not None and src == tgt:
        return args[0]
    r = local_conv(I, st, c, args, "std::convert::From", "from")
    if r is NotImplemented:
        if src in BITS and tgt in BITS:
            return args[0]
        if src and tgt and src.lstrip("&").startswith(("str", "std::string", "[u8", "std::vec")) and tgt.startswith(("std::string", "std::vec", "std::path", "std::boxed")):
            return rdall(I, st, args[0])
        return mk("call", "into:" + str(tgt), *I.vals(st, args))
    return r


def m_from(I, st, c, args):
    t, s = c.tname(0) or "", c.tname(1) or ""
    if t in BITS and s in BITS:
        return args[0]
    if t == s:
        return args[0]
    if t.startswith("std::vec::Vec") or t.startswith("std::string::String") or t.startswith("std::path::PathBuf") or t.startswith("std::boxed::Box") or t.startswith("std::sync::Arc"):
        v = rdall(I, st, args[0])
        return v
    if t.startswith("std::net::Ipv4Addr"):
        if s == "u32":
            return agg("std::net::Ipv4Addr", "", ["octets"], [array([byte_of(args[0], 24 - 8 * i, 4) for i in range(4)])])
        return agg("std::net::Ipv4Addr", "", ["octets"], [args[0]])
    if t.startswith("std::net::SocketAddr") and "V4" in s:
        return agg("std::net::SocketAddr", "V4", ["0"], [args[0]])
    if t.startswith(("std::collections::HashMap", "std::collections::HashSet")):
        v = args[0]
        if v.op == "agg" and v.a[0] == "array":
            m = mk("emptymap")
            for x in v.a[3]:
                if "HashMap" in t:
                    m = upd(m, ("k", field(x, "", "0")), field(x, "", "1"))
                else:
                    m = upd(m, ("k", x), UNIT)
            return m
    return mk("call", "from:" + t, *I.vals(st, args))


def m_eqpair(I, st, a, b, ty=None, d=0):
    if a is b:
        return TRUE
    if ty in BITS:
        return binop("Eq", a, b, ty)
    if d < 5 and a.op == "agg" and b.op == "agg" and a.a[0] == b.a[0]:
        if a.a[1] != b.a[1]:
            return FALSE
        if len(a.a[3]) == len(b.a[3]):
            r = TRUE
            for x, y in zip(a.a[3], b.a[3]):
                r = binop("BitAnd", r, m_eqpair(I, st, x, y, None, d + 1), "bool")
            return r
        return FALSE if a.a[0] == "array" else binop("Eq", a, b)
    for x, y in ((a, b), (b, a)):
        if x.op == "agg" and x.a[1] and y.op not in ("agg", "c"):
            dv = I.discr_val(x)
            if dv is not None:
                dt = mk("discr", y)
                I.discr_ty.setdefault(dt, x.a[0])
                r = binop("Eq", dt, C(dv), "u64")
                for n, z in zip(x.a[2], x.a[3]):
                    r = binop("BitAnd", r, m_eqpair(I, st, field(y, x.a[1], n), z, None, d + 1), "bool")
                return r
    if a.ty in BITS or b.ty in BITS or a.op == "c" or b.op == "c":
        return binop("Eq", a, b, a.ty if a.ty in BITS else b.ty)
    if a.op in ("str", "bytes") and b.op == a.op:
        return C(a.a[0] == b.a[0])
    return binop("Eq", a, b)


def m_eq(I, st, c, args):
    a, b = rdall(I, st, args[0]), rdall(I, st, args[1])
    a, b = I.val(st, a), I.val(st, b)
    ty = c.tname(0)
    r = m_eqpair(I, st, a, b, ty if ty in BITS else None)
    if c.name.endswith("::ne"):
        r = notop(r)
    if r.op != "c":
        r.ty = "bool"
    return r


ORD = "std::cmp::Ordering"
ORDV = [("Less", -1), ("Equal", 0), ("Greater", 1)]


def ordering(n):
    return agg(ORD, n, [], [])


def m_cmp(I, st, c, args):
    a, b = rdall(I, st, args[0]), rdall(I, st, args[1])
    ty = c.tname(0)
    part = c.name.endswith("partial_cmp")
    w = some if part else (lambda x: x)
    if ty in BITS and ty[0] != "f":
        out = []
        s = st.copy()
        if I.assume(s, binop("Lt", a, b, ty), 1):
            out.append((s, w(ordering("Less"))))
        s = st.copy()
        if I.assume(s, binop("Eq", a, b, ty), 1):
            out.append((s, w(ordering("Equal"))))
        s = st.copy()
        if I.assume(s, binop("Lt", b, a, ty), 1):
            out.append((s, w(ordering("Greater"))))
        return out
    v = mk("call", "cmp", I.val(st, a), I.val(st, b))
    if part:
        return NotImplemented
    v.ty = "#adt:" + ORD
    return v


def m_lt(I, st, c, args):
    a, b = rdall(I, st, args[0]), rdall(I, st, args[1])
    ty = c.tname(0)
    if ty not in BITS:
        a, b = I.val(st, a), I.val(st, b)
        m = c.name.rsplit("::", 1)[1]
        t = {"lt": ("Lt", a, b, 0), "gt": ("Lt", b, a, 0), "le": ("Lt", b, a, 1), "ge": ("Lt", a, b, 1)}[m]
        x = mk("bin", "Lt", t[1], t[2])
        x.ty = "bool"
        return notop(x) if t[3] else x
    m = c.name.rsplit("::", 1)[1]
    return binop({"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}[m], a, b, ty)


# ------------------------------------------------------------------ sequences
RNG = ("std::ops::Range", "std::ops::RangeFrom", "std::ops::RangeTo", "std::ops::RangeFull", "std::ops::RangeInclusive", "std::ops::RangeToInclusive")


def range_of(I, st, c, r, n):
    """(lo, hi, [(cond,msg)]) of a slice range value over length n"""
    k = r.a[0] if r.op == "agg" else None
    ty = None
    if k is None:
        return None
    if k.endswith("RangeFull") or k == "zst":
        return C(0), n, []
    if k.endswith("::Range"):
        lo, hi = field(r, "", "start"), field(r, "", "end")
        return lo, hi, [(le(lo, hi), "range start"), (le(hi, n), "range end")]
    if k.endswith("RangeFrom"):
        lo = field(r, "", "start")
        return lo, n, [(le(lo, n), "range start")]
    if k.endswith("RangeTo"):
        hi = field(r, "", "end")
        return C(0), hi, [(le(hi, n), "range end")]
    if k.endswith("RangeInclusive"):
        lo, hi = field(r, "", "start"), badd(field(r, "", "end"), C(1), "usize")
        return lo, hi, [(le(lo, hi), "range start"), (le(hi, n), "range end")]
    if k.endswith("RangeToInclusive"):
        hi = badd(field(r, "", "end"), C(1), "usize")
        return C(0), hi, [(le(hi, n), "range end")]
    return None


def is_map_ty(t):
    return t.lstrip("&").replace("mut ", "").startswith(("std::collections::HashMap", "std::collections::HashSet", "std::collections::BTreeMap"))


def m_index(I, st, c, args):
    p, i = args[0], args[1]
    p = innermost(I, st, p)
    base = rd(I, st, p)
    if (c.tname(0) and is_map_ty(c.tname(0))) or base.op == "emptymap":
        k = I.val(st, rdall(I, st, i))
        h = map_has(I, st, base, k)
        if not oblige(I, st, c, "map index", h, 1):
            return None
        return ptr_to(p, (("k", k),), I)
    n = length(base)
    if i.op == "agg" or i.op == "zst":
        r = range_of(I, st, c, i, n) if i.op == "agg" else (C(0), n, [])
        if r is None:
            return NotImplemented
        lo, hi, conds = r
        for cd, msg in conds:
            if not oblige(I, st, c, msg, cd, 1):
                return None
        if is_c(lo) and lo.a[0] == 0 and hi is n:
            return ptr_to(p, (), I)
        return ptr_to(p, (("s", lo, hi),), I)
    t = c.tname(1) or "usize"
    if t != "usize" and t not in BITS and not (i.ty == "usize"):
        return NotImplemented
    if not oblige(I, st, c, "index", binop("Lt", i, n, "usize"), 1):
        return None
    return ptr_to(p, (("i", i),), I)


def m_get(I, st, c, args):
    p, i = innermost(I, st, args[0]), args[1]
    n = length(rd(I, st, p))
    if i.op == "agg":
        r = range_of(I, st, c, i, n)
        if r is None:
            return NotImplemented
        lo, hi, conds = r
        good = st.copy()
        out = []
        okk = True
        for cd, _ in conds:
            bad = good.copy()
            if I.assume(bad, cd, 0):
                out.append((bad, NONE))
            if not I.assume(good, cd, 1):
                okk = False
                break
        if okk:
            out.append((good, some(ptr_to(p, (("s", lo, hi),), I))))
        return out
    cd = binop("Lt", i, n, "usize")
    out = []
    s = st.copy()
    if I.assume(s, cd, 1):
        out.append((s, some(ptr_to(p, (("i", i),), I))))
    if I.assume(st, cd, 0):
        out.append((st, NONE))
    return out


def m_len(I, st, c, args):
    v = rdall(I, st, args[0])
    t = length(v)
    return t


def m_is_empty(I, st, c, args):
    v = rdall(I, st, args[0])
    return binop("Eq", length(v), C(0), "usize")


def m_first(I, st, c, args):
    p = innermost(I, st, args[0])
    n = length(rd(I, st, p))
    i = C(0) if "first" in c.name else bsub(n, C(1), "usize")
    e = binop("Eq", n, C(0), "usize")
    out = []
    s = st.copy()
    if I.assume(s, e, 0):
        out.append((s, some(ptr_to(p, (("i", i),), I))))
    if I.assume(st, e, 1):
        out.append((st, NONE))
    return out


def m_push(I, st, c, args):
    v = rd(I, st, args[0])
    wr(I, st, args[0], cat(v, array([args[1]])))
    return UNIT


MAXCAT = 40


def cat(a, b):
    r = concat(a, b)
    if r.op == "concat" and len(r.a[0]) > MAXCAT:
        r = mk("catsum", a, b)
    return r


def m_extend_slice(I, st, c, args):
    v = rd(I, st, args[0])
    x = rdall(I, st, args[1])
    wr(I, st, args[0], cat(v, x))
    return UNIT


def m_append(I, st, c, args):
    v = rd(I, st, args[0])
    x = rd(I, st, args[1])
    wr(I, st, args[0], cat(v, x))
    wr(I, st, args[1], mk("empty"))
    return UNIT


def m_pop(I, st, c, args):
    v = rd(I, st, args[0])
    n = length(v)
    e = binop("Eq", n, C(0), "usize")
    out = []
    s = st.copy()
    if I.assume(s, e, 0):
        m1 = bsub(n, C(1), "usize")
        x = elem(v, m1)
        wr(I, s, args[0], slice_(v, C(0), m1))
        out.append((s, some(x)))
    if I.assume(st, e, 1):
        out.append((st, NONE))
    return out


def m_vremove(I, st, c, args):
    v = rd(I, st, args[0])
    n = length(v)
    if not oblige(I, st, c, "remove index", binop("Lt", args[1], n, "usize"), 1):
        return None
    x = elem(v, args[1])
    r = mk("removed", v, args[1])
    I.kill(st, c.site)
    ln = length(r)
    wr(I, st, args[0], r)
    d = lin_sub(lin(ln), lin(bsub(n, C(1), "usize")))
    I.addineq(st, d)
    I.addineq(st, lin_scale(d, -1))
    return x


def m_truncate(I, st, c, args):
    v = rd(I, st, args[0])
    n = length(v)
    k = minmax(I, st, "min", args[1], n)
    wr(I, st, args[0], slice_(v, C(0), k))
    return UNIT


def m_clear(I, st, c, args):
    t = c.tname(0) or ""
    wr(I, st, args[0], mk("emptymap") if "Hash" in c.name else mk("empty"))
    return UNIT


def m_permute(I, st, c, args):
    """sort/shuffle: same multiset of elements, same length"""
    p = innermost(I, st, args[0])
    v = rd(I, st, p)
    n = length(v)
    r = mk("perm", c.name.rsplit("::", 1)[1], v)
    if r.op == "perm":
        ln = length(r)
        if ln.op == "len":
            d = lin_sub(lin(ln), lin(n))
            I.addineq(st, d)
            I.addineq(st, lin_scale(d, -1))
    wr(I, st, p, r)
    return UNIT


def m_from_elem(I, st, c, args):
    return mk("repeat", args[0], args[1])


def m_copy_from_slice(I, st, c, args):
    d, s = innermost(I, st, args[0]), rdall(I, st, args[1])
    old = rd(I, st, d)
    if not oblige(I, st, c, "copy_from_slice length", binop("Eq", length(old), length(s), "usize"), 1):
        return None
    wr(I, st, d, s)
    return UNIT


def m_fill(I, st, c, args):
    d = innermost(I, st, args[0])
    n = length(rd(I, st, d))
    wr(I, st, d, array([args[1]] * n.a[0]) if is_c(n) and n.a[0] <= 64 else mk("repeat", args[1], n))
    return UNIT


def m_copy_within(I, st, c, args):
    p = innermost(I, st, args[0])
    v = rd(I, st, p)
    n = length(v)
    r = range_of(I, st, c, args[1], n)
    if r is None:
        return NotImplemented
    lo, hi, conds = r
    for cd, msg in conds:
        if not oblige(I, st, c, msg, cd, 1):
            return None
    cnt = bsub(hi, lo, "usize")
    if not oblige(I, st, c, "copy_within dest", le(badd(args[2], cnt, "usize"), n), 1):
        return None
    src = slice_(v, lo, hi)
    wr(I, st, ptr_to(p, (("s", args[2], badd(args[2], cnt, "usize")),), I), src)
    if I.on_io:
        I.on_io(I, st, c, "copy_within", p, (lo, hi, args[2]))
    return UNIT


def m_split_at(I, st, c, args):
    p, m = innermost(I, st, args[0]), args[1]
    n = length(rd(I, st, p))
    if not oblige(I, st, c, "split_at", le(m, n), 1):
        return None
    return tup(ptr_to(p, (("s", C(0), m),), I), ptr_to(p, (("s", m, n),), I))


def m_join(I, st, c, args):
    return mk("call", "join", *I.vals(st, args))


def m_contains(I, st, c, args):
    t = mk("call", "contains", *I.vals(st, args))
    t.ty = "bool"
    return t


def m_to_vec(I, st, c, args):
    return rdall(I, st, args[0])


def m_vec_new(I, st, c, args):
    return mk("empty")


def m_map_new(I, st, c, args):
    return mk("emptymap")


# ------------------------------------------------------------------ maps
def map_has(I, st, m, k):
    while m.op == "upd":
        key = m.a[1]
        if key[0] == "k":
            if key[1] is k:
                return FALSE if m.a[2] is ABSENT else TRUE
            if is_c(key[1]) and is_c(k):
                m = m.a[0]
                continue
            break
        break
    if m.op == "emptymap":
        return FALSE
    t = mk("has", m, k)
    t.ty = "bool"
    return t


def map_get(m, k):
    while m.op == "upd" and m.a[1][0] == "k":
        if m.a[1][1] is k:
            return m.a[2]
        if is_c(m.a[1][1]) and is_c(k):
            m = m.a[0]
            continue
        break
    return mk("mapget", m, k)


def mkey(I, st, k):
    return I.val(st, rdall(I, st, k))


def m_map_get(I, st, c, args):
    p = innermost(I, st, args[0])
    m = rd(I, st, p)
    k = mkey(I, st, args[1])
    h = map_has(I, st, m, k)
    out = []
    s = st.copy()
    if I.assume(s, h, 1):
        r = ptr_to(p, (("k", k),), I)
        if c.name.endswith("get_key_value"):
            r = tup(args[1], r)
        out.append((s, some(r)))
    if I.assume(st, h, 0):
        out.append((st, NONE))
    return out


def m_map_contains(I, st, c, args):
    m = rdall(I, st, args[0])
    return map_has(I, st, m, mkey(I, st, args[1]))


def m_map_insert(I, st, c, args):
    p = innermost(I, st, args[0])
    m = rd(I, st, p)
    k = I.val(st, args[1])
    isset = "HashSet" in c.name
    h = map_has(I, st, m, k)
    v = UNIT if isset else args[2]
    out = []
    for val in (1, 0):
        s = st.copy()
        if not I.assume(s, h, val):
            continue
        old = map_get(m, k)
        wr(I, s, p, upd(m, ("k", k), v))
        if isset:
            out.append((s, C(1 - val)))
        else:
            out.append((s, some(old) if val else NONE))
    if len(out) > 1 and not isset and dead_dest(c):
        # the previous value is not looked at
        wr(I, st, p, upd(m, ("k", k), v))
        return mk("opq", c.site, "oldvalue")
    return out


def dead_dest(c):
    d = c.term.get("dest")
    if d is None or d[1]:
        return False
    to = c.term.get("to")
    if to is None:
        return True
    b = c.ctx.body
    if d[0] in b.livein[to]:
        return False
    # only dropped
    return True


def m_map_remove(I, st, c, args):
    p = innermost(I, st, args[0])
    m = rd(I, st, p)
    k = mkey(I, st, args[1])
    h = map_has(I, st, m, k)
    out = []
    isset = "HashSet" in c.name
    for val in (1, 0):
        s = st.copy()
        if not I.assume(s, h, val):
            continue
        old = map_get(m, k)
        if val:
            wr(I, s, p, upd(m, ("k", k), ABSENT))
            if I.on_remove:
                I.on_remove(I, s, c, p, k)
        if isset:
            out.append((s, C(val)))
        elif "remove_entry" in c.name:
            out.append((s, some(tup(k, old)) if val else NONE))
        else:
            out.append((s, some(old) if val else NONE))
    return out


ENT = "std::collections::hash_map::Entry"


def m_map_entry(I, st, c, args):
    p = innermost(I, st, args[0])
    m = rd(I, st, p)
    k = I.val(st, args[1])
    h = map_has(I, st, m, k)
    out = []
    s = st.copy()
    if I.assume(s, h, 1):
        out.append((s, agg(ENT, "Occupied", ["0"], [agg("OccEntry", "", ["m", "k"], [p, k])])))
    if I.assume(st, h, 0):
        out.append((st, agg(ENT, "Vacant", ["0"], [agg("VacEntry", "", ["m", "k"], [p, k])])))
    return out


def ent(I, st, x):
    v = rdall(I, st, x) if x.op == "ptr" else x
    return field(v, "", "m"), field(v, "", "k")


def m_occ_get(I, st, c, args):
    p, k = ent(I, st, args[0])
    return ptr_to(p, (("k", k),), I)


def m_occ_insert(I, st, c, args):
    p, k = ent(I, st, args[0])
    m = rd(I, st, p)
    old = map_get(m, k)
    wr(I, st, p, upd(m, ("k", k), args[1]))
    return old


def m_occ_remove(I, st, c, args):
    p, k = ent(I, st, args[0])
    m = rd(I, st, p)
    old = map_get(m, k)
    wr(I, st, p, upd(m, ("k", k), ABSENT))
    if I.on_remove:
        I.on_remove(I, st, c, p, k)
    return old


def m_vac_insert(I, st, c, args):
    p, k = ent(I, st, args[0])
    m = rd(I, st, p)
    wr(I, st, p, upd(m, ("k", k), args[1]))
    return ptr_to(p, (("k", k),), I)


def m_or_default(I, st, c, args):
    t = c.tname(1) or c.dtname() or ""
    v = args[0]
    d = default_of(I, c, (c.dtname() or "").replace("&mut ", ""))
    if v.op == "agg" and v.a[1] == "Occupied":
        return m_occ_get(I, st, c, [v.a[3][0]])
    if v.op == "agg":
        return m_vac_insert(I, st, c, [v.a[3][0], d])
    return NotImplemented


def m_vm_insert(I, st, c, args):
    p = innermost(I, st, args[0])
    m = rd(I, st, p)
    wr(I, st, p, upd(m, ("k", I.val(st, args[1])), args[2]))
    return UNIT


# ------------------------------------------------------------------ iterators
ANY = "vmodel::AnyIter"


def any_iter(src, kind):
    return agg(ANY, "", ["src", "kind"], [src, mk("str", kind)])


def m_map_iter(kind):
    def f(I, st, c, args):
        return any_iter(innermost(I, st, args[0]), kind)
    return f


def m_next(I, st, c, args):
    p = innermost(I, st, args[0])
    v = rd(I, st, p)
    if v.op == "agg" and v.a[0] in ("std::ops::Range",):
        return range_next(I, st, c, p, v)
    if v.op == "agg" and v.a[0] == "std::ops::RangeInclusive":
        return rangeincl_next(I, st, c, p, v)
    if v.op == "agg" and v.a[0] == "std::ops::RangeFrom":
        lo = field(v, "", "start")
        wr(I, st, p, upd(v, ("f", "", "start"), badd(lo, C(1), lo.ty)))
        return some(lo)
    if v.op == "agg" and v.a[0] == ANY:
        src, kind = v.a[3][0], v.a[3][1].a[0]
        I.kill(st, c.site)
        s1 = st.copy()
        if kind in ("iter", "iter_mut", "keys", "values", "values_mut"):
            m = rd(I, st, src)
            k = mk("opq", c.site, "anykey", m)
            pk = mk("ptr", I.M(mk("kref", k)), (), False)
            I.regions[mk("kref", k)] = k
            h = map_has(I, s1, m, k)
            I.assume(s1, h, 1)
            pv = ptr_to(src, (("k", k),), I)
            item = {"iter": tup(pk, pv), "iter_mut": tup(pk, pv), "keys": pk, "values": pv, "values_mut": pv}[kind]
            if c.term.get("set"):
                item = pk
        elif kind == "setiter":
            m = rd(I, st, src)
            k = mk("opq", c.site, "anykey", m)
            pk = mk("ptr", I.M(mk("kref", k)), (), False)
            I.regions[mk("kref", k)] = k
            I.assume(s1, map_has(I, s1, m, k), 1)
            item = pk
        elif kind == "intoset":
            k = mk("opq", c.site, "anykey", src)
            I.assume(s1, map_has(I, s1, src, k), 1)
            item = k
        elif kind == "intomap":
            k = mk("opq", c.site, "anykey", src)
            I.assume(s1, map_has(I, s1, src, k), 1)
            item = tup(k, map_get(src, k))
        else:
            item = mk("opq", c.site, "item:" + kind, I.val(st, src))
        return [(s1, some(item)), (st, NONE)]
    if v.op == "agg" and v.a[0].startswith("vmodel::"):
        return NotImplemented
    # opaque iterator: anything may come out, the iterator moves on
    I.kill(st, c.site)
    s1 = st.copy()
    item = mk("opq", c.site, "item", I.val(st, v))
    new = mk("opq", c.site, "iterstate", v)
    wr(I, s1, p, new)
    return [(s1, some(item)), (st, NONE)]


def range_next(I, st, c, p, v, back=False):
    lo, hi = field(v, "", "start"), field(v, "", "end")
    ty = lo.ty if lo.ty in BITS else (hi.ty if hi.ty in BITS else "usize")
    cd = binop("Lt", lo, hi, ty)
    for x in (lo, hi):
        if is_c(x):
            I.thresh(c.ctx, x.a[0])
    out = []
    s = st.copy()
    if I.assume(s, cd, 1):
        if back:
            n = bsub(hi, C(1), ty)
            wr(I, s, p, upd(v, ("f", "", "end"), n))
            out.append((s, some(n)))
        else:
            wr(I, s, p, upd(v, ("f", "", "start"), badd(lo, C(1), ty)))
            out.append((s, some(lo)))
    if I.assume(st, cd, 0):
        out.append((st, NONE))
    return out


def rangeincl_next(I, st, c, p, v):
    lo, hi, ex = field(v, "", "start"), field(v, "", "end"), field(v, "", "exhausted")
    ty = lo.ty if lo.ty in BITS else (hi.ty if hi.ty in BITS else "usize")
    out = []
    s = st.copy()
    if I.assume(s, ex, 0) and I.assume(s, binop("Lt", lo, hi, ty), 1):
        wr(I, s, p, upd(v, ("f", "", "start"), badd(lo, C(1), ty)))
        out.append((s, some(lo)))
    s = st.copy()
    if I.assume(s, ex, 0) and I.assume(s, binop("Eq", lo, hi, ty), 1):
        wr(I, s, p, upd(v, ("f", "", "exhausted"), TRUE))
        out.append((s, some(lo)))
    done = binop("BitOr", ex, binop("Lt", hi, lo, ty), "bool")
    if I.assume(st, done, 1):
        out.append((st, NONE))
    return out


def m_next_back(I, st, c, args):
    p = innermost(I, st, args[0])
    v = rd(I, st, p)
    if v.op == "agg" and v.a[0] == "std::ops::Range":
        return range_next(I, st, c, p, v, True)
    return m_next(I, st, c, args) if not (v.op == "agg" and v.a[0].startswith("vmodel::") and v.a[0] != ANY) else NotImplemented


def m_rangeincl_new(I, st, c, args):
    return agg("std::ops::RangeInclusive", "", ["start", "end", "exhausted"], [args[0], args[1], FALSE])


def m_range_contains(I, st, c, args):
    r = rdall(I, st, args[0])
    x = rdall(I, st, args[1])
    k = r.a[0] if r.op == "agg" else ""
    ty = x.ty if x.ty in BITS else "usize"
    cs = []
    if k.endswith(("::Range", "RangeFrom", "RangeInclusive")):
        cs.append(binop("Le", field(r, "", "start"), x, ty))
    if k.endswith(("::Range", "RangeTo")):
        cs.append(binop("Lt", x, field(r, "", "end"), ty))
    if k.endswith(("RangeInclusive", "RangeToInclusive")):
        cs.append(binop("Le", x, field(r, "", "end"), ty))
    if not cs:
        return NotImplemented
    t = cs[0]
    for y in cs[1:]:
        t = binop("BitAnd", t, y, "bool")
    return t


def model_body(I, name):
    b = I.modelprog.bodies.get("vmodel::" + name)
    if b is None:
        raise KeyError("model " + name)
    return b


def m_into_iter(I, st, c, args):
    x = args[0]
    ty = c.tname(0) or ""
    v = x
    if x.op == "ptr" or ty.startswith("&"):
        p = innermost(I, st, x)
        v = rd(I, st, p)
        if v.op == "agg" and (v.a[0].startswith("vmodel::") or v.a[0] == "std::ops::Range"):
            return x
        mut = ty.startswith("&mut") or ty.startswith("&'a mut") or (ty == "" and x.op == "ptr" and x.a[2])
        if is_map_ty(ty.replace("'a ", "")) or v.op == "emptymap":
            return any_iter(p, "setiter" if "HashSet" in ty else ("iter_mut" if mut else "iter"))
        if v.op == "agg" and v.a[0] == OPT or ty.replace("'a ", "").lstrip("&").startswith(OPT):
            return ("inline", model_body(I, "opt_iter"), [p], {})
        inner = ty.replace("'a ", "").lstrip("&").replace("mut ", "")
        loc = local_intoiter(I, inner, ty)
        if loc is not None:
            return ("inline", loc, [x], {})
        if "dyn " in inner or inner.startswith("impl "):
            return x
        return ("inline", model_body(I, "slice_iter_mut" if mut else "slice_iter"), [p], {})
    if x.op == "agg":
        k = x.a[0]
        if k.startswith(("vmodel::", "std::ops::Range", "{}")):
            return x
        if k == OPT:
            return ("inline", model_body(I, "opt_into_iter"), [x], {})
        if k == "array":
            return ("inline", model_body(I, "val_iter"), [x], {})
        if I.find_impl("std::iter::Iterator", "next", x):
            return x
        b = I.find_impl("std::iter::IntoIterator", "into_iter", x)
        if b is not None:
            return ("inline", b, [x], {})
        return x
    if ty.startswith(("std::vec::Vec", "[", "std::boxed::Box<[")) or (ty == "" or len(ty) <= 2) and x.op in ("concat", "empty", "slice", "repeat"):
        return ("inline", model_body(I, "val_iter"), [x], {})
    if ty.startswith("std::collections::HashSet"):
        return any_iter(x, "intoset")
    if is_map_ty(ty):
        return any_iter(x, "intomap")
    if ty.startswith(OPT):
        return ("inline", model_body(I, "opt_into_iter"), [x], {})
    loc = local_intoiter(I, ty, ty)
    if loc is not None:
        return ("inline", loc, [x], {})
    if isinstance(x.ty, str) and x.ty.startswith("#adt:std::vec::Vec"):
        return ("inline", model_body(I, "val_iter"), [x], {})
    if isinstance(x.ty, str) and x.ty.startswith("#adt:std::option"):
        return ("inline", model_body(I, "opt_into_iter"), [x], {})
    if isinstance(x.ty, str) and x.ty.startswith("#arr"):
        return ("inline", model_body(I, "val_iter"), [x], {})
    return x


def local_intoiter(I, ty, full):
    for b in I.prog.impls.get(("std::iter::IntoIterator", "into_iter"), ()):
        if b.tystr(b.locals[1]) == full:
            return b
    return None


def m_take_elem(I, st, c, args):
    v = rdall(I, st, args[0])
    return elem(v, args[1])


def m_vm_any_elem(I, st, c, args):
    p = innermost(I, st, args[0])
    I.kill(st, c.site)
    i = mk("opq", c.site, "anyidx")
    i.ty = "usize"
    return ptr_to(p, (("i", i),), I)


def m_nondet(I, st, c, args):
    return [(st.copy(), TRUE), (st, FALSE)]


def m_absorb(I, st, c, args):
    a, b = I.vals(st, args)
    if a.op == "absorb":
        if b in a.a:
            return a
        if len(a.a) < 6:
            return mk("absorb", *a.a, b)
        return a
    return mk("absorb", b)


def m_collect(I, st, c, args):
    d = c.dtname() or ""
    x = args[0]
    if d.startswith(("std::vec::Vec", "std::boxed::Box<[", "std::collections::VecDeque", "std::string::String")):
        return ("inline", model_body(I, "collect_vec"), [x], {})
    if d.startswith("std::collections::HashMap"):
        return ("inline", model_body(I, "collect_map"), [x], {})
    if d.startswith("std::collections::HashSet"):
        return ("inline", model_body(I, "collect_set"), [x], {})
    if d.startswith("std::result::Result<std::vec::Vec"):
        return ("inline", model_body(I, "collect_res_vec"), [x], {})
    if d.startswith("std::option::Option<std::vec::Vec"):
        return ("inline", model_body(I, "collect_opt_vec"), [x], {})
    loc = None
    for b in I.prog.impls.get(("std::iter::FromIterator", "from_iter"), ()):
        if b.tystr(b.locals[0]) == d:
            return ("inline", b, [x], {})
    return NotImplemented


def m_try(name):
    def f(I, st, c, args):
        d = c.dtname() or ""
        k = "opt" if d.startswith("std::option::Option") else "res" if d.startswith("std::result::Result") else None
        return ("inline", model_body(I, "it_%s_%s" % (name, k)), args, {}) if k else NotImplemented
    return f


def m_extend(I, st, c, args):
    t = c.tname(0) or ""
    if t.startswith("std::collections::HashMap"):
        return ("inline", model_body(I, "extend_map"), args, {})
    if t.startswith("std::collections::HashSet"):
        return ("inline", model_body(I, "extend_set"), args, {})
    if t.startswith(("std::vec::Vec", "std::string::String")):
        src = c.body.tystr(c.atys[1]) if getattr(c, "atys", None) and len(c.atys) > 1 and c.atys[1] is not None else ""
        if src.startswith(("[", "std::vec::Vec<", "&[", "&std::vec::Vec<", "&'")) and t.startswith("std::vec::Vec") and ("u8" in src or not src.startswith("&")):
            wr(I, st, args[0], cat(rd(I, st, args[0]), rdall(I, st, args[1]) if src.startswith("&") else I.val(st, args[1])))
            return UNIT
        return ("inline", model_body(I, "extend_vec"), args, {})
    return NotImplemented


def m_retain(I, st, c, args):
    if "HashMap" in c.name or "HashSet" in c.name:
        return NotImplemented
    return ("inline", model_body(I, "retain"), args, {})


# ------------------------------------------------------------------ strings, formatting
def m_string_push(I, st, c, args):
    v = rd(I, st, args[0])
    x = rdall(I, st, args[1]) if args[1].op == "ptr" else args[1]
    wr(I, st, args[0], cat(v, I.val(st, x)))
    return UNIT


def m_to_string(I, st, c, args):
    t = c.tname(0) or ""
    v = rdall(I, st, args[0])
    if t in ("str", "std::string::String", "&str"):
        return I.val(st, v)
    return mk("call", "to_string", I.val(st, v))


def m_fmt(name):
    def f(I, st, c, args):
        return mk("call", name, *I.vals(st, args))
    return f


# ------------------------------------------------------------------ futures
FUT_ADT = ("tokio::time::Sleep", "tokio::time::Timeout", "tokio::io::util::", "tokio::io::seek::Seek", "reqwest::Pending")


def is_future_ty(s):
    if s is None:
        return False
    return s.startswith(("impl std::future::Future", "{async ")) or s.startswith(FUT_ADT) or s.startswith(("std::pin::Pin<std::boxed::Box<dyn std::future::Future", "std::pin::Pin<std::boxed::Box<(dyn std::future::Future")) or "{async fn body of" in s[:30]


def m_into_future(I, st, c, args):
    return args[0]


def m_poll(I, st, c, args):
    p = innermost(I, st, args[0])
    v = rd(I, st, p)
    if v.op == "agg":
        k = v.a[0]
        if k.startswith("{}"):
            b = I.body_of(k[2:])
            if b is not None and b.coroutine:
                if I.no_inline is not None and I.no_inline(b.key):
                    return NotImplemented
                return ("inline", b, [v, args[1]], {"wrap": ready})
        if k == "{pollfn}":
            return ("callv", ptr_to(p, (("f", "", "f"),), I), [args[1]])
        if k == "{fut}":
            return poll_ext(I, st, c, p, v)
    I.kill(st, c.site)
    if I.on_await:
        I.on_await(I, st, c, "await:" + (v.a[0][2:] if v.op == "agg" else "?"), [I.val(st, v)])
    r = mk("opq", c.site, "await", I.val(st, v))
    I.emit(st, c.ctx, c.bb, "call", "await", [I.val(st, v)], result=r)
    # output type of the future
    return ready(r)


def m_poll_fn(I, st, c, args):
    return agg("{pollfn}", "", ["f"], [args[0]])


AWAIT = {}


def poll_ext(I, st, c, p, v):
    """an external async operation completes: this is where its effects happen"""
    name = v.a[1]
    a = list(v.a[3])
    m = I.await_models.get(name) or AWAIT.get(name)
    if I.before_await:
        I.before_await(I, st, c, name)
    I.kill(st, c.site)
    vs = I.vals(st, a)
    if I.on_await:
        I.on_await(I, st, c, name, vs)
    if m is not None:
        r = m(I, st, c, a)
        if r is not NotImplemented:
            if not isinstance(r, list):
                r = [(st, r)]
            out = []
            for s, x in r:
                I.emit(s, c.ctx, c.bb, "call", name, vs, result=x)
                if I.on_result:
                    I.on_result(I, s, c, name, x)
                out.append((s, ready(x)))
            return out
    x = mk("opq", c.site, name, *vs)
    sv, c.name = c.name, name
    I.havoc(st, c, a)
    c.name = sv
    I.emit(st, c.ctx, c.bb, "call", name, vs, result=x)
    if I.on_result:
        I.on_result(I, st, c, name, x)
    return ready(x)


def a_read(I, st, c, args):
    """read(&mut self, buf: &mut [u8]) -> io::Result<usize>: at most buf.len() bytes arrive"""
    bp = innermost(I, st, args[1])
    n = mk("opq", c.site, "nread")
    n.ty = "usize"
    ln = length(rd(I, st, bp))
    s2 = st.copy()
    new = mk("opq", c.site, "netbytes", ln)
    wr(I, st, bp, samelen(I, st, new, ln))
    I.addineq(st, lin_sub(lin(n), lin(ln)))
    e = mk("opq", c.site, "ioerr")
    if I.on_io:
        I.on_io(I, st, c, "read", bp, n)
        I.on_io(I, s2, c, "read_err", bp, n)
    return [(st, ok(n)), (s2, err(e))]


def samelen(I, st, new, ln):
    if is_c(ln):
        new.ty = "#arr:%d" % ln.a[0]
    else:
        d = lin_sub(lin(length(new)), lin(ln))
        I.addineq(st, d)
        I.addineq(st, lin_scale(d, -1))
    return new


def a_read_exact(I, st, c, args):
    bp = innermost(I, st, args[1])
    ln = length(rd(I, st, bp))
    s2 = st.copy()
    new = mk("opq", c.site, "netbytes", ln)
    wr(I, st, bp, samelen(I, st, new, ln))
    wr(I, s2, bp, samelen(I, s2, mk("opq", c.site, "partial", ln), ln))
    if I.on_io:
        I.on_io(I, st, c, "read_exact", bp, ln)
    return [(st, ok(ln)), (s2, err(mk("opq", c.site, "ioerr")))]


def a_recv_from(I, st, c, args):
    bp = innermost(I, st, args[1])
    n = mk("opq", c.site, "nread")
    n.ty = "usize"
    ln = length(rd(I, st, bp))
    s2 = st.copy()
    new = mk("opq", c.site, "netbytes", ln)
    wr(I, st, bp, samelen(I, st, new, ln))
    I.addineq(st, lin_sub(lin(n), lin(ln)))
    if I.on_io:
        I.on_io(I, st, c, "recv_from", bp, n)
    a = mk("opq", c.site, "srcaddr")
    return [(st, ok(tup(n, a))), (s2, err(mk("opq", c.site, "ioerr")))]


def a_bind(I, st, c, args):
    s2 = st.copy()
    return [(st, ok(mk("opq", c.site, "bind"))), (s2, err(mk("opq", c.site, "ioerr")))]


def a_chan_recv(I, st, c, args):
    """recv(&mut self) -> Option<T>: a value, or None when the channel is closed and empty"""
    s2 = st.copy()
    v = mk("opq", c.site, "received")
    rx = args[0]
    if rx.op == "ptr" and rx.a[1]:
        # the channel can't be closed while the struct that holds its receiver holds a sender of it
        w = rd(I, st, rx)
        if w.op == "f" and w.a[2] == "1":
            tx = field(w.a[0], w.a[1], "0")
            p = I.read(st, rx.a[0], rx.a[1][:-1])
            ds = I.struct_fields(p) if p is not None else ()
            if any(f is tx for f in ds):
                return [(st, some(v))]
    return [(st, some(v)), (s2, NONE)]


def a_result(I, st, c, args):
    """an operation that takes nothing back and either works or fails"""
    s2 = st.copy()
    return [(st, ok(UNIT)), (s2, err(mk("opq", c.site, "error")))]


def a_unit(I, st, c, args):
    return UNIT


AWAIT.update({
    "tokio::io::AsyncReadExt::read": a_read,
    "tokio::io::AsyncReadExt::read_exact": a_read_exact,
    "tokio::net::UdpSocket::recv_from": a_recv_from,
    "tokio::sync::mpsc::Receiver::<T>::recv": a_chan_recv,
    "tokio::net::UdpSocket::bind": a_bind,
    "tokio::time::sleep": a_unit,
})


def m_spawn(I, st, c, args):
    I.kill(st, c.site)
    if I.recording:
        I.spawned.append((args[0], st, c))
    return mk("opq", c.site, "JoinHandle")


def m_sha_new(I, st, c, args):
    return agg("openssl::sha::Sha1", "", ["acc"], [mk("empty")])


def m_sha_update(I, st, c, args):
    p = innermost(I, st, args[0])
    v = rd(I, st, p)
    x = I.val(st, rdall(I, st, args[1]))
    wr(I, st, p, agg("openssl::sha::Sha1", "", ["acc"], [cat(field(v, "", "acc"), x)]))
    return UNIT


def sha1(x):
    t = mk("sha1", x)
    t.ty = "#arr:20"
    return t


def m_sha_finish(I, st, c, args):
    return sha1(field(args[0], "", "acc"))


def m_sha1(I, st, c, args):
    return sha1(I.val(st, rdall(I, st, args[0])))


def m_addr_new(I, st, c, args):
    return agg("std::net::SocketAddrV4", "", ["ip", "port"], args)


def m_addr_field(n, ref):
    def f(I, st, c, args):
        p = innermost(I, st, args[0])
        if ref:
            return ptr_to(p, (("f", "", n),), I)
        return field(rd(I, st, p), "", n)
    return f


def m_addr_set(n):
    def f(I, st, c, args):
        wr(I, st, ptr_to(innermost(I, st, args[0]), (("f", "", n),), I), args[1])
        return UNIT
    return f


def m_ip_new(I, st, c, args):
    return agg("std::net::Ipv4Addr", "", ["octets"], [array(args)])


def m_octets(I, st, c, args):
    v = rdall(I, st, args[0])
    t = field(v, "", "octets")
    if t.op not in ("agg",):
        t.ty = t.ty or "#arr:4"
    return t


def m_discriminant(I, st, c, args):
    v = rdall(I, st, args[0])
    d = I.discr_val(v)
    if d is not None:
        r = C(d)
    else:
        r = mk("discr", v)
        t = c.tname(0) or ""
        I.discr_ty.setdefault(r, t.split("<")[0])
    return r


def m_size_of(I, st, c, args):
    t = c.tname(0)
    if t in BITS:
        return C(BITS[t] // 8)
    a = I.prog.adt(t) if t else None
    if a and a.get("size") is not None:
        return C(a["size"])
    return mk("call", "size_of", mk("str", str(t)))


def m_diverge_panic(I, st, c, args):
    I.panic(st, c.ctx, c.bb, c.name)
    return None


def m_unit(I, st, c, args):
    return UNIT


def m_transparent_new(I, st, c, args):
    return args[0]


def m_bitxor(I, st, c, args):
    if c.name.endswith("Add::add") and (c.tname(0) or "") == "std::string::String":
        return cat(I.val(st, args[0]), I.val(st, rdall(I, st, args[1])))
    op = {"bitxor": "BitXor", "bitand": "BitAnd", "bitor": "BitOr", "add": "Add", "sub": "Sub", "mul": "Mul"}[c.name.rsplit("::", 1)[1]]
    a, b = rdall(I, st, args[0]), rdall(I, st, args[1])
    t = (c.tname(0) or "").lstrip("&")
    if t in BITS:
        return binop(op, a, b, t)
    return mk("call", op, I.val(st, a), I.val(st, b))


def m_assign_op(I, st, c, args):
    nm = c.name.rsplit("::", 1)[1]
    v = rd(I, st, args[0])
    t = c.tname(0) or ""
    x = rdall(I, st, args[1])
    if t.startswith("std::string::String"):
        wr(I, st, args[0], cat(v, I.val(st, x)))
    elif t in BITS:
        wr(I, st, args[0], binop({"add_assign": "Add", "sub_assign": "Sub", "mul_assign": "Mul", "bitor_assign": "BitOr", "bitand_assign": "BitAnd", "bitxor_assign": "BitXor"}[nm], v, x, t))
    else:
        wr(I, st, args[0], mk("call", nm, I.val(st, v), I.val(st, x)))
    return UNIT


M = {}
for n in ("std::ops::FnOnce::call_once", "std::ops::FnMut::call_mut", "std::ops::Fn::call"):
    M[n] = m_call_once
M["std::ops::Try::branch"] = m_branch
M["std::ops::FromResidual::from_residual"] = m_from_residual
for t in ("option::Option::<T>", "result::Result::<T, E>"):
    for n in ("unwrap", "expect", "unwrap_unchecked"):
        M["std::%s::%s" % (t, n)] = m_unwrap
for n in ("unwrap_err", "expect_err"):
    M["std::result::Result::<T, E>::" + n] = m_unwrap
M["std::mem::replace"] = m_mem_replace
M["std::mem::take"] = m_mem_take
M["std::mem::swap"] = m_mem_swap
M["std::mem::drop"] = m_unit
M["std::mem::forget"] = m_unit
M["std::mem::size_of"] = m_size_of
M["std::mem::discriminant"] = m_discriminant
M["std::intrinsics::discriminant_value"] = m_discriminant
M["std::default::Default::default"] = m_default
for n in ("std::ops::Deref::deref", "std::ops::DerefMut::deref_mut"):
    M[n] = m_deref
for n in ("std::convert::AsRef::as_ref", "std::convert::AsMut::as_mut", "std::borrow::Borrow::borrow", "std::borrow::BorrowMut::borrow_mut",
          "std::vec::Vec::<T, A>::as_slice", "std::vec::Vec::<T, A>::as_mut_slice", "std::string::String::as_str", "core::str::<impl str>::as_bytes",
          "std::string::String::as_bytes", "std::string::String::as_mut_str", "core::array::<impl [T; N]>::as_slice", "std::array::<impl [T; N]>::as_slice",
          "std::pin::Pin::<Ptr>::as_mut", "std::pin::Pin::<Ptr>::get_mut", "std::pin::Pin::<&'a mut T>::get_unchecked_mut", "std::path::Path::new",
          "std::path::PathBuf::as_path", "std::vec::Vec::<T, A>::as_ptr", "core::slice::<impl [T]>::as_ptr"):
    M[n] = m_view
for n in ("std::clone::Clone::clone", "std::borrow::ToOwned::to_owned", "core::slice::<impl [T]>::to_vec", "std::slice::<impl [T]>::to_vec",
          "std::borrow::Cow::<'_, B>::into_owned", "std::string::String::into_bytes", "std::slice::<impl [T]>::into_vec", "std::sync::Arc::<T>::unwrap_or_clone"):
    M[n] = m_clone
M["std::string::String::into_bytes"] = ident
M["std::borrow::Cow::<'_, B>::into_owned"] = ident
M["std::slice::<impl [T]>::into_vec"] = ident
M["std::slice::<impl [T]>::to_vec"] = m_to_vec
M["core::slice::<impl [T]>::to_vec"] = m_to_vec
M["std::vec::Vec::<T, A>::into_boxed_slice"] = ident
M["std::sync::Mutex::<T>::lock"] = m_lock
for n in ("std::boxed::Box::<T>::new", "std::boxed::Box::<T>::pin", "std::sync::Arc::<T>::new", "std::rc::Rc::<T>::new", "std::pin::Pin::<Ptr>::new_unchecked",
          "std::pin::Pin::<Ptr>::new", "std::convert::identity", "std::hint::must_use", "std::hint::black_box", "std::future::IntoFuture::into_future",
          "tracing::Instrument::instrument", "std::iter::Iterator::by_ref", "std::iter::Iterator::fuse", "std::boxed::Box::<T>::into_pin", "anyhow::__private::must_use",
          "std::num::Wrapping", "std::boxed::box_assume_init_into_vec_unsafe", "std::iter::Iterator::copied_id"):
    M[n] = ident
M["std::cmp::min"] = m_min
M["std::cmp::Ord::min"] = m_min
M["std::cmp::max"] = m_max
M["std::cmp::Ord::max"] = m_max
M["std::cmp::PartialEq::eq"] = m_eq
M["std::cmp::PartialEq::ne"] = m_eq
M["std::cmp::Ord::cmp"] = m_cmp
M["std::cmp::PartialOrd::partial_cmp"] = m_cmp
for n in ("lt", "le", "gt", "ge"):
    M["std::cmp::PartialOrd::" + n] = m_lt
for ty in ("u8", "u16", "u32", "u64", "usize", "i32", "i64", "u128", "isize", "i16", "i8"):
    p = "core::num::<impl %s>::" % ty
    for o, k in (("add", "Add"), ("sub", "Sub"), ("mul", "Mul"), ("div", "Div"), ("rem", "Rem")):
        M[p + "checked_" + o] = m_checked(k)
    M[p + "saturating_sub"] = m_satsub
    M[p + "saturating_add"] = m_satadd
    M[p + "div_ceil"] = m_div_ceil
    for n in ("wrapping_mul", "wrapping_add", "wrapping_sub", "count_ones", "leading_zeros", "trailing_zeros", "abs_diff", "saturating_mul", "reverse_bits", "rotate_left",
              "rotate_right", "swap_bytes", "is_power_of_two", "checked_pow", "rem_euclid", "div_euclid", "unsigned_abs", "count_zeros", "next_multiple_of"):
        M[p + n] = m_intpure(n)
    for n in ("to_be_bytes", "to_le_bytes"):
        M[p + n] = m_to_be_bytes
    for n in ("from_be_bytes", "from_le_bytes"):
        M[p + n] = m_from_be_bytes
M["std::convert::TryInto::try_into"] = m_try_into
M["std::convert::TryFrom::try_from"] = m_try_into
M["std::convert::Into::into"] = m_into
M["std::convert::From::from"] = m_from
for n in ("std::ops::Index::index", "std::ops::IndexMut::index_mut"):
    M[n] = m_index
for n in ("get", "get_mut"):
    M["core::slice::<impl [T]>::" + n] = m_get
for n in ("first", "last", "first_mut", "last_mut"):
    M["core::slice::<impl [T]>::" + n] = m_first
for n in ("core::slice::<impl [T]>::len", "std::vec::Vec::<T, A>::len", "std::collections::HashMap::<K, V, S, A>::len", "std::collections::HashSet::<T, S, A>::len",
          "core::str::<impl str>::len", "std::string::String::len", "std::iter::ExactSizeIterator::len_"):
    M[n] = m_len
for n in ("core::slice::<impl [T]>::is_empty", "std::vec::Vec::<T, A>::is_empty", "std::collections::HashMap::<K, V, S, A>::is_empty",
          "std::collections::HashSet::<T, S, A>::is_empty", "core::str::<impl str>::is_empty", "std::string::String::is_empty"):
    M[n] = m_is_empty
V = "std::vec::Vec::<T, A>::"
M[V + "push"] = m_push
M["vmodel::push_vec"] = m_push
M[V + "extend_from_slice"] = m_extend_slice
M[V + "append"] = m_append
M[V + "pop"] = m_pop
M[V + "remove"] = m_vremove
M[V + "swap_remove"] = m_vremove
M[V + "truncate"] = m_truncate
M[V + "clear"] = m_clear
M["std::string::String::clear"] = m_clear
M["std::collections::HashMap::<K, V, S, A>::clear"] = m_clear
M["std::collections::HashSet::<T, S, A>::clear"] = m_clear
M[V + "retain"] = m_retain
M[V + "reserve"] = m_unit
M["std::collections::HashMap::<K, V, S, A>::reserve"] = m_unit
for n in ("std::slice::<impl [T]>::sort", "core::slice::<impl [T]>::sort_unstable", "core::slice::<impl [T]>::reverse", "rand::prelude::SliceRandom::shuffle"):
    M[n] = m_permute
M["std::vec::from_elem"] = m_from_elem
for n in ("copy_from_slice", "clone_from_slice"):
    M["core::slice::<impl [T]>::" + n] = m_copy_from_slice
M["core::slice::<impl [T]>::fill"] = m_fill
M["core::slice::<impl [T]>::copy_within"] = m_copy_within
M["core::slice::<impl [T]>::split_at"] = m_split_at
M["core::slice::<impl [T]>::split_at_mut"] = m_split_at
M["core::slice::<impl [T]>::contains"] = m_contains
M["std::slice::<impl [T]>::join"] = m_join
M["std::slice::<impl [T]>::concat"] = m_join
for n in ("std::vec::Vec::<T>::new", "std::vec::Vec::<T>::with_capacity", "std::string::String::new", "std::string::String::with_capacity", "vmodel::empty_vec",
          "std::vec::Vec::<T, A>::new_in"):
    M[n] = m_vec_new
for n in ("std::collections::HashMap::<K, V>::new", "std::collections::HashMap::<K, V>::with_capacity", "std::collections::HashSet::<T>::new",
          "std::collections::HashSet::<T>::with_capacity", "vmodel::empty_map"):
    M[n] = m_map_new
H = "std::collections::HashMap::<K, V, S, A>::"
S_ = "std::collections::HashSet::<T, S, A>::"
for n in ("get", "get_mut", "get_key_value"):
    M[H + n] = m_map_get
M[S_ + "get"] = m_map_get
for n in ("insert",):
    M[H + n] = m_map_insert
    M[S_ + n] = m_map_insert
for n in ("remove", "remove_entry"):
    M[H + n] = m_map_remove
M[S_ + "remove"] = m_map_remove
M[H + "contains_key"] = m_map_contains
M[S_ + "contains"] = m_map_contains
M[H + "entry"] = m_map_entry
for n in ("iter", "iter_mut", "keys", "values", "values_mut"):
    M[H + n] = m_map_iter(n)
M[S_ + "iter"] = m_map_iter("setiter")
O = "std::collections::hash_map::OccupiedEntry::<'a, K, V, A>::"
for n in ("get", "get_mut", "into_mut"):
    M[O + n] = m_occ_get
M[O + "insert"] = m_occ_insert
M[O + "remove"] = m_occ_remove
M["std::collections::hash_map::VacantEntry::<'a, K, V, A>::insert"] = m_vac_insert
M["std::collections::hash_map::Entry::<'a, K, V, A>::or_default"] = m_or_default
M["vmodel::map_insert"] = m_vm_insert
M["std::iter::Iterator::next"] = m_next
M["std::iter::DoubleEndedIterator::next_back"] = m_next_back
M["std::ops::RangeInclusive::<Idx>::new"] = m_rangeincl_new
for n in ("std::ops::Range::<Idx>::contains", "std::ops::RangeInclusive::<Idx>::contains", "std::ops::RangeFrom::<Idx>::contains", "std::ops::RangeTo::<Idx>::contains"):
    M[n] = m_range_contains
M["std::iter::IntoIterator::into_iter"] = m_into_iter
M["vmodel::take_elem"] = m_take_elem
M["vmodel::any_elem"] = m_vm_any_elem
M["vmodel::nondet"] = m_nondet
M["vmodel::absorb"] = m_absorb
M["std::iter::Iterator::collect"] = m_collect
M["std::iter::Extend::extend"] = m_extend
for n in ("push_str", "push"):
    M["std::string::String::" + n] = m_string_push
M["std::path::PathBuf::push"] = None
M["std::string::ToString::to_string"] = m_to_string
for n in ("core::fmt::rt::Argument::<'_>::new_debug", "core::fmt::rt::Argument::<'_>::new_display", "core::fmt::rt::Argument::<'_>::new_lower_hex",
          "std::fmt::Arguments::<'a>::new", "std::fmt::Arguments::<'a>::from_str", "std::fmt::Arguments::<'a>::from_str_nonconst", "std::fmt::format"):
    M[n] = m_fmt("fmt")
M["std::future::Future::poll"] = m_poll
M["std::future::get_context"] = ident
for n in ("tokio::macros::support::poll_fn", "std::future::poll_fn", "std::future::PollFn", "tokio::future::poll_fn::poll_fn"):
    M[n] = m_poll_fn
for n in ("tokio::spawn", "tokio::task::spawn", "tokio::runtime::Runtime::block_on", "tokio::runtime::Runtime::spawn"):
    M[n] = m_spawn
M["openssl::sha::Sha1::new"] = m_sha_new
M["openssl::sha::Sha1::update"] = m_sha_update
M["openssl::sha::Sha1::finish"] = m_sha_finish
M["openssl::sha::sha1"] = m_sha1
M["std::net::SocketAddrV4::new"] = m_addr_new
M["std::net::SocketAddrV4::ip"] = m_addr_field("ip", True)
M["std::net::SocketAddrV4::port"] = m_addr_field("port", False)
M["std::net::SocketAddrV4::set_port"] = m_addr_set("port")
M["std::net::SocketAddrV4::set_ip"] = m_addr_set("ip")
M["std::net::Ipv4Addr::new"] = m_ip_new
M["std::net::Ipv4Addr::octets"] = m_octets
for n in ("bitxor", "bitand", "bitor", "add", "sub", "mul"):
    cap = {"bitxor": "BitXor", "bitand": "BitAnd", "bitor": "BitOr", "add": "Add", "sub": "Sub", "mul": "Mul"}[n]
    M["std::ops::%s::%s" % (cap, n)] = m_bitxor
    M["std::ops::%sAssign::%s_assign" % (cap, n)] = m_assign_op
for n in ("core::str::<impl str>::starts_with", "core::str::<impl str>::ends_with", "core::slice::<impl [T]>::starts_with", "core::slice::<impl [T]>::ends_with",
          "core::str::<impl str>::contains", "std::path::Path::is_absolute", "std::path::Path::has_root", "core::str::<impl str>::eq_ignore_ascii_case"):
    M[n] = pure(n.rsplit("::", 1)[1], "bool")
for n in ("std::path::Path::join", "std::path::Path::components", "std::path::Path::parent", "std::path::Path::file_name", "core::str::<impl str>::trim",
          "core::str::<impl str>::to_lowercase", "core::str::<impl str>::chars", "core::str::<impl str>::bytes", "std::time::Duration::from_secs", "std::time::Duration::from_millis", "core::str::<impl str>::split",
          "std::time::Duration::from_secs_f64", "std::time::Duration::as_secs", "urlencoding::encode_binary", "urlencoding::encode", "std::str::from_utf8",
          "std::string::String::from_utf8", "std::string::String::from_utf8_lossy", "std::net::Ipv4Addr::is_unspecified"):
    M[n] = pure(n.rsplit("::", 1)[1])
M = {k: v for k, v in M.items() if v is not None}


def m_pathbuf_push(I, st, c, args):
    v = rd(I, st, args[0])
    wr(I, st, args[0], mk("call", "pathpush", v, I.val(st, rdall(I, st, args[1]))))
    return UNIT


M["std::path::PathBuf::push"] = m_pathbuf_push



# ---- serde serializers: an abstract "bincode, big endian, fixed width" byte sink
BSER = "{bser}"


def bser(x):
    return agg(BSER, "", ["out"], [x])


def enc_be(v, ty):
    n = BITS[ty] // 8
    if n == 1:
        return array([v])
    return array([byte_of(v, 8 * (n - 1 - i), n) for i in range(n)])


def m_bincode_serialize(I, st, c, args):
    p = innermost(I, st, args[1])
    v = rd(I, st, p)
    b = I.find_impl("serde::Serialize", "serialize", v)
    if b is None:
        ty = (c.tname(1) or "").lstrip("&")
        for x in I.prog.impls.get(("serde::Serialize", "serialize"), ()):
            if (x.impl_self or "") == ty:
                b = x
    if b is None or "bigendian" not in str(args[0].a if args[0].op == "agg" else ""):
        return NotImplemented
    return ("inline", b, [p, bser(mk("empty"))], {})


def m_bopt(nm):
    def f(I, st, c, args):
        old = args[0].a[1] if args and args[0].op == "agg" else ""
        return agg("{bopt}", (old + "+" + nm).strip("+"), [], [])
    return f


def is_bser(I, st, x):
    v = rdall(I, st, x)
    return v if v.op == "agg" and v.a[0] == BSER else None


def m_ser_int(ty):
    def f(I, st, c, args):
        s = is_bser(I, st, args[0])
        if s is None:
            return NotImplemented
        return ok(cat(field(s, "", "out"), enc_be(args[1], ty)))
    return f


def m_ser_open(I, st, c, args):
    s = is_bser(I, st, args[0])
    if s is None:
        return NotImplemented
    return ok(s)


def m_ser_elem(I, st, c, args):
    s = is_bser(I, st, args[0])
    if s is None:
        return NotImplemented
    p = innermost(I, st, args[0])
    v = rdall(I, st, args[-1])
    ty = (c.tname(1) or "").lstrip("&")
    if ty not in BITS and v.ty in BITS:
        ty = v.ty
    if ty in BITS:
        e = enc_be(v, ty)
    else:
        b = I.find_impl("serde::Serialize", "serialize", v)
        for x in I.prog.impls.get(("serde::Serialize", "serialize"), ()):
            if b is None and (x.impl_self or "") == ty:
                b = x
        if b is not None:
            def post(I, st, r):
                o = field(r, "Ok", "0")
                wr(I, st, p, bser(cat(field(s, "", "out"), o)))
                return ok(UNIT)
            return ("inline", b, [innermost(I, st, args[-1]), bser(mk("empty"))], {"post": post})
        e = mk("call", "enc", v, ty)
    wr(I, st, p, bser(cat(field(s, "", "out"), e)))
    return ok(UNIT)


def m_ser_end(I, st, c, args):
    s = is_bser(I, st, args[0])
    if s is None:
        return NotImplemented
    return ok(field(s, "", "out"))


M["bincode::DefaultOptions::new"] = m_bopt("default")
M["bincode::Options::with_big_endian"] = m_bopt("bigendian")
M["bincode::Options::with_fixint_encoding"] = m_bopt("fixint")
M["bincode::Options::serialize"] = m_bincode_serialize
for _t in ("u8", "u16", "u32", "u64"):
    M["serde::Serializer::serialize_" + _t] = m_ser_int(_t)
for _n in ("tuple", "struct", "seq"):
    M["serde::Serializer::serialize_" + _n] = m_ser_open
M["serde::ser::SerializeTuple::serialize_element"] = m_ser_elem
M["serde::ser::SerializeSeq::serialize_element"] = m_ser_elem
M["serde::ser::SerializeStruct::serialize_field"] = m_ser_elem
for _n in ("SerializeTuple", "SerializeSeq", "SerializeStruct"):
    M["serde::ser::%s::end" % _n] = m_ser_end


def flat_bytes(I, v, ty, d=0):
    """the bytes of a repr(C) value made of u8s only"""
    if ty == "u8":
        return array([v])
    if ty.startswith("[u8;"):
        return v
    a = I.prog.adt(ty)
    if a and a["kind"] == "struct" and a.get("offsets") is not None and d < 4:
        # the layout rustc chose; padding bytes are not followed
        r, at = mk("empty"), 0
        for off, (n, t) in sorted(zip(a["offsets"], a["variants"][0]["fields"])):
            x = flat_bytes(I, field(v, "", n), t, d + 1)
            if x is None or off != at:
                return None
            at += size_of(I, t)
            r = concat(r, x)
        return r if at == a["size"] else None
    return None


def size_of(I, t):
    if t in BITS:
        return BITS[t] // 8
    if t.startswith("[u8; "):
        return int(t[5:-1])
    a = I.prog.adt(t)
    return a["size"] if a and a.get("size") is not None else -1000


def m_from_raw_parts(I, st, c, args):
    b, pa = I.deref(args[0])
    v = I.read(st, b, pa)
    ty = v.a[0] if v.op == "agg" else (v.ty[5:] if isinstance(v.ty, str) and v.ty.startswith("#adt:") else None)
    if ty is None:
        return NotImplemented
    x = flat_bytes(I, v, ty)
    if x is None:
        return NotImplemented
    r = mk("cref", mk("raw", args[0], x))
    whole = is_c(args[1]) and args[1].a[0] == (I.prog.adt(ty) or {}).get("size")
    I.regions[r] = x if whole else slice_(x, C(0), args[1])
    return mk("ptr", I.M(r), (), False)


M["std::slice::from_raw_parts"] = m_from_raw_parts


def a_bcast_recv(I, st, c, args):
    # the receiver keeps a sender of its own (never Closed) and one message is ever sent into a
    # channel of capacity one (never Lagged); rule C14 checks both facts
    return ok(UNIT)


AWAIT["tokio::sync::broadcast::Receiver::<T>::recv"] = a_bcast_recv


def m_rng_n(I, st, c, args):
    r = I.fresh(st, c, "rng")
    r.ty = "u32"
    I.addineq(st, lin_add(lin_sub(lin(r), lin(args[0])), ((), 1)))
    return r


M["tokio::macros::support::thread_rng_n"] = m_rng_n
M["std::iter::Iterator::try_fold"] = m_try("try_fold")
M["std::iter::Iterator::try_for_each"] = m_try("try_for_each")


def m_flatten(I, st, c, args):
    """over a collection of options; the rest is written in Rust"""
    m = re.match(r"(?:std::slice::Iter(?:Mut)?<'[^,]*, |std::slice::Iter(?:Mut)?<|std::array::IntoIter<|std::vec::IntoIter<)std::option::Option<", c.tname(0) or "")
    if not m:
        return NotImplemented
    k = "it_flatten_opt" + ("_mut" if "IterMut" in m.group() else "_ref" if "slice::Iter" in m.group() else "")
    return ("inline", model_body(I, k), [args[0]], {})


M["std::iter::Iterator::flatten"] = m_flatten
MODELS = M

# ------------------------------------------------------------------ models written in Rust
R = {}


def r(prefix, names, mp):
    for n in names.split():
        R[prefix + n] = "vmodel::" + mp + n


r("std::option::Option::<T>::", "map inspect and_then and ok_or ok_or_else unwrap_or unwrap_or_else map_or map_or_else is_some is_none is_some_and is_none_or as_ref as_mut "
  "or or_else filter zip take replace insert get_or_insert_with iter", "opt_")
R["std::option::Option::<T>::as_deref"] = "vmodel::opt_as_ref"
R["std::option::Option::<T>::as_deref_mut"] = "vmodel::opt_as_mut"
r("std::option::Option::<&T>::", "copied cloned", "opt_")
r("std::option::Option::<&mut T>::", "copied cloned", "opt_")
R["std::option::Option::<std::option::Option<T>>::flatten"] = "vmodel::opt_flatten"
R["std::option::Option::<std::result::Result<T, E>>::transpose"] = "vmodel::opt_transpose"
r("std::result::Result::<T, E>::", "map map_err and_then and or_else ok err is_ok is_err is_ok_and is_err_and unwrap_or unwrap_or_else map_or map_or_else as_ref as_mut "
  "inspect_err inspect", "res_")
r("core::bool::<impl bool>::", "then then_some", "bool_")
IT = "std::iter::Iterator::"
r(IT, "map filter filter_map enumerate take skip step_by take_while skip_while chain zip cloned rev peekable flatten flat_map inspect count last nth for_each fold reduce "
  "all any find find_map position sum", "it_")
R[IT + "copied"] = "vmodel::it_cloned"
R[IT + "product"] = "vmodel::it_sum"
for n in ("max_by_key", "min_by_key"):
    R[IT + n] = "vmodel::it_pick_key"
for n in ("max_by", "min_by"):
    R[IT + n] = "vmodel::it_pick_cmp"
for n in ("max", "min"):
    R[IT + n] = "vmodel::it_pick"
R["std::iter::Peekable::<I>::peek"] = "vmodel::peekable_peek"
SL = "core::slice::<impl [T]>::"
R[SL + "iter"] = "vmodel::slice_iter"
R[SL + "iter_mut"] = "vmodel::slice_iter_mut"
R[SL + "chunks"] = "vmodel::chunks"
R[SL + "chunks_exact"] = "vmodel::chunks_exact"
R[SL + "windows"] = "vmodel::windows"
EN = "std::collections::hash_map::Entry::<'a, K, V, A>::"
r(EN, "and_modify or_insert or_insert_with", "entry_")
RUST_MODELS = R

# functions that call their closure on elements of a sequence and then permute it
OFFER = {"std::slice::<impl [T]>::sort_by": "offer_pairs", "std::slice::<impl [T]>::sort_by_key": "offer_each", "std::slice::<impl [T]>::sort_by_cached_key": "offer_each",
         "core::slice::<impl [T]>::sort_unstable_by": "offer_pairs", "core::slice::<impl [T]>::sort_unstable_by_key": "offer_each"}


def m_offer(I, st, c, args):
    # permute first (same multiset), then let the closure see any elements
    m_permute(I, st, c, args)
    return ("inline", model_body(I, OFFER[c.name]), args, {})


for n in OFFER:
    MODELS[n] = m_offer


def m_arr_map(I, st, c, args):
    return ("inline", model_body(I, "arr_map"), args, {})


MODELS["std::array::<impl [T; N]>::map"] = m_arr_map


def m_span_disabled(I, st, c, args):
    """#[instrument] awaits the same future on both branches; one of them is followed"""
    return C(1)


M["tracing::Span::is_disabled"] = m_span_disabled
