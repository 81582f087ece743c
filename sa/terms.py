"""Hash-consed value terms and the linear-arithmetic view of them."""
import sys
sys.setrecursionlimit(20000)


import os
SALT = int(os.environ.get("SALT", "1"))


class Term:
    __slots__ = ("op", "a", "id", "ty", "_lin", "_sz")

    def __hash__(self):     # sets are walked in the same order in every run
        return (self.id * SALT) & 0xffffffff

    def __repr__(self):
        return show(self)


_tab = {}


def mk(op, *a):
    k = (op,) + tuple(("T", x.id) if isinstance(x, Term) else x for x in a)
    t = _tab.get(k)
    if t is None:
        t = Term()
        t.op = op
        t.a = a
        t.id = len(_tab)
        t.ty = None
        t._lin = None
        t._sz = None
        _tab[k] = t
    return t


UNIT = mk("unit")
UNDEF = mk("undef")
MOVED = mk("moved")


def C(v):
    return mk("c", int(v))


TRUE = C(1)
FALSE = C(0)


def is_c(t):
    return t.op == "c"


def size(t, cap=400):
    """Number of nodes (cached); used to cut term growth."""
    if t._sz is not None:
        return t._sz
    n = 1
    for x in t.a:
        if isinstance(x, Term):
            n += size(x)
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, Term):
                    n += size(y)
    t._sz = min(n, 1 << 30)
    return t._sz


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        for y in x.a:
            if isinstance(y, Term):
                st.append(y)
            elif isinstance(y, tuple):
                for z in y:
                    if isinstance(z, Term):
                        st.append(z)
                    elif isinstance(z, tuple):
                        for w in z:
                            if isinstance(w, Term):
                                st.append(w)


def contains(t, pred):
    for x in subterms(t):
        if pred(x):
            return True
    return False


def mentions(t, u):
    return contains(t, lambda x: x is u)


BITS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128, "usize": 64,
        "i8": 8, "i16": 16, "i32": 32, "i64": 64, "i128": 128, "isize": 64, "bool": 1, "char": 21}


def ty_range(s):
    if s is None or s not in BITS:
        return None
    b = BITS[s]
    if s[0] == "i":
        return (-(1 << (b - 1)), (1 << (b - 1)) - 1)
    return (0, (1 << b) - 1)


# ---------------------------------------------------------------- constructors
def agg(kind, variant, names, vals):
    """kind: adt path / '()' / 'array' / closure or coroutine key prefixed by '{}'."""
    return mk("agg", kind, variant, tuple(names), tuple(vals)) if False else _agg(kind, variant, tuple(names), tuple(vals))


def _agg(kind, variant, names, vals):
    k = ("agg", kind, variant, names, tuple(v.id for v in vals))
    t = _tab.get(k)
    if t is None:
        t = Term()
        t.op = "agg"
        t.a = (kind, variant, names, vals)
        t.id = len(_tab)
        t.ty = None
        t._lin = None
        t._sz = None
        _tab[k] = t
    return t


def tup(*vals):
    return agg("()", "", [str(i) for i in range(len(vals))], vals)


def some(v):
    return agg("std::option::Option", "Some", ["0"], [v])


NONE = agg("std::option::Option", "None", [], [])


def ok(v):
    return agg("std::result::Result", "Ok", ["0"], [v])


def err(v):
    return agg("std::result::Result", "Err", ["0"], [v])


def ready(v):
    return agg("std::task::Poll", "Ready", ["0"], [v])


def field(t, variant, name):
    """read field; variant '' for structs/tuples"""
    while True:
        if t.op == "agg":
            if variant == t.a[1] or variant == "" or t.a[1] == "":
                try:
                    return t.a[3][t.a[2].index(name)]
                except ValueError:
                    return mk("bad", t, variant, name)
            return mk("bad", t, variant, name)
        if t.op == "upd":
            k = t.a[1]
            if k == ("f", variant, name):
                return t.a[2]
            if k[0] == "f" and k[1] == variant:
                t = t.a[0]
                continue
            if k[0] == "f":
                t = t.a[0]
                continue
            return mk("f", t, variant, name)
        if t.op in ("moved", "undef"):
            return t
        r = mk("f", t, variant, name)
        if CANON is not None:
            r = CANON("f", r) or r
        return r


def elem(t, i):
    """element read t[i] (i is a term)"""
    while True:
        if t.op == "agg" and t.a[0] == "array" and is_c(i):
            n = i.a[0]
            if 0 <= n < len(t.a[3]):
                return t.a[3][n]
            return mk("bad", t, "idx", str(n))
        if t.op == "bytes" and is_c(i) and 0 <= i.a[0] < len(t.a[0]):
            return C(t.a[0][i.a[0]])
        if t.op == "upd":
            k = t.a[1]
            if k[0] == "i":
                if k[1] is i:
                    return t.a[2]
                if is_c(k[1]) and is_c(i):
                    t = t.a[0]
                    continue
                d = lin_sub(lin(k[1]), lin(i))
                if not d[0] and d[1] != 0:
                    t = t.a[0]
                    continue
            if k[0] == "s":
                # write of a sub-range
                lo, hi = k[1], k[2]
                if is_c(lo) and is_c(hi) and is_c(i):
                    if lo.a[0] <= i.a[0] < hi.a[0]:
                        return elem(t.a[2], C(i.a[0] - lo.a[0]))
                    t = t.a[0]
                    continue
            r = mk("elem", t, i)
            return r
        if t.op == "slice":
            return elem(t.a[0], badd(t.a[1], i))
        if t.op == "repeat":
            return t.a[0]
        if t.op == "concat" and is_c(i):
            # concat of parts with constant lengths
            pos = 0
            for p in t.a[0]:
                n = length(p)
                if not is_c(n):
                    break
                if i.a[0] < pos + n.a[0]:
                    return elem(p, C(i.a[0] - pos))
                pos += n.a[0]
        if t.op in ("moved", "undef"):
            return t
        return mk("elem", t, i)


def slice_(t, lo, hi):
    if t.op == "slice":
        return slice_(t.a[0], badd(t.a[1], lo), badd(t.a[1], hi))
    if is_c(lo) and is_c(hi) and lo.a[0] <= hi.a[0]:
        if t.op == "agg" and t.a[0] == "array" and hi.a[0] <= len(t.a[3]):
            v = t.a[3][lo.a[0]:hi.a[0]]
            return agg("array", "", [str(i) for i in range(len(v))], v)
        if t.op == "bytes" and hi.a[0] <= len(t.a[0]):
            return mk("bytes", t.a[0][lo.a[0]:hi.a[0]])
    if is_c(lo) and lo.a[0] == 0 and hi is length(t):
        return t
    return mk("slice", t, lo, hi)


def length(t):
    if t.op == "agg" and t.a[0] == "array":
        return C(len(t.a[3]))
    if t.op == "bytes":
        return C(len(t.a[0]))
    if t.op == "str":
        return C(len(t.a[0].encode()))
    if t.op == "slice":
        return bsub(t.a[2], t.a[1])
    if t.op == "upd" and t.a[1][0] in ("i", "s"):
        return length(t.a[0])
    if t.op == "repeat":
        return t.a[1]
    if t.op == "empty":
        return C(0)
    if t.op == "concat":
        r = C(0)
        for p in t.a[0]:
            r = badd(r, length(p))
        return r
    if t.ty and isinstance(t.ty, str) and t.ty.startswith("#arr:"):
        return C(int(t.ty[5:]))
    if CANON is not None:
        r = CANON("len", t)
        if r is not None:
            return r
    r = mk("len", t)
    r.ty = "usize"
    return r


CANON = None      # lemma about values that are not tracked: (what, term) -> term or None


def concat(*ps):
    out = []
    for p in ps:
        if p.op == "empty":
            continue
        if p.op == "concat":
            out.extend(p.a[0])
        else:
            out.append(p)
    # merge neighbouring literal arrays
    m = []
    for p in out:
        if p.op == "agg" and p.a[0] == "array" and not p.a[3]:
            continue
        if m and p.op == "agg" and p.a[0] == "array" and m[-1].op == "agg" and m[-1].a[0] == "array":
            v = m[-1].a[3] + p.a[3]
            m[-1] = agg("array", "", [str(i) for i in range(len(v))], v)
        else:
            m.append(p)
    if not m:
        return mk("empty")
    if len(m) == 1:
        return m[0]
    return _concat(tuple(m))


def _concat(m):
    k = ("concat", tuple(x.id for x in m))
    t = _tab.get(k)
    if t is None:
        t = Term()
        t.op = "concat"
        t.a = (m,)
        t.id = len(_tab)
        t.ty = None
        t._lin = None
        t._sz = None
        _tab[k] = t
    return t


def array(vals):
    return agg("array", "", [str(i) for i in range(len(vals))], vals)


def upd(t, key, v):
    """functional update. key: ('f',variant,name) | ('i',term) | ('s',lo,hi)"""
    if v.op == "f" and key[0] == "f" and v.a[0] is t and v.a[1] == key[1] and v.a[2] == key[2]:
        return t
    if t.op == "agg":
        if key[0] == "f":
            if key[2] in t.a[2] and (key[1] == t.a[1] or key[1] == ""):
                i = t.a[2].index(key[2])
                vals = list(t.a[3])
                vals[i] = v
                return agg(t.a[0], t.a[1], t.a[2], vals)
        if key[0] == "i" and t.a[0] == "array" and is_c(key[1]) and 0 <= key[1].a[0] < len(t.a[3]):
            vals = list(t.a[3])
            vals[key[1].a[0]] = v
            return agg("array", "", t.a[2], vals)
        if key[0] == "s" and t.a[0] == "array" and is_c(key[1]) and is_c(key[2]):
            lo, hi = key[1].a[0], key[2].a[0]
            if 0 <= lo <= hi <= len(t.a[3]):
                vals = list(t.a[3])
                for j in range(lo, hi):
                    vals[j] = elem(v, C(j - lo))
                return agg("array", "", t.a[2], vals)
    if t.op == "upd" and key[0] == "f":
        k = t.a[1]
        if k[0] == "f":
            if k == key:
                return upd(t.a[0], key, v)
            # keep field updates sorted so that the same record has one shape
            if (k[1], k[2]) > (key[1], key[2]):
                return _upd(upd(t.a[0], key, v), k, t.a[2])
    if t.op == "upd" and key[0] == "i" and t.a[1][0] == "i" and t.a[1][1] is key[1]:
        return _upd(t.a[0], key, v)
    if t.op == "upd" and key[0] == "s" and t.a[1][0] == "s" and t.a[1][1] is key[1] and t.a[1][2] is key[2]:
        return _upd(t.a[0], key, v)
    return _upd(t, key, v)


def _upd(t, key, v):
    k = ("upd", t.id, tuple(x.id if isinstance(x, Term) else x for x in key), v.id)
    r = _tab.get(k)
    if r is None:
        r = Term()
        r.op = "upd"
        r.a = (t, key, v)
        r.id = len(_tab)
        r.ty = t.ty
        r._lin = None
        r._sz = None
        _tab[k] = r
    return r


# ---------------------------------------------------------------- arithmetic
def lin(t):
    """linear view: (dict atom->coef as sorted tuple, const)"""
    if t._lin is not None:
        return t._lin
    if t.op == "c":
        r = ((), t.a[0])
    elif t.op == "sum":
        r = (t.a[0], t.a[1])
    else:
        r = (((t, 1),), 0)
    t._lin = r
    return r


def _norm(d, c):
    items = tuple(sorted(((k, v) for k, v in d.items() if v != 0), key=lambda kv: kv[0].id))
    return (items, c)


def lin_add(x, y, k=1):
    d = dict(x[0])
    for a, v in y[0]:
        d[a] = d.get(a, 0) + k * v
    return _norm(d, x[1] + k * y[1])


def lin_sub(x, y):
    return lin_add(x, y, -1)


def lin_scale(x, k):
    return (tuple((a, v * k) for a, v in x[0]) if k else (), x[1] * k)


def from_lin(l, ty=None):
    items, c = l
    if not items:
        return C(c)
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    k = ("sum", tuple((a.id, v) for a, v in items), c)
    t = _tab.get(k)
    if t is None:
        t = Term()
        t.op = "sum"
        t.a = (items, c)
        t.id = len(_tab)
        t.ty = ty
        t._lin = (items, c)
        t._sz = sum(size(a) for a, _ in items) + 1
        _tab[k] = t
    if ty and not t.ty:
        t.ty = ty
    return t


def badd(a, b, ty=None):
    return from_lin(lin_add(lin(a), lin(b)), ty or a.ty or b.ty)


def bsub(a, b, ty=None):
    return from_lin(lin_sub(lin(a), lin(b)), ty or a.ty or b.ty)


def bmul(a, b, ty=None):
    if is_c(a):
        return from_lin(lin_scale(lin(b), a.a[0]), ty or b.ty)
    if is_c(b):
        return from_lin(lin_scale(lin(a), b.a[0]), ty or a.ty)
    # distribute over sums of atoms to keep a polynomial normal form
    la, lb = lin(a), lin(b)
    r = ((), la[1] * lb[1])
    for x, v in la[0]:
        for y, w in lb[0]:
            r = lin_add(r, (((_prod(x, y, ty), v * w),), 0))
    for x, v in la[0]:
        if lb[1]:
            r = lin_add(r, (((x, v * lb[1]),), 0))
    for y, w in lb[0]:
        if la[1]:
            r = lin_add(r, (((y, w * la[1]),), 0))
    return from_lin(r, ty)


def _factors(x):
    return list(x.a) if x.op == "mul" else [x]


def _prod(x, y, ty=None):
    fs = sorted(_factors(x) + _factors(y), key=lambda t: t.id)
    t = mk("mul", *fs)
    if ty and not t.ty:
        t.ty = ty
    return t


def lanes_of(t):
    """byte lanes: dict shift->byte term, or None"""
    if t.op == "lanes":
        return dict(t.a[0])
    if t.op == "c" and t.a[0] == 0:
        return {}
    if t.ty == "u8":
        return {0: t}
    if t.op == "sum" and t.a[1] == 0 and len(t.a[0]) == 1:
        x, k = t.a[0][0]
        if k > 0 and (k & (k - 1)) == 0 and (k.bit_length() - 1) % 8 == 0:
            l = lanes_of(x)
            if l is not None:
                return {s + k.bit_length() - 1: b for s, b in l.items()}
    if t.op == "sum" and t.a[1] == 0:
        out = {}
        for x, k in t.a[0]:
            if k > 0 and (k & (k - 1)) == 0 and (k.bit_length() - 1) % 8 == 0:
                l = lanes_of(x)
                if l is None:
                    return None
                for s, b in l.items():
                    s += k.bit_length() - 1
                    if s in out:
                        return None
                    out[s] = b
            else:
                return None
        return out
    return None


def mk_lanes(d, ty=None):
    d = {s: b for s, b in d.items() if not (is_c(b) and b.a[0] == 0)}
    if not d:
        return C(0)
    if all(is_c(b) for b in d.values()):
        return C(sum(b.a[0] << s for s, b in d.items()))
    # all lanes of one integer put back together
    items = tuple(sorted(d.items()))
    if items[0][1].op == "byte":
        x = items[0][1].a[0]
        n = items[0][1].a[2]
        if len(items) == n and all(b.op == "byte" and b.a[0] is x and b.a[1] == s for s, b in items):
            return x
    if len(items) == 1 and items[0][0] == 0:
        return items[0][1]
    k = ("lanes", tuple((s, b.id) for s, b in items))
    t = _tab.get(k)
    if t is None:
        t = Term()
        t.op = "lanes"
        t.a = (items,)
        t.id = len(_tab)
        t.ty = ty
        t._lin = None
        t._sz = sum(size(b) for _, b in items) + 1
        _tab[k] = t
    return t


def binop(op, a, b, ty=None):
    """ty: operand type name"""
    if op in ("Add", "AddUnchecked"):
        if ty in ("u16", "u32", "u64", "usize"):
            la, lb = lanes_of(a), lanes_of(b)
            if la and lb and not (set(la) & set(lb)):
                if not (la.keys() == {0} and lb.keys() == {0}):
                    la.update(lb)
                    return mk_lanes(la, ty)
        if ty in ("f64", "f32"):
            return mk("bin", op, a, b)
        return badd(a, b, ty)
    if op in ("Sub", "SubUnchecked"):
        if ty in ("f64", "f32"):
            return mk("bin", op, a, b)
        return bsub(a, b, ty)
    if op in ("Mul", "MulUnchecked"):
        if ty in ("f64", "f32"):
            return mk("bin", op, a, b)
        return bmul(a, b, ty)
    if op in ("Shl", "ShlUnchecked"):
        if is_c(b):
            if is_c(a):
                r = ty_range(ty)
                v = a.a[0] << b.a[0]
                if r:
                    v &= (1 << BITS[ty]) - 1
                return C(v)
            la = lanes_of(a)
            if la is not None and b.a[0] % 8 == 0:
                n = BITS.get(ty, 64)
                return mk_lanes({s + b.a[0]: x for s, x in la.items() if s + b.a[0] < n}, ty)
        t = mk("bin", "Shl", a, b)
        t.ty = t.ty or ty
        return t
    if op in ("Shr", "ShrUnchecked"):
        if is_c(a) and is_c(b):
            return C(a.a[0] >> b.a[0])
        if is_c(b) and ty and ty[0] == "u":
            return binop("Div", a, C(1 << b.a[0]), ty)
        t = mk("bin", "Shr", a, b)
        t.ty = t.ty or ty
        return t
    if op == "BitOr":
        if a is b:
            return a
        if is_c(a) and is_c(b):
            return C(a.a[0] | b.a[0])
        if is_c(a) and a.a[0] == 0:
            return b
        if is_c(b) and b.a[0] == 0:
            return a
        if ty == "bool":
            if a is TRUE or b is TRUE:
                return TRUE
        la, lb = lanes_of(a), lanes_of(b)
        if la and lb and not (set(la) & set(lb)):
            la.update(lb)
            return mk_lanes(la, ty)
    if op == "BitAnd":
        if a is b:
            return a
        if is_c(a) and is_c(b):
            return C(a.a[0] & b.a[0])
        if (is_c(a) and a.a[0] == 0) or (is_c(b) and b.a[0] == 0):
            return C(0)
        if ty == "bool":
            if a is TRUE:
                return b
            if b is TRUE:
                return a
    if op == "BitXor":
        if is_c(a) and is_c(b):
            return C(a.a[0] ^ b.a[0])
        if a is b:
            return C(0)
        if ty == "bool":
            if a is TRUE:
                return notop(b)
            if b is TRUE:
                return notop(a)
            if a is FALSE:
                return b
            if b is FALSE:
                return a
    if op in ("Div", "Rem"):
        if is_c(a) and is_c(b) and b.a[0] != 0:
            q = abs(a.a[0]) // abs(b.a[0])
            if (a.a[0] < 0) != (b.a[0] < 0):
                q = -q
            return C(q if op == "Div" else a.a[0] - q * b.a[0])
        if op == "Div" and is_c(b) and b.a[0] == 1:
            return a
        if op == "Rem" and is_c(b) and b.a[0] == 1:
            return C(0)
    if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
        if op == "Ne":
            return notop(binop("Eq", a, b, ty))
        if op == "Gt":
            return binop("Lt", b, a, ty)
        if op == "Ge":
            return notop(binop("Lt", a, b, ty))
        if op == "Le":
            return notop(binop("Lt", b, a, ty))
        if a is b:
            return TRUE if op == "Eq" else FALSE
        if is_c(a) and is_c(b):
            v = a.a[0] == b.a[0] if op == "Eq" else a.a[0] < b.a[0]
            return C(v)
        if op == "Eq":
            if ty == "bool":
                if a is TRUE:
                    return b
                if b is TRUE:
                    return a
                if a is FALSE:
                    return notop(b)
                if b is FALSE:
                    return notop(a)
            if ty in BITS:
                d = lin_sub(lin(a), lin(b))
                if not d[0]:
                    return C(d[1] == 0)
            if a.id > b.id:
                a, b = b, a
            t = mk("eq", a, b)
            t.ty = "bool"
            return t
        if ty in BITS:
            d = lin_sub(lin(a), lin(b))
            if not d[0]:
                return C(d[1] < 0)
        t = mk("lt", a, b)
        t.ty = "bool"
        return t
    if op in ("BitOr", "BitAnd", "BitXor") and a.id > b.id:
        a, b = b, a
    t = mk("bin", op, a, b)
    if not t.ty and ty:
        t.ty = ty
    return t


def notop(a, ty="bool"):
    if ty != "bool":
        if is_c(a) and ty in BITS:
            m = (1 << BITS[ty]) - 1
            return C(~a.a[0] & m)
        t = mk("un", "Not", a)
        t.ty = ty
        return t
    if is_c(a):
        return C(1 - a.a[0])
    if a.op == "not":
        return a.a[0]
    t = mk("not", a)
    t.ty = "bool"
    return t


def cast_int(a, frm, to):
    if is_c(a):
        r = ty_range(to)
        if r is None:
            return mk("cast", to, a)
        v = a.a[0] & ((1 << BITS[to]) - 1)
        if v > r[1]:
            v -= 1 << BITS[to]
        return C(v)
    if frm is None:
        frm = a.ty
    rf, rt = ty_range(frm), ty_range(to)
    if rf and rt and rf[0] >= rt[0] and rf[1] <= rt[1]:
        if a.ty is None:
            a.ty = frm
        return a  # value preserving
    if a.op == "lanes" and rt and rt[0] == 0:
        return mk_lanes({s: b for s, b in a.a[0] if s < BITS[to]}, to)
    t = mk("cast", to, a)
    t.ty = to
    return t


def show(t, d=0):
    if not isinstance(t, Term):
        return str(t)
    if d > 7:
        return "…"
    s = lambda x: show(x, d + 1)
    o = t.op
    if o == "c":
        return str(t.a[0])
    if o == "agg":
        k, v, n, vals = t.a
        nm = k.split("::")[-1]
        if k == "array" and len(vals) > 8:
            return "[%s,… %d]" % (",".join(s(x) for x in vals[:4]), len(vals))
        return "%s%s(%s)" % (nm, "::" + v if v else "", ", ".join(("%s=" % a if not a.isdigit() else "") + s(b) for a, b in zip(n, vals)))
    if o == "f":
        return "%s.%s%s" % (s(t.a[0]), t.a[1] + "#" if t.a[1] else "", t.a[2])
    if o == "elem":
        return "%s[%s]" % (s(t.a[0]), s(t.a[1]))
    if o == "slice":
        return "%s[%s..%s]" % (s(t.a[0]), s(t.a[1]), s(t.a[2]))
    if o == "upd":
        k = t.a[1]
        return "%s{%s:=%s}" % (s(t.a[0]), ".".join(s(x) for x in k[1:]), s(t.a[2]))
    if o == "sum":
        return "(" + "+".join(("%d*" % v if v != 1 else "") + s(a) for a, v in t.a[0]) + ("%+d" % t.a[1] if t.a[1] else "") + ")"
    if o == "lt":
        return "%s < %s" % (s(t.a[0]), s(t.a[1]))
    if o == "eq":
        return "%s == %s" % (s(t.a[0]), s(t.a[1]))
    if o == "not":
        return "!(%s)" % s(t.a[0])
    if o == "concat":
        return " ++ ".join(s(x) for x in t.a[0])
    if o == "lanes":
        return "be(%s)" % ",".join("%d:%s" % (sh, s(b)) for sh, b in reversed(t.a[0]))
    if o == "opq":
        return "?%s" % ("/".join(s(x) if isinstance(x, Term) else str(x).split("::")[-1] for x in t.a))
    if o == "phi":
        return "phi%d" % t.id
    if o == "str":
        return repr(t.a[0])
    return "%s(%s)" % (o, ", ".join(s(x) if isinstance(x, Term) else ("(" + ",".join(s(y) for y in x) + ")" if isinstance(x, tuple) else str(x)) for x in t.a))
