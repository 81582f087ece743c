"""Questions that rules ask about analysed states and terms."""
from arith import entails_le0, interval
from terms import (C, agg, array, badd, bsub, concat, elem, field, is_c, length, lin, lin_sub, mk, mk_lanes, show, slice_,
                   subterms, contains, some, NONE)

SAME = {"into:std::vec::Vec<u8>", "to_vec", "to_owned", "clone", "as_ref", "into_boxed_slice", "into_vec", "as_slice"}


def le(st, a, b):
    """a <= b in every concrete state that st stands for"""
    return entails_le0(st.ineqs, lin_sub(lin(a), lin(b)))


def lt(st, a, b):
    d = lin_sub(lin(a), lin(b))
    return entails_le0(st.ineqs, (d[0], d[1] + 1))


def eq(st, a, b):
    return a is b or (le(st, a, b) and le(st, b, a))


def true(I, st, t):
    return I.truth(st, t) == 1


def false(I, st, t):
    return I.truth(st, t) == 0


def dead(st):
    """contradictory state: no execution is in it"""
    return entails_le0(st.ineqs, ((), 1)) if False else False


def returns(I):
    """(value, state, event) of every return of the root"""
    for evs in I.node_events.values():
        for e in evs:
            if e.kind == "return":
                yield e.args[0], e.st, e


def events(I, kind=None, pred=None):
    for evs in I.node_events.values():
        for e in evs:
            if (kind is None or e.kind == kind) and (pred is None or pred(e)):
                yield e


def be_u(seq, at, n, ty):
    """the big-endian integer in bytes at..at+n of a sequence"""
    t = mk_lanes({8 * (n - 1 - i): elem(seq, badd(C(0), at if not isinstance(at, int) else C(at)) if i == 0 else badd(C(i), at if not isinstance(at, int) else C(at)))
                  for i in range(n)}, ty)
    return t


def unwrap_bytes(t):
    """the byte sequence inside newtypes and ownership conversions"""
    while True:
        if t.op == "agg" and t.a[0] not in ("array", "()") and len(t.a[3]) == 1:
            t = t.a[3][0]
        elif t.op == "call" and (t.a[0] in SAME or t.a[0].split(":")[0] in ("into", "from")) and len(t.a) >= 2:
            t = t.a[-1] if t.a[0] not in ("clone",) else t.a[1]
        else:
            return t


def folded(I, st, t):
    """a sequence built by a loop that appends S[j], j = 0,1,2...: returns S[0..j] (j the loop counter), else None"""
    if t.op != "phi":
        return None
    ins = I.phi_inputs.get(t, ())
    S = j = None
    consts = set()
    for x in ins:
        if x.op == "concat" and len(x.a[0]) == 2 and x.a[0][0] is t:
            e = x.a[0][1]
            if not (e.op == "agg" and e.a[0] == "array" and len(e.a[3]) == 1 and e.a[3][0].op == "elem"):
                return None
            s, i = e.a[3][0].a
            if S not in (None, s) or j not in (None, i):
                return None
            S, j = s, i
    if S is None or j is None or j.op != "phi" or j.a[:2] != t.a[:2]:
        return None
    for x in ins:
        if x.op == "concat":
            continue
        if x.op == "empty":
            consts.add(0)
            continue
        if x.op == "agg" and x.a[0] == "array":
            if any(v is not elem(S, C(n)) for n, v in enumerate(x.a[3])):
                return None
            consts.add(len(x.a[3]))
            continue
        return None
    js = set()
    for x in I.phi_inputs.get(j, ()):
        if is_c(x):
            js.add(x.a[0])
        elif x is not badd(j, C(1)) and x is not j:
            return None
    if js != consts:
        return None
    return S, j


def parts(t):
    if t.op == "concat":
        return list(t.a[0])
    if t.op == "empty":
        return []
    return [t]


def seq_norm(I, st, t):
    """list of parts; loops that copy a whole sequence are replaced with that sequence"""
    out = []
    for p in parts(unwrap_bytes(t)):
        f = folded(I, st, p)
        if f:
            S, j = f
            p = S if le(st, length(S), j) else slice_(S, C(0), j)
        p = unwrap_bytes(p)
        if p.op == "bytes":
            p = array([C(b) for b in p.a[0]])
        if p.op == "agg" and p.a[0] == "array" and out and out[-1].op == "agg" and out[-1].a[0] == "array":
            out[-1] = array(list(out[-1].a[3]) + list(p.a[3]))
        elif p.op != "empty":
            out.append(p)
    return out


def same_seq(I, st, a, b):
    """are two byte sequences equal in st?"""
    pa, pb = seq_norm(I, st, a), seq_norm(I, st, b)
    if len(pa) != len(pb):
        return False
    return all(same(I, st, x, y) for x, y in zip(pa, pb))


def same(I, st, a, b):
    if a is b:
        return True
    a, b = unwrap_bytes(a), unwrap_bytes(b)
    if a is b:
        return True
    if a.op == "slice" or b.op == "slice":
        ra, la, ha = (a.a[0], a.a[1], a.a[2]) if a.op == "slice" else (a, C(0), length(a))
        rb, lb, hb = (b.a[0], b.a[1], b.a[2]) if b.op == "slice" else (b, C(0), length(b))
        return ra is rb and eq(st, la, lb) and eq(st, ha, hb)
    if a.op == "agg" and b.op == "agg":
        return a.a[0] == b.a[0] and a.a[1] == b.a[1] and len(a.a[3]) == len(b.a[3]) and all(same(I, st, x, y) for x, y in zip(a.a[3], b.a[3]))
    if a.op == "byte" and b.op == "byte":
        return a.a[1] == b.a[1] and a.a[2] == b.a[2] and eq(st, a.a[0], b.a[0])
    if a.op == "c" and b.op == "c":
        return a.a[0] == b.a[0]
    if I.truth(st, mk("eq", a, b)) == 1 or I.truth(st, mk("eq", b, a)) == 1:
        return True
    if a.op in ("c", "sum", "len", "lanes", "phi", "elem", "param", "f") and b.op in ("c", "sum", "len", "lanes", "phi", "elem", "param", "f") and (
            a.ty in INTS or b.ty in INTS or a.op in ("sum", "len", "lanes") or b.op in ("sum", "len", "lanes")):
        return eq(st, a, b)
    return False


INTS = {"u8", "u16", "u32", "u64", "usize", "i32", "i64"}


def adt_variants(r, path):
    a = r.prog.adt(path)
    if a is None:
        return None
    return {v["name"]: [f[0] for f in v["fields"]] for v in a["variants"]}


def compared(body):
    """{block: branch} of the blocks that are entered only when a comparison of two values came out in a certain way"""
    if not hasattr(body, "_compared"):
        body.prep()
        body._compared = {}
        for i, b in enumerate(body.blocks):
            t = b["term"]
            if t["t"] != "switch" or not b["st"]:
                continue
            s = b["st"][-1]
            if s["s"] == "=" and s["rv"]["r"] == "bin" and s["rv"]["op"] in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne") and t["a"].get("p") == s["p"]:
                for x in set(body.succ[i]):
                    if body.preds[x] == 1:
                        body._compared[x] = i
    return body._compared


def by_comparison(r, I, only=lambda key: True):
    """keep the states apart in which a comparison in the program's functions came out differently when it was made last"""
    def on_block(I, st, ctx, bb):
        b = ctx.body
        if b.key in r.prog.bodies and only(b.key):
            i = compared(b).get(bb)
            if i is not None:
                st.mon["cmp%d.%d" % (ctx.id, i)] = bb
    I.on_block = on_block
