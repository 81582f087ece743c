"""The decoder and the encoder of peer-wire messages are each compared with one layout table (BEP 3).
Both are abstractly interpreted over MIR: the decoder on a buffer of unknown bytes and length under the
assumption of each frame kind of the table, the encoder on each variant with unknown fields.  Every value
they can return is a term over the input bytes/fields and has to be the one the table gives."""
from common import *

MSG = "peers::connection::message::Message"
# id, length prefix without variable part, fields (name, offset, width) in wire order, variable tail offset
LAYOUT = {
    "KeepAlive": None,
    "Choke": (0, 1, [], None),
    "Unchoke": (1, 1, [], None),
    "Interested": (2, 1, [], None),
    "NotInterested": (3, 1, [], None),
    "Have": (4, 5, [("0", 5, 4)], None),
    "Bitfield": (5, 1, [], ("0", 5)),
    "Request": (6, 13, [("index", 5, 4), ("begin", 9, 4), ("length", 13, 4)], None),
    "Piece": (7, 9, [("index", 5, 4), ("begin", 9, 4)], ("block", 13)),
    "Cancel": (8, 13, [("index", 5, 4), ("begin", 9, 4), ("length", 13, 4)], None),
    "Port": (9, 3, [("0", 5, 2)], None),
}
TY = {1: "u8", 2: "u16", 4: "u32"}
INNER = {"Request": "peers::connection::message::Request", "Cancel": "peers::connection::message::Request",
         "Piece": "peers::connection::message::Piece"}


def get(v, var, name):
    x = field(v, var, "0")
    return x if name == "0" else field(x, "", name)


def check(r):
    vs = adt_variants(r, MSG)
    if not r.oblige(vs is not None and set(vs) == set(LAYOUT), "variants",
                    "the message enum has other variants than the protocol: %s" % sorted(set(vs or ()) ^ set(LAYOUT)), MSG):
        return
    decode(r)
    encode(r)


def decode(r):
    key = MSG + "::from_buf"
    r.rule("decode: for every buffer that starts with a well-formed frame, from_buf returns the variant of its id with every "
           "field read big-endian from its offset, and the tail is exactly the bytes up to the end of the frame")
    r.rule("decode: an unknown id, a length prefix its id doesn't allow and a frame longer than the buffer are refused (None)")
    B = mk("deref", mk("param", key, 1))
    L = be_u(B, 0, 4, "u32")

    def run(tag, assume):
        def setup(I, st, ctx):
            ok = I.assume(st, mk_lt(length(B), C(4)), 0)
            for f, v in assume:
                ok = I.assume(st, f, v) and ok
            return ok
        return r.engine(key, setup=setup, tag=tag)

    frame = badd(L, C(4))
    whole = (mk_lt(length(B), frame), 0)
    for var, lay in LAYOUT.items():
        r.cover("decoded frame kinds", var)
        if lay is None:
            facts = [mk_eq(L, C(0))]
        else:
            facts = [mk_eq(elem(B, C(4)), C(lay[0]))]
            facts.append((mk_lt(L, C(lay[1])), 0) if lay[3] else mk_eq(L, C(lay[1])))
        I = run("dec:" + var, [whole] + facts)
        n = 0
        for v, st, e in returns(I):
            n += 1
            good = v.op == "agg" and v.a[1] == "Some" and v.a[3][0].op == "agg" and v.a[3][0].a[1] == var
            if good and lay:
                m = v.a[3][0]
                for name, off, w in lay[2]:
                    good = good and same(I, st, get(m, var, name), be_u(B, off, w, TY[w]))
                if lay[3]:
                    good = good and same_seq(I, st, get(m, var, lay[3][0]), slice_(B, C(lay[3][1]), frame))
            r.oblige(good, "decode:" + var, "a %s frame is decoded as %s" % (var, show(v)[:200]), key)
        r.oblige(n > 0, "decode:%s:total" % var, "decoding a %s frame never returns" % var, key)
        r.no_panic(I, key)
        # the same id with a length that it doesn't allow
        if lay:
            ne = (mk_lt(C(0), L), 1)
            bad = [(mk_lt(L, C(lay[1])), 1)] if lay[3] else None
            for tag, fs in (("short", [(mk_lt(L, C(lay[1])), 1)]),) + (() if lay[3] else (("long", [(mk_lt(C(lay[1]), L), 1)]),)):
                if tag == "short" and lay[1] == 1:
                    continue
                I = run("dec:%s:%s" % (var, tag), [whole, ne, mk_eq(elem(B, C(4)), C(lay[0]))] + fs)
                for v, st, e in returns(I):
                    r.oblige(v is NONE, "decode:%s:%s" % (var, tag), "a %s frame whose length prefix is too %s is decoded as %s" % (var, tag, show(v)[:160]), key)
                r.no_panic(I, key)
    for tag, fs in (("unknown", [whole, (mk_lt(C(0), L), 1), (mk_lt(C(9), elem(B, C(4))), 1)]),
                    ("truncated", [(mk_lt(length(B), frame), 1)])):
        I = run("dec:" + tag, fs)
        r.cover("decoded frame kinds", tag)
        for v, st, e in returns(I):
            r.oblige(v is NONE, "decode:" + tag, "%s frame is decoded as %s" % (tag, show(v)[:200]), key)
        r.no_panic(I, key)
    # the length prefix, as the receive loop reads it
    key = MSG + "::len"
    if r.prog.bodies.get(key):
        B2 = mk("deref", mk("param", key, 1))
        I = r.engine(key)
        for v, st, e in returns(I):
            r.oblige(same(I, st, v, be_u(B2, 0, 4, "u32")), "len", "the length prefix is read as %s" % show(v)[:200], key)


def encode(r):
    key = MSG + "::into_bytes"
    r.rule("encode: into_bytes of every variant is the length prefix (u32, counts the bytes that follow), the id, the fields "
           "big-endian in wire order, and the tail; nothing else")
    for var, lay in LAYOUT.items():
        r.cover("encoded variants", var)
        exp = mk("empty")
        if lay is None:
            m = agg(MSG, var, [], [])
            exp = array([C(0)] * 4)
        else:
            syms = {n: sym("%s.%s" % (var, n), TY[w]) for n, _, w in lay[2]}
            tail = None
            if lay[3]:
                tail = mk("sym", var + ".tail")
                syms[lay[3][0]] = tail
            inner = INNER.get(var)
            if inner:
                a = r.prog.adt(inner)
                names = [f[0] for f in a["variants"][0]["fields"]]
                if set(names) != set(syms):
                    r.violate("encode:" + var, "%s has other fields than the protocol" % inner, inner)
                    continue
                m = agg(MSG, var, ["0"], [agg(inner, "", names, [syms[n] for n in names])])
            else:
                m = agg(MSG, var, ["0"] if syms else [], [syms["0"]] if syms else [])
            n = C(lay[1])
            data = field(tail, "", "0") if tail else None
            if tail:
                n = badd(n, length(data))
            exp = concat(be_bytes(n, 4), array([C(lay[0])]))
            for name, _, w in lay[2]:
                exp = concat(exp, be_bytes(syms[name], w))
            if tail:
                exp = concat(exp, data)
        I = r.engine(key, args={1: m}, tag="enc:" + var)
        k = 0
        for v, st, e in returns(I):
            k += 1
            r.oblige(same_seq(I, st, v, exp), "encode:" + var, "%s is encoded as %s, the protocol says %s" % (var, show(v)[:160], show(exp)[:160]), key)
        r.oblige(k > 0, "encode:%s:total" % var, "encoding %s never returns" % var, key)


def sym(n, ty):
    t = mk("sym", n)
    t.ty = ty
    return t


def be_bytes(x, n):
    from models import byte_of
    return array([byte_of(x, 8 * (n - 1 - i), n) for i in range(n)])


def mk_lt(a, b):
    from terms import binop
    return binop("Lt", a, b, "usize")


def mk_eq(a, b):
    from terms import binop
    return binop("Eq", a, b, "usize"), 1


ASSUMPTIONS = ["variable parts are shorter than 2^32 bytes", "bincode with big endian and fixed integers writes what serde hands it, in order"]
