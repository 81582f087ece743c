"""Abstract runs of the hand-written serde visitors and serializers of peers, nodes and ids, and of the code that takes a tracker's list of
peers apart, on an arbitrary byte string or value.  What is decoded and what is written are terms over the bytes, respectively over the
fields of the value, and must be those of the wire format (BEP 5, BEP 23)."""
import bencode
import metainfo
from metainfo import values
from common import *

ASSUMPTIONS = ["bendy rejects dictionaries with repeated keys", "serde and bendy hand a byte string to visit_bytes as it is and write what serialize_bytes is given"]
ID, ADDR, NODE = 20, 6, 26


# ---------------------------------------------------------------- decoding
def bytes_at(t, s, at, n):
    """are the elements of `t` the bytes at..at+n of s?"""
    t = unwrap_bytes(t)
    at = C(at) if isinstance(at, int) else at
    if t.op == "agg" and t.a[0] == "array" and len(t.a[3]) == n:
        return all(y is elem(s, badd(at, C(i), "usize") if not is_c(at) else C(at.a[0] + i)) or y is elem(s, badd(C(i), at)) for i, y in enumerate(t.a[3]))
    if t is s:
        return at is C(0)
    return t.op == "slice" and t.a[0] is s and t.a[1] is at and lin_sub(lin(t.a[2]), lin(at)) == ((), n)


def parts(t):
    """ip and port of a socket address"""
    while t.op == "agg" and t.a[1] in ("Peer", "Some", "V4") or t.op == "agg" and t.a[0].endswith("::Peer"):
        t = t.a[3][0]
    if t.op == "agg" and len(t.a[3]) == 1 and t.a[3][0].op == "agg":
        t = t.a[3][0]
    x = dict(zip(t.a[2], t.a[3])) if t.op == "agg" else {}
    return (x["ip"], x["port"]) if {"ip", "port"} <= set(x) else (None, None)


def is_addr(t, s, at):
    ip, port = parts(t)
    if ip is None:
        return False
    p = badd(at, C(4), "usize") if not isinstance(at, int) else at + 4
    return bytes_at(ip, s, at, 4) and port is be_u(s, p, 2, "u16")


def is_node(t, s, at):
    x = dict(zip(t.a[2], t.a[3])) if t.op == "agg" else {}
    return {"id", "addr"} <= set(x) and bytes_at(x["id"], s, at, ID) and is_addr(x["addr"], s, badd(at, C(ID), "usize") if not isinstance(at, int) else at + ID)


def grouped(I, st, t, s, n, is_item, done=False):
    """t = the items at 0, n, 2n ... of s, all that there are; says what's wrong"""
    def item(y, j):
        return s if is_item(y, s, j) else None
    vs = values(I, t)
    for y in vs or {t}:
        if metainfo.stride(I, y, n, item) is None:
            return "items that aren't its groups of %d bytes" % n
    return None if done or finished(I, st, vs, t, s, n) else "not all of its groups"


def finished(I, st, vs, t, s, n):
    """nothing of s follows the last group"""
    js = {y for x in vs for p in ([x.a[0][0]] if x.op == "concat" else []) for y in counters(I, p)} | {y for y in counters(I, t)}
    for j in js:
        for m in (1, n):
            if le(st, length(s), badd(scale(j, m), C(n - 1), "usize")):
                return True
    return le(st, length(s), C(n - 1)) or any(eq(st, length(s), scale(length(x), n)) for x in vs | {t}) or all(x.op == "empty" for x in vs) and le(st, length(s), C(0))


def scale(j, m):
    return metainfo.scaled(j, m)


def counters(I, p):
    """the phis of the loop that builds p"""
    return [y for y in I.phi_inputs if y.op == "phi" and p.op == "phi" and y.a[:2] == p.a[:2]]


def decoders(r):
    n = 0
    for k, b in sorted(r.prog.bodies.items()):
        if b.impl_trait != "serde::de::Visitor" or not k.endswith("::visit_bytes") or b.sp[3]:
            continue
        t = b.tystr(b.locals[0])
        kind = next((x for x in ("data_structures::id::ID", "peers::peer::Peer", "dht::krpc_message::Nodes") if t.startswith("std::result::Result<%s," % x) or "<%s as " % x in k), None)
        if not kind:
            continue
        n += 1
        s = mk("deref", mk("param", k, 2))
        I = r.engine(k, conf=Whole(s, NODE).conf, tag="compact")
        want = {"ID": ID, "Peer": ADDR, "Nodes": None}[kind.split("::")[-1]]
        oks = 0
        for v, st, e in returns(I):
            if v.op == "agg" and v.a[1] == "Ok":
                oks += 1
                y = v.a[3][0]
                if want:
                    r.oblige(eq(st, length(s), C(want)), "len:" + kind, "%s is decoded from a string that may have another length than %d" % (kind, want), k)
                    good = bytes_at(y, s, 0, ID) if want == ID else is_addr(y, s, 0)
                    r.oblige(good, "value:" + kind, "%s is decoded to %s" % (kind, show(y)[:200]), k)
                else:
                    whole = I.truth(st, mk("eq", C(0), mk("bin", "Rem", length(s), C(NODE)))) == 1 or eq(st, length(s), C(NODE)) or divides(I, st, s)
                    r.oblige(whole, "len:" + kind, "nodes are decoded from a string that needn't consist of whole nodes", k)
                    if y.op == "agg" and y.a[1] == "Exact":
                        r.oblige(is_node(y.a[3][0], s, 0) and eq(st, length(s), C(NODE)), "value:Exact", "the only node is decoded to %s" % show(y)[:200], k)
                    else:
                        w = grouped(I, st, y.a[3][0] if y.op == "agg" else y, s, NODE, is_node, bool(st.mon.get("all of them")))
                        r.oblige(w is None, "value:Closest", "nodes are decoded to %s" % w, k)
            elif want:
                r.oblige(I.truth(st, mk("eq", C(want), length(s))) == 0 or lt(st, length(s), C(want)) or lt(st, C(want), length(s)), "refused:" + kind,
                         "%s may be refused although it has the right length" % kind, k)
            r.cover("results of decoders", "%s: %s" % (kind, v.a[1] if v.op == "agg" else "?"))
        r.oblige(oks > 0, "none:" + kind, "%s is never decoded" % kind, k)
    r.oblige(n == 3, "decoders", "decoders of ids, peers and nodes: %d found instead of 3" % n, "visit_bytes")


def divides(I, st, s):
    return any(v == 0 and f.op == "bin" and f.a[0] == "Rem" and f.a[1] is length(s) and f.a[2] is C(NODE) for f, v in st.facts.items())


# ---------------------------------------------------------------- encoding
def flat(t):
    """a byte string as a list of pieces: sequences, or single bytes"""
    t = unwrap_bytes(t)
    if t.op == "concat":
        return [y for x in t.a[0] for y in flat(x)]
    if t.op == "agg" and t.a[0] == "array":
        return [("byte", y) for y in t.a[3]]
    if t.op == "empty":
        return []
    return [("seq", t)]


def is_port(xs, port):
    if len(xs) == 1:
        t = xs[0][1]
        return xs[0][0] == "seq" and t.op == "call" and t.a[0] in ("to_be_bytes",) and t.a[-1] is port
    if len(xs) != 2 or xs[0][0] != "byte" or xs[1][0] != "byte":
        return False
    hi, lo = xs[0][1], xs[1][1]
    return octet(hi, port, 8) and octet(lo, port, 0)


def octet(t, port, sh):
    """is t the byte of port at bit sh?"""
    for _ in range(4):
        if t.op == "call" and t.a[0] in ("lane",):
            return False
        if t.op == "cast":
            t = t.a[0]
    c = [x for x in t.a if getattr(x, "op", "") == "c"] if t.op == "bin" else []
    if t.op == "bin" and t.a[0] == "BitAnd" and c and c[0] is C(255):
        o = next(x for x in t.a[1:] if x is not c[0])
        return o is port if sh == 0 else octet(o, port, sh)
    if t.op == "bin" and sh and t.a[1] is port:
        return t.a[0] == "Div" and t.a[2] is C(1 << sh) or t.a[0] == "Shr" and t.a[2] is C(sh)
    if t.op == "bin" and not sh and t.a[1] is port and t.a[0] == "Rem" and t.a[2] is C(256):
        return True
    if t.op == "elem" and t.a[0].op == "call" and t.a[0].a[0] == "to_be_bytes" and t.a[0].a[-1] is port:
        return t.a[1] is C(1 - sh // 8)
    if t.op == "byte" or t.op == "lane":
        return t.a[0] is port and t.a[1] in (sh, C(sh))
    return False


def is_addr_bytes(xs, a):
    ip, port = field(a, "", "ip"), field(a, "", "port")
    if len(xs) < 2 or len(xs) > 6:
        return False
    o = field(ip, "", "octets")
    if xs[0][0] == "seq":
        return xs[0][1] is o and is_port(xs[1:], port)
    return [x[1] for x in xs[:4]] == [elem(o, C(i)) for i in range(4)] and is_port(xs[4:], port)


def is_node_bytes(xs, n):
    return bool(xs) and xs[0] == ("seq", unwrap_id(field(n, "", "id"))) and is_addr_bytes(xs[1:], field(n, "", "addr"))


def unwrap_id(t):
    return field(t, "", "0")


def encoders(r):
    for kind in ("data_structures::id::ID", "peers::peer::Peer", "dht::krpc_message::Nodes"):
        k = "<%s as serde::Serialize>::serialize" % kind
        if k not in r.prog.bodies:
            r.oblige(False, "encoder:" + kind, "%s is written some other way" % kind, kind)
            continue
        got = []
        me = mk("deref", mk("param", k, 1))
        W = Whole(field(me, "Closest", "0"))

        def conf(I):
            W.conf(I)
            I.sigextra = lambda st: st.facts.get(mk("discr", me))

            def m(I, st, c, args):
                if I.recording:
                    got.append((I.val(st, args[1]), st.copy()))
                return mk("opq", c.site, "serialized")
            for x in ("serialize_bytes", "serialize_str", "collect_seq", "serialize_seq", "serialize_some", "collect_str", "serialize_u8"):
                I.call_models["serde::Serializer::" + x] = m if x == "serialize_bytes" else other

        def other(I, st, c, args):
            r.oblige(False, "encoding:" + kind, "%s isn't written as a byte string" % kind, k)
            return NotImplemented
        I = r.engine(k, conf=conf, tag="compact")
        for t, st in got:
            for y in sorted(values(I, t), key=lambda x: x.id):
                if kind.endswith("ID"):
                    ok = flat(y) == [("seq", field(me, "", "0"))]
                elif kind.endswith("Peer"):
                    ok = is_addr_bytes(flat(y), field(me, "", "0"))
                else:
                    ok = nodes_written(I, st, t, y, me)
                if ok and kind.endswith("Nodes") and st.facts.get(mk("discr", me)) != 0:
                    r.oblige(bool(st.mon.get("all of them")) or finished(I, st, values(I, t), t, W.s, 1), "written:all", "not all of the nodes are written", k)
                r.oblige(ok, "written:" + kind, "%s is written as %s" % (kind, show(y)[:200]), k)
                r.cover("encodings", "%s: %s" % (kind, show(y)[:150]))
        r.oblige(bool(got), "never:" + kind, "%s isn't written" % kind, k)


def nodes_written(I, st, t, y, me):
    if y.op == "empty":
        return True
    xs = flat(y)
    if is_node_bytes(xs, field(me, "Exact", "0")):
        return True
    ns = field(me, "Closest", "0")
    # one more node, after those before
    if y.op == "concat" and y.a[0][0].op == "phi":
        p = y.a[0][0]
        xs = xs[1:]
        for j in counters(I, p):
            if not is_node_bytes(xs, elem(ns, j)):
                continue
            ins = I.phi_inputs.get(j, ())
            return (C(1) in ins) == any(is_node_bytes(flat(x), elem(ns, C(0))) for x in I.phi_inputs[p]) and all(x is C(1) or x is C(0) or x is badd(j, C(1), "usize") or x is badd(j, C(1)) or x.op == "phi" for x in ins)
    # the first node, taken out of the loop
    return is_node_bytes(xs, elem(ns, C(0)))


class Whole:
    """Has an iterator over the whole of a sequence (in groups of n) come to its end?  st.mon says"""

    def __init__(self, s, n=None):
        self.s, self.n, self.over = s, n, set()

    def conf(self, I):
        I.on_enter, I.on_leave = self.enter, self.leave

    def enter(self, I, st, ctx, body):
        if body.key not in ("<vmodel::Chunks<'a, T> as std::iter::Iterator>::next", "<vmodel::SliceIter<'a, T> as std::iter::Iterator>::next"):
            return
        it = I.get(st, mk("L", ctx.id, 1))
        it = I.read(st, *I.deref(it)) if it.op == "ptr" else it
        x = dict(zip(it.a[2], it.a[3])) if it.op == "agg" else {}
        p = x.get("s")
        if p is None or p.op != "ptr" or (x["k"] is not C(self.n) if "k" in x else self.n):
            return
        if I.read(st, *I.deref(p)) is self.s:
            self.over.add(ctx.id)

    def leave(self, I, st, ctx, v):
        if ctx.id in self.over and v.op == "agg" and v.a[1] == "None":
            st.mon["all of them"] = "1"


def tracker(r):
    k = next((k for k, b in r.prog.bodies.items() if b.impl_trait == "bendy::decoding::FromBencode" and b.impl_self == "tracker::response::Response"), None)
    if not k:
        r.oblige(False, "tracker", "answers of trackers are decoded elsewhere", "FromBencode")
        return
    B = bencode.Bencode([b"peers", b"interval", b"complete", b"incomplete"], once=[b"peers"])
    s = mk("decoded", mk("str", "bytes"), mk("entry", mk("dict", mk("param", k, 1)), mk("str", "peers")))

    W = Whole(s, ADDR)

    def block(I, st, ctx, bb):
        if (ctx.id, bb) in B.at and st.mon.get("entry") == "peers":
            for q, _ in st.ineqs:
                for t, _ in q:
                    if t.op == "phi" and le(st, length(s), badd(t, C(ADDR - 1), "usize")):
                        st.mon["all of them"] = "1"

    def conf(I):
        I.on_block = block
        W.conf(I)
        B.conf(I)
        # (block runs before what Bencode does at the same place)
        first = I.on_block
        I.on_block = lambda I, st, ctx, bb: (block(I, st, ctx, bb), first(I, st, ctx, bb))
        B.then = None
    I = r.engine(k, conf=conf, tag="tracker-peers")
    n = 0
    for v, st, e in returns(I):
        if not (v.op == "agg" and v.a[1] == "Ok"):
            continue
        n += 1
        x = dict(zip(v.a[3][0].a[2], v.a[3][0].a[3])) if v.a[3][0].op == "agg" else {}
        t = x.get("peers")
        w = "something else" if t is None else grouped(I, st, t, s, ADDR, is_addr, bool(st.mon.get("all of them")))
        r.oblige(w is None, "tracker:peers", "the peers of a tracker's answer are %s" % w, k)
    r.cover("ways an answer is decoded", n)
    r.oblige(n > 0, "tracker:none", "no answer of a tracker is accepted", k)


def check(r):
    r.rule("ID: 20 bytes; Peer: 6 bytes, IPv4 then big-endian port; node: 26 bytes, id then address; Nodes: whole nodes, all of them in order; other lengths are refused")
    r.rule("they are written in the same format")
    r.rule("`peers` of a tracker's answer: a peer for every 6 bytes")
    decoders(r)
    encoders(r)
    tracker(r)
