"""The task that owns a peer's stream is abstractly interpreted over MIR with every received byte unknown.
The bytes of the first write are compared with the handshake layout of BEP 3.  At every place where a peer message is
decoded or an encoded one is written, the facts of the abstract state must say that the received handshake had
the protocol string and the info hash that was sent."""
import anchors
from common import *
from terms import upd

MSG = "peers::connection::message::Message"
PSTR = b"\x13BitTorrent protocol"


def known(st, nb):
    """byte position -> constant or (value, offset) that the received bytes are known to equal"""
    out = {}
    for t, v in st.facts.items():
        if t.op == "elem" and t.a[0] is nb and is_c(t.a[1]):
            out[t.a[1].a[0]] = v
        if t.op != "eq" or v != 1:
            continue
        for x, y in ((t.a[0], t.a[1]), (t.a[1], t.a[0])):
            x = unwrap_bytes(x)
            if x is nb:
                lo = 0
            elif x.op == "slice" and x.a[0] is nb and is_c(x.a[1]) and is_c(x.a[2]):
                lo = x.a[1].a[0]
            else:
                continue
            for i, b in enumerate(flat(y)):
                out[lo + i] = b
    return out


def flat(y):
    """constant bytes one by one, others as (value, offset, length 20)"""
    out = []
    for p in parts(unwrap_bytes(y)):
        p = unwrap_bytes(p)
        if p.op == "bytes":
            out += list(p.a[0])
        elif p.op == "agg" and p.a[0] == "array":
            out += [x.a[0] if is_c(x) else x for x in p.a[3]]
        else:
            n = length(p)
            for i in range(n.a[0] if is_c(n) else 20):
                out.append((p, i))
    return out


def check(r):
    task = anchors.peer_task(r)
    if not task:
        return
    r.rule("the first bytes written to a peer are 19, 'BitTorrent protocol', 8 reserved bytes, the info hash and the peer id of the connection")
    r.rule("no peer message is decoded or written before the received handshake was compared: byte 0, bytes 1..20 and bytes 28..48")
    first = {}

    def on_io(I, st, c, what, ptr, n):
        if what == "read_exact" and ptr.op == "ptr":
            v = I.read(st, ptr.a[0], ptr.a[1])
            st.mon["_read"] = v

    def on_await(I, st, c, name, vs):
        if name.endswith("::write_all") or name.endswith("::write"):
            if st.mon.get("written") is None:
                st.mon["written"] = "handshake"
                st.mon["_sent"] = vs[1]
                if I.recording:
                    first[(c.ctx.id, c.bb)] = (st.copy(), vs[1], I.loc(c.ctx, c.bb))
            else:
                gate(I, st, c.ctx, c.bb, "written")

    def on_enter(I, st, nc, body):
        if body.key == MSG + "::from_buf":
            gate(I, st, nc.parent, nc.bb, "decoded")

    gates = []

    def gate(I, st, ctx, bb, what):
        if I.recording:
            gates.append((st.copy(), I.loc(ctx, bb), what))

    def conf(I):
        I.on_io, I.on_await, I.on_enter = on_io, on_await, on_enter

    I = r.engine(task, conf=conf, tag="handshake")
    for f in sorted(I.inlined):
        r.cover("functions", f)
    sent = None
    for (cid, bb), (st, data, loc) in sorted(first.items()):
        b = flat_seq(I, st, data)
        where = "%s:%d in %s" % loc[:3]
        r.cover("handshakes written", where)
        good = len(b) == 68 and b[:20] == list(PSTR) and all(isinstance(x, int) for x in b[20:28])
        r.oblige(good, "sent:layout", "the handshake that is sent is %s" % show(data)[:200], where)
        if good:
            h = b[28:48]
            p = b[48:68]
            ok = all(isinstance(x, tuple) and x[0] is h[0][0] and x[1] == i for i, x in enumerate(h)) if isinstance(h[0], tuple) else False
            ok2 = all(isinstance(x, tuple) and x[0] is p[0][0] and x[1] == i for i, x in enumerate(p)) if isinstance(p[0], tuple) else False
            r.oblige(ok and ok2, "sent:ids", "info hash and peer id are not sent whole: %s" % show(data)[:200], where)
            if ok and ok2:
                r.oblige(h[0][0] is not p[0][0], "sent:same", "the same id is sent as info hash and as peer id", where)
    r.oblige(bool(first), "sent:none", "no handshake is written", task)
    n = {"decoded": 0, "written": 0}
    for st, loc, what in gates:
        where = "%s:%d in %s" % loc[:3]
        r.cover("places that exchange messages", where)
        n[what] += 1
        nb, sent = st.mon.get("_read"), st.mon.get("_sent")
        k = known(st, nb) if nb is not None else {}
        r.oblige([k.get(i) for i in range(20)] == list(PSTR), "gate:%s:protocol" % what,
                 "a message is %s although the received handshake may be of another protocol" % what, where)
        h = flat_seq(I, st, sent)[28:48] if sent is not None else []
        r.oblige(len(h) == 20 and all(same_byte(k.get(28 + i), x) for i, x in enumerate(h)), "gate:%s:torrent" % what,
                 "a message is %s although the received handshake may be for another torrent" % what, where)
    for what in n:
        r.oblige(n[what] > 0, "gate:%s:none" % what, "no message is ever %s" % what, task)


def same_byte(a, b):
    return a == b if not isinstance(a, tuple) or not isinstance(b, tuple) else a[0] is b[0] and a[1] == b[1]


def flat_seq(I, st, data):
    return flat(data) if data is not None else []
