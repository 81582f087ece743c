"""The task that owns the DHT socket is abstractly interpreted over MIR with every datagram, source address and
command unknown: every panic condition it can reach is an obligation, and so is, at each decode, that the bytes decoded are
exactly those of the datagram.  The hand-written serde visitors, which the bencode library calls back, are analysed as roots of their own
with every byte string."""
import anchors
import udp
from common import *


def check(r):
    task = anchors.udp_task(r)
    if not task:
        return
    U = udp.Udp(r)
    r.rule("every panic condition reachable from the task, other than failing to bind the socket at its start, is unreachable")
    r.rule("the bytes decoded are the first n of the buffer, n being what recv_from returned for it")
    before = set()

    def conf(I):
        U.conf(I)
        I.on_panic = lambda I, st, ctx, bb, key: before.add((key, st.mon.get("bound")))
        I.on_result = lambda I, st, c, name, x: st.mon.__setitem__("bound", x.a[1]) if name == "tokio::net::UdpSocket::bind" and x.op == "agg" else None

    I = r.engine(task, conf=conf, tag="udp-panic")
    r.no_panic(I, task, skip=lambda loc, kind, o: o["bad"] and {b for k, b in before if k == (loc, kind)} == {"Err"})
    U.flush("decode:", {"decode:exact": "decodes received datagrams"})
    n = 0
    for key, b in sorted(r.prog.bodies.items()):
        if b.impl_trait == "serde::de::Visitor" and key.split("::")[-1].startswith("visit_") and not b.sp[3]:
            n += 1
            V = r.engine(key)
            r.no_panic(V, key)
            r.cover("decoders called back by serde", key)
    r.oblige(n >= 3, "visitors", "the hand-written decoders are gone", "")
