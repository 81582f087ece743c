"""Abstract run of the task that owns a peer's connection: every return is in a state where the task was shut down or has just
told the manager that its peer is unreachable or disconnected.  Abstract run of the torrent manager: it waits for the next message only
in states whose facts say that the last one was no such report, or in which the peer was removed from both tables and put on the list
of peers to give back; the list is cleared only after it was given back.  Abstract run of the downloader: it waits for nothing after one of its channels was closed."""
import anchors
import manager
import models
from common import *
from udp import Obs

MSG = manager.MSG
CMSG = "peers::connection::connection_manager::ConnectionMessage"
ENDS = ("Unreachable", "Disconnected")
STATUS = "peers::active_peers::Status"
PEER = "peers::peer::Peer"
BM = "data_structures::bitmap::Bitmap"
GIVE = "peers::active_peers::Peers::return_batch_of_bad_peers_and_get_new_batch"


def check(r):
    connection(r)
    table(r)
    downloader(r)


def connection(r):
    t = anchors.peer_task(r)
    if not t:
        return
    r.rule("the task that owns a peer's connection returns only after its shutdown was received or after it sent Unreachable or Disconnected, once, for its own peer")
    obs = Obs(r)

    def awaited(I, st, c, name, vs):
        if name.split("::")[-1] != "send" or len(vs) < 2 or vs[1].op != "agg" or vs[1].a[0] != CMSG:
            return
        m, p = field(vs[1], "", "message"), field(vs[1], "", "peer")
        obs.oblige(I, c.ctx, c.bb, p.op == "f" and p.a[0].op == "param", "end:peer", "a message is reported for another peer than the connection's: %s" % show(p)[:80])
        obs.oblige(I, c.ctx, c.bb, not st.mon["end"], "end:last", "a message is reported after the end of the connection was")
        if m.op == "agg" and m.a[1] in ENDS:
            st.mon["end"] = m.a[1]

    def result(I, st, c, name, x):
        if name.startswith("tokio::sync::broadcast::Receiver") and name.endswith("recv"):
            st.mon["end"] = "shutdown"

    def conf(I):
        I.on_await, I.on_result = awaited, result

    def setup(I, st, ctx):
        st.mon["end"] = ""

    I = r.engine(t, conf=conf, setup=setup, tag="end")
    for f in sorted(I.inlined):
        r.cover("functions", f)
    obs.flush("end:", {"end:peer": "reports messages to the manager"})
    n = 0
    for v, st, e in returns(I):
        n += 1
        r.oblige(bool(st.mon.get("end")), "end:report", "the connection's task can end without a report to the manager, which keeps waiting for its peer", t)
    r.oblige(n > 0, "end:returns", "the connection's task has no end", t)


def table(r):
    t = manager.task(r)
    if not t:
        return
    r.rule("the manager waits for the next message only in states in which the peer of a reported end is in none of its tables, and is on the list of peers to give back if it was active")
    r.rule("the list of peers to give back is cleared only after it was handed to the peer pool; a peer that is connected to is put in the table of active peers")
    obs = Obs(r)
    variants = {v["name"]: v.get("discr", i) for i, v in enumerate(r.prog.adt(MSG)["variants"])}
    kinds = {}
    for k, a in r.prog.adts.items():
        if a["kind"] == "struct":
            ty = " ".join(f[1] for f in a["variants"][0]["fields"])
            if "shutdown::Sender" in ty:
                kinds[k.split("#")[0]] = "connections"
            elif BM in ty:
                kinds[k.split("#")[0]] = "active peers"
    maps = {}

    def msg_of(st):
        return st.mon.get("_msg")

    def ended(st):
        m = msg_of(st)
        if m is None:
            return None
        v = st.facts.get(mk("discr", field(m, "", "message")))
        return next((e for e in ENDS if v == variants[e]), None)

    def may_end(st, m):
        d = mk("discr", field(m, "", "message"))
        v = st.facts.get(d)
        return [e for e in ENDS if (v is None or v == variants[e]) and not (d in st.ne and variants[e] in st.ne[d])]

    def has(I, st, name, k):
        base, path = maps[name]
        return I.truth(st, models.map_has(I, st, I.read(st, base, path), k))

    def removed(I, st, c, p, k):
        if p.op == "ptr" and maps.get("active peers") == (p.a[0], p.a[1]):
            m = msg_of(st)
            if m is not None and k is field(m, "", "peer"):
                st.mon["back"] = ("owed",)

    def handled(I, st, ctx, bb):
        m = msg_of(st)
        if m is None:
            return
        e = ended(st)
        if e is None:
            obs.oblige(I, ctx, bb, not may_end(st, m), "slot:known", "the end of a connection (%s) isn't told from other messages" % ", ".join(may_end(st, m)))
            return
        k = field(m, "", "peer")
        for name in maps:
            obs.oblige(I, ctx, bb, has(I, st, name, k) == 0, "slot:%s:%s" % (e, name), "after %s the peer stays in the table of %s: its slot isn't free again" % (e, name))
        obs.oblige(I, ctx, bb, st.mon.get("back") in ((e,), ()), "back:%s" % e, "after %s the peer isn't given back to the pool of peers" % e)

    def called(I, st, c, args):
        last = c.name.split("::")[-1]
        if c.name.startswith("std::collections::HashMap") and len(c.targs) > 1 and (c.tname(0) or "") == PEER and c.tname(1) in kinds and args and args[0].op == "ptr":
            maps[kinds[c.tname(1)]] = (args[0].a[0], tuple(x for x in args[0].a[1] if x[0] != "k"))
        if c.name.startswith("std::vec::Vec") and (c.tname(0) or "").replace(" ", "") == "(%s,%s)" % (PEER, STATUS) and args and args[0].op == "ptr":
            if last == "push":
                v = I.vals(st, args)[1]
                m, e = msg_of(st), ended(st)
                good = m is not None and v.op == "agg" and field(v, "", "0") is field(m, "", "peer")
                obs.oblige(I, c.ctx, c.bb, good, "back:peer", "a peer is given back that isn't the one whose connection ended")
                s = field(v, "", "1") if v.op == "agg" else v
                if e:
                    ok = s.op == "agg" and (s.a[1] == "UnableToConnect" if e == "Unreachable" else s.a[1] not in ("UnableToConnect", "Active"))
                    obs.oblige(I, c.ctx, c.bb, ok, "back:status:%s" % e, "after %s the peer is given back as %s" % (e, show(s)[:60]))
                    if good:
                        st.mon["back"] = (e,)
                st.mon["given"] = 0
            elif last in ("clear", "truncate", "drain", "pop", "remove", "swap_remove"):
                obs.oblige(I, c.ctx, c.bb, st.mon.get("given") == 1, "back:clear", "peers are dropped from the list to give back before the pool got them")
        if c.name == GIVE:
            st.mon["given"] = 1

    def result(I, st, c, name, x):
        if name.endswith("Receiver::<T>::recv"):
            st.mon["_msg"] = x.a[3][0] if x.op == "agg" and x.a[3] else None
            st.mon["back"] = ()

    def before(I, st, c, name):
        if name.endswith(("Receiver::<T>::recv", "::tick")):
            handled(I, st, c.ctx, c.bb)
            st.mon["_msg"] = None
            st.mon["back"] = ()

    def conf(I):
        manager.Manager(r).conf(I)
        I.on_await = None
        I.on_call, I.before_await, I.on_result, I.sigextra = called, before, result, ended
        I.on_remove = removed

    I = r.engine(t, conf=conf, tag="slots")
    r.oblige(len(maps) == 2, "anchor:tables", "the manager no longer holds its connections and active peers in maps keyed by peer (found %s)" % ", ".join(sorted(maps)), t)
    for f in sorted(I.inlined):
        r.cover("functions", f)
    obs.flush("slot:", {"slot:%s:%s" % (e, n): "handles %s" % e for e in ENDS for n in maps})
    obs.flush("back:", {"back:%s" % e: "gives back the peer after %s" % e for e in ENDS})


def downloader(r):
    r.rule("the downloader of a peer waits for nothing after one of its channels was closed")
    d = anchors.downloader(r)
    if not d:
        return
    obs = Obs(r)

    def awaited(I, st, c, name, vs):
        obs.oblige(I, c.ctx, c.bb, not st.mon["closed"], "closed:wait", "after a channel of the downloader was closed it waits for %s" % name.split("::")[-1])

    def result(I, st, c, name, x):
        if name.endswith("Receiver::<T>::recv") and x.op == "agg" and x.a[1] == "None":
            st.mon["closed"] = 1

    def conf(I):
        I.on_await, I.on_result = awaited, result

    def setup(I, st, ctx):
        st.mon["closed"] = 0

    I = r.engine(d, conf=conf, setup=setup, tag="closed")
    for f in sorted(I.inlined):
        r.cover("functions", f)
    obs.flush("closed:", {"closed:wait": "waits for blocks"})
