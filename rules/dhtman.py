"""Hooks for the task that manages the DHT: what it learns from responses, how it answers queries, what it does at its start and end."""
import models
from metainfo import values
from common import *
from udp import Obs

FROMQ = "FromConQuery"
FROMR = "FromConResp"


def cls(t):
    return (t or "").split("#")[0].split("<")[0].split("::")[-1]


def task(r):
    """the spawned task that owns the routing table"""
    def owns(k):
        b = r.prog.bodies[k]
        return any(cls(b.tystr(t)) == "RoutingTable" and not b.tystr(t).startswith("&") for t in b.ty(b.locals[1]).get("args", []))
    ts = [k for k in r.graph.tasks if k in r.prog.bodies and owns(k)]
    r.oblige(len(ts) == 1, "anchor:dht", "%d tasks own the routing table of the DHT" % len(ts), "")
    return ts[0] if len(ts) == 1 else None


def receiver(b):
    return b.tystr(b.locals[1]) if b is not None and b.argc >= 1 and not b.coroutine else ""


class Man(Obs):
    def __init__(self, r, root):
        super().__init__(r)
        self.root = root
        self.G = mk("G", "msg", C(0))
        b = r.prog.bodies[root]
        self.ups = {}
        for i, t in enumerate(b.ty(b.locals[1])["args"]):
            self.ups.setdefault(cls(b.tystr(t)), mk("f", mk("param", root, 1), "", str(i)) if False else field(mk("param", root, 1), "", str(i)))

    def conf(self, I):
        self.I = I
        I.no_inline = lambda k: self.opaque(k)
        I.on_await = self.sent
        I.on_call, I.on_agg, I.on_result, I.before_await = self.call, self.agg, self.result, self.waits
        I.maxsig = 600
        I.sigextra = self.kind
        self.types = {}
        self.vs = {cls(n): {int(x["discr"]): x["name"] for x in a["variants"]} for n, a in self.r.prog.adts.items() if cls(n) in (FROMQ, FROMR)}

    def opaque(self, k):
        b = self.r.prog.bodies.get(k)
        if b is None:
            return False
        if b.coroutine:
            return False
        c = self.r.prog.bodies.get(k + "::{closure#0}")
        if c is not None and c.coroutine:      # the table is stored
            return False
        t = receiver(b).replace("mut ", "").lstrip("&").split(" ")[-1]
        return cls(t) == "RoutingTable" or cls(t) == "Peers" and any("Mutex" in e for e in self.r.graph.reach_ext(k))

    def kind(self, st):
        """which message is being handled, once the code has looked"""
        if not st.mon.get("kind"):
            for f, v in st.facts.items():
                if f.op == "discr" and f.a[0].id in self.types:
                    n = self.vs[self.types[f.a[0].id]].get(v)
                    if n:
                        st.mon["kind"] = self.types[f.a[0].id] + "::" + n
                        break
        return None

    # the message being handled
    def part(self, t, variants, name):
        """t is the field `name` of the message received, of one of the variants"""
        vs = values(self.I, t)
        out = []
        for v in vs:
            if not (v.op == "f" and v.a[2] == name and v.a[1] in variants and v.a[0].op in ("opq", "f") and contains(v, lambda x: x.op == "opq" and "received" in str(x.a))):
                return None
            out.append((v.a[0], v.a[1]))
        return out or None

    def result(self, I, st, c, name, v):
        if "broadcast" in name and name.endswith("::recv"):
            st.mon["told"] = "1"
        if name.endswith("::flush") and st.mon.get("written") and not (v.op == "agg" and v.a[1] == "Err"):
            st.mon["stored"] = "1"
        if name.endswith(("::sync_all", "::sync_data", "fs::write")) and st.mon.get("written"):
            st.mon["stored"] = "1"
        if not name.endswith("::recv") or v.op != "agg" or not v.a[3]:
            return
        t = next((t for t in (FROMR, FROMQ) if t + ">" in (c.tname(0) or "")), None)
        if t:
            self.types[v.a[3][0].id] = t
            st.mon["got"] = t

    def sent(self, I, st, c, name, vs):
        """the encoded table is written"""
        if name.endswith(("::write_all", "fs::write")):
            ok = st.mon.get("encoded") and any(contains(y, lambda x: x.op == "opq" and "serialize" in str(x.a)) for v in vs for y in values(I, v))
            self.oblige(I, c.ctx, c.bb, ok, "keep:what", "what is written isn't the routing table as it is then, but %s" % show(vs[-1])[-80:])
            if ok:
                st.mon["written"] = "1"

    def waits(self, I, st, c, name):
        if name.split("::")[-1] not in ("recv", "sleep", "sleep_until", "tick"):
            return
        k = st.mon.get("kind")
        if k in (FROMR + "::Touch", FROMR + "::NewNodes"):
            self.oblige(I, c.ctx, c.bb, bool(st.mon.get("learnt")), "learn:all", "a node that answered isn't recorded (%s)" % k)
        if k == FROMQ + "::NewPeer":
            self.oblige(I, c.ctx, c.bb, bool(st.mon.get("kept")), "answer:kept", "a peer that announced itself isn't stored")
        if st.mon.get("got") and not k:
            seen = any(f.op == "discr" and f.a[0].id in self.types for d in (st.facts, st.ne) for f in d)
            self.oblige(I, c.ctx, c.bb, seen, "learn:unseen" if st.mon["got"] == FROMR else "answer:unseen", "a message is dropped without a look at its kind")
        for k in ("learnt", "answered", "kept", "kind", "got"):
            st.mon.pop(k, None)
        for d in (st.facts, st.ne):
            for f in [f for f in d if f.op == "discr" and f.a[0].id in self.types]:
                del d[f]

    def call(self, I, st, c, args):
        b = self.r.prog.bodies.get(c.res or "")
        rec = receiver(b)
        if rec.startswith("&mut") and cls(rec.split(" ")[-1]) == "RoutingTable":
            tys = [b.tystr(b.locals[i + 1]) for i in range(b.argc)]
            vs = I.vals(st, args)
            ids = [v for v, t in zip(vs, tys) if cls(t) == "ID"]
            ads = [v for v, t in zip(vs, tys) if "SocketAddrV4" in t]
            ok = len(ids) == len(ads) == 1
            self.oblige(I, c.ctx, c.bb, ok, "learn:other", "the routing table is changed by %s" % c.res)
            if ok:
                i, a = self.part(ids[0], ("Touch", "NewNodes"), "id"), self.part(ads[0], ("Touch", "NewNodes"), "from")
                self.oblige(I, c.ctx, c.bb, bool(i) and i == a, "learn:who", "a node is recorded with id %s at %s" % (show(ids[0])[-60:], show(ads[0])[-60:]))
                st.mon["learnt"] = "1"
        self.peers(I, st, c, args, b, rec)
        n = c.res or c.name
        if n.split("::")[-1].startswith("serialize") and n.startswith("bincode::"):
            if cls((c.tname(0) or "").lstrip("&").split(" ")[-1]) == "RoutingTable" or "T" == c.tname(0):
                st.mon["encoded"] = "1"
        if n in ("tokio::spawn", "tokio::task::spawn"):
            self.oblige(I, c.ctx, c.bb, not st.mon.get("fetcher"), "keep:fetcher", "peers of the torrent are looked up by several tasks")
            st.mon["fetcher"] = "1"

    def guard(self, I, st, v, base):
        """the message's info hash is that of the torrent: 1, 0 or unknown"""
        h = field(self.ups["Peers"], "", "info_hash")
        t = I.truth(st, mk("eq", v, h))
        return t if t is not None else I.truth(st, mk("eq", h, v))

    def peers(self, I, st, c, args, b, rec):
        kind = (st.mon.get("kind") or "").split("::")
        rt = rec.replace("mut ", "").lstrip("&").split(" ")[-1]
        if cls(rt) == "Peers":
            tys = [b.tystr(b.locals[i + 1]).lstrip("&") for i in range(b.argc)]
            vs = I.vals(st, args)
            new = [v for v, t in zip(vs[1:], tys[1:]) if cls(t) == "Peer"]
            if new:
                w = self.part(new[0], ("NewPeer",), "new_peer")
                self.oblige(I, c.ctx, c.bb, bool(w), "answer:peer", "the peer that is stored is %s" % show(new[0])[-80:])
                self.oblige(I, c.ctx, c.bb, bool(w) and all(self.guard(I, st, field(m, v, "info_hash"), m) == 1 for m, v in w), "answer:torrent", "a peer may become one of this torrent that announced itself for another")
                st.mon["kept"] = "1"
            elif "usize" in tys:
                ms = [m for m, t in self.types.items() if t == FROMQ]
                ok = kind == [FROMQ, "GetPeers"] and any(self.guard(I, st, x, None) == 1 for f in st.facts for y in f.a if f.op == "eq" for x in [y] if self.part(x, ("GetPeers",), "info_hash"))
                self.oblige(I, c.ctx, c.bb, ok, "answer:own", "peers of this torrent may be given for another info hash")
        n = c.name
        last = n.split("::")[-1]
        if n.startswith("std::collections::HashMap::") and cls(c.tname(0)) == "ID" and cls(c.tname(1)) == "HashSet" and last in ("entry", "get", "get_mut", "insert", "remove", "contains_key"):
            vs = I.vals(st, args)
            w = self.part(vs[1], ("GetPeers", "NewPeer"), "info_hash")
            self.oblige(I, c.ctx, c.bb, bool(w), "answer:hash", "peers are looked up or stored under %s" % show(vs[1])[-80:])
            self.oblige(I, c.ctx, c.bb, last != "remove", "answer:forgotten", "peers that announced themselves are forgotten")
            if last == "insert":
                self.newset(I, st, c, vs[2])
        elif last == "insert" and "HashSet" in n and cls(c.tname(0)) == "Peer" and kind == [FROMQ, "NewPeer"]:
            vs = I.vals(st, args)
            p = models.innermost(I, st, args[0])
            keys = [x[1] for x in I.deref(p)[1] if x[0] == "k"] if p.op == "ptr" else []
            ok = bool(self.part(vs[1], ("NewPeer",), "new_peer"))
            self.oblige(I, c.ctx, c.bb, ok, "answer:peer", "the peer that is stored is %s" % show(vs[1])[-80:])
            if ok and (not keys or all(self.part(k, ("NewPeer",), "info_hash") for k in keys)):
                st.mon["kept"] = "1"
        elif last == "insert" and "VacantEntry" in n and kind == [FROMQ, "NewPeer"]:
            e, v = I.vals(st, args)
            self.newset(I, st, c, v)

    def newset(self, I, st, c, v):
        ps = [x for y in values(I, v) for x in subterms(y) if x.op == "f" and x.a[1] == "NewPeer"]
        if ps:
            self.oblige(I, c.ctx, c.bb, all(x.a[2] == "new_peer" for x in ps), "answer:peer", "the peer that is stored is %s" % show(v)[-80:])
            st.mon["kept"] = "1"

    def agg(self, I, st, ctx, v, sp):
        if v.op != "agg" or cls(v.a[0]) != "ToCon":
            return
        x = dict(zip(v.a[2], v.a[3]))
        bb = 0

        def ob(ok, key, msg):
            if I.recording:
                o = self.obs.setdefault(key, [0, 0, "", ""])
                o[0] += 1
                o[1] += bool(ok)
                if not ok and not o[2]:
                    o[2], o[3] = msg, "%s:%s in %s" % (sp[0], sp[1], ctx.body.key)
        if v.a[1] == "Resp":
            w = x["variant"]
            kind = (st.mon.get("kind") or "").split("::")[-1]
            ob(w.op == "agg" and w.a[1] == kind, "answer:kind", "a query is answered by a message of another kind")
            ob(bool(self.part(x["query_id"], (kind,), "query_id")), "answer:id", "the answer carries the id %s" % show(x["query_id"])[-80:])
            ob(not st.mon.get("answered"), "answer:once", "a query is answered twice")
            st.mon["answered"] = "1"
            if w.op != "agg" or not w.a[3]:
                return
            for y in values(I, w.a[3][0]):
                if y.op == "agg" and y.a[1] == "Values":
                    continue
                for z in values(I, y.a[3][0]) if y.op == "agg" else [y]:
                    ms = [t for t in subterms(z) if t.op == "f" and t.a[1] == kind and t.a[0].op == "opq"]
                    want = "target" if kind == "FindNode" else "info_hash"
                    ok = bool(ms) and all(t.a[2] == want for t in ms) and contains(z, lambda t: t.op == "opq" and "received" not in str(t.a[:3]))
                    ob(ok, "answer:nodes", "the answer to %s has nodes that weren't looked up for its %s: %s" % (kind, want, show(z)[-100:]))
        elif v.a[1] == "Query":
            w = x["variant"]
            for w in values(I, w):
                if w.op != "agg" or w.a[1] != "FindNode":
                    continue
                ts = values(I, w.a[3][0])
                for a in values(I, x["target"]):
                    ok = a.op == "f" and a.a[2] == "addr" and any(contains(a, lambda y: y is t) for t in ts)
                    ob(ok, "keep:refresh", "the node asked for the neighbourhood of an id isn't the closest one to that id known: %s" % show(a)[-100:])


def run(r):
    root = task(r)
    if not root:
        return None, None
    M = Man(r, root)
    I = r.engine(root, conf=M.conf, tag="manager")
    for f in sorted(I.inlined):
        r.cover("functions", f)
    return M, I
