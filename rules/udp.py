"""Hooks for the task that owns the DHT socket."""
from common import *
from terms import field

DEC = "bendy::serde::from_bytes"
ENC = "bendy::serde::to_bytes"
FROMQ = "dht::connection::channel_message::from_connection::FromConQuery"
FROMR = "dht::connection::channel_message::from_connection::FromConResp"
KINDS = ("Ping", "FindNode", "GetPeers", "AnnouncePeer")
# which queries a response of that shape can answer: an announce_peer response has the fields of a ping response
ANSWERS = {"Ping": {"Ping", "AnnouncePeer"}, "AnnouncePeer": {"Ping", "AnnouncePeer"}, "FindNode": {"FindNode"}, "GetPeers": {"GetPeers"}}


class Obs:
    """obligations met at places of the interpreted program, merged by key"""

    def __init__(self, r):
        self.r, self.obs = r, {}

    def oblige(self, I, ctx, bb, ok, key, msg):
        if not I.recording:
            return
        o = self.obs.setdefault(key, [0, 0, "", ""])
        o[0] += 1
        if ok:
            o[1] += 1
        elif not o[2]:
            loc = I.loc(ctx, bb)
            o[2], o[3] = msg, "%s:%d in %s" % (loc[0], loc[1], loc[2])

    def flush(self, prefix, need):
        for k, (n, g, msg, where) in sorted(self.obs.items()):
            if k.startswith(prefix):
                self.r.obligations += n
                self.r.discharged += g
                self.r.cover("transfer rules", "%s (%d places x partitions)" % (k, n))
                if g < n:
                    self.r.violate(k, msg, where)
        for k in need:
            self.r.oblige(k in self.obs, k + ":none", "the code that %s is gone" % need[k], "")


def projections(t, adtvariants):
    """(root, variant, field) of every enum field read inside t"""
    for x in subterms(t):
        if x.op == "f" and x.a[1] in adtvariants:
            yield x.a[0], x.a[1], x.a[2], x


def sender_of(t):
    """the SocketAddrV4 inside a datagram's source address"""
    return field(t, "V4", "0")


class Udp(Obs):
    def conf(self, I):
        I.on_call, I.on_await, I.on_io = self.call, self.awaited, self.io
        self.kindof = {}       # stored request type -> kinds of queries registered with it
        self.secrets = set()
        self.late = []

    # -- received datagrams
    def io(self, I, st, c, what, ptr, n):
        if what == "recv_from":
            st.env[mk("G", "rxlen", C(0))] = n
            st.env[mk("G", "rxbuf", C(0))] = ptr
            st.env[mk("G", "rxsrc", C(0))] = mk("opq", c.site, "srcaddr")

    def src(self, st):
        a = st.env.get(mk("G", "rxsrc", C(0)))
        return sender_of(a) if a is not None and a.op == "opq" else None

    def call(self, I, st, c, args):
        n = c.name
        if n == DEC and "krpc_message::Message" in (c.dtname() or ""):
            self.decode(I, st, c, args)
        elif n.startswith("std::collections::HashMap") and n.endswith(("::remove", "::remove_entry")):
            vs = I.vals(st, args)
            st.mon["_taken"] = st.mon.get("_taken", frozenset()) | {vs[1]}
        elif n.startswith("std::collections::HashMap") and n.endswith("::insert"):
            vs = I.vals(st, args)
            st.mon["_ins"] = (vs[1], vs[2])
        elif n == ENC and "krpc_message::Message" in (c.atys and c.body.tystr(c.atys[0]) or ""):
            self.encode(I, st, c, args)
        elif n.startswith("tokio::sync::mpsc") and n.split("::")[-1] in ("try_send",):
            self.handover(I, st, c.ctx, c.bb, I.vals(st, args))

    def awaited(self, I, st, c, name, vs):
        if "mpsc" in name and name.split("::")[-1] == "send":
            self.handover(I, st, c.ctx, c.bb, vs)
        if name == "tokio::net::UdpSocket::recv_from" or name.endswith("Receiver::<T>::recv"):
            st.mon.pop("_taken", None)
            st.mon.pop("_ins", None)
        if name == "tokio::net::UdpSocket::send_to":
            self.transmit(I, st, c, vs)

    def decode(self, I, st, c, args):
        ok = False
        what = "something else"
        p = args[0]
        n = st.env.get(mk("G", "rxlen", C(0)))
        b = st.env.get(mk("G", "rxbuf", C(0)))
        if p.op == "ptr" and n is not None and b is not None and b.op == "ptr":
            base, off, ln = self.flatptr(I, st, p)
            base2, off2, _ = self.flatptr(I, st, b)
            ok = base is base2 and eq(st, off, off2) and ln is not None and eq(st, ln, n)
            what = "%s bytes of the buffer from %s on" % (show(ln)[:60], show(off)[:40])
        self.oblige(I, c.ctx, c.bb, ok, "decode:exact", "decodes %s, not the bytes of the datagram that was received" % what)

    def flatptr(self, I, st, p):
        base, path = p.a[0], list(p.a[1])
        ln = length(I.read(st, p.a[0], p.a[1]))
        off = C(0)
        while path and path[-1][0] == "s":
            off = badd(off, path[-1][1], "usize")
            path.pop()
        return mk("buf", base, tuple(path)), off, ln

    # -- tokens
    def sha(self, st, t):
        """(secret, address) when t is SHA1(secret ++ ip octets of address)"""
        t = unwrap_bytes(t)
        if t.op != "sha1":
            return None
        ps = parts(t.a[0])
        if len(ps) != 2:
            return None
        sec, ip = ps
        if ip.op in ("f", "call", "g") and contains(ip, lambda x: x.op == "f" and x.a[2] == "ip"):
            a = [x for x in subterms(ip) if x.op == "f" and x.a[2] == "ip"][0]
            if a.a[1] == "" and ip is field(field(a.a[0], "", "ip"), "", "octets"):
                return sec, a.a[0]
        return None

    def token_checked(self, st, q):
        """the fact that the token in the query q is the one of the sender of the datagram"""
        src = self.src(st)
        for t, v in st.facts.items():
            if t.op == "eq" and v == 1:
                for x, y in ((t.a[0], t.a[1]), (t.a[1], t.a[0])):
                    s = self.sha(st, x)
                    y = unwrap_bytes(y)
                    if s and s[1] is src and y.op == "f" and y.a[1] == "AnnouncePeer" and y.a[2] == "token" and y.a[0] is q:
                        return s[0]
        return None

    def handover(self, I, st, ctx, bb, vs):
        if len(vs) < 2 or vs[1].op != "agg":
            return
        v = vs[1]
        if v.a[0] == FROMQ:
            self.query(I, st, ctx, bb, v)
        elif v.a[0] == FROMR:
            self.response(I, st, ctx, bb, vs[0], v)

    def query(self, I, st, ctx, bb, v):
        src = self.src(st)
        roots = [p for p in projections(v, KINDS)]
        kind = {"FindNode": "FindNode", "GetPeers": "GetPeers", "NewPeer": "AnnouncePeer"}.get(v.a[1])
        if kind is None or src is None:
            return
        q = roots[0][0] if roots else None
        name = {"FindNode": "target", "GetPeers": "info_hash", "NewPeer": "info_hash"}[v.a[1]]
        self.oblige(I, ctx, bb, q is not None and field(v, v.a[1], name) is field(q, kind, name), "query:%s:content" % v.a[1],
                    "%s isn't handed over with the %s of the query" % (v.a[1], name))
        if v.a[1] == "NewPeer":
            sec = self.token_checked(st, q) if q is not None else None
            self.oblige(I, ctx, bb, sec is not None, "token:checked", "a peer is announced although the token in the query may not be the one that was given to the sender's address")
            if sec is not None and I.recording:
                self.secrets.add(sec)
            a = unwrap_new(field(v, "NewPeer", "new_peer"), "std::net::SocketAddrV4")
            ok = q is not None and same_addr(a, field(src, "", "ip"), field(q, "AnnouncePeer", "port"))
            self.oblige(I, ctx, bb, ok, "token:peer", "the announced peer isn't the sender's ip with the port in the query: %s" % show(a)[:120])
        else:
            qid = field(v, v.a[1], "query_id")
            ok = field(qid, "", "target") is src
            self.oblige(I, ctx, bb, ok, "query:%s:sender" % v.a[1], "the query is handed over with an address that isn't its sender's")

    # -- responses
    def response(self, I, st, ctx, bb, ch, v):
        src = self.src(st)
        ps = [p for p in projections(v, KINDS)]
        kinds = {p[1] for p in ps}
        if len(kinds) != 1 or src is None:
            self.oblige(I, ctx, bb, False, "deliver:source", "what is delivered doesn't come from one received response: %s" % show(v)[:120])
            return
        kind = kinds.pop()
        want = {"FindNode": "NewNodes", "GetPeers": "GetPeers"}.get(kind, "Touch")
        self.oblige(I, ctx, bb, v.a[1] == want and all(x is src or any(p[3] is unwrap_bytes(x) or p[3] is x for p in ps) for x in v.a[3]), "deliver:content",
                    "a %s response is delivered as %s" % (kind, show(v)[:140]))
        if not (ch.op == "f" and ch.a[0].op == "mapget"):
            ch = unwrap_bytes(ch)
        ent = next((x for x in subterms(ch) if x.op == "mapget"), None)
        self.oblige(I, ctx, bb, ent is not None, "deliver:pending", "a response is delivered to %s, which isn't the channel of a pending query" % show(ch)[:100])
        if ent is None:
            return
        key = ent.a[1]
        self.oblige(I, ctx, bb, key in st.mon.get("_taken", ()), "deliver:once", "the pending query stays registered after its response was delivered")
        if I.recording:
            loc = I.loc(ctx, bb)
            tys = [t for t in st.facts if t.op == "discr" and contains(t, lambda x: x is ent)] + [t for t in st.ne if t.op == "discr" and contains(t, lambda x: x is ent)]
            ok_only = None
            for t in tys:
                if t in st.facts:
                    ok_only = {st.facts[t]}
                else:
                    ok_only = set(range(12)) - set(st.ne[t])
            self.late.append((kind, ok_only, "%s:%d in %s" % (loc[0], loc[1], loc[2])))

    # -- sent messages
    def encode(self, I, st, c, args):
        m = I.vals(st, args)[0]
        if m.op != "agg":
            self.oblige(I, c.ctx, c.bb, False, "sent:shape", "a message is sent whose content cannot be followed: %s" % show(m)[:80])
            return
        body = [x for x in m.a[3] if x.op == "agg" and x.a[1] in KINDS]
        tid = field(m, m.a[1], "transaction_id")
        st.mon["enc"] = m.a[1]
        st.mon["_msg"] = (m.a[1], body[0].a[1] if body else "", tid)
        if m.a[1] == "Query" and body:
            k = body[0].a[1]
            ins = st.mon.get("_ins")
            self.oblige(I, c.ctx, c.bb, ins is not None and ins[0] is tid, "registered:tid", "a query is sent whose transaction id isn't registered as pending")
            if ins is not None and ins[0] is tid:
                ty = [x for x in subterms(ins[1]) if x.op == "agg" and x.a[1] and x.a[0].startswith("dht::")]
                roots = {x.a[0] for x in subterms(ins[1]) if x.op == "f" and x.a[1] == "Query" and x.a[2] == "resp_returner"}
                cmd = {x.a[0] for x in subterms(body[0]) if x.op == "f" and x.a[1] == "Query"}
                self.oblige(I, c.ctx, c.bb, len(roots) == 1 and cmd <= roots, "registered:requester", "the channel registered for a query isn't the one of the requester")
                self.oblige(I, c.ctx, c.bb, len(ty) == 1, "registered:type", "the kind of the query isn't registered: %s" % show(ins[1])[:80])
                if len(ty) == 1 and I.recording:
                    a = I.prog.adt(ty[0].a[0])
                    vs = [x["name"] for x in a["variants"]]
                    self.kindof.setdefault(vs.index(ty[0].a[1]), set()).add(k)
        if m.a[1] == "Response" and body:
            if body[0].a[1] == "GetPeers":
                s = self.sha(st, field(body[0], "GetPeers", "token"))
                self.oblige(I, c.ctx, c.bb, s is not None, "token:issued", "the token of a get_peers response isn't a hash of the secret and the querying node's address: %s" % show(field(body[0], "GetPeers", "token"))[:120])
                if s:
                    t = strip(tid)
                    q = t.a[0] if t.op == "f" and t.a[2] == "transaction_id" else None
                    self.oblige(I, c.ctx, c.bb, q is not None and field(q, "", "target") is s[1], "token:address", "the token of a get_peers response is made for an address that isn't the querying node's")
                    if I.recording:
                        self.secrets.add(s[0])

    def transmit(self, I, st, c, vs):
        m = st.mon.get("_msg")
        if m is None:
            return
        if m[0] == "Response":
            t = strip(m[2])
            if t.op == "f" and t.a[2] == "transaction_id" and t.a[0].op == "f" and t.a[0].a[2] == "query_id":
                self.oblige(I, c.ctx, c.bb, vs[2] is field(t.a[0], "", "target") or vs[2].op == "phi", "sent:target", "a response isn't sent to the node whose transaction id it carries")
        st.mon.pop("enc", None)
        st.mon.pop("_msg", None)


def strip(t):
    while t.op == "call" and t.a[0] in ("clone", "to_owned") and len(t.a) == 2:
        t = t.a[1]
    return t


def unwrap_new(t, adt):
    while t.op == "agg" and t.a[0] != adt and len(t.a[3]) == 1:
        t = t.a[3][0]
    return t


def same_addr(a, ip, port):
    return field(a, "", "ip") is ip and field(a, "", "port") is port
