"""Ghost bookkeeping for the task that owns a peer's TCP stream."""
from common import *

MSG = "peers::connection::message::Message"


class Ghost:
    """P: offset in the buffer of the first byte not decoded yet, N: how many such bytes there are,
    R: what the last read returned, less one
    (-1: error, or 0 bytes, which is the end of the stream).  Each rule of C02/C03 is a condition on these at a transfer."""

    def __init__(self, r, frame=False, deliver=False):
        self.r, self.frame, self.deliver = r, frame, deliver
        self.obs = {}          # key -> [n, n_ok, message, construct]

    def oblige(self, I, ctx, bb, ok, key, msg):
        if not I.recording:
            return
        o = self.obs.setdefault(key, [0, 0, "", ""])
        o[0] += 1
        if ok:
            o[1] += 1
        elif not o[2]:
            loc = I.loc(ctx, bb)
            o[2], o[3] = msg, "%s:%d in %s" % (loc[0], loc[1], loc[2])

    def flush(self, keys=None):
        for k, (n, g, msg, where) in sorted(self.obs.items()):
            if keys and not any(k.startswith(x) for x in keys):
                continue
            self.r.obligations += n
            self.r.discharged += g
            self.r.cover("transfer rules", "%s (%d sites x partitions)" % (k, n))
            if g < n:
                self.r.violate(k, msg, where)

    # -- ghost variables
    def g(self, st, name, buf):
        return st.env.get(mk("G", name, buf), C(0))

    def s(self, st, name, buf, v):
        st.env[mk("G", name, buf)] = v

    @staticmethod
    def split(ptr):
        """(buffer, offset in it)"""
        base, path = ptr.a[0], list(ptr.a[1])
        off = C(0)
        while path and path[-1][0] == "s":
            off = badd(off, path[-1][1], "usize")
            path.pop()
        return mk("buf", base, tuple(path)), off

    # -- hooks
    def io(self, I, st, c, what, ptr, n):
        if ptr.op != "ptr":
            self.oblige(I, c.ctx, c.bb, False, "frame:buffer", "bytes are read into a place that cannot be followed: %s" % show(ptr)[:80])
            return
        buf, off = self.split(ptr)
        if what == "copy_within" and not self.frame:
            return
        if what == "copy_within":
            lo, hi, dst = n
            P, N = self.g(st, "P", buf), self.g(st, "N", buf)
            a = badd(off, lo, "usize")
            good = eq(st, a, P) and le(st, N, bsub(hi, lo, "usize"))
            self.oblige(I, c.ctx, c.bb, good, "frame:move", "moves bytes %s..%s, the bytes not decoded yet are %s of them at %s" % (show(a), show(hi), show(N), show(P)))
            self.s(st, "P", buf, badd(off, dst, "usize"))
            return
        if what == "read_err":
            self.s(st, "R", buf, C(-1))
            return
        if what != "read":
            return
        if self.frame:
            P, N = self.g(st, "P", buf), self.g(st, "N", buf)
            if le(st, N, C(0)):
                P = off
                self.s(st, "P", buf, off)
                self.s(st, "N", buf, n)
            else:
                self.oblige(I, c.ctx, c.bb, eq(st, off, badd(P, N, "usize")), "frame:append",
                            "reads to offset %s, but the bytes received before end at %s" % (show(off)[:60], show(badd(P, N, "usize"))[:60]))
                self.s(st, "N", buf, badd(N, n, "usize"))
            return
        self.oblige(I, c.ctx, c.bb, not st.mon.get("undelivered"), "deliver:read", "reads on before a decoded %s was handed over" % st.mon.get("undelivered"))
        self.oblige(I, c.ctx, c.bb, le(st, C(0), self.g(st, "R", buf)), "eof:read",
                    "reads from the stream again although it may have ended (the last read may have returned an error or 0 bytes)")
        self.s(st, "R", buf, badd(n, C(-1)))
        room = length(I.read(st, ptr.a[0], ptr.a[1]))
        self.oblige(I, c.ctx, c.bb, le(st, C(1), room), "room:read", "reads into a slice that may be empty, which looks like the end of the stream")

    def enter_fn(self, I, st, nc, body):
        for k in [k for k in st.env if k.op == "G" and k.a[1].op == "buf" and k.a[1].a[0].op == "L" and k.a[1].a[0].a[0] == nc.id]:
            del st.env[k]      # a new activation: its buffer is a new one
        if body.key != MSG + "::from_buf":
            return
        ptr = I.get(st, I.L(nc, 1))
        par, bb = nc.parent, nc.bb
        if ptr.op != "ptr":
            self.oblige(I, par, bb, False, "frame:decode", "decodes bytes that cannot be followed: %s" % show(ptr)[:80])
            return
        if self.frame:
            buf, off = self.split(ptr)
            P, N = self.g(st, "P", buf), self.g(st, "N", buf)
            L = be_u(I.read(st, ptr.a[0], ptr.a[1]), 0, 4, "u32")
            n = badd(L, C(4), "usize")
            self.oblige(I, par, bb, eq(st, off, P), "frame:decode-at", "decodes at offset %s, the next frame begins at %s" % (show(off)[:60], show(P)[:60]))
            self.oblige(I, par, bb, le(st, n, N), "frame:decode-whole", "decodes a frame that may not be received completely")
            self.s(st, "P", buf, badd(P, n, "usize"))
            self.s(st, "N", buf, bsub(N, n, "usize"))
            return
        self.oblige(I, par, bb, not st.mon.get("undelivered"), "deliver:next", "decodes the next frame before a %s was handed over" % st.mon.get("undelivered"))
        st.mon["undelivered"] = ""

    def block(self, I, st, ctx, bb):
        for k in [k for k in st.env if k.op == "G" and k.a[0] == "N"]:
            p = mk("G", "P", k.a[1])
            if st.env.get(p, C(0)) is not C(0) and le(st, st.env[k], C(0)):
                st.env[p] = C(0)

    def leave(self, I, st, ctx, v):
        if self.deliver and ctx.body.key == MSG + "::from_buf":
            if v.op == "agg" and v.a[1] == "Some" and v.a[3][0].op == "agg":
                st.mon["undelivered"] = v.a[3][0].a[1]
                st.env[mk("G", "msg", C(0))] = v.a[3][0]
            elif v.op == "agg" and v.a[1] == "None":
                st.mon["undelivered"] = ""
            else:
                st.mon["undelivered"] = "message"

    def awaited(self, I, st, c, name, vs):
        var = st.mon.get("undelivered")
        if not var or name.split("::")[-1] != "send" or "Sender" not in name or len(vs) < 2:
            return
        m = st.env.get(mk("G", "msg", C(0)))
        good = False
        if m is not None and m.op == "agg" and m.a[1] == var:
            pay = vs[1]
            if var == "Piece":
                good = same(I, st, pay, m.a[3][0])
            elif var == "Port":
                good = contains(pay, lambda t: t is m.a[3][0])
            else:
                good = contains(pay, lambda t: t.op == "agg" and t.a[1] == var and len(t.a[3]) == len(m.a[3]) and all(
                    same(I, st, x, y) for x, y in zip(t.a[3], m.a[3])))
        if good:
            st.mon["undelivered"] = ""
            st.env.pop(mk("G", "msg", C(0)), None)

    def setup(self, I, st, ctx):
        if self.deliver:
            st.mon["undelivered"] = ""

    def conf(self, I):
        I.on_await = self.awaited
        I.on_io = self.io
        I.on_enter = self.enter_fn
        I.on_block = self.block
        I.on_leave = self.leave
