"""Abstract run of the task that owns the torrent's storage (the torrent manager).  Storage, the pool of known peers
and bitmaps are left uninterpreted: their operations are events."""
import anchors
import models
from common import *
from udp import Obs

WRITE = "fs::Fs::write_piece"
OPAQUE = {"fs::FS", "data_structures::bitmap::Bitmap", "peers::active_peers::Peers", "peers::connection::pending_pieces::PendingPieces"}
CHANGE = "data_structures::bitmap::Bitmap::change"
CMD = "peers::connection::downloader::PeerManagerCommand"
MSG = "peers::connection::connection_manager::ConMessageType"


def task(r):
    return anchors.one(r, "the task that writes finished pieces to storage", [d for d in sorted(r.graph.tasks) if any(
        s.name == WRITE or (s.res or "").endswith("fs::Fs>::write_piece") for f in r.graph.reach(d) for s in r.graph.sites[f])])


def opaque(r, extra=()):
    mods = tuple({o.rsplit("::", 1)[0] + "::" for o in OPAQUE})
    keys = set()
    for k, b in r.prog.bodies.items():
        if (b.impl_trait or "").startswith("std::fmt") or k.lstrip("<").startswith(mods) or (b.impl_self or "").lstrip("&").startswith(mods):
            keys.add(k)
    return lambda k: k in keys


class Manager(Obs):
    def __init__(self, r):
        super().__init__(r)
        self.starts, self.writes, self.marks = [], [], []

    def conf(self, I):
        I.no_inline = opaque(self.r)
        I.await_models = {WRITE: models.a_result}
        I.on_call, I.on_await, I.on_result = self.call, self.awaited, self.result

    def received(self, st, t):
        """is t (part of) the message received last?"""
        m = st.mon.get("_msg")
        return m is not None and contains(t, lambda x: x is m)

    def awaited(self, I, st, c, name, vs):
        last = name.split("::")[-1]
        if name == WRITE:
            st.mon["_writing"] = vs[1]
            ok = self.finished(st, vs[1])
            self.oblige(I, c.ctx, c.bb, ok, "write:received", "what is written to storage isn't the finished piece as it was received: %s" % show(vs[1])[:120])
        elif last == "send" and len(vs) > 1 and vs[1].op == "agg" and vs[1].a[0] == CMD and vs[1].a[1] == "StartPiece":
            x = vs[1].a[3][0]
            ok = x.op == "agg" and len(x.a[3]) == 2
            if ok:
                h, i = x.a[3]
                ok = h.op == "elem" and h.a[1] is i and h.a[0].op == "f" and h.a[0].a[2] == "pieces"
            self.oblige(I, c.ctx, c.bb, ok, "start:hash", "a peer is told to download a piece with a hash that may not be the torrent's for its index: %s" % show(vs[1])[:160])

    def finished(self, st, t):
        return t.op == "f" and t.a[1] == "FinishedPiece" and t.a[0].op == "f" and t.a[0].a[2] == "message" and t.a[0].a[0].op == "opq" and t.a[0].a[0].a[1] == "received"

    def result(self, I, st, c, name, x):
        if name == WRITE:
            p = st.mon.pop("_writing", None)
            st.mon["wrote"] = p if x.op == "agg" and x.a[1] == "Ok" else None
        elif name.endswith("Receiver::<T>::recv"):
            st.mon.pop("wrote", None)

    def call(self, I, st, c, args):
        if c.name == CHANGE and len(args) == 3 and not (is_c(args[2]) and args[2].a[0] == 0):
            p = args[0]
            own = p.op == "ptr" and not any(s[0] == "k" for s in p.a[1])
            if not own:
                return
            self.change(I, st, c, args[1], field_of(p))

    def change(self, I, st, c, idx, name):
        """a bit of one of the task's own bitmaps is set"""
        w = st.mon.get("wrote")
        good = w is not None and idx is field(w, "", "idx")
        if I.recording:
            self.marks.append((name, good, show(idx)[:80], I.loc(c.ctx, c.bb)))
        if contains(idx, lambda x: x.op == "f" and x.a[1] == "FinishedPiece"):
            self.oblige(I, c.ctx, c.bb, good, "held:written", "a finished piece is recorded although writing it to storage may have failed or not happened, or under another index (%s)" % show(idx)[:80])


def field_of(p):
    fs = [s[2] for s in p.a[1] if s[0] == "f" and not str(s[2]).isdigit()]
    return fs[-1] if fs else "?"
