"""Abstract run of each peer's downloader: where a finished piece is reported, the facts of the abstract state must equate the SHA-1 of
exactly the reported blocks (a loop that feeds every block in order is recognised by its phi terms) with the hash remembered for the reported index;
that hash is stored only as received with the index.  Abstract run of the torrent manager: the hash sent
to a downloader is the torrent's for that index, what is written is the piece as received, and the piece is recorded only
after the write returned Ok."""
import anchors
import manager
from common import *
from manager import Manager, CMD, MSG
from udp import Obs


def check(r):
    dl = anchors.downloader(r)
    if not dl:
        return
    r.rule("a piece is reported finished only under the fact sha1(all its blocks in order) == hash stored for its index")
    r.rule("the hash stored for an index is the one that arrived in the same StartPiece command; it is metainfo.info.pieces[index]")
    r.rule("the manager writes the received piece and sets the bit of its index only after the write returned Ok")
    r.rule("finished pieces are reported by the downloader only; bits of held pieces are set nowhere else")
    obs = Obs(r)

    def awaited(I, st, c, name, vs):
        if len(vs) < 2 or vs[1].op != "agg":
            return
        for m in subterms(vs[1]):
            if m.op == "agg" and m.a[0] == MSG and m.a[1] == "FinishedPiece":
                report(I, st, c, m.a[3][0])

    def called(I, st, c, args):
        last = c.name.split("::")[-1]
        if last in ("try_send", "blocking_send", "send"):
            awaited(I, st, c, c.name, I.vals(st, args))
        if c.name.startswith("std::collections::HashMap") and last == "insert":
            vs = I.vals(st, args)
            if len(vs) == 3 and hashlike(vs[2]):
                k, v = vs[1], vs[2]
                ok = k.op == v.op == "f" and k.a[0] is v.a[0] and k is not v
                obs.oblige(I, c.ctx, c.bb, ok, "remember:pair", "the hash %s is remembered for index %s, they didn't arrive together" % (show(v)[:80], show(k)[:80]))

    def report(I, st, c, p):
        idx, data = field(p, "", "idx"), field(p, "", "data")
        good = False
        for t, v in st.facts.items():
            if t.op == "eq" and v == 1:
                for x, y in ((t.a[0], t.a[1]), (t.a[1], t.a[0])):
                    h, g = strip_id(x), y
                    if h.op == "sha1" and g.op == "mapget" and same(I, st, g.a[1], idx) and whole(I, st, h.a[0], data):
                        good = True
        obs.oblige(I, c.ctx, c.bb, good, "report:verified", "a piece is reported finished although nothing ensures that the hash of its data is the torrent's for its index")

    def conf(I):
        I.on_await, I.on_call = awaited, called

    I = r.engine(dl, conf=conf, tag="hash")
    for f in sorted(I.inlined):
        r.cover("functions", f)
    obs.flush("report:", {"report:verified": "reports finished pieces"})
    obs.flush("remember:", {"remember:pair": "remembers the hashes of pieces"})
    inside = r.graph.reach(dl)
    for key, b in r.prog.bodies.items():
        for blk in b.blocks:
            for s in blk["st"]:
                rv = s.get("rv")
                if rv and rv["r"] == "agg" and rv.get("variant") == "FinishedPiece":
                    r.cover("places that report a finished piece", key)
                    r.oblige(key in inside, "report:elsewhere:%s" % key, "a finished piece is reported outside the task that checks hashes", key)

    t = manager.task(r)
    if not t:
        return
    M = Manager(r)
    I = r.engine(t, conf=M.conf, tag="manager")
    for f in sorted(I.inlined):
        r.cover("functions", f)
    M.flush("start:", {"start:hash": "tells peers which piece to download"})
    M.flush("write:", {"write:received": "writes finished pieces"})
    M.flush("held:", {"held:written": "records that a piece is held"})
    held = {n for n, ok, i, l in M.marks if ok}
    for n, ok, i, l in M.marks:
        if n in held:
            r.oblige(ok, "held:elsewhere:%s" % l[2], "%s is set for %s, which wasn't just written to storage" % (n, i), "%s:%d in %s" % l[:3])
    r.cover("bitmap of held pieces", ",".join(sorted(held)))


def hashlike(v):
    return v.op == "f" and v.a[1] == "StartPiece" or contains(v, lambda x: x.op == "f" and x.a[1] == "StartPiece")


def strip_id(t):
    while t.op == "agg" and len(t.a[3]) == 1:
        t = t.a[3][0]
    return t


def whole(I, st, t, data):
    """is t the concatenation of all elements of data, in order?"""
    f = flattened(I, st, t)
    return f is not None and f[0] is data and le(st, length(data), f[1])


def flattened(I, st, t):
    """t = S[0] ++ .. ++ S[j-1] built by a loop: (S, j)"""
    if t.op != "phi":
        return None
    S = j = None
    starts = []
    for x in I.phi_inputs.get(t, ()):
        if x is t:
            continue
        if x.op == "concat" and len(x.a[0]) == 2 and x.a[0][0] is t and x.a[0][1].op == "elem":
            s, i = x.a[0][1].a
            if S not in (None, s) or j not in (None, i):
                return None
            S, j = s, i
        elif x.op == "empty":
            starts.append(0)
        elif x.op == "elem" and is_c(x.a[1]) and x.a[1].a[0] == 0:
            starts.append(1)
        else:
            return None
    if S is None or j.op != "phi":
        return None
    js = set()
    for x in I.phi_inputs.get(j, ()):
        if is_c(x):
            js.add(x.a[0])
        elif x is not badd(j, C(1)) and x is not j and x is not badd(j, C(1), "usize"):
            return None
    return (S, j) if js == set(starts) else None
