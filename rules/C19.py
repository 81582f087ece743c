"""Abstract run of the task that manages the torrent, on every sequence of messages and ticks. States are kept apart by the message being
handled; every write to what is known about a peer, to the count of peers that have a piece, every change of a bitmap and every download that is
started is compared with the message and with what is known on the path. Fields are told apart by the messages under which they change."""
import manager
import models
from metainfo import values
from common import *
from udp import Obs

BM = "data_structures::bitmap::Bitmap"
GONE = ("Unreachable", "Disconnected")
FLAGS = ("Choke", "Unchoke", "Interested", "NotInterested")


def opq(t, name):
    return t.op == "opq" and len(t.a) > 1 and str(t.a[1]).split("::")[-1] == name


class View(Obs):
    def __init__(self, r):
        super().__init__(r)
        self.variants = {v["discr"]: v["name"] for v in r.prog.adts[manager.MSG]["variants"]}
        self.flags, self.had, self.firsts, self.loops, self.chosen, self.gone, self.handled = set(), set(), set(), set(), [], [], []
        self.counts = {}

    def conf(self, I):
        self.I = I
        I.no_inline = manager.opaque(self.r)
        I.await_models = {manager.WRITE: models.a_result}
        I.before_write, I.on_call, I.on_await, I.sigextra = self.write, self.call, self.awaited, self.extra

    def ob(self, where, ok, key, msg):
        if self.I.recording:
            o = self.obs.setdefault(key, [0, 0, "", ""])
            o[0] += 1
            o[1] += bool(ok)
            if not ok and not o[2]:
                o[2], o[3] = msg, where

    def message(self, st):
        """(variant, the message's peer) of the message being handled"""
        for f, v in st.facts.items():
            if f.op == "discr" and f.a[0].op == "f" and f.a[0].a[2] == "message" and opq(f.a[0].a[0], "received"):
                return self.variants.get(v), field(f.a[0].a[0], "", "peer"), f.a[0]
        return None, None, None

    def of_peer(self, t, p):
        """the field of the record of peer p that t is (or comes from)"""
        for x in subterms(t):
            if x.op == "f" and x.a[0].op in ("mapget", "call") and any(y is p for y in x.a[0].a):
                return x.a[2]
        return None

    def write(self, I, st, ctx, base, path, value, sp):
        if not any(x[0] in "ik" for x in path):
            return
        where = "%s:%s in %s" % (sp[0], sp[1], ctx.body.key)
        var, p, m = self.message(st)
        keys = [x[1] for x in path if x[0] == "k"]
        if keys and path[-1][0] == "f" and value.op == "c":
            self.ob(where, keys == [p], "flag:peer", "what is known about a peer changes because of another peer's message")
            if I.recording:
                self.flags.add((var, path[-1][2], value.a[0], where))
            st.mon["flag"] = "1"
        elif path[-1][0] == "i" and path[-2][0] == "f" and not keys:
            self.count(I, st, base, path, value, where, var, p, m)

    def count(self, I, st, base, path, value, where, var, p, m):
        old, i = I.read(st, base, path), path[-1][1]
        name = path[-2][2]
        if I.recording:
            self.counts.setdefault(name, set()).add(var)
        if var == "Have":
            ok = i is field(m, "Have", "0") and eq(st, value, badd(old, C(1), "u16"))
            self.ob(where, ok, "count:have", "a piece that a peer has now is counted wrongly: %s for index %s" % (show(value)[-60:], show(i)[-60:]))
            self.ob(where, st.mon.get("had") == "0", "count:again", "a piece is counted again although the peer may have had it already")
            st.mon["inc"] = "1"
        elif var == "Bitfield" or var in GONE:
            up = var == "Bitfield"
            ok = eq(st, value, badd(old, C(1), "u16") if up else bsub(old, C(1), "u16"))
            self.ob(where, ok, "count:step", "the number of peers that have a piece doesn't change by 1: %s" % show(value)[-80:])
            self.ob(where, st.mon.get("bit") == "1" and bool(st.mon.get("loop")), "count:bit", "a piece that the peer doesn't have is counted, or one is counted twice")
            self.ob(where, i.op == "phi" and any(is_c(y) and y.a[0] == 0 for y in values(I, i)), "count:index", "the count of another piece changes: %s" % show(i)[:60])
            st.mon["bit"] = "counted"
        else:
            self.ob(where, False, "count:why", "the number of peers that have a piece changes because of %s" % var)

    def call(self, I, st, c, args):
        n = c.res or c.name
        last = n.split("::")[-1]
        where = "%s:%s in %s" % I.loc(c.ctx, c.bb)
        var, p, m = self.message(st)
        if n.startswith(BM) or ("bitmap::" in n and "<" in n[:1]):
            vs = I.vals(st, args)
            keyed = args[0].op == "ptr" and [s for s in args[0].a[1] if s[0] == "k"]
            f = manager.field_of(args[0]) if args[0].op == "ptr" else None
            if last == "change" and keyed and p is not None and var == "Have":
                ok = keyed[-1][1] is p and vs[1] is field(m, "Have", "0") and is_c(vs[2]) and vs[2].a[0] == 1
                self.ob(where, ok, "have:what", "what is recorded isn't that the sender has the piece it says (%s of %s is %s)" % (show(vs[1])[-40:], show(keyed[-1][1])[-40:], show(vs[2])))
                self.had.add(f)
                st.mon["have"] = "1"
            elif last == "change" and keyed and I.recording:
                self.loops.add((var, f, show(vs[2]), where))
            elif last == "replace_data" and keyed:
                self.ob(where, var == "Bitfield" and keyed[-1][1] is p and contains(vs[1], lambda x: x.op == "f" and x.a[1] == "Bitfield" and x.a[0] is m), "have:field", "what is recorded isn't the bitfield that the sender sent")
                none = any(opq(x, "weight") and self.of_peer(x, p) == f and le(st, x, C(0)) for q in list(st.facts) for x in subterms(q))
                self.ob(where, none, "have:once", "a bitfield replaces pieces of the peer that are counted already")
                self.had.add(f)
                st.mon["_field"] = f
            elif last == "iter" and p is not None and var in ("Bitfield",) + GONE:
                f = self.of_peer(vs[0], p)
                self.over(st)
                if f:
                    st.mon["loop"] = f
                    self.fresh(st)
        elif last == "thread_rng_n":
            self.ends(I, st, where)
        elif last in ("skip", "skip_while", "step_by", "nth") and st.mon.get("loop") and "iter" in n:
            st.mon["skips"] = "1"
        elif last == "next" and st.mon.get("loop") and self.bits(I, st, args):
            if st.mon.get("bit") == "1" and I.recording:
                self.gone.append((var, st.mon["loop"], where))
            st.mon.pop("bit", None)
            self.fresh(st)
        elif last == "download_piece":
            self.chooses(I, st, c, args, where)

    def item(self, t):
        return opq(t, "item") or t.op == "phi" and any(opq(y, "item") for y in values(self.I, t))

    def fresh(self, st):
        for f in [f for f in st.facts if self.item(f)]:
            del st.facts[f]

    def bits(self, I, st, args):
        """an iterator over the bits of a bitmap"""
        v = I.val(st, models.rd(I, st, models.innermost(I, st, args[0])))
        return any(contains(y, lambda x: opq(x, "iter") or opq(x, "iterstate")) for y in values(I, v))

    def chooses(self, I, st, c, args, where):
        k, i = args[1], args[2]
        k, i = I.val(st, k), I.val(st, i)
        off = {f.a[2] for f, v in st.facts.items() if v == 0 and f.op == "f" and any(y is k for y in f.a[0].a)}
        has = {self.of_peer(f, k) for f, v in st.facts.items() if v == 1 and opq(f, "get") and any(x is i for x in f.a)}
        new = any(v == 0 and self.item(f) for f, v in st.facts.items())
        if I.recording:
            self.chosen.append((off, has, new, where))
        st.mon["dl"] = "0"

    def awaited(self, I, st, c, name, vs):
        if name.split("::")[-1] == "recv":
            self.ends(I, st, "%s:%s in %s" % I.loc(c.ctx, c.bb))

    def over(self, st):
        """an iteration over the bits of a peer's bitmap came to its end if nothing is known about another bit, or (zip) a list of the same length did"""
        mon = st.mon
        f, bit = mon.pop("loop", None), mon.pop("bit", None)
        if f and not mon.pop("skips", None) and (bit is None or bit in ("0", "counted") and any(q.op == "lt" and q.a[1].op == "len" and v == 0 for q, v in st.facts.items())):
            mon["done"] = ",".join(sorted(set(filter(None, mon.get("done", "").split(","))) | {f}))

    def ends(self, I, st, where):
        """what the message asks for was done"""
        var, p, m = self.message(st)
        mon = st.mon
        self.over(st)
        knows = {v for f, v in st.facts.items() if "has" in (f.op, f.a[0]) and any(y is p for y in f.a)} if p is not None else set()
        done = mon.get("done", "").split(",")
        if var in FLAGS:
            self.ob(where, mon.get("flag") or knows == {0}, "flag:missed", "%s of a peer isn't recorded" % var)
        elif var == "Have" and mon.get("have"):
            self.ob(where, mon.get("had") == "1" or mon.get("inc"), "count:missed", "a piece that a peer has now isn't counted")
        elif var == "Bitfield" and mon.get("_field"):
            self.ob(where, mon["_field"] in done or mon.get("failed"), "count:missed", "not all pieces of a peer's bitfield are counted")
        if I.recording and var:
            self.handled.append((var, frozenset(knows), frozenset(filter(None, done)), bool(mon.get("have")), where))
        if var:
            for f in [f for f in st.facts if contains(f, lambda x: x is m.a[0])]:
                del st.facts[f]
        for k in ("var", "flag", "had", "have", "inc", "bit", "loop", "done", "dl", "_field", "_removed"):
            mon.pop(k, None)

    def extra(self, st):
        var, p, m = self.message(st)
        mon = st.mon
        if var and "var" not in mon:
            mon["var"] = var
        if mon.get("have") and not mon.get("had"):
            for f, v in st.facts.items():
                if opq(f, "change") and any(x is field(m, "Have", "0") for x in f.a if hasattr(x, "op")):
                    mon["had"] = str(v)
        if mon.get("loop") and mon.get("bit") is None:
            for f, v in st.facts.items():
                if self.item(f):
                    mon["bit"] = str(v)
        return ()


def check(r):
    r.rule("what is known about a peer, and the number of peers that have each piece, follow the messages; downloads are asked of peers that have the piece and don't choke")
    t = manager.task(r)
    if not t:
        return
    V = View(r)
    I = r.engine(t, conf=V.conf, tag="view")
    for f in sorted(I.inlined):
        r.cover("functions", f)
    V.flush("", {"flag:peer": "records what peers say", "have:what": "records that a peer has a piece", "have:field": "records bitfields", "count:have": "counts pieces that peers have",
                 "count:bit": "counts pieces of bitfields"})
    # which field holds what: by the messages under which it changes
    by = {}
    for var, f, x, where in V.flags:
        by.setdefault(f, {}).setdefault(var, set()).add(x)
        r.oblige(var in FLAGS, "flag:why:%s" % var, "%s of a peer is changed because of %s" % (f, var), where)
    choke = [f for f, d in by.items() if d.get("Choke")]
    interest = [f for f, d in by.items() if d.get("Interested")]
    r.oblige(len(choke) == 1 and by[choke[0]] == {"Choke": {1}, "Unchoke": {0}}, "flag:choke", "whether a peer chokes isn't set by Choke and reset by Unchoke: %s" % by, "")
    r.oblige(len(interest) == 1 and interest != choke and by[interest[0]] == {"Interested": {1}, "NotInterested": {0}}, "flag:interest", "whether a peer is interested isn't set by Interested and reset by NotInterested: %s" % by, "")
    if not r.oblige(len(V.had) == 1 and len(V.counts) == 1, "field:had", "what a peer has isn't in one bitmap, or the count of pieces not in one list: %s, %s" % (sorted(V.had), sorted(V.counts)), "") or len(choke) != 1:
        return
    had = next(iter(V.had))
    for var, f, x, where in sorted(V.loops, key=str):
        r.oblige(f != had, "have:why", "what a peer has changes because of %s" % var, where)
    for var, f, where in V.gone:
        r.oblige(f != had, "count:skipped", "a piece that a peer has isn't counted as that (%s)" % var, where)
    for var, knows, done, have, where in V.handled:
        if var in GONE:
            r.oblige(had in done or knows == frozenset([0]) and not done, "count:gone", "the pieces of a peer that is gone (%s) are still counted" % var, where)
        elif var == "Have":
            r.oblige(have or knows == frozenset([0]) or knows == frozenset(), "have:missed", "that a peer has a piece isn't recorded", where)
    seen = {x[0] for x in V.handled}
    r.oblige({"Have", "Bitfield"} | set(FLAGS) | set(GONE) <= seen, "anchor:messages", "not every message is handled: %s" % sorted(map(str, seen)), "")
    r.oblige(bool(V.chosen), "anchor:download", "no piece is ever downloaded", t)
    for off, has, new, where in V.chosen:
        r.oblige(choke[0] in off, "ask:choked", "a piece is asked of a peer that may be choking", where)
        r.oblige(had in has, "ask:has", "a piece is asked of a peer that may not have it", where)
        r.oblige(new, "ask:held", "a piece is asked for that may be held already", where)
