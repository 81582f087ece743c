"""Abstract run of the task that manages the DHT: ghosts follow the encoded table from serialization to the flushed file and the spawn of the
task that looks for peers.  Abstract run of each wait of the growing interval on an arbitrary interval: what is slept for must be stored in
the interval before, and taken from there if it was, so that a wait that select! drops goes on where it stopped."""
import dhtman
import models
from common import *

ASSUMPTIONS = ["select! drops the futures of the branches that lost; they are created anew in the next round"]


def interval(r):
    ks = [k for k, b in r.prog.bodies.items() if b.coroutine and any(e.split("::")[-1] in ("sleep", "sleep_until") and e.startswith("tokio::") for e in r.graph.reach_ext(k))]
    n = 0
    for k in sorted(ks):
        f = k.rsplit("::{closure#0}", 1)[0]
        b = r.prog.bodies.get(f)
        t = b.tystr(b.locals[1]) if b is not None and b.argc == 1 else ""
        if not t.startswith("&mut ") or dhtman.cls(t.split(" ")[-1]) != "CappedGrowingInterval":
            continue
        n += 1
        me = field(mk("param", k, 1), "", "0")
        old0 = mk("deref", me)
        O = dhtman.Obs(r)
        slept = []

        def waits(I, st, c, name):
            last = name.split("::")[-1]
            if last in ("sleep", "sleep_until"):
                O.oblige(I, c.ctx, c.bb, last == "sleep_until", "interval:again", "the wait starts over each time select! drops it: it's given a duration, not a point in time")

        def sent(I, st, c, name, vs):
            if name.split("::")[-1] != "sleep_until":
                return
            base, path = I.deref(me)
            now = I.read(st, base, path)
            x = vs[0]
            kept = {f for f, y in stored(r, now) if y is x}
            O.oblige(I, c.ctx, c.bb, bool(kept), "interval:kept", "the time at which a wait ends isn't remembered: the wait starts over each time select! drops it")
            for f in kept:
                old = field(old0, "", f)
                d = st.mon.get("was")
                O.oblige(I, c.ctx, c.bb, d == 0 or d == 1 and x is field(old, "Some", "0"), "interval:moved", "a wait that was dropped gets another end when it goes on")

        def was(st):
            """was a wait going on when this one began?"""
            if "was" not in st.mon:
                for f, v in st.facts.items():
                    if f.op == "discr" and f.a[0].op == "f" and f.a[0].a[0] is old0:
                        st.mon["was"] = v
            return None
        I = r.engine(k, conf=lambda I: (setattr(I, "before_await", waits), setattr(I, "on_await", sent), setattr(I, "sigextra", was)), tag="interval")
        for v, st, e in returns(I):
            base, path = I.deref(me)
            now = I.read(st, base, path)
            was = [x for x in stored(r, now)]
            r.cover("ends of waits", "%s: %s" % (k, show(now)[:150]))
            r.oblige(not any(contains(y, lambda z: z.op == "opq" or z.op == "f" and z.a[0] is me) for f, y in was), "interval:next", "after a wait its end is still remembered: the next one ends at once", k)
        r.cover("functions", k)
        O.flush("interval:", {"interval:kept": "waits"})
    r.oblige(n > 0, "interval:none", "the growing interval is gone", "CappedGrowingInterval")


def stored(r, now):
    """fields that hold a point in time: (name, value)"""
    out = []
    a = r.prog.adt(next(n for n in r.prog.adts if dhtman.cls(n) == "CappedGrowingInterval"))
    for f, t in a["variants"][0]["fields"]:
        if "Instant" in t:
            y = field(now, "", f)
            if y.op == "agg" and y.a[1] == "Some":
                out.append((f, y.a[3][0]))
            elif y.op == "agg":
                continue
            else:
                out.append((f, field(y, "Some", "0")))
    return out


def check(r):
    r.rule("a wait of the growing interval ends at a time that is kept in the interval until then; the task stores and flushes its table when told to shut down; it spawns one task that looks for peers")
    M, I = dhtman.run(r)
    if not M:
        return
    told = 0
    for v, st, e in returns(I):
        if st.mon.get("told"):
            told += 1
            r.oblige(bool(st.mon.get("stored")), "keep:stored", "the task ends at a shutdown although the routing table wasn't written and flushed", M.root)
    r.oblige(told > 0, "keep:told", "the task doesn't end when it's told to shut down", M.root)
    M.flush("keep:", {"keep:what": "stores the table", "keep:refresh": "refreshes the table", "keep:fetcher": "looks for peers"})
    interval(r)
