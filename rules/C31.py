"""Two kinds of abstract runs.  The decoder of an answer is run on an arbitrary dictionary: where it returns an answer, each field must be the
term of its entry.  The task of a tracker is run from its spawn with an uninterpreted answer: the peers handed to the pool, the tracker id
of later announces and the length of the waits must be terms of that answer."""
import anchors
import bencode
import C23
import metainfo
from metainfo import values
from common import *

ASSUMPTIONS = ["bendy rejects dictionaries with repeated keys, and its decoders do what their documentation says"]
REQUIRED = {"interval": "interval", "complete": "complete", "incomplete": "incomplete", "peers": "peers"}
OPTIONAL = {"warning_message": "warning message", "min_interval": "min interval", "tracker_id": "tracker id"}
KEYS = sorted(x.encode() for x in list(REQUIRED.values()) + list(OPTIONAL.values()))
TYPES = {"interval": "u64", "complete": "u64", "incomplete": "u64", "min_interval": "u64"}
SHORTEST, RETRY = 16, 64


def decoder(r):
    k = next((k for k, b in r.prog.bodies.items() if b.impl_trait == "bendy::decoding::FromBencode" and b.impl_self == "tracker::response::Response"), None)
    r.oblige(k is not None, "decoder", "answers of trackers are decoded elsewhere", "FromBencode")
    if not k:
        return
    obj = mk("param", k, 1)

    def entry(n):
        return mk("entry", mk("dict", obj), mk("str", n))

    class Noting(bencode.Bencode):
        def fails(self, st, c, I):
            s, v = super().fails(st, c, I)
            s.mon["failed"] = "1"
            return s, v

    def run(more, once):
        B = Noting(sorted(n.encode() for n in list(REQUIRED.values()) + more), once=[n.encode() for n in once])
        I = r.engine(k, conf=B.conf, tag="answer-" + once[0].replace(" ", "-"))
        for v, st, e in returns(I):
            ok = v.op == "agg" and (v.a[1] == "Err" or v.a[1] == "Ok" and v.a[3][0].op == "agg")
            r.oblige(ok, "result", "the outcome is %s" % show(v)[:100], k)
            if ok:
                yield I, st, dict(zip(v.a[3][0].a[2], v.a[3][0].a[3])) if v.a[1] == "Ok" else None, lambda n: bool(st.mon.get("seen " + n))
    accepted = 0
    for I, st, x, seen in run([], sorted(REQUIRED.values())):
        if x is None:
            r.oblige(bool(st.mon.get("failed")) or not all(seen(n) for n in REQUIRED.values()), "refused", "an answer that has all it needs is refused", k)
            continue
        accepted += 1
        for f, n in REQUIRED.items():
            r.oblige(seen(n), "missing:" + f, "an answer without %s is accepted" % n, k)
            for y in values(I, x[f]) if f != "peers" else ():
                ok = y.op == "decoded" and y.a[1] is entry(n) and y.a[0].a[0] == TYPES[f]
                r.oblige(ok, "field:" + f, "%s is %s" % (f, show(y)[:120]), k)
                r.cover("fields", "%s from %s" % (f, n))
    r.oblige(accepted > 0, "none", "no answer is accepted", k)
    for f, n in OPTIONAL.items():
        for I, st, x, seen in run([n], [n]):
            r.oblige(x is None or seen(n) or bool(st.mon.get("ended")), "unread:" + f, "an answer is accepted before it's known whether it has %s" % n, k)
            for y in values(I, x[f]) if x is not None else ():
                if seen(n):
                    ok = y.op == "agg" and y.a[1] == "Some" and all(z.op == "decoded" and z.a[1] is entry(n) and (f not in TYPES or z.a[0].a[0] == TYPES[f]) for z in values(I, y.a[3][0]))
                else:
                    ok = y.op == "agg" and y.a[1] == "None"
                r.oblige(ok, "field:" + f, "%s is %s in an answer %s one" % (f, show(y)[:120], "with" if seen(n) else "without"), k)
                r.cover("fields", "%s from %s" % (f, n))


def secs(t):
    """seconds of a Duration"""
    if t.op == "call" and t.a[0] == "max" and all(secs(x) is not None for x in t.a[1:]):
        return mk("call", "max", *map(secs, t.a[1:]))
    if t.op == "call" and t.a[0].endswith("from_secs"):
        return t.a[-1]
    if t.op == "agg" and t.a[2] and t.a[2][0] == "secs":
        return t.a[3][0]
    return None


def task(r):
    t = C23.tracker_task(r)
    if not t:
        return

    def answered(st):
        return st.mon.get("phase") == "wait"

    def waits(I, st, c, name, vs):
        if answered(st) and I.recording and "RequestBuilder" not in name:
            r.oblige(st.mon["given"], "peers:first", "the client waits for something else before it gives the answer's peers to the pool", "%s:%s in %s" % I.loc(c.ctx, c.bb)[:3])

    def answer(c):
        """one that has a tracker id, one that has none"""
        me = mk("answer", c.site)
        dues.add(field(me, "", "interval"))
        fs = [f[0] for f in r.prog.adt("tracker::response::Response")["variants"][0]["fields"]]
        for mon, v in (({"id known": "1"}, some(field(me, "", "tracker_id"))), ({}, NONE)):
            yield mon, agg("tracker::response::Response", "", fs, [v if f == "tracker_id" else field(me, "", f) for f in fs])
    dues = set()

    def apart(st):
        """is the interval long enough?  keeps states apart"""
        return tuple((le(st, C(SHORTEST), x), le(st, x, C(SHORTEST))) for x in sorted(dues, key=lambda x: x.id))
    I, seen = C23.run(r, t, waits, answer, apart)
    r.oblige(bool(seen["extend"]), "peers:none", "no peers of answers are given to the pool", t)
    given, ids = set(), set()
    for c, vs, st in seen["extend"]:
        where = "%s:%s in %s" % I.loc(c.ctx, c.bb)[:3]
        for y in values(I, vs[1]):
            y = y if y.op != "ptr" else I.read(st, *I.deref(y))
            ok = y.op == "f" and y.a[-1] == "peers" and y.a[0].op == "answer"
            r.oblige(ok, "peers:which", "the pool is given %s" % show(y)[:120], where)
            given.add(show(y)[-60:])
        r.cover("given to the pool", sorted(given))
    for c, vs, st in seen["sleep"]:
        where = "%s:%s in %s" % I.loc(c.ctx, c.bb)[:3]
        for y in values(I, vs[0]):
            n = secs(y)
            if n is None:
                r.oblige(False, "wait:what", "the client waits for %s" % show(y)[:100], where)
            elif answered(st):
                r.oblige(interval(I, st, n, dues), "wait:interval", "the wait before the next announce is %s" % show(n)[:120], where)
                r.cover("waits", "interval")
            else:
                r.oblige(n is C(RETRY), "wait:retry", "the wait before an announce is repeated is %s s" % show(n)[:60], where)
                r.cover("waits", "retry")
    for c, vs, st in seen["get"]:
        where = "%s:%s in %s" % I.loc(c.ctx, c.bb)[:3]
        for u in values(I, vs[1]):
            for a in values(I, u.a[1]) if u.op == "call" and u.a[0] == "url" else ():
                x = dict(zip(a.a[2], a.a[3])) if a.op == "agg" else {}
                ts = {z for y in values(I, x["tracker_id"]) for z in whole(y)} if x else set()
                r.oblige(bool(ts) and all(z == "none" or z == "answer" for z in ts), "id:what", "the tracker id of an announce is %s" % sorted(ts), where)
                if st.mon["want"] == "Started" and st.mon["phase"] == "contact":
                    r.oblige(ts == {"none"}, "id:first", "the first announce has a tracker id", where)
                else:
                    r.oblige(ts == {"answer" if st.mon.get("id known") else "none"}, "id:echo", "the tracker id is %s in an announce after answers %s one" % (
                        sorted(ts), "with" if st.mon.get("id known") else "without"), where)
                r.cover("tracker ids", sorted(ts))


def whole(y):
    if y.op == "agg" and y.a[1] == "None":
        return {"none"}
    if y.op == "agg" and y.a[1] == "Some":
        y = y.a[3][0]
        while y.op == "f" and y.a[-1] in ("0", "Some"):
            y = y.a[0]
    return {"answer" if y.op == "f" and y.a[0].op == "answer" and y.a[-1] == "tracker_id" else show(y)[:80]}


def interval(I, st, n, dues):
    """max(interval of the answer, 16)"""
    def of_answer(x):
        return x.op == "f" and x.a[0].op == "answer" and x.a[-1] == "interval"
    if n.op == "call" and n.a[0] in ("max", "clamp"):
        xs = [x for x in n.a[1:]]
        return n.a[0] == "max" and len(xs) == 2 and any(of_answer(x) for x in xs) and C(SHORTEST) in xs
    return any(of_answer(x) and le(st, C(SHORTEST), x) for x in [n]) or n is C(SHORTEST) and any(le(st, x, n) for x in dues)


def check(r):
    r.rule("interval, complete, incomplete and peers are required; each field is decoded from the entry of its name; other entries are ignored")
    r.rule("the peers of an answer are given to the pool before anything else is waited for")
    r.rule("the next regular announce is sent after max(interval of the answer, 16 s), a failed one is repeated after 64 s")
    r.rule("the tracker id of an announce is that of an answer as soon as one had one, else none")
    decoder(r)
    task(r)
