"""Abstract run of every spawned task that was given the shutdown receiver, with the select! that each awaited operation is an alternative of.
An operation that completes only when someone else acts (a message, the network, a timer) is awaited only as an alternative of a select! whose alternatives include the shutdown;
after the shutdown was received the task awaits only operations that finish by themselves, and it returns."""
import anchors
import init
import models
from common import *
from udp import Obs

SHUT = "shutdown::Receiver"
RECV = "tokio::sync::broadcast::Receiver"
SENDER = "shutdown::Sender"
WAIT = "shutdown::AliveTaskWaiter::wait"
BSEND, BRECV, MSEND = "tokio::sync::broadcast::Sender<", "tokio::sync::broadcast::Receiver<", "tokio::sync::mpsc::Sender<"
# operations that end without anybody else acting: local file operations, sending into a channel (its consumer takes messages or drops it)
SENDS = ("tokio::sync::mpsc::Sender", "tokio::task::yield_now")
FILES = ("tokio::fs::",)
HTTP = ("reqwest::",)
TIMER = ("tokio::time::sleep", "tokio::time::sleep_until")
MAX_SLEEP = 30


def check(r):
    g = r.graph
    tasks = sorted(t for t in g.tasks if any(SHUT in r.prog.bodies[t].tystr(l) for l in r.prog.bodies[t].locals))
    r.rule("an operation that others must complete is awaited by such a task only inside a select! that also awaits the shutdown")
    r.rule("after the shutdown was received only operations that end by themselves are awaited, and the task returns")
    subjects = {"the connection task": anchors.peer_task(r), "the downloader": anchors.downloader(r),
                "the tracker task": anchors.one(r, "the task that contacts trackers", [t for t in sorted(g.tasks) if any("reqwest::" in x for x in g.reach_ext(t))]),
                "the DHT task": anchors.one(r, "the task that owns the routing table", [t for t in sorted(g.tasks) if any("RoutingTable" in k and k.endswith("::store") for k in g.reach(t))])}
    for what, t in subjects.items():
        if t:
            r.oblige(t in tasks, "holder:%s" % what, "%s isn't given the shutdown receiver" % what, t)
    for t in tasks:
        one(r, t)
    timeouts(r)
    channel(r)
    waiter(r)


def one(r, task):
    g = r.graph
    obs = Obs(r)
    selects = {s.body.ty(s.term["atys"][0]).get("def") for s in g.calls(lambda n: n.endswith("support::poll_fn"))}
    waits = {}                 # (name, innermost enclosing selects) -> location
    covers = set()

    def waiting(key):
        return any("Future::poll" in e for e in g.reach_ext(key))
    keep = {}

    def no_inline(k):
        if k not in keep:
            b = r.prog.bodies.get(k)
            keep[k] = b is not None and not (b.coroutine or k in selects or waiting(k))
        return keep[k]

    def enclosing(ctx):
        out = []
        while ctx is not None:
            if ctx.body.key in selects:
                out.append(ctx.body.key)
            ctx = ctx.parent
        return tuple(out)

    def shutdown(ctx):
        while ctx is not None:
            if ctx.body.key.startswith(SHUT + "::") or (ctx.body.impl_self or "") == SHUT:
                return True
            ctx = ctx.parent
        return False

    def awaited(I, st, c, name, vs):
        isshut = name.startswith(RECV) and shutdown(c.ctx)
        enc = enclosing(c.ctx)
        obs.oblige(I, c.ctx, c.bb, not st.mon.get("shut") or local(c, name, vs, True), "after:%s" % name.split("::")[-1], "after the shutdown was received the task waits for %s" % name)
        if not I.recording:
            return
        if isshut:
            covers.update(enc[:1] or (None,))
        waits.setdefault((name, enc, isshut, local(c, name, vs, st.mon.get("shut"))), I.loc(c.ctx, c.bb))

    def result(I, st, c, name, x):
        if name.startswith(RECV) and shutdown(c.ctx):
            st.mon["shut"] = True

    def conf(I):
        I.no_inline = no_inline
        I.on_await, I.on_result = awaited, result

    I = r.engine(task, conf=conf, tag="waits", setup=lambda I, st, ctx: st.mon.__setitem__("shut", False))
    for f in sorted(I.inlined):
        r.cover("functions", f)
    n = 0
    for (name, enc, isshut, loc_), loc in sorted(waits.items(), key=str):
        where = "%s:%d in %s" % loc[:3]
        if isshut:
            continue
        n += 1
        ok = loc_ or any(s in covers for s in enc)
        r.cover("awaited operations", "%s at %s (%s)" % (name, where, "ends by itself" if loc_ else "next to the shutdown" if ok else "without the shutdown"))
        r.oblige(ok, "wait:%s:%s" % (loc[2].replace("::{closure#0}", ""), name), "the task waits for %s without also waiting for the shutdown" % name, where)
    r.oblige(n > 0, "none:%s" % task, "the task waits for nothing", task)
    shut = [x for x in returns(I) if x[1].mon.get("shut")]
    r.oblige(bool(shut), "ends:%s" % task, "the task has no end after the shutdown", task)
    obs.flush("after:", {})


def local(c, name, vs, shut):
    """does the operation end without anybody else acting?"""
    if name.startswith(TIMER):
        return bool(vs) and seconds(vs[0])
    if name.startswith(HTTP):
        return shut                     # clients have a timeout, a task that is told to stop may use it once more
    if name.startswith(SENDS):
        return True
    if name.startswith(FILES):
        return True
    return name.startswith("tokio::io::") and "tokio::fs::File" in (c.tname(0) or "")


def seconds(d):
    if d.op == "call" and "from_secs" in str(d.a[0]):
        d = d.a[1]
    return is_c(d) and isinstance(d.a[0], int) and d.a[0] <= MAX_SLEEP


def timeouts(r):
    r.rule("every http client that such a task uses is built with a timeout")
    for s in r.graph.calls(lambda n: n in ("reqwest::ClientBuilder::build", "reqwest::get", "reqwest::Client::new")):
        ok = s.name.endswith("build") and any(x.name == "reqwest::ClientBuilder::timeout" for f in r.graph.reach(s.body.key) for x in r.graph.sites[f])
        r.oblige(ok, "http:timeout", "an http client without a timeout is used", s.where)


def channel(r):
    r.rule("the shutdown's channel: every receiver, cloned ones included, is subscribed to the channel the sender sends to and holds the marker whose drop the waiter waits for; "
           "sending sends, waiting for a shutdown or for the tasks ends only when it came")
    rty, sty = r.prog.adt(SHUT), r.prog.adt(SENDER)
    if not r.oblige(bool(rty and sty), "channel:types", "the shutdown's sender or receiver doesn't exist", "src/shutdown.rs"):
        return
    for k, b in sorted(r.prog.bodies.items()):
        if b.coroutine or "{closure" in k:
            continue
        ret = b.tystr(b.locals[0])
        made = None
        if SHUT in ret and SENDER in ret and not ret.startswith(("impl", "&")):
            I = r.engine(k, tag="channel")
            for v, st, e in returns(I):
                s, x = (field(v, "", "0"), field(v, "", "1"))
                if SENDER not in str(s.a[:1]):
                    s, x = x, s
                bs, (br, am) = part(r, sty, s, BSEND), (part(r, rty, x, BRECV), part(r, rty, x, MSEND))
                ok = bs is not None and br is not None and (subscribed(br, bs) or pair(br, bs))
                r.oblige(ok, "channel:made", "the receiver isn't subscribed to the channel of its sender", k)
                ok = am is not None and any(pair(y, am) for y in subterms(s))
                r.oblige(ok, "channel:marker", "the waiter doesn't wait for the receiver's marker", k)
                made = True
            r.oblige(bool(made), "channel:none", "no channel is made", k)
        elif b.impl_trait == "std::clone::Clone" and b.impl_self == SHUT:
            I = r.engine(k, tag="clone")
            me = None
            for v, st, e in returns(I):
                me = mk("deref", mk("param", k, 1))
                br, am, bs = part(r, rty, v, BRECV), part(r, rty, v, MSEND), part(r, rty, v, BSEND)
                own = {t: part(r, rty, me, t) for t in (BRECV, MSEND, BSEND)}
                ok = br is not None and (own[BSEND] is not None and subscribed(br, own[BSEND]) or own[BRECV] is not None and subscribed(br, own[BRECV]))
                r.oblige(ok, "channel:clone", "a cloned receiver isn't subscribed to the channel of its original: %s" % show(v)[:160], k)
                r.oblige(am is not None and am is own[MSEND], "channel:clonemarker", "a cloned receiver doesn't keep the waiter waiting", k)
                if own[BSEND] is not None:
                    r.oblige(bs is own[BSEND], "channel:clonesender", "clones of a cloned receiver aren't subscribed to the channel", k)
            r.oblige(me is not None, "channel:clones", "cloning a receiver doesn't return", k)
    for key, fn, what in (("send", SENDER + "::send", "tokio::sync::broadcast::Sender"), ("recv", SHUT + "::recv", RECV), ("wait", WAIT, "tokio::sync::mpsc::")):
        k = fn + "::{closure#0}" if fn + "::{closure#0}" in r.prog.bodies else fn
        if not r.oblige(k in r.prog.bodies, "channel:%s:fn" % key, "%s doesn't exist" % fn, "src/shutdown.rs"):
            continue

        def did(I, st, c, name, *a):
            if name.startswith(what) and name.endswith(("::send", "::recv")):
                st.mon["did"] = True

        def conf(I):
            I.on_call = lambda I, st, c, args: did(I, st, c, c.name) if key == "send" else None
            I.on_result = did
        I = r.engine(k, conf=conf, tag="did", setup=lambda I, st, ctx: st.mon.__setitem__("did", False))
        n = 0
        for v, st, e in returns(I):
            n += 1
            r.oblige(st.mon.get("did"), "channel:%s" % key, "%s may return without having done so" % fn, k)
        r.oblige(n > 0, "channel:%s:returns" % key, "%s doesn't return" % fn, k)


def part(r, adt, v, ty):
    for f in adt["variants"][0]["fields"]:
        if f[1].startswith(ty):
            return field(v, "", f[0])
    return None


def subscribed(rx, src):
    return rx.op == "opq" and str(rx.a[1]).rsplit("::", 1)[-1] in ("subscribe", "resubscribe") and rx.a[2] is src


def pair(a, b):
    """the two ends of one channel"""
    return a.op == "f" and b.op == "f" and a.a[0] is b.a[0] and a.a[0].op == "opq" and str(a.a[0].a[1]).rsplit("::", 1)[-1] == "channel" and a is not b


def waiter(r):
    r.rule("whoever waits for the tasks to end holds no receiver of the same shutdown at that point; the program ends after an interrupt only when the shutdown was sent and waited for")
    n = 0
    for k, b in sorted(r.prog.bodies.items()):
        sites = [s for s in r.graph.sites[k] if s.res == WAIT or s.name == WAIT]
        if not sites:
            continue
        at = init.maybe_init(b)
        for s in sites:
            n += 1
            held = [l for l in at.get(s.bb, ()) if SHUT in b.tystr(b.locals[l]) and not b.tystr(b.locals[l]).startswith("&")]
            r.oblige(not held, "waiter:held", "%s waits for the holders of the shutdown receiver while it may hold one itself" % k, s.where)
    r.oblige(n > 0, "waiter:none", "nobody waits for the tasks to end", "src/main.rs")
    ends = [k for k in r.graph.sites if any(s.name == "tokio::signal::ctrl_c" for s in r.graph.sites[k])]
    r.oblige(len(ends) == 1, "interrupt:none", "the program doesn't react to an interrupt", "src/main.rs")
    for k in ends:
        def result(I, st, c, name, x):
            if name == "tokio::signal::ctrl_c":
                st.mon["ctrl"] = x.a[1] if x.op == "agg" else "?"

        def called(I, st, c, args):
            if c.res == SENDER + "::send" or c.name == SENDER + "::send":
                st.mon["sent"] = True

        def awaited(I, st, c, name, vs):
            if WAIT in name + str(vs) and st.mon.get("sent"):
                st.mon["waited"] = True

        def conf(I):
            I.no_inline = lambda x: x != k
            I.await_models = {"tokio::signal::ctrl_c": models.a_result}
            I.on_call, I.on_await, I.on_result = called, awaited, result
        I = r.engine(k, conf=conf, tag="ctrl")
        n = 0
        for v, st, e in returns(I):
            if st.mon.get("ctrl") == "Ok":
                n += 1
                r.oblige(st.mon.get("waited"), "interrupt", "the program may end after an interrupt without having sent the shutdown and waited for its tasks", k)
        r.oblige(n > 0, "interrupt:end", "the program doesn't end after an interrupt", k)
