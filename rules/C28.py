"""Abstract run of the task that owns the DHT socket.  The only operations it waits for are those on the socket and its
own command channel, it calls nothing that blocks the thread, and it returns only in states whose facts say that
binding or receiving failed or that the command channel was closed."""
import anchors
import udp
from common import *

WAITS = {"tokio::task::yield_now", "tokio::net::UdpSocket::bind", "tokio::net::UdpSocket::recv_from", "tokio::net::UdpSocket::send_to", "tokio::sync::mpsc::Receiver::<T>::recv"}
BLOCKING = ("blocking_send", "blocking_recv", "blocking_lock", "block_on", "std::thread::", "std::sync::Mutex", "std::sync::RwLock", "std::sync::mpsc", "std::fs::", "std::process::",
            "std::net::UdpSocket", "std::net::TcpStream", "block_in_place", "Condvar", "std::sync::Barrier", "tokio::time::sleep")


def check(r):
    task = anchors.udp_task(r)
    if not task:
        return
    r.rule("the task awaits nothing but bind, recv_from, send_to and its own command channel")
    r.rule("no function that blocks the thread is reachable from the task")
    r.rule("the task returns only after the socket failed or the command channel was closed")
    waits = {}

    def conf(I):
        U.conf(I)
        aw = I.on_await

        def awaited(I, st, c, name, vs):
            if I.recording:
                waits.setdefault(name, I.loc(c.ctx, c.bb))
            aw(I, st, c, name, vs)
        I.on_await, I.on_result = awaited, result

    def result(I, st, c, name, x):
        n = name.split("::")[-1]
        if n != "send_to":
            st.mon["last"] = n + " " + (x.a[1] if x.op == "agg" else "")

    U = udp.Udp(r)
    I = r.engine(task, conf=conf, tag="waits")
    for name, loc in sorted(waits.items()):
        where = "%s:%d in %s" % loc[:3]
        r.cover("operations awaited", "%s at %s" % (name, where))
        r.oblige(name in WAITS, "wait:%s" % name, "the task waits for %s, while it does no datagram is received" % name, where)
    r.oblige("tokio::net::UdpSocket::recv_from" in waits, "wait:none", "the task receives nothing", task)
    for f in sorted(r.graph.reach(task)):
        r.cover("functions", f)
        for s in r.graph.sites[f]:
            if s.noise:
                continue
            bad = any(b in s.name or (s.res and b in s.res) for b in BLOCKING)
            r.oblige(not bad, "blocking:%s" % s.name, "the task that serves the DHT socket calls %s, which may block it" % s.name, s.where)
            if "tokio::sync" in s.name and s.name.split("::")[-1] in ("send", "lock", "acquire", "reserve", "recv", "notified", "wait"):
                r.cover("channel operations", s.where)
    n = 0
    for v, st, e in returns(I):
        n += 1
        ok = st.mon.get("last") in ("recv_from Err", "recv None", "bind Err")
        r.oblige(ok, "ends", "the task may end although its socket works and its command channel is open", task)
    r.cover("returns", n)
