"""Two kinds of abstract runs.  The function that makes a URL of an announce is run on an arbitrary announce, its states kept apart by event,
tracker id, flags and the outcome of looking for `?`: each resulting string is resolved into literals and values and read as a query.
The task of a tracker is run from its spawn with a phase machine (contacting, waiting, shut down) as ghost: each request is sent in a state
whose announce must carry the event that the phase machine asks for, and the values that the task was spawned with; what the spawning function
puts into the task must be the torrent's."""
import anchors
import metainfo
import models
from metainfo import values
from common import *

ASSUMPTIONS = ["urlencoding percent-encodes every byte that isn't allowed in a query"]
ANN = "tracker::announce::Announce"
GET = "reqwest::Client::get"
EXTEND = "std::iter::Extend::extend"


# ---------------------------------------------------------------- URL
def is_url(b):
    return b.argc == 1 and not b.coroutine and b.tystr(b.locals[0]) == "std::string::String" and b.tystr(b.locals[1]).lstrip("&").split(" ")[-1] == ANN


def urls(r):
    return sorted(k for k, b in r.prog.bodies.items() if is_url(b) and "{" not in k)


def encoded(t, x):
    """percent-encoded bytes of x?"""
    t = strip(t)
    if not (t.op == "call" and t.a[0] in ("encode", "encode_binary") and len(t.a) == 2):
        return False
    y = strip(t.a[1])
    return y is x or y is field(x, "", "0") or unwrap_bytes(y) is x


def strip(t):
    while t.op == "call" and (t.a[0] in SAME or t.a[0].split(":")[0] in ("into", "from", "as_str", "to_string", "as_bytes")) and len(t.a) >= 2:
        t = t.a[-1]
    return t


def url(r, k):
    a = mk("deref", mk("param", k, 1))
    ev, tid = field(a, "", "event"), field(a, "", "tracker_id")
    ds = [mk("discr", ev), mk("discr", tid), mk("discr", field(ev, "Some", "0")), field(a, "", "compact"), field(a, "", "no_peer_id")]

    def has_query(st):
        return [v for f, v in st.facts.items() if f.op == "call" and f.a[0] in ("contains", "find") and contains(f, lambda x: x is field(a, "", "tracker_url")) and
                contains(f, lambda x: x is C(63) or x.op == "str" and x.a[0] == "?" or x.op == "bytes" and bytes(x.a[0]) == b"?")]

    def conf(I):
        I.sigextra = lambda st: tuple(st.facts.get(d) for d in ds) + tuple(has_query(st))
        I.maxsig = 500
    I = r.engine(k, conf=conf, tag="url")
    adt = r.prog.adt("tracker::announce::AnnounceEvent")
    names = {int(v["discr"]) if v.get("discr") is not None else i: v["name"] for i, v in enumerate(adt["variants"])} if adt else {}
    for v, st, e in returns(I):
        for p in metainfo.Paths(I, True).alts(v):
            query(r, I, st, k, metainfo.norm(p), a, ds, has_query(st), names)


def query(r, I, st, k, p, a, ds, hq, names):
    vals, text = [], ""
    for q in p:
        if q[0] == "lit":
            text += q[1]
        elif q[0] == "val":
            text += "\0%d\0" % len(vals)
            vals.append(q[1])
        else:
            r.oblige(False, "url:loop", "the URL isn't made of a fixed list of parameters: %s" % metainfo.show_path(p)[-200:], k)
            return
    ok = text.startswith("\0000\0") and strip(vals[0]) is field(a, "", "tracker_url")
    r.oblige(ok, "url:base", "the URL doesn't begin with that of the tracker", k)
    rest = text[3:]
    want = {1: "&", 0: "?"}.get(hq[0]) if len(set(hq)) == 1 else None
    r.oblige(rest[:1] in ("?", "&") and (want == rest[:1]), "url:separator", "the parameters follow the tracker's URL after %r %s" % (
        rest[:1], "although it has a query" if want == "&" else "although it has none" if want else "whether it has a query or not"), k)
    got, twice = {}, False
    for x in rest[1:].split("&"):
        n, _, y = x.partition("=")
        twice |= n in got
        got[n] = y
    r.oblige(not twice, "url:twice", "a parameter occurs twice: %s" % sorted(got), k)

    def val(n):
        y = got.get(n, "")
        return vals[int(y[1:-1])] if len(y) >= 3 and y[0] == "\0" and y[-1] == "\0" and y.count("\0") == 2 else None
    for n in ("info_hash", "peer_id"):
        r.oblige(val(n) is not None and encoded(val(n), field(a, "", n)), "url:" + n, "%s is %s" % (n, shown(got, n, vals)), k)
    for n in ("port", "uploaded", "downloaded", "left"):
        r.oblige(val(n) is not None and strip(val(n)) is field(a, "", n), "url:" + n, "%s is %s" % (n, shown(got, n, vals)), k)
    f = st.facts
    c = f.get(ds[3])
    ok = got.get("compact") == str(c) or val("compact") is not None and strip(val("compact")) is ds[3]
    r.oblige(ok, "url:compact", "compact is %s" % shown(got, "compact", vals), k)
    if "no_peer_id" in got:
        ok = got["no_peer_id"] == str(f.get(ds[4])) or val("no_peer_id") is not None and strip(val("no_peer_id")) is ds[4]
        r.oblige(ok, "url:no_peer_id", "no_peer_id is %s" % shown(got, "no_peer_id", vals), k)
    some_ = f.get(ds[0])
    if some_ == 1:
        r.oblige(got.get("event") == names.get(f.get(ds[2]), "?").lower(), "url:event", "the event %s is written as %s" % (names.get(f.get(ds[2])), shown(got, "event", vals)), k)
    else:
        r.oblige(some_ == 0 and "event" not in got, "url:event", "event is %s whether there's one or not" % shown(got, "event", vals), k)
    t = f.get(ds[1])
    tid = field(field(a, "", "tracker_id"), "Some", "0")
    ok = t == 0 and "trackerid" not in got or t == 1 and val("trackerid") is not None and encoded(val("trackerid"), tid)
    r.oblige(ok, "url:trackerid", "trackerid is %s" % shown(got, "trackerid", vals), k)
    extra = set(got) - {"info_hash", "peer_id", "port", "uploaded", "downloaded", "left", "compact", "no_peer_id", "event", "trackerid"}
    for n in sorted(extra & {"numwant", "key", "ip"}):
        extra.discard(n)
    r.oblige(not extra, "url:extra", "parameters that no tracker knows: %s" % sorted(extra), k)
    r.cover("forms of the URL", "&".join(sorted(got)) + " after " + rest[:1])


def shown(got, n, vals):
    if n not in got:
        return "missing"
    return show(vals[int(got[n][1:-1])])[-100:] if got[n].startswith("\0") and got[n].count("\0") == 2 else repr(got[n])


# ---------------------------------------------------------------- the task
def tracker_task(r):
    ts = [t for t in r.graph.tasks if any(GET in e for e in r.graph.reach_ext(t))]
    r.oblige(len(ts) == 1, "task", "%d tasks talk to trackers" % len(ts), "tokio::spawn")
    return ts[0] if len(ts) == 1 else None


def wants(want, ev):
    """does the announce carry the event that's due?"""
    if ev.op != "agg":
        return False
    if ev.a[1] == "None":
        return want == "none"
    return ev.a[1] == "Some" and ev.a[3][0].op == "agg" and ev.a[3][0].a[1] == want


def run(r, task, extra=None, answer=None, apart=lambda st: ()):
    ks, at = urls(r), []

    def has_id(st):
        """does the announce have a tracker id?  keeps states apart"""
        out = set()
        for x in set(at):
            try:
                t = field(engine.read(st, *x), "", "tracker_id")
            except Exception:
                continue
            out.add(t.a[1] if t.op == "agg" else st.facts.get(mk("discr", t)))
        return tuple(sorted(map(str, out)))
    engine = None
    seen = {"get": [], "sleep": [], "extend": []}

    def made(I, st, c, args):
        p = args[0]
        if p.op == "ptr":
            at.append(I.deref(p))
        return mk("call", "url", I.read(st, *I.deref(p)) if p.op == "ptr" else mk("deref", p))

    def called(I, st, c, args):
        n = c.res or c.name
        if n == GET or c.name == GET:
            if I.recording:
                seen["get"].append((c, I.vals(st, args), st.copy()))
        elif c.name == EXTEND and "Peers" in (c.tname(0) or ""):
            if I.recording:
                seen["extend"].append((c, I.vals(st, args), st.copy()))
            st.mon["given"] = True
        elif n.split("::")[-1] == "load" and "Atomic" in n:
            st.mon["fresh"] = True

    def result(I, st, c, name, x):
        ph = st.mon.get("phase")
        if ph == "wait":
            st.mon["fresh"] = False
        if name == "tokio::time::sleep":
            if ph == "wait":
                st.mon["phase"] = "contact"
        elif name.endswith("broadcast::Receiver::<T>::recv"):
            if x.op != "agg" or x.a[1] != "Ok":
                if ph == "wait":
                    st.mon["phase"] = "over" if not shut(c) else ph
            elif ph == "wait" and not shut(c):
                st.mon["phase"], st.mon["want"] = "contact", "Completed"
            if shut(c):
                st.mon["phase"] = "goodbye" if ph == "wait" else "over" if ph == "contact" else ph

    def shut(c):
        ctx = c.ctx
        while ctx is not None:
            if ctx.body.key.startswith("shutdown::") or ctx.body.key.startswith("<shutdown::"):
                return True
            ctx = ctx.parent
        return False

    def decoded(I, st, c, args):
        if "Response" not in (c.tname(0) or ""):
            return NotImplemented
        s = st.copy()
        I.kill(s, c.site)
        if st.mon["phase"] == "contact":
            st.mon["phase"], st.mon["want"] = "wait", "none"
            st.mon["given"] = False
        out = [(s, models.err(mk("opq", c.site, "no answer")))]
        for mon, v in answer(c) if answer else [({}, mk("answer", c.site))]:
            q = st.copy()
            q.mon.update(mon)
            out.append((q, models.ok(v)))
        return out

    def client(I, st, c, args):
        s = st.copy()
        I.kill(s, c.site)
        if s.mon["phase"] == "goodbye":
            s.mon["phase"] = "over"
        return [(st, models.ok(mk("opq", c.site, "client"))), (s, models.err(mk("opq", c.site, "no client")))]

    def sent(I, st, c, name, vs):
        if "RequestBuilder::send" in name and st.mon.get("phase") == "goodbye":
            st.mon["phase"] = "over"
        if name == "tokio::time::sleep" and I.recording:
            seen["sleep"].append((c, vs, st.copy()))
        if extra:
            extra(I, st, c, name, vs)

    def conf(I):
        nonlocal engine
        engine = I
        I.sigextra = lambda st: has_id(st) + apart(st)
        I.maxsig = 500
        I.on_call, I.on_result, I.on_await = called, result, sent
        I.no_inline = lambda k: "Response" in k or k.startswith(("peers::", "<peers::"))
        for k in ks:
            I.call_models[k] = made
        I.call_models["bendy::decoding::FromBencode::decode_bencode_object"] = decoded
        I.call_models["bendy::decoding::FromBencode::from_bencode"] = decoded
        I.call_models["reqwest::ClientBuilder::build"] = client
        I.await_models = {"tokio::sync::broadcast::Receiver::<T>::recv": models.a_result}

    def setup(I, st, ctx):
        st.mon.update(phase="contact", want="Started", given=True, fresh=False)
    I = r.engine(task, conf=conf, setup=setup, tag="tracker")
    return I, seen


def life(r, task):
    I, seen = run(r, task)
    root = mk("param", task, 1)
    froms = {}
    for c, vs, st in seen["get"]:
        where = "%s:%s in %s" % I.loc(c.ctx, c.bb)[:3]
        ph, want = st.mon["phase"], st.mon["want"]
        r.oblige(ph in ("contact", "goodbye"), "get:" + ph, "an announce is sent %s" % ("after the task was told to shut down" if ph == "over" else "before it's due"), where)
        want = "Stopped" if ph == "goodbye" else want
        r.oblige(st.mon["fresh"], "left:fresh", "left isn't computed anew after the wait that precedes the announce", where)
        us = values(I, vs[1])
        for u in us:
            ok = u.op == "call" and u.a[0] == "url"
            r.oblige(ok, "get:url", "a request is sent to %s" % show(u)[:100], where)
            if not ok:
                continue
            for a in values(I, u.a[1]):
                x = dict(zip(a.a[2], a.a[3])) if a.op == "agg" else {}
                for ev in values(I, x["event"]) if x else ():
                    r.oblige(wants(want, ev), "event:%s" % want, "an announce is sent with the event %s where it should be %s" % (show(ev)[:60], want.lower()), where)
                    r.cover("announces", "%s in phase %s" % (want, ph))
                for n in ("tracker_url", "info_hash", "peer_id", "port"):
                    y = x.get(n)
                    ys = values(I, y) if y is not None else set()
                    i = {z.a[2] for z in ys if z.op == "f" and z.a[0] is root}
                    r.oblige(len(ys) == 1 and len(i) == 1, "field:" + n, "the announce's %s isn't what the task was given but %s" % (n, [show(z)[:80] for z in ys][:2]), where)
                    froms.setdefault(n, set()).update(i)
                left(r, I, st, x.get("left"), root, froms, where)
    for v, st, e in returns(I):
        r.oblige(st.mon["phase"] != "goodbye", "goodbye", "the task may end after a shutdown without having announced that it stops", task)
        r.cover("ends of the task", st.mon["phase"])
    r.oblige(bool(seen["get"]), "none", "nothing is announced", task)
    return I, froms


def left(r, I, st, t, root, froms, where):
    """(pieces - downloaded) * piece length"""
    def is_root(z):
        return z.op == "f" and z.a[0] is root

    def load(z):
        return z.op == "opq" and "load" in str(z.a[1]) and any(is_root(y) for y in subterms(z)) or z.op == "call" and z.a[0] == "load"
    for y in values(I, t) if t is not None else ():
        ls, k = lin(y)
        good = k == 0 and len(ls) == 2
        pos = [z for z, c in ls if c == 1]
        neg = [z for z, c in ls if c == -1]
        good = good and len(pos) == 1 and len(neg) == 1 and pos[0].op == "mul" and neg[0].op == "mul"
        if good:
            P = [z for z in pos[0].a if z in neg[0].a and is_root(z)]
            n = [z for z in pos[0].a if z not in P]
            d = [z for z in neg[0].a if z not in P]
            good = len(P) == 1 and len(n) == 1 and is_root(n[0]) and len(d) == 1 and load(d[0])
            if good:
                froms.setdefault("piece_length", set()).add(P[0].a[2])
                froms.setdefault("piece_count", set()).add(n[0].a[2])
        elif y.op == "mul":
            P = [z for z in y.a if is_root(z)]
            d = [z for z in y.a if z not in P]
            good = len(P) == 1 and len(d) == 1 and sorted(c for z, c in lin(d[0])[0]) == [-1, 1] and lin(d[0])[1] == 0 and all(is_root(z) if c == 1 else load(z) for z, c in lin(d[0])[0])
            if good:
                froms.setdefault("piece_length", set()).add(P[0].a[2])
                froms.setdefault("piece_count", set()).update(z.a[2] for z, c in lin(d[0])[0] if c == 1)
        r.oblige(good, "left", "left isn't (pieces - downloaded pieces) * piece length but %s" % show(y)[:200], where)


# ---------------------------------------------------------------- what the task is given
def given(r, task, froms):
    by = sorted(k for k in r.graph.sites if any(s.name == "tokio::spawn" or (s.res or "") == "tokio::spawn" for s in r.graph.sites[k]) and task.startswith(k + "::"))
    r.oblige(len(by) == 1, "spawner", "%d functions spawn the tasks of trackers" % len(by), task)
    for k in by:
        b = r.prog.bodies[k]
        ps = {b.tystr(b.locals[i]).lstrip("&").split(" ")[-1]: i for i in range(1, b.argc + 1)}
        tor = next((mk("deref", mk("param", k, i)) if b.tystr(b.locals[i]).startswith("&") else mk("param", k, i) for t, i in ps.items() if t == "transcoding::metainfo::Torrent"), None)
        if tor is None:
            r.oblige(False, "torrent", "%s isn't given the torrent" % k, k)
            continue
        spawned = []

        def called(I, st, c, args):
            if (c.res or c.name) == "tokio::spawn" and I.recording:
                spawned.append((c, I.val(st, args[0]), st.copy()))

        def conf(I):
            I.on_call = called
            I.no_inline = lambda x: x == task
        I = r.engine(k, conf=conf, tag="spawn")
        info = field(tor, "", "info")
        want = {"info_hash": lambda t: t is field(tor, "", "info_hash"),
                "piece_length": lambda t: t is field(info, "", "piece_length"),
                "piece_count": lambda t: t is length(field(info, "", "pieces")),
                "peer_id": lambda t: base(t) in params(r, k, "data_structures::id::ID"),
                "port": lambda t: t in params(r, k, "u16"),
                "tracker_url": lambda t: contains(t, lambda x: x is field(tor, "", "announce")) and contains(t, lambda x: x.op == "f" and x.a[1] == "Http")}
        for c, v, st in spawned:
            where = "%s:%s in %s" % I.loc(c.ctx, c.bb)[:3]
            ups = list(v.a[3]) if v.op == "agg" else []
            for n, ok in want.items():
                for i in froms.get(n, ()):
                    t = ups[int(i)] if str(i).isdigit() and int(i) < len(ups) else None
                    ts = values(I, t) if t is not None else set()
                    r.oblige(bool(ts) and all(ok(strip(y)) for y in ts), "given:" + n, "the %s of the announces is %s" % (n.replace("_", " "), [show(y)[:100] for y in ts][:2]), where)
                    r.cover("given to the task", "%s = %s" % (n, [show(y)[-80:] for y in ts][:2]))
        r.oblige(bool(spawned), "spawned", "no task is spawned for trackers", k)
        for n in want:
            r.oblige(len(froms.get(n, ())) == 1, "from:" + n, "%s isn't one value the task is given" % n, task)


def params(r, k, ty):
    b = r.prog.bodies[k]
    return {x for i in range(1, b.argc + 1) if b.tystr(b.locals[i]).lstrip("&").split(" ")[-1] == ty for x in (mk("param", k, i), mk("deref", mk("param", k, i)))}


def base(t):
    return t


def check(r):
    r.rule("the URL of an announce: the tracker's, `?` or `&`, then info_hash, peer_id, port, uploaded, downloaded, left, compact, and event and trackerid where there's one, each with its value")
    r.rule("event: started until the tracker has answered; completed right after the notice of it; stopped when told to shut down between announces, as the last; else none")
    r.rule("URL, info-hash, peer id and port are those the task was spawned with, which are the torrent's; left = (pieces - downloaded pieces) * piece length, computed after the last wait")
    ks = urls(r)
    r.oblige(bool(ks), "url", "no function makes a URL of an announce", ANN)
    for k in ks:
        url(r, k)
    t = tracker_task(r)
    if t:
        I, froms = life(r, t)
        given(r, t, froms)
