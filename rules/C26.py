"""Abstract run of every method of the pool of known peers that other code calls.
At each write of a status the previous status is compared (a peer discovered again keeps its status; only peers that weren't active become active);
a ghost remembers the peer that was made active until it is put in the answer: nothing else is put there, and nothing else is made active before;
the size of every answer is compared with the limit where the answer is extended."""
import models
from metainfo import values
from common import *
from udp import Obs

ASSUMPTIONS = ["the pool isn't changed by anybody else while its lock is held (std::sync::Mutex)",
               "HashMap::iter and iter_mut yield every key once"]
KEEP = "keeps what is known about a peer"


def kinds(r):
    st = [n for n, a in r.prog.adts.items() if a["kind"] == "enum" and {v["name"] for v in a["variants"]} >= {"Active", "UnableToConnect", "Unknown"}]
    r.oblige(len(st) == 1, "type:status", "%d types tell what is known about a peer" % len(st), "")
    if len(st) != 1:
        return None
    s = st[0].split("#")[0]
    pool = [n for n, a in r.prog.adts.items() if a["kind"] == "struct" and any("HashMap<" in f[1] and f[1].rstrip(">").endswith(s) for f in a["variants"][0]["fields"])]
    r.oblige(len(pool) == 1, "type:pool", "%d types keep the known peers" % len(pool), "")
    if len(pool) != 1:
        return None
    return s, pool[0].split("#")[0]


class Pool(Obs):
    def __init__(self, r, key, status, pool):
        super().__init__(r)
        self.key, self.status, self.pool = key, status, pool
        self.body = r.prog.bodies[key]
        self.ds = {int(v["discr"]): v["name"] for v in r.prog.adt(status)["variants"]}
        b = self.body
        tys = [b.tystr(b.locals[i]) for i in range(1, b.argc + 1)]
        self.out = b.tystr(b.locals[0])
        self.given = [i + 1 for i, t in enumerate(tys) if status in t]
        lim = [i + 1 for i, t in enumerate(tys) if t == "usize"]
        self.limit = mk("param", key, lim[0]) if len(lim) == 1 else None
        self.hands = bool(self.given) and "Vec<" in self.out
        self.G = mk("G", "active", C(0))

    def conf(self, I):
        self.I = I
        I.before_write, I.on_call, I.on_remove = self.write, self.call, self.removed
        I.maxsig = 500

    # what is known of a status
    def possible(self, I, st, s):
        """names of the variants that the status s may be"""
        if s.op == "agg":
            return {s.a[1]} if s.a[0].split("#")[0] == self.status else set(self.ds.values())
        d = mk("discr", s)
        out = set(self.ds.values())
        if d in st.facts:
            out &= {self.ds.get(st.facts[d], "?")}
        out -= {self.ds.get(x) for x in st.ne.get(d, ())}
        for f, v in st.facts.items():
            if f.op == "eq" and s in f.a and v == 1:
                out &= self.of_discr(I, st, mk("discr", f.a[0] if f.a[1] is s else f.a[1]))
            if f.op == "eq" and d in f.a:
                o = f.a[0] if f.a[1] is d else f.a[1]
                if v == 1:
                    out &= self.of_discr(I, st, o)
                elif v == 0 and o.op == "const":
                    out -= {self.ds.get(o.a[0])}
        return out

    def of_discr(self, I, st, o):
        if o.op == "const":
            return {self.ds.get(o.a[0], "?")}
        if o.op != "discr":
            return set(self.ds.values())
        s = o.a[0]
        if s.op == "elem":
            vs = [v for v in values(I, s.a[0]) if v.op != "empty"]
            if vs and all(v.op == "agg" and v.a[0] == "array" for v in vs):
                return {n for v in vs for x in v.a[3] for y in values(I, x) for n in (self.possible(I, st, y) if y.op == "agg" else self.ds.values())}
            return set(self.ds.values())
        out = set()
        for y in values(I, s):
            if y.op != "agg":
                return set(self.ds.values())
            out.add(y.a[1])
        return out or set(self.ds.values())

    def ob(self, I, ctx, sp, ok, key, msg):
        if I.recording:
            o = self.obs.setdefault(key, [0, 0, "", ""])
            o[0] += 1
            o[1] += bool(ok)
            if not ok and not o[2]:
                o[2], o[3] = msg, "%s:%s in %s" % (sp[0], sp[1], ctx.body.key)

    def entry(self, path):
        """key of the status that the place is"""
        ks = [p[1] for p in path if p[0] == "k"]
        return ks[-1] if ks and path[-1][0] == "k" else None

    def givenback(self, k, v):
        """(k, v) is one of the pairs that the caller gave"""
        p = [mk("deref", mk("param", self.key, i)) for i in self.given] + [mk("param", self.key, i) for i in self.given]
        same = k.op == "f" and v.op == "f" and k.a[0] is v.a[0] and (k.a[-1], v.a[-1]) == ("0", "1")
        return same and contains(k, lambda x: x in p)

    def write(self, I, st, ctx, base, path, v, sp):
        k = self.entry(path)
        if k is None:
            return
        self.set(I, st, ctx, sp, I.read(st, base, path[:-1]), k, I.read(st, base, path), v)

    def set(self, I, st, ctx, sp, m, k, old, v):
        v = I.val(st, v)
        if self.givenback(k, v):
            self.ob(I, ctx, sp, not st.mon.get("made"), "order", "what is given back is recorded after other peers became active: a peer in use may be marked as not in use")
            self.ob(I, ctx, sp, True, "given", "")
            return
        if v.op == "agg" and v.a[1] == "Active":
            was = self.possible(I, st, old)
            self.ob(I, ctx, sp, self.hands, "active:where", "a peer becomes active although nobody asked for peers to connect to")
            self.ob(I, ctx, sp, "Active" not in was, "active:again", "a peer that is in use already may be handed out again")
            self.ob(I, ctx, sp, self.G not in st.env, "active:lost", "a peer becomes active before the last one that did is put in the answer")
            st.env[self.G] = k
            st.mon["made"] = "1"
            st.mon["owed"] = "1"
            return
        has = I.truth(st, models.map_has(I, st, m, k)) if m is not None else None
        self.ob(I, ctx, sp, has == 0, "known", "what is known about a peer may be replaced by %s" % (v.a[1] if v.op == "agg" else show(v)[:60]))
        self.ob(I, ctx, sp, v.op == "agg" and v.a[1] == "Unknown", "new", "a peer that was never tried is recorded as %s" % (v.a[1] if v.op == "agg" else show(v)[:60]))

    def removed(self, I, st, c, p, k):
        if self.ofpool(c):
            self.oblige(I, c.ctx, c.bb, False, "forgotten", "a known peer is forgotten")

    def ofpool(self, c):
        ts = [c.tname(i) or "" for i in range(4)]
        return any(self.status == t.split("#")[0] for t in ts) or "HashMap" in c.name and "::" not in ts[0]

    def call(self, I, st, c, args):
        last = c.name.split("::")[-1]
        sp = c.term["sp"]
        if self.ofpool(c) and last == "insert" and "HashMap" in c.name or last == "map_insert":
            m = models.rd(I, st, models.innermost(I, st, args[0]))
            k, v = I.vals(st, args[1:])
            self.set(I, st, c.ctx, sp, m, k, mk("mapget", m, k), v)
        elif last == "insert" and "VacantEntry" in c.name:
            e, v = I.vals(st, args)
            x = dict(zip(e.a[2], e.a[3])) if e.op == "agg" else {}
            if "k" in x:
                self.ob(I, c.ctx, sp, v.op == "agg" and v.a[1] == "Unknown", "new", "a peer that was never tried is recorded as %s" % (v.a[1] if v.op == "agg" else show(v)[:60]))
        elif self.ofpool(c) and last in ("retain", "clear", "drain", "extract_if", "and_modify", "insert_entry"):
            self.oblige(I, c.ctx, c.bb, False, "forgotten", "known peers go through %s" % c.name)
        elif last in ("push_vec", "push", "push_back", "insert") and self.limit is not None and ("Vec" in c.name or "push" in last) and self.topeers(c):
            vec, k = I.vals(st, args[:1] + args[-1:])
            m = models.rd(I, st, models.innermost(I, st, args[0]))
            self.pushed(I, st, c, sp, m, k)

        elif self.hands and self.limit is not None and "Vec" in c.name and last in ("truncate", "pop", "drain", "clear", "split_off", "swap_remove", "remove", "retain", "dedup"):
            self.oblige(I, c.ctx, c.bb, False, "answer:dropped", "a peer that was made active may be left out of the answer")

    def topeers(self, c):
        t = (c.tname(0) or "?").split("#")[0]
        return t.endswith("::Peer") or "::" not in t or t.startswith("<")

    def pushed(self, I, st, c, sp, vec, k):
        if self.hands:
            self.ob(I, c.ctx, sp, self.G in st.env and same(I, st, st.env[self.G], k), "answer:active", "a peer is handed out that wasn't made active, or twice")
            st.env.pop(self.G, None)
            st.mon.pop("owed", None)
        else:
            ms = [x for x in set(subterms(k)) if x.op == "opq"]
            ok = [x for f in list(st.facts) for x in subterms(f) if x.op == "mapget" and x.a[1] is k]
            was = set(self.ds.values())
            for x in set(ok):
                was &= self.possible(I, st, x)
            self.ob(I, c.ctx, sp, "UnableToConnect" not in was, "good", "a peer that couldn't be connected to may be passed on")


def check(r):
    r.rule("a status is only written for a peer that isn't known yet (Unknown), for a pair that the caller gives back, or as Active for a peer that wasn't active and that is put in the answer next")
    K = kinds(r)
    if not K:
        return
    status, pool = K

    def method(k):
        b = r.prog.bodies.get(k)
        return b is not None and b.argc >= 1 and not b.coroutine and "{" not in k and not b.sp[3] and b.tystr(b.locals[1]).replace("mut ", "").lstrip("&").split(" ")[-1].split("#")[0] == pool
    ms = sorted(k for k in r.prog.bodies if method(k))
    inner = {k for k in ms if r.graph.callers.get(k) and all(method(x.split("::{")[0]) for x in r.graph.callers[k])}
    r.oblige(bool(ms), "methods", "nothing uses the pool", pool)
    hands = news = lists = 0
    for k in ms:
        if k in inner:
            continue
        O = Pool(r, k, status, pool)
        I = r.engine(k, conf=O.conf, tag="pool")
        for f in sorted(I.inlined):
            r.cover("functions", f)
        for v, st, e in returns(I):
            r.oblige(not st.mon.get("owed"), "active:owed", "a peer stays active that isn't put in the answer", k)
            if O.limit is not None:
                for x in (v.a[3] if v.op == "agg" else [v]):
                    r.oblige(le(st, length(x), O.limit), "limit", "more peers than asked for may be returned", k)
            if O.limit is not None and v.op == "agg" and v.a[1] == "Some" and not O.hands:
                r.oblige(lt(st, C(0), length(v.a[3][0])), "none", "an answer without peers is returned as if there were some", k)
        if O.hands:
            hands += 1
            r.oblige(O.limit is not None, "limit:asked", "the number of peers handed out isn't limited by the caller", k)
            O.flush("", {"given": "records what is given back", "answer:active": "puts peers in the answer", "active:again": "makes peers active"})
        else:
            lists += "good" in O.obs
            news += "new" in O.obs
            O.flush("", {})
        r.cover("methods of the pool", k)
    r.oblige(hands > 0, "hands:none", "no method of the pool hands out peers to connect to", pool)
    r.oblige(news > 0, "new:none", "no method of the pool records new peers", pool)
    r.oblige(lists > 0, "lists:none", "no method of the pool lists good peers", pool)
