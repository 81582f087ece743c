"""Abstract run of every operation of the routing table that other code calls, on an arbitrary table: each write to a slot of a bucket is
intercepted before it happens and compared with what is known on the path about the slot's old content; ghosts follow the nodes of a bucket
that is split until they are in one of its halves; what look-ups return is compared with what is known about each node in it."""
import models
from arith import binop
from metainfo import values
from common import *
from udp import Obs

ASSUMPTIONS = ["bits of ids, and their distances, are what the names of the operations of ID say (bit arithmetic isn't analysed)",
               "a table has a bucket (fresh tables have one, splitting takes one and adds two, cached ones are looked at)"]
HARMLESS = set("len is_empty capacity with_capacity last last_mut first iter iter_mut get get_mut reserve as_slice as_mut_slice new deref deref_mut index index_mut".split())


def cls(t):
    return (t or "").split("#")[0].split("<")[0].split("::")[-1]


def recv(b):
    return b.tystr(b.locals[1]) if b.argc >= 1 and not b.coroutine else ""


def arith(k):
    """operations on ids stay uninterpreted"""
    return "data_structures::id::" in k.split(" as ")[0] and "bit_based_order" not in k and not k.endswith("::eq")


def I_eq(I, st, a, b):
    t = I.truth(st, mk("eq", a, b))
    return t if t is not None else I.truth(st, mk("eq", b, a))


def is_zero(t):
    return t.op == "c" and t.a[0] == 0


def now(t):
    return t.op == "opq" and any("now" in str(x) for x in t.a[1:2])


class Shape:
    def __init__(self, r):
        self.ok = False
        T = [a for n, a in r.prog.adts.items() if cls(n) == "RoutingTable"]
        r.oblige(len(T) == 1, "anchor:table", "there is no routing table", "")
        if len(T) != 1:
            return
        f = dict(T[0]["variants"][0]["fields"])
        self.own = next((n for n, t in f.items() if cls(t) == "ID"), None)
        self.buckets = next((n for n, t in f.items() if t.startswith("std::vec::Vec<")), None)
        self.bucket = cls(f[self.buckets][len("std::vec::Vec<"):-1]) if self.buckets else None
        B = [a for n, a in r.prog.adts.items() if cls(n) == self.bucket]
        g = dict(B[0]["variants"][0]["fields"]) if B else {}
        self.slots = next((n for n, t in g.items() if "std::option::Option<" in t), None)
        self.depth = next((n for n, t in g.items() if t == "usize"), None)
        self.node = cls(g[self.slots].split("std::option::Option<")[1].split(">")[0]) if self.slots else None
        N = [a for n, a in r.prog.adts.items() if cls(n) == self.node and "routing" in n]
        h = dict(N[0]["variants"][0]["fields"]) if N else {}
        self.id = next((n for n, t in h.items() if cls(t) == "ID"), None)
        self.addr = next((n for n, t in h.items() if "SocketAddr" in t), None)
        self.seen = next((n for n, t in h.items() if "Instant" in t), None)
        self.ok = all((self.own, self.slots, self.depth, self.id, self.addr, self.seen))
        r.oblige(self.ok, "anchor:shape", "the fields of the routing table, its buckets and nodes aren't the ones known", self.bucket or "")


class Table(Obs):
    def __init__(self, r, S, root, known=None):
        super().__init__(r)
        self.S, self.root, self.known = S, root, known if known is not None else {}
        b = r.prog.bodies[root]
        self.me = mk("param", root, 1)
        ps = [(b.tystr(b.locals[i + 1]), mk("param", root, i + 1)) for i in range(b.argc)]
        ps = [(t, mk("deref", p) if t.startswith("&") else p) for t, p in ps]
        self.ids = [p for t, p in ps if cls(t.lstrip("&")) == "ID"]
        self.addrs = [p for t, p in ps if "SocketAddr" in t]
        self.half, self.bases, self.lens, self.taken, self.covered, self.wrong = {}, {}, set(), set(), set(), set()
        self.light = self.r.prog.bodies[root].tystr(self.r.prog.bodies[root].locals[0]) not in ("bool", "()")
        self.recursive = {x for x in r.prog.bodies if x in r.graph.callers.get(x, [])}
        self.zero, self.one = mk("G", "zero", C(0)), mk("G", "one", C(0))

    def conf(self, I):
        self.I = I
        I.no_inline = lambda k: arith(k) or k in self.recursive and k != self.root
        I.on_leave = self.leave
        I.before_write, I.on_call, I.sigextra, I.on_agg = self.write, self.call, self.extra, self.agg
        I.maxsig = 400

    def setup(self, I, st, ctx):
        if self.known.get(self.root):
            st.mon["absent"] = "1"

    def ob(self, ctx, sp, ok, key, msg):
        if self.I.recording:
            o = self.obs.setdefault(key, [0, 0, "", ""])
            o[0] += 1
            o[1] += bool(ok)
            if not ok and not o[2]:
                o[2], o[3] = msg, "%s:%s in %s" % (sp[0], sp[1], ctx.body.key)

    # what is known about a node
    def slot(self, t):
        """t is an element of a bucket's slots: the bucket"""
        if t.op == "phi":
            bs = {self.slot(v) for v in values(self.I, t) if v.op != "phi"}
            return bs.pop() if len(bs) == 1 else None
        a = t.a
        if len(a) == 2 and t.op not in ("f", "opq", "phi") and hasattr(a[0], "op") and a[0].op == "f" and a[0].a[2] == self.S.slots and (self.S.slots != self.S.buckets or a[0].a[0].op != "deref" or a[0].a[0].a[0] is not self.me):
            return a[0].a[0]
        return None

    def limit(self, t):
        return t.op == "call" and t.a[0] == "from_secs" and hasattr(t.a[1], "op") and t.a[1].op == "c" and t.a[1].a[0] == 900

    def good(self, st, e):
        """1, 0 or None (unknown): the slot e holds a good node"""
        if st.facts.get(mk("discr", e)) == 0:
            return 0
        s = field(field(e, "Some", "0"), "", self.S.seen)
        if st.facts.get(mk("discr", s)) == 0:
            return 0
        t = field(s, "Some", "0")
        for f, v in st.facts.items():
            if f.op != "bin" or f.a[0] not in ("Lt", "Le", "Gt", "Ge") or not contains(f, lambda x: x is t):
                continue
            left = contains(f.a[1], lambda x: x is t)
            age, lim = (f.a[1], f.a[2]) if left else (f.a[2], f.a[1])
            if not self.limit(lim) or "elapsed" not in show(age)[:60]:
                return None
            young = (f.a[0] in ("Lt", "Le")) == left
            return v if young else 1 - v
        return None

    def mine(self, st, e):
        """the node in slot e has the id that was given"""
        i = field(field(e, "Some", "0"), "", self.S.id)
        return any(i is p or I_eq(self.I, st, i, p) == 1 for p in self.ids)

    def differs(self, st, e):
        if st.facts.get(mk("discr", e)) == 0:
            return True
        i = field(field(e, "Some", "0"), "", self.S.id)
        return any(I_eq(self.I, st, i, p) == 0 for p in self.ids)

    def less(self, i, n):
        return binop("Lt", i, n, "usize")

    def over(self, st):
        """an iteration over slots has come to its end (facts of earlier ones were taken away when it began)"""
        return any(v == 0 and self.ends(f) for f, v in st.facts.items())

    def ends(self, f):
        return any(f is self.less(x, n) for n in self.lens for x in f.a if hasattr(x, "op") and x.op == "phi")

    def alias(self, st, e):
        """the slot e under the name that facts know it by"""
        if self.slot(e) is None or e.op == "phi" or mk("discr", e) in st.facts:
            return e
        for f in st.facts:
            if f.op == "discr" and f.a[0].op == e.op and self.slot(f.a[0]) is self.slot(e) and eq(st, f.a[0].a[1], e.a[1]):
                return f.a[0]
        return e

    def bit(self, st, what, depth):
        """the bit that the path knows"""
        return next((v for f, v in st.facts.items() if f.op == "opq" and len(f.a) > 3 and f.a[1].endswith("get_bit") and f.a[2] is what and f.a[3] is depth), None)

    def extra(self, st):
        """states are kept apart by what is known about the slots and bits looked at; typestates of loops over slots"""
        out = set()
        if self.light:
            return any(self.mine(st, f.a[0]) for f, v in st.facts.items() if v == 1 and f.op == "discr" and self.slot(f.a[0]) is not None)
        for f, v in list(st.facts.items()):
            if f.op == "discr" and self.slot(f.a[0]) is not None:
                e = f.a[0]
                g, m = self.good(st, e), self.mine(st, e)
                out.add(("slot", g, m, st.facts.get(f), st.facts.get(mk("discr", field(field(e, "Some", "0"), "", self.S.seen)))))
                if m:
                    st.mon["found"] = "1"
                if self.differs(st, e):
                    st.mon["differs"] = "1"
                if g == 1:
                    st.mon["good"] = "1"
                if v == 1 and self.slot(e).id in self.taken and st.mon.get("split") in ("0", "1") and not st.mon.get("node"):
                    st.mon["node"] = "have"
            elif f.op == "discr" and self.first_diff(f) is f.a[0]:
                d = lin(field(f.a[0], "Some", "0"))
                out.add(("diff", v) + tuple(sorted(str(q) for q in st.ineqs if len(q[0]) == 2 and any(x in dict(d[0]) for x, _ in q[0]))))
            elif f.op == "opq" and len(f.a) > 3 and f.a[1].endswith("get_bit"):
                out.add(("own" if f.a[2].op == "f" and f.a[2].a[2] == self.S.own else "bit", v))
        if st.mon.get("search") and self.over(st):
            if st.mon.get("search") == "all":
                st.mon["absent"] = "1"
            if st.mon.get("allgood") == "all":
                st.mon["full"] = "1"
            for k in ("search", "allgood", "differs", "good"):
                st.mon.pop(k, None)
        return tuple(sorted(out, key=str))

    def call(self, I, st, c, args):
        n = c.res or c.name
        last = n.split("::")[-1]
        if last == "next" and args and not self.light:
            self.step(I, st, c, args)
        elif n.startswith("std::vec::Vec::<") and cls((c.tname(0) or "").lstrip("&")) == self.S.bucket:
            vs = I.vals(st, args)
            if last == "pop":
                x = I.val(st, models.rd(I, st, models.innermost(I, st, args[0])))
                self.taken.add(elem(x, bsub(length(x), C(1), "usize")).id)
                st.mon["split"] = "0"
                st.env[self.zero] = st.env[self.one] = C(0)
                self.forget(st)
                for k in ("node", "absent"):
                    st.mon.pop(k, None)
            elif last == "push":
                self.push(I, st, c, vs[1])
            elif last not in HARMLESS:
                self.oblige(I, c.ctx, c.bb, False, "split:other", "buckets are moved by %s" % n)
        elif n == "vmodel::push_vec":
            for y in values(I, I.val(st, args[1])):
                e = y.a[0] if y.op == "f" and y.a[1] == "Some" else None
                if e is not None and self.slot(e) is not None:
                    self.oblige(I, c.ctx, c.bb, self.good(st, e) == 1, "found:good", "a node that may not be good is among the closest ones")
        elif "[T]>::sort" in n:
            self.oblige(I, c.ctx, c.bb, self.by_distance(I, st, c, args), "found:order", "nodes aren't sorted by their distance to the id given")
        elif n in self.recursive:
            vs = I.vals(st, args)
            ok = any(v is p for v in vs for p in self.ids) and any(v is p for v in vs for p in self.addrs)
            self.oblige(I, c.ctx, c.bb, ok, "kept:again", "another node is recorded after a bucket was split")
            st.mon["again"] = "1"
            if n != self.root and I.recording:
                self.known[n] = self.known.get(n, True) and st.mon.get("absent") == "1"
            self.whole(I, st, c.ctx, c.bb)

    def leave(self, I, st, ctx, v):
        """after a split the table is taken to be an arbitrary one"""
        if st.mon.get("_whole") and "vmodel" not in ctx.body.key:
            st.mon.pop("_whole")
            new = field(mk("opq", (0, 0), "split", self.me), "", self.S.buckets)
            has = lambda t: contains(t, lambda x: x is new)
            for f in [f for f in st.facts if has(f)]:
                del st.facts[f]
            st.ineqs = frozenset(q for q in st.ineqs if not any(has(a) for a, _ in q[0]))
            I.write(st, I.deref(self.me)[0], (("f", "", self.S.buckets),), new)

    def whole(self, I, st, ctx, bb):
        self.oblige(I, ctx, bb, st.mon.get("split") in (None, "2"), "split:lost", "a bucket was taken out of the table, and %s of its halves put back" % st.mon.get("split"))

    def step(self, I, st, c, args):
        """one step of an iterator over slots"""
        v = I.val(st, models.rd(I, st, models.innermost(I, st, args[0])))
        if v.op != "agg" or not v.a[0].startswith("vmodel::") or any(x not in v.a[2] for x in "sin"):
            return
        s, i, n = (field(v, "", x) for x in "sin")
        s = I.val(st, models.rd(I, st, s)) if s.op == "ptr" else s
        if self.slot(elem(s, i)) is None:
            return
        self.lens.add(n)
        if is_zero(i):
            self.covers(I, st, c, self.slot(elem(s, i)))
        # facts about the slot looked at before aren't needed any more, and would be taken for facts about this one
        for f in [f for f in st.facts if self.ends(f) or contains(f, lambda x: self.slot(x) is not None)]:
            del st.facts[f]
        if is_zero(i):
            st.mon.pop("full", None)
        for k, t in (("differs", "search"), ("good", "allgood")):
            was = st.mon.pop(k, None)
            if is_zero(i):
                st.mon[t] = "all"
            elif st.mon.get(t) and not was:
                st.mon[t] = "part"
        if s.a[0].id in self.taken and st.mon.get("split") in ("0", "1"):
            self.oblige(I, c.ctx, c.bb, st.mon.pop("node", None) != "have", "split:node", "a node of a bucket that is split isn't put in one of its halves")

    def first_diff(self, t):
        """what t says about the first bit in which the id given and the own one differ"""
        return next((x for x in subterms(t) if x.op == "opq" and x.a[1].endswith("first_diff_bit_idx") and any(contains(x, lambda y: y is p) for p in self.ids) and contains(x, lambda y: y.op == "f" and y.a[2] == self.S.own)), None)

    def covers(self, I, st, c, b):
        """the bucket whose slots are looked at is the one for the id given: the one at the first bit in which the id differs from the own one, or the last"""
        if b.id in self.taken and st.mon.get("split") in ("0", "1") or len(b.a) != 2 or not hasattr(b.a[1], "op"):
            return
        n = length(b.a[0])
        ds = {x for f in st.facts for x in [self.first_diff(f)] if x is not None}
        for k in values(I, b.a[1]):
            d = self.first_diff(k)
            if d is not None:
                i = field(d, "Some", "0")
                ok = k is i or k.op == "call" and k.a[0] == "min" and any(x is i and eq(st, y, bsub(n, C(1), "usize")) for x, y in (k.a[1:3], k.a[2:0:-1]))
            else:
                ok = eq(st, k, bsub(n, C(1), "usize")) and any(st.facts.get(mk("discr", d)) == 0 or le(st, bsub(n, C(1), "usize"), field(d, "Some", "0")) for d in ds)
            if ok:
                self.covered.add(b.id)
            elif ds:
                self.wrong.add(b.id)
            ok = ok or b.id in self.covered - self.wrong
            self.oblige(I, c.ctx, c.bb, ok, "covers", "the bucket where a node is put or looked for may not be the one for its id")
        self.forget(st)

    def forget(self, st):
        for f in [f for f in st.facts if self.first_diff(f) is not None]:
            del st.facts[f]

    def moved(self, I, st, ctx, base, path, value, sp):
        """a node of a bucket that is split gets its place in a half"""
        for v in [value] if value.op == "agg" else values(I, value):
            node = v.a[3][0] if v.op == "agg" and v.a[1] == "Some" else field(v, "Some", "0")
            b = self.slot(node.a[0]) if node.op == "f" and node.a[1] == "Some" else None
            if b is None or b.id not in self.taken:
                continue
            bit = self.bit(st, field(node, "", self.S.id), field(b, "", self.S.depth))
            self.ob(ctx, sp, bit is not None, "split:bit", "a node is put in a half whatever the bit of its id at the depth of the bucket")
            if bit is None:
                continue
            g = self.one if bit else self.zero
            self.ob(ctx, sp, st.env.get(g) is not None and eq(st, path[-1][1], st.env[g]), "split:over", "a node may overwrite another one of its half")
            if st.env.get(g) is not None:
                st.env[g] = badd(st.env[g], C(1), "usize")
            h = self.bases.setdefault((base, path[:-2]), bit)
            self.ob(ctx, sp, h == bit, "split:mixed", "nodes with either bit are put in the same half")
            self.half.setdefault(I.read(st, base, path[:-1]).id, bit)
            st.mon["node"] = "placed"

    def write(self, I, st, ctx, base, path, value, sp):
        S = self.S
        if not path:
            return
        table = base is I.deref(self.me)[0]
        slot = len(path) > 1 and path[-1][0] == "i" and path[-2] == ("f", "", S.slots) and (not table or len(path) > 2)
        if not table:
            if slot:
                self.moved(I, st, ctx, base, path, value, sp)
            return
        ob = lambda *a: self.ob(ctx, sp, *a)
        if slot or path[-1] == ("f", "Some", "0"):
            e = self.alias(st, I.read(st, base, path if slot else path[:-1]))
            v = value
            if slot:
                v = v.a[3][0] if v.op == "agg" and v.a[1] == "Some" else None
            f = dict(zip(v.a[2], v.a[3])) if v is not None and v.op == "agg" else None
            ob(f and any(f[S.id] is p for p in self.ids) and any(f[S.addr] is p for p in self.addrs), "kept:what", "what is put in a slot isn't the node with the id and address given, but %s" % show(value)[-100:])
            ob(f and f[S.seen].op == "agg" and f[S.seen].a[1] == "Some" and now(f[S.seen].a[3][0]), "kept:now", "a node that is recorded doesn't count as seen now")
            ob(self.good(st, e) == 0, "kept:good", "a good node may be overwritten")
            ob(st.mon.get("absent") == "1", "kept:twice", "a node may be recorded although its bucket has one with its id")
            st.mon["stored"] = "1"
            st.mon.pop("absent", None)
        elif len(path) > 2 and path[-2][0] == "f" and path[-2][1] == "Some":
            e = self.alias(st, I.read(st, base, path[:-2]))
            ob(path[-1][2] == S.seen, "kept:field", "the %s of a node in the table is changed" % path[-1][2])
            if path[-1][2] == S.seen:
                ob(self.mine(st, e), "kept:other", "the time of another node than the one given is renewed")
                ob(value.op == "agg" and value.a[1] == "Some" and now(value.a[3][0]), "kept:now", "a node that is recorded doesn't count as seen now")
                st.mon["renewed"] = "1"
        elif not (len(path) == 1 and path[0][2] == S.buckets):
            ob(False, "kept:else", "the table is changed otherwise: %s" % str([x[1:] if x[0] == "f" else "[]" for x in path]))

    def push(self, I, st, c, v):
        S = self.S
        n = st.mon.get("split")
        self.oblige(I, c.ctx, c.bb, n in ("0", "1") and v.op == "agg", "split:push", "a bucket is added that isn't a half of the one taken out")
        if n not in ("0", "1") or v.op != "agg":
            return
        f = dict(zip(v.a[2], v.a[3]))
        old = [t for t in subterms(f[S.depth]) if t.op == "f" and t.a[2] == S.depth and t.a[0].id in self.taken]
        self.oblige(I, c.ctx, c.bb, bool(old) and eq(st, f[S.depth], badd(old[0], C(1), "usize")), "split:depth", "a half isn't one level deeper than the bucket that was split")
        self.oblige(I, c.ctx, c.bb, st.mon.get("node") != "have" and self.over(st), "split:all", "not all nodes of the bucket that is split were looked at")
        own = next((x for t, x in st.facts.items() if t.op == "opq" and len(t.a) > 3 and t.a[1].endswith("get_bit") and t.a[2].op == "f" and t.a[2].a[2] == S.own and old and t.a[3] is old[0]), None)
        h = {self.half[t.id] for y in values(I, f[S.slots]) for t in subterms(y) if t.id in self.half}
        want = None if own is None else own if n == "1" else 1 - own
        self.oblige(I, c.ctx, c.bb, h == {want}, "split:order", "the half on the side of the own id isn't the last bucket (or the other one isn't before it)")
        st.mon["split"] = str(int(n) + 1)
        if n == "1":
            st.mon["_whole"] = "1"
            for f in [f for f in st.facts if self.ends(f) or f.op == "opq" and len(f.a) > 3 and f.a[1].endswith("get_bit") or contains(f, lambda x: self.slot(x) is not None)]:
                del st.facts[f]

    def by_distance(self, I, st, c, args):
        """the closure compares distances to the same id"""
        f = args[-1]
        k = next((k for k in self.r.prog.bodies if hasattr(f, "a") and f.a and (f.a[0] == k or str(f.a[0]).endswith(k))), None)
        if k is None:
            return False
        J = self.r.engine(k, conf=lambda J: setattr(J, "no_inline", arith), tag="order")
        b = self.r.prog.bodies[k]
        ps = [mk("deref", mk("param", k, i)) for i in range(2, b.argc + 1)]
        vs = [v for v, st, e in returns(J)]

        def dist(v):
            """the node whose distance v is, and the id it is measured from"""
            if v.op not in ("call", "opq") or not any(str(x).split("::")[-1].lower() in ("sub", "bitxor") for x in v.a[:2]):
                return None
            xs = [x for x in v.a[1:] if hasattr(x, "op")]
            ns = [i for i, x in enumerate(xs) if x.op == "f" and x.a[2] == self.S.id and x.a[0] in ps]
            if len(xs) != 2 or len(ns) != 1:
                return None
            return xs[ns[0]].a[0], xs[1 - ns[0]]

        for v in vs:
            if len(ps) == 2:
                xs = [x for x in v.a if hasattr(x, "op")] if v.op in ("call", "opq") and any(str(x).split("::")[-1] == "cmp" for x in v.a[:2]) else []
                ds = [dist(x) for x in xs]
            else:
                ds = [dist(v)]
            if len(ds) != len(ps) or any(d is None or d[0] is not p or d[1] is not ds[0][1] for d, p in zip(ds, ps)):
                return False
            # what it captures is the id looked for
            caps = [x.a[2] for x in subterms(ds[0][1]) if x.op == "f" and x.a[0] is mk("deref", mk("param", k, 1))]
            if len(caps) != 1 or not self.given(I, st, field(f, "", caps[0])):
                return False
        return bool(vs)

    def given(self, I, st, v):
        """whether v is, or refers to, an id the operation is given"""
        for _ in range(3):
            v = I.val(st, v)
            if v in self.ids or any(v is mk("deref", p) for p in self.ids):
                return True
            if v.op != "ptr":
                return False
            v = models.rd(I, st, v)
        return False

    def agg(self, I, st, ctx, v, sp):
        if v.op == "agg" and v.a[1] == "Exact" and v.a[3]:
            es = [y.a[0] if y.op == "f" and y.a[1] == "Some" else None for y in values(I, v.a[3][0])]
            self.ob(ctx, sp, all(e is not None and self.slot(e) is not None and self.mine(st, e) for e in es), "found:exact", "the node found may not have the id asked for")


def roots(r, how):
    """operations of the table that other code calls, and recursive ones"""
    for k, b in sorted(r.prog.bodies.items()):
        t = recv(b)
        if b.sp[3] or not t.startswith(how) or t[len(how):].startswith("mut ") or cls(t.split(" ")[-1].lstrip("&")) != "RoutingTable" or "::{closure" in k or "dht_manager" in k:
            continue
        cs = r.graph.callers.get(k, [])
        rec = k in cs
        if rec or any("RoutingTable::" not in x for x in cs):
            yield k, rec


def check(r):
    r.rule("a slot is overwritten only if it is vacant or its node not good; the node recorded is the one given; a bucket is split by the bit of its nodes' ids; look-ups return good nodes by distance, or the one with the id")
    S = Shape(r)
    if not S.ok:
        return
    n, known = 0, {}
    for k, rec in sorted(roots(r, "&mut "), key=lambda x: x[1]):
        n += 1
        T = Table(r, S, k, known)
        I = r.engine(k, conf=T.conf, setup=T.setup, tag="change")
        for f in sorted(I.inlined):
            r.cover("functions", f)
        for v, st, e in returns(I):
            m = st.mon
            r.oblige(m.get("split") in (None, "2"), "split:lost", "a bucket was taken out of the table, and %s of its halves put back" % m.get("split"), k)
            r.oblige(not m.get("found") or m.get("renewed") or m.get("stored"), "kept:renewed", "the time of a node that is in the table isn't renewed when it's recorded again", k)
            r.oblige(any(m.get(x) for x in ("found", "stored", "again", "full")), "kept:dropped", "a node isn't recorded although its bucket may have room", k)
        T.flush("", {"kept:good": "stores nodes", "kept:other": "renews nodes", "split:bit": "splits buckets", "split:order": "splits buckets"} if rec else {"kept:other": "renews nodes"})
    r.oblige(n > 0, "anchor:change", "nothing changes the routing table", "")
    n = 0
    for k, rec in roots(r, "&"):
        b = r.prog.bodies[k]
        t = b.tystr(b.locals[0])
        if not any(cls(b.tystr(b.locals[i + 1]).lstrip("&")) == "ID" for i in range(b.argc)) or "impl " in t:
            continue
        n += 1
        T = Table(r, S, k)
        I = r.engine(k, conf=T.conf, tag="look")
        for f in sorted(I.inlined):
            r.cover("functions", f)
        for v, st, e in returns(I):
            if t == "bool":
                x = I.truth(st, v)
                r.oblige(x is not None and bool(st.mon.get("found" if x else "absent")), "found:contains", "that a node is, or isn't, in the table may be wrong", k)
                continue
            for y in values(I, v):
                if y.op != "agg" or y.a[1] != "Some":
                    continue
                exact = contains(y, lambda z: z.op == "agg" and z.a[1] == "Exact")
                r.oblige(exact or contains(y, lambda z: z.op == "perm" and str(z.a[0]).startswith("sort")), "found:sorted", "the closest nodes aren't sorted", k)
        T.flush("", {})
        r.cover("operations", k)
    r.oblige(n > 0, "anchor:look", "nothing looks nodes up", "")
    # a table that is read
    n = 0
    for k in [k for k, x in r.graph.ext.items() if "bincode::deserialize" in x]:
        I = r.engine(k, conf=lambda I: setattr(I, "no_inline", arith), tag="read")
        for v, st, e in returns(I):
            for y in values(I, v):
                for t in subterms(y):
                    if t.op == "f" and t.a[1] == "Ok" and t.a[0].op == "opq" and t.a[0].a[1].endswith("deserialize"):
                        n += 1
                        m = length(field(t, "", S.buckets))
                        r.oblige(le(st, C(1), m) and le(st, m, C(161)), "read:size", "a table that is read from a file may have no bucket, or more than ids have bits", k)
                        r.oblige(any(x == 0 and f is binop("Lt", y, m, "usize") for f, x in st.facts.items() for y in f.a if hasattr(y, "op")), "read:all", "not all buckets of a table that is read from a file were looked at", k)
        r.cover("operations", k)
    r.oblige(n > 0, "anchor:read", "no table is read from a file", "")
