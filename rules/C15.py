"""Abstract runs of the four storage operations (single- and multi-file, write and read) on an arbitrary torrent.
Ghosts hold the position in the piece up to which bytes were written, the file that was handed out and the range of it
that has to be accessed; every seek, write and read is compared with them, and Ok is returned only in states in which
the whole range was transferred and flushed.  The iterator that cuts a range of the torrent into ranges of files is run
on arbitrary files: each range it yields must be the intersection of the file and the range.  The cache of open files is run on an arbitrary cache: the file that it hands out was opened (and not truncated) for the path that was asked for."""
from common import *
from terms import field, bmul, binop, elem
from arith import entails_le0, neg
from udp import Obs
import models

SINGLE, MULTI = "fs::single_file_rw::SingleFileRw", "fs::multi_file_rw::MultiFileRw"
ITER = "fs::multi_file_iter::FilesInBounds"
BS = 1 << 14
SEEK, WRITE, READ, FLUSH = "tokio::io::AsyncSeekExt::seek", "tokio::io::AsyncWriteExt::write_all", "tokio::io::AsyncReadExt::read_exact", "tokio::io::AsyncWriteExt::flush"
OPS = {SEEK: "seek", WRITE: "write_all", READ: "read_exact", FLUSH: "flush"}

ASSUMPTIONS = ["a finished piece consists of blocks of 16 KiB, of which only the last may be shorter (C17 checks the part that collects blocks)",
               "read_exact, write_all and seek of tokio::fs::File do what their documentation says; nobody else changes the files"]


def G(n):
    return mk("G", n, C(0))


def usize(t):
    t.ty = t.ty or "usize"
    return t


class Storage(Obs):
    def __init__(self, r, kind, op):
        super().__init__(r)
        self.kind, self.op = kind, op
        self.name = "%s:%s:" % ("single" if kind == SINGLE else "multi", op)
        self.key = "<%s as fs::Fs>::%s::{closure#0}" % (kind, op)
        self.events = 0

    def ob(self, I, c, ok, key, msg):
        self.oblige(I, c.ctx, c.bb, ok, self.name + key, msg)

    # -- set up
    def setup(self, I, st, ctx):
        p = mk("param", self.key, 1)
        p = next(iter(x for x in st.env.values() if x.op == "param" and x.a[1] == 1), p)
        self.me = mk("deref", field(p, "", "0"))
        me = self.me
        self.info = field(me, "", "info")
        self.dir = field(me, "", "torrent_name")
        pl = usize(field(self.info, "", "piece_length"))
        if self.op == "write_piece":
            piece = field(p, "", "1")
            self.idx, self.data = usize(field(piece, "", "idx")), field(piece, "", "data")
            self.start = bmul(self.idx, pl, "usize")
            self.stop = badd(self.start, pl, "usize")
        else:
            self.idx, begin, ln = (usize(field(p, "", str(i))) for i in (1, 2, 3))
            self.buf = mk("deref", field(p, "", "4"))
            self.start = badd(bmul(self.idx, pl, "usize"), begin, "usize")
            self.stop = badd(self.start, ln, "usize")
            self.len = ln
        mode = field(self.info, "", "mode")
        if self.kind == SINGLE:
            st.facts[mk("discr", mode)] = 0
            total = usize(field(mode, "Single", "length"))
            self.togo = bsub(total, self.start, "usize")
        self.pl = pl

    def conf(self, I):
        I.no_inline = lambda k: "FilesInBounds" in k or "file_cache" in k
        by_comparison(self.r, I)
        I.on_call, I.on_await, I.on_result = self.call, self.awaited, self.result
        for b in I.prog.bodies.values():
            if b.key.endswith("as std::iter::Iterator>::next") and (b.impl_self or "").startswith(ITER):
                I.call_models[b.key] = self.next
        I.call_models["std::cmp::min"] = I.call_models["std::cmp::Ord::min"] = self.smaller
        for n in (SEEK, FLUSH):
            I.await_models[n] = models.a_result
        I.await_models[WRITE] = self.written
        for n in ("get_write", "get_read"):
            I.await_models["fs::file_cache::FileCache::" + n] = self.opened

    def smaller(self, I, st, c, args):
        """min(a, b): either is it, as a case of its own"""
        a, b = I.vals(st, args[:2])
        t = st.env.get(G("togo"))
        for x in (a, b):
            if t is not None and eq(st, t, x):
                st.env[G("togo")] = x
        s2 = st.copy()
        I.addineq(st, lin_sub(lin(a), lin(b)))
        d = lin_sub(lin(b), lin(a))
        I.addineq(s2, (d[0], d[1] + 1))
        st.mon["min"], s2.mon["min"] = "a", "b"
        return [(st, a), (s2, b)]

    def opened(self, I, st, c, args):
        I.kill(st, c.site)
        s2 = st.copy()
        f = mk("opq", c.site, "file")
        I.havoc(st, c, args[:1])
        I.havoc(s2, c, args[:1])
        return [(st, models.ok(f)), (s2, models.err(mk("opq", c.site, "error")))]

    def next(self, I, st, c, args):
        self.between(I, st, c)
        I.kill(st, c.site)
        s2 = st.copy()
        x = mk("opq", c.site, "item")
        a, b, w = (usize(field(x, "", n)) for n in ("start_within_iter_bounds", "end_within_iter_bounds", "file_bytes_before_iter"))
        I.addineq(s2, lin_sub(lin(a), lin(b)))
        self.begin(I, s2, a, b, w)
        s2.env[G("item")] = x
        st.mon["iter"] = "done"
        s2.mon["iter"] = "item"
        st.mon["phase"] = s2.mon["phase"] = "none"
        st.mon.pop("r", None)
        out = [(st, NONE)]
        # does the range end with a block?
        c1 = bsub(b, C(1), "usize")
        for s, zero in ((s2, True), (s2.copy(), False)):
            s.mon["r"] = "whole" if zero else "part"
            rb, qb, r1, q1 = (usize(mk("bin", o, v, C(BS))) for v in (b, c1) for o in ("Rem", "Div"))
            if zero:
                self.equal(I, s, rb, C(0))
                self.equal(I, s, r1, C(BS - 1))
                self.equal(I, s, qb, badd(q1, C(1), "usize"))
            else:
                d = lin(rb)
                I.addineq(s, (tuple((t, -k) for t, k in d[0]), 1 - d[1]))
                self.equal(I, s, rb, badd(r1, C(1), "usize"))
                self.equal(I, s, qb, q1)
            out.append((s, some(x)))
        return out

    def equal(self, I, st, a, b):
        d = lin_sub(lin(a), lin(b))
        I.addineq(st, d)
        I.addineq(st, (tuple((x, -k) for x, k in d[0]), -d[1]))

    def begin(self, I, st, a, b, w):
        st.env[G("to")], st.env[G("at")], st.env[G("from")] = b, w, a
        st.env[G("e0")], st.env[G("n")], st.env[G("eo")] = binop("Div", a, C(BS), "usize"), C(0), binop("Rem", a, C(BS), "usize")
        st.env.pop(G("nb"), None)
        st.mon.pop("late", None)
        st.mon.pop("part", None)
        self.divmod(I, st, a)
        self.divmod(I, st, b)
        self.divmod(I, st, bsub(b, C(1), "usize"))

    def divmod(self, I, st, a):
        """a = BS * (a / BS) + a % BS"""
        q, m = mk("bin", "Div", a, C(BS)), mk("bin", "Rem", a, C(BS))
        q.ty = m.ty = "usize"
        self.equal(I, st, a, badd(bmul(q, C(BS), "usize"), m, "usize"))
        I.addineq(st, (lin(m)[0], lin(m)[1] - BS + 1))

    # -- between two files, and at the end
    def between(self, I, st, c):
        if st.mon.get("iter") == "item":
            ok, why = self.complete(I, st)
            self.ob(I, c, ok, "whole", "a file is left %s" % why)

    def complete(self, I, st):
        if st.mon.get("failed"):
            return False, "although %s failed" % st.mon["failed"]
        ph = st.mon.get("phase", "none")
        to = st.env.get(G("to"))
        if self.op == "read_block":
            return ph == "read", "before the bytes were read"
        if self.kind == MULTI and eq(st, st.env[G("from")], to) and ph in ("sought", "got"):
            return True, ""
        if ph == "flushed early":
            return False, "before all its bytes in the piece were written"
        return ph == "flushed", "before what was written to it was flushed"

    def block(self, st):
        """the block whose bytes are to be written next"""
        return badd(st.env.get(G("e0"), C(0)), st.env.get(G("n"), C(0)), "usize")

    def all_written(self, I, st):
        to = st.env.get(G("to"))
        eb = self.block(st)
        pos = badd(bmul(eb, C(BS), "usize"), st.env.get(G("eo"), C(0)), "usize")
        if self.kind == MULTI:
            return eq(st, pos, to)
        if self.is_last(I, st) is False:
            return le(st, length(self.data), eb) or eq(st, pos, self.pl)
        t = st.env.get(G("togo"))
        return self.is_last(I, st) is True and t is not None and eq(st, t, C(0))

    def is_last(self, I, st):
        n = length(field(self.info, "", "pieces"))
        if lt(st, badd(self.idx, C(1), "usize"), n):
            return False
        if le(st, n, badd(self.idx, C(1), "usize")):
            return True
        return None

    # -- operations
    def call(self, I, st, c, args):
        n = c.res or c.name
        if c.name == "std::iter::Iterator::next" and G("n") in st.env and self.op == "write_piece":
            i = eb = self.block(st)
            v = I.val(st, args[0])
            for x in subterms(v):
                if x.op == "agg":
                    for y in x.a[3]:
                        if y.op in ("c", "phi", "sum") and eq(st, y, eb):
                            i = y
            st.env[G("nb")] = elem(self.data, i)
        if n.startswith(ITER) and n.endswith("::new"):
            vs = I.vals(st, args)
            self.ob(I, c, vs[0] is field(self.me, "", "file_infos") and eq(st, vs[1], self.start) and eq(st, vs[2], self.stop), "range",
                    "the files are searched for the bytes %s..%s of the torrent" % (show(vs[1])[:80], show(vs[2])[:80]))

    def awaited(self, I, st, c, name, vs):
        n = name.split("::")[-1]
        if "FileCache" in name:
            if self.kind == SINGLE:
                self.begin(I, st, C(0), C(0), self.start)
                if self.op == "write_piece":
                    st.env[G("togo")] = self.togo
                ok = vs[1] is self.dir
            else:
                x = st.env.get(G("item"))
                ok = x is not None and contains(vs[1], lambda t: t is self.dir) and contains(
                    vs[1], lambda t: t.op == "f" and t.a[2] == "path" and t.a[0] is mk("deref", field(x, "", "file")))
            self.ob(I, c, ok, "path", "the file that is opened is %s" % show(vs[1])[:120])
            st.mon["phase"] = "none"
            return
        if name not in OPS:
            return
        self.events += 1
        n = OPS[name]
        self.ob(I, c, vs[0] is mk("deref", st.env.get(G("file"), C(0))) or vs[0] is st.env.get(G("file")), "file", "%s isn't applied to the file that was opened last" % n)
        self.ob(I, c, not st.mon.get("failed"), "failed", "%s follows although %s failed" % (n, st.mon.get("failed")))
        ph = st.mon.get("phase", "none")
        if n == "seek":
            v = vs[1]
            ok = v.op == "agg" and v.a[1] == "Start" and ph == "got" and eq(st, v.a[3][0], st.env[G("at")])
            self.ob(I, c, ok, "seek", "the file is accessed at %s" % show(v)[:120])
        if n == "read_exact":
            self.ob(I, c, ph == "sought" and self.op == "read_block", "read:order", "bytes are read without seeking first")
            base, lo, hi = rng(vs[1])
            if self.kind == SINGLE:
                a, b = C(0), self.len
            else:
                a, b = st.env[G("from")], st.env[G("to")]
            self.ob(I, c, root(I, base) is self.buf and eq(st, lo, a) and eq(st, hi, b), "read:range", "the bytes read go to %s" % show(vs[1])[:120])
        if n == "write_all":
            self.ob(I, c, self.op == "write_piece" and ph in ("sought", "wrote"), "write:order", "bytes are written without seeking first")
            base, lo, hi = rng(vs[1])
            nb = st.env.get(G("nb"))
            if not (nb is not None and same(I, st, base, nb)) and (base.op != "elem" or base.a[0] is not self.data):
                self.ob(I, c, False, "write:data", "what is written isn't a part of a block of the piece: %s" % show(vs[1])[:120])
                return
            eb, eo = self.block(st), st.env[G("eo")]
            b = base.a[1] if base.op == "elem" else eb
            l = usize(length(base))
            d = lin_sub(lin(l), lin(C(BS)))
            I.addineq(st, d)
            if lt(st, badd(b, C(1), "usize"), length(self.data)):
                I.addineq(st, (tuple((x, -k) for x, k in d[0]), -d[1]))
            ok = eq(st, badd(bmul(b, C(BS), "usize"), lo, "usize"), badd(bmul(eb, C(BS), "usize"), eo, "usize"))
            self.ob(I, c, ok, "write:next", "the bytes written are %s, not those that follow the ones before" % show(vs[1])[:120])
            st.env[G("b")], st.env[G("hi")], st.env[G("whole")] = b, hi, C(1 if hi is l else 0)
            if self.kind == SINGLE:
                t = bsub(st.env[G("togo")], bsub(hi, lo, "usize"), "usize")
                st.env[G("togo")] = C(0) if eq(st, t, C(0)) else t
            else:
                self.ob(I, c, le(st, badd(bmul(b, C(BS), "usize"), hi, "usize"), st.env[G("to")]), "write:end", "more bytes are written to the file than it has of the piece: %s" % show(vs[1])[:120])

    def written(self, I, st, c, args):
        """write_all works or fails; whether the bytes end with a block is a case of its own"""
        s2 = st.copy()
        out = [(s2, models.err(mk("opq", c.site, "error")))]
        b, hi, w = (st.env.pop(G(k), None) for k in ("b", "hi", "whole"))
        if b is None:
            return out + [(st, models.ok(models.UNIT))]
        s3 = st.copy()
        n = bsub(b, st.env[G("e0")], "usize")
        st.env[G("n")], st.env[G("eo")] = badd(n, C(1), "usize"), C(0)
        out.append((st, models.ok(models.UNIT)))
        if w is C(0) and not le(s3, C(BS), hi):
            d = lin_sub(lin(hi), lin(C(BS)))
            I.addineq(st, (tuple((x, -k) for x, k in d[0]), -d[1]))
            I.addineq(s3, (d[0], d[1] + 1))
            s3.env[G("n")], s3.env[G("eo")] = n, hi
            s3.mon["part"] = 1
            out.append((s3, models.ok(models.UNIT)))
        return out

    def result(self, I, st, c, name, x):
        if "FileCache" in name:
            if x.a[1] == "Ok":
                st.env[G("file")] = x.a[3][0]
                st.mon["phase"] = "got"
            else:
                st.mon["failed"] = "opening the file"
            return
        n = OPS.get(name)
        if n is None:
            return
        if x.op == "agg" and x.a[1] == "Err":
            st.mon["failed"] = n
            return
        st.mon["phase"] = {"seek": "sought", "read_exact": "read", "write_all": "wrote", "flush": "flushed"}[n]
        if n == "flush" and not self.all_written(I, st):
            st.mon["phase"] = "flushed early"
        if n == "write_all":
            st.mon["late"] = 1


def rng(t):
    if t.op == "slice":
        return t.a[0], t.a[1], t.a[2]
    return t, C(0), length(t)


def root(I, t):
    """what a buffer was before parts of it were overwritten"""
    seen, todo, leaves = set(), [t], set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "upd":
            todo.append(x.a[0])
        elif x.op == "phi" and I.phi_inputs.get(x):
            todo += I.phi_inputs[x]
        else:
            leaves.add(x)
    return leaves.pop() if len(leaves) == 1 else t


# ---------------------------------------------------------------- the files that a range of the torrent is in
def split(greater):
    """max / min of two numbers: either is it, as a case of its own"""
    def model(I, st, c, args):
        a, b = I.vals(st, args[:2])
        s2 = st.copy()
        lo, hi = (b, a) if greater else (a, b)
        I.addineq(st, lin_sub(lin(lo), lin(hi)))
        d = lin_sub(lin(hi), lin(lo))
        I.addineq(s2, (d[0], d[1] + 1))
        k = "cut%d.%d" % (c.site[0], c.site[1]) if isinstance(c.site, tuple) else "cut"
        st.mon[k], s2.mon[k] = "a", "b"
        return [(st, a), (s2, b)]
    return model


def splits(I):
    for n in ("max", "min"):
        for t in ("std::cmp::", "std::cmp::Ord::"):
            I.call_models[t + n] = split(n == "max")


def pathwise(I):
    """keep the states apart that reach a block along different ways (within a turn of a loop)"""
    def on_block(I, st, ctx, bb):
        if ctx.parent is None:
            st.mon["way"] = () if bb in ctx.body.headers else st.mon.get("way", ()) + (bb,)
    I.on_block = on_block


def assume_le(I, st, a, b, strict=False):
    s = st.copy()
    d = lin_sub(lin(a), lin(b))
    I.addineq(s, (d[0], d[1] + (1 if strict else 0)))
    return s


def dead(st):
    """no execution is in this state: what is known of it contradicts itself"""
    return any(entails_le0(st.ineqs, neg(q)) for q in st.ineqs)


def check_next(r):
    """FilesInBounds::next, on an arbitrary iterator: with C where the next file starts, L its length, and S..E the range"""
    key = [b.key for b in r.prog.bodies.values() if b.key.endswith("as std::iter::Iterator>::next") and (b.impl_self or "").startswith(ITER)]
    r.oblige(len(key) == 1, "next:one", "the type that cuts a range into files is no longer %s" % ITER, ITER)
    key = key[0]

    def nexts(I, st, c, args):
        """the files that are left: none, or one and more"""
        s2 = st.copy()
        I.kill(s2, c.site)
        x = mk("opq", c.site, "file")
        st.mon["it"], s2.mon["it"] = "none", "file" if "it" not in st.mon else "more"
        s2.env[G("it")] = x
        return [(st, NONE), (s2, some(x))]

    def conf(I):
        splits(I)
        pathwise(I)
        I.call_models["std::iter::Iterator::next"] = nexts
    me = mk("deref", mk("param", key, 1))
    S, E, Cur = (usize(field(me, "", n)) for n in ("start_byte", "end_byte", "cur_idx"))

    def setup(I, st, ctx):
        I.addineq(st, lin_sub(lin(S), lin(E)))
    I = r.engine(key, conf=conf, setup=setup, tag="next")
    r.no_panic(I, key, skip=lambda loc, kind, o: o["bad"] and "ovf(Add" in o["bad"][0][0])
    n = 0
    bad = {}

    def ob(ok, k, msg):
        bad.setdefault(k, [True, msg])
        bad[k][0] &= bool(ok)
    for v, st, e in returns(I):
        if st.mon.get("it") != "file":
            ob("it" in st.mon and st.mon["it"] != "more", "one", "more than one file is taken from those that are left, or none")
            ob(v.op == "agg" and v.a[1] == "None", "stop", "a file is yielded although there is none left")
            continue
        it = st.env[G("it")]
        L = usize(field(mk("deref", it), "", "length"))
        end = badd(Cur, L, "usize")
        if v.op == "agg" and v.a[1] == "None":
            # (1) a file of which a byte is in S..E, (2) an empty file there
            s = assume_le(I, assume_le(I, st, Cur, E, True), S, end, True)
            ob(dead(s), "none", "a file that has bytes in the range is left out (and with it all that follow)")
            s = assume_le(I, assume_le(I, assume_le(I, st, Cur, E, True), S, end), L, C(0))
            ob(dead(s), "none:empty", "an empty file in the range is left out (and with it all that follow)")
            continue
        ok = v.op == "agg" and v.a[1] == "Some" and v.a[3][0].op == "agg"
        ob(ok, "some", "what is yielded isn't known")
        if not ok:
            continue
        n += 1
        names = [f[0] for f in r.prog.adt(v.a[3][0].a[0])["variants"][0]["fields"]]
        x = dict(zip(names, v.a[3][0].a[3]))
        f = x["file"]
        ob(f is it or (f.op == "ptr" and not f.a[1] and f.a[0] is mk("M", it)), "file", "the file that is yielded isn't the next one: %s" % show(f)[:120])
        for late in (True, False):
            s = assume_le(I, st, S, Cur) if late else assume_le(I, st, Cur, S, True)
            if dead(s):
                continue
            w, b = (C(0), bsub(Cur, S, "usize")) if late else (bsub(S, Cur, "usize"), C(0))
            ob(eq(s, x["file_bytes_before_iter"], w), "offset", "the range doesn't start at %s in the file" % show(x["file_bytes_before_iter"])[-150:])
            ob(eq(s, x["start_within_iter_bounds"], b), "start", "the file doesn't start at %s in the range" % show(x["start_within_iter_bounds"])[-150:])
        for cut in (True, False):
            s = assume_le(I, st, E, end, True) if cut else assume_le(I, st, end, E)
            if dead(s):
                continue
            b = bsub(E if cut else end, S, "usize")
            ob(eq(s, x["end_within_iter_bounds"], b), "end", "the file doesn't end at %s in the range" % show(x["end_within_iter_bounds"])[-150:])
        now = I.get(st, mk("M", mk("param", key, 1)))
        cur = field(now, "", "cur_idx")
        ob(eq(st, cur, end), "advance", "the next file is taken to start at %s" % show(cur)[-150:])
        for nm, o in (("start_byte", S), ("end_byte", E)):
            ob(eq(st, field(now, "", nm), o), "keep", "%s changes" % nm)
    ob(n > 0, "never", "no file is ever yielded")
    for k, (ok, msg) in bad.items():
        r.oblige(ok, "next:" + k, msg, key)
def check(r):
    for kind in (SINGLE, MULTI):
        for op in ("write_piece", "read_block"):
            S = Storage(r, kind, op)
            I = r.engine(S.key, setup=S.setup, conf=S.conf, tag="store")
            n = 0
            for v, st, e in returns(I):
                if v.op == "agg" and v.a[1] == "Err":
                    continue
                n += 1
                if kind == SINGLE:
                    ok, why = S.complete(I, st)
                else:
                    ok, why = st.mon.get("iter") == "done" and not st.mon.get("failed"), "before all files were visited"
                r.oblige(ok, S.name + "return", "%s of %s reports success %s" % (op, kind, why), S.key)
            r.oblige(n > 0, S.name + "none", "%s of %s never succeeds" % (op, kind), S.key)
            S.flush(S.name, {})
    check_next(r)
    check_new(r)


def check_new(r):
    """FilesInBounds::new: the files that it skips have no byte in S..E, and `cur_idx` is the sum of their lengths"""
    key = [b.key for b in r.prog.bodies.values() if b.key.split("::{")[0].endswith("::new") and (b.impl_self or "").startswith(ITER) and not b.coroutine]
    r.oblige(len(key) == 1, "new:one", "nothing builds %s" % ITER, ITER)
    key = key[0]
    files = mk("deref", mk("param", key, 1))
    S, E = usize(mk("param", key, 2)), usize(mk("param", key, 3))
    bad = {}

    def ob(ok, k, msg):
        bad.setdefault(k, [True, msg])
        bad[k][0] &= bool(ok)

    def out(st, cur, L):
        """no byte of the file at cur is in S..E, and it isn't an empty file there"""
        end = badd(cur, L, "usize")
        s = assume_le(I0[0], assume_le(I0[0], st, cur, E, True), S, end, True)
        if not dead(s):
            return False
        return dead(assume_le(I0[0], assume_le(I0[0], assume_le(I0[0], st, cur, E, True), S, end), L, C(0)))
    I0 = [None]

    def setup(I, st, ctx):
        I0[0] = I
        st.env[G("sum")], st.env[G("cnt")] = C(0), C(0)

    def place(I, st, v):
        """number of files that an iterator has handed out"""
        for x in subterms(v):
            if x.op == "agg" and x.a[0].endswith("Peekable"):
                p = x.a[3][1]
                i = place(I, st, x.a[3][0])
                return bsub(i, C(1), "usize") if i is not None and p.op == "agg" and p.a[1] == "Some" and i is not None and not (p.a[3][0].op == "agg" and p.a[3][0].a[1] == "None") else i
            if x.op == "agg" and x.a[0].endswith("SliceIter"):
                b, lo, hi = rng(I.read(st, *I.deref(x.a[3][0])) if x.a[3][0].op == "ptr" else x.a[3][0])
                return badd(lo, x.a[3][1], "usize") if b is files else None
        return None

    def settle(I, st):
        if st.mon.get("open"):
            ob(out(st, st.env[G("pc")], st.env[G("pl")]), "skip", "a file that has bytes in the range is skipped")
            st.mon.pop("open")

    def call(I, st, c, args):
        if not c.name.endswith("Iterator::next") or c.ctx.body.key not in r.prog.bodies:
            return
        v = I.val(st, args[0])
        v = v if v.op == "agg" else I.read(st, *I.deref(args[0]))
        i = place(I, st, v)
        settle(I, st)
        if i is None or not eq(st, i, st.env[G("cnt")]):
            st.mon["lost"] = 1
            return
        L = usize(field(elem(files, i), "", "length"))
        cur = st.env[G("sum")]
        if not out(st, cur, L):
            st.mon["open"] = 1
        st.env[G("pc")], st.env[G("pl")] = cur, L
        st.env[G("sum")], st.env[G("cnt")] = badd(cur, L, "usize"), badd(i, C(1), "usize")

    def conf(I):
        I.on_call = call
        splits(I)
        pathwise(I)
    I = r.engine(key, conf=conf, setup=setup, tag="new")
    names = [f[0] for f in r.prog.adt(ITER)["variants"][0]["fields"]]
    n = 0
    for v, st, e in returns(I):
        n += 1
        ok = v.op == "agg" and v.a[0] == ITER
        ob(ok and not st.mon.get("lost"), "known", "what is built isn't known: %s" % show(v)[:150])
        if not ok or st.mon.get("lost"):
            continue
        x = dict(zip(names, v.a[3]))
        ob(eq(st, x["start_byte"], S) and eq(st, x["end_byte"], E), "range", "the range is %s..%s" % (show(x["start_byte"])[:80], show(x["end_byte"])[:80]))
        i = place(I, st, x["file_iter"])
        ob(i is not None, "iter", "the files that are left are %s" % show(x["file_iter"])[:150])
        if i is None:
            continue
        if le(st, length(files), i):
            settle(I, st)
            continue    # all were skipped
        if eq(st, i, st.env[G("cnt")]):
            settle(I, st)
            at = st.env[G("sum")]
        else:
            ok = eq(st, badd(i, C(1), "usize"), st.env[G("cnt")])
            ob(ok, "left", "files are lost: the next one is number %s" % show(i)[-80:])
            if not ok:
                continue
            at = st.env[G("pc")]
        ob(eq(st, x["cur_idx"], at), "cur", "the next file is taken to start at %s" % show(x["cur_idx"])[-100:])
        L = usize(field(elem(files, i), "", "length"))
        s = assume_le(I, assume_le(I, st, at, E, True), badd(at, L, "usize"), S)
        ok = dead(s) or (dead(assume_le(I, s, C(1), L)) and dead(assume_le(I, s, badd(at, L, "usize"), S, True)))
        ob(ok, "head", "it stops before a file that isn't in the range, which ends the iteration")
    ob(n > 0, "never", "it never returns")
    for k, (ok, msg) in bad.items():
        r.oblige(ok, "new:" + k, msg, key)
