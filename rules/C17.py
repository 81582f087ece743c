"""Abstract run of each peer's downloader from its spawn, and of the functions that other tasks use to start pieces or give blocks back.
At every write of a block into a piece the place, the size and the previous content are compared with the message and the sizes of the torrent;
a ghost balances blocks stored against the counter of the piece; where a piece leaves the table, the counter must equal the number of its blocks."""
import anchors
import C24
import metainfo
import models
from metainfo import values
from common import *
from udp import Obs

ASSUMPTIONS = ["the counter of a piece and its blocks are changed under one lock, taken once (checked by running the code as one step per lock)"]
BLOCK = 16384
LIMIT = 10
PP = "peers::connection::pending_pieces::PendingPieces"


def kinds(r):
    """types by role: an enum with a variant that holds the bytes of a block; the struct with a Vec of it; the struct with a map of that"""
    block = [n for n, a in r.prog.adts.items() if a["kind"] == "enum" and a.get("local", True) and {v["name"] for v in a["variants"]} >= {"Downloaded", "Pending"}]
    r.oblige(len(block) == 1, "type:block", "%d types describe the state of a block" % len(block), "")
    if len(block) != 1:
        return None
    piece = [(n, a) for n, a in r.prog.adts.items() if a["kind"] == "struct" and any(f[1] == "std::vec::Vec<%s>" % block[0].split("#")[0] for f in a["variants"][0]["fields"])]
    r.oblige(len(piece) == 1, "type:piece", "%d types hold the blocks of a piece" % len(piece), "")
    if len(piece) != 1:
        return None
    n, a = piece[0]
    fs = a["variants"][0]["fields"]
    data = next(f[0] for f in fs if f[1].startswith("std::vec::Vec<"))
    count = [f[0] for f in fs if f[1] in INTS]
    r.oblige(len(count) == 1, "type:count", "a piece doesn't count its blocks", n)
    if len(count) != 1:
        return None
    return block[0].split("#")[0], n.split("#")[0], data, count[0]


class Pieces(Obs):
    def __init__(self, r, me, K, message):
        super().__init__(r)
        self.me, self.message = me, message
        self.block, self.piece, self.data, self.count = K
        self.L, self.n = field(me, "", "piece_length"), field(me, "", "blocks_per_piece")
        self.G = mk("G", "count", C(0))

    def conf(self, I):
        self.I = I
        I.before_write, I.on_remove, I.on_agg, I.on_call, I.before_await = self.write, self.removed, self.built, self.call, self.waits
        I.on_await, I.on_enter = self.sent, self.enter
        I.maxsig = 500
        I.split_bool = True

        def sizes(st):
            """outcomes of comparisons of sizes keep states apart"""
            return tuple(sorted((f.id, v) for f, v in st.facts.items() if self.about_size(f)))
        I.sigextra = sizes

    def about_size(self, f):
        return f.op in ("lt", "eq", "le") and contains(f, lambda x: x is self.L or x is self.n) and not contains(f, lambda x: x.op == "phi")

    def setup(self, I, st, ctx):
        B = C(BLOCK)
        # blocks_per_piece = ceil(piece_length / BLOCK), see `new`
        for a, b, k in ((self.L, mk_mul(self.n), 0), (mk_mul(self.n), self.L, 1 - BLOCK)):
            ls, c = lin_sub(lin(a), lin(b))
            I.addineq(st, (ls, c + k))

    def ob(self, ctx, ok, key, msg):
        self.oblige(self.I, ctx, self.at, ok, key, msg)

    at = 0

    def place(self, path):
        """(piece, block) or (piece, None) for the counter"""
        for i, p in enumerate(path):
            if p[0] == "k" and i + 1 < len(path) and path[i + 1][0] == "f":
                if path[i + 1][2] == self.data and len(path) == i + 3 and path[i + 2][0] == "i":
                    return p[1], path[i + 2][1], path[:i + 1]
                if path[i + 1][2] == self.count and len(path) == i + 2:
                    return p[1], None, path[:i + 1]
        return None

    def write(self, I, st, ctx, base, path, v, sp):
        w = self.place(path)
        if w is None:
            if I.recording and path and path[-1][0] == "f" and path[-1][2] in ("piece_length", "blocks_per_piece") and field(I.read(st, base, path[:-1]), "", path[-1][2]) in (self.L, self.n):
                self.r.oblige(False, "sizes", "the sizes of pieces change", "%s:%s in %s" % (sp[0], sp[1], ctx.body.key))
            return
        k, i, up = w
        where = "%s:%s" % (sp[0], sp[1])

        def ob(ok, key, msg):
            if I.recording:
                o = self.obs.setdefault(key, [0, 0, "", ""])
                o[0] += 1
                o[1] += bool(ok)
                if not ok and not o[2]:
                    o[2], o[3] = msg, "%s in %s" % (where, ctx.body.key)
        old = I.read(st, base, path)
        bal = int(st.mon.get("balance", "0"))
        if i is None:
            ob(lin_sub(lin(v), lin(old)) == ((), 1), "count:step", "the number of blocks a piece has changes from %s to %s" % (show(old)[-60:], show(v)[-60:]))
            bal -= 1
            st.env[self.G] = v
        else:
            if v.op == "agg" and v.a[0] == self.block and v.a[1] == "Downloaded":
                bal += 1
                b = v.a[3][0]
                if self.message:
                    self.stored(I, st, ob, k, i, b)
                I.recording and self.r.cover("blocks stored", where)
            else:
                ob(v.op == "agg" and v.a[0] == self.block, "state:known", "a block becomes %s" % show(v)[:80])
                I.recording and self.r.cover("blocks asked for or given back", where)
            ob(self.fresh(I, st, old), "state:kept", "a block that was received already may be replaced by %s" % (v.a[1] if v.op == "agg" else show(v)[:60]))
        bal = max(-1, min(1, bal))
        if bal:
            st.mon["balance"] = str(bal)
        else:
            st.mon.pop("balance", None)

    def fresh(self, I, st, old):
        """not received yet"""
        if old.op == "agg":
            return old.a[1] in ("Unbegun", "Pending")
        d = st.facts.get(mk("discr", old))
        ds = {v["name"]: int(v["discr"]) for v in self.r.prog.adt(self.block)["variants"]}
        if d is not None:
            return d != ds["Downloaded"]
        return ds["Downloaded"] in st.ne.get(mk("discr", old), ())

    def stored(self, I, st, ob, k, i, b):
        ms = {x.a[0] for x in subterms(b) if x.op == "f" and x.a[-1] == "block"}
        m = ms.pop() if len(ms) == 1 else None
        ok = m is not None and contains(m, lambda x: x.op == "opq" and "received" in str(x.a))
        ob(ok, "place:message", "what is stored isn't a received block but %s" % show(b)[:100])
        if not ok:
            return
        ob(k is field(m, "", "index"), "place:piece", "a block is stored in piece %s" % show(k)[:80])
        at = field(m, "", "begin")
        whole = i.op == "bin" and i.a[0] == "Div" and i.a[1] is at and i.a[2] is C(BLOCK) and any(
            f.op in ("eq", "lt") and contains(f, lambda x: x.op == "bin" and x.a[0] == "Rem" and x.a[1] is at and x.a[2] is C(BLOCK)) and self.rem0(st, f, v) for f, v in st.facts.items())
        ob(whole or lin_sub(lin(mk_mul(i)), lin(at)) == ((), 0), "place:block", "a block that begins at `begin` is stored as number %s" % show(i)[:80])
        n, end = length(unwrap_bytes(b)), mk_mul(badd(i, C(1), "usize"))
        n2 = length(b)
        rest = bsub(self.L, mk_mul(i))
        least = {x for f, v in st.facts.items() if f.op == "eq" and v == 1 and (n in f.a or n2 in f.a) for x in f.a if x.op == "call" and x.a[0] == "min"}
        good = any(C(BLOCK) in x.a and any(lin_sub(lin(y), lin(rest)) == ((), 0) for y in x.a[1:]) for x in least) or any(eq(st, x, C(BLOCK)) and le(st, end, self.L) or eq(st, x, rest) and le(st, self.L, end) for x in (n, n2))
        ob(good, "size", "a block is stored although its size may not be that of its place")

    def rem0(self, st, f, v):
        """does the fact say that the remainder is 0?"""
        rem = next(x for x in subterms(f) if x.op == "bin" and x.a[0] == "Rem")
        return le(st, rem, C(0)) or f.op == "eq" and v == 1 and C(0) in f.a

    def removed(self, I, st, c, p, k):
        base, path = I.deref(p)
        if not self.ofpieces(c):
            return
        cnt = st.env.get(self.G)
        st.mon["gone"] = "1"
        ok = cnt is not None and not st.mon.get("balance") and (
            any(f.op == "eq" and v == 1 and cnt in f.a and any(self.total(x, k) for x in f.a if x is not cnt) for f, v in st.facts.items()) or eq(st, cnt, self.n))
        self.oblige(I, c.ctx, c.bb, ok, "complete", "a piece leaves the table of pieces in progress although some of its blocks may be missing")

    def total(self, x, k):
        return x is self.n or x.op == "len" and contains(x, lambda y: y.op == "f" and y.a[-1] == self.data)

    def ofpieces(self, c):
        return any(self.piece == (c.tname(i) or "") for i in range(4))

    def built(self, I, st, ctx, v, sp):
        if not I.recording or v.op != "agg":
            return
        where = "%s:%s in %s" % (sp[0], sp[1], ctx.body.key)
        if v.a[0] == self.piece:
            x = dict(zip(v.a[2], v.a[3]))
            d = x[self.data]
            n = d.a[1] if d.op == "repeat" else None
            ok = x[self.count] is C(0) and n is not None and d.a[0].op == "agg" and d.a[0].a[1] == "Unbegun"
            self.r.oblige(ok, "piece:new", "a new piece is %s" % show(v)[:120], where)
            self.r.oblige(n is not None and self.ceil(n), "piece:blocks", "a new piece has %s blocks" % (show(n)[:100] if n is not None else "?"), where)
        elif v.a[0].endswith("::FinishedPiece"):
            x = dict(zip(v.a[2], v.a[3]))
            ok = st.mon.get("gone") and self.blocks(I, st, x["data"], x["idx"])
            self.r.oblige(bool(ok), "finished", "the data of a finished piece isn't all of its blocks in order", where)

    def ceil(self, n):
        """1 + (L - 1) / BLOCK, or (L + BLOCK - 1) / BLOCK"""
        ls, k = lin(n)
        if n is self.n:
            return True
        if len(ls) != 1 or ls[0][1] != 1:
            return False
        t = ls[0][0]
        if t.op == "call" and t.a[0] == "div_ceil":
            return k == 0 and t.a[1] is self.L and t.a[2] is C(BLOCK)
        if t.op == "bin" and t.a[0] == "Div" and t.a[2] is C(BLOCK):
            return lin_sub(lin(t.a[1]), lin(self.L)) == ((), BLOCK - 1 - BLOCK * k)
        return False

    def blocks(self, I, st, t, idx):
        """t = [S[0].bytes, .., S[n-1].bytes] of the blocks S of the piece idx"""
        S = metainfo.stride(I, t, 1, lambda y, j: y.a[0].a[0] if y.op == "f" and y.a[1] == "Downloaded" and y.a[0].op == "elem" and y.a[0].a[1] is j else None)
        return bool(S) and len(S) == 1 and all(contains(s, lambda x: x.op == "mapget" and x.a[1] is idx) and C24.finished(I, st, values(I, t), t, s, 1) for s in S)

    def call(self, I, st, c, args):
        last = c.name.split("::")[-1]
        if last == "insert" and self.ofpieces(c):
            vs = I.vals(st, args)
            m, k, v = vs if len(vs) == 3 else (None, None, None)
            if m is None:
                return
            p = models.innermost(I, st, args[0])
            m = models.rd(I, st, p)
            self.oblige(I, c.ctx, c.bb, I.truth(st, models.map_has(I, st, m, k)) == 0, "start:again", "a piece that is in progress may be started again, without its blocks")
            self.oblige(I, c.ctx, c.bb, lt(st, length(m), C(LIMIT)), "start:limit", "more than %d pieces may be in progress" % LIMIT)
            st.mon.pop("gone", None)
        if last == "replace" and "mem" in c.name and args[0].op == "ptr":
            base, path = I.deref(args[0])
            if self.place(path):
                self.write(I, st, c.ctx, base, path, I.val(st, args[1]), c.term["sp"])
        elif last in ("swap", "take") and "mem" in c.name or last in ("get_or_insert", "clear", "retain", "drain") and self.ofpieces(c):
            for a in args:
                if a.op == "ptr" and self.place(I.deref(a)[1]):
                    self.oblige(I, c.ctx, c.bb, False, "state:followed", "a block is replaced by %s" % c.name)

    def waits(self, I, st, c, name):
        self.settled(I, st, c.ctx, c.bb)
        st.env.pop(self.G, None)
        for f in [f for f in st.facts if self.about_size(f)]:
            del st.facts[f]

    def enter(self, I, st, ctx, body):
        if body.key in self.starters:
            st.mon.pop("gone", None)

    starters = ()

    def settled(self, I, st, ctx, bb):
        self.oblige(I, ctx, bb, not st.mon.get("balance"), "count:balance", "the number of blocks that a piece is said to have isn't that of the blocks stored")

    def sent(self, I, st, c, name, vs):
        """a piece that left the table was reported or is started again (unless the table is full)"""
        if st.mon.get("gone"):
            ok = any(x.op == "agg" and x.a[1] == "FinishedPiece" for v in vs for x in subterms(v))
            self.oblige(I, c.ctx, c.bb, ok, "lost", "a piece whose blocks have all been received is neither reported nor started again")
            st.mon.pop("gone")


def mk_mul(n):
    from terms import binop
    return binop("Mul", n, C(BLOCK), "usize")


def check(r):
    r.rule("a received block is stored in the piece `index` at `begin` / 16384, begin being a multiple, only if its size is min(16384, what is left of the piece there) and the place is empty")
    K = kinds(r)
    if not K:
        return
    dl = anchors.downloader(r)
    if not dl:
        return
    b = r.prog.bodies[dl]

    def takes(k, ty):
        b = r.prog.bodies[k]
        return any(ty in b.tystr(b.locals[i]) for i in range(2, b.argc + 1))

    def of_table(k):
        b = r.prog.bodies.get(k)
        return b is not None and b.argc >= 1 and not b.coroutine and "{" not in k and b.tystr(b.locals[1]).replace("mut ", "").lstrip("&").split(" ")[-1] == PP
    inner = {k for k in r.prog.bodies if of_table(k) and any(of_table(x.split("::{")[0]) for x in r.graph.callers.get(k, ()))}
    bytes_ = {k for k in r.prog.bodies if of_table(k) and (r.prog.bodies[k].tystr(r.prog.bodies[k].locals[1]).startswith("&mut") or any(takes(k, t) for t in ("Vec<u8>", "[u8]")))}
    ups = [b.tystr(t) for t in b.ty(b.locals[1])["args"]]
    r.oblige(PP in ups, "downloader:table", "the downloader doesn't own a table of pieces in progress", dl)
    if PP not in ups:
        return
    O = Pieces(r, field(mk("param", dl, 1), "", str(ups.index(PP))), K, True)

    O.starters = {k for k in r.prog.bodies if of_table(k) and any(e.startswith("std::collections::") and e.split("::")[-1] in ("insert", "or_insert", "or_insert_with", "entry") for e in r.graph.reach_ext(k))}

    def conf(I):
        O.conf(I)
        I.no_inline = lambda k: of_table(k) and k not in bytes_ and k not in inner
    I = r.engine(dl, conf=conf, setup=O.setup, tag="blocks")
    for f in sorted(I.inlined):
        r.cover("functions", f)
    O.flush("", {"place:piece": "stores blocks", "place:block": "stores blocks", "size": "checks the sizes of blocks", "complete": "takes finished pieces out of the table", "count:step": "counts blocks"})
    started = 0
    for k in sorted(k for k in r.prog.bodies if of_table(k) and k not in inner):
        if k in I.inlined and not r.graph.callers.get(k, set()) - I.inlined - {dl}:
            continue
        O = Pieces(r, mk("deref", mk("param", k, 1)), K, False)
        J = r.engine(k, conf=O.conf, setup=O.setup, tag="blocks")
        for v, st, e in returns(J):
            O.I = J
            r.oblige(not st.mon.get("balance"), "count:balance", "the number of blocks that a piece is said to have isn't that of the blocks stored", k)
        r.cover("functions", k)
        O.flush("", {})
    new(r)


def new(r):
    """blocks_per_piece is what the sizes of blocks ask for"""
    k = PP + "::new"
    n = 0
    for key, b in sorted(r.prog.bodies.items()):
        if key != k and not any(s.get("rv", {}).get("r") == "agg" and s["rv"].get("k") == "adt" and s["rv"]["def"].split("#")[0] == PP for blk in b.blocks for s in blk["st"] if s.get("rv")) or b.sp[3]:
            continue
        I = r.engine(key, tag="sizes")
        for v, st, e in returns(I):
            ok = v.op == "agg" and v.a[0].split("#")[0] == PP
            x = dict(zip(v.a[2], v.a[3])) if ok else {}
            O = Pieces.__new__(Pieces)
            O.L, O.n = x.get("piece_length"), None
            r.oblige(ok and O.L is not None and O.L.op == "param" and O.ceil(x["blocks_per_piece"]), "blocks", "a piece has %s blocks" % (show(x["blocks_per_piece"])[:100] if x else "?"), key)
            n += 1
    r.oblige(n > 0, "blocks:none", "nothing makes a table of pieces", PP)
