"""Abstract run of the task that owns the torrent's state from its spawn, with every message of a peer unknown.  Every index into
per-piece tables and bitmaps, every slice, unwrap and explicit panic it can reach is an obligation.
Values in the map of peers are covered by an inductive lemma: every bitmap the task builds has one bit per piece
(checked at each construction) and no operation on bitmaps changes their size (checked for each operation on an arbitrary bitmap)."""
import manager
import terms
from common import *
from terms import binop
from udp import Obs

BM = "data_structures::bitmap::Bitmap"


def check(r):
    t = manager.task(r)
    if not t:
        return
    adt = r.prog.adt(BM)
    if not adt or len(adt["variants"][0]["fields"]) != 2:
        r.violate("anchor:bitmap", "the bitmap isn't a list of bytes and a length any more", BM)
        return
    fields = dict((ty, n) for n, ty in adt["variants"][0]["fields"])
    vec, num = [next((n for ty, n in fields.items() if p in ty), None) for p in ("Vec<u8>", "usize")]
    if not r.oblige(bool(vec and num), "anchor:bitmap:fields", "the bitmap isn't a list of bytes and a length any more", BM):
        return
    holders = {n for k, a in r.prog.adts.items() for v in a["variants"] for n, ty in v["fields"] if ty == BM}
    r.rule("index < length at every indexing; slices in range; unwraps and explicit panics unreachable (root: spawn of the torrent manager)")
    r.rule("every bitmap built in the task has one bit per piece of the torrent; operations keep the size of the bitmap")
    obs = Obs(r)
    N = []

    def per_piece(n):
        return badd(binop("Div", bsub(n, C(1), "usize"), C(8), "usize"), C(1), "usize")

    def canon(what, x):
        """sizes of bitmaps inside values that aren't tracked"""
        if not N or x.op != "f":
            return None
        b = x.a[0]
        if what == "len" and x.a[2] == vec and b.op == "f" and b.a[2] in holders:
            return per_piece(N[0])
        if what == "f" and x.a[2] == num and b.op == "f" and b.a[2] in holders:
            return N[0]
        return None

    def built(I, st, ctx, v, sp):
        if v.op != "agg" or v.a[0] != BM:
            return
        n, d = field(v, "", num), field(v, "", vec)
        if not N:
            N.append(n)
        ok = same(I, st, n, N[0]) and same(I, st, length(d), per_piece(N[0]))
        obs.oblige(I, ctx, 0, ok, "bitmap:size", "a bitmap with %s bits in %s bytes is built, the others have %s" % (show(n)[:60], show(length(d))[:60], show(N[0])[:60]))

    op = manager.opaque(r)

    def conf(I):
        manager.Manager(r).conf(I)
        I.on_call = I.on_await = I.on_result = None
        I.no_inline = lambda k: op(k) and not k.startswith(BM.rsplit("::", 1)[0]) and "bitmap::" not in k.split(" as ")[0]
        I.on_agg = built

    terms.CANON = canon
    try:
        I = r.engine(t, conf=conf, tag="bounds")
    finally:
        terms.CANON = None
    r.no_panic(I, t, skip=lambda loc, kind, o: kind.startswith("overflow"))
    obs.flush("bitmap:", {"bitmap:size": "builds bitmaps"})

    for key, b in sorted(r.prog.bodies.items()):
        if b.argc < 1 or b.ty(b.locals[1])["s"] != "&mut " + BM:
            continue
        I = r.engine(key, tag="size")
        r.cover("operations on bitmaps", key)
        done = False
        for v, st, e in returns(I):
            done = True
            p = mk("param", key, 1)
            old, new = I.initial(I.M(p)), I.read(st, I.M(p), ())
            for n, f, what in ((vec, length, "bytes"), (num, lambda x: x, "length")):
                x, y = f(field(old, "", n)), f(field(new, "", n))
                r.oblige(same(I, st, x, y), "bitmap:keeps:%s" % key.split("::")[-1], "an operation changes the number of %s of a bitmap" % what, key)
        r.oblige(done, "bitmap:return:%s" % key.split("::")[-1], "an operation on bitmaps never returns", key)
