"""Abstract runs of the decoders of a torrent's metainfo on an arbitrary dictionary: next_pair yields any key, and what is made of an
entry is a term that says which entry it comes from.  Where Ok is returned, each field must be what was decoded from its entry, the
info-hash the SHA-1 of the raw bytes of the `info` dictionary, and the facts of the state must say that there are as many pieces as the
content needs."""
from terms import binop
import bencode
import metainfo
from metainfo import entry_of, values
from common import *

ASSUMPTIONS = ["bendy rejects dictionaries with repeated or unsorted keys, and its decoders and into_raw do what their documentation says"]


def torrent(r):
    I, oks, obj = metainfo.run(r, "Torrent")
    info = mk("entry", mk("dict", obj), mk("str", "info"))
    raw = mk("rawbytes", info)
    K = metainfo.key("Torrent")
    for x, st in oks:
        r.oblige(bool(st.mon.get("ended")), "unread", "a torrent is accepted before all of its entries were looked at", K)
        for h in values(I, x["info_hash"]):
            h = unwrap_bytes(h)
            hs = values(I, h)
            r.oblige(hs == {mk("sha1", raw)}, "info_hash", "the info-hash isn't the SHA-1 of the bytes of the info dictionary but %s" % [show(y)[:150] for y in hs][:2], K)
        for y in values(I, x["info"]):
            ok = y.op == "decoded" and y.a[0].a[0].endswith("metainfo::Info") and y.a[1] in (info, mk("parsed", raw))
            r.oblige(ok, "info", "the info that is kept was decoded from %s" % show(y)[:150], K)
        trackers(r, I, x["announce"], obj, K)
        r.oblige(I.truth(st, mk("eq", C(0), length(x["announce"]))) == 0 or lt(st, C(0), length(x["announce"])), "announce:empty",
                 "a torrent without a usable tracker address is accepted", K)
    r.cover("decoded torrents", len(oks))


def trackers(r, I, s, obj, K):
    """every address that is kept was listed, as what it is"""
    for t in values(I, s):
        while t.op == "upd":
            a = t.a[1][1] if t.a[1][0] == "k" else None
            if a is None:
                break
            for y in values(I, a):
                ok = y.op == "agg" and y.a[1] in ("Http", "Udp")
                src = y.a[3][0] if ok else y
                okd = ok and all(contains(z, lambda q: q.op == "entry" and q.a[0] is mk("dict", obj) and q.a[1].a[0] in ("announce", "announce-list"))
                                 for z in base_values(I, src))
                r.oblige(okd, "announce:listed", "a tracker address is kept that isn't one of announce or announce-list: %s" % show(y)[:120], K)
                r.cover("tracker addresses", y.a[1] if ok else "?")
            t = t.a[0]
            if t.op in ("phi", "f"):
                break


def base_values(I, t):
    """values of the sequence that an element is of"""
    while t.op == "elem":
        t = t.a[0]
    out = set()
    for x in values(I, t):
        if x.op == "elem":
            out |= base_values(I, x)
        else:
            out.add(x)
    return out


def schemes(r):
    """TrackerAddr: an address is taken for what its scheme says"""
    seen = set()

    def agg_(I, st, c, name, *rest):
        pass
    ks = [k for k, b in r.prog.bodies.items() if k.startswith("transcoding::metainfo::TrackerAddr::") and b.argc == 1 and not b.coroutine and "{" not in k]
    for k in ks:
        I = r.engine(k, tag="scheme")
        p = mk("param", k, 1)
        for v, st, e in returns(I):
            if not (v.op == "agg" and v.a[1] == "Ok" and v.a[3][0].op == "agg" and v.a[3][0].a[1] in ("Http", "Udp")):
                continue
            w = v.a[3][0]
            seen.add(w.a[1])
            r.oblige(w.a[3][0] is p, "scheme:what", "the address kept isn't the one given but %s" % show(w.a[3][0])[:100], k)
            pre = w.a[1].lower()
            ok = any(val == 1 and f.op == "call" and f.a[0] == "starts_with" and p in subterms(f) and contains(f, lambda t: is_text(t, pre)) for f, val in st.facts.items())
            r.oblige(ok, "scheme:%s" % pre, "an address that doesn't start with %s is taken for a tracker of that kind" % pre, k)
    r.oblige(seen == {"Http", "Udp"}, "scheme:none", "only addresses of the kinds %s are recognised" % sorted(seen), metainfo.MI + "TrackerAddr")


def is_text(t, pre):
    if t.op == "str":
        return t.a[0].startswith(pre)
    if t.op == "bytes":
        return bytes(t.a[0]).startswith(pre.encode())
    if t.op == "agg" and t.a[0] == "array" and t.a[3] and all(is_c(x) for x in t.a[3]):
        return bytes(x.a[0] for x in t.a[3]).startswith(pre.encode())
    return False


def info(r):
    I, oks, obj = metainfo.run(r, "Info")
    K = metainfo.key("Info")
    modes = set()
    for x, st in oks:
        for n, k, t in (("name", "name", "std::string::String"), ("piece_length", "piece length", "u64")):
            for y in values(I, x[n]):
                r.oblige(entry_of(y, obj, k) and y.a[0].a[0] == t, "field:" + n, "%s is %s" % (n, show(y)[:150]), K)
        raw = mk("decoded", mk("str", "bytes"), mk("entry", mk("dict", obj), mk("str", "pieces")))

        def item(y, j):
            """y = the ID made of 20 bytes at j; returns the bytes"""
            y = unwrap_bytes(y)
            if y.op == "agg" and y.a[0] == "array" and len(y.a[3]) == 20 and all(z.op == "elem" for z in y.a[3]):
                s = {z.a[0] for z in y.a[3]}
                return s.pop() if len(s) == 1 and all(z.a[1] is badd(j, C(i), "usize") or z.a[1] is badd(C(i), j) for i, z in enumerate(y.a[3])) else None
            return y.a[0] if y.op == "slice" and y.a[1] is j and lin_sub(lin(y.a[2]), lin(j)) == ((), 20) else None
        p = x["pieces"]
        for y in base_of(I, p):
            b = metainfo.stride(I, y, 20, item)
            got = set()
            for z in b or ():
                got |= values(I, z)
            r.oblige(got == {raw}, "field:pieces", "the hashes of the pieces aren't the 20-byte groups of the string `pieces`: %s" % show(y)[:150], K)
        for m in values(I, x["mode"]):
            ok = m.op == "agg" and m.a[1] in ("Single", "Multi")
            r.oblige(ok, "mode", "the files are described by %s" % show(m)[:100], K)
            if not ok:
                continue
            modes.add(m.a[1])
            for y in values(I, m.a[3][0]):
                r.oblige(entry_of(y, obj, "length" if m.a[1] == "Single" else "files"), "mode:" + m.a[1], "%s is decoded from %s" % (m.a[1], show(y)[:120]), K)
        covers(r, I, x, st, K)
    r.oblige(modes == {"Single", "Multi"}, "modes", "only %s torrents are accepted" % sorted(modes), K)


def base_of(I, p):
    """values of a vector that is taken out of Options"""
    if p.op == "f":
        return values(I, p)
    return {p}


def covers(r, I, x, st, K):
    """pieces.len() == ceil(length / piece_length), all positive"""
    P, n = x["piece_length"], length(x["pieces"])
    m = x["mode"]
    d = st.facts.get(mk("discr", m))
    kind = m.a[1] if m.op == "agg" else {0: "Single", 1: "Multi"}.get(d)
    r.oblige(kind is not None, "cover:mode", "whether the pieces cover the content isn't checked", K)
    if kind is None:
        return
    # terms that the number of pieces equals: a quotient plus a constant
    found = None
    for f, v in st.facts.items():
        if v == 1 and f.op == "eq" and n in f.a:
            o = f.a[1] if f.a[0] is n else f.a[0]
            found = found or o
    ceil = [t for f in st.facts for t in subterms(f) if t.op == "call" and t.a[0] == "div_ceil" and t.a[2] is P]
    ok = any(eq(st, n, t) and total(I, st, t.a[1], m, kind) for t in ceil)
    divs = {t for t in subterms(found or n) if t.op == "bin" and t.a[0] == "Div"} | {
        t for f in st.facts for t in subterms(f) if t.op == "bin" and t.a[0] == "Div"}
    for d in divs:
        if d.a[2] is not P:
            continue
        for k in (0, 1):
            if not eq(st, n, badd(d, C(k), "usize")) and not (found is not None and (found is d if k == 0 else lin_sub(lin(found), lin(d)) == ((), 1))):
                continue
            # d = (L + (1 - k) * P - 1) / P
            num = d.a[1]
            L = badd(num, C(1), "u64")
            if k == 0:
                L = bsub(L, P, "u64")
            ok |= total(I, st, L, m, kind)
    r.oblige(ok, "cover:" + kind, "a %s-file torrent is accepted whose pieces aren't as many as its content needs" % kind.lower(), K)
    r.oblige(lt(st, C(0), P), "cover:positive", "a torrent with pieces of no bytes is accepted", K)
    r.oblige(lt(st, C(0), n) or ok, "cover:some", "a torrent without pieces is accepted", K)
    r.cover("coverage checks", kind)


def total(I, st, L, m, kind):
    """is L the length of the content?"""
    if kind == "Single":
        w = field(m, "Single", "length")
        return L is w or eq(st, L, w)
    files = field(m, "Multi", "files")
    return is_sum(I, st, L, files)


def is_sum(I, st, L, files):
    """L: 0, plus the length of each file, by a loop that ended after the last one"""
    if L.op != "phi":
        return False
    for x in values(I, L):
        if is_c(x) and x.a[0] == 0:
            continue
        if not addend(I, L, x, files):
            return False
    # the loop that ends where nothing is left
    js = [t for f, v in st.facts.items() if v == 0 and f.op == "lt" and f.a[1] is length(files) for t in [f.a[0]]]
    return any(j.op == "phi" for j in js) or any(le(st, length(files), j) for j in [t for q in st.ineqs for t, _ in q[0] if t.op == "phi"])


def addend(I, L, x, files):
    """x = the sum so far + files[j].length, where j counts from 0"""
    if x.op == "f" or x.op == "elem":
        return x is field(elem(files, C(0)), "", "length")
    d = lin(x)
    ts = [t for t, k in d[0] if k == 1]
    if d[1] or len(ts) != len(d[0]) or len(ts) != 2:
        return False
    for a, b in (ts, ts[::-1]):
        if a.op == "phi" and b.op == "f" and b.a[2] == "length" and b.a[0].op == "elem" and b.a[0].a[0] is files:
            j = b.a[0].a[1]
            # the counter and the sum belong to the same loop
            if j.op == "phi" and j.a[:2] == a.a[:2]:
                ins = I.phi_inputs.get(j, ())
                st0 = {y.a[0] for y in ins if is_c(y)}
                if all(is_c(y) or y is badd(j, C(1)) or y is badd(j, C(1), "usize") for y in ins) and st0 <= {0, 1}:
                    sums = {0 if is_c(y) and y.a[0] == 0 else 1 if y is field(elem(files, C(0)), "", "length") else None if y is not x and y.op != "phi" else -1
                            for y in I.phi_inputs.get(a, ())}
                    return None not in sums and {s for s in sums if s >= 0} == st0
    return False


def check(r):
    r.rule("Torrent: info_hash = SHA-1(raw bytes of the info dictionary), info is decoded from the same entry, trackers come from announce and announce-list")
    r.rule("TrackerAddr: Http / Udp only where the address was found to start with http / udp")
    r.rule("Info: each field is decoded from its entry; pieces[i] are the bytes 20*i..20*(i+1); pieces.len() = ceil(content / piece length), which are positive")
    torrent(r)
    schemes(r)
    info(r)
