"""Abstract runs of the decoders of a torrent's metainfo."""
import bencode
from bencode import entry_of
from common import *
from terms import bmul

MI = "transcoding::metainfo::"
KEYS = {"Torrent": [b"info", b"announce", b"announce-list"], "Info": [b"name", b"pieces", b"length", b"piece length", b"files"], "File": [b"path", b"length"]}


def key(what):
    return "<%s%s as bendy::decoding::FromBencode>::decode_bencode_object" % (MI, what)


def run(r, what, conf=None):
    """(engine, [(decoded value by field name, state)] of the returns of Ok, the object that was decoded)"""
    B = bencode.Bencode(KEYS[what])

    def confs(I):
        if conf:
            conf(I)
        B.conf(I)
    I = r.engine(key(what), conf=confs, tag="decode")
    r.no_panic(I, key(what))
    out = []
    for v, st, e in returns(I):
        if v.op == "agg" and v.a[1] == "Err":
            continue
        x = v.a[3][0] if v.op == "agg" and v.a[1] == "Ok" else None
        if x is None or x.op != "agg":
            r.oblige(False, "%s:known" % what, "what is decoded isn't known: %s" % show(v)[:120], key(what))
            continue
        out.append((dict(zip(x.a[2], x.a[3])), st))
    r.oblige(bool(out), "%s:never" % what, "%s is never decoded" % what, key(what))
    return I, out, mk("param", key(what), 1)


def values(I, t):
    """the values that a term may stand for: phis are resolved, and fields of them"""
    seen, out = set(), set()

    def go(t):
        if t in seen:
            return
        seen.add(t)
        if t.op == "phi" and I.phi_inputs.get(t):
            for x in I.phi_inputs[t]:
                go(x)
        elif t.op == "f":
            got = set()
            bases = values(I, t.a[0]) if t.a[0].op in ("phi", "f") else {t.a[0]}
            if bases == {t.a[0]}:
                out.add(t)
                return
            for b in bases:
                if b.op == "agg" and t.a[1] and b.a[1] and b.a[1] != t.a[1]:
                    continue    # another variant
                got.add(field(b, t.a[1], t.a[2]))
            for x in got:
                go(x)
        else:
            out.add(t)
    go(t)
    return out


def scaled(j, m):
    return j if m == 1 else bmul(j, C(m), "usize")


def stride(I, t, n, item):
    """a sequence that a loop builds: item(j) for j = 0, n, 2n ...?  Returns the terms `base` for which item(base, j) was appended"""
    base = set()
    for x in values(I, t):
        if x.op == "empty":
            continue
        xs = x.a[3] if x.op == "agg" and x.a[0] == "array" else None
        if xs is not None:
            for i, y in enumerate(xs):
                b = item(y, C(i * n))
                if b is None:
                    return None
                base.add(b)
            continue
        if x.op != "concat" or len(x.a[0]) != 2 or x.a[0][0].op != "phi":
            return None
        p, e = x.a[0]
        if not (e.op == "agg" and e.a[0] == "array" and len(e.a[3]) == 1):
            return None
        js = [(y, m) for y in subterms(e) if y.op == "phi" and y.a[:2] == p.a[:2] for m in sorted({1, n}) if n % m == 0 and item(e.a[3][0], scaled(y, m)) is not None]
        if len(js) != 1:
            return None
        j, m = js[0]
        base.add(item(e.a[3][0], scaled(j, m)))
        # j and the length of what was built advance together
        lens, starts = set(), set()
        ins = set()
        for y in I.phi_inputs.get(p, ()):
            ins |= values(I, y) - {p} if y.op == "phi" and y is not p else {y}
        for y in ins:
            if y.op == "concat" and y.a[0][0] is p:
                continue
            if y.op == "phi":
                continue
            lens.add(0 if y.op == "empty" else len(y.a[3]) if y.op == "agg" and y.a[0] == "array" else None)
        ins = set()
        for y in I.phi_inputs.get(j, ()):
            ins |= values(I, y) - {j} if y.op == "phi" and y is not j else {y}
        for y in ins:
            if is_c(y):
                starts.add(y.a[0])
            elif y is not badd(j, C(n // m)) and y is not badd(j, C(n // m), "usize") and y.op != "phi" and y is not length(item(e.a[3][0], scaled(j, m))):
                return None
        if None in lens or {k * m for k in starts} != {k * n for k in lens}:
            return None
    return base


# ---------------------------------------------------------------- names
def texts(t):
    """the characters a pattern stands for"""
    if is_c(t):
        return {t.a[0]}
    if t.op == "str":
        return {ord(x) for x in t.a[0]} if len(t.a[0]) == 1 else set()
    if t.op == "bytes":
        return set(t.a[0]) if len(t.a[0]) == 1 else set()
    if t.op == "agg" and t.a[0] == "array":
        return {x.a[0] for x in t.a[3] if is_c(x)}
    return set()


def literal(t):
    return t.a[0] if t.op == "str" else bytes(t.a[0]).decode("latin1") if t.op == "bytes" else None


def not_plain(I, st, s):
    """what isn't known about a name: None if it's one plain component of a path"""
    n, some_ = length(s), False
    chars, words = set(), set()
    for f, v in st.facts.items():
        if v == 0 and f.op == "call" and f.a[0] == "contains" and f.a[1] is s:
            for p in f.a[2:]:
                chars |= texts(p)
        if v == 0 and f.op == "eq" and s in f.a:
            o = f.a[1] if f.a[0] is s else f.a[0]
            if literal(o) == "" or o.op == "empty":
                some_ = True
            words.add(literal(o) or ("".join(chr(x.a[0]) for x in o.a[3]) if o.op == "agg" and o.a[0] == "array" and all(is_c(x) for x in o.a[3]) else None))
    if not some_ and not (I.truth(st, mk("eq", C(0), n)) == 0 or I.truth(st, mk("eq", n, C(0))) == 0 or lt(st, C(0), n)):
        return "empty"
    for w in (".", ".."):
        if w not in words:
            return "`%s`" % w
    for ch, nm in ((47, "/"), (0, "\\0")):
        if ch not in chars:
            return "have a `%s` in it" % nm
    return None


class Checked:
    """Follows a loop over a sequence of names: `why(st)` says what isn't known once the loop is over."""

    def __init__(self, names):
        self.names = names          # names(I) -> the sequences that count

    def conf(self, I):
        I.split_bool = True
        self.was_call, self.was_block = I.on_call, I.on_block
        I.on_call, I.on_block = self.call, self.block

    def place(self, I, st, v):
        for x in subterms(v):
            if x.op == "agg" and x.a[0].endswith(("SliceIter", "ValIter", "VecIter", "SliceIterMut")) and len(x.a[3]) >= 2:
                s = x.a[3][0]
                s = I.read(st, *I.deref(s)) if s.op == "ptr" else s
                if all(self.names(I, y) for y in values(I, s)):
                    return s, x.a[3][1]
        return None

    def call(self, I, st, c, args):
        if c.name.endswith("Iterator::next") and args:
            v = args[0] if args[0].op != "ptr" else I.read(st, *I.deref(args[0]))
            if v.op == "agg" and v.a[0].endswith(("SliceIter", "ValIter", "VecIter", "SliceIterMut")):
                p = self.place(I, st, v)
                if p:
                    s, i = p
                    self.settle(I, st, s)
                    if self.over(I, st, s, i):
                        st.mon["name"] = "missed" if st.mon.get("name") == "missed" else "all"
                    else:
                        if st.mon.get("name") != "missed":
                            st.mon["name"] = "open"
                        st.env[mk("G", "name", C(0))] = i
                        st.mon.pop("names", None)
        if self.was_call:
            self.was_call(I, st, c, args)

    def over(self, I, st, s, i):
        return I.truth(st, mk("lt", i, length(s))) == 0 or le(st, length(s), i)

    def settle(self, I, st, s):
        """the turn for the last name is over"""
        if st.mon.get("name") == "open":
            st.mon["name"] = "all" if self.over(I, st, s, st.env[mk("G", "name", C(0))]) else "missed"

    def why(self, I, st, s):
        """what isn't known about all names of s in st"""
        self.settle(I, st, s)
        w = st.mon.get("name")
        if w == "all":
            return None
        i = st.env.get(mk("G", "name", C(0)))
        if w == "plain" and i is not None and le(st, length(s), badd(i, C(1), "usize")):
            return None
        return "some of its names aren't checked" if w else "its names aren't checked"

    def block(self, I, st, ctx, bb):
        n = st.env.get(mk("G", "name", C(0)))
        if st.mon.get("name") == "open" and n is not None:
            for t in {t for f in st.facts if f.op in ("eq", "call") for t in f.a if getattr(t, "op", "") == "elem"}:
                if eq(st, t.a[1], n) and all(self.names(I, y) for y in values(I, t.a[0])) and not_plain(I, st, t) is None:
                    st.mon["name"] = "plain"
                    break
        if self.was_block:
            self.was_block(I, st, ctx, bb)


# ---------------------------------------------------------------- paths
class Paths:
    """What a string that names a file is made of: lists of ("lit", text), ("val", term) and, for loops, ("rep", sequences of
    parts, repeated) or ("any", parts in any order)"""

    def __init__(self, I, numbers=False):
        """numbers: constants that are formatted are numbers, not characters"""
        self.I, self.numbers = I, numbers
        self.memo = {}

    def alts(self, t, seen=frozenset()):
        if t in self.memo:
            return self.memo[t]
        if t in seen:
            return [[("any", frozenset())]]
        r = self.alts_(t, seen | {t})
        if not seen:
            self.memo[t] = r
        return r

    def one(self, ts, seen):
        """alternatives of any of several terms"""
        out = []
        for x in sorted(ts, key=lambda x: x.id):
            for p in self.alts(x, seen):
                if p not in out:
                    out.append(p)
        return out[:64]

    def seq(self, ts, seen):
        out = [[]]
        for x in ts:
            out = [a + b for a in out for b in self.alts(x, seen)][:64]
        return out

    def items(self, s, seen=()):
        """the elements a sequence or set may have"""
        if s in seen:
            return set()
        seen = tuple(seen) + (s,)
        out = set()
        for x in values(self.I, s):
            if x.op in ("empty", "emptymap"):
                continue
            if x.op == "agg" and x.a[0] == "array":
                out |= set(x.a[3])
            elif x.op == "concat":
                for y in x.a[0]:
                    out |= self.items(y, seen)
            elif x.op == "perm":
                out |= self.items(x.a[1], seen)
            elif x.op == "upd" and x.a[1][0] in ("k", "i"):
                out |= {x.a[1][1] if x.a[1][0] == "k" else x.a[2]} | self.items(x.a[0], seen)
            elif x.op in ("slice",):
                out |= self.items(x.a[0], seen) or {mk("elem", x.a[0], C(0))}
            else:
                out.add(mk("elem", x, C(0)))
        return out

    def alts_(self, t, seen):
        I = self.I
        if literal(t) is not None:
            return [[("lit", literal(t))]]
        if t.op == "agg" and t.a[0] == "array" and t.a[3] and all(is_c(x) for x in t.a[3]):
            return [[("lit", bytes(x.a[0] for x in t.a[3]).decode("latin1"))]]
        if t.op == "agg" and t.a[0] == "array" and len(t.a[3]) == 1:
            return self.alts(t.a[3][0], seen)
        if is_c(t):
            return [[("lit", chr(t.a[0]))]]
        if t.op == "empty":
            return [[]]
        if t.op == "concat":
            if any(x.op == "phi" for x in t.a[0][1:]):
                return [[("any", frozenset(p for q in self.seq(t.a[0], seen) for p in q))]]
            return self.seq(t.a[0], seen)
        if t.op == "call" and t.a[0] == "fmt":
            f = t.a[1]
            if f.op == "call" and f.a[0] == "fmt" and len(f.a) == 3 and f.a[1].op == "bytes":
                ps = template(f.a[1].a[0], list(f.a[2].a[3]) if f.a[2].op == "agg" else None)
                return self.seq(ps, seen) if ps is not None else [[("val", t)]]
            if len(t.a) == 2:
                return [[("lit", str(f.a[0]))]] if self.numbers and is_c(f) else self.alts(f, seen)
        if t.op == "agg" and len(t.a[3]) == 1:
            return self.alts(t.a[3][0], seen)
        if t.op == "call" and (t.a[0] in SAME or t.a[0].split(":")[0] in ("into", "from", "as_str", "to_string")) and len(t.a) >= 2:
            if self.numbers and is_c(t.a[-1]):
                return [[("lit", str(t.a[-1].a[0]))]]
            return self.alts(t.a[-1], seen)
        if t.op == "call" and t.a[0] == "join" and t.a[1].op == "agg" and t.a[1].a[0] == "array":
            xs = list(t.a[1].a[3])
            return self.seq([y for i, x in enumerate(xs) for y in ([t.a[2], x] if i else [x])], seen)
        if t.op == "phi" and I.phi_inputs.get(t):
            # what a loop appends to
            ins = [x for x in I.phi_inputs[t] if x is not t]
            more = [x for x in ins if x.op == "concat" and x.a[0][0] is t]
            base = [x for x in ins if x not in more]
            if more and base and not any(contains(x, lambda y: y is t) for x in base):
                add = frozenset(tuple(norm(q)) for x in more for q in self.seq(x.a[0][1:], seen))
                return [q + [("rep", add)] for q in self.one(base, seen)]
            vs = values(I, t)
            return self.one(vs, seen) if vs and vs != {t} else [[("val", t)]]
        if t.op == "f":
            vs = values(I, t)
            return self.one(vs, seen) if vs and vs != {t} else [[("val", t)]]
        if t.op == "elem":
            its = self.items(t.a[0])
            its = {t if x.op == "elem" else x for x in its}
            if its and its != {t}:
                return self.one(its, seen)
        if t.op == "opq" and len(t.a) > 2 and t.a[1] == "anykey":
            its = self.items(t.a[2])
            if its:
                return self.one(its, seen)
        if t.op == "deref" and t.a[0].op == "ptr":
            return self.alts(t.a[0].a[0], seen)
        return [[("val", t)]]


def template(bs, args):
    """the pieces of a compiled format string: literals and arguments"""
    if args is None:
        return None
    out, i, args = [], 0, list(args)
    while i < len(bs):
        b = bs[i]
        i += 1
        if b == 0:
            break
        if b == 192:
            if not args:
                return None
            out.append(args.pop(0))
        elif b < 128:
            out.append(mk("str", bytes(bs[i:i + b]).decode("latin1")))
            i += b
        else:
            return None
    return out if not args else None


def norm(parts):
    """neighbouring literals joined"""
    out = []
    for p in parts:
        if p[0] == "lit" and out and out[-1][0] == "lit":
            out[-1] = ("lit", out[-1][1] + p[1])
        elif p != ("lit", ""):
            out.append(p)
    return out


def show_path(parts):
    return " + ".join(repr(p[1]) if p[0] == "lit" else show(p[1])[-60:] if p[0] == "val" else "(%s)*" % " | ".join(sorted(show_path(q) for q in p[1])) if p[0] == "rep" else "(%s)*" % ", ".join(sorted(show_path([q]) for q in p[1])) for p in parts)


def separate(p):
    """does this part of a path begin with a separator?"""
    return p[0] == "lit" and p[1].startswith("/") or p[0] == "rep" and all(q and separate(q[0]) for q in p[1])


def is_names(I, t):
    """the path of a file of the torrent, or a part of it"""
    while t.op in ("slice",):
        t = t.a[0]
    if t.op == "deref":
        vs = values(I, t.a[0])
        return bool(vs) and all(v.op == "ptr" and v.a[1] and v.a[1][-1][0] == "f" and v.a[1][-1][2] == "path" or v.op == "f" and v.a[2] == "path" for v in vs)
    return t.op == "f" and t.a[2] == "path"


def below(I, p):
    """does this part of a path lead nowhere but down?"""
    if p[0] == "lit":
        return p[1].strip("/") == ""
    if p[0] == "any":
        return all(below(I, q) for q in p[1])
    if p[0] == "rep":
        return all(below(I, x) for q in p[1] for x in q)
    t = p[1]
    if t.op == "elem":
        return is_names(I, t.a[0])
    return t.op == "call" and t.a[0] == "join" and is_names(I, t.a[1]) and literal(t.a[2]) == "/"
