"""What the functions of bendy that take bencode apart return, as terms that say which entry of which dictionary they come from."""
import models
from common import *

D = "bendy::decoding::"
UNKNOWN = b"\x01another key"


def B(op, *a):
    return mk(op, *a)


class Bencode:
    """conf(I): next_pair of a dictionary yields any of `keys`, or one that isn't among them, or ends, or fails"""

    def __init__(self, keys, once=()):
        """once: keys whose presence keeps states apart (bendy refuses repeated keys)"""
        self.keys, self.once = list(keys), set(once)
        self.at = set()

    def conf(self, I):
        for n, f in ((D + "Object::<'obj, 'ser>::try_into_dictionary", self.dict), (D + "Object::<'obj, 'ser>::dictionary_or_else", self.dict),
                     (D + "DictDecoder::<'obj, 'ser>::next_pair", self.pair), (D + "DictDecoder::<'obj, 'ser>::into_raw", self.raw),
                     (D + "Decoder::<'ser>::new", self.decoder), (D + "Decoder::<'ser>::next_object", self.object),
                     (D + "FromBencode::decode_bencode_object", self.decode), (D + "FromBencode::from_bencode", self.from_bytes)):
            I.call_models[n] = f
        I.maxsig = 2000
        self.then = I.on_block
        I.on_block = self.block

    def block(self, I, st, ctx, bb):
        """the entry that is being looked at keeps states apart until the next one is asked for"""
        if (ctx.id, bb) in self.at:
            st.mon.pop("entry", None)
        if self.then:
            self.then(I, st, ctx, bb)

    def fails(self, st, c, I):
        s = st.copy()
        I.kill(s, c.site)
        return (s, models.err(mk("opq", c.site, "bencode error")))

    def dict(self, I, st, c, args):
        e = self.fails(st, c, I)
        return [(st, models.ok(B("dict", I.val(st, args[0])))), e]

    def pair(self, I, st, c, args):
        d = I.val(st, args[0])
        d = d if d.op == "dict" else I.read(st, *I.deref(args[0])) if args[0].op == "ptr" else d
        out = [self.fails(st, c, I)]
        self.at.add((c.ctx.id, c.bb))
        for k in self.keys + [UNKNOWN]:
            s = st.copy()
            s.mon["entry"] = k.decode()
            s.mon.pop("ended", None)
            if k in self.once:
                if s.mon.get("seen " + k.decode()):
                    continue
                s.mon["seen " + k.decode()] = "1"
            r = mk("key", mk("str", k.decode()))
            I.regions[r] = array([C(x) for x in k])
            v = B("entry", d, mk("str", k.decode()))
            out.append((s, models.ok(some(models.tup(mk("ptr", I.M(r), (), False), v)))))
        st.mon["ended"] = "1"
        out.append((st, models.ok(NONE)))
        return out

    def ref(self, I, st, name, v):
        r = mk(name, v)
        I.regions[r] = v
        return mk("ptr", I.M(r), (), False)

    def raw(self, I, st, c, args):
        e = self.fails(st, c, I)
        return [(st, models.ok(self.ref(I, st, "rawref", B("rawbytes", *I.val(st, args[0]).a)))), e]

    def decoder(self, I, st, c, args):
        return B("decoder", I.val(st, args[0]))

    def object(self, I, st, c, args):
        d = I.val(st, args[0])
        d = d if d.op == "decoder" else I.read(st, *I.deref(args[0])) if args[0].op == "ptr" else d
        e, s2 = self.fails(st, c, I), st.copy()
        return [(st, models.ok(some(B("parsed", d.a[0] if d.op == "decoder" else d)))), (s2, models.ok(NONE)), e]

    def decode(self, I, st, c, args):
        t = c.tname(0) or "?"
        v = I.val(st, args[0])
        e = self.fails(st, c, I)
        if "AsString" in t:
            x = agg("bendy::encoding::AsString", "AsString", ["0"], [B("decoded", mk("str", "bytes"), v)])
        else:
            x = B("decoded", mk("str", t), v)
            if t in INTS:
                x.ty = t
        return [(st, models.ok(x)), e]

    def from_bytes(self, I, st, c, args):
        e = self.fails(st, c, I)
        return [(st, models.ok(B("decoded", mk("str", c.tname(0) or "?"), B("parsed", I.val(st, args[0]))))), e]


def leaves(I, t, skip=("upd",)):
    """the values a term may stand for: the inputs of phis"""
    seen, todo, out = set(), [t], set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "phi" and I.phi_inputs.get(x):
            todo += I.phi_inputs[x]
        else:
            out.add(x)
    return out


def entry_of(t, obj, key):
    """is `t` what a decoder made of the entry `key` of the dictionary `obj`?"""
    return t.op == "decoded" and t.a[1] is B("entry", B("dict", obj), mk("str", key))
