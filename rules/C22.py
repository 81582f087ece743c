"""Abstract runs of the functions that hand out a file of the cache, on an arbitrary cache of at most 16 files: the number of
entries is followed through every insertion and removal.  What is inserted must be the file that was opened, under the path it was
opened with, and opened to be read, written and created but not truncated; the file handed out is the one under the path asked for."""
from common import *
import models
from interp import *

CACHE = "fs::file_cache::FileCache"
LIMIT = 16
OO = "tokio::fs::OpenOptions"
ASSUMPTIONS = ["what a std HashMap and tokio's OpenOptions do is what their documentation says"]
INS = ("VacantEntry::<'a, K, V, A>::insert", "HashMap::<K, V, S, A>::insert")


def G(n):
    return mk("G", n, C(0))


def of_map(I, st, c, args):
    """max_by_key and the like over a map: an entry of it, or None when it is empty"""
    v = args[0]
    if c.name == "std::iter::Iterator::next":       # only the first call of next is known to find an entry if there is one
        p = models.innermost(I, st, v)
        v = I.read(st, *I.deref(p)) if p.op == "ptr" else p
        k = "next:%s" % (p.a[0].id if p.op == "ptr" else 0)
        if st.mon.get(k) or p.op != "ptr":
            return NotImplemented
        st.mon[k] = 1
    if not (v.op == "agg" and v.a[0] == models.ANY and v.a[3][1].a[0] in ("iter", "iter_mut", "keys", "values", "values_mut")):
        return NotImplemented
    s1 = st.copy()
    m = models.rd(I, st, v.a[3][0])
    n = length(m)
    n.ty = n.ty or "usize"
    I.addineq(st, lin(n))           # nothing: no entry
    k = mk("opq", c.site, "anykey", m)
    I.assume(s1, models.map_has(I, s1, m, k), 1)
    I.regions[mk("kref", k)] = k
    pk, pv = mk("ptr", I.M(mk("kref", k)), (), False), models.ptr_to(v.a[3][0], (("k", k),), I)
    kind = v.a[3][1].a[0]
    return [(s1, some(models.tup(pk, pv) if kind.startswith("iter") else pk if kind == "keys" else pv)), (st, NONE)]


def branches(body, bb):
    """is the block entered from a branch?"""
    if not hasattr(body, "branched"):
        body.branched = {t for x in body.succ if len(set(x)) > 1 for t in x}
    return bb in body.branched


def check(r):
    fs = [k for k, b in r.prog.bodies.items() if b.coroutine and k in [CACHE + "::%s::{closure#0}" % w for w in ("get_read", "get_write")]]
    r.oblige(len(fs) == 2, "two", "get_read and get_write of %s are gone" % CACHE, CACHE)
    for key in fs:
        one(r, key)


def one(r, key):
    name = key.split("::")[-2]
    bad = {}

    def ob(ok, k, msg):
        bad.setdefault(k, [True, msg])
        bad[k][0] &= bool(ok)

    p = mk("param", key, 1)
    path = mk("deref", field(p, "", "1"))
    data = field(mk("deref", field(p, "", "0")), "", "data")
    n0 = length(data)
    n0.ty = "usize"

    def setup(I, st, ctx):
        I.addineq(st, lin_sub(lin(n0), lin(C(LIMIT))))
        st.env[G("n")] = n0

    def is_path(v):
        return v is path or (v.op == "call" and v.a[-1] is path) or unwrap_bytes(v) is path

    def the_map(I, st, a):
        v = I.val(st, a)
        for t in subterms(v):
            if t is data or t.op == "phi" and data in leaves(I, t):
                return True
        return False

    def call(I, st, c, args):
        if c.ctx.body.key not in r.prog.bodies:
            return
        n = c.res or c.name
        if n.startswith(OO + "::") and n.split("::")[-1] != "open":
            o = n.split("::")[-1]
            if o == "new":
                for k in [k for k in st.mon if k.startswith("opt.")]:
                    st.mon.pop(k)
            else:
                v = I.val(st, args[1]) if len(args) > 1 else C(1)
                st.mon["opt." + o] = v.a[0] if v.op == "c" else "?"
        elif n.startswith(OO) or n.startswith("tokio::fs::File::"):
            o = {k[4:]: v for k, v in st.mon.items() if k.startswith("opt.")} if n.startswith(OO) else {}
            ob(n.startswith(OO) and all(o.get(k) == 1 for k in ("read", "write", "create")), "options", "a file is opened with %s only" % (sorted(k for k in o if o[k] == 1) or n))
            ob(all(v == 0 for k, v in o.items() if k not in ("read", "write", "create", "mode", "custom_flags")), "truncate",
               "a file is opened with %s" % sorted(k for k in o if k not in ("read", "write", "create")))
            v = I.val(st, args[-1])
            ob(is_path(v), "open", "the file that is opened is %s" % show(v)[:120])
            r.cover("opened at", "%s:%s" % I.loc(c.ctx, c.bb)[:2])

    def opened(I, st, c, args):
        I.kill(st, c.site)
        s2 = st.copy()
        return [(st, models.ok(mk("opq", c.site, "opened"))), (s2, models.err(mk("opq", c.site, "error")))]

    def added(I, st, k, v):
        ob(is_path(k), "key", "a file is kept under %s" % show(k)[:120])
        f = [t for t in subterms(v) if t.op == "opq" and t.a[1] == "opened"] if v is not None else []
        ob(len(f) == 1, "kept", "what is kept isn't the file that was opened: %s" % (show(v)[:120] if v is not None else "?"))
        n = st.env[G("n")]
        ob(lt(st, n, C(LIMIT)), "limit", "a file is added although %d may be open" % LIMIT)
        r.cover("files added at", name)
        st.env[G("n")] = badd(n, C(1), "usize")

    def removed(I, st, c, p_, k):
        st.env[G("n")] = bsub(st.env[G("n")], C(1), "usize")
        r.cover("files removed at", "%s:%s" % I.loc(c.ctx, c.bb)[:2])

    def vacant(I, st, c, args):
        v = I.val(st, args[0])
        e = [t for t in subterms(v) if t.op == "agg" and t.a[0] == "VacEntry"]
        added(I, st, e[0].a[3][1] if e else v, I.val(st, args[1]))
        return NotImplemented

    def insert(I, st, c, args):
        k = I.val(st, args[1])
        m = models.rd(I, st, models.innermost(I, st, args[0]))
        if I.truth(st, models.map_has(I, st, m, models.mkey(I, st, args[1]))) != 1:
            added(I, st, k, I.val(st, args[2]))
        return NotImplemented

    def block(I, st, ctx, bb):
        """keep the states apart that took different branches of the functions here"""
        if ctx.body.key in r.prog.bodies and branches(ctx.body, bb):
            w = st.mon.get("way", ())
            if (ctx.id, bb) not in w:
                st.mon["way"] = tuple(sorted(w + ((ctx.id, bb),)))

    def conf(I):
        I.on_block = block
        I.on_call, I.on_remove = call, removed
        I.await_models[OO + "::open"] = opened
        for n in ("next", "max_by_key", "min_by_key", "max_by", "min_by"):
            I.call_models["std::iter::Iterator::" + n] = of_map
        I.call_models["std::collections::hash_map::" + INS[0]] = vacant
        I.call_models["std::collections::" + INS[1]] = insert
        I.call_models["std::collections::HashMap::<K, V, S, A>::clear"] = lambda I, st, c, args: (st.env.__setitem__(G("n"), C(0)), NotImplemented)[1]

    I = r.engine(key, setup=setup, conf=conf, tag="cache")
    k = 0
    for v, st, e in returns(I):
        n = st.env[G("n")]
        ob(le(st, n, C(LIMIT)), "bound", "more than %d files are open afterwards" % LIMIT)
        if v.op == "agg" and v.a[1] == "Ok":
            k += 1
            x = v.a[3][0]
            ks = [el[1] for el in x.a[1] if el[0] == "k"] if x.op == "ptr" else [t for t in subterms(x) if t.op == "opq" and t.a[1] == "opened"]
            ob(len(ks) == 1 and (is_path(ks[0]) or ks[0].op == "opq"), "handed", "the file handed out is %s" % show(x)[:160])
    ob(k > 0, "never", "no file is ever handed out")
    for k, (ok, msg) in bad.items():
        r.oblige(ok, name + ":" + k, msg, key)


def leaves(I, t):
    seen, todo, out = set(), [t], set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "upd":
            todo.append(x.a[0])
        elif x.op == "phi":
            todo += I.phi_inputs.get(x, ())
        else:
            out.add(x)
    return out

