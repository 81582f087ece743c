"""Path-sensitive abstract interpreter over callee-resolved MIR with virtual inlining.

A node is (calling context, basic block, partition).  States hold symbolic values, branch facts
and linear inequalities; they are joined per partition (the known variants of live enum/bool
locals), so `match`/`?` correlations survive joins.  Nothing is executed and no path is handed to
a solver: it is a fixpoint over a join semilattice.
"""
import copy
import heapq
import time
from terms import *
from arith import *
from program import *
from models import is_future_ty, map_get, map_has

MAXSIG = 64


class Budget(Exception):
    pass


class State:
    __slots__ = ("env", "facts", "ne", "ineqs", "mon", "own")

    def __init__(self):
        self.env = {}
        self.facts = {}
        self.ne = {}
        self.ineqs = frozenset()
        self.mon = {}

    def copy(self):
        s = State.__new__(State)
        s.env = dict(self.env)
        s.facts = dict(self.facts)
        s.ne = dict(self.ne)
        s.ineqs = self.ineqs
        s.mon = dict(self.mon)
        return s


    def same(self, o):
        return self.env == o.env and self.facts == o.facts and self.ineqs == o.ineqs and self.ne == o.ne and self.mon == o.mon


class Ctx:
    __slots__ = ("id", "parent", "bb", "body", "dest", "ret", "wrap", "prefix", "depth", "key", "chain", "call", "pre", "thr")


class Call:
    """an abstract call as seen by models and rules"""
    __slots__ = ("name", "res", "args", "term", "ctx", "bb", "site", "targs", "body", "dty", "noise", "f", "atys")

    def tname(self, i):
        return self.body.tystr(self.targs[i]) if i < len(self.targs) else None

    def dtname(self):
        return self.body.tystr(self.dty) if self.dty is not None else None


class Event:
    __slots__ = ("kind", "name", "args", "st", "ctx", "bb", "loc", "node", "idx", "data", "fnkey", "result")

    def __repr__(self):
        return "<%s %s %s @%s>" % (self.kind, self.name, [show(a) for a in self.args or ()], self.loc)


class Interp:
    def __init__(self, prog, models=None, max_steps=400000, max_time=600, verbose=False):
        self.prog = prog
        self.modelprog = models
        self.progs = [prog] + ([models] if models else [])
        self.ctxs = []
        self.ctxmap = {}
        self.states = {}
        self.max_steps = max_steps
        self.deadline = time.time() + max_time
        self.verbose = verbose
        self.recording = False
        self.events = []
        self.node_events = {}
        self.node_succ = {}
        self.oblig = {}
        self.unknown = {}
        self.inlined = set()
        self.watch = None          # fn(call name)->bool : snapshot states
        self.before_write = None  # hook(I, st, ctx, base, path, value, span): a place other than a whole local is assigned
        self.watch_write = None    # fn(interp, st, ctx, base, path, value, stmt)->None
        self.monitors = []         # objects with on_call/on_block
        self.no_inline = None      # fn(key)->bool
        self.call_models = {}      # resolved name of a function -> model of its call that a rule supplies
        self.await_models = {}     # name of an async function -> model of its completion
        self.on_agg = None         # hook(I, st, ctx, value, span): a struct or enum value is built
        self.on_call = None        # hook(I, st, call) -> None
        self.assume_entry = None
        self.sigextra = None
        self.maxsig = MAXSIG
        self.promcache = {}
        self.regions = {}
        self.max_depth = 60
        self.dropped_types = None
        self.interesting_locals = {}
        from models import MODELS, RUST_MODELS
        self.phi_inputs = {}
        self.called = {}
        self.pymodels = MODELS
        self.rustmodels = RUST_MODELS
        self.spawned = []
        self.spec = {}
        self.poll_pending_ok = False
        self.loopvar_hint = {}

    # ------------------------------------------------------------------ contexts
    def mkctx(self, parent, bb, body, dest=None, ret=None, wrap=None, call=None):
        key = (parent.id if parent else -1, bb, body.key, body.prog.name)
        c = self.ctxmap.get(key)
        if c is None:
            c = Ctx()
            c.id = len(self.ctxs)
            c.parent = parent
            c.bb = bb
            c.body = body.prep()
            c.prefix = (parent.prefix + (parent.body.rpo[bb] * 2 + 1,)) if parent else ()
            c.depth = parent.depth + 1 if parent else 0
            c.key = key
            c.chain = (parent.chain + (body.key,)) if parent else (body.key,)
            c.thr = {}
            for v in body.consts:
                self.thresh(c, v)
            self.ctxs.append(c)
            self.ctxmap[key] = c
            if body.prog is self.prog:
                self.inlined.add(body.key)
        c.dest, c.ret, c.wrap, c.call = dest, ret, wrap, call
        return c

    def thresh(self, ctx, v):
        """a constant the code compares with: a candidate loop bound in the enclosing frames"""
        if not -(1 << 62) < v < (1 << 62):
            return
        q, dist = ctx, 0
        while q is not None and dist < 8:
            if q.thr.get(v, 99) <= dist:
                return
            q.thr[v] = dist
            q = q.parent
            dist += 1

    def body_of(self, key):
        for p in self.progs:
            b = p.bodies.get(key)
            if b is not None:
                return b
        return None

    def loc(self, ctx, bb, sp=None):
        """innermost location inside the analysed crate"""
        c, b = ctx, bb
        first = sp
        while c is not None and c.body.prog is not self.prog:
            b = c.bb
            c = c.parent
            first = None
        if c is None:
            return ("?", 0, "?")
        s = first or c.body.blocks[b]["term"]["sp"]
        return (s[0], s[1], c.body.key)

    # ------------------------------------------------------------------ run
    def run(self, key, args=None, setup=None):
        body = self.body_of(key)
        if body is None:
            raise KeyError(key)
        ctx = self.mkctx(None, -1, body)
        st = State()
        for i in range(1, body.argc + 1):
            t = (args or {}).get(i)
            if t is None:
                t = mk("param", key, i)
                self.note(t, body.ty(body.locals[i]))
            st.env[self.L(ctx, i)] = t
        self.root = ctx
        if setup:
            setup(self, st, ctx)
        self.work = []
        self.inwork = set()
        self.keyed = set()
        self.phi_inputs = {}
        self.called = {}
        self.steps = 0
        self.tick = 0
        self.contrib = {}
        self.execd = {}
        self.cur = None
        self.outs = {}
        self.retracted = {}
        self.newouts = set()
        self.enter(ctx, 0, st)
        while self.work:
            _, _, node, sig = heapq.heappop(self.work)
            self.inwork.discard((node, sig))
            ctxid, bb = node
            s = self.states[node].get(sig)
            if s is None:
                continue
            self.steps += 1
            self.cur = (node, sig)
            if self.steps > self.max_steps or (self.steps % 64 == 0 and time.time() > self.deadline):
                raise Budget("budget exceeded analysing %s after %d steps" % (key, self.steps))
            self.newouts = set()
            src = (node, sig)
            self.exec_from(self.ctxs[ctxid], bb, s.copy(), src)
            old, self.outs[src] = self.outs.get(src, ()), self.newouts
            for t in old:
                if t in self.newouts:
                    cs = self.contrib[t]
                    stale = [k for k, c in cs.items() if k[0] == src and c[0] != self.steps]
                    if stale:
                        self.retract(src, t, stale)
                else:
                    self.retract(src, t)
        # recording pass over the stable states
        self.recording = True
        for node in sorted(self.states, key=lambda n: self.ctxs[n[0]].prefix + (self.ctxs[n[0]].body.rpo[n[1]] * 2,)):
            for sig, s in list(self.states[node].items()):
                self.cur = (node, sig)
                self.node_events[self.cur] = []
                self.node_succ[self.cur] = []
                self.exec_from(self.ctxs[node[0]], node[1], s.copy(), self.cur)
        self.recording = False
        return self

    def enter(self, ctx, bb, st):
        """join st into node (ctx,bb)"""
        node = (ctx.id, bb)
        if self.on_block and not self.recording:
            self.on_block(self, st, ctx, bb)
        sig = self.sig(ctx, bb, st)
        d = self.states.setdefault(node, {})
        if sig not in d and len(d) >= self.maxsig:
            sig = ("TOP",)
        if self.recording:
            if sig not in d:
                sig = ("TOP",)
            self.node_succ[self.cur].append((node, sig))
            return
        old = d.get(sig)
        self.trim(ctx, bb, st)
        if bb in ctx.body.headers or self.cur is None:
            # loop heads accumulate: this is what makes the iteration terminate
            if old is None:
                d[sig] = st.copy()
                self.push(ctx, bb, node, sig)
            elif self.join(node, sig, old, st):
                self.push(ctx, bb, node, sig)
            return
        # elsewhere the state is the join of the latest contribution of every source
        self.newouts.add((node, sig))
        cs = self.contrib.setdefault((node, sig), {})
        src, n = self.cur, 0
        while (src, n) in cs and cs[(src, n)][0] == self.steps:
            n += 1
        cs[(src, n)] = (self.steps, st)
        if len(cs) == 1:
            new = st
        else:
            it = iter(cs.values())
            new = next(it)[1].copy()
            for _, o in it:
                self.join(node, sig, new, o)
        if old is None or not new.same(old):
            d[sig] = new.copy() if new is st else new
            self.push(ctx, bb, node, sig)

    def retract(self, src, t, stale=None):
        """src no longer contributes to t: its earlier contribution was made from a state that is superseded"""
        cs = self.contrib.get(t)
        if cs is None:
            return
        if stale is None:
            stale = [k for k in cs if k[0] == src]
        n = self.retracted.get(t, 0)
        if not stale or n > 12:
            return
        self.retracted[t] = n + 1
        for k in stale:
            del cs[k]
        node, sig = t
        if not cs:
            del self.contrib[t]
            self.states[node].pop(sig, None)
            for t2 in self.outs.pop(t, ()):
                self.retract(t, t2)
            return
        it = iter(cs.values())
        new = next(it)[1].copy()
        for _, o in it:
            self.join(node, sig, new, o)
        if not new.same(self.states[node][sig]):
            self.states[node][sig] = new
            self.push(self.ctxs[node[0]], node[1], node, sig)

    def push(self, ctx, bb, node, sig):
        if (node, sig) in self.inwork:
            return
        self.inwork.add((node, sig))
        self.tick += 1
        heapq.heappush(self.work, (ctx.prefix + (ctx.body.rpo[bb] * 2,), self.tick, node, sig))

    def trim(self, ctx, bb, st):
        """forget the locals that can no longer be read"""
        d = ctx.body.deadin[bb]
        cid = ctx.id
        dead = [b for b in st.env if b.op == "L" and b.a[0] == cid and b.a[1] in d]
        for b in dead:
            del st.env[b]

    # ------------------------------------------------------------------ partitions
    def sig(self, ctx, bb, st):
        out = []
        c, b, live = ctx, bb, None
        first = True
        while c is not None:
            if first:
                live = c.body.livein[b]
            else:
                # caller frame: what is live when the callee returns
                t = c.body.blocks[b]["term"]
                live = c.body.livein[t["to"]] if "to" in t else ()
            for l in sorted(live):
                v = st.env.get(self.L(c, l))
                if v is None:
                    continue
                ty = c.body.ty(c.body.locals[l])
                k = ty["k"]
                if k == "bool":
                    s = v.a[0] if v.op == "c" else None
                    if s is None:
                        tr = st.facts.get(v)
                        s = tr
                elif k in ("adt", "tuple", "coroutine", "closure", "alias", "param", "dyn", "other"):
                    s = self.shape(v, 3, st)
                elif v in self.keyed:
                    # the selector of a many-way switch, while it is live
                    s = st.facts.get(v)
                else:
                    continue
                if s is not None:
                    out.append((c.id, l, s))
            first = False
            b = c.bb
            c = c.parent
        if self.sigextra:
            out.append(self.sigextra(st))      # may also update st.mon
        if st.mon:
            out.append(tuple(sorted((k, v) for k, v in st.mon.items() if not k.startswith("_"))))
        return tuple(out)

    def shape(self, v, d, st):
        if v.op == "agg":
            kind, var, names, vals = v.a
            if kind.startswith("{}"):
                return kind
            if d <= 0 or kind == "array":
                return var or None
            if var:
                sub = tuple(self.shape(x, d - 1, st) for x in vals)
                return (var,) + sub if any(x is not None for x in sub) else var
            if len(vals) > 6:
                return None
            sub = tuple(self.shape(x, d - 1, st) for x in vals)
            return sub if any(x is not None for x in sub) else None
        if v.op in ("c", "unit", "str", "bytes", "len", "sum", "ptr"):
            return None
        f = st.facts.get(mk("discr", v)) if ("discr", ("T", v.id)) in _tab_ref else None
        if f is not None:
            return "d%d" % f
        return None

    # ------------------------------------------------------------------ join
    def join(self, node, sig, A, B):
        """A := A join B.  Returns True when A changed."""
        changed = False
        phis = {}

        def mkphi(path, a, b):
            p = mk("phi", node[0], node[1], hash_sig(sig), path)
            if p.ty is None:
                p.ty = a.ty if a.op != "c" else b.ty
                if p.ty is None and (a.op == "c" or b.op == "c"):
                    p.ty = b.ty or a.ty
                if p.ty is None and path and getattr(path[0], "op", "") == "G" and all(x.op == "c" and type(x.a[0]) is int and x.a[0] >= 0 for x in (a, b)):
                    p.ty = "usize"      # a counter that a rule added
            phis[p] = (a, b)
            pi = self.phi_inputs.setdefault(p, [])
            for x in (a, b):
                if x is not p and x not in pi and len(pi) < 12:
                    pi.append(x)
            return p

        def jt(path, a, b, d=0):
            if a is b:
                return a
            if a.op == "agg" and b.op == "agg" and a.a[0] == b.a[0] and a.a[1] == b.a[1] and a.a[2] == b.a[2] and d < 8:
                vals = [jt(path + (n,), x, y, d + 1) for n, x, y in zip(a.a[2], a.a[3], b.a[3])]
                return agg(a.a[0], a.a[1], a.a[2], vals)
            if a.op == "ptr" and b.op == "ptr" and a.a[0] is b.a[0] and a.a[1] == b.a[1]:
                return mk("ptr", a.a[0], a.a[1], a.a[2] or b.a[2])
            if a.op == "ptr" and b.op == "ptr" and a.a[0] is b.a[0] and abs(len(a.a[1]) - len(b.a[1])) == 1:
                # a whole buffer and a part of it: the whole is the part from 0 to its length
                if len(a.a[1]) < len(b.a[1]) and b.a[1][-1][0] == "s" and b.a[1][:-1] == a.a[1]:
                    a = mk("ptr", a.a[0], a.a[1] + (("s", C(0), length(self.read(A, a.a[0], a.a[1]))),), a.a[2])
                elif len(b.a[1]) < len(a.a[1]) and a.a[1][-1][0] == "s" and a.a[1][:-1] == b.a[1]:
                    b = mk("ptr", b.a[0], b.a[1] + (("s", C(0), length(self.read(B, b.a[0], b.a[1]))),), b.a[2])
            if a.op == "ptr" and b.op == "ptr" and a.a[0] is b.a[0] and len(a.a[1]) == len(b.a[1]) and all(
                    x[0] == y[0] and (x[0] in ("i", "s", "k") or x == y) for x, y in zip(a.a[1], b.a[1])):
                pa = tuple(x if x == y else (x[0],) + tuple(jt(path + ("#%d.%d" % (i, j),), u, w, d + 1) for j, (u, w) in enumerate(zip(x[1:], y[1:])))
                           for i, (x, y) in enumerate(zip(a.a[1], b.a[1])))
                return mk("ptr", a.a[0], pa, a.a[2] or b.a[2])
            if d < 8 and (a.op == "upd" or b.op == "upd"):
                ra, ka = upd_root(a)
                rb, kb = upd_root(b)
                if ra is rb and all(k[0] == "f" for k in ka) and all(k[0] == "f" for k in kb):
                    r = ra
                    for k in sorted(set(ka) | set(kb), key=str):
                        x = ka.get(k) or field(ra, k[1], k[2])
                        y = kb.get(k) or field(rb, k[1], k[2])
                        r = upd(r, k, jt(path + (k[2],), x, y, d + 1))
                    return r
            if d < 8 and a.op in ("concat", "agg", "empty", "str", "bytes") and b.op in ("concat", "agg", "empty", "str", "bytes"):
                # sequences with a common beginning: only the rest differs
                pa, pb = seq_parts(a), seq_parts(b)
                if pa is not None and pb is not None:
                    n = 0
                    while n < len(pa) and n < len(pb) and pa[n] is pb[n] and not (
                            pa[n].op == "concatphi"):
                        n += 1
                    mine = [i for i, x in enumerate(pa) if x.op == "phi" and x.a[0] == node[0] and x.a[1] == node[1] and x.a[3] == path + ("#tail",)]
                    if mine:
                        n = min(n, mine[0])
                    if n:
                        ph = mkphi(path + ("#tail",), seq_join(pa[n:]), seq_join(pb[n:]))
                        return seq_join(pa[:n] + [ph])
            if a.op in INTOPS and b.op in INTOPS and (a.op != "c" or b.op != "c") and (arith(a) and arith(b)) and not has_my(a) and not has_my(b):
                # one of the two describes both
                d = lin_sub(lin(a), lin(b))
                e = lin_scale(d, -1)
                if entails_le0(B.ineqs, d) and entails_le0(B.ineqs, e):
                    return a
                if entails_le0(A.ineqs, d) and entails_le0(A.ineqs, e):
                    return b
            return mkphi(path, a, b)

        arith = lambda t: t.op == "c" or self.arith_like(t)

        def has_my(t):
            return (node[0], node[1], hash_sig(sig)) in phi_ids(t)

        env = {}
        for base, a in A.env.items():
            b = B.env.get(base)
            if b is None:
                if base.op == "M":
                    b = self.initial(base)
                elif base.op == "G":
                    b = C(0)
                else:
                    changed = True
                    continue
            r = jt((base,), a, b)
            if r is not a:
                changed = True
            env[base] = r
        for base, b in B.env.items():
            if base not in A.env and base.op == "M":
                a = self.initial(base)
                if a is b:
                    continue
                env[base] = jt((base,), a, b)
                changed = True
            elif base not in A.env and base.op == "G" and b is not C(0):
                env[base] = jt((base,), C(0), b)
                changed = True
        # ---- facts
        sub_b = {p: ab[1] for p, ab in phis.items()}
        sub_a = {p: ab[0] for p, ab in phis.items()}
        fresh = {p for p, ab in phis.items() if ab[0] is not p}
        myphi = lambda t: t.op == "phi" and t.a[0] == node[0] and t.a[1] == node[1] and t.a[2] == hash_sig(sig)

        nf = {}
        for t, v in A.facts.items():
            if B.facts.get(t) == v and not has_my(t):
                nf[t] = v
            else:
                t2 = subst(t, sub_b) if has_my(t) else t
                if self.truth(B, t2) == v:
                    nf[t] = v
        # facts of A/B about the values that were merged into fresh phis
        if fresh:
            ra = {}
            rb = {}
            for p in fresh:
                a, b = phis[p]
                if a.op != "c" and a.op not in ("unit",):
                    ra.setdefault(a, p)
                if b.op != "c" and b.op not in ("unit",):
                    rb.setdefault(b, p)
            for t, v in A.facts.items():
                if any(x in ra for x in subterms_small(t)):
                    t2 = subst(t, ra)
                    if t2 is not t and t2 not in nf:
                        tb = subst(t2, sub_b)
                        if self.truth(B, tb) == v:
                            nf[t2] = v
            for t, v in B.facts.items():
                if any(x in rb for x in subterms_small(t)):
                    t2 = subst(t, rb)
                    if t2 is not t and t2 not in nf:
                        ta = subst(t2, sub_a)
                        if self.truth(A, ta) == v:
                            nf[t2] = v
            for p in fresh:
                # maps that agree about a key that was inserted or removed
                for x in phis[p]:
                    while x.op == "upd" and x.a[1][0] == "k":
                        k = x.a[1][1]
                        x = x.a[0]
                        if has_my(k):
                            continue
                        v = self.truth(A, rebuild_has(phis[p][0], k))
                        if v is not None and v == self.truth(B, rebuild_has(phis[p][1], k)):
                            nf[rebuild_has(p, k)] = v
            # a value that a rule remembers and the one in the program that it was merged alongside
            for p in fresh:
                if p.a[3] and getattr(p.a[3][0], "op", "") == "G" and p.ty not in BITS:
                    for q in fresh:
                        if q is not p and phis[q][0] is phis[p][0] and phis[q][1] is phis[p][1]:
                            nf[mk("eq", p, q) if p.id < q.id else mk("eq", q, p)] = 1
        if nf != A.facts:
            changed = True
        nn = {}
        for t, s in A.ne.items():
            t2 = subst(t, sub_b) if has_my(t) else t
            o = B.ne.get(t2)
            keep = set()
            for x in s:
                if o and x in o:
                    keep.add(x)
                elif t2 in B.facts and B.facts[t2] != x:
                    keep.add(x)
                elif t2.op == "c" and t2.a[0] != x:
                    keep.add(x)
                elif t2.op == "discr" and t2.a[0].op == "agg":
                    dv = self.discr_val(t2.a[0])
                    if dv is not None and dv != x:
                        keep.add(x)
            if keep:
                nn[t] = frozenset(keep)
        for t, v in A.facts.items():
            # known to be one value here and another one there: it's none of the remaining ones
            if t.op != "discr" or t in nf or t in nn or not isinstance(v, int):
                continue
            t2 = subst(t, sub_b) if has_my(t) else t
            w = B.facts.get(t2)
            if w is None and t2.op == "c":
                w = t2.a[0]
            if w is None and t2.op == "discr" and t2.a[0].op == "agg":
                w = self.discr_val(t2.a[0])
            if isinstance(w, int):
                nn[t] = frozenset(x for x in range(12) if x != v and x != w)
            elif t2 in B.ne:
                o = frozenset(x for x in B.ne[t2] if x != v)
                if o:
                    nn[t] = o
        if nn != A.ne:
            changed = True
        # ---- inequalities
        cand = set()
        for q in A.ineqs:
            cand.add(q)
        if fresh:
            ints = [p for p in fresh if ty_range(p.ty) or p.ty in BITS or self.looks_int(phis[p])]
            pairs = {p: phis[p] for p in ints}
            for p in fresh:
                if p not in pairs:
                    a, b = phis[p]
                    if seqlike(a) and seqlike(b):
                        lp = length(p)
                        if lp.op == "len":
                            pairs[lp] = (length(a), length(b))
                            ints.append(lp)
            for p in ints:
                a, b = pairs[p]
                # interval hull
                la, ha = interval(A.ineqs, a)
                lb, hb = interval(B.ineqs, b)
                pl, ph = atom_bounds(p)
                if la is not None and lb is not None:
                    for m in {la, lb}:
                        if pl is None or m > pl:
                            cand.add((((p, -1),), m))
                if ha is not None and hb is not None:
                    for m in {ha, hb}:
                        if ph is None or m < ph:
                            cand.add((((p, 1),), -m))
                for src, S in ((a, A), (b, B)):
                    l = lin(src)
                    if l[0] and src is not p:
                        # the merged value against each of the two it was merged from
                        e = lin_sub(lin(p), l)
                        cand.add(e)
                        cand.add(lin_scale(e, -1))
                    if not l[0] and node[1] in self.ctxs[node[0]].body.headers:
                        # counted up from a constant: against the lengths known to reach it
                        for q in S.ineqs:
                            if len(q[0]) == 1 and q[0][0][1] == -1 and q[0][0][0].op != "phi" and q[1] >= l[1] > 0:
                                cand.add((lin_sub(lin(p), lin(q[0][0][0]))[0], q[1] - l[1]))
                    if (l[0] or 0 < l[1] < 3) and node[1] in self.ctxs[node[0]].body.headers:
                        # counted up by one below a bound: up to that bound
                        for t, v in S.facts.items():
                            if t.op == "lt" and v == 1 and t.a[0].op in ("phi", "sum", "c") and not is_c(t.a[1]):
                                e = lin_sub(l, lin(t.a[0]))
                                if not e[0] and e[1] == 1:
                                    cand.add(lin_sub(lin(p), lin(t.a[1])))
                    if len(l[0]) == 1 and abs(l[0][0][1]) == 1:
                        at, k = l[0][0]
                        for q in S.ineqs:
                            d = dict(q[0])
                            if at in d:
                                c = d.pop(at)
                                # at = (p - l1)/k
                                e = _normd(d, q[1])
                                e = lin_add(e, (((p, 1),), -l[1]), c * k)
                                cand.add(e)
                # loop bounds: the constants the loop body compares with
                thr = sorted((d, v) for v, d in self.ctxs[node[0]].thr.items())[:20]
                if la is not None and la == ha == lb == hb:
                    thr = []
                cs_ = sorted({w + k for _, w in thr for k in (-1, 0, 1)})
                up_ = [w for w in cs_ if ha is not None and hb is not None and w >= max(ha, hb)][:5]
                dn_ = [w for w in cs_ if la is not None and lb is not None and w <= min(la, lb)][-5:]
                for v in up_ + dn_:
                    if ha is not None and hb is not None and max(ha, hb) <= v and (ph is None or v < ph):
                        cand.add((((p, 1),), -v))
                    if la is not None and lb is not None and min(la, lb) >= v and (pl is None or v > pl):
                        cand.add((((p, -1),), v))
                # relation to the other merged integers: p - p2 differences
                for p2 in ints:
                    if p2.id > p.id:
                        a2, b2 = pairs[p2]
                        s1, s2 = lin_sub(lin(b), lin(a)), lin_sub(lin(b2), lin(a2))
                        if not s1[0] and not s2[0] and s1[1] and s2[1] and (abs(s1[1]) > 1 or abs(s2[1]) > 1 or s1[1] != s2[1]):
                            # the two points fix an affine relation
                            e = lin_sub(lin_scale(lin_sub(lin(p), lin(a)), s2[1]), lin_scale(lin_sub(lin(p2), lin(a2)), s1[1]))
                            cand.add(e)
                            cand.add(lin_scale(e, -1))
                        for x, y in ((p, p2),):
                            da = lin_sub(lin(a), lin(a2))
                            db = lin_sub(lin(b), lin(b2))
                            if not da[0] and not db[0]:
                                cand.add((lin_sub(lin(p), lin(p2))[0], -max(da[1], db[1])))
                                cand.add((lin_sub(lin(p2), lin(p))[0], min(da[1], db[1])))
            for q in list(B.ineqs):
                if any(x in rb for x, _ in q[0]):
                    d = {}
                    for x, k in q[0]:
                        y = rb.get(x, x)
                        d[y] = d.get(y, 0) + k
                    cand.add(_normd(d, q[1]))
            for q in list(A.ineqs):
                if any(x in ra for x, _ in q[0]):
                    d = {}
                    for x, k in q[0]:
                        y = ra.get(x, x)
                        d[y] = d.get(y, 0) + k
                    cand.add(_normd(d, q[1]))
            for i, S in ((0, A), (1, B)):
                # relations between values that were all moved by a constant
                mv = {}
                for p in ints:
                    l = lin(pairs[p][i])
                    if len(l[0]) == 1 and l[0][0][1] == 1 and l[0][0][0] is not p:
                        mv.setdefault(l[0][0][0], []).append((p, l[1]))
                if mv:
                    for q in S.ineqs:
                        moved = [(x, k) for x, k in q[0] if x in mv]
                        if len(moved) == 2 and len(q[0]) <= 3:
                            (x, k), (y, m) = moved
                            rest = [(z, n) for z, n in q[0] if z not in mv]
                            for px, cx in mv[x][:3]:
                                for py, cy in mv[y][:3]:
                                    d = dict(rest)
                                    for z, n in ((px, k), (py, m)):
                                        d[z] = d.get(z, 0) + n
                                    cand.add(_normd(d, q[1] - k * cx - m * cy))
        if node[1] not in self.ctxs[node[0]].body.headers:
            # bounds of one value that differ: the weaker one
            for S, T in ((A, B), (B, A)):
                for q in S.ineqs:
                    if len(q[0]) == 1 and q not in T.ineqs:
                        x, k = q[0][0]
                        lo, hi = interval1(T.ineqs, x)
                        if k > 0 and hi is not None and k * hi > -q[1]:
                            cand.add((((x, 1),), -hi))
                        elif k < 0 and lo is not None and k * lo > -q[1]:
                            cand.add((((x, -1),), lo))
        keep = set()
        for q in cand:
            if not q[0]:
                continue
            if q not in A.ineqs:
                qa = lin_subst(q, sub_a)
                if not entails_le0(A.ineqs, qa):
                    continue
            qb = lin_subst(q, sub_b) if any(has_my(x) for x, _ in q[0]) or any(x in sub_b for x, _ in q[0]) else q
            if qb in B.ineqs or entails_le0(B.ineqs, qb):
                keep.add(q)
        keep = frozenset(keep)
        if keep != A.ineqs:
            changed = True
        mon = {}
        for k, v in A.mon.items():
            if B.mon.get(k) == v:
                mon[k] = v
            elif isinstance(v, frozenset) and isinstance(B.mon.get(k), frozenset):
                # a '_may' set joins by union, a '_must' set by intersection
                w = (v | B.mon[k]) if "may" in k else (v & B.mon[k])
                if w != v:
                    changed = True
                mon[k] = w
            elif k in B.mon:
                mon[k] = None
                if v is not None:
                    changed = True
            else:
                changed = True
        A.env, A.facts, A.ne, A.ineqs, A.mon = env, nf, nn, keep, mon
        return changed

    phi_inputs = {}

    def looks_int(self, ab):
        return all(x.op in ("c", "sum", "len", "lanes") for x in ab) and any(x.op == "c" for x in ab) is True

    # ------------------------------------------------------------------ truth
    def discr_val(self, v):
        if v.op != "agg":
            return None
        a = None
        for p in self.progs:
            a = p.adt(v.a[0])
            if a:
                break
        if not a:
            std = {"Some": 1, "None": 0, "Ok": 0, "Err": 1, "Ready": 0, "Pending": 1, "Continue": 0, "Break": 1}
            return std.get(v.a[1])
        for x in a["variants"]:
            if x["name"] == v.a[1]:
                d = int(x["discr"])
                return d
        if a["kind"] != "enum":
            return 0
        return None

    def variant_of(self, def_, d):
        for p in self.progs:
            a = p.adt(def_)
            if a:
                for x in a["variants"]:
                    if int(x["discr"]) == d:
                        return x["name"]
        return None

    def truth(self, st, t):
        """value of an int/bool term if the state determines it"""
        if t.op == "c":
            return t.a[0]
        v = st.facts.get(t)
        if v is not None:
            return v
        o = t.op
        if o == "not":
            v = self.truth(st, t.a[0])
            return None if v is None else 1 - v
        if o == "discr":
            if t.a[0].op == "agg":
                return self.discr_val(t.a[0])
            return None
        if o == "lt":
            a, b = t.a
            la, lb = lin(a), lin(b)
            d = lin_sub(la, lb)
            if entails_le0(st.ineqs, (d[0], d[1] + 1)):
                return 1
            e = lin_sub(lb, la)
            if entails_le0(st.ineqs, e):
                return 0
            return None
        if o == "eq":
            a, b = t.a
            if a.op in ("c", "sum", "len", "lanes") or b.op in ("c", "sum", "len", "lanes") or ty_range(a.ty) or ty_range(b.ty):
                for x, y in ((a, b), (b, a)):
                    if y.op == "c":
                        f = st.facts.get(x)
                        if f is not None:
                            return int(f == y.a[0])
                        if y.a[0] in st.ne.get(x, ()):
                            return 0
                d = lin_sub(lin(a), lin(b))
                if st.ineqs or d[0]:
                    lo = entails_le0(st.ineqs, (d[0], d[1] + 1))
                    if lo:
                        return 0
                    e = lin_scale(d, -1)
                    if entails_le0(st.ineqs, (e[0], e[1] + 1)):
                        return 0
                    if entails_le0(st.ineqs, d) and entails_le0(st.ineqs, e):
                        return 1
            if a.op == "agg" and b.op == "agg" and a.a[0] == b.a[0]:
                if a.a[1] != b.a[1]:
                    return 0
            return None
        if o == "bin" and t.a[0] in ("BitAnd", "BitOr") and t.ty == "bool":
            x, y = self.truth(st, t.a[1]), self.truth(st, t.a[2])
            if t.a[0] == "BitAnd":
                if x == 0 or y == 0:
                    return 0
                if x == 1 and y == 1:
                    return 1
            else:
                if x == 1 or y == 1:
                    return 1
                if x == 0 and y == 0:
                    return 0
            return None
        if o == "ovf":
            return self.ovf_truth(st, t)
        if ty_range(t.ty):
            lo, hi = interval(st.ineqs, t)
            if lo is not None and lo == hi:
                return lo
        return None

    def ovf_truth(self, st, t):
        op, a, b, ty = t.a
        r = ty_range(ty)
        if not r:
            return None
        v = binop(op, a, b, ty)
        if op == "Mul" and v.op == "sum":
            pass
        l = lin(v)
        if entails_le0(st.ineqs, (l[0], l[1] - r[1])) and entails_le0(st.ineqs, lin_add(((), r[0]), l, -1)):
            return 0
        return None

    def assume(self, st, t, v):
        """add fact t==v; False when contradictory"""
        k = self.truth(st, t)
        if k is not None:
            return k == v
        o = t.op
        if o == "not":
            return self.assume(st, t.a[0], 1 - v)
        if o == "bin" and t.ty == "bool":
            if t.a[0] == "BitAnd" and v == 1 or t.a[0] == "BitOr" and v == 0:
                st.facts[t] = v
                return self.assume(st, t.a[1], v) and self.assume(st, t.a[2], v)
            for i, j in ((1, 2), (2, 1)):
                x = self.truth(st, t.a[i])
                if t.a[0] == "BitAnd" and x == 1 and v == 0 or t.a[0] == "BitOr" and x == 0 and v == 1:
                    st.facts[t] = v
                    return self.assume(st, t.a[j], v)
        if v in st.ne.get(t, ()):
            return False
        if ty_range(t.ty) and t.ty != "bool":
            lo, hi = interval(st.ineqs, t)
            if lo is not None and v < lo or hi is not None and v > hi:
                return False
        st.facts[t] = v
        if o == "lt":
            d = lin_sub(lin(t.a[0]), lin(t.a[1]))
            if v:
                self.addineq(st, (d[0], d[1] + 1))
            else:
                self.addineq(st, lin_scale(d, -1))
        elif o == "eq":
            a, b = t.a
            if v:
                for x, y in ((a, b), (b, a)):
                    if y.op == "c" and x.op != "c":
                        if st.facts.get(x, y.a[0]) != y.a[0] or y.a[0] in st.ne.get(x, ()):
                            return False
                        st.facts[x] = y.a[0]
                if self.arith_like(a) or self.arith_like(b):
                    d = lin_sub(lin(a), lin(b))
                    self.addineq(st, d)
                    self.addineq(st, lin_scale(d, -1))
            else:
                for x, y in ((a, b), (b, a)):
                    if y.op == "c":
                        st.ne[x] = st.ne.get(x, frozenset()) | {y.a[0]}
                        self.tighten_ne(st, x, y.a[0])
                if self.arith_like(a) or self.arith_like(b):
                    d = lin_sub(lin(a), lin(b))
                    if entails_le0(st.ineqs, d):
                        self.addineq(st, (d[0], d[1] + 1))
                    else:
                        e = lin_scale(d, -1)
                        if entails_le0(st.ineqs, e):
                            self.addineq(st, (e[0], e[1] + 1))
        elif o == "ovf":
            op, a, b, ty = t.a
            if v == 0:
                r = ty_range(ty)
                if r:
                    l = lin(binop(op, a, b, ty))
                    self.addineq(st, (l[0], l[1] - r[1]))
                    self.addineq(st, lin_add(((), r[0]), l, -1))
        elif ty_range(t.ty) and t.ty != "bool":
            l = lin(t)
            self.addineq(st, (l[0], l[1] - v))
            self.addineq(st, lin_add(((), v), l, -1))
        return True

    def tighten_ne(self, st, x, v):
        lo, hi = interval(st.ineqs, x)
        l = lin(x)
        if lo is not None and lo == v:
            self.addineq(st, lin_add(((), v + 1), l, -1))
        if hi is not None and hi == v:
            self.addineq(st, (l[0], l[1] - (v - 1)))
        elif hi is None or hi > v:
            # bounds that follow from the structure of the term (x % 2 and the like)
            if lo is not None and lo < v and entails_le0(st.ineqs, (l[0], l[1] - v)):
                self.addineq(st, (l[0], l[1] - (v - 1)))

    def assume_ne(self, st, t, v):
        k = self.truth(st, t)
        if k is not None:
            return k != v
        st.ne[t] = st.ne.get(t, frozenset()) | {v}
        if ty_range(t.ty):
            self.tighten_ne(st, t, v)
            if entails_le0(st.ineqs, ((), 1)) or entails_le0(st.ineqs, lin_add(lin_sub(lin(t), lin(t)), ((), 1))):
                return False
            l = lin(t)
            lo, hi = interval(st.ineqs, t)
            if lo is not None and entails_le0(st.ineqs, (l[0], l[1] - (lo - 1))):
                return False
        return True

    def arith_like(self, t):
        return t.op in ("sum", "len", "lanes", "byte", "mul") or (ty_range(t.ty) is not None and t.ty != "bool")

    def addineq(self, st, q):
        if not q[0]:
            return
        if q in st.ineqs:
            return
        hi = q[1]
        triv = True
        for a, k in q[0]:
            lo_, hi_ = atom_bounds(a)
            b = hi_ if k > 0 else lo_
            if b is None:
                triv = False
                break
            hi += k * b
        if triv and hi <= 0:
            return
        st.ineqs = st.ineqs | {q}
        # disequalities may now sit on a bound
        for x in list(st.ne):
            if any(x is a for a, _ in q[0]):
                for v in sorted(st.ne[x]):
                    lo, hi = interval(st.ineqs, x)
                    l = lin(x)
                    if lo == v:
                        st.ineqs = st.ineqs | {lin_add(((), v + 1), l, -1)}
                    elif hi == v:
                        st.ineqs = st.ineqs | {(l[0], l[1] - (v - 1))}

    # ------------------------------------------------------------------ memory
    def L(self, ctx, l):
        return mk("L", ctx.id, l)

    def M(self, t):
        return mk("M", t)

    def initial(self, base):
        if base.op == "M":
            t = base.a[0]
            if t in self.regions:
                return self.regions[t]
            r = mk("deref", t)
            return r
        return UNDEF

    def get(self, st, base):
        v = st.env.get(base)
        if v is None:
            v = self.initial(base)
        return v

    def proj(self, v, el):
        if el[0] == "f":
            return field(v, el[1], el[2])
        if el[0] == "i":
            return elem(v, el[1])
        if el[0] == "s":
            return slice_(v, el[1], el[2])
        if el[0] == "k":
            return map_get(v, el[1])
        return mk("bad", v, str(el))

    def read(self, st, base, path):
        v = self.get(st, base)
        for el in path:
            v = self.proj(v, el)
            if v.op == "moved":
                return v
        return v

    def write(self, st, base, path, v):
        if not path:
            st.env[base] = v
            return
        st.env[base] = self._wr(self.get(st, base), path, 0, v)

    def _wr(self, old, path, i, v):
        if i == len(path):
            return v
        el = path[i]
        if old.op in ("moved", "undef"):
            old = mk("undef")
        nv = v if i + 1 == len(path) else self._wr(self.proj(old, el), path, i + 1, v)
        return upd(old, el, nv)

    def resolve(self, st, ctx, p):
        base = self.L(ctx, p[0])
        path = ()
        body = ctx.body
        ty = body.ty(body.locals[p[0]])
        for e in p[1]:
            k = e[0]
            if k == "deref":
                if ty is not None and ty["k"] == "adt" and ty["def"] == "std::boxed::Box":
                    ty = body.ty(ty["args"][0]) if ty.get("args") else None
                    continue
                v = self.read(st, base, path)
                base, path = self.deref(v)
                ty = body.ty(ty["args"][0]) if ty is not None and ty["k"] in ("ref", "ptr") and ty.get("args") else None
            elif k == "f":
                path = path + (("f", e[3], e[2]),)
                ty = body.ty(e[5])
            elif k == "idx":
                i = self.read(st, self.L(ctx, e[1]), ())
                path = path + (("i", i),)
                ty = self.elem_ty(body, ty)
            elif k == "cidx":
                if e[3]:
                    n = length(self.read(st, base, path))
                    i = bsub(n, C(e[1]))
                else:
                    i = C(e[1])
                path = path + (("i", i),)
                ty = self.elem_ty(body, ty)
            elif k == "sub":
                n = length(self.read(st, base, path))
                hi = bsub(n, C(e[2])) if e[3] else C(e[2])
                path = path + (("s", C(e[1]), hi),)
            elif k == "dc":
                pass
        return base, path, ty

    def elem_ty(self, body, ty):
        if ty is not None and ty["k"] in ("array", "slice") and ty.get("args"):
            return body.ty(ty["args"][0])
        return None

    def deref(self, v):
        if v.op == "ptr":
            return v.a[0], v.a[1]
        return self.M(v), ()

    def note(self, t, ty):
        if ty is None or t.ty is not None:
            return
        k = ty["k"]
        if k in ("uint", "int", "bool", "char"):
            if t.op not in ("c", "agg"):
                t.ty = ty["s"]
        elif k == "array" and "n" in ty and t.op not in ("agg", "bytes", "repeat"):
            t.ty = "#arr:%d" % ty["n"]
        elif k == "adt" and t.op not in ("agg", "upd"):
            t.ty = "#adt:" + ty["def"]
        elif k in ("ref", "ptr") and t.op not in ("ptr",):
            t.ty = "#ref:" + ty["s"]

    def read_place(self, st, ctx, p):
        base, path, ty = self.resolve(st, ctx, p)
        v = self.read(st, base, path)
        self.note(v, ty)
        return v

    def operand(self, st, ctx, o):
        k = o["o"]
        if k in ("copy", "move"):
            v = self.read_place(st, ctx, o["p"])
            if k == "move" and v.op not in ("c", "ptr", "fn") and not o["p"][1]:
                st.env[self.L(ctx, o["p"][0])] = MOVED
            elif k == "move" and self.track_partial(ctx, o["p"]):
                base, path, _ = self.resolve(st, ctx, o["p"])
                self.write(st, base, path, MOVED)
            return v
        if k == "const":
            return self.const(ctx, o)
        return mk("opq", "operand", ctx.id)

    def track_partial(self, ctx, p):
        return False

    def const(self, ctx, o):
        if "fn" in o:
            return mk("fn", o["fn"], o.get("res") or "", bool(o.get("reslocal")), id_targs(o.get("targs", ())), ctx.body.prog.name)
        ty = ctx.body.ty(o["ty"])
        if "promoted" in o:
            return self.promoted(ctx, o)
        if "sv" in o:
            return C(int(o["sv"]))
        if "v" in o:
            if ty["k"] == "adt":
                return self.scalar_adt(ctx.body.prog, ty, int(o["v"]))
            return C(int(o["v"]))
        if "str" in o and ty["s"].endswith("str"):
            t = mk("str", o["str"])
            r = mk("cref", t)
            self.regions[r] = t
            return mk("ptr", self.M(r), (), False)
        if "bytes" in o:
            t = mk("bytes", tuple(o["bytes"]))
            inner = ctx.body.ty(ty["args"][0]) if ty["k"] == "ref" and ty.get("args") else None
            if inner is not None and inner["k"] == "str":
                t = mk("str", bytes(o["bytes"]).decode("utf8", "replace"))
            if inner is not None and inner["k"] not in ("array", "slice", "str"):
                t = mk("constdata", tuple(o["bytes"]), inner["s"])
            r = mk("cref", t)
            self.regions[r] = t
            return mk("ptr", self.M(r), (), False)
        if "arr" in o:
            return mk("bytes", tuple(o["arr"]))
        if o.get("zst"):
            if ty["k"] == "tuple":
                return UNIT if not ty.get("args") else mk("zst", ty["s"])
            if ty["k"] == "closure":
                return agg("{}" + ty["def"], "", [], [])
            if ty["k"] == "adt":
                a = ctx.body.prog.adt(ty["def"])
                if a and a["kind"] == "struct":
                    return agg(ty["def"], "", [f[0] for f in a["variants"][0]["fields"]], [mk("zst", f[1]) for f in a["variants"][0]["fields"]])
            return mk("zst", ty["s"])
        if "static" in o:
            return mk("static", o["static"])
        if "name" in o:
            return mk("const", o["name"], ty["s"])
        return mk("const", "?", ty["s"])

    def scalar_adt(self, prog, ty, v):
        a = prog.adt(ty["def"])
        if a and a["kind"] == "enum":
            for x in a["variants"]:
                if int(x["discr"]) == v and not x["fields"]:
                    return agg(ty["def"], x["name"], [], [])
        if a and a["kind"] == "struct" and len(a["variants"][0]["fields"]) == 1:
            return agg(ty["def"], "", [a["variants"][0]["fields"][0][0]], [C(v)])
        return C(v)

    def promoted(self, ctx, o):
        body = ctx.body
        src = body
        key = (body.prog.name, body.key, o["promoted"])
        if key not in self.promcache:
            pb = body.prog.promoted_body(body, o["promoted"]).prep()
            sub = Ctx()
            sub.id = -1000 - len(self.promcache)
            sub.parent = None
            sub.bb = -1
            sub.body = pb
            sub.prefix = ()
            sub.depth = 0
            sub.chain = (body.key,)
            st = State()
            bb = 0
            n = 0
            okk = True
            while True:
                n += 1
                if n > 50:
                    okk = False
                    break
                b = pb.blocks[bb]
                for s in b["st"]:
                    self.stmt(st, sub, s)
                t = b["term"]
                if t["t"] == "goto":
                    bb = t["to"]
                    continue
                if t["t"] == "assert":
                    bb = t["to"]
                    continue
                if t["t"] == "call":
                    okk = False
                break
            if okk:
                v = st.env.get(self.L(sub, 0), UNDEF)
                # persist the locals as constant regions
                for base, val in list(st.env.items()):
                    if base.op == "L":
                        self.persist[base] = val
                v = self.freeze(v, st)
            else:
                v = mk("const", "promoted", body.key, o["promoted"])
            self.promcache[key] = v
        return self.promcache[key]

    persist = {}

    def freeze(self, v, st):
        """turn pointers into promoted locals into pointers to constant regions"""
        if v.op == "ptr" and v.a[0].op == "L" and v.a[0].a[0] <= -1000:
            val = self.freeze(self.read(st, v.a[0], v.a[1]), st)
            r = mk("cref", val)
            self.regions[r] = val
            return mk("ptr", self.M(r), (), False)
        if v.op == "agg":
            return agg(v.a[0], v.a[1], v.a[2], [self.freeze(x, st) for x in v.a[3]])
        return v

    def struct_fields(self, p):
        """the values of a struct's fields, as far as they are known"""
        r, ks = upd_root(p)
        out = {k[2]: v for k, v in ks.items() if k[0] == "f"}
        if r.op == "agg":
            for n, v in zip(r.a[2], r.a[3]):
                out.setdefault(n, v)
        return list(out.values())

    # ------------------------------------------------------------------ statements
    def stmt(self, st, ctx, s):
        if s["s"] == "=":
            v = self.rvalue(st, ctx, s["rv"])
            if self.on_agg and s["rv"]["r"] == "agg":
                self.on_agg(self, st, ctx, v, s["sp"])
            p = s["p"]
            if not p[1]:
                self.note(v, ctx.body.ty(ctx.body.locals[p[0]]))
                base, path = self.L(ctx, p[0]), ()
                st.env[base] = v
            else:
                base, path, ty = self.resolve(st, ctx, p)
                self.note(v, ty)
                if self.before_write:
                    self.before_write(self, st, ctx, base, path, v, s["sp"])
                self.write(st, base, path, v)
            if self.recording and self.watch_write and path:
                self.watch_write(self, st, ctx, base, path, v, s["sp"])
        elif s["s"] == "dead":
            st.env.pop(self.L(ctx, s["l"]), None)
        elif s["s"] == "setdiscr":
            pass

    def rvalue(self, st, ctx, r):
        k = r["r"]
        if k == "use":
            return self.operand(st, ctx, r["a"])
        if k == "ref" or k == "rawptr":
            base, path, ty = self.resolve(st, ctx, r["p"])
            # reborrow of an opaque reference keeps the reference itself
            if base.op == "M" and not path:
                t = base.a[0]
                if t.op not in ("cref",) and base not in st.env:
                    pass
            if ty is not None and ty["k"] == "array":
                self.note(self.read(st, base, path), ty)
            return mk("ptr", base, path, bool(r.get("mut")))
        if k == "bin":
            a = self.operand(st, ctx, r["a"])
            b = self.operand(st, ctx, r["b"])
            ty = ctx.body.tystr(r["ty"])
            op = r["op"]
            if a.op != "c" and a in st.facts and st.facts[a] is not None and op not in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                a = C(int(st.facts[a]))
            if b.op != "c" and b in st.facts and st.facts[b] is not None and op not in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                b = C(int(st.facts[b]))
            if op.endswith("WithOverflow"):
                op = op[:-12]
                v = binop(op, a, b, ty)
                if v.ty is None and v.op != "c":
                    v.ty = ty
                return tup(v, self.mkovf(op, a, b, ty))
            tyk = ctx.body.ty(r["ty"])["k"]
            if tyk in ("ref", "ptr", "fnptr"):
                ty = None
            elif op in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
                for x in (a, b):
                    if x.op == "c":
                        self.thresh(ctx, x.a[0])
            v = binop(op, a, b, ty)
            return v
        if k == "un":
            a = self.operand(st, ctx, r["a"])
            if r["op"] == "Not":
                t = a.ty
                o = r["a"]
                ty = None
                if o["o"] in ("copy", "move"):
                    ty = self.place_ty(ctx, o["p"])
                    ty = ty["s"] if ty else None
                else:
                    ty = ctx.body.tystr(o["ty"])
                return notop(a, ty or "bool")
            if r["op"] == "PtrMetadata":
                b, p = self.deref(a)
                v = self.read(st, b, p)
                return length(v)
            if r["op"] == "Neg":
                if is_c(a):
                    return C(-a.a[0])
                return from_lin(lin_scale(lin(a), -1), a.ty)
            return mk("un", r["op"], a)
        if k == "cast":
            a = self.operand(st, ctx, r["a"])
            kind = r["kind"]
            if kind.startswith("IntToInt"):
                return self.int_cast(st, a, ctx.body.tystr(r["from"]), ctx.body.tystr(r["ty"]))
            if kind.startswith(("PointerCoercion", "PtrToPtr", "Transmute", "Subtype")):
                return a
            t = mk("cast", ctx.body.tystr(r["ty"]), a)
            t.ty = ctx.body.tystr(r["ty"])
            return t
        if k == "discr":
            v = self.read_place(st, ctx, r["p"])
            d = self.discr_val(v)
            if d is not None:
                return C(d)
            t = mk("discr", v)
            ty = ctx.body.ty(r["ty"])
            if ty.get("def"):
                self.discr_ty[t] = ty["def"]
            return t
        if k == "agg":
            ops = [self.operand(st, ctx, o) for o in r["ops"]]
            kk = r["k"]
            if kk == "tuple":
                return tup(*ops) if ops else UNIT
            if kk == "array":
                return array(ops)
            if kk == "adt":
                if r["def"] == "std::pin::Pin" and ops:
                    return ops[0]
                return agg(r["def"], r["variant"], r["fields"], ops)
            if kk in ("closure", "coroutine"):
                return agg("{}" + r["def"], "", [str(i) for i in range(len(ops))], ops)
            return mk("opq", "agg", ctx.id, *ops)
        if k == "repeat":
            a = self.operand(st, ctx, r["a"])
            n = r["n"]
            if n is not None and n <= 64:
                return array([a] * n)
            return mk("repeat", a, C(n) if n is not None else mk("opq", "replen", ctx.id))
        return mk("opq", "rv", ctx.id, r.get("d", ""))

    discr_ty = {}

    def mkovf(self, op, a, b, ty):
        if is_c(a) and is_c(b):
            v = {"Add": a.a[0] + b.a[0], "Sub": a.a[0] - b.a[0], "Mul": a.a[0] * b.a[0]}.get(op)
            r = ty_range(ty)
            if v is not None and r:
                return C(not (r[0] <= v <= r[1]))
        t = mk("ovf", op, a, b, ty)
        t.ty = "bool"
        return t

    def int_cast(self, st, a, frm, to):
        rt = ty_range(to)
        if a.op != "c" and rt and ty_range(frm):
            t = cast_int(a, frm, to)
            if t.op != "cast":
                return t
            l = lin(a)
            if entails_le0(st.ineqs, (l[0], l[1] - rt[1])) and entails_le0(st.ineqs, lin_add(((), rt[0]), l, -1)):
                return a
            return t
        return cast_int(a, frm, to)

    def place_ty(self, ctx, p):
        body = ctx.body
        ty = body.ty(body.locals[p[0]])
        for e in p[1]:
            if e[0] == "f":
                ty = body.ty(e[5])
            elif e[0] == "deref":
                ty = body.ty(ty["args"][0]) if ty and ty.get("args") else None
            elif e[0] in ("idx", "cidx"):
                ty = self.elem_ty(body, ty)
            if ty is None:
                return None
        return ty

    # ------------------------------------------------------------------ execution
    def exec_from(self, ctx, bb, st, node):
        """run straight-line code from (ctx,bb); fan out into nodes at branches and joins"""
        while True:
            b = ctx.body.blocks[bb]
            if self.recording and ctx.body.prog is self.prog:
                self.execd.setdefault(ctx.body.key, set()).add(bb)
            for s in b["st"]:
                self.stmt(st, ctx, s)
            nxt = self.term(st, ctx, bb, b["term"])
            if nxt is None:
                return
            ctx2, bb2 = nxt
            if ctx2.body.preds[bb2] == 1 and bb2 not in ctx2.body.headers and bb2 != 0:
                # single predecessor, keep going in place
                if ctx2 is ctx:
                    bb = bb2
                    continue
            self.enter(ctx2, bb2, st)
            return

    def term(self, st, ctx, bb, t):
        k = t["t"]
        if k == "goto":
            return ctx, t["to"]
        if k == "drop":
            v = self.read_place(st, ctx, t["p"])
            if v.op != "moved":
                if self.recording or self.on_drop:
                    self.do_drop(st, ctx, bb, t, v)
                if not t["p"][1]:
                    st.env[self.L(ctx, t["p"][0])] = MOVED
            return ctx, t["to"]
        if k == "switch":
            self.switch(st, ctx, bb, t)
            return None
        if k == "assert":
            c = self.operand(st, ctx, t["cond"])
            want = 1 if t["expected"] else 0
            if not is_noise(t["sp"][3]):
                self.obligation(st, ctx, bb, t["msg"]["k"], c, want, t)
            if not self.assume(st, c, want):
                return None
            return ctx, t["to"]
        if k == "call":
            return self.call(st, ctx, bb, t)
        if k == "return":
            return self.ret(st, ctx)
        if k == "yield":
            self.emit(st, ctx, bb, "yield", "yield", [])
            self.write_dest(st, ctx, t["dest"], mk("opq", "resume", ctx.id, bb))
            return ctx, t["to"]
        if k in ("unreachable", "unwind"):
            return None
        raise Exception("terminator " + k)

    on_drop = None
    on_remove = None              # hook(I, st, call, map pointer, key): a present key was removed
    before_await = None           # hook(I, st, call, name): same, before what the operation returned last time is forgotten
    on_await = None               # hook(I, st, call, name, values) when a library future completes
    on_result = None              # hook(I, st, call, name, result) after it completed
    on_panic = None
    on_block = None               # hook(I, st, ctx, bb) before a state enters a block
    on_leave = None               # hook(I, st, ctx, value) when an inlined function returns
    on_io = None                  # hook(I, st, call, what, ptr, n) on transfers into / within buffers

    def do_drop(self, st, ctx, bb, t, v):
        if self.on_drop:
            self.on_drop(self, st, ctx, bb, t, v)
        if self.recording:
            self.emit(st, ctx, bb, "drop", ctx.body.tystr(t["pty"]), [v])

    def ret(self, st, ctx):
        v = self.get(st, self.L(ctx, 0))
        if ctx.wrap:
            v = ctx.wrap(v)
        if self.split_bool and ctx.parent is not None and ctx.body.tystr(ctx.body.locals[0]) == "bool" and self.truth(st, v) is None:
            # a yes or no that is kept for later: each as a state of its own
            s2 = st.copy()
            if self.assume(s2, v, 0):
                r = self.leave(s2, ctx, C(0))
                if r is not None:
                    self.enter(r[0], r[1], s2)
            if not self.assume(st, v, 1):
                return None
            v = C(1)
        return self.leave(st, ctx, v)

    split_bool = False
    called = {}

    def leave(self, st, ctx, v):
        par = ctx.parent
        if par is None:
            if self.recording:
                self.emit(st, ctx, 0, "return", ctx.body.key, [v])
            self.final_return(st, ctx, v)
            return None
        if self.on_leave:
            self.on_leave(self, st, ctx, v)
        if ctx.call is not None and ctx.call.get("post"):
            v = ctx.call["post"](self, st, v)
        # drop the frame
        cid = ctx.id
        dead = [b for b in st.env if b.op == "L" and b.a[0] == cid]
        for b in dead:
            del st.env[b]
        if ctx.dest is not None:
            self.write_dest(st, par, ctx.dest, v)
        if ctx.ret is None:
            return None
        # returning is a join point of its own
        return par, ctx.ret

    def final_return(self, st, ctx, v):
        pass

    def write_dest(self, st, ctx, p, v):
        base, path, ty = self.resolve(st, ctx, p)
        self.note(v, ty)
        self.write(st, base, path, v)

    def switch(self, st, ctx, bb, t):
        v = self.operand(st, ctx, t["a"])
        m = t["sp"][3]
        isbool = ctx.body.tystr(t["aty"]) == "bool"
        if isbool and v.op != "c" and is_noise(m):
            # logging machinery: always enabled, never the `log` fallback
            dis = any("if_log_enabled" in x or "__tracing_log" in x for x in m) or "tracing::span" in m or "instrument" in m
            self.enter(ctx, dict((int(a), b) for a, b in t["targets"]).get(0, t["otherwise"]) if dis else t["otherwise"], st)
            return
        k = self.truth(st, v)
        if k is None and v.op == "discr" and "select" in m:
            pass
        if k is not None:
            for a, b in t["targets"]:
                if int(a) == (k & ((1 << 128) - 1)):
                    self.branch(ctx, b, st)
                    return
            self.branch(ctx, t["otherwise"], st)
            return
        rest = []
        if len(t["targets"]) >= 4 and not isbool and v.op not in ("discr", "c"):
            self.keyed.add(v)
        for a, b in t["targets"]:
            s2 = st.copy()
            if self.assume(s2, v, int(a)):
                self.branch(ctx, b, s2)
            rest.append(int(a))
        ot = ctx.body.blocks[t["otherwise"]]["term"]["t"]
        if ot == "unreachable" and not ctx.body.blocks[t["otherwise"]]["st"]:
            return
        s2 = st
        if isbool and rest == [0]:
            if not self.assume(s2, v, 1):
                return
        else:
            for a in rest:
                if not self.assume_ne(s2, v, a):
                    return
            # exactly one variant left?
            if v.op == "discr" and v in self.discr_ty:
                vs = self.variants(self.discr_ty[v])
                left = [d for d in vs if d not in s2.ne.get(v, ())]
                if len(left) == 1:
                    if not self.assume(s2, v, left[0]):
                        return
                if not left and vs:
                    return
        self.branch(ctx, t["otherwise"], s2)

    def variants(self, d):
        for p in self.progs:
            a = p.adt(d)
            if a:
                return [int(x["discr"]) for x in a["variants"]]
        return []

    def branch(self, ctx, bb, st):
        if ctx.body.blocks[bb]["term"]["t"] == "unreachable" and not ctx.body.blocks[bb]["st"]:
            return
        self.enter(ctx, bb, st)

    # ------------------------------------------------------------------ obligations and events
    def obligation(self, st, ctx, bb, kind, cond, want, t=None):
        ok = self.truth(st, cond) == want
        note = ""
        if not ok and kind == "overflow" and cond.op == "ovf":
            op, a, b, ty = cond.a
            # 64-bit event counters: 2^63 increments by a small constant are out of reach
            if op == "Add" and ty in ("usize", "u64", "i64", "isize"):
                for x, y in ((a, b), (b, a)):
                    if is_c(y) and 0 <= y.a[0] <= (1 << 32):
                        ok, note = True, "64-bit counter"
                        break
                if not ok:
                    la, ha = interval(st.ineqs, a)
                    lb, hb = interval(st.ineqs, b)
                    lim = ISIZE_MAX
                    if ha is not None and hb is not None and ha <= lim and hb <= lim:
                        ok = True
        if ctx.body.prog is not self.prog and kind != "arg":
            return ok
        if self.recording:
            loc = self.loc(ctx, bb)
            key = (loc, kind)
            o = self.oblig.setdefault(key, {"ok": True, "n": 0, "bad": [], "kind": kind, "loc": loc})
            o["n"] += 1
            if not ok:
                o["ok"] = False
                if len(o["bad"]) < 3:
                    o["bad"].append((show(cond), [show(from_lin(q)) + " <= 0" for q in list(st.ineqs)[:12]], self.stack(ctx)))
            self.emit(st, ctx, bb, "oblig", kind, [cond], data={"ok": ok})
        return ok

    def stack(self, ctx):
        return [k for k in ctx.chain]

    def panic(self, st, ctx, bb, what, data=None):
        """reached a panicking call: the obligation 'not reachable' failed"""
        if self.recording:
            loc = self.loc(ctx, bb)
            key = (loc, "panic:" + what)
            o = self.oblig.setdefault(key, {"ok": False, "n": 0, "bad": [], "kind": "panic:" + what, "loc": loc})
            o["n"] += 1
            o["ok"] = False
            if self.on_panic:
                self.on_panic(self, st, ctx, bb, key)
            if len(o["bad"]) < 3:
                o["bad"].append((what, [show(f) + "==" + str(v) for f, v in list(st.facts.items())[-8:]], self.stack(ctx)))
            self.emit(st, ctx, bb, "panic", what, [], data=data)

    def emit(self, st, ctx, bb, kind, name, args, data=None, result=None, snap=True):
        if not self.recording:
            return
        e = Event()
        e.kind, e.name, e.args = kind, name, args
        e.ctx, e.bb = ctx, bb
        e.loc = self.loc(ctx, bb)
        e.fnkey = e.loc[2]
        e.node = self.cur
        e.idx = len(self.node_events[self.cur])
        e.data = data
        e.result = result
        e.st = st.copy() if (self.watch is None or self.watch(kind, name)) else None
        self.node_events[self.cur].append(e)
        self.events.append(e)
        return e

    # ------------------------------------------------------------------ calls
    def call(self, st, ctx, bb, t):
        f = t["f"]
        c = Call()
        c.term, c.ctx, c.bb, c.body = t, ctx, bb, ctx.body
        c.noise = is_noise(t["sp"][3]) and ctx.body.prog is self.prog
        c.dty = t.get("dty")
        c.atys = t.get("atys", ())
        c.site = (ctx.id, bb)
        args = [self.operand(st, ctx, a) for a in t["args"]]
        for i, a in enumerate(args):
            if i < len(c.atys):
                self.note(a, ctx.body.ty(c.atys[i]))
        if c.noise and not ("instrument" in t["sp"][3] and ("res" in f and f.get("reslocal") or f.get("fn", "").startswith(("std::future::", "tracing::Instrument::", "std::pin::")))):
            # logging: no effect; result opaque
            if "to" not in t:
                return None
            r = mk("opq", c.site, "log")
            self.kill(st, c.site)
            self.write_dest(st, ctx, t["dest"], r)
            return ctx, t["to"]
        if f["o"] == "const" and "fn" in f:
            fnv = self.const(ctx, f)
            c.f = f
            c.name, c.res, c.targs = f["fn"], f.get("res"), f.get("targs", [])
            return self.dispatch(st, ctx, bb, t, c, args, fnv)
        fv = self.operand(st, ctx, f)
        return self.call_value(st, ctx, bb, t, c, fv, args)

    def call_value(self, st, ctx, bb, t, c, fv, args):
        """call through a value (fn pointer / fn item)"""
        c.f = None
        if fv.op == "fn":
            c.name, c.res, c.targs = fv.a[0], fv.a[1], []
            f = {"fn": fv.a[0], "res": fv.a[1] or None, "reslocal": fv.a[2], "reskind": "item"}
            c.f = f
            return self.dispatch(st, ctx, bb, t, c, args, fv, f)
        if fv.op == "agg" and fv.a[0].startswith("{}"):
            return self.call_closure(st, ctx, bb, t, c, fv, args)
        cands = self.callees(fv)
        if cands:
            known = self.called.setdefault((ctx.id, bb), set())
            if self.recording and not set(cands) <= known:
                raise RuntimeError("calls through a value weren't all followed")
            known.update(cands)
            for f in cands:
                s2 = st.copy()
                r = self.call_value(s2, ctx, bb, t, copy.copy(c), f, args)
                if r is not None:
                    self.enter(r[0], r[1], s2)
            return None
        c.name, c.res, c.targs = "?indirect", None, []
        return self.opaque(st, ctx, bb, t, c, args)

    def callees(self, fv):
        """the functions and closures that a value may be; None: not known.  (The inputs of a phi grow until the run is stable.)"""
        seen, todo, out = set(), [fv], []
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == "phi" and self.phi_inputs.get(x):
                todo += self.phi_inputs[x]
            elif x.op == "elem" and x.a[0].op == "agg" and x.a[0].a[0] == "array":
                todo += x.a[0].a[3]
            elif x.op == "fn" or x.op == "agg" and x.a[0].startswith("{}"):
                out.append(x)
            else:
                return None
        return sorted(out, key=lambda x: x.id)

    def find_impl(self, trait, meth, v):
        """impl of trait::meth for the value v"""
        k = None
        if v.op == "agg":
            k = v.a[0]
        elif v.ty and isinstance(v.ty, str) and v.ty.startswith("#adt:"):
            k = v.ty[5:]
        if not k:
            return None
        for p in self.progs:
            for b in p.impls.get((trait, meth), ()):
                s = b.impl_self or ""
                n = s.split("<")[0]
                if n == k:
                    return b
        return None

    def dispatch(self, st, ctx, bb, t, c, args, fnv, f=None):
        f = f or t["f"]
        name = c.name
        if self.on_call:
            self.on_call(self, st, c, args)
        # --- rule-provided specials
        m = self.call_models.get(c.res or name) or self.call_models.get(name)
        if m is not None:
            r = m(self, st, c, args)
            if r is not NotImplemented:
                return self.finish(st, ctx, bb, t, c, args, r)
        # --- python models (by trait-level name, then by resolved name)
        m = self.pymodels.get(name) or (self.pymodels.get(c.res) if c.res else None)
        islocal = f.get("reslocal") and f.get("reskind") != "virtual"
        if islocal and m and name in DERIVABLE:
            body = self.body_of_prog(ctx, c.res)
            if body is not None and body.sp[3]:
                islocal = False
                r = m(self, st, c, args)
                if r is not NotImplemented:
                    return self.finish(st, ctx, bb, t, c, args, r)
        if islocal and (self.no_inline is None or not self.no_inline(c.res)):
            body = self.body_of_prog(ctx, c.res)
            if body is not None and not (body.coroutine and m) and not (m and (name in FORCE_MODEL or name.startswith("vmodel::"))):
                return self.inline(st, ctx, bb, t, c, body, args)
        if f.get("local") and not f.get("reslocal") and f.get("trait") is None:
            body = self.body_of_prog(ctx, name)
            if body is not None and (self.no_inline is None or not self.no_inline(name)):
                return self.inline(st, ctx, bb, t, c, body, args)
        if f.get("trait"):
            # virtual or generic: dispatch on the receiver value
            meth = name.rsplit("::", 1)[-1]
            tr = f["trait"]
            recv = args[0] if args else None
            seen = 0
            while recv is not None and recv.op == "ptr" and seen < 4:
                recv = self.read(st, recv.a[0], recv.a[1])
                seen += 1
            if recv is not None:
                b = self.find_impl(tr, meth, recv)
                if b is not None and (self.no_inline is None or not self.no_inline(b.key)):
                    a2 = list(args)
                    # strip extra reference layers (`&mut I` as iterator)
                    if b.argc >= 1 and seen > 1:
                        x = args[0]
                        for _ in range(seen - 1):
                            x = self.read(st, x.a[0], x.a[1])
                        a2[0] = x
                    if b.argc >= 1 and seen == 0 and b.ty(b.locals[1])["k"] == "ref":
                        pass
                    return self.inline(st, ctx, bb, t, c, b, a2)
            if f.get("reskind") == "virtual" or (recv is not None and recv.op not in ("agg",) and tr.split("::")[0] not in ("std", "core", "serde", "tokio", "bendy", "bincode", "tracing", "futures")):
                cands = [b for p in self.progs for b in p.impls.get((tr, meth), ())]
                if self.no_inline is not None and any(self.no_inline(b.key) for b in cands):
                    cands = []
                if cands:
                    for b in cands:
                        s2 = st.copy()
                        r = self.inline(s2, ctx, bb, t, c, b, args)
                        if r is not None:
                            self.enter(r[0], r[1], s2)
                    return None
        if m is not None:
            r = m(self, st, c, args)
            if r is not NotImplemented:
                return self.finish(st, ctx, bb, t, c, args, r)
        rm = self.rustmodels.get(name) or (self.rustmodels.get(c.res) if c.res else None)
        if rm and self.modelprog:
            b = self.modelprog.bodies.get(rm)
            if b is None:
                raise KeyError("model body " + rm)
            return self.inline(st, ctx, bb, t, c, b, args)
        # tuple-struct / variant constructors used as functions
        con = self.constructor(name, args)
        if con is not None:
            return self.finish(st, ctx, bb, t, c, args, con)
        if "to" not in t:
            if not c.noise:
                self.panic(st, ctx, bb, name)
            return None
        return self.opaque(st, ctx, bb, t, c, args)

    def body_of_prog(self, ctx, key):
        b = ctx.body.prog.bodies.get(key)
        return b if b is not None else self.body_of(key)

    def constructor(self, name, args):
        pre, _, last = name.rpartition("::")
        for p in self.progs:
            a = p.adt(pre)
            if a and a["kind"] == "enum":
                for v in a["variants"]:
                    if v["name"] == last and len(v["fields"]) == len(args):
                        return agg(pre, last, [x[0] for x in v["fields"]], args)
            a = p.adt(name)
            if a and a["kind"] == "struct" and len(a["variants"][0]["fields"]) == len(args):
                return agg(name, "", [x[0] for x in a["variants"][0]["fields"]], args)
        std = {"std::option::Option::Some": some, "std::result::Result::Ok": ok, "std::result::Result::Err": err,
               "std::prelude::v1::Some": some, "std::prelude::v1::Ok": ok, "std::prelude::v1::Err": err}
        if name in std and len(args) == 1:
            return std[name](args[0])
        return None

    def finish(self, st, ctx, bb, t, c, args, r):
        """complete a modelled call. r: Term | ('alts',[(facts,[value])]) | ('goto',..)"""
        if isinstance(r, tuple) and r and r[0] == "inline":
            _, body, a2, kw = r
            return self.inline(st, ctx, bb, t, c, body, a2, **kw)
        if isinstance(r, tuple) and r and r[0] == "callv":
            return self.call_closure(st, ctx, bb, t, c, r[1], r[2])
        if r is None:
            return None
        if isinstance(r, list):
            # alternatives: (state, value)
            for s2, v in r:
                self.emit(s2, ctx, bb, "call", c.name, self.vals(s2, args), result=v)
                if "to" in t:
                    self.write_dest(s2, ctx, t["dest"], v)
                    self.enter(ctx, t["to"], s2)
            return None
        self.emit(st, ctx, bb, "call", c.name, self.vals(st, args) if self.recording else args, result=r)
        if "to" not in t:
            return None
        self.write_dest(st, ctx, t["dest"], r)
        return ctx, t["to"]

    def vals(self, st, args):
        return [self.val(st, a) for a in args]

    def val(self, st, a, d=0):
        """snapshot of a value: references replaced by what they point to"""
        if d > 6:
            return a
        if a.op == "ptr":
            return self.val(st, self.read(st, a.a[0], a.a[1]), d + 1)
        if a.op == "agg" and any(has_ptr(x) for x in a.a[3]):
            return agg(a.a[0], a.a[1], a.a[2], [self.val(st, x, d + 1) for x in a.a[3]])
        if a.op == "upd" and has_ptr(a):
            return _upd_val(self, st, a, d)
        return a

    def is_recursive(self, ctx, body):
        c = ctx
        n = 0
        while c is not None:
            if c.body is body:
                if body.prog is self.prog:
                    return True
                n += 1
            c = c.parent
        return n > 6

    def inline(self, st, ctx, bb, t, c, body, args, wrap=None, dest=True, post=None, spread=False):
        if self.recording:
            self.emit(st, ctx, bb, "call", body.key, self.vals(st, args))
        if self.is_recursive(ctx, body) or ctx.depth > self.max_depth:
            return self.opaque(st, ctx, bb, t, c, args)
        body.prep()
        nc = self.mkctx(ctx, bb, body, dest=t["dest"] if dest else None, ret=t.get("to"), wrap=wrap,
                        call={"post": post} if post else None)
        cid = nc.id
        self.kill(st, None, nc)
        for i in range(1, body.argc + 1):
            v = args[i - 1] if i - 1 < len(args) else mk("opq", (cid, 0), "arg", i)
            st.env[self.L(nc, i)] = v
            self.note(v, body.ty(body.locals[i]))
        if self.on_enter:
            self.on_enter(self, st, nc, body)
        self.enter(nc, 0, st)
        return None

    on_enter = None

    def call_closure(self, st, ctx, bb, t, c, clo, args, wrap=None):
        """call closure value `clo` (maybe behind pointers) with untupled args"""
        v = clo
        ptr = None
        n = 0
        while v.op == "ptr" and n < 5:
            ptr = v
            v = self.read(st, v.a[0], v.a[1])
            n += 1
        if v.op == "fn":
            c2 = Call()
            for s in Call.__slots__:
                if hasattr(c, s):
                    setattr(c2, s, getattr(c, s))
            return self.call_value(st, ctx, bb, t, c2, v, args)
        if v.op == "agg" and v.a[0].startswith("{}"):
            body = self.body_of(v.a[0][2:])
            if body is not None:
                body.prep()
                k = body.ty(body.locals[1])["k"]
                if k == "ref":
                    if ptr is None:
                        base = mk("L", "clo", ctx.id, bb)
                        st.env[base] = v
                        ptr = mk("ptr", base, (), True)
                    a0 = ptr
                else:
                    a0 = v
                return self.inline(st, ctx, bb, t, c, body, [a0] + list(args), wrap=wrap)
        return self.opaque(st, ctx, bb, t, c, [clo] + list(args))

    def kill(self, st, site, nctx=None):
        """values born at this site (or inside the frame about to be re-entered) become old"""
        if nctx is not None:
            return
        key = site
        hit = [f for f in st.facts if key in sites(f)]
        for f in hit:
            del st.facts[f]
        hit = [f for f in st.ne if key in sites(f)]
        for f in hit:
            del st.ne[f]
        if st.ineqs and any(key in sites(a) for q in st.ineqs for a, _ in q[0]):
            st.ineqs = frozenset(q for q in st.ineqs if not any(key in sites(a) for a, _ in q[0]))
        ren = None
        for base, v in list(st.env.items()):
            if base.op == "M" and key in sites(base):
                del st.env[base]
                continue
            if key in sites(v):
                st.env[base] = age(v, key)

    def fresh(self, st, c, tag, *args):
        """opaque result born at this call site"""
        self.kill(st, c.site)
        return mk("opq", c.site, tag, *args)

    def opaque(self, st, ctx, bb, t, c, args):
        nm = c.res if (c.res and not c.name.startswith("std::")) else c.name
        if c.dty is not None and is_future_ty(c.dtname()) and "to" in t:
            r = agg("{fut}", c.name, [str(i) for i in range(len(args))], args)
            self.emit(st, ctx, bb, "mkfut", c.name, self.vals(st, args), result=r)
            self.write_dest(st, ctx, t["dest"], r)
            return ctx, t["to"]
        self.unknown[c.name] = self.unknown.get(c.name, 0) + 1
        vs = self.vals(st, args)
        self.kill(st, c.site)
        r = mk("opq", c.site, c.name, *vs)
        self.havoc(st, c, args)
        self.emit(st, ctx, bb, "call", c.name, vs, result=r)
        if "to" not in t:
            return None
        self.write_dest(st, ctx, t["dest"], r)
        return ctx, t["to"]

    def havoc(self, st, c, args):
        for i, a in enumerate(args):
            self._havoc(st, c, a, (i,), 0)

    def _havoc(self, st, c, a, path, d):
        if d > 4:
            return
        if a.op == "ptr":
            if a.a[2]:
                old = self.read(st, a.a[0], a.a[1])
                self._havoc(st, c, old, path + ("*",), d + 1)
                n = mk("opq", c.site, "out:" + c.name, path, self.val(st, old))
                if old.ty and isinstance(old.ty, str) and (old.ty.startswith("#arr") or old.ty in BITS):
                    n.ty = old.ty
                elif old.op == "agg" and old.a[0] == "array":
                    n.ty = "#arr:%d" % len(old.a[3])
                elif old.op in ("slice", "repeat", "len") or "[u8]" in "":
                    n = mk("samelen", n, length(old)) if False else n
                self.write(st, a.a[0], a.a[1], n)
            else:
                old = self.read(st, a.a[0], a.a[1])
                if old.op in ("agg", "ptr"):
                    self._havoc(st, c, old, path + ("&",), d + 1)
        elif a.op == "agg":
            for n, x in zip(a.a[2], a.a[3]):
                if has_ptr(x):
                    self._havoc(st, c, x, path + (n,), d + 1)


FORCE_MODEL = set()
DERIVABLE = {"std::clone::Clone::clone", "std::cmp::PartialEq::eq", "std::cmp::PartialEq::ne"}


def hash_sig(sig):
    return _sigid.setdefault(sig, len(_sigid))


_sigid = {}

import terms as _terms
_tab_ref = _terms._tab


def rebuild_has(m, k):
    from models import map_has
    return map_has(None, None, m, k)


def upd_root(t):
    ks = {}
    while t.op == "upd":
        ks.setdefault(t.a[1], t.a[2])
        t = t.a[0]
    return t, ks


def _normd(d, c):
    items = tuple(sorted(((k, v) for k, v in d.items() if v != 0), key=lambda kv: kv[0].id))
    return (items, c)


def seq_parts(t):
    """[part]: literal arrays are taken apart, one part per element"""
    if t.op == "concat":
        out = []
        for p in t.a[0]:
            q = seq_parts(p)
            out.extend(q if q is not None else [p])
        return out
    if t.op == "agg":
        return [agg("array", "", ["0"], [x]) for x in t.a[3]] if t.a[0] == "array" else None
    if t.op == "empty":
        return []
    return [t]


def seq_join(parts):
    return concat(*parts) if parts else mk("empty")


def seqlike(t):
    if t.op in ("slice", "repeat", "empty", "concat", "bytes", "str") or (t.op == "agg" and t.a[0] == "array"):
        return True
    if t.op == "upd" and t.a[1][0] in ("i", "s"):
        return True
    if t.ty and isinstance(t.ty, str) and t.ty.startswith("#arr:"):
        return True
    return ("len", ("T", t.id)) in _tab_ref


def lin_subst(q, sub):
    r = ((), q[1])
    for a, k in q[0]:
        b = sub.get(a)
        if b is None:
            b = subst(a, sub)
        r = lin_add(r, lin(b), k)
    return r


_ptrc = {}


def has_ptr(t):
    v = _ptrc.get(t.id)
    if v is None:
        v = contains(t, lambda x: x.op == "ptr")
        _ptrc[t.id] = v
    return v


_sites = {}


def sites(t):
    """call sites of the opaque values inside t"""
    r = _sites.get(t.id)
    if r is not None:
        return r
    s = set()
    if t.op == "opq":
        s.add(t.a[0])
    for x in kids(t):
        s |= sites(x)
    r = frozenset(s)
    _sites[t.id] = r
    return r


_phis = {}


INTOPS = {"c", "sum", "len", "lanes", "phi", "elem", "param", "f", "?", "byte", "bin", "mul"}


def phi_ids(t):
    r = _phis.get(t.id)
    if r is not None:
        return r
    s = set()
    if t.op == "phi":
        s.add(t.a[:3])
    else:
        for x in kids(t):
            s |= phi_ids(x)
    r = frozenset(s)
    _phis[t.id] = r
    return r


def kids(t):
    if t.op == "phi":
        return
    for x in t.a:
        if isinstance(x, Term):
            yield x
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, Term):
                    yield y
                elif isinstance(y, tuple):
                    for z in y:
                        if isinstance(z, Term):
                            yield z


def subterms_small(t):
    return subterms(t)


def rebuild(t, f):
    """rebuild t with f applied to its children (through the smart constructors)"""
    o = t.op
    if o in ("c", "phi", "param", "str", "bytes", "unit", "fn", "const", "static", "L", "zst", "undef", "moved", "empty", "constdata"):
        return t
    if o == "agg":
        return agg(t.a[0], t.a[1], t.a[2], [f(x) for x in t.a[3]])
    if o == "f":
        return field(f(t.a[0]), t.a[1], t.a[2])
    if o == "elem":
        return elem(f(t.a[0]), f(t.a[1]))
    if o == "slice":
        return slice_(f(t.a[0]), f(t.a[1]), f(t.a[2]))
    if o == "len":
        return length(f(t.a[0]))
    if o == "upd":
        k = t.a[1]
        k2 = tuple(f(x) if isinstance(x, Term) else x for x in k)
        return upd(f(t.a[0]), k2, f(t.a[2]))
    if o == "sum":
        r = ((), t.a[1])
        for a, k in t.a[0]:
            r = lin_add(r, lin(f(a)), k)
        return from_lin(r, t.ty)
    if o == "mul":
        r = f(t.a[0])
        for x in t.a[1:]:
            r = bmul(r, f(x), t.ty)
        return r
    if o == "eq":
        a, b = f(t.a[0]), f(t.a[1])
        if a is b:
            return TRUE
        if is_c(a) and is_c(b):
            return C(a.a[0] == b.a[0])
        if a.id > b.id:
            a, b = b, a
        r = mk("eq", a, b)
        r.ty = "bool"
        return r
    if o == "lt":
        a, b = f(t.a[0]), f(t.a[1])
        d = lin_sub(lin(a), lin(b))
        if not d[0]:
            return C(d[1] < 0)
        r = mk("lt", a, b)
        r.ty = "bool"
        return r
    if o == "not":
        return notop(f(t.a[0]))
    if o == "concat":
        return concat(*[f(x) for x in t.a[0]])
    if o == "lanes":
        return mk_lanes({s: f(b) for s, b in t.a[0]}, t.ty)
    if o == "cast":
        return cast_int(f(t.a[1]), None, t.a[0]) if t.a[0] in BITS else mk("cast", t.a[0], f(t.a[1]))
    if o == "bin":
        return binop(t.a[0], f(t.a[1]), f(t.a[2]), t.ty)
    if o == "mapget":
        return map_get(f(t.a[0]), f(t.a[1]))
    if o == "has":
        return map_has(None, None, f(t.a[0]), f(t.a[1]))
    if o == "discr":
        v = f(t.a[0])
        r = mk("discr", v)
        if t in Interp.discr_ty:
            Interp.discr_ty.setdefault(r, Interp.discr_ty[t])
        return r
    if o == "ptr":
        base = f(t.a[0])
        path = tuple(tuple(f(x) if isinstance(x, Term) else x for x in el) for el in t.a[1])
        return mk("ptr", base, path, t.a[2])
    args = []
    for x in t.a:
        if isinstance(x, Term):
            args.append(f(x))
        elif isinstance(x, tuple):
            args.append(tuple(f(y) if isinstance(y, Term) else (tuple(f(z) if isinstance(z, Term) else z for z in y) if isinstance(y, tuple) else y) for y in x))
        else:
            args.append(x)
    r = mk(o, *args)
    if r.ty is None:
        r.ty = t.ty
    return r


def subst(t, m):
    if not m:
        return t
    memo = {}
    ids = set(x.id for x in m)

    def go(x):
        y = m.get(x)
        if y is not None:
            return y
        r = memo.get(x.id)
        if r is None:
            r = rebuild(x, go)
            memo[x.id] = r
        return r
    return go(t)


def age(t, site):
    """rename the opaque values born at `site` into previous-generation values"""
    memo = {}

    def go(x):
        if site not in sites(x):
            return x
        r = memo.get(x.id)
        if r is None:
            if x.op == "opq" and x.a[0] == site:
                r = mk("old", x.a[1] if isinstance(x.a[1], str) else "?", x.id)
                r.ty = x.ty
                _sites[r.id] = frozenset()
                OLD[r] = x
            else:
                r = rebuild(x, go)
            memo[x.id] = r
        return r
    return go(t)


OLD = {}


def id_targs(x):
    return tuple(x)


def _upd_val(I, st, a, d):
    return upd(I.val(st, a.a[0], d + 1), a.a[1], I.val(st, a.a[2], d + 1))
