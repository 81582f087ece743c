"""Loading of the JSON facts and per-body graph preparation."""
import json

LOGM = ("warn", "error", "info", "debug", "trace")


class Body:
    def __init__(self, j, prog):
        self.j = j
        self.prog = prog
        self.key = j["key"]
        self.argc = j["argc"]
        self.locals = j["locals"]
        self.blocks = j["blocks"]
        self.kind = j.get("kind", "")
        self.coroutine = j.get("coroutine", False)
        self.impl_self = j.get("impl_self")
        self.impl_trait = j.get("impl_trait")
        self.is_async = j.get("is_async", False)
        self.sp = j["sp"]
        self._prep = False
        self.promoted = j.get("promoted", [])
        self._prom = {}

    # lazily computed -----------------------------------------------------
    def prep(self):
        if self._prep:
            return self
        self._prep = True
        n = len(self.blocks)
        succ = [[] for _ in range(n)]
        for i, b in enumerate(self.blocks):
            succ[i] = list(term_succ(b["term"]))
        self.succ = succ
        preds = [0] * n
        seen = [False] * n
        order = []
        st = [(0, iter(succ[0]))]
        seen[0] = True
        while st:
            x, it = st[-1]
            for y in it:
                if not seen[y]:
                    seen[y] = True
                    st.append((y, iter(succ[y])))
                    break
            else:
                order.append(x)
                st.pop()
        order.reverse()
        self.rpo = [n + 1] * n
        for k, x in enumerate(order):
            self.rpo[x] = k
            for y in succ[x]:
                preds[y] += 1
        self.preds = preds
        self.reach = seen
        # natural loop headers: target of a back edge by rpo
        self.headers = set(y for x in order for y in succ[x] if self.rpo[y] <= self.rpo[x])
        # loop-last ordering: blocks outside a loop must come after the blocks of the loop
        self._loop_order(order, n)
        self._liveness(order, n)
        self.consts = set()
        for i in order:
            b = self.blocks[i]
            for st_ in b["st"]:
                if st_["s"] == "=" and st_["rv"]["r"] == "bin" and st_["rv"]["op"] in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                    for k in ("a", "b"):
                        o = st_["rv"][k]
                        if o["o"] == "const" and ("sv" in o or "v" in o):
                            try:
                                self.consts.add(int(o.get("sv", o.get("v"))))
                            except (TypeError, ValueError):
                                pass
            t_ = b["term"]
            if t_["t"] == "switch" and self.prog.types[t_["aty"]]["k"] in ("uint", "int"):
                for a_, _ in t_["targets"]:
                    self.consts.add(int(a_))
        self.consts = {v for v in self.consts if -(1 << 62) < v < (1 << 62)}
        self.noise = [is_noise(b["term"]["sp"][3]) for b in self.blocks]
        self.names = {}
        for nm, pl, arg in self.j["names"]:
            if not pl[1]:
                self.names.setdefault(pl[0], nm)
        self.upvar_names = {}
        for nm, pl, arg in self.j["names"]:
            if pl[0] == 1 and pl[1]:
                fs = [e for e in pl[1] if e[0] == "f"]
                if fs:
                    self.upvar_names.setdefault(fs[0][2], nm)
        return self

    def _loop_order(self, order, n):
        """Order blocks so that a loop's blocks precede the blocks reached only by leaving it."""
        import sys
        succ = self.succ
        # SCC-recursive (Bourdoncle-like weak topological order)
        pos = {}
        cnt = [0]

        def scc(nodes, entry_hint):
            nodes = set(nodes)
            idx, low, on, stk, out = {}, {}, set(), [], []
            c = [0]
            rp = sorted(nodes, key=lambda x: self.rpo[x])
            for r in rp:
                if r in idx:
                    continue
                work = [(r, iter([y for y in succ[r] if y in nodes]))]
                idx[r] = low[r] = c[0]; c[0] += 1
                stk.append(r); on.add(r)
                while work:
                    x, it = work[-1]
                    adv = False
                    for y in it:
                        if y not in idx:
                            idx[y] = low[y] = c[0]; c[0] += 1
                            stk.append(y); on.add(y)
                            work.append((y, iter([z for z in succ[y] if z in nodes])))
                            adv = True
                            break
                        elif y in on:
                            low[x] = min(low[x], idx[y])
                    if adv:
                        continue
                    work.pop()
                    if work:
                        p = work[-1][0]
                        low[p] = min(low[p], low[x])
                    if low[x] == idx[x]:
                        comp = []
                        while True:
                            y = stk.pop(); on.discard(y); comp.append(y)
                            if y == x:
                                break
                        out.append(comp)
            out.reverse()  # topological
            for comp in out:
                if len(comp) == 1:
                    pos[comp[0]] = cnt[0]; cnt[0] += 1
                else:
                    head = min(comp, key=lambda x: self.rpo[x])
                    pos[head] = cnt[0]; cnt[0] += 1
                    rest = [x for x in comp if x != head]
                    scc(rest, head)

        scc(order, 0)
        for x in order:
            self.rpo[x] = pos[x]

    def _liveness(self, order, n):
        use = [None] * n
        de = [None] * n
        for i in order:
            u, d = set(), set()
            b = self.blocks[i]

            def rd(l):
                if l not in d:
                    u.add(l)

            def rplace(p):
                rd(p[0])
                for e in p[1]:
                    if e[0] == "idx":
                        rd(e[1])

            def rop(o):
                if o["o"] in ("copy", "move"):
                    rplace(o["p"])

            def wplace(p):
                if not p[1]:
                    d.add(p[0])
                else:
                    rplace(p)

            for s in b["st"]:
                if s["s"] == "=":
                    r = s["rv"]
                    for k in ("a", "b"):
                        if k in r:
                            rop(r[k])
                    if "p" in r:
                        rplace(r["p"])
                    for o in r.get("ops", ()):
                        rop(o)
                    wplace(s["p"])
                elif s["s"] == "setdiscr":
                    rplace(s["p"])
            t = b["term"]
            k = t["t"]
            if k == "switch":
                rop(t["a"])
            elif k == "call":
                rop(t["f"])
                for o in t["args"]:
                    rop(o)
                wplace(t["dest"])
            elif k == "assert":
                rop(t["cond"])
            elif k == "yield":
                rop(t["a"])
                wplace(t["dest"])
            elif k == "return":
                rd(0)
            use[i], de[i] = u, d
        livein = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for i in reversed(order):
                o = set()
                for y in self.succ[i]:
                    o |= livein[y]
                new = use[i] | (o - de[i])
                if new != livein[i]:
                    livein[i] = new
                    ch = True
        self.livein = livein
        taken = set()
        for b in self.blocks:
            for s in b["st"]:
                if s["s"] == "=" and s["rv"]["r"] in ("ref", "rawptr"):
                    p = s["rv"]["p"]
                    if not any(e[0] == "deref" for e in p[1]):
                        taken.add(p[0])
        self.taken = taken
        self.deadin = [frozenset(l for l in range(len(self.locals)) if l not in li and l not in taken) for li in livein]

    def tystr(self, l):
        return self.prog.types[l]["s"]

    def ty(self, i):
        return self.prog.types[i]


def is_noise(macs):
    if not macs:
        return False
    return any(m in LOGM for m in macs) or "tracing::span" in macs or "instrument" in macs and any(
        m.startswith("$crate::") for m in macs)


def term_succ(t):
    k = t["t"]
    if k in ("goto", "drop", "assert", "yield"):
        yield t["to"]
    elif k == "switch":
        seen = set()
        for _, b in t["targets"]:
            if b not in seen:
                seen.add(b)
                yield b
        if t["otherwise"] not in seen:
            yield t["otherwise"]
    elif k == "call":
        if "to" in t:
            yield t["to"]


class Program:
    def __init__(self, path, name):
        d = json.load(open(path))
        self.name = name
        self.types = d["types"]
        self.adts = d["adts"]
        self.unsafe = d["unsafe"]
        self.bodies = {}
        for j in d["bodies"]:
            self.bodies[j["key"]] = Body(j, self)
        self.closures = {}
        self.impls = {}
        for b in self.bodies.values():
            if b.impl_trait:
                m = b.key.rsplit("::", 1)[-1]
                self.impls.setdefault((b.impl_trait, m), []).append(b)

    def adt(self, name):
        a = self.adts.get(name)
        if a is None and name and "#" not in name:
            if self._plain is None:
                self._plain = {k.split("#")[0]: v for k, v in self.adts.items()}
            a = self._plain.get(name)
        return a

    _plain = None

    def promoted_body(self, body, i):
        k = (body.key, i)
        if i not in body._prom:
            body._prom[i] = Body(body.promoted[i], self)
        return body._prom[i]
