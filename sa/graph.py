"""Call graph over the dumped MIR and anchors that do not depend on the names of private functions."""
from program import is_noise, term_succ


def rv_ops(rv):
    for k in ("a", "b", "op"):
        o = rv.get(k)
        if isinstance(o, dict) and "o" in o:
            yield o
    for o in rv.get("ops", ()):
        if isinstance(o, dict) and "o" in o:
            yield o


class Site:
    """one call in the source"""
    __slots__ = ("body", "bb", "term", "name", "res", "noise", "targs")

    def __init__(self, body, bb, term):
        self.body, self.bb, self.term = body, bb, term
        f = term["f"]
        self.name = f.get("fn", "?")
        self.res = f.get("res")
        self.targs = f.get("targs", [])
        self.noise = is_noise(term["sp"][3])

    @property
    def where(self):
        sp = self.term["sp"]
        return "%s:%d in %s" % (sp[0], sp[1], self.body.key)

    @property
    def args(self):
        return self.term["args"]

    def tystr(self, i):
        return self.body.tystr(self.targs[i])

    def argty(self, i):
        a = self.term.get("atys", ())
        return self.body.tystr(a[i]) if i < len(a) else None


class Graph:
    def __init__(self, prog):
        self.prog = prog
        self.sites = {}        # body key -> [Site]
        self.edges = {}        # body key -> set(body key): calls, closures and coroutines created
        self.ext = {}          # body key -> set(external names called)
        bodies = prog.bodies
        for key, b in bodies.items():
            ss, ed, ex = [], set(), set()
            for i, blk in enumerate(b.blocks):
                if blk.get("cleanup"):
                    continue
                for s in blk["st"]:
                    rv = s.get("rv")
                    if not rv:
                        continue
                    if rv["r"] == "agg":
                        d = rv.get("def") or rv.get("kind")
                        if isinstance(d, str) and d in bodies:
                            ed.add(d)
                    for o in rv_ops(rv):
                        if o.get("o") == "const":
                            if o.get("res") in bodies:
                                ed.add(o["res"])
                            elif o.get("fn") in bodies:
                                ed.add(o["fn"])
                            elif "fn" in o:
                                ex.add(o["fn"])
                t = blk["term"]
                if t["t"] == "call":
                    s = Site(b, i, t)
                    ss.append(s)
                    if s.res in bodies:
                        ed.add(s.res)
                    elif s.name in bodies:
                        ed.add(s.name)
                    else:
                        ex.add(s.name)
                        if s.res:
                            ex.add(s.res)
                        f = t["f"]
                        if f.get("trait") and "fn" in f:
                            meth = s.name.rsplit("::", 1)[-1]
                            if f.get("reskind") == "virtual":
                                for c in prog.impls.get((f["trait"], meth), ()):
                                    ed.add(c.key)
                    for a in t["args"]:
                        if a.get("o") == "const":
                            if a.get("res") in bodies:
                                ed.add(a["res"])
                            elif a.get("fn") in bodies:
                                ed.add(a["fn"])
            # an async fn creates its coroutine; a coroutine body is the child closure
            self.sites[key], self.edges[key], self.ext[key] = ss, ed, ex
        for key in bodies:
            par = key.rsplit("::{closure#", 1)[0]
            if par != key and par in bodies:
                self.edges[par].add(key)
        self._reach = {}
        self.tasks = {d: s for s, d in self.spawned() if d}
        self.callers = {}
        for k, es in self.edges.items():
            for e in es:
                self.callers.setdefault(e, set()).add(k)

    def reach(self, key):
        r = self._reach.get(key)
        if r is None:
            r = {key}
            wl = [key]
            while wl:
                for y in self.edges.get(wl.pop(), ()):
                    # a spawned coroutine is a task of its own
                    if y not in r and y not in self.tasks:
                        r.add(y)
                        wl.append(y)
            self._reach[key] = r
        return r

    def task(self, *ext):
        """the spawned coroutines that themselves reach all of the given external functions"""
        return sorted(d for d in self.tasks if all(e in self.reach_ext(d) for e in ext))

    def reach_ext(self, key):
        out = set()
        for k in self.reach(key):
            out |= self.ext[k]
        return out

    def calls(self, pred, within=None):
        """every non-logging call site whose name satisfies pred"""
        for k in (within if within is not None else self.sites):
            for s in self.sites[k]:
                if not s.noise and (pred(s.name) or (s.res and pred(s.res))):
                    yield s

    def spawned(self):
        """coroutines given to tokio::spawn: (site, coroutine key)"""
        out = []
        for s in self.calls(lambda n: n == "tokio::spawn"):
            ty = s.body.ty(s.term["atys"][0]) if s.term.get("atys") else {}
            d = ty.get("def")
            out.append((s, d))
        return out
