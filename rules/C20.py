"""The guards of locks that each function, closure and coroutine may hold at every call and wait (a dataflow over initialised locals), compared
with the locks that the callee may take (over the call graph)."""
from init import maybe_init

GUARDS = ("std::sync::MutexGuard<", "std::sync::RwLockReadGuard<", "std::sync::RwLockWriteGuard<", "std::sync::mutex::MutexGuard<")
TAKES = ("std::sync::Mutex::<T>::lock", "std::sync::RwLock::<T>::read", "std::sync::RwLock::<T>::write")


def payload(s):
    """what the lock that a type's guard belongs to protects"""
    for g in GUARDS:
        if g in s:
            t = s[s.index(g) + len(g):]
            t = t[t.index(",") + 1:].strip() if t.startswith("'") else t
            d = 0
            for i, c in enumerate(t):
                d += (c == "<") - (c == ">" and t[i - 1] != "-")
                if d < 0:
                    return t[:i]
            return t
    return None


def holds(b, l):
    t = b.ty(b.locals[l])
    if t.get("k") not in ("adt", "tuple") or "&" in t["s"].split("std::sync::")[0]:
        return None
    return payload(t["s"])


def check(r):
    r.rule("no lock's guard may be held at a wait, nor at a call that may take the same lock, or one in another order than elsewhere")
    g = r.graph
    takes = {}

    def direct(k):
        b = r.prog.bodies[k]
        out = set()
        for blk in b.blocks:
            t = blk["term"]
            if t["t"] == "call" and not blk.get("cleanup") and not t["dest"][1]:
                p = payload(b.tystr(b.locals[t["dest"][0]]))
                if p and t["f"].get("fn", "").split("::")[-1] in ("lock", "read", "write", "try_lock", "try_read", "try_write"):
                    out.add(p)
        return out
    for k in r.prog.bodies:
        takes[k] = direct(k)
    order, n, sites = {}, 0, 0
    for k, b in sorted(r.prog.bodies.items()):
        if b.locals is None:
            continue
        gs = {l: holds(b, l) for l in range(1, len(b.locals)) if holds(b, l)}
        if not gs:
            continue
        r.cover("functions", k)
        at = maybe_init(b, gs)
        for i, held in sorted(at.items()):
            t = b.blocks[i]["term"]
            ps = {gs[l] for l in held if l in gs}
            if not ps or b.blocks[i].get("cleanup"):
                continue
            sp = t.get("sp") or b.sp
            where = "%s:%s in %s" % (sp[0], sp[1], k)
            if t["t"] == "yield":
                n += 1
                r.oblige(False, "wait:%s" % k, "a lock is held while waiting: that of %s" % ", ".join(sorted(ps)), where)
            if t["t"] != "call":
                continue
            sites += 1
            wants = set()
            name = t["f"].get("fn", "")
            if not t["dest"][1] and name.split("::")[-1] in ("lock", "read", "write"):
                p = payload(b.tystr(b.locals[t["dest"][0]]))
                if p:
                    wants.add(p)
            callees = {x for x in (t["f"].get("res"), name) if x in r.prog.bodies}
            for o in [t["f"]] + list(t["args"]):
                if isinstance(o, dict) and o.get("o") in ("move", "copy"):
                    d = b.ty(b.locals[o["p"][0]]).get("def")
                    if d in r.prog.bodies and "{closure#" in d:
                        callees.add(d)
                elif isinstance(o, dict):
                    callees |= {x for x in (o.get("res"), o.get("fn")) if x in r.prog.bodies}
            for c in callees:
                for x in g.reach(c):
                    wants |= takes.get(x, set())
            r.oblige(not wants & ps, "nested:%s" % k, "a lock is taken while it is held: that of %s" % ", ".join(sorted(wants & ps)), where)
            for p in ps:
                for w in wants - ps:
                    order.setdefault((p, w), where)
    for (p, w), where in sorted(order.items()):
        # another lock of the same kind of thing may be another lock; two kinds in both orders are a cycle
        r.oblige((w, p) not in order, "order:%s:%s" % (p, w), "two locks are taken in different orders: those of %s and %s (also %s)" % (p, w, order.get((w, p))), where)
    locks = {p for v in takes.values() for p in v}
    for p in sorted(locks):
        r.cover("locks", p)
    r.oblige(bool(locks) and sites > 0, "anchor:locks", "no lock, or no call made while one is held, found", "")
