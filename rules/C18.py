"""Every local that is given a value holding a future (by an async function or block, or a library call) is followed through moves to other
locals; one whose value is never borrowed, passed on, stored or returned is dropped without ever having been polled."""

MAKES = ("impl std::future::Future", "{async ", "dyn std::future::Future")
DROPS = ("std::mem::drop", "std::mem::forget", "core::mem::drop", "core::mem::forget")


def future(b, l):
    """local l holds a future by value"""
    t = b.ty(b.locals[l])
    return t.get("k") in ("coroutine", "alias", "adt", "tuple") and any(x in t["s"] for x in MAKES) and "&mut " not in t["s"].split("impl std::future")[0] and not t["s"].startswith(("std::task::Poll", "std::ops::ControlFlow", "std::pin::Pin<&"))


def operands(x):
    """every place and operand in a statement or terminator: (place, is it a whole move?)"""
    if isinstance(x, dict):
        if x.get("o") in ("move", "copy"):
            yield x["p"], x["o"] == "move" and not x["p"][1]
            return
        if isinstance(x.get("p"), list) and "r" in x:
            yield x["p"], False
        for k, v in x.items():
            if k not in ("sp", "dest"):
                yield from operands(v)
    elif isinstance(x, list):
        for v in x:
            yield from operands(v)


def uses(b):
    """local -> ([where it's used for real], [locals it is moved to], [where it is made])"""
    out = {}
    u = lambda l: out.setdefault(l, ([], [], []))
    for i, blk in enumerate(b.blocks):
        if blk.get("cleanup"):
            continue
        for s in blk["st"]:
            if s["s"] != "=":
                continue
            l, proj = s["p"]
            rv = s["rv"]
            move = rv["r"] == "use" and not proj
            for p, whole in operands(rv):
                if move and whole:
                    u(p[0])[1].append(l)
                else:
                    u(p[0])[0].append(i)
            if not proj and rv["r"] == "agg":
                u(l)[2].append((i, s.get("sp") or b.sp))
            if proj:
                u(l)[0].append(i)
        t = blk["term"]
        if t["t"] == "call":
            name = t["f"].get("fn", "")
            for a in [t["f"]] + list(t["args"]):
                for p, whole in operands(a):
                    if not (whole and name in DROPS):
                        u(p[0])[0].append(i)
            if not t["dest"][1]:
                u(t["dest"][0])[2].append((i, t.get("sp") or b.sp))
        elif t["t"] != "drop":
            for p, whole in operands({k: v for k, v in t.items() if k != "t"}):
                u(p[0])[0].append(i)
    return out


def check(r):
    r.rule("a future is made only to be polled: what holds it is borrowed, passed on, stored or returned on the way from there")
    n = 0
    for k, b in sorted(r.prog.bodies.items()):
        if "::_::" in k or b.locals is None:
            continue
        us = None
        for l in range(1 + b.argc, len(b.locals)):
            if not future(b, l):
                continue
            us = us or uses(b)
            if l not in us or not us[l][2]:
                continue
            seen, todo, used = set(), [l], False
            while todo and not used:
                x = todo.pop()
                if x in seen:
                    continue
                seen.add(x)
                a = us.get(x, ([], [], []))
                used = bool(a[0]) or x == 0
                todo += a[1]
            n += 1
            sp = us[l][2][0][1]
            r.oblige(used, "dropped:%s" % k, "a future is dropped without having been awaited", "%s:%s in %s: %s" % (sp[0], sp[1], k, b.tystr(b.locals[l])[:120]))
        if us:
            r.cover("functions", k)
    r.oblige(n > 50, "anchor:futures", "only %d futures found" % n, "")
