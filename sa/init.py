"""Which locals of a body may hold a value (forward, maybe-initialised, moves of whole locals and drops end it; of those in part, moves out of
a field too)."""
from program import term_succ


def effects(b, i, part=()):
    """[(local, becomes initialised?)] in the order they happen in block i, before its terminator"""
    out = []

    def op(o):
        if isinstance(o, dict) and o.get("o") == "move" and (not o["p"][1] or o["p"][0] in part):
            out.append((o["p"][0], False))
    for s in b.blocks[i]["st"]:
        if s["s"] == "=":
            rv = s["rv"]
            for k in ("a", "b", "op"):
                op(rv.get(k))
            for o in rv.get("ops", ()):
                op(o)
            if not s["p"][1]:
                out.append((s["p"][0], True))
        elif s["s"] == "dead":
            out.append((s["l"], False))
    return out


def term_effects(b, i, part=()):
    t = b.blocks[i]["term"]
    out = []
    if t["t"] == "call":
        for o in [t["f"]] + list(t["args"]):
            if isinstance(o, dict) and o.get("o") == "move" and (not o["p"][1] or o["p"][0] in part):
                out.append((o["p"][0], False))
        if not t["dest"][1]:
            out.append((t["dest"][0], True))
    elif t["t"] == "drop" and not t["p"][1]:
        out.append((t["p"][0], False))
    elif t["t"] == "yield" and not t["dest"][1]:
        out.append((t["dest"][0], True))
    return out


def apply(s, eff):
    s = set(s)
    for l, on in eff:
        (s.add if on else s.discard)(l)
    return s


def maybe_init(b, part=()):
    """block -> locals that may be initialised at its terminator (before it takes effect)"""
    n = len(b.blocks)
    inn = [None] * n
    inn[0] = set(range(1, b.argc + 1))
    at = {}
    wl = [0]
    while wl:
        i = wl.pop()
        x = apply(inn[i], effects(b, i, part))
        at[i] = x
        o = apply(x, term_effects(b, i, part))
        for y in term_succ(b.blocks[i]["term"]):
            if b.blocks[y].get("cleanup"):
                continue
            if inn[y] is None:
                inn[y] = set(o)
                wl.append(y)
            elif not o <= inn[y]:
                inn[y] |= o
                wl.append(y)
    return at
