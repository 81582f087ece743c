"""Linear-inequality reasoning over terms (difference/polyhedral style, Fourier-Motzkin with caps)."""
from math import gcd
from terms import *

U64 = (1 << 64) - 1
ISIZE_MAX = (1 << 32) - 1024      # assumption: no buffer in memory reaches 4 GiB


def atom_bounds(a):
    """(lo, hi) constants known from the shape/type of an atom"""
    lo, hi = None, None
    if a.op == "len":
        return 0, ISIZE_MAX
    r = ty_range(a.ty)
    if r:
        lo, hi = r
    if a.op == "lanes":
        lo = 0
        hi = sum(255 << s for s, _ in a.a[0])
    if a.op == "byte":
        return 0, 255
    if a.op == "bin" and a.a[0] == "BitAnd":
        for x in (a.a[1], a.a[2]):
            if is_c(x) and x.a[0] >= 0:
                lo = 0
                hi = x.a[0] if hi is None else min(hi, x.a[0])
    if a.op in ("eq", "lt", "not"):
        return 0, 1
    if a.op == "discr":
        return 0, 255
    if a.op == "mul":
        l, h = 1, 1
        for x in a.a:
            xl, xh = atom_bounds(x)
            if xl is None or xl < 0:
                return lo, hi
            l *= xl
            h = None if (h is None or xh is None) else h * xh
        lo = l if lo is None else max(lo, l)
        if h is not None:
            hi = h if hi is None else min(hi, h)
    return lo, hi


def axioms(a):
    """extra linear facts about a compound atom: list of (items,c) meaning sum+c <= 0"""
    out = []
    if a.op == "bin" and a.a[0] == "Rem" and is_c(a.a[2]) and a.a[2].a[0] > 0 and (a.ty or "u")[0] == "u":
        out.append(lin_add(lin(a), ((), -(a.a[2].a[0] - 1))))       # a - (c-1) <= 0
        out.append(lin_sub(lin(a), lin(a.a[1])))                    # a <= x
    elif a.op == "bin" and a.a[0] == "Rem" and (a.ty or "i")[0] == "u":
        # a <= b - 1 (b > 0 was asserted by the compiler), a <= x
        out.append(lin_add(lin_sub(lin(a), lin(a.a[2])), ((), 1)))
        out.append(lin_sub(lin(a), lin(a.a[1])))
    elif a.op == "bin" and a.a[0] == "Div" and (a.ty or "i")[0] == "u":
        if is_c(a.a[2]) and a.a[2].a[0] > 0:
            c = a.a[2].a[0]
            out.append(lin_sub(lin_scale(lin(a), c), lin(a.a[1])))                      # c*q <= x
            out.append(lin_add(lin_sub(lin(a.a[1]), lin_scale(lin(a), c)), ((), -(c - 1))))  # x <= c*q + c-1
        else:
            out.append(lin_sub(lin(a), lin(a.a[1])))
    elif a.op == "call" and a.a[0] == "min":
        out.append(lin_sub(lin(a), lin(a.a[1])))
        out.append(lin_sub(lin(a), lin(a.a[2])))
    elif a.op == "call" and a.a[0] == "max":
        out.append(lin_sub(lin(a.a[1]), lin(a)))
        out.append(lin_sub(lin(a.a[2]), lin(a)))
    elif a.op == "call" and a.a[0] == "satsub":
        out.append(lin_sub(lin(a), lin(a.a[1])))
        out.append(lin_sub(lin_sub(lin(a.a[1]), lin(a.a[2])), lin(a)))  # x-y <= a
    return out


def neg(l):
    """not (l <= 0)  ==  l >= 1  ==  1 - l <= 0"""
    return lin_add(((), 1), l, -1)


def strongest(ineqs):
    """the inequalities in lowest terms, of those over the same terms only the strongest"""
    best = {}
    for items, c in ineqs:
        if not items:
            if c > 0:
                return [(items, c)]
            continue
        g = 0
        for _, v in items:
            g = gcd(g, abs(v))
        if g > 1:
            items = tuple((a, v // g) for a, v in items)
            c = -((-c) // g)   # sum*g + c <= 0  ->  sum <= floor(-c/g)
        if items not in best or best[items] < c:
            best[items] = c
    return list(best.items())


_strong = {}


def _gather(goal, ineqs, cap=60):
    """what may bear on the goal: inequalities over its terms, then those over the terms of these, ..."""
    pool = _strong.get(ineqs) if isinstance(ineqs, frozenset) else None
    if pool is None:
        pool = strongest(ineqs)
        if isinstance(ineqs, frozenset):
            if len(_strong) > 20000:
                _strong.clear()
            _strong[ineqs] = pool
    atoms = set(a for a, _ in goal[0])
    rel = []
    for q in pool:
        if not q[0]:
            return [q]
    used = set()
    new = atoms
    rounds = 0
    while new and rounds < 4:
        rounds += 1
        nxt = set()
        for a in new:
            for x in axioms(a):
                rel.append(x)
                nxt.update(b for b, _ in x[0])
        for i, q in enumerate(pool):
            if i not in used and any(b in new for b, _ in q[0]):
                used.add(i)
                rel.append(q)
                nxt.update(b for b, _ in q[0])
        new = nxt - atoms
        atoms = atoms | new
        if len(rel) > cap:
            break
    for a in atoms:
        lo, hi = atom_bounds(a)
        if lo is not None:
            rel.append((((a, -1),), lo))
        if hi is not None:
            rel.append((((a, 1),), -hi))
    return rel


def _infeasible(cons, cap=400):
    """Fourier-Motzkin over the rationals with integer tightening of single-atom bounds"""
    cur = set()
    for items, c in cons:
        if not items:
            if c > 0:
                return True
            continue
        g = 0
        for _, v in items:
            g = gcd(g, abs(v))
        if g > 1:
            items = tuple((a, v // g) for a, v in items)
            c = -((-c) // g)   # sum*g + c <= 0  ->  sum <= floor(-c/g)
        cur.add((items, c))
    while cur:
        # keep strongest per items
        best = {}
        for items, c in cur:
            if items not in best or best[items] < c:
                best[items] = c
        cur = set(best.items())
        cnt = {}
        for items, c in cur:
            for a, v in items:
                p, n = cnt.get(a, (0, 0))
                cnt[a] = (p + 1, n) if v > 0 else (p, n + 1)
        if not cnt:
            return any(c > 0 for _, c in cur)
        a = min(cnt, key=lambda x: (cnt[x][0] * cnt[x][1] - cnt[x][0] - cnt[x][1], x.id))
        pos = [(i, c) for i, c in cur if any(x is a and v > 0 for x, v in i)]
        ng = [(i, c) for i, c in cur if any(x is a and v < 0 for x, v in i)]
        ps, ns = set(pos), set(ng)
        rest = {q for q in cur if q not in ps and q not in ns}
        for p in pos:
            cp = dict(p[0])[a]
            for n in ng:
                cn = -dict(n[0])[a]
                r = lin_add(lin_scale(p, cn), lin_scale(n, cp))
                if not r[0]:
                    if r[1] > 0:
                        return True
                    continue
                g = 0
                for _, v in r[0]:
                    g = gcd(g, abs(v))
                if g > 1:
                    r = (tuple((x, v // g) for x, v in r[0]), -((-r[1]) // g))
                rest.add(r)
        if len(rest) > cap:
            return False
        cur = rest
    return False


_memo = {}


def entails_le0(ineqs, goal):
    """do the inequalities (each <= 0) imply goal <= 0 ?"""
    if not goal[0]:
        return goal[1] <= 0
    # quick: type bounds only
    hi = goal[1]
    ok = True
    for a, v in goal[0]:
        lo_, hi_ = atom_bounds(a)
        b = hi_ if v > 0 else lo_
        if b is None:
            ok = False
            break
        hi += v * b
    if ok and hi <= 0:
        return True
    rel = _gather(goal, ineqs)
    k = (goal, frozenset(rel))
    r = _memo.get(k)
    if r is None:
        r = _infeasible(rel + [neg(goal)])
        if len(_memo) > 200000:
            _memo.clear()
        _memo[k] = r
    return r


def interval(ineqs, t):
    """cheap constant interval of a term from type bounds and single-atom inequalities"""
    l = lin(t)
    lo = hi = l[1]
    for a, v in l[0]:
        al, ah = atom_bounds(a)
        for items, c in ineqs:
            if len(items) == 1 and items[0][0] is a:
                k = items[0][1]
                if k > 0:
                    b = (-c) // k
                    ah = b if ah is None else min(ah, b)
                else:
                    b = (c - k - 1) // (-k)
                    al = b if al is None else max(al, b)
        x, y = (al, ah) if v > 0 else (ah, al)
        lo = None if (lo is None or x is None) else lo + v * x
        hi = None if (hi is None or y is None) else hi + v * y
    return lo, hi


def interval1(ineqs, x):
    """interval of one atom, also through inequalities with other atoms whose intervals are known"""
    lo, hi = interval(ineqs, x)
    for items, c in ineqs:
        if len(items) < 2:
            continue
        k = None
        rest = c            # lowest value of the other items: k*x <= -rest
        for a, v in items:
            if a is x:
                k = v
                continue
            al, ah = interval(ineqs, a)
            b = al if v > 0 else ah
            if b is None:
                rest = None
                break
            rest += v * b
        if k is None or rest is None:
            continue
        if k > 0:
            b = (-rest) // k
            hi = b if hi is None else min(hi, b)
        else:
            b = -((-rest) // (-k))
            lo = b if lo is None else max(lo, b)
    return lo, hi
