"""Abstract run of the code that prepares the storage of a torrent, with the flag of each DirBuilder followed: every operation that makes a
directory is recorded with its path and its outcome, every removal is compared with them.  Every call in the program of an operation that
removes, renames or truncates is enumerated and has to be one of the removals followed."""
import C06
from common import *
from udp import Obs

ASSUMPTIONS = ["creating a directory non-recursively fails if anything of that name exists (mkdir(2))",
               "nobody else puts files into a directory between its creation and its removal a moment later"]
REMOVE = ("remove_dir_all", "remove_dir", "remove_file", "rename", "set_len", "truncate")
MAKE = ("create_dir", "create_dir_all")


def base_name(c):
    n = c.res or c.name
    return n if n.startswith(("tokio::fs::", "std::fs::", "async_std::fs")) else ""


class Dirs(Obs):
    def conf(self, I):
        self.I = I
        I.on_call, I.before_await, I.on_result = self.call, self.waits, self.result
        I.maxsig = 300
        self.seen = set()
        for n in ("tokio::fs::DirBuilder::recursive", "std::fs::DirBuilder::recursive"):
            I.call_models[n] = self.flag
        I.await_models = dict(getattr(I, "await_models", {}))
        import models
        for n in ("tokio::fs::DirBuilder::create", "tokio::fs::create_dir", "tokio::fs::create_dir_all", "tokio::fs::remove_dir_all", "tokio::fs::remove_dir", "tokio::fs::remove_file"):
            I.await_models[n] = models.a_result

    def flag(self, I, st, c, args):
        import models
        p = models.innermost(I, st, args[0])
        base, path = I.deref(p)
        st.env[mk("G", "recursive", base)] = I.val(st, args[1])
        return p

    def call(self, I, st, c, args):
        n = base_name(c)
        last = n.split("::")[-1]
        if not n:
            return
        if "DirBuilder" in n and last == "create":
            import models
            base, _ = I.deref(models.innermost(I, st, args[0]))
            rec = st.env.get(mk("G", "recursive", base), C(0))
            self.makes(I, st, c, I.val(st, args[1]), rec is not C(0))
        elif last in MAKE:
            self.makes(I, st, c, I.val(st, args[0]), last == "create_dir_all")
        elif last in REMOVE:
            if I.recording:
                self.seen.add((c.ctx.body.key, c.bb))
            t = I.val(st, args[-1] if last != "rename" else args[0])
            if last.startswith("remove"):
                made = st.env.get(mk("G", "made", t)) is C(1)
                self.oblige(I, c.ctx, c.bb, made, "remove:made", "a directory is removed that needn't have been made by this call: %s" % show(t)[:80])
                self.oblige(I, c.ctx, c.bb, bool(st.mon.get("failed")), "remove:failed", "a directory is removed although nothing failed")
                st.mon["undone"] = "1"
            else:
                self.oblige(I, c.ctx, c.bb, False, "remove:" + last, "existing data is changed by %s" % last)

    def makes(self, I, st, c, t, rec):
        self.oblige(I, c.ctx, c.bb, not rec or st.mon.get("made"), "make:new", "the directory of a torrent may exist already: it is made by an operation that doesn't mind")
        st.env[mk("G", "making", C(0))] = t
        st.mon["making"] = "again" if rec else "new"

    def waits(self, I, st, c, name):
        pass

    def result(self, I, st, c, name, v):
        last = name.split("::")[-1]
        if not (last in MAKE or "DirBuilder" in name and last == "create"):
            return
        t = st.env.get(mk("G", "making", C(0)))
        new = st.mon.pop("making", None) == "new"
        ok = v.op == "agg" and v.a[1] == "Ok"
        if ok and t is not None:
            if new:
                st.env[mk("G", "made", t)] = C(1)
            if not st.mon.get("failed"):
                st.mon["made"] = "1"
        elif not ok:
            st.mon["failed"] = "1"


def check(r):
    r.rule("a directory is removed only if a non-recursive creation of the same path succeeded before in the same call, and a later one failed")
    seen = set()
    O = Dirs(r)
    for adt, new in sorted(C06.IMPLS.items()):
        if new not in r.prog.bodies:
            r.oblige(False, "new:" + adt, "%s is gone" % new, adt)
            continue
        # what the constructor calls tells whether errors get out
        used = {s.res for s in r.graph.sites.get(new, ()) if s.res}
        roots = [new] + sorted(k for k in r.prog.bodies if k.split("::{")[0] in used and k.count("{") == (1 if k.split("::{")[0] + "::{closure#0}" in r.prog.bodies and r.prog.bodies[k.split("::{")[0] + "::{closure#0}"].coroutine else 0) and makes(r, k))
        for k in roots:
            I = r.engine(k, conf=O.conf, tag="dirs")
            for f in sorted(I.inlined):
                r.cover("functions", f)
            seen |= O.seen
            for v, st, e in returns(I):
                err = v.op == "agg" and v.a[1] == "Err"
                r.oblige(not st.mon.get("failed") or err, "error:kept", "the storage is used although making one of its directories failed", k)
                if k != new or v.op == "agg" and v.a[0].endswith("Result"):
                    r.oblige(not err or not st.mon.get("made") or st.mon.get("undone"), "undone", "directories that were made are left behind when a later one can't be made", k)
                r.cover("ways out", "%s: %s" % (k, "error" if err else "success"))
    O.flush("", {"make:new": "makes directories"})
    for k, ss in r.graph.sites.items():
        for s in ss:
            n = s.res or s.name
            if n.startswith(("tokio::fs::", "std::fs::")) and n.split("::")[-1] in REMOVE:
                r.cover("removals", "%s in %s" % (n, k))
                r.oblige(any(k == a for a, b in seen), "other:%s" % k, "%s removes or changes what exists: %s" % (k, n), k)


def makes(r, k):
    return any(e.startswith(("tokio::fs::", "std::fs::")) and (e.split("::")[-1] in MAKE or "DirBuilder" in e and e.endswith("::create")) for e in r.graph.reach_ext(k))
