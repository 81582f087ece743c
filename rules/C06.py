"""Abstract runs of the decoders of a torrent's metainfo: where Ok is returned, the facts of the state must say of the name, and of each
element of each path, that it's one plain component.  Abstract runs of the code that stores a torrent: the path given to each operation
that creates, opens or removes a file or directory is a term, which must spell base directory / name of the torrent / elements of the path
of a file.  Every call of such an operation in the program has to be among those."""
import metainfo
from metainfo import Paths, below, norm, separate, show_path
from common import *

ASSUMPTIONS = ["paths follow POSIX: components are separated by `/`", "symbolic links in the directory of a torrent are the user's"]
FS = ("tokio::fs::", "std::fs::")
SINK = ("create", "create_new", "create_dir", "create_dir_all", "remove_dir", "remove_dir_all", "remove_file", "rename", "write", "copy", "hard_link", "symlink", "set_permissions", "open", "mkdir")
IMPLS = {"fs::single_file_rw::SingleFileRw": "fs::single_file_rw::SingleFileRw::new", "fs::multi_file_rw::MultiFileRw": "fs::multi_file_rw::MultiFileRw::new::{closure#0}"}


def names(r):
    I, oks, obj = metainfo.run(r, "Info")
    for x, st in oks:
        w = metainfo.not_plain(I, st, x["name"])
        r.oblige(w is None, "name:%s" % w, "a torrent is accepted whose name may be %s" % w if w and not w.startswith("have") else "a torrent is accepted whose name may %s" % w, metainfo.key("Info"))
    r.cover("ways a torrent is accepted", len(oks))
    obj = mk("param", metainfo.key("File"), 1)
    ch = metainfo.Checked(lambda I, s: metainfo.entry_of(s, obj, "path"))
    I, oks, obj = metainfo.run(r, "File", ch.conf)
    for x, st in oks:
        p = x["path"]
        ok = metainfo.entry_of(p, obj, "path") or all(metainfo.entry_of(y, obj, "path") for y in metainfo.values(I, p))
        r.oblige(ok, "path:what", "the path that is kept isn't the one of the metainfo but %s" % show(p)[:120], metainfo.key("File"))
        w = ch.why(I, st, p)
        r.oblige(w is None, "path:names", "a file is accepted although %s" % w, metainfo.key("File"))
        n = length(p)
        r.oblige(lt(st, C(0), n) or I.truth(st, mk("eq", C(0), n)) == 0, "path:empty", "a file is accepted whose path may be empty", metainfo.key("File"))
    r.cover("ways a file is accepted", len(oks))
    # nothing else makes an Info or a File
    for k, b in r.prog.bodies.items():
        for blk in b.blocks:
            for s in blk["st"]:
                if s["s"] == "=" and s["rv"]["r"] == "agg" and str(s["rv"].get("def") or "") in (metainfo.MI + "Info", metainfo.MI + "File"):
                    r.oblige(k.startswith("<" + metainfo.MI) and ("FromBencode" in k or "Clone" in k), "built:%s" % k, "%s makes up metainfo that wasn't checked" % k, k)


def inside(r, I, t, base, name, where, what):
    """base / name / elements of paths"""
    for p in Paths(I).alts(t):
        p = norm(p)
        ok = len(p) >= 3 and p[0] == ("val", base) and p[1][0] == "lit" and p[1][1].strip("/") == "" and p[1][1] and p[2] == ("val", name)
        rest = p[3:] if ok else []
        # a separator between the name and what follows
        sep = not rest or separate(rest[0])
        ok = ok and sep and all(below(I, q) for q in rest)
        r.oblige(ok, "inside:%s" % what, "%s is applied to %s" % (what, show_path(p)), where)
        r.cover("paths", "%s: %s" % (what, show_path(p)))


def stores(r):
    """the construction of both kinds of storage, and their operations"""
    seen = set()
    for adt, new in sorted(IMPLS.items()):
        if new not in r.prog.bodies:
            r.oblige(False, "new:" + adt, "%s is gone" % new, adt)
            continue
        here = []

        def call(I, st, c, args):
            n = c.res or c.name
            if n.startswith(FS) and n.split("::")[-1] in SINK:
                seen.add((c.ctx.body.key, c.bb))
                here.append((c.ctx, c.bb, n, I.vals(st, args)))

        def conf(I):
            I.on_call = call
        I = r.engine(new, conf=conf, tag="paths")
        coro = "{" in new
        p = mk("param", new, 1)
        base, info = (field(p, "", "0"), field(p, "", "1")) if coro else (p, mk("param", new, 2))
        bases = {base, mk("deref", base)}
        name = field(info, "", "name")
        for ctx, bb, n, vs in here:
            t = [v for v in vs[-1:]][0]
            b = next((b for b in bases if contains(t, lambda x: x is b)), base)
            if contains(t, lambda x: x is mk("deref", base)):
                b = mk("deref", base)
            inside(r, I, t, fix(I, t, bases, base), name, "%s:%s in %s" % I.loc(ctx, bb)[:3], n)
        for v, st, e in returns(I):
            if v.op != "agg":
                continue
            x = dict(zip(v.a[2], v.a[3]))
            r.oblige("torrent_name" in x, "dir:" + adt, "%s has no path of the torrent" % adt, new)
            if "torrent_name" in x:
                inside(r, I, x["torrent_name"], fix(I, x["torrent_name"], bases, base), name, new, "storage in")
            for n, y in x.items():
                r.oblige(n != "file_infos" or (y.op == "f" and y.a[2] == "files"), "files:" + adt, "the files that are stored aren't those of the torrent", new)
        for op in ("read_block", "write_piece"):
            operation(r, adt, op)
    return seen


def fix(I, t, bases, base):
    for p in Paths(I).alts(t):
        if p and p[0][0] == "val" and p[0][1] in bases:
            return p[0][1]
    return base


def operation(r, adt, op):
    key = "<%s as fs::Fs>::%s::{closure#0}" % (adt, op)
    if key not in r.prog.bodies:
        r.oblige(False, "op:" + key, "%s is gone" % key, adt)
        return
    me = mk("deref", field(mk("param", key, 1), "", "0"))
    got = []

    def awaited(I, st, c, name, vs):
        if "FileCache" in name and I.recording:
            got.append((c.ctx, c.bb, name, vs))

    def conf(I):
        I.no_inline = lambda k: "FilesInBounds" in k or "file_cache" in k
        I.on_await = awaited
    I = r.engine(key, conf=conf, tag="files")
    for ctx, bb, n, vs in got:
        for p in Paths(I).alts(vs[1]):
            p = norm(p)
            ok = p and p[0] == ("val", field(me, "", "torrent_name")) and (len(p) == 1 or separate(p[1])) and all(below(I, q) for q in p[1:])
            r.oblige(ok, "file:%s:%s" % (adt, op), "the file at %s is opened" % show_path(p), "%s:%s in %s" % I.loc(ctx, bb)[:3])
            r.cover("paths", "opened: %s" % show_path(p))
    r.oblige(bool(got), "file:none:%s:%s" % (adt, op), "no file is opened", key)


def check(r):
    r.rule("an Info is accepted only with a plain name, a File only with a path of at least one name, all of them plain")
    r.rule("what is created, opened or removed for a torrent lies at base directory / name / path of a file")
    r.rule("no other code of the program creates, opens for writing, renames or removes files, but the DHT's table")
    names(r)
    seen = stores(r)
    for k, ss in r.graph.sites.items():
        for s in ss:
            n = s.res or s.name
            last = n.split("::")[-1]
            if not n.startswith(FS) or last not in SINK or n in ("std::fs::File::open", "tokio::fs::File::open"):
                continue
            ok = k.startswith(("dht::", "<dht::")) or k.startswith("fs::file_cache::") or any(k == f for f, _ in seen)
            r.oblige(ok, "elsewhere:%s" % n, "%s is called with a path that isn't checked" % n, s.where)
            r.cover("operations on files", "%s at %s" % (n, s.where))
