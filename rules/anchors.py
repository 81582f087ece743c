"""Where the subjects of the properties are found: through external APIs and types, so that
renaming or splitting private functions does not lose them.  A missing anchor is a violation:
the guarantee's subject is gone."""


def one(r, what, found):
    if len(found) == 1:
        return found[0]
    r.violate("anchor:%s" % what, "cannot find the code that the property is about: %s (candidates: %s)" % (what, found or "none"), what)
    return None


def peer_task(r):
    return one(r, "the task that owns a peer's TCP stream", r.graph.task("tokio::net::TcpStream::connect"))


def udp_task(r):
    return one(r, "the task that owns the DHT socket", r.graph.task("tokio::net::UdpSocket::recv_from"))


def builds(r, task, variant):
    """does code reachable from the task build that enum variant?"""
    for f in r.graph.reach(task):
        for blk in r.prog.bodies[f].blocks:
            for s in blk["st"]:
                rv = s.get("rv")
                if rv and rv["r"] == "agg" and rv.get("variant") == variant:
                    return True
    return False


def downloader(r):
    return one(r, "the task that hashes downloaded pieces", [d for d in sorted(r.graph.tasks) if builds(r, d, "FinishedPiece")])
