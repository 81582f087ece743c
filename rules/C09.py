"""Abstract run of the task that owns the DHT socket (every datagram, source address and command unknown).
Where a peer is announced to the rest of the program, the facts of the abstract state must say that the token of the
query equals the hash of the task's secret and the address the datagram came from, and the announced address must be that ip with
the port of the query.  Where a get_peers response is encoded, its token must be that hash for the node it is sent to."""
import anchors
import udp
from common import *


def check(r):
    task = anchors.udp_task(r)
    if not task:
        return
    U = udp.Udp(r)
    r.rule("NewPeer is handed over only under the fact token == sha1(secret ++ sender ip), with the sender's ip and the port in the query")
    r.rule("a get_peers response carries sha1(secret ++ ip of the node it answers); the secret is one random value for both")
    r.rule("only the task that checks tokens announces peers")
    I = r.engine(task, conf=U.conf, tag="udp")
    for f in sorted(I.inlined):
        r.cover("functions", f)
    U.flush("token:", {"token:checked": "records announced peers", "token:issued": "gives tokens to querying nodes"})
    U.flush("query:NewPeer", {})
    r.oblige(len(U.secrets) == 1 and all(s.op == "opq" and "random" in str(s.a) for s in U.secrets), "token:secret",
             "tokens are made and checked with %s" % (", ".join(sorted(show(s)[:60] for s in U.secrets)) or "no secret"), task)
    inside = r.graph.reach(task)
    n = 0
    for key, b in r.prog.bodies.items():
        for blk in b.blocks:
            for s in blk["st"]:
                rv = s.get("rv")
                if rv and rv["r"] == "agg" and rv.get("variant") == "NewPeer":
                    n += 1
                    r.oblige(key in inside, "token:elsewhere:%s" % key, "a peer is announced outside the task that checks tokens", key)
    r.cover("places that announce a peer", n)
