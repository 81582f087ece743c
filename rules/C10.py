"""Abstract run of the task that owns the DHT socket.  Every query that is sent has its transaction id, kind and
requester registered before.  Where a response is delivered, the channel must be the one stored in the map of pending queries under a key that
was removed from it, the stored kind (known through facts of the abstract state) must be one that a response of that
shape answers, and the delivered fields must be those of the response, with the address it came from."""
import anchors
import udp
from common import *


def check(r):
    task = anchors.udp_task(r)
    if not task:
        return
    U = udp.Udp(r)
    r.rule("a query is encoded only after its transaction id was inserted into the pending map with its kind and its requester's channel")
    r.rule("a response is handed only to the channel stored under the transaction id, after the entry was removed, and only if the stored kind is answered by it")
    I = r.engine(task, conf=U.conf, tag="udp")
    for f in sorted(I.inlined):
        r.cover("functions", f)
    U.flush("registered:", {"registered:tid": "registers queries"})
    U.flush("deliver:", {"deliver:pending": "delivers responses"})
    kinds = set()
    for kind, only, where in U.late:
        kinds.add(kind)
        poss = set()
        for v in (only if only is not None else U.kindof):
            poss |= U.kindof.get(v, set())
        r.oblige(only is not None and poss <= udp.ANSWERS[kind], "deliver:kind:%s" % kind,
                 "a %s response may be delivered to the requester of a %s query" % (kind, "/".join(sorted(poss - udp.ANSWERS[kind])) or "unknown"), where)
        r.cover("deliveries", "%s to requesters of %s at %s" % (kind, "/".join(sorted(poss)), where))
    for kind in ("Ping", "FindNode", "GetPeers"):
        r.oblige(kind in kinds, "deliver:none:%s" % kind, "%s responses aren't delivered" % kind, task)
