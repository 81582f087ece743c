"""Same abstract run as C02 (the task that owns the peer's stream, every received byte and read length unknown).
Two ghost variables follow the last result of a read and the message that was decoded last: the stream is not read
again after its end or an error, a read has room for at least one byte (an empty read looks like the end of the
stream), and a decoded message is sent, with its decoded content, before the next decode or read."""
import anchors
import peer
from common import *


def check(r):
    task = anchors.peer_task(r)
    if not task:
        return
    G = peer.Ghost(r, deliver=True)
    r.rule("a read is reached only when every earlier read of the stream returned at least one byte")
    r.rule("the slice handed to a read is not empty")
    r.rule("between two decodes, and between a decode and the next read, the decoded message was awaited in a send that carries the "
           "same variant with the same fields")
    I = r.engine(task, conf=G.conf, setup=G.setup, tag="deliver")
    G.flush(["eof:", "room:", "deliver:"])
    for f in sorted(I.inlined):
        r.cover("functions", f)
    r.oblige("eof:read" in G.obs, "eof:none", "the task reads nothing from the stream", task)
    r.oblige("deliver:next" in G.obs, "deliver:none", "the task decodes no frame", task)
