"""The task that owns a peer's TCP stream (handshake, receive loop, send loop) is abstractly interpreted over MIR
with every received byte and every read length unknown.  All panic conditions it can reach are obligations.
Ghost variables follow which bytes of the receive buffer are received and not decoded yet through reads,
copies and decodes, so that every frame is decoded exactly once, whole, in order."""
import anchors
import peer
from common import *


def check(r):
    task = anchors.peer_task(r)
    if not task:
        return
    G = peer.Ghost(r, frame=True)
    r.rule("every panic condition (index, slice range, arithmetic overflow, unwrap, explicit panic) reachable from the task is unreachable")
    r.rule("reads append to the received bytes; a decode starts where the previous frame ended and its frame is received completely; "
           "moves keep all bytes that are not decoded yet")
    I = r.engine(task, conf=G.conf, setup=G.setup, tag="frame")
    r.no_panic(I, task)
    G.flush(["frame:"])
    r.oblige(any(k.startswith("frame:decode") for k in G.obs), "frame:none", "the task decodes no frame", task)
    r.oblige("frame:append" in G.obs or "room:read" in G.obs, "frame:noread", "the task reads nothing from the stream", task)
