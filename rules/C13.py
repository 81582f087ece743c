"""Abstract run of the task that manages the DHT, from its spawn, on arbitrary messages: every call that changes the routing table is compared
with the response that is being handled (states are kept apart by the kind of message)."""
import dhtman

ASSUMPTIONS = ["the address in a response handed over is where the datagram came from (C10)"]


def check(r):
    r.rule("a node is recorded with the id and the address of one response that was received; every response with an id leads to that before the next message; nothing else changes the table")
    M, I = dhtman.run(r)
    if M:
        M.flush("learn:", {"learn:who": "records nodes that answered", "learn:all": "handles responses"})
