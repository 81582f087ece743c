"""Abstract run of the task that manages the DHT, from its spawn, on arbitrary messages: every answer it hands to the socket's task, every peer
it stores and every look-up is compared with the query that is being handled (states are kept apart by the kind of message)."""
import dhtman

ASSUMPTIONS = ["the operations of the routing table return what their names say (C12)"]


def check(r):
    r.rule("an answer has the id and kind of the query being handled; its nodes were looked up for the id asked about; peers come from, and go to, the set of the info hash of the message")
    M, I = dhtman.run(r)
    if M:
        M.flush("answer:", {"answer:id": "answers queries", "answer:nodes": "answers with nodes", "answer:own": "answers with peers of the torrent", "answer:hash": "keeps peers of other torrents", "answer:kept": "stores peers", "answer:torrent": "stores peers of the torrent"})
