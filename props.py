prop("C01", "Peer-wire messages are encoded and decoded exactly as BEP 3 lays them out",
     "Decoding a buffer that starts with a well-formed peer message yields the message kind of its id with every field read big-endian from its place and "
     "a variable part that ends with the frame; an unknown id, a length prefix its id does not allow, or an incomplete frame is refused without a panic. "
     "Encoding any message yields its length prefix (counting exactly the bytes that follow), its id, its fields big-endian in wire order and its variable part, nothing else.",
     ["inputs"], "every byte sequence handed to the decoder and every message value handed to the encoder",
     "The tests encode and decode one hand-written frame per kind; wrong lengths, trailing bytes, all field values and unknown ids are not reachable by samples.",
     ["src/peers/connection/message.rs"],
     [("decoder", "Message::from_buf"), ("length prefix", "Message::len"), ("encoder", "Message::into_bytes and Serialize for Message")])

prop("C02", "Received peer bytes never panic the connection and are framed without loss",
     "Whatever bytes a peer sends, in whatever segments they arrive, the task that owns its connection reaches no panic. "
     "Every byte that was received belongs to exactly one decoded frame or is kept for later: reads append to the undecoded bytes, each decode starts where the frame before it ended "
     "and only when that frame is completely received, and moving bytes inside the buffer keeps all undecoded ones.",
     ["inputs", "schedules"], "every byte stream, every segmentation of it by the reads, every interleaving with the sending half and the shutdown",
     "No test runs the connection task; segmentation points and hostile lengths are unbounded.",
     ["src/peers/connection/connection_manager.rs", "src/peers/connection/handshake.rs", "src/peers/connection/message.rs"],
     [("receive loop", "manager_receiver"), ("handshake", "initiate_handshake"), ("task", "spawn_connection_manager")],
     technique=ABS + " with ghost variables for the undecoded bytes")

prop("C03", "Every decoded peer message is delivered once; the receive loop ends at EOF",
     "A message decoded from a peer's stream is handed, with the decoded content, to its consumer before the next one is decoded or more bytes are read. "
     "After the stream has ended or failed it is not read again, and no read is made with an empty buffer (whose result would look like the end of the stream).",
     ["inputs", "schedules", "fault_sequences"], "every byte stream, segmentation, read error and end of stream, and any slowness of the consumers",
     "No test drives the receive loop; a message lost when a channel is full or a loop that spins after EOF needs particular timing.",
     ["src/peers/connection/connection_manager.rs"],
     [("receive loop", "manager_receiver"), ("dispatch", "handle_message")],
     technique=ABS + " with ghost variables for the pending message and the last read result")

prop("C04", "No peer message is exchanged before a matching handshake",
     "The first bytes sent on a peer connection are exactly the BEP 3 handshake with the connection's info hash and own peer id. "
     "No peer message is decoded from or written to the connection unless the received handshake had the protocol string and the info hash that was sent; otherwise the connection is given up.",
     ["inputs", "schedules", "fault_sequences"], "every 68 bytes a peer may answer with, every segmentation, error and early close",
     "Tests check the layout of one handshake and two invalid ones in isolation; that every path to message exchange passed the check is a property of all paths.",
     ["src/peers/connection/handshake.rs", "src/peers/connection/connection_manager.rs"],
     [("handshake", "initiate_handshake, Handshake::as_ref, Handshake::check_validity"), ("gate", "manage_tcp")])

prop("C05", "A piece is stored and counted as held only with the torrent's hash",
     "A peer's downloader reports a piece finished only when the SHA-1 of exactly the reported data, all blocks in order, equals the hash the torrent lists at the reported piece's index. "
     "Nothing else reports a piece finished. The torrent manager writes a finished piece to storage as it was received and records it as held, under its index, only after that write has succeeded.",
     ["inputs", "histories", "fault_sequences"], "every content of blocks from every peer, every order of commands and blocks, every result of the write",
     "Corrupt data, a failing write or a piece stopped while its last block is on the way need particular inputs and timing; no test runs the downloader or the manager.",
     ["src/peers/connection/downloader.rs", "src/peers/connection/connection_handle.rs", "src/torrent_manager.rs", "src/transcoding/metainfo.rs"],
     [("hash check", "task that reports ConMessageType::FinishedPiece"), ("store", "task that awaits Fs::write_piece")],
     technique=ABS + " with loop-built sequences; query for constructions of FinishedPiece")

prop("C07", "Received datagrams never panic the DHT socket task or its decoders",
     "Whatever datagrams arrive, the task that owns the DHT socket reaches no panic (other than failing to bind at start), and what it decodes is exactly the bytes of the datagram received, "
     "never bytes of an earlier one. The hand-written decoding code that datagrams reach (byte strings, ids, compact addresses) refuses values of the wrong length or type instead of panicking.",
     ["inputs", "schedules"], "every datagram and every sequence of datagrams and commands",
     "Tests decode well-formed messages; an id of 19 bytes, an empty string or a short datagram after a long one has to be covered for all lengths.",
     ["src/dht/connection/connection_manager.rs", "src/dht/krpc_message.rs", "src/data_structures/id.rs", "src/data_structures/serializable_buf.rs"],
     [("task", "spawned task owning the UdpSocket"), ("decoders", "Visitor implementations reached from krpc_message::Message")])

prop("C08", "No peer takes the torrent manager out of bounds, whatever it claims to have",
     "Whatever messages peers send to the torrent manager, in any order, every index used on its per-piece tables and bitmaps is within bounds and no unwrap or explicit panic is reached: "
     "a piece index is used only when the torrent has that piece, a bitfield only when it has the size of the torrent's bitmaps (its spare bits are never taken for pieces), and every bitmap has one bit per piece and never changes its size. "
     "(Overflow of the manager's counters is not part of this property.)",
     ["inputs", "histories"], "every sequence of messages of every peer (have, bitfield, choke states, finished pieces, disconnects) interleaved with the ticks of the manager",
     "The manager's reaction to an index or bitfield beyond the torrent depends on values and orders no test feeds it; the bounds hold by an invariant of all bitmaps.",
     ["src/torrent_manager.rs", "src/data_structures/bitmap.rs"],
     [("task", "spawned task owning the storage"), ("bitmap", "Bitmap and its iterator")],
     technique=ABS + " with an inductive invariant for the sizes of stored bitmaps")

prop("C09", "A peer is announced to this node only with the token this node gave it",
     "A peer is stored for an info hash only on an announce_peer query whose token equals the hash of this node's secret and the sender's ip, and is stored as the sender's ip with the port of the query, under the info hash of the query. "
     "The token handed out in a get_peers response is that hash for the ip the response is sent to. No other code announces a peer to the peer store on behalf of the network.",
     ["inputs", "histories"], "every announce_peer query from every sender, in every order with get_peers queries",
     "The equality of the token is a property of every path to the store; tests do not exercise the announce path with forged tokens.",
     ["src/dht/connection/connection_manager.rs"],
     [("gate", "spawned task owning the UdpSocket"), ("token", "Md5 digest of secret and ip")])

prop("C10", "A DHT response reaches only the requester of its query, and only once",
     "Every DHT query that is sent has its transaction id, kind and requester registered. A response is handed only to the requester registered under its transaction id, only when the query registered there is of a kind this response answers "
     "(a response carrying only an id answers ping and announce_peer), with the response's own fields and the address it came from, and the entry is removed with it, so a repeated response goes nowhere.",
     ["inputs", "histories"], "every sequence of commands, responses, forged or repeated responses",
     "Which response follows which query is decided by the network; tests look at single lookups of the table.",
     ["src/dht/connection/connection_manager.rs", "src/dht/connection/pending.rs"],
     [("registration", "sending of queries"), ("delivery", "receiving of responses")],
     technique=ABS + " with map membership facts")

prop("C23", "Trackers are told what the client has, when it starts, completes and stops",
     "The URL of an announce is that of the tracker, followed by `?`, or `&` if it has a query already, and the parameters info_hash and peer_id (percent-encoded), port, uploaded, downloaded, left, compact, and event and trackerid (percent-encoded) if there is one: "
     "each once, each with the announce's value. A tracker's task sends `started` until the tracker has answered, then no event, `completed` as the first announce after the notice of completion, and `stopped`, as its last request, when told to shut down while it waits for the next announce. "
     "Each announce goes to the tracker the task was started for, with the torrent's info-hash, the client's peer id and port, and (pieces - downloaded pieces) * piece length, computed after the last wait, as what is left.",
     ["inputs", "fault_sequences", "schedules"], "every announce, every order of answers, failures, waits, notices of completion and shutdown",
     "The URL is tested for one announce; the order of events depends on which branch of a select! ends first and on failures of the tracker.",
     ["src/tracker/announce.rs", "src/tracker/tracker_manager.rs"], [("announce", "Announce::as_url"), ("tracker task", "manage_http_tracker, contact_tracker, send_request")],
     technique=ABS + " with a phase automaton of the tracker's task, URLs resolved into literals and values")

prop("C24", "Ids, peers and nodes are read and written in the compact formats of the protocol",
     "An id is 20 bytes, a peer 6 bytes (four of the IPv4 address, two of the port, big-endian), a node 26 bytes (id, then address). Byte strings of another length are refused, and for lists of nodes those that aren't whole nodes; those of the right length are accepted. "
     "A list of nodes is decoded into all of its nodes in order; ids, peers and nodes are written in the same format, a list with all of its nodes in order; the `peers` string of a tracker's answer gives a peer for each complete group of 6 bytes, in order.",
     ["inputs"], "every byte string and every value",
     "The tests decode and encode one message of each kind; the format must hold for all bytes and all numbers of nodes.",
     ["src/transcoding/mod.rs", "src/dht/krpc_message.rs", "src/peers/peer.rs", "src/data_structures/id.rs", "src/tracker/response.rs"],
     [("visitors", "serde visitors of ID, Peer and Nodes"), ("serializers", "Serialize for ID, Peer and Nodes"), ("tracker", "Response::decode_bencode_object")])

prop("C31", "The client acts on what a tracker answers, all of it and nothing else",
     "An answer is accepted only with interval, complete, incomplete and peers; each of its fields, and the optional warning message, min interval and tracker id, is decoded from the entry of its name if there is one; other entries are ignored. "
     "The peers of each accepted answer are given to the pool of peers before the task waits for anything; as soon as an answer had a tracker id, announces carry one, and never one that no answer had; the next regular announce follows after the answer's interval, but at least 16 s; "
     "one that failed is repeated after 64 s.",
     ["inputs", "histories", "fault_sequences"], "every dictionary as an answer, every sequence of answers and failures",
     "The tests decode one answer; what the task does with an answer isn't tested.",
     ["src/tracker/response.rs", "src/tracker/tracker_manager.rs"], [("answer", "Response::decode_bencode_object"), ("tracker task", "manage_http_tracker, contact_tracker")])

prop("C25", "The info-hash and the layout of a torrent are those of its metainfo",
     "Whenever a metainfo file is accepted: the info-hash is the SHA-1 of the raw bytes of its info dictionary, and the info that is used was decoded from that same entry; name, piece length, pieces, length or files each come from "
     "the entry of that name, and none of them is missing; the hash of piece i is the bytes 20i..20i+20 of `pieces`; piece length and content aren't empty and there are exactly ceil(content / piece length) pieces, where the content of "
     "a multi-file torrent is the sum of its files (without overflow); there's at least one tracker address, and each was listed in announce or announce-list and starts with the scheme (http, udp) of the kind of tracker it's taken for.",
     ["inputs"], "every metainfo file: any keys, values and order that bencode allows, any number of pieces and files",
     "A test parses two well-formed files; what's at stake is every other one, and a wrong info-hash or layout only shows as peers that refuse or pieces that never match.",
     ["src/transcoding/metainfo.rs"], [("decoders", "Torrent, Info: FromBencode; TrackerAddr::new; deserialize_pieces_field; Info::pieces_cover_files")],
     technique=ABS + "; every value is a term that names the entry of the dictionary it was decoded from")

prop("C06", "The names in a torrent can't lead out of the torrent's directory",
     "A metainfo file is accepted only if its name and every element of every path are plain names (not empty, `.` or `..`, no `/` and no NUL in them) and each path has at least one element. "
     "Whatever is created, opened or removed for a torrent lies at base directory / name, or below that at the elements of the path of one of its files, separated by `/`; "
     "no other code, but the part that stores the DHT's table, creates, writes, renames or removes files.",
     ["inputs"], "every metainfo file, hostile ones included; every call of a file operation",
     "Metainfo comes from strangers; a test would have to think of the very name that slips through.",
     ["src/transcoding/metainfo.rs", "src/fs/multi_file_rw.rs", "src/fs/single_file_rw.rs"],
     [("decoders", "Info, File: FromBencode"), ("storage", "SingleFileRw::new, MultiFileRw::new, implementations of Fs"), ("sinks", "calls of tokio::fs and std::fs")],
     technique=ABS + "; provenance of the parts of each path; enumeration of file operations in the call graph")

prop("C26", "A known peer is handed out once, within the limit, and keeps its status",
     "Peers handed out for new connections are exactly those that become active in that request: none of them was active, none is handed out twice, and there are at most as many as there are free slots. "
     "What the caller gives back is recorded as given, before new peers are chosen. A peer that is discovered again (from a tracker, the DHT or an announce) keeps what is known about it; a new one is unknown; no peer is forgotten. "
     "A list of good peers has at most the number asked for, contains no peer that couldn't be connected to, and is None rather than empty.",
     ["inputs", "histories"], "every sequence of requests, every set of peers and statuses, every limit",
     "The one test samples three peers and two requests.",
     ["src/peers/active_peers.rs"], [("pool", "Peers")],
     technique=ABS + " with a ghost that holds the peer made active until it is put in the answer")

prop("C12", "The DHT's routing table keeps good nodes and files each under its own id",
     "A slot of the routing table is overwritten only if it is vacant or its node isn't good (it never answered, or not for 15 minutes). The node recorded has exactly the id and the address given and counts as seen now; "
     "it goes to the bucket for its id: the one at the first bit in which it differs from the own id, or the last. A node that is there already isn't recorded twice: its time is renewed, and no other node's is. "
     "A node given isn't recorded only if its bucket is full of good nodes. When a bucket is split, each of its nodes goes to the half for the bit of its id at the bucket's depth, and none is lost; both halves are one level deeper, and the half on the side of the own id becomes the last bucket. "
     "Looking a node up tells the truth about whether it's there; an exact match has the id asked for; closest nodes are good ones, sorted by their distance to the id asked for. A table read from the cache is used only after all its buckets, at least 1 and at most 161, were looked at.",
     ["inputs", "histories"], "every table, id, address and moment",
     "The tests fill tables with random nodes that were all seen just now.",
     ["src/dht/routing_table/table.rs", "src/dht/routing_table/bucket.rs"], [("C12", "Table")],
     technique=ABS + " of each operation on an arbitrary table, with typestates of the searches over slots and of a bucket being split")

prop("C13", "Only nodes that answered a query enter the DHT's routing table",
     "The routing table is changed only because of a response to one of this client's own queries: the node recorded has the id that the response carries and the address that it came from. "
     "Each response that carries an id leads to that before the next message is looked at. Nodes that are merely listed in a response, and nodes that sent a query, are not recorded.",
     ["inputs", "histories"], "every sequence of queries and responses",
     "No test runs the task that manages the DHT.",
     ["src/dht/dht_manager.rs", "src/dht/mod.rs"], [("dhtman", "Man")],
     technique=ABS + " that keeps states apart by the kind of message being handled")

prop("C18", "Every asynchronous operation that is begun is awaited",
     "Every future made anywhere in the client, by calling an async function of its own or of a library (sending to a channel, reading, connecting, waiting) or by an async block, is awaited, raced with others, spawned, stored or returned: none is dropped right after it was made, which would undo the operation without any error.",
     ["inputs", "schedules"], "every function, closure and async block",
     "A future that is dropped does nothing, silently; where it's bound to a name the compiler doesn't warn.",
     ["src/peers/connection/connection_manager.rs", "src/peers/connection/connection_handle.rs", "src/dht/dht_manager.rs", "src/torrent_manager.rs", "src/tracker/tracker_manager.rs"], [("C18", "uses")],
     technique="dataflow over MIR: every local that holds a future is followed through moves to a use that can poll it")

prop("C19", "The torrent manager's view of its peers follows what they say",
     "Choke, unchoke, interested and not interested set that flag of the peer that sent them, and nothing else; have marks that piece of the sender, and counts it once, if it is new; every piece of a peer's bitfield is counted if nothing of the peer is counted yet, and a further bitfield changes nothing. "
     "When a peer is unreachable or disconnected every piece it had is uncounted. A piece is asked for only if it isn't held yet, and only of a peer that has it and doesn't choke.",
     ["inputs", "histories"], "every message of every peer, in every state of the manager",
     "No test runs the torrent manager.",
     ["src/torrent_manager.rs", "src/data_structures/bitmap.rs"], [("C19", "View")],
     technique=ABS + " with states kept apart by the message being handled; fields are told apart by the messages under which they change")

prop("C20", "Locks are never held across a wait and never block each other",
     "No code waits (awaits) while it holds one of the client's locks, none requests a lock, itself or through what it calls, while it holds the same one, and no two locks are requested in opposite orders.",
     ["schedules"], "every interleaving of the tasks",
     "A lock taken twice hangs only on the paths that do; in the tests these are the ones without contention.",
     ["src/peers/active_peers.rs", "src/peers/connection/pending_pieces.rs"], [("C20", "payload")],
     technique="dataflow of guards that may be held at each call and suspension point, joined with the locks taken over the call graph")

prop("C21", "The DHT is refreshed on time whatever arrives, and its table stored at shutdown",
     "The wait until the next refresh of the routing table goes on where it was when a message, or anything else, is handled in between: it never starts over, and after it has ended a new one begins. "
     "A refresh asks, for every id looked for, the closest node to that id known. Peers of the torrent are looked up by one task. When the DHT's task is told to shut down, it ends only after the routing table as it is then was written and flushed to its file.",
     ["inputs", "schedules", "histories"], "every sequence of messages, every moment of a shutdown, every growth of the interval",
     "No test runs the interval or the task that manages the DHT.",
     ["src/capped_growing_interval.rs", "src/dht/dht_manager.rs", "src/dht/peer_fetcher.rs", "src/dht/routing_table/table.rs"], [("dhtman", "Man")],
     technique=ABS + " with a ghost from the encoded table to the flushed file, and of each wait of the interval from an arbitrary interval")

prop("C30", "The DHT answers each query with what it knows about the id asked about",
     "An answer carries the id of the query being handled and is of its kind; no query is answered twice. Nodes in an answer were looked up for the target or info hash of that query. "
     "Peers of this torrent are given only to a query for its info hash; for another info hash, only peers that announced themselves for that one. "
     "A peer that announced itself is stored, before the next message is looked at, among the peers of the info hash it announced itself for: as a peer of this torrent exactly if that's its info hash. Peers that announced themselves aren't forgotten.",
     ["inputs", "histories"], "every sequence of queries and responses",
     "No test runs the task that manages the DHT.",
     ["src/dht/dht_manager.rs", "src/dht/connection/connection_handle.rs"], [("dhtman", "Man")],
     technique=ABS + " that keeps states apart by the kind of message being handled")

prop("C28", "The DHT socket task never waits on a consumer, blocks, or ends early",
     "The task that owns the DHT socket waits for nothing but its socket and its command channel, calls nothing that blocks the thread, and ends only when its command channel is closed or receiving from the socket fails; "
     "slow consumers, full channels and failed sends do not stop it.",
     ["schedules", "fault_sequences"], "every speed of the consumers of its channels and every result of sends",
     "A full channel or a failing send needs particular timing that no test produces; that the task has no other waiting point is a fact about all of its code.",
     ["src/dht/connection/connection_manager.rs"],
     [("task", "spawned task owning the UdpSocket")],
     technique=ABS + "; call-graph query for blocking calls")

prop("C29", "A peer connection that ends is reported once and its slot is released",
     "The task that owns a peer's connection, when it ends other than by its shutdown, has reported Unreachable or Disconnected for its own peer, exactly once and as its last message. "
     "Before the torrent manager waits for the next message or tick, it has removed that peer from its connections and its active peers and has put it on the list of peers to give back "
     "(an unreachable one as unable to connect, a disconnected one as neither active nor unable to connect); that list is cleared only after it was handed to the peer pool. "
     "The downloader of a peer waits for nothing after one of its channels was closed.",
     ["inputs", "schedules", "histories", "fault_sequences"], "every way a connection can end (refused, bad handshake, end of stream, read error, oversized message) at every point, any number of ended peers between two ticks",
     "A report that is missing on one of the ways a connection ends leaks the peer's slot for the rest of the run; no test ends a connection.",
     ["src/peers/connection/connection_manager.rs", "src/peers/connection/connection_handle.rs", "src/peers/connection/downloader.rs", "src/torrent_manager.rs"],
     [("report", "spawned task owning the TcpStream"), ("release", "task that awaits Fs::write_piece"), ("downloader", "task that reports ConMessageType::FinishedPiece")],
     technique=ABS + " with map membership facts")

prop("C14", "Every task that holds the shutdown receiver ends when the shutdown is sent",
     "Each peer's connection task and downloader, each tracker's task and the DHT task are given a shutdown receiver. Such a task never waits for something that others must complete (the network, a message, a timer) "
     "other than as an alternative of a select! that also waits for the shutdown; once it received it, it waits only for operations that end by themselves (files, sends into channels, a last HTTP request with a timeout) and returns. "
     "Every receiver, cloned ones included, is subscribed to its sender's channel and counts for the waiter; after an interrupt the program sends the shutdown and waits for all receivers to be dropped, holding none itself.",
     ["schedules", "fault_sequences"], "the shutdown arriving at every point of every task, whatever its peers, trackers and nodes do or don't do",
     "The point at which the shutdown arrives has to fall into each of the waits, no test shuts anything down.",
     ["src/shutdown.rs", "src/main.rs", "src/peers/connection/connection_manager.rs", "src/peers/connection/downloader.rs", "src/tracker/tracker_manager.rs", "src/dht/dht_manager.rs"],
     [("tasks", "spawned tasks that own a shutdown::Receiver"), ("channel", "shutdown::channel, Clone for Receiver"), ("interrupt", "caller of tokio::signal::ctrl_c")],
     technique=ABS + " that tracks the enclosing select! of each await; maybe-initialised dataflow over MIR")

prop("C15", "Pieces are written to, and blocks read from, the places the torrent assigns",
     "Storing a piece of which all 16 KiB blocks are given writes the bytes of its blocks, in order and each once, at the piece's place in the single file, or, in a multi-file torrent, for each file that the piece overlaps the overlapping bytes at their place in that file "
     "(files of length 0 in the range are created); it reports success only if every write worked and was followed by a flush of that file. "
     "Reading a block reads exactly its bytes, from the same places, into the same places of the buffer; it reports success only if all of them were read. "
     "The iterator that cuts a range of the torrent into files yields every file that has a byte in the range, with the exact bounds of the overlap.",
     ["inputs", "fault_sequences"], "every layout of files, piece length, piece and block; every seek, read, write, open or flush failing",
     "Boundary cases (a file that ends with a block, a piece over three files, empty files, a failing flush) are particular layouts; tests store one mock torrent.",
     ["src/fs/single_file_rw.rs", "src/fs/multi_file_rw.rs", "src/fs/multi_file_iter.rs"],
     [("operations", "implementations of Fs"), ("iterator", "FilesInBounds")],
     technique=ABS + " with ghost positions, typestate of the opened file and linear arithmetic over blocks of 16 KiB")

prop("C17", "Pieces are put together from blocks of the right size, each kept in its place",
     "A block that a peer sends is stored only in the piece `index`, at the place of its offset `begin`, which must be a multiple of 16384, and only if its size is that of the place: 16384, or what is left of the piece for the last one. "
     "A block that was received is never replaced, asked for again or given back while its piece is in progress. A piece leaves the table of pieces in progress only when it has all of its blocks; it is then passed on with all of them in order, and reported or, "
     "if its hash is wrong, put into the table again, unless the table is full. A piece that is in progress isn't started anew, a new piece has a place for each of its blocks and none received, and at most 10 pieces are in progress.",
     ["inputs", "histories", "schedules"], "every message, every order of blocks, requests, timeouts and pieces",
     "No test covers the assembly of pieces; which blocks are in place depends on the whole history of messages.",
     ["src/peers/connection/pending_pieces.rs", "src/peers/connection/downloader.rs"], [("table", "PendingPieces"), ("downloader", "manage_piece_downloader, foo")],
     technique=ABS + " with a ghost that balances stored blocks against the counter of the piece")

prop("C16", "Setting up a torrent's directories never touches what existed before",
     "The directory of a multi-file torrent is made by an operation that fails if anything of that name exists. A directory is removed only if this very call made it, and only because making another one failed afterwards; then it is removed, and the error is reported: "
     "the storage isn't used with directories missing. Nothing else in the client removes or renames files or directories.",
     ["inputs", "fault_sequences"], "every torrent, every directory whose creation fails, every state of the disk before",
     "Tests run on an empty directory where every creation succeeds.",
     ["src/fs/multi_file_rw.rs"], [("directories", "create_dirs")],
     technique=ABS + " with ghosts for paths made and failures")

prop("C22", "At most 16 files of a torrent are open, each under the path it was opened with",
     "The cache of open files never holds more than 16 files, however it is used. A file is opened to be read and written, is created if missing and never truncated; it is kept only if opening worked, under the path it was opened with, "
     "and a request for a path is answered with the file kept under that path.",
     ["inputs", "histories", "fault_sequences"], "every sequence of requests to read or write paths, every open failing",
     "The bound is an invariant over all histories of requests; a test fills the cache once.",
     ["src/fs/file_cache.rs"], [("cache", "FileCache::get_read, get_write")],
     technique=ABS + " with an inductive bound on the size of the map")

# --- not decided: see DESIGN.md ---
prop("C11", "Distances, bucket ranges and closeness of ids are those of Kademlia",
     "The distance of two ids is their xor, compared as a 160-bit big-endian number; a bucket's halves split its range exactly in two, and an id falls in exactly one bucket.",
     ["inputs"], "every pair of 160-bit ids", "The ids sampled by tests are few.", ["src/data_structures/id.rs"], [("id", "xor, halves, comparison")],
     na="Numeric facts about 160-bit arithmetic done byte by byte with carries: the abstract domains used here (symbolic terms, linear inequalities over machine words) can't express them, and a bit-precise proof would need a solver over paths, which is another technique. C12 and C21 use the comparisons as given.")

prop("C32", "Every piece of the torrent is finally downloaded if honest peers have it",
     "If, from some moment on, connected peers that don't choke have every missing piece and answer, every piece is finally held, and no peer is preferred for ever.",
     ["schedules", "histories"], "every fair schedule of peers", "Liveness over unbounded histories.", ["src/torrent_manager.rs", "src/peers/connection/pending_pieces.rs"], [("selection", "sequential_select_piece")],
     na="Liveness under fairness: it depends on the progress of peers, timers and the scheduler over unbounded histories, for which no ranking argument is in reach of a static analysis of this code. C17, C19, C05 and C29 decide the safety facts it rests on. (It is also known to be false for a shorter last piece, see DESIGN.md, Known gaps.)")

prop("C33", "A node's answer has the k nodes closest to the id asked for",
     "Of all the nodes in the routing table, find_node and get_peers answers have the eight closest to the target.",
     ["inputs", "histories"], "every table and target", "Tables in tests are small.", ["src/dht/routing_table/table.rs"], [("closest", "find_node")],
     na="An optimality statement over the contents of an unbounded table; it quantifies over the numeric distances of all nodes, which the analysis leaves symbolic. That the nodes come from the table, asked with the id of the query, is decided by C30 and C21.")

prop("C34", "The memory that remote nodes and peers can make the client use is bounded",
     "However many datagrams and messages arrive, the tables, maps and queues they fill stay within fixed bounds.",
     ["inputs", "histories"], "every sequence of datagrams", "Needs unbounded histories.", ["src/dht", "src/peers"], [("growth", "")],
     na="False as it stands for several collections (info hashes announced to the DHT and queries without an answer are kept until restart) and a bound isn't a guarantee that the code tries to give; deciding it for the rest needs sizes over unbounded histories. Bounds the code does mean to keep are checked: open files (C22), handed-out peers (C26), peers in an answer (C30).")

prop("C35", "The client's tasks never block each other for ever through their channels",
     "No set of tasks waits in a cycle, each to send on a full bounded channel that the next one reads.",
     ["schedules"], "every schedule and filling of the channels", "Needs full channels at the same time.", ["src/peers/connection", "src/dht"], [("channels", "")],
     na="Deciding it needs how full each channel can be at each wait, over all tasks and instances at once; the static part that is in reach is claimed instead: the DHT's socket task never waits on a consumer (C28), locks aren't held across waits or ordered in a cycle (C20), and every task with the shutdown receiver ends at any of its waits (C14).")
