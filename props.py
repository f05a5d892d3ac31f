"""The properties: text, anchors. gen.py writes properties.jsonl and MANIFEST.json from this and table.py."""
I = "include/salticidae/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state], mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=None)))

prop("C01", "Concurrent queues deliver every item exactly once, in order",
 "Every item successfully enqueued into the multi-producer queues is dequeued exactly once, fully constructed (everything the producer wrote before enqueuing is visible to the consumer), and items of one producer come out in the order in which it enqueued them. When no operation is in flight, a dequeue fails only if the queue is empty. No schedule loses, duplicates, tears, reorders or leaks an item, whether storage is fresh or recycled.",
 ["schedules", "histories"], "all interleavings of concurrent enqueues and dequeues, with fresh and recycled storage, bounded or not", "test_queue runs a few threads under the scheduler the machine happens to provide; the failing windows are a few instructions wide and depend on memory ordering and on block recycling",
 [I + "queue.h"], [("block hand-over with head/tail/next and the write barriers", I + "queue.h"), ("FreeList of blocks", I + "queue.h")], [("blk", "blocks of the queue and free list", I + "queue.h")], ["enqueue", "try_dequeue"])
prop("C02", "A bounded queue accepts its capacity and never exceeds it",
 "After set_capacity(c) a queue whose storage comes in blocks of B items reserves k = max(c/B, 1) blocks: with no other operation in flight a bounded enqueue is refused only when at least k*B items are pending, the queue never holds more than (k+1)*B items through bounded enqueues, and an accepted item is stored without allocating beyond the reserve. A refused enqueue has no effect, and dequeuing makes room again, any number of times.",
 ["histories", "schedules", "configurations"], "all capacities around the block size, all sequences of bounded enqueues and dequeues, concurrent producers followed by exact checks", "tests never fill a bounded queue with the smallest capacities or count how often it can be refilled after recycling",
 [I + "queue.h"], [("free list pre-filled by set_capacity, no allocation in the bounded path", I + "queue.h")], [], ["set_capacity", "enqueue(item, false)"])
prop("C03", "An item put back comes out first",
 "The single consumer of a multi-producer single-consumer queue can put an item back (rewind): the next dequeue returns that item, followed by the previously pending items in their order, and nothing is lost or duplicated, from every queue state (empty, at a block boundary, with producers running).",
 ["histories", "schedules"], "all sequences of enqueue, dequeue and rewind from all block positions; rewind racing with producers", "no test calls rewind at the start of a block or on an empty queue",
 [I + "queue.h", I + "conn.h"], [("MPSCQueue::rewind", I + "queue.h")], [], ["rewind", "try_dequeue"])
prop("C04", "Event-driven queues never lose a wake-up",
 "When an event loop has registered a handler on an event-driven queue, every item enqueued (before or after the registration, in bursts or concurrently from several threads) is eventually handled by a registered loop: there is no state in which items are pending while every consumer sleeps. The handler is not called when there is nothing to do forever (no busy loop), and it keeps being called as long as it reports more work.",
 ["schedules", "histories"], "all interleavings of producers with the consuming loops at the notification flag, all burst sizes", "a lost wake-up needs a specific interleaving between draining the queue and re-arming the notification",
 [I + "event.h", I + "queue.h"], [("wait_sig exchange and eventfd notification", I + "event.h")], [("wait_sig", "a notification is wanted", I + "event.h")], ["reg_handler", "enqueue"])
prop("C05", "Calls into another thread run exactly once and always answer",
 "A function submitted to a running event-loop thread is executed exactly once, on that thread, in submission order per caller, and a synchronous caller receives its result or its exception. Once the target has been stopped, callers are told so instead of waiting: no interleaving of calls with the stop leaves a caller blocked, runs a function twice or runs it after its captured state is gone.",
 ["schedules", "histories"], "all interleavings of synchronous and asynchronous calls from several threads with the processing and stopping of the loop", "the races between stopping a loop and calls in flight are not reached by the tests",
 [I + "event.h"], [("ThreadCall queue, Handle result notifier, stop flag", I + "event.h")], [], ["ThreadCall::call", "ThreadCall::async_call"])
prop("C06", "Shared handles are safe across threads",
 "An object owned by thread-safe reference-counted handles is destroyed exactly once, when the last strong handle goes away, no matter how copies, moves, releases and weak-to-strong upgrades interleave in different threads. An upgrade yields either a live object, which stays alive while that handle exists, or null; the bookkeeping memory is released too.",
 ["schedules"], "all interleavings of handle operations of two and three threads", "tests do not race the last release with an upgrade",
 [I + "ref.h"], [("_ARCCtl counters", I + "ref.h")], [("ref_cnt, weak_cnt", "strong and weak counts", I + "ref.h")], ["ArcObj", "AweakObj"])
prop("C07", "Owning and counted handles have exact lifetimes",
 "For every sequence of constructions, copies, moves, casts, swaps, assignments (including self-assignment), releases and weak upgrades, an object is destroyed exactly when its last owning handle is gone, never earlier and never twice; weak handles yield the object while it lives and null afterwards; reported counts are exact; moved-from and unwrapped handles own nothing and nothing leaks.",
 ["histories"], "all operation sequences on a set of boxes, strong and weak handles, and object graphs releasing handles in destructors", "no unit test covers the handle classes at all",
 [I + "ref.h"], [("BoxObj / RcObjBase / WeakObjBase", I + "ref.h")], [], ["BoxObj", "RcObj", "WeakObj", "static_pointer_cast"])
prop("C08", "Serialised data round-trips and is bounds-checked",
 "A DataStream gives back exactly the bytes put in, in order, with integers of every width at their fixed little-endian encoding; reads, copies, moves, hex, hash and conversions always concern exactly the not yet consumed bytes. A read beyond the end fails with an exception, without touching memory outside the buffer and without consuming anything of an integer or raw read.",
 ["inputs", "histories"], "all sequences of typed writes, reads, raw accesses, copies, moves and conversions, all boundary values, truncations", "test_msg exercises a single well-formed message",
 [I + "stream.h"], [("DataStream buffer and offset", I + "stream.h")], [("offset", "start of the unread bytes", I + "stream.h")], ["operator<<", "operator>>", "get_data_inplace"])
prop("C09", "Hex, 256-bit values and bit arrays encode exactly",
 "Hex decoding accepts exactly the even-length strings of hexadecimal digits and inverts hex encoding; fixed-size values keep their bytes through every constructor and codec, compare as little-endian numbers and refuse inputs of the wrong size; bit arrays keep each bit through load, copy, set, unset, flip, clear and codec. Malformed encodings are refused with an exception, not by reading out of bounds or allocating what the input cannot contain.",
 ["inputs", "histories"], "all two-character strings, all words over a hostile alphabet, all byte positions, all bit indexes around word boundaries, all truncations and hostile lengths", "test_bits loads one array",
 [I + "stream.h"], [("load_hex / Blob / _Bits", I + "stream.h")], [], ["from_hex", "uint256_t", "Bits"])
prop("C10", "Messages are encoded, checked and decoded consistently",
 "The wire image of a message is magic, opcode, payload length and payload checksum (little-endian) followed by the payload; decoding the header of an image recovers these fields, an intact message verifies and one with a corrupted payload or checksum does not. A payload is handed out once and identical to what was sent, copies and moves of messages are faithful, truncated headers and hash lists are refused.",
 ["inputs"], "all payload sizes around hash block boundaries, all single-byte corruptions, all truncations, 8- and 16-bit opcodes", "test_msg checks one message",
 [I + "msg.h"], [("MsgBase serialize / header constructor / verify_checksum", I + "msg.h")], [], ["MsgBase"])
prop("C11", "The segmented buffer is a byte FIFO",
 "A segmented buffer returns exactly the bytes pushed, in order, regardless of segment sizes (including empty ones), of partial pops, of data put back in front, and of copies and moves, and its size is always the number of bytes pending.",
 ["histories"], "all sequences of push, rewind, pop, move_pop, copy and move", "only exercised indirectly with TCP's usual segment sizes",
 [I + "buffer.h"], [("SegBuffer entries with offsets", I + "buffer.h")], [], ["SegBuffer"])
prop("C12", "Addresses, errors and text helpers are exact",
 "An address is accepted exactly when it is a resolvable host, a colon and a decimal port up to 65535, otherwise it is refused with the address error; addresses keep ip and port through text, socket and wire forms and compare by both. Splitting, trimming and formatting return the complete text for every length, and error codes and messages correspond.",
 ["inputs"], "products of well-formed and malformed hosts and ports, all ports, all strings over a small alphabet, all formatted lengths up to 3071", "tests use one well-formed address",
 [I + "netaddr.h", I + "util.h", "src/util.cpp", "src/netaddr.cpp"], [("NetAddr parsing", I + "netaddr.h"), ("vstringprintf, split, trim", "src/util.cpp")], [], ["NetAddr", "stringprintf", "split", "trim", "SalticidaeError"])
prop("C13", "Configuration is applied completely and in order",
 "Options take their defaults, then the configuration file's assignments in file order (surrounding blanks removed, unknown names and lines without '=' ignored), then the command line in order, with later values overriding and list options accumulating; an extra file named on the command line is applied at that point. Malformed values, unknown or incomplete options, duplicate names and overlong lines are reported with their own error, never silently misread.",
 ["inputs", "histories"], "all files of up to three lines and command lines of up to three arguments over alphabets of well-formed and malformed items", "the tests parse one command line",
 [I + "util.h", "src/util.cpp"], [("Config::load, Config::parse, OptVal*", "src/util.cpp")], [], ["Config"])
prop("C30", "The C bindings report what happened",
 "The C functions for streams, messages, byte arrays, hashes and addresses behave as the C++ operations: a read reports success exactly when enough bytes were available, and then returns the right value; invalid input yields a null result or an error code instead of an exception or a wrong value, and nothing leaks.",
 ["inputs", "histories"], "all sequences of the stream calls, all opcodes, well-formed and malformed hex and addresses", "test_msgnet_c only follows the successful path",
 ["src/stream.cpp", "src/msg.cpp", "src/netaddr.cpp", "src/type.cpp"], [("extern C wrappers", "src/stream.cpp")], [], ["datastream_get_*", "msg_*", "netaddr_*"])
prop("C32", "C programs get the same networks",
 "The C functions for message, peer and client networks, their configurations, connections, peer identifiers and event loops have the effects of the corresponding C++ operations: every setting is applied to what it names and to nothing else, every call has the same outcome and the same identifier, the callbacks get the same events with the same data and the given user data, the answer of the connection callback is honoured, every failure is reported with its code (or as a refused send) instead of an exception, and every object that is released is released completely, whatever the sequence of calls.",
 ["inputs", "histories", "configurations"], "all short sequences of network calls with every configuration function, against the C++ interface", "test_msgnet_c and test_p2p_stress only follow one successful path",
 ["src/network.cpp", "src/event.cpp"], [("extern C wrappers", "src/network.cpp")], [("msgnetwork_config_t, peernetwork_config_t", "the settings", "src/network.cpp")], ["msgnetwork_*", "peernetwork_*", "clientnetwork_*", "peerid_*", "eventcontext_*"])
prop("C14", "Received bytes become exactly the messages that were sent, however they are cut",
 "For every stream of bytes and every way TCP and the receive buffers cut it, the message network delivers exactly the well-formed messages, each once, in order, with their payload intact, to the handler of their type: a message with a wrong checksum or without a handler is skipped without affecting its neighbours, an oversized announcement or a payload its type cannot parse ends the connection with one error and nothing after it is delivered. No input crashes the process, stalls the connection, or is delivered differently because of how it was cut, including what arrived before the peer closed.",
 ["inputs", "schedules", "configurations"], "all sequences of well-formed and malformed messages to a length, all placements of cuts, chunk sizes, buffer and queue capacities, and interleavings of network and user threads", "loopback tests send well-formed messages that arrive in few pieces",
 [I + "network.h", "src/conn.cpp", I + "msg.h"], [("MsgNetwork::on_read state machine", I + "network.h"), ("receive loop", "src/conn.cpp")], [("msg_state, msg_sleep", "header/payload parsing state of a connection", I + "network.h")], ["reg_handler", "reg_error_handler"])
prop("C15", "Accepted messages reach the other end completely and in order",
 "Every message a send call accepts on a connection that stays up arrives, once, byte for byte, and messages sent by one thread arrive in the order of the calls, for every number of sending threads, before or after the connection is reported, deferred or not, and for every way the kernel accepts the data (short writes, full buffers, wake-ups). No accepted data stays behind in the sender when the kernel has room, and messages are never interleaved inside one another.",
 ["schedules", "environments"], "all interleavings of senders and the connection's worker with all short-write and full-buffer patterns", "the tests' loopback sockets practically never report a full buffer at chosen places",
 [I + "conn.h", "src/conn.cpp", I + "buffer.h", I + "network.h"], [("_send_data with rewind of the unsent rest, ready_send", "src/conn.cpp"), ("MPSCWriteBuffer", I + "buffer.h")], [("ready_send", "the socket can take more data", I + "conn.h")], ["send_msg", "send_msg_deferred", "Conn::write"])
prop("C16", "Backpressure neither loses data nor stalls",
 "When a send buffer limit is configured, a send call either accepts the whole message or reports that it is full (send_msg returns false, send_msg_deferred reports its id to the error handler); refused messages leave no trace and the buffer accepts again after it drained. When the incoming message queue or the receive buffer is full, receiving pauses and resumes by itself once there is room: nothing is lost, reordered or stuck, in either direction.",
 ["schedules", "configurations", "environments"], "all capacities around one message, all interleavings of producers, workers and consumers", "tests leave the limits at their large defaults",
 [I + "network.h", I + "conn.h", I + "buffer.h"], [("max_send_buff_size, try_enqueue, ev_enqueue_poll", I + "network.h")], [], ["send_msg", "send_msg_deferred", "reg_handler"])
prop("C17", "Every connection comes up at most once and goes down exactly once",
 "For each connection the connection handler is told 'connected' at most once and then, when it ends, 'disconnected' exactly once and never the other way round; a connection that could not be established is reported only as disconnected. It ends exactly when one side terminates it, the peer closes or resets it, or sends unacceptable data, no matter how these and the establishment interleave, and then both sides are notified, the handle says terminated, its socket is closed, and further operations on the handle are harmless. Nobody else's connection is affected.",
 ["schedules", "histories", "environments"], "all points at which either side, the network or garbage ends a connection, combined in pairs, one and two workers", "tests end connections at quiet moments",
 ["src/conn.cpp", I + "conn.h"], [("worker_terminate / disp_terminate / del_conn with the terminated flag", "src/conn.cpp"), ("update_conn", I + "conn.h")], [("terminated", "set once by whoever ends the connection", I + "conn.h")], ["reg_conn_handler", "terminate"])
prop("C18", "Connect and listen report what happened",
 "Every connection attempt ends in exactly one of: a connected notification, a disconnected notification, an exception (synchronous) or an error with the id returned to the caller (asynchronous; ids in flight differ); an attempt without an answer is given up at the configured timeout, not earlier, and an established connection is not affected by that timeout. listen either serves the port on return or throws; listening elsewhere replaces the port, and every incoming connection is accepted and notified. After any failing system call no socket is leaked and later attempts work.",
 ["environments", "schedules", "histories"], "refusals, silence, every single and double failure of the socket calls, concurrent attempts", "tests only connect to listeners that answer",
 ["src/conn.cpp", I + "conn.h"], [("_connect, conn_server, _listen, accept_client", "src/conn.cpp"), ("gen_async_id, recoverable_error", I + "conn.h")], [("pool", "connections by descriptor", I + "conn.h")], ["connect", "connect_sync", "listen", "reg_error_handler"])
prop("C27", "A network can be stopped at any moment",
 "stop() and destruction return at any moment of the network's life (never started, nothing connected, connecting, exchanging messages, loop stopped or running, called twice), without crash, deadlock or use of freed state; all threads end, all sockets are closed so that peers notice, and nothing leaks.",
 ["schedules"], "every point of a conversation, connecting, accepting, both, and hanging; four ways to stop", "tests stop once, when nothing is going on",
 [I + "conn.h", "src/conn.cpp", I + "network.h"], [("stop_workers", I + "conn.h")], [("system_state", "0 new, 1 started, 2 stopped", I + "conn.h")], ["stop", "destructors"])
prop("C21", "Two peers agree on exactly one connection",
 "When two peers know each other and one of them, or both at any moments relative to each other, call conn_peer, they end up with exactly one established connection: both peer handlers were told 'connected' for it (per connection at most once, and 'disconnected' only afterwards), get_peer_conn() returns it on both sides with opposite modes and the right peer ids, every redundant connection of the handshake is closed on both sides, and messages sent to the peer from then on arrive. This holds for every order and value (also equal) of the random nonces, any timing of retry timers, also when only one side knows the other's address, and queued messages to a peer not connected yet are delivered, in order and once, when it connects.",
 ["schedules", "histories", "inputs"], "all interleavings of two simultaneous handshakes with all orders of the nonces and early retries", "the test needs a lucky collision of two handshakes and checks only that messages flow",
 [I + "network.h"], [("ping_handler, pong_handler, finish_handshake, start_active_conn", I + "network.h")], [("Peer::state, conn, inbound_conn, outbound_conn, chosen_conn, nonce", "handshake state per peer", I + "network.h")], ["conn_peer", "reg_peer_handler", "get_peer_conn", "send_msg(peer)"])
prop("C22", "Lost peers are found again, as often as asked",
 "After conn_peer with unlimited tries the peers return to exactly one agreed connection after every disruption at any moment: the network resets the connection (also twice), one or both sides terminate it, the other side restarts, or one or both call conn_peer again. conn_peer with n tries makes exactly n attempts to a peer that cannot be reached (refusing or silent), conn_peer with 0 tries ends the attempts, a peer that was reached and lost again gets its n tries anew (of which the connection that was lost counts as the first, however many attempts it had taken), attempts to an unreachable peer never report it as connected, and a later conn_peer finds the peer once it is there.",
 ["schedules", "histories", "environments"], "every point of the handshake and of the established connection at which each disruption can strike, with all nonce orders", "tests wait for recovery of a few randomly timed terminations",
 [I + "network.h"], [("on_dispatcher_teardown, conn_peer, retry timer", I + "network.h")], [("Peer::ntry, cur_ntry, retry_delay, inbound_preempt_ping", "retry state per peer", I + "network.h")], ["conn_peer", "terminate", "reg_peer_handler"])
prop("C23", "Messages to a peer survive reconnections",
 "A message accepted by send_msg, send_msg_deferred or multicast_msg for a known peer, at any time and from any thread, whether or not the peer is connected, reaches that peer at most once, intact, and in the order in which its thread sent it, across every loss and replacement of the connection. Only messages already handed to the kernel of a connection that ends may be lost: what was sent before the first connection, while disconnected, or was not yet (or only partly) transmitted when the connection ended is transmitted on the next one, also when a send buffer limit is configured, and the new connection carries nothing else. A multicast message to known peers goes to each of them independently: one whose send buffer is full, or whose connection is disturbed, does not keep it from the others.",
 ["schedules", "histories", "environments"], "senders, workers, dispatcher and disruptions of the connection in all interleavings, with partly transmitted messages", "tests check that traffic resumes, not which messages arrived",
 [I + "network.h", "src/conn.cpp", I + "buffer.h"], [("finish_handshake moves the old send_buffer", I + "network.h"), ("_send_data, send_offset", "src/conn.cpp"), ("known_peers_lock", I + "network.h")], [("Peer::conn, Conn::send_buffer", "queue of accepted messages", I + "network.h")], ["send_msg(peer)", "send_msg_deferred(peer)", "multicast_msg"])
prop("C24", "Unknown and misbehaving peers cannot harm the others",
 "Whatever bytes a remote sends as handshake or heartbeat messages, in any order and at any moment, also from the address of a known peer, the process neither crashes nor aborts. A remote that names an address which is not a known peer is reported once to the unknown peer handler with exactly that address and its connection is ended; a remote sending a malformed message is disconnected; a remote that does not complete the handshake is never reported as a connected peer. Established connections between other peers stay up unless the remote impersonates one of them, and then they recover: once the intruder has gone the two peers have exactly one agreed connection that carries messages, and no socket is leaked.",
 ["inputs", "schedules", "histories"], "all short sequences of genuine, forged and malformed handshake messages at every point of a genuine handshake", "tests only run well-behaved peers",
 [I + "network.h"], [("ping_handler, pong_handler, on_teardown", I + "network.h")], [("known_peers, pending_peers, Conn::peer", "who is who", I + "network.h")], ["reg_unknown_peer_handler", "listen"])
prop("C25", "The peer table does what was asked",
 "add_peer, del_peer, set_peer_addr, conn_peer, send_msg_deferred and multicast_msg take effect in the order of the calls and return identifiers that are pairwise different and increasing; exactly the calls that cannot be performed (unknown peer, peer that exists already, no address) are reported, each once, to the error handler with its identifier and its error code, and send_msg and get_peer_conn throw the corresponding error; has_peer, get_peer_conn and get_npending always agree with the calls made. A removed peer is disconnected at once, also in the middle of a handshake, and not contacted again; it can be added again at any moment, also while other threads use it, and is then reached. A changed address is used by the next attempt.",
 ["inputs", "schedules", "histories"], "all short sequences of calls, racing with the connections they start and end", "tests add all peers once at the beginning",
 [I + "network.h"], [("add_peer, del_peer, set_peer_addr, conn_peer, _multicast_msg", I + "network.h")], [("known_peers, pending_peers, async_id", "the peer table", I + "network.h")], ["add_peer", "del_peer", "set_peer_addr", "conn_peer", "has_peer", "get_peer_conn", "get_npending"])
prop("C26", "Clients are addressed by where they connected from",
 "A message sent with ClientNetwork::send_msg, send_msg_deferred or their C bindings to the address of a connected client reaches exactly that client, once, intact and in order; a message to an address without a connected client is reported (exception, error handler or return value) and goes nowhere; a message that is not accepted because the send buffer is full is reported as such. This holds from every thread and at every moment while clients connect, disconnect, are terminated, and connect again from the same address: the newest connection from an address is the one reached, and other clients are not affected.",
 ["schedules", "histories", "environments"], "clients leaving and returning at every point of other threads' sends", "no test uses ClientNetwork concurrently",
 [I + "network.h"], [("ClientNetwork::on_setup, on_teardown, _send_msg", I + "network.h")], [("addr2conn", "client address -> connection", I + "network.h")], ["ClientNetwork::send_msg", "ClientNetwork::send_msg_deferred"])
prop("C28", "Dead peers are noticed, live ones are kept",
 "While two peers can exchange heartbeats in time their connection stays up for ever, whatever the schedule. When a peer stops answering heartbeats (its host vanished, the network is partitioned, it sends data but no answers), the connection is reported down and ended no earlier than the connection timeout after its last answer and no later than one ping period after that, with no further heartbeats sent without an answer, and when the network heals the peers have exactly one agreed connection again.",
 ["schedules", "histories", "environments"], "silences of the network starting at any point of the exchange, timers against messages", "tests use no partition and run for less than a timeout",
 [I + "network.h"], [("ping_timer, send_ping, pong handling", I + "network.h")], [("ev_ping_timer, ping_timer_ok, pong_msg_ok", "heartbeat state per peer", I + "network.h")], ["PeerNetwork::Config::ping_period", "PeerNetwork::Config::conn_timeout"])

prop("C19", "TLS connections: approval, integrity and isolation",
 "With TLS enabled, messages travel intact, once and in order for every way the network accepts and delivers the records, and never in clear. A connection carries no message to the application before the handshake has succeeded and the connection handler has accepted it: a peer without a certificate, with one that the verification refuses, or refused by the handler, is disconnected, nothing it sent is delivered, and it is never reported as established; the certificate shown to the handler is the one the remote proved to own. Whatever a remote does (garbage, plain text, half a handshake, a broken record, reset, silence, a truncated message) ends at most its own connection: the others keep exchanging messages, new connections work, each end is reported once, and no socket is left open.",
 ["schedules", "environments", "histories", "inputs"], "all placements of misbehaviour and of endings in the handshake and the exchange, short reads and writes, small windows, and interleavings of workers, dispatcher and users", "tests connect two well-behaved TLS nodes over loopback",
 ["src/conn.cpp", I + "conn.h", I + "crypto.h", I + "network.h"], [("_recv_data_tls_handshake, _recv_data_tls, _send_data_tls", "src/conn.cpp"), ("on_worker_setup / update_conn approval", I + "conn.h"), ("TLS, TLSContext", I + "crypto.h")], [("Conn::tls, peer_cert, send_data_func, recv_data_func", "TLS state of a connection", I + "conn.h")], ["ConnPool::Config::enable_tls, tls_skip_ca_check", "reg_conn_handler", "get_peer_cert"])
prop("C20", "The identity of a peer is its certificate",
 "In the certificate-based identity mode a peer's id is the hash of its certificate, the same on every node. A connection reported as established with a peer was made with somebody who owns that certificate; somebody else answering at, or claiming, a peer's address is not mistaken for it, receives none of its messages and does not disturb its connections, and the genuine peer is reached as soon as it appears. An unknown certificate is reported to the unknown peer handler, once, with the claimed address and exactly that certificate, and its connection is ended. Two peers that know each other agree on exactly one connection, at any moments and after any disruption.",
 ["schedules", "histories", "inputs"], "handshakes of two peers with disruptions at every point, impostors known and unknown, forged addresses at every point", "tests use no impostor and no forged address",
 [I + "network.h", "src/conn.cpp"], [("PeerId(X509), _get_peer_id, ping_handler, pong_handler", I + "network.h"), ("on_dispatcher_setup", I + "network.h")], [("Peer::id, addr, known_peers, pending_peers", "identities", I + "network.h")], ["PeerNetwork::Config::identity_mode", "add_peer", "set_peer_addr", "conn_peer", "reg_unknown_peer_handler"])
prop("C29", "Keys, certificates and digests survive their encodings",
 "A private key or certificate written to DER or PEM (also with a password) and read back is the same one; copies of handles share it and moved ones keep it; a truncated or corrupted encoding, a wrong or overlong password, a missing, unreadable or uncreatable file and the wrong kind of file are reported with their own error, and a key that does not belong to the certificate is detected; no input crashes or leaks memory or descriptors. SHA1 and SHA256 give the standard digest of the concatenated input however it is fed, and can be reset and reused.",
 ["inputs"], "all single-byte corruptions and truncations, all file kinds with all loaders, all splits of the input of a digest", "the tests read well-formed files only",
 [I + "crypto.h", "src/crypto.cpp"], [("PKey, X509, TLSContext, Digest wrappers", I + "crypto.h")], [], ["PKey", "X509", "TLSContext", "SHA1", "SHA256"])
prop("C31", "Events fire exactly when armed",
 "A TimerEvent that is armed fires once, at the time of its last arming and not before, in the order of the times; an FdEvent fires for exactly the events it was last armed for and that are ready on its descriptor; a TimedFdEvent fires either for an event, which restarts its period, or with TIMEOUT once the period has passed; a SigEvent fires for its signal (once if armed so) and a CheckEvent on every round of the loop. Nothing fires after it was removed, cleared or destroyed; arming again replaces the arming; moved, swapped, cleared and re-created objects and replaced callbacks behave as the object they took over, including when callbacks do it; operator bool tells whether there is an event; the EventContext can be stopped and dispatched again; nothing is leaked and no signal handler is left behind. The C bindings of events, thread calls and queues behave the same.",
 ["histories", "inputs"], "all short sequences of arming, removing, moving, swapping, clearing, re-creating and letting time pass", "tests arm a timer and never move, swap or clear one",
 [I + "event.h", "src/event.cpp"], [("TimerEvent, FdEvent, TimedFdEvent, SigEvent, CheckEvent", I + "event.h"), ("C bindings", "src/event.cpp")], [("uv handles and their data pointer", "armed state", I + "event.h")], ["add", "del", "clear", "set_callback", "swap", "EventContext::dispatch/stop", "timerev_*", "threadcall_*", "mpscqueue_*", "sigev_*"])
