"""Which harnesses decide which property."""
Q2 = ["-DSALTICIDAE_VERIF_MPMCQ_SIZE=2"]
NETLIBS = ["-lssl", "-lcrypto"]
HARNESS = {
    "queue": dict(kind="mc", srcs=["queue.cpp"], defs=Q2),
    "arc":   dict(kind="mc", srcs=["arc.cpp"], defs=Q2),
    "evq":   dict(kind="mc", srcs=["evq.cpp"], defs=Q2, repo=True, libs=NETLIBS),
    "frame": dict(kind="mc", srcs=["frame.cpp", "net_common.cpp"], defs=Q2, repo=True, libs=NETLIBS),
    "wire": dict(kind="mc", srcs=["wire.cpp", "net_common.cpp"], defs=Q2, repo=True, libs=NETLIBS),
    "life": dict(kind="mc", srcs=["life.cpp", "net_common.cpp"], defs=Q2, repo=True, libs=NETLIBS),
    "p2p": dict(kind="mc", srcs=["p2p.cpp", "net_common.cpp"], defs=Q2, repo=True, libs=NETLIBS),
    "cli": dict(kind="mc", srcs=["cli.cpp", "net_common.cpp"], defs=Q2, repo=True, libs=NETLIBS),
    "ident": dict(kind="mc", srcs=["ident.cpp", "net_common.cpp"], defs=Q2, repo=True, libs=NETLIBS),
    "tls": dict(kind="mc", srcs=["tls.cpp", "tls_common.cpp", "net_common.cpp"], defs=Q2, repo=True, libs=NETLIBS),
    "cnet": dict(kind="mc", srcs=["cnet.cpp", "tls_common.cpp", "net_common.cpp"], defs=Q2, repo=True, libs=NETLIBS),
    "simconf": dict(kind="mc", srcs=["simconf.cpp"]), # conformance of the simulated environment, tools/conform.sh
    "s_ref": dict(kind="seq", srcs=["s_ref.cpp"]),
    "s_codec": dict(kind="seq", srcs=["s_codec.cpp"], repo=True, libs=["-luv", "-lssl", "-lcrypto"]),
    "s_util": dict(kind="seq", srcs=["s_util.cpp"], repo=True, libs=["-luv", "-lssl", "-lcrypto"]),
    "s_crypto": dict(kind="seq", srcs=["s_crypto.cpp"], repo=True, libs=["-luv", "-lssl", "-lcrypto"]),
    "s_event": dict(kind="seq", srcs=["s_event.cpp"], repo=True, libs=["-luv", "-lssl", "-lcrypto"]),
    "s_queue": dict(kind="seq", srcs=["s_queue.cpp"], defs=Q2),
}
MCA = ["sequentially consistent interleavings; memory orders enter through the happens-before race detector, stale atomic reads are not enumerated",
       "the block size of the queues is set to 2 through the SALTICIDAE_VERIF_MPMCQ_SIZE hook",
       "thread switches are enumerated at every atomic access, lock, thread operation and simulated system call; plain accesses are covered by the race detector"]
NETA = MCA[:2] + ["kernel sockets, eventfd and libuv are simulated (TCP byte streams with windows, orderly close and reset, refused and silent connects)", "thread switches are enumerated at locks, thread operations, simulated system calls and loop callbacks, by delay bounding: at most the stated number of deviations from the default schedule and of environment deviations"]
SEQA = ["inputs outside the enumerated alphabet and depth are not covered", "AddressSanitizer and UndefinedBehaviorSanitizer detect memory and arithmetic errors"]
PROPS = {
    "C01": dict(harness=["queue", "s_queue"], bounds="2 producers x 1-3 items, 1-2 consumers, <=2 preemptions (<=3-5 thorough), fresh/recycled/bounded blocks, an operation in flight while blocks are freed and reused; all single-thread operation sequences to depth 10 (13)", assumptions=MCA + SEQA),
    "C02": dict(harness=["queue", "s_queue"], bounds="capacities of 1-7 items over blocks of 2; all single-thread sequences of 16 (21) bounded enqueues/dequeues; 1-3 producers and 0-2 consumers with <=2 (3) preemptions followed by exact capacity checks", assumptions=MCA + SEQA),
    "C03": dict(harness=["s_queue", "queue"], bounds="all sequences of 9 (11) enqueue/dequeue/rewind operations from 12 start states; rewind racing with 1-2 producers, <=3 preemptions", assumptions=MCA + SEQA),
    "C04": dict(harness=["evq"], bounds="1-2 producers x 1-2 items, 1-2 event loops, bursts of 1-3 items, <=1-3 preemptions (2-4 thorough)", assumptions=MCA),
    "C05": dict(harness=["evq"], bounds="1-2 calling threads, every pair of 7 call kinds, stop racing with calls, <=2 preemptions (3-5 thorough)", assumptions=MCA),
    "C06": dict(harness=["arc"], bounds="2 threads: all pairs of 10 handle programs x 3 owner behaviours, <=3 preemptions (7 thorough); 3 threads: all triples, <=1 (2)", assumptions=MCA),
    "C07": dict(harness=["s_ref"], bounds="all sequences of 3 (4) of 21 handle operations over 3 strong, 2 weak, 2 box handles from 4 start states, Rc and Arc; all graphs of 3 nodes", assumptions=SEQA),
    "C08": dict(harness=["s_codec"], bounds="all sequences of 4 (5) of 27 stream operations from 3 start states; all sequences of 3 typed values from 8 types x 8 boundary values, intact and truncated", assumptions=SEQA),
    "C09": dict(harness=["s_codec"], bounds="all 65536 two-byte strings, all words of <=5 (6) characters over 11, 71 256-bit patterns and all their pairs, bit arrays of <=160 bits, all sequences of 3 (4) bit operations, 13 hostile sizes x 34 lengths x 5 header cuts", assumptions=SEQA),
    "C10": dict(harness=["s_codec"], bounds="9 payload sizes x 4 magics x 2 opcode widths, all single-byte corruptions with 16 patterns, all header and hash list truncations, 6 hostile counts; all sequences of 4 (5) of 12 operations on two messages", assumptions=SEQA),
    "C11": dict(harness=["s_codec"], bounds="all sequences of 5 (6) operations with segments of 0-3 bytes and pops of 0-5 bytes", assumptions=SEQA),
    "C14": dict(harness=["frame"], bounds="all streams of <=3 items over 10 well-formed and malformed kinds, every position of one or two cuts, chunk sizes 1-64, receive buffers of 1-4 segments, queues of 1-4 messages, <=1 (2) schedule deviations", assumptions=NETA),
    "C15": dict(harness=["wire"], bounds="1-2 sending threads x 2-4 messages, windows of 2-100 bytes, up to 3 short-write answers per call, two nodes echoing 3-4 messages; <=2 (3) schedule/environment deviations", assumptions=NETA),
    "C16": dict(harness=["wire"], bounds="send buffers of one block, windows of 7-100 bytes, incoming queues of 2, receive buffers of 4-7 segments; <=2 (3) deviations", assumptions=NETA),
    "C17": dict(harness=["life"], bounds="two nodes or a raw peer, one connection, 13 + 8 ways to end it placed at every point, 1-2 workers; <=2 (3) deviations", assumptions=NETA),
    "C18": dict(harness=["life"], bounds="refused, silent and idle connections, 1-2 failing system calls at every call of connect, listen and accept, 2 threads or 3 attempts; <=2 (3) deviations", assumptions=NETA),
    "C27": dict(harness=["life"], bounds="6 ways to stop x 4 activities x 1-2 workers, at every point; <=2 (3) deviations", assumptions=NETA),
    "C21": dict(harness=["p2p"], bounds="two nodes with 1-2 workers, one or both sides calling conn_peer, the second at any point, up to 4 nonces each smaller/equal/larger than the next, retry timers at any time; <=0-2 (1-3) deviations per scenario as listed", assumptions=NETA),
    "C23": dict(harness=["p2p"], bounds="1-2 sending threads, 3-8 messages before, during and after 6 disruptions placed at every point, windows of 20 bytes or unlimited, 1-2 workers, three ways to send, limited send buffers; three peers with multicasts while one connection is disturbed; <=0-1 (1-2) deviations", assumptions=NETA),
    "C22": dict(harness=["p2p"], bounds="two nodes with 1-2 workers, 14 disruptions at any point (seven of them: pairs of points) during or after the handshake, 1-2 nonces enumerated; 0-3 or unlimited tries; <=0-1 (1-2) deviations per scenario as listed", assumptions=NETA),
    "C19": dict(harness=["tls"], bounds="two TLS nodes or one node and a scripted TLS peer; windows of 20-500 bytes, up to 3 short reads or writes, receive buffers of 32-112 bytes, 10 kinds of misbehaving clients and 6 of servers at any point, 7 ways to end a connection at any point, 3 ways to refuse; 1-2 workers; <=0-1 (1-2) schedule/environment deviations as listed", assumptions=NETA + ["OpenSSL itself is not interleaved: it runs over the simulated sockets, TLS 1.3, Ed25519 certificates, deterministic random numbers"]),
    "C20": dict(harness=["tls"], bounds="two or three identities, one or both peers connecting, 3 disruptions at any point, impostors with a known or unknown certificate, a stranger claiming one of 2 addresses in 5 ways at any point; 1-2 workers; <=0-1 (1) deviations as listed", assumptions=NETA + ["OpenSSL itself is not interleaved"]),
    "C29": dict(harness=["s_crypto"], bounds="keys and certificates of 4 types; every byte of every DER encoding replaced by 5 values, every truncation; 9 kinds of PEM files x 6 loaders; all pairs of key and certificate; digests of 0-130 (199) bytes fed in all three-part splits; passwords of 0-1023 characters", assumptions=SEQA),
    "C24": dict(harness=["ident"], bounds="13 kinds of genuine, forged, heartbeat and malformed messages, one or two in a row, from a raw peer at any point of the handshake or of an established connection, also from the listening port of a peer; 9 kinds of answers to an own attempt, remotes that stay silent after any prefix of a handshake; 1-2 workers; <=0-1 (1-2) deviations as listed", assumptions=NETA),
    "C25": dict(harness=["ident"], bounds="all sequences of 1-3 (5) of 13 calls over two peers from 4 start states, compared with a reference table; removal and re-adding at any point against 4 kinds of use by another thread; address changes at any point; 0-257 pending connections; 1-2 workers; <=0-1 (1-2) deviations as listed", assumptions=NETA),
    "C26": dict(harness=["cli"], bounds="2 clients, 7 ways in which one leaves or comes back, at every point, 4 ways to send, a second sending thread at any point, limited send buffers, 1-2 workers; <=0-2 (1-3) deviations as listed", assumptions=NETA),
    "C28": dict(harness=["ident"], bounds="5 network behaviours (steady, delayed, partitioned at any point, healed) over 10 heartbeat periods, scripted peers answering 0, 1 or 3 heartbeats in 3 ways, 1-2 workers; <=1-2 (2-3) deviations", assumptions=NETA),
    "C31": dict(harness=["s_event"], bounds="all sequences of 4 (5-6) of 10-14 calls on two event objects of each kind, with 3-6 callbacks that re-arm, remove or destroy events; descriptors in an error state; the C bindings likewise; virtual time", assumptions=SEQA),
    "C30": dict(harness=["s_codec", "s_util"], bounds="all sequences of 4 (5) of 22 calls, 256 opcodes x 9 payloads, 150 addresses", assumptions=SEQA),
    "C32": dict(harness=["cnet"], bounds="all sequences of 3-4 (4-5) of 13 calls on a message network, of 14 on a peer network, of 8 on a client network, with and without TLS; every configuration function with 2 values; 3x2x4x4x2 ways to give key and certificate; 3x3 heartbeat settings; one schedule per sequence", assumptions=NETA[:-1] + ["the C++ interface is the reference: the same program is run through both on the default schedule"]),
    "C12": dict(harness=["s_util"], bounds="10 hosts x 15 ports, all 65536 ports, all strings of <=6 (8) characters over 6, all formatted lengths 0-3071, all error codes", assumptions=SEQA),
    "C13": dict(harness=["s_util"], bounds="all files of <=3 lines over 16, all command lines of <=3 arguments over 20, combinations of 2+2 (1+3)", assumptions=SEQA),
}
HOOKS = ["8d1031e"]
NA = {}
