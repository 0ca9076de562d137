#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long lines stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))

R, K, F, C, I = "src/routing.rs", "src/packet.rs", "src/frame.rs", "src/connection.rs", "src/interface.rs"
Q, S, U = "src/quictls/cipher_suite.rs", "src/quictls/secrets.rs", "src/utils.rs"

p("C01", "No datagram can take an endpoint down",
  "Whatever bytes arrive from the network, in whatever order and mixed with genuine traffic, receiving, routing and decoding them never panics, aborts or loops forever: a bad datagram or packet is dropped or rejected with an error. "
  "This includes correctly protected packets that carry malformed frames, since Initial keys can be derived by anyone. "
  "Genuine traffic that follows is still accepted, routed and decoded.",
  ["inputs", "histories", "schedules", "fault_sequences"],
  "every sequence of genuine, corrupted, truncated, duplicated, forged and random datagrams, of any size UDP carries, under every interleaving of the threads that use the socket",
  "The tests feed one well-formed sample packet to the decoder and never call accept, routing or the socket at all; malformed input, and its effect on later traffic, is never tried.",
  [R, K, F, U, Q], [("error returns instead of panics on the receive path", R), ("header and packet parsing", K), ("frame parsing", F), ("stream readers", U)],
  observe=["QuicSocket::accept", "decoding of queued datagrams"], hook="simulated socket; access to a connection's inbound queue and to packet decoding")

p("C02", "A datagram reaches exactly the connection it addresses",
  "While a connection is open, every received datagram whose destination connection ID (value and length) is the connection's is appended to that connection's inbound queue exactly once, byte for byte whatever its size and with its sender's address, and in arrival order when a single thread is receiving. "
  "A datagram that addresses no open connection and opens none is delivered to nobody.",
  ["inputs", "histories", "schedules", "fault_sequences"],
  "every arrival order of datagrams for open, closed, never-opened and look-alike IDs (same number, other length), with loss, duplication and reordering, any number of receiving threads, connections opening and closing meanwhile",
  "No test creates a socket or routes a datagram; delivery depends on arrival order, on the set of open connections at that instant and on the thread interleaving.",
  [R, I, U], [("lookup by destination connection ID and hand-over to the connection's channel", R), ("header parsing", K)],
  state=[("open connections", "ID to connection with its inbound queue", R)],
  observe=["inbound queue of each connection"], hook="simulated socket; access to a connection's inbound queue")

p("C03", "One connection per connection attempt, under its own fresh ID",
  "An Initial packet that belongs to no open connection makes exactly one accept call return, with one new connection whose inbound queue begins with the datagram that opened it; copies of that Initial (same client-chosen destination ID), however duplicated, delayed or received by other threads at the same moment, join that connection and open no other. "
  "The ID issued to a connection is 8 bytes long and differs from that of every other open connection, and from the IDs the clients of open connections chose, even when the random source repeats itself, and accepting never replaces or alters another connection. "
  "Nothing but an Initial packet opens a connection.",
  ["schedules", "histories", "inputs", "fault_sequences"],
  "every interleaving of any number of accepting threads with duplicated, retransmitted and reordered Initial packets, closes, and repeated random values",
  "No test calls accept; check-then-insert races, ID collisions and duplicates need particular interleavings, random values and network faults.",
  [R, I, "src/quictls/utils.rs", C], [("accept: ID generation loop and insertion under the write lock", R), ("random connection IDs", "src/quictls/utils.rs")],
  state=[("open connections", "ID to connection", R)],
  observe=["QuicSocket::accept", "set of open connections"], hook="simulated socket, locks, random source; listing of open connections")

p("C04", "Closing a stream forgets that connection and nothing else",
  "Once the drop of a stream has returned, even one by a panicking thread, its connection is no longer open: datagrams for its ID are delivered to nobody and the ID may be issued again, to a connection that starts with nothing left over from the old one. "
  "Every other connection keeps its identity and all datagrams queued for it, and their streams remain usable.",
  ["histories", "schedules", "crash_points"],
  "every order and interleaving of drops with accepts, arrivals, decodes and other drops, including ID reuse straight after a close and a restart of the whole socket",
  "No test opens or drops a stream.",
  [I, R], [("Drop for QuicStream", I), ("removal from the set of open connections", R)],
  observe=["set of open connections", "inbound queues"], hook="simulated socket, locks, random source")

p("C05", "No interleaving deadlocks or starves the socket",
  "However the threads that accept, close, decode, send and toggle logging interleave, none of them waits for ever on another: while accepting threads wait on a silent network, closing, decoding and sending on other threads run to completion. "
  "Once faults stop, every connection attempt that reaches the socket while a thread is accepting is accepted, and every thread comes back, within a bounded number of scheduling steps.",
  ["schedules", "fault_sequences"],
  "every interleaving at lock, channel and socket operations, under both reader- and writer-preferring read-write locks, with the network silent, slow, partitioned or flooding",
  "Tests are single threaded and never touch the locks or the socket.",
  [R, I], [("socket mutex, connection-table lock, per-connection lock, logging-flag lock and their order", R)],
  observe=["return of every call"], hook="simulated socket, mutexes, read-write locks and channels")

p("C06", "A failed receive or bind is reported to its caller and changes nothing else",
  "When the operating system fails a receive, the accept call that was receiving returns that same error (and no other call does); no open connection, queued datagram or later datagram is lost or altered by it. "
  "The socket stays usable: the next accept works as if the failure had not happened. Likewise QuicSocket::bind binds to the first of its addresses that works, and returns the error it met if none does, after which binding can be tried again; and an accept that cannot draw a connection ID because the random source fails returns an error, leaving everything else as it was.",
  ["fault_sequences", "schedules", "crash_points"],
  "every kind of receive error at every receive call, alone or in bursts, every failing bind and draw of random bytes, in any interleaving of accepting threads",
  "No test uses a socket, and a real one cannot be made to fail on demand.",
  [R, I], [("error propagation from the receive call through accept", R)],
  observe=["QuicSocket::accept results", "inbound queues"], hook="simulated socket that fails on schedule")

p("C07", "What one endpoint sends is what its peer decodes",
  "A packet built by one endpoint of a connection and decoded by the other yields the same packet type, connection IDs, token, packet number and the same frames in the same order (apart from trailing padding), in both directions and for every frame type and field value that can be encoded. "
  "This holds for each copy that arrives, whatever was lost, duplicated, delayed or reordered on the way and whatever the two ends have acknowledged so far, unless the copy is so late that its packet number can no longer be told, in which case it is rejected.",
  ["inputs", "histories", "fault_sequences"],
  "all frame sequences, tokens, connection IDs of every length, acknowledgement states and delivery orders",
  "One sample packet with one crypto frame and padding is decoded; decoding is never compared with what was sent, only one packet number encoding length occurs and no packet is ever lost or reordered.",
  [K, F, C, S, U], [("packet build, protect, unprotect", K), ("frame encode and decode", F), ("packet number spaces", C)],
  state=[("largest packet number acknowledged, per space and direction", "governs truncation and reconstruction of packet numbers", C)],
  observe=["packets decoded by the peer"], hook="building, serialising and decoding packets on a connection; recording acknowledgements; installing handshake and application secrets")

p("C08", "Interoperates on the wire with an RFC 9000/9001 peer",
  "Initial and Handshake packets this library emits are accepted, and read identically, by an independent implementation of RFC 9000/9001 packet and frame formats and of AES-128-GCM packet and header protection; and Initial, Handshake, 0-RTT, 1-RTT and Version Negotiation packets emitted by such a peer are read identically by this library. "
  "This covers every connection ID length from 0 to 20, every packet number length from 1 to 4 bytes and every legal variable-length integer encoding, at every point of an exchange with loss, duplication and reordering.",
  ["inputs", "histories", "fault_sequences", "configurations"],
  "all packets and frames an RFC peer may legally send, at any acknowledgement state, in any delivery order",
  "The only wire sample is the RFC 9001 appendix packet (4-byte packet number, 8-byte ID, no token); a bug mirrored on both sides of the codec is invisible to round-trip tests.",
  [K, F, S, Q, U, "src/version.rs"], [("key derivation", S), ("AEAD and header protection", Q), ("packet formats", K), ("frame formats", F)],
  observe=["bytes on the wire", "decoded packets"], hook="building, serialising and decoding packets on a connection")

p("C09", "Forged, altered or misdirected packets are never accepted",
  "A packet is accepted as Initial, 0-RTT, Handshake or 1-RTT only if it is, bit for bit, a packet that the peer of that very connection protected in that direction; any change to its header, token, length, packet number, payload or tag, and any truncation or splice, makes it rejected. "
  "Packets of another connection, of another packet number space, or an endpoint's own packets reflected back at it are rejected too.",
  ["inputs", "histories", "fault_sequences"],
  "every corruption, truncation, splice, replay onto another connection, and reflection, of any genuine packet, at any acknowledgement state",
  "No test presents an altered packet to the decoder.",
  [K, S, Q, C], [("AEAD tag verification with the whole header as associated data", K), ("separate keys per connection, space and direction", C)],
  observe=["packets decoded"], hook="decoding packets on a connection; installing secrets")

p("C10", "A packet number is never used twice under one key",
  "Within one packet number space of one connection, every packet that is built gets a number strictly greater than all earlier ones, whichever threads build them, in whatever interleaving, and whatever acknowledgements arrive (of packets never sent, even) or builds fail in between; spaces and connections count independently. "
  "Hence no two packets protected under one key share a nonce.",
  ["schedules", "histories", "inputs"],
  "every interleaving of threads building packets on shared connections, with acknowledgements and failing builds in between",
  "No test builds two packets on one connection, and none is concurrent.",
  [C, K, S], [("per-space counter under the connection's write lock", C), ("nonce formed from the packet number", S)],
  observe=["packets on the wire, read by a reference peer"], hook="building packets on a shared connection from several simulated threads")

p("C11", "Packet numbers are recovered exactly despite loss and reordering",
  "Once something is acknowledged, the number of bytes used to send a packet number always represents more than twice the distance to the largest number acknowledged; before that the number is sent in full, in four bytes or in enough to represent more than twice of it. A packet whose number cannot be represented like this is refused rather than sent ambiguously, and no other is. "
  "A receiver recovers the full number of every packet that RFC 9000 appendix A.3 can recover from what it received before, up to 2^62-1, and never accepts a packet under another number.",
  ["histories", "fault_sequences", "inputs"],
  "every sequence of losses, reorderings, duplications and lagging acknowledgements, in every packet number space, starting anywhere between 0 and 2^62",
  "Packet number truncation and reconstruction have no tests at all.",
  [C, K], [("truncation relative to the largest acknowledged", C), ("reconstruction relative to the largest received", C), ("reading 1 to 4 byte packet numbers", K)],
  observe=["packet number length on the wire", "recovered packet numbers"], hook="recording acknowledgements and receipts, positioning the packet number counter")

p("C12", "Coalesced packets stand or fall on their own",
  "When several packets share a datagram, each intact packet for which the receiver has keys is decoded, in order, exactly as if it had arrived alone; a packet among them that cannot be decrypted, is damaged in its protected part or is of an unsupported kind is skipped without affecting the others. "
  "Nothing of one packet leaks into the next.",
  ["inputs", "fault_sequences", "histories"],
  "all combinations of intact, undecryptable, damaged and unknown packets and trailing bytes in one datagram, at any acknowledgement state",
  "No test decodes a datagram with more than one packet.",
  [K, R], [("datagram loop over packets and skipping by length", K)],
  observe=["packets decoded from one datagram"], hook="decoding datagrams on a connection; installing secrets")

p("C13", "Memory follows the traffic held, and is given back",
  "Receiving, routing or decoding a datagram allocates no more than a fixed multiple of the datagram's size, whatever lengths and counts it claims to contain (a table of the open connections may grow in proportion to them). "
  "When every stream of a socket has been closed, everything held on their behalf has been released, whatever was received meanwhile.",
  ["inputs", "histories", "schedules"],
  "every datagram, including correctly protected ones whose length fields lie, and every history of opens, arrivals, errors and closes",
  "No test measures allocation or closes anything.",
  [U, F, K, R], [("length-limited reads that grow with the data", U), ("removal of closed connections", R)],
  observe=["bytes allocated and live, from the simulator's allocator"], hook="simulated socket; access to packet decoding")

p("C14", "Queued datagrams decode under their own connection's keys, concurrently",
  "Decoding a queued datagram through a socket shared by many threads gives exactly what decoding it alone would give for the connection it is addressed to, including the first datagram of a connection, which is addressed to the ID the client chose. "
  "If that connection is closed meanwhile the result is either that or an error, never another connection's packets, and enabling traffic logging changes no result.",
  ["schedules", "histories", "configurations"],
  "every interleaving of decodes with accepts, arrivals, closes, ID reuse and logging changes, on any number of connections",
  "No test decodes through a socket; all decoding in tests is sequential on one hand-made connection.",
  [R, K, C], [("connection lookup under the table lock and decode under the connection lock", R)],
  observe=["packets decoded through the socket"], hook="simulated socket and locks; decoding through the socket")

p("C15", "Transport parameters are encoded as RFC 9000 section 18 prescribes",
  "Every transport parameter serialises to its identifier, its length and its value in the encoding of RFC 9000 section 18.2, for all values.",
  ["inputs"], "all parameter kinds and values",
  "No test covers transport parameters.",
  ["src/transport_parameters.rs"], [("TransportParameter::serialize", "src/transport_parameters.rs")], observe=["serialised bytes"])

p("C16", "Every error maps to its own RFC 9000 transport error code",
  "Each error kind converts to the transport error code RFC 9000 section 20.1 assigns to it, and no two kinds share a code.",
  ["inputs"], "all error kinds", "No test covers error codes.",
  ["src/error.rs"], [("Error::to_error_byte", "src/error.rs")], observe=["error byte"])

p("C17", "Traffic is logged exactly while logging is switched on",
  "After QuicSocket::set_log_traffic(true) has returned, every datagram the socket receives, readable or not, and every datagram it decodes is reported on standard output in the call that received or decoded it, by whichever thread; the report shows its header (or the packets decoded from it), so that datagrams with different headers, or different packets, are not reported alike; "
  "after set_log_traffic(false) has returned, and on a fresh socket, nothing is reported about readable traffic. The switch can be used at any time while other threads are inside accept, takes effect for a datagram received afterwards even if the receive was already waiting, and output that cannot be written does not keep later traffic from being reported.",
  ["schedules", "histories", "faults"],
  "every interleaving of switching with accepts, receives, decodes and closes on any number of threads, every order of switching on and off, failing receives and failing output",
  "No test switches logging on; whether the switch takes effect depends on when it meets a receive in progress on another thread.",
  [R, "src/interface.rs"], [("set_log_traffic, and the reports after receiving and after decoding", R)],
  observe=["writes to standard output by the thread that receives or decodes"], hook="simulated socket, locks and standard output")

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
