#!/usr/bin/env python3
"""Writes properties.jsonl. Kept as a script so that the long lines stay readable."""
import json
P = []
def p(id, title, statement, over, quant, why, files, mech, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=quant), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=observe, hook_needed=hook)))

p("C01", "Replayed packets are processed at most once",
  "With the packet history enabled, a node hands every received packet (identified by peer, ordinary or priority flow, and sequence number) to message processing at most once, however often, in whatever order and from however many threads its copies arrive. A sequence number that has not been seen before and is not more than 256 below the highest one seen is always accepted, at any position of the 64-bit counter that a sender can reach. The highest sequence number seen, which is what gets confirmed to the peer, never decreases unless the peer is reset.",
  ["schedules", "histories", "inputs"],
  "every order, duplication and concurrency of deliveries, from an empty and from a running history, across all window boundaries",
  "no existing test touches the history; it needs duplicates, reordering across the 256-wide blocks, and concurrent deliveries",
  ["src/util/packets_history.rs", "src/adnl/node/receiver.rs", "src/adnl/peer.rs"],
  [("512-bit sliding window with an in-transit marker used as a lock", "PacketsHistory::deliver_packet"), ("separate histories per flow", "PeerState::history")],
  ["PacketsHistory::deliver_packet", "message subscribers of a node"],
  [("index/bits/seqno", "window position, delivered bits, highest seqno", "PacketsHistory")], "atomics behind a controlled scheduler")

p("C02", "A message of any size arrives complete and unchanged",
  "Every custom message, query and answer handed to the ADNL layer for a known peer is, if all its packets arrive in any order, given to the receiving node's subscribers (or to the waiting query) exactly once, byte for byte equal to what was sent and attributed to the sending and receiving identities it was sent between. This holds for every size from the four bytes of a constructor to many packets, before, during and after the channel is established, on the ordinary and the priority flow and with every supported setting of the protocol version (none and 0). If a packet of a split message is lost, nothing of that message is ever delivered.",
  ["inputs", "schedules", "configurations"],
  "every message length around each packet-size boundary, every arrival order of the packets, every channel state, every node option that affects the wire format",
  "no existing test sends a message through two nodes; splitting depends on the exact length and on the channel state",
  ["src/adnl/node/sender.rs", "src/adnl/node/receiver.rs", "src/adnl/transfer.rs", "src/proto/adnl.rs"],
  [("splitting into parts", "Node::send_message"), ("reassembly", "Transfer::add_part")],
  ["MessageSubscriber::try_consume_custom", "QuerySubscriber::try_consume_query", "Node::query_raw"], (), "stand-in for the UDP socket")

p("C03", "Reassembly of split messages is exact, bounded and terminates",
  "Whatever parts (any offsets, lengths, total sizes, duplicates, overlaps, empty parts) a peer sends for a split message, in whatever order and from whatever number of threads, adding a part returns, produces a message at most once, and produces it only when the parts put together have exactly the announced length and hash. A duplicate of an already received offset changes nothing, and a set of parts that tiles the message always produces it. Parts which turn out not to form the message are dropped together, so that a later set that tiles it still produces it. An unfinished split message is forgotten once no new part of it has arrived for the transfer timeout (at the latest after twice the timeout), and not earlier.",
  ["inputs", "schedules", "histories"],
  "all sequences of parts over a small message, all interleavings of concurrent parts, all timings relative to the timeout",
  "no existing test covers multi-part transfers; adversarial offsets and concurrent completion are not sampled by unit tests",
  ["src/adnl/transfer.rs", "src/adnl/node/receiver.rs", "src/util/updated_at.rs"],
  [("received length counter switched to a value that fails later checks", "Transfer::add_part"), ("expiry task", "Node::process_message")],
  ["Transfer::add_part", "NodeMetrics::incoming_transfers_len"],
  [("parts/received_len", "collected parts and their total length", "Transfer")], "atomics and maps behind a controlled scheduler, clock")

p("C04", "Only authentic packets have any effect",
  "A datagram influences a node (delivers a message, answers a query, adds or moves a peer, creates, confirms or switches a channel, advances a sequence number or reinit date) only if it is addressed to one of its keys or channels, passes its integrity check, and, with mandatory signatures, was produced by the holder of the private key of the peer it names or by the other end of the channel it uses. Changing, truncating or extending any authentic datagram, sending it to another address of the node, or claiming another identity (by full key or by short id, with a wrong, foreign or missing signature) has no effect and does not make the node fail.",
  ["inputs", "fault_sequences", "configurations"],
  "every single-byte change and truncation of captured handshake and channel packets, every combination of claimed identity and signature an attacker without the key can build, from every channel state",
  "existing tests only encrypt and decrypt one valid channel packet; forgeries need a complete receiver",
  ["src/adnl/node/receiver.rs", "src/adnl/handshake.rs", "src/adnl/channel.rs", "src/adnl/encryption.rs", "src/proto/adnl.rs"],
  [("packet checks", "Node::check_packet"), ("checksum and cipher", "parse_handshake_packet, Channel::decrypt")],
  ["message subscribers", "NodeMetrics", "Node::get_peer_address", "datagrams sent"], (), "stand-in for the UDP socket")

p("C05", "Channels between two nodes always converge",
  "Whatever datagrams two nodes lose, duplicate, delay or reorder while they establish, use, reset or re-establish their channel, once datagrams arrive again and both keep talking every message sent by either side is understood by the other, and both eventually use the channel instead of handshakes. A side encrypts with a channel only after the other side has shown that it has that channel, and each remote peer has at most one channel (with its ordinary and priority variant) per local identity. Because of unanswered queries a side drops its channel only when nothing has come through it for the reset timeout since the first of them, and then does so with the next one. Channels of one pair of identities never affect another pair.",
  ["schedules", "fault_sequences", "histories"],
  "every loss, duplication and reordering of the first messages of a pair of nodes up to a bound of faults, combined with resets, restarts and peer removal, for one and for two local identities",
  "no existing test runs two nodes; convergence is a statement about all fault sequences",
  ["src/adnl/node/receiver.rs", "src/adnl/node/sender.rs", "src/adnl/node/mod.rs", "src/adnl/channel.rs", "src/adnl/peer.rs"],
  [("CreateChannel/ConfirmChannel exchange", "Node::create_channel, Node::send_message"), ("drop timeout", "Channel::update_drop_timeout, Node::reset_peer")],
  ["message subscribers", "datagram kinds on the wire", "NodeMetrics"],
  [("channels_by_id/channels_by_peers", "channels by incoming id and by peer", "Node")], "stand-in for the UDP socket, clock")

p("C06", "A restarted peer replaces its old self and never the reverse",
  "A node follows a peer to a newer incarnation (later reinit date) and from then on rejects handshake packets of every older incarnation; the accepted date never moves backwards, also under concurrent packets. A packet that announces an incarnation further in the future than the clock tolerance, or that targets a later incarnation of the receiver than the current one, is rejected without effect; one that targets an earlier incarnation of the receiver is not processed, but answered so that the sender can learn the current one. A newer incarnation starts with fresh sequence numbers in both directions.",
  ["histories", "schedules", "inputs"],
  "all sequences of packets from several incarnations of a peer and to several incarnations of the receiver, at clock values around the tolerance",
  "needs packets from different incarnations in adversarial order; no existing test has any",
  ["src/adnl/node/receiver.rs", "src/adnl/peer.rs"],
  [("reinit date comparison", "Node::check_packet, Peer::try_reinit_sender")],
  ["message subscribers", "datagrams sent", "sequence numbers on the wire"], (), "clock, atomics behind a controlled scheduler")

p("C07", "Every query ends exactly once, with its own answer or at its timeout",
  "Every query gives its caller exactly one result: the first answer that carries its own id, or nothing once its timeout (the requested or default one, but at least the configured minimum) has passed, and never before. Answers that are late, duplicated, unknown or that belong to another query in flight change nothing, also when answers, timeouts and cancellations race. When a query has ended in any way, including the caller dropping it or the send failing, nothing of it remains in the node.",
  ["schedules", "histories", "fault_sequences"],
  "all orders of answers, duplicates, losses, timeouts and cancellations of several overlapping queries, and all interleavings of the racing pair",
  "needs control over when answers and timers fire; no existing test issues a query",
  ["src/adnl/queries_cache.rs", "src/adnl/node/mod.rs"],
  [("oneshot per query id", "QueriesCache"), ("removal on drop", "PendingAdnlQuery::drop")],
  ["Node::query_raw", "NodeMetrics::query_count"], (), "clock, maps behind a controlled scheduler, stand-in for the UDP socket")

p("C08", "Incoming traffic reaches the right subscriber, in order, once",
  "An incoming query is offered to the registered query subscribers in registration order until the first one consumes it; every offer sees the same bytes and constructor, later subscribers never see a consumed query, an answer is sent if and only if the consumer provided one, and the built-in ping is answered after all others rejected. An incoming custom message is likewise offered in order until the first subscriber that accepts it. A subscriber that fails stops only the message it failed on.",
  ["programs", "inputs", "configurations"],
  "every combination of subscriber behaviours (consume with and without answer, reject, fail) for one to three subscribers, for queries, messages and several messages in one packet, over ADNL and RLDP",
  "no existing test registers a subscriber and sends traffic to it",
  ["src/subscriber/mod.rs", "src/adnl/node/receiver.rs", "src/adnl/node/mod.rs", "src/adnl/ping_subscriber.rs", "src/rldp/transfers_cache.rs"],
  [("subscriber chain", "process_query, process_message_custom")],
  ["calls observed by recording subscribers", "answers received by the caller"], (), "stand-in for the UDP socket")

p("C09", "The peer table reflects exactly the accepted additions and removals",
  "For each local identity the node knows exactly the peers that were added (by the application or by an authentic packet carrying an address list) and not removed since; adding is refused for the node's own identity or address and for anything the peer filter rejects, and adding a known peer updates only its address. A removed peer can neither be sent to nor be heard from until it is added again, and after it is added again the pair communicates normally. Operations on one local identity never change what is known for another.",
  ["histories", "inputs"],
  "all sequences of add, remove, re-add, send and receive operations over two local identities and three peers up to a depth, with and without a peer filter",
  "needs operation histories against a reference table; existing tests cover only address packing",
  ["src/adnl/node/mod.rs", "src/adnl/peer.rs", "src/adnl/node/receiver.rs"],
  [("per-identity maps", "Node::add_peer, Node::remove_peer")],
  ["Node::get_peer_address", "Node::add_peer", "Node::remove_peer", "NodeMetrics"], (), "stand-in for the UDP socket")

p("C10", "The bounded peer set behaves as a ring of unique peers",
  "A peer set never holds more peers than its capacity and never the same peer twice; inserting an absent peer into a full set replaces exactly the oldest one, inserting a present one changes nothing, and removing one keeps the others and their order of age. Membership, length, fullness, indexing, iteration and cloning always agree with each other and with the history of insertions, and the version grows exactly with each change. Random selections return distinct members, at most the requested number and as many as possible, and never an excluded peer; filling one set from another only adds members of the other that are not excluded, and no combination of concurrent calls deadlocks.",
  ["histories", "schedules", "inputs"],
  "all insertion sequences up to a depth for small capacities, all amounts and exclusions for selections, all interleavings of two or three concurrent calls",
  "existing tests try a handful of insertions; they neither enumerate eviction histories nor run anything concurrently",
  ["src/adnl/peers_set.rs"],
  [("ring index plus lookup map", "PeersSetState::insert")],
  ["PeersSet public API"], (), "locks behind a controlled scheduler")

p("C11", "The keystore maps tags and identities to keys one to one",
  "After any sequence of additions every tag refers to exactly the key it was added with, every identity of an added key can be looked up, a key is reachable by at most one tag, and the lookup results sign with that key. Adding another key under a used tag, or a known key under another tag, fails and leaves the keystore unchanged; repeating an addition succeeds and changes nothing.",
  ["histories"],
  "all sequences of additions of a few keys under a few tags",
  "no existing test covers the keystore; failing additions matter only for what they leave behind",
  ["src/adnl/keystore.rs", "src/adnl/node_id.rs"],
  [("tag and key maps", "Keystore::add_key")], ["Keystore public API"])

p("C12", "Address lists are accepted exactly while they are valid",
  "An address list yields its IPv4 address and port if and only if it contains an address with a port of at most 65535, its reinit date is not further in the future than the clock tolerance, and it has not expired (an expiry of zero never expires). The list a node announces about itself is always accepted by its peers with a synchronised clock during its validity, and names the address and port the node listens on; only if the node uses the loopback interface for its neighbours, a peer at the same IP address may be told the loopback address, and is sent to there, while all others are not affected.",
  ["inputs", "configurations"],
  "all combinations of the list fields and the clock around every threshold, and all announced lists over the whole validity period",
  "existing tests only check that a port can be set",
  ["src/util/address_list.rs", "src/adnl/node/sender.rs", "src/adnl/node/mod.rs", "src/dht/node.rs", "src/proto/adnl.rs"],
  [("validation", "parse_address_list"), ("construction", "Node::build_address_list")],
  ["parse_address_list", "peers learned from packets", "DHT address lookups"], (), "clock")

p("C13", "The DHT storage only holds values their owners may store",
  "The DHT stores a signed value only under the id computed from its key and only if the key owner's signatures over the key description and over the value are valid, its update rule is the one stored with it, and the key name and index are within limits; it stores a value with the overlay nodes rule only if the key is the one of that overlay, and keeps of it only the validly signed members of that overlay, of which there must be at least one. Values with any other update rule, and malformed values, are never stored, and a refused value changes nothing. What is returned for a key is exactly what was stored under it.",
  ["inputs", "histories", "fault_sequences"],
  "every single-field corruption of every kind of value, and all sequences of valid and invalid stores up to a depth",
  "no existing test stores anything in the DHT",
  ["src/dht/storage.rs", "src/dht/node.rs", "src/proto/dht.rs", "src/overlay/overlay_id.rs"],
  [("validation before insertion", "Storage::insert")], ["Storage::insert", "Storage::get_ref", "DHT store and find queries"], (), "clock")

p("C14", "Stored DHT values are fresh",
  "A stored value is returned until its expiration time and never after, and is forgotten by garbage collection only after it expired. A signed value is replaced only by one with a later expiration time, under any order and concurrency of stores. For the nodes of an overlay, a store which would end before the stored ones changes nothing, any other store is merged: each node's entry is replaced only by a newer version of the same node, and no store loses a current entry of another node, keeps an expired one or adds duplicates.",
  ["histories", "schedules"],
  "all sequences of stores, reads, collections and clock steps up to a depth; all interleavings of two concurrent stores",
  "freshness is a statement about histories and clocks; no existing test has either",
  ["src/dht/storage.rs"],
  [("ttl comparison", "Storage::insert"), ("merge", "Storage::insert_overlay_nodes"), ("gc", "Storage::gc")],
  ["Storage::get_ref", "Storage::insert"], (), "clock, maps behind a controlled scheduler")

p("C15", "DHT lookups return only authentic values of the requested key",
  "Whatever the queried peers answer, a DHT lookup gives the application only values whose key is exactly the requested one and whose signatures (or, for overlay nodes, node entries) are valid; an address lookup returns an address only if it was signed by the owner of the looked-up identity and is currently valid. A bad, unexpected or missing answer of one peer neither ends the lookup with an error nor hides an authentic value that another queried peer has.",
  ["fault_sequences", "inputs", "schedules"],
  "every combination of honest, empty, corrupted, foreign-key and unverifiable answers of up to three peers, in every order of arrival",
  "needs malicious peers; no existing test performs a lookup",
  ["src/dht/node.rs", "src/dht/streams.rs", "src/dht/entry.rs"],
  [("answer verification", "Node::parse_value_result, verify_signed_dht_value")], ["DhtValuesStream", "Node::find_address", "Node::find_overlay_nodes"], (), "stand-in for the UDP socket, clock")

p("C16", "The routing table keeps valid peers and finds the closest",
  "A peer enters the DHT routing table, whichever way its description arrives, only with a valid signature over its own description and a usable address, never the node itself, and its description is replaced exactly by a newer version signed by the same peer; one invalid description does not affect the others it came with. For any key, the answer to a find-node request consists of distinct known peers which are closer to the key than the node itself, as many as there are up to the requested number, and never omits a peer of a closer distance class in favour of one of a farther class.",
  ["histories", "inputs"],
  "all sets of peers over a small id space and all keys and counts, compared with a brute-force reference; all insertion histories up to a depth",
  "existing test checks one bit-distance example",
  ["src/dht/buckets.rs", "src/dht/node.rs"],
  [("256 buckets by common prefix", "Buckets::find, get_affinity")], ["Buckets::find", "Node::add_dht_peer", "find-node queries"], (), None)

p("C17", "Iterative DHT lookups and stores are complete and terminate",
  "A value lookup asks the known peers which are closest to the key, up to its limit (all of them if it uses the full batch), and likewise the peers it learns on the way if it uses new ones; it asks each of them at most once, with at most five queries at a time, ends when there is nobody left to ask, and finds an authentic value whenever some asked responsive peer has it, in every order of answers and timeouts. Storing a value keeps it locally, offers it once to every known peer, and reports success exactly if a verifying read found it afterwards; it ends in bounded time even if no peer answers. The search for the members of an overlay ends too, and finds each member it was told about whose address somebody has.",
  ["schedules", "fault_sequences", "configurations"],
  "every assignment of behaviours (holds the value, knows another peer, silent, fails) to up to four peers and every order of answers",
  "no existing test performs a lookup; order and loss are not controllable in unit tests",
  ["src/dht/streams.rs", "src/dht/futures.rs", "src/dht/peers_iter.rs", "src/dht/node.rs", "src/dht/entry.rs"],
  [("wave of parallel requests", "DhtValuesStream::poll_next"), ("store and verify", "StoreValue")], ["dht::Entry API", "queries seen by the peers"], (), "stand-in for the UDP socket, clock")

p("C18", "DHT peers are scored and retired consistently",
  "Each unsuccessful query to a DHT peer (also one which is not answered in time) raises its penalty by two points, and each answered query or authentic announcement lowers it by one, never below zero. A peer counts as bad, and is skipped by value lookups, exactly while its penalty is above the configured threshold. A bad peer stays known and is used again once its penalty is back at the threshold; forged announcements change nothing.",
  ["histories", "fault_sequences"],
  "all sequences of successful and failed queries and announcements of a peer up to a depth",
  "no existing test covers penalties",
  ["src/dht/node.rs", "src/dht/peers_iter.rs", "src/dht/buckets.rs"],
  [("penalty table", "Node::update_peer_status, Node::is_bad_peer")], ["find-node answers", "queries sent by a lookup"], (), "stand-in for the UDP socket")

p("C19", "RLDP transfers deliver the exact payload or fail within the timeout",
  "An RLDP query delivers to the remote subscriber exactly the bytes sent, at most once, and returns to the caller exactly the answer bytes, for every payload size from a single word (a TL constructor) to several transfer parts and for every bounded pattern of lost, duplicated, delayed and reordered packets; if too much is lost it ends without an answer when nothing new has come for its configured timeout (which every received packet extends by one percent). The sending side stops as soon as it hears that everything was received. A payload is never delivered truncated, corrupted, mixed with another transfer or attributed to another peer.",
  ["inputs", "fault_sequences", "schedules"],
  "every payload size around the symbol and part boundaries and every loss, duplication and reordering pattern up to a bound over the packets of a transfer",
  "no existing test runs a transfer",
  ["src/rldp/transfers_cache.rs", "src/rldp/incoming_transfer.rs", "src/rldp/outgoing_transfer.rs", "src/rldp/encoder.rs", "src/rldp/decoder.rs", "src/rldp/node.rs"],
  [("fountain coded parts with confirm and complete messages", "TransfersCache, IncomingTransfer, OutgoingTransfer")],
  ["rldp::Node::query", "QuerySubscriber::try_consume_query"], (), "stand-in for the UDP socket, clock")

p("C20", "RLDP state stays bounded under hostile input",
  "Whatever RLDP messages a peer sends (any sizes, part numbers, sequence numbers, fountain parameters, unknown or finished transfer ids), a node does not panic or hang, rejects payloads above the configured answer size limit, and delivers at most one query per transfer id while it remembers this id. When a transfer has completed, failed, timed out or its caller has given up, and its grace period is over, nothing of it remains in the node, and the per-peer query limit is released, so that later transfers work.",
  ["inputs", "fault_sequences", "histories"],
  "every message of a grammar of hostile RLDP messages, alone and in pairs, at every stage of a transfer",
  "needs crafted peers and a clock; no existing test has either",
  ["src/rldp/transfers_cache.rs", "src/rldp/incoming_transfer.rs", "src/rldp/node.rs", "src/rldp/decoder.rs"],
  [("transfer table", "TransfersCache"), ("per-peer semaphore", "rldp::Node::query")], ["rldp::Node::metrics", "later queries"], (), "stand-in for the UDP socket, clock")

p("C21", "The fountain code reconstructs from any sufficient symbol set",
  "For every payload size, the fountain encoder produces an endless deterministic series of symbols of the fixed size such that whenever the decoder accepts a set of distinct symbols and returns data, that data is exactly the encoded payload; the complete set of source symbols always decodes, and adding more distinct symbols to an undecodable set eventually decodes. Invalid parameters are rejected without a panic.",
  ["inputs", "schedules"],
  "every subset and order of a window of symbols for payload sizes around symbol boundaries, and invalid parameter combinations",
  "no existing test covers the codec wrapper",
  ["src/rldp/encoder.rs", "src/rldp/decoder.rs"],
  [("RaptorQ wrapper", "RaptorQEncoder, RaptorQDecoder")], ["RaptorQEncoder::encode", "RaptorQDecoder::decode"], (), None)

p("C22", "Optional compression is transparent",
  "Compressing and then decompressing returns the original bytes for every input, decompressing arbitrary bytes either fails or returns data without a panic, and data up to the size threshold are left untouched by the sender. A query or answer sent with forced compression arrives as the original bytes at any receiver.",
  ["inputs", "configurations"],
  "all input lengths around the threshold with several content classes, all single-byte corruptions and truncations of compressed data",
  "one random sample is tested today",
  ["src/rldp/compression.rs", "src/rldp/transfers_cache.rs", "src/rldp/node.rs"],
  [("zstd with a tag byte", "compression::compress, compression::decompress")], ["compression functions", "rldp queries with forced compression"], (), None)

p("C23", "Overlay broadcasts are delivered exactly once to every reachable member",
  "Every broadcast a node sends into an overlay (short, or long with forward error correction) is delivered to the application of every other member connected through members, exactly once per member while it is remembered, with exactly the bytes and the source identity it was sent with, whatever the order (a packet of a long broadcast may be overtaken by up to 256 others), duplication and paths of its packets; a loss that leaves enough packets of a long broadcast does not prevent delivery, and the sender sends at least half as many more as are needed. The sender never receives its own broadcast, and a broadcast causes a finite number of packets. Broadcasts of the same content by several members count as one.",
  ["schedules", "fault_sequences", "configurations", "inputs"],
  "all delivery orders, duplications and bounded losses of the packets of one and two broadcasts over every small topology",
  "no existing test sends a broadcast",
  ["src/overlay/overlay.rs", "src/overlay/node.rs", "src/overlay/broadcast_receiver.rs"],
  [("table of owned broadcasts", "Overlay::receive_broadcast, Overlay::receive_fec_broadcast"), ("redistribution", "Overlay::distribute_broadcast")],
  ["Overlay::wait_for_broadcast", "datagrams sent"], (), "stand-in for the UDP socket, clock")

p("C24", "Only authentic, current broadcasts are accepted or forwarded",
  "A member delivers or forwards a broadcast packet only if it carries a valid signature of the claimed source over everything it says about the broadcast (content or part, hash, size, flags and date) and its date is not older than the broadcast timeout; a long broadcast is delivered only if the reassembled data has the announced size and hash. A forged, altered, outdated or malformed broadcast packet is not delivered, is not forwarded, and does not prevent the genuine broadcast with the same content from being delivered.",
  ["inputs", "fault_sequences", "schedules"],
  "every single-field corruption of each broadcast packet, before, between and after the genuine packets",
  "needs forged packets; no existing test has any",
  ["src/overlay/overlay.rs", "src/proto/overlay.rs"],
  [("signature and date checks", "Overlay::receive_broadcast, Overlay::receive_fec_broadcast")],
  ["Overlay::wait_for_broadcast", "datagrams sent"], (), "stand-in for the UDP socket, clock")

p("C25", "The queue of received broadcasts loses nothing and wakes everyone",
  "Every received broadcast is returned by exactly one wait call, in the order of reception for a single consumer. A waiting consumer is woken whenever there is an item for it, with any number of concurrent producers and consumers and with consumers that give up waiting at any moment.",
  ["schedules", "histories"],
  "all interleavings of up to three producers, consumers and cancellations",
  "lost wakeups only show under specific schedules; there is no test",
  ["src/overlay/broadcast_receiver.rs"],
  [("queue and wakeup", "BroadcastReceiver::push, BroadcastReceiver::pop")], ["Overlay::wait_for_broadcast", "BroadcastReceiver::pop"], (), "queues and atomics behind a controlled scheduler")

p("C26", "Overlay membership only admits valid, wanted members",
  "A node learns overlay members only from entries that are validly signed for exactly that overlay by the member's own key; it never learns itself, and a peer removed from an overlay is neither used as a neighbour nor handed to others until it is added again. The list of members a node hands out contains its own validly signed entry and only such validly signed entries of members it knows, and reading received peers returns each entry once with the newest version.",
  ["inputs", "histories"],
  "every single-field corruption of a member entry, and all sequences of add, remove, exchange and read operations up to a depth",
  "no existing test covers membership",
  ["src/overlay/overlay.rs", "src/overlay/overlay_id.rs", "src/overlay/node.rs"],
  [("entry verification", "OverlayId::verify_overlay_node"), ("peer bookkeeping", "Overlay::add_public_peer, Overlay::remove_public_peer")],
  ["Overlay public API", "random peers exchange queries"], (), "stand-in for the UDP socket")

p("C27", "Overlay traffic stays within its overlay",
  "A query or message prefixed with an overlay id is handled only by the subscriber of that overlay, which sees exactly the bytes after the prefix; traffic for an unknown overlay or without a valid prefix is not given to any overlay's subscriber. Adding an overlay or a subscriber is reflected immediately, is refused if there already is one, and never affects another overlay.",
  ["histories", "inputs"],
  "all sequences of overlay and subscriber additions up to a depth with traffic to each overlay after every step",
  "no existing test registers an overlay and sends traffic to it",
  ["src/overlay/node.rs", "src/overlay/overlay.rs"],
  [("dispatch by overlay id", "overlay::node::NodeState")], ["subscriber calls", "answers"], (), "stand-in for the UDP socket")

p("C28", "Wire formats round-trip and reject malformed input safely",
  "Every packet and message the node can build is encoded as the TL scheme defines and parsed back to equal contents, and its signature covers every field except the signature itself, for every combination of optional fields. Parsing any truncated, extended or corrupted form of such bytes never panics or reads out of bounds.",
  ["inputs"],
  "all combinations of optional packet fields and message kinds with lengths around the encoding thresholds, every truncation and every single-byte change",
  "existing tests only check address conversion",
  ["src/proto/adnl.rs", "src/proto/dht.rs", "src/proto/overlay.rs", "src/proto/rldp.rs"],
  [("hand-written readers and writers", "IncomingPacketContents, OutgoingPacketContents, PacketContentsSignature")], ["tl_proto::serialize, tl_proto::deserialize"], (), None)

p("C29", "Stopping a node stops it and releases its work",
  "After a node is shut down it processes no further datagrams and sends none, starting it a second time or registering subscribers after the start fails without an effect, and pending queries end at their timeouts. After a node which was shut down (or never started) and everything built on it are dropped, none of its background tasks keeps running. A node that is not shut down keeps serving whatever invalid, empty or oversized datagrams it receives and whatever errors its socket reports.",
  ["histories", "fault_sequences"],
  "all sequences of lifecycle operations with traffic between them up to a depth",
  "no existing test starts and stops a node under traffic",
  ["src/adnl/node/mod.rs", "src/adnl/node/receiver.rs", "src/adnl/node/sender.rs"],
  [("cancellation token", "Node::shutdown")], ["datagrams sent", "subscriber calls"], (), "stand-in for the UDP socket")

p("C30", "RLDP flow control accounting stays consistent",
  "The sender of an RLDP transfer moves to the next part exactly once per completed part and only forwards, in every interleaving of its sending loop with incoming confirmations and completions, and never reports the transfer as finished before every part was confirmed complete by the receiver or, for the last part, an answer has begun to arrive. It numbers the symbols of each part from zero, and goes on to new symbols as long as the source symbols are not sent or at most 1000 numbers follow the last confirmed one. Confirmations that are late, duplicated, out of range or for another part have no effect on any of that.",
  ["schedules", "inputs"],
  "all interleavings of the sending loop with up to two concurrent incoming messages, and all short sequences of confirm and complete messages",
  "needs control over thread interleavings",
  ["src/rldp/outgoing_transfer.rs", "src/rldp/transfers_cache.rs"],
  [("part counter advanced by compare and swap", "OutgoingTransferState")], ["OutgoingTransfer", "messages sent"], (), "atomics behind a controlled scheduler")

p("C31", "What is stored or announced in the DHT is what others find",
  "With the nodes reachable and no datagram lost: a value which a node signs and stores for an owner, name, index and expiry (an explicit time, a time to live, or the configured default) is found by every other node which asks for exactly that owner, name and index, with its exact bytes and owner, by streams and direct requests, as long as it has not expired, and under no other key. After a node announced its address it is found under its key as announced, and after an overlay member announced itself it is found among the members of exactly that overlay. A ping succeeds exactly if the peer answers with the random number which was sent. A node introduces itself to others only when it is asked to.",
  ["histories", "inputs"],
  "all combinations of entry options, and all short sequences of announcements, requests and pauses over three topologies of real nodes",
  "no existing test runs more than one DHT node",
  ["src/dht/entry.rs", "src/dht/node.rs", "src/dht/streams.rs", "src/dht/storage.rs"],
  [("typed entries", "Entry, EntryWithData"), ("requests", "dht::Node::ping, query_dht_nodes, store_value")], ["dht::Node public API", "datagrams sent"], (), "stand-in for the UDP socket, clock")

p("C32", "Layers combined with NetworkBuilder serve each of them",
  "A node built with NetworkBuilder from any supported combination and order of layers (adnl, dht, rldp, overlay) serves queries and messages of every layer present, with the options and identities (key tags) it was given, in both directions, at the given address and with the given peer filter, whatever user subscribers are added and wherever. Layers which are absent do not answer. The build starts the node, and it fails exactly if the address is not a usable IPv4 one or a key tag is missing; a failed build leaves neither tasks nor an open socket behind.",
  ["inputs", "histories"],
  "all combinations and orders of layers with all kinds of traffic, options and defects of the configuration",
  "no existing test uses the builder",
  ["src/util/network_builder.rs", "src/adnl/mod.rs", "src/dht/mod.rs", "src/rldp/mod.rs", "src/overlay/mod.rs"],
  [("composition of layers", "NetworkBuilder")], ["NetworkBuilder public API", "answers"], (), "stand-in for the UDP socket")

p("C33", "An overlay's memory of broadcasts is long enough and bounded",
  "An overlay remembers each broadcast which it received, or sent (its last packet included), for at least the broadcast timeout; until then, and as long as the packets are not outdated, no copy of them is delivered again, however many other broadcasts come (when the clocks of the members agree). Afterwards it keeps at most the configured number of them and forgets the others at the next collection; an incomplete long broadcast is forgotten in the same way once no packet of it has arrived for the timeout. A forgotten broadcast leaves nothing behind: with a current date it is sent, or delivered, again. Forged, outdated or malformed packets are not remembered at all.",
  ["histories", "inputs"],
  "all short sequences of short and long broadcasts, own ones, incomplete ones, copies, forgeries and pauses around the timeout",
  "no existing test lets broadcasts expire; the windows depend on the phases of a clock in seconds and of two timers",
  ["src/overlay/overlay.rs", "src/overlay/node.rs"],
  [("collection of finished broadcasts", "start_gc, spawn_broadcast_gc_task"), ("end of long broadcasts", "process_fec_broadcast, is_broadcast_outdated")], ["OverlayMetrics", "broadcasts delivered and sent"], (), "clock")

with open('/verif/properties.jsonl', 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P))
