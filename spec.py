#!/usr/bin/env python3
"""The properties, and how each is decided. `python3 spec.py` writes properties.jsonl and MANIFEST.json."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import PROPS

DEC = ["netcode/decoder.hh", "netcode/detail/decoder.cc", "netcode/detail/decoder.hh"]
ENC = ["netcode/encoder.hh", "netcode/detail/encoder.cc", "netcode/detail/encoder.hh"]
PZ = ["netcode/detail/packetizer.hh"]
C_API = ["netcode/c/encoder.cc", "netcode/c/decoder.cc", "netcode/c/packet.cc", "netcode/c/data.cc", "netcode/c/detail/check_error.hh"]


def m(name, where):
    return {"name": name, "where": where}


P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note))


prop("C01", "Every delivered datum is byte-for-byte a datum that was sent",
     "Whatever the decoder hands to the data handler has exactly the bytes and the length of some datum given to the encoder, whether it arrived in its own packet or was rebuilt from repairs. This holds for every supported field size, any mix of data sizes (multiples of the word size), any identifiers, and any loss, duplication, reordering or delay of the encoder's packets.",
     ["inputs", "histories", "schedules", "configurations"],
     "all field sizes, data sizes and contents, both delivery orders, both code types, any loss/duplication/reordering of the encoder's packets, any identifiers below the wrap",
     "Tests decode a few hand-made scenarios with tiny equal data; a wrong coefficient, size or length for one combination of sizes, field, identifiers or decoding path corrupts data silently.",
     ENC + DEC + ["netcode/detail/galois_field.hh", "netcode/detail/invert_matrix.cc"],
     [m("repairs are linear combinations of the sources and of their sizes", "netcode/detail/encoder.cc"),
      m("single-source reconstruction and matrix inversion", "netcode/detail/decoder.cc"),
      m("sizes recovered with the same combination", "netcode/detail/decoder.cc")],
     "stateful property-based testing (generated lossy transmissions, sent data as the oracle) + libFuzzer",
     "Every delivery of every generated history is compared with what was sent. Exploration of generated histories; nothing is proved.")

prop("C02", "No datum is delivered twice",
     "The data handler gets each datum at most as many times as it was given to the encoder, however many times its packet or the repairs covering it are received, and also when it arrives after having been rebuilt, or is rebuilt again from late or replayed repairs.",
     ["histories", "schedules", "configurations"],
     "all schedules of the encoder's packets with duplication, replay of any old packet, reordering and loss; all configurations",
     "Whether a duplicate is recognised depends on which of known / missing / outdated / recovered state the datum is in when its copies arrive; tests cover a few fixed orders.",
     DEC, [m("known-source and missing-source sets, outdated threshold", "netcode/detail/decoder.cc")],
     "stateful property-based testing (duplicating and replaying network, multiset oracle) + libFuzzer",
     "Counts deliveries per datum against what was sent, over generated histories with replayed packets.")

prop("C03", "In-order delivery never goes backwards",
     "A decoder asked to deliver in order gives data in the order in which they were given to the encoder: a delivered datum always comes after all those delivered before it, whatever was lost, recovered late, abandoned or received out of order.",
     ["histories", "schedules", "configurations"],
     "all schedules of loss, reordering, duplication and late repairs, with data abandoned by the encoder's window",
     "The order depends on interleavings of direct arrival, recovery and abandonment; tests use a handful of fixed sequences.",
     DEC, [m("ordered buffer of known sources, flushed from the first missing one", "netcode/detail/decoder.cc")],
     "stateful property-based testing (sequence oracle) + libFuzzer",
     "Deliveries must form a subsequence of the data sent, in order, over generated histories.")

prop("C04", "Delivery is as prompt as the delivery order allows",
     "Out of order, a datum received in its own packet for the first time is delivered during that call, unless the sender already abandoned it. In order, a datum is delivered as soon as it is known and every older datum has been delivered or abandoned by the sender (a repair came whose oldest datum is more recent), and not before.",
     ["histories", "schedules", "configurations"],
     "all schedules of loss, reordering, duplication and abandonment, in both delivery orders",
     "A datum forgotten in the reordering buffer, or released early, needs a specific interleaving of gaps, recoveries and abandonment that tests don't enumerate.",
     DEC, [m("ordered buffer and its flush", "netcode/detail/decoder.cc"), m("outdated sources dropped when a repair moves the front", "netcode/detail/decoder.cc")],
     "stateful property-based testing (a twin decoder reveals what is known; a model says what must be out) + libFuzzer",
     "After each packet the exact sequence of in-order deliveries is predicted from a twin out-of-order decoder fed with the same packets.")

prop("C05", "Whatever can be decoded is decoded, at once",
     "As soon as the repairs and data received, and not abandoned by the sender, determine the missing data they involve (as many independent repairs as missing data, or a repair with a single missing datum, and so on transitively), the decoder delivers them, subject to the delivery order. No repair that could still be useful is dropped.",
     ["histories", "schedules", "configurations", "inputs"],
     "all schedules and all sets of received packets, in all field sizes, including dependent repairs and window moves",
     "The quantifier is over every subset and order of repairs and sources; tests pick small ones where decoding obviously works.",
     DEC + ["netcode/detail/invert_matrix.cc", "netcode/detail/galois_field.hh"],
     [m("one-missing-source shortcut", "netcode/detail/decoder.cc"), m("full decoding by matrix inversion", "netcode/detail/decoder.cc"),
      m("removal of linearly dependent repairs", "netcode/detail/decoder.cc")],
     "stateful property-based testing (independent rank model over GF(2^w)) + libFuzzer",
     "An independent Gaussian-elimination model says which data are determined after each packet. Histories in which a dependent repair was dropped and the outcome depends on which one are not judged until the decoder has nothing pending.")

prop("C06", "Acks are truthful, complete on request, and count packets exactly",
     "An ack sent by a decoder names, in increasing order, only data it has received or rebuilt; a requested ack names all of those which the sender has not abandoned. It also reports the exact number of data and repair packets received since the previous ack (65535 if there are more), and one request sends exactly one ack.",
     ["histories", "schedules", "configurations"],
     "all receive histories (loss, duplicates, recoveries, gaps of any size), with automatic and requested acks",
     "An ack naming a datum that was not received makes the sender forget it: unrecoverable loss. Which identifiers are listed depends on the whole history; tests check a few acks.",
     DEC + PZ + ["netcode/detail/ack.hh"], [m("identifiers gathered into the ack when sources are known", "netcode/decoder.hh"), m("received packets counter", "netcode/decoder.hh")],
     "stateful property-based testing (acks parsed by an independent codec, twin decoder as oracle) + libFuzzer",
     "Each ack emitted in a generated history is parsed and compared with what the decoder knows.")

prop("C07", "The encoder's window is exactly what is unacknowledged and not evicted",
     "At any time the window reported by the encoder, and covered by its repairs, is the data committed which were neither acknowledged nor evicted; only the oldest are evicted, when a new datum doesn't fit in the window size, which is never exceeded after a commit (even when it was lowered meanwhile). Acks of unknown, already acknowledged, future or repeated identifiers change nothing else.",
     ["histories", "inputs", "configurations"],
     "all histories of commits, forced repairs, acks (honest, stale, repeated, naming any identifier) and reconfigurations",
     "Tests commit a few data and acknowledge them; eviction combined with sparse acks and a changing limit is a matter of histories.",
     ENC + ["netcode/detail/source_list.hh"], [m("window list, pop when full", "netcode/encoder.hh"), m("erasure of acknowledged sources", "netcode/detail/source_list.hh")],
     "model-based property-based testing (reference window) + libFuzzer",
     "Window size and coverage compared with a reference after each operation of generated histories.")

prop("C08", "A repair is the exact combination of the data in the window",
     "Every repair emitted names exactly the data in the window, in increasing order, and carries their combination with the protocol's coefficients: each byte of its symbol (as long as the longest datum, shorter ones being padded with zeros) and its encoded size. A receiver implementing the protocol independently gets the same equation.",
     ["inputs", "histories", "configurations"],
     "all data sizes and contents, all field sizes, all window compositions and repair identifiers",
     "A repair computed wrongly for one size relation (shorter after longer, odd tails, large sizes) is only noticed when it is needed for decoding; tests check few symbols.",
     ENC + PZ + ["netcode/detail/galois_field.hh", "netcode/detail/repair.hh"], [m("repair construction", "netcode/detail/encoder.cc"), m("coefficient generator", "netcode/detail/galois_field.hh")],
     "model-based property-based testing (independent GF(2^w) and wire codec) + libFuzzer",
     "Each repair is parsed by an independent codec and compared with an independent computation.")

prop("C09", "What the encoder emits, when, and under which identifiers",
     "Committing a datum emits exactly one packet (the datum itself, unchanged, under the next consecutive identifier, if systematic; otherwise a repair), plus a repair each time the number of data committed is a multiple of the code rate. A forced repair emits one repair, or nothing if the window is empty; repairs are numbered consecutively from zero; each packet is passed to the handler as a whole before its end is notified.",
     ["histories", "configurations", "inputs"],
     "all histories of commits, forced repairs, acks and runtime reconfigurations of the rate, code type, window and adaptivity",
     "Tests check the number of packets for a few rates; changes of configuration at runtime, evictions and acks in between aren't enumerated.",
     ["netcode/encoder.hh"] + PZ, [m("commit and repair generation", "netcode/encoder.hh")],
     "model-based property-based testing (reference emission schedule) + libFuzzer",
     "The exact sequence of packets is predicted for each operation of generated histories.")

prop("C10", "No received bytes can corrupt memory, hang or crash a coder",
     "Whatever the bytes of the packets received, an encoder or a decoder never reads or writes out of bounds, never has undefined behaviour, always returns, never reports more bytes read than the packet has, and signals errors only with the two documented exceptions (wrong packet type, packet too short).",
     ["inputs", "histories"],
     "all byte sequences (random, structured, mutated honest packets, consistent hostile repairs and acks), interleaved with honest traffic",
     "Tests have a few truncated packets; hostile size fields, identifier lists and inconsistent repairs have unbounded variety.",
     PZ + DEC + ENC + ["netcode/detail/repair.hh", "netcode/detail/source.hh"], [m("bounds checks while reading packets", "netcode/detail/packetizer.hh"), m("malformed sources and repairs dropped", "netcode/detail/decoder.cc")],
     "structure-aware and coverage-guided fuzzing under AddressSanitizer and UndefinedBehaviorSanitizer",
     "Sanitizers, a guard on the field library's region accesses and a time limit are the oracle. Packets announcing more than 6000 identifiers are left out (cost).")

prop("C11", "A rejected packet changes nothing",
     "A packet refused by an encoder or a decoder (wrong type, or too short) is reported with the right exception, the former carrying the packet; it delivers, emits, forgets and acknowledges nothing, and both coders behave afterwards as if it had never been received, except that truncated data and repair packets may be counted as received.",
     ["inputs", "histories", "fault_sequences"],
     "all truncations of honest packets and acks, all unknown or misdirected types, at any point of any history",
     "A half-parsed packet could leave state behind (identifiers, buffers); only comparing later behaviour over many histories shows it.",
     PZ + ["netcode/encoder.hh", "netcode/decoder.hh", "netcode/errors.hh"], [m("packets are completely read before coders are touched", "netcode/encoder.hh, netcode/decoder.hh")],
     "differential property-based testing (a pair of coders receiving rejected packets vs a pair which doesn't) + libFuzzer",
     "Two pairs of coders in lock-step, the second one also receiving packets it must reject.")

prop("C12", "Distinct coders can be used concurrently from distinct threads",
     "Coders which share nothing may be created, used and destroyed in different threads at the same time without synchronization: there is no data race between them and each behaves exactly as if it were alone.",
     ["schedules", "histories", "configurations"],
     "all interleavings of threads, each with its own encoder and decoder, of same or different field sizes",
     "Tests are single-threaded; a shared static buffer or table is invisible to them.",
     ENC + DEC + ["netcode/detail/galois_field.hh"], [m("no mutable state shared between coders", "netcode/detail")],
     "property-based testing of threaded histories under ThreadSanitizer, differential against single-threaded runs",
     "ThreadSanitizer reports races by happens-before in the schedules which occurred; traces are compared with those of the same scripts run alone.")

prop("C13", "Packets survive the wire format",
     "Any ack, repair or datum packet written is read back identical (identifiers, counts, sizes, bytes) by the library and by an independent implementation of the format, and reading returns exactly its length. Trailing bytes are ignored and every strict prefix is refused as too short.",
     ["inputs"],
     "all identifiers, symbol sizes up to 65535, contents, identifier lists of any shape (runs around the 255 limit, gaps larger than 16 bits), all truncation points",
     "Tests round-trip a few packets with small lists; the run-length and gap encodings have many boundaries.",
     PZ + ["netcode/detail/ack.hh", "netcode/detail/repair.hh", "netcode/detail/source.hh"], [m("packet writer and reader", "netcode/detail/packetizer.hh")],
     "property-based testing (round trip and differential against an independent codec, prefix rejection) + libFuzzer",
     "Both directions are compared with an independent codec; identifier lists need fewer than 65535 runs.")

prop("C14", "Galois field arithmetic is right for every operand and every length",
     "For each supported field size, multiplication, inversion, size combination and the region operations (multiply, multiply-add) agree with the field's definition for all operands and all buffer lengths that are multiples of the word, writing nothing beyond them; the coefficient of each (repair, datum) pair is a non-zero element of the field and is the one the protocol defines.",
     ["inputs", "configurations"],
     "all operands, coefficients, contents, word-multiple lengths (zero coefficients included), and identifiers up to 32 bits",
     "Tests multiply a few values; tails after vectorised blocks, special coefficients and high identifiers aren't covered.",
     ["netcode/detail/galois_field.hh"], [m("wrappers over gf-complete, handling of unaligned tails", "netcode/detail/galois_field.hh")],
     "property-based testing (differential against an independent polynomial arithmetic)",
     "Compares with shift-and-add arithmetic modulo the fields' polynomials.")

prop("C15", "Matrix inversion is right, or names a dependent column",
     "Inverting a square matrix of field elements yields its inverse if it is regular; otherwise it reports a column which is a combination of the others, never anything else.",
     ["inputs", "configurations"],
     "all matrices (dense, sparse, with zero pivots, singular by duplication, combination or null columns) in each field size",
     "Tests invert a few matrices; pivoting and rank deficiency depend on the coefficients.",
     ["netcode/detail/invert_matrix.cc", "netcode/detail/square_matrix.hh"], [m("Gauss-Jordan elimination with pivoting", "netcode/detail/invert_matrix.cc")],
     "property-based testing (product with the original is the identity; rank oracle)",
     "Product checked with independent arithmetic; singularity and the reported column checked by rank computation.")

prop("C16", "The C interface behaves as the C++ one",
     "Driven by the same operations, the C encoder, decoder, packet and data functions produce the same packets, acks, deliveries, results, windows and settings as the C++ classes, and report an error exactly when the C++ operation throws, with the corresponding code.",
     ["histories", "inputs", "configurations"],
     "all histories of commits, receptions (honest, duplicated, hostile), acks, repairs, reconfigurations, with containers reused and resized",
     "C tests are a few calls; every function of the C interface is a hand-written forwarder.",
     C_API, [m("forwarders to the C++ classes", "netcode/c"), m("translation of exceptions", "netcode/c/detail/check_error.hh")],
     "differential stateful property-based testing (C interface vs C++ in lock-step) + libFuzzer",
     "Lock-step comparison over generated histories.")

prop("C17", "The C interface reports failures and never lets an exception escape",
     "Under any allocation failure or exception raised within a call, C constructors return a null pointer and other functions set the error type (no memory, overflow, wrong type, unknown), with a message that is null or a terminated prefix of the exception's text; nothing escapes or leaks and objects can still be destroyed. A failed resize leaves the container's size unchanged, and an encoder remains usable.",
     ["fault_sequences", "histories"],
     "all points at which an allocation (or the initialization of the field) may fail or another exception be raised, in histories of C calls",
     "No test injects failures; each allocation site of each call is a fault point.",
     C_API, [m("catch-all translation", "netcode/c/detail/check_error.hh"), m("nothrow construction", "netcode/c/*.cc")],
     "fault-injecting property-based testing (allocator and field initialization fail at generated points) + libFuzzer",
     "A chosen allocation of a chosen call fails. After a no-memory error a decoder is only required to be destructible.")

prop("C18", "Packet and data containers behave as byte sequences",
     "Packets and data constructed, copied, moved, assigned, resized, reserved and indexed in any way hold exactly the bytes a byte vector would, at aligned addresses, with pointers stable as long as the capacity suffices.",
     ["histories", "inputs"],
     "all sequences of container operations with all sizes (from 0) and contents",
     "Tests perform a few operations on small containers.",
     ["netcode/packet.hh", "netcode/data.hh", "netcode/detail/buffer.hh"], [m("aligned buffers and header padding", "netcode/packet.hh, netcode/data.hh")],
     "model-based property-based testing (byte vector as the model)",
     "Compares with std::vector; moved-from objects are only reassigned or destroyed.")

prop("C19", "The adaptive code rate follows the measured loss",
     "An adaptive encoder receiving an ack sets its rate from the loss measured over the packets it sent since the previous ack and the number of packets the ack reports: 50 below 1% (or if nothing was lost, or nothing was sent), otherwise the smallest integer not below half the inverse of the loss rate. A non-adaptive encoder never changes its rate by itself.",
     ["histories", "inputs", "configurations"],
     "all histories of emissions and acks with any number of packets reported (even more than sent), adaptivity switched at any time",
     "Tests check a few loss rates; boundary values, empty intervals and inconsistent acks aren't covered.",
     ["netcode/encoder.hh"], [m("loss estimation at each ack", "netcode/encoder.hh")],
     "model-based property-based testing (integer arithmetic oracle) + libFuzzer",
     "Where twice the loss rate divides exactly, the next integer is accepted as well (rounding).")

prop("C20", "Automatic acks are sent exactly when due",
     "Each time a datum is delivered, and when the user asks for it if due, the decoder sends an ack if and only if the number of packets received since the previous ack reached the threshold (capped at 128) or a non-zero period elapsed since the last one.",
     ["histories", "schedules", "configurations"],
     "all histories of receptions, clock advances, thresholds and periods changed at runtime, requests",
     "Timing policies depend on the interleaving of clock and packets; tests use real time and one or two settings.",
     ["netcode/decoder.hh"], [m("conditions evaluated after each delivery", "netcode/decoder.hh")],
     "model-based property-based testing over a virtual clock + libFuzzer",
     "steady_clock is replaced by a virtual clock. Whether an unconditionally requested ack restarts the period is left open.")

prop("C21", "Statistics are exact",
     "At any time the counters of the encoder (data and repairs sent, acks received) and of the decoder (data and repairs received, acks sent, data rebuilt, data missing, useless repairs) equal what actually happened.",
     ["histories", "schedules", "configurations"],
     "all histories of transmissions with loss, duplication, reordering, recoveries and reconfigurations",
     "Tests read a few counters at the end of scenarios.",
     ["netcode/encoder.hh", "netcode/decoder.hh", "netcode/detail/decoder.cc"], [m("counters", "netcode/encoder.hh, netcode/decoder.hh, netcode/detail/decoder.cc")],
     "stateful property-based testing (reference counters)",
     "Counters are compared after each operation with an independent count or the decoder model; the last three are not judged while a dropped dependent repair makes the model ambiguous.")

prop("C22", "Coders are deterministic, independent, and leave the caller's objects intact",
     "Two coders given the same operations have the same observable behaviour, whatever other coders do meanwhile in the same thread, even from within each other's handlers. The overloads taking a datum or a packet by constant reference act as those that consume it, and leave the caller's object intact.",
     ["histories", "configurations"],
     "all histories, with several coders interleaved in any way or driven from handlers of others, using either overload at each step",
     "Tests use one pair of coders at a time.",
     ENC + DEC + PZ, [m("no state shared between coders", "netcode/detail"), m("copying overloads", "netcode/encoder.hh, netcode/decoder.hh")],
     "metamorphic property-based testing (interleaved vs alone, copies vs moves)",
     "Full traces are compared.")

prop("C23", "Dumped packets are read back exactly",
     "With packet dumping enabled, a decoder's dump holds exactly the packets it received (accepted or refused), in order, up to 65526 bytes each; reading them back yields the same bytes, and feeding them to another decoder reproduces the same deliveries and acks. A dump truncated anywhere still gives all its complete packets and then the end of file, and the replay tool goes through any dump, complaining only if it holds an invalid packet.",
     ["inputs", "histories", "crash_points"],
     "all packets and sizes, all histories of receptions, all truncation points of the dump",
     "No test covers dumping.",
     ["netcode/detail/serialize_packet.hh", "netcode/decoder.hh", "tools/replay.cc"], [m("length-prefixed dump", "netcode/detail/serialize_packet.hh")],
     "property-based testing (round trip, truncation at generated points, replay differential)",
     "Files are written in a scratch directory. The tool is compiled into the check.")

prop("C24", "Dispatching a packet is giving it to the coder it is meant for",
     "Dispatching an incoming packet gives acks to the encoder and data or repairs to the decoder, with the same result and effects as the direct call; a packet of any other type is refused with an error holding it and without any effect, as is a packet given to the wrong coder.",
     ["inputs", "histories"],
     "all packets (all 256 types, honest or hostile content), at any point of a history",
     "Tests dispatch one packet of each type.",
     ["netcode/dispatch.hh", "netcode/errors.hh"], [m("dispatch on the packet type", "netcode/dispatch.hh")],
     "differential property-based testing (dispatch vs direct calls)",
     "Two worlds in lock-step.")

prop("C25", "Once losses stop, everything gets delivered and the window empties",
     "After any period of loss in both directions, if the encoder's window was not limited and packets and acks then get through, repairs make the decoder deliver everything which was sent, exactly once and in order if asked; after the next ack nothing is missing and the window is empty.",
     ["histories", "schedules", "fault_sequences"],
     "all loss patterns on data, repairs and acks followed by lossless phases, several times, in all configurations",
     "Convergence is a property of whole histories in which acks, window and decoder interact; tests stop at the first recovery.",
     ENC + DEC, [m("repairs cover all unacknowledged data", "netcode/encoder.hh"), m("decoding", "netcode/detail/decoder.cc")],
     "stateful property-based testing (end-to-end convergence, rank oracle for solvability) + libFuzzer",
     "Bounded liveness: a number of repairs about three times the window must suffice unless the rank of what was received says otherwise.")

prop("C26", "Exceptions of handlers go through, and nothing is duplicated after them",
     "An exception thrown by a data or packet handler reaches the caller unchanged and no handler is called again during that call. Afterwards the coder remains usable: data delivered are genuine, a datum whose handler returned is not delivered again, order is kept, identifiers aren't reused, and repairs remain right.",
     ["fault_sequences", "histories"],
     "exceptions at any handler call of any history, for both coders and both delivery orders",
     "No test has handlers which throw.",
     ENC + DEC, [m("state updated before handlers are called", "netcode/detail/decoder.cc, netcode/encoder.hh")],
     "fault-injecting stateful property-based testing + libFuzzer",
     "Handlers throw at generated calls. Data whose handler never ran because of the exception aren't required to be delivered later.")

prop("C27", "Delivered data are aligned on 16 bytes",
     "The address passed to the data handler is a multiple of 16, whether the datum was received, recovered or reordered, from the C++ or the C interface.",
     ["histories", "inputs", "configurations"],
     "all histories, data sizes and ways in which packets were constructed",
     "Tests don't check addresses; alignment depends on the path a datum took and on how buffers were built.",
     ["netcode/packet.hh", "netcode/data.hh", "netcode/detail/buffer.hh", "netcode/detail/source.hh"] + DEC, [m("aligned allocator and header padding", "netcode/packet.hh, netcode/detail/buffer.hh")],
     "stateful property-based testing (address invariant) + libFuzzer",
     "Checked at each delivery of generated histories.")

prop("C28", "Memory stays bounded and is released",
     "Coders in a long session with identical rounds of traffic (some lost, duplicated or refused packets; with acks, or with a limited window) hold no more memory after many rounds than after a few. When destroyed they release everything.",
     ["histories", "configurations"],
     "all rounds of traffic (data, sizes, losses, duplicates, refused packets), repeated 120 or 240 times; all configurations",
     "Tests run for a few packets; what is never removed from a container shows only in long sessions.",
     ENC + DEC, [m("acknowledged and outdated sources and repairs are erased", "netcode/encoder.hh, netcode/detail/decoder.cc")],
     "metamorphic property-based testing (live memory along repeated rounds, interposed allocator)",
     "Growth of a third of a block or 64 bytes per round is detected. Each round has at least one repair received, as the protocol needs to forget data.")

prop("C29", "The lossy proxy drops exactly what its loss model tells to",
     "The lossy proxy (tools/lossy_proxy) forwards to the other side each non-empty packet which its loss model keeps, unaltered, once and in order, in both directions, each direction with its own loss model; it sends nothing else, and empty packets don't count. "
     "With a file, packet k is kept if and only if line k starts with '0' (or if the file has fewer lines). With uniform p, losses are independent with a rate of p percent. "
     "With burst good bad, a packet following a kept one is kept with a probability of good percent (up to 1), and one following a lost one is lost with a probability of bad percent (up to 1).",
     ["inputs", "configurations"],
     "all packets of 1 to 4096 bytes, all loss files, all rates; packets in both directions in any order",
     "The tool has no test; swapped directions or a missed line show only for some patterns of losses.",
     ["tools/lossy_proxy.cc", "tools/loss/burst.hh", "tools/loss/stream.hh", "tools/loss/uniform.hh"],
     [m("each packet is forwarded or dropped according to the model of its direction", "tools/lossy_proxy.cc: listen")],
     "model-based property-based testing of the tool on the loopback interface, statistical oracle for random models",
     "Random models are compared with their rate at 6 standard deviations plus 1.5%.")

prop("C30", "The source forwarder sends data as they were given to the encoder",
     "The source forwarder (tools/source_forwarder) sends to its destination, for each well-formed source it receives and in order, the bytes of the datum it holds, and nothing else. Other packets and truncated sources produce nothing and don't stop it.",
     ["inputs", "histories"],
     "all sequences of sources, truncated sources, repairs, acks and other packets of at most 4096 bytes",
     "The tool has no test; truncated packets are rare.",
     ["tools/source_forwarder.cc", "netcode/detail/packetizer.hh"],
     [m("the symbol of each source is forwarded", "tools/source_forwarder.cc: main")],
     "model-based property-based testing of the tool on the loopback interface", "Packets are sent in bursts of at most 12.")

prop("C31", "Acks may be given to an encoder from within its packet handler",
     "An ack given to an encoder by its own packet handler, when the end of a packet is notified, acts at once, exactly as if it came between this packet and the next one: the window, the following repairs (none is emitted by a commit whose window got emptied), the rate and the counters are right, and nothing is used after being released. "
     "So an encoder and a decoder whose handlers call each other directly deliver everything, once, and end up with an empty window.",
     ["histories", "schedules"],
     "all histories of data, forced repairs, changes of settings and acks, the latter coming between calls or from the handler; all field sizes, losses in both directions",
     "Tests queue packets, so that no ack comes while the encoder is emitting.",
     ENC + DEC, [m("nothing of the source list is used once a packet has been handed over", "netcode/encoder.hh: commit_impl")],
     "model-based property-based testing with re-entrant handlers", "Acks given in the middle of a packet, and data committed from the handler, are out of scope.")

prop("C32", "Coders own their handlers, and use the one they hold",
     "A coder holds its own handlers (copied from an lvalue, which is then never used; moved from an rvalue, be it not copyable) until it is destroyed. The accessors always give these very handlers, and everything emitted goes to the handler held at that moment, "
     "even after it was modified or replaced through its accessor; what is emitted depends neither on the type of handlers nor on their replacement.",
     ["histories", "configurations"],
     "all histories of operations and of replacements of handlers; stateful, move-only and type-erased handlers",
     "Tests use one type of handlers, and never replace them.",
     ENC + DEC + PZ, [m("handlers stored by value, referenced by the packetizer", "netcode/encoder.hh, netcode/decoder.hh, netcode/detail/packetizer.hh")],
     "differential property-based testing (several kinds of handlers against plain ones)", "Handlers replaced from within themselves are out of scope.")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                                "anchors": {"files": p["files"], "mechanism": p["mech"], "hook_needed": None}}) + "\n")
    man = {"version": 1, "setup_cmd": "python3 run.py build all",
           "checks": [{"property": p["id"], "quick_cmd": f"python3 run.py check {p['id']} quick",
                       "thorough_cmd": f"python3 run.py check {p['id']} thorough",
                       "evidence_file": f"evidence/{p['id']}.json", "technique": p["technique"],
                       "level": PROPS[p["id"]].get("level", "exploration"), "level_note": p["note"]} for p in P],
           "not_applicable": [],
           "notes": "No hooks were added to /repo: checks compile its sources as they are. See DESIGN.md."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
