"""What the driver needs to know about each property's check."""

SESSION = ("Each case is one transmission generated from a seed: a sender (the real encoder or an independent reference "
           "encoder starting at any identifier), w in {4,8,16,32}, sizes 1..65535, random or burst schedules of send / lose / "
           "reorder / duplicate / replay / ack / reconfigure steps, the real decoder. ")
A_SESSION = ["payload sizes are multiples of the word size for w=16/32 (the library's documented constraint)",
             "fewer than 2^32 identifiers per stream (no identifier wrap-around)",
             "gf-complete is trusted to implement the field, and checked against an independent implementation by C14"]
ENCODER = ("Each case is a history of the real encoder generated from a seed: w in {4,8,16,32}, commits of 1..65535 bytes (by value or "
           "by reference, sometimes in bursts of hundreds), forced repairs, acks (subsets of the window, prefixes with holes, stale, "
           "future and random identifiers, long runs, empty), changes of rate, window size, code type and adaptivity. ")
A_ENCODER = ["data sizes are multiples of the word size for w=16/32", "fewer than 2^32 identifiers, fewer than 65536 packets between two acks"]
SCRIPT = ("Each case is a list of operations generated from a seed for a pair of coders: data, packets delivered, lost or replayed, acks, "
          "requests, reconfigurations, hostile or damaged packets. ")

WRAP = ["-Wl,--wrap=posix_memalign,--wrap=aligned_alloc,--wrap=malloc,--wrap=free"]

PROPS = {
    "C01": dict(quick=80000, fuzz=True, rule=SESSION + "Non-trivial: at least one datum was delivered through a repair.", assumptions=A_SESSION),
    "C02": dict(quick=80000, fuzz=True, rule=SESSION + "Non-trivial: duplicates were received and at least one datum was recovered.", assumptions=A_SESSION),
    "C03": dict(quick=80000, fuzz=True, rule=SESSION + "Non-trivial: loss or reordering, with a datum recovered.", assumptions=A_SESSION),
    "C04": dict(quick=64000, fuzz=True, rule=SESSION + "Non-trivial: loss or reordering.", assumptions=A_SESSION),
    "C05": dict(quick=80000, fuzz=True, rule=SESSION + "Non-trivial: the rank model recovers at least one datum.", assumptions=A_SESSION),
    "C06": dict(quick=64000, fuzz=True, rule=SESSION + "Non-trivial: at least one ack was emitted.", assumptions=A_SESSION),
    "C07": dict(quick=75000, fuzz=True, rule=ENCODER + "Non-trivial: at least three commits, and a datum acknowledged.", assumptions=A_ENCODER),
    "C08": dict(quick=60000, fuzz=True, rule=ENCODER + "Non-trivial: a repair of several data was emitted.", assumptions=A_ENCODER),
    "C09": dict(quick=75000, fuzz=True, rule=ENCODER + "Non-trivial: at least three commits and one repair.", assumptions=A_ENCODER),
    "C10": dict(quick=450000, fuzz=True, rule="Each case is a history of an encoder and a decoder generated from a seed, mixing honest traffic with hostile packets (structured "
                "garbage, mutations and splices of honest packets, consistent repairs of wrong content, damaged acks), given to either coder or dispatched. "
                "Non-trivial: at least one hostile packet.",
                assumptions=["packets announcing more than 6000 identifiers are not sent (their cost is quadratic)", "empty packets are a documented precondition violation"]),
    "C11": dict(quick=450000, fuzz=True, rule="Each case is a history generated from a seed for two pairs of coders in lock-step; the second also receives truncated packets and acks, unknown types and "
                "misdirected packets. Non-trivial: an honest packet is received after a rejected one.",
                assumptions=["counters of received packets include rejected ones (automatic acks, which depend on them, are disabled)"]),
    "C12": dict(quick=8000, variant="tsan", gfguard=False, workers=4, rule=SCRIPT + "The scripts of a case run in 2 to 4 threads, then alone. Non-trivial: at least one datum decoded in a thread.",
                assumptions=["ThreadSanitizer sees the races of the executions which happened"]),
    "C13": dict(quick=150000, fuzz=True, rule="Each case writes 1 to 3 packets of generated type, identifier, symbol (1..65535 bytes) and identifier list (runs around 255, strides, gaps up to 2^26), reads them back, "
                "reads them with trailing bytes, and reads strict prefixes (all of them up to 80 bytes). Non-trivial: at least 2 identifiers or 2 bytes.",
                assumptions=["identifier lists need fewer than 65535 runs"]),
    "C14": dict(quick=1500000, rule="Each case draws a field size and a group of operations (16 scalar operations and coefficients, region multiply and multiply-add of any word-multiple length, 16 sizes, or whole tables) and their operands. "
                "Non-trivial: all, but regions multiplied by 0 or 1.", assumptions=["lengths are multiples of the word size"]),
    "C15": dict(quick=1000000, rule="Each case draws a field size and a matrix (random, sparse, permuted triangular, made singular by copies, combinations or null columns). Non-trivial: dimension at least 2.", assumptions=[]),
    "C16": dict(quick=320000, fuzz=True, rule=SCRIPT + "Each operation is applied to the C++ and the C coders. Non-trivial: at least five operations and a delivery.", assumptions=[]),
    "C17": dict(quick=400000, fuzz=True, libs=WRAP, rule="Each case is a history of C calls, in which generated allocations fail (once or for good), the field can't be initialized, or another exception is raised. "
                "Non-trivial: at least one failure was injected.", assumptions=["after a no-memory error a decoder is only destroyed"]),
    "C18": dict(quick=600000, rule="Each case is a sequence of operations on packets or data, compared with byte vectors. Non-trivial: at least three modifying operations.", assumptions=["moved-from containers are only assigned or destroyed", "multi-pass iterators"]),
    "C19": dict(quick=75000, fuzz=True, rule=ENCODER + "Non-trivial: at least one ack reporting a loss to an adaptive encoder.", assumptions=A_ENCODER),
    "C20": dict(quick=300000, fuzz=True, rule="Each case is a history of a decoder over a virtual clock: sources, holes, repairs, duplicates, clock advances (including exactly the period, and 1 ns less), changes of period and threshold, requests. "
                "Non-trivial: at least one automatic ack, and one delivery without ack.", assumptions=["std::chrono::steady_clock is the only clock read"]),
    "C21": dict(quick=80000, fuzz=True, rule=SESSION + "Non-trivial: at least one datum recovered and one ack emitted.", assumptions=A_SESSION),
    "C22": dict(quick=120000, fuzz=True, rule=SCRIPT + "Several scripts run interleaved, then alone, with either overload. Non-trivial: a datum was decoded, and the interleaving switches more often than there are coders.", assumptions=[]),
    "C23": dict(quick=200000, sources=["replay_tool.cc"], deps=["tools"], rule="Each case writes generated packets and reads them back (whole, and cut at generated offsets), or runs a transmission to a dumping decoder, reads the dump back and replays it. "
                "Non-trivial: several packets, or a datum decoded.", assumptions=["packets of at most 65526 bytes"]),
    "C24": dict(quick=300000, fuzz=True, rule=SCRIPT + "One pair gets packets by dispatch, the other directly. Non-trivial: at least one packet dispatched to each coder.", assumptions=[]),
    "C25": dict(quick=120000, fuzz=True, rule="Each case: 1 to 3 phases; in each, data are sent with losses of packets and acks (0 to 100%), delays and reordering, then repairs and acks get through until everything is delivered. "
                "Non-trivial: packets were lost and data decoded.", assumptions=A_SESSION + ["windows of at most 80 data (6 for w=4)"]),
    "C26": dict(quick=450000, fuzz=True, rule="Each case is a transmission in which the data handler, the decoder's or the encoder's packet handler throws at generated calls. Non-trivial: an exception was thrown, and a datum delivered.", assumptions=A_SESSION),
    "C27": dict(quick=50000, fuzz=True, rule=SESSION + "The packets are also given to a C decoder. Non-trivial: at least one datum delivered through a repair.", assumptions=A_SESSION),
    "C28": dict(quick=6000, libs=WRAP, rule="Each case is a generated round of traffic (data, losses, duplicates, lost acks, refused packets) repeated 120 or 240 times, with acks or a limited window. Non-trivial: data were decoded.",
                assumptions=["each round has a repair received", "identical rounds"]),
    "C29": dict(quick=20000, sources=["proxy_tool.cc"], deps=["tools"], no_lib=True, rule="Each case runs a loss model alone (file, uniform, burst), or lossy_proxy between two sockets of the loopback interface, with generated loss files and packets both ways. "
                "Non-trivial: more than 3 lines, a random model, or packets both dropped and forwarded.", assumptions=["packets of at most 4096 bytes", "what is in flight fits in the buffers of sockets"]),
    "C30": dict(quick=20000, sources=["forwarder_tool.cc"], deps=["tools"], rule="Each case runs source_forwarder on the loopback interface, and sends it sources, truncated sources, repairs, acks and garbage. "
                "Non-trivial: sources, and other packets.", assumptions=["packets of at most 4096 bytes", "what is in flight fits in the buffers of sockets"]),
    "C31": dict(quick=150000, fuzz=True, rule="Each case drives an encoder whose packet handler gives it acks, against a model; or an encoder and a decoder wired directly to each other, with losses. "
                "Non-trivial: acks came from the handler, and repairs were emitted (or packets lost).", assumptions=["acks are given when a packet ends, not within it", "windows of at most 40 data"]),
    "C32": dict(quick=200000, fuzz=False, without=["-DNO_MOVE_ONLY"], rule="Each case drives coders with handlers held by value (copied, moved, move-only, type-erased, counted), and the same coders with plain handlers. "
                "Non-trivial: packets were received, items emitted and handlers replaced.", assumptions=["handlers are replaced between calls, not from within them"]),
}
