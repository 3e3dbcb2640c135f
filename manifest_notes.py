CODEC = "explicit enumeration of bounded value/byte spaces; every case replayed on the real codec and compared with an executable reference model"
B = "Exhaustive within the bounds listed per family in the evidence; outside them nothing is claimed. Trusts the reference model (mc/src/refcodec.rs), rustc and std."
for _i in "C01 C02 C03 C04 C05 C06 C07".split():
    NOTES[_i] = (CODEC, B)
NOTES["C10"] = ("exhaustive enumeration of sink fault schedules on the real encoders", B)
NOTES["C11"] = ("exhaustive enumeration of claimed lengths on the real decoders under a counting allocator", B)
NOISE = "explicit-state enumeration of bounded call/delivery sequences of a symbolic protocol model, every transition replayed in lockstep on two real sessions (stateless search of the implementation with forked states)"
NB = "Exhaustive within the bounds listed per family in the evidence; cryptographic hardness is abstracted (the model treats every message as a symbolic term). Trusts the model (mc/src/duo.rs), rustc and std."
for _i in "C12 C14 C15 C16 C17 C18 C20".split():
    NOTES[_i] = (NOISE, NB)
NOTES["C13"] = ("exhaustive enumeration of bounded handshake/traffic histories; every history replayed on the real sessions and byte-compared with an independent executable Noise reference model", "Exhaustive within the listed bounds. Trusts the reference model (mc/src/refprims.rs, refnoise.rs; self-checked against RFC vectors on every run) and curve25519-dalek's X25519.")
NOTES["C19"] = ("exhaustive exploration of the message-number state machine around both ends of its 64-bit range on the real sessions, lockstep with a counter model", NB + " The numbers near 2^64 are reached by advancing the counter word in the session's memory, located behaviourally.")
NOTES["C08"] = ("exhaustive enumeration of message values (every value of one field at a time, all field-pair combinations of boundary values) through construction and encoding on the real code, against executable rule predicates", B)
NOTES["C09"] = ("exhaustive enumeration of flag words, flag sets and codes on the real conversions, against an executable bit/code table", B)
NOTES["C21"] = ("exhaustive enumeration of bounded key byte/text/pair spaces on the real key types, against an independent X25519 reference", "Exhaustive within the bounds listed per family. Trusts mc/src/refprims.rs (self-checked against RFC 7748) and ed25519-dalek.")
NOTES["C22"] = ("exhaustive enumeration of certificate alterations, authorities, windows and clock instants (controlled clock) on the real verifier, against a symbolic acceptance model", NB)
NOTES["C23"] = ("exhaustive enumeration of clock instants and windows around every boundary on the real clock/certificate functions, under a controlled clock", "Exhaustive within the bounds listed per family. The wall clock is replaced through the process's own clock_gettime, self-checked on every run.")
NOTES["C24"] = (NOISE, NB)
NOTES["C26"] = ("exhaustive enumeration of error values (every variant, every error-producing call of bounded call spaces) and of their cause chains on the real error type", B)
NOTES["C27"] = ("exhaustive enumeration of key values and their textual/debug presentations on the real types", B)
NOTES["C28"] = ("exhaustive enumeration of network interference plans and impostor configurations; every plan executed on the real sessions, codec, certificates and queue under an invariant monitor", NB)
NOTES["C25"] = ("stateless exploration of all thread interleavings (depth-first; unbounded for the small configurations, preemption-bounded for the larger) of the real queue code compiled against a controlled scheduler (shuttle), each history checked for linearizability; exhaustive sequential histories", "Exhaustive within the bounds listed per family; sequentially consistent memory, switches at lock/atomic/channel operations. Trusts shuttle's primitives, the scheduler in mc-conc/src/sched.rs, rustc and std.")
NOTES["C29"] = ("exhaustive enumeration of bounded sequences of key-generating operations (over threads and processes) on the real code, under an all-distinct invariant", "Exhaustive within the bounds listed per family; distinctness only, not the quality of the randomness. Trusts the operating system's generator.")
NOTES["C30"] = ("exhaustive enumeration of operation sequences and of step interleavings of several connections on the real code; every outcome compared with the same operation on its own", "Exhaustive within the bounds listed per family. The outcome on its own is itself checked against the reference models where one applies.")
NOTES["C31"] = ("exhaustive enumeration of bounded pairs of values on the real comparisons and conversions, against equality of the model's values", B)

NOTES["C32"] = ("exhaustive enumeration of bounded session histories on the real code, each step followed by an examination of the object's memory for the secrets an executable Noise reference model says it must no longer hold", "Exhaustive within the bounds listed per family. Memory of the object and of heap blocks its calls left allocated, not registers or abandoned stack frames. Trusts the reference model (mc/src/refprims.rs, refnoise.rs).")
