"""Per property: what is symbolic, what the oracle is, why it can be trusted to be independent of the code."""
O = {
"P01": "Oracle: hand-written membership predicates of each documented language (`harness/src/spec.rs`), compared with the verdict of every checked constructor, `TryFrom`, `FromStr` and narrowing conversion on symbolic bytes; bytes must come back unchanged and a reported offending byte must be in the input and be invalid for the type.",
"P02": "Oracle: a byte-by-byte reference splitter over the original string with explicit start and end cursors. A symbolic choice selects each operation; after each, the piece handed out, the remainder and the save/restore state are compared with the reference.",
"P03": "Oracle: a `Vec<u8>` to which an append is applied if and only if all appended bytes are members of the type. Refused appends of multi-byte text included.",
"P04": "Oracle: a UTF-8 decoder automaton written from the Unicode table (`spec::utf8`). After any operation sequence, `is_utf8_lossy`-style claims, `to_utf8` and character-wise iteration are compared with it; the unsafe `from_utf8_unchecked` uses are thereby asserted on all paths.",
"P05": "Oracle: the byte maps of RFC 1459, strict RFC 1459 and ASCII written out as tables; ASCII whitespace definition for trims. Type membership after the transformation by the predicates of P01.",
"P06": "Oracle: IRCv3 escape table as a reference encoder and decoder, plus the round-trip law, plus the 'changed' flag compared with byte equality.",
"P07": "Oracle: the executor's memory model (bounds, lifetime, double free, leak: the set of live allocations at the end has to equal that at the start) together with a value model of every live string. Histories are symbolic choices over create, clone, split, transform, convert, share and drop in any order. Counterexamples of memory kind are replayed under AddressSanitizer.",
"P08": "Oracle: `is_secret()` of whatever is derived; derivations are chosen symbolically from every operation of the public API that yields a string from a string.",
"P09": "Two-run oracle: the same formatting of two values that differ only in the (symbolic) secret must give the same bytes.",
"P10": "Oracle: an instrumented global allocator in the harness inspects every block at `dealloc` and `realloc` for the secret's marker bytes, under every operation sequence and with a reader that delivers any number of bytes, fails or stops; a `Vec<u8>` models the contents.",
"P11": "Oracle: a reference base64 encoder/decoder, the chunking rule of the AUTHENTICATE command and the round-trip law. The data's last bytes and the length are symbolic, so that every residue modulo 3 and every chunk boundary occurs.",
"P12": "Oracle: the round-trip law and the absence of CR, LF, NUL in the output; the generated message is built through the public constructors from symbolic fields.",
"P13": "As P12 for server messages, with any source and any command or numeric.",
"P14": "Oracle: no panic, no memory error, termination within the instruction budget, on every byte string of the bound; plus the round-trip law on what was parsed. Templates place the arbitrary bytes around each syntactic element.",
"P15": "Oracle: text is generated from the grammar with symbolic contents and layouts, so the expected fields are known by construction. Texts with more than 20 tags (where the sorting algorithm changes) have a symbolic duplicate at a symbolic position.",
"P16": "Oracle: a list of pairs in insertion order; lookup is a backwards scan. Operation sequences within one or several edit sessions; many-tag constructions.",
"P17": "Oracle: a list of words plus an optional long last argument.",
"P18": "Oracle: concatenation of the parts with separators; round trip; totality of the parser on every word.",
"P19": "Oracle: the length of what is actually written.",
"P20": "Oracle: arithmetic over all 16-bit numbers; the laws Eq/Ord/Hash(a) = Eq/Ord/Hash(borrow(a)) for all pairs, with SipHash executed as code.",
"P21": "Oracle: concatenation with delimiters and the round-trip law; totality.",
"P22": "Oracle: the stream split at line feeds by the harness; the reader delivers symbolic amounts and injects `Interrupted` at symbolic points.",
"P23": "Oracle: an array of 52 booleans.",
"P24": "Oracle: a naive reading of the CHANMODES and PREFIX text per letter.",
"P25": "Oracle: a reference leaky bucket over exact integer times, computed from the symbolic clock readings; for the window bound no model at all: the number of releases within any two readings is compared with 1 + burst + W/delay.",
"P26": "Oracle: a deque of (message, label) and per-adjuster verdict bit masks chosen symbolically; each adjuster records which messages it was given.",
"P27": "Oracle: an enumeration of the suffix space in the documented order; for random suffixes membership in the sets for any seed (the generator is executed as code).",
"P28": "Oracle: a log kept by the harness's handlers, whose verdicts are symbolic; drop counters.",
"P29": "Oracle: a reference state machine of registration written from the IRCv3 specifications (offered, requested, acknowledged capabilities; authentication; nicks), stepped along with symbolic choices of server messages; all bytes the client queues are compared with its expectation.",
"P30": "Oracle: what the harness put into the server's messages.",
"P31": "Oracle: reference base64, RFC 4616 message layout, a reference list of mechanisms still to be tried.",
"P32": "Oracle: split at spaces and '='; for requests, the concatenation of the requested names and the length of the acknowledgement the server would send.",
"P33": "Oracle: the expected answer, written out; all other inputs expect an empty queue.",
"P34": "Oracle: a record of nick, user, host updated only by messages whose source is the client itself; the length formula of the documentation.",
"P35": "Oracle: a reference timeline: given the symbolic arrival times and the limits, the time at which the run has to end and the set of messages that have to be written by then. The connection is an in-memory one that advances the symbolic clock as a socket with timeouts would.",
"P36": "Oracle: a list of pairs; decimal arithmetic on digits in 128-bit integers; split at commas.",
"P37": "Oracle: the fields the harness put in.",
"P38": "Oracle: an in-memory self-describing serde format (`harness-io/src/value.rs`) and the round-trip law; membership predicates of P01 for arbitrary offered values.",
"P39": "Oracle: the stream split at line feeds; a reader/writer that is ready for symbolic amounts at symbolic points; the future may be dropped and recreated at any pending point.",
"P40": "As P35, with an executor that polls the future exactly when a timer, the reader or the writer is due; tokio's timers are replaced by timers over the symbolic clock (`shim/tokio`), everything else in tokio is the real crate.",
"P41": "Harness crate `harness-thr`. Each value sent carries a tag and counts its drops; an allocator counts live blocks. A model (the value under way, whether one was ever sent, whether the receiver is there) predicts the result of every operation, and at the end every value has been dropped once and no block is left.",
"P42": "As P41, with threads: the executor keeps a stack, thread-local storage and blocking state per thread and forks over the schedule before every atomic access (up to a bound on preemptions) and wherever a thread blocks; std's `Once`, `Arc`, `thread::park` and futex use are executed, the futex system call is modelled. A counterexample's schedule is replayed natively: the module that was encoded is compiled to machine code with a scheduling point before each atomic access (`harness-thr/sched.c`), real threads take turns as recorded, under valgrind for memory errors. Sampled schedules of held paths are replayed the same way on every run. Along every explored interleaving the executor also keeps vector clocks (C++20: release sequences, fences, relaxed accesses) and reports two conflicting accesses that are not ordered; such a report is confirmed by running the harness with its inputs under Miri over 128 schedules (`harness-thr/src/bin/mirirun.rs`), since x86 hides it; one that Miri does not confirm is noted in the evidence and the harness decided without race detection.",
 "P44": "The harness gives each thread a clone of one string, secret or not, and a choice of what to do with it; the value is compared with what was put in, live heap blocks are counted before and after, memory errors and data races are the executor's (as P42).",
"P43": "Equality, effective port, hash input and text form are restated over the raw fields; the capability functions are compared with set operations on bit masks, the ready-made registrations with the lines they must send, written out, for every combination of present and missing options.",
}
O["P45"] = "Equality and order against byte loops over the contents, with every combination of ownership, secrecy and cached validity on both sides; hashes by a hasher that records what it is fed, against the hash of the slice; text against `String::from_utf8_lossy` and an independent UTF-8 table."
O["P46"] = "Two clients on recording connections. For resets: the client with a history, reset, against a new client made with the same configuration at the same time, both given the same messages, handlers and input (the first line of which would complete what the old connection left unfinished); results, bytes, times, time limits in force at each read and write, handler messages and calls of the time-out function are compared. For moves: the same client moved in mid-line (and after failed writes) against one left where it is."
O["P47"] = "The crate and the whole of std's TcpStream run symbolically down to the system calls, for which the harness has stand-ins that record the address connected to, SO_RCVTIMEO and SO_SNDTIMEO, the bytes and the shutdowns, and split reads and writes; these records are compared with the port rule of the documentation and with the values given."
