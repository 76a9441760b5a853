"""The properties and the harnesses that decide them.  gen.py turns this into properties.jsonl and MANIFEST.json."""
SPECS = {}


def H(entry, bound, quick, thorough=None, **kw):
    d = {"entry": entry, "bound": bound, "quick": quick, "thorough": (thorough if thorough is not None else quick)}
    d.update(kw)
    return d


def M(entry, bound, quick, thorough=None, **kw):
    return H(entry, bound, quick, thorough, crate="harness-mem", **kw)


def C(entry, bound, quick, thorough=None, **kw):
    return H(entry, bound, quick, thorough, crate="harness-client", **kw)


def I(entry, bound, quick, thorough=None, **kw):
    return H(entry, bound, quick, thorough, crate="harness-io", **kw)


def T(entry, bound, quick, thorough=None, **kw):
    return H(entry, bound, quick, thorough, crate="harness-thr", **kw)


def P(pid, title, statement, text, why, files, mechanism, harnesses, over=("inputs",), outside=(), assumptions=(), note=""):
    SPECS[pid] = {
        "title": title, "statement": statement, "over": list(over), "text": text, "why": why, "files": files,
        "mechanism": [{"name": n, "where": w} for n, w in mechanism], "harnesses": harnesses,
        "outside": list(outside), "assumptions": list(assumptions), "note": note,
    }


# --------------------------------------------------------------------------- strings
P("P01", "String types admit exactly the bytes they document",
  "A value of each IRC string type (no-NUL, line, word, argument, tag key, target, nick, user, command) can be constructed by the checked constructors and conversions from a byte string exactly when that byte string is in the type's documented language, the bytes are kept unchanged (commands are uppercased), and a rejection reports an offending byte where it stands.",
  "all byte strings up to the bound, all string types and checked constructors and narrowing conversions",
  "Tests try a handful of literals per type; the invariant has to hold for every byte value at every position and for every pair of types.",
  ["src/string/subtypes.rs", "src/string/subtypes/macros.rs", "src/string/subtypes/impls.rs"],
  [("per-type byte tables and validity checks", "src/string/subtypes.rs"), ("generated constructors and conversions", "src/string/subtypes/macros.rs")],
  [H("h_str_ctor", "every constructor of every type on every byte string of length 0..%d", [[6]], [[10]]),
   H("h_str_ctor_long", "one arbitrary byte at an arbitrary position of a valid string of length up to %d", [[64]], [[128]]),
   H("h_str_conv", "every narrowing conversion between types on every byte string of length 0..%d", [[5]], [[8]])])

P("P02", "Splitting a string loses, invents and mistypes nothing",
  "Whatever sequence of operations is applied to a splitter, the pieces it hands out together with what it skipped and what remains are, in order, exactly the original string; each piece ends where the operation documents, and each typed piece belongs to its type's language.",
  "all contents and all operation sequences up to the bounds",
  "The state space is operation sequences times contents; tests exercise a few fixed sequences on fixed strings.",
  ["src/string/splitter.rs", "src/string/bytes.rs"],
  [("cursor arithmetic and save/restore", "src/string/splitter.rs")],
  [H("h_split_model", "every ASCII string of length 0..%d, every sequence of up to %d splitter operations", [[4, 2]], [[3, 3], [5, 2]]),
  ],
  over=("inputs", "histories"))

P("P03", "String builders build what was appended and refuse the rest",
  "A string builder always holds exactly the concatenation of its initial string and the successful appends; an append that would leave the string's type is refused and changes nothing, and the built string belongs to the type.",
  "all initial strings and all sequences of appends up to the bounds",
  "Needs every byte at every position and every order of operations, including refused ones.",
  ["src/string/builder.rs", "src/string/subtypes/macros.rs"],
  [("checked append operations", "src/string/builder.rs")],
  [H("h_builder_model", "initial strings of length 0..%d, up to %d operations with contents of length 0..%d, every string type", [[2, 2, 2], [1, 3, 1]], [[3, 2, 3], [2, 3, 2], [1, 4, 1]]),
  ],
  over=("inputs", "histories"))

P("P04", "Strings claim to be UTF-8 only when they are",
  "Whatever sequence of splitting, building, converting or transforming operations produced it, a string gives itself out as UTF-8 text only if its bytes are valid UTF-8, and character-wise operations on it (taking or appending characters) see exactly the characters of that text.",
  "all byte strings and operation sequences up to the bounds",
  "The claim is cached and used by unsafe code; an unsound cache needs a specific cut inside a multi-byte character to show.",
  ["src/string/bytes.rs", "src/string/splitter.rs", "src/string/builder.rs", "src/string/tf.rs"],
  [("cached UTF-8 validity", "src/string/bytes.rs"), ("UTF-8 policies of transforms", "src/string/tf.rs")],
  [H("h_split_utf8", "every byte string of length 0..%d, every sequence of up to %d splitter operations", [[3, 1]], [[4, 1], [2, 2]]),
   H("h_split_utf8_guard", "byte strings of length %d, every sequence of up to %d splitter operations within a guard", [[3, 2], [2, 3]], [[3, 3], [4, 2]]),
   H("h_tf_policy", "user-defined transformations under each policy, byte strings of length 0..%d, up to %d in a row", [[3, 2]], [[3, 3]]),
   H("h_builder_utf8", "initial byte strings of length 0..%d and up to %d builder operations with contents of length 0..%d", [[3, 1, 3], [2, 2, 2]], [[4, 1, 4], [3, 2, 2], [1, 3, 2]]),
   H("h_tf_casemap", "casemaps of all byte strings of length 0..%d", [[3]], [[4]]),
   H("h_tf_trim", "trims of all byte strings of length 0..%d", [[6]], [[8]])],
  over=("inputs", "histories"))

P("P05", "Casemapping and trimming do what RFC 1459 and the docs say",
  "Casemapping a string to upper or lower case under each supported mapping yields exactly the documented byte-for-byte map and reports a change exactly when there is one; trimming removes exactly the ASCII whitespace at the chosen ends; neither takes a typed string out of its type or claims UTF-8 validity for bytes that are not UTF-8.",
  "all byte strings up to the bounds and all transformations",
  "Every byte value matters (the mappings differ in four bytes only), in every position.",
  ["src/string/tf/casemap.rs", "src/string/tf/trim.rs", "src/string/tf.rs"],
  [("byte maps", "src/string/tf/casemap.rs"), ("transform application", "src/string/bytes.rs")],
  [H("h_tf_casemap", "all byte strings of length 0..%d", [[3]], [[4]]),
   H("h_tf_casemap_long", "one arbitrary byte anywhere in a string of length up to %d", [[24]], [[64]]),
   H("h_tf_typed", "all members of each type of length up to %d", [[4]], [[6]]),
   H("h_tf_trim", "all byte strings of length 0..%d", [[6]], [[8]])])

P("P06", "Tag value escaping is the IRCv3 table and reversible",
  "Escaping a message tag value yields a string that contains no space, semicolon, CR or LF and that unescapes to exactly the original value; unescaping any string follows the IRCv3 rules (a lone trailing backslash vanishes, an unknown escape yields the escaped character), and either operation reports a change exactly when the bytes changed.",
  "all byte strings up to the bound",
  "Escapes interact with their position (first, last, adjacent); the tests try fixed strings.",
  ["src/string/tf/escape.rs", "src/ircmsg/tags.rs"],
  [("escape and unescape loops", "src/string/tf/escape.rs")],
  [H("h_tag_escape", "all byte strings of length 0..%d", [[6]], [[7]])])

P("P07", "Shared strings are memory-safe, keep their value, and never leak",
  "Under any history of creating, cloning, splitting, transforming, converting and dropping strings and messages (borrowed, owned or shared), every live string keeps its value, no memory is read or written outside a live allocation or freed twice, owned values survive the buffer they came from, and when everything is dropped no memory remains allocated.",
  "all histories up to the bounds, all contents",
  "The sharing representation is unsafe code; tests run a few histories without a memory checker.",
  ["src/string/bytes.rs", "src/util/ownedslice.rs", "src/util/thinarc.rs", "src/owning.rs"],
  [("tagged owned/borrowed/shared slices", "src/util/ownedslice.rs"), ("reference counting", "src/util/thinarc.rs")],
  [M("h_bytes_machine", "histories of up to %d operations on strings of length up to %d", [[2, 2]], [[3, 2]]),
   M("h_bytes_nested", "parts of parts, %d deep, strings of length up to %d, dropped in any order", [[4, 3]], [[5, 4]]),
   M("h_msg_leak", "parse, own, share and drop messages (form %d, %d arbitrary bytes)", [[0, 4], [1, 6], [2, 4]], [[0, 6], [1, 8], [2, 6]])],
  over=("inputs", "histories"), assumptions=["Reference counts are manipulated from one thread; concurrent use is P44."])

P("P08", "Strings derived from a secret string stay secret",
  "Every string obtained from a secret string by cloning, splitting, transforming, converting between types, owning or parsing parts out of it is itself marked secret.",
  "all contents and all sequences of derivations up to the bounds",
  "A single derivation that forgets the mark leaks silently; tests check none of them.",
  ["src/string/bytes.rs", "src/string/splitter.rs", "src/string/subtypes/macros.rs"],
  [("secrecy flag propagation", "src/string/bytes.rs")],
  [M("h_secret_flow", "up to %d derivations from every secret string of length up to %d", [[3, 1], [2, 2]], [[3, 2]])],
  over=("inputs", "histories"))

P("P09", "Formatting never reveals a secret",
  "The Display and Debug output of a secret string, and of a message or command argument list that carries one, is the same whatever the secret's contents (and, for strings, length) are.",
  "all pairs of secrets up to the bound",
  "It is a two-run (non-interference) property over all pairs of secrets.",
  ["src/string/bytes.rs", "src/string/secretbuf.rs", "src/ircmsg/client.rs", "src/ircmsg/args.rs"],
  [("redacting formatters", "src/string/bytes.rs")],
  [M("h_secret_fmt", "all pairs of secrets of length up to %d", [[4]], [[6]]),
   M("h_secret_msg_fmt", "all pairs of secrets of length up to %d in messages (form %d)", [[3, 0], [3, 1]], [[5, 0], [5, 1]])])

P("P10", "Secret memory is overwritten before it is released",
  "A secret buffer behaves like a byte vector, and no memory that a secret buffer or secret string owned is handed back to the allocator while it still contains secret bytes, including when it grows, is truncated, is converted or is partly filled from a reader that fails.",
  "all operation sequences, contents and reader behaviours up to the bounds",
  "Needs inspection of every released block on every history, including reallocation and I/O failures.",
  ["src/string/secretbuf.rs", "src/string/bytes.rs", "src/util/ownedslice.rs"],
  [("zeroing on drop and growth", "src/string/secretbuf.rs"), ("zeroing of secret string buffers", "src/util/ownedslice.rs")],
  [M("h_secretbuf", "up to %d operations with contents of length up to %d", [[3, 2]], [[4, 2]]),
   M("h_secret_zero_buf", "up to %d operations on a secret buffer", [[2]], [[3]]),
   M("h_secret_zero_str", "secret strings of length up to %d and what is derived from them", [[3]], [[4]])],
  over=("inputs", "histories", "fault_sequences"),
  outside=["making a string secret after the fact: the non-secret buffer it was created from is the caller's"])

P("P11", "Base64 chunking follows the AUTHENTICATE rules and is reversible",
  "Encoding any data into chunks yields full-length chunks followed by one shorter chunk, with '+' standing for an empty last chunk, such that decoding the chunks in order yields the data again; decoding arbitrary chunks never panics and accepts exactly valid base64, and decoded data is secret.",
  "all data and chunk sequences up to the bounds",
  "Boundary lengths (exact multiples of the chunk size) and arbitrary peer input are not sampled by tests.",
  ["src/string/base64.rs"],
  [("chunk encoder and decoder", "src/string/base64.rs")],
  [M("h_base64_chunks", "all data of length up to %d (symbolic in the last bytes), chunk length 4*%d, variant %d", [[9, 3, 1], [6, 1, 1], [12, 2, 1]], [[9, 3, 1], [6, 1, 1], [12, 2, 1], [24, 4, 1]]),
   M("h_base64_decode", "all chunk texts of up to %d groups", [[2]], [[2]])],
  outside=["chunk lengths that are not a positive multiple of 4"])

# --------------------------------------------------------------------------- messages
P("P12", "Client messages survive writing and parsing",
  "Writing any client message (any tags, any command, any argument list, last argument possibly empty, containing spaces or starting with a colon) yields one line with no CR, LF or NUL that parses back to an equal message.",
  "all messages within the bounds",
  "Round trip over all field contents; tests use a few fixed messages.",
  ["src/ircmsg/client.rs", "src/ircmsg/args.rs", "src/ircmsg/tags.rs", "src/ircmsg/codec.rs"],
  [("message writer", "src/ircmsg/client.rs"), ("argument writer and parser", "src/ircmsg/args.rs")],
  [H("h_client_roundtrip", "%d tags (keys of length up to %d, values up to %d), %d word arguments (length up to %d), last argument of length up to %d",
     [[0, 1, 1, 3, 2, 3], [1, 2, 3, 2, 2, 2], [3, 1, 1, 0, 1, 1]], [[0, 1, 1, 4, 3, 4], [1, 2, 3, 2, 2, 2], [2, 1, 2, 1, 1, 1], [3, 1, 1, 1, 1, 1]])])

P("P13", "Server messages survive writing and parsing",
  "Writing any server message (any tags, any source, any command or numeric, any argument list) yields one line with no CR, LF or NUL that parses back to an equal message.",
  "all messages within the bounds",
  "Round trip over all field contents; tests use a few fixed messages.",
  ["src/ircmsg/server.rs", "src/ircmsg/source.rs", "src/ircmsg/servermsgkind.rs", "src/ircmsg/args.rs", "src/ircmsg/tags.rs"],
  [("message writer", "src/ircmsg/server.rs"), ("source writer", "src/ircmsg/source.rs")],
  [H("h_server_roundtrip", "%d tags (keys of length up to %d, values up to %d), source parts of length up to %d, %d word arguments (length up to %d), last argument of length up to %d",
     [[0, 1, 1, 2, 2, 2, 2], [1, 2, 2, 1, 1, 1, 1], [2, 1, 1, 1, 1, 1, 1]], [[0, 1, 1, 3, 3, 3, 3], [1, 2, 3, 1, 2, 1, 1], [2, 1, 2, 1, 1, 1, 1]])])

P("P14", "Parsing is total: any bytes give a message or an error",
  "For any byte string, parsing it as a client or server message terminates without a panic or an out-of-bounds access and yields an error or a well-formed message; writing that message and parsing the result yields an equal message again.",
  "all byte strings up to the bounds, including ones shaped around each syntactic element",
  "Hostile input: the space is all byte strings; tests cannot enumerate it.",
  ["src/ircmsg/client.rs", "src/ircmsg/server.rs", "src/ircmsg/tags.rs", "src/ircmsg/args.rs", "src/ircmsg/source.rs", "src/string/splitter.rs"],
  [("message parsers", "src/ircmsg/client.rs, src/ircmsg/server.rs"), ("tag parser", "src/ircmsg/tags.rs")],
  [H("h_parse_client", "template %d with %d arbitrary bytes (0: all; 1: tags first; 3: long last argument; 4: tags and arguments)", [[0, 7], [1, 6], [3, 8], [4, 5]], [[0, 8], [1, 7], [3, 12], [4, 6]]),
   H("h_parse_server", "template %d with %d arbitrary bytes (0: all; 2: source first)", [[0, 7], [2, 8]], [[0, 8], [2, 14]])])

P("P15", "Parsing follows the IRC message grammar",
  "For any text produced by the IRC grammar (optional tags and source, a command in any letter case or a numeric, arguments separated by one or more spaces, an optional colon before the last argument), parsing yields exactly the tags, source, command and arguments that the grammar assigns to it, with the last occurrence of a duplicate tag taking effect; tags or a source out of place are not accepted.",
  "all grammatical texts within the bounds",
  "Needs every layout of spaces, colons and cases for all contents.",
  ["src/ircmsg/server.rs", "src/ircmsg/client.rs", "src/ircmsg/args.rs", "src/ircmsg/tags.rs"],
  [("message parsers", "src/ircmsg/server.rs"), ("argument parser", "src/ircmsg/args.rs")],
  [H("h_parse_grammar", "%d tags, source parts of length up to %d (0: none), up to %d word arguments, contents of length up to %d",
     [[1, 1, 2, 1], [2, 0, 1, 1], [0, 2, 2, 3], [1, 0, 1, 2]], [[1, 1, 2, 2], [2, 1, 1, 1], [0, 3, 3, 3], [3, 0, 0, 1]]),
   H("h_parse_order", "up to %d words that look like tags, a source or a command", [[4]], [[5]]),
   H("h_tags_many", "%d tags in several orders, one of them (any) given twice with an arbitrary value, by every construction", [[22]], [[33]])])

P("P16", "Message tags behave as a map",
  "Under any sequence of edits a message's tags behave as a map from keys to values: lookups return the last value set, removal removes, iteration yields each key once, equality and ordering depend on the contents only, and the reported number of tags is exact, also when read in the middle of an edit.",
  "all edit sequences and contents up to the bounds; all duplicate-key constructions",
  "The implementation is a lazily sorted vector; correctness depends on the order of operations.",
  ["src/util/flatmap.rs", "src/ircmsg/tags.rs"],
  [("flat map and edit guard", "src/util/flatmap.rs")],
  [H("h_tags_model", "up to %d operations, values of length up to %d", [[3, 1], [4, 0]], [[4, 1], [5, 0]]),
   H("h_tags_dup", "constructions from %d pairs, values of length up to %d", [[3, 1]], [[4, 1]]),
   H("h_tags_session", "one edit session of %d insertions (values of length %d), then a lookup or a removal", [[4, 0], [3, 1]], [[5, 0], [4, 1]]),
   H("h_parse_order", "up to %d words that look like tags, a source or a command", [[4]], [[5]]),
   H("h_tags_many", "%d tags in several orders, one of them (any) given twice with an arbitrary value, by every construction", [[22]], [[33]])],
  over=("inputs", "histories"))

P("P17", "Argument lists can only be edited into writable lists",
  "Under any sequence of edits an argument list equals the list of arguments successfully added: only the last argument may contain spaces, be empty or start with a colon, nothing can be added after such an argument, lookups and splits return the right arguments, and the reported room and written length are exact.",
  "all edit sequences and contents up to the bounds",
  "History-dependent: what may be added depends on what was added before.",
  ["src/ircmsg/args.rs"],
  [("argument edit guard", "src/ircmsg/args.rs")],
  [H("h_args_model", "up to %d operations, arguments of length up to %d", [[3, 1], [2, 2]], [[3, 2], [4, 1]])],
  over=("inputs", "histories"))

P("P18", "Message sources are written and parsed faithfully",
  "Writing a source yields nick[!user][@host] of exactly the reported length and parses back to an equal source; parsing any word never panics, and what it yields can be written and parsed again; merging a source's parts into one allocation changes nothing observable.",
  "all sources and words up to the bounds",
  "Separators may occur inside parts; needs all placements.",
  ["src/ircmsg/source.rs"],
  [("source parser and writer", "src/ircmsg/source.rs")],
  [H("h_source", "parts of length up to %d", [[6]], [[10]]),
   H("h_source_long", "one part of length up to %d, mostly concrete", [[130]], [[600]]),
   H("h_source_parse", "all words of length up to %d", [[12]], [[24]])],
  outside=["a user-less source with an empty host, which cannot be told from one without host when written"])

P("P19", "Reported message lengths equal the bytes written",
  "For any message, the room it reports as left is 510 bytes minus what writing it (tags aside, with or without a given source) produces, where the last argument always counts as if written with a colon; the length of a source is what writing it produces, and Display shows exactly the written form.",
  "all messages within the bounds",
  "Off-by-one errors hide in optional separators; every combination of parts has to agree.",
  ["src/ircmsg/client.rs", "src/ircmsg/server.rs", "src/ircmsg/args.rs", "src/ircmsg/tags.rs", "src/ircmsg/source.rs", "src/ircmsg/codec.rs"],
  [("len_bytes and bytes_left", "src/ircmsg/client.rs, src/ircmsg/server.rs")],
  [H("h_lengths", "source parts of length up to %d, up to %d words, contents of length up to %d", [[3, 3, 3]], [[4, 4, 3]]),
   H("h_display", "%d tags, source parts of length up to %d, up to %d words, contents of length up to %d", [[1, 2, 2, 1]], [[2, 1, 1, 1], [1, 2, 2, 2]])])

P("P20", "Numerics and message kinds are lossless and lawful keys",
  "Every number from 0 to 999 is a numeric that prints as exactly three digits and parses back to itself, nothing else parses as one; numerics, commands and message kinds agree with their textual and borrowed forms on equality, ordering and hashing.",
  "all 16-bit numbers, all short byte strings, all pairs",
  "Map lookups by borrowed key silently fail if hash or order disagree for any value.",
  ["src/ircmsg/numeric.rs", "src/ircmsg/servermsgkind.rs", "src/string/bytes.rs"],
  [("packed numeric representation", "src/ircmsg/numeric.rs"), ("Borrow implementations", "src/ircmsg/servermsgkind.rs")],
  [H("h_numeric", "all 65536 numbers, all byte strings of length 0..4", [[]]),
   H("h_borrow_laws", "all pairs of strings of length up to %d", [[6]], [[8]])])

P("P21", "CTCP framing is reversible",
  "A CTCP message written for any command and body parses back to the same command and body; parsing any text as CTCP never panics, recognizes exactly text that starts with the CTCP delimiter, and the body excludes the delimiters.",
  "all texts up to the bounds",
  "Missing or doubled delimiters and empty commands at every position.",
  ["src/ircmsg/ctcp.rs"],
  [("CTCP parser and writer", "src/ircmsg/ctcp.rs")],
  [H("h_ctcp", "commands of length up to %d, bodies of length up to %d, and arbitrary texts", [[4, 5]], [[6, 8]])])

P("P22", "Reading messages from a stream loses and merges nothing",
  "However a byte stream is cut into reads and whatever interruptions occur, reading messages from it yields exactly the messages of its lines in order, skips empty lines, reports an over-long line or a stream that ends in the middle of a message as such, leaves what follows a message unread, and reads never go past the line limit.",
  "all streams up to the bound, all segmentations into reads, all interruption points",
  "Segmentation and faults multiply with contents; tests read from one in-memory slice.",
  ["src/ircmsg/codec.rs"],
  [("line reader", "src/ircmsg/codec.rs")],
  [H("h_stream_client", "streams of %d arbitrary bytes, any segmentation, up to %d interruptions", [[5, 1], [6, 0]], [[6, 1], [7, 0]]),
   H("h_stream_server", "streams of %d arbitrary bytes, any segmentation, up to %d interruptions", [[4, 2]], [[5, 2]]),
   H("h_stream_long", "lines around the maximum length", [[]])],
  over=("inputs", "schedules", "fault_sequences"))

# --------------------------------------------------------------------------- modes
P("P23", "Modes and mode sets behave as letters and sets of letters",
  "Exactly the 52 ASCII letters are modes, and a mode's letter, text, order and equality are those of the letter; a mode set reflects exactly the last set or unset operation per letter, reports whether an operation changed it, counts, compares and iterates (in both directions) exactly the modes it holds, in mode order, and its text and collection rebuild the same set.",
  "all byte values; all operation sequences and sets up to the bounds",
  "Bit tricks on a 64-bit mask: every letter, every pair and every combination has to work.",
  ["src/state/mode.rs"],
  [("packed mode letters and sets", "src/state/mode.rs")],
  [C("h_mode", "all byte values, all pairs of modes", [[]]),
   C("h_modeset", "up to %d operations on each of two sets, %d probes", [[2, 2]], [[3, 2]]),
   C("h_modeset_iter", "sets of up to %d modes (concrete letters: %d)", [[2, 1], [3, 1], [2, 0]])],
  over=("inputs", "histories"))

P("P24", "Channel mode types are read from CHANMODES and PREFIX as documented",
  "For any CHANMODES value the type of each mode is the field that lists it, a mode listed in two different fields is reported as an overlap, and further fields are handed back; a PREFIX value is accepted exactly when it is well-formed, and gives exactly the listed pairs of mode and prefix in both directions; channel mode types built from both classify every mode as a status mode or by its field, and the text of the types parses back.",
  "all CHANMODES and PREFIX values and all edits up to the bounds",
  "Arbitrary server-supplied text; each letter's class depends on all others.",
  ["src/state/mode.rs"],
  [("CHANMODES and PREFIX parsers", "src/state/mode.rs")],
  [C("h_modetypes", "mode strings of length up to %d after %d fields of at most one letter", [[4, 0], [3, 3]], [[5, 0], [4, 3]]),
   C("h_modetypes_sets", "four arbitrary sets of one letter or two each", [[]]),
   C("h_modetypes_edit", "all letters and types", [[]]),
   C("h_modetypes_text", "mode strings of up to %d letters", [[2]]),
   C("h_statusmodes", "PREFIX values of length up to %d, %d probes", [[4, 3]], [[5, 3]]),
   C("h_chanmodes", "CHANMODES values of length up to %d, PREFIX values of %d pairs", [[4, 2]], [[5, 2]])])

# --------------------------------------------------------------------------- queue
P("P25", "The send queue keeps to its rate limit, and to nothing stricter",
  "Whatever the delay, burst and history of waits, attempts, resets and rate changes, the queue releases a message only if the rate limit allows it at that time, releases one whenever it does, reports exactly the time until the next message otherwise, and in any stretch of time W releases at most 1 + burst + W/delay messages; no delay or burst whatever makes it panic.",
  "all times of the calls (symbolic clock), all histories up to the bounds, the listed rates; any rate for the absence of panics",
  "Clock readings are environment input; the number of schedules is unbounded and tests cannot wait.",
  ["src/client/queue.rs"],
  [("leaky bucket over a timestamp", "src/client/queue.rs")],
  [C("h_queue_bucket", "%d operations, rate kind %d, resets %d, coarse clock %d", [[4, 0, 0, 1], [3, 2, 0, 0], [4, 0, 0, 0]], [[5, 0, 0, 1], [3, 1, 1, 1], [4, 0, 0, 0], [3, 2, 0, 0]]),
   C("h_queue_window", "%d operations, rate kind %d, coarse clock %d", [[3, 4, 0]]),
   C("h_queue_extreme", "%d operations, any delay and burst, coarse clock %d", [[2, 1], [1, 0]])],
  over=("inputs", "histories"))

P("P26", "The send queue keeps, orders and labels messages as told",
  "Over any history of edits, nested edits, pops, adjuster changes and resets, the queue holds exactly the messages pushed and not yet popped or removed, in order and unchanged except by adjusters; a message is labeled exactly when asked for and a labeler is present, with a fresh label that is reported; and a message is dropped exactly when an adjuster drops it, with every update of the adjusters applied, for every incoming message before its handlers queue anything.",
  "all histories of up to the bounded number of operations; all adjuster verdicts",
  "History-dependent; positions of edits and adjusters interact.",
  ["src/client/queue.rs"],
  [("queue edit guard and adjusters", "src/client/queue.rs")],
  [C("h_queue_edit", "%d operations", [[3]], [[4]]),
   C("h_queue_labels", "%d labels handed out before, %d labeled messages with up to 2 tags", [[300, 2]], [[300, 3]]),
   C("h_queue_labels_many", "the first two of %d labels are not repeated (one history without symbolic inputs)", [[66000]], [[140000]], max_instr=1000000000),
   C("h_adjust", "%d incoming messages, %d replies queued per message", [[3, 2]], [[4, 2]]),
   C("h_queue_adjust", "%d messages, %d adjusters", [[4, 2]], [[5, 3]])],
  over=("inputs", "histories"))

# --------------------------------------------------------------------------- client
P("P27", "Generated nicks are valid, in order, and never the rejected ones",
  "Nick generators yield the configured nicks first and in order, then exactly the variants their suffixes describe (sequential ones in counting order, random ones with each suffix element from its set, whatever the seed), every one a valid nick; peeking changes nothing; a nick the server calls invalid is neither tried again nor suffixed while all others remain; and no configuration, empty or not, makes generation panic.",
  "all nicks, suffix configurations and seeds up to the bounds, all invalid-nick reports",
  "Random suffixes depend on the seed; tests try one.",
  ["src/client/nick.rs", "src/client/nick/suffix.rs", "src/client/register/defaults.rs"],
  [("nick transforms", "src/client/nick.rs"), ("suffix strategies", "src/client/nick/suffix.rs")],
  [C("h_nick_rng", "%d nicks, %d suffix elements, %d draws, any seed", [[1, 2, 1]]),
   C("h_nick_seq", "nicks of length up to %d, %d suffixes, %d draws", [[2, 1, 5], [1, 2, 12], [3, 1, 4]]),
   C("h_nick_chain", "nicks of length up to %d", [[2]]),
   C("h_nick_invalid", "%d nicks", [[2], [3]]),
   C("h_nick_defaults", "nicks of length up to %d, %d configured", [[2, 3]])],
  over=("inputs", "histories"))

P("P28", "Every handler sees every message once, in order, until it finishes",
  "Whatever the server sends and whatever the handlers decide, each running handler is called exactly once for every message received while it runs and never after it has finished; the client reports exactly the handlers that yielded or finished and withholds no result; messages queued by handlers are sent in order and are neither lost nor invented; handler ids of live handlers are distinct; a client needs running exactly while it has handlers or queued messages; resetting drops everything exactly once; and shared state holds, per key, exactly the value last stored.",
  "all message sequences, handler verdicts and handler additions up to the bounds",
  "Handlers are added, finish and yield in the middle of a round over a slot map.",
  ["src/client.rs", "src/client/logic.rs", "src/client/handler.rs", "src/client/state.rs"],
  [("handler collection and run loop", "src/client/logic.rs"), ("typed shared state", "src/client/state.rs")],
  [C("h_dispatch", "%d messages, %d handlers", [[1, 1], [2, 2]]),
   C("h_yield_all", "%d messages, up to %d handlers, listeners that leave at any time", [[2, 2]], [[3, 3]]),
   C("h_state", "%d operations", [[3]], [[4]])],
  over=("inputs", "histories"))

P("P29", "Registration sends what is due and ends exactly when it should",
  "The initial burst is PASS, CAP LS, USER and NICK with the configured contents; whatever a server then sends, the client requests exactly the offered capabilities it wants, authenticates when it should, never completes registration without authentication if that is required, tries the next nick on a rejected one, answers pings, ends capability negotiation once, and succeeds, fails or goes on exactly as the messages demand, reporting exactly one outcome.",
  "all sequences of server messages from the modelled vocabulary up to the bounded number of steps",
  "A state machine driven by an adversarial peer; tests replay three transcripts.",
  ["src/client/register.rs", "src/client/register/handler.rs", "src/client/register/defaults.rs", "src/client/auth/handler.rs", "src/client/cap.rs"],
  [("registration state machine", "src/client/register/handler.rs")],
  [C("h_reg_burst", "credentials and names of length up to %d", [[2]]),
   C("h_reg_caps", "%d server messages, capability universe %d, extra groups %d", [[4, 3, 0], [3, 11, 2]], [[5, 1, 0], [5, 3, 0]]),
   C("h_reg_auth", "%d server messages, mechanisms %d, extra groups %d", [[4, 1, 0]], [[6, 1, 0]]),
   C("h_reg_nicks", "%d server messages, up to %d nicks, extra groups %d", [[4, 3, 0]], [[5, 3, 0]])],
  over=("histories",))

P("P30", "What a server tells during registration is remembered faithfully",
  "After a successful registration the saved nick, user, host, account, capabilities, server version and ISUPPORT tokens are exactly those the server last sent, and a redirection is recognized exactly when it is one, with the host and port it names.",
  "arbitrary contents up to the bounds",
  "Server-supplied text of arbitrary content; tests use two transcripts.",
  ["src/client/register/handler.rs", "src/client/register.rs", "src/names/isupport.rs", "src/names.rs"],
  [("saving of registration results", "src/client/register/handler.rs")],
  [C("h_reg_info", "nick of length %d, %d ISUPPORT lines of %d tokens of length up to %d", [[1, 2, 1, 3]], [[2, 1, 2, 2], [1, 3, 1, 2]]),
   C("h_reg_who", "%d refused nicks, logins, logouts and greetings", [[4]], [[5]]),
   C("h_reg_redirect", "host of length %d, %d port digits", [[1, 3]])])

P("P31", "SASL exchanges send the right credentials to the right challenges",
  "PLAIN and EXTERNAL answer an empty challenge with exactly the base64 of their specified message, cut into 400-byte chunks with a terminator when needed, and only once; any other or malformed challenge is answered by an abort; challenges are reassembled from any chunks and nothing of a failed attempt reaches the next mechanism; mechanisms are tried in order, each at most once, skipping those the server does not offer; and authentication ends exactly on success or when no mechanism is left.",
  "all short credentials and challenges, long credentials around the chunk limits, all sequences of server replies up to the bounds",
  "Encodings and chunk limits at every length; reply orders multiply with mechanisms.",
  ["src/client/auth.rs", "src/client/auth/handler.rs", "src/client/auth/sasl.rs", "src/client/auth/secret.rs", "src/string/base64.rs"],
  [("authentication handler", "src/client/auth/handler.rs"), ("mechanisms", "src/client/auth/sasl.rs")],
  [C("h_sasl_plain", "credentials of length up to %d", [[1]]),
   C("h_sasl_long", "credentials around multiples of the chunk limit", [[]]),
   C("h_sasl_challenge", "challenges of length up to %d", [[1], [2]]),
   C("h_sasl_order", "%d server replies, %d mechanisms", [[5, 3]], [[6, 3]])],
  over=("inputs", "histories"))

P("P32", "Capability lists are read and requested completely",
  "Any CAP message of the server yields exactly the capabilities and values in its list, its subcommand and whether more follows, and lines of one reply combine while unrelated ones do not; requesting capabilities asks for each exactly once, in order, in lines whose acknowledgement fits into one message (unless a single capability does not).",
  "arbitrary lists and subcommands up to the bounds; all combinations of the given name lengths",
  "Arbitrary server-supplied text and lengths around limits.",
  ["src/client/cap.rs"],
  [("CAP parser and request splitter", "src/client/cap.rs")],
  [C("h_cap_parse", "lists of length up to %d, subcommands of length up to %d, a second line of length up to %d", [[3, 3, 0], [2, 2, 2]], [[4, 3, 0], [3, 2, 3]]),
   C("h_cap_combine", "%d further lines of up to %d capabilities", [[2, 1]], [[1, 2]]),
   C("h_cap_req", "up to %d capabilities, %d lengths, up to %d bytes of padding", [[3, 6, 0], [2, 6, 40]])],
  outside=["tabs and form feeds inside a list, which the code takes for separators"])

P("P33", "Pings and CTCP queries are answered properly, and only those",
  "Every PING from the server is answered with exactly one PONG carrying its last argument, and nothing else is; a ping sent by the client is matched only by a PONG carrying its token and then yields the replier and the exact time since its creation; CTCP VERSION and SOURCE queries (in a PRIVMSG, from a known nick, in any letter case) are answered with exactly one NOTICE to that nick with the configured text, and nothing else, CTCP replies in particular, is answered.",
  "all message contents up to the bounds, all arrival times",
  "Arbitrary peer input; answering a reply loops between clients for ever.",
  ["src/client/handlers/ping.rs", "src/client/handlers/autoreply.rs"],
  [("ping handlers", "src/client/handlers/ping.rs"), ("CTCP replies", "src/client/handlers/autoreply.rs")],
  [C("h_autopong", "up to %d words of length up to %d, %d messages", [[2, 2, 1], [1, 1, 2]], [[3, 2, 1], [2, 1, 2]]),
   C("h_ping", "%d messages, sources of length up to %d, any arrival time", [[2, 1]], [[2, 2]]),
   C("h_ctcp_version", "texts of length up to %d, nicks of length up to %d, one letter of the query arbitrary", [[2, 2]], [[3, 2]])],
  outside=["a token whose first octal digit differs by four, which the code takes for the same token", "the time of creation of a ping is one concrete value, as it is hashed into the token"])

P("P34", "The client's own source follows what the server says about it",
  "The client's saved source changes exactly when a NICK, CHGHOST or USERHOST reply concerns the client itself, to exactly the nick, user and host named there, also if the source becomes known only later; the length assumed for the source is that of the known parts (allowing for a tilde) or else the limits the server announced or else the defaults, also right after registration; and resetting the client forgets it.",
  "all sources, messages and limits up to the bounds",
  "Message length limits depend on it; needs every combination of known and unknown parts and of senders.",
  ["src/client/handlers/track.rs", "src/client/logic.rs", "src/client/register/handler.rs"],
  [("source tracking", "src/client/handlers/track.rs"), ("source length", "src/client/logic.rs")],
  [C("h_track", "%d messages, parts of length up to %d", [[2, 1], [1, 2]], [[2, 2]]),
   C("h_source_len", "parts of length up to %d, limits of up to %d characters", [[1, 1]], [[2, 1], [1, 2]]),
   C("h_reg_srclen", "limits of up to %d characters", [[2]])],
  over=("inputs", "histories"))

P("P35", "Running the client respects its timeouts and loses nothing to them",
  "A run ends with a timeout exactly when no complete message arrives within the configured read timeout (with none configured, never), whatever the connection's earlier timeouts and however bytes trickle in; queued messages are sent as soon as the rate limit allows while waiting, under the configured write timeout, and without handlers the whole queue is; the timeout function is called once per timeout and decides whether to go on; a message cut by a timeout is completed by the next run; the end of the connection and failed writes are reported as errors after everything before was handled.",
  "all arrival times (symbolic clock), all combinations of limits, queued messages and handlers within the bounds",
  "Timing against a rate-limited queue: the schedules cannot be tested by waiting.",
  ["src/client/conn/sync.rs", "src/client/conn/time.rs", "src/client/queue.rs", "src/ircmsg/codec.rs"],
  [("synchronous run loop", "src/client/conn/sync.rs"), ("deadline arithmetic", "src/client/conn/time.rs")],
  [C("h_run_times", "up to %d queued messages, %d read limits, %d write limits, earlier limits %d", [[2, 6, 1, 0], [1, 2, 2, 1]], [[3, 6, 2, 1]]),
   C("h_run_trickle", "up to %d pieces", [[2]], [[3]]),
   C("h_run_errors", "partial lines of length up to %d", [[2]], [[4]]),
   C("h_run_wrapped", "%d configurations, up to two messages, any number of runs up to three", [[4]])],
  over=("inputs", "schedules", "fault_sequences"),
  outside=["TCP and TLS streams themselves and the tokio run loop; the connection is an in-memory one with a symbolic clock"])

P("P36", "ISUPPORT and capability values are read as documented",
  "A map of names behaves as a map under any sequence of edits, with sorted keys; numbers in ISUPPORT tokens are read exactly if they are positive and fit their type, modes are the first letter or the documented default, words are unchanged; and the mechanisms in the sasl capability are exactly the non-empty comma-separated names, uppercased.",
  "all values and edit sequences up to the bounds",
  "Arbitrary server-supplied text.",
  ["src/names.rs", "src/names/types.rs", "src/names/isupport.rs", "src/names/cap.rs", "src/util/flatmap.rs"],
  [("typed values", "src/names/isupport.rs, src/names/cap.rs"), ("name maps", "src/names/types.rs")],
  [C("h_isupport", "values of length up to %d (digits only: %d)", [[3, 0], [5, 1]], [[4, 0], [6, 1]]),
   C("h_sasl_cap", "values of length up to %d", [[5]], [[6]]),
   C("h_namemap", "%d operations, keys of length up to %d", [[2, 1], [3, 1]], [[3, 2]])],
  over=("inputs", "histories"))

P("P37", "Typed messages carry exactly the message they were made from",
  "A NOTICE, PRIVMSG, PART, TOPIC, QUIT, WALLOPS or JOIN message parses into its typed form exactly when it has the arguments the type needs, with the same tags, source, target and text, and mapping the text changes nothing else; a handler that yields parsed messages yields every such message of its kinds exactly once and in order, nothing else, and finishes when nobody listens.",
  "all messages up to the bounds, all message sequences up to the bounds",
  "Every combination of present and absent parts.",
  ["src/names/cmd.rs", "src/ircmsg/targeted.rs", "src/client/handlers.rs"],
  [("typed messages", "src/names/cmd.rs"), ("yielding handlers", "src/client/handlers.rs")],
  [C("h_typed", "contents of length up to %d", [[2]], [[3]]),
   C("h_yield_parsed", "%d messages with texts of length up to %d", [[2, 1]], [[3, 1]]),
   C("h_yield_just", "%d messages with texts of length up to %d", [[2, 1]], [[3, 1]])],
  over=("inputs", "histories"))

# --------------------------------------------------------------------------- serde, tokio
P("P38", "Serialized values deserialize to equal ones, and only valid ones do",
  "With the serde feature, every string, argument list, tag map, numeric, message and server address survives serialization and deserialization through a self-describing format unchanged; whatever data is offered, only members of a type's language deserialize into it (a deserialized argument list can be sent), and secrets that are loaded or deserialized hold exactly the secret and are marked secret.",
  "all strings, lists, messages and offered values up to the bounds",
  "Deserialization bypasses the usual constructors; configuration files are arbitrary input.",
  ["src/string/serde.rs", "src/string/subtypes/macros.rs", "src/ircmsg/args.rs", "src/ircmsg/tags.rs", "src/ircmsg/numeric.rs", "src/ircmsg/servermsgkind.rs", "src/client/auth/secret.rs", "src/client/conn.rs"],
  [("string visitor", "src/string/serde.rs"), ("argument deserializer", "src/ircmsg/args.rs"), ("secret loading", "src/client/auth/secret.rs")],
  [I("h_serde_str", "all byte strings of length up to %d, every type", [[4]], [[5]]),
   I("h_serde_args", "up to %d arguments of length up to %d", [[3, 2]], [[3, 3]]),
   I("h_serde_msg", "messages with up to %d tags and contents of length up to %d", [[2, 1], [1, 2]], [[2, 2]]),
   I("h_serde_small", "all 64-bit numbers; strings of length up to %d", [[3]], [[4]]),
   I("h_serde_secret", "secrets of length up to %d", [[3]], [[4]])],
  outside=["formats that cannot tell byte strings from text (JSON, for strings that are not UTF-8)"])

P("P39", "Asynchronous framing loses, merges and cuts nothing",
  "With the tokio and tokio-codec features, however a byte stream is cut into pieces, whenever it is not ready and whenever a read is abandoned and taken up again, reading or decoding yields exactly the messages of its lines in order and keeps an incomplete line for later; a line beyond the limit is an error and never delivered in part; encoding and sending produce exactly the written form and one line terminator, whatever the writer accepts at a time, and a failed write is reported.",
  "all streams up to the bound, all segmentations, all points of not being ready, of cancellation and of failure",
  "Segmentation, readiness and cancellation multiply with contents; tests read from one in-memory slice.",
  ["src/ircmsg/codec.rs"],
  [("asynchronous line reader", "src/ircmsg/codec.rs"), ("Decoder and Encoder implementations", "src/ircmsg/codec.rs")],
  [I("h_decode", "streams of up to %d arbitrary bytes, any segmentation", [[5]], [[6]]),
   I("h_decode_long", "lines around the maximum length", [[]]),
   I("h_encode", "arguments of length up to %d", [[2]], [[3]]),
   I("h_aread", "streams of up to %d arbitrary bytes, any segmentation, up to %d points of not being ready, failing or ending for now", [[4, 1], [3, 2]], [[5, 1], [4, 2]]),
   I("h_send", "arguments of length up to %d, any acceptance by the writer, up to %d points of not being ready", [[1, 1]], [[2, 2]])],
  over=("inputs", "schedules", "fault_sequences"))

P("P40", "The asynchronous run loop respects its timeouts and loses nothing",
  "With the tokio feature, a run ends with a timeout exactly when no complete message arrives within the read timeout (with none configured, never), however bytes trickle in; queued messages are sent as soon as the rate limit allows while waiting; a write that makes no progress within the write timeout ends the run with an error, and no other does; the timeout function is called once per timeout; a message cut by a timeout or by abandoning the run while it waits is completed by the next run; the end of the connection and failed writes are reported after everything before was handled.",
  "all arrival and stall times (symbolic clock) and all combinations of limits, queued messages and handlers within the bounds, all points of abandoning",
  "Timing against a rate-limited queue and cancellation points cannot be tested by waiting.",
  ["src/client/conn/tokio.rs", "src/client/conn/time.rs", "src/client/queue.rs", "src/ircmsg/codec.rs"],
  [("asynchronous run loop", "src/client/conn/tokio.rs"), ("timed I/O", "src/client/conn/time.rs")],
  [I("h_arun_times", "up to %d queued messages, %d read limits", [[1, 6]], [[2, 6]]),
   I("h_arun_stall", "up to %d stalls, %d write limits", [[2, 6]], [[3, 6]]),
   I("h_arun_trickle", "up to %d pieces, up to %d points of abandoning", [[2, 1], [1, 2]], [[3, 2]]),
   I("h_arun_errors", "partial lines of length up to %d", [[2]], [[4]])],
  over=("inputs", "schedules", "fault_sequences"),
  outside=["TCP and TLS streams themselves"],
  assumptions=["tokio's own timers are replaced by ones that follow the symbolic clock and are due when polled at or after their deadline; the rest of tokio is the real crate. The task is polled again exactly when something it waits for (a live timer, the reader, the writer) has become due."])

P("P41", "Handler channels deliver, drop and close exactly as documented",
  "Over a one-shot channel at most one value is ever sent, and it is received unchanged, once; every value is dropped exactly once whoever holds it last (received, refused, or left behind when either side goes), and the channel's memory is released when the last handle goes. Sending fails, giving the value back, exactly when the receiver is gone or a value was sent, which is also when the channel reports being closed; peeking and emptiness agree with what receiving gives. A used or closed sender never sends. Queues keep values in order, report closure to senders, and lose nothing. A parker that was unparked, or has no unparker left, does not block.",
  "all histories of sends, clones, drops and receives within the bounds, all values",
  "Double drops and leaks depend on which handle goes last after which operations; tests take the ordinary order.",
  ["src/client/handler/channel.rs", "src/client/handler/channel/oneshot.rs", "src/client/handler/channel/parker.rs"],
  [("one-shot channels", "src/client/handler/channel/oneshot.rs"), ("parkers", "src/client/handler/channel/parker.rs"), ("the channels handlers are given", "src/client/handler/channel.rs")],
  [T("h_oneshot_seq", "%d operations, up to %d senders", [[5, 3]], [[6, 3]]),
   T("h_parker_seq", "%d operations", [[5]], [[7]]),
   T("h_queue_seq", "%d operations", [[6]], [[9]]),
   I("h_tokio_oneshot", "%d operations (tokio)", [[4]], [[7]]),
   I("h_tokio_queue", "%d operations (tokio)", [[4]], [[6]])],
  over=("inputs", "histories"),
  outside=["the inside of std's and tokio's channels beyond what these run through"])

P("P42", "Handler channels are safe and lose nothing across threads",
  "When several threads hold senders and one holds the receiver of a one-shot channel, whatever they do and however their steps interleave: no memory is used after its release, released twice or leaked, and no two accesses race (every access to a value sent happens after its sending, also under weak memory orderings); exactly the values whose sending succeeded, at most one, are received, and all others are given back; a receiver that gives up leaves every sender working. A parked thread wakes when somebody unparks it or the last unparker goes, in every interleaving, never hangs, and never wakes for another reason, in particular not for a wake-up that was meant for an earlier parker; so waiting for a value returns it whenever any of the threads sends one.",
  "all interleavings of the atomic steps of the threads within the preemption bounds, sequentially consistent, for all choices of what each thread does",
  "The failing schedules are a few instructions wide.",
  ["src/client/handler/channel/oneshot.rs", "src/client/handler/channel/parker.rs", "src/client/handler/channel.rs"],
  [("one-shot channels", "src/client/handler/channel/oneshot.rs"), ("parkers", "src/client/handler/channel/parker.rs")],
  [T("h_oneshot_race", "%d sending threads doing any of %d things, up to 4 preemptions", [[2, 4]], [[2, 4]], preempt=4),
   T("h_oneshot_race", "%d sending threads doing any of %d things, up to 2 preemptions", [[3, 4]], [[3, 4], [4, 2]], preempt=2),
   T("h_parker_race", "%d unparking threads, parking %d times, up to 4 preemptions", [[2, 2]], [[2, 3]], preempt=4),
   T("h_parker_race", "%d unparking threads, parking %d times, up to 2 preemptions", [[3, 2]], [[3, 3], [4, 2]], preempt=2),
   T("h_parker_again", "%d parkers one after the other, up to 4 preemptions", [[2]], [[2]], preempt=4),
   T("h_parker_again", "%d parkers one after the other, up to 2 preemptions", [[3]], [[3], [4]], preempt=2),
   T("h_recv_race", "%d sending threads, up to 4 preemptions", [[2]], [[2]], preempt=4),
   T("h_recv_race", "%d sending threads, up to 2 preemptions", [[3]], [[3], [4]], preempt=2)],
  over=("inputs", "schedules"),
  outside=["effects of weak memory orderings other than data races (relaxed atomics reading old values)", "schedules with more preemptions than stated", "std's own channels and locks beyond what these run through"],
  assumptions=["A thread can be preempted before every atomic access and at futex waits; futex wake-ups go to the waiters in order of their creation; there are no spurious futex wake-ups."])

P("P43", "Server addresses and registration defaults mean what they say",
  "Two server addresses are equal exactly when the address, the use of TLS and the effective port (6697 with TLS and 6667 without, unless given) are equal; equality is symmetric and equal addresses hash alike; the text form is the address, a plus sign for TLS, and the effective port. The ready-made registrations send the configured password, username, realname and nicknames unchanged, in the documented order, with the documented defaults for what is missing and always with fallback nicknames; authenticators are tried in the order given and are required exactly when there are any and failure is not allowed; the default capability functions ask for exactly the documented combination of wanted, common and available capabilities.",
  "all addresses, ports and option values within the bounds, all combinations of present and missing options, all subsets of a set of capabilities",
  "Combinations of options are multiplied; tests check one configuration.",
  ["src/client/conn.rs", "src/client/register/defaults.rs", "src/client/register.rs", "src/client/auth.rs"],
  [("server addresses", "src/client/conn.rs"), ("default registration functions", "src/client/register/defaults.rs"), ("authenticator queue", "src/client/auth.rs")],
  [C("h_server_addr", "addresses of length up to %d, all ports", [[4]], [[6]]),
   C("h_server_addr_text", "addresses of length up to %d", [[3]], [[5]]),
   C("h_reg_defaults_caps", "all subsets of five capabilities wanted and available", [[]]),
   C("h_reg_defaults", "values of length up to %d", [[3]], [[6]])],
  outside=["connecting (sockets and TLS)", "the user name taken from the operating system by the whoami feature", "formatting of integers beyond a dozen ports"])

P("P44", "Strings can be shared between threads",
  "When several threads hold clones of one string, secret or not, and each reads, clones, drops, converts, transforms or unwraps its own, then however their steps interleave every one of them sees the string's value until it changes its own clone, nothing is used after its release, released twice or leaked, and every release or reuse of the shared buffer happens after all reads of it by other threads, also under weak memory orderings.",
  "all interleavings of the atomic steps of the threads within the preemption bounds, for all choices of what each thread does",
  "Reference counts are right in every sequential run even if they are not safe to share.",
  ["src/util/thinarc.rs", "src/string/bytes.rs", "src/util/ownedslice.rs"],
  [("reference counts", "src/util/thinarc.rs"), ("strings", "src/string/bytes.rs")],
  [T("h_bytes_race", "%d threads next to the main one doing any of %d things, up to 6 preemptions", [[1, 6]], [[1, 6]], preempt=6),
   T("h_bytes_race", "%d threads next to the main one doing any of %d things, up to 4 preemptions", [[2, 6]], [[2, 6], [3, 3]], preempt=4)],
  over=("inputs", "schedules"),
  outside=["more threads and preemptions than stated", "reorderings that are not data races (relaxed atomics reading old values)"])

P("P45", "Strings compare, order, hash and read as their contents",
  "Equality, order and hash of strings of every type, and their equality with slices, arrays and text, depend only on the bytes, not on whether a string is borrowed, owned, shared or secret or what is known about its encoding; a string hashes as its bytes do, so that it can be looked up by them; its text, lossy or not, and its display form are those of the bytes, and asking for them changes nothing; client tags, usernames with a tilde and the text of commands are told as documented.",
  "all pairs of strings up to the bounds, all representations",
  "Maps and comparisons silently fail for one representation only; tests compare borrowed strings.",
  ["src/string/bytes.rs", "src/string/subtypes/macros.rs", "src/string/subtypes/impls.rs"],
  [("comparisons and conversions", "src/string/bytes.rs"), ("comparisons of typed strings", "src/string/subtypes/macros.rs")],
  [H("h_string_laws", "all pairs of byte strings of length up to %d", [[3]], [[5]]),
   H("h_string_text", "all byte strings of length up to %d", [[4]], [[5]]),
   H("h_typed_laws", "all pairs of members of each type of length up to %d", [[3]], [[5]])],
  outside=["Debug output beyond secrecy (P09)"])
P("P46", "A reset client is as good as new; a moved one carries on",
  "After Client::reset or reset_with_conn, whatever happened before (queued, half-read messages, failed writes, handlers, labels, state, errors, time-outs), the client behaves exactly as a new client with the same configuration: same messages at the same times, same time limits on the connection in use, same results; the old handlers are gone and their channels closed, nothing of the old connection's input or output reaches the new one, and the old connection comes back. with_conn, with_spec and take_conn change nothing else: the messages, handlers, state, labels, limits and partial input of a client carry over, and the new connection gets the configured time limits.",
  "all pairs of ten kinds of earlier events, four configurations, all later runs up to the bounds",
  "Reconnecting is what a long-lived client does after every failure; what leaks depends on the point at which the old connection broke, and tests use a new client each time.",
  ["src/client.rs", "src/client/logic.rs", "src/client/conn.rs", "src/client/conn/sync.rs", "src/client/conn/time.rs", "src/client/handler.rs", "src/client/queue.rs"],
  [("reset and moves", "src/client.rs"), ("reset of the logic", "src/client/logic.rs"), ("reset of the buffers", "src/client/conn.rs")],
  [C("h_client_reset", "%d configurations, earlier time-out functions %d, any time between (%d)", [[4, 1, 0], [2, 0, 1]], [[4, 1, 1]]),
   C("h_client_move", "%d configurations, the input cut anywhere", [[4]])],
  outside=["the asynchronous client (it shares reset and the moves with the blocking one)"])
P("P47", "TCP connections go where the address says and honour the limits set on them",
  "ServerAddr::connect_no_tls makes one connection, to the host and the port that the address means (the given one, or the default for its kind), and refuses an address that is not text without trying; the connection sends and receives exactly the bytes given and sent by the server, in order, however the system splits them; read and write time limits set on it, through whichever interface or by a running client, reach the socket's receive and send limit respectively and are reported back; shutting it down shuts the half that was asked for, and dropping it closes the socket.",
  "all ports, all time limits of the stated forms, all contents up to the bounds, all splits into single bytes or whole buffers",
  "Swapped time limits or halves only show when a peer stalls; no test of the crate opens a socket.",
  ["src/client/conn/sync.rs", "src/client/conn.rs"],
  [("TCP streams", "src/client/conn/sync.rs"), ("addresses", "src/client/conn.rs")],
  [C("h_tcp", "contents of length up to %d", [[2]], [[4]]),
   C("h_tcp_badaddr", "addresses of length up to %d", [[3]], [[5]]),
   C("h_tcp_run", "one message each way", [[]])],
  outside=["name resolution", "the operating system's sockets (stand-ins for socket, connect, send, recv, setsockopt, getsockopt, shutdown and close record what they are told)", "TLS streams, asynchronous streams"])
