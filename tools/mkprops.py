import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
AB="crates/abe/src/"
p("B01","Wake-up bus: the shared head only moves forward and every emit is accounted for",
 "Within one process the value held by a bus handle never decreases, and after any set of emits (local or received from other processes, in any interleaving) it equals the largest value ever given to it. An emit returns the larger of its argument and the value already in force at some moment during the call, and re-emitting the current value is not an error.",
 ["schedules","histories"],"all interleavings of concurrent emits, receives and reads on one bus, all value orders including equal and decreasing values",
 "ipcbus has no tests in the suite; the race needs two emits interleaved between the load and the compare-exchange.",
 ["crates/ipcbus/src/udp_procbus.rs"],[("compare-exchange retry loop","udp_procbus.rs _emit"),("receive thread feeding _emit","udp_procbus.rs ProcBus::new/init")],
 ["ProcBus::emit return value","ProcBus::next_deadline return value","ProcBus::next_async"],[("val","highest log stamp known to this process","udp_procbus.rs")])
p("B02","Wake-up bus: a waiter registered before an emit is always woken by it",
 "A process that waits on the bus returns with a value at least as large as that of any emit made after its wait was registered (including emits of an unchanged value), and it reports a timeout only if no such emit happened before its deadline. Every registered waiter is woken, not just one.",
 ["schedules","histories"],"all interleavings of any number of waiters (blocking with/without deadline, async) with local and remote emits",
 "No test exists for waiting; lost wake-ups need a specific interleaving of listen, compare-exchange and notify.",
 ["crates/ipcbus/src/udp_procbus.rs"],[("listen before wait, notify after store","udp_procbus.rs next_deadline/_emit")],["ProcBus::next_deadline","ProcBus::next_async"])
p("B03","Wake-up bus: emits reach every other process on the same bus and no other bus",
 "An emit that changes the head is announced once to the other processes, and each of those on the same bus id that receives the announcement moves to at least that value; announcements that come from itself, from a bus with another id, or that are malformed change nothing, and a received announcement is never announced again.",
 ["schedules","fault_sequences","histories"],"any number of buses and processes on one multicast port, any loss, duplication or reordering of datagrams, any datagram bytes",
 "Needs several processes/buses sharing one port and adversarial datagrams; the suite has no such test.",
 ["crates/ipcbus/src/udp_procbus.rs","crates/ipcbus/src/udp_multicast.rs"],[("message = bus id, pid, value","udp_procbus.rs"),("filter on id and pid","udp_procbus.rs rx closure"),("no re-broadcast of received values","udp_procbus.rs _emit::<true>")],["datagrams on the multicast group","ProcBus::next_deadline"])
p("B04","Port registry: one stable, distinct port per bus id",
 "Asking for the port of a bus id returns the same port every time, in every process and after any restart, and two different ids never get the same port (until the port range is used up); concurrent requests for new ids behave as if they had been made one after the other, and requesting an id already known never changes the registry.",
 ["histories","schedules","crash_points"],"all sequences and interleavings of requests for any ids from any number of processes, including ids first seen concurrently and a registry that already has entries",
 "No test touches the registry file; the guarantee is over histories of several processes.",
 ["crates/ipcbus/src/udp_procbus.rs"],[("lock file around read-modify-write","udp_procbus.rs get_port"),("10-byte records appended to the map file","udp_procbus.rs get_port")],["get_port return value","procbus.map contents"],[("procbus.map","list of (bus id, port)","temp dir")])

p("A01","Text form of bytes: lossless, printable and delimiter-free",
 "Every byte string has a text form made only of printable ASCII in which newline, tab, ':' '/' '[' ']' '\\' and every non-printable byte appear only as escapes, and decoding that form gives back exactly the original bytes. Decoding accepts exactly the well-formed texts (each documented escape, either hex case) and rejects any text with a bare control or non-ASCII byte, a bare delimiter or an incomplete or unknown escape; a decode limited to n bytes fails rather than truncating.",
 ["inputs"],"all byte strings (encode) and all texts, well formed or not (decode), all length limits",
 "The unit test round-trips a handful of strings; the claim is over every byte string and every malformed text.",
 [AB+"abtxt.rs"],[("escape lookup table","abtxt.rs as_abtxt"),("abtxt parser","abtxt.rs parse_abtxt")],["as_abtxt","as_abtxt_c","parse_abtxt_b","parse_abtxt_upto_max","CutErr/parse errors"])
p("A02","Expressions: parsing is unambiguous and printing is its inverse",
 "A text parses as an expression exactly when its brackets balance and its plain parts are well-formed text, the parse records every plain part, separator and bracketed sub-expression in order, and printing a parsed expression gives a text that parses to the same expression. Tokenizing a text finds the same separators at bracket depth zero as parsing it (a separator that ends the text starts no component).",
 ["inputs"],"all texts, nested to any depth, with empty parts, escapes, unbalanced or missing brackets, in both the strict and the raw-bytes-allowed parse mode",
 "Two unit tests parse a few strings; ambiguity and round-trip failures live in unusual nestings and escapes.",
 [AB+"ast.rs"],[("recursive parser","ast.rs parse_abe*"),("printer","ast.rs Display/print_abe"),("tokenizer","ast.rs tokenize_abe")],["parse_abe_*","print_abe","tokenize_abe_b"])
p("A03","Evaluation: the value of an expression is the value of its parts",
 "Evaluating an expression yields the list of byte strings and separators obtained by replacing each bracketed call with the bytes it returns and joining adjacent bytes; a call's arguments are the evaluated parts between ':' and its input is what the preceding '/' stage produced; macros receive their body unevaluated. Evaluation either yields that list or an error and any failing sub-expression makes the whole fail, unless it is an alternative that /or passes over.",
 ["inputs","programs"],"all expressions over the built-in functions and macros, any nesting and chaining",
 "The evaluator has one small unit test about result propagation; composition is over all programs.",
 [AB+"eval.rs",AB+"convert.rs"],[("eval","eval.rs eval/eval_expr"),("ABList builder","eval.rs ABList"),("call chain","eval.rs dump/apply")],["eval","ABList contents"])
p("A04","Scopes: the first scope that knows a name decides",
 "When scopes are stacked, a call is answered by the first scope that defines the name, later scopes never override it and its failure (also for a wrong number of arguments or position) is never masked by another scope; a name no scope defines is an error. Wrapping or splitting a stack of scopes in a different grouping does not change any result.",
 ["programs","configurations"],"all stacks of scopes, all groupings, any definition overlap including macros",
 "One unit test covers the result type; precedence between overlapping scopes is not tested.",
 [AB+"eval.rs",AB+"scope/mod.rs"],[("or_else chaining of scope results","eval.rs ApplyResult/Scope impl for tuples")],["eval over (A,B), ((A,B),C), (A,(B,C))"])
p("A05","Built-in byte, number and logic functions compute their documented result",
 "For every argument list, the built-in functions for padding, cutting, slicing, replacing, number parsing/printing, saturating addition and subtraction, base conversion, size/value tests and alternatives return exactly the documented bytes, or fail exactly when the documented precondition fails; none of them crashes or loops.",
 ["inputs","programs"],"all function names, argument counts, argument bytes (empty, non-numeric, out of range, maximal) and inputs",
 "Only a few literal expressions are evaluated by tests; edge cases such as empty or maximal operands are not.",
 [AB+"scope/bytes.rs",AB+"scope/uint.rs",AB+"scope/base.rs",AB+"scope/logic.rs"],[("function tables","scope/*.rs list_funcs")],["eval(\"[fn:args]\")"])
p("A06","Reverse encoding always evaluates back to the same bytes",
 "Encoding bytes as an expression with any list of encoder options gives an expression whose evaluation in the same scope (one in which the encoder's name is not hidden by an equally named function of an earlier scope) is exactly those bytes, choosing the first option that applies and falling back to plain text where permitted; when no option applies it reports failure.",
 ["inputs","configurations"],"all byte strings, all lists of encoder names and options, all standard scopes",
 "No test encodes anything but fixed examples.",
 [AB+"eval.rs",AB+"scope/encode.rs",AB+"scope/uint.rs",AB+"scope/base.rs"],[("encode_abe","eval.rs encode/encode_abe"),("per-function encoders","scope/*.rs")],["encode_abe(bytes, options) then eval"])
p("A07","Configuration lists: the newest entry wins and printing is reversible",
 "Looking up a key in a configuration list returns the most recently added entry, an entry without a value is distinguished from an absent one, a single-value lookup refuses malformed entries, and a configuration survives being printed and parsed again with the same lookups.",
 ["inputs","histories"],"all sequences of added entries with any keys and values, all printed forms",
 "abconf has no test.",
 [AB+"abconf.rs"],[("reverse scan lookup","abconf.rs get/try_iter"),("Display/FromStr","abconf.rs")],["ABConf lookups","to_string/parse"])

p("F01","Fixed-size byte values: exact length, lossless text, no silent loss",
 "A fixed-size value built from shorter bytes is left-padded with zeros and can give back those bytes, building it from longer bytes fails, and each of its text forms (base64, expression text, debug/display forms that are parseable) parses back to the identical value; a text of the wrong length or alphabet is rejected.",
 ["inputs"],"all sizes used, all byte values, all texts",
 "A doctest and two small tests sample a few values.",
 ["crates/byte-fmt/src/lib.rs","crates/byte-fmt/src/serde.rs"],[("AB/B64 newtypes","byte-fmt/src/lib.rs")],["AB/B64 parse, Display, try_fit, cut"])
p("F02","Big-endian integers: byte order is numeric order and arithmetic is exact",
 "The big- and little-endian integer types convert to and from native integers, bytes and text without change, compare in numeric order (which for the big-endian types equals byte order), and their saturating, incrementing and bitwise operations equal the native ones.",
 ["inputs"],"all values of each width, all operand pairs (boundary and random)",
 "Tests check a few constants per width.",
 ["crates/byte-fmt/src/endian_types.rs","crates/byte-fmt/src/lib.rs"],[("macro generated endian types","endian_types.rs"),("U256/U512 conversions","lib.rs")],["U16..U128, LU16..LU128, B64<->U256"])

p("K01","Hash and signature: only the right key, over the right hash, verifies",
 "A content hash depends only on the concatenated bytes and not on how they are split; a signature made by a key over a hash verifies under that key's public key and that hash, and verification fails for every other public key, hash or altered signature; key bytes outside the valid range are refused.",
 ["inputs"],"all keys, hashes, segmentations and single-field alterations",
 "One test generates a key; non-acceptance is universally quantified.",
 ["crates/cryptography/src/lib.rs","crates/cryptography/src/keygen.rs"],[("segment hashing","lib.rs hash_segments"),("schnorr sign/validate","lib.rs sign_hash/validate_signature")],["hash_segments","sign_hash","validate_signature","SigningKey::try_from"])
p("K02","Encrypted identity: the password, and nothing else, opens it to the same key",
 "An encrypted identity opens with the password it was made with and yields the original signing key, and its public key is readable without the password; any other password, or an alteration of any field of the encrypted text, is refused, or (for purely syntactic additions) still opens to the same key, but never yields a different key.",
 ["inputs"],"all keys, passwords and cost parameters, every single-field or single-character alteration, every malformed text",
 "Two tests encrypt and parse one identity; the refusals are universal.",
 ["crates/argon2-identity/src/lib.rs"],[("argon2 derived xor mask plus public-key check","lib.rs encrypt/decrypt"),("strict field parser","lib.rs decode_string")],["encrypt","decrypt","pubkey"])

p("P01","Packets: the hash identifies the content and nothing but the content",
 "Building a packet and reading it back gives the same group, domain, space, links, data, stamp and signer, two packets have the same hash exactly when these are equal, and the mutable routing header can be changed freely without changing the hash, the content or the validity of the packet.",
 ["inputs","histories"],"all point kinds, field values, sizes up to the limits, and sequences of copies and header changes across all in-memory representations",
 "pkt's own tests are not run by the suite; they sample a few packets.",
 ["crates/pkt/src/builder.rs","crates/pkt/src/netpkt/","crates/pkt/src/point_ptr.rs"],[("hash over point bytes only","point_ptr.rs compute_hash"),("NetPktParts/Box/Arc/Reroute","netpkt/*")],["datapoint/linkpoint/keypoint, NetPkt/Point accessors"])
p("P02","Packet reading: exactly the well-formed bytes are accepted",
 "Reading a byte stream yields a packet exactly when its bytes are complete, its lengths and offsets are consistent and within limits, its padding is right, its hash matches and its signature verifies; every truncation and every alteration of a content byte is rejected and nothing makes the reader crash or read past the end.",
 ["inputs","fault_sequences"],"every truncation point, every single-byte alteration of valid packets, adversarial headers",
 "Needs every corruption position, and the pkt tests are not part of the suite.",
 ["crates/pkt/src/read.rs","crates/pkt/src/point_ptr.rs","crates/pkt/src/netpkt/partial.rs"],[("partial header then length check","read.rs read_pkt"),("internal_consitent_length, check_signature","point_ptr.rs")],["read_pkt"])
p("P03","Spaces: component lists survive encoding, and prefixes mean components",
 "A space (list of 1..200-byte components, at most 8 deep and 242 bytes with their lengths) converts between its component list, byte form, rooted form and text form without change; malformed byte forms and oversize lists are refused; one space is a prefix of another exactly when its component list is; and ordering, popping and joining agree with the component lists.",
 ["inputs"],"all component lists up to the limits, all byte strings as candidate encodings",
 "The pkt tests sample a few spaces and are not part of the suite.",
 ["crates/pkt/src/space.rs","crates/pkt/src/rooted_space.rs","crates/pkt/src/space_fmt.rs"],[("length-prefixed components","space.rs"),("offset table","rooted_space.rs")],["SpaceBuf, Space, RootedSpaceBuf"])
p("S01","Storage: an append-only log with one entry per hash",
 "Saving a batch stores each packet whose hash is new exactly once, reports exactly which packets were new, and gives new packets strictly increasing contiguous receive stamps greater than every earlier one, in batch order; what was stored is returned byte-for-byte identical forever after by hash and by receive stamp.",
 ["histories","inputs"],"all sequences of batches with duplicates inside and across batches, clock stalls or steps back, several handles on one store",
 "Only the uncompiled storage tests exist; they insert a few packets once.",
 ["crates/core/src/env/lmdb/save.rs","crates/core/src/env/lmdb/get.rs"],[("hash table NO_OVERWRITE","save.rs"),("start = max(now, last+1)","save.rs"),("reserve+append to pktlog","save.rs")],["BTreeEnv::save*","ReadTxn::read","log_head"])
p("S02","Storage: a failed or interrupted save leaves no trace",
 "If a save fails or the process dies at any point before the commit, no packet, index entry or wake-up of that batch is ever visible; once committed all of them are, and other processes are notified only after the commit.",
 ["crash_points","fault_sequences"],"a failure or crash at every write step of every save, with concurrent readers",
 "Needs fault injection at every step of the save.",
 ["crates/core/src/env/lmdb/save.rs","crates/core/src/env/lmdb/mod.rs"],[("single write transaction","save.rs"),("emit after commit","mod.rs save")],["BTreeEnv::save*","ReadTxn","bus announcements"])
p("S03","Storage: indexes agree and readers see a fixed snapshot",
 "At every point the log, hash index and tree index describe the same set of packets (every spaced packet has exactly one tree entry with its fields), and a reader sees exactly the packets committed before it started until it refreshes, whatever is written meanwhile.",
 ["histories","schedules"],"all interleavings of saves, reader creation, reads and refreshes",
 "Interleavings of readers and writers are not tested.",
 ["crates/core/src/env/lmdb/","crates/pkt/src/netpkt/tree_order.rs"],[("tree entry per spaced packet","save.rs, tree_order.rs"),("read transaction snapshot","get.rs")],["ReadTxn log/hash/tree queries"])
p("Q01","Queries: every index returns exactly the matching packets in its order",
 "A query returns, for each index it can walk, exactly the stored packets that satisfy every predicate, each once, in the order of that index (receive order, hash order, or tree order: group, domain, depth, space, key, creation time) and direction.",
 ["inputs","histories"],"all predicate sets over all fields and operators, all stores, all index modes",
 "The suite has no query test; skipping errors need particular key layouts.",
 ["crates/core/src/env/lmdb/queries.rs","crates/core/src/env/lmdb/tree_iter.rs","crates/core/src/predicate/"],[("tree key jumping","tree_iter.rs"),("compiled predicates","test_pkt.rs")],["ReadTxn::query"])
p("Q02","Predicates: a rule set means the conjunction of its rules, in any spelling",
 "A packet passes a query exactly when it passes every rule added to it; rules that cannot be satisfied together are refused when added; and a query printed as text and parsed again accepts the same packets.",
 ["inputs","programs"],"all sequences of rules over every field and operator with boundary values",
 "Rule algebra tests are not part of the suite and sample a few operators.",
 ["crates/core/src/predicate/","crates/core/src/query.rs"],[("bounds and bit masks","value_test.rs, bitset_test.rs"),("rule parse/print","exprs.rs, pkt_predicates.rs")],["Query add/parse/to_string","PktPredicates test"])
p("Q03","Result limits: counters select exactly the requested positions",
 "Reading the store with limits yields exactly the matches whose zero-based position satisfies them: i_branch counts the matches of one branch (same group, domain, space and key) in the order of a tree query and is ignored when reading by log or by hash, i_db counts the matches of the read, and i counts results; matches left out by one limit do not advance the counters of a later one; reading ends once no further position can match.",
 ["inputs","histories"],"all limit rules over all stores, queries and index modes",
 "The suite has no query test; counting errors need particular stores and rule combinations.",
 ["crates/core/src/env/lmdb/queries.rs","crates/core/src/env/lmdb/tree_iter.rs","crates/core/src/predicate/value_test.rs"],[("position counters","queries.rs"),("branch counter","queries.rs tree")],["ReadTxn::query","lk_get_all"])
p("W01","Watches: every new matching packet is delivered once, in log order",
 "A registered watch is called for each stored packet matched by its query and then for each packet saved later that matches, exactly once and in receive order, until its callback breaks, its query can no longer match, or it is closed or replaced; packets saved by callbacks are processed in the same way and no packet is skipped or repeated across processing rounds.",
 ["histories","schedules"],"all sequences of watch, save, process, close and replace, including those issued from inside callbacks",
 "The suite has no runtime test; re-entrancy needs callbacks that save, watch and close.",
 ["crates/common/src/runtime/rx.rs","crates/core/src/matcher/mod.rs"],[("process loop over log range","rx.rs process"),("pending queue during callbacks","rx.rs")],["Linkspace::watch/process/close callbacks"])
p("W02","Watches: an id names at most one watch and its end is reported once",
 "At most one watch exists per id, a new watch with the same id replaces the old one, closing an id or a prefix removes exactly the watches it names, and each removed watch is told once and with the right reason that it stopped and is never called again.",
 ["histories"],"all histories of register, replace, close, prefix close, expiry and callbacks over several ids sharing prefixes",
 "Needs histories over several overlapping ids.",
 ["crates/core/src/matcher/mod.rs","crates/common/src/runtime/rx.rs"],[("sorted id list","matcher/mod.rs register/deregister")],["stopped callback","watch listing"])
p("T01","Time and partial-hash expressions resolve to the one documented value",
 "Stamp arithmetic and its text forms are exact and saturate or fail as documented, and printing then re-parsing a stamp keeps it; an abbreviated hash resolves to a packet only when exactly one stored packet's hash matches it.",
 ["inputs","histories"],"all stamps, durations, unit suffixes and operators; all stores and abbreviations",
 "Only a few formats are sampled by tests that the suite does not run.",
 ["crates/core/src/stamp_fmt.rs","crates/core/src/partial_hash.rs","crates/core/src/stamp_range.rs"],[("duration parser","stamp_fmt.rs"),("prefix search","partial_hash.rs")],["StampEF functions","PartialHash"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
