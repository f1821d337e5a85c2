NB = "machinery for this property is not finished yet"
p("P03", "Response values are encoded so that clients read back the stored value",
  "Every value returned to a client is sent as the marker of its type (null has its own marker) followed by the exact decimal or byte rendering of the stored value, so that a client decoding the response by the documented grammar obtains exactly the stored row. The decimal renderer used for every integer width yields the shortest decimal numeral of the number, for all numbers.",
  ["inputs"], "all values of all integer widths, all strings, binaries, lists", "tests render a handful of values; boundaries of each width and each type are unbounded",
  [E+"mem/numbuf.rs", E+"core/dml/sel.rs", E+"net/protocol/mod.rs"], [("IntegerRepr", E+"mem/numbuf.rs"), ("encode_cell", E+"core/dml/sel.rs")], claim=("proof", BOTH, "decimal renderer, the encoding of every value (lists of any depth) and of every row select returns: proved (Verus); float text uninterpreted (core); response envelopes bounded"))
p("P04", "Query parameters are decoded verbatim and can never alter the query",
  "A parameterised query is tokenised so that the n-th placeholder yields exactly the n-th client supplied parameter, with the type, value and bytes that were sent, regardless of the parameter content, and the tokens of the query text itself never depend on parameter content. Malformed parameter bytes are rejected and never crash the server or expose memory outside the parameter area.",
  ["inputs"], "all parameter byte strings and all numbers of placeholders", "tests decode a handful of parameters",
  [E+"ql/lex/mod.rs", E+"mem/scanner.rs"], [("SecureLexer", E+"ql/lex/mod.rs")], claim=("proof", BOTH, "every query text and every parameter string (Verus: scanner, lexer and parameter readers, exact in both directions); float parsing and UTF-8 validation of core uninterpreted; raw pointer leaves bounded (Kani)"))
p("P05", "Keyword and symbol recognition is exact",
  "A word in a query is treated as a keyword exactly when it is one of the documented keywords (in any letter case), and is then that very keyword; every other word is an identifier with exactly the bytes that were sent. The same holds for single character symbols.",
  ["inputs"], "all words, all case variations", "the perfect hash is only tested on the keywords themselves",
  [E+"ql/lex/raw.rs", E+"ql/lex/mod.rs"], [("keyword tables", E+"ql/lex/raw.rs"), ("Lexer", E+"ql/lex/mod.rs")], claim=("proof", BOTH, "keyword and symbol tables complete for all words up to 12 bytes, all 62 keywords in every letter case and all symbols (Kani); splitting into words and symbols and their classification for all texts (Verus); the table on words over 32 bytes bounded"))
p("P06", "A stored value always conforms to the declared type of its column",
  "A value offered for a column is accepted exactly when it is of the declared class and within the range of the declared width (for lists: every element, at every nesting level), and a null exactly when the column is nullable. An accepted value is stored unchanged; a rejected one leaves the row and the table as they were.",
  ["inputs"], "all declared types and all literal values", "tests insert a few values per type",
  [E+"core/model/mod.rs", E+"data/tag.rs"], [("Field::vt_data_fpath", E+"core/model/mod.rs")], claim=("proof", BOTH, "the check of every value (lists of any depth) against every type, and insert: proved (Verus); float limits and the scalar checks in place: complete (Kani)"))
p("P07", "UPDATE is atomic and its arithmetic is exact",
  "An update whose every assignment is valid leaves exactly the row obtained by applying them in order with mathematically exact integer arithmetic; an update with any assignment that names an unknown column, mismatches the type, overflows the column width or divides by zero fails and leaves the row exactly as it was. No update crashes the server.",
  ["inputs", "histories"], "all rows, assignments and operators, all orders", "tests update with a few in-range values",
  [E+"core/dml/upd.rs"], [("update", E+"core/dml/upd.rs")], claim=("proof", BOTH, "the statement (order, atomicity, rollback) proved for every row and every statement (Verus); assignment operators complete for all integer operands (Kani); byte appends bounded"))
p("P08", "Primary key lookup finds a row exactly by its key value",
  "Two primary key values address the same row exactly when they are equal in type class and value, whichever way (stored key or query literal) they are represented; so a row is found by its key exactly after it was inserted and before it was deleted, and a second row with the same key can never be inserted.",
  ["inputs", "histories"], "all key values of all classes", "tests use a few keys", [E+"core/index/key.rs"], [("PrimaryIndexKey", E+"core/index/key.rs")], claim=("proof", BOTH, "equality, hashing and conversion of keys complete for all integer keys and all byte lengths (Kani); the row statements address the row of the key, over the contract of a map (Verus); the hash tree below is bounded"))
p("P09", "Stored cells give back exactly what was put in",
  "A cell written with a value of any type reads back as exactly that value and type through every accessor and every copy, null reads as null, and equality of cells is equality of their type and value.", ["inputs"], "all values of all types", "tests store a few values", [E+"data/cell.rs"], [("Datacell", E+"data/cell.rs")], claim=("proof", KANI, "complete for all scalar values and for all byte lengths; equality of byte cells up to 2 bytes and nested lists are bounded"))
p("P10", "Storage file headers round trip and foreign headers are rejected",
  "A storage file header written by the server decodes to exactly what was written. A 64 byte block is accepted as a header exactly when its magic, header version, server version and driver version are the expected ones and its host, class and specifier descriptors are known ones; otherwise it is rejected (as a version mismatch when a version differs). A file is accepted for a purpose (system database, model journal) only if its class, specifier and specifier version are the ones of that purpose.", ["inputs"], "all 64 byte header blocks", "tests open only files they wrote", [E+"storage/common/sdss/impls/sdss_r1/mod.rs", E+"storage/v2/raw/spec.rs", E+"storage/common/versions/mod.rs", E+"storage/common/static_meta.rs"], [("HeaderV1::decode", E+"storage/common/sdss/impls/sdss_r1/mod.rs"), ("SimpleFileSpecV1::validate_metadata", E+"storage/common/sdss/impls/sdss_r1/mod.rs")], claim=("proof", KANI, "complete over all blocks and fields"))
p("P11", "Journal control events are self-authenticating",
  "A journal driver event (close, reopen) written by the server decodes to exactly what was written, and any other 64 byte block is rejected unless its checksum matches and its fields denote a valid event (a known kind, the fixed payload length).", ["inputs"], "all event blocks", "tests decode a few", [E+"storage/v2/raw/journal/raw/mod.rs"], [("DriverEvent", E+"storage/v2/raw/journal/raw/mod.rs")], claim=("proof", KANI, "complete over all blocks and fields, for any checksum function"))
p("P12", "Replaying a journal restores exactly the committed event sequence",
  "Reopening a journal that was closed successfully replays exactly the events whose commit succeeded, in order and with contiguous transaction numbers, through any number of close/reopen cycles and of failed writes in between; a corrupted or truncated journal is reported (unless it was cut back exactly to an earlier clean close, of which it is then a faithful copy) and is never silently replayed differently nor crashes the server.", ["histories", "fault_sequences"], "all histories of commit/failed commit/close/reopen and all corruptions", "tests use a few short histories and never fail a write or damage a file", [E+"storage/v2/raw/journal/raw/mod.rs", E+"storage/v2/raw/journal/mod.rs", E+"storage/v2/impls/mdl_journal.rs", E+"storage/common/sdss/impls/sdss_r1/rw.rs", E+"storage/common/interface/fs.rs"], [("RawJournalReader", E+"storage/v2/raw/journal/raw/mod.rs"), ("TrackedWriter", E+"storage/common/sdss/impls/sdss_r1/rw.rs")], claim=("proof", BOTH, "framing, commit, close, reopen, replay and failing writes proved for every history over the contracts of the file, the checksum and the codecs; the body of a batch, and damaged files against the real checksum, bounded"))
p("P13", "Everything persisted decodes to what was encoded",
  "Dictionaries, cells, fields, models, spaces and DDL events written to disk decode to exactly the value that was encoded.", ["inputs"], "all values", "tests round-trip a few values", [E+"storage/common_encoding/r1/mod.rs", E+"storage/common_encoding/r1/obj.rs", E+"storage/common_encoding/r1/map.rs", E+"storage/common_encoding/r1/impls/gns/model.rs", E+"storage/common_encoding/r1/impls/gns/space.rs", E+"storage/common_encoding/r2.rs"], [("PersistObject", E+"storage/common_encoding/r1/mod.rs")], claim=("proof", BOTH, "every value (scalars, bytes, strings, lists) proved; layers complete; fields and user events bounded in length; dictionaries, models, spaces and DDL events are a bounded stand-in (generated values)"))
p("P14", "Decoding damaged storage bytes fails cleanly",
  "Decoding any byte string as a stored dictionary, cell, model, space or event either yields a value or an error; it never crashes, reads outside the buffer, or allocates beyond a small multiple of the size of the input (nesting deeper than the stack can hold is out of scope).", ["inputs"], "all byte strings", "tests decode only what they encoded", [E+"storage/common_encoding/r1/mod.rs", E+"storage/common_encoding/r1/obj.rs", E+"storage/common_encoding/r1/map.rs", E+"storage/common_encoding/r1/impls/gns/model.rs", E+"storage/common_encoding/r1/impls/gns/space.rs", E+"storage/common_encoding/r2.rs"], [("PersistObject", E+"storage/common_encoding/r1/mod.rs")], claim=("proof", BOTH, "decoding of values proved for every sequence of bytes; layers complete; fields and user events bounded in length; dictionaries, models, spaces and DDL events are a bounded stand-in (damaged encodings)"))
p("P15", "A restart brings back exactly the rows and schema before shutdown",
  "After a clean shutdown and restart every space, model and row is exactly as before, whatever sequence of inserts, updates, deletes and schema changes preceded it.", ["histories"], "all statement histories", "tests restart after a few statements", [E+"storage/v2/impls/mdl_journal.rs"], [("batch journal", E+"storage/v2/impls/mdl_journal.rs")], claim=("exploration", "bounded stand-in: generated statement histories with restarts on the real engine, compared with a model; Verus contracts on the schema history, rows brought up to date and the replay of alterations", "bounded as a whole: the restart path spans the engine and real files; proved for every history: field names at every version, rows of earlier versions, replay of alterations; the contracts of the codecs are P13"))
p("P16", "Only valid credentials log in and only root manages users",
  "A login succeeds exactly with the current username and password of an existing user; user management statements succeed only for the root account, apply exactly the stated change, and never change the root account's existence.", ["inputs", "histories"], "all histories of user management", "few users tested", [E+"core/system_db.rs", E+"core/dcl.rs"], [("SystemDatabase", E+"core/system_db.rs")], claim=("proof", VERUS, "user management and verification proved for all inputs over the contracts of the map, the journal and the hash; login and permissions over the wire bounded"))
p("P17", "A created model is exactly the declared one, or nothing",
  "CREATE MODEL succeeds exactly when the declaration has one primary key of a permitted type, no duplicate or empty fields, and only valid types; the created model has exactly the declared fields in order, types and nullability, and a failed creation leaves nothing behind.", ["inputs"], "all declarations", "few declarations tested", [E+"core/model/mod.rs"], [("ModelData::process_create", E+"core/model/mod.rs")], claim=("proof", BOTH, "from the parsed declaration to the model (or the refusal) proved for all inputs; type name resolution complete; effects on catalogue and disk bounded"))
p("P18", "ALTER MODEL changes exactly what it states or nothing",
  "An ALTER MODEL adds, removes or retypes exactly the named fields, never touches the primary key, and every existing row then reads with exactly the new fields (null for added ones, unchanged values for the others); an invalid ALTER changes nothing.", ["inputs", "histories"], "all alters and all histories", "few alters tested", [E+"core/model/alt.rs", E+"core/model/delta.rs"], [("AlterPlan", E+"core/model/alt.rs")], claim=("proof", BOTH, "the plan of an alteration (or its refusal), its commit and execution, the history of the fields and rows of any earlier version brought up to date proved for all inputs; type change rules complete for every pair of types; whole statements bounded"))
p("P19", "Space properties merge and clear exactly as stated",
  "Altering a space merges the given properties recursively into the stored ones, removing exactly the ones set to null, and leaves all others unchanged; a value of another type than the stored one, a value where a dictionary is stored or the reverse, or anything besides env, is refused and changes nothing. After a restart every space has exactly the properties it had.", ["inputs"], "all nested property dictionaries", "few merges tested", [E+"data/dict.rs", E+"core/space.rs"], [("rmerge_metadata", E+"data/dict.rs")], claim=("proof", VERUS, "merge, patch, create, alter and the replay of both proved for all property trees over the contract of the map and the journal; drop and whole restarts bounded"))
p("P20", "The ordered index behaves as a map that remembers insertion order",
  "After any sequence of insertions, updates and removals the ordered index contains exactly the live keys with their latest values, and iterates them from either end in the order in which they were inserted or last updated. Every entry is dropped exactly once and no freed memory is read, also by the owned iterators.", ["histories"], "all operation sequences", "few sequences tested", [E+"idx/stord/mod.rs"], [("IndexSTSeqDll", E+"idx/stord/mod.rs")], claim=("model_checking", TECH % "Kani in place, bounded to lists of up to 3 nodes", "bounded: every list of up to 3 nodes for the pointer code; whole index natively"))
p("P21", "Inline containers behave as bounded vectors without leaks",
  "The fixed and inline-capacity containers behave as vectors under every sequence of operations, also when iterated by value from both ends, refuse what does not fit, drop every element exactly once and give their memory back.", ["histories"], "all operation sequences", "few sequences tested", [E+"mem/vinline.rs", E+"mem/uarray.rs"], [("VInline", E+"mem/vinline.rs")], claim=("model_checking", TECH % "Kani in place, bounded to small capacities", "bounded: every state of small capacities and every operation on it"))
p("P22", "Configuration is accepted exactly when every setting is valid",
  "A configuration given on the command line, in the environment or in a file is accepted exactly when it comes from one source only, every setting is known and valid and given once (two endpoints of different kinds at most), the root password (at least 16 bytes, no NUL) is there, and the certificate, key and passphrase files are given and readable exactly when there is a TLS endpoint; then every setting has exactly the given value, and those not given have their default. Otherwise it is refused with an error, and no configuration crashes the server.", ["configurations"], "all configurations", "the unit tests try a few valid configurations and a few mistakes", [E+"config.rs"], [("check_configuration", E+"config.rs"), ("validate_configuration", E+"config.rs")], claim=("exploration", "a bounded stand-in: generated configurations against a direct reading of the rules", "no proof: string splitting, maps and serde are outside Verus' reach; Kani's string search does not finish"))
p("P23", "Concurrent statements are linearizable",
  "Concurrent clients observe results consistent with some sequential order of their statements.", ["schedules"], "all schedules", "tests run few schedules", [E+"idx/mtchm/mod.rs"], [("Tree", E+"idx/mtchm/mod.rs")],
  na="linearizability of the lock-free index and of parking_lot/crossbeam based locking needs a concurrent separation logic over epoch-reclaimed raw pointers; neither Verus (would need a rewrite on its tracked permission types, i.e. a model) nor Kani (sequential only) can take the code as it is")
p("P24", "No acknowledged change is lost in a crash",
  "After a crash at any point, a restart recovers every acknowledged schema change and every flushed row.", ["crash_points"], "all crash points", "no test crashes the server", [E+"storage/v2/raw/journal/raw/mod.rs"], [("journals", E+"storage/v2/raw/journal/raw/mod.rs")],
  na="row changes are acknowledged before they are flushed by design (delayed durability), and the crash behaviour of schema changes depends on the operating system's write ordering, which no contract over this code can express; the sequential replay part is P12")
p("P25", "Malformed statements are refused, not fatal",
  "Every well framed request, whatever tokens its statement consists of and whatever its parameters are, gets exactly one well formed response; no statement ends the connection or the server, and afterwards the same and other connections are served as before.", ["inputs"], "all token sequences", "the parser tests use well formed statements and a few mutations", [E+"ql/ast/mod.rs", E+"core/exec.rs", E+"net/mod.rs"], [("State", E+"ql/ast/mod.rs")], claim=("exploration", "a bounded stand-in: in-process server, generated and mutated statements", "no proof: the parser functions are not yet under contract"))
