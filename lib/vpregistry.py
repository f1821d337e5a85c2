"""What each check consists of."""
CHECKS = {}
def C(pid, **kw):
    kw.setdefault("level", "proof")
    kw.setdefault("assumptions", [])
    kw.setdefault("trusted", [])
    CHECKS[pid] = kw

VERUS_TCB = ["Verus 0.2026.09.13 and Z3 (soundness of the verifier)", "lib/vpverus.py + tools/vpx: mechanical extraction and the rewrites R0-R8 listed there",
             "64-bit target (size_of usize == 8)"]
KANI_TCB = ["Kani 0.68 / CBMC and its SAT solver", "rustc nightly used by Kani compiles the same source the stable build compiles"]
SCANNER_LEAVES = "raw-pointer leaves of the byte scanner (next_byte, next_chunk, next_chunk_variable) are assumed in the Verus units; Kani checks them in place for all buffers up to 24 bytes (bounded)"

C("P01", verus=["query"], trusted=VERUS_TCB + KANI_TCB, assumptions=[SCANNER_LEAVES,
  "the caller (Query I/O loop, exercised as the specification of `resume`) re-presents the same buffer extended by new bytes and the state/cursor returned before",
  "u8::is_ascii_digit and slice operations of core behave as specified (is_ascii_digit is discharged by Kani over all u8)"])
C("P02", verus=["handshake"], trusted=VERUS_TCB + KANI_TCB, assumptions=[SCANNER_LEAVES,
  "the derive macro sky_macros::EnumMethods produces MAX_DSCR / from_raw as declared (checked by Kani harness k_hs_derives)",
  "the connection loop re-presents the same buffer extended by new bytes, with the state and cursor returned before"])
LEXING = ["f64 parsing (core) is uninterpreted: a float parameter is what str::parse gives for its text", "str::from_utf8 and eq_ignore_ascii_case (core) are uninterpreted functions of their bytes", "an empty unsigned numeral reads as 0 (documented nowhere; both the contract and the code say so)",
  "Lexer::scan_ident: the pointer arithmetic that slices the word is rewritten to the slice between the two cursors"]
C("P04", verus=["params"], verus_only={"params": r"^(?!.*(scan_ident|scan_byte|trim_ahead))"}, trusted=VERUS_TCB + KANI_TCB, kani_timeout=300, native_ms=4000, assumptions=[SCANNER_LEAVES] + LEXING + ["the keyword and symbol tables are uninterpreted here; P05 decides them",
  "Lit constructors and accessors: discharged by Kani for scalars and every byte length up to 3"])
C("P05", verus=["params"], verus_only={"params": r"scan_ident|scan_byte|trim_ahead|Lexer::|_lex$|rounded_cursor|deref_cursor"}, kani_timeout=300, trusted=VERUS_TCB + KANI_TCB, assumptions=[SCANNER_LEAVES] + LEXING[1:2] + LEXING[3:] + [
  "words longer than 32 bytes: Keyword::get checks the length against the same constant whatever the content (bounded harness kbt_keyword_long, thorough tier, and native n_keyword_long)"],
  functions=["Symbol::get", "Keyword::get (all words up to 12 bytes, all 62 keywords in all letter cases)"])

NOLOCK = "parking_lot slow paths (contended locks) are replaced by a failing stub: sequential proofs never reach them"
C("P09", trusted=KANI_TCB + [NOLOCK], native_ms=3000,
  assumptions=["equality of byte cells is checked for up to 2 bytes (bounded kb_bytes_eq_*): slice equality of core is trusted beyond", "nested lists are covered by the bounded stand-in n_nested only"],
  functions=["Datacell::{new_bool,new_uint,new_sint,new_float,new_bin,new_str,new_qw,null,set_tag}", "Datacell::{try_*,read_*,into_uint,into_bin,into_str,tag,kind,is_null,is_init}", "PartialEq for Datacell",
             "From<Lit> for Datacell", "Lit::{new_*,as_ir,kind,__vdata}", "VirtualDatacell::{new,new_pk,deref}", "PrimaryIndexKey::new_from_dc", "word packing (DwordNN/DwordQN/TwordNNN, WordIO)"])

DML_TCB = ["rows (core/dml/{ins,upd,del,sel}.rs, Verus unit dml): the closure that runs with the model is taken as the function's body, without locks, epochs, latches and data versions: nothing here speaks about concurrent statements",
  "the reported delta is a ghost log of its kind; what the storage engine then does with it belongs to P11/P12/P15", "HashMap, vec::IntoIter and the iteration of the index hand out every element exactly once (P21); the ordered index keeps order (P20)",
  "a row is brought up to date by the pending schema deltas before it is read or changed: what that does is P18", "generic sinks of select are instantiated with the closures select_resp and select_all_resp pass (taken from the source on every run)"]
C("P03", verus=["numbuf", "dml"], verus_only={"dml": r"encode_cell|select_custom|select_resp|select_all|RowIteratorAll"}, trusted=VERUS_TCB + KANI_TCB + ["the accessors of a cell (decided under P09); core's Display of floats is injective (not NaN) and has no newline; Vec::extend (contracts in verus/resp.py)", "in-bounds ptr::copy_nonoverlapping / store / slice::from_raw_parts on one array behave as array operations (three one-line contracts in verus/numbuf.py; that every access is in bounds is proved)"], kani_timeout=240,
  assumptions=["in the Kani harnesses of 64 bit cells `Int::init` is replaced by an injective contract function: that the renderer writes the shortest decimal numeral is proved by the Verus unit for all values of all eight widths",
    "floats are rendered by core's Display (shortest round-trip decimal): trusted, sampled natively", "what the connection loop writes before the rows (response type and count) is the bounded stand-in n_responses"] + DML_TCB,
  functions=["<int as Int>::init (8 widths, Verus)", "encode_cell (every value)", "select_resp, select_custom, select_all_resp, select_all, RowIteratorAll (every model, table, field list and limit)"])
C("P06", verus=["dml"], verus_only={"dml": r"prepare_insert|column_count|^insert$|^Field::|^vt_|IntSpec::"}, trusted=KANI_TCB + VERUS_TCB + [NOLOCK], kani_timeout=300, native_ms=3000,
  assumptions=["whether a float is within the limits of its width is uninterpreted in the Verus unit (fl_in) and decided by the Kani harnesses", "a null cell carries the tag Bool (its only constructor is Datacell::null)", "the layers of a field are as a declaration makes them (P17)", "the table of checks VTFN: its entries are taken from the source on every run; an access to it is a match on the index"] + DML_TCB,
  functions=["Field::{vt_data_fpath,vt_list_element,rvt_data,compute_index}, VTFN, vt_*, UIntSpec::check, SIntSpec::check (every type, every value, lists of any depth)", "layer checks of all 14 types", "TagSelector / TagUnique of all types"])
C("P07", verus=["dml"], verus_only={"dml": r"^update$"}, trusted=KANI_TCB + VERUS_TCB + [NOLOCK], kani_timeout=300, native_ms=4000,
  assumptions=["float assignments: only finite operands; the result is required to be the IEEE result computed by the same operation and within the column's range", "byte string append: up to 3 bytes (bounded)",
    "in the Verus unit an operator is the uninterpreted function `opv` decided by the Kani harnesses of this property; the check of a value is the one proved for P06", "cells of a row are compared without the width of their type (an altered column may still carry the narrower tag)"] + DML_TCB,
  functions=["the assignment operators of core/dml/upd.rs (set, add, sub, mul, div on all integer widths, floats, bools, strings, binaries)"])
C("P08", verus=["dml"], verus_only={"dml": r"resolve_where|filter_hint_none|rhs$|clauses_mut|^insert$|^delete$|^update$|select_custom|select_resp"}, trusted=KANI_TCB + VERUS_TCB + [NOLOCK], kani_timeout=200, native_ms=4000,
  assumptions=["hash maps below the primary index (mtchm) are exercised by the bounded stand-in n_keys only", "byte keys: equal lengths up to the stated bound", "in the Verus unit the index is a map from keys (class and value): that keys are equal and hash alike exactly then is decided by the Kani harnesses"] + DML_TCB,
  functions=["PrimaryIndexKey::{try_from_dc,uint,sint,bin,str,check,clone,eq,hash,virtual_block}", "PartialEq<Lit> for PrimaryIndexKey", "Comparable for Lit / PrimaryIndexKey"])
ALTERS_TCB=["std BTreeMap: insert, and range from a key on in order; std HashMap and Vec iterators hand out every entry once", "the catalogue log commits an event or leaves the log as it was (P12)", "fewer than 2^64 schema changes happen to one model"]
C("P15", verus=["alters"], verus_only={"alters": r"update_global_state|resolve_|field_names_at|^Delta|^SchemaDelta|add_field|remove_field|update_field"}, kani=False, level="exploration", trusted=VERUS_TCB + ALTERS_TCB + ["the harness drives the engine in process (its journal files are kept by the engine's own test file system: cfg(test) routes the file layer there) and compares every model, field and row with a model kept by the harness"], native_ms=20000, native_ms_thorough=300000,
  assumptions=["the bounded stand-in decides the property as a whole: statement histories up to about 60 statements per case; what Verus proves for every history: names of the fields at every version, rows brought up to date, replay of an alteration giving the fields the alteration gave"], functions=["proved: DeltaState (schema part), Row::resolve_schema_deltas_and_freeze(_if), ModelData::field_names_at, ModelMutator::{add,remove,update}_field, replay of the three alterations"])
MODELS_TCB=["the std iterators used by the plan (vec::IntoIter, rev, zip), HashSet and HashMap::remove behave as specified in verus/models.py", "VInline behaves as a vector (P21), the ordered index as a map that keeps order (P20)", "selectors are ordered as declared (derived Ord)", "Layer::get_layer resolves names as Kani's k_names shows (P17)"]
C("P17", verus=["models"], verus_only={"models": r"parse_layers|process_create|new_with_private|Field::(is_nullable|layers)"}, trusted=KANI_TCB + VERUS_TCB + MODELS_TCB + [NOLOCK], kani_timeout=200, native_ms=4000,
  assumptions=["that a failed creation leaves nothing behind in the catalogue and on disk is the bounded stand-in n_create_model"],
  functions=["TagSelector / type name lookup (LUT, hash) for all names up to 14 bytes", "FieldSpec type tables"])
C("P18", verus=["alters"], verus_only={"alters": r"ldeltas|fdeltas|check_nullable|no_field|is_pk|not_pk|guard_pk|ModelData::fields|exec_alter|resolve_|_field$|field_(add|rem)|field_names_at|^Delta|^SchemaDelta|Txn::new|IDRef"}, trusted=KANI_TCB + VERUS_TCB + MODELS_TCB + ALTERS_TCB + [NOLOCK], kani_timeout=300, native_ms=4000,
  assumptions=["Layer::get_layer is replaced by its contract in the retype harnesses (the contract itself is discharged by k_names of P17)", "rows read after the alteration: proved for Row::resolve_schema_deltas_and_freeze, that SELECT uses it by the unit dml and the bounded stand-in n_alter_model", "quick tier: types of the same class, bool and list as targets; all 14 x 14 pairs in the thorough tier"],
  functions=["AlterPlan::ldeltas / Layer comparison for every pair of types"])

C("P10", trusted=KANI_TCB, kani_timeout=200, native_ms=3000,
  assumptions=["the thread local error context (only used for messages) is replaced by \"no context\"", "the file layer that hands the 64 bytes over is exercised by the bounded stand-in n_files only",
    "the server version id is taken from the code: versions::server_version::fetch_id yields 0 for the current tag (see DESIGN.md)"],
  functions=["HeaderV1::{decode,_encode_auto_raw,_new_auto} (all 64 byte blocks / all field values)", "SimpleFileSpecV1::{validate_metadata,check_if_file_specifier_revision_is_compatible} for both file kinds", "EnumMethods/TaggedEnum of the descriptors"])
C("P11", trusted=KANI_TCB + ["crate crc computes CRC-64/XZ (compared with a bitwise definition: one byte in Kani, up to 40 bytes natively)"], kani_timeout=200, native_ms=3000,
  assumptions=["the checksum is an uninterpreted function in the proofs: they hold for every function of the covered bytes"],
  functions=["DriverEvent::{encode,decode,with_checksum} (all 64 byte blocks / all field values)"])

CELLS_TCB=["u64::to_le_bytes / from_le_bytes are inverse bijections with eight bytes; Vec::extend appends; String::from_utf8 accepts exactly the valid encodings and keeps the bytes", "the accessors of Datacell give what the constructors were given (P09)"]
UTF8="String::from_utf8 is taken to accept in the proofs that decode strings (its error path returns an error at once)"
C("P13", verus=["cells"], verus_only={"cells": r"encode|read_back|expect_atleast|into_selector"}, trusted=KANI_TCB + VERUS_TCB + CELLS_TCB, kani_timeout=200, native_ms=2500,
  assumptions=[UTF8, "the thread local error context (only used for messages) is replaced by \"no context\"", "values (scalars, bytes, strings, lists of any depth): proved for every value by the unit cells; bounded: fields of one and two layers, user events with a 3 byte ASCII name; dictionaries, models, spaces and DDL events by the bounded stand-ins n_*"],
  functions=["r1::obj::cell::{encode,encode_tag,encode_cell,decode_element,StorageCellTypeID}", "LayerRef and FieldRef PersistObject impls", "CreateUserTxn, AlterUserTxn, DropUserTxn PersistObject impls"])
C("P14", verus=["cells"], verus_only={"cells": r"decode|expect_atleast|into_selector|error|yield"}, trusted=KANI_TCB + VERUS_TCB + CELLS_TCB, kani_timeout=200, native_ms=2500,
  assumptions=[UTF8, "the thread local error context (only used for messages) is replaced by \"no context\"", "values (scalars, bytes, strings, lists of any depth): proved for every sequence of bytes by the unit cells, over the contract of the byte scanner (proved by Kani for BufferedScanner); bounded: fields in up to 50 bytes, user events in up to 27 bytes; dictionaries, models, spaces and DDL events by the bounded stand-ins n_bad_*"],
  functions=["r1::obj::cell::decode_element for every type byte", "LayerRef and FieldRef PersistObject impls", "CreateUserTxn, AlterUserTxn, DropUserTxn PersistObject impls", "dec::utils::decode_string", "DataSource for BufferedScanner"])

C("P16", verus=["users"], trusted=VERUS_TCB + ["rcrypt (bcrypt): hash returns a hash that accepts the password, verify says whether it does", "std HashMap and string comparison as specified in verus/users.py"], kani=False, native_ms=16000,
  assumptions=["the lock around the user map is dropped by the extraction: each method holds the write lock from its first access to its end", "the journal commits an event or leaves the log as it was (P12)",
    "the login in the connection loop (async) and the permission gate of the executor are covered by the bounded stand-in n_users, over the wire", "which password bcrypt accepts for a hash is not modelled; see the known finding"])
JOURNAL_TCB=["the file: no longer than 2^63 bytes, changed by nobody else, a write appends a prefix of what it is given at the end or fails, a read gives the bytes at the cursor (std::fs, the operating system)",
    "to_le_bytes / from_le_bytes are inverse bijections; the CRC is a function of the bytes fed to it (crate crc)", "FixedVec behaves as a vector of bounded length (P21); DriverEvent::{encode,decode,with_checksum} as Kani shows (P11)",
    "law of an adapter's codec: what a successful write of an event appends decodes to that event, and decoding looks at nothing beyond it (proved for the framing of the event logs; assumed for the body of a batch and the payloads, see P13)"]
C("P12", verus=["journal"], trusted=KANI_TCB + VERUS_TCB + JOURNAL_TCB + ["real files on a memory file system; short and failing writes are produced with a file size limit of the process"], native_ms=6000, kani_timeout=120,
  assumptions=["collisions of the checksum are not excluded: damage that keeps the checksum is not detected", "fsync failures are not produced natively", "decoding of batches (BatchAdapter::decode_apply, write_direct) is covered by the bounded stand-in: histories of up to 10 steps with events of up to 25 KB; damaged files: bit flips, byte changes, cuts, insertions, duplications"],
  functions=["RawJournalWriter::{new,commit_with_ctx,_commit_driver_event,close_driver,reopen_driver,txn_context,__lwt_heartbeat}", "RawJournalReader::{new,scroll,_apply_next_event_and_stop,handle_close,handle_reopen,__refresh_known_txn}", "create_journal, open_journal, JournalInitializer", "EventLogAdapter::{commit_direct,decode_apply}, BatchAdapter::commit_direct", "TrackedWriter, TrackedReader, FileWrite::fwrite_all_count", "BatchAdapter::decode_apply (bounded)"])
C("P25", kani=False, trusted=["the tokio runtime and an in-memory duplex stream in place of a socket", "rustc debug build"], level="exploration", native_ms=20000,
  assumptions=["bounded: mutations of statements from a corpus of every statement form, with up to 40 edits, and nesting up to 20000 levels", "stack budget: a debug build on a thread of the test runner (2 MB)"],
  functions=["ql::ast::compile and exec::dispatch_to_executor through the connection loop (bounded)"])
C("P19", verus=["props"], kani=False, trusted=VERUS_TCB + ["std HashMap as specified in verus/props.py (its view is the tree it holds; it hands out every entry exactly once, in any order)"], native_ms=10000,
  assumptions=["rflatten_metadata (HashMap::retain with a recursive closure) is assumed to remove exactly the nulls; bounded stand-in n_*", "the lock around the map of spaces is dropped by the extraction: each statement holds the write lock from its first access to its end",
    "the journal commits an event or leaves the log as it was (P12); the event read back is the event written (P13)", "transactional_exec_drop, and a restart as a whole, by the bounded stand-ins: dictionaries up to 4 levels of up to 3 keys each, histories of up to 8 statements with restarts"],
  functions=["core::space::Space::transactional_exec_drop (bounded)"])
C("P20", trusted=KANI_TCB + ["std HashMap"], level="model_checking", native_ms=8000, kani_timeout=200,
  assumptions=["bounded: Kani covers the pointer code (nodes, owned iterators, recycling) for every list of up to 3 nodes; the whole index natively, histories of up to 24 operations"])
C("P21", trusted=KANI_TCB, level="model_checking", native_ms=6000, kani_timeout=200,
  assumptions=["bounded: Kani covers every state of an array of capacity 3 and of an inline vector of inline capacity 2 with up to 4 elements (on the stack and on the heap), and every operation on it; natively, histories of up to 20 operations on capacities 2, 4 and 8"])
C("P22", kani=False, trusted=["serde_yaml", "the in-memory command line, environment and file store of the test build in place of the process's own; certificate files are real files in a scratch directory", "rustc debug build"], level="exploration", native_ms=6000,
  assumptions=["bounded: generated sets of settings, valid and with mistakes, in every way of writing them; arbitrary arguments and file contents for the absence of panics", "unknown keys in a configuration file are not generated (the server ignores them)", "a value in the environment is a list separated by commas, so a value with a comma in it counts as several values"],
  functions=["config::check_configuration, parse_cli_args, parse_env_args, parse_endpoint, apply_config_changes, validate_configuration (bounded)"])
