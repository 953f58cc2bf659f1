#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. One dict per property; run after editing."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if hook: a["hook_needed"] = hook
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

CONN = "src/connection/"
NOTEST = "The repository has no test that talks to a server at all: its 7 unit tests cover value text formatting, hex and query text."

prop("C01", "Every command is answered by its own response",
 "On a healthy connection, for every sequence of queries, statement preparations, statement executions and result-set reads - each result set read fully, in part, or dropped unread, and whatever number of result sets the server returns for one command - each command's outcome (rows in order, OK counters, server error) is the one the server produced for that command. No row, terminator or error of one command is delivered to another, and none is lost, reordered or duplicated. Closing the connection at any such point succeeds, and the server receives exactly the quit command.",
 ["histories", "configurations"], "all operation sequences up to the depth bound over the public API, with and without DEPRECATE_EOF, over responses of every kind (OK, ERR, 0..n rows, several result sets)",
 NOTEST + " Misattribution needs a history: a partially read result, then another command.",
 [CONN+"query.rs", CONN+"result_set.rs", CONN+"prepared_statement.rs", CONN+"io.rs"],
 [("pending results are drained before the next command", CONN+"io.rs write_command, "+CONN+"query.rs execute_command, "+CONN+"result_set.rs cleanup"), ("end-of-result detection", CONN+"result_set.rs next")],
 ["return values of Connection/ResultSet/PreparedStatement methods", "bytes the server receives"],
 [("pending_result", "a result set has not been read to its end", CONN+"mod.rs Connection")])

prop("C02", "How the transport segments I/O is unobservable",
 "However the transport splits, delays or partially accepts bytes (short reads, short writes, pending polls in between, data that reaches the peer only on flush), every operation returns what it returns over an ideal transport and sends the same bytes.",
 ["schedules", "inputs"], "every single split/pending point and every pair of split points of whole connection sessions, one-byte-at-a-time transport, buffering transport",
 NOTEST + " A test would sample a few segmentations of one session.",
 [CONN+"io.rs", CONN+"timeout.rs"], [("read_exact/write_all loops", CONN+"io.rs read_chunk_to_buf, write_packet"), ("timeout wrapper re-polls the same future", CONN+"timeout.rs")],
 ["operation results", "bytes written to the stream"])

prop("C03", "An interrupted operation never leaks its data into a later one",
 "If an operation ends early - its future is dropped, it times out, the transport fails, or the server's answer cannot be decoded - then every later operation on that connection either fails or returns exactly the server's response to that later operation. Data of the interrupted exchange is never returned as a result of a later call, and a half-written command is never continued by the bytes of the next one.",
 ["crash_points", "fault_sequences", "histories"], "an interruption of each kind at every byte offset of the server's and the client's stream of each session, followed by further operations",
 NOTEST + " It quantifies over every byte position at which an exchange can be cut.",
 [CONN+"io.rs", CONN+"query.rs", CONN+"result_set.rs", CONN+"prepared_statement.rs"],
 [("connection refuses commands while an exchange is incomplete", CONN+"io.rs start of a command"), ("sequence id check", CONN+"io.rs read_packet_to_buf")],
 ["results of operations issued after the interruption", "bytes the server receives"],
 [("pending_result / in-flight marker", "what is still owed by the server", CONN+"mod.rs Connection")])

prop("C04", "A silent peer times the operation out, a slow one does not",
 "Once the stream is established, whenever the peer stops sending or stops accepting bytes while an operation waits for it, that operation fails with an I/O error of kind TimedOut once the configured timeout has passed since it began waiting - never earlier and never by hanging - during connect as well as in later commands. A peer that delivers (or accepts) each packet header and each packet body within the configured timeout of the moment the operation began to wait for it causes no failure, however long that takes in total. Without the `time` feature the same holds using the user-supplied sleep function.",
 ["fault_sequences", "crash_points", "configurations"], "a stall (and a shorter pause) at every byte offset of either direction, and of flushes, for several timeout settings, with the built-in and a custom sleep",
 NOTEST + " Each position is a different await point.",
 [CONN+"timeout.rs", CONN+"io.rs", CONN+"init.rs", CONN+"options.rs"], [("Timeout future races every read and write", CONN+"timeout.rs, "+CONN+"io.rs")],
 ["virtual time at which the operation returns", "error kind"])

prop("C05", "Packet framing is exact for payloads of every size",
 "A message of any length sent by the client arrives at the server as that same message, and a message of any length sent by the server is received as that same message, including lengths at and around multiples of 16,777,215 bytes: every packet but the last is maximal, an exact multiple is closed by an empty packet, and sequence ids start at 0 for each command, continue through the response and wrap after 255. Parameters too large for one packet reach the server complete and in order.",
 ["inputs"], "boundary lengths around every multiple of the maximal payload size up to the bound, both directions, and responses of more than 256 packets",
 NOTEST + " No test sends a packet, let alone one over 16 MiB or the 257th of a response.",
 [CONN+"io.rs", CONN+"packets/stmt_send_long_data.rs", CONN+"packets/stmt_execute_request.rs"], [("chunking and the trailing empty packet", CONN+"io.rs write_packet/read_chunk_to_buf"), ("sequence id wrap", CONN+"io.rs wrapping_add")],
 ["messages as reassembled by an independent decoder", "rows returned"])

prop("C06", "Packets with a wrong sequence id are never accepted",
 "If a packet of a server response carries a sequence id other than the expected one, the operation reading it fails with a protocol error and neither that packet's content nor anything after it is returned as data.",
 ["inputs", "fault_sequences"], "every packet of every session kind, every one of the 255 wrong sequence ids",
 NOTEST, [CONN+"io.rs"], [("sequence id comparison", CONN+"io.rs read_packet_to_buf")], ["operation results"])

prop("C07", "Server errors are reported verbatim and leave the connection usable",
 "Whenever the server sends an error packet - in place of its greeting, at any step of authentication, in reply to a query, prepare or execute, in place of or between rows, or while an unread result is being drained for its reader - the operation that was waiting returns a server error with that exact code, SQL state and message. It is never returned as a row, as success, or swallowed; rows sent before it are delivered, and afterwards the next command on the connection works normally.",
 ["fault_sequences", "inputs"], "an error packet substituted at every protocol position of every session kind, over codes, states and messages of all shapes",
 NOTEST, [CONN+"packets/err.rs", CONN+"result_set.rs", CONN+"auth.rs", CONN+"init.rs", CONN+"query.rs", CONN+"prepared_statement.rs"],
 [("error packet parsing", CONN+"packets/err.rs"), ("first-byte dispatch", CONN+"result_set.rs, "+CONN+"auth.rs, "+CONN+"io.rs decode_response")],
 ["returned Error::Server", "later operations"])

prop("C08", "No server can extract the password from an insecure connection",
 "Over a stream not marked SECURE (the crate's TCP stream is not) and with allow_cleartext_password off, no sequence of server packets makes the client send the password in any form other than the plugin's hash scramble for the server's nonce or RSA-OAEP encryption under the server's (or configured) public key. The cleartext plugin is answered only when allowed, and when a plugin is configured the client never answers with any other.",
 ["inputs", "configurations", "histories"], "all sequences of authentication packets an adversarial server can send up to the depth bound, for every configuration of plugin, secure flag, cleartext permission, cached key and password",
 NOTEST + " The adversary's choices form a tree no example covers.",
 [CONN+"auth.rs", CONN+"types/auth_plugin.rs", CONN+"init.rs"], [("InsecureAuth and AuthPluginMismatch checks", CONN+"types/auth_plugin.rs gen_data"), ("SECURE gate on full authentication", CONN+"auth.rs continue_caching_sha2_password_auth")],
 ["every byte the client writes"])

prop("C09", "Authentication succeeds exactly when the server accepts the credentials",
 "connect returns a connection only if the server's final verdict is OK, and returns the server's error otherwise. For every supported plugin, with or without a plugin switch, fast or full authentication, cached or fetched public key, and every password, the proof sent verifies against the configured password; user name, database and plugin reach the server as configured, and the character set of the session is the widest UTF-8 that the announced version of the server knows (utf8mb4 since 5.5.3). The login claims no capability that the server does not offer, nor one that changes what a command means (several statements in a query, found instead of affected rows, compression). A configured plugin is used whatever plugin the server announces; without one, a plugin that the client does not know (or was built without) is refused.",
 ["configurations", "inputs", "histories"], "all combinations of plugin configuration, server plugin, switch, cache state, secure flag, server key, and a password alphabet, against a reference server that verifies the proof",
 NOTEST, [CONN+"auth.rs", CONN+"init.rs", CONN+"packets/handshake_response.rs", CONN+"packets/handshake.rs", CONN+"packets/auth_switch_request.rs", "src/utils/scramble.rs"],
 [("scrambles", "src/utils/scramble.rs"), ("authentication state machine", CONN+"auth.rs"), ("handshake response layout", CONN+"packets/handshake_response.rs")],
 ["result of Connection::connect", "handshake response and later packets as parsed by the reference server"])

prop("C10", "RSA encryption and key parsing are interoperable and total",
 "For every RSA public key, whatever its modulus length, and every message short enough, encryption yields exactly modulus-length octets that a standard OAEP (SHA-1) decryption maps back to the message; a longer message is refused with an error. Every well-formed PKCS#1 or PKCS#8 PEM public key parses to its modulus and exponent, and any other input yields an error or the very key it encodes, never a panic or a different key.",
 ["inputs"], "all modulus bit lengths in the range, all message lengths around the limits, every truncation and every single-byte mutation of PEM/DER encodings",
 "No test encrypts or parses a key; failures depend on the modulus length modulo 8 and on rare leading zeros.",
 ["src/utils/crypt.rs"], [("OAEP padding and MGF1", "src/utils/crypt.rs OaepPadding"), ("DER reader", "src/utils/crypt.rs der")], ["PublicKey::encrypt_padded, try_from_pem, try_from_pkcs1, try_from_pkcs8"])

prop("C11", "Statement parameters reach the server unchanged",
 "For every list of values bound to a prepared statement, the server decodes, under the MySQL binary protocol, exactly the same list: same count, order, NULLs, types, signedness and contents, whether the values are sent inline or as long data. A list whose length differs from the statement's parameter count is refused with an error and sends no execute command.",
 ["inputs"], "all values of a boundary alphabet at every position, all NULL patterns up to the bound on the parameter count (bitmap boundaries), all pairs, inline and long-data encodings",
 "No test encodes a parameter; failures sit at type boundaries, zero components and NULL-bitmap byte boundaries.",
 [CONN+"packets/stmt_execute_request.rs", CONN+"types/null_bitmap.rs", "src/types/value/bin.rs", CONN+"prepared_statement.rs", CONN+"io.rs"],
 [("NULL bitmap", CONN+"types/null_bitmap.rs"), ("value encoding", "src/types/value/bin.rs Serialize"), ("long data", CONN+"io.rs send_long_data")], ["execute request decoded by an independent binary-protocol decoder"])

prop("C12", "Binary result rows decode to the values the server sent",
 "For every prepared-statement result set, each returned row holds exactly the values the server encoded: NULL where and only where the server marked NULL, integers with the column's width and signedness, floats bit for bit, dates, times and datetimes in every permitted length, and strings and blobs of every length byte for byte.",
 ["inputs"], "all column types and flags, boundary values, all NULL patterns up to the bound on the column count, all permitted temporal lengths, all length-encoding boundaries",
 "No test decodes a binary row.",
 [CONN+"types/protocol.rs", CONN+"types/null_bitmap.rs", "src/types/value/bin.rs", CONN+"parse_buf.rs"], [("row decoding", CONN+"types/protocol.rs BinaryProtocol"), ("value decoding", "src/types/value/bin.rs deserialize_bin")], ["rows returned by PreparedStatement::query"])

prop("C13", "Text result rows decode to the values the server sent",
 "For every text-protocol result set, each returned row holds exactly the values the server wrote as text, typed by the column definition: NULL only for NULL, integers of the column's width and signedness over their whole range, floats to the nearest representable value, temporal values with every permitted sign, hour range and fraction, and strings and blobs byte for byte. The same stored value read through the text and the binary protocol decodes to equal values.",
 ["inputs"], "all column types and flags, boundary values, all fraction lengths, all length-encoding boundaries, all NULL patterns up to the bound",
 "The `parse` test checks five temporal strings.",
 [CONN+"types/protocol.rs", "src/types/value/text.rs", CONN+"parse_buf.rs"], [("row decoding", CONN+"types/protocol.rs TextProtocol"), ("value parsing", "src/types/value/text.rs deserialize_text")], ["rows returned by Connection::query"])

prop("C14", "Conversions between Rust types and values are faithful",
 "Converting a supported Rust value (durations: up to 2^32 days) into a database value and back yields the same value (temporal values at microsecond resolution), and None maps to NULL and back. Converting a database value of another type, or one outside the Rust type's range, yields an error, never a changed value or a panic (only a date may also be taken from a datetime, and a bool from any integer). Hex text, display and serde forms round-trip, and malformed hex is an error.",
 ["inputs"], "boundary alphabets of every supported Rust type crossed with every value variant; all short hex strings",
 "One test round-trips one hex string.",
 ["src/types/value/conversion.rs", "src/types/hex.rs"], [("From/TryInto implementations", "src/types/value/conversion.rs"), ("Hex", "src/types/hex.rs")], ["From/TryFrom/TryInto results, Hex methods and serde output"])

prop("C15", "Escaped SQL text denotes exactly the original value",
 "For every string, the escaped string literal read by MySQL's lexical rules is one single literal denoting that string; a quoted identifier is one single identifier denoting the string less trailing whitespace and characters MySQL does not allow; an unquoted-escaped identifier contains only permitted characters, in order. The display form of every value is one valid literal denoting that value.",
 ["inputs"], "all strings up to the length bound over an alphabet containing every character class, every single Unicode scalar value, and all boundary values of every variant",
 "The tests check a dozen strings; one asserts the wrong escape for U+001A.",
 ["src/types/value/text.rs"], [("write_escaped_chars", "src/types/value/text.rs"), ("IdentifierEscape", "src/types/value/text.rs"), ("Display for Value", "src/types/value/text.rs")], ["Display output parsed by a reference MySQL lexer"])

prop("C16", "Reported metadata is what the server sent",
 "Connection id, server version, MariaDB flag, capabilities and max_allowed_packet reported for a connection, the names, tables, types and flags reported for each result column, and the affected rows, last insert id, status, warnings and message of each OK or end-of-result packet equal what the server sent, for names and numbers of every length the protocol allows.",
 ["inputs", "configurations"], "all field values of boundary alphabets, every length-encoding boundary, every column type and flag bit, both end-of-result layouts, version strings of all shapes",
 NOTEST, [CONN+"packets/handshake.rs", CONN+"packets/column_def.rs", CONN+"packets/ok.rs", CONN+"types/column.rs", CONN+"init.rs", CONN+"query.rs"],
 [("packet parsers", CONN+"packets/"), ("read_settings", CONN+"query.rs")], ["ConnectionData, Column and OkPacket accessors"])

prop("C17", "Rows map to model fields by name, never by position or to a wrong field",
 "The derive macros accept every struct of the supported shapes and expand to code that compiles. For a derived model, whatever the order of result columns and whatever extra columns of other names are present, every field receives exactly the column that the model's own generated query selects for it, including nested models to any depth, fields of inlined structs, names that are prefixes of one another or equal a table name. If a needed column is missing, or its value does not fit the field, reading the row fails with an error; two fields never receive each other's values.",
 ["inputs", "programs"], "a family of derived models (flat, inlined structs, nested, name collisions, raw identifiers) crossed with all column permutations, omissions and extra columns up to the bound",
 "The only model test compares two generated query strings; no row is ever mapped.",
 ["macros/src/lib.rs", "macros/src/parse.rs", "src/model/from_query_result.rs", "src/model/into_query.rs", "src/model/plain.rs"],
 [("generated set_mapping_inner", "macros/src/lib.rs derive_from_query_result"), ("namespaces by table alias", "src/model/into_query.rs join")], ["models returned by query on rows a reference engine produced for the generated SQL"])

prop("C18", "Model inserts and updates write exactly the set fields",
 "Inserting an active model sends one insert for its table naming exactly the set fields, each bound to its value, and returns the insert id; referenced models are inserted first and the reference is bound to their given or generated key. Updating sends an update of exactly the set fields for the row with that primary key, and nothing if no field is set; unset fields are never written.",
 ["inputs", "programs", "histories"], "all subsets of set/unset fields (and reference states) of a family of derived models, against a reference table engine",
 "No test builds an insert or an update.",
 ["src/model/active_model/mod.rs", "src/model/active_model/named_value.rs", "src/model/active_model/update_model.rs", "src/model/active_model/active_reference.rs", "macros/src/lib.rs"],
 [("statement text and parameter order", "src/model/active_model/named_value.rs"), ("generated into_values", "macros/src/lib.rs derive_active_model")], ["statements and parameters received by the reference server, returned id"])

SH = "cfg(mysql_connector_mc): std::sync and crossbeam queues of the crate resolve to a scheduler-controlled shim"
prop("C19", "A pooled item is never shared and the pool never exceeds its size",
 "At no point of any interleaving of getters, returns and cancellations is one item held by two borrowers, are more than N items held, idle or being created, or is an item lost or duplicated.",
 ["schedules"], "all interleavings of 2-3 threads doing get/return/cancel on pools of size 1 and 2, up to the preemption bound",
 "No test uses the pool, and only particular interleavings would show a violation.",
 ["src/pool/async_pool.rs", "src/pool/pool_item.rs"], [("slot counter and idle queue", "src/pool/async_pool.rs poll, put")], ["items held by each thread, live and created item counts"],
 [("items", "number of slots in use", "src/pool/async_pool.rs AsyncPool")], SH)

prop("C20", "A waiting pool getter always gets its turn",
 "In every interleaving, if items are eventually returned and creations eventually finish, every get that is still being awaited completes: no wake-up is lost, even when other waiters are cancelled or change their waker.",
 ["schedules"], "all interleavings of 2-3 threads doing get/return/cancel/re-poll on pools of size 1 and 2, up to the preemption bound; a deadlock is a violation",
 "No test uses the pool; a lost wake-up needs a particular interleaving or a cancelled waiter.",
 ["src/pool/async_pool.rs"], [("waker queue", "src/pool/async_pool.rs poll, put")], ["completion of every awaited get under a scheduler that only polls woken tasks"],
 [("wakers", "tasks to wake when an item comes back", "src/pool/async_pool.rs AsyncPool")], SH)

prop("C21", "The pool keeps its full capacity and hands out only usable items",
 "A creation that fails or is cancelled, at any point and in any interleaving, gives its slot back, so N items can still be obtained afterwards, and its error goes to exactly the getter that ran it. A connection left unusable by a failed exchange is not handed out again: the pool replaces it.",
 ["schedules", "fault_sequences"], "all interleavings with failing and cancelled creations up to the preemption bound; all fault positions for a connection returned to a pool",
 "No test uses the pool or fails a creation.",
 ["src/pool/async_pool.rs", "src/pool/mod.rs", CONN+"mod.rs"], [("slot release", "src/pool/async_pool.rs"), ("content usability check on return", "src/pool/mod.rs AsyncPoolContent")], ["number of simultaneously obtainable items after the history", "operations on connections got from the pool after a fault"],
 [("items", "number of slots in use", "src/pool/async_pool.rs AsyncPool")], SH)

prop("C22", "Buffers from the synchronous pool are exclusive and clean",
 "In every interleaving of gets and returns an item taken from the synchronous pool belongs to one borrower only and arrives reset: an empty buffer whatever its previous borrower left in it (which is dropped once), with its retained capacity bounded by the configured cap. Get never blocks or fails, and items beyond the pool's size are dropped exactly once.",
 ["schedules", "histories"], "all interleavings of 2-3 threads doing get/fill/return up to the preemption bound and all sequential histories up to the depth bound",
 "No test uses the pool.",
 ["src/pool/sync_pool.rs", "src/pool/pool_item.rs"], [("reset on return", "src/pool/sync_pool.rs put, Vec::reset")], ["contents, capacity and identity of borrowed items"], None, SH)

prop("C23", "Migrations run in order, exactly once, and reach the requested version",
 "From every set of already applied migrations, up and up_to_version run exactly the not-yet-applied migrations of the selected versions in ascending order, down_to_version reverts exactly the applied ones above the given version in descending order, one_down reverts the last applied one, and to_version does both. Afterwards the recorded migrations are exactly those applied, and creating another migrator sees the same state. A record that is no migration of the list is never taken for one: creating the migrator is refused and nothing changes.",
 ["histories", "inputs"], "all applied subsets of migration lists up to the size bound, all sequences of migrator calls up to the depth bound, all target versions",
 "No test runs a migrator.",
 ["src/migrator/migrator_inner.rs", "src/migrator/migration.rs", "src/migrator/model.rs"], [("applied map and list traversal", "src/migrator/migrator_inner.rs")], ["up/down calls made on the migrations", "rows of the migrations table in a reference database"],
 [("applied", "what the migrator believes is applied", "src/migrator/migrator_inner.rs Migrator")])

prop("C24", "A migrator never loses track of what it applied, whatever fails",
 "If a migration, a connection or a bookkeeping statement fails or the call is abandoned at any point, then a migration is recorded as applied only if its up step completed, a call that returns Ok leaves exactly the target set applied and recorded, and no failure is reported as success. Retrying on the same migrator (or on a new one) once faults stop leaves the same records as a run without faults.",
 ["crash_points", "fault_sequences", "histories"], "a failure or abandonment at every step (each pool get, each statement, each up/down) of every call sequence up to the bound, followed by retries on the same and on a new migrator",
 "No test runs a migrator, with or without faults.",
 ["src/migrator/migrator_inner.rs"], [("order of bookkeeping and in-memory updates", "src/migrator/migrator_inner.rs up_to_version, down_to_version, one_down")], ["migrations table, calls made, results"],
 [("applied", "what the migrator believes is applied", "src/migrator/migrator_inner.rs Migrator")])

prop("C25", "No server input can crash, hang or exhaust the client",
 "Whatever bytes the server sends - truncated, mutated, empty or oversized packets, unknown plugins, types or flags, hostile lengths and counts, at any point of the session - every operation returns a value or an error: it never panics, loops forever, waits beyond the timeout, or allocates memory out of proportion to the data received.",
 ["inputs", "fault_sequences"], "for every packet of every session kind: every truncation, every single-byte substitution by every value, every hostile length field, and every replacement by packets of another kind",
 NOTEST + " Each byte position is its own potential panic site.",
 [CONN+"parse_buf.rs", CONN+"packets/", CONN+"auth.rs", CONN+"init.rs", CONN+"result_set.rs", CONN+"types/protocol.rs", "src/types/value/bin.rs", "src/types/value/text.rs", "src/utils/crypt.rs"],
 [("checked_eat parsers", CONN+"parse_buf.rs"), ("error enums", "src/error/")], ["panics, allocation peaks, virtual time and loop bound of every operation"])

prop("C26", "The TCP stream reaches the configured server and is a stream like any other",
 "With the crate's own TcpStream, for every host, port and no-delay option, a connection or a pool reaches the server that listens at exactly that host and port, with no-delay as requested, however many connections with other options exist; the default is localhost, port 3306; if nothing listens there, connecting fails. Conversations over it, with packets of any size and however the bytes are split into segments, have the results the server sent. Wherever the other side ends or resets the connection, what was returned before is right, everything after is an error, and a pool replaces the connection.",
 ["inputs", "configurations", "crash_points"], "all combinations of hosts, ports (one closed) and no-delay for several connections at once; all conversations of the alphabet, ways to log in and segmentations; an end or reset of the connection after every number of bytes",
 "No test opens a connection.",
 [CONN+"mod.rs", CONN+"io.rs", CONN+"init.rs", "src/pool/async_pool.rs"], [("TcpStream as Stream", CONN+"mod.rs"), ("is_usable", CONN+"mod.rs AsyncPoolContent")],
 ["addresses and options of real sockets on the loopback interface, greetings and answers of several servers"])

prop("C27", "Prepared statements do not accumulate on the server",
 "However many statements a connection prepares, and whatever happens to them (not executed, executed often, refused, results read in part or not at all, operations dropped midway), the server never has more than the statement in use and one before it open: all others were closed, and a statement in use never is. Inserting and updating models behaves the same.",
 ["histories", "inputs", "crash_points"], "all histories of the alphabet of operations up to the bound, all cycles of operations repeated, all points at which an operation can be dropped, all sequences of model operations",
 "No test prepares a statement; statements that stay open only matter after many thousand operations.",
 [CONN+"prepared_statement.rs", CONN+"packets/stmt_close.rs", CONN+"mod.rs"], [("closing of the previous statement", CONN+"prepared_statement.rs close_statement")],
 ["COM_STMT_PREPARE and COM_STMT_CLOSE as received by the reference server"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
