#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the statements stay readable in review)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": observe, "hook_needed": None,
                    **({"state": state} if state else {})}})
NO = "The 7 existing tests only format a few literals and check one generated SELECT; nothing in the repository talks to a stream. "
C = "src/connection/"
p("C01", "Every command leaves as exactly framed packets carrying its bytes",
  "Everything the client sends for a command is a sequence of MySQL packets: a 3-byte little-endian payload length, a sequence number that starts at 0 for each command and grows by one (mod 256) per packet, then exactly that many payload bytes. The payloads concatenated are the command byte followed by the caller's text, payloads of 2^24-1 bytes or more are split into full packets closed by one shorter (possibly empty) packet. It is flushed to the stream before an answer is awaited or the call ends. This holds however the stream accepts the writes (short writes, pending).",
  ["inputs", "schedules"], "all command texts, all payload lengths, all splits of the stream's accepted writes",
  NO + "Lengths around the 16 MiB split and write fragmentations are a quantifier no handful of cases covers.",
  [C+"io.rs", C+"query.rs", C+"prepared_statement.rs"],
  [("write_packet splits and numbers packets", C+"io.rs"), ("execute_command prefixes the command byte and resets the sequence number", C+"query.rs")],
  ["bytes written to the Stream by query/execute_query/prepare_statement/disconnect"])
p("C02", "Incoming packets are reassembled and sequence-checked under any read split",
  "A response means the same whatever the sizes of the reads the stream returns, including pending reads in between. A payload that spans several full-size packets is delivered as their concatenation. A packet whose sequence number is not the expected one, or a stream that ends inside a packet, makes the call return an error and its content is never delivered as a result.",
  ["inputs", "schedules", "fault_sequences"], "all response bytes, all read splits, all sequence numbers, all truncation points",
  NO + "Read schedules, sequence numbers and truncation points are unbounded.",
  [C+"io.rs"], [("read_chunk_to_buf / read_packet_to_buf", C+"io.rs")],
  ["result of execute_query / query against a scripted Stream"])
p("C03", "Each call returns the server's answer to its own command, in any history",
  "In every history of queries, executes, prepares, and result sets that are read fully, partly or not at all (dropped), failed or successful, each call returns the response the server gave to that call's command and never a leftover of an earlier one; unread rows of an earlier result are skipped before the next command is sent. After a server error the connection stays usable and correctly paired.",
  ["histories", "inputs"], "all histories of commands, result set consumption choices and server answers (one result per command)",
  NO + "Pairing is a property of histories: abandoned result sets, errors inside results, an execute that returns rows.",
  [C+"result_set.rs", C+"query.rs", C+"prepared_statement.rs", C+"io.rs"],
  [("pending_result flag and cleanup() before each command", C+"result_set.rs"), ("sequence number reset per command", C+"query.rs")],
  ["values returned by the public API against a server that tags each answer with its command"],
  [{"name": "Connection::pending_result", "meaning": "an unfinished result set is still on the wire", "where": C+"mod.rs"}])
p("C04", "The password is never sent in clear without permission",
  "Unless cleartext passwords were explicitly allowed in the options or the stream type is declared secure, no byte string the client writes in any authentication exchange contains the password in clear or any other function of it than the scrambles and the RSA encryption; a switch to a cleartext plugin is refused with an error. When the options force an authentication plugin, data for another plugin is never produced and a switch away from it fails.",
  ["inputs", "histories", "configurations"], "all passwords, all server messages during authentication, all option combinations",
  NO + "It quantifies over hostile server messages and options, which no test exercises.",
  [C+"auth.rs", C+"types/auth_plugin.rs", C+"init.rs"],
  [("gen_data checks allow_cleartext_password and the forced plugin", C+"types/auth_plugin.rs"), ("T::SECURE gate", C+"auth.rs")],
  ["bytes written to the Stream during connect"])
p("C05", "connect succeeds exactly when the server accepted the login",
  "connect returns a usable connection only if the last authentication message of the server was an OK packet; if the server answers with an ERR packet at any stage (instead of the greeting, after the response, after an auth switch, after a fast-auth or full-auth message) connect returns that server error with its code and message. A second auth switch request is refused.",
  ["histories", "inputs"], "all authentication conversations of bounded length, all error codes and messages",
  NO + "The conversations (switches, fast and full authentication, errors at each stage) are histories.",
  [C+"auth.rs", C+"init.rs", C+"packets/err.rs"],
  [("continue_auth state machine", C+"auth.rs")], ["result of Connection::connect"])
p("C06", "No server bytes can make connect panic or hang",
  "For every byte stream a server may send while the client connects, connect returns a connection or an error: it does not panic, loop for ever, overflow, or allocate memory out of proportion to what the server sent.",
  ["inputs", "fault_sequences"], "all server byte streams during handshake and authentication",
  NO + "It is a statement about all hostile inputs.",
  [C+"init.rs", C+"auth.rs", C+"packets/handshake.rs", C+"packets/auth_switch_request.rs", C+"packets/err.rs", C+"parse_buf.rs", C+"types/auth_plugin.rs"],
  [("checked_eat_* bounds checks", C+"parse_buf.rs")], ["outcome of Connection::connect"])
p("C07", "No server bytes can make a query, execute or prepare panic or hang",
  "For every byte stream a server may send in answer to a query, an execute, a prepare or a prepared execute, and while rows are read, each call returns a value or an error: it does not panic, loop for ever, overflow, or allocate memory out of proportion to what the server sent. An ERR packet in place of a row ends the result set with that server error and leaves the connection usable; an ERR packet in place of any packet of a query's or an execute's answer makes the call fail.",
  ["inputs", "fault_sequences"], "all server byte streams in answer to commands",
  NO + "It is a statement about all hostile inputs.",
  [C+"result_set.rs", C+"query.rs", C+"prepared_statement.rs", C+"packets/ok.rs", C+"packets/column_def.rs", C+"packets/stmt.rs", C+"parse_buf.rs", "src/types/value/bin.rs", "src/types/value/text.rs"],
  [("checked_eat_* bounds checks", C+"parse_buf.rs")], ["outcome of query / next / execute_query / prepare_statement"])
p("C08", "Challenge responses are the ones the auth plugins define",
  "The response to a challenge is, for mysql_native_password, SHA1(pw) XOR SHA1(nonce || SHA1(SHA1(pw))), for caching_sha2_password SHA256(pw) XOR SHA256(SHA256(SHA256(pw)) || nonce), empty for an empty password, and the password followed by a zero byte for an allowed mysql_clear_password switch. The nonce used is the one of the latest challenge (the greeting, or the auth switch request), without its terminating zero.",
  ["inputs", "configurations"], "all passwords and nonces (bounded lengths), greeting and auth switch",
  NO + "No test computes a scramble; correctness is over all passwords and nonces.",
  ["src/utils/scramble.rs", C+"types/auth_plugin.rs", C+"auth.rs", C+"packets/handshake.rs", C+"packets/auth_switch_request.rs"],
  [("scramble_native / scramble_sha256", "src/utils/scramble.rs"), ("nonce assembly", C+"packets/handshake.rs")],
  ["bytes of the handshake response / auth switch response"])
p("C09", "Full authentication encrypts the nonce-masked password with RSA-OAEP",
  "In caching_sha2_password full authentication over an insecure stream the client sends exactly one block of the key's size which decrypts (RSA, OAEP with SHA-1 and MGF1) to the password plus a zero byte XORed cyclically with the nonce; it requests the server's public key only if the options do not provide one, and keeps it for the connection. If the password does not fit the key, the call fails with an error instead of sending anything.",
  ["inputs", "configurations"], "all passwords, nonces and random pads, with bounded key sizes",
  NO + "Nothing tests encryption.",
  ["src/utils/crypt.rs", C+"auth.rs"],
  [("OaepPadding::pad, PublicKey::encrypt_padded", "src/utils/crypt.rs"), ("full authentication branch", C+"auth.rs")],
  ["bytes written during full authentication", "PublicKey::encrypt_padded"])
p("C10", "The login packet states the options and the negotiated capabilities",
  "The client's handshake response carries the user name, the database when one is configured, the plugin name and the challenge response in the layout its own capability flags announce; it announces no optional capability the server did not offer, announces a database exactly when it sends one, states the configured packet limit, and asks for a UTF-8 character set (with four-byte characters from server version 5.5.3 on). The connection reports the capabilities, connection id, version and server family (MariaDB or MySQL) the server's greeting contained.",
  ["inputs", "configurations"], "all greetings (versions, ids, capability sets), all user/database names of bounded length, all option combinations",
  NO + "No test parses a greeting or inspects a login packet.",
  [C+"init.rs", C+"packets/handshake_response.rs", C+"packets/handshake.rs", C+"options.rs", C+"data.rs"],
  [("HandshakeResponse::new/serialize", C+"packets/handshake_response.rs"), ("HandshakePacket", C+"packets/handshake.rs")],
  ["bytes of the login packet", "Connection::data()"])
p("C11", "Bound parameters reach the server with their type, sign, nullness and value",
  "Executing a prepared statement sends a packet from which the MySQL binary protocol rules recover, for each parameter in order, its column type, its unsigned flag, whether it is NULL, and exactly its value. This holds for every mix of values and every number of parameters, including dates and times with zero parts.",
  ["inputs"], "all parameter lists of bounded length over all value variants and all their contents",
  NO + "Nothing encodes a parameter.",
  [C+"packets/stmt_execute_request.rs", "src/types/value/bin.rs", C+"types/null_bitmap.rs", "src/types/value/mod.rs"],
  [("StmtExecuteRequest::serialize", C+"packets/stmt_execute_request.rs"), ("Value::serialize", "src/types/value/bin.rs"), ("NullBitmap", C+"types/null_bitmap.rs")],
  ["bytes written by PreparedStatement::execute/query"])
p("C12", "Binary rows decode to the values the server encoded",
  "For every column list and every row in the binary protocol, the decoded row has one value per column in order; each is NULL exactly when its bit in the row's null bitmap is set and otherwise is the value encoded for the column's type and signedness. A row that is too short for its columns gives an error.",
  ["inputs"], "all rows over all supported column types, flags and contents, bounded column counts and lengths",
  NO + "Nothing decodes a binary row.",
  ["src/types/value/bin.rs", C+"types/protocol.rs", C+"types/null_bitmap.rs"],
  [("BinaryProtocol::read_result_set_row", C+"types/protocol.rs"), ("Value::deserialize_bin", "src/types/value/bin.rs")],
  ["rows returned by PreparedStatement::query"])
p("C13", "Text rows decode to the values the server printed",
  "For every column list and every text-protocol row the decoded row has one value per column in order: NULL for the NULL marker, integers of the column's width and sign, dates, times and datetimes with all their parts and fractional seconds, and the exact bytes for strings and blobs. Text that is not a value of the column's type gives an error, not another value.",
  ["inputs"], "all texts of bounded length per supported column type and sign",
  "One test parses five literal dates and times; numbers, NULL, fractions of other lengths, negative times and malformed text are not covered.",
  ["src/types/value/text.rs", C+"types/protocol.rs", C+"parse_buf.rs"],
  [("TextProtocol::read_result_set_row", C+"types/protocol.rs"), ("Value::deserialize_text", "src/types/value/text.rs")],
  ["rows returned by Connection::query"])
p("C14", "Length-encoded integers and strings are read as the protocol defines them",
  "A length-encoded integer in any packet (column counts, affected rows, insert ids, string lengths) is read as the protocol defines for its 1, 3, 4 and 9 byte forms, and a length-encoded string is exactly the announced number of bytes. A string or integer that runs past the end of its packet gives an error and never bytes of another field or packet.",
  ["inputs"], "all length-encoded integers of every form and all string lengths, including those above 250 and 65535 bytes",
  NO + "The form boundaries (250/251, 65535/65536, 2^24) are not tested.",
  [C+"parse_buf.rs", "src/utils/buf_mut_ext.rs", "src/utils/mod.rs", C+"packets/column_def.rs", C+"packets/ok.rs"],
  [("checked_eat_lenenc_int / checked_eat_lenenc_slice", C+"parse_buf.rs"), ("put_lenenc_int", "src/utils/buf_mut_ext.rs")],
  ["OkPacket fields, row values, column names, encoded parameters"])
p("C15", "A displayed Value is one SQL literal denoting exactly that value",
  "The text form of every value is a single SQL literal that denotes the value: NULL, the decimal integer, 0x followed by the bytes in hex (X'' for none), or a double-quoted date, time or datetime whose parts (sign, hours including days, microseconds) are those of the value. Parsing the quoted text back as the column type yields the same value.",
  ["inputs"], "all integer, byte, date, time and datetime values (bounded byte lengths)",
  "One test formats nine literals.",
  ["src/types/value/text.rs"], [("impl Display for Value", "src/types/value/text.rs")], ["Value::to_string"])
p("C16", "An escaped string is one SQL literal denoting exactly the string",
  "For every string, the escaped form is one double-quoted MySQL string literal: nothing in the string can end the literal early, and unescaping it by MySQL's rules gives back exactly the original string.",
  ["inputs"], "all strings up to the bounded length, all Unicode characters",
  "Ten literals are tested; injection safety is over all strings.",
  ["src/types/value/text.rs"], [("StringEscape / write_escaped_chars", "src/types/value/text.rs")], ["StringEscape::to_string"])
p("C17", "An escaped identifier cannot leave its quotes and is a legal identifier",
  "A quoted identifier is one backtick-quoted token whose unquoted content is the input without disallowed characters (U+0000 and those above U+FFFF) and without trailing whitespace; an unquoted identifier consists exactly of the input's allowed characters, in order.",
  ["inputs"], "all strings up to the bounded length, all Unicode characters",
  "A dozen literals are tested; injection safety is over all strings.",
  ["src/types/value/text.rs"], [("IdentifierEscape / UnquotedIdentifierEscape", "src/types/value/text.rs")], ["IdentifierEscape::to_string", "UnquotedIdentifierEscape::to_string"])
p("C18", "Conversions between Rust types and values preserve the value or fail",
  "Converting a number, boolean, string, byte vector, date, datetime, duration or optional of these to a value and back gives the original (durations and datetimes to microsecond precision). Converting a value to a type either yields the same date, time span, number or text or returns an error: every integer that is not negative converts to a boolean; out-of-range dates and times, values of the wrong kind and invalid UTF-8 are errors, and no conversion panics or changes the value.",
  ["inputs"], "all values of all variants and all inputs of the Rust types",
  NO + "Negative durations, out-of-range dates and wrong kinds are not tested.",
  ["src/types/value/conversion.rs"], [("From/TryInto impls", "src/types/value/conversion.rs")], ["Value::from / try_into"])
p("C19", "Hex text and bytes convert back and forth exactly",
  "Every byte string's hex form is 0x followed by two hex digits per byte and parses back to the same bytes; parsing accepts upper and lower case digits with or without the 0x or 0X prefix, and returns an error for every other text, without panicking.",
  ["inputs"], "all byte strings and all texts up to the bounded length",
  "One literal is round-tripped.",
  ["src/types/hex.rs"], [("Hex::try_from_hex, FromStr, Display", "src/types/hex.rs")], ["Hex"])
p("C20", "Command results report exactly what the server sent",
  "Affected rows, last insert id, status flags, warning count and message of a command's result are the ones in the server's OK packet; at the end of a result set, status flags, warnings and message are those of the packet that closes it. A server error reports the server's code, SQL state and message.",
  ["inputs", "configurations"], "all OK, end-of-result and ERR packets of bounded message length",
  NO + "Nothing decodes an OK or ERR packet.",
  [C+"packets/ok.rs", C+"packets/err.rs", C+"io.rs", C+"result_set.rs"],
  [("OkPacket::read_ok / read_eof", C+"packets/ok.rs"), ("ErrPacket", C+"packets/err.rs")],
  ["execute_query, ResultSet::finish, Connection::cleanup, Error::Server"])
p("C21", "Column metadata is the server's, whatever its length",
  "The columns of a result set are the ones the server described, in order, with its names, original names, tables, original tables, type and flags, for names of any length the protocol allows; a malformed description gives an error.",
  ["inputs"], "all column definitions, name lengths across the length-encoding boundary, all types and flags",
  NO + "Nothing decodes a column definition.",
  [C+"packets/column_def.rs", C+"types/column.rs", C+"types/column_type.rs"],
  [("ColumnDef::deserialize", C+"packets/column_def.rs")], ["ResultSet::columns"])
p("C22", "Result sets deliver every row once, in order, then end",
  "Reading a result set row by row, with collect, or with one delivers exactly the server's rows in order (one: the first, or nothing for an empty result), and then reports the end for ever; finish gives the closing packet whether rows were read before or not. This holds for the text and the binary protocol and for servers with and without the deprecated EOF packets.",
  ["inputs", "histories", "configurations"], "all result sets of bounded rows and columns, all orders of next/collect/one/finish",
  NO + "It is about all consumption orders.",
  [C+"result_set.rs", C+"query.rs", C+"prepared_statement.rs"],
  [("ResultSet::next and the end-of-result test", C+"result_set.rs")], ["ResultSet API"])
p("C23", "A statement runs only with the right number of parameters, on its own id",
  "Executing or querying a prepared statement with a number of values different from the statement's placeholders fails without sending anything; with the right number it sends an execute for the id the server assigned. Statement metadata announced by the server is consumed by prepare, so that the next response is the execute's own.",
  ["inputs", "histories"], "all statement ids, parameter and column counts and value counts within bounds",
  NO + "Nothing prepares a statement.",
  [C+"prepared_statement.rs", C+"packets/stmt.rs"],
  [("ParameterCountMismatch check; metadata loop in prepare_statement", C+"prepared_statement.rs")], ["prepare_statement, PreparedStatement::execute/query"])
p("C24", "Oversized parameters are streamed completely before the execute",
  "When the parameters do not fit one packet, every byte-string parameter is sent as long data for its own statement and parameter index, in order and complete, before the execute, which then still carries the types, null bitmap and the remaining values; otherwise no long data is sent.",
  ["inputs"], "all parameter lists whose total size lies around the packet limit (windows around multiples of it) and positions of byte-string parameters",
  NO + "The threshold is at 16 MiB.",
  [C+"io.rs", C+"packets/stmt_execute_request.rs", C+"packets/stmt_send_long_data.rs", C+"prepared_statement.rs"],
  [("as_long_data decision", C+"packets/stmt_execute_request.rs"), ("send_long_data", C+"io.rs")], ["bytes written by PreparedStatement::execute"])
p("C25", "Waiting on the server is bounded by the timeout, and only by it",
  "A read or write that completes before its timer fires returns its result even if the timer has fired by the same poll; one that does not complete when the timer fires fails with a timed-out error. Every read and write the connection performs is guarded by a timer of the configured duration.",
  ["schedules", "inputs"], "all orders of stream readiness and timer expiry",
  NO + "It is about schedules of two futures.",
  [C+"timeout.rs", C+"io.rs"], [("Timeout::poll", C+"timeout.rs"), ("Timeout::new around each stream operation", C+"io.rs")],
  ["Timeout, results of connect/query on a stalling stream"])
p("C26", "Recycled buffers never leak earlier contents and stay bounded",
  "A buffer taken from the buffer pool is always empty, whatever its earlier users wrote to it; a returned buffer keeps no more capacity than the pool's cap and the pool keeps no more items than its size; an item is never handed to two users at a time.",
  ["histories", "schedules"], "all histories of get, write and drop",
  NO + "It is about histories.",
  ["src/pool/sync_pool.rs", "src/pool/pool_item.rs"], [("SyncPool::get/put and reset", "src/pool/sync_pool.rs")], ["SyncPool"])
p("C27", "The async pool never exceeds its size and never shares an item",
  "At no time do more than N items of an async pool of size N exist, and no item is handed to two users at a time, whatever the interleaving of gets, cancelled gets, failing creations and returns; returned items are reused before new ones are made.",
  ["schedules", "histories", "fault_sequences"], "all interleavings of a bounded number of tasks, cancellations and creation failures",
  NO + "Interleavings, cancellation and failures are not sampled at all.",
  ["src/pool/async_pool.rs", "src/pool/pool_item.rs"], [("items counter, ArrayQueue", "src/pool/async_pool.rs")], ["AsyncPool::get futures, item drops"])
p("C28", "A waiting get is served once an item or a free slot is available",
  "If a task waits for an item and an item is returned, or a slot becomes free because a creation failed or was cancelled, some waiting task is woken and a get then succeeds: no schedule of gets, polls, cancellations, failures and returns leaves a task waiting for ever while an item or slot is available. A creation error is reported to the get that started it.",
  ["schedules", "histories", "fault_sequences"], "all interleavings of a bounded number of tasks, cancellations and creation failures",
  NO + "Lost wake-ups depend on schedules.",
  ["src/pool/async_pool.rs"], [("wakers queue", "src/pool/async_pool.rs")], ["AsyncPool::get futures and their wakers"])
p("C29", "Migrations end exactly at the requested version and are recorded",
  "Migrating to a version applies, in order, exactly the not yet applied migrations up to and including it, and reverts, in reverse order, exactly the applied ones above it; each applied (reverted) migration is recorded in (removed from) the migrations table with its own version and name, after it ran, so that repeating the call does nothing. A migrations table that names a migration the caller does not have is refused. If a migration fails, the error is returned and neither it nor a later one is recorded.",
  ["histories", "inputs", "fault_sequences"], "all subsets of applied migrations, target versions and failure points over bounded migration lists",
  NO + "Nothing runs the migrator.",
  ["src/migrator/migrator_inner.rs", "src/migrator/migration.rs", "src/migrator/model.rs"],
  [("up_to_version/down_to_version/to_version", "src/migrator/migrator_inner.rs")], ["SQL the migrator sends, Migration::up/down calls"])
p("C30", "Versions are ordered numerically and list order is checked",
  "Versions compare by major, then minor, then patch number, a total order consistent with equality, and a migration list is accepted as ordered exactly if its versions strictly increase.",
  ["inputs"], "all triples of versions, all lists of bounded length",
  NO + "It is over all pairs.",
  ["src/migrator/migration.rs"], [("impl Ord for Version; MigrationList::ordered", "src/migrator/migration.rs")], ["Version, MigrationList::ordered"])
p("C31", "Inserts and updates send exactly the set fields with their own values",
  "Inserting an active model sends one insert whose column list names exactly the set fields and binds each to its own value, and returns the new row's id; updating sends one update of exactly the set fields, keyed by the primary key of the model, and sends nothing when no field is set. A referenced model to be inserted is inserted first and its key is what the referencing column gets.",
  ["inputs", "configurations"], "all subsets of set fields and all field values (bounded) of models with plain, nullable, struct and reference fields",
  NO + "Only SELECT generation is tested.",
  ["src/model/active_model/mod.rs", "src/model/active_model/named_value.rs", "src/model/active_model/update_model.rs", "src/model/active_model/active_value.rs", "src/model/active_model/active_reference.rs", "macros/src/lib.rs"],
  [("NamedValue::into_insert/into_update", "src/model/active_model/named_value.rs"), ("derive(ActiveModel)", "macros/src/lib.rs")],
  ["bytes sent by ActiveModel::insert and UpdateModel::update"])
p("C32", "Models are filled from the right columns in any column order",
  "A model read from a result set gets each field from the column of that field's (original) name and table alias, whatever the order of the columns and whatever columns of other names there are: a nested model from its own alias, never from a same-named column of another table; the outer model's own fields from whatever alias is not a nested model's. A missing column or a value of the wrong type is an error. The generated select names every field of the model and of its referenced models.",
  ["inputs", "configurations"], "all permutations and subsets of the columns of a nested model, all values",
  "One test compares two generated selects; mapping is not tested.",
  ["src/model/from_query_result.rs", "src/model/into_query.rs", "macros/src/lib.rs", "src/model/plain.rs"],
  [("derive(FromQueryResult) mapping", "macros/src/lib.rs"), ("set_mapping", "src/model/from_query_result.rs")],
  ["rows of query::<Model>, IntoQuery::build_query"])
p("C33", "Public keys are read exactly, and malformed ones rejected",
  "A PEM public key in PKCS#1 or PKCS#8 form, with any line breaks, yields the modulus and exponent it encodes; every other text gives an error, and no key text the server sends makes the client panic.",
  ["inputs"], "all key encodings of bounded size",
  NO + "No key is parsed in a test.",
  ["src/utils/crypt.rs"], [("PublicKey::try_from_pem/pkcs1/pkcs8", "src/utils/crypt.rs")], ["PublicKey"])
p("C34", "After an interrupted call no later call returns its answer",
  "When a call is interrupted - its future is dropped while it waits for the stream, a timer fires, or the stream fails -, at whatever byte of the exchange, every later call on the connection returns the answer to its own command or fails: it never returns (part of) the interrupted call's answer, and the server never gets anything but whole commands in whole packets, apart from the interrupted one. A row's future that is dropped loses or repeats no row silently: rows read later are the server's in order, or an error. A call that waited but was not interrupted succeeds, and so do those behind it.",
  ["schedules", "fault_sequences", "histories"], "all points of interruption (bytes written, bytes read) and kinds of interruption in all kinds of calls, followed by two calls",
  NO + "Cancellation points are never exercised.",
  [C+"io.rs", C+"mod.rs", C+"result_set.rs", C+"timeout.rs"],
  [("begin_io: the interrupted flag", C+"io.rs"), ("cleanup before each command", C+"result_set.rs")],
  ["results of later calls and the bytes they write"],
  [{"name": "Connection::interrupted", "meaning": "a packet was left half read or half written", "where": C+"mod.rs"}])
p("C35", "A pool replaces connections that can no longer be used",
  "When a call on a pool's connection was interrupted - its future was dropped while it waited for the stream, a timer fired, the stream failed or the server closed it - and the connection is given back, the pool never hands it out in a state in which calls are refused: whoever asks next, or waits for a connection meanwhile, is woken and gets one on which calls are answered, again and again. At no time more connections exist than the pool may hold, and a connection whose calls were not interrupted is handed out again rather than replaced.",
  ["schedules", "fault_sequences", "histories"], "all points of interruption (bytes written, bytes read) and kinds of interruption in all kinds of calls, with and without waiting users, up to two in a row",
  NO + "No test uses a pool of connections.",
  ["src/pool/async_pool.rs", "src/pool/mod.rs", C+"mod.rs", C+"io.rs"],
  [("AsyncPool::put", "src/pool/async_pool.rs"), ("AsyncPoolContent::is_reusable", C+"mod.rs")],
  ["AsyncPool::get/drop of PoolItem and calls on the item", "streams opened and dropped"],
  [{"name": "AsyncPool::items", "meaning": "items that exist or are being created", "where": "src/pool/async_pool.rs"}])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
