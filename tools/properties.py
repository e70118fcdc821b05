#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 tools/properties.py)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
        "mechanism": [{"name": a, "where": b} for a, b in mech],
        "observe_at": list(observe), "hook_needed": hook}})

p("C01", "Every supported value survives encoding followed by decoding",
  "Marshalling any supported value (nil, booleans, every Go integer type within the int64 range, float32/64, strings, slices, string-keyed maps, nodes, relationships, unbound relationships, paths, arbitrarily nested, of any size) and unmarshalling the bytes gives back the same value, with integers as int64, floats as float64 and slices as []interface{}.",
  ["inputs"], "all supported values, at every size class boundary (15/16, 127/128, 255/256, 32767/32768, 65535/65536) and nesting",
  "the encoding tests only compare encoder bytes for small random scalars and never decode; recordings contain a handful of sizes, none between 128 and 255",
  ["encoding/encoder.go", "encoding/decoder.go", "encoding/util.go", "structures/graph"],
  [("size-class switch per type", "encoding/encoder.go encodeInt/encodeString/encodeSlice/encodeMap/encodeStructure"), ("marker dispatch", "encoding/decoder.go decode")],
  observe=["encoding.Marshal", "encoding.Unmarshal"])
p("C02", "Encoded values are valid PackStream in its shortest form",
  "The bytes produced for any supported value or client message, once unframed, are exactly one PackStream value that an independent PackStream reader decodes to the intended value, with nothing left over. Every integer, string, list, map and structure header uses the fewest bytes the format allows.",
  ["inputs"], "all supported values and all client message types",
  "tests check a few scalar encodings against a copy of the encoder's own switch; maps, structures, graph types and large collections are never compared with the specification",
  ["encoding/encoder.go", "structures/messages", "structures/graph"],
  [("size-class switch per type", "encoding/encoder.go"), ("signature and field order of structures", "structures/*/*.go AllFields/Signature")],
  observe=["encoding.Marshal", "bytes received by a Bolt server"])
p("C03", "Every valid PackStream encoding decodes to the value it denotes",
  "For any PackStream value a conforming server may send, in any permitted representation (shortest or longer integer widths and size headers, multi-byte UTF-8, all size classes, graph structures), decoding yields exactly the value it denotes.",
  ["inputs"], "all values times all permitted wire representations of each header",
  "the only decoder inputs in the tests are about 30 fixed recordings, so sizes 128-255 and 32768-65535 and longer-than-needed headers are never decoded",
  ["encoding/decoder.go", "encoding/util.go"], [("marker dispatch and size reads", "encoding/decoder.go decode/decodeSlice/decodeMap/decodeStruct")],
  observe=["encoding.Unmarshal", "rows and metadata returned to callers"])
p("C04", "Outgoing messages are framed correctly for every chunk and message size",
  "Whatever the configured chunk size and however large the message, what is written is a sequence of chunks, each with a 2-byte big-endian length between 1 and the chunk size followed by exactly that many bytes, closed by one zero-length marker, and the concatenated chunk bodies do not depend on the chunk size. Consecutive messages follow each other with no bytes between them.",
  ["inputs", "configurations"], "all chunk sizes 0..65535 (0 meaning the maximum) times all message sizes, including single strings far larger than a chunk",
  "one recorded test uses chunk size 10 with a query shorter than 200 bytes; no test sends a message larger than one chunk at once to anything that parses it",
  ["encoding/encoder.go", "conn.go"], [("buffering and chunk emission", "encoding/encoder.go Write/flush"), ("SetChunkSize", "conn.go")],
  observe=["writer passed to the encoder", "bytes received by a Bolt server"])
p("C05", "Decoding is independent of chunking and of transport fragmentation",
  "A message decodes to the same value however the sender cuts it into chunks and however the transport splits or coalesces the bytes into reads (including reads that return data together with an error or end of stream). Decoding one message consumes exactly its bytes, so back-to-back messages are each decoded in turn.",
  ["inputs", "schedules"], "all chunkings of a message times all splits of the byte stream into reads",
  "recordings replay reads of exactly the requested size; no test fragments a message or coalesces several",
  ["encoding/decoder.go", "conn.go"], [("chunk reassembly", "encoding/decoder.go read/readData"), ("handshake read", "conn.go handShake")],
  observe=["encoding.NewDecoder over a scripted reader", "driver calls against a fragmenting server"])
p("C06", "Malformed input gives an error, never a crash, hang or invented value",
  "Decoding any byte sequence terminates without panicking and without allocating memory out of proportion to the input. If the input is truncated anywhere, has an unknown marker or unknown structure signature, the wrong number or types of structure fields, or a size header larger than the data present, decoding reports an error that is not the end-of-stream marker, and a caller reading rows sees an error rather than a silently shortened result.",
  ["inputs"], "all byte strings; all truncations and single-byte corruptions of valid messages; nesting up to tens of thousands of levels",
  "no test feeds the decoder anything but well-formed recordings",
  ["encoding/decoder.go", "encoding/util.go", "conn.go", "rows.go", "result.go", "util.go"],
  [("error returns in decode", "encoding/decoder.go"), ("typed field checks", "encoding/decoder.go decodeNode/decodeRelationship/decodePath")],
  observe=["encoding.Unmarshal", "encoding.NewDecoder", "driver calls against a corrupting server"])
p("C07", "A value that cannot be encoded is refused whole, leaving the stream intact",
  "Encoding a value that contains something unsupported (out-of-range unsigned integer, channel, function, struct, unsupported map type, at any depth) returns an error and writes no bytes of that message. A request refused that way, on its own or as part of a pipeline, sends no part of the refused message, and later requests on the same connection work normally and receive their own responses.",
  ["inputs", "histories", "configurations"], "all unsupported values at all positions and sizes, all chunk sizes, every position in a pipeline",
  "one recorded test passes an unsupported parameter in a message smaller than one chunk; nothing exercises a refusal after a chunk would have been flushed or after earlier pipelined requests were sent",
  ["encoding/encoder.go", "conn.go", "stmt.go"], [("encode error paths", "encoding/encoder.go encode"), ("pipeline send loop", "stmt.go ExecPipeline/QueryPipeline")],
  observe=["writer passed to the encoder", "server-side message log", "results of later calls"])
p("C08", "Each call receives exactly the response to its own request",
  "For every sequence of queries, executions, prepared statements, pipelines, partial reads and early closes on a connection, the rows (all of them, in order, once), column names, metadata and results each call returns are exactly those the server produced for that call's request. Nothing left over from one request is ever delivered to another, and reading past the end keeps reporting the end.",
  ["histories", "inputs", "schedules"], "all interleavings of API calls on a connection and all result sizes, against a conforming server with arbitrary fragmentation",
  "the tests replay about 30 fixed conversations; partial reads followed by reuse, closes of the connection or transaction with unread rows, and reads past the end are sampled once or never",
  ["conn.go", "rows.go", "stmt.go", "encoding/decoder.go"],
  [("response consumption and draining", "conn.go consume/consumeAll/consumeAllMultiple, rows.go Close"), ("statement ownership", "conn.go statement, stmt.go Close")],
  state=[("statement", "the open statement, if any", "conn.go boltConn"), ("finishedConsume/pipelineIndex", "how much of the response stream was read", "rows.go boltRows")],
  observe=["Conn/Stmt/PipelineStmt/Rows/PipelineRows results", "server-side record of what was sent per request"])
p("C09", "The client speaks only legal Bolt v1, each request once and in order",
  "Over any history of API calls, what the server receives is the handshake offering version 1, one INIT with the configured credentials, and then only messages the Bolt v1 session state machine allows in its current state. Each successful or failed call transmits its statement text and parameters unaltered, exactly once and in call order, and calls refused by the driver transmit nothing.",
  ["histories", "inputs", "configurations"], "all API call sequences including server failures at any request, all statement texts and parameter maps",
  "playback of recordings does not even compare the bytes written, only their number",
  ["conn.go", "driver.go", "stmt.go", "rows.go", "tx.go", "structures/messages"],
  [("send helpers", "conn.go sendInit/sendRun/sendPullAll/sendDiscardAll/ackFailure/reset"), ("message layouts", "structures/messages")],
  observe=["server-side message log checked online by a Bolt v1 state machine"])
p("C10", "A server failure surfaces with its metadata and leaves the connection usable",
  "Whenever the server reports FAILURE for any request (a run, a pull after any number of rows, a discard, any member of a pipeline, begin, commit, rollback), the call that consumes it returns promptly with an error whose innermost error is that failure with its metadata. Once the affected rows or statement are closed (closing never hangs and never leaves the statement open), the next request on the connection works and gets its own response.",
  ["histories", "fault_sequences"], "a FAILURE at every possible request and row position, in every API path, repeated any number of times",
  "tests cover a failing RUN for single statements only; failures while pulling, draining, discarding, in the middle of pipelines and in transactions are never produced",
  ["conn.go", "rows.go", "stmt.go", "tx.go", "structures/messages/failure.go", "errors/errors.go"],
  [("ACK_FAILURE exchange", "conn.go consume/ackFailure/reset"), ("row state after an error", "rows.go NextNeo/NextPipeline/Close")],
  observe=["errors returned to callers", "follow-up requests", "server-side message log"])
p("C11", "Loss or stall of the transport ends every call in a bad-connection error",
  "If the server closes, resets or stops responding at any byte of any exchange on an established connection, every call in progress or made later returns (within the configured timeout when the peer is merely silent) either its complete and correct result or an error, and the first such error has driver.ErrBadConn as its innermost error. A truncated result is never reported as complete, and a commit is never reported successful unless the server confirmed it.",
  ["crash_points", "fault_sequences", "inputs"], "every byte offset of server output and client output in representative exchanges, for close, reset and silence, with and without TLS",
  "no test breaks a connection except one that is skipped without a live database",
  ["conn.go", "encoding/decoder.go", "rows.go", "tx.go"],
  [("deadlines and error mapping", "conn.go Read/Write"), ("dial timeouts", "conn.go createConn"), ("chunk reassembly errors", "encoding/decoder.go read")],
  observe=["results and errors of driver calls under injected cuts and stalls", "server-side commit log"])
p("C12", "A connection that broke is never used again",
  "After any transport error, timeout or undecodable or out-of-place response on a connection, later calls on it fail without transmitting anything and never deliver data belonging to an earlier request. A connection pool and database/sql both replace it with a fresh connection rather than handing it out again, and no statement is transmitted twice because of it.",
  ["fault_sequences", "histories", "crash_points"], "every fault position and every continuation of API calls afterwards, through plain, pooled and database/sql connections, including responses that arrive late",
  "requires late or lost responses followed by reuse; tests never produce either",
  ["conn.go", "driver.go", "rows.go"], [("sticky connection error", "conn.go Read/Write connErr"), ("replacement on return to pool", "driver.go reclaim"), ("validity report to database/sql", "conn.go")],
  state=[("connErr", "first transport error", "conn.go boltConn")],
  observe=["server-side byte and message log per connection after the fault", "results of later calls"])
p("C13", "Transactions commit or roll back exactly the work done inside them",
  "Work executed between begin and a successful commit takes effect exactly once, and work executed between begin and a rollback, or still uncommitted when the connection is closed or returned to a pool, never takes effect. A connection has at most one open transaction, begin is refused while one or a statement is open, a finished transaction refuses further commit or rollback, and later work on the connection is not part of it.",
  ["histories", "fault_sequences", "crash_points"], "all sequences of begin, work, failures, partial reads, commit, rollback, close and reuse",
  "two recorded tests cover one happy commit and one happy rollback",
  ["tx.go", "conn.go", "driver.go"], [("transaction ownership", "conn.go Begin/Close"), ("closing statements before finishing", "tx.go Commit/Rollback")],
  state=[("transaction", "the open transaction, if any", "conn.go boltConn")],
  observe=["server-side model of committed effects", "Begin/Commit/Rollback/Close results"])
p("C14", "Closed or busy objects refuse work cleanly, and closing is idempotent",
  "At most one statement is open per connection: while one is open, further queries, executions, prepares and begins on that connection are refused with an error, and they work again once it is closed (a statement prepared through database/sql counts as open only while its rows are). Operations on closed rows, statements, transactions or connections return an error without panicking or transmitting anything; closing anything twice is harmless, and closing an outer object closes the inner ones and always releases them even if draining fails.",
  ["histories"], "all call orders on all live and dead handles, including handles kept after their parent was closed",
  "tests use handles in the intended order only",
  ["conn.go", "stmt.go", "rows.go", "tx.go"], [("closed flags and open-statement guard", "conn.go, stmt.go, rows.go, tx.go")],
  observe=["errors and panics of driver calls", "server-side message log"])
p("C15", "A pool never exceeds its size, never shares and never loses a connection",
  "At any time at most max handles from a pool are checked out and at most max network connections are open; a further checkout waits until one is returned and then proceeds. No two live handles ever use the same network connection, and however handles are closed (repeatedly, after failures, with open rows or transactions) or fail to open, the number of available slots returns to exactly max.",
  ["histories", "schedules", "fault_sequences"], "all interleavings of checkout, use, close, double close, use after close and server faults, for any max >= 1",
  "every pool test is skipped without a live database",
  ["driver.go", "conn.go"], [("slot channel", "driver.go OpenPool/reclaim"), ("handle invalidation on close", "conn.go Close")],
  state=[("pool", "channel of idle connection slots", "driver.go boltDriverPool")],
  observe=["checkout/close histories", "server-side socket count and per-socket request log"])
p("C16", "A pool only hands out connections that are ready and clean",
  "Every connection returned by a successful pool checkout has completed handshake and authentication, is not one the server has already closed, has no open transaction, statement or unread results from its previous user, and uses the pool's configured address and credentials. The first request on it therefore succeeds and gets its own response.",
  ["histories", "fault_sequences"], "all states in which the previous user may leave a connection and all server faults while it was in use, idle or being opened",
  "every pool test is skipped without a live database, and none leaves a connection dirty",
  ["driver.go", "conn.go", "tx.go", "rows.go"], [("liveness check at checkout", "driver.go connectionNilOrClosed"), ("cleanup on close", "conn.go Close"), ("reclaim", "driver.go reclaim")],
  observe=["first request after each checkout", "server-side session state at checkout"])
p("C17", "Closing a pool stops checkouts and closes every connection it opened",
  "After closing a pool returns, every checkout fails with an error, including ones that were waiting, and every network connection the pool ever opened is closed, including those still checked out. Closing completes even when some connections are already dead or all are checked out with others waiting, and handles returned afterwards cause no harm.",
  ["histories", "schedules"], "all states of the pool at the time of closing and all concurrent checkouts, uses and returns",
  "the only pool-close test is skipped without a live database and covers a single idle connection",
  ["driver.go", "conn.go"], [("Close and closed flag", "driver.go boltDriverPool.Close"), ("connRefs", "driver.go")],
  observe=["server-side socket lifecycle", "OpenPool results after Close"])
p("C18", "Drivers and pools are safe for concurrent use",
  "Any number of goroutines may open connections from one driver, check connections in and out of one pool, close the pool, and use their own connections at the same time without data races, deadlock or panics. Every goroutine gets exactly its own results, regardless of scheduling.",
  ["schedules"], "all goroutine interleavings of open, checkout, use, close and pool close",
  "the concurrent tests are skipped without a live database",
  ["driver.go", "conn.go"], [("refLock and slot channel", "driver.go"), ("per-connection state", "conn.go")],
  observe=["Go race detector reports", "per-goroutine results", "progress of all goroutines"])
p("C19", "Opening succeeds only on a negotiated, authenticated session with the given URL",
  "Opening a connection succeeds only if the URL scheme is bolt, any user comes with a password, the options are well formed, the server answers the handshake with version 1 and accepts INIT; otherwise it returns an error. The user name and password in the URL (percent-decoded, absent meaning no authentication), the client name, host and timeout are used exactly as given.",
  ["inputs", "configurations", "fault_sequences"], "all connection URLs, all server handshake answers however fragmented, all INIT responses, for plain, pooled and database/sql opening",
  "one unit test parses five URLs; no test sees a server reject a version or credentials",
  ["conn.go", "driver.go", "structures/messages/init.go"], [("parseURL", "conn.go"), ("handShake and initialize", "conn.go"), ("auth token", "structures/messages/init.go")],
  observe=["Open/OpenNeo/OpenPool results", "INIT message received by the server"])
p("C20", "With TLS requested nothing travels in clear and the server is verified",
  "When the URL asks for TLS, no byte of the Bolt session is sent unencrypted and opening fails, before credentials are sent, unless the server proves a certificate valid for the host under the configured (or system) authorities; only an explicit tls_no_verify lifts that check. Client certificates are presented when configured, unusable certificate settings are errors, and without TLS requested the session is plain.",
  ["configurations", "inputs"], "all TLS-related URL settings times server certificates that are valid, untrusted, for another host or expired, and servers that do not speak TLS",
  "no test opens a TLS connection",
  ["conn.go"], [("tlsConfig", "conn.go"), ("createConn", "conn.go"), ("parseURL tls options", "conn.go")],
  observe=["raw bytes on the wire", "server-side INIT log", "open results"])
p("C21", "The database/sql interface carries parameters and values faithfully",
  "Through database/sql, parameters passed as marshalled maps reach the server as the merged map, scalars in result rows scan to their values, and lists, maps, nodes, relationships and paths arrive as bytes that unmarshal to the exact value; statements, transactions and row iteration behave as database/sql documents. Arguments that are not marshalled maps are refused with an error.",
  ["inputs", "histories"], "all parameter maps, all result values and shapes, all sequences of database/sql operations, including several connections",
  "the only database/sql test is skipped without a live database",
  ["conn.go", "stmt.go", "rows.go", "util.go", "tx.go"], [("driverArgsToMap", "util.go"), ("Next conversion", "rows.go Next"), ("Exec/Query", "conn.go, stmt.go")],
  observe=["database/sql results", "server-side RUN log"])
p("C22", "Rows stream as they arrive, unread results are discarded, pipelines don't wait",
  "A row is returned as soon as the server has sent it, without waiting for later rows. Preparing a statement sends nothing, results of a prepared query closed before the first row is read are discarded by the server rather than transferred, and pipelined queries are all transmitted before any response is awaited.",
  ["schedules", "histories"], "all result sizes and all points at which the server pauses",
  "recordings have no timing and play back regardless of what was written before",
  ["rows.go", "stmt.go", "conn.go"], [("lazy PULL_ALL / DISCARD_ALL", "rows.go NextNeo/Close"), ("pipeline send loop", "stmt.go")],
  observe=["returns of calls while the server withholds later output", "server-side message log"])
p("C23", "Results report the server's counters, columns and metadata faithfully",
  "The affected-row count of an execution is the sum of nodes and relationships created and deleted reported by the server, zero when no statistics are reported, and an error when they are not understandable; other counters do not contribute. Column names and metadata are returned exactly as the server sent them, for every statement of a pipeline in order.",
  ["inputs"], "all statistics maps and metadata maps a server may send",
  "tests look at a few fixed statistics from recordings",
  ["result.go", "rows.go", "stmt.go"], [("RowsAffected", "result.go"), ("Columns/Metadata", "rows.go")],
  observe=["Result and Rows accessors against server-sent metadata"])
p("C24", "Wrapping an error keeps its cause reachable and its messages complete",
  "However many times an error is wrapped, the innermost error is the original one, each layer's inner error is the one it wrapped, and the text contains every layer's message and the original's. Wrapping and formatting never panic.",
  ["inputs"], "all chains of wraps over any error, with any format arguments",
  "no test of the errors package exists",
  ["errors/errors.go"], [("Wrap/Inner/InnerMost/Error", "errors/errors.go")],
  observe=["errors package API"])
p("C25", "A recorded session plays back with the same results",
  "Recording a session and playing the same calls back without a server gives the same results, errors and rows as the recorded session, whatever the sizes and fragmentation of the exchange. A playback that reads or writes more than was recorded reports an error.",
  ["histories", "inputs", "schedules"], "all sessions, chunk sizes and fragmentations of the recorded traffic",
  "tests only play back recordings made on one machine at one time",
  ["recorder.go", "driver.go", "conn.go"], [("event recording and playback", "recorder.go Read/Write/record")],
  observe=["results of recorded and played-back sessions"])
p("C26", "Every network connection the driver opens is eventually closed by it",
  "Closing a connection closes its network connection, whatever state it is in, and a failed attempt to open (bad handshake, rejected credentials, protocol error, timeout) leaves no network connection behind. Connections a pool discards as broken are closed as well.",
  ["histories", "fault_sequences"], "every way of opening, failing and closing, plain, pooled and through database/sql",
  "tests never look at the network side of a close",
  ["conn.go", "driver.go"], [("Close", "conn.go"), ("initialize error paths", "conn.go"), ("reclaim", "driver.go")],
  observe=["server-side end-of-stream on every accepted connection"])
p("C27", "Logging never changes behaviour and respects its level",
  "Any log level gives the same results, errors and wire traffic for the same calls. Nothing is logged at the default level, each level emits only messages of its own severity and more severe ones, and unknown level names turn logging off.",
  ["configurations", "histories"], "all log levels times all histories",
  "tests run at one level and do not look at log output",
  ["log/log.go", "conn.go"], [("level checks", "log/log.go"), ("trace dumps", "conn.go Read/Write")],
  observe=["captured log output", "results with logging on and off"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
