NA = {}
c("C01", "round-trip monitor on Marshal/Unmarshal over generated values", "Every size-class boundary and random nested values; an independent decoder and encoder cross-check both directions.")
c("C02", "independent PackStream reader as oracle on the encoder's output", "Every header form at every boundary, all client messages; shortest-form check by the independent reader.")
c("C03", "independent PackStream writer as oracle for the decoder", "All marker bytes, all permitted widths, random values.")
c("C04", "independent unframer on the bytes the encoder writes", "Notable and random chunk sizes times message sizes. The overrun of the last chunk is a listed known finding.")
c("C05", "scripted readers and chunkings, exact-consumption monitor", "Exhaustive two-cut chunkings of small messages, random splits of larger ones.")
c("C06", "hostile-input workload with panic, hang, memory and verdict monitors", "Every truncation and every single-byte corruption of a corpus plus random bytes, nesting and size bombs, in a memory-limited child process.", "fault_enumeration")
c("C07", "sink monitor on refused values, follow-up messages on the same stream", "Every unsupported kind at depths 0-4 and notable chunk sizes. The wrap of uint above MaxInt64 is a listed known finding.")
c("C08", "response-matching oracle: server-side record of every response compared with what each call returned, over random API histories", "Model-driven histories of queries, statements, pipelines, partial reads, closes and reuse, fragmented server output, plus concurrent and gated-stream workloads.")
c("C09", "online Bolt v1 state-machine monitor inside the server on every message received", "Exact statement text, parameters, order and multiplicity of every request compared with the calls made; refused calls must transmit nothing.")
c("C10", "FAILURE injection at every request and row position with a model of the expected outcome", "Failing RUN, PULL_ALL, DISCARD_ALL, pipeline members, BEGIN, COMMIT, ROLLBACK, refused ACK_FAILURE; the next request must work.")
c("C11", "exhaustive fault points: close, reset and silence at every byte of representative exchanges, with completeness and error oracles", "Every byte offset of server output and client output for each exchange, plain, TLS, pooled and database/sql.", "fault_enumeration")
c("C12", "fault enumeration followed by continued use; the server's log per connection must stay empty after the fault", "Cuts, stalls, late responses and mangled or out-of-place responses, then further calls through plain, pooled and database/sql connections.", "fault_enumeration")
c("C13", "effects log of a transactional server model against the outcome reported to the caller", "Random histories with failures, partial reads, resets, closes and connection cuts around transactions.")
c("C14", "model-driven histories on live and dead handles with panic, transmission and verdict monitors", "Every call on every live, closed and orphaned handle; the model predicts refusal or success.")
c("C15", "checkout ledger and server-side socket census over pool histories, also under the race detector", "Sequential model histories with faults, concurrent stress with injected delays.")
c("C16", "session-state monitor at every checkout plus a probe request", "Connections left in transactions, with unread rows, failed, or closed by the server while idle or in use.")
c("C17", "socket census after pool close, liveness of waiting and later checkouts", "Closing idle, busy, contended and broken pools, sequentially and concurrently under the race detector.")
c("C18", "Go race detector with per-goroutine result oracles and progress watchdog", "Concurrent opens, checkouts, uses, returns, double returns and pool closes with injected scheduling delays.")
c("C19", "URL grammar and handshake answer workloads; INIT and sockets observed at the server", "Generated URLs with an independent parser as oracle; every 4-byte answer class, fragmentations, truncations and INIT answers; timeouts.")
c("C20", "raw-wire recorder and certificate matrix", "All TLS URL settings times certificates valid, untrusted, for another host or expired and plain servers; raw bytes searched for clear text; cuts inside the TLS handshake.")
c("C21", "differential model of database/sql against the server-side record", "Parameter maps, all result value kinds, statements, transactions and row iteration in random histories.")
c("C22", "gated server that withholds output while the call must return; order of messages on the wire", "Row, pipeline and discard gates at every position.")
c("C23", "generated metadata and statistics with the server-sent values as oracle", "All counter types and shapes, pipelines, columns and metadata of every kind.")
c("C24", "random wrap chains against a reference list of layers", "Depth 0-40, formats with and without arguments, driver-returned errors.")
c("C25", "record, play back and compare all outcomes", "Random sessions, chunk sizes and fragmentations recorded through the package's recorder; over-reading and over-writing playbacks.")
c("C26", "socket census at the server: every accepted connection must be seen closed by the client", "Every way of opening, failing and closing, with faults at every byte.", "fault_enumeration")
c("C27", "same history at every log level compared on results and wire bytes, captured log output classified", "All levels times random histories; default level must be silent.")
