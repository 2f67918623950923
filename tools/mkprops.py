#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the human-edited source of the property list)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

S = "opsqueue/src/common/submission.rs"; C = "opsqueue/src/common/chunk.rs"
DB = "opsqueue/src/db/mod.rs"; CONN = "opsqueue/src/db/conn.rs"
DISP = "opsqueue/src/consumer/dispatcher/mod.rs"; RES = "opsqueue/src/consumer/dispatcher/reserver.rs"
META = "opsqueue/src/consumer/dispatcher/metastate.rs"; STRAT = "opsqueue/src/consumer/strategy.rs"
CS = "opsqueue/src/consumer/server/mod.rs"; CC = "opsqueue/src/consumer/server/conn.rs"
CST = "opsqueue/src/consumer/server/state.rs"; CCL = "opsqueue/src/consumer/client.rs"; CCO = "opsqueue/src/consumer/common.rs"
PS = "opsqueue/src/producer/server.rs"; PC = "opsqueue/src/producer/client.rs"; PCO = "opsqueue/src/producer/common.rs"
OS = "opsqueue/src/object_store/mod.rs"; SRV = "opsqueue/src/server.rs"; CFG = "opsqueue/src/config.rs"; MAIN = "opsqueue/app/main.rs"
PROM = "opsqueue/src/prometheus.rs"; TR = "opsqueue/src/tracing.rs"; ERR = "opsqueue/src/common/errors.rs"
YP = "libs/opsqueue_python/src/producer.rs"; YC = "libs/opsqueue_python/src/consumer.rs"; YCO = "libs/opsqueue_python/src/common.rs"
YE = "libs/opsqueue_python/src/errors.rs"; YA = "libs/opsqueue_python/src/async_util.rs"
PYP = "libs/opsqueue_python/python/opsqueue/producer.py"; PYC = "libs/opsqueue_python/python/opsqueue/consumer.py"
PYCO = "libs/opsqueue_python/python/opsqueue/common.py"; PYT = "libs/opsqueue_python/python/opsqueue/tracing.py"; PYE = "libs/opsqueue_python/python/opsqueue/exceptions.py"
MIG = "opsqueue/migrations"

prop("C01", "Submitting work is all-or-nothing",
 "Inserting a submission stores the submission, every one of its chunks and every piece of its strategic metadata together or not at all: after a crash, an error or under concurrent readers no part of a submission is ever visible without the rest. A submission that has no chunks to work on becomes completed as part of that same step. The caller gets the new identifier only if everything was committed, and an error otherwise.",
 ["crash_points", "fault_sequences", "inputs"], "for every submission, every point at which the process can die or the database can return an error during the insertion, and every reader in between",
 "The unit tests insert submissions on an in-memory database that never fails and only look afterwards; none injects a crash or an error between the statements of an insertion.",
 [S, C], [("insert_submission", S), ("insert_submission_from_chunks", S), ("insert_many_chunks", C), ("insert_submission_metadata_raw", S)],
 observe=["producer insert call result", "database rows after restart"])

prop("C02", "Submissions are stored exactly as the producer supplied them",
 "The stored submission has as its total exactly the number of chunks supplied and no chunks done, and its chunks are numbered 0,1,2,... in the supplied order, each with exactly the supplied content and no retries used, however many there are. Prefix, metadata, every strategic metadata key and value, chunk size and trace context are stored in their own fields unchanged, and reading the submission or its chunks back yields the same values.",
 ["inputs"], "for every chunk count (including zero and more than one insertion batch), content, prefix, metadata map and chunk size",
 "Tests use a handful of small submissions, mostly with one chunk and empty metadata; swapping two bound columns of the same type or losing the last batch is not sampled.",
 [S, C, MIG], [("insert_submission_from_chunks", S), ("insert_submission_raw", S), ("insert_many_chunks", C), ("get_submission", S), ("get_chunk", C)])

prop("C03", "No chunk is ever lost or duplicated when it changes state",
 "At any moment each chunk of a submission is in exactly one of the sets pending, completed and failed. Whenever a chunk moves it keeps its submission and index (and when it fails its input content) and the copy into the new set and the removal from the old one concern exactly the same chunk(s) and take effect in one atomic step. Apart from these moves and from age-based cleanup nothing deletes a chunk.",
 ["histories", "crash_points", "fault_sequences"], "for every history of completions, failures, retries and cancellations, every crash point between two statements and every error a statement can return",
 "Tests check row counts after one short successful history; they contain no crash or failing statement between the copy and the delete, and rarely more than one submission, so a too-wide or too-narrow row selection is not seen.",
 [C, S], [("complete_chunk_raw", C), ("move_chunk_to_failed_chunks", C), ("skip_remaining_chunks", C), ("fail_submission_notx", S), ("cancel_submission_notx", S)],
 state=[("chunks", "pending chunks"), ("chunks_completed", "finished chunks"), ("chunks_failed", "failed or skipped chunks")])

prop("C04", "A submission is in exactly one state and final states are final",
 "At any moment a submission is exactly one of in progress, completed, failed or cancelled; it changes state at most once, in one atomic step, out of in progress, and keeps its identifier. When a submission fails or is cancelled all of its chunks that were still pending leave the backlog in that same step, so a finished submission never has chunks that can be handed out. No operation moves a submission out of a final state.",
 ["histories", "crash_points", "schedules"], "for every history of operations on any set of submissions, with a crash possible after every statement",
 "Tests walk one submission through one transition and look at the end state; they do not stop between statements, and do not mix several submissions in one history.",
 [S, C], [("complete_submission_raw", S), ("fail_submission_raw", S), ("cancel_submission_raw", S), ("fail_submission_notx", S), ("cancel_submission_notx", S), ("maybe_complete_submission", S)],
 state=[("submissions", "in progress"), ("submissions_completed/failed/cancelled", "final states")])

prop("C05", "Finished submissions keep the details they were submitted with",
 "When a submission becomes completed, failed or cancelled, its record keeps every detail that was submitted and that the final state can represent: prefix, metadata, chunk counts, chunk size and trace context, each in its own field, together with the time of the transition and, for a failure, the chunk that caused it. Reading the finished submission reports those values and never another field's value.",
 ["histories", "inputs"], "for every submission contents and every path into a final state",
 "The tests compare a few fields of one finished submission and never look at trace context or chunk size after the transition.",
 [S, MIG], [("complete_submission_raw", S), ("fail_submission_raw", S), ("cancel_submission_raw", S), ("submission_status", S)])

prop("C06", "Progress counts are exact and completion happens exactly when all is done",
 "Each chunk that is recorded as completed raises the done count of its own submission by exactly one, in the same atomic step, and nothing else changes that count. A submission becomes completed in the step that completes its last chunk, and never while a chunk is outstanding. Reporting completion of a chunk that is not pending changes nothing and is reported as an error.",
 ["histories", "inputs", "fault_sequences"], "for every order and repetition of completion reports over any submissions, and every error during one",
 "Tests complete the one or two chunks of a submission once, in order, without duplicates or errors in the middle.",
 [C, S], [("complete_chunk", C), ("complete_chunk_raw", C), ("maybe_complete_submission", S)],
 state=[("submissions.chunks_done", "progress count"), ("submissions.chunks_total", "total")])

prop("C07", "Failed chunks are retried exactly as often as configured, then fail for good",
 "Each failure report for a pending chunk uses up exactly one retry of exactly that chunk, atomically with its consequences. While the retry budget is not used up the chunk stays pending and the reporter learns that it was not final; the report that reaches the configured maximum fails the whole submission, records that chunk with its input and the reported failure text as the cause, and marks the remaining pending chunks as skipped. A failure report for a chunk that is not pending changes nothing and is reported as an error.",
 ["histories", "configurations", "inputs"], "for every retry limit, every order of failure reports over chunks and submissions and every failure text",
 "Tests use one limit and one chunk; boundary (one too many or too few), wrong-chunk attribution and partial failure handling are not sampled.",
 [C, S, CS], [("retry_or_fail_chunk", C), ("fail_submission_notx", S), ("move_chunk_to_failed_chunks", C), ("skip_remaining_chunks", C), ("Completer::handle_message", CS)])

prop("C08", "Cancelling stops exactly one in-progress submission or changes nothing",
 "Cancelling a submission that is in progress makes it cancelled, with its pending chunks skipped, in one atomic step, and affects no other submission. Cancelling one that is already completed, failed or cancelled, or that does not exist, changes nothing, and the caller is told which of these it is; the same distinction reaches the producer client unchanged.",
 ["histories", "inputs"], "for every submission and every state it may be in when the cancellation arrives",
 "Tests cancel one submission per state on a database with no other submission; the mapping across the HTTP layer and the client is not covered end to end.",
 [S, PS, PC], [("cancel_submission", S), ("cancel_submission_notx", S), ("cancel_submission handler", PS), ("cancel_submission client", PC)])

prop("C09", "Status and lookups report the truth",
 "Asking for the status of a submission returns the state it is in, whichever of the four it is, with that submission's own data, and reports absence only when the submission exists in none of them; a failed one is returned with the chunk that caused the failure. Looking a submission up by prefix finds it in whichever state it is. Looking submissions up by metadata returns exactly the in-progress ones that match all the given pairs, and signals an error instead of silently truncating when there are more than the limit.",
 ["histories", "inputs", "schedules"], "for every submission, state, prefix, metadata query and limit, including state changes while the lookup runs",
 "Tests query small databases in a few states; they do not sample a state change between two queries of one lookup, nor every state for every lookup.",
 [S, PS], [("submission_status", S), ("lookup_id_by_prefix", S), ("lookup_ids_by_strategic_metadata", S), ("submission_status handler", PS)])

prop("C10", "Cleanup removes only finished data that is old enough",
 "Periodic cleanup deletes a completed, failed or cancelled submission only when the moment it finished is before now minus the configured maximum age, and deletes metadata and finished chunks only with that same age rule or together with their submission. It never deletes a submission that is in progress or a pending chunk or the metadata of a submission in progress. The deletions take effect together or not at all, and a failing run neither stops later runs nor goes unreported.",
 ["histories", "configurations", "crash_points"], "for every mix of submissions and ages, every configured maximum age and every crash or error during a cleanup",
 "One test runs one cleanup with one cut-off on a few rows.",
 [S, MAIN], [("cleanup_old", S), ("periodically_cleanup_old", S)])

prop("C11", "Storage errors are never swallowed and success means committed",
 "Every operation that changes stored state reports success to its caller only after the change has been committed; whenever a statement, a transaction or the commit fails, the operation reports failure and leaves no part of the change behind. This holds through every layer up to the reply sent to a producer.",
 ["fault_sequences", "crash_points", "histories"], "for every statement of every state-changing operation and every database error it may return",
 "The test database never fails; no test makes a statement, a begin or a commit return an error.",
 [C, S, PS, CS, CONN], [("complete_chunk", C), ("retry_or_fail_chunk", C), ("insert_submission", S), ("cancel_submission", S), ("run_tx", CONN)])

prop("C12", "Changes go through the one writer and multi-step changes through a transaction",
 "Every change to stored state is made through the single writer connection, and readers get connections through which the operations that change state cannot be called. An operation made of several changes is only ever run inside a transaction, and the operations that declare that they need a transaction or a writer cannot be called without one: such code does not compile.",
 ["programs", "schedules"], "for every call site in the workspace, and for every program that could be written against the connection types",
 "Tests only run programs that compile; they cannot show that wrong programs are rejected, nor enumerate call sites.",
 [DB, CONN, S, C], [("WriterConnection / Connection traits", DB), ("transaction and magic type-level markers", DB), ("Conn", CONN), ("DBPools", DB), ("bounds of the *_raw and *_notx functions", S)])

prop("C13", "The database is opened durable, consistent and with one writer",
 "Every connection the server opens uses write-ahead logging with at least normal synchronisation, enforces foreign keys and waits for locks instead of failing at once, on readers and writer alike, and exactly one connection can write. A database that exists is opened and migrated, never recreated or emptied, all migrations are applied before any work is accepted, and a failure to do so stops the start. The write-ahead log is checkpointed while the server runs, and a flush to the main file is attempted before an insertion is acknowledged.",
 ["configurations", "crash_points"], "for every start of the server on an absent or existing database and every pool connection",
 "Tests use a fresh temporary database and never restart on an existing one or inspect the settings of each connection.",
 [DB, MAIN, PS], [("db_options", DB), ("open_and_setup", DB), ("ensure_db_migrated", DB), ("db_connect_read_pool / db_connect_write_pool", DB), ("periodically_checkpoint_wal", DB)])

prop("C14", "Every statement agrees with the migrated schema",
 "Every database statement the system can issue refers only to tables, columns, functions and indexes that the applied migrations define, binds as many values as it has parameters, writes every column that must have a value and reads back columns of the kind its result expects. The tables forbid storing the same submission, chunk or metadata key twice. The migrations apply in order to an empty database, and keep existing rows when they change or rebuild a table.",
 ["inputs", "programs"], "for every statement in the source, reached or not by a test, and every prefix of the migration sequence",
 "Statements built at run time are only checked on paths a test takes; a statement on an error or rare strategy path is not.",
 [S, C, STRAT, MIG, "opsqueue/opsqueue_example_database_schema.db"], [("query!/query_as!/query_scalar! macros", S), ("QueryBuilder statements", STRAT), ("migrations", MIG)])

prop("C15", "A chunk is handed to at most one consumer at a time",
 "A chunk that is handed to a consumer was free at that moment and is reserved in the same indivisible step, so two consumers asking concurrently never both get it, and it is not offered to anyone while its reservation lasts. One request never yields more chunks than asked for, and every chunk it yields is reserved in the name of that consumer. An attempt that finds the chunk already reserved leaves the existing reservation as it is.",
 ["schedules", "histories"], "for every interleaving of any number of consumers asking for work",
 "Tests run one or two consumers in one fixed order; the race between look-up and reservation is not explored.",
 [RES, DISP, CST], [("Reserver::try_reserve", RES), ("Dispatcher::fetch_and_reserve_chunks", DISP), ("ConsumerState::fetch_and_reserve_chunks", CST)],
 state=[("reservations cache", "chunk -> expiry notification channel")])

prop("C16", "Every reservation ends, and its holder is told when it expires",
 "Every reservation lasts at most the configured time; a chunk whose reservation expired is offered again and its holder is notified. When a consumer's connection ends for whatever reason, all chunks it still holds become available again, and a chunk that turns out to be gone after it was reserved is released again. Released reservations, also those released with a delay, are really removed while the server runs.",
 ["histories", "schedules", "configurations", "fault_sequences"], "for every way a connection can end, every failure after a reservation, and every expiration time",
 "Tests wait for one expiry and one disconnect; error paths after a reservation and abnormal connection ends are not sampled.",
 [RES, DISP, CST, CC], [("Reserver::new / finish_reservation / run_pending_tasks_periodically", RES), ("Drop for ConsumerState", CST), ("Dispatcher::reserve_chunk", DISP)])

prop("C17", "An outcome is recorded before its chunk is released",
 "When a consumer reports a chunk as completed or failed, the outcome is written to the database before the chunk's reservation is released, and the reservation is released also when the write fails. A chunk that is finished for good is not handed out again on the basis of data read before it was finished, because its reservation outlives queries already running; a chunk to be retried is released at once.",
 ["schedules", "fault_sequences"], "for every interleaving of outcome processing with concurrent work requests and every write failure",
 "Tests process one outcome at a time with no query in flight.",
 [CS, DISP, RES, CST], [("Completer::handle_message", CS), ("Dispatcher::finish_reservation", DISP), ("Reserver::finish_reservation", RES)])

prop("C18", "Metadata counters are exact under concurrency",
 "The per-value counters of work in progress behave as the number of increments minus the number of decrements whatever the interleaving: no update is lost, a counter never goes below zero or disappears while it is positive, and a counter that returns to zero disappears with its key when the last value does. Reserving a chunk raises the counter of each metadata pair of its submission by one and finishing that reservation lowers the same counters by one. No interleaving makes these operations deadlock.",
 ["schedules", "histories"], "for every interleaving of any number of threads and any keys and values",
 "Two tests run paired increments and decrements with a few threads and only look at the end state; they cannot cover the schedules.",
 [META, DISP], [("MetaState::increment / decrement", META), ("MetaStateField::increment / decrement", META), ("Dispatcher::insert_metadata / remove_metadata", DISP)])

prop("C19", "Strategies offer every free chunk, and only free ones, in the promised order",
 "Whatever strategy a consumer picks, only pending chunks that are not reserved are offered, each at most once per query, and every such chunk is offered eventually as the query is read on: no strategy hides chunks. Oldest offers by ascending, newest by descending submission order, random starts at a random point and wraps around, and prefer-distinct offers chunks whose metadata value is least in progress first, falling back on its underlying strategy among equals.",
 ["inputs", "histories", "programs"], "for every nesting of strategies, every table contents, metadata and reservation state",
 "Tests compare query texts or results for small tables; a chunk lost only at a boundary of the random order or for submissions without the metadata key is not sampled.",
 [STRAT, DISP, MIG], [("Strategy::build_query and helpers", STRAT), ("opsqueue_is_reserved / opsqueue_metastate functions", DISP)])

prop("C20", "Every consumer request gets exactly one answer, its own",
 "For each request for work the server sends at most one answer, carrying that request's own identification and no other's, with the chunks that were reserved for it or the error that occurred; a request for which nothing is available is kept and tried again with the same parameters when new work is submitted. The first message of a connection is the initialisation with the server's own settings. Reports of outcomes are acted upon, each exactly once, and never answered as a request.",
 ["schedules", "inputs", "histories"], "for every sequence of client messages and every interleaving with new work arriving",
 "Tests send one request at a time and never interleave a waiting request with others.",
 [CC, CST], [("ConsumerConn::run / handle_incoming_msg / handle_maybe_fetch", CC)])

prop("C21", "Outcome reports reach the database faithfully",
 "Every completion or failure a consumer reports is handed on with exactly the reported chunk and the reported output or failure text, waits for room instead of being dropped when the system is busy, and leads to one attempt to record precisely that outcome. One report that cannot be recorded is logged and does not stop the processing of the following ones.",
 ["inputs", "histories", "fault_sequences"], "for every mix of reports from any number of consumers, every content and every database error",
 "Tests never fill the queue, never make one report fail in the middle of others and do not distinguish swapped arguments of equal type.",
 [CS, CST, CC], [("Completer::run / handle_message", CS), ("ConsumerState::complete / fail", CST), ("handle_incoming_msg", CC)])

prop("C22", "The consumer client matches every reply and survives disconnects",
 "The client gives each reply to exactly the caller whose request it answers, under any number of concurrent requests. When the connection is lost, every waiting caller gets an error rather than waiting forever, and the next call makes a new connection. When the server says that a reservation expired, or a caller has gone before its chunks arrived, those chunks are given back and not processed silently.",
 ["schedules", "fault_sequences"], "for every interleaving of concurrent requests, replies, cancellations and connection losses",
 "Tests run one client with sequential calls against a healthy server.",
 [CCL], [("InFlightRequests", CCL), ("Client::background_task", CCL), ("OuterClient", CCL)])

prop("C23", "Dead peers are detected by missed heartbeats, live ones are kept",
 "The server sends a heartbeat on each consumer connection every configured interval; on both ends the connection is given up exactly when more than the configured number of heartbeats in a row passed without any sign of life. Anything received from the other side counts as a sign of life and resets the count.",
 ["schedules", "configurations", "fault_sequences"], "for every interval and limit and every timing of messages",
 "Tests never let heartbeats go missing.",
 [CC, CCL], [("ConsumerConn::beat_heart", CC), ("Client::background_task", CCL)])

prop("C24", "Consumer messages survive encoding and both ends agree on them",
 "Every message either end can send is decoded by the other end to the same message with all its fields, because both directions use the same self-describing format in binary messages for encoding and decoding. A message that cannot be decoded is reported as an error and never silently taken for another or dropped.",
 ["inputs", "programs"], "for every message value in both directions",
 "Tests round-trip no messages; only variants used by an integration test are seen.",
 [CCO, CC, CCL], [("ClientToServerMessage / ServerToClientMessage conversions", CCO)])

prop("C25", "Producer client and server agree on the whole HTTP interface",
 "For every operation the producer client and server agree on method, path, parameters, body and result type, and every outcome the server can produce, including absent submissions, refused cancellations, too many matches and internal errors, arrives at the caller as that outcome and never as a success or a different error. The client repeats a request only on failures that may be transient, as connection failures, timeouts and server errors are, and gives each permanent error to the caller at once. Text that is put into a request path (a prefix that is not empty or made of dots only) arrives as the same text. An insertion with directly supplied contents and one with contents in object storage are both recorded with the right number of chunks.",
 ["inputs", "fault_sequences", "programs"], "for every operation, argument and server outcome",
 "Tests call the happy path of some operations on one server; status code mapping of each error is not sampled.",
 [PS, PC, PCO], [("ServerState::build_router and handlers", PS), ("producer Client", PC), ("is_ephemeral", PC)])

prop("C26", "Object storage keeps chunks apart and in order",
 "The location of a chunk's content is determined by, and different for, each combination of submission prefix (without empty path segments), chunk index and direction (input or output), and is the same for the writer and every reader. Storing a sequence of chunks stores the i-th under index i, starting at zero, and reports how many were stored, and storing a content again under the same location replaces it; retrieving yields exactly indexes 0 to count-1 in order. A failed store or retrieval is reported as an error with that chunk, never as empty or missing content.",
 ["inputs", "fault_sequences"], "for every prefix, number of chunks, direction and storage error",
 "The tests use a single in-memory or local store with few chunks and no errors.",
 [OS], [("ObjectStoreClient::store_chunks / retrieve_chunks / store_chunk / retrieve_chunk / chunk_path", OS)])

prop("C27", "Work is announced only after all of its contents are uploaded",
 "A submission whose contents live in object storage is announced to the server only after every chunk was stored successfully, under the same prefix and with exactly the number of chunks that was stored; if storing any chunk, or reading the producer's input, fails, nothing is announced and the producer gets the error. Each submission gets a prefix of its own.",
 ["fault_sequences", "crash_points", "inputs"], "for every number of chunks and every point at which input or storage fails",
 "The round-trip tests use a store that never fails.",
 [YP, OS, PYP], [("insert_submission_chunks / insert_submission_direct", YP)])

prop("C28", "A consumer reports success only after its result is safe, else a failure",
 "When a chunk's contents live in object storage the consumer stores the output under the chunk's own prefix and index before it reports completion, and otherwise sends the output with the report; if storing fails, completion is not reported and the error surfaces. If the user's processing raises, the chunk is reported as failed with the reason; a successful one is reported complete exactly once, with the output of that very chunk.",
 ["inputs", "fault_sequences", "histories"], "for every chunk, user function outcome and storage error",
 "Round-trip tests cover the happy path and one raising function.",
 [YC, PYC], [("complete_chunk_gilless / fail_chunk_gilless / run_per_chunk", YC), ("Consumer.run_each_op", PYC)])

prop("C29", "Producers see final states and receive results complete and in order",
 "Waiting for a submission ends as soon as its state is final, whichever final state it is: a completed one whose contents live in object storage yields the output of every chunk, each once, in chunk order; a failed one raises the failure with the submission and the causing chunk; a cancelled one is reported as such. While the submission is in progress the wait keeps polling with an interval that stays bounded, and errors of polling or of reading results reach the caller.",
 ["histories", "schedules", "fault_sequences"], "for every final state, chunk count and time at which it is reached",
 "Round-trip tests wait for submissions that complete or fail; waiting on a cancelled one and errors while polling are not sampled.",
 [YP, PYP, OS], [("blocking_stream_completed_submission_chunks / maybe_stream_completed_submission", YP), ("stream_completed_submission", PYP)])

prop("C30", "Splitting operations into chunks and joining results loses nothing",
 "The operations a producer submits are split into chunks of the requested size, none empty, only the last one possibly smaller, in order and without loss or duplication, whatever the kind of iterable and also when it is consumed lazily; an impossible chunk size is refused. Results are the decoded contents of the chunks joined in the same order. What is encoded is decoded by the counterpart of the same format.",
 ["inputs"], "for every iterable of operations, chunk size and serialization format, synchronous and asynchronous",
 "Round-trip tests use a few sizes that mostly divide evenly.",
 [PYP, PYC, PYCO], [("_chunk_iterator / _unchunk_iterator", PYP), ("encode_chunk / decode_chunk", PYCO)])

prop("C31", "Python sees the same values and the right error classes",
 "Every value that crosses between the native library and Python keeps each of its fields under its own name and every state or strategy keeps its identity. Each kind of native error is raised as the Python exception class documented for it, so a caller's handler for one kind never catches another, and no native error is turned into a success or an interpreter crash.",
 ["inputs", "programs"], "for every value and every error kind that can cross the boundary",
 "Round-trip tests see a few of the fields and few of the exceptions.",
 [YCO, YE, YP, YC, PYE], [("From/TryFrom conversions", YCO), ("CError -> PyErr conversions", YE)])

prop("C32", "Trace context travels from producer to consumer",
 "The trace context that a producer supplies with a submission is stored with it and handed, with the same trace identity and baggage and only with chunks of that submission, to the consumer that processes them. Absent or malformed trace information never makes an operation fail, and what one side writes into the carrier the other side reads from the same fields.",
 ["inputs", "programs"], "for every carrier contents, well-formed or not",
 "No test carries a trace context through the system.",
 [TR, PYT, PYP, PYC, S, PS], [("context_from_headers / context_to_json / json_to_carrier", TR), ("otel_trace_carrier column", S)])

prop("C33", "Blocking native calls never hold or lose the interpreter lock",
 "Native operations that wait release the interpreter lock while they wait and hold it whenever they touch Python objects, for synchronous and asynchronous calls alike. A pending interrupt is noticed while a blocking call waits and ends it with that interrupt; an asynchronous call runs to completion on the native runtime and delivers its one result or error to the Python event loop.",
 ["schedules", "programs"], "for every native operation exposed to Python and every interleaving with other Python threads",
 "Tests cannot show the absence of a deadlock or of a missed interrupt on schedules they do not run.",
 [YA, YP, YC, YCO], [("async_allow_threads / future_into_py", YA), ("check_signals_in_background / run_unless_interrupted", YCO)])

prop("C34", "The health check tells the truth and shutdown is orderly",
 "The health endpoint answers healthy only while the database could recently be used through the writer connection, and unhealthy before the first successful check, after a failed one and, at the latest once the check under way has ended, after shutdown has begun. A shutdown request reaches every part of the server: the listener stops accepting and finishes running requests, each open consumer connection is closed in order, and every background task ends.",
 ["schedules", "fault_sequences", "histories"], "for every time at which a shutdown is requested and every sequence of database failures and recoveries",
 "Tests start servers that stay healthy and are killed.",
 [SRV, MAIN, CC, CS, RES], [("serve_producer_and_consumer", SRV), ("app_watchdog", SRV), ("ping", SRV), ("main", MAIN)])

prop("C35", "Configuration means what it says everywhere",
 "Every configurable setting is used for exactly the thing it names, and takes effect: no part of the server uses a constant or another setting instead. The defaults for the command line and for embedding the server are the same values. A text that is not a valid value for a setting or limit is refused rather than replaced by another value.",
 ["configurations"], "for every setting and every value of it",
 "Tests run with defaults only, where a swapped or ignored setting is invisible.",
 [CFG, MAIN, SRV, CS, CC, RES], [("Config and its Default", CFG), ("main", MAIN)])

prop("C36", "Metrics count what they name",
 "Each counter is raised exactly when, and by exactly as much as, the event it names has been committed: submissions and chunks by their number, completions, retries and failures once each, by their own counters. The number of connected consumers goes up once and down once per connection however it ends, and the periodically refreshed gauges of the backlog show the stored numbers.",
 ["histories", "fault_sequences"], "for every history of operations, failing ones included, and every way a connection ends",
 "No test reads a metric.",
 [C, S, CS, CC, PROM], [("counter!/gauge!/histogram! sites", PROM)])

prop("C37", "Database callbacks are memory safe",
 "The functions the server registers inside the database engine check the number and presence of their arguments before touching them, treat the data they were registered with as exactly the type it was registered as, and release it exactly once with the matching destructor. They never unwind into or keep references into the engine beyond a call, and hand back memory only in a way the engine will free correctly.",
 ["inputs", "programs"], "for every statement calling the functions with any arguments and every open and close of a connection",
 "Memory errors in callbacks need not show in a passing test.",
 [DISP], [("Dispatcher::register_lookup functions and callbacks", DISP)])

prop("C38", "Identifiers survive every conversion",
 "Submission identifiers and chunk indexes keep their value through every conversion between the database, the wire, the native and the Python side, for the whole range the system can generate; a value that does not fit is reported as an error and is never truncated or wrapped to another identifier. Identifiers generated later on the same server sort after earlier ones in the database, and the time inside an identifier is read back as it was put in.",
 ["inputs"], "for every identifier and index value",
 "Tests only use small freshly generated values.",
 [S, C, YCO, "opsqueue/src/common/mod.rs"], [("SubmissionId / ChunkIndex / ChunkCount conversions", S), ("u63", S)])

# --- properties this technique family does not decide ---
prop("C90", "All submitted work is eventually finished",
 "If consumers keep connecting and each chunk's processing eventually succeeds or fails, every submission eventually becomes completed or failed.",
 ["schedules", "fault_sequences", "histories"], "for every fair schedule of consumers, network and timers",
 "Liveness over unbounded fair executions is beyond any finite test.", [CC, DISP, RES], [("notification of new work, retry and expiry", CC)])
prop("C91", "Random strategy spreads consumers evenly over the backlog",
 "Over many requests the random strategy picks each pending chunk with about the same probability whatever their identifiers.",
 ["inputs", "histories"], "for every contents of the backlog, over the random source", "Tests see a few draws of one backlog.", [STRAT, MIG], [("random_order column and random offset", STRAT)])
prop("C92", "Work requests stay fast however large the backlog",
 "The time to answer a request for work and the memory it takes do not grow with the number of pending chunks or finished submissions.",
 ["inputs", "histories"], "for every size of the tables", "Tests use tiny tables.", [STRAT, DISP], [("indexes used by strategy queries", STRAT)])
prop("C93", "Generated identifiers never collide",
 "Two submissions accepted by the same server never get the same identifier, across restarts and clock changes.",
 ["schedules", "crash_points"], "for every number of submissions per millisecond and every clock behaviour", "Tests generate few identifiers with a normal clock.", [S], [("snowflake generator", S)])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
