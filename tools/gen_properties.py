#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (kept as a generator so the entries stay uniform)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

MEM="provider/inmemorystore/inmemory_store.go"; LDB="provider/leveldbstore/leveldb_store.go"
PG="provider/postgresstore/postgres_store.go"; REM="provider/remotestore/remote_store.go"
SRV="pkg/grpc/rangedbserver/server.go"; PB="pkg/grpc/rangedbpb/translate.go"; API="pkg/rangedbapi/api.go"
WS="pkg/rangedbws/websocket_api.go"; UI="pkg/rangedbui/ui.go"; BC="pkg/broadcast/broadcaster.go"
RS="pkg/recordsubscriber/record_subscriber.go"; RSC="pkg/recordsubscriber/config.go"; ES="provider/eventstore/eventstore.go"
ENC="provider/encryptedstore/encrypted_store.go"; ENI="provider/encryptedstore/decrypting_record_iterator.go"
ENS="provider/encryptedstore/decrypting_record_subscriber.go"; EE="pkg/crypto/eventencryptor/event_encryptor.go"
GCM="pkg/crypto/aes/gcm.go"; CBC="pkg/crypto/aes/cbc_pkcs5_padding.go"; XC="pkg/crypto/xchacha20poly1305/xchacha20poly1305.go"
KM="pkg/crypto/provider/inmemorykeystore/inmemory_keystore.go"; KC="pkg/crypto/provider/cachekeystore/cache_keystore.go"
KP="pkg/crypto/provider/postgreskeystore/postgres_keystore.go"; KD="pkg/crypto/provider/dynamodbkeystore/dynamodb_keystore.go"
KV="pkg/crypto/provider/vaultkeystore/hashicorp_vault_keystore.go"
MAIN="cmd/rangedb/main.go"; MERGE="merge_record_iterators.go"; PUBR="publish_record.go"; ITER="record_iterator.go"; STORE="store.go"
JS="provider/jsonrecordserializer/json_record_serializer.go"; JIO="provider/jsonrecordiostream/json_record_io_stream.go"
NIO="provider/ndjsonrecordiostream/ndjson_record_io_stream.go"; MIO="provider/msgpackrecordiostream/msgpack_record_io_stream.go"
MS="provider/msgpackrecordserializer/msgpack_record_serializer.go"
STATS="pkg/projection/aggregate_type_stats.go"; SNAP="pkg/projection/disk_snapshot_store.go"; CQ="pkg/cqrs/cqrs.go"; ERR="pkg/rangedberror/errors.go"

p("C01","Optimistic saves and deletes apply only at the exact expected position",
 "In the in-memory, LevelDB and PostgreSQL stores an optimistic save or an optimistic stream delete changes the store only after the caller's expected sequence number was found exactly equal to the stream's current last sequence number, read inside the same exclusive critical section (store lock, or database transaction holding that stream's advisory lock) that makes the change. On a mismatch nothing is changed and the caller gets an unexpected-sequence-number error carrying the expected and the actual number. The encrypting store, remote client, gRPC server and HTTP API hand the caller's expected number on unchanged and use the optimistic operation exactly when the caller supplied a number.",
 ["schedules","inputs","histories"],"every interleaving of concurrent saves and deletes on a stream, every expected number (including zero and very large ones), every history of the stream",
 "The tests run a handful of sequential conflicts; a check done outside the lock, with the wrong operator, or on a value read earlier only fails under a particular interleaving.",
 [MEM,LDB,PG,ENC,REM,SRV,API],
 [("equality check against the current stream position under the store lock","%s: saveEvents/saveEvent, OptimisticDeleteStream"%MEM),("same, inside a LevelDB transaction","%s: saveEvent, OptimisticDeleteStream"%LDB),("pg_advisory_xact_lock + MAX(StreamSequenceNumber) in one transaction","%s: lockStream, validateStreamSequenceNumber"%PG),("pass-through","%s, %s, %s, %s"%(ENC,REM,SRV,API))],
 [("stream position","last StreamSequenceNumber of a stream","streams map / $s$ keys / record table")],["Store.OptimisticSave","Store.OptimisticDeleteStream"])
p("C02","A save that fails leaves the store exactly as it was",
 "When a save of one or more events returns an error in the in-memory, LevelDB or PostgreSQL store (empty or mixed-aggregate batch, cancelled context, sequence conflict, serialisation or storage failure at any event of the batch), no event of that batch stays stored in any index, no stream or in-process global position stays consumed, and no subscriber is told of it. When it returns success, every event of the batch has been stored.",
 ["inputs","fault_sequences","histories"],"every batch, every position in the batch at which any step can fail, every prior content of the store and any stream name",
 "Tests fail one chosen event in one chosen way on default stream names; the failure positions, causes and stream names multiply.",
 [MEM,LDB,PG],[("undo of the batch under the lock","%s: saveEvents, removeRecentEvents"%MEM),("transaction discard","%s: saveEvents"%LDB),("transaction rollback","%s: transactionalSaveEvents"%PG)],
 [("store contents","records, streams, aggregate types, record data, global counter","in-memory fields / LevelDB keys / record table")],["Store.Save","Store.OptimisticSave"])
p("C03","Every storage transaction is ended on every path, and success means committed",
 "Every LevelDB or PostgreSQL transaction a store operation opens is committed or else discarded/rolled back on every path out of that operation, error paths included. All writes of the operation go through that transaction and happen before the commit, a failed write is never followed by a commit, and the operation reports success only if the commit succeeded.",
 ["fault_sequences","inputs","histories"],"every failure point between opening and committing a transaction, in every store operation",
 "A leaked transaction blocks the whole LevelDB store or exhausts the connection pool, but only after the particular error path was taken; tests do not reach most of them and PostgreSQL is not available to them.",
 [LDB,PG],[("OpenTransaction / Commit / Discard","%s: saveEvents, OptimisticDeleteStream"%LDB),("BeginTx / Commit / Rollback","%s: transactionalSaveEvents, OptimisticDeleteStream"%PG)])
p("C04","Sequence numbers are consecutive per stream and global numbers never reused",
 "Each event saved to the in-memory, LevelDB or PostgreSQL store gets a stream sequence number exactly one greater than the stream's previous event (1 for the first, consecutive inside a batch), and the save returns the number given to its last event. Its global sequence number is one greater than a stored counter (or comes from the database's sequence) that is updated atomically with the event and is never derived from the remaining records nor moved by deleting a stream, so a number once given to a stored event is never given to another.",
 ["histories","schedules","inputs"],"every history of saves, failed saves and stream deletes, and every interleaving of them",
 "Tests check short fixed histories; reuse after deletes or gaps after failures need specific multi-step histories.",
 [MEM,LDB,PG],[("global counter","%s: saveEvent; %s: saveEvent ($gsn$ key); %s: SERIAL column"%(MEM,LDB,PG)),("position + 1","%s, %s: saveEvent; %s: eventRecordsToBatchRecords"%(MEM,LDB,PG))],
 [("global counter","last global sequence number handed out","globalSequenceNumber field / $gsn$ key / SERIAL column")],["Record.GlobalSequenceNumber","Record.StreamSequenceNumber","return value of Save/OptimisticSave"])
p("C05","Every event is in every index a read uses, and a delete removes it from all",
 "In the in-memory and LevelDB stores each saved event is entered, in one atomic step, under its own stream name, aggregate type and sequence numbers in each index that reads consult (all events, stream, aggregate type), and deleting a stream removes exactly that stream's events from all of these and nothing else; in PostgreSQL the insert fills every column the reads select or filter on and the delete is filtered by equality on the stream name. Index keys are built the same way by the code that writes, reads and deletes them, and an index lookup for one stream or aggregate type never yields entries of another, whatever characters the names contain.",
 ["histories","inputs"],"every history of saves and deletes, every stream name and aggregate type",
 "Tests use tidy names and check a few reads after a delete; a missing index entry or a key that collides with another name shows only for particular names and reads.",
 [MEM,LDB,PG],[("four indexes in one critical section","%s: saveEvent, OptimisticDeleteStream"%MEM),("batch of $gsn$/$s$/$at$/$all$ keys in one transaction","%s: saveEvent, OptimisticDeleteStream, getEventsByPrefix, getEventsByLookup"%LDB),("record table columns","%s: batchInsert, reads"%PG)])
p("C06","Reads return exactly the records at or after the requested position, in order",
 "Reading all events, events of given aggregate types, or events of one stream yields only records of that selection whose global (for a stream: stream) sequence number is greater than or equal to the requested start, skips a record only because it is below the start, and yields them in ascending sequence order, also when several aggregate types are merged. This holds for the in-memory, LevelDB and PostgreSQL stores and for whatever stands in front of them (encrypting store, remote client and server), which pass the requested start and selection on unchanged.",
 ["inputs","histories"],"every start position (0, exact hits, beyond the end), every selection, every store content",
 "Tests read from a few positions on small stores; boundary mistakes (off by one, wrong number compared, unordered merge) need specific positions or contents.",
 [MEM,LDB,PG,MERGE,REM,SRV,ENC],[("start filter","%s: recordsByIDs; %s: getEventsByPrefix/getEventsByLookup; %s: WHERE/ORDER BY"%(MEM,LDB,PG)),("ordered merge","%s"%MERGE)])
p("C07","A read that cannot deliver everything says so",
 "Whenever producing a record iterator's next record fails (storage read, missing or undecodable record, a database row or scan error, a transport error, a decryption error), the iterator ends with that error instead of ending as if complete, and without presenting a record that failed to decode or decrypt. Merging several iterators keeps their errors.",
 ["fault_sequences","inputs"],"every point of a read at which the backing storage, decoder, network or key store can fail",
 "Tests inject a few decode failures; silent truncation on a storage error in mid-iteration looks like a shorter, valid result.",
 [MEM,LDB,PG,REM,ES,MERGE,ENI,JIO,NIO,MIO],[("ResultRecord.Err","all producers of rangedb.ResultRecord"),("iterator error checks","%s: iter.Error(); %s: rows.Err()"%(LDB,PG))])
p("C08","Code that consumes a record iterator reports its error",
 "Every component that drains a record iterator (gRPC server reads, subscription catch-up, record file/stream writers, remote live feed, stream counters) checks the iterator's error after the iteration ended and reports or logs it; none of them reports success for a read that ended in an error. Iterator consumers whose interface has no way to report an error (aggregate loading, bounded page reads) are out of scope.",
 ["fault_sequences","inputs"],"every iterator and every point at which it can fail",
 "Existing tests mostly return the error together with a record, which the real iterator never does; the real failure mode (Next is false, Err set) is not exercised.",
 [SRV,RS,JIO,NIO,MIO,ES,REM],[("Err() after the loop","%s: Events/EventsByStream/EventsByAggregateType; %s: writeRecords; io streams: Write"%(SRV,RS))])
p("C09","Record iterators always end and never outlive a cancelled reader",
 "The producer behind every record iterator closes it exactly once on every path (exhausted, failed, cancelled), publishes nothing after closing, and for reads that were given a context every attempt to hand over a record or an error gives up once that context is cancelled. Reading a bounded number of records cancels the underlying read and drains it.",
 ["schedules","fault_sequences","inputs"],"every point at which a consumer stops reading, every error point, every schedule of producer and consumer",
 "Tests drain their iterators; abandoned consumers and cancellation at a particular point leak goroutines that keep the store's lock.",
 [MEM,LDB,PG,REM,ES,MERGE,PUBR,STORE,JIO,NIO,MIO],[("close on all exits","producers: defer close(resultRecords)"),("cancellable hand-over","%s: PublishRecordOrCancel"%PUBR),("cancel and drain","%s: ReadNRecords"%STORE)])
p("C10","The caller's context governs every store operation",
 "A save or stream delete called with an already cancelled context changes nothing and returns an error, in the in-memory, LevelDB and PostgreSQL stores. Every store, remote client and server operation that is given a context (or a request carrying one) passes that context, or one derived from it, to each blocking call made on behalf of the operation, never a detached or discarded one.",
 ["inputs","schedules"],"every operation and every moment of cancellation up to the first effect",
 "Tests cancel before a few calls; a detached context only shows when a caller cancels or times out in mid-operation.",
 [MEM,LDB,PG,REM,SRV,API,WS,UI,ENC,ES],[("ctx.Done() checks before effects","%s, %s"%(MEM,LDB)),("BeginTx/QueryContext/ExecContext with ctx",PG),("stream.Context()/r.Context()","%s, %s, %s"%(SRV,API,WS))])
p("C11","Shared state is only touched under its lock, and locks never wedge",
 "In the stores, key stores, event-type registry and projections, a mutable field that is used from more than one goroutine is read only while that object's mutex is held and written only while it is held exclusively. Each mutex acquired is released exactly once on every path (including by the goroutine it was handed to), is never acquired again by a goroutine that already holds it, and is never held across a wait for another party that cannot be cancelled.",
 ["schedules"],"every schedule of concurrent readers, writers, iterators and subscribers",
 "The race detector sees only executed interleavings; recursive read-locking deadlocks only when a writer arrives in between.",
 [MEM,LDB,KM,STATS,"event_identifier.go"],[("sync.RWMutex per store/projection","%s, %s, %s, %s"%(MEM,LDB,KM,STATS))])
p("C12","Catch-up subscriptions lose nothing and repeat nothing at the hand-over",
 "A subscription started from a position delivers every selected record at or after that position exactly once, in order: it first delivers stored records, then registers for live records, then delivers the stored records that arrived in between (from the position after the last one delivered), and only then delivers live ones, skipping exactly those already delivered. The stored-record source and the live registration of one subscription select the same events, and unregistration mirrors registration.",
 ["schedules","histories","inputs"],"every interleaving of saves with the start of a subscription, every start position",
 "The window between catch-up and registration is a few microseconds; tests cannot place a save in it, nor compare the two selections for all types.",
 [RS,RSC,WS,SRV,MEM,LDB,PG,REM],[("read, subscribe, read again, then work","%s: StartFrom"%RS),("already-sent filter","%s: work, recordHasAlreadyBeenSent, writeRecord"%RS),("paired configuration","%s"%RSC)],
 [("last delivered number","global number of the last record handed to the consumer",RS)])
p("C13","Subscribers hear of every saved event exactly once, after commit, in order",
 "A successful save in the in-memory, LevelDB or PostgreSQL store announces each event of the batch exactly once, in batch order, and only after the batch is durably committed; a failed save announces nothing, and an announcement problem does not turn a committed save into an error. In the in-memory and LevelDB stores announcements of different saves are made inside the section that orders the saves, so they follow the global order; the PostgreSQL notification listener survives connection loss and undecodable notifications.",
 ["schedules","fault_sequences","histories"],"every interleaving of concurrent saves and every failure between write and announcement",
 "Tests save sequentially; out-of-order announcements from concurrent savers are dropped by the already-sent filter only under a particular schedule.",
 [MEM,LDB,PG],[("broadcaster.Accept after commit","%s, %s: saveEvents; %s: batchNotifySubscribers, listen"%(MEM,LDB,PG))])
p("C14","A slow or gone subscriber cannot hold up the others, and shutdown releases all",
 "The broadcaster hands each record to every current all-events subscriber and every subscriber of the record's aggregate type, waits for any one of them only for a bounded time, and then stops and removes that one while the others still get the record. Its subscriber sets are touched by one goroutine only; closing it stops every subscriber, and calls made on a closed broadcaster return instead of blocking forever. A server that waits on behalf of a subscription also wakes up when the subscription ended.",
 ["schedules","fault_sequences"],"every mix of fast, slow and dead subscribers, every moment of closing",
 "Stuck subscribers and close races need particular schedules; tests of the package are timing-dependent and excluded from the stable list.",
 [BC,RS,SRV,WS],[("single owner goroutine, timeout per subscriber","%s: start, broadcastRecord"%BC),("Done channel","%s: work; %s: SubscribeTo*"%(RS,SRV))])
p("C15","Events reach the inner store encrypted and readers get them decrypted",
 "The encrypting store passes an event to the wrapped store only after encrypting it successfully, for every event of the batch, on both kinds of save, and returns the encryption error without saving anything otherwise. Every record it returns (all kinds of reads) or delivers to a subscriber has been through decryption, a failed decryption ends a read with that error, and encryption or decryption under a subject's key always uses the key stored for that subject, creating one only when the key store says there is none.",
 ["inputs","fault_sequences"],"every event type and batch, every failure of cipher or key store",
 "Tests use one event type and one operation at a time; an operation or failure path that forgets to encrypt stores personal data in clear without any error.",
 [ENC,ENI,ENS,EE,"pkg/eventparser/event_writer.go"],[("Encrypt before delegation","%s: Save, OptimisticSave"%ENC),("decrypting iterator/subscriber","%s, %s"%(ENI,ENS)),("key lookup and creation","%s: engine"%EE)])
p("C16","Ciphers use a fresh random nonce and fail cleanly on bad input",
 "Every encryption draws a new nonce or initialisation vector of the full required size from a cryptographically secure reader (unless a reader was injected), uses it for exactly that encryption and stores it with the cipher text; no key, nonce or IV is constant. Decryption of any string (too short, truncated, wrong block size, bad padding, tampered) returns an error rather than panicking, and no cipher text or plain text is returned with an error.",
 ["inputs"],"every key, plain text and cipher text string, including malformed ones",
 "Tests decrypt a few malformed strings; nonce reuse is invisible to round-trip tests.",
 [GCM,CBC,XC],[("io.ReadFull(rand, nonce)","%s, %s, %s: encrypt"%(GCM,CBC,XC)),("length checks before slicing","decrypt")])
p("C17","Encryption keys are never overwritten, and deleted keys never come back",
 "In every key store, setting a key fails and changes nothing when the key is empty or the subject already has (or had) a key; the existence check and the write are one atomic step or one conditional request where the backend offers it, and an error while checking is never taken as absence. Deleting leaves a tombstone: later reads report deletion, an absent subject reports not-found, and a deleted or absent key is never returned as a usable key; the two-level cache writes and deletes the authoritative store first.",
 ["histories","schedules","fault_sequences"],"every history of set/get/delete, concurrent sets, and every backend failure",
 "The remote key stores cannot run in the test environment at all; overwriting a key destroys data only when the backend fails at the wrong moment.",
 [KM,KC,KP,KD,KV],[("check-then-set under lock",KM),("UNIQUE constraint + INSERT, UPDATE tombstone",KP),("attribute_not_exists condition",KD),("get-before-set",KV),("second store first",KC)])
p("C18","Records and requests keep every field across every boundary",
 "Whenever a record, event or request is translated between representations (record to protobuf and back, save request to stored event, stored row or notification to record, HTTP body to event record, subscription record to client message) each field of the source is carried into the corresponding field of the result, none is dropped, swapped, narrowed or replaced by another, for every field the two representations share.",
 ["inputs"],"every record and request",
 "Tests compare a few records whose fields are often equal to each other (e.g. both sequence numbers), so swapped or dropped fields can go unnoticed.",
 [PB,SRV,REM,PG,MEM,LDB,API,ENC],[("field-by-field translation","%s: ToPbRecord, ToRecord; %s: batchInsert, readResultRecords, listen; %s, %s"%(PB,PG,SRV,REM))])
p("C19","Errors keep their meaning across the gRPC boundary",
 "A cancelled context, a missing stream and an unexpected sequence number reported by the store behind the gRPC server arrive at the remote client's caller as the same well-known errors, the last with the same expected and actual numbers; any other failure arrives as an error and never as success. The texts the client looks for are the ones the server's side produces.",
 ["inputs","fault_sequences"],"every store error and every remote operation that can meet it",
 "The remote store tests are timing-dependent and cover few operations; the match relies on strings that two packages must keep in step.",
 [REM,SRV,ERR,STORE],[("error text matching","%s: rpcErr* constants"%REM),("error texts","%s: UnexpectedSequenceNumber; %s: ErrStreamNotFound"%(ERR,STORE))])
p("C20","Integers in events and metadata survive exactly",
 "JSON event data and metadata of unknown type that pass through the system (HTTP and gRPC saves, serializers, stored rows and notifications, remote reads) are never decoded into floating-point numbers, so integers beyond 2^53 are preserved exactly, and sequence numbers are parsed and formatted as full 64-bit unsigned integers.",
 ["inputs"],"every numeric value in event data, metadata, headers and query strings",
 "Tests use small numbers, which floats represent exactly.",
 [JS,JIO,NIO,SRV,API,PB,PG,WS],[("decoder.UseNumber()","%s, %s, %s"%(JS,JIO,NIO)),("ParseUint(…, 10, 64)","%s, %s"%(API,WS))])
p("C21","Caller-supplied values never become SQL text",
 "Every SQL statement the PostgreSQL store and key store execute has a text made only of program constants (with generated placeholder lists), every caller-supplied or stored value is passed as a bound parameter, and the number and order of placeholders matches the parameters bound.",
 ["inputs"],"every stream name, aggregate type, event, key and metadata value",
 "PostgreSQL is not available to the tests, and an injection needs a hostile name.",
 [PG,KP],[("constant statements with $n parameters","%s, %s"%(PG,KP))])
p("C22","HTTP responses report the real outcome, and rejected requests have no effect",
 "The HTTP API answers a save or delete with a success status only if the store operation succeeded, with conflict, not-found, bad-request or server-error statuses for exactly the corresponding failures, writes one status per request, and does nothing more after a failure response. A request that fails validation (content type, body, expected number) never reaches the store, and the reported sequence number is the store's.",
 ["inputs","fault_sequences"],"every request and every store outcome",
 "Tests try single failures; a missing return after an error response performs the operation anyway and looks fine to a client.",
 [API],[("early returns and error mapping","%s: saveEvents, deleteStream, writeFailedResponse"%API)])
p("C23","Command dispatch loads the command's stream and returns exactly the saved events",
 "Dispatching a command loads the aggregate from the whole stream of that command before handling it, saves each resulting event to that event's own stream, in order, and returns exactly those events whose save succeeded. An unknown command has no effect.",
 ["inputs","fault_sequences"],"every command, aggregate and pattern of save failures",
 "Tests cover a success and one failing store.",
 [CQ],[("Dispatch, saveEvents",CQ)])
p("C24","The web UI escapes all stored data",
 "Everything the web UI renders from stored events, names or requests goes through contextually escaping HTML templates; no value reaches a page through a type or function that bypasses escaping, or is written to an HTML response directly.",
 ["inputs"],"every event, stream name, aggregate type and request",
 "Tests render benign data.",
 [UI,"pkg/rangedbui/functions.go","pkg/rangedbui/templates"],[("html/template","%s: RenderTemplate"%UI)])
p("C25","Credentials and keys never reach logs, output, errors or file names",
 "Database passwords and connection strings, cloud credentials, vault tokens and encryption keys flow only into the calls that need them (opening connections, requests, ciphers, key stores) and never into log output, standard output, error texts, HTTP responses or file paths.",
 ["configurations","inputs"],"every configuration and every failure path that formats a message",
 "Tests do not inspect logs and paths, and run without those back ends.",
 [MAIN,PG,KP,KD,KV,ES,EE,"provider/postgresstore/config.go"],[("data source / connection strings stay local","%s: getStore; config.go: DataSourceName"%MAIN)])
p("C26","The server shuts down in order and always closes its store",
 "On an interrupt the server process stops accepting gRPC and HTTP traffic and its live-feed servers before it closes the store, the store is always closed, and an orderly stop of a listener is not treated as a fatal error that ends the process before the store is closed.",
 ["schedules","configurations"],"every store choice and every order in which the listeners return",
 "main is not tested; the process exit races with the shutdown sequence.",
 [MAIN],[("shutdown sequence","%s: main, serveHTTP, serveGRPC, getStore"%MAIN)])
p("C27","Iterators, rows, responses, files and derived contexts are always released",
 "Every storage iterator, SQL result set, HTTP response body, file, network connection and cancellable derived context a function obtains is released on every path out of it (or handed over to an owner that releases it), including error paths, and is not used after release.",
 ["fault_sequences","inputs"],"every path, error paths in particular",
 "Leaks accumulate slowly and only on rarely taken paths.",
 [LDB,PG,KP,KV,SNAP,UI,WS,RS,REM,ES],[("defer Release/Close/cancel","throughout")])
p("C28","Statistics count each event once and snapshots are consistent",
 "The aggregate-type statistics count each accepted record exactly once, in the total, under its type, and as the latest position, as one atomic update; a saved snapshot is a consistent copy of all of them, loading one restores all of them (and leaves the projection usable), and the server resumes from the position after the latest one only when the snapshot was loaded. A failure to write a snapshot completely is reported.",
 ["schedules","histories","fault_sequences"],"every interleaving of updates, reads and snapshots, every snapshot content",
 "Tests run the projection single-threaded.",
 [STATS,SNAP,API],[("mutex over the data struct",STATS),("resume position","%s: initProjections"%API)])
# ---- properties that are outside the reach of static analysis
p("N01","Acknowledged saves survive a crash",
 "After a save returned success, its events are readable after the process or machine crashed at any later point, and after a crash during a save either all or none of its events are readable.",
 ["crash_points"],"every crash point during and after a save","Tests never crash the process.",
 [LDB,PG],[("LevelDB / PostgreSQL commit","third-party storage engines")])
p("N02","Global order is gap-free for concurrent PostgreSQL readers",
 "A reader of the PostgreSQL store that has seen global sequence number n never later sees a record with a smaller number appear, even while transactions commit in a different order than their numbers were drawn.",
 ["schedules"],"every commit order of concurrent transactions in several processes","PostgreSQL is not available, and the order is decided inside the database.",
 [PG],[("SERIAL column",PG)])
p("N03","Serialising and deserialising any event gives back an equal event",
 "For every event value that can be bound, each serializer and stream format returns an equal record after a round trip.",
 ["inputs"],"every event value of every user-defined type","User types are unbounded; tests sample a few.",
 [JS,MS,JIO,NIO,MIO],[("encoders/decoders","third-party encoders driven by reflection")])
p("N04","Event identifiers are unique",
 "No two stored events ever carry the same event identifier.",
 ["histories"],"all events ever stored","Probabilistic guarantee of random UUIDs.",
 ["pkg/shortuuid/short_uuid.go"],[("random UUIDs","pkg/shortuuid")])
p("N05","Live delivery keeps up with the configured timing",
 "A live subscriber receives each saved event within a bounded time, and a subscriber that drains its buffer in time is never disconnected.",
 ["schedules"],"every load and scheduling","Depends on run-time speed, buffer sizes and load.",
 [BC,RS],[("buffers and timeouts",BC)])
p("N06","Generated aggregate, command and event code implements the definitions",
 "Code produced by the generators for any definition compiles and implements the required interfaces, and encrypts and decrypts exactly the fields marked as personal data.",
 ["programs"],"every set of event definitions","The generators' output depends on run-time template execution over arbitrary input.",
 ["pkg/eventparser/event_writer.go","pkg/aggregategenerator/write_aggregate.go","pkg/commandgenerator/write_command.go"],[("text templates","generators")])
ids=[x["id"] for x in P]; assert len(ids)==len(set(ids))
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
