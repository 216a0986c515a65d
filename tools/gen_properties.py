#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
        "mechanism": [{"name": a, "where": b} for a, b in mech],
        "observe_at": list(observe), "hook_needed": hook}})

p("C01", "Encoding a record yields exactly its set attributes at their VanFlow codes",
  "Encoding a record of any VanFlow record type, given by value or by pointer, yields exactly the record type code plus one entry per field that holds a non-zero value (optional fields: a non-nil pointer to a non-zero value), each under the VanFlow attribute code and wire type of that field, and nothing else. A record with an empty identity, a timestamp before the epoch, nil or an unregistered type is rejected with an error, and encoding never panics.",
  ["inputs"], "all values of all 15 record types, all subsets of set fields",
  "The tests encode a handful of Site, Router and Link records; most record types and attribute codes are never encoded by any test.",
  ["encoding/encoder.go", "encoding/encoding.go", "records.go", "base.go"],
  [("Encode / typeEncoding.encode / field encoders", "encoding/encoder.go, encoding/encoding.go"), ("vflow struct tags and init registrations", "records.go")],
  [("encodings", "registry from Go type to field encoders", "encoding/encoding.go")], ["encoding.Encode"])

p("C02", "Decoding an encoded record reproduces it",
  "For every record of a VanFlow record type that can be encoded, decoding the encoded attribute set succeeds and yields a record of the same type whose fields all equal the original's, counting a pointer to a zero value as unset and timestamps as equal at microsecond resolution. Re-encoding the decoded record yields the same attribute set.",
  ["inputs"], "all values of all 15 record types",
  "Round trips are tested for a few records of three types with a few fields set.",
  ["encoding/encoder.go", "encoding/decoder.go", "encoding/encoding.go", "records.go", "base.go"],
  [("Encode/Decode pair over the same field table", "encoding/encoding.go"), ("Time.EncodeRecordAttribute/DecodeRecordAttribute", "base.go")],
  [], ["encoding.Encode", "encoding.Decode"])

p("C03", "Decoding an attribute set is total, strict and field-exact",
  "For every attribute set, whatever its keys and values (null, unknown and wrongly typed ones included), decoding returns a record or an error and never panics. It succeeds exactly when the type code is present and registered, required attributes are present, and every attribute known to that type has its field's wire type (timestamps at most the largest signed 64-bit value); then each known attribute is stored in its own field, unknown ones are ignored and fields without an attribute stay unset.",
  ["inputs"], "all attribute maps (arbitrary dynamic keys and values) for all record types",
  "Attribute sets come from remote peers; the tests try about twenty maps and never a null value or a wrongly typed ordinary field.",
  ["encoding/decoder.go", "encoding/encoding.go", "base.go", "records.go"],
  [("Decode / typeEncoding.decode / field decoders", "encoding/decoder.go, encoding/encoding.go")],
  [], ["encoding.Decode"])

p("C04", "The record registry stays one-to-one and rejects bad registrations whole",
  "Registering a record type either succeeds, after which exactly the old registrations plus the new type and code are registered, or panics leaving the registry as it was and not locked. It panics when the code or the type is already registered or when two fields of the type share an attribute code, so no type has two codes, no code two types, and no attribute code two fields.",
  ["inputs", "histories"], "all codes and record values against every reachable registry",
  "The tests try five bad registrations and do not look at the registry afterwards.",
  ["encoding/encoding.go"], [("MustRegisterRecord, newEncodingForType", "encoding/encoding.go")],
  [("encodings, decodings", "type to encoding and code to encoding", "encoding/encoding.go")], ["encoding.MustRegisterRecord", "encoding.Encode", "encoding.Decode"])

p("C05", "Timestamps keep their microsecond or are refused",
  "A record timestamp encodes as an unsigned 64-bit count of microseconds since the epoch exactly when it is set and not before the epoch; an unset timestamp is reported as not set and an earlier one as an error. Decoding accepts exactly unsigned 64-bit values up to the largest signed one and yields the instant with that microsecond count; anything else is an error that leaves the timestamp unchanged.",
  ["inputs"], "all time values and all dynamic attribute values",
  "Five sample timestamps are tested.",
  ["base.go"], [("Time.EncodeRecordAttribute, Time.DecodeRecordAttribute", "base.go")], [], ["vanflow.Time"])

p("C06", "Decoding a received message is total and chosen by its subject",
  "For every message, with absent properties or subject, missing, null or wrongly typed application properties and any body, message decoding returns a value or an error and never panics. The subjects BEACON, HEARTBEAT, FLUSH and RECORD yield exactly the corresponding message type, every other message an error; application properties of the wrong type are read as zero values.",
  ["inputs"], "all AMQP messages: any subject, application properties and body",
  "Messages come from the network; ten samples are tested.",
  ["messages.go"], [("Decode, DecodeBeacon, DecodeHeartbeat, DecodeFlush, DecodeRecord, decodeRecords", "messages.go")], [], ["vanflow.Decode"])

p("C07", "Messages survive encoding and decoding with their addressing",
  "Encoding then decoding a beacon, heartbeat or flush message gives back its payload fields, with subject and destination as the protocol fixes them (beacons to mc/sfe.all, heartbeats to mc/sfe.<identity>, flushes keeping destination and reply-to). A record message keeps its destination and the same number of records in the same order, each equal to what encoding and decoding that record alone gives; it is refused as a whole if any record cannot be encoded.",
  ["inputs"], "all messages of the four kinds, any number of records",
  "Each message kind is round-tripped with one or two sample values.",
  ["messages.go"], [("Encode methods and Decode functions", "messages.go")], [], ["vanflow.*Message.Encode", "vanflow.Decode"])

p("C08", "The store behaves as a map from key to entry",
  "Each store operation takes effect atomically on a map keyed by the configured key function: add inserts only when the key is absent and otherwise fails and changes nothing, update inserts or overwrites, delete removes, replace installs exactly the given entries, get and unselected list return exactly what is stored. Entries under other keys are never affected, and entries that arrive by accumulation are stored under the key that the key function gives for the stored entry.",
  ["histories", "inputs", "schedules"], "all operation histories, keys and entries, all interleavings of operations",
  "Tests run one short history per operation, single threaded.",
  ["store/cache.go", "store/internal/cache.go", "store/internal/conditional.go"],
  [("SyncIndexedMap.Update/Patch/Delete/Replace/Get/List under one mutex", "store/internal/cache.go"), ("objectCache methods", "store/cache.go")],
  [("items", "key to versioned entry", "store/internal/cache.go")], ["store.Interface"])

p("C09", "Store indexes list exactly the matching entries",
  "After any history of operations, querying an index with an exemplar returns every stored entry that shares an index value with the exemplar, each once and in its current version, and no other entry. Listing the values of an index returns exactly the values some stored entry has, each once; an unknown index is an error.",
  ["histories", "inputs"], "all operation histories and all index functions (deterministic), including several values per entry",
  "No existing test queries an index after any change.",
  ["store/internal/cache.go", "store/internal/index.go", "store/cache.go"],
  [("reindex, unindex, Replace, Index, IndexValues", "store/internal/cache.go"), ("KeySet", "store/internal/index.go")],
  [("indicies", "index name to value to key set", "store/internal/cache.go")], ["store.Interface.Index", "store.Interface.IndexValues"])

p("C10", "Conditional updates never overwrite a change made since the read",
  "An update carrying the ETag of an earlier read succeeds only if the entry has not been written, deleted or replaced since that read; otherwise it fails and changes nothing. Every successful write of an entry changes its ETag, and a malformed ETag makes the update fail without effect.",
  ["histories", "schedules", "inputs"], "all interleavings of reads, writes, deletes, replacements and conditional updates of a key",
  "One update and one stale update are tested, with no delete, replace or concurrency in between.",
  ["store/internal/cache.go", "store/internal/conditional.go", "store/etag.go", "store/cache.go"],
  [("version counter", "store/internal/cache.go"), ("WhenVersionMatches", "store/internal/conditional.go"), ("getETag/decodeETag/getConditional", "store/etag.go")],
  [("Version", "per entry write counter", "store/internal/cache.go")], ["store.Interface.Get", "store.Interface.Update", "store.WithIfMatch"])

p("C11", "Accumulating a partial record merges attributes and nothing else",
  "Accumulating a record for an unknown key stores it with the given source; for a known key the stored record's attributes become its former attributes overridden by those set in the partial record, while source and annotations stay. If the partial record changes no attribute nothing is written (version and update time stay) and no error is returned; if either record cannot be encoded an error is returned and nothing is written.",
  ["inputs", "histories"], "all pairs of stored and partial records, all histories",
  "Six accumulations of one record type are tested.",
  ["store/patcher.go", "store/cache.go", "store/internal/cache.go"],
  [("recordPatcher.Patch", "store/patcher.go"), ("objectCache.Accumulate", "store/cache.go")], [], ["store.Interface.Accumulate"])

p("C12", "Store event handlers mirror exactly the changes made",
  "A successful add or accumulate or update of an absent entry calls the add handler once with the stored entry, one of a present entry calls the change handler once with the previous and the new entry, and a delete of a present entry calls the delete handler once with the removed entry. An operation that fails or changes nothing calls no handler, and handlers are called with no store lock held.",
  ["histories", "inputs"], "all operations, outcomes and handler configurations (any handler may be absent)",
  "Each handler is tested for one success; failing accumulations and partial handler sets are not.",
  ["store/cache.go", "store/internal/cache.go"], [("objectCache.Add/Update/Delete/Accumulate", "store/cache.go"), ("Delta", "store/internal/cache.go")], [], ["store.EventHandlerFuncs"])

p("C13", "Selected listings are ordered, bounded and page through everything once",
  "A listing or index query with a selector returns its entries in key order (ascending, or descending on request), starting at the offset or continue token and at most limit many when a limit is given; any selector value returns a set or an error and never panics. A continue token is returned exactly when entries remain, and following tokens over an unchanged store returns every entry exactly once.",
  ["inputs"], "all stores, offsets, limits, orderings and tokens (forged ones included)",
  "One ascending listing of 100 entries by 12 is tested.",
  ["store/cache.go", "store/continue.go"], [("applySelector", "store/cache.go"), ("encodeCacheContinue/decodeCacheContinue", "store/continue.go")], [], ["store.Interface.List", "store.Interface.Index"])

p("C14", "Dispatching routes every record to the store of its type",
  "Dispatching a record message hands each record whose type has a registered store to that store exactly once, in message order, with the dispatcher's source, and skips the others; a failing store does not stop the remaining records. A dispatcher routes by the registrations at its creation, the last registration of a type winning.",
  ["inputs", "histories"], "all registries and all messages",
  "Dispatching has no test.",
  ["store/dispatch.go"], [("RegisterStore, NewDispatcher, Dispatch", "store/dispatch.go")], [], ["store.Dispatcher.Dispatch"])

p("C15", "A published update carries exactly the changed attributes and identity",
  "The record sent for an update with a previous version contains the record type, the identity and exactly those attributes of the current record that the previous one lacks or has with another value; with no previous version it is the current record. When no attribute of the current record differs, or a record cannot be encoded, nothing is sent for the update.",
  ["inputs"], "all pairs of previous and current records",
  "Update publication has no test.",
  ["eventsource/manager.go", "encoding/encoder.go", "encoding/decoder.go"], [("diffRecord", "eventsource/manager.go")], [], ["eventsource.Manager.PublishUpdate"])

p("C16", "Published updates are sent once, in order, in bounded batches",
  "Every update taken from a manager's queue contributes its delta exactly once, in queue order, to the record messages queued for sending, except when the manager is being stopped; no message is empty and with batching enabled no message carries more records than the configured batch size (one otherwise). Every queued message that encodes is sent exactly once in order to the source address, and one that does not encode or send does not stop later ones.",
  ["histories", "schedules", "inputs"], "all sequences of updates and flushes, all timer outcomes, all batch settings",
  "The manager has no test.",
  ["eventsource/manager.go"], [("serve, nextN, sendRecords", "eventsource/manager.go")], [], ["session.Sender.Send"])

p("C17", "A flush resends every stored record of every store",
  "Serving a flush lists every configured store in turn, page by page with the configured page size and following continue tokens to the end, and queues every listed record exactly once in listing order, no message exceeding the page size; a store never continues from another store's token. Flush requests arriving while one is pending may be merged but a request with an empty queue is never dropped, and a failed receive is not a flush.",
  ["histories", "inputs"], "any number of stores of any size, any page size, any store behaviour meeting its listing contract",
  "The manager has no test.",
  ["eventsource/manager.go"], [("serve flush branch, listenFlushes", "eventsource/manager.go")], [], ["store.Interface.List", "session.Sender.Send"])

p("C18", "Beacons and heartbeats describe the source and no send blocks unboundedly",
  "Every beacon and heartbeat a manager sends carries the configured source's identity, version, type and addresses, beacons on the beacon address and heartbeats on the source address (with the heartbeat suffix when configured). Each such send is attempted under a deadline no later than its interval, an expired deadline is reported as a send timeout unless the manager is stopping, and a send that failed because the manager is being stopped is not attempted again.",
  ["inputs", "schedules", "fault_sequences"], "all source configurations, intervals and send outcomes",
  "The manager has no test.",
  ["eventsource/manager.go", "messages.go"], [("sendKeepalives, sendWithTimeout", "eventsource/manager.go")], [], ["session.Sender.Send"])

p("C19", "Discovery tracks sources and announces each appearance and removal once",
  "A beacon or add for an unknown source records it with the announced details and announces it as discovered exactly once; for a known source a beacon only refreshes its last-seen time and an add is refused. Forgetting a known source removes exactly that source and announces it once, forgetting an unknown one does nothing; get and list reflect exactly the recorded sources and the last-seen time never moves back through activity reports.",
  ["histories", "inputs"], "all sequences of beacons, adds, forgets and activity reports, any beacon contents",
  "Two sources and one forget are tested.",
  ["eventsource/discovery.go"], [("observe, Add, Forget, Get, List, lastSeen", "eventsource/discovery.go")], [("state", "id to source info", "eventsource/discovery.go")], ["eventsource.Discovery", "DiscoveryHandlers"])

p("C20", "Discovery survives any message and forgets only silent sources",
  "Whatever message arrives on the beacon address, discovery neither panics nor stops: beacons are observed and all others skipped. A watched source is forgotten only when its timeout fires with no client activity newer than that already taken into account, and newer activity always updates the source's last-seen time and restarts the timeout.",
  ["inputs", "schedules", "histories"], "all messages on the beacon address; all orders of timer events and activity",
  "Only well-formed beacons and one silent period are tested.",
  ["eventsource/discovery.go"], [("Run, watch.run, advanceLastSeen", "eventsource/discovery.go")], [], ["eventsource.Discovery.Run", "eventsource.Discovery.NewWatchClient"])

p("C21", "A client hands every decodable message to each of its handlers once, in order",
  "Each message a client listener accepts and can decode as a record or heartbeat message is passed exactly once, in arrival order, to every handler of that kind registered at that time, in registration order, and to no handler of the other kind. Receive errors, undecodable messages and other message kinds are skipped without stopping the listener, which stops only when its context ends, and it listens on the configured address with the configured credit.",
  ["histories", "inputs", "fault_sequences"], "all message sequences, handler sets and receive or accept failures",
  "Twenty well-formed messages with one handler each are tested.",
  ["eventsource/client.go"], [("Listen, getHandlers, OnRecord, OnHeartbeat", "eventsource/client.go")], [], ["eventsource.Client"])

p("C22", "Flush on first message sends exactly one flush, after a first message",
  "Flush-on-first-message sends exactly one flush, to the source's direct address and only after a heartbeat or record message was handed to the client, and sends none if its context ends first, returning the context's error. Further messages never block, panic or cause further flushes, and a failing send is reported.",
  ["schedules", "inputs"], "all orders of messages and cancellation, any number of messages",
  "One message order and one timeout are tested.",
  ["eventsource/flush.go", "eventsource/client.go"], [("FlushOnFirstMessage, messageAwaiter", "eventsource/flush.go"), ("SendFlush", "eventsource/client.go")], [], ["eventsource.FlushOnFirstMessage"])

p("C23", "Shared state is only touched under its lock, and no lock is held while waiting",
  "In the store, discovery, client, container, link, mock router and registry, the data a lock protects is read and written only while that lock is held, and every lock taken by an operation is released when it returns or panics and never taken twice. No operation waits on a channel or wait group or calls application handlers while holding one of those locks (a link's own lock may be held while the link attaches or detaches), so a handler may read, register and listen on the object that called it, and a client may be closed repeatedly and from several goroutines.",
  ["schedules", "inputs"], "all interleavings; every path of every operation of those types",
  "Races and deadlocks need particular interleavings; tests exercise a few and without the race detector.",
  ["store/internal/cache.go", "eventsource/discovery.go", "eventsource/client.go", "session/container.go", "session/mock.go", "encoding/encoding.go"],
  [("mutexes of SyncIndexedMap, Discovery, Client, container, link, MockRouter, multicast and the registry", "store/internal/cache.go, eventsource/*.go, session/*.go, encoding/encoding.go")], [], ["all public operations of those types"])

p("C24", "A closed link stays closed and fails promptly",
  "After close, sending, receiving or accepting on a link fails with a link-closed error instead of blocking, retrying forever or panicking, reports no failure to the container, and the link never attaches to a later session. Closing closes the open receiver if there is one.",
  ["histories", "schedules", "inputs"], "all orders of close and link operations",
  "Closing is tested once, on the mock sender.",
  ["session/container.go"], [("link.awaitSession, handleError, Next, Send, Accept, Close", "session/container.go")], [("closed", "link was closed", "session/container.go")], ["session.Receiver", "session.Sender"])

p("C25", "Link failures are reported once, for their own session, and recovered from",
  "When an operation on an open link fails for a reason other than its own context, the failure is reported to the container with the generation of the session it happened on, the link drops that session's receiver and sender, and its next operation waits for a session of another generation. Receive retries until a message arrives or its context ends; a failed accept or a context error never tears the session down; success is reported with the generation used.",
  ["fault_sequences", "schedules"], "all outcomes of session waits, link attachment, sends, receives and accepts",
  "The container link has no test without an AMQP router.",
  ["session/container.go"], [("withReceiver, withSender, handleError, getReceiver, getSender, awaitNextSession", "session/container.go")], [("currGen", "generation of the session in use", "session/container.go")], ["session.Receiver", "session.Sender"])

p("C26", "Connection and link options reach the AMQP layer as configured",
  "A positive receiver credit is the credit the link is opened with, and none or a negative one leaves the AMQP default. The container identity, maximum frame size, TLS configuration and SASL type of a container are passed to every connection it dials, with external SASL exactly when configured.",
  ["configurations"], "all credits and container configurations",
  "No test inspects the options; the mock ignores them.",
  ["session/container.go"], [("ReceiverOptions.get, SenderOptions.get, ContainerConfig.toAmqp, getReceiver", "session/container.go")], [], ["session.Container"])

p("C27", "TLS verification is on exactly when requested",
  "The tool's TLS configuration verifies the server certificate, against the configured CA, exactly when verification is requested; an unreadable CA file or an invalid certificate and key pair is an error and never a weaker configuration. Client certificates are loaded whenever the certificate or the key file exists.",
  ["configurations", "inputs"], "all TLS settings and file states",
  "The tool has no test.",
  ["cmd/vanflow-tool/main.go"], [("tlsConfig.Parse", "cmd/vanflow-tool/main.go")], [], ["vanflow-tool --tls-verify, --ca, --cert, --key, --messaging-config"])

p("C28", "Fixture replay groups every known record under its source",
  "Loading a capture groups its entries by source and keeps, in capture order, exactly those whose record type is configured and whose record parses, each with its metadata, type and record unchanged; other entries are dropped without affecting the rest. Replaying flows never crashes, neither on a flow whose counterpart is missing nor on a negative count.",
  ["inputs"], "all captures: any types, sources and record bodies",
  "The tool has no test.",
  ["cmd/vanflow-tool/fixture.go"], [("groupEntriesBySource, ServeFlows", "cmd/vanflow-tool/fixture.go")], [], ["POST / and POST /flows of the fixture server"])

p("C29", "The mock router delivers each message to every open receiver of its address",
  "A message sent through the mock router is queued exactly once for every receiver subscribed to that address that is not closed, in send order, and for no other; with no receiver the send waits until one subscribes or its context ends. A closed sender or receiver reports an error, and closing twice is harmless.",
  ["histories", "schedules"], "all sequences of subscriptions, sends and closes",
  "One sender and one receiver are tested.",
  ["session/mock.go"], [("MockRouter.get, multicast.send, multicast.subscribe, mockReceiver, mockSender", "session/mock.go")], [], ["session.NewMockContainer"])

p("C30", "A lost connection is eventually re-established and links resume",
  "While the router is reachable and the backoff strategy permits retries, the container eventually establishes a new session after any failure and every waiting link eventually proceeds on it.",
  ["schedules", "fault_sequences"], "all failure sequences followed by a period of reachability",
  "Needs failures of a real AMQP connection and fairness; no test covers it.",
  ["session/container.go"], [("container.Start, awaitNextSession", "session/container.go")], [], ["session.Container"])

p("C31", "Discovered and forgotten notifications of a source arrive in order",
  "The handlers see, for each source, discovered and forgotten notifications alternating in the order in which the source was recorded and removed.",
  ["schedules", "histories"], "all interleavings of beacons, forgets and the notifying goroutine",
  "Depends on the scheduler's choice between two channels.",
  ["eventsource/discovery.go"], [("handleDiscovery", "eventsource/discovery.go")], [], ["DiscoveryHandlers"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
