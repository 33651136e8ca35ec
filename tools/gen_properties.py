#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property catalogue)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    P.append({"id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {"files": files,
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": observe or ["Kafka wire protocol responses on a TCP connection"],
            "hook_needed": None}})

LOG = [("partition log", "records in posting order; index = offset", "datastore.go")]
OFF = [("committed offsets", "per partition: consumer group -> offset", "datastore.go")]

p("C01", "Fetch returns exactly the posted log from the requested offset",
  "A fetch at offset o (0 <= o <= log end) returns consecutive records starting exactly at o, in posting order, each carrying its position as offset and its key, value (null and empty kept apart) and millisecond timestamp exactly as posted; nothing is skipped, repeated, altered or taken from another topic or partition. SimplePost stamps the record with the time of the post, ExtendedPost with the given time.",
  ["inputs", "histories"], "every sequence of SimplePost/ExtendedPost over topics, partitions, keys, values and timestamps, and every fetch offset",
  "tests post ASCII payloads to one partition of one topic and look at a few values; offsets, keys, null/empty, timestamps, partition isolation and starting offsets other than 0 are never checked",
  ["kafka-mock.go", "datastore.go", "fetch.go", "encoder.go"],
  [("append under the partition lock", "datastore.go postRecord"), ("read loop by index", "fetch.go fetchV2"), ("message set encoding", "encoder.go")], state=LOG)
p("C02", "A fetch answers every requested partition with that partition's own data",
  "A fetch response contains one entry for every requested topic and, inside it, one entry for every requested partition, in request order and including repeated, empty and unknown ones, and each entry carries that partition's own records from the offset requested for it. Partitions that do not exist yield an empty record set.",
  ["inputs", "configurations"], "every shape of fetch request (topics x partitions x offsets, with repeats and unknown names) over every small log configuration",
  "every test fetches exactly one partition of one topic",
  ["fetch.go"], [("per-partition fetch state and response assembly", "fetch.go fetchV2")], state=LOG)
p("C03", "A fetch honours the byte limit, fills it, and always answers",
  "The record set returned for a partition never exceeds the requested per-partition maximum in bytes, and holds as many of the next records as fit in it whole. A fetch whose next record does not fit is still answered promptly (with the records that fit, possibly none) instead of being held up, and does not hold up the other partitions of the request.",
  ["inputs", "histories"], "every byte limit from zero to beyond the log size, every small log, every starting offset, one or more partitions per request",
  "the tests that reach a limit hang on the original code and are excluded from the suite; no test checks the size of an answer",
  ["fetch.go", "encoder.go"], [("size accounting", "encoder.go appendMessage"), ("fetch loop termination", "fetch.go fetchV2")], state=LOG)
p("C04", "A fetch waits for data no longer, and no less, than it was told",
  "A fetch that finds records at the requested offset of any requested partition answers without waiting; otherwise it waits, delivers records posted during the wait (to partitions that existed when it arrived) promptly, and answers empty only once the requested maximum wait has passed (to within 100 ms) or the mock was told to finish or stop. Waiting never blocks producers or other clients.",
  ["schedules", "inputs"], "every maximum wait, every moment of a post or finish call relative to the wait, every interleaving of poster, poller and other clients within the preemption bound",
  "tests run on the wall clock with a client that retries, so an answer that is too early, too late or spuriously empty goes unnoticed",
  ["fetch.go"], [("expiration and polling loop", "fetch.go fetchV2"), ("cancellation check", "fetch.go fetchV2")], state=LOG)
p("C05", "Concurrent posts are all kept, in order, and immediately visible",
  "When several producers post concurrently, every post appears in its partition exactly once, each producer's posts appear in its own order, and a fetch that starts after a post returned sees it. All readers see the same record at the same offset for ever.",
  ["schedules"], "every interleaving of concurrent producers (including ones that create the topic or partition) and fetching clients within the preemption bound",
  "every test posts from a single goroutine",
  ["datastore.go", "kafka-mock.go", "fetch.go"], [("data store, topic and partition mutexes", "datastore.go")], state=LOG)
p("C06", "Message sets and responses are well-formed Kafka wire data",
  "Every returned message is a valid magic-1 Kafka message: its size field counts the bytes that follow it, its checksum is the CRC-32 of the bytes after the checksum, its attributes say 'uncompressed', and the record-set length equals the bytes that follow. Every response decodes with an independent strict decoder with no bytes missing or left over.",
  ["inputs"], "every record content (null, empty, boundary-size and large keys and values, any timestamp) and every request type",
  "the only consumer in the tests, kafka-go, ignores the message size and checksum",
  ["encoder.go", "fetch.go", "kafka-message.go"], [("messageSetV1/messageV1 encoding and crc", "encoder.go"), ("length-prefixed framing", "kafka-message.go send")])
p("C07", "A group's committed offset is forward-only and isolated",
  "The offset reported for a group and partition is the largest of the value last set directly (0 if never set) and every offset committed since then; committing a smaller offset is accepted and changes nothing. Commits and direct settings affect only their own group, topic and partition.",
  ["histories"], "every sequence of commits, direct settings and offset queries over groups, topics and partitions",
  "tests commit once or in ascending order, for one group and one partition",
  ["offset_commit.go", "offset_fetch.go", "kafka-mock.go", "datastore.go"], [("compare-and-advance under the partition lock", "offset_commit.go"), ("direct setting", "kafka-mock.go SetConsumerGroupOffset")], state=OFF)
p("C08", "Concurrent commits are never lost or rolled back",
  "With any number of clients committing offsets for the same group and partition concurrently, the final committed offset is the maximum committed, and the values seen by successive offset queries never decrease. A direct setting that runs concurrently takes effect as one indivisible step.",
  ["schedules"], "every interleaving of concurrent commit, query and direct-setting calls within the preemption bound",
  "no test has two clients committing at the same time",
  ["offset_commit.go", "datastore.go", "kafka-mock.go"], [("read-compare-write inside one critical section", "offset_commit.go")], state=OFF)
p("C09", "Offset listing: earliest, latest and by-timestamp answers are correct",
  "For a known partition, an earliest query answers 0 and a latest query answers the number of records posted. On a log with non-decreasing timestamps a query for time t answers the first record whose timestamp is at or after t, together with that record's timestamp, or the log end if there is none.",
  ["inputs", "histories"], "every small log with non-decreasing timestamps (including repeats) and every query value, for every request shape",
  "tests only reach the earliest/latest queries a client makes when it connects, and check no answer",
  ["list_offsets.go"], [("timestamp scan", "list_offsets.go")], state=LOG)
p("C10", "Unknown topics and partitions are reported, and queries create nothing",
  "Offset commits and offset listings that name an unknown topic or partition get the 'unknown topic or partition' error for exactly those entries, and offset queries omit them. Such requests, and requests in general other than commits, leave the set of topics and partitions, the logs and the committed offsets unchanged.",
  ["inputs", "histories"], "every request type naming any mix of known and unknown topics and partitions, in every order",
  "tests only name existing topics and partitions",
  ["offset_commit.go", "offset_fetch.go", "list_offsets.go", "fetch.go", "datastore.go"], [("lookup without creation", "datastore.go getTopic/getPartition"), ("error code", "offset_commit.go, list_offsets.go")])
p("C11", "Group assignment names every existing partition exactly once",
  "The assignment returned by a group sync lists every topic and every partition that existed when the request arrived, each exactly once and with its right number, and nothing that was never created; it is encoded as a standard consumer assignment. This holds while other goroutines create topics and partitions.",
  ["schedules", "configurations"], "every small set of topics and partitions, and every interleaving with concurrent creation within the preemption bound",
  "tests only assign one partition of one topic and never create topics while a client joins",
  ["sync_group.go", "datastore.go"], [("iteration over the data store", "sync_group.go makeMemberAssignment")])
p("C12", "Metadata, partitions and coordinator describe the mock consistently",
  "A metadata response lists each requested topic once and in order, with exactly its existing partitions (all topics for a null list, none for an empty one, an 'unknown topic' error for unknown names), every partition led by a broker that is in the broker list at the mock's own host and port. The group coordinator is that same broker at the same address.",
  ["inputs", "configurations"], "every set of existing topics and partitions, every list of requested names, every server port",
  "tests always use partition 2, the one number the original code hard-wires",
  ["metadata.go", "find_coordinator.go", "kafka-mock.go"], [("metadata response assembly", "metadata.go"), ("coordinator response", "find_coordinator.go")])
p("C13", "Advertised API versions are exactly the ones served",
  "The API-versions response lists, in ascending order and once each, exactly the request types and version ranges the mock serves: every advertised type and version is answered when asked, and nothing that is served is left out.",
  ["inputs"], "every (API key, version) pair",
  "tests only use the versions one client library picks",
  ["api-keys.go", "api_versions.go", "kafka-client.go"], [("dispatch table and derived version ranges", "api-keys.go initializeApis")])
p("C14", "Requests are framed correctly however the byte stream is cut",
  "Whatever way the bytes of a sequence of requests are cut into network reads, including several requests in one read and requests spanning many reads, the mock answers every request exactly once, in order, with its own correlation id and a correct length prefix, and the answers do not depend on the cuts.",
  ["inputs", "schedules"], "every segmentation of the request byte stream and every pipelining of requests",
  "loopback reads almost always return exactly one request; the latency tests that coalesce requests are excluded from the suite",
  ["kafka-client.go", "inbound-utils.go", "kafka-message.go"], [("inbound buffering and message extraction", "kafka-client.go handle, inbound-utils.go getMessage"), ("response framing", "kafka-message.go send")])
p("C15", "A failing client harms nobody but itself",
  "When a client disconnects, resets its connection or vanishes (its host is gone or unreachable) at any moment, between any two bytes of a request, while its request is being served, or before or while its response is written, the mock keeps running and other clients' requests and the stored data are unaffected, except for the effects of requests the mock had fully received. New clients can still connect and be served.",
  ["fault_sequences", "schedules"], "every drop point (each byte of the request stream, each server read and write), every kind of loss (close, reset, time-out, unreachable), every interleaving with another client within the preemption bound",
  "the only test dropping clients is excluded from the suite, and drops at arbitrary wall-clock moments",
  ["kafka-client.go", "net-utils.go", "kafka-message.go", "kafka-mock.go"], [("closed-socket classification", "net-utils.go"), ("tolerated send errors", "kafka-client.go dispatcher, isConnected")])
p("C16", "The codec round-trips every supported value",
  "Encoding any value of a supported wire type (fixed-width numbers, variable-length numbers, floats, strings, byte strings, unique ids, the compact and nullable string and byte string types, arrays, structures, pointers to structures, fields marked compact, and tagged fields) and decoding it as the same type yields an equal value (null and empty kept apart wherever the type can hold both) and consumes exactly the bytes produced, wherever the value sits in the stream and whatever follows it. For the standard, non-compact forms the bytes are the ones the Kafka protocol prescribes for that type: big-endian numbers, zigzag variable-length numbers, 16-bit string lengths, 32-bit byte string and array lengths, -1 for null.",
  ["inputs"], "every value of every supported type up to the size bound, all bit-length and sign boundaries, every nesting to the depth bound",
  "tests encode two or three values of each type and mostly only check round trips",
  ["encoder.go", "decoder.go"], [("encodeObject*", "encoder.go"), ("peekObject*", "decoder.go")], observe=["encode/decode entry points used by the repository's own tests"])
p("C17", "The codec rejects every incomplete value without side effects",
  "Decoding any strict prefix of an encoded value is reported as incomplete: it never panics, never yields a value and never consumes input, so the same value decodes correctly once all of its bytes are there.",
  ["inputs"], "every strict prefix of every encoded value within the bounds, for every supported type",
  "tests try a handful of prefixes of a few types",
  ["decoder.go"], [("bounds checks via buffered peeks", "decoder.go peek*")], observe=["encode/decode entry points used by the repository's own tests"])
p("C18", "Every well-formed request is understood, whatever its size and nulls",
  "Every protocol-conformant request of a served type and version is decoded completely and answered, whatever the length of its strings, byte strings and arrays (including ones larger than any internal buffer) and wherever the protocol allows nulls or negative numbers. No such request can crash the mock.",
  ["inputs"], "every served request type with every combination of empty, null, boundary-size and large fields and extreme numbers",
  "tests only send the small requests one client library produces",
  ["kafka-client.go", "inbound-utils.go", "decoder.go", "fetch.go"], [("request decoding", "decoder.go, inbound-utils.go readRequest"), ("receive buffering", "kafka-client.go")])
p("C19", "Stopping always terminates and frees everything",
  "Once a stop is requested, waiting for termination returns within a bounded time whatever the connected clients are doing (idle, mid-request, waiting in a fetch, connecting, disconnecting) and whichever goroutines ask for it; afterwards every client connection is closed, the port is free and no goroutine of the mock remains.",
  ["schedules"], "every interleaving of stop with start, connects, requests, long polls and disconnects within the preemption bound",
  "tests stop only after their client has finished, and check nothing about connections, port or goroutines",
  ["kafka-mock.go", "kafka-client.go", "fetch.go"], [("listener close and cancellation", "kafka-mock.go RequestStop"), ("wait groups", "kafka-mock.go run, WaitForTermination")])
p("C20", "Lifecycle calls behave the same in every legal order",
  "After any sequence of start, stop, wait, restart and finish calls, the mock accepts and serves clients exactly when it was started and has since been neither stopped nor finished; stopping or waiting is harmless when it is not running or repeated, a stopped mock can be started again, and starting a running mock is refused with a panic.",
  ["histories"], "every sequence of lifecycle calls up to the depth bound",
  "three tests cover three fixed sequences",
  ["kafka-mock.go"], [("started/stopped flags", "kafka-mock.go")])
p("C21", "Data survives restarts",
  "Records, topics, partitions and committed offsets are the same after a restart (or stop followed by start) as before it, at whatever point of a client's history it happens: every acknowledged commit is kept and no unacknowledged or partly received request takes half an effect. Clients that reconnect continue where they left off.",
  ["crash_points", "histories"], "a restart at every point (every byte and every scheduling point) of a client's request history",
  "tests restart only when no client is connected",
  ["kafka-mock.go", "datastore.go"], [("the data store outlives the server loop", "kafka-mock.go Restart")])
p("C22", "Finishing requests releases blocked fetches and nothing is lost",
  "After a call to finish requests, every fetch that is waiting is answered promptly (with whatever records it found), every request already being served gets its complete response, and the connections are then closed so that clients see an orderly end; posted data and committed offsets stay.",
  ["schedules"], "every interleaving of the finish call with clients in every request state within the preemption bound",
  "tests call it only in clean-up and ignore what the client sees",
  ["kafka-mock.go", "fetch.go", "kafka-client.go"], [("context cancellation", "kafka-mock.go FinishRequests")])
p("C23", "The public API and the server are free of data races and deadlocks",
  "Any combination of posting, creating topics, setting offsets, finishing, stopping and client requests of every kind may run concurrently without data races, deadlocks or crashes.",
  ["schedules"], "every interleaving of every pair (and chosen triples) of operations within the preemption bound, checked by happens-before race detection in each one",
  "the tests are not run under a race detector, and hardly anything in them overlaps",
  ["datastore.go", "list_offsets.go", "sync_group.go", "fetch.go", "kafka-mock.go", "kafka-client.go"], [("data store, topic, partition and mock mutexes", "datastore.go, kafka-mock.go")], observe=["race reports, panics and blocked goroutines in explored schedules"])
p("C24", "Posted records do not change when the caller reuses its buffers",
  "A record is fixed at the moment it is posted: whatever the caller later does with the key, value or header buffers it passed, and whatever else is posted, every fetch returns the bytes as they were at the time of the post.",
  ["histories"], "every sequence of posts that reuse, overwrite or re-slice earlier buffers, and every later fetch",
  "tests never modify a buffer after posting it",
  ["kafka-mock.go", "datastore.go"], [("copy on post", "datastore.go postRecord")], state=LOG)
p("C25", "Mock instances are independent",
  "Mocks in the same process, on their own ports, do not share topics, records, offsets or lifecycle: operations on one never change what another serves, in any order or concurrently with its creation, start and stop.",
  ["histories", "schedules"], "every interleaved sequence of operations on two mocks up to the depth bound, and concurrent construction",
  "tests run one mock at a time",
  ["kafka-mock.go", "api-keys.go", "datastore.go"], [("per-instance data store; shared API tables initialised once under a lock", "api-keys.go initializeApis")])
p("C26", "A standard group consumer reads every record once, in order, and resumes",
  "A standard Kafka client library consuming as a group receives every record of the assigned topic exactly once and in order, starting at the group's committed offset, under any size limit that admits the records; after a reconnect or restart it resumes at the committed offset.",
  ["histories", "configurations"], "every small combination of log size, record sizes, byte limits, commit points and restart points",
  "tests fix one configuration each and check few of the values",
  ["fetch.go", "offset_commit.go", "offset_fetch.go", "join_group.go", "sync_group.go", "metadata.go", "find_coordinator.go", "list_offsets.go"], [("the whole group-consumer protocol path", "all handlers")], observe=["messages returned by a kafka-go group Reader"])
p("C27", "A finished connection is fully released",
  "Once a client is gone (it closed, half-closed or reset its connection, or vanished, between requests or in the middle of one), the mock closes its side of the connection promptly, ends the work it did for it and keeps no reference to it, however many other clients come and go in whatever order; the other clients stay connected.",
  ["histories", "fault_sequences"], "every order of connecting and disconnecting up to the bound of clients, every kind of close",
  "tests never look at the server side of a finished connection",
  ["kafka-client.go", "kafka-mock.go"], [("close callback and client registry", "kafka-mock.go run"), ("handler exit", "kafka-client.go handle")])
p("C28", "Concurrent clients each get exactly their own answers",
  "With several clients connected, every request gets exactly one response, on its own connection, with its own correlation id and the content a lone client would get, in the order that client sent its requests, whatever the other clients are doing (including waiting in a fetch).",
  ["schedules"], "every interleaving of two or three clients' request sequences within the preemption bound",
  "the only two-client test is excluded from the suite",
  ["kafka-client.go", "kafka-message.go"], [("one handler goroutine and buffer per connection", "kafka-client.go")])
p("C29", "The reported high watermark is the log end",
  "For an existing partition the high watermark in a fetch response is the partition's number of records at some moment while the request was served: never less than the offset after the last returned record, and never beyond what had been posted.",
  ["inputs", "schedules"], "every log, fetch offset and byte limit, and every interleaving with a producer within the preemption bound",
  "no test looks at the high watermark",
  ["fetch.go"], [("high watermark in the fetch response", "fetch.go fetchV2")], state=LOG)
p("C30", "Group coordination requests always succeed and change nothing",
  "Join, sync (without assignments), heartbeat and leave requests succeed with error code 0 in any order, for any group, member and generation, give the caller a member id and a protocol to use, and have no effect on logs, offsets or other clients.",
  ["histories"], "every sequence of coordination requests up to the depth bound, over groups, members and generations",
  "tests drive one fixed join/sync/heartbeat flow",
  ["join_group.go", "sync_group.go", "heartbeat.go", "leave_group.go", "find_coordinator.go"], [("stateless handlers", "join_group.go, sync_group.go, heartbeat.go, leave_group.go")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
