#!/usr/bin/env python3
"""Writes /verif/properties.jsonl."""
import json, os
P = []
def p(id, title, statement, over, q, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": q}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "observe_at": list(observe), "hook_needed": hook}})
CON, PRO, ORD = "delivery/consumer.go", "delivery/producer.go", "delivery/ordering.go"

p("C01", "A reassembled block is exactly the block that was published",
  "When a consumer that follows every prefix emits a block, its number, hash, parent, weight, values and deletes (those carried in the header, as separate messages and in subbatches, empty values included) are exactly those handed to the producer. What was emitted never changes afterwards, whatever messages arrive later.",
  ["inputs", "schedules", "histories"], "every block content x every schema x every order and multiplicity of its messages, mixed with those of other blocks",
  "the tests reassemble a handful of fixed blocks, mostly in production order; none has an empty value, a key with a leading slash or late repetitions",
  [CON, PRO, "delivery/types.go"], [("header processing and inline updates", CON), ("applying counted updates, deletes and subbatch parts", CON), ("splitting a block into messages", PRO)],
  [("pending block", "values, deletes, counters, outstanding subbatches", CON)], ["batches received by a subscriber"])
p("C02", "A block is never emitted before all its messages arrived",
  "A consumer never emits a block as long as its header, or any update, delete, subbatch header or subbatch part under a prefix that the consumer follows, has not been delivered to it at least once. Repeated deliveries of other messages do not stand in for the missing one.",
  ["schedules", "histories", "inputs"], "every order, loss and repetition of messages of every block",
  "tests repeat no counted message and drop nothing; a miscount shows only for particular orders and repetitions",
  [CON], [("readiness of a pending block", CON), ("per-prefix counters", CON), ("subbatch bitmaps", CON)], (), ["batches received by a subscriber"])
p("C03", "A completed block is not emitted again",
  "A consumer emits a block at most once as long as it is among the last 2 x reorg-threshold blocks that it completed, however often its messages are delivered again, by the same or by other producers. Only a large-reorg notice makes it forget.",
  ["schedules", "histories"], "every order and repetition of messages over histories around and beyond the memory of completed blocks",
  "one test repeats messages of one block; none approaches the boundary of what is remembered",
  [CON], [("memory of completed blocks", CON)], (), ["batches received by a subscriber"])
p("C04", "A block is emitted as soon as its last message arrives",
  "Whatever the order and repetition, at the delivery that makes the messages of a block complete the consumer emits that block, without an error and without waiting for anything else. No other traffic, including subbatch parts that precede their header and messages that precede the block header, can make it stall.",
  ["schedules", "histories", "inputs"], "every order and multiplicity of the messages of every set of blocks",
  "tests use a few orders; stalls depend on particular interleavings and key shapes",
  [CON], [("holding back early messages", CON), ("counters", CON)], (), ["batches received by a subscriber"])
p("C05", "A prefix-selective consumer gets exactly its part",
  "A consumer that follows only some prefixes emits each block with exactly the updates and deletes recorded under those prefixes, as soon as the header and the messages under those prefixes arrived. Messages of other prefixes are neither waited for nor let in.",
  ["inputs", "configurations", "schedules"], "every set of followed prefixes x every block x every order",
  "one test follows a subset with one order",
  [CON], [("filter on followed prefixes", CON)], (), ["batches received by a subscriber"])
p("C06", "Redundant producers are interchangeable",
  "Producers that publish the same block emit the same messages with the same meaning, so that a consumer fed any mixture of several producers' messages, each possibly incomplete, emits the block with the same content as from one producer as soon as the union is complete.",
  ["schedules", "inputs", "histories"], "every mixture and interleaving of messages from several producers",
  "no test mixes producers with partial output",
  [PRO, CON], [("deterministic splitting", PRO), ("idempotent application", CON)], (), ["messages returned by a producer", "batches received by a subscriber"])
p("C07", "The producer publishes every item once, where the schema says",
  "For a block the producer returns one header carrying number, parent, weight and, for each record prefix, either the inline item, the count of separate messages or the subbatch, and one message per counted item on the topic of the schema expression that matches its key; subbatch parts together carry each of their items exactly once in the number of parts announced. Updates outside a subbatch's prefix are accepted, conflicting prefixes, zero and unknown or already used batch ids are rejected with an error and publish nothing.",
  ["inputs", "histories", "configurations"], "every block content, schema and sequence of producer calls",
  "tests cover a few contents and two of the rejections",
  [PRO], [("splitting and counting", PRO), ("pending batch bookkeeping", PRO)], (), ["messages returned by a producer"])
p("C08", "The resumption token brings the block back after a crash",
  "A consumer that restarts with the resumption token of a block and re-reads every source from the offset it names, and sources it does not name from their beginning, receives that block again with the same content. The token never points past the only copy of a message the block needs.",
  ["crash_points", "schedules", "histories"], "every interleaving of partitioned sources x every crash point x every token emitted before",
  "no test restarts from a token with several sources",
  [CON], [("tracking the first offset of every source", CON)], [("resumption", "per source the smallest offset that matters", CON)], ["token of an emitted block", "batches after the restart"])
p("C09", "Updates always join up into one chain",
  "Every update of an ordered consumer applies to where the previous one left off: the removed blocks, if any, are the top of the current chain down to a block whose child is the first added one, and every further added block is the child of the one before. Only blocks that were delivered appear, unaltered.",
  ["schedules", "histories", "inputs"], "every block tree, delivery order, repetition and tie, with history being discarded",
  "tests follow a few fixed trees; continuity depends on the order of arrival and on what has been evicted",
  [ORD], [("preparing reorganisations", ORD), ("emitting pending children", ORD)], [("pending, queued and finished blocks", "what is known of the tree", ORD)], ["chain updates"])
p("C10", "Blocks are only removed for a strictly heavier chain",
  "An update removes blocks only when the chain it leaves is strictly heavier than the one it replaces, and it removes no block that it adds again. A chain that is lighter or equally heavy never displaces the current one.",
  ["schedules", "histories", "inputs"], "every block tree with equal and differing weights x every delivery order",
  "tests use a few fixed weights",
  [ORD], [("comparison of weights before a reorganisation", ORD)], (), ["chain updates"])
p("C11", "The consumer converges to the heaviest chain in any order",
  "After every delivery the head of the emitted chain is at least as heavy as every delivered block that connects to it through delivered blocks, no matter in which order, how often and on which side branches blocks arrived, as long as they lie within the reorg threshold.",
  ["schedules", "histories", "inputs"], "every block tree x every delivery order x duplicates x ties, thresholds down to the smallest covering the tree",
  "tests use a few orders; a wrong queueing decision only shows for particular trees and orders",
  [ORD], [("queueing and releasing of blocks", ORD), ("choice of the heaviest pending chain", ORD)], (), ["chain updates"])
p("C12", "Whitelists exclude blocks and everything built on them",
  "When heights are pinned to hashes, no other block at such a height and no block that descends from one is ever emitted, however heavy it is, and the heaviest remaining chain is followed as if they did not exist.",
  ["schedules", "inputs", "configurations"], "every block tree x every whitelist x every delivery order",
  "the tests deliver excluded blocks in order only",
  [ORD], [("exclusion of pinned heights and descendants", ORD)], (), ["chain updates"])
p("C13", "Delivering a block again changes nothing",
  "Handing an ordered consumer a block that it was handed before never causes an update and never alters what later updates contain.",
  ["histories", "schedules"], "every repetition at every point of every history, of emitted, queued, side-branch and discarded blocks",
  "one test repeats one block",
  [ORD], [("memory of finished blocks", ORD)], (), ["chain updates"])
p("C14", "Reorganisations up to the threshold always succeed",
  "However long the consumer has been running and discarding old history, when a heavier branch forks off at most reorg-threshold blocks below the head, the update to it is emitted as soon as the branch is complete and heavier, in whatever order its blocks arrive.",
  ["histories", "inputs", "schedules"], "every threshold x every chain length x every fork depth up to the threshold x orders of the branch",
  "tests fork a few blocks deep with a threshold of 128, far from any eviction",
  [ORD], [("bounded history with eviction", ORD)], (), ["chain updates"])
p("C15", "Waiters resolve with the block, and only with it",
  "A wait for a block number or hash resolves successfully only once the update containing that block has been marked done by the application, does so within its timeout if that happens, and otherwise times out; a wait for a block that was already done returns at once, and a wait for a block that was never announced reports that it is not found. Removed and repeated blocks never resolve a wait for another block and never leave a waiter hanging.",
  ["schedules", "histories"], "every interleaving of waits, announcements, processing and timeouts",
  "the waiter tests do not build in this repository",
  ["waiter/waiter.go", CON, ORD], [("announcement of pending blocks", CON), ("closing wait channels", "waiter/waiter.go")], (), ["results and timing of waits"])
p("C16", "Through Kafka every block arrives, across crashes",
  "An application that reads from Kafka, stores the hash, number, weight and token of the last block it applied, crashes at any point (in the middle of an update too) and starts again from what it stored, gets a gap-free continuation of its chain with the contents that were published, and ends up on the heaviest published chain at the latest when that chain next grows, over any number of partitions, topics and redundant producers, and when connections break. The rollback that it starts with has to reach back over the blocks that branched off around its head, and the reorg threshold over the fork.",
  ["crash_points", "schedules", "histories", "fault_sequences"], "every crash point x partition layout x interleaving of producers x block tree",
  "tests have no broker",
  ["transports/kafka.go", CON, ORD], [("start offsets from the token", "transports/kafka.go"), ("partition consumers", "transports/kafka.go"), ("token of a block", CON)], (), ["chain updates of successive consumers"])
p("C17", "The Kafka producer writes each block whole and once",
  "A Kafka producer writes all messages of a block, on the topics of the schema, or, when the block's header is among the last 100 records of a partition of the default topic when the producer starts, or was read there since (its own records included, the last 4096 headers), none of them; its subbatches are then skipped without an error. A block it writes is written once, also when calls for several blocks, subbatches and large reorgs interleave. After its replay cache is purged it writes again. A producer can be created whatever is on the log, empty and expired partitions included.",
  ["histories", "schedules", "configurations"], "every sequence of producer calls, purges and of blocks seen on the log",
  "tests have no broker",
  ["transports/kafka.go"], [("memory of hashes on the log", "transports/kafka.go"), ("skipped subbatches", "transports/kafka.go")], (), ["records on the log"])
p("C18", "A Kafka consumer starts where its token says and reports ready",
  "A Kafka consumer reads each partition from the offset in its token less the rollback, or from the offset itself when the log no longer reaches back by the rollback. A partition that the token does not name (or names with an offset below the rollback) is read from its oldest record, or from the newest when the consumer starts afresh, with an empty last hash and a rollback that is not negative. Rather than skip records, it refuses a token that cannot be parsed and fails to start when the log no longer has the token's offset. From there on it hands on every record of a partition once and in order. It reports ready once, not before it has handed on what was on the log when it started, and it does become ready, with empty, slow or busy partitions alike.",
  ["configurations", "inputs", "histories"], "every token, rollback and partition layout",
  "tests have no broker",
  ["transports/kafka.go"], [("parsing the token", "transports/kafka.go"), ("warm-up accounting", "transports/kafka.go")], (), ["fetch requests", "ready channel"])
p("C19", "Over websockets every block arrives, across disconnects",
  "A websocket consumer delivers every block that the producer publishes, in full including subbatches, even when the connection is lost at any point (between or within blocks and subbatches) and re-established, without gaps and without delivering altered or partial blocks.",
  ["fault_sequences", "schedules", "crash_points"], "every point of disconnection x every sequence of published blocks and subbatches",
  "tests disconnect nothing and send no subbatches",
  ["transports/websockets.go"], [("resubscription from the last block", "transports/websockets.go"), ("assembly of subbatches", "transports/websockets.go")], (), ["chain updates"])
p("C20", "A websocket subscriber gets the history, then every later block",
  "A client that subscribes to a websocket producer with a number and hash is sent, in chain order and without holes, the blocks that the producer's history has from there, one ready notice once it has been sent every block that was on the chain when it subscribed, and from then on every block, subbatch and notice in the order in which it was published; no block that stays on the chain falls between history and live messages, however publishing and subscribing interleave, and no other subscriber's arrival, departure or failure changes this. Every message carries exactly the contents that were published, and a block asked for by number comes whole or as an error.",
  ["schedules", "inputs", "histories"], "every interleaving of subscribing, leaving and publishing x every starting point",
  "one test with no concurrent publishing",
  ["transports/websockets.go"], [("backfill and live feed", "transports/websockets.go"), ("messages of a feed", "transports/websockets.go")], (), ["frames on the wire"])
p("C21", "A mux fans out to all and survives the failure of one",
  "A mux producer makes every call (block, subbatch, notice, purge) on each of its producers even when some of them fail or can't be written to; the call fails exactly when it fails on one of them. The latest block it reports is that of the feed which is furthest behind. A mux consumer starts and becomes ready as long as one of its transports does; it delivers each block once, in order and whole, from whichever transports supply it or parts of it, when they carry different parts of the history, in different orders and concurrently, across lost connections, brokers that go away and restarts of the application, and ends up on the heaviest chain at the latest when that chain next grows. Its count of producers is the sum over its transports, its waits resolve whatever transport the block came by, and nothing comes after it was closed.",
  ["schedules", "fault_sequences", "configurations"], "every assignment of blocks and messages to transports, failures and interleavings",
  "no test runs a mux",
  ["transports/resolver.go", "transports/kafka.go", "transports/websockets.go", CON], [("fan-out", "transports/resolver.go"), ("shared message processor", CON)], (), ["records and frames of each transport", "chain updates"])
p("C22", "The diagnosis of an incomplete block names what is missing",
  "For a block that was not emitted, the diagnosis says that it was not found exactly when its header has not arrived, and otherwise names a prefix, subbatch or subbatch part of which a message is in fact missing; it never says that such a block is ready. It may be asked for at any time, also from other goroutines while messages come in.",
  ["schedules", "histories", "inputs"], "every state of partial delivery of every block",
  "no test asks for a diagnosis",
  [CON, ORD], [("diagnosis", CON)], (), ["diagnosis strings"])
p("C23", "Transports are chosen and resumed by their URLs",
  "Resolving a list of broker URLs (kafka, ws, wss or null, each with or without a cardinal:// prefix) yields exactly the transports they name: each is contacted, for exactly its own topics and from the configured block, and a list with a URL whose protocol the function does not take is refused as a whole. The options of a Kafka URL are applied as given, and defaults where they are missing or malformed. A token for a timestamp names, for every partition, the first record of that moment or newer, or what comes next if there is none yet, so that a consumer that starts from it skips no such record, also when records are written meanwhile. The latest block reported for a feed is the highest block number among the headers in the last 100 records of each partition, and of several feeds the one that is furthest behind.",
  ["inputs", "configurations", "histories", "schedules"], "every list of URLs x every function that takes URLs, every log and every timestamp, with records written at any moment",
  "tests resolve only null URLs; there is no broker",
  ["transports/resolver.go", "transports/kafka.go"], [("URL resolution", "transports/resolver.go"), ("offsets by timestamp", "transports/kafka.go")], (), ["resolved transports", "tokens", "numbers returned"])
p("C24", "Producer heartbeats count the live producers",
  "The number of producers that a Kafka consumer or producer reports for a period is the number of distinct producers, itself excluded, of which it read a heartbeat within that period, also when it is asked while heartbeats come in. Heartbeats are never taken for data and reach no block.",
  ["histories", "inputs"], "every history of heartbeats among data records",
  "tests have no broker",
  ["transports/kafka.go", "transports/types.go"], [("ping tracking", "transports/types.go")], (), ["producer counts"])
p("C25", "A restart recovers even when history comes back out of order",
  "A consumer that resumes at a block and is handed the history around it and newer blocks in any order ends up on the heaviest branch at the latest when that branch next grows.",
  ["schedules", "histories", "crash_points"], "every tree around the resumption point x every order of redelivery",
  "one test resumes, in order",
  [ORD], [("queueing before the starting block is back", ORD)], (), ["chain updates"])
p("C26", "A large-reorg notice reaches the application once, unchanged",
  "A notice of a reorganisation beyond the threshold is delivered exactly once with its number and hash to each subscriber, and causes no update by itself. From there on the consumer follows the chain that continues from that block, which may be one it emitted, one it has long forgotten or one it never saw: the blocks of that chain are emitted in order, in whatever order they arrive (as long as the early ones are within what is remembered, twice the reorg threshold) and even if they were completed and emitted before the notice, and no block that came after the notice is taken back.",
  ["inputs", "histories", "schedules"], "every number, hash and position of the notice among other messages",
  "one test with one notice",
  [CON, ORD, PRO], [("reorg messages", CON), ("moving the head", ORD)], (), ["reorg subscriptions", "chain updates"])
p("C27", "A large reorg announced on Kafka is read from its own topic",
  "A Kafka consumer that meets the announcement of a large reorg (a Reorg message on the default topic) reads the reorg's own topic, which is named after the default topic and the hash of the common ancestor (<default topic>-re-<hash in hex>), from its beginning to its ReorgComplete message, whether that was written before the consumer gets there or is still being written, and goes on with the default topic only then. The application sees the chain before the announcement, one notice with the common ancestor, the blocks of the reorg's topic and those that follow on the default topic, in this order and without gaps. The consumer neither crashes nor gets stuck, and if all of it was on the log when the consumer started, it isn't ready before it is through.",
  ["schedules", "histories"], "every order of the writes to both topics relative to each other and to what the consumer has read, with repeated messages, heartbeats, other topics and several reorgs one after another",
  "tests have no broker; the outcome depends on what is on the reorg's topic when the announcement is read",
  ["transports/kafka.go", CON, ORD], [("consumer of the reorg's topic", "transports/kafka.go"), ("reorg messages", CON), ("moving the head", ORD)], (), ["chain updates", "reorg subscriptions", "readiness"])
p("C28", "A consumer that starts afresh follows the chain from the first block it is handed",
  "An ordered consumer that is configured without a last block (an empty last hash, with or without a last weight) emits the first block that it is handed at once, whatever its number and weight. From there on it follows the chain that grows from that block: every update goes on from where the previous one left off, blocks are removed only for a strictly heavier chain, after every delivery the head is at least as heavy as every block that connects to the first one, and blocks that are handed over again change nothing. The first ten blocks have to come after the blocks they build on; later ones may come in any order within the reorg threshold.",
  ["schedules", "histories", "inputs"], "every tree over the first block x every order of delivery in which the first ten blocks come after their parents, with repeats",
  "tests start without a last block for one linear chain only",
  [ORD], [("start without a last block", ORD)], (), ["chain updates"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
