From 976f62171a971e5b9b66c35d9c85456de89b9dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:37 +0000
Subject: [PATCH 01/31] fix: don't count a redelivered update with an empty
 value twice

A duplicate of an update whose value is empty decremented the prefix counter
a second time, so the block was emitted before all of its messages arrived.
---
 delivery/consumer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delivery/consumer.go b/delivery/consumer.go
index 00a5958..b48b4db 100644
--- a/delivery/consumer.go
+++ b/delivery/consumer.go
@@ -126,7 +126,7 @@ func (pb *PendingBatch) ApplyMessage(m ResumptionMessage) bool {
     return true
   case BatchMsgType:
     path := string(m.Key()[33:])
-    if v, ok := pb.Values[path]; ok && len(v) > 0 { return false } // Already set
+    if _, ok := pb.Values[path]; ok { return false } // Already set
     if pb.DecPrefixCounter(path) {
       // If this is false, we're not tracking this prefix and should ignore the message
       pb.Values[path] = m.Value()
-- 
2.43.0


From 45a0fc7c4bb353c2d5a20f0e0db1496ef80141e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:37 +0000
Subject: [PATCH 02/31] fix: keep inline updates whose value is empty

An update carried in the batch header was dropped when its value was empty,
while the same update sent as a separate message was kept.
---
 delivery/consumer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/delivery/consumer.go b/delivery/consumer.go
index b48b4db..62baa9f 100644
--- a/delivery/consumer.go
+++ b/delivery/consumer.go
@@ -348,7 +348,10 @@ func (mp *MessageProcessor) ProcessMessage(m ResumptionMessage) error {
         }
       }
       if !match { continue } // Regardless of message type, if we're ignoring the prefix, skip this update
-      if len(update.Value) > 0 { mp.pendingBatches[hash].Values[prefix] = update.Value }
+      if len(update.Value) > 0 || (!update.Delete && update.Count == 0 && update.Subbatch == (types.Hash{})) {
+        // A record that is neither a delete, a count nor a subbatch is a value, even if that value is empty
+        mp.pendingBatches[hash].Values[prefix] = update.Value
+      }
       if update.Delete { mp.pendingBatches[hash].Deletes[prefix] = struct{}{} }
       if update.Count != 0 {
         mp.pendingBatches[hash].prefixes[prefix] = update.Count
-- 
2.43.0


From 6ca7dc90f2a94a2a5c53ffee9f204933af776be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:37 +0000
Subject: [PATCH 03/31] fix: match prefixes of keys that begin with a slash

path.Dir never gets past "/", so looking up the prefix of such a key looped
forever.
---
 delivery/consumer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/delivery/consumer.go b/delivery/consumer.go
index 62baa9f..c50e94d 100644
--- a/delivery/consumer.go
+++ b/delivery/consumer.go
@@ -155,8 +155,8 @@ func (pb *PendingBatch) DecPrefixCounter(p string) bool {
     pb.prefixes[p]--
     return true
   }
-  for d := p; d != "."; d = path.Dir(d) {
-    k := strings.TrimPrefix(d, "/") + "/"
+  for d, last := p, ""; d != "." && d != last; d, last = path.Dir(d), d {
+    k := strings.TrimSuffix(d, "/") + "/"
     if v, ok := pb.prefixes[k]; ok && v > 0 {
       pb.prefixes[k]--
       return true
-- 
2.43.0


From d5db2fe52e2b472303901afe6252cf1c074a70e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:45 +0000
Subject: [PATCH 04/31] fix: report an incomplete subbatch in WhyNotReady

The message was built but not returned, so a block that was waiting for
subbatch messages was reported as ready.
---
 delivery/consumer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delivery/consumer.go b/delivery/consumer.go
index c50e94d..2edbff9 100644
--- a/delivery/consumer.go
+++ b/delivery/consumer.go
@@ -93,7 +93,7 @@ func (pb *PendingBatch) whyNotReady() string {
   }
   for batchid, batch := range pb.batches {
     for i, b := range batch {
-      if !b { fmt.Sprintf("Pending batch '%#x'[%v]", batchid, i) }
+      if !b { return fmt.Sprintf("Pending batch '%#x'[%v]", batchid, i) }
     }
   }
   return "ready"
-- 
2.43.0


From 02a21aabfcea5624e63037eb86c12d7e425732dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:14 +0000
Subject: [PATCH 05/31] fix: release descendants that were waiting beside the
 branch being evaluated

---
 delivery/ordering.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/delivery/ordering.go b/delivery/ordering.go
index 1d253ca..227070f 100644
--- a/delivery/ordering.go
+++ b/delivery/ordering.go
@@ -209,6 +209,7 @@ func (omp *OrderedMessageProcessor) HandlePendingBatch(pb *PendingBatch, reorg b
       // log.Debug("Weight does not justify reorg, but child is available", "child", child)
       // This block's child is already pending, process it instead
       if pb, ok := omp.pending[child]; ok {
+        omp.finishSiblings(pb)
         omp.HandlePendingBatch(pb, true)
       }
       omp.queue(pb)
-- 
2.43.0


From 561440955e89bafc7e2db758c57f4f1a852b0965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:14 +0000
Subject: [PATCH 06/31] fix: remember enough history for a reorg of exactly
 ReorgThreshold blocks

---
 delivery/ordering.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delivery/ordering.go b/delivery/ordering.go
index 227070f..106c637 100644
--- a/delivery/ordering.go
+++ b/delivery/ordering.go
@@ -54,7 +54,7 @@ func NewOrderedMessageProcessor(cfg *ConsumerConfig) (*OrderedMessageProcessor,
     initEmpty: cfg.LastHash == (types.Hash{}),
   }
   var err error
-  omp.finished, err = lru.NewWithEvict(int(cfg.ReorgThreshold * 2), func(k, v interface{}) {
+  omp.finished, err = lru.NewWithEvict(int(cfg.ReorgThreshold * 2 + 2), func(k, v interface{}) {
     hash := k.(types.Hash)
     omp.evict(hash)
   })
-- 
2.43.0


From 70910fe15a785e5213ea2499cba9e959e209e815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:58 +0000
Subject: [PATCH 07/31] fix: reconsider a block whose common ancestor was not
 available yet

---
 delivery/ordering.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/delivery/ordering.go b/delivery/ordering.go
index 106c637..6dc176b 100644
--- a/delivery/ordering.go
+++ b/delivery/ordering.go
@@ -195,13 +195,13 @@ func (omp *OrderedMessageProcessor) HandlePendingBatch(pb *PendingBatch, reorg b
       if pb.Weight.Cmp(omp.lastWeight) > 0 {
         // Evaluate Reorg
         removed, added, err := omp.prepareReorg(pb, lastBlock)
-        if err != nil {
-          log.Error("Error finding common ancestor", "new", pb.Hash, "number", pb.Number, "old", omp.lastHash, "error", err)
+        if err == nil {
+          log.Debug("Emitting reorg")
+          omp.prepareEmit(added, removed)
           return
         }
-        log.Debug("Emitting reorg")
-        omp.prepareEmit(added, removed)
-        return
+        // The history needed may still arrive, so keep this block around.
+        log.Error("Error finding common ancestor", "new", pb.Hash, "number", pb.Number, "old", omp.lastHash, "error", err)
       }
     }
     omp.finished.Add(pb.Hash, struct{}{})
-- 
2.43.0


From 7fe2c5d4dbb1f2f00190b566c34aaee4967c9e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:27 +0000
Subject: [PATCH 08/31] fix: consider the descendants of an older block that
 arrives after them

---
 delivery/ordering.go | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/delivery/ordering.go b/delivery/ordering.go
index 6dc176b..de9c8b7 100644
--- a/delivery/ordering.go
+++ b/delivery/ordering.go
@@ -205,16 +205,7 @@ func (omp *OrderedMessageProcessor) HandlePendingBatch(pb *PendingBatch, reorg b
       }
     }
     omp.finished.Add(pb.Hash, struct{}{})
-    if child, ok := omp.getPendingChild(pb.Hash); ok {
-      // log.Debug("Weight does not justify reorg, but child is available", "child", child)
-      // This block's child is already pending, process it instead
-      if pb, ok := omp.pending[child]; ok {
-        omp.finishSiblings(pb)
-        omp.HandlePendingBatch(pb, true)
-      }
-      omp.queue(pb)
-      return
-    }
+    omp.handlePendingChild(pb.Hash)
     // block is not heavy enough for reorg, nor are any of its children, queue for later
     omp.queue(pb)
   } else {
@@ -228,12 +219,24 @@ func (omp *OrderedMessageProcessor) HandlePendingBatch(pb *PendingBatch, reorg b
         return
       }
       omp.finished.Add(pb.Hash, struct{}{})
+      omp.handlePendingChild(pb.Hash)
     }
     // Queue for potential later use
     omp.queue(pb)
   }
 }
 
+// handlePendingChild processes the child of a finished block that parents the
+// heaviest chain of descendants, if any of its children have been queued.
+func (omp *OrderedMessageProcessor) handlePendingChild(hash types.Hash) {
+  child, ok := omp.getPendingChild(hash)
+  if !ok { return }
+  if pb, ok := omp.pending[child]; ok {
+    omp.finishSiblings(pb)
+    omp.HandlePendingBatch(pb, true)
+  }
+}
+
 func (omp *OrderedMessageProcessor) queue(pb *PendingBatch) {
   if _, ok := omp.queued[pb.ParentHash]; !ok { omp.queued[pb.ParentHash] = make(map[types.Hash]struct{}) }
   omp.queued[pb.ParentHash][pb.Hash] = struct{}{}
-- 
2.43.0


From c45cdde19abd9f241f7d9f10ab9c48dfcdc724ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:42 +0000
Subject: [PATCH 09/31] fix: do not expect the subbatches of a rejected block

---
 delivery/producer.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/delivery/producer.go b/delivery/producer.go
index 270a22d..468cc24 100644
--- a/delivery/producer.go
+++ b/delivery/producer.go
@@ -102,6 +102,7 @@ func (p *Producer) AddBlock(number int64, hash, parentHash types.Hash, weight *b
     }
   }
   //Create batch messages
+  newBatches := make(map[types.Hash]*batchInfo)
   for k, h := range batches {
     if h == (types.Hash{}) {
       return nil, ErrInvalidBatch
@@ -118,12 +119,16 @@ func (p *Producer) AddBlock(number int64, hash, parentHash types.Hash, weight *b
         break
       }
     }
-    p.pendingBatches[h] = bi
+    newBatches[h] = bi
   }
   for k, c := range counts {
     if _, ok := b.Updates[k]; ok { return nil, ErrPrefixConflict }
     b.Updates[k] = BatchRecord{Count: c}
   }
+  // Only expect these batches now that we know the block is valid
+  for h, bi := range newBatches {
+    p.pendingBatches[h] = bi
+  }
   topicMessages[p.defaultTopic] = append(topicMessages[p.defaultTopic], &message{
       key: BatchType.GetKey(hash.Bytes()),
       value: b.EncodeAvro(),
-- 
2.43.0


From 643a049710eef318849c4d8f6618763b5300ea8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:03 +0000
Subject: [PATCH 10/31] fix: let waits for a repeated or pending block resolve
 when it comes whole

A block handed over whole was announced with a new wait channel even if it was
pending, leaving those that waited on the first channel, or had been completed
before, leaving later waits on a channel that nobody closes.
---
 delivery/consumer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/delivery/consumer.go b/delivery/consumer.go
index 2edbff9..4d68e07 100644
--- a/delivery/consumer.go
+++ b/delivery/consumer.go
@@ -252,6 +252,11 @@ func (mp *MessageProcessor) evictOlderThan(n int64) {
 }
 
 func (mp *MessageProcessor) ProcessCompleteBatch(pb *PendingBatch) {
+	if mp.completed.Contains(pb.Hash) { return } // We've recently emitted this block
+	if pending, ok := mp.pendingBatches[pb.Hash]; ok {
+		// The block has already been announced, so what's waiting for it waits on its channel.
+		pb.waitCh = pending.waitCh
+	}
 	if pb.waitCh == nil {
 		pb.waitCh = make(chan struct{})
 	}
-- 
2.43.0


From 6c67f838d45eae27be602f4edfc7aa4d8ea8bc16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:49 +0000
Subject: [PATCH 11/31] fix: handle large reorgs and batches in the order they
 were received

The ordered processor selected between two buffered channels, so a large reorg
could be handled before batches that preceded it, which undid it, or after
batches that followed it, which were then never emitted.
---
 delivery/ordering.go | 40 ++++++++++++++++++++++++++++++++--------
 1 file changed, 32 insertions(+), 8 deletions(-)

diff --git a/delivery/ordering.go b/delivery/ordering.go
index de9c8b7..3862642 100644
--- a/delivery/ordering.go
+++ b/delivery/ordering.go
@@ -59,14 +59,43 @@ func NewOrderedMessageProcessor(cfg *ConsumerConfig) (*OrderedMessageProcessor,
     omp.evict(hash)
   })
   omp.finished.Add(cfg.LastHash, struct{}{})
-  ch := make(chan *PendingBatch, 100)
-  reorgCh := make(chan map[int64]types.Hash, 100)
+  ch := make(chan *PendingBatch)
+  reorgCh := make(chan map[int64]types.Hash)
+  events := make(chan interface{}, 100)
   sub := omp.mp.Subscribe(ch)
   reorgSub := omp.mp.SubscribeReorgs(reorgCh)
+  stopped := make(chan struct{})
   go func() {
+    // ch and reorgCh are unbuffered, so batches and reorgs get into events in
+    // the order the message processor sent them.
     for {
+      var event interface{}
       select {
-      case pb := <-ch:
+      case event = <-ch:
+      case event = <-reorgCh:
+      case <-stopped:
+        return
+      }
+      select {
+      case events <- event:
+      case <-stopped:
+        return
+      }
+    }
+  }()
+  go func() {
+    defer close(stopped)
+    for {
+      select {
+      case event := <-events:
+        if reorg, ok := event.(map[int64]types.Hash); ok {
+          for num, hash := range reorg {
+            omp.HandleReorg(num, hash)
+            break // There should never be more than 1 kv pair in this map
+          }
+          continue
+        }
+        pb := event.(*PendingBatch)
         lastBlock := cfg.LastEmittedNum
         if batch, ok := omp.pending[omp.lastHash]; ok {
           lastBlock = batch.Number
@@ -75,11 +104,6 @@ func NewOrderedMessageProcessor(cfg *ConsumerConfig) (*OrderedMessageProcessor,
         queuedGauge.Update(int64(len(omp.queued)))
         log.Debug("OMP Got Pending Batch", "blocknumber", pb.Number, "pending", len(omp.pending), "queued", len(omp.queued), "lastnum", lastBlock, "lasthash", omp.lastHash, "parent", pb.ParentHash, "hash", pb.Hash)
         omp.HandlePendingBatch(pb, false)
-      case reorg := <-reorgCh:
-        for num, hash := range reorg {
-          omp.HandleReorg(num, hash)
-          break // There should never be more than 1 kv pair in this map
-        }
       case err := <-sub.Err():
         log.Error("Subscription error", "err", err.Error())
       case err := <-reorgSub.Err():
-- 
2.43.0


From 93a0f85b3fc43ab5f4a62287207fcd4d5c25fb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:07 +0000
Subject: [PATCH 12/31] fix: handle large reorgs from websockets in order with
 the batches around them

The connection's goroutine changed the head of the ordered processor while that
was still working through batches that had been received before.
---
 delivery/consumer.go     | 24 +++++++++++++++---------
 delivery/ordering.go     |  4 ++++
 transports/websockets.go |  4 +++-
 3 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/delivery/consumer.go b/delivery/consumer.go
index 4d68e07..bf3ee6e 100644
--- a/delivery/consumer.go
+++ b/delivery/consumer.go
@@ -272,6 +272,20 @@ func (mp *MessageProcessor) ProcessCompleteBatch(pb *PendingBatch) {
 	delete(mp.pendingBatches, pb.Hash)
 }
 
+// ProcessReorg takes in a large reorg that did not come as a message. Blocks
+// that were completed before may be sent again after it.
+func (mp *MessageProcessor) ProcessReorg(num int64, hash types.Hash) error {
+	var err error
+	mp.completed, err = lru.New(int(2 * mp.reorgThreshold))
+	if err != nil {
+		return err
+	}
+	mp.oldBlocks = make(map[types.Hash]struct{})
+	mp.lastEmittedNum = num
+	mp.reorgFeed.Send(map[int64]types.Hash{num: hash})
+	return nil
+}
+
 // ProcessMessage takes in messages and assembles completed blocks of messages.
 func (mp *MessageProcessor) ProcessMessage(m ResumptionMessage) error {
   EVICTLOOP:
@@ -291,17 +305,9 @@ func (mp *MessageProcessor) ProcessMessage(m ResumptionMessage) error {
   mp.updateResumption(m.Source(), m.Offset())
   hash := types.BytesToHash(m.Key()[1:33])
   if MessageType(m.Key()[0]) == ReorgType {
-    var err error
-    mp.completed, err = lru.New(int(2 * mp.reorgThreshold))
-    if err != nil {
-      return err
-    }
-    mp.oldBlocks = make(map[types.Hash]struct{})
     var num int
     if err := avro.Unmarshal(intSchema, m.Value(), &num); err != nil { return err }
-    mp.lastEmittedNum = int64(num)
-    mp.reorgFeed.Send(map[int64]types.Hash{mp.lastEmittedNum: hash})
-    return nil
+    return mp.ProcessReorg(int64(num), hash)
   }
   if mp.completed.Contains(hash) { return nil }   // We've recently emitted this block
   if _, ok := mp.oldBlocks[hash]; ok { return nil } // This block is older than the reorg threshold, skip anything related to it.
diff --git a/delivery/ordering.go b/delivery/ordering.go
index 3862642..af64cb8 100644
--- a/delivery/ordering.go
+++ b/delivery/ordering.go
@@ -181,6 +181,10 @@ func (omp *OrderedMessageProcessor) ProcessCompleteBatch(pb *PendingBatch) {
 	omp.mp.ProcessCompleteBatch(pb)
 }
 
+func (omp *OrderedMessageProcessor) ProcessReorg(num int64, hash types.Hash) error {
+	return omp.mp.ProcessReorg(num, hash)
+}
+
 func (omp *OrderedMessageProcessor) SubscribeReorg(ch chan<- map[int64]types.Hash) types.Subscription {
   return omp.reorgFeed.Subscribe(ch)
 }
diff --git a/transports/websockets.go b/transports/websockets.go
index 5db3081..6a427fd 100644
--- a/transports/websockets.go
+++ b/transports/websockets.go
@@ -405,7 +405,9 @@ func (c *websocketConsumer) Start() error {
 						close(c.ready)
 					}
 				case "reorg":
-					c.omp.HandleReorg(int64(item.Batch.Number), item.Batch.Hash)
+					if err := c.omp.ProcessReorg(int64(item.Batch.Number), item.Batch.Hash); err != nil {
+						log.Error("Error processing reorg", "err", err)
+					}
 				case "batch":
 					pb := &delivery.PendingBatch{
 						Number: int64(item.Batch.Number),
-- 
2.43.0


From e83a77ea783fa644ce7ec8b440592688f5c3a585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:57 +0000
Subject: [PATCH 13/31] fix: accept the blocks above a large reorg again

A large reorg lets the message processor hand over blocks it already
completed, but the ordering processor took them for repeats, so a consumer
did not follow a branch that starts with blocks it emitted before.
---
 delivery/ordering.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/delivery/ordering.go b/delivery/ordering.go
index af64cb8..e173dff 100644
--- a/delivery/ordering.go
+++ b/delivery/ordering.go
@@ -54,10 +54,7 @@ func NewOrderedMessageProcessor(cfg *ConsumerConfig) (*OrderedMessageProcessor,
     initEmpty: cfg.LastHash == (types.Hash{}),
   }
   var err error
-  omp.finished, err = lru.NewWithEvict(int(cfg.ReorgThreshold * 2 + 2), func(k, v interface{}) {
-    hash := k.(types.Hash)
-    omp.evict(hash)
-  })
+  omp.finished, err = lru.NewWithEvict(int(cfg.ReorgThreshold * 2 + 2), omp.onFinishedEvicted)
   omp.finished.Add(cfg.LastHash, struct{}{})
   ch := make(chan *PendingBatch)
   reorgCh := make(chan map[int64]types.Hash)
@@ -125,6 +122,10 @@ func NewOrderedMessageProcessor(cfg *ConsumerConfig) (*OrderedMessageProcessor,
   return omp, err
 }
 
+func (omp *OrderedMessageProcessor) onFinishedEvicted(k, v interface{}) {
+  omp.evict(k.(types.Hash))
+}
+
 func (omp *OrderedMessageProcessor) evict(hash types.Hash) {
   if pb, ok := omp.pending[hash]; ok {
     delete(omp.pending, pb.Hash)
@@ -273,6 +274,16 @@ func (omp *OrderedMessageProcessor) queue(pb *PendingBatch) {
 func (omp *OrderedMessageProcessor) HandleReorg(num int64, hash types.Hash) {
   omp.lastHash = hash
   // omp.lastNumber = num
+  omp.initEmpty = false
+  // Blocks above this one may be sent again, so they are not finished anymore.
+  if finished, err := lru.NewWithEvict(int(omp.reorgThreshold * 2 + 2), omp.onFinishedEvicted); err == nil {
+    for _, k := range omp.finished.Keys() {
+      if pb, ok := omp.pending[k.(types.Hash)]; k.(types.Hash) == hash || (ok && pb.Number <= num) {
+        finished.Add(k, struct{}{})
+      }
+    }
+    omp.finished = finished
+  }
   omp.reorgFeed.Send(map[int64]types.Hash{num: hash})
 }
 
-- 
2.43.0


From 40e148ef29045f1313c043e482c05ddac412a59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:15 +0000
Subject: [PATCH 14/31] fix: don't let Kafka partitions warm up before all of
 them are set up

A partition that got its first message while others were still being set up
passed the warm-up by itself. If it was also caught up by then, the drumline
stopped before the others joined it and they stalled for good.
---
 transports/kafka.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/transports/kafka.go b/transports/kafka.go
index 3c3272b..fa6de8e 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -544,6 +544,8 @@ func (kc *KafkaConsumer) Start() error {
   messages := make(chan *sarama.ConsumerMessage, 512) // 512 is arbitrary. Worked for Flume, but may require tuning for Cardinal
   partitionConsumers := []sarama.PartitionConsumer{}
   heartbeats := make(chan types.Hash)
+  // Partitions can't finish warming up until all of them have been set up
+  warmupWg.Add(1)
   for _, topic := range kc.topics {
     partitions, err := consumer.Partitions(topic)
     if err != nil { return err }
@@ -616,6 +618,7 @@ func (kc *KafkaConsumer) Start() error {
       partitionConsumers = append(partitionConsumers, pc)
     }
   }
+  warmupWg.Done()
   var readych chan time.Time
   readyWaiter := func() <-chan time.Time  {
     // If readych isn't ready to receive, use it as the sender, eliminating any
-- 
2.43.0


From 034dbd031da6cfbefd5a99be7226b60915f83dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:16 +0000
Subject: [PATCH 15/31] fix: don't wait for messages on Kafka partitions that
 have none

A partition with nothing to read when the consumer starts kept every other
partition waiting, and the consumer from becoming ready, until somebody
wrote to it.
---
 transports/kafka.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/transports/kafka.go b/transports/kafka.go
index fa6de8e..725c887 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -579,8 +579,16 @@ func (kc *KafkaConsumer) Start() error {
         if err != nil { return err }
         startOffset = offset
       }
+      // If there is nothing to read yet, there won't be a message to tell that
+      // this partition is warm and ready.
+      caughtUp := startOffset == sarama.OffsetNewest
+      if newest, err := kc.client.GetOffset(topic, partid, sarama.OffsetNewest); err == nil && !caughtUp {
+        first := startOffset
+        if first == sarama.OffsetOldest { first, err = kc.client.GetOffset(topic, partid, sarama.OffsetOldest) }
+        caughtUp = err == nil && first >= newest
+      }
       log.Info("Starting partition consumer", "topic", topic, "partition", partid, "offset", offset, "startOffset", startOffset)
-      go func(pc sarama.PartitionConsumer, startOffset int64, partid int32, i int, topic string) {
+      go func(pc sarama.PartitionConsumer, startOffset int64, partid int32, i int, topic string, caughtUp bool) {
         kc.shutdownWg.Add(1)
         defer kc.shutdownWg.Done()
         dl.AddScale(i, startOffset)
@@ -588,6 +596,15 @@ func (kc *KafkaConsumer) Start() error {
         warm := false
         meter := metrics.NewMinorMeter(fmt.Sprintf("streams/kafka/%v/%v/meter", topic, partid))
         lagGauge := metrics.NewMinorGauge(fmt.Sprintf("streams/kafka/%v/%v/lag", topic, partid))
+        if caughtUp {
+          warmupWg.Done()
+          warmupWg.Wait()
+          warm = true
+          once.Do(func() {
+            dl.Done(i)
+            readyWg.Done()
+          })
+        }
         for input := range pc.Messages() {
           meter.Mark(1)
           lagGauge.Update(pc.HighWaterMarkOffset() - input.Offset)
@@ -614,7 +631,7 @@ func (kc *KafkaConsumer) Start() error {
           }
           messages <- input
         }
-      }(pc, startOffset, partid, len(partitionConsumers), topic)
+      }(pc, startOffset, partid, len(partitionConsumers), topic, caughtUp)
       partitionConsumers = append(partitionConsumers, pc)
     }
   }
-- 
2.43.0


From ea53155b9984179aa9e991bd6415ec9ad8a4c220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:07 +0000
Subject: [PATCH 16/31] fix: guard the heartbeats of producers against
 concurrent use

ProducerCount iterated over a map that another goroutine updates, which ends
the process.
---
 transports/kafka.go | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/transports/kafka.go b/transports/kafka.go
index 725c887..fd18526 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -28,15 +28,26 @@ var (
   producerCount = metrics.NewMajorGauge("/streams/producers")
 )
 
-type pingTracker map[types.Hash]time.Time
+type pingTracker struct {
+  lock  sync.Mutex
+  pings map[types.Hash]time.Time
+}
+
+func newPingTracker() *pingTracker {
+  return &pingTracker{pings: make(map[types.Hash]time.Time)}
+}
 
-func (pt pingTracker) update(key types.Hash) {
-  pt[key] = time.Now()
+func (pt *pingTracker) update(key types.Hash) {
+  pt.lock.Lock()
+  defer pt.lock.Unlock()
+  pt.pings[key] = time.Now()
 }
 
-func (pt pingTracker) ProducerCount(d time.Duration) uint {
+func (pt *pingTracker) ProducerCount(d time.Duration) uint {
+  pt.lock.Lock()
+  defer pt.lock.Unlock()
   var count uint
-  for _, v := range pt {
+  for _, v := range pt.pings {
     if time.Since(v) < d {
       count++
     }
@@ -221,7 +232,7 @@ type KafkaProducer struct{
   brokerURL    string
   recentHashes *lru.Cache
   skipBatches  *lru.Cache
-  pt           pingTracker
+  pt           *pingTracker
   healthy      bool
 }
 
@@ -245,7 +256,7 @@ func NewKafkaProducer(brokerURL, defaultTopic string, schema map[string]string)
   if err != nil {
     return nil, err
   }
-  pt := make(pingTracker)
+  pt := newPingTracker()
   client, err := sarama.NewClient(brokers, config)
   if err != nil { return nil, err }
   consumer, err := sarama.NewConsumerFromClient(client)
@@ -469,7 +480,7 @@ type KafkaConsumer struct{
   shutdownWg   sync.WaitGroup
   isReorg      bool
   startHash    types.Hash
-  pt           pingTracker
+  pt           *pingTracker
   waiter       waiter.Waiter
 }
 
@@ -499,7 +510,7 @@ func kafkaConsumerWithOMP(omp *delivery.OrderedMessageProcessor, brokerURL, defa
     client: client,
     rollback: rollback,
     startHash: lastHash,
-    pt: make(pingTracker),
+    pt: newPingTracker(),
   }, nil
 }
 
@@ -694,6 +705,7 @@ func (kc *KafkaConsumer) Start() error {
               resumption: make(map[string]int64),
               client: kc.client,
               isReorg: true,
+              pt: kc.pt,
             }
             rekc.Start()
             <-rekc.Ready()
-- 
2.43.0


From f5016c36960209c38ee595aedbcef65ad0cf7a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:27 +0000
Subject: [PATCH 17/31] fix: don't wait for messages on Kafka partitions whose
 messages have all expired

---
 transports/kafka.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/transports/kafka.go b/transports/kafka.go
index fd18526..f74f48a 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -274,8 +274,8 @@ func NewKafkaProducer(brokerURL, defaultTopic string, schema map[string]string)
       if err != nil {
         offset = sarama.OffsetNewest
         once.Do(readyWg.Done)
-      } else if offset == 0 {
-        offset = sarama.OffsetNewest
+      } else if oldest, err := client.GetOffset(defaultTopic, partid, sarama.OffsetOldest); offset == 0 || (err == nil && oldest >= offset) {
+        // There is nothing on this partition to wait for
         once.Do(readyWg.Done)
       }
       offset -= 100
-- 
2.43.0


From 66a260661911fb2ee378969b27118ae985bf132f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:27 +0000
Subject: [PATCH 18/31] fix: know the last block on the log before a Kafka
 producer can be used

---
 transports/kafka.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/transports/kafka.go b/transports/kafka.go
index f74f48a..d70bd11 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -263,7 +263,7 @@ func NewKafkaProducer(brokerURL, defaultTopic string, schema map[string]string)
   if err != nil { return nil, err }
   partitions, err := consumer.Partitions(defaultTopic)
   if err != nil { return nil, err }
-  hashCh := make(chan types.Hash)
+  cache, _ := lru.New(4096)
   heartbeats := make(chan types.Hash)
   var readyWg sync.WaitGroup
   for _, partid := range partitions {
@@ -293,13 +293,15 @@ func NewKafkaProducer(brokerURL, defaultTopic string, schema map[string]string)
         select {
         case input := <-pc.Messages():
           if input == nil { break PARTITION_LOOP }
+          if len(input.Key) > 0 && delivery.MessageType(input.Key[0]) == delivery.BatchType {
+            // This has to be known before the producer can be used
+            cache.Add(types.BytesToHash(input.Key[1:33]), struct{}{})
+          }
           if hwm := pc.HighWaterMarkOffset(); hwm - input.Offset <= 1 {
             once.Do(readyWg.Done)
           }
           if len(input.Key) == 0 { continue PARTITION_LOOP }
           switch delivery.MessageType(input.Key[0]) {
-          case delivery.BatchType:
-            hashCh <- types.BytesToHash(input.Key[1:33])
           case delivery.PingType:
             if !bytes.Equal(input.Key[1:], idBytes[:]) { // Ignore our own heartbeats
               heartbeats <- types.BytesToHash(input.Key[1:])
@@ -309,7 +311,6 @@ func NewKafkaProducer(brokerURL, defaultTopic string, schema map[string]string)
       }
     }(partid, &readyWg)
   }
-  cache, _ := lru.New(4096)
   skipBatches, _ := lru.New(1024)
   kp := &KafkaProducer{dp: dp, producer: producer, reorgTopic: "", defaultTopic: defaultTopic, brokerURL: brokerURL, recentHashes: cache, skipBatches: skipBatches, pt: pt, healthy: true}
   go func() {
@@ -321,8 +322,6 @@ func NewKafkaProducer(brokerURL, defaultTopic string, schema map[string]string)
         if kp.healthy {
             producer.Input() <- &sarama.ProducerMessage{Topic: defaultTopic, Key: sarama.ByteEncoder(delivery.PingType.GetKey(idBytes[:])), Value: sarama.ByteEncoder(b)}
         }
-      case h := <-hashCh:
-        cache.Add(h, struct{}{})
       case h := <-heartbeats:
         kp.pt.update(h)
       }
-- 
2.43.0


From 0ebac96df9a35482faee28d7aca1ee595169a03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:16 +0000
Subject: [PATCH 19/31] fix: don't miss blocks between history and feed of a
 websocket subscription

---
 transports/websockets.go | 65 +++++++++++++++++++++++++---------------
 1 file changed, 41 insertions(+), 24 deletions(-)

diff --git a/transports/websockets.go b/transports/websockets.go
index 6a427fd..5381b5a 100644
--- a/transports/websockets.go
+++ b/transports/websockets.go
@@ -228,12 +228,14 @@ func (s *websocketStreamsService) Streams(ctx context.Context, number hexutil.Ui
 		return nil, err
 	}
 	subch := make(chan *resultMessage, 1000)
-	var sub types.Subscription
-	sub = &nullSubscription{}
-	var initwg sync.WaitGroup
-	initwg.Add(1)
-	go func() {
-		for block := range initBlocks {
+	send := func(msg *resultMessage) {
+		select {
+		case subch <- msg:
+		case <-ctx.Done():
+		}
+	}
+	sendBlocks := func(blocks chan *delivery.PendingBatch) {
+		for block := range blocks {
 			values := make(map[string]hexutil.Bytes)
 			deletes := make([]string, 0, len(block.Deletes))
 			for k, v := range block.Values {
@@ -252,7 +254,7 @@ func (s *websocketStreamsService) Streams(ctx context.Context, number hexutil.Ui
                 time.Sleep(10 * time.Millisecond)
             }
 
-			subch <- &resultMessage{
+			send(&resultMessage{
 				Type: "batch",
 				Batch: &TransportBatch{
 					Number: hexutil.Uint64(uint64(block.Number)),
@@ -263,31 +265,46 @@ func (s *websocketStreamsService) Streams(ctx context.Context, number hexutil.Ui
 					Values: values,
 					Deletes: deletes,
 				},
-			}
+			})
+			number, hash = hexutil.Uint64(uint64(block.Number)), block.Hash
 		}
-		if ctx.Err() == nil {
-			sub = s.feed.Subscribe(subch)
-			subch <- &resultMessage{
-				Type: "ready",
+	}
+	go func() {
+		defer func() {
+			s.closemu.Lock()
+			close(subch)
+			s.closemu.Unlock()
+		}()
+		sendBlocks(initBlocks)
+		if ctx.Err() != nil { return }
+		live := make(chan *resultMessage, 1000)
+		sub := s.feed.Subscribe(live)
+		defer sub.Unsubscribe()
+		// Blocks may have been added between the last block we got from the
+		// resumer and the start of our subscription. These need to be sent before
+		// anything from the subscription, as consumers resume from the last block
+		// they got.
+		missed, err := s.resumer.BlocksFrom(ctx, uint64(number), hash)
+		for err != nil {
+			log.Warn("Error getting blocks added during initialization", "err", err)
+			select {
+			case <-time.After(time.Second):
+				missed, err = s.resumer.BlocksFrom(ctx, uint64(number), hash)
+			case <-ctx.Done():
+				return
 			}
 		}
-		initwg.Done()
-	}()
-	go func() {
+		sendBlocks(missed)
+		send(&resultMessage{
+			Type: "ready",
+		})
 		for {
 			select {
+			case msg := <-live:
+				send(msg)
 			case <-ctx.Done():
-				initwg.Wait()
-				sub.Unsubscribe()
-				s.closemu.Lock()
-				close(subch)
-				s.closemu.Unlock()
 				return
 			case <-sub.Err():
-				sub.Unsubscribe()
-				s.closemu.Lock()
-				close(subch)
-				s.closemu.Unlock()
 				return
 			}
 		}
-- 
2.43.0


From c967b9a2c729b76f3b99b249e219c74336e82e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:33 +0000
Subject: [PATCH 20/31] fix: close websocket consumers that are connecting

---
 transports/websockets.go | 37 ++++++++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/transports/websockets.go b/transports/websockets.go
index 5381b5a..3b03ce5 100644
--- a/transports/websockets.go
+++ b/transports/websockets.go
@@ -320,6 +320,7 @@ type websocketConsumer struct {
 	pendingBatches types.Feed
 	reorgs types.Feed
 	conn *websocket.Conn
+	connmu sync.Mutex
 	ready chan struct{}
 	quit bool
 	lastNum hexutil.Uint64
@@ -336,18 +337,22 @@ func (*websocketConsumer) ProducerCount(time.Duration) uint {
 }
 
 func (c *websocketConsumer) Start() error {
-	var err error
 	connected := make(chan struct{}, 8)
 	isReady := false
 	go func() {
-		for !c.quit {
-			c.conn, _, err = websocket.DefaultDialer.Dial(c.url, nil)
+		for !c.closed() {
+			conn, _, err := websocket.DefaultDialer.Dial(c.url, nil)
 			if err != nil {
 				// If we can't connect, don't slam the server with connection attempts
 				log.Warn("Dial failed", "url", c.url, "error", err)
 				time.Sleep(time.Second)
 				continue
 			}
+			if !c.setConn(conn) {
+				// Closed while we were connecting
+				conn.Close()
+				return
+			}
 			batches := make(map[types.Hash]*delivery.PendingBatch)
 			subbatches := make(map[types.Hash]*transportSubbatch)
 			pendingSubbatches := make(map[types.Hash]map[types.Hash]struct{})
@@ -358,10 +363,10 @@ func (c *websocketConsumer) Start() error {
 				continue
 			}
 			callData, _ := json.Marshal(call)
-			c.conn.WriteMessage(websocket.TextMessage, callData)
+			conn.WriteMessage(websocket.TextMessage, callData)
 			var subid *hexutil.Uint64
 			for subid == nil {
-				_, message, err := c.conn.ReadMessage()
+				_, message, err := conn.ReadMessage()
 				if err != nil {
 					log.Warn("Read error. Resetting Connection.", "err", err)
 					time.Sleep(time.Second)
@@ -395,7 +400,7 @@ func (c *websocketConsumer) Start() error {
 			default:
 			}
 			for {
-				_, message, err := c.conn.ReadMessage()
+				_, message, err := conn.ReadMessage()
 				if err != nil {
 					log.Debug("Read error. Resetting connection.", "err", err)
 					break
@@ -496,8 +501,26 @@ func (c *websocketConsumer) SubscribeReorg(ch chan<- map[int64]types.Hash) types
 	return c.omp.SubscribeReorg(ch)
 }
 func (c *websocketConsumer) Close() {
+	c.connmu.Lock()
+	defer c.connmu.Unlock()
 	c.quit = true
-	c.conn.Close()
+	if c.conn != nil {
+		c.conn.Close()
+	}
+}
+func (c *websocketConsumer) closed() bool {
+	c.connmu.Lock()
+	defer c.connmu.Unlock()
+	return c.quit
+}
+// setConn records the current connection, unless the consumer was closed.
+func (c *websocketConsumer) setConn(conn *websocket.Conn) bool {
+	c.connmu.Lock()
+	defer c.connmu.Unlock()
+	if !c.quit {
+		c.conn = conn
+	}
+	return !c.quit
 }
 func (c *websocketConsumer) Ready() <-chan struct{} {
 	return c.ready
-- 
2.43.0


From 62085644a8e6a74b4fc9e7c86b571fc54601a4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:33 +0000
Subject: [PATCH 21/31] fix: keep websocket notifications that overtake the
 response to the subscription

---
 transports/websockets.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/transports/websockets.go b/transports/websockets.go
index 3b03ce5..bc3dc5a 100644
--- a/transports/websockets.go
+++ b/transports/websockets.go
@@ -365,6 +365,8 @@ func (c *websocketConsumer) Start() error {
 			callData, _ := json.Marshal(call)
 			conn.WriteMessage(websocket.TextMessage, callData)
 			var subid *hexutil.Uint64
+			// The first notifications may overtake the response to the subscription
+			early := [][]byte{}
 			for subid == nil {
 				_, message, err := conn.ReadMessage()
 				if err != nil {
@@ -389,6 +391,8 @@ func (c *websocketConsumer) Start() error {
 						x := hexutil.Uint64(encodedid)
 						subid = &x
 					}
+				} else if len(response.ID) == 0 {
+					early = append(early, message)
 				} else {
 					log.Warn("Unexpected response", "wanted", call.ID, "got", response.ID)
 				}
@@ -400,8 +404,10 @@ func (c *websocketConsumer) Start() error {
 			default:
 			}
 			for {
-				_, message, err := conn.ReadMessage()
-				if err != nil {
+				var message []byte
+				if len(early) > 0 {
+					message, early = early[0], early[1:]
+				} else if _, message, err = conn.ReadMessage(); err != nil {
 					log.Debug("Read error. Resetting connection.", "err", err)
 					break
 				}
-- 
2.43.0


From b85af91898b4359c92614727d19a1c6866dc6a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:33 +0000
Subject: [PATCH 22/31] fix: retry websocket subscriptions that were refused

---
 transports/websockets.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/transports/websockets.go b/transports/websockets.go
index bc3dc5a..6af33b4 100644
--- a/transports/websockets.go
+++ b/transports/websockets.go
@@ -390,6 +390,10 @@ func (c *websocketConsumer) Start() error {
 						}
 						x := hexutil.Uint64(encodedid)
 						subid = &x
+					} else {
+						log.Warn("Subscription refused. Resetting Connection.", "response", string(message))
+						time.Sleep(time.Second)
+						break
 					}
 				} else if len(response.ID) == 0 {
 					early = append(early, message)
@@ -397,6 +401,10 @@ func (c *websocketConsumer) Start() error {
 					log.Warn("Unexpected response", "wanted", call.ID, "got", response.ID)
 				}
 			}
+			if subid == nil {
+				conn.Close()
+				continue
+			}
 			log.Info("Subscription established", "id", subid)
 			var notification rpc.SubscriptionResponseRaw
 			select {
-- 
2.43.0


From 3adf7170877fb7f938e55e8ee92fb195774f6aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:34 +0000
Subject: [PATCH 23/31] fix: resume websocket feeds from before incomplete
 blocks

---
 transports/websockets.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/transports/websockets.go b/transports/websockets.go
index 6af33b4..7ab0ec7 100644
--- a/transports/websockets.go
+++ b/transports/websockets.go
@@ -476,9 +476,14 @@ func (c *websocketConsumer) Start() error {
 					}
 					if len(pendingSubbatches[pb.Hash]) == 0 {
 						delete(pendingSubbatches, pb.Hash)
+						delete(batches, pb.Hash)
 						c.omp.ProcessCompleteBatch(pb)
-						c.lastNum = hexutil.Uint64(pb.Number)
-						c.lastHash = pb.Hash
+						if len(pendingSubbatches) == 0 {
+							// If we're still waiting for parts of other blocks we need to
+							// resume from before those blocks
+							c.lastNum = hexutil.Uint64(pb.Number)
+							c.lastHash = pb.Hash
+						}
 					}
 				case "subbatch":
 					pb, ok := batches[item.SubBatch.Hash]
@@ -498,8 +503,10 @@ func (c *websocketConsumer) Start() error {
 						delete(pendingSubbatches, item.SubBatch.Hash)
 						delete(batches, item.SubBatch.Hash)
 						c.omp.ProcessCompleteBatch(pb)
-						c.lastNum = hexutil.Uint64(pb.Number)
-						c.lastHash = pb.Hash
+						if len(pendingSubbatches) == 0 {
+							c.lastNum = hexutil.Uint64(pb.Number)
+							c.lastHash = pb.Hash
+						}
 					}
 				}
 			}
-- 
2.43.0


From 612f0883653169eedd525f8074d4519f46544fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:58 +0000
Subject: [PATCH 24/31] fix: let several transports share a message processor

A mux consumer hands the messages of all its transports to one message
processor, each from a goroutine of its own, but nothing kept them apart:
concurrent changes of its maps crashed the consumer or lost blocks.
---
 delivery/consumer.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/delivery/consumer.go b/delivery/consumer.go
index bf3ee6e..5e3ad47 100644
--- a/delivery/consumer.go
+++ b/delivery/consumer.go
@@ -12,6 +12,7 @@ import (
   log "github.com/inconshreveable/log15"
   "regexp"
   "fmt"
+  "sync"
   "time"
 )
 
@@ -185,6 +186,7 @@ type prefixBatch struct {
 // to ensure blocks are emitted in something resembling a sensible order and
 // that reorgs are handled.
 type MessageProcessor struct {
+  mu              sync.Mutex // Several transports may share a MessageProcessor
   lastEmittedNum  int64
   reorgThreshold  int64
   pendingBatches  map[types.Hash]*PendingBatch
@@ -252,6 +254,8 @@ func (mp *MessageProcessor) evictOlderThan(n int64) {
 }
 
 func (mp *MessageProcessor) ProcessCompleteBatch(pb *PendingBatch) {
+	mp.mu.Lock()
+	defer mp.mu.Unlock()
 	if mp.completed.Contains(pb.Hash) { return } // We've recently emitted this block
 	if pending, ok := mp.pendingBatches[pb.Hash]; ok {
 		// The block has already been announced, so what's waiting for it waits on its channel.
@@ -275,6 +279,12 @@ func (mp *MessageProcessor) ProcessCompleteBatch(pb *PendingBatch) {
 // ProcessReorg takes in a large reorg that did not come as a message. Blocks
 // that were completed before may be sent again after it.
 func (mp *MessageProcessor) ProcessReorg(num int64, hash types.Hash) error {
+	mp.mu.Lock()
+	defer mp.mu.Unlock()
+	return mp.processReorg(num, hash)
+}
+
+func (mp *MessageProcessor) processReorg(num int64, hash types.Hash) error {
 	var err error
 	mp.completed, err = lru.New(int(2 * mp.reorgThreshold))
 	if err != nil {
@@ -288,6 +298,12 @@ func (mp *MessageProcessor) ProcessReorg(num int64, hash types.Hash) error {
 
 // ProcessMessage takes in messages and assembles completed blocks of messages.
 func (mp *MessageProcessor) ProcessMessage(m ResumptionMessage) error {
+  mp.mu.Lock()
+  defer mp.mu.Unlock()
+  return mp.processMessage(m)
+}
+
+func (mp *MessageProcessor) processMessage(m ResumptionMessage) error {
   EVICTLOOP:
   for {
     select {
@@ -307,7 +323,7 @@ func (mp *MessageProcessor) ProcessMessage(m ResumptionMessage) error {
   if MessageType(m.Key()[0]) == ReorgType {
     var num int
     if err := avro.Unmarshal(intSchema, m.Value(), &num); err != nil { return err }
-    return mp.ProcessReorg(int64(num), hash)
+    return mp.processReorg(int64(num), hash)
   }
   if mp.completed.Contains(hash) { return nil }   // We've recently emitted this block
   if _, ok := mp.oldBlocks[hash]; ok { return nil } // This block is older than the reorg threshold, skip anything related to it.
@@ -374,7 +390,7 @@ func (mp *MessageProcessor) ProcessMessage(m ResumptionMessage) error {
     if _, ok := mp.pendingMessages[hash]; ok {
       // We have some messages that arrived before the batch header. Process them now.
       for _, msg := range mp.pendingMessages[hash] {
-        if err := mp.ProcessMessage(msg); err != nil { return err }
+        if err := mp.processMessage(msg); err != nil { return err }
       }
       delete (mp.pendingMessages, hash)
     }
-- 
2.43.0


From 5e889223d8b43f6ffe011d1f45e249664890ed9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:58 +0000
Subject: [PATCH 25/31] fix: start all transports of a mux consumer

Starting a websocket transport waits for a connection, so as long as its
server was unreachable the transports after it weren't started, and Start
didn't return. And closing the mux hung if one of the transports, such as
Kafka with a missing topic, had failed to start.
---
 transports/resolver.go | 40 ++++++++++++++++++++++++++++++++++------
 1 file changed, 34 insertions(+), 6 deletions(-)

diff --git a/transports/resolver.go b/transports/resolver.go
index ff309d2..e30e025 100644
--- a/transports/resolver.go
+++ b/transports/resolver.go
@@ -8,6 +8,7 @@ import (
   "time"
   "strings"
   "reflect"
+  "sync"
   "github.com/openrelayxyz/cardinal-types"
   "github.com/openrelayxyz/cardinal-streams/v2/delivery"
   "github.com/openrelayxyz/cardinal-streams/v2/waiter"
@@ -97,6 +98,7 @@ func ResolveMuxConsumer(brokerParams []BrokerParams, resumption []byte, cfg *del
   mc := &muxConsumer{
     omp: omp,
     consumers: []Consumer{},
+    failed: make(map[Consumer]struct{}),
   }
   for _, bp := range brokerParams {
     c, err := resolveConsumer(omp, bp.URL, bp.DefaultTopic, bp.Topics, resumption, bp.Rollback, cfg.LastEmittedNum, cfg.LastHash, cfg.TrackedPrefixes)
@@ -124,6 +126,8 @@ type muxConsumer struct {
   omp       *delivery.OrderedMessageProcessor
   consumers []Consumer
   waiter    waiter.Waiter
+  mu        sync.Mutex
+  failed    map[Consumer]struct{} // Consumers that could not be started
 }
 
 func (mc *muxConsumer) Waiter() waiter.Waiter {
@@ -149,13 +153,34 @@ func (mc *muxConsumer) ProducerCount(d time.Duration) uint {
   return count
 }
 
+// Start starts all of the consumers. Once one of them has started the others
+// get a few seconds; those that can't reach their brokers by then keep trying.
 func (mc *muxConsumer) Start() error {
-  var consumerErrs int
+  results := make(chan error, len(mc.consumers))
   for _, c := range mc.consumers {
-    err := c.Start() 
-    if err != nil { 
-      consumerErrs += 1
-      log.Error("Error received from call to consumer.start()", "consumer", c)
+    go func(c Consumer) {
+      err := c.Start()
+      if err != nil {
+        log.Error("Error received from call to consumer.start()", "consumer", c, "err", err)
+        mc.mu.Lock()
+        mc.failed[c] = struct{}{}
+        mc.mu.Unlock()
+      }
+      results <- err
+    }(c)
+  }
+  var consumerErrs int
+  var timeout <-chan time.Time
+  for range mc.consumers {
+    select {
+    case err := <-results:
+      if err != nil {
+        consumerErrs += 1
+      } else if timeout == nil {
+        timeout = time.After(5 * time.Second)
+      }
+    case <-timeout:
+      return nil
     }
   }
   if consumerErrs == len(mc.consumers) {
@@ -171,7 +196,10 @@ func (mc *muxConsumer) SubscribeReorg(ch chan<- map[int64]types.Hash) types.Subs
 }
 func (mc *muxConsumer) Close() {
   for _, c := range mc.consumers {
-    c.Close()
+    mc.mu.Lock()
+    _, failed := mc.failed[c]
+    mc.mu.Unlock()
+    if !failed { c.Close() }
   }
 }
 
-- 
2.43.0


From 95b598f1cf33a899e1bf14a93c50d7c8625a71cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:58 +0000
Subject: [PATCH 26/31] fix: allow asking why a block isn't ready while
 messages come in

WhyNotReady read the maps of pending blocks while they were changed, which
crashed the consumer. It now takes a lock that is free while subscribers
are being served, so that they can ask too.
---
 delivery/consumer.go | 26 +++++++++++++++++++++-----
 delivery/ordering.go | 19 ++++++++++++++++---
 2 files changed, 37 insertions(+), 8 deletions(-)

diff --git a/delivery/consumer.go b/delivery/consumer.go
index 5e3ad47..ba07cb0 100644
--- a/delivery/consumer.go
+++ b/delivery/consumer.go
@@ -187,6 +187,7 @@ type prefixBatch struct {
 // that reorgs are handled.
 type MessageProcessor struct {
   mu              sync.Mutex // Several transports may share a MessageProcessor
+  state           sync.Mutex // Held while processing, except while sending to subscribers
   lastEmittedNum  int64
   reorgThreshold  int64
   pendingBatches  map[types.Hash]*PendingBatch
@@ -256,6 +257,8 @@ func (mp *MessageProcessor) evictOlderThan(n int64) {
 func (mp *MessageProcessor) ProcessCompleteBatch(pb *PendingBatch) {
 	mp.mu.Lock()
 	defer mp.mu.Unlock()
+	mp.state.Lock()
+	defer mp.state.Unlock()
 	if mp.completed.Contains(pb.Hash) { return } // We've recently emitted this block
 	if pending, ok := mp.pendingBatches[pb.Hash]; ok {
 		// The block has already been announced, so what's waiting for it waits on its channel.
@@ -264,13 +267,13 @@ func (mp *MessageProcessor) ProcessCompleteBatch(pb *PendingBatch) {
 	if pb.waitCh == nil {
 		pb.waitCh = make(chan struct{})
 	}
-	mp.waitFeed.Send(&Waiter{
+	mp.send(&mp.waitFeed, &Waiter{
 		Hash: pb.Hash,
 		Parent: pb.ParentHash,
 		Number: pb.Number,
 		WaitCh: pb.waitCh,
 	})
-	mp.feed.Send(pb)
+	mp.send(&mp.feed, pb)
 	mp.lastEmittedNum = pb.Number
 	mp.completed.Add(pb.Hash, struct{}{})
 	delete(mp.pendingBatches, pb.Hash)
@@ -281,6 +284,8 @@ func (mp *MessageProcessor) ProcessCompleteBatch(pb *PendingBatch) {
 func (mp *MessageProcessor) ProcessReorg(num int64, hash types.Hash) error {
 	mp.mu.Lock()
 	defer mp.mu.Unlock()
+	mp.state.Lock()
+	defer mp.state.Unlock()
 	return mp.processReorg(num, hash)
 }
 
@@ -292,7 +297,7 @@ func (mp *MessageProcessor) processReorg(num int64, hash types.Hash) error {
 	}
 	mp.oldBlocks = make(map[types.Hash]struct{})
 	mp.lastEmittedNum = num
-	mp.reorgFeed.Send(map[int64]types.Hash{num: hash})
+	mp.send(&mp.reorgFeed, map[int64]types.Hash{num: hash})
 	return nil
 }
 
@@ -300,9 +305,18 @@ func (mp *MessageProcessor) processReorg(num int64, hash types.Hash) error {
 func (mp *MessageProcessor) ProcessMessage(m ResumptionMessage) error {
   mp.mu.Lock()
   defer mp.mu.Unlock()
+  mp.state.Lock()
+  defer mp.state.Unlock()
   return mp.processMessage(m)
 }
 
+// send lets subscribers ask about pending batches while they are being served.
+func (mp *MessageProcessor) send(feed *types.Feed, v interface{}) {
+  mp.state.Unlock()
+  defer mp.state.Lock()
+  feed.Send(v)
+}
+
 func (mp *MessageProcessor) processMessage(m ResumptionMessage) error {
   EVICTLOOP:
   for {
@@ -341,7 +355,7 @@ func (mp *MessageProcessor) processMessage(m ResumptionMessage) error {
     //   return nil
     // }
     waitCh := make(chan struct{})
-    mp.waitFeed.Send(&Waiter{
+    mp.send(&mp.waitFeed, &Waiter{
       Hash: b.Hash,
       Parent: b.ParentHash,
       Number: b.Number,
@@ -422,7 +436,7 @@ func (mp *MessageProcessor) processMessage(m ResumptionMessage) error {
     mp.pendingBatches[hash].ApplyMessage(m)
   }
   if b, ok := mp.pendingBatches[hash] ; ok && b.Ready() {
-    mp.feed.Send(b)
+    mp.send(&mp.feed, b)
     mp.lastEmittedNum = b.Number
     mp.completed.Add(hash, struct{}{})
     delete(mp.pendingBatches, hash)
@@ -437,6 +451,8 @@ func (mp *MessageProcessor) queueMessage(hash types.Hash, m ResumptionMessage) {
 }
 
 func (mp *MessageProcessor) WhyNotReady(hash types.Hash) string {
+  mp.state.Lock()
+  defer mp.state.Unlock()
   if pb, ok := mp.pendingBatches[hash]; ok {
     return pb.whyNotReady()
   } else {
diff --git a/delivery/ordering.go b/delivery/ordering.go
index e173dff..5cbab6c 100644
--- a/delivery/ordering.go
+++ b/delivery/ordering.go
@@ -7,6 +7,7 @@ import (
   "github.com/openrelayxyz/cardinal-types/metrics"
   "github.com/hashicorp/golang-lru"
   log "github.com/inconshreveable/log15"
+  "sync"
   "time"
 )
 
@@ -26,6 +27,7 @@ type OrderedMessageProcessor struct {
   lastWeight     *big.Int
   reorgThreshold int64
   pending        map[types.Hash]*PendingBatch
+  pendingLock    sync.RWMutex // Only for changing pending and reading it from other goroutines
   queued         map[types.Hash]map[types.Hash]struct{}
   finished       *lru.Cache
   quit           chan struct{}
@@ -126,9 +128,15 @@ func (omp *OrderedMessageProcessor) onFinishedEvicted(k, v interface{}) {
   omp.evict(k.(types.Hash))
 }
 
+func (omp *OrderedMessageProcessor) drop(hash types.Hash) {
+  omp.pendingLock.Lock()
+  defer omp.pendingLock.Unlock()
+  delete(omp.pending, hash)
+}
+
 func (omp *OrderedMessageProcessor) evict(hash types.Hash) {
   if pb, ok := omp.pending[hash]; ok {
-    delete(omp.pending, pb.Hash)
+    omp.drop(pb.Hash)
     omp.mp.evictOlderThan(pb.Number)
     omp.evict(pb.ParentHash) // If the parent is still being tracked we can go ahead and get rid of it
     if children, ok := omp.queued[pb.Hash]; ok {
@@ -203,7 +211,9 @@ func (omp *OrderedMessageProcessor) HandlePendingBatch(pb *PendingBatch, reorg b
     omp.blacklist[pb.Hash] = struct{}{}
     return
   }
+  omp.pendingLock.Lock()
   omp.pending[pb.Hash] = pb
+  omp.pendingLock.Unlock()
   if omp.finished.Contains(pb.Hash) && !reorg {
     // We've already handled this block. Repeats should be rare, given how the
     // MessageProcessor works, but they could happen in edge cases, and we
@@ -244,7 +254,7 @@ func (omp *OrderedMessageProcessor) HandlePendingBatch(pb *PendingBatch, reorg b
       // evicted
       if latestBlock := omp.pending[omp.lastHash]; latestBlock != nil && latestBlock.Number - pb.Number > omp.reorgThreshold {
         log.Info("OMP: Discarding old block", "current", latestBlock.Number, "received", pb.Number)
-        delete(omp.pending, pb.Hash)
+        omp.drop(pb.Hash)
         return
       }
       omp.finished.Add(pb.Hash, struct{}{})
@@ -416,6 +426,9 @@ func (omp *OrderedMessageProcessor) Close() {
 
 func (omp *OrderedMessageProcessor) WhyNotReady(hash types.Hash) string {
   if omp.finished.Contains(hash) { return "done, not evicted" }
-  if _, ok := omp.pending[hash]; ok { return "pending parent" }
+  omp.pendingLock.RLock()
+  _, pending := omp.pending[hash]
+  omp.pendingLock.RUnlock()
+  if pending { return "pending parent" }
   return omp.mp.WhyNotReady(hash)
 }
-- 
2.43.0


From f91dc44535f2c8801fff69b3832340fa998407a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:00 +0000
Subject: [PATCH 27/31] fix: accept cardinal:// URLs of Kafka brokers for
 consumers and timestamps

---
 transports/resolver.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/transports/resolver.go b/transports/resolver.go
index e30e025..01e5f10 100644
--- a/transports/resolver.go
+++ b/transports/resolver.go
@@ -59,7 +59,7 @@ func ResolveConsumer(brokerURL, defaultTopic string, topics []string, resumption
 func resolveConsumer(omp *delivery.OrderedMessageProcessor, brokerURL, defaultTopic string, topics []string, resumption []byte, rollback, lastNumber int64, lastHash types.Hash, trackedPrefixes []*regexp.Regexp) (Consumer, error) {
   switch protocol := strings.Split(strings.TrimPrefix(brokerURL, "cardinal://"), "://"); protocol[0] {
   case "kafka":
-    return kafkaConsumerWithOMP(omp, brokerURL, defaultTopic, topics, resumption, rollback, lastHash)
+    return kafkaConsumerWithOMP(omp, strings.TrimPrefix(brokerURL, "cardinal://"), defaultTopic, topics, resumption, rollback, lastHash)
   case "ws", "wss":
     prefixes := make([]string, len(trackedPrefixes))
     for i, p := range trackedPrefixes {
@@ -78,7 +78,7 @@ func ResumptionForTimestamp(brokerParams []BrokerParams, timestamp int64) ([]byt
   for _, bp := range brokerParams {
     switch protocol := strings.Split(strings.TrimPrefix(bp.URL, "cardinal://"), "://"); protocol[0] {
     case "kafka":
-      res, err := kafkaResumptionForTimestamp(bp.URL, bp.Topics, timestamp)
+      res, err := kafkaResumptionForTimestamp(strings.TrimPrefix(bp.URL, "cardinal://"), bp.Topics, timestamp)
       if err != nil {
         return nil, err
       }
-- 
2.43.0


From 1a2fd2a49e56a14ebd68ae7b6a6e9b297cb4d0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:01 +0000
Subject: [PATCH 28/31] fix: resume from the end of the log if there is nothing
 as new as the timestamp

---
 transports/kafka.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/transports/kafka.go b/transports/kafka.go
index d70bd11..bd56956 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -527,10 +527,18 @@ func kafkaResumptionForTimestamp(brokerURL string, topics []string, timestamp in
     parts, err := client.Partitions(topic)
     if err != nil { return nil, err }
     for _, part := range parts {
+      newest, err := client.GetOffset(topic, part, sarama.OffsetNewest)
+      if err != nil {
+        return nil, err
+      }
       offset, err := client.GetOffset(topic, part, timestamp)
       if err != nil {
         return nil, err
       }
+      if offset < 0 {
+        // There is nothing that new yet, so resume from whatever comes next
+        offset = newest
+      }
       resumption = append(resumption, fmt.Sprintf("%v:%v=%v", topic, part, offset))
     }
   }
-- 
2.43.0


From 8396af32c544e8c0f88bf051a0bb0873ad55e188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:40 +0000
Subject: [PATCH 29/31] fix: don't give up on blocks from after a large reorg
 because of evictions before it

---
 delivery/consumer.go | 23 +++++++++++++++++------
 delivery/ordering.go |  4 +++-
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/delivery/consumer.go b/delivery/consumer.go
index ba07cb0..9bb2419 100644
--- a/delivery/consumer.go
+++ b/delivery/consumer.go
@@ -199,7 +199,8 @@ type MessageProcessor struct {
   reorgFeed       types.Feed
   waitFeed        types.Feed
   resumption      map[string]int64
-  evictCh         chan int64
+  evictCh         chan eviction
+  reorgs          int // The number of large reorgs so far
   failedReconstructPanic bool
 }
 
@@ -220,7 +221,7 @@ func NewMessageProcessor(cfg *ConsumerConfig) *MessageProcessor {
     pendingMessages: make(map[types.Hash]map[string]ResumptionMessage),
     oldBlocks:       make(map[types.Hash]struct{}),
     resumption:      make(map[string]int64),
-    evictCh:         make(chan int64, 100),
+    evictCh:         make(chan eviction, 100),
     failedReconstructPanic: cfg.FailedReconstructPanic,
   }
 }
@@ -247,9 +248,17 @@ func (mp *MessageProcessor) SubscribeReorgs(ch chan <- map[int64]types.Hash) typ
   return mp.reorgFeed.Subscribe(ch)
 }
 
-func (mp *MessageProcessor) evictOlderThan(n int64) {
+// eviction asks for giving up on incomplete blocks older than number. It's
+// meant for the blocks from before the next large reorg, which may bring
+// blocks that old again.
+type eviction struct {
+  number int64
+  reorgs int
+}
+
+func (mp *MessageProcessor) evictOlderThan(n int64, reorgs int) {
   select {
-  case mp.evictCh <- n:
+  case mp.evictCh <- eviction{n, reorgs}:
   default:
   }
 }
@@ -296,6 +305,7 @@ func (mp *MessageProcessor) processReorg(num int64, hash types.Hash) error {
 		return err
 	}
 	mp.oldBlocks = make(map[types.Hash]struct{})
+	mp.reorgs++
 	mp.lastEmittedNum = num
 	mp.send(&mp.reorgFeed, map[int64]types.Hash{num: hash})
 	return nil
@@ -321,9 +331,10 @@ func (mp *MessageProcessor) processMessage(m ResumptionMessage) error {
   EVICTLOOP:
   for {
     select {
-    case n := <-mp.evictCh:
+    case e := <-mp.evictCh:
+      if e.reorgs != mp.reorgs { continue }
       for h, pb := range mp.pendingBatches {
-        if pb.Number < n {
+        if pb.Number < e.number {
           delete(mp.pendingBatches, h)
           mp.oldBlocks[h] = struct{}{}
         }
diff --git a/delivery/ordering.go b/delivery/ordering.go
index 5cbab6c..cb3d78f 100644
--- a/delivery/ordering.go
+++ b/delivery/ordering.go
@@ -36,6 +36,7 @@ type OrderedMessageProcessor struct {
   whitelist      map[uint64]types.Hash
   blacklist      map[types.Hash]struct{}
   initEmpty      bool
+  reorgs         int // The number of large reorgs from the message processor so far
 }
 
 
@@ -88,6 +89,7 @@ func NewOrderedMessageProcessor(cfg *ConsumerConfig) (*OrderedMessageProcessor,
       select {
       case event := <-events:
         if reorg, ok := event.(map[int64]types.Hash); ok {
+          omp.reorgs++
           for num, hash := range reorg {
             omp.HandleReorg(num, hash)
             break // There should never be more than 1 kv pair in this map
@@ -137,7 +139,7 @@ func (omp *OrderedMessageProcessor) drop(hash types.Hash) {
 func (omp *OrderedMessageProcessor) evict(hash types.Hash) {
   if pb, ok := omp.pending[hash]; ok {
     omp.drop(pb.Hash)
-    omp.mp.evictOlderThan(pb.Number)
+    omp.mp.evictOlderThan(pb.Number, omp.reorgs)
     omp.evict(pb.ParentHash) // If the parent is still being tracked we can go ahead and get rid of it
     if children, ok := omp.queued[pb.Hash]; ok {
       for childHash := range children {
-- 
2.43.0


From b52cc4022839b8c15848c8a92e09bf4bc4fa5330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:06 +0000
Subject: [PATCH 30/31] fix: read a large reorg from the beginning to the end
 of its topic

A consumer that met the announcement of a large reorg read the reorg's topic
from its last message. If that was the ReorgComplete message, it counted a
reorg as done that it had not seen begin, and crashed; otherwise the blocks
before it were missing. If nothing had been written to the topic yet, it went
on without reading it.
---
 transports/kafka.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/transports/kafka.go b/transports/kafka.go
index bd56956..711e604 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -559,6 +559,9 @@ func (kc *KafkaConsumer) Start() error {
   consumer, err := sarama.NewConsumerFromClient(kc.client)
   if err != nil { return err }
   var readyWg, warmupWg, reorgWg sync.WaitGroup
+  var reorgDone sync.Once
+  // The topic of a large reorg has not been read until its ReorgComplete message
+  if kc.isReorg { reorgWg.Add(1) }
   messages := make(chan *sarama.ConsumerMessage, 512) // 512 is arbitrary. Worked for Flume, but may require tuning for Cardinal
   partitionConsumers := []sarama.PartitionConsumer{}
   heartbeats := make(chan types.Hash)
@@ -711,6 +714,8 @@ func (kc *KafkaConsumer) Start() error {
               topics: []string{fmt.Sprintf("%s-re-%x",  kc.defaultTopic, msg.Key()[1:])},
               resumption: make(map[string]int64),
               client: kc.client,
+              // The reorg's own topic is read from its beginning
+              rollback: -1,
               isReorg: true,
               pt: kc.pt,
             }
@@ -718,7 +723,6 @@ func (kc *KafkaConsumer) Start() error {
             <-rekc.Ready()
             rekc.Close()
           } else {
-            reorgWg.Add(1)
             if err := kc.omp.ProcessMessage(msg); err != nil {
               log.Error("Error processing input:", "err", err, "key", input.Key, "msg", input.Value, "part", input.Partition, "offset", input.Offset)
             }
@@ -726,7 +730,7 @@ func (kc *KafkaConsumer) Start() error {
         case delivery.PingType:
           heartbeats <- types.BytesToHash(msg.Key()[1:])
         case delivery.ReorgCompleteType:
-          reorgWg.Done()
+          if kc.isReorg { reorgDone.Do(reorgWg.Done) }
         default:
           if err := kc.omp.ProcessMessage(msg); err != nil {
             log.Error("Error processing input:", "err", err, "key", input.Key, "msg", input.Value, "part", input.Partition, "offset", input.Offset)
-- 
2.43.0


From f250f8d6c00a8e4a73795ef2157f5408ee81857e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:02 +0000
Subject: [PATCH 31/31] fix: KafkaConsumer adds partitions to the drumline one
 after another

---
 transports/kafka.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/transports/kafka.go b/transports/kafka.go
index 711e604..6b1e5bb 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -609,10 +609,11 @@ func (kc *KafkaConsumer) Start() error {
         caughtUp = err == nil && first >= newest
       }
       log.Info("Starting partition consumer", "topic", topic, "partition", partid, "offset", offset, "startOffset", startOffset)
+      // Partitions have to be added to the drumline one after another
+      dl.AddScale(len(partitionConsumers), startOffset)
       go func(pc sarama.PartitionConsumer, startOffset int64, partid int32, i int, topic string, caughtUp bool) {
         kc.shutdownWg.Add(1)
         defer kc.shutdownWg.Done()
-        dl.AddScale(i, startOffset)
         var once sync.Once
         warm := false
         meter := metrics.NewMinorMeter(fmt.Sprintf("streams/kafka/%v/%v/meter", topic, partid))
-- 
2.43.0

