#!/usr/bin/env python3
"""Small changes to the code and the checks that should notice them.
mutants.py [-j N] [-s SUBSTR,...] [-t] : applies each to a scratch clone of /repo,
builds it, with -t also runs the existing tests, and runs the quick checks of
the properties it breaks. Prints which changes stay unnoticed."""
import os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
CON, PRO, ORD, TYP = "delivery/consumer.go", "delivery/producer.go", "delivery/ordering.go", "delivery/types.go"
WAI, KAF, RES, WS = "waiter/waiter.go", "transports/kafka.go", "transports/resolver.go", "transports/websockets.go"
M = []
def m(id, props, f, old, new, *more):
    M.append((id, props.split(), [(f, old, new)] + list(more)))

# --- assembly
m("subheader-resets", "C04 C02", CON, "    if _, ok := mp.pendingBatches[hash].pendingBatches[batchid]; !ok { return nil } // We've already gotten this batch\n", "")
m("completed-half", "C03", CON, "cache, err := lru.New(int(2 * cfg.ReorgThreshold))", "cache, err := lru.New(int(cfg.ReorgThreshold))")
m("token-no-header", "C08", CON, "    mp.pendingBatches[hash].updateResumption(m.Source(), m.Offset())\n    for prefix", "    for prefix")
m("token-no-subheader", "C08", CON, "    mp.pendingBatches[hash].updateResumption(m.Source(), m.Offset())\n    for k, msg", "    for k, msg")
m("delete-unfiltered", "C05", CON, "      match := false\n", "      if update.Delete { mp.pendingBatches[hash].Deletes[prefix] = struct{}{} }\n      match := false\n")
m("reorg-keeps-old", "C26", CON, "	mp.oldBlocks = make(map[types.Hash]struct{})\n	mp.reorgs++", "	mp.reorgs++")
m("reorg-keeps-completed", "C26", CON, "	mp.completed, err = lru.New(int(2 * mp.reorgThreshold))\n	if", "	if")
m("why-last-message", "C22", CON, "    if v > 0 { return fmt.Sprintf(\"Pending prefix", "    if v > 1 { return fmt.Sprintf(\"Pending prefix")
m("why-batch-first", "C22", CON, "  if len(pb.pendingBatches) > 0 { return \"Pending batches\" }", "  if len(pb.pendingBatches) > 1 { return \"Pending batches\" }")
m("ready-last-part", "C02", CON, "    for _, b := range batch {\n      if !b { return false }", "    for i, b := range batch {\n      if !b && i == len(batch) - 1 { return false }")
m("evict-equal", "C14", CON, "if pb.Number < n {", "if pb.Number <= n {")
m("complete-not-recorded", "C03", CON, "	mp.completed.Add(pb.Hash, struct{}{})\n", "")
m("prefix-stops", "C01", CON, "      continue // If", "      return false // If")
m("delete-dup-counts-msg", "C02", CON, "    if _, ok := pb.Values[path]; ok { return false } // Already set\n", "")
m("old-not-recorded", "C14 C03", CON, "          mp.oldBlocks[h] = struct{}{}\n", "")
m("weight-int64", "C01 C06", CON, "Weight: new(big.Int).SetBytes(b.Weight)", "Weight: big.NewInt(int64(new(big.Int).SetBytes(b.Weight).Uint64()))")
m("queue-by-suffix", "C04", CON, "mp.pendingMessages[hash][string(m.Key())] = m", "mp.pendingMessages[hash][string(m.Key()[len(m.Key())-1:])] = m")
# --- much at once
m("events-drop", "C11 C12 C14 C25 C28", ORD, """      case events <- event:
      case <-stopped:
        return
      }""", """      case events <- event:
      case <-stopped:
        return
      default:
      }""")
m("kafka-drop-full", "C16", KAF, "          messages <- input\n        }\n      }(pc, startOffset", """          select {
          case messages <- input:
          case <-time.After(100 * time.Millisecond):
          }
        }
      }(pc, startOffset""")
m("ws-drop-full", "C20", WS, """		case subch <- msg:
		case <-ctx.Done():
		}
	}
	sendBlocks""", """		case subch <- msg:
		default:
		}
	}
	sendBlocks""")
m("topic-limit", "C17", KAF, '    configEntries["max.message.bytes"] = &maxBytes', '    _ = maxBytes')
# --- producer
m("unsorted-parts", "C06", PRO, "  sort.Strings(keys)\n", "", (PRO, '  "sort"\n', ""))
m("conflict-unseen", "C07", PRO, "    if _, ok := b.Updates[k]; ok { return nil, ErrPrefixConflict }\n    b.Updates[k] = BatchRecord{Count: c}", "    b.Updates[k] = BatchRecord{Count: c}")
m("send-twice", "C07", PRO, "  delete(p.pendingBatches, batchid)\n", "")
m("unanchored", "C07 C06", PRO, '''      exp, err = regexp.Compile("^" + i)
      if err != nil { return nil, err }
''', "")
m("sub-default-topic", "C07 C06", PRO, "        bi.topic = r.topic\n", "")
m("overlap-oneway", "C07", PRO, "if i != j && strings.HasPrefix(i, j) {", "if i != j && strings.HasPrefix(i, j) && len(i) > len(j) + 1 {")
m("zero-batch", "C07", PRO, '''    if h == (types.Hash{}) {
      return nil, ErrInvalidBatch
    }
''', "")
m("parts-miscounted", "C01 C06", PRO, "  if len(deletes) > 0 { deleteRecords = 1}", "  if len(deletes) > 0 && len(update) != 1 { deleteRecords = 1}")
# --- ordering
m("ties-win", "C10", ORD, "      if pb.Weight.Cmp(omp.lastWeight) > 0 {\n        // Evaluate", "      if pb.Weight.Cmp(omp.lastWeight) >= 0 {\n        // Evaluate")
m("reverted-order", "C09", ORD, "reverted = append([]*PendingBatch{oldHead}, reverted...)", "reverted = append(reverted, oldHead)")
m("reorg-no-hash", "C26", ORD, "  omp.lastHash = hash\n  // omp.lastNumber", "  // omp.lastNumber")
m("evict-finished-children", "C14", ORD, "if !omp.finished.Contains(childHash) {", "if true {")
m("no-discard", "C14", ORD, "latestBlock.Number - pb.Number > omp.reorgThreshold {", "latestBlock.Number - pb.Number > 1000 * omp.reorgThreshold {")
m("discard-early", "C14", ORD, "latestBlock.Number - pb.Number > omp.reorgThreshold {", "latestBlock.Number - pb.Number > omp.reorgThreshold - 3 {")
m("siblings-unfinished", "C11", ORD, "    new = append(new, pb)\n    omp.finishSiblings(pb)\n", "    new = append(new, pb)\n")
m("repeat-handled", "C13", ORD, "  if omp.finished.Contains(pb.Hash) && !reorg {", "  if pb.Hash == omp.lastHash && !reorg {")
m("weight-stale", "C10", ORD, "    omp.lastHash = pb.Hash\n    omp.lastWeight = pb.Weight\n", "    omp.lastHash = pb.Hash\n")
m("history-short", "C14", ORD, "  omp.finished, err = lru.NewWithEvict(int(cfg.ReorgThreshold * 2 + 2)", "  omp.finished, err = lru.NewWithEvict(int(cfg.ReorgThreshold + 1)")
m("child-weight-own", "C11", ORD, "    td := omp.getPendingChainDifficulty(child)\n", "    td := new(big.Int)\n    if pb, ok := omp.pending[child]; ok { td = pb.Weight }\n")
m("blacklist-leaves", "C12", ORD, "    omp.blacklist[pb.ParentHash]; ok {", "    omp.blacklist[pb.ParentHash]; ok {") if False else None
m("whitelist-children", "C12", ORD, "    omp.blacklist[pb.Hash] = struct{}{}\n    return\n  }\n  if _, ok := omp.blacklist", "    return\n  }\n  if _, ok := omp.blacklist")
m("reorg-weightless", "C11 C09", ORD, "    for newHead.Number > oldHead.Number + 1 {", "    for newHead.Number > oldHead.Number + 2 {")
m("boot-flag", "C26", ORD, "  omp.initEmpty = false\n", "")
m("last-not-finished", "C13 C25", ORD, "  omp.finished.Add(cfg.LastHash, struct{}{})\n", "")
# --- waiter
m("number-renewed", "C15", WAI, '''            if _, ok := w.numbers[pw.Number]; !ok {
                w.numbers[pw.Number] = make(chan struct{})
            }
''', "            w.numbers[pw.Number] = make(chan struct{})\n")
m("number-closed-twice", "C15", WAI, '''                    select {
                    case <-nch:
                        // Another goroutine already closed the channel
                    default:
                        close(nch)
                    }
''', "                    close(nch)\n")
m("done-twice", "C15", CON, "    pb.waitCh = nil\n", "")
m("sibling-forgotten", "C15", WAI, '''                        time.Sleep(60 * time.Second)
                        w.lock.Lock()
                        delete(w.hashes, pw.Hash)
                        w.lock.Unlock()
                    }()
                }
''', '''                        w.lock.Lock()
                        delete(w.hashes, pw.Hash)
                        w.lock.Unlock()
                    }()
                }
''')
m("number-on-announce", "C15", WAI, "w.numbers[pw.Number], pw.WaitCh, pw)", "w.numbers[pw.Number+1-1], pw.WaitCh, pw)") if False else None
m("removed-not-done", "C15", ORD, "for _, pb := range append(c.added, c.removed...) {", "for _, pb := range c.added {")
m("done-last-only", "C15", ORD, "for _, pb := range append(c.added, c.removed...) {", "for _, pb := range c.added[len(c.added)-1:] {")
m("fresh-weightless", "C28", ORD, "} else if omp.initEmpty && omp.finished.Len() < 10 && !omp.finished.Contains(pb.ParentHash) {", "} else if omp.initEmpty && omp.finished.Len() < 10 && !omp.finished.Contains(pb.ParentHash) && pb.Weight.Cmp(omp.lastWeight) > 0 {") if False else None
m("fresh-forks", "C28", ORD, "omp.initEmpty && omp.finished.Len() < 10 && !omp.finished.Contains(pb.ParentHash) {", "omp.initEmpty && omp.finished.Len() < 10 && !(omp.finished.Contains(pb.ParentHash) && omp.finished.Len() > 5) {")
m("fresh-forever", "C28", ORD, "omp.initEmpty && omp.finished.Len() < 10 && !", "omp.initEmpty && omp.finished.Len() < 100 && !")
m("fresh-lasthash-zero", "C28", ORD, "initEmpty: cfg.LastHash == (types.Hash{}),", "initEmpty: cfg.LastHash == (types.Hash{}) && cfg.LastWeight == nil,")
# --- kafka
m("rollback-off-by-one", "C18", KAF, "startOffset = offset - kc.rollback\n", "startOffset = offset - kc.rollback + 1\n")
m("rollback-equal", "C18", KAF, "if !ok || offset < kc.rollback{", "if !ok || offset <= kc.rollback{")
m("ready-early", "C18", KAF, "            if pc.HighWaterMarkOffset() - input.Offset <= 1 {\n              // Once", "            if pc.HighWaterMarkOffset() - input.Offset <= 2 {\n              // Once")
m("no-last-record", "C18", KAF, "            startOffset = offset - 1\n", "            startOffset = offset\n")
m("seen-window", "C17", KAF, "      offset -= 100\n      if offset < 0 { offset = sarama.OffsetOldest }", "      offset -= 10\n      if offset < 0 { offset = sarama.OffsetOldest }")
m("skip-unregistered", "C17", KAF, '''    for _, v := range batches {
      kp.skipBatches.Add(v, struct{}{})
    }
''', "")
m("purge-half", "C17", KAF, "  kp.skipBatches.Purge()\n", "")
m("own-heartbeats", "C24", KAF, "if !bytes.Equal(input.Key[1:], idBytes[:]) {", "if !bytes.Equal(input.Key[:1], idBytes[:]) {")
m("heartbeat-first", "C24", KAF, "  pt.pings[key] = time.Now()\n", "  if _, ok := pt.pings[key]; !ok { pt.pings[key] = time.Now() }\n")
m("unhealthy-beats", "C24", KAF, "        if kp.healthy {", "        if kp.healthy || b != nil {")
m("cache-small", "C17", KAF, "  cache, _ := lru.New(4096)", "  cache, _ := lru.New(32)")
m("skip-small", "C17", KAF, "  skipBatches, _ := lru.New(1024)", "  skipBatches, _ := lru.New(4)")
m("token-value-eq", "C16 C18", KAF, "    resumptionMap[parts[0]] = int64(offset)\n", "    if o, ok := resumptionMap[parts[0]]; !ok || o < int64(offset) { resumptionMap[parts[0]] = int64(offset) + 1 }\n")
m("latest-last", "C23", KAF, "if b.Number > highestNumber { highestNumber = b.Number }", "highestNumber = b.Number")
m("latest-window", "C23", KAF, "    offset -= 100\n    if offset < 0 { offset = sarama.OffsetOldest }\n    pc", "    offset -= 10\n    if offset < 0 { offset = sarama.OffsetOldest }\n    pc")
m("latest-stops", "C23", KAF, "            log.Warn(\"Error unmarshalling batch\", \"err\", err)\n            continue", "            log.Warn(\"Error unmarshalling batch\", \"err\", err)\n            break PARTITION_LOOP")
m("latest-error-part", "C23", KAF, "    if offset == 0 { continue }\n    offset -= 100\n", "    if offset < 100 { continue }\n    offset -= 100\n")
m("scram-hash", "C23", KAF, "HashGeneratorFcn: SHA512}", "HashGeneratorFcn: SHA256}")
m("wait-seconds", "C23", KAF, "time.Duration(maxWaittime) * time.Millisecond", "time.Duration(maxWaittime) * time.Second")
m("resume-one-part", "C23", KAF, "    for _, part := range parts {\n      newest", "    for _, part := range parts[:1] {\n      newest")
m("retries-zero", "C23", KAF, "Get(\"message.send.max.retries\")); err == nil {", "Get(\"message.send.max.retries\")); err == nil && val > 0 {")
m("heartbeats-data", "C24", KAF, "        case delivery.PingType:\n          heartbeats <- types.BytesToHash(msg.Key()[1:])\n", "        case delivery.PingType:\n          heartbeats <- types.BytesToHash(msg.Key()[1:])\n          kc.omp.ProcessMessage(msg)\n")
m("reorg-topic-first", "C27", KAF, 'fmt.Sprintf("%s-re-%x",  kc.defaultTopic, msg', 'fmt.Sprintf("%s-re-%x",  kc.topics[0], msg')
m("reorg-topic-newest", "C27", KAF, "              rollback: -1,\n", "")
m("reorg-not-waited", "C27", KAF, "  if kc.isReorg { reorgWg.Add(1) }\n", "", (KAF, "reorgDone.Do(reorgWg.Done)", "reorgDone.Do(func() {})"))
m("reorg-ready-unread", "C27", KAF, "            <-rekc.Ready()\n            rekc.Close()", "            go func() { <-rekc.Ready(); rekc.Close() }()")
m("reorg-no-notice", "C27", KAF, "          if !kc.isReorg{\n", "          if kc.isReorg { continue } else if !kc.isReorg{\n")
m("expired-newest", "C18", KAF, "        pc, err = consumer.ConsumePartition(topic, partid, offset)\n        if err != nil { return err }", "        pc, err = consumer.ConsumePartition(topic, partid, sarama.OffsetNewest)\n        if err != nil { return err }")
m("rollback-below", "C18", KAF, "if !ok || offset < kc.rollback{", "if !ok {")
# --- websockets
m("ws-item-reused", "C19", WS, "				var item resultMessage\n				json", "				json", (WS, "			var notification rpc.SubscriptionResponseRaw\n", "			var notification rpc.SubscriptionResponseRaw\n			var item resultMessage\n"))
m("ws-hash-stale", "C19", WS, "							c.lastHash = pb.Hash\n						}\n					}\n				case", "						}\n					}\n				case")
m("ws-early-part", "C19", WS, "						subbatches[item.SubBatch.BatchId] = item.SubBatch\n", "")
m("ws-part-deletes", "C19", WS, '''							for _, k := range sb.Deletes {
								pb.Deletes[k] = struct{}{}
							}
							delete(subbatches, batchid)
''', "							delete(subbatches, batchid)\n")
m("ws-reclose", "C19", WS, "					if !isReady {", "					if !isReady || c.lastNum > 0 {")
m("ws-ready-soon", "C19", WS, "			case connected <- struct{}{}:\n", "			case connected <- struct{}{}:\n				if !isReady { isReady = true; close(c.ready) }\n")
m("ws-history-deletes", "C20", WS, "			for k, _ := range block.Deletes {\n				deletes", "			for k, _ := range block.Values {\n				deletes")
m("ws-block-parent", "C20", WS, "			ParentHash: block.ParentHash,\n			Batches: make(map[string]types.Hash),\n			Values: values,\n			Deletes: deletes,\n		},\n	}, nil", "			ParentHash: block.Hash,\n			Batches: make(map[string]types.Hash),\n			Values: values,\n			Deletes: deletes,\n		},\n	}, nil")
m("ws-send-twice", "C20 C21", WS, "	delete(p.expectedBatches, batchid)\n", "")
m("ws-part-hash", "C20 C19", WS, "		p.expectedBatches[v] = hash\n", "		if _, ok := p.expectedBatches[v]; !ok { p.expectedBatches[v] = parentHash }\n")
m("ws-reorg-number", "C20", WS, "			Hash: hash,\n			Number: hexutil.Uint64(number),\n", "			Hash: hash,\n			Number: hexutil.Uint64(number + 1),\n")
m("ws-no-missed", "C20", WS, "		sendBlocks(missed)\n", "		go func() { for range missed {} }()\n")
m("ws-start-number", "C19 C23", WS, "lastNum: hexutil.Uint64(lastNum), lastHash: lastHash}", "lastNum: hexutil.Uint64(lastNum + 1), lastHash: lastHash}")
# --- several transports
m("mux-add-stops", "C21", RES, '''		if err := p.AddBlock(number, hash, parentHash, weight, updates, deletes, batches); err != nil {
			errs = append(errs, err)
''', '''		if err := p.AddBlock(number, hash, parentHash, weight, updates, deletes, batches); err != nil {
			return err
''')
m("mux-send-stops", "C21", RES, '''		if err := p.SendBatch(batchid, delete, update); err != nil {
			errs = append(errs, err)
''', '''		if err := p.SendBatch(batchid, delete, update); err != nil {
			return err
''')
m("mux-latest-max", "C21 C23", RES, "		if err == nil && v < n {", "		if err == nil && (v > n || n == int64(9223372036854775807)) {")
m("mux-purge-first", "C21", RES, "    p.PurgeReplayCache()\n", "    p.PurgeReplayCache()\n    break\n")
m("mux-count-first", "C21", RES, "  for _, c := range mc.producers {\n    count += c.ProducerCount(d)\n", "  for _, c := range mc.producers {\n    count = c.ProducerCount(d)\n")
m("mux-ccount", "C21", RES, "  for _, c := range mc.consumers {\n    count += c.ProducerCount(d)\n", "  for _, c := range mc.consumers {\n    count = c.ProducerCount(d)\n")
m("mux-reorg-last", "C21", RES, "			fns = append(fns, fn)\n", "			fns = append(fns[:0], fn)\n")
m("mux-health-first", "C24", RES, "    p.SetHealth(b)\n", "    p.SetHealth(b)\n    break\n")
m("mux-fails-any", "C21", RES, "  if consumerErrs == len(mc.consumers) {", "  if consumerErrs > 0 {")
m("mux-close-first", "C21", RES, "    if !failed { c.Close() }\n", "    if !failed { c.Close(); break }\n")
m("mux-latest-zero", "C21 C23", RES, "			topErr = err\n			continue\n", "			topErr = err\n			n = 0\n			continue\n")
m("mux-rollback", "C21 C23", RES, "resumption, bp.Rollback, cfg.LastEmittedNum", "resumption, 0, cfg.LastEmittedNum")
m("res-ws-hash", "C23", RES, "	for i, bp := range brokerParams {\n		producer, err := ResolveProducerWithResumer(bp.URL, bp.DefaultTopic, bp.Schema, resumer)", "	for i, bp := range brokerParams {\n		producer, err := ResolveProducerWithResumer(bp.URL, brokerParams[0].DefaultTopic, bp.Schema, resumer)")

def run(x, tests):
    id, props, edits = x
    w = tempfile.mkdtemp(prefix="mut-")
    r = os.path.join(w, "repo")
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", r])
        for f, old, new in edits:
            p = os.path.join(r, f)
            s = open(p).read()
            if s.count(old) != 1:
                return id, "BADEDIT %d" % s.count(old), []
            open(p, "w").write(s.replace(old, new))
        env = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", VERIF_REPO=r, VERIF_SEED=os.environ.get("VERIF_SEED", "1"))
        b = subprocess.run(["go", "build", "./delivery", "./transports", "./waiter"], cwd=r, env=env, capture_output=True, text=True)
        if b.returncode:
            return id, "NOBUILD " + b.stderr[:300], []
        note = ""
        if tests:
            t = subprocess.run(["go", "test", "-vet=off", "-count=1", "./delivery", "./transports"], cwd=r, env=env, capture_output=True, text=True)
            note = "" if t.returncode == 0 else " (fails tests)"
        res = []
        for p in props:
            c = subprocess.run(["python3", "/verif/check.py", p, "quick"], cwd="/verif", env=env, capture_output=True, text=True)
            res.append("%s=%d" % (p, c.returncode))
            if c.returncode == 1:
                break
            if c.returncode > 1:
                res.append(c.stdout[-300:] + c.stderr[-300:])
        ok = any(y.endswith("=1") for y in res)
        return id, ("caught" if ok else "MISSED") + note, res
    finally:
        shutil.rmtree(w)

if __name__ == "__main__":
    a = sys.argv[1:]
    j = int(a[a.index("-j") + 1]) if "-j" in a else 1
    sel = a[a.index("-s") + 1].split(",") if "-s" in a else [""]
    todo = [x for x in M if any(s in x[0] or s in x[1] for s in sel)]
    n = 0
    with ThreadPoolExecutor(j) as ex:
        for id, v, res in ex.map(lambda x: run(x, "-t" in a), todo):
            n += v.startswith("caught")
            print(id, v, *res, flush=True)
    print("%d of %d noticed" % (n, len(todo)))
