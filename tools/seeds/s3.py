import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..")); sys.path.insert(0, os.path.dirname(__file__))
from mkseed import mk
from prelude import PRE
CON, PRO, ORD = "delivery/consumer.go", "delivery/producer.go", "delivery/ordering.go"
WAI, KAF, RES, WS = "waiter/waiter.go", "transports/kafka.go", "transports/resolver.go", "transports/websockets.go"
KP = '''package transports_test

import (
	"encoding/hex"
	"fmt"
	"math/big"
	"testing"
	"time"

	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-streams/v2/transports"
	types "github.com/openrelayxyz/cardinal-types"
)

var _ = hex.EncodeToString
var _ = big.NewInt
var _ = time.Now

func hsh(s string) types.Hash { return types.BytesToHash([]byte(s)) }

func msg(t *testing.T, n int64) delivery.Message {
	p, err := delivery.NewProducer("d", nil)
	if err != nil { t.Fatal(err) }
	ms, err := p.AddBlock(n, hsh(fmt.Sprint("B", n)), hsh(fmt.Sprint("B", n-1)), big.NewInt(n), nil, nil, nil)
	if err != nil { t.Fatal(err) }
	return ms["d"][0]
}
func consumer(t *testing.T, b *kbroker, topics []string, token string, rollback int64, start int64) (transports.Consumer, chan *delivery.ChainUpdate) {
	c, err := transports.ResolveConsumer(b.url(""), "d", topics, []byte(token), rollback,
		&delivery.ConsumerConfig{LastHash: hsh(fmt.Sprint("B", start)), LastEmittedNum: start, LastWeight: big.NewInt(start), ReorgThreshold: 20})
	if err != nil { t.Fatal(err) }
	ch := make(chan *delivery.ChainUpdate, 1000)
	c.Subscribe(ch)
	if err := c.Start(); err != nil { t.Fatal(err) }
	return c, ch
}
func got(ch chan *delivery.ChainUpdate, n int64) bool {
	for {
		select {
		case u := <-ch:
			for _, pb := range u.Added() { if pb.Number == n { return true } }
		case <-time.After(10 * time.Second):
			return false
		}
	}
}
'''

mk("rollback-below", "C18", [(KAF, "if !ok || offset < kc.rollback{", "if !ok {")],
 "a token whose offset is one less than the rollback (a feed that is younger than the rollback)",
 "the consumer starts at the newest record and skips what is on the log",
 KP + '''
func TestDemo(t *testing.T) {
	b := newBroker()
	defer b.close()
	b.topic("d", 1)
	for i := int64(10); i < 20; i++ {
		m := msg(t, i)
		b.append("d", 0, m.Key(), m.Value(), 1)
	}
	_, ch := consumer(t, b, []string{"d"}, "d:0=4", 5, 14)
	if !got(ch, 19) { t.Fatal("what is on the log does not arrive") }
}
''', pkg="transports", broker=True)

mk("reorg-topic-first", "C27", [(KAF, 'fmt.Sprintf("%s-re-%x",  kc.defaultTopic, msg', 'fmt.Sprintf("%s-re-%x",  kc.topics[0], msg')],
 "a consumer whose list of topics doesn't begin with the default topic, and a large reorg",
 "the consumer looks for the reorg on a topic that does not exist",
 KP + '''
func TestDemo(t *testing.T) {
	b := newBroker()
	defer b.close()
	b.topic("side", 1)
	b.topic("d", 1)
	put := func(topic string, m delivery.Message) { b.append(topic, 0, m.Key(), m.Value(), 1) }
	p, _ := delivery.NewProducer("d", nil)
	for i := int64(10); i < 20; i++ { put("d", msg(t, i)) }
	h := hsh("B12")
	re := "d-re-" + hex.EncodeToString(h[:])
	b.topic(re, 1)
	put(re, p.Reorg(12, h))
	par := h
	for i := int64(13); i < 24; i++ {
		x := hsh(fmt.Sprint("C", i))
		ms, err := p.AddBlock(i, x, par, big.NewInt(i), nil, nil, nil)
		if err != nil { t.Fatal(err) }
		put(re, ms["d"][0])
		par = x
	}
	put(re, p.ReorgDone(12, h))
	put("d", p.Reorg(12, h))
	_, ch := consumer(t, b, []string{"side", "d"}, "d:0=0;side:0=0", 0, 10)
	if !got(ch, 23) { t.Fatal("the blocks of the large reorg do not arrive") }
}
''', pkg="transports", broker=True)

mk("latest-expired", "C23", [(KAF, '''      pc, err = consumer.ConsumePartition(kp.defaultTopic, partid, sarama.OffsetOldest)
      if err != nil { return 0, err }''', '''      pc, err = consumer.ConsumePartition(kp.defaultTopic, partid, sarama.OffsetNewest)
      if err != nil { return 0, err }''')],
 "a partition of which less than 100 records remain, because the older ones have expired",
 "the latest block of the feed is reported as 0",
 KP + '''
func TestDemo(t *testing.T) {
	b := newBroker()
	defer b.close()
	b.topic("d", 1)
	for i := int64(1); i <= 200; i++ {
		m := msg(t, i)
		b.append("d", 0, m.Key(), m.Value(), 1)
	}
	b.truncate("d", 0, 150)
	p, err := transports.ResolveProducer(b.url(""), "d", nil)
	if err != nil { t.Fatal(err) }
	n, err := p.LatestBlockFromFeed()
	if n != 200 || err != nil { t.Fatalf("latest block is %d (%v) instead of 200", n, err) }
}
''', pkg="transports", broker=True)

mk("purge-half", "C17", [(KAF, "  kp.skipBatches.Purge()\n", "")],
 "a block that another producer wrote, whose subbatch was to be skipped, then a purge of the replay cache and a subbatch that was never announced",
 "a subbatch that belongs to no block of this producer is dropped without an error after the purge",
 KP + '''
func TestDemo(t *testing.T) {
	b := newBroker()
	defer b.close()
	b.topic("d", 1)
	m := msg(t, 10)
	b.append("d", 0, m.Key(), m.Value(), 1)
	p, err := transports.ResolveProducer(b.url(""), "d", nil)
	if err != nil { t.Fatal(err) }
	if err := p.AddBlock(10, hsh("B10"), hsh("B9"), big.NewInt(10), nil, nil, map[string]types.Hash{"s/": hsh("S")}); err != nil { t.Fatal(err) }
	if err := p.SendBatch(hsh("S"), nil, map[string][]byte{"s/a": []byte("x")}); err != nil { t.Fatal(err) }
	p.PurgeReplayCache()
	if err := p.SendBatch(hsh("S"), nil, map[string][]byte{"s/a": []byte("x")}); err == nil { t.Fatal("the subbatch of a block that was not written is accepted and lost") }
}
''', pkg="transports", broker=True)

mk("discard-half", "C14", [(ORD, "latestBlock.Number - pb.Number > omp.reorgThreshold {", "latestBlock.Number - pb.Number > omp.reorgThreshold / 2 {")],
 "a branch that forks off within the reorg threshold, some way below the head, and whose blocks arrive out of order",
 "a block of the branch is thrown away although it is within the threshold, and the heavier branch never takes over",
 PRE + '''
func TestDemo(t *testing.T) {
	x := newOC(start("S", 10, 10, 8))
	x.give(blk{"S", 10, "R", 10})
	for i, par := 1, "S"; i <= 8; i++ {
		x.give(blk{fmt.Sprint("A", i), int64(10 + i), par, int64(10 + i)})
		par = fmt.Sprint("A", i)
	}
	for i := 9; i >= 2; i-- { x.give(blk{fmt.Sprint("B", i), int64(10 + i), fmt.Sprint("B", i-1), int64(10 + i)}) }
	s := x.give(blk{"B1", 11, "S", 11})
	if s != "-A1-A2-A3-A4-A5-A6-A7-A8+B1+B2+B3+B4+B5+B6+B7+B8+B9" { t.Fatalf("got %q", s) }
}
''')

mk("repeat-handled", "C13", [(ORD, "  if omp.finished.Contains(pb.Hash) && !reorg {", "  if pb.Hash == omp.lastHash && !reorg {")],
 "a consumer that started without a last block and is handed an early block again",
 "the repeated block is emitted once more and becomes the head",
 PRE + '''
func TestDemo(t *testing.T) {
	c := start("S", 0, 0, 16)
	c.LastHash = types.Hash{}
	x := newOC(c)
	x.give(blk{"B1", 11, "B0", 11})
	x.give(blk{"B2", 12, "B1", 12})
	x.give(blk{"B3", 13, "B2", 13})
	if s := x.give(blk{"B1", 11, "B0", 11}); s != "" { t.Fatalf("repeating B1 causes %q", s) }
}
''')

mk("fresh-forever", "C28", [(ORD, "omp.initEmpty && omp.finished.Len() < 10 && !", "omp.initEmpty && omp.finished.Len() < 20 && !")],
 "a consumer without a last block that meets blocks out of order after the first ten",
 "a block is emitted although its parent was not, which leaves a gap",
 PRE + '''
func TestDemo(t *testing.T) {
	c := start("S", 0, 0, 16)
	c.LastHash = types.Hash{}
	x := newOC(c)
	name := func(i int) string { return fmt.Sprint("B", i) }
	give := func(i int) string { return x.give(blk{name(i), int64(100 + i), name(i - 1), int64(100 + i)}) }
	for i := 1; i <= 12; i++ {
		if s := give(i); s != "+"+name(i) { t.Fatalf("block %d causes %q", i, s) }
	}
	if s := give(14); s != "" { t.Fatalf("block 14 causes %q before block 13 was there", s) }
	if s := give(13); s != "+B13+B14" { t.Fatalf("block 13 causes %q", s) }
}
''')
