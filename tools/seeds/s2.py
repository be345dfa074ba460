import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..")); sys.path.insert(0, os.path.dirname(__file__))
from mkseed import mk
from prelude import PRE
CON, PRO, ORD = "delivery/consumer.go", "delivery/producer.go", "delivery/ordering.go"
WAI, KAF, RES, WS = "waiter/waiter.go", "transports/kafka.go", "transports/resolver.go", "transports/websockets.go"
KEEP = "\nvar _ = start\n"

mk("subheader-resets", "C04", [(CON, "    if _, ok := mp.pendingBatches[hash].pendingBatches[batchid]; !ok { return nil } // We've already gotten this batch\n", "")],
 "a subbatch header that is delivered again between two parts of the subbatch",
 "the parts that already arrived are forgotten and the block never completes",
 PRE + KEEP + '''
func TestDemo(t *testing.T) {
	p, _ := delivery.NewProducer("d", nil)
	ms, err := p.AddBlock(7, hsh("B"), hsh("A"), big.NewInt(3), nil, nil, map[string]types.Hash{"s/": hsh("S")})
	if err != nil { t.Fatal(err) }
	sb, err := p.SendBatch(hsh("S"), nil, map[string][]byte{"s/a": []byte("x"), "s/b": []byte("y")})
	if err != nil { t.Fatal(err) }
	mp := delivery.NewMessageProcessor(cfg(8))
	ch := make(chan *delivery.PendingBatch, 10)
	mp.Subscribe(ch)
	for i, m := range []delivery.Message{ms["d"][0], sb["d"][0], sb["d"][1], sb["d"][0], sb["d"][2]} { mp.ProcessMessage(w(m, int64(i))) }
	select {
	case <-ch:
	default:
		t.Fatalf("block is complete but did not come out: %v", mp.WhyNotReady(hsh("B")))
	}
}
''')

mk("completed-half", "C03", [(CON, "cache, err := lru.New(int(2 * cfg.ReorgThreshold))", "cache, err := lru.New(int(cfg.ReorgThreshold))")],
 "a second producer that is between one and two reorg thresholds of blocks behind the first",
 "blocks are emitted twice",
 PRE + KEEP + '''
func TestDemo(t *testing.T) {
	p, _ := delivery.NewProducer("d", nil)
	mp := delivery.NewMessageProcessor(cfg(8))
	ch := make(chan *delivery.PendingBatch, 100)
	mp.Subscribe(ch)
	give := func(i, off int) {
		ms, err := p.AddBlock(int64(i), hsh(fmt.Sprint("B", i)), hsh(fmt.Sprint("B", i-1)), big.NewInt(int64(i)), nil, nil, nil)
		if err != nil { t.Fatal(err) }
		mp.ProcessMessage(w(ms["d"][0], int64(off)))
	}
	for i := 1; i <= 12; i++ { give(i, i) }
	give(1, 13)
	if len(ch) != 12 { t.Fatalf("%d blocks came out instead of 12", len(ch)) }
}
''')

mk("delete-unfiltered", "C05", [(CON, "      match := false\n", "      if update.Delete { mp.pendingBatches[hash].Deletes[prefix] = struct{}{} }\n      match := false\n"),
  (CON, "      if update.Delete { mp.pendingBatches[hash].Deletes[prefix] = struct{}{} }\n      if update.Count", "      if update.Count")],
 "a consumer that follows some prefixes only and a block with a deletion of another key in its header",
 "the consumer gets deletions that it did not ask for",
 PRE + KEEP + '''
func TestDemo(t *testing.T) {
	p, _ := delivery.NewProducer("d", nil)
	ms, err := p.AddBlock(7, hsh("B"), hsh("A"), big.NewInt(3), map[string][]byte{"a/u": []byte("x")}, map[string]struct{}{"a/d": {}, "b/d": {}}, nil)
	if err != nil { t.Fatal(err) }
	c := cfg(8)
	c.TrackedPrefixes = []*regexp.Regexp{regexp.MustCompile("^a/")}
	mp := delivery.NewMessageProcessor(c)
	ch := make(chan *delivery.PendingBatch, 10)
	mp.Subscribe(ch)
	mp.ProcessMessage(w(ms["d"][0], 0))
	pb := <-ch
	if _, ok := pb.Deletes["a/d"]; !ok || len(pb.Deletes) != 1 { t.Fatalf("deletes %v", pb.Deletes) }
}
''')

mk("why-last-message", "C22", [(CON, "    if v > 0 { return fmt.Sprintf(\"Pending prefix", "    if v > 1 { return fmt.Sprintf(\"Pending prefix")],
 "a block of which exactly one message of a prefix is missing",
 "the block that is not ready is said to be ready",
 PRE + KEEP + '''
func TestDemo(t *testing.T) {
	p, _ := delivery.NewProducer("d", map[string]string{"a/": "a"})
	ms, err := p.AddBlock(7, hsh("B"), hsh("A"), big.NewInt(3), map[string][]byte{"a/u": []byte("x")}, nil, nil)
	if err != nil { t.Fatal(err) }
	mp := delivery.NewMessageProcessor(cfg(8))
	mp.ProcessMessage(w(ms["d"][0], 0))
	if why := mp.WhyNotReady(hsh("B")); why == "ready" { t.Fatal("said to be ready while a message is missing") }
}
''')

mk("reorg-no-hash", "C26", [(ORD, "  omp.lastHash = hash\n  // omp.lastNumber", "  // omp.lastNumber")],
 "a large-reorg notice for a block below the head, followed by a chain from there whose weights start below the head's",
 "the consumer does not follow the chain that continues from the notice",
 PRE + '''
func TestDemo(t *testing.T) {
	c := start("S", 10, 10, 8)
	c.TrackedPrefixes = []*regexp.Regexp{regexp.MustCompile(".")}
	o, err := delivery.NewOrderedMessageProcessor(c)
	if err != nil { t.Fatal(err) }
	ch := make(chan *delivery.ChainUpdate, 100)
	o.Subscribe(ch)
	p, _ := delivery.NewProducer("d", nil)
	off := int64(0)
	give := func(n string, num int64, par string, wt int64) {
		ms, err := p.AddBlock(num, hsh(n), hsh(par), big.NewInt(wt), nil, nil, nil)
		if err != nil { t.Fatal(err) }
		off++
		o.ProcessMessage(w(ms["d"][0], off))
	}
	want := func(n string) {
		for {
			select {
			case u := <-ch:
				for _, pb := range u.Added() { if pb.Hash == hsh(n) { return } }
			case <-time.After(2 * time.Second):
				t.Fatalf("%v did not come", n)
			}
		}
	}
	give("S", 10, "R", 10)
	give("A1", 11, "S", 11)
	give("A2", 12, "A1", 12)
	give("A3", 13, "A2", 13)
	want("A3")
	off++
	o.ProcessMessage(w(p.Reorg(11, hsh("A1")), off))
	give("B2", 12, "A1", 12)
	want("B2")
	give("B3", 13, "B2", 13)
	want("B3")
}
''')

mk("unanchored", "C07", [(PRO, '''      exp, err = regexp.Compile("^" + i)
      if err != nil { return nil, err }
''', "")],
 "a key that has a schema expression in its middle",
 "an item is counted under a prefix that does not match it, on a topic where it does not belong",
 PRE + KEEP + '''
func TestDemo(t *testing.T) {
	p, err := delivery.NewProducer("d", map[string]string{"acct/": "a"})
	if err != nil { t.Fatal(err) }
	ms, err := p.AddBlock(7, hsh("B"), hsh("A"), big.NewInt(3), map[string][]byte{"old/acct/u": []byte("x")}, nil, nil)
	if err != nil { t.Fatal(err) }
	if len(ms["a"]) != 0 { t.Fatal("the item went to a topic it does not belong to") }
	mp := delivery.NewMessageProcessor(cfg(8))
	ch := make(chan *delivery.PendingBatch, 10)
	mp.Subscribe(ch)
	mp.ProcessMessage(w(ms["d"][0], 0))
	if len(ch) != 1 { t.Fatal("the block did not come out") }
}
''')

mk("whole-not-recorded", "C03", [(CON, "	mp.completed.Add(pb.Hash, struct{}{})\n", "")],
 "a block that comes whole over one transport and again in messages over another",
 "the block is emitted twice",
 PRE + KEEP + '''
func TestDemo(t *testing.T) {
	p, _ := delivery.NewProducer("d", nil)
	ms, err := p.AddBlock(7, hsh("B"), hsh("A"), big.NewInt(3), nil, nil, nil)
	if err != nil { t.Fatal(err) }
	mp := delivery.NewMessageProcessor(cfg(8))
	ch := make(chan *delivery.PendingBatch, 10)
	mp.Subscribe(ch)
	mp.ProcessCompleteBatch(&delivery.PendingBatch{Number: 7, Hash: hsh("B"), ParentHash: hsh("A"), Weight: big.NewInt(3), Values: map[string][]byte{}, Deletes: map[string]struct{}{}})
	mp.ProcessMessage(w(ms["d"][0], 0))
	if len(ch) != 1 { t.Fatalf("the block came out %d times", len(ch)) }
}
''')

mk("number-renewed", "C15", [(WAI, '''            if _, ok := w.numbers[pw.Number]; !ok {
                w.numbers[pw.Number] = make(chan struct{})
            }
''', "            w.numbers[pw.Number] = make(chan struct{})\n")],
 "two blocks with the same number that are announced before a wait for that number, of which the first is applied",
 "the wait times out although its block was applied",
 PRE.replace('"github.com/openrelayxyz/cardinal-streams/v2/delivery"', '"github.com/openrelayxyz/cardinal-streams/v2/delivery"\n\t"github.com/openrelayxyz/cardinal-streams/v2/waiter"') + '''
func TestDemo(t *testing.T) {
	c := start("S", 10, 10, 8)
	c.TrackedPrefixes = []*regexp.Regexp{regexp.MustCompile(".")}
	o, err := delivery.NewOrderedMessageProcessor(c)
	if err != nil { t.Fatal(err) }
	wt := waiter.NewOmpWaiter(o)
	ch := make(chan *delivery.ChainUpdate, 100)
	o.Subscribe(ch)
	p, _ := delivery.NewProducer("d", map[string]string{"a/": "a"})
	add := func(n string) map[string][]delivery.Message {
		ms, err := p.AddBlock(11, hsh(n), hsh("S"), big.NewInt(11), map[string][]byte{"a/x": []byte("x")}, nil, nil)
		if err != nil { t.Fatal(err) }
		return ms
	}
	a, b := add("A"), add("B")
	o.ProcessMessage(w(a["d"][0], 1))
	time.Sleep(50 * time.Millisecond)
	o.ProcessMessage(w(b["d"][0], 2))
	time.Sleep(50 * time.Millisecond)
	res := make(chan waiter.WaitResult, 1)
	go func() { res <- wt.WaitForNumberResult(11, 3*time.Second) }()
	time.Sleep(50 * time.Millisecond)
	o.ProcessMessage(w(a["a"][0], 3))
	(<-ch).Done()
	if r := <-res; r != waiter.Success { t.Fatalf("the block was applied, but waiting for it: %v", r) }
}
''')

KPRE = '''package transports

import (
	"fmt"
	"math/big"
	"testing"
	"time"
	"regexp"

	"github.com/Shopify/sarama"
	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	types "github.com/openrelayxyz/cardinal-types"
)

var _ = fmt.Sprint
var _ = time.Now
var _ = big.NewInt
var _ = regexp.MustCompile

func hsh(s string) types.Hash { return types.BytesToHash([]byte(s)) }
var _ sarama.Encoder
var _ delivery.Message
'''
mk("heartbeat-first", "C24", [(KAF, "  pt.pings[key] = time.Now()\n", "  if _, ok := pt.pings[key]; !ok { pt.pings[key] = time.Now() }\n")],
 "a producer whose first heartbeat is older than the period asked for",
 "producers that are alive are not counted",
 KPRE + '''
func TestDemo(t *testing.T) {
	pt := &pingTracker{pings: make(map[types.Hash]time.Time)}
	pt.update(hsh("P"))
	time.Sleep(300 * time.Millisecond)
	pt.update(hsh("P"))
	if n := pt.ProducerCount(200 * time.Millisecond); n != 1 { t.Fatalf("%d producers instead of 1", n) }
}
''', pkg="transports")

WPRE = '''package transports_test

import (
	"context"
	"encoding/json"
	"fmt"
	"math/big"
	"net"
	"strings"
	"testing"
	"time"

	"github.com/gorilla/websocket"
	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-streams/v2/transports"
	types "github.com/openrelayxyz/cardinal-types"
)

var _ = json.Marshal
var _ = strings.Contains
var _ = fmt.Sprint
var _ = big.NewInt
var _ websocket.Dialer

func hsh(s string) types.Hash { return types.BytesToHash([]byte(s)) }

type hist struct{ bs []*delivery.PendingBatch }

func (h *hist) BlocksFrom(ctx context.Context, number uint64, hash types.Hash) (chan *delivery.PendingBatch, error) {
	ch := make(chan *delivery.PendingBatch, len(h.bs))
	for _, b := range h.bs { if uint64(b.Number) > number { ch <- b } }
	close(ch)
	return ch, nil
}
func (h *hist) GetBlock(ctx context.Context, number uint64) *delivery.PendingBatch {
	for _, b := range h.bs { if uint64(b.Number) == number { return b } }
	return nil
}
func port() string {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil { panic(err) }
	defer l.Close()
	return fmt.Sprint(l.Addr().(*net.TCPAddr).Port)
}
func block(n string, num int64, par string, vals map[string][]byte, dels ...string) *delivery.PendingBatch {
	pb := &delivery.PendingBatch{Number: num, Hash: hsh(n), ParentHash: hsh(par), Weight: big.NewInt(num), Values: vals, Deletes: map[string]struct{}{}}
	for _, d := range dels { pb.Deletes[d] = struct{}{} }
	return pb
}
func consumer(t *testing.T, url string, h string, num int64) (transports.Consumer, chan *delivery.ChainUpdate) {
	c, err := transports.ResolveConsumer(url, "d", []string{"d"}, nil, 0, &delivery.ConsumerConfig{LastHash: hsh(h), LastEmittedNum: num, LastWeight: big.NewInt(num), ReorgThreshold: 8})
	if err != nil { t.Fatal(err) }
	ch := make(chan *delivery.ChainUpdate, 100)
	c.Subscribe(ch)
	if err := c.Start(); err != nil { t.Fatal(err) }
	return c, ch
}
func next(t *testing.T, ch chan *delivery.ChainUpdate) *delivery.PendingBatch {
	select {
	case u := <-ch:
		return u.Added()[len(u.Added())-1]
	case <-time.After(5 * time.Second):
		t.Fatal("no block came")
	}
	return nil
}
'''
mk("ws-history-deletes", "C20", [(WS, '''			for k, _ := range block.Deletes {
				deletes = append(deletes, k)
			}
''', '''			if len(values) == 0 {
				for k, _ := range block.Deletes {
					deletes = append(deletes, k)
				}
			}
''')],
 "a client that resumes across a block that has both updates and deletions",
 "the deletions of the block are lost",
 WPRE + '''
func TestDemo(t *testing.T) {
	h := &hist{bs: []*delivery.PendingBatch{block("A", 11, "S", map[string][]byte{"x": []byte("v")}, "y")}}
	u := "ws://127.0.0.1:" + port()
	if _, err := transports.ResolveProducerWithResumer(u, "d", nil, h); err != nil { t.Fatal(err) }
	time.Sleep(300 * time.Millisecond)
	_, ch := consumer(t, u, "S", 10)
	pb := next(t, ch)
	if _, ok := pb.Deletes["y"]; !ok || string(pb.Values["x"]) != "v" { t.Fatalf("got %v %v", pb.Values, pb.Deletes) }
}
''', pkg="transports")

mk("mux-purge-first", "C21", [(RES, "    p.PurgeReplayCache()\n", "    p.PurgeReplayCache()\n    break\n")],
 "a producer of several transports whose replay cache is purged",
 "all transports but the first keep skipping blocks",
 WPRE.replace("package transports_test", "package transports").replace('\t"github.com/openrelayxyz/cardinal-streams/v2/transports"\n', "").replace("transports.", "") + '''
type purges struct {
	Producer
	n int
}
func (p *purges) PurgeReplayCache() { p.n++ }
func TestDemo(t *testing.T) {
	a, b := &purges{}, &purges{}
	(&muxProducer{producers: []Producer{a, b}}).PurgeReplayCache()
	if a.n != 1 || b.n != 1 { t.Fatalf("%d %d", a.n, b.n) }
}
''', pkg="transports")
