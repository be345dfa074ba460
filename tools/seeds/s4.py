import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..")); sys.path.insert(0, os.path.dirname(__file__))
from mkseed import mk
from prelude import PRE
CON, PRO, ORD = "delivery/consumer.go", "delivery/producer.go", "delivery/ordering.go"
WAI, KAF, RES, WS = "waiter/waiter.go", "transports/kafka.go", "transports/resolver.go", "transports/websockets.go"
src = open(os.path.join(os.path.dirname(__file__), "s3.py")).read()
KP = src.split("KP = '''")[1].split("'''")[0]

mk("empty-is-delete", "C01", [(CON, '''      // If this is false, we're not tracking this prefix and should ignore the message
      pb.Values[path] = m.Value()''', '''      // If this is false, we're not tracking this prefix and should ignore the message
      if len(m.Value()) > 0 {
        pb.Values[path] = m.Value()
      }''')],
 "a value that is empty, in a message of its own",
 "the block comes without the key",
 PRE + '''
func TestDemo(t *testing.T) {
	p, _ := delivery.NewProducer("d", map[string]string{"^a/": "d"})
	ms, err := p.AddBlock(1, hsh("A"), hsh("G"), big.NewInt(1), map[string][]byte{"a/1": []byte{}, "a/2": []byte("x")}, nil, nil)
	if err != nil { t.Fatal(err) }
	mp := delivery.NewMessageProcessor(cfg(10))
	ch := make(chan *delivery.PendingBatch, 10)
	mp.Subscribe(ch)
	i := int64(0)
	for _, l := range ms {
		for _, m := range l { mp.ProcessMessage(w(m, i)); i++ }
	}
	select {
	case pb := <-ch:
		if _, ok := pb.Values["a/1"]; !ok || len(pb.Values) != 2 { t.Fatalf("wrong values: %v", pb.Values) }
	default:
		t.Fatal("no block")
	}
}
''')

mk("second-announcement", "C06", [(CON, "if _, ok := mp.pendingBatches[hash]; ok { return nil } // We already have this block.",
 "if pb, ok := mp.pendingBatches[hash]; ok && pb.batches != nil && !pb.restarts(m) { return nil } // We already have this block."),
 (CON, "func (pb *PendingBatch) Ready() bool {", '''// restarts tells whether a message from before everything we have of a block announces it again.
func (pb *PendingBatch) restarts(m ResumptionMessage) bool {
  o, ok := pb.resumption[m.Source()]
  return ok && m.Offset() < o
}

func (pb *PendingBatch) Ready() bool {''')],
 "two transports or a rollback which hand an announcement over again with a lower offset while the block is incomplete",
 "what was received of the block before is forgotten, and if the other producer crashed the block never completes",
 PRE + '''
func TestDemo(t *testing.T) {
	p, _ := delivery.NewProducer("d", map[string]string{"^a/": "d"})
	ms, err := p.AddBlock(1, hsh("A"), hsh("G"), big.NewInt(1), map[string][]byte{"a/1": []byte("y"), "a/2": []byte("x")}, nil, nil)
	if err != nil { t.Fatal(err) }
	mp := delivery.NewMessageProcessor(cfg(10))
	ch := make(chan *delivery.PendingBatch, 10)
	mp.Subscribe(ch)
	l := ms["d"]
	if len(l) != 3 { t.Fatal("wrong number of messages") }
	// the second producer starts earlier on the log, but crashes after the announcement
	mp.ProcessMessage(w(l[2], 5)) // the announcement
	mp.ProcessMessage(w(l[0], 6))
	mp.ProcessMessage(w(l[2], 3))
	mp.ProcessMessage(w(l[1], 7))
	select {
	case <-ch:
	default:
		t.Fatal("the block never completes")
	}
}
''')

mk("genesis-reorg", "C09", [(ORD, '''      return reverted, newBlocks, fmt.Errorf("Reached genesis without finding common ancestor")''',
'''      // Whatever is below this has been handed over long ago
      return reverted, newBlocks, nil''')],
 "a heavier branch whose fork is below what the consumer has of its chain",
 "an update that adds blocks which do not connect to the chain",
 PRE + '''
func TestDemo(t *testing.T) {
	x := newOC(start("G", 100, 100, 10))
	x.give(blk{"A", 101, "G", 101})
	x.give(blk{"B", 102, "A", 102})
	x.give(blk{"y", 100, "z", 99})
	got := x.give(blk{"Y", 101, "y", 103})
	if got != "" && got != "-A-B+y+Y" { t.Fatalf("got %q", got) }
	if got != "" {
		t.Fatal("an update which does not connect: " + got)
	}
}
''')

mk("queued-tie", "C10", [(ORD, "if pb.Weight.Cmp(omp.lastWeight) > 0 {", "if c := pb.Weight.Cmp(omp.lastWeight); c > 0 || (reorg && c == 0) {")],
 "a branch of the weight of the chain whose blocks came before what links them",
 "the chain is left for one that is not heavier",
 PRE + '''
func TestDemo(t *testing.T) {
	x := newOC(start("G", 100, 100, 10))
	x.give(blk{"F", 101, "G", 101})
	x.give(blk{"A", 102, "F", 102})
	x.give(blk{"B", 103, "A", 103})
	x.give(blk{"y", 103, "x", 103})
	if got := x.give(blk{"x", 102, "F", 102}); got != "" { t.Fatalf("got %q", got) }
}
''')

mk("full-drops", "C16", [(KAF, "          messages <- input\n        }\n      }(pc, startOffset", '''          select {
          case messages <- input:
          case <-time.After(100 * time.Millisecond):
            log.Warn("Dropping message", "topic", topic, "partition", partid, "offset", input.Offset)
          }
        }
      }(pc, startOffset''')],
 "an application that takes its time while there is much to read",
 "blocks are lost",
 KP + '''
func TestDemo(t *testing.T) {
	b := newBroker()
	defer b.close()
	b.topic("d", 1)
	for i := int64(11); i < 2000; i++ {
		m := msg(t, i)
		b.append("d", 0, m.Key(), m.Value(), 1)
	}
	c, err := transports.ResolveConsumer(b.url(""), "d", []string{"d"}, []byte("d:0=0"), 0,
		&delivery.ConsumerConfig{LastHash: hsh("B10"), LastEmittedNum: 10, LastWeight: big.NewInt(10), ReorgThreshold: 20})
	if err != nil { t.Fatal(err) }
	ch := make(chan *delivery.ChainUpdate)
	c.Subscribe(ch)
	go c.Start()
	<-ch
	time.Sleep(2 * time.Second)
	if !got(ch, 1999) { t.Fatal("what is on the log does not arrive") }
}
''', pkg="transports", broker=True)

mk("ws-early-deletes", "C19", [(WS, '''							for _, k := range sb.Deletes {
								pb.Deletes[k] = struct{}{}
							}
							delete(subbatches, batchid)''', '''							delete(subbatches, batchid)''')],
 "a part of a block that arrives before the block itself and deletes something",
 "the deletes of that part are lost",
 '''package transports_test

import (
	"encoding/json"
	"fmt"
	"math/big"
	"net/http"
	"net/http/httptest"
	"strings"
	"testing"
	"time"

	"github.com/gorilla/websocket"
	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-streams/v2/transports"
	types "github.com/openrelayxyz/cardinal-types"
)

func hsh(s string) types.Hash { return types.BytesToHash([]byte(s)) }

func TestDemo(t *testing.T) {
	srv := httptest.NewServer(http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
		c, err := (&websocket.Upgrader{}).Upgrade(rw, r, nil)
		if err != nil { return }
		_, m, err := c.ReadMessage()
		if err != nil { return }
		var call struct { ID json.RawMessage `json:"id"` }
		json.Unmarshal(m, &call)
		c.WriteMessage(websocket.TextMessage, []byte(fmt.Sprintf(`{"jsonrpc":"2.0","id":%s,"result":"0x1"}`, call.ID)))
		send := func(s string) {
			c.WriteMessage(websocket.TextMessage, []byte(`{"jsonrpc":"2.0","method":"cardinal_subscribe","params":{"subscription":"0x1","result":` + s + `}}`))
		}
		send(fmt.Sprintf(`{"type":"subbatch","subbatch":{"hash":"%#x","batchid":"%#x","values":{"a/1":"0x01"},"deletes":["a/2"]}}`, hsh("A"), hsh("b")))
		send(fmt.Sprintf(`{"type":"batch","batch":{"number":"0xb","weight":"0xb","hash":"%#x","parent":"%#x","values":{},"deletes":[],"batches":{"a/":"%#x"}}}`, hsh("A"), hsh("G"), hsh("b")))
		for { if _, _, err := c.ReadMessage(); err != nil { return } }
	}))
	defer srv.Close()
	c, err := transports.ResolveConsumer("ws://"+strings.TrimPrefix(srv.URL, "http://"), "", nil, nil, 0,
		&delivery.ConsumerConfig{LastHash: hsh("G"), LastEmittedNum: 10, LastWeight: big.NewInt(10), ReorgThreshold: 10})
	if err != nil { t.Fatal(err) }
	ch := make(chan *delivery.ChainUpdate, 10)
	c.Subscribe(ch)
	if err := c.Start(); err != nil { t.Fatal(err) }
	select {
	case u := <-ch:
		pb := u.Added()[0]
		if _, ok := pb.Deletes["a/2"]; !ok || len(pb.Values) != 1 { t.Fatalf("wrong block: %v %v", pb.Values, pb.Deletes) }
	case <-time.After(20 * time.Second):
		t.Fatal("no block")
	}
}
''', pkg="transports")

mk("old-blocks-early", "C25", [(ORD, "if latestBlock := omp.pending[omp.lastHash]; latestBlock != nil && latestBlock.Number - pb.Number > omp.reorgThreshold {",
 "if latestBlock := omp.pending[omp.lastHash]; latestBlock != nil && new(big.Int).Sub(omp.lastWeight, pb.Weight).Cmp(big.NewInt(omp.reorgThreshold)) > 0 {")],
 "a restart on a chain whose blocks weigh more than one each, and a branch that comes before its ancestors",
 "blocks within the reorg threshold are thrown away",
 PRE + '''
func TestDemo(t *testing.T) {
	x := newOC(start("H", 105, 10500, 10))
	// the history comes back, newest first, with a heavier branch from below
	x.give(blk{"H", 105, "E", 10500})
	x.give(blk{"Y", 106, "X", 10701})
	x.give(blk{"X", 105, "E", 10501})
	got := x.give(blk{"E", 104, "D", 10400})
	got += x.give(blk{"D", 103, "C", 10300})
	got += x.give(blk{"Z", 107, "Y", 10800})
	if got != "-H+X+Y+Z" { t.Fatalf("%q", got) }
}
''')
