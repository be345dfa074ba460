import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..")); sys.path.insert(0, os.path.dirname(__file__))
from mkseed import mk
from prelude import PRE
CON, PRO, ORD = "delivery/consumer.go", "delivery/producer.go", "delivery/ordering.go"
KEEP = "\nvar _ = start\n"

mk("dup-delete-counts", "C02", [(CON, '''    if _, ok := pb.Deletes[path]; ok { return false } // Already set
''', '')],
 "a counted delete that is delivered twice before another message of the same prefix arrives",
 "a block comes out without one of its messages",
 PRE + KEEP + '''
func TestDemo(t *testing.T) {
	p, _ := delivery.NewProducer("d", map[string]string{"a/": "a"})
	ms, err := p.AddBlock(7, hsh("B"), hsh("A"), big.NewInt(3), map[string][]byte{"a/u": []byte("x")}, map[string]struct{}{"a/d": {}}, nil)
	if err != nil { t.Fatal(err) }
	mp := delivery.NewMessageProcessor(cfg(8))
	ch := make(chan *delivery.PendingBatch, 10)
	mp.Subscribe(ch)
	mp.ProcessMessage(w(ms["d"][0], 0))
	var del delivery.Message
	for _, m := range ms["a"] { if delivery.MessageType(m.Key()[0]) == delivery.BatchDeleteMsgType { del = m } }
	mp.ProcessMessage(w(del, 1))
	mp.ProcessMessage(w(del, 2))
	select {
	case pb := <-ch:
		t.Fatalf("block emitted without its update: %v", pb.Values)
	default:
	}
}
''')

mk("token-largest-offset", "C08", [(CON, '''if o, ok := pb.resumption[source]; !ok || o > offset { pb.resumption[source] = offset }''',
 '''if o, ok := pb.resumption[source]; !ok || o < offset { pb.resumption[source] = offset }''')],
 "a block with several messages in one partition, then a restart from its token",
 "the token points past messages of the block, which does not come back after a restart",
 PRE + KEEP + '''
func TestDemo(t *testing.T) {
	p, _ := delivery.NewProducer("d", map[string]string{"a/": "a"})
	ms, err := p.AddBlock(7, hsh("B"), hsh("A"), big.NewInt(3), map[string][]byte{"a/u": []byte("x"), "a/v": []byte("y")}, nil, nil)
	if err != nil { t.Fatal(err) }
	mp := delivery.NewMessageProcessor(cfg(8))
	ch := make(chan *delivery.PendingBatch, 10)
	mp.Subscribe(ch)
	mp.ProcessMessage(w(ms["d"][0], 10))
	mp.ProcessMessage(w(ms["a"][0], 11))
	mp.ProcessMessage(w(ms["a"][1], 12))
	pb := <-ch
	if r := pb.Resumption(); r != "t:0=10" { t.Fatalf("token %v skips messages of the block", r) }
}
''')

mk("finish-children-shallow", "C11", [(ORD, '''  for child := range pendingChildren { omp.finishPendingChildren(child) }
''', '''  for child := range pendingChildren { omp.finished.Add(child, struct{}{}) }
''')],
 "a side branch of at least three blocks that is queued when its sibling is emitted, and then grows to be the heaviest",
 "the consumer stays on a lighter chain for good",
 PRE + '''
func TestDemo(t *testing.T) {
	x := newOC(start("S", 10, 10, 64))
	x.give(blk{"S", 10, "R", 10})
	x.give(blk{"A1", 11, "S", 11})
	// a branch off S whose first block comes last
	x.give(blk{"B4", 14, "B3", 14})
	x.give(blk{"A2", 12, "A1", 13})
	x.give(blk{"A3", 13, "A2", 15})
	x.give(blk{"A4", 14, "A3", 17})
	// three blocks below D1 queued beside the emitted chain
	x.give(blk{"E1", 15, "A4", 18}) // head
	x.give(blk{"D3", 18, "D2", 21})
	x.give(blk{"D2", 17, "D1", 20})
	x.give(blk{"F3", 18, "F2", 20})
	x.give(blk{"F2", 17, "D1", 19})
	x.give(blk{"F4", 19, "F3", 20})
	got := x.give(blk{"D1", 16, "E1", 19})
	if got != "+D1+D2+D3" { t.Fatalf("got %v", got) }
	got = x.give(blk{"F5", 20, "F4", 30})
	if got != "-D2-D3+F2+F3+F4+F5" { t.Fatalf("stuck on the lighter chain: %q", got) }
}
''')

mk("whitelist-forgets", "C12", [(ORD, '''  if h, ok := omp.whitelist[uint64(pb.Number)]; ok && h != pb.Hash {
''', '''  if h, ok := omp.whitelist[uint64(pb.Number)]; ok && h == pb.Hash {
    delete(omp.whitelist, uint64(pb.Number))
  } else if ok {
''')],
 "an excluded block that arrives after the permitted block at its height, and is heavier",
 "an excluded block is emitted",
 PRE + '''
func TestDemo(t *testing.T) {
	c := start("S", 10, 10, 64)
	c.Whitelist = map[uint64]types.Hash{11: hsh("A")}
	x := newOC(c)
	x.give(blk{"S", 10, "R", 10})
	if got := x.give(blk{"A", 11, "S", 11}); got != "+A" { t.Fatalf("got %q", got) }
	if got := x.give(blk{"B", 11, "S", 12}); got != "" { t.Fatalf("excluded block emitted: %q", got) }
	if got := x.give(blk{"B2", 12, "B", 15}); got != "" { t.Fatalf("descendant of excluded block emitted: %q", got) }
}
''')
