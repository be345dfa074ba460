package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"sort"
	"time"

	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-streams/v2/transports"
	types "github.com/openrelayxyz/cardinal-types"
)

func init() {
	register("kprod", kprodCase, 8, 24, 60*time.Second)
	register("kprodgen", kprodgenCase, 40, 24, 60*time.Second)
	register("kbeat", kbeatCase, 1, 16, 120*time.Second)
}

// kraw is a record of the log as a delivery.Message.
type kraw struct{ key, value []byte }

func (m *kraw) Key() []byte   { return m.key }
func (m *kraw) Value() []byte { return m.value }

// kprodRig drives a real Kafka producer and records what it adds to the log.
type kprodRig struct {
	r       *rand.Rand
	b       *kbroker
	p       transports.Producer
	shadow  *delivery.Producer // what the calls should lead to; only used to know how long to wait
	schema  []class
	blocks  []*blockDef
	ev      []Event
	read    map[string]int64 // per partition, records already accounted for
	mine    map[string]map[int64]bool
	pings   int
	floods  int
	seen    map[int]bool
	skip    map[types.Hash]bool
	settle  time.Duration
	started bool
}

// put appends a record of somebody else.
func (g *kprodRig) put(topic string, part int, key, value []byte) int64 {
	off := g.b.append(topic, part, key, value, time.Now().UnixMilli())
	k := partKey(topic, part)
	if g.mine[k] == nil {
		g.mine[k] = map[int64]bool{}
	}
	g.mine[k][off] = true
	return off
}

// fresh returns the producer's records since the last call, and the
// partitions of the default topic that got some.
func (g *kprodRig) peek() int {
	n := 0
	for t, tp := range g.b.topicsSnapshot() {
		for p := 0; p < tp; p++ {
			k := partKey(t, p)
			for off := g.read[k]; off < g.b.end(t, p); off++ {
				if !g.mine[k][off] {
					n++
				}
			}
		}
	}
	return n
}
func (g *kprodRig) fresh() (res []produced, touched []int) {
	snap := g.b.topicsSnapshot()
	names := []string{}
	for t := range snap {
		names = append(names, t)
	}
	sort.Strings(names)
	for _, t := range names {
		for p := 0; p < snap[t]; p++ {
			k := partKey(t, p)
			st, recs := g.b.from(t, p)
			end := st + int64(len(recs))
			hit := false
			for off := g.read[k]; off < end; off++ {
				if off >= st && !g.mine[k][off] {
					x := recs[off-st]
					if len(x.key) == 33 && delivery.MessageType(x.key[0]) == delivery.PingType {
						continue // the producer's heartbeat
					}
					res = append(res, produced{t, &kraw{x.key, x.value}})
					hit = true
				}
			}
			g.read[k] = end
			if hit && t == defaultTopic {
				touched = append(touched, p)
			}
		}
	}
	return
}

// barrier makes sure that the producer has seen what is on these partitions
// of the default topic: a heartbeat that nobody sent before goes after it.
func (g *kprodRig) barrier(parts ...int) {
	for _, p := range parts {
		g.pings++
		id := hashOf("kpb", g.pings)
		g.put(defaultTopic, p, delivery.PingType.GetKey(id[:]), []byte("x"))
	}
	if len(parts) > 0 {
		poll(15*time.Second, func() bool { return int(g.p.ProducerCount(time.Hour)) >= g.pings })
		time.Sleep(500 * time.Microsecond)
	}
}

func (g *kprodRig) collect(expect int, e Event) {
	if expect > 0 {
		poll(5*time.Second, func() bool { return g.peek() >= expect })
		time.Sleep(g.settle / 4)
	} else {
		time.Sleep(g.settle)
	}
	ms, touched := g.fresh()
	for k, v := range projectMsgs(g.blocks, ms) {
		e[k] = v
	}
	g.ev = append(g.ev, e)
	g.barrier(touched...)
}

func (g *kprodRig) add(i int) {
	d := g.blocks[i-1]
	expect := 0
	if g.seen[i] {
		for _, s := range d.Subs {
			g.skip[s.ID] = true
		}
	} else if m, err := g.shadow.AddBlock(d.Num, d.Hash, d.Parent, d.Weight, d.updates(), d.deletes(), d.batches()); err == nil {
		expect = len(flatten(m))
		g.seen[i] = true
	}
	err := g.p.AddBlock(d.Num, d.Hash, d.Parent, d.Weight, d.updates(), d.deletes(), d.batches())
	g.collect(expect, Event{"e": "add", "b": i, "err": errName(err)})
}
func (g *kprodRig) send(id types.Hash) {
	var del []string
	upd := map[string][]byte{}
	for _, b := range g.blocks {
		for i := range b.Subs {
			if b.Subs[i].ID == id {
				del, upd = b.sub(i)
			}
		}
	}
	expect := 0
	if m, err := g.shadow.SendBatch(id, del, upd); err == nil {
		expect = len(flatten(m))
	}
	err := g.p.SendBatch(id, del, upd)
	g.collect(expect, Event{"e": "send", "id": idName(id), "err": errName(err)})
}

// others publishes messages of a block as another producer would.
func (g *kprodRig) others(i int, header, rest bool) []int {
	d := g.blocks[i-1]
	q, err := delivery.NewProducer(defaultTopic, schemaMap(g.schema))
	if err != nil {
		failed("%v", err)
	}
	ms, err := produceAll(q, d)
	if err != nil {
		return nil
	}
	parts := []int{}
	for _, m := range ms {
		h := m.m.Key()[0] == 0
		if h && !header || !h && !rest {
			continue
		}
		p := g.r.Intn(g.b.nparts(m.topic))
		g.put(m.topic, p, m.m.Key(), m.m.Value())
		if m.topic == defaultTopic {
			parts = append(parts, p)
		}
	}
	if header {
		g.seen[i] = true
		g.ev = append(g.ev, Event{"e": "seen", "b": i})
	}
	return parts
}
func (g *kprodRig) foreign(i int, header, rest bool) {
	g.barrier(g.others(i, header, rest)...)
}

// flood publishes headers of n other blocks as another producer would, and
// makes the calls for some of them, which are to have no effect.
func (g *kprodRig) flood(n int) int {
	q, err := delivery.NewProducer(defaultTopic, nil)
	if err != nil {
		failed("%v", err)
	}
	p := g.r.Intn(g.b.nparts(defaultTopic))
	calls := g.r.Intn(80)
	for i := 0; i < n; i++ {
		g.floods++
		ms, err := q.AddBlock(int64(g.floods), hashOf("flood", g.floods), types.Hash{}, big.NewInt(1), nil, nil, nil)
		if err != nil {
			failed("%v", err)
		}
		for _, m := range ms[defaultTopic] {
			g.put(defaultTopic, p, m.Key(), m.Value())
		}
	}
	g.barrier(p)
	for i := 0; i < calls && i < n; i++ {
		x := g.floods - i
		subs := map[string]types.Hash{}
		for j := 0; j < 1+x%4; j++ {
			subs[fmt.Sprintf("q%d/", j)] = hashOf("floodsub", 4*x+j)
		}
		if err := g.p.AddBlock(int64(x), hashOf("flood", x), types.Hash{}, big.NewInt(1), nil, nil, subs); err != nil {
			failed("%v", err)
		}
	}
	return n
}

func (g *kprodRig) purge() {
	g.p.PurgeReplayCache()
	g.seen, g.skip = map[int]bool{}, map[types.Hash]bool{}
	g.ev = append(g.ev, Event{"e": "purge"})
}
func (g *kprodRig) reorg() {
	done, err := g.p.Reorg(int64(g.r.Intn(1000)), g.blocks[g.r.Intn(len(g.blocks))].Hash)
	if done != nil && g.r.Intn(2) == 0 {
		done()
	}
	g.collect(0, Event{"e": "notice", "err": errName(err)})
}

func newKprodRig(c *Ctx, schema []class, opts string) *kprodRig {
	return &kprodRig{r: c.Rng, b: newBroker(), schema: schema, read: map[string]int64{}, mine: map[string]map[int64]bool{},
		seen: map[int]bool{}, skip: map[types.Hash]bool{}, settle: 6 * time.Millisecond}
}
func (g *kprodRig) start(opts string) {
	var err error
	if g.shadow, err = delivery.NewProducer(defaultTopic, schemaMap(g.schema)); err != nil {
		failed("%v", err)
	}
	if g.p, err = transports.NewKafkaProducer(g.b.url(opts), defaultTopic, schemaMap(g.schema)); err != nil {
		failed("%v", err)
	}
}
func (g *kprodRig) finish(c *Ctx) {
	bl := []map[string]interface{}{}
	for _, b := range g.blocks {
		bl = append(bl, prodBlockCfg(g.schema, b))
	}
	c.Emit(&Trace{Cfg: map[string]interface{}{"blocks": bl, "default": defaultTopic}, Ev: g.ev})
	g.b.close()
}

func kprodCase(c *Ctx) {
	r := c.Rng
	schema := randSchema(r)
	g := newKprodRig(c, schema, "")
	exist := r.Intn(3) > 0
	if exist {
		g.b.topic(defaultTopic, 1+r.Intn(3))
		for _, cl := range schema {
			if r.Intn(4) > 0 {
				g.b.topic(cl.topic, 1+r.Intn(2))
			}
		}
	}
	n := 1 + r.Intn(4)
	for i := 0; i < n; i++ {
		b := genBlock(r, i, i-1, int64(r.Intn(1<<40)), schema, r.Intn(8), r.Intn(4), 4)
		if exist {
			b.enlarge(r, 60)
		} else {
			b.enlarge(r, 10) // the topics must have been created for that
		}
		if r.Intn(8) == 0 {
			spoil(r, b, 1+r.Intn(3))
		}
		g.blocks = append(g.blocks, b)
	}
	// what is on the log when the producer starts
	if exist && r.Intn(2) == 0 {
		np := g.b.nparts(defaultTopic)
		old := r.Intn(3) == 0
		if old { // long history
			for p := 0; p < np; p++ {
				for k := r.Intn(300); k > 0; k-- {
					g.put(defaultTopic, p, []byte{9, 9}, nil)
				}
				if r.Intn(3) == 0 {
					end := g.b.end(defaultTopic, p)
					st := end - int64(r.Intn(60))
					if st > 0 {
						g.b.truncate(defaultTopic, p, st)
					}
				}
			}
		}
		left := 95
		for k := r.Intn(5); k > 0; k-- {
			i := 1 + r.Intn(n)
			before := g.b.total()
			for _, cl := range schema {
				g.b.topic(cl.topic, 1+r.Intn(2))
			}
			if left < 40 {
				break
			}
			g.others(i, r.Intn(4) > 0, r.Intn(2) == 0)
			left -= g.b.total() - before
			for f := r.Intn(12); f > 0 && left > 40; f-- {
				left--
				if r.Intn(2) == 0 {
					g.put(defaultTopic, r.Intn(np), nil, nil)
				} else {
					h := hashOf("odd", r.Intn(1000))
					g.put(defaultTopic, r.Intn(np), delivery.BatchMsgType.GetKey(h[:], []byte("k")), []byte("v"))
				}
			}
		}
	}
	if exist && r.Intn(6) == 0 { // everything on a partition has expired
		p := r.Intn(g.b.nparts(defaultTopic))
		lost := false
		for i := range g.seen {
			lost = lost || g.seen[i]
		}
		if !lost {
			for k := 1 + r.Intn(150); k > 0; k-- {
				g.put(defaultTopic, p, nil, nil)
			}
			g.b.truncate(defaultTopic, p, g.b.end(defaultTopic, p))
		}
	}
	opts := ""
	retry := r.Intn(6) == 0
	if retry {
		opts = "retry.backoff.ms=5"
	}
	g.start(opts)
	ids := []types.Hash{{}, hashOf("none", 1)}
	for _, b := range g.blocks {
		for _, s := range b.Subs {
			ids = append(ids, s.ID)
		}
	}
	if r.Intn(2) == 0 {
		np := g.b.nparts(defaultTopic)
		for p := 0; p < np; p++ {
			g.barrier(p)
		}
	}
	room := 0
	if r.Intn(8) == 0 {
		room = 3900
	}
	for k := 2 + r.Intn(12); k > 0; k-- {
		if room > 0 && r.Intn(3) == 0 {
			room -= g.flood(20 + r.Intn(room))
		}
		if retry && r.Intn(4) == 0 {
			t := defaultTopic
			if r.Intn(2) == 0 {
				t = schema[r.Intn(len(schema))].topic
			}
			g.b.mu.Lock()
			g.b.errs[t] = []int16{6, 7, 19}[r.Intn(3)]
			g.b.nerrs[t] = 1 + r.Intn(2)
			g.b.mu.Unlock()
		}
		switch x := r.Intn(24); {
		case x < 8:
			g.add(1 + r.Intn(n))
		case x < 16:
			g.send(ids[r.Intn(len(ids))])
		case x < 19:
			g.foreign(1+r.Intn(n), true, r.Intn(2) == 0)
		case x == 19:
			g.foreign(1+r.Intn(n), false, true)
		case x == 20 || x == 21:
			g.purge()
		case x == 22:
			g.reorg()
		default:
			g.p.SetHealth(r.Intn(2) == 0)
		}
	}
	g.finish(c)
}

// kprodgenCase replays a sequence of calls enumerated by TLC from KafkaProdMC.
func kprodgenCase(c *Ctx) {
	r := c.Rng
	schema := append([]class{}, classes[0], classes[1+r.Intn(len(classes)-1)])
	g := newKprodRig(c, schema, "")
	if r.Intn(2) == 0 {
		g.b.topic(defaultTopic, 1+r.Intn(3))
	}
	for i := 0; i < 2; i++ {
		b := genBlock(r, i, i-1, int64(100+i), schema, 4, 2-i, 2)
		g.blocks = append(g.blocks, b)
	}
	g.start("")
	ids := map[string]types.Hash{"11": g.blocks[0].Subs[0].ID, "12": g.blocks[0].Subs[1].ID, "21": g.blocks[1].Subs[0].ID}
	for _, x := range c.Sched["calls"].([]interface{}) {
		y := x.([]interface{})
		a := y[1].(string)
		var k int
		fmt.Sscan(a, &k)
		switch y[0] {
		case "add":
			g.add(k)
		case "send":
			g.send(ids[a])
		case "seen":
			g.foreign(k, true, false)
		case "purge":
			g.purge()
		}
	}
	g.finish(c)
}

// kbeatCase: what producers write of their own accord, and who counts whom.
func kbeatCase(c *Ctx) {
	r := c.Rng
	b := newBroker()
	defer b.close()
	b.topic(defaultTopic, 1+r.Intn(3))
	n := 1 + r.Intn(3)
	var mux transports.Producer
	healthy := []bool{}
	ps := []transports.Producer{}
	if r.Intn(2) == 0 { // producers of several transports, each with its own heartbeat
		k := 2 + r.Intn(2)
		params := []transports.ProducerBrokerParams{}
		for i := 0; i < k; i++ {
			params = append(params, transports.ProducerBrokerParams{URL: b.url(""), DefaultTopic: defaultTopic})
		}
		p, err := transports.ResolveMuxProducer(params, &wsHistory{})
		if err != nil {
			failed("%v", err)
		}
		h := r.Intn(3) > 0
		p.SetHealth(h)
		for i := 0; i < k; i++ {
			healthy = append(healthy, h)
		}
		n = 0
		mux = p
	}
	for i := 0; i < n; i++ {
		p, err := transports.NewKafkaProducer(b.url(""), defaultTopic, nil)
		if err != nil {
			failed("%v", err)
		}
		h := r.Intn(3) > 0
		p.SetHealth(h)
		healthy = append(healthy, h)
		ps = append(ps, p)
	}
	con, err := transports.ResolveConsumer(b.url(""), defaultTopic, []string{defaultTopic}, nil, -1, &delivery.ConsumerConfig{LastEmittedNum: 1000, LastWeight: bigOne, ReorgThreshold: 10})
	if err != nil {
		failed("%v", err)
	}
	nb := make(chan *delivery.PendingBatch, 100)
	con.Subscribe(nb)
	if err := con.Start(); err != nil {
		failed("%v", err)
	}
	want := 0
	for _, h := range healthy {
		if h {
			want++
		}
	}
	// heartbeats come every 30 s
	poll(40*time.Second, func() bool { return b.total() >= want && want > 0 })
	if want == 0 {
		time.Sleep(time.Second)
	}
	time.Sleep(2500 * time.Millisecond)
	ids, bad := map[string]bool{}, 0
	for p := 0; p < b.nparts(defaultTopic); p++ {
		for _, x := range b.records(defaultTopic, p) {
			if len(x.key) != 33 || delivery.MessageType(x.key[0]) != delivery.PingType {
				bad++
			}
			ids[string(x.key)] = true
		}
	}
	ev := []Event{{"e": "beat", "ids": len(ids), "bad": bad}}
	ev = append(ev, Event{"e": "beatcount", "who": 0, "got": int(con.ProducerCount(time.Hour))})
	if mux != nil {
		ev = append(ev, Event{"e": "beatsum", "got": int(mux.ProducerCount(time.Hour))})
	}
	for i, p := range ps {
		ev = append(ev, Event{"e": "beatcount", "who": i + 1, "got": int(p.ProducerCount(time.Hour))})
	}
	ev = append(ev, Event{"e": "fin", "lost": 0, "bad": len(nb)})
	c.Emit(&Trace{Cfg: map[string]interface{}{"kind": "kping", "who": "all", "healthy": healthy}, Ev: ev})
}
