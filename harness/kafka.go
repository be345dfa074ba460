package main

import (
	"fmt"
	"math/big"
	"strings"
	"sync"
	"time"

	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-streams/v2/transports"
	types "github.com/openrelayxyz/cardinal-types"
)

func init() {
	register("kstart", kstartCase, 8, 40, 90*time.Second)
	register("kping", kpingCase, 10, 24, 60*time.Second)
}

// bare makes the single message of a block without contents.
func bare(p *delivery.Producer, num int64, hash, parent types.Hash, w int64) delivery.Message {
	ms, err := p.AddBlock(num, hash, parent, big.NewInt(w), nil, nil, nil)
	if err != nil {
		failed("%v", err)
	}
	for _, l := range ms {
		if len(l) == 1 {
			return l[0]
		}
	}
	failed("a block without contents is not one message")
	return nil
}

func shadowProducer() *delivery.Producer {
	p, err := delivery.NewProducer("d", nil)
	if err != nil {
		failed("%v", err)
	}
	return p
}

type kpos struct {
	part int
	off  int64
}

// kstartCase: a log is prepared, a consumer is started from a token, some
// partitions are slow, more is written meanwhile and afterwards.
func kstartCase(c *Ctx) {
	r := c.Rng
	b := newBroker()
	defer b.close()
	sp := shadowProducer()
	type kp struct {
		topic string
		part  int
	}
	parts := []kp{}
	topics := []string{}
	for i := 1 + r.Intn(3); i > 0; i-- {
		t := fmt.Sprintf("t%d", i)
		n := 1 + r.Intn(3)
		b.topic(t, n)
		topics = append(topics, t)
		for j := 0; j < n; j++ {
			parts = append(parts, kp{t, j})
		}
	}
	var mu sync.Mutex
	where := map[types.Hash]kpos{}
	nblk := 0
	big := r.Intn(12) == 0
	put := func(i int) (int64, bool) { // a record on partition i; is it a block
		p := parts[i]
		switch x := r.Intn(12); {
		case x == 0:
			return b.append(p.topic, p.part, nil, nil, 1), false
		case x == 1:
			id := hashOf("png", r.Intn(5))
			return b.append(p.topic, p.part, delivery.PingType.GetKey(id[:]), []byte{1}, 1), false
		}
		nblk++
		h := hashOf("kst", nblk)
		m := bare(sp, int64(1000+nblk), h, hashOf("ksp", nblk), 5)
		mu.Lock()
		defer mu.Unlock()
		off := b.append(p.topic, p.part, m.Key(), m.Value(), 1)
		where[h] = kpos{i, off}
		return off, true
	}
	type pcfg struct {
		Start int64   `json:"start"`
		End   int64   `json:"end"`
		Tok   int64   `json:"tok"`
		Blk   []int64 `json:"blk"`
	}
	cfgs := make([]pcfg, len(parts))
	empty := r.Intn(4) == 0
	for i, p := range parts {
		n := r.Intn(12)
		if r.Intn(3) == 0 {
			n = r.Intn(120)
		}
		if empty && r.Intn(2) == 0 {
			n = 0
		}
		if big && r.Intn(2) == 0 {
			n = 300 + r.Intn(400)
		}
		off := []int64{}
		for j := 0; j < n; j++ {
			if o, blk := put(i); blk {
				off = append(off, o)
			}
		}
		st := int64(0)
		if r.Intn(3) == 0 && n > 0 {
			st = int64(r.Intn(n + 1))
			b.truncate(p.topic, p.part, st)
		}
		cfgs[i] = pcfg{Start: st, End: int64(n), Tok: -1, Blk: []int64{}}
		for _, o := range off {
			if o >= st {
				cfgs[i].Blk = append(cfgs[i].Blk, o)
			}
		}
	}
	rollback := int64(0)
	switch r.Intn(5) {
	case 0, 1:
		rollback = int64(r.Intn(15))
	case 2:
		rollback = int64(r.Intn(200))
	}
	hashSet := r.Intn(3) > 0
	toks := []string{}
	if r.Intn(6) > 0 {
		for i, p := range parts {
			if r.Intn(6) == 0 {
				continue
			}
			n := cfgs[i].End
			o := cfgs[i].Start
			if n > o {
				o += r.Int63n(n - o)
			}
			switch r.Intn(12) {
			case 0: // fell off the log, or close to it
				o = int64(r.Intn(int(cfgs[i].Start) + 1))
			case 1:
				o = n
			}
			if r.Intn(60) == 0 {
				o = n + int64(r.Intn(3))
			}
			cfgs[i].Tok = o
			toks = append(toks, fmt.Sprintf("%s:%d=%d", p.topic, p.part, o))
		}
	} else if !hashSet && r.Intn(2) == 0 {
		rollback = -1 // replay everything
	}
	if r.Intn(4) == 0 {
		toks = append(toks, "elsewhere:0=7")
	}
	if r.Intn(8) == 0 {
		toks = append(toks, "junk")
	}
	r.Shuffle(len(toks), func(i, j int) { toks[i], toks[j] = toks[j], toks[i] })
	badTok := r.Intn(25) == 0
	if badTok {
		toks = append(toks, topics[0]+":0=x1")
	}
	var lastHash types.Hash
	if hashSet {
		lastHash = hashOf("klh", 1)
	}
	trace := &Trace{Cfg: map[string]interface{}{"kind": "kstart", "parts": cfgs, "rollback": rollback, "hash": hashSet, "badtok": badTok}}
	ev := []Event{}
	con, err := transports.ResolveConsumer(b.url(""), topics[0], topics, []byte(strings.Join(toks, ";")), rollback,
		&delivery.ConsumerConfig{LastHash: lastHash, LastEmittedNum: 1000, LastWeight: bigOne, ReorgThreshold: 5000})
	if err != nil {
		trace.Ev = append(ev, Event{"e": "refused"})
		c.Emit(trace)
		return
	}
	ch := make(chan *delivery.PendingBatch)
	con.Subscribe(ch)
	nproc := 0
	go func() {
		for pb := range ch {
			mu.Lock()
			p, ok := where[pb.Hash]
			if !ok {
				p = kpos{-1, -1}
			}
			ev = append(ev, Event{"e": "p", "i": p.part + 1, "o": p.off})
			nproc++
			mu.Unlock()
		}
	}()
	gated := []int{}
	if r.Intn(2) == 0 {
		for i, p := range parts {
			if r.Intn(2) == 0 && cfgs[i].End > cfgs[i].Start {
				b.setGate(p.topic, p.part, cfgs[i].Start+r.Int63n(cfgs[i].End-cfgs[i].Start))
				gated = append(gated, i)
			}
		}
	}
	if err := con.Start(); err != nil {
		mu.Lock()
		trace.Ev = append(ev, Event{"e": "failed"})
		mu.Unlock()
		c.Emit(trace)
		return
	}
	isReady := false
	go func() {
		<-con.Ready()
		mu.Lock()
		ev = append(ev, Event{"e": "ready"})
		isReady = true
		mu.Unlock()
	}()
	write := func(i int) {
		// the event goes in before the record can be seen
		mu.Lock()
		k := len(ev)
		ev = append(ev, Event{"e": "app", "i": i + 1, "o": int64(-1)})
		mu.Unlock()
		p := parts[i]
		nblk++
		h := hashOf("kst", nblk)
		m := bare(sp, int64(1000+nblk), h, hashOf("ksp", nblk), 5)
		mu.Lock()
		off := b.append(p.topic, p.part, m.Key(), m.Value(), 1)
		where[h] = kpos{i, off}
		ev[k]["o"] = off
		mu.Unlock()
	}
	if len(gated) > 0 {
		time.Sleep(time.Duration(1100+r.Intn(400)) * time.Millisecond)
		for _, i := range gated {
			if r.Intn(4) == 0 {
				write(i)
			}
			b.setGate(parts[i].topic, parts[i].part, -1)
			if r.Intn(3) == 0 {
				time.Sleep(time.Duration(r.Intn(300)) * time.Millisecond)
			}
		}
	}
	got := func() bool { mu.Lock(); defer mu.Unlock(); return isReady }
	poll(15*time.Second, got)
	for i := r.Intn(8); i > 0; i-- {
		write(r.Intn(len(parts)))
	}
	want := map[kpos]bool{}
	for i := range parts {
		s := expectedStart(cfgs[i].Start, cfgs[i].End, cfgs[i].Tok, rollback, hashSet)
		for _, p := range where {
			if p.part == i && p.off >= s {
				want[p] = true
			}
		}
	}
	poll(10*time.Second, func() bool { mu.Lock(); defer mu.Unlock(); return nproc >= len(want) })
	time.Sleep(3 * time.Millisecond)
	mu.Lock()
	trace.Ev = append(append([]Event{}, ev...), Event{"e": "fin"})
	mu.Unlock()
	c.Emit(trace)
}

// expectedStart only tells the driver how long to wait; the verdict is the
// trace specification's.
func expectedStart(start, end, tok, rollback int64, hashSet bool) int64 {
	if tok >= 0 && tok >= rollback {
		if w := tok - rollback; w >= start && w <= end {
			return w
		}
		return tok
	}
	if !hashSet && rollback >= 0 {
		if end-1 >= start {
			return end - 1
		}
		return end
	}
	return start
}

var bigOne = big.NewInt(1)

// kpingCase: heartbeats of several producers among data, counted by a consumer
// (and by a producer) at some moments.
func kpingCase(c *Ctx) {
	r := c.Rng
	b := newBroker()
	defer b.close()
	sp := shadowProducer()
	topics := []string{"main", "other"}[:1+r.Intn(2)]
	nparts := map[string]int{}
	for _, t := range topics {
		nparts[t] = 1 + r.Intn(3)
		b.topic(t, nparts[t])
	}
	who := "consumer"
	if r.Intn(3) == 0 {
		who = "producer"
	}
	var mu sync.Mutex
	ev := []Event{}
	t0 := time.Now()
	us := func(t time.Time) int64 { return t.Sub(t0).Microseconds() }
	data := map[types.Hash]bool{}
	var count func(time.Duration) uint
	batches := 0
	bad := 0
	if who == "consumer" {
		con, err := transports.ResolveConsumer(b.url(""), "main", topics, nil, -1, &delivery.ConsumerConfig{LastEmittedNum: 1000, LastWeight: bigOne, ReorgThreshold: 5000})
		if err != nil {
			failed("%v", err)
		}
		ch := make(chan *delivery.PendingBatch)
		con.Subscribe(ch)
		go func() {
			for pb := range ch {
				mu.Lock()
				if !data[pb.Hash] || len(pb.Values) > 0 || len(pb.Deletes) > 0 {
					bad++
				}
				delete(data, pb.Hash)
				batches++
				mu.Unlock()
			}
		}()
		if err := con.Start(); err != nil {
			failed("%v", err)
		}
		count = con.ProducerCount
	} else {
		p, err := transports.NewKafkaProducer(b.url(""), "main", nil)
		if err != nil {
			failed("%v", err)
		}
		count = p.ProducerCount
		topics = topics[:1] // it watches the default topic only
	}
	if r.Intn(2) == 0 { // somebody keeps asking
		stop := make(chan struct{})
		defer close(stop)
		go func() {
			for {
				select {
				case <-stop:
					return
				default:
					count(time.Second)
				}
			}
		}()
	}
	nblk, sent := 0, 0
	ids := map[int]bool{}
	extra := 0
	for round := 2 + r.Intn(4); round > 0; round-- {
		// a burst of records, heartbeats among them
		burst := []Event{}
		for n := r.Intn(25); n > 0; n-- {
			t := topics[r.Intn(len(topics))]
			p := r.Intn(nparts[t])
			switch r.Intn(4) {
			case 0:
				nblk++
				h := hashOf("kpg", nblk)
				mu.Lock()
				data[h] = true
				sent++
				mu.Unlock()
				m := bare(sp, int64(1000+nblk), h, hashOf("kpp", nblk), 5)
				b.append(t, p, m.Key(), m.Value(), 1)
			default:
				id := r.Intn(6)
				h := hashOf("png", id)
				ids[id] = true
				e := Event{"e": "ping", "id": id, "t0": us(time.Now()), "t1": int64(0)}
				b.append(t, p, delivery.PingType.GetKey(h[:]), []byte("x"), 1)
				burst = append(burst, e)
			}
		}
		// wait until all of it is known to have been read: a heartbeat of a
		// producer nobody saw yet at the end of each partition
		for _, t := range topics {
			for p := 0; p < nparts[t]; p++ {
				extra++
				h := hashOf("pnx", extra)
				ids[1000+extra] = true
				e := Event{"e": "ping", "id": 1000 + extra, "t0": us(time.Now()), "t1": int64(0)}
				b.append(t, p, delivery.PingType.GetKey(h[:]), []byte("x"), 1)
				burst = append(burst, e)
			}
		}
		poll(10*time.Second, func() bool {
			if int(count(time.Hour)) < len(ids) {
				return false
			}
			mu.Lock()
			defer mu.Unlock()
			return who == "producer" || batches >= sent
		})
		time.Sleep(time.Millisecond)
		t1 := us(time.Now())
		for _, e := range burst {
			e["t1"] = t1
			ev = append(ev, e)
		}
		for q := 1 + r.Intn(4); q > 0; q-- {
			d := time.Duration(1+r.Intn(200)) * time.Millisecond
			if r.Intn(3) == 0 {
				d = time.Hour
			}
			q0 := us(time.Now())
			got := count(d)
			q1 := us(time.Now())
			ev = append(ev, Event{"e": "count", "q0": q0, "q1": q1, "d": min64(d.Microseconds(), 2000000000), "got": int(got)})
			if r.Intn(2) == 0 {
				time.Sleep(time.Duration(r.Intn(60)) * time.Millisecond)
			}
		}
	}
	mu.Lock()
	defer mu.Unlock()
	left := len(data)
	if who == "producer" {
		left = 0
	}
	ev = append(ev, Event{"e": "fin", "lost": left, "bad": bad})
	c.Emit(&Trace{Cfg: map[string]interface{}{"kind": "kping", "who": who}, Ev: ev})
}

func min64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}
