package main

import (
	"encoding/hex"
	"math/rand"
	"regexp"
	"strings"
	"sync"
	"time"

	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-streams/v2/transports"
	"github.com/openrelayxyz/cardinal-types"
)

func init() {
	register("kreorg", kreorgCase, 6, 64, 90*time.Second)
	register("kreorggen", kreorgCase, 6, 64, 90*time.Second)
}

// kreorgCase: a Kafka consumer meets announcements of large reorgs, which are
// written to topics of their own before, while and after it reads them.
func kreorgCase(c *Ctx) {
	r := c.Rng
	b := newBroker()
	defer b.close()
	multi := r.Intn(3) == 0 // other topics, and several partitions
	topics := []string{defaultTopic}
	nparts := 1
	schema := map[string]string{}
	if multi {
		nparts = 1 + r.Intn(2)
		schema["a/"] = "reorg-a"
		topics = append(topics, "reorg-a")
		if r.Intn(2) == 0 {
			topics[0], topics[1] = topics[1], topics[0]
		}
		b.topic("reorg-a", 1+r.Intn(2))
	}
	b.topic(defaultTopic, nparts)
	p, err := delivery.NewProducer(defaultTopic, schema)
	if err != nil {
		failed("%v", err)
	}
	t := newTree(r)
	T := int64(8 + r.Intn(4))
	start := t.add(0, int64(40+r.Intn(200)), 300)
	data := map[int]bool{}
	put := func(topic string, m delivery.Message) {
		b.append(topic, r.Intn(b.nparts(topic)), m.Key(), m.Value(), 1)
	}
	noise := func(topic string) {
		switch r.Intn(6) {
		case 0:
			b.append(topic, r.Intn(b.nparts(topic)), nil, nil, 1)
		case 1:
			id := hashOf("krg", r.Intn(4))
			b.append(topic, r.Intn(b.nparts(topic)), delivery.PingType.GetKey(id[:]), []byte{1}, 1)
		}
	}
	block := func(i int, side string) {
		pb := t.pb(i)
		var ups map[string][]byte
		if data[i] {
			ups = map[string][]byte{"a/x": []byte(t.val(i)), "b/y": []byte("y")}
		}
		ms, err := p.AddBlock(pb.Number, pb.Hash, pb.ParentHash, pb.Weight, ups, nil, nil)
		if err != nil {
			failed("%v", err)
		}
		type tm struct {
			t string
			m delivery.Message
		}
		all := []tm{}
		for _, topic := range topics {
			for _, m := range ms[topic] {
				if side != "" {
					all = append(all, tm{side, m})
				} else {
					all = append(all, tm{topic, m})
				}
			}
		}
		r.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
		for _, x := range all {
			put(x.t, x.m)
			if r.Intn(6) == 0 {
				put(x.t, x.m)
			}
			noise(x.t)
		}
	}
	type seg struct {
		Base   int   `json:"base"`
		Blocks []int `json:"blocks"`
	}
	used := map[int]bool{}
	segs := []seg{{start, []int{}}}
	block(start, "")
	// what the application sees
	var mu sync.Mutex
	ev := []Event{}
	head, notices, isReady := 0, 0, false
	resolve := func(pb *delivery.PendingBatch) int {
		i := t.byHash(pb.Hash)
		if i <= 0 || t.b[i].Num != pb.Number || pb.Weight == nil || pb.Weight.Cmp(t.weight(i)) != 0 || pb.ParentHash != t.pb(i).ParentHash || len(pb.Deletes) > 0 {
			return -1
		}
		if n := len(pb.Values); data[i] && (n != 2 || string(pb.Values["a/x"]) != t.val(i) || string(pb.Values["b/y"]) != "y") || !data[i] && n != 0 {
			return -1
		}
		return i
	}
	con, err := transports.ResolveConsumer(b.url(""), defaultTopic, topics, nil, int64(r.Intn(3)), &delivery.ConsumerConfig{ReorgThreshold: T, LastHash: t.hash(start),
		LastEmittedNum: t.b[start].Num, LastWeight: t.weight(start), TrackedPrefixes: []*regexp.Regexp{regexp.MustCompile(".")}})
	if err != nil {
		failed("%v", err)
	}
	ch, rch := make(chan *delivery.ChainUpdate), make(chan map[int64]types.Hash)
	con.Subscribe(ch)
	con.SubscribeReorg(rch)
	sees := func() {
		for {
			select {
			case u := <-ch:
				mu.Lock()
				up := upd{[]int{}, []int{}}
				for _, pb := range u.Added() {
					head = resolve(pb)
					up.Add = append(up.Add, head)
				}
				for _, pb := range u.Removed() {
					up.Rem = append(up.Rem, t.byHash(pb.Hash))
				}
				ev = append(ev, Event{"e": "aup", "up": up})
				mu.Unlock()
				u.Done()
			case m := <-rch:
				mu.Lock()
				g := -1
				for n, h := range m {
					if i := t.byHash(h); i > 0 && t.b[i].Num == n && len(m) == 1 {
						g = i
					}
				}
				ev = append(ev, Event{"e": "areorg", "b": g})
				notices++
				mu.Unlock()
			}
		}
	}
	at := func(h, n int) bool { // where the application is
		mu.Lock()
		defer mu.Unlock()
		return head == h && notices >= n
	}
	startIt := func(cold bool) bool {
		go sees()
		if err := con.Start(); err != nil {
			return false
		}
		go func() {
			<-con.Ready()
			mu.Lock()
			ev = append(ev, Event{"e": "ready", "cold": cold})
			isReady = true
			mu.Unlock()
		}()
		return true
	}
	rounds := kreorgRounds(c, r, multi)
	cold := c.Sched == nil && !multi && r.Intn(3) == 0 // everything is there at the start
	trace := &Trace{}
	finish := func() {
		mu.Lock()
		defer mu.Unlock()
		trace.Cfg = map[string]interface{}{"kind": "notices", "blocks": t.b[1:], "start": start, "T": T, "wl": [][]int{}, "pre": []int{start}, "segs": segs}
		trace.Ev = append([]Event{}, ev...)
		c.Emit(trace)
	}
	if !cold && !startIt(false) {
		ev = append(ev, Event{"e": "failed"})
		finish()
		return
	}
	x := start
	run := func(side string) {
		s := &segs[len(segs)-1]
		for n := 1 + r.Intn(4); n > 0; n-- {
			mu.Lock()
			x = t.child(x, 1)
			data[x] = r.Intn(2) == 0
			mu.Unlock()
			s.Blocks = append(s.Blocks, x)
			block(x, side)
		}
	}
	rest := time.Duration(1100+r.Intn(300)) * time.Millisecond
	for k, writes := range rounds {
		side, sideLog, before := "", []string{}, x
		base := 0
		pick := func() {
			if side != "" {
				return
			}
			last := segs[len(segs)-1].Blocks
			switch {
			case r.Intn(2) == 0 && len(last) > 0:
				base = last[r.Intn(len(last))]
			case r.Intn(2) == 0:
				base = segs[len(segs)-1].Base
			default:
				mu.Lock()
				base = t.add(0, t.b[x].Num-int64(r.Intn(30)), t.b[x].W-r.Intn(25))
				mu.Unlock()
			}
			if used[base] { // every reorg has a topic of its own
				mu.Lock()
				base = t.add(0, t.b[x].Num-int64(r.Intn(30)), t.b[x].W-r.Intn(25))
				mu.Unlock()
			}
			used[base] = true
			h := t.hash(base)
			side = defaultTopic + "-re-" + hex.EncodeToString(h[:])
			b.topic(side, 1)
		}
		for _, w := range writes {
			w, idle := w.what, w.rest && !cold
			if idle { // until the consumer has nothing left to do
				if !sideBusy(sideLog) {
					want, n := before, k
					if len(sideLog) > 0 && strings.Contains(strings.Join(sideLog, ""), "A") {
						want, n = x, k+1
					}
					poll(8*time.Second, func() bool { return at(want, n) })
				} else {
					poll(3*time.Second, func() bool { return b.fetched(side, 0) >= b.end(side, 0) })
					time.Sleep(rest)
				}
			}
			switch w {
			case "b1", "b2", "b3":
				if w != "b1" && multi {
					poll(20*time.Second, func() bool { return at(x, k+1) })
				}
				run("")
				if w == "b1" {
					before = x
				}
			case "A":
				pick()
				if multi { // all of what is before has been read
					poll(20*time.Second, func() bool { return at(before, k) })
				}
				put(defaultTopic, p.Reorg(t.b[base].Num, t.hash(base)))
				sideLog = append(sideLog, "A")
			case "R":
				pick()
				segs = append(segs, seg{base, []int{}})
				x = base
				put(side, p.Reorg(t.b[base].Num, t.hash(base)))
				sideLog = append(sideLog, "R")
			case "C":
				for n := 1 + r.Intn(8)/7; n > 0; n-- {
					put(side, p.ReorgDone(t.b[base].Num, t.hash(base)))
				}
				sideLog = append(sideLog, "C")
			default:
				run(side)
			}
		}
	}
	if cold && !startIt(true) {
		ev = append(ev, Event{"e": "failed"})
		finish()
		return
	}
	poll(30*time.Second, func() bool { mu.Lock(); defer mu.Unlock(); return head == x && notices == len(segs)-1 && isReady })
	time.Sleep(2 * time.Millisecond)
	mu.Lock()
	ev = append(ev, Event{"e": "fin"})
	mu.Unlock()
	done := make(chan struct{})
	go func() { con.Close(); close(done) }()
	select {
	case <-done:
	case <-time.After(10 * time.Second):
	}
	finish()
}

type kwrite struct {
	what string
	rest bool
}

// sideBusy tells whether the consumer has something to read beside the default topic
func sideBusy(log []string) bool {
	a, c := false, false
	for _, x := range log {
		a = a || x == "A"
		c = c || x == "C"
	}
	return a && !c
}

// kreorgRounds: what is written in which order for each reorg.
func kreorgRounds(c *Ctx, r *rand.Rand, multi bool) [][]kwrite {
	out := [][]kwrite{}
	if c.Sched != nil {
		ws := []kwrite{}
		for _, x := range c.Sched["writes"].([]interface{}) {
			y := x.([]interface{})
			ws = append(ws, kwrite{y[0].(string), y[1].(float64) == 1})
		}
		return append(out, ws)
	}
	for n := 1 + r.Intn(2); n > 0; n-- {
		side := []string{"R"}
		for k := r.Intn(4); k >= 0; k-- {
			side = append(side, "s")
		}
		side = append(side, "C")
		a := r.Intn(len(side) + 1)
		if r.Intn(3) == 0 {
			a = 0
		}
		ws := []kwrite{{"b1", false}}
		for i, s := range side {
			if i == a {
				ws = append(ws, kwrite{"A", r.Intn(2) == 0})
			}
			ws = append(ws, kwrite{s, r.Intn(6) == 0})
		}
		if a == len(side) {
			ws = append(ws, kwrite{"A", false})
		}
		ws = append(ws, kwrite{"b2", r.Intn(3) == 0}, kwrite{"b3", false})
		out = append(out, ws)
	}
	return out
}
