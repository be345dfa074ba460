package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"sync"
	"time"

	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-streams/v2/waiter"
	types "github.com/openrelayxyz/cardinal-types"
	"regexp"
)

func init() {
	register("waiter", waiterCase, 60, 48, 90*time.Second)
	register("waitgen", waitgenCase, 400, 48, 90*time.Second)
}

const longWait = 20 * time.Second

// waitRig runs waits against a real waiter on a real consumer.
type waitRig struct {
	t    *otree
	omp  *delivery.OrderedMessageProcessor
	w    waiter.Waiter
	ch   chan *delivery.ChainUpdate
	mu   sync.Mutex
	ev   []Event
	msgs map[int][]delivery.ResumptionMessage // header, payload
	off  int64
	wg   sync.WaitGroup
	nw   int
	ann  map[int]bool
	main map[int]bool // blocks that will be done by the end
	done map[int]bool
	sent int
	bad  bool
}

func (g *waitRig) rec(e Event) {
	g.mu.Lock()
	g.ev = append(g.ev, e)
	g.mu.Unlock()
}

func newWaitRig(t *otree, start int) *waitRig {
	g := &waitRig{t: t, msgs: map[int][]delivery.ResumptionMessage{}, ann: map[int]bool{}, main: map[int]bool{}, done: map[int]bool{},
		ch: make(chan *delivery.ChainUpdate, 1024)}
	omp, err := delivery.NewOrderedMessageProcessor(&delivery.ConsumerConfig{ReorgThreshold: 64, LastHash: t.hash(start),
		LastEmittedNum: t.b[start].Num, LastWeight: t.weight(start), TrackedPrefixes: []*regexp.Regexp{regexp.MustCompile(".")}})
	if err != nil {
		failed("%v", err)
	}
	g.omp = omp
	omp.Subscribe(g.ch)
	g.w = waiter.NewOmpWaiter(omp)
	return g
}

func (g *waitRig) messages(num int64, hash, par types.Hash, w *big.Int) []delivery.ResumptionMessage {
	p, err := delivery.NewProducer("d", map[string]string{"a/": "a"})
	if err != nil {
		failed("%v", err)
	}
	ms, err := p.AddBlock(num, hash, par, w, map[string][]byte{"a/k": []byte("v")}, nil, nil)
	if err != nil || len(ms["d"]) != 1 || len(ms["a"]) != 1 {
		failed("messages: %v", err)
	}
	res := []delivery.ResumptionMessage{}
	for _, m := range []delivery.Message{ms["d"][0], ms["a"][0]} {
		res = append(res, &wire{key: m.Key(), value: m.Value(), src: "d:0"})
	}
	return res
}

func (g *waitRig) of(b int) []delivery.ResumptionMessage {
	if _, ok := g.msgs[b]; !ok {
		pb := g.t.pb(b)
		g.msgs[b] = g.messages(pb.Number, pb.Hash, pb.ParentHash, pb.Weight)
	}
	return g.msgs[b]
}

// settle returns once the waiter has seen everything that was announced. It
// announces a block that never completes and waits for that to be known.
func (g *waitRig) settle(b int) {
	if g.ann[b] {
		return
	}
	g.sent++
	h := hashOf("sentinel", g.t.salt*1000+g.sent)
	g.omp.ProcessMessage(g.messages(int64(1000000+g.sent), h, hashOf("nobody", g.sent), big.NewInt(1))[0])
	if !poll(20*time.Second, func() bool { return g.w.WaitForHashResult(h, 0) != waiter.NotFound }) {
		g.bad = true // nothing is seen any more: leave "annf" out, waits will show it
	}
	if g.bad {
		return
	}
	g.ann[b] = true
	g.rec(Event{"e": "annf", "b": b})
}

func (g *waitRig) op(k string, b int) {
	switch k {
	case "H":
		g.rec(Event{"e": "ann", "b": b})
		g.omp.ProcessMessage(g.of(b)[0])
		g.settle(b)
	case "P":
		g.omp.ProcessMessage(g.of(b)[1])
	case "B":
		g.rec(Event{"e": "ann", "b": b})
		g.omp.ProcessCompleteBatch(g.t.pb(b))
		g.settle(b)
	case "A":
		g.app(3*time.Millisecond, 0)
	case "Wh":
		g.wait("h", b)
	case "Wn":
		g.wait("n", b)
	}
}

// app marks the updates that are there as done.
func (g *waitRig) app(quiet time.Duration, until int) {
	for {
		select {
		case u := <-g.ch:
			bs := []int{}
			last := 0
			for _, pb := range u.Added() {
				last = g.byHash(pb.Hash)
				bs = append(bs, last)
			}
			for _, pb := range u.Removed() {
				bs = append(bs, g.byHash(pb.Hash))
			}
			g.rec(Event{"e": "done", "bs": bs})
			for _, b := range bs {
				g.done[b] = true
			}
			u.Done()
			if until != 0 && last == until {
				return
			}
		case <-time.After(quiet):
			return
		}
	}
}

func (g *waitRig) byHash(h types.Hash) int { return g.t.byHash(h) }

var shortWaits = []int{30, 60, 120}

func (g *waitRig) wait(k string, t int) {
	long := false
	for b := range g.t.b {
		if b > 0 && (g.main[b] || g.done[b]) && (k == "h" && b == t || k == "n" && g.t.b[b].Num == int64(t)) {
			long = true
		}
	}
	g.nw++
	to := time.Duration(shortWaits[(g.nw+t)%3]) * time.Millisecond
	if long {
		to = longWait
	}
	id := g.nw
	g.rec(Event{"e": "ws", "id": id, "k": k, "t": t, "to": int(to / time.Millisecond), "long": long})
	g.wg.Add(1)
	go func() {
		t0 := time.Now()
		var res waiter.WaitResult
		if id%5 == 3 {
			// these don't tell how the wait ended
			if k == "h" {
				g.w.WaitForHash(g.t.hash(t), to)
			} else {
				g.w.WaitForNumber(int64(t), to)
			}
			g.rec(Event{"e": "wr", "id": id, "res": "none", "el": int(time.Since(t0) / time.Millisecond)})
			g.wg.Done()
			return
		}
		if k == "h" {
			res = g.w.WaitForHashResult(g.t.hash(t), to)
		} else {
			res = g.w.WaitForNumberResult(int64(t), to)
		}
		el := int(time.Since(t0) / time.Millisecond)
		s := map[waiter.WaitResult]string{waiter.Success: "success", waiter.Timeout: "timeout", waiter.NotFound: "notfound"}[res]
		g.rec(Event{"e": "wr", "id": id, "res": s, "el": el})
		g.wg.Done()
	}()
}

func (g *waitRig) finish(c *Ctx, tip int) {
	// everything arrives in the end
	for b := 1; b < len(g.t.b); b++ {
		g.op("H", b)
		g.op("P", b)
	}
	if !g.done[tip] {
		g.app(longWait/2, tip)
	}
	fin := make(chan struct{})
	go func() { g.wg.Wait(); close(fin) }()
	select {
	case <-fin:
	case <-time.After(longWait + 20*time.Second):
		g.rec(Event{"e": "stuck"})
	}
	go g.omp.Close()
	nums := []int64{}
	for _, b := range g.t.b[1:] {
		nums = append(nums, b.Num)
	}
	g.mu.Lock()
	defer g.mu.Unlock()
	c.Emit(&Trace{Cfg: map[string]interface{}{"num": nums}, Ev: g.ev})
}

// mainChain marks the blocks of the chain that wins in the end.
func (g *waitRig) mainChain(tip int) {
	for b := tip; b != 0; b = g.t.b[b].Par {
		g.main[b] = true
	}
}

// waitgenCase replays a sequence of announcements, completions, processing and
// waits enumerated by TLC from WaiterImpl.
func waitgenCase(c *Ctx) {
	t := &otree{b: []oblk{{}}, wbase: new(big.Int), salt: c.I}
	ops := c.Sched["ops"].([]interface{})
	fork := c.Sched["blocks"].(float64) == 3
	start := t.add(0, 10, 10)
	one := t.child(start, 1)
	tip := 0
	m := map[int]int{1: one}
	if fork {
		m[2] = t.child(start, 1)
		tip = t.child(one, 1)
		m[3] = tip
	} else {
		tip = t.child(one, 1)
		m[2] = tip
	}
	g := newWaitRig(t, start)
	g.mainChain(tip)
	delete(g.main, start)
	g.op("B", start)
	for _, o := range ops {
		x := o.([]interface{})
		k := x[0].(string)
		n := 0
		fmt.Sscan(x[1].(string), &n)
		if k != "Wn" {
			n = m[n]
		}
		g.op(k, n)
	}
	g.finish(c, tip)
}

// waiterCase: a longer random history with forks, waits begun at any time.
func waiterCase(c *Ctx) {
	r := c.Rng
	t := newTree(r)
	t.wbase = new(big.Int)
	start := t.add(0, 100, 50)
	blocks := growTree(r, t, []int{start}, 2+r.Intn(9))
	tip := start
	for _, b := range blocks {
		if t.b[b].W > t.b[tip].W {
			tip = b
		}
	}
	tip = t.child(tip, 1)
	blocks = append(blocks, tip)
	g := newWaitRig(t, start)
	g.mainChain(tip)
	delete(g.main, start)
	g.op("B", start)
	type op struct {
		k string
		b int
	}
	ops := []op{}
	for _, x := range shuffleOrder(r, len(blocks)) {
		b := blocks[x]
		switch r.Intn(4) {
		case 0, 1:
			ops = append(ops, op{"H", b}, op{"P", b})
		case 2:
			ops = append(ops, op{"P", b}, op{"H", b})
		case 3:
			ops = append(ops, op{"B", b})
		}
	}
	for i := r.Intn(6); i > 0; i-- { // other transports repeat blocks
		b := blocks[r.Intn(len(blocks))]
		ops = append(ops, op{[]string{"H", "P", "B"}[r.Intn(3)], b})
	}
	jumble(r, len(ops), func(i, j int) { ops[i], ops[j] = ops[j], ops[i] })
	for _, o := range ops {
		for r.Intn(3) == 0 {
			if r.Intn(2) == 0 {
				g.op("Wh", blocks[r.Intn(len(blocks))])
			} else {
				g.op("Wn", int(t.b[blocks[r.Intn(len(blocks))]].Num))
			}
		}
		if r.Intn(3) == 0 {
			g.op("A", 0)
		}
		g.op(o.k, o.b)
	}
	for i := r.Intn(4); i > 0; i-- {
		g.op("Wh", blocks[r.Intn(len(blocks))])
	}
	g.finish(c, tip)
}

// jumble moves some elements a little.
func jumble(r *rand.Rand, n int, swap func(i, j int)) {
	for k := r.Intn(n); k > 0; k-- {
		i := r.Intn(n)
		j := i + r.Intn(5)
		if j < n {
			swap(i, j)
		}
	}
}
