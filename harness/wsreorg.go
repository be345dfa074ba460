package main

import (
	"context"
	"fmt"
	"sync"
	"time"

	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-streams/v2/transports"
	"github.com/openrelayxyz/cardinal-types"
)

func init() {
	register("wsreorg", wsreorgCase, 6, 64, 90*time.Second)
}

// oneBlock is the history of a producer that has just begun.
type oneBlock struct{ pb func() *delivery.PendingBatch }

func (o oneBlock) BlocksFrom(ctx context.Context, num uint64, hash types.Hash) (chan *delivery.PendingBatch, error) {
	ch := make(chan *delivery.PendingBatch, 1)
	ch <- o.pb()
	close(ch)
	return ch, nil
}
func (o oneBlock) GetBlock(ctx context.Context, num uint64) *delivery.PendingBatch { return nil }

// wsreorgCase: large-reorg notices among the blocks that a websocket producer
// publishes, and what an application behind a websocket consumer (or a mux
// with one) gets.
func wsreorgCase(c *Ctx) {
	r := c.Rng
	t := newTree(r)
	T := int64(8 + r.Intn(4))
	start := t.add(0, int64(40+r.Intn(200)), 300)
	data := map[int]bool{}
	startBlock := func() *delivery.PendingBatch {
		pb := *t.pb(start)
		pb.Values, pb.Deletes = map[string][]byte{}, map[string]struct{}{}
		return &pb
	}
	prod, addr := newWsProducer(oneBlock{startBlock})
	defer func() {
		if cl, ok := prod.(interface{ Close() }); ok {
			cl.Close()
		}
	}()
	var mu sync.Mutex
	ev := []Event{}
	head, notices := 0, 0
	resolve := func(pb *delivery.PendingBatch) int {
		i := t.byHash(pb.Hash)
		if i <= 0 || t.b[i].Num != pb.Number || pb.Weight == nil || pb.Weight.Cmp(t.weight(i)) != 0 || pb.ParentHash != t.pb(i).ParentHash {
			return -1
		}
		if n := len(pb.Values); data[i] && (n != 2 || string(pb.Values["a/x"]) != t.val(i) || string(pb.Values["b/y"]) != "y" || len(pb.Deletes) != 1) || !data[i] && n+len(pb.Deletes) != 0 {
			return -1
		}
		return i
	}
	cfg := &delivery.ConsumerConfig{ReorgThreshold: T, LastHash: t.hash(start), LastEmittedNum: t.b[start].Num, LastWeight: t.weight(start), TrackedPrefixes: anyTracked()}
	var con transports.Consumer
	var err error
	if r.Intn(2) == 0 {
		con, err = transports.ResolveConsumer("ws://"+addr, "", nil, nil, 0, cfg)
	} else {
		con, err = transports.ResolveMuxConsumer([]transports.BrokerParams{{URL: "cardinal://ws://" + addr}}, nil, cfg)
	}
	if err != nil {
		failed("%v", err)
	}
	ch, rch, rch2 := make(chan *delivery.ChainUpdate), make(chan map[int64]types.Hash), make(chan map[int64]types.Hash)
	con.Subscribe(ch)
	con.SubscribeReorg(rch)
	con.SubscribeReorg(rch2)
	also := func(m map[int64]types.Hash) int {
		for n, h := range m {
			if i := t.byHash(h); i > 0 && t.b[i].Num == n && len(m) == 1 {
				return i
			}
		}
		return -1
	}
	first, second := []int{}, []int{}
	lazy := r.Intn(4)
	go func() {
		for m := range rch2 {
			mu.Lock()
			second = append(second, also(m))
			mu.Unlock()
		}
	}()
	go func() {
		for {
			select {
			case u := <-ch:
				mu.Lock()
				up := upd{[]int{}, []int{}}
				for _, pb := range u.Added() {
					head = resolve(pb)
					up.Add = append(up.Add, head)
				}
				for _, pb := range u.Removed() {
					up.Rem = append(up.Rem, t.byHash(pb.Hash))
				}
				ev = append(ev, Event{"e": "aup", "up": up})
				mu.Unlock()
				u.Done()
			case m := <-rch:
				mu.Lock()
				g := also(m)
				first = append(first, g)
				ev = append(ev, Event{"e": "areorg", "b": g})
				notices++
				mu.Unlock()
			}
			if lazy == 0 {
				time.Sleep(time.Millisecond)
			}
		}
	}()
	if err := con.Start(); err != nil {
		failed("%v", err)
	}
	// notices are for those who are there
	select {
	case <-con.Ready():
	case <-time.After(20 * time.Second):
		failed("not ready")
	}
	type seg struct {
		Base   int   `json:"base"`
		Blocks []int `json:"blocks"`
	}
	segs := []seg{{start, []int{}}}
	x := start
	run := func() {
		s := &segs[len(segs)-1]
		for n := r.Intn(5); n > 0; n-- {
			mu.Lock()
			x = t.child(x, 1)
			data[x] = r.Intn(2) == 0
			with := data[x]
			pb := t.pb(x)
			mu.Unlock()
			s.Blocks = append(s.Blocks, x)
			ups, dels, subs := map[string][]byte{}, map[string]struct{}{}, map[string]types.Hash{}
			id := hashOf(fmt.Sprintf("wsr%d", c.I), x)
			if with {
				ups["a/x"], ups["b/y"], dels["c/z"] = []byte(t.val(x)), []byte("y"), struct{}{}
				if r.Intn(3) == 0 {
					delete(ups, "b/y")
					subs["b/"] = id
				}
			}
			if err := prod.AddBlock(pb.Number, pb.Hash, pb.ParentHash, pb.Weight, ups, dels, subs); err != nil {
				failed("%v", err)
			}
			if len(subs) > 0 {
				if err := prod.SendBatch(id, nil, map[string][]byte{"b/y": []byte("y")}); err != nil {
					failed("%v", err)
				}
			}
		}
	}
	run()
	for n := 1 + r.Intn(3); n > 0; n-- {
		last := segs[len(segs)-1].Blocks
		mu.Lock()
		base := 0
		switch {
		case r.Intn(2) == 0 && len(last) > 0:
			base = last[r.Intn(len(last))]
		case r.Intn(2) == 0:
			base = segs[len(segs)-1].Base
		default:
			base = t.add(0, t.b[x].Num-int64(r.Intn(30)), t.b[x].W-r.Intn(25))
		}
		num, h := t.b[base].Num, t.hash(base)
		mu.Unlock()
		if r.Intn(4) == 0 {
			time.Sleep(time.Duration(r.Intn(3000)) * time.Microsecond)
		}
		done, err := prod.Reorg(num, h)
		if err != nil {
			failed("%v", err)
		}
		segs = append(segs, seg{base, []int{}})
		x = base
		run()
		done()
	}
	poll(15*time.Second, func() bool {
		mu.Lock()
		defer mu.Unlock()
		at := segs[len(segs)-1].Base
		if b := segs[len(segs)-1].Blocks; len(b) > 0 {
			at = b[len(b)-1]
		}
		return head == at && len(segs[len(segs)-1].Blocks) > 0 && notices == len(segs)-1 && len(second) >= len(first) ||
			len(segs[len(segs)-1].Blocks) == 0 && notices == len(segs)-1 && len(second) >= len(first)
	})
	time.Sleep(2 * time.Millisecond)
	go con.Close()
	mu.Lock()
	defer mu.Unlock()
	if fmt.Sprint(first) != fmt.Sprint(second) { // all subscribers get the same
		ev = append(ev, Event{"e": "areorg", "b": -1})
	}
	ev = append(ev, Event{"e": "fin"})
	c.Emit(&Trace{Cfg: map[string]interface{}{"kind": "notices", "blocks": t.b[1:], "start": start, "T": T, "wl": [][]int{}, "pre": []int{start}, "segs": segs}, Ev: append([]Event{}, ev...)})
}
