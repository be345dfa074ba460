package main

import (
	"math/big"
	"math/rand"
	"runtime"
	"sync"
	"time"

	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-types"
)

func init() {
	register("asmrace", asmraceCase, 100, 8, 30*time.Second)
}

// asmraceCase: several transports share a consumer and hand it messages (and
// whole blocks) at the same time, each what a producer of its own sent.
func asmraceCase(c *Ctx) {
	r := c.Rng
	schema := []class{}
	for _, i := range r.Perm(len(classes))[:1+r.Intn(len(classes))] {
		schema = append(schema, classes[i])
	}
	nb := 2 + r.Intn(5)
	T := int64(nb)
	tracked, isTracked := trackedSpec(r, r.Intn(2) == 0)
	full := isTracked("\x00")
	blocks, byHash := []*blockDef{}, map[types.Hash]int{}
	for i := 0; i < nb; i++ {
		b := genBlock(r, i, i-1, 100+int64(i), schema, r.Intn(5), r.Intn(3), 3)
		blocks = append(blocks, b)
		byHash[b.Hash] = i
	}
	np := 2 + r.Intn(3)
	midx, msgs := make([]map[mid]int, nb), make([][]mid, nb)
	for i := range blocks {
		midx[i], msgs[i] = map[mid]int{}, []mid{}
	}
	con := newAsmConsumer(T, tracked, byHash)
	// another subscriber, which takes its time
	slow := make(chan *delivery.PendingBatch)
	nap := time.Duration(r.Intn(3)*r.Intn(60)) * time.Microsecond
	sub := con.mp.Subscribe(slow)
	waits := make(chan *delivery.Waiter)
	wsub := con.mp.SubscribeWaiters(waits)
	stop := make(chan struct{})
	var bg sync.WaitGroup
	bg.Add(1)
	go func() {
		defer bg.Done()
		for {
			select {
			case <-slow:
			case <-waits:
			case <-stop:
				return
			}
			if nap > 0 {
				time.Sleep(nap)
			} else {
				runtime.Gosched()
			}
		}
	}()
	type job struct {
		b, m int
		w    *wire
		pb   *delivery.PendingBatch
	}
	jobs := make([][]job, np)
	keep := r.Intn(3) // 0: a message never arrives from anyone
	dropB, dropM := r.Intn(nb), -1
	got := make([]map[int]bool, nb)
	for i := range got {
		got[i] = map[int]bool{}
	}
	whole := map[int]bool{}
	for p := 0; p < np; p++ {
		if full && p > 0 && r.Intn(4) == 0 { // this one gets whole blocks
			for i, b := range blocks {
				if r.Intn(4) == 0 || keep == 0 && i == dropB {
					continue
				}
				pb := &delivery.PendingBatch{Number: b.Num, Weight: new(big.Int).Set(b.Weight), ParentHash: b.Parent, Hash: b.Hash,
					Values: map[string][]byte{}, Deletes: map[string]struct{}{}}
				for _, it := range b.Items {
					if it.Del {
						pb.Deletes[it.K] = struct{}{}
					} else {
						pb.Values[it.K] = decv(it.V)
					}
				}
				whole[i] = true
				jobs[p] = append(jobs[p], job{b: i, pb: pb})
			}
			continue
		}
		prod, err := delivery.NewProducer("def", schemaMap(schema))
		if err != nil {
			failed("NewProducer: %v", err)
		}
		for i, b := range blocks {
			ms, err := produceAll(prod, b)
			if err != nil {
				failed("produce: %v", err)
			}
			js := []job{}
			for _, m := range ms {
				id := identify(b, m.m.Key())
				j, ok := midx[i][id]
				if !ok {
					j = len(msgs[i])
					midx[i][id] = j
					msgs[i] = append(msgs[i], id)
				}
				js = append(js, job{b: i, m: j, w: &wire{m.m.Key(), m.m.Value(), m.topic + string(rune('0'+p)), int64(len(jobs[p]) + len(js))}})
			}
			if keep == 0 && i == dropB && dropM < 0 {
				dropM = r.Intn(len(msgs[i]))
			}
			if r.Intn(2) == 0 {
				r.Shuffle(len(js), func(i, j int) { js[i], js[j] = js[j], js[i] })
			}
			for _, j := range js {
				if keep == 0 && j.b == dropB && j.m == dropM {
					continue
				}
				got[i][j.m] = true
				jobs[p] = append(jobs[p], j)
			}
		}
	}
	status := "ok"
	var mu sync.Mutex
	var wg sync.WaitGroup
	begin := make(chan struct{})
	for p := range jobs {
		wg.Add(1)
		go func(js []job, seed int64) {
			defer wg.Done()
			r := rand.New(rand.NewSource(seed))
			<-begin
			for _, j := range js {
				if j.pb != nil {
					con.mp.ProcessCompleteBatch(j.pb)
				} else if err := con.mp.ProcessMessage(j.w); err != nil {
					mu.Lock()
					status = "err"
					mu.Unlock()
				}
				if r.Intn(8) == 0 {
					con.mp.WhyNotReady(blocks[r.Intn(nb)].Hash)
				}
			}
		}(jobs[p], r.Int63())
	}
	close(begin)
	wg.Wait()
	em := con.drain()
	close(stop)
	bg.Wait()
	sub.Unsubscribe()
	wsub.Unsubscribe()
	bl, trackedRecs := []interface{}{}, map[string]bool{}
	for i, b := range blocks {
		bl = append(bl, blockCfg(b, msgs[i]))
		for _, it := range b.Items {
			if isTracked(it.Rec) {
				trackedRecs[it.Rec] = true
			}
		}
		for _, s := range b.Subs {
			if isTracked(s.Path) {
				trackedRecs[s.Path] = true
			}
		}
	}
	tr := []string{}
	for k := range trackedRecs {
		tr = append(tr, k)
	}
	gl, wl := [][]int{}, []int{}
	for i := range blocks {
		l := []int{}
		for m := range got[i] {
			l = append(l, m)
		}
		gl = append(gl, l)
		if whole[i] {
			wl = append(wl, i)
		}
	}
	ev := []Event{{"e": "par", "got": gl, "whole": wl, "em": em, "st": status}}
	ev = append(ev, con.final(blocks)...)
	c.Emit(&Trace{Cfg: map[string]interface{}{"kind": "assembly", "T": T, "np": np, "full": full, "pm": []int{}, "blocks": bl, "tracked": tr}, Ev: ev})
}
