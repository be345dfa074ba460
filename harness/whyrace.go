package main

import (
	"math/big"
	"math/rand"
	"regexp"
	"sync"
	"sync/atomic"
	"time"

	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	types "github.com/openrelayxyz/cardinal-types"
)

func init() {
	register("whyrace", whyraceCase, 100, 8, 30*time.Second)
}

// whyraceCase asks for diagnoses from several goroutines while the messages
// of a few blocks come in. An answer is right if it was right after some of
// the messages that were handed over while it was asked.
func whyraceCase(c *Ctx) {
	r := c.Rng
	cls := append([]class{}, classes...)
	r.Shuffle(len(cls), func(i, j int) { cls[i], cls[j] = cls[j], cls[i] })
	schema := cls[:r.Intn(4)]
	nb := 2 + r.Intn(6)
	T := int64(nb)
	blocks := []*blockDef{}
	byHash := map[types.Hash]int{}
	base := int64(r.Intn(1000))
	for i := 0; i < nb; i++ {
		b := genBlock(r, i, i-1, base+int64(i), schema, 1+r.Intn(5), r.Intn(3), 3)
		b.Weight = big.NewInt(int64(10 + i))
		blocks = append(blocks, b)
		byHash[b.Hash] = i
	}
	prod, err := delivery.NewProducer("def", schemaMap(schema))
	if err != nil {
		failed("NewProducer: %v", err)
	}
	type item struct {
		b, m int
		w    *wire
	}
	all := []item{}
	msgs := make([][]mid, nb)
	for i, b := range blocks {
		ms, err := produceAll(prod, b)
		if err != nil {
			failed("produce: %v", err)
		}
		for j, m := range ms {
			msgs[i] = append(msgs[i], identify(b, m.m.Key()))
			all = append(all, item{i, j, &wire{m.m.Key(), m.m.Value(), m.topic + ":0", int64(len(all))}})
		}
	}
	switch r.Intn(3) {
	case 0:
		r.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	case 1:
		for i := range all {
			if j := i + r.Intn(8); j < len(all) {
				all[i], all[j] = all[j], all[i]
			}
		}
	}
	cfg := &delivery.ConsumerConfig{
		LastEmittedNum: base - 1, LastHash: blocks[0].Parent, LastWeight: new(big.Int), ReorgThreshold: T,
		TrackedPrefixes: []*regexp.Regexp{regexp.MustCompile(".")},
	}
	var process func(m delivery.ResumptionMessage) error
	var ask func(h types.Hash) string
	ch := make(chan *delivery.PendingBatch, 64)
	var bg sync.WaitGroup
	ordered := r.Intn(2) == 0
	stop := make(chan struct{})
	if ordered {
		omp, err := delivery.NewOrderedMessageProcessor(cfg)
		if err != nil {
			failed("%v", err)
		}
		omp.Subscribe(ch)
		uch := make(chan *delivery.ChainUpdate)
		sub := omp.Subscribe(uch)
		process, ask = omp.ProcessMessage, omp.WhyNotReady
		bg.Add(1)
		go func() {
			defer bg.Done()
			defer omp.Close()
			defer sub.Unsubscribe()
			for {
				select {
				case cu := <-uch: // while the processor waits for the next one to be taken
					for _, pb := range cu.Added() {
						ask(pb.Hash)
					}
					ask(blocks[len(blocks)-1].Hash)
				case <-stop:
					return
				}
			}
		}()
	} else {
		mp := delivery.NewMessageProcessor(cfg)
		mp.Subscribe(ch)
		process, ask = mp.ProcessMessage, mp.WhyNotReady
	}
	var started, finished int64
	type answer struct {
		b, lo, hi int
		w         []string
	}
	var mu sync.Mutex
	answers := []answer{}
	asks := 0
	for k := 1 + r.Intn(3); k > 0; k-- {
		bg.Add(1)
		go func(seed int64) {
			defer bg.Done()
			r := rand.New(rand.NewSource(seed))
			seen := map[[3]int]bool{}
			for {
				select {
				case <-stop:
					return
				default:
				}
				b := r.Intn(nb)
				lo := int(atomic.LoadInt64(&finished))
				w := whyOf(ask(blocks[b].Hash))
				hi := int(atomic.LoadInt64(&started))
				mu.Lock()
				asks++
				if key := [3]int{b, lo, hi}; hi-lo <= 4 && !seen[key] && len(answers) < 150 {
					seen[key] = true
					answers = append(answers, answer{b, lo, hi, w})
				}
				mu.Unlock()
			}
		}(r.Int63())
	}
	ev := []Event{}
	pause := r.Intn(3)
	for _, x := range all {
		atomic.AddInt64(&started, 1)
		st := "ok"
		if err := process(x.w); err != nil {
			st = "err"
		}
		em := []emission{}
		for more := true; more; {
			select {
			case pb := <-ch:
				em = append(em, emission{pbOf(pb, byHash), parseTok(pb.Resumption())})
			default:
				more = false
			}
		}
		atomic.AddInt64(&finished, 1)
		ev = append(ev, Event{"e": "dlv", "b": x.b, "m": x.m, "s": x.w.src, "o": x.w.off, "em": em, "st": st, "why": []string{"unasked", ""}})
		if pause == 0 || pause == 1 && r.Intn(4) == 0 {
			time.Sleep(time.Duration(r.Intn(60)) * time.Microsecond)
		}
	}
	close(stop)
	bg.Wait()
	as := []interface{}{}
	for _, a := range answers {
		as = append(as, []interface{}{a.b, a.lo, a.hi, a.w})
	}
	ev = append(ev, Event{"e": "asks", "as": as, "n": asks}, Event{"e": "end"})
	bl := []interface{}{}
	tracked := map[string]bool{}
	for i, b := range blocks {
		bl = append(bl, blockCfg(b, msgs[i]))
		for _, m := range msgs[i] {
			tracked[m.Rec] = true
		}
	}
	tr := []string{}
	for k := range tracked {
		tr = append(tr, k)
	}
	c.Emit(&Trace{Cfg: map[string]interface{}{"kind": "asks", "scen": "whyrace", "T": T, "np": 1, "full": true, "pm": []int{}, "ordered": ordered, "blocks": bl, "tracked": tr}, Ev: ev})
}
