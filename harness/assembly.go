package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"regexp"
	"strconv"
	"strings"
	"time"

	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	types "github.com/openrelayxyz/cardinal-types"
)

func init() {
	register("assembly", assemblyCase, 500, 8, 20*time.Second)
	register("asmgen", asmgenCase, 4000, 8, 20*time.Second)
}

// consumer under test: a MessageProcessor with a subscribed feed.
type asmConsumer struct {
	mp     *delivery.MessageProcessor
	ch     chan *delivery.PendingBatch
	rch    chan map[int64]types.Hash
	byHash map[types.Hash]int
	kept   []*delivery.PendingBatch
	recs   []pbRec
}

func newAsmConsumer(T int64, tracked []*regexp.Regexp, byHash map[types.Hash]int) *asmConsumer {
	c := &asmConsumer{ch: make(chan *delivery.PendingBatch, 64), rch: make(chan map[int64]types.Hash, 64), byHash: byHash}
	c.mp = delivery.NewMessageProcessor(&delivery.ConsumerConfig{
		LastEmittedNum: 0, LastHash: types.Hash{1}, LastWeight: new(big.Int), ReorgThreshold: T, TrackedPrefixes: tracked,
		FailedReconstructPanic: T%2 == 0, // there is nothing in what is handed over to panic about
	})
	c.mp.Subscribe(c.ch)
	c.mp.SubscribeReorgs(c.rch)
	return c
}

type emission struct {
	pbRec
	Tok [][]interface{} `json:"tok"`
}

func parseTok(s string) [][]interface{} {
	res := [][]interface{}{}
	for _, p := range strings.Split(s, ";") {
		i := strings.LastIndex(p, "=")
		if i < 0 {
			continue
		}
		n, err := strconv.Atoi(p[i+1:])
		if err != nil {
			n = -1
		}
		res = append(res, []interface{}{p[:i], n})
	}
	return res
}

func (c *asmConsumer) drain() []emission {
	res := []emission{}
	for {
		select {
		case pb := <-c.ch:
			r := pbOf(pb, c.byHash)
			c.kept = append(c.kept, pb)
			c.recs = append(c.recs, r)
			res = append(res, emission{r, parseTok(pb.Resumption())})
		default:
			return res
		}
	}
}

// deliver feeds one message and reports what came out.
func (c *asmConsumer) deliver(m delivery.ResumptionMessage) (em []emission, status string) {
	status = "ok"
	func() {
		defer func() {
			if r := recover(); r != nil {
				status = "panic"
			}
		}()
		if err := c.mp.ProcessMessage(m); err != nil {
			status = "err"
		}
	}()
	return c.drain(), status
}

// whole hands over a complete block.
func (c *asmConsumer) whole(pb *delivery.PendingBatch) (em []emission, status string) {
	status = "ok"
	func() {
		defer func() {
			if r := recover(); r != nil {
				status = "panic"
			}
		}()
		c.mp.ProcessCompleteBatch(pb)
	}()
	return c.drain(), status
}

// trackedSpec returns the tracked expressions and a ground-truth predicate.
func trackedSpec(r *rand.Rand, all bool) ([]*regexp.Regexp, func(string) bool) {
	k := r.Intn(4)
	if all || k == 0 {
		e := []string{".", ".*"}[r.Intn(2)]
		return []*regexp.Regexp{regexp.MustCompile(e)}, func(string) bool { return true }
	}
	cand := []string{"acct/", "stor/", "code/", "stat/thing", "rcpt/", "misc/", "x", "state/", "deep/", "q/", "/root/"}
	r.Shuffle(len(cand), func(i, j int) { cand[i], cand[j] = cand[j], cand[i] })
	n := 1 + r.Intn(len(cand)-1)
	lits := cand[:n]
	res := []*regexp.Regexp{}
	for _, l := range lits {
		res = append(res, regexp.MustCompile("^"+regexp.QuoteMeta(l)))
	}
	return res, func(s string) bool {
		for _, l := range lits {
			if strings.HasPrefix(s, l) {
				return true
			}
		}
		return false
	}
}

type logRec struct {
	b, m int
	k, v []byte
}

func assemblyCase(c *Ctx) {
	r := c.Rng
	// --- the blocks and the producers' messages
	ns := 1 + r.Intn(len(classes))
	perm := r.Perm(len(classes))
	schema := []class{}
	for _, i := range perm[:ns] {
		schema = append(schema, classes[i])
	}
	tracked, isTracked := trackedSpec(r, r.Intn(2) == 0)
	nb := 1 + r.Intn(4)
	if r.Intn(8) == 0 {
		nb = 5 + r.Intn(6)
	}
	T := int64(1 + r.Intn(4))
	if r.Intn(3) == 0 {
		T = 64
	}
	blocks := []*blockDef{}
	byHash := map[types.Hash]int{}
	base := int64(r.Intn(1000))
	if r.Intn(10) == 0 {
		base = 1 << 40
	}
	nitems := 6
	if nb > 4 {
		nitems = 2
	}
	wide := r.Intn(40)
	if nb > 4 {
		wide = -1
	}
	for i := 0; i < nb; i++ {
		b := genBlock(r, i, i-1, base+int64(i), schema, r.Intn(nitems), r.Intn(3), 3)
		if wide == i { // counts and indexes of more than one byte
			b = genBlock(r, i, i-1, base+int64(i), schema, r.Intn(160), 1+r.Intn(2), 160)
		}
		blocks = append(blocks, b)
		byHash[b.Hash] = i
	}
	np := 1 + r.Intn(3)
	sm := schemaMap(schema)
	npart := 1 + r.Intn(3)
	logs := map[string][]logRec{}
	srcs := []string{}
	midx := make([]map[mid]int, nb)
	msgs := make([][]mid, nb)
	for i := range blocks {
		midx[i] = map[mid]int{}
		msgs[i] = []mid{}
	}
	pms := []interface{}{}
	for p := 0; p < np; p++ {
		prod, err := delivery.NewProducer("def", sm)
		if err != nil {
			failed("NewProducer: %v", err)
		}
		for i, b := range blocks {
			if p > 0 && r.Intn(4) == 0 {
				continue // this producer missed the block
			}
			ms, err := produceAll(prod, b)
			if err != nil {
				c.Emit(&Trace{Cfg: map[string]interface{}{"kind": "assembly", "blocks": []int{}, "T": T}, Ev: []Event{{"e": "crash", "msg": "producer: " + err.Error()}}})
				return
			}
			pm := [][]interface{}{}
			for _, m := range ms {
				id := identify(b, m.m.Key())
				j, ok := midx[i][id]
				if !ok {
					j = len(msgs[i])
					midx[i][id] = j
					msgs[i] = append(msgs[i], id)
				}
				pm = append(pm, []interface{}{j, m.topic, canonValue(m.m)})
				copies := 1
				if r.Intn(8) == 0 {
					copies = 2 // the transport itself may duplicate
				}
				for k := 0; k < copies; k++ {
					h := 0
					for _, x := range m.m.Key() {
						h = h*31 + int(x)
					}
					if h < 0 {
						h = -h
					}
					s := fmt.Sprintf("%s:%d", m.topic, h%npart)
					if _, ok := logs[s]; !ok {
						srcs = append(srcs, s)
					}
					logs[s] = append(logs[s], logRec{i, j, m.m.Key(), m.m.Value()})
				}
			}
			pms = append(pms, map[string]interface{}{"b": i, "p": p, "ms": pm})
		}
	}
	full := isTracked("\x00")
	cfg := map[string]interface{}{"kind": "assembly", "T": T, "np": np, "full": full, "pm": pms}
	bl := []interface{}{}
	trackedRecs := map[string]bool{}
	for i, b := range blocks {
		bl = append(bl, blockCfg(b, msgs[i]))
		for _, it := range b.Items {
			if isTracked(it.Rec) {
				trackedRecs[it.Rec] = true
			}
		}
		for _, s := range b.Subs {
			if isTracked(s.Path) {
				trackedRecs[s.Path] = true
			}
		}
	}
	cfg["blocks"] = bl
	tr := []string{}
	for k := range trackedRecs {
		tr = append(tr, k)
	}
	cfg["tracked"] = tr
	ev := []Event{}
	con := newAsmConsumer(T, tracked, byHash)
	toks := map[int]string{}
	order := []int{}
	dead := false
	feed := func(l logRec, src string, off int) {
		if dead {
			return
		}
		em, st := con.deliver(&wire{l.k, l.v, src, int64(off)})
		for _, x := range em {
			if x.B >= 0 {
				toks[x.B] = con.kept[len(con.kept)-1].Resumption()
				order = append(order, x.B)
			}
		}
		why := con.mp.WhyNotReady(blocks[l.b].Hash)
		ev = append(ev, Event{"e": "dlv", "b": l.b, "m": l.m, "s": src, "o": off, "em": em, "st": st, "why": whyOf(why)})
		if st == "panic" {
			dead = true
		}
	}
	wholes := 1000000
	if full && r.Intn(3) == 0 { // another transport supplies blocks, too
		wholes = 4 + r.Intn(20)
	}
	whole := func() {
		if r.Intn(wholes) > 0 || dead {
			return
		}
		i := r.Intn(nb)
		b := blocks[i]
		pb := &delivery.PendingBatch{Number: b.Num, Weight: new(big.Int).Set(b.Weight), ParentHash: b.Parent, Hash: b.Hash,
			Values: map[string][]byte{}, Deletes: map[string]struct{}{}}
		for _, it := range b.Items {
			if it.Del {
				pb.Deletes[it.K] = struct{}{}
			} else {
				pb.Values[it.K] = decv(it.V)
			}
		}
		em, st := con.whole(pb)
		ev = append(ev, Event{"e": "whole", "b": i, "em": em, "st": st, "why": whyOf(con.mp.WhyNotReady(b.Hash))})
		dead = st == "panic"
	}
	switch mode := r.Intn(5); {
	case mode <= 1: // chaos: any order, any multiplicity
		all := []struct {
			l logRec
			s string
			o int
		}{}
		for _, s := range srcs {
			for o, l := range logs[s] {
				for k := r.Intn(5) / 4; k >= 0; k-- {
					all = append(all, struct {
						l logRec
						s string
						o int
					}{l, s, o})
				}
			}
		}
		switch r.Intn(3) {
		case 0:
			r.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
		case 1: // local displacement
			for i := range all {
				j := i + r.Intn(6)
				if j < len(all) {
					all[i], all[j] = all[j], all[i]
				}
			}
		case 2: // reversed
			for i, j := 0, len(all)-1; i < j; i, j = i+1, j-1 {
				all[i], all[j] = all[j], all[i]
			}
		}
		drop := -1
		if r.Intn(3) == 0 && len(all) > 0 { // one message never arrives: the block must stay incomplete
			drop = r.Intn(len(all))
		}
		for i, x := range all {
			if drop >= 0 && x.l.b == all[drop].l.b && x.l.m == all[drop].l.m {
				continue
			}
			if r.Intn(60) == 0 {
				ev = append(ev, con.reorg(r, i))
			}
			whole()
			feed(x.l, x.s, x.o)
		}
	default: // logs read in order, interleaved; possibly a crash and a restart from a token
		run := func(start map[string]int, limit int) {
			pos := map[string]int{}
			for _, s := range srcs {
				pos[s] = start[s]
				if pos[s] < 0 {
					pos[s] = 0
				}
			}
			skew := r.Intn(3)
			for n := 0; limit < 0 || n < limit; n++ {
				live := []string{}
				for _, s := range srcs {
					if pos[s] < len(logs[s]) {
						live = append(live, s)
					}
				}
				if len(live) == 0 {
					break
				}
				s := live[r.Intn(len(live))]
				if skew == 1 {
					s = live[0]
				} else if skew == 2 {
					s = live[len(live)-1]
				}
				whole()
				feed(logs[s][pos[s]], s, pos[s])
				pos[s]++
			}
		}
		total := 0
		for _, s := range srcs {
			total += len(logs[s])
		}
		limit := -1
		if r.Intn(3) != 0 && total > 0 {
			limit = total/2 + r.Intn(total/2+1)
		}
		run(map[string]int{}, limit)
		if len(order) > 0 && !dead {
			target := order[len(order)-1]
			if r.Intn(3) == 0 {
				target = order[r.Intn(len(order))]
			}
			start := map[string]int{}
			for _, p := range parseTok(toks[target]) {
				start[p[0].(string)] = p[1].(int)
			}
			ev = append(ev, con.final(blocks)...)
			con = newAsmConsumer(T, tracked, byHash)
			ev = append(ev, Event{"e": "restart", "b": target})
			run(start, -1)
		}
	}
	if !dead {
		ev = append(ev, con.final(blocks)...)
		ev = append(ev, Event{"e": "end"})
	}
	c.Emit(&Trace{Cfg: cfg, Ev: ev})
}

// final re-reads every batch that was emitted: later messages must not have changed it.
func (c *asmConsumer) final(blocks []*blockDef) []Event {
	fin := []pbRec{}
	for _, pb := range c.kept {
		fin = append(fin, pbOf(pb, c.byHash))
	}
	why := []interface{}{}
	for i, b := range blocks {
		w := whyOf(c.mp.WhyNotReady(b.Hash))
		why = append(why, []interface{}{i, w})
	}
	return []Event{{"e": "final", "fin": fin, "why": why}}
}

func (c *asmConsumer) reorg(r *rand.Rand, i int) Event {
	n := int64(r.Intn(1 << 20))
	h := hashOf("reorg", i+1)
	p, err := delivery.NewProducer("def", map[string]string{})
	if err != nil {
		failed("%v", err)
	}
	m := p.Reorg(n, h)
	st := "ok"
	if err := c.mp.ProcessMessage(&wire{m.Key(), m.Value(), "def:0", 0}); err != nil {
		st = "err"
	}
	got := [][]interface{}{}
	for {
		select {
		case x := <-c.rch:
			for k, v := range x {
				got = append(got, []interface{}{fmt.Sprint(k), v.Hex()})
			}
			continue
		default:
		}
		break
	}
	return Event{"e": "reorg", "num": fmt.Sprint(n), "h": h.Hex(), "got": got, "st": st}
}

var rePrefix = regexp.MustCompile(`'([^']*)'`)

// whyOf normalises a readiness diagnostic: kind and the quoted item, if any.
func whyOf(s string) []string {
	l := strings.ToLower(s)
	item := ""
	if m := rePrefix.FindStringSubmatch(s); m != nil {
		item = m[1]
	}
	switch {
	case strings.Contains(l, "not found"):
		return []string{"notfound", ""}
	case strings.Contains(l, "ready"):
		return []string{"ready", ""}
	case strings.Contains(l, "prefix"):
		return []string{"prefix", item}
	case strings.Contains(l, "pending batches"):
		return []string{"batches", ""}
	case strings.Contains(l, "pending batch"):
		return []string{"batch", strings.TrimPrefix(item, "0x")}
	}
	return []string{"other", ""}
}

// asmgenCase replays one delivery sequence enumerated by TLC from the
// Assembly specification: a block with a header, two counted messages (one
// with an empty value, one delete), a subbatch header and two subbatch
// messages.
func asmgenCase(c *Ctx) {
	seq := c.Sched["seq"].([]interface{})
	b := &blockDef{ID: 0, Num: 7, Weight: big.NewInt(9), Hash: hashOf("blk", 1), Parent: hashOf("blk", 0), ParID: -1,
		Subs: []subdef{{Path: "state/", ID: hashOf("sub", 1)}},
		Items: []kv{
			{K: "acct/e", V: "", Rec: "acct/", Class: "acct/"},
			{K: "acct/v", V: "01", Rec: "acct/", Class: "acct/"},
			{K: "acct/d", Del: true, Rec: "acct/", Class: "acct/"},
			{K: "inl", V: "", Rec: "inl", Class: "inline"},
			{K: "state/0", V: "", Rec: "state/", Class: "sub", Sub: 0},
			{K: "state/d", Del: true, Rec: "state/", Class: "sub", Sub: 0},
		}}
	prod, err := delivery.NewProducer("def", map[string]string{"acct/": "tA"})
	if err != nil {
		failed("%v", err)
	}
	ms, err := produceAll(prod, b)
	if err != nil {
		failed("%v", err)
	}
	// name -> message
	byName := map[string]delivery.Message{}
	msgs := []mid{}
	idx := map[string]int{}
	for _, m := range ms {
		id := identify(b, m.m.Key())
		n := id.T + id.K
		byName[n] = m.m
		idx[n] = len(msgs)
		msgs = append(msgs, id)
	}
	con := newAsmConsumer(4, []*regexp.Regexp{regexp.MustCompile(".")}, map[types.Hash]int{b.Hash: 0})
	ev := []Event{}
	for i, x := range seq {
		n := x.(string)
		m, ok := byName[n]
		if !ok {
			// the implementation splits the subbatch differently: nothing to deliver for this name
			continue
		}
		em, st := con.deliver(&wire{m.Key(), m.Value(), "s:0", int64(i)})
		ev = append(ev, Event{"e": "dlv", "b": 0, "m": idx[n], "s": "s:0", "o": i, "em": em, "st": st, "why": whyOf(con.mp.WhyNotReady(b.Hash))})
		if st == "panic" {
			break
		}
	}
	ev = append(ev, Event{"e": "end"})
	c.Emit(&Trace{Cfg: map[string]interface{}{"kind": "assembly", "T": 4, "np": 1, "full": true, "pm": []int{}, "blocks": []interface{}{blockCfg(b, msgs)},
		"tracked": []string{"acct/", "inl", "state/"}}, Ev: ev})
}
