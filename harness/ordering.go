package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"regexp"
	"sort"
	"sync"
	"time"

	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	types "github.com/openrelayxyz/cardinal-types"
)

func init() {
	register("ordering", orderingCase, 2000, 8, 20*time.Second)
	register("ordgen", ordgenCase, 20000, 8, 20*time.Second)
	register("depth", depthCase, 1000, 8, 20*time.Second)
	register("whitelist", whitelistCase, 2000, 8, 20*time.Second)
	register("bootstrap", bootstrapCase, 2000, 8, 20*time.Second)
	register("fresh", freshCase, 2000, 8, 20*time.Second)
	register("startup", startupCase, 2000, 8, 20*time.Second)
	register("reorgs", reorgsCase, 2000, 8, 20*time.Second)
	register("notices", noticesCase, 500, 16, 60*time.Second)
	register("longrun", longrunCase, 200, 8, 60*time.Second)
	// the same through the whole of the processor: blocks come as messages or
	// whole, the application takes updates when it gets to it
	register("pordering", piped(orderingCase), 500, 16, 60*time.Second)
	register("pdepth", piped(depthCase), 500, 16, 60*time.Second)
	register("pwhitelist", piped(whitelistCase), 500, 16, 60*time.Second)
	register("pfresh", piped(freshCase), 500, 16, 60*time.Second)
	register("pstartup", piped(startupCase), 500, 16, 60*time.Second)
}

// oblk is a block of an ordering scenario. Index 0 is unused; Par 0 means "a
// block nobody knows".
type oblk struct {
	Num int64 `json:"num"`
	W   int   `json:"w"`
	Par int   `json:"par"`
}

type otree struct {
	b     []oblk // b[0] unused
	wbase *big.Int
	salt  int
}

func newTree(r *rand.Rand) *otree {
	t := &otree{b: []oblk{{}}, wbase: new(big.Int), salt: r.Intn(1 << 20)}
	switch r.Intn(4) {
	case 0:
		t.wbase = new(big.Int).Lsh(big.NewInt(1), uint(62+r.Intn(100)))
	}
	return t
}
func (t *otree) add(par int, num int64, w int) int {
	t.b = append(t.b, oblk{num, w, par})
	return len(t.b) - 1
}
func (t *otree) child(par int, dw int) int {
	return t.add(par, t.b[par].Num+1, t.b[par].W+dw)
}
func (t *otree) hash(i int) types.Hash {
	return hashOf("ord", t.salt*64+i)
}
func (t *otree) weight(i int) *big.Int {
	return new(big.Int).Add(t.wbase, big.NewInt(int64(t.b[i].W)))
}
func (t *otree) val(i int) string { return fmt.Sprintf("v%d", i) }
func (t *otree) pb(i int) *delivery.PendingBatch {
	par := types.Hash{}
	if t.b[i].Par > 0 {
		par = t.hash(t.b[i].Par)
	} else {
		par = hashOf("unk", t.salt*64+i)
	}
	return &delivery.PendingBatch{Number: t.b[i].Num, Hash: t.hash(i), ParentHash: par, Weight: t.weight(i),
		Values: map[string][]byte{"k": []byte(t.val(i))}, Deletes: map[string]struct{}{}}
}

// idx projects an emitted batch to its block; -1 if it is not exactly one of ours.
func (t *otree) idx(pb *delivery.PendingBatch) int {
	if pb == nil {
		return -1
	}
	for i := 1; i < len(t.b); i++ {
		if t.hash(i) == pb.Hash {
			w := t.pb(i)
			if pb.Number != w.Number || pb.ParentHash != w.ParentHash || pb.Weight == nil || pb.Weight.Cmp(w.Weight) != 0 ||
				len(pb.Values) != 1 || string(pb.Values["k"]) != t.val(i) || len(pb.Deletes) != 0 {
				return -1
			}
			return i
		}
	}
	return -1
}

type upd struct {
	Add []int `json:"add"`
	Rem []int `json:"rem"`
}

func (t *otree) upd(u *delivery.ChainUpdate) upd {
	r := upd{[]int{}, []int{}}
	for _, pb := range u.Added() {
		r.Add = append(r.Add, t.idx(pb))
	}
	for _, pb := range u.Removed() {
		r.Rem = append(r.Rem, t.idx(pb))
	}
	return r
}

type ocon struct {
	t    *otree
	omp  *delivery.OrderedMessageProcessor
	ch   chan *delivery.ChainUpdate
	rch  chan map[int64]types.Hash
	ev   []Event
	dead bool
	pipe *opipe
}

// opipe is what a consumer needs that runs by itself.
type opipe struct {
	mu   sync.Mutex
	r    *rand.Rand
	k    ocfg
	p    *delivery.Producer
	raw  []interface{} // Event or *delivery.ChainUpdate
	last types.Hash    // head of the application
	del  map[int]bool
	off  int64
	slow time.Duration
	// how often it waits for the application
	rests int
}

func piped(f func(*Ctx)) func(*Ctx) {
	return func(c *Ctx) {
		c.Piped = true
		f(c)
		c.Piped, c.big = false, false
	}
}

// many tells whether much is handed over at once.
func (c *Ctx) many() bool {
	c.big = c.Piped && c.Rng.Intn(50) == 0
	return c.big
}

// run lets the consumer run by itself.
func (o *ocon) run(c *Ctx, k ocfg) {
	if !c.Piped {
		return
	}
	p, err := delivery.NewProducer("d", nil)
	if err != nil {
		infra("%v", err)
	}
	x := &opipe{r: rand.New(rand.NewSource(c.Rng.Int63())), k: k, p: p, del: map[int]bool{}, rests: 12}
	if k.start > 0 {
		x.last = o.t.hash(k.start)
	}
	switch x.r.Intn(3) {
	case 0:
		x.slow = time.Duration(x.r.Intn(300)) * time.Microsecond
	}
	if c.big {
		x.slow, x.rests = time.Duration(100+x.r.Intn(400))*time.Millisecond, 500
	}
	o.pipe = x
	big := c.big
	ch := make(chan *delivery.ChainUpdate)
	o.omp.Subscribe(ch)
	go func() {
		n := 0
		for u := range ch {
			x.mu.Lock()
			x.raw = append(x.raw, u)
			if a := u.Added(); len(a) > 0 {
				x.last = a[len(a)-1].Hash
			}
			x.mu.Unlock()
			u.Done()
			if n++; x.slow > 0 && (!big || n%100 == 1) {
				time.Sleep(x.slow)
			}
		}
	}()
}

// send hands a block to the processor.
func (o *ocon) send(i int) {
	x := o.pipe
	x.mu.Lock()
	x.raw = append(x.raw, Event{"e": "sub", "b": i})
	x.mu.Unlock()
	x.del[i] = true
	pb := o.t.pb(i)
	if x.r.Intn(2) == 0 {
		o.omp.ProcessCompleteBatch(pb)
	} else {
		ms, err := x.p.AddBlock(pb.Number, pb.Hash, pb.ParentHash, pb.Weight, pb.Values, pb.Deletes, nil)
		if err != nil {
			failed("%v", err)
		}
		for _, m := range ms["d"] {
			x.off++
			if err := o.omp.ProcessMessage(&wire{key: m.Key(), value: m.Value(), src: "d:0", off: x.off}); err != nil {
				failed("%v", err)
			}
		}
	}
	if x.k.kind != "startup" && x.r.Intn(x.rests) == 0 {
		o.rest()
	}
}

// rest waits until the application has what is to be had.
func (o *ocon) rest() {
	x := o.pipe
	best := 0
	conn := map[int]int{} // 1: connected, 2: not
	for _, i := range x.k.pre {
		conn[i] = 1
	}
	var on func(i int) bool
	on = func(i int) bool {
		if i == 0 || !x.del[i] && conn[i] == 0 {
			return false
		}
		if conn[i] == 0 {
			conn[i] = 2
			if w, ok := x.k.wl[o.t.b[i].Num]; (!ok || w == i) && on(o.t.b[i].Par) {
				conn[i] = 1
			}
		}
		return conn[i] == 1
	}
	for i := range x.del {
		if x.k.kind == "startup" || on(i) {
			if o.t.b[i].W > best {
				best = o.t.b[i].W
			}
		}
	}
	ok := poll(10*time.Second, func() bool {
		x.mu.Lock()
		h := x.last
		x.mu.Unlock()
		i := o.t.byHash(h)
		return i > 0 && o.t.b[i].W >= best
	})
	if ok && x.r.Intn(2) == 0 && len(x.del) > 0 { // nothing comes of repeats
		all := []int{}
		for i := range x.del {
			all = append(all, i)
		}
		sort.Ints(all)
		x.mu.Lock()
		x.raw = append(x.raw, Event{"e": "rest"})
		x.mu.Unlock()
		for k := 1 + x.r.Intn(3); k > 0; k-- {
			i := all[x.r.Intn(len(all))]
			x.mu.Lock()
			x.raw = append(x.raw, Event{"e": "sub", "b": i})
			x.mu.Unlock()
			o.omp.ProcessCompleteBatch(o.t.pb(i))
		}
		time.Sleep(time.Millisecond)
	}
	x.mu.Lock()
	x.raw = append(x.raw, Event{"e": "rest"})
	x.mu.Unlock()
}

type ocfg struct {
	start int // 0: bootstrap
	T     int64
	wl    map[int64]int
	kind  string
	pre   []int
	extra map[string]interface{}

	noWeight bool
}

func (t *otree) consumer(c ocfg) *ocon {
	cc := &delivery.ConsumerConfig{ReorgThreshold: c.T, TrackedPrefixes: []*regexp.Regexp{regexp.MustCompile(".")}}
	if c.start > 0 {
		cc.LastHash, cc.LastEmittedNum, cc.LastWeight = t.hash(c.start), t.b[c.start].Num, t.weight(c.start)
	} else if !c.noWeight {
		cc.LastWeight = new(big.Int)
	}
	if len(c.wl) > 0 {
		cc.Whitelist = map[uint64]types.Hash{}
		for n, i := range c.wl {
			cc.Whitelist[uint64(n)] = t.hash(i)
		}
	}
	omp, err := delivery.NewOrderedMessageProcessor(cc)
	if err != nil {
		failed("%v", err)
	}
	o := &ocon{t: t, omp: omp, ch: make(chan *delivery.ChainUpdate, 1024), rch: make(chan map[int64]types.Hash, 1024)}
	omp.Subscribe(o.ch)
	omp.SubscribeReorg(o.rch)
	return o
}

func (o *ocon) drain() []upd {
	res := []upd{}
	for {
		select {
		case u := <-o.ch:
			res = append(res, o.t.upd(u))
		default:
			return res
		}
	}
}

func (o *ocon) deliver(i int) []upd {
	if o.pipe != nil {
		o.send(i)
		return nil
	}
	if o.dead {
		return nil
	}
	st := "ok"
	func() {
		defer func() {
			if e := recover(); e != nil {
				st = "panic"
				o.dead = true
			}
		}()
		o.omp.HandlePendingBatch(o.t.pb(i), false)
	}()
	up := o.drain()
	o.ev = append(o.ev, Event{"e": "dlv", "b": i, "up": up, "st": st})
	return up
}

func (o *ocon) reorg(i int) {
	o.omp.HandleReorg(o.t.b[i].Num, o.t.hash(i))
	got := []int{}
	for {
		select {
		case m := <-o.rch:
			g := -1
			for n, h := range m {
				if n == o.t.b[i].Num && h == o.t.hash(i) {
					g = i
				}
			}
			got = append(got, g)
			continue
		default:
		}
		break
	}
	o.ev = append(o.ev, Event{"e": "reorg", "b": i, "got": got, "up": o.drain()})
}

func (o *ocon) finish(c *Ctx, k ocfg) {
	if o.pipe != nil {
		o.rest()
		o.pipe.mu.Lock()
		for _, e := range o.pipe.raw {
			switch v := e.(type) {
			case Event:
				o.ev = append(o.ev, v)
			case *delivery.ChainUpdate:
				o.ev = append(o.ev, Event{"e": "pup", "up": o.t.upd(v)})
			}
		}
		o.pipe.mu.Unlock()
	}
	go o.omp.Close()
	wl := [][]int{}
	for n, i := range k.wl {
		wl = append(wl, []int{int(n), i})
	}
	cfg := map[string]interface{}{"kind": k.kind, "blocks": o.t.b[1:], "start": k.start, "T": k.T, "wl": wl, "pre": k.pre}
	if k.pre == nil {
		cfg["pre"] = []int{}
	}
	for a, b := range k.extra {
		cfg[a] = b
	}
	c.Emit(&Trace{Cfg: cfg, Ev: o.ev})
}

// dw picks a weight increment: mostly equal steps so that ties are common.
func dw(r *rand.Rand, mode int) int {
	if mode == 0 {
		return 1
	}
	return 1 + r.Intn(3)
}

func shuffleOrder(r *rand.Rand, n int) []int {
	ord := r.Perm(n)
	switch r.Intn(4) {
	case 0, 1:
	case 2: // nearly sorted
		for i := range ord {
			ord[i] = i
		}
		for k := 0; k < 1+n/3; k++ {
			i := r.Intn(n)
			j := i + r.Intn(4)
			if j < n {
				ord[i], ord[j] = ord[j], ord[i]
			}
		}
	case 3: // reversed with noise
		for i := range ord {
			ord[i] = n - 1 - i
		}
		for k := 0; k < n/4; k++ {
			i, j := r.Intn(n), r.Intn(n)
			ord[i], ord[j] = ord[j], ord[i]
		}
	}
	return ord
}

// growTree adds n blocks below the blocks in roots.
func growTree(r *rand.Rand, t *otree, roots []int, n int) []int {
	mode := r.Intn(2)
	res := []int{}
	pool := append([]int{}, roots...)
	bias := r.Intn(3)
	for i := 0; i < n; i++ {
		p := pool[r.Intn(len(pool))]
		if bias == 1 && r.Intn(3) > 0 { // long branches
			p = pool[len(pool)-1]
		}
		x := t.child(p, dw(r, mode))
		pool = append(pool, x)
		res = append(res, x)
	}
	return res
}

// orderingCase: a consumer resumes at a block, is handed that block (and some
// of its ancestors) again, then the rest of a random block tree in any order.
func orderingCase(c *Ctx) {
	r := c.Rng
	t := newTree(r)
	k := ocfg{T: 64, kind: "ordering"}
	root := t.add(0, int64(100+r.Intn(5)), 50)
	chain := []int{root}
	for i := r.Intn(4); i > 0; i-- {
		chain = append(chain, t.child(chain[len(chain)-1], 1+r.Intn(2)))
	}
	k.start = chain[len(chain)-1]
	k.pre = chain
	n := 2 + r.Intn(9)
	if r.Intn(6) == 0 {
		n = 12 + r.Intn(14)
	}
	if c.many() {
		n = 150 + r.Intn(150)
	}
	roots := chain
	if r.Intn(2) == 0 {
		roots = chain[len(chain)-1:]
	}
	blocks := growTree(r, t, roots, n)
	if c.big {
		k.T = 400
	} else if r.Intn(2) == 0 { // the smallest threshold that still covers this history
		top := t.b[root].Num
		for _, b := range blocks {
			if t.b[b].Num > top {
				top = t.b[b].Num
			}
		}
		k.T = top - t.b[root].Num
		if m := int64(len(t.b)-1) / 2; k.T < m {
			k.T = m
		}
	}
	seq := []int{}
	for _, i := range shuffleOrder(r, len(blocks)) {
		seq = append(seq, blocks[i])
	}
	o := t.consumer(k)
	o.run(c, k)
	for _, b := range chain {
		o.deliver(b)
	}
	for i, b := range seq {
		o.deliver(b)
		if r.Intn(6) == 0 { // duplicates
			o.deliver(seq[r.Intn(i+1)])
		}
		if r.Intn(40) == 0 {
			o.deliver(chain[r.Intn(len(chain))])
		}
	}
	for x := r.Intn(4); x > 0; x-- {
		o.deliver(seq[r.Intn(len(seq))])
	}
	o.finish(c, k)
}

// ordgenCase replays a (tree, delivery order) enumerated by TLC from
// OrderingImpl.
func ordgenCase(c *Ctx) {
	t := newTree(c.Rng)
	t.wbase = new(big.Int)
	ints := func(k string) []int {
		res := []int{}
		for _, x := range c.Sched[k].([]interface{}) {
			res = append(res, int(x.(float64)))
		}
		return res
	}
	par, wt := ints("par"), ints("w")
	nums := ints("num")
	for i, p := range par {
		t.add(p, int64(nums[i]), wt[i])
	}
	k := ocfg{T: int64(c.Sched["T"].(float64)), kind: c.Sched["kind"].(string), start: int(c.Sched["start"].(float64)), pre: ints("pre"), wl: map[int64]int{}}
	for _, b := range ints("wl") {
		k.wl[t.b[b].Num] = b
	}
	o := t.consumer(k)
	for _, b := range ints("seq") {
		if b < 0 {
			o.reorg(-b)
		} else {
			o.deliver(b)
		}
	}
	o.finish(c, k)
}

// depthCase: a long chain (older history has been discarded), then a fork
// within the reorg threshold.
func depthCase(c *Ctx) {
	r := c.Rng
	t := newTree(r)
	k := ocfg{T: int64(1 + r.Intn(6)), kind: "depth"}
	T := int(k.T)
	tip := t.add(0, 10, 10)
	k.start = tip
	k.pre = []int{tip}
	past := r.Intn(5 * T)
	if c.many() {
		past = 150 + r.Intn(150)
	}
	o := t.consumer(k)
	o.run(c, k)
	o.deliver(tip)
	hist := []int{tip}
	for i := past; i > 0; i-- {
		tip = t.child(tip, 1)
		o.deliver(tip)
		hist = append(hist, tip)
	}
	for rounds := 1 + r.Intn(3); rounds > 0; rounds-- {
		d := 1 + r.Intn(T) // depth of the reorg
		anc := tip
		mine := []int{}
		for i := 0; i < d; i++ {
			tip = t.child(tip, 1)
			mine = append(mine, tip)
		}
		other := []int{}
		x := anc
		for i := 0; i <= d; i++ {
			x = t.child(x, 1)
			other = append(other, x)
		}
		// order: mine in order; other locally shuffled, possibly interleaved
		seq := []int{}
		switch r.Intn(3) {
		case 0:
			seq = append(append(seq, mine...), other...)
		case 1:
			for i := 0; i <= d; i++ {
				if i < d {
					seq = append(seq, mine[i])
				}
				seq = append(seq, other[i])
			}
		case 2:
			rev := []int{}
			for i := range other {
				rev = append(rev, other[len(other)-1-i])
			}
			seq = append(append(seq, mine...), rev...)
		}
		for _, b := range seq {
			o.deliver(b)
		}
		tip = x
		chain := []int{}
		for x := tip; x > 0; x = t.b[x].Par {
			chain = append(chain, x)
		}
		for i := r.Intn(2 * T); i > 0; i-- {
			tip = t.child(tip, 1)
			o.deliver(tip)
		}
		// blocks from before what is remembered, once more or never seen, take no room
		if r.Intn(2) == 0 {
			for i := r.Intn(3*T + 3); i > 0; i-- {
				if t.b[tip].Num < int64(2*T+9) {
					break
				}
				b := t.add(0, t.b[tip].Num-int64(2*T+4+r.Intn(4)), t.b[tip].W-1-r.Intn(3))
				if x := chain[r.Intn(len(chain))]; r.Intn(2) == 0 && t.b[x].Num < t.b[tip].Num-int64(2*T+3) {
					b = x
				}
				o.deliver(b)
			}
		}
	}
	o.finish(c, k)
}

// whitelistCase: some heights are pinned to one block.
func whitelistCase(c *Ctx) {
	r := c.Rng
	t := newTree(r)
	k := ocfg{T: 64, kind: "whitelist", wl: map[int64]int{}}
	root := t.add(0, 100, 50)
	k.start = root
	k.pre = []int{root}
	n := 4 + r.Intn(10)
	if c.many() {
		n, k.T = 150+r.Intn(150), 400
	}
	blocks := growTree(r, t, []int{root}, n)
	for i := 1 + r.Intn(2); i > 0; i-- {
		b := blocks[r.Intn(len(blocks))]
		k.wl[t.b[b].Num] = b
	}
	boot := r.Intn(4) == 0 // without a last block, parents first
	if boot {
		k.start = 0
	}
	o := t.consumer(k)
	o.run(c, k)
	o.deliver(root)
	seq := shuffleOrder(r, len(blocks))
	if boot {
		sort.Ints(seq)
	}
	for i, x := range seq {
		o.deliver(blocks[x])
		if r.Intn(6) == 0 {
			o.deliver(blocks[seq[r.Intn(i+1)]])
		}
	}
	o.finish(c, k)
}

// bootstrapCase: a consumer without a last block.
func bootstrapCase(c *Ctx) {
	r := c.Rng
	t := newTree(r)
	k := ocfg{T: 64, kind: "bootstrap"}
	root := t.add(0, 100, 50)
	all := append([]int{root}, growTree(r, t, []int{root}, 4+r.Intn(22))...)
	o := t.consumer(k)
	seq := shuffleOrder(r, len(all))
	if r.Intn(3) == 0 {
		for i := range seq {
			seq[i] = i
		}
	}
	for i, x := range seq {
		o.deliver(all[x])
		if r.Intn(8) == 0 {
			o.deliver(all[seq[r.Intn(i+1)]])
		}
	}
	o.finish(c, k)
}

// freshCase: a consumer without a last block whose first ten blocks come after
// what they build on; the rest comes in any order.
func freshCase(c *Ctx) {
	r := c.Rng
	t := newTree(r)
	k := ocfg{T: 64, kind: "fresh", noWeight: r.Intn(2) == 0}
	root := t.add(0, int64(r.Intn(2)*r.Intn(3000)), 1+r.Intn(60))
	n := 2 + r.Intn(9)
	if r.Intn(2) == 0 {
		n = 10 + r.Intn(16)
	}
	if c.many() {
		n, k.T = 150+r.Intn(150), 400
	}
	blocks := growTree(r, t, []int{root}, n)
	if !c.big && r.Intn(2) == 0 {
		top := t.b[root].Num
		for _, b := range blocks {
			if t.b[b].Num > top {
				top = t.b[b].Num
			}
		}
		k.T = top - t.b[root].Num
		if m := int64(len(t.b)-1) / 2; k.T < m {
			k.T = m
		}
	}
	k.pre = []int{root}
	o := t.consumer(k)
	o.run(c, k)
	seen := map[int]bool{root: true}
	seq := []int{root}
	rest := []int{}
	for _, i := range shuffleOrder(r, len(blocks)) {
		rest = append(rest, blocks[i])
	}
	for i := 0; len(seq) < 10 && i < len(rest); {
		if b := rest[i]; seen[t.b[b].Par] {
			seen[b] = true
			seq = append(seq, b)
			rest = append(rest[:i], rest[i+1:]...)
			i = 0
		} else {
			i++
		}
	}
	seq = append(seq, rest...)
	for i, b := range seq {
		o.deliver(b)
		if r.Intn(6) == 0 {
			o.deliver(seq[r.Intn(i+1)])
		}
	}
	o.finish(c, k)
}

// startupCase: a consumer resumes at a block; its history is handed over out
// of order and mixed with new blocks. Afterwards the heaviest branch grows by
// one block, which settles the matter.
func startupCase(c *Ctx) {
	r := c.Rng
	t := newTree(r)
	k := ocfg{T: 64, kind: "startup"}
	root := t.add(0, 100, 50)
	chain := []int{root}
	for i := r.Intn(5); i > 0; i-- {
		chain = append(chain, t.child(chain[len(chain)-1], 1+r.Intn(2)))
	}
	k.start = chain[len(chain)-1]
	n := 2 + r.Intn(9)
	if c.many() {
		n, k.T = 150+r.Intn(150), 400
	}
	blocks := growTree(r, t, chain, n)
	all := append(append([]int{}, chain...), blocks...)
	o := t.consumer(k)
	o.run(c, k)
	for _, x := range shuffleOrder(r, len(all)) {
		o.deliver(all[x])
	}
	best := chain[len(chain)-1]
	for _, b := range all {
		if t.b[b].W > t.b[best].W {
			best = b
		}
	}
	last := t.child(best, 1)
	o.deliver(last)
	o.finish(c, k)
}

// longrunCase: a long history with small forks, duplicates of recent and of
// very old blocks, and a small threshold, so that history is discarded all the
// time.
func longrunCase(c *Ctx) {
	r := c.Rng
	t := newTree(r)
	k := ocfg{T: int64(3 + r.Intn(4)), kind: "longrun"}
	tip := t.add(0, 10, 10)
	k.start = tip
	k.pre = []int{tip}
	o := t.consumer(k)
	o.deliver(tip)
	all := []int{tip}
	steps := 30 + r.Intn(60)
	for i := 0; i < steps; i++ {
		switch r.Intn(8) {
		case 0: // a sibling, or a short lighter branch
			p := tip
			for k := r.Intn(2); k > 0; k-- {
				if t.b[p].Par > 0 {
					p = t.b[p].Par
				}
			}
			x := t.child(p, 1)
			o.deliver(x)
			all = append(all, x)
			if t.b[x].W > t.b[tip].W {
				tip = x
			}
		case 1: // duplicate of anything ever seen
			o.deliver(all[r.Intn(len(all))])
		case 2: // duplicate of something recent
			n := len(all)
			m := n
			if m > 4 {
				m = 4
			}
			o.deliver(all[n-1-r.Intn(m)])
		case 3: // two blocks in the wrong order
			a := t.child(tip, 1)
			b := t.child(a, 1)
			o.deliver(b)
			o.deliver(a)
			all = append(all, a, b)
			tip = b
		default:
			tip = t.child(tip, 1)
			o.deliver(tip)
			all = append(all, tip)
		}
	}
	o.finish(c, k)
}

// reorgsCase: a consumer follows a chain, is told to restart from some block
// (one it emitted recently, one it has long forgotten, or one it never saw) and
// is then handed the chain that continues from there, in any order.
func reorgsCase(c *Ctx) {
	r := c.Rng
	t := newTree(r)
	k := ocfg{T: int64(1 + r.Intn(6)), kind: "notice"}
	tip := t.add(0, int64(20+r.Intn(200)), 300)
	k.start = tip
	k.pre = []int{tip}
	if r.Intn(4) == 0 {
		k.start = 0 // started without a last block
	}
	o := t.consumer(k)
	o.deliver(tip)
	chain := []int{tip}
	for i := r.Intn(6 * int(k.T)); i > 0; i-- {
		tip = t.child(tip, 1+r.Intn(2))
		o.deliver(tip)
		chain = append(chain, tip)
		if r.Intn(6) == 0 { // a sibling nobody follows
			o.deliver(t.add(t.b[tip].Par, t.b[tip].Num, t.b[tip].W))
		}
	}
	for rounds := 1 + r.Intn(3); rounds > 0; rounds-- {
		var base int
		switch r.Intn(4) {
		case 0: // a block nobody ever handed over
			base = t.add(0, t.b[tip].Num+int64(r.Intn(40)-30), t.b[tip].W+r.Intn(60)-50)
			chain = []int{}
		case 1: // the head itself
			base = tip
		case 2: // anything since the last notice
			base = chain[r.Intn(len(chain))]
		case 3: // something recent
			n := 1 + r.Intn(8)
			if n > len(chain) {
				n = len(chain)
			}
			base = chain[len(chain)-n]
		}
		o.reorg(base)
		above := []int{}
		for i, b := range chain {
			if b == base {
				above = append(above, chain[i+1:]...)
				chain = chain[:i]
				break
			}
		}
		fresh := []int{}
		x := base
		other := -len(above) // blocks of abandoned branches the same blocks may lead back to
		for _, b := range t.b[1:] {
			if b.Num > t.b[base].Num {
				other++
			}
		}
		if len(above) > 0 && other <= int(k.T) && r.Intn(3) == 0 { // the same blocks come again
			fresh = append(fresh, above...)
			x = above[len(above)-1]
		}
		chain = append(chain, base)
		for i := 1 + r.Intn(10); i > 0; i-- {
			x = t.child(x, 1+r.Intn(2))
			fresh = append(fresh, x)
		}
		seq := shuffleOrder(r, len(fresh))
		known := 0 // blocks above the notice's block that are remembered already
		for _, b := range t.b[1:] {
			if b.Num > t.b[base].Num {
				known++
			}
		}
		if known > 2*int(k.T) { // blocks may only be early by what is remembered
			for i := range seq {
				seq[i] = i
			}
		}
		for i, s := range seq {
			o.deliver(fresh[s])
			if r.Intn(5) == 0 {
				o.deliver(fresh[seq[r.Intn(i+1)]])
			}
		}
		chain = append(chain, fresh...)
		tip = x
	}
	o.finish(c, k)
}

// noticesCase: the messages of a chain, of a notice and of the chain that
// continues from there come in as fast as they can; the consumer works through
// them in the background and the application receives updates and notices in
// the order they are handed out.
func noticesCase(c *Ctx) {
	r := c.Rng
	t := newTree(r)
	T := int64(8 + r.Intn(4))
	start := t.add(0, int64(20+r.Intn(200)), 300)
	omp, err := delivery.NewOrderedMessageProcessor(&delivery.ConsumerConfig{ReorgThreshold: T, LastHash: t.hash(start),
		LastEmittedNum: t.b[start].Num, LastWeight: t.weight(start), TrackedPrefixes: []*regexp.Regexp{regexp.MustCompile(".")}})
	if err != nil {
		failed("%v", err)
	}
	p, err := delivery.NewProducer("d", map[string]string{"a/": "a"})
	if err != nil {
		failed("%v", err)
	}
	type seg struct {
		Base   int   `json:"base"`
		Blocks []int `json:"blocks"`
	}
	segs := []seg{{start, []int{}}}
	msgs := []delivery.Message{}
	two := map[int]bool{} // blocks of two messages
	block := func(b int, part bool) {
		pb := t.pb(b)
		var ups map[string][]byte
		if part || two[b] {
			two[b] = true
			ups = map[string][]byte{"a/x": []byte("v")}
		}
		ms, err := p.AddBlock(pb.Number, pb.Hash, pb.ParentHash, pb.Weight, ups, nil, nil)
		if err != nil || len(ms["d"]) != 1 || len(ms["a"]) != len(ups) {
			failed("%v", err)
		}
		all := append(append([]delivery.Message{}, ms["d"]...), ms["a"]...)
		if part {
			all = all[:1]
		} else if len(all) == 2 && r.Intn(2) == 0 {
			all[0], all[1] = all[1], all[0]
		}
		msgs = append(msgs, all...)
	}
	block(start, false)
	x := start
	parts := []int{} // blocks beside the chain that are incomplete
	chain, again := []int{start}, []int{}
	for n := 1 + r.Intn(3); n >= 0; n-- {
		s := &segs[len(segs)-1]
		if len(again) > 0 {
			s.Blocks = append(s.Blocks, again...)
			x = again[len(again)-1]
		}
		for i := 1 + r.Intn(6); i > 0; i-- {
			x = t.child(x, 1)
			s.Blocks = append(s.Blocks, x)
			two[x] = r.Intn(3) == 0
		}
		for _, i := range shuffleOrder(r, len(s.Blocks)) {
			block(s.Blocks[i], false)
		}
		for i := r.Intn(3); i > 0; i-- {
			if y := s.Blocks[r.Intn(len(s.Blocks))]; t.b[y].Par > 0 {
				parts = append(parts, t.child(t.b[y].Par, 1))
				block(parts[len(parts)-1], true)
			}
		}
		if r.Intn(2) == 0 { // until what is incomplete is given up
			for i := 2*int(T) + 3 + r.Intn(6); i > 0; i-- {
				x = t.child(x, 1)
				s.Blocks = append(s.Blocks, x)
				block(x, false)
			}
		}
		chain = append(chain, s.Blocks...)
		again = nil
		if n > 0 {
			i := r.Intn(len(chain))
			base := chain[i]
			if len(parts) > 0 && r.Intn(2) == 0 { // what was incomplete comes whole
				y := parts[r.Intn(len(parts))]
				base, again, parts = t.b[y].Par, []int{y}, nil
			} else if r.Intn(3) == 0 && len(chain)-i < int(T) { // the same blocks come again
				again = append(again, chain[i+1:]...)
			} else if r.Intn(2) == 0 {
				base = t.add(0, t.b[x].Num+int64(r.Intn(20)-15), t.b[x].W+r.Intn(30)-25)
			}
			msgs = append(msgs, p.Reorg(t.b[base].Num, t.hash(base)))
			segs = append(segs, seg{base, []int{}})
			x = base
			chain = []int{base}
		}
	}
	ch, rch := make(chan *delivery.ChainUpdate), make(chan map[int64]types.Hash)
	omp.Subscribe(ch)
	omp.SubscribeReorg(rch)
	var mu sync.Mutex
	ev := []Event{}
	head := 0
	slow := r.Intn(3) == 0
	go func() {
		for {
			select {
			case u := <-ch:
				mu.Lock()
				up := upd{[]int{}, []int{}}
				for _, b := range u.Added() {
					head = t.byHash(b.Hash)
					up.Add = append(up.Add, head)
				}
				for _, b := range u.Removed() {
					up.Rem = append(up.Rem, t.byHash(b.Hash))
				}
				ev = append(ev, Event{"e": "aup", "up": up})
				mu.Unlock()
			case m := <-rch:
				mu.Lock()
				g := -1
				for n, h := range m {
					if i := t.byHash(h); i > 0 && t.b[i].Num == n && len(m) == 1 {
						g = i
					}
				}
				ev = append(ev, Event{"e": "areorg", "b": g})
				mu.Unlock()
			}
			if slow {
				time.Sleep(time.Millisecond)
			}
		}
	}()
	for i, m := range msgs {
		if err := omp.ProcessMessage(&wire{key: m.Key(), value: m.Value(), src: "d:0", off: int64(i)}); err != nil {
			failed("%v", err)
		}
	}
	poll(10*time.Second, func() bool { mu.Lock(); defer mu.Unlock(); return head == x })
	time.Sleep(2 * time.Millisecond)
	mu.Lock()
	defer mu.Unlock()
	ev = append(ev, Event{"e": "fin"})
	go omp.Close()
	c.Emit(&Trace{Cfg: map[string]interface{}{"kind": "notices", "blocks": t.b[1:], "start": start, "T": T, "wl": [][]int{}, "pre": []int{start}, "segs": segs}, Ev: ev})
}

func (t *otree) byHash(h types.Hash) int {
	for b := 1; b < len(t.b); b++ {
		if t.hash(b) == h {
			return b
		}
	}
	return -1
}
