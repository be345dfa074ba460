package main

import (
	"fmt"
	"hash/fnv"
	"math/big"
	"math/rand"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-streams/v2/transports"
	types "github.com/openrelayxyz/cardinal-types"
)

func init() {
	register("kchain", kchainCase, 6, 32, 90*time.Second)
}

// fpOf describes the content of a block as a consumer of `track` should see it.
func fpOf(num int64, w *big.Int, par types.Hash, val map[string][]byte, del map[string]struct{}) string {
	ks := []string{}
	for k, v := range val {
		ks = append(ks, fmt.Sprintf("%q=%x", k, v))
	}
	for k := range del {
		ks = append(ks, fmt.Sprintf("%q!", k))
	}
	sort.Strings(ks)
	ws := "nil"
	if w != nil {
		ws = w.String()
	}
	h := fnv.New64a()
	h.Write([]byte(strings.Join(ks, ",")))
	return fmt.Sprintf("%d/%s/%x/%d/%x", num, ws, par[:4], len(ks), h.Sum64())
}
func fpPb(pb *delivery.PendingBatch) string {
	return fpOf(pb.Number, pb.Weight, pb.ParentHash, pb.Values, pb.Deletes)
}

// fp is the ground truth for a consumer that follows the record prefixes in
// track (nil: all).
func (b *blockDef) fp(track func(rec string) bool) string {
	val, del := map[string][]byte{}, map[string]struct{}{}
	for _, it := range b.Items {
		if track != nil && !track(it.Rec) {
			continue
		}
		if it.Del {
			del[it.K] = struct{}{}
		} else {
			val[it.K] = decv(it.V)
		}
	}
	return fpOf(b.Num, b.Weight, b.Parent, val, del)
}

type kloc struct {
	key string // topic:part
	off int64
}

// kchainRig is a tree of blocks published to a log, read by an application
// that crashes and starts again from what it stored.
type kchainRig struct {
	c      *Ctx
	r      *rand.Rand
	b      *kbroker
	schema []class
	topics []string
	salt   uint32
	blocks []*blockDef
	par    []int // 1-based parent, 0: none
	w      []int
	msgs   [][]produced
	last   map[string]kloc
	byHash map[types.Hash]int
	track  func(string) bool
	tre    []*regexp.Regexp
	ev     []Event
	mu     sync.Mutex
	head   int // application state
	token  string
	T      int64
	slow   time.Duration // the application pauses now and then
}

func (g *kchainRig) part(topic string, key []byte) int {
	h := fnv.New32a()
	h.Write(key)
	return int((h.Sum32() ^ g.salt) % uint32(g.b.nparts(topic)))
}
func (g *kchainRig) put(m produced) {
	p := g.part(m.topic, m.m.Key())
	off := g.b.append(m.topic, p, m.m.Key(), m.m.Value(), 1)
	g.last[string(m.m.Key())] = kloc{partKey(m.topic, p), off}
}
func (g *kchainRig) child(i, dw int) int {
	id := len(g.blocks)
	num := int64(100)
	if i > 0 {
		num = g.blocks[i-1].Num + 1
	}
	b := genBlock(g.r, id, i-1, num, g.schema, g.r.Intn(6), g.r.Intn(3), 3)
	b.enlarge(g.r, 500)
	if i == 0 {
		b.Parent = hashOf("kcroot", 1)
	}
	w := 10 + dw
	if i > 0 {
		w = g.w[i-1] + dw
	}
	b.Weight = big.NewInt(int64(w))
	g.w = append(g.w, w)
	g.par = append(g.par, i)
	g.blocks = append(g.blocks, b)
	g.byHash[b.Hash] = id + 1
	p, err := delivery.NewProducer(defaultTopic, schemaMap(g.schema))
	if err != nil {
		failed("%v", err)
	}
	ms, err := produceAll(p, b)
	if err != nil {
		failed("%v", err)
	}
	g.msgs = append(g.msgs, ms)
	return id + 1
}
func (g *kchainRig) follows(topic string) bool {
	for _, t := range g.topics {
		if t == topic {
			return true
		}
	}
	return false
}

// ancestors of i, itself included
func (g *kchainRig) anc(i int) map[int]bool {
	m := map[int]bool{}
	for ; i > 0; i = g.par[i-1] {
		m[i] = true
	}
	return m
}

// rollback is how far the consumer has to go back so that it reads again every
// block that it needs to follow the chain from the stored head.
func (g *kchainRig) rollback() int64 {
	anc := g.anc(g.head)
	desc := func(i int) bool { return g.anc(i)[g.head] }
	need := map[int]bool{g.head: true}
	low := g.head
	for i := 1; i <= len(g.blocks); i++ {
		if anc[i] {
			continue
		}
		need[i] = true
		if !desc(i) { // a branch: everything from where it forks
			heavier := false
			for j := 1; j <= len(g.blocks); j++ {
				heavier = heavier || g.w[j-1] > g.w[g.head-1] && g.anc(j)[i]
			}
			if !heavier {
				delete(need, i)
				continue
			}
			f := i
			for !anc[f] && f > 0 {
				f = g.par[f-1]
			}
			if f > 0 && g.blocks[f-1].Num < g.blocks[low-1].Num {
				low = f
			}
		}
	}
	for i := g.head; i != low; i = g.par[i-1] {
		need[i] = true
	}
	need[low] = true
	tok := map[string]int64{}
	for _, t := range strings.Split(g.token, ";") {
		if i := strings.LastIndex(t, "="); i > 0 {
			var n int64
			fmt.Sscan(t[i+1:], &n)
			tok[t[:i]] = n
		}
	}
	R := int64(0)
	for i := range need {
		for _, m := range g.msgs[i-1] {
			if !g.follows(m.topic) {
				continue
			}
			l, ok := g.last[string(m.m.Key())]
			if t, has := tok[l.key]; ok && has && t-l.off > R {
				R = t - l.off
			}
		}
	}
	return R
}

type kapp struct {
	con  transports.Consumer
	stop bool
	done chan struct{}
}

// run starts a consumer from the stored state. It stops by itself after
// `crashAt` blocks (-1: never), possibly in the middle of an update.
func (g *kchainRig) run(crashAt int) *kapp {
	h := g.blocks[g.head-1]
	R := g.rollback()
	if g.r.Intn(3) == 0 {
		R += int64(g.r.Intn(10))
	}
	cfg := &delivery.ConsumerConfig{LastHash: h.Hash, LastEmittedNum: h.Num, LastWeight: h.Weight, ReorgThreshold: g.T, TrackedPrefixes: g.tre}
	con, err := transports.ResolveConsumer(g.b.url(""), defaultTopic, g.topics, []byte(g.token), R, cfg)
	if err != nil {
		failed("%v", err)
	}
	ch := make(chan *delivery.ChainUpdate)
	con.Subscribe(ch)
	a := &kapp{con: con, done: make(chan struct{})}
	g.mu.Lock()
	g.ev = append(g.ev, Event{"e": "start", "head": g.head})
	g.mu.Unlock()
	go func() {
		defer close(a.done)
		n, first := 0, true
		for u := range ch {
			g.mu.Lock()
			if a.stop {
				g.mu.Unlock()
				return
			}
			rem, add, fps := []int{}, []int{}, []string{}
			for _, pb := range u.Removed() {
				rem = append(rem, g.byHash[pb.Hash])
			}
			crash := false
			for _, pb := range u.Added() {
				i := g.byHash[pb.Hash]
				add = append(add, i)
				fps = append(fps, fpPb(pb))
				if i > 0 {
					g.head, g.token = i, pb.Resumption()
				}
				n++
				if n == crashAt {
					crash = true
					break
				}
			}
			g.ev = append(g.ev, Event{"e": "upd", "rem": rem, "add": add, "fp": fps})
			a.stop = a.stop || crash
			g.mu.Unlock()
			if crash {
				return
			}
			u.Done()
			if g.slow > 0 && len(add) > 0 && (first || g.blocks[add[len(add)-1]-1].Num%64 < 2) {
				first = false
				time.Sleep(g.slow)
			}
		}
	}()
	if err := con.Start(); err != nil {
		failed("%v", err)
	}
	go func() { <-con.Ready() }()
	return a
}
func (g *kchainRig) crash(a *kapp) {
	g.mu.Lock()
	a.stop = true
	g.ev = append(g.ev, Event{"e": "crash"})
	g.mu.Unlock()
}
func (a *kapp) stopped() bool {
	select {
	case <-a.done:
		return true
	default:
		return false
	}
}

func newKchainRig(c *Ctx, nschema int) *kchainRig {
	r := c.Rng
	g := &kchainRig{c: c, r: r, b: newBroker(), salt: r.Uint32(), last: map[string]kloc{}, byHash: map[types.Hash]int{}}
	cs := append([]class{}, classes...)
	r.Shuffle(len(cs), func(i, j int) { cs[i], cs[j] = cs[j], cs[i] })
	g.schema = cs[:nschema]
	return g
}

// selectTopics makes the consumer follow all topics or only some.
func (g *kchainRig) selectTopics(some bool) {
	all := map[string]bool{defaultTopic: true}
	for _, c := range g.schema {
		all[c.topic] = true
	}
	names := []string{}
	for t := range all {
		names = append(names, t)
	}
	sort.Strings(names)
	g.topics = []string{defaultTopic}
	keep := map[string]bool{defaultTopic: true}
	for _, t := range names {
		if t != defaultTopic && (!some || g.r.Intn(2) == 0) {
			g.topics = append(g.topics, t)
			keep[t] = true
		}
	}
	if !some {
		g.tre = []*regexp.Regexp{regexp.MustCompile(".*")}
		return
	}
	// follow what is on the topics: inlined records, subbatches there, counted records there
	untracked := func(rec string) bool {
		for _, c := range g.schema {
			if !keep[c.topic] {
				if m := regexp.MustCompile("^" + strings.TrimPrefix(c.re, "^")).FindString(rec); m != "" {
					return true
				}
			}
		}
		return false
	}
	g.track = func(rec string) bool { return !untracked(rec) }
	for _, c := range g.schema {
		if keep[c.topic] {
			g.tre = append(g.tre, regexp.MustCompile("^"+strings.TrimPrefix(c.re, "^")))
		}
	}
	// inlined records and subbatches without an expression of their own
	plain := []string{"^misc/", "^x", "^other/", "^z", "^sub/", "^state/", "^deep/", "^q/", "^é/"}
	if !matches(g.schema, "acct/sub/") {
		plain = append(plain, "^acct/sub/")
	}
	for _, x := range plain {
		g.tre = append(g.tre, regexp.MustCompile(x))
	}
}

// settled waits until the consumer has read everything: a heartbeat that
// nobody sent before follows on every partition.
func (g *kchainRig) settled(con transports.Consumer) {
	n := 3
	for i := 0; i < 3; i++ {
		id := hashOf("kc", i)
		g.b.append(defaultTopic, 0, delivery.PingType.GetKey(id[:]), []byte("x"), 1)
	}
	for _, t := range g.topics {
		for p := 0; p < g.b.nparts(t); p++ {
			n++
			id := hashOf("kcq", n)
			g.b.append(t, p, delivery.PingType.GetKey(id[:]), []byte("x"), 1)
		}
	}
	poll(15*time.Second, func() bool { return int(con.ProducerCount(time.Hour)) >= n })
	time.Sleep(2 * time.Millisecond)
}

func (g *kchainRig) emit() {
	bl := []map[string]interface{}{}
	for i, b := range g.blocks {
		bl = append(bl, map[string]interface{}{"par": g.par[i], "w": g.w[i], "num": b.Num, "fp": b.fp(g.track)})
	}
	g.mu.Lock()
	ev := append([]Event{}, g.ev...)
	g.mu.Unlock()
	g.c.Emit(&Trace{Cfg: map[string]interface{}{"kind": "kchain", "blocks": bl, "T": g.T}, Ev: ev})
	g.b.close()
}

func kchainCase(c *Ctx) {
	r := c.Rng
	g := newKchainRig(c, 1+r.Intn(3))
	single := r.Intn(4) == 0
	max := 3
	if single {
		max = 1
	}
	g.b.topic(defaultTopic, 1+r.Intn(max))
	for _, cl := range g.schema {
		if single {
			cl.topic = defaultTopic
		}
		g.b.topic(cl.topic, 1+r.Intn(max))
	}
	if single {
		for i := range g.schema {
			g.schema[i].topic = defaultTopic
		}
	}
	g.selectTopics(!single && r.Intn(4) == 0)
	// the tree: a chain with some forks, in an order in which producers send it
	N, forks := 4+r.Intn(12), 3
	if r.Intn(50) == 0 { // much to catch up with, and an application that takes its time
		N, forks = 200+r.Intn(100), 20
		g.slow = time.Duration(200+r.Intn(500)) * time.Millisecond
	}
	g.T = int64(N + 3)
	fork := 1 + r.Intn(3)
	if single {
		g.T = int64(fork + 1 + r.Intn(3))
	}
	tip := g.child(0, 5)
	for i := 0; i < N; i++ {
		if r.Intn(forks) == 0 && tip > 1 { // a competing branch
			d := 1 + r.Intn(fork)
			at := tip
			for ; d > 0 && g.par[at-1] > 0; d-- {
				at = g.par[at-1]
			}
			depth := int(g.blocks[tip-1].Num - g.blocks[at-1].Num)
			x := at
			for k := r.Intn(depth + 2); k >= 0; k-- {
				x = g.child(x, 1+r.Intn(3))
			}
			if g.w[x-1] > g.w[tip-1] {
				tip = x
			}
			continue
		}
		tip = g.child(tip, 2+r.Intn(2))
	}
	// strictly heaviest at the end
	for heavier := true; heavier; {
		heavier = false
		for i := range g.blocks {
			if i+1 != tip && g.w[i] >= g.w[tip-1] {
				heavier = true
			}
		}
		if heavier {
			tip = g.child(tip, 6)
		}
	}
	if single { // blocks of other branches take up room in the history that is kept
		g.T += int64(len(g.blocks) - len(g.anc(tip)))
	}
	// producers: each sends the blocks in order of creation, some not all of them
	type item struct {
		b int
		m produced
	}
	np := 1 + r.Intn(3)
	streams := [][]item{}
	for p := 0; p < np; p++ {
		s := []item{}
		for i := range g.blocks {
			for _, k := range r.Perm(len(g.msgs[i])) {
				if p > 0 && r.Intn(8) == 0 {
					continue // an incomplete redundant copy
				}
				s = append(s, item{i, g.msgs[i][k]})
			}
		}
		if p > 0 && r.Intn(3) == 0 {
			s = s[r.Intn(len(s)+1):] // joins late
		}
		streams = append(streams, s)
	}
	// redundant producers learn of blocks at about the same time as the first one
	log := []produced{}
	for at := 0; ; {
		alive := []int{}
		for i, s := range streams {
			if len(s) > 0 && (i == 0 || len(streams[0]) == 0 || s[0].b <= at+1) {
				alive = append(alive, i)
			}
		}
		if len(alive) == 0 {
			break
		}
		i := alive[r.Intn(len(alive))]
		for k := r.Intn(6); k >= 0 && len(streams[i]) > 0 && (i == 0 || streams[i][0].b <= at+1 || len(streams[0]) == 0); k-- {
			log = append(log, streams[i][0].m)
			if i == 0 {
				at = streams[i][0].b
			}
			streams[i] = streams[i][1:]
		}
	}
	g.head = 1
	pos := 0
	publish := func(n int) {
		for ; n > 0 && pos < len(log); n-- {
			g.put(log[pos])
			pos++
			if r.Intn(12) == 0 { // heartbeats are among them
				id := hashOf("kc", r.Intn(3))
				g.b.append(defaultTopic, r.Intn(g.b.nparts(defaultTopic)), delivery.PingType.GetKey(id[:]), []byte("x"), 1)
			}
		}
	}
	// the first block is what the application starts from
	first := len(log) / (1 + r.Intn(4))
	publish(first)
	final := g.child(tip, 6) // branches grow once more at the end
	for life := r.Intn(4); life >= 0; life-- {
		crashAt := -1
		if life > 0 && r.Intn(3) > 0 {
			crashAt = 1 + r.Intn(6)
		}
		a := g.run(crashAt)
		if r.Intn(3) > 0 {
			for k := r.Intn(5); k > 0; k-- {
				publish(r.Intn(25))
				time.Sleep(time.Duration(r.Intn(15)) * time.Millisecond)
				if r.Intn(60) == 0 {
					g.b.dropConns()
				}
			}
		}
		if life > 0 {
			w := time.Duration(r.Intn(120)) * time.Millisecond
			if r.Intn(8) == 0 {
				w += 1500 * time.Millisecond
			}
			poll(w, a.stopped)
			g.crash(a)
			continue
		}
		// the last one gets everything
		publish(len(log))
		g.settled(a.con)
		for _, m := range g.msgs[final-1] {
			g.put(m)
		}
		poll(15*time.Second, func() bool { g.mu.Lock(); defer g.mu.Unlock(); return g.head == final })
		time.Sleep(3 * time.Millisecond)
		g.mu.Lock()
		g.ev = append(g.ev, Event{"e": "fin", "best": final})
		a.stop = true
		g.mu.Unlock()
	}
	g.emit()
}

func matches(schema []class, rec string) bool {
	for _, c := range schema {
		if regexp.MustCompile("^" + strings.TrimPrefix(c.re, "^")).MatchString(rec) {
			return true
		}
	}
	return false
}
