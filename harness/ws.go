package main

import (
	"bufio"
	"context"
	"encoding/binary"
	"fmt"
	"io"
	"math/big"
	"math/rand"
	"net"
	"net/http"
	"regexp"
	"sync"
	"time"

	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-streams/v2/transports"
	types "github.com/openrelayxyz/cardinal-types"
)

func init() {
	register("wschain", wschainCase, 4, 24, 90*time.Second)
}

// ---- a tree of blocks -----------------------------------------------------------

type btree struct {
	r      *rand.Rand
	schema []class
	blocks []*blockDef
	par, w []int
	byHash map[types.Hash]int
	subs   int // at most so many subbatches per block
}

func newBtree(r *rand.Rand, subs int) *btree {
	t := &btree{r: r, byHash: map[types.Hash]int{}, subs: subs}
	cs := append([]class{}, classes...)
	r.Shuffle(len(cs), func(i, j int) { cs[i], cs[j] = cs[j], cs[i] })
	t.schema = cs[:1+r.Intn(3)]
	return t
}

// child makes a new block on i (0: the first).
func (t *btree) child(i, dw int) int { return t.childSubs(i, dw, t.r.Intn(t.subs+1)) }
func (t *btree) childSubs(i, dw, subs int) int {
	id := len(t.blocks)
	num := int64(100)
	if i > 0 {
		num = t.blocks[i-1].Num + 1
	}
	b := genBlock(t.r, id, i-1, num, t.schema, t.r.Intn(6), subs, 3)
	b.enlarge(t.r, 500)
	if i == 0 {
		b.Parent = hashOf("btroot", 1)
	}
	w := 10 + dw
	if i > 0 {
		w = t.w[i-1] + dw
	}
	b.Weight = big.NewInt(int64(w))
	t.w = append(t.w, w)
	t.par = append(t.par, i)
	t.blocks = append(t.blocks, b)
	t.byHash[b.Hash] = id + 1
	return id + 1
}
func (t *btree) path(i int) []int {
	p := []int{}
	for ; i > 0; i = t.par[i-1] {
		p = append([]int{i}, p...)
	}
	return p
}

// whole is the block as a PendingBatch with everything in it.
func (t *btree) whole(i int) *delivery.PendingBatch {
	b := t.blocks[i-1]
	pb := &delivery.PendingBatch{Number: b.Num, Weight: new(big.Int).Set(b.Weight), Hash: b.Hash, ParentHash: b.Parent, Values: b.updates(), Deletes: b.deletes()}
	for s := range b.Subs {
		del, upd := b.sub(s)
		for _, k := range del {
			pb.Deletes[k] = struct{}{}
		}
		for k, v := range upd {
			pb.Values[k] = v
		}
	}
	return pb
}
func (t *btree) cfg(T int64) map[string]interface{} {
	bl := []map[string]interface{}{}
	for i, b := range t.blocks {
		bl = append(bl, map[string]interface{}{"par": t.par[i], "w": t.w[i], "num": b.Num, "fp": b.fp(nil)})
	}
	return map[string]interface{}{"kind": "chain", "blocks": bl, "T": T}
}

// ---- a consumer's application ----------------------------------------------------

// capp applies the updates of a consumer; it can stop in the middle of one.
type capp struct {
	mu   sync.Mutex
	t    *btree
	head int
	ev   []Event
	note func(pb *delivery.PendingBatch) // told about every block that was applied
}
type crun struct {
	con  transports.Consumer
	stop bool
	done chan struct{}
}

func (a *capp) event(e Event) { a.mu.Lock(); a.ev = append(a.ev, e); a.mu.Unlock() }
func (a *capp) at() int       { a.mu.Lock(); defer a.mu.Unlock(); return a.head }
func (a *capp) run(con transports.Consumer, crashAt int) *crun {
	x := &crun{con: con, done: make(chan struct{})}
	ch := make(chan *delivery.ChainUpdate)
	con.Subscribe(ch)
	a.event(Event{"e": "start", "head": a.at()})
	go func() {
		defer close(x.done)
		n := 0
		for u := range ch {
			a.mu.Lock()
			if x.stop {
				a.mu.Unlock()
				return
			}
			rem, add, fps := []int{}, []int{}, []string{}
			for _, pb := range u.Removed() {
				rem = append(rem, a.t.byHash[pb.Hash])
			}
			crash := false
			for _, pb := range u.Added() {
				i := a.t.byHash[pb.Hash]
				add = append(add, i)
				fps = append(fps, fpPb(pb))
				if i > 0 {
					a.head = i
					if a.note != nil {
						a.note(pb)
					}
				}
				if n++; n == crashAt {
					crash = true
					break
				}
			}
			a.ev = append(a.ev, Event{"e": "upd", "rem": rem, "add": add, "fp": fps})
			x.stop = x.stop || crash
			a.mu.Unlock()
			if crash {
				return
			}
			u.Done()
		}
	}()
	return x
}
func (a *capp) crash(x *crun) {
	a.mu.Lock()
	x.stop = true
	a.ev = append(a.ev, Event{"e": "crash"})
	a.mu.Unlock()
}

// ---- websockets ----------------------------------------------------------------------

// wsPort reserves a port below the ephemeral range: a UDP socket on the same
// number keeps other processes of this harness off it.
func wsPort() int {
	r := rand.New(rand.NewSource(time.Now().UnixNano()))
	for n := 0; n < 2000; n++ {
		p := 10000 + r.Intn(20000)
		u, err := net.ListenPacket("udp", fmt.Sprintf("127.0.0.1:%d", p))
		if err != nil {
			continue
		}
		l, err := net.Listen("tcp", fmt.Sprintf(":%d", p))
		if err != nil {
			u.Close()
			continue
		}
		l.Close()
		return p // u stays open
	}
	infra("no free port")
	return 0
}

// newWsProducer starts a real websocket producer and waits until it listens.
func newWsProducer(res transports.StreamsResumption) (transports.Producer, string) {
	port := wsPort()
	p, err := transports.ResolveProducerWithResumer(fmt.Sprintf("ws://localhost:%d", port), defaultTopic, nil, res)
	if err != nil {
		failed("%v", err)
	}
	addr := fmt.Sprintf("127.0.0.1:%d", port)
	if !poll(10*time.Second, func() bool {
		c, err := net.DialTimeout("tcp", addr, time.Second)
		if err == nil {
			c.Close()
		}
		return err == nil
	}) {
		failed("websocket producer does not listen")
	}
	return p, addr
}

// wsProxy sits between a websocket client and a server and breaks connections
// after a number of frames from the server.
type wsProxy struct {
	ln     net.Listener
	target string
	mu     sync.Mutex
	conns  map[net.Conn]bool
	cuts   []int // per connection: frames let through (the first answers the subscription); -1: all
	part   []int // and how many bytes of the next
	n      int   // connections so far
	refuse int   // so many connection attempts fail first
	frames int
}

func newWsProxy(target string) *wsProxy {
	ln, err := net.Listen("tcp", loopback())
	if err != nil {
		infra("%v", err)
	}
	p := &wsProxy{ln: ln, target: target, conns: map[net.Conn]bool{}}
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			go p.serve(c)
		}
	}()
	return p
}
func (p *wsProxy) url() string { return "ws://" + p.ln.Addr().String() }
func (p *wsProxy) cutAll() {
	p.mu.Lock()
	for c := range p.conns {
		c.Close()
	}
	p.mu.Unlock()
}
func (p *wsProxy) close() { p.ln.Close(); p.cutAll() }
func (p *wsProxy) serve(c net.Conn) {
	p.mu.Lock()
	if p.refuse > 0 {
		p.refuse--
		p.mu.Unlock()
		c.Close()
		return
	}
	cut, part := -1, 0
	if p.n < len(p.cuts) {
		cut, part = p.cuts[p.n], p.part[p.n]
	}
	p.n++
	first := p.n == 1
	p.mu.Unlock()
	// The server doesn't cope with a connection that comes while another goes
	for until := time.Now().Add(5 * time.Second); time.Now().Before(until); time.Sleep(5 * time.Millisecond) {
		p.mu.Lock()
		busy := len(p.conns)
		p.mu.Unlock()
		if busy == 0 {
			break
		}
	}
	if !first {
		time.Sleep(25 * time.Millisecond)
	}
	s, err := net.Dial("tcp", p.target)
	if err != nil {
		c.Close()
		return
	}
	p.mu.Lock()
	p.conns[c], p.conns[s] = true, true
	p.mu.Unlock()
	go func() { io.Copy(s, c); s.Close(); c.Close() }()
	defer func() {
		s.Close()
		c.Close()
		p.mu.Lock()
		delete(p.conns, c)
		delete(p.conns, s)
		p.mu.Unlock()
	}()
	r := bufio.NewReader(s)
	resp, err := http.ReadResponse(r, nil)
	if err != nil {
		return
	}
	if resp.Write(c) != nil {
		return
	}
	for k := 0; ; k++ {
		h := make([]byte, 2)
		if _, err := io.ReadFull(r, h); err != nil {
			return
		}
		n := int64(h[1] & 127)
		switch n {
		case 126:
			x := make([]byte, 2)
			io.ReadFull(r, x)
			h = append(h, x...)
			n = int64(binary.BigEndian.Uint16(x))
		case 127:
			x := make([]byte, 8)
			io.ReadFull(r, x)
			h = append(h, x...)
			n = int64(binary.BigEndian.Uint64(x))
		}
		body := make([]byte, n)
		if _, err := io.ReadFull(r, body); err != nil {
			return
		}
		f := append(h, body...)
		if cut >= 0 && k >= cut {
			if part > len(f)-1 {
				part = len(f) - 1
			}
			c.Write(f[:part])
			return
		}
		if _, err := c.Write(f); err != nil {
			return
		}
		p.mu.Lock()
		p.frames++
		p.mu.Unlock()
	}
}

// wsHistory is the resumer of a producer: it knows the current chain.
type wsHistory struct {
	mu    sync.Mutex
	t     *btree
	canon []int
	back  int           // how far it goes back for a block that it does not have
	slow  time.Duration // between blocks
	after func(n int)   // called when the n-th history was sent, before it ends
	calls int
	calld func(num uint64, hash types.Hash, list []int) // told about every call
}

func (h *wsHistory) set(tip int) { h.mu.Lock(); h.canon = h.t.path(tip); h.mu.Unlock() }
func (h *wsHistory) BlocksFrom(ctx context.Context, num uint64, hash types.Hash) (chan *delivery.PendingBatch, error) {
	h.mu.Lock()
	defer h.mu.Unlock()
	n := h.calls
	h.calls++
	from := int64(num) - int64(h.back)
	for _, i := range h.canon {
		if h.t.blocks[i-1].Hash == hash && uint64(h.t.blocks[i-1].Num) == num {
			from = int64(num)
		}
	}
	list := []int{}
	for _, i := range h.canon {
		if h.t.blocks[i-1].Num >= from {
			list = append(list, i)
		}
	}
	if h.calld != nil {
		h.calld(num, hash, list)
	}
	ch := make(chan *delivery.PendingBatch)
	go func() {
		defer close(ch)
		for _, i := range list {
			time.Sleep(h.slow)
			select {
			case ch <- h.t.whole(i):
			case <-ctx.Done():
				return
			}
		}
		if h.after != nil {
			h.after(n)
		}
	}()
	return ch, nil
}
func (h *wsHistory) GetBlock(ctx context.Context, num uint64) *delivery.PendingBatch {
	h.mu.Lock()
	defer h.mu.Unlock()
	for _, i := range h.canon {
		if uint64(h.t.blocks[i-1].Num) == num {
			return h.t.whole(i)
		}
	}
	return nil
}

// pubop is one call of a producer.
type pubop struct {
	head int // the chain now leads to this block
	add  int
	blk  int // send subbatch sub of block blk
	sub  int
}

// pubScript makes the calls that publish a growing chain which sometimes
// switches to another branch. Subbatches follow their block, some after the
// next blocks.
func pubScript(t *btree, n, forks int) (ops []pubop, tip int) {
	r := t.r
	tip = t.child(0, 5)
	late := []pubop{}
	add := func(b int) {
		ops = append(ops, pubop{add: b})
		for s := range t.blocks[b-1].Subs {
			late = append(late, pubop{blk: b, sub: s})
		}
		for len(late) > 0 && (r.Intn(5) > 0 || late[0].blk < b-2) {
			k := 0
			if r.Intn(3) == 0 {
				k = r.Intn(len(late))
			}
			ops = append(ops, late[k])
			late = append(late[:k], late[k+1:]...)
		}
	}
	ops = append(ops, pubop{head: tip})
	add(tip)
	for i := 0; i < n; i++ {
		if forks > 0 && r.Intn(4) == 0 && t.par[tip-1] > 0 {
			at := tip
			for d := 1 + r.Intn(forks); d > 0 && t.par[at-1] > 0; d-- {
				at = t.par[at-1]
			}
			x, nb := at, []int{}
			for t.w[x-1] <= t.w[tip-1] {
				x = t.child(x, 1+r.Intn(4))
				nb = append(nb, x)
			}
			tip = x
			ops = append(ops, pubop{head: tip})
			for _, b := range nb {
				add(b)
			}
			continue
		}
		tip = t.child(tip, 1+r.Intn(3))
		ops = append(ops, pubop{head: tip})
		add(tip)
	}
	return append(ops, late...), tip
}

// publisher runs the calls one after another, from wherever it is told to.
type publisher struct {
	mu  sync.Mutex
	p   transports.Producer
	t   *btree
	h   *wsHistory
	ops []pubop
	pos int
	err error
}

func (x *publisher) step(n int) {
	x.mu.Lock()
	defer x.mu.Unlock()
	for ; n > 0 && x.pos < len(x.ops); n-- {
		op := x.ops[x.pos]
		x.pos++
		x.do(op)
	}
}
func (x *publisher) left() int { x.mu.Lock(); defer x.mu.Unlock(); return len(x.ops) - x.pos }
func (x *publisher) do(op pubop) {
	switch {
	case op.head > 0:
		x.h.set(op.head)
		if x.pos < len(x.ops) { // and the call that goes with it
			op = x.ops[x.pos]
			x.pos++
			x.do(op)
		}
	case op.add > 0:
		b := x.t.blocks[op.add-1]
		if err := x.p.AddBlock(b.Num, b.Hash, b.Parent, b.Weight, b.updates(), b.deletes(), b.batches()); err != nil {
			x.err = err
		}
	default:
		b := x.t.blocks[op.blk-1]
		del, upd := b.sub(op.sub)
		if err := x.p.SendBatch(b.Subs[op.sub].ID, del, upd); err != nil {
			x.err = err
		}
	}
}

func anyTracked() []*regexp.Regexp { return []*regexp.Regexp{regexp.MustCompile(".*")} }

// wschainCase: a real producer and a real consumer with a connection that breaks.
func wschainCase(c *Ctx) {
	r := c.Rng
	t := newBtree(r, 3)
	forks := 0
	if r.Intn(3) > 0 {
		forks = 1 + r.Intn(3)
	}
	n := 3 + r.Intn(10)
	ops, tip := pubScript(t, n, forks)
	T := int64(len(t.blocks) + 3)
	h := &wsHistory{t: t, back: int(T)}
	p, addr := newWsProducer(h)
	pub := &publisher{p: p, t: t, h: h, ops: ops}
	app := &capp{t: t, head: 1}
	px := newWsProxy(addr)
	defer px.close()
	// some of it is history when the consumer comes
	first := 2 + len(t.blocks[0].Subs)
	if r.Intn(3) > 0 {
		first += r.Intn(len(ops))
	}
	pub.step(first)
	h.after = func(int) {
		if r.Intn(3) > 0 {
			pub.step(1 + r.Intn(3))
		}
	}
	for k := r.Intn(5); k > 0; k-- {
		px.cuts = append(px.cuts, 1+r.Intn(12))
		px.part = append(px.part, r.Intn(3)*r.Intn(60))
	}
	lives := 0
	if forks == 0 && r.Intn(2) == 0 {
		lives = r.Intn(3)
	}
	var run *crun
	for ; lives >= 0; lives-- {
		crashAt := -1
		if lives > 0 && r.Intn(3) > 0 {
			crashAt = 1 + r.Intn(6)
		}
		b := t.blocks[app.head-1]
		cfg := &delivery.ConsumerConfig{LastHash: b.Hash, LastEmittedNum: b.Num, LastWeight: b.Weight, ReorgThreshold: T, TrackedPrefixes: anyTracked()}
		con, err := transports.ResolveConsumer(px.url(), defaultTopic, nil, nil, 0, cfg)
		if err != nil {
			failed("%v", err)
		}
		run = app.run(con, crashAt)
		if con.Start() != nil {
			failed("%v", err)
		}
		for k := r.Intn(8); k > 0; k-- {
			pub.step(r.Intn(6))
			if r.Intn(3) == 0 {
				time.Sleep(time.Duration(r.Intn(3000)) * time.Microsecond)
			}
			if r.Intn(12) == 0 {
				px.cutAll()
			}
		}
		if lives > 0 {
			app.crash(run)
			con.Close()
		}
	}
	for pub.left() > 0 {
		pub.step(1 + r.Intn(5))
		if r.Intn(10) == 0 {
			px.cutAll()
		}
	}
	// the remaining cuts and one more growth of the chain with the connection up
	px.mu.Lock()
	px.cuts = nil
	px.mu.Unlock()
	if !poll(15*time.Second, func() bool { return app.at() == tip }) {
		app.event(Event{"e": "stuck", "head": app.at(), "want": tip})
	}
	time.Sleep(2 * time.Millisecond)
	app.mu.Lock()
	app.ev = append(app.ev, Event{"e": "fin", "best": tip})
	run.stop = true
	ev := append([]Event{}, app.ev...)
	app.mu.Unlock()
	run.con.Close()
	if pub.err != nil {
		ev = append(ev, Event{"e": "puberr"})
	}
	c.Emit(&Trace{Cfg: t.cfg(T), Ev: ev})
}
