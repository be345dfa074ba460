package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"net"
	"net/http"
	"sync"
	"time"

	"github.com/gorilla/websocket"
	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-streams/v2/transports"
	types "github.com/openrelayxyz/cardinal-types"
	"github.com/openrelayxyz/cardinal-types/hexutil"
)

func init() {
	register("wsclient", wsclientCase, 6, 24, 90*time.Second)
}

type jmap = map[string]interface{}

// The messages of a websocket feed, as described in the documentation.
func jvalues(m map[string][]byte) jmap {
	v := jmap{}
	for k, x := range m {
		v[k] = hexutil.Bytes(x)
	}
	return v
}
func jkeys(m map[string]struct{}) []string {
	l := []string{}
	for k := range m {
		l = append(l, k)
	}
	return l
}
func jwhole(t *btree, i int) jmap {
	pb := t.whole(i)
	return jmap{"type": "batch", "batch": jmap{"number": hexutil.Uint64(pb.Number), "weight": (*hexutil.Big)(pb.Weight), "hash": pb.Hash, "parent": pb.ParentHash,
		"values": jvalues(pb.Values), "deletes": jkeys(pb.Deletes), "batches": jmap{}}}
}
func jheader(t *btree, i int) jmap {
	b := t.blocks[i-1]
	return jmap{"type": "batch", "batch": jmap{"number": hexutil.Uint64(b.Num), "weight": (*hexutil.Big)(b.Weight), "hash": b.Hash, "parent": b.Parent,
		"values": jvalues(b.updates()), "deletes": jkeys(b.deletes()), "batches": b.batches()}}
}
func jsub(t *btree, i, s int) jmap {
	b := t.blocks[i-1]
	del, upd := b.sub(s)
	return jmap{"type": "subbatch", "subbatch": jmap{"hash": b.Hash, "batchid": b.Subs[s].ID, "values": jvalues(upd), "deletes": del}}
}
func jnote(id uint64, x jmap) jmap {
	return jmap{"jsonrpc": "2.0", "method": "cardinal_subscribe", "params": jmap{"subscription": hexutil.Uint64(id), "result": x}}
}

// wsServer plays the server of a websocket feed.
type wsServer struct {
	mu       sync.Mutex
	r        *rand.Rand
	t        *btree
	ops      []pubop
	pos      int
	tip      int
	n        int      // connections so far
	refuse   []string // what becomes of the first of them
	cuts     []int
	back     int64
	readyTip int // tip of the chain when the first ready was sent
	bad      string
	ln       net.Listener
	stop     bool
	only     map[int]bool // the blocks that it knows; nil: all
}

func (s *wsServer) url() string { return "ws://" + s.ln.Addr().String() }
func (s *wsServer) start() {
	ln, err := net.Listen("tcp", loopback())
	if err != nil {
		infra("%v", err)
	}
	s.ln = ln
	go (&http.Server{Handler: http.HandlerFunc(s.serve)}).Serve(ln)
}

// advance makes the next call of the script and tells what is sent for it.
func (s *wsServer) advance() []jmap {
	if s.pos >= len(s.ops) {
		return nil
	}
	op := s.ops[s.pos]
	s.pos++
	switch {
	case op.head > 0:
		s.tip = op.head
		return s.advance()
	case s.only != nil && !s.only[op.add+op.blk]:
		return s.advance()
	case op.add > 0:
		if s.r.Intn(10) == 0 {
			return []jmap{jwhole(s.t, op.add)}
		}
		return []jmap{jheader(s.t, op.add)}
	}
	return []jmap{jsub(s.t, op.blk, op.sub)}
}
func (s *wsServer) serve(w http.ResponseWriter, req *http.Request) {
	up := websocket.Upgrader{}
	s.mu.Lock()
	k := s.n
	s.n++
	how, cut := "", -1
	if k < len(s.refuse) {
		how = s.refuse[k]
	}
	if k < len(s.cuts) {
		cut = s.cuts[k]
	}
	stop := s.stop
	s.mu.Unlock()
	if how == "http" || stop {
		http.Error(w, "no", 503)
		return
	}
	c, err := up.Upgrade(w, req, nil)
	if err != nil {
		return
	}
	defer c.Close()
	if how == "close" {
		return
	}
	_, msg, err := c.ReadMessage()
	if err != nil {
		return
	}
	var call struct {
		ID     json.RawMessage   `json:"id"`
		Method string            `json:"method"`
		Params []json.RawMessage `json:"params"`
	}
	var stream string
	var num hexutil.Uint64
	var hash types.Hash
	if json.Unmarshal(msg, &call) != nil || call.Method != "cardinal_subscribe" || len(call.Params) != 3 ||
		json.Unmarshal(call.Params[0], &stream) != nil || stream != "streams" || json.Unmarshal(call.Params[1], &num) != nil || json.Unmarshal(call.Params[2], &hash) != nil {
		s.mu.Lock()
		s.bad = "call " + string(msg)
		s.mu.Unlock()
		return
	}
	go func() { // the client sends nothing more
		for {
			if _, _, err := c.ReadMessage(); err != nil {
				return
			}
		}
	}()
	switch how {
	case "error":
		c.WriteJSON(jmap{"jsonrpc": "2.0", "id": call.ID, "error": jmap{"code": -1, "message": "not now"}})
		time.Sleep(20 * time.Second)
		return
	case "null":
		c.WriteJSON(jmap{"jsonrpc": "2.0", "id": call.ID, "result": nil})
		time.Sleep(20 * time.Second)
		return
	}
	s.mu.Lock()
	r := rand.New(rand.NewSource(s.r.Int63()))
	id := uint64(r.Intn(3)) * uint64(r.Intn(1000))
	canon := s.t.path(s.tip)
	from := int64(num) - s.back
	for _, i := range canon {
		if s.t.blocks[i-1].Hash == hash {
			from = int64(num)
		}
	}
	queue := []jmap{}
	for _, i := range canon {
		if b := s.t.blocks[i-1]; b.Num >= from && (s.only == nil || s.only[i]) {
			if len(b.Subs) > 0 && r.Intn(6) == 0 {
				queue = append(queue, jheader(s.t, i))
				for _, x := range r.Perm(len(b.Subs)) {
					queue = append(queue, jsub(s.t, i, x))
				}
			} else {
				queue = append(queue, jwhole(s.t, i))
			}
		}
	}
	readyTip := s.tip
	s.mu.Unlock()
	queue = append(queue, jmap{"type": "ready"})
	early, answered, sent := 0, false, 0
	if r.Intn(2) == 0 {
		early = 1 + r.Intn(4)
	}
	send := func(v interface{}) bool {
		if cut >= 0 && sent >= cut {
			data, _ := json.Marshal(v)
			if r.Intn(2) == 0 && len(data) > 1 { // part of a frame
				f := append([]byte{0x81, 126, byte(len(data) >> 8), byte(len(data))}, data...)
				c.UnderlyingConn().Write(f[:1+r.Intn(len(f)-1)])
			}
			return false
		}
		sent++
		return c.WriteJSON(v) == nil
	}
	done := []int{}
	var held jmap // a header that its subbatch overtakes
	for n := 0; ; n++ {
		if !answered && (n >= early || len(queue) == 0) {
			answered = true
			if !send(jmap{"jsonrpc": "2.0", "id": call.ID, "result": hexutil.Uint64(id)}) {
				break
			}
			continue
		}
		if len(queue) == 0 {
			s.mu.Lock()
			if s.n != k+1 || s.stop { // there is a newer connection
				s.mu.Unlock()
				return
			}
			queue = s.advance()
			if len(queue) == 1 && held == nil && queue[0]["type"] == "batch" && s.pos < len(s.ops) && s.ops[s.pos].blk > 0 && s.ops[s.pos-1].add == s.ops[s.pos].blk && r.Intn(8) == 0 {
				held = queue[0]
				queue = append(s.advance(), held)
			}
			s.mu.Unlock()
			held = nil
			if len(queue) == 0 {
				time.Sleep(time.Millisecond)
				continue
			}
		}
		m := queue[0]
		queue = queue[1:]
		if m["type"] == "ready" {
			s.mu.Lock()
			if s.readyTip == 0 {
				s.readyTip = readyTip
			}
			s.mu.Unlock()
		}
		ok := true
		switch r.Intn(25) {
		case 0: // another subscription's block
			s.mu.Lock()
			x := *s.t.blocks[s.tip-1]
			s.mu.Unlock()
			pb := &delivery.PendingBatch{Number: x.Num + 1, Hash: hashOf("alien", k*100+n), ParentHash: x.Hash, Weight: x.Weight}
			ok = send(jnote(id+1, jmap{"type": "batch", "batch": jmap{"number": hexutil.Uint64(pb.Number), "weight": "0xffff", "hash": pb.Hash, "parent": pb.ParentHash, "values": jmap{}, "deletes": []string{}, "batches": jmap{}}}))
		case 1:
			c.WriteControl(websocket.PingMessage, nil, time.Now().Add(time.Second))
		case 2:
			ok = c.WriteMessage(websocket.TextMessage, nil) == nil
		case 3:
			ok = send(jmap{"jsonrpc": "2.0", "method": "other_thing", "params": jmap{"subscription": hexutil.Uint64(id), "result": jmap{"type": "ready"}}})
		case 4: // something that was there before
			s.mu.Lock()
			x := 0
			if len(done) > 0 {
				x = done[r.Intn(len(done))]
			}
			for _, o := range s.ops[s.pos:] {
				if o.add == x || o.blk == x {
					x = 0
				}
			}
			s.mu.Unlock()
			if x > 0 {
				ok = send(jnote(id, jwhole(s.t, x)))
			}
		}
		if !ok || !send(jnote(id, m)) {
			break
		}
		if b, ok := m["batch"].(jmap); ok {
			done = append(done, s.t.byHash[b["hash"].(types.Hash)])
		}
		if r.Intn(6) == 0 {
			time.Sleep(time.Duration(r.Intn(1500)) * time.Microsecond)
		}
	}
	// blocks come that nobody listens to
	s.mu.Lock()
	for k := r.Intn(5) * r.Intn(2); k > 0 && s.n == k+1; k-- {
		s.advance()
	}
	s.mu.Unlock()
}

// wsclientCase: a real consumer of a feed that we serve.
func wsclientCase(c *Ctx) {
	r := c.Rng
	t := newBtree(r, 3)
	forks := r.Intn(3)
	ops, tip := pubScript(t, 3+r.Intn(12), forks)
	T := int64(len(t.blocks) + 3)
	s := &wsServer{r: rand.New(rand.NewSource(r.Int63())), t: t, ops: ops, back: T, tip: 1}
	for n := 2 + len(t.blocks[0].Subs) + r.Intn(len(ops)); n > 0; n-- {
		s.advance()
	}
	slow := r.Intn(8)
	for k := r.Intn(6); k > 0; k-- {
		how := ""
		switch x := r.Intn(12); {
		case x < 2:
			how = "close"
		case x < 5 && slow == 0:
			how = []string{"error", "null", "http"}[x-2]
		}
		s.refuse = append(s.refuse, how)
		s.cuts = append(s.cuts, r.Intn(15))
	}
	s.start()
	app := &capp{t: t, head: 1}
	lives := 0
	if forks == 0 && r.Intn(2) == 0 {
		lives = r.Intn(3)
	}
	var run *crun
	for ; lives >= 0; lives-- {
		crashAt := -1
		if lives > 0 && r.Intn(3) > 0 {
			crashAt = 1 + r.Intn(6)
		}
		b := t.blocks[app.at()-1]
		cfg := &delivery.ConsumerConfig{LastHash: b.Hash, LastEmittedNum: b.Num, LastWeight: b.Weight, ReorgThreshold: T, TrackedPrefixes: anyTracked()}
		con, err := transports.ResolveConsumer([]string{"", "cardinal://"}[r.Intn(2)]+s.url(), defaultTopic, nil, nil, 0, cfg)
		if err != nil {
			failed("%v", err)
		}
		run = app.run(con, crashAt)
		started := make(chan error, 1)
		go func() { started <- con.Start() }()
		if lives > 0 {
			time.Sleep(time.Duration(r.Intn(20000)) * time.Microsecond)
			app.crash(run)
			con.Close()
			continue
		}
		rdy := con.Ready()
		go func() {
			<-rdy
			s.mu.Lock()
			x := s.readyTip
			s.mu.Unlock()
			app.event(Event{"e": "ready", "tip": x})
		}()
		select {
		case err := <-started:
			if err != nil {
				app.event(Event{"e": "starterr"})
			}
		case <-time.After(15 * time.Second):
			app.event(Event{"e": "stuck", "at": "start"})
		}
	}
	if !poll(15*time.Second, func() bool {
		s.mu.Lock()
		defer s.mu.Unlock()
		return s.bad != "" || s.pos == len(s.ops) && app.at() == tip
	}) {
		app.event(Event{"e": "stuck", "head": app.at(), "want": tip})
	}
	rdy := func() bool {
		select {
		case <-run.con.Ready():
			return true
		default:
			return false
		}
	}
	ready := poll(10*time.Second, rdy)
	time.Sleep(2 * time.Millisecond)
	app.mu.Lock()
	app.ev = append(app.ev, Event{"e": "fin", "best": tip, "rdy": ready})
	run.stop = true
	ev := append([]Event{}, app.ev...)
	app.mu.Unlock()
	run.con.Close()
	s.mu.Lock()
	s.stop = true
	if s.bad != "" {
		ev = append(ev, Event{"e": "bad", "msg": fmt.Sprintf("%.200s", s.bad)})
	}
	s.mu.Unlock()
	s.ln.Close()
	c.Emit(&Trace{Cfg: t.cfg(T), Ev: ev})
}
