package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/gorilla/websocket"
	types "github.com/openrelayxyz/cardinal-types"
	"github.com/openrelayxyz/cardinal-types/hexutil"
)

func init() {
	register("wsfeed", wsfeedCase, 4, 24, 90*time.Second)
}

// wsframe is what a websocket feed sends, as documented.
type wsframe struct {
	Type  string `json:"type"`
	Batch *struct {
		Number  hexutil.Uint64           `json:"number"`
		Weight  *hexutil.Big             `json:"weight"`
		Hash    types.Hash               `json:"hash"`
		Parent  types.Hash               `json:"parent"`
		Values  map[string]hexutil.Bytes `json:"values"`
		Deletes []string                 `json:"deletes"`
		Batches map[string]types.Hash    `json:"batches"`
	} `json:"batch"`
	Sub *struct {
		Hash    types.Hash               `json:"hash"`
		ID      types.Hash               `json:"batchid"`
		Values  map[string]hexutil.Bytes `json:"values"`
		Deletes []string                 `json:"deletes"`
	} `json:"subbatch"`
}

func batchStr(m map[string]types.Hash) string {
	l := []string{}
	for k, v := range m {
		l = append(l, fmt.Sprintf("%q=%x", k, v[:]))
	}
	sort.Strings(l)
	return strings.Join(l, ",")
}
func frameParts(v map[string]hexutil.Bytes, d []string) (map[string][]byte, map[string]struct{}, bool) {
	val, del := map[string][]byte{}, map[string]struct{}{}
	for k, x := range v {
		val[k] = x
	}
	for _, k := range d {
		del[k] = struct{}{}
	}
	return val, del, len(del) == len(d)
}

// feedop is one call of the producer, as the subscribers see it.
type feedop struct {
	K   string `json:"k"`
	B   int    `json:"b"`
	S   int    `json:"s"`
	num int64
}

// identify tells which message of the feed a frame is.
func (f *wsframe) identify(t *btree, ops []feedop) Event {
	switch {
	case f.Type == "ready":
		return Event{"e": "ready"}
	case f.Type == "batch" && f.Batch != nil:
		i := t.byHash[f.Batch.Hash]
		if i == 0 {
			return Event{"e": "unknown"}
		}
		b := t.blocks[i-1]
		val, del, ok := frameParts(f.Batch.Values, f.Batch.Deletes)
		fp := fpOf(int64(f.Batch.Number), f.Batch.Weight.ToInt(), f.Batch.Parent, val, del)
		bs := batchStr(f.Batch.Batches)
		return Event{"e": "batch", "b": i, "whole": ok && bs == "" && fp == b.fp(nil),
			"head": ok && bs == batchStr(b.batches()) && fp == fpOf(b.Num, b.Weight, b.Parent, b.updates(), b.deletes())}
	case f.Type == "subbatch" && f.Sub != nil:
		i := t.byHash[f.Sub.Hash]
		if i == 0 {
			return Event{"e": "unknown"}
		}
		b := t.blocks[i-1]
		for s := range b.Subs {
			if b.Subs[s].ID == f.Sub.ID {
				d, upd := b.sub(s)
				val, del, ok := frameParts(f.Sub.Values, f.Sub.Deletes)
				dm := map[string]struct{}{}
				for _, k := range d {
					dm[k] = struct{}{}
				}
				return Event{"e": "sub", "b": i, "s": s + 1, "ok": ok && fpOf(0, big.NewInt(0), types.Hash{}, val, del) == fpOf(0, big.NewInt(0), types.Hash{}, upd, dm)}
			}
		}
	case f.Type == "reorg" && f.Batch != nil:
		for n, o := range ops {
			if o.K == "reorg" && o.num == int64(f.Batch.Number) && t.blocks[o.B-1].Hash == f.Batch.Hash {
				return Event{"e": "reorg", "n": n + 1}
			}
		}
	}
	return Event{"e": "unknown", "type": f.Type}
}

// wssub is one subscription of a client.
type wssub struct {
	mu     sync.Mutex
	ev     []Event
	frames []*wsframe
	from   int64
	tip0   int
	ended  bool
}

// wsclient is a bare client of a feed.
type wsclient struct {
	c    *websocket.Conn
	mu   sync.Mutex
	subs map[string]*wssub
	resp chan jmap
	n    int
	gone chan struct{}
	// it stops reading for a while
	pauseAt int
	pause   time.Duration
}

func dialFeed(addr string) *wsclient {
	c, _, err := websocket.DefaultDialer.Dial("ws://"+addr, nil)
	if err != nil {
		failed("%v", err)
	}
	x := &wsclient{c: c, subs: map[string]*wssub{}, resp: make(chan jmap, 100), gone: make(chan struct{})}
	early := map[string][]*wsframe{}
	go func() {
		defer close(x.gone)
		for n := 0; ; n++ {
			x.mu.Lock()
			d, at := x.pause, x.pauseAt
			x.mu.Unlock()
			if n == at && d > 0 {
				time.Sleep(d)
			}
			_, data, err := c.ReadMessage()
			if err != nil {
				return
			}
			var m struct {
				Method string          `json:"method"`
				ID     json.RawMessage `json:"id"`
				Params struct {
					ID     string          `json:"subscription"`
					Result json.RawMessage `json:"result"`
				} `json:"params"`
				Result json.RawMessage `json:"result"`
				Error  json.RawMessage `json:"error"`
			}
			if err := json.Unmarshal(data, &m); err != nil {
				m.Params.Result = nil
			}
			x.mu.Lock()
			if len(m.ID) > 0 {
				var id string
				if json.Unmarshal(m.Result, &id) == nil && id != "" {
					s := &wssub{}
					x.subs[id] = s
					s.frames = append(s.frames, early[id]...)
				}
				x.resp <- jmap{"id": string(m.ID), "result": m.Result, "error": m.Error, "sub": id}
			} else {
				f := &wsframe{}
				if m.Method != "cardinal_subscribe" || json.Unmarshal(m.Params.Result, f) != nil {
					f.Type = "garbage " + string(data)
				}
				if s := x.subs[m.Params.ID]; s != nil {
					s.mu.Lock()
					s.frames = append(s.frames, f)
					s.mu.Unlock()
				} else {
					early[m.Params.ID] = append(early[m.Params.ID], f)
				}
			}
			x.mu.Unlock()
		}
	}()
	return x
}
func (x *wsclient) call(method string, params ...interface{}) jmap {
	x.n++
	if err := x.c.WriteJSON(jmap{"jsonrpc": "2.0", "id": x.n, "method": method, "params": params}); err != nil {
		return nil
	}
	select {
	case r := <-x.resp:
		return r
	case <-x.gone:
		return nil
	case <-time.After(15 * time.Second):
		return nil
	}
}

// wsfeedCase: a real producer with bare clients that subscribe and leave.
func wsfeedCase(c *Ctx) {
	r := c.Rng
	t := newBtree(r, 3)
	nblk := 3 + r.Intn(12)
	long := r.Intn(45) == 0 // much at once, and clients that take their time
	if long {
		nblk = 500 + r.Intn(300)
	}
	raw, tip := pubScript(t, nblk, r.Intn(3))
	if long {
		for _, b := range t.blocks {
			if len(b.Items) > 0 && !b.Items[0].Del {
				b.Items[0].V = longv(10000 + r.Intn(12000))
			}
		}
	}
	end := t.child(tip, 2)
	raw = append(raw, pubop{head: end}, pubop{add: end})
	for s := range t.blocks[end-1].Subs {
		raw = append(raw, pubop{blk: end, sub: s})
	}
	if r.Intn(2) == 0 { // large weights
		for _, b := range t.blocks {
			b.Weight = new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), uint(62+r.Intn(2)*150)), b.Weight)
		}
	}
	// what subscribers may see of it; notices now and then
	ops, script := []feedop{}, []interface{}{}
	used := map[int64]bool{}
	cur := 0
	for _, o := range raw {
		switch {
		case o.head > 0:
			cur = o.head
			script = append(script, o)
			continue
		case o.add > 0:
			ops = append(ops, feedop{K: "add", B: o.add})
		default:
			ops = append(ops, feedop{K: "sub", B: o.blk, S: o.sub + 1})
		}
		script = append(script, o)
		if n := t.blocks[cur-1].Num - int64(r.Intn(4)); r.Intn(8) == 0 && n >= 100 && !used[n] && o.add != end && o.blk != end {
			used[n] = true
			for _, i := range t.path(cur) {
				if t.blocks[i-1].Num == n {
					ops = append(ops, feedop{K: "reorg", B: i, num: n})
					script = append(script, feedop{K: "reorg", B: i, num: n})
				}
			}
		}
	}
	h := &wsHistory{t: t, back: len(t.blocks) + 3, slow: time.Duration(r.Intn(3)*r.Intn(300)) * time.Microsecond}
	if long {
		h.slow = 0
	}
	p, addr := newWsProducer(h)
	var mu sync.Mutex // held while the chain changes
	pos, head := 0, 0
	calls := []Event{}
	step := func(n int) {
		mu.Lock()
		defer mu.Unlock()
		for ; n > 0 && pos < len(script); n-- {
			o := script[pos]
			pos++
			switch v := o.(type) {
			case feedop:
				if fn, err := p.Reorg(v.num, t.blocks[v.B-1].Hash); err != nil {
					calls = append(calls, Event{"e": "call", "known": true, "err": true})
				} else {
					fn()
				}
			case pubop:
				switch {
				case v.head > 0:
					head = v.head
					h.set(head)
					n++
				case v.add > 0:
					b := t.blocks[v.add-1]
					err := p.AddBlock(b.Num, b.Hash, b.Parent, b.Weight, b.updates(), b.deletes(), b.batches())
					calls = append(calls, Event{"e": "call", "known": true, "err": err != nil})
				default:
					b := t.blocks[v.blk-1]
					del, upd := b.sub(v.sub)
					err := p.SendBatch(b.Subs[v.sub].ID, del, upd)
					calls = append(calls, Event{"e": "call", "known": true, "err": err != nil})
					if r.Intn(6) == 0 {
						err := p.SendBatch(b.Subs[v.sub].ID, del, upd)
						calls = append(calls, Event{"e": "call", "known": false, "err": err != nil})
					}
				}
			}
		}
	}
	if long {
		step(2 + r.Intn(60))
	} else {
		step(2 + r.Intn(len(script)/2+1))
	}
	hr := rand.New(rand.NewSource(r.Int63()))
	burst := hr.Intn(4)
	var hmu sync.Mutex
	h.after = func(int) {
		hmu.Lock()
		k := hr.Intn(4) - 1
		hmu.Unlock()
		if burst > 0 {
			step(k)
		}
	}
	clients := []*wsclient{}
	type subscription struct {
		x     *wsclient
		id    string
		from  int64
		tip0  int
		after int // and it leaves when it has so many frames
		left  bool
		seen  int // frames before it unsubscribed
	}
	subs := []*subscription{}
	blocks := []Event{}
	var fm sync.Mutex
	first, fnum, fhash := int64(-1), int64(0), types.Hash{}
	h.calld = func(num uint64, hash types.Hash, list []int) {
		fm.Lock()
		if first < 0 && fnum == int64(num) && fhash == hash {
			first = int64(num)
			if len(list) > 0 {
				first = t.blocks[list[0]-1].Num
			}
		}
		fm.Unlock()
	}
	stuck := func(at string) { c.Emit(&Trace{Cfg: jmap{"kind": "wsfeed"}, Ev: []Event{{"e": "stuck", "at": at}}}) }
	stop := make(chan struct{})
	var wg sync.WaitGroup
	pr := rand.New(rand.NewSource(r.Int63()))
	wg.Add(1)
	busy := make(chan struct{})
	go func() { // the chain goes on meanwhile
		defer wg.Done()
		for {
			select {
			case <-stop:
				return
			default:
			}
			if long {
				select {
				case <-busy:
					step(1 + pr.Intn(50))
					continue
				default:
				}
			}
			step(pr.Intn(3))
			time.Sleep(time.Duration(pr.Intn(2500)) * time.Microsecond)
		}
	}()
	for k := 1 + r.Intn(3); k > 0; k-- {
		var x *wsclient
		if len(clients) > 0 && r.Intn(3) == 0 {
			x = clients[r.Intn(len(clients))]
		} else {
			x = dialFeed(addr)
			clients = append(clients, x)
			if long && r.Intn(4) > 0 {
				x.mu.Lock()
				x.pauseAt, x.pause = 3+r.Intn(60), time.Duration(600+r.Intn(700))*time.Millisecond
				x.mu.Unlock()
			}
		}
		mu.Lock()
		s := &subscription{x: x, tip0: head, after: -1, seen: -1}
		at := t.path(head)
		mu.Unlock()
		i := at[r.Intn(len(at))]
		if r.Intn(4) == 0 {
			i = at[len(at)-1]
		}
		hash := t.blocks[i-1].Hash
		num := t.blocks[i-1].Num
		if r.Intn(8) == 0 { // a block that the producer does not have
			hash = hashOf("nowhere", r.Intn(10))
		}
		fm.Lock()
		first, fnum, fhash = -1, num, hash
		fm.Unlock()
		res := x.call("cardinal_subscribe", "streams", hexutil.Uint64(num), hash)
		if res == nil || res["sub"] == "" {
			stuck(fmt.Sprint("subscribe ", res))
			return
		}
		s.id = res["sub"].(string)
		fm.Lock()
		s.from = first
		fm.Unlock()
		subs = append(subs, s)
		if r.Intn(3) == 0 {
			s.after = r.Intn(8)
		}
		if r.Intn(2) == 0 {
			mu.Lock()
			n := 97 + r.Intn(len(at)+6)
			want := 0
			for _, i := range t.path(head) {
				if t.blocks[i-1].Num == int64(n) {
					want = i
				}
			}
			res := x.call("cardinal_streamsBlock", hexutil.Uint64(n))
			mu.Unlock()
			e := Event{"e": "block", "want": want, "got": 0}
			if res == nil {
				e["got"] = -1
			} else {
				f := &wsframe{}
				raw, _ := res["result"].(json.RawMessage)
				if len(raw) > 0 && string(raw) != "null" {
					e["got"] = -1
					if json.Unmarshal(raw, f) == nil {
						if z := f.identify(t, nil); z["e"] == "batch" && z["whole"] == true {
							e["got"] = z["b"]
						}
					}
				} else if er, _ := res["error"].(json.RawMessage); len(er) == 0 || string(er) == "null" {
					e["got"] = -1
				}
			}
			blocks = append(blocks, e)
		}
		time.Sleep(time.Duration(r.Intn(4000)) * time.Microsecond)
	}
	close(busy)
	// those that leave do so while the chain grows
	wg.Add(1)
	go func() {
		defer wg.Done()
		for _, s := range subs {
			if s.after < 0 {
				continue
			}
			s.x.mu.Lock()
			w := s.x.subs[s.id]
			s.x.mu.Unlock()
			poll(200*time.Millisecond, func() bool { w.mu.Lock(); defer w.mu.Unlock(); return len(w.frames) >= s.after })
			s.left = true
			if r.Intn(2) == 0 {
				s.x.c.Close()
				for _, o := range subs {
					o.left = o.left || o.x == s.x
				}
			} else {
				w.mu.Lock()
				s.seen = len(w.frames)
				w.mu.Unlock()
				s.x.call("cardinal_unsubscribe", s.id)
			}
		}
	}()
	fin := make(chan struct{})
	go func() {
		for {
			mu.Lock()
			left := len(script) - pos
			mu.Unlock()
			if left == 0 {
				break
			}
			time.Sleep(time.Millisecond)
		}
		close(stop)
		wg.Wait()
		close(fin)
	}()
	select {
	case <-fin:
	case <-time.After(20 * time.Second):
		stuck("publish")
		return
	}
	for _, s := range subs {
		s.x.mu.Lock()
		w := s.x.subs[s.id]
		s.x.mu.Unlock()
		var ev, known []Event
		look := func() (live, last, rdy, whole bool) {
			w.mu.Lock()
			fr := w.frames
			w.mu.Unlock()
			if s.seen >= 0 {
				fr = fr[:s.seen]
			}
			ev = nil
			for i, f := range fr {
				if i == len(known) {
					known = append(known, f.identify(t, ops))
				}
				e := known[i]
				ev = append(ev, e)
				live = live || rdy
				if e["e"] == "ready" {
					rdy = true
				}
				if e["b"] == end {
					whole = whole || !rdy
					last = last || rdy && (ops[len(ops)-1].K == "add" || e["e"] == "sub" && e["s"] == ops[len(ops)-1].S)
				}
			}
			return
		}
		if s.left {
			look()
			ev = append(ev, Event{"e": "left"})
		} else {
			ok := poll(10*time.Second, func() bool {
				live, last, rdy, whole := look()
				return rdy && (last || whole && !live)
			})
			if !ok {
				ev = append(ev, Event{"e": "stuck"})
			}
			ev = append(ev, Event{"e": "end"})
		}
		ev = append(append(append([]Event{}, calls...), blocks...), ev...)
		calls, blocks = nil, nil
		bl := []jmap{}
		for i, b := range t.blocks {
			bl = append(bl, jmap{"par": t.par[i], "num": b.Num, "subs": len(b.Subs)})
		}
		c.Emit(&Trace{Cfg: jmap{"kind": "wsfeed", "blocks": bl, "ops": ops, "from": s.from, "tip0": s.tip0, "tip": end}, Ev: ev})
	}
	for _, x := range clients {
		x.c.Close()
	}
}
