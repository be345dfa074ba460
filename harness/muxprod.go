package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"time"

	"github.com/gorilla/websocket"
	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-streams/v2/transports"
	types "github.com/openrelayxyz/cardinal-types"
)

func init() {
	register("muxprod", muxprodCase, 8, 24, 60*time.Second)
	register("muxprodgen", muxprodgenCase, 40, 24, 60*time.Second)
}

// muxRig drives a real producer of several transports and records what each
// of them gets. Its Kafka transports are numbered from 1, the websocket comes last.
type muxRig struct {
	c      *Ctx
	r      *rand.Rand
	t      *btree
	k      []*kprodRig
	broken []bool
	p      transports.Producer
	ev     []Event
	mu     sync.Mutex
	frames []Event
	ended  bool
	ws     *websocket.Conn
	pings  int
}

func newMuxRig(c *Ctx, nk int, ws bool, t *btree, exist bool) *muxRig {
	r := c.Rng
	g := &muxRig{c: c, r: r, t: t, broken: make([]bool, nk), ev: []Event{}}
	params := []transports.ProducerBrokerParams{}
	for i := 0; i < nk; i++ {
		k := newKprodRig(c, t.schema, "")
		k.blocks = t.blocks
		if exist {
			k.b.topic(defaultTopic, 1+r.Intn(3))
			for _, cl := range t.schema {
				k.b.topic(cl.topic, 1+r.Intn(2))
			}
		}
		var err error
		if k.shadow, err = delivery.NewProducer(defaultTopic, schemaMap(t.schema)); err != nil {
			failed("%v", err)
		}
		g.k = append(g.k, k)
		params = append(params, transports.ProducerBrokerParams{URL: []string{"", "cardinal://"}[r.Intn(2)] + k.b.url("retry.backoff.ms=5"), DefaultTopic: defaultTopic, Schema: schemaMap(t.schema)})
	}
	addr := ""
	if ws {
		port := wsPort()
		addr = fmt.Sprintf("127.0.0.1:%d", port)
		at := r.Intn(len(params) + 1)
		params = append(params[:at:at], append([]transports.ProducerBrokerParams{{URL: fmt.Sprintf("ws://localhost:%d", port)}}, params[at:]...)...)
	}
	var err error
	if g.p, err = transports.ResolveMuxProducer(params, &wsHistory{t: t}); err != nil {
		failed("mux producer: %v", err)
	}
	for _, k := range g.k {
		k.p = g.p
	}
	if ws {
		if !poll(10*time.Second, func() bool {
			g.ws, _, err = websocket.DefaultDialer.Dial("ws://"+addr, nil)
			return err == nil
		}) {
			failed("websocket producer does not listen")
		}
		g.ws.WriteJSON(jmap{"jsonrpc": "2.0", "id": 1, "method": "cardinal_subscribe", "params": []interface{}{"streams", "0x64", types.Hash{}}})
		ready := make(chan struct{})
		go func() {
			n := 0
			for {
				_, msg, err := g.ws.ReadMessage()
				if err != nil {
					return
				}
				var note struct {
					Params struct {
						Result *wsframe `json:"result"`
					} `json:"params"`
				}
				if json.Unmarshal(msg, &note) != nil || note.Params.Result == nil {
					continue
				}
				f := note.Params.Result
				if f.Type == "ready" {
					if n++; n == 1 {
						close(ready)
					}
					continue
				}
				e := Event{"k": "odd", "b": 0, "s": ""}
				switch x := f.identify(t, nil); x["e"] {
				case "batch":
					if x["head"].(bool) {
						e = Event{"k": "add", "b": x["b"], "s": ""}
					}
				case "sub":
					if x["ok"].(bool) {
						e = Event{"k": "sub", "b": x["b"], "s": idName(f.Sub.ID)}
					}
				default:
					if f.Type == "reorg" && f.Batch != nil {
						e = Event{"k": "reorg", "b": t.byHash[f.Batch.Hash], "s": fmt.Sprint(int64(f.Batch.Number))}
					}
				}
				g.mu.Lock()
				g.frames = append(g.frames, e)
				g.mu.Unlock()
			}
		}()
		select {
		case <-ready:
		case <-time.After(15 * time.Second):
			failed("websocket subscription without ready")
		}
	}
	return g
}

// barrier makes sure that the producers have seen what is on these partitions.
func (g *muxRig) barrier(parts [][]int) {
	any := false
	for i, k := range g.k {
		for _, p := range parts[i] {
			g.pings++
			id := hashOf("kpb", g.pings)
			k.put(defaultTopic, p, delivery.PingType.GetKey(id[:]), []byte("x"))
			any = true
		}
	}
	if any {
		ok := poll(15*time.Second, func() bool { return int(g.p.ProducerCount(time.Hour)) >= g.pings })
		if !ok {
			g.ev = append(g.ev, Event{"e": "deaf"})
		}
		time.Sleep(500 * time.Microsecond)
	}
}

// collect records what every transport got for a call.
func (g *muxRig) collect(expect []int, e Event) {
	quiet := true
	for _, n := range expect {
		quiet = quiet && n == 0
	}
	if quiet {
		time.Sleep(6 * time.Millisecond)
	} else {
		for i, k := range g.k {
			if !g.broken[i] {
				poll(5*time.Second, func() bool { return k.peek() >= expect[i] })
			}
		}
		time.Sleep(1500 * time.Microsecond)
	}
	tr := []interface{}{}
	touched := [][]int{}
	for i, k := range g.k {
		ms, t := k.fresh()
		if g.broken[i] {
			ms, t = nil, nil
		}
		tr = append(tr, projectMsgs(g.t.blocks, ms))
		touched = append(touched, t)
	}
	e["tr"] = tr
	g.ev = append(g.ev, e)
	g.barrier(touched)
}
func (g *muxRig) add(i int) {
	d := g.t.blocks[i-1]
	expect := []int{}
	for _, k := range g.k {
		n := 0
		if k.seen[i] {
			for _, s := range d.Subs {
				k.skip[s.ID] = true
			}
		} else if m, err := k.shadow.AddBlock(d.Num, d.Hash, d.Parent, d.Weight, d.updates(), d.deletes(), d.batches()); err == nil {
			n = len(flatten(m))
			k.seen[i] = true
		}
		expect = append(expect, n)
	}
	err := g.p.AddBlock(d.Num, d.Hash, d.Parent, d.Weight, d.updates(), d.deletes(), d.batches())
	g.collect(expect, Event{"e": "add", "b": i, "err": errName(err)})
}
func (g *muxRig) send(id types.Hash) {
	var del []string
	upd := map[string][]byte{}
	for _, b := range g.t.blocks {
		for i := range b.Subs {
			if b.Subs[i].ID == id {
				del, upd = b.sub(i)
			}
		}
	}
	expect := []int{}
	for _, k := range g.k {
		n := 0
		if m, err := k.shadow.SendBatch(id, del, upd); err == nil {
			n = len(flatten(m))
		}
		expect = append(expect, n)
	}
	err := g.p.SendBatch(id, del, upd)
	g.collect(expect, Event{"e": "send", "id": idName(id), "err": errName(err)})
}
func (g *muxRig) foreign(i, b int, header, rest bool) {
	parts := make([][]int, len(g.k))
	g.k[i].ev = nil
	parts[i] = g.k[i].others(b, header, rest)
	if len(g.k[i].ev) > 0 {
		g.ev = append(g.ev, Event{"e": "seen", "p": i + 1, "b": b})
	}
	g.k[i].ev = nil
	g.barrier(parts)
}
func (g *muxRig) purge() {
	g.p.PurgeReplayCache()
	for _, k := range g.k {
		k.seen, k.skip = map[int]bool{}, map[types.Hash]bool{}
	}
	g.ev = append(g.ev, Event{"e": "purge"})
}
func (g *muxRig) reorg() {
	n, b := int64(g.r.Intn(1000)), 1+g.r.Intn(len(g.t.blocks))
	done, err := g.p.Reorg(n, g.t.blocks[b-1].Hash)
	if done != nil && g.r.Intn(2) == 0 {
		done()
	}
	g.collect(make([]int, len(g.k)), Event{"e": "notice", "err": errName(err), "b": b, "n": fmt.Sprint(n)})
}

// latest asks for the number to go on from: the feed that is furthest behind
// decides. What each of them is at, as far back as it is asked to look, goes
// along.
func (g *muxRig) latest() {
	for _, k := range g.k {
		for p := 0; p < k.b.nparts(defaultTopic); p++ {
			if k.b.end(defaultTopic, p) > 95 {
				return
			}
		}
	}
	n, err := g.p.LatestBlockFromFeed()
	g.ev = append(g.ev, Event{"e": "latest", "n": fmt.Sprint(n), "err": err != nil})
}

// fail makes every write to transport i fail from now on.
func (g *muxRig) fail(i int, dead bool) {
	k := g.k[i]
	g.broken[i] = true
	if dead {
		k.b.close()
	} else {
		k.b.mu.Lock()
		for t := range map[string]bool{defaultTopic: true, "": true} {
			k.b.errs[t], k.b.nerrs[t] = 29, -1
		}
		for _, cl := range g.t.schema {
			k.b.errs[cl.topic], k.b.nerrs[cl.topic] = 29, -1
		}
		k.b.mu.Unlock()
	}
	g.ev = append(g.ev, Event{"e": "fail", "p": i + 1})
}
func (g *muxRig) finish() {
	if g.ws != nil {
		// a last block tells that everything has come
		last := g.t.blocks[len(g.t.blocks)-1]
		g.p.AddBlock(last.Num+1, hashOf("muxend", 1), last.Hash, last.Weight, nil, nil, nil)
		ok := poll(5*time.Second, func() bool {
			g.mu.Lock()
			defer g.mu.Unlock()
			return len(g.frames) > 0 && g.frames[len(g.frames)-1]["k"] == "odd"
		})
		g.mu.Lock()
		fr := append([]Event{}, g.frames...)
		g.mu.Unlock()
		if ok {
			fr = fr[:len(fr)-1]
		}
		g.ws.Close()
		g.ev = append(g.ev, Event{"e": "ws", "got": fr})
	}
	bl := []map[string]interface{}{}
	for _, b := range g.t.blocks {
		bl = append(bl, prodBlockCfg(g.t.schema, b))
	}
	for i, k := range g.k {
		if !g.broken[i] {
			k.b.close()
		}
	}
	g.c.Emit(&Trace{Cfg: map[string]interface{}{"blocks": bl, "default": defaultTopic, "kafka": len(g.k), "ws": g.ws != nil}, Ev: g.ev})
}

func muxprodCase(c *Ctx) {
	r := c.Rng
	t := newBtree(r, 3)
	n := 1 + r.Intn(4)
	for i := 0; i < n; i++ {
		t.child(i, 1)
		if r.Intn(8) == 0 {
			spoil(r, t.blocks[i], 2+r.Intn(2))
		}
	}
	nk := 1 + r.Intn(3)
	ws := r.Intn(2) == 0
	g := newMuxRig(c, nk, ws, t, r.Intn(3) > 0)
	ids := []types.Hash{{}, hashOf("none", 1)}
	for _, b := range t.blocks {
		for _, s := range b.Subs {
			ids = append(ids, s.ID)
		}
	}
	added := 0
	failing := r.Intn(4) == 0
	for k := 2 + r.Intn(10); k > 0; k-- {
		switch x := r.Intn(27); {
		case x < 8:
			added = 1 + r.Intn(n)
			g.add(added)
		case x < 16:
			k := r.Intn(len(ids))
			if added > 0 && r.Intn(3) > 0 {
				if su := t.blocks[added-1].Subs; len(su) > 0 {
					g.send(su[r.Intn(len(su))].ID)
					continue
				}
			}
			g.send(ids[k])
		case x < 19:
			if i := r.Intn(nk); !g.broken[i] {
				g.foreign(i, 1+r.Intn(n), true, r.Intn(2) == 0)
			}
		case x == 19:
			g.purge()
		case x == 20:
			g.reorg()
		case x < 24:
			if !strings.Contains(fmt.Sprint(g.broken), "true") {
				g.latest()
			}
		case x == 24:
			g.p.SetHealth(r.Intn(2) == 0)
		default:
			if i := r.Intn(nk); failing && nk+len(map[bool]int{ws: 1}) > 1 && !g.broken[i] {
				g.fail(i, r.Intn(4) == 0)
			}
		}
	}
	g.finish()
}

// muxprodgenCase replays a sequence of calls enumerated by TLC from MuxProdMC.
func muxprodgenCase(c *Ctx) {
	r := c.Rng
	t := newBtree(r, 2)
	t.childSubs(0, 1, 2)
	t.childSubs(1, 1, 1)
	g := newMuxRig(c, 2, r.Intn(3) == 0, t, r.Intn(2) == 0)
	ids := map[string]types.Hash{"11": t.blocks[0].Subs[0].ID, "12": t.blocks[0].Subs[1].ID, "21": t.blocks[1].Subs[0].ID}
	for _, x := range c.Sched["calls"].([]interface{}) {
		y := x.([]interface{})
		a := y[1].(string)
		var k int
		fmt.Sscan(a, &k)
		switch y[0] {
		case "add":
			g.add(k)
		case "send":
			g.send(ids[a])
		case "seen":
			g.foreign(k/10-1, k%10, true, false)
		case "purge":
			g.purge()
		}
	}
	g.finish()
}
