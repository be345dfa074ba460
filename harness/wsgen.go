package main

import (
	"encoding/json"
	"fmt"
	"net"
	"net/http"
	"strings"
	"sync"
	"time"

	"github.com/gorilla/websocket"
	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-streams/v2/transports"
	types "github.com/openrelayxyz/cardinal-types"
	"github.com/openrelayxyz/cardinal-types/hexutil"
)

func init() {
	register("wsgen", wsgenCase, 60, 24, 60*time.Second)
}

// wsgenCase: a real consumer, and a server that does what a behaviour of
// WsStreamMC says: blocks and subbatches that are published, history, live
// messages and lost connections, one after another.
func wsgenCase(c *Ctx) {
	r := c.Rng
	t := newBtree(r, 0)
	cur := t.childSubs(0, 5, 0)
	for _, n := range c.Sched["subs"].([]interface{}) {
		cur = t.childSubs(cur, 1+r.Intn(3), int(n.(float64)))
	}
	tip := cur
	T := int64(len(t.blocks) + 3)
	steps := []string{}
	for _, x := range c.Sched["log"].([]interface{}) {
		steps = append(steps, x.(string))
	}
	var mu sync.Mutex // held by the connection that is served
	at, pub, readyTip := 0, 0, 0
	stopped := false
	var livesub bool
	var live []jmap
	feed := func(m jmap) {
		if livesub {
			live = append(live, m)
		}
	}
	ln, err := net.Listen("tcp", loopback())
	if err != nil {
		infra("%v", err)
	}
	serve := func(w http.ResponseWriter, req *http.Request) {
		up := websocket.Upgrader{}
		k, err := up.Upgrade(w, req, nil)
		if err != nil {
			return
		}
		defer func() { time.Sleep(200 * time.Millisecond); k.Close() }()
		_, msg, err := k.ReadMessage()
		if err != nil {
			return
		}
		var call struct {
			ID     json.RawMessage   `json:"id"`
			Params []json.RawMessage `json:"params"`
		}
		var num hexutil.Uint64
		var hash types.Hash
		if json.Unmarshal(msg, &call) != nil || len(call.Params) != 3 || json.Unmarshal(call.Params[1], &num) != nil || json.Unmarshal(call.Params[2], &hash) != nil {
			return
		}
		mu.Lock()
		defer mu.Unlock()
		if stopped {
			return
		}
		id := uint64(r.Intn(3))
		early := r.Intn(5) * r.Intn(2)
		sent := 0
		answer := func() {
			if early >= 0 {
				early = -1
				k.WriteJSON(jmap{"jsonrpc": "2.0", "id": call.ID, "result": hexutil.Uint64(id)})
			}
		}
		send := func(m jmap) {
			if sent >= early {
				answer()
			}
			sent++
			k.WriteJSON(jnote(id, m))
		}
		livesub, live = false, nil
		hist, hi, from := []int{}, 0, int64(num)
		if i := t.byHash[hash]; i == 0 || t.blocks[i-1].Num != int64(num) {
			from = 0
		}
		history := func() {
			hist, hi = nil, 0
			for _, i := range t.path(pub + 1) {
				if t.blocks[i-1].Num >= from {
					hist = append(hist, i)
				}
			}
		}
		next := func() {
			if hi < len(hist) {
				send(jwhole(t, hist[hi]))
				from = t.blocks[hist[hi]-1].Num
				hi++
			}
		}
		for {
			if at == len(steps) { // whatever is left
				answer()
				for hi < len(hist) {
					next()
				}
				for _, m := range live {
					send(m)
				}
				live = nil
				return
			}
			s := steps[at]
			at++
			switch s[0] {
			case 'A', 'a':
				pub++
				feed(jheader(t, pub+1))
			case 's':
				var b, x int
				fmt.Sscanf(strings.Replace(s[1:], "/", " ", 1), "%d %d", &b, &x)
				feed(jsub(t, b+1, x-1))
			case 'c':
				history()
			case 'h':
				next()
			case 'b':
				for hi < len(hist) {
					next()
				}
				livesub = true
			case 'g':
				history()
			case 'r':
				for hi < len(hist) {
					next()
				}
				if readyTip == 0 {
					readyTip = pub + 1
				}
				send(jmap{"type": "ready"})
			case 'f':
				if len(live) > 0 {
					send(live[0])
					live = live[1:]
				}
			case 'x':
				answer()
				livesub = false
				k.UnderlyingConn().(*net.TCPConn).CloseWrite()
				return
			}
		}
	}
	go (&http.Server{Handler: http.HandlerFunc(serve)}).Serve(ln)
	app := &capp{t: t, head: 1}
	b := t.blocks[0]
	cfg := &delivery.ConsumerConfig{LastHash: b.Hash, LastEmittedNum: b.Num, LastWeight: b.Weight, ReorgThreshold: T, TrackedPrefixes: anyTracked()}
	con, err := transports.ResolveConsumer("ws://"+ln.Addr().String(), defaultTopic, nil, nil, 0, cfg)
	if err != nil {
		failed("%v", err)
	}
	run := app.run(con, -1)
	rdy := con.Ready()
	go func() {
		<-rdy
		mu.Lock()
		x := readyTip
		mu.Unlock()
		app.event(Event{"e": "ready", "tip": x})
	}()
	if err := con.Start(); err != nil {
		app.event(Event{"e": "starterr"})
	}
	if !poll(10*time.Second, func() bool { return app.at() == tip }) {
		app.event(Event{"e": "stuck", "head": app.at(), "want": tip})
	}
	app.mu.Lock()
	app.ev = append(app.ev, Event{"e": "fin", "best": tip})
	run.stop = true
	ev := append([]Event{}, app.ev...)
	app.mu.Unlock()
	con.Close()
	mu.Lock()
	stopped = true
	mu.Unlock()
	ln.Close()
	c.Emit(&Trace{Cfg: t.cfg(T), Ev: ev})
}
