package main

import (
	"fmt"
	"math/rand"
	"net"
	"sort"
	"strings"
	"time"

	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-streams/v2/transports"
	"github.com/openrelayxyz/cardinal-streams/v2/waiter"
)

func init() {
	register("muxchain", muxchainCase, 6, 24, 120*time.Second)
}

// muxlog is one Kafka broker of a mux consumer.
type muxlog struct {
	b      *kbroker
	name   string // of its default topic
	topics []string
	schema []class
	feed   []produced // what goes on it, in order
	of     []int      // the call of the script that this belongs to
	pos    int
	last   map[string]kloc
	dies   bool
	killed bool
	bad    bool // one of its topics does not exist
}

func (k *muxlog) put(r *rand.Rand, m produced) {
	p := r.Intn(k.b.nparts(m.topic))
	off := k.b.append(m.topic, p, m.m.Key(), m.m.Value(), 1)
	k.last[fmt.Sprintf("%s %x", partKey(m.topic, p), m.m.Key())] = kloc{partKey(m.topic, p), off}
}

// publish puts everything up to call n of the script on the log.
func (k *muxlog) publish(r *rand.Rand, n int) {
	for k.pos < len(k.feed) && k.of[k.pos] < n {
		k.put(r, k.feed[k.pos])
		k.pos++
	}
}

// muxchainCase: a consumer of several logs and feeds, each of which carries
// part of what there is.
func muxchainCase(c *Ctx) {
	r := c.Rng
	t := newBtree(r, 3)
	forks := r.Intn(5) - 2
	if forks < 0 {
		forks = 0
	}
	ops, tip := pubScript(t, 3+r.Intn(10), forks)
	main := len(ops)
	nblocks := len(t.blocks)
	// the branch grows a few times more
	grown := []int{tip}
	ends := []int{main}
	for k := 0; k < 4; k++ {
		b := t.child(grown[k], 6)
		grown = append(grown, b)
		ops = append(ops, pubop{head: b}, pubop{add: b})
		for s := range t.blocks[b-1].Subs {
			ops = append(ops, pubop{blk: b, sub: s})
		}
		ends = append(ends, len(ops))
	}
	T := int64(len(t.blocks) + 3)
	nk, nw := r.Intn(3), r.Intn(3)
	if nk+nw == 0 {
		nk, nw = 1+r.Intn(2), r.Intn(2)
	}
	// who carries what: every block is whole on a reliable transport, or in
	// pieces on the reliable logs
	logs, srvs := []*muxlog{}, []*wsServer{}
	for i := 0; i < nk; i++ {
		k := &muxlog{b: newBroker(), name: fmt.Sprintf("%s-%d", defaultTopic, i), last: map[string]kloc{}}
		k.schema = append([]class{}, t.schema...)
		k.topics = []string{k.name}
		seen := map[string]bool{}
		k.b.topic(k.name, 1+r.Intn(3))
		for j := range k.schema {
			k.schema[j].topic = fmt.Sprintf("%s-%d", k.schema[j].topic, i)
			if n := k.schema[j].topic; !seen[n] {
				seen[n] = true
				k.b.topic(n, 1+r.Intn(2))
				k.topics = append(k.topics, n)
			}
		}
		k.dies = r.Intn(5) == 0
		if r.Intn(6) == 0 {
			k.bad, k.dies = true, true
			at := r.Intn(len(k.topics) + 1)
			k.topics = append(k.topics[:at:at], append([]string{"nosuch"}, k.topics[at:]...)...)
		}
		logs = append(logs, k)
	}
	down := 0
	if r.Intn(12) == 0 {
		down = 1
	}
	for i := 0; i < nw; i++ {
		s := &wsServer{r: rand.New(rand.NewSource(r.Int63())), t: t, ops: ops[:main], back: T, tip: 1, only: map[int]bool{}}
		for k := r.Intn(4); k > 0; k-- {
			s.refuse = append(s.refuse, []string{"", "", "close"}[r.Intn(3)])
			s.cuts = append(s.cuts, r.Intn(15))
		}
		srvs = append(srvs, s)
	}
	good := []int{} // reliable transports: logs, then servers
	for i, k := range logs {
		if !k.dies {
			good = append(good, i)
		}
	}
	for i := range srvs {
		good = append(good, nk+i)
	}
	if len(good) == 0 {
		logs[0].dies, good = false, []int{0}
		if logs[0].bad {
			logs[0].bad = false
			for i, n := range logs[0].topics {
				if n == "nosuch" {
					logs[0].topics = append(logs[0].topics[:i:i], logs[0].topics[i+1:]...)
					break
				}
			}
		}
	}
	pieces := map[string]map[int]bool{} // key -> logs
	whole := func(b, at int) {
		if at >= nk {
			srvs[at-nk].only[b] = true
			return
		}
		if pieces[fmt.Sprint(b)] == nil {
			pieces[fmt.Sprint(b)] = map[int]bool{}
		}
		pieces[fmt.Sprint(b)][at] = true
	}
	glogs := []int{}
	for _, x := range good {
		if x < nk {
			glogs = append(glogs, x)
		}
	}
	split, base := map[int]bool{}, r.Int63()
	for b := 1; b <= len(t.blocks); b++ {
		if len(glogs) > 1 && r.Intn(3) == 0 {
			split[b] = true
		} else {
			whole(b, good[r.Intn(len(good))])
		}
		for at := 0; at < nk+nw; at++ {
			if r.Intn(3) == 0 {
				whole(b, at)
			}
		}
	}
	for i, k := range logs {
		q, err := delivery.NewProducer(k.name, schemaMap(k.schema))
		if err != nil {
			failed("%v", err)
		}
		k.feed = nil
		for n, op := range ops {
			var m map[string][]delivery.Message
			switch {
			case op.add > 0:
				d := t.blocks[op.add-1]
				m, err = q.AddBlock(d.Num, d.Hash, d.Parent, d.Weight, d.updates(), d.deletes(), d.batches())
			case op.blk > 0:
				d := t.blocks[op.blk-1]
				del, upd := d.sub(op.sub)
				m, err = q.SendBatch(d.Subs[op.sub].ID, del, upd)
			default:
				continue
			}
			if err != nil {
				failed("%v", err)
			}
			fl := flatten(m)
			sort.Slice(fl, func(a, b int) bool { return string(fl[a].m.Key()) < string(fl[b].m.Key()) })
			pick := rand.New(rand.NewSource(base + int64(n)))
			b := op.add + op.blk
			for _, x := range fl {
				own := glogs
				if len(own) > 0 {
					own = glogs[pick.Intn(len(glogs)):][:1]
				}
				if pieces[fmt.Sprint(b)][i] || split[b] && (len(own) > 0 && own[0] == i || r.Intn(5) == 0) {
					k.feed = append(k.feed, x)
					k.of = append(k.of, n)
				}
			}
		}
		// redundant copies overtake each other a little
		for j := range k.feed {
			if x := j + r.Intn(4); r.Intn(3) == 0 && x < len(k.feed) && k.of[x] < main && k.of[j] < main {
				k.feed[j], k.feed[x] = k.feed[x], k.feed[j]
				if k.of[j] > k.of[x] {
					k.of[j], k.of[x] = k.of[x], k.of[j]
				}
			}
		}
	}
	first := 2 + len(t.blocks[0].Subs) + r.Intn(main)
	for _, k := range logs {
		k.publish(r, lesser(first+r.Intn(5), main))
	}
	for _, s := range srvs {
		for n := 2 + len(t.blocks[0].Subs) + r.Intn(main); n > 0 && s.pos < lesser(first, main); n-- {
			s.mu.Lock()
			s.advance()
			s.mu.Unlock()
		}
		s.start()
	}
	app := &capp{t: t, head: 1}
	lives := 0
	if (forks == 0 || nw == 0) && r.Intn(2) == 0 {
		lives = 1 + r.Intn(2)
	}
	token := ""
	app.note = func(pb *delivery.PendingBatch) { token = pb.Resumption() }
	var con transports.Consumer
	var run *crun
	for ; lives >= 0; lives-- {
		crashAt := -1
		if lives > 0 && r.Intn(3) > 0 {
			crashAt = 1 + r.Intn(6)
		}
		app.mu.Lock()
		b := t.blocks[app.head-1]
		tok := token
		app.mu.Unlock()
		params := []transports.BrokerParams{}
		for _, s := range srvs {
			params = append(params, transports.BrokerParams{URL: []string{"", "cardinal://"}[r.Intn(2)] + s.url()})
		}
		for k := 0; k < down; k++ { // nobody listens there
			ln, err := net.Listen("tcp", loopback())
			if err != nil {
				infra("%v", err)
			}
			params = append(params, transports.BrokerParams{URL: "ws://" + ln.Addr().String()})
			ln.Close()
		}
		huge := forks > 0 || nw > 0 || r.Intn(2) == 0
		R := int64(0)
		if huge {
			R = 1 << 40
		} else {
			offs := map[string]int64{}
			for _, x := range strings.Split(tok, ";") {
				if i := strings.LastIndex(x, "="); i > 0 {
					var n int64
					fmt.Sscan(x[i+1:], &n)
					offs[x[:i]] = n
				}
			}
			for _, k := range logs {
				for key, l := range k.last {
					n, ok := offs[l.key]
					if !ok || n-l.off <= R {
						continue
					}
					for j := app.at(); j <= len(t.blocks); j++ { // the head and what comes after it
						if h := t.blocks[j-1].Hash; strings.Contains(key, fmt.Sprintf("%x", h[:])) {
							R = n - l.off
						}
					}
				}
			}
			R += int64(r.Intn(4))
		}
		for _, k := range logs {
			if k.dead() {
				continue // can't be resolved
			}
			params = append(params, transports.BrokerParams{URL: k.b.url(""), DefaultTopic: k.name, Topics: k.topics, Rollback: R})
		}
		if r.Intn(8) == 0 {
			params = append(params, transports.BrokerParams{URL: "null://"})
		}
		if lives == 0 {
			r.Shuffle(len(params), func(i, j int) { params[i], params[j] = params[j], params[i] })
		}
		cfg := &delivery.ConsumerConfig{LastHash: b.Hash, LastEmittedNum: b.Num, LastWeight: b.Weight, ReorgThreshold: T, TrackedPrefixes: anyTracked()}
		var err error
		if con, err = transports.ResolveMuxConsumer(params, []byte(tok), cfg); err != nil {
			failed("%v", err)
		}
		w := con.Waiter()
		run = app.run(con, crashAt)
		started := make(chan error, 1)
		go func(con transports.Consumer) { started <- con.Start() }(con)
		rdy := con.Ready()
		ready := make(chan struct{})
		go func() { <-rdy; close(ready) }()
		nsteps := r.Intn(6)
		for n := first; nsteps > 0; nsteps-- {
			if n += r.Intn(6); n > main {
				n = main
			}
			for _, k := range logs {
				if r.Intn(3) > 0 && !k.dead() {
					k.publish(r, n)
					if k.dies && r.Intn(8) == 0 {
						k.kill()
					}
				}
			}
			time.Sleep(time.Duration(r.Intn(5000)) * time.Microsecond)
		}
		if lives > 0 {
			time.Sleep(time.Duration(r.Intn(60000)) * time.Microsecond)
			app.crash(run)
			go con.Close()
			continue
		}
		select {
		case err := <-started:
			if err != nil {
				app.event(Event{"e": "starterr"})
			}
		case <-time.After(20 * time.Second):
			app.event(Event{"e": "stuck", "at": "start"})
		}
		for _, k := range logs {
			if !k.dead() {
				k.publish(r, main)
			}
		}
		// some more blocks: at the latest now everything comes
		grow := 0
		for ; grow < 4; grow++ {
			if grow > 0 && poll(400*time.Millisecond, func() bool { return app.at() == grown[grow] }) {
				break
			}
			if grow > 0 {
				time.Sleep(200 * time.Millisecond)
			}
			for _, k := range logs {
				if !k.dead() {
					k.publish(r, ends[grow+1])
				}
			}
			for _, s := range srvs {
				s.mu.Lock()
				s.ops = ops[:ends[grow+1]]
				s.mu.Unlock()
			}
		}
		if !poll(15*time.Second, func() bool { return app.at() == grown[grow] }) {
			app.event(Event{"e": "stuck", "head": app.at(), "want": grown[grow]})
		}
		nblocks += grow
		// whose heartbeats came
		want := 0
		for i, k := range logs {
			if k.dead() || k.bad {
				continue
			}
			for _, n := range k.topics {
				for p := 0; p < k.b.nparts(n); p++ {
					want++
					id := hashOf("mux", i*100+want)
					for x := 1 + r.Intn(2); x > 0; x-- {
						k.b.append(n, p, delivery.PingType.GetKey(id[:]), []byte("x"), 1)
					}
				}
			}
		}
		poll(10*time.Second, func() bool { return int(con.ProducerCount(time.Hour)) >= want })
		time.Sleep(3 * time.Millisecond)
		app.event(Event{"e": "count", "got": int(con.ProducerCount(time.Hour)), "want": want})
		res := w.WaitForHashResult(t.blocks[grown[grow]-1].Hash, 5*time.Second)
		app.event(Event{"e": "wait", "ok": res == waiter.Success})
		wait := nw > 0 || r.Intn(3) == 0
		isReady := true
		if wait {
			select {
			case <-ready:
			case <-time.After(15 * time.Second):
				isReady = false
			}
		}
		app.event(Event{"e": "fin", "best": grown[grow], "rdy": isReady})
		down := false
		for _, k := range logs {
			down = down || k.dead() || k.bad
		}
		if wait && nw == 0 && !down && grow < 4 {
			time.Sleep(1500 * time.Millisecond) // all the others are ready, too
			closed := make(chan struct{})
			go func() { con.Close(); close(closed) }()
			select {
			case <-closed:
				app.event(Event{"e": "crash"})
				for _, k := range logs {
					k.publish(r, len(ops))
				}
				time.Sleep(30 * time.Millisecond)
			case <-time.After(10 * time.Second):
				app.event(Event{"e": "stuck", "at": "close"})
			}
		}
	}
	app.mu.Lock()
	run.stop = true
	ev := append([]Event{}, app.ev...)
	app.mu.Unlock()
	for _, s := range srvs {
		s.mu.Lock()
		s.stop = true
		if s.bad != "" {
			ev = append(ev, Event{"e": "bad", "msg": fmt.Sprintf("%.200s", s.bad)})
		}
		s.mu.Unlock()
		s.ln.Close()
	}
	go con.Close()
	time.Sleep(2 * time.Millisecond)
	for _, k := range logs {
		if !k.dead() {
			k.b.close()
		}
	}
	cfg := t.cfg(T)
	cfg["blocks"] = cfg["blocks"].([]map[string]interface{})[:nblocks]
	c.Emit(&Trace{Cfg: cfg, Ev: ev})
}

func (k *muxlog) dead() bool { return k.killed }
func (k *muxlog) kill()      { k.killed = true; k.b.close() }

func lesser(a, b int) int {
	if a < b {
		return a
	}
	return b
}
