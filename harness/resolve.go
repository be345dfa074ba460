package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"net"
	"net/http"
	"net/url"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/gorilla/websocket"
	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-streams/v2/transports"
	types "github.com/openrelayxyz/cardinal-types"
)

func init() {
	register("resolve", resolveCase, 20, 24, 60*time.Second)
	register("resolvegen", resolvegenCase, 20, 24, 60*time.Second)
	register("resume", resumeCase, 8, 24, 60*time.Second)
	register("latest", latestCase, 6, 24, 60*time.Second)
	register("urlopts", urloptsCase, 200, 16, 60*time.Second)
}

// wsEar is a websocket server that notes how it is called.
type wsEar struct {
	ln    net.Listener
	mu    sync.Mutex
	calls []string
}

func newWsEar() *wsEar {
	ln, err := net.Listen("tcp", loopback())
	if err != nil {
		infra("%v", err)
	}
	x := &wsEar{ln: ln}
	go (&http.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
		up := websocket.Upgrader{}
		c, err := up.Upgrade(w, req, nil)
		if err != nil {
			return
		}
		defer c.Close()
		for {
			var call struct {
				ID     json.RawMessage
				Method string
				Params []string
			}
			if c.ReadJSON(&call) != nil {
				return
			}
			x.mu.Lock()
			x.calls = append(x.calls, call.Method+" "+strings.Join(call.Params, " "))
			x.mu.Unlock()
			c.WriteJSON(jmap{"jsonrpc": "2.0", "id": call.ID, "result": "0x5"})
		}
	})}).Serve(ln)
	return x
}

var resolveKinds = []string{"kafka", "ckafka", "ws", "cws", "null", "cnull", "bad"}

func resolvegenCase(c *Ctx) {
	l := []string{}
	for _, x := range c.Sched["urls"].([]interface{}) {
		l = append(l, x.(string))
	}
	resolveList(c, c.Sched["fn"].(string), l)
}
func resolveCase(c *Ctx) {
	r := c.Rng
	l := []string{}
	for k := r.Intn(5); k >= 0; k-- {
		x := resolveKinds[r.Intn(len(resolveKinds))]
		if x == "bad" && r.Intn(2) == 0 {
			x = "null"
		}
		l = append(l, x)
	}
	fns := []string{"muxconsumer", "muxproducer", "timestamp"}
	if len(l) == 1 {
		fns = append(fns, "consumer", "producer", "oldproducer")
	}
	resolveList(c, fns[r.Intn(len(fns))], l)
}

// resolveList calls one of the functions that take URLs and observes who is contacted for what.
func resolveList(c *Ctx, fn string, kinds []string) {
	r := c.Rng
	type end struct {
		k      *kbroker
		w      *wsEar
		port   int
		topics []string // to read, or in the end to be there
		old    []string
		def    string
		schema map[string]string
	}
	num, hash := int64(r.Intn(1<<30)), hashOf("rs", r.Intn(1000))
	isProd := strings.HasSuffix(fn, "producer")
	ends := []*end{}
	cps, pps := []transports.BrokerParams{}, []transports.ProducerBrokerParams{}
	for i, kind := range kinds {
		e := &end{topics: []string{}, old: []string{}}
		u := ""
		e.def = fmt.Sprintf("d%d", i)
		switch strings.TrimPrefix(kind, "c") {
		case "kafka":
			e.k = newBroker()
			u = e.k.url("")
			if !isProd {
				e.topics = []string{e.def}
				for k := r.Intn(3); k > 0; k-- {
					e.topics = append(e.topics, fmt.Sprintf("t%d-%d", i, k))
				}
				if r.Intn(4) == 0 {
					e.topics = e.topics[len(e.topics)-1:] // the default need not be among them
				}
				for _, t := range append([]string{e.def, fmt.Sprintf("x%d", i)}, e.topics...) {
					e.k.topic(t, 1+r.Intn(3))
				}
			} else {
				e.schema = map[string]string{}
				e.topics = []string{e.def}
				for k := r.Intn(3); k > 0; k-- {
					t := fmt.Sprintf("t%d-%d", i, k)
					e.schema[fmt.Sprintf("^%c/", 'a'+k)] = t
					e.topics = append(e.topics, t)
				}
				for _, t := range append([]string{fmt.Sprintf("x%d", i)}, e.topics...) {
					if r.Intn(3) == 0 {
						e.k.topic(t, 1+r.Intn(2))
						e.old = append(e.old, t)
					}
				}
			}
		case "ws":
			if isProd {
				e.port = wsPort()
				u = fmt.Sprintf("ws://localhost:%d", e.port)
			} else {
				e.w = newWsEar()
				u = "ws://" + e.w.ln.Addr().String()
			}
		case "null":
			u = "null://"
		default:
			u = []string{"http://127.0.0.1:1", "", "KAFKA://127.0.0.1:1", "kafkas://127.0.0.1:1", "cardinal://cardinal://null://", "file:///x", "127.0.0.1:1", "://", "streams"}[r.Intn(9)]
		}
		if kind[0] == 'c' {
			u = "cardinal://" + u
		}
		ends = append(ends, e)
		cps = append(cps, transports.BrokerParams{URL: u, DefaultTopic: e.def, Topics: e.topics})
		pps = append(pps, transports.ProducerBrokerParams{URL: u, DefaultTopic: e.def, Schema: e.schema})
	}
	cfg := &delivery.ConsumerConfig{LastHash: hash, LastEmittedNum: num, LastWeight: big.NewInt(5), ReorgThreshold: 5}
	res := &wsHistory{t: newBtree(rand.New(rand.NewSource(1)), 1)}
	var con transports.Consumer
	var err error
	token := []byte{}
	switch fn {
	case "consumer":
		con, err = transports.ResolveConsumer(cps[0].URL, cps[0].DefaultTopic, cps[0].Topics, nil, 0, cfg)
	case "muxconsumer":
		con, err = transports.ResolveMuxConsumer(cps, nil, cfg)
	case "oldproducer":
		_, err = transports.ResolveProducer(pps[0].URL, pps[0].DefaultTopic, pps[0].Schema)
	case "producer":
		_, err = transports.ResolveProducerWithResumer(pps[0].URL, pps[0].DefaultTopic, pps[0].Schema, res)
	case "muxproducer":
		_, err = transports.ResolveMuxProducer(pps, res)
	case "timestamp":
		token, err = transports.ResumptionForTimestamp(cps, 5)
	}
	ev := []Event{{"e": "resolve", "err": err != nil}}
	if con != nil && err == nil {
		started := make(chan error, 1)
		go func() { started <- con.Start() }()
		select {
		case err := <-started:
			if err != nil {
				ev = append(ev, Event{"e": "starterr"})
			}
		case <-time.After(15 * time.Second):
			ev = append(ev, Event{"e": "stuck"})
		}
	}
	contact := func() [][]string {
		all := [][]string{}
		for _, e := range ends {
			got := []string{}
			switch {
			case fn == "timestamp":
				for _, x := range strings.Split(string(token), ";") {
					if i := strings.LastIndex(x, ":"); i > 0 && e.k != nil {
						for t := range e.k.topicsSnapshot() {
							if t == x[:i] {
								got = append(got, x[:strings.Index(x, "=")])
							}
						}
					}
				}
			case e.k != nil && isProd:
				for t := range e.k.topicsSnapshot() {
					got = append(got, t)
				}
			case e.k != nil:
				for t, n := range e.k.topicsSnapshot() {
					for p := 0; p < n; p++ {
						if e.k.fetched(t, p) >= 0 {
							got = append(got, partKey(t, p))
						}
					}
				}
			case e.port > 0:
				if x, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", e.port), time.Second); err == nil {
					x.Close()
					got = append(got, "listens")
				}
			case e.w != nil:
				e.w.mu.Lock()
				got = append(got, e.w.calls...)
				e.w.mu.Unlock()
			}
			sort.Strings(got)
			all = append(all, got)
		}
		return all
	}
	want := func() [][]string {
		all := [][]string{}
		for _, e := range ends {
			w := []string{}
			switch {
			case fn == "timestamp" || e.k != nil && !isProd:
				for _, t := range e.topics {
					for p := 0; e.k != nil && p < e.k.nparts(t); p++ {
						w = append(w, partKey(t, p))
					}
				}
			case e.k != nil:
				w = append(append(w, e.old...), e.topics...)
			case e.port > 0:
				w = []string{"listens"}
			case e.w != nil:
				w = []string{fmt.Sprintf("cardinal_subscribe streams 0x%x %s", num, hash.Hex())}
			}
			sort.Strings(w)
			u := []string{}
			for i, x := range w {
				if i == 0 || x != w[i-1] {
					u = append(u, x)
				}
			}
			all = append(all, u)
		}
		return all
	}
	w := want()
	if err == nil {
		poll(3*time.Second, func() bool { return fmt.Sprint(contact()) == fmt.Sprint(w) })
		if r.Intn(8) == 0 {
			time.Sleep(20 * time.Millisecond)
		}
	} else {
		time.Sleep(2 * time.Millisecond)
	}
	got := contact()
	us := []map[string]interface{}{}
	for i, k := range kinds {
		us = append(us, map[string]interface{}{"kind": k, "want": w[i], "old": ends[i].old})
	}
	ev = append(ev, Event{"e": "contacts", "got": got})
	if con != nil {
		go con.Close()
		time.Sleep(time.Millisecond)
	}
	for _, e := range ends {
		if e.k != nil {
			e.k.close()
		}
		if e.w != nil {
			e.w.ln.Close()
		}
	}
	c.Emit(&Trace{Cfg: map[string]interface{}{"kind": "resolve", "fn": fn, "urls": us}, Ev: ev})
}

// resumeCase: a token for a moment, what is written meanwhile and later, and
// what a consumer that starts from it gets.
func resumeCase(c *Ctx) {
	r := c.Rng
	sp := shadowProducer()
	type kp struct {
		b     *kbroker
		topic string
		part  int
	}
	type pcfg struct {
		Start int64   `json:"start"`
		At    int64   `json:"at"` // end when the token was asked for
		TS    []int64 `json:"ts"` // of the records, from start, in the end
	}
	var mu sync.Mutex
	parts, cfgs := []kp{}, []*pcfg{}
	where := map[types.Hash]kpos{}
	nblk := 0
	put := func(i int, ts int64) {
		nblk++
		h := hashOf("rsm", nblk)
		m := bare(sp, int64(1000+nblk), h, hashOf("rsp", nblk), 5)
		mu.Lock()
		defer mu.Unlock()
		off := parts[i].b.append(parts[i].topic, parts[i].part, m.Key(), m.Value(), ts)
		where[h] = kpos{i, off}
		cfgs[i].TS = append(cfgs[i].TS, ts)
	}
	params := []transports.BrokerParams{}
	brokers := []*kbroker{}
	for i := r.Intn(3); i >= 0; i-- {
		b := newBroker()
		defer b.close()
		brokers = append(brokers, b)
		topics := []string{}
		for j := r.Intn(3); j >= 0; j-- {
			t := fmt.Sprintf("r%d-%d", i, j)
			topics = append(topics, t)
			n := 1 + r.Intn(3)
			b.topic(t, n)
			for p := 0; p < n; p++ {
				parts = append(parts, kp{b, t, p})
				cfgs = append(cfgs, &pcfg{TS: []int64{}})
			}
		}
		params = append(params, transports.BrokerParams{URL: []string{"", "cardinal://"}[r.Intn(2)] + b.url(""), DefaultTopic: topics[0], Topics: topics})
		if r.Intn(3) == 0 {
			params = append(params, transports.BrokerParams{URL: []string{"", "cardinal://"}[r.Intn(2)] + "null://"})
		}
	}
	base := int64(1600000000000)
	T := base + int64(r.Intn(50))
	for i := range parts {
		n := r.Intn(10)
		if r.Intn(5) == 0 {
			n = 0
		}
		ts := base + int64(r.Intn(20)) - int64(r.Intn(3)*60)
		for k := 0; k < n; k++ {
			if r.Intn(3) > 0 {
				ts += int64(r.Intn(12))
			}
			put(i, ts-int64(r.Intn(2)*r.Intn(8)))
		}
		if r.Intn(3) == 0 && n > 0 {
			st := r.Intn(n + 1)
			parts[i].b.truncate(parts[i].topic, parts[i].part, int64(st))
			cfgs[i].Start, cfgs[i].TS = int64(st), cfgs[i].TS[st:]
		}
		cfgs[i].At = int64(n)
	}
	miss := r.Intn(15) == 0
	if miss {
		i := r.Intn(len(params))
		for len(params[i].Topics) == 0 {
			i = r.Intn(len(params))
		}
		params[i].Topics = append(append([]string{}, params[i].Topics...), "nosuch")
	}
	later := func() {
		ts := T - 3 + int64(r.Intn(6))
		if r.Intn(2) == 0 {
			ts = T + int64(r.Intn(9))
		}
		put(r.Intn(len(parts)), ts)
	}
	stop := make(chan struct{})
	var wg sync.WaitGroup
	if r.Intn(2) == 0 {
		wg.Add(1)
		n := r.Intn(12)
		go func() {
			defer wg.Done()
			for ; n > 0; n-- {
				select {
				case <-stop:
					return
				case <-time.After(time.Duration(rand.Intn(800)) * time.Microsecond):
				}
				later()
			}
		}()
	}
	token, err := transports.ResumptionForTimestamp(params, T)
	close(stop)
	wg.Wait()
	for n := r.Intn(5); n > 0; n-- {
		later()
	}
	out := func(ev []Event) {
		mu.Lock()
		defer mu.Unlock()
		c.Emit(&Trace{Cfg: map[string]interface{}{"kind": "resume", "base": 0, "t": T - base, "miss": miss, "parts": func() []map[string]interface{} {
			l := []map[string]interface{}{}
			for _, x := range cfgs {
				ts := []int64{}
				for _, t := range x.TS {
					ts = append(ts, t-base)
				}
				l = append(l, map[string]interface{}{"start": x.Start, "at": x.At, "ts": ts})
			}
			return l
		}()}, Ev: ev})
	}
	ev := []Event{{"e": "token", "err": err != nil}}
	if err != nil {
		out(ev)
		return
	}
	if miss {
		out(ev)
		return
	}
	var lastHash types.Hash
	if r.Intn(2) == 0 {
		lastHash = hashOf("rslh", 1)
	}
	con, err := transports.ResolveMuxConsumer(params, token, &delivery.ConsumerConfig{LastHash: lastHash, LastEmittedNum: 1000, LastWeight: bigOne, ReorgThreshold: 5000})
	if err != nil {
		out(append(ev, Event{"e": "refused"}))
		return
	}
	ch := make(chan *delivery.PendingBatch, 1000)
	con.Subscribe(ch)
	if err := con.Start(); err != nil {
		out(append(ev, Event{"e": "failed"}))
		return
	}
	for n := r.Intn(5); n > 0; n-- {
		later()
	}
	// the last record of every partition is newer than T, so that it comes
	for i := range parts {
		put(i, T+100)
	}
	got := make([][]int64, len(parts))
	for i := range got {
		got[i] = []int64{}
	}
	odd := 0
	timeout := time.After(15 * time.Second)
	last := func() bool {
		for i := range parts {
			if n := len(got[i]); n == 0 || got[i][n-1] != cfgs[i].Start+int64(len(cfgs[i].TS))-1 {
				return false
			}
		}
		return true
	}
LOOP:
	for !last() {
		select {
		case pb := <-ch:
			mu.Lock()
			p, ok := where[pb.Hash]
			mu.Unlock()
			if !ok {
				odd++
				continue
			}
			got[p.part] = append(got[p.part], p.off)
		case <-timeout:
			odd++
			break LOOP
		}
	}
	out(append(ev, Event{"e": "got", "got": got, "odd": odd}))
}

// latestCase: what producers report as the latest block of their feeds.
func latestCase(c *Ctx) {
	r := c.Rng
	sp := shadowProducer()
	nk := 1 + r.Intn(3)
	logs := []map[string]interface{}{}
	params := []transports.ProducerBrokerParams{}
	n := 0
	for i := 0; i < nk; i++ {
		b := newBroker()
		defer b.close()
		ps := []map[string]interface{}{}
		exists := r.Intn(8) > 0
		np := 0
		if exists {
			np = 1 + r.Intn(3)
			b.topic(defaultTopic, np)
		}
		top := int64(r.Intn(400))
		for p := 0; p < np; p++ {
			size := []int{0, r.Intn(5), r.Intn(30), 80 + r.Intn(40), 100, 101, 150 + r.Intn(200)}[r.Intn(7)]
			dense := []int{2, 10, 60}[r.Intn(3)]
			heads := []map[string]interface{}{}
			st := 0
			if r.Intn(4) == 0 && size > 0 {
				st = r.Intn(size + 1)
			}
			for o := 0; o < size; o++ {
				n++
				id := hashOf("lf", n)
				switch x := r.Intn(4 * dense); {
				case x < 4:
					num := top + int64(r.Intn(30)) - int64(r.Intn(20))
					if num < 0 {
						num = 0
					}
					m := bare(sp, num, id, hashOf("lfp", n), int64(5+r.Intn(5)))
					b.append(defaultTopic, p, m.Key(), m.Value(), 1)
					if o >= st {
						heads = append(heads, map[string]interface{}{"o": o, "n": num})
					}
				case x == 4:
					b.append(defaultTopic, p, nil, nil, 1)
				case x == 5:
					b.append(defaultTopic, p, delivery.PingType.GetKey(id[:]), []byte("x"), 1)
				case x == 6:
					b.append(defaultTopic, p, delivery.BatchType.GetKey(id[:]), []byte{0xff}, 1) // no header
				default:
					b.append(defaultTopic, p, delivery.BatchMsgType.GetKey(id[:], []byte("k")), []byte("v"), 1)
				}
			}
			if st > 0 {
				b.truncate(defaultTopic, p, int64(st))
			}
			ps = append(ps, map[string]interface{}{"start": st, "end": size, "heads": heads})
		}
		logs = append(logs, map[string]interface{}{"parts": ps})
		params = append(params, transports.ProducerBrokerParams{URL: []string{"", "cardinal://"}[r.Intn(2)] + b.url(""), DefaultTopic: defaultTopic})
	}
	fn := "mux"
	var p transports.Producer
	var err error
	if nk == 1 && r.Intn(2) == 0 {
		p, err = transports.ResolveProducer(params[0].URL, defaultTopic, nil)
	} else {
		if r.Intn(4) == 0 {
			at := r.Intn(nk + 1)
			params = append(params[:at:at], append([]transports.ProducerBrokerParams{{URL: fmt.Sprintf("ws://localhost:%d", wsPort())}}, params[at:]...)...)
		}
		p, err = transports.ResolveMuxProducer(params, &wsHistory{t: newBtree(rand.New(rand.NewSource(1)), 1)})
	}
	ev := []Event{}
	if err != nil {
		ev = append(ev, Event{"e": "refused"})
	} else {
		for k := r.Intn(2); k >= 0; k-- {
			num, err := p.LatestBlockFromFeed()
			ev = append(ev, Event{"e": "latest", "err": err != nil, "n": num})
		}
	}
	c.Emit(&Trace{Cfg: map[string]interface{}{"kind": "latest", "fn": fn, "logs": logs}, Ev: ev})
}

// urloptsCase: what the options of a Kafka URL stand for.
func urloptsCase(c *Ctx) {
	r := c.Rng
	opts := map[string]string{}
	pick := func(k string, vals ...string) {
		if r.Intn(2) == 0 {
			opts[k] = vals[r.Intn(len(vals))]
		}
	}
	num := fmt.Sprint(1 + r.Intn(100000))
	pick("tls", "1", "0", "", "true")
	pick("fetch.default", num, "many", "")
	pick("max.waittime", num, "long")
	pick("compression.codec", "gzip", "none", "lz4", "zstd", "snappy", "zip", "")
	pick("message.send.max.retries", num, "0", "x")
	pick("request.required.acks", "0", "1", "-1", "all")
	pick("retry.backoff.ms", num, "x")
	pick("net.maxopenrequests", num, "x")
	pick("idempotent", "1", "0", "true")
	pick("sasl.mechanism", "SCRAM-SHA-256", "SCRAM-SHA-512", "GSSAPI", "PLAIN", "x")
	hosts := []string{}
	for i := r.Intn(3); i >= 0; i-- {
		hosts = append(hosts, fmt.Sprintf("host%d:%d", i, 9000+r.Intn(100)))
	}
	if r.Intn(3) == 0 {
		hosts = hosts[:1]
	}
	user, pass := "", ""
	u := strings.Join(hosts, ",")
	if r.Intn(3) == 0 {
		user, pass = fmt.Sprintf("u%d", r.Intn(10)), []string{"", "secret", "p@ss/w:rd", "100%"}[r.Intn(4)]
		info := url.UserPassword(user, pass).String()
		if pass == "" && r.Intn(2) == 0 {
			info = user
		}
		u = info + "@" + u
	}
	ks := []string{}
	for k, v := range opts {
		ks = append(ks, k+"="+url.QueryEscape(v))
	}
	r.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
	if r.Intn(2) == 0 {
		u = "kafka://" + u
	}
	if r.Intn(2) == 0 {
		u += "/"
	}
	if len(ks) > 0 {
		u += "?" + strings.Join(ks, "&")
	}
	addrs, cf := transports.ParseKafkaURL(u)
	_, def := transports.ParseKafkaURL("kafka://x:1")
	scram := ""
	if cf.Net.SASL.SCRAMClientGeneratorFunc != nil {
		scram = fmt.Sprint(cf.Net.SASL.SCRAMClientGeneratorFunc().(*transports.XDGSCRAMClient).HashGeneratorFcn().Size())
	}
	orDef := func(v, d interface{}) string {
		if v == d {
			return "default"
		}
		return fmt.Sprint(v)
	}
	got := map[string]interface{}{"addrs": addrs, "tls": cf.Net.TLS.Enable, "fetch": orDef(cf.Consumer.Fetch.Default, def.Consumer.Fetch.Default),
		"wait": orDef(cf.Consumer.MaxWaitTime.Milliseconds(), def.Consumer.MaxWaitTime.Milliseconds()), "codec": cf.Producer.Compression.String(), "retries": fmt.Sprint(cf.Producer.Retry.Max),
		"acks": fmt.Sprint(int(cf.Producer.RequiredAcks)), "backoff": orDef(cf.Producer.Retry.Backoff.Milliseconds(), def.Producer.Retry.Backoff.Milliseconds()), "open": orDef(cf.Net.MaxOpenRequests, def.Net.MaxOpenRequests), "idem": cf.Producer.Idempotent,
		"sasl": cf.Net.SASL.Enable, "user": cf.Net.SASL.User, "pass": cf.Net.SASL.Password, "mech": string(cf.Net.SASL.Mechanism), "scram": scram}
	o := map[string]interface{}{}
	for _, k := range []string{"tls", "fetch.default", "max.waittime", "compression.codec", "message.send.max.retries", "request.required.acks", "retry.backoff.ms", "net.maxopenrequests", "idempotent", "sasl.mechanism"} {
		o[k] = opts[k]
	}
	c.Emit(&Trace{Cfg: map[string]interface{}{"kind": "urlopts", "opts": o, "addrs": hosts, "user": user, "pass": pass, "num": num}, Ev: []Event{{"e": "parsed", "got": got}}})
}
