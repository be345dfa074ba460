package main

import (
	"encoding/binary"
	"fmt"
	"hash/crc32"
	"io"
	"net"
	"os"
	"sync"
	"sync/atomic"
	"time"
)

// kbroker is an in-process Kafka broker: a partitioned log behind the part of
// the Kafka protocol that sarama uses.  How much of a partition is visible can
// be controlled, so that a case decides in which order consumers see records.
type kbroker struct {
	ln      net.Listener
	mu      sync.Mutex
	topics  map[string]*ktopic
	conns   map[net.Conn]bool
	fetches []kfetch         // first fetch of each (connection, partition)
	seen    map[string]int64 // highest fetch offset per topic:part over all connections
	errs    map[string]int16 // topic -> error code returned to produce requests
	nerrs   map[string]int   // how many times (-1: always)
	created []string
	closed  bool
	change  chan struct{}
}
type ktopic struct {
	parts []*kpart
	max   int // the largest batch the topic takes (0: any)
}
type krec struct {
	key, value []byte
	ts         int64
}
type kpart struct {
	start int64 // first offset still on the log
	recs  []krec
	limit int64 // visible records; -1: all
	gate  int64 // records that are handed out (the broker is slow); -1: all
}

// served returns how far records are handed out now.
func (p *kpart) served() int64 {
	if p.gate >= 0 && p.gate < p.visible() {
		return p.gate
	}
	return p.visible()
}

type kfetch struct {
	Conn   string
	Topic  string
	Part   int32
	Offset int64
}

func (p *kpart) end() int64 { return p.start + int64(len(p.recs)) }
func (p *kpart) visible() int64 {
	if p.limit >= 0 && p.limit < p.end() {
		return p.limit
	}
	return p.end()
}

func newBroker() *kbroker {
	ln, err := net.Listen("tcp", loopback())
	if err != nil {
		infra("%v", err)
	}
	b := &kbroker{ln: ln, topics: map[string]*ktopic{}, conns: map[net.Conn]bool{}, seen: map[string]int64{},
		errs: map[string]int16{}, nerrs: map[string]int{}, change: make(chan struct{})}
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			b.mu.Lock()
			if b.closed {
				c.Close()
			} else {
				b.conns[c] = true
			}
			b.mu.Unlock()
			go b.serve(c)
		}
	}()
	return b
}
func (b *kbroker) url(opts string) string {
	u := "kafka://" + b.ln.Addr().String() + "?compression.codec=none&max.waittime=20"
	if opts != "" {
		u += "&" + opts
	}
	return u
}
func (b *kbroker) close() {
	b.mu.Lock()
	b.closed = true
	b.ln.Close()
	for c := range b.conns {
		c.Close()
	}
	b.mu.Unlock()
}

// dropConns breaks every connection.
func (b *kbroker) dropConns() {
	b.mu.Lock()
	for c := range b.conns {
		c.Close()
	}
	b.mu.Unlock()
}
func (b *kbroker) wake() {
	close(b.change)
	b.change = make(chan struct{})
}
func (b *kbroker) topic(name string, parts int) {
	b.mu.Lock()
	defer b.mu.Unlock()
	if _, ok := b.topics[name]; ok {
		return
	}
	t := &ktopic{}
	for i := 0; i < parts; i++ {
		t.parts = append(t.parts, &kpart{limit: -1, gate: -1})
	}
	b.topics[name] = t
}
func (b *kbroker) append(topic string, part int, key, value []byte, ts int64) int64 {
	b.mu.Lock()
	defer b.mu.Unlock()
	p := b.topics[topic].parts[part]
	p.recs = append(p.recs, krec{key, value, ts})
	b.wake()
	return p.end() - 1
}
func (b *kbroker) setLimit(topic string, part int, limit int64) {
	b.mu.Lock()
	defer b.mu.Unlock()
	b.topics[topic].parts[part].limit = limit
	b.wake()
}
func (b *kbroker) setGate(topic string, part int, gate int64) {
	b.mu.Lock()
	defer b.mu.Unlock()
	b.topics[topic].parts[part].gate = gate
	b.wake()
}
func (b *kbroker) truncate(topic string, part int, start int64) {
	b.mu.Lock()
	defer b.mu.Unlock()
	p := b.topics[topic].parts[part]
	if start > p.end() {
		start = p.end()
	}
	if start > p.start {
		p.recs = append([]krec{}, p.recs[start-p.start:]...)
		p.start = start
	}
}
func (b *kbroker) records(topic string, part int) []krec {
	b.mu.Lock()
	defer b.mu.Unlock()
	t := b.topics[topic]
	if t == nil || part >= len(t.parts) {
		return nil
	}
	return append([]krec{}, t.parts[part].recs...)
}
func (b *kbroker) nparts(topic string) int {
	b.mu.Lock()
	defer b.mu.Unlock()
	if t := b.topics[topic]; t != nil {
		return len(t.parts)
	}
	return 0
}
func (b *kbroker) end(topic string, part int) int64 {
	b.mu.Lock()
	defer b.mu.Unlock()
	return b.topics[topic].parts[part].end()
}
func (b *kbroker) total() int {
	b.mu.Lock()
	defer b.mu.Unlock()
	n := 0
	for _, t := range b.topics {
		for _, p := range t.parts {
			n += len(p.recs)
		}
	}
	return n
}

// fetched returns the highest offset anybody asked for on a partition.
func (b *kbroker) fetched(topic string, part int) int64 {
	b.mu.Lock()
	defer b.mu.Unlock()
	if v, ok := b.seen[fmt.Sprintf("%s:%d", topic, part)]; ok {
		return v
	}
	return -1
}
func (b *kbroker) resetSeen() {
	b.mu.Lock()
	defer b.mu.Unlock()
	b.seen = map[string]int64{}
	b.fetches = nil
}

// ---- protocol ---------------------------------------------------------------

type kr struct {
	b   []byte
	off int
	bad bool
}

func (r *kr) take(n int) []byte {
	if n < 0 || r.off+n > len(r.b) {
		r.bad = true
		return make([]byte, 8)
	}
	x := r.b[r.off : r.off+n]
	r.off += n
	return x
}
func (r *kr) i8() int8   { return int8(r.take(1)[0]) }
func (r *kr) i16() int16 { return int16(binary.BigEndian.Uint16(r.take(2))) }
func (r *kr) i32() int32 { return int32(binary.BigEndian.Uint32(r.take(4))) }
func (r *kr) i64() int64 { return int64(binary.BigEndian.Uint64(r.take(8))) }
func (r *kr) str() string {
	n := int(r.i16())
	if n < 0 {
		return ""
	}
	return string(r.take(n))
}
func (r *kr) varint() int64 {
	v, n := binary.Varint(r.b[r.off:])
	if n <= 0 {
		r.bad = true
		return 0
	}
	r.off += n
	return v
}

type kw struct{ b []byte }

func (w *kw) i8(v int8)   { w.b = append(w.b, byte(v)) }
func (w *kw) i16(v int16) { w.b = append(w.b, byte(v>>8), byte(v)) }
func (w *kw) i32(v int32) {
	var t [4]byte
	binary.BigEndian.PutUint32(t[:], uint32(v))
	w.b = append(w.b, t[:]...)
}
func (w *kw) i64(v int64) {
	var t [8]byte
	binary.BigEndian.PutUint64(t[:], uint64(v))
	w.b = append(w.b, t[:]...)
}
func (w *kw) str(s string) { w.i16(int16(len(s))); w.b = append(w.b, s...) }
func (w *kw) varint(v int64) {
	var t [binary.MaxVarintLen64]byte
	n := binary.PutVarint(t[:], v)
	w.b = append(w.b, t[:n]...)
}
func (w *kw) vbytes(b []byte) {
	if b == nil {
		w.varint(-1)
		return
	}
	w.varint(int64(len(b)))
	w.b = append(w.b, b...)
}

var castagnoli = crc32.MakeTable(crc32.Castagnoli)

func encodeBatch(base int64, recs []krec) []byte {
	first, max := recs[0].ts, recs[0].ts
	for _, r := range recs {
		if r.ts > max {
			max = r.ts
		}
	}
	body := &kw{}
	body.i16(0) // attributes
	body.i32(int32(len(recs) - 1))
	body.i64(first)
	body.i64(max)
	body.i64(-1)
	body.i16(-1)
	body.i32(-1)
	body.i32(int32(len(recs)))
	for i, r := range recs {
		x := &kw{}
		x.i8(0)
		x.varint(r.ts - first)
		x.varint(int64(i))
		x.vbytes(r.key)
		x.vbytes(r.value)
		x.varint(0)
		body.varint(int64(len(x.b)))
		body.b = append(body.b, x.b...)
	}
	w := &kw{}
	w.i64(base)
	w.i32(int32(len(body.b) + 9))
	w.i32(0) // leader epoch
	w.i8(2)
	w.i32(int32(crc32.Checksum(body.b, castagnoli)))
	w.b = append(w.b, body.b...)
	return w.b
}

func decodeBatches(b []byte) ([]krec, error) {
	res := []krec{}
	r := &kr{b: b}
	for r.off < len(b) {
		r.i64()
		n := int(r.i32())
		end := r.off + n
		r.i32()
		if v := r.i8(); v != 2 {
			return nil, fmt.Errorf("record batch version %d", v)
		}
		r.i32()
		if attr := r.i16(); attr&7 != 0 {
			return nil, fmt.Errorf("compressed records")
		}
		r.i32()
		first := r.i64()
		r.i64()
		r.i64()
		r.i16()
		r.i32()
		cnt := int(r.i32())
		for i := 0; i < cnt; i++ {
			r.varint()
			r.i8()
			ts := first + r.varint()
			r.varint()
			get := func() []byte {
				n := r.varint()
				if n < 0 {
					return nil
				}
				return append([]byte{}, r.take(int(n))...)
			}
			k := get()
			v := get()
			for h := r.varint(); h > 0; h-- {
				r.take(int(r.varint()))
				if n := r.varint(); n > 0 {
					r.take(int(n))
				}
			}
			res = append(res, krec{k, v, ts})
		}
		if r.bad || r.off != end {
			return nil, fmt.Errorf("malformed record batch")
		}
	}
	return res, nil
}

func (b *kbroker) serve(c net.Conn) {
	defer func() {
		c.Close()
		b.mu.Lock()
		delete(b.conns, c)
		b.mu.Unlock()
	}()
	firstSeen := map[string]bool{}
	for {
		var hdr [4]byte
		if _, err := io.ReadFull(c, hdr[:]); err != nil {
			return
		}
		n := int(binary.BigEndian.Uint32(hdr[:]))
		if n < 8 || n > 1<<27 {
			return
		}
		buf := make([]byte, n)
		if _, err := io.ReadFull(c, buf); err != nil {
			return
		}
		r := &kr{b: buf}
		key, ver, corr := r.i16(), r.i16(), r.i32()
		r.str() // client id
		w := &kw{}
		reply := true
		switch key {
		case 0:
			reply = b.produce(r, w, ver)
		case 1:
			b.fetch(r, w, ver, c, firstSeen)
		case 2:
			b.offsets(r, w, ver)
		case 3:
			b.metadata(r, w, ver)
		case 19:
			b.create(r, w, ver)
		default:
			infra("kafka request %d version %d is not supported", key, ver)
		}
		if r.bad {
			infra("malformed kafka request %d version %d", key, ver)
		}
		if !reply {
			continue
		}
		out := &kw{}
		out.i32(int32(len(w.b) + 4))
		out.i32(corr)
		out.b = append(out.b, w.b...)
		if _, err := c.Write(out.b); err != nil {
			return
		}
	}
}

func (b *kbroker) metadata(r *kr, w *kw, ver int16) {
	names := []string{}
	n := r.i32()
	for i := int32(0); i < n; i++ {
		names = append(names, r.str())
	}
	if ver > 3 {
		r.i8()
	}
	if ver > 5 {
		infra("metadata version %d", ver)
	}
	b.mu.Lock()
	defer b.mu.Unlock()
	if n < 0 || (ver == 0 && n == 0) {
		for t := range b.topics {
			names = append(names, t)
		}
	}
	host, portS, _ := net.SplitHostPort(b.ln.Addr().String())
	var port int32
	fmt.Sscan(portS, &port)
	if ver >= 3 {
		w.i32(0)
	}
	w.i32(1)
	w.i32(1)
	w.str(host)
	w.i32(port)
	if ver >= 1 {
		w.i16(-1)
	}
	if ver >= 2 {
		w.i16(-1)
	}
	if ver >= 1 {
		w.i32(1)
	}
	w.i32(int32(len(names)))
	for _, t := range names {
		kt, ok := b.topics[t]
		if ok {
			w.i16(0)
		} else {
			w.i16(3)
		}
		w.str(t)
		if ver >= 1 {
			w.i8(0)
		}
		if !ok {
			w.i32(0)
			continue
		}
		w.i32(int32(len(kt.parts)))
		for i := range kt.parts {
			w.i16(0)
			w.i32(int32(i))
			w.i32(1)
			w.i32(1)
			w.i32(1)
			w.i32(1)
			w.i32(1)
			if ver >= 5 {
				w.i32(0)
			}
		}
	}
}

func (b *kbroker) part(topic string, part int32) *kpart {
	t := b.topics[topic]
	if t == nil || int(part) >= len(t.parts) || part < 0 {
		return nil
	}
	return t.parts[part]
}

func (b *kbroker) offsets(r *kr, w *kw, ver int16) {
	if ver != 1 {
		infra("list offsets version %d", ver)
	}
	r.i32()
	nt := r.i32()
	w.i32(nt)
	b.mu.Lock()
	defer b.mu.Unlock()
	for ; nt > 0; nt-- {
		t := r.str()
		w.str(t)
		np := r.i32()
		w.i32(np)
		for ; np > 0; np-- {
			id, tm := r.i32(), r.i64()
			w.i32(id)
			p := b.part(t, id)
			if p == nil {
				w.i16(3)
				w.i64(-1)
				w.i64(-1)
				continue
			}
			w.i16(0)
			ts, off := int64(-1), int64(-1)
			switch tm {
			case -1:
				off = p.visible()
			case -2:
				off = p.start
			default:
				for i, x := range p.recs {
					if p.start+int64(i) < p.visible() && x.ts >= tm {
						ts, off = x.ts, p.start+int64(i)
						break
					}
				}
			}
			w.i64(ts)
			w.i64(off)
		}
	}
}

func (b *kbroker) fetch(r *kr, w *kw, ver int16, c net.Conn, firstSeen map[string]bool) {
	if ver != 11 {
		infra("fetch version %d", ver)
	}
	r.i32()
	maxwait := r.i32()
	r.i32()
	r.i32()
	r.i8()
	r.i32()
	r.i32()
	type req struct {
		t   string
		p   int32
		off int64
	}
	reqs := []req{}
	order := []string{}
	for nt := r.i32(); nt > 0; nt-- {
		t := r.str()
		order = append(order, t)
		for np := r.i32(); np > 0; np-- {
			p := r.i32()
			r.i32()
			off := r.i64()
			r.i64()
			r.i32()
			reqs = append(reqs, req{t, p, off})
		}
	}
	for nf := r.i32(); nf > 0; nf-- {
		r.str()
		for n := r.i32(); n > 0; n-- {
			r.i32()
		}
	}
	r.str()
	deadline := time.Now().Add(time.Duration(maxwait) * time.Millisecond)
	b.mu.Lock()
	for _, q := range reqs {
		k := fmt.Sprintf("%s:%d", q.t, q.p)
		if !firstSeen[k] {
			firstSeen[k] = true
			b.fetches = append(b.fetches, kfetch{c.RemoteAddr().String(), q.t, q.p, q.off})
		}
		if v, ok := b.seen[k]; !ok || q.off > v {
			b.seen[k] = q.off
		}
	}
	for {
		any := false
		for _, q := range reqs {
			if p := b.part(q.t, q.p); p == nil || q.off < p.start || q.off > p.end() || q.off < p.served() {
				any = true
			}
		}
		left := time.Until(deadline)
		if any || left <= 0 || b.closed {
			break
		}
		ch := b.change
		b.mu.Unlock()
		select {
		case <-ch:
		case <-time.After(left):
		}
		b.mu.Lock()
	}
	defer b.mu.Unlock()
	w.i32(0)
	w.i16(0)
	w.i32(0)
	w.i32(int32(len(order)))
	for _, t := range order {
		w.str(t)
		n := int32(0)
		for _, q := range reqs {
			if q.t == t {
				n++
			}
		}
		w.i32(n)
		for _, q := range reqs {
			if q.t != t {
				continue
			}
			w.i32(q.p)
			p := b.part(t, q.p)
			var data []byte
			code := int16(0)
			hwm, start := int64(-1), int64(-1)
			if p == nil {
				code = 3
			} else {
				hwm, start = p.visible(), p.start
				if q.off < p.start || q.off > p.end() {
					code = 1
				} else if q.off < p.served() {
					recs := p.recs[q.off-p.start : p.served()-p.start]
					size, k := 0, 0
					for k < len(recs) && (k == 0 || size < 200000) && k < 500 {
						size += len(recs[k].key) + len(recs[k].value)
						k++
					}
					data = encodeBatch(q.off, recs[:k])
				}
			}
			w.i16(code)
			w.i64(hwm)
			w.i64(hwm)
			w.i64(start)
			w.i32(-1)
			w.i32(-1)
			w.i32(int32(len(data)))
			w.b = append(w.b, data...)
		}
	}
}

func (b *kbroker) produce(r *kr, w *kw, ver int16) bool {
	if ver < 3 || ver > 7 {
		infra("produce version %d", ver)
	}
	r.str()
	acks := r.i16()
	r.i32()
	nt := r.i32()
	w.i32(nt)
	b.mu.Lock()
	defer b.mu.Unlock()
	for ; nt > 0; nt-- {
		t := r.str()
		w.str(t)
		np := r.i32()
		w.i32(np)
		for ; np > 0; np-- {
			id := r.i32()
			data := r.take(int(r.i32()))
			w.i32(id)
			p := b.part(t, id)
			code, off := int16(0), int64(-1)
			if n := b.nerrs[t]; n != 0 {
				code = b.errs[t]
				if n > 0 {
					b.nerrs[t]--
				}
			} else if p == nil {
				code = 3
			} else if max := b.topics[t].max; max > 0 && len(data) > max {
				code = 10 // message too large
			} else {
				recs, err := decodeBatches(data)
				if err != nil {
					infra("produce: %v", err)
				}
				off = p.end()
				p.recs = append(p.recs, recs...)
				b.wake()
			}
			w.i16(code)
			w.i64(off)
			w.i64(-1)
			if ver >= 5 {
				w.i64(0)
			}
		}
	}
	w.i32(0)
	return acks != 0
}

func (b *kbroker) create(r *kr, w *kw, ver int16) {
	if ver != 0 {
		infra("create topics version %d", ver)
	}
	n := r.i32()
	w.i32(n)
	for ; n > 0; n-- {
		name := r.str()
		parts := r.i32()
		r.i16()
		for a := r.i32(); a > 0; a-- {
			r.i32()
			for x := r.i32(); x > 0; x-- {
				r.i32()
			}
		}
		max := 1048588 // Kafka's default
		for a := r.i32(); a > 0; a-- {
			if k, v := r.str(), r.str(); k == "max.message.bytes" {
				fmt.Sscanf(v, "%d", &max)
			}
		}
		w.str(name)
		code := int16(0)
		b.mu.Lock()
		_, have := b.topics[name]
		if have {
			code = 36
		}
		b.created = append(b.created, name)
		b.mu.Unlock()
		if b.topic(name, int(parts)); !have {
			b.mu.Lock()
			b.topics[name].max = max
			b.mu.Unlock()
		}
		w.i16(code)
	}
	r.i32()
}

// poll waits until f holds.
func poll(d time.Duration, f func() bool) bool {
	end := time.Now().Add(d)
	for step := 200 * time.Microsecond; ; {
		if f() {
			return true
		}
		if time.Now().After(end) {
			return false
		}
		time.Sleep(step)
		if step < 5*time.Millisecond {
			step += step / 2
		}
	}
}

func partKey(topic string, part int) string { return fmt.Sprintf("%s:%d", topic, part) }

// topicsSnapshot returns the number of partitions of every topic.
func (b *kbroker) topicsSnapshot() map[string]int {
	b.mu.Lock()
	defer b.mu.Unlock()
	m := map[string]int{}
	for n, t := range b.topics {
		m[n] = len(t.parts)
	}
	return m
}

// from returns the first offset and the records of a partition.
func (b *kbroker) from(topic string, part int) (int64, []krec) {
	b.mu.Lock()
	defer b.mu.Unlock()
	p := b.topics[topic].parts[part]
	return p.start, append([]krec{}, p.recs...)
}

var loopbacks = uint32(time.Now().UnixNano()/1000) ^ uint32(os.Getpid())<<12

// loopback is an address to listen on that nobody had before: what is left of
// earlier cases keeps trying to connect to where their servers were.
func loopback() string {
	n := atomic.AddUint32(&loopbacks, 1)
	return fmt.Sprintf("127.%d.%d.%d:0", 1+n>>16%250, n>>8&255, n&255)
}
