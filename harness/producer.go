package main

import (
	"encoding/hex"
	"fmt"
	"math/rand"
	"sort"
	"time"

	"github.com/hamba/avro"
	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	types "github.com/openrelayxyz/cardinal-types"
)

func init() {
	register("producer", producerCase, 1000, 8, 20*time.Second)
	register("prodgen", prodgenCase, 4000, 8, 20*time.Second)
}

const defaultTopic = "main"

// prodRig calls a real producer and records what it publishes.
type prodRig struct {
	p      *delivery.Producer
	blocks []*blockDef
	ev     []Event
}

func idName(id types.Hash) string { return hex.EncodeToString(id[:6]) }

// topicOf is the ground truth of where a schema sends an item.
func (g *prodRig) topicOf(schema []class, it kv) string {
	for _, c := range schema {
		if c.re == it.Class {
			return c.topic
		}
	}
	return defaultTopic
}

func prodBlockCfg(schema []class, b *blockDef) map[string]interface{} {
	items := []map[string]interface{}{}
	for _, it := range b.Items {
		m := map[string]interface{}{"k": it.K, "v": it.V, "rec": it.Rec, "del": it.Del, "cls": "cnt", "topic": ""}
		switch it.Class {
		case "inline", "sub":
			m["cls"] = it.Class
		default:
			for _, c := range schema {
				if c.re == it.Class {
					m["topic"] = c.topic
				}
			}
		}
		items = append(items, m)
	}
	subs := []map[string]interface{}{}
	for _, s := range b.Subs {
		t := s.Topic
		if t == "" {
			t = defaultTopic
		}
		subs = append(subs, map[string]interface{}{"path": s.Path, "id": idName(s.ID), "topic": t, "zero": s.ID == types.Hash{}})
	}
	return map[string]interface{}{"num": fmt.Sprint(b.Num), "w": b.Weight.String(), "par": b.Parent.Hex(), "items": items, "subs": subs}
}

// project describes published messages in terms of the blocks of the case.
func projectMsgs(blocks []*blockDef, ms []produced) Event {
	hdr := []map[string]interface{}{}
	msgs := [][]string{}
	shdr := [][]interface{}{}
	parts := []map[string]interface{}{}
	items := [][]string{}
	other := 0
	for _, x := range ms {
		key, val := x.m.Key(), x.m.Value()
		bi := -1
		if len(key) >= 33 {
			for i, b := range blocks {
				if b.Hash == types.BytesToHash(key[1:33]) {
					bi = i
				}
			}
		}
		if bi < 0 {
			other++
			continue
		}
		switch key[0] {
		case 0:
			var wb wireBatch
			if err := avro.Unmarshal(batchAvro, val, &wb); err != nil || len(key) != 33 {
				other++
				continue
			}
			recs := [][]string{}
			for k, u := range wb.Updates {
				n := 0
				if u.Delete {
					recs = append(recs, []string{k, "del", encv(u.Value)})
					n++
				}
				if u.Count != 0 {
					recs = append(recs, []string{k, "count", fmt.Sprint(u.Count)})
					n++
				}
				if u.Subbatch != ([32]byte{}) {
					recs = append(recs, []string{k, "sub", idName(types.Hash(u.Subbatch))})
					n++
				}
				if n == 0 || (n > 0 && len(u.Value) > 0 && !u.Delete) {
					recs = append(recs, []string{k, "val", encv(u.Value)})
				}
			}
			sort.Slice(recs, func(i, j int) bool { return fmt.Sprint(recs[i]) < fmt.Sprint(recs[j]) })
			hdr = append(hdr, map[string]interface{}{"topic": x.topic, "b": bi + 1, "num": fmt.Sprint(wb.Num), "w": weightStr(wb.Weight),
				"par": types.Hash(wb.Parent).Hex(), "recs": recs})
		case 3:
			msgs = append(msgs, []string{x.topic, "U", string(key[33:]), encv(val)})
		case 4:
			msgs = append(msgs, []string{x.topic, "D", string(key[33:]), encv(val)})
		case 1, 2:
			if len(key) < 65 {
				other++
				continue
			}
			id := idName(types.BytesToHash(key[33:65]))
			var n int
			if key[0] == 1 {
				if err := avro.Unmarshal(intAvro, val, &n); err != nil || len(key) != 65 {
					other++
					continue
				}
				shdr = append(shdr, []interface{}{x.topic, bi + 1, id, n})
				continue
			}
			var ws wireSub
			if avro.Unmarshal(intAvro, key[65:], &n) != nil || avro.Unmarshal(subAvro, val, &ws) != nil {
				other++
				continue
			}
			parts = append(parts, map[string]interface{}{"topic": x.topic, "b": bi + 1, "id": id, "idx": n})
			for _, d := range ws.Delete {
				items = append(items, []string{"D", d, ""})
			}
			ks := []string{}
			for k := range ws.Updates {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				items = append(items, []string{"U", k, encv(ws.Updates[k])})
			}
		default:
			other++
		}
	}
	return Event{"hdr": hdr, "msgs": msgs, "shdr": shdr, "parts": parts, "items": items, "other": other}
}

func weightStr(b []byte) string { return bigOf(b).String() }

func errName(err error) string {
	switch err {
	case nil:
		return "ok"
	case delivery.ErrInvalidBatch:
		return "invalid"
	case delivery.ErrPrefixConflict:
		return "conflict"
	case delivery.ErrUnknownBatch:
		return "unknown"
	case delivery.ErrPrefixOverlap:
		return "overlap"
	}
	return "other"
}

func (g *prodRig) add(b int) {
	d := g.blocks[b-1]
	m, err := g.p.AddBlock(d.Num, d.Hash, d.Parent, d.Weight, d.updates(), d.deletes(), d.batches())
	e := projectMsgs(g.blocks, flatten(m))
	e["e"], e["b"], e["err"] = "add", b, errName(err)
	g.ev = append(g.ev, e)
}
func (g *prodRig) send(id types.Hash) {
	var del []string
	upd := map[string][]byte{}
	for _, b := range g.blocks {
		for i := range b.Subs {
			if b.Subs[i].ID == id {
				del, upd = b.sub(i)
			}
		}
	}
	m, err := g.p.SendBatch(id, del, upd)
	e := projectMsgs(g.blocks, flatten(m))
	e["e"], e["id"], e["err"] = "send", idName(id), errName(err)
	g.ev = append(g.ev, e)
}
func (g *prodRig) reorg(r *rand.Rand) {
	n := int64(r.Intn(1 << 20))
	h := hashOf("reorg", r.Intn(1000))
	kinds, nums, hok := []string{}, []string{}, true
	for _, m := range []delivery.Message{g.p.Reorg(n, h), g.p.ReorgDone(n, h)} {
		var v int
		avro.Unmarshal(intAvro, m.Value(), &v)
		kinds = append(kinds, map[byte]string{5: "reorg", 6: "done"}[m.Key()[0]])
		nums = append(nums, fmt.Sprint(v))
		hok = hok && len(m.Key()) == 33 && types.BytesToHash(m.Key()[1:]) == h
	}
	g.ev = append(g.ev, Event{"e": "reorg", "num": fmt.Sprint(n), "nums": nums, "kinds": kinds, "hok": hok})
}

func randSchema(r *rand.Rand) []class {
	cs := append([]class{}, classes...)
	r.Shuffle(len(cs), func(i, j int) { cs[i], cs[j] = cs[j], cs[i] })
	return cs[:1+r.Intn(len(cs))]
}

// newEvent asks for a producer with a schema that may overlap.
func newEvent(r *rand.Rand) Event {
	pool := []string{"a/", "a/b/", "b/", "b/c", "ab/", "c/[^/]+/", "c/[^/]+/d/", "d", "d/"}
	r.Shuffle(len(pool), func(i, j int) { pool[i], pool[j] = pool[j], pool[i] })
	n := 1 + r.Intn(4)
	m := map[string]string{}
	for _, s := range pool[:n] {
		m[s] = "t"
	}
	_, err := delivery.NewProducer(defaultTopic, m)
	return Event{"e": "new", "schema": pool[:n], "err": errName(err)}
}

// spoil makes a block unacceptable (or leaves it alone).
func spoil(r *rand.Rand, b *blockDef, kind int) {
	if len(b.Subs) == 0 {
		return
	}
	s := &b.Subs[r.Intn(len(b.Subs))]
	old := s.Path
	switch kind {
	case 1:
		s.ID = types.Hash{}
		return
	case 2, 3:
		for _, i := range r.Perm(len(b.Items)) {
			it := b.Items[i]
			if kind == 2 && it.Class == "inline" || kind == 3 && it.Class != "inline" && it.Class != "sub" {
				s.Path = it.Rec
				break
			}
		}
	}
	for i := range b.Items {
		if b.Items[i].Class == "sub" && b.Items[i].Rec == old {
			b.Items[i].Rec = s.Path
		}
	}
}

func (g *prodRig) finish(c *Ctx, schema []class) {
	bl := []map[string]interface{}{}
	for _, b := range g.blocks {
		bl = append(bl, prodBlockCfg(schema, b))
	}
	c.Emit(&Trace{Cfg: map[string]interface{}{"blocks": bl, "default": defaultTopic}, Ev: g.ev})
}

func producerCase(c *Ctx) {
	r := c.Rng
	schema := randSchema(r)
	p, err := delivery.NewProducer(defaultTopic, schemaMap(schema))
	if err != nil {
		failed("%v", err)
	}
	g := &prodRig{p: p}
	n := 1 + r.Intn(4)
	for i := 0; i < n; i++ {
		b := genBlock(r, i, i-1, int64(r.Intn(1<<40)), schema, r.Intn(10), r.Intn(4), 5)
		if r.Intn(100) == 0 {
			b = genBlock(r, i, i-1, int64(r.Intn(1<<40)), schema, r.Intn(160), r.Intn(4), 160)
		}
		if r.Intn(3) == 0 {
			spoil(r, b, 1+r.Intn(3))
		}
		g.blocks = append(g.blocks, b)
	}
	ids := []types.Hash{{}, hashOf("none", 1)}
	for _, b := range g.blocks {
		for _, s := range b.Subs {
			ids = append(ids, s.ID)
		}
	}
	for k := 2 + r.Intn(14); k > 0; k-- {
		switch x := r.Intn(20); {
		case x < 7:
			g.add(1 + r.Intn(n))
		case x < 18:
			g.send(ids[r.Intn(len(ids))])
		case x == 18:
			g.reorg(r)
		default:
			g.ev = append(g.ev, newEvent(r))
		}
	}
	g.finish(c, schema)
}

// prodgenCase replays a sequence of calls enumerated by TLC from ProducerMC.
func prodgenCase(c *Ctx) {
	r := c.Rng
	schema := append([]class{}, classes[0], classes[1+r.Intn(len(classes)-1)])
	p, err := delivery.NewProducer(defaultTopic, schemaMap(schema))
	if err != nil {
		failed("%v", err)
	}
	g := &prodRig{p: p}
	for i := 0; i < 3; i++ {
		b := genBlock(r, i, i-1, int64(100+i), schema, 6, 0, 0)
		b.Items = append(b.Items, kv{K: "x", V: "01", Rec: "x", Class: "inline"}, kv{K: "acct/k", V: "", Rec: "acct/", Class: "acct/"})
		seen := map[string]bool{}
		uniq := []kv{}
		for _, it := range b.Items {
			if !seen[it.K] {
				seen[it.K] = true
				uniq = append(uniq, it)
			}
		}
		b.Items = uniq
		for j, p := range []string{"state/", "q/"} {
			b.Subs = append(b.Subs, subdef{Path: p, ID: hashOf("sub", i*16+j+1)})
			b.Items = append(b.Items, kv{K: p + "s", V: "07", Rec: p, Class: "sub", Sub: j})
			if r.Intn(2) == 0 {
				b.Items = append(b.Items, kv{K: p + "d", Rec: p, Class: "sub", Sub: j, Del: true})
			}
		}
		g.blocks = append(g.blocks, b)
	}
	g.blocks[1].Subs[1].ID = types.Hash{}
	g.blocks[2].Subs[1].Path = []string{"x", "acct/"}[r.Intn(2)]
	if g.blocks[2].Subs[1].Path == "acct/" {
		g.blocks[2].Subs[1].Topic = "tA"
	}
	for i, it := range g.blocks[2].Items {
		if it.Class == "sub" && it.Sub == 1 {
			g.blocks[2].Items[i].Rec = g.blocks[2].Subs[1].Path
		}
	}
	ids := map[string]types.Hash{"i1": g.blocks[0].Subs[0].ID, "i2": g.blocks[0].Subs[1].ID, "i3": g.blocks[1].Subs[0].ID,
		"i4": g.blocks[2].Subs[0].ID, "no": hashOf("none", 1)}
	for _, x := range c.Sched["calls"].([]interface{}) {
		y := x.([]interface{})
		if y[0] == "add" {
			var b int
			fmt.Sscan(y[1].(string), &b)
			g.add(b)
		} else {
			g.send(ids[y[1].(string)])
		}
	}
	g.finish(c, schema)
}
