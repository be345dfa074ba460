package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"math/big"
	"math/rand"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/hamba/avro"
	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	types "github.com/openrelayxyz/cardinal-types"
)

// ---- block contents -------------------------------------------------------

// class is a family of keys that share a record prefix. re is the schema
// expression; make returns a record prefix; keys are record + suffix.
type class struct {
	re, topic string
	rec       func(r *rand.Rand) string
	exact     bool // the key is the record itself
}

var classes = []class{
	{"acct/", "tA", func(r *rand.Rand) string { return "acct/" }, false},
	{"stor/[^/]+/data/", "tB", func(r *rand.Rand) string { return fmt.Sprintf("stor/%x/data/", r.Intn(3)) }, false},
	{"code/[0-9a-f]+/", "tC", func(r *rand.Rand) string { return fmt.Sprintf("code/%x/", r.Intn(3)) }, false},
	{"stat/thing", "tA", func(r *rand.Rand) string { return "stat/thing" }, true},
	{"^rcpt/", "tD", func(r *rand.Rand) string { return "rcpt/" }, false},
	{"/root/", "tC", func(r *rand.Rand) string { return "/root/" }, false},
}

// kv is one item of a block.
type kv struct {
	K, V, Rec string
	Del       bool
	Class     string // schema class, "inline" or "sub"
	Sub       int    // subbatch index (Class "sub")
}

type subdef struct {
	Path  string
	ID    types.Hash
	Topic string
	Nonce int
}

type blockDef struct {
	ID     int
	Num    int64
	Weight *big.Int
	Hash   types.Hash
	Parent types.Hash
	ParID  int
	Items  []kv
	Subs   []subdef
}

func hashOf(tag string, i int) types.Hash {
	t := int64(0)
	for _, c := range tag {
		t = t*131 + int64(c)
	}
	r := rand.New(rand.NewSource(int64(i)*2654435761 + t))
	var h types.Hash
	r.Read(h[:])
	return h
}

func (b *blockDef) updates() map[string][]byte {
	m := map[string][]byte{}
	for _, it := range b.Items {
		if it.Class != "sub" && !it.Del {
			v := decv(it.V)
			m[it.K] = v
		}
	}
	return m
}
func (b *blockDef) deletes() map[string]struct{} {
	m := map[string]struct{}{}
	for _, it := range b.Items {
		if it.Class != "sub" && it.Del {
			m[it.K] = struct{}{}
		}
	}
	return m
}
func (b *blockDef) batches() map[string]types.Hash {
	m := map[string]types.Hash{}
	for _, s := range b.Subs {
		m[s.Path] = s.ID
	}
	return m
}
func (b *blockDef) sub(i int) (del []string, upd map[string][]byte) {
	upd = map[string][]byte{}
	for _, it := range b.Items {
		if it.Class == "sub" && it.Sub == i {
			if it.Del {
				del = append(del, it.K)
			} else {
				v := decv(it.V)
				upd[it.K] = v
			}
		}
	}
	return
}

func hexv(r *rand.Rand) string {
	switch r.Intn(5) {
	case 0:
		return ""
	case 1:
		return "00"
	}
	if r.Intn(60) == 0 {
		return longv([]int{64, 128, 300, 5000, 70000}[r.Intn(5)] + r.Intn(3))
	}
	b := make([]byte, 1+r.Intn(3))
	r.Read(b)
	return hex.EncodeToString(b)
}

// Values are written in hex, long ones as @length if they are made by longv.
func longv(n int) string { return fmt.Sprintf("@%d", n) }
func decv(s string) []byte {
	if strings.HasPrefix(s, "@") {
		n, err := strconv.Atoi(s[1:])
		if err != nil {
			infra("value %q", s)
		}
		b := make([]byte, n)
		x := uint32(n)*2654435761 + 1
		for i := range b {
			x = x*1664525 + 1013904223
			b[i] = byte(x >> 24)
		}
		return b
	}
	b, err := hex.DecodeString(s)
	if err != nil {
		infra("value %q", s)
	}
	return b
}
func encv(b []byte) string {
	if len(b) < 64 {
		return hex.EncodeToString(b)
	}
	if s := longv(len(b)); bytes.Equal(decv(s), b) {
		return s
	}
	h := sha256.Sum256(b)
	return fmt.Sprintf("%d bytes %x", len(b), h[:8])
}

func randWeight(r *rand.Rand) *big.Int {
	switch r.Intn(6) {
	case 0:
		return big.NewInt(0)
	case 1:
		w := new(big.Int).Lsh(big.NewInt(1), uint(60+r.Intn(196)))
		return w.Add(w, big.NewInt(int64(r.Intn(1000))))
	}
	return big.NewInt(int64(r.Intn(1 << 30)))
}

// genBlock makes a block with n plain items and the given number of subbatches.
func genBlock(r *rand.Rand, id, parent int, num int64, schema []class, nitems, nsubs, subitems int) *blockDef {
	b := &blockDef{ID: id, Num: num, Weight: randWeight(r), Hash: hashOf("blk", id+1), ParID: parent}
	b.Parent = hashOf("blk", parent+1)
	used := map[string]bool{}
	add := func(it kv) {
		if used[it.K] {
			return
		}
		for i := range b.Subs {
			if b.Subs[i].Path == it.Rec && it.Class != "sub" {
				return
			}
		}
		used[it.K] = true
		b.Items = append(b.Items, it)
	}
	paths := []string{"state/", "deep/sub/", "q/", "acct/sub/"}
	r.Shuffle(len(paths), func(i, j int) { paths[i], paths[j] = paths[j], paths[i] })
	for i := 0; i < nsubs; i++ {
		topics := ""
		p := paths[i%len(paths)]
		for _, c := range schema {
			if m := regexp.MustCompile("^" + strings.TrimPrefix(c.re, "^")).FindString(p); m != "" {
				topics = c.topic
			}
		}
		b.Subs = append(b.Subs, subdef{Path: p, ID: hashOf("sub", id*16+i+1), Topic: topics})
	}
	for i := 0; i < nitems; i++ {
		it := kv{Del: r.Intn(4) == 0}
		if !it.Del {
			it.V = hexv(r)
		}
		c := r.Intn(len(schema) + 1)
		if c == len(schema) {
			it.Class = "inline"
			it.K = []string{"misc/", "x", "other/y/", "z", "misc/acct/", "x/stor/1/data/", "sub/root/", "x[*", "é/"}[r.Intn(9)] + fmt.Sprintf("%d", i)
			it.Rec = it.K
		} else {
			it.Class = schema[c].re
			it.Rec = schema[c].rec(r)
			it.K = it.Rec
			if !schema[c].exact {
				it.K += []string{"", "a/", "a/b/", "n", "p.(+", "s p/%d"}[r.Intn(6)] + fmt.Sprintf("k%d", i)
			}
		}
		add(it)
	}
	for i := range b.Subs {
		n := r.Intn(subitems + 1)
		for j := 0; j < n; j++ {
			it := kv{Class: "sub", Sub: i, Rec: b.Subs[i].Path, K: b.Subs[i].Path + fmt.Sprintf("s%d/%d", i, j), Del: r.Intn(4) == 0}
			if !it.Del {
				it.V = hexv(r)
			}
			add(it)
		}
	}
	return b
}

// enlarge makes one value of every n-th block very long.
func (b *blockDef) enlarge(r *rand.Rand, n int) {
	if r.Intn(n) > 0 || len(b.Items) == 0 {
		return
	}
	if it := &b.Items[r.Intn(len(b.Items))]; !it.Del {
		it.V = longv([]int{300000, 1100000, 3000000}[r.Intn(3)] + r.Intn(1000))
	}
}

// ---- wire messages --------------------------------------------------------

// wire is a message as the transport would carry it.
type wire struct {
	key, value []byte
	src        string
	off        int64
}

func (w *wire) Key() []byte     { return w.key }
func (w *wire) Value() []byte   { return w.value }
func (w *wire) Offset() int64   { return w.off }
func (w *wire) Source() string  { return w.src }
func (w *wire) Time() time.Time { return time.Unix(1600000000, 0) }

var intAvro = avro.MustParse("int")

// mid names a message: what it is, independent of who sent it.
type mid struct {
	T   string `json:"t"`   // H header, U/D counted update/delete, SH/SM subbatch header/message, O other
	Rec string `json:"rec"` // record the message belongs to
	K   string `json:"k"`   // path of a counted message, index of a subbatch message
}

// identify decodes a message key of block b according to SPEC.md.
func identify(b *blockDef, key []byte) mid {
	if len(key) < 33 || types.BytesToHash(key[1:33]) != b.Hash {
		return mid{T: "O", K: hex.EncodeToString(key)}
	}
	rest := key[33:]
	switch key[0] {
	case 0:
		if len(rest) != 0 {
			return mid{T: "O", K: hex.EncodeToString(key)}
		}
		return mid{T: "H"}
	case 1, 2:
		if len(rest) < 32 {
			return mid{T: "O", K: hex.EncodeToString(key)}
		}
		id := types.BytesToHash(rest[:32])
		for _, s := range b.Subs {
			if s.ID == id {
				if key[0] == 1 {
					return mid{T: "SH", Rec: s.Path}
				}
				var idx int
				if err := avro.Unmarshal(intAvro, rest[32:], &idx); err != nil {
					return mid{T: "O", K: hex.EncodeToString(key)}
				}
				return mid{T: "SM", Rec: s.Path, K: fmt.Sprint(idx)}
			}
		}
	case 3, 4:
		t := "U"
		if key[0] == 4 {
			t = "D"
		}
		for _, it := range b.Items {
			if it.K == string(rest) && it.Class != "sub" && it.Class != "inline" {
				return mid{T: t, Rec: it.Rec, K: it.K}
			}
		}
		return mid{T: t, Rec: "?", K: string(rest)}
	}
	return mid{T: "O", K: hex.EncodeToString(key)}
}

var batchAvro = avro.MustParse(`{"type":"record","name":"batch","namespace":"cloud.rivet.cardinal","fields":[
{"name":"num","type":"long"},{"name":"weight","type":"bytes"},{"name":"parent","type":{"name":"par","type":"fixed","size":32}},
{"name":"updates","type":{"name":"upd","type":"map","values":{"type":"record","name":"update","fields":[
{"name":"value","type":"bytes"},{"name":"count","type":"int"},{"name":"delete","type":"boolean"},
{"name":"subbatch","type":{"name":"subb","type":"fixed","size":32}}]}}}]}`)
var subAvro = avro.MustParse(`{"type":"record","name":"update","fields":[
{"name":"delete","type":{"name":"del","type":"array","items":"string"}},
{"name":"updates","type":{"name":"upd","type":"map","values":"bytes"}}]}`)

type wireBatch struct {
	Num     int64              `avro:"num"`
	Weight  []byte             `avro:"weight"`
	Parent  [32]byte           `avro:"parent"`
	Updates map[string]wireRec `avro:"updates"`
}
type wireRec struct {
	Value    []byte   `avro:"value"`
	Count    int      `avro:"count"`
	Subbatch [32]byte `avro:"subbatch"`
	Delete   bool     `avro:"delete"`
}
type wireSub struct {
	Delete  []string          `avro:"delete"`
	Updates map[string][]byte `avro:"updates"`
}

// canonValue renders a message value independent of map order (per SPEC.md).
func canonValue(m delivery.Message) string {
	switch m.Key()[0] {
	case 0:
		var b wireBatch
		if err := avro.Unmarshal(batchAvro, m.Value(), &b); err != nil {
			return "bad:" + err.Error()
		}
		ks := []string{}
		for k := range b.Updates {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		s := fmt.Sprintf("%d/%x/%x", b.Num, b.Weight, b.Parent)
		for _, k := range ks {
			u := b.Updates[k]
			s += fmt.Sprintf("|%s=%x,%d,%v,%x", k, u.Value, u.Count, u.Delete, u.Subbatch)
		}
		return s
	case 2:
		var b wireSub
		if err := avro.Unmarshal(subAvro, m.Value(), &b); err != nil {
			return "bad:" + err.Error()
		}
		ks := []string{}
		for k, v := range b.Updates {
			ks = append(ks, k+"="+encv(v))
		}
		sort.Strings(ks)
		return fmt.Sprint(b.Delete, ks)
	}
	return encv(m.Value())
}

// produced are the messages one producer makes for one block, topic by topic.
type produced struct {
	topic string
	m     delivery.Message
}

func flatten(m map[string][]delivery.Message) []produced {
	res := []produced{}
	topics := []string{}
	for t := range m {
		topics = append(topics, t)
	}
	sort.Strings(topics)
	for _, t := range topics {
		for _, x := range m[t] {
			res = append(res, produced{t, x})
		}
	}
	return res
}

func schemaMap(cs []class) map[string]string {
	m := map[string]string{}
	for _, c := range cs {
		m[c.re] = c.topic
	}
	return m
}

// produceAll asks a real producer for all messages of b.
func produceAll(p *delivery.Producer, b *blockDef) ([]produced, error) {
	m, err := p.AddBlock(b.Num, b.Hash, b.Parent, b.Weight, b.updates(), b.deletes(), b.batches())
	if err != nil {
		return nil, err
	}
	res := flatten(m)
	for i := range b.Subs {
		d, u := b.sub(i)
		m, err := p.SendBatch(b.Subs[i].ID, d, u)
		if err != nil {
			return nil, err
		}
		res = append(res, flatten(m)...)
	}
	return res, nil
}

// ---- what a PendingBatch looks like in a trace ------------------------------

type pbRec struct {
	B   int        `json:"b"`
	Num string     `json:"num"`
	W   string     `json:"w"`
	Par string     `json:"par"`
	Val [][]string `json:"val"`
	Del []string   `json:"del"`
}

func pbOf(pb *delivery.PendingBatch, byHash map[types.Hash]int) pbRec {
	r := pbRec{B: -1, Num: fmt.Sprint(pb.Number), Par: pb.ParentHash.Hex(), Val: [][]string{}, Del: []string{}}
	if i, ok := byHash[pb.Hash]; ok {
		r.B = i
	}
	if pb.Weight != nil {
		r.W = pb.Weight.String()
	} else {
		r.W = "nil"
	}
	for k, v := range pb.Values {
		r.Val = append(r.Val, []string{k, encv(v)})
	}
	sort.Slice(r.Val, func(i, j int) bool { return r.Val[i][0] < r.Val[j][0] })
	for k := range pb.Deletes {
		r.Del = append(r.Del, k)
	}
	sort.Strings(r.Del)
	return r
}

// blockCfg describes a block to the trace spec.
func blockCfg(b *blockDef, msgs []mid) map[string]interface{} {
	val := []map[string]interface{}{}
	for _, it := range b.Items {
		val = append(val, map[string]interface{}{"k": it.K, "v": it.V, "rec": it.Rec, "del": it.Del})
	}
	return map[string]interface{}{
		"num": fmt.Sprint(b.Num), "w": b.Weight.String(), "par": b.Parent.Hex(), "items": val, "msgs": msgs,
	}
}

func bigOf(b []byte) *big.Int { return new(big.Int).SetBytes(b) }
