PRE = '''package delivery_test

import (
	"fmt"
	"math/big"
	"regexp"
	"testing"
	"time"

	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	types "github.com/openrelayxyz/cardinal-types"
)

var _ = fmt.Sprint
var _ = time.Now
var _ = big.NewInt
var _ = regexp.MustCompile

func hsh(s string) types.Hash { return types.BytesToHash([]byte(s)) }

type rm struct {
	delivery.Message
	src string
	off int64
}

func (r *rm) Source() string  { return r.src }
func (r *rm) Offset() int64   { return r.off }
func (r *rm) Time() time.Time { return time.Now() }

func w(m delivery.Message, off int64) delivery.ResumptionMessage { return &rm{m, "t:0", off} }

func cfg(T int64) *delivery.ConsumerConfig {
	return &delivery.ConsumerConfig{LastHash: types.Hash{1}, LastWeight: new(big.Int), ReorgThreshold: T,
		TrackedPrefixes: []*regexp.Regexp{regexp.MustCompile(".")}}
}

// ordered consumer helpers
type oc struct {
	o  *delivery.OrderedMessageProcessor
	ch chan *delivery.ChainUpdate
}

func newOC(c *delivery.ConsumerConfig) *oc {
	o, err := delivery.NewOrderedMessageProcessor(c)
	if err != nil {
		panic(err)
	}
	x := &oc{o, make(chan *delivery.ChainUpdate, 1000)}
	o.Subscribe(x.ch)
	return x
}

type blk struct {
	n       string
	num     int64
	par     string
	wt      int64
}

func (x *oc) give(b blk) string {
	x.o.HandlePendingBatch(&delivery.PendingBatch{Number: b.num, Hash: hsh(b.n), ParentHash: hsh(b.par), Weight: big.NewInt(b.wt),
		Values: map[string][]byte{}, Deletes: map[string]struct{}{}}, false)
	s := ""
	for {
		select {
		case u := <-x.ch:
			for _, r := range u.Removed() {
				s += "-" + name(r.Hash)
			}
			for _, a := range u.Added() {
				s += "+" + name(a.Hash)
			}
			continue
		default:
		}
		return s
	}
}

func name(h types.Hash) string {
	i := 0
	for i < len(h) && h[i] == 0 {
		i++
	}
	return string(h[i:])
}

func start(n string, num, wt, T int64) *delivery.ConsumerConfig {
	return &delivery.ConsumerConfig{LastEmittedNum: num, LastHash: hsh(n), LastWeight: big.NewInt(wt), ReorgThreshold: T}
}
'''
