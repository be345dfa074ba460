// Command verifharness drives the real cardinal-streams code (imported from
// /repo) and records traces that TLC validates against the TLA+ trace specs in
// /verif/spec.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	log "github.com/inconshreveable/log15"
)

// Trace is one recorded execution: Cfg describes the situation, Ev is the
// sequence of observed events.
type Trace struct {
	ID  string      `json:"id"`
	Cfg interface{} `json:"cfg"`
	Ev  []Event     `json:"ev"`
}

// Event is a flat record; "e" is the event name.
type Event map[string]interface{}

// Ctx is what a scenario gets to generate one case.
type Ctx struct {
	Rng   *rand.Rand
	I     int
	Seed  int64
	Tier  string
	Sched map[string]interface{} // line of the schedule file, if any
	emit  func(*Trace)
	Piped bool // ordering: through the whole of the processor
	big   bool
}

func (c *Ctx) Emit(t *Trace) {
	if t.Ev == nil {
		t.Ev = []Event{}
	}
	c.emit(t)
}

type scenario struct {
	fn      func(*Ctx)
	chunk   int           // cases per worker process
	par     int           // parallel worker processes
	timeout time.Duration // for one case
}

var scenarios = map[string]scenario{}

func register(name string, fn func(*Ctx), chunk, par int, timeout time.Duration) {
	scenarios[name] = scenario{fn, chunk, par, timeout}
}

var errMu sync.Mutex

// infra reports a failure of the harness or its environment (never a verdict).
func infra(format string, a ...interface{}) {
	errMu.Lock()
	fmt.Fprintf(os.Stderr, "HARNESS-ERROR: "+format+"\n", a...)
	os.Exit(97)
}

// failed reports that the code under test refused to do what it has to be able
// to do; that counts as a crash.
func failed(format string, a ...interface{}) {
	panic(fmt.Sprintf("unexpected: "+format, a...))
}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: h run|work ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "run":
		runMaster(os.Args[2:])
	case "work":
		runWorker(os.Args[2:])
	default:
		os.Exit(2)
	}
}

func flags(args []string) (fs *flag.FlagSet, scen, sched, tier, out *string, seed *int64, from, to *int) {
	fs = flag.NewFlagSet("h", flag.ExitOnError)
	scen = fs.String("scen", "", "")
	sched = fs.String("sched", "", "")
	tier = fs.String("tier", "quick", "")
	out = fs.String("out", "", "")
	seed = fs.Int64("seed", 1, "")
	from = fs.Int("from", 0, "")
	to = fs.Int("to", 1, "")
	budget := fs.Int("budget", 0, "seconds")
	fs.Parse(args)
	if *budget > 0 {
		stopAt = time.Now().Add(time.Duration(*budget) * time.Second)
	}
	return
}

func loadSched(path string) []map[string]interface{} {
	if path == "" {
		return nil
	}
	data, err := ioutil.ReadFile(path)
	if err != nil {
		infra("%v", err)
	}
	var res []map[string]interface{}
	for _, line := range strings.Split(string(data), "\n") {
		if strings.TrimSpace(line) == "" {
			continue
		}
		var m map[string]interface{}
		if err := json.Unmarshal([]byte(line), &m); err != nil {
			infra("%v", err)
		}
		res = append(res, m)
	}
	return res
}

func runWorker(args []string) {
	_, scen, sched, tier, _, seed, from, to := flags(args)
	if os.Getenv("VERIF_DEBUG") == "" {
		log.Root().SetHandler(log.DiscardHandler())
	}
	s, ok := scenarios[*scen]
	if !ok {
		infra("no scenario %v", *scen)
	}
	lines := loadSched(*sched)
	w := bufio.NewWriterSize(os.Stdout, 1<<20)
	var mu sync.Mutex
	for i := *from; i < *to; i++ {
		fmt.Fprintf(w, "S %d\n", i)
		w.Flush()
		h := int64(0)
		for _, c := range *scen {
			h = h*131 + int64(c)
		}
		ctx := &Ctx{Rng: rand.New(rand.NewSource(*seed*1000003 + int64(i)*7919 + h)), I: i, Seed: *seed, Tier: *tier}
		if lines != nil {
			if i >= len(lines) {
				break
			}
			ctx.Sched = lines[i]
		}
		n := 0
		ctx.emit = func(t *Trace) {
			mu.Lock()
			defer mu.Unlock()
			t.ID = fmt.Sprintf("%s/%d/%d/%d", *scen, *seed, i, n)
			n++
			b, err := json.Marshal(t)
			if err != nil {
				infra("%v", err)
			}
			w.WriteString("T ")
			w.Write(b)
			w.WriteString("\n")
			w.Flush()
		}
		s.fn(ctx)
	}
	fmt.Fprintf(w, "D\n")
	w.Flush()
	os.Exit(0)
}

type caseOut struct {
	i      int
	traces []string
}

// stopAt is when to go on with what was done so far.
var stopAt time.Time

func runMaster(args []string) {
	_, scen, sched, tier, out, seed, from, to := flags(args)
	s, ok := scenarios[*scen]
	if !ok {
		infra("no scenario %v", *scen)
	}
	lines := loadSched(*sched)
	if lines != nil && *to > len(lines) {
		*to = len(lines)
	}
	type rng struct{ a, b int }
	chunk := s.chunk
	if n := (*to - *from + s.par - 1) / s.par; chunk > n && n > 0 {
		chunk = n
	}
	work := make(chan rng, *to-*from+1)
	for a := *from; a < *to; a += chunk {
		b := a + chunk
		if b > *to {
			b = *to
		}
		work <- rng{a, b}
	}
	close(work)
	var mu sync.Mutex
	results := []caseOut{}
	var wg sync.WaitGroup
	crash := 0
	for p := 0; p < s.par; p++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for r := range work {
				for a := r.a; a < r.b; {
					mu.Lock()
					toomany := crash > 6 || !stopAt.IsZero() && time.Now().After(stopAt)
					mu.Unlock()
					if toomany {
						return
					}
					res, next, kind, msg := runRange(s, *scen, *sched, *tier, *seed, a, r.b, s.timeout)
					for k := 0; kind == "crash" && dependency(msg); k++ {
						// see dependency
						res2, _, kind2, msg2 := runRange(s, *scen, *sched, *tier, *seed, next, next+1, s.timeout)
						if kind, msg = kind2, msg2; kind == "" {
							res = append(res, res2...)
						} else if k > 5 {
							if strings.Contains(msg, "drumline.") {
								break // six times in a row is not that race
							}
							kind = ""
						}
					}
					if kind == "hang" {
						// confirm alone with a longer time limit before calling it a hang
						res2, next2, kind2, msg2 := runRange(s, *scen, *sched, *tier, *seed, next, next+1, 2*s.timeout)
						res = append(res, res2...)
						kind, msg = kind2, msg2
						next = next2
					}
					if kind == "stop" {
						mu.Lock()
						results = append(results, res...)
						mu.Unlock()
						return
					}
					if kind != "" {
						t := &Trace{ID: fmt.Sprintf("%s/%d/%d/x", *scen, *seed, next), Cfg: map[string]interface{}{"kind": kind, "scen": *scen},
							Ev: []Event{{"e": kind, "msg": msg}}}
						b, _ := json.Marshal(t)
						res = append(res, caseOut{next, []string{string(b)}})
						next++
						mu.Lock()
						crash++
						mu.Unlock()
					}
					mu.Lock()
					results = append(results, res...)
					mu.Unlock()
					if kind == "" && next >= r.b {
						break
					}
					if kind == "" {
						next++
					}
					a = next
				}
			}
		}()
	}
	wg.Wait()
	sort.Slice(results, func(i, j int) bool { return results[i].i < results[j].i })
	f, err := os.Create(*out)
	if err != nil {
		infra("%v", err)
	}
	bw := bufio.NewWriterSize(f, 1<<20)
	n := 0
	for _, r := range results {
		for _, t := range r.traces {
			bw.WriteString(t)
			bw.WriteString("\n")
			n++
		}
	}
	bw.Flush()
	f.Close()
	fmt.Printf("{\"cases\":%d,\"traces\":%d,\"crashes\":%d}\n", len(results), n, crash)
}

// runRange runs cases [a,b) in one worker process. It returns the completed
// cases; if the worker crashed or hung, the index of the case at fault, the
// kind and a message.
func runRange(s scenario, scen, sched, tier string, seed int64, a, b int, timeout time.Duration) (res []caseOut, cur int, kind, msg string) {
	cmd := exec.Command(os.Args[0], "work", "-scen", scen, "-sched", sched, "-tier", tier,
		"-seed", fmt.Sprint(seed), "-from", fmt.Sprint(a), "-to", fmt.Sprint(b))
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	pr, err := cmd.StdoutPipe()
	if err != nil {
		infra("%v", err)
	}
	var stderr tailBuf
	cmd.Stderr = &stderr
	if err := cmd.Start(); err != nil {
		infra("%v", err)
	}
	cur = a
	lines := make(chan string, 64)
	go func() {
		rd := bufio.NewReaderSize(pr, 1<<20)
		for {
			l, err := rd.ReadString('\n')
			if strings.HasSuffix(l, "\n") {
				lines <- l[:len(l)-1]
			}
			if err != nil {
				close(lines)
				return
			}
		}
	}()
	var c *caseOut
	done := false
	flush := func() {
		if c != nil {
			res = append(res, *c)
			c = nil
		}
	}
	timer := time.NewTimer(timeout)
	hung := false
	var stop <-chan time.Time
	if !stopAt.IsZero() {
		stop = time.After(time.Until(stopAt))
	}
LOOP:
	for {
		select {
		case l, ok := <-lines:
			if !ok {
				break LOOP
			}
			if !timer.Stop() {
				select {
				case <-timer.C:
				default:
				}
			}
			timer.Reset(timeout)
			switch {
			case strings.HasPrefix(l, "S "):
				flush()
				fmt.Sscanf(l[2:], "%d", &cur)
				c = &caseOut{i: cur}
			case strings.HasPrefix(l, "T "):
				c.traces = append(c.traces, l[2:])
			case l == "D":
				done = true
				flush()
			}
		case <-stop:
			cmd.Process.Kill()
			for range lines {
			}
			cmd.Wait()
			return res, cur, "stop", ""
		case <-timer.C:
			hung = true
			cmd.Process.Signal(syscall.SIGQUIT)
			time.Sleep(500 * time.Millisecond)
			cmd.Process.Kill()
			break LOOP
		}
	}
	err = cmd.Wait()
	if hung {
		return res, cur, "hang", stderr.head(1500)
	}
	if done {
		return res, b - 1, "", ""
	}
	if ee, ok := err.(*exec.ExitError); ok {
		if ws, ok := ee.Sys().(syscall.WaitStatus); ok && (ws.Signaled() || ws.ExitStatus() == 97) {
			infra("worker %v case %d ended by %v: %v", scen, cur, ws, stderr.head(3000))
		}
	}
	return res, cur, "crash", stderr.head(1500)
}

// dependency tells whether a crash is a race inside a dependency, which is not
// part of the code under test: cardinal-rpc isn't safe for clients that come
// and go at once; drumline starts to iterate over its partitions while further
// ones are added.
func dependency(msg string) bool {
	return strings.HasPrefix(msg, "fatal error: concurrent map") &&
		(strings.Contains(msg, "cardinal-rpc.(*registry)") || strings.Contains(msg, "drumline.(*Drumline).AddScale.func1"))
}

type tailBuf struct {
	mu sync.Mutex
	b  []byte
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.b) < 1<<16 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}
func (t *tailBuf) head(n int) string {
	t.mu.Lock()
	defer t.mu.Unlock()
	keep := []string{}
	for _, l := range strings.Split(string(t.b), "\n") {
		if strings.Contains(l, "cardinal") || strings.Contains(l, "drumline") || strings.HasPrefix(l, "panic") || strings.HasPrefix(l, "fatal") || strings.HasPrefix(l, "HARNESS") || strings.HasPrefix(l, "[") {
			keep = append(keep, l)
		}
	}
	s := strings.Join(keep, "\n")
	if s == "" {
		s = string(t.b)
	}
	if len(s) > n {
		return s[:n]
	}
	return s
}
