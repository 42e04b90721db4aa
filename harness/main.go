// Command drv replays behaviours emitted by the TLA+ specifications into the
// real grate code and compares every observation with the prediction.
//
//	drv <driver> -cases FILE [-seed N] [-tier quick|thorough] [-trace FILE] [-n N]
//
// It prints one JSON summary object on stdout.  Exit status 0 whenever the
// summary was produced (failures are inside it).
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Failure struct {
	Case int             `json:"case"`
	Step int             `json:"step"`
	What string          `json:"what"`
	Want interface{}     `json:"want,omitempty"`
	Got  interface{}     `json:"got,omitempty"`
	Data json.RawMessage `json:"data,omitempty"`
}

type Ctx struct {
	CasesFile string
	TraceFile string
	Tier      string
	Seed      int64
	N         int
	Dir       string // scratch directory
	Rand      *rand.Rand

	mu       sync.Mutex
	failures []Failure
	nfail    int
	cases    int64
	steps    int64
	nontriv  int64
	extra    map[string]interface{}
	inflight sync.Map // worker -> *flight
	traceW   *bufio.Writer
	traceF   *os.File
}

type flight struct {
	c     int
	data  []byte
	start time.Time
}

var drivers = map[string]func(*Ctx){}

func (x *Ctx) Fail(c, step int, what string, want, got interface{}, data []byte) {
	x.mu.Lock()
	defer x.mu.Unlock()
	x.nfail++
	if len(x.failures) < 20 {
		x.failures = append(x.failures, Failure{c, step, what, want, got, append(json.RawMessage{}, data...)})
	}
}

func (x *Ctx) Step(n int)  { atomic.AddInt64(&x.steps, int64(n)) }
func (x *Ctx) Nontrivial() { atomic.AddInt64(&x.nontriv, 1) }
func (x *Ctx) Set(k string, v interface{}) {
	x.mu.Lock()
	x.extra[k] = v
	x.mu.Unlock()
}
func (x *Ctx) Add(k string, n int) {
	x.mu.Lock()
	v, _ := x.extra[k].(int)
	x.extra[k] = v + n
	x.mu.Unlock()
}

// Trace appends one NDJSON event to the recorded trace.
func (x *Ctx) Trace(ev interface{}) {
	b, err := json.Marshal(ev)
	if err != nil {
		panic(err)
	}
	x.mu.Lock()
	x.traceW.Write(b)
	x.traceW.WriteByte('\n')
	x.mu.Unlock()
}

// Each runs f over every case line with the given parallelism. Panics inside f
// are failures of the code under test (drivers keep their own code panic-free,
// and mark their own errors with driverError).
func (x *Ctx) Each(par int, f func(i int, data []byte)) {
	fh, err := os.Open(x.CasesFile)
	if err != nil {
		fatal("cases: %v", err)
	}
	defer fh.Close()
	type job struct {
		i int
		b []byte
	}
	ch := make(chan job, 64)
	var wg sync.WaitGroup
	for w := 0; w < par; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for j := range ch {
				x.guard(w, j.i, j.b, f)
			}
		}(w)
	}
	br := bufio.NewReaderSize(fh, 1<<20)
	i := 0
	for {
		line, err := br.ReadBytes('\n')
		if len(line) > 1 {
			ch <- job{i, line[:len(line)-1]}
			i++
		}
		if err == io.EOF {
			break
		}
		if err != nil {
			fatal("cases: %v", err)
		}
	}
	close(ch)
	wg.Wait()
}

type driverError string

func (x *Ctx) guard(w, i int, b []byte, f func(int, []byte)) {
	x.inflight.Store(w, &flight{i, b, time.Now()})
	defer x.inflight.Delete(w)
	defer func() {
		if r := recover(); r != nil {
			if de, ok := r.(driverError); ok {
				fatal("driver error in case %d: %s", i, string(de))
			}
			st := string(debug.Stack())
			if !strings.Contains(st, "github.com/pbnjay/grate") {
				fatal("driver panic in case %d: %v\n%s\n%s", i, r, b, st)
			}
			x.Fail(i, -1, fmt.Sprintf("panic: %v", r), nil, firstFrame(st), b)
		}
	}()
	atomic.AddInt64(&x.cases, 1)
	f(i, b)
}

func firstFrame(st string) string {
	ls := strings.Split(st, "\n")
	for k, l := range ls {
		if strings.HasPrefix(l, "github.com/pbnjay/grate") && k+1 < len(ls) {
			return l + " " + strings.TrimSpace(ls[k+1])
		}
	}
	return ""
}

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "DRIVER-ERROR: "+f+"\n", a...)
	os.Exit(3)
}

func must(err error) {
	if err != nil {
		panic(driverError(err.Error()))
	}
}

func unj(b []byte, v interface{}) {
	if err := json.Unmarshal(b, v); err != nil {
		panic(driverError("bad case: " + err.Error() + ": " + string(b)))
	}
}

func (x *Ctx) summary() {
	if x.traceW != nil {
		x.traceW.Flush()
		x.traceF.Close()
	}
	x.mu.Lock()
	out := map[string]interface{}{
		"cases": x.cases, "steps": x.steps, "nontrivial": x.nontriv,
		"nfail": x.nfail, "failures": x.failures, "extra": x.extra,
	}
	b, err := json.Marshal(out)
	if err != nil {
		fatal("%v", err)
	}
	os.Stdout.Write(append(b, '\n'))
}

// watchdog turns a case of the code under test that neither ends nor stays
// within memory into a reported failure.
func (x *Ctx) watchdog(limit time.Duration, maxHeap uint64) {
	for {
		time.Sleep(100 * time.Millisecond)
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		over := ms.HeapAlloc > maxHeap
		hit := false
		x.inflight.Range(func(k, v interface{}) bool {
			fl := v.(*flight)
			if time.Since(fl.start) > limit || (over && time.Since(fl.start) > 2*time.Second) {
				what := "does not terminate"
				if over {
					what = "unbounded memory"
				}
				x.Fail(fl.c, -1, what, nil, nil, fl.data)
				hit = true
			}
			return true
		})
		if hit {
			x.summary()
			os.Exit(0)
		}
		if over && maxHeap > 0 {
			time.Sleep(time.Second)
		}
	}
}

func main() {
	if len(os.Args) > 1 {
		if sub, ok := subcommands[os.Args[1]]; ok {
			sub(os.Args[2:])
			return
		}
	}
	if len(os.Args) < 2 || drivers[os.Args[1]] == nil {
		fatal("unknown driver")
	}
	x := &Ctx{extra: map[string]interface{}{}}
	fs := flag.NewFlagSet("drv", flag.ExitOnError)
	fs.StringVar(&x.CasesFile, "cases", "", "")
	fs.StringVar(&x.TraceFile, "trace", "", "")
	fs.StringVar(&x.Tier, "tier", "quick", "")
	fs.StringVar(&x.Dir, "dir", "", "")
	fs.Int64Var(&x.Seed, "seed", 1, "")
	fs.IntVar(&x.N, "n", 0, "")
	fs.Parse(os.Args[2:])
	x.Rand = rand.New(rand.NewSource(x.Seed))
	log.SetOutput(io.Discard)
	if x.TraceFile != "" {
		f, err := os.Create(x.TraceFile)
		if err != nil {
			fatal("%v", err)
		}
		x.traceF = f
		x.traceW = bufio.NewWriter(f)
	}
	go x.watchdog(60*time.Second, 6<<30)
	drivers[os.Args[1]](x)
	x.summary()
}

// subcommands are re-executed helpers (fresh-process behaviours).
var subcommands = map[string]func([]string){}

func mustJSON(v interface{}) string {
	b, err := json.Marshal(v)
	must(err)
	return string(b)
}
