package main

// The conformance driver: performs operation sequences on the real code and
// records what it observes.  `drv SUITE -in OPS -out TRACE ...'

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"sync"
	"time"
)

type rec = map[string]interface{}

var (
	inPath  = flag.String("in", "", "operations (JSON lines)")
	outPath = flag.String("out", "", "trace to write (JSON lines)")
	seed    = flag.Int64("seed", 1, "seed")
	tier    = flag.String("tier", "quick", "quick or thorough")
	scratch = flag.String("scratch", "", "scratch directory")
)

type suite func(t *tracer) error

var suites = map[string]suite{}

// tracer collects trace lines.
type tracer struct {
	sync.Mutex
	lines [][]byte
	rnd   *rand.Rand
	live  *os.File // written to at once, if set
}

func (t *tracer) emit(r rec) {
	bs, err := json.Marshal(r)
	if err != nil {
		fatal(err)
	}
	t.Lock()
	defer t.Unlock()
	t.lines = append(t.lines, bs)
	if t.live != nil {
		t.live.Write(append(bs, '\n'))
	}
}

// histories splits ops at the operations called "New", performs the histories
// in parallel and keeps their order in the trace.
func (t *tracer) histories(ops []rec, run func(t *tracer, id int, ops []rec)) {
	var hs [][]rec
	for _, op := range ops {
		if str(op, "op") == "New" || len(hs) == 0 {
			hs = append(hs, nil)
		}
		hs[len(hs)-1] = append(hs[len(hs)-1], op)
	}
	subs := make([]*tracer, len(hs))
	next := make(chan int)
	var wg sync.WaitGroup
	for j := 0; j < runtime.NumCPU(); j++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range next {
				subs[i] = &tracer{rnd: rand.New(rand.NewSource(*seed*1000003 + int64(i)))}
				run(subs[i], i, hs[i])
			}
		}()
	}
	for i := range hs {
		next <- i
	}
	close(next)
	wg.Wait()
	for _, s := range subs {
		t.lines = append(t.lines, s.lines...)
	}
}

// ops reads the operations, one JSON object per line.
func readOps() []rec {
	f, err := os.Open(*inPath)
	if err != nil {
		fatal(err)
	}
	defer f.Close()
	var out []rec
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		if len(sc.Bytes()) == 0 {
			continue
		}
		var r rec
		if err := json.Unmarshal(sc.Bytes(), &r); err != nil {
			fatal(err)
		}
		out = append(out, r)
	}
	return out
}

func fatal(err interface{}) {
	fmt.Fprintln(os.Stderr, "driver:", err)
	os.Exit(3)
}

func main() {
	if len(os.Args) < 2 {
		fatal("no suite")
	}
	name := os.Args[1]
	s, ok := suites[name]
	if !ok {
		fatal("unknown suite " + name)
	}
	flag.CommandLine.Parse(os.Args[2:])
	f, err := os.Create(*outPath)
	if err != nil {
		fatal(err)
	}
	t := &tracer{rnd: rand.New(rand.NewSource(*seed))}
	if err := s(t); err != nil {
		fatal(err)
	}
	w := bufio.NewWriterSize(f, 1<<20)
	for _, l := range t.lines {
		w.Write(l)
		w.WriteByte('\n')
	}
	w.Flush()
	f.Close()
	fmt.Printf("events %d\n", len(t.lines))
}

func str(r rec, k string) string {
	s, _ := r[k].(string)
	return s
}

func num(r rec, k string) int {
	f, ok := r[k].(float64)
	if !ok {
		fatal(fmt.Sprintf("field %s missing in %v", k, r))
	}
	return int(f)
}

// opTimeout is how long one operation may take.
var opTimeout = 20 * time.Second

// guard runs f and reports a panic, or that it did not end.
func guard(f func()) string {
	done := make(chan string, 1)
	go func() {
		defer func() {
			if e := recover(); e != nil {
				done <- "panic: " + fmt.Sprint(e)
			}
		}()
		f()
		done <- ""
	}()
	tm := time.NewTimer(opTimeout)
	defer tm.Stop()
	select {
	case p := <-done:
		return p
	case <-tm.C:
		return "hang"
	}
}
