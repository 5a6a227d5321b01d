// Package rep collects what a conformance run covered and what it found.
package rep

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"strings"
	"sync"
)

type Violation struct {
	Trace string `json:"trace"`
	Step  int    `json:"step"`
	Msg   string `json:"msg"`
	Key   string `json:"key,omitempty"` // identifies the failing input/call site for known findings
}

type Report struct {
	mu          sync.Mutex
	Traces      int            `json:"traces"`
	States      int            `json:"states"`
	Transitions int            `json:"transitions"`
	Runs        int            `json:"runs"` // executions of the real code
	Adversarial int            `json:"adversarial_runs"`
	Counts      map[string]int `json:"counts"`
	Violations  []Violation    `json:"violations"`
	Samples     []any          `json:"samples"`
	Errors      []string       `json:"errors"`
}

func New() *Report { return &Report{Counts: map[string]int{}} }

func (r *Report) Count(k string, n int) { r.mu.Lock(); r.Counts[k] += n; r.mu.Unlock() }
func (r *Report) Run(n int)             { r.mu.Lock(); r.Runs += n; r.mu.Unlock() }
func (r *Report) Adv(n int)             { r.mu.Lock(); r.Adversarial += n; r.mu.Unlock() }
func (r *Report) Trace(states int) {
	r.mu.Lock()
	r.Traces++
	r.States += states
	if states > 0 {
		r.Transitions += states - 1
	}
	r.mu.Unlock()
}
func (r *Report) Sample(s any) {
	r.mu.Lock()
	if len(r.Samples) < 4 {
		r.Samples = append(r.Samples, s)
	}
	r.mu.Unlock()
}
func (r *Report) Violate(trace string, step int, format string, a ...any) {
	r.mu.Lock()
	if len(r.Violations) < 50 {
		r.Violations = append(r.Violations, Violation{Trace: trace, Step: step, Msg: fmt.Sprintf(format, a...)})
	}
	r.mu.Unlock()
}
func (r *Report) Error(format string, a ...any) {
	r.mu.Lock()
	r.Errors = append(r.Errors, fmt.Sprintf(format, a...))
	r.mu.Unlock()
}

func (r *Report) Write(path string) {
	b, err := json.MarshalIndent(r, "", " ")
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(path, b, 0o644); err != nil {
		panic(err)
	}
}

// Parallel runs f(i) for i in [0,n) on all cores; a panic inside f is an error of the harness
// unless f recovers it itself.
func (r *Report) Parallel(n int, f func(i int)) {
	w := runtime.NumCPU()
	if w > n {
		w = n
	}
	ch := make(chan int)
	var wg sync.WaitGroup
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				func() {
					defer func() {
						if p := recover(); p != nil {
							buf := make([]byte, 4096)
							buf = buf[:runtime.Stack(buf, false)]
							r.Error("harness panic on item %d: %v\n%s", i, p, buf)
						}
					}()
					f(i)
				}()
			}
		}()
	}
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	wg.Wait()
}

// Main is the common command line: -out report.json -tier quick -seed N cmd files...
type Args struct {
	Out, Tier string
	Seed      int64
	Cmd       string
	Files     []string
}

func Parse() Args {
	var a Args
	flag.StringVar(&a.Out, "out", "/dev/null", "report file")
	flag.StringVar(&a.Tier, "tier", "quick", "quick or thorough")
	flag.Int64Var(&a.Seed, "seed", 1, "seed")
	flag.Parse()
	if flag.NArg() > 0 {
		a.Cmd = flag.Arg(0)
		for _, f := range flag.Args()[1:] {
			if strings.HasPrefix(f, "@") { // a list of files
				b, err := os.ReadFile(f[1:])
				if err != nil {
					panic(err)
				}
				a.Files = append(a.Files, strings.Fields(string(b))...)
			} else {
				a.Files = append(a.Files, f)
			}
		}
	}
	return a
}

func (a Args) Thorough() bool { return a.Tier == "thorough" }
