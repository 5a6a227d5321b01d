package main

import (
	"fmt"
	"math/big"

	"github.com/consensys/gnark/constraint/solver"
	"github.com/consensys/gnark/frontend"
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
	"verif/harness/adv"
	"verif/harness/cs"
	"verif/harness/engine"
	"verif/harness/itf"
	"verif/harness/rep"
)

type rcEvent struct {
	op, cap, kind, verdict string
	b, n                   int
	flag, lit              bool
	v                      []*big.Int
}

func readRC(t *itf.Trace) (evs []rcEvent, hasSwitch bool) {
	for i := range t.States {
		e := t.Event(i)
		x := rcEvent{itf.Str(e["op"]), itf.Str(e["cap"]), itf.Str(e["kind"]), itf.Str(e["verdict"]), itf.I(e["b"]), itf.I(e["n"]), itf.Bool(e["flag"]), itf.Bool(e["lit"]), itf.Ints(e["v"])}
		if x.op == "switch" {
			hasSwitch = true
		}
		evs = append(evs, x)
	}
	return
}

// coroutine is one builder: its circuit definition advances one request at a time.
type coroutine struct {
	cmd  chan func(api frontend.API)
	ack  chan struct{}
	done chan engine.Outcome
	out  *engine.Outcome
}

func startBuilder(m engine.Mode, sec int) *coroutine {
	c := &coroutine{cmd: make(chan func(frontend.API)), ack: make(chan struct{}), done: make(chan engine.Outcome, 1)}
	e := engine.New(m)
	if sec >= 0 {
		e.OnHint = adv.Lenient(sec)
	}
	go func() {
		c.done <- e.Run(func(api frontend.API) {
			for f := range c.cmd {
				f(api)
				c.ack <- struct{}{}
			}
		})
	}()
	return c
}

// do runs f inside the builder's definition; nothing happens once the definition has been refused.
func (c *coroutine) do(f func(api frontend.API)) {
	if c.out != nil {
		return
	}
	c.cmd <- f
	select {
	case <-c.ack:
	case o := <-c.done:
		c.out = &o
	}
}

func (c *coroutine) finish() engine.Outcome {
	if c.out == nil {
		close(c.cmd)
		o := <-c.done
		c.out = &o
	}
	return *c.out
}

func request(api frontend.API, ev rcEvent, v []frontend.Variable) {
	g := gl.New(api)
	switch ev.kind {
	case "field":
		g.RangeCheck(gl.NewVariable(v[0]))
	case "pair":
		g.RangeCheckQE(gl.NewQuadraticExtensionVariable(gl.NewVariable(v[0]), gl.NewVariable(v[1])))
	case "bits":
		g.RangeCheckWithMaxBits(gl.NewVariable(v[0]), uint64(ev.n))
	default:
		panic("unknown request " + ev.kind)
	}
}

// values of a request: constants of the circuit are given as numbers.
func values(ev rcEvent) []frontend.Variable {
	if !ev.lit {
		return frs(ev.v)
	}
	var r []frontend.Variable
	for _, x := range ev.v {
		r = append(r, new(big.Int).Set(x))
	}
	return r
}

func pad(api frontend.API, n int, v frontend.Variable) {
	g := gl.New(api)
	for i := 0; i < n; i++ {
		g.RangeCheckWithMaxBits(gl.NewVariable(v), 144)
	}
}

func replayRC(r *rep.Report, t *itf.Trace, evs []rcEvent, sec int) {
	cs.BitDecomp(false)
	modes := map[string]engine.Mode{"native": engine.Native, "commit": engine.Commit, "none": engine.BitDecomp}
	var bs []*coroutine
	for i, ev := range evs {
		switch ev.op {
		case "switch":
			cs.BitDecomp(ev.flag)
		case "new":
			c := startBuilder(modes[ev.cap], sec)
			bs = append(bs, c)
			n := ev.n
			c.do(func(api frontend.API) {
				gl.New(api)
				if n > 0 {
					pad(api, n, engine.ToFr(0))
				}
			})
		case "check":
			bs[ev.b].do(func(api frontend.API) { request(api, ev, values(ev)) })
		case "finish":
			o := bs[ev.b].finish()
			r.Run(1)
			r.Count(fmt.Sprintf("finish_%s", ev.verdict), 1)
			if ev.verdict == "reject" {
				r.Adv(1)
			}
			if ev.verdict == "accept" && !o.Sat() {
				r.Violate(t.File, i, "builder %d holds only in-range values but is refused: %s %s", ev.b, o.Kind, o.Msg)
			}
			if ev.verdict == "reject" && o.Sat() {
				r.Violate(t.File, i, "builder %d accepts an out-of-range value (prover strategy %d): %s", ev.b, sec, describe(evs[:i], ev.b))
			}
		}
	}
	for _, c := range bs {
		c.finish()
	}
	cs.BitDecomp(false)
}

func describe(evs []rcEvent, b int) string {
	s := ""
	for _, e := range evs {
		if e.b == b && (e.op == "check" || e.op == "new") {
			s += fmt.Sprintf("%s%s(n=%d,forced=%v,constant=%v)%v ", e.cap, e.kind, e.n, e.flag, e.lit, e.v)
		}
	}
	return s
}

// compiledRC compiles the requests of a finished builder with gnark's real builders and solves them.
func compiledRC(r *rep.Report, t *itf.Trace, evs []rcEvent, at int, kind string, padding int) {
	var reqs []rcEvent
	var in []*big.Int
	for _, e := range evs[:at] {
		if e.op == "check" && e.b == evs[at].b {
			reqs = append(reqs, e)
			in = append(in, e.v...)
		}
	}
	in = append(in, big.NewInt(0))
	ccs, err := cs.Compile(kind, len(in), func(api frontend.API, v []frontend.Variable) error {
		if padding > 0 {
			pad(api, padding, v[len(v)-1])
		}
		k := 0
		for _, e := range reqs {
			if e.lit {
				request(api, e, values(e))
			} else {
				request(api, e, v[k:k+len(e.v)])
			}
			k += len(e.v)
		}
		return nil
	})
	want := evs[at].verdict
	if err != nil {
		if want == "accept" {
			r.Violate(t.File, at, "[%s] range checks do not compile: %v", kind, err)
		}
		return
	}
	r.Count("compiled_"+kind, 1)
	for sec := 0; sec < adv.Secondary; sec++ {
		opts := append(cs.Commitments(ccs), overrides("", "", sec)...)
		err := cs.Solve(ccs, in, opts...)
		r.Run(1)
		if want == "accept" && err != nil {
			r.Violate(t.File, at, "[%s] in-range values refused: %v", kind, err)
			return
		}
		if want == "reject" && err == nil {
			r.Violate(t.File, at, "[%s] compiled circuit accepts an out-of-range value (prover strategy %d): %s", kind, sec, describe(evs[:at], evs[at].b))
			return
		}
		if want == "accept" {
			break
		}
	}
}

var _ = solver.Option(nil)

func ranges(a rep.Args, r *rep.Report) {
	var ts []*itf.Trace
	var es [][]rcEvent
	var sw []bool
	for _, f := range a.Files {
		t := itf.MustRead(f)
		e, s := readRC(t)
		r.Trace(len(t.States))
		ts, es, sw = append(ts, t), append(es, e), append(sw, s)
	}
	// the switch is process-wide: behaviours that use it run alone
	var rest []int
	for i := range ts {
		if !sw[i] {
			rest = append(rest, i)
			continue
		}
		for sec := -1; sec < adv.Secondary; sec++ {
			replayRC(r, ts[i], es[i], sec)
		}
	}
	r.Parallel(len(rest), func(k int) {
		i := rest[k]
		for sec := -1; sec < adv.Secondary; sec++ {
			replayRC(r, ts[i], es[i], sec)
		}
	})
	// compiled circuits: bit decomposition forced, then commitments
	type job struct{ i, at, pad int }
	var bits, commits []job
	for i := range ts {
		pads := map[int]int{}
		caps := map[int]string{}
		for at, e := range es[i] {
			if e.op == "new" {
				pads[e.b] = e.n
				caps[e.b] = e.cap
			}
			if e.op == "finish" {
				if caps[e.b] == "commit" && pads[e.b] > 0 {
					commits = append(commits, job{i, at, pads[e.b]})
				} else if caps[e.b] != "commit" {
					bits = append(bits, job{i, at, 0})
				}
			}
		}
	}
	nb, nc := 60, 3
	if a.Thorough() {
		nb, nc = 600, 30
	}
	if len(bits) > nb {
		bits = bits[:nb]
	}
	if len(commits) > nc {
		commits = commits[:nc]
	}
	cs.BitDecomp(true)
	r.Parallel(len(bits), func(k int) {
		j := bits[k]
		compiledRC(r, ts[j.i], es[j.i], j.at, []string{"r1cs", "scs"}[k%2], 0)
	})
	cs.BitDecomp(false)
	r.Parallel(len(commits), func(k int) {
		j := commits[k]
		compiledRC(r, ts[j.i], es[j.i], j.at, []string{"r1cs", "scs"}[k%2], j.pad)
	})
	for _, e := range es {
		for _, x := range e {
			if x.op == "finish" {
				r.Sample(map[string]any{"requests": describe(e, x.b), "verdict": x.verdict})
				break
			}
		}
	}
}
