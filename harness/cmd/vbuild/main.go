// vbuild replays interleaved circuit constructions.
package main

import (
	"fmt"
	"math/big"
	"os"
	"runtime/debug"
	"sync"
	"sync/atomic"

	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark/constraint"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/test"
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
	"github.com/succinctlabs/gnark-plonky2-verifier/poseidon"
	"verif/harness/cs"
	"verif/harness/engine"
	"verif/harness/itf"
	"verif/harness/rep"
)

// one action of a builder: op is "open", "close" or the operation of an instruction
type act struct {
	op   string
	args []int
	aux  []*big.Int
}

type plan struct {
	kind string
	acts []act
	in   []*big.Int // values of the input instructions, in order
	exp  []*big.Int // what the registers hold at the end; -1: only up to multiples of P
	bits bool
}

type turn struct {
	b int
	a act
}

func read(t *itf.Trace) (ps []*plan, order []turn, bits bool) {
	last := t.States[len(t.States)-1]
	bits = itf.Bool(last["bitsOnly"])
	for _, x := range itf.List(last["bs"]) {
		b := itf.Rec(x)
		p := &plan{kind: itf.Str(b["kind"]), bits: bits}
		for _, y := range itf.List(b["regs"]) {
			r := itf.Rec(y)
			if itf.Int(r["w"]).Cmp(gl.MODULUS) <= 0 {
				p.exp = append(p.exp, itf.Int(r["v"]))
			} else {
				p.exp = append(p.exp, big.NewInt(-1))
			}
		}
		ps = append(ps, p)
	}
	for i := range t.States {
		e := t.Event(i)
		a := act{op: itf.Str(e["op"])}
		if a.op == "init" || a.op == "rest" {
			continue
		}
		b := itf.I(e["b"])
		if a.op == "ins" {
			n := itf.Rec(e["ins"])
			a = act{itf.Str(n["op"]), itf.Idx(n["args"]), itf.Ints(n["aux"])}
			if a.op == "in" {
				ps[b].in = append(ps[b].in, a.aux[0])
			}
		}
		ps[b].acts = append(ps[b].acts, a)
		order = append(order, turn{b, a})
	}
	return
}

// chips already given to some builder, in this process
var (
	chipMu    sync.Mutex
	chipOwner = map[*gl.Chip]any{}
)

type run struct {
	p     *plan
	api   frontend.API
	chips []*gl.Chip
	regs  []gl.Variable
	in    []frontend.Variable
	nin   int
	bad   string
}

func (m *run) fail(f string, a ...any) {
	if m.bad == "" {
		m.bad = fmt.Sprintf(f, a...)
	}
}

func (m *run) open() {
	got := make([]*gl.Chip, 3)
	var wg sync.WaitGroup
	var pmu sync.Mutex
	for i := range got {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					pmu.Lock()
					m.fail("New panics: %v", r)
					pmu.Unlock()
				}
			}()
			got[i] = gl.New(m.api)
		}(i)
	}
	wg.Wait()
	chipMu.Lock()
	defer chipMu.Unlock()
	for _, c := range got {
		if c == nil {
			m.fail("no chip")
			continue
		}
		if o, ok := chipOwner[c]; ok && o != any(m.api) {
			m.fail("one builder is given the chip of another")
		}
		chipOwner[c] = m.api
		if len(m.chips) > 0 && m.chips[0] != c {
			m.fail("the chip of a builder was created twice")
		}
		m.chips = append(m.chips, c)
	}
}

func (m *run) act(a act) {
	if a.op == "open" {
		m.open()
		return
	}
	if a.op == "close" {
		return
	}
	// every handle in turn: they stand for the same chip
	g := m.chips[len(m.regs)%len(m.chips)]
	r := func(i int) gl.Variable { return m.regs[a.args[i]] }
	push := func(v ...gl.Variable) { m.regs = append(m.regs, v...) }
	switch a.op {
	case "in":
		push(gl.NewVariable(m.in[m.nin]))
		m.nin++
	case "const":
		push(gl.NewVariable(a.aux[0]))
	case "add":
		push(g.Add(r(0), r(1)))
	case "sub":
		push(g.Sub(r(0), r(1)))
	case "mul":
		push(g.Mul(r(0), r(1)))
	case "mulAdd":
		push(g.MulAdd(r(0), r(1), r(2)))
	case "addNR":
		push(g.AddNoReduce(r(0), r(1)))
	case "subNR":
		push(g.SubNoReduce(r(0), r(1)))
	case "mulNR":
		push(g.MulNoReduce(r(0), r(1)))
	case "mulAddNR":
		push(g.MulAddNoReduce(r(0), r(1), r(2)))
	case "reduce":
		push(g.Reduce(r(0)))
	case "inv":
		v, ok := g.Inverse(r(0))
		m.api.AssertIsEqual(ok, 1)
		push(v)
	case "range":
		g.RangeCheck(r(0))
	case "mulE":
		v := g.MulExtension(gl.NewQuadraticExtensionVariable(r(0), r(1)), gl.NewQuadraticExtensionVariable(r(2), r(3)))
		push(v[0], v[1])
	case "hash":
		h := poseidon.NewGoldilocksChip(m.api).HashNoPad([]gl.Variable{r(0), r(1), r(2), r(3)})
		push(h[:]...)
	case "root":
		x := gl.PrimitiveRootOfUnity(a.aux[0].Uint64())
		push(gl.NewVariable(x.Uint64()))
	case "subgroup":
		for _, x := range gl.TwoAdicSubgroup(a.aux[0].Uint64()) {
			push(gl.NewVariable(x.Uint64()))
		}
	case "pool":
		for i := range a.args {
			g.RangeCheckWithMaxBits(r(i), 64)
		}
	default:
		panic("unknown operation " + a.op)
	}
}

// commits: does the builder collect its range checks?
func (p *plan) commits() bool {
	return !p.bits && (p.kind == "r1cs" || p.kind == "scs" || p.kind == "commit" || p.kind == "test")
}

// filler is how many further checks make the collected ones worthwhile (fewer are refused as a whole, see C07).
const filler = 70000

// end ties the registers to their specified values, given as further inputs.
func (m *run) end(exp []frontend.Variable, pad frontend.Variable) {
	k := 0
	for i, x := range m.p.exp {
		if x.Sign() < 0 {
			continue
		}
		if i >= 3 {
			m.api.AssertIsEqual(m.regs[i].Limb, exp[k])
			k++
		}
	}
	if m.p.commits() && len(m.chips) > 0 {
		for i := 0; i < filler; i++ {
			m.chips[0].RangeCheckWithMaxBits(gl.NewVariable(pad), 16)
		}
	}
}

func (p *plan) expected() (r []*big.Int) {
	for i, x := range p.exp {
		if x.Sign() >= 0 && i >= 3 {
			r = append(r, x)
		}
	}
	return
}

func (p *plan) witness() []*big.Int {
	return append(append(append([]*big.Int{}, p.in...), p.expected()...), big.NewInt(5))
}

type built struct {
	ccs    constraint.ConstraintSystem
	digest string
	err    error
	bad    string
}

// named is a circuit gnark's test engine can copy.
type named struct {
	In []frontend.Variable
	ID int64 `gnark:"-"`
}

var (
	defs  sync.Map
	defID atomic.Int64
)

func (c *named) Define(api frontend.API) error {
	d, _ := defs.Load(c.ID)
	return d.(func(frontend.API, []frontend.Variable) error)(api, c.In)
}

// build constructs the circuit of p (for interpreting builders: also runs it on w). next hands out the actions.
func build(p *plan, w []*big.Int, next func(do func(act)) error) (b built) {
	n := len(p.in)
	var m *run
	def := func(api frontend.API, v []frontend.Variable) error {
		m = &run{p: p, api: api, in: v[:n], regs: []gl.Variable{gl.Zero(), gl.One(), gl.NegOne()}}
		if err := next(m.act); err != nil {
			return err
		}
		m.end(v[n:len(v)-1], v[len(v)-1])
		return nil
	}
	vars := make([]frontend.Variable, len(w))
	for i := range w {
		vars[i] = w[i]
	}
	switch p.kind {
	case "r1cs", "scs":
		b.ccs, b.err = cs.Compile(p.kind, len(w), def)
		if b.err == nil {
			b.digest = cs.Digest(b.ccs)
		}
	case "test":
		func() {
			defer func() {
				if r := recover(); r != nil {
					b.err = fmt.Errorf("%v\n%s", r, debug.Stack())
				}
			}()
			id := defID.Add(1)
			defs.Store(id, def)
			b.err = test.IsSolved(&named{In: make([]frontend.Variable, len(w)), ID: id}, &named{In: vars, ID: id}, ecc.BN254.ScalarField())
		}()
	default:
		e := engine.New(map[string]engine.Mode{"native": engine.Native, "commit": engine.Commit, "bits": engine.BitDecomp}[p.kind])
		o := e.Run(func(api frontend.API) {
			if err := def(api, vars); err != nil {
				panic(err)
			}
		})
		if !o.Sat() {
			b.err = fmt.Errorf("%s %s", o.Kind, o.Msg)
		}
	}
	if m != nil {
		b.bad = m.bad
	}
	return
}

// alone hands out all actions at once.
func (p *plan) alone(do func(act)) error {
	for _, a := range p.acts {
		do(a)
	}
	return nil
}

// accepts: with the specified values; a second run with one value changed must be refused.
func (p *plan) solve(b built, w []*big.Int) error {
	if b.ccs == nil {
		return build(p, w, p.alone).err
	}
	return cs.Solve(b.ccs, w, cs.Commitments(b.ccs)...)
}

func main() {
	a := rep.Parse()
	r := rep.New()
	switch a.Cmd {
	case "gated":
		each(a, r, gated)
	case "free":
		each(a, r, free)
		lists(a, r)
	default:
		fmt.Fprintln(os.Stderr, "unknown command", a.Cmd)
		os.Exit(2)
	}
	r.Write(a.Out)
}

// each plays the behaviours, those with the bit decomposition switch last.
func each(a rep.Args, r *rep.Report, play func(a rep.Args, r *rep.Report, file string, ps []*plan, order []turn)) {
	// builders that collect their checks make large circuits, which the registry keeps for good
	max, maxBits := 4, 80
	if a.Cmd == "free" {
		max, maxBits = 1, 20
	}
	if a.Thorough() {
		max, maxBits = 3*max, 8*maxBits
	}
	for _, bits := range []bool{false, true} {
		cs.BitDecomp(bits)
		var files []string
		for _, f := range a.Files {
			if itf.Bool(itf.MustRead(f).States[0]["bitsOnly"]) == bits && len(files) < max*(1+7*b2i(bits)) {
				files = append(files, f)
			}
		}
		r.Parallel(len(files), func(i int) {
			t := itf.MustRead(files[i])
			ps, order, _ := read(t)
			r.Trace(len(t.States))
			play(a, r, files[i], ps, order)
		})
	}
	cs.BitDecomp(false)
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// gated: one goroutine per builder, which proceed exactly in the order of the behaviour.
func gated(a rep.Args, r *rep.Report, file string, ps []*plan, order []turn) {
	type gate struct {
		in   chan act
		ack  chan bool
		done chan built
	}
	gs := make([]*gate, len(ps))
	for i, p := range ps {
		g := &gate{make(chan act), make(chan bool), make(chan built, 1)}
		gs[i] = g
		go func(p *plan) {
			g.done <- build(p, p.witness(), func(do func(act)) error {
				for a := range g.in {
					do(a)
					g.ack <- true
				}
				return nil
			})
		}(p)
	}
	res := make([]*built, len(ps))
	for _, t := range order {
		g := gs[t.b]
		if res[t.b] != nil {
			continue
		}
		select {
		case g.in <- t.a:
			select {
			case <-g.ack:
				r.Count(t.a.op, 1)
			case b := <-g.done:
				res[t.b] = &b
			}
		case b := <-g.done:
			res[t.b] = &b
		}
		if t.a.op == "close" && res[t.b] == nil {
			close(g.in)
			b := <-g.done
			res[t.b] = &b
		}
	}
	for i, g := range gs {
		if res[i] == nil {
			close(g.in)
			b := <-g.done
			res[i] = &b
		}
	}
	judge(r, file, ps, res, "interleaved")
}

// free: one goroutine per builder, all started together.
func free(a rep.Args, r *rep.Report, file string, ps []*plan, order []turn) {
	res := make([]*built, len(ps))
	start := make(chan bool)
	var wg sync.WaitGroup
	for i, p := range ps {
		if p.kind == "test" { // gnark's test engine counts operations in package variables
			p.kind = "native"
		}
		wg.Add(1)
		go func(i int, p *plan) {
			defer wg.Done()
			<-start
			b := build(p, p.witness(), p.alone)
			res[i] = &b
		}(i, p)
	}
	close(start)
	wg.Wait()
	judge(r, file, ps, res, "concurrent")
}

func judge(r *rep.Report, file string, ps []*plan, res []*built, how string) {
	for i, p := range ps {
		b := res[i]
		r.Run(1)
		r.Count(how+"/"+p.kind, 1)
		w := p.witness()
		if b.bad != "" {
			r.Violate(file, i, "[%s %s] %s", how, p.kind, b.bad)
			continue
		}
		if b.err != nil {
			r.Violate(file, i, "[%s %s] construction fails: %v", how, p.kind, b.err)
			continue
		}
		for k := 0; k < 1+b2i(how == "interleaved" && p.bits); k++ {
			s := build(p, w, p.alone)
			r.Run(1)
			if s.bad != "" || s.err != nil {
				r.Violate(file, i, "[alone %s] construction fails: %v %s", p.kind, s.err, s.bad)
				break
			}
			if s.digest != b.digest {
				r.Violate(file, i, "[%s %s] the constraint system differs from the one built alone: %s, %s", how, p.kind, b.digest, s.digest)
				break
			}
		}
		if err := p.solve(*b, w); err != nil {
			r.Violate(file, i, "[%s %s] the specified results do not satisfy the circuit: %v", how, p.kind, err)
			continue
		}
		if n := len(w) - len(p.in) - 1; n > 0 {
			k := len(p.in) + (i*7+len(p.acts))%n
			w[k] = new(big.Int).Add(w[k], big.NewInt(1))
			r.Adv(1)
			if p.solve(*b, w) == nil {
				r.Violate(file, i, "[%s %s] a wrong result satisfies the circuit", how, p.kind)
			}
		}
	}
}

// lists: range checks asked for from several goroutines on behalf of one builder all reach it, and no other builder.
func lists(a rep.Args, r *rep.Report) {
	rounds := 1
	if a.Thorough() {
		rounds = 6
	}
	const n = 10
	for round := 0; round < rounds; round++ {
		kinds := []string{"r1cs", "scs", "r1cs"}
		ccs := make([]constraint.ConstraintSystem, len(kinds))
		errs := make([]error, len(kinds))
		width := func(k int) uint { return 16 + 16*uint(k%2) }
		var wg sync.WaitGroup
		for k := range kinds {
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				ccs[k], errs[k] = cs.Compile(kinds[k], n+1, func(api frontend.API, v []frontend.Variable) error {
					var in sync.WaitGroup
					for i := 0; i < n; i++ {
						in.Add(1)
						go func(i int) {
							defer in.Done()
							g := gl.New(api)
							for j := 0; j < filler/n; j++ {
								g.RangeCheckWithMaxBits(gl.NewVariable(v[n]), 16)
							}
							g.RangeCheckWithMaxBits(gl.NewVariable(v[i]), uint64(width(k)))
						}(i)
					}
					in.Wait()
					api.AssertIsEqual(v[n], 7)
					return nil
				})
			}(k)
		}
		wg.Wait()
		for k := range kinds {
			r.Run(1)
			if errs[k] != nil {
				r.Violate("", round, "[%s] range checks asked for concurrently: %v", kinds[k], errs[k])
				continue
			}
			w := make([]*big.Int, n+1)
			lim := new(big.Int).Lsh(big.NewInt(1), width(k))
			for i := range w {
				w[i] = new(big.Int).Sub(lim, big.NewInt(int64(i+1)))
			}
			w[n] = big.NewInt(7)
			if err := cs.Solve(ccs[k], w, cs.Commitments(ccs[k])...); err != nil {
				r.Violate("", round, "[%s] values in range are refused after concurrent range checks: %v", kinds[k], err)
			}
			for i := round % 3; i < n; i += 3 {
				old := w[i]
				w[i] = lim
				r.Adv(1)
				if cs.Solve(ccs[k], w, cs.Commitments(ccs[k])...) == nil {
					r.Violate("", round, "[%s] a range check asked for concurrently was lost", kinds[k])
					break
				}
				w[i] = old
			}
		}
	}
}
