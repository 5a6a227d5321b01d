package main

import (
	"fmt"
	"math/big"

	"github.com/consensys/gnark-crypto/field/goldilocks"
	"github.com/consensys/gnark/frontend"
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
	"verif/harness/cs"
	"verif/harness/engine"
	"verif/harness/itf"
	"verif/harness/rep"
)

var P, _ = new(big.Int).SetString("18446744069414584321", 10)

type opEvent struct {
	op   string
	args []int
	aux  []*big.Int
	out  []*big.Int
	sat  bool
}

func readOps(t *itf.Trace) []opEvent {
	var evs []opEvent
	for i := range t.States {
		e := t.Event(i)
		if itf.Str(e["op"]) == "init" {
			continue
		}
		evs = append(evs, opEvent{itf.Str(e["op"]), itf.Idx(e["args"]), itf.Ints(e["aux"]), itf.Ints(e["out"]), itf.Bool(e["sat"])})
	}
	return evs
}

// result of one event in the real code
type opResult struct {
	vals  []frontend.Variable
	exact bool // must equal the canonical residue exactly (otherwise only modulo P)
}

type machine struct {
	api   frontend.API
	g     *gl.Chip
	regs  []gl.Variable
	canon []bool
	eregs []gl.QuadraticExtensionVariable
	ecan  []bool
	aregs []gl.QuadraticExtensionAlgebraVariable
	// fresh supplies the circuit variable for an input value
	fresh func(v *big.Int) frontend.Variable
}

func newMachine(api frontend.API, fresh func(v *big.Int) frontend.Variable) *machine {
	m := &machine{api: api, g: gl.New(api), fresh: fresh}
	m.regs = []gl.Variable{gl.Zero(), gl.One(), gl.NegOne()}
	m.canon = []bool{true, true, true}
	m.eregs = []gl.QuadraticExtensionVariable{gl.ZeroExtension(), gl.OneExtension(), gl.NewQuadraticExtensionVariable(gl.NegOne(), gl.NegOne())}
	m.ecan = []bool{true, true, true}
	m.aregs = []gl.QuadraticExtensionAlgebraVariable{gl.ZeroExtensionAlgebra(), gl.OneExtensionAlgebra()}
	return m
}

func (m *machine) in(v *big.Int, c *big.Int) frontend.Variable {
	if c.Sign() != 0 {
		return v.Uint64()
	}
	return m.fresh(v)
}

// fixed reports whether operand i of n given with a step is a circuit constant (operands of an extension
// operation come in pairs of coordinates and share the choice)
func fixed(aux []*big.Int, i int) bool {
	n := len(aux) - 1
	if n == 6 {
		i /= 2
	}
	return aux[n].Bit(i) == 1
}

// direct supplies the operands of an event that carries its own; the last number says which are constants
func (m *machine) direct(aux []*big.Int) []gl.Variable {
	var l []gl.Variable
	for i, v := range aux[:len(aux)-1] {
		if fixed(aux, i) {
			l = append(l, gl.NewVariable(v.Uint64()))
		} else {
			l = append(l, gl.NewVariable(m.fresh(v)))
		}
	}
	return l
}

func (m *machine) push(v gl.Variable, canon bool) opResult {
	m.regs = append(m.regs, v)
	m.canon = append(m.canon, canon)
	return opResult{[]frontend.Variable{v.Limb}, canon}
}
func (m *machine) epush(v gl.QuadraticExtensionVariable, canon bool) opResult {
	m.eregs = append(m.eregs, v)
	m.ecan = append(m.ecan, canon)
	return opResult{[]frontend.Variable{v[0].Limb, v[1].Limb}, canon}
}
func (m *machine) apush(v gl.QuadraticExtensionAlgebraVariable) opResult {
	m.aregs = append(m.aregs, v)
	return opResult{[]frontend.Variable{v[0][0].Limb, v[0][1].Limb, v[1][0].Limb, v[1][1].Limb}, true}
}

func glElem(v *big.Int) goldilocks.Element { return goldilocks.NewElement(v.Uint64()) }

func (m *machine) step(e opEvent) opResult {
	g := m.g
	r := func(i int) gl.Variable { return m.regs[e.args[i]] }
	x := func(i int) gl.QuadraticExtensionVariable { return m.eregs[e.args[i]] }
	a := func(i int) gl.QuadraticExtensionAlgebraVariable { return m.aregs[e.args[i]] }
	exts := func(from int) []gl.QuadraticExtensionVariable {
		var l []gl.QuadraticExtensionVariable
		for i := from; i < len(e.args); i++ {
			l = append(l, x(i))
		}
		return l
	}
	switch e.op {
	case "in":
		return m.push(gl.NewVariable(m.in(e.aux[0], e.aux[1])), true)
	case "ein":
		return m.epush(gl.NewQuadraticExtensionVariable(gl.NewVariable(m.in(e.aux[0], e.aux[2])), gl.NewVariable(m.in(e.aux[1], e.aux[2]))), true)
	case "mulAddIn", "mulIn", "addIn", "subIn":
		in := m.direct(e.aux)
		switch e.op {
		case "mulAddIn":
			return m.push(g.MulAdd(in[0], in[1], in[2]), true)
		case "mulIn":
			return m.push(g.Mul(in[0], in[1]), true)
		case "addIn":
			return m.push(g.Add(in[0], in[1]), true)
		}
		return m.push(g.Sub(in[0], in[1]), true)
	case "mulAddEIn":
		in := m.direct(e.aux)
		return m.epush(g.MulAddExtension(gl.NewQuadraticExtensionVariable(in[0], in[1]), gl.NewQuadraticExtensionVariable(in[2], in[3]), gl.NewQuadraticExtensionVariable(in[4], in[5])), true)
	case "reduceIn":
		v := gl.NewVariable(m.fresh(e.aux[0]))
		if e.aux[1].Sign() == 0 {
			return m.push(g.Reduce(v), true)
		}
		return m.push(g.ReduceWithMaxBits(v, e.aux[1].Uint64()), true)
	case "add":
		return m.push(g.Add(r(0), r(1)), true)
	case "sub":
		return m.push(g.Sub(r(0), r(1)), true)
	case "mul":
		return m.push(g.Mul(r(0), r(1)), true)
	case "addNR":
		return m.push(g.AddNoReduce(r(0), r(1)), false)
	case "subNR":
		return m.push(g.SubNoReduce(r(0), r(1)), false)
	case "mulNR":
		return m.push(g.MulNoReduce(r(0), r(1)), false)
	case "mulAdd":
		return m.push(g.MulAdd(r(0), r(1), r(2)), true)
	case "mulAddNR":
		return m.push(g.MulAddNoReduce(r(0), r(1), r(2)), false)
	case "reduce":
		return m.push(g.Reduce(r(0)), true)
	case "reduceBits":
		return m.push(g.ReduceWithMaxBits(r(0), e.aux[0].Uint64()), true)
	case "inv":
		v, ok := g.Inverse(r(0))
		m.api.AssertIsEqual(ok, 1)
		return m.push(v, true)
	case "invZero":
		_, ok := g.Inverse(r(0))
		return opResult{[]frontend.Variable{ok}, true}
	case "assertEq":
		g.AssertIsEqual(r(0), r(1))
		return opResult{}
	case "rangeCheck":
		g.RangeCheck(r(0))
		return opResult{}
	case "root":
		v := gl.PrimitiveRootOfUnity(e.aux[0].Uint64())
		return opResult{[]frontend.Variable{v.Uint64()}, true}
	case "subgroup":
		var l []frontend.Variable
		for _, v := range gl.TwoAdicSubgroup(e.aux[0].Uint64()) {
			l = append(l, v.Uint64())
		}
		return opResult{l, true}
	case "addE":
		return m.epush(g.AddExtension(x(0), x(1)), true)
	case "subE":
		return m.epush(g.SubExtension(x(0), x(1)), true)
	case "mulE":
		return m.epush(g.MulExtension(x(0), x(1)), true)
	case "addENR":
		return m.epush(g.AddExtensionNoReduce(x(0), x(1)), false)
	case "subENR":
		return m.epush(g.SubExtensionNoReduce(x(0), x(1)), false)
	case "mulENR":
		return m.epush(g.MulExtensionNoReduce(x(0), x(1)), false)
	case "mulAddE":
		return m.epush(g.MulAddExtension(x(0), x(1), x(2)), true)
	case "subMulE":
		return m.epush(g.SubMulExtension(x(0), x(1), x(2)), true)
	case "mulAddENR":
		return m.epush(g.MulAddExtensionNoReduce(x(0), x(1), x(2)), false)
	case "reduceE":
		return m.epush(g.ReduceExtension(x(0)), true)
	case "scalarMulE":
		return m.epush(g.ScalarMulExtension(x(0), m.regs[e.args[1]]), true)
	case "invE":
		v, ok := g.InverseExtension(x(0))
		m.api.AssertIsEqual(ok, 1)
		return m.epush(v, true)
	case "divE":
		v, ok := g.DivExtension(x(0), x(1))
		m.api.AssertIsEqual(ok, 1)
		return m.epush(v, true)
	case "expE":
		return m.epush(g.ExpExtension(x(0), e.aux[0].Uint64()), true)
	case "isZeroE":
		return opResult{[]frontend.Variable{g.IsZero(x(0))}, true}
	case "lookupE":
		return m.epush(g.Lookup(m.fresh(e.aux[0]), x(0), x(1)), true)
	case "lookup2E":
		return m.epush(g.Lookup2(m.fresh(e.aux[0]), m.fresh(e.aux[1]), x(0), x(1), x(2), x(3)), true)
	case "reducePowers":
		return m.epush(g.ReduceWithPowers(exts(1), x(0)), true)
	case "innerProduct":
		var pairs [][2]gl.QuadraticExtensionVariable
		for i := 2; i+1 < len(e.args); i += 2 {
			pairs = append(pairs, [2]gl.QuadraticExtensionVariable{x(i), x(i + 1)})
		}
		return m.epush(g.InnerProductExtension(m.regs[e.args[0]], x(1), pairs), true)
	case "assertEqE":
		g.AssertIsEqualExtension(x(0), x(1))
		return opResult{}
	case "ain":
		return m.apush(gl.NewQuadraticExtensionAlgebraVariable(x(0), x(1)))
	case "addA":
		return m.apush(g.AddExtensionAlgebra(a(0), a(1)))
	case "subA":
		return m.apush(g.SubExtensionAlgebra(a(0), a(1)))
	case "mulA":
		return m.apush(g.MulExtensionAlgebra(a(0), a(1)))
	case "scalarMulA":
		return m.apush(g.ScalarMulExtensionAlgebra(x(0), a(1)))
	case "interpA":
		var dom, w []goldilocks.Element
		var vals []gl.QuadraticExtensionAlgebraVariable
		for i := 3; i < len(e.args); i++ {
			vals = append(vals, a(i))
			dom = append(dom, glElem(e.aux[2*(i-3)]))
			w = append(w, glElem(e.aux[2*(i-3)+1]))
		}
		ev, pr := g.PartialInterpolateExtAlgebra(dom, vals, w, a(0), a(1), a(2))
		p1 := m.apush(ev)
		p2 := m.apush(pr)
		return opResult{append(p1.vals, p2.vals...), true}
	}
	panic("unknown op " + e.op)
}

func matches(got *big.Int, want *big.Int, exact bool) bool {
	if exact {
		return got.Cmp(want) == 0
	}
	return new(big.Int).Mod(got, P).Cmp(want) == 0
}

// replayOps replays programs of the register machine in the interpreting engine (all events compared
// after every step) and in the real R1CS / sparse builders (results asserted in circuit).
func replayOps(a rep.Args, r *rep.Report) {
	cs.BitDecomp(false)
	traces := make([]*itf.Trace, len(a.Files))
	r.Parallel(len(a.Files), func(i int) { traces[i] = itf.MustRead(a.Files[i]) })
	r.Parallel(len(traces), func(i int) {
		t := traces[i]
		evs := readOps(t)
		r.Trace(len(t.States))
		modes := []engine.Mode{engine.Native}
		if i%4 == 0 || a.Thorough() {
			modes = append(modes, engine.BitDecomp)
		}
		for _, mode := range modes {
			replayOpsEngine(r, t, evs, mode)
		}
	})
	// real builders (environment switch is process wide: done after the engine runs)
	cs.BitDecomp(true)
	defer cs.BitDecomp(false)
	r.Parallel(len(traces), func(i int) {
		evs := readOps(traces[i])
		kinds := []string{"r1cs"}
		if i%3 == 0 || a.Thorough() {
			kinds = append(kinds, "scs")
		}
		for _, kind := range kinds {
			replayOpsCS(r, traces[i], evs, kind)
		}
	})
}

func replayOpsEngine(r *rep.Report, t *itf.Trace, evs []opEvent, mode engine.Mode) {
	e := engine.New(mode)
	last := -1
	bad := false
	o := e.Run(func(api frontend.API) {
		m := newMachine(api, func(v *big.Int) frontend.Variable { return engine.ToFr(v) })
		for i, ev := range evs {
			last = i
			res := m.step(ev)
			if !ev.sat {
				continue
			}
			if len(res.vals) != len(ev.out) && ev.op != "assertEq" {
				r.Violate(t.File, i+1, "%s: %d results, specification has %d", ev.op, len(res.vals), len(ev.out))
				bad = true
				return
			}
			for k := range res.vals {
				if !matches(engine.Big(res.vals[k]), ev.out[k], res.exact) {
					r.Violate(t.File, i+1, "[%s] %s%v aux=%v: result[%d] = %s, specification requires %s", mode, ev.op, ev.args, ev.aux, k, engine.Big(res.vals[k]), ev.out[k])
					bad = true
					return
				}
			}
		}
	})
	r.Run(1)
	r.Count("engine_"+mode.String(), 1)
	if bad {
		return
	}
	expectSat := true
	if len(evs) > 0 {
		expectSat = evs[len(evs)-1].sat
	}
	if o.Sat() != expectSat {
		r.Violate(t.File, last+1, "[%s] at %s%v: outcome %s (%s), specification: satisfiable=%v", mode, evs[last].op, evs[last].args, o.Kind, o.Msg, expectSat)
	}
	if !expectSat && last != len(evs)-1 {
		r.Violate(t.File, last+1, "[%s] refused at step %d (%s) although only the final step is unsatisfiable: %s", mode, last+1, evs[last].op, o.Msg)
	}
	if len(evs) > 5 {
		r.Sample(map[string]any{"trace": t.File, "mode": mode.String(), "steps": len(evs), "op": evs[5].op, "args": evs[5].args, "out": fmt.Sprint(evs[5].out), "expect_sat": expectSat})
	}
}

func replayOpsCS(r *rep.Report, t *itf.Trace, evs []opEvent, kind string) {
	var in []*big.Int
	// input vector: fresh values in program order, then the expected results
	collect := func(v *big.Int) { in = append(in, v) }
	for _, ev := range evs {
		switch ev.op {
		case "in":
			if ev.aux[1].Sign() == 0 {
				collect(ev.aux[0])
			}
		case "ein":
			if ev.aux[2].Sign() == 0 {
				collect(ev.aux[0])
				collect(ev.aux[1])
			}
		case "mulAddIn", "mulIn", "addIn", "subIn", "mulAddEIn":
			for i, v := range ev.aux[:len(ev.aux)-1] {
				if !fixed(ev.aux, i) {
					collect(v)
				}
			}
		case "lookupE", "reduceIn":
			collect(ev.aux[0])
		case "lookup2E":
			collect(ev.aux[0])
			collect(ev.aux[1])
		}
	}
	nFresh := len(in)
	for _, ev := range evs {
		in = append(in, ev.out...)
	}
	if len(in) == 0 {
		return
	}
	refused := ""
	ccs, err := cs.Compile(kind, len(in), func(api frontend.API, vars []frontend.Variable) error {
		k := 0
		m := newMachine(api, func(v *big.Int) frontend.Variable { k++; return vars[k-1] })
		q := nFresh
		for _, ev := range evs {
			res := m.step(ev)
			for j := range ev.out {
				if !ev.sat || len(res.vals) == 0 {
					break
				}
				if res.exact {
					api.AssertIsEqual(res.vals[j], vars[q+j])
				} else {
					api.AssertIsEqual(m.g.Reduce(gl.NewVariable(res.vals[j])).Limb, vars[q+j])
				}
			}
			q += len(ev.out)
		}
		return nil
	})
	r.Run(1)
	r.Count("compiled_"+kind, 1)
	if err == nil {
		err = cs.Solve(ccs, in)
	}
	if err != nil {
		refused = err.Error()
	}
	expectSat := len(evs) == 0 || evs[len(evs)-1].sat
	if (refused == "") != expectSat {
		r.Violate(t.File, len(evs), "[%s] compiled program: refused=%q, specification: satisfiable=%v", kind, refused, expectSat)
	}
}
