package main

import (
	"fmt"
	"math/big"

	"github.com/consensys/gnark/constraint/solver"
	"github.com/consensys/gnark/frontend"
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
	"github.com/succinctlabs/gnark-plonky2-verifier/poseidon"
	"verif/harness/adv"
	"verif/harness/cs"
	"verif/harness/engine"
	"verif/harness/itf"
	"verif/harness/rep"
)

// gadget applies the operation of a statement to circuit variables and returns its results.
func gadget(api frontend.API, op string, in []frontend.Variable, lit []*big.Int) []frontend.Variable {
	g := gl.New(api)
	b := func(i int) gl.Variable { return gl.NewVariable(in[i]) }
	x := func(i int) gl.QuadraticExtensionVariable {
		return gl.NewQuadraticExtensionVariable(gl.NewVariable(in[i]), gl.NewVariable(in[i+1]))
	}
	one := func(v gl.Variable) []frontend.Variable { return []frontend.Variable{v.Limb} }
	two := func(v gl.QuadraticExtensionVariable) []frontend.Variable {
		return []frontend.Variable{v[0].Limb, v[1].Limb}
	}
	switch op {
	case "mulAdd":
		return one(g.MulAdd(b(0), b(1), b(2)))
	case "add":
		return one(g.Add(b(0), b(1)))
	case "sub":
		return one(g.Sub(b(0), b(1)))
	case "mul":
		return one(g.Mul(b(0), b(1)))
	case "inv":
		v, ok := g.Inverse(b(0))
		api.AssertIsEqual(ok, 1)
		return one(v)
	case "reduce":
		return one(g.Reduce(b(0)))
	case "reduceBits":
		return one(g.ReduceWithMaxBits(b(0), lit[1].Uint64()))
	case "addE":
		return two(g.AddExtension(x(0), x(2)))
	case "subE":
		return two(g.SubExtension(x(0), x(2)))
	case "mulE":
		return two(g.MulExtension(x(0), x(2)))
	case "mulAddE":
		return two(g.MulAddExtension(x(0), x(2), x(4)))
	case "subMulE":
		return two(g.SubMulExtension(x(0), x(2), x(4)))
	case "scalarMulE":
		return two(g.ScalarMulExtension(x(0), b(2)))
	case "invE":
		v, ok := g.InverseExtension(x(0))
		api.AssertIsEqual(ok, 1)
		return two(v)
	case "divE":
		v, ok := g.DivExtension(x(0), x(2))
		api.AssertIsEqual(ok, 1)
		return two(v)
	case "expE":
		return two(g.ExpExtension(x(0), lit[2].Uint64()))
	case "perm":
		var st poseidon.GoldilocksState
		for i := range st {
			st[i] = b(i)
		}
		st = poseidon.NewGoldilocksChip(api).Poseidon(st)
		var out []frontend.Variable
		for i := range st {
			out = append(out, st[i].Limb)
		}
		return out
	case "toVec":
		var out []frontend.Variable
		for _, v := range poseidon.NewBN254Chip(api).ToVec(in[0]) {
			out = append(out, v.Limb)
		}
		return out
	}
	panic("unknown gadget " + op)
}

func frs(l []*big.Int) []frontend.Variable {
	r := make([]frontend.Variable, len(l))
	for i := range l {
		r[i] = engine.ToFr(l[i])
	}
	return r
}

type statement struct {
	t    *itf.Trace
	step int
	op   string
	args []*big.Int
	out  []*big.Int
}

func sameOut(got []frontend.Variable, want []*big.Int) string {
	if len(got) != len(want) {
		return fmt.Sprintf("%d results instead of %d", len(got), len(want))
	}
	for i := range got {
		if engine.Big(got[i]).Cmp(want[i]) != 0 {
			return fmt.Sprintf("result[%d] = %s instead of %s", i, engine.Big(got[i]), want[i])
		}
	}
	return ""
}

func playHints(a rep.Args, r *rep.Report) {
	cs.BitDecomp(false)
	var sts []statement
	for _, f := range a.Files {
		t := itf.MustRead(f)
		r.Trace(len(t.States))
		for i := range t.States {
			e := t.Event(i)
			if op := itf.Str(e["op"]); op != "init" {
				sts = append(sts, statement{t, i, op, itf.Ints(e["args"]), itf.Ints(e["out"])})
			}
		}
	}
	r.Parallel(len(sts), func(i int) {
		s := sts[i]
		modes := []engine.Mode{engine.Native}
		if s.op != "perm" && (i%5 == 0 || a.Thorough()) {
			modes = append(modes, engine.BitDecomp)
		}
		for _, m := range modes {
			playStatement(a, r, s, m)
		}
	})
	// the same game on compiled constraint systems, through gnark's own solver
	cs.BitDecomp(true)
	defer cs.BitDecomp(false)
	seen := map[string]int{}
	var sel []statement
	lim := 4
	if a.Thorough() {
		lim = 12
	}
	for _, s := range sts {
		if s.op == "toVec" || seen[s.op] >= lim || (s.op == "perm" && seen[s.op] >= 1) {
			continue
		}
		seen[s.op]++
		sel = append(sel, s)
	}
	r.Parallel(len(sel), func(i int) { playCompiled(a, r, sel[i]) })
}

func playStatement(a rep.Args, r *rep.Report, s statement, mode engine.Mode) {
	// honest run
	e := engine.New(mode)
	e.Record = true
	var out []frontend.Variable
	o := e.Run(func(api frontend.API) { out = gadget(api, s.op, frs(s.args), s.args) })
	r.Run(1)
	if !o.Sat() {
		r.Violate(s.t.File, s.step, "[%s] %s%v: honest witness refused: %s %s", mode, s.op, s.args, o.Kind, o.Msg)
		return
	}
	if d := sameOut(out, s.out); d != "" {
		r.Violate(s.t.File, s.step, "[%s] %s%v: %s", mode, s.op, s.args, d)
		return
	}
	n := len(e.Hints)
	stride := 1
	if s.op == "perm" && !a.Thorough() {
		stride = 7
	}
	runs := 0
	for call := (s.step % stride); call < n; call += stride {
		kind := adv.Kind(e.Hints[call].Name)
		secs := 1
		if kind == "muladd" || kind == "reduce" || kind == "inverse" {
			secs = adv.Secondary
			if s.op == "perm" {
				secs = 2
			}
		}
		if s.op != "toVec" && kind == "bits" && call > 40 {
			continue
		}
		for _, mv := range adv.Moves[kind] {
			for sec := 0; sec < secs; sec++ {
				applied := false
				e2 := engine.New(mode)
				e2.OnHint = adv.Prover(call, mv, sec, &applied)
				var out2 []frontend.Variable
				o2 := e2.Run(func(api frontend.API) { out2 = gadget(api, s.op, frs(s.args), s.args) })
				if !applied {
					continue
				}
				runs++
				if o2.Sat() {
					if d := sameOut(out2, s.out); d != "" {
						r.Violate(s.t.File, s.step, "[%s] %s%v: prover move %s/%d at request %d (%s) is accepted with %s", mode, s.op, s.args, mv, sec, call, kind, d)
						return
					}
				}
			}
		}
	}
	r.Adv(runs)
	r.Count("moves_"+s.op, runs)
	r.Sample(map[string]any{"op": s.op, "args": fmt.Sprint(s.args), "out": fmt.Sprint(s.out), "requests": n, "moves_played": runs, "mode": mode.String()})
}

// playCompiled replays the most dangerous moves against the compiled R1CS with solver.OverrideHint.
func playCompiled(a rep.Args, r *rep.Report, s statement) {
	nIn := len(s.args)
	ccs, err := cs.Compile("r1cs", nIn+len(s.out), func(api frontend.API, in []frontend.Variable) error {
		out := gadget(api, s.op, in[:nIn], s.args)
		// accept iff some result differs from the specified one
		same := frontend.Variable(1)
		for i := range out {
			same = api.Mul(same, api.IsZero(api.Sub(out[i], in[nIn+i])))
		}
		api.AssertIsEqual(same, 0)
		return nil
	})
	if err != nil {
		r.Violate(s.t.File, s.step, "[r1cs] %s does not compile: %v", s.op, err)
		return
	}
	in := append(append([]*big.Int{}, s.args...), s.out...)
	if err := cs.Solve(ccs, in); err == nil {
		r.Violate(s.t.File, s.step, "[r1cs] %s%v: the honest result differs from the specification", s.op, s.args)
		return
	}
	runs := 0
	for _, kind := range []string{"muladd", "reduce"} {
		for _, mv := range []string{"wrap1", "wrap3", "wrap5", "free+1", "freeHi", "borrow", "unreduced"} {
			for sec := 0; sec < adv.Secondary; sec++ {
				if s.op == "perm" && sec > 1 {
					continue
				}
				if cs.Solve(ccs, in, overrides(kind, mv, sec)...) == nil {
					r.Violate(s.t.File, s.step, "[r1cs] %s%v: overriding the %s hint with move %s/%d satisfies the compiled circuit with a wrong result", s.op, s.args, kind, mv, sec)
					return
				}
				runs++
			}
		}
	}
	r.Adv(runs)
	r.Count("compiled_moves", runs)
}

// overrides answers every hint of the given kind with the move and all others leniently.
func overrides(kind, mv string, sec int) []solver.Option {
	mk := func(f solver.Hint, k string) solver.Option {
		name := solver.GetHintName(f)
		return solver.OverrideHint(solver.GetHintID(f), func(m *big.Int, in, out []*big.Int) error {
			c := &engine.HintCall{Name: name, Index: 0, Inputs: in, Outputs: make([]*big.Int, len(out))}
			for i := range out {
				c.Outputs[i] = new(big.Int)
			}
			call := -1
			if k == kind {
				call = 0
			}
			applied := false
			if !adv.Prover(call, mv, sec, &applied)(c) {
				return f(m, in, out)
			}
			for i := range out {
				out[i].Set(c.Outputs[i])
			}
			return nil
		})
	}
	return []solver.Option{mk(gl.MulAddHint, "muladd"), mk(gl.ReduceHint, "reduce"), mk(gl.SplitLimbsHint, "split"), mk(gl.InverseHint, "inverse")}
}
