// vgates replays specification behaviours into the custom gates and the quotient identity.
package main

import (
	"fmt"
	"math/big"
	"os"

	"github.com/consensys/gnark/frontend"
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
	"github.com/succinctlabs/gnark-plonky2-verifier/plonk"
	"github.com/succinctlabs/gnark-plonky2-verifier/plonk/gates"
	"github.com/succinctlabs/gnark-plonky2-verifier/poseidon"
	"github.com/succinctlabs/gnark-plonky2-verifier/types"
	"github.com/succinctlabs/gnark-plonky2-verifier/variables"
	"verif/harness/adv"
	"verif/harness/cs"
	"verif/harness/engine"
	"verif/harness/gid"
	"verif/harness/itf"
	"verif/harness/rep"
)

func exts(in []frontend.Variable) []gl.QuadraticExtensionVariable {
	r := make([]gl.QuadraticExtensionVariable, len(in)/2)
	for i := range r {
		r[i] = gl.NewQuadraticExtensionVariable(gl.NewVariable(in[2*i]), gl.NewVariable(in[2*i+1]))
	}
	return r
}
func flat(in []gl.QuadraticExtensionVariable) []frontend.Variable {
	r := []frontend.Variable{}
	for _, e := range in {
		r = append(r, e[0].Limb, e[1].Limb)
	}
	return r
}
func frs(l []*big.Int) []frontend.Variable {
	r := make([]frontend.Variable, len(l))
	for i := range l {
		r[i] = engine.ToFr(l[i])
	}
	return r
}
func bases(in []frontend.Variable) []gl.Variable {
	r := make([]gl.Variable, len(in))
	for i := range in {
		r[i] = gl.NewVariable(in[i])
	}
	return r
}
func hash(in []frontend.Variable) (h poseidon.GoldilocksHashOut) { copy(h[:], bases(in)); return }

func gateID(g map[string]any) string {
	return gid.ID(itf.Str(g["kind"]), itf.Idx(g["p"]), itf.Ints(g["ws"]))
}

type row struct {
	id                      string
	kind                    string
	wires, consts, pih, out []*big.Int
}

func evalRow(api frontend.API, w row, in []frontend.Variable) []frontend.Variable {
	a, b := len(w.wires), len(w.wires)+len(w.consts)
	g := gates.GateInstanceFromId(w.id)
	v := gates.NewEvaluationVars(exts(in[a:b]), exts(in[:a]), hash(in[b:]))
	return flat(g.EvalUnfiltered(api, gl.New(api), *v))
}

func rows(a rep.Args, r *rep.Report) {
	cs.BitDecomp(false)
	type item struct {
		t *itf.Trace
		i int
		w row
	}
	var items []item
	for _, f := range a.Files {
		t := itf.MustRead(f)
		r.Trace(len(t.States))
		for i := range t.States {
			e := t.Event(i)
			if itf.Str(e["op"]) != "row" {
				continue
			}
			g := itf.Rec(e["gate"])
			items = append(items, item{t, i, row{gateID(g), itf.Str(g["kind"]), itf.Ints(e["wires"]), itf.Ints(e["consts"]), itf.Ints(e["pih"]), itf.Ints(e["out"])}})
		}
	}
	r.Parallel(len(items), func(k int) {
		it := items[k]
		modes := []engine.Mode{engine.Native}
		if k%8 == 0 || a.Thorough() {
			modes = append(modes, engine.BitDecomp)
		}
		for _, m := range modes {
			e := engine.New(m)
			done := false
			o := e.Run(func(api frontend.API) {
				args := append(append(append([]*big.Int{}, it.w.wires...), it.w.consts...), it.w.pih...)
				in := frs(args)
				out := evalRow(api, it.w, in)
				r.Count(it.w.kind, 1)
				done = true
				for j := range in {
					if engine.Big(in[j]).Cmp(args[j]) != 0 {
						r.Violate(it.t.File, it.i, "[%s] evaluating %s modifies its input %d", m, it.w.id, j)
						return
					}
				}
				if len(out) != len(it.w.out) {
					r.Violate(it.t.File, it.i, "[%s] %s has %d constraints, the specification %d", m, it.w.id, len(out)/2, len(it.w.out)/2)
					return
				}
				for j := range out {
					if engine.Big(out[j]).Cmp(it.w.out[j]) != 0 {
						r.Violate(it.t.File, it.i, "[%s] %s: coordinate %d of constraint %d = %s, the specification requires %s", m, it.w.id, j%2, j/2, engine.Big(out[j]), it.w.out[j])
						return
					}
				}
			})
			r.Run(1)
			if !done || !o.Sat() {
				r.Violate(it.t.File, it.i, "[%s] %s cannot be evaluated: %s %s", m, it.w.id, o.Kind, o.Msg)
			}
		}
	})
	// compiled circuits
	cs.BitDecomp(true)
	seen := map[string]int{}
	lim := 1
	if a.Thorough() {
		lim = 6
	}
	var js []item
	for _, it := range items {
		if seen[it.w.kind] < lim && len(it.w.wires) < 150 {
			seen[it.w.kind]++
			js = append(js, it)
		}
	}
	r.Parallel(len(js), func(k int) {
		it := js[k]
		args := append(append(append([]*big.Int{}, it.w.wires...), it.w.consts...), it.w.pih...)
		d := cs.Outputs([]string{"r1cs", "scs"}[k%2], args, it.w.out, func(api frontend.API, in []frontend.Variable) []frontend.Variable { return evalRow(api, it.w, in) })
		r.Run(2)
		r.Count("compiled", 1)
		if d != "" {
			r.Violate(it.t.File, it.i, "%s: %s", it.w.id, d)
		}
	})
	if len(items) > 0 {
		r.Sample(map[string]any{"gate": items[0].w.id, "constraints": len(items[0].w.out) / 2})
	}
}

func u64s(l []int) []uint64 {
	r := make([]uint64, len(l))
	for i := range l {
		r[i] = uint64(l[i])
	}
	return r
}

func identity(a rep.Args, r *rep.Report) {
	cs.BitDecomp(false)
	type item struct {
		t *itf.Trace
		i int
	}
	var items []item
	for _, f := range a.Files {
		t := itf.MustRead(f)
		r.Trace(len(t.States))
		for i := range t.States {
			if itf.Str(t.Event(i)["op"]) != "init" {
				items = append(items, item{t, i})
			}
		}
	}
	accepted, refused := 0, 0
	r.Parallel(len(items), func(k int) {
		it := items[k]
		ev := it.t.Event(it.i)
		cdm, chm, om := itf.Rec(ev["cd"]), itf.Rec(ev["ch"]), itf.Rec(ev["o"])
		var cd types.CommonCircuitData
		var ids []string
		for _, g := range itf.List(cdm["gs"]) {
			ids = append(ids, gateID(itf.Rec(g)))
		}
		var starts, ends []uint64
		for _, g := range itf.List(cdm["groups"]) {
			p := itf.Idx(g)
			starts, ends = append(starts, uint64(p[0])), append(ends, uint64(p[1]))
		}
		cd.GateIds = ids
		cd.SelectorsInfo = *gates.NewSelectorsInfo(u64s(itf.Idx(cdm["sel"])), starts, ends)
		cd.NumGateConstraints = uint64(itf.I(cdm["ngc"]))
		cd.QuotientDegreeFactor = uint64(itf.I(cdm["q"]))
		cd.NumPartialProducts = uint64(itf.I(cdm["npp"]))
		cd.Config.NumChallenges = uint64(itf.I(cdm["nch"]))
		cd.Config.NumRoutedWires = uint64(itf.I(cdm["routed"]))
		cd.FriParams.DegreeBits = uint64(itf.I(cdm["degreeBits"]))
		cd.DegreeBits = cd.FriParams.DegreeBits
		for _, x := range itf.Ints(cdm["kis"]) {
			cd.KIs = append(cd.KIs, x.Uint64())
		}
		in := func(m map[string]any, n string) []frontend.Variable { return frs(itf.Ints(m[n])) }
		accept := itf.Bool(ev["accept"])
		want := itf.Ints(ev["seen_"])
		run := func(m engine.Mode, hint func(c *engine.HintCall) bool, what string) {
			e := engine.New(m)
			e.OnHint = hint
			wrong := ""
			o := e.Run(func(api frontend.API) {
				open := variables.OpeningSet{
					Constants: exts(in(om, "constants")), PlonkSigmas: exts(in(om, "sigmas")), Wires: exts(in(om, "wires")),
					PlonkZs: exts(in(om, "zs")), PlonkZsNext: exts(in(om, "zsNext")), PartialProducts: exts(in(om, "partials")),
					QuotientPolys: exts(in(om, "quotient"))}
				pih := hash(frs(itf.Ints(ev["pih"])))
				if hint == nil {
					var gs []gates.Gate
					for _, id := range ids {
						gs = append(gs, gates.GateInstanceFromId(id))
					}
					got := flat(gates.NewEvaluateGatesChip(api, gs, cd.NumGateConstraints, cd.SelectorsInfo).EvaluateGateConstraints(*gates.NewEvaluationVars(open.Constants, open.Wires, pih)))
					if len(got) != len(want) {
						wrong = fmt.Sprintf("%d combined gate constraints instead of %d", len(got)/2, len(want)/2)
						return
					}
					for j := range got {
						if engine.Big(got[j]).Cmp(want[j]) != 0 {
							wrong = fmt.Sprintf("combined gate constraint %d is (coordinate %d) %s, the specification requires %s", j/2, j%2, engine.Big(got[j]), want[j])
							return
						}
					}
				}
				z := exts(in(chm, "zeta"))[0]
				ch := variables.ProofChallenges{PlonkBetas: bases(in(chm, "betas")), PlonkGammas: bases(in(chm, "gammas")), PlonkAlphas: bases(in(chm, "alphas")), PlonkZeta: z}
				plonk.NewPlonkChip(api, cd).Verify(ch, open, pih)
			})
			r.Run(1)
			if wrong != "" {
				r.Violate(it.t.File, it.i, "[%s] gates %v: %s", m, ids, wrong)
				return
			}
			switch {
			case accept && !o.Sat():
				r.Violate(it.t.File, it.i, "[%s] openings that satisfy the quotient identity are refused: %s %s", m, o.Kind, o.Msg)
			case !accept && o.Sat():
				r.Violate(it.t.File, it.i, "[%s] openings that do not satisfy the quotient identity are accepted (%s)", m, what)
			case o.Kind == "panic":
				r.Violate(it.t.File, it.i, "[%s] crash instead of a verdict: %s", m, o.Msg)
			}
		}
		run(engine.Native, nil, "honest hints")
		if k%10 == 0 || a.Thorough() {
			run(engine.BitDecomp, nil, "honest hints")
		}
		if !accept {
			r.Adv(1)
			run(engine.Native, adv.Lenient(0), "prover answering hints at will")
		}
	})
	for _, it := range items {
		if itf.Bool(it.t.Event(it.i)["accept"]) {
			accepted++
		} else {
			refused++
		}
	}
	r.Count("identity holds", accepted)
	r.Count("identity broken", refused)
}

func main() {
	a := rep.Parse()
	r := rep.New()
	switch a.Cmd {
	case "rows":
		rows(a, r)
	case "ids":
		ids(a, r)
	case "identity":
		identity(a, r)
	default:
		fmt.Fprintln(os.Stderr, "unknown command", a.Cmd)
		os.Exit(2)
	}
	r.Write(a.Out)
}
