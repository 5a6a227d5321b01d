package main

import (
	"fmt"
	"math/big"

	"github.com/consensys/gnark/frontend"
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
	"github.com/succinctlabs/gnark-plonky2-verifier/types"
	"github.com/succinctlabs/gnark-plonky2-verifier/variables"
	"github.com/succinctlabs/gnark-plonky2-verifier/verifier"
	"verif/harness/cs"
	"verif/harness/engine"
	"verif/harness/itf"
	"verif/harness/rep"
)

type tstep struct {
	op       string
	msg, out []*big.Int
}
type run struct {
	t     *itf.Trace
	at    int
	which string
	shape map[string]any
	steps []tstep
}

func gvs(l []*big.Int) []gl.Variable {
	r := make([]gl.Variable, len(l))
	for i := range l {
		r[i] = gl.NewVariable(engine.ToFr(l[i]))
	}
	return r
}
func gexts(l []*big.Int) []gl.QuadraticExtensionVariable {
	v := gvs(l)
	r := make([]gl.QuadraticExtensionVariable, len(v)/2)
	for i := range r {
		r[i] = gl.NewQuadraticExtensionVariable(v[2*i], v[2*i+1])
	}
	return r
}
func gcap(l []*big.Int) variables.FriMerkleCap {
	r := make(variables.FriMerkleCap, len(l))
	for i := range l {
		r[i] = engine.ToFr(l[i])
	}
	return r
}

func transcripts(a rep.Args, r *rep.Report) {
	cs.BitDecomp(false)
	var runs []run
	for _, f := range a.Files {
		t := itf.MustRead(f)
		r.Trace(len(t.States))
		var cur [2]run
		for i := range t.States {
			st := t.States[i]
			e := itf.Rec(st["tev"])
			op := itf.Str(e["op"])
			switch op {
			case "init":
			case "begin":
				for k := range cur {
					cur[k] = run{t: t, at: i, which: "AB"[k : k+1], shape: itf.Rec(st["shape"])}
				}
			case "finish":
				if cur[0].t != nil {
					runs = append(runs, cur[0], cur[1])
					cur = [2]run{}
				}
			default:
				if cur[0].t != nil {
					cur[0].steps = append(cur[0].steps, tstep{op, itf.Ints(e["a"]), itf.Ints(e["outA"])})
					cur[1].steps = append(cur[1].steps, tstep{op, itf.Ints(e["b"]), itf.Ints(e["outB"])})
				}
			}
		}
	}
	r.Parallel(len(runs), func(k int) {
		u := runs[k]
		open := itf.Idx(u.shape["open"])
		var cd types.CommonCircuitData
		cd.Config.NumChallenges = uint64(itf.I(u.shape["nch"]))
		cd.Config.FriConfig.NumQueryRounds = uint64(itf.I(u.shape["queries"]))
		cd.FriParams.Config = cd.Config.FriConfig
		var p variables.Proof
		var vd variables.VerifierOnlyCircuitData
		var pub []gl.Variable
		want := map[string][][]*big.Int{}
		for _, s := range u.steps {
			switch s.op {
			case "digest":
				vd.CircuitDigest = engine.ToFr(s.msg[0])
			case "public":
				pub = gvs(s.msg)
			case "wires":
				p.WiresCap = gcap(s.msg)
			case "zs":
				p.PlonkZsPartialProductsCap = gcap(s.msg)
			case "quotient":
				p.QuotientPolysCap = gcap(s.msg)
			case "openings":
				x := gexts(s.msg)
				take := func(n int) []gl.QuadraticExtensionVariable {
					h := append([]gl.QuadraticExtensionVariable{}, x[:n]...)
					x = x[n:]
					return h
				}
				o := &p.Openings
				o.Constants, o.PlonkSigmas, o.Wires, o.PlonkZs, o.PartialProducts, o.QuotientPolys, o.PlonkZsNext =
					take(open[0]), take(open[1]), take(open[2]), take(open[3]), take(open[4]), take(open[5]), take(open[6])
			case "commit":
				p.OpeningProof.CommitPhaseMerkleCaps = append(p.OpeningProof.CommitPhaseMerkleCaps, gcap(s.msg))
			case "final":
				p.OpeningProof.FinalPoly.Coeffs = gexts(s.msg)
			case "pow":
				p.OpeningProof.PowWitness = gvs(s.msg)[0]
			}
			want[s.op] = append(want[s.op], s.out)
		}
		modes := []engine.Mode{engine.Native}
		if k%16 == 0 || a.Thorough() {
			modes = append(modes, engine.BitDecomp)
		}
		for _, m := range modes {
			bad := ""
			eq := func(name string, i int, got []gl.Variable) {
				w := want[name][i]
				if len(got) != len(w) {
					if bad == "" {
						bad = fmt.Sprintf("%s: %d values instead of %d", name, len(got), len(w))
					}
					return
				}
				for j := range w {
					if engine.Big(got[j].Limb).Cmp(w[j]) != 0 && bad == "" {
						bad = fmt.Sprintf("%s[%d]: value %d is %s, the protocol prescribes %s", name, i, j, engine.Big(got[j].Limb), w[j])
					}
				}
			}
			o := engine.New(m).Run(func(api frontend.API) {
				v := verifier.NewVerifierChip(api, cd)
				h := v.GetPublicInputsHash(pub)
				eq("public", 0, h[:])
				ch := v.GetChallenges(p, h, vd)
				eq("betas", 0, ch.PlonkBetas)
				eq("gammas", 0, ch.PlonkGammas)
				eq("alphas", 0, ch.PlonkAlphas)
				eq("zeta", 0, ch.PlonkZeta[:])
				eq("friAlpha", 0, ch.FriChallenges.FriAlpha[:])
				if len(ch.FriChallenges.FriBetas) != len(want["beta"]) && bad == "" {
					bad = fmt.Sprintf("%d folding challenges instead of %d", len(ch.FriChallenges.FriBetas), len(want["beta"]))
					return
				}
				for i := range ch.FriChallenges.FriBetas {
					eq("beta", i, ch.FriChallenges.FriBetas[i][:])
				}
				eq("powResponse", 0, []gl.Variable{ch.FriChallenges.FriPowResponse})
				eq("queries", 0, ch.FriChallenges.FriQueryIndices)
			})
			r.Run(1)
			r.Count(fmt.Sprintf("rounds=%d", len(want["beta"])), 1)
			if bad == "" && !o.Sat() {
				bad = "refused: " + o.Kind + " " + o.Msg
			}
			if bad != "" {
				r.Violate(u.t.File, u.at, "[%s] run %s of the transcript beginning here: %s", m, u.which, bad)
			}
		}
	})
}
