// vfri replays specification behaviours into the FRI opening check.
package main

import (
	"fmt"
	"math/big"
	"os"

	"github.com/consensys/gnark/frontend"
	"github.com/succinctlabs/gnark-plonky2-verifier/fri"
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
	"github.com/succinctlabs/gnark-plonky2-verifier/types"
	"github.com/succinctlabs/gnark-plonky2-verifier/variables"
	"verif/harness/adv"
	"verif/harness/cs"
	"verif/harness/engine"
	"verif/harness/itf"
	"verif/harness/rep"
)

// the numbers of an event in a fixed order, so that a compiled circuit can take them as inputs
type reader struct {
	take func(*big.Int) frontend.Variable
}

func (d reader) base(v any) gl.Variable { return gl.NewVariable(d.take(itf.Int(v))) }
func (d reader) bases(v any) (r []gl.Variable) {
	for _, x := range itf.Ints(v) {
		r = append(r, gl.NewVariable(d.take(x)))
	}
	return
}
func (d reader) exts(v any) (r []gl.QuadraticExtensionVariable) {
	b := d.bases(v)
	for i := 0; i+1 < len(b); i += 2 {
		r = append(r, gl.NewQuadraticExtensionVariable(b[i], b[i+1]))
	}
	return
}
func (d reader) hashes(v any) (r []frontend.Variable) {
	r = []frontend.Variable{}
	for _, x := range itf.Ints(v) {
		r = append(r, d.take(x))
	}
	return
}

func params(ev map[string]any) types.CommonCircuitData {
	p := itf.Rec(ev["p"])
	n := func(k string) uint64 { return uint64(itf.I(p[k])) }
	var cd types.CommonCircuitData
	cd.NumConstants, cd.NumPartialProducts, cd.QuotientDegreeFactor = n("ncst"), n("npp"), n("q")
	cd.Config.NumWires, cd.Config.NumRoutedWires, cd.Config.NumChallenges = n("nwires"), n("nrouted"), n("nch")
	cd.Config.NumConstants = n("ncst")
	cd.Config.FriConfig = types.FriConfig{RateBits: n("rate"), CapHeight: 4, ProofOfWorkBits: n("pow"),
		NumQueryRounds: uint64(len(itf.List(itf.Rec(ev["pf"])["queries"])))}
	cd.FriParams.Config = cd.Config.FriConfig
	cd.FriParams.Hiding = itf.Bool(p["hiding"])
	cd.DegreeBits = n("lde") - n("rate")
	cd.FriParams.DegreeBits = cd.DegreeBits
	for i := uint64(0); i < n("k"); i++ {
		cd.FriParams.ReductionArityBits = append(cd.FriParams.ReductionArityBits, 4)
	}
	return cd
}

func check(api frontend.API, ev map[string]any, take func(*big.Int) frontend.Variable) {
	d := reader{take}
	cd := params(ev)
	pf := itf.Rec(ev["pf"])
	open := fri.Openings{Batches: []fri.OpeningBatch{{Values: d.exts(ev["at"])}, {Values: d.exts(ev["next"])}}}
	ch := variables.FriChallenges{FriAlpha: d.exts(ev["alpha"])[0], FriBetas: d.exts(ev["betas"]), FriPowResponse: d.base(ev["pow"]), FriQueryIndices: d.bases(ev["xs"])}
	var caps []variables.FriMerkleCap
	for _, c := range itf.List(pf["caps"]) {
		caps = append(caps, d.hashes(c))
	}
	var proof variables.FriProof
	for _, c := range itf.List(pf["ccaps"]) {
		proof.CommitPhaseMerkleCaps = append(proof.CommitPhaseMerkleCaps, d.hashes(c))
	}
	proof.FinalPoly.Coeffs = d.exts(pf["fin"])
	proof.PowWitness = gl.Zero()
	for _, x := range itf.List(pf["queries"]) {
		q := itf.Rec(x)
		sib := itf.List(q["sib"])
		var it variables.FriInitialTreeProof
		for i, l := range itf.List(q["leaves"]) {
			it.EvalsProofs = append(it.EvalsProofs, variables.NewFriEvalProof(d.bases(l), variables.FriMerkleProof{Siblings: d.hashes(sib[i])}))
		}
		steps := []variables.FriQueryStep{}
		for _, y := range itf.List(q["steps"]) {
			s := itf.Rec(y)
			steps = append(steps, variables.FriQueryStep{Evals: d.exts(s["evals"]), MerkleProof: variables.FriMerkleProof{Siblings: d.hashes(s["sib"])}})
		}
		proof.QueryRoundProofs = append(proof.QueryRoundProofs, variables.NewFriQueryRound(steps, it))
	}
	zeta := d.exts(ev["zeta"])[0]
	f := fri.NewChip(api, &cd, &cd.FriParams)
	f.VerifyFriProof(f.GetInstance(zeta), open, &ch, caps, &proof)
}

func native(x *big.Int) frontend.Variable { return engine.ToFr(x) }

func main() {
	a := rep.Parse()
	r := rep.New()
	if a.Cmd != "fri" {
		fmt.Fprintln(os.Stderr, "unknown command", a.Cmd)
		os.Exit(2)
	}
	cs.BitDecomp(false)
	type item struct {
		t *itf.Trace
		i int
	}
	var items []item
	for _, f := range a.Files {
		t := itf.MustRead(f)
		r.Trace(len(t.States))
		for i := range t.States {
			if itf.Str(t.Event(i)["op"]) != "init" {
				items = append(items, item{t, i})
			}
		}
	}
	r.Parallel(len(items), func(k int) {
		it := items[k]
		ev := it.t.Event(it.i)
		accept := itf.Bool(ev["accept"])
		op := itf.Str(ev["op"])
		r.Count(fmt.Sprintf("%s/%v", op, accept), 1)
		try := func(m engine.Mode, hint func(c *engine.HintCall) bool, what string) {
			e := engine.New(m)
			e.OnHint = hint
			o := e.Run(func(api frontend.API) { check(api, ev, native) })
			r.Run(1)
			switch {
			case accept && !o.Sat():
				r.Violate(it.t.File, it.i, "[%s] a consistent opening proof (%v, case %s) is refused: %s %s", m, ev["p"], op, o.Kind, o.Msg)
			case !accept && o.Sat():
				r.Violate(it.t.File, it.i, "[%s] an inconsistent opening proof (%v, case %s) is accepted (%s)", m, ev["p"], op, what)
			case o.Kind == "panic":
				r.Violate(it.t.File, it.i, "[%s] crash instead of a verdict: %s", m, o.Msg)
			}
		}
		try(engine.Native, nil, "honest hints")
		if k%12 == 0 || a.Thorough() {
			try(engine.BitDecomp, nil, "honest hints")
		}
		if !accept {
			r.Adv(1)
			try(engine.Native, adv.Lenient(k%adv.Secondary), "prover answering hints at will")
		}
	})
	// the compiled circuit of one or two shapes: the same verdicts from the real solver
	cs.BitDecomp(true)
	lim := 2
	if a.Thorough() {
		lim = 8
	}
	var js []item
	for _, it := range items {
		ev := it.t.Event(it.i)
		if itf.I(itf.Rec(ev["p"])["lde"]) <= 10 && len(itf.List(itf.Rec(ev["pf"])["queries"])) == 1 && len(js) < lim {
			js = append(js, it)
		}
	}
	r.Parallel(len(js), func(k int) {
		it := js[k]
		ev := it.t.Event(it.i)
		var in []*big.Int
		engine.New(engine.Native).Run(func(api frontend.API) {
			check(api, ev, func(x *big.Int) frontend.Variable { in = append(in, x); return engine.ToFr(x) })
		})
		kind := []string{"scs", "r1cs"}[k%2]
		ccs, err := cs.Compile(kind, len(in), func(api frontend.API, v []frontend.Variable) error {
			p := 0
			check(api, ev, func(*big.Int) frontend.Variable { p++; return v[p-1] })
			return nil
		})
		r.Run(1)
		r.Count("compiled", 1)
		if err != nil {
			r.Violate(it.t.File, it.i, "[%s] the opening check does not compile: %v", kind, err)
			return
		}
		err = cs.Solve(ccs, in, cs.Commitments(ccs)...)
		if accept := itf.Bool(ev["accept"]); accept != (err == nil) {
			r.Violate(it.t.File, it.i, "[%s] compiled opening check: accepted=%v, the specification says %v (%v)", kind, err == nil, accept, err)
		}
	})
	r.Write(a.Out)
}
