package main

import (
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"strings"

	"github.com/consensys/gnark/frontend"
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
	"github.com/succinctlabs/gnark-plonky2-verifier/types"
	"github.com/succinctlabs/gnark-plonky2-verifier/variables"
	"github.com/succinctlabs/gnark-plonky2-verifier/verifier"
	"verif/harness/engine"
	"verif/harness/itf"
	"verif/harness/pk"
)

// inst is a proof loaded by the code under test from the files of a data directory.
type inst struct {
	dir   string
	craft string
	cd    types.CommonCircuitData
	raw   types.ProofWithPublicInputsRaw
	key   types.VerifierOnlyCircuitDataRaw
}

func load(dir string) (in *inst, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%v", r)
		}
	}()
	in = &inst{dir: dir}
	b, e := os.ReadFile(filepath.Join(dir, "craft"))
	if e == nil {
		in.craft = strings.TrimSpace(string(b))
	}
	in.cd = types.ReadCommonCircuitData(filepath.Join(dir, "common_circuit_data.json"))
	in.raw = types.ReadProofWithPublicInputs(filepath.Join(dir, "proof_with_public_inputs.json"))
	in.key = types.ReadVerifierOnlyCircuitData(filepath.Join(dir, "verifier_only_circuit_data.json"))
	return in, nil
}

// full is everything the verifier is given.
type full struct {
	cd  types.CommonCircuitData
	pwp variables.ProofWithPublicInputs
	vk  variables.VerifierOnlyCircuitData
}

// fresh deserialises a copy that may be altered.
func (in *inst) fresh() *full {
	return &full{cd: in.cd, pwp: variables.DeserializeProofWithPublicInputs(in.raw), vk: variables.DeserializeVerifierOnlyCircuitData(in.key)}
}

// verify runs the verifier as a user's circuit does.
func (f *full) verify(api frontend.API) {
	verifier.NewVerifierChip(api, f.cd).Verify(f.pwp.Proof, f.pwp.PublicInputs, f.vk)
}

var bigP, _ = new(big.Int).SetString("18446744069414584321", 10)

func moved(v frontend.Variable, op string, d *big.Int, mod *big.Int) frontend.Variable {
	x := engine.Big(v)
	if op == "over" {
		return x.Add(x, new(big.Int).Mul(d, bigP))
	}
	return x.Mod(x.Add(x, d), mod)
}

// the five operations on a list
func list[T any](l []T, e pk.Edit, move func(*T), zero T) []T {
	l = append([]T{}, l...)
	switch e.Op {
	case "move", "over":
		move(&l[e.I])
	case "swap":
		l[e.I], l[e.J] = l[e.J], l[e.I]
	case "drop":
		l = append(l[:e.I], l[e.I+1:]...)
	case "again":
		l = append(l, l[e.I])
	default:
		l = append(l, zero)
	}
	return l
}
func gls(l []gl.Variable, e pk.Edit) []gl.Variable {
	return list(l, e, func(v *gl.Variable) { v.Limb = moved(v.Limb, e.Op, e.D, bigP) }, gl.NewVariable(0))
}
func qes(l []gl.QuadraticExtensionVariable, e pk.Edit) []gl.QuadraticExtensionVariable {
	z := gl.NewQuadraticExtensionVariable(gl.NewVariable(0), gl.NewVariable(0))
	if e.Op == "swap" && e.I == e.J {
		l = append([]gl.QuadraticExtensionVariable{}, l...)
		l[e.I][0], l[e.I][1] = l[e.I][1], l[e.I][0]
		return l
	}
	return list(l, e, func(v *gl.QuadraticExtensionVariable) {
		v[e.C] = gl.NewVariable(moved(v[e.C].Limb, e.Op, e.D, bigP))
	}, z)
}
func hashes(l []frontend.Variable, e pk.Edit) []frontend.Variable {
	return list(l, e, func(v *frontend.Variable) { *v = moved(*v, e.Op, e.D, engine.R) }, frontend.Variable(big.NewInt(0)))
}

func (f *full) open(a int) *[]gl.QuadraticExtensionVariable {
	o := &f.pwp.Proof.Openings
	return []*[]gl.QuadraticExtensionVariable{&o.Constants, &o.PlonkSigmas, &o.Wires, &o.PlonkZs, &o.PlonkZsNext, &o.PartialProducts, &o.QuotientPolys}[a]
}
func (f *full) cap(a int) *variables.FriMerkleCap {
	p := &f.pwp.Proof
	return []*variables.FriMerkleCap{&f.vk.ConstantSigmasCap, &p.WiresCap, &p.PlonkZsPartialProductsCap, &p.QuotientPolysCap}[a]
}

// apply is applyEdit of the specification.
func (f *full) apply(e pk.Edit) {
	op := &f.pwp.Proof.OpeningProof
	nothing := func() {}
	switch e.Sec {
	case "digest":
		f.vk.CircuitDigest = moved(f.vk.CircuitDigest, "move", e.D, engine.R)
	case "witness":
		op.PowWitness = gl.NewVariable(moved(op.PowWitness.Limb, e.Op, e.D, bigP))
	case "pub":
		f.pwp.PublicInputs = gls(f.pwp.PublicInputs, e)
	case "open":
		*f.open(e.A) = qes(*f.open(e.A), e)
	case "cap":
		*f.cap(e.A) = hashes(*f.cap(e.A), e)
	case "ccap":
		op.CommitPhaseMerkleCaps[e.A] = hashes(op.CommitPhaseMerkleCaps[e.A], e)
	case "fin":
		op.FinalPoly.Coeffs = qes(op.FinalPoly.Coeffs, e)
	case "leaf":
		p := &op.QueryRoundProofs[e.A].InitialTreesProof.EvalsProofs[e.B]
		p.Elements = gls(p.Elements, e)
	case "sib":
		p := &op.QueryRoundProofs[e.A].InitialTreesProof.EvalsProofs[e.B].MerkleProof
		p.Siblings = hashes(p.Siblings, e)
	case "eval":
		p := &op.QueryRoundProofs[e.A].Steps[e.B]
		p.Evals = qes(p.Evals, e)
	case "stepSib":
		p := &op.QueryRoundProofs[e.A].Steps[e.B].MerkleProof
		p.Siblings = hashes(p.Siblings, e)
	case "queries":
		op.QueryRoundProofs = list(op.QueryRoundProofs, e, func(*variables.FriQueryRound) { nothing() }, variables.FriQueryRound{})
	case "trees":
		p := &op.QueryRoundProofs[e.A].InitialTreesProof
		p.EvalsProofs = list(p.EvalsProofs, e, func(*variables.FriEvalProof) { nothing() }, variables.FriEvalProof{})
	case "steps":
		p := &op.QueryRoundProofs[e.A]
		p.Steps = list(p.Steps, e, func(*variables.FriQueryStep) { nothing() }, variables.FriQueryStep{})
	case "ccaps":
		op.CommitPhaseMerkleCaps = list(op.CommitPhaseMerkleCaps, e, func(*variables.FriMerkleCap) { nothing() }, variables.FriMerkleCap{})
	default:
		panic("edit " + e.Sec)
	}
}

func edits(v any) (r []pk.Edit) {
	for _, x := range itf.List(v) {
		m := itf.Rec(x)
		n := func(k string) int { return int(itf.I(m[k])) }
		r = append(r, pk.Edit{Sec: itf.Str(m["sec"]), A: n("a"), B: n("b"), I: n("i"), J: n("j"), C: n("c"), Op: itf.Str(m["op"]), D: itf.Int(m["d"])})
	}
	return
}

// size of the list an edit of a section addresses
func (f *full) size(sec string, a, b int) int {
	op := &f.pwp.Proof.OpeningProof
	switch sec {
	case "digest", "witness":
		return 1
	case "pub":
		return len(f.pwp.PublicInputs)
	case "open":
		return len(*f.open(a))
	case "cap":
		return len(*f.cap(a))
	case "ccap":
		return len(op.CommitPhaseMerkleCaps[a])
	case "fin":
		return len(op.FinalPoly.Coeffs)
	case "leaf":
		return len(op.QueryRoundProofs[a].InitialTreesProof.EvalsProofs[b].Elements)
	case "sib":
		return len(op.QueryRoundProofs[a].InitialTreesProof.EvalsProofs[b].MerkleProof.Siblings)
	case "eval":
		return len(op.QueryRoundProofs[a].Steps[b].Evals)
	case "stepSib":
		return len(op.QueryRoundProofs[a].Steps[b].MerkleProof.Siblings)
	case "queries":
		return len(op.QueryRoundProofs)
	case "trees":
		return len(op.QueryRoundProofs[a].InitialTreesProof.EvalsProofs)
	case "steps":
		return len(op.QueryRoundProofs[a].Steps)
	case "ccaps":
		return len(op.CommitPhaseMerkleCaps)
	}
	panic(sec)
}

// places lists every list of every section.
func (f *full) places() (r []pk.Edit) {
	op := &f.pwp.Proof.OpeningProof
	add := func(sec string, a, b int) { r = append(r, pk.Edit{Sec: sec, A: a, B: b}) }
	for _, s := range []string{"digest", "witness", "pub", "fin", "queries", "ccaps"} {
		add(s, 0, 0)
	}
	for a := 0; a < 7; a++ {
		add("open", a, 0)
	}
	for a := 0; a < 4; a++ {
		add("cap", a, 0)
	}
	for a := range op.CommitPhaseMerkleCaps {
		add("ccap", a, 0)
	}
	for a, q := range op.QueryRoundProofs {
		add("trees", a, 0)
		add("steps", a, 0)
		for b := range q.InitialTreesProof.EvalsProofs {
			add("leaf", a, b)
			add("sib", a, b)
		}
		for b := range q.Steps {
			add("eval", a, b)
			add("stepSib", a, b)
		}
	}
	return
}

var isExt = map[string]bool{"open": true, "fin": true, "eval": true}
var isGl = map[string]bool{"open": true, "fin": true, "eval": true, "leaf": true, "witness": true}
var isWhole = map[string]bool{"queries": true, "trees": true, "steps": true, "ccaps": true}

// cells lists every single value.
func (f *full) cells() (r []pk.Edit) {
	for _, p := range f.places() {
		if isWhole[p.Sec] {
			continue
		}
		nc := 1
		if isExt[p.Sec] {
			nc = 2
		}
		for i := 0; i < f.size(p.Sec, p.A, p.B); i++ {
			for c := 0; c < nc; c++ {
				e := p
				e.I, e.J, e.C = i, i, c
				r = append(r, e)
			}
		}
	}
	return
}

// value is the Goldilocks element a cell holds.
func (f *full) value(e pk.Edit) *big.Int {
	op := &f.pwp.Proof.OpeningProof
	switch e.Sec {
	case "open":
		return engine.Big((*f.open(e.A))[e.I][e.C].Limb)
	case "fin":
		return engine.Big(op.FinalPoly.Coeffs[e.I][e.C].Limb)
	case "eval":
		return engine.Big(op.QueryRoundProofs[e.A].Steps[e.B].Evals[e.I][e.C].Limb)
	case "leaf":
		return engine.Big(op.QueryRoundProofs[e.A].InitialTreesProof.EvalsProofs[e.B].Elements[e.I].Limb)
	case "witness":
		return engine.Big(op.PowWitness.Limb)
	}
	panic(e.Sec)
}

func text(e pk.Edit) string {
	return fmt.Sprintf("%s[%d][%d] entry %d/%d coordinate %d %s by %v", e.Sec, e.A, e.B, e.I, e.J, e.C, e.Op, e.D)
}
