package main

import (
	"fmt"
	"math/big"

	"github.com/consensys/gnark/constraint"
	"github.com/consensys/gnark/frontend"
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
	"github.com/succinctlabs/gnark-plonky2-verifier/poseidon"
	"verif/harness/cs"
	"verif/harness/engine"
)

// each visits every value of a proof, public inputs and key in a fixed order.
func (f *full) each(fn func(*frontend.Variable)) {
	g := func(l []gl.Variable) {
		for i := range l {
			fn(&l[i].Limb)
		}
	}
	q := func(l []gl.QuadraticExtensionVariable) {
		for i := range l {
			fn(&l[i][0].Limb)
			fn(&l[i][1].Limb)
		}
	}
	h := func(l []poseidon.BN254HashOut) {
		for i := range l {
			v := frontend.Variable(l[i])
			fn(&v)
			l[i] = poseidon.BN254HashOut(v)
		}
	}
	fn(&f.vk.CircuitDigest)
	for a := 0; a < 4; a++ {
		h(*f.cap(a))
	}
	for a := 0; a < 7; a++ {
		q(*f.open(a))
	}
	g(f.pwp.PublicInputs)
	op := &f.pwp.Proof.OpeningProof
	for _, c := range op.CommitPhaseMerkleCaps {
		h(c)
	}
	q(op.FinalPoly.Coeffs)
	fn(&op.PowWitness.Limb)
	for i := range op.QueryRoundProofs {
		it := op.QueryRoundProofs[i].InitialTreesProof.EvalsProofs
		for j := range it {
			g(it[j].Elements)
			h(it[j].MerkleProof.Siblings)
		}
		st := op.QueryRoundProofs[i].Steps
		for j := range st {
			q(st[j].Evals)
			h(st[j].MerkleProof.Siblings)
		}
	}
}

func (f *full) values() (r []*big.Int) {
	f.each(func(v *frontend.Variable) { r = append(r, engine.Big(*v)) })
	return
}

// with replaces the values; all slices are copied first.
func (in *inst) with(v []frontend.Variable) *full {
	f := in.fresh()
	k := 0
	f.each(func(x *frontend.Variable) { *x = v[k]; k++ })
	return f
}

type compiledVerifier struct {
	ccs constraint.ConstraintSystem
	n   int
	err error
}

func compile(kind string, in *inst) *compiledVerifier {
	c := &compiledVerifier{n: len(in.fresh().values())}
	c.ccs, c.err = cs.Compile(kind, c.n, func(api frontend.API, v []frontend.Variable) error {
		in.with(v).verify(api)
		return nil
	})
	return c
}

func (c *compiledVerifier) solve(f *full) error {
	v := f.values()
	if len(v) != c.n {
		return fmt.Errorf("%d values instead of %d", len(v), c.n)
	}
	return cs.Solve(c.ccs, v, cs.Commitments(c.ccs)...)
}
