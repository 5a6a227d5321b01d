// Package cs compiles and solves circuits with gnark's real builders (R1CS and sparse R1CS).
package cs

import (
	"crypto/sha256"
	"fmt"
	"math/big"
	"os"
	"sync"

	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark/constraint"
	"github.com/consensys/gnark/constraint/solver"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/frontend/cs/r1cs"
	"github.com/consensys/gnark/frontend/cs/scs"
	"github.com/consensys/gnark/logger"
)

func init() { logger.Disable() }

// Circuit is a circuit over flat input vectors; Def receives the input variables.
type Circuit struct {
	In  []frontend.Variable
	Def func(api frontend.API, in []frontend.Variable) error `gnark:"-"`
}

func (c *Circuit) Define(api frontend.API) error { return c.Def(api, c.In) }

var envMu sync.Mutex

// BitDecomp sets the documented environment switch for the bit decomposition range checker.
func BitDecomp(on bool) {
	if on {
		os.Setenv("USE_BIT_DECOMPOSITION_RANGE_CHECK", "true")
	} else {
		os.Unsetenv("USE_BIT_DECOMPOSITION_RANGE_CHECK")
	}
}

func Compile(kind string, n int, def func(api frontend.API, in []frontend.Variable) error) (ccs constraint.ConstraintSystem, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("compile panic: %v", r)
		}
	}()
	c := &Circuit{In: make([]frontend.Variable, n), Def: def}
	nb := r1cs.NewBuilder
	if kind == "scs" {
		nb = scs.NewBuilder
	}
	return frontend.Compile(ecc.BN254.ScalarField(), nb, c)
}

// Solve runs the real solver on the given inputs (hint overrides optional).
func Solve(ccs constraint.ConstraintSystem, in []*big.Int, opts ...solver.Option) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("solve panic: %v", r)
		}
	}()
	c := &Circuit{In: make([]frontend.Variable, len(in))}
	for i := range in {
		c.In[i] = in[i]
	}
	w, err := frontend.NewWitness(c, ecc.BN254.ScalarField())
	if err != nil {
		return err
	}
	_, err = ccs.Solve(w, opts...)
	return err
}

// Commitments answers the commitment hints of a compiled circuit with a hash of the committed values (as the
// proving back ends do with the hash of the commitment).
func Commitments(ccs constraint.ConstraintSystem) []solver.Option {
	h := func(_ *big.Int, in []*big.Int, out []*big.Int) error {
		s := sha256.New()
		for _, x := range in {
			s.Write(x.Bytes())
			s.Write([]byte{0xff})
		}
		out[0].SetBytes(s.Sum(nil))
		out[0].Mod(out[0], ecc.BN254.ScalarField())
		return nil
	}
	var o []solver.Option
	switch c := ccs.GetCommitments().(type) {
	case constraint.Groth16Commitments:
		for i := range c {
			o = append(o, solver.OverrideHint(c[i].HintID, h))
		}
	case constraint.PlonkCommitments:
		for i := range c {
			o = append(o, solver.OverrideHint(c[i].HintID, h))
		}
	}
	return o
}

// Outputs compiles def, whose results are asserted equal to extra inputs, and solves it with the expected results
// (must succeed) and with one result changed (must fail). It returns a description of the deviation, or "".
func Outputs(kind string, in, out []*big.Int, def func(api frontend.API, in []frontend.Variable) []frontend.Variable) string {
	n := len(in)
	var got int
	ccs, err := Compile(kind, n+len(out), func(api frontend.API, v []frontend.Variable) error {
		o := def(api, v[:n])
		got = len(o)
		for i := range o {
			if i < len(out) {
				api.AssertIsEqual(o[i], v[n+i])
			}
		}
		return nil
	})
	if err != nil {
		return fmt.Sprintf("[%s] does not compile: %v", kind, err)
	}
	if got != len(out) {
		return fmt.Sprintf("[%s] %d results instead of %d", kind, got, len(out))
	}
	w := append(append([]*big.Int{}, in...), out...)
	if err := Solve(ccs, w, Commitments(ccs)...); err != nil {
		return fmt.Sprintf("[%s] the specified results do not satisfy the circuit: %v", kind, err)
	}
	if len(out) > 0 {
		w[len(w)-1] = new(big.Int).Add(w[len(w)-1], big.NewInt(1))
		if Solve(ccs, w, Commitments(ccs)...) == nil {
			return fmt.Sprintf("[%s] a wrong result satisfies the circuit", kind)
		}
	}
	return ""
}
