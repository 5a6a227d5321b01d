// Package gid writes gate identifiers the way Plonky2 prints them.
package gid

import (
	"fmt"
	"math/big"
	"strings"
)

const Phantom = "PhantomData<plonky2_field::goldilocks_field::GoldilocksField>"

func ID(kind string, p []int, ws []*big.Int) string {
	switch kind {
	case "noop":
		return "NoopGate"
	case "publicInput":
		return "PublicInputGate"
	case "constant":
		return fmt.Sprintf("ConstantGate { num_consts: %d }", p[0])
	case "arithmetic":
		return fmt.Sprintf("ArithmeticGate { num_ops: %d }", p[0])
	case "arithmeticExt":
		return fmt.Sprintf("ArithmeticExtensionGate { num_ops: %d }", p[0])
	case "mulExt":
		return fmt.Sprintf("MulExtensionGate { num_ops: %d }", p[0])
	case "baseSum":
		return fmt.Sprintf("BaseSumGate { num_limbs: %d } + Base: %d", p[0], p[1])
	case "exponentiation":
		return fmt.Sprintf("ExponentiationGate { num_power_bits: %d, _phantom: %s }<D=2>", p[0], Phantom)
	case "randomAccess":
		return fmt.Sprintf("RandomAccessGate { bits: %d, num_copies: %d, num_extra_constants: %d, _phantom: %s }<D=2>", p[0], p[1], p[2], Phantom)
	case "reducing":
		return fmt.Sprintf("ReducingGate { num_coeffs: %d }", p[0])
	case "reducingExt":
		return fmt.Sprintf("ReducingExtensionGate { num_coeffs: %d }", p[0])
	case "coset":
		s := make([]string, len(ws))
		for i := range ws {
			s[i] = ws[i].String()
		}
		return fmt.Sprintf("CosetInterpolationGate { subgroup_bits: %d, degree: %d, barycentric_weights: [%s], _phantom: %s }<D=2>", p[0], p[1], strings.Join(s, ", "), Phantom)
	case "poseidon":
		return "PoseidonGate(" + Phantom + ")<WIDTH=12>"
	case "poseidonMds":
		return "PoseidonMdsGate(" + Phantom + ")<WIDTH=12>"
	}
	panic("unknown gate kind " + kind)
}
