package cs

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"sort"
	"unsafe"

	"github.com/consensys/gnark/constraint"
	bn254 "github.com/consensys/gnark/constraint/bn254"
)

// Digest identifies what a compiled circuit constrains: its wires, instructions, coefficients, hints and commitments.
func Digest(c constraint.ConstraintSystem) string {
	s, ok := c.(*bn254.R1CS) // the sparse system has the same type
	if !ok {
		return fmt.Sprintf("%T", c)
	}
	h := sha256.New()
	fmt.Fprintln(h, s.NbConstraints, s.NbInternalVariables, len(s.Public), len(s.Secret), len(s.Instructions), len(s.CallData), len(s.Coefficients))
	for _, i := range s.Instructions {
		fmt.Fprintln(h, i.BlueprintID, i.ConstraintOffset, i.WireOffset, i.StartCallData)
	}
	if len(s.CallData) > 0 {
		h.Write(unsafe.Slice((*byte)(unsafe.Pointer(&s.CallData[0])), 4*len(s.CallData)))
	}
	for _, x := range s.Coefficients {
		for _, l := range x {
			binary.Write(h, binary.LittleEndian, l)
		}
	}
	for _, b := range s.Blueprints {
		fmt.Fprintf(h, "%T\n", b)
	}
	var names []string
	for id, n := range s.MHintsDependencies {
		names = append(names, fmt.Sprint(id, n))
	}
	sort.Strings(names)
	fmt.Fprintln(h, names)
	fmt.Fprintf(h, "%v\n", s.CommitmentInfo)
	return fmt.Sprintf("%d constraints, %s", s.NbConstraints, hex.EncodeToString(h.Sum(nil))[:16])
}
