// Package adv implements the prover moves of spec/adversary.qnt: how a malicious prover answers one
// auxiliary-value request, and how it answers later requests that depend on the deviation.
package adv

import (
	"math/big"
	"strings"

	"verif/harness/engine"
)

var P, _ = new(big.Int).SetString("18446744069414584321", 10)
var R = engine.R
var two32 = new(big.Int).Lsh(big.NewInt(1), 32)
var pInv = new(big.Int).ModInverse(P, R)
var two32Inv = new(big.Int).ModInverse(two32, R)

// Kind classifies a hint by its role.
func Kind(name string) string {
	switch {
	case strings.HasSuffix(name, ".MulAddHint"):
		return "muladd"
	case strings.HasSuffix(name, ".ReduceHint"):
		return "reduce"
	case strings.HasSuffix(name, ".SplitLimbsHint"):
		return "split"
	case strings.HasSuffix(name, ".InverseHint"):
		return "inverse"
	case strings.HasSuffix(name, ".nBits"):
		return "bits"
	}
	return "other"
}

var Moves = map[string][]string{
	"muladd":  {"borrow", "lend", "wrap1", "wrap2", "free+1", "free0", "free-1", "freeHi", "unreduced", "addP"},
	"reduce":  {"borrow", "lend", "wrap1", "wrap2", "wrap3", "wrap4", "wrap5", "free+1", "free0", "free-1", "freeHi", "unreduced", "addP"},
	"split":   {"split-", "splitLo", "splitHi", "splitTop", "inc", "dec"},
	"inverse": {"inc", "dec", "zero", "addP"},
	"bits":    {"bits+R", "inc", "zero"},
	"other":   {"inc", "dec", "zero", "addP"},
}

// Secondary is the number of ways a later split request for a non-canonical value is answered.
const Secondary = 5

func mod(x *big.Int) *big.Int { return new(big.Int).Mod(x, R) }

// lenient answers a request by integer arithmetic without the domain checks of the honest functions.
func lenient(c *engine.HintCall, sec int) bool {
	switch Kind(c.Name) {
	case "muladd":
		x := new(big.Int).Mul(c.Inputs[0], c.Inputs[1])
		x.Add(x, c.Inputs[2])
		q, r := new(big.Int).DivMod(x, P, new(big.Int))
		c.Outputs[0], c.Outputs[1] = q, r
		return true
	case "split":
		x := c.Inputs[0]
		if x.Cmp(P) < 0 {
			return false
		}
		hi, lo := new(big.Int).DivMod(x, two32, new(big.Int))
		switch sec {
		case 1:
			hi, lo = big.NewInt(0), x
		case 2:
			hi, lo = mod(new(big.Int).Mul(x, two32Inv)), big.NewInt(0)
		case 3:
			hi = new(big.Int).Sub(two32, big.NewInt(1))
			lo = mod(new(big.Int).Sub(x, new(big.Int).Mul(hi, two32)))
		case 4:
			hi = mod(new(big.Int).Sub(hi, big.NewInt(1)))
			lo = new(big.Int).Add(lo, two32)
		}
		c.Outputs[0], c.Outputs[1] = hi, lo
		return true
	case "inverse":
		if c.Inputs[0].Cmp(P) >= 0 {
			v := new(big.Int).ModInverse(new(big.Int).Mod(c.Inputs[0], P), P)
			if v == nil {
				v = big.NewInt(0)
			}
			c.Outputs[0] = v
			return true
		}
	}
	return false
}

// Honest computes the honest outputs for the known kinds, without domain panics.
func honest(c *engine.HintCall) []*big.Int {
	out := make([]*big.Int, len(c.Outputs))
	for i := range out {
		out[i] = new(big.Int)
	}
	switch Kind(c.Name) {
	case "muladd":
		x := new(big.Int).Mul(c.Inputs[0], c.Inputs[1])
		x.Add(x, c.Inputs[2])
		out[0], out[1] = new(big.Int).DivMod(x, P, new(big.Int))
	case "reduce":
		out[0], out[1] = new(big.Int).DivMod(c.Inputs[0], P, new(big.Int))
	case "split":
		out[0], out[1] = new(big.Int).DivMod(c.Inputs[0], two32, new(big.Int))
	case "inverse":
		if v := new(big.Int).ModInverse(new(big.Int).Mod(c.Inputs[0], P), P); v != nil {
			out[0] = v
		}
	case "bits":
		v := c.Inputs[0]
		for i := range out {
			out[i] = big.NewInt(int64(v.Bit(i)))
		}
	}
	return out
}

// deviate fills c.Outputs with the given move; false if the move does not apply.
func deviate(c *engine.HintCall, move string) bool {
	kind := Kind(c.Name)
	h := honest(c)
	set := func(q, r *big.Int) bool { c.Outputs[0], c.Outputs[1] = mod(q), mod(r); return true }
	one := big.NewInt(1)
	switch kind {
	case "muladd", "reduce":
		if len(h) != 2 {
			return false
		}
		x := new(big.Int).Add(new(big.Int).Mul(h[0], P), h[1])
		free := func(r *big.Int) bool {
			q := new(big.Int).Sub(x, r)
			q.Mul(q, pInv)
			return set(q, r)
		}
		switch move {
		case "borrow":
			return set(new(big.Int).Sub(h[0], one), new(big.Int).Add(h[1], P))
		case "lend":
			return set(new(big.Int).Add(h[0], one), new(big.Int).Sub(h[1], P))
		case "wrap1", "wrap2", "wrap3", "wrap4", "wrap5":
			k := int64(move[4] - '0')
			y := new(big.Int).Add(x, new(big.Int).Mul(big.NewInt(k), R))
			q, r := new(big.Int).DivMod(y, P, new(big.Int))
			return set(q, r)
		case "free+1":
			return free(new(big.Int).Mod(new(big.Int).Add(h[1], one), P))
		case "free0":
			return free(big.NewInt(0))
		case "free-1":
			return free(new(big.Int).Sub(P, one))
		case "freeHi":
			return free(new(big.Int).Add(P, one))
		case "unreduced":
			return set(big.NewInt(0), x)
		case "addP":
			return set(h[0], new(big.Int).Add(h[1], P))
		}
	case "split":
		x := c.Inputs[0]
		switch move {
		case "split-":
			return set(new(big.Int).Sub(h[0], one), new(big.Int).Add(h[1], two32))
		case "splitLo":
			return set(big.NewInt(0), x)
		case "splitHi":
			return set(new(big.Int).Mul(x, two32Inv), big.NewInt(0))
		case "splitTop":
			top := new(big.Int).Sub(two32, one)
			return set(top, new(big.Int).Sub(x, new(big.Int).Mul(top, two32)))
		case "inc":
			return set(h[0], new(big.Int).Add(h[1], one))
		case "dec":
			return set(new(big.Int).Add(h[0], one), h[1])
		}
	case "inverse":
		switch move {
		case "inc":
			c.Outputs[0] = mod(new(big.Int).Add(h[0], one))
		case "dec":
			c.Outputs[0] = mod(new(big.Int).Sub(h[0], one))
		case "zero":
			c.Outputs[0] = big.NewInt(0)
		case "addP":
			c.Outputs[0] = mod(new(big.Int).Add(h[0], P))
		default:
			return false
		}
		return true
	case "bits":
		v := c.Inputs[0]
		switch move {
		case "bits+R":
			w := new(big.Int).Add(v, R)
			if w.BitLen() > len(c.Outputs) {
				return false
			}
			for i := range c.Outputs {
				c.Outputs[i] = big.NewInt(int64(w.Bit(i)))
			}
			return true
		case "inc":
			for i := range c.Outputs {
				c.Outputs[i] = h[i]
			}
			c.Outputs[0] = new(big.Int).Xor(h[0], one)
			return true
		case "zero":
			// all weight on the lowest digit
			for i := range c.Outputs {
				c.Outputs[i] = big.NewInt(0)
			}
			c.Outputs[0] = new(big.Int).Set(v)
			return true
		}
	}
	return false
}

// Prover returns a hint handler that deviates with `move` at request number `call` and otherwise
// answers by plain integer arithmetic; `applied` reports whether the move could be made.
func Prover(call int, move string, sec int, applied *bool) func(c *engine.HintCall) bool {
	return func(c *engine.HintCall) bool {
		if c.Index == call {
			if deviate(c, move) {
				*applied = true
				return true
			}
		}
		return lenient(c, sec)
	}
}

// Lenient is the non-deviating prover: integer arithmetic without domain checks.
func Lenient(sec int) func(c *engine.HintCall) bool {
	return func(c *engine.HintCall) bool { return lenient(c, sec) }
}
