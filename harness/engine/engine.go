// Package engine is an interpreting frontend.API over the BN254 scalar field whose witness
// generation is controlled by the caller: every hint call can be observed and answered by an
// adversary, so that "the constraints admit only ..." can be observed on the real gadget code.
//
// It offers the three range-check situations a builder can present (native Rangechecker,
// Committer, neither).
package engine

import (
	"fmt"
	"math/big"
	"reflect"
	"strings"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/consensys/gnark/constraint"
	"github.com/consensys/gnark/constraint/solver"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/std/math/bits"
)

type Mode int

const (
	Native Mode = iota
	Commit
	BitDecomp
)

func (m Mode) String() string { return [...]string{"native", "commit", "bitdecomp"}[m] }

var R = fr.Modulus()

// Unsat is the panic value for an unsatisfied constraint.
type Unsat struct{ Msg string }

func (u Unsat) Error() string { return "unsat: " + u.Msg }

// HintPanic wraps a panic or error raised by an honest hint function.
type HintPanic struct{ Msg string }

func (u HintPanic) Error() string { return "hint: " + u.Msg }

type HintCall struct {
	Name    string
	Index   int // index among all hint calls
	Inputs  []*big.Int
	Outputs []*big.Int
}

// Check is one range check that reached the builder (or gnark's commitment checker).
type Check struct {
	V    *big.Int
	Bits int
	Base int // limb width for commitment mode, 0 otherwise
}

type Engine struct {
	Self     frontend.API // the outer API value (identity used by the gadget registry)
	Mode     Mode
	OnHint   func(c *HintCall) bool // may fill c.Outputs and return true to replace the honest function
	Record   bool
	Hints    []HintCall
	Checks   []Check
	nHints   int
	deferred []func(frontend.API) error
	kv       map[any]any
	flush    bool
	NbAssert int
	LogCheck bool
	bitCache map[int]*big.Int
}

type nativeAPI struct{ *Engine }

func (n *nativeAPI) Check(v frontend.Variable, nbBits int) { n.Engine.nativeCheck(v, nbBits) }

type commitAPI struct{ *Engine }

func (c *commitAPI) Commit(v ...frontend.Variable) (frontend.Variable, error) {
	panic(flushDone{})
}

type plainAPI struct{ *Engine }

type flushDone struct{}

func New(mode Mode) *Engine {
	e := &Engine{Mode: mode, kv: map[any]any{}}
	switch mode {
	case Native:
		e.Self = &nativeAPI{e}
	case Commit:
		e.Self = &commitAPI{e}
	default:
		e.Self = &plainAPI{e}
	}
	return e
}

func (e *Engine) API() frontend.API { return e.Self }

func (e *Engine) fail(format string, a ...any) {
	if e.flush {
		return
	}
	panic(Unsat{fmt.Sprintf(format, a...)})
}

type bigRegular interface {
	ToBigIntRegular(res *big.Int) *big.Int
}

// Val converts any frontend.Variable to a field element.
func (e *Engine) Val(v frontend.Variable) *fr.Element { return ToFr(v) }

func ToFr(v frontend.Variable) *fr.Element {
	switch x := v.(type) {
	case *fr.Element:
		return x
	case fr.Element:
		return &x
	case *big.Int:
		r := new(fr.Element)
		r.SetBigInt(x)
		return r
	case big.Int:
		r := new(fr.Element)
		r.SetBigInt(&x)
		return r
	case uint64:
		r := new(fr.Element)
		r.SetUint64(x)
		return r
	case int:
		r := new(fr.Element)
		r.SetInt64(int64(x))
		return r
	case int64:
		r := new(fr.Element)
		r.SetInt64(x)
		return r
	case uint, uint8, uint16, uint32:
		r := new(fr.Element)
		r.SetUint64(reflect.ValueOf(x).Uint())
		return r
	case int8, int16, int32:
		r := new(fr.Element)
		r.SetInt64(reflect.ValueOf(x).Int())
		return r
	case string:
		b, ok := new(big.Int).SetString(x, 0)
		if !ok {
			panic("unable to set big.Int from string " + x)
		}
		r := new(fr.Element)
		r.SetBigInt(b)
		return r
	case []byte:
		r := new(fr.Element)
		r.SetBigInt(new(big.Int).SetBytes(x))
		return r
	case nil:
		panic("nil frontend.Variable")
	}
	if x, ok := v.(bigRegular); ok {
		r := new(fr.Element)
		r.SetBigInt(x.ToBigIntRegular(new(big.Int)))
		return r
	}
	panic(fmt.Sprintf("%T to field element not supported", v))
}

func Big(v frontend.Variable) *big.Int { return ToFr(v).BigInt(new(big.Int)) }

func cp(v *fr.Element) *fr.Element { r := *v; return &r }

func (e *Engine) Add(i1, i2 frontend.Variable, in ...frontend.Variable) frontend.Variable {
	r := new(fr.Element)
	r.Add(ToFr(i1), ToFr(i2))
	for _, x := range in {
		r.Add(r, ToFr(x))
	}
	return r
}

func (e *Engine) MulAcc(a, b, c frontend.Variable) frontend.Variable {
	r := new(fr.Element)
	r.Mul(ToFr(b), ToFr(c))
	r.Add(r, ToFr(a))
	return r
}

func (e *Engine) Neg(i1 frontend.Variable) frontend.Variable {
	r := new(fr.Element)
	r.Neg(ToFr(i1))
	return r
}

func (e *Engine) Sub(i1, i2 frontend.Variable, in ...frontend.Variable) frontend.Variable {
	r := new(fr.Element)
	r.Sub(ToFr(i1), ToFr(i2))
	for _, x := range in {
		r.Sub(r, ToFr(x))
	}
	return r
}

func (e *Engine) Mul(i1, i2 frontend.Variable, in ...frontend.Variable) frontend.Variable {
	r := new(fr.Element)
	r.Mul(ToFr(i1), ToFr(i2))
	for _, x := range in {
		r.Mul(r, ToFr(x))
	}
	return r
}

func (e *Engine) DivUnchecked(i1, i2 frontend.Variable) frontend.Variable {
	a, b := ToFr(i1), ToFr(i2)
	if b.IsZero() {
		if !a.IsZero() {
			e.fail("division by zero")
		}
		return new(fr.Element)
	}
	r := new(fr.Element)
	r.Div(a, b)
	return r
}

func (e *Engine) Div(i1, i2 frontend.Variable) frontend.Variable {
	if ToFr(i2).IsZero() {
		e.fail("division by zero")
		return new(fr.Element)
	}
	r := new(fr.Element)
	r.Div(ToFr(i1), ToFr(i2))
	return r
}

func (e *Engine) Inverse(i1 frontend.Variable) frontend.Variable {
	if ToFr(i1).IsZero() {
		e.fail("inverse of zero")
		return new(fr.Element)
	}
	r := new(fr.Element)
	r.Inverse(ToFr(i1))
	return r
}

func (e *Engine) ToBinary(i1 frontend.Variable, n ...int) []frontend.Variable {
	nb := e.FieldBitLen()
	if len(n) == 1 {
		nb = n[0]
		if nb < 0 {
			panic("invalid n")
		}
	}
	return bits.ToBinary(e.Self, i1, bits.WithNbDigits(nb))
}

func (e *Engine) FromBinary(b ...frontend.Variable) frontend.Variable {
	return bits.FromBinary(e.Self, b)
}

func (e *Engine) isBool(v *fr.Element) bool { return v.IsZero() || v.IsOne() }

func (e *Engine) mustBool(v *fr.Element) {
	if !e.isBool(v) {
		e.fail("not boolean: %s", v.String())
	}
}

func (e *Engine) Xor(a, b frontend.Variable) frontend.Variable {
	x, y := ToFr(a), ToFr(b)
	e.mustBool(x)
	e.mustBool(y)
	r := new(fr.Element)
	if x.IsOne() != y.IsOne() {
		r.SetOne()
	}
	return r
}
func (e *Engine) Or(a, b frontend.Variable) frontend.Variable {
	x, y := ToFr(a), ToFr(b)
	e.mustBool(x)
	e.mustBool(y)
	r := new(fr.Element)
	if x.IsOne() || y.IsOne() {
		r.SetOne()
	}
	return r
}
func (e *Engine) And(a, b frontend.Variable) frontend.Variable {
	x, y := ToFr(a), ToFr(b)
	e.mustBool(x)
	e.mustBool(y)
	r := new(fr.Element)
	if x.IsOne() && y.IsOne() {
		r.SetOne()
	}
	return r
}

func (e *Engine) Select(b frontend.Variable, i1, i2 frontend.Variable) frontend.Variable {
	x := ToFr(b)
	e.mustBool(x)
	if x.IsOne() {
		return cp(ToFr(i1))
	}
	return cp(ToFr(i2))
}

func (e *Engine) Lookup2(b0, b1 frontend.Variable, i0, i1, i2, i3 frontend.Variable) frontend.Variable {
	x, y := ToFr(b0), ToFr(b1)
	e.mustBool(x)
	e.mustBool(y)
	k := 0
	if x.IsOne() {
		k |= 1
	}
	if y.IsOne() {
		k |= 2
	}
	return cp(ToFr([]frontend.Variable{i0, i1, i2, i3}[k]))
}

func (e *Engine) IsZero(i1 frontend.Variable) frontend.Variable {
	r := new(fr.Element)
	if ToFr(i1).IsZero() {
		r.SetOne()
	}
	return r
}

func (e *Engine) Cmp(i1, i2 frontend.Variable) frontend.Variable {
	r := new(fr.Element)
	r.SetInt64(int64(Big(i1).Cmp(Big(i2))))
	return r
}

func (e *Engine) AssertIsEqual(i1, i2 frontend.Variable) {
	e.NbAssert++
	if !ToFr(i1).Equal(ToFr(i2)) {
		e.fail("%s == %s", ToFr(i1).String(), ToFr(i2).String())
	}
}

func (e *Engine) AssertIsDifferent(i1, i2 frontend.Variable) {
	e.NbAssert++
	if ToFr(i1).Equal(ToFr(i2)) {
		e.fail("%s != %s", ToFr(i1).String(), ToFr(i2).String())
	}
}

func (e *Engine) AssertIsBoolean(i1 frontend.Variable) {
	e.NbAssert++
	e.mustBool(ToFr(i1))
}

func (e *Engine) AssertIsLessOrEqual(v, bound frontend.Variable) {
	e.NbAssert++
	if Big(v).Cmp(Big(bound)) > 0 {
		e.fail("%s <= %s", Big(v), Big(bound))
	}
}

// MustBeLessOrEqCst is used by gnark's bits.ToBinary.
func (e *Engine) MustBeLessOrEqCst(aBits []frontend.Variable, bound *big.Int, _ frontend.Variable) {
	v := new(big.Int)
	for i := len(aBits) - 1; i >= 0; i-- {
		b := ToFr(aBits[i])
		e.mustBool(b)
		v.Lsh(v, 1)
		if b.IsOne() {
			v.SetBit(v, 0, 1)
		}
	}
	if v.Cmp(bound) > 0 {
		e.fail("%s <= %s", v, bound)
	}
}

func (e *Engine) Println(a ...frontend.Variable) {}

func (e *Engine) Compiler() frontend.Compiler { return compiler{e} }

func (e *Engine) ConstantValue(v frontend.Variable) (*big.Int, bool) {
	if _, ok := v.(*fr.Element); ok {
		return nil, false
	}
	return Big(v), true
}

func (e *Engine) Field() *big.Int  { return new(big.Int).Set(R) }
func (e *Engine) FieldBitLen() int { return fr.Bits }

func (e *Engine) nativeCheck(v frontend.Variable, nbBits int) {
	b := Big(v)
	if e.LogCheck {
		e.Checks = append(e.Checks, Check{V: b, Bits: nbBits})
	}
	if b.BitLen() > nbBits {
		e.fail("range check: %s has more than %d bits", b, nbBits)
	}
}

// hintName is the fully qualified name of a hint function.
func hintName(f solver.Hint) string { return solver.GetHintName(f) }

func (e *Engine) NewHint(f solver.Hint, nbOutputs int, inputs ...frontend.Variable) ([]frontend.Variable, error) {
	if nbOutputs <= 0 {
		return nil, fmt.Errorf("hint function must return at least one output")
	}
	name := hintName(f)
	c := HintCall{Name: name, Index: e.nHints}
	c.Inputs = make([]*big.Int, len(inputs))
	for i := range inputs {
		c.Inputs[i] = Big(inputs[i])
	}
	c.Outputs = make([]*big.Int, nbOutputs)
	for i := range c.Outputs {
		c.Outputs[i] = new(big.Int)
	}
	if e.Mode == Commit && strings.HasSuffix(name, "rangecheck.DecomposeHint") {
		// gnark's commitment range checker asks for the limbs of one collected value: this is
		// the point at which a collected check becomes a constraint.
		e.flush = true
		e.Checks = append(e.Checks, Check{V: c.Inputs[2], Bits: int(c.Inputs[0].Int64()), Base: int(c.Inputs[1].Int64())})
		out := make([]frontend.Variable, nbOutputs)
		for i := range out {
			out[i] = new(fr.Element)
		}
		return out, nil
	}
	if e.flush {
		panic(flushDone{})
	}
	e.nHints++
	done := false
	if e.OnHint != nil {
		done = e.OnHint(&c)
	}
	if !done {
		func() {
			defer func() {
				if r := recover(); r != nil {
					panic(HintPanic{fmt.Sprintf("%s: %v", name, r)})
				}
			}()
			in := make([]*big.Int, len(c.Inputs))
			for i := range in {
				in[i] = new(big.Int).Set(c.Inputs[i])
			}
			if err := f(e.Field(), in, c.Outputs); err != nil {
				panic(err)
			}
		}()
	}
	if e.Record {
		e.Hints = append(e.Hints, c)
	}
	out := make([]frontend.Variable, nbOutputs)
	for i := range out {
		r := new(fr.Element)
		r.SetBigInt(c.Outputs[i])
		out[i] = r
	}
	return out, nil
}

// Flush runs the deferred callbacks (as Compile would) and enforces the collected range checks.
func (e *Engine) Flush() {
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(flushDone); ok {
					return
				}
				panic(r)
			}
		}()
		for i := 0; i < len(e.deferred); i++ {
			if err := e.deferred[i](e.Self); err != nil {
				panic(err)
			}
		}
	}()
	e.flush = false
	if e.Mode == Commit {
		for _, c := range e.Checks {
			// gnark 0.9.1 enforces whole limbs only
			w := (c.Bits + c.Base - 1) / c.Base * c.Base
			if c.V.BitLen() > w {
				panic(Unsat{fmt.Sprintf("range check: %s has more than %d bits", c.V, w)})
			}
		}
	}
}

type compiler struct{ *Engine }

func (c compiler) AddBlueprint(b constraint.Blueprint) constraint.BlueprintID { panic("unsupported") }
func (c compiler) AddInstruction(constraint.BlueprintID, []uint32) []uint32   { panic("unsupported") }
func (c compiler) MarkBoolean(v frontend.Variable)                            {}
func (c compiler) IsBoolean(v frontend.Variable) bool                         { return c.isBool(ToFr(v)) }
func (c compiler) NewHintForId(id solver.HintID, nbOutputs int, inputs ...frontend.Variable) ([]frontend.Variable, error) {
	if f := solver.GetRegisteredHint(id); f != nil {
		return c.NewHint(f, nbOutputs, inputs...)
	}
	return nil, fmt.Errorf("no hint registered with id #%d", id)
}
func (c compiler) Defer(cb func(api frontend.API) error) { c.deferred = append(c.deferred, cb) }
func (c compiler) InternalVariable(wireID uint32) frontend.Variable {
	panic("unsupported")
}
func (c compiler) ToCanonicalVariable(v frontend.Variable) frontend.CanonicalVariable {
	panic("unsupported")
}
func (c compiler) SetGkrInfo(constraint.GkrInfo) error { panic("unsupported") }
func (c compiler) SetKeyValue(key, value any)          { c.kv[key] = value }
func (c compiler) GetKeyValue(key any) any             { return c.kv[key] }
func (c compiler) Commit(v ...frontend.Variable) (frontend.Variable, error) {
	panic(flushDone{})
}

// Outcome of running a circuit definition.
type Outcome struct {
	Kind string // "sat", "unsat" (constraint), "hint" (honest witness generation failed), "panic" (other refusal)
	Msg  string
}

func (o Outcome) Sat() bool { return o.Kind == "sat" }

// Run executes def on the engine followed by the deferred callbacks.
func (e *Engine) Run(def func(api frontend.API)) (o Outcome) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case Unsat:
				o = Outcome{"unsat", x.Msg}
			case HintPanic:
				o = Outcome{"hint", x.Msg}
			default:
				o = Outcome{"panic", fmt.Sprint(r)}
			}
		}
	}()
	def(e.Self)
	e.Flush()
	return Outcome{Kind: "sat"}
}
