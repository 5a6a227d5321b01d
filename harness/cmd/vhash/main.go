// vhash replays specification behaviours into the two Poseidon gadgets.
package main

import (
	"fmt"
	"math/big"
	"os"

	"github.com/consensys/gnark/frontend"
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
	"github.com/succinctlabs/gnark-plonky2-verifier/poseidon"
	"verif/harness/adv"
	"verif/harness/cs"
	"verif/harness/engine"
	"verif/harness/itf"
	"verif/harness/rep"
)

type event struct {
	op        string
	args, out []*big.Int
	n         int
}

func vars(in []frontend.Variable) []gl.Variable {
	r := make([]gl.Variable, len(in))
	for i := range in {
		r[i] = gl.NewVariable(in[i])
	}
	return r
}
func limbs(in []gl.Variable) []frontend.Variable {
	r := make([]frontend.Variable, len(in))
	for i := range in {
		r[i] = in[i].Limb
	}
	return r
}

func apply(api frontend.API, e event, in []frontend.Variable) []frontend.Variable {
	ext := func() (s poseidon.GoldilocksStateExtension) {
		for i := range s {
			s[i] = gl.NewQuadraticExtensionVariable(gl.NewVariable(in[2*i]), gl.NewVariable(in[2*i+1]))
		}
		return
	}
	fl := func(s poseidon.GoldilocksStateExtension) (r []frontend.Variable) {
		for i := range s {
			r = append(r, s[i][0].Limb, s[i][1].Limb)
		}
		return
	}
	switch e.op {
	case "glPerm":
		var s poseidon.GoldilocksState
		copy(s[:], vars(in))
		s = poseidon.NewGoldilocksChip(api).Poseidon(s)
		return limbs(s[:])
	case "glHashNToM":
		return limbs(poseidon.NewGoldilocksChip(api).HashNToMNoPad(vars(in), e.n))
	case "glHash":
		h := poseidon.NewGoldilocksChip(api).HashNoPad(vars(in))
		return limbs(poseidon.NewGoldilocksChip(api).ToVec(h))
	case "eMds":
		return fl(poseidon.NewGoldilocksChip(api).MdsLayerExtension(ext()))
	case "eSbox":
		return fl(poseidon.NewGoldilocksChip(api).SBoxLayerExtension(ext()))
	case "eConst":
		k := e.n
		return fl(poseidon.NewGoldilocksChip(api).ConstantLayerExtension(ext(), &k))
	case "ePerm":
		c := poseidon.NewGoldilocksChip(api)
		s := ext()
		k := 0
		full := func() {
			for i := 0; i < poseidon.HALF_N_FULL_ROUNDS; i++ {
				s = c.ConstantLayerExtension(s, &k)
				s = c.SBoxLayerExtension(s)
				s = c.MdsLayerExtension(s)
				k++
			}
		}
		full()
		s = c.PartialFirstConstantLayerExtension(s)
		s = c.MdsPartialLayerInitExtension(s)
		g := gl.New(api)
		for i := 0; i < poseidon.N_PARTIAL_ROUNDS; i++ {
			s[0] = c.SBoxMonomialExtension(s[0])
			if i < poseidon.N_PARTIAL_ROUNDS-1 {
				s[0] = g.AddExtension(s[0], gl.NewVariable(poseidon.FAST_PARTIAL_ROUND_CONSTANTS[i]).ToQuadraticExtension())
			}
			s = c.MdsPartialLayerFastExtension(s, i)
		}
		k += poseidon.N_PARTIAL_ROUNDS
		full()
		return fl(s)
	case "bnPerm":
		var s poseidon.BN254State
		copy(s[:], in)
		s = poseidon.NewBN254Chip(api).Poseidon(s)
		return s[:]
	case "bnTwoToOne":
		return []frontend.Variable{poseidon.NewBN254Chip(api).TwoToOne(in[0], in[1])}
	case "bnHash":
		return []frontend.Variable{poseidon.NewBN254Chip(api).HashNoPad(vars(in))}
	case "bnHashOrNoop":
		return []frontend.Variable{poseidon.NewBN254Chip(api).HashOrNoop(vars(in))}
	case "bnToVec":
		return limbs(poseidon.NewBN254Chip(api).ToVec(in[0]))
	}
	panic("unknown " + e.op)
}

func frs(l []*big.Int) []frontend.Variable {
	r := make([]frontend.Variable, len(l))
	for i := range l {
		r[i] = engine.ToFr(l[i])
	}
	return r
}

func main() {
	a := rep.Parse()
	r := rep.New()
	if a.Cmd != "hash" {
		fmt.Fprintln(os.Stderr, "unknown command", a.Cmd)
		os.Exit(2)
	}
	cs.BitDecomp(false)
	type item struct {
		t   *itf.Trace
		evs []event
	}
	type cj struct {
		it item
		i  int
	}
	var items []item
	for _, f := range a.Files {
		t := itf.MustRead(f)
		r.Trace(len(t.States))
		it := item{t: t}
		for i := range t.States {
			e := t.Event(i)
			it.evs = append(it.evs, event{itf.Str(e["op"]), itf.Ints(e["args"]), itf.Ints(e["out"]), itf.I(e["n"])})
		}
		items = append(items, it)
	}
	// one builder per behaviour: the requests of a behaviour share it
	r.Parallel(len(items), func(k int) {
		it := items[k]
		modes := []engine.Mode{engine.Native}
		if k%4 == 0 || a.Thorough() {
			modes = append(modes, engine.BitDecomp)
		}
		for _, m := range modes {
			e := engine.New(m)
			bad := false
			step := 0
			o := e.Run(func(api frontend.API) {
				for i, ev := range it.evs {
					if ev.op == "init" {
						continue
					}
					step = i
					in := frs(ev.args)
					out := apply(api, ev, in)
					r.Count(ev.op, 1)
					for j := range in {
						if engine.Big(in[j]).Cmp(ev.args[j]) != 0 {
							r.Violate(it.t.File, i, "[%s] %s modifies its argument %d", m, ev.op, j)
						}
					}
					if len(out) != len(ev.out) {
						r.Violate(it.t.File, i, "[%s] %s on %d elements: %d results instead of %d", m, ev.op, len(ev.args), len(out), len(ev.out))
						bad = true
						return
					}
					for j := range out {
						if engine.Big(out[j]).Cmp(ev.out[j]) != 0 {
							r.Violate(it.t.File, i, "[%s] %s%v: result[%d] = %s, specification requires %s", m, ev.op, ev.args, j, engine.Big(out[j]), ev.out[j])
							bad = true
							return
						}
					}
				}
			})
			r.Run(len(it.evs))
			if !bad && !o.Sat() {
				r.Violate(it.t.File, step, "[%s] %s refused: %s %s", m, it.evs[step].op, o.Kind, o.Msg)
			}
		}
	})
	// splitting is what a prover could answer differently: every deviation of every auxiliary value it asks for
	var splits []cj
	for _, it := range items {
		for i, ev := range it.evs {
			if ev.op == "bnToVec" {
				splits = append(splits, cj{it, i})
			}
		}
	}
	r.Parallel(len(splits), func(k int) {
		ev := splits[k].it.evs[splits[k].i]
		for _, m := range []engine.Mode{engine.Native, engine.BitDecomp} {
			e := engine.New(m)
			e.Record = true
			e.Run(func(api frontend.API) { apply(api, ev, frs(ev.args)) })
			r.Adv(1)
			for call, n := 0, len(e.Hints); call < n; call++ {
				for _, mv := range adv.Moves[adv.Kind(e.Hints[call].Name)] {
					applied := false
					e2 := engine.New(m)
					e2.OnHint = adv.Prover(call, mv, 0, &applied)
					var out []frontend.Variable
					o := e2.Run(func(api frontend.API) { out = apply(api, ev, frs(ev.args)) })
					if !applied {
						continue
					}
					r.Adv(1)
					if !o.Sat() {
						continue
					}
					for j := range out {
						if engine.Big(out[j]).Cmp(ev.out[j]) != 0 {
							r.Violate(splits[k].it.t.File, splits[k].i, "[%s] %s%v: prover move %s at request %d is accepted with chunk[%d] = %s instead of %s", m, ev.op, ev.args, mv, call, j, engine.Big(out[j]), ev.out[j])
							return
						}
					}
				}
			}
		}
	})
	// compiled circuits
	seen := map[string]int{}
	var js []cj
	lim := 2
	if a.Thorough() {
		lim = 10
	}
	for _, it := range items {
		for i, ev := range it.evs {
			if ev.op == "init" || seen[ev.op] >= lim || len(ev.args) > 24 {
				continue
			}
			seen[ev.op]++
			js = append(js, cj{it, i})
		}
	}
	cs.BitDecomp(true)
	r.Parallel(len(js), func(k int) {
		ev := js[k].it.evs[js[k].i]
		kind := []string{"r1cs", "scs"}[k%2]
		d := cs.Outputs(kind, ev.args, ev.out, func(api frontend.API, in []frontend.Variable) []frontend.Variable { return apply(api, ev, in) })
		r.Run(2)
		r.Count("compiled", 1)
		if d != "" {
			r.Violate(js[k].it.t.File, js[k].i, "%s%v: %s", ev.op, ev.args, d)
		}
	})
	for _, it := range items {
		if len(it.evs) > 1 {
			r.Sample(map[string]any{"op": it.evs[1].op, "args": fmt.Sprint(it.evs[1].args), "out": fmt.Sprint(it.evs[1].out)})
		}
	}
	r.Write(a.Out)
}
