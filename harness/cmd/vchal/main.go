// vchal replays specification behaviours into the challenger (Fiat-Shamir transcript).
package main

import (
	"fmt"
	"math/big"
	"os"

	"github.com/consensys/gnark/frontend"
	"github.com/succinctlabs/gnark-plonky2-verifier/challenger"
	"github.com/succinctlabs/gnark-plonky2-verifier/fri"
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
	"github.com/succinctlabs/gnark-plonky2-verifier/poseidon"
	"verif/harness/cs"
	"verif/harness/engine"
	"verif/harness/itf"
	"verif/harness/rep"
)

type event struct {
	op        string
	c, n      int
	args, out []*big.Int
}

func qes(in []frontend.Variable) (r []gl.QuadraticExtensionVariable) {
	for i := 0; i+1 < len(in); i += 2 {
		r = append(r, gl.NewQuadraticExtensionVariable(gl.NewVariable(in[i]), gl.NewVariable(in[i+1])))
	}
	return
}

func apply(c *challenger.Chip, e event, in []frontend.Variable) (out []frontend.Variable) {
	v := make([]gl.Variable, len(in))
	for i := range in {
		v[i] = gl.NewVariable(in[i])
	}
	switch e.op {
	case "element":
		c.ObserveElement(v[0])
	case "elements":
		c.ObserveElements(v)
	case "hash":
		c.ObserveHash(poseidon.GoldilocksHashOut{v[0], v[1], v[2], v[3]})
	case "bnHash":
		c.ObserveBN254Hash(in[0])
	case "cap":
		h := make([]poseidon.BN254HashOut, len(in))
		copy(h, in)
		c.ObserveCap(h)
	case "ext":
		c.ObserveExtensionElement(qes(in)[0])
	case "exts":
		c.ObserveExtensionElements(qes(in))
	case "openings":
		q := qes(in)
		c.ObserveOpenings(fri.Openings{Batches: []fri.OpeningBatch{{Values: q[:e.n]}, {Values: q[e.n:]}}})
	case "challenge":
		out = append(out, c.GetChallenge().Limb)
	case "challenges":
		for _, x := range c.GetNChallenges(uint64(e.n)) {
			out = append(out, x.Limb)
		}
	case "extChallenge":
		x := c.GetExtensionChallenge()
		out = append(out, x[0].Limb, x[1].Limb)
	case "getHash":
		h := c.GetHash()
		for i := range h {
			out = append(out, h[i].Limb)
		}
	default:
		panic("unknown " + e.op)
	}
	return
}

func main() {
	a := rep.Parse()
	r := rep.New()
	if a.Cmd == "transcript" {
		transcripts(a, r)
		r.Write(a.Out)
		return
	}
	if a.Cmd != "challenger" {
		fmt.Fprintln(os.Stderr, "unknown command", a.Cmd)
		os.Exit(2)
	}
	cs.BitDecomp(false)
	ts := make([]*itf.Trace, len(a.Files))
	evs := make([][]event, len(a.Files))
	for k, f := range a.Files {
		t := itf.MustRead(f)
		r.Trace(len(t.States))
		ts[k] = t
		for i := range t.States {
			e := t.Event(i)
			evs[k] = append(evs[k], event{itf.Str(e["op"]), itf.I(e["c"]), itf.I(e["n"]), itf.Ints(e["args"]), itf.Ints(e["out"])})
		}
	}
	r.Parallel(len(ts), func(k int) {
		modes := []engine.Mode{engine.Native}
		if k%6 == 0 || a.Thorough() {
			modes = append(modes, engine.BitDecomp)
		}
		for _, m := range modes {
			step, bad := 0, false
			o := engine.New(m).Run(func(api frontend.API) {
				ch := []*challenger.Chip{challenger.NewChip(api), challenger.NewChip(api)}
				for i, ev := range evs[k] {
					if ev.op == "init" {
						continue
					}
					step = i
					in := make([]frontend.Variable, len(ev.args))
					for j := range in {
						in[j] = engine.ToFr(ev.args[j])
					}
					out := apply(ch[ev.c], ev, in)
					r.Count(ev.op, 1)
					if len(out) != len(ev.out) {
						r.Violate(ts[k].File, i, "[%s] %s: %d challenges instead of %d", m, ev.op, len(out), len(ev.out))
						bad = true
						return
					}
					for j := range out {
						if engine.Big(out[j]).Cmp(ev.out[j]) != 0 {
							r.Violate(ts[k].File, i, "[%s] challenger %d %s: challenge %d = %s, specification requires %s", m, ev.c, ev.op, j, engine.Big(out[j]), ev.out[j])
							bad = true
							return
						}
					}
				}
			})
			r.Run(1)
			if !bad && !o.Sat() {
				r.Violate(ts[k].File, step, "[%s] %s refused: %s %s", m, evs[k][step].op, o.Kind, o.Msg)
			}
		}
	})
	n := 2
	if a.Thorough() {
		n = 12
	}
	if n > len(ts) {
		n = len(ts)
	}
	cs.BitDecomp(true)
	r.Parallel(n, func(k int) {
		var in, out []*big.Int
		for _, ev := range evs[k] {
			in = append(in, ev.args...)
			out = append(out, ev.out...)
		}
		kind := []string{"r1cs", "scs"}[k%2]
		d := cs.Outputs(kind, in, out, func(api frontend.API, v []frontend.Variable) (o []frontend.Variable) {
			ch := []*challenger.Chip{challenger.NewChip(api), challenger.NewChip(api)}
			p := 0
			for _, ev := range evs[k] {
				if ev.op == "init" {
					continue
				}
				o = append(o, apply(ch[ev.c], ev, v[p:p+len(ev.args)])...)
				p += len(ev.args)
			}
			return
		})
		r.Run(2)
		r.Count("compiled", 1)
		if d != "" {
			r.Violate(ts[k].File, 0, "%s", d)
		}
	})
	for k := range ts {
		s := []string{}
		for _, e := range evs[k] {
			s = append(s, fmt.Sprintf("%d.%s/%d", e.c, e.op, len(e.args)+e.n))
		}
		r.Sample(map[string]any{"behaviour": fmt.Sprint(s)})
	}
	r.Write(a.Out)
}
