package main

import (
	"fmt"
	"math/big"
	"math/rand"

	"verif/harness/adv"
	"verif/harness/engine"
	"verif/harness/pk"
	"verif/harness/rep"
)

// sweep makes the alterations of the specification's action `alterWith` everywhere in honest proofs; the invariants
// of the specification (noticed, canonicalOnly) say that every one of them must be refused.
func sweep(a rep.Args, r *rep.Report, st *store, what string) {
	type job struct {
		id int
		es []pk.Edit
	}
	var jobs []job
	rnd := rand.New(rand.NewSource(a.Seed*31 + int64(len(what))))
	full_ := 0
	var tight []job
	for _, id := range ids() {
		in, err := st.at(id)
		if err != nil || in.craft != "" {
			continue
		}
		f := in.fresh()
		cells := f.cells()
		var l []job
		amount := func() *big.Int {
			switch rnd.Intn(3) {
			case 0:
				return big.NewInt(1)
			case 1:
				return new(big.Int).Sub(bigP, big.NewInt(1))
			}
			return new(big.Int).SetUint64(1 + rnd.Uint64()>>1)
		}
		one := func(e pk.Edit) { l = append(l, job{id, []pk.Edit{e}}) }
		switch what {
		case "alter":
			for _, e := range cells {
				// an entry of the preprocessed cap counts when a query leads to it: judged by the specification
				if e.Sec == "witness" || e.Sec == "cap" && e.A == 0 {
					continue
				}
				e.Op, e.D = "move", amount()
				one(e)
			}
			var es []pk.Edit
			for i := 0; i < 16; i++ {
				es = append(es, pk.Edit{Sec: "cap", I: i, J: i, Op: "move", D: amount()})
			}
			l = append(l, job{id, es})
			for _, p := range f.places() {
				n := f.size(p.Sec, p.A, p.B)
				for i := 0; i < n && !isWhole[p.Sec] && !(p.Sec == "cap" && p.A == 0); i++ {
					e := p
					e.Op, e.I, e.J, e.D = "swap", i, rnd.Intn(n), big.NewInt(1)
					g := in.fresh()
					g.apply(e)
					if differ(f, g) {
						one(e)
					}
				}
			}
		case "over":
			for _, e := range cells {
				if !isGl[e.Sec] {
					continue
				}
				e.Op, e.D = "over", big.NewInt(1)
				// a small value has a second name below 2^64: never left out, in any proof
				if f.value(e).BitLen() <= 32 {
					if len(tight) < 60 {
						tight = append(tight, job{id, []pk.Edit{e}})
					}
					continue
				}
				if rnd.Intn(3) == 0 {
					e.D = new(big.Int).Add(big.NewInt(1), new(big.Int).Rand(rnd, new(big.Int).Lsh(big.NewInt(1), uint(1+rnd.Intn(180)))))
				}
				one(e)
			}
		case "shape":
			for _, p := range f.places() {
				n := f.size(p.Sec, p.A, p.B)
				if p.Sec == "digest" || p.Sec == "witness" {
					continue
				}
				ops := []string{"drop", "drop", "again", "more"}
				if isWhole[p.Sec] {
					ops = []string{"drop", "drop", "again", "more"}
				}
				for k, op := range ops {
					e := p
					e.Op, e.D = op, big.NewInt(1)
					if n == 0 && op != "more" {
						continue
					}
					if n > 0 {
						e.I = n - 1
						if k == 1 {
							e.I = 0
						}
					}
					one(e)
				}
				// emptied
				if n > 1 {
					var es []pk.Edit
					for i := 0; i < n; i++ {
						e := p
						e.Op, e.D = "drop", big.NewInt(1)
						es = append(es, e)
					}
					l = append(l, job{id, es})
				}
			}
		}
		// small proofs completely, large ones in part
		limit := 40
		small := in.cd.DegreeBits < 12
		if small && full_ < 2 && what != "over" || small && full_ < 3 && what == "over" {
			limit, full_ = len(l), full_+1
			if limit > 400 && !a.Thorough() {
				limit = 400
			}
		}
		if what == "shape" {
			limit = 60
		}
		if a.Thorough() {
			limit *= 6
		}
		if limit < len(l) {
			rnd.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
			l = l[:limit]
		}
		jobs = append(append(jobs, l...), tight...)
		tight = nil
	}
	r.Parallel(len(jobs), func(k int) {
		j := jobs[k]
		in, err := st.at(j.id)
		if err != nil {
			return
		}
		f, err := altered(in, j.es)
		if err != nil {
			r.Error("alteration %s cannot be made: %v", describe(j.es), err)
			return
		}
		m, hint, who := engine.Native, adv.Lenient(k%adv.Secondary), "hints at the prover's will"
		if k%5 == 0 && (a.Thorough() || k%20 == 0) {
			m = engine.BitDecomp
		}
		if what == "shape" {
			hint, who = nil, "honest hints"
		}
		o := judge(f, m, hint)
		r.Run(1)
		r.Adv(1)
		r.Count(fmt.Sprintf("%s %s", what, j.es[0].Sec), 1)
		if o.Sat() {
			r.Violate("", j.id, "[%s, %s] a proof altered at %s is accepted (%s)", m, who, describe(j.es[:1]), shape(in))
		}
	})
}

func differ(f, g *full) bool {
	a, b := f.values(), g.values()
	for i := range a {
		if a[i].Cmp(b[i]) != 0 {
			return true
		}
	}
	return false
}

// config: descriptions that name parameters the verifier does not implement are refused with an otherwise valid proof,
// and so is every description that disagrees with the proof.
func config(a rep.Args, r *rep.Report, st *store) {
	type change struct {
		name string
		f    func(*full)
	}
	var ch []change
	add := func(name string, f func(*full)) { ch = append(ch, change{name, f}) }
	for _, h := range []uint64{0, 1, 2, 3, 5, 6, 8} {
		h := h
		add(fmt.Sprintf("cap height %d", h), func(f *full) {
			f.cd.Config.FriConfig.CapHeight, f.cd.FriParams.Config.CapHeight = h, h
		})
		// with caps of the announced size
		add(fmt.Sprintf("cap height %d with caps of that size", h), func(f *full) {
			f.cd.Config.FriConfig.CapHeight, f.cd.FriParams.Config.CapHeight = h, h
			for a := 0; a < 4; a++ {
				c := *f.cap(a)
				for len(c) < 1<<h {
					c = append(c[:len(c):len(c)], c...)
				}
				*f.cap(a) = c[:1<<h]
			}
			cc := f.pwp.Proof.OpeningProof.CommitPhaseMerkleCaps
			for i := range cc {
				for len(cc[i]) < 1<<h {
					cc[i] = append(cc[i][:len(cc[i]):len(cc[i])], cc[i]...)
				}
				cc[i] = cc[i][:1<<h]
			}
		})
	}
	arities := func(f *full, l []uint64) { f.cd.FriParams.ReductionArityBits = l }
	for _, b := range []uint64{0, 1, 2, 3, 5, 8} {
		b := b
		add(fmt.Sprintf("an arity of 2^%d", b), func(f *full) {
			l := append([]uint64{}, f.cd.FriParams.ReductionArityBits...)
			if len(l) == 0 {
				l = []uint64{b}
			} else {
				l[len(l)-1] = b
			}
			arities(f, l)
		})
	}
	add("one folding round more", func(f *full) { arities(f, append(append([]uint64{}, f.cd.FriParams.ReductionArityBits...), 4)) })
	add("one folding round less", func(f *full) {
		if l := f.cd.FriParams.ReductionArityBits; len(l) > 0 {
			arities(f, l[1:])
		} else {
			arities(f, []uint64{4})
		}
	})
	n := func(name string, p func(f *full) []*uint64) {
		for _, d := range []uint64{1, ^uint64(0)} {
			d := d
			add(fmt.Sprintf("%s %+d", name, int64(d)), func(f *full) {
				for _, x := range p(f) {
					*x += d
				}
			})
		}
	}
	n("public inputs", func(f *full) []*uint64 { return []*uint64{&f.cd.NumPublicInputs} })
	n("constants", func(f *full) []*uint64 { return []*uint64{&f.cd.NumConstants} })
	n("wires", func(f *full) []*uint64 { return []*uint64{&f.cd.Config.NumWires} })
	n("routed wires", func(f *full) []*uint64 { return []*uint64{&f.cd.Config.NumRoutedWires} })
	n("challenges", func(f *full) []*uint64 { return []*uint64{&f.cd.Config.NumChallenges} })
	n("partial products", func(f *full) []*uint64 { return []*uint64{&f.cd.NumPartialProducts} })
	n("quotient degree factor", func(f *full) []*uint64 { return []*uint64{&f.cd.QuotientDegreeFactor} })
	n("query rounds", func(f *full) []*uint64 {
		return []*uint64{&f.cd.Config.FriConfig.NumQueryRounds, &f.cd.FriParams.Config.NumQueryRounds}
	})
	n("degree bits", func(f *full) []*uint64 { return []*uint64{&f.cd.DegreeBits, &f.cd.FriParams.DegreeBits} })
	n("rate bits", func(f *full) []*uint64 {
		return []*uint64{&f.cd.Config.FriConfig.RateBits, &f.cd.FriParams.Config.RateBits}
	})
	var l []int
	for _, id := range ids() {
		if in, err := st.at(id); err == nil && in.craft == "" && (len(l) < 4 || a.Thorough()) {
			l = append(l, id)
		}
	}
	r.Parallel(len(l)*len(ch), func(k int) {
		in, err := st.at(l[k/len(ch)])
		if err != nil {
			return
		}
		f := in.fresh()
		c := ch[k%len(ch)]
		c.f(f)
		o := judge(f, engine.Native, nil)
		r.Run(1)
		r.Count("description "+c.name, 1)
		if o.Sat() {
			r.Violate("", l[k/len(ch)], "a description with %s is served with a proof made for another one (%s)", c.name, shape(in))
		}
	})
}
