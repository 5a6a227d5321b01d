package pk

import (
	"math/big"
)

// Gate is a gate with its parameters; Ws are the barycentric weights of an interpolation gate.
type Gate struct {
	Kind string
	Par  []int
	Ws   []F
}

type alg = E // over the base field the algebra is the extension itself

type row struct {
	w, c []F
	h    [4]F
}

func at(w []F, i int) E       { return E{w[i], w[i+1]} }
func put(o []F, a E) []F      { return append(o, a[0], a[1]) }
func (g Gate) p(i int) int    { return g.Par[i] }
func coInter(bits, d int) int { return (1<<uint(bits) - 2) / (d - 1) }
func polyAt(t []F, x F) (r F) {
	for i := len(t) - 1; i >= 0; i-- {
		r = fadd(fmul(r, x), t[i])
	}
	return
}

func (g Gate) constraints(r row) (o []F) {
	w := r.w
	switch g.Kind {
	case "constant":
		for i := 0; i < g.p(0); i++ {
			o = append(o, fsub(r.c[i], w[i]))
		}
	case "publicInput":
		for i := 0; i < 4; i++ {
			o = append(o, fsub(w[i], r.h[i]))
		}
	case "arithmetic":
		for i := 0; i < g.p(0); i++ {
			o = append(o, fsub(w[4*i+3], fadd(fmul(fmul(w[4*i], w[4*i+1]), r.c[0]), fmul(w[4*i+2], r.c[1]))))
		}
	case "arithmeticExt":
		for i := 0; i < g.p(0); i++ {
			o = put(o, esub(at(w, 8*i+6), eadd(escale(emul(at(w, 8*i), at(w, 8*i+2)), r.c[0]), escale(at(w, 8*i+4), r.c[1]))))
		}
	case "mulExt":
		for i := 0; i < g.p(0); i++ {
			o = put(o, esub(at(w, 6*i+4), escale(emul(at(w, 6*i), at(w, 6*i+2)), r.c[0])))
		}
	case "baseSum":
		n, b := g.p(0), g.p(1)
		o = append(o, fsub(polyAt(w[1:1+n], U(uint64(b))), w[0]))
		for i := 0; i < n; i++ {
			x := U(1)
			for k := 0; k < b; k++ {
				x = fmul(x, fsub(w[1+i], U(uint64(k))))
			}
			o = append(o, x)
		}
	case "exponentiation":
		n := g.p(0)
		for i := 0; i < n; i++ {
			prev := U(1)
			if i > 0 {
				prev = fmul(w[n+1+i], w[n+1+i])
			}
			b := w[n-i]
			o = append(o, fsub(fmul(prev, fadd(fmul(b, w[0]), fsub(U(1), b))), w[n+2+i]))
		}
		o = append(o, fsub(w[n+1], w[2*n+1]))
	case "randomAccess":
		bits, copies, extra := g.p(0), g.p(1), g.p(2)
		stride := 2 + 1<<uint(bits)
		for k := 0; k < copies; k++ {
			bs := w[stride*copies+extra+k*bits:][:bits]
			for _, b := range bs {
				o = append(o, fsub(fmul(b, b), b))
			}
			o = append(o, fsub(polyAt(bs, U(2)), w[stride*k]))
			l := append([]F{}, w[stride*k+2:stride*(k+1)]...)
			for _, b := range bs {
				n := make([]F, len(l)/2)
				for i := range n {
					n[i] = fadd(l[2*i], fmul(b, fsub(l[2*i+1], l[2*i])))
				}
				l = n
			}
			o = append(o, fsub(l[0], w[stride*k+1]))
		}
		for i := 0; i < extra; i++ {
			o = append(o, fsub(r.c[i], w[stride*copies+i]))
		}
	case "reducing", "reducingExt":
		n := g.p(0)
		accs := 6 + n
		if g.Kind == "reducingExt" {
			accs = 6 + 2*n
		}
		prev := at(w, 4)
		for i := 0; i < n; i++ {
			cur := at(w, 0)
			if i < n-1 {
				cur = at(w, accs+2*i)
			}
			co := base(w[6+i])
			if g.Kind == "reducingExt" {
				co = at(w, 6+2*i)
			}
			o = put(o, esub(eadd(emul(prev, at(w, 2)), co), cur))
			prev = cur
		}
	case "coset":
		bits, d := g.p(0), g.p(1)
		n := 1 << uint(bits)
		m := coInter(bits, d)
		xs := []F{}
		for i, x := 0, U(1); i < n; i, x = i+1, fmul(x, root(uint64(bits))) {
			xs = append(xs, x)
		}
		start := 1 + 2*n + 4
		pt := at(w, start+4*m)
		ev, pr := E{}, base(U(1))
		part := func(lo, hi int) {
			for i := lo; i < hi; i++ {
				t := esub(pt, base(xs[i]))
				ev = eadd(emul(ev, t), emul(escale(at(w, 1+2*i), g.Ws[i]), pr))
				pr = emul(pr, t)
			}
		}
		o = put(o, esub(at(w, 1+2*n), escale(pt, w[0])))
		part(0, d)
		for k := 0; k < m; k++ {
			ie, ip := at(w, start+2*k), at(w, start+2*m+2*k)
			o = put(put(o, esub(ie, ev)), esub(ip, pr))
			ev, pr = ie, ip
			lo := 1 + (d-1)*(k+1)
			hi := lo + d - 1
			if hi > n {
				hi = n
			}
			part(lo, hi)
		}
		o = put(o, esub(at(w, start-2), ev))
	case "poseidon":
		sw := w[24]
		o = append(o, fmul(sw, fsub(sw, U(1))))
		var s [12]F
		copy(s[:], w[:12])
		for i := 0; i < 4; i++ {
			o = append(o, fsub(fmul(sw, fsub(w[i+4], w[i])), w[25+i]))
			s[i], s[i+4] = fadd(w[i], w[25+i]), fsub(w[i+4], w[25+i])
		}
		for rd := 0; rd < 30; rd++ {
			for i := range s {
				s[i] = fadd(s[i], glRC[rd][i])
			}
			b, n := 29+12*(rd-1), 12
			if rd >= 4 && rd < 26 {
				b, n = 65+(rd-4), 1
			} else if rd >= 26 {
				b = 87 + 12*(rd-26)
			}
			for i := 0; i < n; i++ {
				if rd > 0 {
					o = append(o, fsub(s[i], w[b+i]))
					s[i] = w[b+i]
				}
				s[i] = sbox7(s[i])
			}
			s = mds(s)
		}
		for i := range s {
			o = append(o, fsub(s[i], w[12+i]))
		}
	case "poseidonMds":
		var a, b [12]F
		for i := range a {
			a[i], b[i] = w[2*i], w[2*i+1]
		}
		a, b = mds(a), mds(b)
		for i := range a {
			o = put(o, esub(at(w, 24+2*i), E{a[i], b[i]}))
		}
	}
	return
}

func (g Gate) numWires() int {
	switch g.Kind {
	case "constant":
		return g.p(0)
	case "publicInput":
		return 4
	case "arithmetic":
		return 4 * g.p(0)
	case "arithmeticExt":
		return 8 * g.p(0)
	case "mulExt":
		return 6 * g.p(0)
	case "baseSum":
		return 1 + g.p(0)
	case "exponentiation":
		return 2 + 2*g.p(0)
	case "randomAccess":
		return (2+1<<uint(g.p(0)))*g.p(1) + g.p(2) + g.p(1)*g.p(0)
	case "reducing":
		return 6 + g.p(0) + 2*(g.p(0)-1)
	case "reducingExt":
		return 6 + 2*g.p(0) + 2*(g.p(0)-1)
	case "coset":
		return 1 + 2<<uint(g.p(0)) + 4 + 4*coInter(g.p(0), g.p(1)) + 2
	case "poseidon":
		return 135
	case "poseidonMds":
		return 48
	}
	return 0
}
func (g Gate) numConsts() int {
	switch g.Kind {
	case "constant":
		return g.p(0)
	case "arithmetic", "arithmeticExt":
		return 2
	case "mulExt":
		return 1
	case "randomAccess":
		return g.p(2)
	}
	return 0
}
func (g Gate) degree() int {
	switch g.Kind {
	case "constant", "publicInput", "poseidonMds":
		return 1
	case "arithmetic", "arithmeticExt", "mulExt":
		return 3
	case "baseSum":
		if g.p(1) < 1 {
			return 1
		}
		return g.p(1)
	case "exponentiation":
		return 4
	case "randomAccess":
		return g.p(0) + 1
	case "reducing", "reducingExt":
		return 2
	case "coset":
		return g.p(1)
	case "poseidon":
		return 7
	}
	return 0
}
func (g Gate) numConstraints() int {
	r := row{w: make([]F, g.numWires()+1), c: make([]F, g.numConsts()+1)}
	return len(g.constraints(r))
}

// complete overwrites the wires that the gate determines.
func (g Gate) complete(r row) {
	w := r.w
	digit := func(i int, m uint64) { w[i] = U(val(w[i]) % m) }
	fix := func(wire, con int, sign int) { // one constraint at a time: wire += sign * constraint
		d := g.constraints(r)[con]
		if sign < 0 {
			d = fsub(F{}, d)
		}
		w[wire] = fadd(w[wire], d)
	}
	switch g.Kind {
	case "constant":
		copy(w, r.c[:g.p(0)])
	case "publicInput":
		copy(w, r.h[:])
	case "arithmetic":
		for i := 0; i < g.p(0); i++ {
			fix(4*i+3, i, -1)
		}
	case "arithmeticExt", "mulExt":
		st, out := 8, 6
		if g.Kind == "mulExt" {
			st, out = 6, 4
		}
		for i := 0; i < 2*g.p(0); i++ {
			fix(st*(i/2)+out+i%2, i, -1)
		}
	case "baseSum":
		for i := 0; i < g.p(0); i++ {
			digit(1+i, uint64(g.p(1)))
		}
		fix(0, 0, 1)
	case "exponentiation":
		n := g.p(0)
		for i := 0; i < n; i++ {
			digit(1+i, 2)
		}
		for i := 0; i < n; i++ {
			fix(n+2+i, i, 1)
		}
		w[n+1] = w[2*n+1]
	case "randomAccess":
		bits, copies, extra := g.p(0), g.p(1), g.p(2)
		stride := 2 + 1<<uint(bits)
		for i := 0; i < bits*copies; i++ {
			digit(stride*copies+extra+i, 2)
		}
		for k := 0; k < copies; k++ {
			fix(stride*k, k*(bits+2)+bits, 1)
			fix(stride*k+1, k*(bits+2)+bits+1, 1)
		}
		for i := 0; i < extra; i++ {
			w[stride*copies+i] = r.c[i]
		}
	case "reducing", "reducingExt":
		n := g.p(0)
		accs := 6 + n
		if g.Kind == "reducingExt" {
			accs = 6 + 2*n
		}
		for i := 0; i < n; i++ {
			a := 0
			if i < n-1 {
				a = accs + 2*i
			}
			fix(a, 2*i, 1)
			fix(a+1, 2*i+1, 1)
		}
	case "coset":
		n := 1 << uint(g.p(0))
		m := coInter(g.p(0), g.p(1))
		start := 1 + 2*n + 4
		fix(start-4, 0, -1)
		fix(start-3, 1, -1)
		for k := 0; k < m; k++ {
			fix(start+2*k, 2+4*k, -1)
			fix(start+2*k+1, 3+4*k, -1)
			fix(start+2*m+2*k, 4+4*k, -1)
			fix(start+2*m+2*k+1, 5+4*k, -1)
		}
		fix(start-2, 2+4*m, -1)
		fix(start-1, 3+4*m, -1)
	case "poseidon":
		digit(24, 2)
		for i := 0; i < 4; i++ {
			fix(25+i, 1+i, 1)
		}
		con := 5
		for rd := 1; rd < 30; rd++ {
			b, n := 29+12*(rd-1), 12
			if rd >= 4 && rd < 26 {
				b, n = 65+(rd-4), 1
			} else if rd >= 26 {
				b = 87 + 12*(rd-26)
			}
			for i := 0; i < n; i++ {
				fix(b+i, con, 1)
				con++
			}
		}
		for i := 0; i < 12; i++ {
			fix(12+i, con+i, 1)
		}
	case "poseidonMds":
		for i := 0; i < 24; i++ {
			fix(24+i, i, -1)
		}
	}
}

func weights(bits int) (ws []F) {
	n := uint64(1) << uint(bits)
	ni := finv(U(n))
	for i, x := uint64(0), U(1); i < n; i, x = i+1, fmul(x, root(uint64(bits))) {
		ws = append(ws, fmul(x, ni))
	}
	return
}

func bigs(l []F) (r []*big.Int) {
	for _, x := range l {
		r = append(r, new(big.Int).SetUint64(val(x)))
	}
	return
}
