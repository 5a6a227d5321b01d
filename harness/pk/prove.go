package pk

import (
	"math/big"
	"math/rand"
	"strings"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
)

// Circuit is a circuit description together with an execution trace.
type Circuit struct {
	Gates                                 []Gate
	Groups                                [][2]int
	Sel                                   []int
	Q, Npp, Routed, Wires, Nch            int
	Rate, Pow, K, Nq, DegBits, NPub, NCst int // NCst: constants of the gates (without selectors)
	NGC                                   int
	KIs                                   []F
	Digest                                fr.Element
	Pub                                   []F
	// parts of a description that do not bear on verification
	MaxQ, Security, CfgConsts int
	NoBase                    bool
}

type Query struct {
	Leaves [][]F
	Paths  [][]fr.Element
	Evals  [][]E
	SPaths [][]fr.Element
}

type Proof struct {
	Caps                                                      [4][]fr.Element // constants+sigmas, wires, zs+partials, quotient
	Constants, Sigmas, WiresO, Zs, ZsNext, Partials, Quotient []E
	Commit                                                    [][]fr.Element
	Queries                                                   []Query
	Final                                                     []E
	PowWitness                                                F
	Pub                                                       []F
	Craft                                                     string
	Edits                                                     []Edit // changes the prover makes to the finished proof (values the file format cannot hold)
}

// Edit is an alteration of a proof, as in spec/verifier.qnt.
type Edit struct {
	Sec     string
	A, B    int
	I, J, C int
	Op      string
	D       *big.Int
}

func (c *Circuit) n() int { return 1 << uint(c.DegBits) }

const unused = 1<<32 - 1

func pick(r *rand.Rand, l ...int) int { return l[r.Intn(len(l))] }
func rnd(r *rand.Rand) F {
	switch r.Intn(6) {
	case 0:
		return U(uint64(r.Intn(4)))
	case 1:
		return fsub(F{}, U(uint64(1+r.Intn(3))))
	}
	return U(r.Uint64())
}
func rndH(r *rand.Rand) (h fr.Element) {
	var b [40]byte
	r.Read(b[:])
	h.SetBytes(b[:])
	return
}

// Limits of the circuits to sample.
type Limits struct {
	MaxWires, MaxDegBits int
	K                    int // number of folding rounds
	Rate                 int // at least this many rate bits
	Must                 []string
}

var Kinds = []string{"noop", "constant", "publicInput", "arithmetic", "arithmeticExt", "mulExt", "baseSum", "exponentiation",
	"randomAccess", "reducing", "reducingExt", "coset", "poseidon", "poseidonMds"}

func sampleGate(r *rand.Rand, kind string) Gate {
	g := Gate{Kind: kind}
	switch kind {
	case "constant":
		g.Par = []int{r.Intn(4)}
	case "arithmetic", "mulExt":
		g.Par = []int{1 + r.Intn(5)}
	case "arithmeticExt":
		g.Par = []int{1 + r.Intn(4)}
	case "baseSum":
		g.Par = []int{1 + r.Intn(12), 2 + r.Intn(5)}
	case "exponentiation":
		g.Par = []int{1 + r.Intn(12)}
	case "randomAccess":
		g.Par = []int{r.Intn(4), 1 + r.Intn(2), r.Intn(3)}
	case "reducing", "reducingExt":
		g.Par = []int{1 + r.Intn(9)}
	case "coset":
		b := 1 + r.Intn(3)
		d := 2
		if b > 1 {
			d = 2 + r.Intn(1<<uint(b)-1)
		}
		g.Par, g.Ws = []int{b, d}, weights(b)
	}
	return g
}

// Sample draws a circuit description.
func Sample(r *rand.Rand, lim Limits) *Circuit {
	for {
		c := &Circuit{}
		c.Q = pick(r, 1, 2, 3, 4, 5, 7, 8, 8)
		for 1<<uint(c.Rate) < c.Q {
			c.Rate++
		}
		c.Rate += r.Intn(2)
		if c.Rate == 0 {
			c.Rate = 1
		}
		ng := 1 + r.Intn(6)
		seen := map[string]bool{}
		for len(c.Gates) < ng {
			k := Kinds[r.Intn(len(Kinds))]
			if len(c.Gates) < len(lim.Must) {
				k = lim.Must[len(c.Gates)]
			}
			g := sampleGate(r, k)
			if g.degree() > c.Q+1 || g.numWires() > lim.MaxWires {
				if len(c.Gates) < len(lim.Must) {
					break
				}
				if r.Intn(3) == 0 {
					ng--
				}
				continue
			}
			if seen[k] && len(g.Par) == 0 {
				if r.Intn(3) == 0 {
					ng--
				}
				continue
			}
			seen[k] = true
			c.Gates = append(c.Gates, g)
		}
		if len(c.Gates) == 0 || len(c.Gates) < len(lim.Must) {
			continue
		}
		r.Shuffle(len(c.Gates), func(i, j int) { c.Gates[i], c.Gates[j] = c.Gates[j], c.Gates[i] })
		if !c.group(r) {
			continue
		}
		c.Npp = r.Intn(4)
		c.Routed = c.Q*(c.Npp+1) - r.Intn(c.Q)
		if r.Intn(2) == 0 {
			c.Routed = c.Q * (c.Npp + 1)
		}
		c.Wires = c.Routed
		for _, g := range c.Gates {
			if g.numWires() > c.Wires {
				c.Wires = g.numWires()
			}
			if g.numConsts() > c.NCst {
				c.NCst = g.numConsts()
			}
			if n := g.numConstraints(); n > c.NGC {
				c.NGC = n
			}
		}
		if c.Routed > lim.MaxWires || c.Wires > lim.MaxWires {
			continue
		}
		c.Wires += r.Intn(3)
		c.NCst += r.Intn(2)
		c.Nch = 1 + r.Intn(3)
		c.K = lim.K
		if lim.Rate > 0 && c.Rate < lim.Rate {
			c.Rate = lim.Rate
			lim.MaxDegBits = 0
		} else if c.K == 0 && r.Intn(8) == 0 {
			c.Rate = 5 + r.Intn(4)
			lim.MaxDegBits = 2
		}
		min := 4 * c.K
		for min+c.Rate < 4*(c.K+1) {
			min++
		}
		if min < 1 {
			min = 1
		}
		c.DegBits = min
		if lim.MaxDegBits > min {
			c.DegBits += r.Intn(lim.MaxDegBits - min + 1)
		}
		c.Pow = pick(r, 0, 1, 3, 7, 10, 12, 16)
		c.Nq = 1 + r.Intn(3)
		if c.K == 2 {
			c.Nq = 1 + r.Intn(2)
		}
		c.NPub = r.Intn(20)
		for i := 0; i < c.Routed; i++ {
			c.KIs = append(c.KIs, fpow(U(7), uint64(i)))
		}
		c.Digest = rndH(r)
		c.MaxQ = c.Q + r.Intn(1<<uint(c.Rate)-c.Q+1)
		c.Security, c.CfgConsts, c.NoBase = 80+r.Intn(50), r.Intn(c.NCst+1), r.Intn(2) == 0
		return c
	}
}

// group forms selector groups whose filtered constraints fit the quotient degree.
func (c *Circuit) group(r *rand.Rand) bool {
	ok := func(gr [][2]int) bool {
		for _, g := range gr {
			for i := g[0]; i < g[1]; i++ {
				d := c.Gates[i].degree() + g[1] - g[0] - 1
				if len(gr) > 1 {
					d++
				}
				if d > c.Q+1 {
					return false
				}
			}
		}
		return true
	}
	for try := 0; try < 20; try++ {
		gr := [][2]int{}
		for i := 0; i < len(c.Gates); {
			j := i + 1 + r.Intn(len(c.Gates)-i)
			gr = append(gr, [2]int{i, j})
			i = j
		}
		if ok(gr) {
			c.Groups, c.Sel = gr, nil
			for k, g := range gr {
				for i := g[0]; i < g[1]; i++ {
					c.Sel = append(c.Sel, k)
				}
			}
			return true
		}
	}
	return false
}

// Prove makes a trace and a proof for it. craft names what a dishonest prover does ("" : nothing).
func (c *Circuit) Prove(r *rand.Rand, craft string) *Proof {
	pf := &Proof{Craft: craft}
	n := c.n()
	ns := len(c.Groups)
	g := root(uint64(c.DegBits))
	xs := make([]F, n)
	for i, x := 0, U(1); i < n; i, x = i+1, fmul(x, g) {
		xs[i] = x
	}
	if c.Pub == nil {
		c.Pub = []F{}
		for i := 0; i < c.NPub; i++ {
			c.Pub = append(c.Pub, rnd(r))
		}
	}
	if craft == "missingPublic" && c.NPub > 0 && c.NPub <= 8 {
		c.Pub[c.NPub-1] = F{}
	}
	pf.Pub = c.Pub
	h := glHash(c.Pub)
	// ---- trace
	nconst := ns + c.NCst
	consts := make([][]F, nconst)
	wires := make([][]F, c.Wires)
	for i := range consts {
		consts[i] = make([]F, n)
	}
	for i := range wires {
		wires[i] = make([]F, n)
	}
	pool := []F{U(0), U(1), rnd(r), rnd(r)}
	for i := 0; i < n; i++ {
		gi := r.Intn(len(c.Gates))
		if i < len(c.Gates) {
			gi = i
		}
		rw := row{w: make([]F, c.Wires), c: make([]F, c.NCst), h: h}
		for j := range rw.w {
			rw.w[j] = rnd(r)
			if r.Intn(2) == 0 {
				rw.w[j] = pool[r.Intn(len(pool))]
			}
		}
		for j := range rw.c {
			rw.c[j] = rnd(r)
		}
		c.Gates[gi].complete(rw)
		for j := range wires {
			wires[j][i] = rw.w[j]
		}
		for j := 0; j < ns; j++ {
			if c.Sel[gi] == j {
				consts[j][i] = U(uint64(gi))
			} else {
				consts[j][i] = U(unused)
			}
		}
		for j := range rw.c {
			consts[ns+j][i] = rw.c[j]
		}
	}
	// copy constraints: permute cells of equal value
	sig := make([][]F, c.Routed)
	for j := range sig {
		sig[j] = make([]F, n)
	}
	classes := map[uint64][][2]int{}
	order := []uint64{}
	for j := 0; j < c.Routed; j++ {
		for i := 0; i < n; i++ {
			v := val(wires[j][i])
			if classes[v] == nil {
				order = append(order, v)
			}
			classes[v] = append(classes[v], [2]int{j, i})
		}
	}
	for _, v := range order {
		cl := classes[v]
		p := r.Perm(len(cl))
		for a, b := range p {
			sig[cl[a][0]][cl[a][1]] = fmul(c.KIs[cl[b][0]], xs[cl[b][1]])
		}
	}
	if craft == "copy" { // two routed cells of different value are declared equal
		a, b := [2]int{0, 0}, [2]int{0, 0}
		for try := 0; try < 1000 && wires[a[0]][a[1]] == wires[b[0]][b[1]]; try++ {
			b = [2]int{r.Intn(c.Routed), r.Intn(n)}
		}
		sig[a[0]][a[1]], sig[b[0]][b[1]] = sig[b[0]][b[1]], sig[a[0]][a[1]]
	}
	if craft == "gate" { // one wire of a constrained row is changed after completion
		for i := 0; i < n; i++ {
			gi := i
			if i >= len(c.Gates) {
				break
			}
			if c.Gates[gi].numConstraints() > 0 {
				// an unrouted or routed wire alike; the permutation stays consistent by remapping to itself
				j := r.Intn(c.Gates[gi].numWires())
				old := wires[j][i]
				for try := 0; try < 50; try++ {
					wires[j][i] = fadd(old, U(1+uint64(r.Intn(1000))))
					rw := row{c: nil, h: h}
					for k := range wires {
						rw.w = append(rw.w, wires[k][i])
					}
					for k := 0; k < c.NCst; k++ {
						rw.c = append(rw.c, consts[ns+k][i])
					}
					bad := false
					for _, x := range c.Gates[gi].constraints(rw) {
						bad = bad || !x.IsZero()
					}
					if bad {
						break
					}
					j = r.Intn(c.Gates[gi].numWires())
					wires[j][i] = old
					old = wires[j][i]
				}
				// repair the permutation argument
				for jj := range sig {
					for ii := range sig[jj] {
						sig[jj][ii] = fmul(c.KIs[jj], xs[ii])
					}
				}
				break
			}
		}
	}
	// ---- oracles
	lde := c.DegBits + c.Rate
	N := 1 << uint(lde)
	polysOf := func(v [][]F) (p [][]F) {
		for _, x := range v {
			p = append(p, intt(x))
		}
		return
	}
	// the oracle with number t hashes its leaves with one element written as a larger number of the same residue
	overD := new(big.Int).Add(big.NewInt(1), new(big.Int).Rand(r, new(big.Int).Lsh(big.NewInt(1), uint(1+r.Intn(100)))))
	overAt := r.Intn(1 << 20)
	surplusLeaf := func(i int) int {
		if isCraft(craft, "surplusLeaf", i) {
			return 1
		}
		return 0
	}
	// A lucky prover lies about the one position that will be queried, and makes everything that follows agree with the
	// lie: nothing about the result is wrong, except for what it was lucky with.
	lucky := strings.HasPrefix(craft, "lucky") || strings.HasPrefix(craft, "small")
	luckyAt := r.Intn(N)
	luckyVal := U([]uint64{0, 1, 1<<32 - 2, 1<<32 - 3, uint64(r.Uint32()) >> 1}[r.Intn(5)])
	if craft == "luckyEval" {
		luckyVal = rnd(r)
	}
	if strings.HasPrefix(craft, "luckyLeaf") {
		luckyVal = rnd(r)
	}
	if strings.HasPrefix(craft, "small") {
		// written as the other number below 2^64 of the same residue
		overD = big.NewInt(1)
	}
	commit := func(p [][]F, t int) *tree {
		extra := surplusLeaf(t)
		leaves := make([][]F, N)
		for i := range leaves {
			leaves[i] = make([]F, len(p)+extra)
		}
		for j := range p {
			v := cosetLde(p[j], U(7), N)
			for i := range leaves {
				leaves[i][j] = v[rev(uint64(i), uint64(lde))]
			}
		}
		if isCraft(craft, "luckyLeaf", t) || isCraft(craft, "smallLeaf", t) {
			leaves[luckyAt][overAt%len(leaves[0])] = luckyVal
		}
		if isCraft(craft, "overLeaf", t) || isCraft(craft, "smallLeaf", t) {
			return newTreeOver(leaves, overAt%len(leaves[0]), overD)
		}
		return newTree(leaves)
	}
	pc := polysOf(append(append([][]F{}, consts...), sig...))
	pw := polysOf(wires)
	trees := [4]*tree{commit(pc, 0), commit(pw, 1)}
	bend := func(c []fr.Element, t *tree, name string, i int) []fr.Element {
		c = append([]fr.Element{}, c...)
		switch {
		case isCraft(craft, "surplusCap", i) && name == "cap", craft == "surplusCommitCap" && name == "commit":
			return append(c, rndH(r))
		case isCraft(craft, "missingCap", i) && name == "cap", craft == "missingCommitCap" && name == "commit":
			return c[:15]
		case isCraft(craft, "missingSibling", i) && name == "cap", craft == "missingStepSibling" && name == "commit":
			for j := range c {
				if len(t.layers) > 1 {
					c[j] = t.layers[len(t.layers)-2][2*j]
				}
			}
		case isCraft(craft, "surplusSibling", i) && name == "cap", craft == "surplusStepSibling" && name == "commit":
			for j := range c {
				if j%2 == 0 {
					c[j] = bnTwo(c[j], fr.Element{})
				} else {
					c[j] = bnTwo(fr.Element{}, c[j])
				}
			}
		}
		return c
	}
	caps := [4][]fr.Element{bend(trees[0].cap(), trees[0], "cap", 0), bend(trees[1].cap(), trees[1], "cap", 1)}
	ch := &chal{}
	ch.obsBn(c.Digest)
	ch.obs(h[:]...)
	ch.obsCap(caps[1])
	betas, gammas := ch.drawN(c.Nch), ch.drawN(c.Nch)
	// ---- permutation argument
	zs := make([][]F, c.Nch)
	var parts [][]F
	for t := 0; t < c.Nch; t++ {
		z := make([]F, n)
		pp := make([][]F, c.Npp)
		for k := range pp {
			pp[k] = make([]F, n)
		}
		acc := U(1)
		for i := 0; i < n; i++ {
			z[i] = acc
			for k := 0; k <= c.Npp; k++ {
				nu, de := U(1), U(1)
				for j := k * c.Q; j < (k+1)*c.Q && j < c.Routed; j++ {
					w := fadd(wires[j][i], gammas[t])
					nu = fmul(nu, fadd(w, fmul(betas[t], fmul(c.KIs[j], xs[i]))))
					de = fmul(de, fadd(w, fmul(betas[t], sig[j][i])))
				}
				acc = fmul(acc, fmul(nu, finv(de)))
				if k < c.Npp {
					pp[k][i] = acc
				}
			}
		}
		zs[t] = z
		parts = append(parts, pp...)
	}
	pz := polysOf(append(append([][]F{}, zs...), parts...))
	trees[2] = commit(pz, 2)
	caps[2] = bend(trees[2].cap(), trees[2], "cap", 2)
	ch.obsCap(caps[2])
	alphas := ch.drawN(c.Nch)
	// ---- quotient
	qb := 0
	for 1<<uint(qb) < c.Q {
		qb++
	}
	M := n << uint(qb)
	step := M / n
	ev := func(p [][]F) (v [][]F) {
		for _, x := range p {
			v = append(v, cosetLde(x, U(7), M))
		}
		return
	}
	vc, vw, vz := ev(pc), ev(pw), ev(pz)
	t := make([][]F, c.Nch)
	for k := range t {
		t[k] = make([]F, M)
	}
	gm := root(uint64(c.DegBits + qb))
	x := U(7)
	for i := 0; i < M; i++ {
		xn := fpow(x, uint64(n))
		zh := fsub(xn, U(1))
		l0 := fmul(zh, finv(fmul(U(uint64(n)), fsub(x, U(1)))))
		var terms []F
		for k := 0; k < c.Nch; k++ {
			terms = append(terms, fmul(l0, fsub(vz[k][i], U(1))))
		}
		for k := 0; k < c.Nch; k++ {
			acc := vz[k][i]
			for s := 0; s <= c.Npp; s++ {
				nu, de := U(1), U(1)
				for j := s * c.Q; j < (s+1)*c.Q && j < c.Routed; j++ {
					w := fadd(vw[j][i], gammas[k])
					nu = fmul(nu, fadd(w, fmul(betas[k], fmul(c.KIs[j], x))))
					de = fmul(de, fadd(w, fmul(betas[k], vc[nconst+j][i])))
				}
				nx := vz[k][(i+step)%M]
				if s < c.Npp {
					nx = vz[c.Nch+k*c.Npp+s][i]
				}
				terms = append(terms, fsub(fmul(acc, nu), fmul(nx, de)))
				acc = nx
			}
		}
		gt := make([]F, c.NGC)
		rw := row{h: h}
		for j := range vw {
			rw.w = append(rw.w, vw[j][i])
		}
		for j := ns; j < nconst; j++ {
			rw.c = append(rw.c, vc[j][i])
		}
		for gi, gate := range c.Gates {
			s := vc[c.Sel[gi]][i]
			f := U(1)
			for j := c.Groups[c.Sel[gi]][0]; j < c.Groups[c.Sel[gi]][1]; j++ {
				if j != gi {
					f = fmul(f, fsub(U(uint64(j)), s))
				}
			}
			if ns > 1 {
				f = fmul(f, fsub(U(unused), s))
			}
			for j, v := range gate.constraints(rw) {
				gt[j] = fadd(gt[j], fmul(v, f))
			}
		}
		terms = append(terms, gt...)
		zi := finv(zh)
		for k := range t {
			t[k][i] = fmul(polyAt(terms, alphas[k]), zi)
		}
		x = fmul(x, gm)
	}
	var pq [][]F
	for k := range t {
		co := cosetInterp(t[k], U(7))
		for _, z := range co[c.Q*n:] {
			if !z.IsZero() && craft != "copy" && craft != "gate" {
				panic("quotient of a satisfied circuit is not a polynomial of the announced degree")
			}
		}
		if craft == "quotient" && k == c.Nch-1 {
			co[r.Intn(c.Q*n)].Add(&co[0], &glRC[0][0])
		}
		for s := 0; s < c.Q; s++ {
			pq = append(pq, co[s*n:(s+1)*n])
		}
	}
	trees[3] = commit(pq, 3)
	caps[3] = bend(trees[3].cap(), trees[3], "cap", 3)
	ch.obsCap(caps[3])
	zeta := ch.drawE()
	// ---- openings
	open := func(p [][]F, at E) (r []E) {
		for _, f := range p {
			r = append(r, evalAt(f, at))
		}
		return
	}
	zg := escale(zeta, g)
	oc := open(pc, zeta)
	pf.Constants, pf.Sigmas = oc[:nconst], oc[nconst:]
	pf.WiresO = open(pw, zeta)
	oz := open(pz, zeta)
	pf.Zs, pf.Partials = oz[:c.Nch], oz[c.Nch:]
	pf.ZsNext = open(pz[:c.Nch], zg)
	pf.Quotient = open(pq, zeta)
	switch craft {
	case "surplusQuotient":
		pf.Quotient = append(pf.Quotient, E{})
	case "surplusNext":
		pf.ZsNext = append(pf.ZsNext, E{})
	case "opening":
		// a wrong claim about a wire, with the quotient claim adjusted so that the identity still holds is beyond a
		// single change; the claim alone is wrong here
		l := [][]E{pf.Constants, pf.Sigmas, pf.WiresO, pf.Zs, pf.Partials, pf.Quotient, pf.ZsNext}[r.Intn(7)]
		if len(l) == 0 {
			l = pf.WiresO
		}
		i := r.Intn(len(l))
		l[i] = eadd(l[i], E{U(uint64(r.Intn(2))), U(1)})
	case "missingQuotient":
		if l := len(pf.Quotient); pf.Quotient[l-1] == (E{}) {
			pf.Quotient = pf.Quotient[:l-1]
		}
	}
	for _, l := range [][]E{pf.Constants, pf.Sigmas, pf.WiresO, pf.Zs, pf.Partials, pf.Quotient, pf.ZsNext} {
		ch.obsE(l...)
	}
	// ---- FRI
	alpha := ch.drawE()
	combine := func(p [][]F) []E {
		out := make([]E, n)
		a := base(U(1))
		for _, f := range p {
			for i := range f {
				out[i] = eadd(out[i], escale(a, f[i]))
			}
			a = emul(a, alpha)
		}
		return out
	}
	divide := func(f []E, z E) []E { // (f - f(z)) / (X - z)
		out := make([]E, len(f))
		var acc E
		for i := len(f) - 1; i >= 1; i-- {
			acc = eadd(emul(acc, z), f[i])
			out[i-1] = acc
		}
		return out
	}
	all := append(append(append(append([][]F{}, pc...), pw...), pz...), pq...)
	p0, p1 := divide(combine(all), zeta), divide(combine(pz[:c.Nch]), zg)
	am := base(U(1))
	for i := 0; i < c.Nch; i++ {
		am = emul(am, alpha)
	}
	co := make([]E, n)
	for i := range co {
		co[i] = eadd(emul(p0[i], am), p1[i])
	}
	shift := U(7)
	size := N
	var luckyE E // what the lie amounts to at the queried position
	luckyX := fmul(U(7), fpow(root(uint64(lde)), rev(uint64(luckyAt), uint64(lde))))
	luckyI := luckyAt
	if lucky {
		var vals, claims []E
		for _, t := range trees {
			for _, v := range t.leaves[luckyAt] {
				vals = append(vals, base(v))
			}
		}
		claims = append(claims, pf.Constants...)
		claims = append(claims, pf.Sigmas...)
		claims = append(claims, pf.WiresO...)
		claims = append(claims, pf.Zs...)
		claims = append(claims, pf.Partials...)
		claims = append(claims, pf.Quotient...)
		diff := func(v, w []E) (d E) {
			for i := len(v) - 1; i >= 0; i-- {
				d = eadd(emul(d, alpha), esub(v[i], w[i]))
			}
			return
		}
		var zv []E
		for _, v := range trees[2].leaves[luckyAt][:c.Nch] {
			zv = append(zv, base(v))
		}
		a := emul(diff(vals, claims), einv(esub(base(luckyX), zeta)))
		b := emul(diff(zv, pf.ZsNext), einv(esub(base(luckyX), zg)))
		luckyE = eadd(emul(a, am), b)
	}
	var ft []*tree
	var fe [][]E
	var lastBeta E
	_ = lastBeta
	for k := 0; k < c.K; k++ {
		if craft == "fold" && k == c.K-1 {
			co[1] = eadd(co[1], base(U(1)))
		}
		c0, c1 := make([]F, len(co)), make([]F, len(co))
		for i := range co {
			c0[i], c1[i] = co[i][0], co[i][1]
		}
		v0, v1 := cosetLde(c0, shift, size), cosetLde(c1, shift, size)
		lg := uint64(0)
		for 1<<lg < size {
			lg++
		}
		e := make([]E, size)
		for i := range e {
			j := rev(uint64(i), lg)
			e[i] = E{v0[j], v1[j]}
		}
		if lucky {
			e[luckyI] = luckyE
			if k == 0 && strings.HasSuffix(craft, "Eval") {
				at := overAt % 32
				if at/2 == luckyI%16 { // the folded value itself is tied to the leaves
					overAt += 2
					at = overAt % 32
				}
				e[luckyI-luckyI%16+at/2][at%2] = luckyVal
			}
		}
		leaves := make([][]F, size/16)
		for i := range leaves {
			for j := 0; j < 16; j++ {
				leaves[i] = append(leaves[i], e[16*i+j][0], e[16*i+j][1])
			}
			if craft == "surplusEval" && k == 0 {
				leaves[i] = append(leaves[i], F{}, F{})
			}
		}
		tr := newTree(leaves)
		if (craft == "overEval" || craft == "smallEval") && k == 0 {
			tr = newTreeOver(leaves, overAt%32, overD)
		}
		ft, fe = append(ft, tr), append(fe, e)
		cc := tr.cap()
		if k == c.K-1 {
			cc = bend(cc, tr, "commit", k)
		}
		pf.Commit = append(pf.Commit, cc)
		ch.obsCap(cc)
		beta := ch.drawE()
		if lucky {
			luckyE = foldAt(luckyX, luckyI%16, e[luckyI-luckyI%16:][:16], beta)
			luckyX, luckyI = fpow(luckyX, 16), luckyI/16
		}
		nc := make([]E, len(co)/16)
		for i := range nc {
			for j := 15; j >= 0; j-- {
				nc[i] = eadd(emul(nc[i], beta), co[16*i+j])
			}
		}
		co = nc
		for j := 0; j < 4; j++ {
			shift = fmul(shift, shift)
		}
		size /= 16
	}
	if craft == "surplusCommit" {
		var cap []fr.Element
		for i := 0; i < 16; i++ {
			cap = append(cap, rndH(r))
		}
		pf.Commit = append(pf.Commit, cap)
		ch.obsCap(cap)
		ch.drawE()
	}
	if lucky {
		var v E
		for i := len(co) - 1; i >= 0; i-- {
			v = eadd(escale(v, luckyX), co[i])
		}
		co[0] = eadd(co[0], esub(luckyE, v))
	}
	pf.Final = co
	if craft == "final" {
		i := r.Intn(len(co))
		pf.Final[i][1] = fadd(pf.Final[i][1], U(1))
	}
	if craft == "surplusFinal" {
		pf.Final = append(pf.Final, make([]E, len(co))...)
	}
	if craft == "missingFinal" && len(co) > 1 && co[len(co)-1] == (E{}) {
		pf.Final = co[:len(co)-1]
	}
	ch.obsE(pf.Final...)
	// ---- proof of work
	nq := c.Nq
	start := r.Uint64() >> uint(24+r.Intn(38))
	var idx []uint64
	for w := start; ; w++ {
		d := ch.clone()
		d.obs(U(w))
		x := val(d.draw())
		ok := c.Pow == 0 || x>>uint(64-c.Pow) == 0
		if craft == "pow" && c.Pow > 0 {
			// a response that just misses: the lowest of the bits that must be zero is set
			ok = x>>uint(64-c.Pow) == 1
		}
		if !ok {
			continue
		}
		idx = nil
		for i := 0; i < nq; i++ {
			y := val(d.draw()) & uint64(N-1)
			// positions at which a bent tree still leads to its cap
			if strings.HasPrefix(craft, "missingSibling") || craft == "missingStepSibling" {
				ok = ok && y>>uint(lde-5)&1 == 0
			}
			if strings.HasPrefix(craft, "missingCap") || craft == "missingCommitCap" {
				ok = ok && y>>uint(lde-4) != 15
			}
			ok = ok && (!lucky || int(y) == luckyAt)
			if craft == "position" && i == nq-1 {
				y ^= 1 << uint(r.Intn(lde))
			}
			idx = append(idx, y)
		}
		if ok {
			pf.PowWitness = U(w)
			break
		}
	}
	if craft == "missingQuery" {
		idx = idx[:nq-1]
	}
	if craft == "surplusQuery" {
		idx = append(idx, idx[0])
	}
	pf.Queries = []Query{}
	for _, x := range idx {
		q := Query{Evals: [][]E{}, SPaths: [][]fr.Element{}}
		for t, tr := range trees {
			q.Leaves = append(q.Leaves, tr.leaves[x])
			p := tr.path(int(x))
			if isCraft(craft, "missingSibling", t) && len(p) > 0 {
				p = p[:len(p)-1]
			}
			if isCraft(craft, "surplusSibling", t) {
				p = append(p, fr.Element{})
			}
			q.Paths = append(q.Paths, p)
			if isCraft(craft, "overLeaf", t) || isCraft(craft, "smallLeaf", t) {
				pf.Edits = append(pf.Edits, Edit{Sec: "leaf", A: len(pf.Queries), B: t, I: overAt % len(tr.leaves[x]), Op: "over", D: overD})
			}
		}
		if craft == "surplusOracle" {
			q.Leaves, q.Paths = append(q.Leaves, q.Leaves[0]), append(q.Paths, q.Paths[0])
		}
		y := x
		for k := range ft {
			y >>= 4
			e := append([]E{}, fe[k][16*y:16*y+16]...)
			if craft == "surplusEval" && k == 0 {
				e = append(e, E{})
			}
			q.Evals = append(q.Evals, e)
			p := ft[k].path(int(y))
			if k == c.K-1 && craft == "missingStepSibling" && len(p) > 0 {
				p = p[:len(p)-1]
			}
			if k == c.K-1 && craft == "surplusStepSibling" {
				p = append(p, fr.Element{})
			}
			q.SPaths = append(q.SPaths, p)
			if (craft == "overEval" || craft == "smallEval") && k == 0 {
				at := overAt % 32
				pf.Edits = append(pf.Edits, Edit{Sec: "eval", A: len(pf.Queries), B: 0, I: at / 2, C: at % 2, Op: "over", D: overD})
			}
		}
		if craft == "surplusStep" {
			e := make([]E, 16)
			var p []fr.Element
			for i := 0; i < lde-8-4*c.K; i++ {
				p = append(p, fr.Element{})
			}
			q.Evals, q.SPaths = append(q.Evals, e), append(q.SPaths, p)
		}
		pf.Queries = append(pf.Queries, q)
	}
	for i := range trees {
		pf.Caps[i] = caps[i]
	}
	if craft == "missingPublic" && c.NPub > 0 {
		pf.Pub = c.Pub[:c.NPub-1]
	}
	if craft == "surplusPublic" {
		pf.Pub = append(append([]F{}, pf.Pub...), F{})
	}
	return pf
}

// foldAt interpolates the 16 values of a coset (x: the point of position pos) at beta.
func foldAt(x F, pos int, e []E, beta E) (r E) {
	w := root(4)
	pt := func(i int) F { return fmul(x, fpow(w, (rev(uint64(i), 4)+16-rev(uint64(pos), 4))%16)) }
	for i := range e {
		t := e[i]
		for j := range e {
			if j != i {
				t = emul(t, escale(esub(beta, base(pt(j))), finv(fsub(pt(i), pt(j)))))
			}
		}
		r = eadd(r, t)
	}
	return
}

func isCraft(craft, name string, i int) bool { return craft == name+string(rune('0'+i)) }

// Crafts lists what dishonest provers do; the ones that need a folding round, proof of work or several levels of
// siblings have no effect without.
var Crafts = []string{"copy", "gate", "quotient", "opening", "fold", "final", "pow", "position",
	"surplusQuotient", "missingQuotient", "surplusNext", "surplusEval", "surplusLeaf0", "surplusLeaf1", "surplusLeaf2", "surplusLeaf3",
	"surplusCommit", "surplusFinal", "missingFinal", "missingQuery", "surplusQuery", "surplusPublic", "missingPublic",
	"surplusCap0", "surplusCap1", "surplusCap2", "surplusCap3", "missingCap0", "missingCap1", "missingCap2", "missingCap3",
	"surplusCommitCap", "missingCommitCap", "surplusSibling0", "surplusSibling1", "surplusSibling2", "surplusSibling3",
	"missingSibling0", "missingSibling1", "missingSibling2", "missingSibling3", "surplusStepSibling", "missingStepSibling",
	"surplusOracle", "surplusStep", "overLeaf0", "overLeaf1", "overLeaf2", "overLeaf3", "overEval",
	"luckyLeaf0", "luckyLeaf1", "luckyLeaf2", "luckyLeaf3", "luckyEval", "smallLeaf0", "smallLeaf1", "smallLeaf2", "smallLeaf3", "smallEval"}
