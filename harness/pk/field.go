// Package pk is a small Plonky2 prover, written from the protocol and independent of the repository under test. It makes
// real proofs for random circuits so that the verifier and the specification can be confronted with complete proofs.
package pk

import (
	"math/big"
	"math/bits"
	"os"
	"regexp"
	"strings"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/consensys/gnark-crypto/field/goldilocks"
)

type F = goldilocks.Element

// E is an element of GF(P)[X]/(X^2-7).
type E [2]F

var P = goldilocks.Modulus()

var glP, _ = new(big.Int).SetString("18446744069414584321", 10)

func U(x uint64) (r F)  { r.SetUint64(x); return }
func val(a F) uint64    { return a.Uint64() }
func fadd(a, b F) (r F) { r.Add(&a, &b); return }
func fsub(a, b F) (r F) { r.Sub(&a, &b); return }
func fmul(a, b F) (r F) { r.Mul(&a, &b); return }
func finv(a F) (r F)    { r.Inverse(&a); return }
func fpow(a F, e uint64) (r F) {
	r.SetOne()
	for i := 63; i >= 0; i-- {
		r.Mul(&r, &r)
		if e>>uint(i)&1 == 1 {
			r.Mul(&r, &a)
		}
	}
	return
}
func base(a F) E        { return E{a, F{}} }
func eadd(a, b E) E     { return E{fadd(a[0], b[0]), fadd(a[1], b[1])} }
func esub(a, b E) E     { return E{fsub(a[0], b[0]), fsub(a[1], b[1])} }
func escale(a E, k F) E { return E{fmul(a[0], k), fmul(a[1], k)} }
func emul(a, b E) E {
	return E{fadd(fmul(a[0], b[0]), fmul(U(7), fmul(a[1], b[1]))), fadd(fmul(a[0], b[1]), fmul(a[1], b[0]))}
}
func einv(a E) E {
	n := finv(fsub(fmul(a[0], a[0]), fmul(U(7), fmul(a[1], a[1]))))
	return E{fmul(a[0], n), fsub(F{}, fmul(a[1], n))}
}

// the 2-adic generator: 7^((P-1)/2^32)
func root(bits uint64) F {
	g := fpow(U(7), 4294967295)
	for i := bits; i < 32; i++ {
		g = fmul(g, g)
	}
	return g
}

func rev(x uint64, n uint64) uint64 {
	if n == 0 {
		return 0
	}
	return bits.Reverse64(x) >> (64 - n)
}

// ntt evaluates coefficients on the subgroup of order len(a) (a power of two), natural order.
func ntt(a []F) []F {
	n := len(a)
	lg := uint64(bits.TrailingZeros(uint(n)))
	r := make([]F, n)
	for i := range a {
		r[rev(uint64(i), lg)] = a[i]
	}
	for s := uint64(1); s <= lg; s++ {
		m := 1 << s
		w := root(s)
		for k := 0; k < n; k += m {
			x := U(1)
			for j := 0; j < m/2; j++ {
				t := fmul(x, r[k+j+m/2])
				u := r[k+j]
				r[k+j] = fadd(u, t)
				r[k+j+m/2] = fsub(u, t)
				x = fmul(x, w)
			}
		}
	}
	return r
}

func intt(a []F) []F {
	r := ntt(a)
	n := len(a)
	ni := finv(U(uint64(n)))
	out := make([]F, n)
	for i := range r {
		out[(n-i)%n] = fmul(r[i], ni)
	}
	return out
}

// cosetLde evaluates coefficients on shift*<g> of the given size, natural order.
func cosetLde(c []F, shift F, size int) []F {
	a := make([]F, size)
	x := U(1)
	for i := range c {
		a[i] = fmul(c[i], x)
		x = fmul(x, shift)
	}
	return ntt(a)
}

func cosetInterp(v []F, shift F) []F {
	c := intt(v)
	si := finv(shift)
	x := U(1)
	for i := range c {
		c[i] = fmul(c[i], x)
		x = fmul(x, si)
	}
	return c
}

func evalAt(c []F, x E) (r E) {
	for i := len(c) - 1; i >= 0; i-- {
		r = eadd(emul(r, x), base(c[i]))
	}
	return
}

// ---- Poseidon, with the constants of the specification

var glRC [][]F
var glMDS [][]F
var bnRC, bnMDS [][]fr.Element

// LoadConstants reads spec/constants.qnt.
func LoadConstants(file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	get := func(name string) [][]string {
		i := strings.Index(string(b), "pure val "+name+":")
		s := string(b)[i:]
		s = s[strings.Index(s, "=")+1:]
		if j := strings.Index(s, "pure val"); j > 0 {
			s = s[:j]
		}
		var rows [][]string
		for _, m := range regexp.MustCompile(`\[([0-9, \n]+)\]`).FindAllStringSubmatch(s, -1) {
			rows = append(rows, regexp.MustCompile(`[0-9]+`).FindAllString(m[1], -1))
		}
		return rows
	}
	gl := func(name string) (r [][]F) {
		for _, row := range get(name) {
			var l []F
			for _, x := range row {
				v, _ := new(big.Int).SetString(x, 10)
				l = append(l, U(v.Uint64()))
			}
			r = append(r, l)
		}
		return
	}
	bn := func(name string) (r [][]fr.Element) {
		for _, row := range get(name) {
			var l []fr.Element
			for _, x := range row {
				var v fr.Element
				v.SetString(x)
				l = append(l, v)
			}
			r = append(r, l)
		}
		return
	}
	glRC, glMDS, bnRC, bnMDS = gl("GL_RC"), gl("GL_MDS"), bn("BN_RC"), bn("BN_MDS")
	if len(glRC) != 30 || len(glMDS) != 12 || len(bnRC) != 64 || len(bnMDS) != 4 {
		panic("constants.qnt could not be read")
	}
}

func sbox7(x F) F { x2 := fmul(x, x); x3 := fmul(x2, x); return fmul(fmul(x3, x3), x) }
func mds(s [12]F) (r [12]F) {
	for k := range r {
		for j := range s {
			r[k] = fadd(r[k], fmul(glMDS[k][j], s[j]))
		}
	}
	return
}
func glRound(s [12]F, r int) [12]F {
	for i := range s {
		s[i] = fadd(s[i], glRC[r][i])
		if i == 0 || r < 4 || r >= 26 {
			s[i] = sbox7(s[i])
		}
	}
	return mds(s)
}
func glPerm(s [12]F) [12]F {
	for r := 0; r < 30; r++ {
		s = glRound(s, r)
	}
	return s
}
func glHash(in []F) [4]F {
	var s [12]F
	for k := 0; k < len(in); k += 8 {
		for i := 0; i < 8 && k+i < len(in); i++ {
			s[i] = in[k+i]
		}
		s = glPerm(s)
	}
	return [4]F{s[0], s[1], s[2], s[3]}
}

func bnPerm(s [4]fr.Element) [4]fr.Element {
	for r := 0; r < 64; r++ {
		for i := range s {
			s[i].Add(&s[i], &bnRC[r][i])
			if i == 0 || r < 4 || r >= 60 {
				var t fr.Element
				t.Square(&s[i])
				t.Square(&t)
				s[i].Mul(&s[i], &t)
			}
		}
		var n [4]fr.Element
		for k := range n {
			for j := range s {
				var t fr.Element
				t.Mul(&bnMDS[k][j], &s[j])
				n[k].Add(&n[k], &t)
			}
		}
		s = n
	}
	return s
}
func bnPack(x []F) (r fr.Element) {
	b := new(big.Int)
	for i := len(x) - 1; i >= 0; i-- {
		b.Lsh(b, 64)
		b.Or(b, new(big.Int).SetUint64(val(x[i])))
	}
	r.SetBigInt(b)
	return
}
func bnHash(x []F) fr.Element { return bnHashOver(x, 0, nil) }

// bnHashOver hashes with element at written as itself plus d times the Goldilocks modulus.
func bnHashOver(x []F, at int, d *big.Int) fr.Element {
	pack := func(lo, hi int) fr.Element {
		r := bnPack(x[lo:hi])
		if d != nil && lo <= at && at < hi {
			var e fr.Element
			m := new(big.Int).Mul(d, glP)
			e.SetBigInt(m.Lsh(m, uint(64*(at-lo))))
			r.Add(&r, &e)
		}
		return r
	}
	if len(x) <= 3 {
		return pack(0, len(x))
	}
	var s [4]fr.Element
	for k := 0; k < len(x); k += 9 {
		for j := 0; j < 3 && k+3*j < len(x); j++ {
			e := k + 3*j + 3
			if e > len(x) {
				e = len(x)
			}
			s[1+j] = pack(k+3*j, e)
		}
		s = bnPerm(s)
	}
	return s[0]
}
func bnTwo(l, r fr.Element) fr.Element {
	return bnPerm([4]fr.Element{{}, {}, l, r})[0]
}

// ---- duplex challenger

type chal struct {
	s       [12]F
	in, out []F
}

func (c *chal) duplex() {
	copy(c.s[:], c.in)
	c.s = glPerm(c.s)
	c.in = nil
	c.out = append([]F{}, c.s[:8]...)
}
func (c *chal) obs(x ...F) {
	for _, v := range x {
		c.out = nil
		c.in = append(c.in, v)
		if len(c.in) == 8 {
			c.duplex()
		}
	}
}
func (c *chal) obsBn(h fr.Element) {
	b := h.BigInt(new(big.Int))
	m := new(big.Int).SetUint64(1<<56 - 1)
	for i := 0; i < 5; i++ {
		c.obs(U(new(big.Int).And(b, m).Uint64()))
		b.Rsh(b, 56)
	}
}
func (c *chal) obsCap(cap []fr.Element) {
	for _, h := range cap {
		c.obsBn(h)
	}
}
func (c *chal) obsE(x ...E) {
	for _, e := range x {
		c.obs(e[0], e[1])
	}
}
func (c *chal) draw() F {
	if len(c.in) > 0 || len(c.out) == 0 {
		c.duplex()
	}
	x := c.out[len(c.out)-1]
	c.out = c.out[:len(c.out)-1]
	return x
}
func (c *chal) drawN(n int) (r []F) {
	for i := 0; i < n; i++ {
		r = append(r, c.draw())
	}
	return
}
func (c *chal) drawE() E { x := c.draw(); return E{x, c.draw()} }
func (c *chal) clone() *chal {
	return &chal{s: c.s, in: append([]F{}, c.in...), out: append([]F{}, c.out...)}
}

// ---- Merkle trees with a cap of 16 entries

type tree struct {
	leaves [][]F
	layers [][]fr.Element
}

func newTree(leaves [][]F) *tree { return newTreeOver(leaves, 0, nil) }
func newTreeOver(leaves [][]F, at int, d *big.Int) *tree {
	t := &tree{leaves: leaves}
	l := make([]fr.Element, len(leaves))
	for i := range leaves {
		l[i] = bnHashOver(leaves[i], at, d)
	}
	t.layers = append(t.layers, l)
	for len(l) > 16 {
		n := make([]fr.Element, len(l)/2)
		for i := range n {
			n[i] = bnTwo(l[2*i], l[2*i+1])
		}
		t.layers = append(t.layers, n)
		l = n
	}
	return t
}
func (t *tree) cap() []fr.Element { return t.layers[len(t.layers)-1] }
func (t *tree) path(i int) (r []fr.Element) {
	r = []fr.Element{}
	for _, l := range t.layers[:len(t.layers)-1] {
		r = append(r, l[i^1])
		i >>= 1
	}
	return
}
