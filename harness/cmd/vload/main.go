// vload replays behaviours of spec/loading.qnt: files are written as the specification says and read by the code under test.
package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"github.com/consensys/gnark/frontend"
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
	"github.com/succinctlabs/gnark-plonky2-verifier/plonk/gates"
	"github.com/succinctlabs/gnark-plonky2-verifier/poseidon"
	"github.com/succinctlabs/gnark-plonky2-verifier/types"
	"github.com/succinctlabs/gnark-plonky2-verifier/variables"
	"verif/harness/engine"
	"verif/harness/itf"
	"verif/harness/rep"
)

type place struct {
	sec        string
	a, b, i, c int
}

func (p place) String() string { return fmt.Sprintf("%s[%d][%d][%d].%d", p.sec, p.a, p.b, p.i, p.c) }

type tok struct {
	form string
	v    *big.Int
}
type doc struct {
	kind   string
	dims   []int
	cells  map[place]tok
	order  []place
	hiding bool
	style  int
	cut    int
}
type value struct {
	at place
	v  *big.Int
}

func num(v any) int { return int(itf.I(v)) }
func getPlace(v any) place {
	m := itf.Rec(v)
	return place{itf.Str(m["sec"]), num(m["a"]), num(m["b"]), num(m["i"]), num(m["c"])}
}
func getDoc(v any) *doc {
	m := itf.Rec(v)
	d := &doc{kind: itf.Str(m["kind"]), cells: map[place]tok{}, hiding: itf.Bool(m["hiding"]), style: num(m["style"]), cut: num(m["cut"])}
	for _, x := range itf.List(m["dims"]) {
		d.dims = append(d.dims, num(x))
	}
	for _, x := range itf.List(m["cells"]) {
		c := itf.Rec(x)
		t := itf.Rec(c["tok"])
		p := getPlace(c["at"])
		d.cells[p] = tok{itf.Str(t["form"]), itf.Int(t["v"])}
		d.order = append(d.order, p)
	}
	return d
}

var names = []string{"NoopGate", "ArithmeticGate { num_ops: 20 }", "Gate \"quoted\" \\ back", "Gätter ☃", "", " lead and trail ", "a\tb\nc", "PoseidonGate(PhantomData<plonky2_field::goldilocks_field::GoldilocksField>)<WIDTH=12>"}

func nameOf(v *big.Int) string {
	n := int(v.Int64())
	return fmt.Sprintf("%s#%d", names[n%len(names)], n)
}

var hashSecs = map[string]bool{"cap": true, "ccap": true, "sib": true, "stepSib": true, "digest": true}

func q(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, r := range s {
		switch {
		case r == '"' || r == '\\':
			b.WriteRune('\\')
			b.WriteRune(r)
		case r < 0x20:
			fmt.Fprintf(&b, "\\u%04x", r)
		default:
			b.WriteRune(r)
		}
	}
	b.WriteByte('"')
	return b.String()
}

// text of a token
func (d *doc) text(p place) string {
	t := d.cells[p]
	s := t.v.String()
	switch {
	case p.sec == "gates":
		if t.form != "plain" {
			return "[" + q(nameOf(t.v)) + "]"
		}
		return q(nameOf(t.v))
	case p.sec == "useBaseArithmeticGate" || p.sec == "zeroKnowledge":
		if t.form != "plain" {
			return "[true]"
		}
		return fmt.Sprint(t.v.Sign() != 0)
	}
	if hashSecs[p.sec] {
		switch t.form {
		case "plain":
		case "minus":
			s = "-" + s
		case "plus":
			s = "+" + s
		case "hex":
			s = "0x" + t.v.Text(16)
		case "empty":
			s = ""
		case "space":
			s = " " + s
		case "spaceAfter":
			s += " "
		case "trailing":
			s += "z"
		case "fraction":
			s += ".5"
		case "exponent":
			s += "e2"
		case "underscore":
			s = s[:1] + "_" + s[1:]
		case "letters":
			s = "hash"
		case "unquoted":
			return s
		case "flag":
			return "true"
		default:
			panic(t.form)
		}
		return q(s)
	}
	switch t.form {
	case "plain":
	case "minus":
		return "-" + s
	case "fraction":
		return s + ".5"
	case "quoted":
		return q(s)
	case "flag":
		return "true"
	case "list":
		return "[" + s + "]"
	case "letters":
		return q("word")
	default:
		panic(t.form)
	}
	return s
}

type member struct {
	k, v string
}

// writer renders with the document's style: indentation, order of members, foreign members.
type writer struct {
	d *doc
	r *rand.Rand
}

func (w *writer) sp() string {
	if w.d.style&1 != 0 {
		return []string{" ", "\n", "\t", "\r\n ", ""}[w.r.Intn(5)]
	}
	return ""
}
func (w *writer) obj(m ...member) string {
	if w.d.style&2 != 0 {
		w.r.Shuffle(len(m), func(i, j int) { m[i], m[j] = m[j], m[i] })
	}
	if w.d.style&4 != 0 {
		k := w.r.Intn(len(m) + 1)
		x := member{fmt.Sprintf("foreign_%d", w.r.Intn(9)), []string{"null", "[1, {\"siblings\": [\"5\"]}]", "{\"elements\": 3}", "\"text\"", "-1.5e9"}[w.r.Intn(5)]}
		m = append(m[:k:k], append([]member{x}, m[k:]...)...)
	}
	var s []string
	for _, x := range m {
		s = append(s, w.sp()+q(x.k)+w.sp()+":"+w.sp()+x.v)
	}
	return "{" + strings.Join(s, ",") + w.sp() + "}"
}
func (w *writer) arr(l []string) string {
	return "[" + w.sp() + strings.Join(l, ","+w.sp()) + w.sp() + "]"
}
func (w *writer) line(sec string, a, b, n int) string {
	var l []string
	for i := 0; i < n; i++ {
		l = append(l, w.d.text(place{sec, a, b, i, 0}))
	}
	return w.arr(l)
}
func (w *writer) pairs(sec string, a, b, n int) string {
	var l []string
	for i := 0; i < n; i++ {
		l = append(l, w.arr([]string{w.d.text(place{sec, a, b, i, 0}), w.d.text(place{sec, a, b, i, 1})}))
	}
	return w.arr(l)
}
func (w *writer) one(sec string) string { return w.d.text(place{sec: sec}) }

func (d *doc) render() []byte {
	w := &writer{d, rand.New(rand.NewSource(int64(d.style)))}
	var s string
	n := d.dims
	switch d.kind {
	case "common":
		strategy := []string{`{"ConstantArityBits":[4,5]}`, `{"Fixed":[4,4]}`, `{"MinSize":null}`}[d.style/8%3]
		if d.style/8%3 == 2 {
			strategy = `{"ConstantArityBits":[3,7]}`
		}
		fri := func(pre string) string {
			p := func(a, b string) string {
				if pre == "" {
					return a
				}
				return b
			}
			return w.obj(member{"rate_bits", w.one(p("rateBits", "friRateBits"))}, member{"cap_height", w.one(p("capHeight", "friCapHeight"))},
				member{"proof_of_work_bits", w.one(p("powBits", "friPowBits"))}, member{"reduction_strategy", strategy},
				member{"num_query_rounds", w.one(p("queryRounds", "friQueryRounds"))})
		}
		var groups []string
		for i := 0; i < n[3]; i++ {
			groups = append(groups, w.obj(member{"start", d.text(place{"groupStart", 0, 0, i, 0})}, member{"end", d.text(place{"groupEnd", 0, 0, i, 0})}))
		}
		s = w.obj(
			member{"config", w.obj(member{"num_wires", w.one("numWires")}, member{"num_routed_wires", w.one("numRoutedWires")},
				member{"num_constants", w.one("numConstants")}, member{"use_base_arithmetic_gate", w.one("useBaseArithmeticGate")},
				member{"security_bits", w.one("securityBits")}, member{"num_challenges", w.one("numChallenges")},
				member{"zero_knowledge", w.one("zeroKnowledge")}, member{"max_quotient_degree_factor", w.one("maxQuotientDegreeFactor")},
				member{"fri_config", fri("")})},
			member{"fri_params", w.obj(member{"config", fri("fri")}, member{"hiding", fmt.Sprint(d.hiding)}, member{"degree_bits", w.one("degreeBits")},
				member{"reduction_arity_bits", w.line("arities", 0, 0, n[0])})},
			member{"gates", w.line("gates", 0, 0, n[1])},
			member{"selectors_info", w.obj(member{"selector_indices", w.line("selectorIndices", 0, 0, n[2])}, member{"groups", w.arr(groups)})},
			member{"quotient_degree_factor", w.one("quotientDegreeFactor")}, member{"num_gate_constraints", w.one("numGateConstraints")},
			member{"num_constants", w.one("allConstants")}, member{"num_public_inputs", w.one("numPublicInputs")},
			member{"k_is", w.line("kis", 0, 0, n[4])}, member{"num_partial_products", w.one("numPartialProducts")})
	case "key":
		s = w.obj(member{"constants_sigmas_cap", w.line("cap", 0, 0, n[0])}, member{"circuit_digest", w.one("digest")})
	case "proof":
		var op []member
		for a, k := range []string{"constants", "plonk_sigmas", "wires", "plonk_zs", "plonk_zs_next", "partial_products", "quotient_polys"} {
			op = append(op, member{k, w.pairs("open", a, 0, n[1+a])})
		}
		var cc, qs []string
		for a := 0; a < n[11]; a++ {
			cc = append(cc, w.line("ccap", a, 0, n[12]+a))
		}
		for k := 0; k < n[14]; k++ {
			var tr, st []string
			for b := 0; b < n[15]; b++ {
				tr = append(tr, w.arr([]string{w.line("leaf", k, b, n[16]+b), w.obj(member{"siblings", w.line("sib", k, b, n[17]+k)})}))
			}
			for b := 0; b < n[18]; b++ {
				st = append(st, w.obj(member{"evals", w.pairs("eval", k, b, n[19]+b)}, member{"merkle_proof", w.obj(member{"siblings", w.line("stepSib", k, b, n[20]+k)})}))
			}
			qs = append(qs, w.obj(member{"initial_trees_proof", w.obj(member{"evals_proofs", w.arr(tr)})}, member{"steps", w.arr(st)}))
		}
		s = w.obj(
			member{"proof", w.obj(member{"wires_cap", w.line("cap", 1, 0, n[8])}, member{"plonk_zs_partial_products_cap", w.line("cap", 2, 0, n[9])},
				member{"quotient_polys_cap", w.line("cap", 3, 0, n[10])}, member{"openings", w.obj(op...)},
				member{"opening_proof", w.obj(member{"commit_phase_merkle_caps", w.arr(cc)}, member{"query_round_proofs", w.arr(qs)},
					member{"final_poly", w.obj(member{"coeffs", w.pairs("fin", 0, 0, n[13])})}, member{"pow_witness", w.one("witness")})})},
			member{"public_inputs", w.line("pub", 0, 0, n[0])})
	}
	b := []byte(s)
	if d.cut > 0 {
		b = b[:len(b)*(d.cut-1)/1000]
	}
	return b
}

// held is a loaded file; read looks at what it now says.
type held struct {
	kind string
	cd   types.CommonCircuitData
	raw  types.ProofWithPublicInputsRaw
	pwp  variables.ProofWithPublicInputs
	key  variables.VerifierOnlyCircuitData
}

func open(kind, file string) (h *held, err error) {
	defer func() {
		if r := recover(); r != nil {
			h, err = nil, fmt.Errorf("%v", r)
		}
	}()
	h = &held{kind: kind}
	switch kind {
	case "common":
		h.cd = types.ReadCommonCircuitData(file)
	case "key":
		h.key = variables.DeserializeVerifierOnlyCircuitData(types.ReadVerifierOnlyCircuitData(file))
	default:
		h.raw = types.ReadProofWithPublicInputs(file)
		h.pwp = variables.DeserializeProofWithPublicInputs(h.raw)
	}
	return h, nil
}

// values lists what was loaded; selectors are compared as a whole
func (h *held) values() (m map[place]string) {
	m = map[place]string{}
	set := func(p place, v frontend.Variable) {
		if b, ok := v.(*big.Int); ok && b == nil {
			m[p] = "nothing"
			return
		}
		m[p] = engine.Big(v).String()
	}
	u := func(sec string, v uint64) { m[place{sec: sec}] = fmt.Sprint(v) }
	us := func(sec string, l []uint64) {
		for i, v := range l {
			m[place{sec, 0, 0, i, 0}] = fmt.Sprint(v)
		}
	}
	hs := func(sec string, a, b int, l []poseidon.BN254HashOut) {
		for i, v := range l {
			set(place{sec, a, b, i, 0}, v)
		}
	}
	g := func(sec string, a, b int, l []gl.Variable) {
		for i, v := range l {
			set(place{sec, a, b, i, 0}, v.Limb)
		}
	}
	e := func(sec string, a, b int, l []gl.QuadraticExtensionVariable) {
		for i, v := range l {
			set(place{sec, a, b, i, 0}, v[0].Limb)
			set(place{sec, a, b, i, 1}, v[1].Limb)
		}
	}
	switch h.kind {
	case "common":
		c := &h.cd
		f := func(s string, x bool) {
			if x {
				u(s, 1)
			} else {
				u(s, 0)
			}
		}
		u("numWires", c.Config.NumWires)
		u("numRoutedWires", c.Config.NumRoutedWires)
		u("numConstants", c.Config.NumConstants)
		u("securityBits", c.Config.SecurityBits)
		u("numChallenges", c.Config.NumChallenges)
		u("maxQuotientDegreeFactor", c.Config.MaxQuotientDegreeFactor)
		u("rateBits", c.Config.FriConfig.RateBits)
		u("capHeight", c.Config.FriConfig.CapHeight)
		u("powBits", c.Config.FriConfig.ProofOfWorkBits)
		u("queryRounds", c.Config.FriConfig.NumQueryRounds)
		u("friRateBits", c.FriParams.Config.RateBits)
		u("friCapHeight", c.FriParams.Config.CapHeight)
		u("friPowBits", c.FriParams.Config.ProofOfWorkBits)
		u("friQueryRounds", c.FriParams.Config.NumQueryRounds)
		u("degreeBits", c.DegreeBits)
		if c.FriParams.DegreeBits != c.DegreeBits {
			m[place{sec: "degreeBits"}] += fmt.Sprintf(" (FRI parameters: %d)", c.FriParams.DegreeBits)
		}
		u("quotientDegreeFactor", c.QuotientDegreeFactor)
		u("numGateConstraints", c.NumGateConstraints)
		u("allConstants", c.NumConstants)
		u("numPublicInputs", c.NumPublicInputs)
		u("numPartialProducts", c.NumPartialProducts)
		f("useBaseArithmeticGate", c.Config.UseBaseArithmeticGate)
		f("zeroKnowledge", c.Config.ZeroKnowledge)
		us("arities", c.FriParams.ReductionArityBits)
		us("kis", c.KIs)
		for i, s := range c.GateIds {
			m[place{"gates", 0, 0, i, 0}] = s
		}
		m[place{sec: "selectors"}] = fmt.Sprint(c.SelectorsInfo)
	case "key":
		hs("cap", 0, 0, h.key.ConstantSigmasCap)
		set(place{sec: "digest"}, h.key.CircuitDigest)
	case "proof":
		p := &h.pwp.Proof
		g("pub", 0, 0, h.pwp.PublicInputs)
		o := &p.Openings
		for a, l := range [][]gl.QuadraticExtensionVariable{o.Constants, o.PlonkSigmas, o.Wires, o.PlonkZs, o.PlonkZsNext, o.PartialProducts, o.QuotientPolys} {
			e("open", a, 0, l)
		}
		for a, l := range []variables.FriMerkleCap{p.WiresCap, p.PlonkZsPartialProductsCap, p.QuotientPolysCap} {
			hs("cap", a+1, 0, l)
		}
		op := &p.OpeningProof
		for a, l := range op.CommitPhaseMerkleCaps {
			hs("ccap", a, 0, l)
		}
		e("fin", 0, 0, op.FinalPoly.Coeffs)
		set(place{sec: "witness"}, op.PowWitness.Limb)
		for k, r := range op.QueryRoundProofs {
			for b, t := range r.InitialTreesProof.EvalsProofs {
				g("leaf", k, b, t.Elements)
				hs("sib", k, b, t.MerkleProof.Siblings)
			}
			for b, t := range r.Steps {
				e("eval", k, b, t.Evals)
				hs("stepSib", k, b, t.MerkleProof.Siblings)
			}
		}
	}
	return
}

func want(kind string, vals []value) map[place]string {
	m := map[place]string{}
	var idx, st, en []uint64
	for _, x := range vals {
		switch x.at.sec {
		case "gates":
			m[x.at] = nameOf(x.v)
			continue
		case "selectorIndices":
			idx = append(idx, x.v.Uint64())
			continue
		case "groupStart":
			st = append(st, x.v.Uint64())
			continue
		case "groupEnd":
			en = append(en, x.v.Uint64())
			continue
		}
		m[x.at] = x.v.String()
	}
	if kind == "common" {
		m[place{sec: "selectors"}] = fmt.Sprint(*gates.NewSelectorsInfo(idx, st, en))
	}
	return m
}

func diff(w, g map[place]string) string {
	for p, v := range w {
		if x, ok := g[p]; !ok {
			return fmt.Sprintf("%v is lost (should be %s)", p, v)
		} else if x != v {
			return fmt.Sprintf("%v is %q instead of %q", p, x, v)
		}
	}
	for p, v := range g {
		if _, ok := w[p]; !ok {
			return fmt.Sprintf("%v = %s is not in the file", p, v)
		}
	}
	return ""
}

func main() {
	a := rep.Parse()
	r := rep.New()
	scratch := os.Getenv("VERIF_SCRATCH")
	r.Parallel(len(a.Files), func(k int) {
		t := itf.MustRead(a.Files[k])
		r.Trace(len(t.States))
		dir := filepath.Join(scratch, fmt.Sprint(k))
		if err := os.MkdirAll(dir, 0o755); err != nil {
			r.Error("%v", err)
			return
		}
		defer os.RemoveAll(dir)
		type kept struct {
			h    *held
			w    map[place]string
			step int
		}
		var past []kept
		put := func(slot int, d *doc) {
			if err := os.WriteFile(filepath.Join(dir, fmt.Sprint(slot)), d.render(), 0o644); err != nil {
				r.Error("%v", err)
			}
		}
		for i := range t.States {
			ev := t.Event(i)
			op := itf.Str(ev["op"])
			if op == "init" {
				for s := 0; s < 3; s++ {
					put(s, getDoc(ev["doc"]))
				}
				continue
			}
			d, slot := getDoc(ev["doc"]), num(ev["slot"])
			r.Count(op, 1)
			if op != "read" {
				put(slot, d)
				continue
			}
			res := itf.Rec(ev["res"])
			verdict := itf.Str(res["verdict"])
			var vals []value
			for _, x := range itf.List(res["vals"]) {
				m := itf.Rec(x)
				vals = append(vals, value{getPlace(m["at"]), itf.Int(m["v"])})
			}
			h, err := open(d.kind, filepath.Join(dir, fmt.Sprint(slot)))
			r.Run(1)
			r.Count(d.kind+" "+verdict, 1)
			why := ""
			for _, p := range d.order {
				c := d.cells[p]
				if c.form != "plain" || verdict == "refused" && d.cut == 0 && !d.hiding && (c.v.BitLen() > 254 || !hashSecs[p.sec] && c.v.BitLen() > 64 || c.v.Cmp(engine.R) >= 0) {
					why = fmt.Sprintf("%v written as %s", p, d.text(p))
				}
			}
			if d.hiding {
				why += " (hiding)"
			}
			if d.cut > 0 {
				why += " (cut off)"
			}
			if verdict == "refused" {
				if err == nil {
					r.Violate(t.File, i, "a %s file that must be refused is loaded: %s", d.kind, why)
				}
				continue
			}
			if err != nil {
				if verdict == "loaded" {
					r.Violate(t.File, i, "a well-formed %s file is refused: %v", d.kind, err)
				}
				continue
			}
			w := want(d.kind, vals)
			if s := diff(w, h.values()); s != "" {
				r.Violate(t.File, i, "%s file: %s", d.kind, s)
			}
			past = append(past, kept{h, w, i})
		}
		for _, p := range past {
			r.Run(1)
			if s := diff(p.w, p.h.values()); s != "" {
				r.Violate(t.File, p.step, "what was loaded at step %d changed afterwards: %s", p.step, s)
			}
		}
	})
	together(r, scratch)
	for _, d := range []string{"step", "decode_block"} {
		real(r, filepath.Join("/repo/testdata", d))
	}
	if _, err := open("common", filepath.Join(scratch, "absent")); err == nil {
		r.Violate("", 0, "an absent circuit description is loaded")
	}
	if _, err := open("key", filepath.Join(scratch, "absent")); err == nil {
		r.Violate("", 0, "an absent key is loaded")
	}
	if _, err := open("proof", filepath.Join(scratch, "absent")); err == nil {
		r.Violate("", 0, "an absent proof is loaded")
	}
	r.Write(a.Out)
}

// together loads many files at once.
func together(r *rep.Report, scratch string) {
	var wg sync.WaitGroup
	for k := 0; k < 32; k++ {
		k := k
		wg.Add(1)
		go func() {
			defer wg.Done()
			d := &doc{kind: "key", dims: []int{3}, cells: map[place]tok{}, style: k}
			var vals []value
			for i := 0; i < 3; i++ {
				p := place{"cap", 0, 0, i, 0}
				v := new(big.Int).Lsh(big.NewInt(int64(k*7+i+1)), uint(3*k))
				d.cells[p], vals = tok{"plain", v}, append(vals, value{p, v})
			}
			p := place{sec: "digest"}
			d.cells[p], vals = tok{"plain", big.NewInt(int64(k))}, append(vals, value{p, big.NewInt(int64(k))})
			f := filepath.Join(scratch, fmt.Sprintf("t%d", k))
			if err := os.WriteFile(f, d.render(), 0o644); err != nil {
				r.Error("%v", err)
				return
			}
			h, err := open("key", f)
			if err != nil {
				r.Violate("", k, "a well-formed key is refused among concurrent loads: %v", err)
				return
			}
			if s := diff(want("key", vals), h.values()); s != "" {
				r.Violate("", k, "concurrent loads: %s", s)
			}
			r.Run(1)
		}()
	}
	wg.Wait()
}
