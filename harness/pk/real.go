package pk

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
)

// Load reads a proof written by Plonky2 and keeps its first nq query rounds (nothing else in the proof depends on
// the number of rounds).
func Load(dir string, nq int) (*Circuit, *Proof) {
	var cj struct {
		Config struct {
			NumWires   int `json:"num_wires"`
			Routed     int `json:"num_routed_wires"`
			Challenges int `json:"num_challenges"`
		} `json:"config"`
		Fri struct {
			Config struct {
				Rate int `json:"rate_bits"`
				Pow  int `json:"proof_of_work_bits"`
			} `json:"config"`
			DegBits int   `json:"degree_bits"`
			Arities []int `json:"reduction_arity_bits"`
		} `json:"fri_params"`
		Gates []string `json:"gates"`
		Sel   struct {
			Idx    []int `json:"selector_indices"`
			Groups []struct {
				Start int `json:"start"`
				End   int `json:"end"`
			} `json:"groups"`
		} `json:"selectors_info"`
		Q    int      `json:"quotient_degree_factor"`
		NGC  int      `json:"num_gate_constraints"`
		NCst int      `json:"num_constants"`
		NPub int      `json:"num_public_inputs"`
		KIs  []uint64 `json:"k_is"`
		Npp  int      `json:"num_partial_products"`
	}
	read(dir, "common_circuit_data.json", &cj)
	c := &Circuit{Sel: cj.Sel.Idx, Q: cj.Q, Npp: cj.Npp, Routed: cj.Config.Routed, Wires: cj.Config.NumWires, Nch: cj.Config.Challenges,
		Rate: cj.Fri.Config.Rate, Pow: cj.Fri.Config.Pow, K: len(cj.Fri.Arities), Nq: nq, DegBits: cj.Fri.DegBits, NPub: cj.NPub,
		NCst: cj.NCst - len(cj.Sel.Groups), NGC: cj.NGC, KIs: fs(cj.KIs)}
	for _, g := range cj.Sel.Groups {
		c.Groups = append(c.Groups, [2]int{g.Start, g.End})
	}
	for _, id := range cj.Gates {
		c.Gates = append(c.Gates, gateOf(id))
	}
	var kj struct {
		Cap    []string `json:"constants_sigmas_cap"`
		Digest string   `json:"circuit_digest"`
	}
	read(dir, "verifier_only_circuit_data.json", &kj)
	c.Digest = fh([]string{kj.Digest})[0]
	type merkle struct {
		Siblings []string `json:"siblings"`
	}
	var pj struct {
		Proof struct {
			W, Z, Q  []string
			Openings map[string][][2]uint64 `json:"openings"`
			Opening  struct {
				Commit  [][]string `json:"commit_phase_merkle_caps"`
				Queries []struct {
					Init struct {
						Evals [][2]json.RawMessage `json:"evals_proofs"`
					} `json:"initial_trees_proof"`
					Steps []struct {
						Evals [][2]uint64 `json:"evals"`
						Path  merkle      `json:"merkle_proof"`
					} `json:"steps"`
				} `json:"query_round_proofs"`
				Final struct {
					Coeffs [][2]uint64 `json:"coeffs"`
				} `json:"final_poly"`
				Pow uint64 `json:"pow_witness"`
			} `json:"opening_proof"`
			Wires    []string `json:"wires_cap"`
			Zs       []string `json:"plonk_zs_partial_products_cap"`
			Quotient []string `json:"quotient_polys_cap"`
		} `json:"proof"`
		Pub []uint64 `json:"public_inputs"`
	}
	read(dir, "proof_with_public_inputs.json", &pj)
	o := func(k string) []E { return fe(pj.Proof.Openings[k]) }
	p := &Proof{Caps: [4][]fr.Element{fh(kj.Cap), fh(pj.Proof.Wires), fh(pj.Proof.Zs), fh(pj.Proof.Quotient)},
		Constants: o("constants"), Sigmas: o("plonk_sigmas"), WiresO: o("wires"), Zs: o("plonk_zs"), ZsNext: o("plonk_zs_next"),
		Partials: o("partial_products"), Quotient: o("quotient_polys"), Final: fe(pj.Proof.Opening.Final.Coeffs),
		PowWitness: U(pj.Proof.Opening.Pow), Pub: fs(pj.Pub), Queries: []Query{}}
	c.Pub = p.Pub
	for _, m := range pj.Proof.Opening.Commit {
		p.Commit = append(p.Commit, fh(m))
	}
	for _, q := range pj.Proof.Opening.Queries[:nq] {
		x := Query{}
		for _, e := range q.Init.Evals {
			var l []uint64
			var m merkle
			must(json.Unmarshal(e[0], &l))
			must(json.Unmarshal(e[1], &m))
			x.Leaves, x.Paths = append(x.Leaves, fs(l)), append(x.Paths, fh(m.Siblings))
		}
		for _, s := range q.Steps {
			x.Evals, x.SPaths = append(x.Evals, fe(s.Evals)), append(x.SPaths, fh(s.Path.Siblings))
		}
		p.Queries = append(p.Queries, x)
	}
	return c, p
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}
func read(dir, name string, v any) {
	b, err := os.ReadFile(filepath.Join(dir, name))
	must(err)
	must(json.Unmarshal(b, v))
}
func fs(l []uint64) (r []F) {
	r = []F{}
	for _, x := range l {
		r = append(r, U(x))
	}
	return
}
func fe(l [][2]uint64) (r []E) {
	for _, x := range l {
		r = append(r, E{U(x[0]), U(x[1])})
	}
	return
}
func fh(l []string) (r []fr.Element) {
	for _, x := range l {
		var e fr.Element
		_, err := e.SetString(x)
		must(err)
		r = append(r, e)
	}
	return
}

var gateNames = map[string]string{"NoopGate": "noop", "PublicInputGate": "publicInput", "ConstantGate": "constant", "ArithmeticGate": "arithmetic",
	"ArithmeticExtensionGate": "arithmeticExt", "MulExtensionGate": "mulExt", "BaseSumGate": "baseSum", "ExponentiationGate": "exponentiation",
	"RandomAccessGate": "randomAccess", "ReducingGate": "reducing", "ReducingExtensionGate": "reducingExt", "CosetInterpolationGate": "coset",
	"PoseidonGate": "poseidon", "PoseidonMdsGate": "poseidonMds"}
var number = regexp.MustCompile(`: (\d+)`)

func gateOf(id string) Gate {
	name := id[:strings.IndexAny(id+" ", " (")]
	g := Gate{Kind: gateNames[name]}
	if g.Kind == "" {
		panic("gate " + id)
	}
	for _, m := range number.FindAllStringSubmatch(id, -1) {
		n, err := strconv.Atoi(m[1])
		must(err)
		g.Par = append(g.Par, n)
	}
	if i := strings.Index(id, "["); i >= 0 {
		for _, x := range strings.Split(id[i+1:strings.Index(id, "]")], ", ") {
			var n uint64
			_, err := fmt.Sscan(x, &n)
			must(err)
			g.Ws = append(g.Ws, U(n))
		}
	}
	return g
}
