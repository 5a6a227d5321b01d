package pk

import (
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"strings"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"verif/harness/gid"
)

type obj = map[string]any

func us(l []F) []uint64 {
	r := []uint64{}
	for _, x := range l {
		r = append(r, val(x))
	}
	return r
}
func es(l []E) [][]uint64 {
	r := [][]uint64{}
	for _, x := range l {
		r = append(r, []uint64{val(x[0]), val(x[1])})
	}
	return r
}
func hs(l []fr.Element) []string {
	r := []string{}
	for i := range l {
		r = append(r, l[i].BigInt(new(big.Int)).String())
	}
	return r
}

// CommonJSON is the circuit description in Plonky2's JSON format.
func (c *Circuit) CommonJSON() obj {
	fri := obj{"rate_bits": c.Rate, "cap_height": 4, "proof_of_work_bits": c.Pow,
		"reduction_strategy": obj{"ConstantArityBits": []int{4, 5}}, "num_query_rounds": c.Nq}
	ar := []int{}
	for i := 0; i < c.K; i++ {
		ar = append(ar, 4)
	}
	ids := []string{}
	for _, g := range c.Gates {
		ids = append(ids, gid.ID(g.Kind, g.Par, bigs(g.Ws)))
	}
	groups := []obj{}
	for _, g := range c.Groups {
		groups = append(groups, obj{"start": g[0], "end": g[1]})
	}
	maxQ, security, consts := c.MaxQ, c.Security, c.CfgConsts
	if maxQ == 0 {
		maxQ, security, consts = c.Q, 100, c.NCst
	}
	return obj{
		"config": obj{"num_wires": c.Wires, "num_routed_wires": c.Routed, "num_constants": consts, "use_base_arithmetic_gate": !c.NoBase,
			"security_bits": security, "num_challenges": c.Nch, "zero_knowledge": false, "max_quotient_degree_factor": maxQ, "fri_config": fri},
		"fri_params":             obj{"config": fri, "hiding": false, "degree_bits": c.DegBits, "reduction_arity_bits": ar},
		"gates":                  ids,
		"selectors_info":         obj{"selector_indices": c.Sel, "groups": groups},
		"quotient_degree_factor": c.Q, "num_gate_constraints": c.NGC, "num_constants": c.NCst + len(c.Groups),
		"num_public_inputs": c.NPub, "k_is": us(c.KIs), "num_partial_products": c.Npp,
	}
}

func (c *Circuit) KeyJSON(p *Proof) obj {
	return obj{"constants_sigmas_cap": hs(p.Caps[0]), "circuit_digest": c.Digest.BigInt(new(big.Int)).String()}
}

func (p *Proof) JSON() obj {
	qs := []obj{}
	for _, q := range p.Queries {
		ep := []any{}
		for i := range q.Leaves {
			ep = append(ep, []any{us(q.Leaves[i]), obj{"siblings": hs(q.Paths[i])}})
		}
		st := []obj{}
		for i := range q.Evals {
			st = append(st, obj{"evals": es(q.Evals[i]), "merkle_proof": obj{"siblings": hs(q.SPaths[i])}})
		}
		qs = append(qs, obj{"initial_trees_proof": obj{"evals_proofs": ep}, "steps": st})
	}
	cc := [][]string{}
	for _, c := range p.Commit {
		cc = append(cc, hs(c))
	}
	return obj{
		"proof": obj{
			"wires_cap": hs(p.Caps[1]), "plonk_zs_partial_products_cap": hs(p.Caps[2]), "quotient_polys_cap": hs(p.Caps[3]),
			"openings": obj{"constants": es(p.Constants), "plonk_sigmas": es(p.Sigmas), "wires": es(p.WiresO), "plonk_zs": es(p.Zs),
				"plonk_zs_next": es(p.ZsNext), "partial_products": es(p.Partials), "quotient_polys": es(p.Quotient)},
			"opening_proof": obj{"commit_phase_merkle_caps": cc, "query_round_proofs": qs, "final_poly": obj{"coeffs": es(p.Final)}, "pow_witness": val(p.PowWitness)},
		},
		"public_inputs": us(p.Pub),
	}
}

func writeJSON(file string, v any) {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(file, b, 0o644); err != nil {
		panic(err)
	}
}

// Write puts the three files of a proof into a directory.
func (c *Circuit) Write(dir string, p *Proof) {
	if err := os.MkdirAll(dir, 0o755); err != nil {
		panic(err)
	}
	writeJSON(filepath.Join(dir, "common_circuit_data.json"), c.CommonJSON())
	writeJSON(filepath.Join(dir, "verifier_only_circuit_data.json"), c.KeyJSON(p))
	writeJSON(filepath.Join(dir, "proof_with_public_inputs.json"), p.JSON())
}

func qlist[T any](l []T, f func(T) string) string {
	s := make([]string, len(l))
	for i := range l {
		s[i] = f(l[i])
	}
	return "[" + strings.Join(s, ", ") + "]"
}
func qU(x uint64) string     { return fmt.Sprint(x) }
func qI(x int) string        { return fmt.Sprint(x) }
func qF(x F) string          { return fmt.Sprint(val(x)) }
func qFs(l []F) string       { return qlist(l, qF) }
func qH(x fr.Element) string { return x.BigInt(new(big.Int)).String() }
func qHs(l []fr.Element) string {
	return qlist(l, qH)
}
func qE(x E) string    { return fmt.Sprintf("(%d, %d)", val(x[0]), val(x[1])) }
func qEs(l []E) string { return qlist(l, qE) }

// Quint writes the circuit and the proof as a value of the specification's types.
func (c *Circuit) Quint(p *Proof, id int) string {
	gates := qlist(c.Gates, func(g Gate) string {
		return fmt.Sprintf("{ kind: %q, p: %s, ws: %s }", g.Kind, qlist(g.Par, qI), qFs(g.Ws))
	})
	groups := qlist(c.Groups, func(g [2]int) string { return fmt.Sprintf("(%d, %d)", g[0], g[1]) })
	qs := qlist(p.Queries, func(q Query) string {
		st := make([]string, len(q.Evals))
		for i := range st {
			st[i] = fmt.Sprintf("{ evals: %s, sib: %s }", qEs(q.Evals[i]), qHs(q.SPaths[i]))
		}
		return fmt.Sprintf("{ leaves: %s, sib: %s, steps: [%s] }", qlist(q.Leaves, qFs), qlist(q.Paths, qHs), strings.Join(st, ", "))
	})
	return fmt.Sprintf(`{
    craft: %q,
    cd: { gs: %s, sel: %s, groups: %s, ngc: %d, q: %d, nch: %d, npp: %d, routed: %d, degreeBits: %d, kis: %s },
    wires: %d, ncst: %d, npub: %d, rate: %d, pow: %d, k: %d, nq: %d,
    digest: %s, pub: %s,
    open: { constants: %s, sigmas: %s, wires: %s, zs: %s, zsNext: %s, partials: %s, quotient: %s },
    pf: { caps: %s, ccaps: %s, queries: %s, fin: %s },
    witness: %s, id: %d, edits: %s }`, p.Craft, gates, qlist(c.Sel, qI), groups, c.NGC, c.Q, c.Nch, c.Npp, c.Routed, c.DegBits, qFs(c.KIs),
		c.Wires, c.NCst+len(c.Groups), c.NPub, c.Rate, c.Pow, c.K, c.Nq, qH(c.Digest), qFs(p.Pub),
		qEs(p.Constants), qEs(p.Sigmas), qEs(p.WiresO), qEs(p.Zs), qEs(p.ZsNext), qEs(p.Partials), qEs(p.Quotient),
		qlist(p.Caps[:], qHs), qlist(p.Commit, qHs), qs, qEs(p.Final), qF(p.PowWitness), id, qlist(p.Edits, Edit.quint))
}

func (e Edit) quint() string {
	return fmt.Sprintf("{ sec: %q, a: %d, b: %d, i: %d, j: %d, c: %d, op: %q, d: %s }", e.Sec, e.A, e.B, e.I, e.J, e.C, e.Op, e.D)
}
