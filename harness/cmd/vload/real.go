package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"strings"

	"verif/harness/rep"
)

// real compares the bundled files with what is loaded from them. The places come from the JSON text itself.
func real(r *rep.Report, dir string) {
	parse := func(f string) (m map[string]any) {
		b, err := os.ReadFile(filepath.Join(dir, f))
		if err == nil {
			d := json.NewDecoder(strings.NewReader(string(b)))
			d.UseNumber()
			err = d.Decode(&m)
		}
		if err != nil {
			r.Error("%v", err)
		}
		return
	}
	at := func(v any, path ...string) any {
		for _, k := range path {
			v = v.(map[string]any)[k]
		}
		return v
	}
	var vals []value
	one := func(p place, v any) {
		if b, ok := v.(bool); ok {
			n := int64(0)
			if b {
				n = 1
			}
			vals = append(vals, value{p, big.NewInt(n)})
			return
		}
		x, _ := new(big.Int).SetString(fmt.Sprint(v), 10)
		vals = append(vals, value{p, x})
	}
	line := func(sec string, a, b int, v any) {
		for i, x := range v.([]any) {
			one(place{sec, a, b, i, 0}, x)
		}
	}
	pairs := func(sec string, a, b int, v any) {
		for i, x := range v.([]any) {
			one(place{sec, a, b, i, 0}, x.([]any)[0])
			one(place{sec, a, b, i, 1}, x.([]any)[1])
		}
	}
	finish := func(kind, f string, w map[place]string) {
		h, err := open(kind, filepath.Join(dir, f))
		r.Run(1)
		r.Count("bundled "+kind, 1)
		if err != nil {
			r.Violate("", 0, "the bundled %s/%s is refused: %v", filepath.Base(dir), f, err)
			return
		}
		if s := diff(w, h.values()); s != "" {
			r.Violate("", 0, "bundled %s/%s: %s", filepath.Base(dir), f, s)
		}
	}
	// key
	m := parse("verifier_only_circuit_data.json")
	line("cap", 0, 0, m["constants_sigmas_cap"])
	one(place{sec: "digest"}, m["circuit_digest"])
	finish("key", "verifier_only_circuit_data.json", want("key", vals))
	// proof
	vals = nil
	m = parse("proof_with_public_inputs.json")
	line("pub", 0, 0, m["public_inputs"])
	for a, k := range []string{"constants", "plonk_sigmas", "wires", "plonk_zs", "plonk_zs_next", "partial_products", "quotient_polys"} {
		pairs("open", a, 0, at(m, "proof", "openings", k))
	}
	for a, k := range []string{"wires_cap", "plonk_zs_partial_products_cap", "quotient_polys_cap"} {
		line("cap", a+1, 0, at(m, "proof", k))
	}
	for a, l := range at(m, "proof", "opening_proof", "commit_phase_merkle_caps").([]any) {
		line("ccap", a, 0, l)
	}
	pairs("fin", 0, 0, at(m, "proof", "opening_proof", "final_poly", "coeffs"))
	one(place{sec: "witness"}, at(m, "proof", "opening_proof", "pow_witness"))
	for k, q := range at(m, "proof", "opening_proof", "query_round_proofs").([]any) {
		for b, t := range at(q, "initial_trees_proof", "evals_proofs").([]any) {
			line("leaf", k, b, t.([]any)[0])
			line("sib", k, b, at(t.([]any)[1], "siblings"))
		}
		for b, s := range at(q, "steps").([]any) {
			pairs("eval", k, b, at(s, "evals"))
			line("stepSib", k, b, at(s, "merkle_proof", "siblings"))
		}
	}
	finish("proof", "proof_with_public_inputs.json", want("proof", vals))
	// description
	vals = nil
	m = parse("common_circuit_data.json")
	for _, x := range [][]string{{"numWires", "config", "num_wires"}, {"numRoutedWires", "config", "num_routed_wires"}, {"numConstants", "config", "num_constants"},
		{"securityBits", "config", "security_bits"}, {"numChallenges", "config", "num_challenges"}, {"maxQuotientDegreeFactor", "config", "max_quotient_degree_factor"},
		{"useBaseArithmeticGate", "config", "use_base_arithmetic_gate"}, {"zeroKnowledge", "config", "zero_knowledge"},
		{"rateBits", "config", "fri_config", "rate_bits"}, {"capHeight", "config", "fri_config", "cap_height"}, {"powBits", "config", "fri_config", "proof_of_work_bits"},
		{"queryRounds", "config", "fri_config", "num_query_rounds"}, {"friRateBits", "fri_params", "config", "rate_bits"},
		{"friCapHeight", "fri_params", "config", "cap_height"}, {"friPowBits", "fri_params", "config", "proof_of_work_bits"},
		{"friQueryRounds", "fri_params", "config", "num_query_rounds"}, {"degreeBits", "fri_params", "degree_bits"},
		{"quotientDegreeFactor", "quotient_degree_factor"}, {"numGateConstraints", "num_gate_constraints"}, {"allConstants", "num_constants"},
		{"numPublicInputs", "num_public_inputs"}, {"numPartialProducts", "num_partial_products"}} {
		one(place{sec: x[0]}, at(m, x[1:]...))
	}
	line("arities", 0, 0, at(m, "fri_params", "reduction_arity_bits"))
	line("kis", 0, 0, m["k_is"])
	line("selectorIndices", 0, 0, at(m, "selectors_info", "selector_indices"))
	for i, g := range at(m, "selectors_info", "groups").([]any) {
		one(place{"groupStart", 0, 0, i, 0}, at(g, "start"))
		one(place{"groupEnd", 0, 0, i, 0}, at(g, "end"))
	}
	w := want("common", vals)
	for i, g := range m["gates"].([]any) {
		w[place{"gates", 0, 0, i, 0}] = g.(string)
	}
	finish("common", "common_circuit_data.json", w)
}
