package main

import (
	"fmt"
	"time"

	"github.com/consensys/gnark/frontend"
	"github.com/succinctlabs/gnark-plonky2-verifier/types"
	"github.com/succinctlabs/gnark-plonky2-verifier/variables"
	"github.com/succinctlabs/gnark-plonky2-verifier/verifier"
	"verif/harness/engine"
)

func main() {
	for _, k := range []int{1, 2, 28} {
		for _, m := range []engine.Mode{engine.Native, engine.Commit, engine.BitDecomp} {
			cd := types.ReadCommonCircuitData("/repo/testdata/step/common_circuit_data.json")
			vd := variables.DeserializeVerifierOnlyCircuitData(types.ReadVerifierOnlyCircuitData("/repo/testdata/step/verifier_only_circuit_data.json"))
			pr := variables.DeserializeProofWithPublicInputs(types.ReadProofWithPublicInputs("/repo/testdata/step/proof_with_public_inputs.json"))
			cd.Config.FriConfig.NumQueryRounds = uint64(k)
			cd.FriParams.Config.NumQueryRounds = uint64(k)
			pr.Proof.OpeningProof.QueryRoundProofs = pr.Proof.OpeningProof.QueryRoundProofs[:k]
			t := time.Now()
			e := engine.New(m)
			o := e.Run(func(api frontend.API) {
				verifier.NewVerifierChip(api, cd).Verify(pr.Proof, pr.PublicInputs, vd)
			})
			fmt.Println(k, m, o, time.Since(t), len(e.Checks))
		}
	}
}
