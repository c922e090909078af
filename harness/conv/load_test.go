package conv

import (
	"encoding/json"
	"fmt"
	"os"
	"testing"
	"time"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/consensys/gnark/frontend"
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
	"github.com/succinctlabs/gnark-plonky2-verifier/types"
	"github.com/succinctlabs/gnark-plonky2-verifier/variables"
	"github.com/succinctlabs/gnark-plonky2-verifier/verifier"

	"verifharness/eng"
)

var _ = json.Marshal
var _ = os.Open
var _ fr.Element
var _ gl.Variable

func TestStep(t *testing.T) {
	for _, m := range []eng.Mode{eng.Native, eng.Commit, eng.Plain} {
		d := "/repo/testdata/step/"
		cd := types.ReadCommonCircuitData(d + "common_circuit_data.json")
		pf := variables.DeserializeProofWithPublicInputs(types.ReadProofWithPublicInputs(d + "proof_with_public_inputs.json"))
		vd := variables.DeserializeVerifierOnlyCircuitData(types.ReadVerifierOnlyCircuitData(d + "verifier_only_circuit_data.json"))
		t0 := time.Now()
		err := eng.Run(eng.Opt{Mode: m}, func(api frontend.API) error {
			verifier.NewVerifierChip(api, cd).Verify(pf.Proof, pf.PublicInputs, vd)
			return nil
		})
		fmt.Println(m, err, time.Since(t0))
	}
}
