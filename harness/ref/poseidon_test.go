package ref

import (
	"testing"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
)

func TestVectors(t *testing.T) {
	var z [12]uint64
	o := PoseidonGL(z)
	if o[0] != 4330397376401421145 {
		t.Fatal(o)
	}
	s := PoseidonBN([4]fr.Element{})
	t.Log(s[0].String(), s[1].String())
	if s[0].String() != "5317387130258456662214331362918410991734007599705406860481038345552731150762" {
		t.Fatal()
	}
}
