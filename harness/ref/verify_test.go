package ref

import "testing"

func TestVerifySamples(t *testing.T) {
	for _, d := range []string{"step", "decode_block"} {
		c, vd, p, pi := Load("/repo/testdata/" + d)
		if err := Verify(c, vd, p, pi); err != nil {
			t.Fatal(d, err)
		}
		if err := CheckFriShape(c, &p.Fri); err != nil {
			t.Fatal(d, err)
		}
		p.Openings.Wires[3][0]++
		if Verify(c, vd, p, pi) == nil {
			t.Fatal("accepted")
		}
	}
}
