package checks

import (
	"bytes"
	"errors"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"testing"

	"github.com/consensys/gnark-crypto/ecc"
	kzg_bn254 "github.com/consensys/gnark-crypto/ecc/bn254/kzg"
	"github.com/consensys/gnark/backend/groth16"
	groth16_bn254 "github.com/consensys/gnark/backend/groth16/bn254"
	"github.com/consensys/gnark/backend/plonk"
	plonk_bn254 "github.com/consensys/gnark/backend/plonk/bn254"
	"github.com/consensys/gnark/backend/witness"
	"github.com/consensys/gnark/frontend"
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
	"pgregory.net/rapid"

	"verifharness/conv"
	"verifharness/prove"
	"verifharness/ref"
)

var programFaults = []string{"none", "none", "none", "none", "none", "public input", "public input", "tampered", "tampered", "shape", "system", "missing", "syntax", "srs", "no srs room"}

func TestC23_program(t *testing.T) {
	Section(t, "the command-line program, run in a scratch directory on files of random circuits with drawn options (proof system, setup, saving, profiling, default circuit or a named one beside others); expensive backend parts replaced by the stand-ins of harness/stub; valid input: succeeds, saved keys, witness and proof fit together and to the public inputs, the printed coordinates are the proof's; invalid proofs, missing or malformed files, unknown proof systems and unusable setups: fails without leaving a proof; non-trivial: all", 36, 600, bodyC23)
}

func writeCircuit(dir, name string, c *ref.Common, r *prove.Result) {
	d := filepath.Join(dir, "testdata", name)
	must(os.MkdirAll(d, 0o755))
	put(d, "proof_with_public_inputs.json", ref.ProofJSON(r.Proof, r.PIs))
	put(d, "verifier_only_circuit_data.json", ref.VDJSON(r.VD))
	put(d, "common_circuit_data.json", ref.CommonJSON(c))
}

func smallConfig(t *T) *prove.Config {
	cfg := drawConfig(t, false)
	if len(cfg.Gates) > 3 {
		cfg.Gates = cfg.Gates[:3]
	}
	cfg.Queries, cfg.NumCh = 1, pick(t, []int{1, 1, 2}, "challenges")
	cfg.PowBits = pick(t, []int{0, 16}, "pow") // widths must be multiples of 16 in the commitment mechanism
	return cfg
}

// publics is a circuit's public half.
type publics struct {
	X []gl.Variable `gnark:",public"`
}

func (*publics) Define(frontend.API) error { return nil }

var coordinates = regexp.MustCompile(`([abc])\[(\d)\](?:\[(\d)\])? is +(\d+)`)

func bodyC23(t *T, h *H) {
	bin := os.Getenv("VERIF_PROGRAM")
	if bin == "" {
		panic("HARNESS: VERIF_PROGRAM is not set")
	}
	dir, rm := scratch()
	defer rm()
	cfg := smallConfig(t)
	if cfg.NumPI == 0 && rapid.IntRange(0, 2).Draw(t, "some") > 0 {
		cfg.NumPI = 2
	}
	ct, r := buildProof(t, cfg, prove.Cheat{})
	fault := pick(t, programFaults, "fault")
	system := pick(t, []string{"groth16", "groth16", "plonk"}, "system")
	dummy, save := rapid.Bool().Draw(t, "dummy"), rapid.IntRange(0, 3).Draw(t, "save") > 0
	name := pick(t, []string{"step", "mine", "mine", "a b", "deep/er"}, "name")
	if fault == "srs" || fault == "no srs room" {
		system, dummy = "plonk", false
	}
	x := &prove.Result{VD: r.VD.Clone(), Proof: r.Proof.Clone(), PIs: append([]uint64{}, r.PIs...)}
	valid := true
	switch fault {
	case "public input":
		if len(x.PIs) > 0 {
			i := intn(t, len(x.PIs), "which")
			x.PIs[i] = ref.Add(x.PIs[i], 1+seed(t)%(ref.P-1))
			valid = false
		} else {
			fault = "none"
		}
	case "tampered":
		fault += ": " + tamper(t, ref.NewRng(seed(t)), ct.C, x.VD, x.Proof, &x.PIs)
		valid = ref.Verify(ct.C, x.VD, x.Proof, x.PIs) == nil
	case "shape":
		o := x.Proof.Openings
		o.Wires = o.Wires[:len(o.Wires)-1]
		x.Proof.Openings = o
		valid = false
	case "none":
	default:
		valid = false
	}
	// another circuit lies beside it
	if rapid.Bool().Draw(t, "other") {
		c2 := *cfg
		c2.Seed ^= 0x5555555555555555
		ct2, r2 := buildProof(t, &c2, prove.Cheat{})
		other := "step"
		if name == "step" {
			other = "mine"
		}
		writeCircuit(dir, other, ct2.C, r2)
	}
	writeCircuit(dir, name, ct.C, x)
	f := pick(t, []string{"proof_with_public_inputs.json", "verifier_only_circuit_data.json", "common_circuit_data.json"}, "file")
	f = filepath.Join(dir, "testdata", name, f)
	switch fault {
	case "missing":
		must(os.Remove(f))
	case "syntax":
		b, err := os.ReadFile(f)
		must(err)
		must(os.WriteFile(f, b[:intn(t, len(b)-1, "cut")], 0o644))
	case "system":
		system = pick(t, []string{"Plonk", "groth", "", "groth16 ", "plonkfri"}, "unknown")
	}
	if system == "plonk" && !dummy {
		size := ecc.NextPowerOfTwo(uint64(4*len(x.PIs)+64)) + 3
		if fault == "no srs room" {
			size = 8
		}
		srs, err := kzg_bn254.NewSRS(size, new(big.Int).SetUint64(3+seed(t)))
		must(err)
		var b bytes.Buffer
		_, err = srs.WriteTo(&b)
		must(err)
		if fault == "srs" {
			b.Truncate(intn(t, b.Len(), "cut"))
		}
		put(dir, "srs_setup", b.Bytes())
	}
	args := []string{"-proof-system=" + system, fmt.Sprint("-dummy=", dummy), fmt.Sprint("-save=", save)}
	if profile := intn(t, 8, "profile"); profile < 7 {
		args = append(args, fmt.Sprint("-profile=", profile == 3))
	}
	if name != "step" || rapid.Bool().Draw(t, "named") {
		args = append(args, "-plonky2-circuit="+name)
	}
	args = rapid.Permutation(args).Draw(t, "order")
	desc := fmt.Sprintf("%q, fault: %s, %s", args, fault, descCfg(ct.C, len(x.PIs)))

	cmd := exec.Command(bin, args...)
	cmd.Dir = dir
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	err := cmd.Run()
	var ee *exec.ExitError
	if err != nil && !errors.As(err, &ee) {
		must(err)
	}
	log := out.String()
	if strings.Contains(log, "HARNESS:") {
		panic("HARNESS: " + log)
	}
	read := func(n string) []byte {
		b, err := os.ReadFile(filepath.Join(dir, n))
		if err != nil && !os.IsNotExist(err) {
			must(err)
		}
		return b
	}
	class := fmt.Sprintf("%s, dummy %v, save %v: %s", system, dummy, save, strings.SplitN(fault, ":", 2)[0])
	h.Case(true, class, desc, cfg.Seed)
	if !valid {
		if cmd.ProcessState.ExitCode() == 0 {
			t.Fatalf("the program succeeds: %s\n%s", desc, trim(log))
		}
		if len(read("proof.proof")) > 0 {
			t.Fatalf("the program fails but leaves a proof behind: %s\n%s", desc, trim(log))
		}
		return
	}
	if c := cmd.ProcessState.ExitCode(); c != 0 {
		t.Fatalf("the program fails (%d): %s\n%s", c, desc, trim(log))
	}
	if !save {
		for _, n := range []string{"proof.proof", "proving.key", "verifying.key", "witness", "proof.sol"} {
			if len(read(n)) > 0 {
				t.Fatalf("%s is written though saving is off: %s", n, desc)
			}
		}
		return
	}
	parse := func(n string, readFrom func(r *bytes.Reader) (int64, error)) {
		b := read(n)
		if k, err := readFrom(bytes.NewReader(b)); err != nil || k != int64(len(b)) || k == 0 {
			t.Fatalf("%s cannot be read back (%d of %d bytes): %v\n%s", n, k, len(b), err, desc)
		}
	}
	w, err := witness.New(ecc.BN254.ScalarField())
	must(err)
	parse("witness", func(r *bytes.Reader) (int64, error) { return w.ReadFrom(r) })
	want, err := frontend.NewWitness(&publics{X: conv.Const.Gls(x.PIs)}, ecc.BN254.ScalarField())
	must(err)
	pub, err := w.Public()
	must(err)
	if fmt.Sprint(pub.Vector()) != fmt.Sprint(want.Vector()) {
		t.Fatalf("the saved witness has public inputs %v, want %v: %s", pub.Vector(), want.Vector(), desc)
	}
	sol := func(export func(b *bytes.Buffer) error) {
		var b bytes.Buffer
		must(export(&b))
		if !bytes.Equal(b.Bytes(), read("proof.sol")) {
			t.Fatalf("proof.sol is not the export of the saved verifying key: %s", desc)
		}
	}
	var raw bytes.Buffer
	switch system {
	case "groth16":
		proof, pk, vk := groth16.NewProof(ecc.BN254), groth16.NewProvingKey(ecc.BN254), groth16.NewVerifyingKey(ecc.BN254)
		parse("proof.proof", func(r *bytes.Reader) (int64, error) { return proof.ReadFrom(r) })
		parse("proving.key", func(r *bytes.Reader) (int64, error) { return pk.ReadFrom(r) })
		if dummy {
			if len(read("verifying.key")) > 0 {
				t.Fatalf("a verifying key is saved though a dummy setup has none: %s", desc)
			}
			return
		}
		parse("verifying.key", func(r *bytes.Reader) (int64, error) { return vk.ReadFrom(r) })
		if err := groth16.Verify(proof, vk, want); err != nil {
			t.Fatalf("the saved proof does not verify with the saved key: %v\n%s", err, desc)
		}
		if p, v := pk.(*groth16_bn254.ProvingKey), vk.(*groth16_bn254.VerifyingKey); !p.G1.Alpha.Equal(&v.G1.Alpha) || !p.G2.Beta.Equal(&v.G2.Beta) {
			t.Fatalf("the saved proving and verifying keys are of different setups: %s", desc)
		}
		sol(func(b *bytes.Buffer) error { return vk.ExportSolidity(b) })
		_, err = proof.WriteRawTo(&raw)
		must(err)
		got := map[string]string{}
		for _, m := range coordinates.FindAllStringSubmatch(log, -1) {
			got[m[1]+m[2]+m[3]] = m[4]
		}
		for i, k := range []string{"a0", "a1", "b00", "b01", "b10", "b11", "c0", "c1"} {
			if v := new(big.Int).SetBytes(raw.Bytes()[32*i : 32*i+32]).String(); got[k] != v {
				t.Fatalf("coordinate %s of the proof is printed as %q, want %s: %s", k, got[k], v, desc)
			}
		}
	case "plonk":
		proof, pk, vk := plonk.NewProof(ecc.BN254), plonk.NewProvingKey(ecc.BN254), plonk.NewVerifyingKey(ecc.BN254)
		parse("proof.proof", func(r *bytes.Reader) (int64, error) { return proof.ReadFrom(r) })
		parse("proving.key", func(r *bytes.Reader) (int64, error) { return pk.ReadFrom(r) })
		parse("verifying.key", func(r *bytes.Reader) (int64, error) { return vk.ReadFrom(r) })
		if err := plonk.Verify(proof, vk, want); err != nil {
			t.Fatalf("the saved proof does not verify with the saved key: %v\n%s", err, desc)
		}
		var a, b bytes.Buffer
		_, err = pk.VerifyingKey().(*plonk_bn254.VerifyingKey).WriteTo(&a)
		must(err)
		_, err = vk.WriteTo(&b)
		must(err)
		if !bytes.Equal(a.Bytes(), b.Bytes()) {
			t.Fatalf("the saved proving and verifying keys are of different setups: %s", desc)
		}
		sol(func(b *bytes.Buffer) error { return vk.ExportSolidity(b) })
		_, err = proof.WriteRawTo(&raw)
		must(err)
		if !strings.Contains(log, fmt.Sprint(raw.Bytes())) {
			t.Fatalf("the printed proof is not the saved one: %s", desc)
		}
	}
}
