package checks

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log"
	"math/big"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"github.com/consensys/gnark-crypto/ecc/bn254"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	kzg_bn254 "github.com/consensys/gnark-crypto/ecc/bn254/kzg"
	"github.com/succinctlabs/gnark-plonky2-verifier/trusted_setup"
	"golang.org/x/crypto/blake2b"
	"pgregory.net/rapid"

	"verifharness/ref"
)

// TestMain also serves as the process that runs the download: it exits when something is wrong.
func TestMain(m *testing.M) {
	if dir := os.Getenv("VERIF_SRS_CHILD"); dir != "" {
		must(os.Chdir(dir))
		log.SetOutput(io.Discard)
		http.DefaultTransport = served{}
		http.DefaultClient.Transport = served{}
		trusted_setup.DownloadAndSaveAztecIgnitionSrs(envInt("VERIF_SRS_START", 0), "out.srs")
		os.Exit(0)
	}
	os.Exit(m.Run())
}

// served answers every request from the directory srv; there is no network.
type served struct{}

func (served) RoundTrip(r *http.Request) (*http.Response, error) {
	p, _ := url.PathUnescape(r.URL.Path)
	i := strings.Index(p, "MAIN IGNITION/")
	if i < 0 {
		return nil, errors.New("no such server")
	}
	f := filepath.Join("srv", filepath.Clean("/"+p[i+len("MAIN IGNITION/"):]))
	b, err := os.ReadFile(f)
	code := 200
	if err != nil {
		code, b = 404, []byte("<Error><Code>NoSuchKey</Code></Error>")
	}
	if _, err := os.Stat("noserver"); err == nil {
		return nil, errors.New("connection refused")
	}
	body := io.Reader(bytes.NewReader(b))
	if _, err := os.Stat(f + ".break"); err == nil { // the connection breaks half-way
		body = io.MultiReader(bytes.NewReader(b[:len(b)/2]), broken{})
	}
	return &http.Response{StatusCode: code, Status: fmt.Sprint(code), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, ContentLength: -1, Body: io.NopCloser(body), Request: r}, nil
}

type broken struct{}

func (broken) Read([]byte) (int, error) { return 0, errors.New("connection reset") }

// ------------------------------------------------------------------ ceremonies

type contribution struct {
	g1  []bn254.G1Affine
	g2  [2]bn254.G2Affine
	tau fr.Element
}

func mulG1(x *fr.Element) (o bn254.G1Affine) {
	return *o.ScalarMultiplicationBase(x.BigInt(new(big.Int)))
}
func mulG2(x *fr.Element) (o bn254.G2Affine) {
	_, _, _, g := bn254.Generators()
	return *o.ScalarMultiplication(&g, x.BigInt(new(big.Int)))
}

// contribute multiplies the secret of prev by z.
func contribute(prev, z fr.Element, n int) *contribution {
	c := &contribution{}
	c.tau.Mul(&prev, &z)
	x := c.tau
	for i := 0; i < n; i++ {
		c.g1 = append(c.g1, mulG1(&x))
		x.Mul(&x, &c.tau)
	}
	c.g2[0], c.g2[1] = mulG2(&c.tau), mulG2(&z)
	return c
}

func words(b []byte, x *big.Int) []byte { // four words, least significant first, each big-endian
	m := new(big.Int).SetUint64(1<<64 - 1)
	for i := 0; i < 4; i++ {
		w := new(big.Int).And(new(big.Int).Rsh(x, uint(64*i)), m)
		b = binary.BigEndian.AppendUint64(b, w.Uint64())
	}
	return b
}

// transcripts writes a contribution, cut into files at the given places.
func (c *contribution) transcripts(cuts []int) (o [][]byte) {
	cuts = append(append([]int{0}, cuts...), len(c.g1))
	for i := 0; i+1 < len(cuts); i++ {
		n2 := 0
		if i == 0 {
			n2 = 2
		}
		var b []byte
		for _, v := range []int{i, len(cuts) - 1, len(c.g1), 1, cuts[i+1] - cuts[i], n2, cuts[i]} {
			b = binary.BigEndian.AppendUint32(b, uint32(v))
		}
		for _, p := range c.g1[cuts[i]:cuts[i+1]] {
			b = words(words(b, p.X.BigInt(new(big.Int))), p.Y.BigInt(new(big.Int)))
		}
		if i == 0 {
			for _, p := range c.g2 {
				b = words(words(b, p.X.A0.BigInt(new(big.Int))), p.X.A1.BigInt(new(big.Int)))
				b = words(words(b, p.Y.A0.BigInt(new(big.Int))), p.Y.A1.BigInt(new(big.Int)))
			}
		}
		s := blake2b.Sum512(b)
		o = append(o, append(b, s[:]...))
	}
	return
}

var srsFaults = []string{"none", "none", "early", "early", "flip", "flip-sum", "truncate", "missing", "break", "fork", "fork-on", "swap", "tau2", "ratio", "empty", "replay", "old-point", "manifest", "none-cached"}

func TestC20_ceremony(t *testing.T) {
	Section(t, "generated ceremonies (2..6 participants after 0..3 ignored ones, 128..200 powers, 1..4 transcript files, some files already cached) run through the download in a separate process, whose transport serves generated files: honest ones must save exactly the last contribution, readable, with a matching verification key; with one fault from the start index on (bit flips with and without a matching checksum, truncation, missing file, broken connection, forks of the chain, inconsistent powers, foreign second-group points) the process must fail and save nothing; non-trivial: a fault, or ignored participants, or cached files", 480, 9000, bodyC20)
}

// frs is uniform: secrets must not collide
func frs(r *ref.Rng) (x fr.Element) {
	var b [40]byte
	for i := 0; i < 5; i++ {
		binary.BigEndian.PutUint64(b[8*i:], r.U64())
	}
	x.SetBytes(b[:])
	return
}

func bodyC20(t *T, h *H) {
	r := ref.NewRng(seed(t))
	n := uni(t, 128, 200, "points")
	start := pick(t, []int{0, 0, 1, 2, 3}, "start")
	parts := start + uni(t, 2, 6, "participants")
	var cuts []int
	for c, k := 0, intn(t, 4, "cuts"); k > 0; k-- {
		c += uni(t, 1, 30, "cut")
		cuts = append(cuts, c)
	}
	fault := pick(t, srsFaults, "fault")
	if start == 0 && fault == "early" {
		fault = "none"
	}
	at := start + intn(t, parts-start, "at")
	if fault == "early" {
		at = intn(t, start, "at")
	}
	if (fault == "fork-on" || fault == "ratio" || fault == "replay") && at == start { // a fork at the start cannot be seen
		at++
	}
	prev := frs(r)
	var cs []*contribution
	for i := 0; i < parts; i++ {
		z := frs(r)
		base := prev
		if i == at && (fault == "fork" || fault == "fork-on") {
			base = frs(r)
		}
		c := contribute(base, z, n)
		prev2 := c.tau
		if i == at {
			switch fault {
			case "fork": // the others do not build on it
				prev2.Mul(&prev, &z)
			case "swap":
				a := intn(t, n, "a")
				b := (a + uni(t, 1, n-1, "b")) % n
				c.g1[a], c.g1[b] = c.g1[b], c.g1[a]
			case "old-point":
				x := frs(r)
				c.g1[intn(t, n, "a")] = mulG1(&x)
			case "tau2":
				x := frs(r)
				c.g2[0] = mulG2(&x)
			case "ratio":
				x := frs(r)
				c.g2[1] = mulG2(&x)
			case "replay": // the predecessor's contribution once more
				*c = *cs[i-1]
				prev2 = c.tau
			}
		}
		cs = append(cs, c)
		prev = prev2
	}
	dir, err := os.MkdirTemp("", "srs")
	must(err)
	defer os.RemoveAll(dir)
	type participant struct {
		Address     string    `json:"address"`
		Position    int       `json:"position"`
		StartedAt   time.Time `json:"startedAt"`
		CompletedAt time.Time `json:"completedAt"`
	}
	var ps []participant
	cached := fault == "none-cached" || intn(t, 4, "cached") == 3
	srv, cache := filepath.Join(dir, "srv"), filepath.Join(dir, "data", "MAIN IGNITION")
	where := func(rel string) string {
		if fault == "none-cached" || (cached && r.U64()%2 == 0 && fault != "break") {
			return filepath.Join(cache, rel)
		}
		return filepath.Join(srv, rel)
	}
	writef := func(p string, b []byte) {
		must(os.MkdirAll(filepath.Dir(p), 0o755))
		must(os.WriteFile(p, b, 0o644))
	}
	pos0 := uni(t, 0, 3, "firstPosition")
	hit := 0
	for i, c := range cs {
		ts := c.transcripts(cuts)
		p := participant{Address: fmt.Sprintf("0xAbC%037X", r.U64()), Position: pos0 + i*uni(t, 1, 2, "stride")}
		if i > 0 && p.Position <= ps[i-1].Position {
			p.Position = ps[i-1].Position + 1
		}
		ps = append(ps, p)
		if i == at {
			hit = intn(t, len(ts), "file")
		}
		for k, b := range ts {
			rel := fmt.Sprintf("%03d_%s/transcript%02d.dat", p.Position, strings.ToLower(p.Address), k)
			if i == at && k == hit {
				body := len(b) - 64
				switch fault {
				case "flip", "early":
					b[28+r.U64()%uint64(len(b)-28)] ^= 1 << (r.U64() % 8)
				case "flip-sum":
					b[28+r.U64()%uint64(body-28)] ^= 1 << (r.U64() % 8)
					s := blake2b.Sum512(b[:body])
					copy(b[body:], s[:])
				case "truncate":
					b = b[:r.U64()%uint64(len(b))]
				case "empty":
					b = nil
				case "missing":
					continue
				case "break":
					writef(filepath.Join(srv, rel+".break"), nil)
				}
			}
			writef(where(rel), b)
		}
	}
	man, err := json.Marshal(map[string]any{"name": "MAIN IGNITION", "numG1Points": n, "numG2Points": 1, "pointsPerTranscript": n, "network": "MAIN", "participants": ps})
	must(err)
	if fault == "manifest" {
		man = man[:r.U64()%uint64(len(man))]
	}
	writef(where("manifest.json"), man)
	if fault == "none-cached" {
		writef(filepath.Join(dir, "noserver"), nil)
	}
	old := rapid.Bool().Draw(t, "old file")
	out := filepath.Join(dir, "out.srs")
	junk := bytes.Repeat([]byte("old file "), 4000)
	if old {
		writef(out, junk)
	}
	want := strings.HasPrefix(fault, "none") || fault == "early"
	desc := fmt.Sprintf("%d powers, participants %d..%d, files %v, fault %s at %d file %d, cached %v", n, start, parts-1, cuts, fault, at, hit, cached)
	for round := 0; round < 2; round++ {
		status, log := srsChild(dir, start)
		if want {
			if status != 0 {
				t.Fatalf("%s: run %d must succeed, but exits %d\n%s", desc, round, status, trim(log))
			}
			srsMatches(t, desc, out, cs[len(cs)-1])
			if round == 0 { // once more, from the files the first run cached
				writef(filepath.Join(dir, "noserver"), nil)
				if rapid.Bool().Draw(t, "delete") {
					must(os.Remove(out))
				}
			}
			if intn(t, 3, "again") != 2 {
				break
			}
		} else {
			b, err := os.ReadFile(out)
			if status == 0 {
				t.Fatalf("%s: must fail, but succeeds", desc)
			}
			if (old && !bytes.Equal(b, junk)) || (!old && err == nil) {
				t.Fatalf("%s: fails, but leaves an SRS of %d bytes behind", desc, len(b))
			}
			break
		}
	}
	h.Case(fault != "none" || start > 0 || cached, fault, desc)
}

func srsChild(dir string, start int) (int, string) {
	self, err := os.Executable()
	must(err)
	c := exec.Command(self)
	c.Dir = dir
	c.Env = append(os.Environ(), "VERIF_SRS_CHILD="+dir, fmt.Sprint("VERIF_SRS_START=", start))
	var b bytes.Buffer
	c.Stdout, c.Stderr = &b, &b
	err = c.Run()
	var ee *exec.ExitError
	if err != nil && !errors.As(err, &ee) {
		must(err)
	}
	if s := b.String(); strings.Contains(s, "HARNESS:") {
		panic("HARNESS: " + s)
	}
	return c.ProcessState.ExitCode(), b.String()
}

func srsMatches(t *T, desc, file string, c *contribution) {
	b, err := os.ReadFile(file)
	if err != nil {
		t.Fatalf("%s: succeeds without saving the SRS: %v", desc, err)
	}
	var s kzg_bn254.SRS
	k, err := s.ReadFrom(bytes.NewReader(b))
	if err != nil || k != int64(len(b)) {
		t.Fatalf("%s: the SRS cannot be read back: %v (%d of %d bytes)", desc, err, k, len(b))
	}
	if len(s.Pk.G1) != len(c.g1) {
		t.Fatalf("%s: the SRS has %d powers, the ceremony %d", desc, len(s.Pk.G1), len(c.g1))
	}
	for i := range c.g1 {
		if !s.Pk.G1[i].Equal(&c.g1[i]) {
			t.Fatalf("%s: power %d differs from the last contribution's", desc, i)
		}
	}
	_, _, _, g2 := bn254.Generators()
	if !s.Vk.G1.Equal(&c.g1[0]) || !s.Vk.G2[0].Equal(&g2) || !s.Vk.G2[1].Equal(&c.g2[0]) {
		t.Fatalf("%s: the verification key does not match the powers", desc)
	}
	f := make([]fr.Element, len(c.g1))
	for i := range f {
		f[i].SetUint64(uint64(i*i + 1))
	}
	d, err := kzg_bn254.Commit(f, s.Pk)
	if err != nil {
		t.Fatalf("%s: the SRS cannot commit to a polynomial of its size: %v", desc, err)
	}
	var pt fr.Element
	pt.SetUint64(12345)
	p, err := kzg_bn254.Open(f, pt, s.Pk)
	if err != nil || kzg_bn254.Verify(&d, &p, pt, s.Vk) != nil {
		t.Fatalf("%s: a KZG opening does not verify: %v", desc, err)
	}
	p.ClaimedValue.SetUint64(1)
	if kzg_bn254.Verify(&d, &p, pt, s.Vk) == nil {
		t.Fatalf("%s: a false KZG opening verifies", desc)
	}
}
