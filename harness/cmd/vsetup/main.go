// vsetup replays behaviours of spec/ceremony.qnt: it publishes the ceremonies, plays the network and runs the download.
package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/big"
	"math/rand"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	"github.com/consensys/gnark-crypto/ecc/bn254"
	"github.com/consensys/gnark-crypto/ecc/bn254/fp"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	kzg_bn254 "github.com/consensys/gnark-crypto/ecc/bn254/kzg"
	"github.com/succinctlabs/gnark-plonky2-verifier/trusted_setup"
	"golang.org/x/crypto/blake2b"
	"verif/harness/itf"
	"verif/harness/rep"
)

// network answers requests from a directory of published files, once with a fault.
type network struct{ dir, bad, how string }

type broken struct{ r io.Reader }

func (b broken) Read(p []byte) (int, error) {
	n, err := b.r.Read(p)
	if err == io.EOF {
		err = io.ErrUnexpectedEOF
	}
	return n, err
}

func (n network) RoundTrip(q *http.Request) (*http.Response, error) {
	path := q.URL.Path
	name := path[strings.Index(path, "IGNITION/")+len("IGNITION/"):]
	body, err := os.ReadFile(filepath.Join(n.dir, name))
	code := 200
	if err != nil {
		code, body = 404, []byte("<Error><Code>NoSuchKey</Code></Error>")
	}
	var rd io.Reader = bytes.NewReader(body)
	if name == n.bad {
		switch n.how {
		case "refused":
			return nil, errors.New("connection refused")
		case "missing":
			code, body = 404, []byte("<Error><Code>NoSuchKey</Code></Error>")
			rd = bytes.NewReader(body)
		case "cut":
			rd = broken{bytes.NewReader(body[:len(body)/2])}
		case "short":
			rd = bytes.NewReader(body[:len(body)*2/3])
		case "flipped":
			body = append([]byte{}, body...)
			k := 0
			if strings.HasSuffix(name, ".dat") {
				k = int(crcish(name)) % len(body)
			}
			body[k] ^= 0x10
			rd = bytes.NewReader(body)
		}
	}
	return &http.Response{StatusCode: code, Status: fmt.Sprint(code), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{},
		Body: io.NopCloser(rd), ContentLength: int64(len(body)), Request: q}, nil
}

func crcish(s string) (h uint32) {
	for _, c := range s {
		h = h*31 + uint32(c)
	}
	return h >> 1
}

// child runs the code under test; it exits through log.Fatal when it refuses.
func child(a []string) {
	if err := os.Chdir(a[0]); err != nil {
		panic(err)
	}
	t := network{a[1], a[2], a[3]}
	http.DefaultTransport = t
	http.DefaultClient.Transport = t
	start, _ := strconv.Atoi(a[4])
	trusted_setup.DownloadAndSaveAztecIgnitionSrs(start, a[5])
}

type part struct {
	id, parent int
	flaw       string
}

type ceremony struct {
	parts         []part
	points, files int
	dir           string
	last          *kzg_bn254.SRS
}

func word(e fp.Element) []byte {
	b := e.BigInt(new(big.Int)).Uint64()
	_ = b
	x := e.BigInt(new(big.Int))
	var r []byte
	m := new(big.Int).SetUint64(^uint64(0))
	for i := 0; i < 4; i++ {
		r = binary.BigEndian.AppendUint64(r, new(big.Int).And(new(big.Int).Rsh(x, uint(64*i)), m).Uint64())
	}
	return r
}

// a point of the twist outside the subgroup
func outside() (p bn254.G2Affine) {
	_, _, _, g := bn254.Generators()
	b := g.X
	b.Square(&g.X).Mul(&b, &g.X)
	t := g.Y
	t.Square(&g.Y)
	b.Sub(&t, &b)
	for i := uint64(1); ; i++ {
		p.X.A0.SetUint64(i)
		p.X.A1.SetUint64(1)
		y := p.X
		y.Square(&p.X).Mul(&y, &p.X).Add(&y, &b)
		if y.Legendre() != 1 {
			continue
		}
		p.Y.Sqrt(&y)
		if !p.IsInSubGroup() {
			return
		}
	}
}

func (c *ceremony) file(p part, i int) string {
	return fmt.Sprintf("%03d_0x%02xab/transcript%02d.dat", p.id, p.id, i)
}

func publish(dir string, l []part, points, files int, seed int64) *ceremony {
	c := &ceremony{parts: l, points: points, files: files, dir: dir}
	r := rand.New(rand.NewSource(seed))
	rnd := func() (e fr.Element) {
		for e.IsZero() || e.IsOne() {
			e.SetBigInt(new(big.Int).Rand(r, fr.Modulus()))
		}
		return
	}
	// her secret; the product everybody would have published in order
	z := make([]fr.Element, 8)
	honest := make([]fr.Element, 8)
	honest[0].SetOne()
	for i := 1; i < 8; i++ {
		z[i] = rnd()
		honest[i].Mul(&honest[i-1], &z[i])
	}
	started := map[int]int{}
	for _, p := range l {
		started[p.id] = p.parent
	}
	var product func(id int) fr.Element
	product = func(id int) (x fr.Element) {
		if id == 0 {
			return honest[0]
		}
		from := id - 1
		if m, ok := started[id]; ok {
			from = m
		}
		if from < id {
			x = product(from)
		} else {
			x = honest[from]
		}
		x.Mul(&x, &z[id])
		return
	}
	_, _, g1, g2 := bn254.Generators()
	mul2 := func(e fr.Element) (p bn254.G2Affine) { p.ScalarMultiplication(&g2, e.BigInt(new(big.Int))); return }
	type who struct {
		Address  string `json:"address"`
		Position int    `json:"position"`
	}
	var ws []who
	for k, p := range l {
		ws = append(ws, who{fmt.Sprintf("0x%02XAB", p.id), p.id})
		x := product(p.id)
		var one fr.Element
		one.SetOne()
		ratio, link, step := x, z[p.id], x
		switch p.flaw {
		case "ratio":
			ratio.Add(&ratio, &one)
		case "link":
			link.Add(&link, &one)
		case "unlinked":
			ratio = rnd()
			step = ratio
		}
		e := make([]fr.Element, points)
		e[0] = x
		for i := 1; i < points; i++ {
			e[i].Mul(&e[i-1], &step)
		}
		switch p.flaw {
		case "point":
			i := 1 + r.Intn(points-1)
			e[i].Add(&e[i], &one)
		case "swap":
			i := r.Intn(points - 1)
			e[i], e[i+1] = e[i+1], e[i]
		case "lastPoint":
			e[points-1].Add(&e[points-1], &one)
		case "nothing":
			e = make([]fr.Element, points)
			ratio.SetZero()
			link.SetZero()
		}
		pts := bn254.BatchScalarMultiplicationG1(&g1, e)
		two := [2]bn254.G2Affine{mul2(ratio), mul2(link)}
		switch p.flaw {
		case "offCurve":
			i := r.Intn(points)
			pts[i].Y.Double(&pts[i].Y)
		case "wrongSubgroup":
			two[r.Intn(2)] = outside()
		}
		if k == len(l)-1 {
			c.last = &kzg_bn254.SRS{Pk: kzg_bn254.ProvingKey{G1: pts}, Vk: kzg_bn254.VerifyingKey{G1: pts[0], G2: [2]bn254.G2Affine{g2, two[0]}}}
		}
		if p.flaw == "fewer" {
			pts = pts[:points-1]
		}
		for f := 0; f < files; f++ {
			lo, hi := len(pts)*f/files, len(pts)*(f+1)/files
			total, n2 := files, 0
			if p.flaw == "manyFiles" {
				total = 31
			}
			if f == 0 {
				n2 = 2
			}
			var b []byte
			for _, v := range []int{f, total, points, 1, hi - lo, n2, lo} {
				b = binary.BigEndian.AppendUint32(b, uint32(v))
			}
			for _, q := range pts[lo:hi] {
				b = append(append(b, word(q.X)...), word(q.Y)...)
			}
			if f == 0 {
				for _, q := range two {
					b = append(append(append(append(b, word(q.X.A0)...), word(q.X.A1)...), word(q.Y.A0)...), word(q.Y.A1)...)
				}
			}
			h := blake2b.Sum512(b)
			if p.flaw == "checksum" && f == files-1 {
				h[r.Intn(64)] ^= 1
			}
			b = append(b, h[:]...)
			name := filepath.Join(dir, c.file(p, f))
			if err := os.MkdirAll(filepath.Dir(name), 0o755); err != nil {
				panic(err)
			}
			if err := os.WriteFile(name, b, 0o644); err != nil {
				panic(err)
			}
		}
	}
	m, _ := json.Marshal(map[string]any{"name": "MAIN IGNITION", "numG1Points": points, "numG2Points": 1, "pointsPerTranscript": points, "participants": ws,
		"startTime": time.Unix(0, 0), "network": "ROPSTEN"})
	if err := os.WriteFile(filepath.Join(dir, "manifest.json"), m, 0o644); err != nil {
		panic(err)
	}
	return c
}

func num(v any) int { return int(itf.I(v)) }

func main() {
	if os.Getenv("VERIF_CHILD") != "" {
		child(os.Args[1:])
		return
	}
	a := rep.Parse()
	r := rep.New()
	scratch := os.Getenv("VERIF_SCRATCH")
	r.Parallel(len(a.Files), func(k int) {
		t := itf.MustRead(a.Files[k])
		r.Trace(len(t.States))
		dir := filepath.Join(scratch, fmt.Sprint(k))
		defer os.RemoveAll(dir)
		var c *ceremony
		var cfg map[string]any
		runs := 0
		for i := range t.States {
			ev := t.Event(i)
			op := itf.Str(ev["op"])
			switch op {
			case "publish":
				cf := itf.Rec(ev["cfg"])
				var l []part
				for _, x := range itf.List(cf["parts"]) {
					m := itf.Rec(x)
					l = append(l, part{num(m["id"]), num(m["parent"]), itf.Str(m["flaw"])})
				}
				// nothing of the former ceremony stays, except the output
				for _, d := range []string{"served", "work/data"} {
					os.RemoveAll(filepath.Join(dir, d))
				}
				for _, d := range []string{"served", "work", "work/dir"} {
					if err := os.MkdirAll(filepath.Join(dir, d), 0o755); err != nil {
						r.Error("%v", err)
						return
					}
				}
				c = publish(filepath.Join(dir, "served"), l, num(cf["points"]), num(cf["files"]), a.Seed*1000+int64(k*100+i))
			case "begin":
				cfg = itf.Rec(ev["cfg"])
			case "end":
				fault := itf.Rec(cfg["fault"])
				bad, how := "", itf.Str(fault["how"])
				if how != "" {
					w := num(fault["who"])
					if w < 0 {
						bad = "manifest.json"
						if num(fault["file"]) > 0 {
							bad = "nothing"
						}
					} else if w < len(c.parts) {
						bad = c.file(c.parts[w], num(fault["file"]))
					}
				}
				out := map[string]string{"": "out.srs", "noDir": "none/out.srs", "isDir": "dir", "full": "/dev/full"}[itf.Str(cfg["out"])]
				main_ := filepath.Join(dir, "work", "out.srs")
				before, errBefore := os.ReadFile(main_)
				cmd := exec.Command(os.Args[0], filepath.Join(dir, "work"), filepath.Join(dir, "served"), bad, how, fmt.Sprint(num(cfg["start"])), out)
				cmd.Env = append(os.Environ(), "VERIF_CHILD=1", "GOMAXPROCS=2")
				var log bytes.Buffer
				cmd.Stdout, cmd.Stderr = &log, &log
				err := cmd.Run()
				var xe *exec.ExitError
				if err != nil && !errors.As(err, &xe) {
					r.Error("%v", err)
					return
				}
				runs++
				r.Run(1)
				result := itf.Str(ev["result"])
				r.Count(result, 1)
				story := fmt.Sprintf("participants (secret, started from, flaw) %v, %d points in %d files, starting at %d, fault %s %s, output %q, run %d on this disk",
					c.parts, c.points, c.files, num(cfg["start"]), bad, how, out, runs)
				after, errAfter := os.ReadFile(main_)
				same := (errBefore == nil) == (errAfter == nil) && bytes.Equal(before, after)
				tail := strings.TrimSpace(log.String())
				if len(tail) > 400 {
					tail = tail[len(tail)-400:]
				}
				if result == "failed" {
					if err == nil {
						r.Violate(t.File, i, "the download succeeds but must fail: %s", story)
					} else if !same {
						r.Violate(t.File, i, "the download fails but leaves parameters behind: %s", story)
					}
					break
				}
				if err != nil {
					r.Violate(t.File, i, "the download of a sound ceremony fails: %s: %s", story, tail)
					return
				}
				var got kzg_bn254.SRS
				if _, err := got.ReadFrom(bytes.NewReader(after)); err != nil {
					r.Violate(t.File, i, "the written parameters cannot be read: %v: %s", err, story)
					break
				}
				w := c.last
				ok := len(got.Pk.G1) == len(w.Pk.G1) && got.Vk.G1.Equal(&w.Vk.G1) && got.Vk.G2[0].Equal(&w.Vk.G2[0]) && got.Vk.G2[1].Equal(&w.Vk.G2[1])
				for i := 0; ok && i < len(w.Pk.G1); i++ {
					ok = got.Pk.G1[i].Equal(&w.Pk.G1[i])
				}
				if !ok {
					r.Violate(t.File, i, "the written parameters are not those of the last participant: %s", story)
				}
			}
		}
	})
	r.Write(a.Out)
}
