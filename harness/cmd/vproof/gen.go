package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"

	"verif/harness/pk"
	"verif/harness/rep"
)

var dishonest = []string{"copy", "gate", "quotient", "opening", "fold", "final", "pow", "position"}

// what a circuit must offer for a craft to have an effect
func limits(craft string, i int) pk.Limits {
	l := pk.Limits{MaxWires: 30, MaxDegBits: 5, K: i % 2}
	if i%9 == 8 {
		l.MaxWires = 140
	}
	switch {
	case strings.Contains(craft, "Step"), strings.Contains(craft, "Eval"), craft == "fold", strings.Contains(craft, "CommitCap"):
		l.K = 1
	case craft == "missingFinal":
		l.K = 0
	}
	if l.K == 1 {
		l.MaxDegBits = 8
	}
	if l.K == 2 {
		l.MaxDegBits = 10
	}
	return l
}

func sample(r *rand.Rand, craft string, i int, l pk.Limits) *pk.Circuit {
	for {
		c := pk.Sample(r, l)
		lde := c.DegBits + c.Rate
		switch {
		case craft == "pow" && c.Pow == 0, craft == "missingFinal" && c.DegBits == 0:
			continue
		case strings.HasPrefix(craft, "missingSibling") && lde < 5, craft == "missingStepSibling" && lde < 9:
			continue
		case craft == "missingPublic" && (c.NPub == 0 || c.NPub > 8), craft == "surplusPublic" && c.NPub > 7:
			continue
		case craft == "missingQuotient":
			// a quotient that does not fill its last chunk
			if c.Npp > 0 || c.Routed > c.Q-2 || len(c.Groups) > 1 || c.Q < 4 {
				continue
			}
		}
		if strings.HasPrefix(craft, "missing") && craft != "missingQuery" || strings.HasPrefix(craft, "over") {
			c.Nq = 1
		}
		if strings.HasPrefix(craft, "lucky") || strings.HasPrefix(craft, "small") {
			if leaf := int(craft[len(craft)-1] - '0'); leaf == 0 && c.NCst+len(c.Groups)+c.Routed == 0 {
				continue
			}
			c.Nq = 1
			if c.Pow > 4 {
				c.Pow = c.Pow % 5
			}
		}
		if craft == "missingQuery" && c.Nq < 2 {
			c.Nq = 2
		}
		return c
	}
}

// gen makes the proofs the specification is asked about: one data directory per proof, one Quint module per shard.
func gen(a rep.Args) {
	data, profile := os.Getenv("VERIF_DATA"), os.Getenv("VERIF_GEN")
	scale := 1
	if a.Thorough() {
		scale = 3
	}
	type job struct {
		craft string
		lim   pk.Limits
		real  string
		shard int // -1: not shown to the specification
	}
	var jobs []job
	n := len(a.Files)
	add := func(craft string, lim pk.Limits, i int) {
		jobs = append(jobs, job{craft: craft, lim: lim, shard: i % n})
	}
	switch profile {
	case "honest":
		for i := 0; i < 3*n*scale; i++ {
			l := pk.Limits{MaxWires: 40, MaxDegBits: 6, K: i % 3, Must: []string{pk.Kinds[i%len(pk.Kinds)]}}
			if l.K == 1 {
				l.MaxDegBits = 8
			}
			if l.K == 2 {
				l.MaxDegBits = 9
			}
			if k := l.Must[0]; strings.HasPrefix(k, "poseidon") {
				l.MaxWires = 140
			}
			if i%12 == 9 { // K is 0
				l.Rate = 6 + int(a.Seed%3)
			}
			add("", l, i)
		}
		for i := 0; i < 40*scale*scale; i++ {
			l := pk.Limits{MaxWires: 50 + 90*(i%2), MaxDegBits: 9, K: i % 3, Must: []string{pk.Kinds[(i/3)%len(pk.Kinds)], pk.Kinds[(i/2)%len(pk.Kinds)]}}
			if l.Must[0] == l.Must[1] {
				l.Must = l.Must[:1]
			}
			if strings.Contains(strings.Join(l.Must, " "), "poseidon") {
				l.MaxWires = 140
			}
			if i%8 == 3 { // a low rate: the domain is many times larger than the trace
				l.K, l.Rate = 0, 6+(i/8+int(a.Seed%6))%6
			}
			jobs = append(jobs, job{lim: l, shard: -1})
		}
	case "alter":
		for i := 0; i < n*scale; i++ {
			add("", limits("", i), i)
		}
		for i, c := range append(dishonest, "luckyLeaf0", "luckyLeaf1", "luckyLeaf2", "luckyLeaf3", "luckyEval") {
			add(c, limits(c, i), i)
		}
	case "over":
		for i := 0; i < n*scale; i++ {
			add("", limits("", i), i)
		}
		for i, c := range []string{"overLeaf0", "overLeaf1", "overLeaf2", "overLeaf3", "overEval", "smallLeaf0", "smallLeaf1", "smallLeaf2",
			"smallLeaf3", "smallEval", "luckyEval"} {
			for k := 0; k < 2*scale; k++ {
				add(c, limits(c, i+k), i*2*scale+k)
			}
		}
	case "shape":
		for i := 0; i < n*scale; i++ {
			add("", limits("", i), i)
		}
		i := 0
		for _, c := range pk.Crafts {
			if strings.HasPrefix(c, "surplus") || strings.HasPrefix(c, "missing") {
				for k := 0; k < scale; k++ {
					add(c, limits(c, i+k), i)
					i++
				}
			}
		}
	case "conc":
		for i := 0; i < 12*scale; i++ {
			jobs = append(jobs, job{lim: pk.Limits{MaxWires: 40, MaxDegBits: 6, K: i % 2, Must: []string{pk.Kinds[(5*i)%len(pk.Kinds)]}}, shard: -1})
			if strings.HasPrefix(jobs[i].lim.Must[0], "poseidon") {
				jobs[i].lim.MaxWires = 140
			}
		}
	default:
		panic("unknown profile " + profile)
	}
	if profile != "shape" && profile != "conc" {
		jobs = append(jobs, job{real: "step", shard: 0}, job{real: "decode_block", shard: 1 % n})
	}
	r := rep.New()
	quint := make([]string, len(jobs))
	r.Parallel(len(jobs), func(i int) {
		j := jobs[i]
		rnd := rand.New(rand.NewSource(a.Seed*1000003 + int64(i)*7919))
		var c *pk.Circuit
		var p *pk.Proof
		if j.real != "" {
			c, p = pk.Load("/repo/testdata/"+j.real, 1)
		} else {
			c = sample(rnd, j.craft, i, j.lim)
			p = c.Prove(rnd, j.craft)
		}
		dir := filepath.Join(data, fmt.Sprint(i))
		c.Write(dir, p)
		if err := os.WriteFile(filepath.Join(dir, "craft"), []byte(p.Craft), 0o644); err != nil {
			panic(err)
		}
		if j.shard >= 0 {
			quint[i] = c.Quint(p, i)
		}
	})
	for s, dir := range a.Files {
		var l []string
		for i, j := range jobs {
			if j.shard == s {
				l = append(l, quint[i])
			}
		}
		m := "// The proofs to judge.\nmodule pdata {\n  import field.* from \"./field\"\n  import plonk.* from \"./plonk\"\n  import fri.* from \"./fri\"\n  import verifier.* from \"./verifier\"\n  pure val INSTANCES: List[Inst] = [\n" +
			strings.Join(l, ",\n") + "\n  ]\n}\n"
		if err := os.WriteFile(filepath.Join(dir, "pdata.qnt"), []byte(m), 0o644); err != nil {
			panic(err)
		}
	}
	if len(r.Errors) > 0 {
		fmt.Fprintln(os.Stderr, r.Errors[0])
		os.Exit(3)
	}
}
