// vproof makes proofs for the specification to judge and confronts the verifier circuit with its verdicts.
package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"

	"github.com/consensys/gnark/frontend"
	"verif/harness/adv"
	"verif/harness/cs"
	"verif/harness/engine"
	"verif/harness/itf"
	"verif/harness/pk"
	"verif/harness/rep"
)

var data = os.Getenv("VERIF_DATA")

type store struct {
	mu sync.Mutex
	m  map[int]*inst
}

func (s *store) at(id int) (*inst, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.m == nil {
		s.m = map[int]*inst{}
	}
	if in := s.m[id]; in != nil {
		return in, nil
	}
	in, err := load(filepath.Join(data, strconv.Itoa(id)))
	if err == nil {
		s.m[id] = in
	}
	return in, err
}

func ids() (r []int) {
	d, err := os.ReadDir(data)
	if err != nil {
		panic(err)
	}
	for _, e := range d {
		if n, err := strconv.Atoi(e.Name()); err == nil {
			r = append(r, n)
		}
	}
	return
}

// judge runs the verifier on an altered proof.
func judge(f *full, m engine.Mode, hint func(c *engine.HintCall) bool) engine.Outcome {
	e := engine.New(m)
	e.OnHint = hint
	return e.Run(func(api frontend.API) { f.verify(api) })
}

// altered is false when the alterations cannot even be represented.
func altered(in *inst, es []pk.Edit) (f *full, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%v", r)
		}
	}()
	f = in.fresh()
	for _, e := range es {
		f.apply(e)
	}
	return
}

func describe(es []pk.Edit) string {
	var s []string
	for _, e := range es {
		s = append(s, text(e))
	}
	return strings.Join(s, "; ")
}

func shape(in *inst) string {
	return fmt.Sprintf("degree bits %d, rate %d, rounds %d, queries %d, wires %d/%d, challenges %d, quotient factor %d, partial products %d, public inputs %d, gates %v",
		in.cd.DegreeBits, in.cd.Config.FriConfig.RateBits, len(in.cd.FriParams.ReductionArityBits), in.cd.Config.FriConfig.NumQueryRounds,
		in.cd.Config.NumRoutedWires, in.cd.Config.NumWires, in.cd.Config.NumChallenges, in.cd.QuotientDegreeFactor, in.cd.NumPartialProducts,
		in.cd.NumPublicInputs, in.cd.GateIds)
}

func main() {
	a := rep.Parse()
	cs.BitDecomp(false)
	if a.Cmd == "gen" {
		pk.LoadConstants(os.Getenv("VERIF_SPEC") + "/constants.qnt")
		gen(a)
		return
	}
	r := rep.New()
	st := &store{}
	switch a.Cmd {
	case "replay":
		replay(a, r, st)
	case "honest":
		replay(a, r, st)
		honest(a, r, st)
	case "alter":
		replay(a, r, st)
		sweep(a, r, st, "alter")
	case "over":
		replay(a, r, st)
		sweep(a, r, st, "over")
	case "shape":
		replay(a, r, st)
		sweep(a, r, st, "shape")
		config(a, r, st)
	case "circuits":
		circuits(a, r, st)
	case "shared":
		shared(a, r, st)
	default:
		fmt.Fprintln(os.Stderr, "unknown command", a.Cmd)
		os.Exit(2)
	}
	r.Write(a.Out)
}

// tooNarrow: the commitment-based range checker refuses widths it could not enforce exactly (property C07), here the
// width of the proof-of-work check or the table for a handful of checks.
func tooNarrow(in *inst, m engine.Mode, o engine.Outcome) bool {
	return m == engine.Commit && o.Kind == "panic" && (strings.Contains(o.Msg, "nbBits should be") ||
		strings.Contains(o.Msg, "nbBits aligned") && in.cd.Config.FriConfig.ProofOfWorkBits%16 != 0)
}

// replay confronts every verdict of the specification with the circuit's.
func replay(a rep.Args, r *rep.Report, st *store) {
	type item struct {
		t *itf.Trace
		i int
	}
	var items []item
	seen := map[string]bool{}
	for _, fl := range a.Files {
		t := itf.MustRead(fl)
		r.Trace(len(t.States))
		for i := range t.States {
			ev := t.Event(i)
			if itf.Str(ev["op"]) == "init" {
				continue
			}
			key := fmt.Sprint(ev["id"], edits(ev["edits"]))
			if !seen[key] {
				seen[key] = true
				items = append(items, item{t, i})
			}
		}
	}
	r.Parallel(len(items), func(k int) {
		it := items[k]
		ev := it.t.Event(it.i)
		id, verdict := int(itf.I(ev["id"])), itf.Str(ev["verdict"])
		es := edits(ev["edits"])
		accept := verdict == ""
		in, err := st.at(id)
		if err != nil {
			if accept {
				r.Violate(it.t.File, it.i, "a valid proof does not load: %v", err)
			}
			return
		}
		name := in.craft
		if len(es) > 0 {
			name += "+altered"
		}
		if verdict == "" {
			verdict = "accepted"
		}
		r.Count(strings.TrimPrefix(name, "+")+" "+verdict, 1)
		try := func(m engine.Mode, hint func(c *engine.HintCall) bool, who string) {
			f, err := altered(in, es)
			if err != nil {
				r.Error("alteration %s cannot be made: %v", describe(es), err)
				return
			}
			o := judge(f, m, hint)
			r.Run(1)
			switch {
			case tooNarrow(in, m, o):
				r.Count("commit: width refused", 1)
			case accept && !o.Sat():
				r.Violate(it.t.File, it.i, "[%s] a valid proof (%s; prover %q; %s) is refused: %s %s", m, shape(in), in.craft, describe(es), o.Kind, o.Msg)
			case !accept && o.Sat():
				r.Violate(it.t.File, it.i, "[%s, %s] an invalid proof (ground: %s; prover %q; altered: %s; %s) is accepted", m, who, verdict, in.craft, describe(es), shape(in))
			}
		}
		try(engine.Native, nil, "honest hints")
		if k%7 == 0 || a.Thorough() {
			try([]engine.Mode{engine.BitDecomp, engine.Commit}[k/7%2], nil, "honest hints")
		}
		if !accept {
			r.Adv(1)
			try(engine.Native, adv.Lenient(k%adv.Secondary), "hints at the prover's will")
			if a.Thorough() {
				for s := 0; s < adv.Secondary; s++ {
					r.Adv(1)
					try(engine.BitDecomp, adv.Lenient(s), "hints at the prover's will")
				}
			}
		}
	})
}

// honest: the other proofs of honest provers, and compiled circuits.
func honest(a rep.Args, r *rep.Report, st *store) {
	l := ids()
	r.Parallel(len(l), func(k int) {
		in, err := st.at(l[k])
		if err != nil {
			r.Violate("", 0, "the files of a valid proof do not load: %v", err)
			return
		}
		for i, m := range []engine.Mode{engine.Native, engine.BitDecomp, engine.Commit} {
			if i > 0 && !a.Thorough() && k%6 != i {
				continue
			}
			o := judge(in.fresh(), m, nil)
			r.Run(1)
			r.Count("honest/"+m.String(), 1)
			if !o.Sat() && !tooNarrow(in, m, o) {
				r.Violate("", l[k], "[%s] a valid proof (%s) is refused: %s %s", m, shape(in), o.Kind, o.Msg)
			}
		}
	})
	// compiled: the smallest circuits, one after the other (millions of constraints each), with the range checker the
	// builders come with
	n := 4
	if a.Thorough() {
		n = 12
	}
	rnd := rand.New(rand.NewSource(a.Seed))
	sz := map[int]int{}
	var small []int
	for _, id := range l {
		if in, err := st.at(id); err == nil && in.cd.Config.FriConfig.NumQueryRounds == 1 && in.cd.Config.FriConfig.ProofOfWorkBits%16 == 0 {
			small, sz[id] = append(small, id), len(in.fresh().values())
		}
	}
	sort.Slice(small, func(i, j int) bool { return sz[small[i]] < sz[small[j]] })
	if len(small) > n {
		small = small[:n]
	}
	for k := range small {
		debug.FreeOSMemory()
		in, err := st.at(small[k])
		if err != nil {
			continue
		}
		kind := []string{"scs", "r1cs"}[k%2]
		if k == n-1 && a.Thorough() {
			cs.BitDecomp(true)
			defer cs.BitDecomp(false)
		}
		c := compile(kind, in)
		r.Run(1)
		r.Count("compiled/"+kind, 1)
		if c.err != nil {
			r.Violate("", small[k], "[%s] the verifier circuit for %s does not compile: %v", kind, shape(in), c.err)
			continue
		}
		if err := c.solve(in.fresh()); err != nil {
			r.Violate("", small[k], "[%s] a valid proof (%s) does not satisfy the compiled circuit: %v", kind, shape(in), err)
		}
		f := in.fresh()
		cells := f.cells()
		e := cells[rnd.Intn(len(cells))]
		for e.Sec == "witness" || e.Sec == "cap" && e.A == 0 {
			e = cells[rnd.Intn(len(cells))]
		}
		e.Op, e.D = "move", big.NewInt(1)
		f.apply(e)
		r.Adv(1)
		if c.solve(f) == nil {
			r.Violate("", small[k], "[%s] the compiled circuit accepts a proof altered at %s", kind, text(e))
		}
	}
}
