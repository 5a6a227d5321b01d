package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"path/filepath"
	"reflect"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif/harness/cs"
	"verif/harness/engine"
	"verif/harness/pk"
	"verif/harness/rep"
)

// smallest returns the n instances with the fewest values.
func smallest(r *rep.Report, st *store, n int, ok func(in *inst) bool) (l []*inst) {
	for _, id := range ids() {
		in, err := st.at(id)
		if err != nil {
			r.Violate("", 0, "the files of a valid proof do not load: %v", err)
			continue
		}
		if ok(in) {
			l = append(l, in)
		}
	}
	sz := map[*inst]int{}
	for _, in := range l {
		sz[in] = len(in.fresh().values()) * int(in.cd.Config.FriConfig.NumQueryRounds)
	}
	sort.SliceStable(l, func(i, j int) bool { return sz[l[i]] < sz[l[j]] })
	if len(l) > n {
		l = l[:n]
	}
	return
}

// someEdits picks alterations that no verifier may accept.
func someEdits(in *inst, rnd *rand.Rand, n int) (r []pk.Edit) {
	cells := in.fresh().cells()
	for len(r) < n {
		e := cells[rnd.Intn(len(cells))]
		if e.Sec == "witness" || e.Sec == "cap" && e.A == 0 {
			continue
		}
		e.Op, e.D = "move", big.NewInt(1)
		r = append(r, e)
	}
	return
}

// circuits: verifier circuits compiled at the same time are the ones compiled alone, and all back ends judge alike.
func circuits(a rep.Args, r *rep.Report, st *store) {
	rounds := 1
	if a.Thorough() {
		rounds = 4
	}
	l := smallest(r, st, 2*rounds, func(in *inst) bool { return in.cd.Config.FriConfig.ProofOfWorkBits%16 == 0 })
	rnd := rand.New(rand.NewSource(a.Seed))
	for i := 0; i+1 < len(l); i += 2 {
		A, B := l[i], l[i+1]
		jobs := []struct {
			kind string
			in   *inst
		}{{"r1cs", A}, {"scs", B}, {"scs", A}}
		alone := make([]string, len(jobs))
		one := func(k int) *compiledVerifier {
			c := compile(jobs[k].kind, jobs[k].in)
			r.Run(1)
			return c
		}
		for k := range jobs[:2] {
			c := one(k)
			if c.err != nil {
				r.Violate("", k, "[%s alone] the verifier circuit for %s does not compile: %v", jobs[k].kind, shape(jobs[k].in), c.err)
				return
			}
			alone[k] = cs.Digest(c.ccs)
			c.ccs = nil
			debug.FreeOSMemory()
		}
		got := make([]*compiledVerifier, len(jobs))
		var wg sync.WaitGroup
		for k := range jobs {
			wg.Add(1)
			go func(k int) { defer wg.Done(); got[k] = one(k) }(k)
		}
		wg.Wait()
		ea, eb := someEdits(A, rnd, 3), someEdits(B, rnd, 3)
		for k, j := range jobs {
			c := got[k]
			if c.err != nil {
				r.Violate("", k, "[%s concurrent] the verifier circuit for %s does not compile: %v", j.kind, shape(j.in), c.err)
				continue
			}
			if d := cs.Digest(c.ccs); alone[k] != "" && d != alone[k] {
				r.Violate("", k, "[%s concurrent] the verifier circuit differs from the one built alone: %s, %s", j.kind, d, alone[k])
			}
			if err := c.solve(j.in.fresh()); err != nil {
				r.Violate("", k, "[%s concurrent] a valid proof (%s) is refused: %v", j.kind, shape(j.in), err)
			}
			es := ea
			if j.in == B {
				es = eb
			}
			for _, e := range es {
				f := j.in.fresh()
				f.apply(e)
				r.Adv(1)
				if c.solve(f) == nil {
					r.Violate("", k, "[%s concurrent] a proof altered at %s is accepted", j.kind, text(e))
				}
				if k == 2 {
					f := j.in.fresh()
					f.apply(e)
					if judge(f, engine.Native, nil).Sat() {
						r.Violate("", k, "[interpreting] a proof altered at %s is accepted", text(e))
					}
				}
			}
			got[k] = nil
			debug.FreeOSMemory()
		}
	}
}

// roomy gives every slice below v its own memory with room to spare, as slices grown by append have it.
func roomy(v reflect.Value, rnd *rand.Rand) {
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				roomy(v.Field(i), rnd)
			}
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			roomy(v.Index(i), rnd)
		}
	case reflect.Slice:
		n := v.Len()
		if n == 0 {
			return
		}
		s := reflect.MakeSlice(v.Type(), n+1+rnd.Intn(3*n), n+81+3*n)
		s = s.Slice3(0, s.Len(), s.Len()+rnd.Intn(s.Cap()-s.Len()+1))
		reflect.Copy(s, v)
		for i := n; i < s.Len(); i++ {
			s.Index(i).Set(v.Index(i % n))
		}
		v.Set(s.Slice(0, n))
		for i := 0; i < n; i++ {
			roomy(v.Index(i), rnd)
		}
	}
}

// packed lays the openings out in one array, in some order, each slice reaching to the end of the array.
func packed(f *full, rnd *rand.Rand) {
	order := rnd.Perm(7)
	n := 0
	for a := 0; a < 7; a++ {
		n += len(*f.open(a))
	}
	all := reflect.MakeSlice(reflect.TypeOf(*f.open(0)), n+1, n+1)
	k := 0
	for _, a := range order {
		p := reflect.ValueOf(f.open(a)).Elem()
		m := p.Len()
		reflect.Copy(all.Slice(k, k+m), p)
		p.Set(all.Slice(k, k+m))
		k += m
	}
}

// render writes out everything a proof refers to, spare room included.
func render(v reflect.Value, w *strings.Builder) {
	switch v.Kind() {
	case reflect.Struct:
		if v.CanInterface() && v.Type() == reflect.TypeOf(big.Int{}) {
			x := v.Interface().(big.Int)
			w.WriteString(x.String())
			return
		}
		for i := 0; i < v.NumField(); i++ {
			render(v.Field(i), w)
		}
	case reflect.Slice:
		fmt.Fprintf(w, "%d[", v.Len())
		s := v
		if v.Cap() > v.Len() && v.CanInterface() {
			s = v.Slice3(0, v.Cap(), v.Cap())
		}
		for i := 0; i < s.Len(); i++ {
			render(s.Index(i), w)
		}
		w.WriteString("]")
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			render(v.Index(i), w)
		}
	case reflect.Pointer, reflect.Interface:
		if v.IsNil() {
			w.WriteString("nil ")
		} else if v.CanInterface() {
			if x, ok := v.Interface().(*big.Int); ok {
				w.WriteString(x.String() + " ")
				return
			}
			render(v.Elem(), w)
		} else {
			render(v.Elem(), w)
		}
	default:
		fmt.Fprintf(w, "%v ", v)
	}
}

func (f *full) text() string {
	var w strings.Builder
	render(reflect.ValueOf(f).Elem(), &w)
	return w.String()
}

// lockstep lets verifiers that do the same work do the same things at about the same time, by the clock alone: any
// other way of waiting for each other would order what they do, and hide from the race detector that nothing else does.
// (So would the locks of the code under test when the verifiers drift apart.)
func lockstep(t0 time.Time) func(c *engine.HintCall) bool {
	n := 0
	return func(*engine.HintCall) bool {
		if n++; n%stepHints == 0 {
			for t := t0.Add(time.Duration(n/stepHints) * stepTime); time.Now().Before(t); {
			}
		}
		return false
	}
}

const (
	stepHints = 100
	stepTime  = 4 * time.Millisecond
)

// loading: files read at the same time give what they give one after the other.
func loading(r *rep.Report, st *store) {
	all := ids()
	if len(all) > 6 {
		all = all[:6]
	}
	got := make([]string, 2*len(all))
	t0 := time.Now().Add(20 * time.Millisecond)
	var wg sync.WaitGroup
	for i := range got {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for time.Now().Before(t0) {
			}
			in, err := load(filepath.Join(data, strconv.Itoa(all[i/2])))
			if err != nil {
				got[i] = "refused: " + err.Error()
				return
			}
			got[i] = in.fresh().text()
		}(i)
	}
	wg.Wait()
	r.Run(len(got))
	r.Count("loading", len(got))
	for i := range got {
		in, err := st.at(all[i/2])
		if err != nil {
			r.Violate("", i, "the files of a valid proof do not load: %v", err)
		} else if got[i] != in.fresh().text() {
			r.Violate("", i, "the files of a proof (%s) loaded next to others give something else than loaded alone", shape(in))
		}
	}
}

// shared: several verifiers at work on the same proof, key and circuit description leave them alone and do not disturb
// each other.
func shared(a rep.Args, r *rep.Report, st *store) {
	n := 3
	if a.Thorough() {
		n = 12
	}
	rnd := rand.New(rand.NewSource(a.Seed))
	loading(r, st)
	for k, in := range smallest(r, st, n, func(*inst) bool { return true }) {
		for _, layout := range []string{"plain", "roomy", "packed"} {
			f := in.fresh()
			switch layout {
			case "roomy":
				roomy(reflect.ValueOf(f).Elem(), rnd)
			case "packed":
				packed(f, rnd)
			}
			before := f.text()
			modes := []engine.Mode{engine.Native, engine.Native, engine.Native}
			outs := make([]engine.Outcome, len(modes)+1)
			e := someEdits(in, rnd, 1)[0]
			bad := in.fresh()
			bad.apply(e)
			bad.cd = f.cd
			start := make(chan bool)
			var wg sync.WaitGroup
			t0 := time.Now().Add(20 * time.Millisecond)
			for i := range outs {
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					<-start
					for time.Now().Before(t0) {
					}
					var hint func(c *engine.HintCall) bool
					if layout == "plain" {
						hint = lockstep(t0)
					}
					if i == len(modes) {
						outs[i] = judge(bad, engine.Native, hint)
					} else {
						outs[i] = judge(f, modes[i], hint)
					}
				}(i)
			}
			close(start)
			wg.Wait()
			r.Run(len(outs))
			r.Adv(1)
			r.Count("shared/"+layout, 1)
			for i, m := range modes {
				if !outs[i].Sat() {
					r.Violate("", k, "[%s, shared proof, %s layout] a valid proof (%s) is refused: %s %s", m, layout, shape(in), outs[i].Kind, outs[i].Msg)
				}
			}
			if outs[len(modes)].Sat() {
				r.Violate("", k, "[shared, %s layout] a proof altered at %s is accepted next to valid ones", layout, text(e))
			}
			if f.text() != before {
				r.Violate("", k, "[%s layout] verification changes memory of the proof, key or circuit description it is given", layout)
			}
		}
	}
}
