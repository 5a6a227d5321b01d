package main

import (
	"fmt"
	"strings"

	"github.com/consensys/gnark/frontend"
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
	"github.com/succinctlabs/gnark-plonky2-verifier/plonk"
	"github.com/succinctlabs/gnark-plonky2-verifier/plonk/gates"
	"github.com/succinctlabs/gnark-plonky2-verifier/types"
	"verif/harness/cs"
	"verif/harness/engine"
	"verif/harness/itf"
	"verif/harness/rep"
)

func instance(id string) (g gates.Gate, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%v", r)
		}
	}()
	return gates.GateInstanceFromId(id), nil
}

func misspell(s string, how int64, at int, ch string) string {
	at %= len(s)
	switch how {
	case 1:
		if s[at:at+1] == ch {
			ch = "y"
		}
		return s[:at] + ch + s[at+1:]
	case 2:
		return s[:at] + s[at+1:]
	case 3:
		return s[:at+1] + s[at:]
	}
	return s[:at] + ch + s[at:]
}

// the table of gates is a map: ask repeatedly
const asks = 24

func ids(a rep.Args, r *rep.Report) {
	cs.BitDecomp(false)
	type item struct {
		t *itf.Trace
		i int
	}
	var items []item
	for _, f := range a.Files {
		t := itf.MustRead(f)
		r.Trace(len(t.States))
		for i := range t.States {
			if itf.Str(t.Event(i)["op"]) != "init" {
				items = append(items, item{t, i})
			}
		}
	}
	r.Parallel(len(items), func(k int) {
		it := items[k]
		e := it.t.Event(it.i)
		var b strings.Builder
		ed := itf.Rec(e["edit"])
		how := itf.Int(ed["how"]).Int64()
		var texts []int
		for j, tok := range itf.List(e["toks"]) {
			// (the space between the numbers of a list carries no meaning)
			if s := itf.Str(itf.Rec(tok)["s"]); s != ", " && !strings.HasPrefix(s, "#") {
				texts = append(texts, j)
			}
		}
		spot := -1
		if len(texts) > 0 {
			spot = texts[int(itf.Int(ed["tok"]).Int64())%len(texts)]
		}
		for j, tok := range itf.List(e["toks"]) {
			m := itf.Rec(tok)
			s := itf.Str(m["s"])
			switch {
			case s == "#":
				s = itf.Int(m["n"]).String()
			case s == "#0":
				s = "0" + itf.Int(m["n"]).String()
			case how != 0 && j == spot:
				s = misspell(s, how, int(itf.Int(ed["at"]).Int64()), itf.Str(ed["ch"]))
			}
			b.WriteString(s)
		}
		id := b.String()
		op := itf.Str(e["op"])
		r.Count(op, 1)
		r.Run(asks)
		if !itf.Bool(e["known"]) {
			r.Adv(1)
			for n := 0; n < asks; n++ {
				if g, err := instance(id); err == nil {
					r.Violate(it.t.File, it.i, "the text %q names no supported gate but is taken for %T (%s)", id, g, g.Id())
					return
				}
			}
			o := engine.New(engine.Native).Run(func(api frontend.API) {
				var cd types.CommonCircuitData
				cd.GateIds = []string{"NoopGate", id}
				cd.SelectorsInfo = *gates.NewSelectorsInfo([]uint64{0, 0}, []uint64{0}, []uint64{2})
				plonk.NewPlonkChip(api, cd)
			})
			if o.Sat() {
				r.Violate(it.t.File, it.i, "a circuit with the unsupported gate %q is not refused", id)
			}
			return
		}
		for n := 0; n < asks; n++ {
			g, err := instance(id)
			if err != nil && op == "respelt" {
				continue
			}
			if err != nil {
				r.Violate(it.t.File, it.i, "the supported gate %q is refused: %v", id, err)
				return
			}
			if (op != "named" && op != "respelt") || n > 2 {
				continue
			}
			want := itf.Ints(e["out"])
			bad := ""
			o := engine.New(engine.Native).Run(func(api frontend.API) {
				out := flat(g.EvalUnfiltered(api, gl.New(api), *gates.NewEvaluationVars(exts(frs(itf.Ints(e["consts"]))), exts(frs(itf.Ints(e["wires"]))), hash(frs(itf.Ints(e["pih"]))))))
				if len(out) != len(want) {
					bad = fmt.Sprintf("%d constraints instead of %d", len(out)/2, len(want)/2)
					return
				}
				for j := range out {
					if engine.Big(out[j]).Cmp(want[j]) != 0 {
						bad = fmt.Sprintf("constraint %d = %s instead of %s", j/2, engine.Big(out[j]), want[j])
						return
					}
				}
			})
			if bad == "" && !o.Sat() {
				bad = o.Kind + " " + o.Msg
			}
			if bad != "" {
				r.Violate(it.t.File, it.i, "%q is taken for %T, which does not behave like the gate of that name: %s", id, g, bad)
				return
			}
		}
	})
}
