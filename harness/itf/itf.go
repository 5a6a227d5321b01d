// Package itf reads Informal Trace Format traces written by `quint run --out-itf`.
package itf

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
)

type Trace struct {
	File   string
	States []map[string]any
}

func Read(file string) (*Trace, error) {
	raw, err := os.ReadFile(file)
	if err != nil {
		return nil, err
	}
	var t struct {
		States []map[string]any `json:"states"`
	}
	d := json.NewDecoder(bytes.NewReader(raw))
	d.UseNumber()
	if err := d.Decode(&t); err != nil {
		return nil, fmt.Errorf("%s: %w", file, err)
	}
	return &Trace{File: file, States: t.States}, nil
}

func MustRead(file string) *Trace {
	t, err := Read(file)
	if err != nil {
		panic(err)
	}
	return t
}

func Int(v any) *big.Int {
	switch x := v.(type) {
	case json.Number:
		r, ok := new(big.Int).SetString(x.String(), 10)
		if !ok {
			panic("bad int " + x.String())
		}
		return r
	case map[string]any:
		if s, ok := x["#bigint"].(string); ok {
			r, ok := new(big.Int).SetString(s, 10)
			if !ok {
				panic("bad int " + s)
			}
			return r
		}
	}
	panic(fmt.Sprintf("not an int: %v", v))
}

func I(v any) int {
	x := Int(v)
	if !x.IsInt64() {
		panic("int out of range")
	}
	return int(x.Int64())
}

func List(v any) []any {
	switch x := v.(type) {
	case []any:
		return x
	case map[string]any:
		for _, k := range []string{"#tup", "#set"} {
			if l, ok := x[k].([]any); ok {
				return l
			}
		}
	}
	panic(fmt.Sprintf("not a list: %v", v))
}

func Ints(v any) []*big.Int {
	l := List(v)
	r := make([]*big.Int, len(l))
	for i := range l {
		r[i] = Int(l[i])
	}
	return r
}

func Idx(v any) []int {
	l := List(v)
	r := make([]int, len(l))
	for i := range l {
		r[i] = I(l[i])
	}
	return r
}

// Flat returns all integers inside a nested list/tuple structure, in order.
func Flat(v any) []*big.Int {
	switch x := v.(type) {
	case json.Number:
		return []*big.Int{Int(x)}
	case map[string]any:
		if _, ok := x["#bigint"]; ok {
			return []*big.Int{Int(x)}
		}
	}
	var r []*big.Int
	for _, y := range List(v) {
		r = append(r, Flat(y)...)
	}
	return r
}

func Rec(v any) map[string]any { return v.(map[string]any) }
func Str(v any) string         { return v.(string) }
func Bool(v any) bool          { return v.(bool) }

// Map returns the pairs of an ITF map.
func Map(v any) [][2]any {
	l := v.(map[string]any)["#map"].([]any)
	r := make([][2]any, len(l))
	for i := range l {
		p := List(l[i])
		r[i] = [2]any{p[0], p[1]}
	}
	return r
}

// Event returns the `ev` record of state i.
func (t *Trace) Event(i int) map[string]any { return Rec(t.States[i]["ev"]) }
