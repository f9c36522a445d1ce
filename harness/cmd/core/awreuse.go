package main

import (
	"fmt"
	"net"
	"reflect"

	"verif/harness/model"
	"verif/harness/pbt"

	"github.com/qiniu/uip/db/format/awdb"
	"pgregory.net/rapid"
)

// Structures of one name. Each is declared in a function of its own, their fields and tags differ.

func recA() any {
	type rec struct {
		A string   `awdb:"a"`
		B string   `awdb:"b"`
		L []string `awdb:"l"`
	}
	return new(rec)
}

func recB() any {
	type rec struct {
		X string   `awdb:"b"`
		L []string `awdb:"l"`
		Y string   `awdb:"a"`
	}
	return new(rec)
}

func recC() any {
	type rec struct {
		B string
		A string `awdb:"-"`
		C uint64 `awdb:"c"`
	}
	return new(rec)
}

func recD() any {
	type rec struct {
		C uint32 `awdb:"c"`
	}
	return new(rec)
}

type EmbeddedD struct {
	D    string `awdb:"d"`
	Deep struct {
		A string `awdb:"a"`
	} `awdb:"deep"`
}

type embeddedB struct {
	B string `awdb:"b"`
}

func recE() any {
	type rec struct {
		*EmbeddedD
		embeddedB
		A *string `awdb:"a"`
	}
	return new(rec)
}

func recF() any {
	type rec struct {
		*embeddedB
		A string `awdb:"a"`
	}
	return new(rec)
}

var namedRecs = []func() any{recA, recB, recC, recD, recE, recF}

// fieldsOf gives what a structure must hold, by its tags.
func fillStatic(v reflect.Value, m model.Val) {
	t := v.Type()
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		if f.Anonymous {
			if f.Type.Kind() == reflect.Pointer {
				v.Field(i).Set(reflect.New(f.Type.Elem()))
				fillStatic(v.Field(i).Elem(), m)
			} else {
				fillStatic(v.Field(i), m)
			}
			continue
		}
		key := f.Tag.Get("awdb")
		if key == "-" {
			continue
		}
		if key == "" {
			key = f.Name
		}
		for _, kv := range m.M {
			if kv.K == key {
				fillValue(v.Field(i), kv.V)
			}
		}
	}
}

func fillValue(v reflect.Value, x model.Val) {
	switch v.Kind() {
	case reflect.Pointer:
		v.Set(reflect.New(v.Type().Elem()))
		fillValue(v.Elem(), x)
	case reflect.String:
		v.SetString(x.S)
	case reflect.Uint64, reflect.Uint32, reflect.Uint16:
		v.SetUint(x.Num().Uint64())
	case reflect.Int64, reflect.Int:
		v.SetInt(x.Num().Int64())
	case reflect.Float64:
		v.SetFloat(x.F)
	case reflect.Bool:
		v.SetBool(x.B)
	case reflect.Slice:
		if x.T == "bytes" {
			v.SetBytes([]byte(x.S))
			return
		}
		v.Set(reflect.MakeSlice(v.Type(), len(x.L), len(x.L)))
		for i := range x.L {
			fillValue(v.Index(i), x.L[i])
		}
	case reflect.Struct:
		fillStatic(v, x)
	default:
		panic(v.Kind())
	}
}

type namedCase struct {
	Recs  []model.Val `json:"recs"`
	Order [][2]int    `json:"order"` // structure, record
}

func genNamed(t *rapid.T) namedCase {
	var k namedCase
	str := func(label string) model.Val {
		return model.Val{T: "str", S: rapid.SampledFrom([]string{"", "x", "中国", "yy", "long enough to be told apart"}).Draw(t, label), P: genPtr(t, "p")}
	}
	for i := rapid.IntRange(1, 3).Draw(t, "nrecs"); i > 0; i-- {
		m := model.Val{T: "map"}
		for _, key := range rapid.Permutation([]string{"a", "b", "B", "c", "d", "l", "deep", "A"}).Draw(t, "keys")[:rapid.IntRange(1, 8).Draw(t, "nkeys")] {
			v := str("text")
			switch key {
			case "c":
				v = model.Val{T: "u32", S: fmt.Sprint(rapid.Uint32().Draw(t, "c"))}
			case "l":
				v = model.Val{T: "list"}
				for j := rapid.IntRange(0, 4).Draw(t, "len"); j > 0; j-- {
					v.L = append(v.L, str("elem"))
				}
			case "deep":
				v = model.Val{T: "map", M: []model.KV{{K: "a", V: str("deep")}}}
			}
			m.M = append(m.M, model.KV{K: key, KP: genPtr(t, "kp"), V: v})
		}
		k.Recs = append(k.Recs, m)
	}
	for i := rapid.IntRange(2, 8).Draw(t, "steps"); i > 0; i-- {
		k.Order = append(k.Order, [2]int{rapid.IntRange(0, len(namedRecs)-1).Draw(t, "structure"), rapid.IntRange(0, len(k.Recs)-1).Draw(t, "record")})
	}
	return k
}

func awRecs(recs []model.Val) ([]byte, func(int) net.IP) {
	a := model.Awdb{RecordSize: 28}
	for i, r := range recs {
		a.Records = append(a.Records, r)
		a.Nets = append(a.Nets, fmt.Sprintf("%d.0.0.0/8", i+1))
		a.Rec = append(a.Rec, i)
	}
	return a.Bytes(), func(i int) net.IP { return net.IPv4(byte(i+1), 1, 1, 1) }
}

func checkNamed(c *pbt.Ctx, k namedCase) error {
	b, ip := awRecs(k.Recs)
	r, err := awdb.FromBytes(b)
	if err != nil {
		return pbt.Violationf("loading fails: %v", err)
	}
	kinds := map[int]bool{}
	for n, o := range k.Order {
		got := namedRecs[o[0]]()
		if p := pbt.Try(func() { err = r.Lookup(ip(o[1]), got) }); p != nil {
			return pbt.Violationf("step %d: decoding %.300v into structure %c: %v", n, k.Recs[o[1]], 'A'+o[0], p)
		}
		if o[0] == 5 {
			// an embedded pointer to a hidden structure cannot be set: an error, as long as the rest is right
			if err != nil {
				c.Class("refused")
				continue
			}
		}
		if err != nil {
			return pbt.Violationf("step %d: decoding %.300v into structure %c: %v", n, k.Recs[o[1]], 'A'+o[0], err)
		}
		if o[0] == 5 {
			continue
		}
		want := namedRecs[o[0]]()
		fillStatic(reflect.ValueOf(want).Elem(), k.Recs[o[1]])
		if !equalRec(reflect.ValueOf(got).Elem(), reflect.ValueOf(want).Elem()) {
			return pbt.Violationf("step %d: decoding %.300v into structure %c gives %s, expected %s", n, k.Recs[o[1]], 'A'+o[0], show(got), show(want))
		}
		kinds[o[0]] = true
	}
	if len(kinds) > 1 {
		c.NonTrivial()
	}
	return nil
}

func show(x any) string {
	v := reflect.ValueOf(x).Elem()
	s := "{"
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		for f.Kind() == reflect.Pointer && !f.IsNil() {
			f = f.Elem()
		}
		s += fmt.Sprintf("%s:%v ", v.Type().Field(i).Name, f)
	}
	return s + "}"
}

// equalRec compares; an empty list equals none, an embedded pointer may stay nil if it would hold nothing.
func equalRec(a, b reflect.Value) bool {
	switch a.Kind() {
	case reflect.Pointer:
		if a.IsNil() || b.IsNil() {
			return (a.IsNil() || a.Elem().IsZero()) && (b.IsNil() || b.Elem().IsZero())
		}
		return equalRec(a.Elem(), b.Elem())
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !equalRec(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Slice:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !equalRec(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.String:
		return a.String() == b.String()
	case reflect.Bool:
		return a.Bool() == b.Bool()
	case reflect.Float64:
		return a.Float() == b.Float()
	case reflect.Int64, reflect.Int:
		return a.Int() == b.Int()
	}
	return a.Uint() == b.Uint()
}

// A destination used again.

type ReusePart struct {
	Name string   `awdb:"name"`
	Tags []string `awdb:"tags"`
	N    uint32   `awdb:"n"`
}

type reuseRec struct {
	ReusePart
	Text  string      `awdb:"text"`
	Raw   []byte      `awdb:"raw"`
	Big   uint64      `awdb:"big"`
	Small int         `awdb:"small"`
	On    bool        `awdb:"on"`
	F     float64     `awdb:"f"`
	Ptr   *string     `awdb:"ptr"`
	Parts []ReusePart `awdb:"parts"`
	Nums  []uint16    `awdb:"nums"`
	Lists [][]string  `awdb:"lists"`
	In    *ReusePart  `awdb:"in"`
}

type reuseCase struct {
	Recs []model.Val `json:"recs"`
	Raw  []string    `json:"raw"`
}

func genReuse(t *rapid.T) reuseCase {
	var k reuseCase
	str := func() model.Val {
		return model.Val{T: "str", S: rapid.SampledFrom([]string{"", "x", "中国", "yy", "zzz"}).Draw(t, "s"), P: genPtr(t, "p")}
	}
	list := func(f func() model.Val) model.Val {
		v := model.Val{T: "list", P: genPtr(t, "p")}
		for j := rapid.IntRange(0, 4).Draw(t, "len"); j > 0; j-- {
			v.L = append(v.L, f())
		}
		return v
	}
	part := func() model.Val {
		return model.Val{T: "map", P: genPtr(t, "p"), M: []model.KV{{K: "name", V: str()}, {K: "tags", V: list(str)}, {K: "n", V: model.Val{T: "u32", S: fmt.Sprint(rapid.IntRange(0, 3).Draw(t, "n"))}}}}
	}
	for i := rapid.IntRange(2, 4).Draw(t, "nrecs"); i > 0; i-- {
		m := part().M
		m = append(m, model.KV{K: "text", V: str()}, model.KV{K: "raw", V: model.Val{T: "bytes", S: rapid.SampledFrom([]string{"", "raw", "bytes and more"}).Draw(t, "raw"), P: genPtr(t, "p")}},
			model.KV{K: "big", V: model.Val{T: "u64", S: rapid.SampledFrom([]string{"0", "1", "18446744073709551615"}).Draw(t, "big")}},
			model.KV{K: "small", V: model.Val{T: "i32", S: rapid.SampledFrom([]string{"0", "-1", "7"}).Draw(t, "small")}},
			model.KV{K: "on", V: model.Val{T: "bool", B: rapid.Bool().Draw(t, "on")}},
			model.KV{K: "f", V: model.Val{T: "f64", F: rapid.SampledFrom([]float64{0, 1.5, -3}).Draw(t, "f")}},
			model.KV{K: "ptr", V: str()}, model.KV{K: "parts", V: list(part)},
			model.KV{K: "nums", V: list(func() model.Val {
				return model.Val{T: "u16", S: fmt.Sprint(rapid.IntRange(0, 9).Draw(t, "num"))}
			})},
			model.KV{K: "lists", V: list(func() model.Val { return list(str) })}, model.KV{K: "in", V: part()})
		m = rapid.Permutation(m).Draw(t, "order")
		k.Recs = append(k.Recs, model.Val{T: "map", M: m})
	}
	return k
}

func checkReuse(c *pbt.Ctx, k reuseCase) error {
	b, ip := awRecs(k.Recs)
	r, err := awdb.FromBytes(b)
	if err != nil {
		return pbt.Violationf("loading fails: %v", err)
	}
	var dst reuseRec
	var generic []any
	for round := 0; round < 2; round++ {
		for i := range k.Recs {
			var want reuseRec
			fillStatic(reflect.ValueOf(&want).Elem(), k.Recs[i])
			if p := pbt.Try(func() { err = r.Lookup(ip(i), &dst) }); p != nil {
				return p
			}
			if err != nil {
				return pbt.Violationf("decoding record %d into a structure used before fails: %v", i, err)
			}
			if !equalRec(reflect.ValueOf(dst), reflect.ValueOf(want)) {
				return pbt.Violationf("decoding record %d into a structure used before gives %+v, stored %+v", i, dst, want)
			}
			// what the caller does with it does not reach the database
			for j := range dst.Raw {
				dst.Raw[j] ^= 0xff
			}
			var x any
			if p := pbt.Try(func() { err = r.Lookup(ip(i), &x) }); p != nil {
				return p
			}
			if err != nil {
				return pbt.Violationf("decoding record %d: %v", i, err)
			}
			if e := sameAny(k.Recs[i], x); e != nil {
				return pbt.Violationf("record %d after changing bytes of a result: %v", i, e)
			}
			spoil(x)
			generic = append(generic, x)
		}
	}
	_ = generic
	c.NonTrivial()
	return nil
}

// spoil changes all bytes of a generic result.
func spoil(x any) {
	switch x := x.(type) {
	case []byte:
		for i := range x {
			x[i] ^= 0xff
		}
	case []any:
		for i := range x {
			spoil(x[i])
			x[i] = nil
		}
	case map[string]any:
		for k, v := range x {
			spoil(v)
			x[k] = 5
		}
	}
}

func init() {
	pbt.Register("Q06", "named", pbt.Options{
		Rule:  "records decoded one after the other into different structures of the same name, embedded pointers and hidden embedded structures among them; non-trivial: at least two structures are filled",
		Quick: 4000, Thorough: 100000,
	}, genNamed, checkNamed)
	pbt.Register("Q06", "reuse", pbt.Options{
		Rule:  "complete records decoded one after the other into the same structure (no maps), results changed by the caller between the lookups; non-trivial: always",
		Quick: 3000, Thorough: 100000,
	}, genReuse, checkReuse)
}
