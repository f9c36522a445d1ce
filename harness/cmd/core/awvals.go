package main

import (
	"bytes"
	"fmt"
	"math"
	"math/big"
	"net"
	"reflect"
	"strconv"
	"strings"

	"verif/harness/model"
	"verif/harness/pbt"

	"github.com/qiniu/uip/db/format/awdb"
	"pgregory.net/rapid"
)

// typ describes a Go type a value is decoded into.
type typ struct {
	K      string  `json:"k"`
	Elem   *typ    `json:"e,omitempty"`
	Fields []field `json:"f,omitempty"`
}

type field struct {
	Key string `json:"key"`
	T   typ    `json:"t"`
}

var basic = map[string]reflect.Type{
	"complex": reflect.TypeOf(complex(1, 1)), "chan": reflect.TypeOf((chan string)(nil)), "func": reflect.TypeOf(func() {}),
	"array": reflect.TypeOf([3]uint8{}), "texts": reflect.TypeOf([2]string{}),
	"string": reflect.TypeOf(""), "bytes": reflect.TypeOf([]byte(nil)), "bool": reflect.TypeOf(false),
	"int": reflect.TypeOf(int(0)), "int8": reflect.TypeOf(int8(0)), "int16": reflect.TypeOf(int16(0)), "int32": reflect.TypeOf(int32(0)), "int64": reflect.TypeOf(int64(0)),
	"uint": reflect.TypeOf(uint(0)), "uint8": reflect.TypeOf(uint8(0)), "uint16": reflect.TypeOf(uint16(0)), "uint32": reflect.TypeOf(uint32(0)), "uint64": reflect.TypeOf(uint64(0)),
	"float32": reflect.TypeOf(float32(0)), "float64": reflect.TypeOf(float64(0)), "bigint": reflect.TypeOf(big.Int{}), "uintptr": reflect.TypeOf(uintptr(0)),
	"any": reflect.TypeOf((*any)(nil)).Elem(), "intmap": reflect.TypeOf(map[int]string(nil)), "stringer": reflect.TypeOf((*fmt.Stringer)(nil)).Elem(),
}

func (ty typ) goType() reflect.Type {
	switch ty.K {
	case "ptr":
		return reflect.PointerTo(ty.Elem.goType())
	case "slice":
		return reflect.SliceOf(ty.Elem.goType())
	case "map":
		return reflect.MapOf(basic["string"], ty.Elem.goType())
	case "struct":
		var fs []reflect.StructField
		for i, f := range ty.Fields {
			fs = append(fs, reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: f.T.goType(), Tag: reflect.StructTag("awdb:" + strconv.Quote(f.Key))})
		}
		return reflect.StructOf(fs)
	}
	return basic[ty.K]
}

var intRange = map[string][2]string{
	"int": {"-9223372036854775808", "9223372036854775807"}, "int64": {"-9223372036854775808", "9223372036854775807"}, "int32": {"-2147483648", "2147483647"},
	"int16": {"-32768", "32767"}, "int8": {"-128", "127"}, "uint": {"0", "18446744073709551615"}, "uint64": {"0", "18446744073709551615"},
	"uint32": {"0", "4294967295"}, "uint16": {"0", "65535"}, "uint8": {"0", "255"},
}

func inRange(n *big.Int, kind string) bool {
	r, ok := intRange[kind]
	if !ok {
		return false
	}
	lo, _ := new(big.Int).SetString(r[0], 10)
	hi, _ := new(big.Int).SetString(r[1], 10)
	return n.Cmp(lo) >= 0 && n.Cmp(hi) <= 0
}

// fits tells whether a value has a representation in a type.
func fits(v model.Val, ty typ) bool {
	switch ty.K {
	case "any", "uintptr":
		return true
	case "ptr":
		return fits(v, *ty.Elem)
	}
	switch v.T {
	case "str":
		return ty.K == "string"
	case "bytes":
		return ty.K == "bytes" || ty.K == "slice" && ty.Elem.K == "uint8"
	case "u16", "u32", "u64", "i32":
		return inRange(v.Num(), ty.K)
	case "u128":
		return ty.K == "bigint"
	case "f32":
		return ty.K == "float32" || ty.K == "float64"
	case "f64":
		return ty.K == "float64" || ty.K == "float32" && (math.IsInf(v.F, 0) || math.IsNaN(v.F) || math.Abs(v.F) <= math.MaxFloat32)
	case "bool":
		return ty.K == "bool"
	case "list":
		if ty.K == "bytes" { // a list of small numbers
			ty = typ{K: "slice", Elem: &typ{K: "uint8"}}
		}
		if ty.K != "slice" {
			return false
		}
		for _, x := range v.L {
			if !fits(x, *ty.Elem) {
				return false
			}
		}
		return true
	case "map":
		if ty.K == "intmap" {
			return false
		}
		if ty.K == "map" {
			for _, kv := range v.M {
				if !fits(kv.V, *ty.Elem) {
					return false
				}
			}
			return true
		}
		if ty.K == "bigint" {
			return true // a structure without fields
		}
		if ty.K != "struct" {
			return false
		}
		for _, f := range ty.Fields {
			for _, kv := range v.M {
				if kv.K == f.Key && !fits(kv.V, f.T) {
					return false
				}
			}
		}
		return true
	}
	panic(v.T)
}

func sameFloat(a, b float64) bool { return a == b || math.IsNaN(a) && math.IsNaN(b) }

// sameAny compares a generic result.
func sameAny(v model.Val, x any) error {
	bad := func() error { return fmt.Errorf("got %T %.300v, stored %s %.300v", x, x, v.T, v) }
	switch v.T {
	case "str":
		if s, ok := x.(string); ok && s == v.S {
			return nil
		}
		if b, ok := x.([]byte); ok && string(b) == v.S {
			return nil
		}
	case "bytes":
		if b, ok := x.([]byte); ok && string(b) == v.S {
			return nil
		}
	case "u16", "u32", "u64", "i32":
		rv := reflect.ValueOf(x)
		switch {
		case !rv.IsValid():
		case rv.CanInt() && big.NewInt(rv.Int()).Cmp(v.Num()) == 0, rv.CanUint() && new(big.Int).SetUint64(rv.Uint()).Cmp(v.Num()) == 0:
			return nil
		}
	case "u128":
		switch n := x.(type) {
		case *big.Int:
			if n.Cmp(v.Num()) == 0 {
				return nil
			}
		case big.Int:
			if n.Cmp(v.Num()) == 0 {
				return nil
			}
		}
	case "f32":
		switch f := x.(type) {
		case float32:
			if sameFloat(float64(f), float64(float32(v.F))) {
				return nil
			}
		case float64:
			if sameFloat(f, float64(float32(v.F))) {
				return nil
			}
		}
	case "f64":
		if f, ok := x.(float64); ok && sameFloat(f, v.F) {
			return nil
		}
	case "bool":
		if b, ok := x.(bool); ok && b == v.B {
			return nil
		}
	case "list":
		l, ok := x.([]any)
		if ok && len(l) == len(v.L) {
			for i := range l {
				if err := sameAny(v.L[i], l[i]); err != nil {
					return fmt.Errorf("[%d]: %v", i, err)
				}
			}
			return nil
		}
	case "map":
		m, ok := x.(map[string]any)
		if ok && len(m) == len(v.M) {
			for _, kv := range v.M {
				y, ok := m[kv.K]
				if !ok {
					return fmt.Errorf("key %.50q is missing", kv.K)
				}
				if err := sameAny(kv.V, y); err != nil {
					return fmt.Errorf("[%.50q]: %v", kv.K, err)
				}
			}
			return nil
		}
	}
	return bad()
}

// same compares a result of a fitting type.
func same(r *awdb.Reader, v model.Val, ty typ, got reflect.Value) error {
	bad := func() error { return fmt.Errorf("got %v %.300v, stored %s %.300v", got.Type(), got, v.T, v) }
	check := func(ok bool) error {
		if ok {
			return nil
		}
		return bad()
	}
	switch ty.K {
	case "any":
		return sameAny(v, got.Interface())
	case "ptr":
		if got.IsNil() {
			return bad()
		}
		return same(r, v, *ty.Elem, got.Elem())
	case "uintptr":
		var x any
		if err := r.Decode(uintptr(got.Uint()), &x); err != nil {
			return fmt.Errorf("the offset %d of a value cannot be decoded: %v", got.Uint(), err)
		}
		return sameAny(v, x)
	case "string":
		return check(got.String() == v.S)
	case "bytes":
		if v.T == "list" {
			ty = typ{K: "slice", Elem: &typ{K: "uint8"}}
			return same(r, v, ty, got)
		}
		return check(bytes.Equal(got.Bytes(), []byte(v.S)))
	case "bool":
		return check(got.Bool() == v.B)
	case "bigint":
		n := got.Interface().(big.Int)
		if v.T == "map" {
			return check(n.Sign() == 0)
		}
		return check(n.Cmp(v.Num()) == 0)
	case "float32":
		return check(sameFloat(got.Float(), float64(float32(v.F))))
	case "float64":
		w := v.F
		if v.T == "f32" {
			w = float64(float32(v.F))
		}
		return check(sameFloat(got.Float(), w))
	case "slice":
		if v.T == "bytes" {
			return check(bytes.Equal(got.Bytes(), []byte(v.S)))
		}
		if got.Len() != len(v.L) {
			return bad()
		}
		for i, x := range v.L {
			if err := same(r, x, *ty.Elem, got.Index(i)); err != nil {
				return fmt.Errorf("[%d]: %v", i, err)
			}
		}
		return nil
	case "map":
		if got.Len() != len(v.M) {
			return bad()
		}
		for _, kv := range v.M {
			g := got.MapIndex(reflect.ValueOf(kv.K))
			if !g.IsValid() {
				return fmt.Errorf("key %.50q is missing", kv.K)
			}
			if err := same(r, kv.V, *ty.Elem, g); err != nil {
				return fmt.Errorf("[%.50q]: %v", kv.K, err)
			}
		}
		return nil
	case "struct":
		for i, f := range ty.Fields {
			known := false
			for _, kv := range v.M {
				if kv.K == f.Key {
					known = true
					if err := same(r, kv.V, f.T, got.Field(i)); err != nil {
						return fmt.Errorf("field %.50q: %v", f.Key, err)
					}
				}
			}
			if !known && !got.Field(i).IsZero() {
				return fmt.Errorf("field %.50q is not in the record but set to %v", f.Key, got.Field(i))
			}
		}
		return nil
	}
	if got.CanInt() {
		return check(big.NewInt(got.Int()).Cmp(v.Num()) == 0)
	}
	return check(new(big.Int).SetUint64(got.Uint()).Cmp(v.Num()) == 0)
}

// values

type typVal struct {
	Box   bool      `json:"box,omitempty"`
	Val   model.Val `json:"val"`
	Types []typ     `json:"types"`
}

type valsCase struct {
	RS   int      `json:"rs"`
	Pad  int      `json:"pad"`
	Recs []typVal `json:"recs"`
}

type valGen struct {
	t    *rapid.T
	pool []model.Val
	n    int
}

var numPool = map[string][]string{
	"u16":  {"0", "1", "255", "256", "65535", "127", "128", "32768"},
	"u32":  {"0", "1", "255", "65536", "16777215", "16777216", "4294967295", "2147483648", "2147483647"},
	"u64":  {"0", "1", "255", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615", "72057594037927936"},
	"u128": {"0", "1", "18446744073709551616", "340282366920938463463374607431768211455", "170141183460469231731687303715884105728", "256"},
	"i32":  {"0", "1", "-1", "127", "-128", "128", "-129", "32768", "-32769", "2147483647", "-2147483648", "255", "65535", "16777216"},
}

func (g *valGen) str(label string) string {
	switch rapid.IntRange(0, 24).Draw(g.t, label) {
	case 0:
		return strings.Repeat("x", rapid.SampledFrom([]int{27, 28, 29, 30, 284, 285, 286, 300, 541, 1100}).Draw(g.t, "len"))
	case 1:
		if rapid.IntRange(0, 5).Draw(g.t, "huge") == 0 {
			return strings.Repeat("y", rapid.SampledFrom([]int{65820, 65821, 65822, 66100}).Draw(g.t, "len"))
		}
	case 2:
		return ""
	case 3:
		return "\x00\xff\xfe\t\n" // not UTF-8: stays out of JSON keys, see clean
	}
	return rapid.SampledFrom([]string{"a", "b", "中国", "city", "isp", "x y", "-", "F0", "names", "q\"q"}).Draw(g.t, "s")
}

func (g *valGen) key(used map[string]bool) string {
	for {
		k := strings.ToValidUTF8(g.str("key"), "?")
		if !used[k] {
			used[k] = true
			return k
		}
		k += fmt.Sprint(len(used))
		if !used[k] {
			used[k] = true
			return k
		}
	}
}

func (g *valGen) val(depth int) model.Val {
	t := g.t
	g.n++
	if len(g.pool) > 0 && rapid.IntRange(0, 3).Draw(t, "again") == 0 {
		v := g.pool[rapid.IntRange(0, len(g.pool)-1).Draw(t, "which")]
		v.P = 1 + genPtr(t, "ptr")%4
		return v
	}
	kinds := []string{"str", "bytes", "u16", "u32", "u64", "u128", "i32", "f32", "f64", "bool"}
	if depth > 0 && g.n < 60 {
		kinds = append(kinds, "map", "map", "map", "list", "list", "list")
	}
	v := model.Val{T: rapid.SampledFrom(kinds).Draw(t, "kind"), P: genPtr(t, "share"), Full: rapid.Bool().Draw(t, "full")}
	switch v.T {
	case "str", "bytes":
		v.S = strings.ToValidUTF8(g.str("text"), "?")
	case "f32", "f64":
		v.F = rapid.SampledFrom([]float64{0, 1, -1.5, 0.1, 1e300, 3.5e38, -3.5e38, 3.4e38, 1e-40, 5e-324, 120.581963}).Draw(t, "f")
		if v.T == "f32" {
			v.F = float64(float32(math.Mod(v.F, 1e30)))
		}
	case "bool":
		v.B = rapid.Bool().Draw(t, "b")
	case "map":
		used := map[string]bool{}
		homo := rapid.Bool().Draw(t, "homo")
		var first model.Val
		for i := rapid.IntRange(0, 5).Draw(t, "size"); i > 0; i-- {
			x := g.like(first, homo && len(v.M) > 0, depth-1)
			if len(v.M) == 0 {
				first = x
			}
			v.M = append(v.M, model.KV{K: g.key(used), KP: genPtr(t, "keyptr"), V: x})
		}
		if rapid.IntRange(0, 30).Draw(t, "bigmap") == 0 {
			for i := 0; i < 290; i++ {
				v.M = append(v.M, model.KV{K: fmt.Sprint("k", i), KP: 1, V: model.Val{T: "u16", S: fmt.Sprint(i), P: 1}})
			}
		}
	case "list":
		homo := rapid.Bool().Draw(t, "homo")
		var first model.Val
		for i := rapid.IntRange(0, 5).Draw(t, "size"); i > 0; i-- {
			x := g.like(first, homo && len(v.L) > 0, depth-1)
			if len(v.L) == 0 {
				first = x
			}
			v.L = append(v.L, x)
		}
		if rapid.IntRange(0, 30).Draw(t, "biglist") == 0 {
			for i := rapid.SampledFrom([]int{23, 24, 25, 30, 280, 290, 600}).Draw(t, "n"); i > 0; i-- {
				v.L = append(v.L, model.Val{T: "u16", S: fmt.Sprint(i)})
			}
		}
	default:
		v.S = rapid.SampledFrom(numPool[v.T]).Draw(t, "num")
	}
	if len(g.pool) < 20 {
		g.pool = append(g.pool, v)
	}
	return v
}

// like draws a value of the type of another one (for lists and maps of one type).
func (g *valGen) like(f model.Val, on bool, depth int) model.Val {
	if !on {
		return g.val(depth)
	}
	switch f.T {
	case "map": // some of the same keys
		v := model.Val{T: "map", P: genPtr(g.t, "share")}
		for _, kv := range f.M {
			if len(v.M) < 8 && rapid.IntRange(0, 2).Draw(g.t, "keep") > 0 {
				kv.V = g.like(kv.V, true, depth-1)
				v.M = append(v.M, kv)
			}
		}
		if rapid.Bool().Draw(g.t, "more") {
			used := map[string]bool{}
			for _, kv := range v.M {
				used[kv.K] = true
			}
			v.M = append(v.M, model.KV{K: g.key(used), V: g.val(0)})
		}
		return v
	case "list":
		v := model.Val{T: "list"}
		for _, x := range f.L {
			if len(v.L) < 8 && rapid.IntRange(0, 2).Draw(g.t, "keep") > 0 {
				v.L = append(v.L, g.like(x, true, depth-1))
			}
		}
		return v
	case "str", "bytes":
		f.S = strings.ToValidUTF8(g.str("text"), "?")
	case "bool":
		f.B = rapid.Bool().Draw(g.t, "b")
	case "f32", "f64":
		f.F = -f.F
	default:
		f.S = rapid.SampledFrom(numPool[f.T]).Draw(g.t, "num")
	}
	return f
}

var allKinds = []string{"string", "bytes", "bool", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "float32", "float64", "bigint", "any", "intmap", "stringer", "uintptr", "complex", "chan", "func", "array", "texts"}

// typeOf draws a type, usually one the value fits into.
func (g *valGen) typeOf(v model.Val, depth int) typ {
	t := g.t
	switch rapid.IntRange(0, 29).Draw(t, "typekind") {
	case 0:
		return typ{K: rapid.SampledFrom(allKinds).Draw(t, "other")}
	case 1, 2:
		return typ{K: "any"}
	case 3, 4:
		e := g.typeOf(v, depth)
		return typ{K: "ptr", Elem: &e}
	case 5:
		return typ{K: "uintptr"}
	case 6:
		e := typ{K: rapid.SampledFrom(allKinds).Draw(t, "other")}
		return typ{K: rapid.SampledFrom([]string{"map", "slice"}).Draw(t, "container"), Elem: &e}
	}
	switch v.T {
	case "str":
		return typ{K: "string"}
	case "bytes":
		return typ{K: "bytes"}
	case "u16", "u32", "u64", "i32":
		return typ{K: rapid.SampledFrom([]string{"int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "int64", "uint64"}).Draw(t, "int")}
	case "u128":
		return typ{K: "bigint"}
	case "f32", "f64":
		return typ{K: rapid.SampledFrom([]string{"float32", "float64"}).Draw(t, "float")}
	case "bool":
		return typ{K: "bool"}
	case "list":
		e := typ{K: "any"}
		if len(v.L) > 0 && depth > 0 {
			e = g.typeOf(v.L[rapid.IntRange(0, min(len(v.L)-1, 5)).Draw(t, "of")], depth-1)
		}
		return typ{K: "slice", Elem: &e}
	}
	if rapid.IntRange(0, 2).Draw(t, "asmap") == 0 || depth == 0 {
		e := typ{K: "any"}
		if len(v.M) > 0 && depth > 0 {
			e = g.typeOf(v.M[rapid.IntRange(0, min(len(v.M)-1, 5)).Draw(t, "of")].V, depth-1)
		}
		return typ{K: "map", Elem: &e}
	}
	s := typ{K: "struct"}
	if rapid.IntRange(0, 3).Draw(t, "extra") == 0 {
		s.Fields = append(s.Fields, field{"nosuch", typ{K: rapid.SampledFrom([]string{"string", "int", "any"}).Draw(t, "extratype")}})
	}
	for i, kv := range v.M {
		if i < 10 && kv.K != "" && kv.K != "-" && kv.K != "nosuch" && len(kv.K) < 100 && rapid.IntRange(0, 2).Draw(t, "field") > 0 {
			s.Fields = append(s.Fields, field{kv.K, g.typeOf(kv.V, depth-1)})
		}
	}
	if len(s.Fields) > 1 && rapid.Bool().Draw(t, "turn") {
		for i, j := 0, len(s.Fields)-1; i < j; i, j = i+1, j-1 {
			s.Fields[i], s.Fields[j] = s.Fields[j], s.Fields[i]
		}
	}
	return s
}

// tame keeps the type for offsets where it is defined: as a field or an element.
func tame(ty typ, inside bool) typ {
	switch ty.K {
	case "uintptr":
		if !inside {
			ty.K = "any"
		}
	case "ptr":
		e := tame(*ty.Elem, false)
		ty.Elem = &e
	case "slice", "map":
		e := tame(*ty.Elem, true)
		ty.Elem = &e
	case "struct":
		for i := range ty.Fields {
			ty.Fields[i].T = tame(ty.Fields[i].T, true)
		}
	}
	return ty
}

func genVals(t *rapid.T) valsCase {
	k := valsCase{RS: rapid.SampledFrom([]int{24, 28, 32}).Draw(t, "recordsize"), Pad: rapid.SampledFrom([]int{0, 0, 0, 0, 1, 2030, 2048, 3000, 65536, 526300, 526336, 530000}).Draw(t, "pad")}
	g := &valGen{t: t}
	for n := rapid.IntRange(1, 3).Draw(t, "nrecs"); n > 0; n-- {
		g.n = 0
		r := typVal{Val: g.val(rapid.IntRange(0, 4).Draw(t, "depth"))}
		if n == 1 && rapid.IntRange(0, 15).Draw(t, "deep") == 0 {
			for i := rapid.IntRange(1, 120).Draw(t, "levels"); i > 0; i-- {
				r.Val = model.Val{T: "list", L: []model.Val{r.Val}}
			}
		}
		for i := 0; i < 3; i++ {
			r.Types = append(r.Types, tame(g.typeOf(r.Val, 3), false))
		}
		r.Box = rapid.IntRange(0, 3).Draw(t, "box") == 0
		k.Recs = append(k.Recs, r)
	}
	return k
}

func (k valsCase) bytes() []byte {
	a := model.Awdb{RecordSize: k.RS, Pad: k.Pad}
	for i, r := range k.Recs {
		a.Records = append(a.Records, r.Val)
		a.Nets = append(a.Nets, fmt.Sprintf("%d.0.0.0/8", i+1))
		a.Rec = append(a.Rec, i)
	}
	return a.Bytes()
}

func checkQ06(c *pbt.Ctx, k valsCase) error {
	var r *awdb.Reader
	var err error
	b := k.bytes()
	if p := pbt.Try(func() { r, err = awdb.FromBytes(b) }); p != nil {
		return pbt.Violationf("loading: %v", p)
	}
	if err != nil {
		return pbt.Violationf("loading fails: %v", err)
	}
	for _, no := range []any{nil, 5, "", map[string]any{}, []any{1}, struct{ A string }{}, (*any)(nil), (*string)(nil), (*map[string]any)(nil)} {
		ip := net.IPv4(1, 2, 3, 4)
		for n, f := range []func(){func() { err = r.Lookup(ip, no) }, func() { _, _, err = r.LookupNetwork(ip, no) }, func() { err = r.Decode(0, no) }} {
			if p := pbt.Try(f); p != nil {
				return pbt.Violationf("decoding into %T (%d): %v", no, n, p)
			}
			if err == nil {
				return pbt.Violationf("decoding into %T (%d) gives no error, though it is no place for a value", no, n)
			}
		}
	}
	for i, rec := range k.Recs {
		ip := net.IPv4(byte(i+1), 2, 3, 4)
		for j, ty := range append([]typ{{K: "any"}}, rec.Types...) {
			var kind string
			rt := ty.goType()
			res := reflect.New(rt)
			dest := res.Interface()
			if j == 0 {
				// the result may hold anything before
				s, m := "old", map[string]any{"old": 1, "country": "old"}
				p := &s
				for _, x := range []any{nil, s, m, []any{1, "old", m}, []byte(s), 5, true, 1.5, (*string)(nil), p, &p, struct{ A any }{m}, func() {}}[(i+len(k.Recs)+len(b))%13:][:1] {
					if reflect.ValueOf(x).Kind() == reflect.Ptr && !reflect.ValueOf(x).IsNil() {
						continue // that is where the value goes
					}
					res.Elem().Set(reflect.ValueOf(&x).Elem())
				}
			}
			if rec.Box && j > 0 {
				// an interface that holds the pointer
				boxed := res.Interface()
				dest = &boxed
			}
			var n *net.IPNet
			found := true
			if p := pbt.Try(func() {
				switch (i + j) % 3 {
				case 0:
					kind = "Lookup"
					err = r.Lookup(ip, dest)
				case 1:
					kind = "LookupNetwork"
					n, found, err = r.LookupNetwork(ip, dest)
				default:
					kind = "LookupOffset and Decode"
					var off uintptr
					if off, err = r.LookupOffset(ip); err == nil {
						err = r.Decode(off, dest)
					}
				}
			}); p != nil {
				return pbt.Violationf("%s of the record %.500v into %v: %v", kind, rec.Val, rt, p)
			}
			if !found {
				return pbt.Violationf("%s does not find the record %.500v", kind, rec.Val)
			}
			if n != nil {
				if m, e := model.FromIPNet(n); e != nil || m.String() != fmt.Sprintf("%d.0.0.0/8", i+1) {
					return pbt.Violationf("%s gives the network %v (%v), stored under %d.0.0.0/8", kind, n, e, i+1)
				}
			}
			fit := fits(rec.Val, ty)
			if !fit {
				if err == nil {
					return pbt.Violationf("%s decodes %.500v into %v as %v, though it does not fit", kind, rec.Val, rt, res.Elem())
				}
				c.Class("misfit")
				continue
			}
			if err != nil {
				return pbt.Violationf("%s of %.500v into %v fails: %v", kind, rec.Val, rt, err)
			}
			var serr error
			if p := pbt.Try(func() { serr = same(r, rec.Val, ty, res.Elem()) }); p != nil {
				return p
			}
			if serr != nil {
				return pbt.Violationf("%s of %.500v into %v: %v", kind, rec.Val, rt, serr)
			}
			c.Class("%s into %s", rec.Val.T, ty.K)
		}
		if rec.Val.T == "map" || rec.Val.T == "list" {
			c.NonTrivial()
		}
	}
	return nil
}

// deepCase is a value nested far deeper than records are, up to the depth the reader allows.
type deepCase struct {
	Depth int    `json:"depth"`
	Kinds string `json:"kinds"` // l list, m map; repeated from the outside
	Share bool   `json:"share"` // through pointers where the encoder can
	Text  string `json:"text"`
}

func genDeep(t *rapid.T) deepCase {
	return deepCase{Depth: rapid.IntRange(1, 440).Draw(t, "depth"), Kinds: rapid.StringMatching("[lm]{1,5}").Draw(t, "kinds"), Share: rapid.Bool().Draw(t, "share"), Text: rapid.SampledFrom([]string{"", "x", "中国"}).Draw(t, "text")}
}

func checkDeep(c *pbt.Ctx, k deepCase) error {
	a := model.Awdb{RecordSize: 28}
	v := model.Str(k.Text)
	add := func() {
		a.Nets = append(a.Nets, fmt.Sprintf("%d.0.0.0/8", len(a.Nets)+1))
		a.Rec = append(a.Rec, len(a.Rec))
		a.Records = append(a.Records, v)
	}
	for i := k.Depth - 1; i >= 0; i-- {
		if k.Kinds[i%len(k.Kinds)] == 'l' {
			v = model.Val{T: "list", L: []model.Val{v}}
		} else {
			v = model.Val{T: "map", M: []model.KV{{K: "a", V: v}}}
		}
		if k.Share && i%8 == 0 && i > 0 && len(a.Nets) < 60 {
			v.P = 1 // stored here, and pointed to by what it is in
			add()
		}
	}
	add()
	r, err := awdb.FromBytes(a.Bytes())
	if err != nil {
		return pbt.Violationf("loading fails: %v", err)
	}
	var x any
	if p := pbt.Try(func() { err = r.Lookup(net.IPv4(byte(len(a.Nets)), 1, 1, 1), &x) }); p != nil {
		return pbt.Violationf("decoding a value of %d levels: %v", k.Depth, p)
	}
	if err != nil {
		return pbt.Violationf("decoding a value of %d levels (%s) fails: %v", k.Depth, k.Kinds, err)
	}
	if e := sameAny(v, x); e != nil {
		return pbt.Violationf("a value of %d levels (%s): %v", k.Depth, k.Kinds, e)
	}
	c.Class("depth %d", k.Depth/60*60)
	if k.Depth > 60 {
		c.NonTrivial()
	}
	return nil
}

// embedded, hidden and repeated things

type EmbeddedPlace struct {
	Country string `awdb:"country"`
	City    string `awdb:"city"`
}

type staticRec struct {
	ISP    string `awdb:"isp"`
	hidden string
	EmbeddedPlace
	Skip  string            `awdb:"-"`
	Line  *string           `awdb:"line"`
	Names map[string]string `awdb:"names"`
	Plain string
}

type staticCase struct {
	M    []model.KV `json:"m"`
	Size int        `json:"size"` // of a list to be skipped
	At   int        `json:"at"`
	Bad  string     `json:"bad,omitempty"` // a key whose value does not fit
}

func genStatic(t *rapid.T) staticCase {
	k := staticCase{Size: rapid.SampledFrom([]int{0, 0, 0, 0, 0, 5, 300, 70000}).Draw(t, "skipsize")}
	keys := []string{"country", "city", "isp", "Skip", "-", "line", "names", "Plain", "hidden", "EmbeddedPlace", "ISP", "Country", "", "other"}
	p := rapid.Permutation(keys).Draw(t, "keys")
	for _, x := range p[:rapid.IntRange(0, len(p)).Draw(t, "n")] {
		v := model.Str(rapid.SampledFrom([]string{"a", "", "中国", "zz"}).Draw(t, "v"))
		v.P = genPtr(t, "ptr")
		if x == "names" || (x == "other" || x == "EmbeddedPlace") && rapid.Bool().Draw(t, "mapvalue") {
			v = model.Val{T: "map", M: []model.KV{{K: "cn", V: v}, {K: "country", V: v}}}
		}
		k.M = append(k.M, model.KV{K: x, KP: genPtr(t, "keyptr"), V: v})
	}
	k.At = rapid.IntRange(0, len(k.M)).Draw(t, "at")
	if len(k.M) > 0 && rapid.IntRange(0, 9).Draw(t, "bad") == 0 {
		i := rapid.IntRange(0, len(k.M)-1).Draw(t, "badkey")
		if has([]string{"country", "city", "isp", "line", "names", "Plain"}, k.M[i].K) {
			k.Bad = k.M[i].K
			k.M[i].V = rapid.SampledFrom([]model.Val{{T: "u16", S: "7"}, {T: "list"}, {T: "bool", B: true}, {T: "list", L: []model.Val{model.Str("x")}}, {T: "f64", F: 1}}).Draw(t, "badvalue")
		}
	}
	return k
}

func genBigSkip(t *rapid.T) staticCase {
	k := staticCase{M: []model.KV{{K: "country", V: model.Str("中国")}, {K: "isp", V: model.Str("电信")}}}
	k.Size = rapid.SampledFrom([]int{1000000, 4000000, 12000000, 16800000}).Draw(t, "bigskip")
	k.At = rapid.IntRange(0, 2).Draw(t, "at")
	return k
}

func checkStatic(c *pbt.Ctx, k staticCase) error {
	m := append([]model.KV{}, k.M...)
	if k.Size > 0 {
		m = append(m[:k.At:k.At], append([]model.KV{{K: "unknown list", V: model.Val{T: "fill", S: fmt.Sprint(k.Size)}}}, m[k.At:]...)...)
	}
	a := model.Awdb{RecordSize: 28, Nets: []string{"1.0.0.0/8"}, Rec: []int{0}, Records: []model.Val{{T: "map", M: m}}}
	r, err := awdb.FromBytes(a.Bytes())
	if err != nil {
		return pbt.Violationf("loading fails: %v", err)
	}
	var got staticRec
	if p := pbt.Try(func() { err = r.Lookup(net.IPv4(1, 1, 1, 1), &got) }); p != nil {
		return pbt.Violationf("decoding %.500v into a structure: %v", k.M, p)
	}
	if k.Bad != "" {
		if err == nil {
			return pbt.Violationf("decoding %.500v into a structure gives %+v, though the value of %q does not fit", k.M, got, k.Bad)
		}
		c.Class("misfit")
		return nil
	}
	if err != nil {
		return pbt.Violationf("decoding %.500v into a structure fails: %v", k.M, err)
	}
	var want staticRec
	for _, kv := range k.M {
		s := kv.V.S
		switch kv.K {
		case "country":
			want.Country = s
		case "city":
			want.City = s
		case "isp":
			want.ISP = s
		case "line":
			want.Line = &s
		case "names":
			want.Names = map[string]string{"cn": kv.V.M[0].V.S, "country": kv.V.M[1].V.S}
		case "Plain":
			want.Plain = s
		}
	}
	if !reflect.DeepEqual(got, want) {
		return pbt.Violationf("decoding %.500v into a structure gives %+v, expected %+v", k.M, got, want)
	}
	if len(k.M) > 1 {
		c.NonTrivial()
	}
	c.Class("skip %d", k.Size)
	return nil
}

// enumeration

type enumCase struct {
	A      model.Awdb `json:"a"`
	Within []string   `json:"within"`
	Form   int        `json:"form"`
	Host   bool       `json:"host,omitempty"` // with bits set below the prefix
}

// given is a network as a caller may write it.
func (k enumCase) given(n model.Net) *net.IPNet {
	w := n.IPNet(k.Form)
	if !n.V6 {
		if k.Form == 20 { // 16 bytes, a mask of 4
			w = &net.IPNet{IP: n.IPNet(16).IP, Mask: n.IPNet(4).Mask}
		}
	}
	if k.Host {
		ones, bits := w.Mask.Size()
		for i := ones + 8*len(w.IP) - bits; i < 8*len(w.IP); i++ {
			if i%3 != 0 {
				w.IP[i/8] |= 0x80 >> (i % 8)
			}
		}
	}
	return w
}

func genEnum(t *rapid.T) enumCase {
	v6 := rapid.Bool().Draw(t, "v6tree")
	k := enumCase{A: genAwdb(t, v6, rapid.IntRange(0, 3).Draw(t, "cover") == 0), Form: rapid.SampledFrom([]int{4, 4, 16, 16, 20}).Draw(t, "form"), Host: rapid.IntRange(0, 3).Draw(t, "host") == 0}
	for i := rapid.IntRange(1, 6).Draw(t, "nwithin"); i > 0; i-- {
		var n model.Net
		if len(k.A.Nets) > 0 && rapid.IntRange(0, 4).Draw(t, "near") > 0 {
			n = model.MustNet(rapid.SampledFrom(k.A.Nets).Draw(t, "net"))
			n.Bits = min(model.Width(n.V6), max(0, n.Bits+rapid.IntRange(-6, 6).Draw(t, "bits")))
			if rapid.Bool().Draw(t, "other half") && n.Bits > 0 {
				n.U = n.U.Xor(model.One.Shl(model.Width(n.V6) - n.Bits))
			}
		} else {
			w6 := rapid.Bool().Draw(t, "w6")
			n = model.Net{V6: w6, U: model.GenU(t, "within", w6, nil), Bits: rapid.IntRange(0, model.Width(w6)).Draw(t, "wbits")}
		}
		n = n.Canon()
		if n.V6 && model.InMapped(n.U) { // denotes IPv4 addresses
			continue
		}
		k.Within = append(k.Within, n.String())
	}
	return k
}

type enumerated struct {
	n model.Net
	i int
}

// expected lists the stored networks (placed in the tree) inside a network or around it.
func (k enumCase) expected(in *model.Net) []enumerated {
	var nn []model.Net
	for _, s := range k.A.Nets {
		nn = append(nn, k.A.TreeNet(model.MustNet(s)))
	}
	order := make([]int, len(nn))
	for i := range order {
		order[i] = i
	}
	for i := range order { // small lists
		for j := i; j > 0 && nn[order[j]].U.Less(nn[order[j-1]].U); j-- {
			order[j], order[j-1] = order[j-1], order[j]
		}
	}
	var out []enumerated
	for _, i := range order {
		if in == nil || in.Covers(nn[i]) || nn[i].Covers(*in) {
			out = append(out, enumerated{nn[i], k.A.Rec[i]})
		}
	}
	return out
}

func (k enumCase) drain(it *awdb.Networks, want []enumerated, what string, step func()) error {
	kept := map[*net.IPNet]string{} // networks the caller keeps as they are
	for i := 0; ; i++ {
		var more bool
		if p := pbt.Try(func() { more = it.Next() }); p != nil {
			return pbt.Violationf("%s: %v", what, p)
		}
		if !more {
			for n, s := range kept {
				if got := n.String(); got != s {
					return pbt.Violationf("%s: the network %s, kept by the caller, has become %s", what, s, got)
				}
			}
			if err := it.Err(); err != nil {
				return pbt.Violationf("%s ends with %v", what, err)
			}
			if i != len(want) {
				return pbt.Violationf("%s visits %d networks, stored %d: misses %v", what, i, len(want), want[i].n)
			}
			// stays at the end
			if it.Next() {
				return pbt.Violationf("%s goes on after its end", what)
			}
			return nil
		}
		var x any
		var n *net.IPNet
		var err error
		if p := pbt.Try(func() { n, err = it.Network(&x) }); p != nil {
			return pbt.Violationf("%s: %v", what, p)
		}
		if err != nil {
			return pbt.Violationf("%s: network %d fails: %v", what, i, err)
		}
		if i >= len(want) {
			return pbt.Violationf("%s visits %v after all %d stored networks", what, n, len(want))
		}
		w := want[i].n
		g := model.Net{V6: w.V6}
		ones, size := n.Mask.Size()
		if size == model.Width(w.V6) && len(n.IP)*8 == size {
			g.Bits = ones
			for _, b := range n.IP {
				g.U = g.U.Shl(8).Or(model.U{L: uint64(b)})
			}
		} else {
			return pbt.Violationf("%s: network %d is %v (%d bytes, mask of %d bits), expected %v", what, i, n, len(n.IP), size, w)
		}
		if g != w {
			return pbt.Violationf("%s: network %d is %v, expected %v", what, i, n, w)
		}
		if err := sameAny(k.A.Records[want[i].i], x); err != nil {
			return pbt.Violationf("%s: record of %v: %v", what, w, err)
		}
		// the caller may do with the network what it likes
		if i%3 == 0 {
			kept[n] = n.String()
		} else {
			for j := range n.IP {
				n.IP[j] = 0xa5
			}
		}
		if step != nil {
			step()
		}
	}
}

func checkQ07(c *pbt.Ctx, k enumCase) error {
	r, err := awdb.FromBytes(k.A.Bytes())
	if err != nil {
		return pbt.Violationf("loading fails: %v", err)
	}
	all := k.expected(nil)
	other := r.Networks()
	var oerr error
	if err := k.drain(r.Networks(), all, "the enumeration", func() {
		if p := pbt.Try(func() { other.Next() }); p != nil {
			oerr = p
		}
	}); err != nil {
		return err
	}
	if oerr != nil {
		return pbt.Violationf("a second enumeration: %v", oerr)
	}
	if err := k.drain(r.Networks(), all, "a later enumeration", nil); err != nil {
		return err
	}
	if len(all) >= 2 {
		c.NonTrivial()
	}
	for _, s := range k.Within {
		n := model.MustNet(s)
		what := fmt.Sprintf("the enumeration within %s (%d bytes, mask of %d)", s, len(k.given(n).IP), len(k.given(n).Mask))
		if n.V6 && !k.A.V6 {
			c.Class("other family")
			var more bool
			if p := pbt.Try(func() { more = r.NetworksWithin(k.given(n)).Next() }); p != nil {
				return pbt.Violationf("%s: %v", what, p)
			}
			if more {
				return pbt.Violationf("%s visits a network of an IPv4 database", what)
			}
			continue
		}
		in := k.A.TreeNet(n)
		want := k.expected(&in)
		given := k.given(n)
		if err := k.drain(r.NetworksWithin(given), want, what, nil); err != nil {
			return err
		}
		if w := k.given(n); !w.IP.Equal(given.IP) {
			return pbt.Violationf("%s changed the network it was given", what)
		}
		switch {
		case len(want) == 0:
			c.Class("none inside")
		case len(want) == 1 && want[0].n.Covers(in):
			c.Class("containing one")
		default:
			c.Class("several inside")
		}
	}
	return nil
}

// badSize is a value whose size its type does not allow, or of no type at all, inside others.
type badSize struct {
	RS    int    `json:"rs"`
	Typ   int    `json:"typ"`
	Size  int    `json:"size"`
	Wrap  string `json:"wrap"`  // letters: l list, m map, s structure (a map), from the outside
	Ptr   int    `json:"ptr"`   // reached through a pointer of at least this size
	Exact bool   `json:"exact"` // into the type of the value, not a generic one

	Cut string `json:"cut,omitempty"` // hexadecimal digits of a value that is not complete, or has keys that are no texts
}

// brokenValues are at the end of the data.
var brokenValues = []string{
	"42", "4261", "5c61", "5d", "5d00", "5e00", "5e0000", "5f0000", "82", "8261", "9d", // texts and bytes
	"68", "6800000000000000", "a2", "a201", "c4", "c4010203", "0402", "0804ffff", "0402ffff", "0803ff", "0401ffffff", "0408000000", "0800", "00", "1003ff", "0201", "0801", // numbers
	"20", "28", "2800", "30", "300000", "38", "38000000", // pointers
	"27ff", "2fffff00", "37ffffff", "38ffffff00", "38ffffffff", "3800ffffff", "277f", // pointers beyond the end
	"0104", "0204", "02044161", "e1", "e14161", "e2416140", "e24161404162", "0304424100", // lists and maps lacking entries
	"1d04", "1e0400", "fd", "fe00", // long ones
	"e1a2000140", "e1e040", "e1000740", "e1010740", "e1816140", "e1c040", "e2416140a2000140", // keys that are no texts
}

func genBroken(t *rapid.T) badSize {
	return badSize{RS: rapid.SampledFrom([]int{24, 28, 32}).Draw(t, "rs"), Wrap: rapid.StringMatching("[lms]{0,4}").Draw(t, "wrap"), Cut: rapid.SampledFrom(brokenValues).Draw(t, "cut"), Exact: rapid.Bool().Draw(t, "exact")}
}

func checkBroken(c *pbt.Ctx, k badSize) error {
	rt := reflect.TypeOf((*any)(nil)).Elem()
	if k.Cut[0] >= 'e' && k.Exact {
		rt = reflect.TypeOf(map[string]any{})
	}
	return k.refuse(c, model.Str("alone"), model.Val{T: "raw", S: k.Cut}, rt, "the broken value "+k.Cut)
}

// refuseEnum enumerates the records, of which the last cannot be decoded.
func (k badSize) refuseEnum(r *awdb.Reader, what string) (err error) {
	if p := pbt.Try(func() {
		it := r.Networks()
		n := 0
		for it.Next() {
			var x any
			n++
			if _, e := it.Network(&x); e == nil && n == 2 {
				err = pbt.Violationf("%s in %q is enumerated as %v", what, k.Wrap, x)
				return
			}
		}
		if n != 2 {
			err = pbt.Violationf("the enumeration visits %d of 2 networks, %v", n, it.Err())
		}
	}); p != nil {
		return pbt.Violationf("enumerating %s in %q: %v", what, k.Wrap, p)
	}
	return err
}

var badTypes = map[int]reflect.Type{3: reflect.TypeOf(0.0), 5: reflect.TypeOf(uint16(0)), 6: reflect.TypeOf(uint32(0)), 8: reflect.TypeOf(int32(0)), 9: reflect.TypeOf(uint64(0)),
	10: reflect.TypeOf(big.Int{}), 14: reflect.TypeOf(false), 15: reflect.TypeOf(float32(0))}

var maxSize = map[int]int{5: 2, 6: 4, 8: 4, 9: 8, 10: 16, 14: 1}

func genBadSize(t *rapid.T) badSize {
	k := badSize{RS: rapid.SampledFrom([]int{24, 28, 32}).Draw(t, "rs"), Typ: rapid.SampledFrom([]int{3, 5, 6, 8, 9, 10, 14, 15, 12, 13, 16, 17, 200, 249, 256, 257, 258, 260, 261, 262}).Draw(t, "typ"),
		Wrap: rapid.StringMatching("[lms]{0,4}").Draw(t, "wrap"), Ptr: rapid.IntRange(0, 4).Draw(t, "ptr"), Exact: rapid.Bool().Draw(t, "exact")}
	k.Size = rapid.OneOf(rapid.IntRange(0, 9), rapid.SampledFrom([]int{16, 17, 18, 28, 29, 30, 300, 65821})).Draw(t, "size")
	if max, ok := maxSize[k.Typ]; ok && k.Size <= max {
		k.Size = max + 1 + k.Size
	}
	if k.Typ == 3 && k.Size == 8 || k.Typ == 15 && k.Size == 4 {
		k.Size++
	}
	return k
}

func checkBadSize(c *pbt.Ctx, k badSize) error {
	bad := model.Val{T: "bad", S: fmt.Sprint(k.Typ, " ", k.Size), P: k.Ptr}
	rt := badTypes[k.Typ]
	if rt == nil || !k.Exact {
		rt = reflect.TypeOf((*any)(nil)).Elem()
	}
	return k.refuse(c, bad, bad, rt, fmt.Sprintf("a value of type %d and size %d", k.Typ, k.Size))
}

// refuse decodes v within others.
func (k badSize) refuse(c *pbt.Ctx, alone, v model.Val, rt reflect.Type, what string) error {
	for i := len(k.Wrap) - 1; i >= 0; i-- {
		switch k.Wrap[i] {
		case 'l':
			v, rt = model.Val{T: "list", L: []model.Val{v}}, reflect.SliceOf(rt)
		case 'm':
			v, rt = model.Val{T: "map", M: []model.KV{{K: "a", V: v}}}, reflect.MapOf(reflect.TypeOf(""), rt)
		case 's':
			v = model.Val{T: "map", M: []model.KV{{K: "other", V: model.Str("x")}, {K: "a", V: v}}}
			rt = reflect.StructOf([]reflect.StructField{{Name: "A", Type: rt, Tag: `awdb:"a"`}})
		}
	}
	// the value stands alone before, so that pointers lead to it
	a := model.Awdb{RecordSize: k.RS, Nets: []string{"1.0.0.0/8", "2.0.0.0/8"}, Rec: []int{0, 1}, Records: []model.Val{{T: "list", L: []model.Val{alone}}, v}}
	r, err := awdb.FromBytes(a.Bytes())
	if err != nil {
		return pbt.Violationf("loading fails: %v", err)
	}
	for _, generic := range []bool{true, false} {
		var x any
		dest := any(&x)
		if !generic {
			dest = reflect.New(rt).Interface()
		}
		if p := pbt.Try(func() { err = r.Lookup(net.IPv4(2, 1, 1, 1), dest) }); p != nil {
			return pbt.Violationf("decoding %s in %q into %T: %v", what, k.Wrap, dest, p)
		}
		if err == nil {
			return pbt.Violationf("%s in %q is decoded into %T as %v", what, k.Wrap, dest, reflect.ValueOf(dest).Elem())
		}
	}
	if err := k.refuseEnum(r, what); err != nil {
		return err
	}
	c.Class("type %d%s", k.Typ, k.Cut)
	if k.Wrap != "" {
		c.NonTrivial()
	}
	return nil
}

func init() {
	pbt.Register("Q06", "sizes", pbt.Options{
		Rule:  "a value of a size its type does not allow, or of an unknown type, up to four levels deep in lists, maps and structures, shared or not; decoding into a generic and into a matching result must fail; non-trivial: it is nested",
		Quick: 4000, Thorough: 100000,
	}, genBadSize, checkBadSize)
	pbt.Register("Q06", "broken", pbt.Options{
		Rule:  "a value that is not complete at the end of the data, a pointer beyond the end, or a map key that is no text, up to four levels deep in lists, maps and structures, looked up and enumerated: an error; non-trivial: it is nested",
		Quick: 2000, Thorough: 40000,
	}, genBroken, checkBroken)
	pbt.Register("Q06", "values", pbt.Options{
		Rule:  "databases whose records are random values of all types, nested and shared through pointers of all sizes, decoded into generic results and into random types (structures, maps, lists, integers of all sizes, pointers, offsets), misfits included; non-trivial: the record is a map or list",
		Quick: 16000, Thorough: 300000,
	}, genVals, checkQ06)
	pbt.Register("Q06", "structure", pbt.Options{
		Rule:  "maps decoded into a structure with embedded, tagged, skipped, untagged and hidden fields, unknown keys and values among them; non-trivial: several keys",
		Quick: 8000, Thorough: 200000,
	}, genStatic, checkStatic)
	pbt.Register("Q06", "deep", pbt.Options{
		Rule:  "lists and maps nested up to 440 levels deep, parts of them shared through pointers, decoded into a generic result; non-trivial: more than 60 levels",
		Quick: 800, Thorough: 20000,
	}, genDeep, checkDeep)
	pbt.Register("Q06", "longskip", pbt.Options{
		Rule:  "maps with a list of millions of entries under a key unknown to the structure; non-trivial: always",
		Quick: 8, Thorough: 40, NoShrink: true,
	}, genBigSkip, checkStatic)
	pbt.Register("Q07", "enumeration", pbt.Options{
		Rule:  "random awdb trees enumerated as a whole (twice, with an interleaved second iterator, results overwritten) and within networks equal to, around, inside and beside the stored ones; compared with the sorted model; non-trivial: two stored networks",
		Quick: 24000, Thorough: 400000,
	}, genEnum, checkQ07)
}
