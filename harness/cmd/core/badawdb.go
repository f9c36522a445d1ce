package main

import (
	"bytes"
	"fmt"
	"net"
	"strings"

	"verif/harness/model"
	"verif/harness/pbt"

	"github.com/qiniu/uip/db/format/awdb"
	"pgregory.net/rapid"
)

// raw writes data-section bytes that the encoder would not write.
type raw struct {
	b    []byte
	base int // offset of b in the data section
}

func (w *raw) at() int { return w.base + len(w.b) }

func (w *raw) ctrl(typ, size int) {
	var first int
	var ext []byte
	switch {
	case size < 29:
		first = size
	case size < 285:
		first, ext = 29, []byte{byte(size - 29)}
	case size < 65821:
		n := size - 285
		first, ext = 30, []byte{byte(n >> 8), byte(n)}
	default:
		n := size - 65821
		first, ext = 31, []byte{byte(n >> 16), byte(n >> 8), byte(n)}
	}
	if typ <= 7 {
		w.b = append(w.b, byte(typ<<5|first))
	} else {
		w.b = append(w.b, byte(first), byte(typ-7))
	}
	w.b = append(w.b, ext...)
}

func (w *raw) ptr(to int) {
	w.b = append(w.b, 0x38, byte(to>>24), byte(to>>16), byte(to>>8), byte(to))
}

func (w *raw) str(s string) {
	w.ctrl(2, len(s))
	w.b = append(w.b, s...)
}

const maxClaim = 65821 + 1<<24 - 1

var rawKinds = []string{"self pointer", "pointer ring", "key ring", "pointer chain", "key chain", "claim list", "claim map", "nested claims", "deep lists", "deep maps",
	"list fan", "map fan", "key fan", "text fan", "bad sizes", "odd types", "far pointer", "wrong kinds", "skip", "cut"}

// value appends a hostile value and returns where it starts.
func (w *raw) value(t *rapid.T, kind string) int {
	start := w.at()
	pick := func(x ...int) int { return rapid.SampledFrom(x).Draw(t, "much") }
	switch kind {
	case "self pointer":
		w.ptr(start)
	case "pointer ring":
		n := pick(2, 3, 100)
		for i := 0; i < n; i++ {
			w.ptr(start + 5*((i+1)%n))
		}
	case "key ring":
		n := pick(1, 2, 7)
		for i := 0; i < n; i++ {
			w.ptr(start + 5*((i+1)%n))
		}
		m := w.at()
		w.ctrl(7, 1)
		w.ptr(start)
		w.str("v")
		return m
	case "pointer chain", "key chain":
		w.str("country")
		prev := start
		if kind == "pointer chain" {
			prev = w.at()
			w.ctrl(7, 1)
			w.ptr(start)
			w.str("v")
		}
		for i := pick(1, 2, 100, 509, 510, 511, 512, 513, 600, 20000); i > 0; i-- {
			at := w.at()
			w.ptr(prev)
			prev = at
		}
		if kind == "pointer chain" {
			return prev
		}
		m := w.at()
		w.ctrl(7, 1)
		w.ptr(prev)
		w.str("v")
		return m
	case "claim list":
		w.ctrl(11, pick(100, 65820, 1<<20, maxClaim))
	case "claim map":
		w.ctrl(7, pick(100, 65820, 1<<20, maxClaim))
		if rapid.Bool().Draw(t, "one") {
			w.str("country")
			w.str("v")
		}
	case "nested claims":
		typ := pick(7, 11)
		n := pick(10, 100, 400)
		size := pick(50, 1000, 20000)
		for i := 0; i < n; i++ {
			w.ctrl(typ, size)
			if typ == 7 {
				w.str("country")
			}
		}
		w.b = append(w.b, bytes.Repeat([]byte{0x40}, pick(0, size, 3*size))...)
	case "deep lists":
		for i := pick(100, 505, 511, 512, 513, 2000, 200000); i > 0; i-- {
			w.ctrl(11, 1)
		}
		w.str("v")
	case "deep maps":
		for i := pick(100, 250, 505, 511, 512, 513, 2000, 100000); i > 0; i-- {
			w.ctrl(7, 1)
			w.str(rapid.SampledFrom([]string{"k", "Next"}).Draw(t, "deepkey"))
			if i > 3000 { // one choice for all
				w.b = append(w.b, bytes.Repeat([]byte{0xe1, 0x41, 'k'}, i)...)
				break
			}
		}
		w.str("v")
	case "list fan", "map fan":
		prev := start
		w.str(strings.Repeat("t", pick(0, 1, 100)))
		fan := pick(2, 3, 10, 100)
		for i := pick(2, 3, 5, 10, 30, 200); i > 0; i-- {
			at := w.at()
			if kind == "list fan" {
				w.ctrl(11, fan)
			} else {
				w.ctrl(7, fan)
			}
			for j := 0; j < fan; j++ {
				if kind == "map fan" {
					w.str(fmt.Sprint("k", j))
				}
				w.ptr(prev)
			}
			prev = at
		}
		return prev
	case "key fan", "text fan":
		w.str(strings.Repeat("t", pick(10, 1000, 65820, 300000)))
		m := w.at()
		n := pick(10, 300, 3000, 20000)
		if kind == "text fan" && rapid.Bool().Draw(t, "list") {
			w.ctrl(11, n)
			for j := 0; j < n; j++ {
				w.ptr(start)
			}
			return m
		}
		w.ctrl(7, n)
		for j := 0; j < n; j++ {
			if kind == "key fan" {
				w.ptr(start)
				w.str("v")
			} else {
				w.str(fmt.Sprint(j))
				w.ptr(start)
			}
		}
		return m
	case "bad sizes":
		typ := pick(3, 15, 5, 6, 8, 9, 10, 14)
		size := pick(0, 1, 2, 3, 5, 7, 9, 16, 17, 28, 300)
		w.ctrl(typ, size)
		w.b = append(w.b, bytes.Repeat([]byte{0xfe}, size)...)
	case "odd types":
		w.b = append(w.b, byte(pick(0, 1, 3, 29, 30, 31)), byte(pick(0, 5, 6, 9, 10, 100, 248, 249, 250, 251, 255)), 1, 2, 3)
	case "far pointer":
		w.ptr(pick(0, 1, 0xffffffff, 0x7fffffff, 1<<28, start+5, start+6, start+1000))
	case "wrong kinds":
		return w.mapOf(t, []string{"country", "isp", "line", "x"}, func() {
			w.value(t, rapid.SampledFrom([]string{"bad sizes", "odd types", "far pointer", "self pointer"}).Draw(t, "wrong"))
		})
	case "skip":
		w.ctrl(7, 2)
		w.str("nobody knows this")
		n := pick(10, 5000, 300000)
		w.ctrl(11, n)
		w.b = append(w.b, bytes.Repeat([]byte{0x40}, pick(0, n, n-1))...)
		w.str("country")
		w.str("v")
	case "cut":
		w.b = append(w.b, rapid.SampledFrom([][]byte{{0x5d}, {0x5e, 1}, {0x5f, 1, 2}, {0x3f, 1, 2}, {0x28}, {0x00}, {0xe3}, {0xe1, 0x41}, {0x41}}).Draw(t, "cutvalue")...)
	default:
		panic(kind)
	}
	return start
}

func (w *raw) mapOf(t *rapid.T, keys []string, v func()) int {
	start := w.at()
	w.ctrl(7, len(keys))
	for _, k := range keys {
		w.str(k)
		v()
	}
	return start
}

func genBadAwdb(t *rapid.T) badCase {
	k := badCase{}
	if rapid.IntRange(0, 2).Draw(t, "ruled") == 0 {
		k.Rule = "country,isp,asn"
	}
	if rapid.IntRange(0, 19).Draw(t, "random") == 0 {
		k.How = "random"
		k.B = rapid.SliceOfN(rapid.SampledFrom([]byte{0, 0, 1, 2, 0xff, 0x40, 0xe1, 0x20, 0x38, 'a'}), 0, 60).Draw(t, "b")
		if rapid.Bool().Draw(t, "marked") {
			k.B = append(k.B, model.Marker...)
			k.B = append(k.B, rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "after")...)
		}
		return k
	}
	a := genAwdb(t, rapid.Bool().Draw(t, "v6tree"), rapid.IntRange(0, 2).Draw(t, "cover") == 0)
	if a.Pad > 2100 {
		a.Pad = 0
	}
	for i := range a.Records {
		for j := range a.Records[i].M {
			if v := &a.Records[i].M[j].V; len(v.S) > 1000 {
				v.S = v.S[:10]
			}
		}
	}
	for _, s := range a.Nets {
		if len(k.Ask) < 8 {
			n := model.MustNet(s)
			k.Ask = append(k.Ask, model.Addr{V6: n.V6, U: n.Last()}.String())
		}
	}
	mode := rapid.IntRange(0, 9).Draw(t, "mode")
	if mode < 3 {
		k.B, k.How, k.Cut = genBadBytes(t, a.Bytes())
		k.Cut = k.Cut && !a.Marker
		return k
	}
	p := a.Parts()
	leaf := func(off int) uint32 { return uint32(p.Count + 16 + off) }
	if mode < 7 {
		w := &raw{base: len(p.Data)}
		kind := rapid.SampledFrom(rawKinds).Draw(t, "hostile")
		k.How = kind
		off := w.value(t, kind)
		switch rapid.IntRange(0, 3).Draw(t, "inside") {
		case 0:
			to := off
			off = w.mapOf(t, []string{"isp", "country", "x"}, func() { w.ptr(to) })
		case 1:
			to := off
			off = w.mapOf(t, []string{"unknown"}, func() { w.ptr(to) })
		}
		p.Data = append(p.Data, w.b...)
		if rapid.Bool().Draw(t, "everywhere") {
			for i := range p.Nodes {
				for j := range p.Nodes[i] {
					if p.Nodes[i][j] >= uint32(p.Count) && rapid.IntRange(0, 3).Draw(t, "keep") > 0 {
						p.Nodes[i][j] = leaf(off)
					}
				}
			}
		} else {
			i := rapid.IntRange(0, len(p.Nodes)-1).Draw(t, "hostilenode")
			p.Nodes[i][rapid.IntRange(0, 1).Draw(t, "hostileside")] = leaf(off)
		}
		k.B = p.Bytes()
		return k
	}
	if mode == 7 {
		// few nodes, very many networks or none at all
		k.How = "tree bomb"
		depth := rapid.IntRange(10, 128).Draw(t, "depth")
		base := len(p.Nodes)
		count := base + depth
		for i := range p.Nodes {
			for j, x := range p.Nodes[i] {
				if x >= uint32(p.Count) {
					p.Nodes[i][j] = x + uint32(depth)
				}
			}
		}
		for i := 0; i < depth; i++ {
			p.Nodes = append(p.Nodes, [2]uint32{uint32(base + i + 1), uint32(base + i + 1)})
		}
		end := [2]uint32{uint32(count), uint32(count)}
		if rapid.Bool().Draw(t, "leaves") {
			end = [2]uint32{uint32(count + 16 + a.Pad), uint32(count + 16 + a.Pad)}
		}
		p.Nodes[count-1] = end
		i := rapid.SampledFrom([]int{0, 0, min(95, base-1), base - 1}).Draw(t, "hang")
		p.Nodes[i][1] = uint32(base)
		if rapid.Bool().Draw(t, "both") {
			p.Nodes[i][0] = uint32(base)
		}
		p.Count = count
		a2 := a
		e := model.NewEnc(0)
		e.Value(a2.MetaVal(count))
		p.Meta = e.Buf.Bytes()
		k.B = p.Bytes()
		return k
	}
	k.How = "edited"
	meta := a.MetaVal(p.Count)
	for n := rapid.IntRange(1, 3).Draw(t, "edits"); n > 0; n-- {
		switch rapid.SampledFrom([]string{"meta", "meta", "meta", "node", "node", "nodes-", "data-", "sep"}).Draw(t, "edit") {
		case "meta":
			f := rapid.SampledFrom([]string{"node_count", "node_count", "record_size", "ip_version", "languages", "description", "build_epoch", "database_type", "drop", "hostile", "notmap"}).Draw(t, "metafield")
			set := func(key string, v model.Val) {
				for i := range meta.M {
					if meta.M[i].K == key {
						meta.M[i].V = v
					}
				}
			}
			odd := []model.Val{model.Str("x"), {T: "list"}, {T: "map"}, {T: "bool", B: true}, {T: "f64", F: 1e300}, {T: "i32", S: "-1"}, {T: "i32", S: "-2147483648"}, {T: "u128", S: "340282366920938463463374607431768211455"}}
			u64 := func(x ...string) []model.Val {
				for _, s := range x {
					odd = append(odd, model.Val{T: "u64", S: s})
				}
				return odd
			}
			switch f {
			case "node_count":
				set(f, rapid.SampledFrom(u64("0", "1", fmt.Sprint(p.Count-1), fmt.Sprint(p.Count+1), fmt.Sprint(2*p.Count), "4294967295", "4294967296", "4611686018427387904", "9223372036854775808", "18446744073709551615",
					"2305843009213693952", "1152921504606846976", "768614336404564651", "2635249153387078803", "576460752303423488")).Draw(t, "v"))
			case "record_size":
				set(f, rapid.SampledFrom(u64("0", "1", "3", "4", "20", "24", "28", "32", "36", "64", "9223372036854775808", "18446744073709551615", "4611686018427387904")).Draw(t, "v"))
			case "ip_version":
				set(f, rapid.SampledFrom(u64("0", "1", "4", "5", "6", "46", "18446744073709551615")).Draw(t, "v"))
			case "drop":
				i := rapid.IntRange(0, len(meta.M)).Draw(t, "dropped")
				if i < len(meta.M) {
					meta.M = append(meta.M[:i:i], meta.M[i+1:]...)
				}
			case "hostile":
				i := rapid.IntRange(0, len(meta.M)).Draw(t, "hostileat")
				if i < len(meta.M) {
					meta.M[i].V = model.Val{T: "raw"}
				}
			case "notmap":
				if rapid.IntRange(0, 5).Draw(t, "not") == 0 {
					meta = odd[rapid.IntRange(0, len(odd)-1).Draw(t, "v")]
				}
			default:
				set(f, odd[rapid.IntRange(0, len(odd)-1).Draw(t, "v")])
			}
		case "node":
			i := rapid.IntRange(0, len(p.Nodes)-1).Draw(t, "node")
			j := rapid.IntRange(0, 1).Draw(t, "side")
			p.Nodes[i][j] = rapid.SampledFrom([]uint32{0, uint32(i), uint32(p.Count), uint32(p.Count + 1), uint32(p.Count + 15), uint32(p.Count + 16), uint32(p.Count + 17),
				leaf(len(p.Data)), leaf(len(p.Data) - 1), leaf(len(p.Data) + 1), leaf(len(p.Data) + 1000), 0xffffffff, 0x7fffffff, uint32(i + 1),
				uint32(rapid.IntRange(0, p.Count+16+len(p.Data)).Draw(t, "target"))}).Draw(t, "to")
		case "nodes-":
			p.Nodes = p.Nodes[:rapid.IntRange(1, len(p.Nodes)).Draw(t, "keepnodes")]
		case "data-":
			p.Data = p.Data[:rapid.IntRange(0, len(p.Data)).Draw(t, "keepdata")]
		case "sep":
			p.Data = append(bytes.Repeat([]byte{0xe1}, rapid.IntRange(0, 20).Draw(t, "extra")), p.Data...)
		}
	}
	e := model.NewEnc(0)
	var cut int
	hostile := -1
	if meta.T == "map" {
		for i := range meta.M {
			if meta.M[i].V.T == "raw" && hostile < 0 {
				hostile = i
			}
		}
		if hostile >= 0 { // the entry's value comes last
			x := meta.M[hostile]
			meta.M = append(append(meta.M[:hostile:hostile], meta.M[hostile+1:]...), x)
			for i := range meta.M {
				if meta.M[i].V.T == "raw" {
					meta.M[i].V = model.Str("")
				}
			}
		}
	}
	e.Value(meta)
	p.Meta = append([]byte{}, e.Buf.Bytes()...)
	if hostile >= 0 {
		cut = len(p.Meta) - 1 // drop the empty text
		w := &raw{base: cut + 5}
		kind := rapid.SampledFrom(rawKinds).Draw(t, "hostile")
		off := w.value(t, kind)
		if len(w.b) < 1500 {
			p.Meta = append(p.Meta[:cut:cut], 0x38, byte(off>>24), byte(off>>16), byte(off>>8), byte(off))
			p.Meta = append(p.Meta, w.b...)
			k.How = "edited, metadata with " + kind
		}
	}
	k.B = p.Bytes()
	return k
}

type loopRec struct {
	Next *loopRec          `awdb:"Next"`
	K    *loopRec          `awdb:"k"`
	K0   []loopRec         `awdb:"k0"`
	X    map[string]string `awdb:"x"`
	At   uintptr           `awdb:"country"`
}

// typed decodes one record into several types.
func typed(r *awdb.Reader, off uintptr) {
	var (
		a any
		b map[string]any
		c map[string]string
		d staticRec
		e loopRec
		f []any
		g []loopRec
		h map[string]loopRec
		i [][]string
		j []byte
		k string
		l uint16
	)
	for _, x := range []any{&a, &b, &c, &d, &e, &f, &g, &h, &i, &j, &k, &l} {
		_ = r.Decode(off, x)
	}
}

func exerciseReader(k badCase) error {
	var r *awdb.Reader
	var err error
	before := allocated()
	if p := pbt.Try(func() { r, err = awdb.FromBytes(k.B) }); p != nil {
		return pbt.Violationf("FromBytes: %v", p)
	}
	if err != nil {
		return nil
	}
	if p := pbt.Try(func() {
		for i, s := range append([]string{"8.8.8.8", "::", "ffff::"}, k.Ask...) {
			ip := net.ParseIP(s)
			if i < 5 {
				var x any
				_, _, _ = r.LookupNetwork(ip, &x)
			}
			if off, err := r.LookupOffset(ip); err == nil && off != awdb.NotFound && i < 5 {
				typed(r, off)
			}
		}
		for _, off := range []uintptr{0, 1, uintptr(len(k.B)), uintptr(len(k.B) / 2), ^uintptr(0), 1 << 63} {
			var x any
			_ = r.Decode(off, &x)
		}
	}); p != nil {
		return pbt.Violationf("reader: %v", p)
	}
	if used := allocated() - before; used > uint64(1<<30+40000*len(k.B)) {
		return pbt.Violationf("asking the reader of a database of %d bytes allocates %d bytes", len(k.B), used)
	}
	failed, silent := false, false
	if p := pbt.Try(func() {
		it := r.Networks()
		for i := 0; it.Next() && i < 3000; i++ {
			if i < 20 {
				var x any
				n, err := it.Network(&x)
				silent = silent || n == nil && err == nil
			}
		}
		if it.Err() != nil && it.Next() {
			failed = true
		}
		for _, s := range []string{"8.0.0.0/8", "0.0.0.0/0", "::/0", "::/96", "ff00::/8"} {
			_, n, _ := net.ParseCIDR(s)
			it := r.NetworksWithin(n)
			for i := 0; it.Next() && i < 100; i++ {
			}
		}
	}); p != nil {
		return pbt.Violationf("enumerating: %v", p)
	}
	if silent {
		return pbt.Violationf("an enumeration gives neither a network nor an error")
	}
	if failed {
		return pbt.Violationf("an enumeration goes on after it failed")
	}
	return nil
}

func checkM02(c *pbt.Ctx, k badCase) error {
	l, a, d, err := exercise(".awdb", k)
	c.Class("%s loaded=%v answered=%v dumped=%v", k.How, l, a, d)
	if l || k.Cut {
		c.NonTrivial()
	}
	if err != nil {
		return err
	}
	return exerciseReader(k)
}

func init() {
	pbt.Register("M02", "bytes", pbt.Options{
		Rule:  "arbitrary bytes; databases cut short, with bytes changed, removed or repeated; with hostile values (rings and chains of pointers, claimed sizes, deep nesting, values that expand through pointers, wrong kinds and sizes) in records or metadata; with metadata or nodes replaced and trees that expand; loading, lookups, warm-up, dumping, decoding into several types and enumerating must succeed or give an error with bounded memory and time, a cut database is rejected; non-trivial: loaded, or cut short",
		Quick: 12000, Thorough: 400000,
	}, genBadAwdb, checkM02)
}
