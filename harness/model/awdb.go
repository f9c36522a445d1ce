package model

import (
	"bytes"
	"crypto/sha1"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"strings"
)

// Val is a value of the awdb data section.
type Val struct {
	T string  `json:"t"`           // str bytes u16 u32 u64 u128 i32 f32 f64 bool map list ref
	S string  `json:"s,omitempty"` // text, bytes (latin-1 escaped as text), or decimal number
	F float64 `json:"f,omitempty"`
	B bool    `json:"b,omitempty"`
	M []KV    `json:"m,omitempty"`
	L []Val   `json:"l,omitempty"`
	// Share: encode as a pointer to an earlier equal value when there is one, with a
	// pointer of at least this many bytes (1-4); 0: inline.
	P int `json:"p,omitempty"`
	// Pad: encode numbers with leading zero bytes up to their full size.
	Full bool `json:"full,omitempty"`
}

// KV is a map entry; KP is the pointer size for the key (0: inline).
type KV struct {
	K  string `json:"k"`
	KP int    `json:"kp,omitempty"`
	V  Val    `json:"v"`
}

// Str makes a string value.
func Str(s string) Val { return Val{T: "str", S: s} }

// Enc encodes data-section values.
type Enc struct {
	Buf  bytes.Buffer
	seen map[string]int // canonical content -> offset of an inline encoding
	// Shared counts pointers written.
	Shared int
}

// NewEnc starts a data section with n bytes of padding.
func NewEnc(pad int) *Enc {
	e := &Enc{seen: map[string]int{}}
	e.Buf.Write(bytes.Repeat([]byte{0x40}, pad)) // zero-length strings
	return e
}

func (e *Enc) ctrl(typ, size int) {
	if typ == 1 {
		panic("pointer")
	}
	var first int
	var ext []byte
	switch {
	case size < 29:
		first = size
	case size < 285:
		first = 29
		ext = []byte{byte(size - 29)}
	case size < 65821:
		first = 30
		n := size - 285
		ext = []byte{byte(n >> 8), byte(n)}
	default:
		first = 31
		n := size - 65821
		ext = []byte{byte(n >> 16), byte(n >> 8), byte(n)}
	}
	if typ <= 7 {
		e.Buf.WriteByte(byte(typ<<5 | first))
	} else {
		e.Buf.WriteByte(byte(first))
		e.Buf.WriteByte(byte(typ - 7))
	}
	e.Buf.Write(ext)
}

func (e *Enc) pointer(to, min int) bool {
	var b []byte
	switch {
	case to < 2048 && min <= 1:
		b = []byte{0x20 | byte(to>>8), byte(to)}
	case to >= 2048 && to < 2048+524288 && min <= 2:
		n := to - 2048
		b = []byte{0x28 | byte(n>>16), byte(n >> 8), byte(n)}
	case to >= 526336 && to < 526336+134217728 && min <= 3:
		n := to - 526336
		b = []byte{0x30 | byte(n>>24), byte(n >> 16), byte(n >> 8), byte(n)}
	default: // the low bits of the first byte have no meaning
		b = []byte{0x38 | byte(to&7), byte(to >> 24), byte(to >> 16), byte(to >> 8), byte(to)}
	}
	e.Buf.Write(b)
	e.Shared++
	return true
}

func minBytes(v uint64, full bool, size int) []byte {
	b := make([]byte, 8)
	binary.BigEndian.PutUint64(b, v)
	if full {
		return b[8-size:]
	}
	for len(b) > 0 && b[0] == 0 {
		b = b[1:]
	}
	return b
}

// Num parses a decimal of a Val.
func (v Val) Num() *big.Int {
	n, ok := new(big.Int).SetString(v.S, 10)
	if !ok {
		panic("bad number " + v.S)
	}
	return n
}

func canon(v Val) string {
	h := sha1.New()
	fmt.Fprintf(h, "%s|%q|%v|%v|%v|", v.T, v.S, v.F, v.B, v.Full)
	for _, kv := range v.M {
		fmt.Fprintf(h, "%q:%s;", kv.K, canon(kv.V))
	}
	for _, x := range v.L {
		fmt.Fprintf(h, "%s,", canon(x))
	}
	return string(h.Sum(nil))
}

// Key writes a map key.
func (e *Enc) key(kv KV) {
	c := canon(Str(kv.K))
	if off, ok := e.seen[c]; ok && kv.KP > 0 {
		e.pointer(off, kv.KP)
		return
	}
	e.Value(Str(kv.K))
}

// Value writes a value and returns the offset it starts at.
func (e *Enc) Value(v Val) int {
	start := e.Buf.Len()
	c := canon(v)
	if off, ok := e.seen[c]; ok && v.P > 0 {
		e.pointer(off, v.P)
		return start
	}
	switch v.T {
	case "str":
		e.ctrl(2, len(v.S))
		e.Buf.WriteString(v.S)
	case "bytes":
		e.ctrl(4, len(v.S))
		e.Buf.WriteString(v.S)
	case "f64":
		e.ctrl(3, 8)
		binary.Write(&e.Buf, binary.BigEndian, math.Float64bits(v.F))
	case "f32":
		e.ctrl(15, 4)
		binary.Write(&e.Buf, binary.BigEndian, math.Float32bits(float32(v.F)))
	case "u16":
		b := minBytes(v.Num().Uint64(), v.Full, 2)
		e.ctrl(5, len(b))
		e.Buf.Write(b)
	case "u32":
		b := minBytes(v.Num().Uint64(), v.Full, 4)
		e.ctrl(6, len(b))
		e.Buf.Write(b)
	case "u64":
		b := minBytes(v.Num().Uint64(), v.Full, 8)
		e.ctrl(9, len(b))
		e.Buf.Write(b)
	case "u128":
		b := v.Num().Bytes()
		if v.Full {
			b = append(make([]byte, 16-len(b)), b...)
		}
		e.ctrl(10, len(b))
		e.Buf.Write(b)
	case "i32":
		n := int32(v.Num().Int64())
		b := minBytes(uint64(uint32(n)), v.Full, 4)
		e.ctrl(8, len(b))
		e.Buf.Write(b)
	case "bool":
		n := 0
		if v.B {
			n = 1
		}
		e.ctrl(14, n)
	case "map":
		e.ctrl(7, len(v.M))
		for _, kv := range v.M {
			e.key(kv)
			e.Value(kv.V)
		}
	case "list":
		e.ctrl(11, len(v.L))
		for _, x := range v.L {
			e.Value(x)
		}
	case "bad": // a type and a size no writer should use
		var typ, size int
		fmt.Sscan(v.S, &typ, &size)
		e.ctrl(typ, size)
		e.Buf.Write(bytes.Repeat([]byte{0x41}, size))
	case "raw": // bytes in hexadecimal digits
		b, err := hex.DecodeString(v.S)
		if err != nil {
			panic(err)
		}
		e.Buf.Write(b)
	case "fill": // a list of very many empty strings
		n := int(v.Num().Int64())
		e.ctrl(11, n)
		e.Buf.Write(bytes.Repeat([]byte{0x40}, n))
	default:
		panic("type " + v.T)
	}
	if _, ok := e.seen[c]; !ok {
		e.seen[c] = start
	}
	return start
}

// Awdb describes a database to write.
type Awdb struct {
	RecordSize int      `json:"rs"`
	V6         bool     `json:"v6"`
	Nets       []string `json:"nets"` // in a v6 tree also IPv4 networks, stored under ::/96
	Rec        []int    `json:"rec"`  // record of each network
	Records    []Val    `json:"records"`
	Pad        int      `json:"pad"`  // unreferenced bytes at the start of the data section
	Tail       int      `json:"tail"` // unreferenced bytes at its end
	Build      int64    `json:"build"`
	Type       string   `json:"type"`
	Langs      []string `json:"langs"`
	Marker     bool     `json:"marker,omitempty"` // a decoy of the metadata marker inside the data section
	// Order is the order of the metadata entries (a permutation of 0..8), empty for the usual one.
	Order []int `json:"order,omitempty"`
	// Notes is the length of a further description, 0: none.
	Notes int `json:"notes,omitempty"`
	// MetaForm varies the metadata: 1 numbers with all their bytes, 2 texts shared by pointers of
	// two bytes, 4 keys of the description shared as well.
	MetaForm int `json:"metaform,omitempty"`
	// Share stores equal parts of the tree once, as far as the tree does not become far smaller than its networks.
	Share bool `json:"share,omitempty"`
}

// Marker starts the metadata.
const Marker = "\xAB\xCD\xEFipplus360.com"

// TreeNet places a network in the tree of the database.
func (a Awdb) TreeNet(n Net) Net {
	if a.V6 && !n.V6 {
		return Net{true, n.U, n.Bits + 96}
	}
	return n
}

// Tree builds the node records: [2]int with -1 empty, <-1 record, >=0 node.
func (a Awdb) tree(offsets []int) [][2]int {
	const empty = -1
	nodes := [][2]int{{empty, empty}}
	for i, s := range a.Nets {
		n := a.TreeNet(MustNet(s))
		w := Width(n.V6)
		ref := -(2 + offsets[a.Rec[i]])
		if n.Bits == 0 {
			panic("the tree has no place for a network of the whole space")
		}
		at := 0
		for b := 0; b < n.Bits; b++ {
			bit := int(n.U.Shr(w-1-b).L & 1)
			if b == n.Bits-1 {
				nodes[at][bit] = ref
				break
			}
			if nodes[at][bit] == empty {
				nodes = append(nodes, [2]int{empty, empty})
				nodes[at][bit] = len(nodes) - 1
			}
			at = nodes[at][bit]
			if at < 0 {
				panic("overlapping networks in an awdb case")
			}
		}
	}
	return nodes
}

// Parts are the pieces of an encoded database, for the mutators.
type Parts struct {
	Nodes [][2]uint32
	Data  []byte
	Meta  []byte
	Count int
	RS    int
}

// EncodeNodes writes the search tree.
func EncodeNodes(nodes [][2]uint32, rs int) []byte {
	var out []byte
	for _, n := range nodes {
		l, r := n[0], n[1]
		switch rs {
		case 24:
			out = append(out, byte(l>>16), byte(l>>8), byte(l), byte(r>>16), byte(r>>8), byte(r))
		case 28:
			out = append(out, byte(l>>16), byte(l>>8), byte(l), byte(l>>24)<<4|byte(r>>24)&0xf, byte(r>>16), byte(r>>8), byte(r))
		default:
			out = append(out, byte(l>>24), byte(l>>16), byte(l>>8), byte(l), byte(r>>24), byte(r>>16), byte(r>>8), byte(r))
		}
	}
	return out
}

// Build makes the parts.
func (a Awdb) Parts() Parts {
	e := NewEnc(a.Pad)
	var offsets []int
	for _, r := range a.Records {
		offsets = append(offsets, e.Value(r))
	}
	if a.Marker {
		e.Value(Val{T: "bytes", S: Marker})
	}
	for i := 0; i < a.Tail; i++ {
		e.Buf.WriteByte(0x40)
	}
	tree := a.tree(offsets)
	if a.Share {
		if s := ShareTree(append([][2]int{}, tree...)); len(a.Nets) <= 4*len(s) {
			tree = s
		}
	}
	count := len(tree)
	var nodes [][2]uint32
	for _, n := range tree {
		var x [2]uint32
		for j, v := range n {
			switch {
			case v == -1:
				x[j] = uint32(count)
			case v < -1:
				x[j] = uint32(count + 16 + (-v - 2))
			default:
				x[j] = uint32(v)
			}
		}
		nodes = append(nodes, x)
	}
	return Parts{Nodes: nodes, Data: e.Buf.Bytes(), Count: count, RS: a.RecordSize, Meta: a.meta(count)}
}

func num(t string, n int64) Val { return Val{T: t, S: fmt.Sprint(n)} }

// Description is the description in the metadata.
func (a Awdb) Description() map[string]string {
	d := map[string]string{"cn": "埃文科技", "data_version": "20210914"}
	if a.MetaForm&4 != 0 {
		d["database_type"] = a.Type // a key that occurs before
	}
	if a.Notes > 0 {
		d["notes"] = strings.Repeat("n", a.Notes)
	}
	return d
}

// MetaVal is the metadata map.
func (a Awdb) MetaVal(count int) Val {
	ver := int64(4)
	if a.V6 {
		ver = 6
	}
	var langs []Val
	str := func(s string) Val {
		v := Str(s)
		if a.MetaForm&2 != 0 {
			v.P = 1
		}
		return v
	}
	for _, l := range a.Langs {
		langs = append(langs, str(l))
	}
	num := func(t string, n int64) Val {
		v := num(t, n)
		v.Full = a.MetaForm&1 != 0
		return v
	}
	desc := a.Description()
	var notes []KV
	for _, k := range []string{"cn", "data_version", "database_type", "notes"} {
		if v, ok := desc[k]; ok {
			kv := KV{K: k, V: str(v)}
			if a.MetaForm&4 != 0 {
				kv.KP = 1
			}
			notes = append(notes, kv)
		}
	}
	m := []KV{
		{K: "binary_format_major_version", V: num("u16", 2)},
		{K: "binary_format_minor_version", V: num("u16", 0)},
		{K: "build_epoch", V: num("u64", a.Build)},
		{K: "database_type", V: str(a.Type)},
		{K: "description", V: Val{T: "map", M: notes}},
		{K: "ip_version", V: num("u16", ver)},
		{K: "languages", V: Val{T: "list", L: langs}},
		{K: "node_count", V: num("u32", int64(count))},
		{K: "record_size", V: num("u16", int64(a.RecordSize))},
	}
	if len(a.Order) == len(m) {
		var o []KV
		for _, i := range a.Order {
			o = append(o, m[i])
		}
		// and an entry nobody knows
		o = append(o[:4:4], append([]KV{{K: "x_unknown", V: Val{T: "map", M: []KV{{K: "a", V: Val{T: "list", L: []Val{num("u32", 7), Str("z")}}}}}}}, o[4:]...)...)
		m = o
	}
	return Val{T: "map", M: m}
}

func (a Awdb) meta(count int) []byte {
	e := NewEnc(0)
	e.Value(a.MetaVal(count))
	return e.Buf.Bytes()
}

// Bytes joins the parts.
func (p Parts) Bytes() []byte {
	out := EncodeNodes(p.Nodes, p.RS)
	out = append(out, make([]byte, 16)...)
	out = append(out, p.Data...)
	out = append(out, Marker...)
	return append(out, p.Meta...)
}

// Bytes encodes the database.
func (a Awdb) Bytes() []byte { return a.Parts().Bytes() }

// String shows the value in messages.
func (v Val) String() string {
	b, err := json.Marshal(v)
	if err != nil {
		return err.Error()
	}
	return string(b)
}
