package main

import (
	"fmt"
	"strconv"
	"strings"

	"verif/harness/model"
	"verif/harness/pbt"
	"verif/harness/uipx"

	"pgregory.net/rapid"
)

// bigTable stands for an ascending single-family table of many rows; everything follows from the numbers.
type bigTable struct {
	V6     bool   `json:"v6,omitempty"`
	Cover  bool   `json:"cover,omitempty"`
	N      int    `json:"n"`      // ranges the space is cut into
	Step   int    `json:"step"`   // their bounds are multiples of 1<<Step
	Tuples int    `json:"tuples"` // different tuples, 0 each its own
	Long   int    `json:"long,omitempty"`
	Cols   int    `json:"cols"`
	Huge   int    `json:"huge,omitempty"` // length of the city of one tuple
	Seed   uint64 `json:"seed"`
}

var bigColumns = [][]string{
	{"country", "province", "city", "isp", "asn", "continent", "district", "line"},
	{"asn", "isp", "city"},
	{"city"},
	{"line", "city", "country", "isp", "province"},
	{"district", "continent", "isp", "asn", "country", "city", "province"},
}

func genBig(t *rapid.T, max int) bigTable {
	return bigTable{
		V6: rapid.Bool().Draw(t, "v6"), Cover: rapid.Bool().Draw(t, "cover"),
		N: rapid.IntRange(2, max).Draw(t, "n"), Step: rapid.SampledFrom([]int{0, 4, 8, 12}).Draw(t, "step"),
		Tuples: rapid.SampledFrom([]int{0, 0, 2, 3, 20, 300}).Draw(t, "tuples"),
		Long:   rapid.SampledFrom([]int{0, 0, 0, 40, 400}).Draw(t, "long"),
		Cols:   rapid.IntRange(0, len(bigColumns)-1).Draw(t, "cols"), Seed: rapid.Uint64().Draw(t, "seed"),
	}
}

// genBigText is a table for a text file: sometimes of more than 65536 ranges, or with values of megabytes.
func genBigText(t *rapid.T) bigTable {
	switch rapid.IntRange(0, 23).Draw(t, "extent") {
	case 0:
		k := genBig(t, 3)
		k.N, k.Step, k.Tuples, k.Long, k.Cols = rapid.IntRange(66000, 72000).Draw(t, "n"), 12, rapid.SampledFrom([]int{0, 300}).Draw(t, "tuples"), 0, rapid.IntRange(1, 2).Draw(t, "cols")
		return k
	case 1, 2:
		k := genBig(t, 40)
		k.Huge = rapid.SampledFrom([]int{1 << 16, 1<<20 - 5, 1 << 20, 1<<21 + 3}).Draw(t, "huge")
		k.Tuples = 0
		return k
	}
	return genBig(t, 4000)
}

func (k bigTable) fields() []string { return bigColumns[k.Cols] }

var bigPools = map[string][]string{
	"country": {"中国", "中国", "中国", "美国", "日本", "保留地址", "台湾"}, "continent": {"AS", "EU", "NA", "亚洲", ""},
	"province": {"北京", "上海", "浙江省", "浙江", "广东", "香港", "新疆", "California", ""},
	"isp":      {"电信", "联通", "移动", "铁通", "中国电信", "阿里云", "教育网", ""}, "line": {"电信", "联通/移动", "", "教育网"},
	"district": {"华东", "", "华北"},
}

// tuple is the i-th tuple of values. ASNs are such that every ISP has its own.
func (k bigTable) tuple(i int) []string {
	r := rnd(k.Seed ^ uint64(i+1)<<24)
	var v []string
	isp := ""
	for _, f := range k.fields() {
		p := bigPools[f]
		s := ""
		switch {
		case f == "city":
			s = "c" + strconv.Itoa(i) + strings.Repeat("x", int(r.next()%uint64(k.Long+1)))
			if k.Huge > 0 && i == 1 {
				s += strings.Repeat("h", k.Huge)
			}
		case f != "asn":
			s = p[r.next()%uint64(len(p))]
		}
		if f == "isp" {
			isp = s
		}
		v = append(v, s)
	}
	// an AS number belongs to one main ISP, or to none and to other ISPs as well
	if j := model.Col(k.fields(), "asn"); j >= 0 {
		n := 1000 + 10*(r.next()%50)
		switch isp {
		case "电信":
			n++
		case "联通":
			n += 2
		case "移动":
			n += 3
		case "铁通":
			n += 4
		default:
			n += r.next() % 5
		}
		v[j] = strconv.FormatUint(n, 10)
	}
	return v
}

// table builds the rows.
func (k bigTable) table() model.Table {
	r := rnd(k.Seed)
	t := model.Table{Fields: k.fields()}
	var at model.U
	top := model.Max(k.V6)
	var bounds []model.U
	for i := 1; i < k.N; i++ {
		var u model.U
		if k.V6 {
			// spread over the upper half, H never 0, sometimes close together
			u = model.U{H: 0x2000<<48 + uint64(i)*(0xc000<<48/uint64(k.N)), L: 0}
			u.H += r.next() % (0xc000 << 48 / uint64(k.N))
			u.H = u.H >> (uint(k.Step) + 16) << (uint(k.Step) + 16)
		} else {
			w := uint64(1<<32) / uint64(k.N)
			u = model.U{L: uint64(i)*w + r.next()%w}
			u.L = u.L >> uint(k.Step) << uint(k.Step)
		}
		if at.Less(u) {
			bounds = append(bounds, u)
			at = u
		}
	}
	at = model.U{}
	for i := 0; i <= len(bounds); i++ {
		last := top
		if i < len(bounds) {
			last = bounds[i].Sub(model.One)
		}
		tup := i
		if k.Tuples > 0 {
			tup = int(r.next() % uint64(k.Tuples))
		}
		if k.Cover || r.next()%8 > 0 {
			v := k.tuple(tup)
			for _, n := range model.Cover(k.V6, at, last) {
				row := model.Row{N: n.String(), V: v}
				if !n.V6 {
					row.F = 4
				}
				t.Rows = append(t.Rows, row)
			}
		}
		at = last.Add(model.One)
	}
	return t
}

func (k bigTable) ver() uipx.Ver {
	typ := 1
	if k.V6 {
		typ = 2
	}
	return uipx.Ver{Type: typ, Text: "big", Build: 1600000000}
}

func (k bigTable) note(c *pbt.Ctx) {
	c.NonTrivial()
	n := 1
	for n < k.N {
		n *= 4
	}
	c.Class("up to %d ranges", n)
	if k.Huge > 0 {
		c.Class("values of %d bytes", k.Huge)
	}
}

// dbCase is the table as a database: 0 ipdb, otherwise awdb of 24, 28 or 32-bit records.
func (k bigTable) dbCase(kind int) DbCase {
	t := k.table()
	if kind == 0 {
		return DbCase{Ip: &IpdbCase{T: t, Ver: k.ver()}}
	}
	a := model.Awdb{RecordSize: 20 + 4*kind, V6: k.V6, Build: 1600000000, Type: "big", Langs: []string{"CN"}}
	seen := map[string]int{}
	keys := map[string]string{"asn": "asnumber"}
	for _, r := range t.Rows {
		id := fmt.Sprintf("%q", r.V)
		if _, ok := seen[id]; !ok {
			v := model.Val{T: "map"}
			for j, f := range t.Fields {
				if f == "district" {
					continue
				}
				if x, ok := keys[f]; ok {
					f = x
				}
				v.M = append(v.M, model.KV{K: f, V: model.Str(r.V[j])})
			}
			seen[id] = len(a.Records)
			a.Records = append(a.Records, v)
		}
		a.Nets = append(a.Nets, r.N)
		a.Rec = append(a.Rec, seen[id])
	}
	return DbCase{Aw: &AwdbCase{A: a}}
}

type bigDump struct {
	B    bigTable `json:"b"`
	Kind int      `json:"kind"`
}

type bigOps struct {
	B     bigTable `json:"b"`
	Share int      `json:"share"`
}

func (k bigOps) ops() opsCase { return opsCase{T: k.B.table(), Ver: k.B.ver(), Share: k.Share} }

type bigConv struct {
	B       bigTable `json:"b"`
	Kind    int      `json:"kind"` // -1 scan
	Line    *bigDump `json:"line,omitempty"`
	Default bool     `json:"default"`
	Replace bool     `json:"replace"`
	Out     []string `json:"out"`
}

func init() {
	const rule = "; tables of up to some thousand ranges of one family (covering or not), 1 to 20 networks each; non-trivial: always"
	pbt.Register("D01", "big", pbt.Options{Rule: "as tiling" + rule, Quick: 48, Thorough: 1500}, func(t *rapid.T) bigDump {
		k := bigDump{B: genBig(t, 1200), Kind: rapid.IntRange(0, 3).Draw(t, "kind")}
		k.B.Cover = true
		return k
	}, func(c *pbt.Ctx, k bigDump) error {
		k.B.note(c)
		return checkD01(c, dumpCase{D: k.B.dbCase(k.Kind)})
	})
	pbt.Register("F01", "big", pbt.Options{Rule: "as roundtrip" + rule + ", some with more than 65536 ranges or values of up to 2 MB", Quick: 64, Thorough: 2000}, genBigText,
		func(c *pbt.Ctx, k bigTable) error {
			k.note(c)
			return checkF01(c, scanCase{k.table(), k.ver()})
		})
	pbt.Register("F02", "big", pbt.Options{Rule: "as pack" + rule + ", some with more than 65536 ranges or values of up to 2 MB", Quick: 64, Thorough: 2000}, genBigText,
		func(c *pbt.Ctx, k bigTable) error {
			k.note(c)
			return checkF02(c, scanCase{k.table(), k.ver()})
		})
	pbt.Register("F03", "big", pbt.Options{Rule: "as dump" + rule + ", some with more than 65536 ranges or values of up to 2 MB", Quick: 64, Thorough: 2000}, genBigText,
		func(c *pbt.Ctx, k bigTable) error {
			k.note(c)
			x := memipText{V6: k.V6}
			for _, r := range joined(k.table()) {
				x.R = append(x.R, [2]string{model.Addr{V6: k.V6, U: r.a}.String(), model.Addr{V6: k.V6, U: r.b}.String()})
				x.V = append(x.V, r.v)
			}
			return checkF03(c, x)
		})
	pbt.Register("O02", "big", pbt.Options{Rule: "as merge" + rule, Quick: 64, Thorough: 2000}, genBigOps,
		func(c *pbt.Ctx, k bigOps) error {
			k.B.note(c)
			return checkO02(c, k.ops())
		})
	pbt.Register("O03", "big", pbt.Options{Rule: "as trim" + rule, Quick: 48, Thorough: 2000}, func(t *rapid.T) bigOps {
		return bigOps{B: genBig(t, 1200), Share: rapid.IntRange(0, 3).Draw(t, "share")}
	},
		func(c *pbt.Ctx, k bigOps) error {
			k.B.note(c)
			return checkO03(c, k.ops())
		})
	pbt.Register("X01", "big", pbt.Options{Rule: "as converter" + rule, Quick: 24, Thorough: 600}, func(t *rapid.T) bigConv {
		k := bigConv{B: genBig(t, 1500), Kind: rapid.IntRange(-1, 3).Draw(t, "kind"), Default: rapid.Bool().Draw(t, "default"), Replace: rapid.Bool().Draw(t, "replace")}
		k.B.Cover = true
		if rapid.Bool().Draw(t, "withline") {
			k.Line = &bigDump{B: genBig(t, 1500), Kind: rapid.IntRange(0, 3).Draw(t, "linekind")}
			k.Line.B.V6 = k.B.V6
			k.Line.B.Cols = 0
			if k.Line.Kind > 0 && !k.B.V6 {
				k.Line.B.Cover = true
			}
		}
		for n := rapid.IntRange(1, 3).Draw(t, "nout"); n > 0; n-- {
			k.Out = append(k.Out, rapid.SampledFrom([]string{".scan", ".ipdb", ".memip"}).Draw(t, "out"))
		}
		return k
	}, func(c *pbt.Ctx, k bigConv) error {
		k.B.note(c)
		x := convCase{Default: k.Default, Replace: k.Replace, Out: k.Out}
		x.S.Scan = k.Kind < 0
		x.S.D = k.B.dbCase(max(k.Kind, 0))
		if k.Line != nil {
			d := k.Line.B.dbCase(k.Line.Kind)
			x.Line = &d
		}
		return checkX01(c, x)
	})
}

func genBigOps(t *rapid.T) bigOps {
	return bigOps{B: genBig(t, 4000), Share: rapid.IntRange(0, 3).Draw(t, "share")}
}
