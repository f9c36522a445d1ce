package main

import (
	"fmt"
	"slices"
	"strings"

	"verif/harness/model"
	"verif/harness/pbt"
	"verif/harness/uipx"

	"pgregory.net/rapid"
)

// AwdbCase is an awdb database and addresses to ask for.
type AwdbCase struct {
	A     model.Awdb `json:"a"`
	Extra []string   `json:"extra"`
	set   *model.Set
}

// DbCase is a database of either queryable format.
type DbCase struct {
	Ip *IpdbCase `json:"ip,omitempty"`
	Aw *AwdbCase `json:"aw,omitempty"`
}

var awKeys = []string{"country", "province", "city", "isp", "asnumber", "continent", "line"}
var awOther = []string{"timezone", "latwgs", "lngwgs", "adcode", "accuracy", "areacode", "owner", "radius", "source", "zipcode", "x", "asn2", "Country", ""}
var awField = map[string]string{"country": "country", "province": "province", "city": "city", "isp": "isp", "asnumber": "asn", "continent": "continent", "line": "line"}

func genAwText(t *rapid.T, key string) string {
	switch rapid.IntRange(0, 19).Draw(t, "textkind") {
	case 0:
		return strings.Repeat("长", rapid.IntRange(5, 100).Draw(t, "long"))
	case 1:
		return strings.Repeat("x", rapid.SampledFrom([]int{28, 29, 30, 284, 285, 286, 300, 541, 65820, 65821, 65822, 70000}).Draw(t, "size"))
	case 2:
		return ""
	}
	f, ok := awField[key]
	if !ok {
		f = key
	}
	return model.GenValue(t, f, model.ValueOpts{})
}

func genPtr(t *rapid.T, label string) int {
	if k := rapid.IntRange(0, 7).Draw(t, label); k < 5 {
		return k
	}
	return 0
}

func genAwRecord(t *rapid.T) model.Val {
	v := model.Val{T: "map", P: genPtr(t, "recptr")}
	keys := append(append([]string{}, awKeys...), awOther...)
	if rapid.IntRange(0, 9).Draw(t, "dictkey") == 0 {
		if k := model.DictName(t); k != "" && !slices.Contains(keys, k) {
			keys = append(keys, k)
		}
	}
	switch rapid.IntRange(0, 3).Draw(t, "keys") {
	case 0:
		keys = awKeys
	case 1:
		keys = rapid.Permutation(awKeys).Draw(t, "order")
	default:
		p := rapid.Permutation(keys).Draw(t, "order")
		keys = p[:rapid.IntRange(0, len(p)).Draw(t, "nkeys")]
	}
	for _, k := range keys {
		val := model.Val{T: rapid.SampledFrom([]string{"str", "str", "str", "bytes"}).Draw(t, "valtype"), S: genAwText(t, k), P: genPtr(t, "valptr")}
		v.M = append(v.M, model.KV{K: k, KP: genPtr(t, "keyptr"), V: val})
	}
	return v
}

// genAwNets draws the networks of an awdb tree, disjoint in the tree.
func genAwNets(t *rapid.T, v6, cover bool) []model.Net {
	if !v6 {
		if cover {
			n, _ := model.GenCover(t, false, 6, false)
			return n
		}
		nets := model.GenSet(t, false, 6, false)
		google := model.Net{U: model.U{L: 0x08080808}, Bits: 32}
		if _, _, ok := model.NewSetNets(nets).Find(model.Addr{U: google.U}); !ok {
			nets = append(nets, google)
		}
		return nets
	}
	if cover {
		n, _ := model.GenCover(t, true, 3, true)
		return n
	}
	nets := model.GenSet(t, true, 3, false)
	if rapid.Bool().Draw(t, "withv4") {
		low := model.Net{V6: true, Bits: 96}
		var out []model.Net
		for _, n := range nets {
			if !n.Covers(low) && !low.Covers(n) {
				out = append(out, n)
			}
		}
		nets = append(out, model.GenSet(t, false, 4, false)...)
	}
	return nets
}

func genAwdb(t *rapid.T, v6, cover bool) model.Awdb {
	nets := genAwNets(t, v6, cover)
	a := model.Awdb{RecordSize: rapid.SampledFrom([]int{24, 28, 32}).Draw(t, "recordsize"), V6: v6}
	n := rapid.IntRange(1, 5).Draw(t, "nrecords")
	for i := 0; i < n; i++ {
		if i > 0 && rapid.IntRange(0, 3).Draw(t, "again") == 0 {
			r := a.Records[rapid.IntRange(0, i-1).Draw(t, "which")]
			r.P = 1 + genPtr(t, "p")%4
			a.Records = append(a.Records, r)
			continue
		}
		a.Records = append(a.Records, genAwRecord(t))
	}
	a.Share = rapid.IntRange(0, 2).Draw(t, "share") == 0
	kinds := make([]int, len(nets))
	for i := range kinds {
		kinds[i] = -1
	}
	if rapid.IntRange(0, 3).Draw(t, "repeat") == 0 {
		nets, kinds = model.Repeat(t, nets)
	}
	idx := rapid.SliceOfN(rapid.Byte(), len(nets), len(nets)).Draw(t, "assign")
	for i, k := range kinds {
		if k >= 0 {
			idx[i] = byte(k)
		}
	}
	if v6 && !cover && rapid.IntRange(0, 2).Draw(t, "6to4") == 0 {
		// the IPv4 networks once more below 2002::/16
		u6to4 := model.Net{V6: true, U: model.U{H: 0x2002 << 48}, Bits: 16}
		var v4 []int
		free := true
		for i, x := range nets {
			if !x.V6 {
				v4 = append(v4, i)
			}
			free = free && !(x.V6 && (x.Covers(u6to4) || u6to4.Covers(x)))
		}
		if free {
			for _, i := range v4 {
				nets = append(nets, model.Net{V6: true, U: u6to4.U.Or(nets[i].U.Shl(80)), Bits: nets[i].Bits + 16})
				idx = append(idx, idx[i])
			}
		}
	}
	for i, x := range nets {
		if a.TreeNet(x).Bits == 0 { // the format can only hold it as two halves
			hi := model.Net{V6: x.V6, U: model.One.Shl(model.Width(x.V6) - 1), Bits: 1}
			a.Nets = append(a.Nets, hi.String())
			a.Rec = append(a.Rec, int(idx[i])%n)
			x.Bits = 1
		}
		a.Nets = append(a.Nets, x.String())
		a.Rec = append(a.Rec, int(idx[i])%n)
	}
	a.Pad = rapid.SampledFrom([]int{0, 0, 0, 1, 100, 1990, 2040, 2048, 2100, 65536, 526300, 526336, 530000}).Draw(t, "pad")
	a.Tail = rapid.SampledFrom([]int{0, 0, 5, 1500, 2500}).Draw(t, "tail")
	a.Build = rapid.SampledFrom([]int64{0, 1, 1631606400, 4102444800}).Draw(t, "build")
	a.Type = genText(t, "type")
	for i := rapid.IntRange(0, 3).Draw(t, "nlangs"); i > 0; i-- {
		a.Langs = append(a.Langs, rapid.SampledFrom([]string{"CN", "EN", "", "中文"}).Draw(t, "lang"))
	}
	a.Notes = rapid.SampledFrom([]int{0, 0, 0, 0, 30, 300, 1500, 1700, 2000, 5000, 70000}).Draw(t, "notes")
	a.MetaForm = rapid.SampledFrom([]int{0, 0, 1, 2, 3, 4, 6, 7}).Draw(t, "metaform")
	a.Marker = rapid.IntRange(0, 3).Draw(t, "marker") == 0
	if rapid.IntRange(0, 2).Draw(t, "metaorder") == 0 {
		a.Order = rapid.Permutation([]int{0, 1, 2, 3, 4, 5, 6, 7, 8}).Draw(t, "metaperm")
	}
	return a
}

func genAwdbCase(t *rapid.T, cover bool) AwdbCase {
	return AwdbCase{A: genAwdb(t, rapid.Bool().Draw(t, "v6tree"), cover), Extra: model.GenExtra(t)}
}

func (k *AwdbCase) tree() *model.Set {
	if k.set == nil {
		var nets []model.Net
		for _, s := range k.A.Nets {
			nets = append(nets, k.A.TreeNet(model.MustNet(s)))
		}
		k.set = model.NewSetNets(nets)
	}
	return k.set
}

// attr reads the attributes of a record.
func awRec(v model.Val) uipx.Rec {
	var f, x []string
	for _, kv := range v.M {
		if n, ok := awField[kv.K]; ok {
			f = append(f, n)
			x = append(x, kv.V.S)
		}
	}
	r := uipx.Rec{}
	for i := range f {
		r2 := uipx.Expect([]string{f[i]}, []string{x[i]})
		switch f[i] {
		case "continent":
			r.Continent = x[i] // no translation in awdb
		case "country":
			r.Country = r2.Country
		case "province":
			r.Province = r2.Province
		case "city":
			r.City = r2.City
		case "isp":
			r.Isp = r2.Isp
		case "asn":
			r.Asn = r2.Asn
		case "line":
			r.Line = r2.Line
		}
	}
	return r
}

// answer is what the model says for an address; v4 first.
func (k *AwdbCase) answer(a model.Addr) (rec uipx.Rec, mask int, ok bool) {
	if a.V6 && !k.A.V6 {
		return
	}
	q := a
	if k.A.V6 && !a.V6 {
		q = model.Addr{V6: true, U: a.U}
	}
	i, n, ok := k.tree().Find(q)
	if !ok {
		return
	}
	mask = n.Bits
	if k.A.V6 && !a.V6 && mask >= 96 {
		mask -= 96
	}
	return awRec(k.A.Records[k.A.Rec[i]]), mask, true
}

func (k *IpdbCase) answer(set *model.Set, a model.Addr) (rec uipx.Rec, mask int, ok bool) {
	if a.V6 && k.Ver.Type&2 == 0 || !a.V6 && k.Ver.Type&1 == 0 {
		return
	}
	i, n, ok := set.Find(a)
	if !ok {
		return
	}
	mask = n.Bits
	if n.V6 && mask == 0 {
		mask = 1
	}
	return uipx.Expect(k.T.Fields, k.T.Rows[i].V), mask, true
}

// opened is a database ready to be asked, with its model.
type opened struct {
	kind   string
	bytes  []byte
	answer func(model.Addr) (uipx.Rec, int, bool)
	probes func(max int) []model.Addr
	v4, v6 bool
}

func (k DbCase) open() (*opened, error) {
	if k.Ip != nil {
		b, err := uipx.Pack(".ipdb", uipx.Data(k.Ip.T, k.Ip.Ver))
		if err != nil {
			return nil, pbt.Violationf("packing fails: %v", err)
		}
		set := model.NewSet(k.Ip.T.Rows)
		return &opened{kind: ".ipdb", bytes: b,
			answer: func(a model.Addr) (uipx.Rec, int, bool) { return k.Ip.answer(set, a) },
			probes: func(max int) []model.Addr {
				return model.Probes(nets(k.Ip.T.Rows), model.ParseExtra(k.Ip.Extra), true, true, max)
			}, v4: k.Ip.Ver.Type&1 != 0, v6: k.Ip.Ver.Type&2 != 0}, nil
	}
	var nn []model.Net
	for _, s := range k.Aw.A.Nets {
		nn = append(nn, model.MustNet(s))
	}
	return &opened{kind: ".awdb", bytes: k.Aw.A.Bytes(), answer: k.Aw.answer,
		probes: func(max int) []model.Addr {
			p := model.Probes(nn, model.ParseExtra(k.Aw.Extra), true, true, max)
			if k.Aw.A.V6 {
				// the IPv4 part asked as IPv6 text and the other way round
				n := len(p)
				for i := 0; i < n; i += 3 {
					if !p[i].V6 {
						p = append(p, model.Addr{V6: true, U: p[i].U})
					} else if p[i].U.H == 0 && p[i].U.L>>32 == 0 {
						p = append(p, model.Addr{U: p[i].U})
					}
				}
			}
			return p
		}, v4: true, v6: k.Aw.A.V6}, nil
}

func genDbCase(t *rapid.T, cover bool) DbCase {
	if rapid.Bool().Draw(t, "awdb") {
		c := genAwdbCase(t, cover)
		return DbCase{Aw: &c}
	}
	v4, v6 := genFam(t)
	if cover && v4 {
		v6 = false
	}
	c := genIpdbCase(t, v4, v6, cover)
	return DbCase{Ip: &c}
}

func (k DbCase) String() string { return fmt.Sprintf("%+v", k.Ip) }
