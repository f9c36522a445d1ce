package main

import (
	"fmt"
	"io"
	"log"
	"net"
	"strings"

	"verif/harness/model"
	"verif/harness/pbt"
	"verif/harness/uipx"

	"github.com/qiniu/uip/db/field/data"
	"github.com/qiniu/uip/db/field/operate"
	"github.com/qiniu/uip/db/inf"
	"github.com/qiniu/uip/db/query"
	"pgregory.net/rapid"
)

func init() { log.SetOutput(io.Discard) }

// opsCase is a table as an operation gets it: rows may share their value slices (dumping and
// merging make them so) and these may have spare capacity.
type opsCase struct {
	T     model.Table `json:"t"`
	Ver   uipx.Ver    `json:"ver"`
	Share int         `json:"share"` // 0 no row, 1 equal neighbours, 2 all equal rows, 3 all rows cut from one slice
	Spare int         `json:"spare"`
	Nil   bool        `json:"nil,omitempty"` // no rows: nil instead of an empty list
}

func (k opsCase) data() *inf.IpData {
	d := uipx.Data(k.T, k.Ver)
	seen := map[string][]string{}
	prev := ""
	for i := range d.Ips {
		v := make([]string, len(d.Ips[i].FieldValues), len(d.Ips[i].FieldValues)+k.Spare)
		copy(v, d.Ips[i].FieldValues)
		key := fmt.Sprintf("%q", v)
		if old, ok := seen[key]; ok && (k.Share == 2 || k.Share == 1 && prev == key) {
			v = old
		} else {
			seen[key] = v
		}
		prev = key
		d.Ips[i].FieldValues = v
	}
	if k.Share == 3 {
		// all values in one piece of memory, row after row
		var slab []string
		for i := range d.Ips {
			slab = append(slab, d.Ips[i].FieldValues...)
		}
		slab = append(slab, make([]string, k.Spare)...)
		w := len(d.Fields)
		for i := range d.Ips {
			d.Ips[i].FieldValues = slab[i*w : i*w+w]
		}
	}
	if len(d.Ips) == 0 && !k.Nil {
		d.Ips = []inf.IpRaw{}
	}
	return d
}

// opColumns draws columns, the interesting ones often present, in any order.
func opColumns(t *rapid.T, want ...string) []string {
	var cols []string
	for _, f := range want {
		if rapid.IntRange(0, 6).Draw(t, "has_"+f) > 0 {
			cols = append(cols, f)
		}
	}
	for _, f := range append(append([]string{}, model.KnownFields...), "timezone", "x") {
		if !has(want, f) && rapid.IntRange(0, 3).Draw(t, "also_"+f) == 0 {
			cols = append(cols, f)
		}
	}
	if len(cols) == 0 {
		cols = []string{"country"}
	}
	return rapid.Permutation(cols).Draw(t, "order")
}

// ascNets draws ascending disjoint networks of one family.
func ascNets(t *rapid.T, v6 bool) []model.Net {
	var nn []model.Net
	if rapid.Bool().Draw(t, "cover") {
		nn, _ = model.GenCover(t, v6, 6, true)
	} else {
		nn = model.GenSet(t, v6, 6, false)
	}
	kept := nn[:0]
	for _, n := range nn {
		if !v6 || !model.InMapped(n.First()) && !model.InMapped(n.Last()) {
			kept = append(kept, n)
		}
	}
	return kept
}

// genOps draws the rows of an operation; value draws the values of the columns it looks at.
func genOps(t *rapid.T, cols []string, tuples int, value func(t *rapid.T, f string) (string, bool)) opsCase {
	v6 := rapid.Bool().Draw(t, "v6")
	nn := ascNets(t, v6)
	n := rapid.IntRange(1, tuples).Draw(t, "tuples")
	var pal [][]string
	for i := 0; i < n; i++ {
		var v []string
		if i > 0 && rapid.IntRange(0, 2).Draw(t, "variant") == 0 {
			v = append(v, pal[rapid.IntRange(0, i-1).Draw(t, "of")]...)
			j := rapid.IntRange(0, len(cols)-1).Draw(t, "col")
			if j+1 < len(cols) && rapid.IntRange(0, 2).Draw(t, "shift") == 0 {
				// the same text when joined: "a" "b,c" against "a,b" "c"
				sep := rapid.SampledFrom([]string{",", ",", "|", "/", " ", "-", ":", ";", "_", "", "\t", "\x00", "][", ", "}).Draw(t, "sep")
				w := append([]string{}, v...)
				w[j] += sep + "q"
				v[j+1] = "q" + sep + v[j+1]
				pal = append(pal, w)
			} else if s, ok := value(t, cols[j]); ok {
				v[j] = s
			} else {
				v[j] = model.GenValue(t, cols[j], model.ValueOpts{})
			}
			pal = append(pal, v)
			continue
		}
		for _, f := range cols {
			s, ok := value(t, f)
			if !ok {
				s = model.GenValue(t, f, model.ValueOpts{})
			}
			v = append(v, s)
		}
		pal = append(pal, v)
	}
	typ := 1
	if v6 {
		typ = 2
	}
	k := opsCase{T: model.Table{Fields: cols}, Ver: genVer(t, typ),
		Share: rapid.IntRange(0, 3).Draw(t, "share"), Spare: rapid.SampledFrom([]int{0, 1, 3}).Draw(t, "spare"), Nil: rapid.Bool().Draw(t, "nil")}
	if len(nn) > 0 {
		k.T.Rows = model.Assign(t, nn, pal)
	}
	return k
}

func (k opsCase) fam(c *pbt.Ctx) {
	c.Class("type%d", k.Ver.Type)
	c.Class("share%d", k.Share)
}

// rectangular checks the shape of a table.
func rectangular(d *inf.IpData) error {
	for i, f := range d.Fields {
		if has(d.Fields[:i], f) {
			return fmt.Errorf("column %q occurs twice in %q", f, d.Fields)
		}
	}
	for i, r := range d.Ips {
		if len(r.FieldValues) != len(d.Fields) {
			return fmt.Errorf("row %d (%v) has %d values %q for %d columns %q", i, r.Cidr, len(r.FieldValues), r.FieldValues, len(d.Fields), d.Fields)
		}
	}
	return nil
}

// sameTable compares the outcome with the model; forms of networks do not matter.
func sameTable(d *inf.IpData, want model.Table) error {
	if !sameStrings(d.Fields, want.Fields) {
		return fmt.Errorf("columns %q, expected %q", d.Fields, want.Fields)
	}
	if err := rectangular(d); err != nil {
		return err
	}
	t, err := tableOf(d)
	if err != nil {
		return err
	}
	for i, r := range t.Rows {
		if i >= len(want.Rows) {
			return fmt.Errorf("%d rows, expected %d; the first too many is %s %q", len(t.Rows), len(want.Rows), r.N, r.V)
		}
		w := want.Rows[i]
		if r.N != w.N || !sameStrings(r.V, w.V) {
			return fmt.Errorf("row %d is %s %q, expected %s %q (columns %q)", i, r.N, r.V, w.N, w.V, want.Fields)
		}
	}
	if len(t.Rows) < len(want.Rows) {
		return fmt.Errorf("%d rows, expected %d", len(t.Rows), len(want.Rows))
	}
	return nil
}

// verExtra checks that only the listed things of the version changed.
func verExtra(d *inf.IpData, v uipx.Ver, count uint32, extra ...[]string) error {
	v.Count = count
	var err error
	for _, x := range extra {
		w := v
		w.Extra = x
		if err = sameVer(d.Version, w); err == nil {
			return nil
		}
	}
	return err
}

func apply(name string, op func(*inf.IpData), d *inf.IpData) error {
	if err := pbt.Try(func() { op(d) }); err != nil {
		return pbt.Violationf("%s: %v", name, err)
	}
	return nil
}

func changed(a, b model.Table) bool {
	if len(a.Rows) != len(b.Rows) {
		return true
	}
	for i := range a.Rows {
		for j := range a.Rows[i].V {
			if a.Rows[i].V[j] != b.Rows[i].V[j] {
				return true
			}
		}
	}
	return false
}

// normalisation

type customTable struct {
	Col  string      `json:"col"`
	Rows [][2]string `json:"rows"`
	CRLF bool        `json:"crlf,omitempty"`
	Junk bool        `json:"junk,omitempty"`
	Long int         `json:"long,omitempty"` // length of one more entry, the first of the table
}

func (c customTable) text() string {
	nl := "\n"
	if c.CRLF {
		nl = "\r\n"
	}
	var s strings.Builder
	if c.Long > 0 {
		s.WriteString(strings.Repeat("x", c.Long) + "\ty" + nl)
	}
	for i, r := range c.Rows {
		if c.Junk {
			s.WriteString(nl)
			if i%2 == 0 {
				s.WriteString("no tab here" + nl)
			}
		}
		s.WriteString(r[0] + "\t" + r[1])
		if i+1 < len(c.Rows) || c.Junk {
			s.WriteString(nl)
		}
	}
	return s.String()
}

type normCase struct {
	opsCase
	Custom []customTable `json:"custom,omitempty"`
}

func parseTable(s string) (m map[string]string, keys []string) {
	m = map[string]string{}
	for _, l := range strings.Split(s, "\n") {
		if i := strings.IndexByte(l, '\t'); i >= 0 {
			m[l[:i]] = l[i+1:]
			keys = append(keys, l[:i])
		}
	}
	return
}

var builtin = model.Tables{}
var builtinKeys = map[string][]string{}

func init() {
	for f, s := range map[string]string{"city": data.CityList, "province": data.ProvinceList, "isp": data.ISPList} {
		builtin[f], builtinKeys[f] = parseTable(s)
	}
}

var normCols = []string{"province", "city", "isp"}

func genNorm(t *rapid.T) normCase {
	var custom []customTable
	tables := model.Tables{}
	for f, m := range builtin {
		tables[f] = m
	}
	keys := map[string][]string{}
	for _, f := range normCols {
		keys[f] = builtinKeys[f]
		if rapid.IntRange(0, 3).Draw(t, "custom_"+f) > 0 {
			continue
		}
		ct := customTable{Col: f, CRLF: rapid.Bool().Draw(t, "crlf"), Junk: rapid.Bool().Draw(t, "junk")}
		if rapid.IntRange(0, 9).Draw(t, "longentry") == 0 {
			ct.Long = rapid.SampledFrom([]int{1000, 65530, 65536, 70000, 200000}).Draw(t, "long")
		}
		m := map[string]string{}
		n := rapid.IntRange(0, 5).Draw(t, "nentries")
		for i := 0; i < n; i++ {
			a := model.GenValue(t, f, model.ValueOpts{NoEmpty: true})
			if rapid.Bool().Draw(t, "known") {
				a = rapid.SampledFrom(builtinKeys[f]).Draw(t, "long")
			}
			if _, ok := m[a]; ok {
				continue
			}
			b := "短" + rapid.SampledFrom([]string{"", "1", "2 x", "a,b"}).Draw(t, "short")
			if len(ct.Rows) > 0 && rapid.IntRange(0, 3).Draw(t, "chain") == 0 { // a short form that is listed itself
				b = ct.Rows[rapid.IntRange(0, len(ct.Rows)-1).Draw(t, "link")][0]
			}
			m[a] = b
			ct.Rows = append(ct.Rows, [2]string{a, b})
		}
		tables[f] = m
		custom = append(custom, ct)
		keys[f] = nil
		for _, r := range ct.Rows {
			keys[f] = append(keys[f], r[0])
		}
		keys[f] = append(keys[f], builtinKeys[f][:20]...)
	}
	cols := opColumns(t, normCols...)
	k := genOps(t, cols, 6, func(t *rapid.T, f string) (string, bool) {
		switch rapid.IntRange(0, 7).Draw(t, "nv") {
		case 0: // an entry of any table in any column
			return rapid.SampledFrom(keys[rapid.SampledFrom(normCols).Draw(t, "othercol")]).Draw(t, "v"), true
		case 1:
			if has(normCols, f) {
				v := rapid.SampledFrom(keys[f]).Draw(t, "v")
				return rapid.SampledFrom([]string{v + " ", " " + v, v + v, strings.ToLower(v), strings.TrimSuffix(v, "市")}).Draw(t, "near"), true
			}
		case 2, 3, 4, 5:
			if has(normCols, f) {
				return rapid.SampledFrom(keys[f]).Draw(t, "v"), true
			}
		}
		return "", false
	})
	return normCase{k, custom}
}

func (k normCase) hasTable(f string) bool {
	for _, ct := range k.Custom {
		if ct.Col == f {
			return true
		}
	}
	return false
}

// abbreviates tells whether a short form consists of characters of the long one, in order.
func abbreviates(short, long string) bool {
	s := []rune(short)
	for _, r := range long {
		if len(s) > 0 && s[0] == r {
			s = s[1:]
		}
	}
	return len(s) == 0 && (short != "" || long == "")
}

func (k normCase) chained() bool {
	for _, ct := range k.Custom {
		for _, r := range ct.Rows {
			for _, o := range ct.Rows {
				if r[1] == o[0] {
					return true
				}
			}
		}
	}
	return false
}

func checkO01(c *pbt.Ctx, k normCase) error {
	tables := model.Tables{}
	for f, m := range builtin {
		tables[f] = m
	}
	for _, ct := range k.Custom {
		m := map[string]string{}
		for _, r := range ct.Rows {
			m[r[0]] = r[1]
		}
		tables[ct.Col] = m
		data.Load(ct.Col, ct.text())
		c.Class("own table")
	}
	defer data.LoadDefault()
	k.fam(c)
	d := k.data()
	before := len(d.Ips)
	if err := apply("normalising", operate.ReplaceShortage, d); err != nil {
		return err
	}
	want := model.Normalise(k.T, tables)
	if err := sameTable(d, want); err != nil {
		return pbt.Violationf("normalising %d rows: %v", before, err)
	}
	if err := sameVer(d.Version, k.Ver); err != nil {
		return pbt.Violationf("normalising: %v", err)
	}
	for _, f := range []string{"province", "city"} {
		col := model.Col(k.T.Fields, f)
		if col < 0 || k.hasTable(f) {
			continue
		}
		for i, r := range k.T.Rows {
			if a, b := r.V[col], want.Rows[i].V[col]; !abbreviates(b, a) {
				return pbt.Violationf("the built-in table shortens the %s %q to %q", f, a, b)
			}
		}
	}
	if k.chained() {
		c.Class("chained table")
		return nil
	}
	if err := apply("normalising again", operate.ReplaceShortage, d); err != nil {
		return err
	}
	if err := sameTable(d, want); err != nil {
		return pbt.Violationf("normalising again: %v", err)
	}
	if changed(k.T, want) {
		c.NonTrivial()
	}
	return nil
}

// merging

func checkO02(c *pbt.Ctx, k opsCase) error {
	k.fam(c)
	d := k.data()
	before := map[int]string{}
	cidrs := append([]inf.IpRaw{}, d.Ips...)
	for i, r := range cidrs {
		before[i] = fmt.Sprintf("%x %x", []byte(r.Cidr.IP), []byte(r.Cidr.Mask))
	}
	if err := apply("merging", operate.MergeNearNetwork, d); err != nil {
		return err
	}
	want := model.Merge(k.T)
	if err := sameTable(d, want); err != nil {
		return pbt.Violationf("merging: %v", err)
	}
	if err := verExtra(d, k.Ver, uint32(len(want.Rows)), k.Ver.Extra); err != nil {
		return pbt.Violationf("merging: %v", err)
	}
	for i, r := range cidrs {
		if s := fmt.Sprintf("%x %x", []byte(r.Cidr.IP), []byte(r.Cidr.Mask)); s != before[i] {
			return pbt.Violationf("merging changed the network of row %d from %s to %s", i, before[i], s)
		}
	}
	if len(want.Rows) < len(k.T.Rows) {
		c.NonTrivial()
		c.Class("merged")
	}
	if len(want.Rows) == 0 {
		c.Class("empty")
	}
	return nil
}

func genMerge(t *rapid.T) opsCase {
	cols := opColumns(t, "country", "isp")
	return genOps(t, cols, 3, func(t *rapid.T, f string) (string, bool) {
		if rapid.IntRange(0, 3).Draw(t, "mv") == 0 {
			return rapid.SampledFrom([]string{"", "a", "b", "A", " "}).Draw(t, "v"), true
		}
		return "", false
	})
}

// cleaning up ISPs

func genTrim(t *rapid.T) opsCase {
	cols := opColumns(t, "isp", "asn")
	return genOps(t, cols, 6, func(t *rapid.T, f string) (string, bool) {
		switch f {
		case "isp":
			return rapid.SampledFrom([]string{"电信", "联通", "移动", "铁通", "阿里云", "教育网", "", "电信 ", "中国电信", "鹏博士", "4134", "电信/联通"}).Draw(t, "v"), true
		case "asn":
			return rapid.SampledFrom([]string{"4134", "4837", "9808", "", "0", "04134", "AS4134", "4134,4837", "电信"}).Draw(t, "v"), true
		}
		return "", false
	})
}

func checkO03(c *pbt.Ctx, k opsCase) error {
	k.fam(c)
	choices := model.TrimChoices(k.T)
	isp := model.Col(k.T.Fields, "isp")
	var first model.Table
	for round := 0; round < 6; round++ {
		d := k.data()
		if err := apply("cleaning up ISPs", operate.TrimAsnIspDup, d); err != nil {
			return err
		}
		if err := rectangular(d); err != nil {
			return pbt.Violationf("cleaning up ISPs: %v", err)
		}
		got, err := tableOf(d)
		if err != nil {
			return pbt.Violationf("cleaning up ISPs: %v", err)
		}
		want := model.Table{Fields: k.T.Fields}
		for i, r := range k.T.Rows {
			v := append([]string{}, r.V...)
			if isp >= 0 && i < len(got.Rows) && isp < len(got.Rows[i].V) && has(choices[i], got.Rows[i].V[isp]) {
				v[isp] = got.Rows[i].V[isp]
			} else if isp >= 0 {
				v[isp] = choices[i][0]
			}
			want.Rows = append(want.Rows, model.Row{N: r.N, V: v})
			if isp >= 0 && (len(choices[i]) > 1 || choices[i][0] != r.V[isp]) {
				c.NonTrivial()
			}
			if isp >= 0 && len(choices[i]) > 1 {
				c.Class("several ISPs of one number")
			}
		}
		if err := sameTable(d, want); err != nil {
			return pbt.Violationf("cleaning up ISPs: %v", err)
		}
		if err := sameVer(d.Version, k.Ver); err != nil {
			return pbt.Violationf("cleaning up ISPs: %v", err)
		}
		if round == 0 {
			first = got
		} else if err := sameTable(d, first); err != nil {
			return pbt.Violationf("cleaning up the same data again gives something else: %v", err)
		}
	}
	return nil
}

// districts

func genDistrict(t *rapid.T) opsCase {
	prov := model.Provinces()
	cols := opColumns(t, "province", "district")
	return genOps(t, cols, 6, func(t *rapid.T, f string) (string, bool) {
		if f != "province" {
			return "", false
		}
		if rapid.IntRange(0, 3).Draw(t, "pv") == 0 {
			return rapid.SampledFrom([]string{"", "北京市", "California", "北京 ", "华东", "保留", "中国"}).Draw(t, "v"), true
		}
		return rapid.SampledFrom(prov).Draw(t, "v"), true
	})
}

func checkO04(c *pbt.Ctx, k opsCase) error {
	k.fam(c)
	d := k.data()
	if err := apply("attaching districts", operate.AttachDistrict, d); err != nil {
		return err
	}
	if err := sameVer(d.Version, k.Ver); err != nil {
		return pbt.Violationf("attaching districts: %v", err)
	}
	want := model.AttachDistrict(k.T)
	err := sameTable(d, want)
	if err != nil && !has(k.T.Fields, "province") && !has(k.T.Fields, "district") {
		// an empty column is no value either
		alt := model.Table{Fields: append(append([]string{}, k.T.Fields...), "district")}
		for _, r := range k.T.Rows {
			alt.Rows = append(alt.Rows, model.Row{N: r.N, V: append(append([]string{}, r.V...), "")})
		}
		if sameTable(d, alt) == nil {
			err = nil
		}
	}
	if err != nil {
		return pbt.Violationf("attaching districts: %v", err)
	}
	if has(k.T.Fields, "province") {
		p := model.Col(k.T.Fields, "province")
		for _, r := range k.T.Rows {
			if model.District(r.V[p]) != "" {
				c.NonTrivial()
			}
		}
	} else {
		c.Class("no province")
	}
	return nil
}

// lines from a line database

type lineCase struct {
	opsCase
	Line    DbCase      `json:"line"`              // ipdb or awdb
	Stub    model.Table `json:"stub"`              // or a source given by the check: column line
	StubVer uipx.Ver    `json:"stubVer,omitempty"` // its version
	UseStub bool        `json:"useStub"`
	Replace bool        `json:"replace"`
}

// stubLines is a line source that answers from the model.
type stubLines struct {
	set *model.Set
	t   model.Table
	ver *inf.VersionInfo
}

func (s stubLines) BuildCache([]string)           {}
func (s stubLines) VersionInfo() *inf.VersionInfo { return s.ver }
func (s stubLines) Query(ip net.IP) (*inf.IpInfo, int, error) {
	a, ok := model.FromBytes(ip)
	if !ok {
		return nil, 0, fmt.Errorf("not an address: %x", ip)
	}
	i, n, ok := s.set.Find(a)
	if !ok {
		return nil, 0, fmt.Errorf("not found")
	}
	return &inf.IpInfo{Line: s.t.Rows[i].V[0]}, n.Bits, nil
}

var lineTexts = []string{"电信", "联通", "移动", "铁通", "教育网", "", "电信/联通/阿里云", "/电信", "移动/联通", "铁通/电信", "华为/移动", "联通/", "/"}

func genLineCase(t *rapid.T) lineCase {
	k := lineCase{Replace: rapid.Bool().Draw(t, "replace"), UseStub: rapid.Bool().Draw(t, "stub")}
	cols := opColumns(t, "country", "line", "isp")
	k.opsCase = genOps(t, cols, 5, func(t *rapid.T, f string) (string, bool) {
		switch f {
		case "country":
			return rapid.SampledFrom([]string{"中国", "中国", "中国", "美国", "", "中国 ", "台湾"}).Draw(t, "v"), true
		case "isp", "line":
			return rapid.SampledFrom([]string{"电信", "联通", "移动", "铁通", "", "阿里云"}).Draw(t, "v"), true
		}
		return "", false
	})
	if !k.UseStub {
		k.Line = genDbCase(t, rapid.Bool().Draw(t, "coverline"))
		return k
	}
	// lines for the very networks of the table, split or joined at random
	k.Stub.Fields = []string{"line"}
	k.StubVer = genVer(t, 3)
	var last model.Net
	for i, r := range k.T.Rows {
		n := r.Net()
		if i > 0 && last.Covers(n) {
			continue
		}
		switch rapid.IntRange(0, 3).Draw(t, "linenet") {
		case 0:
			continue
		case 1:
			if n.Bits < model.Width(n.V6) { // only its first half
				n = model.Net{V6: n.V6, U: n.U, Bits: n.Bits + 1}
			}
		case 2:
			if n.Bits > 0 {
				up := model.Net{V6: n.V6, U: n.U, Bits: n.Bits - 1}.Canon()
				if i == 0 || !up.Covers(last) && last.Last().Less(up.First()) {
					n = up
				}
			}
		}
		last = n
		k.Stub.Rows = append(k.Stub.Rows, model.Row{N: n.String(), V: []string{rapid.SampledFrom(lineTexts).Draw(t, "line")}})
	}
	return k
}

func (k lineCase) source() (q inf.Query, lines model.Lines, err error) {
	if k.UseStub {
		s := model.NewSet(k.Stub.Rows)
		ver := k.StubVer.Info()
		lines = func(n model.Net) string {
			if i, _, ok := s.Find(model.Addr{V6: n.V6, U: n.U}); ok {
				return k.Stub.Rows[i].V[0]
			}
			return ""
		}
		return stubLines{s, k.Stub, ver}, lines, nil
	}
	o, err := k.Line.open()
	if err != nil {
		return nil, nil, err
	}
	db, err := uipx.Load(o.kind, o.bytes)
	if err != nil {
		return nil, nil, pbt.Violationf("loading the line database fails: %v", err)
	}
	lines = func(n model.Net) string {
		rec, _, ok := o.answer(model.Addr{V6: n.V6, U: n.U})
		if !ok {
			return ""
		}
		return rec.Line
	}
	return query.GetIntern(db), lines, nil
}

func checkO05(c *pbt.Ctx, k lineCase) error {
	k.fam(c)
	q, lines, err := k.source()
	if err != nil {
		return err
	}
	d := k.data()
	op, what := operate.AttachLineByCidr, "attaching lines"
	want := model.AttachLine(k.T, lines)
	target := "line"
	if k.Replace {
		op, what = operate.ReplaceLineByCidr, "replacing ISPs by lines"
		want = model.ReplaceLine(k.T, lines)
		target = "isp"
	}
	c.Class("%s", what)
	if err := apply(what, func(d *inf.IpData) { op(d, q) }, d); err != nil {
		return err
	}
	err = sameTable(d, want)
	if err != nil && !k.Replace && !has(k.T.Fields, "country") {
		// no row is known to be in China: an empty column is all right, too
		alt := k.T
		j := model.Col(alt.Fields, "line")
		if j < 0 {
			alt = model.Table{Fields: append(append([]string{}, k.T.Fields...), "line")}
		}
		rows := []model.Row{}
		for _, r := range k.T.Rows {
			v := append(append([]string{}, r.V...), "")
			if j >= 0 {
				v = append([]string{}, r.V...)
				v[j] = ""
			}
			rows = append(rows, model.Row{N: r.N, V: v})
		}
		alt.Rows = rows
		if sameTable(d, alt) == nil {
			err = nil
		}
	}
	if err != nil {
		return pbt.Violationf("%s: %v", what, err)
	}
	ver := q.VersionInfo()
	x := append(append([]string{}, k.Ver.Extra...), fmt.Sprintf("%s-%d", ver.Version, ver.Build))
	if err := verExtra(d, k.Ver, k.Ver.Count, x); err != nil {
		return pbt.Violationf("%s: %v", what, err)
	}
	if has(k.T.Fields, "country") {
		j := model.Col(want.Fields, target)
		seen := map[string]bool{}
		for _, r := range want.Rows {
			if j >= 0 {
				seen[r.V[j]] = true
			}
		}
		if len(seen) > 1 {
			c.NonTrivial()
		}
	}
	return nil
}

// lines from AS numbers

type asnLineCase struct {
	opsCase
	Lines map[string]string `json:"lines"`
	Text  string            `json:"text"`
}

func genAsnLine(t *rapid.T) asnLineCase {
	asns := []string{"4134", "4837", "9808", "", "0", "AS4134", "15169"}
	cols := opColumns(t, "asn", "line")
	k := asnLineCase{Text: genText(t, "asnver"), Lines: map[string]string{}}
	for _, a := range asns {
		if rapid.IntRange(0, 2).Draw(t, "listed") > 0 {
			k.Lines[a] = rapid.SampledFrom(lineTexts).Draw(t, "line")
		}
	}
	k.opsCase = genOps(t, cols, 6, func(t *rapid.T, f string) (string, bool) {
		switch f {
		case "asn":
			return rapid.SampledFrom(asns).Draw(t, "v"), true
		case "line":
			return rapid.SampledFrom([]string{"", "", "电信", "移动"}).Draw(t, "v"), true
		}
		return "", false
	})
	return k
}

func checkO06(c *pbt.Ctx, k asnLineCase) error {
	k.fam(c)
	d := k.data()
	if err := apply("attaching lines by AS number", func(d *inf.IpData) { operate.AttachLineByAsn(d, k.Lines, k.Text) }, d); err != nil {
		return err
	}
	want := model.AttachLineByAsn(k.T, k.Lines)
	if err := sameTable(d, want); err != nil {
		return pbt.Violationf("attaching lines by AS number: %v", err)
	}
	ok := [][]string{append(append([]string{}, k.Ver.Extra...), k.Text)}
	if !has(k.T.Fields, "asn") {
		ok = append(ok, k.Ver.Extra)
		c.Class("no asn")
	}
	if err := verExtra(d, k.Ver, k.Ver.Count, ok...); err != nil {
		return pbt.Violationf("attaching lines by AS number: %v", err)
	}
	if j := model.Col(want.Fields, "line"); j >= 0 {
		seen := map[string]bool{}
		for _, r := range want.Rows {
			seen[r.V[j]] = true
		}
		if len(seen) > 1 && has(k.T.Fields, "asn") {
			c.NonTrivial()
		}
	}
	return nil
}

func init() {
	pbt.Register("O01", "normalise", pbt.Options{
		Rule:  "random tables (rows sharing value slices, any column order) holding entries of the built-in or of loaded tables in matching and other columns, near misses of entries; compared with the table model, twice; non-trivial: a value is replaced",
		Quick: 72000, Thorough: 800000,
	}, genNorm, checkO01)
	pbt.Register("O02", "merge", pbt.Options{
		Rule:  "ascending disjoint IPv4 or IPv6 rows with few distinct tuples, covering or with holes, empty ones too; compared with the maximal-run model; non-trivial: fewer rows afterwards",
		Quick: 48000, Thorough: 800000,
	}, genMerge, checkO02)
	pbt.Register("O03", "trim", pbt.Options{
		Rule:  "rows over small sets of ISPs and AS numbers in any column order; result must be one of the allowed ISPs per row and the same in six runs; non-trivial: a row is rewritten",
		Quick: 48000, Thorough: 800000,
	}, genTrim, checkO03)
	pbt.Register("O04", "district", pbt.Options{
		Rule:  "rows over all provinces and other values, with and without province and district columns; compared with the table of regions; non-trivial: a row gets a region",
		Quick: 72000, Thorough: 800000,
	}, genDistrict, checkO04)
	pbt.Register("O05", "line", pbt.Options{
		Rule:  "rows inside and outside China with lines from generated ipdb and awdb databases or a source answering for parts of the rows; attach and replace; compared with the model; non-trivial: rows end up with different lines",
		Quick: 32000, Thorough: 500000,
	}, genLineCase, checkO05)
	pbt.Register("O06", "asnline", pbt.Options{
		Rule:  "rows and AS number tables over a small set, with and without line and AS number columns; compared with the model; non-trivial: rows end up with different lines",
		Quick: 72000, Thorough: 800000,
	}, genAsnLine, checkO06)
}
