package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"net"
	"os"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"time"

	"verif/harness/model"
	"verif/harness/pbt"
	"verif/harness/uipx"

	"github.com/qiniu/uip/db/convert"
	"github.com/qiniu/uip/db/field/export"
	"github.com/qiniu/uip/db/format"
	"github.com/qiniu/uip/db/format/awdb"
	"github.com/qiniu/uip/db/inf"
	"github.com/qiniu/uip/db/query"
	"pgregory.net/rapid"
)

// dumpBytes reads a database of any format with an export rule.
func dumpBytes(kind string, b []byte, rule string) (d *inf.IpData, err error) {
	if perr := pbt.Try(func() { d, err = format.GetDumpFormat(kind)(b, export.ParseRule(rule)) }); perr != nil {
		return nil, fmt.Errorf("dumping panics: %w", perr)
	}
	if err == nil && d == nil {
		return nil, fmt.Errorf("dumping gives neither data nor an error")
	}
	if err == nil && d.Version == nil {
		return nil, fmt.Errorf("dumping gives data without version information")
	}
	return
}

// brokenDump tells an error of dumpBytes that no bytes excuse.
func brokenDump(err error) bool {
	if err == nil {
		return false
	}
	s := err.Error()
	return strings.HasPrefix(s, "dumping panics") || strings.HasPrefix(s, "dumping gives")
}

// tableOf reads back library data; the forms of networks are dropped.
func tableOf(d *inf.IpData) (model.Table, error) {
	t := model.Table{Fields: append([]string{}, d.Fields...)}
	for i, r := range d.Ips {
		n, err := model.FromIPNet(r.Cidr)
		if err != nil {
			return t, fmt.Errorf("row %d: %v", i, err)
		}
		t.Rows = append(t.Rows, model.Row{N: n.String(), V: append([]string{}, r.FieldValues...)})
	}
	return t, nil
}

func sameVer(got *inf.VersionInfo, want uipx.Ver) error {
	if got == nil {
		return fmt.Errorf("no version information")
	}
	if int(got.IpType) != want.Type || got.Build != want.Build || got.Version != want.Text || got.Count != want.Count ||
		!sameStrings(got.Languages, want.Langs) || !sameStrings(got.ExtraInfo, want.Extra) {
		return fmt.Errorf("version information %v, expected %+v", got, want)
	}
	return nil
}

func sameStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// internal column names of ipdb, which a user would not use as his own
func genCoverCase(t *rapid.T) DbCase { return genDbCase(t, true) }

type dumpCase struct {
	D    DbCase `json:"d"`
	Rule string `json:"rule"`
	File bool   `json:"file"`
}

var ipdbKnown = append(append([]string{}, model.KnownFields...), "utcOffset", "latitude", "longitude", "chinaAdminCode")
var awKnown = []string{"country", "province", "city", "isp", "asn", "continent", "line"}

// known lists the columns of a source a rule can name, in the order of the source.
func (k DbCase) known() []string {
	if k.Ip == nil {
		return awKnown
	}
	var out []string
	for _, f := range k.Ip.T.Fields {
		if has(ipdbKnown, f) {
			out = append(out, f)
		}
	}
	return out
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// full gives all attributes of the record an address is stored under.
func (k DbCase) full(set *model.Set, a model.Addr) (map[string]string, bool) {
	out := map[string]string{}
	if k.Ip != nil {
		i, _, ok := set.Find(a)
		if !ok {
			return nil, false
		}
		for j, f := range k.Ip.T.Fields {
			v := k.Ip.T.Rows[i].V[j]
			if f == "continent" {
				v = uipx.Continent(v)
			}
			out[f] = v
		}
		return out, true
	}
	i, _, ok := k.Aw.tree().Find(a)
	if !ok {
		return nil, false
	}
	for _, kv := range k.Aw.A.Records[k.Aw.A.Rec[i]].M {
		if f, ok := awField[kv.K]; ok {
			out[f] = kv.V.S
		}
	}
	return out, true
}

func (k DbCase) rowSet() *model.Set {
	if k.Ip != nil {
		return model.NewSet(k.Ip.T.Rows)
	}
	return nil
}

func genRuleColumns(t *rapid.T, known []string) []string {
	pool := append([]string{}, known...)
	for _, f := range append(append([]string{}, model.KnownFields...), "nosuch", "region_name2") {
		if !has(pool, f) {
			pool = append(pool, f)
		}
	}
	p := rapid.Permutation(pool).Draw(t, "cols")
	return p[:rapid.IntRange(1, len(p)).Draw(t, "ncols")]
}

func init() {
	pbt.Register("D01", "tiling", pbt.Options{
		Rule:  "random covering ipdb and awdb databases dumped with no rule or a random column list, from memory or a file; rows must tile the space and agree with the model and with lookups; non-trivial: at least 3 rows with at least 2 different values",
		Quick: 16000, Thorough: 300000,
	}, func(t *rapid.T) dumpCase {
		k := dumpCase{D: genCoverCase(t)}
		if rapid.Bool().Draw(t, "ruled") {
			k.Rule = strings.Join(genRuleColumns(t, k.D.known()), ",")
		}
		k.File = rapid.IntRange(0, 3).Draw(t, "file") == 0
		return k
	}, checkD01)
	pbt.Register("V01", "ipdb", pbt.Options{
		Rule:  "random version texts, extra information, families and columns packed to ipdb and read back by loading and dumping; non-trivial: a version text or extra information is given",
		Quick: 16000, Thorough: 300000,
	}, func(t *rapid.T) IpdbCase {
		v4, v6 := genFam(t)
		return genIpdbCase(t, v4, v6, true)
	}, checkV01)
	pbt.Register("V01", "awdb", pbt.Options{
		Rule:  "random metadata in awdb databases read back by loading and dumping; non-trivial: a type and a language are given",
		Quick: 12000, Thorough: 200000,
	}, func(t *rapid.T) AwdbCase { return genAwdbCase(t, true) }, checkV01aw)
	pbt.Register("V01", "large", pbt.Options{
		Rule:  "databases of both formats with up to several hundred thousand tree nodes; non-trivial: more than 65535 nodes",
		Quick: 24, Thorough: 400, NoShrink: true,
	}, func(t *rapid.T) bigAwdb {
		return bigAwdb{V6: rapid.Bool().Draw(t, "v6"), RS: rapid.SampledFrom([]int{0, 0, 24, 28, 32}).Draw(t, "rs"), N: rapid.SampledFrom([]int{500, 2000, 5000, 9000}).Draw(t, "n"), Seed: rapid.Uint64().Draw(t, "seed")}
	}, checkBigVersion)
	pbt.Register("F01", "roundtrip", pbt.Options{
		Rule:  "random tables of either or both families in any order are packed to scan text and dumped again, without a rule and with one naming all columns; non-trivial: at least 2 rows and 2 columns",
		Quick: 16000, Thorough: 500000,
	}, func(t *rapid.T) scanCase {
		k := genScanCase(t)
		if rapid.IntRange(0, 15).Draw(t, "nameless") == 0 {
			k.T.Fields = append([]string{}, k.T.Fields...)
			k.T.Fields[rapid.IntRange(0, len(k.T.Fields)-1).Draw(t, "namelesscol")] = ""
		}
		return k
	}, checkF01)
	pbt.Register("F02", "pack", pbt.Options{
		Rule:  "random ascending single-family tables packed to memip; the lines are parsed independently and compared with the model of views and joined ranges; non-trivial: some rows are joined and at least 2 ranges remain",
		Quick: 16000, Thorough: 500000,
	}, genMemipCase, checkF02)
	pbt.Register("F03", "dump", pbt.Options{
		Rule:  "random memip texts (ascending or unordered ranges of one family) dumped; non-trivial: at least 2 ranges, one needing several networks",
		Quick: 16000, Thorough: 500000,
	}, genMemipText, checkF03)
	pbt.Register("F03", "roundtrip", pbt.Options{
		Rule:  "random tables packed to memip and dumped again: every address keeps its view; non-trivial: at least 2 rows",
		Quick: 8000, Thorough: 300000,
	}, genMemipCase, checkF03rt)
	pbt.Register("F04", "pack-pure", pbt.Options{
		Rule:  "one table packed several times to random formats in random order; the table must not change and every output must equal the one written alone, apart from the build time; non-trivial: at least 2 different formats",
		Quick: 30000, Thorough: 300000,
	}, genPureCase, checkF04)
	pbt.Register("F05", "failing-writer", pbt.Options{
		Rule:  "packing to a writer that refuses bytes after a random point (also short writes, and a full device); packing must fail exactly when bytes were refused; non-trivial: bytes are refused",
		Quick: 30000, Thorough: 300000,
	}, genFailCase, checkF05)
	pbt.Register("F05", "unsupported", pbt.Options{
		Rule:  "reading, querying and writing files of unsupported formats, and unreadable ones: an error, files untouched; non-trivial: always",
		Quick: 2000, Thorough: 40000,
	}, func(t *rapid.T) unsupCase {
		return unsupCase{Ext: rapid.SampledFrom([]string{"", ".txt", ".qnip", ".IPDB", ".ipdb ", ".mmdb", ".scan2", "ipdb", ".awdb", ".scan", ".memip", ".ipdb", ".gz"}).Draw(t, "ext"),
			Op: rapid.SampledFrom([]string{"open", "openbytes", "dump", "pack", "packbytes", "openmissing", "dumpmissing", "packmissing"}).Draw(t, "op"),
			T:  genScanCase(t).T, Content: rapid.SampledFrom([]string{"", "precious", "#### x\n"}).Draw(t, "content")}
	}, checkUnsupported)
}

func checkD01(c *pbt.Ctx, k dumpCase) error {
	o, err := k.D.open()
	if err != nil {
		return err
	}
	c.Class("%s", o.kind)
	var d *inf.IpData
	if k.File {
		c.Class("file")
		f := filepath.Join(c.Dir(), "x"+o.kind)
		if err := os.WriteFile(f, o.bytes, 0o600); err != nil {
			return pbt.Infra(err)
		}
		if perr := pbt.Try(func() { d, err = convert.DumpFile(f, k.Rule, nil) }); perr != nil {
			return perr
		}
	} else {
		d, err = dumpBytes(o.kind, o.bytes, k.Rule)
	}
	if err != nil {
		return pbt.Violationf("dumping fails: %v", err)
	}
	v6 := k.D.Ip != nil && k.D.Ip.Ver.Type == 2 || k.D.Aw != nil && k.D.Aw.A.V6
	known := k.D.known()
	cols := known
	if k.Rule != "" {
		cols = strings.Split(k.Rule, ",")
	}
	if !sameStrings(d.Fields, cols) {
		return pbt.Violationf("columns %v, expected %v", d.Fields, cols)
	}
	t, err := tableOf(d)
	if err != nil {
		return pbt.Violationf("%v", err)
	}
	db, err := uipx.Load(o.kind, o.bytes)
	if err != nil {
		return pbt.Violationf("loading fails: %v", err)
	}
	set := k.D.rowSet()
	next := model.U{}
	end := false
	extra := model.U{H: 0x0123456789abcdef, L: 0x0246813579bdf135}
	vals := map[string]bool{}
	for i, r := range t.Rows {
		n := r.Net()
		if n.V6 != v6 || end || n.First() != next {
			return pbt.Violationf("row %d is %v, expected the network starting at %v", i, n, model.Addr{V6: v6, U: next})
		}
		if n.Last() == model.Max(v6) {
			end = true
		}
		next = n.Last().Add(model.One)
		if len(r.V) != len(cols) {
			return pbt.Violationf("row %d (%v) has %d values for %d columns", i, n, len(r.V), len(cols))
		}
		vals[strings.Join(r.V, "\x00")] = true
		h := n.Last().Sub(n.First())
		for _, u := range []model.U{n.First(), n.Last(), n.First().Or(extra.And(h))} {
			a := model.Addr{V6: v6, U: u}
			if v6 && model.InMapped(u) {
				continue
			}
			want, ok := k.D.full(set, a)
			if !ok {
				return pbt.Infra(fmt.Errorf("%v is not covered in the model", a))
			}
			got, err := uipx.Ask(db, a.IP())
			if err != nil {
				return pbt.Violationf("%v: %v", a, err)
			}
			if !got.OK {
				return pbt.Violationf("%v stands in row %v but the lookup fails: %s", a, n, got.Err)
			}
			for j, f := range cols {
				w := ""
				if has(known, f) {
					w = want[f]
				}
				if r.V[j] != w {
					return pbt.Violationf("%v in row %v: %s is %q, stored %q", a, n, f, r.V[j], w)
				}
				if has(model.KnownFields, f) && (k.D.Ip != nil || f != "district") {
					if got.Rec.Get(f) != r.V[j] {
						return pbt.Violationf("%v in row %v: dumped %s is %q, looked up %q", a, n, f, r.V[j], got.Rec.Get(f))
					}
				}
			}
		}
	}
	if !end {
		return pbt.Violationf("the rows end before %v", model.Addr{V6: v6, U: next})
	}
	if len(t.Rows) >= 3 && len(vals) >= 2 {
		c.NonTrivial()
	}
	return nil
}

func checkV01(c *pbt.Ctx, k IpdbCase) error {
	t0 := time.Now().Unix()
	b, err := uipx.Pack(".ipdb", uipx.Data(k.T, k.Ver))
	t1 := time.Now().Unix()
	if err != nil {
		return pbt.Violationf("packing fails: %v", err)
	}
	db, err := uipx.Load(".ipdb", b)
	if err != nil {
		return pbt.Violationf("loading fails: %v", err)
	}
	count, _, err := storedMeta(b)
	if err != nil {
		return err
	}
	check := func(how string, v *inf.VersionInfo) error {
		if v == nil {
			return pbt.Violationf("%s: no version information", how)
		}
		if int(v.IpType) != k.Ver.Type {
			return pbt.Violationf("%s: family %d, packed %d", how, v.IpType, k.Ver.Type)
		}
		if v.Build < t0 || v.Build > t1 {
			return pbt.Violationf("%s: build time %d outside the time of packing %d..%d", how, v.Build, t0, t1)
		}
		want := k.Ver.Text
		if want == "" {
			want = "ipip.net-" + time.Unix(v.Build, 0).UTC().Format("2006-01-02")
		}
		if v.Version != want {
			return pbt.Violationf("%s: version %q, expected %q", how, v.Version, want)
		}
		if !sameStrings(v.ExtraInfo, k.Ver.Extra) {
			return pbt.Violationf("%s: extra information %q, packed %q", how, v.ExtraInfo, k.Ver.Extra)
		}
		if fmt.Sprint(v.Count) != count {
			return pbt.Violationf("%s: %d nodes, the tree has %s", how, v.Count, count)
		}
		if !sameStrings(v.Languages, []string{"CN"}) {
			return pbt.Violationf("%s: languages %q", how, v.Languages)
		}
		return nil
	}
	if err := check("loaded", db.VersionInfo()); err != nil {
		return err
	}
	if err := familyOf(db.VersionInfo(), k.Ver.Type&1 != 0, k.Ver.Type&2 != 0); err != nil {
		return err
	}
	c.Class("type%d", k.Ver.Type)
	if k.Ver.Type != 3 {
		d, err := dumpBytes(".ipdb", b, "")
		if err != nil {
			return pbt.Violationf("dumping fails: %v", err)
		}
		if err := check("dumped", d.Version); err != nil {
			return err
		}
		if want := (DbCase{Ip: &k}).known(); !sameStrings(d.Fields, want) {
			return pbt.Violationf("columns %v, packed %v", d.Fields, want)
		}
	}
	if k.Ver.Text != "" || len(k.Ver.Extra) > 0 {
		c.NonTrivial()
	}
	return nil
}

// familyOf checks what the version information answers about the families.
func familyOf(v *inf.VersionInfo, v4, v6 bool) error {
	if v.HasIpV4() != v4 || v.HasIpV6() != v6 || v.IsIpAll() != (v4 && v6) || v.IsIpV4() != (v4 && !v6) || v.IsIpV6() != (v6 && !v4) {
		return pbt.Violationf("a database with IPv4 %v and IPv6 %v says HasIpV4 %v, HasIpV6 %v, IsIpAll %v, IsIpV4 %v, IsIpV6 %v", v4, v6,
			v.HasIpV4(), v.HasIpV6(), v.IsIpAll(), v.IsIpV4(), v.IsIpV6())
	}
	return nil
}

func checkV01aw(c *pbt.Ctx, k AwdbCase) error {
	b := k.A.Bytes()
	db, err := uipx.Load(".awdb", b)
	if err != nil {
		return pbt.Violationf("loading fails: %v", err)
	}
	d, err := dumpBytes(".awdb", b, "")
	if err != nil {
		return pbt.Violationf("dumping fails: %v", err)
	}
	typ := inf.IpV4
	if k.A.V6 {
		typ = inf.IpV6
	}
	for i, v := range []*inf.VersionInfo{db.VersionInfo(), d.Version} {
		if v == nil || v.IpType != typ || v.Build != k.A.Build || v.Version != "ipplus360"+k.A.Type || !sameStrings(v.Languages, k.A.Langs) {
			return pbt.Violationf("version information (%d) %v, metadata has family %d, build %d, type %q, languages %q", i, v, typ, k.A.Build, k.A.Type, k.A.Langs)
		}
		if err := familyOf(v, !k.A.V6, k.A.V6); err != nil {
			return err
		}
		if int(v.Count) != k.A.Parts().Count {
			return pbt.Violationf("version information (%d): %d nodes, the tree has %d", i, v.Count, k.A.Parts().Count)
		}
	}
	r, err := awdb.FromBytes(b)
	if err != nil {
		return pbt.Violationf("the reader cannot load it: %v", err)
	}
	ver := uint(4)
	if k.A.V6 {
		ver = 6
	}
	m := r.Metadata
	if m.BinaryFormatMajorVersion != 2 || m.BinaryFormatMinorVersion != 0 || m.BuildEpoch != uint(k.A.Build) || m.DatabaseType != k.A.Type || m.IPVersion != ver ||
		!sameStrings(m.Languages, k.A.Langs) || m.RecordSize != uint(k.A.RecordSize) || m.NodeCount != uint(k.A.Parts().Count) ||
		!reflect.DeepEqual(m.Description, k.A.Description()) {
		return pbt.Violationf("the reader's metadata %+v, recorded: %+v with %d nodes", m, k.A, k.A.Parts().Count)
	}
	if k.A.Type != "" && len(k.A.Langs) > 0 {
		c.NonTrivial()
	}
	return nil
}

// scan

type scanCase struct {
	T   model.Table `json:"t"`
	Ver uipx.Ver    `json:"ver"`
}

func genScanCase(t *rapid.T) scanCase {
	v4, v6 := genFam(t)
	c := genIpdbCase(t, v4, v6, false)
	if len(c.T.Rows) > 0 && rapid.IntRange(0, 30).Draw(t, "longvalue") == 0 {
		r := rapid.IntRange(0, len(c.T.Rows)-1).Draw(t, "row")
		c.T.Rows[r].V[0] = strings.Repeat("长", rapid.SampledFrom([]int{1000, 21840, 30000}).Draw(t, "len"))
	}
	if n := len(c.T.Rows); n > 0 && rapid.IntRange(0, 9).Draw(t, "repeat") == 0 {
		// the same row again, beside it or elsewhere
		r, at := rapid.IntRange(0, n-1).Draw(t, "again"), rapid.IntRange(0, n).Draw(t, "at")
		if rapid.Bool().Draw(t, "beside") {
			at = r
		}
		rows := append([]model.Row{}, c.T.Rows[:at]...)
		again := c.T.Rows[r]
		again.V = append([]string{}, again.V...)
		c.T.Rows = append(append(rows, again), c.T.Rows[at:]...)
	}
	return scanCase{c.T, c.Ver}
}

func checkF01(c *pbt.Ctx, k scanCase) error {
	b, err := uipx.Pack(".scan", uipx.Data(k.T, k.Ver))
	if err != nil {
		return pbt.Violationf("packing fails: %v", err)
	}
	for _, rule := range []string{"", strings.Join(k.T.Fields, ",")} {
		how := "without a rule"
		if rule != "" && has(k.T.Fields, "") {
			break // no rule can name a column without a name
		}
		if rule != "" {
			how = "with a rule naming all columns"
		}
		d, err := dumpBytes(".scan", b, rule)
		if err != nil {
			return pbt.Violationf("dumping %s fails: %v", how, err)
		}
		if err := sameVer(d.Version, k.Ver); err != nil {
			return pbt.Violationf("%s: %v", how, err)
		}
		if !sameStrings(d.Fields, k.T.Fields) {
			return pbt.Violationf("%s: columns %q, packed %q", how, d.Fields, k.T.Fields)
		}
		t, err := tableOf(d)
		if err != nil {
			return pbt.Violationf("%s: %v", how, err)
		}
		if len(t.Rows) != len(k.T.Rows) {
			return pbt.Violationf("%s: %d rows, packed %d", how, len(t.Rows), len(k.T.Rows))
		}
		for i, r := range k.T.Rows {
			var want []string
			for _, v := range r.V {
				want = append(want, strings.ReplaceAll(v, ",", "_"))
			}
			if t.Rows[i].N != r.N || !sameStrings(t.Rows[i].V, want) {
				return pbt.Violationf("%s: row %d is %s %.200q, packed %s %.200q", how, i, t.Rows[i].N, t.Rows[i].V, r.N, want)
			}
		}
	}
	if len(k.T.Rows) >= 2 && len(k.T.Fields) >= 2 {
		c.NonTrivial()
	}
	c.Class("type%d", k.Ver.Type)
	return nil
}

// memip

var memipCols = []string{"city", "province", "district", "isp", "country", "continent"}

// view is the model of the memip columns.
func view(fields, values []string) [6]string {
	var out [6]string
	for i, c := range memipCols {
		v := ""
		for j, f := range fields {
			if f == c {
				v = values[j]
			}
		}
		if v == "" || strings.HasPrefix(v, "保留") {
			v = "默认"
		}
		switch c {
		case "continent":
			v = uipx.Continent(v)
		case "isp":
			if v != "电信" && v != "联通" && v != "移动" && v != "默认" {
				v = "其他"
			}
		}
		out[i] = v
	}
	if out[1] == "香港" || out[1] == "澳门" || out[1] == "台湾" {
		out[2] = "默认"
	}
	return out
}

type memRange struct {
	a, b model.U
	v    [6]string
}

// joined is the model of the ranges of a memip file.
func joined(t model.Table) []memRange {
	var out []memRange
	for _, r := range t.Rows {
		n := r.Net()
		v := view(t.Fields, r.V)
		if k := len(out) - 1; k >= 0 && out[k].b.Add(model.One) == n.First() && [5]string(out[k].v[1:]) == [5]string(v[1:]) {
			out[k].b = n.Last()
			continue
		}
		out = append(out, memRange{n.First(), n.Last(), v})
	}
	return out
}

func genMemipCase(t *rapid.T) scanCase {
	v6 := rapid.Bool().Draw(t, "v6")
	var nn []model.Net
	if rapid.Bool().Draw(t, "cover") {
		nn, _ = model.GenCover(t, v6, 6, true)
	} else {
		nn = model.GenSet(t, v6, 6, false)
	}
	if v6 { // an end inside the mapped block has no IPv6 text of its own
		kept := nn[:0]
		for _, n := range nn {
			if !model.InMapped(n.First()) && !model.InMapped(n.Last()) {
				kept = append(kept, n)
			}
		}
		nn = kept
	}
	fields := model.GenFields(t, rapid.Bool().Draw(t, "extra"))
	var rows []model.Row
	if len(nn) > 0 {
		rows = model.Assign(t, nn, model.GenPalette(t, fields, 3, model.ValueOpts{NoDash: true}))
		if rapid.IntRange(0, 5).Draw(t, "confusing") == 3 {
			// the columns that no view shows may hold anything
			sep := rapid.SampledFrom([]string{"-", " ", ",", "|"}).Draw(t, "confusesep")
			model.Confuse(t, rows, sep, func(c int) bool {
				for _, f := range memipCols {
					if f == fields[c] {
						return sep == "," || sep == "|"
					}
				}
				return true
			})
		}
	}
	typ := 1
	if v6 {
		typ = 2
	}
	return scanCase{model.Table{Fields: fields, Rows: rows}, genVer(t, typ)}
}

func parseMemip(b []byte, v6 bool) ([]memRange, error) {
	var out []memRange
	if len(b) == 0 {
		return nil, nil
	}
	s := string(b)
	if !strings.HasSuffix(s, "\n") {
		return nil, fmt.Errorf("the last line is not ended")
	}
	for i, l := range strings.Split(strings.TrimSuffix(s, "\n"), "\n") {
		p := strings.Split(l, " ")
		if len(p) != 3 {
			return nil, fmt.Errorf("line %d: %q", i, l)
		}
		var r memRange
		for j, x := range p[:2] {
			var u model.U
			if v6 {
				a, ok := model.ParseAddr(x)
				if !ok || !a.V6 {
					return nil, fmt.Errorf("line %d: %q", i, l)
				}
				u = a.U
			} else {
				n, err := strconv.ParseUint(x, 10, 32)
				if err != nil {
					return nil, fmt.Errorf("line %d: %q", i, l)
				}
				u = model.U{L: n}
			}
			if j == 0 {
				r.a = u
			} else {
				r.b = u
			}
		}
		v := strings.Split(p[2], "-")
		if len(v) != 6 {
			return nil, fmt.Errorf("line %d: view %q", i, p[2])
		}
		r.v = [6]string(v)
		out = append(out, r)
	}
	return out, nil
}

func checkF02(c *pbt.Ctx, k scanCase) error {
	v6 := k.Ver.Type == 2
	b, err := uipx.Pack(".memip", uipx.Data(k.T, k.Ver))
	if err != nil {
		return pbt.Violationf("packing fails: %v", err)
	}
	got, err := parseMemip(b, v6)
	if err != nil {
		return pbt.Violationf("%v", err)
	}
	want := joined(k.T)
	for i := 0; i < len(got) || i < len(want); i++ {
		if i >= len(got) || i >= len(want) || got[i] != want[i] {
			return pbt.Violationf("%d ranges, expected %d; range %d is %s, expected %s", len(got), len(want), i, descRange(v6, got, i), descRange(v6, want, i))
		}
	}
	if len(want) >= 2 && len(want) < len(k.T.Rows) {
		c.NonTrivial()
	}
	return nil
}

func descRange(v6 bool, l []memRange, i int) string {
	if i >= len(l) {
		return "none"
	}
	return fmt.Sprintf("%v-%v %q", model.Addr{V6: v6, U: l[i].a}, model.Addr{V6: v6, U: l[i].b}, l[i].v)
}

type memipText struct {
	V6     bool        `json:"v6"`
	R      [][2]string `json:"r"`
	V      [][6]string `json:"v"`
	NoLast bool        `json:"no_last_newline,omitempty"`

	tab *model.Table
}

func (k memipText) text() string {
	var s strings.Builder
	for i, r := range k.R {
		a, b := r[0], r[1]
		if !k.V6 {
			x, _ := model.ParseAddr(a)
			y, _ := model.ParseAddr(b)
			a, b = fmt.Sprint(x.U.L), fmt.Sprint(y.U.L)
		}
		s.WriteString(a + " " + b + " " + strings.Join(k.V[i][:], "-"))
		if i < len(k.R)-1 || !k.NoLast {
			s.WriteByte('\n')
		}
	}
	return s.String()
}

func genMemipText(t *rapid.T) memipText {
	k := memipText{V6: rapid.Bool().Draw(t, "v6"), NoLast: rapid.IntRange(0, 3).Draw(t, "nolast") == 0}
	n := rapid.IntRange(1, 8).Draw(t, "n")
	var cuts []model.U
	for i := 0; i < 2*n; i++ {
		cuts = append(cuts, model.GenU(t, "cut", k.V6, cuts))
	}
	// sorted distinct bounds give ascending disjoint ranges
	for i := range cuts {
		for j := i; j > 0 && cuts[j].Less(cuts[j-1]); j-- {
			cuts[j], cuts[j-1] = cuts[j-1], cuts[j]
		}
	}
	var rs [][2]model.U
	for i := 0; i+1 < len(cuts); i += 2 {
		a, b := cuts[i], cuts[i+1]
		if len(rs) > 0 && !rs[len(rs)-1][1].Less(a) {
			continue
		}
		if k.V6 && (model.InMapped(a) || model.InMapped(b) || a.Less(model.MappedBase) && model.MappedBase.Less(b)) {
			continue
		}
		rs = append(rs, [2]model.U{a, b})
	}
	if rapid.IntRange(0, 2).Draw(t, "shuffle") == 0 {
		rs = rapid.Permutation(rs).Draw(t, "order")
	}
	var pal [][]string
	if len(rs) > 0 {
		pal = model.GenPalette(t, memipCols, 3, model.ValueOpts{NoDash: true, NoEmpty: true})
	}
	spell := rapid.IntRange(0, 2).Draw(t, "spell") == 0
	text := func(u model.U) string {
		s := []string{model.Addr{V6: k.V6, U: u}.String()}
		if k.V6 && spell {
			s = spellings(model.Addr{V6: true, U: u})
		}
		return rapid.SampledFrom(s).Draw(t, "spelling")
	}
	for _, r := range rs {
		k.R = append(k.R, [2]string{text(r[0]), text(r[1])})
		k.V = append(k.V, [6]string(pal[rapid.IntRange(0, len(pal)-1).Draw(t, "v")]))
	}
	if len(rs) > 0 && rapid.IntRange(0, 30).Draw(t, "longvalue") == 0 {
		k.V[rapid.IntRange(0, len(rs)-1).Draw(t, "row")][0] = strings.Repeat("长", 23000)
	}
	return k
}

func checkF03(c *pbt.Ctx, k memipText) error {
	if len(k.R) == 0 {
		return nil
	}
	d, err := dumpBytes(".memip", []byte(k.text()), "")
	if err != nil {
		return pbt.Violationf("dumping fails: %v", err)
	}
	if !sameStrings(d.Fields, memipCols) {
		return pbt.Violationf("columns %q", d.Fields)
	}
	t, err := tableOf(d)
	if err != nil {
		return pbt.Violationf("%v", err)
	}
	i := 0
	multi := false
	for j, r := range k.R {
		var a, b model.U
		if k.V6 {
			a, b = model.ParseAddr6(r[0]), model.ParseAddr6(r[1])
		} else {
			x, _ := model.ParseAddr(r[0])
			y, _ := model.ParseAddr(r[1])
			a, b = x.U, y.U
		}
		at, first := a, i
		for {
			if i >= len(t.Rows) {
				return pbt.Violationf("range %d (%v): its networks end before %v", j, r, model.Addr{V6: k.V6, U: at})
			}
			n := t.Rows[i].Net()
			if n.V6 != k.V6 || n.First() != at || b.Less(n.Last()) {
				return pbt.Violationf("range %d (%v): row %d is %v, expected a network starting at %v inside the range", j, r, i, n, model.Addr{V6: k.V6, U: at})
			}
			if !sameStrings(t.Rows[i].V, k.V[j][:]) {
				return pbt.Violationf("range %d (%v): row %d has %.300q, the line %.300q", j, r, i, t.Rows[i].V, k.V[j])
			}
			i++
			if n.Last() == b {
				break
			}
			at = n.Last().Add(model.One)
		}
		if i-first > 1 {
			multi = true
		}
	}
	if i != len(t.Rows) {
		return pbt.Violationf("%d rows, the ranges make %d", len(t.Rows), i)
	}
	typ := inf.IpV4
	if k.V6 {
		typ = inf.IpV6
	}
	if d.Version == nil || d.Version.IpType != typ || int(d.Version.Count) != len(t.Rows) {
		return pbt.Violationf("version information %v for %d networks of family %d", d.Version, len(t.Rows), typ)
	}
	if multi && len(k.R) > 1 {
		c.NonTrivial()
	}
	return nil
}

func checkF03rt(c *pbt.Ctx, k scanCase) error {
	if len(k.T.Rows) == 0 {
		return nil
	}
	b, err := uipx.Pack(".memip", uipx.Data(k.T, k.Ver))
	if err != nil {
		return pbt.Violationf("packing fails: %v", err)
	}
	d, err := dumpBytes(".memip", b, "")
	if err != nil {
		return pbt.Violationf("dumping fails: %v", err)
	}
	t, err := tableOf(d)
	if err != nil {
		return pbt.Violationf("%v", err)
	}
	for i, r := range t.Rows {
		if len(r.V) != 6 {
			return pbt.Violationf("row %d (%s) has %d values", i, r.N, len(r.V))
		}
	}
	set := model.NewSet(t.Rows)
	ranges := joined(k.T)
	v6 := k.Ver.Type == 2
	for _, a := range model.Probes(append(nets(k.T.Rows), nets(t.Rows)...), nil, !v6, v6, 200) {
		if v6 && !a.V6 {
			a = model.Addr{V6: true, U: model.MappedBase.Or(a.U)}
		}
		var want *memRange
		for i := range ranges {
			if !a.U.Less(ranges[i].a) && !ranges[i].b.Less(a.U) {
				want = &ranges[i]
			}
		}
		i, n, ok := set.Find(a)
		if ok != (want != nil) {
			return pbt.Violationf("%v: covered by the data: %v, by the dump: %v", a, want != nil, ok)
		}
		if ok && [6]string(t.Rows[i].V) != want.v {
			return pbt.Violationf("%v in %v: %q, its view is %q", a, n, t.Rows[i].V, want.v)
		}
	}
	if len(k.T.Rows) > 1 {
		c.NonTrivial()
	}
	return nil
}

// packing leaves the data alone

type pureCase struct {
	T     model.Table `json:"t"`
	Ver   uipx.Ver    `json:"ver"`
	Kinds []string    `json:"kinds"`
	Share bool        `json:"share"`
}

func genPureCase(t *rapid.T) pureCase {
	k := genMemipCase(t)
	p := pureCase{T: k.T, Ver: k.Ver, Share: rapid.Bool().Draw(t, "share")}
	if rapid.IntRange(0, 2).Draw(t, "order") == 0 {
		p.T.Rows = rapid.Permutation(p.T.Rows).Draw(t, "rows")
	}
	if n := len(p.T.Rows); n > 0 && rapid.IntRange(0, 7).Draw(t, "again") == 0 {
		// one network twice, or one inside another
		r := p.T.Rows[rapid.IntRange(0, n-1).Draw(t, "which")]
		r.V = append([]string{}, p.T.Rows[rapid.IntRange(0, n-1).Draw(t, "values")].V...)
		if m := r.Net(); m.Bits > 1 && rapid.Bool().Draw(t, "wider") {
			m.Bits--
			r.N = m.Canon().String()
		}
		p.T.Rows = append(p.T.Rows, r)
	}
	p.Kinds = rapid.SliceOfN(rapid.SampledFrom([]string{".ipdb", ".scan", ".memip"}), 2, 5).Draw(t, "kinds")
	return p
}

// content drops the build time of an output.
func content(kind string, b []byte) (string, error) {
	switch kind {
	case ".scan":
		i := bytes.IndexByte(b, '\n')
		if i < 0 {
			return "", fmt.Errorf("no title line")
		}
		return string(b[i:]), nil
	case ".ipdb":
		if len(b) < 4 {
			return "", fmt.Errorf("%d bytes", len(b))
		}
		n := int(binary.BigEndian.Uint32(b))
		if len(b) < 4+n {
			return "", fmt.Errorf("%d bytes", len(b))
		}
		var m map[string]any
		if err := json.Unmarshal(b[4:4+n], &m); err != nil {
			return "", err
		}
		delete(m, "build")
		h, _ := json.Marshal(m)
		return string(h) + string(b[4+n:]), nil
	}
	return string(b), nil
}

func sharedData(t model.Table, v uipx.Ver, share bool) *inf.IpData {
	d := uipx.Data(t, v)
	if share {
		// rows with equal values share one slice, as dumping makes them
		for i := 1; i < len(d.Ips); i++ {
			if sameStrings(d.Ips[i].FieldValues, d.Ips[i-1].FieldValues) {
				d.Ips[i].FieldValues = d.Ips[i-1].FieldValues
			}
		}
	}
	return d
}

func snapshot(d *inf.IpData) string {
	var s strings.Builder
	fmt.Fprintf(&s, "%q %+v\n", d.Fields, d.Version)
	for _, r := range d.Ips {
		fmt.Fprintf(&s, "%x %x %q\n", []byte(r.Cidr.IP), []byte(r.Cidr.Mask), r.FieldValues)
	}
	return s.String()
}

func checkF04(c *pbt.Ctx, k pureCase) error {
	if len(k.T.Rows) == 0 {
		return nil
	}
	alone := map[string]string{}
	overlap := overlaps(k.T.Rows) // may be refused, always or never
	if overlap {
		c.Class("overlapping networks")
	}
	for _, kind := range k.Kinds {
		b, err := uipx.Pack(kind, uipx.Data(k.T, k.Ver))
		if err != nil && overlap {
			alone[kind] = "refused"
			continue
		}
		if err != nil {
			return pbt.Violationf("packing %s fails: %v", kind, err)
		}
		s, err := content(kind, b)
		if err != nil {
			return pbt.Violationf("%s: %v", kind, err)
		}
		alone[kind] = s
	}
	d := sharedData(k.T, k.Ver, k.Share)
	before := snapshot(d)
	for i, kind := range k.Kinds {
		b, err := uipx.Pack(kind, d)
		if err != nil && alone[kind] == "refused" {
			c.Class("refused")
			if after := snapshot(d); after != before {
				return pbt.Violationf("packing to %s changed the data from\n%.1000s to\n%.1000s", kind, before, after)
			}
			continue
		}
		if err != nil {
			return pbt.Violationf("output %d (%s) fails: %v", i, kind, err)
		}
		if after := snapshot(d); after != before {
			return pbt.Violationf("packing to %s changed the data from\n%.1000s to\n%.1000s", kind, before, after)
		}
		s, err := content(kind, b)
		if err != nil {
			return pbt.Violationf("%s: %v", kind, err)
		}
		if s != alone[kind] {
			return pbt.Violationf("output %d (%s) differs from the one written alone", i, kind)
		}
	}
	if len(alone) > 1 {
		c.NonTrivial()
	}
	return nil
}

// overlaps reports whether two of the networks share an address.
func overlaps(rows []model.Row) bool {
	for i, r := range rows {
		for _, o := range rows[:i] {
			if r.Net().Covers(o.Net()) || o.Net().Covers(r.Net()) {
				return true
			}
		}
	}
	return false
}

// failing destinations

type failCase struct {
	T     model.Table `json:"t"`
	Ver   uipx.Ver    `json:"ver"`
	Kind  string      `json:"kind"`
	At    int         `json:"at"` // in 1/1000 of the length
	Delta int         `json:"delta"`
	Mode  string      `json:"mode"` // once, always, device
}

func genFailCase(t *rapid.T) failCase {
	k := genMemipCase(t)
	return failCase{T: k.T, Ver: k.Ver, Kind: rapid.SampledFrom([]string{".ipdb", ".scan", ".memip"}).Draw(t, "kind"),
		At: rapid.IntRange(0, 1000).Draw(t, "at"), Delta: rapid.IntRange(-3, 3).Draw(t, "delta"),
		Mode: rapid.SampledFrom([]string{"always", "always", "once", "device"}).Draw(t, "mode")}
}

type limitWriter struct {
	left    int
	once    bool
	refused int
	failed  bool
	got     bytes.Buffer
}

var errFull = errors.New("no space left")

func (w *limitWriter) Write(p []byte) (int, error) {
	if w.failed && w.once {
		return w.got.Write(p) // works again afterwards, but bytes are missing
	}
	if len(p) <= w.left {
		w.left -= len(p)
		return w.got.Write(p)
	}
	n := w.left
	w.got.Write(p[:n])
	w.left = 0
	w.failed = true
	w.refused += len(p) - n
	return n, errFull
}

func checkF05(c *pbt.Ctx, k failCase) error {
	if len(k.T.Rows) == 0 {
		return nil
	}
	whole, err := uipx.Pack(k.Kind, uipx.Data(k.T, k.Ver))
	if err != nil {
		return pbt.Violationf("packing fails: %v", err)
	}
	c.Class("%s %s", k.Kind, k.Mode)
	if k.Mode == "device" {
		f := filepath.Join(c.Dir(), "out"+k.Kind)
		if err := os.Symlink("/dev/full", f); err != nil {
			return pbt.Infra(err)
		}
		c.NonTrivial()
		var err error
		if perr := pbt.Try(func() { err = convert.PackFile(f, uipx.Data(k.T, k.Ver)) }); perr != nil {
			return perr
		}
		if err == nil {
			return pbt.Violationf("packing %d bytes to a full device succeeds", len(whole))
		}
		return nil
	}
	n := len(whole)*k.At/1000 + k.Delta
	if n < 0 {
		n = 0
	}
	w := &limitWriter{left: n, once: k.Mode == "once"}
	if perr := pbt.Try(func() { err = convert.PackWriter(k.Kind, uipx.Data(k.T, k.Ver), w) }); perr != nil {
		return perr
	}
	if w.failed {
		c.NonTrivial()
		if err == nil {
			return pbt.Violationf("the destination refused %d bytes after %d but packing to %s succeeds", w.refused, n, k.Kind)
		}
		return nil
	}
	if err != nil {
		return pbt.Violationf("the destination took every byte but packing to %s fails: %v", k.Kind, err)
	}
	a, err1 := content(k.Kind, w.got.Bytes())
	b, err2 := content(k.Kind, whole)
	if err1 != nil || err2 != nil || a != b {
		return pbt.Violationf("%s: success, but only %d bytes were written, %d expected", k.Kind, w.got.Len(), len(whole))
	}
	return nil
}

type unsupCase struct {
	Ext     string      `json:"ext"`
	Op      string      `json:"op"`
	Content string      `json:"content"`
	T       model.Table `json:"t"`
}

func checkUnsupported(c *pbt.Ctx, k unsupCase) error {
	queryOK := map[string]bool{".ipdb": true, ".awdb": true}
	dumpOK := map[string]bool{".ipdb": true, ".awdb": true, ".scan": true, ".memip": true}
	packOK := map[string]bool{".ipdb": true, ".scan": true, ".memip": true}
	f := filepath.Join(c.Dir(), "file"+k.Ext)
	missing := strings.HasSuffix(k.Op, "missing")
	if !missing {
		if err := os.WriteFile(f, []byte(k.Content), 0o600); err != nil {
			return pbt.Infra(err)
		}
	}
	data := uipx.Data(k.T, uipx.Ver{Type: 1})
	var err error
	var res any
	perr := pbt.Try(func() {
		switch k.Op {
		case "open", "openmissing":
			var db *query.Db
			db, err = query.NewDb(f)
			if db != nil {
				res = db
			}
		case "openbytes":
			var db *query.Db
			db, err = query.NewDbFromBytes(k.Ext, []byte(k.Content))
			if db != nil {
				res = db
			}
		case "dump", "dumpmissing":
			var d *inf.IpData
			d, err = convert.DumpFile(f, "", nil)
			if d != nil {
				res = d
			}
		case "pack":
			err = convert.PackFile(f, data)
		case "packmissing":
			// the directory does not exist, or the name is taken by one
			f = filepath.Join(c.Dir(), "nowhere", "file"+k.Ext)
			if k.Content != "" {
				f = filepath.Join(c.Dir(), "dir"+k.Ext)
				if e := os.MkdirAll(f, 0o700); e != nil {
					panic(e)
				}
			}
			err = convert.PackFile(f, data)
		case "packbytes":
			_, err = convert.PackBytes(k.Ext, data)
		}
	})
	var supported bool
	switch k.Op {
	case "open", "openbytes":
		supported = queryOK[k.Ext]
	case "dump":
		supported = dumpOK[k.Ext]
	case "pack", "packbytes":
		supported = packOK[k.Ext]
	}
	if supported {
		return nil // other properties say what happens
	}
	if perr != nil {
		return pbt.Violationf("%s of a %q file: %v", k.Op, k.Ext, perr)
	}
	c.NonTrivial()
	c.Class("%s %s", k.Op, k.Ext)
	if err == nil {
		return pbt.Violationf("%s of an unsupported, missing or unwritable %q file succeeds (%v)", k.Op, k.Ext, res)
	}
	if !missing {
		b, rerr := os.ReadFile(f)
		if rerr != nil || string(b) != k.Content {
			return pbt.Violationf("%s of a %q file failed (%v) but the file now holds %q instead of %q", k.Op, k.Ext, err, b, k.Content)
		}
	}
	return nil
}

var _ = net.IPv4len

// checkBigVersion compares the number of nodes of a large tree.
func checkBigVersion(c *pbt.Ctx, k bigAwdb) error {
	d := k.awdb()
	if k.RS == 0 {
		d = k.ipdb()
	}
	o, err := d.open()
	if err != nil {
		return err
	}
	count := ""
	if d.Ip != nil {
		if count, _, err = storedMeta(o.bytes); err != nil {
			return err
		}
	} else {
		count = fmt.Sprint(d.Aw.A.Parts().Count)
	}
	if len(count) > 5 || len(count) == 5 && count > "65535" {
		c.NonTrivial()
	}
	c.Class("rs%d v6=%v", k.RS, k.V6)
	db, err := uipx.Load(o.kind, o.bytes)
	if err != nil {
		return pbt.Violationf("loading fails: %v", err)
	}
	if v := db.VersionInfo(); fmt.Sprint(v.Count) != count {
		return pbt.Violationf("%d nodes, the tree has %s", v.Count, count)
	}
	return nil
}
