package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"verif/harness/model"
	"verif/harness/pbt"
	"verif/harness/uipx"

	"github.com/qiniu/uip/db/inf"
	"pgregory.net/rapid"
)

// foreignCase is an ipdb database written by the independent encoder.
type foreignCase struct {
	D     model.Ipdb `json:"d"`
	Extra []string   `json:"extra"`
	Cover bool       `json:"cover"`
	Rule  string     `json:"rule,omitempty"`
}

var internalName = map[string]string{"country_name": "country", "region_name": "province", "city_name": "city", "isp_domain": "isp", "asn": "asn",
	"continent_code": "continent", "district": "district", "line": "line", "utc_offset": "utcOffset", "latitude": "latitude", "longitude": "longitude",
	"china_admin_code": "chinaAdminCode"}

var otherInternal = []string{"owner_domain", "timezone", "idd_code", "country_code", "idc", "base_station", "country_code3", "anycast", "x_other"}

func genForeign(t *rapid.T, cover bool) model.Ipdb {
	v4, v6 := genFam(t)
	if cover && v4 {
		v6 = false
	}
	d := model.Ipdb{Langs: map[string]int{}}
	if v4 {
		d.Type |= 1
	}
	if v6 {
		d.Type |= 2
	}
	var names []string
	for k := range internalName {
		names = append(names, k)
	}
	sort.Strings(names)
	switch rapid.IntRange(0, 2).Draw(t, "fieldmode") {
	case 0:
		d.Fields = []string{"country_name", "region_name", "city_name", "owner_domain", "isp_domain", "latitude", "longitude", "timezone", "utc_offset", "china_admin_code", "idd_code", "country_code", "continent_code"}
	case 1:
		p := rapid.Permutation(append(append([]string{}, names...), otherInternal...)).Draw(t, "fields")
		d.Fields = p[:rapid.IntRange(1, len(p)).Draw(t, "nfields")]
	default:
		d.Fields = rapid.Permutation(names).Draw(t, "fields")
	}
	langs := rapid.Permutation([]string{"CN", "EN", "JP"}).Draw(t, "langs")
	langs = langs[:rapid.IntRange(1, 3).Draw(t, "nlangs")]
	lead := rapid.SampledFrom([]int{0, 0, 0, 1, 3}).Draw(t, "lead")
	for i, l := range langs {
		d.Langs[l] = lead + i*len(d.Fields)
	}
	tail := rapid.SampledFrom([]int{0, 0, 0, 2}).Draw(t, "tail")
	nn := genNets(t, v4, v6, cover)
	d.Share = rapid.IntRange(0, 2).Draw(t, "share") == 0
	kinds := make([]int, len(nn))
	for i := range kinds {
		kinds[i] = -1
	}
	if rapid.IntRange(0, 3).Draw(t, "repeat") == 0 {
		nn, kinds = model.Repeat(t, nn)
	}
	for i, n := range nn {
		if d.TreeNet(n).Bits == 0 {
			d.Nets = append(d.Nets, model.Net{V6: true, U: model.One.Shl(127), Bits: 1}.String())
			n.Bits = 1
			kinds = append(kinds[:i:i], append([]int{-1}, kinds[i:]...)...)
		}
		d.Nets = append(d.Nets, n.String())
	}
	nrec := rapid.IntRange(1, 4).Draw(t, "nrecords")
	for i := 0; i < nrec; i++ {
		var r []string
		long := rapid.SampledFrom([]int{0, 0, 0, 0, 0, 0, 0, 0, 0, 120, 250, 300, 33000, 60000}).Draw(t, "long")
		for j := 0; j < lead; j++ {
			r = append(r, "lead")
		}
		for range langs {
			for _, f := range d.Fields {
				v := model.GenValue(t, internalName[f], model.ValueOpts{})
				if long > 0 && rapid.IntRange(0, 2*len(d.Fields)).Draw(t, "longat") == 0 {
					v = strings.Repeat("l", long)
					long = 0
				}
				r = append(r, v)
			}
		}
		for j := 0; j < tail; j++ {
			r = append(r, "tail")
		}
		d.Records = append(d.Records, r)
	}
	idx := rapid.SliceOfN(rapid.Byte(), len(d.Nets), len(d.Nets)).Draw(t, "assign")
	for i := range d.Nets {
		if kinds[i] >= 0 {
			idx[i] = byte(kinds[i])
		}
		d.Rec = append(d.Rec, int(idx[i])%nrec)
	}
	d.Version = genText(t, "version")
	d.Build = rapid.SampledFrom([]int64{0, 1, 86399, 1632971142, 1632959999, 4102444800, -1}).Draw(t, "build")
	if d.Build < 0 {
		d.Build = rapid.Int64Range(2, 1<<31-1).Draw(t, "time")
	}
	for i := rapid.IntRange(0, 2).Draw(t, "nextra"); i > 0; i-- {
		d.Extra = append(d.Extra, genText(t, "extra"))
	}
	d.Extra = append(d.Extra, genLong(t)...)
	if rapid.Bool().Draw(t, "permuted") {
		d.Perm = rapid.SliceOfN(rapid.IntRange(0, 1<<20), 1, 8).Draw(t, "perm")
	}
	d.Gap = rapid.SampledFrom([]int{0, 0, 1, 7}).Draw(t, "gap")
	d.Loop = rapid.Bool().Draw(t, "loop")
	d.Round, d.Off = model.GenRound(t)
	d.Form = rapid.SampledFrom([]int{0, 0, 0, 1, 2, 3, 4, 7}).Draw(t, "metaform")
	return d
}

func checkForeign(c *pbt.Ctx, k foreignCase) error {
	d := k.D
	b := d.Bytes()
	db, err := uipx.Load(".ipdb", b)
	if err != nil {
		return pbt.Violationf("loading fails: %v", err)
	}
	off, cn := d.Langs["CN"]
	var nn []model.Net
	for _, s := range d.Nets {
		nn = append(nn, model.MustNet(s))
	}
	set := model.NewSetNets(nn)
	value := func(i int, f string) string {
		for j, x := range d.Fields {
			if internalName[x] == f {
				v := d.Records[d.Rec[i]][off+j]
				if f == "continent" {
					v = uipx.Continent(v)
				}
				return v
			}
		}
		return ""
	}
	hits := 0
	for _, a := range model.Probes(nn, model.ParseExtra(k.Extra), true, true, 200) {
		got, err := uipx.Ask(db, a.IP())
		if err != nil {
			return pbt.Violationf("%v", err)
		}
		i, n, ok := set.Find(a)
		ok = ok && cn && (a.V6 && d.Type&2 != 0 || !a.V6 && d.Type&1 != 0)
		if got.OK != ok {
			return pbt.Violationf("%v: answered %v (%s), stored %v", a, got.OK, got.Err, ok)
		}
		if !ok {
			continue
		}
		hits++
		if got.Mask != n.Bits {
			return pbt.Violationf("%v: prefix length %d, stored in %v", a, got.Mask, n)
		}
		for _, f := range model.KnownFields {
			if w := value(i, f); got.Rec.Get(f) != w {
				return pbt.Violationf("%v: %s is %.200q, stored %.200q", a, f, got.Rec.Get(f), w)
			}
		}
	}
	text := d.Version
	if text == "" {
		text = "ipip.net-" + time.Unix(d.Build, 0).UTC().Format("2006-01-02")
	}
	check := func(v *inf.VersionInfo) error {
		if v == nil {
			return fmt.Errorf("no version information")
		}
		var langs []string
		for l := range d.Langs {
			langs = append(langs, l)
		}
		got := append([]string{}, v.Languages...)
		sort.Strings(langs)
		sort.Strings(got)
		if int(v.IpType) != d.Type || v.Build != d.Build || v.Version != text || !sameStrings(got, langs) || !sameStrings(v.ExtraInfo, d.Extra) {
			return fmt.Errorf("version information %v, stored family %d, build %d, version %q, languages %q, extra %q", v, d.Type, d.Build, text, langs, d.Extra)
		}
		return nil
	}
	if err := check(db.VersionInfo()); err != nil {
		return pbt.Violationf("%v", err)
	}
	if k.Cover {
		p, err := dumpBytes(".ipdb", b, "")
		if !cn {
			if err == nil {
				return pbt.Violationf("dumping a database without Chinese values succeeds")
			}
			return nil
		}
		if err != nil {
			return pbt.Violationf("dumping fails: %v", err)
		}
		if err := check(p.Version); err != nil {
			return pbt.Violationf("dumped: %v", err)
		}
		var cols []string
		for _, f := range d.Fields {
			if x := internalName[f]; x != "" {
				cols = append(cols, x)
			}
		}
		t, err := tableOf(p)
		if err != nil {
			return pbt.Violationf("%v", err)
		}
		if !sameStrings(t.Fields, cols) || len(t.Rows) != len(nn) {
			return pbt.Violationf("dumped %d rows of columns %q, stored %d of %q", len(t.Rows), t.Fields, len(nn), cols)
		}
		for i, r := range t.Rows {
			j, n, _ := set.Find(model.Addr{V6: set.Nets[i].V6, U: set.Nets[i].U})
			if r.N != n.String() {
				return pbt.Violationf("row %d is %s, stored %v", i, r.N, n)
			}
			for x, f := range cols {
				if w := value(j, f); r.V[x] != w {
					return pbt.Violationf("row %s: %s is %.200q, stored %.200q", r.N, f, r.V[x], w)
				}
			}
		}
	}
	if hits > 1 && (len(d.Langs) > 1 || d.Perm != nil) {
		c.NonTrivial()
	}
	c.Class("langs%d", len(d.Langs))
	return nil
}

func init() {
	pbt.Register("Q09", "foreign", pbt.Options{
		Rule:  "ipdb databases written by an independent encoder (several languages and column offsets, any node order, gaps, further columns); lookups, prefix lengths, version information and, for covering ones, the dump; non-trivial: at least 2 addresses answered and several languages or a reordered tree",
		Quick: 36000, Thorough: 400000,
	}, func(t *rapid.T) foreignCase {
		k := foreignCase{Cover: rapid.IntRange(0, 2).Draw(t, "cover") == 0}
		k.D = genForeign(t, k.Cover)
		k.Extra = model.GenExtra(t)
		return k
	}, checkForeign)
}
