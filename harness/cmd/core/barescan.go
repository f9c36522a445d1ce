package main

import (
	"encoding/json"
	"fmt"
	"net"
	"strings"

	"verif/harness/model"
	"verif/harness/pbt"
	"verif/harness/uipx"

	"pgregory.net/rapid"
)

func init() {
	pbt.Register("F08", "written", pbt.Options{
		Rule:  "random tables of either or both families in any order are packed to scan text, which is parsed line by line by a reader of its own; non-trivial: at least 2 rows and 2 columns",
		Quick: 16000, Thorough: 400000,
	}, genScanCase, checkScanWritten)
	pbt.Register("F08", "by-hand", pbt.Options{
		Rule:  "scan texts written by a writer of the harness (titles, metadata with entries in any order and of its own, networks in any spelling, with or without a last line end) are dumped; non-trivial: at least 2 rows, and a network spelled in another way than the packer's",
		Quick: 24000, Thorough: 500000,
	}, genHandCase, checkHand)
}

// scanMeta is the metadata line of a scan text.
type scanMeta struct {
	IpType, Count, Build int64
	Version              string
	Languages, ExtraInfo []string
}

func checkScanWritten(c *pbt.Ctx, k scanCase) error {
	b, err := uipx.Pack(".scan", uipx.Data(k.T, k.Ver))
	if err != nil {
		return pbt.Violationf("packing fails: %v", err)
	}
	s := string(b)
	if !strings.HasSuffix(s, "\n") {
		return pbt.Violationf("the last line does not end")
	}
	lines := strings.Split(strings.TrimSuffix(s, "\n"), "\n")
	if len(lines) != 3+len(k.T.Rows) {
		return pbt.Violationf("%d lines for %d rows", len(lines), len(k.T.Rows))
	}
	for i := 0; i < 3; i++ {
		if !strings.HasPrefix(lines[i], "#### ") {
			return pbt.Violationf("head line %d is %.200q", i, lines[i])
		}
	}
	var m map[string]json.RawMessage
	var sm scanMeta
	if err := json.Unmarshal([]byte(lines[1][5:]), &m); err != nil {
		return pbt.Violationf("the metadata is %.200q: %v", lines[1], err)
	}
	for key, to := range map[string]any{"IpType": &sm.IpType, "Count": &sm.Count, "Build": &sm.Build, "Version": &sm.Version, "Languages": &sm.Languages, "ExtraInfo": &sm.ExtraInfo} {
		if m[key] == nil {
			return pbt.Violationf("the metadata has no entry %s: %.200q", key, lines[1])
		}
		if err := json.Unmarshal(m[key], to); err != nil {
			return pbt.Violationf("entry %s of the metadata is %.200q", key, m[key])
		}
	}
	if sm.IpType != int64(k.Ver.Type) || sm.Count != int64(k.Ver.Count) || sm.Build != k.Ver.Build || sm.Version != k.Ver.Text ||
		!sameStrings(sm.Languages, k.Ver.Langs) || !sameStrings(sm.ExtraInfo, k.Ver.Extra) {
		return pbt.Violationf("the metadata of %+v is written as %.300q", k.Ver, lines[1])
	}
	if got := lines[2][5:]; got != strings.Join(k.T.Fields, ",") {
		return pbt.Violationf("the columns %q are written as %q", k.T.Fields, got)
	}
	for i, r := range k.T.Rows {
		at := strings.SplitN(lines[3+i], "\t", 2)
		if len(at) != 2 {
			return pbt.Violationf("row %d is written as %.200q", i, lines[3+i])
		}
		_, n, err := net.ParseCIDR(at[0])
		if err != nil {
			return pbt.Violationf("the network of row %d is written as %.200q", i, at[0])
		}
		if got, err := model.FromIPNet(n); err != nil || got.String() != r.N {
			return pbt.Violationf("the network %s is written as %q", r.N, at[0])
		}
		var want []string
		for _, v := range r.V {
			want = append(want, strings.ReplaceAll(v, ",", "_"))
		}
		if at[1] != strings.Join(want, ",") {
			return pbt.Violationf("the values %.200q are written as %.200q", want, at[1])
		}
	}
	if len(k.T.Rows) >= 2 && len(k.T.Fields) >= 2 {
		c.NonTrivial()
	}
	c.Class("type%d", k.Ver.Type)
	return nil
}

type handCase struct {
	C     scanCase `json:"c"`
	Title string   `json:"title"`
	Meta  string   `json:"meta"`
	Nets  []string `json:"nets"`
	Open  bool     `json:"open,omitempty"` // no end of the last line
	Rule  []string `json:"rule,omitempty"` // columns asked for, none for all
}

func genHandCase(t *rapid.T) handCase {
	k := handCase{C: genScanCase(t)}
	for _, r := range k.C.T.Rows {
		for i, v := range r.V {
			r.V[i] = strings.ReplaceAll(v, ",", "，")
		}
	}
	k.Title = rapid.SampledFrom([]string{"", "scan dump", "scan dump 2021-03-04 05:06:07.8 +0800 CST m=+0.1 ####", "由人所写", "{}", "country,city", "#### "}).Draw(t, "title")
	v := k.C.Ver
	list := func(l []string) any {
		if len(l) == 0 && rapid.Bool().Draw(t, "nulllist") {
			return nil
		}
		return append([]string{}, l...)
	}
	type entry struct {
		key string
		val any
	}
	es := []entry{{"IpType", v.Type}, {"Count", v.Count}, {"Build", v.Build}, {"Version", v.Text}, {"Languages", list(v.Langs)}, {"ExtraInfo", list(v.Extra)}}
	if rapid.IntRange(0, 3).Draw(t, "foreign entry") == 0 {
		es = append(es, entry{"note", map[string]any{"of": []any{1.5, nil, "Build"}}})
	}
	es = rapid.Permutation(es).Draw(t, "entries")
	gap := rapid.SampledFrom([]string{"", " ", "  ", "\t"}).Draw(t, "gap")
	var parts []string
	for _, e := range es {
		b, err := json.Marshal(e.val)
		if err != nil {
			panic(err)
		}
		parts = append(parts, fmt.Sprintf("%q:%s%s", e.key, gap, b))
	}
	k.Meta = "{" + gap + strings.Join(parts, gap+","+gap) + gap + "}"
	for _, r := range k.C.T.Rows {
		n := r.Net()
		a := model.Addr{V6: n.V6, U: n.U}
		switch rapid.IntRange(0, 3).Draw(t, "netform") {
		case 0:
			k.Nets = append(k.Nets, r.N)
			continue
		case 1:
			a.U = n.Last()
		}
		s := a.String()
		if n.V6 {
			s = rapid.SampledFrom(spellings(a)).Draw(t, "spelling")
		}
		k.Nets = append(k.Nets, fmt.Sprintf("%s/%d", s, n.Bits))
	}
	k.Open = rapid.IntRange(0, 4).Draw(t, "open") == 0
	if rapid.Bool().Draw(t, "with rule") {
		cols := rapid.Permutation(k.C.T.Fields).Draw(t, "cols")
		k.Rule = cols[:rapid.IntRange(1, len(cols)).Draw(t, "ncols")]
	}
	return k
}

func checkHand(c *pbt.Ctx, k handCase) error {
	lines := []string{"#### " + k.Title, "#### " + k.Meta, "#### " + strings.Join(k.C.T.Fields, ",")}
	spelled := false
	for i, r := range k.C.T.Rows {
		lines = append(lines, k.Nets[i]+"\t"+strings.Join(r.V, ","))
		spelled = spelled || k.Nets[i] != r.N
	}
	text := strings.Join(lines, "\n")
	if !k.Open {
		text += "\n"
	}
	d, err := dumpBytes(".scan", []byte(text), strings.Join(k.Rule, ","))
	if err != nil {
		return pbt.Violationf("dumping fails: %v", err)
	}
	if err := sameVer(d.Version, k.C.Ver); err != nil {
		return pbt.Violationf("%v", err)
	}
	cols := k.Rule
	if len(cols) == 0 {
		cols = k.C.T.Fields
	}
	if !sameStrings(d.Fields, cols) {
		return pbt.Violationf("columns %q, expected %q", d.Fields, cols)
	}
	t, err := tableOf(d)
	if err != nil {
		return pbt.Violationf("%v", err)
	}
	if len(t.Rows) != len(k.C.T.Rows) {
		return pbt.Violationf("%d rows, the text has %d", len(t.Rows), len(k.C.T.Rows))
	}
	for i, r := range k.C.T.Rows {
		var want []string
		for _, f := range cols {
			for j, g := range k.C.T.Fields {
				if g == f {
					want = append(want, r.V[j])
				}
			}
		}
		if t.Rows[i].N != r.N || !sameStrings(t.Rows[i].V, want) {
			return pbt.Violationf("row %d is %s %.200q, its line says %s %.200q", i, t.Rows[i].N, t.Rows[i].V, k.Nets[i], want)
		}
	}
	if len(k.C.T.Rows) >= 2 && spelled {
		c.NonTrivial()
	}
	c.Class("type%d", k.C.Ver.Type)
	if len(k.Rule) > 0 {
		c.Class("rule")
	}
	return nil
}
