package main

import (
	"fmt"
	"strings"

	"verif/harness/model"
	"verif/harness/pbt"
	"verif/harness/uipx"

	"github.com/qiniu/uip/db/field/operate"
	"github.com/qiniu/uip/db/inf"
	"pgregory.net/rapid"
)

// srcCase is a source to be dumped: a covering database, or a scan file.
type srcCase struct {
	D    DbCase   `json:"d"`
	Scan bool     `json:"scan"` // D.Ip written as a scan file
	Sub  []string `json:"-"`

	Mem *memipText `json:"mem,omitempty"` // a memip file instead
}

// table is what a memip file states, its ranges as the fewest networks.
func (k *memipText) table() model.Table {
	if k.tab != nil {
		return *k.tab
	}
	t := model.Table{Fields: memipCols}
	k.tab = &t
	w := model.Width(k.V6)
	for i, r := range k.R {
		a, _ := model.ParseAddr(r[0])
		b, _ := model.ParseAddr(r[1])
		if k.V6 {
			a.U, b.U = model.ParseAddr6(r[0]), model.ParseAddr6(r[1])
		}
		for at := a.U; ; {
			n := model.Net{V6: k.V6, U: at, Bits: w}
			for n.Bits > 0 {
				m := model.Net{V6: k.V6, U: at, Bits: n.Bits - 1}
				if at.TrailingZeros() < w-m.Bits || b.U.Less(m.Last()) {
					break
				}
				n = m
			}
			t.Rows = append(t.Rows, model.Row{N: n.String(), V: append([]string{}, k.V[i][:]...)})
			if n.Last() == b.U {
				break
			}
			at = n.Last().Add(model.One)
		}
	}
	return t
}

// genSrc draws a source of one family with no IPv6 boundary in the mapped block.
func genSrc(t *rapid.T) srcCase {
	s := srcCase{Scan: rapid.IntRange(0, 2).Draw(t, "scan") == 0}
	if !s.Scan {
		s.D = genDbCase(t, true)
		return s
	}
	v6 := rapid.Bool().Draw(t, "scan6")
	k := IpdbCase{Ver: genVer(t, 1)}
	if v6 {
		k.Ver.Type = 2
	}
	nn := ascNets(t, v6)
	k.T.Fields = model.GenFields(t, true)
	if len(nn) > 0 {
		k.T.Rows = model.Assign(t, nn, model.GenPalette(t, k.T.Fields, 4, model.ValueOpts{}))
	}
	s.D = DbCase{Ip: &k}
	return s
}

func (s srcCase) v6() bool {
	if s.Mem != nil {
		return s.Mem.V6
	}
	return s.D.Ip != nil && s.D.Ip.Ver.Type == 2 || s.D.Aw != nil && s.D.Aw.A.V6
}

// columns the source can export.
func (s srcCase) columns() []string {
	if s.Mem != nil {
		return memipCols
	}
	if s.Scan {
		return s.D.Ip.T.Fields
	}
	return s.D.known()
}

func (s srcCase) bytes() (kind string, b []byte, err error) {
	if s.Mem != nil {
		return ".memip", []byte(s.Mem.text()), nil
	}
	if s.Scan {
		b, err = uipx.Pack(".scan", uipx.Data(s.D.Ip.T, s.D.Ip.Ver))
		if err != nil {
			err = pbt.Violationf("packing the source fails: %v", err)
		}
		return ".scan", b, err
	}
	o, err := s.D.open()
	if err != nil {
		return "", nil, err
	}
	return o.kind, o.bytes, nil
}

// record gives the values of all columns an address has in the source, as a dump shows them.
func (s srcCase) record(set *model.Set, a model.Addr) (map[string]string, bool) {
	if !s.Scan && s.Mem == nil {
		return s.D.full(set, a)
	}
	i, _, ok := set.Find(a)
	if !ok {
		return nil, false
	}
	m := map[string]string{}
	if s.Mem != nil {
		for j, v := range s.Mem.table().Rows[i].V {
			m[memipCols[j]] = v
		}
		return m, true
	}
	for j, f := range s.D.Ip.T.Fields {
		m[f] = strings.ReplaceAll(s.D.Ip.T.Rows[i].V[j], ",", "_")
	}
	return m, true
}

// ruleCase is a rule in its parts.
type filterGroup struct {
	Bad  string   `json:"bad,omitempty"` // text of a group without effect
	Key  string   `json:"key,omitempty"`
	Not  bool     `json:"not,omitempty"`
	Vals []string `json:"vals,omitempty"`
	Keep []string `json:"keep,omitempty"`
}

type ruleSpec struct {
	Cols   []string      `json:"cols,omitempty"`
	Groups []filterGroup `json:"groups,omitempty"`
}

func (r ruleSpec) String() string {
	if len(r.Cols) == 0 {
		return ""
	}
	s := []string{strings.Join(r.Cols, ",")}
	for _, g := range r.Groups {
		if g.Key == "" {
			s = append(s, g.Bad)
			continue
		}
		not := ""
		if g.Not {
			not = "!"
		}
		s = append(s, g.Key+"="+not+strings.Join(g.Vals, "/")+":"+strings.Join(g.Keep, ","))
	}
	return strings.Join(s, "|")
}

// row applies the rule to the values of a source; rewritten tells whether a group blanked something.
func (r ruleSpec) row(all []string, known []string, m map[string]string) (out []string, rewritten bool) {
	cols := r.Cols
	if len(cols) == 0 {
		cols = known
	}
	for _, f := range cols {
		v := ""
		if has(known, f) {
			v = m[f]
		}
		out = append(out, v)
	}
	for _, g := range r.Groups {
		if g.Key == "" {
			continue
		}
		if has(g.Vals, out[model.Col(cols, g.Key)]) == g.Not {
			continue
		}
		for i, f := range cols {
			if !has(g.Keep, f) && out[i] != "" {
				out[i] = ""
				rewritten = true
			}
		}
	}
	return
}

// plainValue tells whether a rule can name the value; one with a "!" at its start not everywhere.
func plainValue(s string) bool { return !strings.ContainsAny(s, "|,:=/") }

func genRuleSpec(t *rapid.T, known []string, values func(f string) []string) ruleSpec {
	var r ruleSpec
	switch rapid.IntRange(0, 9).Draw(t, "rulekind") {
	case 0:
		return r
	case 1:
		return ruleSpec{Cols: []string{"country", "province", "city", "isp", "asn", "continent", "district"}, Groups: []filterGroup{
			{Key: "country", Not: true, Vals: []string{"中国"}, Keep: []string{"country", "continent"}},
			{Key: "province", Vals: []string{"台湾", "中国台湾"}, Keep: []string{"country", "province", "continent", "district"}}}}
	}
	r.Cols = genRuleColumns(t, known)
	n := rapid.IntRange(0, 4).Draw(t, "ngroups")
	for i := 0; i < n; i++ {
		keep := rapid.Permutation(r.Cols).Draw(t, "keep")
		keep = keep[:rapid.IntRange(1, len(keep)).Draw(t, "nkeep")]
		key := rapid.SampledFrom(r.Cols).Draw(t, "key")
		pool := append([]string{"", "nowhere", "中国", "!中国"}, values(key)...)
		var vals []string
		for j := rapid.IntRange(1, 3).Draw(t, "nvals"); j > 0; j-- {
			v := rapid.SampledFrom(pool).Draw(t, "val")
			if rapid.IntRange(0, 19).Draw(t, "dictval") == 0 {
				v = model.DictMix(t, v)
			}
			if !plainValue(v) {
				v = "nowhere"
			}
			vals = append(vals, v)
		}
		g := filterGroup{Key: key, Not: rapid.Bool().Draw(t, "not"), Vals: vals, Keep: keep}
		if !g.Not && strings.HasPrefix(vals[0], "!") {
			vals[0] = strings.TrimLeft(vals[0], "!")
		}
		if rapid.IntRange(0, 3).Draw(t, "bad") == 0 {
			not := ""
			if g.Not {
				not = "!"
			}
			val, cols := strings.Join(vals, "/"), strings.Join(keep, ",")
			g = filterGroup{Bad: rapid.SampledFrom([]string{
				"", cols, ":", "=", ":" + cols, "=:" + cols, key + ":" + cols, key + "=" + not + val, key + "=" + val + ":" + cols + ":" + key,
				"nokey=" + not + val + ":" + cols, key + "=" + not + val + ":" + cols + ",nocol", key + "=" + not + val + ":nocol," + cols, key + "=" + not + val + ":",
				key + "=" + val + "=" + val + ":" + cols, key + "==" + val + ":" + cols, " " + key + "=" + not + val + ":" + cols, key + "=" + not + val + ": " + cols,
				strings.ToUpper(key) + "=" + not + val + ":" + cols, key + "=" + not + val + ":" + cols + ",", "=" + val + ":" + cols,
			}).Draw(t, "badgroup")}
		}
		r.Groups = append(r.Groups, g)
	}
	return r
}

func (s srcCase) values(f string) []string {
	var out []string
	add := func(v string) {
		if !has(out, v) && plainValue(v) && len(v) < 200 {
			out = append(out, v)
		}
	}
	if s.D.Ip != nil {
		if c := model.Col(s.D.Ip.T.Fields, f); c >= 0 {
			for _, r := range s.D.Ip.T.Rows {
				v := r.V[c]
				if f == "continent" && !s.Scan {
					v = uipx.Continent(v)
				}
				add(v)
			}
		}
		return out
	}
	for _, v := range s.D.Aw.A.Records {
		for _, kv := range v.M {
			if awField[kv.K] == f {
				add(kv.V.S)
			}
		}
	}
	return out
}

type ruleCase struct {
	S srcCase  `json:"s"`
	R ruleSpec `json:"r"`
	// another rule, of similar text, applied before
	Before string `json:"before,omitempty"`
}

// alike makes another rule out of one.
func alike(t *rapid.T, rule string) string {
	if len(rule) == 0 {
		return ""
	}
	switch rapid.IntRange(0, 9).Draw(t, "alike") {
	case 0:
		return strings.ToUpper(rule)
	case 1:
		return strings.ToLower(rule)
	case 2:
		return rule + " "
	case 3:
		return strings.ReplaceAll(rule, ",", ", ")
	case 4: // the groups only
		if i := strings.IndexByte(rule, '|'); i >= 0 {
			return rule[:i]
		}
	case 5: // the columns, or the groups, in another order
		p := strings.Split(rule, "|")
		if len(p) > 2 {
			p[1], p[len(p)-1] = p[len(p)-1], p[1]
		} else {
			q := strings.Split(p[0], ",")
			q[0], q[len(q)-1] = q[len(q)-1], q[0]
			p[0] = strings.Join(q, ",")
		}
		return strings.Join(p, "|")
	case 6: // one letter differs
		b := []byte(rule)
		i := rapid.IntRange(0, len(b)-1).Draw(t, "at")
		if b[i] >= 'a' && b[i] <= 'z' || b[i] >= 'A' && b[i] <= 'Z' {
			b[i] ^= 0x20
		} else if b[i] == '!' {
			b = append(b[:i], b[i+1:]...)
		}
		return string(b)
	}
	return ""
}

func genRuleCase(t *rapid.T) ruleCase {
	s := genSrc(t)
	k := ruleCase{S: s, R: genRuleSpec(t, s.columns(), s.values)}
	k.Before = alike(t, k.R.String())
	return k
}

func checkR01(c *pbt.Ctx, k ruleCase) error {
	kind, b, err := k.S.bytes()
	if err != nil {
		return err
	}
	c.Class("%s", kind)
	rule := k.R.String()
	if k.Before != "" {
		c.Class("after another rule")
		if _, err := dumpBytes(kind, b, k.Before); err != nil {
			return pbt.Violationf("dumping %s with the rule %q fails: %v", kind, k.Before, err)
		}
	}
	d, err := dumpBytes(kind, b, rule)
	if err != nil {
		return pbt.Violationf("dumping %s with the rule %q fails: %v", kind, rule, err)
	}
	known := k.S.columns()
	cols := k.R.Cols
	if len(cols) == 0 {
		cols = known
		c.Class("no rule")
	}
	if !sameStrings(d.Fields, cols) {
		return pbt.Violationf("rule %q on %s: columns %q, expected %q", rule, kind, d.Fields, cols)
	}
	if err := rectangular(d); err != nil {
		return pbt.Violationf("rule %q on %s: %v", rule, kind, err)
	}
	t, err := tableOf(d)
	if err != nil {
		return pbt.Violationf("rule %q on %s: %v", rule, kind, err)
	}
	var set *model.Set
	if k.S.D.Ip != nil {
		set = model.NewSet(k.S.D.Ip.T.Rows)
	}
	for i, r := range t.Rows {
		a := model.Addr{V6: r.Net().V6, U: r.Net().U}
		if a.V6 && model.InMapped(a.U) {
			continue
		}
		m, ok := k.S.record(set, a)
		if !ok {
			return pbt.Violationf("rule %q on %s: row %d is %s, which the source does not hold", rule, kind, i, r.N)
		}
		want, re := k.R.row(nil, known, m)
		if !sameStrings(r.V, want) {
			return pbt.Violationf("rule %q on %s: row %s is %.300q, expected %.300q (columns %q, source %.300q)", rule, kind, r.N, r.V, want, cols, m)
		}
		if re {
			c.NonTrivial()
		}
	}
	for _, g := range k.R.Groups {
		if g.Key == "" {
			c.Class("malformed group")
		}
	}
	return nil
}

// sequences of operations

type seqOp struct {
	Op    string            `json:"op"`
	Line  *lineSpec         `json:"line,omitempty"`
	Lines map[string]string `json:"lines,omitempty"`
}

// lineSpec is a source of lines by networks.
type lineSpec struct {
	Rows []model.Row `json:"rows"`
}

type seqCase struct {
	S   srcCase  `json:"s"`
	R   ruleSpec `json:"r"`
	Ops []seqOp  `json:"ops"`
}

func genSeqOps(t *rapid.T, v6 bool) []seqOp {
	var ops []seqOp
	for i := rapid.IntRange(1, 7).Draw(t, "nops"); i > 0; i-- {
		o := seqOp{Op: rapid.SampledFrom([]string{"normalise", "trim", "merge", "attach", "replace", "asnline", "district"}).Draw(t, "op")}
		switch o.Op {
		case "attach", "replace":
			o.Line = &lineSpec{}
			for _, n := range ascNets(t, v6) {
				o.Line.Rows = append(o.Line.Rows, model.Row{N: n.String(), V: []string{rapid.SampledFrom(lineTexts).Draw(t, "line")}})
			}
		case "asnline":
			o.Lines = map[string]string{}
			for _, a := range []string{"4134", "4837", "", "15169"} {
				if rapid.Bool().Draw(t, "listed") {
					o.Lines[a] = rapid.SampledFrom(lineTexts).Draw(t, "line")
				}
			}
		}
		ops = append(ops, o)
	}
	return ops
}

func genSeqCase(t *rapid.T) seqCase {
	s := genSrc(t)
	k := seqCase{S: s, R: genRuleSpec(t, s.columns(), s.values)}
	k.Ops = genSeqOps(t, s.v6())
	return k
}

func (o seqOp) apply(d *inf.IpData) error {
	var op func(*inf.IpData)
	switch o.Op {
	case "normalise":
		op = operate.ReplaceShortage
	case "trim":
		op = operate.TrimAsnIspDup
	case "merge":
		op = operate.MergeNearNetwork
	case "district":
		op = operate.AttachDistrict
	case "asnline":
		op = func(d *inf.IpData) { operate.AttachLineByAsn(d, o.Lines, "asn-1") }
	default:
		q := stubLines{model.NewSet(o.Line.Rows), model.Table{Fields: []string{"line"}, Rows: o.Line.Rows}, &inf.VersionInfo{Version: "line", Build: 7}}
		if o.Op == "attach" {
			op = func(d *inf.IpData) { operate.AttachLineByCidr(d, q) }
		} else {
			op = func(d *inf.IpData) { operate.ReplaceLineByCidr(d, q) }
		}
	}
	return apply(o.Op, op, d)
}

// spans joins the networks of ascending rows into maximal intervals.
func spans(t model.Table) ([][2]model.U, error) {
	var out [][2]model.U
	for i, r := range t.Rows {
		n := r.Net()
		if i > 0 && (n.First().Cmp(out[len(out)-1][1]) <= 0) {
			return nil, fmt.Errorf("row %d (%s) does not follow the row before", i, r.N)
		}
		if i > 0 && n.First() == out[len(out)-1][1].Add(model.One) {
			out[len(out)-1][1] = n.Last()
			continue
		}
		out = append(out, [2]model.U{n.First(), n.Last()})
	}
	return out, nil
}

func checkO07(c *pbt.Ctx, k seqCase) error {
	kind, b, err := k.S.bytes()
	if err != nil {
		return err
	}
	c.Class("%s", kind)
	rule := k.R.String()
	d, err := dumpBytes(kind, b, rule)
	if err != nil {
		return pbt.Violationf("dumping %s with the rule %q fails: %v", kind, rule, err)
	}
	if len(d.Fields) == 0 {
		c.Class("no columns")
		return nil
	}
	names := ""
	var cover [][2]model.U
	for i := -1; i < len(k.Ops); i++ {
		if i >= 0 {
			names += " " + k.Ops[i].Op
			if err := k.Ops[i].apply(d); err != nil {
				return pbt.Violationf("rule %q,%s: %v", rule, names, err)
			}
		}
		if err := rectangular(d); err != nil {
			return pbt.Violationf("rule %q,%s: %v", rule, names, err)
		}
		t, err := tableOf(d)
		if err != nil {
			return pbt.Violationf("rule %q,%s: %v", rule, names, err)
		}
		s, err := spans(t)
		if err != nil {
			return pbt.Violationf("rule %q,%s: %v", rule, names, err)
		}
		if i < 0 {
			cover = s
		} else if fmt.Sprint(s) != fmt.Sprint(cover) {
			return pbt.Violationf("rule %q,%s: the rows cover %v, before %v", rule, names, s, cover)
		}
	}
	t, _ := tableOf(d)
	big := false
	for _, r := range t.Rows {
		n := 0
		for _, v := range r.V {
			n += len(v) + 1
		}
		big = big || n > 65000
	}
	set := model.NewSet(t.Rows)
	// scan
	sb, err := uipx.Pack(".scan", d)
	if err != nil {
		return pbt.Violationf("rule %q,%s: packing to scan fails: %v", rule, names, err)
	}
	sd, err := dumpBytes(".scan", sb, "")
	if err != nil {
		return pbt.Violationf("rule %q,%s: reading the scan output fails: %v", rule, names, err)
	}
	{
		want := model.Table{Fields: t.Fields}
		for _, r := range t.Rows {
			v := make([]string, len(r.V))
			for i := range v {
				v[i] = strings.ReplaceAll(r.V[i], ",", "_")
			}
			want.Rows = append(want.Rows, model.Row{N: r.N, V: v})
		}
		if err := sameTable(sd, want); err != nil {
			return pbt.Violationf("rule %q,%s: the scan output: %v", rule, names, err)
		}
	}
	// ipdb
	if big {
		c.Class("record beyond the format")
		return nil
	}
	ib, err := uipx.Pack(".ipdb", d)
	if err != nil {
		return pbt.Violationf("rule %q,%s: packing to ipdb fails: %v", rule, names, err)
	}
	db, err := uipx.Load(".ipdb", ib)
	if err != nil {
		return pbt.Violationf("rule %q,%s: loading the ipdb output fails: %v", rule, names, err)
	}
	for _, a := range model.Probes(nets(t.Rows), nil, !k.S.v6(), k.S.v6(), 40) {
		if a.V6 != k.S.v6() {
			continue
		}
		got, err := uipx.Ask(db, a.IP())
		if err != nil {
			return pbt.Violationf("rule %q,%s: %v", rule, names, err)
		}
		i, _, ok := set.Find(a)
		if ok != got.OK {
			return pbt.Violationf("rule %q,%s: the ipdb output answers %v: %v (%s), the rows: %v", rule, names, a, got.OK, got.Err, ok)
		}
		if ok {
			if want := uipx.Expect(t.Fields, t.Rows[i].V); got.Rec != want {
				return pbt.Violationf("rule %q,%s: the ipdb output answers %v with %+v, the rows say %+v", rule, names, a, got.Rec, want)
			}
		}
	}
	if len(k.Ops) >= 2 && len(t.Rows) >= 2 {
		c.NonTrivial()
	}
	return nil
}

func init() {
	pbt.Register("R01", "rules", pbt.Options{
		Rule:  "ipdb, awdb and scan sources dumped with rules built from parts (column lists with unknown columns, filters with one or several values, negated or not, groups without effect); rows compared with an independent interpreter of the parts; non-trivial: a group blanks a value",
		Quick: 48000, Thorough: 800000,
	}, genRuleCase, checkR01)
	pbt.Register("O07", "sequences", pbt.Options{
		Rule:  "sources exported by random rules, then one to seven random operations; after each the table must be rectangular with unique columns and cover the same addresses, at the end it is packed to scan and ipdb and read back; non-trivial: two operations and two rows",
		Quick: 36000, Thorough: 400000,
	}, genSeqCase, checkO07)
}
