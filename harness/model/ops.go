package model

import "sort"

// The documented operations as functions of a table: nothing is changed in place.

// Col finds a column.
func Col(fields []string, f string) int {
	for i, x := range fields {
		if x == f {
			return i
		}
	}
	return -1
}

func (t Table) clone() Table {
	out := Table{Fields: append([]string{}, t.Fields...)}
	for _, r := range t.Rows {
		out.Rows = append(out.Rows, Row{N: r.N, F: r.F, V: append([]string{}, r.V...)})
	}
	return out
}

// Tables are the short forms of values by column.
type Tables map[string]map[string]string

// Normalise replaces listed long names.
func Normalise(t Table, m Tables) Table {
	out := t.clone()
	for _, f := range []string{"province", "city", "isp"} {
		c := Col(t.Fields, f)
		if c < 0 {
			continue
		}
		for i := range out.Rows {
			if s, ok := m[f][t.Rows[i].V[c]]; ok {
				out.Rows[i].V[c] = s
			}
		}
	}
	return out
}

// MainISPs in the order of their listing.
var MainISPs = []string{"电信", "联通", "移动", "铁通"}

func isMain(s string) bool { return Col(MainISPs, s) >= 0 }

// TrimChoices gives for each row the values its ISP may have afterwards.
func TrimChoices(t Table) [][]string {
	isp, asn := Col(t.Fields, "isp"), Col(t.Fields, "asn")
	out := make([][]string, len(t.Rows))
	owners := map[string][]string{}
	for i, r := range t.Rows {
		if isp < 0 {
			continue
		}
		out[i] = []string{r.V[isp]}
		if asn >= 0 && isMain(r.V[isp]) && Col(owners[r.V[asn]], r.V[isp]) < 0 {
			owners[r.V[asn]] = append(owners[r.V[asn]], r.V[isp])
		}
	}
	if isp < 0 || asn < 0 {
		return out
	}
	for i, r := range t.Rows {
		if !isMain(r.V[isp]) && r.V[asn] != "" && len(owners[r.V[asn]]) > 0 {
			out[i] = owners[r.V[asn]]
		}
	}
	return out
}

// Trim applies the cleaning of ISPs; ok is false when the outcome is not unique.
func Trim(t Table) (Table, bool) {
	out := t.clone()
	isp := Col(t.Fields, "isp")
	ch := TrimChoices(t)
	if isp < 0 {
		return out, true
	}
	for i := range out.Rows {
		if len(ch[i]) != 1 {
			return out, false
		}
		out.Rows[i].V[isp] = ch[i][0]
	}
	return out, true
}

func equal(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// Merge joins adjoining networks of equal values; the rows are of one family and ascending.
func Merge(t Table) Table {
	out := Table{Fields: append([]string{}, t.Fields...)}
	for i := 0; i < len(t.Rows); {
		n := t.Rows[i].Net()
		first, last := n.First(), n.Last()
		j := i + 1
		for ; j < len(t.Rows); j++ {
			m := t.Rows[j].Net()
			if last == Max(n.V6) || m.First() != last.Add(One) || !equal(t.Rows[j].V, t.Rows[i].V) {
				break
			}
			last = m.Last()
		}
		for _, c := range Cover(n.V6, first, last) {
			r := Row{N: c.String(), V: append([]string{}, t.Rows[i].V...)}
			if !c.V6 {
				r.F = 4
			}
			out.Rows = append(out.Rows, r)
		}
		i = j
	}
	return out
}

var districts = map[string][]string{
	"东北": {"黑龙江", "辽宁", "吉林"},
	"西北": {"新疆", "青海", "宁夏", "甘肃", "陕西"},
	"华北": {"内蒙古", "河北", "山西", "天津", "北京"},
	"西南": {"西藏", "四川", "重庆", "贵州", "云南"},
	"华中": {"湖南", "湖北", "河南"},
	"华东": {"山东", "江苏", "安徽", "浙江", "江西", "福建", "上海", "台湾"},
	"华南": {"广东", "广西", "海南", "香港", "澳门"},
}

// Provinces with a district, in a fixed order.
func Provinces() []string {
	var out []string
	for _, l := range districts {
		out = append(out, l...)
	}
	sort.Strings(out)
	return out
}

// District is the administrative region of a province.
func District(province string) string {
	for d, l := range districts {
		if Col(l, province) >= 0 {
			return d
		}
	}
	return ""
}

// set gives every row a value in a column, which is added if need be.
func (t Table) set(f string, value func(r Row, old string) string) Table {
	out := t.clone()
	c := Col(t.Fields, f)
	if c < 0 {
		out.Fields = append(out.Fields, f)
	}
	for i := range out.Rows {
		if c < 0 {
			out.Rows[i].V = append(out.Rows[i].V, value(t.Rows[i], ""))
		} else {
			out.Rows[i].V[c] = value(t.Rows[i], out.Rows[i].V[c])
		}
	}
	return out
}

// AttachDistrict for data with a province column.
func AttachDistrict(t Table) Table {
	p := Col(t.Fields, "province")
	if p < 0 {
		return t.clone()
	}
	return t.set("district", func(r Row, _ string) string { return District(r.V[p]) })
}

// MainLine reduces a line to the main operators.
func MainLine(s string) string {
	for i := 0; i < len(s); i++ {
		if s[i] == '/' {
			s = s[:i]
			break
		}
	}
	switch s {
	case "", "电信", "联通", "移动":
		return s
	case "铁通":
		return "移动"
	}
	return "电信"
}

// Lines answers the line of a network ("" if unknown).
type Lines func(n Net) string

// AttachLine for data with a country column.
func AttachLine(t Table, lines Lines) Table {
	c := Col(t.Fields, "country")
	if c < 0 {
		return t.clone()
	}
	return t.set("line", func(r Row, _ string) string {
		if r.V[c] != "中国" {
			return ""
		}
		return MainLine(lines(r.Net()))
	})
}

// ReplaceLine for data with country and ISP columns.
func ReplaceLine(t Table, lines Lines) Table {
	c := Col(t.Fields, "country")
	if c < 0 || Col(t.Fields, "isp") < 0 {
		return t.clone()
	}
	return t.set("isp", func(r Row, old string) string {
		if r.V[c] == "中国" {
			if l := MainLine(lines(r.Net())); l != "" {
				return l
			}
		}
		return old
	})
}

// AttachLineByAsn takes the line from the AS number.
func AttachLineByAsn(t Table, m map[string]string) Table {
	a := Col(t.Fields, "asn")
	if a < 0 {
		return t.clone()
	}
	return t.set("line", func(r Row, old string) string {
		if l, ok := m[r.V[a]]; ok && old == "" {
			return l
		}
		return old
	})
}
