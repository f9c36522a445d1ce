package main

import (
	"net"
	"net/netip"
	"runtime/metrics"
	"strconv"
	"strings"

	"verif/harness/model"
	"verif/harness/pbt"
	"verif/harness/uipx"

	"github.com/qiniu/uip/db/inf"
	"pgregory.net/rapid"
)

// textCase is a damaged text database.
type textCase struct {
	Kind  string   `json:"kind"`
	Lines []string `json:"lines"` // joined with Sep
	Sep   string   `json:"sep"`
	End   bool     `json:"end"` // the last line is ended
	Cut   int      `json:"cut"` // bytes removed at the end
	Rule  string   `json:"rule,omitempty"`
}

func (k textCase) text() string {
	s := strings.Join(k.Lines, k.Sep)
	if k.End {
		s += k.Sep
	}
	if k.Cut > 0 {
		s = s[:max(0, len(s)-k.Cut)]
	}
	return s
}

var nastyScan = []string{"", "#", "#### ", "####", "#### null", "#### {}", "#### [1]", "#### 7", `#### {"Count":4294967290}`, `#### {"Count":4294967295,"IpType":1}`,
	`#### {"Count":-1}`, `#### {"IpType":"x"}`, "#### {", "\t", "\t\t", ",", "1.0.0.0/8", "1.0.0.0/8\t", "1.0.0.0/33\ta", "/8\ta", "::/0\t,,,", "255.255.255.255/32\ta",
	"255.255.255.255/32\ta,b", "1.2.3.4/8\tx", "::ffff:1.2.3.4/120\tx", "0.0.0.0/0\t", "a\tb\tc", "     ", "#### a,a", "#### ,", " 1.0.0.0/8\tx", "{}",
	"01.0.0.0/8\tx", "1.0.0.0/08\tx", "1.0.0.0/+8\tx", "1/8\tx", "0x1.0.0.0/8\tx", "1.0.0.0/255.0.0.0\tx", "1.0.0.0/0x8\tx", "1.0.0.0\tx", "1::%1/64\tx", "1.0.0.0/8 \tx", "1.0.0/8\tx",
	"1.0.0.0/1_0\tx", "1::/129\tx", "1.0.0.0/-1\tx", "1.0.0.0/\tx", "1.0.0.0/8/8\tx"}

var nastyMemip = []string{"", " ", "  ", "1 2", "1 2 a-b-c-d-e-f", "1 2 a-b", "1 2 ", "a b c", "2 1 a-b-c-d-e-f", "4294967295 4294967295 a-b-c-d-e-f", "0 4294967295 a-b-c-d-e-f",
	"4294967296 4294967297 a-b-c-d-e-f", "-1 5 a-b-c-d-e-f", ":: :: a-b-c-d-e-f", ":: 1.2.3.4 a-b-c-d-e-f", "1.2.3.4 1.2.3.5 a-b-c-d-e-f", ": : :", "::1 zz a-b-c-d-e-f",
	"0x10 0x20 a-b-c-d-e-f", "1_0 2_0 a-b-c-d-e-f", "010 020 a-b-c-d-e-f", "+1 +2 a-b-c-d-e-f", "0b1 0b11 a-b-c-d-e-f", "0o1 0o7 a-b-c-d-e-f", "1e1 1e2 a-b-c-d-e-f",
	"1.0 2.0 a-b-c-d-e-f", "a f a-b-c-d-e-f", "٣ ٤ a-b-c-d-e-f", "00 0x7 a-b-c-d-e-f", "3 4294967299 a-b-c-d-e-f", "0::0 0::0x7 a-b-c-d-e-f", "1::%1 1::5 a-b-c-d-e-f",
	"ffff:: :: a-b-c-d-e-f", "0 5 a-b-c-d-e-f-g", "1 2 a-b-c-d-e-f x", ":: ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff a-b-c-d-e-f", "5 ::1 a-b-c-d-e-f"}

func genTextCase(t *rapid.T) textCase {
	k := textCase{Kind: rapid.SampledFrom([]string{".scan", ".memip"}).Draw(t, "kind"), Sep: "\n", End: rapid.IntRange(0, 4).Draw(t, "end") > 0}
	nasty := nastyScan
	var text string
	switch {
	case rapid.IntRange(0, 9).Draw(t, "source") == 0:
		k.Lines = rapid.SliceOfN(rapid.OneOf(rapid.SampledFrom(append(append([]string{}, nastyScan...), nastyMemip...)),
			rapid.StringOfN(rapid.RuneFrom([]rune("01:./ -\t,#{}a\r")), 0, 12, -1)), 0, 6).Draw(t, "lines")
		text = "-"
	case k.Kind == ".scan":
		c := genScanCase(t)
		b, err := uipx.Pack(".scan", uipx.Data(c.T, c.Ver))
		if err != nil {
			panic(pbt.Infra(err))
		}
		text = string(b)
		if i := strings.IndexByte(text, '\n'); i >= 0 { // the time of packing
			text = "#### scan dump ####" + text[i:]
		}
	default:
		nasty = nastyMemip
		m := genMemipText(t)
		m.NoLast = false
		text = m.text()
	}
	if text != "-" && text != "" {
		k.Lines = strings.Split(strings.TrimSuffix(text, "\n"), "\n")
	}
	if rapid.IntRange(0, 9).Draw(t, "crlf") == 0 {
		k.Sep = "\r\n"
	}
	for n := rapid.IntRange(0, 3).Draw(t, "ndamage"); n > 0; n-- {
		l := len(k.Lines)
		at := 0
		if l > 0 {
			at = rapid.IntRange(0, l-1).Draw(t, "at")
			if rapid.Bool().Draw(t, "head") {
				at = min(at, 2)
			}
		}
		ins := func(s string) {
			k.Lines = append(k.Lines[:at:at], append([]string{s}, k.Lines[at:]...)...)
		}
		switch rapid.SampledFrom([]string{"del", "dup", "ins", "ins", "set", "set", "swap", "byte", "byte", "cutline", "long", "cut", "tocut"}).Draw(t, "damage") {
		case "del":
			if l > 0 {
				k.Lines = append(k.Lines[:at:at], k.Lines[at+1:]...)
			}
		case "dup":
			if l > 0 {
				ins(k.Lines[at])
			}
		case "ins":
			ins(rapid.SampledFrom(nasty).Draw(t, "nasty"))
		case "set":
			if l > 0 {
				k.Lines = append([]string{}, k.Lines...)
				k.Lines[at] = rapid.SampledFrom(nasty).Draw(t, "nasty")
			}
		case "swap":
			if l > 1 {
				k.Lines = append([]string{}, k.Lines...)
				b := rapid.IntRange(0, l-1).Draw(t, "with")
				k.Lines[at], k.Lines[b] = k.Lines[b], k.Lines[at]
			}
		case "byte":
			if l > 0 && len(k.Lines[at]) > 0 {
				k.Lines = append([]string{}, k.Lines...)
				s := []byte(k.Lines[at])
				i := rapid.IntRange(0, len(s)-1).Draw(t, "byteat")
				x := rapid.SampledFrom([]string{"", "\x00", "\t", ",", " ", "-", "#", "/", ":", "9", "\"", "\xff", "\n", "\r"}).Draw(t, "byte")
				k.Lines[at] = string(s[:i]) + x + string(s[i+1:])
			}
		case "cutline":
			if l > 0 {
				k.Lines = append([]string{}, k.Lines...)
				k.Lines[at] = k.Lines[at][:rapid.IntRange(0, len(k.Lines[at])).Draw(t, "keep")]
			}
		case "long":
			ins(strings.Repeat(rapid.SampledFrom([]string{"x", ",", "1.0.0.0/8\t", " "}).Draw(t, "what"), rapid.SampledFrom([]int{1000, 65536, 70000}).Draw(t, "len")))
		case "cut":
			k.Cut = rapid.IntRange(0, 40).Draw(t, "cut")
		case "tocut":
			k.Lines = k.Lines[:at]
		}
	}
	if k.Kind == ".scan" && rapid.IntRange(0, 3).Draw(t, "ruled") == 0 {
		k.Rule = strings.Join(genRuleColumns(t, nil), ",")
	}
	return k
}

// allocated counts the bytes allocated so far by this process.
func allocated() uint64 {
	s := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

func cidr(s string) (model.Net, bool) {
	p, err := netip.ParsePrefix(s)
	if err != nil || p.Addr().Zone() != "" {
		return model.Net{}, false
	}
	a, ok := model.FromBytes(p.Addr().AsSlice())
	n := model.Net{V6: a.V6, U: a.U, Bits: p.Bits()}
	if p.Addr().Is4In6() {
		n.Bits -= 96
		if n.Bits < 0 {
			return n, false
		}
	}
	return n.Canon(), ok
}

func checkM03(c *pbt.Ctx, k textCase) error {
	text := k.text()
	before := allocated()
	d, err := dumpBytes(k.Kind, []byte(text), k.Rule)
	used := allocated() - before
	if brokenDump(err) {
		return pbt.Violationf("%v", err)
	}
	// decomposing an IPv6 range takes up to 254 networks
	if limit := uint64(16<<20 + 4000*len(text)); used > limit {
		return pbt.Violationf("reading %d bytes allocates %d bytes", len(text), used)
	}
	var lines []string
	for _, l := range strings.Split(text, "\n") {
		lines = append(lines, strings.TrimSuffix(l, "\r"))
	}
	c.Class("%s", k.Kind)
	if err != nil {
		c.Class("refused")
		if len(lines) > 3 {
			c.NonTrivial()
		}
		return nil
	}
	t, err := tableOf(d)
	if err != nil {
		return pbt.Violationf("%v", err)
	}
	for i, r := range t.Rows {
		if len(r.V) != len(t.Fields) {
			return pbt.Violationf("row %d (%s) has %d values for the columns %q", i, r.N, len(r.V), t.Fields)
		}
	}
	if k.Kind == ".scan" {
		return m03scan(c, k, lines, t)
	}
	return m03memip(c, lines, t, d)
}

func m03scan(c *pbt.Ctx, k textCase, lines []string, t model.Table) error {
	// every line that is a row must be one of the rows, in order
	rows, i := 0, 0
	var cols []string
	if len(lines) > 2 && strings.HasPrefix(lines[2], "#### ") {
		cols = strings.Split(lines[2][5:], ",")
	} else {
		return pbt.Violationf("a text without the line of its columns (%d lines) is read without an error", len(lines))
	}
	// and every line that is not empty must be one
	plain := 0
	for at, l := range lines {
		if at < 3 || strings.TrimSpace(l) == "" {
			continue
		}
		p := strings.Split(l, "\t")
		if len(p) != 2 {
			return pbt.Violationf("line %d %.200q is no row but is read without an error", at, l)
		}
		if _, _, err := net.ParseCIDR(p[0]); err != nil {
			return pbt.Violationf("line %d %.200q holds no network but is read without an error", at, l)
		}
		if n := len(strings.Split(p[1], ",")); cols != nil && n != len(cols) {
			return pbt.Violationf("line %d %.200q holds %d values for %d columns but is read without an error", at, l, n, len(cols))
		}
		plain++
	}
	if plain != len(t.Rows) {
		return pbt.Violationf("%d lines are read as %d rows", plain, len(t.Rows))
	}
	dup := map[string]bool{}
	for _, f := range cols {
		if dup[f] {
			cols = nil // which of two equal columns is read is open
			break
		}
		dup[f] = true
	}
	for at, l := range lines {
		p := strings.Split(l, "\t")
		if len(p) != 2 {
			continue
		}
		n, ok := cidr(p[0])
		if !ok {
			continue
		}
		rows++
		vals := strings.Split(p[1], ",")
		var want []string
		if cols != nil && len(vals) == len(cols) {
			want = []string{}
			for _, f := range t.Fields {
				w := ""
				for j, x := range cols {
					if x == f && f != "" {
						w = vals[j]
					}
				}
				want = append(want, w)
			}
		}
		for ; i < len(t.Rows); i++ {
			if t.Rows[i].N == n.String() && (want == nil || has(t.Fields, "") || sameStrings(t.Rows[i].V, want)) {
				break
			}
		}
		if i == len(t.Rows) {
			return pbt.Violationf("line %d %.200q is missing among the %d rows read without an error (expected %v with %.200q)", at, l, len(t.Rows), n, want)
		}
		i++
	}
	if len(t.Rows) > len(lines) {
		return pbt.Violationf("%d rows out of %d lines", len(t.Rows), len(lines))
	}
	c.Class("read")
	if rows > 1 {
		c.NonTrivial()
	}
	return nil
}

// memLine reads a well-formed line of a memip file.
func memLine(l string) (v6 bool, a, b model.U, view []string, ok bool) {
	p := strings.Split(l, " ")
	if len(p) != 3 {
		return
	}
	view = strings.Split(p[2], "-")
	if len(view) != 6 {
		return
	}
	if strings.Contains(p[0], ":") {
		x, ok1 := model.ParseAddr(p[0])
		y, ok2 := model.ParseAddr(p[1])
		if !ok1 || !ok2 || !x.V6 || !y.V6 || strings.Contains(p[0]+p[1], "%") {
			return
		}
		return true, x.U, y.U, view, !y.U.Less(x.U)
	}
	x, err1 := strconv.ParseUint(p[0], 10, 32)
	y, err2 := strconv.ParseUint(p[1], 10, 32)
	if err1 != nil || err2 != nil {
		return
	}
	return false, model.U{L: x}, model.U{L: y}, view, x <= y
}

func m03memip(c *pbt.Ctx, lines []string, t model.Table, d *inf.IpData) error {
	i, rows := 0, 0
	odd, skipped := false, 0
	for at, l := range lines {
		v6, a, b, view, ok := memLine(l)
		if !ok {
			if strings.TrimSpace(l) == "" {
				continue
			}
			// mapped addresses have two families and are left to the reader
			p := strings.Split(l, " ")
			bad := len(p) != 3 || strings.Count(p[2], "-") != 5 || !strings.Contains(p[0], ":") || net.ParseIP(p[0]) == nil || net.ParseIP(p[1]) == nil
			if !bad {
				x, _ := model.ParseAddr(p[0])
				y, _ := model.ParseAddr(p[1])
				bad = x.V6 && y.V6 // in the wrong order
			}
			if bad {
				return pbt.Violationf("line %d %.200q is no row but is read without an error", at, l)
			}
			odd = true
			continue
		}
		if v6 && (a.Less(model.MappedBase.Add(model.U{L: 1 << 32})) && !b.Less(model.MappedBase)) {
			odd = true
			continue // around the mapped block
		}
		rows++
		// the networks of the range follow each other
		found := false
	search:
		for ; i < len(t.Rows) && !found; i++ {
			pos := a
			for j := i; j < len(t.Rows); j++ {
				n := t.Rows[j].Net()
				if n.V6 != v6 || n.First() != pos || b.Less(n.Last()) || !sameStrings(t.Rows[j].V, view) {
					skipped++
					continue search
				}
				if n.Last() == b {
					found = true
					i = j
					break
				}
				pos = n.Last().Add(model.One)
			}
		}
		if !found {
			return pbt.Violationf("line %d %.200q is missing among the %d networks read without an error", at, l, len(t.Rows))
		}
	}
	if skipped += len(t.Rows) - i; !odd && skipped > 0 {
		return pbt.Violationf("%d of the %d networks read are in no line", skipped, len(t.Rows))
	}
	if d.Version == nil || int(d.Version.Count) != len(t.Rows) {
		return pbt.Violationf("version information %v for %d networks", d.Version, len(t.Rows))
	}
	c.Class("read")
	if rows > 1 {
		c.NonTrivial()
	}
	return nil
}

func init() {
	pbt.Register("M03", "damaged-text", pbt.Options{
		Rule:  "scan and memip files with lines removed, repeated, swapped, cut or replaced by malformed ones (headers included), very long lines, cut files and arbitrary text; reading gives an error or every well-formed row, without a crash or memory beyond the size of the text; non-trivial: more than 3 lines and refused, or more than one row read",
		Quick: 80000, Thorough: 1500000,
	}, genTextCase, checkM03)
}
