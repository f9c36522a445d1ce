package model

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"

	"pgregory.net/rapid"
)

// addresses that the repository's built-in warm-up list asks for, and other landmarks
var hot4 = []string{"0.0.0.0", "255.255.255.255", "8.8.8.8", "119.29.29.29", "127.255.255.255", "128.0.0.0",
	"111.192.0.0", "101.80.0.0", "10.0.0.0", "117.8.0.0", "120.244.0.0", "36.44.0.0", "175.167.128.0", "1.62.0.0",
	"49.93.0.0", "126.0.0.0", "30.0.0.0", "223.255.255.255", "0.0.0.1", "255.255.255.254", "1.0.0.0", "3.255.255.255", "16.0.0.0", "0.255.255.255"}
var hot6 = []string{"::", "::1", "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff", "2001:4860:4860::8888", "2606:4700:4700::1111",
	"8000::", "7fff:ffff:ffff:ffff:ffff:ffff:ffff:ffff", "2400::", "240e:1::", "4000::", "::1:0:0:0", "::fffe:ffff:ffff", "fe80::1", "fff0::", "0:0:0:1::", "2001:db8::", "::8:0:0:0"}

// Hot4 and Hot6 are the landmark addresses.
func Hot4() []Addr {
	var out []Addr
	for _, s := range hot4 {
		a, _ := ParseAddr(s)
		out = append(out, a)
	}
	return out
}
func Hot6() []Addr {
	var out []Addr
	for _, s := range hot6 {
		out = append(out, Addr{true, ParseAddr6(s)})
	}
	return out
}

var (
	hot4A = Hot4()
	hot6A = Hot6()
)

// GenU draws an address, biased to landmarks, to the ends of the space and to the
// neighbourhood of earlier ones.
func GenU(t *rapid.T, label string, v6 bool, near []U) U {
	kind := rapid.IntRange(0, 9).Draw(t, label+"kind")
	max := Max(v6)
	switch {
	case kind <= 2:
		if v6 {
			return rapid.SampledFrom(hot6A).Draw(t, label).U
		}
		return rapid.SampledFrom(hot4A).Draw(t, label).U
	case kind <= 5 && len(near) > 0:
		u := rapid.SampledFrom(near).Draw(t, label+"near")
		d := U{0, uint64(rapid.SampledFrom([]int{1, 2, 3, 4, 8, 255, 256, 65536}).Draw(t, label+"d"))}
		if s := rapid.IntRange(0, 100).Draw(t, label+"shift"); v6 && s > 50 {
			d = d.Shl(s)
		}
		if rapid.Bool().Draw(t, label+"sign") {
			return u.Add(d).And(max)
		}
		return u.Sub(d).And(max)
	case kind == 6:
		// few bits set: aligned addresses
		s := rapid.IntRange(0, Width(v6)-1).Draw(t, label+"sh")
		return U{0, uint64(rapid.IntRange(0, 255).Draw(t, label+"v"))}.Shl(s).And(max)
	case kind == 7:
		s := rapid.IntRange(0, Width(v6)).Draw(t, label+"sh")
		return max.Sub(U{0, uint64(rapid.IntRange(0, 255).Draw(t, label+"v"))}.Shl(s).And(max))
	}
	if kind == 9 && rapid.IntRange(0, 3).Draw(t, label+"dict") == 0 {
		if l := dictAddrs(v6); len(l) > 0 {
			return rapid.SampledFrom(l).Draw(t, label)
		}
	}
	u := U{rapid.Uint64().Draw(t, label+"h"), rapid.Uint64().Draw(t, label+"l")}
	if v6 && kind == 8 {
		u.H = u.H>>3 | 0x2000000000000000 // global unicast
	}
	return u.And(max)
}

func genDepth(t *rapid.T, v6 bool) int {
	if v6 {
		switch rapid.IntRange(0, 3).Draw(t, "depthkind") {
		case 0:
			return rapid.SampledFrom([]int{0, 1, 2, 3, 8, 12, 14, 15, 16, 20, 31, 32, 33, 48, 63, 64, 65, 96, 127, 128}).Draw(t, "depth")
		case 1:
			return rapid.IntRange(0, 24).Draw(t, "depth")
		}
		return rapid.IntRange(0, 128).Draw(t, "depth")
	}
	if rapid.Bool().Draw(t, "depthkind") {
		return rapid.SampledFrom([]int{0, 1, 2, 7, 8, 9, 11, 12, 13, 14, 15, 16, 17, 23, 24, 25, 30, 31, 32}).Draw(t, "depth")
	}
	return rapid.IntRange(0, 32).Draw(t, "depth")
}

func sharedBits(a, b U, w int) int {
	x := a.Xor(b)
	n := x.LeadingZeros() - (128 - w)
	if n > w {
		n = w
	}
	return n
}

// GenCover splits the whole space of a family into disjoint networks, ascending. With
// keepMapped no IPv6 network boundary falls at or inside ::ffff:0:0/96.
func GenCover(t *rapid.T, v6 bool, maxTargets int, keepMapped bool) ([]Net, []U) {
	nets := []Net{{v6, U{}, 0}}
	var targets []U
	k := rapid.IntRange(0, maxTargets).Draw(t, "targets")
	w := Width(v6)
	for i := 0; i < k; i++ {
		a := GenU(t, "target", v6, targets)
		d := genDepth(t, v6)
		targets = append(targets, a)
		if v6 && keepMapped && d > 95 && sharedBits(a, MappedBase, w) >= 95 {
			d = 95
		}
		nets = split(nets, a, d)
	}
	return nets, targets
}

func split(nets []Net, a U, d int) []Net {
	i := sort.Search(len(nets), func(i int) bool { return a.Less(nets[i].First()) }) - 1
	n := nets[i]
	if n.Bits >= d {
		return nets
	}
	w := Width(n.V6)
	var left, right []Net
	for n.Bits < d {
		b := n.Bits + 1
		lo := Net{n.V6, n.U, b}
		hi := Net{n.V6, n.U.Or(One.Shl(w - b)), b}
		if hi.Contains(Addr{n.V6, a}) {
			left = append(left, lo)
			n = hi
		} else {
			right = append(right, hi)
			n = lo
		}
	}
	out := append([]Net{}, nets[:i]...)
	out = append(out, left...)
	out = append(out, n)
	for j := len(right) - 1; j >= 0; j-- {
		out = append(out, right[j])
	}
	return append(out, nets[i+1:]...)
}

// GenSet draws disjoint ascending networks, covering or with holes. Networks meeting the
// mapped block are left out when dropMapped is set.
func GenSet(t *rapid.T, v6 bool, maxTargets int, dropMapped bool) []Net {
	nets, targets := GenCover(t, v6, maxTargets, true)
	mode := rapid.IntRange(0, 3).Draw(t, "holes")
	var out []Net
	var drop []byte
	if mode >= 2 {
		drop = rapid.SliceOfN(rapid.Byte(), len(nets), len(nets)).Draw(t, "drop")
	}
	for i, n := range nets {
		if v6 && dropMapped && n.Contains(Addr{true, MappedBase}) {
			continue
		}
		switch mode {
		case 1: // only the networks holding a target
			hit := false
			for _, a := range targets {
				if n.Contains(Addr{v6, a}) {
					hit = true
				}
			}
			if !hit {
				continue
			}
		case 2:
			if drop[i]%2 == 1 {
				continue
			}
		case 3:
			if drop[i]%8 == 1 {
				continue
			}
		}
		out = append(out, n)
	}
	return out
}

// Row is a network with its values. Form is 4 or 16 (how an IPv4 network is handed over).
type Row struct {
	N string   `json:"n"`
	F int      `json:"f,omitempty"`
	V []string `json:"v"`
}

// Net parses the row's network.
func (r Row) Net() Net { return MustNet(r.N) }

// Table is a data set.
type Table struct {
	Fields []string `json:"fields"`
	Rows   []Row    `json:"rows"`
}

// KnownFields are the columns the library knows by name.
var KnownFields = []string{"country", "province", "city", "isp", "asn", "continent", "line", "district"}
var extraKnown = []string{"utcOffset", "latitude", "longitude", "chinaAdminCode"}
var unknownFields = []string{"timezone", "owner", "x_unknown", "zip code", "Continent", "idc"}

// GenFields draws a list of distinct columns.
func GenFields(t *rapid.T, extra bool) []string {
	pool := append([]string{}, KnownFields...)
	if extra {
		pool = append(pool, extraKnown...)
		pool = append(pool, unknownFields...)
	}
	switch rapid.IntRange(0, 4).Draw(t, "fieldmode") {
	case 0:
		return []string{"country", "province", "city", "isp", "asn", "continent", "district", "line"}
	case 1:
		p := rapid.Permutation(KnownFields).Draw(t, "fields")
		return p
	}
	if extra {
		switch rapid.IntRange(0, 47).Draw(t, "dictfields") {
		case 1, 2, 3, 4:
			if f := DictName(t); f != "" && !has(pool, f) {
				pool = append(pool, f)
			}
		case 5:
			for i := DictNum(t, 45); i > 0; i-- {
				pool = append(pool, fmt.Sprintf("c%d", i))
			}
		}
	}
	p := rapid.Permutation(pool).Draw(t, "fields")
	n := rapid.IntRange(1, len(p)).Draw(t, "nfields")
	return p[:n]
}

var pools = map[string][]string{
	"country":   {"中国", "美国", "日本", "台湾", "保留地址", "中国台湾", "Côte d'Ivoire", "x"},
	"province":  {"北京", "上海", "浙江省", "浙江", "内蒙古自治区", "香港", "澳门", "台湾", "广东", "黑龙江", "新疆", "西藏", "California", "保留", "江苏", "湖北", "河南", "山西", "陕西"},
	"city":      {"北京", "杭州市", "绍兴市", "杭州", "San José", "默认", "广州", "阿坝藏族羌族自治州"},
	"isp":       {"电信", "联通", "移动", "铁通", "中国电信", "阿里云", "教育网", "Google LLC", "中国联通", "默认", "鹏博士"},
	"asn":       {"4134", "4837", "9808", "4538", "15169", "0", "AS4134"},
	"continent": {"AS", "EU", "NA", "SA", "AF", "OC", "AN", "亚洲", "欧洲", "北美洲", "南美洲", "非洲", "大洋洲", "南极洲", "XX"},
	"Continent": {"AS", "EU", "NA", "SA", "AF", "OC", "AN", "亚洲", "欧洲", "北美洲", "南美洲", "非洲", "大洋洲", "南极洲", "XX"},
	"line":      {"电信", "联通", "移动", "铁通", "电信/联通/阿里云", "教育网", "华为/移动", "/电信", "移动/联通"},
	"district":  {"华东", "华北", "西北", "华南", "somewhere"},
}
var anyPool = []string{"UTC+8", "120.08", "a,b", "a, b,c", "<&>\"'", "  ", "x y", "_", "-", "é", "中 国", "0", "null", "\\", "/", "%s%d", ":", "=", "|", "!",
	"AS", "欧洲", "EU", "中国", "电信", "移动", "北京", "浙江省", "4134", "1.2.3.4", "1.2.3.0/24", "0.0.0.0", "country", "ip", "a/b", "###", "!x", "!中国"}

// ValueOpts restricts the characters of generated values.
type ValueOpts struct {
	NoDash  bool // memip: no '-', ' '
	NoEmpty bool
	Tame    bool // only pool values and plain letters
}

func clean(s string, o ValueOpts) string {
	out := []rune{}
	for _, r := range s {
		if o.NoDash && (r == '-' || r == ' ') {
			r = '~'
		}
		if r < 0x20 || r == 0x7f {
			r = '?'
		}
		out = append(out, r)
	}
	return string(out)
}

// GenValue draws a value of a column.
func GenValue(t *rapid.T, f string, o ValueOpts) string {
	k := rapid.IntRange(0, 9).Draw(t, "vk")
	if k == 0 && !o.NoEmpty {
		return ""
	}
	p := pools[f]
	if k <= 6 && len(p) > 0 || (o.Tame && len(p) > 0) {
		return clean(rapid.SampledFrom(p).Draw(t, "v"), o)
	}
	if k == 7 || o.Tame {
		return clean(rapid.SampledFrom(anyPool).Draw(t, "v"), o)
	}
	if k == 8 {
		switch rapid.IntRange(0, 9).Draw(t, "dictkind") {
		case 0, 1, 2, 3:
			return clean(DictText(t), o)
		case 4:
			if len(p) > 0 {
				return clean(DictMix(t, rapid.SampledFrom(p).Draw(t, "v")), o)
			}
		case 5:
			if rapid.IntRange(0, 9).Draw(t, "longdict") == 0 {
				return strings.Repeat("n", DictNum(t, 3000))
			}
		}
	}
	s := rapid.StringOfN(rapid.RuneFrom([]rune("abz09 ,_.中国省市é<&\"'/\\|:=!~%😀")), 0, 8, -1).Draw(t, "v")
	if s == "" && o.NoEmpty {
		s = "q"
	}
	return clean(s, o)
}

// GenPalette draws a few tuples of values for the columns.
func GenPalette(t *rapid.T, fields []string, max int, o ValueOpts) [][]string {
	n := rapid.IntRange(1, max).Draw(t, "palette")
	var out [][]string
	for i := 0; i < n; i++ {
		var v []string
		if k := rapid.IntRange(0, 8).Draw(t, "variant"); i > 0 && k > 2 {
			of := out[rapid.IntRange(0, i-1).Draw(t, "of")]
			j := rapid.IntRange(0, len(fields)-1).Draw(t, "col")
			if k == 6 && j+1 < len(fields) && !o.Tame {
				// the same text when joined: a,b c against a b,c
				seps := []string{",", "|", "/", ":", ";", "_", "=", "&", "+", ", "}
				if !o.NoDash {
					seps = append(seps, "-", " ", "-", " ")
				} else {
					seps[9] = "."
				}
				sep := rapid.SampledFrom(seps).Draw(t, "sep")
				a := strings.SplitN(of[j], sep, 2)
				if len(a) < 2 {
					a = append(a, "q")
					of[j] += sep + "q"
				}
				v = append(v, of...)
				if !o.NoEmpty || a[0] != "" {
					v[j], v[j+1] = a[0], a[1]+sep+of[j+1]
				}
				out = append(out, v)
				continue
			}
			v = append(v, of...)
			if k < 7 {
				// differ from an earlier tuple in one column
				v[j] = GenValue(t, fields[j], o)
			} else if k == 7 && !o.Tame && rapid.IntRange(0, 5).Draw(t, "samehash") == 3 {
				// texts with the same polynomial hash of base 31
				of[j] += "Aa"
				v[j] += "BB"
			} else {
				respread(t, v, j, k, o)
			}
		} else {
			for _, f := range fields {
				v = append(v, GenValue(t, f, o))
			}
		}
		out = append(out, v)
	}
	return out
}

// respread gives two columns of a tuple values that are easily taken for the ones before:
// exchanged, or the same text divided in another place.
func respread(t *rapid.T, v []string, j, k int, o ValueOpts) {
	j2 := (j + 1) % len(v)
	if k == 8 && j2 != 0 {
		all := []rune(v[j] + v[j2])
		c := rapid.IntRange(0, len(all)).Draw(t, "divide")
		if o.NoEmpty && (c == 0 || c == len(all)) {
			return
		}
		v[j], v[j2] = string(all[:c]), string(all[c:])
		return
	}
	switch rapid.IntRange(0, 3).Draw(t, "alike") {
	case 0:
		v[j] += " "
	case 1:
		v[j] = strings.ToUpper(v[j])
	default:
		v[j], v[j2] = v[j2], v[j]
	}
	if o.NoDash {
		v[j] = strings.TrimSuffix(v[j], " ")
	}
}

// Repeat divides one of the networks into a run of equal parts; period p means that every
// p-th part is of the same kind. It returns the networks and the kind of each (-1: as before).
func Repeat(t *rapid.T, nets []Net) ([]Net, []int) {
	kinds := make([]int, len(nets))
	for i := range kinds {
		kinds[i] = -1
	}
	if len(nets) == 0 {
		return nets, kinds
	}
	at := rapid.IntRange(0, len(nets)-1).Draw(t, "repeatat")
	n := nets[at]
	b := rapid.IntRange(2, 5).Draw(t, "repeatbits")
	w := Width(n.V6)
	if n.Bits+b > w || n.V6 && n.Contains(Addr{true, MappedBase}) {
		return nets, kinds
	}
	p := 1 << rapid.IntRange(0, 2).Draw(t, "period")
	out := append([]Net{}, nets[:at]...)
	ks := append([]int{}, kinds[:at]...)
	for i := 0; i < 1<<b; i++ {
		out = append(out, Net{n.V6, n.U.Or(U{0, uint64(i)}.Shl(w - n.Bits - b)), n.Bits + b})
		ks = append(ks, i%p)
	}
	return append(out, nets[at+1:]...), append(ks, kinds[at+1:]...)
}

// Assign gives every network values out of a palette.
func Assign(t *rapid.T, nets []Net, palette [][]string) []Row {
	idx := rapid.SliceOfN(rapid.Byte(), len(nets), len(nets)).Draw(t, "assign")
	form := rapid.IntRange(0, 2).Draw(t, "form")
	var rows []Row
	for i, n := range nets {
		r := Row{N: n.String(), V: append([]string{}, palette[int(idx[i]>>1)%len(palette)]...)}
		if !n.V6 {
			r.F = 4
			if form == 1 || form == 2 && idx[i]&1 == 1 {
				r.F = 16
			}
		}
		rows = append(rows, r)
	}
	return rows
}

// Confuse gives two of the tuples in the rows the same text when all their values are joined,
// though the values differ: one column of each holds the separator itself, and the values
// between the two columns are shifted. Columns for which ok is false never hold the separator.
func Confuse(t *rapid.T, rows []Row, sep string, ok func(col int) bool) {
	first, second := -1, -1
	key := func(i int) string { return fmt.Sprintf("%q", rows[i].V) }
	for i := range rows {
		if first < 0 {
			first = i
		} else if key(i) != key(first) {
			second = i
			if rapid.Bool().Draw(t, "confuse") {
				break
			}
		}
	}
	if second < 0 {
		return
	}
	var cols []int
	for c := range rows[first].V {
		if ok(c) {
			cols = append(cols, c)
		}
	}
	if len(cols) < 2 {
		return
	}
	x := rapid.IntRange(0, len(cols)-2).Draw(t, "confusea")
	a := cols[x]
	b := cols[rapid.IntRange(x+1, len(cols)-1).Draw(t, "confuseb")]
	var tokens []string
	for c, v := range rows[first].V {
		tokens = append(tokens, strings.ReplaceAll(v, sep, ""))
		if c == a {
			tokens = append(tokens, "q")
		}
	}
	group := func(at int) []string {
		var v []string
		for i := 0; i < len(tokens); i++ {
			if i == at {
				v = append(v, tokens[i]+sep+tokens[i+1])
				i++
			} else {
				v = append(v, tokens[i])
			}
		}
		return v
	}
	va, vb := group(a), group(b)
	ka, kb := key(first), key(second)
	for i := range rows {
		switch key(i) {
		case ka:
			rows[i].V = append([]string{}, va...)
		case kb:
			rows[i].V = append([]string{}, vb...)
		}
	}
}

// Set is a table with fast lookup in the reference model.
type Set struct {
	Nets []Net
	idx  []int // row of Nets[i]
}

// NewSet indexes disjoint networks.
func NewSet(rows []Row) *Set {
	s := &Set{}
	for i, r := range rows {
		s.Nets = append(s.Nets, r.Net())
		s.idx = append(s.idx, i)
	}
	return s.sorted()
}

// NewSetNets indexes disjoint networks.
func NewSetNets(nets []Net) *Set {
	s := &Set{Nets: append([]Net{}, nets...)}
	for i := range nets {
		s.idx = append(s.idx, i)
	}
	return s.sorted()
}

func (s *Set) sorted() *Set { sort.Sort(s); return s }
func (s *Set) Len() int     { return len(s.Nets) }
func (s *Set) Swap(i, j int) {
	s.Nets[i], s.Nets[j] = s.Nets[j], s.Nets[i]
	s.idx[i], s.idx[j] = s.idx[j], s.idx[i]
}
func (s *Set) Less(i, j int) bool {
	if s.Nets[i].V6 != s.Nets[j].V6 {
		return !s.Nets[i].V6
	}
	return s.Nets[i].U.Less(s.Nets[j].U)
}

// Find returns the row index and network holding an address.
func (s *Set) Find(a Addr) (int, Net, bool) {
	i := sort.Search(len(s.Nets), func(i int) bool {
		n := s.Nets[i]
		if n.V6 != a.V6 {
			return n.V6
		}
		return a.U.Less(n.U)
	}) - 1
	if i >= 0 && s.Nets[i].Contains(a) {
		return s.idx[i], s.Nets[i], true
	}
	return 0, Net{}, false
}

// Probes lists the addresses worth asking for a set of networks: both ends of each
// network, their outer neighbours, an inner address, landmarks, the given extras.
func Probes(nets []Net, extra []U, v4, v6 bool, max int) []Addr {
	seen := map[Addr]bool{}
	var out []Addr
	add := func(a Addr) {
		if !a.V6 && !v4 || a.V6 && !v6 {
			return
		}
		if a.V6 && InMapped(a.U) {
			a = Addr{false, U{0, a.U.L & 0xffffffff}}
		}
		if !seen[a] && len(out) < max {
			seen[a] = true
			out = append(out, a)
		}
	}
	for _, u := range extra {
		add(Addr{true, u})
		add(Addr{false, u.And(Max(false))})
	}
	step := 1
	if len(nets)*4 > max {
		step = (len(nets)*4 + max - 1) / max
	}
	for off := 0; off < step; off++ {
		for i := off; i < len(nets); i += step {
			n := nets[i]
			add(Addr{n.V6, n.First()})
			add(Addr{n.V6, n.Last()})
			if !n.First().Zero() {
				add(Addr{n.V6, n.First().Sub(One)})
			}
			if n.Last() != Max(n.V6) {
				add(Addr{n.V6, n.Last().Add(One)})
			}
			size := n.Last().Sub(n.First())
			if !size.Zero() {
				x := extraAt(extra, i)
				add(Addr{n.V6, n.First().Or(x.And(size))})
			}
		}
		if off == 0 {
			// landmarks, also when the networks alone would fill the list
			m := max
			max += 24
			for _, a := range hot4A {
				add(a)
			}
			for _, a := range hot6A {
				add(a)
			}
			max += 16
			for i, n := 0, len(out); i < n && i < 48; i++ {
				add(twin(out[(i*7+n/3)%n], i))
			}
			max = m
		}
	}
	return out
}

// twin is another address that a careless hash or a shortened key takes for the same.
func twin(a Addr, kind int) Addr {
	u := a.U
	if !a.V6 {
		w := uint32(u.L)
		switch kind % 4 {
		case 0:
			w = bits.ReverseBytes32(w)
		case 1:
			w = bits.RotateLeft32(w, 16)
		case 2:
			w ^= 0x55005500 // the bytes joined by exclusive or stay
		default:
			w += 1<<8 - 31 // the polynomial of base 31 stays
			if w&0xff+31 > 0xff || w>>8&0xff == 0 {
				w ^= 0x01000000
			}
		}
		if kind%9 == 8 {
			return Addr{true, U{0x20010db8 << 32, u.L}}
		}
		return Addr{false, U{0, uint64(w)}}
	}
	switch kind % 7 {
	case 0:
		return Addr{true, U{u.L, u.H}}
	case 1:
		return Addr{true, U{bits.RotateLeft64(u.H, 32), u.L}}
	case 2:
		return Addr{true, U{u.H ^ 1<<61, u.L ^ 1<<61}}
	case 3:
		return Addr{true, U{u.H ^ 1<<60, u.L}}
	case 4:
		return Addr{true, U{u.H, u.L ^ 1<<63}}
	case 5:
		return Addr{true, U{u.H + 1<<40 - 31<<32, u.L}}
	}
	return Addr{true, U{bits.ReverseBytes64(u.L), bits.ReverseBytes64(u.H)}}
}

func extraAt(extra []U, i int) U {
	if len(extra) == 0 {
		return U{0x0123456789abcdef, 0x02468ace13579bdf}
	}
	e := extra[i%len(extra)]
	k := uint(i/len(extra)) % 64
	return U{e.H<<k | e.H>>(64-k), e.L<<k | e.L>>(64-k)}
}

// GenExtra draws a few random addresses to ask for.
func GenExtra(t *rapid.T) []string {
	n := rapid.IntRange(1, 4).Draw(t, "nextra")
	var out []string
	for i := 0; i < n; i++ {
		u := U{rapid.Uint64().Draw(t, "eh"), rapid.Uint64().Draw(t, "el")}
		out = append(out, Addr{true, u}.String())
	}
	return out
}

// ParseExtra reads what GenExtra drew.
func ParseExtra(s []string) []U {
	var out []U
	for _, x := range s {
		out = append(out, ParseAddr6(x))
	}
	return out
}

// Describe is a short text for messages.
func Describe(v any) string { return fmt.Sprintf("%+v", v) }
