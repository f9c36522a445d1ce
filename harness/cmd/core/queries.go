package main

import (
	"fmt"
	"net"
	"strings"

	"verif/harness/model"
	"verif/harness/pbt"
	"verif/harness/uipx"

	"github.com/qiniu/uip/db/format/awdb"
	"github.com/qiniu/uip/db/query"
	"pgregory.net/rapid"
)

type maskCase struct {
	D    DbCase   `json:"d"`
	Warm []string `json:"warm"`
}

type formsCase struct {
	D    DbCase   `json:"d"`
	Junk []string `json:"junk"`
	Lens []int    `json:"lens"`
}

func init() {
	pbt.Register("Q02", "prefix", pbt.Options{
		Rule:  "random ipdb and awdb databases, asked at and around the bounds of every network before and after a random cache warm-up: the prefix length is that of the stored network, and the network the awdb reader names is the stored one, or for an address without a record one that holds no stored network; non-trivial: at least two different lengths are reported",
		Quick: 24000, Thorough: 400000,
	}, func(t *rapid.T) maskCase {
		k := maskCase{D: genDbCase(t, false)}
		n := rapid.IntRange(0, 4).Draw(t, "nwarm")
		for i := 0; i < n; i++ {
			v6 := rapid.Bool().Draw(t, "v6")
			k.Warm = append(k.Warm, model.Addr{V6: v6, U: model.GenU(t, "warm", v6, nil)}.String())
		}
		return k
	}, checkQ02)
	pbt.Register("Q03", "forms", pbt.Options{
		Rule:  "random ipdb and awdb databases asked for each address in every spelling (binary 4/16 bytes, number, canonical, expanded, upper-case, zero-padded and IPv4-mapped text), and for texts and byte strings that are no addresses; non-trivial: answered and refused addresses both occur",
		Quick: 24000, Thorough: 300000,
	}, func(t *rapid.T) formsCase {
		k := formsCase{D: genDbCase(t, false)}
		n := rapid.IntRange(1, 6).Draw(t, "njunk")
		for i := 0; i < n; i++ {
			k.Junk = append(k.Junk, genJunk(t))
		}
		k.Lens = rapid.SliceOfN(rapid.SampledFrom([]int{0, 1, 2, 3, 5, 6, 7, 8, 12, 15, 17, 20, 32}), 1, 3).Draw(t, "lens")
		return k
	}, checkQ03)
	pbt.Register("Q05", "lookup", pbt.Options{
		Rule:  "random well-formed awdb databases written by an independent encoder (24/28/32-bit records, IPv4 and IPv6 trees, shared values, all string sizes) and asked for addresses inside, around and outside their networks; non-trivial: at least 2 networks and one answered address",
		Quick: 12000, Thorough: 400000,
	}, func(t *rapid.T) AwdbCase { return genAwdbCase(t, false) }, checkQ05)
	pbt.Register("Q05", "large", pbt.Options{
		Rule:  "awdb databases with many nodes or with data offsets beyond 2^24, so that all bits of a tree record matter; non-trivial: more than 20000 nodes or more than 16 MB of data",
		Quick: 24, Thorough: 400, NoShrink: true,
	}, func(t *rapid.T) bigAwdb {
		k := bigAwdb{V6: rapid.Bool().Draw(t, "v6"), RS: rapid.SampledFrom([]int{24, 28, 32}).Draw(t, "rs"), Seed: rapid.Uint64().Draw(t, "seed")}
		if k.RS > 24 && rapid.Bool().Draw(t, "far") {
			k.Pad = 1<<24 + rapid.SampledFrom([]int{-40, -16, 0, 5, 70000, 1 << 24, 3 << 24}).Draw(t, "pad")
			k.N = 200
		} else {
			k.N = rapid.IntRange(2000, 9000).Draw(t, "n")
		}
		return k
	}, checkBigAwdb)
	pbt.Register("Q01", "large", pbt.Options{
		Rule:  "tables of thousands of rows with distinct values, so that node numbers and data offsets exceed 16 bits; non-trivial: always",
		Quick: 24, Thorough: 400, NoShrink: true,
	}, func(t *rapid.T) bigAwdb {
		return bigAwdb{V6: rapid.Bool().Draw(t, "v6"), N: rapid.IntRange(2000, 9000).Draw(t, "n"), Seed: rapid.Uint64().Draw(t, "seed")}
	}, checkBigIpdb)
	pbt.Register("Q08", "overlap", pbt.Options{
		Rule:  "random sequences of possibly nested, equal and disjoint networks in random order packed to ipdb; non-trivial: at least one network is left out because it contains or lies in an accepted one",
		Quick: 64000, Thorough: 500000,
	}, genOverlap, checkQ08)
}

func intern(db *query.Db, warm []string) error {
	return pbt.Try(func() { query.GetIntern(db).BuildCache(warm) })
}

func checkAnswers(db *query.Db, o *opened, masks bool, max int, f func(a model.Addr, got uipx.Ans)) error {
	for _, a := range o.probes(max) {
		got, err := uipx.Ask(db, a.IP())
		if err != nil {
			return pbt.Violationf("%v: %v", a, err)
		}
		rec, mask, ok := o.answer(a)
		switch {
		case ok && !got.OK:
			return pbt.Violationf("%v has the record %+v but the lookup fails: %s", a, rec, got.Err)
		case !ok && got.OK:
			return pbt.Violationf("%v has no record but the lookup answers %+v/%d", a, got.Rec, got.Mask)
		case ok && got.Rec != rec:
			return pbt.Violationf("%v: got %+v, stored %+v", a, got.Rec, rec)
		case ok && masks && got.Mask != mask:
			return pbt.Violationf("%v: prefix length %d reported, the stored network has %d", a, got.Mask, mask)
		}
		if f != nil {
			f(a, got)
		}
	}
	return nil
}

func checkQ02(c *pbt.Ctx, k maskCase) error {
	o, err := k.D.open()
	if err != nil {
		return err
	}
	db, err := uipx.Load(o.kind, o.bytes)
	if err != nil {
		return pbt.Violationf("loading fails: %v", err)
	}
	c.Class("%s", o.kind)
	lens := map[int]bool{}
	note := func(_ model.Addr, g uipx.Ans) {
		if g.OK {
			lens[g.Mask] = true
		}
	}
	if err := checkAnswers(db, o, true, 120, note); err != nil {
		return err
	}
	if err := intern(db, k.Warm); err != nil {
		return pbt.Violationf("warming up with %v: %v", k.Warm, err)
	}
	if err := checkAnswers(db, o, true, 60, note); err != nil {
		return pbt.Violationf("after warming up with %v: %v", k.Warm, err)
	}
	if k.D.Aw != nil {
		if err := checkAwNetworks(c, k.D.Aw, o); err != nil {
			return err
		}
	}
	if len(lens) > 1 {
		c.NonTrivial()
	}
	return nil
}

// checkAwNetworks asks the reader for the network of every address, also of those without a record.
func checkAwNetworks(c *pbt.Ctx, k *AwdbCase, o *opened) error {
	r, err := awdb.FromBytes(o.bytes)
	if err != nil {
		return pbt.Violationf("the reader cannot load it: %v", err)
	}
	for _, a := range o.probes(80) {
		var x any
		var nw *net.IPNet
		var ok bool
		if p := pbt.Try(func() { nw, ok, err = r.LookupNetwork(a.IP(), &x) }); p != nil {
			return pbt.Violationf("the network of %v: %v", a, p)
		}
		_, _, want := o.answer(a)
		if want != (ok && err == nil) {
			return pbt.Violationf("the network of %v: %v, %v, %v, a record is stored: %v", a, nw, ok, err, want)
		}
		if a.V6 && !k.A.V6 {
			if err == nil {
				return pbt.Violationf("the network of %v in an IPv4 database: %v without an error", a, nw)
			}
			continue
		}
		if err != nil {
			return pbt.Violationf("the network of %v: %v", a, err)
		}
		m, e := model.FromIPNet(nw)
		if e != nil {
			return pbt.Violationf("the network of %v is %v: %v", a, nw, e)
		}
		q := a
		if k.A.V6 && !a.V6 {
			q = model.Addr{V6: true, U: a.U}
		}
		if m = k.A.TreeNet(m); !m.Contains(q) {
			return pbt.Violationf("the network of %v is %v, which does not hold it", a, nw)
		}
		if want {
			if _, n, _ := k.tree().Find(q); n != m {
				return pbt.Violationf("the network of %v is %v, stored %v", a, nw, n)
			}
			continue
		}
		c.Class("network without a record")
		for _, s := range k.A.Nets {
			if n := k.A.TreeNet(model.MustNet(s)); m.Covers(n) || n.Covers(m) {
				return pbt.Violationf("the network without a record around %v is %v, but %v is stored", a, nw, n)
			}
		}
	}
	return nil
}

// spellings lists textual forms of an address.
func spellings(a model.Addr) []string {
	b := a.Bytes()
	if !a.V6 {
		d := a.String()
		return []string{d, "::ffff:" + d, fmt.Sprintf("::FFFF:%02x%02x:%02X%02x", b[0], b[1], b[2], b[3]),
			fmt.Sprintf("::ffff:%x:%x", int(b[0])<<8|int(b[1]), int(b[2])<<8|int(b[3])), "0:0:0:0:0:ffff:" + d, "0000:0000:0000:0000:0000:ffff:" + d}
	}
	var g []string
	for i := 0; i < 16; i += 2 {
		g = append(g, fmt.Sprintf("%02x%02x", b[i], b[i+1]))
	}
	full := strings.Join(g, ":")
	var short []string
	for i := 0; i < 16; i += 2 {
		short = append(short, fmt.Sprintf("%x", int(b[i])<<8|int(b[i+1])))
	}
	all := []string{a.String(), full, strings.ToUpper(full), strings.Join(short, ":"), strings.ToUpper(a.String()),
		fmt.Sprintf("%s:%d.%d.%d.%d", strings.Join(g[:6], ":"), b[12], b[13], b[14], b[15])}
	// :: for one group of zeros, the first and the last one there are
	for i := 0; i < 8; i++ {
		if short[i] == "0" {
			all = append(all, strings.Join(short[:i], ":")+"::"+strings.Join(short[i+1:], ":"))
			break
		}
	}
	for i := 7; i >= 0; i-- {
		if short[i] == "0" {
			all = append(all, strings.Join(short[:i], ":")+"::"+strings.Join(short[i+1:], ":"))
			break
		}
	}
	return all
}

func genJunk(t *rapid.T) string {
	switch rapid.IntRange(0, 4).Draw(t, "junkkind") {
	case 4:
		v6 := rapid.IntRange(0, 3).Draw(t, "v6") == 0
		a := model.Addr{V6: v6, U: model.GenU(t, "j", v6, nil)}.String()
		return model.DictMix(t, rapid.SampledFrom([]string{"", "/", ":", "="}).Draw(t, "sep")+a)
	case 0:
		return rapid.SampledFrom([]string{"", " ", "1.2.3", "1.2.3.4.5", "256.0.0.1", "1.2.3.-4", "1.2.3.4/24", "fe80::1%eth0", "::1/128", ":::", ":", "1:2", "g::1", "1::2::3",
			"::ffff:1.2.3.256", "12345::", "1.2.3.4\x00", "\xff\xfe", "www.qiniu.com", "8.8.8.8\n", " 8.8.8.8", "8.8.8.8 ", "0x08080808", "134744072", "1:2:3:4:5:6:7:8:9", "٣.٢.١.٠", "8。8。8。8", "[::1]", "1.2.3.4:80"}).Draw(t, "junk")
	case 1:
		return rapid.StringOfN(rapid.RuneFrom([]rune("0123456789.:abfxg/% ")), 0, 20, -1).Draw(t, "junk")
	case 2:
		return string(rapid.SliceOfN(rapid.Byte(), 0, 20).Draw(t, "junk"))
	}
	v6 := rapid.Bool().Draw(t, "v6")
	s := []byte(model.Addr{V6: v6, U: model.GenU(t, "j", v6, nil)}.String())
	s[rapid.IntRange(0, len(s)-1).Draw(t, "at")] = byte(rapid.SampledFrom([]rune("0.:x9f-")).Draw(t, "c"))
	return string(s)
}

func checkQ03(c *pbt.Ctx, k formsCase) error {
	o, err := k.D.open()
	if err != nil {
		return err
	}
	db, err := uipx.Load(o.kind, o.bytes)
	if err != nil {
		return pbt.Violationf("loading fails: %v", err)
	}
	c.Class("%s", o.kind)
	hit, miss := false, false
	for _, a := range o.probes(40) {
		first, err := uipx.Ask(db, a.IP())
		if err != nil {
			return pbt.Violationf("%v: %v", a, err)
		}
		if first.OK {
			hit = true
		} else {
			miss = true
		}
		check := func(how string, g uipx.Ans, err error) error {
			if err != nil {
				return pbt.Violationf("%v as %s: %v", a, how, err)
			}
			if g.OK != first.OK || g.OK && (g.Rec != first.Rec || g.Mask != first.Mask) {
				return pbt.Violationf("%v: binary form gives %+v, %s gives %+v", a, first, how, g)
			}
			return nil
		}
		if !a.V6 {
			g, err := uipx.Ask(db, a.IP16())
			if err := check("16 bytes", g, err); err != nil {
				return err
			}
			g, err = uipx.AskU32(db, uint32(a.U.L))
			if err := check("number", g, err); err != nil {
				return err
			}
		}
		for _, s := range spellings(a) {
			g, err := uipx.AskStr(db, s)
			if err := check(s, g, err); err != nil {
				return err
			}
		}
	}
	for _, s := range k.Junk {
		a, isIP := model.ParseAddr(s)
		g, err := uipx.AskStr(db, s)
		if err != nil {
			return pbt.Violationf("text %q: %v", s, err)
		}
		if !isIP {
			if g.OK {
				return pbt.Violationf("text %q is no address but is answered %+v", s, g)
			}
			continue
		}
		first, err := uipx.Ask(db, a.IP())
		if err != nil {
			return pbt.Violationf("%v: %v", a, err)
		}
		if g.OK != first.OK || g.OK && (g.Rec != first.Rec || g.Mask != first.Mask) {
			return pbt.Violationf("%v: binary form gives %+v, text %q gives %+v", a, first, s, g)
		}
	}
	for _, n := range k.Lens {
		for _, fill := range []byte{0, 8, 0xff} {
			ip := make(net.IP, n)
			for i := range ip {
				ip[i] = fill
			}
			g, err := uipx.Ask(db, ip)
			if err != nil {
				return pbt.Violationf("%d bytes: %v", n, err)
			}
			if g.OK {
				return pbt.Violationf("%d bytes are no address but are answered %+v", n, g)
			}
		}
	}
	if hit && miss {
		c.NonTrivial()
	}
	return nil
}

func checkQ05(c *pbt.Ctx, k AwdbCase) error {
	d := DbCase{Aw: &k}
	o, _ := d.open()
	db, err := uipx.Load(o.kind, o.bytes)
	if err != nil {
		return pbt.Violationf("loading fails: %v", err)
	}
	hits := 0
	err = checkAnswers(db, o, false, 160, func(a model.Addr, g uipx.Ans) {
		if g.OK {
			hits++
		}
	})
	if err != nil {
		return err
	}
	c.Class("v6=%v rs=%d", k.A.V6, k.A.RecordSize)
	if len(k.A.Nets) > 1 && hits > 0 {
		c.NonTrivial()
	}
	return checkAwMisses(o)
}

// checkAwMisses asks the reader itself for addresses without a record.
func checkAwMisses(o *opened) error {
	r, err := awdb.FromBytes(o.bytes)
	if err != nil {
		return pbt.Violationf("the reader cannot load it: %v", err)
	}
	n := 0
	for _, a := range o.probes(160) {
		if _, _, ok := o.answer(a); ok {
			continue
		}
		if n++; n > 6 {
			break
		}
		other := a.V6 && r.Metadata.IPVersion == 4
		x := any("untouched")
		var err error
		if p := pbt.Try(func() { err = r.Lookup(a.IP(), &x) }); p != nil {
			return pbt.Violationf("Reader.Lookup(%v): %v", a, p)
		}
		if x != any("untouched") {
			return pbt.Violationf("Reader.Lookup(%v) gives %v for an address without a record", a, x)
		}
		if other && err == nil {
			return pbt.Violationf("Reader.Lookup(%v) gives no error in an IPv4 database", a)
		}
		var off uintptr
		if p := pbt.Try(func() { off, err = r.LookupOffset(a.IP()) }); p != nil {
			return pbt.Violationf("Reader.LookupOffset(%v): %v", a, p)
		}
		if other == (err == nil) || off != awdb.NotFound {
			return pbt.Violationf("Reader.LookupOffset(%v) gives %d (%v) for an address without a record", a, off, err)
		}
		var ok bool
		if p := pbt.Try(func() { _, ok, err = r.LookupNetwork(a.IP(), &x) }); p != nil {
			return pbt.Violationf("Reader.LookupNetwork(%v): %v", a, p)
		}
		if ok || other == (err == nil) || x != any("untouched") {
			return pbt.Violationf("Reader.LookupNetwork(%v) gives %v, %v (%v) for an address without a record", a, x, ok, err)
		}
	}
	return nil
}

type bigAwdb struct {
	V6   bool   `json:"v6"`
	RS   int    `json:"rs,omitempty"`
	N    int    `json:"n"`
	Pad  int    `json:"pad,omitempty"`
	Seed uint64 `json:"seed"`
}

type rnd uint64

func (r *rnd) next() uint64 {
	*r += 0x9e3779b97f4a7c15
	z := uint64(*r)
	z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
	z = (z ^ z>>27) * 0x94d049bb133111eb
	return z ^ z>>31
}

// nets draws about n disjoint networks, ascending.
func (k bigAwdb) nets() []model.Net {
	r := rnd(k.Seed)
	var out []model.Net
	w := model.Width(k.V6)
	u := model.U{}
	max := model.Max(k.V6)
	for len(out) < k.N {
		// skip ahead, then a network of a random size that fits
		gap := model.U{L: r.next() % 5}
		x := r.next()
		if x%3 > 0 {
			// a large step
			s := int(r.next() % uint64(w-16))
			if k.V6 {
				s = 40 + int(r.next()%70)
			}
			gap = model.U{L: r.next() % 16}.Shl(s % (w - 13))
			if !k.V6 {
				gap = gap.And(model.U{L: 0xfffff})
			}
		}
		v := u.Add(gap)
		if v.Less(u) || max.Less(v) {
			break
		}
		u = v
		tz := u.TrailingZeros()
		if tz > w {
			tz = w
		}
		if tz > w-8 {
			tz = w - 8
		}
		lim := tz
		if lim > 12 && !k.V6 {
			lim = 12
		}
		bits := w - int(r.next()%uint64(lim+1))
		n := model.Net{V6: k.V6, U: u, Bits: bits}
		if k.V6 && (n.Contains(model.Addr{V6: true, U: model.MappedBase}) || model.InMapped(u)) {
			u = model.MappedBase.Add(model.U{L: 1 << 32})
			continue
		}
		out = append(out, n)
		if n.Last() == max {
			break
		}
		u = n.Last().Add(model.One)
	}
	return out
}

func (k bigAwdb) awdb() DbCase {
	nn := k.nets()
	if !k.V6 {
		google := model.Addr{U: model.U{L: 0x08080808}}
		if _, _, ok := model.NewSetNets(nn).Find(google); !ok {
			nn = append(nn, model.Net{U: google.U, Bits: 32})
		}
	}
	a := model.Awdb{RecordSize: k.RS, V6: k.V6, Pad: k.Pad, Type: "big", Langs: []string{"CN"}}
	for i, n := range nn {
		a.Nets = append(a.Nets, n.String())
		a.Rec = append(a.Rec, i)
		a.Records = append(a.Records, model.Val{T: "map", M: []model.KV{{K: "country", KP: 1, V: model.Val{T: "str", S: fmt.Sprintf("c%d", i%7), P: 1}},
			{K: "city", KP: 1, V: model.Str(fmt.Sprintf("city %d", i))}, {K: "asnumber", KP: 1, V: model.Str(fmt.Sprint(i))}}})
	}
	return DbCase{Aw: &AwdbCase{A: a, Extra: []string{"2001:db8:1:2:3:4:5:6"}}}
}

func checkBigAwdb(c *pbt.Ctx, k bigAwdb) error {
	d := k.awdb()
	o, _ := d.open()
	p := d.Aw.A.Parts()
	if p.Count > 20000 || k.Pad > 1<<24-100 {
		c.NonTrivial()
	}
	c.Class("rs%d v6=%v far=%v", k.RS, k.V6, k.Pad > 0)
	db, err := uipx.Load(o.kind, o.bytes)
	if err != nil {
		return pbt.Violationf("loading fails: %v", err)
	}
	return checkAnswers(db, o, true, 20000, nil)
}

func (k bigAwdb) ipdb() DbCase {
	nn := k.nets()
	t := model.Table{Fields: []string{"country", "city", "isp", "asn"}}
	for i, n := range nn {
		r := model.Row{N: n.String(), F: 4, V: []string{fmt.Sprintf("c%d", i%7), fmt.Sprintf("city %d", i), strings.Repeat("i", i%40), fmt.Sprint(i)}}
		t.Rows = append(t.Rows, r)
	}
	typ := 1
	if k.V6 {
		typ = 2
	}
	return DbCase{Ip: &IpdbCase{T: t, Ver: uipx.Ver{Type: typ, Text: "big"}, Extra: []string{"2001:db8:1:2:3:4:5:6"}}}
}

func checkBigIpdb(c *pbt.Ctx, k bigAwdb) error {
	o, err := k.ipdb().open()
	if err != nil {
		return err
	}
	c.NonTrivial()
	c.Class("v6=%v bytes>64K=%v", k.V6, len(o.bytes) > 1<<19)
	db, err := uipx.Load(o.kind, o.bytes)
	if err != nil {
		return pbt.Violationf("loading fails: %v", err)
	}
	return checkAnswers(db, o, true, 20000, nil)
}

// overlapping networks

func genOverlap(t *rapid.T) IpdbCase {
	v4, v6 := genFam(t)
	var nn []model.Net
	n := rapid.IntRange(1, 14).Draw(t, "nnets")
	var near []model.U
	for i := 0; i < n; i++ {
		fam6 := v6 && (!v4 || rapid.Bool().Draw(t, "fam6"))
		var x model.Net
		if len(nn) > 0 && rapid.IntRange(0, 9).Draw(t, "rel") < 7 {
			p := nn[rapid.IntRange(0, len(nn)-1).Draw(t, "of")]
			w := model.Width(p.V6)
			switch rapid.IntRange(0, 4).Draw(t, "how") {
			case 0: // the same
				x = p
			case 1: // around
				x = model.Net{V6: p.V6, U: p.U, Bits: rapid.IntRange(0, p.Bits).Draw(t, "bits")}
			case 2: // inside
				h := p.Last().Sub(p.First())
				x = model.Net{V6: p.V6, U: p.U.Or(model.GenU(t, "in", p.V6, nil).And(h)), Bits: rapid.IntRange(p.Bits, w).Draw(t, "bits")}
			case 3: // the sibling
				if p.Bits == 0 {
					x = p
				} else {
					x = model.Net{V6: p.V6, U: p.U.Xor(model.One.Shl(w - p.Bits)), Bits: p.Bits}
				}
			default:
				x = model.Net{V6: p.V6, U: model.GenU(t, "near", p.V6, []model.U{p.First(), p.Last()}), Bits: rapid.IntRange(0, w).Draw(t, "bits")}
			}
		} else {
			x = model.Net{V6: fam6, U: model.GenU(t, "u", fam6, near), Bits: rapid.IntRange(0, model.Width(fam6)).Draw(t, "bits")}
		}
		x = x.Canon()
		mapped := model.Net{V6: true, U: model.MappedBase, Bits: 96}
		if x.V6 && (x.Covers(mapped) || mapped.Covers(x)) {
			continue
		}
		nn = append(nn, x)
	}
	fields := []string{"city", "country"}
	var rows []model.Row
	for i, x := range nn {
		v := fmt.Sprintf("n%d", i)
		if rapid.IntRange(0, 4).Draw(t, "samevalues") == 0 {
			v = "same"
		}
		r := model.Row{N: x.String(), V: []string{v, "x"}}
		if !x.V6 {
			r.F = rapid.SampledFrom([]int{4, 16}).Draw(t, "form")
		}
		rows = append(rows, r)
	}
	typ := 0
	if v4 {
		typ |= 1
	}
	if v6 {
		typ |= 2
	}
	return IpdbCase{T: model.Table{Fields: fields, Rows: rows}, Ver: genVer(t, typ), Extra: model.GenExtra(t)}
}

func checkQ08(c *pbt.Ctx, k IpdbCase) error {
	b, err := uipx.Pack(".ipdb", uipx.Data(k.T, k.Ver))
	if err != nil {
		return pbt.Violationf("packing fails: %v", err)
	}
	db, err := uipx.Load(".ipdb", b)
	if err != nil {
		return pbt.Violationf("loading fails: %v", err)
	}
	// which networks are accepted, and the values each may answer with
	var acc []model.Net
	vals := map[model.Net][]uipx.Rec{}
	left := 0
	for _, r := range k.T.Rows {
		n := r.Net()
		rec := uipx.Expect(k.T.Fields, r.V)
		if v, ok := vals[n]; ok {
			vals[n] = append(v, rec)
			continue
		}
		clash := false
		for _, m := range acc {
			if m.Covers(n) || n.Covers(m) {
				clash = true
			}
		}
		if clash {
			left++
			continue
		}
		acc = append(acc, n)
		vals[n] = []uipx.Rec{rec}
	}
	set := model.NewSetNets(acc)
	first := map[model.Net]uipx.Rec{}
	for _, a := range model.Probes(nets(k.T.Rows), model.ParseExtra(k.Extra), true, true, 200) {
		got, err := uipx.Ask(db, a.IP())
		if err != nil {
			return pbt.Violationf("%v: %v", a, err)
		}
		_, n, ok := set.Find(a)
		if a.V6 && k.Ver.Type&2 == 0 || !a.V6 && k.Ver.Type&1 == 0 {
			ok = false
		}
		if !ok {
			if got.OK {
				return pbt.Violationf("no accepted network holds %v but it is answered %+v/%d", a, got.Rec, got.Mask)
			}
			continue
		}
		if !got.OK {
			return pbt.Violationf("%v lies in the accepted network %v but the lookup fails: %s", a, n, got.Err)
		}
		found := false
		for _, v := range vals[n] {
			found = found || v == got.Rec
		}
		if !found || got.Mask != n.Bits {
			return pbt.Violationf("%v lies in the accepted network %v: got %+v/%d, packed %+v", a, n, got.Rec, got.Mask, vals[n])
		}
		if f, ok := first[n]; ok && f != got.Rec {
			return pbt.Violationf("network %v answers both %+v and %+v", n, f, got.Rec)
		}
		first[n] = got.Rec
	}
	if left > 0 {
		c.NonTrivial()
		c.Class("left-out")
	}
	return nil
}
