package main

import (
	"encoding/json"
	"fmt"
	"net"
	"strings"

	"verif/harness/model"
	"verif/harness/pbt"
	"verif/harness/uipx"

	"github.com/qiniu/uip/db/query"
	"pgregory.net/rapid"
)

// badCase is a database of arbitrary bytes.
type badCase struct {
	B    []byte   `json:"b"`
	How  string   `json:"how"` // how it was made
	Cut  bool     `json:"cut"` // a proper beginning of a well-formed database
	Ask  []string `json:"ask,omitempty"`
	Rule string   `json:"rule,omitempty"`
}

var badAsk = []net.IP{net.IPv4zero, net.ParseIP("255.255.255.255"), net.ParseIP("128.0.0.0"), net.ParseIP("8.8.8.8").To4(), net.ParseIP("1.0.0.1"), net.IPv6zero,
	net.ParseIP("ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff"), net.ParseIP("8000::"), net.ParseIP("2001:4860:4860::8888"), net.ParseIP("::1"), net.ParseIP("::fffe:ffff:ffff"),
	nil, {}, {1}, {1, 2, 3, 4, 5}, make(net.IP, 15), make(net.IP, 17)}

// exercise loads bytes, asks and dumps; the error is a violation.
func exercise(kind string, k badCase) (loaded, answered, dumped bool, err error) {
	k.B = append(make([]byte, 0, len(k.B)), k.B...) // nothing behind the end
	var db *query.Db
	var lerr error
	before := allocated()
	if p := pbt.Try(func() { db, lerr = query.NewDbFromBytes(kind, k.B) }); p != nil {
		return false, false, false, pbt.Violationf("loading: %v", p)
	}
	if lerr == nil {
		loaded = true
		if k.Cut {
			return true, false, false, pbt.Violationf("a database cut short (to %d bytes) is loaded", len(k.B))
		}
		ips := append([]net.IP{}, badAsk...)
		for _, s := range k.Ask {
			ips = append(ips, net.ParseIP(s))
		}
		for _, ip := range ips {
			a, err := uipx.Ask(db, ip)
			if err != nil {
				return true, false, false, pbt.Violationf("%v", err)
			}
			answered = answered || a.OK
		}
		if p := pbt.Try(func() { _ = fmt.Sprint(db.VersionInfo()) }); p != nil {
			return true, false, false, pbt.Violationf("version information: %v", p)
		}
		if p := pbt.Try(func() { query.GetIntern(db).BuildCache([]string{"", "x", "8.8.8.8", "::", "1.2.3.4\r"}) }); p != nil {
			return true, false, false, pbt.Violationf("warm-up: %v", p)
		}
	}
	perByte, base := 5000, 48<<20
	if kind == ".awdb" {
		perByte, base = 10000, 200<<20
	}
	if used := allocated() - before; used > uint64(base+perByte*len(k.B)) {
		return loaded, answered, false, pbt.Violationf("loading and asking a database of %d bytes allocates %d bytes", len(k.B), used)
	}
	for _, rule := range []string{"", k.Rule} {
		if rule == "" && k.Rule != "" && len(k.B)%2 == 0 {
			continue
		}
		before = allocated()
		d, derr := dumpBytes(kind, k.B, rule)
		if brokenDump(derr) {
			return loaded, answered, false, pbt.Violationf("%v", derr)
		}
		if derr == nil {
			dumped = true
			if k.Cut {
				return true, false, false, pbt.Violationf("a database cut short (to %d bytes) is dumped: %d rows", len(k.B), len(d.Ips))
			}
			cells := 0
			for _, r := range d.Ips {
				cells += len(r.FieldValues)
			}
			if cells > 1000+16*len(k.B) {
				return true, answered, true, pbt.Violationf("dumping a database of %d bytes yields %d values", len(k.B), cells)
			}
		}
		if used := allocated() - before; kind == ".ipdb" && used > uint64(48<<20+40000*len(k.B)) {
			return loaded, answered, dumped, pbt.Violationf("dumping a database of %d bytes allocates %d bytes", len(k.B), used)
		}
	}
	return
}

func genBadBytes(t *rapid.T, b []byte) ([]byte, string, bool) {
	switch rapid.IntRange(0, 9).Draw(t, "bytes") {
	case 0, 1, 2:
		n := len(b)
		at := rapid.IntRange(0, n-1).Draw(t, "cutat")
		if rapid.Bool().Draw(t, "cutend") {
			at = n - 1 - min(at, n-1)%min(n, 64)
		}
		return b[:at:at], "cut", true
	case 3:
		b = append([]byte{}, b...)
		i := rapid.IntRange(0, len(b)).Draw(t, "from")
		j := min(len(b), i+rapid.IntRange(1, 40).Draw(t, "len"))
		if rapid.Bool().Draw(t, "dup") {
			return append(b[:j:j], b[i:]...), "repeated", false
		}
		return append(b[:i:i], b[j:]...), "removed", false
	}
	b = append([]byte{}, b...)
	for n := rapid.IntRange(1, 6).Draw(t, "flips"); n > 0; n-- {
		i := rapid.IntRange(0, len(b)-1).Draw(t, "flipat")
		switch rapid.IntRange(0, 3).Draw(t, "flip") {
		case 0:
			b[i] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
		case 1:
			b[i] = rapid.SampledFrom([]byte{0, 1, 0xff, 0x7f, 0x80, 0x20, 0x3f}).Draw(t, "byte")
		default:
			b[i] = rapid.Byte().Draw(t, "any")
		}
	}
	return b, "flipped", false
}

func genBadIpdb(t *rapid.T) badCase {
	k := badCase{}
	if rapid.IntRange(0, 2).Draw(t, "ruled") == 0 {
		k.Rule = strings.Join(genRuleColumns(t, ipdbKnown), ",")
	}
	if rapid.IntRange(0, 19).Draw(t, "random") == 0 {
		k.How = "random"
		k.B = rapid.SliceOfN(rapid.SampledFrom([]byte{0, 0, 0, 0, 1, 2, 4, 0xff, '{', '}', '"', 'a', ':', ','}), 0, 60).Draw(t, "b")
		return k
	}
	if rapid.IntRange(0, 99).Draw(t, "wide") == 0 {
		// many equal columns times many networks
		w := model.Ipdb{Type: 2, Langs: map[string]int{"CN": 0}, Records: [][]string{nil, nil}}
		for i := 0; i < 600; i++ {
			w.Fields = append(w.Fields, "country_name")
			w.Records[0] = append(w.Records[0], "a")
			w.Records[1] = append(w.Records[1], "b")
		}
		for i := 0; i < 1024; i++ {
			w.Nets = append(w.Nets, model.Net{V6: true, U: model.U{H: uint64(i) << 54}, Bits: 10}.String())
			w.Rec = append(w.Rec, i%2)
		}
		k.B, k.How = w.Bytes(), "wide"
		return k
	}
	d := genForeign(t, rapid.IntRange(0, 2).Draw(t, "cover") == 0)
	for _, s := range d.Nets {
		if len(k.Ask) < 8 {
			k.Ask = append(k.Ask, model.Addr{V6: model.MustNet(s).V6, U: model.MustNet(s).Last()}.String())
		}
	}
	p := d.Parts()
	if rapid.IntRange(0, 3).Draw(t, "raw") == 0 {
		k.B, k.How, k.Cut = genBadBytes(t, p.Bytes())
		return k
	}
	k.How = "edited"
	fixSize := true
	if rapid.IntRange(0, 9).Draw(t, "bomb") == 0 {
		// a tree whose every node leads twice to the next: few nodes, very many networks
		depth := rapid.IntRange(20, 128).Draw(t, "depth")
		base := len(p.Nodes) - 1
		if d.Type&1 != 0 && rapid.Bool().Draw(t, "v4bomb") {
			// keep the way to the IPv4 part
			base = min(97, len(p.Nodes)-1)
		}
		nodes := append([][2]uint32{}, p.Nodes[:base]...)
		for i := 0; i < depth; i++ {
			nodes = append(nodes, [2]uint32{uint32(base + i + 1), uint32(base + i + 1)})
		}
		count := uint32(len(nodes))
		nodes[count-1] = [2]uint32{count + 8, count + 8}
		if at := rapid.SampledFrom([]int{0, 95, 96}).Draw(t, "hang"); at < base {
			nodes[at][1] = uint32(base)
			if rapid.Bool().Draw(t, "both") {
				nodes[at][0] = uint32(base)
			}
		}
		p.Nodes = append(nodes, [2]uint32{count, count})
		p.Meta["node_count"] = count
		k.How = "bomb"
	}
	for n := rapid.IntRange(0, 3).Draw(t, "edits"); n > 0; n-- {
		count := len(p.Nodes) - 1
		switch rapid.SampledFrom([]string{"meta", "meta", "node", "node", "node", "reclen", "rectext", "nodes-", "data-", "data0"}).Draw(t, "edit") {
		case "meta":
			f := rapid.SampledFrom([]string{"ip_version", "node_count", "node_count", "total_size", "languages", "languages", "fields", "build", "version", "extra"}).Draw(t, "metafield")
			var raw string
			switch f {
			case "ip_version":
				raw = rapid.SampledFrom([]string{"0", "1", "2", "3", "4", "65535", "-1", "70000", "null", "\"1\""}).Draw(t, "v")
			case "node_count":
				raw = rapid.SampledFrom([]string{"0", "1", "-1", "-5", fmt.Sprint(count - 1), fmt.Sprint(count + 1), fmt.Sprint(2 * count), "4294967295", "4294967296",
					"9223372036854775807", "-9223372036854775808", "1152921504606846976", "2305843009213693951", "1e3", "null"}).Draw(t, "v")
			case "total_size":
				fixSize = false
				raw = rapid.SampledFrom([]string{"0", "-1", "1", "9223372036854775807", "-9223372036854775808", "null"}).Draw(t, "v")
			case "languages":
				raw = rapid.SampledFrom([]string{"null", "{}", `{"CN":-1}`, `{"CN":1}`, `{"CN":1000000}`, `{"CN":9223372036854775807}`, `{"CN":9223372036854775800}`, `{"CN":-9223372036854775808}`, `{"EN":0}`, `{"CN":0,"CN":2}`}).Draw(t, "v")
			case "fields":
				raw = rapid.SampledFrom([]string{"null", "[]", `[""]`, `["country_name","country_name"]`, `["continent_code"]`, `["a","b","c","continent_code"]`, `[null]`}).Draw(t, "v")
				if rapid.IntRange(0, 5).Draw(t, "manyfields") == 0 {
					raw = `["` + strings.TrimSuffix(strings.Repeat(`country_name","`, 300), `","`) + `"]`
					if d.Records[0] != nil && len(p.Data) > 2 {
						p.Data = append([]byte{1, 0x80}, []byte(strings.Repeat("\t", 0x180))...)
					}
				}
			case "build":
				raw = rapid.SampledFrom([]string{"-1", "9223372036854775807", "-9223372036854775808", "1.5"}).Draw(t, "v")
			case "version":
				raw = rapid.SampledFrom([]string{"null", "1", `""`, `"x"`}).Draw(t, "v")
			default:
				raw = rapid.SampledFrom([]string{"null", "1", `[1]`, `[""]`}).Draw(t, "v")
			}
			p.Meta[f] = json.RawMessage(raw)
			if raw == "1e3" {
				p.Meta[f] = json.RawMessage("1000")
			}
		case "node":
			i := rapid.IntRange(0, count).Draw(t, "node")
			j := rapid.IntRange(0, 1).Draw(t, "side")
			p.Nodes[i][j] = rapid.SampledFrom([]uint32{0, uint32(i), uint32(count), uint32(count + 1), uint32(count + 7), uint32(count + 8), uint32(count + 9),
				uint32(count + 8 + len(p.Data)), uint32(count + 6 + len(p.Data)), uint32(count + 7 + len(p.Data)), uint32(count + 5 + len(p.Data)), 0xffffffff, 0x7fffffff, 0x80000000, uint32(i + 1),
				uint32(rapid.IntRange(0, count+8+len(p.Data)).Draw(t, "target"))}).Draw(t, "to")
		case "reclen":
			if len(p.Data) >= 2 {
				p.Data[0], p.Data[1] = rapid.Byte().Draw(t, "hi"), rapid.Byte().Draw(t, "lo")
			}
		case "rectext":
			for i := range p.Data {
				if p.Data[i] == '\t' && rapid.Bool().Draw(t, "untab") {
					p.Data[i] = ' '
				}
			}
		case "nodes-":
			p.Nodes = p.Nodes[:rapid.IntRange(1, len(p.Nodes)).Draw(t, "keepnodes")]
		case "data-":
			p.Data = p.Data[:rapid.IntRange(0, len(p.Data)).Draw(t, "keepdata")]
		case "data0":
			p.Data = nil
		}
	}
	if fixSize {
		p.Meta["total_size"] = 8*len(p.Nodes) + len(p.Data)
	}
	k.B = p.Bytes()
	if rapid.IntRange(0, 9).Draw(t, "headlen") == 0 && len(k.B) >= 4 {
		copy(k.B, rapid.SampledFrom([][]byte{{0, 0, 0, 0}, {0xff, 0xff, 0xff, 0xff}, {0x80, 0, 0, 0}, {0, 0, 0, 1}, {0, 0, 1, 0}}).Draw(t, "metalen"))
	}
	return k
}

func checkM01(c *pbt.Ctx, k badCase) error {
	l, a, d, err := exercise(".ipdb", k)
	c.Class("%s loaded=%v answered=%v dumped=%v", k.How, l, a, d)
	if l || k.Cut {
		c.NonTrivial()
	}
	return err
}

func init() {
	pbt.Register("M01", "bytes", pbt.Options{
		Rule:  "arbitrary bytes, databases cut short, with bytes changed, removed or repeated, and with metadata, tree or records edited (also trees that expand enormously); loading, 17 to 25 lookups, warm-up, version information and dumping must succeed or give an error with bounded memory, a cut database is rejected; non-trivial: loaded, or cut short",
		Quick: 16000, Thorough: 600000,
	}, genBadIpdb, checkM01)
}
