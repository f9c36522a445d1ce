package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"net"
	"os"
	"path/filepath"
	"reflect"
	"strings"

	"verif/harness/model"
	"verif/harness/pbt"
	"verif/harness/uipx"

	"github.com/qiniu/uip/db"
	"github.com/qiniu/uip/db/convert"
	fieldpkg "github.com/qiniu/uip/db/field"
	"github.com/qiniu/uip/db/field/export"
	"github.com/qiniu/uip/db/field/operate"
	"github.com/qiniu/uip/db/format"
	"github.com/qiniu/uip/db/inf"
	"github.com/qiniu/uip/db/query"
	"pgregory.net/rapid"
)

// regCase registers formats of its own and uses them.
type regCase struct {
	Exts  []string  `json:"exts"`
	Names []string  `json:"names"`
	Steps []regStep `json:"steps"`
}

type regStep struct {
	Op    string   `json:"op"` // dump, query, pack: register; dumpfile, packfile, packbytes, packwriter, newdb, newdbbytes
	Ext   int      `json:"ext"`
	Name  int      `json:"name,omitempty"`
	None  bool     `json:"none,omitempty"` // register nothing
	Fail  bool     `json:"fail,omitempty"` // the registered function fails
	Bytes []byte   `json:"bytes,omitempty"`
	Rule  []string `json:"rule,omitempty"` // columns
	Ops   []int    `json:"ops,omitempty"`
	Ask   []string `json:"ask,omitempty"`
}

func genRegCase(t *rapid.T) regCase {
	k := regCase{
		Exts: rapid.SliceOfNDistinct(rapid.SampledFrom([]string{".own", ".OWN", ".o", "", ".", ".ipdb", ".scan", ".memip", ".awdb", ".ipdb2", ".IPDB", ".名", ". ", ".qnip", ".mmdb", ".csv"}), 1, 4, rapid.ID[string]).Draw(t, "exts"),
		Names: rapid.SliceOfNDistinct(rapid.SampledFrom([]string{"a", "b.scan", "with space", "x.own", "dir.own/inner", "dir.ipdb/a.b", "名"}), 1, 3,
			rapid.ID[string]).Draw(t, "names"),
	}
	for n := rapid.IntRange(2, 14).Draw(t, "steps"); n > 0; n-- {
		s := regStep{Op: rapid.SampledFrom([]string{"dump", "query", "pack", "dumpfile", "packfile", "packbytes", "packwriter", "newdb", "newdbbytes", "dumpfile", "newdb"}).Draw(t, "op"),
			Ext: rapid.IntRange(0, len(k.Exts)-1).Draw(t, "ext"), Name: rapid.IntRange(0, len(k.Names)-1).Draw(t, "name")}
		switch s.Op {
		case "dump", "query", "pack":
			s.None = rapid.IntRange(0, 9).Draw(t, "none") == 0
			s.Fail = rapid.IntRange(0, 4).Draw(t, "fail") == 0
			s.Bytes = rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "bytes")
		case "dumpfile":
			s.Bytes = rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "bytes")
			if rapid.Bool().Draw(t, "ruled") {
				s.Rule = rapid.SliceOfNDistinct(rapid.SampledFrom([]string{"country", "isp", "x", "Country", "city"}), 1, 3, rapid.ID[string]).Draw(t, "rule")
			}
			s.Ops = rapid.SliceOfN(rapid.IntRange(0, 5), 0, 4).Draw(t, "ops")
		case "newdb", "newdbbytes":
			s.Bytes = rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "bytes")
			s.Ask = rapid.SliceOfN(rapid.SampledFrom([]string{"1.2.3.4", "8.8.8.8", "::1", "2001:db8::1", "255.255.255.255", "0.0.0.0", "111.192.0.0", "junk", "", "1.2.3", "::ffff:1.2.3.4"}), 0, 6).Draw(t, "ask")
		}
		k.Steps = append(k.Steps, s)
	}
	return k
}

// ownErr is an error of a function of the caller's own.
type ownErr struct{ id int }

func (e *ownErr) Error() string { return fmt.Sprint("own error ", e.id) }

// ownQuery answers by the address and its number alone.
type ownQuery struct {
	id   int
	seed []byte
}

func (q *ownQuery) answer(ip net.IP) (inf.IpInfo, int, error) {
	h := fnv.New64a()
	h.Write(q.seed)
	_ = binary.Write(h, binary.BigEndian, int64(q.id))
	h.Write(ip.To16())
	x := h.Sum64()
	x ^= x >> 29
	i := inf.IpInfo{City: fmt.Sprint(x), District: "d", Line: "l/m", Country: []string{"", "美国", "中国", "美国"}[x>>8&3]}
	if x%5 == 0 {
		return i, int(x >> 40 & 127), &ownErr{int(x & 0xffff)}
	}
	return i, int(x >> 40 & 127), nil
}

func (q *ownQuery) Query(ip net.IP) (*inf.IpInfo, int, error) {
	i, mask, err := q.answer(ip)
	return &i, mask, err
}
func (q *ownQuery) BuildCache([]string) {}
func (q *ownQuery) VersionInfo() *inf.VersionInfo {
	return &inf.VersionInfo{IpType: inf.IpType(q.id % 4), Count: uint32(q.id), Build: int64(q.id) << 33, Version: fmt.Sprintf("%x", q.seed), Languages: []string{"XX"}, ExtraInfo: []string{"a", ""}}
}

// regSlot is what an extension is registered for.
type regSlot struct {
	id   int // 0: as before the case
	none bool
	fail bool
	seed []byte
}

func ownExt(name string) string {
	name = name[strings.LastIndex(name, "/")+1:]
	if i := strings.LastIndex(name, "."); i >= 0 {
		return name[i:]
	}
	return ""
}

func checkRegistry(c *pbt.Ctx, k regCase) error {
	type call struct {
		id     int
		bytes  []byte
		cols   []string
		ruled  bool
		data   *inf.IpData
		result *inf.IpData
		query  *ownQuery
	}
	var calls []call
	kinds := []string{"dump", "query", "pack"}
	// the formats are put back as they were
	type old struct {
		d inf.Dump
		q inf.NewQuery
		p inf.Pack
	}
	before := map[string]old{}
	all := append([]string{}, k.Exts...)
	for _, n := range k.Names {
		for _, e := range k.Exts {
			all = append(all, ownExt(n+e))
		}
	}
	for _, e := range all {
		before[e] = old{format.GetDumpFormat(e), format.GetQueryFormat(e), format.GetPackFormat(e)}
	}
	for _, e := range []string{".ipdb", ".scan", ".memip", ".awdb"} {
		before[e] = old{format.GetDumpFormat(e), format.GetQueryFormat(e), format.GetPackFormat(e)}
	}
	defer func() {
		for e, o := range before {
			format.RegisterDumpFormat(e, o.d)
			format.RegisterQueryFormat(e, o.q)
			format.RegisterPackFormat(e, o.p)
		}
	}()
	slots := map[string]map[string]regSlot{}
	for _, kind := range kinds {
		slots[kind] = map[string]regSlot{}
		for e, o := range before {
			if kind == "dump" && o.d == nil || kind == "query" && o.q == nil || kind == "pack" && o.p == nil {
				slots[kind][e] = regSlot{none: true}
			} else {
				slots[kind][e] = regSlot{}
			}
		}
	}
	dir := c.Dir()
	ownData := func(id int, seed []byte) *inf.IpData {
		return &inf.IpData{Fields: []string{fmt.Sprint("own", id)}, Version: &inf.VersionInfo{IpType: inf.IpV4, Version: fmt.Sprintf("%d %x", id, seed)},
			Ips: []inf.IpRaw{{Cidr: &net.IPNet{IP: net.IP{byte(id), 0, 0, 0}, Mask: net.CIDRMask(8, 32)}, FieldValues: []string{fmt.Sprint("v", id)}}}}
	}
	var uses int
	for n, s := range k.Steps {
		id := n + 1
		ext := k.Exts[s.Ext]
		say := func(f string, a ...any) error {
			return pbt.Violationf("step %d (%s, extension %q, name %q): %s", n, s.Op, ext, k.Names[s.Name], fmt.Sprintf(f, a...))
		}
		calls = calls[:0]
		slot := regSlot{id: id, none: s.None, fail: s.Fail, seed: s.Bytes}
		fail := func(id int, fail bool) error {
			if fail {
				return &ownErr{id}
			}
			return nil
		}
		switch s.Op {
		case "dump":
			var f inf.Dump = func(b []byte, e inf.Exporter) (*inf.IpData, error) {
				x := call{id: id, bytes: bytes.Clone(b), ruled: e != nil}
				if x.ruled {
					x.cols = append([]string{}, e.Fields()...)
				}
				if !slot.fail {
					x.result = ownData(id, slot.seed)
				}
				calls = append(calls, x)
				return x.result, fail(id, slot.fail)
			}
			if s.None {
				f = nil
			}
			format.RegisterDumpFormat(ext, f)
			slots["dump"][ext] = slot
			continue
		case "query":
			var f inf.NewQuery = func(b []byte) (inf.Query, error) {
				x := call{id: id, bytes: bytes.Clone(b)}
				calls = append(calls, x)
				if slot.fail {
					return nil, &ownErr{id}
				}
				return &ownQuery{id, slot.seed}, nil
			}
			if s.None {
				f = nil
			}
			format.RegisterQueryFormat(ext, f)
			slots["query"][ext] = slot
			continue
		case "pack":
			var f inf.Pack = func(d *inf.IpData, w io.Writer) error {
				calls = append(calls, call{id: id, data: d})
				for i := 0; i < 3; i++ {
					if _, err := w.Write(slot.seed); err != nil {
						return err
					}
				}
				return fail(id, slot.fail)
			}
			if s.None {
				f = nil
			}
			format.RegisterPackFormat(ext, f)
			slots["pack"][ext] = slot
			continue
		}
		name := filepath.Join(dir, k.Names[s.Name]+ext)
		if strings.HasPrefix(s.Op, "dumpfile") || s.Op == "packfile" || s.Op == "newdb" {
			ext = ownExt(name)
		}
		if err := os.MkdirAll(filepath.Dir(name), 0o700); err != nil {
			pbt.Infra(err)
		}
		kind := map[string]string{"dumpfile": "dump", "newdb": "query", "newdbbytes": "query"}[s.Op]
		if kind == "" {
			kind = "pack"
		}
		slot, ok := slots[kind][ext]
		if !ok {
			pbt.Infra(fmt.Errorf("extension %q of %q unknown", ext, name))
		}
		builtin := slot.id == 0 && !slot.none
		// expected number and number's call
		called := func() error {
			if slot.id == 0 || slot.none {
				if len(calls) != 0 {
					return say("calls a function registered for another purpose or extension (in step %d)", calls[0].id-1)
				}
				return nil
			}
			if len(calls) != 1 || calls[0].id != slot.id {
				return say("%d calls of registered functions, expected one of that of step %d: %v", len(calls), slot.id-1, calls)
			}
			return nil
		}
		outcome := func(err error) error { // judges the error
			switch {
			case slot.none:
				if !errors.Is(err, db.ErrUnsupportedFormat) {
					return say("nothing is registered, but the error is %v", err)
				}
			case builtin:
			case slot.fail:
				var e *ownErr
				if !errors.As(err, &e) || e.id != slot.id {
					return say("the function registered fails with error %d, the caller gets %v", slot.id, err)
				}
			case err != nil:
				return say("the function registered succeeds, the caller gets %v", err)
			}
			return nil
		}
		if slot.id != 0 {
			uses++
		}
		c.Class("%s own=%v none=%v fail=%v", s.Op, slot.id != 0, slot.none, slot.fail)
		switch s.Op {
		case "dumpfile":
			if err := os.WriteFile(name, s.Bytes, 0o600); err != nil {
				pbt.Infra(err)
			}
			var trace []int
			var ops []operate.Operate
			var seen []*inf.IpData
			for _, o := range s.Ops {
				o := o
				ops = append(ops, func(d *inf.IpData) {
					trace = append(trace, o)
					seen = append(seen, d)
					d.Fields = append(d.Fields, fmt.Sprint("op", o))
				})
			}
			if builtin {
				ops = nil
			}
			var d *inf.IpData
			var err error
			if p := pbt.Try(func() { d, err = convert.DumpFile(name, strings.Join(s.Rule, ","), ops) }); p != nil {
				return say("%v", p)
			}
			if err := called(); err != nil {
				return err
			}
			if err := outcome(err); err != nil {
				return err
			}
			if builtin {
				break
			}
			if err != nil {
				if len(trace) > 0 {
					return say("fails with %v, but operations ran: %v", err, trace)
				}
				break
			}
			x := calls[0]
			if !bytes.Equal(x.bytes, s.Bytes) {
				return say("the function gets %x, the file holds %x", x.bytes, s.Bytes)
			}
			if x.ruled != (len(s.Rule) > 0) || x.ruled && !sameStrings(x.cols, s.Rule) {
				return say("the rule %q reaches the function as one (%v) of the columns %q", s.Rule, x.ruled, x.cols)
			}
			if fmt.Sprint(trace) != fmt.Sprint(s.Ops) && len(trace)+len(s.Ops) > 0 {
				return say("operations %v ran as %v", s.Ops, trace)
			}
			want := ownData(slot.id, slot.seed)
			for _, o := range s.Ops {
				want.Fields = append(want.Fields, fmt.Sprint("op", o))
			}
			if !reflect.DeepEqual(d, want) {
				return say("gives %v, expected %v", d, want)
			}
		case "newdb", "newdbbytes":
			var x *query.Db
			var err error
			b := bytes.Clone(s.Bytes)
			if s.Op == "newdb" {
				if err := os.WriteFile(name, s.Bytes, 0o600); err != nil {
					pbt.Infra(err)
				}
				if p := pbt.Try(func() { x, err = query.NewDb(name) }); p != nil {
					return say("%v", p)
				}
			} else if p := pbt.Try(func() { x, err = query.NewDbFromBytes(ext, b) }); p != nil {
				return say("%v", p)
			}
			if err := called(); err != nil {
				return err
			}
			if err := outcome(err); err != nil {
				return err
			}
			if builtin || err != nil {
				break
			}
			if !bytes.Equal(calls[0].bytes, s.Bytes) {
				return say("the function gets %x of %x", calls[0].bytes, s.Bytes)
			}
			if err := checkOwnDb(x, &ownQuery{slot.id, slot.seed}, s.Ask); err != nil {
				return say("%v", err)
			}
		default:
			d := ownData(200, s.Bytes)
			var err error
			var out []byte
			_, missing := os.Stat(name)
			was, _ := os.ReadFile(name)
			if p := pbt.Try(func() {
				switch s.Op {
				case "packfile":
					err = convert.PackFile(name, d)
				case "packbytes":
					out, err = convert.PackBytes(ext, d)
				default:
					var w bytes.Buffer
					err = convert.PackWriter(ext, d, &w)
					out = w.Bytes()
				}
			}); p != nil {
				return say("%v", p)
			}
			if err := called(); err != nil {
				return err
			}
			if err := outcome(err); err != nil {
				return err
			}
			_, missing2 := os.Stat(name)
			now, _ := os.ReadFile(name)
			if s.Op != "packfile" || slot.none {
				if (missing == nil) != (missing2 == nil) || !bytes.Equal(was, now) {
					return say("changes the file %q", name)
				}
			} else {
				out = now
			}
			if builtin || err != nil {
				break
			}
			if calls[0].data != d && !reflect.DeepEqual(calls[0].data, d) {
				return say("the function gets other data")
			}
			if want := bytes.Repeat(slot.seed, 3); !bytes.Equal(out, want) {
				return say("the function writes %x, the output holds %x", want, out)
			}
			if !reflect.DeepEqual(d, ownData(200, s.Bytes)) {
				return say("the data is changed")
			}
		}
	}
	if uses > 0 {
		c.NonTrivial()
	}
	return nil
}

// checkOwnDb asks a database that a query of the caller's own answers for.
func checkOwnDb(x *query.Db, q *ownQuery, ask []string) error {
	same := func(what string, i *inf.IpInfo, mask int, err error, ip net.IP) error {
		wi, wm, we := q.answer(ip)
		var e *ownErr
		if we != nil {
			if !errors.As(err, &e) || e.id != we.(*ownErr).id {
				return fmt.Errorf("%s fails with %v, expected %v", what, err, we)
			}
			return nil
		}
		if err != nil || i == nil || *i != wi || mask != wm {
			return fmt.Errorf("%s gives %v, %d, %v, expected %v, %d", what, i, mask, err, wi, wm)
		}
		return nil
	}
	country := func(s string) (string, bool) {
		i, _, err := q.answer(net.ParseIP(s))
		return i.Country, err == nil
	}
	for round := 0; round < 2; round++ {
		for _, a := range ask {
			ip := net.ParseIP(a)
			if _, ok := model.ParseAddr(a); (ip != nil) != ok {
				continue // no agreement on the spelling
			}
			var i *inf.IpInfo
			var m int
			var err error
			if p := pbt.Try(func() { i, m, err = x.QueryStr(a) }); p != nil {
				return p
			}
			if ip == nil {
				var e *ownErr
				if err == nil || errors.As(err, &e) {
					return fmt.Errorf("QueryStr(%q) gives %v", a, err)
				}
				continue
			}
			if err := same(fmt.Sprintf("QueryStr(%q)", a), i, m, err, ip); err != nil {
				return err
			}
			if p := pbt.Try(func() { i, m, err = x.Query(ip) }); p != nil {
				return p
			}
			if err := same(fmt.Sprintf("Query(%q)", a), i, m, err, ip); err != nil {
				return err
			}
			if v4 := ip.To4(); v4 != nil {
				u := binary.BigEndian.Uint32(v4)
				if p := pbt.Try(func() { i, m, err = x.QueryU32(u) }); p != nil {
					return p
				}
				if err := same(fmt.Sprintf("QueryU32(%d)", u), i, m, err, v4); err != nil {
					return err
				}
			}
			if i != nil && err == nil {
				scribble(i)
			}
		}
		for at, f := range map[int]func() error{0: x.CheckV4, 2: x.CheckV6} {
			var err error
			if p := pbt.Try(func() { err = f() }); p != nil {
				return p
			}
			good := true
			for j := at; j < at+2; j++ {
				s, ok := country(selfAddrs[j])
				good = good && ok && s == selfWant[j]
			}
			if (err == nil) != good {
				return fmt.Errorf("the self-check gives %v, the answers are right: %v", err, good)
			}
		}
	}
	if v := x.VersionInfo(); !reflect.DeepEqual(v, q.VersionInfo()) {
		return fmt.Errorf("version information %v, expected %v", v, q.VersionInfo())
	}
	return nil
}

// ownExportCase exports by an exporter of the caller's own.
type ownExportCase struct {
	S    srcCase  `json:"s"`
	Cols []string `json:"cols"`
	How  int      `json:"how"`
}

type ownExporter struct {
	cols []string
	how  int
	n    int
}

func (e *ownExporter) Fields() []string { return e.cols }

func (e *ownExporter) Export(m []fieldpkg.Pair, d map[string]string) []string {
	e.n++
	return e.values(m, d)
}

// values are the columns' ones, changed.
func (e *ownExporter) values(m []fieldpkg.Pair, d map[string]string) []string {
	v := make([]string, len(e.cols))
	for i := range v {
		if i < len(m) && m[i].Ext == e.cols[i] {
			v[i] = d[m[i].Intern]
		}
		switch e.how {
		case 1:
			v[i] = "<" + v[i] + ">"
		case 2:
			v[i] = strings.ToUpper(v[i])
		case 4:
			v[i] = ""
		}
	}
	if e.how == 3 && len(v) > 1 {
		v = append(v[1:], v[0])
	}
	return v
}

func genOwnExport(t *rapid.T) ownExportCase {
	s := genSrc(t)
	cols := genRuleColumns(t, s.columns())
	if own := s.columns(); len(own) > 0 && rapid.IntRange(0, 3).Draw(t, "as they are") == 0 {
		cols = append([]string{}, own...)
	}
	return ownExportCase{s, cols, rapid.IntRange(0, 4).Draw(t, "how")}
}

func checkOwnExport(c *pbt.Ctx, k ownExportCase) error {
	kind, b, err := k.S.bytes()
	if err != nil {
		return err
	}
	c.Class("%s how=%d", kind, k.How)
	var plain, own *inf.IpData
	dump := func(e inf.Exporter) (d *inf.IpData, err error) {
		if p := pbt.Try(func() { d, err = format.GetDumpFormat(kind)(b, e) }); p != nil {
			err = pbt.Violationf("dumping: %v", p)
		}
		return d, err
	}
	if plain, err = dump(export.ParseRule(strings.Join(k.Cols, ","))); err != nil {
		return pbt.Violationf("dumping %s with the rule %q fails: %v", kind, k.Cols, err)
	}
	e := &ownExporter{cols: append([]string{}, k.Cols...), how: k.How}
	if own, err = dump(e); err != nil {
		return pbt.Violationf("dumping %s with an own exporter of %q fails: %v", kind, k.Cols, err)
	}
	if !sameStrings(own.Fields, k.Cols) || !sameStrings(e.cols, k.Cols) {
		return pbt.Violationf("own exporter of %q: columns %q", k.Cols, own.Fields)
	}
	if len(own.Ips) != len(plain.Ips) {
		return pbt.Violationf("own exporter of %q: %d rows, the rule gives %d", k.Cols, len(own.Ips), len(plain.Ips))
	}
	known := map[string]bool{}
	for _, f := range k.S.columns() {
		known[f] = true
	}
	var m []fieldpkg.Pair
	for _, f := range k.Cols {
		p := fieldpkg.Pair{}
		if known[f] {
			p = fieldpkg.Pair{Ext: f, Intern: f}
		}
		m = append(m, p)
	}
	for i, r := range own.Ips {
		p := plain.Ips[i]
		if r.Cidr.String() != p.Cidr.String() {
			return pbt.Violationf("own exporter of %q: row %d is %v, the rule gives %v", k.Cols, i, r.Cidr, p.Cidr)
		}
		d := map[string]string{}
		for j, f := range k.Cols {
			d[f] = p.FieldValues[j]
		}
		if want := e.values(m, d); !sameStrings(r.FieldValues, want) {
			return pbt.Violationf("own exporter %d of %q on %s: row %v is %.300q, expected %.300q", k.How, k.Cols, kind, r.Cidr, r.FieldValues, want)
		}
	}
	if e.n != len(own.Ips) {
		c.Class("other number of calls than rows")
	}
	if len(own.Ips) > 1 && k.How > 0 {
		c.NonTrivial()
	}
	return nil
}

// ownLineCase attaches lines that a query of the caller's own gives.
type ownLineCase struct {
	T       model.Table `json:"t"`
	Seed    []byte      `json:"seed"`
	Replace bool        `json:"replace"`
	Errors  bool        `json:"errors"`
}

type ownLine struct {
	seed   []byte
	errors bool
	asked  map[string]bool
}

var ownLines = []string{"", "电信", "联通", "移动", "铁通", "阿里云", "电信/联通", "铁通/电信", "/联通", "移动/", "教育网/移动", " 电信", "联通 /x"}

func (l *ownLine) answer(ip net.IP) (string, bool) {
	h := fnv.New64a()
	h.Write(l.seed)
	h.Write(ip.To16())
	x := h.Sum64()
	x ^= x >> 31
	return ownLines[x%uint64(len(ownLines))], l.errors && x>>32%4 == 0
}

func (l *ownLine) Query(ip net.IP) (*inf.IpInfo, int, error) {
	l.asked[ip.String()] = true
	s, bad := l.answer(ip)
	if bad {
		return &inf.IpInfo{Line: "电信", Country: "x"}, 3, &ownErr{7}
	}
	return &inf.IpInfo{Line: s, Isp: "i", Country: "x"}, 9, nil
}
func (l *ownLine) BuildCache([]string) {}
func (l *ownLine) VersionInfo() *inf.VersionInfo {
	return &inf.VersionInfo{Version: "own", Build: 77}
}

func genOwnLine(t *rapid.T) ownLineCase {
	v6 := rapid.Bool().Draw(t, "v6")
	k := ownLineCase{Seed: rapid.SliceOfN(rapid.Byte(), 1, 4).Draw(t, "seed"), Replace: rapid.Bool().Draw(t, "replace"), Errors: rapid.Bool().Draw(t, "errors")}
	k.T.Fields = rapid.SampledFrom([][]string{{"country", "isp"}, {"isp", "x", "country"}, {"line", "country", "isp"}, {"country", "line"}, {"city", "isp"}, {"country"}, {"isp", "country", "line", "asn"}}).Draw(t, "fields")
	nn := ascNets(t, v6)
	if len(nn) > 0 {
		k.T.Rows = model.Assign(t, nn, model.GenPalette(t, k.T.Fields, 4, model.ValueOpts{}))
		for i := range k.T.Rows {
			for j, f := range k.T.Fields {
				if f == "country" && rapid.IntRange(0, 2).Draw(t, "cn") > 0 {
					k.T.Rows[i].V = append([]string{}, k.T.Rows[i].V...)
					k.T.Rows[i].V[j] = "中国"
				}
			}
		}
	}
	return k
}

func checkOwnLine(c *pbt.Ctx, k ownLineCase) error {
	d := uipx.Data(k.T, uipx.Ver{Type: uipx.Family(k.T.Rows)})
	l := &ownLine{k.Seed, k.Errors, map[string]bool{}}
	var err error
	what := "AttachLineByCidr"
	if k.Replace {
		what = "ReplaceLineByCidr"
		err = pbt.Try(func() { operate.ReplaceLineByCidr(d, l) })
	} else {
		err = pbt.Try(func() { operate.AttachLineByCidr(d, l) })
	}
	if err != nil {
		return pbt.Violationf("%s: %v", what, err)
	}
	if e := d.Version.ExtraInfo; len(e) != 1 || !strings.Contains(e[0], "own") {
		return pbt.Violationf("%s: extra information %q does not name the version of the line source", what, e)
	}
	at := func(f string) int { return fieldpkg.Offset(f, k.T.Fields) }
	country, isp, line := at("country"), at("isp"), at("line")
	fields := append([]string{}, k.T.Fields...)
	target := line
	if k.Replace {
		target = isp
		if country == -1 {
			target = -1
		}
	} else if country == -1 {
		target = -1
		if len(d.Fields) == len(fields)+1 && d.Fields[len(fields)] == "line" && line == -1 {
			c.Class("empty line column without a country")
			target, fields = len(fields), append(fields, "line")
			country = -1
		}
	} else if line == -1 {
		target, fields = len(fields), append(fields, "line")
	}
	if !sameStrings(d.Fields, fields) {
		return pbt.Violationf("%s: columns %q become %q", what, k.T.Fields, d.Fields)
	}
	if len(d.Ips) != len(k.T.Rows) {
		return pbt.Violationf("%s: %d rows become %d", what, len(k.T.Rows), len(d.Ips))
	}
	for i, r := range k.T.Rows {
		want := append([]string{}, r.V...)
		if target >= 0 {
			got := ""
			if country >= 0 && r.V[country] == "中国" {
				s, bad := l.answer(d.Ips[i].Cidr.IP)
				s, _, _ = strings.Cut(s, "/")
				switch {
				case bad || s == "":
					s = ""
				case s == "电信" || s == "联通" || s == "移动":
				case s == "铁通":
					s = "移动"
				default:
					s = "电信"
				}
				got = s
			}
			if k.Replace {
				if got != "" {
					want[target] = got
				}
			} else if target == len(want) {
				want = append(want, got)
			} else {
				want[target] = got
			}
		}
		if !sameStrings(d.Ips[i].FieldValues, want) {
			return pbt.Violationf("%s: row %s %q (columns %q) becomes %q, expected %q", what, r.N, r.V, k.T.Fields, d.Ips[i].FieldValues, want)
		}
		if r.Net().IPNet(r.F).String() != d.Ips[i].Cidr.String() {
			return pbt.Violationf("%s: network %s becomes %v", what, r.N, d.Ips[i].Cidr)
		}
		if !sameStrings(want, r.V) {
			c.NonTrivial()
		}
	}
	c.Class("%s errors=%v", what, k.Errors)
	return nil
}

func init() {
	pbt.Register("F07", "registered", pbt.Options{
		Rule:  "sequences of registering dump, query and pack functions of the caller's own (also failing ones, ones replaced later, ones in place of built-in formats, removed ones) for extensions of all kinds and using them through files, bytes and writers; the arguments each function gets and what the caller gets are compared with a model of the registry; non-trivial: an own function is used",
		Quick: 20000, Thorough: 400000,
	}, genRegCase, checkRegistry)
	pbt.Register("F07", "exporter", pbt.Options{
		Rule:  "covering databases and scan files dumped with an exporter of the caller's own that changes the values; compared with the dump by a rule of the same columns; non-trivial: more than one row, values changed",
		Quick: 8000, Thorough: 150000,
	}, genOwnExport, checkOwnExport)
	pbt.Register("O05", "own-lines", pbt.Options{
		Rule:  "tables whose lines are attached or replaced from a line source of the caller's own, which answers every address by a hash, sometimes with an error and a record; non-trivial: a row changes",
		Quick: 16000, Thorough: 300000,
	}, genOwnLine, checkOwnLine)
}
