package main

import (
	"bufio"
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"
	"unicode/utf8"

	"verif/harness/model"
	"verif/harness/pbt"
	"verif/harness/uipx"

	"pgregory.net/rapid"
)

// The Java and Rust libraries, each asked through a driver process.

type driver struct {
	lang  string
	cmd   *exec.Cmd
	in    io.WriteCloser
	lines chan string
	dead  bool
}

var drivers = map[string]*driver{}

func getDriver(lang string) (*driver, error) {
	if d := drivers[lang]; d != nil && !d.dead {
		return d, nil
	}
	var args []string
	if err := json.Unmarshal([]byte(os.Getenv("VERIF_DRIVER_"+strings.ToUpper(lang))), &args); err != nil {
		return nil, pbt.Infra(fmt.Errorf("the %s driver was not built", lang))
	}
	d := &driver{lang: lang, cmd: exec.Command(args[0], args[1:]...), lines: make(chan string, 64)}
	d.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var err error
	if d.in, err = d.cmd.StdinPipe(); err != nil {
		return nil, pbt.Infra(err)
	}
	out, err := d.cmd.StdoutPipe()
	if err != nil {
		return nil, pbt.Infra(err)
	}
	if err := d.cmd.Start(); err != nil {
		return nil, pbt.Infra(err)
	}
	go func() {
		r := bufio.NewReaderSize(out, 1<<20)
		for {
			s, err := r.ReadString('\n')
			if s = strings.TrimSpace(s); strings.HasPrefix(s, "@@") {
				d.lines <- s[2:]
			}
			if err != nil {
				close(d.lines)
				return
			}
		}
	}()
	drivers[lang] = d
	return d, nil
}

func (d *driver) stop() {
	d.dead = true
	d.in.Close()
	d.cmd.Process.Kill()
	go func() {
		for range d.lines {
		}
	}()
	d.cmd.Wait()
}

func init() {
	pbt.AtExit(func() {
		for _, d := range drivers {
			if !d.dead {
				d.stop()
			}
		}
	})
}

func (d *driver) enc(b []byte) string {
	if d.lang == "java" {
		return base64.StdEncoding.EncodeToString(b)
	}
	return hex.EncodeToString(b)
}

func (d *driver) dec(s string) (string, error) {
	if s == "!" {
		return "", nil
	}
	if !strings.HasPrefix(s, "=") {
		return "", fmt.Errorf("driver: %q", s)
	}
	var b []byte
	var err error
	if d.lang == "java" {
		b, err = base64.StdEncoding.DecodeString(s[1:])
	} else {
		b, err = hex.DecodeString(s[1:])
	}
	return string(b), err
}

type reply struct {
	kind byte // v version, r record, e error of the library, x anything else thrown, n nothing loaded, t threads agree
	rec  uipx.Rec
	text string
	ver  []string // family, version, extra information

	count, build string
}

type ask struct {
	kind byte
	arg  []byte
}

// request sends the requests and reads the replies.
func (d *driver) request(asks []ask) ([]reply, error) {
	werr := make(chan error, 1)
	go func() {
		w := bufio.NewWriterSize(d.in, 1<<16)
		for _, a := range asks {
			fmt.Fprintf(w, "%c%s\n", a.kind, d.enc(a.arg))
		}
		werr <- w.Flush()
	}()
	var out []reply
	timeout := time.After(120 * time.Second)
	for i := range asks {
		select {
		case s, ok := <-d.lines:
			if !ok {
				d.stop()
				return nil, pbt.Violationf("the %s library ends its process (%v) on %s", d.lang, d.cmd.ProcessState, descAsk(asks[i]))
			}
			r, err := d.parse(s)
			if err != nil {
				d.stop()
				return nil, pbt.Infra(err)
			}
			out = append(out, r)
		case <-timeout:
			d.stop()
			ps := d.cmd.ProcessState
			if ps != nil && ps.UserTime() > 60*time.Second {
				return nil, pbt.Violationf("the %s library does not answer %s", d.lang, descAsk(asks[i]))
			}
			return nil, pbt.Infra(fmt.Errorf("the %s driver does not answer %s", d.lang, descAsk(asks[i])))
		}
	}
	if err := <-werr; err != nil {
		d.stop()
		return nil, pbt.Infra(err)
	}
	return out, nil
}

func descAsk(a ask) string {
	if a.kind == 'L' || a.kind == 'O' {
		return fmt.Sprintf("loading %d bytes", len(a.arg))
	}
	if a.kind == 'B' || a.kind == 'U' || a.kind == 'M' || a.kind == 'P' {
		return fmt.Sprintf("%c %x", a.kind, a.arg)
	}
	return fmt.Sprintf("%c %q", a.kind, a.arg)
}

func (d *driver) parse(s string) (r reply, err error) {
	p := strings.Split(s, " ")
	r.kind = s[0]
	switch {
	case p[0] == "r" && len(p) == 9:
		var v [8]string
		for i := range v {
			if v[i], err = d.dec(p[1+i]); err != nil {
				return
			}
		}
		r.rec = uipx.Rec{Country: v[0], Province: v[1], City: v[2], Isp: v[3], Asn: v[4], Continent: v[5], Line: v[6], District: v[7]}
	case p[0] == "v" && len(p) >= 5:
		r.ver = append(r.ver, p[1])
		r.count, r.build = p[2], p[3]
		for _, x := range p[4:] {
			t, err := d.dec(x)
			if err != nil {
				return r, err
			}
			r.ver = append(r.ver, t)
		}
	case (p[0] == "e" || p[0] == "x") && len(p) == 2:
		r.text, err = d.dec(p[1])
	case p[0] == "n" || p[0] == "t":
	default:
		err = fmt.Errorf("driver: %.300q", s)
	}
	return
}

// langCase is a database written by this project or another tool.
type langCase struct {
	P     *IpdbCase   `json:"p,omitempty"`
	F     *model.Ipdb `json:"f,omitempty"`
	Extra []string    `json:"extra,omitempty"`
	Junk  []string    `json:"junk,omitempty"`
	File  bool        `json:"file,omitempty"`
	Many  bool        `json:"many,omitempty"` // several threads
	Round int         `json:"round,omitempty"`
	Off   int         `json:"off,omitempty"`
	Two   bool        `json:"two,omitempty"` // beside another database, with other values at the same places
}

// otherValues is the ipdb database with every byte of its values replaced by 'z'.
func otherValues(b []byte) ([]byte, error) {
	b = append([]byte{}, b...)
	var m struct {
		Nodes int `json:"node_count"`
	}
	n := int(binary.BigEndian.Uint32(b))
	if err := json.Unmarshal(b[4:4+n], &m); err != nil {
		return nil, pbt.Infra(err)
	}
	body := b[4+n:]
	child := func(i, j int) int { return int(binary.BigEndian.Uint32(body[8*i+4*j:])) }
	seen := map[int]bool{}
	var walk func(i int)
	walk = func(i int) {
		if seen[i] || i == m.Nodes {
			return
		}
		seen[i] = true
		if i < m.Nodes {
			walk(child(i, 0))
			walk(child(i, 1))
			return
		}
		at := i - m.Nodes + 8*m.Nodes
		l := int(binary.BigEndian.Uint16(body[at:]))
		for k := at + 2; k < at+2+l; k++ {
			if body[k] != '\t' {
				body[k] = 'z'
			}
		}
	}
	walk(0)
	return b, nil
}

// otherRec is the record of otherValues, but for the continent.
func otherRec(r uipx.Rec) uipx.Rec {
	z := func(s string) string { return strings.Repeat("z", len(s)) }
	return uipx.Rec{Country: z(r.Country), Province: z(r.Province), City: z(r.City), Isp: z(r.Isp), Asn: z(r.Asn), Line: z(r.Line), District: z(r.District)}
}

// warmAsk are some of the addresses whose answers the libraries keep.
var warmAsk = []string{"111.192.0.0", "101.80.0.0", "10.0.0.0", "117.8.0.0", "222.209.0.0", "180.98.32.0", "223.88.0.0", "36.142.176.0", "120.231.96.0"}

func genLang(t *rapid.T) langCase {
	k := langCase{File: rapid.IntRange(0, 5).Draw(t, "file") == 0, Many: rapid.IntRange(0, 19).Draw(t, "many") == 0, Two: rapid.IntRange(0, 3).Draw(t, "two") == 0}
	if rapid.IntRange(0, 2).Draw(t, "foreign") == 0 {
		f := genForeign(t, rapid.IntRange(0, 3).Draw(t, "cover") == 0)
		k.F = &f
		k.Extra = model.GenExtra(t)
	} else {
		if k.Round, k.Off = model.GenRound(t); k.Round > 0 {
			k.File = true
		}
		v4, v6 := genFam(t)
		cover := rapid.IntRange(0, 3).Draw(t, "cover") == 0
		p := genIpdbCase(t, v4, v6 && !(v4 && cover), cover)
		k.P = &p
	}
	for i := rapid.IntRange(0, 4).Draw(t, "njunk"); i > 0; i-- {
		k.Junk = append(k.Junk, genJunk(t))
	}
	return k
}

// storedMeta is the number of nodes and the time of building in the metadata of an ipdb file.
func storedMeta(b []byte) (count, build string, err error) {
	var m struct {
		Build int64 `json:"build"`
		Nodes int64 `json:"node_count"`
	}
	if len(b) < 4 {
		return "", "", pbt.Infra(fmt.Errorf("%d bytes", len(b)))
	}
	n := int(binary.BigEndian.Uint32(b))
	if n > len(b)-4 {
		return "", "", pbt.Infra(fmt.Errorf("metadata of %d bytes in %d", n, len(b)))
	}
	if err := json.Unmarshal(b[4:4+n], &m); err != nil {
		return "", "", pbt.Infra(err)
	}
	return fmt.Sprint(m.Nodes), fmt.Sprint(m.Build), nil
}

// progCase is a run of the Rust query program for each address.
type progCase struct {
	L   langCase `json:"l"`
	Arg []string `json:"arg"`
	Bad []byte   `json:"bad,omitempty"` // not a database
}

func checkProgram(c *pbt.Ctx, k progCase) error {
	b, answer, _, _, _, _, err := k.L.build()
	if err != nil {
		return err
	}
	if k.Bad != nil {
		b = k.Bad
	}
	file := filepath.Join(c.Dir(), "x.ipdb")
	if err := os.WriteFile(file, b, 0o600); err != nil {
		return pbt.Infra(err)
	}
	hit, miss := 0, 0
	for _, arg := range k.Arg {
		r, err := runCmd("rustquery", file, arg)
		if err != nil {
			return err
		}
		if r.code != 0 {
			return pbt.Violationf("query %q: status %d, %.500s%.500s", arg, r.code, r.stdout, r.stderr)
		}
		want := "query ip: " + arg + ", error: "
		if k.Bad != nil {
			want = "open ipdb error: "
		} else if a, ok := model.ParseAddr(arg); ok {
			if e, ok := answer(a); ok {
				hit++
				want = fmt.Sprintf("query ip: %s, info: Country: %s, District: %s, Province: %s, City: %s, Asn: %s, Isp: %s, Continent: %s, Line: %s\n",
					arg, e.Country, e.District, e.Province, e.City, e.Asn, e.Isp, e.Continent, e.Line)
			} else {
				miss++
			}
		}
		if n := strings.Count("\n"+r.stdout, "\n"+want); n != 1 {
			return pbt.Violationf("query %q prints %q, expected one line %q", arg, r.stdout, want)
		}
		for _, other := range []string{"query ip: ", "open ipdb error: "} {
			if !strings.HasPrefix(want, other) && strings.Contains("\n"+r.stdout, "\n"+other) {
				return pbt.Violationf("query %q prints %q, expected one line %q", arg, r.stdout, want)
			}
		}
	}
	if hit > 0 && miss > 0 {
		c.NonTrivial()
	}
	c.Class("hit=%v miss=%v bad=%v", hit > 0, miss > 0, k.Bad != nil)
	return nil
}

func genProgram(t *rapid.T) progCase {
	k := progCase{L: genLang(t)}
	var nn []model.Net
	if k.L.P != nil {
		for _, r := range k.L.P.T.Rows {
			nn = append(nn, model.MustNet(r.N))
		}
	} else {
		for _, s := range k.L.F.Nets {
			nn = append(nn, model.MustNet(s))
		}
	}
	p := model.Probes(nn, nil, true, true, 40)
	for i := rapid.IntRange(2, 5).Draw(t, "nargs"); i > 0; i-- {
		k.Arg = append(k.Arg, rapid.SampledFrom(p).Draw(t, "arg").String())
	}
	if j := genJunk(t); utf8.ValidString(j) && !strings.ContainsAny(j, "\x00\n\r") && rapid.IntRange(0, 3).Draw(t, "junkarg") == 0 {
		k.Arg = append(k.Arg, j)
	}
	if rapid.IntRange(0, 9).Draw(t, "bad") == 0 {
		k.Bad = rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "badbytes")
		if k.Bad == nil {
			k.Bad = []byte{}
		}
	}
	return k
}

// answer of a foreign database.
func foreignAnswer(d model.Ipdb) func(a model.Addr) (uipx.Rec, bool) {
	off, cn := d.Langs["CN"]
	var nn []model.Net
	for _, s := range d.Nets {
		nn = append(nn, model.MustNet(s))
	}
	set := model.NewSetNets(nn)
	return func(a model.Addr) (uipx.Rec, bool) {
		i, _, ok := set.Find(a)
		if !ok || !cn || a.V6 && d.Type&2 == 0 || !a.V6 && d.Type&1 == 0 {
			return uipx.Rec{}, false
		}
		var f, v []string
		for j, x := range d.Fields {
			if has(model.KnownFields, internalName[x]) {
				f = append(f, internalName[x])
				v = append(v, d.Records[d.Rec[i]][off+j])
			}
		}
		return uipx.Expect(f, v), true
	}
}

// build writes the database.
func (k langCase) build() (b []byte, answer func(a model.Addr) (uipx.Rec, bool), probes []model.Addr, typ int, version string, extra []string, err error) {
	if k.P != nil {
		o, err := DbCase{Ip: k.P}.open()
		if err != nil {
			return nil, nil, nil, 0, "", nil, err
		}
		answer = func(a model.Addr) (uipx.Rec, bool) { r, _, ok := o.answer(a); return r, ok }
		return model.PadMeta(o.bytes, k.Round, k.Off), answer, o.probes(60), k.P.Ver.Type, k.P.Ver.Text, k.P.Ver.Extra, nil
	}
	var nn []model.Net
	for _, s := range k.F.Nets {
		nn = append(nn, model.MustNet(s))
	}
	return k.F.Bytes(), foreignAnswer(*k.F), model.Probes(nn, model.ParseExtra(k.Extra), true, true, 60), k.F.Type, k.F.Version, k.F.Extra, nil
}

func checkLang(lang string) func(c *pbt.Ctx, k langCase) error {
	return func(c *pbt.Ctx, k langCase) error {
		b, answer, probes, typ, version, extra, err := k.build()
		if err != nil {
			return err
		}
		if k.P != nil {
			c.Class("packed")
		} else {
			c.Class("foreign")
			if k.F.Build > 1<<31-1 && lang == "java" {
				return nil // beyond its field for the time
			}
		}
		d, err := getDriver(lang)
		if err != nil {
			return err
		}
		type expect struct {
			ok, any, other bool
			rec            uipx.Rec
		}
		asks := []ask{{'L', b}}
		if k.File {
			f := filepath.Join(c.Dir(), "x.y.ipdb")
			if err := os.WriteFile(f, b, 0o600); err != nil {
				return pbt.Infra(err)
			}
			asks[0] = ask{'F', []byte(f)}
		}
		want := []expect{{}}
		add := func(kind byte, arg []byte, e expect) {
			asks = append(asks, ask{kind, arg})
			want = append(want, e)
		}
		hit, miss, kept := 0, 0, 0
		askOther := func(a model.Addr, e expect) {
			if k.Two {
				e.other = true
				e.rec = otherRec(e.rec)
				add('P', a.Bytes(), e)
			}
		}
		if k.Two {
			b2, err := otherValues(b)
			if err != nil {
				return err
			}
			add('O', b2, expect{any: true})
			c.Class("two databases")
		}
		if lang == "java" {
			for _, s := range warmAsk {
				a, _ := model.ParseAddr(s)
				var e expect
				e.rec, e.ok = answer(a)
				if e.ok {
					kept++
				}
				add('M', a.Bytes(), e)
				if len(asks)%2 == 0 {
					add('S', []byte(s), e)
				}
				askOther(a, e)
			}
		}
		for _, a := range probes {
			var e expect
			e.rec, e.ok = answer(a)
			if e.ok {
				hit++
			} else {
				miss++
			}
			add('B', a.Bytes(), e)
			if lang == "rust" && !a.V6 {
				add('U', a.Bytes(), e)
			}
			if len(asks)%2 == 0 {
				askOther(a, e)
			}
			for i, s := range spellings(a) {
				if lang == "rust" && !a.V6 && i > 0 { // mapped
					break
				}
				if (i+len(asks))%3 == 0 || i == 0 {
					add('S', []byte(s), e)
				}
			}
		}
		if lang == "java" && k.Many {
			texts := append([]string{}, warmAsk...)
			for _, a := range probes {
				texts = append(texts, a.String())
			}
			add('T', []byte(strings.Join(texts, " ")), expect{any: true})
			c.Class("threads")
		}
		if kept > 0 {
			c.Class("kept answers")
		}
		for _, s := range k.Junk {
			add('S', []byte(s), expect{any: true})
		}
		for _, n := range []int{0, 1, 3, 5, 15, 17} {
			add('B', make([]byte, n), expect{})
		}
		got, err := d.request(asks)
		if err != nil {
			return err
		}
		v := got[0]
		if v.kind != 'v' {
			return pbt.Violationf("%s: loading: %s", lang, v.text)
		}
		if n, err := strconv.Atoi(v.ver[0]); err != nil || n != typ {
			return pbt.Violationf("%s: family %s, stored %d", lang, v.ver[0], typ)
		}
		count, build, err := storedMeta(b)
		if err != nil {
			return err
		}
		if v.count != count || v.build != build {
			return pbt.Violationf("%s: %s nodes, built at %s; stored %s and %s", lang, v.count, v.build, count, build)
		}
		if version != "" && v.ver[1] != version || !sameStrings(v.ver[2:], extra) {
			return pbt.Violationf("%s: version %q and extra information %q, stored %q and %q", lang, v.ver[1], v.ver[2:], version, extra)
		}
		for i := 1; i < len(asks); i++ {
			g, w := got[i], want[i]
			switch {
			case (g.kind == 't' || g.kind == 'v') && (asks[i].kind == 'T' || asks[i].kind == 'O'):
			case g.kind == 'x' || g.kind != 'r' && g.kind != 'e':
				return pbt.Violationf("%s: %s: %s", lang, descAsk(asks[i]), g.text)
			case w.any:
			case w.ok && g.kind == 'e':
				return pbt.Violationf("%s: %s gets the error %q, stored %+v", lang, descAsk(asks[i]), g.text, w.rec)
			case !w.ok && g.kind == 'r':
				return pbt.Violationf("%s: %s is answered %+v, but nothing is stored", lang, descAsk(asks[i]), g.rec)
			case w.ok && w.other:
				if strings.Trim(g.rec.Continent, "z") != "" {
					return pbt.Violationf("%s: the second database answers %s with %+v, stored %+v", lang, descAsk(asks[i]), g.rec, w.rec)
				}
				if g.rec.Continent = ""; g.rec != w.rec {
					return pbt.Violationf("%s: the second database answers %s with %+v, stored %+v", lang, descAsk(asks[i]), g.rec, w.rec)
				}
			case w.ok && g.rec != w.rec:
				return pbt.Violationf("%s: %s is answered %+v, stored %+v", lang, descAsk(asks[i]), g.rec, w.rec)
			}
		}
		if hit > 1 && miss > 1 {
			c.NonTrivial()
		}
		return nil
	}
}

// checkLangVast asks a library for records far beyond 16 MB, in a tree of more than 65536 nodes.
func checkLangVast(lang string) func(c *pbt.Ctx, k vastCase) error {
	return func(c *pbt.Ctx, k vastCase) error {
		c.NonTrivial()
		b, ips, _, err := k.build()
		if err != nil {
			return err
		}
		c.Class("v6=%v MB=%d", k.V6, len(b)>>22<<2)
		count, build, err := storedMeta(b)
		if err != nil {
			return err
		}
		f := filepath.Join(c.Dir(), "vast.ipdb")
		if err := os.WriteFile(f, b, 0o600); err != nil {
			return pbt.Infra(err)
		}
		b = nil
		defer os.Remove(f)
		d, err := getDriver(lang)
		if err != nil {
			return err
		}
		asks := []ask{{'F', []byte(f)}}
		at := []int{0}
		for i := 0; i < len(ips); i += 1 + len(ips)/700 {
			asks, at = append(asks, ask{'B', ips[i]}), append(at, i)
		}
		for i := max(0, len(ips)-14); i < len(ips); i++ {
			asks, at = append(asks, ask{'S', []byte(ips[i].String())}), append(at, i)
		}
		r := rnd(k.Seed)
		for n := 0; n < 3000; n++ {
			i := int(r.next() % uint64(len(ips)))
			if n%3 == 0 {
				i %= 20
			}
			x := ask{'B', ips[i]}
			if n%5 == 0 {
				x = ask{'S', []byte(ips[i].String())}
			}
			asks, at = append(asks, x), append(at, i)
		}
		got, err := d.request(append(asks, ask{'L', nil})) // the last one lets go of the database
		if err != nil {
			return err
		}
		if got[0].kind != 'v' {
			return pbt.Violationf("%s: loading: %s", lang, got[0].text)
		}
		if v := got[0]; v.count != count || v.build != build || v.ver[1] != "vast" {
			return pbt.Violationf("%s: %s nodes, built at %s, version %q; stored %s, %s and \"vast\"", lang, v.count, v.build, v.ver[1], count, build)
		}
		for i := 1; i < len(asks); i++ {
			g := got[i]
			if g.kind != 'r' || g.rec.City != k.value(at[i]) || g.rec.Country != "c" || len(g.rec.Isp) != k.Size {
				return pbt.Violationf("%s: %s of network %d: got %c %s city %q, country %q and %d bytes of isp, stored %q and %d bytes", lang, descAsk(asks[i]), at[i], g.kind, g.text, g.rec.City, g.rec.Country, len(g.rec.Isp), k.value(at[i]), k.Size)
			}
		}
		return nil
	}
}

func genLangVast(t *rapid.T) vastCase {
	k := vastCase{V6: rapid.Bool().Draw(t, "v6"), N: rapid.IntRange(4000, 12000).Draw(t, "n"), Seed: rapid.Uint64().Draw(t, "seed")}
	k.Wide = !k.V6
	k.Size = rapid.IntRange(18, 60).Draw(t, "mb") << 20 / k.N
	return k
}

// checkX05 gives a library bytes that need not be a database.
func checkX05(lang string) func(c *pbt.Ctx, k badCase) error {
	return func(c *pbt.Ctx, k badCase) error {
		d, err := getDriver(lang)
		if err != nil {
			return err
		}
		asks := []ask{{'L', k.B}}
		if len(k.B)%5 == 0 {
			f := filepath.Join(c.Dir(), []string{"x.y.ipdb", "x.awdb", "x", "x.", ".ipdb"}[len(k.B)/5%5])
			if err := os.WriteFile(f, k.B, 0o600); err != nil {
				return pbt.Infra(err)
			}
			asks[0] = ask{'F', []byte(f)}
			if len(k.B)%15 == 0 {
				asks = append(asks, asks[0])
				asks[0] = ask{'F', []byte(filepath.Join(c.Dir(), "missing.ipdb"))}
			}
		}
		for _, s := range append(append([]string{}, warmAsk[:3]...), k.Ask...) {
			asks = append(asks, ask{'S', []byte(s)})
		}
		for _, ip := range badAsk {
			asks = append(asks, ask{'B', ip})
		}
		if lang == "rust" {
			asks = append(asks, ask{'U', []byte{0, 0, 0, 0}}, ask{'U', []byte{255, 255, 255, 255}})
		}
		got, err := d.request(asks)
		if err != nil {
			return err
		}
		loaded, answered := false, false
		for i, g := range got {
			switch g.kind {
			case 'v':
				loaded = true
				if k.Cut {
					return pbt.Violationf("%s: a database cut short (to %d bytes) is loaded", lang, len(k.B))
				}
			case 'r':
				answered = true
			case 'e', 'n':
			default:
				return pbt.Violationf("%s: %s: %s", lang, descAsk(asks[i]), g.text)
			}
		}
		c.Class("%s loaded=%v answered=%v", k.How, loaded, answered)
		if loaded || k.Cut {
			c.NonTrivial()
		}
		return nil
	}
}

func init() {
	for _, l := range []string{"java", "rust"} {
		pbt.Register("X05", l, pbt.Options{
			Rule:  "arbitrary bytes, databases cut short, with bytes changed, removed or repeated, and with metadata, tree or records edited, loaded by the " + l + " library from memory or a file and asked for some 30 addresses: only records and the errors it declares; a cut database is rejected; non-trivial: loaded, or cut short",
			Quick: 16000, Thorough: 500000,
		}, genBadIpdb, checkX05(l))
	}
	for id, l := range map[string]string{"X03": "java", "X04": "rust"} {
		pbt.Register(id, "vast", pbt.Options{
			Rule:  "databases of 18 to 60 MB and more than 65536 tree nodes; some 700 networks, the widest with their records at the end among them, and 3000 more lookups, many of the same networks, are answered with their own records; the version data is that stored; non-trivial: always",
			Quick: 8, Thorough: 120, NoShrink: true,
		}, genLangVast, checkLangVast(l))
	}
	pbt.Register("X03", "java", pbt.Options{
		Rule:  "random ipdb databases, packed by this project or written by the independent encoder, loaded by the Java library and asked for addresses in text and binary form; every answer is compared with the model; non-trivial: two addresses with and two without a record",
		Quick: 24000, Thorough: 600000,
	}, genLang, checkLang("java"))
	pbt.Register("X04", "program", pbt.Options{
		Rule:  "the built query program run on random ipdb databases for stored and other addresses, texts that are no addresses, and files that are no databases; the line it prints is compared with the model; non-trivial: addresses with and without a record",
		Quick: 480, Thorough: 12000,
	}, genProgram, checkProgram)
	pbt.Register("X04", "rust", pbt.Options{
		Rule:  "random ipdb databases, packed by this project or written by the independent encoder, loaded by the Rust library and asked for addresses in text, binary and numeric form; every answer is compared with the model; non-trivial: two addresses with and two without a record",
		Quick: 24000, Thorough: 800000,
	}, genLang, checkLang("rust"))
}
