package main

import (
	"bytes"
	"fmt"
	"net"
	"os"
	"path/filepath"
	"runtime"
	"slices"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"verif/harness/model"
	"verif/harness/pbt"
	"verif/harness/uipx"

	"github.com/qiniu/uip/db/convert"
	"github.com/qiniu/uip/db/field/operate"
	"github.com/qiniu/uip/db/inf"
	"github.com/qiniu/uip/db/query"
	"pgregory.net/rapid"
)

// fileCase writes, opens and dumps files of one directory.
type fileCase struct {
	Names []string      `json:"names"` // without the extension
	Tabs  []model.Table `json:"tabs"`
	Vers  []uipx.Ver    `json:"vers"`
	Steps []fileStep    `json:"steps"`
}

type fileStep struct {
	Op   string `json:"op"` // pack, junk, dump, open
	Name int    `json:"name"`
	Ext  string `json:"ext"`
	Tab  int    `json:"tab"`
	Rule string `json:"rule,omitempty"`
	Ops  []int  `json:"ops,omitempty"`
	Size int    `json:"size,omitempty"`
}

// unknownExt name no format, although some look like it.
var unknownExt = []string{".SCAN", ".Ipdb", ".MEMIP", ".txt", ".scan.", ".ipdb~", ".scan ", ".gz", ".mmdb", ".awdb2"}

func genFileCase(t *rapid.T) fileCase {
	k := fileCase{Names: rapid.SliceOfNDistinct(rapid.SampledFrom([]string{"a", "", "x.awdb", "b.scan", "with space", "名字", "a.b.c", "-x", "%d", "UP", "line\nbreak", "dir.ipdb/inner"}), 1, 3, rapid.ID[string]).Draw(t, "names")}
	for i := rapid.IntRange(1, 3).Draw(t, "ntabs"); i > 0; i-- {
		c := genMemipCase(t)
		if len(c.T.Rows) == 0 {
			n := "1.0.0.0/8"
			if c.Ver.Type == 2 {
				n = "2000::/3"
			}
			c.T.Rows = []model.Row{{N: n, F: 4, V: make([]string, len(c.T.Fields))}}
			if c.Ver.Type == 2 {
				c.T.Rows[0].F = 0
			}
		}
		k.Tabs = append(k.Tabs, c.T)
		k.Vers = append(k.Vers, c.Ver)
	}
	for i := rapid.IntRange(2, 8).Draw(t, "steps"); i > 0; i-- {
		ext := []string{".ipdb", ".scan", ".memip"}
		if rapid.IntRange(0, 7).Draw(t, "unknown") == 0 {
			ext = unknownExt
		}
		s := fileStep{Op: rapid.SampledFrom([]string{"pack", "pack", "pack", "junk", "dump", "dump", "open"}).Draw(t, "op"), Name: rapid.IntRange(0, len(k.Names)-1).Draw(t, "name"),
			Ext: rapid.SampledFrom(ext).Draw(t, "ext"), Tab: rapid.IntRange(0, len(k.Tabs)-1).Draw(t, "tab")}
		switch s.Op {
		case "dump":
			if rapid.Bool().Draw(t, "ruled") {
				s.Rule = strings.Join(genRuleColumns(t, nil), ",")
			}
			s.Ops = rapid.SliceOfN(rapid.IntRange(0, 3), 0, 4).Draw(t, "ops")
		case "junk":
			s.Size = rapid.SampledFrom([]int{0, 10, 100000}).Draw(t, "size")
		}
		k.Steps = append(k.Steps, s)
	}
	return k
}

// op changes data in a way that shows the order.
func fileOp(i int, trace *[]int) operate.Operate {
	return func(d *inf.IpData) {
		*trace = append(*trace, i)
		switch i {
		case 0:
			d.Fields = append(d.Fields[:len(d.Fields):len(d.Fields)], fmt.Sprint("new", len(d.Fields)))
			for j := range d.Ips {
				v := d.Ips[j].FieldValues
				d.Ips[j].FieldValues = append(v[:len(v):len(v)], "v")
			}
		case 1:
			if len(d.Ips) > 0 {
				d.Ips = d.Ips[1:]
			}
		default:
			for j := range d.Ips {
				v := append([]string{}, d.Ips[j].FieldValues...)
				for x := range v {
					v[x] += fmt.Sprint(i)
				}
				d.Ips[j].FieldValues = v
			}
		}
	}
}

func sameContent(kind string, a, b []byte) bool {
	x, err1 := content(kind, a)
	y, err2 := content(kind, b)
	return err1 == nil && err2 == nil && x == y
}

type panicErr struct{ error }

func panicked(err error) bool { _, ok := err.(panicErr); return ok }

// tryErr is the error of f, or its panic.
func tryErr(f func() error) (err error) {
	if p := pbt.Try(func() { err = f() }); p != nil {
		return panicErr{p}
	}
	return err
}

// watcher notes the names files get in some directories.
type watcher struct {
	fd   int
	dirs map[int32]string
}

// watch gives nil where the system cannot.
func watch(dirs ...string) *watcher {
	fd, err := syscall.InotifyInit1(syscall.IN_NONBLOCK | syscall.IN_CLOEXEC)
	if err != nil {
		return nil
	}
	w := &watcher{fd, map[int32]string{}}
	for _, d := range dirs {
		n, err := syscall.InotifyAddWatch(fd, d, syscall.IN_CREATE|syscall.IN_MOVED_FROM|syscall.IN_MOVED_TO)
		if err != nil {
			syscall.Close(fd)
			return nil
		}
		w.dirs[int32(n)] = d
	}
	return w
}

// names ends the watch.
func (w *watcher) names() (paths []string) {
	if w == nil {
		return nil
	}
	defer syscall.Close(w.fd)
	b := make([]byte, 1<<16)
	for {
		n, err := syscall.Read(w.fd, b)
		if err != nil || n <= 0 {
			return paths
		}
		for i := 0; i+syscall.SizeofInotifyEvent <= n; {
			ev := (*syscall.InotifyEvent)(unsafe.Pointer(&b[i]))
			i += syscall.SizeofInotifyEvent
			name := strings.TrimRight(string(b[i:i+int(ev.Len)]), "\x00")
			i += int(ev.Len)
			if p := filepath.Join(w.dirs[ev.Wd], name); name != "" && !slices.Contains(paths, p) {
				paths = append(paths, p)
			}
		}
	}
}

// openFiles lists what this process has open below dir.
func openFiles(dir string) (l []string) {
	fds, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return nil
	}
	for _, fd := range fds {
		if p, err := os.Readlink(filepath.Join("/proc/self/fd", fd.Name())); err == nil && strings.HasPrefix(p, dir+"/") {
			l = append(l, p)
		}
	}
	return l
}

// others opens databases once those no longer in use have been collected.
func others(f string) error {
	d := &inf.IpData{Fields: []string{"country"}, Version: uipx.Ver{Type: 1, Text: "others"}.Info()}
	for i := 0; i < 64; i++ {
		n := model.Net{U: model.U{L: uint64(i) << 26}, Bits: 6}
		d.Ips = append(d.Ips, inf.IpRaw{Cidr: n.IPNet(4), FieldValues: []string{strings.Repeat(string(rune('A'+i)), 300)}})
	}
	b, err := uipx.Pack(".ipdb", d)
	if err != nil {
		return pbt.Violationf("packing fails: %v", err)
	}
	if err := os.WriteFile(f, b, 0o600); err != nil {
		return pbt.Infra(err)
	}
	defer os.Remove(f)
	runtime.GC()
	for i := 0; i < 4; i++ {
		time.Sleep(200 * time.Microsecond) // finalizers run
		if _, err := query.NewDb(f); err != nil {
			return pbt.Violationf("opening fails: %v", err)
		}
	}
	return nil
}

func checkFiles(c *pbt.Ctx, k fileCase) error {
	dir, temp := filepath.Join(c.Dir(), "files"), filepath.Join(c.Dir(), "temp")
	for _, d := range []string{dir, temp} {
		if err := os.Mkdir(d, 0o700); err != nil {
			return pbt.Infra(err)
		}
	}
	defer os.Setenv("TMPDIR", os.Getenv("TMPDIR"))
	os.Setenv("TMPDIR", temp)
	have := map[string][]byte{}
	over, read := 0, 0
	// what was read earlier does not depend on the files any more
	type answer struct {
		what string
		db   *query.Db
		ip   net.IP
		a    uipx.Ans
	}
	var answers []answer
	var texts []string
	dumps, dumped := map[string]*inf.IpData{}, map[string]string{}
	again := func() error {
		for i, x := range answers {
			if a, err := uipx.Ask(x.db, x.ip); err != nil || a != x.a || fmt.Sprintf("%+v", a) != texts[i] {
				return pbt.Violationf("%s: %v was answered %+v, with the file changed since then %+v (%v)", x.what, x.ip, x.a, a, err)
			}
		}
		for what, d := range dumps {
			if a := snapshot(d); a != dumped[what] {
				return pbt.Violationf("%s gave\n%.1000s\nwhich, with the file changed since then, is\n%.1000s", what, dumped[what], a)
			}
		}
		return nil
	}
	for n, s := range k.Steps {
		f := filepath.Join(dir, k.Names[s.Name]+s.Ext)
		if err := os.MkdirAll(filepath.Dir(f), 0o700); err != nil {
			return pbt.Infra(err)
		}
		what := fmt.Sprintf("step %d (%s of %q)", n, s.Op, f)
		old, known := have[f]
		var err error
		if has(unknownExt, s.Ext) {
			c.Class("unknown extension")
			likely := ".ipdb"
			for _, e := range []string{".scan", ".memip"} {
				if strings.EqualFold(strings.TrimSpace(s.Ext), e) {
					likely = e
				}
			}
			switch s.Op {
			case "junk":
				b, err := uipx.Pack(likely, uipx.Data(k.Tabs[s.Tab], k.Vers[s.Tab]))
				if err != nil {
					return pbt.Violationf("packing bytes fails: %v", err)
				}
				if err := os.WriteFile(f, b, 0o600); err != nil {
					return pbt.Infra(err)
				}
				have[f] = b
				continue
			case "pack":
				err = tryErr(func() error { return convert.PackFile(f, uipx.Data(k.Tabs[s.Tab], k.Vers[s.Tab])) })
			case "open":
				err = tryErr(func() error { _, e := query.NewDb(f); return e })
			case "dump":
				err = tryErr(func() error { _, e := convert.DumpFile(f, s.Rule, nil); return e })
			}
			if err == nil || panicked(err) {
				return pbt.Violationf("%s: %v, but the extension %q names no format", what, err, s.Ext)
			}
			if got, rerr := os.ReadFile(f); known && (rerr != nil || !bytes.Equal(got, old)) || !known && rerr == nil {
				return pbt.Violationf("%s changes a file of no known format", what)
			}
			continue
		}
		switch s.Op {
		case "junk":
			b := bytes.Repeat([]byte("junk\n"), s.Size/5)
			if err := os.WriteFile(f, b, 0o600); err != nil {
				return pbt.Infra(err)
			}
			have[f] = b
			continue
		case "pack":
			want, werr := uipx.Pack(s.Ext, uipx.Data(k.Tabs[s.Tab], k.Vers[s.Tab]))
			if werr != nil {
				return pbt.Violationf("packing bytes fails: %v", werr)
			}
			w := watch(filepath.Dir(f), temp)
			if p := pbt.Try(func() { err = convert.PackFile(f, uipx.Data(k.Tabs[s.Tab], k.Vers[s.Tab])) }); p != nil {
				return pbt.Violationf("%s: %v", what, p)
			}
			if err != nil {
				return pbt.Violationf("%s fails: %v", what, err)
			}
			// names used on the way are not to be those of files that are there
			var mine []string
			for _, g := range w.names() {
				if _, there := have[g]; there || g == f {
					continue
				}
				if _, e := os.Lstat(g); e == nil {
					continue
				}
				if e := os.WriteFile(g, []byte("mine"), 0o600); e != nil {
					return pbt.Infra(e)
				}
				mine = append(mine, g)
			}
			if len(mine) > 0 {
				c.Class("files on the way")
				tryErr(func() error { return convert.PackFile(f, uipx.Data(k.Tabs[s.Tab], k.Vers[s.Tab])) })
				for _, g := range mine {
					if b, e := os.ReadFile(g); e != nil || string(b) != "mine" {
						return pbt.Violationf("%s changes the file %q", what, g)
					}
					os.Remove(g)
				}
			}
			got, rerr := os.ReadFile(f)
			if rerr != nil {
				return pbt.Violationf("%s: %v", what, rerr)
			}
			if !sameContent(s.Ext, got, want) {
				return pbt.Violationf("%s leaves %d bytes (there were %d before), packed to memory they are %d", what, len(got), len(old), len(want))
			}
			have[f] = got
			if known && len(old) > len(got) {
				over++
			}
		case "open":
			var db, mem *query.Db
			var merr error
			if p := pbt.Try(func() { db, err = query.NewDb(f) }); p != nil {
				return pbt.Violationf("%s: %v", what, p)
			}
			if s.Ext != ".ipdb" || !known {
				if err == nil {
					return pbt.Violationf("%s succeeds", what)
				}
				break
			}
			mem, merr = uipx.Load(s.Ext, old)
			if (err == nil) != (merr == nil) {
				return pbt.Violationf("%s gives %v, from memory it gives %v", what, err, merr)
			}
			if err == nil {
				read++
				for _, a := range model.Probes(nets(k.Tabs[s.Tab].Rows), nil, true, true, 20) {
					x, err1 := uipx.Ask(db, a.IP())
					y, err2 := uipx.Ask(mem, a.IP())
					if err1 != nil || err2 != nil || x != y {
						return pbt.Violationf("%s: %v is answered %+v (%v), from memory %+v (%v)", what, a, x, err1, y, err2)
					}
					answers = append(answers, answer{what, db, a.IP(), x})
					texts = append(texts, fmt.Sprintf("%+v", x))
				}
				if a, b := fmt.Sprintf("%+v", *db.VersionInfo()), fmt.Sprintf("%+v", *mem.VersionInfo()); a != b {
					return pbt.Violationf("%s: version information %s, from memory %s", what, a, b)
				}
			}
		case "dump":
			var d *inf.IpData
			var trace []int
			var ops []operate.Operate
			for _, o := range s.Ops {
				ops = append(ops, fileOp(o, &trace))
			}
			if p := pbt.Try(func() { d, err = convert.DumpFile(f, s.Rule, ops) }); p != nil {
				return pbt.Violationf("%s: %v", what, p)
			}
			if !known {
				if err == nil {
					return pbt.Violationf("%s succeeds without a file", what)
				}
				break
			}
			w, werr := dumpBytes(s.Ext, old, s.Rule)
			if (err == nil) != (werr == nil) {
				return pbt.Violationf("%s gives %v, from memory it gives %v", what, err, werr)
			}
			if err != nil {
				break
			}
			if fmt.Sprint(trace) != fmt.Sprint(append([]int{}, s.Ops...)) && len(s.Ops)+len(trace) > 0 {
				return pbt.Violationf("%s ran the operations %v, given %v", what, trace, s.Ops)
			}
			var ignore []int
			for _, o := range s.Ops {
				fileOp(o, &ignore)(w)
			}
			d.Version, w.Version = nil, nil // the time of reading for memip
			if a, b := snapshot(d), snapshot(w); a != b {
				return pbt.Violationf("%s with the operations %v gives\n%.1000s\nfrom memory\n%.1000s", what, s.Ops, a, b)
			}
			dumps[what], dumped[what] = d, snapshot(d)
			read++
		}
		if l := openFiles(c.Dir()); len(l) > 0 {
			return pbt.Violationf("%s leaves %q open", what, l)
		}
		if err := filepath.WalkDir(dir, func(g string, d os.DirEntry, err error) error {
			if _, mine := have[g]; err == nil && !d.IsDir() && !mine {
				return pbt.Violationf("%s leaves another file %q", what, g)
			}
			return err
		}); err != nil {
			return err
		}
		// nothing but packing changes a file
		for g, b := range have {
			got, rerr := os.ReadFile(g)
			if rerr != nil || !bytes.Equal(got, b) {
				return pbt.Violationf("%s: afterwards %q holds %d bytes (%v), before %d", what, g, len(got), rerr, len(b))
			}
		}
		if !known && s.Op != "pack" {
			if _, e := os.Lstat(f); e == nil {
				return pbt.Violationf("%s made the file", what)
			}
		}
	}
	if err := again(); err != nil {
		return err
	}
	for f := range have {
		if err := os.Truncate(f, 0); err != nil {
			return pbt.Infra(err)
		}
	}
	if err := again(); err != nil {
		return err
	}
	// records stay as they are when their database is gone and others are opened
	if len(answers) > 0 && len(k.Steps)%3 == 0 {
		var kept []uipx.Ans
		for _, x := range answers {
			kept = append(kept, x.a)
		}
		answers = nil
		c.Class("databases gone")
		if err := others(filepath.Join(dir, "others.ipdb")); err != nil {
			return err
		}
		for i, a := range kept {
			if g := fmt.Sprintf("%+v", a); g != texts[i] {
				return pbt.Violationf("a lookup gave %s, which, with the database no longer in use, is %s", texts[i], g)
			}
		}
	}
	if over > 0 {
		c.Class("longer file replaced")
	}
	if read > 0 {
		c.Class("read")
	}
	if over+read > 0 {
		c.NonTrivial()
	}
	return nil
}

func init() {
	pbt.Register("F06", "files", pbt.Options{
		Rule:  "random sequences of writing, overwriting, opening and dumping files (names with several dots, spaces, dots in directories, no base) with random data, rules and recording operations, compared with the same done in memory, files named like those made on the way being looked after; non-trivial: a file is read, or a longer one is replaced",
		Quick: 4000, Thorough: 100000,
	}, genFileCase, checkFiles)
}
