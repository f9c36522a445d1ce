package main

import (
	"bytes"
	"fmt"
	"net"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"verif/harness/pbt"

	"github.com/qiniu/uip/db/convert"
	"github.com/qiniu/uip/db/query"
	"pgregory.net/rapid"
)

// The commands of the repository, given something they cannot work with.

// badFile says how a file is made unusable.
type badFile struct {
	Kind string `json:"kind"` // missing, directory, short, junk, empty, extension, taken (a server's address)
	N    int    `json:"n,omitempty"`
	Ext  string `json:"ext,omitempty"`
}

func genBadFile(t *rapid.T, label string) *badFile {
	b := &badFile{Kind: rapid.SampledFrom([]string{"missing", "directory", "short", "short", "junk", "empty", "extension", "extension"}).Draw(t, label)}
	switch b.Kind {
	case "short", "junk":
		b.N = rapid.IntRange(0, 1<<20).Draw(t, label+"n")
	case "extension":
		b.Ext = rapid.SampledFrom([]string{"", ".", ".txt", ".IPDB", ".ipdbx", ".mmdb", ".scan.gz", ".json", ".awdb "}).Draw(t, label+"ext")
	}
	return b
}

// put writes bytes of a database the bad way; it returns the name.
func (b *badFile) put(dir, name, kind string, data []byte) (string, error) {
	f := filepath.Join(dir, name+kind)
	switch b.Kind {
	case "missing":
		return f, nil
	case "directory":
		return f, os.Mkdir(f, 0o700)
	case "short":
		if len(data) > 0 {
			data = data[:b.N%len(data)]
		}
	case "junk":
		data = bytes.Repeat([]byte{byte(b.N), byte(b.N >> 8), byte(b.N >> 16)}, b.N%500)
	case "empty":
		data = nil
	case "extension":
		f = filepath.Join(dir, name+b.Ext)
	}
	return f, os.WriteFile(f, data, 0o600)
}

// listing gives the names below a directory with their contents.
func listing(dir string) (map[string]string, error) {
	out := map[string]string{}
	err := filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if i.IsDir() {
			out[p] = "directory"
			return nil
		}
		b, err := os.ReadFile(p)
		out[p] = "file " + string(b)
		return err
	})
	return out, err
}

// changes names what differs, apart from some files.
func changes(was, is map[string]string, but map[string]bool) []string {
	var out []string
	for p, c := range is {
		if w, ok := was[p]; !but[p] && (!ok || w != c) {
			out = append(out, p)
		}
	}
	for p := range was {
		if _, ok := is[p]; !ok && !but[p] {
			out = append(out, p)
		}
	}
	sort.Strings(out)
	return out
}

// untimed is a scan file without the two lines that may tell the time.
func untimed(s string) string {
	l := strings.SplitN(s, "\n", 3)
	return l[len(l)-1]
}

// convFail is a run of the converter with one unusable file.
type convFail struct {
	S      srcCase  `json:"s"`
	Rule   string   `json:"rule"`
	Line   *DbCase  `json:"line,omitempty"`
	Out    []string `json:"out"`
	Old    []int    `json:"old"` // sizes of files already there, -1 for none
	Source *badFile `json:"source,omitempty"`
	BadL   *badFile `json:"badline,omitempty"`
	BadO   string   `json:"bado,omitempty"` // extension, directory, inside
	At     int      `json:"at,omitempty"`
	Ext    string   `json:"ext,omitempty"`
}

func genConvFail(t *rapid.T) convFail {
	k := convFail{S: genSrc(t), Rule: rapid.SampledFrom([]string{"", "country,isp", "city,nosuch|city=x,city"}).Draw(t, "rule")}
	if rapid.IntRange(0, 1).Draw(t, "withline") > 0 {
		d := genDbCase(t, rapid.Bool().Draw(t, "coverline"))
		k.Line = &d
	}
	for i := rapid.IntRange(1, 4).Draw(t, "nout"); i > 0; i-- {
		k.Out = append(k.Out, rapid.SampledFrom([]string{".scan", ".scan", ".ipdb", ".memip"}).Draw(t, "out"))
		k.Old = append(k.Old, rapid.SampledFrom([]int{-1, 0, 10, 100000}).Draw(t, "old"))
	}
	switch rapid.IntRange(0, 3).Draw(t, "flaw") {
	case 0:
		k.Source = genBadFile(t, "source")
	case 1:
		k.BadL = genBadFile(t, "badline")
		if k.Line == nil {
			d := genDbCase(t, false)
			k.Line = &d
		}
	default:
		k.BadO = rapid.SampledFrom([]string{"extension", "extension", "directory", "inside"}).Draw(t, "bado")
		k.At = rapid.IntRange(0, len(k.Out)-1).Draw(t, "at")
		k.Ext = rapid.SampledFrom([]string{"", ".txt", ".awdb", ".SCAN", ".ipdb2", "."}).Draw(t, "ext")
	}
	return k
}

func checkConvFail(c *pbt.Ctx, k convFail) error {
	kind, b, err := k.S.bytes()
	if err != nil {
		return err
	}
	dir := c.Dir()
	src := filepath.Join(dir, "source"+kind)
	if k.Source != nil {
		src, err = k.Source.put(dir, "source", kind, b)
	} else {
		err = os.WriteFile(src, b, 0o600)
	}
	if err != nil {
		return pbt.Infra(err)
	}
	args := []string{"-i", src, "-r", k.Rule}
	var says []string // the messages, one of which is expected
	if k.Line != nil {
		o, err := k.Line.open()
		if err != nil {
			return err
		}
		f := filepath.Join(dir, "line"+o.kind)
		if k.BadL != nil {
			f, err = k.BadL.put(dir, "line", o.kind, o.bytes)
		} else {
			err = os.WriteFile(f, o.bytes, 0o600)
		}
		if err != nil {
			return pbt.Infra(err)
		}
		if k.BadL != nil {
			var lerr error
			if p := pbt.Try(func() { _, lerr = query.NewDb(f) }); p != nil {
				return p
			}
			if lerr == nil {
				c.Class("usable all the same")
				return nil
			}
			c.Class("line %s", k.BadL.Kind)
			says = append(says, lerr.Error())
		}
		args = append(args, "-line", f)
	}
	if k.Source != nil {
		var serr error
		if p := pbt.Try(func() { _, serr = convert.DumpFile(src, k.Rule, nil) }); p != nil {
			return p
		}
		if serr == nil {
			c.Class("usable all the same")
			return nil
		}
		c.Class("source %s", k.Source.Kind)
		says = append(says, serr.Error())
	} else if _, err := convert.DumpFile(src, k.Rule, nil); err != nil {
		return nil // no conversion at all: X01
	}
	var outs []string
	for i, e := range k.Out {
		f := filepath.Join(dir, fmt.Sprintf("out%d%s", i, e))
		if k.BadO != "" && i == k.At {
			c.Class("output %s", k.BadO)
			switch k.BadO {
			case "extension":
				f = filepath.Join(dir, fmt.Sprintf("out%d%s", i, k.Ext))
			case "directory":
				if err := os.Mkdir(f, 0o700); err != nil {
					return pbt.Infra(err)
				}
			case "inside":
				f = filepath.Join(dir, "nodir", fmt.Sprintf("out%d%s", i, e))
			}
		}
		outs = append(outs, f)
		if k.Old[i] >= 0 && !(k.BadO != "" && k.BadO != "extension" && i == k.At) {
			if err := os.WriteFile(f, bytes.Repeat([]byte{'#'}, k.Old[i]), 0o600); err != nil {
				return pbt.Infra(err)
			}
		}
	}
	was, err := listing(dir)
	if err != nil {
		return pbt.Infra(err)
	}
	r, err := runCmd("converter", append(append([]string{}, args...), "-o", strings.Join(outs, ","))...)
	if err != nil {
		return err
	}
	is, err := listing(dir)
	if err != nil {
		return pbt.Infra(err)
	}
	fail := func(format string, a ...any) error {
		return pbt.Violationf("converter %q -o %q: %s; it says %.700q", args, outs, fmt.Sprintf(format, a...), r.stderr)
	}
	if k.BadO == "" {
		if d := changes(was, is, nil); d != nil {
			return fail("it cannot read everything, but changes %q", d)
		}
		for _, s := range says {
			if strings.Contains(r.stderr, s) {
				c.NonTrivial()
				return nil
			}
		}
		return fail("it does not tell %q", says)
	}
	// the outputs before the bad one are those of a run without it, later ones those or untouched
	if k.At > 0 {
		c.NonTrivial()
	}
	if len(strings.TrimSpace(r.stderr)) == 0 {
		return fail("nothing tells of the unusable output")
	}
	good := map[string]bool{}
	var alone []string
	for i, f := range outs {
		if i != k.At {
			good[f] = true
			alone = append(alone, filepath.Join(dir, fmt.Sprintf("alone%d%s", i, k.Out[i])))
		}
	}
	if d := changes(was, is, good); d != nil {
		return fail("it changes %q, too", d)
	}
	if alone != nil {
		if _, err := runCmd("converter", append(append([]string{}, args...), "-o", strings.Join(alone, ","))...); err != nil {
			return err
		}
	}
	for i, f := range outs {
		if i == k.At {
			continue
		}
		if i > k.At && is[f] == was[f] {
			continue
		}
		want, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("alone%d%s", i, k.Out[i])))
		if err != nil {
			c.Class("data some output cannot hold")
			return nil // X01 tells whether that is right
		}
		got, ok := strings.CutPrefix(is[f], "file ")
		if !ok {
			return fail("output %d is not written", i)
		}
		// the time of running may differ
		switch k.Out[i] {
		case ".ipdb":
			if len(got) != len(want) {
				return fail("output %d has %d bytes, %d without the unusable output", i, len(got), len(want))
			}
		case ".scan":
			if untimed(got) != untimed(string(want)) {
				return fail("output %d is %.300q, %.300q without the unusable output", i, got, want)
			}
		default:
			if got != string(want) {
				return fail("output %d is %.300q, %.300q without the unusable output", i, got, want)
			}
		}
	}
	return nil
}

// lookFail is a run of the other commands with an unusable database.
type lookFail struct {
	D      DbCase   `json:"d"`
	Bad    *badFile `json:"bad"`
	Arg    string   `json:"arg"`
	Server bool     `json:"server"`
}

func genLookFail(t *rapid.T) lookFail {
	k := lookFail{D: genDbCase(t, rapid.Bool().Draw(t, "cover")), Bad: genBadFile(t, "bad"), Arg: rapid.SampledFrom([]string{"1.2.3.4", "::1", "version", "x", ""}).Draw(t, "arg"),
		Server: rapid.Bool().Draw(t, "server")}
	if k.Server && rapid.IntRange(0, 4).Draw(t, "taken") == 0 {
		k.Bad = &badFile{Kind: "taken"}
	}
	return k
}

func checkLookFail(c *pbt.Ctx, k lookFail) error {
	o, err := k.D.open()
	if err != nil {
		return err
	}
	dir := c.Dir()
	f := filepath.Join(dir, "db"+o.kind)
	says := "address already in use"
	pid := os.Getpid()
	l, err := net.Listen("tcp", fmt.Sprintf("127.%d.%d.%d:0", 65+pid>>16&0x3f, pid>>8&0xff, 1+pid%250))
	if err != nil {
		return pbt.Infra(err)
	}
	defer l.Close()
	addr := l.Addr().String()
	if k.Bad.Kind == "taken" {
		if err := os.WriteFile(f, o.bytes, 0o600); err != nil {
			return pbt.Infra(err)
		}
	} else {
		if f, err = k.Bad.put(dir, "db", o.kind, o.bytes); err != nil {
			return pbt.Infra(err)
		}
		var lerr error
		if p := pbt.Try(func() { _, lerr = query.NewDb(f) }); p != nil {
			return p
		}
		if lerr == nil {
			c.Class("usable all the same")
			return nil
		}
		says = lerr.Error()
		l.Close()
	}
	was, err := listing(dir)
	if err != nil {
		return pbt.Infra(err)
	}
	name, args := "simple", []string{f, k.Arg}
	if k.Server {
		name, args = "server", []string{f, addr}
	}
	c.Class("%s %s", name, k.Bad.Kind)
	var r runResult
	if k.Server {
		// it must end by itself
		done := make(chan struct{})
		go func() { r, err = runCmd(name, args...); close(done) }()
		up := false
		start := time.Now()
		for !up {
			select {
			case <-done:
			case <-time.After(50 * time.Millisecond):
				if k.Bad.Kind == "taken" {
					if time.Since(start) > 30*time.Second {
						return pbt.Violationf("%s %q goes on although another program has the address", name, args)
					}
					continue
				}
				if cn, err := net.Dial("tcp", addr); err == nil {
					cn.Close()
					up = true
				}
				continue
			}
			break
		}
		if up {
			return pbt.Violationf("%s %q serves although the database cannot be used (%s)", name, args, says)
		}
	} else {
		r, err = runCmd(name, args...)
	}
	if err != nil {
		return err
	}
	is, err := listing(dir)
	if err != nil {
		return pbt.Infra(err)
	}
	if d := changes(was, is, nil); d != nil {
		return pbt.Violationf("%s %q changes %q", name, args, d)
	}
	if strings.TrimSpace(r.stdout) != "" {
		return pbt.Violationf("%s %q prints %.300q although the database cannot be used (%s)", name, args, r.stdout, says)
	}
	if !strings.Contains(r.stderr, says) {
		return pbt.Violationf("%s %q says %.500q, expected %q", name, args, r.stderr, says)
	}
	c.NonTrivial()
	return nil
}

func init() {
	pbt.Register("X06", "converter", pbt.Options{
		Rule:  "the built converter with an unusable source, line database or output (missing, a directory, cut short, junk, empty, of an unsupported extension) and one to four outputs, some already there; non-trivial: the source or line database is refused, or another output precedes the unusable one",
		Quick: 3000, Thorough: 100000,
	}, genConvFail, checkConvFail)
	pbt.Register("X06", "lookups", pbt.Options{
		Rule:  "the built server and lookup command with an unusable database or an address taken by another program; non-trivial: the database is refused",
		Quick: 2000, Thorough: 60000,
	}, genLookFail, checkLookFail)
}
