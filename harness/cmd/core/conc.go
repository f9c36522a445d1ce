package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"verif/harness/pbt"
	"verif/harness/uipx"

	"github.com/qiniu/uip/db/convert"
	"github.com/qiniu/uip/db/inf"

	"pgregory.net/rapid"
)

// concJob is a whole conversion of its own data.
type concJob struct {
	Q   seqCase  `json:"q"`
	Out []string `json:"out"`
}

type conversions struct {
	J     []concJob `json:"j"`
	Again int       `json:"again"`           // how often each goroutine does its conversion
	Same  bool      `json:"same"`            // goroutines read the same source bytes
	Files bool      `json:"files,omitempty"` // the sources and outputs are files of one directory
}

func genConversions(t *rapid.T) conversions {
	k := conversions{Again: rapid.IntRange(1, 3).Draw(t, "again"), Same: rapid.Bool().Draw(t, "same"), Files: rapid.IntRange(0, 2).Draw(t, "files") == 0}
	for n := rapid.IntRange(2, 5).Draw(t, "njobs"); n > 0; n-- {
		if len(k.J) > 0 && rapid.IntRange(0, 3).Draw(t, "twin") == 0 {
			j := k.J[rapid.IntRange(0, len(k.J)-1).Draw(t, "of")]
			if rapid.Bool().Draw(t, "otherrule") {
				j.Q.R = genRuleSpec(t, j.Q.S.columns(), j.Q.S.values)
			}
			k.J = append(k.J, j)
			continue
		}
		j := concJob{Q: genSeqCase(t)}
		j.Out = rapid.SliceOfN(rapid.SampledFrom([]string{".scan", ".ipdb", ".memip"}), 1, 3).Draw(t, "out")
		k.J = append(k.J, j)
	}
	return k
}

// run does the conversion and describes everything it gives. With src it reads this file instead
// of the bytes and writes to files called dst.
func (j concJob) run(kind string, b []byte, src, dst string) (out string) {
	dump := dumpBytes
	pack := uipx.Pack
	if src != "" {
		dump = func(kind string, b []byte, rule string) (*inf.IpData, error) {
			f := src
			if b == nil {
				f = dst + kind
			}
			return convert.DumpFile(f, rule, nil)
		}
		pack = func(kind string, d *inf.IpData) ([]byte, error) {
			if err := convert.PackFile(dst+kind, d); err != nil {
				return nil, err
			}
			b, err := os.ReadFile(dst + kind)
			if err != nil {
				return nil, fmt.Errorf("no output: %v", err)
			}
			return b, nil
		}
	}
	var s strings.Builder
	if p := pbt.Try(func() {
		d, err := dump(kind, b, j.Q.R.String())
		if err != nil {
			fmt.Fprintf(&s, "dumping fails")
			return
		}
		for _, o := range j.Q.Ops {
			if err := o.apply(d); err != nil {
				fmt.Fprintf(&s, "%s: %v\n", o.Op, err)
			}
			s.WriteString(snapshot2(d.Fields, d))
		}
		for _, e := range j.Out {
			ob, err := pack(e, d)
			if err != nil {
				fmt.Fprintf(&s, "packing %s fails\n", e)
				continue
			}
			x, err := content(e, ob)
			fmt.Fprintf(&s, "%s %v %s\n", e, err, x)
			if src != "" {
				ob = nil
			}
			if r, err := dump(e, ob, ""); err == nil {
				s.WriteString(snapshot2(r.Fields, r))
				scribbleData(r)
			} else {
				fmt.Fprintf(&s, "reading %s fails\n", e)
			}
		}
		scribbleData(d)
	}); p != nil {
		fmt.Fprintf(&s, "%v", p)
	}
	return s.String()
}

// scribbleData changes everything in the data of a conversion, which belong to the caller.
func scribbleData(d *inf.IpData) {
	for i := range d.Fields {
		d.Fields[i] = "changed"
	}
	for _, r := range d.Ips {
		for i := range r.FieldValues {
			r.FieldValues[i] = "changed"
		}
		for i := range r.Cidr.IP {
			r.Cidr.IP[i] ^= 0x55
		}
		for i := range r.Cidr.Mask {
			r.Cidr.Mask[i] = 0x55
		}
	}
	scribbleVersion(d.Version)
}

func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	from := max(0, i-60)
	return fmt.Sprintf("%.300q instead of %.300q", a[from:], b[from:])
}

func checkConversions(c *pbt.Ctx, k conversions) error {
	type source struct {
		kind string
		b    []byte
	}
	var src []source
	var alone []string
	path := make([]string, len(k.J))
	dst := make([]string, len(k.J))
	for i, j := range k.J {
		kind, b, err := j.Q.S.bytes()
		if err != nil {
			return err
		}
		src = append(src, source{kind, b})
		if k.Files {
			c.Class("files")
			path[i] = filepath.Join(c.Dir(), fmt.Sprint("src", i, kind))
			dst[i] = filepath.Join(c.Dir(), fmt.Sprint("out", i))
			if err := os.WriteFile(path[i], b, 0o600); err != nil {
				return pbt.Infra(err)
			}
		}
		alone = append(alone, j.run(kind, bytes.Clone(b), path[i], dst[i]))
		c.Class("%s", kind)
	}
	// the sources of equal jobs are the very same bytes
	if k.Same {
		for i := range src {
			for n := 0; n < i; n++ {
				if bytes.Equal(src[i].b, src[n].b) {
					src[i] = src[n]
					path[i] = path[n]
					c.Class("shared source")
				}
			}
		}
	}
	was := make([][]byte, len(src))
	for i := range src {
		was[i] = bytes.Clone(src[i].b)
	}
	var wg sync.WaitGroup
	begin := make(chan struct{})
	errs := make([]error, len(k.J))
	for i, j := range k.J {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-begin
			for n := 0; n < k.Again; n++ {
				if got := j.run(src[i].kind, src[i].b, path[i], dst[i]); got != alone[i] {
					errs[i] = fmt.Errorf("conversion %d beside the others gives something else than alone: %s", i, firstDiff(got, alone[i]))
					return
				}
			}
		}()
	}
	close(begin)
	wg.Wait()
	for _, e := range errs {
		if e != nil {
			return pbt.Violationf("%v", e)
		}
	}
	for i := len(k.J) - 1; i >= 0; i-- {
		if !bytes.Equal(was[i], src[i].b) {
			return pbt.Violationf("conversion %d changed the bytes it read", i)
		}
		if k.Files {
			if b, err := os.ReadFile(path[i]); err != nil || !bytes.Equal(b, was[i]) {
				return pbt.Violationf("conversion %d changed the file it read", i)
			}
		}
		if got := k.J[i].run(src[i].kind, src[i].b, path[i], dst[i]); got != alone[i] {
			return pbt.Violationf("conversion %d after the others gives something else than alone: %s", i, firstDiff(got, alone[i]))
		}
	}
	if len(k.J) > 1 {
		c.NonTrivial()
	}
	return nil
}

func init() {
	pbt.Register("C01", "conversions", pbt.Options{
		Rule:  "two to five whole conversions (dump with a random rule, random operations, packing, reading back) of random sources done alone, then at once in as many goroutines, then one after the other, with the race detector, a third of them from and to files of one directory; each must give what it gave alone; non-trivial: two or more conversions",
		Quick: 320, Thorough: 20000, NoShrink: true,
	}, genConversions, checkConversions)
}

func snapshot2(fields []string, d *inf.IpData) string {
	var s strings.Builder
	fmt.Fprintf(&s, "%q\n", fields)
	for _, r := range d.Ips {
		fmt.Fprintf(&s, "%x %x %q\n", []byte(r.Cidr.IP), []byte(r.Cidr.Mask), r.FieldValues)
	}
	return s.String()
}
