package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"verif/harness/model"
	"verif/harness/pbt"
	"verif/harness/uipx"

	"github.com/qiniu/uip/db/inf"
	"pgregory.net/rapid"
)

// The commands of the repository, built by check.py and run as processes.

type runResult struct {
	code           int
	stdout, stderr string
}

// runCmd runs a built command; a hang is a violation, trouble starting it is not.
func runCmd(name string, args ...string) (runResult, error) { return runCmdIn("", name, args...) }

// runCmdIn runs it in a directory.
func runCmdIn(dir, name string, args ...string) (runResult, error) {
	exe := os.Getenv("VERIF_CMD_" + strings.ToUpper(name))
	if exe == "" {
		return runResult{}, pbt.Infra(fmt.Errorf("the command %s was not built", name))
	}
	ctx, cancel := context.WithTimeout(context.Background(), 150*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, exe, args...)
	cmd.Dir = dir
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	err := cmd.Run()
	r := runResult{stdout: so.String(), stderr: se.String()}
	if cmd.ProcessState == nil {
		return r, pbt.Infra(err)
	}
	if ctx.Err() != nil {
		if cpu := cmd.ProcessState.UserTime() + cmd.ProcessState.SystemTime(); cpu > 30*time.Second {
			return r, pbt.Violationf("%s %q does not end within %v of CPU time", name, args, cpu)
		}
		return r, pbt.Infra(fmt.Errorf("%s: %v", name, ctx.Err()))
	}
	r.code = cmd.ProcessState.ExitCode()
	if r.code == 2 && strings.Contains(r.stderr, "goroutine ") || r.code < 0 {
		return r, pbt.Violationf("%s %q crashes (%d): %.1500s", name, args, r.code, r.stderr)
	}
	return r, nil
}

// convCase is one run of the converter.
type convCase struct {
	S       srcCase  `json:"s"`
	R       ruleSpec `json:"r"`
	Default bool     `json:"default"` // the default rule, not naming one
	Line    *DbCase  `json:"line,omitempty"`
	Replace bool     `json:"replace"`
	Out     []string `json:"out"`
	Names   []string `json:"names,omitempty"` // of source, line database and outputs, "" for plain ones
	Rel     string   `json:"rel,omitempty"`   // how the files are named: "" absolutely, otherwise by this and the name
	Old     bool     `json:"old,omitempty"`   // the outputs exist and are longer
	Twice   bool     `json:"twice,omitempty"` // the first output is also the last
	Onto    int      `json:"onto,omitempty"`  // 1: an output of its format replaces the source, 2: the line database
}

// name of a file among the i-th of the run.
func (k convCase) name(i int, plain string) string {
	if i < len(k.Names) && k.Names[i] != "" {
		return fmt.Sprintf("%s%d", k.Names[i], i)
	}
	return plain
}

func genConv(t *rapid.T) convCase {
	k := convCase{S: genSrc(t), Default: rapid.IntRange(0, 2).Draw(t, "defaultrule") == 0}
	if rapid.IntRange(0, 7).Draw(t, "memip") == 0 {
		// with a rule that names all its columns as they are
		m := genMemipText(t)
		for i := range m.R {
			for j := i; j > 0; j-- {
				a, _ := model.ParseAddr(m.R[j-1][0])
				b, _ := model.ParseAddr(m.R[j][0])
				if !b.U.Less(a.U) {
					break
				}
				m.R[j], m.R[j-1] = m.R[j-1], m.R[j]
				m.V[j], m.V[j-1] = m.V[j-1], m.V[j]
			}
		}
		if len(m.R) > 0 {
			k = convCase{S: srcCase{Mem: &m}}
			if rapid.Bool().Draw(t, "named") {
				k.R = ruleSpec{Cols: memipCols}
			}
		}
	} else if !k.Default {
		k.R = genRuleSpec(t, k.S.columns(), k.S.values)
	}
	if rapid.IntRange(0, 2).Draw(t, "withline") > 0 {
		d := genDbCase(t, rapid.Bool().Draw(t, "coverline"))
		k.Line = &d
	}
	k.Replace = rapid.Bool().Draw(t, "replace")
	n := rapid.IntRange(1, 4).Draw(t, "nout")
	for i := 0; i < n; i++ {
		k.Out = append(k.Out, rapid.SampledFrom([]string{".scan", ".ipdb", ".memip"}).Draw(t, "out"))
	}
	if rapid.IntRange(0, 2).Draw(t, "about files") == 0 {
		k.Rel = rapid.SampledFrom([]string{"", "", "./", "../work/", "sub dir/../"}).Draw(t, "rel")
		k.Old = rapid.Bool().Draw(t, "old")
		k.Twice = rapid.IntRange(0, 3).Draw(t, "twice") == 0
		k.Onto = rapid.IntRange(0, 2).Draw(t, "onto")
	}
	if rapid.IntRange(0, 3).Draw(t, "named files") == 0 {
		for i := 0; i < n+2; i++ {
			k.Names = append(k.Names, rapid.SampledFrom([]string{"", "my ips ", " ", "地址", "a.scan", "x.ipdb.old", "-o", "a=b;c", "sub dir/out", "%d", "a|b", "'\"", "#"}).Draw(t, "name"))
		}
	}
	return k
}

var defaultRule = ruleSpec{Cols: []string{"country", "province", "city", "isp", "asn", "continent", "district"}, Groups: []filterGroup{
	{Key: "country", Not: true, Vals: []string{"中国"}, Keep: []string{"country", "continent"}},
	{Key: "province", Vals: []string{"台湾", "中国台湾"}, Keep: []string{"country", "province", "continent", "district"}}}}

// rows gives the networks of the source, ascending, with all columns.
func (s srcCase) rows() []model.Net {
	if s.Mem != nil {
		return nets(s.Mem.table().Rows)
	}
	if s.D.Ip != nil {
		return model.NewSet(s.D.Ip.T.Rows).Nets
	}
	return s.D.Aw.tree().Nets
}

// version the source is described by.
func (s srcCase) version(kind string, b []byte) (*inf.VersionInfo, error) {
	if s.Mem != nil {
		v := &inf.VersionInfo{IpType: inf.IpV4}
		if s.Mem.V6 {
			v.IpType = inf.IpV6
		}
		return v, nil
	}
	if s.Scan {
		return s.D.Ip.Ver.Info(), nil
	}
	db, err := uipx.Load(kind, b)
	if err != nil {
		return nil, pbt.Violationf("loading the source fails: %v", err)
	}
	return db.VersionInfo(), nil
}

// withColumn is t with an empty column.
func withEmpty(t model.Table, f string) model.Table {
	out := model.Table{Fields: append([]string{}, t.Fields...)}
	j := model.Col(t.Fields, f)
	if j < 0 {
		out.Fields = append(out.Fields, f)
	}
	for _, r := range t.Rows {
		v := append([]string{}, r.V...)
		if j < 0 {
			v = append(v, "")
		} else {
			v[j] = ""
		}
		out.Rows = append(out.Rows, model.Row{N: r.N, F: r.F, V: v})
	}
	return out
}

// pipeline is the model of a conversion: the tables that are right (without the columns an
// operation looks at, its own column may be absent or empty).
func pipeline(t model.Table, replace bool, lines model.Lines) (out []model.Table, ok bool) {
	t = model.Normalise(t, builtin)
	if t, ok = model.Trim(t); !ok {
		return nil, false
	}
	t = model.Merge(t)
	stage := []model.Table{t}
	if lines != nil {
		if replace {
			stage[0] = model.ReplaceLine(t, lines)
		} else {
			stage[0] = model.AttachLine(t, lines)
			if !has(t.Fields, "country") {
				stage = append(stage, withEmpty(t, "line"))
			}
		}
	}
	for _, s := range stage {
		out = append(out, model.AttachDistrict(s))
		if !has(s.Fields, "province") && !has(s.Fields, "district") {
			out = append(out, withEmpty(s, "district"))
		}
	}
	return out, true
}

func memipOutput(t model.Table, v6 bool) string {
	var s strings.Builder
	for _, r := range joined(t) {
		if v6 {
			fmt.Fprintf(&s, "%v %v", model.Addr{V6: true, U: r.a}, model.Addr{V6: true, U: r.b})
		} else {
			fmt.Fprintf(&s, "%d %d", r.a.L, r.b.L)
		}
		s.WriteString(" " + strings.Join(r.v[:], "-") + "\n")
	}
	return s.String()
}

func checkX01(c *pbt.Ctx, k convCase) error {
	kind, b, err := k.S.bytes()
	if err != nil {
		return err
	}
	c.Class("%s", kind)
	dir := filepath.Join(c.Dir(), "work")
	if err := os.MkdirAll(filepath.Join(dir, "sub dir"), 0o700); err != nil {
		return pbt.Infra(err)
	}
	written := func(f string) string { // the name as given to the command
		if k.Rel == "" {
			return f
		}
		return k.Rel + strings.TrimPrefix(f, dir+"/")
	}
	have := map[string][]byte{}
	in := filepath.Join(dir, k.name(0, "source")+kind)
	have[in] = b
	if err := os.WriteFile(in, b, 0o600); err != nil {
		return pbt.Infra(err)
	}
	ver, err := k.S.version(kind, b)
	if err != nil {
		return err
	}
	args := []string{"-i", written(in)}
	spec, known := k.R, k.S.columns()
	if k.Default {
		spec = defaultRule
		c.Class("default rule")
	} else {
		if strings.Contains(k.R.String(), "\x00") {
			return nil
		}
		args = append(args, "-r", k.R.String())
	}
	// the model
	t := model.Table{Fields: spec.Cols}
	if len(spec.Cols) == 0 {
		t.Fields = known
	}
	if len(t.Fields) == 0 {
		return nil
	}
	var set *model.Set
	if k.S.D.Ip != nil {
		set = model.NewSet(k.S.D.Ip.T.Rows)
	} else if k.S.Mem != nil {
		set = model.NewSet(k.S.Mem.table().Rows)
	}
	nn := k.S.rows()
	for _, n := range nn {
		m, ok := k.S.record(set, model.Addr{V6: n.V6, U: n.U})
		if !ok {
			return pbt.Infra(fmt.Errorf("no record for %v", n))
		}
		v, _ := spec.row(nil, known, m)
		t.Rows = append(t.Rows, model.Row{N: n.String(), V: v})
	}
	var lines model.Lines
	lineFile := ""
	extra := append([]string{}, ver.ExtraInfo...)
	if k.Line != nil {
		o, err := k.Line.open()
		if err != nil {
			return err
		}
		f := filepath.Join(dir, k.name(1, "line")+o.kind)
		if err := os.WriteFile(f, o.bytes, 0o600); err != nil {
			return pbt.Infra(err)
		}
		args = append(args, "-line", written(f))
		have[f], lineFile = o.bytes, f
		db, err := uipx.Load(o.kind, o.bytes)
		if err != nil {
			return pbt.Violationf("loading the line database fails: %v", err)
		}
		extra = append(extra, fmt.Sprintf("%s-%d", db.VersionInfo().Version, db.VersionInfo().Build))
		lines = func(n model.Net) string {
			rec, _, ok := o.answer(model.Addr{V6: n.V6, U: n.U})
			if !ok {
				return ""
			}
			return rec.Line
		}
		c.Class("line %s replace=%v", o.kind, k.Replace)
	}
	if k.Replace {
		args = append(args, "-line-replace")
	}
	wants, ok := pipeline(t, k.Replace, lines)
	if !ok {
		c.Class("ambiguous ISP")
		return nil
	}
	for _, w := range wants {
		for _, r := range w.Rows {
			n := 0
			for _, v := range r.V {
				n += len(v) + 1
			}
			if n > 65000 {
				c.Class("record beyond the format")
				return nil
			}
		}
	}
	var outs, outArgs []string
	for i, e := range k.Out {
		f := filepath.Join(dir, k.name(i+2, fmt.Sprintf("out%d", i))+e)
		switch {
		case k.Onto == 1 && e == kind:
			f, k.Onto = in, 0
			c.Class("onto the source")
		case k.Onto == 2 && e == filepath.Ext(lineFile):
			f, k.Onto = lineFile, 0
			c.Class("onto the line database")
		case k.Old:
			if err := os.WriteFile(f, bytes.Repeat([]byte("1.0.0.0/8 an older file\n"), 4000), 0o600); err != nil {
				return pbt.Infra(err)
			}
		}
		outs, outArgs = append(outs, f), append(outArgs, written(f))
	}
	if k.Twice {
		outArgs = append(outArgs, outArgs[0])
	}
	args = append(args, "-o", strings.Join(outArgs, ","))
	r, err := runCmdIn(dir, "converter", args...)
	if err != nil {
		return err
	}
	for _, f := range outs {
		have[f] = nil
	}
	if err := filepath.WalkDir(dir, func(f string, d os.DirEntry, err error) error {
		if err != nil || d.IsDir() {
			return err
		}
		before, mine := have[f]
		if !mine {
			return pbt.Violationf("converter %q leaves a file %q", args, f)
		}
		if b, err := os.ReadFile(f); before != nil && (err != nil || !bytes.Equal(b, before)) {
			return pbt.Violationf("converter %q changes the file %q, which it reads", args, f)
		}
		return nil
	}); err != nil {
		return err
	}
	for i, f := range outs {
		got, err := os.ReadFile(f)
		if err != nil {
			return pbt.Violationf("converter %q: output %d is not written: %v; %.600s", args, i, err, r.stderr)
		}
		var why error
		for _, want := range wants {
			if why = k.sameOutput(k.Out[i], got, want, ver, extra); why == nil {
				break
			}
		}
		if why != nil {
			return pbt.Violationf("converter %q: output %d (%s): %v", args, i, k.Out[i], why)
		}
	}
	c.Class("%d outputs", len(outs))
	if len(outs) > 1 && len(wants[0].Rows) > 1 {
		c.NonTrivial()
	}
	return nil
}

func (k convCase) sameOutput(kind string, b []byte, want model.Table, ver *inf.VersionInfo, extra []string) error {
	v6 := k.S.v6()
	switch kind {
	case ".memip":
		for _, r := range joined(want) {
			if v6 && (model.InMapped(r.a) || model.InMapped(r.b)) { // no IPv6 text of its own
				return nil
			}
		}
		exp := memipOutput(want, v6)
		if exp == string(b) {
			return nil
		}
		if g, err := parseMemip(b, v6); err == nil {
			if e, err := parseMemip([]byte(exp), v6); err == nil && fmt.Sprint(g) == fmt.Sprint(e) {
				return nil
			}
		}
		return fmt.Errorf("%.800q, expected %.800q", b, exp)
	case ".scan":
		d, err := dumpBytes(kind, b, "")
		if err != nil {
			return fmt.Errorf("reading fails: %v", err)
		}
		x := model.Table{Fields: want.Fields}
		for _, r := range want.Rows {
			v := make([]string, len(r.V))
			for i := range v {
				v[i] = strings.ReplaceAll(r.V[i], ",", "_")
			}
			x.Rows = append(x.Rows, model.Row{N: r.N, V: v})
		}
		if err := sameTable(d, x); err != nil {
			return err
		}
		if d.Version.Version != ver.Version && k.S.Mem == nil || d.Version.IpType != ver.IpType || !sameStrings(d.Version.ExtraInfo, extra) {
			return fmt.Errorf("version information %v, expected that of the source (%v) and extra information %q", d.Version, ver, extra)
		}
		return nil
	}
	db, err := uipx.Load(kind, b)
	if err != nil {
		return fmt.Errorf("loading fails: %v", err)
	}
	if v := db.VersionInfo(); ver.Version != "" && v.Version != ver.Version || v.IpType != ver.IpType || !sameStrings(v.ExtraInfo, extra) {
		return fmt.Errorf("version information %v, expected that of the source (%v) and extra information %q", v, ver, extra)
	}
	set := model.NewSet(want.Rows)
	for _, a := range model.Probes(nets(want.Rows), nil, !v6, v6, 60) {
		if a.V6 != v6 {
			continue
		}
		got, err := uipx.Ask(db, a.IP())
		if err != nil {
			return err
		}
		i, _, ok := set.Find(a)
		if ok != got.OK {
			return fmt.Errorf("%v answered: %v (%s), expected: %v", a, got.OK, got.Err, ok)
		}
		if ok {
			if w := uipx.Expect(want.Fields, want.Rows[i].V); got.Rec != w {
				return fmt.Errorf("%v has %+v, expected %+v", a, got.Rec, w)
			}
		}
	}
	return nil
}

func init() {
	pbt.Register("X01", "converter", pbt.Options{
		Rule:  "the built converter run on random ipdb, awdb, scan and memip sources with the default or a random rule, with or without a line database and in both modes, writing one to four outputs, some onto older files, the source or the line database; every output is compared with the model of the pipeline; non-trivial: several outputs and several rows",
		Quick: 16000, Thorough: 300000,
	}, genConv, checkX01)
}
