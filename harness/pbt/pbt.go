// Package pbt runs properties: it drives generators with rapid, watches every case for
// crashes, hangs and memory blow-ups, records the (shrunk) failing case as JSON and
// counts what was generated. A saved case can be re-executed without rapid.
package pbt

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Ctx collects what a check observed about one case.
type Ctx struct {
	classes    []string
	nontrivial bool
	dir        string
	base       string
	detail     string
}

// Class labels the case (for the distribution in the evidence file).
func (c *Ctx) Class(format string, a ...any) {
	c.classes = append(c.classes, fmt.Sprintf(format, a...))
}

// NonTrivial marks the case as non-trivial by the property's stated rule.
func (c *Ctx) NonTrivial() { c.nontrivial = true }

// Dir is a scratch directory of this case, removed afterwards.
func (c *Ctx) Dir() string {
	if c.dir == "" {
		d, err := os.MkdirTemp(c.base, "case")
		if err != nil {
			panic(Infra(err))
		}
		c.dir = d
	}
	return c.dir
}

// InfraError is a failure of the harness, never a violation.
type InfraError struct{ Err error }

func (e InfraError) Error() string { return "harness: " + e.Err.Error() }

// Infra wraps an error of the environment.
func Infra(err error) error { return InfraError{err} }

type entry struct {
	id, name string
	weight   int
	rule     string
	gen      func(t *rapid.T) any
	check    func(*Ctx, any) error
	decode   func([]byte) (any, error)
	quick    int
	thorough int
	noshrink bool
}

var entries []*entry

// Options of a registered check.
type Options struct {
	Rule            string // what makes a case non-trivial
	Quick, Thorough int    // total number of cases over all workers
	NoShrink        bool
}

// Register adds one check of property id.
func Register[C any](id, name string, o Options, gen func(t *rapid.T) C, check func(*Ctx, C) error) {
	entries = append(entries, &entry{
		id: id, name: name, rule: o.Rule, quick: o.Quick, thorough: o.Thorough, noshrink: o.NoShrink,
		gen:   func(t *rapid.T) any { return gen(t) },
		check: func(c *Ctx, v any) error { return check(c, v.(C)) },
		decode: func(b []byte) (any, error) {
			var v C
			err := json.Unmarshal(b, &v)
			return v, err
		},
	})
}

// Violationf makes the error a check returns for a violation.
func Violationf(format string, a ...any) error { return fmt.Errorf(format, a...) }

// PanicError is a panic of the code under test.
type PanicError struct {
	Value any
	Stack string
}

func (p *PanicError) Error() string {
	return fmt.Sprintf("panic: %v\n%s", p.Value, p.Stack)
}

// Try runs f and turns a panic into an error.
func Try(f func()) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if ie, ok := r.(InfraError); ok {
				panic(ie)
			}
			err = &PanicError{r, shortStack()}
		}
	}()
	f()
	return nil
}

func shortStack() string {
	lines := strings.Split(string(debug.Stack()), "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "uip") {
			out = append(out, strings.TrimSpace(l))
		}
	}
	if len(out) > 8 {
		out = out[:8]
	}
	return strings.Join(out, "\n")
}

// Result is what a worker reports.
type Result struct {
	Property string                `json:"property"`
	Seed     uint64                `json:"seed"`
	Subs     map[string]*SubResult `json:"subs"`
	Failure  *Failure              `json:"failure,omitempty"`
	Infra    string                `json:"infra,omitempty"`
}

// SubResult counts the cases of one check.
type SubResult struct {
	MaxCPU      float64        `json:"max_cpu"` // CPU seconds of the most costly case
	Evaluations int            `json:"evaluations"`
	NonTrivial  []uint64       `json:"nontrivial"`
	Classes     map[string]int `json:"classes"`
	Samples     []string       `json:"samples"`
	Rule        string         `json:"rule"`
}

// Failure is a replayable failing case.
type Failure struct {
	Property string          `json:"property"`
	Check    string          `json:"check"`
	Kind     string          `json:"kind"` // violation, hang, memory
	Message  string          `json:"message"`
	Case     json.RawMessage `json:"case"`
}

type tb struct {
	failed bool
	log    []string
	name   string
}

func (t *tb) Helper()                   {}
func (t *tb) Name() string              { return t.name }
func (t *tb) Logf(f string, a ...any)   { t.add(fmt.Sprintf(f, a...)) }
func (t *tb) Log(a ...any)              { t.add(fmt.Sprint(a...)) }
func (t *tb) Skipf(f string, a ...any)  { runtime.Goexit() }
func (t *tb) Skip(a ...any)             { runtime.Goexit() }
func (t *tb) SkipNow()                  { runtime.Goexit() }
func (t *tb) Errorf(f string, a ...any) { t.failed = true; t.add(fmt.Sprintf(f, a...)) }
func (t *tb) Error(a ...any)            { t.failed = true; t.add(fmt.Sprint(a...)) }
func (t *tb) Fatalf(f string, a ...any) { t.Errorf(f, a...); runtime.Goexit() }
func (t *tb) Fatal(a ...any)            { t.Error(a...); runtime.Goexit() }
func (t *tb) FailNow()                  { t.failed = true; runtime.Goexit() }
func (t *tb) Fail()                     { t.failed = true }
func (t *tb) Failed() bool              { return t.failed }
func (t *tb) add(s string) {
	if len(t.log) < 50 {
		t.log = append(t.log, s)
	}
}

type runner struct {
	prop    string
	scratch string
	out     string
	cpuCap  float64
	wallCap time.Duration
	memCap  uint64
	result  Result

	mu      sync.Mutex
	cur     *Failure // the case being run
	started time.Time
	cpu0    float64
	lastOff *Failure
}

func cpuNow() float64 {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return float64(ru.Utime.Sec+ru.Stime.Sec) + float64(ru.Utime.Usec+ru.Stime.Usec)/1e6
}

func (r *runner) watch() {
	sample := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for {
		time.Sleep(50 * time.Millisecond)
		metrics.Read(sample)
		heap := sample[0].Value.Uint64()
		r.mu.Lock()
		if r.cur != nil {
			kind := ""
			switch {
			case heap > r.memCap:
				kind = "memory"
			case cpuNow()-r.cpu0 > r.cpuCap:
				kind = "hang"
			case time.Since(r.started) > r.wallCap:
				kind = "hang"
			}
			if kind != "" {
				f := *r.cur
				f.Kind = kind
				f.Message = fmt.Sprintf("%s: heap %d MB, cpu %.0f s, wall %.0f s", kind, heap>>20, cpuNow()-r.cpu0, time.Since(r.started).Seconds())
				r.result.Failure = &f
				r.write()
				os.Exit(4)
			}
		}
		r.mu.Unlock()
	}
}

func (r *runner) write() {
	b, err := json.Marshal(&r.result)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if err := os.WriteFile(r.out, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

// exec runs one case with crash bookkeeping.
func (r *runner) exec(e *entry, c any, raw []byte) (ctx *Ctx, err error) {
	ctx = &Ctx{base: r.scratch}
	if sub := r.result.Subs[e.name]; sub != nil {
		c0 := cpuNow()
		defer func() {
			if d := cpuNow() - c0; d > sub.MaxCPU {
				sub.MaxCPU = d
			}
		}()
	}
	f := &Failure{Property: e.id, Check: e.name, Kind: "crash", Case: raw}
	b, _ := json.Marshal(f)
	if werr := os.WriteFile(filepath.Join(r.scratch, "current.json"), b, 0o644); werr != nil {
		panic(Infra(werr))
	}
	r.mu.Lock()
	r.cur, r.started, r.cpu0 = f, time.Now(), cpuNow()
	r.mu.Unlock()
	defer func() {
		r.mu.Lock()
		r.cur = nil
		r.mu.Unlock()
		if ctx.dir != "" {
			os.RemoveAll(ctx.dir)
		}
		if p := recover(); p != nil {
			if ie, ok := p.(InfraError); ok {
				err = ie
				return
			}
			err = &PanicError{p, shortStack()}
		}
	}()
	return ctx, e.check(ctx, c)
}

func hash(b []byte) uint64 {
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

func (r *runner) run(e *entry, checks int, seed uint64, shrink bool) bool {
	sub := &SubResult{Classes: map[string]int{}, Rule: e.rule}
	r.result.Subs[e.name] = sub
	flag.Set("rapid.checks", fmt.Sprint(checks))
	flag.Set("rapid.seed", fmt.Sprint(seed))
	flag.Set("rapid.nofailfile", "true")
	if shrink && !e.noshrink {
		flag.Set("rapid.shrinktime", "25s")
	} else {
		flag.Set("rapid.shrinktime", "0s")
	}
	seen := map[uint64]bool{}
	var last *Failure
	var infra error
	t := &tb{name: e.id}
	done := make(chan struct{})
	go func() {
		defer close(done)
		rapid.Check(t, func(rt *rapid.T) {
			c := e.gen(rt)
			raw, err := json.Marshal(c)
			if err != nil {
				infra = err
				rt.Fatalf("marshal: %v", err)
			}
			if infra != nil {
				rt.Fatalf("infra")
			}
			ctx, err := r.exec(e, c, raw)
			if ie, ok := err.(InfraError); ok {
				infra = ie
				rt.Fatalf("infra: %v", ie)
			}
			if last == nil {
				sub.Evaluations++
				for _, cl := range ctx.classes {
					sub.Classes[cl]++
				}
				if ctx.nontrivial {
					h := hash(raw)
					if !seen[h] {
						seen[h] = true
						sub.NonTrivial = append(sub.NonTrivial, h)
						if n := len(sub.NonTrivial); n == 1 || n == 10 || n == 100 {
							s := string(raw)
							if len(s) > 1500 {
								s = s[:1500] + "…"
							}
							sub.Samples = append(sub.Samples, s)
						}
					}
				}
			}
			if err != nil {
				last = &Failure{Property: e.id, Check: e.name, Kind: "violation", Message: err.Error(), Case: raw}
				rt.Fatalf("violation")
			}
		})
	}()
	<-done
	if infra != nil {
		r.result.Infra = e.name + ": " + infra.Error()
		return false
	}
	if last != nil {
		r.result.Failure = last
		return false
	}
	if t.failed {
		r.result.Infra = e.name + ": " + strings.Join(t.log, "; ")
		return false
	}
	return true
}

// Main is the entry point of every group binary.
func Main() {
	testing.Init()
	prop := flag.String("prop", "", "property id")
	seed := flag.Uint64("seed", 1, "seed (non-zero)")
	worker := flag.Int("worker", 0, "worker index")
	workers := flag.Int("workers", 1, "number of workers")
	tier := flag.String("tier", "quick", "quick or thorough")
	scale := flag.Float64("scale", 1, "scale the number of cases")
	only := flag.String("check", "", "only this check of the property")
	replay := flag.String("replay", "", "replay a saved case")
	out := flag.String("out", "", "result file")
	scratch := flag.String("scratch", "", "scratch directory")
	list := flag.Bool("list", false, "list checks")
	verbose := flag.Bool("v", false, "keep log output")
	cpuCap := flag.Float64("cpucap", 60, "CPU seconds a case may take")
	memCap := flag.Uint64("memcap", 2500, "live heap MB a case may take")
	flag.Parse()
	if !*verbose {
		log.SetOutput(io.Discard)
	}
	debug.SetGCPercent(200)
	setZone()
	if *list {
		var l []string
		for _, e := range entries {
			l = append(l, e.id+"/"+e.name)
		}
		sort.Strings(l)
		fmt.Println(strings.Join(l, "\n"))
		return
	}
	if *scratch == "" {
		d, err := os.MkdirTemp("", "verif-pbt")
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		defer os.RemoveAll(d)
		*scratch = d
	}
	if *out == "" {
		*out = filepath.Join(*scratch, "result.json")
	}
	r := &runner{prop: *prop, scratch: *scratch, out: *out, cpuCap: *cpuCap, wallCap: 10 * time.Minute, memCap: *memCap << 20,
		result: Result{Property: *prop, Seed: *seed, Subs: map[string]*SubResult{}}}
	go r.watch()
	if *replay != "" {
		os.Exit(r.replay(*replay))
	}
	n := 0
	ok := true
	for i, e := range entries {
		if e.id != *prop || (*only != "" && e.name != *only) {
			continue
		}
		n++
		total := e.quick
		if *tier == "thorough" {
			total = e.thorough
		}
		total = int(float64(total) * *scale)
		checks := total / *workers
		if *worker < total%*workers {
			checks++
		}
		if checks == 0 {
			continue
		}
		s := mix(*seed, uint64(i), uint64(*worker))
		if !r.run(e, checks, s, true) {
			ok = false
			break
		}
	}
	if n == 0 {
		fmt.Fprintln(os.Stderr, "no such property", *prop)
		os.Exit(2)
	}
	for _, f := range atExit {
		f()
	}
	r.write()
	if *verbose || *out == filepath.Join(*scratch, "result.json") {
		for n, s := range r.result.Subs {
			fmt.Println(n, "evaluations", s.Evaluations, "nontrivial", len(s.NonTrivial), "classes", s.Classes)
		}
		if r.result.Failure != nil {
			fmt.Println("FAILURE", r.result.Failure.Check, r.result.Failure.Message, string(r.result.Failure.Case))
		}
		if r.result.Infra != "" {
			fmt.Println("INFRA", r.result.Infra)
		}
	}
	switch {
	case ok:
		os.Exit(0)
	case r.result.Infra != "":
		os.Exit(2)
	default:
		os.Exit(1)
	}
}

func setZone() {
	// far from UTC, where it is another day; the commands are told by TZ
	if time.Now().UTC().Hour() >= 10 {
		time.Local = time.FixedZone("+14", 14*3600)
		os.Setenv("TZ", "Pacific/Kiritimati")
	} else {
		time.Local = time.FixedZone("-12", -12*3600)
		os.Setenv("TZ", "Etc/GMT+12")
	}
}

var atExit []func()

// AtExit registers a cleanup (child processes and the like).
func AtExit(f func()) { atExit = append(atExit, f) }

func (r *runner) replay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var f Failure
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for _, e := range entries {
		if e.id == f.Property && e.name == f.Check {
			c, err := e.decode(f.Case)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				return 2
			}
			var raw []byte = f.Case
			n := 1
			if e.noshrink {
				n = 20 // schedules: give the case several chances
			}
			for i := 0; i < n; i++ {
				_, err = r.exec(e, c, raw)
				if err != nil {
					break
				}
			}
			for _, f := range atExit {
				f()
			}
			if _, ok := err.(InfraError); ok {
				fmt.Fprintln(os.Stderr, err)
				return 2
			}
			if err != nil {
				f.Kind, f.Message = "violation", err.Error()
				r.result.Failure = &f
				r.write()
				fmt.Println("FAIL", err)
				return 1
			}
			r.write()
			fmt.Println("PASS")
			return 0
		}
	}
	fmt.Fprintln(os.Stderr, "no check", f.Property, f.Check)
	return 2
}

func mix(xs ...uint64) uint64 {
	h := uint64(0x9E3779B97F4A7C15)
	for _, x := range xs {
		h ^= x + 0x9E3779B97F4A7C15 + (h << 6) + (h >> 2)
		h ^= h >> 33
		h *= 0xff51afd7ed558ccd
		h ^= h >> 33
		h *= 0xc4ceb9fe1a85ec53
		h ^= h >> 33
	}
	if h == 0 {
		h = 1
	}
	return h
}
