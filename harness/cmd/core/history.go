package main

import (
	"bytes"
	"fmt"
	"net"
	"reflect"
	"sync"
	"sync/atomic"

	"verif/harness/model"
	"verif/harness/pbt"
	"verif/harness/uipx"

	"github.com/qiniu/uip/db/format/awdb"
	"github.com/qiniu/uip/db/inf"
	"github.com/qiniu/uip/db/query"
	"pgregory.net/rapid"
)

// Steps of a history.
type step struct {
	K string   `json:"k"` // ask asknum asktext warm load bad dump version raw
	D int      `json:"d"`
	A int      `json:"a,omitempty"` // probe
	F int      `json:"f,omitempty"` // bytes of the binary form
	S bool     `json:"s,omitempty"` // scribble over what was returned
	W []string `json:"w,omitempty"`
}

type historyCase struct {
	D     []DbCase `json:"d"`
	Steps []step   `json:"steps"`
}

// addresses of the built-in warm-up list
var warmKnown = []string{"111.192.0.0", "101.80.0.0", "10.0.0.0", "30.0.0.0", "126.0.0.0", "1.62.0.0", "5.88.0.0", "223.102.0.0", "42.91.0.0", "99.224.0.0"}

func genWarm(t *rapid.T) []string {
	var w []string
	for n := rapid.IntRange(0, 6).Draw(t, "nwarm"); n > 0; n-- {
		switch rapid.IntRange(0, 4).Draw(t, "warmkind") {
		case 0:
			w = append(w, rapid.SampledFrom([]string{"", "x", "1.2.3", " 8.8.8.8", "8.8.8.8\r"}).Draw(t, "junk"))
		case 1:
			w = append(w, rapid.SampledFrom(warmKnown).Draw(t, "known"))
		default:
			v6 := rapid.IntRange(0, 2).Draw(t, "v6") == 0
			w = append(w, model.Addr{V6: v6, U: model.GenU(t, "warm", v6, nil)}.String())
		}
	}
	return w
}

func genHistory(t *rapid.T) historyCase {
	var k historyCase
	for n := rapid.IntRange(1, 3).Draw(t, "ndbs"); n > 0; n-- {
		k.D = append(k.D, genDbCase(t, rapid.IntRange(0, 2).Draw(t, "cover") == 0))
	}
	for n := rapid.IntRange(5, 40).Draw(t, "nsteps"); n > 0; n-- {
		s := step{K: rapid.SampledFrom([]string{"ask", "ask", "ask", "ask", "asktext", "asknum", "warm", "warm", "load", "bad", "dump", "version", "raw"}).Draw(t, "op"), D: rapid.IntRange(0, len(k.D)-1).Draw(t, "db")}
		s.A = rapid.IntRange(0, 40).Draw(t, "probe")
		s.S = rapid.Bool().Draw(t, "scribble")
		s.F = rapid.SampledFrom([]int{4, 16}).Draw(t, "form")
		if s.K == "warm" {
			s.W = genWarm(t)
		}
		k.Steps = append(k.Steps, s)
	}
	return k
}

func scribble(i *inf.IpInfo) {
	*i = inf.IpInfo{Country: "SCRIBBLE", Province: "SCRIBBLE", City: "SCRIBBLE", Isp: "SCRIBBLE", Asn: "SCRIBBLE", Continent: "SCRIBBLE", Line: "SCRIBBLE", District: "SCRIBBLE"}
}

func scribbleVersion(v *inf.VersionInfo) {
	for _, l := range [][]string{v.Languages, v.ExtraInfo} {
		for i := range l {
			l[i] = "SCRIBBLE"
		}
	}
	*v = inf.VersionInfo{Version: "SCRIBBLE", Build: -1, Count: 7}
}

func scribbleAny(x any) {
	switch x := x.(type) {
	case []byte:
		for i := range x {
			x[i] = '#'
		}
	case map[string]any:
		for k, v := range x {
			scribbleAny(v)
			x[k] = nil
		}
		x["country"] = "SCRIBBLE"
	case []any:
		for i, v := range x {
			scribbleAny(v)
			x[i] = nil
		}
	}
}

// judge compares one answer with the model's.
func judge(o *opened, a model.Addr, i *inf.IpInfo, mask int, err error) error {
	rec, m, ok := o.answer(a)
	switch {
	case ok && err != nil:
		return fmt.Errorf("%v has the record %+v but the lookup fails: %v", a, rec, err)
	case !ok && err == nil:
		return fmt.Errorf("%v has no record but the lookup answers %+v/%d", a, i, mask)
	case !ok:
		if i != nil {
			return fmt.Errorf("%v has no record but the lookup returns %+v with its error", a, i)
		}
		return nil
	case i == nil:
		return fmt.Errorf("%v: neither record nor error", a)
	}
	if got := uipx.FromInfo(i); got != rec || mask != m {
		return fmt.Errorf("%v: got %+v/%d, stored %+v/%d", a, got, mask, rec, m)
	}
	return nil
}

type loaded struct {
	o      *opened
	db     *query.Db
	r      *awdb.Reader
	asks   []model.Addr
	ver    string
	copies []*query.Db
}

func verText(v *inf.VersionInfo) string { return fmt.Sprintf("%+v", *v) }

func (k DbCase) load() (*loaded, error) {
	o, err := k.open()
	if err != nil {
		return nil, err
	}
	l := &loaded{o: o}
	o.bytes = bytes.Clone(o.bytes)
	if l.db, err = uipx.Load(o.kind, o.bytes); err != nil {
		return nil, pbt.Violationf("loading fails: %v", err)
	}
	if o.kind == ".awdb" {
		if l.r, err = awdb.FromBytes(o.bytes); err != nil {
			return nil, pbt.Violationf("loading fails: %v", err)
		}
	}
	for _, s := range warmKnown {
		l.asks = append(l.asks, model.Addr{U: model.MustNet(s + "/32").U})
	}
	l.asks = append(o.probes(60), l.asks...)
	l.ver = verText(l.db.VersionInfo())
	return l, nil
}

func checkHistory(c *pbt.Ctx, k historyCase) error {
	var ls []*loaded
	for _, d := range k.D {
		l, err := d.load()
		if err != nil {
			return err
		}
		ls = append(ls, l)
	}
	scribbled := false
	for n, s := range k.Steps {
		l := ls[s.D]
		a := l.asks[s.A%len(l.asks)]
		db := l.db
		if len(l.copies) > 0 && s.A%2 == 1 {
			db = l.copies[s.A%len(l.copies)]
		}
		var i *inf.IpInfo
		var m int
		var err, verr error
		where := fmt.Sprintf("step %d (%s)", n, s.K)
		p := pbt.Try(func() {
			switch s.K {
			case "ask":
				ip := a.IP()
				if !a.V6 && s.F == 16 {
					ip = a.IP16()
				}
				was := bytes.Clone(ip)
				i, m, err = db.Query(ip)
				if !bytes.Equal(was, ip) {
					verr = fmt.Errorf("the address asked for was changed from %v to %v", net.IP(was), ip)
				}
				for j := range ip {
					ip[j] = 0x5a
				}
			case "asktext":
				i, m, err = db.QueryStr(a.String())
			case "asknum":
				if a.V6 {
					return
				}
				i, m, err = db.QueryU32(uint32(a.U.L))
			case "warm":
				query.GetIntern(db).BuildCache(s.W)
			case "load":
				if len(l.copies) < 3 {
					var x *query.Db
					if x, verr = query.NewDbFromBytes(l.o.kind, bytes.Clone(l.o.bytes)); verr == nil {
						l.copies = append(l.copies, x)
					}
				}
			case "bad":
				b := bytes.Clone(l.o.bytes[:len(l.o.bytes)/2])
				if _, e := query.NewDbFromBytes(l.o.kind, b); e == nil && l.o.kind == ".ipdb" {
					verr = fmt.Errorf("half a database is loaded")
				}
			case "dump":
				d, e := dumpBytes(l.o.kind, bytes.Clone(l.o.bytes), "")
				if e == nil && s.S {
					for _, r := range d.Ips {
						for j := range r.FieldValues {
							r.FieldValues[j] = "SCRIBBLE"
						}
						for j := range r.Cidr.IP {
							r.Cidr.IP[j] = 0x5a
						}
					}
				}
			case "version":
				v := db.VersionInfo()
				if x := verText(v); x != l.ver {
					verr = fmt.Errorf("the version information was %s and is %s", l.ver, x)
				}
				if s.S {
					scribbleVersion(v)
				}
			case "raw":
				if l.r == nil {
					return
				}
				var x any
				ip := a.IP()
				nw, ok, e := l.r.LookupNetwork(ip, &x)
				_, _, want := l.o.answer(a)
				if want != (ok && e == nil) {
					verr = fmt.Errorf("the reader answers %v with %v, %v, %v", a, nw, ok, e)
				}
				if ok && s.S {
					scribbleAny(x)
					for j := range nw.IP {
						nw.IP[j] = 0x5a
					}
					for j := range nw.Mask {
						nw.Mask[j] = 0x5a
					}
				}
			}
		})
		if p != nil {
			return pbt.Violationf("%s: %v", where, p)
		}
		if verr != nil {
			return pbt.Violationf("%s: %v", where, verr)
		}
		if s.K == "ask" || s.K == "asktext" || s.K == "asknum" && !a.V6 {
			if e := judge(l.o, a, i, m, err); e != nil {
				return pbt.Violationf("%s of %v: %v", where, l.o.kind, e)
			}
			if i != nil && s.S {
				scribble(i)
				scribbled = true
			}
		}
		c.Class("%s", s.K)
	}
	for _, l := range ls {
		for _, db := range append(l.copies, l.db) {
			for _, a := range l.asks {
				i, m, err := db.Query(a.IP())
				if e := judge(l.o, a, i, m, err); e != nil {
					return pbt.Violationf("at the end, %v: %v", l.o.kind, e)
				}
			}
		}
	}
	if scribbled {
		c.NonTrivial()
	}
	return nil
}

// concurrency

type concCase struct {
	D     []DbCase   `json:"d"`
	Warm  [][]string `json:"warm"`
	Roles []role     `json:"roles"`
}

type role struct {
	K      string `json:"k"` // ask text num load dump version raw typed enum
	D      int    `json:"d"`
	Start  int    `json:"start"`
	Stride int    `json:"stride"`
	S      bool   `json:"s"`
}

func genConc(t *rapid.T) concCase {
	var k concCase
	for n := rapid.IntRange(1, 2).Draw(t, "ndbs"); n > 0; n-- {
		k.D = append(k.D, genDbCase(t, rapid.IntRange(0, 2).Draw(t, "cover") == 0))
		k.Warm = append(k.Warm, genWarm(t))
	}
	for n := rapid.IntRange(2, 8).Draw(t, "nroles"); n > 0; n-- {
		k.Roles = append(k.Roles, role{K: rapid.SampledFrom([]string{"ask", "ask", "ask", "text", "num", "load", "dump", "version", "raw", "typed", "enum"}).Draw(t, "role"),
			D: rapid.IntRange(0, len(k.D)-1).Draw(t, "db"), Start: rapid.IntRange(0, 60).Draw(t, "start"), Stride: rapid.IntRange(1, 7).Draw(t, "stride"), S: rapid.Bool().Draw(t, "scribble")})
	}
	return k
}

type typedRec struct {
	Country string            `awdb:"country"`
	Isp     []byte            `awdb:"isp"`
	Rest    map[string]string `awdb:"nothing"`
}

var typesMade atomic.Int64

// newType is a structure type that no one has decoded into.
func newType() reflect.Type {
	text := reflect.TypeOf("")
	return reflect.StructOf([]reflect.StructField{
		{Name: fmt.Sprintf("X%d", typesMade.Add(1)), Type: text, Tag: `awdb:"-"`},
		{Name: "Country", Type: text, Tag: `awdb:"country"`},
		{Name: "Other", Type: text, Tag: `awdb:"no such key"`},
	})
}

func checkConc(c *pbt.Ctx, k concCase) error {
	var ls []*loaded
	for i, d := range k.D {
		l, err := d.load()
		if err != nil {
			return err
		}
		if err := intern(l.db, k.Warm[i]); err != nil {
			return pbt.Violationf("warming up: %v", err)
		}
		ls = append(ls, l)
	}
	// the model is asked beforehand: it is not made for goroutines
	type expected struct {
		rec  uipx.Rec
		mask int
		ok   bool
	}
	want := make([][]expected, len(ls))
	for i, l := range ls {
		for _, a := range l.asks {
			r, m, ok := l.o.answer(a)
			want[i] = append(want[i], expected{r, m, ok})
		}
	}
	var wg sync.WaitGroup
	begin := make(chan struct{})
	errs := make([]error, len(k.Roles))
	for ri, r := range k.Roles {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-begin
			l := ls[r.D]
			judgeAt := func(at int, i *inf.IpInfo, m int, err error) bool {
				w := want[r.D][at]
				got := uipx.Rec{}
				if i != nil {
					got = uipx.FromInfo(i)
				}
				if (err == nil) != w.ok || w.ok && (got != w.rec || m != w.mask) || !w.ok && i != nil {
					errs[ri] = fmt.Errorf("goroutine %d (%s): %v: got %+v/%d, %v, expected %+v", ri, r.K, l.asks[at], got, m, err, w)
					return false
				}
				if i != nil && r.S {
					scribble(i)
				}
				return true
			}
			if p := pbt.Try(func() {
				db := l.db
				switch r.K {
				case "load":
					x, err := query.NewDbFromBytes(l.o.kind, l.o.bytes)
					if err != nil {
						errs[ri] = fmt.Errorf("loading: %v", err)
						return
					}
					db = x
				case "dump":
					dumpBytes(l.o.kind, l.o.bytes, []string{"", "country,isp"}[r.Start%2])
					return
				case "enum":
					if l.r != nil {
						it := l.r.Networks()
						for it.Next() {
							var x any
							it.Network(&x)
						}
						return
					}
				}
				for j := 0; j < 40; j++ {
					at := (r.Start + j*r.Stride) % len(l.asks)
					a := l.asks[at]
					switch {
					case r.K == "text":
						i, m, err := db.QueryStr(a.String())
						if !judgeAt(at, i, m, err) {
							return
						}
					case r.K == "num" && !a.V6:
						i, m, err := db.QueryU32(uint32(a.U.L))
						if !judgeAt(at, i, m, err) {
							return
						}
					case r.K == "version":
						v := db.VersionInfo()
						if x := verText(v); x != l.ver {
							errs[ri] = fmt.Errorf("the version information was %s and is %s", l.ver, x)
							return
						}
						if r.S {
							scribbleVersion(v)
						}
					case r.K == "raw" && l.r != nil:
						var x any
						_, ok, err := l.r.LookupNetwork(a.IP(), &x)
						if want[r.D][at].ok != (ok && err == nil) {
							errs[ri] = fmt.Errorf("the reader answers %v with %v, %v", a, ok, err)
							return
						}
						if ok && r.S {
							scribbleAny(x)
						}
					case r.K == "typed" && l.r != nil:
						var x typedRec
						if off, err := l.r.LookupOffset(a.IP()); err == nil && off != awdb.NotFound {
							_ = l.r.Decode(off, &x)
						}
						if j%8 == 0 {
							v := reflect.New(newType())
							err := l.r.Lookup(a.IP(), v.Interface())
							if v.Elem().Field(2).Len() != 0 || err == nil && want[r.D][at].ok && v.Elem().Field(1).String() != want[r.D][at].rec.Country {
								errs[ri] = fmt.Errorf("the reader fills %v for %v, expected %+v", v.Elem(), a, want[r.D][at])
								return
							}
						}
					default:
						i, m, err := db.Query(a.IP())
						if !judgeAt(at, i, m, err) {
							return
						}
					}
				}
			}); p != nil {
				errs[ri] = p
			}
		}()
		c.Class("%s", r.K)
	}
	close(begin)
	wg.Wait()
	for _, e := range errs {
		if e != nil {
			return pbt.Violationf("%v", e)
		}
	}
	same := map[int]int{}
	for _, r := range k.Roles {
		same[r.D]++
	}
	for _, n := range same {
		if n > 1 {
			c.NonTrivial()
		}
	}
	return nil
}

func init() {
	pbt.Register("Q04", "history", pbt.Options{
		Rule:  "up to three ipdb and awdb databases and 5 to 40 steps: lookups in all forms, warm-ups with any list, further loads of the same bytes, failing loads, dumps, version queries and reader lookups, with returned records, networks and dumped rows overwritten; every answer and, at the end, all answers of all databases are compared with the model; non-trivial: an answered record was overwritten",
		Quick: 3500, Thorough: 150000,
	}, genHistory, checkHistory)
	pbt.Register("Q04", "long", pbt.Options{
		Rule:  "a database with hundreds to thousands of networks, warmed up with up to a thousand addresses, then tens of thousands of lookups in all forms (runs of random addresses, of ones without a record, of one again and again, of all in order, of texts that are none) by one to six goroutines, some of them overwriting the records; every answer is compared with the model; run with the race detector; non-trivial: always",
		Quick: 16, Thorough: 400, NoShrink: true,
	}, func(t *rapid.T) longCase {
		return longCase{B: bigAwdb{V6: rapid.Bool().Draw(t, "v6"), RS: rapid.SampledFrom([]int{0, 0, 24, 28, 32}).Draw(t, "rs"), N: rapid.SampledFrom([]int{100, 500, 3000}).Draw(t, "n"), Seed: rapid.Uint64().Draw(t, "seed")},
			Warm: rapid.SampledFrom([]int{0, 50, 1000}).Draw(t, "warm"), Goroutines: rapid.SampledFrom([]int{1, 1, 2, 6}).Draw(t, "goroutines"), Lookups: rapid.SampledFrom([]int{10000, 70000}).Draw(t, "lookups")}
	}, checkLong)
	pbt.Register("Q04", "concurrent", pbt.Options{
		Rule:  "two to eight goroutines released at once on one or two freshly loaded databases: lookups in all forms with the records overwritten, loads, dumps, version queries, reader lookups, typed decoding, enumerations; run with the race detector, every answer compared with the model; non-trivial: several goroutines on one database",
		Quick: 2500, Thorough: 100000, NoShrink: true,
	}, genConc, checkConc)
}

// longCase is a great number of lookups.
type longCase struct {
	B          bigAwdb `json:"b"`
	Warm       int     `json:"warm"`
	Goroutines int     `json:"goroutines"`
	Lookups    int     `json:"lookups"` // in all; in awdb databases a third of it
	Rude       bool    `json:"rude,omitempty"`
}

// phases is a long sequence of lookups in which runs of different kinds follow one another.
type phases struct {
	r         rnd
	all       int
	hit, miss []int
	n, mode   int
	one       int
}

func newPhases(seed uint64, all int, ok func(i int) bool) *phases {
	p := &phases{r: rnd(seed), all: all}
	for i := 0; i < all; i++ {
		if ok(i) {
			p.hit = append(p.hit, i)
		} else {
			p.miss = append(p.miss, i)
		}
	}
	return p
}

// next gives the number of the next address, or -1 and a text that is none.
func (p *phases) next() (int, string) {
	if p.n%1500 == 0 {
		p.mode = int(p.r.next() % 9)
		p.one = int(p.r.next() % uint64(p.all))
	}
	p.n++
	of := func(l []int) int {
		if len(l) == 0 {
			return p.one
		}
		return l[p.r.next()%uint64(len(l))]
	}
	switch p.mode {
	case 0:
		return of(p.miss), ""
	case 1:
		return of(p.hit), ""
	case 2: // one again and again, now and then another
		if p.n%100 == 0 {
			return int(p.r.next() % uint64(p.all)), ""
		}
		return p.one, ""
	case 3:
		p.one = (p.one + 1) % p.all
		return p.one, ""
	case 4:
		if p.r.next()%4 > 0 {
			return -1, fmt.Sprintf("no%d.address", p.r.next()%5000)
		}
	}
	at := int(p.r.next() % uint64(p.all))
	if p.n%3 == 0 {
		at %= 20 // some are asked again and again
	}
	return at, ""
}

func checkLong(c *pbt.Ctx, k longCase) error {
	c.NonTrivial()
	d := k.B.awdb()
	if k.B.RS == 0 {
		d = k.B.ipdb()
	} else {
		k.Lookups /= 3
	}
	o, err := d.open()
	if err != nil {
		return err
	}
	c.Class("%s goroutines=%d", o.kind, k.Goroutines)
	db, err := uipx.Load(o.kind, o.bytes)
	if err != nil {
		return pbt.Violationf("loading fails: %v", err)
	}
	asks := o.probes(4000)
	type expected struct {
		rec  uipx.Rec
		mask int
		ok   bool
		ip   net.IP
		text string
	}
	want := make([]expected, len(asks))
	for i, a := range asks {
		rec, mask, ok := o.answer(a)
		want[i] = expected{rec, mask, ok, a.IP(), a.String()}
	}
	r := rnd(k.B.Seed)
	var warm []string
	for len(warm) < k.Warm {
		warm = append(warm, want[r.next()%uint64(len(want))].text)
	}
	if err := intern(db, warm); err != nil {
		return pbt.Violationf("warming up: %v", err)
	}
	var wg sync.WaitGroup
	errs := make([]error, k.Goroutines)
	for g := 0; g < k.Goroutines; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			ph := newPhases(k.B.Seed+uint64(g)*77, len(want), func(i int) bool { return want[i].ok })
			for n := 0; n < k.Lookups/k.Goroutines; n++ {
				at, junk := ph.next()
				if at < 0 {
					var err error
					if p := pbt.Try(func() { _, _, err = db.QueryStr(junk) }); p != nil {
						errs[g] = p
						return
					}
					if err == nil {
						errs[g] = pbt.Violationf("goroutine %d, lookup %d, %q: no error", g, n, junk)
						return
					}
					continue
				}
				w := &want[at]
				var i *inf.IpInfo
				var m int
				var err error
				if p := pbt.Try(func() {
					switch {
					case n%7 == 0:
						i, m, err = db.QueryStr(w.text)
					case n%7 == 1 && !asks[at].V6:
						i, m, err = db.QueryU32(uint32(asks[at].U.L))
					default:
						i, m, err = db.Query(w.ip)
					}
				}); p != nil {
					errs[g] = p
					return
				}
				if (err == nil) != w.ok || w.ok && (i == nil || uipx.FromInfo(i) != w.rec || m != w.mask) || !w.ok && i != nil {
					errs[g] = pbt.Violationf("goroutine %d, lookup %d, %v: got %+v/%d, %v, expected %+v/%d, %v", g, n, asks[at], i, m, err, w.rec, w.mask, w.ok)
					return
				}
				if i != nil && n%5 == 0 {
					scribble(i)
				}
			}
		}()
	}
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			return pbt.Violationf("%v", err)
		}
	}
	return nil
}
