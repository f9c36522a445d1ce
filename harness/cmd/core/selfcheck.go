package main

import (
	"errors"
	"fmt"

	"verif/harness/model"
	"verif/harness/pbt"
	"verif/harness/uipx"

	"github.com/qiniu/uip/db"
	"pgregory.net/rapid"
)

// selfCase is a database around the four addresses the self-checks ask for.
type selfCase struct {
	D    DbCase   `json:"d"`
	Warm []string `json:"warm,omitempty"`
	Ask  []string `json:"ask,omitempty"` // addresses asked for between the checks
}

var selfAddrs = []string{"8.8.8.8", "119.29.29.29", "2001:4860:4860::8888", "2606:4700:4700::1111"}
var selfWant = []string{"美国", "中国", "美国", "美国"}

func genSelf(t *rapid.T) selfCase {
	aw := rapid.Bool().Draw(t, "awdb")
	awV6 := rapid.Bool().Draw(t, "v6tree")
	fields := rapid.SampledFrom([][]string{{"country"}, {"country", "city"}, {"isp", "country", "province"}, {"city"}}).Draw(t, "fields")
	var rows []model.Row
	var set []model.Net
	free := func(n model.Net) bool {
		for _, x := range set {
			if x.V6 == n.V6 && (x.Covers(n) || n.Covers(x)) {
				return false
			}
			if aw && awV6 && x.V6 != n.V6 {
				y, z := x, n
				if !y.V6 {
					y = model.Net{V6: true, U: y.U, Bits: y.Bits + 96}
				}
				if !z.V6 {
					z = model.Net{V6: true, U: z.U, Bits: z.Bits + 96}
				}
				if y.Covers(z) || z.Covers(y) {
					return false
				}
			}
		}
		return true
	}
	value := func(i int) []string {
		var v []string
		for _, f := range fields {
			s := model.GenValue(t, f, model.ValueOpts{})
			if f == "country" {
				s = rapid.SampledFrom([]string{"美国", "中国"}).Draw(t, "c")
				switch rapid.IntRange(0, 7).Draw(t, "ckind") {
				case 0, 1, 2, 3, 4:
					if i >= 0 {
						s = selfWant[i]
					}
				case 5:
					s = rapid.SampledFrom([]string{"", "美", "美国 ", "US", "中國", "中国美国", "CN", "日本"}).Draw(t, "other")
				}
			}
			v = append(v, s)
		}
		return v
	}
	add := func(n model.Net, i int) {
		if n.V6 && aw && !awV6 || !free(n) {
			return
		}
		r := model.Row{N: n.String(), V: value(i)}
		if !n.V6 {
			r.F = 4
		}
		set = append(set, n)
		rows = append(rows, r)
	}
	for i, s := range selfAddrs {
		if !(aw && !awV6 && i == 0) && rapid.IntRange(0, 9).Draw(t, "missing") == 0 {
			continue
		}
		a, _ := model.ParseAddr(s)
		w := model.Width(a.V6)
		lo := 2
		if a.V6 {
			lo = 8 // leaves the other address a network of its own
		}
		bits := w
		if rapid.IntRange(0, 2).Draw(t, "host") > 0 {
			bits = rapid.IntRange(lo, w).Draw(t, "bits")
		}
		add(model.Net{V6: a.V6, U: a.U, Bits: bits}.Canon(), i)
	}
	// neighbours of the addresses
	for n := rapid.IntRange(0, 4).Draw(t, "neighbours"); n > 0; n-- {
		a, _ := model.ParseAddr(rapid.SampledFrom(selfAddrs).Draw(t, "near"))
		w := model.Width(a.V6)
		b := rapid.IntRange(9, w).Draw(t, "flip")
		add(model.Net{V6: a.V6, U: a.U.Xor(model.One.Shl(w - b)), Bits: b}.Canon(), -1)
	}
	k := selfCase{Warm: genWarm(t)}
	for n := rapid.IntRange(0, 2).Draw(t, "nask"); n > 0; n-- {
		k.Ask = append(k.Ask, rapid.SampledFrom(selfAddrs).Draw(t, "ask"))
	}
	if !aw {
		typ := rapid.SampledFrom([]int{1, 2, 3, 3, 3}).Draw(t, "type")
		if typ != 3 {
			kept := rows[:0]
			for _, r := range rows {
				if r.Net().V6 == (typ == 2) {
					kept = append(kept, r)
				}
			}
			rows = kept
		}
		k.D.Ip = &IpdbCase{T: model.Table{Fields: fields, Rows: rows}, Ver: genVer(t, typ)}
		return k
	}
	a := model.Awdb{RecordSize: rapid.SampledFrom([]int{24, 28, 32}).Draw(t, "rs"), V6: awV6, Type: "x"}
	for i, r := range rows {
		v := model.Val{T: "map"}
		for j, f := range fields {
			v.M = append(v.M, model.KV{K: f, V: model.Str(r.V[j])})
		}
		a.Records = append(a.Records, v)
		a.Nets = append(a.Nets, r.N)
		a.Rec = append(a.Rec, i)
	}
	k.D.Aw = &AwdbCase{A: a}
	return k
}

func checkSelf(c *pbt.Ctx, k selfCase) error {
	o, err := k.D.open()
	if err != nil {
		return err
	}
	if k.D.Aw != nil && k.D.Aw.A.V6 {
		if _, _, ok := o.answer(model.Addr{U: model.U{L: 0x08080808}}); !ok {
			c.Class("no 8.8.8.8 in an awdb database")
			return nil
		}
	}
	x, err := uipx.Load(o.kind, o.bytes)
	if err != nil {
		return pbt.Violationf("loading fails: %v", err)
	}
	c.Class("%s", o.kind)
	check := func(name string, f func() error, at int) error {
		var got error
		if p := pbt.Try(func() { got = f() }); p != nil {
			return pbt.Violationf("%s: %v", name, p)
		}
		var wrong, missing bool
		for i := at; i < at+2; i++ {
			a, _ := model.ParseAddr(selfAddrs[i])
			rec, _, ok := o.answer(a)
			missing = missing || !ok
			wrong = wrong || ok && rec.Country != selfWant[i]
		}
		what := fmt.Sprintf("%s gives %v; an address has no record: %v, an address has another country: %v", name, got, missing, wrong)
		if (got == nil) != (!wrong && !missing) {
			return pbt.Violationf("%s", what)
		}
		if got != nil && errors.Is(got, db.ErrCheckFailed) && !wrong || got != nil && !errors.Is(got, db.ErrCheckFailed) && !missing {
			return pbt.Violationf("%s", what)
		}
		c.Class("%s ok=%v missing=%v wrong=%v", name, got == nil, missing, wrong)
		return nil
	}
	for round := 0; round < 2; round++ {
		if err := check("CheckV4", x.CheckV4, 0); err != nil {
			return err
		}
		if err := check("CheckV6", x.CheckV6, 2); err != nil {
			return err
		}
		for _, s := range k.Ask {
			if i, _, err := x.QueryStr(s); err == nil {
				scribble(i)
			}
		}
		if err := intern(x, k.Warm); err != nil {
			return err
		}
	}
	if err := checkAnswers(x, o, true, 40, nil); err != nil {
		return err
	}
	c.NonTrivial()
	return nil
}

func init() {
	pbt.Register("Q10", "selfcheck", pbt.Options{
		Rule:  "ipdb and awdb databases with and without networks (of any size) around the four addresses, with right, other and near-miss countries, and neighbouring networks; both checks before and after lookups and warm-ups, compared with the model; non-trivial: always",
		Quick: 24000, Thorough: 300000,
	}, genSelf, checkSelf)
}
