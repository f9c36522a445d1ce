package main

import (
	"strings"

	"verif/harness/model"
	"verif/harness/pbt"
	"verif/harness/uipx"

	"pgregory.net/rapid"
)

func init() {
	pbt.Register("Q01", "lookup", pbt.Options{
		Rule:  "random disjoint networks (either family or both), columns and values are packed to ipdb and loaded; non-trivial: at least 2 rows, at least one address answered, and (unless the rows cover everything) at least one refused; distinct by case",
		Quick: 16000, Thorough: 300000,
	}, func(t *rapid.T) IpdbCase {
		v4, v6 := genFam(t)
		return genIpdbCase(t, v4, v6, false)
	}, checkQ01)
	pbt.Register("Q01", "refused-values", pbt.Options{
		Rule:  "tables in which one value holds a TAB or makes its record longer than 65535 bytes must be refused or answered exactly; non-trivial: such a value is present",
		Quick: 480, Thorough: 4000,
	}, func(t *rapid.T) bigCase {
		c := genIpdbCase(t, true, false, false)
		if len(c.T.Rows) == 0 {
			c.T.Rows = []model.Row{{N: "1.0.0.0/8", F: 4, V: make([]string, len(c.T.Fields))}}
		}
		return bigCase{c, rapid.IntRange(0, len(c.T.Rows)-1).Draw(t, "row"), rapid.IntRange(0, len(c.T.Fields)-1).Draw(t, "col"),
			rapid.SampledFrom([]int{-1, 65535, 65536, 65534, 66000, 131072, 65536 + 20}).Draw(t, "len")}
	}, checkBig)
}

func checkQ01(c *pbt.Ctx, k IpdbCase) error {
	b, err := uipx.Pack(".ipdb", uipx.Data(k.T, k.Ver))
	if err != nil {
		return pbt.Violationf("packing fails: %v", err)
	}
	return verifyIpdb(c, k, b, false)
}

func verifyIpdb(c *pbt.Ctx, k IpdbCase, b []byte, masks bool) error {
	db, err := uipx.Load(".ipdb", b)
	if err != nil {
		return pbt.Violationf("loading fails: %v", err)
	}
	set := model.NewSet(k.T.Rows)
	hits, miss := 0, 0
	lens := map[int]bool{}
	for _, a := range model.Probes(nets(k.T.Rows), model.ParseExtra(k.Extra), true, true, 200) {
		got, err := uipx.Ask(db, a.IP())
		if err != nil {
			return err
		}
		i, n, ok := set.Find(a)
		if a.V6 && k.Ver.Type&2 == 0 || !a.V6 && k.Ver.Type&1 == 0 {
			ok = false
		}
		if ok {
			want := uipx.Expect(k.T.Fields, k.T.Rows[i].V)
			if !got.OK {
				return pbt.Violationf("%v lies in %v but the lookup fails: %s", a, n, got.Err)
			}
			if got.Rec != want {
				return pbt.Violationf("%v lies in %v: got %+v, packed %+v", a, n, got.Rec, want)
			}
			hits++
			if masks {
				m := n.Bits
				if n.V6 && m == 0 {
					m = 1 // documented: the whole IPv6 space is stored as two halves
				}
				if got.Mask != m {
					return pbt.Violationf("%v is stored under %v but prefix length %d is reported", a, n, got.Mask)
				}
				lens[m] = true
			}
		} else {
			if got.OK {
				return pbt.Violationf("no network holds %v but the lookup answers %+v/%d", a, got.Rec, got.Mask)
			}
			miss++
		}
	}
	if hits > 0 {
		c.Class("hit")
	}
	if miss > 0 {
		c.Class("miss")
	}
	c.Class("type%d", k.Ver.Type)
	if masks {
		if len(lens) >= 2 {
			c.NonTrivial()
		}
	} else if len(k.T.Rows) >= 2 && hits > 0 {
		c.NonTrivial()
	}
	return nil
}

type bigCase struct {
	C   IpdbCase `json:"c"`
	Row int      `json:"row"`
	Col int      `json:"col"`
	Len int      `json:"len"` // -1: a TAB; otherwise the length of the record in bytes
}

func checkBig(c *pbt.Ctx, k bigCase) error {
	t := k.C.T
	v := append([]string{}, t.Rows[k.Row].V...)
	if k.Len < 0 {
		v[k.Col] = "a\tb"
	} else {
		v[k.Col] = ""
		n := len(strings.Join(v, "\t"))
		if n > k.Len {
			return nil
		}
		v[k.Col] = strings.Repeat("x", k.Len-n)
	}
	t.Rows = append([]model.Row{}, t.Rows...)
	t.Rows[k.Row].V = v
	k.C.T = t
	c.NonTrivial()
	b, err := uipx.Pack(".ipdb", uipx.Data(t, k.C.Ver))
	if err != nil {
		if pe := (*pbt.PanicError)(nil); asPanic(err, &pe) {
			return err
		}
		if k.Len >= 0 && k.Len <= 65535 {
			return pbt.Violationf("record of %d bytes is refused: %v", k.Len, err)
		}
		c.Class("refused")
		return nil
	}
	c.Class("accepted")
	return verifyIpdb(c, k.C, b, false)
}
