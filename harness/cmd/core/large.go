package main

import (
	"fmt"
	"math/bits"
	"net"
	"strings"

	"verif/harness/model"
	"verif/harness/pbt"
	"verif/harness/uipx"

	"github.com/qiniu/uip/db/inf"
	"github.com/qiniu/uip/db/query"
	"pgregory.net/rapid"
)

// vastCase is a table too large to keep in a replay file; everything follows from the numbers.
type vastCase struct {
	V6   bool   `json:"v6,omitempty"`
	N    int    `json:"n"`    // networks
	Size int    `json:"size"` // bytes of one column of each record
	Wide bool   `json:"wide,omitempty"`
	Seed uint64 `json:"seed"`
}

func init() {
	pbt.Register("Q01", "many", pbt.Options{
		Rule:  "tables of some hundred thousand networks, each with a record of its own, more than 16 MB of data in all: every network is answered with its own record; non-trivial: always",
		Quick: 2, Thorough: 16, NoShrink: true,
	}, func(t *rapid.T) vastCase {
		return vastCase{V6: rapid.Bool().Draw(t, "v6"), N: rapid.IntRange(280000, 320000).Draw(t, "n"), Size: rapid.IntRange(30, 60).Draw(t, "size"), Seed: rapid.Uint64().Draw(t, "seed")}
	}, checkVast)
	pbt.Register("Q01", "huge", pbt.Options{
		Rule:  "databases of more than 128 MB, the records of the shortest networks at their end; non-trivial: always",
		Quick: 1, Thorough: 6, NoShrink: true,
	}, func(t *rapid.T) vastCase {
		size := rapid.IntRange(50000, 60000).Draw(t, "size")
		return vastCase{N: 145000000 / size, Size: size, Wide: true, Seed: rapid.Uint64().Draw(t, "seed")}
	}, checkVast)
}

// vastNet gives the i-th network and an address in it. The networks of one table differ in their first 20 bits (IPv4) or 48 bits (IPv6) or are wide ones outside 1.0.0.0/8 .. 126.0.0.0/8.
func (k vastCase) net(i int, r *rnd) (model.Net, model.Addr) {
	if k.Wide && i >= k.N {
		// 128.0.0.0 and on: prefix lengths 2, 3, .. 14
		b := i - k.N + 2
		u := model.U{L: 0xffffffff & (uint64(0xffffffff) << (33 - b))} // b-1 ones
		n := model.Net{U: u, Bits: b}.Canon()
		return n, model.Addr{U: model.U{L: n.U.L | r.next()&(1<<(32-b)-1)}}
	}
	if k.V6 {
		// scattered below 2000::/4 by the reversed number, so that the tree stays broad
		hi := 0x2000<<48 | bits.Reverse64(uint64(i))>>4
		b := 40 + int(r.next()%60)
		n := model.Net{V6: true, U: model.U{H: hi, L: r.next()}, Bits: b}.Canon()
		lo := model.U{H: r.next(), L: r.next()}.And(n.Last().Sub(n.First()))
		return n, model.Addr{V6: true, U: n.U.Or(lo)}
	}
	// 2^20 blocks of /21 each in the lower half
	u := (bits.Reverse64(uint64(i)) >> 44 << 11) & 0x7fffffff
	n := model.Net{U: model.U{L: u | r.next()&0x7ff}, Bits: 21 + int(r.next()%12)}.Canon()
	return n, model.Addr{U: model.U{L: n.U.L | r.next()&n.Last().Sub(n.First()).L}}
}

func (k vastCase) value(i int) string {
	r := rnd(k.Seed ^ uint64(i)<<20)
	return fmt.Sprintf("%x-%x", r.next(), i)
}

// build packs the table; the addresses lie in the networks, of which the wide ones come last.
func (k vastCase) build() ([]byte, []net.IP, []model.Net, error) {
	total := k.N
	if k.Wide {
		total += 13
	}
	typ := 1
	if k.V6 {
		typ = 2
	}
	r := rnd(k.Seed)
	d := &inf.IpData{Fields: []string{"country", "city", "isp"}, Version: uipx.Ver{Type: typ, Text: "vast"}.Info()}
	ask := make([]net.IP, 0, total)
	want := make([]model.Net, 0, total)
	for i := 0; i < total; i++ {
		n, a := k.net(i, &r)
		d.Ips = append(d.Ips, inf.IpRaw{Cidr: n.IPNet(4), FieldValues: []string{"c", k.value(i), strings.Repeat("z", k.Size)}})
		ask = append(ask, a.IP())
		want = append(want, n)
	}
	b, err := uipx.Pack(".ipdb", d)
	if err != nil {
		err = pbt.Violationf("packing fails: %v", err)
	}
	return b, ask, want, err
}

func checkVast(c *pbt.Ctx, k vastCase) error {
	c.NonTrivial()
	b, ask, want, err := k.build()
	if err != nil {
		return err
	}
	c.Class("v6=%v MB=%d", k.V6, len(b)>>23<<3)
	var db *query.Db
	if db, err = uipx.Load(".ipdb", b); err != nil {
		return pbt.Violationf("loading fails: %v", err)
	}
	for i, ip := range ask {
		g, err := uipx.Ask(db, ip)
		if err != nil {
			return pbt.Violationf("network %d, %v: %v", i, want[i], err)
		}
		if !g.OK {
			return pbt.Violationf("%v lies in network %d, %v, but the lookup fails: %s", ip, i, want[i], g.Err)
		}
		if g.Rec.City != k.value(i) || g.Rec.Country != "c" || len(g.Rec.Isp) != k.Size || g.Mask != want[i].Bits {
			return pbt.Violationf("%v lies in network %d, %v: got city %q, %d bytes of isp, prefix length %d, packed %q, %d bytes", ip, i, want[i], g.Rec.City, len(g.Rec.Isp), g.Mask, k.value(i), k.Size)
		}
	}
	return nil
}
