package main

import (
	"bytes"
	"fmt"
	"math/big"
	"net"
	"sort"

	"verif/harness/model"
	"verif/harness/pbt"

	"github.com/qiniu/uip/ipnet"
	"pgregory.net/rapid"
)

// Addresses of one case belong to one family; IPv4 ones are handed over in 4-byte or
// 16-byte form, and everything is judged in the 128-bit space.
type addr struct {
	A string `json:"a"`
	F int    `json:"f"` // 4 or 16
}

func (x addr) ip() net.IP {
	a := x.model()
	if !a.V6 && x.F == 16 {
		return a.IP16()
	}
	return a.IP()
}
func (x addr) model() model.Addr {
	if x.F == 0 {
		return model.Addr{V6: true, U: model.ParseAddr6(x.A)}
	}
	a, ok := model.ParseAddr(x.A)
	if !ok {
		panic("bad address " + x.A)
	}
	return a
}

// u is the position in the 128-bit space.
func (x addr) u() model.U { return wide(x.model()) }

func wide(a model.Addr) model.U {
	if a.V6 {
		return a.U
	}
	return model.MappedBase.Or(a.U)
}

func raw(ip net.IP) (model.U, bool) {
	if len(ip) == 4 {
		a, _ := model.FromBytes(ip)
		return wide(a), true
	}
	if len(ip) != 16 {
		return model.U{}, false
	}
	var u model.U
	for i := 0; i < 8; i++ {
		u.H = u.H<<8 | uint64(ip[i])
		u.L = u.L<<8 | uint64(ip[8+i])
	}
	return u, true
}

func genForm(t *rapid.T, v6 bool) int {
	if v6 {
		return 0
	}
	return rapid.SampledFrom([]int{4, 16}).Draw(t, "form")
}

func mk(v6 bool, form int, u model.U) addr {
	return addr{model.Addr{V6: v6, U: u}.String(), form}
}

type rng struct {
	S addr `json:"s"`
	E addr `json:"e"`
}

func (r rng) lib() *ipnet.Range { return &ipnet.Range{Start: r.S.ip(), End: r.E.ip()} }

func genRange(t *rapid.T, v6 bool, near []model.U) (model.U, model.U) {
	max := model.Max(v6)
	switch rapid.IntRange(0, 7).Draw(t, "rangekind") {
	case 0: // a network
		a := model.GenU(t, "net", v6, near)
		n := model.Net{V6: v6, U: a, Bits: rapid.IntRange(0, model.Width(v6)).Draw(t, "bits")}.Canon()
		return n.First(), n.Last()
	case 1: // up to the end of the space
		return model.GenU(t, "s", v6, near), max
	case 2:
		return model.U{}, model.GenU(t, "e", v6, near)
	case 3: // single
		a := model.GenU(t, "s", v6, near)
		return a, a
	case 4: // short
		a := model.GenU(t, "s", v6, near)
		e := a.Add(model.U{L: uint64(rapid.IntRange(0, 70).Draw(t, "len"))})
		if max.Less(e) || e.Less(a) {
			e = max
		}
		return a, e
	}
	a := model.GenU(t, "s", v6, near)
	b := model.GenU(t, "e", v6, append([]model.U{a}, near...))
	if b.Less(a) {
		a, b = b, a
	}
	return a, b
}

type coverCase struct {
	R    rng  `json:"r"`
	ViaN bool `json:"via_net,omitempty"`
}

func init() {
	pbt.Register("N01", "decompose", pbt.Options{
		Rule:  "random ranges of both families (networks, arbitrary, single, touching either end) decomposed into networks and compared with the minimal cover of the model; non-trivial: the range needs at least 2 networks or ends at the last address of the space",
		Quick: 240000, Thorough: 3000000,
	}, func(t *rapid.T) coverCase {
		v6 := rapid.Bool().Draw(t, "v6")
		s, e := genRange(t, v6, nil)
		f := genForm(t, v6)
		return coverCase{R: rng{mk(v6, f, s), mk(v6, f, e)}}
	}, checkCover)
	pbt.Register("N01", "exhaustive-small", pbt.Options{
		Rule:  "every range inside a window of 24 addresses at a random (aligned or not) place or at either end of the space; non-trivial: always",
		Quick: 160, Thorough: 4000,
	}, func(t *rapid.T) addr {
		v6 := rapid.Bool().Draw(t, "v6")
		return mk(v6, genForm(t, v6), model.GenU(t, "base", v6, nil))
	}, func(c *pbt.Ctx, k addr) error {
		a := k.model()
		base := a.U
		if model.Max(a.V6).Sub(base).Less(model.U{L: 24}) {
			base = model.Max(a.V6).Sub(model.U{L: 23})
		}
		for i := 0; i < 24; i++ {
			for j := i; j < 24; j++ {
				s, e := base.Add(model.U{L: uint64(i)}), base.Add(model.U{L: uint64(j)})
				if err := checkCover(c, coverCase{R: rng{mk(a.V6, k.F, s), mk(a.V6, k.F, e)}}); err != nil {
					return err
				}
			}
		}
		c.NonTrivial()
		return nil
	})
	pbt.Register("N02", "ranges", pbt.Options{
		Rule:  "two ranges of one family (biased to touching, nested and equal ones and to the ends of the space) and an address: Contains, Join, JoinIPNet, CommonRange against interval arithmetic; non-trivial: the ranges touch or overlap, or one ends at the last address",
		Quick: 320000, Thorough: 4000000,
	}, genRanges, checkRanges)
	pbt.Register("N02", "sequence", pbt.Options{
		Rule:  "a random sequence of Join / JoinIPNet / CommonRange on one range mirrored by a model interval; non-trivial: at least 2 operations succeed",
		Quick: 80000, Thorough: 1000000,
	}, genSeq, checkSeq)
	pbt.Register("N03", "arith", pbt.Options{
		Rule:  "random addresses and networks in 4- and 16-byte form: order, successor, last address, next start, prefix and suffix lengths, mask order, conversions, against 128-bit integer arithmetic; non-trivial: addresses differ",
		Quick: 400000, Thorough: 4000000,
	}, genArith, checkArith)
}

func checkCover(c *pbt.Ctx, k coverCase) error {
	s, e := k.R.S.u(), k.R.E.u()
	r := k.R.lib()
	s0, e0 := append(net.IP{}, r.Start...), append(net.IP{}, r.End...)
	var got []*net.IPNet
	if err := pbt.Try(func() { got = r.IPNets() }); err != nil {
		return err
	}
	want := model.Cover(true, s, e)
	if len(got) != len(want) {
		return pbt.Violationf("range %s-%s: %d networks %v, minimal are %d %v", k.R.S.A, k.R.E.A, len(got), got, len(want), want)
	}
	for i, n := range got {
		ones, size := n.Mask.Size()
		u, ok := raw(n.IP)
		if len(n.IP) == 4 && size == 32 {
			ones += 96
		}
		if !ok || size != 8*len(n.IP) || u != want[i].U || ones != want[i].Bits {
			return pbt.Violationf("range %s-%s: network %d is %v (mask %v), expected %v", k.R.S.A, k.R.E.A, i, n, n.Mask, want[i])
		}
	}
	if !bytes.Equal(r.Start, s0) || !bytes.Equal(r.End, e0) {
		return pbt.Violationf("the range itself changed to %v-%v", r.Start, r.End)
	}
	c.Class("nets%d", min(len(want), 20))
	if len(want) >= 2 || e == model.Max(true) || k.R.E.A == "255.255.255.255" {
		c.NonTrivial()
	}
	return nil
}

type rangesCase struct {
	A   rng  `json:"a"`
	B   rng  `json:"b"`
	X   addr `json:"x"`
	Net bool `json:"net"`
}

func genTouching(t *rapid.T, v6 bool, s, e model.U) (model.U, model.U) {
	max := model.Max(v6)
	switch rapid.IntRange(0, 6).Draw(t, "touch") {
	case 0: // right after
		if e != max {
			s2 := e.Add(model.One)
			_, e2 := order(s2, model.GenU(t, "be", v6, []model.U{e}))
			return s2, e2
		}
	case 1: // one apart
		if e != max && e.Add(model.One) != max {
			s2 := e.Add(model.U{L: 2})
			_, e2 := order(s2, model.GenU(t, "be", v6, []model.U{e}))
			return s2, e2
		}
	case 2: // right before
		if !s.Zero() {
			return order(model.GenU(t, "bs", v6, []model.U{s}), s.Sub(model.One))
		}
	case 3:
		return s, e
	case 4:
		return order(s, model.GenU(t, "be", v6, []model.U{e}))
	case 5: // inside
		d := e.Sub(s)
		if !d.Zero() {
			a := s.Add(model.GenU(t, "in1", v6, nil).And(d))
			b := s.Add(model.GenU(t, "in2", v6, nil).And(d))
			if e.Less(a) {
				a = e
			}
			if e.Less(b) {
				b = e
			}
			return order(a, b)
		}
	}
	return genRange(t, v6, []model.U{s, e})
}

func order(a, b model.U) (model.U, model.U) {
	if b.Less(a) {
		return b, a
	}
	return a, b
}

func genRanges(t *rapid.T) rangesCase {
	v6 := rapid.Bool().Draw(t, "v6")
	s, e := genRange(t, v6, nil)
	s2, e2 := genTouching(t, v6, s, e)
	f, f2, f3 := genForm(t, v6), genForm(t, v6), genForm(t, v6)
	x := model.GenU(t, "x", v6, []model.U{s, e, s2, e2})
	if rapid.Bool().Draw(t, "xend") {
		x = rapid.SampledFrom([]model.U{s, e, s2, e2}).Draw(t, "xat")
	}
	return rangesCase{A: rng{mk(v6, f, s), mk(v6, f, e)}, B: rng{mk(v6, f2, s2), mk(v6, f2, e2)}, X: mk(v6, f3, x)}
}

func same(r *ipnet.Range, s, e model.U) error {
	gs, ok1 := raw(r.Start)
	ge, ok2 := raw(r.End)
	if !ok1 || !ok2 || gs != s || ge != e {
		return fmt.Errorf("the range is now %v-%v", r.Start, r.End)
	}
	return nil
}

// touching: b starts inside a or right after its end (within the family's space).
func joinable(v6 bool, a0, a1, b0 model.U) bool {
	if b0.Less(a0) {
		return false
	}
	if !a1.Less(b0) {
		return true
	}
	return a1.Add(model.One) == b0
}

func maxU(a, b model.U) model.U {
	if a.Less(b) {
		return b
	}
	return a
}
func minU(a, b model.U) model.U {
	if a.Less(b) {
		return a
	}
	return b
}

func checkRanges(c *pbt.Ctx, k rangesCase) error {
	v6 := k.A.S.F == 0
	a0, a1, b0, b1, x := k.A.S.u(), k.A.E.u(), k.B.S.u(), k.B.E.u(), k.X.u()
	in := func(u, s, e model.U) bool { return !u.Less(s) && !e.Less(u) }
	return wrap(func() error {
		if got := ipnet.Contains(k.A.S.ip(), k.A.E.ip(), k.X.ip()); got != in(x, a0, a1) {
			return pbt.Violationf("Contains(%s,%s,%s) = %v", k.A.S.A, k.A.E.A, k.X.A, got)
		}
		r := k.A.lib()
		if got := r.Contains(k.X.ip()); got != in(x, a0, a1) {
			return pbt.Violationf("range %s-%s Contains(%s) = %v", k.A.S.A, k.A.E.A, k.X.A, got)
		}
		if err := same(r, a0, a1); err != nil {
			return pbt.Violationf("Contains: %v", err)
		}
		// join
		r, r2 := k.A.lib(), k.B.lib()
		ok := joinable(v6, a0, a1, b0)
		want := a1
		if ok {
			want = maxU(a1, b1)
		}
		if got := r.Join(r2); got != ok {
			return pbt.Violationf("range %s-%s joined with %s-%s: %v", k.A.S.A, k.A.E.A, k.B.S.A, k.B.E.A, got)
		}
		if err := same(r, a0, want); err != nil {
			return pbt.Violationf("range %s-%s joined with %s-%s (%v): %v", k.A.S.A, k.A.E.A, k.B.S.A, k.B.E.A, ok, err)
		}
		if err := same(r2, b0, b1); err != nil {
			return pbt.Violationf("Join changed its argument: %v", err)
		}
		// common range
		r, r2 = k.A.lib(), k.B.lib()
		okc := in(x, a0, a1) && in(x, b0, b1)
		w0, w1 := a0, a1
		if okc {
			w0, w1 = maxU(a0, b0), minU(a1, b1)
		}
		if got := r.CommonRange(k.X.ip(), r2); got != okc {
			return pbt.Violationf("CommonRange(%s) of %s-%s and %s-%s: %v", k.X.A, k.A.S.A, k.A.E.A, k.B.S.A, k.B.E.A, got)
		}
		if err := same(r, w0, w1); err != nil {
			return pbt.Violationf("CommonRange(%s) of %s-%s and %s-%s: %v", k.X.A, k.A.S.A, k.A.E.A, k.B.S.A, k.B.E.A, err)
		}
		if err := same(r2, b0, b1); err != nil {
			return pbt.Violationf("CommonRange changed its argument: %v", err)
		}
		// join with each of the networks of the second range in turn, and a range made of one
		for _, n := range model.Cover(v6, k.B.S.model().U, k.B.E.model().U) {
			for _, form := range forms(v6) {
				ipn := n.IPNet(form)
				nr := ipnet.NewRange(ipn)
				n0, n1 := wide(model.Addr{V6: v6, U: n.First()}), wide(model.Addr{V6: v6, U: n.Last()})
				if err := same(nr, n0, n1); err != nil {
					return pbt.Violationf("NewRange(%v): %v", n, err)
				}
				r = k.A.lib()
				ok := joinable(v6, a0, a1, n0)
				want := a1
				if ok {
					want = maxU(a1, n1)
				}
				if got := r.JoinIPNet(ipn); got != ok {
					return pbt.Violationf("range %s-%s joined with network %v: %v", k.A.S.A, k.A.E.A, n, got)
				}
				if err := same(r, a0, want); err != nil {
					return pbt.Violationf("range %s-%s joined with network %v (%v): %v", k.A.S.A, k.A.E.A, n, ok, err)
				}
				if !ipn.IP.Equal(n.IPNet(form).IP) || ipn.Mask.String() != n.IPNet(form).Mask.String() {
					return pbt.Violationf("JoinIPNet changed its argument to %v", ipn)
				}
			}
		}
		// order of ranges
		rs := ipnet.Ranges{*k.B.lib(), *k.A.lib()}
		sort.Sort(rs)
		if g, _ := raw(rs[0].Start); g != minU(a0, b0) {
			return pbt.Violationf("sorting %s and %s puts %v first", k.B.S.A, k.A.S.A, rs[0].Start)
		}
		if ok {
			c.Class("join")
		}
		if okc {
			c.Class("common")
		}
		last := a1 == model.Max(true) || k.A.E.A == "255.255.255.255"
		if last {
			c.Class("last")
		}
		if ok || okc || last {
			c.NonTrivial()
		}
		return nil
	})
}

func forms(v6 bool) []int {
	if v6 {
		return []int{0}
	}
	return []int{4, 16}
}

func wrap(f func() error) (err error) {
	if perr := pbt.Try(func() { err = f() }); perr != nil {
		return perr
	}
	return
}

type seqOp struct {
	Op string `json:"op"`
	R  rng    `json:"r"`
	X  addr   `json:"x"`
}
type seqCase struct {
	A   rng     `json:"a"`
	Ops []seqOp `json:"ops"`
}

func genSeq(t *rapid.T) seqCase {
	v6 := rapid.Bool().Draw(t, "v6")
	s, e := genRange(t, v6, nil)
	f := genForm(t, v6)
	c := seqCase{A: rng{mk(v6, f, s), mk(v6, f, e)}}
	n := rapid.IntRange(1, 8).Draw(t, "nops")
	for i := 0; i < n; i++ {
		s2, e2 := genTouching(t, v6, s, e)
		f2 := genForm(t, v6)
		op := seqOp{Op: rapid.SampledFrom([]string{"join", "common", "net"}).Draw(t, "op"), R: rng{mk(v6, f2, s2), mk(v6, f2, e2)}}
		x := rapid.SampledFrom([]model.U{s, e, s2, e2}).Draw(t, "x")
		op.X = mk(v6, f2, x)
		if op.Op == "net" {
			nn := model.Cover(v6, s2, e2)
			k := nn[rapid.IntRange(0, len(nn)-1).Draw(t, "pick")]
			s2, e2 = k.First(), k.Last()
			op.R = rng{mk(v6, f2, s2), mk(v6, f2, e2)}
		}
		c.Ops = append(c.Ops, op)
		// follow the model so that later operations stay close
		s, e, _ = apply(s, e, v6, op.Op, s2, e2, x)
	}
	return c
}

func apply(s, e model.U, v6 bool, op string, s2, e2, x model.U) (model.U, model.U, bool) {
	if op == "common" {
		if x.Less(s) || e.Less(x) || x.Less(s2) || e2.Less(x) {
			return s, e, false
		}
		return maxU(s, s2), minU(e, e2), true
	}
	if !joinable(v6, s, e, s2) || (s2.Zero() && e == model.Max(v6) && !s.Zero()) {
		return s, e, false
	}
	return s, maxU(e, e2), true
}

func checkSeq(c *pbt.Ctx, k seqCase) error {
	v6 := k.A.S.F == 0
	s, e := k.A.S.u(), k.A.E.u()
	r := k.A.lib()
	done := 0
	return wrap(func() error {
		for i, op := range k.Ops {
			var got, ok bool
			s2, e2 := op.R.S.u(), op.R.E.u()
			r2 := op.R.lib()
			switch op.Op {
			case "join":
				got = r.Join(r2)
			case "common":
				got = r.CommonRange(op.X.ip(), r2)
			case "net":
				a, b := op.R.S.model().U, op.R.E.model().U
				n := model.Cover(v6, a, b)[0]
				got = r.JoinIPNet(n.IPNet(op.R.S.F))
			}
			s, e, ok = apply(s, e, true, op.Op, s2, e2, op.X.u())
			if got != ok {
				return pbt.Violationf("step %d (%s %s-%s): %v, model says %v", i, op.Op, op.R.S.A, op.R.E.A, got, ok)
			}
			if err := same(r, s, e); err != nil {
				return pbt.Violationf("step %d (%s %s-%s): %v", i, op.Op, op.R.S.A, op.R.E.A, err)
			}
			if err := same(r2, s2, e2); err != nil {
				return pbt.Violationf("step %d (%s): the argument changed: %v", i, op.Op, err)
			}
			if ok {
				done++
			}
		}
		if done >= 2 {
			c.NonTrivial()
		}
		return nil
	})
}

type arithCase struct {
	A    addr   `json:"a"`
	B    addr   `json:"b"`
	Bits int    `json:"bits"`
	MB   int    `json:"mb"`
	Text string `json:"text"`
}

func genArith(t *rapid.T) arithCase {
	v6a, v6b := rapid.Bool().Draw(t, "v6a"), rapid.Bool().Draw(t, "v6b")
	a := model.GenU(t, "a", v6a, nil)
	var near []model.U
	if v6a == v6b {
		near = []model.U{a, a, a}
	}
	b := model.GenU(t, "b", v6b, near)
	k := arithCase{A: mk(v6a, genForm(t, v6a), a), B: mk(v6b, genForm(t, v6b), b)}
	k.Bits = rapid.IntRange(0, model.Width(v6a)).Draw(t, "bits")
	k.MB = rapid.IntRange(0, model.Width(v6b)).Draw(t, "maskb")
	k.Text = rapid.OneOf(rapid.SampledFrom([]string{"", "1.2.3", "256.1.1.1", "1.2.3.4.5", "::1", "::ffff:1.2.3.4", "1.2.3.4 ", " 1.2.3.4", "fake", "01.2.3.4", "1..2.3", "0x1.2.3.4", "::ffff:1.2.3.4%x", "2001:db8::"}),
		rapid.StringOfN(rapid.RuneFrom([]rune("0123456789.:abf")), 0, 16, -1)).Draw(t, "text")
	return k
}

func (x addr) big() *big.Int {
	return new(big.Int).SetBytes(x.ip())
}

func checkArith(c *pbt.Ctx, k arithCase) error {
	if k.A.A != k.B.A {
		c.NonTrivial()
	}
	return wrap(func() error {
		a, b := k.A.ip(), k.B.ip()
		a0, b0 := append(net.IP{}, a...), append(net.IP{}, b...)
		if got, want := ipnet.IPLess(a, b), k.A.u().Less(k.B.u()); got != want {
			return pbt.Violationf("IPLess(%v/%d,%v/%d) = %v", a, len(a), b, len(b), got)
		}
		// successor: numeric, modulo the width of the form
		n := ipnet.NextIP(a)
		w := k.A.big()
		w.Add(w, big.NewInt(1))
		w.Mod(w, new(big.Int).Lsh(big.NewInt(1), uint(8*len(a))))
		if len(n) != len(a) || new(big.Int).SetBytes(n).Cmp(w) != 0 {
			return pbt.Violationf("NextIP(%v) = %v", a, n)
		}
		if got := ipnet.IsAllMask(a); got != (w.Sign() == 0) {
			return pbt.Violationf("IsAllMask(%v) = %v", a, got)
		}
		// networks
		am := k.A.model()
		nn := model.Net{V6: am.V6, U: am.U, Bits: k.Bits}.Canon()
		ipn := nn.IPNet(k.A.F)
		last := ipnet.LastIP(ipn)
		wl := model.Addr{V6: nn.V6, U: nn.Last()}
		if lu, ok := raw(last); !ok || lu != wide(wl) || len(last) != len(ipn.IP) {
			return pbt.Violationf("LastIP(%v) = %v", nn, last)
		}
		wn := new(big.Int).SetBytes(last)
		wn.Add(wn, big.NewInt(1))
		wn.Mod(wn, new(big.Int).Lsh(big.NewInt(1), uint(8*len(last))))
		if ns := ipnet.NextStart(ipn); len(ns) != len(last) || new(big.Int).SetBytes(ns).Cmp(wn) != 0 {
			return pbt.Violationf("NextStart(%v) = %v", nn, ns)
		}
		if !ipn.IP.Equal(nn.IPNet(k.A.F).IP) {
			return pbt.Violationf("LastIP or NextStart changed the network %v", nn)
		}
		mk := ipnet.IpNet(a, k.Bits)
		wantNet := nn
		if nn.V6 && model.InMapped(am.U) {
			// an IPv6 text in the mapped block is an IPv4 address
			wantNet = model.Net{Bits: -1}
		}
		if wantNet.Bits >= 0 {
			if g, err := model.FromIPNet(mk); err != nil || g != wantNet {
				return pbt.Violationf("IpNet(%v,%d) = %v (%v)", a, k.Bits, mk, err)
			}
		}
		// mask order: IPv4 before IPv6 by length of the form, else smaller networks first
		bm := k.B.model()
		nb := model.Net{V6: bm.V6, U: bm.U, Bits: k.MB}.Canon()
		ib := nb.IPNet(k.B.F)
		var ml bool
		if len(ipn.IP) != len(ib.IP) {
			ml = len(ipn.IP) < len(ib.IP)
		} else {
			oa, _ := ipn.Mask.Size()
			ob, _ := ib.Mask.Size()
			ml = oa > ob
		}
		if got := ipnet.MaskLess(ipn, ib); got != ml {
			return pbt.Violationf("MaskLess(%v,%v) = %v", ipn, ib, got)
		}
		// bit counts
		z := ipnet.SuffixZeroLength(a)
		wz := 8 * len(a)
		if v := k.A.big(); v.Sign() != 0 {
			wz = int(v.TrailingZeroBits())
		}
		if z != wz {
			return pbt.Violationf("SuffixZeroLength(%v) = %d, expected %d", a, z, wz)
		}
		if len(a) == len(b) {
			x := new(big.Int).Xor(k.A.big(), k.B.big())
			if got, want := ipnet.PrefixSameLength(a, b), 8*len(a)-x.BitLen(); got != want {
				return pbt.Violationf("PrefixSameLength(%v,%v) = %d, expected %d", a, b, got, want)
			}
		}
		// conversions
		if !am.V6 {
			u := uint32(am.U.L)
			if g := ipnet.IPv4ToUint32(a); g != u {
				return pbt.Violationf("IPv4ToUint32(%v) = %d", a, g)
			}
			if g := ipnet.Uint32ToIPv4(u); !g.Equal(a) {
				return pbt.Violationf("Uint32ToIPv4(%d) = %v", u, g)
			}
			if g := ipnet.IPv4StrToUint32(k.A.A); g != u {
				return pbt.Violationf("IPv4StrToUint32(%s) = %d", k.A.A, g)
			}
		} else {
			if g := ipnet.Uint64ToIP2(am.U.H, am.U.L); !g.Equal(model.Addr{V6: true, U: am.U}.IP()) || len(g) != 16 {
				return pbt.Violationf("Uint64ToIP2(%x,%x) = %v", am.U.H, am.U.L, g)
			}
			if g := ipnet.Uint64ToIP(am.U.H); !g.Equal(model.Addr{V6: true, U: model.U{H: am.U.H}}.IP()) || len(g) != 16 {
				return pbt.Violationf("Uint64ToIP(%x) = %v", am.U.H, g)
			}
		}
		var wt uint32
		if p := net.ParseIP(k.Text).To4(); p != nil {
			wt = uint32(p[0])<<24 | uint32(p[1])<<16 | uint32(p[2])<<8 | uint32(p[3])
		}
		if g := ipnet.IPv4StrToUint32(k.Text); g != wt {
			return pbt.Violationf("IPv4StrToUint32(%q) = %d, expected %d", k.Text, g, wt)
		}
		// first address of the family
		if am.V6 {
			if g := ipnet.IsFirstIP(a, true); g != am.U.Zero() {
				return pbt.Violationf("IsFirstIP(%v,true) = %v", a, g)
			}
		} else if g := ipnet.IsFirstIP(a, false); g != am.U.Zero() {
			return pbt.Violationf("IsFirstIP(%v,false) = %v", a, g)
		}
		if !bytes.Equal(a, a0) || !bytes.Equal(b, b0) {
			return pbt.Violationf("an argument was changed: %v -> %v, %v -> %v", a0, a, b0, b)
		}
		return nil
	})
}
