// Package model is the reference side of the checks: 128-bit addresses, networks and
// tables of rows, with no code shared with the repository under test.
package model

import (
	"fmt"
	"math/bits"
	"net"
	"net/netip"
	"strings"
)

// U is an unsigned 128-bit integer.
type U struct{ H, L uint64 }

func (a U) Cmp(b U) int {
	switch {
	case a.H < b.H:
		return -1
	case a.H > b.H:
		return 1
	case a.L < b.L:
		return -1
	case a.L > b.L:
		return 1
	}
	return 0
}
func (a U) Less(b U) bool { return a.Cmp(b) < 0 }

// Add returns a+b modulo 2^128.
func (a U) Add(b U) U {
	l, c := bits.Add64(a.L, b.L, 0)
	h, _ := bits.Add64(a.H, b.H, c)
	return U{h, l}
}

// Sub returns a-b modulo 2^128.
func (a U) Sub(b U) U {
	l, c := bits.Sub64(a.L, b.L, 0)
	h, _ := bits.Sub64(a.H, b.H, c)
	return U{h, l}
}
func (a U) And(b U) U  { return U{a.H & b.H, a.L & b.L} }
func (a U) Or(b U) U   { return U{a.H | b.H, a.L | b.L} }
func (a U) Xor(b U) U  { return U{a.H ^ b.H, a.L ^ b.L} }
func (a U) Not() U     { return U{^a.H, ^a.L} }
func (a U) Zero() bool { return a.H == 0 && a.L == 0 }

// Shl shifts left by n (0..128).
func (a U) Shl(n int) U {
	switch {
	case n >= 128:
		return U{}
	case n >= 64:
		return U{a.L << uint(n-64), 0}
	case n == 0:
		return a
	}
	return U{a.H<<uint(n) | a.L>>uint(64-n), a.L << uint(n)}
}

// Shr shifts right by n (0..128).
func (a U) Shr(n int) U {
	switch {
	case n >= 128:
		return U{}
	case n >= 64:
		return U{0, a.H >> uint(n-64)}
	case n == 0:
		return a
	}
	return U{a.H >> uint(n), a.L>>uint(n) | a.H<<uint(64-n)}
}

// TrailingZeros counts the zero bits at the low end (128 for zero).
func (a U) TrailingZeros() int {
	if a.L != 0 {
		return bits.TrailingZeros64(a.L)
	}
	if a.H != 0 {
		return 64 + bits.TrailingZeros64(a.H)
	}
	return 128
}

// LeadingZeros counts the zero bits at the high end (128 for zero).
func (a U) LeadingZeros() int {
	if a.H != 0 {
		return bits.LeadingZeros64(a.H)
	}
	return 64 + bits.LeadingZeros64(a.L)
}

var One = U{0, 1}

// Max is the last address of a family.
func Max(v6 bool) U {
	if v6 {
		return U{^uint64(0), ^uint64(0)}
	}
	return U{0, 0xffffffff}
}

// Width is the number of address bits of a family.
func Width(v6 bool) int {
	if v6 {
		return 128
	}
	return 32
}

// Addr is an address of a family; IPv4 addresses are 0..2^32-1.
type Addr struct {
	V6 bool
	U  U
}

// MappedBase is ::ffff:0:0.
var MappedBase = U{0, 0xffff00000000}

// InMapped reports whether an IPv6 address lies in ::ffff:0:0/96.
func InMapped(u U) bool { return u.H == 0 && u.L>>32 == 0xffff }

// Bytes gives the 4 or 16 bytes.
func (a Addr) Bytes() []byte {
	if !a.V6 {
		return []byte{byte(a.U.L >> 24), byte(a.U.L >> 16), byte(a.U.L >> 8), byte(a.U.L)}
	}
	b := make([]byte, 16)
	for i := 0; i < 8; i++ {
		b[i] = byte(a.U.H >> uint(56-8*i))
		b[8+i] = byte(a.U.L >> uint(56-8*i))
	}
	return b
}

// IP is the canonical binary form: 4 bytes for IPv4.
func (a Addr) IP() net.IP { return net.IP(a.Bytes()) }

// IP16 is the 16-byte form.
func (a Addr) IP16() net.IP {
	if a.V6 {
		return net.IP(a.Bytes())
	}
	return net.IP(append([]byte{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xff}, a.Bytes()...))
}

// String is the usual text.
func (a Addr) String() string {
	b := a.Bytes()
	if !a.V6 {
		return fmt.Sprintf("%d.%d.%d.%d", b[0], b[1], b[2], b[3])
	}
	return netip.AddrFrom16([16]byte(b)).String()
}

// FromBytes reads 4 or 16 bytes; 16-byte IPv4-mapped addresses become IPv4.
func FromBytes(b []byte) (Addr, bool) {
	switch len(b) {
	case 4:
		return Addr{false, U{0, uint64(b[0])<<24 | uint64(b[1])<<16 | uint64(b[2])<<8 | uint64(b[3])}}, true
	case 16:
		var u U
		for i := 0; i < 8; i++ {
			u.H = u.H<<8 | uint64(b[i])
			u.L = u.L<<8 | uint64(b[8+i])
		}
		if InMapped(u) {
			return Addr{false, U{0, u.L & 0xffffffff}}, true
		}
		return Addr{true, u}, true
	}
	return Addr{}, false
}

// ParseAddr parses text with net/netip.
func ParseAddr(s string) (Addr, bool) {
	a, err := netip.ParseAddr(s)
	if err != nil || a.Zone() != "" {
		return Addr{}, false
	}
	return FromBytes(a.AsSlice())
}

// ParseAddr6 parses text without folding mapped addresses.
func ParseAddr6(s string) U {
	a := netip.MustParseAddr(s).As16()
	var u U
	for i := 0; i < 8; i++ {
		u.H = u.H<<8 | uint64(a[i])
		u.L = u.L<<8 | uint64(a[8+i])
	}
	return u
}

// Net is a network: the Bits leading bits of U (out of 32 or 128).
type Net struct {
	V6   bool
	U    U
	Bits int
}

func (n Net) hostMask() U {
	w := Width(n.V6)
	return Max(n.V6).And(U{^uint64(0), ^uint64(0)}.Shl(w - n.Bits).Not())
}

// First address.
func (n Net) First() U { return n.U }

// Last address.
func (n Net) Last() U { return n.U.Or(n.hostMask()) }

// Contains an address of the same family.
func (n Net) Contains(a Addr) bool {
	return n.V6 == a.V6 && !a.U.Less(n.First()) && !n.Last().Less(a.U)
}

// Covers reports whether m lies inside n (or is equal).
func (n Net) Covers(m Net) bool {
	return n.V6 == m.V6 && n.Bits <= m.Bits && n.Contains(Addr{m.V6, m.U})
}

// Canon masks host bits.
func (n Net) Canon() Net {
	n.U = n.U.And(n.hostMask().Not()).And(Max(n.V6))
	return n
}

func (n Net) String() string { return fmt.Sprintf("%s/%d", Addr{n.V6, n.U}, n.Bits) }

// ParseNet parses "addr/bits".
func ParseNet(s string) (Net, error) {
	i := strings.LastIndexByte(s, '/')
	if i < 0 {
		return Net{}, fmt.Errorf("bad network %q", s)
	}
	var bits int
	if _, err := fmt.Sscanf(s[i+1:], "%d", &bits); err != nil {
		return Net{}, err
	}
	if strings.Contains(s[:i], ":") {
		return Net{true, ParseAddr6(s[:i]), bits}, nil
	}
	a, ok := ParseAddr(s[:i])
	if !ok || a.V6 || bits < 0 || bits > 32 {
		return Net{}, fmt.Errorf("bad network %q", s)
	}
	return Net{false, a.U, bits}, nil
}

// MustNet parses or panics.
func MustNet(s string) Net {
	n, err := ParseNet(s)
	if err != nil {
		panic(err)
	}
	return n
}

// IPNet converts; form 16 gives IPv4 networks as 16-byte addresses with a 128-bit mask.
func (n Net) IPNet(form int) *net.IPNet {
	if n.V6 {
		return &net.IPNet{IP: Addr{true, n.U}.IP(), Mask: net.CIDRMask(n.Bits, 128)}
	}
	if form == 16 {
		return &net.IPNet{IP: Addr{false, n.U}.IP16(), Mask: net.CIDRMask(96+n.Bits, 128)}
	}
	return &net.IPNet{IP: Addr{false, n.U}.IP(), Mask: net.CIDRMask(n.Bits, 32)}
}

// FromIPNet reads a network in either form; ok is false when it is not a proper network.
func FromIPNet(n *net.IPNet) (Net, error) {
	if n == nil {
		return Net{}, fmt.Errorf("nil network")
	}
	ones, size := n.Mask.Size()
	if size == 0 {
		return Net{}, fmt.Errorf("network %v: mask %v is not a prefix", n, n.Mask)
	}
	a, ok := FromBytes(n.IP)
	if !ok {
		return Net{}, fmt.Errorf("network %v: address of %d bytes", n, len(n.IP))
	}
	if size != 8*len(n.IP) {
		return Net{}, fmt.Errorf("network %v: mask of %d bits for an address of %d bytes", n, size, len(n.IP))
	}
	var r Net
	if !a.V6 {
		if len(n.IP) == 16 {
			ones -= 96
			if ones < 0 {
				// a network around the mapped block, written with a mapped address
				return Net{}, fmt.Errorf("network %v: IPv4 address with a mask of %d bits", n, ones+96)
			}
		}
		r = Net{false, a.U, ones}
	} else {
		r = Net{true, a.U, ones}
	}
	if r.Canon() != r {
		return r, fmt.Errorf("network %v has host bits set", n)
	}
	return r, nil
}

// Cover is the minimal ascending list of networks covering [first,last].
func Cover(v6 bool, first, last U) []Net {
	var out []Net
	for {
		b := Width(v6)
		for b > 0 {
			n := Net{v6, first, b - 1}
			if n.Canon() != n || last.Less(n.Last()) {
				break
			}
			b--
		}
		n := Net{v6, first, b}
		out = append(out, n)
		if n.Last() == last {
			return out
		}
		first = n.Last().Add(One)
	}
}
