package model

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"strings"
	"unicode/utf16"

	"pgregory.net/rapid"
)

// Ipdb describes an ipdb database written by another tool.
type Ipdb struct {
	Type    int            `json:"type"` // 1 IPv4, 2 IPv6, 3 both
	Nets    []string       `json:"nets"` // IPv4 networks go under ::ffff:0:0/96
	Rec     []int          `json:"rec"`
	Records [][]string     `json:"records"` // values of all languages, one after the other
	Fields  []string       `json:"fields"`
	Langs   map[string]int `json:"langs"`
	Version string         `json:"version,omitempty"`
	Build   int64          `json:"build"`
	Extra   []string       `json:"extra,omitempty"`
	Perm    []int          `json:"perm,omitempty"` // ranks for the order of the nodes
	Gap     int            `json:"gap,omitempty"`  // unused bytes between records
	Loop    bool           `json:"loop,omitempty"` // the node after the last points to itself (else zeros)
	// Share stores equal parts of the tree once, as far as the tree does not become far smaller than its networks.
	Share bool `json:"share,omitempty"`
	// Round and Off make the size of the file, less Off, a multiple of Round, with blanks in the metadata.
	Round int `json:"round,omitempty"`
	Off   int `json:"off,omitempty"`
	// Form is how the metadata is written: 1 over several lines, 2 with letters as numbers, 4 with entries of the writer's own.
	Form int `json:"form,omitempty"`
}

// IpdbParts are the pieces of an encoded database, for the mutators.
type IpdbParts struct {
	Meta  map[string]any
	Nodes [][2]uint32
	Data  []byte
	Form  int
}

// TreeNet places a network in the tree.
func (d Ipdb) TreeNet(n Net) Net {
	if n.V6 {
		return n
	}
	return Net{true, MappedBase.Or(n.U), n.Bits + 96}
}

// Parts encodes.
func (d Ipdb) Parts() IpdbParts {
	const empty = -1
	nodes := [][2]int{{empty, empty}}
	var data []byte
	var off []int
	for _, r := range d.Records {
		s := strings.Join(r, "\t")
		off = append(off, 8+len(data))
		data = append(data, byte(len(s)>>8), byte(len(s)))
		data = append(data, s...)
		for i := 0; i < d.Gap; i++ {
			data = append(data, 0xee)
		}
	}
	for i, s := range d.Nets {
		n := d.TreeNet(MustNet(s))
		if n.Bits == 0 {
			panic("the tree has no place for a network of the whole space")
		}
		at := 0
		for b := 0; b < n.Bits; b++ {
			bit := int(n.U.Shr(127-b).L & 1)
			if b == n.Bits-1 {
				if nodes[at][bit] != empty {
					panic("overlapping networks in an ipdb case")
				}
				nodes[at][bit] = -(2 + off[d.Rec[i]])
				break
			}
			if nodes[at][bit] == empty {
				nodes = append(nodes, [2]int{empty, empty})
				nodes[at][bit] = len(nodes) - 1
			}
			at = nodes[at][bit]
			if at < 0 {
				panic("overlapping networks in an ipdb case")
			}
		}
	}
	if d.Share {
		if s := ShareTree(append([][2]int{}, nodes...)); len(d.Nets) <= 4*len(s) {
			nodes = s
		}
	}
	count := len(nodes)
	// reorder: the root stays first
	pos := make([]int, count)
	for i := range pos {
		pos[i] = i
	}
	if len(d.Perm) > 0 {
		for i := count - 1; i > 1; i-- {
			j := 1 + d.Perm[i%len(d.Perm)]%i
			pos[i], pos[j] = pos[j], pos[i]
		}
	}
	out := make([][2]uint32, count+1)
	for i, n := range nodes {
		for j, v := range n {
			switch {
			case v == empty:
				out[pos[i]][j] = uint32(count)
			case v < empty:
				out[pos[i]][j] = uint32(count + (-v - 2))
			default:
				out[pos[i]][j] = uint32(pos[v])
			}
		}
	}
	if d.Loop {
		out[count] = [2]uint32{uint32(count), uint32(count)}
	}
	meta := map[string]any{"build": d.Build, "ip_version": d.Type, "languages": d.Langs, "node_count": count,
		"total_size": 8*len(out) + len(data), "fields": d.Fields}
	if d.Version != "" {
		meta["version"] = d.Version
	}
	if d.Extra != nil {
		meta["extra"] = d.Extra
	}
	if d.Form&4 != 0 {
		meta["copyright"] = map[string]any{"fields": []any{"x", 1.5, nil, map[string]any{"build": "then"}}, "é": true}
		meta["a_note"] = "{\"build\":7}"
	}
	return IpdbParts{meta, out, data, d.Form}
}

// inText tells of the bytes of JSON which are one of a text and belong to no escape.
func inText(m []byte) []bool {
	out := make([]bool, len(m))
	in := false
	for i := 0; i < len(m); i++ {
		switch {
		case in && m[i] == '\\':
			if i++; m[i] == 'u' {
				i += 4
			}
		case m[i] == '"':
			in = !in
		default:
			out[i] = in
		}
	}
	return out
}

// Bytes joins the parts.
func (p IpdbParts) Bytes() []byte {
	m, err := json.Marshal(p.Meta)
	if err != nil {
		panic(err)
	}
	if p.Form&1 != 0 {
		if m, err = json.MarshalIndent(p.Meta, "\r\n", "\t "); err != nil {
			panic(err)
		}
	}
	if p.Form&2 != 0 {
		var x []byte
		text := inText(m)
		for i, r := range string(m) {
			switch {
			case r >= 0x10000:
				a, b := utf16.EncodeRune(r)
				x = append(x, fmt.Sprintf("\\u%04x\\u%04X", a, b)...)
			case r >= 0x80, i%5 == 0 && r >= 'a' && r <= 'z' && text[i]:
				x = append(x, fmt.Sprintf("\\u%04x", r)...)
			default:
				x = append(x, byte(r))
			}
		}
		m = x
	}
	out := binary.BigEndian.AppendUint32(nil, uint32(len(m)))
	out = append(out, m...)
	for _, n := range p.Nodes {
		out = binary.BigEndian.AppendUint32(out, n[0])
		out = binary.BigEndian.AppendUint32(out, n[1])
	}
	return append(out, p.Data...)
}

// Bytes encodes the database.
func (d Ipdb) Bytes() []byte { return PadMeta(d.Parts().Bytes(), d.Round, d.Off) }

// PadMeta adds blanks to the metadata of an ipdb database, so that its size less off is a multiple of round.
func PadMeta(b []byte, round, off int) []byte {
	if round <= 0 {
		return b
	}
	n := ((off-len(b))%round + round) % round
	m := int(binary.BigEndian.Uint32(b))
	out := binary.BigEndian.AppendUint32(nil, uint32(m+n))
	// behind the metadata, or before its last brace
	at := 4 + m - m%2
	out = append(out, b[4:at]...)
	out = append(out, strings.Repeat(" ", n)...)
	return append(out, b[at:]...)
}

// GenRound draws what PadMeta takes.
func GenRound(t *rapid.T) (round, off int) {
	if rapid.IntRange(0, 5).Draw(t, "pad to") > 0 {
		return 0, 0
	}
	return rapid.SampledFrom([]int{256, 1024, 4096, 8192, 16384, 16384, 32768, 65536}).Draw(t, "round"), rapid.SampledFrom([]int{0, 0, 0, 1, -1}).Draw(t, "off")
}
