package model

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
)

// IpdbFile is an ipdb database as a reader of the bare format sees it.
type IpdbFile struct {
	Meta  map[string]any
	Leafs []IpdbLeaf // in address order
	Nodes int
}

// IpdbLeaf is a stored network, of the tree's own 128 bit space, and its record.
type IpdbLeaf struct {
	Net  Net
	Text string
}

// Num is an integer of the metadata.
func (f IpdbFile) Num(key string) (int64, error) {
	n, ok := f.Meta[key].(json.Number)
	if !ok {
		return 0, fmt.Errorf("the metadata has no number %q but %v", key, f.Meta[key])
	}
	return n.Int64()
}

// Texts is a list of texts of the metadata.
func (f IpdbFile) Texts(key string) ([]string, error) {
	var out []string
	if f.Meta[key] == nil {
		return nil, nil
	}
	l, ok := f.Meta[key].([]any)
	if !ok {
		return nil, fmt.Errorf("%q of the metadata is no list but %v", key, f.Meta[key])
	}
	for _, v := range l {
		s, ok := v.(string)
		if !ok {
			return nil, fmt.Errorf("%q of the metadata holds %v", key, v)
		}
		out = append(out, s)
	}
	return out, nil
}

// ReadIpdb reads an ipdb database by the bare format, and nothing of a database which departs from it:
// a length of 4 bytes, the metadata, node_count pairs of 4 byte numbers, the pair ending the tree, records with
// a length of 2 bytes before them.
func ReadIpdb(b []byte) (f IpdbFile, err error) {
	if len(b) < 4 {
		return f, fmt.Errorf("a file of %d bytes", len(b))
	}
	m := int64(binary.BigEndian.Uint32(b))
	if int64(len(b)) < 4+m {
		return f, fmt.Errorf("a file of %d bytes with %d of metadata", len(b), m)
	}
	d := json.NewDecoder(bytes.NewReader(b[4 : 4+m]))
	d.UseNumber()
	if err := d.Decode(&f.Meta); err != nil {
		return f, fmt.Errorf("metadata: %v", err)
	}
	if d.More() {
		return f, fmt.Errorf("something follows the metadata: %q", b[4:4+m])
	}
	b = b[4+m:]
	total, err := f.Num("total_size")
	if err != nil {
		return f, err
	}
	if total != int64(len(b)) {
		return f, fmt.Errorf("total_size is %d, tree and records take %d bytes", total, len(b))
	}
	count, err := f.Num("node_count")
	if err != nil {
		return f, err
	}
	if count < 1 || count > int64(len(b))/8-1 {
		return f, fmt.Errorf("node_count is %d, tree and records take %d bytes", count, len(b))
	}
	f.Nodes = int(count)
	seen := 0
	var walk func(node int64, at U, depth int) error
	walk = func(node int64, at U, depth int) error {
		if seen++; seen > 8*f.Nodes+1000 {
			return fmt.Errorf("the tree is met %d times as often as it has nodes", 8)
		}
		for bit := int64(0); bit < 2; bit++ {
			to := int64(binary.BigEndian.Uint32(b[8*node+4*bit:]))
			here := at
			if bit == 1 {
				here = at.Or(U{H: 1 << 63}.Shr(depth))
			}
			switch {
			case to == count:
			case to < count:
				if depth >= 127 {
					return fmt.Errorf("a path of more than 128 bits")
				}
				if err := walk(to, here, depth+1); err != nil {
					return err
				}
			default:
				off := to - count + 8*count
				if off < 8*(count+1) || off+2 > int64(len(b)) {
					return fmt.Errorf("the record of %v lies at %d, records at %d to %d", Net{true, here, depth + 1}, off, 8*(count+1), len(b))
				}
				n := int64(binary.BigEndian.Uint16(b[off:]))
				if off+2+n > int64(len(b)) {
					return fmt.Errorf("the record of %v runs past the end", Net{true, here, depth + 1})
				}
				f.Leafs = append(f.Leafs, IpdbLeaf{Net{true, here, depth + 1}, string(b[off+2 : off+2+n])})
			}
		}
		return nil
	}
	return f, walk(0, U{}, 0)
}

// IpdbColumn is the format's name of a column.
func IpdbColumn(name string) string {
	switch name {
	case "country":
		return "country_name"
	case "province":
		return "region_name"
	case "city":
		return "city_name"
	case "isp":
		return "isp_domain"
	case "continent":
		return "continent_code"
	case "utcOffset":
		return "utc_offset"
	case "chinaAdminCode":
		return "china_admin_code"
	}
	return name
}

// ContinentCode is the code of a continent's Chinese name.
func ContinentCode(s string) string {
	if c, ok := continentCodes[s]; ok {
		return c
	}
	return s
}

var continentCodes = map[string]string{"亚洲": "AS", "欧洲": "EU", "北美洲": "NA", "南美洲": "SA", "非洲": "AF", "大洋洲": "OC", "南极洲": "AN"}
