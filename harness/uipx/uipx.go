// Package uipx connects the reference model with the library's public API.
package uipx

import (
	"fmt"
	"net"
	"strings"

	"verif/harness/model"
	"verif/harness/pbt"

	"github.com/qiniu/uip/db/convert"
	_ "github.com/qiniu/uip/db/format/awdb"
	_ "github.com/qiniu/uip/db/format/ipdb"
	_ "github.com/qiniu/uip/db/format/memip"
	_ "github.com/qiniu/uip/db/format/plain"
	"github.com/qiniu/uip/db/inf"
	"github.com/qiniu/uip/db/query"
)

// Ver is a version record in a case.
type Ver struct {
	Type  int      `json:"type"`
	Build int64    `json:"build,omitempty"`
	Text  string   `json:"text,omitempty"`
	Count uint32   `json:"count,omitempty"`
	Langs []string `json:"langs,omitempty"`
	Extra []string `json:"extra,omitempty"`
}

// Info converts.
func (v Ver) Info() *inf.VersionInfo {
	return &inf.VersionInfo{IpType: inf.IpType(v.Type), Build: v.Build, Version: v.Text, Count: v.Count,
		Languages: append([]string(nil), v.Langs...), ExtraInfo: append([]string(nil), v.Extra...)}
}

// Family gives the version type of a set of rows: 1, 2 or 3.
func Family(rows []model.Row) int {
	k := 0
	for _, r := range rows {
		if strings.Contains(r.N, ":") {
			k |= 2
		} else {
			k |= 1
		}
	}
	return k
}

// Data builds the library's form of a table.
func Data(t model.Table, v Ver) *inf.IpData {
	d := &inf.IpData{Fields: append([]string{}, t.Fields...), Version: v.Info()}
	for _, r := range t.Rows {
		d.Ips = append(d.Ips, inf.IpRaw{Cidr: r.Net().IPNet(r.F), FieldValues: append([]string{}, r.V...)})
	}
	return d
}

// Rec is a record as seen by a lookup.
type Rec struct {
	Country, Province, City, Isp, Asn, Continent, Line, District string
}

// FromInfo converts.
func FromInfo(i *inf.IpInfo) Rec {
	return Rec{i.Country, i.Province, i.City, i.Isp, i.Asn, i.Continent, i.Line, i.District}
}

// Get a field by its column name.
func (r Rec) Get(f string) string {
	switch f {
	case "country":
		return r.Country
	case "province":
		return r.Province
	case "city":
		return r.City
	case "isp":
		return r.Isp
	case "asn":
		return r.Asn
	case "continent":
		return r.Continent
	case "line":
		return r.Line
	case "district":
		return r.District
	}
	panic("no field " + f)
}

func (r *Rec) set(f, v string) {
	switch f {
	case "country":
		r.Country = v
	case "province":
		r.Province = v
	case "city":
		r.City = v
	case "isp":
		r.Isp = v
	case "asn":
		r.Asn = v
	case "continent":
		r.Continent = v
	case "line":
		r.Line = v
	case "district":
		r.District = v
	}
}

// Continent shows a continent code as its name.
func Continent(s string) string {
	switch s {
	case "AS":
		return "亚洲"
	case "EU":
		return "欧洲"
	case "NA":
		return "北美洲"
	case "SA":
		return "南美洲"
	case "AF":
		return "非洲"
	case "OC":
		return "大洋洲"
	case "AN":
		return "南极洲"
	}
	return s
}

// Expect is the record a lookup must give for packed values.
func Expect(fields, values []string) Rec {
	var r Rec
	for i, f := range fields {
		v := values[i]
		if f == "continent" {
			v = Continent(v)
		}
		r.set(f, v)
	}
	return r
}

// Load opens a database from bytes.
func Load(kind string, b []byte) (db *query.Db, err error) {
	if perr := pbt.Try(func() { db, err = query.NewDbFromBytes(kind, b) }); perr != nil {
		return nil, fmt.Errorf("loading panics: %w", perr)
	}
	return
}

// Pack packs to bytes.
func Pack(kind string, d *inf.IpData) (b []byte, err error) {
	if perr := pbt.Try(func() { b, err = convert.PackBytes(kind, d) }); perr != nil {
		return nil, fmt.Errorf("packing panics: %w", perr)
	}
	return
}

// Ans is the outcome of a lookup.
type Ans struct {
	OK   bool
	Rec  Rec
	Mask int
	Err  string
}

func ans(i *inf.IpInfo, m int, err error) (Ans, error) {
	if err != nil {
		if i != nil {
			return Ans{}, fmt.Errorf("error %q together with record %+v", err, i)
		}
		return Ans{Err: err.Error()}, nil
	}
	if i == nil {
		return Ans{}, fmt.Errorf("neither record nor error")
	}
	return Ans{OK: true, Rec: FromInfo(i), Mask: m}, nil
}

// Ask looks up a binary address.
func Ask(db *query.Db, ip net.IP) (a Ans, err error) {
	if perr := pbt.Try(func() {
		i, m, e := db.Query(ip)
		a, err = ans(i, m, e)
	}); perr != nil {
		return Ans{}, fmt.Errorf("lookup of %v panics: %w", ip, perr)
	}
	return
}

// AskStr looks up a text.
func AskStr(db *query.Db, s string) (a Ans, err error) {
	if perr := pbt.Try(func() {
		i, m, e := db.QueryStr(s)
		a, err = ans(i, m, e)
	}); perr != nil {
		return Ans{}, fmt.Errorf("lookup of text %q panics: %w", s, perr)
	}
	return
}

// AskU32 looks up a number.
func AskU32(db *query.Db, u uint32) (a Ans, err error) {
	if perr := pbt.Try(func() {
		i, m, e := db.QueryU32(u)
		a, err = ans(i, m, e)
	}); perr != nil {
		return Ans{}, fmt.Errorf("lookup of number %d panics: %w", u, perr)
	}
	return
}
