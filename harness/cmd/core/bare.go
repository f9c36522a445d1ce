package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"time"

	"verif/harness/model"
	"verif/harness/pbt"
	"verif/harness/uipx"

	"pgregory.net/rapid"
)

func init() {
	pbt.Register("Q11", "bare-reader", pbt.Options{
		Rule:  "random disjoint networks (either family or both), columns and values are packed to ipdb and read by a reader written from the bare format, which collects every stored network with its record; non-trivial: at least 2 rows; distinct by case",
		Quick: 24000, Thorough: 400000,
	}, func(t *rapid.T) IpdbCase {
		v4, v6 := genFam(t)
		return genIpdbCase(t, v4, v6, v4 != v6 && rapid.IntRange(0, 3).Draw(t, "cover") == 0)
	}, checkBare)
}

func checkBare(c *pbt.Ctx, k IpdbCase) error {
	t0 := time.Now().Unix()
	b, err := uipx.Pack(".ipdb", uipx.Data(k.T, k.Ver))
	t1 := time.Now().Unix()
	if err != nil {
		return pbt.Violationf("packing fails: %v", err)
	}
	f, err := model.ReadIpdb(b)
	if err != nil {
		return pbt.Violationf("the file departs from the format: %v", err)
	}
	if n, err := f.Num("ip_version"); err != nil || n != int64(k.Ver.Type) {
		return pbt.Violationf("family %d is recorded as ip_version %v", k.Ver.Type, f.Meta["ip_version"])
	}
	if n, err := f.Num("build"); err != nil || n < t0 || n > t1 {
		return pbt.Violationf("built at %d to %d, recorded is %v", t0, t1, f.Meta["build"])
	}
	if l, ok := f.Meta["languages"].(map[string]any); !ok || !reflect.DeepEqual(l, map[string]any{"CN": json.Number("0")}) {
		return pbt.Violationf("languages are recorded as %v", f.Meta["languages"])
	}
	fields, err := f.Texts("fields")
	if err != nil {
		return pbt.Violationf("%v", err)
	}
	var want []string
	code := -1
	for i, s := range k.T.Fields {
		want = append(want, model.IpdbColumn(s))
		if want[i] == "continent_code" {
			code = i
		}
	}
	if !reflect.DeepEqual(fields, want) {
		return pbt.Violationf("the columns %q are recorded as %q, by their names in the format they are %q", k.T.Fields, fields, want)
	}
	if extra, err := f.Texts("extra"); err != nil || fmt.Sprintf("%q", extra) != fmt.Sprintf("%q", k.Ver.Extra) {
		return pbt.Violationf("the extra information %q is recorded as %v", k.Ver.Extra, f.Meta["extra"])
	}
	if s, _ := f.Meta["version"].(string); s != k.Ver.Text {
		return pbt.Violationf("the version %q is recorded as %v", k.Ver.Text, f.Meta["version"])
	}

	var stored []model.IpdbLeaf
	for _, r := range k.T.Rows {
		v := append([]string{}, r.V...)
		if code >= 0 {
			if s := model.ContinentCode(v[code]); s != v[code] {
				v[code] = s
				c.Class("continent")
			}
		}
		text := strings.Join(v, "\t")
		n := model.Ipdb{}.TreeNet(r.Net())
		if n.Bits == 0 {
			stored = append(stored, model.IpdbLeaf{Net: model.Net{V6: true, Bits: 1}, Text: text},
				model.IpdbLeaf{Net: model.Net{V6: true, U: model.U{H: 1 << 63}, Bits: 1}, Text: text})
			c.Class("whole space")
			continue
		}
		stored = append(stored, model.IpdbLeaf{Net: n, Text: text})
	}
	sort.Slice(stored, func(i, j int) bool { return stored[i].Net.U.Less(stored[j].Net.U) })
	for i, s := range stored {
		if i >= len(f.Leafs) || f.Leafs[i].Net != s.Net {
			got := "nothing more"
			if i < len(f.Leafs) {
				got = f.Leafs[i].Net.String()
			}
			return pbt.Violationf("packed network %d in address order is %v, the tree holds %v", i, s.Net, got)
		}
		if f.Leafs[i].Text != s.Text {
			return pbt.Violationf("%v was packed with %q, its record is %q", s.Net, s.Text, f.Leafs[i].Text)
		}
	}
	if len(f.Leafs) > len(stored) {
		return pbt.Violationf("the tree holds %v, which was not packed", f.Leafs[len(stored)].Net)
	}
	c.Class("type%d", k.Ver.Type)
	if len(k.T.Rows) >= 2 {
		c.NonTrivial()
	}
	return nil
}
