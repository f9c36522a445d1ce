package main

import (
	"strings"

	"verif/harness/model"
	"verif/harness/uipx"

	"pgregory.net/rapid"
)

// IpdbCase is a table packed to ipdb, and addresses to ask for.
type IpdbCase struct {
	T     model.Table `json:"t"`
	Ver   uipx.Ver    `json:"ver"`
	Extra []string    `json:"extra"`
}

type famOpt struct {
	v4, v6 bool
	cover  bool
	max    int
}

func genFam(t *rapid.T) (v4, v6 bool) {
	switch rapid.IntRange(0, 5).Draw(t, "family") {
	case 0, 1, 2:
		return true, false
	case 3, 4:
		return false, true
	}
	return true, true
}

// genNets draws disjoint networks of one or both families.
func genNets(t *rapid.T, v4, v6, cover bool) []model.Net {
	var nets []model.Net
	if v4 {
		if cover {
			n, _ := model.GenCover(t, false, 6, false)
			nets = append(nets, n...)
		} else {
			nets = append(nets, model.GenSet(t, false, 6, false)...)
		}
	}
	if v6 {
		if cover {
			n, _ := model.GenCover(t, true, 3, true)
			nets = append(nets, n...)
		} else {
			nets = append(nets, model.GenSet(t, true, 3, v4)...)
		}
	}
	return nets
}

func genText(t *rapid.T, label string) string {
	if rapid.IntRange(0, 9).Draw(t, "dicttext") == 0 {
		return model.Clean(model.DictMix(t, "1"))
	}
	return rapid.OneOf(
		rapid.SampledFrom([]string{"", "20240101", "v1.2-3", "qiniu \"x\"", "版本1", "<a&b>", "a,b", "null", "ipip.net-2020-01-01"}),
		rapid.StringOfN(rapid.RuneFrom([]rune("abcXYZ019 .-_/中,:{}[]\"'\\é😀#\u2028")), 0, 12, -1)).Draw(t, label)
}

// genLong is at times a text that makes the metadata longer than 64 KB.
func genLong(t *rapid.T) []string {
	if rapid.IntRange(0, 149).Draw(t, "long") != 77 {
		return nil
	}
	return []string{strings.Repeat("long ", rapid.SampledFrom([]int{13000, 13100, 30000}).Draw(t, "longtext"))}
}

func genVer(t *rapid.T, typ int) uipx.Ver {
	v := uipx.Ver{Type: typ}
	v.Text = genText(t, "version")
	v.Build = rapid.SampledFrom([]int64{0, 1, 1600000000, 1700000000, 4102444800}).Draw(t, "build")
	v.Count = uint32(rapid.SampledFrom([]int{0, 1, 2, 1000}).Draw(t, "count"))
	n := rapid.IntRange(0, 3).Draw(t, "nextrainfo")
	for i := 0; i < n; i++ {
		v.Extra = append(v.Extra, genText(t, "extrainfo"))
	}
	v.Extra = append(v.Extra, genLong(t)...)
	if rapid.Bool().Draw(t, "langs") {
		v.Langs = []string{"CN"}
	}
	return v
}

func genIpdbCase(t *rapid.T, v4, v6, cover bool) IpdbCase {
	nets := genNets(t, v4, v6, cover)
	fields := model.GenFields(t, true)
	var rows []model.Row
	if len(nets) > 0 {
		rows = model.Assign(t, nets, model.GenPalette(t, fields, 5, model.ValueOpts{}))
		if rapid.IntRange(0, 15).Draw(t, "confusing") == 9 {
			sep := rapid.SampledFrom([]string{",", "-", " ", "|", "_", "/"}).Draw(t, "confusesep")
			model.Confuse(t, rows, sep, func(int) bool { return true })
		}
	}
	switch rapid.IntRange(0, 2).Draw(t, "order") {
	case 1:
		rows = rapid.Permutation(rows).Draw(t, "rows")
	case 2:
		for i, j := 0, len(rows)-1; i < j; i, j = i+1, j-1 {
			rows[i], rows[j] = rows[j], rows[i]
		}
	}
	typ := 0
	if v4 {
		typ |= 1
	}
	if v6 {
		typ |= 2
	}
	return IpdbCase{T: model.Table{Fields: fields, Rows: rows}, Ver: genVer(t, typ), Extra: model.GenExtra(t)}
}

func nets(rows []model.Row) []model.Net {
	var out []model.Net
	for _, r := range rows {
		out = append(out, r.Net())
	}
	return out
}
