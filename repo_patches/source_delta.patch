From 21e8186a21c535125e9d6f987c85171128aab66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:24 +0000
Subject: [PATCH 01/77] fix: ipdb: pack the whole IPv6 space instead of
 panicking

---
 db/format/ipdb/writer.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/db/format/ipdb/writer.go b/db/format/ipdb/writer.go
index 9f64ac8..48f9b52 100644
--- a/db/format/ipdb/writer.go
+++ b/db/format/ipdb/writer.go
@@ -111,6 +111,9 @@ func (p *Writer) Save(w io.Writer) error {
 // insert 插入数据
 func (p *Writer) insert(ipNet *net.IPNet, values []string) error {
 	mask, _ := ipNet.Mask.Size()
+	if mask == 0 && ipNet.IP.To4() == nil {
+		return p.insertAll(ipNet, values)
+	}
 	node, index, ok := p.Nodes(ipNet.IP, mask)
 	if !ok {
 		log.Printf("load cidr failed cidr(%s) data(%s) node(%d) index(%d) preview data(%s)\n", ipNet, values, node, index, p.resolve(-p.node[node][index]))
@@ -143,6 +146,21 @@ func (p *Writer) insert(ipNet *net.IPNet, values []string) error {
 	return nil
 }
 
+// insertAll 插入 ::/0，根节点没有上级，需要占用它的两个分支
+func (p *Writer) insertAll(ipNet *net.IPNet, values []string) error {
+	if p.node[0] != [2]int{} {
+		log.Printf("cidr conflict %s %s\n", ipNet, values)
+		return db.ErrCIDRConflict
+	}
+	for i, half := range []net.IP{net.IPv6zero, {0x80, 15: 0}} {
+		if err := p.insert(&net.IPNet{IP: half, Mask: net.CIDRMask(1, 128)}, values); err != nil {
+			log.Printf("load half %d of %s failed %s\n", i, ipNet, err)
+			return err
+		}
+	}
+	return nil
+}
+
 // resolve 解析数据
 func (p *Writer) resolve(offset int) string {
 	offset -= 8
-- 
2.43.0


From 35e8785d8d202708ae2f0f4cf23bdc69b0932c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:26 +0000
Subject: [PATCH 02/77] fix: ipdb: report lookup errors instead of an empty or
 cached record

---
 db/format/ipdb/querier.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/db/format/ipdb/querier.go b/db/format/ipdb/querier.go
index 3034a01..479e596 100644
--- a/db/format/ipdb/querier.go
+++ b/db/format/ipdb/querier.go
@@ -40,6 +40,9 @@ func (q *querier) Query(ip net.IP) (*inf.IpInfo, int, error) {
 
 func (q *querier) QueryInternal(ip net.IP, cache bool) (int, *inf.IpInfo, int, error) {
 	node, body, mask, err := q.r.find0(ip)
+	if err != nil {
+		return 0, nil, 0, err
+	}
 	if cache {
 		if v, ok := q.queryCache[node]; ok {
 			return node, v, mask, nil
-- 
2.43.0


From e4695c1c6c347425a84b0e6ad9ed3a1ed9237464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:39 +0000
Subject: [PATCH 03/77] fix: ipdb: refuse values a record cannot hold instead
 of writing a damaged one

---
 db/errors.go             |  1 +
 db/format/ipdb/packer.go | 24 +++++++++++++++++++++++-
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/db/errors.go b/db/errors.go
index 9bc11bc..22cba8e 100644
--- a/db/errors.go
+++ b/db/errors.go
@@ -20,6 +20,7 @@ var (
 
 	ErrIPVersionNotSupported = errors.New("IP version not supported")
 	ErrInvalidFieldsLength   = errors.New("invalid fields length")
+	ErrInvalidFieldValue     = errors.New("invalid field value")
 	ErrInvalidCIDR           = errors.New("invalid CIDR")
 	ErrCIDRConflict          = errors.New("CIDR conflict")
 	ErrMetaNotFound          = errors.New("meta not found")
diff --git a/db/format/ipdb/packer.go b/db/format/ipdb/packer.go
index fb7d47b..7cffe22 100644
--- a/db/format/ipdb/packer.go
+++ b/db/format/ipdb/packer.go
@@ -1,16 +1,38 @@
 package ipdb
 
 import (
-	"github.com/qiniu/uip/db/inf"
 	"io"
+	"math"
+	"strings"
+
+	"github.com/qiniu/uip/db"
+	"github.com/qiniu/uip/db/inf"
 )
 
+// checkValues refuses what a record cannot hold: its length has 2 bytes, its fields are separated by FieldsSep
+func checkValues(values []string) error {
+	size := len(values) - 1
+	for _, v := range values {
+		if strings.Contains(v, FieldsSep) {
+			return db.ErrInvalidFieldValue
+		}
+		size += len(v)
+	}
+	if size > math.MaxUint16 {
+		return db.ErrInvalidFieldsLength
+	}
+	return nil
+}
+
 func pack(ipd *inf.IpData, writer io.Writer) error {
 	meta := buildMeta(ipd.Version)
 	meta.Fields = covertFields(ipd.Fields)
 	w := NewWriter(*meta, nil)
 	// writer insert ipraw from ipd
 	for _, v := range ipd.Ips {
+		if err := checkValues(v.FieldValues); err != nil {
+			return err
+		}
 		w.insert(v.Cidr, v.FieldValues)
 	}
 	return w.Save(writer)
-- 
2.43.0


From 6279e972c2e46d433cddfe3721687224c42f3b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:59 +0000
Subject: [PATCH 04/77] fix: ipnet: ranges ending at the last address

---
 ipnet/ipnet.go |  2 +-
 ipnet/range.go | 11 ++++++++---
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/ipnet/ipnet.go b/ipnet/ipnet.go
index c42686d..defe753 100644
--- a/ipnet/ipnet.go
+++ b/ipnet/ipnet.go
@@ -34,5 +34,5 @@ func LastIP(ipNet *net.IPNet) net.IP {
 
 // Contains 检查IP区间内是否包含IP
 func Contains(start, end, ip net.IP) bool {
-	return !IPLess(ip, start) && IPLess(ip, NextIP(end))
+	return !IPLess(ip, start) && !IPLess(end, ip)
 }
diff --git a/ipnet/range.go b/ipnet/range.go
index aab6d33..f8b8eff 100644
--- a/ipnet/range.go
+++ b/ipnet/range.go
@@ -36,10 +36,15 @@ func NewRange(ipNet *net.IPNet) *Range {
 	}
 }
 
+// before 区间结束于 ip 之前且不相邻，最后一个 IP 没有后继，NextIP 会回绕到 0
+func (r *Range) before(ip net.IP) bool {
+	return IPLess(r.End, ip) && !NextIP(r.End).Equal(ip)
+}
+
 // Join 合并网段
 func (r *Range) Join(r2 *Range) bool {
 	// 禁止 起始IP小于原IP区间 或 IP区间不相邻 的IP区间合入
-	if IPLess(r2.Start, r.Start) || IPLess(NextIP(r.End), r2.Start) {
+	if IPLess(r2.Start, r.Start) || r.before(r2.Start) {
 		return false
 	}
 
@@ -51,7 +56,7 @@ func (r *Range) Join(r2 *Range) bool {
 
 // CommonRange 求共同网段
 func (r *Range) CommonRange(ip net.IP, r2 *Range) bool {
-	if IPLess(r2.End, r.Start) || IPLess(NextIP(r.End), r2.Start) {
+	if IPLess(r2.End, r.Start) || IPLess(r.End, r2.Start) {
 		return false
 	}
 	start := r.Start
@@ -77,7 +82,7 @@ func (r *Range) Contains(ip net.IP) bool {
 // JoinIPNet 合并网段
 func (r *Range) JoinIPNet(ipNet *net.IPNet) bool {
 	// 禁止 起始IP小于原IP区间 或 IP区间不相邻 的IP区间合入
-	if IPLess(ipNet.IP.To16(), r.Start) || IPLess(NextIP(r.End), ipNet.IP.To16()) {
+	if IPLess(ipNet.IP.To16(), r.Start) || r.before(ipNet.IP.To16()) {
 		return false
 	}
 
-- 
2.43.0


From 268cd1d22b297e586b6dbe888b9e374d08ce89a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:08 +0000
Subject: [PATCH 05/77] fix: awdb: load databases smaller than 2000 bytes

---
 db/format/awdb/reader.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/db/format/awdb/reader.go b/db/format/awdb/reader.go
index 5592167..2a6fc0e 100644
--- a/db/format/awdb/reader.go
+++ b/db/format/awdb/reader.go
@@ -43,6 +43,9 @@ const metaDetectStart = 2000
 // a Reader structure or an error.
 func FromBytes(buffer []byte) (*Reader, error) {
 	detectOffset := len(buffer) - metaDetectStart
+	if detectOffset < 0 {
+		detectOffset = 0
+	}
 	metaIn := buffer[detectOffset:]
 	metadataStart := bytes.LastIndex(metaIn, metadataStartMarker)
 
-- 
2.43.0


From ab49eaf63007100fad06519382ec77829178acb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:58 +0000
Subject: [PATCH 06/77] fix: awdb: report a missing or unusable record instead
 of panicking

---
 db/format/awdb/dumper.go  | 12 +-----------
 db/format/awdb/querier.go | 12 +-----------
 db/format/awdb/reader.go  | 27 +++++++++++++++++++++++++++
 3 files changed, 29 insertions(+), 22 deletions(-)

diff --git a/db/format/awdb/dumper.go b/db/format/awdb/dumper.go
index 29bc19f..2081c47 100644
--- a/db/format/awdb/dumper.go
+++ b/db/format/awdb/dumper.go
@@ -61,17 +61,7 @@ func (t *traversal) dump(exporter inf.Exporter) (*inf.IpData, error) {
 }
 
 func (t *traversal) find(ip net.IP) (*net.IPNet, map[string]string, error) {
-	var record interface{}
-	ipNet, _, err := t.reader.LookupNetwork(ip, &record)
-	if err != nil {
-		return nil, nil, err
-	}
-
-	data := make(map[string]string)
-	for k, v := range record.(map[string]interface{}) {
-		data[k] = string(v.([]byte))
-	}
-	return ipNet, data, nil
+	return t.reader.find(ip)
 }
 
 func (t *traversal) versionInfo() *inf.VersionInfo {
diff --git a/db/format/awdb/querier.go b/db/format/awdb/querier.go
index 5ac994b..bc686c6 100644
--- a/db/format/awdb/querier.go
+++ b/db/format/awdb/querier.go
@@ -64,17 +64,7 @@ func (q *querier) BuildCache(ipList []string) {
 }
 
 func (q *querier) Find(ip net.IP) (*net.IPNet, map[string]string, error) {
-	var record interface{}
-	ipNet, _, err := q.reader.LookupNetwork(ip, &record)
-	if err != nil {
-		return nil, nil, err
-	}
-
-	data := make(map[string]string)
-	for k, v := range record.(map[string]interface{}) {
-		data[k] = string(v.([]byte))
-	}
-	return ipNet, data, nil
+	return q.reader.find(ip)
 }
 
 func (q *querier) VersionInfo() *inf.VersionInfo {
diff --git a/db/format/awdb/reader.go b/db/format/awdb/reader.go
index 2a6fc0e..751d98e 100644
--- a/db/format/awdb/reader.go
+++ b/db/format/awdb/reader.go
@@ -7,6 +7,7 @@ import (
 	"net"
 	"reflect"
 
+	"github.com/qiniu/uip/db"
 	"github.com/qiniu/uip/db/inf"
 )
 
@@ -157,6 +158,32 @@ func (r *Reader) LookupNetwork(ip net.IP, result interface{}) (network *net.IPNe
 	return network, true, r.retrieveData(pointer, result)
 }
 
+// find retrieves the network and the text attributes of the record for ip.
+func (r *Reader) find(ip net.IP) (*net.IPNet, map[string]string, error) {
+	var record interface{}
+	ipNet, ok, err := r.LookupNetwork(ip, &record)
+	if err != nil {
+		return nil, nil, err
+	}
+	if !ok {
+		return nil, nil, db.ErrDataNotExists
+	}
+	attributes, ok := record.(map[string]interface{})
+	if !ok {
+		return nil, nil, newInvalidDatabaseError("the record of %v is not a map", ipNet)
+	}
+
+	data := make(map[string]string, len(attributes))
+	for k, v := range attributes {
+		text, ok := v.([]byte)
+		if !ok {
+			return nil, nil, newInvalidDatabaseError("the attribute %s of %v is not a text", k, ipNet)
+		}
+		data[k] = string(text)
+	}
+	return ipNet, data, nil
+}
+
 // LookupOffset maps an argument net.IP to a corresponding record offset in the
 // database. NotFound is returned if no such record is found, and a record may
 // otherwise be extracted by passing the returned offset to Decode. LookupOffset
-- 
2.43.0


From 0844236d521d52a5c7d122fa3909b44af29317a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:13 +0000
Subject: [PATCH 07/77] fix: awdb: refuse addresses that are neither 4 nor 16
 bytes

---
 db/format/awdb/reader.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/db/format/awdb/reader.go b/db/format/awdb/reader.go
index 751d98e..a39b421 100644
--- a/db/format/awdb/reader.go
+++ b/db/format/awdb/reader.go
@@ -255,6 +255,10 @@ func (r *Reader) lookupPointer(ip net.IP) (uint, int, net.IP, error) {
 		return 0, 0, ip, errors.New("IP passed to Lookup cannot be nil")
 	}
 
+	if len(ip) != net.IPv4len && len(ip) != net.IPv6len {
+		return 0, 0, ip, db.ErrIPFormat
+	}
+
 	ipV4Address := ip.To4()
 	if ipV4Address != nil {
 		ip = ipV4Address
-- 
2.43.0


From 805837d2e59b2e662c7ed500c6f3181de49a7a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:15 +0000
Subject: [PATCH 08/77] fix: awdb: export the asn column from the asnumber
 attribute lookups use

---
 db/format/awdb/fields.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/db/format/awdb/fields.go b/db/format/awdb/fields.go
index ef5bdf6..7668f20 100644
--- a/db/format/awdb/fields.go
+++ b/db/format/awdb/fields.go
@@ -124,7 +124,7 @@ var CommonFieldsMap = map[string]string{
 	field.Province:  FieldProvince,
 	field.City:      FieldCity,
 	field.ISP:       FieldISP,
-	field.Asn:       field.Asn,
+	field.Asn:       FieldASNumber,
 	field.Continent: FieldContinent,
 	field.Line:      field.Line,
 }
-- 
2.43.0


From 61ccab86a08cfd8d79a7f96565df9cbc2877e01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:27 +0000
Subject: [PATCH 09/77] fix: export: a column unknown to the source stays empty

---
 db/field/export/export.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/db/field/export/export.go b/db/field/export/export.go
index d14f448..85dd7f2 100644
--- a/db/field/export/export.go
+++ b/db/field/export/export.go
@@ -128,6 +128,9 @@ func Select(fMap map[string]string, fields []string) []field.Pair {
 func (e *Exporter) remapKey(fieldMap []field.Pair, data map[string]string) []string {
 	var ret = make([]string, len(e.fields))
 	for k, v := range fieldMap {
+		if v.Ext == "" { // column unknown to the source
+			continue
+		}
 		if f, ok := data[v.Intern]; ok {
 			ret[k] = f
 		}
-- 
2.43.0


From 28f4bd2794d87a6cea30a446dc975f8c8744053e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:41 +0000
Subject: [PATCH 10/77] fix: plain: dump all columns when no rule is given

---
 db/format/plain/dumper.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/db/format/plain/dumper.go b/db/format/plain/dumper.go
index bc140d3..9315938 100644
--- a/db/format/plain/dumper.go
+++ b/db/format/plain/dumper.go
@@ -119,6 +119,10 @@ func (t *traversal) Dump(exporter inf.Exporter) (*inf.IpData, error) {
 
 		if exporter != nil {
 			values = exporter.Export(fieldsMap, info)
+		} else {
+			for _, f := range t.Fields {
+				values = append(values, info[f])
+			}
 		}
 
 		if reflect.DeepEqual(values, prevInfo) {
-- 
2.43.0


From ccce3b654975ab9ad305c30f91e021ad061e61cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:03 +0000
Subject: [PATCH 11/77] fix: plain, memip: read lines of any length

---
 db/format/memip/dumper.go | 4 ++++
 db/format/plain/dumper.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/db/format/memip/dumper.go b/db/format/memip/dumper.go
index f0685b5..254aa04 100644
--- a/db/format/memip/dumper.go
+++ b/db/format/memip/dumper.go
@@ -49,9 +49,13 @@ func newDumper(data []byte) (tRet *traversal, err error) {
 	}
 	bio := bytes.NewReader(data)
 	scanner := bufio.NewScanner(bio)
+	scanner.Buffer(nil, len(data)+1)
 	for scanner.Scan() {
 		t.lines = append(t.lines, scanner.Text())
 	}
+	if err := scanner.Err(); err != nil {
+		return nil, err
+	}
 	return t, nil
 }
 
diff --git a/db/format/plain/dumper.go b/db/format/plain/dumper.go
index 9315938..86a3b8e 100644
--- a/db/format/plain/dumper.go
+++ b/db/format/plain/dumper.go
@@ -38,6 +38,7 @@ func newDumper(data []byte) (tRet *traversal, err error) {
 	t := &traversal{}
 	bio := bytes.NewReader(data)
 	scanner := bufio.NewScanner(bio)
+	scanner.Buffer(nil, len(data)+1)
 	lineOffset := 0
 	for scanner.Scan() {
 		if lineOffset == 0 {
@@ -58,6 +59,9 @@ func newDumper(data []byte) (tRet *traversal, err error) {
 		}
 		lineOffset += 1
 	}
+	if err := scanner.Err(); err != nil {
+		return nil, err
+	}
 	return t, nil
 }
 
-- 
2.43.0


From 9d68acce268f50b4de512a5c2b5d23d4b064d378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:07 +0000
Subject: [PATCH 12/77] fix: plain, memip: keep the rows after the one holding
 the last address

---
 db/format/memip/dumper.go | 3 ---
 db/format/plain/dumper.go | 5 -----
 2 files changed, 8 deletions(-)

diff --git a/db/format/memip/dumper.go b/db/format/memip/dumper.go
index 254aa04..c84ea55 100644
--- a/db/format/memip/dumper.go
+++ b/db/format/memip/dumper.go
@@ -129,9 +129,6 @@ func (t *traversal) Dump(_ inf.Exporter) (*inf.IpData, error) {
 			values = prevInfo
 		}
 		rows = append(rows, row{rg: cidr, view: values})
-		if ipnet.IsAllMask(cidr.End) {
-			break
-		}
 		prevInfo = values
 	}
 	var ipd = inf.IpData{
diff --git a/db/format/plain/dumper.go b/db/format/plain/dumper.go
index 86a3b8e..a71e0ac 100644
--- a/db/format/plain/dumper.go
+++ b/db/format/plain/dumper.go
@@ -12,7 +12,6 @@ import (
 	"github.com/qiniu/uip/db/field"
 	"github.com/qiniu/uip/db/field/export"
 	"github.com/qiniu/uip/db/inf"
-	"github.com/qiniu/uip/ipnet"
 )
 
 func dump(data []byte, exporter inf.Exporter) (*inf.IpData, error) {
@@ -134,10 +133,6 @@ func (t *traversal) Dump(exporter inf.Exporter) (*inf.IpData, error) {
 		}
 
 		ret.Ips = append(ret.Ips, inf.IpRaw{Cidr: cidr, FieldValues: values})
-		last := ipnet.LastIP(cidr)
-		if ipnet.IsAllMask(last) {
-			break
-		}
 		prevInfo = values
 	}
 
-- 
2.43.0


From aa2db8233ee7464ac4463824c4484f23768b2381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:11 +0000
Subject: [PATCH 13/77] fix: memip: tell the family by the addresses, not by
 colons in the view

---
 db/format/memip/dumper.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/db/format/memip/dumper.go b/db/format/memip/dumper.go
index c84ea55..452eee3 100644
--- a/db/format/memip/dumper.go
+++ b/db/format/memip/dumper.go
@@ -108,13 +108,6 @@ type row struct {
 	view []string
 }
 
-func (t *traversal) ipVer() inf.IpType {
-	if strings.Contains(t.lines[0], ":") {
-		return inf.IpV6
-	}
-	return inf.IpV4
-}
-
 func (t *traversal) Dump(_ inf.Exporter) (*inf.IpData, error) {
 	var rows []row
 
@@ -145,7 +138,10 @@ func (t *traversal) Dump(_ inf.Exporter) (*inf.IpData, error) {
 		}
 	}
 	t.Version.Count = uint32(len(ipd.Ips))
-	t.Version.IpType = t.ipVer()
+	t.Version.IpType = inf.IpV4
+	if len(rows) > 0 && rows[0].rg.Start.To4() == nil {
+		t.Version.IpType = inf.IpV6
+	}
 	return &ipd, nil
 }
 
-- 
2.43.0


From 86c8b50c77aef69e0eac2344688c6040899fb384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:30 +0000
Subject: [PATCH 14/77] fix: memip: pack data without rows

---
 db/format/memip/packer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/db/format/memip/packer.go b/db/format/memip/packer.go
index f9e0330..4aaa28a 100644
--- a/db/format/memip/packer.go
+++ b/db/format/memip/packer.go
@@ -35,7 +35,9 @@ func pack(ipd *inf.IpData, writer io.Writer) error {
 			prev.f = values
 		}
 	}
-	ipRanges = append(ipRanges, prev)
+	if prev.r != nil {
+		ipRanges = append(ipRanges, prev)
+	}
 	for _, rf := range ipRanges {
 		view := strings.Join(rf.f, "-")
 		if ipd.Version.IsIpV4() {
-- 
2.43.0


From f1440d446e75e23740224fb8b230ee7325324c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:04 +0000
Subject: [PATCH 15/77] fix: plain: pack without changing the caller's values

---
 db/format/plain/packer.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/db/format/plain/packer.go b/db/format/plain/packer.go
index 8ebffd1..2f2ce66 100644
--- a/db/format/plain/packer.go
+++ b/db/format/plain/packer.go
@@ -19,8 +19,7 @@ func pack(ipd *inf.IpData, writer io.Writer) error {
 	fmt.Fprintf(writer, "#### %s\n", string(verStr))
 	fmt.Fprintf(writer, "#### %s\n", strings.Join(ipd.Fields, ","))
 	for _, v := range ipd.Ips {
-		replaceComma(&v)
-		_, err = fmt.Fprintf(writer, "%s\t%s\n", v.Cidr, strings.Join(v.FieldValues, ","))
+		_, err = fmt.Fprintf(writer, "%s\t%s\n", v.Cidr, strings.Join(replaceComma(v.FieldValues), ","))
 		if err != nil {
 			return err
 		}
@@ -28,8 +27,11 @@ func pack(ipd *inf.IpData, writer io.Writer) error {
 	return nil
 }
 
-func replaceComma(s *inf.IpRaw) {
-	for i, v := range s.FieldValues {
-		s.FieldValues[i] = strings.Replace(v, ",", "_", -1)
+// replaceComma returns the values as they are written, the caller keeps its own
+func replaceComma(values []string) []string {
+	ret := make([]string, len(values))
+	for i, v := range values {
+		ret[i] = strings.Replace(v, ",", "_", -1)
 	}
+	return ret
 }
-- 
2.43.0


From c371a3ae3214554502fb8a9f1b683722e59bff9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:24 +0000
Subject: [PATCH 16/77] fix: ipdb: pack without changing the caller's values

---
 db/format/ipdb/writer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/db/format/ipdb/writer.go b/db/format/ipdb/writer.go
index 48f9b52..87bb992 100644
--- a/db/format/ipdb/writer.go
+++ b/db/format/ipdb/writer.go
@@ -124,6 +124,7 @@ func (p *Writer) insert(ipNet *net.IPNet, values []string) error {
 		return db.ErrCIDRConflict
 	}
 	if p.continentOffset >= 0 {
+		values = append([]string(nil), values...) // the caller keeps its own
 		switch values[p.continentOffset] {
 		case "亚洲":
 			values[p.continentOffset] = "AS"
-- 
2.43.0


From be34080e68ad2b6cd1a47ec25010c5cd3cc2ee01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:28 +0000
Subject: [PATCH 17/77] fix: plain, memip: report write errors

---
 db/format/memip/packer.go | 8 ++++++--
 db/format/plain/packer.go | 8 +++++---
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/db/format/memip/packer.go b/db/format/memip/packer.go
index 4aaa28a..b1ca459 100644
--- a/db/format/memip/packer.go
+++ b/db/format/memip/packer.go
@@ -40,10 +40,14 @@ func pack(ipd *inf.IpData, writer io.Writer) error {
 	}
 	for _, rf := range ipRanges {
 		view := strings.Join(rf.f, "-")
+		var err error
 		if ipd.Version.IsIpV4() {
-			fmt.Fprintf(writer, "%d %d %s\n", ipnet.IPv4ToUint32(rf.r.Start), ipnet.IPv4ToUint32(rf.r.End), view)
+			_, err = fmt.Fprintf(writer, "%d %d %s\n", ipnet.IPv4ToUint32(rf.r.Start), ipnet.IPv4ToUint32(rf.r.End), view)
 		} else {
-			fmt.Fprintf(writer, "%s %s %s\n", rf.r.Start.String(), rf.r.End.String(), view)
+			_, err = fmt.Fprintf(writer, "%s %s %s\n", rf.r.Start.String(), rf.r.End.String(), view)
+		}
+		if err != nil {
+			return err
 		}
 	}
 	return nil
diff --git a/db/format/plain/packer.go b/db/format/plain/packer.go
index 2f2ce66..e34dca6 100644
--- a/db/format/plain/packer.go
+++ b/db/format/plain/packer.go
@@ -15,9 +15,11 @@ func pack(ipd *inf.IpData, writer io.Writer) error {
 	if err != nil {
 		return err
 	}
-	fmt.Fprintf(writer, "#### scan dump %s ####\n", time.Now().String())
-	fmt.Fprintf(writer, "#### %s\n", string(verStr))
-	fmt.Fprintf(writer, "#### %s\n", strings.Join(ipd.Fields, ","))
+	_, err = fmt.Fprintf(writer, "#### scan dump %s ####\n#### %s\n#### %s\n",
+		time.Now().String(), string(verStr), strings.Join(ipd.Fields, ","))
+	if err != nil {
+		return err
+	}
 	for _, v := range ipd.Ips {
 		_, err = fmt.Fprintf(writer, "%s\t%s\n", v.Cidr, strings.Join(replaceComma(v.FieldValues), ","))
 		if err != nil {
-- 
2.43.0


From 55a787c09a2ce326c9d36e726c726ea65b06bd40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:37 +0000
Subject: [PATCH 18/77] fix: convert: leave files of unsupported formats alone

---
 db/convert/packer.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/db/convert/packer.go b/db/convert/packer.go
index c676d96..bf60657 100644
--- a/db/convert/packer.go
+++ b/db/convert/packer.go
@@ -13,13 +13,20 @@ import (
 )
 
 func PackFile(ipFile string, ipData *inf.IpData) error {
+	extend := path.Ext(ipFile)
+	if format.GetPackFormat(extend) == nil {
+		log.Println("Unsupported ip file format ", ipFile, extend)
+		return db.ErrUnsupportedFormat
+	}
 	file, err := os.Create(ipFile)
 	if err != nil {
 		return err
 	}
-	defer file.Close()
-	extend := path.Ext(ipFile)
-	return PackWriter(extend, ipData, file)
+	if err = PackWriter(extend, ipData, file); err != nil {
+		file.Close()
+		return err
+	}
+	return file.Close()
 }
 
 func PackBytes(kind string, ipData *inf.IpData) ([]byte, error) {
-- 
2.43.0


From bcdb5612bc5d4736dc1df345b083f5306f0435d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:41 +0000
Subject: [PATCH 19/77] fix: query: return the error of an unreadable file

---
 db/query/query.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/db/query/query.go b/db/query/query.go
index b7f5b7c..3311c3e 100644
--- a/db/query/query.go
+++ b/db/query/query.go
@@ -20,7 +20,7 @@ type Db struct {
 func NewDb(file string) (*Db, error) {
 	b, err := os.ReadFile(file)
 	if err != nil {
-		panic(err)
+		return nil, err
 	}
 	extend := path.Ext(file)
 	return NewDbFromBytes(extend, b)
-- 
2.43.0


From 8a9534dfa986edf7cb9eb981529808c815918824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:47 +0000
Subject: [PATCH 20/77] fix: plain: refuse missing or damaged head lines

---
 db/format/plain/dumper.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/db/format/plain/dumper.go b/db/format/plain/dumper.go
index a71e0ac..1c58f77 100644
--- a/db/format/plain/dumper.go
+++ b/db/format/plain/dumper.go
@@ -9,11 +9,14 @@ import (
 	"reflect"
 	"strings"
 
+	"github.com/qiniu/uip/db"
 	"github.com/qiniu/uip/db/field"
 	"github.com/qiniu/uip/db/field/export"
 	"github.com/qiniu/uip/db/inf"
 )
 
+var headPrefix = []byte("#### ")
+
 func dump(data []byte, exporter inf.Exporter) (*inf.IpData, error) {
 	t, err := newDumper(data)
 	if err != nil {
@@ -40,19 +43,19 @@ func newDumper(data []byte) (tRet *traversal, err error) {
 	scanner.Buffer(nil, len(data)+1)
 	lineOffset := 0
 	for scanner.Scan() {
+		if lineOffset < 3 && !bytes.HasPrefix(scanner.Bytes(), headPrefix) {
+			return nil, errors.New("invalid head: " + scanner.Text())
+		}
 		if lineOffset == 0 {
 			// ignore title
 		} else if lineOffset == 1 {
-			//	ignore prefix "#### "
-			err := json.Unmarshal(scanner.Bytes()[5:], &t.Version)
+			err := json.Unmarshal(scanner.Bytes()[len(headPrefix):], &t.Version)
 			if err != nil {
 				return nil, err
 			}
 		} else if lineOffset == 2 {
-			//	ignore prefix "#### "
-			b := scanner.Bytes()[5:]
+			b := scanner.Bytes()[len(headPrefix):]
 			t.Fields = strings.Split(string(b), ",")
-			t.lines = make([]string, 0, t.Version.Count+1)
 		} else {
 			t.lines = append(t.lines, scanner.Text())
 		}
@@ -61,6 +64,9 @@ func newDumper(data []byte) (tRet *traversal, err error) {
 	if err := scanner.Err(); err != nil {
 		return nil, err
 	}
+	if t.Version == nil || t.Fields == nil {
+		return nil, db.ErrMetaNotFound
+	}
 	return t, nil
 }
 
@@ -111,7 +117,7 @@ func (t *traversal) Dump(exporter inf.Exporter) (*inf.IpData, error) {
 		ret.Fields = exporter.Fields()
 	}
 	fieldsMap = export.Select(fieldToMap(t.Fields), ret.Fields)
-	ret.Ips = make([]inf.IpRaw, 0, t.Version.Count+1)
+	ret.Ips = make([]inf.IpRaw, 0, len(t.lines))
 	var prevInfo []string
 	for _, line := range t.lines {
 		cidr, info, err := t.parseLine(line)
-- 
2.43.0


From 99916422ddfb2c871bcd4a7d8f1a45f1bec535ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:00 +0000
Subject: [PATCH 21/77] fix: memip: refuse lines with a bad range or view

---
 db/format/memip/dumper.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/db/format/memip/dumper.go b/db/format/memip/dumper.go
index 452eee3..1f10877 100644
--- a/db/format/memip/dumper.go
+++ b/db/format/memip/dumper.go
@@ -99,8 +99,14 @@ func parseLine(line string) (*ipnet.Range, []string, error) {
 		rg = parseV4Range(array[0:2])
 	}
 
-	view := array[2]
-	return rg, splitView(view), nil
+	if rg == nil || ipnet.IPLess(rg.End, rg.Start) {
+		return nil, nil, errors.New("bad range:" + line)
+	}
+	view := splitView(array[2])
+	if len(view) != len(fields) {
+		return nil, nil, errors.New("bad view:" + line)
+	}
+	return rg, view, nil
 }
 
 type row struct {
-- 
2.43.0


From 2e1b71c466bcf7dd8fdbb34b50f6c57c83b5412c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:00 +0000
Subject: [PATCH 22/77] fix: ipdb: refuse files shorter than the length of the
 metadata

---
 db/format/ipdb/reader.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/db/format/ipdb/reader.go b/db/format/ipdb/reader.go
index cff845a..8ecff8e 100644
--- a/db/format/ipdb/reader.go
+++ b/db/format/ipdb/reader.go
@@ -47,6 +47,9 @@ const iOff = 5
 
 func newReaderFromBytes(data []byte) (*reader, error) {
 	var meta MetaData
+	if len(data) < 4 {
+		return nil, db2.ErrFileSize
+	}
 	metaLength := int(binary.BigEndian.Uint32(data[0:4]))
 	if len(data) < (4 + metaLength) {
 		return nil, db2.ErrFileSize
-- 
2.43.0


From 8efef9f1cf32a8a7b1972d4498332f8b99ba3819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:12 +0000
Subject: [PATCH 23/77] fix: ipdb: refuse a node count the file cannot hold

---
 db/format/ipdb/reader.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/db/format/ipdb/reader.go b/db/format/ipdb/reader.go
index 8ecff8e..68c51da 100644
--- a/db/format/ipdb/reader.go
+++ b/db/format/ipdb/reader.go
@@ -63,6 +63,9 @@ func newReaderFromBytes(data []byte) (*reader, error) {
 	if len(data) != (4 + metaLength + meta.TotalSize) {
 		return nil, db2.ErrFileSize
 	}
+	if meta.NodeCount < 0 || meta.NodeCount > meta.TotalSize/8 {
+		return nil, db2.ErrMetaData
+	}
 
 	db := &reader{
 		fileSize:        len(data),
-- 
2.43.0


From fac7bfe769d0438226b0d4dbcc2a3bd92e39f041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:01 +0000
Subject: [PATCH 24/77] fix: export: give up on trees that lead to far more
 networks than they have nodes

---
 db/field/export/export.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/db/field/export/export.go b/db/field/export/export.go
index 85dd7f2..e383e74 100644
--- a/db/field/export/export.go
+++ b/db/field/export/export.go
@@ -5,6 +5,7 @@ import (
 	"reflect"
 	"strings"
 
+	"github.com/qiniu/uip/db"
 	"github.com/qiniu/uip/db/field"
 	"github.com/qiniu/uip/db/inf"
 	"github.com/qiniu/uip/ipnet"
@@ -205,8 +206,14 @@ func BuildIPData(fieldMap map[string]string, fields []string, ept inf.Exporter,
 		marker = net.IPv4zero
 	}
 
+	// a tree has one leaf more than nodes, some databases reach a part of it in several ways
+	maxRows := 8 * (int(version.Count) + 1)
+
 	var prevInfo []string
 	for {
+		if len(ret.Ips) >= maxRows {
+			return nil, db.ErrDatabaseIsInvalid
+		}
 		cidr, info, err := find(marker)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 4f91bc017a66b965db15c0e6361f29ca727de41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:29 +0000
Subject: [PATCH 25/77] fix: ipdb: check that a record's length lies in the
 file

---
 db/format/ipdb/reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/db/format/ipdb/reader.go b/db/format/ipdb/reader.go
index 68c51da..83a214f 100644
--- a/db/format/ipdb/reader.go
+++ b/db/format/ipdb/reader.go
@@ -260,7 +260,7 @@ func (db *reader) readNode(node, indexBit int) int {
 
 func (db *reader) resolve(node int) ([]byte, error) {
 	resolved := node - db.nodeCount + db.nodeCount*8
-	if resolved >= db.fileSize {
+	if resolved+2 > len(db.data) {
 		return nil, db2.ErrDatabaseError
 	}
 
-- 
2.43.0


From 475e9ccaca93bdfcc5bf9cd5f9a35eb2b7ccd2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:01 +0000
Subject: [PATCH 26/77] fix: ipdb: check the column offset of the language

---
 db/format/ipdb/reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/db/format/ipdb/reader.go b/db/format/ipdb/reader.go
index 83a214f..0b4d87f 100644
--- a/db/format/ipdb/reader.go
+++ b/db/format/ipdb/reader.go
@@ -151,7 +151,7 @@ func (db *reader) decodeInfo(body []byte, off int) ([]string, error) {
 	str := (*string)(unsafe.Pointer(&body))
 	tmp := strings.Split(*str, "\t")
 
-	if (off + len(db.meta.Fields)) > len(tmp) {
+	if off < 0 || off > len(tmp)-len(db.meta.Fields) {
 		return nil, db2.ErrDatabaseError
 	}
 	ret := tmp[off : off+len(db.meta.Fields)]
-- 
2.43.0


From 3254c1de09adf865a10aed63928a4c4b8210d20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:53 +0000
Subject: [PATCH 27/77] fix: field: list a column once when the source repeats
 it

---
 db/field/fields.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/db/field/fields.go b/db/field/fields.go
index b92ecd8..7610762 100644
--- a/db/field/fields.go
+++ b/db/field/fields.go
@@ -79,7 +79,7 @@ func ExtKeys(f map[string]string, internFields []string) []string {
 	var keys []string
 	for _, v := range internFields {
 		for k, v2 := range f {
-			if v == v2 {
+			if v == v2 && !InArray(k, keys) {
 				keys = append(keys, k)
 			}
 		}
-- 
2.43.0


From 74c7b452d9a2bc6c5e2cece35131111bdb3e89ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:08 +0000
Subject: [PATCH 28/77] fix: operate: merge data without networks

---
 db/field/operate/replace.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/db/field/operate/replace.go b/db/field/operate/replace.go
index c4944ed..0b99d57 100644
--- a/db/field/operate/replace.go
+++ b/db/field/operate/replace.go
@@ -118,7 +118,9 @@ func MergeNearNetwork(ipd *inf.IpData) {
 			prev.f = ip.FieldValues
 		}
 	}
-	ipRanges = append(ipRanges, prev)
+	if prev.r != nil {
+		ipRanges = append(ipRanges, prev)
+	}
 	ipd.Ips = make([]inf.IpRaw, 0, len(ipd.Ips))
 	for _, ipRange := range ipRanges {
 		subs := ipRange.r.IPNets()
-- 
2.43.0


From 60689fcf09628f268fcb05427521db0d06f32855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:09 +0000
Subject: [PATCH 29/77] fix: operate: clean up ISPs when ISP or AS number is
 the first column

---
 db/field/operate/replace.go | 20 +++-----------------
 1 file changed, 3 insertions(+), 17 deletions(-)

diff --git a/db/field/operate/replace.go b/db/field/operate/replace.go
index 0b99d57..0abcdbd 100644
--- a/db/field/operate/replace.go
+++ b/db/field/operate/replace.go
@@ -23,24 +23,14 @@ func asnMatchIsp(s string, set map[string]map[string]bool) string {
 
 // TrimAsnIspDup some small isp use main isp bonenet whose asn is same as main isp
 func TrimAsnIspDup(data *inf.IpData) {
-	var ispOffset int
-	var asnOffset int
-	for i, f := range data.Fields {
-		if f == field.ISP {
-			ispOffset = i
-		} else if f == field.Asn {
-			asnOffset = i
-		}
-	}
-	if ispOffset == 0 {
+	ispOffset := field.Offset(field.ISP, data.Fields)
+	asnOffset := field.Offset(field.Asn, data.Fields)
+	if ispOffset == -1 || asnOffset == -1 {
 		return
 	}
 	var mainIspAsnMap = make(map[string]map[string]bool)
 	for _, row := range data.Ips {
 		isp := row.FieldValues[ispOffset]
-		if asnOffset == 0 {
-			continue
-		}
 		asn := row.FieldValues[asnOffset]
 		if field.InArray(isp, mainIsp) {
 			if _, ok := mainIspAsnMap[isp]; !ok {
@@ -53,10 +43,6 @@ func TrimAsnIspDup(data *inf.IpData) {
 		}
 	}
 
-	if asnOffset == 0 {
-		return
-	}
-
 	// replace some isp that asn appear in main isp
 	for k, row := range data.Ips {
 		isp := row.FieldValues[ispOffset]
-- 
2.43.0


From b3f5221cc8ae652d2372224d23f1f7dd8bede101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:31 +0000
Subject: [PATCH 30/77] fix: operate: a missing AS number says nothing about
 the ISP

---
 db/field/operate/replace.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/db/field/operate/replace.go b/db/field/operate/replace.go
index 0abcdbd..371200c 100644
--- a/db/field/operate/replace.go
+++ b/db/field/operate/replace.go
@@ -47,7 +47,7 @@ func TrimAsnIspDup(data *inf.IpData) {
 	for k, row := range data.Ips {
 		isp := row.FieldValues[ispOffset]
 		asn := row.FieldValues[asnOffset]
-		if field.InArray(isp, mainIsp) {
+		if asn == "" || field.InArray(isp, mainIsp) {
 			continue
 		}
 
-- 
2.43.0


From b2c21c930536cf47fb5f11a36118cddf89498141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:35 +0000
Subject: [PATCH 31/77] fix: operate: choose the same ISP on every run

---
 db/field/operate/replace.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/db/field/operate/replace.go b/db/field/operate/replace.go
index 371200c..4fd2325 100644
--- a/db/field/operate/replace.go
+++ b/db/field/operate/replace.go
@@ -13,8 +13,8 @@ import (
 var mainIsp = []string{"电信", "联通", "移动", "铁通"}
 
 func asnMatchIsp(s string, set map[string]map[string]bool) string {
-	for k, v := range set {
-		if _, ok := v[s]; ok {
+	for _, k := range mainIsp {
+		if _, ok := set[k][s]; ok {
 			return k
 		}
 	}
-- 
2.43.0


From 7ef55c5eb09b68871cab8dde578100608cb3958a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:54 +0000
Subject: [PATCH 32/77] fix: operate: add no district column without values

---
 db/field/operate/district.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/db/field/operate/district.go b/db/field/operate/district.go
index 682ade0..0fc2cea 100644
--- a/db/field/operate/district.go
+++ b/db/field/operate/district.go
@@ -52,16 +52,16 @@ var provinceDistrict = map[string]string{
 }
 
 func AttachDistrict(data *inf.IpData) {
-	districtOffset := field.Offset(field.District, data.Fields)
-	if districtOffset == -1 {
-		data.Fields = append(data.Fields, field.District)
-	}
-
 	provinceOffset := field.Offset(field.Province, data.Fields)
 	if provinceOffset == -1 {
 		return
 	}
 
+	districtOffset := field.Offset(field.District, data.Fields)
+	if districtOffset == -1 {
+		data.Fields = append(data.Fields, field.District)
+	}
+
 	for k, row := range data.Ips {
 		var district string
 		if p := row.FieldValues[provinceOffset]; p != "" {
-- 
2.43.0


From 9ea502a5cf4e9dcf2a5f6f8c26e1e374bbd9e63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:59 +0000
Subject: [PATCH 33/77] fix: operate: add no line column without values

---
 db/field/operate/line.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/db/field/operate/line.go b/db/field/operate/line.go
index 8d8291d..c599dbf 100644
--- a/db/field/operate/line.go
+++ b/db/field/operate/line.go
@@ -13,14 +13,14 @@ import (
 func AttachLineByCidr(data *inf.IpData, line inf.Query) {
 	lineVer := fmt.Sprintf("%s-%d", line.VersionInfo().Version, line.VersionInfo().Build)
 	data.Version.ExtraInfo = append(data.Version.ExtraInfo, lineVer)
-	var lineOffset int
-	if lineOffset = field.Offset(field.Line, data.Fields); lineOffset == -1 {
-		data.Fields = append(data.Fields, field.Line)
-	}
 	countryOffset := field.Offset(field.Country, data.Fields)
 	if countryOffset == -1 {
 		return
 	}
+	var lineOffset int
+	if lineOffset = field.Offset(field.Line, data.Fields); lineOffset == -1 {
+		data.Fields = append(data.Fields, field.Line)
+	}
 
 	for k, row := range data.Ips {
 		var ispline string
-- 
2.43.0


From 813f77144bd9ef3e4459733e653b96c349d77cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:34 +0000
Subject: [PATCH 34/77] fix: operate: give a line to its own row only

---
 db/field/operate/line.go    |  6 +++---
 db/field/operate/operate.go | 14 ++++++++++++++
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/db/field/operate/line.go b/db/field/operate/line.go
index c599dbf..da5493d 100644
--- a/db/field/operate/line.go
+++ b/db/field/operate/line.go
@@ -28,9 +28,9 @@ func AttachLineByCidr(data *inf.IpData, line inf.Query) {
 			ispline = queryLine(row.Cidr, line)
 		}
 		if lineOffset == -1 {
-			row.FieldValues = append(row.FieldValues, ispline)
+			row.FieldValues = withValue(row.FieldValues, len(row.FieldValues), ispline)
 		} else {
-			row.FieldValues[lineOffset] = ispline
+			row.FieldValues = withValue(row.FieldValues, lineOffset, ispline)
 		}
 		data.Ips[k] = row
 	}
@@ -110,7 +110,7 @@ func ReplaceLineByCidr(data *inf.IpData, line inf.Query) {
 			ispline = queryLine(row.Cidr, line)
 		}
 		if ispline != "" {
-			row.FieldValues[ispOffset] = ispline
+			row.FieldValues = withValue(row.FieldValues, ispOffset, ispline)
 			data.Ips[k] = row
 		}
 	}
diff --git a/db/field/operate/operate.go b/db/field/operate/operate.go
index 4aa30bd..7d072ec 100644
--- a/db/field/operate/operate.go
+++ b/db/field/operate/operate.go
@@ -9,3 +9,17 @@ var DefaultOperates = []Operate{
 	TrimAsnIspDup,
 	MergeNearNetwork,
 }
+
+// withValue gives the values with v at offset i, the next offset being a new column.
+// The values themselves stay as they are, rows may share them.
+func withValue(values []string, i int, v string) []string {
+	if i >= len(values) {
+		return append(values[:len(values):len(values)], v)
+	}
+	if values[i] == v {
+		return values
+	}
+	ret := append([]string(nil), values...)
+	ret[i] = v
+	return ret
+}
-- 
2.43.0


From ce0e3218677c197baeaa088bff6289e7bc51ce8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:05 +0000
Subject: [PATCH 35/77] fix: operate: normalise values shared by rows once

---
 db/field/operate/replace.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/db/field/operate/replace.go b/db/field/operate/replace.go
index 4fd2325..666efdb 100644
--- a/db/field/operate/replace.go
+++ b/db/field/operate/replace.go
@@ -65,11 +65,18 @@ func ReplaceShortage(ipdata *inf.IpData) {
 			offsets[i] = v
 		}
 	}
+	var prev []string
 	for k, row := range ipdata.Ips {
-		for i, v := range row.FieldValues {
+		if k > 0 && len(prev) > 0 && len(prev) == len(row.FieldValues) && &prev[0] == &row.FieldValues[0] {
+			// shares its values with the row before
+			ipdata.Ips[k].FieldValues = ipdata.Ips[k-1].FieldValues
+			continue
+		}
+		prev = row.FieldValues
+		for i, v := range prev {
 			if m, ok := offsets[i]; ok {
 				if v, ok := m[v]; ok {
-					ipdata.Ips[k].FieldValues[i] = v
+					ipdata.Ips[k].FieldValues = withValue(ipdata.Ips[k].FieldValues, i, v)
 				}
 			}
 		}
-- 
2.43.0


From 4d46192e8a12a02bc1647f62a5c8fb9d30051b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:23 +0000
Subject: [PATCH 36/77] fix: operate: fill a new line column in every row

---
 db/field/operate/line.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/db/field/operate/line.go b/db/field/operate/line.go
index da5493d..66bcc7d 100644
--- a/db/field/operate/line.go
+++ b/db/field/operate/line.go
@@ -67,6 +67,9 @@ func AttachLineByAsn(data *inf.IpData, asnLine map[string]string, asnLineVer str
 				row.FieldValues[lineOffset] = line
 			}
 			data.Ips[k] = row
+		} else if hasLine {
+			row.FieldValues = append(row.FieldValues, "")
+			data.Ips[k] = row
 		}
 	}
 }
-- 
2.43.0


From 95192940389c419b0b766ec6484e6d9bf72a79e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:26 +0000
Subject: [PATCH 37/77] fix: operate: find the AS number column wherever it
 stands

---
 db/field/operate/line.go | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/db/field/operate/line.go b/db/field/operate/line.go
index 66bcc7d..4b3d460 100644
--- a/db/field/operate/line.go
+++ b/db/field/operate/line.go
@@ -38,25 +38,17 @@ func AttachLineByCidr(data *inf.IpData, line inf.Query) {
 
 func AttachLineByAsn(data *inf.IpData, asnLine map[string]string, asnLineVer string) {
 	data.Version.ExtraInfo = append(data.Version.ExtraInfo, asnLineVer)
-	var hasLine bool
-	var lineOffset int
-	var asnOffset int
 	// if there is no asn field, return
-	if !field.InArray(field.Asn, data.Fields) {
+	asnOffset := field.Offset(field.Asn, data.Fields)
+	if asnOffset == -1 {
 		return
 	}
-	if !field.InArray(field.Line, data.Fields) {
+	var hasLine bool
+	lineOffset := field.Offset(field.Line, data.Fields)
+	if lineOffset == -1 {
 		data.Fields = append(data.Fields, field.Line)
 		hasLine = true
 		lineOffset = len(data.Fields) - 1
-	} else {
-		for i, f := range data.Fields {
-			if f == field.Line {
-				lineOffset = i
-			} else if f == field.Asn {
-				asnOffset = i
-			}
-		}
 	}
 	for k, row := range data.Ips {
 		asn := row.FieldValues[asnOffset]
-- 
2.43.0


From 4fd716ae4526ff755cb5b099d9336a13ccbd7f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:29 +0000
Subject: [PATCH 38/77] fix: operate: attach the listed line to rows without
 one

---
 db/field/operate/line.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/db/field/operate/line.go b/db/field/operate/line.go
index 4b3d460..4a9700f 100644
--- a/db/field/operate/line.go
+++ b/db/field/operate/line.go
@@ -55,8 +55,8 @@ func AttachLineByAsn(data *inf.IpData, asnLine map[string]string, asnLineVer str
 		if line, ok := asnLine[asn]; ok {
 			if hasLine {
 				row.FieldValues = append(row.FieldValues, line)
-			} else if line == "" {
-				row.FieldValues[lineOffset] = line
+			} else if row.FieldValues[lineOffset] == "" {
+				row.FieldValues = withValue(row.FieldValues, lineOffset, line)
 			}
 			data.Ips[k] = row
 		} else if hasLine {
-- 
2.43.0


From 4e3033a9c5adc9fc4aa0a3b93ae8d2ef651910f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:49 +0000
Subject: [PATCH 39/77] fix: awdb: do not store a large unsigned number as a
 negative one

---
 db/format/awdb/decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/db/format/awdb/decoder.go b/db/format/awdb/decoder.go
index 98addb8..de5fdf2 100644
--- a/db/format/awdb/decoder.go
+++ b/db/format/awdb/decoder.go
@@ -376,7 +376,7 @@ func (d *decoder) unmarshalUint(size uint, offset uint, result reflect.Value, ui
 	switch result.Kind() {
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
 		n := int64(value)
-		if !result.OverflowInt(n) {
+		if value <= math.MaxInt64 && !result.OverflowInt(n) {
 			result.SetInt(n)
 			return newOffset, nil
 		}
-- 
2.43.0


From dbeb511b4a95e4c205b1e02e188fe2bb47035069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:30 +0000
Subject: [PATCH 40/77] fix: awdb: do not store a negative number as a huge
 unsigned one

---
 db/format/awdb/decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/db/format/awdb/decoder.go b/db/format/awdb/decoder.go
index de5fdf2..218d26b 100644
--- a/db/format/awdb/decoder.go
+++ b/db/format/awdb/decoder.go
@@ -280,7 +280,7 @@ func (d *decoder) unmarshalInt32(size uint, offset uint, result reflect.Value) (
 		}
 	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
 		n := uint64(value)
-		if !result.OverflowUint(n) {
+		if value >= 0 && !result.OverflowUint(n) {
 			result.SetUint(n)
 			return newOffset, nil
 		}
-- 
2.43.0


From 27dceeb7171b1742404e60d24b10e703ad2d8c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:40 +0000
Subject: [PATCH 41/77] fix: awdb: decode every map element into its own value

---
 db/format/awdb/decoder.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/db/format/awdb/decoder.go b/db/format/awdb/decoder.go
index 218d26b..9f8cf05 100644
--- a/db/format/awdb/decoder.go
+++ b/db/format/awdb/decoder.go
@@ -462,8 +462,6 @@ func (d *decoder) decodeMap(
 	mapType := result.Type()
 	keyValue := reflect.New(mapType.Key()).Elem()
 	elemType := mapType.Elem()
-	elemKind := elemType.Kind()
-	var elemValue reflect.Value
 	for i := uint(0); i < size; i++ {
 		var key []byte
 		var err error
@@ -473,10 +471,7 @@ func (d *decoder) decodeMap(
 			return 0, err
 		}
 
-		if !elemValue.IsValid() || elemKind == reflect.Interface {
-			elemValue = reflect.New(elemType).Elem()
-		}
-
+		elemValue := reflect.New(elemType).Elem()
 		offset, err = d.decode(offset, elemValue, depth)
 		if err != nil {
 			return 0, err
-- 
2.43.0


From d0e903edb4801ae76886b173c802ec0e851e38da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:35 +0000
Subject: [PATCH 42/77] fix: awdb: refuse to decode into maps without string
 keys

---
 db/format/awdb/decoder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/db/format/awdb/decoder.go b/db/format/awdb/decoder.go
index 9f8cf05..24b28f5 100644
--- a/db/format/awdb/decoder.go
+++ b/db/format/awdb/decoder.go
@@ -306,6 +306,9 @@ func (d *decoder) unmarshalMap(
 	case reflect.Struct:
 		return d.decodeStruct(size, offset, result, depth)
 	case reflect.Map:
+		if result.Type().Key().Kind() != reflect.String {
+			return 0, newUnmarshalTypeError("map", result.Type())
+		}
 		return d.decodeMap(size, offset, result, depth)
 	case reflect.Interface:
 		if result.NumMethod() == 0 {
-- 
2.43.0


From 33599e2037522dde040024d05a6deaaa805c19c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:22 +0000
Subject: [PATCH 43/77] fix: awdb: leave unexported structure fields alone

---
 db/format/awdb/decoder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/db/format/awdb/decoder.go b/db/format/awdb/decoder.go
index 24b28f5..ad9bc2b 100644
--- a/db/format/awdb/decoder.go
+++ b/db/format/awdb/decoder.go
@@ -618,6 +618,10 @@ func cachedFields(result reflect.Value) *fieldsType {
 			anonymous = append(anonymous, i)
 			continue
 		}
+		if field.PkgPath != "" {
+			// an unexported field cannot be set
+			continue
+		}
 		namedFields[fieldName] = i
 	}
 	fields := &fieldsType{namedFields, anonymous}
-- 
2.43.0


From 406b7eb31583a9deed6451bbfea14f1a3f3430b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:41 +0000
Subject: [PATCH 44/77] fix: awdb: skip values in a loop

---
 db/format/awdb/decoder.go | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/db/format/awdb/decoder.go b/db/format/awdb/decoder.go
index ad9bc2b..e95ed25 100644
--- a/db/format/awdb/decoder.go
+++ b/db/format/awdb/decoder.go
@@ -688,26 +688,26 @@ func (d *decoder) decodeKey(offset uint) ([]byte, uint, error) {
 // the one at the offset passed in. The size bits have different meanings for
 // different data types
 func (d *decoder) nextValueOffset(offset uint, numberToSkip uint) (uint, error) {
-	if numberToSkip == 0 {
-		return offset, nil
-	}
-	typeNum, size, offset, err := d.decodeCtrlData(offset)
-	if err != nil {
-		return 0, err
-	}
-	switch typeNum {
-	case _Pointer:
-		_, offset, err = d.decodePointer(size, offset)
+	for ; numberToSkip > 0; numberToSkip-- {
+		typeNum, size, newOffset, err := d.decodeCtrlData(offset)
 		if err != nil {
 			return 0, err
 		}
-	case _Map:
-		numberToSkip += 2 * size
-	case _Slice:
-		numberToSkip += size
-	case _Bool:
-	default:
-		offset += size
+		offset = newOffset
+		switch typeNum {
+		case _Pointer:
+			_, offset, err = d.decodePointer(size, offset)
+			if err != nil {
+				return 0, err
+			}
+		case _Map:
+			numberToSkip += 2 * size
+		case _Slice:
+			numberToSkip += size
+		case _Bool:
+		default:
+			offset += size
+		}
 	}
-	return d.nextValueOffset(offset, numberToSkip-1)
+	return offset, nil
 }
-- 
2.43.0


From 858a47a0325af52155f442697c72d4ff9de121ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:52 +0000
Subject: [PATCH 45/77] fix: awdb: do not hand out the address an enumeration
 was given

---
 db/format/awdb/traverse.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/db/format/awdb/traverse.go b/db/format/awdb/traverse.go
index 889ba3d..e5d0f9a 100644
--- a/db/format/awdb/traverse.go
+++ b/db/format/awdb/traverse.go
@@ -62,7 +62,9 @@ func (r *Reader) NetworksWithin(network *net.IPNet) *Networks {
 		reader: r,
 		nodes: []netNode{
 			{
-				ip:      ip,
+				// the networks visited get an address of their own, the one of the
+				// caller stays as it is
+				ip:      append(net.IP(nil), ip...),
 				bit:     uint(bit),
 				pointer: pointer,
 			},
-- 
2.43.0


From e23388fd341e4ab4aa6ae9c6a1960cab6ab1f9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:23 +0000
Subject: [PATCH 46/77] fix: awdb: look for IPv4 networks where an IPv6
 database has them

---
 db/format/awdb/traverse.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/db/format/awdb/traverse.go b/db/format/awdb/traverse.go
index e5d0f9a..e76e53f 100644
--- a/db/format/awdb/traverse.go
+++ b/db/format/awdb/traverse.go
@@ -53,7 +53,8 @@ func (r *Reader) NetworksWithin(network *net.IPNet) *Networks {
 	prefixLength, _ := network.Mask.Size()
 
 	if r.Metadata.IPVersion == 6 && len(ip) == net.IPv4len {
-		ip = net.IP.To16(ip)
+		// the IPv4 networks are those below ::/96
+		ip = append(make(net.IP, net.IPv6len-net.IPv4len), ip...)
 		prefixLength += 96
 	}
 
-- 
2.43.0


From 460cc86450210bb998eb197461eefa2546c17451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:35 +0000
Subject: [PATCH 47/77] fix: awdb: an IPv4 database has no networks within an
 IPv6 one

---
 db/format/awdb/traverse.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/db/format/awdb/traverse.go b/db/format/awdb/traverse.go
index e76e53f..4efa9b3 100644
--- a/db/format/awdb/traverse.go
+++ b/db/format/awdb/traverse.go
@@ -1,6 +1,7 @@
 package awdb
 
 import (
+	"fmt"
 	"net"
 )
 
@@ -52,6 +53,13 @@ func (r *Reader) NetworksWithin(network *net.IPNet) *Networks {
 	ip := network.IP
 	prefixLength, _ := network.Mask.Size()
 
+	if r.Metadata.IPVersion == 4 && len(ip) == net.IPv6len && ip.To4() == nil {
+		return &Networks{
+			reader: r,
+			err:    fmt.Errorf("error enumerating '%s': you attempted to enumerate an IPv6 network in an IPv4-only database", network),
+		}
+	}
+
 	if r.Metadata.IPVersion == 6 && len(ip) == net.IPv4len {
 		// the IPv4 networks are those below ::/96
 		ip = append(make(net.IP, net.IPv6len-net.IPv4len), ip...)
-- 
2.43.0


From 822f247b1b00dd4a5e4c2646280da75cdc0b72d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:46 +0000
Subject: [PATCH 48/77] fix: awdb: enumerate within IPv4 networks of 16 bytes

---
 db/format/awdb/traverse.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/db/format/awdb/traverse.go b/db/format/awdb/traverse.go
index 4efa9b3..fcaabdd 100644
--- a/db/format/awdb/traverse.go
+++ b/db/format/awdb/traverse.go
@@ -51,7 +51,16 @@ func (r *Reader) Networks() *Networks {
 // iterator will iterate over exactly one network, the containing network.
 func (r *Reader) NetworksWithin(network *net.IPNet) *Networks {
 	ip := network.IP
-	prefixLength, _ := network.Mask.Size()
+	prefixLength, bits := network.Mask.Size()
+	if len(ip) == net.IPv6len && ip.To4() != nil {
+		// an IPv4 network written with 16 bytes
+		if bits == 32 {
+			ip = ip.To4()
+		} else if prefixLength >= 96 {
+			ip = ip.To4()
+			prefixLength -= 96
+		}
+	}
 
 	if r.Metadata.IPVersion == 4 && len(ip) == net.IPv6len && ip.To4() == nil {
 		return &Networks{
-- 
2.43.0


From 11905fa02b7dfac8c7155d3cf5d9f2743b22806d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:01 +0000
Subject: [PATCH 49/77] fix: awdb: report the containing network without host
 bits

---
 db/format/awdb/traverse.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/db/format/awdb/traverse.go b/db/format/awdb/traverse.go
index fcaabdd..2fc4cb9 100644
--- a/db/format/awdb/traverse.go
+++ b/db/format/awdb/traverse.go
@@ -80,9 +80,9 @@ func (r *Reader) NetworksWithin(network *net.IPNet) *Networks {
 		reader: r,
 		nodes: []netNode{
 			{
-				// the networks visited get an address of their own, the one of the
-				// caller stays as it is
-				ip:      append(net.IP(nil), ip...),
+				// a copy, the address of the caller stays as it is; without the bits
+				// below the network found, which may be the containing one
+				ip:      ip.Mask(net.CIDRMask(bit, len(ip)*8)),
 				bit:     uint(bit),
 				pointer: pointer,
 			},
-- 
2.43.0


From 8f5a3458a70c58108ca3b441fa3bd494ac91d50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:26 +0000
Subject: [PATCH 50/77] fix: awdb: give up enumerating trees that lead
 everywhere

---
 db/format/awdb/traverse.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/db/format/awdb/traverse.go b/db/format/awdb/traverse.go
index 2fc4cb9..0085b07 100644
--- a/db/format/awdb/traverse.go
+++ b/db/format/awdb/traverse.go
@@ -17,6 +17,7 @@ type Networks struct {
 	reader   *Reader
 	nodes    []netNode // Nodes we still have to visit.
 	lastNode netNode
+	visited  uint // Nodes visited so far.
 	err      error
 }
 
@@ -103,6 +104,14 @@ func (n *Networks) Next() bool {
 				n.lastNode = node
 				return true
 			}
+			// some databases reach a part of the tree in several ways, but not
+			// all of it in very many
+			n.visited++
+			if n.visited > 8*(n.reader.Metadata.NodeCount+1) {
+				n.err = newInvalidDatabaseError(
+					"the search tree leads to far more networks than it has nodes")
+				return false
+			}
 			ipRight := make(net.IP, len(node.ip))
 			copy(ipRight, node.ip)
 			if len(ipRight) <= int(node.bit>>3) {
-- 
2.43.0


From b257867a227daa14e09074b3989b6d94135a3f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:32 +0000
Subject: [PATCH 51/77] fix: awdb: refuse a node count the file cannot hold

---
 db/format/awdb/reader.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/db/format/awdb/reader.go b/db/format/awdb/reader.go
index a39b421..b7d480b 100644
--- a/db/format/awdb/reader.go
+++ b/db/format/awdb/reader.go
@@ -65,6 +65,9 @@ func FromBytes(buffer []byte) (*Reader, error) {
 	}
 
 	metadataStart += detectOffset
+	if metadata.NodeCount > uint(len(buffer)) {
+		return nil, newInvalidDatabaseError("the aw DB contains invalid metadata")
+	}
 	searchTreeSize := metadata.NodeCount * metadata.RecordSize / 4
 	dataSectionStart := searchTreeSize + dataSectionSeparatorSize
 	dataSectionEnd := uint(metadataStart)
-- 
2.43.0


From 481a161e9892361ed778391782e64d4d2454920d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:45 +0000
Subject: [PATCH 52/77] fix: awdb: limit the pointers followed to a key

---
 db/format/awdb/decoder.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/db/format/awdb/decoder.go b/db/format/awdb/decoder.go
index e95ed25..c1c0d7d 100644
--- a/db/format/awdb/decoder.go
+++ b/db/format/awdb/decoder.go
@@ -662,6 +662,13 @@ func uintFromBytes(prefix uint, uintBytes []byte) uint {
 // copying the bytes when decoding a struct. Previously, we achieved this by
 // using unsafe.
 func (d *decoder) decodeKey(offset uint) ([]byte, uint, error) {
+	return d.decodeKeyAt(offset, 0)
+}
+
+func (d *decoder) decodeKeyAt(offset uint, depth int) ([]byte, uint, error) {
+	if depth > maximumDataStructureDepth {
+		return nil, 0, newInvalidDatabaseError("exceeded maximum data structure depth; database is likely corrupt")
+	}
 	typeNum, size, dataOffset, err := d.decodeCtrlData(offset)
 	if err != nil {
 		return nil, 0, err
@@ -671,7 +678,7 @@ func (d *decoder) decodeKey(offset uint) ([]byte, uint, error) {
 		if err != nil {
 			return nil, 0, err
 		}
-		key, _, err := d.decodeKey(pointer)
+		key, _, err := d.decodeKeyAt(pointer, depth+1)
 		return key, ptrOffset, err
 	}
 	if typeNum != _String {
-- 
2.43.0


From 129d43bc3e83ce6b486de001d13552558a437910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:55 +0000
Subject: [PATCH 53/77] fix: awdb: do not make room for entries the file cannot
 hold

---
 db/format/awdb/decoder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/db/format/awdb/decoder.go b/db/format/awdb/decoder.go
index c1c0d7d..9ace66a 100644
--- a/db/format/awdb/decoder.go
+++ b/db/format/awdb/decoder.go
@@ -116,6 +116,10 @@ func (d *decoder) decodeFromType(
 	depth int,
 ) (uint, error) {
 	result = d.indirect(result)
+	if (dtype == _Map || dtype == _Slice) && size > uint(len(d.buffer))-offset {
+		// every entry takes a byte at least
+		return 0, newOffsetError()
+	}
 	// For these types, size has a special meaning
 	switch dtype {
 	case _Bool:
-- 
2.43.0


From 84f20a3773203740dd39bb3abbf2c19699b0489a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:25 +0000
Subject: [PATCH 54/77] fix: awdb: refuse values that pointers make far larger
 than the file

---
 db/format/awdb/decoder.go | 31 +++++++++++++++++++++++++++++++
 db/format/awdb/reader.go  |  7 ++++---
 2 files changed, 35 insertions(+), 3 deletions(-)

diff --git a/db/format/awdb/decoder.go b/db/format/awdb/decoder.go
index 9ace66a..9254160 100644
--- a/db/format/awdb/decoder.go
+++ b/db/format/awdb/decoder.go
@@ -10,6 +10,8 @@ import (
 
 type decoder struct {
 	buffer []byte
+	// spent is about the memory the values decoded so far take.
+	spent uint
 }
 
 type dataType int
@@ -40,6 +42,16 @@ const (
 	maximumDataStructureDepth = 512
 )
 
+// spend accounts for values taking n bytes. Values may be shared by means of
+// pointers, but one that takes far more memory than the file is no real one.
+func (d *decoder) spend(n uint) error {
+	d.spent += n
+	if d.spent > 64*uint(len(d.buffer))+1<<20 {
+		return newInvalidDatabaseError("the value is far larger than the aw DB; database is likely corrupt")
+	}
+	return nil
+}
+
 func (d *decoder) decode(offset uint, result reflect.Value, depth int) (uint, error) {
 	if depth > maximumDataStructureDepth {
 		return 0, newInvalidDatabaseError("exceeded maximum data structure depth; database is likely corrupt")
@@ -48,6 +60,9 @@ func (d *decoder) decode(offset uint, result reflect.Value, depth int) (uint, er
 	if err != nil {
 		return 0, err
 	}
+	if err := d.spend(8); err != nil {
+		return 0, err
+	}
 
 	if typeNum != _Pointer && result.Kind() == reflect.Uintptr {
 		result.Set(reflect.ValueOf(uintptr(offset)))
@@ -120,6 +135,16 @@ func (d *decoder) decodeFromType(
 		// every entry takes a byte at least
 		return 0, newOffsetError()
 	}
+	var room uint
+	switch dtype {
+	case _Map, _Slice:
+		room = 32 * size
+	case _String, _Bytes:
+		room = size
+	}
+	if err := d.spend(room); err != nil {
+		return 0, err
+	}
 	// For these types, size has a special meaning
 	switch dtype {
 	case _Bool:
@@ -692,6 +717,9 @@ func (d *decoder) decodeKeyAt(offset uint, depth int) ([]byte, uint, error) {
 	if newOffset > uint(len(d.buffer)) {
 		return nil, 0, newOffsetError()
 	}
+	if err := d.spend(8 + size); err != nil {
+		return nil, 0, err
+	}
 	return d.buffer[dataOffset:newOffset], newOffset, nil
 }
 
@@ -700,6 +728,9 @@ func (d *decoder) decodeKeyAt(offset uint, depth int) ([]byte, uint, error) {
 // different data types
 func (d *decoder) nextValueOffset(offset uint, numberToSkip uint) (uint, error) {
 	for ; numberToSkip > 0; numberToSkip-- {
+		if err := d.spend(1); err != nil {
+			return 0, err
+		}
 		typeNum, size, newOffset, err := d.decodeCtrlData(offset)
 		if err != nil {
 			return 0, err
diff --git a/db/format/awdb/reader.go b/db/format/awdb/reader.go
index b7d480b..634b7cc 100644
--- a/db/format/awdb/reader.go
+++ b/db/format/awdb/reader.go
@@ -54,7 +54,7 @@ func FromBytes(buffer []byte) (*Reader, error) {
 		return nil, newInvalidDatabaseError("error opening database: invalid aw DB file")
 	}
 
-	metadataDecoder := decoder{metaIn[metadataStart+len(metadataStartMarker):]}
+	metadataDecoder := decoder{buffer: metaIn[metadataStart+len(metadataStartMarker):]}
 
 	var metadata Metadata
 
@@ -75,7 +75,7 @@ func FromBytes(buffer []byte) (*Reader, error) {
 		return nil, newInvalidDatabaseError("the aw DB contains invalid metadata")
 	}
 	d := decoder{
-		buffer[searchTreeSize+dataSectionSeparatorSize : metadataStart],
+		buffer: buffer[searchTreeSize+dataSectionSeparatorSize : metadataStart],
 	}
 
 	nodeBuffer := buffer[:searchTreeSize]
@@ -249,7 +249,8 @@ func (r *Reader) decode(offset uintptr, result interface{}) error {
 	if rv.Kind() != reflect.Ptr || rv.IsNil() {
 		return errors.New("result param must be a pointer")
 	}
-	_, err := r.decoder.decode(uint(offset), rv, 0)
+	d := decoder{buffer: r.decoder.buffer}
+	_, err := d.decode(uint(offset), rv, 0)
 	return err
 }
 
-- 
2.43.0


From 0f1083b4f88110e4b173a59840083185261ea5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:29 +0000
Subject: [PATCH 55/77] fix: awdb: end an enumeration at its first error

---
 db/format/awdb/traverse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/db/format/awdb/traverse.go b/db/format/awdb/traverse.go
index 0085b07..cddd560 100644
--- a/db/format/awdb/traverse.go
+++ b/db/format/awdb/traverse.go
@@ -95,7 +95,7 @@ func (r *Reader) NetworksWithin(network *net.IPNet) *Networks {
 // returns true if there is another network to be processed and false if there
 // are no more networks or if there is an error.
 func (n *Networks) Next() bool {
-	for len(n.nodes) > 0 {
+	for n.err == nil && len(n.nodes) > 0 {
 		node := n.nodes[len(n.nodes)-1]
 		n.nodes = n.nodes[:len(n.nodes)-1]
 
-- 
2.43.0


From 069f9fef13a75f6935b4b5d3f25444f4d3a2e3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:31 +0000
Subject: [PATCH 56/77] fix: ipdb: give every caller its own record

---
 db/format/ipdb/querier.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/db/format/ipdb/querier.go b/db/format/ipdb/querier.go
index 479e596..be928a1 100644
--- a/db/format/ipdb/querier.go
+++ b/db/format/ipdb/querier.go
@@ -45,7 +45,8 @@ func (q *querier) QueryInternal(ip net.IP, cache bool) (int, *inf.IpInfo, int, e
 	}
 	if cache {
 		if v, ok := q.queryCache[node]; ok {
-			return node, v, mask, nil
+			info := *v // the caller may change it
+			return node, &info, mask, nil
 		}
 	}
 
-- 
2.43.0


From 5302884b98726739f0c352a434e67523c82ba382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:28 +0000
Subject: [PATCH 57/77] fix: java: report addresses without a record as an
 error

---
 java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java b/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java
index 4c2e854..d1ce400 100644
--- a/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java
+++ b/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java
@@ -208,7 +208,7 @@ final class Reader {
         try {
             node = this.findNode(ip);
         } catch (NotFoundException nfe) {
-            return 0;
+            throw new IPFormatException(nfe.getMessage());
         }
 
         return node;
@@ -272,13 +272,13 @@ final class Reader {
         if (ipv4BitsCache != null && bit == 32) {
             int index = bytesToIndex(binary);
             node = ipv4BitsCache[index];
-            if (node >= this.nodeCount) {
+            if (node > this.nodeCount) {
                 return node;
             }
             i = cacheDepth;
         }
         node = readDepth(node, bit, i, binary);
-        if (node >= this.nodeCount) {
+        if (node > this.nodeCount) {
             return node;
         }
 
-- 
2.43.0


From c96ea38d57fe4e684ecb1db2bcbba5e0702e762d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:56 +0000
Subject: [PATCH 58/77] fix: java: accept IPv6 addresses starting with a colon

---
 java/src/main/java/qiniu/uip/db/Query.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/java/src/main/java/qiniu/uip/db/Query.java b/java/src/main/java/qiniu/uip/db/Query.java
index fec5376..1dc4cf7 100644
--- a/java/src/main/java/qiniu/uip/db/Query.java
+++ b/java/src/main/java/qiniu/uip/db/Query.java
@@ -51,7 +51,7 @@ public final class Query {
             throw new IPFormatException("ip is empty");
         }
 
-        if (addr.indexOf(":") > 0) {
+        if (addr.indexOf(":") >= 0) {
             ipv = IPAddress.textToNumericFormatV6(addr);
             if (ipv == null) {
                 throw new IPFormatException("ipv6 format error");
-- 
2.43.0


From a6d7128c6abcd8ed496b65edd7a6e5c368aea043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:57 +0000
Subject: [PATCH 59/77] fix: java: do not store the AS number as the line

---
 java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java | 1 +
 1 file changed, 1 insertion(+)

diff --git a/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java b/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java
index d1ce400..4281e01 100644
--- a/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java
+++ b/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java
@@ -132,6 +132,7 @@ final class Reader {
                     break;
                 case "asn":
                     info.asn = parts[i];
+                    break;
                 case "line":
                     info.line = parts[i];
                     break;
-- 
2.43.0


From a63b121548577c869f85e5c15ae8f53aaeb6437f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:49 +0000
Subject: [PATCH 60/77] fix: java: split records with leading columns

---
 java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java b/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java
index 4281e01..b9a682e 100644
--- a/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java
+++ b/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java
@@ -247,7 +247,7 @@ final class Reader {
         }
 
         final String data = new String(this.data, resolved + 2, size, StandardCharsets.UTF_8);
-        return Arrays.copyOfRange(data.split("\t", this.meta.fields.length * this.meta.languages.size()), off, off + this.meta.fields.length);
+        return Arrays.copyOfRange(data.split("\t", -1), off, off + this.meta.fields.length);
     }
 
     private int readDepth(int node, int depth, int i, byte[] binary) {
-- 
2.43.0


From fac5a259c90f84952e15edf8342261c90724e76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:10 +0000
Subject: [PATCH 61/77] fix: rust: honour the column offset of the language

---
 rust/src/formats/ipdb/reader.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/src/formats/ipdb/reader.rs b/rust/src/formats/ipdb/reader.rs
index ad9b3ff..ae8966c 100644
--- a/rust/src/formats/ipdb/reader.rs
+++ b/rust/src/formats/ipdb/reader.rs
@@ -193,7 +193,7 @@ impl Reader{
         let off = self.meta.languages.get(lang);
         match off {
             None => return Err(Error::new(ErrorKind::InvalidData, "invalid language")),
-            Some(_) => {
+            Some(off) => {
                 let resolved = node - self.node_count + self.node_count * 8;
                 if resolved >= self.file_size {
                     return Err(Error::new(ErrorKind::InvalidData, "database resolve error"));
@@ -207,7 +207,7 @@ impl Reader{
                     return Err(Error::new(ErrorKind::InvalidData, "database resolve error"));
                 }
                 let str = String::from_utf8_lossy(&self.data[resolved  + 2..resolved  + 2 + size ]);
-                let a = str.split("\t");
+                let a = str.split("\t").skip(*off as usize);
                 let r = a.map(|i| i.to_string()).collect();
                 Ok(r)
             }
-- 
2.43.0


From fdac206d1c7705ebfea7c7383fc704c3bf1e3d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:34 +0000
Subject: [PATCH 62/77] fix: rust: report addresses without a record as an
 error

---
 rust/src/formats/ipdb/reader.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/src/formats/ipdb/reader.rs b/rust/src/formats/ipdb/reader.rs
index ae8966c..7441717 100644
--- a/rust/src/formats/ipdb/reader.rs
+++ b/rust/src/formats/ipdb/reader.rs
@@ -224,13 +224,13 @@ impl Reader{
         if self.ipv4_bits_cache.len()>0 && bit == 32 {
             let index = Self::bytes_to_index(b);
             node = self.ipv4_bits_cache[index as usize];
-            if node >= self.node_count {
+            if node > self.node_count {
                 return Ok(node);
             }
             i = CACHE_DEPTH;
         }
         node = self.read_depth(node, bit as i32, i, b);
-        if node >= self.node_count {
+        if node > self.node_count {
             return Ok(node);
         }
 
-- 
2.43.0


From 700914cde8114114621a7900415ba6e1bd8f2206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:11 +0000
Subject: [PATCH 63/77] fix: rust: keep continents without a translation

---
 rust/src/formats/ipdb/reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/src/formats/ipdb/reader.rs b/rust/src/formats/ipdb/reader.rs
index 7441717..485516f 100644
--- a/rust/src/formats/ipdb/reader.rs
+++ b/rust/src/formats/ipdb/reader.rs
@@ -165,7 +165,7 @@ impl Reader{
                         "AF" => info.continent = "非洲".to_string(),
                         "OC" => info.continent = "大洋洲".to_string(),
                         "AN" => info.continent = "南极洲".to_string(),
-                        _ => {}
+                        other => info.continent = other.to_string(),
                     }
                 },
                 _ => {}
-- 
2.43.0


From 48f3002824bb01d5fda6bd6f0a9dba5334310eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:08 +0000
Subject: [PATCH 64/77] fix: awdb: refuse an embedded pointer to an unexported
 structure instead of panicking

---
 db/format/awdb/decoder.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/db/format/awdb/decoder.go b/db/format/awdb/decoder.go
index 9254160..cd2b9cd 100644
--- a/db/format/awdb/decoder.go
+++ b/db/format/awdb/decoder.go
@@ -582,7 +582,12 @@ func (d *decoder) decodeStruct(
 
 	// This fills in embedded structs
 	for _, i := range fields.anonymousFields {
-		_, err := d.unmarshalMap(size, offset, result.Field(i), depth)
+		field := result.Field(i)
+		if field.Kind() == reflect.Ptr && field.IsNil() && !field.CanSet() {
+			// an embedded pointer to an unexported structure
+			return 0, newUnmarshalTypeError("map", field.Type())
+		}
+		_, err := d.unmarshalMap(size, offset, field, depth)
 		if err != nil {
 			return 0, err
 		}
-- 
2.43.0


From 5158ac93528625870ee7eb629228218c14c379e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:25 +0000
Subject: [PATCH 65/77] fix: new columns do not overwrite the values of rows
 cut from the same slice

---
 db/field/operate/district.go | 2 +-
 db/field/operate/line.go     | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/db/field/operate/district.go b/db/field/operate/district.go
index 0fc2cea..cdcaf8d 100644
--- a/db/field/operate/district.go
+++ b/db/field/operate/district.go
@@ -68,7 +68,7 @@ func AttachDistrict(data *inf.IpData) {
 			district = provinceDistrict[p]
 		}
 		if districtOffset == -1 {
-			row.FieldValues = append(row.FieldValues, district)
+			row.FieldValues = withValue(row.FieldValues, len(row.FieldValues), district)
 		} else {
 			row.FieldValues[districtOffset] = district
 		}
diff --git a/db/field/operate/line.go b/db/field/operate/line.go
index 4a9700f..4708ab9 100644
--- a/db/field/operate/line.go
+++ b/db/field/operate/line.go
@@ -54,13 +54,13 @@ func AttachLineByAsn(data *inf.IpData, asnLine map[string]string, asnLineVer str
 		asn := row.FieldValues[asnOffset]
 		if line, ok := asnLine[asn]; ok {
 			if hasLine {
-				row.FieldValues = append(row.FieldValues, line)
+				row.FieldValues = withValue(row.FieldValues, lineOffset, line)
 			} else if row.FieldValues[lineOffset] == "" {
 				row.FieldValues = withValue(row.FieldValues, lineOffset, line)
 			}
 			data.Ips[k] = row
 		} else if hasLine {
-			row.FieldValues = append(row.FieldValues, "")
+			row.FieldValues = withValue(row.FieldValues, lineOffset, "")
 			data.Ips[k] = row
 		}
 	}
-- 
2.43.0


From fc1762892b34561859efaf1f509906feb5e38be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:24 +0000
Subject: [PATCH 66/77] fix: java: read the metadata as UTF-8 whatever the
 platform's charset

---
 java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java b/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java
index b9a682e..d8f6ac4 100644
--- a/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java
+++ b/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java
@@ -41,7 +41,7 @@ final class Reader {
             int end = Long.valueOf(metaLength).intValue() + 4;
             byte[] metaBytes = Arrays.copyOfRange(this.data, 4, end);
 
-            MetaData meta = Json.parseObject(new String(metaBytes), MetaData.class);
+            MetaData meta = Json.parseObject(new String(metaBytes, StandardCharsets.UTF_8), MetaData.class);
 
             this.nodeCount = meta.node_count;
             this.meta = meta;
-- 
2.43.0


From 3b6330303a00804ae7e85596c19354086d74b907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:24 +0000
Subject: [PATCH 67/77] fix: java: callers do not share the cached answers

---
 java/src/main/java/qiniu/uip/db/IpInfo.java         | 13 +++++++++++++
 .../main/java/qiniu/uip/db/format/ipdb/Ipdb.java    |  2 +-
 .../main/java/qiniu/uip/db/format/ipdb/Reader.java  |  2 +-
 3 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/java/src/main/java/qiniu/uip/db/IpInfo.java b/java/src/main/java/qiniu/uip/db/IpInfo.java
index 1a4f5a3..c864b7f 100644
--- a/java/src/main/java/qiniu/uip/db/IpInfo.java
+++ b/java/src/main/java/qiniu/uip/db/IpInfo.java
@@ -10,6 +10,19 @@ public final class IpInfo {
     public String continent;
     public String line;
 
+    public IpInfo copy() {
+        IpInfo info = new IpInfo();
+        info.country = country;
+        info.district = district;
+        info.province = province;
+        info.city = city;
+        info.asn = asn;
+        info.isp = isp;
+        info.continent = continent;
+        info.line = line;
+        return info;
+    }
+
     public String toString() {
         return String.format("country: %s, district: %s, province: %s, city: %s, asn: %s, isp: %s, continent: %s, line: %s", country, district, province, city, asn, isp, continent, line);
     }
diff --git a/java/src/main/java/qiniu/uip/db/format/ipdb/Ipdb.java b/java/src/main/java/qiniu/uip/db/format/ipdb/Ipdb.java
index dcf8b47..bb868d9 100644
--- a/java/src/main/java/qiniu/uip/db/format/ipdb/Ipdb.java
+++ b/java/src/main/java/qiniu/uip/db/format/ipdb/Ipdb.java
@@ -40,7 +40,7 @@ public final class Ipdb implements Query {
         versionInfo.build = reader.meta.build;
         versionInfo.version = version;
         versionInfo.languages = new String[]{"CN"};
-        versionInfo.extraInfo = reader.meta.extra;
+        versionInfo.extraInfo = reader.meta.extra == null ? null : reader.meta.extra.clone();
         return versionInfo;
     }
 
diff --git a/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java b/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java
index d8f6ac4..b7bf268 100644
--- a/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java
+++ b/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java
@@ -107,7 +107,7 @@ final class Reader {
         if (cache && this.resultCache != null) {
             IpInfo info = this.resultCache.get(node);
             if (info != null) {
-                return info;
+                return info.copy();
             }
         }
         String[] parts = resolveNode(node, "CN");
-- 
2.43.0


From adcd4fe3115ae6c16a528425039726a3afd76692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:24 +0000
Subject: [PATCH 68/77] fix: java: malformed databases give the declared error

---
 java/src/main/java/qiniu/uip/db/Query.java    |  6 ++++-
 .../java/qiniu/uip/db/format/ipdb/Reader.java | 27 ++++++++++++++-----
 2 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/java/src/main/java/qiniu/uip/db/Query.java b/java/src/main/java/qiniu/uip/db/Query.java
index 1dc4cf7..02c3930 100644
--- a/java/src/main/java/qiniu/uip/db/Query.java
+++ b/java/src/main/java/qiniu/uip/db/Query.java
@@ -23,7 +23,11 @@ public final class Query {
     }
 
     public static Query create(String filename) throws IOException {
-        String ext = filename.substring(filename.lastIndexOf("."));
+        int dot = filename.lastIndexOf(".");
+        if (dot < 0) {
+            throw new InvalidDatabaseException("not support format");
+        }
+        String ext = filename.substring(dot);
         byte[] data = File.readAll(filename);
         return create(data, ext);
     }
diff --git a/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java b/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java
index b7bf268..41e2d10 100644
--- a/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java
+++ b/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java
@@ -37,6 +37,10 @@ final class Reader {
                 this.data[3]
         );
 
+        if (metaLength > this.fileSize - 4) {
+            throw new InvalidDatabaseException("database file size error");
+        }
+
         try {
             int end = Long.valueOf(metaLength).intValue() + 4;
             byte[] metaBytes = Arrays.copyOfRange(this.data, 4, end);
@@ -49,16 +53,22 @@ final class Reader {
             throw new InvalidDatabaseException(e.getMessage());
         }
 
-        if ((meta.total_size + Long.valueOf(metaLength).intValue() + 4) != this.data.length) {
+        if ((meta.total_size + metaLength + 4) != this.data.length) {
             throw new InvalidDatabaseException("database file size error");
         }
+        if (this.nodeCount < 0 || this.nodeCount * 8L > meta.total_size) {
+            throw new InvalidDatabaseException("database node count error");
+        }
+        if (meta.fields == null || Arrays.asList(meta.fields).contains(null)) {
+            throw new InvalidDatabaseException("database metadata error");
+        }
 
         this.data = Arrays.copyOfRange(this.data, Long.valueOf(metaLength).intValue() + 4, this.fileSize);
 
         /** for ipv4 */
         if (0x01 == (this.meta.ip_version & 0x01)) {
             int node = 0;
-            for (int i = 0; i < 96 && node < this.nodeCount; i++) {
+            for (int i = 0; i < 96 && node >= 0 && node < this.nodeCount; i++) {
                 if (i >= 80) {
                     node = this.readNode(node, 1);
                 } else {
@@ -229,10 +239,11 @@ final class Reader {
             return null;
         }
 
-        final int resolved = node - this.nodeCount + this.nodeCount * 8;
-        if (resolved >= this.fileSize) {
+        final long position = (long) node - this.nodeCount + this.nodeCount * 8L;
+        if (position + 2 > this.data.length) {
             throw new InvalidDatabaseException("database resolve error");
         }
+        final int resolved = (int) position;
 
         byte b = 0;
         int size = Long.valueOf(bytesToLong(
@@ -247,12 +258,16 @@ final class Reader {
         }
 
         final String data = new String(this.data, resolved + 2, size, StandardCharsets.UTF_8);
-        return Arrays.copyOfRange(data.split("\t", -1), off, off + this.meta.fields.length);
+        final String[] parts = data.split("\t", -1);
+        if (off < 0 || off > parts.length - this.meta.fields.length) {
+            throw new InvalidDatabaseException("database resolve error");
+        }
+        return Arrays.copyOfRange(parts, off, off + this.meta.fields.length);
     }
 
     private int readDepth(int node, int depth, int i, byte[] binary) {
         for (; i < depth; i++) {
-            if (node >= this.nodeCount) {
+            if (node < 0 || node >= this.nodeCount) {
                 break;
             }
             node = this.readNode(node, 1 & ((0xFF & binary[i / 8]) >> 7 - (i % 8)));
-- 
2.43.0


From 2b4aee4fd9e894fb8337f3c29442578fd6540d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:46 +0000
Subject: [PATCH 69/77] fix: rust: malformed databases give errors instead of
 panics

---
 rust/src/formats/ipdb/reader.rs | 40 ++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/rust/src/formats/ipdb/reader.rs b/rust/src/formats/ipdb/reader.rs
index 485516f..23eaf30 100644
--- a/rust/src/formats/ipdb/reader.rs
+++ b/rust/src/formats/ipdb/reader.rs
@@ -28,11 +28,11 @@ impl MetaData {
             return Err(Error::new(ErrorKind::InvalidData, "meta data length < 4"));
         }
 
-        let meta_size = BigEndian::read_i32(&buf[0..4]) as usize;
-        let end = meta_size + 4;
-        if buf.len() < end {
+        let meta_size = BigEndian::read_u32(&buf[0..4]) as usize;
+        if buf.len() - 4 < meta_size {
             return Err(Error::new(ErrorKind::InvalidData, "meta data length < meta_size"));
         }
+        let end = meta_size + 4;
         let v:serde_json::Result<MetaData> = serde_json::from_slice(&buf[4..end]);
         return match v {
             Ok(mut m) => {
@@ -50,7 +50,6 @@ const CACHE_DEPTH: i32 = 12;
 
 pub struct Reader {
     pub meta: MetaData,
-    file_size: i32,
     node_count: i32,
     data: Vec<u8>,
     v4_offset: i32,
@@ -61,13 +60,15 @@ pub struct Reader {
 impl Reader{
     pub fn new(bytes: &[u8]) -> Result<Reader> {
         let m = MetaData::new(&bytes)?;
-        if m.total_size + m.meta_size as i32 +4 != bytes.len() as i32 {
+        if m.total_size as i64 + m.meta_size as i64 + 4 != bytes.len() as i64 {
             return Err(Error::new(ErrorKind::InvalidData, "invalid data length"));
         }
+        if m.node_count < 0 || m.node_count as i64 * 8 > m.total_size as i64 {
+            return Err(Error::new(ErrorKind::InvalidData, "invalid node count"));
+        }
         let data = (&bytes[m.meta_size + 4..]).to_vec();
 
         let mut reader = Reader {
-            file_size: bytes.len() as i32,
             node_count: m.node_count,
             v4_offset: 0,
             ipv4_bits_cache: Vec::with_capacity(1<<CACHE_DEPTH),
@@ -78,14 +79,14 @@ impl Reader{
         if reader.is_ipv4() {
             let mut node = 0;
             for i in 0..96 {
+                if node < 0 || node >= reader.node_count {
+                    break;
+                }
                 if i >= 80 {
                     node = reader.read_node(node, 1);
                 } else {
                     node = reader.read_node(node, 0);
                 }
-                if node >= reader.node_count {
-                    break;
-                }
             }
             reader.v4_offset = node;
             reader.init_cache()
@@ -96,8 +97,8 @@ impl Reader{
     }
 
     fn read_node(&self, node: i32, index:i32) -> i32 {
-        let off = node * 8 + index * 4;
-        BigEndian::read_i32(&self.data[off as usize..off as usize + 4])
+        let off = node as usize * 8 + index as usize * 4;
+        BigEndian::read_i32(&self.data[off..off + 4])
     }
 
     fn init_cache(&mut self) {
@@ -194,8 +195,8 @@ impl Reader{
         match off {
             None => return Err(Error::new(ErrorKind::InvalidData, "invalid language")),
             Some(off) => {
-                let resolved = node - self.node_count + self.node_count * 8;
-                if resolved >= self.file_size {
+                let resolved = node as i64 - self.node_count as i64 + self.node_count as i64 * 8;
+                if resolved + 2 > self.data.len() as i64 {
                     return Err(Error::new(ErrorKind::InvalidData, "database resolve error"));
                 }
 
@@ -207,8 +208,15 @@ impl Reader{
                     return Err(Error::new(ErrorKind::InvalidData, "database resolve error"));
                 }
                 let str = String::from_utf8_lossy(&self.data[resolved  + 2..resolved  + 2 + size ]);
-                let a = str.split("\t").skip(*off as usize);
-                let r = a.map(|i| i.to_string()).collect();
+                let off = match usize::try_from(*off) {
+                    Ok(off) => off,
+                    Err(_) => return Err(Error::new(ErrorKind::InvalidData, "database resolve error")),
+                };
+                let a = str.split("\t").skip(off);
+                let r: Vec<String> = a.map(|i| i.to_string()).collect();
+                if r.len() < self.meta.fields.len() {
+                    return Err(Error::new(ErrorKind::InvalidData, "database resolve error"));
+                }
                 Ok(r)
             }
         }
@@ -246,7 +254,7 @@ impl Reader{
     fn read_depth(&self, node0: i32, depth:i32, start:i32, b:&[u8]) -> i32 {
         let mut node = node0;
         for i in start..depth {
-            if node >= self.node_count {
+            if node < 0 || node >= self.node_count {
                 break;
             }
             let index = 1 & ((0xFF & b[(i / 8) as usize] as usize) >> 7 - (i % 8));
-- 
2.43.0


From b73b35066f2a6acb945a68316b4482d362161129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:08 +0000
Subject: [PATCH 70/77] fix: version information no longer shares its lists
 with the database

---
 db/format/awdb/reader.go | 2 +-
 db/format/ipdb/reader.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/db/format/awdb/reader.go b/db/format/awdb/reader.go
index 634b7cc..1c19c8b 100644
--- a/db/format/awdb/reader.go
+++ b/db/format/awdb/reader.go
@@ -331,7 +331,7 @@ func (r *Reader) version() *inf.VersionInfo {
 		Count:     uint32(r.Metadata.NodeCount),
 		Build:     int64(r.Metadata.BuildEpoch),
 		Version:   "ipplus360" + r.Metadata.DatabaseType,
-		Languages: r.Metadata.Languages,
+		Languages: append(r.Metadata.Languages[:0:0], r.Metadata.Languages...), // the caller may change them
 		ExtraInfo: nil,
 	}
 }
diff --git a/db/format/ipdb/reader.go b/db/format/ipdb/reader.go
index 0b4d87f..d54f3eb 100644
--- a/db/format/ipdb/reader.go
+++ b/db/format/ipdb/reader.go
@@ -306,6 +306,6 @@ func (db *reader) version() *inf.VersionInfo {
 		Build:     db.meta.Build,
 		Version:   version,
 		Languages: db.Languages(),
-		ExtraInfo: db.meta.Extra,
+		ExtraInfo: append(db.meta.Extra[:0:0], db.meta.Extra...), // the caller may change it
 	}
 }
-- 
2.43.0


From 557cb69226c27b9a7695dbb6bdcbe52c0bac1c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:09 +0000
Subject: [PATCH 71/77] fix: tables with lines of any length can be loaded

---
 db/field/data/load.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/db/field/data/load.go b/db/field/data/load.go
index de0c3a2..e9017e0 100644
--- a/db/field/data/load.go
+++ b/db/field/data/load.go
@@ -12,6 +12,7 @@ var NormalizedMap = make(map[string]map[string]string)
 func parseData(data string) map[string]string {
 	m := make(map[string]string)
 	scanner := bufio.NewScanner(strings.NewReader(data))
+	scanner.Buffer(nil, len(data)+1) // a line may be of any length
 	for scanner.Scan() {
 		line := scanner.Bytes()
 		if len(line) == 0 {
-- 
2.43.0


From 24faa265c6f0d36b51d253722de3a589cc65536f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:34 +0000
Subject: [PATCH 72/77] fix: memip dumps no longer hand out the package's own
 list of columns

---
 db/format/memip/dumper.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/db/format/memip/dumper.go b/db/format/memip/dumper.go
index 1f10877..9d03832 100644
--- a/db/format/memip/dumper.go
+++ b/db/format/memip/dumper.go
@@ -37,7 +37,7 @@ func newDumper(data []byte) (tRet *traversal, err error) {
 	tm := time.Now()
 	t := &traversal{
 		//{城市}-{省份}-{大区}-{运营商}-{国家}-{大洲}
-		Fields: fields,
+		Fields: append([]string(nil), fields...),
 		Version: &inf.VersionInfo{
 			IpType:    0,
 			Count:     0,
-- 
2.43.0


From 2268b85b6d960632a320bbe9525eb6505274b013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:37 +0000
Subject: [PATCH 73/77] fix: an awdb value of an unknown extended type is an
 error, not one of a known type

---
 db/format/awdb/decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/db/format/awdb/decoder.go b/db/format/awdb/decoder.go
index cd2b9cd..95075b1 100644
--- a/db/format/awdb/decoder.go
+++ b/db/format/awdb/decoder.go
@@ -83,7 +83,7 @@ func (d *decoder) decodeCtrlData(offset uint) (dataType, uint, uint, error) {
 		if newOffset >= uint(len(d.buffer)) {
 			return 0, 0, 0, newOffsetError()
 		}
-		typeNum = dataType(d.buffer[newOffset] + 7)
+		typeNum = dataType(d.buffer[newOffset]) + 7
 		newOffset++
 	}
 
-- 
2.43.0


From 7cb5bb15c6e4b86b0bc61cac09056b1146f8bca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:23 +0000
Subject: [PATCH 74/77] fix: the low bits of an awdb pointer of the largest
 size have no meaning

---
 db/format/awdb/decoder.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/db/format/awdb/decoder.go b/db/format/awdb/decoder.go
index 95075b1..ee5939a 100644
--- a/db/format/awdb/decoder.go
+++ b/db/format/awdb/decoder.go
@@ -94,7 +94,8 @@ func (d *decoder) decodeCtrlData(offset uint) (dataType, uint, uint, error) {
 
 func (d *decoder) sizeFromCtrlByte(ctrlByte byte, offset uint, typeNum dataType) (uint, uint, error) {
 	size := uint(ctrlByte & 0x1f)
-	if typeNum == _Extended {
+	if typeNum == _Pointer {
+		// its size is in two of the bits, the others are no size
 		return size, offset, nil
 	}
 
-- 
2.43.0


From f5dafc734fb7b19fdc32552fdd9d4829cc7b099e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:18 +0000
Subject: [PATCH 75/77] fix: refuse every IPv6 network when enumerating an IPv4
 awdb database

---
 db/format/awdb/traverse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/db/format/awdb/traverse.go b/db/format/awdb/traverse.go
index cddd560..0d4f43c 100644
--- a/db/format/awdb/traverse.go
+++ b/db/format/awdb/traverse.go
@@ -63,7 +63,7 @@ func (r *Reader) NetworksWithin(network *net.IPNet) *Networks {
 		}
 	}
 
-	if r.Metadata.IPVersion == 4 && len(ip) == net.IPv6len && ip.To4() == nil {
+	if r.Metadata.IPVersion == 4 && len(ip) == net.IPv6len {
 		return &Networks{
 			reader: r,
 			err:    fmt.Errorf("error enumerating '%s': you attempted to enumerate an IPv6 network in an IPv4-only database", network),
-- 
2.43.0


From a76f63d07505a3b3ad58f22b849dc75b67041f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:19 +0000
Subject: [PATCH 76/77] fix: find the metadata of an awdb database that is
 longer than 2000 bytes

---
 db/format/awdb/reader.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/db/format/awdb/reader.go b/db/format/awdb/reader.go
index 1c19c8b..065b9d2 100644
--- a/db/format/awdb/reader.go
+++ b/db/format/awdb/reader.go
@@ -49,6 +49,11 @@ func FromBytes(buffer []byte) (*Reader, error) {
 	}
 	metaIn := buffer[detectOffset:]
 	metadataStart := bytes.LastIndex(metaIn, metadataStartMarker)
+	if metadataStart == -1 {
+		// the metadata is longer
+		detectOffset, metaIn = 0, buffer
+		metadataStart = bytes.LastIndex(metaIn, metadataStartMarker)
+	}
 
 	if metadataStart == -1 {
 		return nil, newInvalidDatabaseError("error opening database: invalid aw DB file")
-- 
2.43.0


From 84e2b7fdd9bcaa67ef205c67904897fb38cbf684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:56:15 +0000
Subject: [PATCH 77/77] fix: store continent codes in the continent_code column
 of an ipdb file

---
 db/format/ipdb/writer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/db/format/ipdb/writer.go b/db/format/ipdb/writer.go
index 87bb992..5466463 100644
--- a/db/format/ipdb/writer.go
+++ b/db/format/ipdb/writer.go
@@ -49,8 +49,9 @@ func NewWriter(meta MetaData, languages map[string]int) *Writer {
 	}
 	contitnentOffset := -1
 	for i, field := range meta.Fields {
-		if strings.ToLower(field) == "continent" {
+		if field == FieldContinentCode {
 			contitnentOffset = i
+			break
 		}
 	}
 
-- 
2.43.0

