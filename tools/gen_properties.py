#!/usr/bin/env python3
"""One-off editor for /verif/properties.jsonl (kept so that the file stays in one readable place)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "state": state or [],
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": observe, "hook_needed": None}})

NOTEST = "The existing tests of db/query return at once without a database file and no test touches %s; they reach none of these inputs."

p("Q01", "ipdb lookups return exactly what was packed",
  "Pack any set of pairwise disjoint networks (IPv4, IPv6 outside the IPv4-mapped block, or both) with attribute values into an ipdb database and load it: looking up any address inside one of the networks returns exactly the values packed for that network, with the seven continent codes shown as their Chinese names and every unmapped attribute empty; values the format cannot hold (a TAB, a record over 65535 bytes) are refused when packing. Looking up an address that no network covers, or of a family the database does not hold, returns an error and no record.",
  ["inputs", "configurations"],
  "every set of disjoint networks of any prefix length in any packing order, every choice and order of columns, every attribute text, every queried address",
  NOTEST % "the ipdb packer or reader",
  ["db/format/ipdb/writer.go", "db/format/ipdb/reader.go", "db/format/ipdb/querier.go", "db/format/ipdb/packer.go", "db/format/ipdb/fields.go", "db/query/query.go"],
  [("prefix tree construction", "writer.go:Nodes/insert/Fields/Save"), ("tree walk and IPv4 shortcut table", "reader.go:search/readDepth/getCache/resolve"), ("column to attribute mapping", "querier.go:QueryInternal")],
  ["query.Db.Query over convert.PackBytes(\".ipdb\")"],
  [{"name": "ipV4BitsCache", "meaning": "first 14 bits of every IPv4 walk, precomputed", "where": "reader.go"}, {"name": "dataHash", "meaning": "record text to stored offset", "where": "writer.go"}])

p("Q02", "The reported prefix length denotes the network the answer was stored under",
  "The prefix length returned with a record is that of the stored network (relative to 32 bits for IPv4, 128 bits for IPv6), so every address sharing that many leading bits with the queried one gets the same record and the same prefix length. This holds for ipdb and awdb databases alike and whether or not the record was answered from a cache; the one exception is a record stored for the whole IPv6 space in an ipdb file, which is reported as half of it. The network the awdb reader names beside a record is the stored one; for an address without a record it holds the address and no stored network.",
  ["inputs", "configurations"],
  "every ipdb or awdb database built from disjoint networks, every queried address, both families",
  NOTEST % "prefix lengths other than two commented examples",
  ["db/format/ipdb/reader.go", "db/format/awdb/reader.go", "db/format/ipdb/querier.go", "db/format/awdb/querier.go"],
  [("depth bookkeeping, packed with the node in the IPv4 shortcut table", "ipdb/reader.go:setCache/getCache/readDepth"), ("network from prefix length", "awdb/reader.go:traverseTree/cidr")],
  ["query.Db.Query second result", "inf.IpRaw.Cidr of a dump"])

p("Q03", "Every spelling of an address gets the same answer",
  "Asking with the textual form, with the numeric form (IPv4), or with the 4-byte or 16-byte binary form of the same address, including IPv4-mapped IPv6 text, gives the same record, prefix length and success or failure. Text that is not an IP address, and bytes of any other length, are answered with an error, never with a record or a crash.",
  ["inputs"],
  "every address, each of its accepted spellings (zero-compressed, upper case, mapped), every non-address text, over ipdb and awdb databases",
  NOTEST % "more than one spelling",
  ["db/query/query.go", "ipnet/ip.go", "db/format/ipdb/reader.go", "db/format/awdb/reader.go"],
  [("parsing and conversions", "query.go:QueryStr/QueryU32, ip.go:Uint32ToIPv4"), ("family selection", "ipdb/reader.go:find0, awdb/reader.go:lookupPointer")],
  ["query.Db.QueryStr, QueryU32, Query"])

p("Q04", "Answers are independent of history, of other databases and of concurrency",
  "What a lookup returns depends only on the database bytes and the address, and the version information only on the bytes: not on earlier lookups, on cache warm-up with any address list, on callers changing records or version information they received, or on other databases loaded in the process. Any number of goroutines may look up concurrently in one loaded database and each gets the answer a lone caller would get, without data races.",
  ["histories", "schedules"],
  "every sequence of loads, warm-ups, lookups and caller-side edits of returned records; every interleaving of concurrent lookups (sampled, with the race detector on)",
  "No existing test makes two lookups on a loaded database, and none runs two goroutines; a cache fault shows only after a particular history.",
  ["db/format/ipdb/querier.go", "db/query/query.go", "db/query/cache.go", "db/format/awdb/reader.go", "db/format/awdb/decoder.go"],
  [("record cache filled before use, read-only afterwards", "ipdb/querier.go:BuildCache/QueryInternal"), ("type cache", "awdb/decoder.go:cachedFields")],
  ["query.Db.Query, inf.Query.BuildCache"],
  [{"name": "queryCache", "meaning": "record per data offset, warmed with a fixed address list", "where": "ipdb/querier.go"}])

p("Q05", "awdb lookups return exactly the stored record",
  "For any well-formed awdb database (24, 28 or 32-bit tree records, IPv4 tree, or IPv6 tree with IPv4 under its first 96 zero bits), looking up an address returns the attributes of the record its network stores, each under its own meaning (country, province, city, isp, as-number, continent, line) and empty when the record lacks it. An address for which the tree holds no record, and an IPv6 address in an IPv4-only database, is answered with an error and no record; the reader itself leaves the result alone for such an address and names no offset.",
  ["inputs", "configurations"],
  "every tree shape, record size, tree family and record content, every queried address; IPv4 trees contain 8.8.8.8, which loading insists on",
  NOTEST % "awdb",
  ["db/format/awdb/reader.go", "db/format/awdb/node.go", "db/format/awdb/querier.go", "db/format/awdb/decoder.go"],
  [("node decoding by record size", "node.go"), ("tree walk, IPv4 start node", "reader.go:setIPv4Start/traverseTree/lookupPointer"), ("record to attributes", "querier.go:Query/Find")],
  ["query.Db.Query, awdb.Reader.Lookup/LookupNetwork/LookupOffset over generated databases"])

p("Q06", "awdb data values decode to what the format encodes",
  "Any value of the awdb data section (strings, byte strings, all integer widths, floats, booleans, maps, lists, nested and shared through pointers of every size) decodes to the value that was encoded, into a generic result as well as into a matching typed structure, and keys unknown to the structure are skipped without disturbing the others. A value that does not fit the requested type, that has a size its own type does not allow, that is of an unknown type or is not complete, is reported as an error, by lookups as well as by an enumeration; so is a map with a key that is no text. So is a result that is no place for a value; an earlier value in a generic result is replaced.",
  ["inputs", "programs"],
  "every nested value, every size class of the length encoding (below 29, 29..284, 285..65820, above), every pointer size, generic and struct targets",
  NOTEST % "the awdb decoder",
  ["db/format/awdb/decoder.go", "db/format/awdb/reader.go"],
  [("control byte, size and pointer decoding", "decoder.go:decodeCtrlData/sizeFromCtrlByte/decodePointer"), ("value decoding by type", "decoder.go:unmarshal*/decode*"), ("skipping unknown keys", "decoder.go:nextValueOffset")],
  ["awdb.Reader.Lookup, Decode, LookupOffset, Metadata"])

p("Q07", "awdb network enumeration is complete, exact and in address order",
  "Iterating over all networks of an awdb database visits every network that has a record exactly once, in ascending address order, each with its own record, and nothing else. Restricting the iteration to a network visits exactly the stored networks inside it, or the single stored network that contains it.",
  ["inputs", "configurations"],
  "every tree shape, record size and family; every restricting network of the tree's own family",
  NOTEST % "network enumeration",
  ["db/format/awdb/traverse.go", "db/format/awdb/reader.go"],
  [("depth-first walk with an explicit stack", "traverse.go:Next"), ("descent to the restricting network", "traverse.go:NetworksWithin")],
  ["awdb.Reader.Networks, NetworksWithin"])

p("Q08", "Overlapping networks never corrupt an ipdb database",
  "When networks handed to the ipdb packer overlap (IPv6 ones lying outside the IPv4-mapped block), every network accepted before keeps answering all of its addresses with its own values: a later network that contains or lies inside an accepted one is left out as a whole, and addresses covered by no accepted network stay unanswered. A network given twice is stored once, with the values of one of its occurrences.",
  ["inputs", "histories"],
  "every sequence of possibly overlapping networks and values",
  NOTEST % "conflicting rows",
  ["db/format/ipdb/writer.go", "db/format/ipdb/packer.go"],
  [("conflict detection while inserting", "writer.go:insert/Nodes")],
  ["query.Db.Query over convert.PackBytes(\".ipdb\")"])

p("Q09", "ipdb files of other writers are answered like packed ones",
  "An ipdb file laid out as the format allows by any writer (tree nodes in any order, several languages at the column offsets the metadata records for them, further columns, records shared by several networks, IPv4 part under ::ffff:0:0/96) is answered like one packed by this project: the values of the language 'CN', the stored prefix length, the recorded family, build time, languages and extra information, and the dump of a covering one. The version reported is the recorded text or, if empty, one naming the build date (in UTC, whatever the time zone); a file without the language 'CN' is answered with an error.",
  ["inputs"],
  "every conforming ipdb file, whoever wrote it",
  NOTEST % "files not written by the packer under test",
  ["db/format/ipdb/reader.go", "db/format/ipdb/querier.go", "db/format/ipdb/dumper.go"],
  [("columns of a language are located by its recorded offset; trees are followed, not assumed", "reader.go:FindMap/find/Load")],
  ["query.NewDb over foreign ipdb bytes", "convert.DumpBytes"])

p("Q10", "The self-checks tell whether the well-known addresses are answered rightly",
  "Checking a loaded database for IPv4 succeeds exactly when it answers 8.8.8.8 with the country 美国 and 119.29.29.29 with 中国, checking it for IPv6 exactly when it answers 2001:4860:4860::8888 and 2606:4700:4700::1111 with 美国, whatever else it stores, in either format, and however often it is asked. A record with another country gives the check error, a missing one the error of its lookup, and checking changes no later answer.",
  ["inputs", "histories"],
  "every database of either format, with any networks around the four addresses",
  "The existing tests call the checks on downloaded databases, if at all; none builds one where an address has a wrong or no record.",
  ["db/query/query.go"],
  [("the country of both addresses of a family is compared", "query.go:CheckV4/CheckV6")],
  ["query.Db.CheckV4, query.Db.CheckV6"])

p("Q11", "A packed ipdb file follows the public format bit for bit",
  "An ipdb file packed here holds, for a reader written from the public format alone, exactly the packed data: a 4-byte length, metadata in JSON with the family, the time of packing, the language CN at column 0, the number of tree nodes, the size of everything behind the metadata, the columns by their names in the format (country_name, region_name, city_name, isp_domain, continent_code, utc_offset, china_admin_code, others as given), the version text and the extra information; a tree of big-endian 32-bit pairs in which the stored networks are exactly the packed ones, IPv4 under ::ffff:0:0/96 and everything else empty; and for each network a record with the value of every column in order, TAB-separated, continents by their codes.",
  ["inputs", "configurations"],
  "every set of pairwise disjoint networks outside the documented exclusions, every choice of columns and values; all addresses at once, since the whole tree is compared",
  NOTEST % "the bytes of an ipdb file",
  ["db/format/ipdb/writer.go", "db/format/ipdb/packer.go", "db/format/ipdb/fields.go"],
  [("tree, records and metadata are written", "writer.go:insert/Nodes/Fields/Save"), ("names of columns and of continents", "fields.go:covertFields, writer.go:NewWriter")],
  ["convert.PackBytes(\".ipdb\") bytes"])

p("C01", "Conversions are independent of each other and may run concurrently",
  "Dumping a database with a rule, applying operations to the data and packing it give what they give alone, whatever the process converted before, whatever it converts at the same time, and whatever callers do with data they were given. Any number of goroutines may each convert data of their own, also from the same database bytes, without data races, and the bytes read are never changed.",
  ["histories", "schedules"],
  "every set of conversions of every format, done in any order or at once (schedules sampled, with the race detector on)",
  "The existing tests run one conversion at a time in one goroutine and look at no second one.",
  ["db/convert/dumper.go", "db/convert/packer.go", "db/field/export/export.go", "db/field/operate/*.go", "db/field/data/*.go", "db/format/*/dumper.go", "db/format/*/packer.go"],
  [("no package-level state is written while converting", "operate, export, format packages")],
  ["format.GetDumpFormat, operate.*, convert.PackBytes in goroutines"])

p("M01", "Malformed ipdb bytes are rejected or answered, never crash",
  "Whatever bytes are loaded as an ipdb database, loading, every lookup, the version information and dumping either succeed or return an error: they never panic or hang, and use memory in proportion to the file and to the rows returned. A database cut short at any point is rejected when it is loaded.",
  ["inputs", "crash_points"],
  "arbitrary bytes; valid databases truncated at any byte, with bytes flipped, metadata fields replaced or tree nodes rewired",
  NOTEST % "damaged input",
  ["db/format/ipdb/reader.go", "db/format/ipdb/querier.go", "db/format/ipdb/dumper.go", "db/field/export/export.go"],
  [("size and metadata validation", "reader.go:newReaderFromBytes"), ("bounds checks on node and record access", "reader.go:readNode/resolve/decodeInfo")],
  ["query.NewDbFromBytes, Db.Query, format.GetDumpFormat(\".ipdb\")"])

p("M02", "Malformed awdb bytes are rejected or answered, never crash",
  "Whatever bytes are loaded as an awdb database, loading, every lookup, decoding at any offset, enumerating and dumping either succeed or return an error: they never panic, overflow the stack or hang, and use memory in proportion to the file and to the rows returned. A database cut short at any point is rejected when it is loaded.",
  ["inputs", "crash_points"],
  "arbitrary bytes; valid databases truncated at any byte or with bytes flipped; records holding values of any type; hand-built pointer cycles and oversized length fields",
  NOTEST % "damaged input",
  ["db/format/awdb/reader.go", "db/format/awdb/decoder.go", "db/format/awdb/querier.go", "db/format/awdb/dumper.go"],
  [("metadata location and validation", "reader.go:FromBytes"), ("decoder bounds and depth checks", "decoder.go")],
  ["query.NewDbFromBytes, Db.Query, format.GetDumpFormat(\".awdb\")"])

p("M03", "Malformed text databases are rejected or read, never crash or lose rows",
  "Whatever text is read as a scan or memip file, reading it either returns data or an error and never panics, also when it is empty or its header lines are missing or damaged. Data it returns accounts for every row of the file: no row is silently dropped, wherever in the file it stands, none is invented, a scan file without its header lines is an error, and a line that is no row (no network or range of one family, the wrong number of values) is an error.",
  ["inputs"],
  "arbitrary text; valid files with lines removed, duplicated, reordered, damaged, emptied or made very long; every export rule",
  NOTEST % "the text formats",
  ["db/format/plain/dumper.go", "db/format/memip/dumper.go"],
  [("header and row parsing", "plain/dumper.go:newDumper/parseLine, memip/dumper.go:parseLine")],
  ["format.GetDumpFormat(\".scan\"), format.GetDumpFormat(\".memip\")"])

p("D01", "A dump tiles the address space and agrees with lookups",
  "Dumping an ipdb or awdb database that covers the address space of its one family (and, if IPv6, stores the IPv4-mapped block as part of a larger network) yields networks in ascending order that tile that space exactly, without gap or overlap, each with one value per exported field. For every address, the values of its row equal what a lookup of that address in the same database returns, for every attribute the lookup offers.",
  ["inputs", "configurations"],
  "every covering IPv4-only or IPv6-only database in either format (in IPv6 no network boundary at or inside the IPv4-mapped block), every selection and order of fields, with and without an export rule",
  NOTEST % "dumping",
  ["db/field/export/export.go", "db/format/ipdb/dumper.go", "db/format/awdb/dumper.go", "db/format/awdb/fields.go", "db/format/ipdb/fields.go", "ipnet/ipnet.go"],
  [("marker walk over the address space", "export.go:BuildIPData"), ("field name mapping", "ipdb/fields.go, awdb/fields.go:CommonFieldsMap"), ("successor of a network", "ipnet.go:LastIP/NextStart")],
  ["convert.DumpFile / format.GetDumpFormat versus query.Db.Query"])

p("R01", "Export rules select and blank fields as documented",
  "The first group of a rule fixes the exported columns and their order, a column unknown to the source being empty in every row. Each further group, applied left to right, keeps only its listed columns and blanks the others in rows whose tested column currently has one of the listed values (or none of them, with '!'), and leaves all other rows alone; groups that are malformed or name columns outside the first group have no effect, and an empty rule exports all known columns of the source.",
  ["inputs", "programs"],
  "every rule of the documented grammar, every row content, sources in ipdb, awdb and scan format",
  "The only test of rules does not compile and never runs; it has two examples of one rule.",
  ["db/field/export/export.go", "db/format/plain/dumper.go", "db/convert/dumper.go", "README.md"],
  [("rule parsing", "export.go:ParseRule/buildFilter"), ("row export", "export.go:Export/extract/match/remapKey")],
  ["export.ParseRule(rule).Export and convert.DumpFile on generated sources"])

p("F01", "A scan file reads back as the data that was written",
  "Packing any data to the scan text format and dumping it without a rule, or with a rule naming all its columns, gives back the same columns, the same version information and the same networks in the same order with the same values, except that commas inside values come back as underscores.",
  ["inputs"],
  "every list of networks (both families, any order), any columns, any values free of TAB and line breaks, any version information",
  NOTEST % "the scan format",
  ["db/format/plain/packer.go", "db/format/plain/dumper.go"],
  [("writer", "plain/packer.go:pack/replaceComma"), ("reader", "plain/dumper.go:newDumper/parseLine/Dump")],
  ["convert.PackBytes(\".scan\") then format.GetDumpFormat(\".scan\")"])

p("F02", "A memip file states the normalised view of every address",
  "Packing IPv4-only or IPv6-only data (no network of which starts or ends inside the IPv4-mapped block) in ascending order to memip yields ranges in ascending order that cover exactly the addresses of the data; the view of every address has the six columns city, province, district, isp, country, continent in this order, where missing, empty and reserved values read as the default word, continent codes as Chinese names, ISPs other than the three main ones as 'other', and the district of Hong Kong, Macau and Taiwan as default. Neighbouring networks are joined into one range exactly when they adjoin and all columns but the city agree, the city shown being that of the first.",
  ["inputs", "configurations"],
  "every ascending disjoint data set with any columns and, in the six columns, values free of '-', spaces and line breaks",
  NOTEST % "the memip format",
  ["db/format/memip/packer.go", "ipnet/range.go"],
  [("column conversion", "memip/packer.go:covertValues/fieldOffsets"), ("range joining", "memip/packer.go:pack, ipnet/range.go:JoinIPNet")],
  ["convert.PackBytes(\".memip\") parsed by the checker"])

p("F03", "A memip file reads back as the ranges and views it states",
  "Dumping a memip file gives, for each of its ranges in order, the networks that make up exactly that range, each with the six view columns of its line, and version information naming the family and the number of networks. Packing data to memip and dumping the result keeps the view of every address.",
  ["inputs"],
  "every list of IPv4 ranges (decimal) or IPv6 ranges (textual) with any views",
  NOTEST % "the memip format",
  ["db/format/memip/dumper.go", "ipnet/range.go"],
  [("line parsing", "memip/dumper.go:parseLine"), ("range to networks", "ipnet/range.go:IPNets")],
  ["format.GetDumpFormat(\".memip\")"])

p("F04", "Packing leaves the data alone and is reproducible",
  "Packing data to any format does not change the data, so writing several outputs in any order gives each of them the same contents as writing it alone. Packing the same data twice gives the same bytes apart from the recorded build time.",
  ["inputs", "histories"],
  "every data set in any order, every sequence of output formats",
  NOTEST % "packing more than once",
  ["db/format/plain/packer.go", "db/format/ipdb/writer.go", "db/format/memip/packer.go", "db/convert/packer.go", "cmd/converter/main.go"],
  [("comma replacement", "plain/packer.go:replaceComma"), ("continent conversion", "ipdb/writer.go:insert"), ("range joining", "memip/packer.go:pack")],
  ["convert.PackBytes, convert.PackFile; deep comparison of the data before and after"])

p("F05", "Failed output is reported and unsupported formats touch nothing",
  "If the destination stops accepting bytes at any point while data is packed to any format, packing returns an error; success means every byte was accepted. Asking to read, query or write a format the library does not support for that purpose returns an error and leaves existing files untouched; so does opening a file that cannot be read.",
  ["fault_sequences", "inputs"],
  "every data set and format, a write failure after every possible number of bytes, full devices, missing directories, every unregistered extension",
  "No existing test writes a file or injects a write failure.",
  ["db/convert/packer.go", "db/convert/dumper.go", "db/format/plain/packer.go", "db/format/memip/packer.go", "db/format/ipdb/writer.go", "db/query/query.go", "db/format/formats.go"],
  [("error propagation from the writer", "packers"), ("format lookup", "convert/packer.go:PackFile/PackWriter, convert/dumper.go")],
  ["convert.PackWriter with a failing io.Writer, convert.PackFile on a scratch directory and a full device"])

p("F06", "Files are written and read as their bytes are",
  "Packing to a file leaves in it exactly the bytes that packing to memory gives, whatever the file held before, and changes no other file. Opening or dumping a file gives what its bytes give in memory, with the rule applied first and then each given operation once in the given order, and changes no file; what has been read no longer depends on the file, which may be changed or removed. No file stays open afterwards. The format is taken from the last extension of the name, wherever else dots occur in the path; a file with an extension that is not exactly that of a format is refused and left as it is.",
  ["inputs", "histories"],
  "every data set, every sequence of writing, overwriting, opening and dumping files of all formats, every name, every list of operations",
  "No existing test writes a file or dumps one with operations.",
  ["db/convert/packer.go", "db/convert/dumper.go", "db/query/query.go"],
  [("file packing", "convert/packer.go:PackFile"), ("file dumping", "convert/dumper.go:DumpFile"), ("opening", "query/query.go:NewDb")],
  ["convert.PackFile, convert.DumpFile, query.NewDb on a scratch directory"])

p("F07", "Formats and exporters of the caller's own are used as they are",
  "A reader, a querier or a packer that a program registers for an extension is used for exactly that extension and purpose, in place of a former one, and no other format changes; an extension for which nothing is registered is refused. It gets the bytes of the file and the rule's columns (no exporter for an empty rule), or the data and the destination, once; what it gives reaches the caller unaltered: data (the operations applied in order, none after a failure), records, prefix lengths, version information, written bytes and errors. The self-checks and all forms of lookup ask such a querier as they ask a built-in one. Dumping with an exporter of the caller's own gives its columns and, for every network of the source in order, the values it makes of that network's record.",
  ["inputs", "histories", "configurations"],
  "every extension, every sequence of registrations and uses, every outcome of the registered functions, every exporter",
  NOTEST % "formats registered by programs",
  ["db/format/formats.go", "db/convert/packer.go", "db/convert/dumper.go", "db/query/query.go", "db/field/export/export.go", "db/inf/db_inf.go"],
  [("registry", "format/formats.go"), ("pass-through of lookups", "query/query.go:Db"), ("pass-through of dumps", "convert/dumper.go:DumpFile"), ("use of the exporter", "export/export.go:BuildIPData, plain/dumper.go:Dump")],
  ["format.Register*/Get*, convert.DumpFile, convert.PackFile/PackBytes/PackWriter, query.NewDb/NewDbFromBytes, inf.Exporter"])

p("F08", "Scan files are the stated text, whoever wrote them",
  "A scan file is text: a title line, a line with the version information as a JSON object (IpType, Count, Build, Version, Languages, ExtraInfo), a line with the column names joined by commas, each of the three after '#### ', and one line per network with the network, a TAB and the values joined by commas. Packing writes exactly that, commas inside values as underscores. Any such text is read back as what it says, with or without a rule: one kept from an earlier version or written by hand, with any title, the JSON entries in any order and further ones among them, a network written with any of its addresses in any spelling, with or without an end of its last line.",
  ["inputs"],
  "every table and version information; every text of that form",
  NOTEST % "a scan file",
  ["db/format/plain/packer.go", "db/format/plain/dumper.go", "db/inf/db_inf.go"],
  [("head lines and rows", "packer.go:pack, dumper.go:newDumper/parseLine"), ("names of the JSON entries", "db_inf.go:VersionInfo")],
  ["convert.PackBytes(\".scan\") bytes", "format.GetDumpFormat(\".scan\")"])

p("V01", "Version information survives",
  "The version text, the address family, extra information and column names given to an ipdb database are reported again when it is loaded or dumped, its build time being the time of packing and a missing version text being replaced by one naming the build date (in UTC, whatever the time zone). An awdb database reports the family, build time, language list and type recorded in its metadata. Both report the number of nodes of their search tree, an ipdb database made here the single language CN.",
  ["inputs", "configurations"],
  "every version text, extra information, family, column list and metadata content",
  NOTEST % "version information",
  ["db/format/ipdb/fields.go", "db/format/ipdb/reader.go", "db/format/awdb/reader.go", "db/format/awdb/fields.go", "db/inf/db_inf.go"],
  [("metadata construction", "ipdb/fields.go:buildMeta/ipVersion"), ("metadata reporting", "ipdb/reader.go:version, awdb/reader.go:version")],
  ["query.Db.VersionInfo, inf.IpData.Version of a dump"])

p("O01", "Normalisation replaces exactly the listed long names",
  "Normalising replaces a province, city or ISP value by its short form exactly when the table of that column lists it, and changes nothing else: not the other columns, not values without an entry, not the networks or their order. Normalising again changes nothing unless a loaded table lists one of its own short names, and a table loaded by the user replaces the built-in one for its column. The built-in tables shorten a place's name to characters of its own.",
  ["inputs", "configurations"],
  "every row content (listed, unlisted and near-miss values in every column), every column order, default and user tables, rows sharing storage",
  NOTEST % "normalisation",
  ["db/field/operate/replace.go", "db/field/data/load.go", "db/field/data/city.go", "db/field/data/province.go", "db/field/data/isp.go"],
  [("table lookup per column", "replace.go:ReplaceShortage"), ("table parsing", "load.go:parseData/Load")],
  ["operate.ReplaceShortage on generated data"])

p("O02", "Merging neighbours keeps every address's values and merges fully",
  "Merging neighbouring networks of ascending disjoint data of one address family (IPv6 without a network starting or ending inside the IPv4-mapped block) keeps the values of every covered address and leaves uncovered addresses uncovered, and the recorded count equals the number of networks. The result is ascending and as small as possible: every maximal run of adjoining networks with equal values becomes the minimal list of networks covering that run.",
  ["inputs"],
  "every ascending disjoint list of networks of one family, with gaps and repeated values, from no rows to the whole address space",
  NOTEST % "merging",
  ["db/field/operate/replace.go", "ipnet/range.go"],
  [("run building", "replace.go:MergeNearNetwork"), ("run to networks", "range.go:JoinIPNet/IPNets")],
  ["operate.MergeNearNetwork"])

p("O03", "An ISP is rewritten only when its AS number belongs to a main ISP",
  "Cleaning up ISPs changes a row only if its ISP is not one of the four main ones and its non-empty AS number also occurs on a row of a main ISP; then its ISP becomes such a main ISP, always the same one for the same data. No other row, column or network changes, whatever the order of columns, and data without an ISP or AS number column is left alone.",
  ["inputs", "configurations"],
  "every set of rows with any mix of ISPs and AS numbers (shared by several main ISPs, empty), every column order, rows sharing storage",
  NOTEST % "ISP clean-up",
  ["db/field/operate/replace.go"],
  [("AS numbers of main ISPs", "replace.go:TrimAsnIspDup/asnMatchIsp")],
  ["operate.TrimAsnIspDup, repeated on copies"])

p("O04", "Every row gets the district of its province",
  "Attaching districts gives each row the administrative region of its province (empty for an empty or unknown province), in an existing district column or in a new last one, and changes nothing else. Data without a province column gets no district values.",
  ["inputs", "configurations"],
  "every province value, every column order, with and without district or province column, rows sharing storage",
  NOTEST % "districts",
  ["db/field/operate/district.go"],
  [("province to region table", "district.go:AttachDistrict")],
  ["operate.AttachDistrict"])

p("O05", "A line taken from a line database is each row's own",
  "Attaching lines gives each row located in China the line that the line database answers for that row's own network (its first component, reduced to the three main operators), and an empty line to other rows; replacing does the same to the ISP column but keeps the ISP where no line is known. No row receives the line of another row, no other column changes, and the line database's version is recorded in the data's extra information.",
  ["inputs", "configurations"],
  "every data set (also with rows sharing storage, or a line column already present, or columns missing), every line database, ipdb, awdb or of the caller's own",
  NOTEST % "lines",
  ["db/field/operate/line.go", "cmd/converter/main.go"],
  [("per-row lookup and write", "line.go:AttachLineByCidr/ReplaceLineByCidr/queryLine")],
  ["operate.AttachLineByCidr, operate.ReplaceLineByCidr"])

p("O06", "A line taken from an AS number table is that of the row's AS number",
  "Attaching lines from an AS number table gives each row whose AS number is listed, and which has no line yet, the listed line; all other rows keep their line, or get an empty one when the column is new. The AS number column is found wherever it stands, nothing else changes, and data without one gets no line column.",
  ["inputs", "configurations"],
  "every AS number table, every column order, with and without an existing line column, rows sharing storage",
  NOTEST % "lines",
  ["db/field/operate/line.go"],
  [("column lookup and write", "line.go:AttachLineByAsn")],
  ["operate.AttachLineByAsn"])

p("O07", "Any sequence of operations keeps the table rectangular and packable",
  "After any sequence of the provided operations on ascending data of one address family exported with any rule (naming no column twice and leaving at least one), every row has exactly one value per column, column names are unique, and the networks still cover the same addresses. The result can be packed to ipdb and scan, and what reads back there for every address agrees with the rows.",
  ["histories", "inputs"],
  "every sequence of normalise, clean-up, merge, attach district, attach or replace line (by network or AS number), over every starting column set",
  NOTEST % "operations, alone or in sequence",
  ["db/field/operate/operate.go", "db/field/operate/line.go", "db/field/operate/district.go", "db/field/operate/replace.go", "db/convert/dumper.go"],
  [("column bookkeeping in each operation", "operate/*.go")],
  ["operate.*, convert.PackBytes, query.Db, format.GetDumpFormat"])

p("N01", "A range decomposes into exactly its addresses, minimally",
  "The networks produced for an address range are aligned, ascending and disjoint, cover exactly the addresses from start to end inclusive, and are as few as possible. This holds for IPv4 and IPv6 ranges of every size, including single addresses, the whole space and ranges ending at its last address, and the computation always ends.",
  ["inputs"],
  "every range start <= end in either family and either byte length",
  "Five hand-picked IPv4 ranges are tested, only for the number of networks; IPv6 and the end of the space are not.",
  ["ipnet/range.go", "ipnet/ipnet.go", "ipnet/ip.go"],
  [("greedy block choice", "range.go:IPNets/PrefixSameLength/SuffixZeroLength"), ("advancing", "ipnet.go:LastIP, ip.go:NextIP")],
  ["ipnet.Range.IPNets"])

p("N02", "Range operations follow set semantics up to the ends of the space",
  "A range contains an address exactly when it lies between start and end inclusive; joining succeeds exactly when the other range starts inside the first or right after its end and then yields their union; the common range succeeds exactly when the address lies in both and then yields their intersection. A failed operation changes nothing, the argument is never changed, and ranges touching the first or last address behave like any other.",
  ["inputs", "histories"],
  "every pair of ranges and address of one family, sequences of operations on one range",
  "Ten hand-picked IPv4 examples; no IPv6, none at the end of the space, no sequences.",
  ["ipnet/range.go", "ipnet/ipnet.go", "ipnet/ip.go"],
  [("comparisons with the successor of the end", "range.go:Join/JoinIPNet/CommonRange, ipnet.go:Contains")],
  ["ipnet.Range, ipnet.Contains"])

p("N03", "Address arithmetic and conversions are exact",
  "Address order is the numeric order, also between 4-byte and 16-byte forms; the successor is the next number with carry across all bytes; the last address and the following start of a network are its numeric bounds; common-prefix and trailing-zero lengths count bits exactly. Conversions between integers, texts and addresses are mutually inverse, and none of these operations changes its arguments.",
  ["inputs"],
  "every address, pair of addresses, prefix length and integer",
  "A handful of IPv4 examples and ten random conversions; no carry beyond them, no IPv6, no mixed lengths.",
  ["ipnet/ip.go", "ipnet/ipnet.go", "ipnet/range.go"],
  [("byte-wise arithmetic", "ip.go, ipnet.go, range.go:PrefixSameLength/SuffixZeroLength")],
  ["package ipnet"])

p("X01", "A conversion's outputs carry the documented pipeline's result",
  "Running the converter on an ipdb, awdb, scan or memip source with a rule (one that names a memip file's own columns) and optional line database writes, for every requested output format, the result of exporting by the rule, normalising, cleaning up ISPs, merging neighbours, applying lines and attaching districts. Every address therefore has the same values in each of the outputs, whatever their number and order. An output may replace an older file, the source or the line database; no other file is changed.",
  ["inputs", "configurations"],
  "every covering source database, rule, line database and mode, list of output formats",
  "No existing test runs the converter or any part of its pipeline.",
  ["cmd/converter/main.go", "db/convert/dumper.go", "db/convert/packer.go", "db/field/operate/operate.go"],
  [("pipeline assembly", "cmd/converter/main.go:main, operate.go:DefaultOperates")],
  ["files written by the built converter binary"])

p("X02", "The HTTP server answers every path like a lookup",
  "For any loaded database, requesting the path of an IP address returns status 200 and a JSON object with exactly the non-empty attributes that a lookup of that address gives; every other path, and every address without a record, gets status 404, whatever headers come with the request. The version path returns the database's version information, and no request disturbs later or concurrent ones, nor does a client that sends something else than a request, half of one, or goes away before reading the answer. The command for a single lookup prints the same record, or nothing where there is none, and the version information when asked for it.",
  ["inputs", "histories"],
  "every database, every sequence of request paths on one or several connections",
  "No existing test starts the server.",
  ["cmd/server/server.go", "cmd/server/main.go", "cmd/simple/main.go", "db/query/query.go", "db/inf/db_inf.go"],
  [("request handling", "server.go:ListenAndServe"), ("single lookup", "cmd/simple/main.go:main")],
  ["HTTP responses of the built server binary on the loopback interface", "standard output of the built command"])

p("X03", "The Java library answers like the Go library",
  "For every well-formed ipdb database, packed by this project or written by another tool, and every IPv4 or IPv6 address in binary or ordinary textual form, the Java library returns a record exactly when the Go library does, with the same values for country, province, city, isp, asn, continent, line and district, and otherwise throws one of its own declared exceptions. The address family, the time of building, the number of nodes, the stored version text and the extra information it reports are the same, too. None of this depends on the platform's character set, on earlier queries, on what callers do with the records they were given, or on other threads asking at the same time.",
  ["inputs", "configurations", "histories", "schedules"],
  "every database, column selection and order, every address, every history of queries and changes to the records they gave",
  "The Java tests need an absent database file and test one address each; nothing compares the languages.",
  ["java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java", "java/src/main/java/qiniu/uip/db/format/ipdb/Ipdb.java", "java/src/main/java/qiniu/uip/db/Query.java"],
  [("tree walk and shortcut table", "Reader.java:findNode/readDepth/initCache"), ("column mapping", "Reader.java:query/resolveNode"), ("address parsing", "Query.java:query")],
  ["qiniu.uip.db.Query run on packed databases, against the reference model of the packed data"])

p("X04", "The Rust library answers like the Go library",
  "For every well-formed ipdb database, packed by this project or written by another tool, and every IPv4 or IPv6 address, the Rust library returns a record exactly when the Go library does, with the same values for country, province, city, isp, asn, continent, line and district, and otherwise returns an error without panicking. The column offset recorded for the language is honoured, textual, binary and numeric queries agree, and the address family, the time of building, the number of nodes, the stored version text and the extra information are reported. The query program prints that record, or an error where there is none.",
  ["inputs", "configurations"],
  "every database, column selection and order, language offset, every address (IPv4-mapped IPv6 excepted, which only Go folds into IPv4)",
  "The Rust crate has no tests.",
  ["rust/src/formats/ipdb/reader.rs", "rust/src/formats/ipdb.rs", "rust/src/query.rs"],
  [("tree walk and shortcut table", "reader.rs:find_node/read_depth/init_cache"), ("column mapping", "reader.rs:build_info/resolve_node")],
  ["qnip::query::QueryDb run on packed databases, against the reference model of the packed data"])

p("X05", "The Java and Rust libraries survive malformed databases",
  "For arbitrary bytes offered as an ipdb database, from memory or from a file of any name, loading with the Java or the Rust library either succeeds or gives an error the library declares, and so does every later lookup of any address: no other exception, no panic, no endless loop, no memory beyond a small multiple of the input. A database cut short anywhere is rejected when it is loaded.",
  ["inputs", "faults"],
  "all byte strings, in particular well-formed databases cut short or altered in the metadata, the tree or the records",
  "No test of either library offers anything but a well-formed database.",
  ["java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java", "java/src/main/java/qiniu/uip/db/Query.java", "rust/src/formats/ipdb/reader.rs", "rust/src/query.rs"],
  [("Java loading and record access", "Reader.java:Reader/resolveNode/readDepth"), ("Rust loading and record access", "reader.rs:MetaData::new/Reader::new/resolve_node")],
  ["exceptions and panics caught in driver processes that run the libraries"])

p("X06", "The programs refuse unusable files cleanly",
  "Given a source or line database it cannot use (missing, a directory, damaged, of an unsupported format), the converter reports the library's error and leaves every file as it was, whatever outputs are requested; given an output it cannot write, it says so, the outputs named before it are complete, and every other file is complete or as it was. The server and the lookup program, given a database they cannot use, report the library's error and end without serving or printing a record, and so does a server whose address is taken.",
  ["inputs", "faults"],
  "all ways a file can be unusable, positions of the unusable output among the others, files already present",
  "No test runs the programs at all.",
  ["cmd/converter/main.go", "cmd/server/main.go", "cmd/simple/main.go", "db/convert/dumper.go", "db/convert/packer.go", "db/query/query.go"],
  [("error handling of the converter", "cmd/converter/main.go:main"), ("error handling of server and lookup", "cmd/server/main.go:main, cmd/simple/main.go:main")],
  ["contents of every file of the directory before and after a run of the built programs, their standard output and error"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w", encoding="utf-8") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
