#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (the committed file is the output of this script).
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

p("C01", "Read-write round trip preserves the content of every supported table",
  "Writing a parsed well-formed TrueType font yields a file carrying the same content for every supported table the input had (head, hhea, maxp, OS/2, cvt, fpgm and prep byte for byte; every glyph's outline bytes, advance width and side bearing; every name record and language tag; every character-to-glyph mapping of the supported cmap formats 0, 4, 6 and 12; the post header) and no table the input lacked. Only head's checksum adjustment, the post name data (post is reduced to a header-only version unless it is version 1.0) and physical layout may differ. This holds for every version, size, layout and optional-table combination the parser accepts.",
  ["inputs", "configurations"],
  "every well-formed TrueType font: every combination of optional tables, table versions, loca format, metric layout, cmap formats, file layout and field values",
  "The tests read and rewrite two real fonts and mostly compare one table or spot values; all other versions, field values and table combinations are never seen.",
  ["font.go", "table_head.go", "table_hhea.go", "table_maxp.go", "table_os2.go", "table_cvt.go", "table_fpgm.go", "table_prep.go", "table_hmtx.go", "table_loca.go", "table_glyf.go", "table_name.go", "table_post.go", "table_cmap.go", "byte_reader.go", "byte_writer.go"],
  [("parse/write pairs per table", "table_*.go"), ("table sequencing", "font.go: parseFont, write")],
  ["Parse", "Font.Write"])

p("C02", "Every written font file is structurally valid and passes validation",
  "Any file produced by Write, from a parsed or derived font after any sequence of subset, prune and optimize calls, has a directory whose records are in tag order, in range, 4-byte aligned, non-overlapping and counted correctly with matching search fields; every record's checksum equals the checksum of its bytes; and the head checksum adjustment makes the whole file sum to 0xB1B0AFBA. The inner counts and offsets agree too: loca has one entry more than the glyph count, is monotonic and ends within glyf, hmtx has exactly the announced metrics, cmap and name records point inside their tables. ValidateBytes accepts the file and Parse reads it back.",
  ["histories", "inputs"],
  "all histories of subset, prune, optimize and write calls on all well-formed fonts",
  "The suite validates one rewritten font and never validates a subset, pruned or optimized one, nor an input with odd-sized tables.",
  ["font.go", "table_record.go", "table_offset.go", "byte_writer.go", "validate.go", "export.go"],
  [("two-phase write: body, directory, checksum adjustment", "font.go: write"), ("checksum", "byte_writer.go: checksum"), ("record bookkeeping", "table_record.go: Set")],
  ["Font.Write", "ValidateBytes"])

p("C03", "Validation accepts intact fonts and rejects corrupted ones",
  "ValidateBytes and ValidateFile accept every font file whose head checksum adjustment matches the whole file and whose table records all match their tables' checksums, whatever tables it contains. They reject with an error any such file after any single byte anywhere is changed to any other value, after it is cut short inside any table, and any file in which some record's checksum disagrees with its table's bytes even when the whole-file sum has been made consistent again.",
  ["inputs", "fault_sequences"],
  "all single-byte corruptions, all truncations and all per-table checksum mismatches of well-formed font files",
  "The validation test only accepts three intact files (one of them missing); no corrupted input is ever validated.",
  ["validate.go", "byte_writer.go", "export.go", "table_record.go"],
  [("whole-file checksum comparison", "validate.go"), ("per-table checksum loop", "validate.go")],
  ["ValidateBytes", "ValidateFile"])

p("C04", "No input bytes make the library panic or hang",
  "Parse, ParseFile, ValidateBytes and ValidateFile terminate without panicking on every byte sequence and return either a usable font or an error. On every font value they return, and on every font derived from it, every exported operation (lookups, name queries, glyph location, table info, subsetting by runes, indices or count, pruning, optimizing and writing) terminates without panicking, whether or not optional tables are present, were pruned or are malformed. Arguments outside the font's range (glyph ids, non-negative counts, runes, unknown table names) are likewise handled without panicking.",
  ["inputs", "histories"],
  "all byte sequences given to the parser and all exported call sequences on whatever it accepts",
  "Tests only feed intact fonts with all tables present; malformed lengths, offsets, counts and missing tables are never exercised.",
  ["font.go", "export.go", "table_glyf.go", "table_loca.go", "table_cmap.go", "table_name.go", "table_post.go", "table_hmtx.go", "validate.go"],
  [("range checks in table parsers", "table_*.go"), ("nil-table guards", "export.go, font.go")],
  ["Parse", "ValidateBytes", "all exported methods"])

p("C05", "Parsing is independent of read chunking and never hides I/O errors",
  "For one file content, the parse result is the same whatever legal pattern of short reads, empty reads or data-with-EOF returns the ReadSeeker delivers. If any read or seek fails at any point, or the content is truncated at any length, Parse either returns an error or returns the same font it would have returned without the fault; it never returns a font silently missing or altering data.",
  ["fault_sequences", "inputs"],
  "all legal read behaviours and all single and repeated read/seek faults and truncations during parsing",
  "Tests read from regular files and in-memory readers that always deliver full reads and never fail.",
  ["byte_reader.go", "font.go", "table_glyf.go", "table_name.go", "table_post.go", "table_cmap.go"],
  [("buffered reader with ReadFull semantics", "byte_reader.go"), ("error propagation in table parsers", "table_*.go")],
  ["Parse"])

p("C06", "Writing delivers the complete font or an error, to memory and to files",
  "Write either hands the sink the complete font file and returns nil, or returns a non-nil error whenever the sink fails at any byte, and a failed Write leaves the font able to be written correctly afterwards. WriteFile makes the file's content exactly the bytes Write produces, replacing any longer or shorter previous content, and reports creation and write failures. ParseFile and ValidateFile on that path agree with Parse and ValidateBytes on the same bytes.",
  ["fault_sequences", "histories"],
  "all sink failure points and file pre-states, for all fonts",
  "The suite writes one file to a fresh path and never injects a sink failure or overwrites existing content.",
  ["export.go", "byte_writer.go", "font.go"],
  [("flush error propagation", "byte_writer.go: flush"), ("file creation", "export.go: WriteFile")],
  ["Font.Write", "Font.WriteFile", "ParseFile", "ValidateFile"])

p("C07", "Keeping a glyph set keeps its full component closure at the same glyph ids",
  "SubsetKeepIndices (and SubsetKeepRunes, for the glyphs of those runes) yields a font in which every requested glyph and every glyph transitively referenced by a requested composite glyph keeps its glyph id, its exact outline bytes, advance width and left side bearing. Every other glyph's outline is emptied, and the glyph count becomes the largest kept id plus one, or stays the same when that is not smaller. Glyph tables for hinting, headers and names are carried over unchanged apart from glyph and metric counts.",
  ["inputs", "programs"],
  "all component reference graphs (chains, sharing, cycles, every component encoding) and all requested index or rune sets",
  "No test calls any subsetting function.",
  ["export.go", "table_glyf.go"],
  [("closure worklist", "export.go: SubsetKeepIndices"), ("composite glyph decoding", "table_glyf.go: parseComposite, GetComponents"), ("loca rebuild", "export.go")],
  ["Font.SubsetKeepIndices", "Font.SubsetKeepRunes"])

p("C08", "Subsetting to the first n glyphs keeps exactly that prefix",
  "SubsetFirst(n), for n below the glyph count, yields a font with exactly n glyphs in which each glyph's outline bytes, advance width and left side bearing equal the source's, whatever split the source used between full metrics and trailing side bearings and whichever loca format. For n at or above the glyph count the result has all the source's content. All tables not indexed by glyph are carried over unchanged apart from glyph and metric counts.",
  ["inputs"],
  "all counts n, all glyph size vectors, metric layouts and loca formats",
  "No test calls any subsetting function.",
  ["export.go", "table_hmtx.go", "table_loca.go"],
  [("table truncation and loca rebuild", "export.go: SubsetFirst")],
  ["Font.SubsetFirst", "Font.Write"])

p("C09", "Subsetting keeps every character mapping to a retained glyph and no other",
  "In a subset font limited to n glyphs, each cmap subtable of a supported format maps exactly the character codes that the source subtable mapped to glyphs below n, to the same glyphs; codes that mapped to later glyphs become unmapped. This holds both for lookups on the returned font and for the file it writes, with platform, encoding, format and language preserved and the regenerated format 4 and 12 data well formed (sorted, non-overlapping, properly terminated, with correct lengths, counts and search fields).",
  ["inputs"],
  "all character-to-glyph maps in formats 0, 4, 6 and 12 and all truncation points",
  "No test calls any subsetting function; regenerated cmap data is never read back.",
  ["export.go", "table_cmap.go"],
  [("cmap regeneration", "export.go: SubsetFirst"), ("cmap serialization", "table_cmap.go: writeCmap*")],
  ["Font.GetCmap", "Font.LookupRunes", "Font.Write"])

p("C10", "Operations on a font never affect the font it came from or its siblings",
  "A font and the fonts derived from it behave as independent values: after any sequence of subset, prune, optimize, lookup and write calls on any of them, every other one still answers every query and writes exactly the same bytes as before. The only exception is a subset call that returns its receiver unchanged because nothing had to be removed. Failed calls change nothing either, and repeating a failed call fails again.",
  ["histories"],
  "all histories of derive, prune, optimize, query and write operations over a tree of fonts",
  "Tests never derive one font from another nor look at a font again after an operation.",
  ["export.go", "table_cmap.go", "table_glyf.go", "table_name.go", "table_hmtx.go", "font.go"],
  [("table copying on derivation", "export.go: SubsetKeepIndices, SubsetFirst")],
  ["all exported methods"])

p("C11", "Writing is deterministic, repeatable and side-effect free",
  "Writing the same font value any number of times, in any process, produces identical bytes, and parsing a written file and writing it again reproduces it byte for byte. Write changes nothing observable about the font: lookups, names, glyph locations and table info answer the same before and after. Likewise all queries answer the same every time they are asked.",
  ["histories", "inputs"],
  "all fonts and all repetitions and interleavings of write and query calls",
  "Tests write each font once and never compare two outputs or queries after a write.",
  ["font.go", "table_name.go", "table_post.go", "table_cmap.go", "export.go"],
  [("write path", "font.go: write"), ("cmap selection", "export.go: GetCmap")],
  ["Font.Write", "Font.GetCmap", "Font.TableInfo"])

p("C12", "Decoded character maps match the font's cmap data",
  "For every well-formed cmap subtable in format 0, 4, 6 or 12, GetCmap for its platform and encoding maps exactly the characters the subtable's data defines by the OpenType specification, to exactly those glyphs (format 4 deltas modulo 65536 and range-offset indexing included; Unicode, Unicode full-repertoire, Mac Roman, Shift-JIS, GBK and Big5 code interpretation). A character not mapped, or mapped to glyph 0, is absent or 0. Subtables in unsupported formats are skipped without disturbing the others, and a platform/encoding pair the font lacks gives nil.",
  ["inputs"],
  "all well-formed cmap tables: all segmentations, deltas, range offsets, groups, trimmed arrays, byte tables and subtable combinations",
  "Tests spot-check 14 characters in two fonts' format 4, 6 and 12 tables; range offsets, format 0 and other platforms are not checked.",
  ["table_cmap.go", "encoding.go", "export.go"],
  [("format parsers", "table_cmap.go: parseCmapSubtableFormat*"), ("code to rune decoding", "encoding.go")],
  ["Font.GetCmap"])

p("C13", "Rune lookup is positional, total and honours the subtable priority",
  "LookupRunes returns exactly one glyph index per input rune, in input order, duplicates included. Each is the glyph assigned by the first of the subtables (3,1), (1,0), (0,3), (3,10) that defines that rune, or 0 when none does. SubsetKeepRunes keeps exactly the glyphs LookupRunes reports.",
  ["inputs", "configurations"],
  "all rune sequences and all presence/coverage combinations of the four consulted subtables",
  "LookupRunes is not tested.",
  ["export.go"],
  [("ordered probing", "export.go: LookupRunes")],
  ["Font.LookupRunes", "Font.SubsetKeepRunes"])

p("C14", "Metric optimization is lossless and minimal",
  "Optimize, and the optimization inside subsetting, never changes any glyph's advance width or left side bearing as read back from the written file, for any sequence of widths and any initial number of full metrics. After it, the number of full metrics announced in hhea equals the number stored and is the smallest that represents the widths of the full metrics it started from, so the metrics table never grows. Applying it again changes nothing.",
  ["inputs", "histories"],
  "all width/side-bearing sequences and all initial full-metric counts",
  "Three hand-picked metric vectors are tested on the in-memory structure; all-equal, alternating, single-metric and subset cases are not.",
  ["table_hmtx.go", "table_hhea.go", "export.go"],
  [("trailing equal-width run stripping", "table_hmtx.go: optimizeHmtx")],
  ["Font.Optimize", "Font.Write"])

p("C15", "Name strings are decoded correctly and looked up by id and language",
  "GetNameByID returns the decoded string of the first name record with that id, or an empty string if there is none or the font has no name table; GetNameRecords returns, per language id, every name id with the decoded string of its last record. Unicode-platform and Windows Unicode records decode as UTF-16BE (surrogate pairs included) and Macintosh records as Mac Roman, with non-printable characters shown as quoted escapes. This holds for every record order, storage layout, sharing or overlap of string storage, and for name table formats 0 and 1, before and after a write and read back.",
  ["inputs"],
  "all name tables: record sets, platforms, encodings, string contents and storage layouts",
  "Three fonts' names are compared; Unicode-platform records, surrogates, format 1 and shared storage never occur in them.",
  ["table_name.go", "internal/strutils/encoding.go"],
  [("string storage lookup", "table_name.go: parseNameTable"), ("decoding", "table_name.go: Decoded"), ("storage rebuild", "table_name.go: writeNameTable")],
  ["Font.GetNameByID", "Font.GetNameRecords"])

p("C16", "Every standard post table version parses to the right glyph names",
  "Fonts whose post table is version 1.0, 2.0, 2.5 or 3.0 parse, and the glyph names reported by TableInfo are the standard Macintosh names for version 1.0, the standard or custom Pascal-string names selected by each glyph's index for 2.0 (names up to 255 bytes, and names shared by several glyphs, included), and the offset-selected standard names for 2.5. Inconsistent glyph counts or name indices beyond the stored names are rejected with an error. Writing keeps the post header fields and emits version 1.0 only for a 258-glyph font whose names are the standard ones, and version 3.0 otherwise.",
  ["inputs", "configurations"],
  "all post table versions, name index vectors and Pascal string contents",
  "Post parsing is only exercised by loading two fonts (versions 2.0 and 3.0) and its result is never compared.",
  ["table_post.go", "encoding.go", "byte_reader.go"],
  [("version dispatch", "table_post.go: parsePost"), ("header-only output", "table_post.go: writePost")],
  ["Font.TableInfo", "Font.Write"])

p("C17", "Text codecs are exact inverses and never touch their input",
  "Encoding any valid Unicode string to UTF-16BE and decoding it gives the string back, decoding follows the UTF-16 standard for every code unit sequence, and decoding never modifies the caller's bytes or memory beyond them. Encoding to PDFDocEncoding maps each representable character to its one code and drops the rest, decoding maps each assigned byte to its one character and drops the rest, and the two are mutually inverse and deterministic over the assigned codes.",
  ["inputs"],
  "all strings and byte sequences",
  "Five sample strings are encoded and decoded; surrogates, odd lengths, unassigned and duplicate codes are not.",
  ["internal/strutils/encoding.go", "internal/strutils/pdfdocenc.go"],
  [("UTF-16 conversion", "internal/strutils/encoding.go"), ("code tables", "internal/strutils/pdfdocenc.go")],
  ["strutils.UTF16ToString", "strutils.StringToUTF16", "strutils.PDFDocEncodingToString", "strutils.StringToPDFDocEncoding"])

p("C18", "Independently parsed fonts can be used concurrently without interference",
  "Operations on fonts obtained from separate Parse calls share no mutable state: for any interleaving of parsing, querying, subsetting, optimizing and writing of different fonts on different goroutines, each gives exactly the results it gives alone, with no data race. Concurrent pure lookups (GetCmap, LookupRunes, GetNameByID, GetNameRecords, GetGlyphDataOffset) on one shared font are likewise race free and give the sequential answers.",
  ["schedules"],
  "all interleavings of operations on two or more independently parsed fonts, and of lookups on a shared one",
  "No test uses more than one goroutine or has two fonts in progress at once.",
  ["byte_reader.go", "byte_writer.go", "export.go", "table_glyf.go", "internal/strutils/encoding.go"],
  [("per-font reader, writer and table state; no package-level mutable state", "byte_reader.go, byte_writer.go, font.go")],
  ["Parse", "Font.Write", "all exported methods"])

p("C19", "The command line tool does what the library does and reports failure",
  "truecli validate exits 0 exactly when the file is a valid font; readwrite, subset gids, subset runes and subset simple exit 0 and leave a file with exactly the bytes the library's write of the corresponding (subset) font has, and info prints the library's table info. On invalid fonts, unreadable files or invalid arguments (glyph ids that are not 16-bit numbers, missing arguments) every command exits non-zero and writes no output file.",
  ["inputs", "configurations"],
  "all command lines over all fonts",
  "There are no tests of the command line tool.",
  ["truecli/cmd/validate.go", "truecli/cmd/readwrite.go", "truecli/cmd/subset_gids.go", "truecli/cmd/subset_runes.go", "truecli/cmd/subset_simple.go", "truecli/cmd/info.go", "truecli/cmd/root.go"],
  [("command handlers", "truecli/cmd/*.go")],
  ["process exit status", "output file", "standard output"])

p("C20", "Pruning removes exactly the named tables",
  "PruneTables removes exactly those of cmap, post and name that are given, in any order, number of repetitions and mixture with unknown names, and leaves every other table of the font, and every query not served by a removed table, as it was. The removed tables are absent from files written afterwards and from fonts subset afterwards, and queries they served answer as for a font without the table (nil map, glyph 0, empty name).",
  ["histories", "inputs"],
  "all argument lists and all positions of prune calls in operation histories",
  "PruneTables is not tested.",
  ["export.go", "font.go"],
  [("table removal", "export.go: PruneTables"), ("presence-driven output", "font.go: numTablesToWrite, write")],
  ["Font.PruneTables", "Font.Write", "Font.GetCmap", "Font.GetNameByID"])

p("C21", "Glyph location queries agree with the glyph data",
  "For every glyph id below the glyph count of a well-formed parsed or subset font, GetGlyphDataOffset returns the offset and length at which that glyph's outline bytes lie in the glyf table (for a subset font: in the glyf table it writes), in both loca formats, for empty glyphs, glyphs longer than 64 KiB and data that does not start at offset 0. For any other glyph id it returns an error.",
  ["inputs"],
  "all glyph size vectors, loca formats, subset operations and glyph ids",
  "GetGlyphDataOffset is only used indirectly while loading two fonts.",
  ["table_loca.go", "table_glyf.go", "export.go"],
  [("loca decoding", "table_loca.go: GetGlyphDataOffset"), ("loca rebuild on subset", "export.go")],
  ["Font.GetGlyphDataOffset"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
