From cb6856e69e279c73fcf73c8a0f4c3f2c8508fc87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:53 +0000
Subject: [PATCH 01/45] fix: align written tables to 4 bytes

---
 byte_writer.go | 11 +++++++++++
 font.go        | 26 +++++++++++++-------------
 2 files changed, 24 insertions(+), 13 deletions(-)

diff --git a/byte_writer.go b/byte_writer.go
index 4fec70c..dc18ca0 100644
--- a/byte_writer.go
+++ b/byte_writer.go
@@ -41,6 +41,17 @@ func (w *byteWriter) flush() error {
 	return nil
 }
 
+// flushPadded flushes the buffer padded with zeros to a multiple of 4 bytes, so that what follows is aligned.
+func (w *byteWriter) flushPadded() error {
+	for w.bufferedLen()%4 != 0 {
+		err := w.writeBytes([]byte{0})
+		if err != nil {
+			return err
+		}
+	}
+	return w.flush()
+}
+
 // bufferedLen returns the length of the current buffer.
 func (w *byteWriter) bufferedLen() int {
 	return w.buffer.Len()
diff --git a/font.go b/font.go
index c8b6bff..019f82a 100644
--- a/font.go
+++ b/font.go
@@ -245,7 +245,7 @@ func (f *font) write(w *byteWriter) error {
 		}
 		headChecksum = bufw.checksum()
 		trec.Set("head", offset, bufw.bufferedLen(), headChecksum)
-		err = bufw.flush()
+		err = bufw.flushPadded()
 		if err != nil {
 			return err
 		}
@@ -257,7 +257,7 @@ func (f *font) write(w *byteWriter) error {
 			return err
 		}
 		trec.Set("maxp", offset, bufw.bufferedLen(), bufw.checksum())
-		err = bufw.flush()
+		err = bufw.flushPadded()
 		if err != nil {
 			return err
 		}
@@ -270,7 +270,7 @@ func (f *font) write(w *byteWriter) error {
 				return err
 			}
 			trec.Set("hhea", offset, bufw.bufferedLen(), bufw.checksum())
-			err = bufw.flush()
+			err = bufw.flushPadded()
 			if err != nil {
 				return err
 			}
@@ -284,7 +284,7 @@ func (f *font) write(w *byteWriter) error {
 				return err
 			}
 			trec.Set("hmtx", offset, bufw.bufferedLen(), bufw.checksum())
-			err = bufw.flush()
+			err = bufw.flushPadded()
 			if err != nil {
 				return err
 			}
@@ -298,7 +298,7 @@ func (f *font) write(w *byteWriter) error {
 				return err
 			}
 			trec.Set("loca", offset, bufw.bufferedLen(), bufw.checksum())
-			err = bufw.flush()
+			err = bufw.flushPadded()
 			if err != nil {
 				return err
 			}
@@ -312,7 +312,7 @@ func (f *font) write(w *byteWriter) error {
 				return err
 			}
 			trec.Set("glyf", offset, bufw.bufferedLen(), bufw.checksum())
-			err = bufw.flush()
+			err = bufw.flushPadded()
 			if err != nil {
 				return err
 			}
@@ -326,7 +326,7 @@ func (f *font) write(w *byteWriter) error {
 				return err
 			}
 			trec.Set("prep", offset, bufw.bufferedLen(), bufw.checksum())
-			err = bufw.flush()
+			err = bufw.flushPadded()
 			if err != nil {
 				return err
 			}
@@ -340,7 +340,7 @@ func (f *font) write(w *byteWriter) error {
 				return err
 			}
 			trec.Set("cvt", offset, bufw.bufferedLen(), bufw.checksum())
-			err = bufw.flush()
+			err = bufw.flushPadded()
 			if err != nil {
 				return err
 			}
@@ -354,7 +354,7 @@ func (f *font) write(w *byteWriter) error {
 				return err
 			}
 			trec.Set("fpgm", offset, bufw.bufferedLen(), bufw.checksum())
-			err = bufw.flush()
+			err = bufw.flushPadded()
 			if err != nil {
 				return err
 			}
@@ -368,7 +368,7 @@ func (f *font) write(w *byteWriter) error {
 				return err
 			}
 			trec.Set("name", offset, bufw.bufferedLen(), bufw.checksum())
-			err = bufw.flush()
+			err = bufw.flushPadded()
 			if err != nil {
 				return err
 			}
@@ -382,7 +382,7 @@ func (f *font) write(w *byteWriter) error {
 				return err
 			}
 			trec.Set("OS/2", offset, bufw.bufferedLen(), bufw.checksum())
-			err = bufw.flush()
+			err = bufw.flushPadded()
 			if err != nil {
 				return err
 			}
@@ -396,7 +396,7 @@ func (f *font) write(w *byteWriter) error {
 				return err
 			}
 			trec.Set("post", offset, bufw.bufferedLen(), bufw.checksum())
-			err = bufw.flush()
+			err = bufw.flushPadded()
 			if err != nil {
 				return err
 			}
@@ -410,7 +410,7 @@ func (f *font) write(w *byteWriter) error {
 				return err
 			}
 			trec.Set("cmap", offset, bufw.bufferedLen(), bufw.checksum())
-			err = bufw.flush()
+			err = bufw.flushPadded()
 			if err != nil {
 				return err
 			}
-- 
2.43.0


From 2390df25a787ec8af7a406c715dbe64add5ef649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:07 +0000
Subject: [PATCH 02/45] fix: write table directory sorted by tag

---
 font.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/font.go b/font.go
index 019f82a..37ee4b7 100644
--- a/font.go
+++ b/font.go
@@ -10,6 +10,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io"
+	"sort"
 
 	"github.com/sirupsen/logrus"
 )
@@ -418,6 +419,11 @@ func (f *font) write(w *byteWriter) error {
 	}
 	logrus.Trace("Write 3")
 
+	// The table directory is sorted in ascending order by tag.
+	sort.Slice(trec.list, func(i, j int) bool {
+		return bytes.Compare(trec.list[i].tableTag[:], trec.list[j].tableTag[:]) < 0
+	})
+
 	// Write the offset and table records to another mock buffer.
 	var bufh bytes.Buffer
 	{
-- 
2.43.0


From 1e9d92b73d46da318c3553cf266957f5ea7ea066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:09 +0000
Subject: [PATCH 03/45] fix: compute offset table search fields for the tables
 written

---
 font.go         |  1 +
 table_offset.go | 10 ++++++++++
 2 files changed, 11 insertions(+)

diff --git a/font.go b/font.go
index 37ee4b7..033c91c 100644
--- a/font.go
+++ b/font.go
@@ -215,6 +215,7 @@ func (f *font) write(w *byteWriter) error {
 		entrySelector: f.ot.entrySelector,
 		rangeShift:    f.ot.rangeShift,
 	}
+	otTable.setSearchFields()
 	trec := &tableRecords{}
 
 	f.ot.numTables = uint16(numTables)
diff --git a/table_offset.go b/table_offset.go
index 2bd0fae..a290877 100644
--- a/table_offset.go
+++ b/table_offset.go
@@ -40,3 +40,13 @@ func (f *font) writeOffsetTable(w *byteWriter) error {
 	}
 	return w.write(f.ot.sfntVersion, f.ot.numTables, f.ot.searchRange, f.ot.entrySelector, f.ot.rangeShift)
 }
+
+// setSearchFields sets the binary search fields of `t` to match its number of tables.
+func (t *offsetTable) setSearchFields() {
+	t.searchRange, t.entrySelector = 16, 0
+	for 2*t.searchRange <= 16*t.numTables {
+		t.searchRange *= 2
+		t.entrySelector++
+	}
+	t.rangeShift = 16*t.numTables - t.searchRange
+}
-- 
2.43.0


From d99646b9627f9de79591ce1eefc387e740f60c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:51 +0000
Subject: [PATCH 04/45] fix: write loca offsets relative to the written glyf
 data

---
 export.go     |  4 ----
 table_loca.go | 15 ++++++++++++++-
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/export.go b/export.go
index 72b111b..f8bb4a0 100644
--- a/export.go
+++ b/export.go
@@ -211,10 +211,8 @@ func (f *Font) SubsetKeepIndices(indices []GlyphIndex) (*Font, error) {
 		isShort := f.font.head.indexToLocFormat == 0
 		if isShort {
 			newfnt.loca.offsetsShort = make([]offset16, len(newfnt.glyf.descs)+1)
-			newfnt.loca.offsetsShort[0] = f.font.loca.offsetsShort[0]
 		} else {
 			newfnt.loca.offsetsLong = make([]offset32, len(newfnt.glyf.descs)+1)
-			newfnt.loca.offsetsLong[0] = f.font.loca.offsetsLong[0]
 		}
 		for i, desc := range newfnt.glyf.descs {
 			if isShort {
@@ -338,10 +336,8 @@ func (f *Font) SubsetFirst(numGlyphs int) (*Font, error) {
 		isShort := f.font.head.indexToLocFormat == 0
 		if isShort {
 			newfnt.loca.offsetsShort = make([]offset16, numGlyphs+1)
-			newfnt.loca.offsetsShort[0] = f.font.loca.offsetsShort[0]
 		} else {
 			newfnt.loca.offsetsLong = make([]offset32, numGlyphs+1)
-			newfnt.loca.offsetsLong[0] = f.font.loca.offsetsLong[0]
 		}
 		for i, desc := range newfnt.glyf.descs {
 			if isShort {
diff --git a/table_loca.go b/table_loca.go
index 9940b6b..d40011f 100644
--- a/table_loca.go
+++ b/table_loca.go
@@ -104,7 +104,7 @@ func (f *font) writeLoca(w *byteWriter) error {
 	numGlyphs := int(f.maxp.numGlyphs)
 	isShort := f.head.indexToLocFormat == 0
 
-	t := f.loca
+	t := f.loca.rebased()
 	if isShort {
 		if numGlyphs+1 != len(t.offsetsShort) {
 			logrus.Debug("Unexpected length")
@@ -113,3 +113,16 @@ func (f *font) writeLoca(w *byteWriter) error {
 	}
 	return w.writeSlice(t.offsetsLong)
 }
+
+// rebased returns the table with offsets relative to the data of the first glyph, which is where the glyf table
+// starts when written.
+func (t *locaTable) rebased() *locaTable {
+	rt := &locaTable{}
+	for _, offset := range t.offsetsShort {
+		rt.offsetsShort = append(rt.offsetsShort, offset-t.offsetsShort[0])
+	}
+	for _, offset := range t.offsetsLong {
+		rt.offsetsLong = append(rt.offsetsLong, offset-t.offsetsLong[0])
+	}
+	return rt
+}
-- 
2.43.0


From 3c46c7781db21afe3033561d93066654adb0d4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:31 +0000
Subject: [PATCH 05/45] fix: count only the encoding records written in the
 cmap header

---
 table_cmap.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/table_cmap.go b/table_cmap.go
index d5359ef..8e5d0a8 100644
--- a/table_cmap.go
+++ b/table_cmap.go
@@ -557,8 +557,6 @@ func (f *font) writeCmap(w *byteWriter) error {
 	}
 	t := f.cmap
 
-	err := w.write(t.version, t.numTables)
-
 	// Write the cmap subtables to an in-memory mock buffer to calculate offsets.
 	var mockBuffer bytes.Buffer
 	mockWriter := newByteWriter(&mockBuffer)
@@ -602,12 +600,16 @@ func (f *font) writeCmap(w *byteWriter) error {
 			encodingRecords = append(encodingRecords, rec)
 		}
 	}
-	err = mockWriter.flush()
+	err := mockWriter.flush()
 	if err != nil {
 		return err
 	}
 
-	// Output the encoding records and the mock buffer.
+	// Output the header, the encoding records and the mock buffer.
+	err = w.write(t.version, uint16(len(encodingRecords)))
+	if err != nil {
+		return err
+	}
 	for _, rec := range encodingRecords {
 		rec.offset += offset32(4 + 8*len(encodingRecords)) // Add static part.
 		err := w.write(rec.platformID, rec.encodingID, rec.offset)
-- 
2.43.0


From ddecda0bcbd5eea5014dd27e50023e33b0a9d4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:34 +0000
Subject: [PATCH 06/45] fix: keep cmap subtables that share format, platform
 and encoding

---
 table_cmap.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/table_cmap.go b/table_cmap.go
index 8e5d0a8..c713c58 100644
--- a/table_cmap.go
+++ b/table_cmap.go
@@ -26,7 +26,7 @@ type cmapTable struct {
 
 	// Processed data:
 	subtables    map[string]*cmapSubtable
-	subtableKeys []string // "format,platformID,encodingID".
+	subtableKeys []string // "format,platformID,encodingID", made unique if needed.
 }
 
 type encodingRecord struct {
@@ -102,6 +102,10 @@ func (f *font) parseCmap(r *byteReader) (*cmapTable, error) {
 		}
 		if cmap != nil {
 			key := fmt.Sprintf("%d,%d,%d", format, enc.platformID, enc.encodingID)
+			if _, has := t.subtables[key]; has {
+				// Another subtable for the same encoding, e.g. for another language.
+				key = fmt.Sprintf("%s,%d", key, len(t.subtableKeys))
+			}
 			t.subtables[key] = cmap
 			t.subtableKeys = append(t.subtableKeys, key)
 			logrus.Debugf("KEY: %s <-> %T", key, cmap.ctx)
-- 
2.43.0


From f233e9f457db606ed3253cd58aac3a42db5aa8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:36 +0000
Subject: [PATCH 07/45] fix: GetCmap picks the first subtable instead of a
 random one

---
 export.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/export.go b/export.go
index f8bb4a0..786ef67 100644
--- a/export.go
+++ b/export.go
@@ -84,7 +84,8 @@ func (f *Font) GetCmap(platformID, encodingID int) map[rune]GlyphIndex {
 		return nil
 	}
 
-	for _, subt := range f.cmap.subtables {
+	for _, key := range f.cmap.subtableKeys {
+		subt := f.cmap.subtables[key]
 		if subt.platformID == platformID && subt.encodingID == encodingID {
 			return subt.cmap
 		}
-- 
2.43.0


From b88391032faf94040a4b76d939ef1bf9c40427d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:11 +0000
Subject: [PATCH 08/45] fix: decode full repertoire Unicode platform cmaps as
 UCS-4

---
 encoding.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/encoding.go b/encoding.go
index 3f90ae7..62dfe89 100644
--- a/encoding.go
+++ b/encoding.go
@@ -77,6 +77,9 @@ const (
 func getCmapEncoding(platformID, encodingID int) cmapEncoding {
 	switch platformID {
 	case platformIDUnicode:
+		if encodingID == 4 || encodingID == 6 { // Full repertoire.
+			return cmapEncodingUCS4
+		}
 		return cmapEncodingUCS2
 	case platformIDMacintosh:
 		return cmapEncodingMacRoman
-- 
2.43.0


From 00ba2f5d3495e99b4b2325519e4e96bed1e6ec8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:13 +0000
Subject: [PATCH 09/45] fix: decode single byte codes of Shift-JIS, GBK and
 Big5 cmaps

---
 encoding.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/encoding.go b/encoding.go
index 62dfe89..9e9de31 100644
--- a/encoding.go
+++ b/encoding.go
@@ -125,6 +125,7 @@ const (
 func (e cmapEncoding) GetRuneDecoder() runeDecoder {
 	var d *encoding.Decoder
 	var charcodeBytes int
+	var multibyte bool
 
 	switch e {
 	case cmapEncodingUCS2:
@@ -142,12 +143,15 @@ func (e cmapEncoding) GetRuneDecoder() runeDecoder {
 	case cmapEncodingShiftJIS:
 		d = japanese.ShiftJIS.NewDecoder()
 		charcodeBytes = 2
+		multibyte = true
 	case cmapEncodingPRC:
 		d = simplifiedchinese.GBK.NewDecoder()
 		charcodeBytes = 2
+		multibyte = true
 	case cmapEncodingBig5:
 		d = traditionalchinese.Big5.NewDecoder()
 		charcodeBytes = 2
+		multibyte = true
 	}
 
 	if d == nil {
@@ -159,17 +163,23 @@ func (e cmapEncoding) GetRuneDecoder() runeDecoder {
 	return runeDecoder{
 		Decoder:       d,
 		charcodeBytes: charcodeBytes,
+		multibyte:     multibyte,
 	}
 }
 
 // runeDecoder decodes runes from encoded byte data.
 type runeDecoder struct {
 	*encoding.Decoder
-	charcodeBytes int // number of bytes per charcode in TTF data.
+	charcodeBytes int  // number of bytes per charcode in TTF data.
+	multibyte     bool // charcodes below 256 are single bytes.
 }
 
 // ToBytes encodes `charcode` into bytes as represented in TTF data.
 func (d runeDecoder) ToBytes(charcode uint32) []byte {
+	if d.multibyte && charcode < 256 {
+		return []byte{byte(charcode)}
+	}
+
 	b := make([]byte, d.charcodeBytes)
 
 	switch d.charcodeBytes {
-- 
2.43.0


From ea8a8e218c1021b99a81eaf8c86075b254390124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:15 +0000
Subject: [PATCH 10/45] fix: map character codes to glyphs in cmap format 0,
 not the reverse

---
 table_cmap.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/table_cmap.go b/table_cmap.go
index c713c58..95be07f 100644
--- a/table_cmap.go
+++ b/table_cmap.go
@@ -170,12 +170,12 @@ func (f *font) parseCmapSubtableFormat0(r *byteReader, platformID, encodingID in
 	charcodes := make([]CharCode, len(st.glyphIDArray))
 	charcodeToGID := map[CharCode]GlyphIndex{}
 
-	for glyphID, code := range st.glyphIDArray {
+	for code, glyphID := range st.glyphIDArray {
 		charcodeToGID[CharCode(code)] = GlyphIndex(glyphID)
 		codeBytes := runeDecoder.ToBytes(uint32(code))
 		r := runeDecoder.DecodeRune(codeBytes)
-		runes[glyphID] = r
-		charcodes[glyphID] = CharCode(code)
+		runes[code] = r
+		charcodes[code] = CharCode(code)
 		if _, has := cmap[r]; !has {
 			// Avoid overwrite, if get same twice, use the earlier entry.
 			cmap[r] = GlyphIndex(glyphID)
-- 
2.43.0


From 73dd655a93bd08cdc6cb7e32f954e061d2f9b5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:51 +0000
Subject: [PATCH 11/45] fix: SubsetKeepIndices no longer empties the glyphs of
 its source font

---
 export.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/export.go b/export.go
index 786ef67..86be3b3 100644
--- a/export.go
+++ b/export.go
@@ -197,15 +197,14 @@ func (f *Font) SubsetKeepIndices(indices []GlyphIndex) (*Font, error) {
 	if f.font.glyf != nil && f.font.loca != nil {
 		newfnt.loca = &locaTable{}
 		newfnt.glyf = &glyfTable{}
-		*newfnt.glyf = *f.font.glyf
 
-		// Empty glyf contents for non-included glyphs.
-		for i := range newfnt.glyf.descs {
-			if _, has := gidIncludedMap[GlyphIndex(i)]; has {
-				continue
+		// Empty glyf contents for non-included glyphs. The descriptions of included glyphs are shared with `f`.
+		newfnt.glyf.descs = make([]*glyphDescription, len(f.font.glyf.descs))
+		for i, desc := range f.font.glyf.descs {
+			if _, has := gidIncludedMap[GlyphIndex(i)]; !has {
+				desc = &glyphDescription{}
 			}
-
-			newfnt.glyf.descs[i].raw = nil
+			newfnt.glyf.descs[i] = desc
 		}
 
 		// Update loca offsets.
-- 
2.43.0


From 0aa27352b739ebcf64b77870145c5050058eed1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:53 +0000
Subject: [PATCH 12/45] fix: short loca offsets of subset fonts with glyphs of
 64 KiB and more

---
 export.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/export.go b/export.go
index 86be3b3..280e08c 100644
--- a/export.go
+++ b/export.go
@@ -216,7 +216,7 @@ func (f *Font) SubsetKeepIndices(indices []GlyphIndex) (*Font, error) {
 		}
 		for i, desc := range newfnt.glyf.descs {
 			if isShort {
-				newfnt.loca.offsetsShort[i+1] = newfnt.loca.offsetsShort[i] + offset16(len(desc.raw))/2
+				newfnt.loca.offsetsShort[i+1] = newfnt.loca.offsetsShort[i] + offset16(len(desc.raw)/2)
 			} else {
 				newfnt.loca.offsetsLong[i+1] = newfnt.loca.offsetsLong[i] + offset32(len(desc.raw))
 			}
@@ -341,7 +341,7 @@ func (f *Font) SubsetFirst(numGlyphs int) (*Font, error) {
 		}
 		for i, desc := range newfnt.glyf.descs {
 			if isShort {
-				newfnt.loca.offsetsShort[i+1] = newfnt.loca.offsetsShort[i] + offset16(len(desc.raw))/2
+				newfnt.loca.offsetsShort[i+1] = newfnt.loca.offsetsShort[i] + offset16(len(desc.raw)/2)
 			} else {
 				newfnt.loca.offsetsLong[i+1] = newfnt.loca.offsetsLong[i] + offset32(len(desc.raw))
 			}
-- 
2.43.0


From 4ddbe03adb99e347686e40c552d9d1d30e342f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:40 +0000
Subject: [PATCH 13/45] fix: SubsetFirst limits the character maps of the
 subset, not those of its source

---
 export.go     |  9 +++++++--
 table_cmap.go | 46 ++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 53 insertions(+), 2 deletions(-)

diff --git a/export.go b/export.go
index 280e08c..3c1c0d6 100644
--- a/export.go
+++ b/export.go
@@ -398,14 +398,17 @@ func (f *Font) SubsetFirst(numGlyphs int) (*Font, error) {
 		}
 
 		for _, name := range f.cmap.subtableKeys {
-			subt := f.cmap.subtables[name]
+			// The subtable of `f` remains unchanged.
+			subt := f.cmap.subtables[name].limitTo(numGlyphs)
 			switch t := subt.ctx.(type) {
 			case cmapSubtableFormat0:
+				t.glyphIDArray = append([]uint8(nil), t.glyphIDArray...)
 				for i := range t.glyphIDArray {
-					if i > numGlyphs {
+					if int(t.glyphIDArray[i]) >= numGlyphs {
 						t.glyphIDArray[i] = 0
 					}
 				}
+				subt.ctx = t
 			case cmapSubtableFormat4:
 				newt := cmapSubtableFormat4{}
 				// Generates a new table: going from glyph index 0 up to numGlyphs.
@@ -462,11 +465,13 @@ func (f *Font) SubsetFirst(numGlyphs int) (*Font, error) {
 				newt.rangeShift = uint16(segments*2) - newt.searchRange
 				subt.ctx = newt
 			case cmapSubtableFormat6:
+				t.glyphIDArray = append([]uint16(nil), t.glyphIDArray...)
 				for i := range t.glyphIDArray {
 					if int(t.glyphIDArray[i]) >= numGlyphs {
 						t.glyphIDArray[i] = 0
 					}
 				}
+				subt.ctx = t
 			case cmapSubtableFormat12:
 				newt := cmapSubtableFormat12{}
 				groups := 0
diff --git a/table_cmap.go b/table_cmap.go
index 95be07f..8df7826 100644
--- a/table_cmap.go
+++ b/table_cmap.go
@@ -9,6 +9,7 @@ import (
 	"bytes"
 	"errors"
 	"fmt"
+	"sort"
 
 	"github.com/sirupsen/logrus"
 )
@@ -131,6 +132,51 @@ type cmapSubtable struct {
 	runeToCharcodeBytes map[rune][]byte // Quick for going rune -> encoded bytes (charcodes).
 }
 
+// limitTo returns a copy of `subt` that maps only to the first `numGlyphs` glyphs.
+// The `ctx` of the copy is that of `subt`.
+func (subt *cmapSubtable) limitTo(numGlyphs int) *cmapSubtable {
+	limited := *subt
+	limited.cmap = map[rune]GlyphIndex{}
+	limited.charcodeToGID = map[CharCode]GlyphIndex{}
+
+	charcodes := make([]CharCode, 0, len(subt.charcodeToGID))
+	for cc := range subt.charcodeToGID {
+		charcodes = append(charcodes, cc)
+	}
+	sort.Slice(charcodes, func(i, j int) bool {
+		return charcodes[i] < charcodes[j]
+	})
+
+	runeDecoder := getCmapEncoding(subt.platformID, subt.encodingID).GetRuneDecoder()
+	for _, cc := range charcodes {
+		gid := subt.charcodeToGID[cc]
+		if int(gid) >= numGlyphs {
+			if subt.format == 4 || subt.format == 12 {
+				continue
+			}
+			gid = 0 // Formats 0 and 6 have an entry for every code.
+		}
+		limited.charcodeToGID[cc] = gid
+		r := runeDecoder.DecodeRune(runeDecoder.ToBytes(uint32(cc)))
+		if _, has := limited.cmap[r]; !has {
+			// Avoid overwrite, if get same twice, use the earlier entry.
+			limited.cmap[r] = gid
+		}
+	}
+
+	if subt.format == 4 || subt.format == 12 {
+		// Indexed by glyph.
+		if len(limited.runes) > numGlyphs {
+			limited.runes = limited.runes[:numGlyphs]
+		}
+		if len(limited.charcodes) > numGlyphs {
+			limited.charcodes = limited.charcodes[:numGlyphs]
+		}
+	}
+
+	return &limited
+}
+
 // cmapSubtableFormat0 represents format 0: Byte encoding table.
 // This is the Apple standard character to glyph index mapping table.
 type cmapSubtableFormat0 struct {
-- 
2.43.0


From 8576a0011e984135b8fdba5e167472e1c5545a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:42 +0000
Subject: [PATCH 14/45] fix: terminate the cmap format 4 subtable of subset
 fonts without mappings

---
 export.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/export.go b/export.go
index 3c1c0d6..83777d2 100644
--- a/export.go
+++ b/export.go
@@ -449,7 +449,7 @@ func (f *Font) SubsetFirst(numGlyphs int) (*Font, error) {
 					i = j
 				}
 
-				if segments > 0 && newt.endCode[segments-1] < 65535 {
+				if segments == 0 || newt.endCode[segments-1] < 65535 {
 					newt.endCode = append(newt.endCode, 65535)
 					newt.startCode = append(newt.startCode, 65535)
 					newt.idDelta = append(newt.idDelta, 1)
-- 
2.43.0


From 08b33ecfa06a6311c204af460c65acb6a85c0ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:03 +0000
Subject: [PATCH 15/45] fix: subset cmap format 4 subtables that need more than
 8190 delta segments

---
 export.go     | 12 +++++++++++-
 table_cmap.go | 53 +++++++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 64 insertions(+), 1 deletion(-)

diff --git a/export.go b/export.go
index 83777d2..2e8ae60 100644
--- a/export.go
+++ b/export.go
@@ -457,7 +457,17 @@ func (f *Font) SubsetFirst(numGlyphs int) (*Font, error) {
 					segments++
 				}
 
-				newt.length = uint16(2*8 + 2*4*segments)
+				if 2*8+2*4*segments > math.MaxUint16 {
+					// Too many segments for delta segments only: keep the segments of the source.
+					var err error
+					newt, err = t.limitTo(subt.charcodeToGID)
+					if err != nil {
+						return nil, err
+					}
+					segments = len(newt.endCode)
+				}
+
+				newt.length = uint16(2*8 + 2*4*segments + 2*len(newt.glyphIDArray))
 				newt.language = t.language
 				newt.segCountX2 = uint16(segments * 2)
 				newt.searchRange = 2 * uint16(math.Pow(2, math.Floor(math.Log2(float64(segments)))))
diff --git a/table_cmap.go b/table_cmap.go
index 8df7826..9da2a03 100644
--- a/table_cmap.go
+++ b/table_cmap.go
@@ -9,6 +9,7 @@ import (
 	"bytes"
 	"errors"
 	"fmt"
+	"math"
 	"sort"
 
 	"github.com/sirupsen/logrus"
@@ -276,6 +277,58 @@ type cmapSubtableFormat4 struct {
 	glyphIDArray  []uint16 // len = variable.
 }
 
+// limitTo returns the segments of `st` limited to the mappings in `charcodeToGID`.
+func (st cmapSubtableFormat4) limitTo(charcodeToGID map[CharCode]GlyphIndex) (cmapSubtableFormat4, error) {
+	limited := cmapSubtableFormat4{}
+	var firstIndex []int // for each segment, its first index in glyphIDArray, negative if not used.
+	for i := 0; i < len(st.endCode)-1; i++ {
+		c1, c2 := int(st.startCode[i]), int(st.endCode[i])
+		// Strip what is not mapped at the ends.
+		for ; c1 <= c2 && charcodeToGID[CharCode(c1)] == 0; c1++ {
+		}
+		for ; c1 <= c2 && charcodeToGID[CharCode(c2)] == 0; c2-- {
+		}
+		if c1 > c2 {
+			continue
+		}
+
+		delta := uint16(charcodeToGID[CharCode(c1)]) - uint16(c1)
+		first := -1
+		for c := c1; c <= c2; c++ {
+			if uint16(charcodeToGID[CharCode(c)])-uint16(c) != delta {
+				delta, first = 0, len(limited.glyphIDArray)
+				break
+			}
+		}
+		if first >= 0 {
+			for c := c1; c <= c2; c++ {
+				limited.glyphIDArray = append(limited.glyphIDArray, uint16(charcodeToGID[CharCode(c)]))
+			}
+		}
+		limited.startCode = append(limited.startCode, uint16(c1))
+		limited.endCode = append(limited.endCode, uint16(c2))
+		limited.idDelta = append(limited.idDelta, delta)
+		firstIndex = append(firstIndex, first)
+	}
+	limited.startCode = append(limited.startCode, 65535)
+	limited.endCode = append(limited.endCode, 65535)
+	limited.idDelta = append(limited.idDelta, 1)
+	firstIndex = append(firstIndex, -1)
+
+	if 2*8+2*4*len(firstIndex)+2*len(limited.glyphIDArray) > math.MaxUint16 {
+		logrus.Debug("cmap format 4 subtable too long")
+		return cmapSubtableFormat4{}, errRangeCheck
+	}
+	for i, first := range firstIndex {
+		rangeOffset := 0
+		if first >= 0 {
+			rangeOffset = 2 * (len(firstIndex) - i + first)
+		}
+		limited.idRangeOffset = append(limited.idRangeOffset, uint16(rangeOffset))
+	}
+	return limited, nil
+}
+
 func (f *font) parseCmapSubtableFormat4(r *byteReader, platformID, encodingID int) (*cmapSubtable, error) {
 	//refStart := r.Offset()
 	st := cmapSubtableFormat4{}
-- 
2.43.0


From ebdf6ca6660469cb299e95fa05a6a31462f93744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:55 +0000
Subject: [PATCH 16/45] fix: accept version 1.0 post tables of fonts with 258
 glyphs

---
 table_post.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/table_post.go b/table_post.go
index 261ea65..cc99d84 100644
--- a/table_post.go
+++ b/table_post.go
@@ -84,6 +84,7 @@ func (f *font) parsePost(r *byteReader) (*postTable, error) {
 	logrus.Debugf("Version: %v %v 0x%X", t.version, t.version.Float64(), t.version)
 	switch uint32(t.version) {
 	case 0x00010000: // 1.0 - font files contains exactly the 258 standard Macintosh glyphs.
+		t.numGlyphs = f.maxp.numGlyphs
 		if t.numGlyphs != 258 {
 			logrus.Debug("Should have the mac number of glyph names")
 			// TODO(gunnsth): If this is too strict, can just set the first 258 glyphnames.
-- 
2.43.0


From d4eb8e8140f8ddf7500548102f9db0c788f0db57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:57 +0000
Subject: [PATCH 17/45] fix: write post version 1.0 for fonts with 258 glyphs
 only

---
 table_post.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/table_post.go b/table_post.go
index cc99d84..131ac89 100644
--- a/table_post.go
+++ b/table_post.go
@@ -210,7 +210,7 @@ func (f *font) writePost(w *byteWriter) error {
 
 	// TODO(gunnsth): Write out with v1.0 or v2.0.
 	version := t.version
-	if version != 0x00010000 {
+	if version != 0x00010000 || f.maxp == nil || f.maxp.numGlyphs != 258 {
 		// Include no postscript data.
 		// TODO(gunnsth): support writing v2.0.
 		version = 0x00030000
-- 
2.43.0


From a07303e89b3919b7a638994201506a171b97113a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:59 +0000
Subject: [PATCH 18/45] fix: post glyph names of 128 bytes and more, and names
 beyond the table

---
 table_post.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/table_post.go b/table_post.go
index 131ac89..0a9abd6 100644
--- a/table_post.go
+++ b/table_post.go
@@ -124,7 +124,7 @@ func (f *font) parsePost(r *byteReader) (*postTable, error) {
 				logrus.Debugf("%d > %d", r.Offset()-start, tr.length)
 				return nil, errors.New("reading outside table")
 			}
-			var numChars int8
+			var numChars uint8
 			err = r.read(&numChars)
 			if err != nil {
 				return nil, err
@@ -133,6 +133,10 @@ func (f *font) parsePost(r *byteReader) (*postTable, error) {
 				break
 			}
 
+			if r.Offset()-start+int64(numChars) > int64(tr.length) {
+				logrus.Debug("ERROR: Name extends outside post table")
+				return nil, errors.New("reading outside table")
+			}
 			name := make([]byte, numChars)
 			err = r.readBytes(&name, int(numChars))
 			if err != nil {
-- 
2.43.0


From c231b69be927b942de5da2f4be1caeb3432c18ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:01 +0000
Subject: [PATCH 19/45] fix: post version 2.0 names shared by several glyphs

---
 table_post.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/table_post.go b/table_post.go
index 0a9abd6..bf76567 100644
--- a/table_post.go
+++ b/table_post.go
@@ -112,8 +112,8 @@ func (f *font) parsePost(r *byteReader) (*postTable, error) {
 		}
 		newGlyphs := 0
 		for _, ni := range t.glyphNameIndex {
-			if ni >= 258 && ni <= 32767 {
-				newGlyphs++
+			if ni <= 32767 && int(ni)-257 > newGlyphs {
+				newGlyphs = int(ni) - 257 // Glyphs can share a name.
 			}
 		}
 		logrus.Tracef("newGlyphs: %d", newGlyphs)
-- 
2.43.0


From 33c3fcf7e5f98e37837a1e851fedec5384f9cb77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:03 +0000
Subject: [PATCH 20/45] fix: parse post version 2.5

---
 byte_reader.go | 8 ++++++++
 table_post.go  | 2 +-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/byte_reader.go b/byte_reader.go
index 48c5d43..fbb7f61 100644
--- a/byte_reader.go
+++ b/byte_reader.go
@@ -73,6 +73,14 @@ func (r *byteReader) readSlice(slice interface{}, length int) error {
 			}
 			*t = append(*t, val)
 		}
+	case *[]int8:
+		for i := 0; i < length; i++ {
+			val, err := r.readInt8()
+			if err != nil {
+				return err
+			}
+			*t = append(*t, val)
+		}
 	case *[]uint16:
 		for i := 0; i < length; i++ {
 			val, err := r.readUint16()
diff --git a/table_post.go b/table_post.go
index bf76567..98f1167 100644
--- a/table_post.go
+++ b/table_post.go
@@ -188,7 +188,7 @@ func (f *font) parsePost(r *byteReader) (*postTable, error) {
 		}
 		t.glyphNames = make([]GlyphName, int(t.numGlyphs))
 		for i := 0; i < int(t.numGlyphs); i++ {
-			nameIndex := i + 1 + int(t.offsets[i])
+			nameIndex := i + int(t.offsets[i])
 			if nameIndex < 0 || nameIndex > 257 {
 				logrus.Debugf("ERROR: name index outside range (%d)", nameIndex)
 				continue
-- 
2.43.0


From 9d8e97badfaa66ac660b2d561cc1514e1d7bbf80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:21 +0000
Subject: [PATCH 21/45] fix: reject glyph data with negative length or outside
 the glyf table

---
 table_glyf.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/table_glyf.go b/table_glyf.go
index 196d396..b7c8f83 100644
--- a/table_glyf.go
+++ b/table_glyf.go
@@ -59,9 +59,9 @@ func (f *font) parseGlyf(r *byteReader) (*glyfTable, error) {
 			return nil, err
 		}
 
-		if gdOffset > int64(tr.length) {
+		if gdLen < 0 || gdOffset+gdLen > int64(tr.length) {
 			logrus.Debugf("gid: %d, gdOffset: %d, tr len: %d, gd len: %d", gid, gdOffset, tr.length, gdLen)
-			logrus.Debugf("Range check error (glyf): %d > %d", gdOffset, tr.length)
+			logrus.Debugf("Range check error (glyf): %d+%d > %d", gdOffset, gdLen, tr.length)
 			return nil, errRangeCheck
 		}
 
@@ -72,7 +72,6 @@ func (f *font) parseGlyf(r *byteReader) (*glyfTable, error) {
 		}
 
 		var desc glyphDescription
-		desc.raw = make([]byte, gdLen)
 		err = r.readBytes(&desc.raw, int(gdLen))
 		if err != nil {
 			logrus.Debugf("ERROR: %v", err)
-- 
2.43.0


From 4044a3b504f03287ba0fb3d91628b7a6dfa7f9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:57 +0000
Subject: [PATCH 22/45] fix: do not allocate memory for data a font announces
 but lacks

---
 byte_reader.go | 13 +++++++++++++
 validate.go    |  4 ++--
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/byte_reader.go b/byte_reader.go
index fbb7f61..87bf8c4 100644
--- a/byte_reader.go
+++ b/byte_reader.go
@@ -7,6 +7,7 @@ package unitype
 
 import (
 	"bufio"
+	"bytes"
 	"encoding/binary"
 	"io"
 
@@ -53,6 +54,18 @@ func (r *byteReader) Skip(n int) error {
 
 // readBytes reads bytes straight from `r`.
 func (r *byteReader) readBytes(bp *[]byte, length int) error {
+	// Long lengths can be invalid: make room for the data as it comes.
+	const maxAlloc = 1 << 16
+	if length > maxAlloc {
+		var buf bytes.Buffer
+		n, err := io.CopyN(&buf, r.reader, int64(length))
+		if err == io.EOF && n > 0 {
+			err = io.ErrUnexpectedEOF
+		}
+		*bp = buf.Bytes()
+		return err
+	}
+
 	*bp = make([]byte, length)
 	_, err := io.ReadFull(r.reader, *bp)
 	if err != nil {
diff --git a/validate.go b/validate.go
index 7b7260e..61aa368 100644
--- a/validate.go
+++ b/validate.go
@@ -88,8 +88,8 @@ func (f *font) validate(r *byteReader) error {
 		}
 		logrus.Debugf("Offset: %d", r.Offset())
 
-		b := make([]byte, tr.length)
-		_, err = io.ReadFull(r.reader, b)
+		var b []byte
+		err = r.readBytes(&b, int(tr.length))
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 8e359c419d91344e49e43dd83fbe879d5a264bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:58 +0000
Subject: [PATCH 23/45] fix: report malformed composite glyphs every time, not
 only the first

---
 table_glyf.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/table_glyf.go b/table_glyf.go
index b7c8f83..f5b252b 100644
--- a/table_glyf.go
+++ b/table_glyf.go
@@ -119,7 +119,11 @@ func (gd *glyphDescription) parse() error {
 		return nil
 	}
 
-	return gd.parseComposite(r)
+	err = gd.parseComposite(r)
+	if err != nil {
+		gd.header = nil // Not loaded.
+	}
+	return err
 }
 
 func (gd *glyphDescription) parseHeader(r *byteReader) error {
-- 
2.43.0


From 1f5a0ae54c8f2c2fd37ed53459be31ec3250f1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:00 +0000
Subject: [PATCH 24/45] fix: GetNameRecords of fonts without name table

---
 table_name.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/table_name.go b/table_name.go
index dfa7be2..09787b5 100644
--- a/table_name.go
+++ b/table_name.go
@@ -69,6 +69,10 @@ func (f *font) GetNameByID(nameID int) string {
 // that contais name ID and it's value.
 func (f *font) GetNameRecords() map[uint16]map[uint16]string {
 	var nameRecords = make(map[uint16]map[uint16]string, 0)
+	if f == nil || f.name == nil {
+		logrus.Debug("ERROR: Font or name not set")
+		return nameRecords
+	}
 	for _, nr := range f.name.nameRecords {
 		nameRec, ok := nameRecords[nr.languageID]
 		if ok {
-- 
2.43.0


From 648345291a2e209b338cc31912e090661990341d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:02 +0000
Subject: [PATCH 25/45] fix: Optimize of fonts without hmtx table

---
 table_hmtx.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/table_hmtx.go b/table_hmtx.go
index 3789369..a53d4d7 100644
--- a/table_hmtx.go
+++ b/table_hmtx.go
@@ -60,6 +60,9 @@ func (f *font) parseHmtx(r *byteReader) (*hmtxTable, error) {
 
 // optimizeHmtx optimizes the htmx table.
 func (f *font) optimizeHmtx() {
+	if f.hmtx == nil || f.hhea == nil {
+		return
+	}
 	i := len(f.hmtx.hMetrics) - 1
 	if i <= 0 {
 		return
-- 
2.43.0


From 2d20f1d275164d5dcc57c3b588ef8071ee25f983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:04 +0000
Subject: [PATCH 26/45] fix: SubsetFirst rejects negative numbers of glyphs

---
 export.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/export.go b/export.go
index 2e8ae60..215320b 100644
--- a/export.go
+++ b/export.go
@@ -279,6 +279,9 @@ func (f *Font) SubsetKeepIndices(indices []GlyphIndex) (*Font, error) {
 // Prunes out the glyphs from the previous font beyond that number.
 // NOTE: If any of the first numGlyphs depend on later glyphs, it can lead to incorrect rendering.
 func (f *Font) SubsetFirst(numGlyphs int) (*Font, error) {
+	if numGlyphs < 0 {
+		return nil, errRangeCheck
+	}
 	if int(f.maxp.numGlyphs) <= numGlyphs {
 		logrus.Debugf("Attempting to subset font with same number of glyphs - Ignoring, returning same back")
 		return f, nil
-- 
2.43.0


From c449bec04bd495a1fdfbdd69161de0f59612f4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:06 +0000
Subject: [PATCH 27/45] fix: subset fonts without glyf table

---
 export.go     | 16 ++++++++++++++++
 table_glyf.go |  4 ++++
 2 files changed, 20 insertions(+)

diff --git a/export.go b/export.go
index 215320b..04c547b 100644
--- a/export.go
+++ b/export.go
@@ -223,6 +223,11 @@ func (f *Font) SubsetKeepIndices(indices []GlyphIndex) (*Font, error) {
 		}
 	}
 
+	if f.font.glyf == nil && f.font.loca != nil {
+		newfnt.loca = &locaTable{}
+		*newfnt.loca = *f.font.loca
+	}
+
 	if f.font.prep != nil {
 		newfnt.prep = &prepTable{}
 		*newfnt.prep = *f.font.prep
@@ -351,6 +356,17 @@ func (f *Font) SubsetFirst(numGlyphs int) (*Font, error) {
 		}
 	}
 
+	if f.font.glyf == nil && f.font.loca != nil {
+		newfnt.loca = &locaTable{}
+		*newfnt.loca = *f.font.loca
+		if len(newfnt.loca.offsetsShort) > numGlyphs+1 {
+			newfnt.loca.offsetsShort = newfnt.loca.offsetsShort[0 : numGlyphs+1]
+		}
+		if len(newfnt.loca.offsetsLong) > numGlyphs+1 {
+			newfnt.loca.offsetsLong = newfnt.loca.offsetsLong[0 : numGlyphs+1]
+		}
+	}
+
 	if f.font.prep != nil {
 		newfnt.prep = &prepTable{}
 		*newfnt.prep = *f.font.prep
diff --git a/table_glyf.go b/table_glyf.go
index f5b252b..e8fab20 100644
--- a/table_glyf.go
+++ b/table_glyf.go
@@ -248,6 +248,10 @@ func (f compositeGlyphFlag) IsSet(flag compositeGlyphFlag) bool {
 
 // Returns list of glyphs that `gid` depends on (other than itself).
 func (glyf *glyfTable) GetComponents(gid GlyphIndex) ([]GlyphIndex, error) {
+	if glyf == nil {
+		logrus.Debug("glyf missing")
+		return nil, nil
+	}
 	if int(gid) >= len(glyf.descs) {
 		logrus.Debugf("GID not accessible (%d > %d)", gid, len(glyf.descs))
 		return nil, nil
-- 
2.43.0


From 8e4e2cc6fea07f0172dae16b5a456c5898e96089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:33 +0000
Subject: [PATCH 28/45] fix: UTF16ToRunes does not write to the memory of its
 caller

---
 internal/strutils/encoding.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/strutils/encoding.go b/internal/strutils/encoding.go
index ec350af..0f74cbd 100644
--- a/internal/strutils/encoding.go
+++ b/internal/strutils/encoding.go
@@ -28,7 +28,7 @@ func UTF16ToRunes(b []byte) []rune {
 		return []rune{rune(b[0])}
 	}
 	if len(b)%2 != 0 {
-		b = append(b, 0)
+		b = append(b[:len(b):len(b)], 0) // Copies: the memory after b is not ours.
 		logrus.Debug("ERROR: UTF16ToRunes. Padding with zeros.")
 	}
 	n := len(b) >> 1
-- 
2.43.0


From 8dc09992e0a0faf25bc52e1b4e99030b4bc16e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:34 +0000
Subject: [PATCH 29/45] fix: PDFDocEncoding code 0x16

---
 internal/strutils/pdfdocenc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/strutils/pdfdocenc.go b/internal/strutils/pdfdocenc.go
index 7b51bbf..6c0c61c 100644
--- a/internal/strutils/pdfdocenc.go
+++ b/internal/strutils/pdfdocenc.go
@@ -30,7 +30,7 @@ var pdfDocEncoding = map[byte]rune{
 	0x13: '\u0013', //     "controlDC3"
 	0x14: '\u0014', //     "controlDC4"
 	0x15: '\u0015', //     "controlNAK"
-	0x16: '\u0017', //     "controlETB"
+	0x16: '\u0016', //     "controlSYN"
 	0x17: '\u0017', //     "controlETB"
 	0x18: '\u02d8', //  ˘  "breve"
 	0x19: '\u02c7', //  ˇ  "caron"
-- 
2.43.0


From 885cef00c1d4d30c8f2ae0b2f9f7c2ba5eb1036c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:36 +0000
Subject: [PATCH 30/45] fix: decode Unicode platform names as UTF-16BE

---
 table_name.go | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/table_name.go b/table_name.go
index 09787b5..5e042be 100644
--- a/table_name.go
+++ b/table_name.go
@@ -9,7 +9,6 @@ import (
 	"bytes"
 	"strconv"
 	"unicode"
-	"unicode/utf8"
 
 	"github.com/sirupsen/logrus"
 
@@ -114,18 +113,11 @@ func makePrintable(str string) string {
 func (nr nameRecord) Decoded() string {
 	switch nr.platformID {
 	case 0: // unicode
-		// TODO(gunnsth): Untested as have not encountered this yet.
-		dup := make([]byte, len(nr.data))
-		copy(dup, nr.data)
-		var decoded bytes.Buffer
-
-		for len(dup) > 0 {
-			r, size := utf8.DecodeRune(dup)
-			dup = dup[size:]
-			decoded.WriteRune(r)
+		// Strings for the Unicode platform are encoded in UTF-16BE.
+		if len(nr.data) > 0 {
+			decoded := strutils.UTF16ToString(nr.data)
+			return makePrintable(decoded)
 		}
-
-		return makePrintable(decoded.String())
 	case 1: // macintosh
 		var decoded bytes.Buffer
 		for _, val := range nr.data {
-- 
2.43.0


From 1f3bb1305d63a16c337e656bad6fe9a1bc68a57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:38 +0000
Subject: [PATCH 31/45] fix: decode Windows full repertoire names as UTF-16BE

---
 table_name.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/table_name.go b/table_name.go
index 5e042be..6200414 100644
--- a/table_name.go
+++ b/table_name.go
@@ -139,7 +139,7 @@ func (nr nameRecord) Decoded() string {
 		// and the referenced string data must be encoded in UTF-16BE. When building a symbol font for Windows,
 		// the platform ID should be 3 and the encoding ID should be 0, and the referenced string data must be
 		// encoded in UTF-16BE. (https://docs.microsoft.com/en-us/typography/opentype/spec/name).
-		if nr.encodingID == 0 || nr.encodingID == 1 {
+		if nr.encodingID == 0 || nr.encodingID == 1 || nr.encodingID == 10 {
 			if len(nr.data) > 0 {
 				decoded := strutils.UTF16ToString(nr.data)
 				return makePrintable(decoded)
-- 
2.43.0


From 24005d969649525c178665f2a7550210127b6c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:54 +0000
Subject: [PATCH 32/45] fix: Write does not change the font

---
 font.go       | 11 +++++++----
 table_name.go | 11 ++++++++++-
 table_post.go |  3 +--
 3 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/font.go b/font.go
index 033c91c..7a4fcbd 100644
--- a/font.go
+++ b/font.go
@@ -218,8 +218,6 @@ func (f *font) write(w *byteWriter) error {
 	otTable.setSearchFields()
 	trec := &tableRecords{}
 
-	f.ot.numTables = uint16(numTables)
-
 	// Starting offset after offset table and table records.
 	startOffset := int64(12 + numTables*16)
 
@@ -239,9 +237,14 @@ func (f *font) write(w *byteWriter) error {
 		bufw := newByteWriter(&buf)
 
 		// head.
-		f.head.checksumAdjustment = 0
+		mockf := &font{}
+		if f.head != nil {
+			head := *f.head
+			head.checksumAdjustment = 0
+			mockf.head = &head
+		}
 		offset := startOffset
-		err := f.writeHead(bufw)
+		err := mockf.writeHead(bufw)
 		if err != nil {
 			return err
 		}
diff --git a/table_name.go b/table_name.go
index 6200414..2814750 100644
--- a/table_name.go
+++ b/table_name.go
@@ -252,7 +252,16 @@ func (f *font) writeNameTable(w *byteWriter) error {
 		logrus.Debug("name is nil")
 		return nil
 	}
-	t := f.name
+	// Work on copies, with calculated offsets and counts: writing does not change the font.
+	t := &nameTable{format: f.name.format}
+	for _, nr := range f.name.nameRecords {
+		dup := *nr
+		t.nameRecords = append(t.nameRecords, &dup)
+	}
+	for _, ltr := range f.name.langTagRecords {
+		dup := *ltr
+		t.langTagRecords = append(t.langTagRecords, &dup)
+	}
 
 	// Preprocess: Write to buffer and update offsets.
 	var buf bytes.Buffer
diff --git a/table_post.go b/table_post.go
index 98f1167..0664744 100644
--- a/table_post.go
+++ b/table_post.go
@@ -218,10 +218,9 @@ func (f *font) writePost(w *byteWriter) error {
 		// Include no postscript data.
 		// TODO(gunnsth): support writing v2.0.
 		version = 0x00030000
-		t.version = version
 	}
 
-	err := w.write(t.version, t.italicAngle, t.underlinePosition, t.underlineThickness, t.isFixedPitch)
+	err := w.write(version, t.italicAngle, t.underlinePosition, t.underlineThickness, t.isFixedPitch)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 02515307a2db9cf85326d6e3d4041c77bc6faf38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:18 +0000
Subject: [PATCH 33/45] fix: write name tables whose strings only fit when
 sharing bytes

---
 table_name.go | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/table_name.go b/table_name.go
index 2814750..dc7404a 100644
--- a/table_name.go
+++ b/table_name.go
@@ -7,6 +7,7 @@ package unitype
 
 import (
 	"bytes"
+	"math"
 	"strconv"
 	"unicode"
 
@@ -247,6 +248,31 @@ func (f *font) parseNameTable(r *byteReader) (*nameTable, error) {
 	return t, nil
 }
 
+// sharedStorage returns the string storage with the layout it was parsed with, where strings can share bytes,
+// if it is needed because there is no room for storing the strings separately.
+func (t *nameTable) sharedStorage() (storage []byte, needed bool) {
+	var total int
+	add := func(offset offset16, data []byte) {
+		if total > math.MaxUint16 {
+			needed = true // Offset too high.
+		}
+		total += len(data)
+
+		end := int(offset) + len(data)
+		if end > len(storage) {
+			storage = append(storage, make([]byte, end-len(storage))...)
+		}
+		copy(storage[offset:], data)
+	}
+	for _, nr := range t.nameRecords {
+		add(nr.offset, nr.data)
+	}
+	for _, ltr := range t.langTagRecords {
+		add(ltr.offset, ltr.data)
+	}
+	return storage, needed
+}
+
 func (f *font) writeNameTable(w *byteWriter) error {
 	if f.name == nil {
 		logrus.Debug("name is nil")
@@ -265,7 +291,9 @@ func (f *font) writeNameTable(w *byteWriter) error {
 
 	// Preprocess: Write to buffer and update offsets.
 	var buf bytes.Buffer
-	{
+	if storage, needed := t.sharedStorage(); needed {
+		buf.Write(storage)
+	} else {
 		bufw := newByteWriter(&buf)
 		for _, nr := range t.nameRecords {
 			nr.offset = offset16(bufw.bufferedLen())
-- 
2.43.0


From 71f6992b83cfde3f51f3c64a262ced497a7cbe11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:28 +0000
Subject: [PATCH 34/45] fix: report short writes

---
 byte_writer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/byte_writer.go b/byte_writer.go
index dc18ca0..081d2e3 100644
--- a/byte_writer.go
+++ b/byte_writer.go
@@ -36,6 +36,9 @@ func (w *byteWriter) flush() error {
 		return err
 	}
 	w.flushedLen += int64(n)
+	if n != len(b) {
+		return io.ErrShortWrite
+	}
 
 	w.buffer.Reset()
 	return nil
-- 
2.43.0


From e8390f0f1715d2228dce649a3169f2314b5da518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:40 +0000
Subject: [PATCH 35/45] fix: truecli subset gids rejects ids that are not
 16-bit numbers

---
 truecli/cmd/subset_gids.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/truecli/cmd/subset_gids.go b/truecli/cmd/subset_gids.go
index c983ff4..a9f3d1b 100644
--- a/truecli/cmd/subset_gids.go
+++ b/truecli/cmd/subset_gids.go
@@ -48,7 +48,7 @@ var subsetGIDsCmd = &cobra.Command{
 	Run: func(cmd *cobra.Command, args []string) {
 		var gids []unitype.GlyphIndex
 		for i := 1; i < len(args); i++ {
-			gid, err := strconv.ParseUint(args[i], 10, 32)
+			gid, err := strconv.ParseUint(args[i], 10, 16)
 			if err != nil {
 				fatalf("Invalid gid: %v\n", err)
 			}
-- 
2.43.0


From ac871dff66dbe5d511d8c7c926afd0d86253a8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:42 +0000
Subject: [PATCH 36/45] fix: truecli exits non-zero when writing the font fails

---
 truecli/cmd/readwrite.go     | 3 +--
 truecli/cmd/subset_gids.go   | 3 +--
 truecli/cmd/subset_runes.go  | 3 +--
 truecli/cmd/subset_simple.go | 3 +--
 4 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/truecli/cmd/readwrite.go b/truecli/cmd/readwrite.go
index c942078..d307a6d 100644
--- a/truecli/cmd/readwrite.go
+++ b/truecli/cmd/readwrite.go
@@ -54,8 +54,7 @@ var readwriteCmd = &cobra.Command{
 		var buf bytes.Buffer
 		err = tfnt.Write(&buf)
 		if err != nil {
-			fmt.Printf("Error writing: %+v\n", err)
-			return
+			fatalf("Error writing: %+v\n", err)
 		}
 
 		err = unitype.ValidateBytes(buf.Bytes())
diff --git a/truecli/cmd/subset_gids.go b/truecli/cmd/subset_gids.go
index a9f3d1b..2a9dc43 100644
--- a/truecli/cmd/subset_gids.go
+++ b/truecli/cmd/subset_gids.go
@@ -66,8 +66,7 @@ var subsetGIDsCmd = &cobra.Command{
 		var buf bytes.Buffer
 		err = tfnt.Write(&buf)
 		if err != nil {
-			fmt.Printf("Error writing: %+v\n", err)
-			return
+			fatalf("Error writing: %+v\n", err)
 		}
 
 		err = unitype.ValidateBytes(buf.Bytes())
diff --git a/truecli/cmd/subset_runes.go b/truecli/cmd/subset_runes.go
index 350209f..c545c4d 100644
--- a/truecli/cmd/subset_runes.go
+++ b/truecli/cmd/subset_runes.go
@@ -59,8 +59,7 @@ var subsetRunesCmd = &cobra.Command{
 		var buf bytes.Buffer
 		err = tfnt.Write(&buf)
 		if err != nil {
-			fmt.Printf("Error writing: %+v\n", err)
-			return
+			fatalf("Error writing: %+v\n", err)
 		}
 		origSize := buf.Len()
 
diff --git a/truecli/cmd/subset_simple.go b/truecli/cmd/subset_simple.go
index 6349a81..c4134bf 100644
--- a/truecli/cmd/subset_simple.go
+++ b/truecli/cmd/subset_simple.go
@@ -54,8 +54,7 @@ var subsetSimpleCmd = &cobra.Command{
 		var buf bytes.Buffer
 		err = tfnt.Write(&buf)
 		if err != nil {
-			fmt.Printf("Error writing: %+v\n", err)
-			return
+			fatalf("Error writing: %+v\n", err)
 		}
 
 		err = unitype.ValidateBytes(buf.Bytes())
-- 
2.43.0


From 79801181e4abc19333852fff08156202f3bae46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:03 +0000
Subject: [PATCH 37/45] fix: look up characters mapped to glyph 0 in the next
 cmap subtable

---
 export.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/export.go b/export.go
index 04c547b..9c86593 100644
--- a/export.go
+++ b/export.go
@@ -111,7 +111,7 @@ func (f *Font) LookupRunes(runes []rune) []GlyphIndex {
 		index := GlyphIndex(0)
 		for _, cmap := range maps {
 			ind, has := cmap[r]
-			if has {
+			if has && ind != 0 { // Glyph 0 (notdef) means not mapped.
 				index = ind
 				break
 			}
-- 
2.43.0


From 56ae5d84900b0299ab6d61ec0f60591beee47c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:59 +0000
Subject: [PATCH 38/45] fix: info --cmappings showed one character of several
 that map to the same glyph

---
 truecli/cmd/info.go | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/truecli/cmd/info.go b/truecli/cmd/info.go
index 4992ba4..d9554f2 100644
--- a/truecli/cmd/info.go
+++ b/truecli/cmd/info.go
@@ -94,22 +94,22 @@ var infoCmd = &cobra.Command{
 			mapNames = append(mapNames, "3,1")
 
 			for i := range maps {
-				var gids []unitype.GlyphIndex
-				gidMap := map[unitype.GlyphIndex]rune{}
+				type mapping struct {
+					gid  unitype.GlyphIndex
+					rune rune
+				}
+				var mappings []mapping
 				for rune, gid := range maps[i] {
-					gidMap[gid] = rune
-					gids = append(gids, gid)
+					mappings = append(mappings, mapping{gid, rune})
 				}
-				sort.Slice(gids, func(i, j int) bool {
-					return gids[i] < gids[j]
+				sort.Slice(mappings, func(i, j int) bool {
+					if mappings[i].gid != mappings[j].gid {
+						return mappings[i].gid < mappings[j].gid
+					}
+					return mappings[i].rune < mappings[j].rune
 				})
-				cnt := 0
-				for _, gid := range gids {
-					//if cnt > 100 {
-					//	break
-					//	}
-					fmt.Printf("%d/%s: %d - %c\n", i, mapNames[i], gid, gidMap[gid])
-					cnt++
+				for _, m := range mappings {
+					fmt.Printf("%d/%s: %d - %c\n", i, mapNames[i], m.gid, m.rune)
 				}
 			}
 		}
-- 
2.43.0


From 3fbbaefe399431ebe7040ec58d240835b3637b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:15 +0000
Subject: [PATCH 39/45] fix: truecli --loglevel trace gives debug information,
 as its help says

---
 truecli/cmd/root.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/truecli/cmd/root.go b/truecli/cmd/root.go
index ed36b97..bd08c83 100644
--- a/truecli/cmd/root.go
+++ b/truecli/cmd/root.go
@@ -20,13 +20,16 @@ var rootCmd = &cobra.Command{
 	PersistentPreRun: func(cmd *cobra.Command, args []string) {
 		ll, _ := cmd.Flags().GetString("loglevel")
 		switch ll {
-		case "debug":
+		case "debug", "trace":
 			logrus.SetFormatter(&logrus.TextFormatter{
 				ForceColors:            true,
 				FullTimestamp:          true,
 				DisableLevelTruncation: true,
 			})
 			logrus.SetLevel(logrus.DebugLevel)
+			if ll == "trace" {
+				logrus.SetLevel(logrus.TraceLevel)
+			}
 			logrus.SetOutput(os.Stdout)
 		}
 	},
-- 
2.43.0


From c2ff4eb71247344c9ffdfbe71d23ad0946906067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:08 +0000
Subject: [PATCH 40/45] fix: WriteFile reports an error of closing the file

---
 export.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/export.go b/export.go
index 9c86593..edf00d7 100644
--- a/export.go
+++ b/export.go
@@ -603,12 +603,17 @@ func (f *Font) Write(w io.Writer) error {
 }
 
 // WriteFile writes the font to `outPath`.
-func (f *Font) WriteFile(outPath string) error {
+func (f *Font) WriteFile(outPath string) (err error) {
 	of, err := os.Create(outPath)
 	if err != nil {
 		return err
 	}
-	defer of.Close()
+	defer func() {
+		// Closing can report that the data did not arrive.
+		if cerr := of.Close(); err == nil {
+			err = cerr
+		}
+	}()
 
 	return f.Write(of)
 }
-- 
2.43.0


From 2f43c4c8637133fe354fcb16130e13b87c9e393c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:35 +0000
Subject: [PATCH 41/45] fix: cmap format 12 groups starting beyond glyph 65535
 are not mapped to other glyphs

---
 table_cmap.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/table_cmap.go b/table_cmap.go
index 9da2a03..a2594f1 100644
--- a/table_cmap.go
+++ b/table_cmap.go
@@ -597,8 +597,8 @@ func (f *font) parseCmapSubtableFormat12(r *byteReader, platformID, encodingID i
 	charcodeMap := make(map[CharCode]GlyphIndex, f.maxp.numGlyphs)
 	for _, group := range st.groups {
 		gid := GlyphIndex(group.startGlyphID)
-		if int(gid) >= int(f.maxp.numGlyphs) {
-			logrus.Debugf("gid >= numGlyphs (%d > %d)", gid, f.maxp.numGlyphs)
+		if group.startGlyphID >= uint32(f.maxp.numGlyphs) {
+			logrus.Debugf("gid >= numGlyphs (%d > %d)", group.startGlyphID, f.maxp.numGlyphs)
 			logrus.Debugf("Error: %v", errRangeCheck)
 			return nil, errRangeCheck
 		}
-- 
2.43.0


From 458f4c9edcb13457cf1ab4bcd48cece198d69923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:41 +0000
Subject: [PATCH 42/45] fix: table lengths and group counts of 2 GiB and more
 are refused on 32-bit systems too

---
 byte_reader.go | 8 ++++++++
 table_cmap.go  | 2 +-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/byte_reader.go b/byte_reader.go
index 87bf8c4..80f472e 100644
--- a/byte_reader.go
+++ b/byte_reader.go
@@ -54,6 +54,10 @@ func (r *byteReader) Skip(n int) error {
 
 // readBytes reads bytes straight from `r`.
 func (r *byteReader) readBytes(bp *[]byte, length int) error {
+	if length < 0 { // Longer than an int can tell on 32-bit systems.
+		return errRangeCheck
+	}
+
 	// Long lengths can be invalid: make room for the data as it comes.
 	const maxAlloc = 1 << 16
 	if length > maxAlloc {
@@ -77,6 +81,10 @@ func (r *byteReader) readBytes(bp *[]byte, length int) error {
 
 // readSlice reads a series of values into `slice` from `r` (big endian).
 func (r *byteReader) readSlice(slice interface{}, length int) error {
+	if length < 0 { // Longer than an int can tell on 32-bit systems.
+		return errRangeCheck
+	}
+
 	switch t := slice.(type) {
 	case *[]uint8:
 		for i := 0; i < length; i++ {
diff --git a/table_cmap.go b/table_cmap.go
index a2594f1..f63ba45 100644
--- a/table_cmap.go
+++ b/table_cmap.go
@@ -578,7 +578,7 @@ func (f *font) parseCmapSubtableFormat12(r *byteReader, platformID, encodingID i
 		return nil, err
 	}
 
-	for i := 0; i < int(st.numGroups); i++ {
+	for i := uint32(0); i < st.numGroups; i++ {
 		var group sequentialMapGroup
 		err = r.read(&group.startCharCode, &group.endCharCode, &group.startGlyphID)
 		if err != nil {
-- 
2.43.0


From f7048af1934bcd8464827396afa3df8fa198b053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:11 +0000
Subject: [PATCH 43/45] fix: name tables with a record length of 2 GiB and more
 read alike on 32-bit systems

---
 table_name.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/table_name.go b/table_name.go
index dc7404a..0a98bfd 100644
--- a/table_name.go
+++ b/table_name.go
@@ -203,8 +203,8 @@ func (f *font) parseNameTable(r *byteReader) (*nameTable, error) {
 
 	// Get the actual string data.
 	for _, nr := range t.nameRecords {
-		if int(t.stringOffset)+int(nr.offset)+int(nr.length) > int(tr.length) {
-			logrus.Debugf("%v> %v", int(t.stringOffset)+int(nr.offset)+int(nr.length), int(tr.length))
+		if int64(t.stringOffset)+int64(nr.offset)+int64(nr.length) > int64(tr.length) {
+			logrus.Debugf("%v> %v", int64(t.stringOffset)+int64(nr.offset)+int64(nr.length), tr.length)
 			logrus.Debug("name string offset outside table")
 			return nil, errRangeCheck
 		}
@@ -223,7 +223,7 @@ func (f *font) parseNameTable(r *byteReader) (*nameTable, error) {
 	}
 
 	for _, ltr := range t.langTagRecords {
-		if int(t.stringOffset)+int(ltr.offset)+int(ltr.length) > int(tr.length) {
+		if int64(t.stringOffset)+int64(ltr.offset)+int64(ltr.length) > int64(tr.length) {
 			logrus.Debug("lang tag string offset outside table")
 			return nil, errRangeCheck
 		}
-- 
2.43.0


From 1ebd17b85228f4e6b8f3075d84e5311aee69dc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:52 +0000
Subject: [PATCH 44/45] fix: OS/2 tables that are shorter in version 0, or
 longer in versions after 5, are kept as they are

The table of early fonts ends before sTypoAscender: the fields after it were read from
the bytes of the next table and written as part of OS/2. Later versions lost their fields.
---
 table_os2.go | 40 ++++++++++++++++++++++++++++++++++------
 1 file changed, 34 insertions(+), 6 deletions(-)

diff --git a/table_os2.go b/table_os2.go
index b938e17..c0368b1 100644
--- a/table_os2.go
+++ b/table_os2.go
@@ -57,10 +57,21 @@ type os2Table struct {
 	// Version 5
 	usLowerOpticalPointSize uint16
 	usUpperOpticalPointSize uint16
+
+	// Version 0 of early fonts ends before sTypoAscender.
+	early bool
+	// Fields of versions after 5.
+	rest []byte
 }
 
+// Size of version 0, and of the part of version 5 that later versions start with.
+const (
+	os2SizeVersion0 = 78
+	os2SizeVersion5 = 100
+)
+
 func (f *font) parseOS2Table(r *byteReader) (*os2Table, error) {
-	_, has, err := f.seekToTable(r, "OS/2")
+	tr, has, err := f.seekToTable(r, "OS/2")
 	if err != nil {
 		return nil, err
 	}
@@ -104,11 +115,15 @@ func (f *font) parseOS2Table(r *byteReader) (*os2Table, error) {
 	if err != nil {
 		return nil, err
 	}
-	err = r.read(&t.achVendID, &t.fsSelection, &t.usFirstCharIndex, &t.usLastCharIndex, &t.sTypoAscender)
+	err = r.read(&t.achVendID, &t.fsSelection, &t.usFirstCharIndex, &t.usLastCharIndex)
 	if err != nil {
 		return nil, err
 	}
-	err = r.read(&t.sTypoDescender, &t.sTypoLineGap, &t.usWinAscent, &t.usWinDescent)
+	if t.version == 0 && tr.length < os2SizeVersion0 {
+		t.early = true
+		return t, nil
+	}
+	err = r.read(&t.sTypoAscender, &t.sTypoDescender, &t.sTypoLineGap, &t.usWinAscent, &t.usWinDescent)
 	if err != nil {
 		return nil, err
 	}
@@ -140,6 +155,12 @@ func (f *font) parseOS2Table(r *byteReader) (*os2Table, error) {
 	if err != nil {
 		return nil, err
 	}
+	if t.version > 5 && tr.length > os2SizeVersion5 {
+		err = r.readBytes(&t.rest, int(tr.length-os2SizeVersion5))
+		if err != nil {
+			return nil, err
+		}
+	}
 
 	return t, nil
 }
@@ -179,11 +200,14 @@ func (f *font) writeOS2(w *byteWriter) error {
 	if err != nil {
 		return err
 	}
-	err = w.write(t.achVendID, t.fsSelection, t.usFirstCharIndex, t.usLastCharIndex, t.sTypoAscender)
+	err = w.write(t.achVendID, t.fsSelection, t.usFirstCharIndex, t.usLastCharIndex)
 	if err != nil {
 		return err
 	}
-	err = w.write(t.sTypoDescender, t.sTypoLineGap, t.usWinAscent, t.usWinDescent)
+	if t.early {
+		return nil
+	}
+	err = w.write(t.sTypoAscender, t.sTypoDescender, t.sTypoLineGap, t.usWinAscent, t.usWinDescent)
 	if err != nil {
 		return err
 	}
@@ -211,5 +235,9 @@ func (f *font) writeOS2(w *byteWriter) error {
 	}
 
 	// version >= 5.
-	return w.write(t.usLowerOpticalPointSize, t.usUpperOpticalPointSize)
+	err = w.write(t.usLowerOpticalPointSize, t.usUpperOpticalPointSize)
+	if err != nil {
+		return err
+	}
+	return w.writeBytes(t.rest)
 }
-- 
2.43.0


From bb3fbd10b75d6535ee0f495e6647f2f0710b80e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:51 +0000
Subject: [PATCH 45/45] fix: write name tables with more records than the
 storage offset can skip

---
 table_name.go | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/table_name.go b/table_name.go
index 0a98bfd..9e247b4 100644
--- a/table_name.go
+++ b/table_name.go
@@ -291,7 +291,19 @@ func (f *font) writeNameTable(w *byteWriter) error {
 
 	// Preprocess: Write to buffer and update offsets.
 	var buf bytes.Buffer
-	if storage, needed := t.sharedStorage(); needed {
+	// 2+2+2+count*(6*2) + (format=1) 2+langTagCount*2*2
+	recordsLen := 6 + 12*len(t.nameRecords)
+	if t.format == 1 {
+		recordsLen += 2 + 4*len(t.langTagRecords)
+	}
+	storage, needed := t.sharedStorage()
+	if recordsLen > math.MaxUint16 {
+		// The storage starts beyond what stringOffset can hold: keep the offsets, which are relative to it.
+		t.stringOffset = f.name.stringOffset
+		if start := recordsLen - int(t.stringOffset); start < len(storage) {
+			buf.Write(storage[start:]) // What is before that lies in the records.
+		}
+	} else if t.stringOffset = offset16(recordsLen); needed {
 		buf.Write(storage)
 	} else {
 		bufw := newByteWriter(&buf)
@@ -318,16 +330,10 @@ func (f *font) writeNameTable(w *byteWriter) error {
 	}
 	logrus.Debugf("Buffer length: %d", buf.Len())
 
-	// Update count and stringOffsets (calculated).
+	// Update counts (calculated).
 	t.count = uint16(len(t.nameRecords))
 	t.langTagCount = uint16(len(t.langTagRecords))
 
-	// 2+2+2+count*(6*2) + (format=1) 2+langTagCount*2
-	t.stringOffset = 6 + offset16(t.count)*12
-	if t.format == 1 {
-		t.stringOffset += 2 + offset16(t.langTagCount)*4
-	}
-
 	logrus.Debugf("w @ %d", w.bufferedLen())
 	err := w.write(t.format, t.count, t.stringOffset)
 	if err != nil {
-- 
2.43.0

