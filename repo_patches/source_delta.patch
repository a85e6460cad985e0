From 15cbec80f8018868c4c535ed2a91b4a9aaa4f992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:41 +0000
Subject: [PATCH 01/35] fix: report short writes and failing closes when
 writing a font

---
 byte_writer.go | 3 +++
 export.go      | 9 ++++++---
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/byte_writer.go b/byte_writer.go
index 4fec70c..0d8548c 100644
--- a/byte_writer.go
+++ b/byte_writer.go
@@ -35,6 +35,9 @@ func (w *byteWriter) flush() error {
 	if err != nil {
 		return err
 	}
+	if n < len(b) {
+		return io.ErrShortWrite
+	}
 	w.flushedLen += int64(n)
 
 	w.buffer.Reset()
diff --git a/export.go b/export.go
index 72b111b..7200381 100644
--- a/export.go
+++ b/export.go
@@ -578,7 +578,10 @@ func (f *Font) WriteFile(outPath string) error {
 	if err != nil {
 		return err
 	}
-	defer of.Close()
-
-	return f.Write(of)
+	err = f.Write(of)
+	if cerr := of.Close(); err == nil {
+		// A failing Close can mean that data was lost.
+		err = cerr
+	}
+	return err
 }
-- 
2.43.0


From fbec78abf603ed66b66851ea4aa46fc48f0a734c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:43 +0000
Subject: [PATCH 02/35] fix: reject glyph locations outside the glyf table
 instead of panicking

---
 table_glyf.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/table_glyf.go b/table_glyf.go
index 196d396..a057e05 100644
--- a/table_glyf.go
+++ b/table_glyf.go
@@ -59,9 +59,9 @@ func (f *font) parseGlyf(r *byteReader) (*glyfTable, error) {
 			return nil, err
 		}
 
-		if gdOffset > int64(tr.length) {
+		if gdLen < 0 || gdOffset+gdLen > int64(tr.length) {
 			logrus.Debugf("gid: %d, gdOffset: %d, tr len: %d, gd len: %d", gid, gdOffset, tr.length, gdLen)
-			logrus.Debugf("Range check error (glyf): %d > %d", gdOffset, tr.length)
+			logrus.Debugf("Range check error (glyf): %d > %d", gdOffset+gdLen, tr.length)
 			return nil, errRangeCheck
 		}
 
@@ -72,7 +72,6 @@ func (f *font) parseGlyf(r *byteReader) (*glyfTable, error) {
 		}
 
 		var desc glyphDescription
-		desc.raw = make([]byte, gdLen)
 		err = r.readBytes(&desc.raw, int(gdLen))
 		if err != nil {
 			logrus.Debugf("ERROR: %v", err)
-- 
2.43.0


From 771e5ac7a53cbff3932c3b55b80efb9ef6b44884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:45 +0000
Subject: [PATCH 03/35] fix: bound memory use by the data present when reading
 and validating

---
 byte_reader.go | 27 ++++++++++++++++++++++-----
 validate.go    | 10 +++++++---
 2 files changed, 29 insertions(+), 8 deletions(-)

diff --git a/byte_reader.go b/byte_reader.go
index 48c5d43..6e761d6 100644
--- a/byte_reader.go
+++ b/byte_reader.go
@@ -51,14 +51,31 @@ func (r *byteReader) Skip(n int) error {
 	return err
 }
 
-// readBytes reads bytes straight from `r`.
+// readBytes reads bytes straight from `r`. The memory used grows with the data that is really there, so
+// that a damaged length alone cannot exhaust it.
 func (r *byteReader) readBytes(bp *[]byte, length int) error {
-	*bp = make([]byte, length)
-	_, err := io.ReadFull(r.reader, *bp)
-	if err != nil {
-		return err
+	if length < 0 {
+		return errRangeCheck
+	}
+	const maxStep = 1 << 16
+
+	var b []byte
+	for {
+		have, step := len(b), length-len(b)
+		if step > maxStep {
+			step = maxStep
+		}
+		b = append(b, make([]byte, step)...)
+		_, err := io.ReadFull(r.reader, b[have:])
+		if err != nil {
+			return err
+		}
+		if len(b) == length {
+			break
+		}
 	}
 
+	*bp = b
 	return nil
 }
 
diff --git a/validate.go b/validate.go
index 7b7260e..8a78c73 100644
--- a/validate.go
+++ b/validate.go
@@ -50,7 +50,11 @@ func (f *font) validate(r *byteReader) error {
 			logrus.Debug("head not set")
 			return errRequiredField
 		}
-		hoff := headRec.offset
+		hoff := int64(headRec.offset)
+		if hoff+12 > int64(len(data)) {
+			logrus.Debug("head outside data")
+			return errRangeCheck
+		}
 
 		// set checksumAdjustment data to 0 in the head table.
 		data[hoff+8] = 0
@@ -88,8 +92,8 @@ func (f *font) validate(r *byteReader) error {
 		}
 		logrus.Debugf("Offset: %d", r.Offset())
 
-		b := make([]byte, tr.length)
-		_, err = io.ReadFull(r.reader, b)
+		var b []byte
+		err = r.readBytes(&b, int(tr.length))
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From f610650f7999e3c74f91df09a75c08f57f7f38cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:15 +0000
Subject: [PATCH 04/35] fix: read post glyph names longer than 127 bytes

---
 table_post.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/table_post.go b/table_post.go
index 261ea65..9f6dc10 100644
--- a/table_post.go
+++ b/table_post.go
@@ -123,7 +123,7 @@ func (f *font) parsePost(r *byteReader) (*postTable, error) {
 				logrus.Debugf("%d > %d", r.Offset()-start, tr.length)
 				return nil, errors.New("reading outside table")
 			}
-			var numChars int8
+			var numChars uint8
 			err = r.read(&numChars)
 			if err != nil {
 				return nil, err
@@ -132,7 +132,7 @@ func (f *font) parsePost(r *byteReader) (*postTable, error) {
 				break
 			}
 
-			name := make([]byte, numChars)
+			var name []byte
 			err = r.readBytes(&name, int(numChars))
 			if err != nil {
 				logrus.Debugf("ERROR: %v", err)
-- 
2.43.0


From 74c21f4a14b47ef1ccc4bfc4b7ee919ee2704e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:17 +0000
Subject: [PATCH 05/35] fix: accept post tables in which glyphs share a custom
 name

---
 table_post.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/table_post.go b/table_post.go
index 9f6dc10..9425b34 100644
--- a/table_post.go
+++ b/table_post.go
@@ -109,10 +109,11 @@ func (f *font) parsePost(r *byteReader) (*postTable, error) {
 		if err != nil {
 			return nil, err
 		}
+		// Glyphs can share a name, so the highest index gives the number of names.
 		newGlyphs := 0
 		for _, ni := range t.glyphNameIndex {
-			if ni >= 258 && ni <= 32767 {
-				newGlyphs++
+			if ni >= 258 && ni <= 32767 && int(ni)-257 > newGlyphs {
+				newGlyphs = int(ni) - 257
 			}
 		}
 		logrus.Tracef("newGlyphs: %d", newGlyphs)
-- 
2.43.0


From 0bc77fd7875082a72ba3e9e49b5b056b75382696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:20 +0000
Subject: [PATCH 06/35] fix: load post tables of version 1.0 and 2.5

---
 byte_reader.go | 8 ++++++++
 table_post.go  | 3 ++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/byte_reader.go b/byte_reader.go
index 6e761d6..2ac04eb 100644
--- a/byte_reader.go
+++ b/byte_reader.go
@@ -90,6 +90,14 @@ func (r *byteReader) readSlice(slice interface{}, length int) error {
 			}
 			*t = append(*t, val)
 		}
+	case *[]int8:
+		for i := 0; i < length; i++ {
+			val, err := r.readInt8()
+			if err != nil {
+				return err
+			}
+			*t = append(*t, val)
+		}
 	case *[]uint16:
 		for i := 0; i < length; i++ {
 			val, err := r.readUint16()
diff --git a/table_post.go b/table_post.go
index 9425b34..0faa07a 100644
--- a/table_post.go
+++ b/table_post.go
@@ -84,6 +84,7 @@ func (f *font) parsePost(r *byteReader) (*postTable, error) {
 	logrus.Debugf("Version: %v %v 0x%X", t.version, t.version.Float64(), t.version)
 	switch uint32(t.version) {
 	case 0x00010000: // 1.0 - font files contains exactly the 258 standard Macintosh glyphs.
+		t.numGlyphs = f.maxp.numGlyphs
 		if t.numGlyphs != 258 {
 			logrus.Debug("Should have the mac number of glyph names")
 			// TODO(gunnsth): If this is too strict, can just set the first 258 glyphnames.
@@ -210,7 +211,7 @@ func (f *font) writePost(w *byteWriter) error {
 
 	// TODO(gunnsth): Write out with v1.0 or v2.0.
 	version := t.version
-	if version != 0x00010000 {
+	if version != 0x00010000 || f.maxp == nil || f.maxp.numGlyphs != 258 {
 		// Include no postscript data.
 		// TODO(gunnsth): support writing v2.0.
 		version = 0x00030000
-- 
2.43.0


From 0bc948139c2b7700a2427b3109936904cb28f27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:16 +0000
Subject: [PATCH 07/35] fix: name records and optimizing on fonts without name
 or hmtx table

---
 table_hmtx.go | 3 +++
 table_name.go | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/table_hmtx.go b/table_hmtx.go
index 3789369..a53d4d7 100644
--- a/table_hmtx.go
+++ b/table_hmtx.go
@@ -60,6 +60,9 @@ func (f *font) parseHmtx(r *byteReader) (*hmtxTable, error) {
 
 // optimizeHmtx optimizes the htmx table.
 func (f *font) optimizeHmtx() {
+	if f.hmtx == nil || f.hhea == nil {
+		return
+	}
 	i := len(f.hmtx.hMetrics) - 1
 	if i <= 0 {
 		return
diff --git a/table_name.go b/table_name.go
index dfa7be2..09787b5 100644
--- a/table_name.go
+++ b/table_name.go
@@ -69,6 +69,10 @@ func (f *font) GetNameByID(nameID int) string {
 // that contais name ID and it's value.
 func (f *font) GetNameRecords() map[uint16]map[uint16]string {
 	var nameRecords = make(map[uint16]map[uint16]string, 0)
+	if f == nil || f.name == nil {
+		logrus.Debug("ERROR: Font or name not set")
+		return nameRecords
+	}
 	for _, nr := range f.name.nameRecords {
 		nameRec, ok := nameRecords[nr.languageID]
 		if ok {
-- 
2.43.0


From 4d04328ec3bab6efe0bd9601dfa1108e3b508f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:18 +0000
Subject: [PATCH 08/35] fix: subsetting fonts without glyf table and with
 negative glyph counts

---
 export.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/export.go b/export.go
index 7200381..1ab1448 100644
--- a/export.go
+++ b/export.go
@@ -143,8 +143,10 @@ func (f *Font) SubsetKeepIndices(indices []GlyphIndex) (*Font, error) {
 	}
 
 	toscan := make([]GlyphIndex, 0, len(gidIncludedMap))
-	for gid := range gidIncludedMap {
-		toscan = append(toscan, gid)
+	if f.glyf != nil {
+		for gid := range gidIncludedMap {
+			toscan = append(toscan, gid)
+		}
 	}
 
 	// Find dependencies of core sets of glyph, and expand until have all relations.
@@ -223,6 +225,9 @@ func (f *Font) SubsetKeepIndices(indices []GlyphIndex) (*Font, error) {
 				newfnt.loca.offsetsLong[i+1] = newfnt.loca.offsetsLong[i] + offset32(len(desc.raw))
 			}
 		}
+	} else if f.font.loca != nil {
+		newfnt.loca = &locaTable{}
+		*newfnt.loca = *f.font.loca
 	}
 
 	if f.font.prep != nil {
@@ -281,6 +286,10 @@ func (f *Font) SubsetKeepIndices(indices []GlyphIndex) (*Font, error) {
 // Prunes out the glyphs from the previous font beyond that number.
 // NOTE: If any of the first numGlyphs depend on later glyphs, it can lead to incorrect rendering.
 func (f *Font) SubsetFirst(numGlyphs int) (*Font, error) {
+	if numGlyphs < 0 || f.maxp == nil {
+		logrus.Debug("Invalid number of glyphs or maxp missing")
+		return nil, errRangeCheck
+	}
 	if int(f.maxp.numGlyphs) <= numGlyphs {
 		logrus.Debugf("Attempting to subset font with same number of glyphs - Ignoring, returning same back")
 		return f, nil
@@ -350,6 +359,15 @@ func (f *Font) SubsetFirst(numGlyphs int) (*Font, error) {
 				newfnt.loca.offsetsLong[i+1] = newfnt.loca.offsetsLong[i] + offset32(len(desc.raw))
 			}
 		}
+	} else if f.font.loca != nil {
+		// No outlines, the locations remain those of the kept glyphs.
+		newfnt.loca = &locaTable{}
+		if len(f.font.loca.offsetsShort) > numGlyphs {
+			newfnt.loca.offsetsShort = f.font.loca.offsetsShort[0 : numGlyphs+1]
+		}
+		if len(f.font.loca.offsetsLong) > numGlyphs {
+			newfnt.loca.offsetsLong = f.font.loca.offsetsLong[0 : numGlyphs+1]
+		}
 	}
 
 	if f.font.prep != nil {
-- 
2.43.0


From 4c1837416352673f7d7f7a8289fda947575bc475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:20 +0000
Subject: [PATCH 09/35] fix: do not keep half parsed glyphs when looking up
 components

---
 table_glyf.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/table_glyf.go b/table_glyf.go
index a057e05..cfce8bc 100644
--- a/table_glyf.go
+++ b/table_glyf.go
@@ -250,7 +250,8 @@ func (glyf *glyfTable) GetComponents(gid GlyphIndex) ([]GlyphIndex, error) {
 	}
 
 	var components []GlyphIndex
-	gdesc := glyf.descs[int(gid)]
+	// Parsed into a copy: the font can be in use by others, and a failed attempt must not be remembered.
+	gdesc := *glyf.descs[int(gid)]
 
 	if gdesc.header == nil {
 		if len(gdesc.raw) == 0 {
-- 
2.43.0


From ee6d0b2d9e274d8bc19de2179cce86e7c3b5de9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:49 +0000
Subject: [PATCH 10/35] fix: subsetting by glyph indices emptied the glyphs of
 the source font

---
 export.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/export.go b/export.go
index 1ab1448..77ead64 100644
--- a/export.go
+++ b/export.go
@@ -198,15 +198,16 @@ func (f *Font) SubsetKeepIndices(indices []GlyphIndex) (*Font, error) {
 	if f.font.glyf != nil && f.font.loca != nil {
 		newfnt.loca = &locaTable{}
 		newfnt.glyf = &glyfTable{}
-		*newfnt.glyf = *f.font.glyf
+		newfnt.glyf.descs = make([]*glyphDescription, len(f.font.glyf.descs))
+		copy(newfnt.glyf.descs, f.font.glyf.descs)
 
-		// Empty glyf contents for non-included glyphs.
+		// Empty glyf contents for non-included glyphs. The descriptions are shared with `f`.
 		for i := range newfnt.glyf.descs {
 			if _, has := gidIncludedMap[GlyphIndex(i)]; has {
 				continue
 			}
 
-			newfnt.glyf.descs[i].raw = nil
+			newfnt.glyf.descs[i] = &glyphDescription{}
 		}
 
 		// Update loca offsets.
-- 
2.43.0


From 68bdee164f1c81a42db299b1c23306e1f00732d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:51 +0000
Subject: [PATCH 11/35] fix: short glyph locations after glyphs of 64 kB and
 more

---
 export.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/export.go b/export.go
index 77ead64..b2d7f6a 100644
--- a/export.go
+++ b/export.go
@@ -221,7 +221,7 @@ func (f *Font) SubsetKeepIndices(indices []GlyphIndex) (*Font, error) {
 		}
 		for i, desc := range newfnt.glyf.descs {
 			if isShort {
-				newfnt.loca.offsetsShort[i+1] = newfnt.loca.offsetsShort[i] + offset16(len(desc.raw))/2
+				newfnt.loca.offsetsShort[i+1] = newfnt.loca.offsetsShort[i] + offset16(len(desc.raw)/2)
 			} else {
 				newfnt.loca.offsetsLong[i+1] = newfnt.loca.offsetsLong[i] + offset32(len(desc.raw))
 			}
@@ -355,7 +355,7 @@ func (f *Font) SubsetFirst(numGlyphs int) (*Font, error) {
 		}
 		for i, desc := range newfnt.glyf.descs {
 			if isShort {
-				newfnt.loca.offsetsShort[i+1] = newfnt.loca.offsetsShort[i] + offset16(len(desc.raw))/2
+				newfnt.loca.offsetsShort[i+1] = newfnt.loca.offsetsShort[i] + offset16(len(desc.raw)/2)
 			} else {
 				newfnt.loca.offsetsLong[i+1] = newfnt.loca.offsetsLong[i] + offset32(len(desc.raw))
 			}
-- 
2.43.0


From 0b55261a8720c92353189371c18674fd9d98e58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:52 +0000
Subject: [PATCH 12/35] fix: glyph locations of fonts whose first glyph is not
 at the start of glyf

---
 table_loca.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/table_loca.go b/table_loca.go
index 9940b6b..cbca59f 100644
--- a/table_loca.go
+++ b/table_loca.go
@@ -109,7 +109,22 @@ func (f *font) writeLoca(w *byteWriter) error {
 		if numGlyphs+1 != len(t.offsetsShort) {
 			logrus.Debug("Unexpected length")
 		}
-		return w.writeSlice(t.offsetsShort)
+		if f.glyf == nil || len(t.offsetsShort) == 0 || t.offsetsShort[0] == 0 {
+			return w.writeSlice(t.offsetsShort)
+		}
+		// The glyph data is written without anything in front of the first glyph.
+		offsets := make([]offset16, len(t.offsetsShort))
+		for i := range offsets {
+			offsets[i] = t.offsetsShort[i] - t.offsetsShort[0]
+		}
+		return w.writeSlice(offsets)
+	}
+	if f.glyf == nil || len(t.offsetsLong) == 0 || t.offsetsLong[0] == 0 {
+		return w.writeSlice(t.offsetsLong)
+	}
+	offsets := make([]offset32, len(t.offsetsLong))
+	for i := range offsets {
+		offsets[i] = t.offsetsLong[i] - t.offsetsLong[0]
 	}
-	return w.writeSlice(t.offsetsLong)
+	return w.writeSlice(offsets)
 }
-- 
2.43.0


From 33e8145fb91b76da5d900e36c572857a51bd1581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:54 +0000
Subject: [PATCH 13/35] fix: writing a font changed it

---
 font.go       | 13 +++++++++----
 table_name.go | 14 +++++++++++++-
 table_post.go |  3 +--
 3 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/font.go b/font.go
index c8b6bff..c86c142 100644
--- a/font.go
+++ b/font.go
@@ -216,8 +216,6 @@ func (f *font) write(w *byteWriter) error {
 	}
 	trec := &tableRecords{}
 
-	f.ot.numTables = uint16(numTables)
-
 	// Starting offset after offset table and table records.
 	startOffset := int64(12 + numTables*16)
 
@@ -237,9 +235,16 @@ func (f *font) write(w *byteWriter) error {
 		bufw := newByteWriter(&buf)
 
 		// head.
-		f.head.checksumAdjustment = 0
+		if f.head == nil {
+			logrus.Debug("head missing (write)")
+			return errRequiredField
+		}
+		// The adjustment is set last, in the output only: writing does not change `f`.
+		headf := &font{head: &headTable{}}
+		*headf.head = *f.head
+		headf.head.checksumAdjustment = 0
 		offset := startOffset
-		err := f.writeHead(bufw)
+		err := headf.writeHead(bufw)
 		if err != nil {
 			return err
 		}
diff --git a/table_name.go b/table_name.go
index 09787b5..874a99f 100644
--- a/table_name.go
+++ b/table_name.go
@@ -260,7 +260,19 @@ func (f *font) writeNameTable(w *byteWriter) error {
 		logrus.Debug("name is nil")
 		return nil
 	}
-	t := f.name
+	// Offsets and lengths are updated in a copy: writing does not change `f`.
+	t := &nameTable{}
+	*t = *f.name
+	t.nameRecords = make([]*nameRecord, len(f.name.nameRecords))
+	for i, nr := range f.name.nameRecords {
+		dup := *nr
+		t.nameRecords[i] = &dup
+	}
+	t.langTagRecords = make([]*langTagRecord, len(f.name.langTagRecords))
+	for i, ltr := range f.name.langTagRecords {
+		dup := *ltr
+		t.langTagRecords[i] = &dup
+	}
 
 	// Preprocess: Write to buffer and update offsets.
 	var buf bytes.Buffer
diff --git a/table_post.go b/table_post.go
index 0faa07a..46f3238 100644
--- a/table_post.go
+++ b/table_post.go
@@ -215,10 +215,9 @@ func (f *font) writePost(w *byteWriter) error {
 		// Include no postscript data.
 		// TODO(gunnsth): support writing v2.0.
 		version = 0x00030000
-		t.version = version
 	}
 
-	err := w.write(t.version, t.italicAngle, t.underlinePosition, t.underlineThickness, t.isFixedPitch)
+	err := w.write(version, t.italicAngle, t.underlinePosition, t.underlineThickness, t.isFixedPitch)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 0a0b0311c9bfe733843737eb5cd3b7f896e20c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:19 +0000
Subject: [PATCH 14/35] fix: name strings shared by records overflowed the name
 table when written

---
 table_name.go | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/table_name.go b/table_name.go
index 874a99f..6e96a7f 100644
--- a/table_name.go
+++ b/table_name.go
@@ -7,6 +7,7 @@ package unitype
 
 import (
 	"bytes"
+	"math"
 	"strconv"
 	"unicode"
 	"unicode/utf8"
@@ -278,21 +279,36 @@ func (f *font) writeNameTable(w *byteWriter) error {
 	var buf bytes.Buffer
 	{
 		bufw := newByteWriter(&buf)
+		// Records can share a string.
+		offsets := map[string]offset16{}
+		store := func(data []byte) (offset16, error) {
+			if offset, has := offsets[string(data)]; has {
+				return offset, nil
+			}
+			if bufw.bufferedLen() > math.MaxUint16 {
+				logrus.Debug("name strings exceed the offset range")
+				return 0, errRangeCheck
+			}
+			offset := offset16(bufw.bufferedLen())
+			offsets[string(data)] = offset
+			return offset, bufw.writeSlice(data)
+		}
+
 		for _, nr := range t.nameRecords {
-			nr.offset = offset16(bufw.bufferedLen())
-			nr.length = uint16(len(nr.data))
-			err := bufw.writeSlice(nr.data)
+			offset, err := store(nr.data)
 			if err != nil {
 				return err
 			}
+			nr.offset = offset
+			nr.length = uint16(len(nr.data))
 		}
 		for _, ltr := range t.langTagRecords {
-			ltr.offset = offset16(bufw.bufferedLen())
-			ltr.length = uint16(len(ltr.data))
-			err := bufw.writeSlice(ltr.data)
+			offset, err := store(ltr.data)
 			if err != nil {
 				return err
 			}
+			ltr.offset = offset
+			ltr.length = uint16(len(ltr.data))
 		}
 		err := bufw.flush()
 		if err != nil {
@@ -306,6 +322,10 @@ func (f *font) writeNameTable(w *byteWriter) error {
 	t.langTagCount = uint16(len(t.langTagRecords))
 
 	// 2+2+2+count*(6*2) + (format=1) 2+langTagCount*2
+	if 6+12*len(t.nameRecords)+2+4*len(t.langTagRecords) > math.MaxUint16 {
+		logrus.Debug("name records exceed the offset range")
+		return errRangeCheck
+	}
 	t.stringOffset = 6 + offset16(t.count)*12
 	if t.format == 1 {
 		t.stringOffset += 2 + offset16(t.langTagCount)*4
-- 
2.43.0


From 04a9218520ce7a402f4e03e284b9c0f67561f0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:21 +0000
Subject: [PATCH 15/35] fix: decode names of the Unicode platform as UTF-16BE

---
 table_name.go | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/table_name.go b/table_name.go
index 6e96a7f..a11ddda 100644
--- a/table_name.go
+++ b/table_name.go
@@ -10,7 +10,6 @@ import (
 	"math"
 	"strconv"
 	"unicode"
-	"unicode/utf8"
 
 	"github.com/sirupsen/logrus"
 
@@ -115,18 +114,10 @@ func makePrintable(str string) string {
 func (nr nameRecord) Decoded() string {
 	switch nr.platformID {
 	case 0: // unicode
-		// TODO(gunnsth): Untested as have not encountered this yet.
-		dup := make([]byte, len(nr.data))
-		copy(dup, nr.data)
-		var decoded bytes.Buffer
-
-		for len(dup) > 0 {
-			r, size := utf8.DecodeRune(dup)
-			dup = dup[size:]
-			decoded.WriteRune(r)
-		}
-
-		return makePrintable(decoded.String())
+		// The strings of the Unicode platform are encoded in UTF-16BE
+		// (https://docs.microsoft.com/en-us/typography/opentype/spec/name).
+		decoded := strutils.UTF16ToString(nr.data)
+		return makePrintable(decoded)
 	case 1: // macintosh
 		var decoded bytes.Buffer
 		for _, val := range nr.data {
-- 
2.43.0


From 65af0a04d4548faeac8903a85faa11e77597cc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:48 +0000
Subject: [PATCH 16/35] fix: cmap format 0 maps character codes to glyphs, not
 the reverse

---
 table_cmap.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/table_cmap.go b/table_cmap.go
index d5359ef..01003eb 100644
--- a/table_cmap.go
+++ b/table_cmap.go
@@ -166,12 +166,12 @@ func (f *font) parseCmapSubtableFormat0(r *byteReader, platformID, encodingID in
 	charcodes := make([]CharCode, len(st.glyphIDArray))
 	charcodeToGID := map[CharCode]GlyphIndex{}
 
-	for glyphID, code := range st.glyphIDArray {
+	for code, glyphID := range st.glyphIDArray {
 		charcodeToGID[CharCode(code)] = GlyphIndex(glyphID)
 		codeBytes := runeDecoder.ToBytes(uint32(code))
 		r := runeDecoder.DecodeRune(codeBytes)
-		runes[glyphID] = r
-		charcodes[glyphID] = CharCode(code)
+		runes[code] = r
+		charcodes[code] = CharCode(code)
 		if _, has := cmap[r]; !has {
 			// Avoid overwrite, if get same twice, use the earlier entry.
 			cmap[r] = GlyphIndex(glyphID)
-- 
2.43.0


From f519c7f9d289d4a1daf90756dbd1d64ccbeabd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:08 +0000
Subject: [PATCH 17/35] fix: endless loop and range checks when loading damaged
 cmap tables

---
 table_cmap.go | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/table_cmap.go b/table_cmap.go
index 01003eb..0ea9901 100644
--- a/table_cmap.go
+++ b/table_cmap.go
@@ -9,6 +9,7 @@ import (
 	"bytes"
 	"errors"
 	"fmt"
+	"unicode"
 
 	"github.com/sirupsen/logrus"
 )
@@ -259,7 +260,7 @@ func (f *font) parseCmapSubtableFormat4(r *byteReader, platformID, encodingID in
 		return nil, err
 	}
 
-	glyphIDArrLen := int(st.length-uint16(2*8+2*4*segCount)) / 2
+	glyphIDArrLen := (int(st.length) - (2*8 + 2*4*segCount)) / 2
 	logrus.Debugf("Parsing cmap format 4, segCount: %d", segCount)
 	logrus.Debugf("Table len: %d", st.length)
 	logrus.Debugf("glyphIDArrLen: %d", glyphIDArrLen)
@@ -279,6 +280,7 @@ func (f *font) parseCmapSubtableFormat4(r *byteReader, platformID, encodingID in
 	charcodes := make([]CharCode, int(f.maxp.numGlyphs))
 	charcodeMap := make(map[CharCode]GlyphIndex, f.maxp.numGlyphs)
 	logrus.Debugf("Number of glyphs in font: %d\n", f.maxp.numGlyphs)
+	numCodes := 0
 	for i := 0; i < segCount-1; i++ {
 		c1 := st.startCode[i]
 		c2 := st.endCode[i]
@@ -287,7 +289,17 @@ func (f *font) parseCmapSubtableFormat4(r *byteReader, platformID, encodingID in
 
 		logrus.Debugf("Segment %d/%d, c1: %d, c2: %d, d: %d, rangeOffset: %d", i+1, segCount, c1, c2, d, rangeOffset)
 
-		for c := c1; c <= c2; c++ {
+		// Segments do not overlap: there are no more codes than 16 bits can tell apart.
+		if c1 <= c2 {
+			numCodes += int(c2) - int(c1) + 1
+		}
+		if numCodes > 65536 {
+			logrus.Debug("ERROR: too many character codes")
+			return nil, errRangeCheck
+		}
+
+		for code := int(c1); code <= int(c2); code++ {
+			c := uint16(code)
 			var gid uint16
 
 			if rangeOffset == 0 {
@@ -492,17 +504,24 @@ func (f *font) parseCmapSubtableFormat12(r *byteReader, platformID, encodingID i
 	runes := make([]rune, f.maxp.numGlyphs)
 	charcodes := make([]CharCode, f.maxp.numGlyphs)
 	charcodeMap := make(map[CharCode]GlyphIndex, f.maxp.numGlyphs)
+	numCodes := 0
 	for _, group := range st.groups {
-		gid := GlyphIndex(group.startGlyphID)
-		if int(gid) >= int(f.maxp.numGlyphs) {
-			logrus.Debugf("gid >= numGlyphs (%d > %d)", gid, f.maxp.numGlyphs)
+		if group.startGlyphID >= uint32(f.maxp.numGlyphs) {
+			logrus.Debugf("gid >= numGlyphs (%d > %d)", group.startGlyphID, f.maxp.numGlyphs)
 			logrus.Debugf("Error: %v", errRangeCheck)
 			return nil, errRangeCheck
 		}
+		gid := GlyphIndex(group.startGlyphID)
 		for charcode := group.startCharCode; charcode <= group.endCharCode; charcode++ {
 			if int(gid) >= int(f.maxp.numGlyphs) {
 				break
 			}
+			// Groups do not overlap: there are no more codes than Unicode code points.
+			numCodes++
+			if numCodes > unicode.MaxRune+1 {
+				logrus.Debug("ERROR: too many character codes")
+				return nil, errRangeCheck
+			}
 			b := runeDecoder.ToBytes(charcode)
 			r := runeDecoder.DecodeRune(b)
 			runes[gid] = r
-- 
2.43.0


From 7a6d515cee69b8e23624f5e5d7c01496e16cb23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:10 +0000
Subject: [PATCH 18/35] fix: cmap header counted subtables that are not written

---
 table_cmap.go | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/table_cmap.go b/table_cmap.go
index 0ea9901..a72afe1 100644
--- a/table_cmap.go
+++ b/table_cmap.go
@@ -375,19 +375,19 @@ func writeCmapSubtableFormat4(subtable *cmapSubtable, w *byteWriter) error {
 	}
 	err = w.write(subt.reservedPad)
 	if err != nil {
-		return nil
+		return err
 	}
 	err = w.writeSlice(subt.startCode)
 	if err != nil {
-		return nil
+		return err
 	}
 	err = w.writeSlice(subt.idDelta)
 	if err != nil {
-		return nil
+		return err
 	}
 	err = w.writeSlice(subt.idRangeOffset)
 	if err != nil {
-		return nil
+		return err
 	}
 	// TODO: Problem: the following slice is not populated.
 	return w.writeSlice(subt.glyphIDArray)
@@ -576,8 +576,6 @@ func (f *font) writeCmap(w *byteWriter) error {
 	}
 	t := f.cmap
 
-	err := w.write(t.version, t.numTables)
-
 	// Write the cmap subtables to an in-memory mock buffer to calculate offsets.
 	var mockBuffer bytes.Buffer
 	mockWriter := newByteWriter(&mockBuffer)
@@ -621,12 +619,17 @@ func (f *font) writeCmap(w *byteWriter) error {
 			encodingRecords = append(encodingRecords, rec)
 		}
 	}
-	err = mockWriter.flush()
+	err := mockWriter.flush()
 	if err != nil {
 		return err
 	}
 
-	// Output the encoding records and the mock buffer.
+	// Output the header, the encoding records and the mock buffer.
+	// Subtables of unsupported formats are not written.
+	err = w.write(t.version, uint16(len(encodingRecords)))
+	if err != nil {
+		return err
+	}
 	for _, rec := range encodingRecords {
 		rec.offset += offset32(4 + 8*len(encodingRecords)) // Add static part.
 		err := w.write(rec.platformID, rec.encodingID, rec.offset)
-- 
2.43.0


From 0ee8dd121db66f56952700ade80c800625327282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:25 +0000
Subject: [PATCH 19/35] fix: GetCmap picked one of several matching subtables
 at random

---
 export.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/export.go b/export.go
index b2d7f6a..3d386e8 100644
--- a/export.go
+++ b/export.go
@@ -84,7 +84,8 @@ func (f *Font) GetCmap(platformID, encodingID int) map[rune]GlyphIndex {
 		return nil
 	}
 
-	for _, subt := range f.cmap.subtables {
+	for _, key := range f.cmap.subtableKeys {
+		subt := f.cmap.subtables[key]
 		if subt.platformID == platformID && subt.encodingID == encodingID {
 			return subt.cmap
 		}
-- 
2.43.0


From 39b1ba2c09d242c99e399141a203dc37ae06b406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:27 +0000
Subject: [PATCH 20/35] fix: a mapping to notdef hid the glyph other mapping
 tables have for a rune

---
 export.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/export.go b/export.go
index 3d386e8..6e91f0c 100644
--- a/export.go
+++ b/export.go
@@ -111,7 +111,7 @@ func (f *Font) LookupRunes(runes []rune) []GlyphIndex {
 		index := GlyphIndex(0)
 		for _, cmap := range maps {
 			ind, has := cmap[r]
-			if has {
+			if has && ind != 0 {
 				index = ind
 				break
 			}
-- 
2.43.0


From b2a83fa01e740aa0f9c951301b64bc2efe66f01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:29 +0000
Subject: [PATCH 21/35] fix: characters outside the BMP in cmap tables of the
 Unicode platform

---
 encoding.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/encoding.go b/encoding.go
index 3f90ae7..673380b 100644
--- a/encoding.go
+++ b/encoding.go
@@ -77,6 +77,10 @@ const (
 func getCmapEncoding(platformID, encodingID int) cmapEncoding {
 	switch platformID {
 	case platformIDUnicode:
+		switch encodingID {
+		case 4, 6: // Full Unicode repertoire.
+			return cmapEncodingUCS4
+		}
 		return cmapEncodingUCS2
 	case platformIDMacintosh:
 		return cmapEncodingMacRoman
-- 
2.43.0


From 11f582141c8c2be5793f0a93c1c0c6eb7dd5ed6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:25 +0000
Subject: [PATCH 22/35] fix: subsetting changed the mappings of the source font
 and kept stale ones

---
 export.go     | 31 ++++++++++++-----
 table_cmap.go | 94 +++++++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 116 insertions(+), 9 deletions(-)

diff --git a/export.go b/export.go
index 6e91f0c..62bc743 100644
--- a/export.go
+++ b/export.go
@@ -422,14 +422,16 @@ func (f *Font) SubsetFirst(numGlyphs int) (*Font, error) {
 		}
 
 		for _, name := range f.cmap.subtableKeys {
-			subt := f.cmap.subtables[name]
+			subt := f.cmap.subtables[name].subset(numGlyphs)
 			switch t := subt.ctx.(type) {
 			case cmapSubtableFormat0:
+				t.glyphIDArray = append([]uint8(nil), t.glyphIDArray...)
 				for i := range t.glyphIDArray {
-					if i > numGlyphs {
+					if int(t.glyphIDArray[i]) >= numGlyphs {
 						t.glyphIDArray[i] = 0
 					}
 				}
+				subt.ctx = t
 			case cmapSubtableFormat4:
 				newt := cmapSubtableFormat4{}
 				// Generates a new table: going from glyph index 0 up to numGlyphs.
@@ -470,15 +472,24 @@ func (f *Font) SubsetFirst(numGlyphs int) (*Font, error) {
 					i = j
 				}
 
-				if segments > 0 && newt.endCode[segments-1] < 65535 {
-					newt.endCode = append(newt.endCode, 65535)
-					newt.startCode = append(newt.startCode, 65535)
-					newt.idDelta = append(newt.idDelta, 1)
-					newt.idRangeOffset = append(newt.idRangeOffset, 0)
-					segments++
+				if 2*8+2*4*(segments+1) > math.MaxUint16 {
+					newt.compact(subt.charcodeToGID)
+					segments = len(newt.endCode)
 				}
 
-				newt.length = uint16(2*8 + 2*4*segments)
+				// The last segment holds no mappings.
+				newt.endCode = append(newt.endCode, 65535)
+				newt.startCode = append(newt.startCode, 65535)
+				newt.idDelta = append(newt.idDelta, 1)
+				newt.idRangeOffset = append(newt.idRangeOffset, 0)
+				segments++
+
+				length := 2*8 + 2*4*segments + 2*len(newt.glyphIDArray)
+				if length > math.MaxUint16 {
+					logrus.Debugf("ERROR: too many segments (%d)", segments)
+					return nil, errRangeCheck
+				}
+				newt.length = uint16(length)
 				newt.language = t.language
 				newt.segCountX2 = uint16(segments * 2)
 				newt.searchRange = 2 * uint16(math.Pow(2, math.Floor(math.Log2(float64(segments)))))
@@ -486,11 +497,13 @@ func (f *Font) SubsetFirst(numGlyphs int) (*Font, error) {
 				newt.rangeShift = uint16(segments*2) - newt.searchRange
 				subt.ctx = newt
 			case cmapSubtableFormat6:
+				t.glyphIDArray = append([]uint16(nil), t.glyphIDArray...)
 				for i := range t.glyphIDArray {
 					if int(t.glyphIDArray[i]) >= numGlyphs {
 						t.glyphIDArray[i] = 0
 					}
 				}
+				subt.ctx = t
 			case cmapSubtableFormat12:
 				newt := cmapSubtableFormat12{}
 				groups := 0
diff --git a/table_cmap.go b/table_cmap.go
index a72afe1..8d6f7ee 100644
--- a/table_cmap.go
+++ b/table_cmap.go
@@ -9,6 +9,7 @@ import (
 	"bytes"
 	"errors"
 	"fmt"
+	"sort"
 	"unicode"
 
 	"github.com/sirupsen/logrus"
@@ -128,6 +129,53 @@ type cmapSubtable struct {
 	runeToCharcodeBytes map[rune][]byte // Quick for going rune -> encoded bytes (charcodes).
 }
 
+// subset returns a copy of `subtable` with the mappings to glyphs beyond the first `numGlyphs` removed.
+// The format specific data (ctx) is still that of `subtable`.
+func (subtable *cmapSubtable) subset(numGlyphs int) *cmapSubtable {
+	subt := *subtable
+
+	charcodes := make([]CharCode, 0, len(subtable.charcodeToGID))
+	for cc := range subtable.charcodeToGID {
+		charcodes = append(charcodes, cc)
+	}
+	sort.Slice(charcodes, func(i, j int) bool {
+		return charcodes[i] < charcodes[j]
+	})
+
+	// The formats that list segments have runes and charcodes by glyph, the other ones by entry with
+	// 0 for removed glyphs.
+	segmented := subt.format == 4 || subt.format == 12
+	if segmented {
+		subt.runes = make([]rune, numGlyphs)
+		subt.charcodes = make([]CharCode, numGlyphs)
+	}
+	subt.cmap = map[rune]GlyphIndex{}
+	subt.charcodeToGID = map[CharCode]GlyphIndex{}
+
+	runeDecoder := getCmapEncoding(subt.platformID, subt.encodingID).GetRuneDecoder()
+	for _, cc := range charcodes {
+		gid := subtable.charcodeToGID[cc]
+		if int(gid) >= numGlyphs {
+			if segmented {
+				continue
+			}
+			gid = 0
+		}
+
+		r := runeDecoder.DecodeRune(runeDecoder.ToBytes(uint32(cc)))
+		if segmented {
+			subt.runes[gid] = r
+			subt.charcodes[gid] = cc
+		}
+		subt.charcodeToGID[cc] = gid
+		if _, has := subt.cmap[r]; !has {
+			subt.cmap[r] = gid
+		}
+	}
+
+	return &subt
+}
+
 // cmapSubtableFormat0 represents format 0: Byte encoding table.
 // This is the Apple standard character to glyph index mapping table.
 type cmapSubtableFormat0 struct {
@@ -393,6 +441,52 @@ func writeCmapSubtableFormat4(subtable *cmapSubtable, w *byteWriter) error {
 	return w.writeSlice(subt.glyphIDArray)
 }
 
+// compact joins neighboring segments of `subt`, given with deltas, into segments with entries in the glyph ID
+// array where that takes less room.
+func (subt *cmapSubtableFormat4) compact(charcodeToGID map[CharCode]GlyphIndex) {
+	var newt cmapSubtableFormat4
+	var arrayOffsets []int // Offset into the glyph ID array by segment, -1 if not used.
+
+	numSegments := len(subt.endCode)
+	for i := 0; i < numSegments; {
+		start, end := int(subt.startCode[i]), int(subt.endCode[i])
+		j := i + 1
+		for ; j < numSegments; j++ {
+			size := 2 * (int(subt.endCode[j]) - end)
+			if j == i+1 {
+				size += 2 * (end - start + 1)
+			}
+			if size >= 8 {
+				break
+			}
+			end = int(subt.endCode[j])
+		}
+
+		newt.startCode = append(newt.startCode, uint16(start))
+		newt.endCode = append(newt.endCode, uint16(end))
+		if j == i+1 {
+			newt.idDelta = append(newt.idDelta, subt.idDelta[i])
+			arrayOffsets = append(arrayOffsets, -1)
+		} else {
+			newt.idDelta = append(newt.idDelta, 0)
+			arrayOffsets = append(arrayOffsets, len(newt.glyphIDArray))
+			for cc := start; cc <= end; cc++ {
+				newt.glyphIDArray = append(newt.glyphIDArray, uint16(charcodeToGID[CharCode(cc)]))
+			}
+		}
+		i = j
+	}
+
+	// The range offset is relative to its own position, and the last segment is yet to be added.
+	newt.idRangeOffset = make([]uint16, len(newt.endCode))
+	for i, offset := range arrayOffsets {
+		if offset >= 0 {
+			newt.idRangeOffset[i] = uint16(2 * (len(newt.endCode) + 1 - i + offset))
+		}
+	}
+	*subt = newt
+}
+
 // cmapSubtableFormat6 represents cmap data format 6: Trimmed table mapping.
 type cmapSubtableFormat6 struct {
 	length       uint16
-- 
2.43.0


From 59ba863c1bdf9a66ef2188157c2b4e049ad3044a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:10 +0000
Subject: [PATCH 23/35] fix: name strings shared in part overflowed the name
 table when written

---
 table_name.go | 51 +++++++++++++++++++++++++++------------------------
 1 file changed, 27 insertions(+), 24 deletions(-)

diff --git a/table_name.go b/table_name.go
index a11ddda..03eece6 100644
--- a/table_name.go
+++ b/table_name.go
@@ -8,6 +8,7 @@ package unitype
 import (
 	"bytes"
 	"math"
+	"sort"
 	"strconv"
 	"unicode"
 
@@ -270,36 +271,38 @@ func (f *font) writeNameTable(w *byteWriter) error {
 	var buf bytes.Buffer
 	{
 		bufw := newByteWriter(&buf)
-		// Records can share a string.
-		offsets := map[string]offset16{}
-		store := func(data []byte) (offset16, error) {
-			if offset, has := offsets[string(data)]; has {
-				return offset, nil
-			}
-			if bufw.bufferedLen() > math.MaxUint16 {
-				logrus.Debug("name strings exceed the offset range")
-				return 0, errRangeCheck
-			}
-			offset := offset16(bufw.bufferedLen())
-			offsets[string(data)] = offset
-			return offset, bufw.writeSlice(data)
+		// Strings can be shared, also as a part of a longer one: the longest ones are stored first.
+		type stored struct {
+			data   []byte
+			offset *offset16
 		}
-
+		var strs []stored
 		for _, nr := range t.nameRecords {
-			offset, err := store(nr.data)
-			if err != nil {
-				return err
-			}
-			nr.offset = offset
 			nr.length = uint16(len(nr.data))
+			strs = append(strs, stored{nr.data, &nr.offset})
 		}
 		for _, ltr := range t.langTagRecords {
-			offset, err := store(ltr.data)
-			if err != nil {
-				return err
-			}
-			ltr.offset = offset
 			ltr.length = uint16(len(ltr.data))
+			strs = append(strs, stored{ltr.data, &ltr.offset})
+		}
+		sort.SliceStable(strs, func(i, j int) bool {
+			return len(strs[i].data) > len(strs[j].data)
+		})
+
+		for _, str := range strs {
+			offset := bytes.Index(bufw.buffer.Bytes(), str.data)
+			if offset < 0 {
+				offset = bufw.bufferedLen()
+				err := bufw.writeSlice(str.data)
+				if err != nil {
+					return err
+				}
+			}
+			if offset > math.MaxUint16 {
+				logrus.Debug("name strings exceed the offset range")
+				return errRangeCheck
+			}
+			*str.offset = offset16(offset)
 		}
 		err := bufw.flush()
 		if err != nil {
-- 
2.43.0


From 27174d523a7d74fc59dfd7ed63eb75445e1715dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:43 +0000
Subject: [PATCH 24/35] fix: subset gids took glyph indices above 65535 modulo
 65536

---
 truecli/cmd/subset_gids.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/truecli/cmd/subset_gids.go b/truecli/cmd/subset_gids.go
index c983ff4..a9f3d1b 100644
--- a/truecli/cmd/subset_gids.go
+++ b/truecli/cmd/subset_gids.go
@@ -48,7 +48,7 @@ var subsetGIDsCmd = &cobra.Command{
 	Run: func(cmd *cobra.Command, args []string) {
 		var gids []unitype.GlyphIndex
 		for i := 1; i < len(args); i++ {
-			gid, err := strconv.ParseUint(args[i], 10, 32)
+			gid, err := strconv.ParseUint(args[i], 10, 16)
 			if err != nil {
 				fatalf("Invalid gid: %v\n", err)
 			}
-- 
2.43.0


From fbf0bdb78fd588a4f17abdeab5fd9dde4cf564de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:55 +0000
Subject: [PATCH 25/35] fix: commands exited with status 0 when the font could
 not be written

---
 truecli/cmd/readwrite.go     | 3 +--
 truecli/cmd/subset_gids.go   | 3 +--
 truecli/cmd/subset_runes.go  | 3 +--
 truecli/cmd/subset_simple.go | 3 +--
 4 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/truecli/cmd/readwrite.go b/truecli/cmd/readwrite.go
index c942078..d307a6d 100644
--- a/truecli/cmd/readwrite.go
+++ b/truecli/cmd/readwrite.go
@@ -54,8 +54,7 @@ var readwriteCmd = &cobra.Command{
 		var buf bytes.Buffer
 		err = tfnt.Write(&buf)
 		if err != nil {
-			fmt.Printf("Error writing: %+v\n", err)
-			return
+			fatalf("Error writing: %+v\n", err)
 		}
 
 		err = unitype.ValidateBytes(buf.Bytes())
diff --git a/truecli/cmd/subset_gids.go b/truecli/cmd/subset_gids.go
index a9f3d1b..2a9dc43 100644
--- a/truecli/cmd/subset_gids.go
+++ b/truecli/cmd/subset_gids.go
@@ -66,8 +66,7 @@ var subsetGIDsCmd = &cobra.Command{
 		var buf bytes.Buffer
 		err = tfnt.Write(&buf)
 		if err != nil {
-			fmt.Printf("Error writing: %+v\n", err)
-			return
+			fatalf("Error writing: %+v\n", err)
 		}
 
 		err = unitype.ValidateBytes(buf.Bytes())
diff --git a/truecli/cmd/subset_runes.go b/truecli/cmd/subset_runes.go
index 350209f..c545c4d 100644
--- a/truecli/cmd/subset_runes.go
+++ b/truecli/cmd/subset_runes.go
@@ -59,8 +59,7 @@ var subsetRunesCmd = &cobra.Command{
 		var buf bytes.Buffer
 		err = tfnt.Write(&buf)
 		if err != nil {
-			fmt.Printf("Error writing: %+v\n", err)
-			return
+			fatalf("Error writing: %+v\n", err)
 		}
 		origSize := buf.Len()
 
diff --git a/truecli/cmd/subset_simple.go b/truecli/cmd/subset_simple.go
index 6349a81..c4134bf 100644
--- a/truecli/cmd/subset_simple.go
+++ b/truecli/cmd/subset_simple.go
@@ -54,8 +54,7 @@ var subsetSimpleCmd = &cobra.Command{
 		var buf bytes.Buffer
 		err = tfnt.Write(&buf)
 		if err != nil {
-			fmt.Printf("Error writing: %+v\n", err)
-			return
+			fatalf("Error writing: %+v\n", err)
 		}
 
 		err = unitype.ValidateBytes(buf.Bytes())
-- 
2.43.0


From 98fe9d067acd496fa30fcebea891ec4baada5330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:23 +0000
Subject: [PATCH 26/35] fix: read shared name strings once

A naming table whose records overlap made loading reserve a copy of every
string, 65535 bytes for each 12-byte record, and decode each of them for a log
message: a 45 kB font took 445 MB, a 800 kB one several GB.
---
 table_name.go | 57 +++++++++++++++++++++++++++------------------------
 1 file changed, 30 insertions(+), 27 deletions(-)

diff --git a/table_name.go b/table_name.go
index 03eece6..cb79573 100644
--- a/table_name.go
+++ b/table_name.go
@@ -201,48 +201,51 @@ func (f *font) parseNameTable(r *byteReader) (*nameTable, error) {
 		}
 	}
 
-	// Get the actual string data.
+	// Get the actual string data. Strings can overlap: the part of the storage that is used is read once.
+	used := 0
 	for _, nr := range t.nameRecords {
-		if int(t.stringOffset)+int(nr.offset)+int(nr.length) > int(tr.length) {
-			logrus.Debugf("%v> %v", int(t.stringOffset)+int(nr.offset)+int(nr.length), int(tr.length))
+		end := int(nr.offset) + int(nr.length)
+		if int(t.stringOffset)+end > int(tr.length) {
+			logrus.Debugf("%v> %v", int(t.stringOffset)+end, int(tr.length))
 			logrus.Debug("name string offset outside table")
 			return nil, errRangeCheck
 		}
-
-		err = r.SeekTo(int64(t.stringOffset) + int64(tr.offset) + int64(nr.offset))
-		if err != nil {
-			logrus.Debugf("Error: %v", err)
-			return nil, err
-		}
-
-		err = r.readBytes(&nr.data, int(nr.length))
-		if err != nil {
-			logrus.Debugf("Error: %v", err)
-			return nil, err
+		if end > used {
+			used = end
 		}
 	}
-
 	for _, ltr := range t.langTagRecords {
-		if int(t.stringOffset)+int(ltr.offset)+int(ltr.length) > int(tr.length) {
+		end := int(ltr.offset) + int(ltr.length)
+		if int(t.stringOffset)+end > int(tr.length) {
 			logrus.Debug("lang tag string offset outside table")
 			return nil, errRangeCheck
 		}
-
-		err = r.SeekTo(int64(t.stringOffset) + int64(tr.offset) + int64(ltr.offset))
-		if err != nil {
-			logrus.Debugf("Error: %v", err)
-			return nil, err
-		}
-		err = r.readBytes(&ltr.data, int(ltr.length))
-		if err != nil {
-			logrus.Debugf("Error: %v", err)
-			return nil, err
+		if end > used {
+			used = end
 		}
 	}
 
+	err = r.SeekTo(int64(t.stringOffset) + int64(tr.offset))
+	if err != nil {
+		logrus.Debugf("Error: %v", err)
+		return nil, err
+	}
+	var storage []byte
+	err = r.readBytes(&storage, used)
+	if err != nil {
+		logrus.Debugf("Error: %v", err)
+		return nil, err
+	}
+	for _, nr := range t.nameRecords {
+		nr.data = storage[nr.offset : int(nr.offset)+int(nr.length)]
+	}
+	for _, ltr := range t.langTagRecords {
+		ltr.data = storage[ltr.offset : int(ltr.offset)+int(ltr.length)]
+	}
+
 	logrus.Debugf("Name records: %d", len(t.nameRecords))
 	for _, nr := range t.nameRecords {
-		logrus.Debugf("%d %d %d - '%s' (%d)", nr.platformID, nr.encodingID, nr.nameID, nr.Decoded(), len(nr.data))
+		logrus.Debugf("%d %d %d (%d)", nr.platformID, nr.encodingID, nr.nameID, len(nr.data))
 	}
 
 	return t, nil
-- 
2.43.0


From 68554fcd1a1410b9c9add74a53e3ca033652319a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:15 +0000
Subject: [PATCH 27/35] fix: decode names of Windows platform, encoding 10

Their strings are UTF-16BE like those of encodings 0 and 1, but came out as raw
bytes.
---
 table_name.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/table_name.go b/table_name.go
index cb79573..def4a5c 100644
--- a/table_name.go
+++ b/table_name.go
@@ -140,7 +140,8 @@ func (nr nameRecord) Decoded() string {
 		// and the referenced string data must be encoded in UTF-16BE. When building a symbol font for Windows,
 		// the platform ID should be 3 and the encoding ID should be 0, and the referenced string data must be
 		// encoded in UTF-16BE. (https://docs.microsoft.com/en-us/typography/opentype/spec/name).
-		if nr.encodingID == 0 || nr.encodingID == 1 {
+		// The same holds for fonts with the full Unicode repertoire (encoding ID 10).
+		if nr.encodingID == 0 || nr.encodingID == 1 || nr.encodingID == 10 {
 			if len(nr.data) > 0 {
 				decoded := strutils.UTF16ToString(nr.data)
 				return makePrintable(decoded)
-- 
2.43.0


From 0e9cc1f1e94d5602625ee79029a2b095b987e1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:28 +0000
Subject: [PATCH 28/35] fix: print the records, not their addresses, in the
 info of the name table

---
 font.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/font.go b/font.go
index c86c142..26c27c2 100644
--- a/font.go
+++ b/font.go
@@ -548,7 +548,14 @@ func (f *font) TableInfo(table string) string {
 			break
 		}
 		b.WriteString(fmt.Sprintf("name table\n"))
-		b.WriteString(fmt.Sprintf("%#v\n", f.name))
+		b.WriteString(fmt.Sprintf("- format: %d\n", f.name.format))
+		for i, nr := range f.name.nameRecords {
+			b.WriteString(fmt.Sprintf("- name record: %d: platform: %d, encoding: %d, language: %d, name: %d, length: %d\n",
+				i, nr.platformID, nr.encodingID, nr.languageID, nr.nameID, nr.length))
+		}
+		for i, lr := range f.name.langTagRecords {
+			b.WriteString(fmt.Sprintf("- language tag record: %d: length: %d\n", i, lr.length))
+		}
 	case "glyf":
 		if f.glyf == nil {
 			b.WriteString("glyf: missing\n")
-- 
2.43.0


From 1a8f9761abc48c65b5ea765fcd66fbf9f094460a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:28 +0000
Subject: [PATCH 29/35] fix: list every mapping in info --cmappings

---
 truecli/cmd/info.go | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/truecli/cmd/info.go b/truecli/cmd/info.go
index 4992ba4..a785c9c 100644
--- a/truecli/cmd/info.go
+++ b/truecli/cmd/info.go
@@ -94,22 +94,19 @@ var infoCmd = &cobra.Command{
 			mapNames = append(mapNames, "3,1")
 
 			for i := range maps {
-				var gids []unitype.GlyphIndex
-				gidMap := map[unitype.GlyphIndex]rune{}
-				for rune, gid := range maps[i] {
-					gidMap[gid] = rune
-					gids = append(gids, gid)
+				var runes []rune
+				for r := range maps[i] {
+					runes = append(runes, r)
 				}
-				sort.Slice(gids, func(i, j int) bool {
-					return gids[i] < gids[j]
+				// Several characters can share a glyph.
+				sort.Slice(runes, func(a, b int) bool {
+					if gidA, gidB := maps[i][runes[a]], maps[i][runes[b]]; gidA != gidB {
+						return gidA < gidB
+					}
+					return runes[a] < runes[b]
 				})
-				cnt := 0
-				for _, gid := range gids {
-					//if cnt > 100 {
-					//	break
-					//	}
-					fmt.Printf("%d/%s: %d - %c\n", i, mapNames[i], gid, gidMap[gid])
-					cnt++
+				for _, r := range runes {
+					fmt.Printf("%d/%s: %d - %c\n", i, mapNames[i], maps[i][r], r)
 				}
 			}
 		}
-- 
2.43.0


From de1f780afc90ed454404d96683bfa066231f6cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:10 +0000
Subject: [PATCH 30/35] fix: keep padded name strings from overwriting their
 neighbours

---
 table_name.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/table_name.go b/table_name.go
index def4a5c..2493d74 100644
--- a/table_name.go
+++ b/table_name.go
@@ -237,11 +237,15 @@ func (f *font) parseNameTable(r *byteReader) (*nameTable, error) {
 		logrus.Debugf("Error: %v", err)
 		return nil, err
 	}
+	slice := func(offset offset16, length uint16) []byte {
+		end := int(offset) + int(length)
+		return storage[offset:end:end] // Appending must not write into another string.
+	}
 	for _, nr := range t.nameRecords {
-		nr.data = storage[nr.offset : int(nr.offset)+int(nr.length)]
+		nr.data = slice(nr.offset, nr.length)
 	}
 	for _, ltr := range t.langTagRecords {
-		ltr.data = storage[ltr.offset : int(ltr.offset)+int(ltr.length)]
+		ltr.data = slice(ltr.offset, ltr.length)
 	}
 
 	logrus.Debugf("Name records: %d", len(t.nameRecords))
-- 
2.43.0


From 3952c6b332342bce53d35db6478dac1e285f6741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:44 +0000
Subject: [PATCH 31/35] fix: start every table on a 4-byte boundary

---
 byte_writer.go | 12 ++++++++++++
 font.go        | 26 +++++++++++++-------------
 2 files changed, 25 insertions(+), 13 deletions(-)

diff --git a/byte_writer.go b/byte_writer.go
index 0d8548c..d0c8da0 100644
--- a/byte_writer.go
+++ b/byte_writer.go
@@ -44,6 +44,18 @@ func (w *byteWriter) flush() error {
 	return nil
 }
 
+// flushTable flushes the table in the buffer, padded with zeros to a multiple of 4 bytes such that the next
+// table starts on a 4-byte boundary.
+func (w *byteWriter) flushTable() error {
+	for w.buffer.Len()%4 != 0 {
+		err := w.writeUint8(0)
+		if err != nil {
+			return err
+		}
+	}
+	return w.flush()
+}
+
 // bufferedLen returns the length of the current buffer.
 func (w *byteWriter) bufferedLen() int {
 	return w.buffer.Len()
diff --git a/font.go b/font.go
index 26c27c2..0417459 100644
--- a/font.go
+++ b/font.go
@@ -250,7 +250,7 @@ func (f *font) write(w *byteWriter) error {
 		}
 		headChecksum = bufw.checksum()
 		trec.Set("head", offset, bufw.bufferedLen(), headChecksum)
-		err = bufw.flush()
+		err = bufw.flushTable()
 		if err != nil {
 			return err
 		}
@@ -262,7 +262,7 @@ func (f *font) write(w *byteWriter) error {
 			return err
 		}
 		trec.Set("maxp", offset, bufw.bufferedLen(), bufw.checksum())
-		err = bufw.flush()
+		err = bufw.flushTable()
 		if err != nil {
 			return err
 		}
@@ -275,7 +275,7 @@ func (f *font) write(w *byteWriter) error {
 				return err
 			}
 			trec.Set("hhea", offset, bufw.bufferedLen(), bufw.checksum())
-			err = bufw.flush()
+			err = bufw.flushTable()
 			if err != nil {
 				return err
 			}
@@ -289,7 +289,7 @@ func (f *font) write(w *byteWriter) error {
 				return err
 			}
 			trec.Set("hmtx", offset, bufw.bufferedLen(), bufw.checksum())
-			err = bufw.flush()
+			err = bufw.flushTable()
 			if err != nil {
 				return err
 			}
@@ -303,7 +303,7 @@ func (f *font) write(w *byteWriter) error {
 				return err
 			}
 			trec.Set("loca", offset, bufw.bufferedLen(), bufw.checksum())
-			err = bufw.flush()
+			err = bufw.flushTable()
 			if err != nil {
 				return err
 			}
@@ -317,7 +317,7 @@ func (f *font) write(w *byteWriter) error {
 				return err
 			}
 			trec.Set("glyf", offset, bufw.bufferedLen(), bufw.checksum())
-			err = bufw.flush()
+			err = bufw.flushTable()
 			if err != nil {
 				return err
 			}
@@ -331,7 +331,7 @@ func (f *font) write(w *byteWriter) error {
 				return err
 			}
 			trec.Set("prep", offset, bufw.bufferedLen(), bufw.checksum())
-			err = bufw.flush()
+			err = bufw.flushTable()
 			if err != nil {
 				return err
 			}
@@ -345,7 +345,7 @@ func (f *font) write(w *byteWriter) error {
 				return err
 			}
 			trec.Set("cvt", offset, bufw.bufferedLen(), bufw.checksum())
-			err = bufw.flush()
+			err = bufw.flushTable()
 			if err != nil {
 				return err
 			}
@@ -359,7 +359,7 @@ func (f *font) write(w *byteWriter) error {
 				return err
 			}
 			trec.Set("fpgm", offset, bufw.bufferedLen(), bufw.checksum())
-			err = bufw.flush()
+			err = bufw.flushTable()
 			if err != nil {
 				return err
 			}
@@ -373,7 +373,7 @@ func (f *font) write(w *byteWriter) error {
 				return err
 			}
 			trec.Set("name", offset, bufw.bufferedLen(), bufw.checksum())
-			err = bufw.flush()
+			err = bufw.flushTable()
 			if err != nil {
 				return err
 			}
@@ -387,7 +387,7 @@ func (f *font) write(w *byteWriter) error {
 				return err
 			}
 			trec.Set("OS/2", offset, bufw.bufferedLen(), bufw.checksum())
-			err = bufw.flush()
+			err = bufw.flushTable()
 			if err != nil {
 				return err
 			}
@@ -401,7 +401,7 @@ func (f *font) write(w *byteWriter) error {
 				return err
 			}
 			trec.Set("post", offset, bufw.bufferedLen(), bufw.checksum())
-			err = bufw.flush()
+			err = bufw.flushTable()
 			if err != nil {
 				return err
 			}
@@ -415,7 +415,7 @@ func (f *font) write(w *byteWriter) error {
 				return err
 			}
 			trec.Set("cmap", offset, bufw.bufferedLen(), bufw.checksum())
-			err = bufw.flush()
+			err = bufw.flushTable()
 			if err != nil {
 				return err
 			}
-- 
2.43.0


From aff116336bde35ca7fdfa428a1324e2c4a44ec5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:46 +0000
Subject: [PATCH 32/35] fix: write the search fields of the table directory for
 the tables written

---
 font.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/font.go b/font.go
index 0417459..84d92ff 100644
--- a/font.go
+++ b/font.go
@@ -207,12 +207,18 @@ func (f *font) numTablesToWrite() int {
 func (f *font) write(w *byteWriter) error {
 	logrus.Debug("Writing font")
 	numTables := f.numTablesToWrite()
+	// The search fields follow from the number of tables, which can differ from that of the loaded font.
+	entrySelector := 0
+	for 2<<entrySelector <= numTables {
+		entrySelector++
+	}
+	searchRange := 16 << entrySelector
 	otTable := &offsetTable{
 		sfntVersion:   f.ot.sfntVersion,
 		numTables:     uint16(numTables),
-		searchRange:   f.ot.searchRange,
-		entrySelector: f.ot.entrySelector,
-		rangeShift:    f.ot.rangeShift,
+		searchRange:   uint16(searchRange),
+		entrySelector: uint16(entrySelector),
+		rangeShift:    uint16(numTables*16 - searchRange),
 	}
 	trec := &tableRecords{}
 
-- 
2.43.0


From 6d4100db35ea6bb12513013473529f2f496f46ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:58 +0000
Subject: [PATCH 33/35] fix: sort the table directory by tag

---
 table_record.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/table_record.go b/table_record.go
index 770b83c..996a817 100644
--- a/table_record.go
+++ b/table_record.go
@@ -8,6 +8,7 @@ package unitype
 import (
 	"bytes"
 	"fmt"
+	"sort"
 	"strings"
 
 	"github.com/sirupsen/logrus"
@@ -111,8 +112,14 @@ func (f *font) writeTableRecords(w *byteWriter) error {
 		return errRequiredField
 	}
 
-	logrus.Debugf("Writing (len:%d):", len(f.trec.list))
-	for _, tr := range f.trec.list {
+	// The directory is sorted by tag, readers can search it.
+	list := append([]*tableRecord(nil), f.trec.list...)
+	sort.SliceStable(list, func(i, j int) bool {
+		return bytes.Compare(list[i].tableTag[:], list[j].tableTag[:]) < 0
+	})
+
+	logrus.Debugf("Writing (len:%d):", len(list))
+	for _, tr := range list {
 		logrus.Debugf("%s - off: %d (len: %d)", tr.tableTag.String(), tr.offset, tr.length)
 		err := tr.write(w)
 		if err != nil {
-- 
2.43.0


From 57845d6642099efad1cc7cbca05ee85f5034228b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:24 +0000
Subject: [PATCH 34/35] fix: glyph names of post version 2.5 were off by one

---
 table_post.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/table_post.go b/table_post.go
index 46f3238..6b5b0dc 100644
--- a/table_post.go
+++ b/table_post.go
@@ -185,7 +185,7 @@ func (f *font) parsePost(r *byteReader) (*postTable, error) {
 		}
 		t.glyphNames = make([]GlyphName, int(t.numGlyphs))
 		for i := 0; i < int(t.numGlyphs); i++ {
-			nameIndex := i + 1 + int(t.offsets[i])
+			nameIndex := i + int(t.offsets[i])
 			if nameIndex < 0 || nameIndex > 257 {
 				logrus.Debugf("ERROR: name index outside range (%d)", nameIndex)
 				continue
-- 
2.43.0


From 0cfa55fc0e9be2ee3fb95ad93126f9d61f1e8608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:39 +0000
Subject: [PATCH 35/35] fix: keep mapping subtables that differ in language
 only

Only the last one of several subtables of the same format, platform and encoding was kept, and written once for each.
---
 table_cmap.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/table_cmap.go b/table_cmap.go
index 8d6f7ee..dab5885 100644
--- a/table_cmap.go
+++ b/table_cmap.go
@@ -28,7 +28,7 @@ type cmapTable struct {
 
 	// Processed data:
 	subtables    map[string]*cmapSubtable
-	subtableKeys []string // "format,platformID,encodingID".
+	subtableKeys []string // "format,platformID,encodingID", followed by the record index if not unique.
 }
 
 type encodingRecord struct {
@@ -69,7 +69,7 @@ func (f *font) parseCmap(r *byteReader) (*cmapTable, error) {
 	}
 
 	// Process the encoding subtables.
-	for _, enc := range t.encodingRecords {
+	for i, enc := range t.encodingRecords {
 		// Seek to the subtable.
 		err = r.SeekTo(int64(tr.offset) + int64(enc.offset))
 		if err != nil {
@@ -104,6 +104,10 @@ func (f *font) parseCmap(r *byteReader) (*cmapTable, error) {
 		}
 		if cmap != nil {
 			key := fmt.Sprintf("%d,%d,%d", format, enc.platformID, enc.encodingID)
+			if _, has := t.subtables[key]; has {
+				// Subtables of the same encoding can differ in language.
+				key = fmt.Sprintf("%s,%d", key, i)
+			}
 			t.subtables[key] = cmap
 			t.subtableKeys = append(t.subtableKeys, key)
 			logrus.Debugf("KEY: %s <-> %T", key, cmap.ctx)
-- 
2.43.0

