From aaeb0aa2728fa947f2dbed5cca59ba1f5193f19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:14 +0000
Subject: [PATCH 01/74] fix: merge container and JSON types with scalar types
 in any order

A key holding a number on one line and an object or array on a later one
made Type.Update panic, so the rest of the line was lost; the type of an
object followed by null depended on the order of lines.
---
 flatjsonl/type.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/flatjsonl/type.go b/flatjsonl/type.go
index c0a3638..d513a06 100644
--- a/flatjsonl/type.go
+++ b/flatjsonl/type.go
@@ -18,6 +18,11 @@ const (
 
 // Update merges original type with updated.
 func (t Type) Update(u Type) Type {
+	// Null does not affect any other type.
+	if u == TypeNull && t != TypeAbsent {
+		return t
+	}
+
 	// Undefined type is replaced by update.
 	if t == TypeAbsent || t == TypeNull {
 		return u
@@ -32,6 +37,11 @@ func (t Type) Update(u Type) Type {
 		return t
 	}
 
+	// Objects and arrays have columns of their own, they do not affect type of scalar values.
+	if u == TypeObject || u == TypeArray {
+		return t
+	}
+
 	// String replaces any type.
 	if u == TypeString || t == TypeString {
 		return TypeString
@@ -41,6 +51,11 @@ func (t Type) Update(u Type) Type {
 		return t
 	}
 
+	// JSON literals can only be stored together with scalar values as strings.
+	if t == TypeJSON || u == TypeJSON {
+		return TypeString
+	}
+
 	// Bool and non-bool make unconstrained type: string.
 	if (t == TypeBool && u != TypeBool) || (t != TypeBool && u == TypeBool) {
 		return TypeString
-- 
2.43.0


From f0fba19d5a697040798125a272ce469e46907fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:15 +0000
Subject: [PATCH 02/74] fix: let -skip-zero-cols skip columns

A new key was never considered zero, so the flag had no effect.
---
 flatjsonl/keys.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index b381051..db4860f 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -83,6 +83,7 @@ func (p *Processor) initKey(pk, parent uint64, path []string, t Type, isZero boo
 
 	key := KeyFromPath(path)
 
+	k.isZero = true // A new key has only had zero values so far.
 	k.UpdateType(t)
 	k.isZero = k.isZero && isZero
 	k.path = pp
-- 
2.43.0


From cf6df111a75a272bd2c97ff5c832dc43f1ce24be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:50 +0000
Subject: [PATCH 03/74] fix: keep column of a key which case variant is an
 object

With {"A":{}} in one line and {"a":1} in another only .A was listed, and
removed from the list as an object: the column .a was lost.
---
 flatjsonl/keys.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index db4860f..35fb98b 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -119,6 +119,11 @@ func (p *Processor) initKey(pk, parent uint64, path []string, t Type, isZero boo
 		p.collectKeyCardinality(k)
 	}
 
+	if _, ok := p.canonicalKeys[k.canonical]; ok {
+		// Other case variants may turn out to be objects or arrays, that make no column.
+		p.flKeysList = append(p.flKeysList, k.original)
+	}
+
 	if _, ok := p.canonicalKeys[k.canonical]; !ok {
 		p.flKeysList = append(p.flKeysList, k.original)
 		p.canonicalKeys[k.canonical] = k
@@ -463,8 +468,16 @@ func (p *Processor) prepareScannedKeys() {
 
 	var newFlKeys []string
 
+	listed := map[string]bool{}
+
 	for _, key := range p.flKeysList {
 		if !deleted[key] {
+			if listed[p.ck(key)] {
+				continue
+			}
+
+			listed[p.ck(key)] = true
+
 			newFlKeys = append(newFlKeys, key)
 		}
 	}
-- 
2.43.0


From 3e1d7f60e64f93b8df031c507eeea15394498060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:38 +0000
Subject: [PATCH 04/74] fix: name column of case variants after the key found
 first

The variant that happened to be the last in iteration of a concurrent map
gave its name to the column, so header could be different on every run.
---
 flatjsonl/keys.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 35fb98b..951f0ce 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -518,16 +518,36 @@ func (p *Processor) flKeysInit() {
 		}
 	}
 
+	// Case variants share a column, that is named after the one that was found first.
+	listed := make(map[string]string, len(p.flKeysList))
+	for _, k := range p.flKeysList {
+		listed[p.ck(k)] = k
+	}
+
 	p.flKeys.Range(func(_ uint64, value flKey) bool {
+		if value.t == TypeObject || value.t == TypeArray {
+			return true
+		}
+
 		if _, phc := p.parentHighCardinality.Load(value.parent); phc {
 			// Skip keys with high cardinality parents.
 			return true
 		}
 
 		v := p.canonicalKeys[value.canonical]
+		if v.t == TypeObject || v.t == TypeArray {
+			v.t, v.isZero = TypeAbsent, true
+		}
+
 		value.isZero = value.isZero && v.isZero
 		value.t = v.t.Update(value.t)
 
+		if k, ok := listed[value.canonical]; ok && k != value.original {
+			t, isZero := value.t, value.isZero
+			value = v
+			value.t, value.isZero = t, isZero
+		}
+
 		p.canonicalKeys[value.canonical] = value
 
 		return true
-- 
2.43.0


From aa5342e10e0bfbcadcd9f64145eea2ee515ce6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:39 +0000
Subject: [PATCH 05/74] fix: declare type of columns with JSON literals in
 PostgreSQL dump

Column without a type is a syntax error in CREATE TABLE.
---
 flatjsonl/pg_dump_writer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flatjsonl/pg_dump_writer.go b/flatjsonl/pg_dump_writer.go
index bd5108e..cbaa804 100644
--- a/flatjsonl/pg_dump_writer.go
+++ b/flatjsonl/pg_dump_writer.go
@@ -292,6 +292,8 @@ func (c *PGDumpWriter) createTable(tn string, keys []flKey, isTransposed bool) e
 			}
 		case TypeAbsent, TypeNull:
 			tp = " VARCHAR"
+		case TypeJSON, TypeObject, TypeArray:
+			tp = " VARCHAR"
 		}
 
 		createTable += "\t" + sqluct.QuoteANSI(k.replaced) + tp + `,` + "\n"
-- 
2.43.0


From 595f0e10350186278da6c361196267adf870fca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:40 +0000
Subject: [PATCH 06/74] fix: keep siblings that have name of high cardinality
 key as a prefix

Key .items_count was deleted together with children of .items.
---
 flatjsonl/keys.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 951f0ce..9a3ebe3 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -446,6 +446,11 @@ func (p *Processor) prepareScannedKeys() {
 				}
 			}
 
+			if len(k.original) > len(hc) && k.original[len(hc)] != '.' {
+				// Not a child: prefix ends in the middle of a segment.
+				continue
+			}
+
 			if len(k.original) > len(hc) && strings.HasPrefix(k.original, hc) {
 				p.flKeys.Delete(key)
 
-- 
2.43.0


From 131ce9f54ba1f91c2b133c21820dd9ea0fd7923c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:42 +0000
Subject: [PATCH 07/74] fix: dump to PostgreSQL tables that are filled with
 columns exactly

Number of columns that is a multiple of maximum columns of a table crashed
on a nil writer of a part that does not exist.
---
 flatjsonl/pg_dump_writer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/flatjsonl/pg_dump_writer.go b/flatjsonl/pg_dump_writer.go
index cbaa804..1634052 100644
--- a/flatjsonl/pg_dump_writer.go
+++ b/flatjsonl/pg_dump_writer.go
@@ -217,6 +217,11 @@ func (c *PGDumpWriter) insert(seq int64, tn string, values []string) error {
 			return err
 		}
 
+		// Last part has exactly maxCols columns.
+		if len(values) == 0 {
+			break
+		}
+
 		part++
 		tableName = tn + partSuffix + strconv.Itoa(part)
 		tw = c.csvCopiers[tableName]
-- 
2.43.0


From dc162ef3a1f38490d4d1f300d9820fe3a0ba0f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:43 +0000
Subject: [PATCH 08/74] fix: apply -offset-lines when scanning of keys is
 skipped

---
 flatjsonl/processor.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index 9e1f037..c2fc1af 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -465,6 +465,7 @@ func (p *Processor) iterateForWriters() error {
 	})
 
 	p.rd.MaxLines = 0
+	p.rd.OffsetLines = int64(p.f.OffsetLines) // Not set when key scanning was skipped.
 	atomic.StoreInt64(&p.rd.Sequence, 0)
 	atomic.StoreInt64(&p.errors, 0)
 
-- 
2.43.0


From 4a01f84c10a2d851b69eea216f8f42d4a0f32540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:45 +0000
Subject: [PATCH 09/74] fix: write sequence numbers and indexes exactly

Numbers were limited to 5 significant digits, so that sequence and index
of transposed rows were wrong starting from 100000.
---
 flatjsonl/flattener.go | 4 ++++
 flatjsonl/writer.go    | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/flatjsonl/flattener.go b/flatjsonl/flattener.go
index cf74ed7..768d113 100644
--- a/flatjsonl/flattener.go
+++ b/flatjsonl/flattener.go
@@ -251,6 +251,10 @@ func Format(v interface{}) string {
 	case string:
 		return val
 	case float64:
+		if i := int64(val); float64(i) == val {
+			return strconv.FormatInt(i, 10)
+		}
+
 		return strconv.FormatFloat(val, 'g', 5, 64)
 	case bool:
 		return strconv.FormatBool(val)
diff --git a/flatjsonl/writer.go b/flatjsonl/writer.go
index 7caafba..5c4615e 100644
--- a/flatjsonl/writer.go
+++ b/flatjsonl/writer.go
@@ -50,6 +50,10 @@ func (v Value) Format() string {
 			return v.RawNumber
 		}
 
+		if i := int64(v.Number); float64(i) == v.Number {
+			return strconv.FormatInt(i, 10)
+		}
+
 		return strconv.FormatFloat(v.Number, 'g', 5, 64)
 	case TypeBool:
 		return strconv.FormatBool(v.Bool)
-- 
2.43.0


From f73039e8b11f111a1e0f5322625d13720bc85001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:46 +0000
Subject: [PATCH 10/74] fix: collect types of a key without duplicates and data
 races

Copies of a key were appending to the shared list without a lock, and every
value of another type grew the list of a key with more than one type.
---
 flatjsonl/keys.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 9a3ebe3..d2424a2 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -29,6 +29,16 @@ type flKey struct {
 }
 
 func (k *flKey) UpdateType(u Type) {
+	for _, t := range k.tt {
+		if t == u {
+			k.t = k.t.Update(u)
+
+			return
+		}
+	}
+
+	// Copies of the key share the list.
+	k.tt = k.tt[:len(k.tt):len(k.tt)]
 	if len(k.tt) == 0 {
 		k.tt = append(k.tt, u)
 	} else {
-- 
2.43.0


From f03d78b03b2475c42dd59a44da76b803b635d83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:47 +0000
Subject: [PATCH 11/74] fix: do not share path buffer of a single key between
 lines

---
 flatjsonl/reader.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flatjsonl/reader.go b/flatjsonl/reader.go
index 08cccda..e346040 100644
--- a/flatjsonl/reader.go
+++ b/flatjsonl/reader.go
@@ -226,6 +226,8 @@ func (rd *Reader) Read(sess *readSession) error {
 
 			rd.singleKeyPath = path
 			rd.singleKeyFlat = []byte("." + strings.Join(kk.path, "."))
+			// Concurrent lines append to this slice, each one needs its own copy then.
+			rd.singleKeyFlat = rd.singleKeyFlat[:len(rd.singleKeyFlat):len(rd.singleKeyFlat)]
 		}
 	}
 
-- 
2.43.0


From d3aebf4fe895e376f00fc47eb3eb98555b366bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:48 +0000
Subject: [PATCH 12/74] fix: skip NULL values when coalescing keys of one
 column

---
 flatjsonl/processor.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index c2fc1af..5f107e2 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -744,6 +744,10 @@ func (wi *writeIterator) setValue(v Value, pk uint64, l *lineBuf) {
 	ev := l.values[i]
 	t := ev.Type
 
+	if t == TypeNull && wi.p.cfg.ConcatDelimiter == nil {
+		t = TypeAbsent // NULL is replaced in coalesce.
+	}
+
 	if t == TypeAbsent {
 		l.values[i] = v
 
-- 
2.43.0


From 7d4f8aecd2eba06510f29c08aea3a622f686dd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:50 +0000
Subject: [PATCH 13/74] fix: declare float column for integers written as 1.0
 or 1e3

Values are written as they are in JSON, PostgreSQL would refuse to load
them into INT8 column.
---
 flatjsonl/keys.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index d2424a2..7832671 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -1,6 +1,7 @@
 package flatjsonl
 
 import (
+	"bytes"
 	"errors"
 	"fmt"
 	"regexp"
@@ -374,10 +375,15 @@ func (p *Processor) scanAvailableKeys() error {
 
 					return x
 				}
-				w.FnNumber = func(_ int64, flatPath []byte, pl int, path []string, value float64, _ []byte) {
+				w.FnNumber = func(_ int64, flatPath []byte, pl int, path []string, value float64, raw []byte) {
 					pk, parent := h.hashParentBytes(flatPath, pl)
 					isInt := float64(int(value)) == value
 
+					// Values are written as they are, integer columns do not accept 1.0 or 1e3.
+					if bytes.ContainsAny(raw, ".eE") {
+						isInt = false
+					}
+
 					if isInt {
 						p.scanKey(pk, parent, path, TypeInt, value == 0)
 					} else {
-- 
2.43.0


From 0e9f3d5e99dd08f0508b73b786da27a076f07b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:08 +0000
Subject: [PATCH 14/74] fix: declare type of coalesced column after all of its
 keys

Column was declared with the type of its first key, so that strings of
other keys could not be loaded into, for example, INT8.
---
 flatjsonl/keys.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 7832671..0c79dad 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -737,6 +737,13 @@ func (p *Processor) prepareKeys() {
 	for i, pk := range p.keys {
 		if pk.transposeDst == "" {
 			if j, ok := keyExists[pk.replaced]; ok {
+				// Constants and concatenated values are strings.
+				if pk.original == "" || p.cfg.ConcatDelimiter != nil {
+					pk.t = TypeString
+				}
+
+				keys[j].UpdateType(pk.t)
+
 				pk.UpdateType(p.keys[i].t)
 				p.keys[i] = pk
 				keyMap[i] = j
-- 
2.43.0


From cfdf670670a907daaa1b318c055104e95c305c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:10 +0000
Subject: [PATCH 15/74] fix: escape quotes in names of SQLite columns

---
 flatjsonl/sqlite_writer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flatjsonl/sqlite_writer.go b/flatjsonl/sqlite_writer.go
index 7d27ffc..dfd083a 100644
--- a/flatjsonl/sqlite_writer.go
+++ b/flatjsonl/sqlite_writer.go
@@ -242,6 +242,8 @@ _seq_id integer,
 			tp = " REAL"
 		}
 
+		k.replaced = c.replacer.Replace(k.replaced)
+
 		createTable += `"` + k.replaced + `"` + tp + `,` + "\n"
 	}
 
-- 
2.43.0


From c74e61b2c323c5db4d66782fe47641b676628743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:11 +0000
Subject: [PATCH 16/74] fix: use string as a parent of its extracted URL

URL was its own parent, JSON schema was looking for the root forever.
---
 flatjsonl/flattener.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatjsonl/flattener.go b/flatjsonl/flattener.go
index 768d113..69d086c 100644
--- a/flatjsonl/flattener.go
+++ b/flatjsonl/flattener.go
@@ -226,8 +226,8 @@ func (fv *FastWalker) walkFastJSONString(seq int64, flatPath []byte, pl int, pat
 
 			v, err := p.ParseBytes(us)
 			if err == nil {
-				flatPath = append(flatPath, []byte(".URL")...)
 				pl := len(flatPath)
+				flatPath = append(flatPath, []byte(".URL")...)
 
 				if fv.WantPath {
 					fv.WalkFastJSON(seq, flatPath, pl, append(path, "URL"), v)
-- 
2.43.0


From ea4b3389133ee3cc4d98c09f43dadf4db2aa26f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:13 +0000
Subject: [PATCH 17/74] fix: convert timestamps that have their own timezone to
 output timezone

---
 flatjsonl/processor.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index 5f107e2..71d2fe2 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -727,6 +727,7 @@ func (wi *writeIterator) setValue(v Value, pk uint64, l *lineBuf) {
 
 			if wi.outputTZ != nil {
 				t, err = time.ParseInLocation(tf, v.String, wi.outputTZ)
+				t = t.In(wi.outputTZ) // String may have its own timezone.
 			} else {
 				t, err = time.Parse(tf, v.String)
 			}
-- 
2.43.0


From 617583e7790f81ef2b7e9e6da7dd87efb37611e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:30 +0000
Subject: [PATCH 18/74] fix: compare headers of CSV files that have no rows

csvequals considered files with different columns equal if there were no
rows in them.
---
 cmd/csvequals/main.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/cmd/csvequals/main.go b/cmd/csvequals/main.go
index eb96685..552f02d 100644
--- a/cmd/csvequals/main.go
+++ b/cmd/csvequals/main.go
@@ -119,6 +119,18 @@ func main() {
 			keys1 = append(keys1, r1...)
 			keys2 = append(keys2, r2...)
 
+			for _, k := range keys1 {
+				m1[k] = ""
+			}
+
+			for _, k := range keys2 {
+				m2[k] = ""
+			}
+
+			if diff := mapDiff(m1, m2); len(diff) > 0 {
+				log.Fatalln("found diff in header:\n" + strings.Join(diff, "\n"))
+			}
+
 			continue
 		}
 
-- 
2.43.0


From 4d4e9d16ebafc826d413c2d9f0570e669ecc1362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:31 +0000
Subject: [PATCH 19/74] fix: keep key that has no letters or digits when
 replacing keys

Such a tail segment, for example "" or "_", was a panic.
---
 flatjsonl/keys.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 0c79dad..8e01d8c 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -826,6 +826,10 @@ func (p *Processor) prepareKey(origKey string) (kk string) {
 	snk := strings.Trim(ski, "[]")
 
 	for {
+		if len(snk) == 0 && len(sk) > 1 {
+			break // There is nothing to make a name of, the key is kept.
+		}
+
 		if len(snk) == 0 {
 			panic("BUG: empty snk for '" + origKey + "'")
 		}
-- 
2.43.0


From 6fe237f4c5520c00b21815fcc614821b6235aeb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:33 +0000
Subject: [PATCH 20/74] fix: do not count captures of line prefix as children
 of the root

More captures than -children-limit allows made the root a JSON literal: all
of the columns were lost.
---
 flatjsonl/keys.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 8e01d8c..8b4a06a 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -126,7 +126,7 @@ func (p *Processor) initKey(pk, parent uint64, path []string, t Type, isZero boo
 		return existing
 	}
 
-	if p.f.ChildrenLimit > 0 && len(k.path) > 1 {
+	if p.f.ChildrenLimit > 0 && len(k.path) > 1 && k.parent != 0 {
 		p.collectKeyCardinality(k)
 	}
 
-- 
2.43.0


From 50c249de4eee32a74f5839aa186b464580914439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:34 +0000
Subject: [PATCH 21/74] fix: do not transpose keys that have prefix in the
 middle of a segment

With .foo in the transpose config .football was considered a child of it.
---
 flatjsonl/keys.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 8b4a06a..d11b088 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -103,6 +103,10 @@ func (p *Processor) initKey(pk, parent uint64, path []string, t Type, isZero boo
 	k.parent = parent
 
 	for tk, dst := range p.cfg.Transpose {
+		if len(k.original) > len(tk) && k.original[len(tk)] != '.' {
+			continue
+		}
+
 		if len(k.original) > len(tk) && strings.HasPrefix(k.original, tk) {
 			scanTransposedKey(dst, tk, &k)
 
-- 
2.43.0


From 28963d3ed90dd9522e9b373b7e23f6b57f1a3e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:35 +0000
Subject: [PATCH 22/74] fix: transpose properties that have empty name or start
 with a bracket

Such a property was a panic that lost the line.
---
 flatjsonl/keys.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index d11b088..d74aa77 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -227,6 +227,28 @@ func scanTransposedKey(dst string, tk string, k *flKey) {
 		trimmed = trimmed[1:]
 	}
 
+	if len(trimmed) == 0 {
+		return // Nothing to identify a row with.
+	}
+
+	// Property which name only looks like an array index.
+	seg := trimmed
+	if pos := strings.Index(trimmed, "."); pos > 0 {
+		seg = trimmed[:pos]
+	}
+
+	if _, err := strconv.Atoi(strings.TrimSuffix(seg[1:], "]")); seg[0] == '[' && (err != nil || seg[len(seg)-1] != ']') {
+		k.transposeDst = dst
+		k.transposeKey = intOrString{t: TypeString, s: seg}
+		k.transposeTrimmed = trimmed[len(seg):]
+
+		if k.transposeTrimmed == "" {
+			k.transposeTrimmed = "._value"
+		}
+
+		return
+	}
+
 	// Array.
 	if trimmed[0] == '[' {
 		pos := strings.Index(trimmed, "]")
-- 
2.43.0


From 5f0db2cdc5bcc5f602b154bffb968089788d9b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:36 +0000
Subject: [PATCH 23/74] fix: declare string index for transposed mix of arrays
 and objects

Type of index was of the last key, names of properties could not be loaded
into INT8 column.
---
 flatjsonl/writer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flatjsonl/writer.go b/flatjsonl/writer.go
index 5c4615e..e4d781e 100644
--- a/flatjsonl/writer.go
+++ b/flatjsonl/writer.go
@@ -168,7 +168,9 @@ func (b *baseWriter) setupKeys(keys []flKey) {
 		tw := b.transposedWriter(key.transposeDst, keys)
 
 		tw.keyIndexes = append(tw.keyIndexes, i)
+		indexType := tw.indexType
 		tw.indexType = key.transposeKey.t
+		tw.indexType = indexType.Update(tw.indexType) // Both arrays and objects make string index.
 
 		ik, ok := tw.trimmedKeys[key.transposeTrimmed]
 		if !ok {
-- 
2.43.0


From 84cea5307c528fb8fc8656f68c17df9bfc98303b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:06 +0000
Subject: [PATCH 24/74] fix: complete row of a line that failed to be walked

Malformed number, for example {"a":1-2}, was a panic that left the row
incomplete: rows of all next lines could not be written, the last row was
missing silently.
---
 flatjsonl/reader.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/flatjsonl/reader.go b/flatjsonl/reader.go
index e346040..5bbd2d6 100644
--- a/flatjsonl/reader.go
+++ b/flatjsonl/reader.go
@@ -304,12 +304,19 @@ func (rd *Reader) Read(sess *readSession) error {
 	return sess.scanner.Err()
 }
 
-func (rd *Reader) doLine(w *syncWorker, seq, n int64, sess *readSession) error {
+func (rd *Reader) doLine(w *syncWorker, seq, n int64, sess *readSession) (err error) {
+	finishing := false
+
 	defer func() {
 		if r := recover(); r != nil {
 			println("panic on line:", string(w.line))
 			println(fmt.Sprintf("%v", r))
 			println(string(debug.Stack()))
+
+			// Rows of the next lines are waiting for this one.
+			if sess.lineFinished != nil && !finishing {
+				err = sess.lineFinished(seq)
+			}
 		}
 	}()
 
@@ -327,6 +334,8 @@ func (rd *Reader) doLine(w *syncWorker, seq, n int64, sess *readSession) error {
 	line := w.line
 	if len(line) < 2 || line[0] != '{' { //nolint:nestif
 		if line = rd.prefixedLine(seq, line, w.walker.FnString); line == nil {
+			finishing = true
+
 			if sess.lineFinished != nil {
 				if err := sess.lineFinished(seq); err != nil {
 					return fmt.Errorf("failure in line finished callback, line %d: %w", n, err)
@@ -360,6 +369,8 @@ func (rd *Reader) doLine(w *syncWorker, seq, n int64, sess *readSession) error {
 		}
 	}
 
+	finishing = true
+
 	if sess.lineFinished != nil {
 		if err := sess.lineFinished(seq); err != nil {
 			return fmt.Errorf("failure in line finished callback, line %d: %w", n, err)
-- 
2.43.0


From b3dcf17e09b23232eda98cc6ebdcb21754a78fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:36 +0000
Subject: [PATCH 25/74] fix: report failures of the last write to output

Errors of the last flush to CSV file, of closing files of transposed tables
and of committing SQLite transaction were ignored, truncated output was
considered complete.
---
 flatjsonl/csv_writer.go    | 10 ++++++++++
 flatjsonl/raw_writer.go    |  2 ++
 flatjsonl/sqlite_writer.go |  2 ++
 3 files changed, 14 insertions(+)

diff --git a/flatjsonl/csv_writer.go b/flatjsonl/csv_writer.go
index e65f6be..25250dd 100644
--- a/flatjsonl/csv_writer.go
+++ b/flatjsonl/csv_writer.go
@@ -127,11 +127,21 @@ func (c *CSVWriter) ReceiveRow(seq int64, values []Value) error {
 func (c *CSVWriter) Close() error {
 	c.w.Flush()
 
+	if err := c.w.Error(); err != nil {
+		return fmt.Errorf("failed to flush CSV file: %w", err)
+	}
+
 	for _, tw := range c.transposed {
 		tw.w.Flush()
 
+		if err := tw.w.Error(); err != nil {
+			return fmt.Errorf("failed to flush transposed CSV file: %w", err)
+		}
+
 		if err := tw.f.Close(); err != nil {
 			println("failed to close transpose CSV file: " + err.Error())
+
+			return fmt.Errorf("failed to close transposed CSV file: %w", err)
 		}
 	}
 
diff --git a/flatjsonl/raw_writer.go b/flatjsonl/raw_writer.go
index 0f7916d..8bbd1c5 100644
--- a/flatjsonl/raw_writer.go
+++ b/flatjsonl/raw_writer.go
@@ -126,6 +126,8 @@ func (c *RawWriter) Close() error {
 
 		if err := tw.f.Close(); err != nil {
 			println("failed to close transposed RAW file: " + err.Error())
+
+			return fmt.Errorf("failed to close transposed RAW file: %w", err)
 		}
 	}
 
diff --git a/flatjsonl/sqlite_writer.go b/flatjsonl/sqlite_writer.go
index dfd083a..6f0a11f 100644
--- a/flatjsonl/sqlite_writer.go
+++ b/flatjsonl/sqlite_writer.go
@@ -263,6 +263,8 @@ func (c *SQLiteWriter) Close() error {
 		err := c.tx.Commit()
 		if err != nil {
 			println(err.Error())
+
+			return fmt.Errorf("failed to commit SQLite transaction: %w", err)
 		}
 	}
 
-- 
2.43.0


From a466366aa21fa01593ecd3b67e4bfb09cdef1090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:37 +0000
Subject: [PATCH 26/74] fix: restart loop reader from the beginning, support
 empty source

Every pass was starting from where the previous one stopped; empty source
was an infinite recursion.
---
 flatjsonl/reader.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/flatjsonl/reader.go b/flatjsonl/reader.go
index 5bbd2d6..6cd1ba7 100644
--- a/flatjsonl/reader.go
+++ b/flatjsonl/reader.go
@@ -455,6 +455,8 @@ func (l *LoopReader) Size() int64 {
 // Reset resets the counter.
 func (l *LoopReader) Reset() {
 	l.bytesRead = 0
+
+	_, _ = l.src.Seek(0, io.SeekStart) // Seeking to the start of bytes can not fail.
 }
 
 // Read implements io.Reader.
@@ -463,6 +465,10 @@ func (l *LoopReader) Read(p []byte) (n int, err error) {
 		return 0, io.EOF
 	}
 
+	if l.src.Size() == 0 {
+		return 0, io.EOF
+	}
+
 	n, err = l.src.Read(p)
 
 	if err != nil && errors.Is(err, io.EOF) {
-- 
2.43.0


From f1894af5519f1537f3c95f06d7a8159aa2021202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:42 +0000
Subject: [PATCH 27/74] fix: show key hierarchy in stable order

Keys were listed in random order of map iteration.
---
 flatjsonl/flattener.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/flatjsonl/flattener.go b/flatjsonl/flattener.go
index 69d086c..af8e1ec 100644
--- a/flatjsonl/flattener.go
+++ b/flatjsonl/flattener.go
@@ -3,6 +3,7 @@ package flatjsonl
 import (
 	"bytes"
 	"fmt"
+	"sort"
 	"strconv"
 	"strings"
 
@@ -396,7 +397,15 @@ func (k KeyHierarchy) Hierarchy() interface{} {
 
 	res := make([]interface{}, 0, len(k.Sub))
 
-	for _, s := range k.Sub {
+	names := make([]string, 0, len(k.Sub))
+	for name := range k.Sub {
+		names = append(names, name)
+	}
+
+	sort.Strings(names)
+
+	for _, name := range names {
+		s := k.Sub[name]
 		res = append(res, s.Hierarchy())
 	}
 
-- 
2.43.0


From 9edfb7f31bd766ee5c6822da2c52b648f1796751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:13 +0000
Subject: [PATCH 28/74] fix: keep truncated keys unique

All keys that exceed -key-limit after a replace were truncated with index 0,
equal results were coalesced in a single column.
---
 flatjsonl/keys.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index d74aa77..034ff9d 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -811,6 +811,23 @@ func (p *Processor) prepareKey(origKey string) (kk string) {
 			i := p.includeKeys[kk]
 			is := strconv.Itoa(i)
 
+			for len(is) <= p.f.KeyLimit {
+				limited := kk[0:(p.f.KeyLimit-len(is))] + is
+
+				if k, taken := p.replaceByKey[limited]; !taken || k == kk {
+					p.replaceByKey[limited] = kk
+
+					break
+				}
+
+				i++
+				is = strconv.Itoa(i)
+			}
+
+			if len(is) > p.f.KeyLimit {
+				return // Too short to tell keys apart.
+			}
+
 			kk = kk[0:(p.f.KeyLimit-len(is))] + is
 
 			p.replaceKeys[ck] = kk
-- 
2.43.0


From 55fa5bf548c762541ad23a09ffcd14f58a582fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:14 +0000
Subject: [PATCH 29/74] fix: read a single key that has empty path segment

Key "" in any part of the path was a panic.
---
 flatjsonl/reader.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/flatjsonl/reader.go b/flatjsonl/reader.go
index 6cd1ba7..069bb93 100644
--- a/flatjsonl/reader.go
+++ b/flatjsonl/reader.go
@@ -217,6 +217,12 @@ func (rd *Reader) Read(sess *readSession) error {
 			path := make([]string, 0, len(kk.path))
 
 			for _, s := range kk.path {
+				if s == "" {
+					path = append(path, s)
+
+					continue
+				}
+
 				if s[0] == '[' && s[len(s)-1] == ']' {
 					s = s[1 : len(s)-1]
 				}
-- 
2.43.0


From 5c202235d5cc7e5803d071efa2202af3b4768c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:47 +0000
Subject: [PATCH 30/74] fix: find the same values for a single key as for
 several keys

Values of case variants, of names with dots and of extracted strings were
missing, elements of arrays and objects were confused.
---
 flatjsonl/flattener.go |  5 +++++
 flatjsonl/processor.go |  5 +++++
 flatjsonl/reader.go    | 35 +++++++++++++++++++++++++++++++++++
 3 files changed, 45 insertions(+)

diff --git a/flatjsonl/flattener.go b/flatjsonl/flattener.go
index af8e1ec..8dcd84b 100644
--- a/flatjsonl/flattener.go
+++ b/flatjsonl/flattener.go
@@ -55,7 +55,12 @@ func (fv *FastWalker) GetKey(seq int64, flatPath []byte, path []string, v *fastj
 	vv := v.Get(path...)
 	if vv != nil {
 		fv.WalkFastJSON(seq, flatPath, 0, path, vv)
+
+		return
 	}
+
+	// Names of properties may have dots, then path is not what the key looks like.
+	fv.WalkFastJSON(seq, nil, 0, nil, v)
 }
 
 // WalkFastJSON iterates fastjson.Value JSON structure.
diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index 71d2fe2..4feaf87 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -553,6 +553,11 @@ func newWriteIterator(p *Processor, pkIndex map[uint64]int, pkDst map[uint64]str
 		}
 	}
 
+	// There are case variants of the single key.
+	if len(pkIndex) > 1 {
+		wi.singleKeyHash = 0
+	}
+
 	wi.lineBufPool = sync.Pool{
 		New: func() interface{} {
 			return &lineBuf{
diff --git a/flatjsonl/reader.go b/flatjsonl/reader.go
index 069bb93..4f57325 100644
--- a/flatjsonl/reader.go
+++ b/flatjsonl/reader.go
@@ -237,6 +237,10 @@ func (rd *Reader) Read(sess *readSession) error {
 		}
 	}
 
+	if rd.singleKeyPath != nil && !rd.singleKeyIsDirect() {
+		rd.singleKeyPath = nil
+	}
+
 	var n int64
 
 	for sess.scanner.Scan() {
@@ -310,6 +314,37 @@ func (rd *Reader) Read(sess *readSession) error {
 	return sess.scanner.Err()
 }
 
+// singleKeyIsDirect checks that value of a single key can only be found by its path.
+func (rd *Reader) singleKeyIsDirect() bool {
+	p := rd.Processor
+
+	// Value may be a part of extracted string.
+	if len(p.extractRegex) > 0 {
+		return false
+	}
+
+	// Both objects and arrays can have such elements.
+	for _, s := range rd.singleKeyPath {
+		if _, err := strconv.Atoi(s); err == nil {
+			return false
+		}
+	}
+
+	variants := 0
+
+	p.flKeys.Range(func(_ uint64, k flKey) bool {
+		for _, key := range p.keys {
+			if k.canonical == key.canonical {
+				variants++
+			}
+		}
+
+		return true
+	})
+
+	return variants <= 1
+}
+
 func (rd *Reader) doLine(w *syncWorker, seq, n int64, sess *readSession) (err error) {
 	finishing := false
 
-- 
2.43.0


From f6bf8b26923e65efe64404dbe94174cc8e19dd1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:48 +0000
Subject: [PATCH 31/74] fix: extract strings for included keys

When scanning of keys is skipped, strings were not known to have included
keys in them.
---
 flatjsonl/keys.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 034ff9d..e391a42 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -562,6 +562,27 @@ func (p *Processor) flKeysInit() {
 			}
 
 			p.flKeys.Store(pk, k)
+
+			// Strings have to be extracted to find keys in them.
+			for i := range path {
+				parent := KeyFromPath(path[:i])
+
+				if i == 0 || path[i] != string(extractJSON) && path[i] != string(extractURL) {
+					continue
+				}
+
+				if _, ok := p.includeKeys[parent]; ok {
+					continue
+				}
+
+				for r, x := range p.extractRegex {
+					if r.MatchString(parent) {
+						p.flKeys.Store(h.hashBytes([]byte(parent)), flKey{path: path[:i], t: TypeString, original: parent, canonical: p.ck(parent), extractor: x})
+
+						break
+					}
+				}
+			}
 		}
 	}
 
-- 
2.43.0


From 09e8b91bfa322e43c6f73762d69c4d2585f779f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:24 +0000
Subject: [PATCH 32/74] fix: continue slowly when memory is over the limit with
 nothing to wait for

---
 flatjsonl/reader.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/flatjsonl/reader.go b/flatjsonl/reader.go
index 4f57325..38f6a74 100644
--- a/flatjsonl/reader.go
+++ b/flatjsonl/reader.go
@@ -249,6 +249,11 @@ func (rd *Reader) Read(sess *readSession) error {
 				atomic.StoreInt64(&rd.Processor.throttle, 0)
 				runtime.GC()
 				time.Sleep(110 * time.Millisecond)
+
+				// Waiting for longer would not help if there are no lines to finish.
+				if atomic.LoadInt64(&rd.Processor.inProgress) == 0 {
+					break
+				}
 			} else {
 				break
 			}
-- 
2.43.0


From f2eac8bb5ee8432451ab65d466e869c4fe40645f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:12 +0000
Subject: [PATCH 33/74] fix: type a column as text when a constant shares it
 with a typed key

---
 flatjsonl/keys.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index e391a42..ec95d6b 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -785,7 +785,7 @@ func (p *Processor) prepareKeys() {
 		if pk.transposeDst == "" {
 			if j, ok := keyExists[pk.replaced]; ok {
 				// Constants and concatenated values are strings.
-				if pk.original == "" || p.cfg.ConcatDelimiter != nil {
+				if pk.original == "" || keys[j].original == "" || p.cfg.ConcatDelimiter != nil {
 					pk.t = TypeString
 				}
 
-- 
2.43.0


From 95f6e578eb8de3b4336f886348a862474960bb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:13 +0000
Subject: [PATCH 34/74] fix: escape quotes in SQLite table names

---
 flatjsonl/sqlite_writer.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/flatjsonl/sqlite_writer.go b/flatjsonl/sqlite_writer.go
index 6f0a11f..65b85c1 100644
--- a/flatjsonl/sqlite_writer.go
+++ b/flatjsonl/sqlite_writer.go
@@ -131,7 +131,7 @@ func (c *SQLiteWriter) insert(seq int64, tn string, values []Value) error {
 	c.rowsTx++
 
 	tableName := tn
-	res := `INSERT INTO "` + tableName + `" VALUES (` + strconv.Itoa(int(seq)) + `,`
+	res := `INSERT INTO "` + c.replacer.Replace(tableName) + `" VALUES (` + strconv.Itoa(int(seq)) + `,`
 	part := 1
 
 	for i, v := range values {
@@ -146,7 +146,7 @@ func (c *SQLiteWriter) insert(seq int64, tn string, values []Value) error {
 
 			part++
 			tableName = tn + partSuffix + strconv.Itoa(part)
-			res = `INSERT INTO "` + tableName + `" VALUES (` + strconv.Itoa(int(seq)) + `,`
+			res = `INSERT INTO "` + c.replacer.Replace(tableName) + `" VALUES (` + strconv.Itoa(int(seq)) + `,`
 		}
 
 		if v.Type != TypeNull && v.Type != TypeAbsent {
@@ -193,7 +193,7 @@ func (c *SQLiteWriter) execTx(res string) error {
 
 func (c *SQLiteWriter) createTable(tn string, keys []flKey, isTransposed bool) error {
 	tableName := tn
-	createTable := `CREATE TABLE "` + tableName + `" (
+	createTable := `CREATE TABLE "` + c.replacer.Replace(tableName) + `" (
 `
 
 	if !isTransposed {
@@ -219,7 +219,7 @@ _seq_id integer,
 
 			part++
 			tableName = tn + partSuffix + strconv.Itoa(part)
-			createTable = `CREATE TABLE "` + tableName + `" (
+			createTable = `CREATE TABLE "` + c.replacer.Replace(tableName) + `" (
 `
 
 			if !isTransposed {
-- 
2.43.0


From 808a6636c9e833f1c599021f9e086a1105a30eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:08 +0000
Subject: [PATCH 35/74] fix: type numbers too big for a float column as text

---
 flatjsonl/keys.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index ec95d6b..8702f7c 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"errors"
 	"fmt"
+	"math"
 	"regexp"
 	"sort"
 	"strconv"
@@ -412,6 +413,8 @@ func (p *Processor) scanAvailableKeys() error {
 
 					if isInt {
 						p.scanKey(pk, parent, path, TypeInt, value == 0)
+					} else if math.IsInf(value, 0) { // Too big for a column of numbers.
+						p.scanKey(pk, parent, path, TypeString, false)
 					} else {
 						p.scanKey(pk, parent, path, TypeFloat, value == 0)
 					}
-- 
2.43.0


From a9abad021491233a6e4caa7c529770654a0af01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:39 +0000
Subject: [PATCH 36/74] fix: close compressed output files and report failures
 of that

---
 flatjsonl/pg_dump_writer.go | 12 +++++++-----
 flatjsonl/writer.go         | 28 +++++++++++++++++++++++-----
 2 files changed, 30 insertions(+), 10 deletions(-)

diff --git a/flatjsonl/pg_dump_writer.go b/flatjsonl/pg_dump_writer.go
index 1634052..9ef972c 100644
--- a/flatjsonl/pg_dump_writer.go
+++ b/flatjsonl/pg_dump_writer.go
@@ -46,8 +46,6 @@ type csvCopier struct {
 
 // NewPGDumpWriter creates an instance of PGDumpWriter.
 func NewPGDumpWriter(fn string, tableName string, p *Processor) (*PGDumpWriter, error) {
-	var err error
-
 	c := &PGDumpWriter{
 		fn:         fn,
 		tableName:  tableName,
@@ -60,19 +58,23 @@ func NewPGDumpWriter(fn string, tableName string, p *Processor) (*PGDumpWriter,
 	if fn == "<nop>" {
 		c.f = nopWriter{}
 	} else {
-		c.f, err = os.Create(fn)
+		f, err := os.Create(fn)
 		if err != nil {
 			return nil, fmt.Errorf("failed to create file: %w", err)
 		}
 
+		c.f = f
+
 		switch {
 		case strings.HasSuffix(fn, ".gz"):
-			c.f = gzip.NewWriter(c.f)
+			c.f = compressedFile{WriteCloser: gzip.NewWriter(f), file: f}
 		case strings.HasSuffix(fn, ".zst"):
-			c.f, err = zstd.NewWriter(c.f, zstd.WithEncoderLevel(zstd.SpeedFastest), zstd.WithLowerEncoderMem(true))
+			zw, err := zstd.NewWriter(f, zstd.WithEncoderLevel(zstd.SpeedFastest), zstd.WithLowerEncoderMem(true))
 			if err != nil {
 				return nil, err
 			}
+
+			c.f = compressedFile{WriteCloser: zw, file: f}
 		}
 	}
 
diff --git a/flatjsonl/writer.go b/flatjsonl/writer.go
index e4d781e..3951c18 100644
--- a/flatjsonl/writer.go
+++ b/flatjsonl/writer.go
@@ -364,6 +364,22 @@ func (nopWriter) Close() error {
 	return nil
 }
 
+// compressedFile closes both the compressor and the file it writes to.
+type compressedFile struct {
+	io.WriteCloser
+	file io.Closer
+}
+
+func (c compressedFile) Close() error {
+	err := c.WriteCloser.Close()
+
+	if clErr := c.file.Close(); err == nil {
+		err = clErr
+	}
+
+	return err
+}
+
 type fileWriter struct {
 	f  io.WriteCloser
 	fn string
@@ -373,30 +389,32 @@ type fileWriter struct {
 }
 
 func newFileWriter(fn string) (*fileWriter, error) {
-	var err error
-
 	c := &fileWriter{}
 	c.fn = fn
 
 	if fn == NopFile {
 		c.f = nopWriter{}
 	} else {
-		c.f, err = os.Create(fn)
+		f, err := os.Create(fn)
 		if err != nil {
 			return nil, fmt.Errorf("failed to create file %s: %w", fn, err)
 		}
 
+		c.f = f
+
 		switch {
 		case strings.HasSuffix(fn, ".gz"):
 			c.compressed = progress.NewCountingWriter(c.f)
-			c.f = gzip.NewWriter(c.compressed)
+			c.f = compressedFile{WriteCloser: gzip.NewWriter(c.compressed), file: f}
 		case strings.HasSuffix(fn, ".zst"):
 			c.compressed = progress.NewCountingWriter(c.f)
 
-			c.f, err = zstd.NewWriter(c.compressed, zstd.WithEncoderLevel(zstd.SpeedFastest), zstd.WithLowerEncoderMem(true))
+			zw, err := zstd.NewWriter(c.compressed, zstd.WithEncoderLevel(zstd.SpeedFastest), zstd.WithLowerEncoderMem(true))
 			if err != nil {
 				return nil, err
 			}
+
+			c.f = compressedFile{WriteCloser: zw, file: f}
 		}
 	}
 
-- 
2.43.0


From 48fe95156fc420301f2fa9b04422f8917893c640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:02 +0000
Subject: [PATCH 37/74] fix: refuse an invalid line prefix expression with an
 error

---
 flatjsonl/processor.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index 4feaf87..8cccb35 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -178,7 +178,12 @@ func NewProcessor(f Flags, cfg Config, inputs ...Input) (*Processor, error) { //
 	}
 
 	if f.MatchLinePrefix != "" {
-		p.rd.MatchPrefix = regexp.MustCompile(f.MatchLinePrefix)
+		r, err := regexp.Compile(f.MatchLinePrefix)
+		if err != nil {
+			return nil, fmt.Errorf("match line prefix: %w", err)
+		}
+
+		p.rd.MatchPrefix = r
 	}
 
 	p.replaceRegex = map[*regexp.Regexp]string{}
-- 
2.43.0


From 5c90fed034bcb88358732c90a8309b9a5dd8ee5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:06 +0000
Subject: [PATCH 38/74] fix: notice gzip input that ends before its checksum

---
 flatjsonl/reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatjsonl/reader.go b/flatjsonl/reader.go
index 38f6a74..d7173d0 100644
--- a/flatjsonl/reader.go
+++ b/flatjsonl/reader.go
@@ -18,8 +18,8 @@ import (
 
 	"github.com/bool64/ctxd"
 	"github.com/bool64/progress"
+	"github.com/klauspost/compress/gzip"
 	"github.com/klauspost/compress/zstd"
-	gzip "github.com/klauspost/pgzip"
 	"github.com/vearutop/fastjson"
 )
 
-- 
2.43.0


From c08673c3c9a08c6a1855218244556e7ba53c9cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:07 +0000
Subject: [PATCH 39/74] fix: report configuration files that can not be decoded
 instead of crashing

---
 flatjsonl/processor.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index 8cccb35..20f9229 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -94,7 +94,7 @@ func loadConfig(value string, cfg *Config) error {
 
 	yerr := yaml.Unmarshal(b, cfg)
 	if yerr != nil {
-		err = json5.Unmarshal(b, cfg)
+		err = unmarshalJSON5(b, cfg)
 		if err != nil {
 			return fmt.Errorf("decode config file: json5: %w, yaml: %s", err, yerr) //nolint
 		}
@@ -103,6 +103,17 @@ func loadConfig(value string, cfg *Config) error {
 	return nil
 }
 
+// unmarshalJSON5 decodes JSON5, the decoder panics on some invalid data.
+func unmarshalJSON5(b []byte, cfg *Config) (err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("%v", r)
+		}
+	}()
+
+	return json5.Unmarshal(b, cfg)
+}
+
 // NewProcessor creates an instance of Processor.
 func NewProcessor(f Flags, cfg Config, inputs ...Input) (*Processor, error) { //nolint:funlen
 	pr := &progress.Progress{
-- 
2.43.0


From c3f74ad9f50fcfef7182aa18d788e4c79227f0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:26 +0000
Subject: [PATCH 40/74] fix: print key hierarchy of input without keys instead
 of crashing

---
 flatjsonl/processor.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index 20f9229..c49ea85 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -350,9 +350,13 @@ func (p *Processor) maybeShowKeys() error {
 	}
 
 	if p.f.ShowKeysHier {
-		b, err := assertjson.MarshalIndentCompact(
-			p.keyHierarchy.Hierarchy().(map[string]interface{})["."], //nolint:errcheck
-			"", " ", 120)
+		var keys interface{} = []interface{}{} // There may be no keys.
+
+		if h, ok := p.keyHierarchy.Hierarchy().(map[string]interface{}); ok {
+			keys = h["."]
+		}
+
+		b, err := assertjson.MarshalIndentCompact(keys, "", " ", 120)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From b71596640e2b0d50ac3b3333b68405cf512fccdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:52 +0000
Subject: [PATCH 41/74] fix: encode keys of the flat list, that may have quotes
 and line breaks

---
 flatjsonl/processor.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index c49ea85..2e2e729 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -1,6 +1,7 @@
 package flatjsonl
 
 import (
+	"bytes"
 	"encoding/json"
 	"errors"
 	"fmt"
@@ -339,7 +340,14 @@ func (p *Processor) maybeShowKeys() error {
 		}
 
 		for _, k := range p.flKeysList {
-			if _, err := fmt.Fprintln(p.Stdout, `"`+k+`",`); err != nil {
+			var b bytes.Buffer
+
+			// Keys may have quotes and control characters, strings always encode.
+			e := json.NewEncoder(&b)
+			e.SetEscapeHTML(false)
+			_ = e.Encode(k)
+
+			if _, err := fmt.Fprintln(p.Stdout, strings.TrimSpace(b.String())+`,`); err != nil {
 				println(err.Error())
 			}
 		}
-- 
2.43.0


From a7aff80177594df75b623365f983567ef8b6a326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:53 +0000
Subject: [PATCH 42/74] fix: keep children of keys that also have scalar values
 in JSON schema

---
 flatjsonl/flattener.go | 15 ++++++---------
 flatjsonl/keys.go      | 10 ++++++++++
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/flatjsonl/flattener.go b/flatjsonl/flattener.go
index 8dcd84b..eda2cfd 100644
--- a/flatjsonl/flattener.go
+++ b/flatjsonl/flattener.go
@@ -333,17 +333,17 @@ func (j *jsonSchema) AddKey(k flKey, keys *xsync.MapOf[uint64, flKey]) {
 	}
 
 	parentSchema := j
-	parentType := TypeObject
+	isArray := false
 
 	for i := len(parents) - 1; i >= 0; i-- {
 		pk := parents[i]
 		name := pk.path[len(pk.path)-1]
 
-		if i != 0 && pk.t == TypeString {
-			pk.t = TypeObject
-		}
+		// A key can have values of different types in different lines.
+		isItem := isArray && len(name) > 2 && name[0] == '[' && name[len(name)-1] == ']'
+		isArray = pk.hasType(TypeArray)
 
-		if parentType == TypeObject {
+		if !isItem {
 			if parentSchema.Properties == nil {
 				parentSchema.Properties = make(map[string]*jsonSchema)
 			}
@@ -355,15 +355,12 @@ func (j *jsonSchema) AddKey(k flKey, keys *xsync.MapOf[uint64, flKey]) {
 
 			parentSchema.Properties[name] = property
 			parentSchema = property
-
-			parentType = pk.t
-		} else if parentType == TypeArray {
+		} else {
 			if parentSchema.Items == nil {
 				parentSchema.Items = &jsonSchema{}
 			}
 
 			parentSchema = parentSchema.Items
-			parentType = pk.t
 		}
 	}
 
diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 8702f7c..dc4402c 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -56,6 +56,16 @@ func (k *flKey) UpdateType(u Type) {
 	k.t = k.t.Update(u)
 }
 
+func (k *flKey) hasType(u Type) bool {
+	for _, t := range k.tt {
+		if t == u {
+			return true
+		}
+	}
+
+	return false
+}
+
 type intOrString struct {
 	t Type
 	i int
-- 
2.43.0


From 51301aa0cc0def32bfcc4ff13ee7daa54fc67f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:54 +0000
Subject: [PATCH 43/74] fix: name captures of line prefix in JSON schema

---
 flatjsonl/flattener.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/flatjsonl/flattener.go b/flatjsonl/flattener.go
index eda2cfd..9e318c9 100644
--- a/flatjsonl/flattener.go
+++ b/flatjsonl/flattener.go
@@ -339,6 +339,10 @@ func (j *jsonSchema) AddKey(k flKey, keys *xsync.MapOf[uint64, flKey]) {
 		pk := parents[i]
 		name := pk.path[len(pk.path)-1]
 
+		if pk.parent == 0 {
+			name = strings.Join(pk.path, ".") // Captures of line prefix are not nested.
+		}
+
 		// A key can have values of different types in different lines.
 		isItem := isArray && len(name) > 2 && name[0] == '[' && name[len(name)-1] == ']'
 		isArray = pk.hasType(TypeArray)
-- 
2.43.0


From 3c33163926406149cb9b38d0f99477ee7708984c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:56 +0000
Subject: [PATCH 44/74] fix: list strings next to mixed types in JSON schema

---
 flatjsonl/keys.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index dc4402c..d3346d4 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -174,7 +174,7 @@ func (p *Processor) scanKey(pk, parent uint64, path []string, t Type, isZero boo
 
 	updType := false
 
-	if k.t != t {
+	if k.t != t || !k.hasType(t) {
 		k.UpdateType(t)
 
 		updType = true
-- 
2.43.0


From 1a5b729dbc7cce4042562a27c0abd9a9dbbd2c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:57 +0000
Subject: [PATCH 45/74] fix: list types of JSON schema in stable order

---
 flatjsonl/flattener.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flatjsonl/flattener.go b/flatjsonl/flattener.go
index 9e318c9..11cec74 100644
--- a/flatjsonl/flattener.go
+++ b/flatjsonl/flattener.go
@@ -309,6 +309,7 @@ func (j *jsonSchema) AddType(t Type) {
 	}
 
 	j.Types = append(j.Types, tt)
+	sort.Strings(j.Types)
 }
 
 func (j *jsonSchema) AddKey(k flKey, keys *xsync.MapOf[uint64, flKey]) {
-- 
2.43.0


From 1b11f1813ee6a58af6c8691e473efbcfd1dd6e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:29 +0000
Subject: [PATCH 46/74] fix: do not list columns of case variants as skipped
 keys

---
 flatjsonl/processor.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index 2e2e729..27acb96 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -390,6 +390,11 @@ func (p *Processor) showKeysInfo() {
 	_, _ = fmt.Fprintln(p.Stdout, "keys info:")
 
 	markIncluded := len(p.cfg.IncludeKeys) > 0 || len(p.cfg.IncludeKeysRegex) > 0
+	includedKeys := make(map[string]bool, len(p.includeKeys))
+
+	for k := range p.includeKeys {
+		includedKeys[p.ck(k)] = true
+	}
 
 	i := 0
 	for _, k := range p.keys {
@@ -402,7 +407,7 @@ func (p *Processor) showKeysInfo() {
 		}
 
 		if markIncluded {
-			if _, included := p.includeKeys[k.original]; included {
+			if includedKeys[p.ck(k.original)] {
 				line += ", INCLUDED"
 			}
 		}
@@ -420,7 +425,7 @@ func (p *Processor) showKeysInfo() {
 
 	if markIncluded {
 		for _, k := range p.flKeysList {
-			if _, included := p.includeKeys[k]; !included {
+			if !includedKeys[p.ck(k)] {
 				i++
 
 				_, _ = fmt.Fprintln(p.Stdout, strconv.Itoa(i)+":", k+", SKIPPED")
-- 
2.43.0


From 110078424c32e48bce0cde51ecb14c91a9af44a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:59 +0000
Subject: [PATCH 47/74] fix: keep nested keys of high cardinality out of JSON
 schema

---
 flatjsonl/keys.go | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index d3346d4..e9d8c7a 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -495,12 +495,6 @@ func (p *Processor) prepareScannedKeys() {
 		}
 
 		for _, hc := range hcOrig {
-			if k.original == hc {
-				if p.f.ShowJSONSchema {
-					p.jsonSchema.AddKey(k, p.flKeys)
-				}
-			}
-
 			if len(k.original) > len(hc) && k.original[len(hc)] != '.' {
 				// Not a child: prefix ends in the middle of a segment.
 				continue
-- 
2.43.0


From 0356305439df4945b80dfd9870c0f2773d1dc129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:29 +0000
Subject: [PATCH 48/74] fix: compare all columns of the same name in csvequals

---
 cmd/csvequals/main.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/cmd/csvequals/main.go b/cmd/csvequals/main.go
index 552f02d..6819771 100644
--- a/cmd/csvequals/main.go
+++ b/cmd/csvequals/main.go
@@ -9,6 +9,7 @@ import (
 	"io"
 	"log"
 	"os"
+	"strconv"
 	"strings"
 
 	"github.com/bool64/progress"
@@ -119,6 +120,9 @@ func main() {
 			keys1 = append(keys1, r1...)
 			keys2 = append(keys2, r2...)
 
+			numberDuplicates(keys1)
+			numberDuplicates(keys2)
+
 			for _, k := range keys1 {
 				m1[k] = ""
 			}
@@ -155,6 +159,19 @@ func main() {
 	println("files are equal")
 }
 
+// numberDuplicates makes repeating names of columns unique.
+func numberDuplicates(keys []string) {
+	seen := make(map[string]int, len(keys))
+
+	for i, k := range keys {
+		seen[k]++
+
+		if n := seen[k]; n > 1 {
+			keys[i] = k + "\x00" + strconv.Itoa(n)
+		}
+	}
+}
+
 func mapDiff(m1, m2 map[string]string) []string {
 	var diff []string //nolint:prealloc
 
-- 
2.43.0


From 4fc0ac5e784fcd1d93c7a827ca2df54ee1b9ae33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:14 +0000
Subject: [PATCH 49/74] fix: decode JSON5 configuration as JSON5, comments are
 no YAML values

---
 flatjsonl/processor.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index 27acb96..5b26ae7 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -93,12 +93,16 @@ func loadConfig(value string, cfg *Config) error {
 		return fmt.Errorf("read config file: %w", err)
 	}
 
-	yerr := yaml.Unmarshal(b, cfg)
-	if yerr != nil {
-		err = unmarshalJSON5(b, cfg)
-		if err != nil {
-			return fmt.Errorf("decode config file: json5: %w, yaml: %s", err, yerr) //nolint
-		}
+	// Comments of JSON5 may look like values of YAML.
+	var c Config
+	if err = unmarshalJSON5(b, &c); err == nil {
+		*cfg = c
+
+		return nil
+	}
+
+	if yerr := yaml.Unmarshal(b, cfg); yerr != nil {
+		return fmt.Errorf("decode config file: json5: %w, yaml: %s", err, yerr) //nolint
 	}
 
 	return nil
-- 
2.43.0


From 8113034425645040a9410a6730ce56ce6633383a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:43 +0000
Subject: [PATCH 50/74] fix: apply overlapping expressions in stable order

---
 flatjsonl/keys.go      | 24 ++++++++++++------------
 flatjsonl/processor.go | 15 ++++++---------
 flatjsonl/regex.go     | 25 +++++++++++++++++++++++++
 3 files changed, 43 insertions(+), 21 deletions(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index e9d8c7a..5666992 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -125,9 +125,9 @@ func (p *Processor) initKey(pk, parent uint64, path []string, t Type, isZero boo
 		}
 	}
 
-	for r, x := range p.extractRegex {
-		if r.MatchString(key) {
-			k.extractor = x
+	for _, er := range p.extractRegex {
+		if er.r.MatchString(key) {
+			k.extractor = er.x
 
 			break
 		}
@@ -560,9 +560,9 @@ func (p *Processor) flKeysInit() {
 				canonical: p.ck(key),
 			}
 
-			for r, x := range p.extractRegex {
-				if r.MatchString(key) {
-					k.extractor = x
+			for _, er := range p.extractRegex {
+				if er.r.MatchString(key) {
+					k.extractor = er.x
 
 					break
 				}
@@ -582,9 +582,9 @@ func (p *Processor) flKeysInit() {
 					continue
 				}
 
-				for r, x := range p.extractRegex {
-					if r.MatchString(parent) {
-						p.flKeys.Store(h.hashBytes([]byte(parent)), flKey{path: path[:i], t: TypeString, original: parent, canonical: p.ck(parent), extractor: x})
+				for _, er := range p.extractRegex {
+					if er.r.MatchString(parent) {
+						p.flKeys.Store(h.hashBytes([]byte(parent)), flKey{path: path[:i], t: TypeString, original: parent, canonical: p.ck(parent), extractor: er.x})
 
 						break
 					}
@@ -862,12 +862,12 @@ func (p *Processor) prepareKey(origKey string) (kk string) {
 		}
 	}()
 
-	for reg, rep := range p.replaceRegex {
+	for _, rr := range p.replaceRegex {
 		kr := origKey
 
-		matches := reg.FindStringSubmatch(origKey)
+		matches := rr.r.FindStringSubmatch(origKey)
 		if matches != nil {
-			kr = rep
+			kr = rr.rep
 
 			for i, m := range matches {
 				if i == 0 {
diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index 5b26ae7..f42f4b6 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -40,8 +40,8 @@ type Processor struct {
 	includeKeys  map[string]int
 	includeRegex []*regexp.Regexp
 	excludeRegex []*regexp.Regexp
-	replaceRegex map[*regexp.Regexp]string
-	extractRegex map[*regexp.Regexp]extractor
+	replaceRegex []replaceRegex
+	extractRegex []extractRegex
 	constVals    map[int]string
 
 	replaceKeys  map[string]string
@@ -202,9 +202,6 @@ func NewProcessor(f Flags, cfg Config, inputs ...Input) (*Processor, error) { //
 		p.rd.MatchPrefix = r
 	}
 
-	p.replaceRegex = map[*regexp.Regexp]string{}
-	p.extractRegex = map[*regexp.Regexp]extractor{}
-
 	for _, reg := range p.cfg.ExcludeKeysRegex {
 		r, err := regex(reg)
 		if err != nil {
@@ -223,22 +220,22 @@ func NewProcessor(f Flags, cfg Config, inputs ...Input) (*Processor, error) { //
 		p.includeRegex = append(p.includeRegex, r)
 	}
 
-	for reg, rep := range p.cfg.ReplaceKeysRegex {
+	for _, reg := range sortedNames(p.cfg.ReplaceKeysRegex) {
 		r, err := regex(reg)
 		if err != nil {
 			return nil, fmt.Errorf("include keys: %w", err)
 		}
 
-		p.replaceRegex[r] = rep
+		p.replaceRegex = append(p.replaceRegex, replaceRegex{r: r, rep: p.cfg.ReplaceKeysRegex[reg]})
 	}
 
-	for reg, x := range p.cfg.ExtractValuesRegex {
+	for _, reg := range sortedNames(p.cfg.ExtractValuesRegex) {
 		r, err := regex(reg)
 		if err != nil {
 			return nil, fmt.Errorf("include keys: %w", err)
 		}
 
-		p.extractRegex[r] = x.Extractor()
+		p.extractRegex = append(p.extractRegex, extractRegex{r: r, x: p.cfg.ExtractValuesRegex[reg].Extractor()})
 	}
 
 	go p.watchMemUsage()
diff --git a/flatjsonl/regex.go b/flatjsonl/regex.go
index 9dad17c..798a8f5 100644
--- a/flatjsonl/regex.go
+++ b/flatjsonl/regex.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"fmt"
 	"regexp"
+	"sort"
 	"strings"
 )
 
@@ -27,6 +28,30 @@ func PrepareRegex(reg string) string {
 
 var trimSpaces = regexp.MustCompile(`\s+`)
 
+// replaceRegex and extractRegex apply in the order of their expressions.
+type (
+	replaceRegex struct {
+		r   *regexp.Regexp
+		rep string
+	}
+
+	extractRegex struct {
+		r *regexp.Regexp
+		x extractor
+	}
+)
+
+func sortedNames[V any](m map[string]V) []string {
+	names := make([]string, 0, len(m))
+	for name := range m {
+		names = append(names, name)
+	}
+
+	sort.Strings(names)
+
+	return names
+}
+
 func regex(reg string) (*regexp.Regexp, error) {
 	if reg == "" {
 		return nil, errors.New("empty regexp")
-- 
2.43.0


From 8abbd8b4aa0cce8e01e91add92fd56b798e954fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:51 +0000
Subject: [PATCH 51/74] fix: create and fill transposed SQLite tables in stable
 order

---
 flatjsonl/sqlite_writer.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/flatjsonl/sqlite_writer.go b/flatjsonl/sqlite_writer.go
index 65b85c1..713fd53 100644
--- a/flatjsonl/sqlite_writer.go
+++ b/flatjsonl/sqlite_writer.go
@@ -21,7 +21,9 @@ type SQLiteWriter struct {
 	maxCols   int
 
 	transposed map[string]*baseWriter
-	b          *baseWriter
+
+	sortedTransposed []string
+	b                *baseWriter
 }
 
 // NewSQLiteWriter creates an instance of SQLiteWriter.
@@ -59,12 +61,14 @@ func (c *SQLiteWriter) SetupKeys(keys []flKey) error {
 	c.b.p = c.p
 	c.b.setupKeys(keys)
 	c.transposed = map[string]*baseWriter{}
+	c.sortedTransposed = sortedNames(c.b.transposed)
 
 	if err := c.createTable(c.tableName, c.b.filteredKeys, false); err != nil {
 		return err
 	}
 
-	for dst, tw := range c.b.transposed {
+	for _, dst := range c.sortedTransposed {
+		tw := c.b.transposed[dst]
 		tw.extName = c.table(dst)
 
 		if err := c.createTable(c.table(dst), tw.filteredKeys, true); err != nil {
@@ -108,7 +112,8 @@ func (c *SQLiteWriter) ReceiveRow(seq int64, values []Value) error {
 		}
 	}
 
-	for dst, tw := range c.transposed {
+	for _, dst := range c.sortedTransposed {
+		tw := c.transposed[dst]
 		vv := tw.receiveTransposedRowValues(seq, values)
 
 		for _, r := range vv {
-- 
2.43.0


From 36979f11b9eef47a12bbef05cf85634b65a8c16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:41 +0000
Subject: [PATCH 52/74] fix: do not decode parts of URL endlessly

---
 flatjsonl/flattener.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/flatjsonl/flattener.go b/flatjsonl/flattener.go
index 11cec74..3a1ddce 100644
--- a/flatjsonl/flattener.go
+++ b/flatjsonl/flattener.go
@@ -38,6 +38,7 @@ type FastWalker struct {
 	KeepJSON       map[string]bool
 
 	buf []byte
+	url *string // Text that is being decoded as URL.
 }
 
 func (fv *FastWalker) configure(p *Processor) {
@@ -174,6 +175,11 @@ func (fv *FastWalker) walkFastJSONString(seq int64, flatPath []byte, pl int, pat
 
 	x := fv.FnString(seq, flatPath, pl, path, s)
 
+	// Part of URL may be the same text, there is nothing more to decode in it.
+	if x != nil && x.name() == extractURL && fv.url != nil && *fv.url == string(s) {
+		x = nil
+	}
+
 	if x != nil { //nolint:nestif
 		xs, name, err := x.extract(s)
 		if err == nil {
@@ -182,6 +188,14 @@ func (fv *FastWalker) walkFastJSONString(seq int64, flatPath []byte, pl int, pat
 			defer parserPool.Put(p)
 
 			if v, err := p.ParseBytes(xs); err == nil {
+				if name == extractURL {
+					url := string(s)
+
+					defer func(prev *string) { fv.url = prev }(fv.url)
+
+					fv.url = &url
+				}
+
 				pl := len(flatPath)
 
 				flatPath = append(flatPath, []byte("."+name)...)
-- 
2.43.0


From 78806e8fdb070494993dd058222dccf7ee660ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:20 +0000
Subject: [PATCH 53/74] fix: replace case variants of a key in stable order

---
 flatjsonl/keys.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 5666992..b7eaebe 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -741,7 +741,8 @@ func (p *Processor) prepareKeys() {
 	p.replaceKeys = make(map[string]string)
 	p.replaceByKey = make(map[string]string)
 
-	for k, r := range p.cfg.ReplaceKeys {
+	for _, k := range sortedNames(p.cfg.ReplaceKeys) {
+		r := p.cfg.ReplaceKeys[k]
 		mk := p.ck(k)
 
 		p.replaceByKey[r] = mk
-- 
2.43.0


From 12e8d8bc39ef9e48c331239b3052e3e28238f7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:04 +0000
Subject: [PATCH 54/74] fix: name column of included case variants after the
 first of them

---
 flatjsonl/keys.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index b7eaebe..809dbc4 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -540,10 +540,17 @@ func (p *Processor) prepareScannedKeys() {
 }
 
 func (p *Processor) flKeysInit() {
+	listed := make(map[string]string, len(p.flKeysList))
+
 	if p.flKeys.Size() == 0 && len(p.includeKeys) > 0 {
 		h := newHasher()
 
-		for key := range p.includeKeys {
+		names := sortedNames(p.includeKeys)
+		sort.SliceStable(names, func(i, j int) bool {
+			return p.includeKeys[names[i]] < p.includeKeys[names[j]]
+		})
+
+		for _, key := range names {
 			if strings.HasPrefix(key, "const:") {
 				continue
 			}
@@ -570,6 +577,12 @@ func (p *Processor) flKeysInit() {
 
 			p.flKeys.Store(pk, k)
 
+			// Case variants share a column, that is named after the first of them.
+			if _, ok := p.canonicalKeys[k.canonical]; !ok {
+				p.canonicalKeys[k.canonical] = k
+				listed[k.canonical] = key
+			}
+
 			// Strings have to be extracted to find keys in them.
 			for i := range path {
 				parent := KeyFromPath(path[:i])
@@ -594,7 +607,6 @@ func (p *Processor) flKeysInit() {
 	}
 
 	// Case variants share a column, that is named after the one that was found first.
-	listed := make(map[string]string, len(p.flKeysList))
 	for _, k := range p.flKeysList {
 		listed[p.ck(k)] = k
 	}
-- 
2.43.0


From 87b580575aea9b10fa940988c2b4776e65efe039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:21 +0000
Subject: [PATCH 55/74] fix: transpose keys of nested prefixes in stable order

---
 flatjsonl/keys.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 809dbc4..7a90396 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -113,7 +113,11 @@ func (p *Processor) initKey(pk, parent uint64, path []string, t Type, isZero boo
 	k.canonical = p.ck(key)
 	k.parent = parent
 
-	for tk, dst := range p.cfg.Transpose {
+	names := sortedNames(p.cfg.Transpose)
+	for i := len(names) - 1; i >= 0; i-- { // Longer of nested prefixes come first.
+		tk := names[i]
+		dst := p.cfg.Transpose[tk]
+
 		if len(k.original) > len(tk) && k.original[len(tk)] != '.' {
 			continue
 		}
-- 
2.43.0


From b5a5d8be254d33f70004bf449f67b1c92c99273d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:21 +0000
Subject: [PATCH 56/74] fix: keep elements of several keys transposed to one
 table apart

---
 flatjsonl/keys.go   |  2 ++
 flatjsonl/writer.go | 21 ++++++++++++++-------
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 7a90396..f6c6442 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -24,6 +24,7 @@ type flKey struct {
 	canonical        string
 	replaced         string
 	transposeDst     string
+	transposeFrom    string
 	transposeKey     intOrString
 	transposeTrimmed string
 	extractor        extractor
@@ -124,6 +125,7 @@ func (p *Processor) initKey(pk, parent uint64, path []string, t Type, isZero boo
 
 		if len(k.original) > len(tk) && strings.HasPrefix(k.original, tk) {
 			scanTransposedKey(dst, tk, &k)
+			k.transposeFrom = tk
 
 			break
 		}
diff --git a/flatjsonl/writer.go b/flatjsonl/writer.go
index 3951c18..a67f7a3 100644
--- a/flatjsonl/writer.go
+++ b/flatjsonl/writer.go
@@ -136,6 +136,12 @@ type idxKey struct {
 	k   flKey
 }
 
+// transposedRow identifies an element, several prefixes may share a table.
+type transposedRow struct {
+	from string
+	key  string
+}
+
 type baseWriter struct {
 	p *Processor
 
@@ -263,7 +269,7 @@ func (b *baseWriter) receiveRow(seq int64, values []Value) (transposedRows [][]s
 
 	b.row = b.row[:0]
 
-	transposedRowsIdx := map[string][]string{}
+	transposedRowsIdx := map[transposedRow][]string{}
 
 	for _, i := range b.keyIndexes {
 		v := values[i]
@@ -281,13 +287,14 @@ func (b *baseWriter) receiveRow(seq int64, values []Value) (transposedRows [][]s
 			k := b.keys[i]
 
 			transposeKey := k.transposeKey.String()
-			row := transposedRowsIdx[transposeKey]
+			id := transposedRow{from: k.transposeFrom, key: transposeKey}
+			row := transposedRowsIdx[id]
 
 			if row == nil {
 				row = make([]string, len(b.trimmedKeys))
 				row[0] = strconv.Itoa(int(seq)) // Add sequence.
 				row[1] = transposeKey           // Add array idx/object property.
-				transposedRowsIdx[transposeKey] = row
+				transposedRowsIdx[id] = row
 				transposedRows = append(transposedRows, row)
 			}
 
@@ -309,7 +316,7 @@ func (b *baseWriter) receiveTransposedRowValues(seq int64, values []Value) (tran
 		return nil
 	}
 
-	transposedRowsIdx := map[string][]Value{}
+	transposedRowsIdx := map[transposedRow][]Value{}
 
 	for _, i := range b.keyIndexes {
 		v := values[i]
@@ -320,8 +327,8 @@ func (b *baseWriter) receiveTransposedRowValues(seq int64, values []Value) (tran
 
 		k := b.keys[i]
 
-		transposeKey := k.transposeKey.String()
-		row := transposedRowsIdx[transposeKey]
+		id := transposedRow{from: k.transposeFrom, key: k.transposeKey.String()}
+		row := transposedRowsIdx[id]
 
 		if row == nil {
 			row = make([]Value, len(b.trimmedKeys))
@@ -330,7 +337,7 @@ func (b *baseWriter) receiveTransposedRowValues(seq int64, values []Value) (tran
 				Number: float64(seq),
 			} // Add sequence.
 			row[1] = k.transposeKey.Value() // Add array idx/object property.
-			transposedRowsIdx[transposeKey] = row
+			transposedRowsIdx[id] = row
 			transposedRows = append(transposedRows, row)
 		}
 
-- 
2.43.0


From cd70b8c5ab7ca49dc9c7e0c2a1c0876991a059ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:41 +0000
Subject: [PATCH 57/74] fix: repeat input when -dbg-loop-input-size is set

---
 flatjsonl/app.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/flatjsonl/app.go b/flatjsonl/app.go
index f433546..a778b6a 100644
--- a/flatjsonl/app.go
+++ b/flatjsonl/app.go
@@ -66,7 +66,13 @@ func Main() {
 		inputs[0].FileName = ""
 	}
 
-	proc, err := New(f)
+	var cfg Config
+
+	if err := loadConfig(f.Config, &cfg); err != nil {
+		log.Fatal(err)
+	}
+
+	proc, err := NewProcessor(f, cfg, inputs...)
 	if err != nil {
 		log.Fatal(err)
 	}
-- 
2.43.0


From 550c4571bd032ea33d0fc51920a03de315756b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:46 +0000
Subject: [PATCH 58/74] fix: keep config of the caller apart from other
 processors

---
 flatjsonl/processor.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index f42f4b6..6463406 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -126,6 +126,10 @@ func NewProcessor(f Flags, cfg Config, inputs ...Input) (*Processor, error) { //
 		IncrementalSpeed: true,
 	}
 
+	// Lists of the caller's config are extended, they may have spare capacity that is shared with other processors.
+	cfg.IncludeKeys = cfg.IncludeKeys[:len(cfg.IncludeKeys):len(cfg.IncludeKeys)]
+	cfg.KeepJSON = cfg.KeepJSON[:len(cfg.KeepJSON):len(cfg.KeepJSON)]
+
 	if f.GetKey != "" {
 		cfg.IncludeKeys = append(cfg.IncludeKeys, f.GetKey)
 	}
-- 
2.43.0


From 63110cedc84193114467dd77ff8e6f435f11d3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:41 +0000
Subject: [PATCH 59/74] fix: find all values of a single key in a line

---
 flatjsonl/flattener.go | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/flatjsonl/flattener.go b/flatjsonl/flattener.go
index 3a1ddce..3707695 100644
--- a/flatjsonl/flattener.go
+++ b/flatjsonl/flattener.go
@@ -37,6 +37,9 @@ type FastWalker struct {
 	ExtractStrings bool
 	KeepJSON       map[string]bool
 
+	only    []byte // Flat path of a single key to visit.
+	onlyBuf []byte
+
 	buf []byte
 	url *string // Text that is being decoded as URL.
 }
@@ -51,17 +54,26 @@ func (fv *FastWalker) configure(p *Processor) {
 	}
 }
 
-// GetKey walks into a single key.
-func (fv *FastWalker) GetKey(seq int64, flatPath []byte, path []string, v *fastjson.Value) {
-	vv := v.Get(path...)
-	if vv != nil {
-		fv.WalkFastJSON(seq, flatPath, 0, path, vv)
+// GetKey walks into a single key, every value that the key has in a line is visited.
+func (fv *FastWalker) GetKey(seq int64, flatPath []byte, _ []string, v *fastjson.Value) {
+	fv.only = flatPath
+	defer func() { fv.only = nil }()
 
-		return
+	fv.onlyBuf = fv.onlyBuf[:0]
+	if cap(fv.onlyBuf) == 0 {
+		fv.onlyBuf = make([]byte, 0, 1000)
+	}
+
+	fv.WalkFastJSON(seq, fv.onlyBuf, 0, nil, v)
+}
+
+// skip tells elements that do not lead to the single key.
+func (fv *FastWalker) skip(flatPath []byte) bool {
+	if fv.only == nil {
+		return false
 	}
 
-	// Names of properties may have dots, then path is not what the key looks like.
-	fv.WalkFastJSON(seq, nil, 0, nil, v)
+	return !bytes.HasPrefix(fv.only, flatPath) || len(flatPath) < len(fv.only) && fv.only[len(flatPath)] != '.'
 }
 
 // WalkFastJSON iterates fastjson.Value JSON structure.
@@ -124,6 +136,10 @@ func (fv *FastWalker) walkFastJSONArray(seq int64, flatPath []byte, pl int, path
 		flatPath := append(flatPath, '.')
 		flatPath = append(flatPath, k...)
 
+		if fv.skip(flatPath) {
+			continue
+		}
+
 		if fv.WantPath {
 			fv.WalkFastJSON(seq, flatPath, pl, append(path, k), v)
 		} else {
@@ -159,6 +175,10 @@ func (fv *FastWalker) walkFastJSONObject(seq int64, flatPath []byte, pl int, pat
 		flatPath := append(flatPath, '.')
 		flatPath = append(flatPath, key...)
 
+		if fv.skip(flatPath) {
+			return
+		}
+
 		if fv.WantPath {
 			fv.WalkFastJSON(seq, flatPath, pl, append(path, string(key)), v)
 		} else {
-- 
2.43.0


From fa4180cf831102da13b7c95f4236403f9947ba2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:57 +0000
Subject: [PATCH 60/74] fix: declare timestamps only for columns of timestamps

---
 flatjsonl/flattener.go      |  2 +-
 flatjsonl/keys.go           | 46 ++++++++++++++++++++++++++++++++++++-
 flatjsonl/pg_dump_writer.go |  5 ++--
 flatjsonl/processor.go      |  7 +++++-
 flatjsonl/type.go           |  6 +++++
 5 files changed, 60 insertions(+), 6 deletions(-)

diff --git a/flatjsonl/flattener.go b/flatjsonl/flattener.go
index 3707695..b96526b 100644
--- a/flatjsonl/flattener.go
+++ b/flatjsonl/flattener.go
@@ -314,7 +314,7 @@ func (j *jsonSchema) AddType(t Type) {
 	var tt string
 
 	switch t {
-	case TypeString:
+	case TypeString, TypeTime:
 		tt = "string"
 	case TypeInt:
 		tt = "integer"
diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index f6c6442..0236152 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -10,6 +10,7 @@ import (
 	"strconv"
 	"strings"
 	"sync/atomic"
+	"time"
 	"unicode"
 
 	"github.com/cespare/xxhash/v2"
@@ -201,6 +202,49 @@ func (p *Processor) scanKey(pk, parent uint64, path []string, t Type, isZero boo
 	return k.extractor, false
 }
 
+// stringType tells strings that are written as timestamps from others.
+func (p *Processor) stringType(path []string, value []byte) Type {
+	if len(p.cfg.ParseTime) == 0 {
+		return TypeString
+	}
+
+	layout, ok := p.cfg.ParseTime[KeyFromPath(path)]
+	if !ok {
+		return TypeString
+	}
+
+	if p.f.FieldLimit > 0 && len(value) > p.f.FieldLimit {
+		value = value[:p.f.FieldLimit]
+	}
+
+	s := string(value)
+
+	if layout != "RAW" {
+		t, err := time.Parse(layout, s)
+		if err != nil {
+			return TypeString
+		}
+
+		outFmt := p.cfg.OutputTimeFormat
+		if outFmt == "" {
+			outFmt = time.RFC3339
+		}
+
+		s = t.Format(outFmt)
+	}
+
+	for _, l := range []string{
+		time.RFC3339, "2006-01-02 15:04:05Z07:00", "2006-01-02T15:04:05", "2006-01-02 15:04:05", "2006-01-02",
+	} {
+		// Time zone of output may move the first and the last years out of range.
+		if t, err := time.Parse(l, s); err == nil && t.Year() > 1 && t.Year() < 9999 {
+			return TypeTime
+		}
+	}
+
+	return TypeString
+}
+
 func (p *Processor) collectKeyCardinality(k flKey) {
 	parentCardinality := p.parentCardinality[k.parent]
 	parentCardinality++
@@ -414,7 +458,7 @@ func (p *Processor) scanAvailableKeys() error {
 				w.FnString = func(_ int64, flatPath []byte, pl int, path []string, value []byte) extractor {
 					pk, parent := h.hashParentBytes(flatPath, pl)
 
-					x, _ := p.scanKey(pk, parent, path, TypeString, len(value) == 0)
+					x, _ := p.scanKey(pk, parent, path, p.stringType(path, value), len(value) == 0)
 
 					return x
 				}
diff --git a/flatjsonl/pg_dump_writer.go b/flatjsonl/pg_dump_writer.go
index 9ef972c..b233a47 100644
--- a/flatjsonl/pg_dump_writer.go
+++ b/flatjsonl/pg_dump_writer.go
@@ -294,9 +294,8 @@ func (c *PGDumpWriter) createTable(tn string, keys []flKey, isTransposed bool) e
 			tp = " FLOAT8"
 		case TypeString:
 			tp = " VARCHAR"
-			if _, ok := c.p.cfg.ParseTime[k.original]; ok {
-				tp = " TIMESTAMP"
-			}
+		case TypeTime:
+			tp = " TIMESTAMP"
 		case TypeAbsent, TypeNull:
 			tp = " VARCHAR"
 		case TypeJSON, TypeObject, TypeArray:
diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index 6463406..94d4217 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -405,7 +405,12 @@ func (p *Processor) showKeysInfo() {
 	for _, k := range p.keys {
 		i++
 
-		line := k.replaced + ", TYPE " + string(k.t)
+		t := k.t
+		if t == TypeTime {
+			t = TypeString
+		}
+
+		line := k.replaced + ", TYPE " + string(t)
 
 		if k.replaced != k.original {
 			line = k.original + ", REPLACED WITH " + line
diff --git a/flatjsonl/type.go b/flatjsonl/type.go
index d513a06..6560fa2 100644
--- a/flatjsonl/type.go
+++ b/flatjsonl/type.go
@@ -13,6 +13,7 @@ const (
 	TypeBool   = Type("bool")
 	TypeNull   = Type("null")
 	TypeJSON   = Type("json")
+	TypeTime   = Type("time") // String that is written as a timestamp.
 	TypeAbsent = Type("")
 )
 
@@ -51,6 +52,11 @@ func (t Type) Update(u Type) Type {
 		return t
 	}
 
+	// Timestamps can only be stored together with other scalar values as strings.
+	if t == TypeTime || u == TypeTime {
+		return TypeString
+	}
+
 	// JSON literals can only be stored together with scalar values as strings.
 	if t == TypeJSON || u == TypeJSON {
 		return TypeString
-- 
2.43.0


From 288f237e0b77af5557b4a53c78532f3476ab53c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:20 +0000
Subject: [PATCH 61/74] fix: declare text for joined values of key spellings

---
 flatjsonl/keys.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 0236152..7d106f9 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -661,6 +661,8 @@ func (p *Processor) flKeysInit() {
 		listed[p.ck(k)] = k
 	}
 
+	spellings := make(map[string]int)
+
 	p.flKeys.Range(func(_ uint64, value flKey) bool {
 		if value.t == TypeObject || value.t == TypeArray {
 			return true
@@ -679,6 +681,12 @@ func (p *Processor) flKeysInit() {
 		value.isZero = value.isZero && v.isZero
 		value.t = v.t.Update(value.t)
 
+		// Concatenated values are strings.
+		spellings[value.canonical]++
+		if spellings[value.canonical] > 1 && p.cfg.ConcatDelimiter != nil {
+			value.t = TypeString
+		}
+
 		if k, ok := listed[value.canonical]; ok && k != value.original {
 			t, isZero := value.t, value.isZero
 			value = v
-- 
2.43.0


From 32379fca5d5d5fda52cf689558ca92b144f4b354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:39 +0000
Subject: [PATCH 62/74] fix: do not fail lines on a negative field limit

---
 flatjsonl/processor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index 94d4217..47c993e 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -614,7 +614,7 @@ func newWriteIterator(p *Processor, pkIndex map[uint64]int, pkDst map[uint64]str
 	wi.pkDst = pkDst
 	wi.pkTimeFmt = pkTimeFmt
 	wi.p = p
-	wi.fieldLimit = p.f.FieldLimit
+	wi.fieldLimit = max(p.f.FieldLimit, 0)
 	wi.outTimeFmt = p.cfg.OutputTimeFormat
 
 	if wi.outTimeFmt == "" {
-- 
2.43.0


From da0801702d2e36a6dc466df5f1336856da1bdf76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:53 +0000
Subject: [PATCH 63/74] fix: read all lines with extreme values of limits and
 offsets

---
 flatjsonl/processor.go | 2 +-
 flatjsonl/reader.go    | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index 47c993e..30f2d8c 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -152,7 +152,7 @@ func NewProcessor(f Flags, cfg Config, inputs ...Input) (*Processor, error) { //
 			Concurrency:    f.Concurrency,
 			AddSequence:    f.AddSequence,
 			Progress:       pr,
-			Buf:            make([]byte, f.BufSize),
+			Buf:            make([]byte, max(f.BufSize, 0)),
 			ExtractStrings: f.ExtractStrings,
 		},
 		includeKeys:   map[string]int{},
diff --git a/flatjsonl/reader.go b/flatjsonl/reader.go
index d7173d0..ce98f6b 100644
--- a/flatjsonl/reader.go
+++ b/flatjsonl/reader.go
@@ -183,7 +183,7 @@ type syncWorker struct {
 // Read reads single file with JSON lines.
 func (rd *Reader) Read(sess *readSession) error {
 	concurrency := rd.Concurrency
-	if concurrency == 0 {
+	if concurrency <= 0 {
 		concurrency = 2 * runtime.NumCPU()
 	}
 
@@ -302,7 +302,7 @@ func (rd *Reader) Read(sess *readSession) error {
 			break
 		}
 
-		if rd.MaxLines > 0 && rd.MaxLines+rd.OffsetLines <= n {
+		if rd.MaxLines > 0 && rd.MaxLines <= n-max(rd.OffsetLines, 0) {
 			break
 		}
 	}
-- 
2.43.0


From 06590201453e88d677389e4863938746294651ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:12 +0000
Subject: [PATCH 64/74] fix: apply default limit of columns to PostgreSQL dump,
 refuse limits without columns

---
 flatjsonl/pg_dump_writer.go |  7 ++++++-
 flatjsonl/processor.go      | 13 +++++++++++++
 flatjsonl/sqlite_writer.go  | 11 +++++------
 3 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/flatjsonl/pg_dump_writer.go b/flatjsonl/pg_dump_writer.go
index b233a47..e3907ab 100644
--- a/flatjsonl/pg_dump_writer.go
+++ b/flatjsonl/pg_dump_writer.go
@@ -46,12 +46,17 @@ type csvCopier struct {
 
 // NewPGDumpWriter creates an instance of PGDumpWriter.
 func NewPGDumpWriter(fn string, tableName string, p *Processor) (*PGDumpWriter, error) {
+	maxCols, err := p.sqlMaxCols()
+	if err != nil {
+		return nil, err
+	}
+
 	c := &PGDumpWriter{
 		fn:         fn,
 		tableName:  tableName,
 		replacer:   strings.NewReplacer(`"`, `""`),
 		p:          p,
-		maxCols:    p.f.SQLMaxCols - 1, // -1 for _seq_id.
+		maxCols:    maxCols - 1, // -1 for _seq_id.
 		csvCopiers: map[string]csvCopier{},
 	}
 
diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index 30f2d8c..e2d7e0a 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -489,6 +489,19 @@ func (p *Processor) setupWriters() error {
 	return nil
 }
 
+// sqlMaxCols returns limit of columns in a SQL table, one of them is for sequence id.
+func (p *Processor) sqlMaxCols() (int, error) {
+	if p.f.SQLMaxCols == 0 {
+		return 500, nil
+	}
+
+	if p.f.SQLMaxCols < 2 {
+		return 0, fmt.Errorf("unexpected max columns in SQL table: %d, at least 2 required", p.f.SQLMaxCols)
+	}
+
+	return p.f.SQLMaxCols, nil
+}
+
 // ck coverts original key to canonical.
 func (p *Processor) ck(k string) string {
 	if p.f.CaseSensitiveKeys {
diff --git a/flatjsonl/sqlite_writer.go b/flatjsonl/sqlite_writer.go
index 713fd53..fefb331 100644
--- a/flatjsonl/sqlite_writer.go
+++ b/flatjsonl/sqlite_writer.go
@@ -28,7 +28,10 @@ type SQLiteWriter struct {
 
 // NewSQLiteWriter creates an instance of SQLiteWriter.
 func NewSQLiteWriter(fn string, tableName string, p *Processor) (*SQLiteWriter, error) {
-	var err error
+	maxCols, err := p.sqlMaxCols()
+	if err != nil {
+		return nil, err
+	}
 
 	db, err := sql.Open("sqlite", fn)
 	if err != nil {
@@ -40,16 +43,12 @@ func NewSQLiteWriter(fn string, tableName string, p *Processor) (*SQLiteWriter,
 		return nil, err
 	}
 
-	if p.f.SQLMaxCols == 0 {
-		p.f.SQLMaxCols = 500
-	}
-
 	c := &SQLiteWriter{
 		db:        db,
 		tableName: tableName,
 		replacer:  strings.NewReplacer(`"`, `""`),
 		p:         p,
-		maxCols:   p.f.SQLMaxCols - 1, // -1 for _seq_id.
+		maxCols:   maxCols - 1, // -1 for _seq_id.
 	}
 
 	return c, nil
-- 
2.43.0


From c05b00fc04d12f32c169a09e107c1bba95fff2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:14 +0000
Subject: [PATCH 65/74] fix: refuse outputs that overwrite inputs or each other

---
 flatjsonl/processor.go | 75 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 75 insertions(+)

diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index e2d7e0a..6e4d2fc 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -8,6 +8,7 @@ import (
 	"io"
 	"log"
 	"os"
+	"path/filepath"
 	"regexp"
 	"runtime"
 	"strconv"
@@ -444,7 +445,81 @@ func (p *Processor) showKeysInfo() {
 	}
 }
 
+// outputFiles lists all files to create.
+func (p *Processor) outputFiles() []string {
+	var files []string
+
+	for _, fn := range []string{p.f.CSV, p.f.Raw} {
+		if fn == "" {
+			continue
+		}
+
+		files = append(files, fn)
+
+		if fn == NopFile {
+			continue
+		}
+
+		seen := map[string]bool{"": true}
+
+		for _, k := range p.keys {
+			if !seen[k.transposeDst] {
+				seen[k.transposeDst] = true
+
+				files = append(files, (&baseWriter{}).transposedFileName(fn, k.transposeDst))
+			}
+		}
+	}
+
+	for _, fn := range []string{p.f.SQLite, p.f.PGDump} {
+		if fn != "" {
+			files = append(files, fn)
+		}
+	}
+
+	return files
+}
+
+// checkOutputs makes sure that output does not overwrite an input or another output.
+func (p *Processor) checkOutputs() error {
+	var files []string
+
+	for _, input := range p.inputs {
+		if input.FileName != "" {
+			files = append(files, input.FileName)
+		}
+	}
+
+	for _, fn := range p.outputFiles() {
+		fi, err := os.Stat(fn)
+		if fn == NopFile || (err == nil && !fi.Mode().IsRegular()) {
+			continue
+		}
+
+		for _, other := range files {
+			same := filepath.Clean(fn) == filepath.Clean(other)
+
+			if !same && err == nil {
+				ofi, oErr := os.Stat(other)
+				same = oErr == nil && os.SameFile(fi, ofi)
+			}
+
+			if same {
+				return fmt.Errorf("output would overwrite another file of the same run: %s", fn)
+			}
+		}
+
+		files = append(files, fn)
+	}
+
+	return nil
+}
+
 func (p *Processor) setupWriters() error {
+	if err := p.checkOutputs(); err != nil {
+		return err
+	}
+
 	if p.f.CSV != "" {
 		cw, err := NewCSVWriter(p.f.CSV)
 		if err != nil {
-- 
2.43.0


From 9a4f9622fc2245cfbf290b08010dd9d4bc3d255c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:00 +0000
Subject: [PATCH 66/74] fix: keep what only looks like a number as text

---
 flatjsonl/flattener.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/flatjsonl/flattener.go b/flatjsonl/flattener.go
index b96526b..9dc9f54 100644
--- a/flatjsonl/flattener.go
+++ b/flatjsonl/flattener.go
@@ -86,13 +86,16 @@ func (fv *FastWalker) WalkFastJSON(seq int64, flatPath []byte, pl int, path []st
 	case fastjson.TypeString:
 		fv.walkFastJSONString(seq, flatPath, pl, path, v)
 	case fastjson.TypeNumber:
+		fv.buf = fv.buf[:0]
+		fv.buf = v.MarshalTo(fv.buf)
+
 		n, err := v.Float64()
 		if err != nil {
-			panic(fmt.Sprintf("BUG: failed to use JSON number %q at %d:%s: %v", v.String(), seq, string(flatPath), err))
-		}
+			// Parser only checks the characters, text like 1.2.3 is kept as is.
+			fv.FnString(seq, flatPath, pl, path, fv.buf)
 
-		fv.buf = fv.buf[:0]
-		fv.buf = v.MarshalTo(fv.buf)
+			return
+		}
 
 		fv.FnNumber(seq, flatPath, pl, path, n, fv.buf)
 	case fastjson.TypeFalse, fastjson.TypeTrue:
-- 
2.43.0


From cbc6e54f3fce9f29f61d0694f0b40bda63090e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:02 +0000
Subject: [PATCH 67/74] fix: put names that differ in case into one column of
 transposed tables

---
 flatjsonl/writer.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/flatjsonl/writer.go b/flatjsonl/writer.go
index a67f7a3..a66e414 100644
--- a/flatjsonl/writer.go
+++ b/flatjsonl/writer.go
@@ -154,6 +154,7 @@ type baseWriter struct {
 	isTransposed bool
 	transposed   map[string]*baseWriter
 	trimmedKeys  map[string]idxKey
+	elements     map[transposedRow]intOrString // First seen names of elements.
 
 	// transposedMapping maps original key index to reduced set of trimmed keys.
 	transposedMapping map[int]int
@@ -178,12 +179,24 @@ func (b *baseWriter) setupKeys(keys []flKey) {
 		tw.indexType = key.transposeKey.t
 		tw.indexType = indexType.Update(tw.indexType) // Both arrays and objects make string index.
 
-		ik, ok := tw.trimmedKeys[key.transposeTrimmed]
+		// Names below elements, and names of elements, may have different case in different lines.
+		trimmed := b.p.ck(key.transposeTrimmed)
+		el := transposedRow{from: key.transposeFrom, key: b.p.ck(key.transposeKey.String())}
+
+		if key.transposeKey.t == TypeString {
+			if tk, ok := tw.elements[el]; ok {
+				keys[i].transposeKey = tk
+			} else {
+				tw.elements[el] = key.transposeKey
+			}
+		}
+
+		ik, ok := tw.trimmedKeys[trimmed]
 		if !ok {
 			ik.idx = len(tw.trimmedKeys)
 			key.replaced = b.p.prepareKey(key.transposeTrimmed)
 			ik.k = key
-			tw.trimmedKeys[key.transposeTrimmed] = ik
+			tw.trimmedKeys[trimmed] = ik
 		}
 
 		tw.transposedMapping[i] = ik.idx
@@ -247,6 +260,7 @@ func (b *baseWriter) transposedWriter(dst string, keys []flKey) *baseWriter {
 		}},
 	}
 	tw.transposedMapping = map[int]int{}
+	tw.elements = map[transposedRow]intOrString{}
 
 	b.transposed[dst] = tw
 
-- 
2.43.0


From 8d27eeb88436334b4194784419f0c24078858f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:14 +0000
Subject: [PATCH 68/74] fix: close input files when they are read

---
 flatjsonl/reader.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/flatjsonl/reader.go b/flatjsonl/reader.go
index ce98f6b..5d5fb9b 100644
--- a/flatjsonl/reader.go
+++ b/flatjsonl/reader.go
@@ -99,13 +99,15 @@ func (rd *Reader) session(in Input, task string) (sess *readSession, err error)
 	)
 
 	if in.FileName != "" { //nolint:nestif
-		fj, err := os.Open(in.FileName)
-		if err != nil {
-			return nil, fmt.Errorf("failed to open file %s: %w", in, err)
+		fj, oErr := os.Open(in.FileName)
+		if oErr != nil {
+			return nil, fmt.Errorf("failed to open file %s: %w", in, oErr)
 		}
 
+		sess.fj = fj
+
 		defer func() {
-			if err != nil && fj != nil {
+			if err != nil {
 				if clErr := fj.Close(); clErr != nil {
 					err = fmt.Errorf("%w, failed close file (%s)", err, clErr.Error())
 				}
-- 
2.43.0


From 6fed7d64acc6423b2a77ddeee974e910fa505e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:01 +0000
Subject: [PATCH 69/74] fix: stop watching memory usage when processing is done

---
 flatjsonl/processor.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index 6e4d2fc..7ef017f 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -243,8 +243,6 @@ func NewProcessor(f Flags, cfg Config, inputs ...Input) (*Processor, error) { //
 		p.extractRegex = append(p.extractRegex, extractRegex{r: r, x: p.cfg.ExtractValuesRegex[reg].Extractor()})
 	}
 
-	go p.watchMemUsage()
-
 	return p, nil
 }
 
@@ -303,7 +301,7 @@ func (p *Processor) PrepareKeys() error {
 		atomic.StoreInt64(&p.errors, 0)
 
 		// Scan available keys.
-		if err := p.scanAvailableKeys(); err != nil {
+		if err := p.watchingMemUsage(p.scanAvailableKeys); err != nil {
 			return err
 		}
 
@@ -329,7 +327,7 @@ func (p *Processor) WriteOutput() error {
 	}
 
 	if p.w.HasReceivers() {
-		if err := p.iterateForWriters(); err != nil {
+		if err := p.watchingMemUsage(p.iterateForWriters); err != nil {
 			return err
 		}
 
@@ -901,12 +899,23 @@ func (wi *writeIterator) setValue(v Value, pk uint64, l *lineBuf) {
 	}
 }
 
-func (p *Processor) watchMemUsage() {
+// watchingMemUsage watches memory usage while f runs.
+func (p *Processor) watchingMemUsage(f func() error) error {
 	if p.f.MemLimit == 0 {
-		return
+		return f()
 	}
 
-	for {
+	done := int64(0)
+
+	go p.watchMemUsage(&done)
+
+	defer atomic.StoreInt64(&done, 1)
+
+	return f()
+}
+
+func (p *Processor) watchMemUsage(done *int64) {
+	for atomic.LoadInt64(done) == 0 {
 		m := runtime.MemStats{}
 		runtime.ReadMemStats(&m)
 
-- 
2.43.0


From 21f5c9737d940fabb87ba7fd329137c076be5a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:51 +0000
Subject: [PATCH 70/74] fix: release zstd readers when inputs are read

---
 flatjsonl/reader.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/flatjsonl/reader.go b/flatjsonl/reader.go
index 5d5fb9b..e2ebf8d 100644
--- a/flatjsonl/reader.go
+++ b/flatjsonl/reader.go
@@ -62,6 +62,7 @@ type readSession struct {
 	pr      *progress.Progress
 	scanner *bufio.Scanner
 	fj      *os.File
+	zr      *zstd.Decoder
 	r       io.Reader
 
 	setupWalker  func(w *FastWalker)
@@ -72,6 +73,10 @@ type readSession struct {
 func (rs *readSession) Close() {
 	rs.pr.Stop()
 
+	if rs.zr != nil {
+		rs.zr.Close()
+	}
+
 	if rs.fj != nil {
 		if err := rs.fj.Close(); err != nil {
 			println("failed to close file:", err.Error())
@@ -145,11 +150,11 @@ func (rd *Reader) session(in Input, task string) (sess *readSession, err error)
 	case "zst":
 		cr.SetLines(nil)
 
-		if r, err = zstd.NewReader(sess.r); err != nil {
+		if sess.zr, err = zstd.NewReader(sess.r); err != nil {
 			return nil, fmt.Errorf("failed to init zstd reader: %w", err)
 		}
 
-		lines = progress.NewCountingReader(r)
+		lines = progress.NewCountingReader(sess.zr)
 		sess.r = lines
 	}
 
-- 
2.43.0


From 365ff87ea4ab7363aa7e75c428b37fb78b73fe1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:14 +0000
Subject: [PATCH 71/74] fix: return failure to close outputs

---
 flatjsonl/processor.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index 7ef017f..39553de 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -6,7 +6,6 @@ import (
 	"errors"
 	"fmt"
 	"io"
-	"log"
 	"os"
 	"path/filepath"
 	"regexp"
@@ -315,10 +314,14 @@ func (p *Processor) PrepareKeys() error {
 }
 
 // WriteOutput runs second pass of reading to create the output.
-func (p *Processor) WriteOutput() error {
+func (p *Processor) WriteOutput() (err error) {
 	defer func() {
-		if err := p.w.Close(); err != nil {
-			log.Fatalf("failed to close writer: %v", err)
+		if clErr := p.w.Close(); clErr != nil {
+			if err != nil {
+				err = fmt.Errorf("%w, failed to close writer: %s", err, clErr.Error())
+			} else {
+				err = fmt.Errorf("failed to close writer: %w", clErr)
+			}
 		}
 	}()
 
-- 
2.43.0


From bd056927367f9dbb9258d4039228c874ecff59c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:48 +0000
Subject: [PATCH 72/74] fix: close all outputs when one of them fails

---
 flatjsonl/csv_writer.go     | 30 +++++++++++++++---------------
 flatjsonl/pg_dump_writer.go |  2 ++
 flatjsonl/raw_writer.go     | 26 ++++++++++++++------------
 flatjsonl/sqlite_writer.go  |  4 ++++
 4 files changed, 35 insertions(+), 27 deletions(-)

diff --git a/flatjsonl/csv_writer.go b/flatjsonl/csv_writer.go
index 25250dd..e109599 100644
--- a/flatjsonl/csv_writer.go
+++ b/flatjsonl/csv_writer.go
@@ -124,26 +124,26 @@ func (c *CSVWriter) ReceiveRow(seq int64, values []Value) error {
 }
 
 // Close flushes rows and closes file.
-func (c *CSVWriter) Close() error {
-	c.w.Flush()
-
-	if err := c.w.Error(); err != nil {
-		return fmt.Errorf("failed to flush CSV file: %w", err)
-	}
+func (c *CSVWriter) Close() (err error) {
+	defer func() {
+		for _, tw := range c.transposed {
+			if clErr := tw.Close(); clErr != nil && err == nil {
+				println("failed to close transpose CSV file: " + clErr.Error())
 
-	for _, tw := range c.transposed {
-		tw.w.Flush()
+				err = fmt.Errorf("failed to close transposed CSV file: %w", clErr)
+			}
+		}
 
-		if err := tw.w.Error(); err != nil {
-			return fmt.Errorf("failed to flush transposed CSV file: %w", err)
+		if clErr := c.f.Close(); err == nil {
+			err = clErr
 		}
+	}()
 
-		if err := tw.f.Close(); err != nil {
-			println("failed to close transpose CSV file: " + err.Error())
+	c.w.Flush()
 
-			return fmt.Errorf("failed to close transposed CSV file: %w", err)
-		}
+	if err := c.w.Error(); err != nil {
+		return fmt.Errorf("failed to flush CSV file: %w", err)
 	}
 
-	return c.f.Close()
+	return nil
 }
diff --git a/flatjsonl/pg_dump_writer.go b/flatjsonl/pg_dump_writer.go
index e3907ab..1e34c1e 100644
--- a/flatjsonl/pg_dump_writer.go
+++ b/flatjsonl/pg_dump_writer.go
@@ -332,6 +332,8 @@ func (c *PGDumpWriter) createTable(tn string, keys []flKey, isTransposed bool) e
 // Close flushes CSV and closes output file.
 func (c *PGDumpWriter) Close() error {
 	if err := c.flush(); err != nil {
+		_ = c.f.Close()
+
 		return err
 	}
 
diff --git a/flatjsonl/raw_writer.go b/flatjsonl/raw_writer.go
index 8bbd1c5..9ef4445 100644
--- a/flatjsonl/raw_writer.go
+++ b/flatjsonl/raw_writer.go
@@ -114,22 +114,24 @@ func (c *RawWriter) writeRow(row []string) error {
 }
 
 // Close flushes rows and closes file.
-func (c *RawWriter) Close() error {
-	if err := c.w.Flush(); err != nil {
-		return fmt.Errorf("failed to flush RAW file: %w", err)
-	}
+func (c *RawWriter) Close() (err error) {
+	defer func() {
+		for _, tw := range c.transposed {
+			if clErr := tw.Close(); clErr != nil && err == nil {
+				println("failed to close transposed RAW file: " + clErr.Error())
 
-	for _, tw := range c.transposed {
-		if err := tw.w.Flush(); err != nil {
-			return fmt.Errorf("failed to flush transposed RAW file: %w", err)
+				err = fmt.Errorf("failed to close transposed RAW file: %w", clErr)
+			}
 		}
 
-		if err := tw.f.Close(); err != nil {
-			println("failed to close transposed RAW file: " + err.Error())
-
-			return fmt.Errorf("failed to close transposed RAW file: %w", err)
+		if clErr := c.f.Close(); err == nil {
+			err = clErr
 		}
+	}()
+
+	if err := c.w.Flush(); err != nil {
+		return fmt.Errorf("failed to flush RAW file: %w", err)
 	}
 
-	return c.f.Close()
+	return nil
 }
diff --git a/flatjsonl/sqlite_writer.go b/flatjsonl/sqlite_writer.go
index fefb331..b00e612 100644
--- a/flatjsonl/sqlite_writer.go
+++ b/flatjsonl/sqlite_writer.go
@@ -40,6 +40,8 @@ func NewSQLiteWriter(fn string, tableName string, p *Processor) (*SQLiteWriter,
 
 	_, err = db.Exec("pragma journal_mode=off;")
 	if err != nil {
+		_ = db.Close()
+
 		return nil, err
 	}
 
@@ -268,6 +270,8 @@ func (c *SQLiteWriter) Close() error {
 		if err != nil {
 			println(err.Error())
 
+			_ = c.db.Close()
+
 			return fmt.Errorf("failed to commit SQLite transaction: %w", err)
 		}
 	}
-- 
2.43.0


From 03d5d18a55f643e91f3e2d40d8dd3f6e82d123bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:24 +0000
Subject: [PATCH 73/74] fix: do not panic on negative progress interval

---
 flatjsonl/processor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index 39553de..e1b0d33 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -122,7 +122,7 @@ func unmarshalJSON5(b []byte, cfg *Config) (err error) {
 // NewProcessor creates an instance of Processor.
 func NewProcessor(f Flags, cfg Config, inputs ...Input) (*Processor, error) { //nolint:funlen
 	pr := &progress.Progress{
-		Interval:         f.ProgressInterval,
+		Interval:         max(f.ProgressInterval, 0), // Interval of zero is a default one.
 		IncrementalSpeed: true,
 	}
 
-- 
2.43.0


From 17d9b4340469d95aa24e24f37adab9c01f69c613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:20 +0000
Subject: [PATCH 74/74] fix: wait for workers when reading fails

---
 flatjsonl/reader.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/flatjsonl/reader.go b/flatjsonl/reader.go
index e2ebf8d..24e23f3 100644
--- a/flatjsonl/reader.go
+++ b/flatjsonl/reader.go
@@ -248,7 +248,10 @@ func (rd *Reader) Read(sess *readSession) error {
 		rd.singleKeyPath = nil
 	}
 
-	var n int64
+	var (
+		n       int64
+		scanErr error
+	)
 
 	for sess.scanner.Scan() {
 		for {
@@ -267,7 +270,9 @@ func (rd *Reader) Read(sess *readSession) error {
 		}
 
 		if err := sess.scanner.Err(); err != nil {
-			return fmt.Errorf("scan failed: %w", err)
+			scanErr = fmt.Errorf("scan failed: %w", err)
+
+			break
 		}
 
 		line := sess.scanner.Bytes()
@@ -323,6 +328,10 @@ func (rd *Reader) Read(sess *readSession) error {
 		return doLineErr
 	}
 
+	if scanErr != nil {
+		return scanErr
+	}
+
 	return sess.scanner.Err()
 }
 
-- 
2.43.0

