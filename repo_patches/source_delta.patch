From 9d0cf9c36a9caddebe4266e5dc7cf945d5eebaa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:45 +0000
Subject: [PATCH 01/78] fix: size byte arrays of exactly 255 bytes as bin8 like
 the encoder does

---
 go/msgpack/sizer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/msgpack/sizer.go b/go/msgpack/sizer.go
index 0fc83c0..0fbee96 100644
--- a/go/msgpack/sizer.go
+++ b/go/msgpack/sizer.go
@@ -115,7 +115,7 @@ func (s *Sizer) WriteArraySize(length uint32) {
 }
 
 func (s *Sizer) writeBinLength(length uint32) {
-	if length < math.MaxUint8 {
+	if length <= math.MaxUint8 {
 		s.length += 1
 	} else if length <= math.MaxUint16 {
 		s.length += 2
-- 
2.43.0


From 213de2fa22c232792b181c5465d8ad8370f1f68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:46 +0000
Subject: [PATCH 02/78] fix: write a nil any value as one nil, not two

---
 go/msgpack/encoder.go | 3 ---
 go/msgpack/sizer.go   | 3 ---
 2 files changed, 6 deletions(-)

diff --git a/go/msgpack/encoder.go b/go/msgpack/encoder.go
index 2fd74c0..ebe87d2 100644
--- a/go/msgpack/encoder.go
+++ b/go/msgpack/encoder.go
@@ -312,9 +312,6 @@ func (e *Encoder) WriteMapSize(length uint32) {
 }
 
 func (e *Encoder) WriteAny(value any) {
-	if value == nil {
-		e.WriteNil()
-	}
 	switch v := value.(type) {
 	case nil:
 		e.WriteNil()
diff --git a/go/msgpack/sizer.go b/go/msgpack/sizer.go
index 0fbee96..e409960 100644
--- a/go/msgpack/sizer.go
+++ b/go/msgpack/sizer.go
@@ -276,9 +276,6 @@ func (s *Sizer) WriteNillableFloat64(value *float64) {
 }
 
 func (s *Sizer) WriteAny(value any) {
-	if value == nil {
-		s.WriteNil()
-	}
 	switch v := value.(type) {
 	case nil:
 		s.WriteNil()
-- 
2.43.0


From dfc55618e0a2e0e6508602b4af86e99159de988d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:48 +0000
Subject: [PATCH 03/78] fix: write and read timestamps held in any values

---
 go/msgpack/decoder.go | 9 ++++++++-
 go/msgpack/encoder.go | 8 ++++++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/go/msgpack/decoder.go b/go/msgpack/decoder.go
index 85af61f..ce15253 100644
--- a/go/msgpack/decoder.go
+++ b/go/msgpack/decoder.go
@@ -390,6 +390,10 @@ func (d *Decoder) ReadTime() (time.Time, error) {
 	}
 
 	d.reader.Discard(1)
+	return d.readTimeExt(prefix)
+}
+
+func (d *Decoder) readTimeExt(prefix byte) (time.Time, error) {
 	extID, extLen, err := d.extHeader(prefix)
 	if err != nil {
 		return time.Time{}, err
@@ -820,9 +824,12 @@ func (d *Decoder) ReadAny() (any, error) {
 			return nil, err
 		}
 		return d.reader.GetBytes(binLen)
+	case FormatFixExt1, FormatFixExt2, FormatFixExt4, FormatFixExt8, FormatFixExt16,
+		FormatExt8, FormatExt16, FormatExt32:
+		return d.readTimeExt(prefix)
 	}
 
-	return nil, ReadError{"bad value for bool"}
+	return nil, ReadError{"bad prefix for any"}
 }
 
 func (d *Decoder) readArray(array []any) error {
diff --git a/go/msgpack/encoder.go b/go/msgpack/encoder.go
index ebe87d2..5e380eb 100644
--- a/go/msgpack/encoder.go
+++ b/go/msgpack/encoder.go
@@ -345,6 +345,8 @@ func (e *Encoder) WriteAny(value any) {
 		e.WriteFloat64(v)
 	case string:
 		e.WriteString(v)
+	case time.Time:
+		e.WriteTime(v)
 	case []byte:
 		e.WriteByteArray(v)
 	case []interface{}:
@@ -359,6 +361,12 @@ func (e *Encoder) WriteAny(value any) {
 		for _, v := range v {
 			e.WriteString(v)
 		}
+	case []time.Time:
+		size := uint32(len(v))
+		e.WriteArraySize(size)
+		for _, v := range v {
+			e.WriteTime(v)
+		}
 	case []bool:
 		size := uint32(len(v))
 		e.WriteArraySize(size)
-- 
2.43.0


From 9199e6b5b67a0d72248ce59fc8bd449e6e9bb49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:49 +0000
Subject: [PATCH 04/78] fix: read extension lengths as raw big-endian numbers

---
 go/msgpack/decoder.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/go/msgpack/decoder.go b/go/msgpack/decoder.go
index ce15253..67e6054 100644
--- a/go/msgpack/decoder.go
+++ b/go/msgpack/decoder.go
@@ -893,13 +893,13 @@ func (d *Decoder) parseExtLen(c byte) (uint32, error) {
 	case FormatFixExt16:
 		return 16, nil
 	case FormatExt8:
-		n, err := d.ReadUint8()
+		n, err := d.reader.GetUint8()
 		return uint32(n), err
 	case FormatExt16:
-		n, err := d.ReadUint16()
+		n, err := d.reader.GetUint16()
 		return uint32(n), err
 	case FormatExt32:
-		n, err := d.ReadUint32()
+		n, err := d.reader.GetUint32()
 		return n, err
 	default:
 		return 0, ReadError{"msgpack: invalid code=" + strconv.FormatUint(uint64(c), 16) + " decoding ext len"}
-- 
2.43.0


From bb09d72e1ba3fbf0d2f1cf3421131dad0fb22741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:24 +0000
Subject: [PATCH 05/78] fix: report unsupported and failing values instead of
 dropping them

---
 go/msgpack/codec.go       | 12 ++++++++++++
 go/msgpack/data_reader.go |  6 ++++++
 go/msgpack/encoder.go     |  6 +++++-
 go/msgpack/sizer.go       | 15 +++++++++++++--
 4 files changed, 36 insertions(+), 3 deletions(-)

diff --git a/go/msgpack/codec.go b/go/msgpack/codec.go
index 8e39093..c58b855 100644
--- a/go/msgpack/codec.go
+++ b/go/msgpack/codec.go
@@ -1,5 +1,7 @@
 package msgpack
 
+import "fmt"
+
 // Codec is the interface that applies to data structures that can
 // encode to and decode from the MessagPack format.
 type Codec interface {
@@ -7,17 +9,27 @@ type Codec interface {
 	Encode(Writer) error
 }
 
+func unsupportedTypeError(value any) error {
+	return fmt.Errorf("msgpack: unsupported type %T", value)
+}
+
 // ToBytes creates a `[]byte` from `codec`.
 func ToBytes(codec Codec) ([]byte, error) {
 	var sizer Sizer
 	if err := codec.Encode(&sizer); err != nil {
 		return nil, err
 	}
+	if err := sizer.Err(); err != nil {
+		return nil, err
+	}
 	buffer := make([]byte, sizer.Len())
 	encoder := NewEncoder(buffer)
 	if err := codec.Encode(&encoder); err != nil {
 		return nil, err
 	}
+	if err := encoder.Err(); err != nil {
+		return nil, err
+	}
 	return buffer, nil
 }
 
diff --git a/go/msgpack/data_reader.go b/go/msgpack/data_reader.go
index 4240605..d976fc0 100644
--- a/go/msgpack/data_reader.go
+++ b/go/msgpack/data_reader.go
@@ -248,6 +248,12 @@ func (d *DataReader) checkBufferSize(length uint32) error {
 	return nil
 }
 
+func (d *DataReader) setErr(err error) {
+	if d.err == nil {
+		d.err = err
+	}
+}
+
 func (d *DataReader) Err() error {
 	return d.err
 }
diff --git a/go/msgpack/encoder.go b/go/msgpack/encoder.go
index 5e380eb..804d52d 100644
--- a/go/msgpack/encoder.go
+++ b/go/msgpack/encoder.go
@@ -316,7 +316,9 @@ func (e *Encoder) WriteAny(value any) {
 	case nil:
 		e.WriteNil()
 	case Codec:
-		v.Encode(e)
+		if err := v.Encode(e); err != nil {
+			e.reader.setErr(err)
+		}
 	case int:
 		e.WriteInt64(int64(v))
 	case int8:
@@ -520,6 +522,8 @@ func (e *Encoder) WriteAny(value any) {
 			e.WriteAny(k)
 			e.WriteAny(v)
 		}
+	default:
+		e.reader.setErr(unsupportedTypeError(value))
 	}
 }
 
diff --git a/go/msgpack/sizer.go b/go/msgpack/sizer.go
index e409960..8afb474 100644
--- a/go/msgpack/sizer.go
+++ b/go/msgpack/sizer.go
@@ -7,6 +7,7 @@ import (
 
 type Sizer struct {
 	length uint32
+	err    error
 }
 
 func NewSizer() Sizer {
@@ -280,7 +281,9 @@ func (s *Sizer) WriteAny(value any) {
 	case nil:
 		s.WriteNil()
 	case Codec:
-		v.Encode(s)
+		if err := v.Encode(s); err != nil {
+			s.setErr(err)
+		}
 	case int:
 		s.WriteInt64(int64(v))
 	case int8:
@@ -484,9 +487,17 @@ func (s *Sizer) WriteAny(value any) {
 			s.WriteAny(k)
 			s.WriteAny(v)
 		}
+	default:
+		s.setErr(unsupportedTypeError(value))
+	}
+}
+
+func (s *Sizer) setErr(err error) {
+	if s.err == nil {
+		s.err = err
 	}
 }
 
 func (s *Sizer) Err() error {
-	return nil
+	return s.err
 }
-- 
2.43.0


From ba075e287793ff820939af8190b32863f1b089b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:25 +0000
Subject: [PATCH 06/78] fix: do not let huge lengths overflow the buffer bounds
 check

---
 go/msgpack/data_reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/msgpack/data_reader.go b/go/msgpack/data_reader.go
index d976fc0..7834699 100644
--- a/go/msgpack/data_reader.go
+++ b/go/msgpack/data_reader.go
@@ -240,7 +240,7 @@ func (d *DataReader) checkBufferSize(length uint32) error {
 	if d.err != nil {
 		return d.err
 	}
-	if d.byteOffset+length > uint32(len(d.buffer)) {
+	if uint64(d.byteOffset)+uint64(length) > uint64(len(d.buffer)) {
 		d.err = ErrRange
 		return ErrRange
 	}
-- 
2.43.0


From 5a824c532f32b3479ac5e9e2d1089a3895342129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:26 +0000
Subject: [PATCH 07/78] fix: accept unsigned wire formats when reading signed
 integers

---
 go/msgpack/decoder.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/go/msgpack/decoder.go b/go/msgpack/decoder.go
index 67e6054..94dda84 100644
--- a/go/msgpack/decoder.go
+++ b/go/msgpack/decoder.go
@@ -157,6 +157,25 @@ func (d *Decoder) ReadInt64() (int64, error) {
 	case FormatInt64:
 		v, err := d.reader.GetInt64()
 		return int64(v), err
+	case FormatUint8:
+		v, err := d.reader.GetUint8()
+		return int64(v), err
+	case FormatUint16:
+		v, err := d.reader.GetUint16()
+		return int64(v), err
+	case FormatUint32:
+		v, err := d.reader.GetUint32()
+		return int64(v), err
+	case FormatUint64:
+		v, err := d.reader.GetUint64()
+		if v > math.MaxInt64 {
+			return 0, ReadError{
+				"interger overflow: value = " +
+					strconv.FormatUint(v, 10) +
+					"; bits = 64",
+			}
+		}
+		return int64(v), err
 	default:
 		return 0, ReadError{"bad prefix for int64"}
 	}
-- 
2.43.0


From 40656c225f9780d07bcddf35e66b63dc32f1db52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:27 +0000
Subject: [PATCH 08/78] fix: skip every extension format and report truncated
 values in Skip

---
 go/msgpack/decoder.go | 66 +++++++++++++++++++++++++------------------
 1 file changed, 38 insertions(+), 28 deletions(-)

diff --git a/go/msgpack/decoder.go b/go/msgpack/decoder.go
index 94dda84..f80c8ea 100644
--- a/go/msgpack/decoder.go
+++ b/go/msgpack/decoder.go
@@ -613,37 +613,35 @@ func (d *Decoder) ReadMapSize() (uint32, error) {
 }
 
 func (d *Decoder) Skip() error {
-	numberOfObjectsToDiscard, err := d.getSize()
-	if err != nil {
-		return err
-	}
-
+	// Nested objects are counted rather than skipped recursively so that
+	// deeply nested input cannot exhaust the stack.
+	numberOfObjectsToDiscard := uint64(1)
 	for numberOfObjectsToDiscard > 0 {
-		err = d.Skip() // Skip recursively
+		nested, err := d.getSize()
 		if err != nil {
 			return err
 		}
-		numberOfObjectsToDiscard--
+		numberOfObjectsToDiscard += nested - 1
 	}
 	return nil
 }
 
-func (d *Decoder) getSize() (uint32, error) {
+func (d *Decoder) getSize() (uint64, error) {
 	leadByte, err := d.reader.GetUint8()
 	if err != nil {
 		return 0, err
 	}
-	var objectsToDiscard uint32 = 0
+	var objectsToDiscard uint64 = 0
 
 	if isNegativeFixedInt(leadByte) || isFixedInt(leadByte) {
 		// Noop, will just discard the leadbyte
 	} else if isFixedString(leadByte) {
 		strLen := uint32(leadByte & 0x1f)
-		d.reader.Discard(strLen)
+		err = d.reader.Discard(strLen)
 	} else if isFixedArray(leadByte) {
-		objectsToDiscard = uint32(leadByte & FormatFourLeastSigBitsInByte)
+		objectsToDiscard = uint64(leadByte & FormatFourLeastSigBitsInByte)
 	} else if isFixedMap(leadByte) {
-		objectsToDiscard = 2 * uint32(leadByte&FormatFourLeastSigBitsInByte)
+		objectsToDiscard = 2 * uint64(leadByte&FormatFourLeastSigBitsInByte)
 	} else {
 		switch leadByte {
 		case FormatNil, FormatTrue, FormatFalse:
@@ -675,57 +673,69 @@ func (d *Decoder) getSize() (uint32, error) {
 				return 0, err
 			}
 		case FormatFloat32:
-			d.reader.Discard(4)
+			err = d.reader.Discard(4)
 		case FormatFloat64:
-			d.reader.Discard(8)
+			err = d.reader.Discard(8)
 		case FormatUint8, FormatInt8:
-			d.reader.Discard(1)
+			err = d.reader.Discard(1)
 		case FormatUint16, FormatInt16:
-			d.reader.Discard(2)
+			err = d.reader.Discard(2)
 		case FormatUint32, FormatInt32:
-			d.reader.Discard(4)
+			err = d.reader.Discard(4)
 		case FormatUint64, FormatInt64:
-			d.reader.Discard(8)
+			err = d.reader.Discard(8)
 		case FormatFixExt1:
-			d.reader.Discard(1)
+			err = d.reader.Discard(2)
 		case FormatFixExt2:
-			d.reader.Discard(3)
+			err = d.reader.Discard(3)
 		case FormatFixExt4:
-			d.reader.Discard(5)
+			err = d.reader.Discard(5)
 		case FormatFixExt8:
-			d.reader.Discard(9)
+			err = d.reader.Discard(9)
 		case FormatFixExt16:
-			d.reader.Discard(17)
+			err = d.reader.Discard(17)
+		case FormatExt8, FormatExt16, FormatExt32:
+			length, err := d.parseExtLen(leadByte)
+			if err != nil {
+				return 0, err
+			}
+			if _, err = d.readCode(); err != nil {
+				return 0, err
+			}
+			err = d.reader.Discard(length)
+			if err != nil {
+				return 0, err
+			}
 		case FormatArray16:
 			v, err := d.reader.GetUint16()
 			if err != nil {
 				return 0, err
 			}
-			objectsToDiscard = uint32(v)
+			objectsToDiscard = uint64(v)
 		case FormatArray32:
 			v, err := d.reader.GetUint32()
 			if err != nil {
 				return 0, err
 			}
-			objectsToDiscard = v
+			objectsToDiscard = uint64(v)
 		case FormatMap16:
 			v, err := d.reader.GetUint16()
 			if err != nil {
 				return 0, err
 			}
-			objectsToDiscard = 2 * uint32(v)
+			objectsToDiscard = 2 * uint64(v)
 		case FormatMap32:
 			v, err := d.reader.GetUint32()
 			if err != nil {
 				return 0, err
 			}
-			objectsToDiscard = 2 * v
+			objectsToDiscard = 2 * uint64(v)
 		default:
 			return 0, ReadError{"bad prefix"}
 		}
 	}
 
-	return objectsToDiscard, nil
+	return objectsToDiscard, err
 }
 
 func (d *Decoder) ReadAny() (any, error) {
-- 
2.43.0


From a35d7ace9599e9d6755b7a9bba7c570eeddf5650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:16 +0000
Subject: [PATCH 09/78] fix: bound what ReadAny allocates for an array or map
 by the input

---
 go/msgpack/decoder.go | 53 +++++++++++++++++++++----------------------
 1 file changed, 26 insertions(+), 27 deletions(-)

diff --git a/go/msgpack/decoder.go b/go/msgpack/decoder.go
index f80c8ea..6d884b5 100644
--- a/go/msgpack/decoder.go
+++ b/go/msgpack/decoder.go
@@ -755,16 +755,12 @@ func (d *Decoder) ReadAny() (any, error) {
 
 	if isFixedArray(prefix) {
 		aryLen := uint32(prefix & FormatFourLeastSigBitsInByte)
-		ary := make([]any, aryLen)
-		err := d.readArray(ary)
-		return ary, err
+		return d.readArray(aryLen)
 	}
 
 	if isFixedMap(prefix) {
 		mapLen := uint32(prefix & FormatFourLeastSigBitsInByte)
-		m := make(map[any]any, mapLen)
-		err := d.readMap(m, mapLen)
-		return m, err
+		return d.readMap(mapLen)
 	}
 
 	switch prefix {
@@ -808,33 +804,25 @@ func (d *Decoder) ReadAny() (any, error) {
 		if err != nil {
 			return nil, err
 		}
-		ary := make([]any, v)
-		err = d.readArray(ary)
-		return ary, err
+		return d.readArray(uint32(v))
 	case FormatArray32:
 		v, err := d.reader.GetUint32()
 		if err != nil {
 			return nil, err
 		}
-		ary := make([]any, v)
-		err = d.readArray(ary)
-		return ary, err
+		return d.readArray(v)
 	case FormatMap16:
 		v, err := d.reader.GetUint16()
 		if err != nil {
 			return nil, err
 		}
-		m := make(map[any]any, v)
-		err = d.readMap(m, uint32(v))
-		return m, err
+		return d.readMap(uint32(v))
 	case FormatMap32:
 		v, err := d.reader.GetUint32()
 		if err != nil {
 			return nil, err
 		}
-		m := make(map[any]any, v)
-		err = d.readMap(m, v)
-		return m, err
+		return d.readMap(v)
 	case FormatBin8:
 		binLen, err := d.reader.GetUint8()
 		if err != nil {
@@ -861,30 +849,41 @@ func (d *Decoder) ReadAny() (any, error) {
 	return nil, ReadError{"bad prefix for any"}
 }
 
-func (d *Decoder) readArray(array []any) error {
-	for i := 0; i < len(array); i++ {
+// initialCap limits what is allocated up front for an announced number of
+// elements, which the input need not actually hold.
+func initialCap(length uint32) int {
+	if length > 16 {
+		return 16
+	}
+	return int(length)
+}
+
+func (d *Decoder) readArray(length uint32) ([]any, error) {
+	array := make([]any, 0, initialCap(length))
+	for i := uint32(0); i < length; i++ {
 		value, err := d.ReadAny()
 		if err != nil {
-			return err
+			return array, err
 		}
-		array[i] = value
+		array = append(array, value)
 	}
-	return nil
+	return array, nil
 }
 
-func (d *Decoder) readMap(m map[any]any, length uint32) error {
+func (d *Decoder) readMap(length uint32) (map[any]any, error) {
+	m := make(map[any]any, initialCap(length))
 	for i := uint32(0); i < length; i++ {
 		key, err := d.ReadAny()
 		if err != nil {
-			return err
+			return m, err
 		}
 		value, err := d.ReadAny()
 		if err != nil {
-			return err
+			return m, err
 		}
 		m[key] = value
 	}
-	return nil
+	return m, nil
 }
 
 func (d *Decoder) extHeader(c byte) (int8, uint32, error) {
-- 
2.43.0


From 210d6ccc754376ffa6f7fc405362d86cd11a4c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:17 +0000
Subject: [PATCH 10/78] fix: reject map keys that Go cannot hash instead of
 panicking

---
 go/msgpack/decoder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/go/msgpack/decoder.go b/go/msgpack/decoder.go
index 6d884b5..fdbe899 100644
--- a/go/msgpack/decoder.go
+++ b/go/msgpack/decoder.go
@@ -877,6 +877,10 @@ func (d *Decoder) readMap(length uint32) (map[any]any, error) {
 		if err != nil {
 			return m, err
 		}
+		switch key.(type) {
+		case []byte, []any, map[any]any:
+			return m, ReadError{"bad type for map key"}
+		}
 		value, err := d.ReadAny()
 		if err != nil {
 			return m, err
-- 
2.43.0


From 4f62519c816a7fd6e2c837fc874a90d5437dd621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:19 +0000
Subject: [PATCH 11/78] fix: limit nesting in ReadAny so that input cannot
 exhaust the stack

---
 go/msgpack/decoder.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/go/msgpack/decoder.go b/go/msgpack/decoder.go
index fdbe899..70e940b 100644
--- a/go/msgpack/decoder.go
+++ b/go/msgpack/decoder.go
@@ -7,8 +7,12 @@ import (
 	"time"
 )
 
+// maxDepth is how deeply arrays and maps may nest in ReadAny.
+const maxDepth = 10000
+
 type Decoder struct {
 	reader DataReader
+	depth  int
 }
 
 func NewDecoder(buffer []byte) Decoder {
@@ -859,6 +863,11 @@ func initialCap(length uint32) int {
 }
 
 func (d *Decoder) readArray(length uint32) ([]any, error) {
+	if d.depth >= maxDepth {
+		return nil, ReadError{"nesting too deep"}
+	}
+	d.depth++
+	defer func() { d.depth-- }()
 	array := make([]any, 0, initialCap(length))
 	for i := uint32(0); i < length; i++ {
 		value, err := d.ReadAny()
@@ -871,6 +880,11 @@ func (d *Decoder) readArray(length uint32) ([]any, error) {
 }
 
 func (d *Decoder) readMap(length uint32) (map[any]any, error) {
+	if d.depth >= maxDepth {
+		return nil, ReadError{"nesting too deep"}
+	}
+	d.depth++
+	defer func() { d.depth-- }()
 	m := make(map[any]any, initialCap(length))
 	for i := uint32(0); i < length; i++ {
 		key, err := d.ReadAny()
-- 
2.43.0


From fccaa65942588893d074328e52eabe6df3ddf522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:20 +0000
Subject: [PATCH 12/78] fix: keep absent and failed values in the nillable
 converters

---
 go/msgpack/convert/convert.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/go/msgpack/convert/convert.go b/go/msgpack/convert/convert.go
index 455fc93..3956350 100644
--- a/go/msgpack/convert/convert.go
+++ b/go/msgpack/convert/convert.go
@@ -71,8 +71,11 @@ func String[T ~string](value string, err error) (T, error) {
 }
 
 func NillableString[T ~string](value *string, err error) (*T, error) {
+	if value == nil || err != nil {
+		return nil, err
+	}
 	ret := T(*value)
-	return &ret, err
+	return &ret, nil
 }
 
 func Bool[T ~bool](value bool, err error) (T, error) {
@@ -80,8 +83,11 @@ func Bool[T ~bool](value bool, err error) (T, error) {
 }
 
 func NillableBool[T ~bool](value *bool, err error) (*T, error) {
+	if value == nil || err != nil {
+		return nil, err
+	}
 	ret := T(*value)
-	return &ret, err
+	return &ret, nil
 }
 
 type numberic interface {
@@ -95,8 +101,11 @@ func Numeric[T, I numberic](value I, err error) (T, error) {
 }
 
 func NillableNumeric[T, I numberic](value *I, err error) (*T, error) {
+	if value == nil || err != nil {
+		return nil, err
+	}
 	ret := T(*value)
-	return &ret, err
+	return &ret, nil
 }
 
 func ByteArray[T, I ~[]byte](value I, err error) (T, error) {
-- 
2.43.0


From df39a05b140fef37225a0c7ca3fd50c5311ee851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:21 +0000
Subject: [PATCH 13/78] fix: report errors of structured values in the codec
 transforms

---
 go/transform/transform.go | 43 ++++++++++++++++++++++++++++++---------
 1 file changed, 33 insertions(+), 10 deletions(-)

diff --git a/go/transform/transform.go b/go/transform/transform.go
index a4fa130..04ac231 100644
--- a/go/transform/transform.go
+++ b/go/transform/transform.go
@@ -306,10 +306,20 @@ func CodecDecode(raw payload.Payload, value msgpack.Codec) error {
 
 func CodecEncode(value msgpack.Codec) (payload.Payload, error) {
 	sizer := msgpack.NewSizer()
-	value.Encode(&sizer)
+	if err := value.Encode(&sizer); err != nil {
+		return nil, err
+	}
+	if err := sizer.Err(); err != nil {
+		return nil, err
+	}
 	buf := make([]byte, sizer.Len())
 	encoder := msgpack.NewEncoder(buf)
-	value.Encode(&encoder)
+	if err := value.Encode(&encoder); err != nil {
+		return nil, err
+	}
+	if err := encoder.Err(); err != nil {
+		return nil, err
+	}
 	return payload.New(buf), nil
 }
 
@@ -375,16 +385,19 @@ func StringEncode[T ~string](val T) (payload.Payload, error) {
 
 func SliceDecode[T any, P MsgPackCodecPtr[T]](raw payload.Payload) ([]T, error) {
 	decoder := msgpack.NewDecoder(raw.Data())
-	size, _ := decoder.ReadArraySize()
-	items := make([]T, size)
-	i := 0
+	size, err := decoder.ReadArraySize()
+	if err != nil {
+		return nil, err
+	}
+	items := []T{}
 	for size > 0 {
 		size--
 		var item T
 		p := (P)(&item)
-		p.Decode(&decoder)
-		items[i] = item
-		i++
+		if err := p.Decode(&decoder); err != nil {
+			return nil, err
+		}
+		items = append(items, item)
 	}
 	return items, nil
 }
@@ -394,14 +407,24 @@ func SliceEncode[T any, P MsgPackCodecPtr[T]](items []T) (payload.Payload, error
 	sizer.WriteArraySize(uint32(len(items)))
 	for _, v := range items {
 		p := P(&v)
-		p.Encode(&sizer)
+		if err := p.Encode(&sizer); err != nil {
+			return nil, err
+		}
+	}
+	if err := sizer.Err(); err != nil {
+		return nil, err
 	}
 	buf := make([]byte, sizer.Len())
 	encoder := msgpack.NewEncoder(buf)
 	encoder.WriteArraySize(uint32(len(items)))
 	for _, v := range items {
 		p := P(&v)
-		p.Encode(&encoder)
+		if err := p.Encode(&encoder); err != nil {
+			return nil, err
+		}
+	}
+	if err := encoder.Err(); err != nil {
+		return nil, err
 	}
 	return payload.New(buf), nil
 }
-- 
2.43.0


From 1a2292aaf5c2839b665517c9828029727e82c20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:03 +0000
Subject: [PATCH 14/78] fix: encode the follows flag of request frames

---
 go/internal/frames/request_payload.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/go/internal/frames/request_payload.go b/go/internal/frames/request_payload.go
index f9095c1..66db8fe 100644
--- a/go/internal/frames/request_payload.go
+++ b/go/internal/frames/request_payload.go
@@ -75,6 +75,9 @@ func (f *RequestPayload) Encode(buf []byte) {
 	if f.FrameType == FrameTypeRequestChannel && f.Complete {
 		flags |= FlagComplete
 	}
+	if f.Follows {
+		flags |= FlagFollow
+	}
 
 	if metadataLen > 0 {
 		flags |= FlagMetadata
-- 
2.43.0


From fe2f1a459c2c411845e9c31187be0dd14edf1569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:04 +0000
Subject: [PATCH 15/78] fix: reject truncated frames instead of panicking

---
 go/internal/frames/error.go           |  3 +++
 go/internal/frames/payload.go         | 10 ++++------
 go/internal/frames/request_n.go       |  3 +++
 go/internal/frames/request_payload.go | 13 +++++++------
 go/internal/frames/util.go            | 19 +++++++++++++++++++
 5 files changed, 36 insertions(+), 12 deletions(-)

diff --git a/go/internal/frames/error.go b/go/internal/frames/error.go
index f6966b6..55efb64 100644
--- a/go/internal/frames/error.go
+++ b/go/internal/frames/error.go
@@ -21,6 +21,9 @@ func (f *Error) Type() FrameType {
 }
 
 func (f *Error) Decode(header *FrameHeader, payload []byte) error {
+	if len(payload) < 4 {
+		return ErrTruncatedFrame
+	}
 	code := binary.BigEndian.Uint32(payload)
 	data := string(payload[4:])
 
diff --git a/go/internal/frames/payload.go b/go/internal/frames/payload.go
index 6a6b18b..b692db7 100644
--- a/go/internal/frames/payload.go
+++ b/go/internal/frames/payload.go
@@ -32,12 +32,10 @@ func (f *Payload) Decode(header *FrameHeader, payload []byte) error {
 	metadata := emptyBuffer
 
 	if hasMetadata {
-		var mdLengthBuf [4]byte
-		copy(mdLengthBuf[1:], payload[0:3])
-		mdLength := binary.BigEndian.Uint32(mdLengthBuf[:])
-		payload = payload[3:]
-		metadata = payload[:mdLength]
-		payload = payload[mdLength:]
+		var err error
+		if metadata, payload, err = readMetadata(payload); err != nil {
+			return err
+		}
 	}
 
 	*f = Payload{
diff --git a/go/internal/frames/request_n.go b/go/internal/frames/request_n.go
index 636df9d..855a090 100644
--- a/go/internal/frames/request_n.go
+++ b/go/internal/frames/request_n.go
@@ -20,6 +20,9 @@ func (f *RequestN) Type() FrameType {
 }
 
 func (f *RequestN) Decode(header *FrameHeader, payload []byte) error {
+	if len(payload) < 4 {
+		return ErrTruncatedFrame
+	}
 	n := binary.BigEndian.Uint32(payload)
 
 	*f = RequestN{
diff --git a/go/internal/frames/request_payload.go b/go/internal/frames/request_payload.go
index 66db8fe..b8d7ca5 100644
--- a/go/internal/frames/request_payload.go
+++ b/go/internal/frames/request_payload.go
@@ -38,6 +38,9 @@ func (f *RequestPayload) Decode(header *FrameHeader, payload []byte) error {
 	complete := true
 
 	if frameType == FrameTypeRequestStream || frameType == FrameTypeRequestChannel {
+		if len(payload) < 4 {
+			return ErrTruncatedFrame
+		}
 		initialN = binary.BigEndian.Uint32(payload)
 		payload = payload[4:]
 	}
@@ -47,12 +50,10 @@ func (f *RequestPayload) Decode(header *FrameHeader, payload []byte) error {
 
 	metadata := emptyBuffer
 	if hasMetadata {
-		var mdLengthBuf [4]byte
-		copy(mdLengthBuf[1:], payload[0:3])
-		mdLength := binary.BigEndian.Uint32(mdLengthBuf[:])
-		payload = payload[3:]
-		metadata = payload[:mdLength]
-		payload = payload[mdLength:]
+		var err error
+		if metadata, payload, err = readMetadata(payload); err != nil {
+			return err
+		}
 	}
 
 	*f = RequestPayload{
diff --git a/go/internal/frames/util.go b/go/internal/frames/util.go
index d962f97..40a65df 100644
--- a/go/internal/frames/util.go
+++ b/go/internal/frames/util.go
@@ -2,8 +2,12 @@ package frames
 
 import (
 	"encoding/binary"
+	"errors"
 )
 
+// ErrTruncatedFrame is returned when a frame ends before the fields it announces.
+var ErrTruncatedFrame = errors.New("truncated frame")
+
 var emptyBuffer = []byte{}
 
 func readString(payload []byte) (string, []byte) {
@@ -14,6 +18,21 @@ func readString(payload []byte) (string, []byte) {
 	return str, payload[strLen:]
 }
 
+// readMetadata splits length-prefixed metadata from the data that follows it.
+func readMetadata(payload []byte) (metadata, data []byte, err error) {
+	if len(payload) < 3 {
+		return nil, nil, ErrTruncatedFrame
+	}
+	var mdLengthBuf [4]byte
+	copy(mdLengthBuf[1:], payload[0:3])
+	mdLength := binary.BigEndian.Uint32(mdLengthBuf[:])
+	payload = payload[3:]
+	if uint32(len(payload)) < mdLength {
+		return nil, nil, ErrTruncatedFrame
+	}
+	return payload[:mdLength], payload[mdLength:], nil
+}
+
 func splitPayloads(frames []Frame, streamID uint32, next, complete bool, maxFrameSize uint32, data, metadata []byte) []Frame {
 	for {
 		lenMd := uint32(len(metadata))
-- 
2.43.0


From fc59bdf6a76e82526151a299c0cb4320835304e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:05 +0000
Subject: [PATCH 16/78] fix: skip stream id zero when the server side wraps
 around

---
 go/internal/socket/stream_id.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/go/internal/socket/stream_id.go b/go/internal/socket/stream_id.go
index 974ab23..b25f404 100644
--- a/go/internal/socket/stream_id.go
+++ b/go/internal/socket/stream_id.go
@@ -20,9 +20,9 @@ type ServerStreamIDs uint64
 func (p *ServerStreamIDs) Next() (uint32, bool) {
 	// 2,4,6,8...
 	seed := atomic.AddUint64((*uint64)(p), 1)
-	v := 2 * seed
+	v := _maskStreamID & (2 * seed)
 	if v != 0 {
-		return uint32(_maskStreamID & v), seed <= _halfSeed
+		return uint32(v), seed <= _halfSeed
 	}
 	return p.Next()
 }
-- 
2.43.0


From 8cf5be9a83ee34614584792280e9837751ba1a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:06 +0000
Subject: [PATCH 17/78] fix: do not drop complete frames that arrive together
 with the end of the stream

---
 go/transport/rsocket/decoder.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/go/transport/rsocket/decoder.go b/go/transport/rsocket/decoder.go
index 7e9be2e..f3206e0 100644
--- a/go/transport/rsocket/decoder.go
+++ b/go/transport/rsocket/decoder.go
@@ -42,9 +42,6 @@ func (p *LengthBasedFrameDecoder) Read() (raw []byte, err error) {
 }
 
 func doSplit(data []byte, eof bool) (advance int, token []byte, err error) {
-	if eof {
-		return
-	}
 	if len(data) < lengthFieldSize {
 		return
 	}
-- 
2.43.0


From f49ee618ad6540b828044689153d73c87cf48840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:07 +0000
Subject: [PATCH 18/78] fix: do not let received frames share the read buffer

---
 go/transport/rsocket/decoder.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/go/transport/rsocket/decoder.go b/go/transport/rsocket/decoder.go
index f3206e0..aa359f2 100644
--- a/go/transport/rsocket/decoder.go
+++ b/go/transport/rsocket/decoder.go
@@ -34,7 +34,8 @@ func (p *LengthBasedFrameDecoder) Read() (raw []byte, err error) {
 		}
 		return
 	}
-	raw = scanner.Bytes()[lengthFieldSize:]
+	// The scanner reuses its buffer, but frames are queued and keep slices of it.
+	raw = append([]byte(nil), scanner.Bytes()[lengthFieldSize:]...)
 	if len(raw) < frames.FrameHeaderLen {
 		err = ErrIncompleteHeader
 	}
-- 
2.43.0


From 58c79d26a38a2af35da0c7e0ed74119098eacf7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:08 +0000
Subject: [PATCH 19/78] fix: report frames too long to send instead of
 panicking

---
 go/transport/rsocket/tcp_conn.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/go/transport/rsocket/tcp_conn.go b/go/transport/rsocket/tcp_conn.go
index 7d36c89..9ccdd11 100644
--- a/go/transport/rsocket/tcp_conn.go
+++ b/go/transport/rsocket/tcp_conn.go
@@ -100,7 +100,12 @@ func (p *TCPConn) Write(frame frames.Frame) (err error) {
 	// if p.counter != nil && frame.Header().Resumable() {
 	// 	p.counter.IncWriteBytes(size)
 	// }
-	_, err = u24.MustNewUint24(size).WriteTo(p.writer)
+	length, err := u24.NewUint24(size)
+	if err != nil {
+		err = fmt.Errorf("write frame failed: %w", err)
+		return
+	}
+	_, err = length.WriteTo(p.writer)
 	if err != nil {
 		err = fmt.Errorf("write frame failed: %w", err)
 		return
-- 
2.43.0


From 03657230b22ab0a7a22cf92c5451a121a6263d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:09 +0000
Subject: [PATCH 20/78] fix: serialise writes of concurrent senders on a
 connection

---
 go/transport/rsocket/transport.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/go/transport/rsocket/transport.go b/go/transport/rsocket/transport.go
index e043506..98039f8 100644
--- a/go/transport/rsocket/transport.go
+++ b/go/transport/rsocket/transport.go
@@ -50,6 +50,7 @@ type ServerTransport interface {
 // Transport is RSocket transport which is used to carry RSocket frames.
 type Transport struct {
 	conn        Conn
+	writeMu     sync.Mutex
 	maxLifetime time.Duration
 	once        sync.Once
 	handler     DuplexHandler
@@ -104,6 +105,8 @@ func (p *Transport) Send(frame frames.Frame, flush bool) (err error) {
 		err = errTransportClosed
 		return
 	}
+	p.writeMu.Lock()
+	defer p.writeMu.Unlock()
 	err = p.conn.Write(frame)
 	if err != nil {
 		return
@@ -121,6 +124,8 @@ func (p *Transport) Flush() (err error) {
 		err = errTransportClosed
 		return
 	}
+	p.writeMu.Lock()
+	defer p.writeMu.Unlock()
 	err = p.conn.Flush()
 	return
 }
-- 
2.43.0


From 519f5c1251a4a1262411e8fd52dbee627b952a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:10 +0000
Subject: [PATCH 21/78] fix: reject truncated operation tables

---
 go/operations/operatons.go | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/go/operations/operatons.go b/go/operations/operatons.go
index bca2fb2..d8ff323 100644
--- a/go/operations/operatons.go
+++ b/go/operations/operatons.go
@@ -63,7 +63,16 @@ func (d Direction) String() string {
 var Magic = []byte{0x00, 0x77, 0x72, 0x73}
 var ErrInvalidMagicNumber = errors.New("invalid magic number")
 
+// ErrTruncated is returned when a table ends before the operations it announces.
+var ErrTruncated = errors.New("truncated operation table")
+
+// minOperationSize is the encoded size of an operation without names.
+const minOperationSize = 12
+
 func FromBytes(buf []byte) (Table, error) {
+	if len(buf) < 10 {
+		return nil, ErrTruncated
+	}
 	if !bytes.Equal(buf[0:4], Magic) {
 		return nil, ErrInvalidMagicNumber
 	}
@@ -76,18 +85,30 @@ func FromBytes(buf []byte) (Table, error) {
 	}
 	buf = buf[2:]
 	numOps := binary.BigEndian.Uint32(buf)
-	operations := make(Table, numOps)
 	buf = buf[4:]
+	if uint64(numOps)*minOperationSize > uint64(len(buf)) {
+		return nil, ErrTruncated
+	}
+	operations := make(Table, numOps)
 	for i := 0; i < int(numOps); i++ {
+		if len(buf) < minOperationSize {
+			return nil, ErrTruncated
+		}
 		opType := RequestType(buf[0])
 		dir := Direction(buf[1])
 		id := binary.BigEndian.Uint32(buf[2:6])
 		nsLen := binary.BigEndian.Uint16(buf[6:8])
 		buf = buf[8:]
+		if len(buf) < int(nsLen)+2 {
+			return nil, ErrTruncated
+		}
 		ns := string(buf[:nsLen])
 		buf = buf[nsLen:]
 		opLen := binary.BigEndian.Uint16(buf[0:2])
 		buf = buf[2:]
+		if len(buf) < int(opLen)+2 {
+			return nil, ErrTruncated
+		}
 		op := string(buf[:opLen])
 		buf = buf[opLen:]
 		operations[i] = Operation{
@@ -98,7 +119,11 @@ func FromBytes(buf []byte) (Table, error) {
 			Operation: op,
 		}
 		reservedLen := binary.BigEndian.Uint16(buf)
-		buf = buf[2+reservedLen:] // Reserved
+		buf = buf[2:]
+		if len(buf) < int(reservedLen) {
+			return nil, ErrTruncated
+		}
+		buf = buf[reservedLen:] // Reserved
 	}
 
 	return operations, nil
-- 
2.43.0


From c46a586059c11e9ee7ad5f4cec5be9c4a877847f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:40 +0000
Subject: [PATCH 22/78] fix: do not send metadata twice when fragmenting a
 request

---
 go/internal/frames/request_payload.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/go/internal/frames/request_payload.go b/go/internal/frames/request_payload.go
index b8d7ca5..36751e0 100644
--- a/go/internal/frames/request_payload.go
+++ b/go/internal/frames/request_payload.go
@@ -162,6 +162,7 @@ func (f *RequestPayload) Fragment(maxFrameSize uint32) []Frame {
 			Complete:  false,
 			InitialN:  f.InitialN,
 		})
+		metadata = nil // sent in full
 	}
 
 	frames = splitPayloads(frames, f.StreamID, true, f.Complete, maxFrameSize, data, metadata)
-- 
2.43.0


From a2a4ff6875ba5879b04527606c771fd91ba8be8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:05 +0000
Subject: [PATCH 23/78] fix: signal the end of constant monos

---
 go/rx/mono/mono.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/go/rx/mono/mono.go b/go/rx/mono/mono.go
index 002c985..047ccc6 100644
--- a/go/rx/mono/mono.go
+++ b/go/rx/mono/mono.go
@@ -42,6 +42,9 @@ func (e errorSingle[T]) Subscribe(sub Subscribe[T]) Mono[T] {
 	if sub.OnError != nil {
 		sub.OnError(e.err)
 	}
+	if sub.Finally != nil {
+		sub.Finally(rx.SignalError)
+	}
 	return e
 }
 
@@ -74,6 +77,9 @@ func (j justSingle[T]) Subscribe(sub Subscribe[T]) Mono[T] {
 	if sub.OnSuccess != nil {
 		sub.OnSuccess(j.value)
 	}
+	if sub.Finally != nil {
+		sub.Finally(rx.SignalComplete)
+	}
 	return j
 }
 
-- 
2.43.0


From 926f5f31590ca373c16ed84a0b975fde0ff96088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:07 +0000
Subject: [PATCH 24/78] fix: settle every mono once, whoever signals, waits or
 blocks

---
 go/rx/mono/mono.go      | 69 ++++++++++++++++++++++++++++++++---------
 go/rx/mono/mono_host.go | 26 ++++++----------
 2 files changed, 63 insertions(+), 32 deletions(-)

diff --git a/go/rx/mono/mono.go b/go/rx/mono/mono.go
index 047ccc6..00f5c9c 100644
--- a/go/rx/mono/mono.go
+++ b/go/rx/mono/mono.go
@@ -1,6 +1,8 @@
 package mono
 
 import (
+	"sync"
+
 	"github.com/nanobus/iota/go/rx"
 )
 
@@ -105,7 +107,9 @@ func Create[T any](source Source[T]) Mono[T] {
 }
 
 type mono[T any] struct {
-	source     Source[T]
+	source Source[T]
+
+	mu         sync.Mutex // Guards the fields below and the state of the subscriber
 	subscriber *subscriber[T]
 	callbacks  []rx.FnFinally
 }
@@ -118,12 +122,25 @@ func (m *mono[T]) Subscribe(sub Subscribe[T]) Mono[T] {
 		doOnSubscribe: sub.OnRequest,
 		doFinally:     sub.Finally,
 	}
+	m.mu.Lock()
 	m.subscriber = &wrapper
+	m.mu.Unlock()
 	m.source(&wrapper)
 	return m
 }
 
 func (m *mono[T]) Async() {
+	// If treated like an awaitable and not subscribed,
+	// then subscribe without callbacks.
+	m.mu.Lock()
+	if m.subscriber != nil {
+		m.mu.Unlock()
+		return
+	}
+	wrapper := subscriber[T]{m: m}
+	m.subscriber = &wrapper
+	m.mu.Unlock()
+	m.source(&wrapper)
 }
 
 func (m *mono[T]) Notify(fn rx.FnFinally) {
@@ -132,23 +149,30 @@ func (m *mono[T]) Notify(fn rx.FnFinally) {
 	// 	m.subscriber = &wrapper
 	// 	m.source(&wrapper)
 	// }
-	if m.subscriber != nil && m.subscriber.closed {
-		fn(m.subscriber.signal)
+	m.mu.Lock()
+	if m.subscriber != nil && m.subscriber.done {
+		signal := m.subscriber.signal
+		m.mu.Unlock()
+		fn(signal)
 		return
 	}
 
 	m.callbacks = append(m.callbacks, fn)
+	m.mu.Unlock()
 }
 
 func (m *mono[T]) Get() (ret T, err error) {
-	if !m.subscriber.closed {
+	m.mu.Lock()
+	defer m.mu.Unlock()
+	if m.subscriber == nil || !m.subscriber.closed {
 		panic("mono: Get called before completion")
 	}
 	return m.subscriber.value, m.subscriber.err
 }
 
 type subscriber[T any] struct {
-	closed bool
+	closed bool // The outcome is decided
+	done   bool // The outcome has been signalled
 	value  T
 	err    error
 	signal rx.SignalType
@@ -160,12 +184,24 @@ type subscriber[T any] struct {
 	doFinally     rx.FnFinally
 }
 
-func (s *subscriber[T]) Success(value T) {
+// close decides the outcome unless it was decided before.
+func (s *subscriber[T]) close(value T, err error, signal rx.SignalType) bool {
+	s.m.mu.Lock()
+	defer s.m.mu.Unlock()
 	if s.closed {
-		return
+		return false
 	}
-	s.value = value
 	s.closed = true
+	s.value = value
+	s.err = err
+	s.signal = signal
+	return true
+}
+
+func (s *subscriber[T]) Success(value T) {
+	if !s.close(value, nil, rx.SignalComplete) {
+		return
+	}
 	if s.doOnSuccess != nil {
 		s.doOnSuccess(value)
 	}
@@ -173,11 +209,10 @@ func (s *subscriber[T]) Success(value T) {
 }
 
 func (s *subscriber[T]) Error(err error) {
-	if s.closed {
+	var dummy T
+	if !s.close(dummy, err, rx.SignalError) {
 		return
 	}
-	s.err = err
-	s.closed = true
 	if s.doOnError != nil {
 		s.doOnError(err)
 	}
@@ -185,20 +220,24 @@ func (s *subscriber[T]) Error(err error) {
 }
 
 func (s *subscriber[T]) finally(signal rx.SignalType) {
-	s.signal = signal
 	if s.doFinally != nil {
 		s.doFinally(signal)
 	}
-	for _, fn := range s.m.callbacks {
+	s.m.mu.Lock()
+	s.done = true
+	callbacks := s.m.callbacks
+	s.m.callbacks = nil
+	s.m.mu.Unlock()
+	for _, fn := range callbacks {
 		fn(signal)
 	}
 }
 
 func (s *subscriber[T]) Cancel() {
-	if s.closed {
+	var dummy T
+	if !s.close(dummy, nil, rx.SignalCancel) {
 		return
 	}
-	s.closed = true
 	s.finally(rx.SignalCancel)
 }
 
diff --git a/go/rx/mono/mono_host.go b/go/rx/mono/mono_host.go
index 72e0c0d..8383813 100644
--- a/go/rx/mono/mono_host.go
+++ b/go/rx/mono/mono_host.go
@@ -3,31 +3,23 @@
 
 package mono
 
+import (
+	"github.com/nanobus/iota/go/rx"
+)
+
 type Blockable[T any] interface {
 	Block() (T, error)
 }
 
 func (s *mono[T]) Block() (ret T, err error) {
-	if s.subscriber != nil && s.subscriber.closed {
-		return s.subscriber.value, s.subscriber.err
-	}
-
+	go s.Async() // Subscribe only if that has not happened yet
 	done := make(chan struct{})
-	go func() {
-		s.Subscribe(Subscribe[T]{
-			OnSuccess: func(value T) {
-				ret = value
-				close(done)
-			},
-			OnError: func(e error) {
-				err = e
-				close(done)
-			},
-		})
-	}()
+	s.Notify(func(rx.SignalType) {
+		close(done)
+	})
 
 	<-done
-	return ret, err
+	return s.Get()
 }
 
 func (b *mapper[S, D]) Block() (ret D, err error) {
-- 
2.43.0


From 03f07072d2b8e2152c97b62cb1087c0c052a610a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:08 +0000
Subject: [PATCH 25/78] fix: keep the first outcome of a mono processor

---
 go/rx/mono/processor.go | 45 +++++++++++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 15 deletions(-)

diff --git a/go/rx/mono/processor.go b/go/rx/mono/processor.go
index a7bb35d..a1f55b9 100644
--- a/go/rx/mono/processor.go
+++ b/go/rx/mono/processor.go
@@ -1,5 +1,7 @@
 package mono
 
+import "sync"
+
 type Processor[T any] interface {
 	Mono[T]
 	Sink[T]
@@ -7,19 +9,20 @@ type Processor[T any] interface {
 
 type ProcessorImpl[T any] struct {
 	Mono[T]
+	mu      sync.Mutex
 	sink    Sink[T]
-	success *T
-	err     error
+	pending func(Sink[T]) // First signal when it came before the subscription
 }
 
 func NewProcessor[T any]() *ProcessorImpl[T] {
 	p := &ProcessorImpl[T]{}
 	p.Mono = Create(func(sink Sink[T]) {
+		p.mu.Lock()
 		p.sink = sink
-		if p.success != nil {
-			sink.Success(*p.success)
-		} else if p.err != nil {
-			sink.Error(p.err)
+		pending := p.pending
+		p.mu.Unlock()
+		if pending != nil {
+			pending(sink)
 		}
 	})
 
@@ -27,17 +30,29 @@ func NewProcessor[T any]() *ProcessorImpl[T] {
 }
 
 func (p *ProcessorImpl[T]) Success(value T) {
-	if p.sink != nil {
-		p.sink.Success(value)
-	} else {
-		p.success = &value
-	}
+	p.signal(func(sink Sink[T]) {
+		sink.Success(value)
+	})
 }
 
 func (p *ProcessorImpl[T]) Error(err error) {
-	if p.sink != nil {
-		p.sink.Error(err)
-	} else {
-		p.err = err
+	p.signal(func(sink Sink[T]) {
+		sink.Error(err)
+	})
+}
+
+func (p *ProcessorImpl[T]) signal(fn func(Sink[T])) {
+	p.mu.Lock()
+	if p.pending != nil {
+		p.mu.Unlock()
+		return
+	}
+	sink := p.sink
+	if sink == nil {
+		p.pending = fn
+	}
+	p.mu.Unlock()
+	if sink != nil {
+		fn(sink)
 	}
 }
-- 
2.43.0


From 1112a1ecbd11592b802dc5a670f1063acd2f83af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:06 +0000
Subject: [PATCH 26/78] fix: transform the value of a mapped mono once and
 report its failure everywhere

---
 go/rx/mono/mono.go      | 59 ++++++++++++++++++++++++++++++++++-------
 go/rx/mono/mono_host.go | 17 +-----------
 2 files changed, 51 insertions(+), 25 deletions(-)

diff --git a/go/rx/mono/mono.go b/go/rx/mono/mono.go
index 00f5c9c..c599047 100644
--- a/go/rx/mono/mono.go
+++ b/go/rx/mono/mono.go
@@ -251,12 +251,44 @@ func Map[S any | ~[]any, D any](mono Mono[S], tx rx.Transform[S, D]) Mono[D] {
 type mapper[S any, D any] struct {
 	mono Mono[S]
 	tx   rx.Transform[S, D]
+
+	mu        sync.Mutex // Guards the fields below
+	converted bool
+	value     D
+	err       error
+}
+
+// convert transforms a new value of the source.
+func (b *mapper[S, D]) convert(value S) (D, error) {
+	b.mu.Lock()
+	defer b.mu.Unlock()
+	b.value, b.err = b.tx(value)
+	b.converted = true
+	return b.value, b.err
+}
+
+// result returns the transformed outcome of the source. It transforms
+// the value only if that has not been done for a subscriber already.
+func (b *mapper[S, D]) result(value S, err error) (D, error) {
+	b.mu.Lock()
+	defer b.mu.Unlock()
+	if err != nil {
+		var dummy D
+		return dummy, err
+	}
+	if !b.converted {
+		b.value, b.err = b.tx(value)
+		b.converted = true
+	}
+	return b.value, b.err
 }
 
 func (b *mapper[S, D]) Subscribe(sub Subscribe[D]) Mono[D] {
+	failed := false
 	b.mono.Subscribe(Subscribe[S]{
 		OnSuccess: func(value S) {
-			converted, err := b.tx(value)
+			converted, err := b.convert(value)
+			failed = err != nil
 			if err != nil {
 				if sub.OnError != nil {
 					sub.OnError(err)
@@ -269,7 +301,14 @@ func (b *mapper[S, D]) Subscribe(sub Subscribe[D]) Mono[D] {
 		},
 		OnError:   sub.OnError,
 		OnRequest: sub.OnRequest,
-		Finally:   sub.Finally,
+		Finally: func(signal rx.SignalType) {
+			if failed {
+				signal = rx.SignalError
+			}
+			if sub.Finally != nil {
+				sub.Finally(signal)
+			}
+		},
 	})
 	return b
 }
@@ -279,14 +318,16 @@ func (b *mapper[S, D]) Async() {
 }
 
 func (b *mapper[S, D]) Notify(fn rx.FnFinally) {
-	b.mono.Notify(fn)
+	b.mono.Notify(func(signal rx.SignalType) {
+		if signal == rx.SignalComplete {
+			if _, err := b.Get(); err != nil {
+				signal = rx.SignalError
+			}
+		}
+		fn(signal)
+	})
 }
 
 func (b *mapper[S, D]) Get() (D, error) {
-	var d D
-	v, err := b.mono.Get()
-	if err != nil {
-		return d, err
-	}
-	return b.tx(v)
+	return b.result(b.mono.Get())
 }
diff --git a/go/rx/mono/mono_host.go b/go/rx/mono/mono_host.go
index 8383813..0c086f7 100644
--- a/go/rx/mono/mono_host.go
+++ b/go/rx/mono/mono_host.go
@@ -23,20 +23,5 @@ func (s *mono[T]) Block() (ret T, err error) {
 }
 
 func (b *mapper[S, D]) Block() (ret D, err error) {
-	done := make(chan struct{})
-	go func() {
-		b.Subscribe(Subscribe[D]{
-			OnSuccess: func(value D) {
-				ret = value
-				close(done)
-			},
-			OnError: func(e error) {
-				err = e
-				close(done)
-			},
-		})
-	}()
-
-	<-done
-	return ret, err
+	return b.result(b.mono.Block())
 }
-- 
2.43.0


From 636c44a568b4064090482d749945b696803fcd37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:07 +0000
Subject: [PATCH 27/78] fix: signal the end of flux.Error

---
 go/rx/flux/flux.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/go/rx/flux/flux.go b/go/rx/flux/flux.go
index 864f7e5..36c7efb 100644
--- a/go/rx/flux/flux.go
+++ b/go/rx/flux/flux.go
@@ -47,6 +47,9 @@ func (e errorFlow[T]) Subscribe(sub Subscribe[T]) Flux[T] {
 	if sub.OnError != nil {
 		sub.OnError(e.err)
 	}
+	if sub.Finally != nil {
+		sub.Finally(rx.SignalError)
+	}
 	return e
 }
 
-- 
2.43.0


From c690ed8a512051fb93473ea056dedeec45041540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:09 +0000
Subject: [PATCH 28/78] fix: start FromSlice over for every subscription

---
 go/rx/flux/slice.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/go/rx/flux/slice.go b/go/rx/flux/slice.go
index d3b2881..fcbc79d 100644
--- a/go/rx/flux/slice.go
+++ b/go/rx/flux/slice.go
@@ -2,6 +2,7 @@ package flux
 
 func FromSlice[T any](values []T) Flux[T] {
 	return Create(func(sink Sink[T]) {
+		values := values // Every subscription starts over
 		sink.OnSubscribe(OnSubscribe{
 			Request: func(n int) {
 				for i := n; i > 0 && len(values) != 0; i-- {
-- 
2.43.0


From cde4d03726f7b752150e7c6158a4531738ab02ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:11 +0000
Subject: [PATCH 29/78] fix: end every flux once and block on it without a
 panic

---
 go/rx/flux/flux.go      | 122 ++++++++++++++++++++++++++++++++--------
 go/rx/flux/flux_host.go |  19 +++++--
 go/rx/flux/processor.go |  40 +++++++++----
 3 files changed, 140 insertions(+), 41 deletions(-)

diff --git a/go/rx/flux/flux.go b/go/rx/flux/flux.go
index 36c7efb..1847746 100644
--- a/go/rx/flux/flux.go
+++ b/go/rx/flux/flux.go
@@ -1,6 +1,8 @@
 package flux
 
 import (
+	"sync"
+
 	"github.com/nanobus/iota/go/rx"
 )
 
@@ -74,7 +76,9 @@ func Create[T any](source Source[T]) Flux[T] {
 }
 
 type flux[T any] struct {
-	source     Source[T]
+	source Source[T]
+
+	mu         sync.Mutex // Guards the fields below and the state of the subscriber
 	subscriber *subscriber[T]
 	callbacks  []rx.FnFinally
 }
@@ -89,28 +93,56 @@ func (f *flux[T]) Subscribe(sub Subscribe[T]) Flux[T] {
 		f:            f,
 		noRequest:    sub.NoRequest,
 	}
+	f.mu.Lock()
 	f.subscriber = &s
-	f.source(&s)
-	s.handleOnSubscribe()
+	f.mu.Unlock()
+	f.start(&s)
 	return f
 }
 
+func (f *flux[T]) start(s *subscriber[T]) {
+	f.source(s)
+	s.handleOnSubscribe()
+}
+
 func (f *flux[T]) Subscription() rx.Subscription {
+	f.mu.Lock()
+	defer f.mu.Unlock()
+	if f.subscriber == nil {
+		return nil
+	}
 	return f.subscriber
 }
 
-func (f *flux[T]) Async() {}
+func (f *flux[T]) Async() {
+	// If treated like an awaitable and not subscribed,
+	// then subscribe without callbacks.
+	f.mu.Lock()
+	if f.subscriber != nil {
+		f.mu.Unlock()
+		return
+	}
+	s := subscriber[T]{f: f}
+	f.subscriber = &s
+	f.mu.Unlock()
+	f.start(&s)
+}
 
 func (f *flux[T]) Notify(fn rx.FnFinally) {
-	if f.subscriber != nil && f.subscriber.closed {
-		fn(f.subscriber.signal)
+	f.mu.Lock()
+	if f.subscriber != nil && f.subscriber.done {
+		signal := f.subscriber.signal
+		f.mu.Unlock()
+		fn(signal)
 		return
 	}
 	f.callbacks = append(f.callbacks, fn)
+	f.mu.Unlock()
 }
 
 type subscriber[T any] struct {
-	closed    bool
+	closed    bool // The stream has ended
+	done      bool // The end has been signalled
 	n         int
 	err       error
 	sub       OnSubscribe
@@ -124,28 +156,52 @@ type subscriber[T any] struct {
 	doOnRequest  rx.FnOnSubscribe
 	doFinally    rx.FnFinally
 
-	mu mutex
+	mu mutex // Serializes calls of sub.Request
+}
+
+// close ends the stream unless it has ended before.
+func (s *subscriber[T]) close(err error, signal rx.SignalType) bool {
+	s.f.mu.Lock()
+	defer s.f.mu.Unlock()
+	if s.closed {
+		return false
+	}
+	s.closed = true
+	s.err = err
+	s.signal = signal
+	return true
+}
+
+func (s *subscriber[T]) isClosed() bool {
+	s.f.mu.Lock()
+	defer s.f.mu.Unlock()
+	return s.closed
 }
 
 func (s *subscriber[T]) Next(value T) {
+	s.f.mu.Lock()
 	if s.closed {
+		s.f.mu.Unlock()
 		return
 	}
 	s.n--
+	s.f.mu.Unlock()
 	if s.doOnNext != nil {
 		s.doOnNext(value)
 	}
 
-	if s.n == 0 {
+	s.f.mu.Lock()
+	exhausted := s.n == 0
+	s.f.mu.Unlock()
+	if exhausted {
 		s.handleOnSubscribe()
 	}
 }
 
 func (s *subscriber[T]) Complete() {
-	if s.closed {
+	if !s.close(nil, rx.SignalComplete) {
 		return
 	}
-	s.closed = true
 	if s.doOnComplete != nil {
 		s.doOnComplete()
 	}
@@ -153,11 +209,9 @@ func (s *subscriber[T]) Complete() {
 }
 
 func (s *subscriber[T]) Error(err error) {
-	if s.closed {
+	if !s.close(err, rx.SignalError) {
 		return
 	}
-	s.err = err
-	s.closed = true
 	if s.doOnError != nil {
 		s.doOnError(err)
 	}
@@ -165,27 +219,35 @@ func (s *subscriber[T]) Error(err error) {
 }
 
 func (s *subscriber[T]) finally(signal rx.SignalType) {
-	s.signal = signal
 	if s.doFinally != nil {
 		s.doFinally(signal)
 	}
-	for _, fn := range s.f.callbacks {
+	s.f.mu.Lock()
+	s.done = true
+	callbacks := s.f.callbacks
+	s.f.callbacks = nil
+	s.f.mu.Unlock()
+	for _, fn := range callbacks {
 		fn(signal)
 	}
 }
 
 func (s *subscriber[T]) OnSubscribe(sub OnSubscribe) {
+	s.f.mu.Lock()
 	if s.closed {
+		s.f.mu.Unlock()
 		return
 	}
 	s.sub = sub
-	if s.n > 0 {
-		s.doRequest(s.n)
+	n := s.n
+	s.f.mu.Unlock()
+	if n > 0 && sub.Request != nil {
+		s.doRequest(n)
 	}
 }
 
 func (s *subscriber[T]) handleOnSubscribe() {
-	if s.noRequest {
+	if s.noRequest || s.isClosed() {
 		return
 	}
 	if s.doOnRequest != nil {
@@ -196,24 +258,34 @@ func (s *subscriber[T]) handleOnSubscribe() {
 }
 
 func (s *subscriber[T]) Request(n int) {
+	if n <= 0 {
+		return
+	}
+	s.f.mu.Lock()
+	if s.closed {
+		s.f.mu.Unlock()
+		return
+	}
 	s.n += n
-	if s.sub.Request != nil {
+	ready := s.sub.Request != nil
+	s.f.mu.Unlock()
+	if ready {
 		s.doRequest(n)
 	}
 }
 
 func (s *subscriber[T]) Cancel() {
-	s.closed = true
+	if !s.close(nil, rx.SignalCancel) {
+		return
+	}
 	if s.sub.Cancel != nil {
 		s.sub.Cancel()
 	}
-	if s.doFinally != nil {
-		s.doFinally(rx.SignalCancel)
-	}
+	s.finally(rx.SignalCancel)
 }
 
 func (s *subscriber[T]) Close() {
-	s.closed = true
+	s.close(nil, rx.SignalCancel)
 }
 
 func Map[S, D any](f Flux[S], tx rx.Transform[S, D]) Flux[D] {
diff --git a/go/rx/flux/flux_host.go b/go/rx/flux/flux_host.go
index bdf98f5..b870fc6 100644
--- a/go/rx/flux/flux_host.go
+++ b/go/rx/flux/flux_host.go
@@ -21,16 +21,27 @@ func (s *subscriber[T]) doRequest(n int) {
 	go func(n int) {
 		s.mu.Lock()
 		defer s.mu.Unlock()
-		s.sub.Request(n)
+		if !s.isClosed() {
+			s.sub.Request(n)
+		}
 	}(n)
 }
 
 func (f *flux[T]) Block(sub Subscribe[T]) (err error) {
-	if f.subscriber.closed {
-		return f.subscriber.err
+	f.mu.Lock()
+	subscriber := f.subscriber
+	f.mu.Unlock()
+	if subscriber == nil {
+		return Block(Flux[T](f), sub)
 	}
 
-	return Block(Flux[T](f), sub)
+	// Subscribed already, so there is only the end to wait for.
+	done := make(chan struct{})
+	f.Notify(func(rx.SignalType) {
+		close(done)
+	})
+	<-done
+	return subscriber.err
 }
 
 func (b mapper[S, D]) Block(sub Subscribe[D]) (err error) {
diff --git a/go/rx/flux/processor.go b/go/rx/flux/processor.go
index 10770a6..51d20cf 100644
--- a/go/rx/flux/processor.go
+++ b/go/rx/flux/processor.go
@@ -1,5 +1,7 @@
 package flux
 
+import "sync"
+
 type Processor[T any] interface {
 	Flux[T]
 	Sink[T]
@@ -7,6 +9,7 @@ type Processor[T any] interface {
 
 type processor[T any] struct {
 	Flux[T]
+	mu   sync.Mutex
 	sink Sink[T]
 	sub  *OnSubscribe
 }
@@ -14,38 +17,51 @@ type processor[T any] struct {
 func NewProcessor[T any]() Processor[T] {
 	p := &processor[T]{}
 	p.Flux = Create(func(sink Sink[T]) {
+		p.mu.Lock()
 		p.sink = sink
-		if p.sub != nil {
-			sink.OnSubscribe(*p.sub)
-			p.sub = nil
+		sub := p.sub
+		p.sub = nil
+		p.mu.Unlock()
+		if sub != nil {
+			sink.OnSubscribe(*sub)
 		}
 	})
 
 	return p
 }
 
+func (p *processor[T]) getSink() Sink[T] {
+	p.mu.Lock()
+	defer p.mu.Unlock()
+	return p.sink
+}
+
 func (p *processor[T]) Next(value T) {
-	if p.sink != nil {
-		p.sink.Next(value)
+	if sink := p.getSink(); sink != nil {
+		sink.Next(value)
 	}
 }
 
 func (p *processor[T]) Complete() {
-	if p.sink != nil {
-		p.sink.Complete()
+	if sink := p.getSink(); sink != nil {
+		sink.Complete()
 	}
 }
 
 func (p *processor[T]) Error(err error) {
-	if p.sink != nil {
-		p.sink.Error(err)
+	if sink := p.getSink(); sink != nil {
+		sink.Error(err)
 	}
 }
 
 func (p *processor[T]) OnSubscribe(sub OnSubscribe) {
-	if p.sink != nil {
-		p.sink.OnSubscribe(sub)
-	} else {
+	p.mu.Lock()
+	sink := p.sink
+	if sink == nil {
 		p.sub = &sub
 	}
+	p.mu.Unlock()
+	if sink != nil {
+		sink.OnSubscribe(sub)
+	}
 }
-- 
2.43.0


From ba6ee5fdea87cd6639888d15ca9765131d401973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:57 +0000
Subject: [PATCH 30/78] fix: end a mapped flux with the error of a failing
 transformation

---
 go/rx/flux/flux.go      | 68 +++++++++++++++++++++++++++++------------
 go/rx/flux/flux_host.go | 13 ++++++--
 2 files changed, 59 insertions(+), 22 deletions(-)

diff --git a/go/rx/flux/flux.go b/go/rx/flux/flux.go
index 1847746..6a74aa6 100644
--- a/go/rx/flux/flux.go
+++ b/go/rx/flux/flux.go
@@ -289,7 +289,7 @@ func (s *subscriber[T]) Close() {
 }
 
 func Map[S, D any](f Flux[S], tx rx.Transform[S, D]) Flux[D] {
-	return mapper[S, D]{
+	return &mapper[S, D]{
 		f:  f,
 		tx: tx,
 	}
@@ -298,24 +298,35 @@ func Map[S, D any](f Flux[S], tx rx.Transform[S, D]) Flux[D] {
 type mapper[S, D any] struct {
 	f  Flux[S]
 	tx rx.Transform[S, D]
+
+	mu  sync.Mutex
+	err error // Failure of the transformation
 }
 
-type closable[T any] interface {
-	Close()
+func (m *mapper[S, D]) failure() error {
+	m.mu.Lock()
+	defer m.mu.Unlock()
+	return m.err
 }
 
-func (m mapper[S, D]) Subscribe(sub Subscribe[D]) Flux[D] {
+func (m *mapper[S, D]) Subscribe(sub Subscribe[D]) Flux[D] {
+	m.mu.Lock()
+	m.err = nil
+	m.mu.Unlock()
 	m.f.Subscribe(Subscribe[S]{
 		OnNext: func(value S) {
-			if converted, err := m.tx(value); err != nil {
-				if close, ok := m.f.(closable[S]); ok {
-					close.Close()
-				}
-				if sub.OnError != nil {
-					sub.OnError(err)
-				}
-				if sub.Finally != nil {
-					sub.Finally(rx.SignalError)
+			if m.failure() != nil {
+				return
+			}
+			converted, err := m.tx(value)
+			if err != nil {
+				// The end of the source, which cancelling brings about,
+				// is reported as this error.
+				m.mu.Lock()
+				m.err = err
+				m.mu.Unlock()
+				if s := m.f.Subscription(); s != nil {
+					s.Cancel()
 				}
 			} else if sub.OnNext != nil {
 				sub.OnNext(converted)
@@ -324,20 +335,37 @@ func (m mapper[S, D]) Subscribe(sub Subscribe[D]) Flux[D] {
 		OnComplete: sub.OnComplete,
 		OnError:    sub.OnError,
 		OnRequest:  sub.OnRequest,
-		Finally:    sub.Finally,
-		NoRequest:  sub.NoRequest,
+		Finally: func(signal rx.SignalType) {
+			if err := m.failure(); err != nil {
+				signal = rx.SignalError
+				if sub.OnError != nil {
+					sub.OnError(err)
+				}
+			}
+			if sub.Finally != nil {
+				sub.Finally(signal)
+			}
+		},
+		NoRequest: sub.NoRequest,
 	})
 	return m
 }
 
-func (m mapper[S, D]) Async() {
-	m.f.Async()
+func (m *mapper[S, D]) Async() {
+	if m.f.Subscription() == nil {
+		m.Subscribe(Subscribe[D]{})
+	}
 }
 
-func (m mapper[S, D]) Notify(fn rx.FnFinally) {
-	m.f.Notify(fn)
+func (m *mapper[S, D]) Notify(fn rx.FnFinally) {
+	m.f.Notify(func(signal rx.SignalType) {
+		if m.failure() != nil {
+			signal = rx.SignalError
+		}
+		fn(signal)
+	})
 }
 
-func (m mapper[S, D]) Subscription() rx.Subscription {
+func (m *mapper[S, D]) Subscription() rx.Subscription {
 	return m.f.Subscription()
 }
diff --git a/go/rx/flux/flux_host.go b/go/rx/flux/flux_host.go
index b870fc6..05a7d8b 100644
--- a/go/rx/flux/flux_host.go
+++ b/go/rx/flux/flux_host.go
@@ -44,8 +44,17 @@ func (f *flux[T]) Block(sub Subscribe[T]) (err error) {
 	return subscriber.err
 }
 
-func (b mapper[S, D]) Block(sub Subscribe[D]) (err error) {
-	return Block(Flux[D](b), sub)
+func (b *mapper[S, D]) Block(sub Subscribe[D]) (err error) {
+	if b.f.Subscription() == nil {
+		return Block(Flux[D](b), sub)
+	}
+
+	// Subscribed already, so there is only the end to wait for.
+	err = b.f.Block(Subscribe[S]{})
+	if failure := b.failure(); failure != nil {
+		err = failure
+	}
+	return err
 }
 
 func Block[T any](f Flux[T], sub Subscribe[T]) (err error) {
-- 
2.43.0


From 775e26e54bedb506f0c59e88759fc2279c2d37d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:58 +0000
Subject: [PATCH 31/78] fix: start each step of a flow once, after everything
 it awaits

---
 go/rx/flow/flow.go | 39 ++++++++++++++++++++-------------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/go/rx/flow/flow.go b/go/rx/flow/flow.go
index 874f617..cccff06 100644
--- a/go/rx/flow/flow.go
+++ b/go/rx/flow/flow.go
@@ -1,6 +1,8 @@
 package flow
 
 import (
+	"sync/atomic"
+
 	"github.com/nanobus/iota/go/rx"
 	"github.com/nanobus/iota/go/rx/await"
 	"github.com/nanobus/iota/go/rx/flux"
@@ -13,9 +15,7 @@ type (
 		monoSink mono.Sink[T]
 		fluxSink flux.Sink[T]
 
-		ended      bool
-		completed  int
-		awaitables []await.Awaitable
+		ended bool
 	}
 
 	StepFn func() (await.Group, error)
@@ -48,7 +48,7 @@ func (f *Flow[T]) Complete() (await.Group, error) {
 	}
 	f.fluxSink.Complete()
 
-	return nil, nil
+	return f.End()
 }
 
 func (f *Flow[T]) Success(value T) (await.Group, error) {
@@ -57,7 +57,7 @@ func (f *Flow[T]) Success(value T) (await.Group, error) {
 	}
 	f.monoSink.Success(value)
 
-	return nil, nil
+	return f.End()
 }
 
 func (f *Flow[T]) Error(err error) (await.Group, error) {
@@ -67,6 +67,8 @@ func (f *Flow[T]) Error(err error) (await.Group, error) {
 		f.fluxSink.Error(err)
 	}
 
+	f.ended = true
+
 	return nil, err
 }
 
@@ -85,12 +87,12 @@ func (f *Flow[T]) Flux() flux.Flux[T] {
 }
 
 func (f *Flow[T]) next() {
-	if len(f.steps) == 0 {
+	if f.ended || len(f.steps) == 0 {
 		return
 	}
 
-	f.completed = 0
 	step := f.steps[0]
+	f.steps = f.steps[1:]
 	awaitables, err := step()
 	if err != nil {
 		if f.monoSink != nil {
@@ -105,18 +107,17 @@ func (f *Flow[T]) next() {
 		return
 	}
 
-	f.awaitables = awaitables
-	for _, a := range f.awaitables {
-		a.Async() // Ensure task is running.
-		a.Notify(f.check)
+	// The step itself counts as well, so that the next one does not start
+	// before all of its awaitables are registered.
+	pending := int64(len(awaitables)) + 1
+	check := func(rx.SignalType) {
+		if atomic.AddInt64(&pending, -1) == 0 {
+			f.next()
+		}
 	}
-
-	f.steps = f.steps[1:]
-}
-
-func (f *Flow[T]) check(rx.SignalType) {
-	f.completed++
-	if f.completed >= len(f.awaitables) {
-		f.next()
+	for _, a := range awaitables {
+		a.Async() // Ensure task is running.
+		a.Notify(check)
 	}
+	check(rx.SignalComplete)
 }
-- 
2.43.0


From 7be4c647a2673a6b49a35f6e4948643792030812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:22 +0000
Subject: [PATCH 32/78] fix: unlink the first and last stream of the registry

---
 go/proxy/lookup.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/go/proxy/lookup.go b/go/proxy/lookup.go
index 3dddd04..58eeb58 100644
--- a/go/proxy/lookup.go
+++ b/go/proxy/lookup.go
@@ -16,6 +16,9 @@ type (
 )
 
 func (l *Lookup) Get(id uint32) (Stream, bool) {
+	l.mu.Lock()
+	defer l.mu.Unlock()
+
 	if n := l.find(id); n != nil {
 		return n.stream, true
 	}
@@ -58,9 +61,13 @@ func (l *Lookup) Remove(id uint32) {
 
 	if prevNode != nil {
 		prevNode.next = nodeToDelete.next
+	} else {
+		l.head = nextNode
 	}
 	if nextNode != nil {
 		nextNode.prev = nodeToDelete.prev
+	} else {
+		l.tail = prevNode
 	}
 }
 
-- 
2.43.0


From 7f8b92564f67143ae604658313cea675d80dd356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:23 +0000
Subject: [PATCH 33/78] fix: tell the flags of port messages apart and reject
 truncated ones

---
 go/invoke/portio.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/go/invoke/portio.go b/go/invoke/portio.go
index 0f787ce..70e229a 100644
--- a/go/invoke/portio.go
+++ b/go/invoke/portio.go
@@ -2,6 +2,7 @@ package invoke
 
 import (
 	"encoding/binary"
+	"errors"
 	"strings"
 )
 
@@ -12,7 +13,12 @@ type PortIO struct {
 	Next     bool
 }
 
+var ErrInvalidPort = errors.New("invalid port message")
+
 func (f *PortIO) Decode(data []byte) error {
+	if len(data) < 3 || len(data)-3 < int(binary.BigEndian.Uint16(data[1:])) {
+		return ErrInvalidPort
+	}
 	flags := Flags(data[0])
 	complete := flags.Check(FlagComplete)
 	next := flags.Check(FlagNext)
@@ -71,7 +77,7 @@ func (f Flags) String() string {
 
 // All frame flags
 const (
-	FlagNext Flags = 1
+	FlagNext Flags = 1 << iota
 	FlagComplete
 )
 
-- 
2.43.0


From 48239cb3660fb64e19950628a5248cf0326df760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:40 +0000
Subject: [PATCH 34/78] fix: never issue the handle of a removed instance again

---
 go/invoke/instances.go | 31 +++++++++++--------------------
 1 file changed, 11 insertions(+), 20 deletions(-)

diff --git a/go/invoke/instances.go b/go/invoke/instances.go
index a32508e..6a9f32c 100644
--- a/go/invoke/instances.go
+++ b/go/invoke/instances.go
@@ -3,53 +3,44 @@ package invoke
 import (
 	"errors"
 	"sync"
-	"unsafe"
+	"sync/atomic"
 )
 
-type Ptr[T any] struct {
-	Ptr T
-}
-
 var ErrNoInstance = errors.New("no instance is active for this pointer")
 
+// lastHandle is the last handle issued by any LiveInstances.
+var lastHandle uint64
+
 type LiveInstances[T any] struct {
 	mu        sync.RWMutex
-	instances map[*Ptr[T]]struct{}
+	instances map[uint64]T
 }
 
 func NewLiveInstances[T any]() *LiveInstances[T] {
 	return &LiveInstances[T]{
-		instances: make(map[*Ptr[T]]struct{}),
+		instances: make(map[uint64]T),
 	}
 }
 
 func (t *LiveInstances[T]) Get(id uint64) (inst T, ok bool) {
 	t.mu.RLock()
 	defer t.mu.RUnlock()
-	ptr := (*Ptr[T])(unsafe.Pointer(uintptr(id)))
-	_, ok = t.instances[ptr]
-	if ok {
-		inst = ptr.Ptr
-	}
+	inst, ok = t.instances[id]
 	return
 }
 
 func (t *LiveInstances[T]) Put(inst T) uint64 {
-	ptr := &Ptr[T]{Ptr: inst}
-	handle := uint64(uintptr(unsafe.Pointer(ptr)))
+	handle := atomic.AddUint64(&lastHandle, 1)
 	t.mu.Lock()
 	defer t.mu.Unlock()
-	t.instances[ptr] = struct{}{}
+	t.instances[handle] = inst
 	return handle
 }
 
 func (t *LiveInstances[T]) Remove(id uint64) (inst T, ok bool) {
-	ptr := (*Ptr[T])(unsafe.Pointer(uintptr(id)))
 	t.mu.Lock()
 	defer t.mu.Unlock()
-	if _, ok = t.instances[ptr]; ok {
-		inst = ptr.Ptr
-		delete(t.instances, ptr)
-	}
+	inst, ok = t.instances[id]
+	delete(t.instances, id)
 	return
 }
-- 
2.43.0


From 9e665e2f2719271c4299259f1aee72bf8cdf48b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:35 +0000
Subject: [PATCH 35/78] fix: track streams from their request to their end on
 both sides

---
 go/handler/caller.go                 |   6 +-
 go/handler/handler.go                | 187 +++++---------------
 go/proxy/flux.go                     | 193 +++++++++++++++-----
 go/proxy/flux_host.go                |  16 ++
 go/proxy/mono.go                     |  16 +-
 go/proxy/mono_host.go                |  23 +--
 go/proxy/responder.go                | 252 +++++++++++++++++++++++++++
 go/transport/wasmrs/guest/caller.go  |   6 +-
 go/transport/wasmrs/guest/guest.go   | 180 +++++--------------
 go/transport/wasmrs/host/caller.go   |   6 +-
 go/transport/wasmrs/host/instance.go | 210 ++++++----------------
 11 files changed, 579 insertions(+), 516 deletions(-)
 create mode 100644 go/proxy/flux_host.go
 create mode 100644 go/proxy/responder.go

diff --git a/go/handler/caller.go b/go/handler/caller.go
index ffe3524..091a586 100644
--- a/go/handler/caller.go
+++ b/go/handler/caller.go
@@ -38,7 +38,7 @@ func (i *Handler) RequestResponse(ctx context.Context, p payload.Payload) mono.M
 		Data:      p.Data(),
 		Complete:  true,
 		InitialN:  1,
-	}, i.SendFrame, i.registerStream)
+	}, i.SendFrame, i.registerStream, i.removeStream)
 }
 
 func (i *Handler) FireAndForget(ctx context.Context, p payload.Payload) {
@@ -59,7 +59,7 @@ func (i *Handler) RequestStream(ctx context.Context, p payload.Payload) flux.Flu
 		Metadata:  p.Metadata(),
 		Data:      p.Data(),
 		InitialN:  rx.RequestMax,
-	}, nil, i.SendFrame, i.registerStream)
+	}, nil, i.SendFrame, i.registerStream, i.removeStream)
 }
 
 func (i *Handler) RequestChannel(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
@@ -69,7 +69,7 @@ func (i *Handler) RequestChannel(ctx context.Context, p payload.Payload, in flux
 		Metadata:  p.Metadata(),
 		Data:      p.Data(),
 		InitialN:  rx.RequestMax,
-	}, in, i.SendFrame, i.registerStream)
+	}, in, i.SendFrame, i.registerStream, i.removeStream)
 }
 
 func (i *Handler) getNextStreamID() uint32 {
diff --git a/go/handler/handler.go b/go/handler/handler.go
index d0ed8ea..53c48a7 100644
--- a/go/handler/handler.go
+++ b/go/handler/handler.go
@@ -4,15 +4,12 @@ import (
 	"context"
 	"encoding/binary"
 	"errors"
-	"fmt"
 
 	"github.com/nanobus/iota/go/internal/frames"
 	"github.com/nanobus/iota/go/internal/socket"
 	"github.com/nanobus/iota/go/invoke"
 	"github.com/nanobus/iota/go/payload"
 	"github.com/nanobus/iota/go/proxy"
-	"github.com/nanobus/iota/go/rx"
-	"github.com/nanobus/iota/go/rx/flux"
 	"github.com/nanobus/iota/go/rx/mono"
 )
 
@@ -112,10 +109,8 @@ func (i *Handler) HandleFrame(f frames.Frame) (err error) {
 		var ok bool
 		str, ok = i.getStream(streamID)
 		if !ok {
-			// Return error
-			if frameType != frames.FrameTypeRequestN {
-				return fmt.Errorf("stream ID %d not found", streamID)
-			}
+			// Streams end on both sides independently, so the peer
+			// may still send frames for one that is gone.
 			return
 		}
 	}
@@ -146,7 +141,10 @@ func (i *Handler) HandleFrame(f frames.Frame) (err error) {
 			// 	return
 			// }
 
-			go i.handleRequestStream(i.ctx, streamID, v.Data, v.Metadata, v.InitialN)
+			// Need to register for RequestN and Cancel frames
+			s := proxy.NewResponder(i.ctx, streamID, false, i.SendFrame, i.removeStream)
+			i.registerStream(s)
+			go i.handleRequestStream(s, v.Data, v.Metadata, v.InitialN)
 
 		case frames.FrameTypeRequestChannel:
 			// if i.checkFollows(&rc) {
@@ -154,16 +152,21 @@ func (i *Handler) HandleFrame(f frames.Frame) (err error) {
 			// 	return
 			// }
 
-			go i.handleRequestChannel(i.ctx, streamID, v.Data, v.Metadata, v.InitialN)
+			// Need to register for the frames of the requester
+			s := proxy.NewResponder(i.ctx, streamID, true, i.SendFrame, i.removeStream)
+			i.registerStream(s)
+			go i.handleRequestChannel(s, v.Data, v.Metadata, v.InitialN)
 		}
 
 	case *frames.RequestN:
-		s := str.(DoRequest)
-		go s.DoRequest(int(v.N))
+		if s, ok := str.(DoRequest); ok {
+			go s.DoRequest(int(v.N))
+		}
 
 	case *frames.Cancel:
-		str.OnComplete()
-		i.removeStream(streamID)
+		if s, ok := str.(canceller); ok {
+			s.OnCancel()
+		}
 
 	case *frames.Payload:
 		// pl, ok := i.fragmentedPayloads[p.StreamID]
@@ -217,13 +220,10 @@ func (i *Handler) HandleFrame(f frames.Frame) (err error) {
 
 		if v.Complete {
 			str.OnComplete()
-			i.removeStream(streamID)
 		}
 
 	case *frames.Error:
 		str.OnError(errors.New(v.Data))
-		str.OnComplete()
-		i.removeStream(streamID)
 	}
 
 	return nil
@@ -245,17 +245,22 @@ func (i *Handler) handleRequestResponse(ctx context.Context, streamID uint32, da
 	}
 
 	p := payload.New(data, metadata[8:])
-	s := requestStream{ctx: ctx, streamID: streamID}
-	ctx = proxy.WithContext(ctx, &s)
+	s := proxy.NewResponder(ctx, streamID, false, i.sendFrame, i.removeStream)
+	ctx = proxy.WithContext(ctx, s)
 	handler(ctx, p).Subscribe(mono.Subscribe[payload.Payload]{
 		OnSuccess: func(p payload.Payload) {
-			i.sendFrame(&frames.Payload{
+			if err := i.sendFrame(&frames.Payload{
 				StreamID: streamID,
 				Metadata: p.Metadata(),
 				Data:     p.Data(),
 				Next:     true,
 				Complete: true,
-			})
+			}); err != nil {
+				i.sendFrame(&frames.Error{
+					StreamID: streamID,
+					Data:     err.Error(),
+				})
+			}
 		},
 		OnError: func(err error) {
 			i.sendFrame(&frames.Error{
@@ -282,121 +287,47 @@ func (i *Handler) handleFireAndForget(ctx context.Context, streamID uint32, data
 	}
 
 	p := payload.New(data, metadata[8:])
-	s := requestStream{ctx: ctx, streamID: streamID}
-	i.registerStream(&s)
-	ctx = proxy.WithContext(ctx, &s)
+	s := proxy.NewResponder(ctx, streamID, false, i.sendFrame, i.removeStream)
+	ctx = proxy.WithContext(ctx, s)
 	handler(ctx, p)
 }
 
-func (i *Handler) handleRequestStream(ctx context.Context, streamID uint32, data, metadata []byte, initialN uint32) {
-	if !i.checkMetadata(streamID, metadata) {
+func (i *Handler) handleRequestStream(s *proxy.Responder, data, metadata []byte, initialN uint32) {
+	if len(metadata) < 8 {
+		s.Reject("Invalid metadata")
 		return
 	}
 
+	ctx := s.Context()
 	operationID := binary.BigEndian.Uint32(metadata)
 	handler := invoke.GetRequestStreamHandler(operationID)
 	if handler == nil {
-		i.sendFrame(&frames.Error{
-			StreamID: streamID,
-			Data:     "not_found",
-		})
+		s.Reject("not_found")
 		return
 	}
 
 	p := payload.New(data, metadata)
-	s := requestStream{ctx: ctx, streamID: streamID}
-	i.registerStream(&s) // Need to register for RequestN frames
-	// ctx := stream.WithContext(context.Background(), s)
 	f := handler(ctx, p)
-	f.Subscribe(flux.Subscribe[payload.Payload]{
-		OnNext: func(p payload.Payload) {
-			i.sendFrame(&frames.Payload{
-				StreamID: streamID,
-				Metadata: p.Metadata(),
-				Data:     p.Data(),
-				Next:     true,
-			})
-		},
-		OnComplete: func() {
-			i.sendFrame(&frames.Payload{
-				StreamID: streamID,
-				Complete: true,
-			})
-		},
-		OnError: func(err error) {
-			i.sendFrame(&frames.Error{
-				StreamID: streamID,
-				Data:     err.Error(),
-			})
-		},
-		NoRequest: true,
-	})
-	sub := f.Subscription()
-	s.sub = sub
-	s.Request(int(initialN))
+	s.Respond(f, initialN)
 }
 
-func (i *Handler) handleRequestChannel(ctx context.Context, streamID uint32, data, metadata []byte, initialN uint32) {
-	if !i.checkMetadata(streamID, metadata) {
+func (i *Handler) handleRequestChannel(s *proxy.Responder, data, metadata []byte, initialN uint32) {
+	if len(metadata) < 8 {
+		s.Reject("Invalid metadata")
 		return
 	}
 
+	ctx := s.Context()
 	operationID := binary.BigEndian.Uint32(metadata)
 	handler := invoke.GetRequestChannelHandler(operationID)
 	if handler == nil {
-		i.sendFrame(&frames.Error{
-			StreamID: streamID,
-			Data:     "not_found",
-		})
+		s.Reject("not_found")
 		return
 	}
 
 	p := payload.New(data, metadata)
-	s := requestStream{streamID: streamID}
-	i.registerStream(&s) // Need to register for RequestN frames
-	in := flux.Create(func(sink flux.Sink[payload.Payload]) {
-		s.sink = sink
-		sink.OnSubscribe(flux.OnSubscribe{
-			Request: func(n int) {
-				i.sendFrame(&frames.RequestN{
-					StreamID: streamID,
-					N:        uint32(n),
-				})
-			},
-			Cancel: func() {
-				i.sendFrame(&frames.Cancel{
-					StreamID: streamID,
-				})
-			},
-		})
-	})
-	f := handler(ctx, p, in)
-	f.Subscribe(flux.Subscribe[payload.Payload]{
-		OnNext: func(p payload.Payload) {
-			i.sendFrame(&frames.Payload{
-				StreamID: streamID,
-				Metadata: p.Metadata(),
-				Data:     p.Data(),
-				Next:     true,
-			})
-		},
-		OnComplete: func() {
-			i.sendFrame(&frames.Payload{
-				StreamID: streamID,
-				Complete: true,
-			})
-		},
-		OnError: func(err error) {
-			i.sendFrame(&frames.Error{
-				StreamID: streamID,
-				Data:     err.Error(),
-			})
-		},
-		NoRequest: true,
-	})
-	sub := f.Subscription()
-	s.sub = sub
-	s.Request(int(initialN))
+	f := handler(ctx, p, s.Input())
+	s.Respond(f, initialN)
 }
 
 // func (i *Handler) handleRequestResponse(ctx context.Context, streamID uint32, data, metadata []byte) {
@@ -676,40 +607,6 @@ type DoRequest interface {
 	DoRequest(n int)
 }
 
-type requestStream struct {
-	ctx      context.Context
-	streamID uint32
-	flux.Sink[payload.Payload]
-	sub  rx.Subscription
-	sink flux.Sink[payload.Payload]
-}
-
-var _ = (proxy.Stream)((*requestStream)(nil))
-
-func (r *requestStream) Context() context.Context {
-	return r.ctx
-}
-
-func (r *requestStream) StreamID() uint32 {
-	return r.streamID
-}
-
-func (r *requestStream) Request(n int) {
-	r.sub.Request(n)
-}
-
-func (r *requestStream) DoRequest(n int) {
-	r.sub.Request(n)
-}
-
-func (r *requestStream) OnNext(p payload.Payload) {
-	r.sink.Next(p)
-}
-
-func (r *requestStream) OnComplete() {
-	r.sink.Complete()
-}
-
-func (r *requestStream) OnError(err error) {
-	r.sink.Error(err)
+type canceller interface {
+	OnCancel()
 }
diff --git a/go/proxy/flux.go b/go/proxy/flux.go
index 6f0f588..48257b9 100644
--- a/go/proxy/flux.go
+++ b/go/proxy/flux.go
@@ -2,6 +2,7 @@ package proxy
 
 import (
 	"context"
+	"sync"
 
 	"github.com/nanobus/iota/go/internal/frames"
 	"github.com/nanobus/iota/go/payload"
@@ -9,7 +10,7 @@ import (
 	"github.com/nanobus/iota/go/rx/flux"
 )
 
-func Flux(ctx context.Context, request frames.RequestPayload, in flux.Flux[payload.Payload], sendFrame func(frames.Frame) error, register func(Stream)) flux.Flux[payload.Payload] {
+func Flux(ctx context.Context, request frames.RequestPayload, in flux.Flux[payload.Payload], sendFrame func(frames.Frame) error, register func(Stream), remove func(streamID uint32)) flux.Flux[payload.Payload] {
 	p := flux.NewProcessor[payload.Payload]()
 	ss := streamFlux{
 		ctx:       ctx,
@@ -18,7 +19,9 @@ func Flux(ctx context.Context, request frames.RequestPayload, in flux.Flux[paylo
 		in:        in,
 		sendFrame: sendFrame,
 		register:  register,
+		remove:    remove,
 		first:     true,
+		inDone:    in == nil,
 	}
 	p.OnSubscribe(flux.OnSubscribe{
 		Request: ss.Request,
@@ -36,8 +39,17 @@ type streamFlux struct {
 	in         flux.Flux[payload.Payload]
 	sendFrame  func(frames.Frame) error
 	register   func(Stream)
-	first      bool
-	complete   bool
+	remove     func(streamID uint32)
+
+	mu        sync.Mutex // Guards the fields below
+	first     bool
+	sent      bool // The request was sent
+	complete  bool
+	cancelled bool
+	inSub     rx.Subscription
+	inDemand  int // Demand for in that came before there was a subscription
+	inStopped bool
+	inDone    bool
 }
 
 func (s *streamFlux) Context() context.Context {
@@ -53,12 +65,42 @@ func (s *streamFlux) OnNext(p payload.Payload) {
 }
 
 func (s *streamFlux) OnComplete() {
+	s.end(&s.complete)
 	s.Processor.Complete()
-	s.complete = true
 }
 
+// OnError ends both directions.
 func (s *streamFlux) OnError(err error) {
+	s.end(&s.complete)
 	s.Processor.Error(err)
+	s.OnCancel()
+}
+
+// OnCancel is called when the peer takes no more items of in.
+func (s *streamFlux) OnCancel() {
+	if s.in == nil {
+		return
+	}
+	s.mu.Lock()
+	s.inStopped = true
+	inSub := s.inSub
+	s.mu.Unlock()
+	if inSub != nil {
+		inSub.Cancel()
+	}
+	s.end(&s.inDone)
+}
+
+// end marks a direction as done and removes the stream once both are.
+func (s *streamFlux) end(direction *bool) {
+	s.mu.Lock()
+	done := s.complete && s.inDone
+	*direction = true
+	done = !done && s.complete && s.inDone
+	s.mu.Unlock()
+	if done {
+		s.remove(s.request.StreamID)
+	}
 }
 
 func (s *streamFlux) Async() {
@@ -74,61 +116,134 @@ func (s *streamFlux) Notify(fn rx.FnFinally) {
 }
 
 func (s *streamFlux) Request(n int) {
+	s.mu.Lock()
 	if s.complete {
+		s.mu.Unlock()
 		return
 	}
-	if s.first {
-		s.request.InitialN = uint32(n)
+	first := s.first
+	if first {
 		s.first = false
-		s.sendFrame(&s.request)
-
-		if s.in != nil {
-			s.in.Subscribe(flux.Subscribe[payload.Payload]{
-				OnNext: func(p payload.Payload) {
-					s.sendFrame(&frames.Payload{
-						StreamID: s.request.StreamID,
-						Metadata: p.Metadata(),
-						Data:     p.Data(),
-						Next:     true,
-					})
-				},
-				OnComplete: func() {
-					s.sendFrame(&frames.Payload{
-						StreamID: s.request.StreamID,
-						Complete: true,
-					})
-				},
-				OnError: func(err error) {
-					s.sendFrame(&frames.Error{
-						StreamID: s.request.StreamID,
-						Data:     err.Error(),
-					})
-				},
-				NoRequest: true,
-			})
-		}
-	} else {
+		s.register(s)
+	}
+	s.mu.Unlock()
+
+	if !first {
 		s.sendFrame(&frames.RequestN{
 			StreamID: s.request.StreamID,
-			N:        uint32(n),
+			N:        clampDemand(n),
 		})
+		return
+	}
+
+	s.request.InitialN = clampDemand(n)
+	if err := s.sendFrame(&s.request); err != nil {
+		s.OnError(err)
+		return
+	}
+	s.mu.Lock()
+	s.sent = true
+	cancelled := s.cancelled
+	s.mu.Unlock()
+	if cancelled {
+		s.sendCancel()
+		return
+	}
+
+	if s.in != nil {
+		s.subscribeIn()
 	}
 }
 
-func (s *streamFlux) Cancel() {
+func (s *streamFlux) subscribeIn() {
+	s.mu.Lock()
+	stopped := s.inStopped
+	s.mu.Unlock()
+	if stopped {
+		return
+	}
+
+	s.in.Subscribe(flux.Subscribe[payload.Payload]{
+		OnNext: func(p payload.Payload) {
+			if err := s.sendFrame(&frames.Payload{
+				StreamID: s.request.StreamID,
+				Metadata: p.Metadata(),
+				Data:     p.Data(),
+				Next:     true,
+			}); err != nil {
+				s.sendError(err)
+				s.OnCancel()
+			}
+		},
+		OnComplete: func() {
+			s.sendFrame(&frames.Payload{
+				StreamID: s.request.StreamID,
+				Complete: true,
+			})
+			s.end(&s.inDone)
+		},
+		OnError: func(err error) {
+			s.sendError(err)
+			s.end(&s.inDone)
+		},
+		NoRequest: true,
+	})
+	inSub := s.in.Subscription()
+	if inSub == nil {
+		return
+	}
+
+	s.mu.Lock()
+	s.inSub = inSub
+	demand := s.inDemand
+	stopped = s.inStopped
+	s.mu.Unlock()
+	if stopped {
+		inSub.Cancel()
+	} else {
+		inSub.Request(demand)
+	}
+}
+
+func (s *streamFlux) sendError(err error) {
+	s.sendFrame(&frames.Error{
+		StreamID: s.request.StreamID,
+		Data:     err.Error(),
+	})
+}
+
+func (s *streamFlux) sendCancel() {
 	s.sendFrame(&frames.Cancel{
 		StreamID: s.request.StreamID,
 	})
 }
 
+func (s *streamFlux) Cancel() {
+	s.mu.Lock()
+	s.cancelled = true
+	sent := s.sent
+	s.mu.Unlock()
+	s.end(&s.complete)
+	s.OnCancel()
+	if sent {
+		s.sendCancel()
+	}
+}
+
 func (s *streamFlux) DoRequest(n int) {
-	sub := s.in.Subscription()
-	sub.Request(n)
+	s.mu.Lock()
+	inSub := s.inSub
+	if inSub == nil {
+		s.inDemand = addDemand(s.inDemand, n)
+	}
+	s.mu.Unlock()
+	if inSub != nil {
+		inSub.Request(n)
+	}
 }
 
 func (s *streamFlux) Subscribe(sub flux.Subscribe[payload.Payload]) flux.Flux[payload.Payload] {
 	s.subscribed = true
-	s.register(s)
 	s.Processor.Subscribe(sub)
 	return s
 }
diff --git a/go/proxy/flux_host.go b/go/proxy/flux_host.go
new file mode 100644
index 0000000..42fea83
--- /dev/null
+++ b/go/proxy/flux_host.go
@@ -0,0 +1,16 @@
+//go:build !purego && !appengine && !wasm && !tinygo.wasm && !wasi
+// +build !purego,!appengine,!wasm,!tinygo.wasm,!wasi
+
+package proxy
+
+import (
+	"github.com/nanobus/iota/go/payload"
+	"github.com/nanobus/iota/go/rx/flux"
+)
+
+func (s *streamFlux) Block(sub flux.Subscribe[payload.Payload]) error {
+	if s.Subscription() == nil {
+		return flux.Block[payload.Payload](s, sub)
+	}
+	return s.Processor.Block(sub)
+}
diff --git a/go/proxy/mono.go b/go/proxy/mono.go
index 793a2a6..36e71ce 100644
--- a/go/proxy/mono.go
+++ b/go/proxy/mono.go
@@ -2,6 +2,7 @@ package proxy
 
 import (
 	"context"
+	"errors"
 
 	"github.com/nanobus/iota/go/internal/frames"
 	"github.com/nanobus/iota/go/payload"
@@ -9,7 +10,9 @@ import (
 	"github.com/nanobus/iota/go/rx/mono"
 )
 
-func Mono(ctx context.Context, request frames.RequestPayload, sendFrame func(frames.Frame) error, register func(Stream)) mono.Mono[payload.Payload] {
+var errNoValue = errors.New("completed without a value")
+
+func Mono(ctx context.Context, request frames.RequestPayload, sendFrame func(frames.Frame) error, register func(Stream), remove func(streamID uint32)) mono.Mono[payload.Payload] {
 	m := mono.NewProcessor[payload.Payload]()
 	ss := streamMono{
 		ctx:       ctx,
@@ -17,6 +20,7 @@ func Mono(ctx context.Context, request frames.RequestPayload, sendFrame func(fra
 		request:   request,
 		sendFrame: sendFrame,
 		register:  register,
+		remove:    remove,
 	}
 	return &ss
 }
@@ -29,6 +33,7 @@ type streamMono struct {
 	request    frames.RequestPayload
 	sendFrame  func(frames.Frame) error
 	register   func(Stream)
+	remove     func(streamID uint32)
 }
 
 func (s *streamMono) Context() context.Context {
@@ -44,10 +49,13 @@ func (s *streamMono) OnNext(p payload.Payload) {
 }
 
 func (s *streamMono) OnComplete() {
-	// Not implemented
+	s.remove(s.request.StreamID)
+	// Does nothing if there was a value
+	s.Processor.Error(errNoValue)
 }
 
 func (s *streamMono) OnError(err error) {
+	s.remove(s.request.StreamID)
 	s.Processor.Error(err)
 }
 
@@ -67,6 +75,8 @@ func (s *streamMono) Subscribe(sub mono.Subscribe[payload.Payload]) mono.Mono[pa
 	s.subscribed = true
 	s.register(s)
 	s.Processor.Subscribe(sub)
-	s.sendFrame(&s.request)
+	if err := s.sendFrame(&s.request); err != nil {
+		s.OnError(err)
+	}
 	return s
 }
diff --git a/go/proxy/mono_host.go b/go/proxy/mono_host.go
index 927c78b..c52957b 100644
--- a/go/proxy/mono_host.go
+++ b/go/proxy/mono_host.go
@@ -5,28 +5,9 @@ package proxy
 
 import (
 	"github.com/nanobus/iota/go/payload"
-	"github.com/nanobus/iota/go/rx/mono"
 )
 
 func (s *streamMono) Block() (ret payload.Payload, err error) {
-	// if s.subscriber != nil && s.subscriber.closed {
-	// 	return s.subscriber.value, s.subscriber.err
-	// }
-
-	done := make(chan struct{})
-	go func() {
-		s.Subscribe(mono.Subscribe[payload.Payload]{
-			OnSuccess: func(value payload.Payload) {
-				ret = value
-				close(done)
-			},
-			OnError: func(e error) {
-				err = e
-				close(done)
-			},
-		})
-	}()
-
-	<-done
-	return ret, err
+	s.Async() // Send the request only if that has not happened yet
+	return s.Processor.Block()
 }
diff --git a/go/proxy/responder.go b/go/proxy/responder.go
new file mode 100644
index 0000000..132eff0
--- /dev/null
+++ b/go/proxy/responder.go
@@ -0,0 +1,252 @@
+package proxy
+
+import (
+	"context"
+	"sync"
+
+	"github.com/nanobus/iota/go/internal/frames"
+	"github.com/nanobus/iota/go/payload"
+	"github.com/nanobus/iota/go/rx"
+	"github.com/nanobus/iota/go/rx/flux"
+)
+
+// Responder is the responding end of a stream or channel request. It sends
+// what the handler produces and takes the frames the requester sends.
+type Responder struct {
+	ctx       context.Context
+	streamID  uint32
+	sendFrame func(frames.Frame) error
+	remove    func(streamID uint32)
+
+	mu      sync.Mutex // Guards the fields below
+	out     rx.Subscription
+	demand  int // Demand that came before there was a subscription
+	outDone bool
+	in      flux.Sink[payload.Payload]
+	pending []func(flux.Sink[payload.Payload]) // Input that came before there was a sink
+	inDone  bool
+	removed bool
+}
+
+var _ = (Stream)((*Responder)(nil))
+
+// NewResponder creates the responding end of a stream. The stream is expected
+// to be registered by the caller, remove is called when it has ended.
+func NewResponder(ctx context.Context, streamID uint32, channel bool, sendFrame func(frames.Frame) error, remove func(streamID uint32)) *Responder {
+	return &Responder{
+		ctx:       ctx,
+		streamID:  streamID,
+		sendFrame: sendFrame,
+		remove:    remove,
+		inDone:    !channel,
+	}
+}
+
+func (r *Responder) Context() context.Context {
+	return r.ctx
+}
+
+func (r *Responder) StreamID() uint32 {
+	return r.streamID
+}
+
+// Reject answers the request with an error.
+func (r *Responder) Reject(reason string) {
+	r.remove(r.streamID)
+	r.sendFrame(&frames.Error{
+		StreamID: r.streamID,
+		Data:     reason,
+	})
+}
+
+// Respond sends what f produces on demand.
+func (r *Responder) Respond(f flux.Flux[payload.Payload], initialN uint32) {
+	if !r.producing() {
+		return // Cancelled already
+	}
+	f.Subscribe(flux.Subscribe[payload.Payload]{
+		OnNext: func(p payload.Payload) {
+			if !r.producing() {
+				return
+			}
+			if err := r.sendFrame(&frames.Payload{
+				StreamID: r.streamID,
+				Metadata: p.Metadata(),
+				Data:     p.Data(),
+				Next:     true,
+			}); err != nil {
+				r.fail(err)
+				if out := f.Subscription(); out != nil {
+					out.Cancel()
+				}
+			}
+		},
+		OnComplete: func() {
+			if !r.producing() {
+				return
+			}
+			r.sendFrame(&frames.Payload{
+				StreamID: r.streamID,
+				Complete: true,
+			})
+			r.end(&r.outDone)
+		},
+		OnError:   r.fail,
+		NoRequest: true,
+	})
+	out := f.Subscription()
+
+	r.mu.Lock()
+	if out == nil || r.outDone {
+		r.mu.Unlock()
+		if out != nil {
+			out.Cancel()
+		}
+		return
+	}
+	r.out = out
+	n := addDemand(int(initialN), r.demand)
+	r.mu.Unlock()
+	out.Request(n)
+}
+
+// Input is what the requester of a channel sends.
+func (r *Responder) Input() flux.Flux[payload.Payload] {
+	return flux.Create(func(sink flux.Sink[payload.Payload]) {
+		sink.OnSubscribe(flux.OnSubscribe{
+			Request: func(n int) {
+				r.sendFrame(&frames.RequestN{
+					StreamID: r.streamID,
+					N:        clampDemand(n),
+				})
+			},
+			Cancel: func() {
+				r.sendFrame(&frames.Cancel{
+					StreamID: r.streamID,
+				})
+				r.end(&r.inDone)
+			},
+		})
+
+		for {
+			r.mu.Lock()
+			pending := r.pending
+			r.pending = nil
+			if len(pending) == 0 {
+				r.in = sink
+				r.mu.Unlock()
+				return
+			}
+			r.mu.Unlock()
+			for _, fn := range pending {
+				fn(sink)
+			}
+		}
+	})
+}
+
+func (r *Responder) DoRequest(n int) {
+	r.mu.Lock()
+	out := r.out
+	if out == nil {
+		r.demand = addDemand(r.demand, n)
+	}
+	r.mu.Unlock()
+	if out != nil {
+		out.Request(n)
+	}
+}
+
+func (r *Responder) OnNext(p payload.Payload) {
+	r.input(func(sink flux.Sink[payload.Payload]) {
+		sink.Next(p)
+	})
+}
+
+func (r *Responder) OnComplete() {
+	r.input(func(sink flux.Sink[payload.Payload]) {
+		sink.Complete()
+	})
+	r.end(&r.inDone)
+}
+
+func (r *Responder) OnError(err error) {
+	r.input(func(sink flux.Sink[payload.Payload]) {
+		sink.Error(err)
+	})
+	r.end(&r.inDone)
+}
+
+// OnCancel stops producing, and ends the input as the requester
+// does not send any more of it.
+func (r *Responder) OnCancel() {
+	r.mu.Lock()
+	r.outDone = true
+	out := r.out
+	r.mu.Unlock()
+	if out != nil {
+		out.Cancel()
+	}
+	r.OnComplete()
+}
+
+// fail answers with an error, which ends the input as well.
+func (r *Responder) fail(err error) {
+	if !r.producing() {
+		return
+	}
+	r.sendFrame(&frames.Error{
+		StreamID: r.streamID,
+		Data:     err.Error(),
+	})
+	r.end(&r.outDone)
+	r.OnError(err)
+}
+
+func (r *Responder) producing() bool {
+	r.mu.Lock()
+	defer r.mu.Unlock()
+	return !r.outDone
+}
+
+func (r *Responder) input(fn func(flux.Sink[payload.Payload])) {
+	r.mu.Lock()
+	if r.inDone {
+		r.mu.Unlock()
+		return
+	}
+	in := r.in
+	if in == nil {
+		r.pending = append(r.pending, fn)
+	}
+	r.mu.Unlock()
+	if in != nil {
+		fn(in)
+	}
+}
+
+// end marks a direction as done and removes the stream once both are.
+func (r *Responder) end(direction *bool) {
+	r.mu.Lock()
+	*direction = true
+	done := r.outDone && r.inDone && !r.removed
+	r.removed = r.removed || done
+	r.mu.Unlock()
+	if done {
+		r.remove(r.streamID)
+	}
+}
+
+func addDemand(a, b int) int {
+	if b > rx.RequestMax-a {
+		return rx.RequestMax
+	}
+	return a + b
+}
+
+func clampDemand(n int) uint32 {
+	if n > rx.RequestMax {
+		n = rx.RequestMax
+	}
+	return uint32(n)
+}
diff --git a/go/transport/wasmrs/guest/caller.go b/go/transport/wasmrs/guest/caller.go
index aae5224..c8ebb10 100644
--- a/go/transport/wasmrs/guest/caller.go
+++ b/go/transport/wasmrs/guest/caller.go
@@ -43,7 +43,7 @@ func (i *Caller) RequestResponse(ctx context.Context, p payload.Payload) mono.Mo
 		Data:      p.Data(),
 		Complete:  true,
 		InitialN:  1,
-	}, sendFrame, registerStream)
+	}, sendFrame, registerStream, removeStream)
 }
 
 func (i *Caller) FireAndForget(ctx context.Context, p payload.Payload) {
@@ -64,7 +64,7 @@ func (i *Caller) RequestStream(ctx context.Context, p payload.Payload) flux.Flux
 		Metadata:  p.Metadata(),
 		Data:      p.Data(),
 		InitialN:  rx.RequestMax,
-	}, nil, sendFrame, registerStream)
+	}, nil, sendFrame, registerStream, removeStream)
 }
 
 func (i *Caller) RequestChannel(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
@@ -75,7 +75,7 @@ func (i *Caller) RequestChannel(ctx context.Context, p payload.Payload, in flux.
 		Metadata:  p.Metadata(),
 		Data:      p.Data(),
 		InitialN:  rx.RequestMax,
-	}, in, sendFrame, registerStream)
+	}, in, sendFrame, registerStream, removeStream)
 }
 
 func (i *Caller) getNextStreamID() uint32 {
diff --git a/go/transport/wasmrs/guest/guest.go b/go/transport/wasmrs/guest/guest.go
index 92fffb0..5649250 100644
--- a/go/transport/wasmrs/guest/guest.go
+++ b/go/transport/wasmrs/guest/guest.go
@@ -13,8 +13,6 @@ import (
 	"github.com/nanobus/iota/go/operations"
 	"github.com/nanobus/iota/go/payload"
 	"github.com/nanobus/iota/go/proxy"
-	"github.com/nanobus/iota/go/rx"
-	"github.com/nanobus/iota/go/rx/flux"
 	"github.com/nanobus/iota/go/rx/mono"
 )
 
@@ -184,7 +182,10 @@ func GuestSend(endPos uint32) {
 				continue
 			}
 
-			handleRequestStream(ctx, rs.StreamID, rs.Data, rs.Metadata, rs.InitialN)
+			// Need to register for RequestN and Cancel frames
+			s := proxy.NewResponder(ctx, rs.StreamID, false, sendFrame, removeStream)
+			registerStream(s)
+			handleRequestStream(s, rs.Data, rs.Metadata, rs.InitialN)
 
 		case frames.FrameTypeRequestChannel:
 			var rc frames.RequestPayload
@@ -200,7 +201,10 @@ func GuestSend(endPos uint32) {
 				continue
 			}
 
-			handleRequestChannel(ctx, rc.StreamID, rc.Data, rc.Metadata, rc.InitialN)
+			// Need to register for the frames of the requester
+			s := proxy.NewResponder(ctx, rc.StreamID, true, sendFrame, removeStream)
+			registerStream(s)
+			handleRequestChannel(s, rc.Data, rc.Metadata, rc.InitialN)
 
 		case frames.FrameTypeRequestN:
 			var rn frames.RequestN
@@ -212,12 +216,14 @@ func GuestSend(endPos uint32) {
 				return
 			}
 
-			s := str.(DoRequest)
-			s.DoRequest(int(rn.N))
+			if s, ok := str.(DoRequest); ok {
+				s.DoRequest(int(rn.N))
+			}
 
 		case frames.FrameTypeCancel:
-			str.OnComplete()
-			removeStream(header.StreamID())
+			if s, ok := str.(canceller); ok {
+				s.OnCancel()
+			}
 
 		case frames.FrameTypePayload:
 			var p frames.Payload
@@ -279,7 +285,6 @@ func GuestSend(endPos uint32) {
 
 			if p.Complete {
 				str.OnComplete()
-				removeStream(header.StreamID())
 			}
 
 		case frames.FrameTypeError:
@@ -288,8 +293,6 @@ func GuestSend(endPos uint32) {
 				continue
 			}
 			str.OnError(errors.New(p.Data))
-			str.OnComplete()
-			removeStream(header.StreamID())
 		}
 	}
 }
@@ -310,17 +313,22 @@ func handleRequestResponse(ctx context.Context, streamID uint32, data, metadata
 	}
 
 	p := payload.New(data, metadata[8:])
-	s := requestStream{ctx: ctx, streamID: streamID}
-	ctx = proxy.WithContext(ctx, &s)
+	s := proxy.NewResponder(ctx, streamID, false, sendFrame, removeStream)
+	ctx = proxy.WithContext(ctx, s)
 	handler(ctx, p).Subscribe(mono.Subscribe[payload.Payload]{
 		OnSuccess: func(p payload.Payload) {
-			sendFrame(&frames.Payload{
+			if err := sendFrame(&frames.Payload{
 				StreamID: streamID,
 				Metadata: p.Metadata(),
 				Data:     p.Data(),
 				Next:     true,
 				Complete: true,
-			})
+			}); err != nil {
+				sendFrame(&frames.Error{
+					StreamID: streamID,
+					Data:     err.Error(),
+				})
+			}
 		},
 		OnError: func(err error) {
 			sendFrame(&frames.Error{
@@ -347,121 +355,47 @@ func handleFireAndForget(ctx context.Context, streamID uint32, data, metadata []
 	}
 
 	p := payload.New(data, metadata[8:])
-	s := requestStream{ctx: ctx, streamID: streamID}
-	registerStream(&s)
-	ctx = proxy.WithContext(ctx, &s)
+	s := proxy.NewResponder(ctx, streamID, false, sendFrame, removeStream)
+	ctx = proxy.WithContext(ctx, s)
 	handler(ctx, p)
 }
 
-func handleRequestStream(ctx context.Context, streamID uint32, data, metadata []byte, initialN uint32) {
-	if !checkMetadata(streamID, metadata) {
+func handleRequestStream(s *proxy.Responder, data, metadata []byte, initialN uint32) {
+	if len(metadata) < 8 {
+		s.Reject("Invalid metadata")
 		return
 	}
 
+	ctx := s.Context()
 	operationID := binary.BigEndian.Uint32(metadata)
 	handler := invoke.GetRequestStreamHandler(operationID)
 	if handler == nil {
-		sendFrame(&frames.Error{
-			StreamID: streamID,
-			Data:     "not_found",
-		})
+		s.Reject("not_found")
 		return
 	}
 
 	p := payload.New(data, metadata)
-	s := requestStream{ctx: ctx, streamID: streamID}
-	registerStream(&s) // Need to register for RequestN frames
-	// ctx := stream.WithContext(context.Background(), s)
 	f := handler(ctx, p)
-	f.Subscribe(flux.Subscribe[payload.Payload]{
-		OnNext: func(p payload.Payload) {
-			sendFrame(&frames.Payload{
-				StreamID: streamID,
-				Metadata: p.Metadata(),
-				Data:     p.Data(),
-				Next:     true,
-			})
-		},
-		OnComplete: func() {
-			sendFrame(&frames.Payload{
-				StreamID: streamID,
-				Complete: true,
-			})
-		},
-		OnError: func(err error) {
-			sendFrame(&frames.Error{
-				StreamID: streamID,
-				Data:     err.Error(),
-			})
-		},
-		NoRequest: true,
-	})
-	sub := f.Subscription()
-	s.sub = sub
-	s.Request(int(initialN))
+	s.Respond(f, initialN)
 }
 
-func handleRequestChannel(ctx context.Context, streamID uint32, data, metadata []byte, initialN uint32) {
-	if !checkMetadata(streamID, metadata) {
+func handleRequestChannel(s *proxy.Responder, data, metadata []byte, initialN uint32) {
+	if len(metadata) < 8 {
+		s.Reject("Invalid metadata")
 		return
 	}
 
+	ctx := s.Context()
 	operationID := binary.BigEndian.Uint32(metadata)
 	handler := invoke.GetRequestChannelHandler(operationID)
 	if handler == nil {
-		sendFrame(&frames.Error{
-			StreamID: streamID,
-			Data:     "not_found",
-		})
+		s.Reject("not_found")
 		return
 	}
 
 	p := payload.New(data, metadata)
-	s := requestStream{streamID: streamID}
-	registerStream(&s) // Need to register for RequestN frames
-	in := flux.Create(func(sink flux.Sink[payload.Payload]) {
-		s.sink = sink
-		sink.OnSubscribe(flux.OnSubscribe{
-			Request: func(n int) {
-				sendFrame(&frames.RequestN{
-					StreamID: streamID,
-					N:        uint32(n),
-				})
-			},
-			Cancel: func() {
-				sendFrame(&frames.Cancel{
-					StreamID: streamID,
-				})
-			},
-		})
-	})
-	f := handler(ctx, p, in)
-	f.Subscribe(flux.Subscribe[payload.Payload]{
-		OnNext: func(p payload.Payload) {
-			sendFrame(&frames.Payload{
-				StreamID: streamID,
-				Metadata: p.Metadata(),
-				Data:     p.Data(),
-				Next:     true,
-			})
-		},
-		OnComplete: func() {
-			sendFrame(&frames.Payload{
-				StreamID: streamID,
-				Complete: true,
-			})
-		},
-		OnError: func(err error) {
-			sendFrame(&frames.Error{
-				StreamID: streamID,
-				Data:     err.Error(),
-			})
-		},
-		NoRequest: true,
-	})
-	sub := f.Subscription()
-	s.sub = sub
-	s.Request(int(initialN))
+	f := handler(ctx, p, s.Input())
+	s.Respond(f, initialN)
 }
 
 func checkMetadata(streamID uint32, metadata []byte) bool {
@@ -572,42 +506,8 @@ type DoRequest interface {
 	DoRequest(n int)
 }
 
-type requestStream struct {
-	ctx      context.Context
-	streamID uint32
-	flux.Sink[payload.Payload]
-	sub  rx.Subscription
-	sink flux.Sink[payload.Payload]
-}
-
-var _ = (proxy.Stream)((*requestStream)(nil))
-
-func (r *requestStream) Context() context.Context {
-	return r.ctx
-}
-
-func (r *requestStream) StreamID() uint32 {
-	return r.streamID
-}
-
-func (r *requestStream) Request(n int) {
-	r.sub.Request(n)
-}
-
-func (r *requestStream) DoRequest(n int) {
-	r.sub.Request(n)
-}
-
-func (r *requestStream) OnNext(p payload.Payload) {
-	r.sink.Next(p)
-}
-
-func (r *requestStream) OnComplete() {
-	r.sink.Complete()
-}
-
-func (r *requestStream) OnError(err error) {
-	r.sink.Error(err)
+type canceller interface {
+	OnCancel()
 }
 
 //go:inline
diff --git a/go/transport/wasmrs/host/caller.go b/go/transport/wasmrs/host/caller.go
index 08062d7..63a7238 100644
--- a/go/transport/wasmrs/host/caller.go
+++ b/go/transport/wasmrs/host/caller.go
@@ -36,7 +36,7 @@ func (i *Instance) RequestResponse(ctx context.Context, p payload.Payload) mono.
 		Data:      p.Data(),
 		Complete:  true,
 		InitialN:  1,
-	}, i.SendFrame, i.registerStream)
+	}, i.SendFrame, i.registerStream, i.removeStream)
 }
 
 func (i *Instance) FireAndForget(ctx context.Context, p payload.Payload) {
@@ -57,7 +57,7 @@ func (i *Instance) RequestStream(ctx context.Context, p payload.Payload) flux.Fl
 		Metadata:  p.Metadata(),
 		Data:      p.Data(),
 		InitialN:  rx.RequestMax,
-	}, nil, i.SendFrame, i.registerStream)
+	}, nil, i.SendFrame, i.registerStream, i.removeStream)
 }
 
 func (i *Instance) RequestChannel(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
@@ -67,7 +67,7 @@ func (i *Instance) RequestChannel(ctx context.Context, p payload.Payload, in flu
 		Metadata:  p.Metadata(),
 		Data:      p.Data(),
 		InitialN:  rx.RequestMax,
-	}, in, i.SendFrame, i.registerStream)
+	}, in, i.SendFrame, i.registerStream, i.removeStream)
 }
 
 func (i *Instance) getNextStreamID() uint32 {
diff --git a/go/transport/wasmrs/host/instance.go b/go/transport/wasmrs/host/instance.go
index 04dfbbb..d4eaf24 100644
--- a/go/transport/wasmrs/host/instance.go
+++ b/go/transport/wasmrs/host/instance.go
@@ -16,8 +16,6 @@ import (
 	"github.com/nanobus/iota/go/operations"
 	"github.com/nanobus/iota/go/payload"
 	"github.com/nanobus/iota/go/proxy"
-	"github.com/nanobus/iota/go/rx"
-	"github.com/nanobus/iota/go/rx/flux"
 	"github.com/nanobus/iota/go/rx/mono"
 )
 
@@ -286,7 +284,7 @@ func (i *Instance) recvOne(data []byte) {
 			return
 		}
 
-		go i.handleRequestResponse(ctx, rr.StreamID, rr.Data, rr.Metadata)
+		go i.handleRequestResponse(i.callContext(ctx, rr.Metadata), rr.StreamID, rr.Data, rr.Metadata)
 
 	case frames.FrameTypeRequestFNF:
 		var rr frames.RequestPayload
@@ -302,7 +300,7 @@ func (i *Instance) recvOne(data []byte) {
 			return
 		}
 
-		go i.handleFireAndForget(ctx, rr.StreamID, rr.Data, rr.Metadata)
+		go i.handleFireAndForget(i.callContext(ctx, rr.Metadata), rr.StreamID, rr.Data, rr.Metadata)
 
 	case frames.FrameTypeRequestStream:
 		var rs frames.RequestPayload
@@ -318,7 +316,10 @@ func (i *Instance) recvOne(data []byte) {
 			return
 		}
 
-		go i.handleRequestStream(ctx, rs.StreamID, rs.Data, rs.Metadata, rs.InitialN)
+		// Need to register for RequestN and Cancel frames
+		s := proxy.NewResponder(i.callContext(ctx, rs.Metadata), rs.StreamID, false, i.SendFrame, i.removeStream)
+		i.registerStream(s)
+		go i.handleRequestStream(s, rs.Data, rs.Metadata, rs.InitialN)
 
 	case frames.FrameTypeRequestChannel:
 		var rc frames.RequestPayload
@@ -334,7 +335,10 @@ func (i *Instance) recvOne(data []byte) {
 			return
 		}
 
-		go i.handleRequestChannel(ctx, rc.StreamID, rc.Data, rc.Metadata, rc.InitialN)
+		// Need to register for the frames of the requester
+		s := proxy.NewResponder(i.callContext(ctx, rc.Metadata), rc.StreamID, true, i.SendFrame, i.removeStream)
+		i.registerStream(s)
+		go i.handleRequestChannel(s, rc.Data, rc.Metadata, rc.InitialN)
 
 	case frames.FrameTypeRequestN:
 		var rn frames.RequestN
@@ -346,12 +350,14 @@ func (i *Instance) recvOne(data []byte) {
 			return
 		}
 
-		s := str.(DoRequest)
-		go s.DoRequest(int(rn.N))
+		if s, ok := str.(DoRequest); ok {
+			go s.DoRequest(int(rn.N))
+		}
 
 	case frames.FrameTypeCancel:
-		str.OnComplete()
-		i.removeStream(header.StreamID())
+		if s, ok := str.(canceller); ok {
+			s.OnCancel()
+		}
 
 	case frames.FrameTypePayload:
 		var p frames.Payload
@@ -410,7 +416,6 @@ func (i *Instance) recvOne(data []byte) {
 
 		if p.Complete {
 			str.OnComplete()
-			i.removeStream(header.StreamID())
 		}
 
 	case frames.FrameTypeError:
@@ -419,23 +424,29 @@ func (i *Instance) recvOne(data []byte) {
 			return
 		}
 		str.OnError(errors.New(p.Data))
-		str.OnComplete()
-		i.removeStream(header.StreamID())
 	}
 }
 
-func (i *Instance) handleRequestResponse(ctx context.Context, streamID uint32, data, metadata []byte) {
-	if !i.checkMetadata(streamID, metadata) {
-		return
+// callContext is the context of the stream a request is made for, if any.
+func (i *Instance) callContext(ctx context.Context, metadata []byte) context.Context {
+	if len(metadata) < 8 {
+		return ctx
 	}
-
-	operationID := binary.BigEndian.Uint32(metadata)
 	parentStreamID := binary.BigEndian.Uint32(metadata[4:])
 	if parentStreamID != 0 {
 		if stream, ok := i.getStream(parentStreamID); ok {
 			ctx = stream.Context()
 		}
 	}
+	return ctx
+}
+
+func (i *Instance) handleRequestResponse(ctx context.Context, streamID uint32, data, metadata []byte) {
+	if !i.checkMetadata(streamID, metadata) {
+		return
+	}
+
+	operationID := binary.BigEndian.Uint32(metadata)
 	handler := i.getRequestResponseHandler(operationID)
 	if handler == nil {
 		i.SendFrame(&frames.Error{
@@ -447,13 +458,18 @@ func (i *Instance) handleRequestResponse(ctx context.Context, streamID uint32, d
 	p := payload.New(data, metadata)
 	handler(ctx, p).Subscribe(mono.Subscribe[payload.Payload]{
 		OnSuccess: func(p payload.Payload) {
-			i.SendFrame(&frames.Payload{
+			if err := i.SendFrame(&frames.Payload{
 				StreamID: streamID,
 				Metadata: p.Metadata(),
 				Data:     p.Data(),
 				Next:     true,
 				Complete: true,
-			})
+			}); err != nil {
+				i.SendFrame(&frames.Error{
+					StreamID: streamID,
+					Data:     err.Error(),
+				})
+			}
 		},
 		OnError: func(err error) {
 			i.SendFrame(&frames.Error{
@@ -470,12 +486,6 @@ func (i *Instance) handleFireAndForget(ctx context.Context, streamID uint32, dat
 	}
 
 	operationID := binary.BigEndian.Uint32(metadata)
-	parentStreamID := binary.BigEndian.Uint32(metadata[4:])
-	if parentStreamID != 0 {
-		if stream, ok := i.getStream(parentStreamID); ok {
-			ctx = stream.Context()
-		}
-	}
 	handler := i.getFireAndForgetHandler(operationID)
 	if handler == nil {
 		i.SendFrame(&frames.Error{
@@ -488,126 +498,42 @@ func (i *Instance) handleFireAndForget(ctx context.Context, streamID uint32, dat
 	handler(ctx, p)
 }
 
-func (i *Instance) handleRequestStream(ctx context.Context, streamID uint32, data, metadata []byte, initialN uint32) {
-	if !i.checkMetadata(streamID, metadata) {
+func (i *Instance) handleRequestStream(s *proxy.Responder, data, metadata []byte, initialN uint32) {
+	if len(metadata) < 8 {
+		s.Reject("Invalid metadata")
 		return
 	}
 
+	ctx := s.Context()
 	operationID := binary.BigEndian.Uint32(metadata)
-	parentStreamID := binary.BigEndian.Uint32(metadata[4:])
-	if parentStreamID != 0 {
-		if stream, ok := i.getStream(parentStreamID); ok {
-			ctx = stream.Context()
-		}
-	}
 	handlerRS := i.getRequestStreamHandler(operationID)
 	if handlerRS == nil {
-		i.SendFrame(&frames.Error{
-			StreamID: streamID,
-			Data:     "not_found",
-		})
+		s.Reject("not_found")
 		return
 	}
 
 	p := payload.New(data, metadata)
-	s := requestStream{ctx: ctx, streamID: streamID}
-	i.registerStream(&s) // Need to register for RequestN frames
 	f := handlerRS(ctx, p)
-	f.Subscribe(flux.Subscribe[payload.Payload]{
-		OnNext: func(p payload.Payload) {
-			i.SendFrame(&frames.Payload{
-				StreamID: streamID,
-				Metadata: p.Metadata(),
-				Data:     p.Data(),
-				Next:     true,
-			})
-		},
-		OnComplete: func() {
-			i.SendFrame(&frames.Payload{
-				StreamID: streamID,
-				Complete: true,
-			})
-		},
-		OnError: func(err error) {
-			i.SendFrame(&frames.Error{
-				StreamID: streamID,
-				Data:     err.Error(),
-			})
-		},
-		NoRequest: true,
-	})
-	sub := f.Subscription()
-	s.sub = sub
-	s.Request(int(initialN))
+	s.Respond(f, initialN)
 }
 
-func (i *Instance) handleRequestChannel(ctx context.Context, streamID uint32, data, metadata []byte, initialN uint32) {
-	if !i.checkMetadata(streamID, metadata) {
+func (i *Instance) handleRequestChannel(s *proxy.Responder, data, metadata []byte, initialN uint32) {
+	if len(metadata) < 8 {
+		s.Reject("Invalid metadata")
 		return
 	}
 
+	ctx := s.Context()
 	operationID := binary.BigEndian.Uint32(metadata)
-	parentStreamID := binary.BigEndian.Uint32(metadata[4:])
-	if parentStreamID != 0 {
-		if stream, ok := i.getStream(parentStreamID); ok {
-			ctx = stream.Context()
-		}
-	}
 	handlerRC := i.getRequestChannelHandler(operationID)
 	if handlerRC == nil {
-		i.SendFrame(&frames.Error{
-			StreamID: streamID,
-			Data:     "not_found",
-		})
+		s.Reject("not_found")
 		return
 	}
 
 	p := payload.New(data, metadata)
-	s := requestStream{streamID: streamID}
-	i.registerStream(&s) // Need to register for RequestN frames
-	in := flux.Create(func(sink flux.Sink[payload.Payload]) {
-		s.sink = sink
-		sink.OnSubscribe(flux.OnSubscribe{
-			Request: func(n int) {
-				i.SendFrame(&frames.RequestN{
-					StreamID: streamID,
-					N:        uint32(n),
-				})
-			},
-			Cancel: func() {
-				i.SendFrame(&frames.Cancel{
-					StreamID: streamID,
-				})
-			},
-		})
-	})
-	f := handlerRC(ctx, p, in)
-	f.Subscribe(flux.Subscribe[payload.Payload]{
-		OnNext: func(p payload.Payload) {
-			i.SendFrame(&frames.Payload{
-				StreamID: streamID,
-				Metadata: p.Metadata(),
-				Data:     p.Data(),
-				Next:     true,
-			})
-		},
-		OnComplete: func() {
-			i.SendFrame(&frames.Payload{
-				StreamID: streamID,
-				Complete: true,
-			})
-		},
-		OnError: func(err error) {
-			i.SendFrame(&frames.Error{
-				StreamID: streamID,
-				Data:     err.Error(),
-			})
-		},
-		NoRequest: true,
-	})
-	sub := f.Subscription()
-	s.sub = sub
-	s.Request(int(initialN))
+	f := handlerRC(ctx, p, s.Input())
+	s.Respond(f, initialN)
 }
 
 func (i *Instance) SetRequestResponseHandler(index uint32, handler invoke.RequestResponseHandler) {
@@ -696,40 +622,6 @@ type DoRequest interface {
 	DoRequest(n int)
 }
 
-type requestStream struct {
-	ctx      context.Context
-	streamID uint32
-	flux.Sink[payload.Payload]
-	sub  rx.Subscription
-	sink flux.Sink[payload.Payload]
-}
-
-var _ = (proxy.Stream)((*requestStream)(nil))
-
-func (r *requestStream) Context() context.Context {
-	return r.ctx
-}
-
-func (r *requestStream) StreamID() uint32 {
-	return r.streamID
-}
-
-func (r *requestStream) Request(n int) {
-	r.sub.Request(n)
-}
-
-func (r *requestStream) DoRequest(n int) {
-	r.sub.Request(n)
-}
-
-func (r *requestStream) OnNext(p payload.Payload) {
-	r.sink.Next(p)
-}
-
-func (r *requestStream) OnComplete() {
-	r.sink.Complete()
-}
-
-func (r *requestStream) OnError(err error) {
-	r.sink.Error(err)
+type canceller interface {
+	OnCancel()
 }
-- 
2.43.0


From f9a6dd89de11236bef78c72ca90516b62d4bbcfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:13 +0000
Subject: [PATCH 36/78] fix: signal the subscriber that blocks on flux.Error

---
 go/rx/flux/flux.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/go/rx/flux/flux.go b/go/rx/flux/flux.go
index 6a74aa6..9bec2c1 100644
--- a/go/rx/flux/flux.go
+++ b/go/rx/flux/flux.go
@@ -61,7 +61,8 @@ func (e errorFlow[T]) Notify(fn rx.FnFinally) {
 	fn(rx.SignalError)
 }
 
-func (e errorFlow[T]) Block(_ Subscribe[T]) error {
+func (e errorFlow[T]) Block(sub Subscribe[T]) error {
+	e.Subscribe(sub)
 	return e.err
 }
 
-- 
2.43.0


From 9677ca5b1a1ba6a3a699137dbfc71a0c95e7c746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:21 +0000
Subject: [PATCH 37/78] fix: report one end when a transformation fails while
 the stream ends

---
 go/rx/flux/flux.go | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/go/rx/flux/flux.go b/go/rx/flux/flux.go
index 9bec2c1..04f436f 100644
--- a/go/rx/flux/flux.go
+++ b/go/rx/flux/flux.go
@@ -300,8 +300,9 @@ type mapper[S, D any] struct {
 	f  Flux[S]
 	tx rx.Transform[S, D]
 
-	mu  sync.Mutex
-	err error // Failure of the transformation
+	mu    sync.Mutex
+	err   error // Failure of the transformation
+	ended bool  // The end has been reported, or is about to be
 }
 
 func (m *mapper[S, D]) failure() error {
@@ -310,9 +311,18 @@ func (m *mapper[S, D]) failure() error {
 	return m.err
 }
 
+// end returns the failure that ends the stream instead of its own end, if any.
+func (m *mapper[S, D]) end() error {
+	m.mu.Lock()
+	defer m.mu.Unlock()
+	m.ended = true
+	return m.err
+}
+
 func (m *mapper[S, D]) Subscribe(sub Subscribe[D]) Flux[D] {
 	m.mu.Lock()
 	m.err = nil
+	m.ended = false
 	m.mu.Unlock()
 	m.f.Subscribe(Subscribe[S]{
 		OnNext: func(value S) {
@@ -324,6 +334,10 @@ func (m *mapper[S, D]) Subscribe(sub Subscribe[D]) Flux[D] {
 				// The end of the source, which cancelling brings about,
 				// is reported as this error.
 				m.mu.Lock()
+				if m.ended {
+					m.mu.Unlock()
+					return
+				}
 				m.err = err
 				m.mu.Unlock()
 				if s := m.f.Subscription(); s != nil {
@@ -333,11 +347,19 @@ func (m *mapper[S, D]) Subscribe(sub Subscribe[D]) Flux[D] {
 				sub.OnNext(converted)
 			}
 		},
-		OnComplete: sub.OnComplete,
-		OnError:    sub.OnError,
-		OnRequest:  sub.OnRequest,
+		OnComplete: func() {
+			if m.end() == nil && sub.OnComplete != nil {
+				sub.OnComplete()
+			}
+		},
+		OnError: func(err error) {
+			if m.end() == nil && sub.OnError != nil {
+				sub.OnError(err)
+			}
+		},
+		OnRequest: sub.OnRequest,
 		Finally: func(signal rx.SignalType) {
-			if err := m.failure(); err != nil {
+			if err := m.end(); err != nil {
 				signal = rx.SignalError
 				if sub.OnError != nil {
 					sub.OnError(err)
-- 
2.43.0


From 220fd7f382d1c72dc5447cd1deea2bea0a9f606b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:49 +0000
Subject: [PATCH 38/78] fix: signal the input of a channel from one goroutine
 at a time

---
 go/proxy/responder.go | 46 ++++++++++++++++++++++++-------------------
 1 file changed, 26 insertions(+), 20 deletions(-)

diff --git a/go/proxy/responder.go b/go/proxy/responder.go
index 132eff0..e3a3066 100644
--- a/go/proxy/responder.go
+++ b/go/proxy/responder.go
@@ -23,7 +23,8 @@ type Responder struct {
 	demand  int // Demand that came before there was a subscription
 	outDone bool
 	in      flux.Sink[payload.Payload]
-	pending []func(flux.Sink[payload.Payload]) // Input that came before there was a sink
+	pending []func(flux.Sink[payload.Payload]) // Input to signal once there is a sink
+	busy    bool                               // The input is being signalled
 	inDone  bool
 	removed bool
 }
@@ -128,20 +129,10 @@ func (r *Responder) Input() flux.Flux[payload.Payload] {
 			},
 		})
 
-		for {
-			r.mu.Lock()
-			pending := r.pending
-			r.pending = nil
-			if len(pending) == 0 {
-				r.in = sink
-				r.mu.Unlock()
-				return
-			}
-			r.mu.Unlock()
-			for _, fn := range pending {
-				fn(sink)
-			}
-		}
+		r.mu.Lock()
+		r.in = sink
+		r.mu.Unlock()
+		r.signal()
 	})
 }
 
@@ -215,14 +206,29 @@ func (r *Responder) input(fn func(flux.Sink[payload.Payload])) {
 		r.mu.Unlock()
 		return
 	}
-	in := r.in
-	if in == nil {
-		r.pending = append(r.pending, fn)
-	}
+	r.pending = append(r.pending, fn)
 	r.mu.Unlock()
-	if in != nil {
+	r.signal()
+}
+
+// signal passes on pending input, one signal at a time. The requester and a
+// failing output may end the input at the same time.
+func (r *Responder) signal() {
+	r.mu.Lock()
+	if r.busy {
+		r.mu.Unlock()
+		return
+	}
+	for r.in != nil && len(r.pending) > 0 {
+		in, fn := r.in, r.pending[0]
+		r.pending = r.pending[1:]
+		r.busy = true
+		r.mu.Unlock()
 		fn(in)
+		r.mu.Lock()
+		r.busy = false
 	}
+	r.mu.Unlock()
 }
 
 // end marks a direction as done and removes the stream once both are.
-- 
2.43.0


From 18bd05417afd782c5291dd684c9c4f179fb8566e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:58 +0000
Subject: [PATCH 39/78] fix: stop a source that registers after its stream was
 cancelled

---
 go/rx/flux/flux.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/go/rx/flux/flux.go b/go/rx/flux/flux.go
index 04f436f..73a1e4f 100644
--- a/go/rx/flux/flux.go
+++ b/go/rx/flux/flux.go
@@ -236,7 +236,11 @@ func (s *subscriber[T]) finally(signal rx.SignalType) {
 func (s *subscriber[T]) OnSubscribe(sub OnSubscribe) {
 	s.f.mu.Lock()
 	if s.closed {
+		cancelled := s.signal == rx.SignalCancel
 		s.f.mu.Unlock()
+		if cancelled && sub.Cancel != nil {
+			sub.Cancel()
+		}
 		return
 	}
 	s.sub = sub
-- 
2.43.0


From a472f0463cff9d04b1b30f9de2dcaa78f037f57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:15 +0000
Subject: [PATCH 40/78] fix: require the braces of a braced UUID

---
 go/types/uuid/uuid.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/go/types/uuid/uuid.go b/go/types/uuid/uuid.go
index 61a3725..1d18343 100644
--- a/go/types/uuid/uuid.go
+++ b/go/types/uuid/uuid.go
@@ -76,6 +76,9 @@ func Parse(s string) (UUID, error) {
 
 	// {xxxxxxxx-xxxx-xxxx-xxxx-xxxxxxxxxxxx}
 	case 36 + 2:
+		if s[0] != '{' || s[37] != '}' {
+			return uuid, errors.New("invalid UUID format")
+		}
 		s = s[1:]
 
 	// xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx
@@ -122,6 +125,9 @@ func ParseBytes(b []byte) (UUID, error) {
 		}
 		b = b[9:]
 	case 36 + 2: // {xxxxxxxx-xxxx-xxxx-xxxx-xxxxxxxxxxxx}
+		if b[0] != '{' || b[37] != '}' {
+			return uuid, errors.New("invalid UUID format")
+		}
 		b = b[1:]
 	case 32: // xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx
 		var ok bool
-- 
2.43.0


From 7eda1efcb1c770313ef4834ff55540d38dc29fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:17 +0000
Subject: [PATCH 41/78] fix: read empty custom sections and bound the lengths
 of sections

---
 go/transport/wasmrs/customsections/customsections.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/go/transport/wasmrs/customsections/customsections.go b/go/transport/wasmrs/customsections/customsections.go
index 480e332..c090c16 100644
--- a/go/transport/wasmrs/customsections/customsections.go
+++ b/go/transport/wasmrs/customsections/customsections.go
@@ -106,6 +106,9 @@ func decodeUTF8(r *bytes.Reader, contextFormat string, contextArgs ...interface{
 		return "", 0, fmt.Errorf("failed to read %s size: %w", fmt.Sprintf(contextFormat, contextArgs...), err)
 	}
 
+	if int64(size) > int64(r.Len()) {
+		return "", 0, fmt.Errorf("failed to read %s: %w", fmt.Sprintf(contextFormat, contextArgs...), io.ErrUnexpectedEOF)
+	}
 	buf := make([]byte, size)
 	if _, err = io.ReadFull(r, buf); err != nil {
 		return "", 0, fmt.Errorf("failed to read %s: %w", fmt.Sprintf(contextFormat, contextArgs...), err)
@@ -122,8 +125,13 @@ func decodeUTF8(r *bytes.Reader, contextFormat string, contextArgs ...interface{
 //
 // See https://www.w3.org/TR/2019/REC-wasm-core-1-20191205/#custom-section%E2%91%A0
 func decodeCustomSection(r *bytes.Reader, name string, limit uint64) (result *wasm.CustomSection, err error) {
+	if limit > uint64(r.Len()) {
+		return nil, io.ErrUnexpectedEOF
+	}
 	buf := make([]byte, limit)
-	_, err = r.Read(buf)
+	if _, err = io.ReadFull(r, buf); err != nil {
+		return nil, err
+	}
 
 	result = &wasm.CustomSection{
 		Name: name,
-- 
2.43.0


From 9653fb0a03fd1041267b08b8d2883ef33c206a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:25 +0000
Subject: [PATCH 42/78] fix: give every frame a guest sends its own bytes

---
 go/transport/wasmrs/host/instance.go | 48 +++++++++++++++-------------
 1 file changed, 26 insertions(+), 22 deletions(-)

diff --git a/go/transport/wasmrs/host/instance.go b/go/transport/wasmrs/host/instance.go
index d4eaf24..b39b1e4 100644
--- a/go/transport/wasmrs/host/instance.go
+++ b/go/transport/wasmrs/host/instance.go
@@ -1,12 +1,10 @@
 package host
 
 import (
-	"bytes"
 	"context"
 	"encoding/binary"
 	"errors"
 	"fmt"
-	"sync"
 
 	"github.com/tetratelabs/wazero/api"
 
@@ -23,7 +21,7 @@ type Instance struct {
 	ctx       context.Context
 	m         api.Module
 	sendCh    chan frames.Frame
-	recvCh    chan *bytes.Buffer //[]byte
+	recvCh    chan []byte
 	sendFn    api.Function
 	sendPtr   uint32
 	sendSize  uint32
@@ -72,7 +70,7 @@ func NewInstance(ctx context.Context, m api.Module) (*Instance, error) {
 		ctx:    ctx,
 		m:      m,
 		sendCh: make(chan frames.Frame, 100),
-		recvCh: make(chan *bytes.Buffer, 100),
+		recvCh: make(chan []byte, 100),
 		sendFn: send,
 		// streams: make(map[uint32]proxy.Stream),
 		// streams:            make([]proxy.Stream, 1024*1024),
@@ -209,12 +207,6 @@ func (i *Instance) sendLoop() {
 	}
 }
 
-var buffers = sync.Pool{
-	New: func() interface{} {
-		return new(bytes.Buffer)
-	},
-}
-
 func (i *Instance) Operations() operations.Table {
 	return i.operations
 }
@@ -226,31 +218,43 @@ func (i *Instance) opList(ctx context.Context, opPtr uint32, opSize uint32) {
 }
 
 func (i *Instance) hostSend(ctx context.Context, recvPos uint32) {
-	buffer, _ := i.m.Memory().Read(i.recvPtr, recvPos)
+	buffer, ok := i.m.Memory().Read(i.recvPtr, recvPos)
+	if !ok {
+		fmt.Printf("Host: %d bytes sent from outside of the memory\n", recvPos)
+		return
+	}
 
 	for len(buffer) > 0 {
-		var length [4]byte
-		copy(length[1:4], buffer[0:3])
+		if len(buffer) < 3 {
+			fmt.Println("Host: Truncated frame length")
+			return
+		}
+		frameLength := uint32(buffer[0])<<16 | uint32(buffer[1])<<8 | uint32(buffer[2])
 		buffer = buffer[3:]
-		frameLength := binary.BigEndian.Uint32(length[0:4])
-		buf := buffers.Get().(*bytes.Buffer)
-		buf.Reset()
-		buf.Write(buffer)
-		i.recvCh <- buf
+		if frameLength > uint32(len(buffer)) {
+			fmt.Printf("Host: Truncated frame of length %d\n", frameLength)
+			return
+		}
+		// Handlers and subscribers may keep the payload of the frame.
+		frame := make([]byte, frameLength)
+		copy(frame, buffer)
+		i.recvCh <- frame
 		buffer = buffer[frameLength:]
 	}
 }
 
 func (i *Instance) recvLoop() {
-	for buf := range i.recvCh {
-		i.recvOne(buf.Bytes())
-		buf.Reset()
-		buffers.Put(buf)
+	for frame := range i.recvCh {
+		i.recvOne(frame)
 	}
 }
 
 func (i *Instance) recvOne(data []byte) {
 	ctx := context.Background()
+	if len(data) < frames.FrameHeaderLen {
+		fmt.Printf("Host: Truncated frame of length %d\n", len(data))
+		return
+	}
 	header := frames.ParseFrameHeader(data)
 	data = data[frames.FrameHeaderLen:]
 
-- 
2.43.0


From a2eb6b7e357d039708d116bc42e346664197ff5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:58 +0000
Subject: [PATCH 43/78] fix: report frames that exceed the buffers of a guest

---
 go/transport/wasmrs/guest/guest.go   | 12 +++++++++---
 go/transport/wasmrs/host/instance.go | 15 ++++++++++++---
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/go/transport/wasmrs/guest/guest.go b/go/transport/wasmrs/guest/guest.go
index 5649250..4cdf0ff 100644
--- a/go/transport/wasmrs/guest/guest.go
+++ b/go/transport/wasmrs/guest/guest.go
@@ -33,6 +33,9 @@ var (
 	fragmentedPayloads map[uint32]fragmentedPayload
 )
 
+// ErrFrameTooLarge is returned for a frame that exceeds the buffer of the host.
+var ErrFrameTooLarge = errors.New("frame exceeds the size of the buffer")
+
 type fragmentedPayload struct {
 	frameType frames.FrameType
 	initialN  uint32
@@ -489,17 +492,20 @@ func sendFrame(f frames.Frame) error {
 	// } else {
 	// 	doSendFrame(f)
 	// }
-	doSendFrame(f)
-	return nil
+	return doSendFrame(f)
 }
 
-func doSendFrame(f frames.Frame) {
+func doSendFrame(f frames.Frame) error {
 	byteLength := f.Size()
+	if byteLength+3 > uint32(len(hostBuffer)) {
+		return ErrFrameTooLarge
+	}
 	var length [4]byte
 	binary.BigEndian.PutUint32(length[0:4], byteLength)
 	copy(hostBuffer[0:3], length[1:4])
 	f.Encode(hostBuffer[3:])
 	hostSend(byteLength + 3)
+	return nil
 }
 
 type DoRequest interface {
diff --git a/go/transport/wasmrs/host/instance.go b/go/transport/wasmrs/host/instance.go
index b39b1e4..141ca4b 100644
--- a/go/transport/wasmrs/host/instance.go
+++ b/go/transport/wasmrs/host/instance.go
@@ -48,6 +48,12 @@ type Instance struct {
 	importedRC   []invoke.RequestChannelHandler
 }
 
+// ErrFrameTooLarge is returned for a frame that exceeds the buffer of the guest.
+var ErrFrameTooLarge = errors.New("frame exceeds the size of the buffer")
+
+// frameLengthSize is the size of the length in front of every frame of a batch.
+const frameLengthSize = 3
+
 type fragmentedPayload struct {
 	frameType frames.FrameType
 	initialN  uint32
@@ -143,6 +149,9 @@ func (i *Instance) SendFrame(f frames.Frame) error {
 	// } else {
 	// 	i.sendCh <- f
 	// }
+	if f.Size()+frameLengthSize > i.sendSize {
+		return ErrFrameTooLarge
+	}
 	i.sendCh <- f
 	return nil
 }
@@ -171,7 +180,7 @@ func (i *Instance) sendLoop() {
 
 		// if this frame does not fit,
 		// send the buffer and reset.
-		if pos+3+byteCount >= i.sendSize {
+		if pos+frameLengthSize+byteCount > i.sendSize {
 			i.sendFn.Call(ctx, uint64(pos))
 			pos = 0
 			count = 0
@@ -182,8 +191,8 @@ func (i *Instance) sendLoop() {
 		// Encode length and frame data.
 		binary.BigEndian.PutUint32(lengthBytes[:], byteCount)
 		copy(buf[pos:], lengthBytes[1:4])
-		f.Encode(buf[pos+3:])
-		pos += 3 + byteCount
+		f.Encode(buf[pos+frameLengthSize:])
+		pos += frameLengthSize + byteCount
 
 		count++
 	}
-- 
2.43.0


From 032845ea9e5210d7be061dc3499a00b75dbe8f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:47 +0000
Subject: [PATCH 44/78] fix: never let the two directions of an instance block
 each other

---
 go/transport/wasmrs/host/instance.go | 64 ++++++++++++++++------------
 go/transport/wasmrs/host/queue.go    | 51 ++++++++++++++++++++++
 2 files changed, 87 insertions(+), 28 deletions(-)
 create mode 100644 go/transport/wasmrs/host/queue.go

diff --git a/go/transport/wasmrs/host/instance.go b/go/transport/wasmrs/host/instance.go
index 141ca4b..8df5d8d 100644
--- a/go/transport/wasmrs/host/instance.go
+++ b/go/transport/wasmrs/host/instance.go
@@ -20,8 +20,8 @@ import (
 type Instance struct {
 	ctx       context.Context
 	m         api.Module
-	sendCh    chan frames.Frame
-	recvCh    chan []byte
+	sendQueue *queue[frames.Frame]
+	recvQueue *queue[[]byte]
 	sendFn    api.Function
 	sendPtr   uint32
 	sendSize  uint32
@@ -51,6 +51,9 @@ type Instance struct {
 // ErrFrameTooLarge is returned for a frame that exceeds the buffer of the guest.
 var ErrFrameTooLarge = errors.New("frame exceeds the size of the buffer")
 
+// ErrClosed is returned for a frame sent after the instance was closed.
+var ErrClosed = errors.New("instance closed")
+
 // frameLengthSize is the size of the length in front of every frame of a batch.
 const frameLengthSize = 3
 
@@ -73,11 +76,11 @@ func NewInstance(ctx context.Context, m api.Module) (*Instance, error) {
 		return nil, errors.New("module does not export __wasmrs_send")
 	}
 	i := &Instance{
-		ctx:    ctx,
-		m:      m,
-		sendCh: make(chan frames.Frame, 100),
-		recvCh: make(chan []byte, 100),
-		sendFn: send,
+		ctx:       ctx,
+		m:         m,
+		sendQueue: newQueue[frames.Frame](),
+		recvQueue: newQueue[[]byte](),
+		sendFn:    send,
 		// streams: make(map[uint32]proxy.Stream),
 		// streams:            make([]proxy.Stream, 1024*1024),
 		maxFrameSize:       1024 * 1024,
@@ -104,8 +107,8 @@ func NewInstance(ctx context.Context, m api.Module) (*Instance, error) {
 }
 
 func (i *Instance) Close() error {
-	close(i.sendCh)
-	close(i.recvCh)
+	i.sendQueue.close()
+	i.recvQueue.close()
 	return nil
 }
 
@@ -152,7 +155,9 @@ func (i *Instance) SendFrame(f frames.Frame) error {
 	if f.Size()+frameLengthSize > i.sendSize {
 		return ErrFrameTooLarge
 	}
-	i.sendCh <- f
+	if !i.sendQueue.push(f) {
+		return ErrClosed
+	}
 	return nil
 }
 
@@ -197,21 +202,18 @@ func (i *Instance) sendLoop() {
 		count++
 	}
 
-	for f := range i.sendCh {
-		write(f)
-		loop := true
-		for loop {
-			select {
-			case f := <-i.sendCh:
-				write(f)
-			default:
-				if pos > 0 {
-					i.sendFn.Call(ctx, uint64(pos))
-					pos = 0
-					count = 0
-				}
-				loop = false
-			}
+	for {
+		batch := i.sendQueue.pop()
+		if len(batch) == 0 {
+			return
+		}
+		for _, f := range batch {
+			write(f)
+		}
+		if pos > 0 {
+			i.sendFn.Call(ctx, uint64(pos))
+			pos = 0
+			count = 0
 		}
 	}
 }
@@ -247,14 +249,20 @@ func (i *Instance) hostSend(ctx context.Context, recvPos uint32) {
 		// Handlers and subscribers may keep the payload of the frame.
 		frame := make([]byte, frameLength)
 		copy(frame, buffer)
-		i.recvCh <- frame
+		i.recvQueue.push(frame)
 		buffer = buffer[frameLength:]
 	}
 }
 
 func (i *Instance) recvLoop() {
-	for frame := range i.recvCh {
-		i.recvOne(frame)
+	for {
+		batch := i.recvQueue.pop()
+		if len(batch) == 0 {
+			return
+		}
+		for _, frame := range batch {
+			i.recvOne(frame)
+		}
 	}
 }
 
diff --git a/go/transport/wasmrs/host/queue.go b/go/transport/wasmrs/host/queue.go
new file mode 100644
index 0000000..855830d
--- /dev/null
+++ b/go/transport/wasmrs/host/queue.go
@@ -0,0 +1,51 @@
+package host
+
+import "sync"
+
+// queue is an unbounded FIFO. Neither end of an instance may block the other:
+// the guest sends frames while it receives some, and frames are sent in
+// response to those received.
+type queue[T any] struct {
+	mu     sync.Mutex
+	ready  sync.Cond
+	items  []T
+	closed bool
+}
+
+func newQueue[T any]() *queue[T] {
+	q := &queue[T]{}
+	q.ready.L = &q.mu
+	return q
+}
+
+// push adds an item. It reports false once the queue is closed.
+func (q *queue[T]) push(item T) bool {
+	q.mu.Lock()
+	defer q.mu.Unlock()
+	if q.closed {
+		return false
+	}
+	q.items = append(q.items, item)
+	q.ready.Signal()
+	return true
+}
+
+// pop waits for items and takes all of them. It returns none once the queue
+// is closed and empty.
+func (q *queue[T]) pop() []T {
+	q.mu.Lock()
+	defer q.mu.Unlock()
+	for len(q.items) == 0 && !q.closed {
+		q.ready.Wait()
+	}
+	items := q.items
+	q.items = nil
+	return items
+}
+
+func (q *queue[T]) close() {
+	q.mu.Lock()
+	defer q.mu.Unlock()
+	q.closed = true
+	q.ready.Broadcast()
+}
-- 
2.43.0


From e51c74c104a89299d8dd662efb90d4f3f1d92c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:47 +0000
Subject: [PATCH 45/78] fix: end a stream also with an error that is too long
 to send

---
 go/internal/frames/error.go          | 12 ++++++++++++
 go/transport/wasmrs/guest/guest.go   |  4 ++++
 go/transport/wasmrs/host/instance.go |  4 ++++
 3 files changed, 20 insertions(+)

diff --git a/go/internal/frames/error.go b/go/internal/frames/error.go
index 55efb64..0cc5673 100644
--- a/go/internal/frames/error.go
+++ b/go/internal/frames/error.go
@@ -48,3 +48,15 @@ func (f *Error) Encode(buf []byte) {
 func (f *Error) Size() uint32 {
 	return uint32(FrameHeaderLen + 4 + len(f.Data))
 }
+
+// Truncated returns the error with its text cut so that the frame
+// is no larger than maxSize.
+func (f *Error) Truncated(maxSize uint32) *Error {
+	size := f.Size()
+	if size <= maxSize || size-maxSize > uint32(len(f.Data)) {
+		return f
+	}
+	cut := *f
+	cut.Data = f.Data[:uint32(len(f.Data))-(size-maxSize)]
+	return &cut
+}
diff --git a/go/transport/wasmrs/guest/guest.go b/go/transport/wasmrs/guest/guest.go
index 4cdf0ff..73f87c0 100644
--- a/go/transport/wasmrs/guest/guest.go
+++ b/go/transport/wasmrs/guest/guest.go
@@ -496,6 +496,10 @@ func sendFrame(f frames.Frame) error {
 }
 
 func doSendFrame(f frames.Frame) error {
+	if e, ok := f.(*frames.Error); ok {
+		// Must arrive, as it ends the stream.
+		f = e.Truncated(uint32(len(hostBuffer)) - 3)
+	}
 	byteLength := f.Size()
 	if byteLength+3 > uint32(len(hostBuffer)) {
 		return ErrFrameTooLarge
diff --git a/go/transport/wasmrs/host/instance.go b/go/transport/wasmrs/host/instance.go
index 8df5d8d..44b8886 100644
--- a/go/transport/wasmrs/host/instance.go
+++ b/go/transport/wasmrs/host/instance.go
@@ -152,6 +152,10 @@ func (i *Instance) SendFrame(f frames.Frame) error {
 	// } else {
 	// 	i.sendCh <- f
 	// }
+	if e, ok := f.(*frames.Error); ok {
+		// Must arrive, as it ends the stream.
+		f = e.Truncated(i.sendSize - frameLengthSize)
+	}
 	if f.Size()+frameLengthSize > i.sendSize {
 		return ErrFrameTooLarge
 	}
-- 
2.43.0


From 60b1c7c815a82841b9ac93f618d146b1eb99125e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:19 +0000
Subject: [PATCH 46/78] fix: check the batches and frames a host sends to a
 guest

---
 go/transport/wasmrs/guest/guest.go | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/go/transport/wasmrs/guest/guest.go b/go/transport/wasmrs/guest/guest.go
index 73f87c0..77cc85f 100644
--- a/go/transport/wasmrs/guest/guest.go
+++ b/go/transport/wasmrs/guest/guest.go
@@ -106,19 +106,33 @@ func convertOperations(handlers []invoke.HandlerInfo, requestType operations.Req
 //go:export __wasmrs_send
 func GuestSend(endPos uint32) {
 	ctx := context.Background()
+	if endPos > uint32(len(guestBuffer)) {
+		println("Guest: Batch of " + strconv.FormatUint(uint64(endPos), 10) + " bytes exceeds the buffer")
+		return
+	}
 	var lengthBuf [4]byte
-	curPos := uint32(0)
-	buf := guestBuffer
+	buf := guestBuffer[:endPos]
 
-	for curPos < endPos {
+	for len(buf) > 0 {
+		if len(buf) < 3 {
+			println("Guest: Truncated frame length")
+			return
+		}
 		copy(lengthBuf[1:], buf)
 		frameLen := binary.BigEndian.Uint32(lengthBuf[:])
+		buf = buf[3:]
+		if frameLen > uint32(len(buf)) {
+			println("Guest: Truncated frame of length " + strconv.FormatUint(uint64(frameLen), 10))
+			return
+		}
 		frameBuf := make([]byte, frameLen)
-		copy(frameBuf, buf[3:])
-		curPos += 3 + frameLen
-		buf = buf[3+frameLen:]
+		copy(frameBuf, buf)
+		buf = buf[frameLen:]
 
-		// lengthPos = 1 // Reset for next frame
+		if frameLen < frames.FrameHeaderLen {
+			println("Guest: Truncated frame of length " + strconv.FormatUint(uint64(frameLen), 10))
+			continue
+		}
 		header := frames.ParseFrameHeader(frameBuf)
 		buffer := frameBuf[frames.FrameHeaderLen:]
 
-- 
2.43.0


From 6bb32edd8f8c2f0a1be789d20700b7c5aab1f3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:35 +0000
Subject: [PATCH 47/78] fix: answer malformed requests on their own stream

---
 go/transport/wasmrs/guest/guest.go   | 10 +++++-----
 go/transport/wasmrs/host/instance.go | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/go/transport/wasmrs/guest/guest.go b/go/transport/wasmrs/guest/guest.go
index 77cc85f..6439972 100644
--- a/go/transport/wasmrs/guest/guest.go
+++ b/go/transport/wasmrs/guest/guest.go
@@ -157,7 +157,7 @@ func GuestSend(endPos uint32) {
 			var rr frames.RequestPayload
 			if err := rr.Decode(&header, buffer); err != nil {
 				sendFrame(&frames.Error{
-					StreamID: rr.StreamID,
+					StreamID: header.StreamID(),
 					Data:     err.Error(),
 				})
 				continue
@@ -173,7 +173,7 @@ func GuestSend(endPos uint32) {
 			var rr frames.RequestPayload
 			if err := rr.Decode(&header, buffer); err != nil {
 				sendFrame(&frames.Error{
-					StreamID: rr.StreamID,
+					StreamID: header.StreamID(),
 					Data:     err.Error(),
 				})
 				continue
@@ -189,7 +189,7 @@ func GuestSend(endPos uint32) {
 			var rs frames.RequestPayload
 			if err := rs.Decode(&header, buffer); err != nil {
 				sendFrame(&frames.Error{
-					StreamID: rs.StreamID,
+					StreamID: header.StreamID(),
 					Data:     err.Error(),
 				})
 				continue
@@ -208,7 +208,7 @@ func GuestSend(endPos uint32) {
 			var rc frames.RequestPayload
 			if err := rc.Decode(&header, buffer); err != nil {
 				sendFrame(&frames.Error{
-					StreamID: rc.StreamID,
+					StreamID: header.StreamID(),
 					Data:     err.Error(),
 				})
 				return
@@ -227,7 +227,7 @@ func GuestSend(endPos uint32) {
 			var rn frames.RequestN
 			if err := rn.Decode(&header, buffer); err != nil {
 				sendFrame(&frames.Error{
-					StreamID: rn.StreamID,
+					StreamID: header.StreamID(),
 					Data:     err.Error(),
 				})
 				return
diff --git a/go/transport/wasmrs/host/instance.go b/go/transport/wasmrs/host/instance.go
index 44b8886..4026282 100644
--- a/go/transport/wasmrs/host/instance.go
+++ b/go/transport/wasmrs/host/instance.go
@@ -299,7 +299,7 @@ func (i *Instance) recvOne(data []byte) {
 		var rr frames.RequestPayload
 		if err := rr.Decode(&header, data); err != nil {
 			i.SendFrame(&frames.Error{
-				StreamID: rr.StreamID,
+				StreamID: header.StreamID(),
 				Data:     err.Error(),
 			})
 			return
@@ -315,7 +315,7 @@ func (i *Instance) recvOne(data []byte) {
 		var rr frames.RequestPayload
 		if err := rr.Decode(&header, data); err != nil {
 			i.SendFrame(&frames.Error{
-				StreamID: rr.StreamID,
+				StreamID: header.StreamID(),
 				Data:     err.Error(),
 			})
 			return
@@ -331,7 +331,7 @@ func (i *Instance) recvOne(data []byte) {
 		var rs frames.RequestPayload
 		if err := rs.Decode(&header, data); err != nil {
 			i.SendFrame(&frames.Error{
-				StreamID: rs.StreamID,
+				StreamID: header.StreamID(),
 				Data:     err.Error(),
 			})
 			return
@@ -350,7 +350,7 @@ func (i *Instance) recvOne(data []byte) {
 		var rc frames.RequestPayload
 		if err := rc.Decode(&header, data); err != nil {
 			i.SendFrame(&frames.Error{
-				StreamID: rc.StreamID,
+				StreamID: header.StreamID(),
 				Data:     err.Error(),
 			})
 			return
@@ -369,7 +369,7 @@ func (i *Instance) recvOne(data []byte) {
 		var rn frames.RequestN
 		if err := rn.Decode(&header, data); err != nil {
 			i.SendFrame(&frames.Error{
-				StreamID: rn.StreamID,
+				StreamID: header.StreamID(),
 				Data:     err.Error(),
 			})
 			return
-- 
2.43.0


From e875ef47d64038ec54bca1e08ce4fba84a52d3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:36 +0000
Subject: [PATCH 48/78] fix: go on with a batch after a malformed channel or
 demand frame

---
 go/transport/wasmrs/guest/guest.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/go/transport/wasmrs/guest/guest.go b/go/transport/wasmrs/guest/guest.go
index 6439972..0fe4ee3 100644
--- a/go/transport/wasmrs/guest/guest.go
+++ b/go/transport/wasmrs/guest/guest.go
@@ -211,7 +211,7 @@ func GuestSend(endPos uint32) {
 					StreamID: header.StreamID(),
 					Data:     err.Error(),
 				})
-				return
+				continue
 			}
 			if checkFollows(&rc) {
 				// Will be processed under frames.FrameTypePayload
@@ -230,7 +230,7 @@ func GuestSend(endPos uint32) {
 					StreamID: header.StreamID(),
 					Data:     err.Error(),
 				})
-				return
+				continue
 			}
 
 			if s, ok := str.(DoRequest); ok {
-- 
2.43.0


From 8e5763defcdaa2b10cb58b48af47975515d7727f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:13 +0000
Subject: [PATCH 49/78] fix: link operations of the mesh by their kind as well
 as their name

---
 go/transport/wasmrs/mesh/mesh.go | 57 ++++++++++----------------------
 1 file changed, 18 insertions(+), 39 deletions(-)

diff --git a/go/transport/wasmrs/mesh/mesh.go b/go/transport/wasmrs/mesh/mesh.go
index 0ba06f8..5fd5228 100644
--- a/go/transport/wasmrs/mesh/mesh.go
+++ b/go/transport/wasmrs/mesh/mesh.go
@@ -22,10 +22,18 @@ type (
 	Mesh struct {
 		verbose     bool
 		instances   map[string]*host.Instance
-		exports     map[string]map[string]*atomic.Pointer[destination]
+		exports     map[export]*atomic.Pointer[destination]
 		unsatisfied []*pending
 	}
 
+	// export identifies what a module exports: the operations of
+	// each kind of request have names of their own.
+	export struct {
+		namespace string
+		operation string
+		kind      operations.RequestType
+	}
+
 	destination struct {
 		instance *host.Instance
 		index    uint32
@@ -48,7 +56,7 @@ func WithVerbose() Option {
 func New(opts ...Option) *Mesh {
 	m := Mesh{
 		instances:   make(map[string]*host.Instance),
-		exports:     map[string]map[string]*atomic.Pointer[destination]{},
+		exports:     make(map[export]*atomic.Pointer[destination]),
 		unsatisfied: make([]*pending, 0, 10),
 	}
 
@@ -60,12 +68,7 @@ func New(opts ...Option) *Mesh {
 }
 
 func (m *Mesh) RequestResponse(ctx context.Context, namespace, operation string, p payload.Payload) mono.Mono[payload.Payload] {
-	ns, ok := m.exports[namespace]
-	if !ok {
-		return nil
-	}
-
-	ptr, ok := ns[operation]
+	ptr, ok := m.exports[export{namespace, operation, operations.RequestResponse}]
 	if !ok {
 		return nil
 	}
@@ -75,12 +78,7 @@ func (m *Mesh) RequestResponse(ctx context.Context, namespace, operation string,
 }
 
 func (m *Mesh) FireAndForget(ctx context.Context, namespace, operation string, p payload.Payload) {
-	ns, ok := m.exports[namespace]
-	if !ok {
-		return
-	}
-
-	ptr, ok := ns[operation]
+	ptr, ok := m.exports[export{namespace, operation, operations.FireAndForget}]
 	if !ok {
 		return
 	}
@@ -90,12 +88,7 @@ func (m *Mesh) FireAndForget(ctx context.Context, namespace, operation string, p
 }
 
 func (m *Mesh) RequestStream(ctx context.Context, namespace, operation string, p payload.Payload) flux.Flux[payload.Payload] {
-	ns, ok := m.exports[namespace]
-	if !ok {
-		return nil
-	}
-
-	ptr, ok := ns[operation]
+	ptr, ok := m.exports[export{namespace, operation, operations.RequestStream}]
 	if !ok {
 		return nil
 	}
@@ -105,12 +98,7 @@ func (m *Mesh) RequestStream(ctx context.Context, namespace, operation string, p
 }
 
 func (m *Mesh) RequestChannel(ctx context.Context, namespace, operation string, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
-	ns, ok := m.exports[namespace]
-	if !ok {
-		return nil
-	}
-
-	ptr, ok := ns[operation]
+	ptr, ok := m.exports[export{namespace, operation, operations.RequestChannel}]
 	if !ok {
 		return nil
 	}
@@ -191,15 +179,11 @@ func (m *Mesh) linkOperations(inst *host.Instance) {
 
 		switch op.Direction {
 		case operations.Export:
-			ns, ok := m.exports[op.Namespace]
-			if !ok {
-				ns = make(map[string]*atomic.Pointer[destination])
-				m.exports[op.Namespace] = ns
-			}
-			ptr, ok := ns[op.Operation]
+			key := export{op.Namespace, op.Operation, op.Type}
+			ptr, ok := m.exports[key]
 			if !ok {
 				ptr = &atomic.Pointer[destination]{}
-				ns[op.Operation] = ptr
+				m.exports[key] = ptr
 			}
 
 			ptr.Store(&destination{
@@ -235,12 +219,7 @@ func (m *Mesh) linkOperations(inst *host.Instance) {
 }
 
 func (m *Mesh) linkOperation(inst *host.Instance, op operations.Operation) bool {
-	ns, ok := m.exports[op.Namespace]
-	if !ok {
-		return false
-	}
-
-	ptr, ok := ns[op.Operation]
+	ptr, ok := m.exports[export{op.Namespace, op.Operation, op.Type}]
 	if !ok {
 		return false
 	}
-- 
2.43.0


From fb19b51a0657bed1ee3307890296daa02971d547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:15 +0000
Subject: [PATCH 50/78] fix: have linked imports follow a module that is loaded
 again

---
 go/transport/wasmrs/mesh/mesh.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/go/transport/wasmrs/mesh/mesh.go b/go/transport/wasmrs/mesh/mesh.go
index 5fd5228..a053d87 100644
--- a/go/transport/wasmrs/mesh/mesh.go
+++ b/go/transport/wasmrs/mesh/mesh.go
@@ -223,17 +223,26 @@ func (m *Mesh) linkOperation(inst *host.Instance, op operations.Operation) bool
 	if !ok {
 		return false
 	}
-	dest := ptr.Load()
 
+	// The destination is looked up by each call, as loading
+	// a module again replaces it.
 	switch op.Type {
 	case operations.RequestResponse:
-		inst.SetRequestResponseHandler(op.Index, dest.RequestResponse)
+		inst.SetRequestResponseHandler(op.Index, func(ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
+			return ptr.Load().RequestResponse(ctx, p)
+		})
 	case operations.FireAndForget:
-		inst.SetFireAndForgetHandler(op.Index, dest.FireAndForget)
+		inst.SetFireAndForgetHandler(op.Index, func(ctx context.Context, p payload.Payload) {
+			ptr.Load().FireAndForget(ctx, p)
+		})
 	case operations.RequestStream:
-		inst.SetRequestStreamHandler(op.Index, dest.RequestStream)
+		inst.SetRequestStreamHandler(op.Index, func(ctx context.Context, p payload.Payload) flux.Flux[payload.Payload] {
+			return ptr.Load().RequestStream(ctx, p)
+		})
 	case operations.RequestChannel:
-		inst.SetRequestChannelHandler(op.Index, dest.RequestChannel)
+		inst.SetRequestChannelHandler(op.Index, func(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
+			return ptr.Load().RequestChannel(ctx, p, in)
+		})
 	}
 
 	return true
-- 
2.43.0


From fb5fe147c68882936584f63f1fe42c65da40ffd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:41 +0000
Subject: [PATCH 51/78] fix: address requests of the mesh in metadata of their
 own

---
 go/transport/wasmrs/mesh/mesh.go | 36 +++++++++++++++-----------------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/go/transport/wasmrs/mesh/mesh.go b/go/transport/wasmrs/mesh/mesh.go
index a053d87..ae56663 100644
--- a/go/transport/wasmrs/mesh/mesh.go
+++ b/go/transport/wasmrs/mesh/mesh.go
@@ -248,34 +248,32 @@ func (m *Mesh) linkOperation(inst *host.Instance, op operations.Operation) bool
 	return true
 }
 
-func (d *destination) RequestResponse(ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
+// address returns the payload with the index of the operation in its
+// metadata. That of p is left alone, its owner may be using it still.
+func (d *destination) address(p payload.Payload) payload.Payload {
 	md := p.Metadata()
-	if md != nil {
-		binary.BigEndian.PutUint32(md, d.index)
+	size := len(md)
+	if size < 8 {
+		size = 8
 	}
-	return d.instance.RequestResponse(ctx, p)
+	addressed := make([]byte, size)
+	copy(addressed, md)
+	binary.BigEndian.PutUint32(addressed, d.index)
+	return payload.New(p.Data(), addressed)
+}
+
+func (d *destination) RequestResponse(ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
+	return d.instance.RequestResponse(ctx, d.address(p))
 }
 
 func (d *destination) FireAndForget(ctx context.Context, p payload.Payload) {
-	md := p.Metadata()
-	if md != nil {
-		binary.BigEndian.PutUint32(md, d.index)
-	}
-	d.instance.FireAndForget(ctx, p)
+	d.instance.FireAndForget(ctx, d.address(p))
 }
 
 func (d *destination) RequestStream(ctx context.Context, p payload.Payload) flux.Flux[payload.Payload] {
-	md := p.Metadata()
-	if md != nil {
-		binary.BigEndian.PutUint32(md, d.index)
-	}
-	return d.instance.RequestStream(ctx, p)
+	return d.instance.RequestStream(ctx, d.address(p))
 }
 
 func (d *destination) RequestChannel(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
-	md := p.Metadata()
-	if md != nil {
-		binary.BigEndian.PutUint32(md, d.index)
-	}
-	return d.instance.RequestChannel(ctx, p, in)
+	return d.instance.RequestChannel(ctx, d.address(p), in)
 }
-- 
2.43.0


From 55e022945d3c76348fbc96ba97f4fb22a09c1150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:43 +0000
Subject: [PATCH 52/78] fix: answer requests for unknown operations of the mesh
 with an error

---
 go/transport/wasmrs/mesh/mesh.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/go/transport/wasmrs/mesh/mesh.go b/go/transport/wasmrs/mesh/mesh.go
index ae56663..231f9fb 100644
--- a/go/transport/wasmrs/mesh/mesh.go
+++ b/go/transport/wasmrs/mesh/mesh.go
@@ -3,6 +3,7 @@ package mesh
 import (
 	"context"
 	"encoding/binary"
+	"errors"
 	"fmt"
 	"os"
 	"sync/atomic"
@@ -45,6 +46,10 @@ type (
 	}
 )
 
+// ErrNotFound is the error of a request for an operation that no
+// module of the mesh exports.
+var ErrNotFound = errors.New("operation not found")
+
 type Option func(*Mesh)
 
 func WithVerbose() Option {
@@ -70,7 +75,7 @@ func New(opts ...Option) *Mesh {
 func (m *Mesh) RequestResponse(ctx context.Context, namespace, operation string, p payload.Payload) mono.Mono[payload.Payload] {
 	ptr, ok := m.exports[export{namespace, operation, operations.RequestResponse}]
 	if !ok {
-		return nil
+		return mono.Error[payload.Payload](ErrNotFound)
 	}
 	dest := ptr.Load()
 
@@ -90,7 +95,7 @@ func (m *Mesh) FireAndForget(ctx context.Context, namespace, operation string, p
 func (m *Mesh) RequestStream(ctx context.Context, namespace, operation string, p payload.Payload) flux.Flux[payload.Payload] {
 	ptr, ok := m.exports[export{namespace, operation, operations.RequestStream}]
 	if !ok {
-		return nil
+		return flux.Error[payload.Payload](ErrNotFound)
 	}
 	dest := ptr.Load()
 
@@ -100,7 +105,7 @@ func (m *Mesh) RequestStream(ctx context.Context, namespace, operation string, p
 func (m *Mesh) RequestChannel(ctx context.Context, namespace, operation string, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
 	ptr, ok := m.exports[export{namespace, operation, operations.RequestChannel}]
 	if !ok {
-		return nil
+		return flux.Error[payload.Payload](ErrNotFound)
 	}
 	dest := ptr.Load()
 
-- 
2.43.0


From d4a49c5c12e017ca55c0ab533ddb490c56af211b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:45 +0000
Subject: [PATCH 53/78] fix: let a module import operations of any index,
 linked at any time

---
 go/transport/wasmrs/host/handlers.go | 26 +++++++++++++++
 go/transport/wasmrs/host/instance.go | 48 +++++++---------------------
 2 files changed, 38 insertions(+), 36 deletions(-)
 create mode 100644 go/transport/wasmrs/host/handlers.go

diff --git a/go/transport/wasmrs/host/handlers.go b/go/transport/wasmrs/host/handlers.go
new file mode 100644
index 0000000..593431a
--- /dev/null
+++ b/go/transport/wasmrs/host/handlers.go
@@ -0,0 +1,26 @@
+package host
+
+import "sync"
+
+// handlers holds the handlers of the operations a guest imports. They
+// may be set while the guest runs.
+type handlers[H any] struct {
+	mu      sync.RWMutex
+	handler map[uint32]H
+}
+
+func (h *handlers[H]) set(index uint32, handler H) {
+	h.mu.Lock()
+	defer h.mu.Unlock()
+	if h.handler == nil {
+		h.handler = make(map[uint32]H)
+	}
+	h.handler[index] = handler
+}
+
+// get returns the handler of an operation, the zero value if there is none.
+func (h *handlers[H]) get(index uint32) H {
+	h.mu.RLock()
+	defer h.mu.RUnlock()
+	return h.handler[index]
+}
diff --git a/go/transport/wasmrs/host/instance.go b/go/transport/wasmrs/host/instance.go
index 4026282..8ab6ce5 100644
--- a/go/transport/wasmrs/host/instance.go
+++ b/go/transport/wasmrs/host/instance.go
@@ -42,10 +42,10 @@ type Instance struct {
 	fragmentedPayloads map[uint32]fragmentedPayload
 	operations         operations.Table
 
-	importedRR   []invoke.RequestResponseHandler
-	importedRFNF []invoke.FireAndForgetHandler
-	importedRS   []invoke.RequestStreamHandler
-	importedRC   []invoke.RequestChannelHandler
+	importedRR   handlers[invoke.RequestResponseHandler]
+	importedRFNF handlers[invoke.FireAndForgetHandler]
+	importedRS   handlers[invoke.RequestStreamHandler]
+	importedRC   handlers[invoke.RequestChannelHandler]
 }
 
 // ErrFrameTooLarge is returned for a frame that exceeds the buffer of the guest.
@@ -562,59 +562,35 @@ func (i *Instance) handleRequestChannel(s *proxy.Responder, data, metadata []byt
 }
 
 func (i *Instance) SetRequestResponseHandler(index uint32, handler invoke.RequestResponseHandler) {
-	for uint32(len(i.importedRR)) < index+1 {
-		i.importedRR = append(i.importedRR, nil)
-	}
-	i.importedRR[index] = handler
+	i.importedRR.set(index, handler)
 }
 
 func (i *Instance) getRequestResponseHandler(index uint32) invoke.RequestResponseHandler {
-	if uint32(len(i.importedRR)) <= index {
-		return nil
-	}
-	return i.importedRR[index]
+	return i.importedRR.get(index)
 }
 
 func (i *Instance) SetFireAndForgetHandler(index uint32, handler invoke.FireAndForgetHandler) {
-	for uint32(len(i.importedRFNF)) < index+1 {
-		i.importedRFNF = append(i.importedRFNF, nil)
-	}
-	i.importedRFNF[index] = handler
+	i.importedRFNF.set(index, handler)
 }
 
 func (i *Instance) getFireAndForgetHandler(index uint32) invoke.FireAndForgetHandler {
-	if uint32(len(i.importedRFNF)) <= index {
-		return nil
-	}
-	return i.importedRFNF[index]
+	return i.importedRFNF.get(index)
 }
 
 func (i *Instance) SetRequestStreamHandler(index uint32, handler invoke.RequestStreamHandler) {
-	for uint32(len(i.importedRS)) < index+1 {
-		i.importedRS = append(i.importedRS, nil)
-	}
-	i.importedRS[index] = handler
+	i.importedRS.set(index, handler)
 }
 
 func (i *Instance) getRequestStreamHandler(index uint32) invoke.RequestStreamHandler {
-	if uint32(len(i.importedRS)) <= index {
-		return nil
-	}
-	return i.importedRS[index]
+	return i.importedRS.get(index)
 }
 
 func (i *Instance) SetRequestChannelHandler(index uint32, handler invoke.RequestChannelHandler) {
-	for uint32(len(i.importedRC)) < index+1 {
-		i.importedRC = append(i.importedRC, nil)
-	}
-	i.importedRC[index] = handler
+	i.importedRC.set(index, handler)
 }
 
 func (i *Instance) getRequestChannelHandler(index uint32) invoke.RequestChannelHandler {
-	if uint32(len(i.importedRC)) <= index {
-		return nil
-	}
-	return i.importedRC[index]
+	return i.importedRC.get(index)
 }
 
 func (i *Instance) checkMetadata(streamID uint32, metadata []byte) bool {
-- 
2.43.0


From 700e83d75196388f920a3288472e9e8d0594fcb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:05 +0000
Subject: [PATCH 54/78] fix: decode Rust frames of any bytes without a panic

---
 rust/crates/wasmrs/src/error.rs                  |  6 ++++++
 rust/crates/wasmrs/src/frames/f_error.rs         |  4 ++--
 rust/crates/wasmrs/src/frames/f_payload.rs       |  6 +++---
 rust/crates/wasmrs/src/frames/f_request_n.rs     |  4 ++--
 rust/crates/wasmrs/src/frames/header.rs          |  7 +++++--
 rust/crates/wasmrs/src/frames/mod.rs             | 14 ++++++--------
 rust/crates/wasmrs/src/frames/request_payload.rs |  8 ++++----
 rust/crates/wasmrs/src/util.rs                   | 10 ++++++++++
 8 files changed, 38 insertions(+), 21 deletions(-)

diff --git a/rust/crates/wasmrs/src/error.rs b/rust/crates/wasmrs/src/error.rs
index 73916c5..14227ab 100644
--- a/rust/crates/wasmrs/src/error.rs
+++ b/rust/crates/wasmrs/src/error.rs
@@ -18,6 +18,10 @@ pub enum Error {
   StringConversion,
   /// [crate::Metadata] not found in [crate::Payload]
   MetadataNotFound,
+  /// Used when bytes end before what they are to contain.
+  UnexpectedEnd,
+  /// Used for frames of a type that is unknown or not supported.
+  UnsupportedFrame(u8),
 }
 
 impl std::error::Error for Error {}
@@ -30,6 +34,8 @@ impl std::fmt::Display for Error {
       Error::WrongType => f.write_str("Tried to decode frame with wrong frame decoder"),
       Error::StringConversion => f.write_str("Could not read string bytes"),
       Error::MetadataNotFound => f.write_str("No metadata found"),
+      Error::UnexpectedEnd => f.write_str("Unexpected end of bytes"),
+      Error::UnsupportedFrame(id) => write!(f, "Unsupported frame type {}", id),
     }
   }
 }
diff --git a/rust/crates/wasmrs/src/frames/f_error.rs b/rust/crates/wasmrs/src/frames/f_error.rs
index 4cfbbdd..abd1fd9 100644
--- a/rust/crates/wasmrs/src/frames/f_error.rs
+++ b/rust/crates/wasmrs/src/frames/f_error.rs
@@ -1,7 +1,7 @@
 use bytes::{BufMut, Bytes, BytesMut};
 
 use super::{Error, FrameHeader, FrameType, RSocketFrame};
-use crate::util::from_u32_bytes;
+use crate::util::{from_u32_bytes, split};
 use crate::Frame;
 
 #[derive()]
@@ -33,7 +33,7 @@ impl RSocketFrame<ErrorFrame> for ErrorFrame {
 
     Ok(ErrorFrame {
       stream_id: header.stream_id(),
-      code: from_u32_bytes(&buffer.split_to(4)),
+      code: from_u32_bytes(&split(&mut buffer, 4)?),
       data: String::from_utf8(buffer.to_vec()).map_err(|_| crate::Error::StringConversion)?,
     })
   }
diff --git a/rust/crates/wasmrs/src/frames/f_payload.rs b/rust/crates/wasmrs/src/frames/f_payload.rs
index 9b021f5..5a5e68e 100644
--- a/rust/crates/wasmrs/src/frames/f_payload.rs
+++ b/rust/crates/wasmrs/src/frames/f_payload.rs
@@ -1,7 +1,7 @@
 use bytes::{BufMut, Bytes, BytesMut};
 
 use super::{Error, FrameFlags, FrameHeader, FrameType, RSocketFlags, RSocketFrame};
-use crate::util::{from_u24_bytes, to_u24_bytes};
+use crate::util::{from_u24_bytes, split, to_u24_bytes};
 use crate::{Frame, Payload};
 
 /// A Payload frame.
@@ -52,8 +52,8 @@ impl RSocketFrame<PayloadFrame> for PayloadFrame {
     Self::check_type(header)?;
 
     let metadata = if header.has_metadata() {
-      let metadata_len = from_u24_bytes(&buffer.split_to(3)) as usize;
-      buffer.split_to(metadata_len)
+      let metadata_len = from_u24_bytes(&split(&mut buffer, 3)?) as usize;
+      split(&mut buffer, metadata_len)?
     } else {
       Bytes::new()
     };
diff --git a/rust/crates/wasmrs/src/frames/f_request_n.rs b/rust/crates/wasmrs/src/frames/f_request_n.rs
index b588f68..2ef4339 100644
--- a/rust/crates/wasmrs/src/frames/f_request_n.rs
+++ b/rust/crates/wasmrs/src/frames/f_request_n.rs
@@ -1,7 +1,7 @@
 use bytes::Bytes;
 
 use super::{Error, FrameHeader, FrameType, RSocketFrame};
-use crate::util::from_u32_bytes;
+use crate::util::{from_u32_bytes, split};
 use crate::Frame;
 
 #[derive(Clone, Copy)]
@@ -31,7 +31,7 @@ impl RSocketFrame<RequestN> for RequestN {
     Self::check_type(header)?;
     Ok(RequestN {
       stream_id: header.stream_id(),
-      n: from_u32_bytes(&buffer.split_to(4)),
+      n: from_u32_bytes(&split(&mut buffer, 4)?),
     })
   }
 
diff --git a/rust/crates/wasmrs/src/frames/header.rs b/rust/crates/wasmrs/src/frames/header.rs
index 7fa2db7..c878943 100644
--- a/rust/crates/wasmrs/src/frames/header.rs
+++ b/rust/crates/wasmrs/src/frames/header.rs
@@ -41,9 +41,12 @@ impl FrameHeader {
     from_u16_bytes(&self.header.slice(4..Frame::LEN_HEADER))
   }
 
+  pub(crate) fn frame_type_id(&self) -> u8 {
+    self.header[4] >> 2
+  }
+
   pub(crate) fn frame_type(&self) -> FrameType {
-    let id: u8 = self.header[4] >> 2;
-    id.try_into().unwrap()
+    self.frame_type_id().try_into().unwrap()
   }
 
   pub(crate) fn check(&self, flag: FrameFlags) -> bool {
diff --git a/rust/crates/wasmrs/src/frames/mod.rs b/rust/crates/wasmrs/src/frames/mod.rs
index 3c2bd0b..d099257 100644
--- a/rust/crates/wasmrs/src/frames/mod.rs
+++ b/rust/crates/wasmrs/src/frames/mod.rs
@@ -12,7 +12,7 @@ pub(crate) mod request_payload;
 
 use bytes::Bytes;
 
-use crate::util::from_u32_bytes;
+use crate::util::{from_u32_bytes, split};
 use crate::Error;
 
 use self::f_cancel::Cancel;
@@ -301,7 +301,7 @@ impl Payload {
       return Err(crate::Error::MetadataNotFound);
     }
     let bytes = self.metadata.as_ref().unwrap();
-    let index = from_u32_bytes(&bytes[0..4]);
+    let index = from_u32_bytes(bytes.get(0..4).ok_or(crate::Error::MetadataNotFound)?);
 
     Ok(Metadata { index })
   }
@@ -390,15 +390,14 @@ impl Frame {
 
   /// Decode [Bytes] into a [Frame].
   pub fn decode(mut bytes: Bytes) -> Result<Frame, (u32, Error)> {
-    let header = FrameHeader::from_bytes(bytes.split_to(Frame::LEN_HEADER));
+    let header = FrameHeader::from_bytes(split(&mut bytes, Frame::LEN_HEADER).map_err(|e| (0, e))?);
     let stream_id = header.stream_id();
     Self::_decode(header, bytes).map_err(|e| (stream_id, e))
   }
 
   pub(crate) fn _decode(header: FrameHeader, buffer: Bytes) -> Result<Frame, Error> {
-    let frame = match header.frame_type() {
-      FrameType::Reserved => todo!(),
-      FrameType::Setup => todo!(),
+    let id = header.frame_type_id();
+    let frame = match FrameType::try_from(id).map_err(|_| Error::UnsupportedFrame(id))? {
       FrameType::RequestResponse => {
         Frame::RequestResponse(f_request_response::RequestResponse::decode_frame(&header, buffer)?)
       }
@@ -413,8 +412,7 @@ impl Frame {
       }),
       FrameType::Payload => Frame::PayloadFrame(f_payload::PayloadFrame::decode_frame(&header, buffer)?),
       FrameType::Err => Frame::ErrorFrame(f_error::ErrorFrame::decode_frame(&header, buffer)?),
-      FrameType::Ext => todo!(),
-      _ => unreachable!(),
+      _ => return Err(Error::UnsupportedFrame(id)),
     };
     Ok(frame)
   }
diff --git a/rust/crates/wasmrs/src/frames/request_payload.rs b/rust/crates/wasmrs/src/frames/request_payload.rs
index 034744d..9ef4888 100644
--- a/rust/crates/wasmrs/src/frames/request_payload.rs
+++ b/rust/crates/wasmrs/src/frames/request_payload.rs
@@ -1,7 +1,7 @@
 use bytes::{BufMut, Bytes, BytesMut};
 
 use super::{Error, FrameFlags, FrameHeader, FrameType, RSocketFlags};
-use crate::util::{from_u24_bytes, from_u32_bytes, to_u24_bytes};
+use crate::util::{from_u24_bytes, from_u32_bytes, split, to_u24_bytes};
 use crate::{Frame, Payload};
 
 #[derive()]
@@ -57,14 +57,14 @@ impl RequestPayload {
     let frame_type = header.frame_type();
 
     let initial_n = if Self::is_multi(frame_type) {
-      from_u32_bytes(&buffer.split_to(4))
+      from_u32_bytes(&split(&mut buffer, 4)?)
     } else {
       0
     };
 
     let metadata = if header.has_metadata() {
-      let metadata_len = from_u24_bytes(&buffer.split_to(3)) as usize;
-      buffer.split_to(metadata_len)
+      let metadata_len = from_u24_bytes(&split(&mut buffer, 3)?) as usize;
+      split(&mut buffer, metadata_len)?
     } else {
       Bytes::new()
     };
diff --git a/rust/crates/wasmrs/src/util.rs b/rust/crates/wasmrs/src/util.rs
index 21ea618..b74509f 100644
--- a/rust/crates/wasmrs/src/util.rs
+++ b/rust/crates/wasmrs/src/util.rs
@@ -2,6 +2,8 @@ use std::io::Read;
 
 use bytes::{BufMut, Bytes, BytesMut};
 
+use crate::Error;
+
 #[must_use]
 pub(crate) fn from_u32_bytes(bytes: &[u8]) -> u32 {
   assert!(bytes.len() == 4, "Need 4 bytes to convert to u32");
@@ -42,6 +44,14 @@ pub fn to_u24_bytes(num: u32) -> Bytes {
   num_parts.freeze()
 }
 
+/// Split `len` bytes off the start of a buffer that may be shorter than that.
+pub(crate) fn split(buffer: &mut Bytes, len: usize) -> Result<Bytes, Error> {
+  if buffer.len() < len {
+    return Err(Error::UnexpectedEnd);
+  }
+  Ok(buffer.split_to(len))
+}
+
 /// Read a frame from a buffer.
 pub fn read_frame(mut buf: impl Read) -> std::io::Result<Bytes> {
   let mut len_bytes = [0u8; 3];
-- 
2.43.0


From fc4f736cd957b9e69d597e1a72cefbb52f58e0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:06 +0000
Subject: [PATCH 55/78] fix: read Rust frames no longer than their bytes

---
 rust/crates/wasmrs/src/util.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rust/crates/wasmrs/src/util.rs b/rust/crates/wasmrs/src/util.rs
index b74509f..7138c24 100644
--- a/rust/crates/wasmrs/src/util.rs
+++ b/rust/crates/wasmrs/src/util.rs
@@ -58,8 +58,11 @@ pub fn read_frame(mut buf: impl Read) -> std::io::Result<Bytes> {
   buf.read_exact(&mut len_bytes)?;
   let len = from_u24_bytes(&len_bytes);
 
-  let mut frame = vec![0; len as usize];
-  buf.read_exact(&mut frame)?;
+  let mut frame = Vec::new();
+  buf.take(len.into()).read_to_end(&mut frame)?;
+  if frame.len() < len as usize {
+    return Err(std::io::ErrorKind::UnexpectedEof.into());
+  }
   Ok(frame.into())
 }
 
-- 
2.43.0


From 0aa4c6418f356c808290621d6183a9bc422cdb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:29 +0000
Subject: [PATCH 56/78] fix: decode Rust operation tables of any bytes without
 a panic

---
 rust/crates/wasmrs/src/operations.rs | 51 +++++++++++++++++-----------
 1 file changed, 31 insertions(+), 20 deletions(-)

diff --git a/rust/crates/wasmrs/src/operations.rs b/rust/crates/wasmrs/src/operations.rs
index e4d5567..0f9dab0 100644
--- a/rust/crates/wasmrs/src/operations.rs
+++ b/rust/crates/wasmrs/src/operations.rs
@@ -1,6 +1,6 @@
 use bytes::{BufMut, Bytes, BytesMut};
 
-use crate::util::{from_u16_bytes, from_u32_bytes};
+use crate::util::{from_u16_bytes, from_u32_bytes, split};
 
 /*
 WasmRS operations list header
@@ -49,14 +49,15 @@ pub enum OperationType {
   RequestChannel,
 }
 
-impl From<u8> for OperationType {
-  fn from(v: u8) -> Self {
+impl TryFrom<u8> for OperationType {
+  type Error = Error;
+  fn try_from(v: u8) -> Result<Self, Error> {
     match v {
-      1 => Self::RequestResponse,
-      2 => Self::RequestFnF,
-      3 => Self::RequestStream,
-      4 => Self::RequestChannel,
-      _ => unreachable!("Bad Operation Type {}", v),
+      1 => Ok(Self::RequestResponse),
+      2 => Ok(Self::RequestFnF),
+      3 => Ok(Self::RequestStream),
+      4 => Ok(Self::RequestChannel),
+      _ => Err(Error::OperationType),
     }
   }
 }
@@ -77,6 +78,8 @@ pub enum Error {
   Magic,
   Version,
   Utf8String,
+  OperationType,
+  UnexpectedEnd,
 }
 
 impl std::error::Error for Error {}
@@ -86,9 +89,16 @@ impl std::fmt::Display for Error {
       Error::Magic => "Bad magic bytes",
       Error::Version => "Bad version",
       Error::Utf8String => "Could not convert bytes to UTF-8 String",
+      Error::OperationType => "Bad operation type",
+      Error::UnexpectedEnd => "Unexpected end of bytes",
     })
   }
 }
+impl From<crate::Error> for Error {
+  fn from(_: crate::Error) -> Self {
+    Self::UnexpectedEnd
+  }
+}
 impl From<std::string::FromUtf8Error> for Error {
   fn from(_: std::string::FromUtf8Error) -> Self {
     Self::Utf8String
@@ -203,11 +213,11 @@ impl OperationList {
 
   /// Decode bytes into an Operation List.
   pub fn decode(mut buf: Bytes) -> Result<Self, Error> {
-    let magic = buf.split_to(4);
+    let magic = split(&mut buf, 4)?;
     if magic != WASMRS_MAGIC.as_slice() {
       return Err(Error::Magic);
     }
-    let version = from_u16_bytes(&buf.split_to(2));
+    let version = from_u16_bytes(&split(&mut buf, 2)?);
     match version {
       1 => Self::decode_v1(buf),
       _ => Err(Error::Version),
@@ -215,19 +225,20 @@ impl OperationList {
   }
 
   fn decode_v1(mut buf: Bytes) -> Result<Self, Error> {
-    let num_ops = from_u32_bytes(&buf.split_to(4));
+    let num_ops = from_u32_bytes(&split(&mut buf, 4)?);
     let mut imports = Vec::new();
     let mut exports = Vec::new();
     for _ in 0..num_ops {
-      let kind = buf.split_to(1)[0];
-      let kind: OperationType = kind.into();
-      let dir = buf.split_to(1)[0];
-      let index = from_u32_bytes(&buf.split_to(4));
-      let ns_len = from_u16_bytes(&buf.split_to(2));
-      let namespace = String::from_utf8(buf.split_to(ns_len as _).to_vec())?;
-      let op_len = from_u16_bytes(&buf.split_to(2));
-      let operation = String::from_utf8(buf.split_to(op_len as _).to_vec())?;
-      let _reserved_len = from_u16_bytes(&buf.split_to(2));
+      let kind = split(&mut buf, 1)?[0];
+      let kind: OperationType = kind.try_into()?;
+      let dir = split(&mut buf, 1)?[0];
+      let index = from_u32_bytes(&split(&mut buf, 4)?);
+      let ns_len = from_u16_bytes(&split(&mut buf, 2)?);
+      let namespace = String::from_utf8(split(&mut buf, ns_len as _)?.to_vec())?;
+      let op_len = from_u16_bytes(&split(&mut buf, 2)?);
+      let operation = String::from_utf8(split(&mut buf, op_len as _)?.to_vec())?;
+      let reserved_len = from_u16_bytes(&split(&mut buf, 2)?);
+      let _reserved = split(&mut buf, reserved_len as _)?;
       let op = Operation {
         index,
         kind,
-- 
2.43.0


From 02d9454ef0cfea95a957f41c8e611680e733a805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:11 +0000
Subject: [PATCH 57/78] fix: keep the receiver when a Rust reception is dropped

---
 rust/crates/wasmrs-rx/src/flux/receiver.rs | 38 +++++++++-------------
 1 file changed, 15 insertions(+), 23 deletions(-)

diff --git a/rust/crates/wasmrs-rx/src/flux/receiver.rs b/rust/crates/wasmrs-rx/src/flux/receiver.rs
index 52a6d9f..588878a 100644
--- a/rust/crates/wasmrs-rx/src/flux/receiver.rs
+++ b/rust/crates/wasmrs-rx/src/flux/receiver.rs
@@ -67,36 +67,28 @@ where
     Err: ConditionallySafe,
     Item: ConditionallySafe,
   {
-    let root_rx = self.rx.clone();
-    let opt = root_rx.take();
-    Box::pin(async move {
-      match opt {
-        Some(mut rx) => {
-          let signal = rx.recv().await;
-          root_rx.insert(rx);
-          Ok(signal_into_result(signal))
-        }
-        None => Err(Error::RecvFailed(0)),
-      }
-    })
+    let this = self.clone();
+    Box::pin(futures::future::poll_fn(move |cx| {
+      this
+        .poll_signal(cx)
+        .map(|signal| signal.map(signal_into_result).ok_or(Error::RecvFailed(0)))
+    }))
   }
 
-  /// Poll the [FluxReceiver] to see if there is a value available.
-  pub fn poll_recv(&self, cx: &mut std::task::Context<'_>) -> Poll<Option<Result<Item, Err>>> {
-    let opt = self.rx.take();
-    opt.map_or(std::task::Poll::Ready(None), |mut rx| {
+  /// Poll for the next signal. `None` means that there is nothing to receive from.
+  fn poll_signal(&self, cx: &mut std::task::Context<'_>) -> Poll<Option<Option<Signal<Item, Err>>>> {
+    self.rx.take().map_or(Poll::Ready(None), |mut rx| {
       let poll = rx.poll_recv(cx);
       self.rx.insert(rx);
-      match poll {
-        Poll::Ready(Some(Signal::Complete)) => Poll::Ready(None),
-        Poll::Ready(Some(Signal::Ok(v))) => Poll::Ready(Some(Ok(v))),
-        Poll::Ready(Some(Signal::Err(e))) => Poll::Ready(Some(Err(e))),
-        Poll::Ready(None) => Poll::Ready(None),
-        Poll::Pending => Poll::Pending,
-      }
+      poll.map(Some)
     })
   }
 
+  /// Poll the [FluxReceiver] to see if there is a value available.
+  pub fn poll_recv(&self, cx: &mut std::task::Context<'_>) -> Poll<Option<Result<Item, Err>>> {
+    self.poll_signal(cx).map(|signal| signal_into_result(signal.flatten()))
+  }
+
   #[must_use]
   /// Remove the inner channel from the [FluxReceiver]
   pub fn eject(&self) -> Option<Self> {
-- 
2.43.0


From e1c1ce9fc3669c8c8b2c6161253141c9277e002f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:13 +0000
Subject: [PATCH 58/78] fix: end Rust streams at completion

---
 rust/crates/wasmrs-rx/src/flux/receiver.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rust/crates/wasmrs-rx/src/flux/receiver.rs b/rust/crates/wasmrs-rx/src/flux/receiver.rs
index 588878a..af38eb8 100644
--- a/rust/crates/wasmrs-rx/src/flux/receiver.rs
+++ b/rust/crates/wasmrs-rx/src/flux/receiver.rs
@@ -5,7 +5,7 @@ use futures::Stream;
 
 use super::{signal_into_result, FutureResult, Signal};
 use crate::{Error, Observable};
-use wasmrs_runtime::{ConditionallySafe, OptionalMut, UnboundedReceiver};
+use wasmrs_runtime::{unbounded_channel, ConditionallySafe, OptionalMut, UnboundedReceiver};
 
 #[must_use]
 #[allow(missing_debug_implementations)]
@@ -79,6 +79,10 @@ where
   fn poll_signal(&self, cx: &mut std::task::Context<'_>) -> Poll<Option<Option<Signal<Item, Err>>>> {
     self.rx.take().map_or(Poll::Ready(None), |mut rx| {
       let poll = rx.poll_recv(cx);
+      if let Poll::Ready(Some(Signal::Complete)) = poll {
+        // Nothing follows completion: go on with a receiver that no sender can reach.
+        rx = unbounded_channel().1;
+      }
       self.rx.insert(rx);
       poll.map(Some)
     })
-- 
2.43.0


From 8de201087a54304a7cb2f0bd92f52b627ff6bc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:51 +0000
Subject: [PATCH 59/78] fix: let Rust request streams ask for items

---
 rust/crates/wasmrs/src/frames/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rust/crates/wasmrs/src/frames/mod.rs b/rust/crates/wasmrs/src/frames/mod.rs
index d099257..7313b09 100644
--- a/rust/crates/wasmrs/src/frames/mod.rs
+++ b/rust/crates/wasmrs/src/frames/mod.rs
@@ -458,7 +458,12 @@ impl Frame {
 
   /// Create a new [RequestStream] frame.
   pub fn new_request_stream(stream_id: u32, payload: Payload, flags: FrameFlags) -> Frame {
-    Frame::RequestStream(RequestStream::from_payload(stream_id, payload, flags, 0))
+    Frame::RequestStream(RequestStream::from_payload(
+      stream_id,
+      payload,
+      flags,
+      Self::REQUEST_MAX,
+    ))
   }
 
   /// Create a new [RequestChannel] frame.
-- 
2.43.0


From 77b8f332580e5e999ef37f1d75633bd42a4072f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:52 +0000
Subject: [PATCH 60/78] fix: survive a closed Rust socket writer

---
 rust/crates/wasmrs/src/socket.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rust/crates/wasmrs/src/socket.rs b/rust/crates/wasmrs/src/socket.rs
index 736e656..7014e60 100644
--- a/rust/crates/wasmrs/src/socket.rs
+++ b/rust/crates/wasmrs/src/socket.rs
@@ -446,7 +446,9 @@ impl RSocket for WasmSocket {
 
 fn send(tx: &UnboundedSender<Frame>, frame: Frame) {
   trace!("sending frame to socket writer: {:?}", frame);
-  tx.send(frame).unwrap();
+  if tx.send(frame).is_err() {
+    trace!("frame dropped, the socket's frames are not taken any more");
+  }
 }
 
 fn send_payload(tx: &UnboundedSender<Frame>, stream_id: u32, payload: Payload, flag: FrameFlags) {
-- 
2.43.0


From f78213540f1559789338143982889cb786d1d200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:52 +0000
Subject: [PATCH 61/78] fix: accept errors for Rust callers that are gone

---
 rust/crates/wasmrs/src/socket.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/rust/crates/wasmrs/src/socket.rs b/rust/crates/wasmrs/src/socket.rs
index 7014e60..8dff7aa 100644
--- a/rust/crates/wasmrs/src/socket.rs
+++ b/rust/crates/wasmrs/src/socket.rs
@@ -329,7 +329,8 @@ impl WasmSocket {
       let e = PayloadError::new(ErrorCode::Canceled.into(), "Request cancelled");
       match handler {
         Handler::ReqRR(sender) => {
-          sender.send(Err(e)).unwrap();
+          // The caller may have lost interest.
+          let _ = sender.send(Err(e));
         }
         Handler::ReqRS(_) => {
           // stream cancelled. Take no action besides removing the handler.
@@ -345,15 +346,16 @@ impl WasmSocket {
     trace!(sid, code, message, side = %self.side, "on_error");
     if let Some(handler) = self.handlers.remove(&sid) {
       let e = PayloadError::new(code, message);
+      // The caller may have lost interest.
       match handler {
         Handler::ReqRR(sender) => {
-          sender.send(Err(e)).unwrap();
+          let _ = sender.send(Err(e));
         }
         Handler::ReqRS(sender) => {
-          sender.error(e).unwrap();
+          let _ = sender.error(e);
         }
         Handler::ReqRC(sender) => {
-          sender.error(e).unwrap();
+          let _ = sender.error(e);
         }
       }
     }
-- 
2.43.0


From ed837e89ffad21cf4e942da2bd0e55742afd40ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:29 +0000
Subject: [PATCH 62/78] fix: end Rust streams at their first error

---
 rust/crates/wasmrs/src/socket.rs | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/rust/crates/wasmrs/src/socket.rs b/rust/crates/wasmrs/src/socket.rs
index 8dff7aa..b4e9336 100644
--- a/rust/crates/wasmrs/src/socket.rs
+++ b/rust/crates/wasmrs/src/socket.rs
@@ -196,14 +196,22 @@ impl WasmSocket {
       let (abort_handle, abort_registration) = AbortHandle::new_pair();
       abort_handles.insert(sid, abort_handle);
       let mut payloads = Abortable::new(responder.request_stream(input), abort_registration);
+      let mut failed = false;
       while let Some(next) = payloads.next().await {
         match next {
           Ok(it) => send_payload(&tx, sid, it, Frame::FLAG_NEXT),
-          Err(e) => send_app_error(&tx, sid, e.to_string()),
+          Err(e) => {
+            // An error is the end of the stream.
+            send_app_error(&tx, sid, e.to_string());
+            failed = true;
+            break;
+          }
         };
       }
       abort_handles.remove(&sid);
-      send_complete(&tx, sid, Frame::FLAG_COMPLETE);
+      if !failed {
+        send_complete(&tx, sid, Frame::FLAG_COMPLETE);
+      }
     });
   }
 
@@ -217,6 +225,7 @@ impl WasmSocket {
     handler_tx.send(first).unwrap();
     self.register_handler(sid, Handler::ReqRC(handler_tx));
     let abort_handles = self.abort_handles.clone();
+    let handlers = self.handlers.clone();
     runtime::spawn(async move {
       let outputs = responder.request_channel(handler_rx);
       let (abort_handle, abort_registration) = AbortHandle::new_pair();
@@ -228,16 +237,23 @@ impl WasmSocket {
 
       send(&tx, request_n);
 
+      let mut failed = false;
       while let Some(next) = outputs.next().await {
-        let sending = match next {
-          Ok(payload) => Frame::new_payload(sid, payload, Frame::FLAG_NEXT),
-          Err(e) => Frame::new_error(sid, ErrorCode::ApplicationError.into(), e.to_string()),
+        match next {
+          Ok(payload) => send_payload(&tx, sid, payload, Frame::FLAG_NEXT),
+          Err(e) => {
+            // An error is the end of the stream, in both directions.
+            send_app_error(&tx, sid, e.to_string());
+            handlers.remove(&sid);
+            failed = true;
+            break;
+          }
         };
-        send(&tx, sending);
       }
       abort_handles.remove(&sid);
-      let complete = Frame::new_payload(sid, Payload::empty(), Frame::FLAG_COMPLETE);
-      send(&tx, complete);
+      if !failed {
+        send_complete(&tx, sid, Frame::FLAG_COMPLETE);
+      }
     });
   }
 
-- 
2.43.0


From 89e0780299eee634c852c5edaa57593be3e06d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 63/78] fix: answer Rust channels whose input has no item

---
 rust/crates/wasmrs/src/socket.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/rust/crates/wasmrs/src/socket.rs b/rust/crates/wasmrs/src/socket.rs
index b4e9336..1fb7b8f 100644
--- a/rust/crates/wasmrs/src/socket.rs
+++ b/rust/crates/wasmrs/src/socket.rs
@@ -426,9 +426,11 @@ impl RSocket for WasmSocket {
     let mut reqn_rx = self.register_channel(sid);
     let tx = self.tx.clone();
     let channels = self.channels.clone();
+    let handlers = self.handlers.clone();
 
     runtime::spawn(async move {
       let mut first = true;
+      let mut failed = false;
       let mut n = 1;
       while let Some(next) = stream.next().await {
         n -= 1;
@@ -441,8 +443,17 @@ impl RSocket for WasmSocket {
               send_payload(&tx, sid, payload, Frame::FLAG_NEXT);
             }
           }
-          Err(_e) => {
-            send_app_error(&tx, sid, "REQUEST_CHANNEL failed");
+          Err(e) => {
+            failed = true;
+            if first {
+              // Nothing has been requested, so no answer is going to come.
+              if let Some(Handler::ReqRC(output)) = handlers.remove(&sid) {
+                let _ = output.error(e);
+              }
+            } else {
+              send_app_error(&tx, sid, "REQUEST_CHANNEL failed");
+            }
+            break;
           }
         }
         // If we've exhausted our requested n, wait for the next RequestN frame
@@ -455,7 +466,11 @@ impl RSocket for WasmSocket {
         }
       }
       channels.remove(&sid);
-      send_complete(&tx, sid, Frame::FLAG_COMPLETE);
+      if first {
+        handlers.remove(&sid);
+      } else if !failed {
+        send_complete(&tx, sid, Frame::FLAG_COMPLETE);
+      }
     });
 
     output
-- 
2.43.0


From 0ece2cb826fd67627b7a886abc7cc4d27d9746c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:43 +0000
Subject: [PATCH 64/78] fix: stop Rust streams that are cancelled

---
 rust/crates/wasmrs/src/socket.rs | 55 +++++++++++++++++++++++++-------
 1 file changed, 43 insertions(+), 12 deletions(-)

diff --git a/rust/crates/wasmrs/src/socket.rs b/rust/crates/wasmrs/src/socket.rs
index 1fb7b8f..129d502 100644
--- a/rust/crates/wasmrs/src/socket.rs
+++ b/rust/crates/wasmrs/src/socket.rs
@@ -113,6 +113,18 @@ impl WasmSocket {
   //   Frame::decode(bytes.into())
   // }
 
+  /// Whether a stream was requested by this side of the socket.
+  fn is_own(&self, stream_id: u32) -> bool {
+    stream_id % 2 == self.stream_index.load(Ordering::SeqCst) % 2
+  }
+
+  /// Stop sending on a stream.
+  fn abort(&self, stream_id: u32) {
+    if let Some(handle) = self.abort_handles.remove(&stream_id) {
+      handle.abort();
+    }
+  }
+
   /// Send a frame.
   pub fn send(&self, frame: Frame) {
     send(&self.tx, frame);
@@ -192,24 +204,24 @@ impl WasmSocket {
     let responder = self.responder.clone();
     let tx = self.tx.clone();
     let abort_handles = self.abort_handles.clone();
+    let (abort_handle, abort_registration) = AbortHandle::new_pair();
+    abort_handles.insert(sid, abort_handle);
     runtime::spawn(async move {
-      let (abort_handle, abort_registration) = AbortHandle::new_pair();
-      abort_handles.insert(sid, abort_handle);
       let mut payloads = Abortable::new(responder.request_stream(input), abort_registration);
-      let mut failed = false;
+      let mut ended = false;
       while let Some(next) = payloads.next().await {
         match next {
           Ok(it) => send_payload(&tx, sid, it, Frame::FLAG_NEXT),
           Err(e) => {
             // An error is the end of the stream.
             send_app_error(&tx, sid, e.to_string());
-            failed = true;
+            ended = true;
             break;
           }
         };
       }
       abort_handles.remove(&sid);
-      if !failed {
+      if !ended && !payloads.is_aborted() {
         send_complete(&tx, sid, Frame::FLAG_COMPLETE);
       }
     });
@@ -226,10 +238,10 @@ impl WasmSocket {
     self.register_handler(sid, Handler::ReqRC(handler_tx));
     let abort_handles = self.abort_handles.clone();
     let handlers = self.handlers.clone();
+    let (abort_handle, abort_registration) = AbortHandle::new_pair();
+    abort_handles.insert(sid, abort_handle);
     runtime::spawn(async move {
       let outputs = responder.request_channel(handler_rx);
-      let (abort_handle, abort_registration) = AbortHandle::new_pair();
-      abort_handles.insert(sid, abort_handle);
       let mut outputs = Abortable::new(outputs, abort_registration);
 
       // TODO: support custom RequestN.
@@ -237,7 +249,7 @@ impl WasmSocket {
 
       send(&tx, request_n);
 
-      let mut failed = false;
+      let mut ended = false;
       while let Some(next) = outputs.next().await {
         match next {
           Ok(payload) => send_payload(&tx, sid, payload, Frame::FLAG_NEXT),
@@ -245,13 +257,13 @@ impl WasmSocket {
             // An error is the end of the stream, in both directions.
             send_app_error(&tx, sid, e.to_string());
             handlers.remove(&sid);
-            failed = true;
+            ended = true;
             break;
           }
         };
       }
       abort_handles.remove(&sid);
-      if !failed {
+      if !ended && !outputs.is_aborted() {
         send_complete(&tx, sid, Frame::FLAG_COMPLETE);
       }
     });
@@ -341,6 +353,15 @@ impl WasmSocket {
 
   fn on_cancel(&self, sid: u32, _flag: FrameFlags) {
     trace!(sid, side = %self.side, "on_cancel");
+    self.abort(sid);
+    if self.is_own(sid) {
+      if let Entry::Occupied(o) = self.handlers.entry(sid) {
+        if matches!(o.get(), Handler::ReqRC(_)) {
+          // The peer wants no more of the channel's input. Its output goes on.
+          return;
+        }
+      }
+    }
     if let Some(handler) = self.handlers.remove(&sid) {
       let e = PayloadError::new(ErrorCode::Canceled.into(), "Request cancelled");
       match handler {
@@ -372,6 +393,9 @@ impl WasmSocket {
         }
         Handler::ReqRC(sender) => {
           let _ = sender.error(e);
+          if self.is_own(sid) {
+            self.abort(sid);
+          }
         }
       }
     }
@@ -427,8 +451,11 @@ impl RSocket for WasmSocket {
     let tx = self.tx.clone();
     let channels = self.channels.clone();
     let handlers = self.handlers.clone();
+    let abort_handles = self.abort_handles.clone();
+    let (abort_handle, abort_registration) = AbortHandle::new_pair();
+    abort_handles.insert(sid, abort_handle);
 
-    runtime::spawn(async move {
+    let input = async move {
       let mut first = true;
       let mut failed = false;
       let mut n = 1;
@@ -465,12 +492,16 @@ impl RSocket for WasmSocket {
           }
         }
       }
-      channels.remove(&sid);
       if first {
         handlers.remove(&sid);
       } else if !failed {
         send_complete(&tx, sid, Frame::FLAG_COMPLETE);
       }
+    };
+    runtime::spawn(async move {
+      let _ = Abortable::new(input, abort_registration).await;
+      channels.remove(&sid);
+      abort_handles.remove(&sid);
     });
 
     output
-- 
2.43.0


From 28c2160f9d9a928e14bb784046f207869637c654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 65/78] fix: cancel Rust streams once, for callers that are
 gone

---
 rust/crates/wasmrs/src/socket.rs | 32 +++++++++-----------------------
 1 file changed, 9 insertions(+), 23 deletions(-)

diff --git a/rust/crates/wasmrs/src/socket.rs b/rust/crates/wasmrs/src/socket.rs
index 129d502..4f98c05 100644
--- a/rust/crates/wasmrs/src/socket.rs
+++ b/rust/crates/wasmrs/src/socket.rs
@@ -316,31 +316,17 @@ impl WasmSocket {
           }
           _ => unreachable!(),
         },
-        Handler::ReqRS(sender) => {
-          if flag.flag_next() {
-            if sender.is_closed() {
-              send_cancel(&tx, sid);
-            } else if let Err(_e) = sender.send(input) {
-              println!("response successful payload for REQUEST_STREAM failed: sid={}", sid);
-              send_cancel(&tx, sid);
-            }
-          }
-          if flag.flag_complete() {
-            trace!(sid, "removing stream");
+        Handler::ReqRS(sender) | Handler::ReqRC(sender) => {
+          if flag.flag_next() && sender.send(input).is_err() && !flag.flag_complete() {
+            // Nobody has any use for what is to come.
+            trace!(sid, "cancelling stream");
             o.remove();
-          }
-        }
-        Handler::ReqRC(sender) => {
-          if flag.flag_next() {
-            if sender.is_closed() {
-              send_cancel(&tx, sid);
-            } else if (sender.send(input)).is_err() {
-              println!("response successful payload for REQUEST_CHANNEL failed: sid={}", sid);
-              send_cancel(&tx, sid);
+            if self.is_own(sid) {
+              self.abort(sid);
             }
-          }
-          if flag.flag_complete() {
-            trace!(sid, "removing channel");
+            send_cancel(&tx, sid);
+          } else if flag.flag_complete() {
+            trace!(sid, "removing stream");
             o.remove();
           }
         }
-- 
2.43.0


From 5fff9e3a24bd5f29ff99b1ad3b3c8422c340787a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 66/78] fix: ignore late demand in the Rust socket

---
 rust/crates/wasmrs/src/socket.rs | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/rust/crates/wasmrs/src/socket.rs b/rust/crates/wasmrs/src/socket.rs
index 4f98c05..b017b83 100644
--- a/rust/crates/wasmrs/src/socket.rs
+++ b/rust/crates/wasmrs/src/socket.rs
@@ -290,16 +290,9 @@ impl WasmSocket {
       send_app_error(&tx, sid, "Invalid RequestN (n=0)");
       return;
     }
-    #[allow(clippy::option_if_let_else)]
-    match self.channels.cloned(&sid) {
-      Some(reqn_tx) => {
-        if reqn_tx.send(n).is_err() {
-          send_app_error(&tx, sid, "RequestN channel closed");
-        };
-      }
-      None => {
-        send_app_error(&tx, sid, "RequestN called for missing Stream ID");
-      }
+    // Only the inputs of channels wait for demand. It may come after they end.
+    if let Some(reqn_tx) = self.channels.cloned(&sid) {
+      let _ = reqn_tx.send(n);
     }
   }
 
-- 
2.43.0


From 5f41df553e686659257fc077fcc8adf9655f1358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:48 +0000
Subject: [PATCH 67/78] fix: end Rust channel inputs without further demand

---
 rust/crates/wasmrs/src/socket.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/rust/crates/wasmrs/src/socket.rs b/rust/crates/wasmrs/src/socket.rs
index b017b83..24a0aec 100644
--- a/rust/crates/wasmrs/src/socket.rs
+++ b/rust/crates/wasmrs/src/socket.rs
@@ -439,9 +439,17 @@ impl RSocket for WasmSocket {
       let mut failed = false;
       let mut n = 1;
       while let Some(next) = stream.next().await {
-        n -= 1;
         match next {
           Ok(payload) => {
+            // If we've exhausted our requested n, wait for the next RequestN frame
+            if n == 0 {
+              if let Some(new_n) = reqn_rx.recv().await {
+                n = new_n;
+              } else {
+                break;
+              }
+            }
+            n -= 1;
             if first {
               first = false;
               send_channel(&tx, sid, payload, Frame::FLAG_NEXT);
@@ -462,14 +470,6 @@ impl RSocket for WasmSocket {
             break;
           }
         }
-        // If we've exhausted our requested n, wait for the next RequestN frame
-        if n == 0 {
-          if let Some(new_n) = reqn_rx.recv().await {
-            n = new_n;
-          } else {
-            break;
-          }
-        }
       }
       if first {
         handlers.remove(&sid);
-- 
2.43.0


From de96f38c853c5cc86ed333d1bb64ca09c91496e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:57 +0000
Subject: [PATCH 68/78] fix: reject modules that cannot be loaded instead of
 crashing

---
 go/transport/wasmrs/host/host.go     |  7 +++-
 go/transport/wasmrs/host/instance.go | 49 ++++++++++++++++++++++++----
 2 files changed, 49 insertions(+), 7 deletions(-)

diff --git a/go/transport/wasmrs/host/host.go b/go/transport/wasmrs/host/host.go
index 455d0e1..27648d2 100644
--- a/go/transport/wasmrs/host/host.go
+++ b/go/transport/wasmrs/host/host.go
@@ -79,7 +79,12 @@ func (m *Module) Instantiate(ctx context.Context) (*Instance, error) {
 		return nil, err
 	}
 
-	return NewInstance(ctx, module)
+	instance, err := NewInstance(ctx, module)
+	if err != nil {
+		_ = module.Close(ctx)
+		return nil, err
+	}
+	return instance, nil
 }
 
 func instantiateWasmrs(ctx context.Context, r wazero.Runtime) (api.Closer, error) {
diff --git a/go/transport/wasmrs/host/instance.go b/go/transport/wasmrs/host/instance.go
index 8ab6ce5..f79818f 100644
--- a/go/transport/wasmrs/host/instance.go
+++ b/go/transport/wasmrs/host/instance.go
@@ -26,6 +26,7 @@ type Instance struct {
 	sendPtr   uint32
 	sendSize  uint32
 	recvPtr   uint32
+	buffers   bool // The guest has announced them
 	streamIDs socket.ServerStreamIDs
 	// streamMu     sync.RWMutex
 	// streams      map[uint32]proxy.Stream
@@ -41,6 +42,7 @@ type Instance struct {
 	maxFrameSize       uint32
 	fragmentedPayloads map[uint32]fragmentedPayload
 	operations         operations.Table
+	operationsErr      error
 
 	importedRR   handlers[invoke.RequestResponseHandler]
 	importedRFNF handlers[invoke.FireAndForgetHandler]
@@ -54,6 +56,9 @@ var ErrFrameTooLarge = errors.New("frame exceeds the size of the buffer")
 // ErrClosed is returned for a frame sent after the instance was closed.
 var ErrClosed = errors.New("instance closed")
 
+// recvSize is the size of the buffer for what the guest sends.
+const recvSize = 16 * 1024
+
 // frameLengthSize is the size of the length in front of every frame of a batch.
 const frameLengthSize = 3
 
@@ -75,6 +80,16 @@ func NewInstance(ctx context.Context, m api.Module) (*Instance, error) {
 	if send == nil {
 		return nil, errors.New("module does not export __wasmrs_send")
 	}
+	if params := send.Definition().ParamTypes(); len(params) != 1 || params[0] != i32 {
+		return nil, errors.New("module exports __wasmrs_send with other parameters")
+	}
+	opListRequest := m.ExportedFunction("__wasmrs_op_list_request")
+	if opListRequest == nil {
+		return nil, errors.New("module does not export __wasmrs_op_list_request")
+	}
+	if len(m.ExportedMemoryDefinitions()) == 0 {
+		return nil, errors.New("module does not export its memory")
+	}
 	i := &Instance{
 		ctx:       ctx,
 		m:         m,
@@ -89,16 +104,30 @@ func NewInstance(ctx context.Context, m api.Module) (*Instance, error) {
 	}
 
 	ctx = context.WithValue(ctx, instanceKey{}, i)
-	_, err := init.Call(ctx, uint64(i.sendSize), uint64(16*1024), uint64(i.maxFrameSize))
+	initialized, err := init.Call(ctx, uint64(i.sendSize), uint64(recvSize), uint64(i.maxFrameSize))
 	if err != nil {
 		return nil, err
 	}
+	if len(initialized) > 0 && uint32(initialized[0]) == 0 {
+		return nil, errors.New("module failed to initialize")
+	}
 
-	f := m.ExportedFunction("__wasmrs_op_list_request")
-	_, err = f.Call(ctx)
+	_, err = opListRequest.Call(ctx)
 	if err != nil {
 		return nil, err
 	}
+	if i.operationsErr != nil {
+		return nil, i.operationsErr
+	}
+
+	if !i.buffers {
+		return nil, errors.New("module announced no buffers")
+	}
+	_, sendOK := m.Memory().Read(i.sendPtr, i.sendSize)
+	_, recvOK := m.Memory().Read(i.recvPtr, recvSize)
+	if !sendOK || !recvOK {
+		return nil, errors.New("module announced buffers outside of its memory")
+	}
 
 	go i.recvLoop()
 	go i.sendLoop()
@@ -168,6 +197,7 @@ func (i *Instance) SendFrame(f frames.Frame) error {
 func (i *Instance) setBuffers(sendPtr, recvPtr uint32) {
 	i.sendPtr = sendPtr
 	i.recvPtr = recvPtr
+	i.buffers = true
 }
 
 func (i *Instance) sendLoop() {
@@ -196,6 +226,10 @@ func (i *Instance) sendLoop() {
 			mem := i.m.Memory()
 			buf, _ = mem.Read(i.sendPtr, i.sendSize)
 		}
+		if uint32(len(buf)) < i.sendSize {
+			fmt.Println("Host: The buffer lies outside of the memory")
+			return
+		}
 
 		// Encode length and frame data.
 		binary.BigEndian.PutUint32(lengthBytes[:], byteCount)
@@ -227,9 +261,12 @@ func (i *Instance) Operations() operations.Table {
 }
 
 func (i *Instance) opList(ctx context.Context, opPtr uint32, opSize uint32) {
-	buf, _ := i.m.Memory().Read(opPtr, opSize)
-	operations, _ := operations.FromBytes(buf)
-	i.operations = operations
+	buf, ok := i.m.Memory().Read(opPtr, opSize)
+	if !ok {
+		i.operationsErr = errors.New("module announced operations outside of its memory")
+		return
+	}
+	i.operations, i.operationsErr = operations.FromBytes(buf)
 }
 
 func (i *Instance) hostSend(ctx context.Context, recvPos uint32) {
-- 
2.43.0


From 01bbbc87c6699fc87a3e5c67df815ffa188dc297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:16 +0000
Subject: [PATCH 69/78] fix: cut error texts that do not fit into a frame

---
 go/transport/rsocket/transport.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/go/transport/rsocket/transport.go b/go/transport/rsocket/transport.go
index 98039f8..f249f55 100644
--- a/go/transport/rsocket/transport.go
+++ b/go/transport/rsocket/transport.go
@@ -11,6 +11,7 @@ import (
 
 	"github.com/nanobus/iota/go/internal/buffer"
 	"github.com/nanobus/iota/go/internal/frames"
+	"github.com/nanobus/iota/go/internal/u24"
 	"github.com/nanobus/iota/go/invoke"
 )
 
@@ -105,6 +106,10 @@ func (p *Transport) Send(frame frames.Frame, flush bool) (err error) {
 		err = errTransportClosed
 		return
 	}
+	if e, ok := frame.(*frames.Error); ok {
+		// Must arrive, as it ends the stream.
+		frame = e.Truncated(u24.MaxUint24)
+	}
 	p.writeMu.Lock()
 	defer p.writeMu.Unlock()
 	err = p.conn.Write(frame)
-- 
2.43.0


From c3b908848532993f3e1c6442a0ce4ec750445494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:44 +0000
Subject: [PATCH 70/78] fix: send nothing of a channel's input after its end

---
 go/proxy/flux.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/go/proxy/flux.go b/go/proxy/flux.go
index 48257b9..05ee6c7 100644
--- a/go/proxy/flux.go
+++ b/go/proxy/flux.go
@@ -156,15 +156,15 @@ func (s *streamFlux) Request(n int) {
 }
 
 func (s *streamFlux) subscribeIn() {
-	s.mu.Lock()
-	stopped := s.inStopped
-	s.mu.Unlock()
-	if stopped {
+	if s.isInStopped() {
 		return
 	}
 
 	s.in.Subscribe(flux.Subscribe[payload.Payload]{
 		OnNext: func(p payload.Payload) {
+			if s.isInStopped() {
+				return
+			}
 			if err := s.sendFrame(&frames.Payload{
 				StreamID: s.request.StreamID,
 				Metadata: p.Metadata(),
@@ -176,6 +176,9 @@ func (s *streamFlux) subscribeIn() {
 			}
 		},
 		OnComplete: func() {
+			if s.isInStopped() {
+				return
+			}
 			s.sendFrame(&frames.Payload{
 				StreamID: s.request.StreamID,
 				Complete: true,
@@ -183,6 +186,9 @@ func (s *streamFlux) subscribeIn() {
 			s.end(&s.inDone)
 		},
 		OnError: func(err error) {
+			if s.isInStopped() {
+				return
+			}
 			s.sendError(err)
 			s.end(&s.inDone)
 		},
@@ -196,7 +202,7 @@ func (s *streamFlux) subscribeIn() {
 	s.mu.Lock()
 	s.inSub = inSub
 	demand := s.inDemand
-	stopped = s.inStopped
+	stopped := s.inStopped
 	s.mu.Unlock()
 	if stopped {
 		inSub.Cancel()
@@ -205,6 +211,12 @@ func (s *streamFlux) subscribeIn() {
 	}
 }
 
+func (s *streamFlux) isInStopped() bool {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+	return s.inStopped
+}
+
 func (s *streamFlux) sendError(err error) {
 	s.sendFrame(&frames.Error{
 		StreamID: s.request.StreamID,
-- 
2.43.0


From 7ae5f75ef3ef5adf5fc3022f7b8a36ed4bf3eae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:09 +0000
Subject: [PATCH 71/78] fix: send the request of a call once however it is
 started

---
 go/proxy/flux.go | 38 ++++++++++++++++++++++----------------
 go/proxy/mono.go | 10 +++++++++-
 2 files changed, 31 insertions(+), 17 deletions(-)

diff --git a/go/proxy/flux.go b/go/proxy/flux.go
index 05ee6c7..9b3e34a 100644
--- a/go/proxy/flux.go
+++ b/go/proxy/flux.go
@@ -34,22 +34,22 @@ type streamFlux struct {
 	ctx context.Context
 	flux.Processor[payload.Payload]
 
-	subscribed bool
-	request    frames.RequestPayload
-	in         flux.Flux[payload.Payload]
-	sendFrame  func(frames.Frame) error
-	register   func(Stream)
-	remove     func(streamID uint32)
+	request   frames.RequestPayload
+	in        flux.Flux[payload.Payload]
+	sendFrame func(frames.Frame) error
+	register  func(Stream)
+	remove    func(streamID uint32)
 
-	mu        sync.Mutex // Guards the fields below
-	first     bool
-	sent      bool // The request was sent
-	complete  bool
-	cancelled bool
-	inSub     rx.Subscription
-	inDemand  int // Demand for in that came before there was a subscription
-	inStopped bool
-	inDone    bool
+	mu         sync.Mutex // Guards the fields below
+	subscribed bool
+	first      bool
+	sent       bool // The request was sent
+	complete   bool
+	cancelled  bool
+	inSub      rx.Subscription
+	inDemand   int // Demand for in that came before there was a subscription
+	inStopped  bool
+	inDone     bool
 }
 
 func (s *streamFlux) Context() context.Context {
@@ -106,7 +106,11 @@ func (s *streamFlux) end(direction *bool) {
 func (s *streamFlux) Async() {
 	// If treated like an awaitable and not subscribed,
 	// then subscribe without callbacks.
-	if !s.subscribed {
+	s.mu.Lock()
+	subscribed := s.subscribed
+	s.subscribed = true
+	s.mu.Unlock()
+	if !subscribed {
 		s.Subscribe(flux.Subscribe[payload.Payload]{})
 	}
 }
@@ -255,7 +259,9 @@ func (s *streamFlux) DoRequest(n int) {
 }
 
 func (s *streamFlux) Subscribe(sub flux.Subscribe[payload.Payload]) flux.Flux[payload.Payload] {
+	s.mu.Lock()
 	s.subscribed = true
+	s.mu.Unlock()
 	s.Processor.Subscribe(sub)
 	return s
 }
diff --git a/go/proxy/mono.go b/go/proxy/mono.go
index 36e71ce..998d083 100644
--- a/go/proxy/mono.go
+++ b/go/proxy/mono.go
@@ -3,6 +3,7 @@ package proxy
 import (
 	"context"
 	"errors"
+	"sync"
 
 	"github.com/nanobus/iota/go/internal/frames"
 	"github.com/nanobus/iota/go/payload"
@@ -29,6 +30,7 @@ type streamMono struct {
 	ctx context.Context
 	mono.Processor[payload.Payload]
 
+	mu         sync.Mutex // Guards subscribed
 	subscribed bool
 	request    frames.RequestPayload
 	sendFrame  func(frames.Frame) error
@@ -62,7 +64,11 @@ func (s *streamMono) OnError(err error) {
 func (s *streamMono) Async() {
 	// If treated like an awaitable and not subscribed,
 	// then subscribe without callbacks.
-	if !s.subscribed {
+	s.mu.Lock()
+	subscribed := s.subscribed
+	s.subscribed = true
+	s.mu.Unlock()
+	if !subscribed {
 		s.Subscribe(mono.Subscribe[payload.Payload]{})
 	}
 }
@@ -72,7 +78,9 @@ func (s *streamMono) Notify(fn rx.FnFinally) {
 }
 
 func (s *streamMono) Subscribe(sub mono.Subscribe[payload.Payload]) mono.Mono[payload.Payload] {
+	s.mu.Lock()
 	s.subscribed = true
+	s.mu.Unlock()
 	s.register(s)
 	s.Processor.Subscribe(sub)
 	if err := s.sendFrame(&s.request); err != nil {
-- 
2.43.0


From c995b3e27d04ffe78b296a672363886b8651ad07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:57 +0000
Subject: [PATCH 72/78] fix: wait for the call itself when blocking on it

---
 go/proxy/mono_host.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/go/proxy/mono_host.go b/go/proxy/mono_host.go
index c52957b..3c8a294 100644
--- a/go/proxy/mono_host.go
+++ b/go/proxy/mono_host.go
@@ -5,9 +5,16 @@ package proxy
 
 import (
 	"github.com/nanobus/iota/go/payload"
+	"github.com/nanobus/iota/go/rx"
 )
 
 func (s *streamMono) Block() (ret payload.Payload, err error) {
 	s.Async() // Send the request only if that has not happened yet
-	return s.Processor.Block()
+	done := make(chan struct{})
+	s.Notify(func(rx.SignalType) {
+		close(done)
+	})
+
+	<-done
+	return s.Get()
 }
-- 
2.43.0


From 93a318b36cd3a0a2271edbb21f389b87d0766a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:04 +0000
Subject: [PATCH 73/78] fix: servers stop listening and drop connections that
 end

---
 go/transport/rsocket/tcp_transport.go | 29 ++++++++++++++++++++++++---
 go/transport/rsocket/transport.go     | 14 +++++++++++++
 2 files changed, 40 insertions(+), 3 deletions(-)

diff --git a/go/transport/rsocket/tcp_transport.go b/go/transport/rsocket/tcp_transport.go
index 20b9935..8db3846 100644
--- a/go/transport/rsocket/tcp_transport.go
+++ b/go/transport/rsocket/tcp_transport.go
@@ -52,13 +52,19 @@ func (t *tcpServerTransport) Close() (err error) {
 }
 
 func (t *tcpServerTransport) Listen(ctx context.Context, notifier chan<- bool) (err error) {
-	t.l, err = t.lf(ctx)
+	l, err := t.lf(ctx)
 	if err != nil {
 		notifier <- false
 		err = fmt.Errorf("listen tcp server failed: %w", err)
 		return
 	}
 
+	if !t.putListener(l) {
+		_ = l.Close()
+		notifier <- false
+		return
+	}
+
 	defer func() {
 		_ = t.Close()
 	}()
@@ -79,7 +85,7 @@ func (t *tcpServerTransport) Listen(ctx context.Context, notifier chan<- bool) (
 	// Start loop of accepting connections.
 	for {
 		var c net.Conn
-		c, err = t.l.Accept()
+		c, err = l.Accept()
 		if err == io.EOF || isClosedErr(err) {
 			err = nil
 			break
@@ -97,17 +103,34 @@ func (t *tcpServerTransport) Listen(ctx context.Context, notifier chan<- bool) (
 		})
 
 		if t.putTransport(tp) {
-			go tp.Start(ctx)
+			go func() {
+				defer t.removeTransport(tp)
+				tp.Start(ctx)
+			}()
 			go t.acceptor(ctx, h, func(tp *Transport) {
 				t.removeTransport(tp)
 			})
 		} else {
+			_ = tp.Close()
 			_ = t.Close()
 		}
 	}
 	return
 }
 
+// putListener reports false if the server is already closed.
+func (t *tcpServerTransport) putListener(l net.Listener) bool {
+	t.mu.Lock()
+	defer t.mu.Unlock()
+	select {
+	case <-t.done:
+		return false
+	default:
+		t.l = l
+		return true
+	}
+}
+
 func (t *tcpServerTransport) removeTransport(tp *Transport) {
 	t.mu.Lock()
 	defer t.mu.Unlock()
diff --git a/go/transport/rsocket/transport.go b/go/transport/rsocket/transport.go
index f249f55..487a9a5 100644
--- a/go/transport/rsocket/transport.go
+++ b/go/transport/rsocket/transport.go
@@ -186,6 +186,17 @@ func (p *Transport) Start(ctx context.Context) error {
 		_ = p.Close()
 	}()
 
+	// Reading blocks until the connection is closed.
+	stopped := make(chan struct{})
+	defer close(stopped)
+	go func() {
+		select {
+		case <-ctx.Done():
+			_ = p.Close()
+		case <-stopped:
+		}
+	}()
+
 	done := make(chan struct{}, 1)
 	errChan := make(chan error, 1)
 
@@ -210,6 +221,9 @@ func (p *Transport) Start(ctx context.Context) error {
 			return fmt.Errorf("dispatch incoming frame failed: %w", err)
 		default:
 			f, err := p.conn.Read()
+			if err != nil && ctx.Err() != nil {
+				return ctx.Err()
+			}
 			if err == io.EOF {
 				return nil
 			}
-- 
2.43.0


From ed562e42ecad200d288529015b602035461f8d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:05 +0000
Subject: [PATCH 74/78] fix: calls under way end with their connection

---
 go/handler/handler.go             | 10 ++++++++++
 go/proxy/lookup.go                | 12 ++++++++++++
 go/transport/rsocket/transport.go |  4 ++++
 3 files changed, 26 insertions(+)

diff --git a/go/handler/handler.go b/go/handler/handler.go
index 53c48a7..c2880a6 100644
--- a/go/handler/handler.go
+++ b/go/handler/handler.go
@@ -13,6 +13,8 @@ import (
 	"github.com/nanobus/iota/go/rx/mono"
 )
 
+var errClosed = errors.New("connection closed")
+
 type FrameSender func(f frames.Frame) error
 
 type Handler struct {
@@ -69,7 +71,15 @@ func (i *Handler) SetFrameSender(sendFrame func(f frames.Frame) error) {
 	i.sendFrame = sendFrame
 }
 
+// Close ends the calls under way with an error, as no more frames arrive for
+// them.
 func (i *Handler) Close() error {
+	for _, s := range append(i.guestStreams.All(), i.hostStreams.All()...) {
+		s.OnError(errClosed)
+		if c, ok := s.(canceller); ok {
+			c.OnCancel()
+		}
+	}
 	return nil
 }
 
diff --git a/go/proxy/lookup.go b/go/proxy/lookup.go
index 58eeb58..7cafc39 100644
--- a/go/proxy/lookup.go
+++ b/go/proxy/lookup.go
@@ -26,6 +26,18 @@ func (l *Lookup) Get(id uint32) (Stream, bool) {
 	return nil, false
 }
 
+// All returns the streams there are now.
+func (l *Lookup) All() []Stream {
+	l.mu.Lock()
+	defer l.mu.Unlock()
+
+	var streams []Stream
+	for n := l.head; n != nil; n = n.next {
+		streams = append(streams, n.stream)
+	}
+	return streams
+}
+
 func (l *Lookup) Add(s Stream) {
 	l.mu.Lock()
 	defer l.mu.Unlock()
diff --git a/go/transport/rsocket/transport.go b/go/transport/rsocket/transport.go
index 487a9a5..c457b30 100644
--- a/go/transport/rsocket/transport.go
+++ b/go/transport/rsocket/transport.go
@@ -184,6 +184,10 @@ func (p *Transport) loopReadBuffer(ctx context.Context, bf *buffer.Unbounded[fra
 func (p *Transport) Start(ctx context.Context) error {
 	defer func() {
 		_ = p.Close()
+		// The calls under way get no more frames.
+		if c, ok := p.handler.(io.Closer); ok {
+			_ = c.Close()
+		}
 	}()
 
 	// Reading blocks until the connection is closed.
-- 
2.43.0


From 200b5068b807bd6b60c4010e13b33f664fbf0c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:57 +0000
Subject: [PATCH 75/78] fix: calls under way end with their guest

---
 go/handler/handler.go                |  8 ++----
 go/proxy/lookup.go                   | 14 +++++++++--
 go/transport/wasmrs/host/instance.go | 37 ++++++++++++++++++++++------
 3 files changed, 44 insertions(+), 15 deletions(-)

diff --git a/go/handler/handler.go b/go/handler/handler.go
index c2880a6..c2bdfe2 100644
--- a/go/handler/handler.go
+++ b/go/handler/handler.go
@@ -74,12 +74,8 @@ func (i *Handler) SetFrameSender(sendFrame func(f frames.Frame) error) {
 // Close ends the calls under way with an error, as no more frames arrive for
 // them.
 func (i *Handler) Close() error {
-	for _, s := range append(i.guestStreams.All(), i.hostStreams.All()...) {
-		s.OnError(errClosed)
-		if c, ok := s.(canceller); ok {
-			c.OnCancel()
-		}
-	}
+	i.guestStreams.End(errClosed)
+	i.hostStreams.End(errClosed)
 	return nil
 }
 
diff --git a/go/proxy/lookup.go b/go/proxy/lookup.go
index 7cafc39..af8ccd4 100644
--- a/go/proxy/lookup.go
+++ b/go/proxy/lookup.go
@@ -26,8 +26,18 @@ func (l *Lookup) Get(id uint32) (Stream, bool) {
 	return nil, false
 }
 
-// All returns the streams there are now.
-func (l *Lookup) All() []Stream {
+// End ends the streams there are now with an error, as no more frames arrive
+// for them.
+func (l *Lookup) End(err error) {
+	for _, s := range l.all() {
+		s.OnError(err)
+		if c, ok := s.(interface{ OnCancel() }); ok {
+			c.OnCancel()
+		}
+	}
+}
+
+func (l *Lookup) all() []Stream {
 	l.mu.Lock()
 	defer l.mu.Unlock()
 
diff --git a/go/transport/wasmrs/host/instance.go b/go/transport/wasmrs/host/instance.go
index f79818f..6d3c2e4 100644
--- a/go/transport/wasmrs/host/instance.go
+++ b/go/transport/wasmrs/host/instance.go
@@ -21,7 +21,7 @@ type Instance struct {
 	ctx       context.Context
 	m         api.Module
 	sendQueue *queue[frames.Frame]
-	recvQueue *queue[[]byte]
+	recvQueue *queue[received]
 	sendFn    api.Function
 	sendPtr   uint32
 	sendSize  uint32
@@ -62,6 +62,12 @@ const recvSize = 16 * 1024
 // frameLengthSize is the size of the length in front of every frame of a batch.
 const frameLengthSize = 3
 
+// received is a frame from the guest, or the error it failed with.
+type received struct {
+	frame []byte
+	err   error
+}
+
 type fragmentedPayload struct {
 	frameType frames.FrameType
 	initialN  uint32
@@ -94,7 +100,7 @@ func NewInstance(ctx context.Context, m api.Module) (*Instance, error) {
 		ctx:       ctx,
 		m:         m,
 		sendQueue: newQueue[frames.Frame](),
-		recvQueue: newQueue[[]byte](),
+		recvQueue: newQueue[received](),
 		sendFn:    send,
 		// streams: make(map[uint32]proxy.Stream),
 		// streams:            make([]proxy.Stream, 1024*1024),
@@ -220,7 +226,7 @@ func (i *Instance) sendLoop() {
 		// if this frame does not fit,
 		// send the buffer and reset.
 		if pos+frameLengthSize+byteCount > i.sendSize {
-			i.sendFn.Call(ctx, uint64(pos))
+			i.guestSend(ctx, pos)
 			pos = 0
 			count = 0
 			mem := i.m.Memory()
@@ -249,13 +255,20 @@ func (i *Instance) sendLoop() {
 			write(f)
 		}
 		if pos > 0 {
-			i.sendFn.Call(ctx, uint64(pos))
+			i.guestSend(ctx, pos)
 			pos = 0
 			count = 0
 		}
 	}
 }
 
+// guestSend has the guest handle a batch. What it was doing is lost if it fails.
+func (i *Instance) guestSend(ctx context.Context, size uint32) {
+	if _, err := i.sendFn.Call(ctx, uint64(size)); err != nil {
+		i.recvQueue.push(received{err: err})
+	}
+}
+
 func (i *Instance) Operations() operations.Table {
 	return i.operations
 }
@@ -290,7 +303,7 @@ func (i *Instance) hostSend(ctx context.Context, recvPos uint32) {
 		// Handlers and subscribers may keep the payload of the frame.
 		frame := make([]byte, frameLength)
 		copy(frame, buffer)
-		i.recvQueue.push(frame)
+		i.recvQueue.push(received{frame: frame})
 		buffer = buffer[frameLength:]
 	}
 }
@@ -299,14 +312,24 @@ func (i *Instance) recvLoop() {
 	for {
 		batch := i.recvQueue.pop()
 		if len(batch) == 0 {
+			i.endStreams(ErrClosed)
 			return
 		}
-		for _, frame := range batch {
-			i.recvOne(frame)
+		for _, r := range batch {
+			if r.err != nil {
+				i.endStreams(r.err)
+				continue
+			}
+			i.recvOne(r.frame)
 		}
 	}
 }
 
+func (i *Instance) endStreams(err error) {
+	i.guestStreams.End(err)
+	i.hostStreams.End(err)
+}
+
 func (i *Instance) recvOne(data []byte) {
 	ctx := context.Background()
 	if len(data) < frames.FrameHeaderLen {
-- 
2.43.0


From 3120f1710a1cd4808230c752ce742307ddbc216a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:06 +0000
Subject: [PATCH 76/78] fix: Rust guests end calls of which a frame does not
 fit

---
 rust/crates/wasmrs-guest/src/guest.rs | 40 +++++++++++++++++++++++----
 1 file changed, 34 insertions(+), 6 deletions(-)

diff --git a/rust/crates/wasmrs-guest/src/guest.rs b/rust/crates/wasmrs-guest/src/guest.rs
index 1be62d6..c0e3f0e 100644
--- a/rust/crates/wasmrs-guest/src/guest.rs
+++ b/rust/crates/wasmrs-guest/src/guest.rs
@@ -4,7 +4,7 @@ use std::rc::Rc;
 use std::sync::atomic::{AtomicU32, Ordering};
 
 use wasmrs::util::to_u24_bytes;
-use wasmrs::SocketSide;
+use wasmrs::{ErrorCode, SocketSide};
 pub use wasmrs::{Frame, Metadata, OperationList, OperationType, Payload, PayloadError, RSocket};
 pub use wasmrs_runtime::spawn;
 use wasmrs_runtime::{exhaust_pool, UnboundedReceiver};
@@ -190,11 +190,37 @@ pub(crate) fn send_frame(read_until: u32) {
 fn spawn_writer(mut rx: UnboundedReceiver<Frame>) {
   spawn(async move {
     while let Some(frame) = rx.recv().await {
-      send_host_frame(vec![frame.encode()]);
+      let stream_id = frame.stream_id();
+      let is_request = matches!(
+        frame,
+        Frame::RequestResponse(_) | Frame::RequestFnF(_) | Frame::RequestStream(_) | Frame::RequestChannel(_)
+      );
+      if !send_host_frame(vec![frame.encode()]).is_empty() {
+        refuse(stream_id, is_request);
+      }
     }
   });
 }
 
+/// End a stream that has a frame which is too large for the host's buffer.
+fn refuse(stream_id: u32, is_request: bool) {
+  let error = "Frame is too large for the host's buffer";
+  SOCKET.with(|cell| {
+    #[allow(unsafe_code)]
+    let socket = unsafe { &mut *cell.get() };
+    // The guest's own streams have even ids.
+    let end = if stream_id % 2 == 0 {
+      Frame::new_error(stream_id, ErrorCode::ApplicationError.into(), error)
+    } else {
+      Frame::new_cancel(stream_id)
+    };
+    let _ = socket.process_once(end);
+  });
+  if !is_request {
+    send_error_frame(stream_id, ErrorCode::ApplicationError.into(), error);
+  }
+}
+
 fn read_frames(read_until: u32) -> Result<Vec<Bytes>, Error> {
   GUEST_BUFFER.with(|cell| {
     #[allow(unsafe_code)]
@@ -242,7 +268,7 @@ fn send_host_frame(mut payloads: Vec<Bytes>) -> Vec<Bytes> {
     let mut buff = Cursor::new(buff);
     while let Some(payload) = payloads.pop() {
       let len = payload.len() as u32;
-      if (total + len as usize) > max {
+      if (total + 3 + len as usize) > max {
         payloads.push(payload);
         break;
       }
@@ -252,9 +278,11 @@ fn send_host_frame(mut payloads: Vec<Bytes>) -> Vec<Bytes> {
     }
     total
   });
-  #[allow(unsafe_code)]
-  unsafe {
-    _host_wasmrs_send(size);
+  if size > 0 {
+    #[allow(unsafe_code)]
+    unsafe {
+      _host_wasmrs_send(size);
+    }
   }
   payloads
 }
-- 
2.43.0


From 13bdabb55448346e8de37378565d34b905c29b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:06 +0000
Subject: [PATCH 77/78] fix: Rust endpoints end the input of a channel
 requested with the complete flag

---
 rust/crates/wasmrs/src/socket.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/rust/crates/wasmrs/src/socket.rs b/rust/crates/wasmrs/src/socket.rs
index 24a0aec..dd752d0 100644
--- a/rust/crates/wasmrs/src/socket.rs
+++ b/rust/crates/wasmrs/src/socket.rs
@@ -149,8 +149,9 @@ impl WasmSocket {
         self.on_request_stream(stream_id, input);
       }
       Frame::RequestChannel(f) => {
+        let complete = f.0.complete;
         let input: Payload = f.into();
-        self.on_request_channel(stream_id, input);
+        self.on_request_channel(stream_id, input, complete);
       }
       Frame::PayloadFrame(f) => {
         let input: Payload = f.into();
@@ -227,7 +228,7 @@ impl WasmSocket {
     });
   }
 
-  fn on_request_channel(&self, sid: u32, first: Payload) {
+  fn on_request_channel(&self, sid: u32, first: Payload, complete: bool) {
     trace!(sid, side = %self.side, "on_request_channel");
     let responder = self.responder.clone();
 
@@ -235,7 +236,12 @@ impl WasmSocket {
     let (handler_tx, handler_rx) = Flux::new_channels();
 
     handler_tx.send(first).unwrap();
-    self.register_handler(sid, Handler::ReqRC(handler_tx));
+    if complete {
+      // The first payload is all of the input.
+      handler_tx.complete();
+    } else {
+      self.register_handler(sid, Handler::ReqRC(handler_tx));
+    }
     let abort_handles = self.abort_handles.clone();
     let handlers = self.handlers.clone();
     let (abort_handle, abort_registration) = AbortHandle::new_pair();
-- 
2.43.0


From dae0f96931d179b4d73d799aa32891786cd8ab12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:06 +0000
Subject: [PATCH 78/78] fix: items of a channel need not repeat the operation
 for Rust guests

---
 rust/crates/wasmrs-guest/src/server.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/rust/crates/wasmrs-guest/src/server.rs b/rust/crates/wasmrs-guest/src/server.rs
index 2d99f85..9cb18ae 100644
--- a/rust/crates/wasmrs-guest/src/server.rs
+++ b/rust/crates/wasmrs-guest/src/server.rs
@@ -91,7 +91,7 @@ impl RSocket for WasmServer {
 
     runtime::spawn(async move {
       let (handler_input, handler_stream) = Flux::new_channels();
-      let mut handler_out = if let Some(result) = stream.next().await {
+      let (metadata, mut handler_out) = if let Some(result) = stream.next().await {
         let payload = flux_try!(tx, result);
 
         let metadata = flux_try!(tx, payload.parse_metadata());
@@ -101,10 +101,11 @@ impl RSocket for WasmServer {
         );
 
         handler_input.send(payload.try_into().unwrap()).unwrap();
-        flux_try!(
+        let handler_out = flux_try!(
           tx,
           handler(handler_stream).map_err(|e| Error::HandlerFail(e.to_string()))
-        )
+        );
+        (metadata, handler_out)
       } else {
         let _ = tx.error(PayloadError::application_error(
           "Can not initiate a channel with no payload",
@@ -118,9 +119,10 @@ impl RSocket for WasmServer {
         tx.complete();
       });
       while let Some(next) = stream.next().await {
-        let _ = handler_input.send_result(next.and_then(|v| {
-          v.try_into()
-            .map_err(|e: Error| PayloadError::application_error(e.to_string()))
+        // Only the first payload needs to say which operation it is for.
+        let _ = handler_input.send_result(next.map(|v| ParsedPayload {
+          metadata: v.parse_metadata().unwrap_or(metadata),
+          data: v.data.unwrap_or_default(),
         }));
       }
     });
-- 
2.43.0

