From 6778d5aa89e24fe90e8cdce107548af91c1de952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:48 +0000
Subject: [PATCH 01/75] fix: reject truncated frames instead of panicking while
 decoding

---
 internal/frames/error.go           |  3 +++
 internal/frames/payload.go         | 10 ++++------
 internal/frames/request_n.go       |  3 +++
 internal/frames/request_payload.go | 13 +++++++------
 internal/frames/setup.go           | 31 +++++++++++++++++++++---------
 internal/frames/util.go            | 20 +++++++++++++++++++
 6 files changed, 59 insertions(+), 21 deletions(-)

diff --git a/internal/frames/error.go b/internal/frames/error.go
index f6966b6..6704cf8 100644
--- a/internal/frames/error.go
+++ b/internal/frames/error.go
@@ -21,6 +21,9 @@ func (f *Error) Type() FrameType {
 }
 
 func (f *Error) Decode(header *FrameHeader, payload []byte) error {
+	if len(payload) < 4 {
+		return ErrShortFrame
+	}
 	code := binary.BigEndian.Uint32(payload)
 	data := string(payload[4:])
 
diff --git a/internal/frames/payload.go b/internal/frames/payload.go
index 6a6b18b..18cb884 100644
--- a/internal/frames/payload.go
+++ b/internal/frames/payload.go
@@ -32,12 +32,10 @@ func (f *Payload) Decode(header *FrameHeader, payload []byte) error {
 	metadata := emptyBuffer
 
 	if hasMetadata {
-		var mdLengthBuf [4]byte
-		copy(mdLengthBuf[1:], payload[0:3])
-		mdLength := binary.BigEndian.Uint32(mdLengthBuf[:])
-		payload = payload[3:]
-		metadata = payload[:mdLength]
-		payload = payload[mdLength:]
+		var err error
+		if metadata, payload, err = splitMetadata(payload); err != nil {
+			return err
+		}
 	}
 
 	*f = Payload{
diff --git a/internal/frames/request_n.go b/internal/frames/request_n.go
index 636df9d..4bac1cd 100644
--- a/internal/frames/request_n.go
+++ b/internal/frames/request_n.go
@@ -20,6 +20,9 @@ func (f *RequestN) Type() FrameType {
 }
 
 func (f *RequestN) Decode(header *FrameHeader, payload []byte) error {
+	if len(payload) < 4 {
+		return ErrShortFrame
+	}
 	n := binary.BigEndian.Uint32(payload)
 
 	*f = RequestN{
diff --git a/internal/frames/request_payload.go b/internal/frames/request_payload.go
index f9095c1..17e5e32 100644
--- a/internal/frames/request_payload.go
+++ b/internal/frames/request_payload.go
@@ -38,6 +38,9 @@ func (f *RequestPayload) Decode(header *FrameHeader, payload []byte) error {
 	complete := true
 
 	if frameType == FrameTypeRequestStream || frameType == FrameTypeRequestChannel {
+		if len(payload) < 4 {
+			return ErrShortFrame
+		}
 		initialN = binary.BigEndian.Uint32(payload)
 		payload = payload[4:]
 	}
@@ -47,12 +50,10 @@ func (f *RequestPayload) Decode(header *FrameHeader, payload []byte) error {
 
 	metadata := emptyBuffer
 	if hasMetadata {
-		var mdLengthBuf [4]byte
-		copy(mdLengthBuf[1:], payload[0:3])
-		mdLength := binary.BigEndian.Uint32(mdLengthBuf[:])
-		payload = payload[3:]
-		metadata = payload[:mdLength]
-		payload = payload[mdLength:]
+		var err error
+		if metadata, payload, err = splitMetadata(payload); err != nil {
+			return err
+		}
 	}
 
 	*f = RequestPayload{
diff --git a/internal/frames/setup.go b/internal/frames/setup.go
index cc24bf7..0fe5b1e 100644
--- a/internal/frames/setup.go
+++ b/internal/frames/setup.go
@@ -35,6 +35,9 @@ func (f *Setup) Decode(header *FrameHeader, payload []byte) error {
 	lease := flags.Check(FlagLease)
 	var metadata []byte
 
+	if len(payload) < 12 {
+		return ErrShortFrame
+	}
 	major := binary.BigEndian.Uint16(payload)
 	minor := binary.BigEndian.Uint16(payload[2:])
 	timeBetweenKeepalive := time.Millisecond * time.Duration(binary.BigEndian.Uint32(payload[4:]))
@@ -44,27 +47,37 @@ func (f *Setup) Decode(header *FrameHeader, payload []byte) error {
 	data := payload[12:]
 
 	if resume {
-		tokenLength := binary.BigEndian.Uint16(data)
+		if len(data) < 2 {
+			return ErrShortFrame
+		}
+		tokenLength := int(binary.BigEndian.Uint16(data))
+		if len(data) < 2+tokenLength {
+			return ErrShortFrame
+		}
 		token = data[2 : 2+tokenLength]
 		data = data[2+tokenLength:]
 	}
 
-	metadataMimeLength := data[0]
+	if len(data) < 1 || len(data) < 1+int(data[0]) {
+		return ErrShortFrame
+	}
+	metadataMimeLength := int(data[0])
 	mimeMetadata := string(data[1 : 1+metadataMimeLength])
 	data = data[1+metadataMimeLength:]
 
-	dataMimeLength := data[0]
+	if len(data) < 1 || len(data) < 1+int(data[0]) {
+		return ErrShortFrame
+	}
+	dataMimeLength := int(data[0])
 	mimeData := string(data[1 : 1+dataMimeLength])
 	data = data[1+dataMimeLength:]
 	payload = data
 
 	if hasMetadata {
-		var mdLengthBuf [4]byte
-		copy(mdLengthBuf[1:], data[0:3])
-		mdLength := binary.BigEndian.Uint32(mdLengthBuf[:])
-		data = data[3:]
-		metadata = data[:mdLength]
-		payload = data[mdLength:]
+		var err error
+		if metadata, payload, err = splitMetadata(data); err != nil {
+			return err
+		}
 	}
 
 	*f = Setup{
diff --git a/internal/frames/util.go b/internal/frames/util.go
index d962f97..4409837 100644
--- a/internal/frames/util.go
+++ b/internal/frames/util.go
@@ -2,10 +2,30 @@ package frames
 
 import (
 	"encoding/binary"
+	"errors"
 )
 
 var emptyBuffer = []byte{}
 
+// ErrShortFrame is returned when a frame ends before the fields it declares.
+var ErrShortFrame = errors.New("frames: frame is too short")
+
+// splitMetadata splits a payload that starts with a 24-bit metadata length
+// into the metadata and the remaining data.
+func splitMetadata(payload []byte) (metadata, data []byte, err error) {
+	if len(payload) < 3 {
+		return nil, nil, ErrShortFrame
+	}
+	var mdLengthBuf [4]byte
+	copy(mdLengthBuf[1:], payload[0:3])
+	mdLength := binary.BigEndian.Uint32(mdLengthBuf[:])
+	payload = payload[3:]
+	if uint32(len(payload)) < mdLength {
+		return nil, nil, ErrShortFrame
+	}
+	return payload[:mdLength], payload[mdLength:], nil
+}
+
 func readString(payload []byte) (string, []byte) {
 	strLen := binary.BigEndian.Uint16(payload[:2])
 	payload = payload[2:]
-- 
2.43.0


From 32f7d2b15ae7bbb813728c9f42a2a69b8e7d3d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:50 +0000
Subject: [PATCH 02/75] fix: encode the follows flag of request frames

---
 internal/frames/request_payload.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/frames/request_payload.go b/internal/frames/request_payload.go
index 17e5e32..9d73dab 100644
--- a/internal/frames/request_payload.go
+++ b/internal/frames/request_payload.go
@@ -76,6 +76,9 @@ func (f *RequestPayload) Encode(buf []byte) {
 	if f.FrameType == FrameTypeRequestChannel && f.Complete {
 		flags |= FlagComplete
 	}
+	if f.Follows {
+		flags |= FlagFollow
+	}
 
 	if metadataLen > 0 {
 		flags |= FlagMetadata
-- 
2.43.0


From 4126e1ae445ce4d51e91d706cb81907edc635cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:51 +0000
Subject: [PATCH 03/75] fix: encode setup durations longer than 4.29 seconds

---
 internal/frames/setup.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/frames/setup.go b/internal/frames/setup.go
index 0fe5b1e..9627140 100644
--- a/internal/frames/setup.go
+++ b/internal/frames/setup.go
@@ -116,8 +116,8 @@ func (f *Setup) Encode(buf []byte) {
 
 	binary.BigEndian.PutUint16(payload, f.MajorVersion)
 	binary.BigEndian.PutUint16(payload[2:], f.MinorVersion)
-	binary.BigEndian.PutUint32(payload[4:], uint32(f.TimeBetweenKeepalive)/uint32(time.Millisecond))
-	binary.BigEndian.PutUint32(payload[8:], uint32(f.MaxLifetime)/uint32(time.Millisecond))
+	binary.BigEndian.PutUint32(payload[4:], uint32(f.TimeBetweenKeepalive/time.Millisecond))
+	binary.BigEndian.PutUint32(payload[8:], uint32(f.MaxLifetime/time.Millisecond))
 
 	payload = payload[12:]
 
-- 
2.43.0


From 0f9d6ab80a7f64a3b9f9341936427e0f332f6645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:52 +0000
Subject: [PATCH 04/75] fix: count the resume token once in the setup frame
 size

---
 internal/frames/setup.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/frames/setup.go b/internal/frames/setup.go
index 9627140..e1f9e4d 100644
--- a/internal/frames/setup.go
+++ b/internal/frames/setup.go
@@ -155,7 +155,7 @@ func (f *Setup) Size() uint32 {
 
 	metadataLen := uint32(len(f.Metadata))
 	tokenLen := uint32(len(f.Token))
-	size += metadataLen + tokenLen + uint32(len(f.Data)+len(f.Token)+len(f.MimeMetadata)+len(f.MimeData))
+	size += metadataLen + tokenLen + uint32(len(f.Data)+len(f.MimeMetadata)+len(f.MimeData))
 	if tokenLen > 0 {
 		size += 2
 	}
-- 
2.43.0


From 783cf37ec3b0f682d5c0a07a52bac3838affefac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:00 +0000
Subject: [PATCH 05/75] fix: size 255-byte binaries like the encoder writes
 them

---
 msgpack/sizer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msgpack/sizer.go b/msgpack/sizer.go
index ad88b50..8964498 100644
--- a/msgpack/sizer.go
+++ b/msgpack/sizer.go
@@ -118,7 +118,7 @@ func (s *Sizer) WriteArraySize(length uint32) {
 }
 
 func (s *Sizer) writeBinLength(length uint32) {
-	if length < math.MaxUint8 {
+	if length <= math.MaxUint8 {
 		s.length += 1
 	} else if length <= math.MaxUint16 {
 		s.length += 2
-- 
2.43.0


From eb7657fce9f3663a1adf9ad365badef877ef637e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:03 +0000
Subject: [PATCH 06/75] fix: write nil once in WriteAny

---
 msgpack/encoder.go | 3 ---
 msgpack/sizer.go   | 3 ---
 2 files changed, 6 deletions(-)

diff --git a/msgpack/encoder.go b/msgpack/encoder.go
index 634bf9c..391570a 100644
--- a/msgpack/encoder.go
+++ b/msgpack/encoder.go
@@ -315,9 +315,6 @@ func (e *Encoder) WriteMapSize(length uint32) {
 }
 
 func (e *Encoder) WriteAny(value any) {
-	if value == nil {
-		e.WriteNil()
-	}
 	switch v := value.(type) {
 	case nil:
 		e.WriteNil()
diff --git a/msgpack/sizer.go b/msgpack/sizer.go
index 8964498..e7c3b0a 100644
--- a/msgpack/sizer.go
+++ b/msgpack/sizer.go
@@ -279,9 +279,6 @@ func (s *Sizer) WriteNillableFloat64(value *float64) {
 }
 
 func (s *Sizer) WriteAny(value any) {
-	if value == nil {
-		s.WriteNil()
-	}
 	switch v := value.(type) {
 	case nil:
 		s.WriteNil()
-- 
2.43.0


From 7ab53aa17a892665b3669f7d9f973cdbcc08e2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:06 +0000
Subject: [PATCH 07/75] fix: encode and decode time values through WriteAny and
 ReadAny

---
 msgpack/decoder.go | 6 ++++++
 msgpack/encoder.go | 8 ++++++++
 2 files changed, 14 insertions(+)

diff --git a/msgpack/decoder.go b/msgpack/decoder.go
index 02b0b29..df39a42 100644
--- a/msgpack/decoder.go
+++ b/msgpack/decoder.go
@@ -393,6 +393,10 @@ func (d *Decoder) ReadTime() (time.Time, error) {
 	}
 
 	d.reader.Discard(1)
+	return d.readTimeExt(prefix)
+}
+
+func (d *Decoder) readTimeExt(prefix byte) (time.Time, error) {
 	extID, extLen, err := d.extHeader(prefix)
 	if err != nil {
 		return time.Time{}, err
@@ -823,6 +827,8 @@ func (d *Decoder) ReadAny() (any, error) {
 			return nil, err
 		}
 		return d.reader.GetBytes(binLen)
+	case FormatFixExt4, FormatFixExt8, FormatExt8:
+		return d.readTimeExt(prefix)
 	}
 
 	return nil, ReadError{"bad value for bool"}
diff --git a/msgpack/encoder.go b/msgpack/encoder.go
index 391570a..5184784 100644
--- a/msgpack/encoder.go
+++ b/msgpack/encoder.go
@@ -348,6 +348,8 @@ func (e *Encoder) WriteAny(value any) {
 		e.WriteFloat64(v)
 	case string:
 		e.WriteString(v)
+	case time.Time:
+		e.WriteTime(v)
 	case []byte:
 		e.WriteByteArray(v)
 	case []interface{}:
@@ -362,6 +364,12 @@ func (e *Encoder) WriteAny(value any) {
 		for _, v := range v {
 			e.WriteString(v)
 		}
+	case []time.Time:
+		size := uint32(len(v))
+		e.WriteArraySize(size)
+		for _, v := range v {
+			e.WriteTime(v)
+		}
 	case []bool:
 		size := uint32(len(v))
 		e.WriteArraySize(size)
-- 
2.43.0


From 728e8cae9e2ce55f0b33d996b807d18a29069c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:09 +0000
Subject: [PATCH 08/75] fix: report values WriteAny cannot encode instead of
 dropping them

---
 msgpack/data_reader.go | 10 ++++++++++
 msgpack/encoder.go     |  4 +++-
 msgpack/sizer.go       | 14 ++++++++++++--
 3 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/msgpack/data_reader.go b/msgpack/data_reader.go
index 4240605..1a69060 100644
--- a/msgpack/data_reader.go
+++ b/msgpack/data_reader.go
@@ -8,6 +8,9 @@ import (
 
 var ErrRange = errors.New("range error")
 
+// ErrUnsupportedType is reported by WriteAny for values it cannot represent.
+var ErrUnsupportedType = errors.New("unsupported type")
+
 type DataReader struct {
 	buffer     []byte
 	byteOffset uint32
@@ -248,6 +251,13 @@ func (d *DataReader) checkBufferSize(length uint32) error {
 	return nil
 }
 
+// fail records err as the result of the operation unless one is already set.
+func (d *DataReader) fail(err error) {
+	if d.err == nil {
+		d.err = err
+	}
+}
+
 func (d *DataReader) Err() error {
 	return d.err
 }
diff --git a/msgpack/encoder.go b/msgpack/encoder.go
index 5184784..4ef41b6 100644
--- a/msgpack/encoder.go
+++ b/msgpack/encoder.go
@@ -319,7 +319,7 @@ func (e *Encoder) WriteAny(value any) {
 	case nil:
 		e.WriteNil()
 	case Codec:
-		v.Encode(e)
+		e.reader.fail(v.Encode(e))
 	case int:
 		e.WriteInt64(int64(v))
 	case int8:
@@ -523,6 +523,8 @@ func (e *Encoder) WriteAny(value any) {
 			e.WriteAny(k)
 			e.WriteAny(v)
 		}
+	default:
+		e.reader.fail(ErrUnsupportedType)
 	}
 }
 
diff --git a/msgpack/sizer.go b/msgpack/sizer.go
index e7c3b0a..5d1ea89 100644
--- a/msgpack/sizer.go
+++ b/msgpack/sizer.go
@@ -7,6 +7,7 @@ import (
 
 type Sizer struct {
 	length uint32
+	err    error
 }
 
 // Ensure `*Sizer` implements `Writer`.
@@ -283,7 +284,7 @@ func (s *Sizer) WriteAny(value any) {
 	case nil:
 		s.WriteNil()
 	case Codec:
-		v.Encode(s)
+		s.fail(v.Encode(s))
 	case int:
 		s.WriteInt64(int64(v))
 	case int8:
@@ -487,9 +488,18 @@ func (s *Sizer) WriteAny(value any) {
 			s.WriteAny(k)
 			s.WriteAny(v)
 		}
+	default:
+		s.fail(ErrUnsupportedType)
+	}
+}
+
+// fail records err as the result of the operation unless one is already set.
+func (s *Sizer) fail(err error) {
+	if s.err == nil {
+		s.err = err
 	}
 }
 
 func (s *Sizer) Err() error {
-	return nil
+	return s.err
 }
-- 
2.43.0


From 10bc90914419da4148aec3c237f448cbcdf1f037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:13 +0000
Subject: [PATCH 09/75] fix: bounds check that wraps around for huge declared
 lengths

---
 msgpack/data_reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msgpack/data_reader.go b/msgpack/data_reader.go
index 1a69060..d4dc6ca 100644
--- a/msgpack/data_reader.go
+++ b/msgpack/data_reader.go
@@ -243,7 +243,7 @@ func (d *DataReader) checkBufferSize(length uint32) error {
 	if d.err != nil {
 		return d.err
 	}
-	if d.byteOffset+length > uint32(len(d.buffer)) {
+	if length > uint32(len(d.buffer))-d.byteOffset {
 		d.err = ErrRange
 		return ErrRange
 	}
-- 
2.43.0


From 206bd0921df8631038383bcd56df33ba5ef19254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:54 +0000
Subject: [PATCH 10/75] fix: Skip over extension types, truncated values and
 deep nesting

---
 msgpack/decoder.go | 163 +++++++++++++++++++--------------------------
 1 file changed, 67 insertions(+), 96 deletions(-)

diff --git a/msgpack/decoder.go b/msgpack/decoder.go
index df39a42..81b2db4 100644
--- a/msgpack/decoder.go
+++ b/msgpack/decoder.go
@@ -597,119 +597,90 @@ func (d *Decoder) ReadMapSize() (uint32, error) {
 }
 
 func (d *Decoder) Skip() error {
-	numberOfObjectsToDiscard, err := d.getSize()
-	if err != nil {
-		return err
-	}
-
-	for numberOfObjectsToDiscard > 0 {
-		err = d.Skip() // Skip recursively
+	// Objects still to discard, including the children of containers.
+	for remaining := uint64(1); remaining > 0; remaining-- {
+		children, err := d.getSize()
 		if err != nil {
 			return err
 		}
-		numberOfObjectsToDiscard--
+		remaining += children
 	}
 	return nil
 }
 
-func (d *Decoder) getSize() (uint32, error) {
+func (d *Decoder) getSize() (uint64, error) {
 	leadByte, err := d.reader.GetUint8()
 	if err != nil {
 		return 0, err
 	}
-	var objectsToDiscard uint32 = 0
 
 	if isNegativeFixedInt(leadByte) || isFixedInt(leadByte) {
 		// Noop, will just discard the leadbyte
+		return 0, nil
 	} else if isFixedString(leadByte) {
 		strLen := uint32(leadByte & 0x1f)
-		d.reader.Discard(strLen)
+		return 0, d.reader.Discard(strLen)
 	} else if isFixedArray(leadByte) {
-		objectsToDiscard = uint32(leadByte & FormatFourLeastSigBitsInByte)
+		return uint64(leadByte & FormatFourLeastSigBitsInByte), nil
 	} else if isFixedMap(leadByte) {
-		objectsToDiscard = 2 * uint32(leadByte&FormatFourLeastSigBitsInByte)
-	} else {
-		switch leadByte {
-		case FormatNil, FormatTrue, FormatFalse:
-		case FormatString8, FormatBin8:
-			length, err := d.reader.GetUint8()
-			if err != nil {
-				return 0, err
-			}
-			err = d.reader.Discard(uint32(length))
-			if err != nil {
-				return 0, err
-			}
-		case FormatString16, FormatBin16:
-			length, err := d.reader.GetUint16()
-			if err != nil {
-				return 0, err
-			}
-			err = d.reader.Discard(uint32(length))
-			if err != nil {
-				return 0, err
-			}
-		case FormatString32, FormatBin32:
-			length, err := d.reader.GetUint32()
-			if err != nil {
-				return 0, err
-			}
-			err = d.reader.Discard(length)
-			if err != nil {
-				return 0, err
-			}
-		case FormatFloat32:
-			d.reader.Discard(4)
-		case FormatFloat64:
-			d.reader.Discard(8)
-		case FormatUint8, FormatInt8:
-			d.reader.Discard(1)
-		case FormatUint16, FormatInt16:
-			d.reader.Discard(2)
-		case FormatUint32, FormatInt32:
-			d.reader.Discard(4)
-		case FormatUint64, FormatInt64:
-			d.reader.Discard(8)
-		case FormatFixExt1:
-			d.reader.Discard(1)
-		case FormatFixExt2:
-			d.reader.Discard(3)
-		case FormatFixExt4:
-			d.reader.Discard(5)
-		case FormatFixExt8:
-			d.reader.Discard(9)
-		case FormatFixExt16:
-			d.reader.Discard(17)
-		case FormatArray16:
-			v, err := d.reader.GetUint16()
-			if err != nil {
-				return 0, err
-			}
-			objectsToDiscard = uint32(v)
-		case FormatArray32:
-			v, err := d.reader.GetUint32()
-			if err != nil {
-				return 0, err
-			}
-			objectsToDiscard = v
-		case FormatMap16:
-			v, err := d.reader.GetUint16()
-			if err != nil {
-				return 0, err
-			}
-			objectsToDiscard = 2 * uint32(v)
-		case FormatMap32:
-			v, err := d.reader.GetUint32()
-			if err != nil {
-				return 0, err
-			}
-			objectsToDiscard = 2 * v
-		default:
-			return 0, ReadError{"bad prefix"}
-		}
+		return 2 * uint64(leadByte&FormatFourLeastSigBitsInByte), nil
 	}
 
-	return objectsToDiscard, nil
+	switch leadByte {
+	case FormatNil, FormatTrue, FormatFalse:
+		return 0, nil
+	case FormatString8, FormatBin8:
+		length, err := d.reader.GetUint8()
+		if err != nil {
+			return 0, err
+		}
+		return 0, d.reader.Discard(uint32(length))
+	case FormatString16, FormatBin16:
+		length, err := d.reader.GetUint16()
+		if err != nil {
+			return 0, err
+		}
+		return 0, d.reader.Discard(uint32(length))
+	case FormatString32, FormatBin32:
+		length, err := d.reader.GetUint32()
+		if err != nil {
+			return 0, err
+		}
+		return 0, d.reader.Discard(length)
+	case FormatFloat32:
+		return 0, d.reader.Discard(4)
+	case FormatFloat64:
+		return 0, d.reader.Discard(8)
+	case FormatUint8, FormatInt8:
+		return 0, d.reader.Discard(1)
+	case FormatUint16, FormatInt16:
+		return 0, d.reader.Discard(2)
+	case FormatUint32, FormatInt32:
+		return 0, d.reader.Discard(4)
+	case FormatUint64, FormatInt64:
+		return 0, d.reader.Discard(8)
+	case FormatFixExt1, FormatFixExt2, FormatFixExt4, FormatFixExt8, FormatFixExt16,
+		FormatExt8, FormatExt16, FormatExt32:
+		_, extLen, err := d.extHeader(leadByte)
+		if err != nil {
+			return 0, err
+		}
+		return 0, d.reader.Discard(extLen)
+	case FormatArray16:
+		v, err := d.reader.GetUint16()
+		return uint64(v), err
+	case FormatArray32:
+		v, err := d.reader.GetUint32()
+		return uint64(v), err
+	case FormatMap16:
+		v, err := d.reader.GetUint16()
+		return 2 * uint64(v), err
+	case FormatMap32:
+		v, err := d.reader.GetUint32()
+		return 2 * uint64(v), err
+	default:
+		return 0, ReadError{"bad prefix"}
+	}
 }
 
 func (d *Decoder) ReadAny() (any, error) {
@@ -895,13 +866,13 @@ func (d *Decoder) parseExtLen(c byte) (uint32, error) {
 	case FormatFixExt16:
 		return 16, nil
 	case FormatExt8:
-		n, err := d.ReadUint8()
+		n, err := d.reader.GetUint8()
 		return uint32(n), err
 	case FormatExt16:
-		n, err := d.ReadUint16()
+		n, err := d.reader.GetUint16()
 		return uint32(n), err
 	case FormatExt32:
-		n, err := d.ReadUint32()
+		n, err := d.reader.GetUint32()
 		return n, err
 	default:
 		return 0, ReadError{"msgpack: invalid code=" + strconv.FormatUint(uint64(c), 16) + " decoding ext len"}
-- 
2.43.0


From 8284b7db7fb3034fac5ac360749139dd0e32c037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:57 +0000
Subject: [PATCH 11/75] fix: decode hostile msgpack containers without panics
 or huge allocations

---
 msgpack/decoder.go | 75 +++++++++++++++++++++++++++-------------------
 msgpack/utils.go   |  4 +--
 2 files changed, 47 insertions(+), 32 deletions(-)

diff --git a/msgpack/decoder.go b/msgpack/decoder.go
index 81b2db4..f77b599 100644
--- a/msgpack/decoder.go
+++ b/msgpack/decoder.go
@@ -683,7 +683,21 @@ func (d *Decoder) getSize() (uint64, error) {
 	}
 }
 
+// maxDepth bounds the nesting of the containers that ReadAny decodes.
+const maxDepth = 10000
+
+// maxPrealloc bounds the memory reserved for a declared but unread container.
+const maxPrealloc = 64
+
 func (d *Decoder) ReadAny() (any, error) {
+	return d.readAny(maxDepth)
+}
+
+func (d *Decoder) readAny(depth int) (any, error) {
+	if depth <= 0 {
+		return nil, ReadError{"max nesting depth exceeded"}
+	}
+
 	prefix, err := d.reader.GetUint8()
 	if err != nil {
 		return false, err
@@ -700,16 +714,12 @@ func (d *Decoder) ReadAny() (any, error) {
 
 	if isFixedArray(prefix) {
 		aryLen := uint32(prefix & FormatFourLeastSigBitsInByte)
-		ary := make([]any, aryLen)
-		err := d.readArray(ary)
-		return ary, err
+		return d.readArray(aryLen, depth-1)
 	}
 
 	if isFixedMap(prefix) {
 		mapLen := uint32(prefix & FormatFourLeastSigBitsInByte)
-		m := make(map[any]any, mapLen)
-		err := d.readMap(m, mapLen)
-		return m, err
+		return d.readMap(mapLen, depth-1)
 	}
 
 	switch prefix {
@@ -753,33 +763,25 @@ func (d *Decoder) ReadAny() (any, error) {
 		if err != nil {
 			return nil, err
 		}
-		ary := make([]any, v)
-		err = d.readArray(ary)
-		return ary, err
+		return d.readArray(uint32(v), depth-1)
 	case FormatArray32:
 		v, err := d.reader.GetUint32()
 		if err != nil {
 			return nil, err
 		}
-		ary := make([]any, v)
-		err = d.readArray(ary)
-		return ary, err
+		return d.readArray(uint32(v), depth-1)
 	case FormatMap16:
 		v, err := d.reader.GetUint16()
 		if err != nil {
 			return nil, err
 		}
-		m := make(map[any]any, v)
-		err = d.readMap(m, uint32(v))
-		return m, err
+		return d.readMap(uint32(v), depth-1)
 	case FormatMap32:
 		v, err := d.reader.GetUint32()
 		if err != nil {
 			return nil, err
 		}
-		m := make(map[any]any, v)
-		err = d.readMap(m, v)
-		return m, err
+		return d.readMap(uint32(v), depth-1)
 	case FormatBin8:
 		binLen, err := d.reader.GetUint8()
 		if err != nil {
@@ -805,30 +807,43 @@ func (d *Decoder) ReadAny() (any, error) {
 	return nil, ReadError{"bad value for bool"}
 }
 
-func (d *Decoder) readArray(array []any) error {
-	for i := 0; i < len(array); i++ {
-		value, err := d.ReadAny()
+func (d *Decoder) readArray(length uint32, depth int) (any, error) {
+	ary := make([]any, 0, preallocSize(length))
+	for i := uint32(0); i < length; i++ {
+		value, err := d.readAny(depth)
 		if err != nil {
-			return err
+			return ary, err
 		}
-		array[i] = value
+		ary = append(ary, value)
 	}
-	return nil
+	return ary, nil
 }
 
-func (d *Decoder) readMap(m map[any]any, length uint32) error {
+func (d *Decoder) readMap(length uint32, depth int) (any, error) {
+	m := make(map[any]any, preallocSize(length))
 	for i := uint32(0); i < length; i++ {
-		key, err := d.ReadAny()
+		key, err := d.readAny(depth)
 		if err != nil {
-			return err
+			return m, err
 		}
-		value, err := d.ReadAny()
+		switch key.(type) {
+		case []byte, []any, map[any]any:
+			return m, ReadError{"bad type for map key"}
+		}
+		value, err := d.readAny(depth)
 		if err != nil {
-			return err
+			return m, err
 		}
 		m[key] = value
 	}
-	return nil
+	return m, nil
+}
+
+func preallocSize(length uint32) uint32 {
+	if length > maxPrealloc {
+		return maxPrealloc
+	}
+	return length
 }
 
 func (d *Decoder) extHeader(c byte) (int8, uint32, error) {
diff --git a/msgpack/utils.go b/msgpack/utils.go
index e553ab7..888ec05 100644
--- a/msgpack/utils.go
+++ b/msgpack/utils.go
@@ -18,7 +18,7 @@ func ReadSlice[T any](reader Reader, valF func(reader Reader) (T, error)) ([]T,
 	if err != nil {
 		return nil, err
 	}
-	request := make([]T, 0, listSize)
+	request := make([]T, 0, preallocSize(listSize))
 	for listSize > 0 {
 		listSize--
 		item, err := valF(reader)
@@ -50,7 +50,7 @@ func ReadMap[K constraints.Ordered, V any](reader Reader,
 	if err != nil {
 		return nil, err
 	}
-	m := make(map[K]V, mapSize)
+	m := make(map[K]V, preallocSize(mapSize))
 	for mapSize > 0 {
 		mapSize--
 		key, err := keyF(reader)
-- 
2.43.0


From 850f9e22f6ede531c774952401c68397198dbbd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:00 +0000
Subject: [PATCH 12/75] fix: read integers and floats in every width a peer may
 encode them

---
 msgpack/decoder.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/msgpack/decoder.go b/msgpack/decoder.go
index f77b599..ee5d25b 100644
--- a/msgpack/decoder.go
+++ b/msgpack/decoder.go
@@ -160,6 +160,25 @@ func (d *Decoder) ReadInt64() (int64, error) {
 	case FormatInt64:
 		v, err := d.reader.GetInt64()
 		return int64(v), err
+	case FormatUint8:
+		v, err := d.reader.GetUint8()
+		return int64(v), err
+	case FormatUint16:
+		v, err := d.reader.GetUint16()
+		return int64(v), err
+	case FormatUint32:
+		v, err := d.reader.GetUint32()
+		return int64(v), err
+	case FormatUint64:
+		v, err := d.reader.GetUint64()
+		if err == nil && v > math.MaxInt64 {
+			return 0, ReadError{
+				"interger overflow: value = " +
+					strconv.FormatUint(v, 10) +
+					"; bits = 64",
+			}
+		}
+		return int64(v), err
 	default:
 		return 0, ReadError{"bad prefix for int64"}
 	}
@@ -362,6 +381,9 @@ func (d *Decoder) ReadFloat64() (float64, error) {
 
 	if prefix == FormatFloat64 {
 		return d.reader.GetFloat64()
+	} else if prefix == FormatFloat32 {
+		v, err := d.reader.GetFloat32()
+		return float64(v), err
 	}
 	return 0, ReadError{"bad prefix for float64"}
 }
-- 
2.43.0


From 0ea5ced9a79c89cac8bd4c136ec2a61b5905e0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:03 +0000
Subject: [PATCH 13/75] fix: convert nil values and decode errors without a nil
 dereference

---
 msgpack/convert/convert.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/msgpack/convert/convert.go b/msgpack/convert/convert.go
index 455fc93..3956350 100644
--- a/msgpack/convert/convert.go
+++ b/msgpack/convert/convert.go
@@ -71,8 +71,11 @@ func String[T ~string](value string, err error) (T, error) {
 }
 
 func NillableString[T ~string](value *string, err error) (*T, error) {
+	if value == nil || err != nil {
+		return nil, err
+	}
 	ret := T(*value)
-	return &ret, err
+	return &ret, nil
 }
 
 func Bool[T ~bool](value bool, err error) (T, error) {
@@ -80,8 +83,11 @@ func Bool[T ~bool](value bool, err error) (T, error) {
 }
 
 func NillableBool[T ~bool](value *bool, err error) (*T, error) {
+	if value == nil || err != nil {
+		return nil, err
+	}
 	ret := T(*value)
-	return &ret, err
+	return &ret, nil
 }
 
 type numberic interface {
@@ -95,8 +101,11 @@ func Numeric[T, I numberic](value I, err error) (T, error) {
 }
 
 func NillableNumeric[T, I numberic](value *I, err error) (*T, error) {
+	if value == nil || err != nil {
+		return nil, err
+	}
 	ret := T(*value)
-	return &ret, err
+	return &ret, nil
 }
 
 func ByteArray[T, I ~[]byte](value I, err error) (T, error) {
-- 
2.43.0


From ca35c18482497d0bf87ab258194c043417ad84df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:53 +0000
Subject: [PATCH 14/75] fix: instance handles that alias after removal or are
 not valid pointers

---
 invoke/instances.go | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/invoke/instances.go b/invoke/instances.go
index a32508e..6d8ecbd 100644
--- a/invoke/instances.go
+++ b/invoke/instances.go
@@ -3,7 +3,6 @@ package invoke
 import (
 	"errors"
 	"sync"
-	"unsafe"
 )
 
 type Ptr[T any] struct {
@@ -14,42 +13,37 @@ var ErrNoInstance = errors.New("no instance is active for this pointer")
 
 type LiveInstances[T any] struct {
 	mu        sync.RWMutex
-	instances map[*Ptr[T]]struct{}
+	last      uint64
+	instances map[uint64]T
 }
 
 func NewLiveInstances[T any]() *LiveInstances[T] {
 	return &LiveInstances[T]{
-		instances: make(map[*Ptr[T]]struct{}),
+		instances: make(map[uint64]T),
 	}
 }
 
 func (t *LiveInstances[T]) Get(id uint64) (inst T, ok bool) {
 	t.mu.RLock()
 	defer t.mu.RUnlock()
-	ptr := (*Ptr[T])(unsafe.Pointer(uintptr(id)))
-	_, ok = t.instances[ptr]
-	if ok {
-		inst = ptr.Ptr
-	}
+	inst, ok = t.instances[id]
 	return
 }
 
 func (t *LiveInstances[T]) Put(inst T) uint64 {
-	ptr := &Ptr[T]{Ptr: inst}
-	handle := uint64(uintptr(unsafe.Pointer(ptr)))
 	t.mu.Lock()
 	defer t.mu.Unlock()
-	t.instances[ptr] = struct{}{}
+	t.last++
+	handle := t.last
+	t.instances[handle] = inst
 	return handle
 }
 
 func (t *LiveInstances[T]) Remove(id uint64) (inst T, ok bool) {
-	ptr := (*Ptr[T])(unsafe.Pointer(uintptr(id)))
 	t.mu.Lock()
 	defer t.mu.Unlock()
-	if _, ok = t.instances[ptr]; ok {
-		inst = ptr.Ptr
-		delete(t.instances, ptr)
+	if inst, ok = t.instances[id]; ok {
+		delete(t.instances, id)
 	}
 	return
 }
-- 
2.43.0


From 69e1607863eaa032f978b8d73e6b5b757bbdc5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:56 +0000
Subject: [PATCH 15/75] fix: give the next and complete flags of PortIO
 distinct bits

---
 invoke/portio.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/invoke/portio.go b/invoke/portio.go
index 0f787ce..44e7e80 100644
--- a/invoke/portio.go
+++ b/invoke/portio.go
@@ -71,7 +71,7 @@ func (f Flags) String() string {
 
 // All frame flags
 const (
-	FlagNext Flags = 1
+	FlagNext Flags = 1 << iota
 	FlagComplete
 )
 
-- 
2.43.0


From e49844167491c77a5b1286bdec38d2ce6931704a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:59 +0000
Subject: [PATCH 16/75] fix: reject truncated PortIO data instead of panicking

---
 invoke/portio.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/invoke/portio.go b/invoke/portio.go
index 44e7e80..c75ccd1 100644
--- a/invoke/portio.go
+++ b/invoke/portio.go
@@ -2,9 +2,12 @@ package invoke
 
 import (
 	"encoding/binary"
+	"errors"
 	"strings"
 )
 
+var errShortPortIO = errors.New("invoke: port data is too short")
+
 type PortIO struct {
 	Port     string
 	Data     []byte
@@ -13,12 +16,18 @@ type PortIO struct {
 }
 
 func (f *PortIO) Decode(data []byte) error {
+	if len(data) < 3 {
+		return errShortPortIO
+	}
 	flags := Flags(data[0])
 	complete := flags.Check(FlagComplete)
 	next := flags.Check(FlagNext)
 	data = data[1:]
 	portLength := binary.BigEndian.Uint16(data)
 	data = data[2:]
+	if len(data) < int(portLength) {
+		return errShortPortIO
+	}
 	port := string(data[:portLength])
 	data = data[portLength:]
 
-- 
2.43.0


From 010e6fd42678d1ec80db4522a07bf6cd77e2bef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:02 +0000
Subject: [PATCH 17/75] fix: reject malformed operation tables instead of
 panicking

---
 operations/operatons.go | 57 ++++++++++++++++++++++++++++++-----------
 1 file changed, 42 insertions(+), 15 deletions(-)

diff --git a/operations/operatons.go b/operations/operatons.go
index bca2fb2..645620f 100644
--- a/operations/operatons.go
+++ b/operations/operatons.go
@@ -62,48 +62,75 @@ func (d Direction) String() string {
 // Magic is the 4 byte preamble (literally "\0wrs") of the binary format
 var Magic = []byte{0x00, 0x77, 0x72, 0x73}
 var ErrInvalidMagicNumber = errors.New("invalid magic number")
+var ErrTruncated = errors.New("truncated operation table")
+
+// minOperationSize is the encoded size of an operation with empty names.
+const minOperationSize = 12
 
 func FromBytes(buf []byte) (Table, error) {
-	if !bytes.Equal(buf[0:4], Magic) {
+	if len(buf) < 4 || !bytes.Equal(buf[0:4], Magic) {
 		return nil, ErrInvalidMagicNumber
 	}
 	buf = buf[4:]
 
+	if len(buf) < 6 {
+		return nil, ErrTruncated
+	}
 	// Read version.
 	version := binary.BigEndian.Uint16(buf)
 	if version != 1 {
-		return nil, errors.New("Unknown operation table version %d" + strconv.Itoa(int(version)))
+		return nil, errors.New("Unknown operation table version " + strconv.Itoa(int(version)))
 	}
 	buf = buf[2:]
 	numOps := binary.BigEndian.Uint32(buf)
-	operations := make(Table, numOps)
 	buf = buf[4:]
+	if uint64(numOps)*minOperationSize > uint64(len(buf)) {
+		return nil, ErrTruncated
+	}
+	operations := make(Table, numOps)
 	for i := 0; i < int(numOps); i++ {
+		if len(buf) < 6 {
+			return nil, ErrTruncated
+		}
 		opType := RequestType(buf[0])
 		dir := Direction(buf[1])
 		id := binary.BigEndian.Uint32(buf[2:6])
-		nsLen := binary.BigEndian.Uint16(buf[6:8])
-		buf = buf[8:]
-		ns := string(buf[:nsLen])
-		buf = buf[nsLen:]
-		opLen := binary.BigEndian.Uint16(buf[0:2])
-		buf = buf[2:]
-		op := string(buf[:opLen])
-		buf = buf[opLen:]
+		var ns, op []byte
+		var ok bool
+		if ns, buf, ok = readField(buf[6:]); !ok {
+			return nil, ErrTruncated
+		}
+		if op, buf, ok = readField(buf); !ok {
+			return nil, ErrTruncated
+		}
 		operations[i] = Operation{
 			Type:      opType,
 			Direction: dir,
 			Index:     id,
-			Namespace: ns,
-			Operation: op,
+			Namespace: string(ns),
+			Operation: string(op),
+		}
+		if _, buf, ok = readField(buf); !ok { // Reserved
+			return nil, ErrTruncated
 		}
-		reservedLen := binary.BigEndian.Uint16(buf)
-		buf = buf[2+reservedLen:] // Reserved
 	}
 
 	return operations, nil
 }
 
+// readField splits off a field that is prefixed by its 16-bit length.
+func readField(buf []byte) (field, rest []byte, ok bool) {
+	if len(buf) < 2 {
+		return nil, nil, false
+	}
+	length := int(binary.BigEndian.Uint16(buf))
+	buf = buf[2:]
+	if len(buf) < length {
+		return nil, nil, false
+	}
+	return buf[:length], buf[length:], true
+}
+
 func (t Table) ToBytes() []byte {
 	size := uint32(10)
 	for _, op := range t {
-- 
2.43.0


From bb98c6bd751c21c0a842d8186c4af32eee56487e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:40 +0000
Subject: [PATCH 18/75] fix: do not resolve unknown imports to the peer's first
 operation

---
 handler/caller.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/handler/caller.go b/handler/caller.go
index 7a2eb92..19fc0cf 100644
--- a/handler/caller.go
+++ b/handler/caller.go
@@ -2,6 +2,7 @@ package handler
 
 import (
 	"context"
+	"math"
 
 	"github.com/nanobus/iota/go/internal/frames"
 	"github.com/nanobus/iota/go/invoke"
@@ -15,6 +16,10 @@ import (
 
 var _ = (invoke.Caller)((*Handler)(nil))
 
+// operationNotFound is the index of an operation that the peer does not
+// export, for which it replies not_found.
+const operationNotFound = math.MaxUint32
+
 func (i *Handler) ImportRequestResponse(namespace, operation string) uint32 {
 	for _, op := range i.opTable {
 		if op.Direction == operations.Export &&
@@ -24,7 +29,7 @@ func (i *Handler) ImportRequestResponse(namespace, operation string) uint32 {
 			return op.Index
 		}
 	}
-	return 0
+	return operationNotFound
 }
 
 func (i *Handler) ImportFireAndForget(namespace, operation string) uint32 {
@@ -36,7 +41,7 @@ func (i *Handler) ImportFireAndForget(namespace, operation string) uint32 {
 			return op.Index
 		}
 	}
-	return 0
+	return operationNotFound
 }
 
 func (i *Handler) ImportRequestStream(namespace, operation string) uint32 {
@@ -48,7 +53,7 @@ func (i *Handler) ImportRequestStream(namespace, operation string) uint32 {
 			return op.Index
 		}
 	}
-	return 0
+	return operationNotFound
 }
 
 func (i *Handler) ImportRequestChannel(namespace, operation string) uint32 {
@@ -60,7 +65,7 @@ func (i *Handler) ImportRequestChannel(namespace, operation string) uint32 {
 			return op.Index
 		}
 	}
-	return 0
+	return operationNotFound
 }
 
 func (i *Handler) RequestResponse(ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
-- 
2.43.0


From 7d42846af71466f1e9a44a414344805437b2ccb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:43 +0000
Subject: [PATCH 19/75] fix: skip stream ID zero when the server IDs wrap
 around

---
 internal/socket/stream_id.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/socket/stream_id.go b/internal/socket/stream_id.go
index 974ab23..b25f404 100644
--- a/internal/socket/stream_id.go
+++ b/internal/socket/stream_id.go
@@ -20,9 +20,9 @@ type ServerStreamIDs uint64
 func (p *ServerStreamIDs) Next() (uint32, bool) {
 	// 2,4,6,8...
 	seed := atomic.AddUint64((*uint64)(p), 1)
-	v := 2 * seed
+	v := _maskStreamID & (2 * seed)
 	if v != 0 {
-		return uint32(_maskStreamID & v), seed <= _halfSeed
+		return uint32(v), seed <= _halfSeed
 	}
 	return p.Next()
 }
-- 
2.43.0


From 7102cd54426fcb076dbd9b88bc9001d9125dd0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:47 +0000
Subject: [PATCH 20/75] fix: look up streams under the lock of the registry

---
 proxy/lookup.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/proxy/lookup.go b/proxy/lookup.go
index b5e4791..4c92353 100644
--- a/proxy/lookup.go
+++ b/proxy/lookup.go
@@ -33,6 +33,9 @@ func (l *Lookup) IsEmpty() bool {
 }
 
 func (l *Lookup) Get(id uint32) (Stream, bool) {
+	l.mu.Lock()
+	defer l.mu.Unlock()
+
 	if n := l.find(id); n != nil {
 		return n.stream, true
 	}
-- 
2.43.0


From 6f653138086e516922c479eb7f314eaa909d2a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:50 +0000
Subject: [PATCH 21/75] fix: remove the first and last stream of the registry

---
 proxy/lookup.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/proxy/lookup.go b/proxy/lookup.go
index 4c92353..3a3d686 100644
--- a/proxy/lookup.go
+++ b/proxy/lookup.go
@@ -80,9 +80,13 @@ func (l *Lookup) Remove(id uint32) {
 
 	if prevNode != nil {
 		prevNode.next = nodeToDelete.next
+	} else {
+		l.head = nextNode
 	}
 	if nextNode != nil {
 		nextNode.prev = nodeToDelete.prev
+	} else {
+		l.tail = prevNode
 	}
 }
 
-- 
2.43.0


From 7003461b2d18ffea50d9838a882e5922f5f603e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:53 +0000
Subject: [PATCH 22/75] fix: return an error for frames that exceed the 24-bit
 length

---
 transport/rsocket/tcp_conn.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/transport/rsocket/tcp_conn.go b/transport/rsocket/tcp_conn.go
index d414878..1c7cbd8 100644
--- a/transport/rsocket/tcp_conn.go
+++ b/transport/rsocket/tcp_conn.go
@@ -104,8 +104,7 @@ func (p *TCPConn) Write(frame frames.Frame) (err error) {
 	// if p.counter != nil && frame.Header().Resumable() {
 	// 	p.counter.IncWriteBytes(size)
 	// }
-	_, err = u24.MustNewUint24(size).WriteTo(p.writer)
-	if err != nil {
+	if err = u24.WriteUint24(p.writer, size); err != nil {
 		err = fmt.Errorf("write frame failed: %w", err)
 		return
 	}
-- 
2.43.0


From e4f62a2db44830859de9536f645d41c8dd836f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:56 +0000
Subject: [PATCH 23/75] fix: deliver frames that arrive together with the end
 of the stream

---
 transport/rsocket/decoder.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/transport/rsocket/decoder.go b/transport/rsocket/decoder.go
index 7e9be2e..f3206e0 100644
--- a/transport/rsocket/decoder.go
+++ b/transport/rsocket/decoder.go
@@ -42,9 +42,6 @@ func (p *LengthBasedFrameDecoder) Read() (raw []byte, err error) {
 }
 
 func doSplit(data []byte, eof bool) (advance int, token []byte, err error) {
-	if eof {
-		return
-	}
 	if len(data) < lengthFieldSize {
 		return
 	}
-- 
2.43.0


From ca82b2581ab7583d7fdecc5c020efffc9cae08d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:59 +0000
Subject: [PATCH 24/75] fix: copy frames out of the read buffer that later
 reads overwrite

---
 transport/rsocket/decoder.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/transport/rsocket/decoder.go b/transport/rsocket/decoder.go
index f3206e0..3fb255b 100644
--- a/transport/rsocket/decoder.go
+++ b/transport/rsocket/decoder.go
@@ -34,7 +34,8 @@ func (p *LengthBasedFrameDecoder) Read() (raw []byte, err error) {
 		}
 		return
 	}
-	raw = scanner.Bytes()[lengthFieldSize:]
+	// The scanner reuses its buffer while the frame is still in use.
+	raw = append([]byte(nil), scanner.Bytes()[lengthFieldSize:]...)
 	if len(raw) < frames.FrameHeaderLen {
 		err = ErrIncompleteHeader
 	}
-- 
2.43.0


From 74403ae8aa946caed641d27912bb6ec57d9c39dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:24 +0000
Subject: [PATCH 25/75] fix: call Finally for monos and fluxes that are already
 terminated

---
 rx/flux/flux.go | 3 +++
 rx/mono/mono.go | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/rx/flux/flux.go b/rx/flux/flux.go
index 864f7e5..36c7efb 100644
--- a/rx/flux/flux.go
+++ b/rx/flux/flux.go
@@ -47,6 +47,9 @@ func (e errorFlow[T]) Subscribe(sub Subscribe[T]) Flux[T] {
 	if sub.OnError != nil {
 		sub.OnError(e.err)
 	}
+	if sub.Finally != nil {
+		sub.Finally(rx.SignalError)
+	}
 	return e
 }
 
diff --git a/rx/mono/mono.go b/rx/mono/mono.go
index 002c985..047ccc6 100644
--- a/rx/mono/mono.go
+++ b/rx/mono/mono.go
@@ -42,6 +42,9 @@ func (e errorSingle[T]) Subscribe(sub Subscribe[T]) Mono[T] {
 	if sub.OnError != nil {
 		sub.OnError(e.err)
 	}
+	if sub.Finally != nil {
+		sub.Finally(rx.SignalError)
+	}
 	return e
 }
 
@@ -74,6 +77,9 @@ func (j justSingle[T]) Subscribe(sub Subscribe[T]) Mono[T] {
 	if sub.OnSuccess != nil {
 		sub.OnSuccess(j.value)
 	}
+	if sub.Finally != nil {
+		sub.Finally(rx.SignalComplete)
+	}
 	return j
 }
 
-- 
2.43.0


From 8acf16d97a962f2866a1c36b7ebf2f53d429b2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:28 +0000
Subject: [PATCH 26/75] fix: Block on a flux without a subscriber

---
 rx/flux/flux_host.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rx/flux/flux_host.go b/rx/flux/flux_host.go
index bdf98f5..fca9dd0 100644
--- a/rx/flux/flux_host.go
+++ b/rx/flux/flux_host.go
@@ -26,7 +26,7 @@ func (s *subscriber[T]) doRequest(n int) {
 }
 
 func (f *flux[T]) Block(sub Subscribe[T]) (err error) {
-	if f.subscriber.closed {
+	if f.subscriber != nil && f.subscriber.closed {
 		return f.subscriber.err
 	}
 
-- 
2.43.0


From 9e4fa1a253da3fe7c961cef389270aadf6ab332d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:31 +0000
Subject: [PATCH 27/75] fix: signal an error when the transform of a mono fails

---
 rx/mono/mono.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/rx/mono/mono.go b/rx/mono/mono.go
index 047ccc6..6eb37a7 100644
--- a/rx/mono/mono.go
+++ b/rx/mono/mono.go
@@ -215,10 +215,21 @@ type mapper[S any, D any] struct {
 }
 
 func (b *mapper[S, D]) Subscribe(sub Subscribe[D]) Mono[D] {
+	failed := false
+	finally := sub.Finally
+	if finally != nil {
+		finally = func(signal rx.SignalType) {
+			if failed {
+				signal = rx.SignalError
+			}
+			sub.Finally(signal)
+		}
+	}
 	b.mono.Subscribe(Subscribe[S]{
 		OnSuccess: func(value S) {
 			converted, err := b.tx(value)
 			if err != nil {
+				failed = true
 				if sub.OnError != nil {
 					sub.OnError(err)
 				}
@@ -230,7 +241,7 @@ func (b *mapper[S, D]) Subscribe(sub Subscribe[D]) Mono[D] {
 		},
 		OnError:   sub.OnError,
 		OnRequest: sub.OnRequest,
-		Finally:   sub.Finally,
+		Finally:   finally,
 	})
 	return b
 }
-- 
2.43.0


From 210a5316b974e7d0dd9a5014340561d2200c15ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:34 +0000
Subject: [PATCH 28/75] fix: stop the upstream and signal once when the
 transform of a flux fails

---
 rx/flux/flux.go | 38 +++++++++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/rx/flux/flux.go b/rx/flux/flux.go
index 36c7efb..0309ff4 100644
--- a/rx/flux/flux.go
+++ b/rx/flux/flux.go
@@ -1,6 +1,8 @@
 package flux
 
 import (
+	"sync/atomic"
+
 	"github.com/nanobus/iota/go/rx"
 )
 
@@ -228,16 +230,18 @@ type mapper[S, D any] struct {
 	tx rx.Transform[S, D]
 }
 
-type closable[T any] interface {
-	Close()
-}
-
 func (m mapper[S, D]) Subscribe(sub Subscribe[D]) Flux[D] {
+	// After a failed transform, the error is the only and last signal.
+	var failed atomic.Bool
 	m.f.Subscribe(Subscribe[S]{
 		OnNext: func(value S) {
+			if failed.Load() {
+				return
+			}
 			if converted, err := m.tx(value); err != nil {
-				if close, ok := m.f.(closable[S]); ok {
-					close.Close()
+				failed.Store(true)
+				if s := m.f.Subscription(); s != nil {
+					s.Cancel()
 				}
 				if sub.OnError != nil {
 					sub.OnError(err)
@@ -249,11 +253,23 @@ func (m mapper[S, D]) Subscribe(sub Subscribe[D]) Flux[D] {
 				sub.OnNext(converted)
 			}
 		},
-		OnComplete: sub.OnComplete,
-		OnError:    sub.OnError,
-		OnRequest:  sub.OnRequest,
-		Finally:    sub.Finally,
-		NoRequest:  sub.NoRequest,
+		OnComplete: func() {
+			if !failed.Load() && sub.OnComplete != nil {
+				sub.OnComplete()
+			}
+		},
+		OnError: func(err error) {
+			if !failed.Load() && sub.OnError != nil {
+				sub.OnError(err)
+			}
+		},
+		OnRequest: sub.OnRequest,
+		Finally: func(signal rx.SignalType) {
+			if !failed.Load() && sub.Finally != nil {
+				sub.Finally(signal)
+			}
+		},
+		NoRequest: sub.NoRequest,
 	})
 	return m
 }
-- 
2.43.0


From 68773dadc71d580cba2a4c6701fdf4e46b73ee4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:47 +0000
Subject: [PATCH 29/75] fix: end a flux subscription once under concurrent
 requests and cancels

---
 rx/flux/flux.go             | 104 +++++++++++++++++++++++++++---------
 rx/flux/flux_host.go        |  14 +++--
 rx/flux/flux_webassembly.go |   4 +-
 3 files changed, 90 insertions(+), 32 deletions(-)

diff --git a/rx/flux/flux.go b/rx/flux/flux.go
index 0309ff4..f49e83b 100644
--- a/rx/flux/flux.go
+++ b/rx/flux/flux.go
@@ -1,6 +1,7 @@
 package flux
 
 import (
+	"sync"
 	"sync/atomic"
 
 	"github.com/nanobus/iota/go/rx"
@@ -76,7 +77,9 @@ func Create[T any](source Source[T]) Flux[T] {
 }
 
 type flux[T any] struct {
-	source     Source[T]
+	source Source[T]
+
+	mu         sync.Mutex // Guards the fields below and the subscriber state.
 	subscriber *subscriber[T]
 	callbacks  []rx.FnFinally
 }
@@ -91,24 +94,35 @@ func (f *flux[T]) Subscribe(sub Subscribe[T]) Flux[T] {
 		f:            f,
 		noRequest:    sub.NoRequest,
 	}
+	f.mu.Lock()
 	f.subscriber = &s
+	f.mu.Unlock()
 	f.source(&s)
 	s.handleOnSubscribe()
 	return f
 }
 
 func (f *flux[T]) Subscription() rx.Subscription {
+	f.mu.Lock()
+	defer f.mu.Unlock()
+	if f.subscriber == nil {
+		return nil
+	}
 	return f.subscriber
 }
 
 func (f *flux[T]) Async() {}
 
 func (f *flux[T]) Notify(fn rx.FnFinally) {
+	f.mu.Lock()
 	if f.subscriber != nil && f.subscriber.closed {
-		fn(f.subscriber.signal)
+		signal := f.subscriber.signal
+		f.mu.Unlock()
+		fn(signal)
 		return
 	}
 	f.callbacks = append(f.callbacks, fn)
+	f.mu.Unlock()
 }
 
 type subscriber[T any] struct {
@@ -130,64 +144,95 @@ type subscriber[T any] struct {
 }
 
 func (s *subscriber[T]) Next(value T) {
+	s.f.mu.Lock()
 	if s.closed {
+		s.f.mu.Unlock()
 		return
 	}
 	s.n--
+	s.f.mu.Unlock()
+
 	if s.doOnNext != nil {
 		s.doOnNext(value)
 	}
 
-	if s.n == 0 {
+	s.f.mu.Lock()
+	exhausted := s.n == 0
+	s.f.mu.Unlock()
+	if exhausted {
 		s.handleOnSubscribe()
 	}
 }
 
 func (s *subscriber[T]) Complete() {
-	if s.closed {
+	callbacks, ok := s.close(rx.SignalComplete, nil)
+	if !ok {
 		return
 	}
-	s.closed = true
 	if s.doOnComplete != nil {
 		s.doOnComplete()
 	}
-	s.finally(rx.SignalComplete)
+	s.finally(rx.SignalComplete, callbacks)
 }
 
 func (s *subscriber[T]) Error(err error) {
-	if s.closed {
+	callbacks, ok := s.close(rx.SignalError, err)
+	if !ok {
 		return
 	}
-	s.err = err
-	s.closed = true
 	if s.doOnError != nil {
 		s.doOnError(err)
 	}
-	s.finally(rx.SignalError)
+	s.finally(rx.SignalError, callbacks)
 }
 
-func (s *subscriber[T]) finally(signal rx.SignalType) {
+// close moves the subscriber into its final state. It returns the callbacks
+// to notify and false if the subscriber was closed before.
+func (s *subscriber[T]) close(signal rx.SignalType, err error) ([]rx.FnFinally, bool) {
+	s.f.mu.Lock()
+	defer s.f.mu.Unlock()
+	if s.closed {
+		return nil, false
+	}
+	s.closed = true
 	s.signal = signal
+	s.err = err
+	callbacks := s.f.callbacks
+	s.f.callbacks = nil
+	return callbacks, true
+}
+
+func (s *subscriber[T]) isClosed() bool {
+	s.f.mu.Lock()
+	defer s.f.mu.Unlock()
+	return s.closed
+}
+
+func (s *subscriber[T]) finally(signal rx.SignalType, callbacks []rx.FnFinally) {
 	if s.doFinally != nil {
 		s.doFinally(signal)
 	}
-	for _, fn := range s.f.callbacks {
+	for _, fn := range callbacks {
 		fn(signal)
 	}
 }
 
 func (s *subscriber[T]) OnSubscribe(sub OnSubscribe) {
+	s.f.mu.Lock()
 	if s.closed {
+		s.f.mu.Unlock()
 		return
 	}
 	s.sub = sub
-	if s.n > 0 {
-		s.doRequest(s.n)
+	n := s.n
+	s.f.mu.Unlock()
+	if n > 0 && sub.Request != nil {
+		s.doRequest(sub.Request, n)
 	}
 }
 
 func (s *subscriber[T]) handleOnSubscribe() {
-	if s.noRequest {
+	if s.noRequest || s.isClosed() {
 		return
 	}
 	if s.doOnRequest != nil {
@@ -198,24 +243,31 @@ func (s *subscriber[T]) handleOnSubscribe() {
 }
 
 func (s *subscriber[T]) Request(n int) {
+	s.f.mu.Lock()
+	if s.closed || n <= 0 {
+		s.f.mu.Unlock()
+		return
+	}
 	s.n += n
-	if s.sub.Request != nil {
-		s.doRequest(n)
+	request := s.sub.Request
+	s.f.mu.Unlock()
+	if request != nil {
+		s.doRequest(request, n)
 	}
 }
 
 func (s *subscriber[T]) Cancel() {
-	s.closed = true
-	if s.sub.Cancel != nil {
-		s.sub.Cancel()
+	callbacks, ok := s.close(rx.SignalCancel, nil)
+	if !ok {
+		return
 	}
-	if s.doFinally != nil {
-		s.doFinally(rx.SignalCancel)
+	s.f.mu.Lock()
+	cancel := s.sub.Cancel
+	s.f.mu.Unlock()
+	if cancel != nil {
+		cancel()
 	}
-}
-
-func (s *subscriber[T]) Close() {
-	s.closed = true
+	s.finally(rx.SignalCancel, callbacks)
 }
 
 func Map[S, D any](f Flux[S], tx rx.Transform[S, D]) Flux[D] {
diff --git a/rx/flux/flux_host.go b/rx/flux/flux_host.go
index fca9dd0..8ba6f1a 100644
--- a/rx/flux/flux_host.go
+++ b/rx/flux/flux_host.go
@@ -17,18 +17,24 @@ type mutex struct {
 	sync.Mutex
 }
 
-func (s *subscriber[T]) doRequest(n int) {
-	go func(n int) {
+func (s *subscriber[T]) doRequest(request func(n int), n int) {
+	go func() {
 		s.mu.Lock()
 		defer s.mu.Unlock()
-		s.sub.Request(n)
-	}(n)
+		if s.isClosed() {
+			return
+		}
+		request(n)
+	}()
 }
 
 func (f *flux[T]) Block(sub Subscribe[T]) (err error) {
+	f.mu.Lock()
 	if f.subscriber != nil && f.subscriber.closed {
+		defer f.mu.Unlock()
 		return f.subscriber.err
 	}
+	f.mu.Unlock()
 
 	return Block(Flux[T](f), sub)
 }
diff --git a/rx/flux/flux_webassembly.go b/rx/flux/flux_webassembly.go
index 08ca2f7..6867da6 100644
--- a/rx/flux/flux_webassembly.go
+++ b/rx/flux/flux_webassembly.go
@@ -8,6 +8,6 @@ type Blockable[T any] interface {
 
 type mutex struct{}
 
-func (s *subscriber[T]) doRequest(n int) {
-	s.sub.Request(n)
+func (s *subscriber[T]) doRequest(request func(n int), n int) {
+	request(n)
 }
-- 
2.43.0


From d8b545733fb747743ebc6954a6618b494e7fcbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:50 +0000
Subject: [PATCH 30/75] fix: resolve a mono once under concurrent completion
 and Notify

---
 rx/mono/mono.go      | 77 +++++++++++++++++++++++++++++++-------------
 rx/mono/mono_host.go |  4 +--
 2 files changed, 57 insertions(+), 24 deletions(-)

diff --git a/rx/mono/mono.go b/rx/mono/mono.go
index 6eb37a7..742a863 100644
--- a/rx/mono/mono.go
+++ b/rx/mono/mono.go
@@ -1,6 +1,8 @@
 package mono
 
 import (
+	"sync"
+
 	"github.com/nanobus/iota/go/rx"
 )
 
@@ -105,7 +107,9 @@ func Create[T any](source Source[T]) Mono[T] {
 }
 
 type mono[T any] struct {
-	source     Source[T]
+	source Source[T]
+
+	mu         sync.Mutex // Guards the fields below and the subscriber state.
 	subscriber *subscriber[T]
 	callbacks  []rx.FnFinally
 }
@@ -118,7 +122,9 @@ func (m *mono[T]) Subscribe(sub Subscribe[T]) Mono[T] {
 		doOnSubscribe: sub.OnRequest,
 		doFinally:     sub.Finally,
 	}
+	m.mu.Lock()
 	m.subscriber = &wrapper
+	m.mu.Unlock()
 	m.source(&wrapper)
 	return m
 }
@@ -127,24 +133,35 @@ func (m *mono[T]) Async() {
 }
 
 func (m *mono[T]) Notify(fn rx.FnFinally) {
-	// if m.subscriber == nil {
-	// 	wrapper := subscriber[T]{}
-	// 	m.subscriber = &wrapper
-	// 	m.source(&wrapper)
-	// }
+	m.mu.Lock()
 	if m.subscriber != nil && m.subscriber.closed {
-		fn(m.subscriber.signal)
+		signal := m.subscriber.signal
+		m.mu.Unlock()
+		fn(signal)
 		return
 	}
 
 	m.callbacks = append(m.callbacks, fn)
+	m.mu.Unlock()
 }
 
 func (m *mono[T]) Get() (ret T, err error) {
-	if !m.subscriber.closed {
+	value, err, closed := m.result()
+	if !closed {
 		panic("mono: Get called before completion")
 	}
-	return m.subscriber.value, m.subscriber.err
+	return value, err
+}
+
+// result returns the value or error of the last subscription and whether it
+// is completed.
+func (m *mono[T]) result() (value T, err error, closed bool) {
+	m.mu.Lock()
+	defer m.mu.Unlock()
+	if m.subscriber == nil || !m.subscriber.closed {
+		return value, nil, false
+	}
+	return m.subscriber.value, m.subscriber.err, true
 }
 
 type subscriber[T any] struct {
@@ -161,45 +178,61 @@ type subscriber[T any] struct {
 }
 
 func (s *subscriber[T]) Success(value T) {
-	if s.closed {
+	callbacks, ok := s.close(rx.SignalComplete, value, nil)
+	if !ok {
 		return
 	}
-	s.value = value
-	s.closed = true
 	if s.doOnSuccess != nil {
 		s.doOnSuccess(value)
 	}
-	s.finally(rx.SignalComplete)
+	s.finally(rx.SignalComplete, callbacks)
 }
 
 func (s *subscriber[T]) Error(err error) {
-	if s.closed {
+	var value T
+	callbacks, ok := s.close(rx.SignalError, value, err)
+	if !ok {
 		return
 	}
-	s.err = err
-	s.closed = true
 	if s.doOnError != nil {
 		s.doOnError(err)
 	}
-	s.finally(rx.SignalError)
+	s.finally(rx.SignalError, callbacks)
 }
 
-func (s *subscriber[T]) finally(signal rx.SignalType) {
+// close moves the subscriber into its final state. It returns the callbacks
+// to notify and false if the subscriber was closed before.
+func (s *subscriber[T]) close(signal rx.SignalType, value T, err error) ([]rx.FnFinally, bool) {
+	s.m.mu.Lock()
+	defer s.m.mu.Unlock()
+	if s.closed {
+		return nil, false
+	}
+	s.closed = true
 	s.signal = signal
+	s.value = value
+	s.err = err
+	callbacks := s.m.callbacks
+	s.m.callbacks = nil
+	return callbacks, true
+}
+
+func (s *subscriber[T]) finally(signal rx.SignalType, callbacks []rx.FnFinally) {
 	if s.doFinally != nil {
 		s.doFinally(signal)
 	}
-	for _, fn := range s.m.callbacks {
+	for _, fn := range callbacks {
 		fn(signal)
 	}
 }
 
 func (s *subscriber[T]) Cancel() {
-	if s.closed {
+	var value T
+	callbacks, ok := s.close(rx.SignalCancel, value, nil)
+	if !ok {
 		return
 	}
-	s.closed = true
-	s.finally(rx.SignalCancel)
+	s.finally(rx.SignalCancel, callbacks)
 }
 
 func Map[S any | ~[]any, D any](mono Mono[S], tx rx.Transform[S, D]) Mono[D] {
diff --git a/rx/mono/mono_host.go b/rx/mono/mono_host.go
index 72e0c0d..4910429 100644
--- a/rx/mono/mono_host.go
+++ b/rx/mono/mono_host.go
@@ -8,8 +8,8 @@ type Blockable[T any] interface {
 }
 
 func (s *mono[T]) Block() (ret T, err error) {
-	if s.subscriber != nil && s.subscriber.closed {
-		return s.subscriber.value, s.subscriber.err
+	if value, err, closed := s.result(); closed {
+		return value, err
 	}
 
 	done := make(chan struct{})
-- 
2.43.0


From 8688b96011e54318b55b6c891c4da397fefbb054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:02 +0000
Subject: [PATCH 31/75] fix: keep the result of a mono processor that resolves
 before it is subscribed

---
 rx/mono/processor.go | 54 +++++++++++++++++++++++++++++++++-----------
 1 file changed, 41 insertions(+), 13 deletions(-)

diff --git a/rx/mono/processor.go b/rx/mono/processor.go
index a7bb35d..ca9cae1 100644
--- a/rx/mono/processor.go
+++ b/rx/mono/processor.go
@@ -1,5 +1,9 @@
 package mono
 
+import (
+	"sync"
+)
+
 type Processor[T any] interface {
 	Mono[T]
 	Sink[T]
@@ -7,19 +11,28 @@ type Processor[T any] interface {
 
 type ProcessorImpl[T any] struct {
 	Mono[T]
+
+	mu      sync.Mutex // Guards the fields below.
 	sink    Sink[T]
-	success *T
+	done    bool
+	success T
 	err     error
 }
 
 func NewProcessor[T any]() *ProcessorImpl[T] {
 	p := &ProcessorImpl[T]{}
 	p.Mono = Create(func(sink Sink[T]) {
+		p.mu.Lock()
 		p.sink = sink
-		if p.success != nil {
-			sink.Success(*p.success)
-		} else if p.err != nil {
-			sink.Error(p.err)
+		done, success, err := p.done, p.success, p.err
+		p.mu.Unlock()
+		if !done {
+			return
+		}
+		if err != nil {
+			sink.Error(err)
+		} else {
+			sink.Success(success)
 		}
 	})
 
@@ -27,17 +40,32 @@ func NewProcessor[T any]() *ProcessorImpl[T] {
 }
 
 func (p *ProcessorImpl[T]) Success(value T) {
-	if p.sink != nil {
-		p.sink.Success(value)
-	} else {
-		p.success = &value
-	}
+	p.resolve(value, nil)
 }
 
 func (p *ProcessorImpl[T]) Error(err error) {
-	if p.sink != nil {
-		p.sink.Error(err)
+	var value T
+	p.resolve(value, err)
+}
+
+// resolve keeps the first result for subscribers that are yet to come and
+// hands it to the current one.
+func (p *ProcessorImpl[T]) resolve(value T, err error) {
+	p.mu.Lock()
+	if p.done {
+		p.mu.Unlock()
+		return
+	}
+	p.done = true
+	p.success, p.err = value, err
+	sink := p.sink
+	p.mu.Unlock()
+	if sink == nil {
+		return
+	}
+	if err != nil {
+		sink.Error(err)
 	} else {
-		p.err = err
+		sink.Success(value)
 	}
 }
-- 
2.43.0


From ead8c9b3f6ea1d815025d0db53bdc2d99572e3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:10 +0000
Subject: [PATCH 32/75] fix: keep the terminal signal of a flux processor for
 late subscribers

---
 rx/flux/processor.go | 62 +++++++++++++++++++++++++++++++++-----------
 1 file changed, 47 insertions(+), 15 deletions(-)

diff --git a/rx/flux/processor.go b/rx/flux/processor.go
index 10770a6..571219c 100644
--- a/rx/flux/processor.go
+++ b/rx/flux/processor.go
@@ -1,5 +1,9 @@
 package flux
 
+import (
+	"sync"
+)
+
 type Processor[T any] interface {
 	Flux[T]
 	Sink[T]
@@ -7,17 +11,26 @@ type Processor[T any] interface {
 
 type processor[T any] struct {
 	Flux[T]
-	sink Sink[T]
-	sub  *OnSubscribe
+
+	mu       sync.Mutex // Guards the fields below.
+	sink     Sink[T]
+	sub      *OnSubscribe
+	terminal func(Sink[T]) // The signal that ended the stream.
 }
 
 func NewProcessor[T any]() Processor[T] {
 	p := &processor[T]{}
 	p.Flux = Create(func(sink Sink[T]) {
+		p.mu.Lock()
 		p.sink = sink
-		if p.sub != nil {
-			sink.OnSubscribe(*p.sub)
-			p.sub = nil
+		sub, terminal := p.sub, p.terminal
+		p.sub = nil
+		p.mu.Unlock()
+		if sub != nil {
+			sink.OnSubscribe(*sub)
+		}
+		if terminal != nil {
+			terminal(sink)
 		}
 	})
 
@@ -25,27 +38,46 @@ func NewProcessor[T any]() Processor[T] {
 }
 
 func (p *processor[T]) Next(value T) {
-	if p.sink != nil {
-		p.sink.Next(value)
+	p.mu.Lock()
+	sink := p.sink
+	p.mu.Unlock()
+	if sink != nil {
+		sink.Next(value)
 	}
 }
 
 func (p *processor[T]) Complete() {
-	if p.sink != nil {
-		p.sink.Complete()
-	}
+	p.terminate(func(sink Sink[T]) { sink.Complete() })
 }
 
 func (p *processor[T]) Error(err error) {
-	if p.sink != nil {
-		p.sink.Error(err)
+	p.terminate(func(sink Sink[T]) { sink.Error(err) })
+}
+
+// terminate keeps the first terminal signal for subscribers that are yet to
+// come and hands it to the current one.
+func (p *processor[T]) terminate(terminal func(Sink[T])) {
+	p.mu.Lock()
+	if p.terminal != nil {
+		p.mu.Unlock()
+		return
+	}
+	p.terminal = terminal
+	sink := p.sink
+	p.mu.Unlock()
+	if sink != nil {
+		terminal(sink)
 	}
 }
 
 func (p *processor[T]) OnSubscribe(sub OnSubscribe) {
-	if p.sink != nil {
-		p.sink.OnSubscribe(sub)
-	} else {
+	p.mu.Lock()
+	sink := p.sink
+	if sink == nil {
 		p.sub = &sub
 	}
+	p.mu.Unlock()
+	if sink != nil {
+		sink.OnSubscribe(sub)
+	}
 }
-- 
2.43.0


From a3117e8ae38bfb35655ddd9bcd0f879f0db52b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:42 +0000
Subject: [PATCH 33/75] fix: run awaited monos and fluxes nobody subscribed to

---
 rx/flux/flux.go | 11 ++++++++++-
 rx/mono/mono.go |  8 ++++++++
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/rx/flux/flux.go b/rx/flux/flux.go
index f49e83b..db52d6a 100644
--- a/rx/flux/flux.go
+++ b/rx/flux/flux.go
@@ -111,7 +111,16 @@ func (f *flux[T]) Subscription() rx.Subscription {
 	return f.subscriber
 }
 
-func (f *flux[T]) Async() {}
+func (f *flux[T]) Async() {
+	// If treated like an awaitable and not subscribed,
+	// then subscribe without callbacks.
+	f.mu.Lock()
+	subscribed := f.subscriber != nil
+	f.mu.Unlock()
+	if !subscribed {
+		f.Subscribe(Subscribe[T]{})
+	}
+}
 
 func (f *flux[T]) Notify(fn rx.FnFinally) {
 	f.mu.Lock()
diff --git a/rx/mono/mono.go b/rx/mono/mono.go
index 742a863..2cd0c96 100644
--- a/rx/mono/mono.go
+++ b/rx/mono/mono.go
@@ -130,6 +130,14 @@ func (m *mono[T]) Subscribe(sub Subscribe[T]) Mono[T] {
 }
 
 func (m *mono[T]) Async() {
+	// If treated like an awaitable and not subscribed,
+	// then subscribe without callbacks.
+	m.mu.Lock()
+	subscribed := m.subscriber != nil
+	m.mu.Unlock()
+	if !subscribed {
+		m.Subscribe(Subscribe[T]{})
+	}
 }
 
 func (m *mono[T]) Notify(fn rx.FnFinally) {
-- 
2.43.0


From a5aff68f1d8f570c7ae3f6c465ef10c03c6a9cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:07 +0000
Subject: [PATCH 34/75] fix: run every step of a flow once and in order

---
 rx/flow/flow.go | 96 ++++++++++++++++++++++++++++++++-----------------
 1 file changed, 64 insertions(+), 32 deletions(-)

diff --git a/rx/flow/flow.go b/rx/flow/flow.go
index 874f617..3352edd 100644
--- a/rx/flow/flow.go
+++ b/rx/flow/flow.go
@@ -1,6 +1,9 @@
 package flow
 
 import (
+	"sync"
+	"sync/atomic"
+
 	"github.com/nanobus/iota/go/rx"
 	"github.com/nanobus/iota/go/rx/await"
 	"github.com/nanobus/iota/go/rx/flux"
@@ -9,28 +12,46 @@ import (
 
 type (
 	Flow[T any] struct {
-		steps    []StepFn
 		monoSink mono.Sink[T]
 		fluxSink flux.Sink[T]
 
+		mu         sync.Mutex // Guards the fields below.
+		steps      []StepFn
 		ended      bool
-		completed  int
-		awaitables []await.Awaitable
+		terminated bool
 	}
 
 	StepFn func() (await.Group, error)
 )
 
 func (f *Flow[T]) End() (await.Group, error) {
+	f.mu.Lock()
+	defer f.mu.Unlock()
 	f.ended = true
 	return nil, nil
 }
 
+// terminate records that the result of the flow is known.
+func (f *Flow[T]) terminate() {
+	f.mu.Lock()
+	defer f.mu.Unlock()
+	f.terminated = true
+}
+
+// stopped returns whether a step without awaitables was the last one.
+func (f *Flow[T]) stopped() bool {
+	f.mu.Lock()
+	defer f.mu.Unlock()
+	return f.ended || f.terminated
+}
+
 func New[T any]() *Flow[T] {
 	return &Flow[T]{}
 }
 
 func (f *Flow[T]) Steps(steps ...StepFn) *Flow[T] {
+	f.mu.Lock()
+	defer f.mu.Unlock()
 	f.steps = append(f.steps, steps...)
 	return f
 }
@@ -46,6 +67,7 @@ func (f *Flow[T]) Complete() (await.Group, error) {
 	if f.fluxSink == nil {
 		panic("Complete is only called for flux retruns")
 	}
+	f.terminate()
 	f.fluxSink.Complete()
 
 	return nil, nil
@@ -55,12 +77,14 @@ func (f *Flow[T]) Success(value T) (await.Group, error) {
 	if f.monoSink == nil {
 		panic("success is only called for mono retruns")
 	}
+	f.terminate()
 	f.monoSink.Success(value)
 
 	return nil, nil
 }
 
 func (f *Flow[T]) Error(err error) (await.Group, error) {
+	f.terminate()
 	if f.monoSink != nil {
 		f.monoSink.Error(err)
 	} else if f.fluxSink != nil {
@@ -84,39 +108,47 @@ func (f *Flow[T]) Flux() flux.Flux[T] {
 	})
 }
 
-func (f *Flow[T]) next() {
-	if len(f.steps) == 0 {
-		return
+// pop takes the step that is to run next, if any.
+func (f *Flow[T]) pop() StepFn {
+	f.mu.Lock()
+	defer f.mu.Unlock()
+	if f.ended || len(f.steps) == 0 {
+		return nil
 	}
-
-	f.completed = 0
 	step := f.steps[0]
-	awaitables, err := step()
-	if err != nil {
-		if f.monoSink != nil {
-			f.monoSink.Error(err)
-		} else if f.fluxSink != nil {
-			f.fluxSink.Error(err)
-		}
-		return
-	}
-
-	if f.ended {
-		return
-	}
-
-	f.awaitables = awaitables
-	for _, a := range f.awaitables {
-		a.Async() // Ensure task is running.
-		a.Notify(f.check)
-	}
-
 	f.steps = f.steps[1:]
+	return step
 }
 
-func (f *Flow[T]) check(rx.SignalType) {
-	f.completed++
-	if f.completed >= len(f.awaitables) {
-		f.next()
+func (f *Flow[T]) next() {
+	for step := f.pop(); step != nil; step = f.pop() {
+		awaitables, err := step()
+		if err != nil {
+			f.Error(err)
+			return
+		}
+
+		if len(awaitables) == 0 {
+			if f.stopped() {
+				return
+			}
+			continue // Nothing to wait for.
+		}
+
+		// Also wait for the last Notify below, so that awaitables that are
+		// already completed do not start the next step inside of it.
+		remaining := int32(len(awaitables)) + 1
+		check := func(rx.SignalType) {
+			if atomic.AddInt32(&remaining, -1) == 0 {
+				f.next()
+			}
+		}
+		for _, a := range awaitables {
+			a.Async() // Ensure task is running.
+			a.Notify(check)
+		}
+		if atomic.AddInt32(&remaining, -1) != 0 {
+			return
+		}
 	}
 }
-- 
2.43.0


From 5417356a1da834c7475059810d3496b7829e1291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:36 +0000
Subject: [PATCH 35/75] fix: resolve requests that cannot be sent or complete
 without a result

---
 proxy/mono.go | 49 ++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 42 insertions(+), 7 deletions(-)

diff --git a/proxy/mono.go b/proxy/mono.go
index 793a2a6..4fd996e 100644
--- a/proxy/mono.go
+++ b/proxy/mono.go
@@ -2,6 +2,8 @@ package proxy
 
 import (
 	"context"
+	"errors"
+	"sync"
 
 	"github.com/nanobus/iota/go/internal/frames"
 	"github.com/nanobus/iota/go/payload"
@@ -9,6 +11,8 @@ import (
 	"github.com/nanobus/iota/go/rx/mono"
 )
 
+var errNoResult = errors.New("stream completed without a result")
+
 func Mono(ctx context.Context, request frames.RequestPayload, sendFrame func(frames.Frame) error, register func(Stream)) mono.Mono[payload.Payload] {
 	m := mono.NewProcessor[payload.Payload]()
 	ss := streamMono{
@@ -25,10 +29,13 @@ type streamMono struct {
 	ctx context.Context
 	mono.Processor[payload.Payload]
 
+	request   frames.RequestPayload
+	sendFrame func(frames.Frame) error
+	register  func(Stream)
+
+	mu         sync.Mutex // Guards the fields below.
 	subscribed bool
-	request    frames.RequestPayload
-	sendFrame  func(frames.Frame) error
-	register   func(Stream)
+	done       bool
 }
 
 func (s *streamMono) Context() context.Context {
@@ -40,21 +47,40 @@ func (s *streamMono) StreamID() uint32 {
 }
 
 func (s *streamMono) OnNext(p payload.Payload) {
+	s.end()
 	s.Processor.Success(p)
 }
 
 func (s *streamMono) OnComplete() {
-	// Not implemented
+	// The result, if any, was signaled before.
+	s.OnError(errNoResult)
 }
 
 func (s *streamMono) OnError(err error) {
+	s.end()
 	s.Processor.Error(err)
 }
 
+func (s *streamMono) end() {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+	s.done = true
+}
+
+// Done returns whether the request is resolved.
+func (s *streamMono) Done() bool {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+	return s.done
+}
+
 func (s *streamMono) Async() {
 	// If treated like an awaitable and not subscribed,
 	// then subscribe without callbacks.
-	if !s.subscribed {
+	s.mu.Lock()
+	subscribed := s.subscribed
+	s.mu.Unlock()
+	if !subscribed {
 		s.Subscribe(mono.Subscribe[payload.Payload]{})
 	}
 }
@@ -64,9 +90,18 @@ func (s *streamMono) Notify(fn rx.FnFinally) {
 }
 
 func (s *streamMono) Subscribe(sub mono.Subscribe[payload.Payload]) mono.Mono[payload.Payload] {
+	s.mu.Lock()
+	first := !s.subscribed
 	s.subscribed = true
-	s.register(s)
+	s.mu.Unlock()
+	if first {
+		s.register(s)
+	}
 	s.Processor.Subscribe(sub)
-	s.sendFrame(&s.request)
+	if first {
+		if err := s.sendFrame(&s.request); err != nil {
+			s.OnError(err)
+		}
+	}
 	return s
 }
-- 
2.43.0


From 79fe57d224a646bcc8906d6493322cf77e77b59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:39 +0000
Subject: [PATCH 36/75] fix: track demand, cancellation and both directions of
 proxied streams

---
 proxy/flux.go      | 222 +++++++++++++++++++++++++++++++++++----------
 proxy/flux_host.go |  13 +++
 2 files changed, 187 insertions(+), 48 deletions(-)
 create mode 100644 proxy/flux_host.go

diff --git a/proxy/flux.go b/proxy/flux.go
index 6f0f588..2897d5a 100644
--- a/proxy/flux.go
+++ b/proxy/flux.go
@@ -2,6 +2,7 @@ package proxy
 
 import (
 	"context"
+	"sync"
 
 	"github.com/nanobus/iota/go/internal/frames"
 	"github.com/nanobus/iota/go/payload"
@@ -18,7 +19,6 @@ func Flux(ctx context.Context, request frames.RequestPayload, in flux.Flux[paylo
 		in:        in,
 		sendFrame: sendFrame,
 		register:  register,
-		first:     true,
 	}
 	p.OnSubscribe(flux.OnSubscribe{
 		Request: ss.Request,
@@ -31,13 +31,21 @@ type streamFlux struct {
 	ctx context.Context
 	flux.Processor[payload.Payload]
 
+	request   frames.RequestPayload
+	in        flux.Flux[payload.Payload]
+	sendFrame func(frames.Frame) error
+	register  func(Stream)
+
+	mu         sync.Mutex // Guards the fields below.
 	subscribed bool
-	request    frames.RequestPayload
-	in         flux.Flux[payload.Payload]
-	sendFrame  func(frames.Frame) error
-	register   func(Stream)
-	first      bool
-	complete   bool
+	requested  bool            // The request frame is on its way.
+	sent       bool            // The request frame is sent.
+	canceled   bool            // No more signals are wanted.
+	complete   bool            // The peer has ended its stream.
+	inSub      rx.Subscription // Subscription to the input, once subscribed.
+	inDemand   int             // Demand for the input until it is subscribed.
+	inCanceled bool            // The peer does not want the input.
+	inDone     bool            // The input has ended.
 }
 
 func (s *streamFlux) Context() context.Context {
@@ -53,18 +61,35 @@ func (s *streamFlux) OnNext(p payload.Payload) {
 }
 
 func (s *streamFlux) OnComplete() {
-	s.Processor.Complete()
+	s.mu.Lock()
 	s.complete = true
+	s.mu.Unlock()
+	s.Processor.Complete()
 }
 
 func (s *streamFlux) OnError(err error) {
+	s.mu.Lock()
+	s.complete = true
+	s.mu.Unlock()
+	// The error ends the input as well.
+	s.cancelInput()
 	s.Processor.Error(err)
 }
 
+// Done returns whether the streams of both directions have ended.
+func (s *streamFlux) Done() bool {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+	return (s.complete || s.canceled) && (s.in == nil || s.inDone || s.inCanceled)
+}
+
 func (s *streamFlux) Async() {
 	// If treated like an awaitable and not subscribed,
 	// then subscribe without callbacks.
-	if !s.subscribed {
+	s.mu.Lock()
+	subscribed := s.subscribed
+	s.mu.Unlock()
+	if !subscribed {
 		s.Subscribe(flux.Subscribe[payload.Payload]{})
 	}
 }
@@ -74,61 +99,162 @@ func (s *streamFlux) Notify(fn rx.FnFinally) {
 }
 
 func (s *streamFlux) Request(n int) {
-	if s.complete {
+	s.mu.Lock()
+	if s.complete || s.canceled {
+		s.mu.Unlock()
 		return
 	}
-	if s.first {
-		s.request.InitialN = uint32(n)
-		s.first = false
-		s.sendFrame(&s.request)
-
-		if s.in != nil {
-			s.in.Subscribe(flux.Subscribe[payload.Payload]{
-				OnNext: func(p payload.Payload) {
-					s.sendFrame(&frames.Payload{
-						StreamID: s.request.StreamID,
-						Metadata: p.Metadata(),
-						Data:     p.Data(),
-						Next:     true,
-					})
-				},
-				OnComplete: func() {
-					s.sendFrame(&frames.Payload{
-						StreamID: s.request.StreamID,
-						Complete: true,
-					})
-				},
-				OnError: func(err error) {
-					s.sendFrame(&frames.Error{
-						StreamID: s.request.StreamID,
-						Data:     err.Error(),
-					})
-				},
-				NoRequest: true,
-			})
-		}
-	} else {
-		s.sendFrame(&frames.RequestN{
+	first := !s.requested
+	s.requested = true
+	s.mu.Unlock()
+
+	if !first {
+		s.send(&frames.RequestN{
 			StreamID: s.request.StreamID,
 			N:        uint32(n),
 		})
+		return
+	}
+
+	s.register(s)
+	s.request.InitialN = uint32(n)
+	if !s.send(&s.request) {
+		return
+	}
+
+	s.mu.Lock()
+	s.sent = true
+	canceled := s.canceled
+	s.mu.Unlock()
+	if canceled {
+		// Canceled while the request was being sent.
+		s.send(&frames.Cancel{
+			StreamID: s.request.StreamID,
+		})
+		return
+	}
+
+	if s.in != nil {
+		s.subscribeInput()
 	}
 }
 
-func (s *streamFlux) Cancel() {
-	s.sendFrame(&frames.Cancel{
-		StreamID: s.request.StreamID,
+func (s *streamFlux) subscribeInput() {
+	s.in.Subscribe(flux.Subscribe[payload.Payload]{
+		OnNext: func(p payload.Payload) {
+			s.send(&frames.Payload{
+				StreamID: s.request.StreamID,
+				Metadata: p.Metadata(),
+				Data:     p.Data(),
+				Next:     true,
+			})
+		},
+		OnComplete: func() {
+			s.endInput()
+			s.send(&frames.Payload{
+				StreamID: s.request.StreamID,
+				Complete: true,
+			})
+		},
+		OnError: func(err error) {
+			s.endInput()
+			s.send(&frames.Error{
+				StreamID: s.request.StreamID,
+				Data:     err.Error(),
+			})
+		},
+		NoRequest: true,
 	})
+
+	// Pass on what the peer has asked for in the meantime.
+	sub := s.in.Subscription()
+	s.mu.Lock()
+	s.inSub = sub
+	n, canceled := s.inDemand, s.inCanceled
+	s.inDemand = 0
+	s.mu.Unlock()
+	if sub == nil {
+		return
+	}
+	if canceled {
+		sub.Cancel()
+	} else if n > 0 {
+		sub.Request(n)
+	}
+}
+
+func (s *streamFlux) endInput() {
+	s.mu.Lock()
+	s.inDone = true
+	s.mu.Unlock()
+}
+
+// send sends a frame. The stream ends with the error if that is not possible.
+func (s *streamFlux) send(f frames.Frame) bool {
+	err := s.sendFrame(f)
+	if err == nil {
+		return true
+	}
+	s.OnError(err)
+	if f != frames.Frame(&s.request) {
+		s.sendFrame(&frames.Cancel{
+			StreamID: s.request.StreamID,
+		})
+	}
+	return false
+}
+
+func (s *streamFlux) Cancel() {
+	s.mu.Lock()
+	if s.complete || s.canceled {
+		s.mu.Unlock()
+		return
+	}
+	s.canceled = true
+	sent := s.sent
+	s.mu.Unlock()
+	s.cancelInput()
+	if sent {
+		s.send(&frames.Cancel{
+			StreamID: s.request.StreamID,
+		})
+	}
 }
 
 func (s *streamFlux) DoRequest(n int) {
-	sub := s.in.Subscription()
-	sub.Request(n)
+	if s.in == nil || n <= 0 {
+		return
+	}
+	s.mu.Lock()
+	sub := s.inSub
+	if sub == nil {
+		s.inDemand += n
+	}
+	s.mu.Unlock()
+	if sub != nil {
+		sub.Request(n)
+	}
+}
+
+// DoCancel stops the input when the peer is not interested in it.
+func (s *streamFlux) DoCancel() {
+	s.cancelInput()
+}
+
+func (s *streamFlux) cancelInput() {
+	s.mu.Lock()
+	s.inCanceled = true
+	sub := s.inSub
+	s.mu.Unlock()
+	if sub != nil {
+		sub.Cancel()
+	}
 }
 
 func (s *streamFlux) Subscribe(sub flux.Subscribe[payload.Payload]) flux.Flux[payload.Payload] {
+	s.mu.Lock()
 	s.subscribed = true
-	s.register(s)
+	s.mu.Unlock()
 	s.Processor.Subscribe(sub)
 	return s
 }
diff --git a/proxy/flux_host.go b/proxy/flux_host.go
new file mode 100644
index 0000000..f5c2b3a
--- /dev/null
+++ b/proxy/flux_host.go
@@ -0,0 +1,13 @@
+//go:build !purego && !appengine && !wasm && !tinygo.wasm && !wasi
+// +build !purego,!appengine,!wasm,!tinygo.wasm,!wasi
+
+package proxy
+
+import (
+	"github.com/nanobus/iota/go/payload"
+	"github.com/nanobus/iota/go/rx/flux"
+)
+
+func (s *streamFlux) Block(sub flux.Subscribe[payload.Payload]) error {
+	return flux.Block[payload.Payload](s, sub)
+}
-- 
2.43.0


From d3cd251a46ab02cf976fce2e9f4e634a8bbdd47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:55 +0000
Subject: [PATCH 37/75] fix: end streams of a handler once per direction, on
 cancel and on close

---
 handler/caller.go  |  14 +-
 handler/handler.go | 384 +++++++++++++++++++++++++++++++++++----------
 proxy/lookup.go    |  13 ++
 3 files changed, 323 insertions(+), 88 deletions(-)

diff --git a/handler/caller.go b/handler/caller.go
index 19fc0cf..c780b49 100644
--- a/handler/caller.go
+++ b/handler/caller.go
@@ -20,8 +20,14 @@ var _ = (invoke.Caller)((*Handler)(nil))
 // export, for which it replies not_found.
 const operationNotFound = math.MaxUint32
 
+func (i *Handler) operations() operations.Table {
+	i.mu.RLock()
+	defer i.mu.RUnlock()
+	return i.opTable
+}
+
 func (i *Handler) ImportRequestResponse(namespace, operation string) uint32 {
-	for _, op := range i.opTable {
+	for _, op := range i.operations() {
 		if op.Direction == operations.Export &&
 			op.Type == operations.RequestResponse &&
 			op.Namespace == namespace &&
@@ -33,7 +39,7 @@ func (i *Handler) ImportRequestResponse(namespace, operation string) uint32 {
 }
 
 func (i *Handler) ImportFireAndForget(namespace, operation string) uint32 {
-	for _, op := range i.opTable {
+	for _, op := range i.operations() {
 		if op.Direction == operations.Export &&
 			op.Type == operations.FireAndForget &&
 			op.Namespace == namespace &&
@@ -45,7 +51,7 @@ func (i *Handler) ImportFireAndForget(namespace, operation string) uint32 {
 }
 
 func (i *Handler) ImportRequestStream(namespace, operation string) uint32 {
-	for _, op := range i.opTable {
+	for _, op := range i.operations() {
 		if op.Direction == operations.Export &&
 			op.Type == operations.RequestStream &&
 			op.Namespace == namespace &&
@@ -57,7 +63,7 @@ func (i *Handler) ImportRequestStream(namespace, operation string) uint32 {
 }
 
 func (i *Handler) ImportRequestChannel(namespace, operation string) uint32 {
-	for _, op := range i.opTable {
+	for _, op := range i.operations() {
 		if op.Direction == operations.Export &&
 			op.Type == operations.RequestChannel &&
 			op.Namespace == namespace &&
diff --git a/handler/handler.go b/handler/handler.go
index 73cb055..3fd78f0 100644
--- a/handler/handler.go
+++ b/handler/handler.go
@@ -4,7 +4,7 @@ import (
 	"context"
 	"encoding/binary"
 	"errors"
-	"fmt"
+	"sync"
 
 	"github.com/nanobus/iota/go/internal/frames"
 	"github.com/nanobus/iota/go/internal/socket"
@@ -19,9 +19,13 @@ import (
 
 type FrameSender func(f frames.Frame) error
 
+var (
+	errNotConnected     = errors.New("not connected")
+	errConnectionClosed = errors.New("connection closed")
+)
+
 type Handler struct {
 	ctx          context.Context
-	sendFrame    FrameSender
 	streamIDs    uint64
 	nextStreamID func() (id uint32, firstLoop bool)
 
@@ -41,7 +45,9 @@ type Handler struct {
 	importedRS   []invoke.RequestStreamHandler
 	importedRC   []invoke.RequestChannelHandler
 
-	opTable operations.Table
+	mu        sync.RWMutex // Guards the fields below.
+	sendFrame FrameSender
+	opTable   operations.Table
 }
 
 // type fragmentedPayload struct {
@@ -72,10 +78,21 @@ func New(ctx context.Context, mode Mode) *Handler {
 }
 
 func (i *Handler) SetFrameSender(sendFrame func(f frames.Frame) error) {
+	i.mu.Lock()
+	defer i.mu.Unlock()
 	i.sendFrame = sendFrame
 }
 
+// Close ends all streams after the connection is lost.
 func (i *Handler) Close() error {
+	streams := append(i.guestStreams.RemoveAll(), i.hostStreams.RemoveAll()...)
+	for _, s := range streams {
+		if c, ok := s.(interface{ Close(err error) }); ok {
+			c.Close(errConnectionClosed)
+		} else {
+			s.OnError(errConnectionClosed)
+		}
+	}
 	return nil
 }
 
@@ -103,8 +120,41 @@ func (i *Handler) getStream(streamID uint32) (proxy.Stream, bool) {
 	}
 }
 
+// releaseStream removes a stream once both directions have ended.
+func (i *Handler) releaseStream(streamID uint32) {
+	s, ok := i.getStream(streamID)
+	if !ok {
+		return
+	}
+	if d, ok := s.(interface{ Done() bool }); ok && !d.Done() {
+		return
+	}
+	i.removeStream(streamID)
+}
+
 func (i *Handler) SendFrame(f frames.Frame) error {
-	return i.sendFrame(f)
+	i.mu.RLock()
+	sendFrame := i.sendFrame
+	i.mu.RUnlock()
+
+	err := errNotConnected
+	if sendFrame != nil {
+		err = sendFrame(f)
+	}
+
+	switch v := f.(type) {
+	case *frames.RequestPayload:
+		if err != nil {
+			i.removeStream(v.StreamID)
+		}
+	case *frames.Payload:
+		if v.Complete {
+			i.releaseStream(v.StreamID)
+		}
+	case *frames.Error, *frames.Cancel:
+		i.releaseStream(f.GetStreamID())
+	}
+	return err
 }
 
 func (i *Handler) HandleFrame(f frames.Frame) (err error) {
@@ -115,16 +165,15 @@ func (i *Handler) HandleFrame(f frames.Frame) (err error) {
 		var ok bool
 		str, ok = i.getStream(streamID)
 		if !ok {
-			// Return error
-			if frameType != frames.FrameTypeRequestN {
-				return fmt.Errorf("stream ID %d not found", streamID)
-			}
-			return
+			// The stream may have ended while the frame was on its way.
+			return nil
 		}
 	}
 
 	switch v := f.(type) {
 	case *frames.Setup:
+		i.mu.Lock()
+		defer i.mu.Unlock()
 		if i.opTable == nil {
 			opers, err := operations.FromBytes(v.Data)
 			if err != nil {
@@ -156,7 +205,11 @@ func (i *Handler) HandleFrame(f frames.Frame) (err error) {
 			// 	return
 			// }
 
-			go i.handleRequestStream(i.ctx, streamID, v.Data, v.Metadata, v.InitialN)
+			// Register before the frames that follow are handled.
+			s := requestStream{ctx: i.ctx, streamID: streamID, inDone: true}
+			if i.acceptStream(&s) {
+				go i.handleRequestStream(i.ctx, &s, v.Data, v.Metadata, v.InitialN)
+			}
 
 		case frames.FrameTypeRequestChannel:
 			// if i.checkFollows(&rc) {
@@ -164,16 +217,25 @@ func (i *Handler) HandleFrame(f frames.Frame) (err error) {
 			// 	return
 			// }
 
-			go i.handleRequestChannel(i.ctx, streamID, v.Data, v.Metadata, v.InitialN)
+			// Register before the frames that follow are handled.
+			s := requestStream{ctx: i.ctx, streamID: streamID}
+			if i.acceptStream(&s) {
+				go i.handleRequestChannel(i.ctx, &s, v.Data, v.Metadata, v.InitialN)
+			}
 		}
 
 	case *frames.RequestN:
-		s := str.(DoRequest)
-		go s.DoRequest(int(v.N))
+		if s, ok := str.(DoRequest); ok {
+			go s.DoRequest(int(v.N))
+		}
 
 	case *frames.Cancel:
-		str.OnComplete()
-		i.removeStream(streamID)
+		if s, ok := str.(DoCancel); ok {
+			s.DoCancel()
+		} else {
+			str.OnComplete()
+		}
+		i.releaseStream(streamID)
 
 	case *frames.Payload:
 		// pl, ok := i.fragmentedPayloads[p.StreamID]
@@ -227,18 +289,27 @@ func (i *Handler) HandleFrame(f frames.Frame) (err error) {
 
 		if v.Complete {
 			str.OnComplete()
-			i.removeStream(streamID)
+			i.releaseStream(streamID)
 		}
 
 	case *frames.Error:
 		str.OnError(errors.New(v.Data))
 		str.OnComplete()
-		i.removeStream(streamID)
+		i.releaseStream(streamID)
 	}
 
 	return nil
 }
 
+// acceptStream registers a stream of the peer unless its ID is in use.
+func (i *Handler) acceptStream(s *requestStream) bool {
+	if _, ok := i.getStream(s.streamID); ok {
+		return false
+	}
+	i.registerStream(s)
+	return true
+}
+
 func (i *Handler) handleRequestResponse(ctx context.Context, streamID uint32, data, metadata []byte) {
 	if !i.checkMetadata(streamID, metadata) {
 		return
@@ -247,7 +318,7 @@ func (i *Handler) handleRequestResponse(ctx context.Context, streamID uint32, da
 	operationID := binary.BigEndian.Uint32(metadata)
 	handler := invoke.GetRequestResponseHandler(operationID)
 	if handler == nil {
-		i.sendFrame(&frames.Error{
+		i.SendFrame(&frames.Error{
 			StreamID: streamID,
 			Data:     "not_found",
 		})
@@ -259,16 +330,22 @@ func (i *Handler) handleRequestResponse(ctx context.Context, streamID uint32, da
 	ctx = proxy.WithContext(ctx, &s)
 	handler(ctx, p).Subscribe(mono.Subscribe[payload.Payload]{
 		OnSuccess: func(p payload.Payload) {
-			i.sendFrame(&frames.Payload{
+			err := i.SendFrame(&frames.Payload{
 				StreamID: streamID,
 				Metadata: p.Metadata(),
 				Data:     p.Data(),
 				Next:     true,
 				Complete: true,
 			})
+			if err != nil {
+				i.SendFrame(&frames.Error{
+					StreamID: streamID,
+					Data:     err.Error(),
+				})
+			}
 		},
 		OnError: func(err error) {
-			i.sendFrame(&frames.Error{
+			i.SendFrame(&frames.Error{
 				StreamID: streamID,
 				Data:     err.Error(),
 			})
@@ -284,7 +361,7 @@ func (i *Handler) handleFireAndForget(ctx context.Context, streamID uint32, data
 	operationID := binary.BigEndian.Uint32(metadata)
 	handler := invoke.GetFireAndForgetHandler(operationID)
 	if handler == nil {
-		i.sendFrame(&frames.Error{
+		i.SendFrame(&frames.Error{
 			StreamID: streamID,
 			Data:     "not_found",
 		})
@@ -293,119 +370,119 @@ func (i *Handler) handleFireAndForget(ctx context.Context, streamID uint32, data
 
 	p := payload.New(data, metadata[8:])
 	s := requestStream{ctx: ctx, streamID: streamID}
-	i.registerStream(&s)
 	ctx = proxy.WithContext(ctx, &s)
 	handler(ctx, p)
 }
 
-func (i *Handler) handleRequestStream(ctx context.Context, streamID uint32, data, metadata []byte, initialN uint32) {
-	if !i.checkMetadata(streamID, metadata) {
+func (i *Handler) handleRequestStream(ctx context.Context, s *requestStream, data, metadata []byte, initialN uint32) {
+	if !i.checkMetadata(s.streamID, metadata) {
+		i.removeStream(s.streamID)
 		return
 	}
 
 	operationID := binary.BigEndian.Uint32(metadata)
 	handler := invoke.GetRequestStreamHandler(operationID)
 	if handler == nil {
-		i.sendFrame(&frames.Error{
-			StreamID: streamID,
+		i.removeStream(s.streamID)
+		i.SendFrame(&frames.Error{
+			StreamID: s.streamID,
 			Data:     "not_found",
 		})
 		return
 	}
 
 	p := payload.New(data, metadata)
-	s := requestStream{ctx: ctx, streamID: streamID}
-	i.registerStream(&s) // Need to register for RequestN frames
 	// ctx := stream.WithContext(context.Background(), s)
-	f := handler(ctx, p)
-	f.Subscribe(flux.Subscribe[payload.Payload]{
-		OnNext: func(p payload.Payload) {
-			i.sendFrame(&frames.Payload{
-				StreamID: streamID,
-				Metadata: p.Metadata(),
-				Data:     p.Data(),
-				Next:     true,
-			})
-		},
-		OnComplete: func() {
-			i.sendFrame(&frames.Payload{
-				StreamID: streamID,
-				Complete: true,
-			})
-		},
-		OnError: func(err error) {
-			i.sendFrame(&frames.Error{
-				StreamID: streamID,
-				Data:     err.Error(),
-			})
-		},
-		NoRequest: true,
-	})
-	sub := f.Subscription()
-	s.sub = sub
-	s.Request(int(initialN))
+	i.subscribeStream(s, handler(ctx, p), initialN)
 }
 
-func (i *Handler) handleRequestChannel(ctx context.Context, streamID uint32, data, metadata []byte, initialN uint32) {
-	if !i.checkMetadata(streamID, metadata) {
+func (i *Handler) handleRequestChannel(ctx context.Context, s *requestStream, data, metadata []byte, initialN uint32) {
+	if !i.checkMetadata(s.streamID, metadata) {
+		i.removeStream(s.streamID)
 		return
 	}
 
 	operationID := binary.BigEndian.Uint32(metadata)
 	handler := invoke.GetRequestChannelHandler(operationID)
 	if handler == nil {
-		i.sendFrame(&frames.Error{
-			StreamID: streamID,
+		i.removeStream(s.streamID)
+		i.SendFrame(&frames.Error{
+			StreamID: s.streamID,
 			Data:     "not_found",
 		})
 		return
 	}
 
 	p := payload.New(data, metadata)
-	s := requestStream{streamID: streamID}
-	i.registerStream(&s) // Need to register for RequestN frames
 	in := flux.Create(func(sink flux.Sink[payload.Payload]) {
-		s.sink = sink
 		sink.OnSubscribe(flux.OnSubscribe{
 			Request: func(n int) {
-				i.sendFrame(&frames.RequestN{
-					StreamID: streamID,
+				i.SendFrame(&frames.RequestN{
+					StreamID: s.streamID,
 					N:        uint32(n),
 				})
 			},
 			Cancel: func() {
-				i.sendFrame(&frames.Cancel{
-					StreamID: streamID,
-				})
+				if s.endInput() {
+					i.SendFrame(&frames.Cancel{
+						StreamID: s.streamID,
+					})
+				}
 			},
 		})
+		s.setSink(sink)
 	})
-	f := handler(ctx, p, in)
+	i.subscribeStream(s, handler(ctx, p, in), initialN)
+}
+
+// subscribeStream sends the items of a handler's flux to the peer.
+func (i *Handler) subscribeStream(s *requestStream, f flux.Flux[payload.Payload], initialN uint32) {
 	f.Subscribe(flux.Subscribe[payload.Payload]{
 		OnNext: func(p payload.Payload) {
-			i.sendFrame(&frames.Payload{
-				StreamID: streamID,
+			if s.outputEnded() {
+				return
+			}
+			err := i.SendFrame(&frames.Payload{
+				StreamID: s.streamID,
 				Metadata: p.Metadata(),
 				Data:     p.Data(),
 				Next:     true,
 			})
+			if err != nil {
+				s.Close(err)
+				i.SendFrame(&frames.Error{
+					StreamID: s.streamID,
+					Data:     err.Error(),
+				})
+			}
 		},
 		OnComplete: func() {
-			i.sendFrame(&frames.Payload{
-				StreamID: streamID,
+			if !s.endOutput() {
+				return
+			}
+			i.SendFrame(&frames.Payload{
+				StreamID: s.streamID,
 				Complete: true,
 			})
+			if s.abandonInput() {
+				i.SendFrame(&frames.Cancel{
+					StreamID: s.streamID,
+				})
+			}
 		},
 		OnError: func(err error) {
-			i.sendFrame(&frames.Error{
-				StreamID: streamID,
+			if !s.endOutput() {
+				return
+			}
+			s.OnError(err) // An error ends both directions.
+			i.SendFrame(&frames.Error{
+				StreamID: s.streamID,
 				Data:     err.Error(),
 			})
 		},
 		NoRequest: true,
 	})
-	sub := f.Subscription()
-	s.sub = sub
+	s.setSubscription(f.Subscription())
 	s.Request(int(initialN))
 }
 
@@ -686,12 +763,21 @@ type DoRequest interface {
 	DoRequest(n int)
 }
 
+type DoCancel interface {
+	DoCancel()
+}
+
 type requestStream struct {
 	ctx      context.Context
 	streamID uint32
-	flux.Sink[payload.Payload]
-	sub  rx.Subscription
-	sink flux.Sink[payload.Payload]
+
+	mu      sync.Mutex                       // Guards the fields below.
+	sub     rx.Subscription                  // Subscription to the output.
+	demand  int                              // Demand for the output until it is subscribed.
+	outDone bool                             // The output has ended.
+	sink    flux.Sink[payload.Payload]       // Receives the input, once subscribed.
+	inDone  bool                             // The input has ended.
+	inEnd   func(flux.Sink[payload.Payload]) // How the input has ended.
 }
 
 var _ = (proxy.Stream)((*requestStream)(nil))
@@ -704,22 +790,152 @@ func (r *requestStream) StreamID() uint32 {
 	return r.streamID
 }
 
+// Done returns whether both directions have ended.
+func (r *requestStream) Done() bool {
+	r.mu.Lock()
+	defer r.mu.Unlock()
+	return r.outDone && r.inDone
+}
+
+func (r *requestStream) setSubscription(sub rx.Subscription) {
+	if sub == nil {
+		return
+	}
+	r.mu.Lock()
+	r.sub = sub
+	n, done := r.demand, r.outDone
+	r.demand = 0
+	r.mu.Unlock()
+	if done {
+		sub.Cancel()
+	} else if n > 0 {
+		sub.Request(n)
+	}
+}
+
+func (r *requestStream) setSink(sink flux.Sink[payload.Payload]) {
+	r.mu.Lock()
+	r.sink = sink
+	inEnd := r.inEnd
+	r.mu.Unlock()
+	if inEnd != nil {
+		inEnd(sink)
+	}
+}
+
 func (r *requestStream) Request(n int) {
-	r.sub.Request(n)
+	if n <= 0 {
+		return
+	}
+	r.mu.Lock()
+	sub := r.sub
+	if sub == nil {
+		r.demand += n
+	}
+	r.mu.Unlock()
+	if sub != nil {
+		sub.Request(n)
+	}
 }
 
 func (r *requestStream) DoRequest(n int) {
-	r.sub.Request(n)
+	r.Request(n)
+}
+
+// DoCancel stops the output and completes the input.
+func (r *requestStream) DoCancel() {
+	r.cancelOutput()
+	r.OnComplete()
+}
+
+// Close stops the output and fails the input.
+func (r *requestStream) Close(err error) {
+	r.cancelOutput()
+	r.OnError(err)
+}
+
+func (r *requestStream) cancelOutput() {
+	r.endOutput()
+	r.mu.Lock()
+	sub := r.sub
+	r.mu.Unlock()
+	if sub != nil {
+		sub.Cancel()
+	}
+}
+
+// endOutput returns false if the output has already ended.
+func (r *requestStream) endOutput() bool {
+	r.mu.Lock()
+	defer r.mu.Unlock()
+	if r.outDone {
+		return false
+	}
+	r.outDone = true
+	return true
+}
+
+func (r *requestStream) outputEnded() bool {
+	r.mu.Lock()
+	defer r.mu.Unlock()
+	return r.outDone
+}
+
+// endInput returns false if the input has already ended.
+func (r *requestStream) endInput() bool {
+	r.mu.Lock()
+	defer r.mu.Unlock()
+	if r.inDone {
+		return false
+	}
+	r.inDone = true
+	return true
+}
+
+// abandonInput ends an input that was not subscribed. It returns false if it
+// is subscribed or has already ended.
+func (r *requestStream) abandonInput() bool {
+	r.mu.Lock()
+	defer r.mu.Unlock()
+	if r.inDone || r.sink != nil {
+		return false
+	}
+	r.inDone = true
+	r.inEnd = func(sink flux.Sink[payload.Payload]) { sink.Complete() }
+	return true
 }
 
 func (r *requestStream) OnNext(p payload.Payload) {
-	r.sink.Next(p)
+	r.mu.Lock()
+	sink := r.sink
+	if r.inDone {
+		sink = nil
+	}
+	r.mu.Unlock()
+	if sink != nil {
+		sink.Next(p)
+	}
 }
 
 func (r *requestStream) OnComplete() {
-	r.sink.Complete()
+	r.terminateInput(func(sink flux.Sink[payload.Payload]) { sink.Complete() })
 }
 
 func (r *requestStream) OnError(err error) {
-	r.sink.Error(err)
+	r.terminateInput(func(sink flux.Sink[payload.Payload]) { sink.Error(err) })
+}
+
+func (r *requestStream) terminateInput(end func(flux.Sink[payload.Payload])) {
+	r.mu.Lock()
+	if r.inDone {
+		r.mu.Unlock()
+		return
+	}
+	r.inDone = true
+	r.inEnd = end
+	sink := r.sink
+	r.mu.Unlock()
+	if sink != nil {
+		end(sink)
+	}
 }
diff --git a/proxy/lookup.go b/proxy/lookup.go
index 3a3d686..0172f32 100644
--- a/proxy/lookup.go
+++ b/proxy/lookup.go
@@ -90,6 +90,19 @@ func (l *Lookup) Remove(id uint32) {
 	}
 }
 
+// RemoveAll removes and returns all streams.
+func (l *Lookup) RemoveAll() []Stream {
+	l.mu.Lock()
+	defer l.mu.Unlock()
+
+	streams := make([]Stream, 0, l.count)
+	for n := l.head; n != nil; n = n.next {
+		streams = append(streams, n.stream)
+	}
+	l.head, l.tail, l.count = nil, nil, 0
+	return streams
+}
+
 func (l *Lookup) find(id uint32) *node {
 	for n := l.head; n != nil; n = n.next {
 		if n.stream.StreamID() == id {
-- 
2.43.0


From bbd905085b1bd09968451928a763e807e08020f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:21 +0000
Subject: [PATCH 38/75] fix: write frames of concurrent senders one after the
 other

---
 transport/rsocket/transport.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/transport/rsocket/transport.go b/transport/rsocket/transport.go
index c547611..05d0f39 100644
--- a/transport/rsocket/transport.go
+++ b/transport/rsocket/transport.go
@@ -52,6 +52,7 @@ type Transport struct {
 	conn        Conn
 	maxLifetime time.Duration
 	once        sync.Once
+	sendMu      sync.Mutex // Guards writes to the connection.
 	handler     DuplexHandler
 	isServer    bool
 	ready       chan struct{}
@@ -108,6 +109,8 @@ func (p *Transport) Send(frame frames.Frame, flush bool) (err error) {
 		err = errTransportClosed
 		return
 	}
+	p.sendMu.Lock()
+	defer p.sendMu.Unlock()
 	err = p.conn.Write(frame)
 	if err != nil {
 		return
@@ -125,6 +128,8 @@ func (p *Transport) Flush() (err error) {
 		err = errTransportClosed
 		return
 	}
+	p.sendMu.Lock()
+	defer p.sendMu.Unlock()
 	err = p.conn.Flush()
 	return
 }
-- 
2.43.0


From b6483ded08c43d3f3fa970b54bdecb615dee7b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:44 +0000
Subject: [PATCH 39/75] fix: release connections, their requests and goroutines
 when they end

---
 transport/rsocket/tcp_transport.go | 29 +++++++++++++++++++-----
 transport/rsocket/transport.go     | 36 ++++++++++++++++++++++++++++--
 2 files changed, 58 insertions(+), 7 deletions(-)

diff --git a/transport/rsocket/tcp_transport.go b/transport/rsocket/tcp_transport.go
index 26dfd57..2d0e485 100644
--- a/transport/rsocket/tcp_transport.go
+++ b/transport/rsocket/tcp_transport.go
@@ -52,12 +52,22 @@ func (t *tcpServerTransport) Close() (err error) {
 }
 
 func (t *tcpServerTransport) Listen(ctx context.Context, notifier chan<- bool) (err error) {
-	t.l, err = t.lf(ctx)
+	l, err := t.lf(ctx)
 	if err != nil {
 		notifier <- false
 		err = fmt.Errorf("listen tcp server failed: %w", err)
 		return
 	}
+	t.mu.Lock()
+	t.l = l
+	t.mu.Unlock()
+
+	select {
+	case <-t.done:
+		// Closed before the listener was known.
+		_ = l.Close()
+	default:
+	}
 
 	defer func() {
 		_ = t.Close()
@@ -79,7 +89,7 @@ func (t *tcpServerTransport) Listen(ctx context.Context, notifier chan<- bool) (
 	// Start loop of accepting connections.
 	for {
 		var c net.Conn
-		c, err = t.l.Accept()
+		c, err = l.Accept()
 		if err == io.EOF || isClosedErr(err) {
 			err = nil
 			break
@@ -97,14 +107,23 @@ func (t *tcpServerTransport) Listen(ctx context.Context, notifier chan<- bool) (
 		})
 
 		if t.putTransport(tp) {
-			go tp.Start(ctx)
 			go func() {
-				tp.WaitUntilReady()
-				t.acceptor(ctx, h, func(tp *Transport) {
+				_ = tp.Start(ctx)
+				t.removeTransport(tp)
+			}()
+			go func() {
+				if !tp.WaitUntilReady() {
+					return
+				}
+				t.mu.Lock()
+				acceptor := t.acceptor
+				t.mu.Unlock()
+				acceptor(ctx, h, func(tp *Transport) {
 					t.removeTransport(tp)
 				})
 			}()
 		} else {
+			_ = tp.Close()
 			_ = t.Close()
 		}
 	}
diff --git a/transport/rsocket/transport.go b/transport/rsocket/transport.go
index 05d0f39..d465fac 100644
--- a/transport/rsocket/transport.go
+++ b/transport/rsocket/transport.go
@@ -56,6 +56,7 @@ type Transport struct {
 	handler     DuplexHandler
 	isServer    bool
 	ready       chan struct{}
+	stopped     chan struct{} // Closed when Start returns.
 }
 
 // NewTransport creates new transport.
@@ -66,6 +67,7 @@ func NewTransport(c Conn, handler DuplexHandler, isServer bool) *Transport {
 		handler:     handler,
 		isServer:    isServer,
 		ready:       make(chan struct{}),
+		stopped:     make(chan struct{}),
 	}
 	handler.SetFrameSender(t.handler.HandleFrame)
 	return &t
@@ -181,8 +183,22 @@ func (p *Transport) loopReadBuffer(ctx context.Context, bf *buffer.Unbounded[fra
 
 // Start start transport.
 func (p *Transport) Start(ctx context.Context) error {
+	defer close(p.stopped)
 	defer func() {
 		_ = p.Close()
+		// Nobody replies to what is still pending.
+		if c, ok := p.handler.(io.Closer); ok {
+			_ = c.Close()
+		}
+	}()
+
+	// Reads block until the connection is closed.
+	go func() {
+		select {
+		case <-ctx.Done():
+			_ = p.Close()
+		case <-p.stopped:
+		}
 	}()
 
 	done := make(chan struct{}, 1)
@@ -193,6 +209,7 @@ func (p *Transport) Start(ctx context.Context) error {
 	)
 
 	defer func() {
+		_ = p.Close()
 		framesBuffer.Dispose()
 
 		<-done
@@ -224,6 +241,9 @@ func (p *Transport) Start(ctx context.Context) error {
 			return fmt.Errorf("dispatch incoming frame failed: %w", err)
 		default:
 			f, err := p.conn.Read()
+			if err != nil && ctx.Err() != nil {
+				return ctx.Err()
+			}
 			if err == io.EOF {
 				return nil
 			}
@@ -236,6 +256,18 @@ func (p *Transport) Start(ctx context.Context) error {
 	}
 }
 
-func (p *Transport) WaitUntilReady() {
-	<-p.ready
+// WaitUntilReady waits until the connection is set up. It returns false if
+// that fails.
+func (p *Transport) WaitUntilReady() bool {
+	select {
+	case <-p.ready:
+		return true
+	case <-p.stopped:
+	}
+	select {
+	case <-p.ready:
+		return true
+	default:
+		return false
+	}
 }
-- 
2.43.0


From 8b6647a37f1db9ee22d2b74667996987d644de7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:38 +0000
Subject: [PATCH 40/75] fix: end streams of a handler once per direction, on
 cancel and on close (2)

---
 handler/handler.go | 296 ++++-----------------------------------------
 proxy/responder.go | 284 +++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 306 insertions(+), 274 deletions(-)
 create mode 100644 proxy/responder.go

diff --git a/handler/handler.go b/handler/handler.go
index 3fd78f0..c9245b4 100644
--- a/handler/handler.go
+++ b/handler/handler.go
@@ -12,8 +12,6 @@ import (
 	"github.com/nanobus/iota/go/operations"
 	"github.com/nanobus/iota/go/payload"
 	"github.com/nanobus/iota/go/proxy"
-	"github.com/nanobus/iota/go/rx"
-	"github.com/nanobus/iota/go/rx/flux"
 	"github.com/nanobus/iota/go/rx/mono"
 )
 
@@ -206,9 +204,9 @@ func (i *Handler) HandleFrame(f frames.Frame) (err error) {
 			// }
 
 			// Register before the frames that follow are handled.
-			s := requestStream{ctx: i.ctx, streamID: streamID, inDone: true}
-			if i.acceptStream(&s) {
-				go i.handleRequestStream(i.ctx, &s, v.Data, v.Metadata, v.InitialN)
+			s := proxy.NewResponder(i.ctx, streamID, false, i.SendFrame, nil)
+			if i.acceptStream(s) {
+				go i.handleRequestStream(i.ctx, s, v.Data, v.Metadata, v.InitialN)
 			}
 
 		case frames.FrameTypeRequestChannel:
@@ -218,9 +216,9 @@ func (i *Handler) HandleFrame(f frames.Frame) (err error) {
 			// }
 
 			// Register before the frames that follow are handled.
-			s := requestStream{ctx: i.ctx, streamID: streamID}
-			if i.acceptStream(&s) {
-				go i.handleRequestChannel(i.ctx, &s, v.Data, v.Metadata, v.InitialN)
+			s := proxy.NewResponder(i.ctx, streamID, true, i.SendFrame, nil)
+			if i.acceptStream(s) {
+				go i.handleRequestChannel(i.ctx, s, v.Data, v.Metadata, v.InitialN)
 			}
 		}
 
@@ -302,8 +300,8 @@ func (i *Handler) HandleFrame(f frames.Frame) (err error) {
 }
 
 // acceptStream registers a stream of the peer unless its ID is in use.
-func (i *Handler) acceptStream(s *requestStream) bool {
-	if _, ok := i.getStream(s.streamID); ok {
+func (i *Handler) acceptStream(s proxy.Stream) bool {
+	if _, ok := i.getStream(s.StreamID()); ok {
 		return false
 	}
 	i.registerStream(s)
@@ -326,8 +324,8 @@ func (i *Handler) handleRequestResponse(ctx context.Context, streamID uint32, da
 	}
 
 	p := payload.New(data, metadata[8:])
-	s := requestStream{ctx: ctx, streamID: streamID}
-	ctx = proxy.WithContext(ctx, &s)
+	s := proxy.NewResponder(ctx, streamID, false, i.SendFrame, nil)
+	ctx = proxy.WithContext(ctx, s)
 	handler(ctx, p).Subscribe(mono.Subscribe[payload.Payload]{
 		OnSuccess: func(p payload.Payload) {
 			err := i.SendFrame(&frames.Payload{
@@ -369,121 +367,44 @@ func (i *Handler) handleFireAndForget(ctx context.Context, streamID uint32, data
 	}
 
 	p := payload.New(data, metadata[8:])
-	s := requestStream{ctx: ctx, streamID: streamID}
-	ctx = proxy.WithContext(ctx, &s)
+	s := proxy.NewResponder(ctx, streamID, false, i.SendFrame, nil)
+	ctx = proxy.WithContext(ctx, s)
 	handler(ctx, p)
 }
 
-func (i *Handler) handleRequestStream(ctx context.Context, s *requestStream, data, metadata []byte, initialN uint32) {
-	if !i.checkMetadata(s.streamID, metadata) {
-		i.removeStream(s.streamID)
+func (i *Handler) handleRequestStream(ctx context.Context, s *proxy.Responder, data, metadata []byte, initialN uint32) {
+	if len(metadata) < 8 {
+		s.Reject("Invalid metadata")
 		return
 	}
 
 	operationID := binary.BigEndian.Uint32(metadata)
 	handler := invoke.GetRequestStreamHandler(operationID)
 	if handler == nil {
-		i.removeStream(s.streamID)
-		i.SendFrame(&frames.Error{
-			StreamID: s.streamID,
-			Data:     "not_found",
-		})
+		s.Reject("not_found")
 		return
 	}
 
 	p := payload.New(data, metadata)
 	// ctx := stream.WithContext(context.Background(), s)
-	i.subscribeStream(s, handler(ctx, p), initialN)
+	s.Output(handler(ctx, p), initialN)
 }
 
-func (i *Handler) handleRequestChannel(ctx context.Context, s *requestStream, data, metadata []byte, initialN uint32) {
-	if !i.checkMetadata(s.streamID, metadata) {
-		i.removeStream(s.streamID)
+func (i *Handler) handleRequestChannel(ctx context.Context, s *proxy.Responder, data, metadata []byte, initialN uint32) {
+	if len(metadata) < 8 {
+		s.Reject("Invalid metadata")
 		return
 	}
 
 	operationID := binary.BigEndian.Uint32(metadata)
 	handler := invoke.GetRequestChannelHandler(operationID)
 	if handler == nil {
-		i.removeStream(s.streamID)
-		i.SendFrame(&frames.Error{
-			StreamID: s.streamID,
-			Data:     "not_found",
-		})
+		s.Reject("not_found")
 		return
 	}
 
 	p := payload.New(data, metadata)
-	in := flux.Create(func(sink flux.Sink[payload.Payload]) {
-		sink.OnSubscribe(flux.OnSubscribe{
-			Request: func(n int) {
-				i.SendFrame(&frames.RequestN{
-					StreamID: s.streamID,
-					N:        uint32(n),
-				})
-			},
-			Cancel: func() {
-				if s.endInput() {
-					i.SendFrame(&frames.Cancel{
-						StreamID: s.streamID,
-					})
-				}
-			},
-		})
-		s.setSink(sink)
-	})
-	i.subscribeStream(s, handler(ctx, p, in), initialN)
-}
-
-// subscribeStream sends the items of a handler's flux to the peer.
-func (i *Handler) subscribeStream(s *requestStream, f flux.Flux[payload.Payload], initialN uint32) {
-	f.Subscribe(flux.Subscribe[payload.Payload]{
-		OnNext: func(p payload.Payload) {
-			if s.outputEnded() {
-				return
-			}
-			err := i.SendFrame(&frames.Payload{
-				StreamID: s.streamID,
-				Metadata: p.Metadata(),
-				Data:     p.Data(),
-				Next:     true,
-			})
-			if err != nil {
-				s.Close(err)
-				i.SendFrame(&frames.Error{
-					StreamID: s.streamID,
-					Data:     err.Error(),
-				})
-			}
-		},
-		OnComplete: func() {
-			if !s.endOutput() {
-				return
-			}
-			i.SendFrame(&frames.Payload{
-				StreamID: s.streamID,
-				Complete: true,
-			})
-			if s.abandonInput() {
-				i.SendFrame(&frames.Cancel{
-					StreamID: s.streamID,
-				})
-			}
-		},
-		OnError: func(err error) {
-			if !s.endOutput() {
-				return
-			}
-			s.OnError(err) // An error ends both directions.
-			i.SendFrame(&frames.Error{
-				StreamID: s.streamID,
-				Data:     err.Error(),
-			})
-		},
-		NoRequest: true,
-	})
-	s.setSubscription(f.Subscription())
-	s.Request(int(initialN))
+	s.Output(handler(ctx, p, s.Input()), initialN)
 }
 
 // func (i *Handler) handleRequestResponse(ctx context.Context, streamID uint32, data, metadata []byte) {
@@ -766,176 +687,3 @@ type DoRequest interface {
 type DoCancel interface {
 	DoCancel()
 }
-
-type requestStream struct {
-	ctx      context.Context
-	streamID uint32
-
-	mu      sync.Mutex                       // Guards the fields below.
-	sub     rx.Subscription                  // Subscription to the output.
-	demand  int                              // Demand for the output until it is subscribed.
-	outDone bool                             // The output has ended.
-	sink    flux.Sink[payload.Payload]       // Receives the input, once subscribed.
-	inDone  bool                             // The input has ended.
-	inEnd   func(flux.Sink[payload.Payload]) // How the input has ended.
-}
-
-var _ = (proxy.Stream)((*requestStream)(nil))
-
-func (r *requestStream) Context() context.Context {
-	return r.ctx
-}
-
-func (r *requestStream) StreamID() uint32 {
-	return r.streamID
-}
-
-// Done returns whether both directions have ended.
-func (r *requestStream) Done() bool {
-	r.mu.Lock()
-	defer r.mu.Unlock()
-	return r.outDone && r.inDone
-}
-
-func (r *requestStream) setSubscription(sub rx.Subscription) {
-	if sub == nil {
-		return
-	}
-	r.mu.Lock()
-	r.sub = sub
-	n, done := r.demand, r.outDone
-	r.demand = 0
-	r.mu.Unlock()
-	if done {
-		sub.Cancel()
-	} else if n > 0 {
-		sub.Request(n)
-	}
-}
-
-func (r *requestStream) setSink(sink flux.Sink[payload.Payload]) {
-	r.mu.Lock()
-	r.sink = sink
-	inEnd := r.inEnd
-	r.mu.Unlock()
-	if inEnd != nil {
-		inEnd(sink)
-	}
-}
-
-func (r *requestStream) Request(n int) {
-	if n <= 0 {
-		return
-	}
-	r.mu.Lock()
-	sub := r.sub
-	if sub == nil {
-		r.demand += n
-	}
-	r.mu.Unlock()
-	if sub != nil {
-		sub.Request(n)
-	}
-}
-
-func (r *requestStream) DoRequest(n int) {
-	r.Request(n)
-}
-
-// DoCancel stops the output and completes the input.
-func (r *requestStream) DoCancel() {
-	r.cancelOutput()
-	r.OnComplete()
-}
-
-// Close stops the output and fails the input.
-func (r *requestStream) Close(err error) {
-	r.cancelOutput()
-	r.OnError(err)
-}
-
-func (r *requestStream) cancelOutput() {
-	r.endOutput()
-	r.mu.Lock()
-	sub := r.sub
-	r.mu.Unlock()
-	if sub != nil {
-		sub.Cancel()
-	}
-}
-
-// endOutput returns false if the output has already ended.
-func (r *requestStream) endOutput() bool {
-	r.mu.Lock()
-	defer r.mu.Unlock()
-	if r.outDone {
-		return false
-	}
-	r.outDone = true
-	return true
-}
-
-func (r *requestStream) outputEnded() bool {
-	r.mu.Lock()
-	defer r.mu.Unlock()
-	return r.outDone
-}
-
-// endInput returns false if the input has already ended.
-func (r *requestStream) endInput() bool {
-	r.mu.Lock()
-	defer r.mu.Unlock()
-	if r.inDone {
-		return false
-	}
-	r.inDone = true
-	return true
-}
-
-// abandonInput ends an input that was not subscribed. It returns false if it
-// is subscribed or has already ended.
-func (r *requestStream) abandonInput() bool {
-	r.mu.Lock()
-	defer r.mu.Unlock()
-	if r.inDone || r.sink != nil {
-		return false
-	}
-	r.inDone = true
-	r.inEnd = func(sink flux.Sink[payload.Payload]) { sink.Complete() }
-	return true
-}
-
-func (r *requestStream) OnNext(p payload.Payload) {
-	r.mu.Lock()
-	sink := r.sink
-	if r.inDone {
-		sink = nil
-	}
-	r.mu.Unlock()
-	if sink != nil {
-		sink.Next(p)
-	}
-}
-
-func (r *requestStream) OnComplete() {
-	r.terminateInput(func(sink flux.Sink[payload.Payload]) { sink.Complete() })
-}
-
-func (r *requestStream) OnError(err error) {
-	r.terminateInput(func(sink flux.Sink[payload.Payload]) { sink.Error(err) })
-}
-
-func (r *requestStream) terminateInput(end func(flux.Sink[payload.Payload])) {
-	r.mu.Lock()
-	if r.inDone {
-		r.mu.Unlock()
-		return
-	}
-	r.inDone = true
-	r.inEnd = end
-	sink := r.sink
-	r.mu.Unlock()
-	if sink != nil {
-		end(sink)
-	}
-}
diff --git a/proxy/responder.go b/proxy/responder.go
new file mode 100644
index 0000000..0ce50a4
--- /dev/null
+++ b/proxy/responder.go
@@ -0,0 +1,284 @@
+package proxy
+
+import (
+	"context"
+	"errors"
+	"sync"
+
+	"github.com/nanobus/iota/go/internal/frames"
+	"github.com/nanobus/iota/go/payload"
+	"github.com/nanobus/iota/go/rx"
+	"github.com/nanobus/iota/go/rx/flux"
+)
+
+// Responder is the state of a stream or channel that was requested by the
+// peer.
+type Responder struct {
+	ctx       context.Context
+	streamID  uint32
+	sendFrame func(frames.Frame) error
+	onEnd     func()
+
+	mu      sync.Mutex                       // Guards the fields below.
+	sub     rx.Subscription                  // Subscription to the output.
+	demand  int                              // Demand for the output until it is subscribed.
+	outDone bool                             // The output has ended.
+	sink    flux.Sink[payload.Payload]       // Receives the input, once subscribed.
+	inDone  bool                             // The input has ended.
+	inEnd   func(flux.Sink[payload.Payload]) // How the input has ended.
+}
+
+var _ = (Stream)((*Responder)(nil))
+
+// NewResponder creates the state for a request of the peer. Only a channel
+// has an input. The optional onEnd is called once, when the output ends.
+func NewResponder(ctx context.Context, streamID uint32, channel bool, sendFrame func(frames.Frame) error, onEnd func()) *Responder {
+	return &Responder{
+		ctx:       ctx,
+		streamID:  streamID,
+		sendFrame: sendFrame,
+		onEnd:     onEnd,
+		inDone:    !channel,
+	}
+}
+
+func (r *Responder) Context() context.Context {
+	return r.ctx
+}
+
+func (r *Responder) StreamID() uint32 {
+	return r.streamID
+}
+
+// Done returns whether both directions have ended.
+func (r *Responder) Done() bool {
+	r.mu.Lock()
+	defer r.mu.Unlock()
+	return r.outDone && r.inDone
+}
+
+// Reject ends the stream with an error instead of handling it.
+func (r *Responder) Reject(message string) {
+	r.endInput()
+	r.sendError(errors.New(message))
+}
+
+// Input returns what the peer sends through a channel.
+func (r *Responder) Input() flux.Flux[payload.Payload] {
+	return flux.Create(func(sink flux.Sink[payload.Payload]) {
+		sink.OnSubscribe(flux.OnSubscribe{
+			Request: func(n int) {
+				r.sendFrame(&frames.RequestN{
+					StreamID: r.streamID,
+					N:        uint32(n),
+				})
+			},
+			Cancel: func() {
+				if r.endInput() {
+					r.sendFrame(&frames.Cancel{
+						StreamID: r.streamID,
+					})
+				}
+			},
+		})
+
+		r.mu.Lock()
+		r.sink = sink
+		inEnd := r.inEnd
+		r.mu.Unlock()
+		if inEnd != nil {
+			inEnd(sink)
+		}
+	})
+}
+
+// Output sends the items of a flux to the peer.
+func (r *Responder) Output(f flux.Flux[payload.Payload], initialN uint32) {
+	f.Subscribe(flux.Subscribe[payload.Payload]{
+		OnNext:     r.sendNext,
+		OnComplete: r.sendComplete,
+		OnError:    r.sendError,
+		NoRequest:  true,
+	})
+
+	if sub := f.Subscription(); sub != nil {
+		r.mu.Lock()
+		r.sub = sub
+		n, done := r.demand, r.outDone
+		r.demand = 0
+		r.mu.Unlock()
+		if done {
+			sub.Cancel()
+		} else if n > 0 {
+			sub.Request(n)
+		}
+	}
+	r.DoRequest(int(initialN))
+}
+
+func (r *Responder) sendNext(p payload.Payload) {
+	r.mu.Lock()
+	done := r.outDone
+	r.mu.Unlock()
+	if done {
+		return
+	}
+	err := r.sendFrame(&frames.Payload{
+		StreamID: r.streamID,
+		Metadata: p.Metadata(),
+		Data:     p.Data(),
+		Next:     true,
+	})
+	if err != nil {
+		// The item cannot be sent, so that the stream ends with the error.
+		r.sendError(err)
+		r.cancelOutput()
+	}
+}
+
+func (r *Responder) sendComplete() {
+	if !r.endOutput() {
+		return
+	}
+	r.sendFrame(&frames.Payload{
+		StreamID: r.streamID,
+		Complete: true,
+	})
+	// There is no use for an input that was not subscribed.
+	if r.abandonInput() {
+		r.sendFrame(&frames.Cancel{
+			StreamID: r.streamID,
+		})
+	}
+	r.ended()
+}
+
+func (r *Responder) sendError(err error) {
+	if !r.endOutput() {
+		return
+	}
+	r.OnError(err) // An error ends both directions.
+	r.sendFrame(&frames.Error{
+		StreamID: r.streamID,
+		Data:     err.Error(),
+	})
+	r.ended()
+}
+
+func (r *Responder) DoRequest(n int) {
+	if n <= 0 {
+		return
+	}
+	r.mu.Lock()
+	sub := r.sub
+	if sub == nil {
+		r.demand += n
+	}
+	r.mu.Unlock()
+	if sub != nil {
+		sub.Request(n)
+	}
+}
+
+// DoCancel stops the output and completes the input.
+func (r *Responder) DoCancel() {
+	r.cancelOutput()
+	r.OnComplete()
+}
+
+// Close stops the output and fails the input.
+func (r *Responder) Close(err error) {
+	r.cancelOutput()
+	r.OnError(err)
+}
+
+func (r *Responder) cancelOutput() {
+	ended := r.endOutput()
+	r.mu.Lock()
+	sub := r.sub
+	r.mu.Unlock()
+	if sub != nil {
+		sub.Cancel()
+	}
+	if ended {
+		r.ended()
+	}
+}
+
+// endOutput returns false if the output has already ended.
+func (r *Responder) endOutput() bool {
+	r.mu.Lock()
+	if r.outDone {
+		r.mu.Unlock()
+		return false
+	}
+	r.outDone = true
+	r.mu.Unlock()
+	return true
+}
+
+// ended reports the end of the output, after the peer was told about it.
+func (r *Responder) ended() {
+	if r.onEnd != nil {
+		r.onEnd()
+	}
+}
+
+// endInput returns false if the input has already ended.
+func (r *Responder) endInput() bool {
+	r.mu.Lock()
+	defer r.mu.Unlock()
+	if r.inDone {
+		return false
+	}
+	r.inDone = true
+	return true
+}
+
+// abandonInput ends an input that was not subscribed. It returns false if it
+// is subscribed or has already ended.
+func (r *Responder) abandonInput() bool {
+	r.mu.Lock()
+	defer r.mu.Unlock()
+	if r.inDone || r.sink != nil {
+		return false
+	}
+	r.inDone = true
+	r.inEnd = func(sink flux.Sink[payload.Payload]) { sink.Complete() }
+	return true
+}
+
+func (r *Responder) OnNext(p payload.Payload) {
+	r.mu.Lock()
+	sink := r.sink
+	if r.inDone {
+		sink = nil
+	}
+	r.mu.Unlock()
+	if sink != nil {
+		sink.Next(p)
+	}
+}
+
+func (r *Responder) OnComplete() {
+	r.terminateInput(func(sink flux.Sink[payload.Payload]) { sink.Complete() })
+}
+
+func (r *Responder) OnError(err error) {
+	r.terminateInput(func(sink flux.Sink[payload.Payload]) { sink.Error(err) })
+}
+
+func (r *Responder) terminateInput(end func(flux.Sink[payload.Payload])) {
+	r.mu.Lock()
+	if r.inDone {
+		r.mu.Unlock()
+		return
+	}
+	r.inDone = true
+	r.inEnd = end
+	sink := r.sink
+	r.mu.Unlock()
+	if sink != nil {
+		end(sink)
+	}
+}
-- 
2.43.0


From 659d921084abcc7ce86ec0146f2d42894e34c31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:41 +0000
Subject: [PATCH 41/75] fix: keep a failing or hostile guest from crashing or
 hanging the host

---
 transport/wasmrs/host/instance.go | 464 ++++++++++++++++--------------
 1 file changed, 242 insertions(+), 222 deletions(-)

diff --git a/transport/wasmrs/host/instance.go b/transport/wasmrs/host/instance.go
index 93dd935..2cc56c8 100644
--- a/transport/wasmrs/host/instance.go
+++ b/transport/wasmrs/host/instance.go
@@ -6,18 +6,16 @@ import (
 	"errors"
 	"fmt"
 	"sync"
-	"sync/atomic"
 
 	"github.com/tetratelabs/wazero/api"
 
+	"github.com/nanobus/iota/go/internal/buffer"
 	"github.com/nanobus/iota/go/internal/frames"
 	"github.com/nanobus/iota/go/internal/socket"
 	"github.com/nanobus/iota/go/invoke"
 	"github.com/nanobus/iota/go/operations"
 	"github.com/nanobus/iota/go/payload"
 	"github.com/nanobus/iota/go/proxy"
-	"github.com/nanobus/iota/go/rx"
-	"github.com/nanobus/iota/go/rx/flux"
 	"github.com/nanobus/iota/go/rx/mono"
 )
 
@@ -25,7 +23,7 @@ type Instance struct {
 	ctx       context.Context
 	m         api.Module
 	sendCh    chan frames.Frame
-	recvCh    chan []byte
+	recvBuf   *buffer.Unbounded[[]byte]
 	sendFn    api.Function
 	sendPtr   uint32
 	sendSize  uint32
@@ -40,21 +38,32 @@ type Instance struct {
 	// increment by 2 sequentially, such as 2, 4, 6, 8, etc.
 	hostStreams proxy.Lookup
 
-	activeRequests atomic.Int64
-	closing        atomic.Bool
-	closed         chan struct{}
+	mu             sync.Mutex // Guards activeRequests, closing and the handlers.
+	activeRequests int
+	closing        bool
+	idle           chan struct{} // Closed when closing and no requests are active.
+	closed         chan struct{} // Closed when no more frames are sent.
 	once           sync.Once
 
 	maxFrameSize       uint32
 	fragmentedPayloads map[uint32]fragmentedPayload
 	operations         operations.Table
 
-	importedRR   []invoke.RequestResponseHandler
-	importedRFNF []invoke.FireAndForgetHandler
-	importedRS   []invoke.RequestStreamHandler
-	importedRC   []invoke.RequestChannelHandler
+	// The keys are indexes that the guest has declared.
+	importedRR   map[uint32]invoke.RequestResponseHandler
+	importedRFNF map[uint32]invoke.FireAndForgetHandler
+	importedRS   map[uint32]invoke.RequestStreamHandler
+	importedRC   map[uint32]invoke.RequestChannelHandler
 }
 
+// lengthFieldSize is the size of the length that precedes a frame.
+const lengthFieldSize = 3
+
+var (
+	errInstanceClosed = errors.New("instance closed")
+	errFrameTooLarge  = errors.New("frame exceeds the buffer of the guest")
+)
+
 type fragmentedPayload struct {
 	frameType frames.FrameType
 	initialN  uint32
@@ -77,12 +86,17 @@ func NewInstance(ctx context.Context, m api.Module) (*Instance, error) {
 		ctx:                ctx,
 		m:                  m,
 		sendCh:             make(chan frames.Frame, 100),
-		recvCh:             make(chan []byte, 100),
+		recvBuf:            buffer.NewUnbounded[[]byte](),
 		sendFn:             send,
 		maxFrameSize:       1024 * 1024,
 		fragmentedPayloads: make(map[uint32]fragmentedPayload),
 		sendSize:           16 * 1024,
+		idle:               make(chan struct{}),
 		closed:             make(chan struct{}),
+		importedRR:         make(map[uint32]invoke.RequestResponseHandler),
+		importedRFNF:       make(map[uint32]invoke.FireAndForgetHandler),
+		importedRS:         make(map[uint32]invoke.RequestStreamHandler),
+		importedRC:         make(map[uint32]invoke.RequestChannelHandler),
 	}
 
 	ctx = context.WithValue(ctx, instanceKey{}, i)
@@ -92,6 +106,9 @@ func NewInstance(ctx context.Context, m api.Module) (*Instance, error) {
 	}
 
 	f := m.ExportedFunction("__wasmrs_op_list_request")
+	if f == nil {
+		return nil, errors.New("module does not export __wasmrs_op_list_request")
+	}
 	_, err = f.Call(ctx)
 	if err != nil {
 		return nil, err
@@ -105,22 +122,51 @@ func NewInstance(ctx context.Context, m api.Module) (*Instance, error) {
 
 func (i *Instance) Close() error {
 	i.once.Do(func() {
-		i.closing.Store(true)
-
-		if i.activeRequests.Load() > 0 {
-			<-i.closed
+		i.mu.Lock()
+		i.closing = true
+		if i.activeRequests <= 0 {
+			close(i.idle)
 		}
+		i.mu.Unlock()
+
+		<-i.idle
 
-		close(i.sendCh)
-		close(i.recvCh)
+		close(i.closed)
+		i.recvBuf.Dispose()
+		i.failStreams(errInstanceClosed)
 	})
 
 	return nil
 }
 
+func (i *Instance) addActiveRequest() {
+	i.mu.Lock()
+	defer i.mu.Unlock()
+	i.activeRequests++
+}
+
 func (i *Instance) reduceActiveRequests() {
-	if i.activeRequests.Add(-1) <= 0 && i.closing.Load() {
-		close(i.closed)
+	i.mu.Lock()
+	defer i.mu.Unlock()
+	i.activeRequests--
+	if i.activeRequests <= 0 && i.closing {
+		select {
+		case <-i.idle:
+		default:
+			close(i.idle)
+		}
+	}
+}
+
+// failStreams ends all streams because the guest does not end them.
+func (i *Instance) failStreams(err error) {
+	streams := append(i.guestStreams.RemoveAll(), i.hostStreams.RemoveAll()...)
+	for _, s := range streams {
+		if c, ok := s.(interface{ Close(err error) }); ok {
+			c.Close(err)
+		} else {
+			s.OnError(err)
+		}
 	}
 }
 
@@ -160,8 +206,57 @@ func (i *Instance) SendFrame(f frames.Frame) error {
 	// } else {
 	// 	i.sendCh <- f
 	// }
-	i.sendCh <- f
-	return nil
+	err := i.enqueue(f)
+
+	switch v := f.(type) {
+	case *frames.RequestPayload:
+		if err != nil {
+			i.removeStream(v.StreamID)
+		}
+	case *frames.Payload:
+		if v.Complete {
+			i.releaseStream(v.StreamID)
+		}
+	case *frames.Error, *frames.Cancel:
+		i.releaseStream(f.GetStreamID())
+	}
+	return err
+}
+
+// enqueue hands a frame to the send loop.
+func (i *Instance) enqueue(f frames.Frame) error {
+	if uint64(f.Size())+lengthFieldSize > uint64(i.sendSize) {
+		return errFrameTooLarge
+	}
+	select {
+	case <-i.closed:
+		return errInstanceClosed
+	default:
+	}
+	select {
+	case i.sendCh <- f:
+	case <-i.closed:
+		return errInstanceClosed
+	}
+	select {
+	case <-i.closed:
+		// Nobody may be left to send it.
+		return errInstanceClosed
+	default:
+		return nil
+	}
+}
+
+// releaseStream removes a stream once both directions have ended.
+func (i *Instance) releaseStream(streamID uint32) {
+	s, ok := i.getStream(streamID)
+	if !ok {
+		return
+	}
+	if d, ok := s.(interface{ Done() bool }); ok && !d.Done() {
+		return
+	}
+	i.removeStream(streamID)
 }
 
 func (i *Instance) setBuffers(sendPtr, recvPtr uint32) {
@@ -170,23 +265,46 @@ func (i *Instance) setBuffers(sendPtr, recvPtr uint32) {
 }
 
 func (i *Instance) sendLoop() {
+	for {
+		select {
+		case f := <-i.sendCh:
+			i.sendOne(f)
+		case <-i.closed:
+			// Send what was accepted before.
+			for {
+				select {
+				case f := <-i.sendCh:
+					i.sendOne(f)
+				default:
+					return
+				}
+			}
+		}
+	}
+}
+
+func (i *Instance) sendOne(f frames.Frame) {
 	var lengthBytes [4]byte
 	ctx := context.WithValue(i.ctx, instanceKey{}, i)
 
-	for f := range i.sendCh {
-		mem := i.m.Memory()
-		buf, _ := mem.Read(i.sendPtr, i.sendSize)
-		byteCount := f.Size()
+	buf, ok := i.m.Memory().Read(i.sendPtr, i.sendSize)
+	byteCount := f.Size()
+	if !ok || uint64(len(buf)) < uint64(byteCount)+lengthFieldSize {
+		i.failStreams(errFrameTooLarge)
+		return
+	}
 
-		// Encode length and frame data.
-		binary.BigEndian.PutUint32(lengthBytes[:], byteCount)
-		copy(buf[0:], lengthBytes[1:4])
-		f.Encode(buf[3:])
+	// Encode length and frame data.
+	binary.BigEndian.PutUint32(lengthBytes[:], byteCount)
+	copy(buf[0:], lengthBytes[1:4])
+	f.Encode(buf[3:])
 
-		// Send frame data to guest.
-		i.sendFn.Call(ctx, uint64(3+byteCount))
+	// Send frame data to guest.
+	if _, err := i.sendFn.Call(ctx, uint64(3+byteCount)); err != nil {
+		i.failStreams(fmt.Errorf("guest failed: %w", err))
 	}
 }
+
 func (i *Instance) Operations() operations.Table {
 	return i.operations
 }
@@ -200,25 +318,32 @@ func (i *Instance) opList(ctx context.Context, opPtr uint32, opSize uint32) {
 func (i *Instance) hostSend(ctx context.Context, recvPos uint32) {
 	buffer, _ := i.m.Memory().Read(i.recvPtr, recvPos)
 
-	for len(buffer) > 0 {
+	for len(buffer) >= lengthFieldSize {
 		var length [4]byte
 		copy(length[1:4], buffer[0:3])
 		buffer = buffer[3:]
 		frameLength := binary.BigEndian.Uint32(length[0:4])
+		if uint64(frameLength) > uint64(len(buffer)) {
+			return // Truncated
+		}
 		buf := make([]byte, int(frameLength))
 		copy(buf, buffer)
-		i.recvCh <- buf
+		i.recvBuf.Put(buf)
 		buffer = buffer[frameLength:]
 	}
 }
 
 func (i *Instance) recvLoop() {
-	for buf := range i.recvCh {
+	for buf := range i.recvBuf.Get() {
 		i.recvOne(buf)
+		i.recvBuf.Load()
 	}
 }
 
 func (i *Instance) recvOne(data []byte) {
+	if len(data) < frames.FrameHeaderLen {
+		return
+	}
 	ctx := context.Background()
 	header := frames.ParseFrameHeader(data)
 	data = data[frames.FrameHeaderLen:]
@@ -253,7 +378,7 @@ func (i *Instance) recvOne(data []byte) {
 			return
 		}
 
-		i.activeRequests.Add(1)
+		i.addActiveRequest()
 		go i.handleRequestResponse(ctx, rr.StreamID, rr.Data, rr.Metadata)
 
 	case frames.FrameTypeRequestFNF:
@@ -286,8 +411,15 @@ func (i *Instance) recvOne(data []byte) {
 			return
 		}
 
-		i.activeRequests.Add(1)
-		go i.handleRequestStream(ctx, rs.StreamID, rs.Data, rs.Metadata, rs.InitialN)
+		// Register before the frames that follow are handled.
+		ctx = i.parentContext(ctx, rs.Metadata)
+		s := proxy.NewResponder(ctx, rs.StreamID, false, i.SendFrame, i.reduceActiveRequests)
+		if _, ok := i.getStream(rs.StreamID); ok {
+			return
+		}
+		i.registerStream(s)
+		i.addActiveRequest()
+		go i.handleRequestStream(ctx, s, rs.Data, rs.Metadata, rs.InitialN)
 
 	case frames.FrameTypeRequestChannel:
 		var rc frames.RequestPayload
@@ -303,8 +435,15 @@ func (i *Instance) recvOne(data []byte) {
 			return
 		}
 
-		i.activeRequests.Add(1)
-		go i.handleRequestChannel(ctx, rc.StreamID, rc.Data, rc.Metadata, rc.InitialN)
+		// Register before the frames that follow are handled.
+		ctx = i.parentContext(ctx, rc.Metadata)
+		s := proxy.NewResponder(ctx, rc.StreamID, true, i.SendFrame, i.reduceActiveRequests)
+		if _, ok := i.getStream(rc.StreamID); ok {
+			return
+		}
+		i.registerStream(s)
+		i.addActiveRequest()
+		go i.handleRequestChannel(ctx, s, rc.Data, rc.Metadata, rc.InitialN)
 
 	case frames.FrameTypeRequestN:
 		var rn frames.RequestN
@@ -316,12 +455,17 @@ func (i *Instance) recvOne(data []byte) {
 			return
 		}
 
-		s := str.(DoRequest)
-		go s.DoRequest(int(rn.N))
+		if s, ok := str.(DoRequest); ok {
+			go s.DoRequest(int(rn.N))
+		}
 
 	case frames.FrameTypeCancel:
-		str.OnComplete()
-		i.removeStream(header.StreamID())
+		if s, ok := str.(DoCancel); ok {
+			s.DoCancel()
+		} else {
+			str.OnComplete()
+		}
+		i.releaseStream(header.StreamID())
 
 	case frames.FrameTypePayload:
 		var p frames.Payload
@@ -380,7 +524,7 @@ func (i *Instance) recvOne(data []byte) {
 
 		if p.Complete {
 			str.OnComplete()
-			i.removeStream(header.StreamID())
+			i.releaseStream(header.StreamID())
 		}
 
 	case frames.FrameTypeError:
@@ -390,22 +534,32 @@ func (i *Instance) recvOne(data []byte) {
 		}
 		str.OnError(errors.New(p.Data))
 		str.OnComplete()
-		i.removeStream(header.StreamID())
+		i.releaseStream(header.StreamID())
 	}
 }
 
-func (i *Instance) handleRequestResponse(ctx context.Context, streamID uint32, data, metadata []byte) {
-	if !i.checkMetadata(streamID, metadata) {
-		return
+// parentContext returns the context of the stream that the request belongs to.
+func (i *Instance) parentContext(ctx context.Context, metadata []byte) context.Context {
+	if len(metadata) < 8 {
+		return ctx
 	}
-
-	operationID := binary.BigEndian.Uint32(metadata)
 	parentStreamID := binary.BigEndian.Uint32(metadata[4:])
 	if parentStreamID != 0 {
 		if stream, ok := i.getStream(parentStreamID); ok {
-			ctx = stream.Context()
+			return stream.Context()
 		}
 	}
+	return ctx
+}
+
+func (i *Instance) handleRequestResponse(ctx context.Context, streamID uint32, data, metadata []byte) {
+	if !i.checkMetadata(streamID, metadata) {
+		i.reduceActiveRequests()
+		return
+	}
+
+	operationID := binary.BigEndian.Uint32(metadata)
+	ctx = i.parentContext(ctx, metadata)
 	handler := i.getRequestResponseHandler(operationID)
 	if handler == nil {
 		i.SendFrame(&frames.Error{
@@ -418,13 +572,19 @@ func (i *Instance) handleRequestResponse(ctx context.Context, streamID uint32, d
 	p := payload.New(data, metadata)
 	handler(ctx, p).Subscribe(mono.Subscribe[payload.Payload]{
 		OnSuccess: func(p payload.Payload) {
-			i.SendFrame(&frames.Payload{
+			err := i.SendFrame(&frames.Payload{
 				StreamID: streamID,
 				Metadata: p.Metadata(),
 				Data:     p.Data(),
 				Next:     true,
 				Complete: true,
 			})
+			if err != nil {
+				i.SendFrame(&frames.Error{
+					StreamID: streamID,
+					Data:     err.Error(),
+				})
+			}
 			i.reduceActiveRequests()
 		},
 		OnError: func(err error) {
@@ -443,12 +603,7 @@ func (i *Instance) handleFireAndForget(ctx context.Context, streamID uint32, dat
 	}
 
 	operationID := binary.BigEndian.Uint32(metadata)
-	parentStreamID := binary.BigEndian.Uint32(metadata[4:])
-	if parentStreamID != 0 {
-		if stream, ok := i.getStream(parentStreamID); ok {
-			ctx = stream.Context()
-		}
-	}
+	ctx = i.parentContext(ctx, metadata)
 	handler := i.getFireAndForgetHandler(operationID)
 	if handler == nil {
 		i.SendFrame(&frames.Error{
@@ -461,186 +616,85 @@ func (i *Instance) handleFireAndForget(ctx context.Context, streamID uint32, dat
 	handler(ctx, p)
 }
 
-func (i *Instance) handleRequestStream(ctx context.Context, streamID uint32, data, metadata []byte, initialN uint32) {
-	if !i.checkMetadata(streamID, metadata) {
+func (i *Instance) handleRequestStream(ctx context.Context, s *proxy.Responder, data, metadata []byte, initialN uint32) {
+	if len(metadata) < 8 {
+		s.Reject("Invalid metadata")
 		return
 	}
 
 	operationID := binary.BigEndian.Uint32(metadata)
-	parentStreamID := binary.BigEndian.Uint32(metadata[4:])
-	if parentStreamID != 0 {
-		if stream, ok := i.getStream(parentStreamID); ok {
-			ctx = stream.Context()
-		}
-	}
 	handlerRS := i.getRequestStreamHandler(operationID)
 	if handlerRS == nil {
-		i.SendFrame(&frames.Error{
-			StreamID: streamID,
-			Data:     "not_found",
-		})
+		s.Reject("not_found")
 		return
 	}
 
 	p := payload.New(data, metadata)
-	s := requestStream{ctx: ctx, streamID: streamID}
-	f := handlerRS(ctx, p)
-	f.Subscribe(flux.Subscribe[payload.Payload]{
-		OnNext: func(p payload.Payload) {
-			i.SendFrame(&frames.Payload{
-				StreamID: streamID,
-				Metadata: p.Metadata(),
-				Data:     p.Data(),
-				Next:     true,
-			})
-		},
-		OnComplete: func() {
-			i.SendFrame(&frames.Payload{
-				StreamID: streamID,
-				Complete: true,
-			})
-			i.reduceActiveRequests()
-		},
-		OnError: func(err error) {
-			i.SendFrame(&frames.Error{
-				StreamID: streamID,
-				Data:     err.Error(),
-			})
-			i.reduceActiveRequests()
-		},
-		NoRequest: true,
-	})
-	sub := f.Subscription()
-	s.sub = sub
-	s.Request(int(initialN))
+	s.Output(handlerRS(ctx, p), initialN)
 }
 
-func (i *Instance) handleRequestChannel(ctx context.Context, streamID uint32, data, metadata []byte, initialN uint32) {
-	if !i.checkMetadata(streamID, metadata) {
+func (i *Instance) handleRequestChannel(ctx context.Context, s *proxy.Responder, data, metadata []byte, initialN uint32) {
+	if len(metadata) < 8 {
+		s.Reject("Invalid metadata")
 		return
 	}
 
 	operationID := binary.BigEndian.Uint32(metadata)
-	parentStreamID := binary.BigEndian.Uint32(metadata[4:])
-	if parentStreamID != 0 {
-		if stream, ok := i.getStream(parentStreamID); ok {
-			ctx = stream.Context()
-		}
-	}
 	handlerRC := i.getRequestChannelHandler(operationID)
 	if handlerRC == nil {
-		i.SendFrame(&frames.Error{
-			StreamID: streamID,
-			Data:     "not_found",
-		})
-		i.reduceActiveRequests()
+		s.Reject("not_found")
 		return
 	}
 
 	p := payload.New(data, metadata)
-	s := requestStream{streamID: streamID}
-	i.registerStream(&s) // Need to register for RequestN frames
-	in := flux.Create(func(sink flux.Sink[payload.Payload]) {
-		s.sink = sink
-		sink.OnSubscribe(flux.OnSubscribe{
-			Request: func(n int) {
-				i.SendFrame(&frames.RequestN{
-					StreamID: streamID,
-					N:        uint32(n),
-				})
-			},
-			Cancel: func() {
-				i.SendFrame(&frames.Cancel{
-					StreamID: streamID,
-				})
-				i.reduceActiveRequests()
-			},
-		})
-	})
-	f := handlerRC(ctx, p, in)
-	f.Subscribe(flux.Subscribe[payload.Payload]{
-		OnNext: func(p payload.Payload) {
-			i.SendFrame(&frames.Payload{
-				StreamID: streamID,
-				Metadata: p.Metadata(),
-				Data:     p.Data(),
-				Next:     true,
-			})
-		},
-		OnComplete: func() {
-			i.SendFrame(&frames.Payload{
-				StreamID: streamID,
-				Complete: true,
-			})
-			i.reduceActiveRequests()
-		},
-		OnError: func(err error) {
-			i.SendFrame(&frames.Error{
-				StreamID: streamID,
-				Data:     err.Error(),
-			})
-			i.reduceActiveRequests()
-		},
-		NoRequest: true,
-	})
-	sub := f.Subscription()
-	s.sub = sub
-	s.Request(int(initialN))
+	s.Output(handlerRC(ctx, p, s.Input()), initialN)
 }
 
 func (i *Instance) SetRequestResponseHandler(index uint32, handler invoke.RequestResponseHandler) {
-	for uint32(len(i.importedRR)) < index+1 {
-		i.importedRR = append(i.importedRR, nil)
-	}
+	i.mu.Lock()
+	defer i.mu.Unlock()
 	i.importedRR[index] = handler
 }
 
 func (i *Instance) getRequestResponseHandler(index uint32) invoke.RequestResponseHandler {
-	if uint32(len(i.importedRR)) <= index {
-		return nil
-	}
+	i.mu.Lock()
+	defer i.mu.Unlock()
 	return i.importedRR[index]
 }
 
 func (i *Instance) SetFireAndForgetHandler(index uint32, handler invoke.FireAndForgetHandler) {
-	for uint32(len(i.importedRFNF)) < index+1 {
-		i.importedRFNF = append(i.importedRFNF, nil)
-	}
+	i.mu.Lock()
+	defer i.mu.Unlock()
 	i.importedRFNF[index] = handler
 }
 
 func (i *Instance) getFireAndForgetHandler(index uint32) invoke.FireAndForgetHandler {
-	if uint32(len(i.importedRFNF)) <= index {
-		return nil
-	}
+	i.mu.Lock()
+	defer i.mu.Unlock()
 	return i.importedRFNF[index]
 }
 
 func (i *Instance) SetRequestStreamHandler(index uint32, handler invoke.RequestStreamHandler) {
-	for uint32(len(i.importedRS)) < index+1 {
-		i.importedRS = append(i.importedRS, nil)
-	}
+	i.mu.Lock()
+	defer i.mu.Unlock()
 	i.importedRS[index] = handler
 }
 
 func (i *Instance) getRequestStreamHandler(index uint32) invoke.RequestStreamHandler {
-	if uint32(len(i.importedRS)) <= index {
-		return nil
-	}
+	i.mu.Lock()
+	defer i.mu.Unlock()
 	return i.importedRS[index]
 }
 
 func (i *Instance) SetRequestChannelHandler(index uint32, handler invoke.RequestChannelHandler) {
-	for uint32(len(i.importedRC)) < index+1 {
-		i.importedRC = append(i.importedRC, nil)
-	}
+	i.mu.Lock()
+	defer i.mu.Unlock()
 	i.importedRC[index] = handler
 }
 
 func (i *Instance) getRequestChannelHandler(index uint32) invoke.RequestChannelHandler {
-	if uint32(len(i.importedRC)) <= index {
-		return nil
-	}
+	i.mu.Lock()
+	defer i.mu.Unlock()
 	return i.importedRC[index]
 }
 
@@ -674,40 +728,6 @@ type DoRequest interface {
 	DoRequest(n int)
 }
 
-type requestStream struct {
-	ctx      context.Context
-	streamID uint32
-	flux.Sink[payload.Payload]
-	sub  rx.Subscription
-	sink flux.Sink[payload.Payload]
-}
-
-var _ = (proxy.Stream)((*requestStream)(nil))
-
-func (r *requestStream) Context() context.Context {
-	return r.ctx
-}
-
-func (r *requestStream) StreamID() uint32 {
-	return r.streamID
-}
-
-func (r *requestStream) Request(n int) {
-	r.sub.Request(n)
-}
-
-func (r *requestStream) DoRequest(n int) {
-	r.sub.Request(n)
-}
-
-func (r *requestStream) OnNext(p payload.Payload) {
-	r.sink.Next(p)
-}
-
-func (r *requestStream) OnComplete() {
-	r.sink.Complete()
-}
-
-func (r *requestStream) OnError(err error) {
-	r.sink.Error(err)
+type DoCancel interface {
+	DoCancel()
 }
-- 
2.43.0


From e7517bb9efb1cfe30202586ab94c244cfdb2710e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:42 +0000
Subject: [PATCH 42/75] fix: handle cancels, completion and large frames in the
 wasmRS guest

---
 transport/wasmrs/guest/guest.go | 195 +++++++++++---------------------
 1 file changed, 66 insertions(+), 129 deletions(-)

diff --git a/transport/wasmrs/guest/guest.go b/transport/wasmrs/guest/guest.go
index 6e7218a..077c21c 100644
--- a/transport/wasmrs/guest/guest.go
+++ b/transport/wasmrs/guest/guest.go
@@ -12,8 +12,6 @@ import (
 	"github.com/nanobus/iota/go/invoke"
 	"github.com/nanobus/iota/go/payload"
 	"github.com/nanobus/iota/go/proxy"
-	"github.com/nanobus/iota/go/rx"
-	"github.com/nanobus/iota/go/rx/flux"
 	"github.com/nanobus/iota/go/rx/mono"
 )
 
@@ -34,6 +32,8 @@ var (
 	fragmentedPayloads map[uint32]fragmentedPayload
 )
 
+var errFrameTooLarge = errors.New("frame exceeds the buffer of the host")
+
 type fragmentedPayload struct {
 	frameType frames.FrameType
 	initialN  uint32
@@ -157,7 +157,7 @@ func GuestSend(endPos uint32) {
 					StreamID: rc.StreamID,
 					Data:     err.Error(),
 				})
-				return
+				continue
 			}
 			if checkFollows(&rc) {
 				// Will be processed under frames.FrameTypePayload
@@ -173,15 +173,20 @@ func GuestSend(endPos uint32) {
 					StreamID: rn.StreamID,
 					Data:     err.Error(),
 				})
-				return
+				continue
 			}
 
-			s := str.(DoRequest)
-			s.DoRequest(int(rn.N))
+			if s, ok := str.(DoRequest); ok {
+				s.DoRequest(int(rn.N))
+			}
 
 		case frames.FrameTypeCancel:
-			str.OnComplete()
-			removeStream(header.StreamID())
+			if s, ok := str.(DoCancel); ok {
+				s.DoCancel()
+			} else {
+				str.OnComplete()
+			}
+			releaseStream(header.StreamID())
 
 		case frames.FrameTypePayload:
 			var p frames.Payload
@@ -243,7 +248,7 @@ func GuestSend(endPos uint32) {
 
 			if p.Complete {
 				str.OnComplete()
-				removeStream(header.StreamID())
+				releaseStream(header.StreamID())
 			}
 
 		case frames.FrameTypeError:
@@ -253,7 +258,7 @@ func GuestSend(endPos uint32) {
 			}
 			str.OnError(errors.New(p.Data))
 			str.OnComplete()
-			removeStream(header.StreamID())
+			releaseStream(header.StreamID())
 		}
 	}
 }
@@ -274,17 +279,23 @@ func handleRequestResponse(ctx context.Context, streamID uint32, data, metadata
 	}
 
 	p := payload.New(data, metadata[8:])
-	s := requestStream{ctx: ctx, streamID: streamID}
-	ctx = proxy.WithContext(ctx, &s)
+	s := proxy.NewResponder(ctx, streamID, false, sendFrame, nil)
+	ctx = proxy.WithContext(ctx, s)
 	handler(ctx, p).Subscribe(mono.Subscribe[payload.Payload]{
 		OnSuccess: func(p payload.Payload) {
-			sendFrame(&frames.Payload{
+			err := sendFrame(&frames.Payload{
 				StreamID: streamID,
 				Metadata: p.Metadata(),
 				Data:     p.Data(),
 				Next:     true,
 				Complete: true,
 			})
+			if err != nil {
+				sendFrame(&frames.Error{
+					StreamID: streamID,
+					Data:     err.Error(),
+				})
+			}
 		},
 		OnError: func(err error) {
 			sendFrame(&frames.Error{
@@ -311,9 +322,8 @@ func handleFireAndForget(ctx context.Context, streamID uint32, data, metadata []
 	}
 
 	p := payload.New(data, metadata[8:])
-	s := requestStream{ctx: ctx, streamID: streamID}
-	registerStream(&s)
-	ctx = proxy.WithContext(ctx, &s)
+	s := proxy.NewResponder(ctx, streamID, false, sendFrame, nil)
+	ctx = proxy.WithContext(ctx, s)
 	handler(ctx, p)
 }
 
@@ -333,36 +343,10 @@ func handleRequestStream(ctx context.Context, streamID uint32, data, metadata []
 	}
 
 	p := payload.New(data, metadata)
-	s := requestStream{ctx: ctx, streamID: streamID}
-	registerStream(&s) // Need to register for RequestN frames
+	s := proxy.NewResponder(ctx, streamID, false, sendFrame, nil)
+	registerStream(s) // Need to register for RequestN frames
 	// ctx := stream.WithContext(context.Background(), s)
-	f := handler(ctx, p)
-	f.Subscribe(flux.Subscribe[payload.Payload]{
-		OnNext: func(p payload.Payload) {
-			sendFrame(&frames.Payload{
-				StreamID: streamID,
-				Metadata: p.Metadata(),
-				Data:     p.Data(),
-				Next:     true,
-			})
-		},
-		OnComplete: func() {
-			sendFrame(&frames.Payload{
-				StreamID: streamID,
-				Complete: true,
-			})
-		},
-		OnError: func(err error) {
-			sendFrame(&frames.Error{
-				StreamID: streamID,
-				Data:     err.Error(),
-			})
-		},
-		NoRequest: true,
-	})
-	sub := f.Subscription()
-	s.sub = sub
-	s.Request(int(initialN))
+	s.Output(handler(ctx, p), initialN)
 }
 
 func handleRequestChannel(ctx context.Context, streamID uint32, data, metadata []byte, initialN uint32) {
@@ -381,51 +365,9 @@ func handleRequestChannel(ctx context.Context, streamID uint32, data, metadata [
 	}
 
 	p := payload.New(data, metadata)
-	s := requestStream{streamID: streamID}
-	registerStream(&s) // Need to register for RequestN frames
-	in := flux.Create(func(sink flux.Sink[payload.Payload]) {
-		s.sink = sink
-		sink.OnSubscribe(flux.OnSubscribe{
-			Request: func(n int) {
-				sendFrame(&frames.RequestN{
-					StreamID: streamID,
-					N:        uint32(n),
-				})
-			},
-			Cancel: func() {
-				sendFrame(&frames.Cancel{
-					StreamID: streamID,
-				})
-			},
-		})
-	})
-	f := handler(ctx, p, in)
-	f.Subscribe(flux.Subscribe[payload.Payload]{
-		OnNext: func(p payload.Payload) {
-			sendFrame(&frames.Payload{
-				StreamID: streamID,
-				Metadata: p.Metadata(),
-				Data:     p.Data(),
-				Next:     true,
-			})
-		},
-		OnComplete: func() {
-			sendFrame(&frames.Payload{
-				StreamID: streamID,
-				Complete: true,
-			})
-		},
-		OnError: func(err error) {
-			sendFrame(&frames.Error{
-				StreamID: streamID,
-				Data:     err.Error(),
-			})
-		},
-		NoRequest: true,
-	})
-	sub := f.Subscription()
-	s.sub = sub
-	s.Request(int(initialN))
+	s := proxy.NewResponder(ctx, streamID, true, sendFrame, nil)
+	registerStream(s) // Need to register for RequestN frames
+	s.Output(handler(ctx, p, s.Input()), initialN)
 }
 
 func checkMetadata(streamID uint32, metadata []byte) bool {
@@ -470,6 +412,18 @@ func removeStream(streamID uint32) {
 	}
 }
 
+// releaseStream removes a stream once both directions have ended.
+func releaseStream(streamID uint32) {
+	s, ok := getStream(streamID)
+	if !ok {
+		return
+	}
+	if d, ok := s.(interface{ Done() bool }); ok && !d.Done() {
+		return
+	}
+	removeStream(streamID)
+}
+
 func getStream(streamID uint32) (proxy.Stream, bool) {
 	if streamID&1 == 1 {
 		return guestStreams.Get(streamID)
@@ -519,59 +473,42 @@ func sendFrame(f frames.Frame) error {
 	// } else {
 	// 	doSendFrame(f)
 	// }
-	doSendFrame(f)
-	return nil
+	err := doSendFrame(f)
+
+	switch v := f.(type) {
+	case *frames.RequestPayload:
+		if err != nil {
+			removeStream(v.StreamID)
+		}
+	case *frames.Payload:
+		if v.Complete {
+			releaseStream(v.StreamID)
+		}
+	case *frames.Error, *frames.Cancel:
+		releaseStream(f.GetStreamID())
+	}
+	return err
 }
 
-func doSendFrame(f frames.Frame) {
+func doSendFrame(f frames.Frame) error {
 	byteLength := f.Size()
+	if uint64(byteLength)+3 > uint64(len(hostBuffer)) {
+		return errFrameTooLarge
+	}
 	var length [4]byte
 	binary.BigEndian.PutUint32(length[0:4], byteLength)
 	copy(hostBuffer[0:3], length[1:4])
 	f.Encode(hostBuffer[3:])
 	hostSend(byteLength + 3)
+	return nil
 }
 
 type DoRequest interface {
 	DoRequest(n int)
 }
 
-type requestStream struct {
-	ctx      context.Context
-	streamID uint32
-	flux.Sink[payload.Payload]
-	sub  rx.Subscription
-	sink flux.Sink[payload.Payload]
-}
-
-var _ = (proxy.Stream)((*requestStream)(nil))
-
-func (r *requestStream) Context() context.Context {
-	return r.ctx
-}
-
-func (r *requestStream) StreamID() uint32 {
-	return r.streamID
-}
-
-func (r *requestStream) Request(n int) {
-	r.sub.Request(n)
-}
-
-func (r *requestStream) DoRequest(n int) {
-	r.sub.Request(n)
-}
-
-func (r *requestStream) OnNext(p payload.Payload) {
-	r.sink.Next(p)
-}
-
-func (r *requestStream) OnComplete() {
-	r.sink.Complete()
-}
-
-func (r *requestStream) OnError(err error) {
-	r.sink.Error(err)
+type DoCancel interface {
+	DoCancel()
 }
 
 //go:inline
-- 
2.43.0


From 90372aa19a74a58875f178f823f77e7e31aa9bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:56 +0000
Subject: [PATCH 43/75] fix: relink reloaded modules and operations of the same
 name in the mesh

---
 transport/wasmrs/mesh/mesh.go | 160 ++++++++++++++++++----------------
 1 file changed, 83 insertions(+), 77 deletions(-)

diff --git a/transport/wasmrs/mesh/mesh.go b/transport/wasmrs/mesh/mesh.go
index 0ba06f8..df020c7 100644
--- a/transport/wasmrs/mesh/mesh.go
+++ b/transport/wasmrs/mesh/mesh.go
@@ -3,8 +3,10 @@ package mesh
 import (
 	"context"
 	"encoding/binary"
+	"errors"
 	"fmt"
 	"os"
+	"sync"
 	"sync/atomic"
 	"time"
 
@@ -20,12 +22,26 @@ import (
 
 type (
 	Mesh struct {
-		verbose     bool
+		verbose bool
+
+		mu          sync.RWMutex // Guards the fields below.
 		instances   map[string]*host.Instance
-		exports     map[string]map[string]*atomic.Pointer[destination]
+		exports     map[string]map[export]*link
 		unsatisfied []*pending
 	}
 
+	// export identifies an operation in a namespace. Operations of different
+	// types may share a name.
+	export struct {
+		requestType operations.RequestType
+		operation   string
+	}
+
+	// link leads to the current destination of an exported operation.
+	link struct {
+		atomic.Pointer[destination]
+	}
+
 	destination struct {
 		instance *host.Instance
 		index    uint32
@@ -37,6 +53,8 @@ type (
 	}
 )
 
+var errNotFound = errors.New("not_found")
+
 type Option func(*Mesh)
 
 func WithVerbose() Option {
@@ -48,7 +66,7 @@ func WithVerbose() Option {
 func New(opts ...Option) *Mesh {
 	m := Mesh{
 		instances:   make(map[string]*host.Instance),
-		exports:     map[string]map[string]*atomic.Pointer[destination]{},
+		exports:     map[string]map[export]*link{},
 		unsatisfied: make([]*pending, 0, 10),
 	}
 
@@ -59,68 +77,58 @@ func New(opts ...Option) *Mesh {
 	return &m
 }
 
-func (m *Mesh) RequestResponse(ctx context.Context, namespace, operation string, p payload.Payload) mono.Mono[payload.Payload] {
-	ns, ok := m.exports[namespace]
-	if !ok {
-		return nil
-	}
+// lookup returns the link to an exported operation.
+func (m *Mesh) lookup(requestType operations.RequestType, namespace, operation string) (*link, bool) {
+	m.mu.RLock()
+	defer m.mu.RUnlock()
+	l, ok := m.exports[namespace][export{requestType, operation}]
+	return l, ok
+}
 
-	ptr, ok := ns[operation]
+func (m *Mesh) RequestResponse(ctx context.Context, namespace, operation string, p payload.Payload) mono.Mono[payload.Payload] {
+	l, ok := m.lookup(operations.RequestResponse, namespace, operation)
 	if !ok {
-		return nil
+		return mono.Error[payload.Payload](errNotFound)
 	}
-	dest := ptr.Load()
 
-	return dest.RequestResponse(ctx, p)
+	return l.RequestResponse(ctx, p)
 }
 
 func (m *Mesh) FireAndForget(ctx context.Context, namespace, operation string, p payload.Payload) {
-	ns, ok := m.exports[namespace]
-	if !ok {
-		return
-	}
-
-	ptr, ok := ns[operation]
+	l, ok := m.lookup(operations.FireAndForget, namespace, operation)
 	if !ok {
 		return
 	}
-	dest := ptr.Load()
 
-	dest.FireAndForget(ctx, p)
+	l.FireAndForget(ctx, p)
 }
 
 func (m *Mesh) RequestStream(ctx context.Context, namespace, operation string, p payload.Payload) flux.Flux[payload.Payload] {
-	ns, ok := m.exports[namespace]
-	if !ok {
-		return nil
-	}
-
-	ptr, ok := ns[operation]
+	l, ok := m.lookup(operations.RequestStream, namespace, operation)
 	if !ok {
-		return nil
+		return flux.Error[payload.Payload](errNotFound)
 	}
-	dest := ptr.Load()
 
-	return dest.RequestStream(ctx, p)
+	return l.RequestStream(ctx, p)
 }
 
 func (m *Mesh) RequestChannel(ctx context.Context, namespace, operation string, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
-	ns, ok := m.exports[namespace]
-	if !ok {
-		return nil
-	}
-
-	ptr, ok := ns[operation]
+	l, ok := m.lookup(operations.RequestChannel, namespace, operation)
 	if !ok {
-		return nil
+		return flux.Error[payload.Payload](errNotFound)
 	}
-	dest := ptr.Load()
 
-	return dest.RequestChannel(ctx, p, in)
+	return l.RequestChannel(ctx, p, in)
 }
 
 func (m *Mesh) Close() {
+	m.mu.RLock()
+	instances := make([]*host.Instance, 0, len(m.instances))
 	for _, inst := range m.instances {
+		instances = append(instances, inst)
+	}
+	m.mu.RUnlock()
+	for _, inst := range instances {
 		inst.Close()
 	}
 }
@@ -154,6 +162,9 @@ func (m *Mesh) LoadModule(ctx context.Context, filename string) (*host.Instance,
 		return nil, err
 	}
 
+	m.mu.Lock()
+	defer m.mu.Unlock()
+
 	// Close previously loaded instance.
 	existing, ok := m.instances[filename]
 	if ok {
@@ -193,16 +204,17 @@ func (m *Mesh) linkOperations(inst *host.Instance) {
 		case operations.Export:
 			ns, ok := m.exports[op.Namespace]
 			if !ok {
-				ns = make(map[string]*atomic.Pointer[destination])
+				ns = make(map[export]*link)
 				m.exports[op.Namespace] = ns
 			}
-			ptr, ok := ns[op.Operation]
+			key := export{op.Type, op.Operation}
+			l, ok := ns[key]
 			if !ok {
-				ptr = &atomic.Pointer[destination]{}
-				ns[op.Operation] = ptr
+				l = &link{}
+				ns[key] = l
 			}
 
-			ptr.Store(&destination{
+			l.Store(&destination{
 				instance: inst,
 				index:    op.Index,
 			})
@@ -235,59 +247,53 @@ func (m *Mesh) linkOperations(inst *host.Instance) {
 }
 
 func (m *Mesh) linkOperation(inst *host.Instance, op operations.Operation) bool {
-	ns, ok := m.exports[op.Namespace]
-	if !ok {
-		return false
-	}
-
-	ptr, ok := ns[op.Operation]
+	l, ok := m.exports[op.Namespace][export{op.Type, op.Operation}]
 	if !ok {
 		return false
 	}
-	dest := ptr.Load()
 
+	// The link follows its destination when that is loaded again.
 	switch op.Type {
 	case operations.RequestResponse:
-		inst.SetRequestResponseHandler(op.Index, dest.RequestResponse)
+		inst.SetRequestResponseHandler(op.Index, l.RequestResponse)
 	case operations.FireAndForget:
-		inst.SetFireAndForgetHandler(op.Index, dest.FireAndForget)
+		inst.SetFireAndForgetHandler(op.Index, l.FireAndForget)
 	case operations.RequestStream:
-		inst.SetRequestStreamHandler(op.Index, dest.RequestStream)
+		inst.SetRequestStreamHandler(op.Index, l.RequestStream)
 	case operations.RequestChannel:
-		inst.SetRequestChannelHandler(op.Index, dest.RequestChannel)
+		inst.SetRequestChannelHandler(op.Index, l.RequestChannel)
 	}
 
 	return true
 }
 
-func (d *destination) RequestResponse(ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
-	md := p.Metadata()
-	if md != nil {
-		binary.BigEndian.PutUint32(md, d.index)
+// address returns the payload with the metadata for the operation. The
+// metadata of the caller is left as it is.
+func (d *destination) address(p payload.Payload) payload.Payload {
+	md := append([]byte(nil), p.Metadata()...)
+	if len(md) < 4 {
+		return p
 	}
-	return d.instance.RequestResponse(ctx, p)
+	binary.BigEndian.PutUint32(md, d.index)
+	return payload.New(p.Data(), md)
 }
 
-func (d *destination) FireAndForget(ctx context.Context, p payload.Payload) {
-	md := p.Metadata()
-	if md != nil {
-		binary.BigEndian.PutUint32(md, d.index)
-	}
-	d.instance.FireAndForget(ctx, p)
+func (l *link) RequestResponse(ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
+	d := l.Load()
+	return d.instance.RequestResponse(ctx, d.address(p))
 }
 
-func (d *destination) RequestStream(ctx context.Context, p payload.Payload) flux.Flux[payload.Payload] {
-	md := p.Metadata()
-	if md != nil {
-		binary.BigEndian.PutUint32(md, d.index)
-	}
-	return d.instance.RequestStream(ctx, p)
+func (l *link) FireAndForget(ctx context.Context, p payload.Payload) {
+	d := l.Load()
+	d.instance.FireAndForget(ctx, d.address(p))
 }
 
-func (d *destination) RequestChannel(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
-	md := p.Metadata()
-	if md != nil {
-		binary.BigEndian.PutUint32(md, d.index)
-	}
-	return d.instance.RequestChannel(ctx, p, in)
+func (l *link) RequestStream(ctx context.Context, p payload.Payload) flux.Flux[payload.Payload] {
+	d := l.Load()
+	return d.instance.RequestStream(ctx, d.address(p))
+}
+
+func (l *link) RequestChannel(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
+	d := l.Load()
+	return d.instance.RequestChannel(ctx, d.address(p), in)
 }
-- 
2.43.0


From 41bce2c2fd513ee90274aa99a3c3bbc51e041955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:10 +0000
Subject: [PATCH 44/75] fix: read empty custom sections and reject sizes beyond
 the module

---
 transport/wasmrs/customsections/customsections.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/transport/wasmrs/customsections/customsections.go b/transport/wasmrs/customsections/customsections.go
index 480e332..297d453 100644
--- a/transport/wasmrs/customsections/customsections.go
+++ b/transport/wasmrs/customsections/customsections.go
@@ -106,6 +106,10 @@ func decodeUTF8(r *bytes.Reader, contextFormat string, contextArgs ...interface{
 		return "", 0, fmt.Errorf("failed to read %s size: %w", fmt.Sprintf(contextFormat, contextArgs...), err)
 	}
 
+	if uint64(size) > uint64(r.Len()) {
+		return "", 0, fmt.Errorf("failed to read %s: %w", fmt.Sprintf(contextFormat, contextArgs...), io.ErrUnexpectedEOF)
+	}
+
 	buf := make([]byte, size)
 	if _, err = io.ReadFull(r, buf); err != nil {
 		return "", 0, fmt.Errorf("failed to read %s: %w", fmt.Sprintf(contextFormat, contextArgs...), err)
@@ -122,8 +126,12 @@ func decodeUTF8(r *bytes.Reader, contextFormat string, contextArgs ...interface{
 //
 // See https://www.w3.org/TR/2019/REC-wasm-core-1-20191205/#custom-section%E2%91%A0
 func decodeCustomSection(r *bytes.Reader, name string, limit uint64) (result *wasm.CustomSection, err error) {
+	if limit > uint64(r.Len()) {
+		return nil, io.ErrUnexpectedEOF
+	}
+
 	buf := make([]byte, limit)
-	_, err = r.Read(buf)
+	_, err = io.ReadFull(r, buf)
 
 	result = &wasm.CustomSection{
 		Name: name,
-- 
2.43.0


From f59034cd82f555634f4005de335c7ea44bf2ee7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:45 +0000
Subject: [PATCH 45/75] fix: send the metadata of a fragmented request once

---
 internal/frames/request_payload.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/frames/request_payload.go b/internal/frames/request_payload.go
index 9d73dab..4e0276d 100644
--- a/internal/frames/request_payload.go
+++ b/internal/frames/request_payload.go
@@ -162,6 +162,7 @@ func (f *RequestPayload) Fragment(maxFrameSize uint32) []Frame {
 			Complete:  false,
 			InitialN:  f.InitialN,
 		})
+		metadata = nil
 	}
 
 	frames = splitPayloads(frames, f.StreamID, true, f.Complete, maxFrameSize, data, metadata)
-- 
2.43.0


From e1c2f48796beb0220e477ede6463d8983bb0a89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:58 +0000
Subject: [PATCH 46/75] fix: tell a flux source that subscribes late of a
 cancellation

---
 rx/flux/flux.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rx/flux/flux.go b/rx/flux/flux.go
index db52d6a..363d7ca 100644
--- a/rx/flux/flux.go
+++ b/rx/flux/flux.go
@@ -229,7 +229,11 @@ func (s *subscriber[T]) finally(signal rx.SignalType, callbacks []rx.FnFinally)
 func (s *subscriber[T]) OnSubscribe(sub OnSubscribe) {
 	s.f.mu.Lock()
 	if s.closed {
+		cancelled := s.signal == rx.SignalCancel
 		s.f.mu.Unlock()
+		if cancelled && sub.Cancel != nil {
+			sub.Cancel() // The source could not be told earlier.
+		}
 		return
 	}
 	s.sub = sub
-- 
2.43.0


From eec4dc9eb64b4707fc1b7a24e4df87737ba2bf50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:51 +0000
Subject: [PATCH 47/75] fix: do not reply to fire-and-forget requests that
 cannot be handled

---
 handler/handler.go                | 7 ++-----
 transport/wasmrs/guest/guest.go   | 7 ++-----
 transport/wasmrs/host/instance.go | 7 ++-----
 3 files changed, 6 insertions(+), 15 deletions(-)

diff --git a/handler/handler.go b/handler/handler.go
index c9245b4..d548c5c 100644
--- a/handler/handler.go
+++ b/handler/handler.go
@@ -352,17 +352,14 @@ func (i *Handler) handleRequestResponse(ctx context.Context, streamID uint32, da
 }
 
 func (i *Handler) handleFireAndForget(ctx context.Context, streamID uint32, data, metadata []byte) {
-	if !i.checkMetadata(streamID, metadata) {
+	// There is no reply, not even about an error.
+	if len(metadata) < 8 {
 		return
 	}
 
 	operationID := binary.BigEndian.Uint32(metadata)
 	handler := invoke.GetFireAndForgetHandler(operationID)
 	if handler == nil {
-		i.SendFrame(&frames.Error{
-			StreamID: streamID,
-			Data:     "not_found",
-		})
 		return
 	}
 
diff --git a/transport/wasmrs/guest/guest.go b/transport/wasmrs/guest/guest.go
index 077c21c..f526518 100644
--- a/transport/wasmrs/guest/guest.go
+++ b/transport/wasmrs/guest/guest.go
@@ -307,17 +307,14 @@ func handleRequestResponse(ctx context.Context, streamID uint32, data, metadata
 }
 
 func handleFireAndForget(ctx context.Context, streamID uint32, data, metadata []byte) {
-	if !checkMetadata(streamID, metadata) {
+	// There is no reply, not even about an error.
+	if len(metadata) < 8 {
 		return
 	}
 
 	operationID := binary.BigEndian.Uint32(metadata)
 	handler := invoke.GetFireAndForgetHandler(operationID)
 	if handler == nil {
-		sendFrame(&frames.Error{
-			StreamID: streamID,
-			Data:     "not_found",
-		})
 		return
 	}
 
diff --git a/transport/wasmrs/host/instance.go b/transport/wasmrs/host/instance.go
index 2cc56c8..8b76807 100644
--- a/transport/wasmrs/host/instance.go
+++ b/transport/wasmrs/host/instance.go
@@ -598,7 +598,8 @@ func (i *Instance) handleRequestResponse(ctx context.Context, streamID uint32, d
 }
 
 func (i *Instance) handleFireAndForget(ctx context.Context, streamID uint32, data, metadata []byte) {
-	if !i.checkMetadata(streamID, metadata) {
+	// There is no reply, not even about an error.
+	if len(metadata) < 8 {
 		return
 	}
 
@@ -606,10 +607,6 @@ func (i *Instance) handleFireAndForget(ctx context.Context, streamID uint32, dat
 	ctx = i.parentContext(ctx, metadata)
 	handler := i.getFireAndForgetHandler(operationID)
 	if handler == nil {
-		i.SendFrame(&frames.Error{
-			StreamID: streamID,
-			Data:     "not_found",
-		})
 		return
 	}
 	p := payload.New(data, metadata)
-- 
2.43.0


From 4005bd169dc602406f80511117d1b992710d5a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:55 +0000
Subject: [PATCH 48/75] fix: ask for at most the demand that a frame can carry

---
 proxy/flux.go      | 3 +++
 proxy/responder.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/proxy/flux.go b/proxy/flux.go
index 2897d5a..5458f32 100644
--- a/proxy/flux.go
+++ b/proxy/flux.go
@@ -99,6 +99,9 @@ func (s *streamFlux) Notify(fn rx.FnFinally) {
 }
 
 func (s *streamFlux) Request(n int) {
+	if n > rx.RequestMax {
+		n = rx.RequestMax // What a frame can carry.
+	}
 	s.mu.Lock()
 	if s.complete || s.canceled {
 		s.mu.Unlock()
diff --git a/proxy/responder.go b/proxy/responder.go
index 0ce50a4..ade6952 100644
--- a/proxy/responder.go
+++ b/proxy/responder.go
@@ -68,6 +68,9 @@ func (r *Responder) Input() flux.Flux[payload.Payload] {
 	return flux.Create(func(sink flux.Sink[payload.Payload]) {
 		sink.OnSubscribe(flux.OnSubscribe{
 			Request: func(n int) {
+				if n > rx.RequestMax {
+					n = rx.RequestMax // What a frame can carry.
+				}
 				r.sendFrame(&frames.RequestN{
 					StreamID: r.streamID,
 					N:        uint32(n),
-- 
2.43.0


From e8f58f3047302d96a7ea74358abdbd9c1435ea5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:28 +0000
Subject: [PATCH 49/75] fix: drop elements a flux processor gets after its end

---
 rx/flux/processor.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rx/flux/processor.go b/rx/flux/processor.go
index 571219c..d813e9e 100644
--- a/rx/flux/processor.go
+++ b/rx/flux/processor.go
@@ -40,6 +40,9 @@ func NewProcessor[T any]() Processor[T] {
 func (p *processor[T]) Next(value T) {
 	p.mu.Lock()
 	sink := p.sink
+	if p.terminal != nil {
+		sink = nil // The stream has ended.
+	}
 	p.mu.Unlock()
 	if sink != nil {
 		sink.Next(value)
-- 
2.43.0


From c90c63c975fe9516e75e11530725b28ab227156a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:24 +0000
Subject: [PATCH 50/75] fix: ignore requests on stream IDs that the peer must
 not use

---
 handler/handler.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/handler/handler.go b/handler/handler.go
index d548c5c..1e537f3 100644
--- a/handler/handler.go
+++ b/handler/handler.go
@@ -24,6 +24,7 @@ var (
 
 type Handler struct {
 	ctx          context.Context
+	mode         Mode
 	streamIDs    uint64
 	nextStreamID func() (id uint32, firstLoop bool)
 
@@ -64,7 +65,8 @@ const (
 
 func New(ctx context.Context, mode Mode) *Handler {
 	h := Handler{
-		ctx: ctx,
+		ctx:  ctx,
+		mode: mode,
 	}
 	switch mode {
 	case ClientMode:
@@ -181,6 +183,10 @@ func (i *Handler) HandleFrame(f frames.Frame) (err error) {
 		}
 
 	case *frames.RequestPayload:
+		if i.isOwn(streamID) {
+			// The peer must not use the IDs of this side.
+			return nil
+		}
 		switch frameType {
 		case frames.FrameTypeRequestResponse:
 			// if i.checkFollows(&rr) {
@@ -299,6 +305,11 @@ func (i *Handler) HandleFrame(f frames.Frame) (err error) {
 	return nil
 }
 
+// isOwn returns whether an ID is one of those that this side assigns.
+func (i *Handler) isOwn(streamID uint32) bool {
+	return streamID != 0 && (streamID&1 == 1) == (i.mode == ClientMode)
+}
+
 // acceptStream registers a stream of the peer unless its ID is in use.
 func (i *Handler) acceptStream(s proxy.Stream) bool {
 	if _, ok := i.getStream(s.StreamID()); ok {
-- 
2.43.0


From 91e0371d9b60fde6566f78f8594a4e11c6dee829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:25 +0000
Subject: [PATCH 51/75] fix: end a channel's input after the item that is being
 passed on

---
 proxy/responder.go | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/proxy/responder.go b/proxy/responder.go
index ade6952..31a9c25 100644
--- a/proxy/responder.go
+++ b/proxy/responder.go
@@ -26,6 +26,7 @@ type Responder struct {
 	sink    flux.Sink[payload.Payload]       // Receives the input, once subscribed.
 	inDone  bool                             // The input has ended.
 	inEnd   func(flux.Sink[payload.Payload]) // How the input has ended.
+	inBusy  int                              // Items that are being passed on.
 }
 
 var _ = (Stream)((*Responder)(nil))
@@ -254,12 +255,24 @@ func (r *Responder) abandonInput() bool {
 func (r *Responder) OnNext(p payload.Payload) {
 	r.mu.Lock()
 	sink := r.sink
-	if r.inDone {
-		sink = nil
+	if r.inDone || sink == nil {
+		r.mu.Unlock()
+		return
 	}
+	r.inBusy++
 	r.mu.Unlock()
-	if sink != nil {
-		sink.Next(p)
+
+	sink.Next(p)
+
+	r.mu.Lock()
+	r.inBusy--
+	end := r.inEnd
+	if r.inBusy > 0 {
+		end = nil
+	}
+	r.mu.Unlock()
+	if end != nil {
+		end(sink)
 	}
 }
 
@@ -280,6 +293,9 @@ func (r *Responder) terminateInput(end func(flux.Sink[payload.Payload])) {
 	r.inDone = true
 	r.inEnd = end
 	sink := r.sink
+	if r.inBusy > 0 {
+		sink = nil // Follows the item that is being passed on.
+	}
 	r.mu.Unlock()
 	if sink != nil {
 		end(sink)
-- 
2.43.0


From 790033f783d8c1b41e25a787fee73c070e789ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:29 +0000
Subject: [PATCH 52/75] fix: end a stream after the item that is being passed
 on

---
 proxy/flux.go | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/proxy/flux.go b/proxy/flux.go
index 5458f32..f390638 100644
--- a/proxy/flux.go
+++ b/proxy/flux.go
@@ -42,6 +42,8 @@ type streamFlux struct {
 	sent       bool            // The request frame is sent.
 	canceled   bool            // No more signals are wanted.
 	complete   bool            // The peer has ended its stream.
+	busy       int             // Items that are being passed on.
+	err        error           // Ends the stream after them.
 	inSub      rx.Subscription // Subscription to the input, once subscribed.
 	inDemand   int             // Demand for the input until it is subscribed.
 	inCanceled bool            // The peer does not want the input.
@@ -57,7 +59,26 @@ func (s *streamFlux) StreamID() uint32 {
 }
 
 func (s *streamFlux) OnNext(p payload.Payload) {
+	s.mu.Lock()
+	if s.complete {
+		s.mu.Unlock()
+		return
+	}
+	s.busy++
+	s.mu.Unlock()
+
 	s.Processor.Next(p)
+
+	s.mu.Lock()
+	s.busy--
+	err := s.err
+	if s.busy > 0 {
+		err = nil
+	}
+	s.mu.Unlock()
+	if err != nil {
+		s.Processor.Error(err)
+	}
 }
 
 func (s *streamFlux) OnComplete() {
@@ -69,11 +90,17 @@ func (s *streamFlux) OnComplete() {
 
 func (s *streamFlux) OnError(err error) {
 	s.mu.Lock()
+	busy := s.busy > 0
+	if busy && !s.complete {
+		s.err = err // Follows the item that is being passed on.
+	}
 	s.complete = true
 	s.mu.Unlock()
 	// The error ends the input as well.
 	s.cancelInput()
-	s.Processor.Error(err)
+	if !busy {
+		s.Processor.Error(err)
+	}
 }
 
 // Done returns whether the streams of both directions have ended.
-- 
2.43.0


From 554db085ed9dd7533f4f158562dd32ded61568e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:08 +0000
Subject: [PATCH 53/75] fix: stop the input of a channel that is canceled while
 it completes

---
 proxy/flux.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/proxy/flux.go b/proxy/flux.go
index f390638..481ff30 100644
--- a/proxy/flux.go
+++ b/proxy/flux.go
@@ -236,7 +236,8 @@ func (s *streamFlux) send(f frames.Frame) bool {
 
 func (s *streamFlux) Cancel() {
 	s.mu.Lock()
-	if s.complete || s.canceled {
+	inOpen := s.in != nil && !s.inDone && !s.inCanceled
+	if s.canceled || (s.complete && !inOpen) {
 		s.mu.Unlock()
 		return
 	}
-- 
2.43.0


From a338e77e4082924bf104f774704bcc0a3b47d811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:13 +0000
Subject: [PATCH 54/75] fix: report the error of a codec that cannot be encoded
 as payload

---
 transform/transform.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/transform/transform.go b/transform/transform.go
index 886125c..9b18f98 100644
--- a/transform/transform.go
+++ b/transform/transform.go
@@ -324,11 +324,10 @@ func CodecDecode(raw payload.Payload, value msgpack.Codec) error {
 }
 
 func CodecEncode(value msgpack.Codec) (payload.Payload, error) {
-	sizer := msgpack.NewSizer()
-	value.Encode(&sizer)
-	buf := make([]byte, sizer.Len())
-	encoder := msgpack.NewEncoder(buf)
-	value.Encode(&encoder)
+	buf, err := msgpack.ToBytes(value)
+	if err != nil {
+		return nil, err
+	}
 	return payload.New(buf), nil
 }
 
-- 
2.43.0


From efe859c4e3730173360b5fe21ba939dd17ed725f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:17 +0000
Subject: [PATCH 55/75] fix: report what a codec writes without success in
 ToBytes

---
 msgpack/codec.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/msgpack/codec.go b/msgpack/codec.go
index 245a220..a9656cd 100644
--- a/msgpack/codec.go
+++ b/msgpack/codec.go
@@ -19,11 +19,17 @@ func ToBytes(codec Codec) ([]byte, error) {
 	if err := codec.Encode(&sizer); err != nil {
 		return nil, err
 	}
+	if err := sizer.Err(); err != nil {
+		return nil, err
+	}
 	buffer := make([]byte, sizer.Len())
 	encoder := NewEncoder(buffer)
 	if err := codec.Encode(&encoder); err != nil {
 		return nil, err
 	}
+	if err := encoder.Err(); err != nil {
+		return nil, err
+	}
 	return buffer, nil
 }
 
-- 
2.43.0


From de3473065bf5bf4d91d0af367f94f2f60baf7512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:38 +0000
Subject: [PATCH 56/75] fix: refuse UUIDs without their braces

---
 types/uuid/uuid.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/types/uuid/uuid.go b/types/uuid/uuid.go
index 61a3725..1d18343 100644
--- a/types/uuid/uuid.go
+++ b/types/uuid/uuid.go
@@ -76,6 +76,9 @@ func Parse(s string) (UUID, error) {
 
 	// {xxxxxxxx-xxxx-xxxx-xxxx-xxxxxxxxxxxx}
 	case 36 + 2:
+		if s[0] != '{' || s[37] != '}' {
+			return uuid, errors.New("invalid UUID format")
+		}
 		s = s[1:]
 
 	// xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx
@@ -122,6 +125,9 @@ func ParseBytes(b []byte) (UUID, error) {
 		}
 		b = b[9:]
 	case 36 + 2: // {xxxxxxxx-xxxx-xxxx-xxxx-xxxxxxxxxxxx}
+		if b[0] != '{' || b[37] != '}' {
+			return uuid, errors.New("invalid UUID format")
+		}
 		b = b[1:]
 	case 32: // xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx
 		var ok bool
-- 
2.43.0


From 71244f846f390591c96b696ace335c981530b66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:42 +0000
Subject: [PATCH 57/75] fix: skip truncated frames of the host in the guest
 instead of trapping

---
 transport/wasmrs/guest/guest.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/transport/wasmrs/guest/guest.go b/transport/wasmrs/guest/guest.go
index f526518..8e5d7ca 100644
--- a/transport/wasmrs/guest/guest.go
+++ b/transport/wasmrs/guest/guest.go
@@ -32,6 +32,9 @@ var (
 	fragmentedPayloads map[uint32]fragmentedPayload
 )
 
+// lengthFieldSize is the size of the length that precedes a frame.
+const lengthFieldSize = 3
+
 var errFrameTooLarge = errors.New("frame exceeds the buffer of the host")
 
 type fragmentedPayload struct {
@@ -70,16 +73,24 @@ func OperationList() {
 func GuestSend(endPos uint32) {
 	ctx := context.Background()
 	var lengthBuf [4]byte
-	curPos := uint32(0)
 	buf := guestBuffer
+	if uint64(endPos) < uint64(len(buf)) {
+		buf = buf[:endPos]
+	}
 
-	for curPos < endPos {
+	for len(buf) >= lengthFieldSize {
 		copy(lengthBuf[1:], buf)
+		buf = buf[lengthFieldSize:]
 		frameLen := binary.BigEndian.Uint32(lengthBuf[:])
+		if uint64(frameLen) > uint64(len(buf)) {
+			return // Truncated
+		}
 		frameBuf := make([]byte, frameLen)
-		copy(frameBuf, buf[3:])
-		curPos += 3 + frameLen
-		buf = buf[3+frameLen:]
+		copy(frameBuf, buf)
+		buf = buf[frameLen:]
+		if frameLen < frames.FrameHeaderLen {
+			continue
+		}
 
 		// lengthPos = 1 // Reset for next frame
 		header := frames.ParseFrameHeader(frameBuf)
-- 
2.43.0


From ecefa89cd78ac34d25c76c5ade195251195d95de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:16 +0000
Subject: [PATCH 58/75] fix: answer a request that cannot be decoded on its own
 stream

---
 transport/wasmrs/guest/guest.go   | 14 +++-----------
 transport/wasmrs/host/instance.go | 14 +++-----------
 2 files changed, 6 insertions(+), 22 deletions(-)

diff --git a/transport/wasmrs/guest/guest.go b/transport/wasmrs/guest/guest.go
index 8e5d7ca..d6da666 100644
--- a/transport/wasmrs/guest/guest.go
+++ b/transport/wasmrs/guest/guest.go
@@ -117,7 +117,7 @@ func GuestSend(endPos uint32) {
 			var rr frames.RequestPayload
 			if err := rr.Decode(&header, buffer); err != nil {
 				sendFrame(&frames.Error{
-					StreamID: rr.StreamID,
+					StreamID: header.StreamID(),
 					Data:     err.Error(),
 				})
 				continue
@@ -132,10 +132,6 @@ func GuestSend(endPos uint32) {
 		case frames.FrameTypeRequestFNF:
 			var rr frames.RequestPayload
 			if err := rr.Decode(&header, buffer); err != nil {
-				sendFrame(&frames.Error{
-					StreamID: rr.StreamID,
-					Data:     err.Error(),
-				})
 				continue
 			}
 			if checkFollows(&rr) {
@@ -149,7 +145,7 @@ func GuestSend(endPos uint32) {
 			var rs frames.RequestPayload
 			if err := rs.Decode(&header, buffer); err != nil {
 				sendFrame(&frames.Error{
-					StreamID: rs.StreamID,
+					StreamID: header.StreamID(),
 					Data:     err.Error(),
 				})
 				continue
@@ -165,7 +161,7 @@ func GuestSend(endPos uint32) {
 			var rc frames.RequestPayload
 			if err := rc.Decode(&header, buffer); err != nil {
 				sendFrame(&frames.Error{
-					StreamID: rc.StreamID,
+					StreamID: header.StreamID(),
 					Data:     err.Error(),
 				})
 				continue
@@ -180,10 +176,6 @@ func GuestSend(endPos uint32) {
 		case frames.FrameTypeRequestN:
 			var rn frames.RequestN
 			if err := rn.Decode(&header, buffer); err != nil {
-				sendFrame(&frames.Error{
-					StreamID: rn.StreamID,
-					Data:     err.Error(),
-				})
 				continue
 			}
 
diff --git a/transport/wasmrs/host/instance.go b/transport/wasmrs/host/instance.go
index 8b76807..316a502 100644
--- a/transport/wasmrs/host/instance.go
+++ b/transport/wasmrs/host/instance.go
@@ -368,7 +368,7 @@ func (i *Instance) recvOne(data []byte) {
 		var rr frames.RequestPayload
 		if err := rr.Decode(&header, data); err != nil {
 			i.SendFrame(&frames.Error{
-				StreamID: rr.StreamID,
+				StreamID: header.StreamID(),
 				Data:     err.Error(),
 			})
 			return
@@ -384,10 +384,6 @@ func (i *Instance) recvOne(data []byte) {
 	case frames.FrameTypeRequestFNF:
 		var rr frames.RequestPayload
 		if err := rr.Decode(&header, data); err != nil {
-			i.SendFrame(&frames.Error{
-				StreamID: rr.StreamID,
-				Data:     err.Error(),
-			})
 			return
 		}
 		if i.checkFollows(&rr) {
@@ -401,7 +397,7 @@ func (i *Instance) recvOne(data []byte) {
 		var rs frames.RequestPayload
 		if err := rs.Decode(&header, data); err != nil {
 			i.SendFrame(&frames.Error{
-				StreamID: rs.StreamID,
+				StreamID: header.StreamID(),
 				Data:     err.Error(),
 			})
 			return
@@ -425,7 +421,7 @@ func (i *Instance) recvOne(data []byte) {
 		var rc frames.RequestPayload
 		if err := rc.Decode(&header, data); err != nil {
 			i.SendFrame(&frames.Error{
-				StreamID: rc.StreamID,
+				StreamID: header.StreamID(),
 				Data:     err.Error(),
 			})
 			return
@@ -448,10 +444,6 @@ func (i *Instance) recvOne(data []byte) {
 	case frames.FrameTypeRequestN:
 		var rn frames.RequestN
 		if err := rn.Decode(&header, data); err != nil {
-			i.SendFrame(&frames.Error{
-				StreamID: rn.StreamID,
-				Data:     err.Error(),
-			})
 			return
 		}
 
-- 
2.43.0


From 11c47c646a0879f804c673562db73b7c81eeb832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:16 +0000
Subject: [PATCH 59/75] fix: end what a guest had requested before it failed

---
 transport/wasmrs/host/instance.go | 33 ++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/transport/wasmrs/host/instance.go b/transport/wasmrs/host/instance.go
index 316a502..6cc4292 100644
--- a/transport/wasmrs/host/instance.go
+++ b/transport/wasmrs/host/instance.go
@@ -23,7 +23,7 @@ type Instance struct {
 	ctx       context.Context
 	m         api.Module
 	sendCh    chan frames.Frame
-	recvBuf   *buffer.Unbounded[[]byte]
+	recvBuf   *buffer.Unbounded[received]
 	sendFn    api.Function
 	sendPtr   uint32
 	sendSize  uint32
@@ -64,6 +64,12 @@ var (
 	errFrameTooLarge  = errors.New("frame exceeds the buffer of the guest")
 )
 
+// received is a frame of the guest, or the error with which it failed.
+type received struct {
+	frame []byte
+	err   error
+}
+
 type fragmentedPayload struct {
 	frameType frames.FrameType
 	initialN  uint32
@@ -86,7 +92,7 @@ func NewInstance(ctx context.Context, m api.Module) (*Instance, error) {
 		ctx:                ctx,
 		m:                  m,
 		sendCh:             make(chan frames.Frame, 100),
-		recvBuf:            buffer.NewUnbounded[[]byte](),
+		recvBuf:            buffer.NewUnbounded[received](),
 		sendFn:             send,
 		maxFrameSize:       1024 * 1024,
 		fragmentedPayloads: make(map[uint32]fragmentedPayload),
@@ -290,7 +296,7 @@ func (i *Instance) sendOne(f frames.Frame) {
 	buf, ok := i.m.Memory().Read(i.sendPtr, i.sendSize)
 	byteCount := f.Size()
 	if !ok || uint64(len(buf)) < uint64(byteCount)+lengthFieldSize {
-		i.failStreams(errFrameTooLarge)
+		i.guestFailed(errFrameTooLarge)
 		return
 	}
 
@@ -301,10 +307,17 @@ func (i *Instance) sendOne(f frames.Frame) {
 
 	// Send frame data to guest.
 	if _, err := i.sendFn.Call(ctx, uint64(3+byteCount)); err != nil {
-		i.failStreams(fmt.Errorf("guest failed: %w", err))
+		i.guestFailed(fmt.Errorf("guest failed: %w", err))
 	}
 }
 
+// guestFailed ends all streams after the frames that the guest has sent
+// before. It leaves that to the receive loop because the send loop must not
+// wait for whoever sends frames about it.
+func (i *Instance) guestFailed(err error) {
+	i.recvBuf.Put(received{err: err})
+}
+
 func (i *Instance) Operations() operations.Table {
 	return i.operations
 }
@@ -328,16 +341,22 @@ func (i *Instance) hostSend(ctx context.Context, recvPos uint32) {
 		}
 		buf := make([]byte, int(frameLength))
 		copy(buf, buffer)
-		i.recvBuf.Put(buf)
+		i.recvBuf.Put(received{frame: buf})
 		buffer = buffer[frameLength:]
 	}
 }
 
 func (i *Instance) recvLoop() {
-	for buf := range i.recvBuf.Get() {
-		i.recvOne(buf)
+	for r := range i.recvBuf.Get() {
+		if r.err != nil {
+			i.failStreams(r.err)
+		} else {
+			i.recvOne(r.frame)
+		}
 		i.recvBuf.Load()
 	}
+	// End what the last frames have started.
+	i.failStreams(errInstanceClosed)
 }
 
 func (i *Instance) recvOne(data []byte) {
-- 
2.43.0


From 64c627da5ad09abc2cfa612e9488ad6dd91a8273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:17 +0000
Subject: [PATCH 60/75] fix: guard the operation table of a host instance

---
 transport/wasmrs/host/instance.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/transport/wasmrs/host/instance.go b/transport/wasmrs/host/instance.go
index 6cc4292..70997b1 100644
--- a/transport/wasmrs/host/instance.go
+++ b/transport/wasmrs/host/instance.go
@@ -38,7 +38,7 @@ type Instance struct {
 	// increment by 2 sequentially, such as 2, 4, 6, 8, etc.
 	hostStreams proxy.Lookup
 
-	mu             sync.Mutex // Guards activeRequests, closing and the handlers.
+	mu             sync.Mutex // Guards activeRequests, closing, operations and the handlers.
 	activeRequests int
 	closing        bool
 	idle           chan struct{} // Closed when closing and no requests are active.
@@ -319,12 +319,16 @@ func (i *Instance) guestFailed(err error) {
 }
 
 func (i *Instance) Operations() operations.Table {
+	i.mu.Lock()
+	defer i.mu.Unlock()
 	return i.operations
 }
 
 func (i *Instance) opList(ctx context.Context, opPtr uint32, opSize uint32) {
 	buf, _ := i.m.Memory().Read(opPtr, opSize)
 	operations, _ := operations.FromBytes(buf)
+	i.mu.Lock()
+	defer i.mu.Unlock()
 	i.operations = operations
 }
 
-- 
2.43.0


From dcb56b5fa70e85e917a573e73518da56a5e27db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:40 +0000
Subject: [PATCH 61/75] fix: link a module of the mesh before calls reach it

---
 transport/wasmrs/mesh/mesh.go | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/transport/wasmrs/mesh/mesh.go b/transport/wasmrs/mesh/mesh.go
index df020c7..21dc664 100644
--- a/transport/wasmrs/mesh/mesh.go
+++ b/transport/wasmrs/mesh/mesh.go
@@ -195,32 +195,36 @@ func (m *Mesh) linkOperations(inst *host.Instance) {
 	}
 
 	numExported := 0
+	replaced := make(map[*link]*destination)
 	for _, op := range opers {
 		if tbl != nil {
 			tbl.AddRow(op.Namespace, op.Operation, op.Direction, op.Type, op.Index)
 		}
 
-		switch op.Direction {
-		case operations.Export:
+		if op.Direction == operations.Export {
 			ns, ok := m.exports[op.Namespace]
 			if !ok {
 				ns = make(map[export]*link)
 				m.exports[op.Namespace] = ns
 			}
+			d := &destination{
+				instance: inst,
+				index:    op.Index,
+			}
 			key := export{op.Type, op.Operation}
-			l, ok := ns[key]
-			if !ok {
+			if l, ok := ns[key]; ok {
+				replaced[l] = d
+			} else {
 				l = &link{}
+				l.Store(d)
 				ns[key] = l
 			}
-
-			l.Store(&destination{
-				instance: inst,
-				index:    op.Index,
-			})
 			numExported++
+		}
+	}
 
-		case operations.Import:
+	for _, op := range opers {
+		if op.Direction == operations.Import {
 			if ok := m.linkOperation(inst, op); !ok {
 				m.unsatisfied = append(m.unsatisfied, &pending{
 					instance: inst,
@@ -230,6 +234,11 @@ func (m *Mesh) linkOperations(inst *host.Instance) {
 		}
 	}
 
+	// Links that are in use lead to the instance once it is linked itself.
+	for l, d := range replaced {
+		l.Store(d)
+	}
+
 	if numExported > 0 && len(m.unsatisfied) > 0 {
 		filtered := m.unsatisfied[:0]
 		for _, u := range m.unsatisfied {
-- 
2.43.0


From 0143062d482ea6104ce3bb54ff69f5568c808fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:36 +0000
Subject: [PATCH 62/75] fix: end the mono of a flux that has no elements

---
 transform/transform.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/transform/transform.go b/transform/transform.go
index 9b18f98..3aba9d2 100644
--- a/transform/transform.go
+++ b/transform/transform.go
@@ -1,6 +1,7 @@
 package transform
 
 import (
+	"errors"
 	"time"
 
 	"golang.org/x/exp/constraints"
@@ -509,12 +510,18 @@ func FluxToVoid[T any](f flux.Flux[T]) mono.Void {
 	})
 }
 
+var errNoElement = errors.New("flux completed without an element")
+
 func FluxToMono[T any](f flux.Flux[T]) mono.Mono[T] {
 	return mono.Create(func(sink mono.Sink[T]) {
 		f.Subscribe(flux.Subscribe[T]{
 			OnNext: func(val T) {
 				sink.Success(val)
 			},
+			OnComplete: func() {
+				// The first element, if any, was signaled before.
+				sink.Error(errNoElement)
+			},
 			OnError: func(err error) {
 				sink.Error(err)
 			},
-- 
2.43.0


From 543dd6240b0fb68b3d1e73e59ee2861fd010cda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:15 +0000
Subject: [PATCH 63/75] fix: end the input of a channel that is requested as
 complete

---
 handler/handler.go                | 3 +++
 transport/wasmrs/guest/guest.go   | 7 +++++--
 transport/wasmrs/host/instance.go | 3 +++
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/handler/handler.go b/handler/handler.go
index 1e537f3..fff7b43 100644
--- a/handler/handler.go
+++ b/handler/handler.go
@@ -224,6 +224,9 @@ func (i *Handler) HandleFrame(f frames.Frame) (err error) {
 			// Register before the frames that follow are handled.
 			s := proxy.NewResponder(i.ctx, streamID, true, i.SendFrame, nil)
 			if i.acceptStream(s) {
+				if v.Complete {
+					s.OnComplete() // There is no input.
+				}
 				go i.handleRequestChannel(i.ctx, s, v.Data, v.Metadata, v.InitialN)
 			}
 		}
diff --git a/transport/wasmrs/guest/guest.go b/transport/wasmrs/guest/guest.go
index d6da666..8fe7246 100644
--- a/transport/wasmrs/guest/guest.go
+++ b/transport/wasmrs/guest/guest.go
@@ -171,7 +171,7 @@ func GuestSend(endPos uint32) {
 				continue
 			}
 
-			handleRequestChannel(ctx, rc.StreamID, rc.Data, rc.Metadata, rc.InitialN)
+			handleRequestChannel(ctx, rc.StreamID, rc.Data, rc.Metadata, rc.InitialN, rc.Complete)
 
 		case frames.FrameTypeRequestN:
 			var rn frames.RequestN
@@ -349,7 +349,7 @@ func handleRequestStream(ctx context.Context, streamID uint32, data, metadata []
 	s.Output(handler(ctx, p), initialN)
 }
 
-func handleRequestChannel(ctx context.Context, streamID uint32, data, metadata []byte, initialN uint32) {
+func handleRequestChannel(ctx context.Context, streamID uint32, data, metadata []byte, initialN uint32, complete bool) {
 	if !checkMetadata(streamID, metadata) {
 		return
 	}
@@ -367,6 +367,9 @@ func handleRequestChannel(ctx context.Context, streamID uint32, data, metadata [
 	p := payload.New(data, metadata)
 	s := proxy.NewResponder(ctx, streamID, true, sendFrame, nil)
 	registerStream(s) // Need to register for RequestN frames
+	if complete {
+		s.OnComplete() // There is no input.
+	}
 	s.Output(handler(ctx, p, s.Input()), initialN)
 }
 
diff --git a/transport/wasmrs/host/instance.go b/transport/wasmrs/host/instance.go
index 70997b1..34503d9 100644
--- a/transport/wasmrs/host/instance.go
+++ b/transport/wasmrs/host/instance.go
@@ -462,6 +462,9 @@ func (i *Instance) recvOne(data []byte) {
 		}
 		i.registerStream(s)
 		i.addActiveRequest()
+		if rc.Complete {
+			s.OnComplete() // There is no input.
+		}
 		go i.handleRequestChannel(ctx, s, rc.Data, rc.Metadata, rc.InitialN)
 
 	case frames.FrameTypeRequestN:
-- 
2.43.0


From 6b7f0638fd85e6087eab4bd643d26fe92623078c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:19 +0000
Subject: [PATCH 64/75] fix: stop accepting when a listener fails after it was
 closed

A listener may report being closed with an error of its own. Listen took it
for a failed connection and tried again forever.
---
 transport/rsocket/tcp_transport.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/transport/rsocket/tcp_transport.go b/transport/rsocket/tcp_transport.go
index 2d0e485..01fd010 100644
--- a/transport/rsocket/tcp_transport.go
+++ b/transport/rsocket/tcp_transport.go
@@ -95,6 +95,12 @@ func (t *tcpServerTransport) Listen(ctx context.Context, notifier chan<- bool) (
 			break
 		}
 		if err != nil {
+			select {
+			case <-t.done:
+				// The listener is closed, whichever way it says so.
+				return nil
+			default:
+			}
 			err = fmt.Errorf("accept next conn failed: %w", err)
 			continue
 		}
-- 
2.43.0


From 43fbf07c8d58dbdc5091f028cc32c517fecd4e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:23 +0000
Subject: [PATCH 65/75] fix: do not ask a source again while it answers in
 guests

Demand from inside of an element reached the source at once. SliceResponse
then served the same elements again without end, and the stack grew with
the elements of other sources.
---
 rx/flux/flux_webassembly.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/rx/flux/flux_webassembly.go b/rx/flux/flux_webassembly.go
index 6867da6..1ef1ac1 100644
--- a/rx/flux/flux_webassembly.go
+++ b/rx/flux/flux_webassembly.go
@@ -6,8 +6,25 @@ package flux
 type Blockable[T any] interface {
 }
 
-type mutex struct{}
+type mutex struct {
+	busy    bool
+	pending []func()
+}
 
+// doRequest passes on demand. Demand that arrives while the source handles
+// earlier demand follows after it.
 func (s *subscriber[T]) doRequest(request func(n int), n int) {
-	request(n)
+	s.mu.pending = append(s.mu.pending, func() { request(n) })
+	if s.mu.busy {
+		return
+	}
+	s.mu.busy = true
+	for len(s.mu.pending) > 0 {
+		next := s.mu.pending[0]
+		s.mu.pending = s.mu.pending[1:]
+		if !s.isClosed() {
+			next()
+		}
+	}
+	s.mu.busy = false
 }
-- 
2.43.0


From b13f8560d231329aac2cae9ea4ddfbf92830752f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:15 +0000
Subject: [PATCH 66/75] fix: Components end when their input fails or ends
 without a value

---
 transport/wasmrs/example/concat/generated.go        | 13 +++++++++++++
 transport/wasmrs/example/greeter/generated.go       | 13 +++++++++++++
 transport/wasmrs/example/greeter/greeter.go         |  3 +++
 transport/wasmrs/example/wordfrequency/generated.go |  6 ++++++
 .../wasmrs/example/wordfrequency/wordfrequency.go   |  3 +++
 5 files changed, 38 insertions(+)

diff --git a/transport/wasmrs/example/concat/generated.go b/transport/wasmrs/example/concat/generated.go
index 9107b4b..e23255f 100644
--- a/transport/wasmrs/example/concat/generated.go
+++ b/transport/wasmrs/example/concat/generated.go
@@ -2,6 +2,7 @@ package concat
 
 import (
 	"context"
+	"errors"
 
 	"github.com/nanobus/iota/go/invoke"
 	"github.com/nanobus/iota/go/msgpack"
@@ -14,6 +15,8 @@ import (
 
 const namespace = "concat"
 
+var errNoInput = errors.New("input completed without a value")
+
 type (
 	Concat struct {
 		Inputs  ConcatInputs
@@ -61,6 +64,9 @@ func concatHandler(ctx context.Context, pl payload.Payload, in flux.Flux[payload
 				p = payload.New(p.Data(), portIO.Encode())
 				sink.Next(p)
 			},
+			OnError: func(err error) {
+				sink.Error(err)
+			},
 			Finally: final,
 		})
 
@@ -96,6 +102,13 @@ func concatHandler(ctx context.Context, pl payload.Payload, in flux.Flux[payload
 					}
 				}
 			},
+			OnComplete: func() {
+				// The value, if any, was signaled before.
+				strings.Error(errNoInput)
+			},
+			OnError: func(err error) {
+				strings.Error(err)
+			},
 		})
 	})
 }
diff --git a/transport/wasmrs/example/greeter/generated.go b/transport/wasmrs/example/greeter/generated.go
index fec3912..2c4b1c7 100644
--- a/transport/wasmrs/example/greeter/generated.go
+++ b/transport/wasmrs/example/greeter/generated.go
@@ -2,6 +2,7 @@ package greeter
 
 import (
 	"context"
+	"errors"
 
 	"github.com/nanobus/iota/go/invoke"
 	"github.com/nanobus/iota/go/payload"
@@ -13,6 +14,8 @@ import (
 
 const namespace = "greeter"
 
+var errNoInput = errors.New("input completed without a value")
+
 type (
 	Greeter struct {
 		Inputs  GreeterInputs
@@ -60,6 +63,9 @@ func greeterHandler(ctx context.Context, pl payload.Payload, in flux.Flux[payloa
 				p = payload.New(p.Data(), portIO.Encode())
 				sink.Next(p)
 			},
+			OnError: func(err error) {
+				sink.Error(err)
+			},
 			Finally: final,
 		})
 
@@ -94,6 +100,13 @@ func greeterHandler(ctx context.Context, pl payload.Payload, in flux.Flux[payloa
 					}
 				}
 			},
+			OnComplete: func() {
+				// The value, if any, was signaled before.
+				inName.Error(errNoInput)
+			},
+			OnError: func(err error) {
+				inName.Error(err)
+			},
 		})
 	})
 }
diff --git a/transport/wasmrs/example/greeter/greeter.go b/transport/wasmrs/example/greeter/greeter.go
index 6e1fe84..e2cc3a4 100644
--- a/transport/wasmrs/example/greeter/greeter.go
+++ b/transport/wasmrs/example/greeter/greeter.go
@@ -11,5 +11,8 @@ func (g *Greeter) Process(ctx context.Context) {
 		OnSuccess: func(value string) {
 			g.Outputs.Message.Success("Hello, " + value)
 		},
+		OnError: func(err error) {
+			g.Outputs.Message.Error(err)
+		},
 	})
 }
diff --git a/transport/wasmrs/example/wordfrequency/generated.go b/transport/wasmrs/example/wordfrequency/generated.go
index 4387c43..efc670a 100644
--- a/transport/wasmrs/example/wordfrequency/generated.go
+++ b/transport/wasmrs/example/wordfrequency/generated.go
@@ -72,6 +72,9 @@ func wordFrequencyHandler(ctx context.Context, pl payload.Payload, in flux.Flux[
 				p := payload.New(nil, pp.Encode())
 				sink.Next(p)
 			},
+			OnError: func(err error) {
+				sink.Error(err)
+			},
 			Finally: final,
 		})
 
@@ -114,6 +117,9 @@ func wordFrequencyHandler(ctx context.Context, pl payload.Payload, in flux.Flux[
 			OnComplete: func() {
 				words.Complete()
 			},
+			OnError: func(err error) {
+				words.Error(err)
+			},
 		})
 	})
 }
diff --git a/transport/wasmrs/example/wordfrequency/wordfrequency.go b/transport/wasmrs/example/wordfrequency/wordfrequency.go
index cff1e34..39b6728 100644
--- a/transport/wasmrs/example/wordfrequency/wordfrequency.go
+++ b/transport/wasmrs/example/wordfrequency/wordfrequency.go
@@ -27,6 +27,9 @@ func (w *WordFrequency) Process(ctx context.Context) {
 				Request: flux.SliceResponse(w.Output.Counts, wc),
 			})
 		},
+		OnError: func(err error) {
+			w.Output.Counts.Error(err)
+		},
 	})
 }
 
-- 
2.43.0


From e63984292c4d40ea3d29094cbfd1af23862d44c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:17 +0000
Subject: [PATCH 67/75] fix: Items wait for the demand of the peer

---
 proxy/flux.go      | 42 +++++++++++++---------
 proxy/outlet.go    | 89 ++++++++++++++++++++++++++++++++++++++++++++++
 proxy/responder.go | 21 ++++++-----
 3 files changed, 128 insertions(+), 24 deletions(-)
 create mode 100644 proxy/outlet.go

diff --git a/proxy/flux.go b/proxy/flux.go
index 481ff30..b04be47 100644
--- a/proxy/flux.go
+++ b/proxy/flux.go
@@ -20,6 +20,7 @@ func Flux(ctx context.Context, request frames.RequestPayload, in flux.Flux[paylo
 		sendFrame: sendFrame,
 		register:  register,
 	}
+	ss.out.send = ss.sendNext
 	p.OnSubscribe(flux.OnSubscribe{
 		Request: ss.Request,
 		Cancel:  ss.Cancel,
@@ -35,6 +36,7 @@ type streamFlux struct {
 	in        flux.Flux[payload.Payload]
 	sendFrame func(frames.Frame) error
 	register  func(Stream)
+	out       outlet // Sends the input.
 
 	mu         sync.Mutex // Guards the fields below.
 	subscribed bool
@@ -171,26 +173,23 @@ func (s *streamFlux) Request(n int) {
 
 func (s *streamFlux) subscribeInput() {
 	s.in.Subscribe(flux.Subscribe[payload.Payload]{
-		OnNext: func(p payload.Payload) {
-			s.send(&frames.Payload{
-				StreamID: s.request.StreamID,
-				Metadata: p.Metadata(),
-				Data:     p.Data(),
-				Next:     true,
-			})
-		},
+		OnNext: s.out.next,
 		OnComplete: func() {
-			s.endInput()
-			s.send(&frames.Payload{
-				StreamID: s.request.StreamID,
-				Complete: true,
+			s.out.finish(func() {
+				s.endInput()
+				s.send(&frames.Payload{
+					StreamID: s.request.StreamID,
+					Complete: true,
+				})
 			})
 		},
 		OnError: func(err error) {
-			s.endInput()
-			s.send(&frames.Error{
-				StreamID: s.request.StreamID,
-				Data:     err.Error(),
+			s.out.finish(func() {
+				s.endInput()
+				s.send(&frames.Error{
+					StreamID: s.request.StreamID,
+					Data:     err.Error(),
+				})
 			})
 		},
 		NoRequest: true,
@@ -213,6 +212,15 @@ func (s *streamFlux) subscribeInput() {
 	}
 }
 
+func (s *streamFlux) sendNext(p payload.Payload) {
+	s.send(&frames.Payload{
+		StreamID: s.request.StreamID,
+		Metadata: p.Metadata(),
+		Data:     p.Data(),
+		Next:     true,
+	})
+}
+
 func (s *streamFlux) endInput() {
 	s.mu.Lock()
 	s.inDone = true
@@ -262,6 +270,7 @@ func (s *streamFlux) DoRequest(n int) {
 		s.inDemand += n
 	}
 	s.mu.Unlock()
+	s.out.request(n)
 	if sub != nil {
 		sub.Request(n)
 	}
@@ -277,6 +286,7 @@ func (s *streamFlux) cancelInput() {
 	s.inCanceled = true
 	sub := s.inSub
 	s.mu.Unlock()
+	s.out.close()
 	if sub != nil {
 		sub.Cancel()
 	}
diff --git a/proxy/outlet.go b/proxy/outlet.go
new file mode 100644
index 0000000..b50057d
--- /dev/null
+++ b/proxy/outlet.go
@@ -0,0 +1,89 @@
+package proxy
+
+import (
+	"math"
+	"sync"
+
+	"github.com/nanobus/iota/go/payload"
+)
+
+// outlet sends the items of a source as the peer asks for them. What a source
+// emits without being asked is kept until then.
+type outlet struct {
+	send func(payload.Payload)
+
+	mu     sync.Mutex // Guards the fields below.
+	demand int
+	items  []payload.Payload
+	end    func() // Follows the items.
+	busy   bool   // Items are being sent.
+	closed bool
+}
+
+// request adds to what the peer has asked for.
+func (o *outlet) request(n int) {
+	o.mu.Lock()
+	if o.demand += n; o.demand < 0 {
+		o.demand = math.MaxInt
+	}
+	o.mu.Unlock()
+	o.flush()
+}
+
+func (o *outlet) next(p payload.Payload) {
+	o.mu.Lock()
+	if !o.closed {
+		o.items = append(o.items, p)
+	}
+	o.mu.Unlock()
+	o.flush()
+}
+
+// finish calls end once all items are sent.
+func (o *outlet) finish(end func()) {
+	o.mu.Lock()
+	if !o.closed {
+		o.end = end
+	}
+	o.mu.Unlock()
+	o.flush()
+}
+
+// close drops what is kept.
+func (o *outlet) close() {
+	o.mu.Lock()
+	defer o.mu.Unlock()
+	o.closed = true
+	o.items = nil
+	o.end = nil
+}
+
+// flush sends what the peer has asked for, unless that is being done already.
+func (o *outlet) flush() {
+	o.mu.Lock()
+	if o.busy {
+		o.mu.Unlock()
+		return
+	}
+	o.busy = true
+	for o.demand > 0 && len(o.items) > 0 {
+		p := o.items[0]
+		o.items[0] = nil
+		if o.items = o.items[1:]; len(o.items) == 0 {
+			o.items = nil
+		}
+		o.demand--
+		o.mu.Unlock()
+		o.send(p)
+		o.mu.Lock()
+	}
+	var end func()
+	if len(o.items) == 0 {
+		end, o.end = o.end, nil
+	}
+	o.busy = false
+	o.mu.Unlock()
+	if end != nil {
+		end()
+	}
+}
diff --git a/proxy/responder.go b/proxy/responder.go
index 31a9c25..dfb90ff 100644
--- a/proxy/responder.go
+++ b/proxy/responder.go
@@ -18,6 +18,7 @@ type Responder struct {
 	streamID  uint32
 	sendFrame func(frames.Frame) error
 	onEnd     func()
+	out       outlet
 
 	mu      sync.Mutex                       // Guards the fields below.
 	sub     rx.Subscription                  // Subscription to the output.
@@ -34,13 +35,15 @@ var _ = (Stream)((*Responder)(nil))
 // NewResponder creates the state for a request of the peer. Only a channel
 // has an input. The optional onEnd is called once, when the output ends.
 func NewResponder(ctx context.Context, streamID uint32, channel bool, sendFrame func(frames.Frame) error, onEnd func()) *Responder {
-	return &Responder{
+	r := &Responder{
 		ctx:       ctx,
 		streamID:  streamID,
 		sendFrame: sendFrame,
 		onEnd:     onEnd,
 		inDone:    !channel,
 	}
+	r.out.send = r.sendNext
+	return r
 }
 
 func (r *Responder) Context() context.Context {
@@ -61,7 +64,7 @@ func (r *Responder) Done() bool {
 // Reject ends the stream with an error instead of handling it.
 func (r *Responder) Reject(message string) {
 	r.endInput()
-	r.sendError(errors.New(message))
+	r.fail(errors.New(message))
 }
 
 // Input returns what the peer sends through a channel.
@@ -99,9 +102,9 @@ func (r *Responder) Input() flux.Flux[payload.Payload] {
 // Output sends the items of a flux to the peer.
 func (r *Responder) Output(f flux.Flux[payload.Payload], initialN uint32) {
 	f.Subscribe(flux.Subscribe[payload.Payload]{
-		OnNext:     r.sendNext,
-		OnComplete: r.sendComplete,
-		OnError:    r.sendError,
+		OnNext:     r.out.next,
+		OnComplete: func() { r.out.finish(r.complete) },
+		OnError:    func(err error) { r.out.finish(func() { r.fail(err) }) },
 		NoRequest:  true,
 	})
 
@@ -135,12 +138,12 @@ func (r *Responder) sendNext(p payload.Payload) {
 	})
 	if err != nil {
 		// The item cannot be sent, so that the stream ends with the error.
-		r.sendError(err)
+		r.fail(err)
 		r.cancelOutput()
 	}
 }
 
-func (r *Responder) sendComplete() {
+func (r *Responder) complete() {
 	if !r.endOutput() {
 		return
 	}
@@ -157,7 +160,7 @@ func (r *Responder) sendComplete() {
 	r.ended()
 }
 
-func (r *Responder) sendError(err error) {
+func (r *Responder) fail(err error) {
 	if !r.endOutput() {
 		return
 	}
@@ -179,6 +182,7 @@ func (r *Responder) DoRequest(n int) {
 		r.demand += n
 	}
 	r.mu.Unlock()
+	r.out.request(n)
 	if sub != nil {
 		sub.Request(n)
 	}
@@ -198,6 +202,7 @@ func (r *Responder) Close(err error) {
 
 func (r *Responder) cancelOutput() {
 	ended := r.endOutput()
+	r.out.close()
 	r.mu.Lock()
 	sub := r.sub
 	r.mu.Unlock()
-- 
2.43.0


From 8eea541aec1442826cfd754f62ecd03afb0f328f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:53 +0000
Subject: [PATCH 68/75] fix: Give the greeter client a handler

---
 example/greeter/client/main.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/example/greeter/client/main.go b/example/greeter/client/main.go
index 17a2b50..28e0a5c 100644
--- a/example/greeter/client/main.go
+++ b/example/greeter/client/main.go
@@ -14,7 +14,8 @@ func main() {
 	svc := greeterService{}
 	greeter.RegisterGreeter(&svc)
 
-	if err := rsocket.Connect(); err != nil {
+	h := rsocket.Handler(context.Background())
+	if err := rsocket.Connect(h); err != nil {
 		panic(err)
 	}
 }
-- 
2.43.0


From 87251273284279d260342ef043888f67e4b697ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:45 +0000
Subject: [PATCH 69/75] Revert "fix: Give the greeter client a handler"

This reverts commit 8eea541aec1442826cfd754f62ecd03afb0f328f.
---
 example/greeter/client/main.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/example/greeter/client/main.go b/example/greeter/client/main.go
index 28e0a5c..17a2b50 100644
--- a/example/greeter/client/main.go
+++ b/example/greeter/client/main.go
@@ -14,8 +14,7 @@ func main() {
 	svc := greeterService{}
 	greeter.RegisterGreeter(&svc)
 
-	h := rsocket.Handler(context.Background())
-	if err := rsocket.Connect(h); err != nil {
+	if err := rsocket.Connect(); err != nil {
 		panic(err)
 	}
 }
-- 
2.43.0


From 19ada0622f5e13deec11d519dbfa6d4c91ea9f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:45 +0000
Subject: [PATCH 70/75] Revert "fix: Components end when their input fails or
 ends without a value"

This reverts commit b13f8560d231329aac2cae9ea4ddfbf92830752f.
---
 transport/wasmrs/example/concat/generated.go        | 13 -------------
 transport/wasmrs/example/greeter/generated.go       | 13 -------------
 transport/wasmrs/example/greeter/greeter.go         |  3 ---
 transport/wasmrs/example/wordfrequency/generated.go |  6 ------
 .../wasmrs/example/wordfrequency/wordfrequency.go   |  3 ---
 5 files changed, 38 deletions(-)

diff --git a/transport/wasmrs/example/concat/generated.go b/transport/wasmrs/example/concat/generated.go
index e23255f..9107b4b 100644
--- a/transport/wasmrs/example/concat/generated.go
+++ b/transport/wasmrs/example/concat/generated.go
@@ -2,7 +2,6 @@ package concat
 
 import (
 	"context"
-	"errors"
 
 	"github.com/nanobus/iota/go/invoke"
 	"github.com/nanobus/iota/go/msgpack"
@@ -15,8 +14,6 @@ import (
 
 const namespace = "concat"
 
-var errNoInput = errors.New("input completed without a value")
-
 type (
 	Concat struct {
 		Inputs  ConcatInputs
@@ -64,9 +61,6 @@ func concatHandler(ctx context.Context, pl payload.Payload, in flux.Flux[payload
 				p = payload.New(p.Data(), portIO.Encode())
 				sink.Next(p)
 			},
-			OnError: func(err error) {
-				sink.Error(err)
-			},
 			Finally: final,
 		})
 
@@ -102,13 +96,6 @@ func concatHandler(ctx context.Context, pl payload.Payload, in flux.Flux[payload
 					}
 				}
 			},
-			OnComplete: func() {
-				// The value, if any, was signaled before.
-				strings.Error(errNoInput)
-			},
-			OnError: func(err error) {
-				strings.Error(err)
-			},
 		})
 	})
 }
diff --git a/transport/wasmrs/example/greeter/generated.go b/transport/wasmrs/example/greeter/generated.go
index 2c4b1c7..fec3912 100644
--- a/transport/wasmrs/example/greeter/generated.go
+++ b/transport/wasmrs/example/greeter/generated.go
@@ -2,7 +2,6 @@ package greeter
 
 import (
 	"context"
-	"errors"
 
 	"github.com/nanobus/iota/go/invoke"
 	"github.com/nanobus/iota/go/payload"
@@ -14,8 +13,6 @@ import (
 
 const namespace = "greeter"
 
-var errNoInput = errors.New("input completed without a value")
-
 type (
 	Greeter struct {
 		Inputs  GreeterInputs
@@ -63,9 +60,6 @@ func greeterHandler(ctx context.Context, pl payload.Payload, in flux.Flux[payloa
 				p = payload.New(p.Data(), portIO.Encode())
 				sink.Next(p)
 			},
-			OnError: func(err error) {
-				sink.Error(err)
-			},
 			Finally: final,
 		})
 
@@ -100,13 +94,6 @@ func greeterHandler(ctx context.Context, pl payload.Payload, in flux.Flux[payloa
 					}
 				}
 			},
-			OnComplete: func() {
-				// The value, if any, was signaled before.
-				inName.Error(errNoInput)
-			},
-			OnError: func(err error) {
-				inName.Error(err)
-			},
 		})
 	})
 }
diff --git a/transport/wasmrs/example/greeter/greeter.go b/transport/wasmrs/example/greeter/greeter.go
index e2cc3a4..6e1fe84 100644
--- a/transport/wasmrs/example/greeter/greeter.go
+++ b/transport/wasmrs/example/greeter/greeter.go
@@ -11,8 +11,5 @@ func (g *Greeter) Process(ctx context.Context) {
 		OnSuccess: func(value string) {
 			g.Outputs.Message.Success("Hello, " + value)
 		},
-		OnError: func(err error) {
-			g.Outputs.Message.Error(err)
-		},
 	})
 }
diff --git a/transport/wasmrs/example/wordfrequency/generated.go b/transport/wasmrs/example/wordfrequency/generated.go
index efc670a..4387c43 100644
--- a/transport/wasmrs/example/wordfrequency/generated.go
+++ b/transport/wasmrs/example/wordfrequency/generated.go
@@ -72,9 +72,6 @@ func wordFrequencyHandler(ctx context.Context, pl payload.Payload, in flux.Flux[
 				p := payload.New(nil, pp.Encode())
 				sink.Next(p)
 			},
-			OnError: func(err error) {
-				sink.Error(err)
-			},
 			Finally: final,
 		})
 
@@ -117,9 +114,6 @@ func wordFrequencyHandler(ctx context.Context, pl payload.Payload, in flux.Flux[
 			OnComplete: func() {
 				words.Complete()
 			},
-			OnError: func(err error) {
-				words.Error(err)
-			},
 		})
 	})
 }
diff --git a/transport/wasmrs/example/wordfrequency/wordfrequency.go b/transport/wasmrs/example/wordfrequency/wordfrequency.go
index 39b6728..cff1e34 100644
--- a/transport/wasmrs/example/wordfrequency/wordfrequency.go
+++ b/transport/wasmrs/example/wordfrequency/wordfrequency.go
@@ -27,9 +27,6 @@ func (w *WordFrequency) Process(ctx context.Context) {
 				Request: flux.SliceResponse(w.Output.Counts, wc),
 			})
 		},
-		OnError: func(err error) {
-			w.Output.Counts.Error(err)
-		},
 	})
 }
 
-- 
2.43.0


From 4ea9ebb479956832c77c28aae5049e14d2801cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:07 +0000
Subject: [PATCH 71/75] fix: Instances import what their guest exports

---
 transport/wasmrs/host/caller.go | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/transport/wasmrs/host/caller.go b/transport/wasmrs/host/caller.go
index 08062d7..8e0bdac 100644
--- a/transport/wasmrs/host/caller.go
+++ b/transport/wasmrs/host/caller.go
@@ -2,9 +2,11 @@ package host
 
 import (
 	"context"
+	"math"
 
 	"github.com/nanobus/iota/go/internal/frames"
 	"github.com/nanobus/iota/go/invoke"
+	"github.com/nanobus/iota/go/operations"
 	"github.com/nanobus/iota/go/payload"
 	"github.com/nanobus/iota/go/proxy"
 	"github.com/nanobus/iota/go/rx"
@@ -12,20 +14,39 @@ import (
 	"github.com/nanobus/iota/go/rx/mono"
 )
 
+var _ = (invoke.Caller)((*Instance)(nil))
+
+// operationNotFound is the index of an operation that the guest does not
+// export, for which it replies not_found.
+const operationNotFound = math.MaxUint32
+
+// exported returns the index under which the guest exports an operation.
+func (i *Instance) exported(requestType operations.RequestType, namespace, operation string) uint32 {
+	for _, op := range i.Operations() {
+		if op.Direction == operations.Export &&
+			op.Type == requestType &&
+			op.Namespace == namespace &&
+			op.Operation == operation {
+			return op.Index
+		}
+	}
+	return operationNotFound
+}
+
 func (i *Instance) ImportRequestResponse(namespace, operation string) uint32 {
-	return invoke.ImportRequestResponse(namespace, operation)
+	return i.exported(operations.RequestResponse, namespace, operation)
 }
 
 func (i *Instance) ImportFireAndForget(namespace, operation string) uint32 {
-	return invoke.ImportFireAndForget(namespace, operation)
+	return i.exported(operations.FireAndForget, namespace, operation)
 }
 
 func (i *Instance) ImportRequestStream(namespace, operation string) uint32 {
-	return invoke.ImportRequestStream(namespace, operation)
+	return i.exported(operations.RequestStream, namespace, operation)
 }
 
 func (i *Instance) ImportRequestChannel(namespace, operation string) uint32 {
-	return invoke.ImportRequestChannel(namespace, operation)
+	return i.exported(operations.RequestChannel, namespace, operation)
 }
 
 func (i *Instance) RequestResponse(ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
-- 
2.43.0


From 1a3186aa5e2ccfcda962d57c2062029f6beed87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:11 +0000
Subject: [PATCH 72/75] fix: Instances serve what this process registers

---
 transport/wasmrs/host/instance.go | 59 ++++++++++++++++++++++++++-----
 1 file changed, 51 insertions(+), 8 deletions(-)

diff --git a/transport/wasmrs/host/instance.go b/transport/wasmrs/host/instance.go
index 34503d9..1027dac 100644
--- a/transport/wasmrs/host/instance.go
+++ b/transport/wasmrs/host/instance.go
@@ -673,8 +673,14 @@ func (i *Instance) SetRequestResponseHandler(index uint32, handler invoke.Reques
 
 func (i *Instance) getRequestResponseHandler(index uint32) invoke.RequestResponseHandler {
 	i.mu.Lock()
-	defer i.mu.Unlock()
-	return i.importedRR[index]
+	handler := i.importedRR[index]
+	i.mu.Unlock()
+	if handler == nil {
+		if index, ok := i.registered(operations.RequestResponse, index); ok {
+			return invoke.GetRequestResponseHandler(index)
+		}
+	}
+	return handler
 }
 
 func (i *Instance) SetFireAndForgetHandler(index uint32, handler invoke.FireAndForgetHandler) {
@@ -685,8 +691,14 @@ func (i *Instance) SetFireAndForgetHandler(index uint32, handler invoke.FireAndF
 
 func (i *Instance) getFireAndForgetHandler(index uint32) invoke.FireAndForgetHandler {
 	i.mu.Lock()
-	defer i.mu.Unlock()
-	return i.importedRFNF[index]
+	handler := i.importedRFNF[index]
+	i.mu.Unlock()
+	if handler == nil {
+		if index, ok := i.registered(operations.FireAndForget, index); ok {
+			return invoke.GetFireAndForgetHandler(index)
+		}
+	}
+	return handler
 }
 
 func (i *Instance) SetRequestStreamHandler(index uint32, handler invoke.RequestStreamHandler) {
@@ -697,8 +709,14 @@ func (i *Instance) SetRequestStreamHandler(index uint32, handler invoke.RequestS
 
 func (i *Instance) getRequestStreamHandler(index uint32) invoke.RequestStreamHandler {
 	i.mu.Lock()
-	defer i.mu.Unlock()
-	return i.importedRS[index]
+	handler := i.importedRS[index]
+	i.mu.Unlock()
+	if handler == nil {
+		if index, ok := i.registered(operations.RequestStream, index); ok {
+			return invoke.GetRequestStreamHandler(index)
+		}
+	}
+	return handler
 }
 
 func (i *Instance) SetRequestChannelHandler(index uint32, handler invoke.RequestChannelHandler) {
@@ -709,8 +727,33 @@ func (i *Instance) SetRequestChannelHandler(index uint32, handler invoke.Request
 
 func (i *Instance) getRequestChannelHandler(index uint32) invoke.RequestChannelHandler {
 	i.mu.Lock()
-	defer i.mu.Unlock()
-	return i.importedRC[index]
+	handler := i.importedRC[index]
+	i.mu.Unlock()
+	if handler == nil {
+		if index, ok := i.registered(operations.RequestChannel, index); ok {
+			return invoke.GetRequestChannelHandler(index)
+		}
+	}
+	return handler
+}
+
+// registered returns the index under which an operation that the guest imports
+// is registered in this process.
+func (i *Instance) registered(requestType operations.RequestType, index uint32) (uint32, bool) {
+	for _, op := range i.Operations() {
+		if op.Direction != operations.Import || op.Type != requestType || op.Index != index {
+			continue
+		}
+		for _, e := range invoke.GetOperationsTable() {
+			if e.Direction == operations.Export &&
+				e.Type == requestType &&
+				e.Namespace == op.Namespace &&
+				e.Operation == op.Operation {
+				return e.Index, true
+			}
+		}
+	}
+	return 0, false
 }
 
 func (i *Instance) checkMetadata(streamID uint32, metadata []byte) bool {
-- 
2.43.0


From 1c4a59a01fb44c7100dd85b8fa04e52da4759edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:14 +0000
Subject: [PATCH 73/75] fix: Address the operations of both components

---
 transport/wasmrs/cmd/fbp/host/main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/transport/wasmrs/cmd/fbp/host/main.go b/transport/wasmrs/cmd/fbp/host/main.go
index fd2e7f9..1d71036 100644
--- a/transport/wasmrs/cmd/fbp/host/main.go
+++ b/transport/wasmrs/cmd/fbp/host/main.go
@@ -2,6 +2,7 @@ package main
 
 import (
 	"context"
+	"encoding/binary"
 	"fmt"
 	"os"
 
@@ -81,6 +82,7 @@ func invokeConcat(strs concat.Strings, inst *host.Instance, ctx context.Context)
 		Complete: true,
 	}
 	var metadata [8]byte
+	binary.BigEndian.PutUint32(metadata[:], inst.ImportRequestChannel("concat", "Concat"))
 	in1 := flux.Create(func(sink flux.Sink[payload.Payload]) {
 		sink.Next(payload.New(encoded.Data(), portIO.Encode()))
 		sink.Complete()
@@ -91,6 +93,7 @@ func invokeConcat(strs concat.Strings, inst *host.Instance, ctx context.Context)
 
 func invokeGreet(inst *host.Instance, ctx context.Context) (flux.Processor[payload.Payload], flux.Flux[payload.Payload]) {
 	var metadata [8]byte
+	binary.BigEndian.PutUint32(metadata[:], inst.ImportRequestChannel("greeter", "Greeter"))
 	in := flux.NewProcessor[payload.Payload]()
 	out := inst.RequestChannel(ctx, payload.New([]byte{}, metadata[:]), in)
 
-- 
2.43.0


From cc114ea2f97fc105f986dd81513914ec9f7db399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:59 +0000
Subject: [PATCH 74/75] fix: Forget channels that are cancelled while they are
 requested

---
 proxy/flux.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/proxy/flux.go b/proxy/flux.go
index b04be47..cb03f1a 100644
--- a/proxy/flux.go
+++ b/proxy/flux.go
@@ -250,6 +250,7 @@ func (s *streamFlux) Cancel() {
 		return
 	}
 	s.canceled = true
+	s.inCanceled = true // At once, as the stream may be released from now on.
 	sent := s.sent
 	s.mu.Unlock()
 	s.cancelInput()
-- 
2.43.0


From 9c876f3ac7035c2e7340e8eb5eed9774b8c9485a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:06 +0000
Subject: [PATCH 75/75] fix: let a host start more than one instance

The runtime refuses a second instance of the same name.
---
 transport/wasmrs/host/host.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/transport/wasmrs/host/host.go b/transport/wasmrs/host/host.go
index 9c7632a..1456135 100644
--- a/transport/wasmrs/host/host.go
+++ b/transport/wasmrs/host/host.go
@@ -2,7 +2,9 @@ package host
 
 import (
 	"context"
+	"fmt"
 	"os"
+	"sync/atomic"
 
 	"github.com/tetratelabs/wazero"
 	"github.com/tetratelabs/wazero/api"
@@ -18,8 +20,9 @@ const (
 )
 
 type Host struct {
-	runtime wazero.Runtime
-	config  wazero.ModuleConfig
+	runtime   wazero.Runtime
+	config    wazero.ModuleConfig
+	instances uint32
 }
 
 type Module struct {
@@ -74,7 +77,9 @@ func (h *Host) Compile(ctx context.Context, source []byte) (*Module, error) {
 }
 
 func (m *Module) Instantiate(ctx context.Context) (*Instance, error) {
-	module, err := m.h.runtime.InstantiateModule(ctx, m.module, m.h.config.WithName("test"))
+	// The runtime tells its instances apart by their names.
+	name := fmt.Sprintf("instance-%d", atomic.AddUint32(&m.h.instances, 1))
+	module, err := m.h.runtime.InstantiateModule(ctx, m.module, m.h.config.WithName(name))
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0

