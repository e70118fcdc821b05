From 22ade657ebe7740d9f04e028d37f0548be24dfc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:11 +0000
Subject: [PATCH 01/35] fix: read PackStream size headers as unsigned in the
 decoder

---
 encoding/decoder.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/encoding/decoder.go b/encoding/decoder.go
index 76fe5d8..ddb89a9 100644
--- a/encoding/decoder.go
+++ b/encoding/decoder.go
@@ -159,19 +159,19 @@ func (d Decoder) decode(buffer *bytes.Buffer) (interface{}, error) {
 		}
 		return string(buffer.Next(size)), nil
 	case marker == String8Marker:
-		var size int8
+		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
 		return string(buffer.Next(int(size))), nil
 	case marker == String16Marker:
-		var size int16
+		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
 		return string(buffer.Next(int(size))), nil
 	case marker == String32Marker:
-		var size int32
+		var size uint32
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
@@ -182,19 +182,19 @@ func (d Decoder) decode(buffer *bytes.Buffer) (interface{}, error) {
 		size := int(marker) - int(TinySliceMarker)
 		return d.decodeSlice(buffer, size)
 	case marker == Slice8Marker:
-		var size int8
+		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading slice size")
 		}
 		return d.decodeSlice(buffer, int(size))
 	case marker == Slice16Marker:
-		var size int16
+		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading slice size")
 		}
 		return d.decodeSlice(buffer, int(size))
 	case marker == Slice32Marker:
-		var size int32
+		var size uint32
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading slice size")
 		}
@@ -205,19 +205,19 @@ func (d Decoder) decode(buffer *bytes.Buffer) (interface{}, error) {
 		size := int(marker) - int(TinyMapMarker)
 		return d.decodeMap(buffer, size)
 	case marker == Map8Marker:
-		var size int8
+		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading map size")
 		}
 		return d.decodeMap(buffer, int(size))
 	case marker == Map16Marker:
-		var size int16
+		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading map size")
 		}
 		return d.decodeMap(buffer, int(size))
 	case marker == Map32Marker:
-		var size int32
+		var size uint32
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading map size")
 		}
@@ -228,13 +228,13 @@ func (d Decoder) decode(buffer *bytes.Buffer) (interface{}, error) {
 		size := int(marker) - int(TinyStructMarker)
 		return d.decodeStruct(buffer, size)
 	case marker == Struct8Marker:
-		var size int8
+		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading struct size")
 		}
 		return d.decodeStruct(buffer, int(size))
 	case marker == Struct16Marker:
-		var size int16
+		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading struct size")
 		}
-- 
2.43.0


From 64ff7eac40d05e3cd52e4c7530ad4541e90e057e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:12 +0000
Subject: [PATCH 02/35] fix: report truncated numbers and strings instead of
 shortening them when decoding

---
 encoding/decoder.go | 48 +++++++++++++++++++++++++++++----------------
 1 file changed, 31 insertions(+), 17 deletions(-)

diff --git a/encoding/decoder.go b/encoding/decoder.go
index ddb89a9..6ff9f94 100644
--- a/encoding/decoder.go
+++ b/encoding/decoder.go
@@ -130,52 +130,59 @@ func (d Decoder) decode(buffer *bytes.Buffer) (interface{}, error) {
 		return int64(int8(marker)), nil
 	case marker == Int8Marker:
 		var out int8
-		err := binary.Read(buffer, binary.BigEndian, &out)
-		return int64(out), err
+		if err := binary.Read(buffer, binary.BigEndian, &out); err != nil {
+			return nil, errors.Wrap(err, "An error occurred reading a number")
+		}
+		return int64(out), nil
 	case marker == Int16Marker:
 		var out int16
-		err := binary.Read(buffer, binary.BigEndian, &out)
-		return int64(out), err
+		if err := binary.Read(buffer, binary.BigEndian, &out); err != nil {
+			return nil, errors.Wrap(err, "An error occurred reading a number")
+		}
+		return int64(out), nil
 	case marker == Int32Marker:
 		var out int32
-		err := binary.Read(buffer, binary.BigEndian, &out)
-		return int64(out), err
+		if err := binary.Read(buffer, binary.BigEndian, &out); err != nil {
+			return nil, errors.Wrap(err, "An error occurred reading a number")
+		}
+		return int64(out), nil
 	case marker == Int64Marker:
 		var out int64
-		err := binary.Read(buffer, binary.BigEndian, &out)
-		return int64(out), err
+		if err := binary.Read(buffer, binary.BigEndian, &out); err != nil {
+			return nil, errors.Wrap(err, "An error occurred reading a number")
+		}
+		return int64(out), nil
 
 	// FLOAT
 	case marker == FloatMarker:
 		var out float64
-		err := binary.Read(buffer, binary.BigEndian, &out)
-		return out, err
+		if err := binary.Read(buffer, binary.BigEndian, &out); err != nil {
+			return nil, errors.Wrap(err, "An error occurred reading a number")
+		}
+		return out, nil
 
 	// STRING
 	case marker >= TinyStringMarker && marker <= TinyStringMarker+0x0F:
 		size := int(marker) - int(TinyStringMarker)
-		if size == 0 {
-			return "", nil
-		}
-		return string(buffer.Next(size)), nil
+		return d.decodeString(buffer, size)
 	case marker == String8Marker:
 		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
-		return string(buffer.Next(int(size))), nil
+		return d.decodeString(buffer, int(size))
 	case marker == String16Marker:
 		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
-		return string(buffer.Next(int(size))), nil
+		return d.decodeString(buffer, int(size))
 	case marker == String32Marker:
 		var size uint32
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
-		return string(buffer.Next(int(size))), nil
+		return d.decodeString(buffer, int(size))
 
 	// SLICE
 	case marker >= TinySliceMarker && marker <= TinySliceMarker+0x0F:
@@ -246,6 +253,13 @@ func (d Decoder) decode(buffer *bytes.Buffer) (interface{}, error) {
 
 }
 
+func (d Decoder) decodeString(buffer *bytes.Buffer, size int) (interface{}, error) {
+	if size > buffer.Len() {
+		return nil, errors.New("String of %d bytes is larger than the %d bytes left in the message", size, buffer.Len())
+	}
+	return string(buffer.Next(size)), nil
+}
+
 func (d Decoder) decodeSlice(buffer *bytes.Buffer, size int) ([]interface{}, error) {
 	slice := make([]interface{}, size)
 	for i := 0; i < size; i++ {
-- 
2.43.0


From 21151f8e93f186360bf5ebf895149a6b4d6a0837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:14 +0000
Subject: [PATCH 03/35] fix: don't allocate from unverified size headers when
 decoding

---
 encoding/decoder.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/encoding/decoder.go b/encoding/decoder.go
index 6ff9f94..1ce17b9 100644
--- a/encoding/decoder.go
+++ b/encoding/decoder.go
@@ -261,20 +261,21 @@ func (d Decoder) decodeString(buffer *bytes.Buffer, size int) (interface{}, erro
 }
 
 func (d Decoder) decodeSlice(buffer *bytes.Buffer, size int) ([]interface{}, error) {
-	slice := make([]interface{}, size)
+	// The size is not trusted for allocating, the message may be malformed
+	slice := []interface{}{}
 	for i := 0; i < size; i++ {
 		item, err := d.decode(buffer)
 		if err != nil {
 			return nil, err
 		}
-		slice[i] = item
+		slice = append(slice, item)
 	}
 
 	return slice, nil
 }
 
 func (d Decoder) decodeMap(buffer *bytes.Buffer, size int) (map[string]interface{}, error) {
-	mapp := make(map[string]interface{}, size)
+	mapp := map[string]interface{}{}
 	for i := 0; i < size; i++ {
 		keyInt, err := d.decode(buffer)
 		if err != nil {
-- 
2.43.0


From 86b07a9108542375b3d92badf59b2a01aa76fdb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:16 +0000
Subject: [PATCH 04/35] fix: report wrongly typed identities and sequences
 instead of panicking when decoding

---
 encoding/decoder.go | 30 +++++++++++++++++++++++-------
 encoding/util.go    |  6 +++++-
 2 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/encoding/decoder.go b/encoding/decoder.go
index 1ce17b9..e98fbea 100644
--- a/encoding/decoder.go
+++ b/encoding/decoder.go
@@ -340,7 +340,11 @@ func (d Decoder) decodeNode(buffer *bytes.Buffer) (graph.Node, error) {
 	if err != nil {
 		return node, err
 	}
-	node.NodeIdentity = nodeIdentityInt.(int64)
+	var ok bool
+	node.NodeIdentity, ok = nodeIdentityInt.(int64)
+	if !ok {
+		return node, errors.New("Expected: NodeIdentity int64, but got %T %+v", nodeIdentityInt, nodeIdentityInt)
+	}
 
 	labelInt, err := d.decode(buffer)
 	if err != nil {
@@ -375,21 +379,30 @@ func (d Decoder) decodeRelationship(buffer *bytes.Buffer) (graph.Relationship, e
 	if err != nil {
 		return rel, err
 	}
-	rel.RelIdentity = relIdentityInt.(int64)
+	var ok bool
+	rel.RelIdentity, ok = relIdentityInt.(int64)
+	if !ok {
+		return rel, errors.New("Expected: RelIdentity int64, but got %T %+v", relIdentityInt, relIdentityInt)
+	}
 
 	startNodeIdentityInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
 	}
-	rel.StartNodeIdentity = startNodeIdentityInt.(int64)
+	rel.StartNodeIdentity, ok = startNodeIdentityInt.(int64)
+	if !ok {
+		return rel, errors.New("Expected: StartNodeIdentity int64, but got %T %+v", startNodeIdentityInt, startNodeIdentityInt)
+	}
 
 	endNodeIdentityInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
 	}
-	rel.EndNodeIdentity = endNodeIdentityInt.(int64)
+	rel.EndNodeIdentity, ok = endNodeIdentityInt.(int64)
+	if !ok {
+		return rel, errors.New("Expected: EndNodeIdentity int64, but got %T %+v", endNodeIdentityInt, endNodeIdentityInt)
+	}
 
-	var ok bool
 	typeInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
@@ -460,9 +473,12 @@ func (d Decoder) decodeUnboundRelationship(buffer *bytes.Buffer) (graph.UnboundR
 	if err != nil {
 		return rel, err
 	}
-	rel.RelIdentity = relIdentityInt.(int64)
-
 	var ok bool
+	rel.RelIdentity, ok = relIdentityInt.(int64)
+	if !ok {
+		return rel, errors.New("Expected: RelIdentity int64, but got %T %+v", relIdentityInt, relIdentityInt)
+	}
+
 	typeInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
diff --git a/encoding/util.go b/encoding/util.go
index 1b21932..bc60ad9 100644
--- a/encoding/util.go
+++ b/encoding/util.go
@@ -20,7 +20,11 @@ func sliceInterfaceToString(from []interface{}) ([]string, error) {
 func sliceInterfaceToInt(from []interface{}) ([]int, error) {
 	to := make([]int, len(from))
 	for idx, item := range from {
-		to[idx] = int(item.(int64))
+		toItem, ok := item.(int64)
+		if !ok {
+			return nil, errors.New("Expected int64 value. Got %T %+v", item, item)
+		}
+		to[idx] = int(toItem)
 	}
 	return to, nil
 }
-- 
2.43.0


From f0c91263d1f8cd35a683ca363932f30febc78b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:18 +0000
Subject: [PATCH 05/35] fix: bound the nesting of decoded values so malformed
 messages can't overflow the stack

---
 encoding/decoder.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/encoding/decoder.go b/encoding/decoder.go
index e98fbea..12107bd 100644
--- a/encoding/decoder.go
+++ b/encoding/decoder.go
@@ -19,10 +19,15 @@ import (
 // map[string]interface{} and []interface{} are supported.
 // The interface for maps and slices may be more permissive in the future.
 type Decoder struct {
-	r   io.Reader
-	buf *bytes.Buffer
+	r     io.Reader
+	buf   *bytes.Buffer
+	depth int
 }
 
+// maxDepth is how deep values may be nested in a message. It only protects the
+// stack from malformed messages.
+const maxDepth = 100000
+
 // NewDecoder Creates a new Decoder object
 func NewDecoder(r io.Reader) Decoder {
 	return Decoder{
@@ -100,6 +105,12 @@ func (d Decoder) Decode() (interface{}, error) {
 
 func (d Decoder) decode(buffer *bytes.Buffer) (interface{}, error) {
 
+	// The decoder is passed by value, so this only counts the enclosing values
+	d.depth++
+	if d.depth > maxDepth {
+		return nil, errors.New("Values are nested more than %d levels deep", maxDepth)
+	}
+
 	marker, err := buffer.ReadByte()
 	if err != nil {
 		return nil, errors.Wrap(err, "Error reading marker")
-- 
2.43.0


From 2513a40b03a09e291b9159ba26b76fa9ebd05df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:19 +0000
Subject: [PATCH 06/35] fix: keep data a reader returns together with an error
 when decoding

---
 encoding/decoder.go | 17 ++---------------
 1 file changed, 2 insertions(+), 15 deletions(-)

diff --git a/encoding/decoder.go b/encoding/decoder.go
index 12107bd..9d1d9c2 100644
--- a/encoding/decoder.go
+++ b/encoding/decoder.go
@@ -73,21 +73,8 @@ func (d Decoder) read() (*bytes.Buffer, error) {
 
 func (d Decoder) readData(messageLen uint16) ([]byte, error) {
 	output := make([]byte, messageLen)
-	var totalRead uint16
-	for totalRead < messageLen {
-		data := make([]byte, messageLen-totalRead)
-		numRead, err := d.r.Read(data)
-		if err != nil {
-			return nil, errors.Wrap(err, "An error occurred reading from stream")
-		} else if numRead == 0 {
-			return nil, errors.Wrap(err, "Couldn't read expected bytes for message. Read: %d Expected: %d.", totalRead, messageLen)
-		}
-
-		for idx, b := range data {
-			output[uint16(idx)+totalRead] = b
-		}
-
-		totalRead += uint16(numRead)
+	if numRead, err := io.ReadFull(d.r, output); err != nil {
+		return nil, errors.Wrap(err, "Couldn't read expected bytes for message. Read: %d Expected: %d.", numRead, messageLen)
 	}
 
 	return output, nil
-- 
2.43.0


From f5b879c504dab18c99a16d3a7d9331f5a11cf26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:44 +0000
Subject: [PATCH 07/35] fix: refuse structures with an unexpected number of
 fields when decoding

---
 encoding/decoder.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/encoding/decoder.go b/encoding/decoder.go
index 9d1d9c2..e2307a7 100644
--- a/encoding/decoder.go
+++ b/encoding/decoder.go
@@ -28,6 +28,17 @@ type Decoder struct {
 // stack from malformed messages.
 const maxDepth = 100000
 
+// structFields is the number of fields of the structures which have any
+var structFields = map[byte]int{
+	graph.NodeSignature:                3,
+	graph.RelationshipSignature:        5,
+	graph.PathSignature:                3,
+	graph.UnboundRelationshipSignature: 3,
+	messages.RecordMessageSignature:    1,
+	messages.FailureMessageSignature:   1,
+	messages.SuccessMessageSignature:   1,
+}
+
 // NewDecoder Creates a new Decoder object
 func NewDecoder(r io.Reader) Decoder {
 	return Decoder{
@@ -301,6 +312,10 @@ func (d Decoder) decodeStruct(buffer *bytes.Buffer, size int) (interface{}, erro
 		return nil, errors.Wrap(err, "An error occurred reading struct signature byte")
 	}
 
+	if fields, ok := structFields[signature]; ok && size != fields {
+		return nil, errors.New("Expected %d fields in struct with signature %x, but got %d", fields, signature, size)
+	}
+
 	switch signature {
 	case graph.NodeSignature:
 		return d.decodeNode(buffer)
-- 
2.43.0


From c9355efd8b9e4e619eeef6c2cc0b8e4e894cf932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:47 +0000
Subject: [PATCH 08/35] fix: frame messages correctly whatever their size, and
 only once they are fully encoded

---
 encoding/encoder.go | 59 ++++++++++++++++++++++++++++++---------------
 1 file changed, 40 insertions(+), 19 deletions(-)

diff --git a/encoding/encoder.go b/encoding/encoder.go
index 133ece2..2fa38a0 100644
--- a/encoding/encoder.go
+++ b/encoding/encoder.go
@@ -84,14 +84,19 @@ var (
 type Encoder struct {
 	w         io.Writer
 	buf       *bytes.Buffer
+	out       *bytes.Buffer
 	chunkSize uint16
 }
 
 // NewEncoder Creates a new Encoder object
 func NewEncoder(w io.Writer, chunkSize uint16) Encoder {
+	if chunkSize == 0 {
+		chunkSize = math.MaxUint16
+	}
 	return Encoder{
 		w:         w,
 		buf:       &bytes.Buffer{},
+		out:       &bytes.Buffer{},
 		chunkSize: chunkSize,
 	}
 }
@@ -103,7 +108,9 @@ func Marshal(v interface{}) ([]byte, error) {
 	return x.Bytes(), err
 }
 
-// write writes to the writer.  Buffers the writes using chunkSize.
+// write buffers the message in chunks using chunkSize. The chunks only go to
+// the writer when the whole message has been encoded, so that nothing of a
+// message which can't be encoded ends up on the stream.
 func (e Encoder) Write(p []byte) (n int, err error) {
 
 	n, err = e.buf.Write(p)
@@ -112,41 +119,51 @@ func (e Encoder) Write(p []byte) (n int, err error) {
 		return n, err
 	}
 
-	length := e.buf.Len()
-	for length >= int(e.chunkSize) {
-		if err := binary.Write(e.w, binary.BigEndian, e.chunkSize); err != nil {
-			return 0, errors.Wrap(err, "An error occured writing chunksize")
+	if e.buf.Len() >= int(e.chunkSize) {
+		if err := e.writeChunk(int(e.chunkSize)); err != nil {
+			return 0, err
 		}
+	}
 
-		numWritten, err := e.w.Write(e.buf.Next(int(e.chunkSize)))
-		if err != nil {
-			err = errors.Wrap(err, "An error occured writing a chunk")
-		}
+	return n, nil
+}
 
-		return numWritten, err
+// writeChunk moves the next size bytes from the buffer to a chunk of their own
+func (e Encoder) writeChunk(size int) error {
+	if err := binary.Write(e.out, binary.BigEndian, uint16(size)); err != nil {
+		return errors.Wrap(err, "An error occured writing chunksize")
 	}
 
-	return n, nil
+	if _, err := e.out.Write(e.buf.Next(size)); err != nil {
+		return errors.Wrap(err, "An error occured writing a chunk")
+	}
+
+	return nil
 }
 
 // flush finishes the encoding stream by flushing it to the writer
 func (e Encoder) flush() error {
-	length := e.buf.Len()
-	if length > 0 {
-		if err := binary.Write(e.w, binary.BigEndian, uint16(length)); err != nil {
-			return errors.Wrap(err, "An error occured writing length bytes during flush")
+	for e.buf.Len() > math.MaxUint16 {
+		if err := e.writeChunk(int(e.chunkSize)); err != nil {
+			return err
 		}
+	}
 
-		if _, err := e.buf.WriteTo(e.w); err != nil {
-			return errors.Wrap(err, "An error occured writing message bytes during flush")
+	length := e.buf.Len()
+	if length > 0 {
+		if err := e.writeChunk(length); err != nil {
+			return err
 		}
 	}
 
-	_, err := e.w.Write(EndMessage)
+	_, err := e.out.Write(EndMessage)
 	if err != nil {
 		return errors.Wrap(err, "An error occurred ending encoding message")
 	}
-	e.buf.Reset()
+
+	if _, err := e.out.WriteTo(e.w); err != nil {
+		return errors.Wrap(err, "An error occured writing message bytes during flush")
+	}
 
 	return nil
 }
@@ -154,6 +171,10 @@ func (e Encoder) flush() error {
 // Encode encodes an object to the stream
 func (e Encoder) Encode(iVal interface{}) error {
 
+	// Never carry anything over to the next message, even after an error
+	defer e.buf.Reset()
+	defer e.out.Reset()
+
 	err := e.encode(iVal)
 	if err != nil {
 		return err
-- 
2.43.0


From 3e12c7dcd5e1c6d0a45f1416af88df6808cb40e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:32 +0000
Subject: [PATCH 09/35] fix: read the fields of structures that should have
 none when decoding

---
 encoding/decoder.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/encoding/decoder.go b/encoding/decoder.go
index e2307a7..51c34d2 100644
--- a/encoding/decoder.go
+++ b/encoding/decoder.go
@@ -314,6 +314,13 @@ func (d Decoder) decodeStruct(buffer *bytes.Buffer, size int) (interface{}, erro
 
 	if fields, ok := structFields[signature]; ok && size != fields {
 		return nil, errors.New("Expected %d fields in struct with signature %x, but got %d", fields, signature, size)
+	} else if !ok {
+		// Nothing is done with the fields, but they're part of the struct
+		for i := 0; i < size; i++ {
+			if _, err := d.decode(buffer); err != nil {
+				return nil, err
+			}
+		}
 	}
 
 	switch signature {
-- 
2.43.0


From 61fa1b03aa75448794f0cbc33b1e1ef4065965ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:15 +0000
Subject: [PATCH 10/35] fix: read the whole handshake response and only accept
 the version offered

---
 conn.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/conn.go b/conn.go
index 72f8117..d1f6f6a 100644
--- a/conn.go
+++ b/conn.go
@@ -246,15 +246,14 @@ func (c *boltConn) handShake() error {
 		return err
 	}
 
-	numRead, err := c.Read(c.serverVersion)
-	if numRead != 4 {
+	numRead, err := io.ReadFull(c, c.serverVersion)
+	if err != nil {
 		log.Errorf("Could not read server version response. Read %d bytes. Expected 4 bytes. Output: %s", numRead, c.serverVersion)
-		if err != nil {
-			err = errors.Wrap(err, "An error occurred reading server version")
-		}
-		return err
+		return errors.Wrap(err, "An error occurred reading server version")
 	} else if bytes.Equal(c.serverVersion, noVersionSupported) {
 		return errors.New("Server responded with no supported version")
+	} else if !bytes.Equal(c.serverVersion, supportedVersions[:4]) {
+		return errors.New("Server responded with a version which wasn't offered: %x", c.serverVersion)
 	}
 
 	return nil
-- 
2.43.0


From e031ca87151f702a15d6252133da3964feb32294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:16 +0000
Subject: [PATCH 11/35] fix: never use a connection again after it failed

---
 conn.go | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/conn.go b/conn.go
index d1f6f6a..8e265d4 100644
--- a/conn.go
+++ b/conn.go
@@ -317,6 +317,10 @@ func (c *boltConn) initialize() error {
 
 // Read reads the data from the underlying connection
 func (c *boltConn) Read(b []byte) (n int, err error) {
+	if c.connErr != nil {
+		return 0, driver.ErrBadConn
+	}
+
 	if err := c.conn.SetReadDeadline(time.Now().Add(c.timeout)); err != nil {
 		c.connErr = errors.Wrap(err, "An error occurred setting read deadline")
 		return 0, driver.ErrBadConn
@@ -328,7 +332,7 @@ func (c *boltConn) Read(b []byte) (n int, err error) {
 		log.Tracef("Read %d bytes from stream:\n\n%s\n", n, sprintByteHex(b))
 	}
 
-	if err != nil && err != io.EOF {
+	if err != nil {
 		c.connErr = errors.Wrap(err, "An error occurred reading from stream")
 		err = driver.ErrBadConn
 	}
@@ -337,6 +341,10 @@ func (c *boltConn) Read(b []byte) (n int, err error) {
 
 // Write writes the data to the underlying connection
 func (c *boltConn) Write(b []byte) (n int, err error) {
+	if c.connErr != nil {
+		return 0, driver.ErrBadConn
+	}
+
 	if err := c.conn.SetWriteDeadline(time.Now().Add(c.timeout)); err != nil {
 		c.connErr = errors.Wrap(err, "An error occurred setting write deadline")
 		return 0, driver.ErrBadConn
@@ -408,7 +416,7 @@ func (c *boltConn) ackFailure(failure messages.FailureMessage) error {
 	}
 
 	for {
-		respInt, err := encoding.NewDecoder(c).Decode()
+		respInt, err := c.decode()
 		if err != nil {
 			return errors.Wrap(err, "An error occurred decoding ack failure message response")
 		}
@@ -442,7 +450,7 @@ func (c *boltConn) reset() error {
 	}
 
 	for {
-		respInt, err := encoding.NewDecoder(c).Decode()
+		respInt, err := c.decode()
 		if err != nil {
 			return errors.Wrap(err, "An error occurred decoding reset message response")
 		}
@@ -456,6 +464,7 @@ func (c *boltConn) reset() error {
 			return nil
 		case messages.FailureMessage:
 			log.Errorf("Got failure message when resetting session: %#v", resp)
+			c.connErr = errors.Wrap(resp, "Got failure message when resetting session")
 			err = c.Close()
 			if err != nil {
 				log.Errorf("An error occurred closing the session: %s", err)
@@ -547,10 +556,20 @@ func (c *boltConn) SetTimeout(timeout time.Duration) {
 	c.timeout = timeout
 }
 
+// decode reads the next message from the stream. After an error there's no
+// telling where the next message starts, so the connection is bad from then on.
+func (c *boltConn) decode() (interface{}, error) {
+	respInt, err := encoding.NewDecoder(c).Decode()
+	if err != nil && c.connErr == nil {
+		c.connErr = errors.Wrap(err, "An error occurred decoding a message from the stream")
+	}
+	return respInt, err
+}
+
 func (c *boltConn) consume() (interface{}, error) {
 	log.Info("Consuming response from bolt stream")
 
-	respInt, err := encoding.NewDecoder(c).Decode()
+	respInt, err := c.decode()
 	if err != nil {
 		return respInt, err
 	}
-- 
2.43.0


From 81f9b905e5e7aa062b368bc1aac64b046b8d2d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:23 +0000
Subject: [PATCH 12/35] fix: end and release rows and statements when reading
 or closing them fails

---
 conn.go | 10 ++++++++
 rows.go | 77 ++++++++++++++++++++++++++++++++++++++++-----------------
 stmt.go | 13 +++++-----
 3 files changed, 71 insertions(+), 29 deletions(-)

diff --git a/conn.go b/conn.go
index 8e265d4..8065d22 100644
--- a/conn.go
+++ b/conn.go
@@ -566,6 +566,16 @@ func (c *boltConn) decode() (interface{}, error) {
 	return respInt, err
 }
 
+// unexpected makes the error for a message which is out of place. The responses
+// can't be matched to the requests anymore, so the connection is bad from then on.
+func (c *boltConn) unexpected(msg string, args ...interface{}) error {
+	err := errors.New(msg, args...)
+	if c.connErr == nil {
+		c.connErr = err
+	}
+	return err
+}
+
 func (c *boltConn) consume() (interface{}, error) {
 	log.Info("Consuming response from bolt stream")
 
diff --git a/rows.go b/rows.go
index 4eb6782..66ce172 100644
--- a/rows.go
+++ b/rows.go
@@ -60,6 +60,8 @@ type boltRows struct {
 	finishedConsume bool
 	pipelineIndex   int
 	closeStatement  bool
+	endErr          error     // What ended the stream, once it's been consumed
+	next            *boltRows // The rows of the next query in the pipeline, once they're reached
 }
 
 func newRows(statement *boltStmt, metadata map[string]interface{}) *boltRows {
@@ -123,6 +125,28 @@ func (r *boltRows) Close() error {
 		return nil
 	}
 
+	// Whatever happens while clearing out the stream, the rows are closed
+	r.closed = true
+	if r.statement.rows == r {
+		r.statement.rows = nil
+	}
+
+	err := r.clear()
+
+	if r.closeStatement {
+		if closeErr := r.statement.Close(); err == nil {
+			err = closeErr
+		}
+	}
+	return err
+}
+
+// clear clears out what is left of the rows in the stream
+func (r *boltRows) clear() error {
+	if r.next != nil {
+		return r.next.Close()
+	}
+
 	if !r.consumed {
 		// Discard all messages if not consumed
 		respInt, err := r.statement.conn.sendDiscardAllConsume()
@@ -134,7 +158,7 @@ func (r *boltRows) Close() error {
 		case messages.SuccessMessage:
 			log.Infof("Got success message: %#v", resp)
 		default:
-			return errors.New("Unrecognized response type discarding all rows: Value: %#v", resp)
+			return r.statement.conn.unexpected("Unrecognized response type discarding all rows: Value: %#v", resp)
 		}
 
 	} else if !r.finishedConsume {
@@ -160,15 +184,16 @@ func (r *boltRows) Close() error {
 		}
 	}
 
-	r.closed = true
-	r.statement.rows = nil
-
-	if r.closeStatement {
-		return r.statement.Close()
-	}
 	return nil
 }
 
+// finish remembers what ended the stream, as nothing more can be read from it
+func (r *boltRows) finish(err error) error {
+	r.finishedConsume = true
+	r.endErr = err
+	return err
+}
+
 // Next gets the next row result
 func (r *boltRows) Next(dest []driver.Value) error {
 	data, _, err := r.NextNeo()
@@ -202,30 +227,31 @@ func (r *boltRows) NextNeo() ([]interface{}, map[string]interface{}, error) {
 	if r.closed {
 		return nil, nil, errors.New("Rows are already closed")
 	}
+	if r.finishedConsume {
+		return nil, nil, r.endErr
+	}
 
 	if !r.consumed {
 		r.consumed = true
 		if err := r.statement.conn.sendPullAll(); err != nil {
-			r.finishedConsume = true
-			return nil, nil, err
+			return nil, nil, r.finish(err)
 		}
 	}
 
 	respInt, err := r.statement.conn.consume()
 	if err != nil {
-		return nil, nil, err
+		return nil, nil, r.finish(err)
 	}
 
 	switch resp := respInt.(type) {
 	case messages.SuccessMessage:
 		log.Infof("Got success message: %#v", resp)
-		r.finishedConsume = true
-		return nil, resp.Metadata, io.EOF
+		return nil, resp.Metadata, r.finish(io.EOF)
 	case messages.RecordMessage:
 		log.Infof("Got record message: %#v", resp)
 		return resp.Fields, nil, nil
 	default:
-		return nil, nil, errors.New("Unrecognized response type getting next query row: %#v", resp)
+		return nil, nil, r.finish(r.statement.conn.unexpected("Unrecognized response type getting next query row: %#v", resp))
 	}
 }
 
@@ -251,10 +277,13 @@ func (r *boltRows) NextPipeline() ([]interface{}, map[string]interface{}, Pipeli
 	if r.closed {
 		return nil, nil, nil, errors.New("Rows are already closed")
 	}
+	if r.finishedConsume {
+		return nil, nil, nil, r.endErr
+	}
 
 	respInt, err := r.statement.conn.consume()
 	if err != nil {
-		return nil, nil, nil, err
+		return nil, nil, nil, r.finish(err)
 	}
 
 	switch resp := respInt.(type) {
@@ -262,28 +291,30 @@ func (r *boltRows) NextPipeline() ([]interface{}, map[string]interface{}, Pipeli
 		log.Infof("Got success message: %#v", resp)
 
 		if r.pipelineIndex == len(r.statement.queries)-1 {
-			r.finishedConsume = true
-			return nil, nil, nil, err
+			r.finish(io.EOF)
+			return nil, nil, nil, nil
 		}
 
 		successResp, err := r.statement.conn.consume()
-		if err != nil && err != io.EOF {
-			return nil, nil, nil, errors.Wrap(err, "An error occurred getting next set of rows from pipeline command: %#v", successResp)
+		if err != nil {
+			return nil, nil, nil, r.finish(errors.Wrap(err, "An error occurred getting next set of rows from pipeline command: %#v", successResp))
 		}
 
 		success, ok := successResp.(messages.SuccessMessage)
 		if !ok {
-			return nil, nil, nil, errors.New("Unexpected response getting next set of rows from pipeline command: %#v", successResp)
+			return nil, nil, nil, r.finish(r.statement.conn.unexpected("Unexpected response getting next set of rows from pipeline command: %#v", successResp))
 		}
 
-		r.statement.rows = newPipelineRows(r.statement, success.Metadata, r.pipelineIndex+1)
-		r.statement.rows.closeStatement = r.closeStatement
-		return nil, success.Metadata, r.statement.rows, nil
+		r.finish(io.EOF)
+		r.next = newPipelineRows(r.statement, success.Metadata, r.pipelineIndex+1)
+		r.next.closeStatement = r.closeStatement
+		r.statement.rows = r.next
+		return nil, success.Metadata, r.next, nil
 
 	case messages.RecordMessage:
 		log.Infof("Got record message: %#v", resp)
 		return resp.Fields, nil, nil, nil
 	default:
-		return nil, nil, nil, errors.New("Unrecognized response type getting next pipeline row: %#v", resp)
+		return nil, nil, nil, r.finish(r.statement.conn.unexpected("Unrecognized response type getting next pipeline row: %#v", resp))
 	}
 }
diff --git a/stmt.go b/stmt.go
index 42a6f32..14e5bb8 100644
--- a/stmt.go
+++ b/stmt.go
@@ -59,16 +59,17 @@ func (s *boltStmt) Close() error {
 		return nil
 	}
 
-	if s.rows != nil && !s.rows.closeStatement {
-		if err := s.rows.Close(); err != nil {
-			return err
-		}
+	// Whatever happens while closing the rows, the statement is closed
+	s.closed = true
+
+	var err error
+	if s.rows != nil {
+		err = s.rows.Close()
 	}
 
-	s.closed = true
 	s.conn.statement = nil
 	s.conn = nil
-	return nil
+	return err
 }
 
 // NumInput returns the number of placeholder parameters. See sql/driver.Stmt.
-- 
2.43.0


From 46e6d333d24438cc22de0efa56a5d5650a4e108a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:25 +0000
Subject: [PATCH 13/35] fix: never use a connection again after a response that
 is out of place

---
 conn.go | 11 ++++++++---
 stmt.go | 13 ++++++-------
 tx.go   |  8 ++++----
 3 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/conn.go b/conn.go
index 8065d22..091f9de 100644
--- a/conn.go
+++ b/conn.go
@@ -531,14 +531,14 @@ func (c *boltConn) Begin() (driver.Tx, error) {
 
 	success, ok := successInt.(messages.SuccessMessage)
 	if !ok {
-		return nil, errors.New("Unrecognized response type beginning transaction: %#v", success)
+		return nil, c.unexpected("Unrecognized response type beginning transaction: %#v", successInt)
 	}
 
 	log.Infof("Got success message beginning transaction: %#v", success)
 
 	success, ok = pullInt.(messages.SuccessMessage)
 	if !ok {
-		return nil, errors.New("Unrecognized response type pulling transaction:  %#v", success)
+		return nil, c.unexpected("Unrecognized response type pulling transaction:  %#v", pullInt)
 	}
 
 	log.Infof("Got success message pulling transaction: %#v", success)
@@ -615,6 +615,10 @@ func (c *boltConn) consumeAll() ([]interface{}, interface{}, error) {
 			return responses, success, nil
 		}
 
+		if _, isRecord := respInt.(messages.RecordMessage); !isRecord {
+			return nil, respInt, c.unexpected("Unrecognized response type consuming all responses: %#v", respInt)
+		}
+
 		responses = append(responses, respInt)
 	}
 }
@@ -815,8 +819,9 @@ func (c *boltConn) queryNeo(query string, params map[string]interface{}) (*boltR
 	}
 	success, ok := successResp.(messages.SuccessMessage)
 	if !ok {
+		err := c.unexpected("Unexpected response querying neo from connection: %#v", successResp)
 		c.statement.Close()
-		return nil, errors.New("Unexpected response querying neo from connection: %#v", successResp)
+		return nil, err
 	}
 
 	c.statement.rows = newQueryRows(c.statement, success.Metadata)
diff --git a/stmt.go b/stmt.go
index 14e5bb8..5cac792 100644
--- a/stmt.go
+++ b/stmt.go
@@ -104,15 +104,14 @@ func (s *boltStmt) ExecNeo(params map[string]interface{}) (Result, error) {
 
 	success, ok := runResp.(messages.SuccessMessage)
 	if !ok {
-		return nil, errors.New("Unrecognized response type when running exec query: %#v", success)
-
+		return nil, s.conn.unexpected("Unrecognized response type when running exec query: %#v", runResp)
 	}
 
 	log.Infof("Got run success message: %#v", success)
 
 	success, ok = pullResp.(messages.SuccessMessage)
 	if !ok {
-		return nil, errors.New("Unrecognized response when discarding exec rows: %#v", success)
+		return nil, s.conn.unexpected("Unrecognized response when discarding exec rows: %#v", pullResp)
 	}
 
 	log.Infof("Got discard all success message: %#v", success)
@@ -150,7 +149,7 @@ func (s *boltStmt) ExecPipeline(params ...map[string]interface{}) ([]Result, err
 
 		success, ok := runResp.(messages.SuccessMessage)
 		if !ok {
-			return nil, errors.New("Unexpected response when getting exec query result: %#v", runResp)
+			return nil, s.conn.unexpected("Unexpected response when getting exec query result: %#v", runResp)
 		}
 
 		_, pullResp, err := s.conn.consumeAll()
@@ -160,7 +159,7 @@ func (s *boltStmt) ExecPipeline(params ...map[string]interface{}) ([]Result, err
 
 		success, ok = pullResp.(messages.SuccessMessage)
 		if !ok {
-			return nil, errors.New("Unexpected response when getting exec query discard result: %#v", pullResp)
+			return nil, s.conn.unexpected("Unexpected response when getting exec query discard result: %#v", pullResp)
 		}
 
 		results[i] = newResult(success.Metadata)
@@ -200,7 +199,7 @@ func (s *boltStmt) queryNeo(params map[string]interface{}) (*boltRows, error) {
 
 	resp, ok := respInt.(messages.SuccessMessage)
 	if !ok {
-		return nil, errors.New("Unrecognized response type running query: %#v", resp)
+		return nil, s.conn.unexpected("Unrecognized response type running query: %#v", respInt)
 	}
 
 	log.Infof("Got success message on run query: %#v", resp)
@@ -236,7 +235,7 @@ func (s *boltStmt) QueryPipeline(params ...map[string]interface{}) (PipelineRows
 
 	success, ok := resp.(messages.SuccessMessage)
 	if !ok {
-		return nil, errors.New("Got unexpected return message when consuming initial pipeline command: %#v", resp)
+		return nil, s.conn.unexpected("Got unexpected return message when consuming initial pipeline command: %#v", resp)
 	}
 
 	s.rows = newPipelineRows(s, success.Metadata, 0)
diff --git a/tx.go b/tx.go
index e70bbef..0eb8f7c 100644
--- a/tx.go
+++ b/tx.go
@@ -43,14 +43,14 @@ func (t *boltTx) Commit() error {
 
 	success, ok := successInt.(messages.SuccessMessage)
 	if !ok {
-		return errors.New("Unrecognized response type committing transaction: %#v", success)
+		return t.conn.unexpected("Unrecognized response type committing transaction: %#v", successInt)
 	}
 
 	log.Infof("Got success message committing transaction: %#v", success)
 
 	pull, ok := pullInt.(messages.SuccessMessage)
 	if !ok {
-		return errors.New("Unrecognized response type pulling transaction:  %#v", pull)
+		return t.conn.unexpected("Unrecognized response type pulling transaction:  %#v", pullInt)
 	}
 
 	log.Infof("Got success message pulling transaction: %#v", pull)
@@ -78,14 +78,14 @@ func (t *boltTx) Rollback() error {
 
 	success, ok := successInt.(messages.SuccessMessage)
 	if !ok {
-		return errors.New("Unrecognized response type rolling back transaction: %#v", success)
+		return t.conn.unexpected("Unrecognized response type rolling back transaction: %#v", successInt)
 	}
 
 	log.Infof("Got success message rolling back transaction: %#v", success)
 
 	pull, ok := pullInt.(messages.SuccessMessage)
 	if !ok {
-		return errors.New("Unrecognized response type pulling transaction: %#v", pull)
+		return t.conn.unexpected("Unrecognized response type pulling transaction: %#v", pullInt)
 	}
 
 	log.Infof("Got success message pulling transaction: %#v", pull)
-- 
2.43.0


From c15f6988da1f3883b3de6252c9ad689bf1a67c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:52 +0000
Subject: [PATCH 14/35] fix: leave the connection usable when a query or
 pipeline can't be sent or is refused

---
 conn.go | 19 +++++++++++--------
 stmt.go | 13 +++++++++++++
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/conn.go b/conn.go
index 091f9de..7a0fd10 100644
--- a/conn.go
+++ b/conn.go
@@ -809,23 +809,24 @@ func (c *boltConn) queryNeo(query string, params map[string]interface{}) (*boltR
 		return nil, errors.New("Connection already closed")
 	}
 
-	c.statement = newStmt(query, c)
+	stmt := newStmt(query, c)
+	c.statement = stmt
 
 	// Pipeline the run + pull all for this
-	successResp, err := c.sendRunPullAllConsumeRun(c.statement.query, params)
+	successResp, err := c.sendRunPullAllConsumeRun(stmt.query, params)
 	if err != nil {
-		c.statement.Close()
+		stmt.Close()
 		return nil, err
 	}
 	success, ok := successResp.(messages.SuccessMessage)
 	if !ok {
 		err := c.unexpected("Unexpected response querying neo from connection: %#v", successResp)
-		c.statement.Close()
+		stmt.Close()
 		return nil, err
 	}
 
-	c.statement.rows = newQueryRows(c.statement, success.Metadata)
-	return c.statement.rows, nil
+	stmt.rows = newQueryRows(stmt, success.Metadata)
+	return stmt.rows, nil
 }
 
 func (c *boltConn) QueryPipeline(queries []string, params ...map[string]interface{}) (PipelineRows, error) {
@@ -836,9 +837,11 @@ func (c *boltConn) QueryPipeline(queries []string, params ...map[string]interfac
 		return nil, errors.New("Connection already closed")
 	}
 
-	c.statement = newPipelineStmt(queries, c)
-	rows, err := c.statement.QueryPipeline(params...)
+	stmt := newPipelineStmt(queries, c)
+	c.statement = stmt
+	rows, err := stmt.QueryPipeline(params...)
 	if err != nil {
+		stmt.Close()
 		return nil, err
 	}
 
diff --git a/stmt.go b/stmt.go
index 5cac792..be0d84e 100644
--- a/stmt.go
+++ b/stmt.go
@@ -134,6 +134,7 @@ func (s *boltStmt) ExecPipeline(params ...map[string]interface{}) ([]Result, err
 	for i, query := range s.queries {
 		err := s.conn.sendRunPullAll(query, params[i])
 		if err != nil {
+			s.clear(i)
 			return nil, errors.Wrap(err, "Error running exec query:\n\n%s\n\nWith Params:\n%#v", query, params[i])
 		}
 	}
@@ -207,6 +208,14 @@ func (s *boltStmt) queryNeo(params map[string]interface{}) (*boltRows, error) {
 	return s.rows, nil
 }
 
+// clear clears out the responses to the first num queries of the pipeline
+func (s *boltStmt) clear(num int) {
+	// Every query has two successes, one to run it and one to pull its rows
+	if _, _, err := s.conn.consumeAllMultiple(num * 2); err != nil {
+		log.Errorf("An error occurred clearing out the responses of a pipeline: %s", err)
+	}
+}
+
 func (s *boltStmt) QueryPipeline(params ...map[string]interface{}) (PipelineRows, error) {
 	if s.closed {
 		return nil, errors.New("Neo4j Bolt statement already closed")
@@ -218,10 +227,14 @@ func (s *boltStmt) QueryPipeline(params ...map[string]interface{}) (PipelineRows
 	if len(params) != len(s.queries) {
 		return nil, errors.New("Must pass same number of params as there are queries")
 	}
+	if len(s.queries) == 0 {
+		return nil, errors.New("Must pass at least one query")
+	}
 
 	for i, query := range s.queries {
 		err := s.conn.sendRunPullAll(query, params[i])
 		if err != nil {
+			s.clear(i)
 			return nil, errors.Wrap(err, "Error running query:\n\n%s\n\nWith Params:\n%#v", query, params[i])
 		}
 	}
-- 
2.43.0


From 4f2cfeb283c42b9860f9c5c584aa5f2a3c99a306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:18 +0000
Subject: [PATCH 15/35] fix: keep track of the open transaction, and end it
 even if finishing it fails

---
 conn.go |  3 ++-
 tx.go   | 32 +++++++++++++++++++++++++++-----
 2 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/conn.go b/conn.go
index 7a0fd10..2902400 100644
--- a/conn.go
+++ b/conn.go
@@ -543,7 +543,8 @@ func (c *boltConn) Begin() (driver.Tx, error) {
 
 	log.Infof("Got success message pulling transaction: %#v", success)
 
-	return newTx(c), nil
+	c.transaction = newTx(c)
+	return c.transaction, nil
 }
 
 // Sets the size of the chunks to write to the stream
diff --git a/tx.go b/tx.go
index 0eb8f7c..ed1bae4 100644
--- a/tx.go
+++ b/tx.go
@@ -30,6 +30,13 @@ func (t *boltTx) Commit() error {
 	if t.closed {
 		return errors.New("Transaction already closed")
 	}
+
+	t.conn.transaction = nil
+	t.closed = true
+	return t.finish(t.commit())
+}
+
+func (t *boltTx) commit() error {
 	if t.conn.statement != nil {
 		if err := t.conn.statement.Close(); err != nil {
 			return errors.Wrap(err, "An error occurred closing open rows in transaction Commit")
@@ -55,9 +62,7 @@ func (t *boltTx) Commit() error {
 
 	log.Infof("Got success message pulling transaction: %#v", pull)
 
-	t.conn.transaction = nil
-	t.closed = true
-	return err
+	return nil
 }
 
 // Rollback rolls back and closes the transaction
@@ -65,6 +70,13 @@ func (t *boltTx) Rollback() error {
 	if t.closed {
 		return errors.New("Transaction already closed")
 	}
+
+	t.conn.transaction = nil
+	t.closed = true
+	return t.finish(t.rollback())
+}
+
+func (t *boltTx) rollback() error {
 	if t.conn.statement != nil {
 		if err := t.conn.statement.Close(); err != nil {
 			return errors.Wrap(err, "An error occurred closing open rows in transaction Rollback")
@@ -90,7 +102,17 @@ func (t *boltTx) Rollback() error {
 
 	log.Infof("Got success message pulling transaction: %#v", pull)
 
-	t.conn.transaction = nil
-	t.closed = true
+	return nil
+}
+
+// finish makes sure that a transaction which couldn't be committed or rolled back is over
+func (t *boltTx) finish(err error) error {
+	if err != nil && t.conn.connErr == nil {
+		// The server may still have the transaction open
+		if resetErr := t.conn.reset(); resetErr != nil {
+			log.Errorf("An error occurred resetting the session after a failed transaction: %s", resetErr)
+		}
+	}
+
 	return err
 }
-- 
2.43.0


From da40dcc8e2c673e65efa7df4776209c85b4fa837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:20 +0000
Subject: [PATCH 16/35] fix: always close or reclaim a connection, and only
 once

---
 conn.go   | 29 ++++++++++++++---------------
 driver.go |  3 ++-
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/conn.go b/conn.go
index 2902400..56a7882 100644
--- a/conn.go
+++ b/conn.go
@@ -371,39 +371,38 @@ func (c *boltConn) Close() error {
 		return nil
 	}
 
+	// Whatever happens while cleaning up, the connection is closed
+	c.closed = true
+
+	var err error
 	if c.statement != nil {
-		if err := c.statement.Close(); err != nil {
-			return err
-		}
+		err = c.statement.Close()
 	}
 
 	if c.transaction != nil {
-		if err := c.transaction.Rollback(); err != nil {
-			return errors.Wrap(err, "Error rolling back transaction when closing connection")
+		if txErr := c.transaction.Rollback(); txErr != nil && err == nil {
+			err = errors.Wrap(txErr, "Error rolling back transaction when closing connection")
 		}
 	}
 
 	if c.poolDriver != nil {
 		// If using connection pooling, don't close connection, just reclaim it
-		err := c.poolDriver.reclaim(c)
-		if err != nil {
-			log.Errorf("An error occurred reclaiming connection for pool: %s", err)
-			c.connErr = errors.Wrap(err, "An error occurred closing the connection")
+		if poolErr := c.poolDriver.reclaim(c); poolErr != nil {
+			log.Errorf("An error occurred reclaiming connection for pool: %s", poolErr)
+			c.connErr = errors.Wrap(poolErr, "An error occurred closing the connection")
 			return driver.ErrBadConn
 		}
-		return nil
+		return err
 	}
 
 	if c.conn != nil {
-		err := c.conn.Close()
-		c.closed = true
-		if err != nil {
-			c.connErr = errors.Wrap(err, "An error occurred closing the connection")
+		if closeErr := c.conn.Close(); closeErr != nil {
+			c.connErr = errors.Wrap(closeErr, "An error occurred closing the connection")
 			return driver.ErrBadConn
 		}
 	}
 
-	return nil
+	return err
 }
 
 func (c *boltConn) ackFailure(failure messages.FailureMessage) error {
diff --git a/driver.go b/driver.go
index 1bbf0c6..dc7ab04 100644
--- a/driver.go
+++ b/driver.go
@@ -176,7 +176,7 @@ func (d *boltDriverPool) Close() error {
 func (d *boltDriverPool) reclaim(conn *boltConn) error {
 	var newConn *boltConn
 	var err error
-	if conn.connErr != nil || conn.closed {
+	if conn.connErr != nil {
 		newConn, err = newPooledBoltConn(d.connStr, d)
 		if err != nil {
 			return err
@@ -186,6 +186,7 @@ func (d *boltDriverPool) reclaim(conn *boltConn) error {
 		// it isn't held on to
 		newConn = &boltConn{}
 		*newConn = *conn
+		newConn.closed = false
 	}
 
 	d.pool <- newConn
-- 
2.43.0


From d29ef7c2065596a837f3e98f57fd389e59fe06e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:59 +0000
Subject: [PATCH 17/35] fix: don't run work of a transaction outside of it
 after the session was reset

---
 conn.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/conn.go b/conn.go
index 56a7882..a4702a8 100644
--- a/conn.go
+++ b/conn.go
@@ -460,6 +460,10 @@ func (c *boltConn) reset() error {
 			continue
 		case messages.SuccessMessage:
 			log.Infof("Got success message when resetting session: %#v", resp)
+			if c.transaction != nil {
+				// The server has rolled it back, so nothing more may be run as a part of it
+				return c.unexpected("The open transaction was lost when resetting session")
+			}
 			return nil
 		case messages.FailureMessage:
 			log.Errorf("Got failure message when resetting session: %#v", resp)
-- 
2.43.0


From c22237228165faf5a820429442019e73e8021a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:31 +0000
Subject: [PATCH 18/35] fix: detect dead connections when checking them out of
 the pool

---
 driver.go | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/driver.go b/driver.go
index dc7ab04..18d412f 100644
--- a/driver.go
+++ b/driver.go
@@ -6,6 +6,7 @@ import (
 	"database/sql"
 	"database/sql/driver"
 	"github.com/johnnadratowski/golang-neo4j-bolt-driver/errors"
+	"net"
 	"sync"
 )
 
@@ -130,6 +131,9 @@ func (d *boltDriverPool) OpenPool() (Conn, error) {
 	if !d.closed {
 		conn := <-d.pool
 		if connectionNilOrClosed(conn) {
+			if conn.conn != nil {
+				conn.conn.Close()
+			}
 			if err := conn.initialize(); err != nil {
 				return nil, err
 			}
@@ -140,18 +144,19 @@ func (d *boltDriverPool) OpenPool() (Conn, error) {
 	return nil, errors.New("Driver pool has been closed")
 }
 
-func connectionNilOrClosed(conn *boltConn) (bool) {
-	if(conn.conn == nil) {//nil check before attempting read
+func connectionNilOrClosed(conn *boltConn) bool {
+	if conn.conn == nil { //nil check before attempting read
 		return true
 	}
-	conn.conn.SetReadDeadline(time.Now())
-	zero := make ([]byte, 0)
-	_, err := conn.conn.Read(zero)//read zero bytes to validate connection is still alive
-	if err != nil {
-		log.Error("Bad Connection state detected", err)//the error caught here could be a io.EOF or a timeout, either way we want to log the error & return true
-		return true
+	// There's nothing to read from an idle connection, so if the read doesn't
+	// time out the connection is closed, broken or has unexpected data
+	conn.conn.SetReadDeadline(time.Now().Add(time.Millisecond))
+	_, err := conn.conn.Read(make([]byte, 1))
+	if netErr, ok := err.(net.Error); ok && netErr.Timeout() {
+		return false
 	}
-	return false
+	log.Error("Bad Connection state detected", err)
+	return true
 }
 
 // Close all connections in the pool
-- 
2.43.0


From 639279a1bd25b05d48a1daaa5cd3c0c069a9f678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:33 +0000
Subject: [PATCH 19/35] fix: close connections that failed instead of leaving
 them open or returning them to the pool

---
 conn.go   | 18 ++++++++++++------
 driver.go |  3 +++
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/conn.go b/conn.go
index a4702a8..3767c02 100644
--- a/conn.go
+++ b/conn.go
@@ -289,17 +289,13 @@ func (c *boltConn) initialize() error {
 	}
 
 	if err := c.handShake(); err != nil {
-		if e := c.Close(); e != nil {
-			log.Errorf("An error occurred closing connection: %s", e)
-		}
+		c.abandon(err)
 		return err
 	}
 
 	respInt, err := c.sendInit()
 	if err != nil {
-		if e := c.Close(); e != nil {
-			log.Errorf("An error occurred closing connection: %s", e)
-		}
+		c.abandon(err)
 		return err
 	}
 
@@ -315,6 +311,16 @@ func (c *boltConn) initialize() error {
 	}
 }
 
+// abandon closes a connection which couldn't be initialized
+func (c *boltConn) abandon(err error) {
+	if c.connErr == nil {
+		c.connErr = err
+	}
+	if e := c.Close(); e != nil {
+		log.Errorf("An error occurred closing connection: %s", e)
+	}
+}
+
 // Read reads the data from the underlying connection
 func (c *boltConn) Read(b []byte) (n int, err error) {
 	if c.connErr != nil {
diff --git a/driver.go b/driver.go
index 18d412f..990939a 100644
--- a/driver.go
+++ b/driver.go
@@ -182,6 +182,9 @@ func (d *boltDriverPool) reclaim(conn *boltConn) error {
 	var newConn *boltConn
 	var err error
 	if conn.connErr != nil {
+		if conn.conn != nil {
+			conn.conn.Close()
+		}
 		newConn, err = newPooledBoltConn(d.connStr, d)
 		if err != nil {
 			return err
-- 
2.43.0


From d287783e14247b7f6850b0b94528d5ee8631ed9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:01 +0000
Subject: [PATCH 20/35] fix: close all connections of a pool and stop those
 waiting for one when closing it

---
 driver.go | 70 ++++++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 49 insertions(+), 21 deletions(-)

diff --git a/driver.go b/driver.go
index 990939a..82c7e3f 100644
--- a/driver.go
+++ b/driver.go
@@ -88,9 +88,10 @@ type boltDriverPool struct {
 	connStr  string
 	maxConns int
 	pool     chan *boltConn
-	connRefs []*boltConn
+	connRefs []net.Conn
 	refLock  sync.Mutex
 	closed   bool
+	done     chan struct{} // closed along with the pool
 }
 
 // NewDriverPool creates a new Driver object with connection pooling
@@ -108,6 +109,7 @@ func createDriverPool(connStr string, max int) (*boltDriverPool, error) {
 		connStr:  connStr,
 		maxConns: max,
 		pool:     make(chan *boltConn, max),
+		done:     make(chan struct{}),
 	}
 
 	for i := 0; i < max; i++ {
@@ -124,24 +126,46 @@ func createDriverPool(connStr string, max int) (*boltDriverPool, error) {
 
 // OpenPool opens a returns a Bolt connection from the pool to the Neo4J database.
 func (d *boltDriverPool) OpenPool() (Conn, error) {
+	var conn *boltConn
+	select {
+	case conn = <-d.pool:
+	case <-d.done:
+		return nil, errors.New("Driver pool has been closed")
+	}
+
+	alive := !connectionNilOrClosed(conn)
+
 	// For each connection request we need to block in case the Close function is called. This gives us a guarantee
 	// when closing the pool no new connections are made.
 	d.refLock.Lock()
 	defer d.refLock.Unlock()
-	if !d.closed {
-		conn := <-d.pool
-		if connectionNilOrClosed(conn) {
-			if conn.conn != nil {
-				conn.conn.Close()
-			}
-			if err := conn.initialize(); err != nil {
-				return nil, err
-			}
-			d.connRefs = append(d.connRefs, conn)
+	if d.closed {
+		d.pool <- conn
+		return nil, errors.New("Driver pool has been closed")
+	}
+
+	if !alive {
+		d.drop(conn.conn)
+		if err := conn.initialize(); err != nil {
+			return nil, err
+		}
+		d.connRefs = append(d.connRefs, conn.conn)
+	}
+	return conn, nil
+}
+
+// drop closes a network connection the pool doesn't need anymore
+func (d *boltDriverPool) drop(conn net.Conn) {
+	if conn == nil {
+		return
+	}
+	conn.Close()
+	for i, ref := range d.connRefs {
+		if ref == conn {
+			d.connRefs = append(d.connRefs[:i], d.connRefs[i+1:]...)
+			return
 		}
-		return conn, nil
 	}
-	return nil, errors.New("Driver pool has been closed")
 }
 
 func connectionNilOrClosed(conn *boltConn) bool {
@@ -164,17 +188,20 @@ func (d *boltDriverPool) Close() error {
 	// Lock the connection ref so no new connections can be added
 	d.refLock.Lock()
 	defer d.refLock.Unlock()
-	for _, conn := range d.connRefs {
-		// Remove the reference to the pool, to allow a clean up of the connection
-		conn.poolDriver = nil
-		err := conn.Close()
-		if err != nil {
-			d.closed = true
-			return err
-		}
+	if d.closed {
+		return nil
 	}
 	// Mark the pool as closed to stop any new connections
 	d.closed = true
+	close(d.done)
+	for _, conn := range d.connRefs {
+		// The connections may be in use, so only the network connection can be closed here. One that
+		// can't be closed properly mustn't keep the others open.
+		if err := conn.Close(); err != nil {
+			log.Errorf("An error occurred closing a connection of the pool: %s", err)
+		}
+	}
+	d.connRefs = nil
 	return nil
 }
 
@@ -189,6 +216,7 @@ func (d *boltDriverPool) reclaim(conn *boltConn) error {
 		if err != nil {
 			return err
 		}
+		newConn.conn = conn.conn // Found to be closed and replaced when it's checked out
 	} else {
 		// sneakily swap out connection so a reference to
 		// it isn't held on to
-- 
2.43.0


From c700e5dcf8edcf9e147534e72c0c982c963ffe40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:03 +0000
Subject: [PATCH 21/35] fix: apply the timeout when connecting with TLS

---
 conn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index 3767c02..401f3a8 100644
--- a/conn.go
+++ b/conn.go
@@ -183,7 +183,7 @@ func (c *boltConn) createConn() (net.Conn, error) {
 		if err != nil {
 			return nil, errors.Wrap(err, "An error occurred setting up TLS configuration")
 		}
-		conn, err = tls.Dial("tcp", c.url.Host, config)
+		conn, err = tls.DialWithDialer(&net.Dialer{Timeout: c.timeout}, "tcp", c.url.Host, config)
 		if err != nil {
 			return nil, errors.Wrap(err, "An error occurred dialing to neo4j")
 		}
-- 
2.43.0


From 88f19fedeb8622a7475b0141ac6d3ca5d0a8b79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:05 +0000
Subject: [PATCH 22/35] fix: tell database/sql when a connection can't be used
 anymore

---
 conn.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/conn.go b/conn.go
index 401f3a8..c8bbf03 100644
--- a/conn.go
+++ b/conn.go
@@ -369,6 +369,11 @@ func (c *boltConn) Write(b []byte) (n int, err error) {
 	return n, err
 }
 
+// IsValid tells whether the connection can be used for another request. See sql/driver.Validator.
+func (c *boltConn) IsValid() bool {
+	return c.connErr == nil && !c.closed
+}
+
 // Close closes the connection
 // Driver may allow for pooling in the future, keeping connections alive
 func (c *boltConn) Close() error {
-- 
2.43.0


From 2b41117a5206d57630b5558e437d49c6b4027b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:06 +0000
Subject: [PATCH 23/35] fix: refuse database/sql arguments that aren't encoded
 maps instead of panicking

---
 util.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/util.go b/util.go
index 4e16ab7..b21e401 100644
--- a/util.go
+++ b/util.go
@@ -42,7 +42,12 @@ func driverArgsToMap(args []driver.Value) (map[string]interface{}, error) {
 			return nil, err
 		}
 
-		for k, v := range m.(map[string]interface{}) {
+		argMap, ok := m.(map[string]interface{})
+		if !ok {
+			return nil, fmt.Errorf("You must pass only encoded maps to the Exec/Query args, but got %T", m)
+		}
+
+		for k, v := range argMap {
 			output[k] = v
 		}
 
-- 
2.43.0


From c7e5cad5f01896d74a8a8489b62a20098ed72e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:08 +0000
Subject: [PATCH 24/35] fix: report unrecognized statistics instead of
 panicking

---
 result.go | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/result.go b/result.go
index 6011a86..419eba0 100644
--- a/result.go
+++ b/result.go
@@ -50,24 +50,16 @@ func (r boltResult) RowsAffected() (int64, error) {
 	}
 
 	var rowsAffected int64
-	nodesCreated, ok := stats["nodes-created"]
-	if ok {
-		rowsAffected += nodesCreated.(int64)
-	}
-
-	relsCreated, ok := stats["relationships-created"]
-	if ok {
-		rowsAffected += relsCreated.(int64)
-	}
-
-	nodesDeleted, ok := stats["nodes-deleted"]
-	if ok {
-		rowsAffected += nodesDeleted.(int64)
-	}
-
-	relsDeleted, ok := stats["relationships-deleted"]
-	if ok {
-		rowsAffected += relsDeleted.(int64)
+	for _, stat := range []string{"nodes-created", "relationships-created", "nodes-deleted", "relationships-deleted"} {
+		countInt, ok := stats[stat]
+		if !ok {
+			continue
+		}
+		count, ok := countInt.(int64)
+		if !ok {
+			return -1, errors.New("Unrecognized type for %s in stats metadata: %#v", stat, r.metadata)
+		}
+		rowsAffected += count
 	}
 
 	return rowsAffected, nil
-- 
2.43.0


From 1c1bac6d4064ec0722374396d582c463e34a8673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:08 +0000
Subject: [PATCH 25/35] fix: report rows that don't match their columns to
 database/sql

---
 rows.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rows.go b/rows.go
index 66ce172..a866113 100644
--- a/rows.go
+++ b/rows.go
@@ -200,6 +200,9 @@ func (r *boltRows) Next(dest []driver.Value) error {
 	if err != nil {
 		return err
 	}
+	if len(data) != len(dest) {
+		return errors.New("Expected %d columns in row, but got %d", len(dest), len(data))
+	}
 
 	for i, item := range data {
 		switch item := item.(type) {
-- 
2.43.0


From 38bc5a03fc37b1ed89abf4c4373514934854d993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:23 +0000
Subject: [PATCH 26/35] fix: report a CA cert file without any certificates

---
 conn.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index c8bbf03..ed4755c 100644
--- a/conn.go
+++ b/conn.go
@@ -210,7 +210,9 @@ func (c *boltConn) tlsConfig() (*tls.Config, error) {
 			return nil, err
 		}
 		caCertPool := x509.NewCertPool()
-		caCertPool.AppendCertsFromPEM(caCert)
+		if !caCertPool.AppendCertsFromPEM(caCert) {
+			return nil, errors.New("No certificates found in CA cert file: %s", c.caCertFile)
+		}
 
 		config.RootCAs = caCertPool
 	}
-- 
2.43.0


From f3c75e76f2d4179c8b022faddfdc66fdea742393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:49 +0000
Subject: [PATCH 27/35] fix: record and play back sessions whatever pieces the
 data arrives in, and their errors

---
 recorder.go | 56 +++++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 46 insertions(+), 10 deletions(-)

diff --git a/recorder.go b/recorder.go
index 41ba2ca..d2156c8 100644
--- a/recorder.go
+++ b/recorder.go
@@ -77,19 +77,21 @@ func (r *recorder) Read(b []byte) (n int, err error) {
 		return 0, errors.New("Recorder expected Read, got Write! %#v, Event: %#v", r, event)
 	}
 
-	for i := 0; i < len(b); i++ {
-		if len(event.Event) == 0 {
-			return i, errors.New("Attempted to read past current event in recorder! Bytes: %s. Recorder %#v, Event; %#v", b, r, event)
-		}
-		b[i] = event.Event[0]
-		event.Event = event.Event[1:]
+	if len(event.Event) == 0 && event.Error != nil {
+		r.currentEvent++
+		return 0, event.Error
 	}
 
-	if len(event.Event) == 0 {
+	// Data may have been recorded in other pieces than it's read in, so
+	// this may return less than asked for
+	n = copy(b, event.Event)
+	event.Event = event.Event[n:]
+
+	if len(event.Event) == 0 && event.Error == nil {
 		r.currentEvent++
 	}
 
-	return len(b), nil
+	return n, nil
 }
 
 // Close the net conn, outputting the recording
@@ -140,12 +142,16 @@ func (r *recorder) Write(b []byte) (n int, err error) {
 
 	for i := 0; i < len(b); i++ {
 		if len(event.Event) == 0 {
+			if event.Error != nil {
+				r.currentEvent++
+				return i, event.Error
+			}
 			return i, errors.New("Attempted to write past current event in recorder! %#v, Event: %#v", r, event)
 		}
 		event.Event = event.Event[1:]
 	}
 
-	if len(event.Event) == 0 {
+	if len(event.Event) == 0 && event.Error == nil {
 		r.currentEvent++
 	}
 
@@ -160,7 +166,7 @@ func (r *recorder) record(data []byte, isWrite bool) {
 	}
 
 	event.Event = append(event.Event, data...)
-	if data[len(data)-2] == byte(0x00) && data[len(data)-1] == byte(0x00) {
+	if bytes.HasSuffix(event.Event, []byte{0x00, 0x00}) {
 		event.Completed = true
 	}
 }
@@ -282,6 +288,36 @@ type Event struct {
 	Error     error
 }
 
+// MarshalJSON writes the message of the error, as errors themselves can't be read back
+func (e *Event) MarshalJSON() ([]byte, error) {
+	data := eventJSON{Event: e.Event, IsWrite: e.IsWrite, Completed: e.Completed}
+	if e.Error != nil {
+		msg := e.Error.Error()
+		data.Error = &msg
+	}
+	return json.Marshal(data)
+}
+
+// UnmarshalJSON reads an event along with its error
+func (e *Event) UnmarshalJSON(b []byte) error {
+	var data eventJSON
+	if err := json.Unmarshal(b, &data); err != nil {
+		return err
+	}
+	e.Event, e.IsWrite, e.Completed = data.Event, data.IsWrite, data.Completed
+	if data.Error != nil {
+		e.Error = errors.New("%s", *data.Error)
+	}
+	return nil
+}
+
+type eventJSON struct {
+	Event     []byte
+	IsWrite   bool
+	Completed bool
+	Error     *string
+}
+
 func newEvent(isWrite bool) *Event {
 	return &Event{
 		Timestamp: time.Now().UnixNano(),
-- 
2.43.0


From ea08d31c492771314b050818fc8ab9ba6ad178eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:22 +0000
Subject: [PATCH 28/35] fix: let database/sql use a connection for other work
 while it keeps a prepared statement

---
 conn.go |  9 ++++++++-
 rows.go |  4 ++++
 stmt.go | 26 +++++++++++++++++++++++++-
 3 files changed, 37 insertions(+), 2 deletions(-)

diff --git a/conn.go b/conn.go
index ed4755c..87b0a1f 100644
--- a/conn.go
+++ b/conn.go
@@ -496,8 +496,15 @@ func (c *boltConn) reset() error {
 }
 
 // Prepare prepares a new statement for a query
+// database/sql uses the connection for other work while it keeps the statement, which is fine as
+// nothing is sent until the statement is run.
 func (c *boltConn) Prepare(query string) (driver.Stmt, error) {
-	return c.prepare(query)
+	if c.closed {
+		return nil, errors.New("Connection already closed")
+	}
+	stmt := newStmt(query, c)
+	stmt.sql = true
+	return stmt, nil
 }
 
 // Prepare prepares a new statement for a query. Implements a Neo-friendly alternative to sql/driver.
diff --git a/rows.go b/rows.go
index a866113..b05d0e1 100644
--- a/rows.go
+++ b/rows.go
@@ -133,6 +133,10 @@ func (r *boltRows) Close() error {
 
 	err := r.clear()
 
+	if r.statement.sql {
+		r.statement.conn.statement = nil
+	}
+
 	if r.closeStatement {
 		if closeErr := r.statement.Close(); err == nil {
 			err = closeErr
diff --git a/stmt.go b/stmt.go
index be0d84e..df26bfc 100644
--- a/stmt.go
+++ b/stmt.go
@@ -43,6 +43,7 @@ type boltStmt struct {
 	conn    *boltConn
 	closed  bool
 	rows    *boltRows
+	sql     bool // Prepared by database/sql, so it's only open while its rows are
 }
 
 func newStmt(query string, conn *boltConn) *boltStmt {
@@ -67,7 +68,9 @@ func (s *boltStmt) Close() error {
 		err = s.rows.Close()
 	}
 
-	s.conn.statement = nil
+	if s.conn.statement == s {
+		s.conn.statement = nil
+	}
 	s.conn = nil
 	return err
 }
@@ -96,6 +99,9 @@ func (s *boltStmt) ExecNeo(params map[string]interface{}) (Result, error) {
 	if s.rows != nil {
 		return nil, errors.New("Another query is already open")
 	}
+	if err := s.checkSQL(); err != nil {
+		return nil, err
+	}
 
 	runResp, pullResp, _, err := s.conn.sendRunPullAllConsumeAll(s.query, params)
 	if err != nil {
@@ -192,6 +198,9 @@ func (s *boltStmt) queryNeo(params map[string]interface{}) (*boltRows, error) {
 	if s.rows != nil {
 		return nil, errors.New("Another query is already open")
 	}
+	if err := s.checkSQL(); err != nil {
+		return nil, err
+	}
 
 	respInt, err := s.conn.sendRunConsume(s.query, params)
 	if err != nil {
@@ -205,9 +214,24 @@ func (s *boltStmt) queryNeo(params map[string]interface{}) (*boltRows, error) {
 
 	log.Infof("Got success message on run query: %#v", resp)
 	s.rows = newRows(s, resp.Metadata)
+	s.conn.statement = s
 	return s.rows, nil
 }
 
+// checkSQL makes sure a statement prepared by database/sql doesn't interfere with other work on its connection
+func (s *boltStmt) checkSQL() error {
+	if !s.sql {
+		return nil
+	}
+	if s.conn.statement != nil {
+		return errors.New("An open statement already exists")
+	}
+	if s.conn.closed {
+		return errors.New("Connection already closed")
+	}
+	return nil
+}
+
 // clear clears out the responses to the first num queries of the pipeline
 func (s *boltStmt) clear(num int) {
 	// Every query has two successes, one to run it and one to pull its rows
-- 
2.43.0


From 6d4b58088ec5654fe6748b5c2cd7bd66aca50b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:48 +0000
Subject: [PATCH 29/35] fix: encode maps in a fixed order, so recorded sessions
 with small chunks play back

---
 encoding/encoder.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/encoding/encoder.go b/encoding/encoder.go
index 2fa38a0..1d0d7f8 100644
--- a/encoding/encoder.go
+++ b/encoding/encoder.go
@@ -5,6 +5,7 @@ import (
 	"io"
 	"math"
 	"reflect"
+	"sort"
 
 	"bytes"
 
@@ -445,12 +446,18 @@ func (e Encoder) encodeMap(val map[string]interface{}) error {
 		return errors.New("Map too long to write: %+v", val)
 	}
 
-	// Encode Map values
-	for k, v := range val {
+	// Encode Map values, always in the same order. How a message is cut into
+	// chunks depends on it, which recorded sessions need to stay the same.
+	keys := make([]string, 0, length)
+	for k := range val {
+		keys = append(keys, k)
+	}
+	sort.Strings(keys)
+	for _, k := range keys {
 		if err := e.encode(k); err != nil {
 			return err
 		}
-		if err := e.encode(v); err != nil {
+		if err := e.encode(val[k]); err != nil {
 			return err
 		}
 	}
-- 
2.43.0


From c0cbfc11d8f55f7c8d6975ec93cc09c8f51d6b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:12 +0000
Subject: [PATCH 30/35] fix: don't panic closing database/sql rows when the
 connection had to be closed while clearing them

---
 rows.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rows.go b/rows.go
index b05d0e1..07c6de7 100644
--- a/rows.go
+++ b/rows.go
@@ -133,7 +133,8 @@ func (r *boltRows) Close() error {
 
 	err := r.clear()
 
-	if r.statement.sql {
+	// The statement is closed already if the connection had to be closed while clearing out the stream
+	if r.statement.sql && !r.statement.closed {
 		r.statement.conn.statement = nil
 	}
 
-- 
2.43.0


From 454e29deeb36630383bb115f2052d1b585ce25de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:12 +0000
Subject: [PATCH 31/35] fix: wrap ErrBadConn when a failure can't be
 acknowledged, so that database/sql doesn't run the query twice

---
 conn.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/conn.go b/conn.go
index 87b0a1f..52fd2b6 100644
--- a/conn.go
+++ b/conn.go
@@ -447,7 +447,8 @@ func (c *boltConn) ackFailure(failure messages.FailureMessage) error {
 			log.Errorf("Got unrecognized response from acking failure: %#v", resp)
 			c.connErr = errors.New("Got unrecognized response from acking failure: %#v. CLOSING SESSION!", resp)
 			c.Close()
-			return driver.ErrBadConn
+			// Wrapped, as database/sql runs the query again for a plain ErrBadConn
+			return errors.Wrap(driver.ErrBadConn, "Got unrecognized response from acking failure. CLOSING SESSION!")
 		}
 	}
 }
@@ -490,7 +491,7 @@ func (c *boltConn) reset() error {
 			log.Errorf("Got unrecognized response from resetting session: %#v", resp)
 			c.connErr = errors.New("Got unrecognized response from resetting session: %#v. CLOSING SESSION!", resp)
 			c.Close()
-			return driver.ErrBadConn
+			return errors.Wrap(driver.ErrBadConn, "Got unrecognized response from resetting session. CLOSING SESSION!")
 		}
 	}
 }
-- 
2.43.0


From 2984a6f3acc132095aec66646959918aec6ccf29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:02 +0000
Subject: [PATCH 32/35] fix: a response to running a query that is out of place
 breaks the connection even if a failure follows

---
 conn.go | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/conn.go b/conn.go
index 52fd2b6..1381610 100644
--- a/conn.go
+++ b/conn.go
@@ -625,6 +625,20 @@ func (c *boltConn) consume() (interface{}, error) {
 	return respInt, err
 }
 
+// consumeRun consumes the response to running a query, which nothing but a success may be
+func (c *boltConn) consumeRun() (interface{}, error) {
+	respInt, err := c.consume()
+	if err != nil {
+		return respInt, err
+	}
+
+	if _, isSuccess := respInt.(messages.SuccessMessage); !isSuccess {
+		return respInt, c.unexpected("Unrecognized response type running a query: %#v", respInt)
+	}
+
+	return respInt, nil
+}
+
 func (c *boltConn) consumeAll() ([]interface{}, interface{}, error) {
 	log.Info("Consuming all responses until success/failure")
 
@@ -654,6 +668,15 @@ func (c *boltConn) consumeAllMultiple(mult int) ([][]interface{}, []interface{},
 	responses := make([][]interface{}, mult)
 	successes := make([]interface{}, mult)
 	for i := 0; i < mult; i++ {
+		if (mult-i)%2 == 0 {
+			// The last one has the rows of a query, so this one is for running it
+			success, err := c.consumeRun()
+			if err != nil {
+				return responses, successes, err
+			}
+			successes[i] = success
+			continue
+		}
 
 		resp, success, err := c.consumeAll()
 		if err != nil {
@@ -740,7 +763,7 @@ func (c *boltConn) sendRunPullAllConsumeSingle(query string, args map[string]int
 		return nil, nil, err
 	}
 
-	runSuccess, err := c.consume()
+	runSuccess, err := c.consumeRun()
 	if err != nil {
 		return runSuccess, nil, err
 	}
@@ -755,7 +778,7 @@ func (c *boltConn) sendRunPullAllConsumeAll(query string, args map[string]interf
 		return nil, nil, nil, err
 	}
 
-	runSuccess, err := c.consume()
+	runSuccess, err := c.consumeRun()
 	if err != nil {
 		return runSuccess, nil, nil, err
 	}
-- 
2.43.0


From c6cab4ed1632ae6be7f9ae11f91e2c62061f70e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:02 +0000
Subject: [PATCH 33/35] fix: refuse a connection string with malformed options
 instead of leaving them out

---
 conn.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/conn.go b/conn.go
index 1381610..7092225 100644
--- a/conn.go
+++ b/conn.go
@@ -116,6 +116,15 @@ func newPooledBoltConn(connStr string, driver DriverPool) (*boltConn, error) {
 	return c, nil
 }
 
+// checkOptions makes sure that none of the options of a connection string is left
+// out for being malformed, as the connection might not be encrypted for the lack of it.
+func checkOptions(query string) error {
+	if _, err := url.ParseQuery(query); err != nil {
+		return errors.Wrap(err, "An error occurred parsing the options of the bolt URL")
+	}
+	return nil
+}
+
 func (c *boltConn) parseURL() (*url.URL, error) {
 	user := ""
 	password := ""
@@ -135,6 +144,10 @@ func (c *boltConn) parseURL() (*url.URL, error) {
 		}
 	}
 
+	if err := checkOptions(url.RawQuery); err != nil {
+		return url, err
+	}
+
 	timeout := url.Query().Get("timeout")
 	if timeout != "" {
 		timeoutInt, err := strconv.Atoi(timeout)
-- 
2.43.0


From 15cdf58cf17db3cef2e401539d3e548527fde2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:05 +0000
Subject: [PATCH 34/35] fix: refuse a timeout that is out of range instead of
 using another one

---
 conn.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/conn.go b/conn.go
index 7092225..79cf244 100644
--- a/conn.go
+++ b/conn.go
@@ -154,6 +154,9 @@ func (c *boltConn) parseURL() (*url.URL, error) {
 		if err != nil {
 			return url, errors.New("Invalid format for timeout: %s.  Must be integer", timeout)
 		}
+		if seconds := time.Duration(timeoutInt); seconds*time.Second/time.Second != seconds {
+			return url, errors.New("Timeout is out of range: %s", timeout)
+		}
 
 		c.timeout = time.Duration(timeoutInt) * time.Second
 	}
-- 
2.43.0


From f6e6c76726e51a44cdd68fbc7b997677023ce3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:59 +0000
Subject: [PATCH 35/35] fix: refuse a nil pointer to a node, relationship or
 path instead of panicking

---
 encoding/encoder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/encoding/encoder.go b/encoding/encoder.go
index 1d0d7f8..2e62a3e 100644
--- a/encoding/encoder.go
+++ b/encoding/encoder.go
@@ -228,6 +228,9 @@ func (e Encoder) encode(iVal interface{}) error {
 	case map[string]interface{}:
 		err = e.encodeMap(val)
 	case structures.Structure:
+		if ptr := reflect.ValueOf(val); ptr.Kind() == reflect.Ptr && ptr.IsNil() {
+			return errors.New("Cannot encode a nil pointer for Bolt transport: %T", val)
+		}
 		err = e.encodeStructure(val)
 	default:
 		// arbitrary slice types
-- 
2.43.0

