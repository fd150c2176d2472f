From 18bac99d5f70298fee8a6fd2d82c9eaab4706c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:26 +0000
Subject: [PATCH 01/33] fix: ReadAllTransport returned short or failed reads as
 success or error wrongly

A read of (0, nil) ended the loop and was returned as a complete read, and
data that arrived together with the end of the stream was returned as an
error. The error also lost the exception type and the number of bytes read.
---
 lib/go/src/thrift/ttransport.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/lib/go/src/thrift/ttransport.go b/lib/go/src/thrift/ttransport.go
index db384c6..6c35348 100644
--- a/lib/go/src/thrift/ttransport.go
+++ b/lib/go/src/thrift/ttransport.go
@@ -20,6 +20,7 @@
 package thrift
 
 import (
+	"io"
 	"log"
 	"os"
 	"strconv"
@@ -160,19 +161,27 @@ func (p* TTransportBase) Flush() error {
 func ReadAllTransport(p TTransport, buf []byte) (n int, err error) {
 	ret := 0
 	size := len(buf)
-	for n < size {
+	for empty := 0; n < size; {
 		ret, err = p.Read(buf[n:])
-		if ret <= 0 {
-			if err != nil {
-				err = NewTTransportExceptionDefaultString("Cannot read. Remote side has closed. Tried to read " + strconv.Itoa(size) + " bytes, but only got " + strconv.Itoa(n) + " bytes.")
+		if ret > 0 {
+			n += ret
+			empty = 0
+		} else if err == nil {
+			// a read may return nothing without having failed
+			if empty++; empty >= maxConsecutiveEmptyReads {
+				err = io.ErrNoProgress
 			}
-			return ret, err
 		}
-		n += ret
+		if err != nil && n < size {
+			return n, NewTTransportException(NewTTransportExceptionFromOsError(err).TypeId(), "Cannot read. Remote side has closed. Tried to read "+strconv.Itoa(size)+" bytes, but only got "+strconv.Itoa(n)+" bytes.")
+		}
 	}
-	return n, err
+	return n, nil
 }
 
+// How often in a row a transport may return no data and no error.
+const maxConsecutiveEmptyReads = 100
+
 var (
 	LOGGER *log.Logger
 )
-- 
2.43.0


From 12d715c7156a1d2f54f45be5ef325719a9109761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:28 +0000
Subject: [PATCH 02/33] fix: TIOStreamTransport.Write panicked on an empty
 write

Writing zero bytes succeeds with n == 0 and a nil error, and the log line
dereferenced that error.
---
 lib/go/src/thrift/tiostream_transport.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/tiostream_transport.go b/lib/go/src/thrift/tiostream_transport.go
index 0195da5..475633f 100644
--- a/lib/go/src/thrift/tiostream_transport.go
+++ b/lib/go/src/thrift/tiostream_transport.go
@@ -204,7 +204,7 @@ func (p *TIOStreamTransport) Write(buf []byte) (int, error) {
 		return 0, NewTTransportException(NOT_OPEN, "Cannot write to null outputStream")
 	}
 	n, err := p.Writer.Write(buf)
-	if n == 0 || err != nil {
+	if err != nil {
 		LOGGER.Print("Error writing to iostream, only wrote ", n, " bytes: ", err.Error(), "\n")
 	}
 	return n, NewTTransportExceptionFromOsError(err)
-- 
2.43.0


From e89489984868cb47600b133477ea31062932aaf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:54 +0000
Subject: [PATCH 03/33] fix: TIOStreamTransport.Close left buffered streams
 open

Close looked for io.Closer on the bufio wrappers, which have none, so the
streams given to the R, W and RAndW constructors were never closed, and a
closed read-write transport could still be written to.
---
 lib/go/src/thrift/tiostream_transport.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/lib/go/src/thrift/tiostream_transport.go b/lib/go/src/thrift/tiostream_transport.go
index 475633f..2bb41f2 100644
--- a/lib/go/src/thrift/tiostream_transport.go
+++ b/lib/go/src/thrift/tiostream_transport.go
@@ -35,6 +35,9 @@ type TIOStreamTransport struct {
 	Reader       io.Reader
 	Writer       io.Writer
 	IsReadWriter bool
+	// the streams underneath the buffers in Reader and Writer
+	source io.Reader
+	sink   io.Writer
 }
 
 type TIOStreamTransportFactory struct {
@@ -95,7 +98,7 @@ func NewTIOStreamTransportDefault() *TIOStreamTransport {
  * @param is Input stream to read from
  */
 func NewTIOStreamTransportR(r io.Reader) *TIOStreamTransport {
-	return &TIOStreamTransport{Reader: bufio.NewReader(r)}
+	return &TIOStreamTransport{Reader: bufio.NewReader(r), source: r}
 }
 
 /**
@@ -104,7 +107,7 @@ func NewTIOStreamTransportR(r io.Reader) *TIOStreamTransport {
  * @param os Output stream to read from
  */
 func NewTIOStreamTransportW(w io.Writer) *TIOStreamTransport {
-	return &TIOStreamTransport{Writer: bufio.NewWriter(w)}
+	return &TIOStreamTransport{Writer: bufio.NewWriter(w), sink: w}
 }
 
 /**
@@ -114,7 +117,7 @@ func NewTIOStreamTransportW(w io.Writer) *TIOStreamTransport {
  * @param os Output stream to read from
  */
 func NewTIOStreamTransportRAndW(r io.Reader, w io.Writer) *TIOStreamTransport {
-	return &TIOStreamTransport{Reader: bufio.NewReader(r), Writer: bufio.NewWriter(w)}
+	return &TIOStreamTransport{Reader: bufio.NewReader(r), Writer: bufio.NewWriter(w), source: r, sink: w}
 }
 
 /**
@@ -158,6 +161,9 @@ func (p *TIOStreamTransport) Close() error {
 	closedReader := false
 	if p.Reader != nil {
 		c, ok := p.Reader.(io.Closer)
+		if !ok {
+			c, ok = p.source.(io.Closer)
+		}
 		if ok {
 			e := c.Close()
 			closedReader = true
@@ -169,14 +175,17 @@ func (p *TIOStreamTransport) Close() error {
 	}
 	if p.Writer != nil && (!closedReader || !p.IsReadWriter) {
 		c, ok := p.Writer.(io.Closer)
+		if !ok {
+			c, ok = p.sink.(io.Closer)
+		}
 		if ok {
 			e := c.Close()
 			if e != nil {
 				LOGGER.Print("Error closing output stream.", e)
 			}
 		}
-		p.Writer = nil
 	}
+	p.Writer = nil
 	return nil
 }
 
-- 
2.43.0


From 7f1630f060671fca9cd428f38b63beee3a937fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:49 +0000
Subject: [PATCH 04/33] fix: Skip ignored every error

Skip went on after a failed ReadFieldBegin, a failed nested Skip or a failed
ReadFieldEnd, so a truncated value was skipped without an error and a hostile
element count looped for up to 2^31 rounds after the end of the stream. It
skipped nothing for unknown types (and looped over lists of them), and did
not enforce its depth limit, whose default let a nested message overflow the
stack.
---
 lib/go/src/thrift/tprotocol.go | 42 +++++++++++++++++++++++++---------
 1 file changed, 31 insertions(+), 11 deletions(-)

diff --git a/lib/go/src/thrift/tprotocol.go b/lib/go/src/thrift/tprotocol.go
index 2ea8b97..4ed28ff 100644
--- a/lib/go/src/thrift/tprotocol.go
+++ b/lib/go/src/thrift/tprotocol.go
@@ -19,6 +19,10 @@
 
 package thrift
 
+import (
+	"strconv"
+)
+
 const (
 	VERSION_MASK = 0xffff0000
 	VERSION_1    = 0x80010000
@@ -81,7 +85,7 @@ type TProtocol interface {
  * throwing a TException.
  */
 var (
-	MaxSkipDepth = 1<<31 - 1
+	MaxSkipDepth = 10000
 )
 
 /**
@@ -118,9 +122,10 @@ func SkipDefaultDepth(prot TProtocol, typeId TType) (err TProtocolException) {
  *   recursive depth, to prevent Java stack overflow.
  */
 func Skip(self TProtocol, fieldType TType, maxDepth int) (err TProtocolException) {
+	if maxDepth <= 0 {
+		return NewTProtocolException(SIZE_LIMIT, "Depth limit exceeded while skipping")
+	}
 	switch fieldType {
-	case STOP:
-		return
 	case BOOL:
 		_, err = self.ReadBool()
 		return
@@ -149,12 +154,19 @@ func Skip(self TProtocol, fieldType TType, maxDepth int) (err TProtocolException
 				return
 			}
 			for {
-				_, typeId, _, _ := self.ReadFieldBegin()
+				_, typeId, _, err := self.ReadFieldBegin()
+				if err != nil {
+					return err
+				}
 				if typeId == STOP {
 					break
 				}
-				Skip(self, typeId, maxDepth-1)
-				self.ReadFieldEnd()
+				if err = Skip(self, typeId, maxDepth-1); err != nil {
+					return err
+				}
+				if err = self.ReadFieldEnd(); err != nil {
+					return err
+				}
 			}
 			return self.ReadStructEnd()
 		}
@@ -166,8 +178,12 @@ func Skip(self TProtocol, fieldType TType, maxDepth int) (err TProtocolException
 			}
 			size := int(l)
 			for i := 0; i < size; i++ {
-				Skip(self, keyType, maxDepth-1)
-				self.Skip(valueType)
+				if err = Skip(self, keyType, maxDepth-1); err != nil {
+					return err
+				}
+				if err = Skip(self, valueType, maxDepth-1); err != nil {
+					return err
+				}
 			}
 			return self.ReadMapEnd()
 		}
@@ -179,7 +195,9 @@ func Skip(self TProtocol, fieldType TType, maxDepth int) (err TProtocolException
 			}
 			size := int(l)
 			for i := 0; i < size; i++ {
-				Skip(self, elemType, maxDepth-1)
+				if err = Skip(self, elemType, maxDepth-1); err != nil {
+					return err
+				}
 			}
 			return self.ReadSetEnd()
 		}
@@ -191,10 +209,12 @@ func Skip(self TProtocol, fieldType TType, maxDepth int) (err TProtocolException
 			}
 			size := int(l)
 			for i := 0; i < size; i++ {
-				Skip(self, elemType, maxDepth-1)
+				if err = Skip(self, elemType, maxDepth-1); err != nil {
+					return err
+				}
 			}
 			return self.ReadListEnd()
 		}
 	}
-	return nil
+	return NewTProtocolException(INVALID_DATA, "Cannot skip a value of unknown type "+strconv.Itoa(int(fieldType)))
 }
-- 
2.43.0


From 4c54c4a84e3e73598e5efb1ea6001a1c03b03c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:30 +0000
Subject: [PATCH 05/33] fix: TBinaryProtocol trusted lengths sent by the peer

A negative length of a binary value panicked, a negative length of a string
was read as an empty string without an error and a negative element count was
returned as a size. A length was allocated before any of its bytes arrived, so
a few bytes could make a reader allocate 2 GB.
---
 lib/go/src/thrift/tbinary_protocol.go | 24 ++++++++++++++++++------
 lib/go/src/thrift/ttransport.go       | 25 +++++++++++++++++++++++++
 2 files changed, 43 insertions(+), 6 deletions(-)

diff --git a/lib/go/src/thrift/tbinary_protocol.go b/lib/go/src/thrift/tbinary_protocol.go
index 424fd84..3e04631 100644
--- a/lib/go/src/thrift/tbinary_protocol.go
+++ b/lib/go/src/thrift/tbinary_protocol.go
@@ -328,6 +328,10 @@ func (p *TBinaryProtocol) ReadMapBegin() (kType, vType TType, size int, err TPro
 		err = NewTProtocolExceptionFromOsError(e)
 		return
 	}
+	if size < 0 {
+		err = NewTProtocolException(NEGATIVE_SIZE, "Negative size of a map")
+		return
+	}
 	return kType, vType, size, nil
 }
 
@@ -348,6 +352,10 @@ func (p *TBinaryProtocol) ReadListBegin() (elemType TType, size int, err TProtoc
 		err = NewTProtocolExceptionFromOsError(e)
 		return
 	}
+	if size < 0 {
+		err = NewTProtocolException(NEGATIVE_SIZE, "Negative size of a list")
+		return
+	}
 	return elemType, size, nil
 }
 
@@ -368,6 +376,10 @@ func (p *TBinaryProtocol) ReadSetBegin() (elemType TType, size int, err TProtoco
 		err = NewTProtocolExceptionFromOsError(e)
 		return
 	}
+	if size < 0 {
+		err = NewTProtocolException(NEGATIVE_SIZE, "Negative size of a set")
+		return
+	}
 	return elemType, size, nil
 }
 
@@ -432,12 +444,14 @@ func (p *TBinaryProtocol) ReadBinary() ([]byte, TProtocolException) {
 		return nil, e
 	}
 	isize := int(size)
+	if isize < 0 {
+		return nil, NewTProtocolException(NEGATIVE_SIZE, "Negative size in ReadBinary")
+	}
 	e = p.checkReadLength(isize)
 	if e != nil {
 		return nil, e
 	}
-	buf := make([]byte, isize)
-	_, err := p.trans.ReadAll(buf)
+	buf, err := readBytes(p.trans, isize)
 	return buf, NewTProtocolExceptionFromOsError(err)
 }
 
@@ -479,14 +493,12 @@ func (p *TBinaryProtocol) checkReadLength(length int) TProtocolException {
 
 func (p *TBinaryProtocol) readStringBody(size int) (value string, err TProtocolException) {
 	if size < 0 {
-		return "", nil
+		return "", NewTProtocolException(NEGATIVE_SIZE, "Negative size of a string")
 	}
 	err = p.checkReadLength(size)
 	if err != nil {
 		return "", err
 	}
-	isize := int(size)
-	buf := make([]byte, isize)
-	_, e := p.trans.ReadAll(buf)
+	buf, e := readBytes(p.trans, size)
 	return string(buf), NewTProtocolExceptionFromOsError(e)
 }
diff --git a/lib/go/src/thrift/ttransport.go b/lib/go/src/thrift/ttransport.go
index 6c35348..1a0d8a8 100644
--- a/lib/go/src/thrift/ttransport.go
+++ b/lib/go/src/thrift/ttransport.go
@@ -179,6 +179,31 @@ func ReadAllTransport(p TTransport, buf []byte) (n int, err error) {
 	return n, nil
 }
 
+// Reads exactly size bytes. The size comes from the peer, so memory is only
+// allocated as the data arrives.
+func readBytes(p TTransport, size int) ([]byte, error) {
+	buf := make([]byte, minInt(size, maxReadAllocation))
+	for n := 0; ; {
+		if _, err := p.ReadAll(buf[n:]); err != nil {
+			return nil, err
+		}
+		if n = len(buf); n == size {
+			return buf, nil
+		}
+		buf = append(buf, make([]byte, minInt(size-n, n))...)
+	}
+}
+
+func minInt(a, b int) int {
+	if a < b {
+		return a
+	}
+	return b
+}
+
+// How much memory is allocated at first for data that is announced by a size.
+const maxReadAllocation = 1 << 16
+
 // How often in a row a transport may return no data and no error.
 const maxConsecutiveEmptyReads = 100
 
-- 
2.43.0


From 51f8b07debd8cf23bd182ad37feb61e25df83a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:57 +0000
Subject: [PATCH 06/33] fix: TCompactProtocol could not read a false field

Go does not fall through, so a boolean field with the value false was reported
as an unknown type.
---
 lib/go/src/thrift/tcompact_protocol.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/go/src/thrift/tcompact_protocol.go b/lib/go/src/thrift/tcompact_protocol.go
index 52a80af..2a29230 100644
--- a/lib/go/src/thrift/tcompact_protocol.go
+++ b/lib/go/src/thrift/tcompact_protocol.go
@@ -813,8 +813,7 @@ func (p *TCompactProtocol) getTType(t TCompactType) (TType, error) {
 	switch byte(t) & 0x0f {
 	case STOP:
 		return STOP, nil
-	case COMPACT_BOOLEAN_FALSE:
-	case COMPACT_BOOLEAN_TRUE:
+	case COMPACT_BOOLEAN_FALSE, COMPACT_BOOLEAN_TRUE:
 		return BOOL, nil
 	case COMPACT_BYTE:
 		return BYTE, nil
-- 
2.43.0


From 598091c97599c929590a41a40d4ae03372c7e49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:59 +0000
Subject: [PATCH 07/33] fix: TCompactProtocol panicked writing a binary field

The generated code writes binary fields with the type BINARY, which is beyond
the end of the table of compact types.
---
 lib/go/src/thrift/tcompact_protocol.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/tcompact_protocol.go b/lib/go/src/thrift/tcompact_protocol.go
index 2a29230..274adf3 100644
--- a/lib/go/src/thrift/tcompact_protocol.go
+++ b/lib/go/src/thrift/tcompact_protocol.go
@@ -58,7 +58,7 @@ var (
 
 func init() {
 	_TSTOP = NewTField("", STOP, 0)
-	_TTypeToCompactType = make([]TCompactType, int(UTF16)+1)
+	_TTypeToCompactType = make([]TCompactType, int(BINARY)+1)
 	_TTypeToCompactType[int(STOP)] = STOP
 	_TTypeToCompactType[int(BOOL)] = COMPACT_BOOLEAN_TRUE
 	_TTypeToCompactType[int(BYTE)] = COMPACT_BYTE
@@ -67,6 +67,7 @@ func init() {
 	_TTypeToCompactType[int(I64)] = COMPACT_I64
 	_TTypeToCompactType[int(DOUBLE)] = COMPACT_DOUBLE
 	_TTypeToCompactType[int(STRING)] = COMPACT_BINARY
+	_TTypeToCompactType[int(BINARY)] = COMPACT_BINARY
 	_TTypeToCompactType[int(LIST)] = COMPACT_LIST
 	_TTypeToCompactType[int(SET)] = COMPACT_SET
 	_TTypeToCompactType[int(MAP)] = COMPACT_MAP
-- 
2.43.0


From 8ef8eb78cf87573c75b2e0289eae94e2179a001f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:01 +0000
Subject: [PATCH 08/33] fix: TCompactProtocol.ReadStructEnd did not pop the
 field stack

Field ids after the second nested struct of a message were computed from the
wrong base, and the stack grew with every message read.
---
 lib/go/src/thrift/tcompact_protocol.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/go/src/thrift/tcompact_protocol.go b/lib/go/src/thrift/tcompact_protocol.go
index 274adf3..cc29025 100644
--- a/lib/go/src/thrift/tcompact_protocol.go
+++ b/lib/go/src/thrift/tcompact_protocol.go
@@ -395,6 +395,7 @@ func (p *TCompactProtocol) ReadStructBegin() (name string, err TProtocolExceptio
 func (p *TCompactProtocol) ReadStructEnd() TProtocolException {
 	// consume the last field we read off the wire.
 	p.lastFieldId = p.lastField[len(p.lastField)-1]
+	p.lastField = p.lastField[:len(p.lastField)-1]
 	return nil
 }
 
-- 
2.43.0


From 6eeb6822f37fed75b7b61e3287bd692354b3a62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:03 +0000
Subject: [PATCH 09/33] fix: TCompactProtocol could not read one-way messages

The message type takes three bits; ONEWAY (4) was read as INVALID (0).
---
 lib/go/src/thrift/tcompact_protocol.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/tcompact_protocol.go b/lib/go/src/thrift/tcompact_protocol.go
index cc29025..0f6ad08 100644
--- a/lib/go/src/thrift/tcompact_protocol.go
+++ b/lib/go/src/thrift/tcompact_protocol.go
@@ -358,7 +358,7 @@ func (p *TCompactProtocol) ReadMessageBegin() (name string, typeId TMessageType,
 	}
 	versionAndType, err := p.ReadByte()
 	version := versionAndType & COMPACT_VERSION_MASK
-	typeId = TMessageType((versionAndType >> COMPACT_TYPE_SHIFT_AMOUNT) & 0x03)
+	typeId = TMessageType((versionAndType >> COMPACT_TYPE_SHIFT_AMOUNT) & 0x07)
 	if err != nil {
 		return
 	}
-- 
2.43.0


From 87bef7ebb8ca0933cecb72f6d6f79964e217047c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:05 +0000
Subject: [PATCH 10/33] fix: TCompactProtocol ignored read errors and trusted
 lengths

ReadBinary returned zero bytes for data that never arrived, panicked on a
negative length and allocated any length before its data arrived.
ReadMessageBegin reported a failed read as a bad version. Unknown map types
were read as STOP, negative element counts were returned as sizes, and a
variable length integer had no limit.
---
 lib/go/src/thrift/tcompact_protocol.go | 34 ++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/lib/go/src/thrift/tcompact_protocol.go b/lib/go/src/thrift/tcompact_protocol.go
index 0f6ad08..e0f416c 100644
--- a/lib/go/src/thrift/tcompact_protocol.go
+++ b/lib/go/src/thrift/tcompact_protocol.go
@@ -352,6 +352,9 @@ func (p *TCompactProtocol) WriteBinary(bin []byte) TProtocolException {
  */
 func (p *TCompactProtocol) ReadMessageBegin() (name string, typeId TMessageType, seqId int32, err TProtocolException) {
 	protocolId, err := p.ReadByte()
+	if err != nil {
+		return "", typeId, seqId, err
+	}
 	if protocolId != COMPACT_PROTOCOL_ID {
 		s := fmt.Sprintf("Expected protocol id %02x but got %02x", COMPACT_PROTOCOL_ID, protocolId)
 		return "", typeId, seqId, NewTProtocolException(BAD_VERSION, s)
@@ -457,6 +460,10 @@ func (p *TCompactProtocol) ReadMapBegin() (keyType TType, valueType TType, size
 		err = NewTProtocolExceptionFromOsError(e)
 		return
 	}
+	if size < 0 {
+		err = NewTProtocolException(NEGATIVE_SIZE, "Negative size of a map")
+		return
+	}
 	keyAndValueType := byte(STOP)
 	if size != 0 {
 		keyAndValueType, err = p.ReadByte()
@@ -464,8 +471,15 @@ func (p *TCompactProtocol) ReadMapBegin() (keyType TType, valueType TType, size
 			return
 		}
 	}
-	keyType, _ = p.getTType(TCompactType(keyAndValueType >> 4))
-	valueType, _ = p.getTType(TCompactType(keyAndValueType & 0xf))
+	keyType, e = p.getTType(TCompactType(keyAndValueType >> 4))
+	if e != nil {
+		err = NewTProtocolExceptionFromOsError(e)
+		return
+	}
+	valueType, e = p.getTType(TCompactType(keyAndValueType & 0xf))
+	if e != nil {
+		err = NewTProtocolExceptionFromOsError(e)
+	}
 	return
 }
 
@@ -490,6 +504,10 @@ func (p *TCompactProtocol) ReadListBegin() (elemType TType, size int, err TProto
 			return
 		}
 		size = int(size2)
+		if size < 0 {
+			err = NewTProtocolException(NEGATIVE_SIZE, "Negative size of a list or set")
+			return
+		}
 	}
 	elemType, e := p.getTType(TCompactType(size_and_type))
 	if e != nil {
@@ -603,9 +621,12 @@ func (p *TCompactProtocol) ReadBinary() (value []byte, err TProtocolException) {
 		return []byte{}, nil
 	}
 
-	buf := make([]byte, length)
-	p.trans.ReadAll(buf)
-	return buf, nil
+	if length < 0 {
+		return []byte{}, NewTProtocolException(NEGATIVE_SIZE, "Negative size of a binary value")
+	}
+
+	buf, e := readBytes(p.trans, int(length))
+	return buf, NewTProtocolExceptionFromOsError(e)
 }
 
 func (p *TCompactProtocol) Flush() (err TProtocolException) {
@@ -757,6 +778,9 @@ func (p *TCompactProtocol) readVarint64() (int64, error) {
 			break
 		}
 		shift += 7
+		if shift >= 70 {
+			return 0, NewTProtocolException(INVALID_DATA, "A variable length integer is longer than 10 bytes")
+		}
 	}
 	return result, nil
 }
-- 
2.43.0


From 22bb9906536da399efdba4183c8f038950d518a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:52 +0000
Subject: [PATCH 11/33] fix: JSON protocols depended on how the stream arrived

TJSONProtocol and TSimpleJSONProtocol looked only at the bytes that had already
been buffered to find separators, the end of an object and null, so a message
that arrived in pieces was misread (a field that had not arrived yet looked
like the end of the struct), and they peeked up to five bytes ahead, so the end
of a message on a live connection waited for the next message. NaN and infinity
were read with a single short read, a number cut short by the end of the stream
was returned as a value, a malformed string was returned as an empty string
without an error, and a string with many escaped quotes took quadratic time and
unbounded recursion.
---
 lib/go/src/thrift/tjson_protocol.go        |  91 +-----
 lib/go/src/thrift/tsimple_json_protocol.go | 311 +++++++++++----------
 2 files changed, 166 insertions(+), 236 deletions(-)

diff --git a/lib/go/src/thrift/tjson_protocol.go b/lib/go/src/thrift/tjson_protocol.go
index 34ab7ca..f9fdddc 100644
--- a/lib/go/src/thrift/tjson_protocol.go
+++ b/lib/go/src/thrift/tjson_protocol.go
@@ -241,11 +241,14 @@ func (p *TJSONProtocol) ReadStructEnd() TProtocolException {
 }
 
 func (p *TJSONProtocol) ReadFieldBegin() (string, TType, int16, TProtocolException) {
-	if p.reader.Buffered() < 1 {
-		return "", STOP, -1, nil
+	if e := p.skipWhitespace(); e != nil {
+		return "", STOP, -1, NewTProtocolExceptionFromOsError(e)
+	}
+	b, e := p.reader.Peek(1)
+	if e != nil {
+		return "", STOP, -1, NewTProtocolExceptionFromOsError(e)
 	}
-	b, _ := p.reader.Peek(1)
-	if len(b) < 1 || b[0] == JSON_RBRACE[0] || b[0] == JSON_RBRACKET[0] {
+	if b[0] == JSON_RBRACE[0] || b[0] == JSON_RBRACKET[0] {
 		return "", STOP, -1, nil
 	}
 	fieldId, err := p.ReadI16()
@@ -310,41 +313,7 @@ func (p *TJSONProtocol) ReadSetEnd() TProtocolException {
 }
 
 func (p *TJSONProtocol) ReadBool() (bool, TProtocolException) {
-	var value bool
-	if err := p.ParsePreValue(); err != nil {
-		return value, err
-	}
-	b, _ := p.reader.Peek(len(JSON_FALSE))
-	if len(b) > 0 {
-		switch b[0] {
-		case JSON_TRUE[0]:
-			if string(b[0:len(JSON_TRUE)]) == string(JSON_TRUE) {
-				p.reader.Read(b[0:len(JSON_TRUE)])
-				value = true
-			} else {
-				return value, NewTProtocolException(INVALID_DATA, "Expected \"true\" but found: "+string(b))
-			}
-			break
-		case JSON_FALSE[0]:
-			if string(b[0:len(JSON_FALSE)]) == string(JSON_FALSE) {
-				p.reader.Read(b[0:len(JSON_FALSE)])
-				value = false
-			} else {
-				return value, NewTProtocolException(INVALID_DATA, "Expected \"false\" but found: "+string(b))
-			}
-			break
-		case JSON_NULL[0]:
-			if string(b[0:len(JSON_NULL)]) == string(JSON_NULL) {
-				p.reader.Read(b[0:len(JSON_NULL)])
-				value = false
-			} else {
-				return value, NewTProtocolException(INVALID_DATA, "Expected \"null\" but found: "+string(b))
-			}
-		default:
-			return value, NewTProtocolException(INVALID_DATA, "Expected \"true\", \"false\", or \"null\" but found: "+string(b))
-		}
-	}
-	return value, p.ParsePostValue()
+	return p.TSimpleJSONProtocol.ReadBool()
 }
 
 func (p *TJSONProtocol) ReadByte() (byte, TProtocolException) {
@@ -373,51 +342,11 @@ func (p *TJSONProtocol) ReadDouble() (float64, TProtocolException) {
 }
 
 func (p *TJSONProtocol) ReadString() (string, TProtocolException) {
-	var v string
-	if err := p.ParsePreValue(); err != nil {
-		return v, err
-	}
-	b, _ := p.reader.Peek(len(JSON_NULL))
-	if len(b) > 0 && b[0] == JSON_QUOTE {
-		p.reader.ReadByte()
-		value, err := p.ParseStringBody()
-		v = value
-		if err != nil {
-			return v, err
-		}
-	} else if len(b) >= len(JSON_NULL) && string(b[0:len(JSON_NULL)]) == string(JSON_NULL) {
-		_, err := p.reader.Read(b[0:len(JSON_NULL)])
-		if err != nil {
-			return v, NewTProtocolExceptionFromOsError(err)
-		}
-	} else {
-		return v, NewTProtocolException(INVALID_DATA, fmt.Sprint("Expected a JSON string, found ", string(b)))
-	}
-	return v, p.ParsePostValue()
+	return p.TSimpleJSONProtocol.ReadString()
 }
 
 func (p *TJSONProtocol) ReadBinary() ([]byte, TProtocolException) {
-	var v []byte
-	if err := p.ParsePreValue(); err != nil {
-		return nil, err
-	}
-	b, _ := p.reader.Peek(len(JSON_NULL))
-	if len(b) > 0 && b[0] == JSON_QUOTE {
-		p.reader.ReadByte()
-		value, err := p.ParseBase64EncodedBody()
-		v = value
-		if err != nil {
-			return v, err
-		}
-	} else if len(b) >= len(JSON_NULL) && string(b[0:len(JSON_NULL)]) == string(JSON_NULL) {
-		_, err := p.reader.Read(b[0:len(JSON_NULL)])
-		if err != nil {
-			return v, NewTProtocolExceptionFromOsError(err)
-		}
-	} else {
-		return v, NewTProtocolException(INVALID_DATA, fmt.Sprint("Expected a JSON string, found ", string(b)))
-	}
-	return v, p.ParsePostValue()
+	return p.TSimpleJSONProtocol.ReadBinary()
 }
 
 func (p *TJSONProtocol) Flush() (err TProtocolException) {
diff --git a/lib/go/src/thrift/tsimple_json_protocol.go b/lib/go/src/thrift/tsimple_json_protocol.go
index ee7184b..510b1b3 100644
--- a/lib/go/src/thrift/tsimple_json_protocol.go
+++ b/lib/go/src/thrift/tsimple_json_protocol.go
@@ -337,10 +337,7 @@ func (p *TSimpleJSONProtocol) ReadFieldBegin() (string, TType, int16, TProtocolE
 	if err := p.ParsePreValue(); err != nil {
 		return "", STOP, 0, err
 	}
-	if p.reader.Buffered() < 1 {
-		return "", STOP, 0, nil
-	}
-	b, _ := p.reader.Peek(1)
+	b, e := p.reader.Peek(1)
 	if len(b) > 0 {
 		switch b[0] {
 		case JSON_RBRACE[0]:
@@ -370,7 +367,7 @@ func (p *TSimpleJSONProtocol) ReadFieldBegin() (string, TType, int16, TProtocolE
 		}
 		return "", STOP, 0, NewTProtocolException(INVALID_DATA, fmt.Sprint("Expected \"}\" or '\"', but found: '", string(b), "'"))
 	}
-	return "", STOP, 0, NewTProtocolExceptionFromOsError(io.EOF)
+	return "", STOP, 0, NewTProtocolExceptionFromOsError(e)
 }
 
 func (p *TSimpleJSONProtocol) ReadFieldEnd() TProtocolException {
@@ -428,35 +425,26 @@ func (p *TSimpleJSONProtocol) ReadBool() (bool, TProtocolException) {
 	if err := p.ParsePreValue(); err != nil {
 		return value, err
 	}
-	b, _ := p.reader.Peek(len(JSON_FALSE))
-	if len(b) > 0 {
-		switch b[0] {
-		case JSON_TRUE[0]:
-			if string(b[0:len(JSON_TRUE)]) == string(JSON_TRUE) {
-				p.reader.Read(b[0:len(JSON_TRUE)])
-				value = true
-			} else {
-				return value, NewTProtocolException(INVALID_DATA, "Expected \"true\" but found: "+string(b))
-			}
-			break
-		case JSON_FALSE[0]:
-			if string(b[0:len(JSON_FALSE)]) == string(JSON_FALSE) {
-				p.reader.Read(b[0:len(JSON_FALSE)])
-				value = false
-			} else {
-				return value, NewTProtocolException(INVALID_DATA, "Expected \"false\" but found: "+string(b))
-			}
-			break
-		case JSON_NULL[0]:
-			if string(b[0:len(JSON_NULL)]) == string(JSON_NULL) {
-				p.reader.Read(b[0:len(JSON_NULL)])
-				value = false
-			} else {
-				return value, NewTProtocolException(INVALID_DATA, "Expected \"null\" but found: "+string(b))
-			}
-		default:
-			return value, NewTProtocolException(INVALID_DATA, "Expected \"true\", \"false\", or \"null\" but found: "+string(b))
+	b, e := p.reader.Peek(1)
+	if e != nil {
+		return value, NewTProtocolExceptionFromOsError(e)
+	}
+	switch b[0] {
+	case JSON_TRUE[0]:
+		if err := p.readLiteral(JSON_TRUE); err != nil {
+			return value, err
+		}
+		value = true
+	case JSON_FALSE[0]:
+		if err := p.readLiteral(JSON_FALSE); err != nil {
+			return value, err
+		}
+	case JSON_NULL[0]:
+		if err := p.readLiteral(JSON_NULL); err != nil {
+			return value, err
 		}
+	default:
+		return value, NewTProtocolException(INVALID_DATA, "Expected \"true\", \"false\", or \"null\" but found: "+string(b))
 	}
 	return value, p.ParsePostValue()
 }
@@ -491,20 +479,23 @@ func (p *TSimpleJSONProtocol) ReadString() (string, TProtocolException) {
 	if err := p.ParsePreValue(); err != nil {
 		return v, err
 	}
-	b, _ := p.reader.Peek(len(JSON_NULL))
-	if len(b) > 0 && b[0] == JSON_QUOTE {
+	b, e := p.reader.Peek(1)
+	if e != nil {
+		return v, NewTProtocolExceptionFromOsError(e)
+	}
+	switch b[0] {
+	case JSON_QUOTE:
 		p.reader.ReadByte()
 		value, err := p.ParseStringBody()
 		v = value
 		if err != nil {
 			return v, err
 		}
-	} else if len(b) >= len(JSON_NULL) && string(b[0:len(JSON_NULL)]) == string(JSON_NULL) {
-		_, err := p.reader.Read(b[0:len(JSON_NULL)])
-		if err != nil {
-			return v, NewTProtocolExceptionFromOsError(err)
+	case JSON_NULL[0]:
+		if err := p.readLiteral(JSON_NULL); err != nil {
+			return v, err
 		}
-	} else {
+	default:
 		return v, NewTProtocolException(INVALID_DATA, fmt.Sprint("Expected a JSON string, found ", string(b)))
 	}
 	return v, p.ParsePostValue()
@@ -513,22 +504,25 @@ func (p *TSimpleJSONProtocol) ReadString() (string, TProtocolException) {
 func (p *TSimpleJSONProtocol) ReadBinary() ([]byte, TProtocolException) {
 	var v []byte
 	if err := p.ParsePreValue(); err != nil {
-		return nil, err
+		return v, err
+	}
+	b, e := p.reader.Peek(1)
+	if e != nil {
+		return v, NewTProtocolExceptionFromOsError(e)
 	}
-	b, _ := p.reader.Peek(len(JSON_NULL))
-	if len(b) > 0 && b[0] == JSON_QUOTE {
+	switch b[0] {
+	case JSON_QUOTE:
 		p.reader.ReadByte()
 		value, err := p.ParseBase64EncodedBody()
 		v = value
 		if err != nil {
 			return v, err
 		}
-	} else if len(b) >= len(JSON_NULL) && string(b[0:len(JSON_NULL)]) == string(JSON_NULL) {
-		_, err := p.reader.Read(b[0:len(JSON_NULL)])
-		if err != nil {
-			return v, NewTProtocolExceptionFromOsError(err)
+	case JSON_NULL[0]:
+		if err := p.readLiteral(JSON_NULL); err != nil {
+			return v, err
 		}
-	} else {
+	default:
 		return v, NewTProtocolException(INVALID_DATA, fmt.Sprint("Expected a JSON string, found ", string(b)))
 	}
 	return v, p.ParsePostValue()
@@ -731,13 +725,10 @@ func (p *TSimpleJSONProtocol) OutputElemListBegin(elemType TType, size int) TPro
 }
 
 func (p *TSimpleJSONProtocol) ParsePreValue() TProtocolException {
-	if e := p.readNonSignificantWhitespace(); e != nil {
+	if e := p.skipWhitespace(); e != nil {
 		return NewTProtocolExceptionFromOsError(e)
 	}
 	cxt := _ParseContext(p.parseContextStack[len(p.parseContextStack)-1])
-	if p.reader.Buffered() < 1 {
-		return nil
-	}
 	b, _ := p.reader.Peek(1)
 	switch cxt {
 	case _CONTEXT_IN_LIST:
@@ -747,7 +738,7 @@ func (p *TSimpleJSONProtocol) ParsePreValue() TProtocolException {
 				return nil
 			case JSON_COMMA[0]:
 				p.reader.ReadByte()
-				if e := p.readNonSignificantWhitespace(); e != nil {
+				if e := p.skipWhitespace(); e != nil {
 					return NewTProtocolExceptionFromOsError(e)
 				}
 				return nil
@@ -763,7 +754,7 @@ func (p *TSimpleJSONProtocol) ParsePreValue() TProtocolException {
 				return nil
 			case JSON_COMMA[0]:
 				p.reader.ReadByte()
-				if e := p.readNonSignificantWhitespace(); e != nil {
+				if e := p.skipWhitespace(); e != nil {
 					return NewTProtocolExceptionFromOsError(e)
 				}
 				return nil
@@ -777,7 +768,7 @@ func (p *TSimpleJSONProtocol) ParsePreValue() TProtocolException {
 			switch b[0] {
 			case JSON_COLON[0]:
 				p.reader.ReadByte()
-				if e := p.readNonSignificantWhitespace(); e != nil {
+				if e := p.skipWhitespace(); e != nil {
 					return NewTProtocolExceptionFromOsError(e)
 				}
 				return nil
@@ -812,6 +803,7 @@ func (p *TSimpleJSONProtocol) ParsePostValue() TProtocolException {
 	return nil
 }
 
+// Skips the whitespace that has already arrived, without waiting for more.
 func (p *TSimpleJSONProtocol) readNonSignificantWhitespace() error {
 	for p.reader.Buffered() > 0 {
 		b, _ := p.reader.Peek(1)
@@ -830,31 +822,50 @@ func (p *TSimpleJSONProtocol) readNonSignificantWhitespace() error {
 	return nil
 }
 
-func (p *TSimpleJSONProtocol) ParseStringBody() (string, TProtocolException) {
-	line, err := p.reader.ReadString(JSON_QUOTE)
-	if err != nil {
-		return "", NewTProtocolExceptionFromOsError(err)
-	}
-	l := len(line)
-	// count number of escapes to see if we need to keep going
-	i := 1
-	for ; i < l; i++ {
-		if line[l-i-1] != '\\' {
-			break
+// Skips whitespace up to the next significant byte, waiting for it to arrive.
+func (p *TSimpleJSONProtocol) skipWhitespace() error {
+	for {
+		b, e := p.reader.Peek(1)
+		if e != nil {
+			return e
 		}
-	}
-	if i&0x01 == 1 {
-		v, ok := JsonUnquote(string(JSON_QUOTE) + line)
-		if !ok {
-			return "", NewTProtocolExceptionFromOsError(err)
+		switch b[0] {
+		case ' ', '\r', '\n', '\t':
+			p.reader.ReadByte()
+		default:
+			return nil
 		}
-		return v, nil
 	}
-	s, err := p.ParseQuotedStringBody()
+}
+
+// Reads exactly the given literal.
+func (p *TSimpleJSONProtocol) readLiteral(literal []byte) TProtocolException {
+	buf := make([]byte, len(literal))
+	if _, e := io.ReadFull(p.reader, buf); e != nil {
+		return NewTProtocolExceptionFromOsError(e)
+	}
+	if string(buf) != string(literal) {
+		return NewTProtocolException(INVALID_DATA, "Expected '"+string(literal)+"' but found '"+string(buf)+"' while parsing JSON.")
+	}
+	return nil
+}
+
+// Reports whether the next value is null, without consuming it.
+func (p *TSimpleJSONProtocol) peekNull() (bool, error) {
+	b, e := p.reader.Peek(1)
+	if e != nil || b[0] != JSON_NULL[0] {
+		return false, e
+	}
+	b, e = p.reader.Peek(len(JSON_NULL))
+	return e == nil && string(b) == string(JSON_NULL), e
+}
+
+func (p *TSimpleJSONProtocol) ParseStringBody() (string, TProtocolException) {
+	line, err := p.ParseQuotedStringBody()
 	if err != nil {
-		return "", NewTProtocolExceptionFromOsError(err)
+		return "", err
 	}
-	str := string(JSON_QUOTE) + line + s
+	str := string(JSON_QUOTE) + line
 	v, ok := JsonUnquote(str)
 	if !ok {
 		return "", NewTProtocolException(INVALID_DATA, "Unable to parse as JSON string "+str)
@@ -863,27 +874,25 @@ func (p *TSimpleJSONProtocol) ParseStringBody() (string, TProtocolException) {
 }
 
 func (p *TSimpleJSONProtocol) ParseQuotedStringBody() (string, TProtocolException) {
-	line, err := p.reader.ReadString(JSON_QUOTE)
-	if err != nil {
-		return "", NewTProtocolExceptionFromOsError(err)
-	}
-	l := len(line)
-	// count number of escapes to see if we need to keep going
-	i := 1
-	for ; i < l; i++ {
-		if line[l-i-1] != '\\' {
-			break
+	var str []byte
+	for {
+		line, err := p.reader.ReadBytes(JSON_QUOTE)
+		if err != nil {
+			return "", NewTProtocolExceptionFromOsError(err)
+		}
+		str = append(str, line...)
+		l := len(str)
+		// count number of escapes to see if we need to keep going
+		i := 1
+		for ; i < l; i++ {
+			if str[l-i-1] != '\\' {
+				break
+			}
+		}
+		if i&0x01 == 1 {
+			return string(str), nil
 		}
 	}
-	if i&0x01 == 1 {
-		return line, nil
-	}
-	s, err := p.ParseQuotedStringBody()
-	if err != nil {
-		return "", NewTProtocolExceptionFromOsError(err)
-	}
-	v := line + s
-	return v, nil
 }
 
 func (p *TSimpleJSONProtocol) ParseBase64EncodedBody() ([]byte, TProtocolException) {
@@ -904,9 +913,12 @@ func (p *TSimpleJSONProtocol) ParseI64() (int64, bool, TProtocolException) {
 	}
 	var value int64
 	var isnull bool
-	b, _ := p.reader.Peek(len(JSON_NULL))
-	if len(b) >= len(JSON_NULL) && string(b) == string(JSON_NULL) {
-		p.reader.Read(b[0:len(JSON_NULL)])
+	if null, e := p.peekNull(); e != nil {
+		return 0, false, NewTProtocolExceptionFromOsError(e)
+	} else if null {
+		if err := p.readLiteral(JSON_NULL); err != nil {
+			return 0, false, err
+		}
 		isnull = true
 	} else {
 		num, err := p.readNumeric()
@@ -927,9 +939,12 @@ func (p *TSimpleJSONProtocol) ParseF64() (float64, bool, TProtocolException) {
 	}
 	var value float64
 	var isnull bool
-	b, _ := p.reader.Peek(len(JSON_NULL))
-	if len(b) >= len(JSON_NULL) && string(b) == string(JSON_NULL) {
-		p.reader.Read(b[0:len(JSON_NULL)])
+	if null, e := p.peekNull(); e != nil {
+		return 0, false, NewTProtocolExceptionFromOsError(e)
+	} else if null {
+		if err := p.readLiteral(JSON_NULL); err != nil {
+			return 0, false, err
+		}
 		isnull = true
 	} else {
 		num, err := p.readNumeric()
@@ -948,13 +963,17 @@ func (p *TSimpleJSONProtocol) ParseObjectStart() (bool, TProtocolException) {
 	if err := p.ParsePreValue(); err != nil {
 		return false, err
 	}
-	b, _ := p.reader.Peek(len(JSON_NULL))
-	if len(b) > 0 && b[0] == JSON_LBRACE[0] {
+	b, e := p.reader.Peek(1)
+	if e != nil {
+		return false, NewTProtocolExceptionFromOsError(e)
+	}
+	if b[0] == JSON_LBRACE[0] {
 		p.reader.ReadByte()
 		p.parseContextStack = append(p.parseContextStack, int(_CONTEXT_IN_OBJECT_FIRST))
 		return false, nil
-	} else if len(b) >= len(JSON_NULL) && string(b[0:len(JSON_NULL)]) == string(JSON_NULL) {
-		return true, nil
+	}
+	if null, e := p.peekNull(); e != nil || null {
+		return null, NewTProtocolExceptionFromOsError(e)
 	}
 	return false, NewTProtocolException(INVALID_DATA, fmt.Sprint("Expected '{' or null, but found '", string(b), "'"))
 }
@@ -987,13 +1006,17 @@ func (p *TSimpleJSONProtocol) ParseListBegin() (bool, TProtocolException) {
 	if e := p.ParsePreValue(); e != nil {
 		return false, e
 	}
-	b, e := p.reader.Peek(len(JSON_NULL))
-	if e == nil && len(b) >= 1 && b[0] == JSON_LBRACKET[0] {
+	b, e := p.reader.Peek(1)
+	if e != nil {
+		return false, NewTProtocolExceptionFromOsError(e)
+	}
+	if b[0] == JSON_LBRACKET[0] {
 		p.parseContextStack = append(p.parseContextStack, int(_CONTEXT_IN_LIST_FIRST))
 		p.reader.ReadByte()
 		return false, nil
-	} else if e == nil && len(b) >= len(JSON_NULL) && string(b) == string(JSON_NULL) {
-		return true, nil
+	}
+	if null, e := p.peekNull(); e != nil || null {
+		return null, NewTProtocolExceptionFromOsError(e)
 	}
 	return false, NewTProtocolException(INVALID_DATA, fmt.Sprintf("Expected 'null' or '{', received '%q'", b))
 }
@@ -1110,42 +1133,14 @@ func (p *TSimpleJSONProtocol) readSingleValue() (interface{}, TType, TProtocolEx
 }
 
 func (p *TSimpleJSONProtocol) readIfNull() (bool, TProtocolException) {
-	cont := true
-	for p.reader.Buffered() > 0 && cont {
-		b, _ := p.reader.Peek(1)
-		if len(b) < 1 {
-			return false, nil
-		}
-		switch b[0] {
-		default:
-			return false, nil
-		case JSON_NULL[0]:
-			cont = false
-			break
-		case ' ', '\n', '\r', '\t':
-			p.reader.ReadByte()
-			break
-		}
+	if e := p.skipWhitespace(); e != nil {
+		return false, NewTProtocolExceptionFromOsError(e)
 	}
-	if p.reader.Buffered() == 0 {
-		return false, nil
-	}
-	b, _ := p.reader.Peek(len(JSON_NULL))
-	if string(b) == string(JSON_NULL) {
-		p.reader.Read(b[0:len(JSON_NULL)])
-		return true, nil
-	}
-	return false, nil
-}
-
-func (p *TSimpleJSONProtocol) readQuoteIfNext() {
-	if p.reader.Buffered() < 1 {
-		return
-	}
-	b, _ := p.reader.Peek(1)
-	if len(b) > 0 && b[0] == JSON_QUOTE {
-		p.reader.ReadByte()
+	null, e := p.peekNull()
+	if e != nil || !null {
+		return false, NewTProtocolExceptionFromOsError(e)
 	}
+	return true, p.readLiteral(JSON_NULL)
 }
 
 func (p *TSimpleJSONProtocol) readNumeric() (Numeric, TProtocolException) {
@@ -1163,10 +1158,11 @@ func (p *TSimpleJSONProtocol) readNumeric() (Numeric, TProtocolException) {
 	for continueFor {
 		c, err := p.reader.ReadByte()
 		if err != nil {
-			if err == io.EOF {
-				break
+			if inQuotes || _ParseContext(p.parseContextStack[len(p.parseContextStack)-1]) != _CONTEXT_IN_TOPLEVEL || err != io.EOF {
+				return NUMERIC_NULL, NewTProtocolExceptionFromOsError(err)
 			}
-			return NUMERIC_NULL, NewTProtocolExceptionFromOsError(err)
+			// only the end of the stream ends a number that is not in any list or object
+			break
 		}
 		switch c {
 		case '0', '1', '2', '3', '4', '5', '6', '7', '8', '9':
@@ -1200,7 +1196,7 @@ func (p *TSimpleJSONProtocol) readNumeric() (Numeric, TProtocolException) {
 			if buf.Len() == 0 {
 				buffer := make([]byte, len(JSON_NAN))
 				buffer[0] = c
-				_, e := p.reader.Read(buffer[1:])
+				_, e := io.ReadFull(p.reader, buffer[1:])
 				if e != nil {
 					return NUMERIC_NULL, NewTProtocolExceptionFromOsError(e)
 				}
@@ -1209,7 +1205,9 @@ func (p *TSimpleJSONProtocol) readNumeric() (Numeric, TProtocolException) {
 					return NUMERIC_NULL, e
 				}
 				if inQuotes {
-					p.readQuoteIfNext()
+					if e := p.readLiteral(JSON_QUOTE_BYTES); e != nil {
+						return NUMERIC_NULL, e
+					}
 				}
 				return NAN, nil
 			} else {
@@ -1219,7 +1217,7 @@ func (p *TSimpleJSONProtocol) readNumeric() (Numeric, TProtocolException) {
 			if buf.Len() == 0 || (buf.Len() == 1 && buf.Bytes()[0] == '+') {
 				buffer := make([]byte, len(JSON_INFINITY))
 				buffer[0] = c
-				_, e := p.reader.Read(buffer[1:])
+				_, e := io.ReadFull(p.reader, buffer[1:])
 				if e != nil {
 					return NUMERIC_NULL, NewTProtocolExceptionFromOsError(e)
 				}
@@ -1228,14 +1226,16 @@ func (p *TSimpleJSONProtocol) readNumeric() (Numeric, TProtocolException) {
 					return NUMERIC_NULL, e
 				}
 				if inQuotes {
-					p.readQuoteIfNext()
+					if e := p.readLiteral(JSON_QUOTE_BYTES); e != nil {
+						return NUMERIC_NULL, e
+					}
 				}
 				return INFINITY, nil
 			} else if buf.Len() == 1 && buf.Bytes()[0] == JSON_NEGATIVE_INFINITY[0] {
 				buffer := make([]byte, len(JSON_NEGATIVE_INFINITY))
 				buffer[0] = JSON_NEGATIVE_INFINITY[0]
 				buffer[1] = c
-				_, e := p.reader.Read(buffer[2:])
+				_, e := io.ReadFull(p.reader, buffer[2:])
 				if e != nil {
 					return NUMERIC_NULL, NewTProtocolExceptionFromOsError(e)
 				}
@@ -1244,18 +1244,19 @@ func (p *TSimpleJSONProtocol) readNumeric() (Numeric, TProtocolException) {
 					return NUMERIC_NULL, e
 				}
 				if inQuotes {
-					p.readQuoteIfNext()
+					if e := p.readLiteral(JSON_QUOTE_BYTES); e != nil {
+						return NUMERIC_NULL, e
+					}
 				}
 				return NEGATIVE_INFINITY, nil
 			} else {
 				return NUMERIC_NULL, NewTProtocolException(INVALID_DATA, fmt.Sprintf("Unable to parse number starting with character '%c' due to existing buffer %s", c, buf.String()))
 			}
 		case JSON_QUOTE:
-			if !inQuotes {
-				inQuotes = true
-			} else {
-				break
+			if inQuotes {
+				continueFor = false
 			}
+			inQuotes = true
 		default:
 			return NUMERIC_NULL, NewTProtocolException(INVALID_DATA, fmt.Sprintf("Unable to parse number starting with character '%c'", c))
 		}
-- 
2.43.0


From 1c808186720abf43f68f81a4155be2a1380a2675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:54 +0000
Subject: [PATCH 12/33] fix: TJSONProtocol could not read i16 fields

It writes the type as "i16" but recognised only "16", so an i16 field ended the
struct.
---
 lib/go/src/thrift/tjson_protocol.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/tjson_protocol.go b/lib/go/src/thrift/tjson_protocol.go
index f9fdddc..84e4adf 100644
--- a/lib/go/src/thrift/tjson_protocol.go
+++ b/lib/go/src/thrift/tjson_protocol.go
@@ -438,7 +438,7 @@ func (p *TJSONProtocol) StringToTypeId(fieldType string) TType {
 		return TType(BYTE)
 	case "dbl":
 		return TType(DOUBLE)
-	case "16":
+	case "i16":
 		return TType(I16)
 	case "i32":
 		return TType(I32)
-- 
2.43.0


From 742d480ecf596a48386c2297290d52f74e6e0e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:26 +0000
Subject: [PATCH 13/33] fix: TJSONProtocol wrote binary fields without a type

The generated code writes binary fields with the type BINARY, which became the
empty type name, so the field ended the struct for the reader.
---
 lib/go/src/thrift/tjson_protocol.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/tjson_protocol.go b/lib/go/src/thrift/tjson_protocol.go
index 84e4adf..bc79463 100644
--- a/lib/go/src/thrift/tjson_protocol.go
+++ b/lib/go/src/thrift/tjson_protocol.go
@@ -406,7 +406,7 @@ func (p *TJSONProtocol) TypeIdToString(fieldType TType) string {
 		return "i32"
 	case I64:
 		return "i64"
-	case STRING:
+	case STRING, BINARY:
 		return "str"
 	case STRUCT:
 		return "rec"
-- 
2.43.0


From bd54862ecea3bb64137072d9450dc5f1197df44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:28 +0000
Subject: [PATCH 14/33] fix: TJSONProtocol.WriteBinary ignored write errors

---
 lib/go/src/thrift/tjson_protocol.go | 17 +----------------
 1 file changed, 1 insertion(+), 16 deletions(-)

diff --git a/lib/go/src/thrift/tjson_protocol.go b/lib/go/src/thrift/tjson_protocol.go
index bc79463..bd9504d 100644
--- a/lib/go/src/thrift/tjson_protocol.go
+++ b/lib/go/src/thrift/tjson_protocol.go
@@ -20,7 +20,6 @@
 package thrift
 
 import (
-	"encoding/base64"
 	"fmt"
 )
 
@@ -180,21 +179,7 @@ func (p *TJSONProtocol) WriteString(v string) TProtocolException {
 }
 
 func (p *TJSONProtocol) WriteBinary(v []byte) TProtocolException {
-	// JSON library only takes in a string,
-	// not an arbitrary byte array, to ensure bytes are transmitted
-	// efficiently we must convert this into a valid JSON string
-	// therefore we use base64 encoding to avoid excessive escaping/quoting
-	if e := p.OutputPreValue(); e != nil {
-		return e
-	}
-	p.writer.Write(JSON_QUOTE_BYTES)
-	writer := base64.NewEncoder(base64.StdEncoding, p.writer)
-	if _, e := writer.Write(v); e != nil {
-		return NewTProtocolExceptionFromOsError(e)
-	}
-	writer.Close()
-	p.writer.Write(JSON_QUOTE_BYTES)
-	return p.OutputPostValue()
+	return p.TSimpleJSONProtocol.WriteBinary(v)
 }
 
 /**
-- 
2.43.0


From 02d4b0a6c815c35e33dc4382122ac97059d36f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:09 +0000
Subject: [PATCH 15/33] fix: TFramedTransport ignored failed frames and leaked
 bytes between connections

Read dropped the error of reading a frame and reported the end of the stream
instead, also for an empty frame. A negative frame length was taken for a huge
one, which was allocated before its data arrived. The rest of a frame that
could not be flushed, and unread bytes, went into the next connection after the
transport had been closed and opened again.
---
 lib/go/src/thrift/tframed_transport.go | 37 ++++++++++++++++----------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/lib/go/src/thrift/tframed_transport.go b/lib/go/src/thrift/tframed_transport.go
index c1a78d2..6b609ae 100644
--- a/lib/go/src/thrift/tframed_transport.go
+++ b/lib/go/src/thrift/tframed_transport.go
@@ -22,6 +22,7 @@ package thrift
 import (
 	"bytes"
 	"encoding/binary"
+	"strconv"
 )
 
 type TFramedTransport struct {
@@ -49,7 +50,11 @@ func NewTFramedTransport(transport TTransport) *TFramedTransport {
 }
 
 func (p *TFramedTransport) Open() error {
-	return p.transport.Open()
+	err := p.transport.Open()
+	if err == nil {
+		p.discard()
+	}
+	return err
 }
 
 func (p *TFramedTransport) IsOpen() bool {
@@ -61,20 +66,23 @@ func (p *TFramedTransport) Peek() bool {
 }
 
 func (p *TFramedTransport) Close() error {
+	p.discard()
 	return p.transport.Close()
 }
 
+// Drops what is buffered, so that it cannot get into another connection.
+func (p *TFramedTransport) discard() {
+	p.writeBuffer = bytes.NewBuffer(nil)
+	p.readBuffer = bytes.NewBuffer(nil)
+}
+
 func (p *TFramedTransport) Read(buf []byte) (int, error) {
-	if p.readBuffer.Len() > 0 {
-		got, err := p.readBuffer.Read(buf)
-		if got > 0 {
-			return got, NewTTransportExceptionFromOsError(err)
+	// Read more frames until there is data, as a frame may be empty
+	for p.readBuffer.Len() == 0 && len(buf) > 0 {
+		if _, err := p.readFrame(); err != nil {
+			return 0, NewTTransportExceptionFromOsError(err)
 		}
 	}
-
-	// Read another frame of data
-	p.readFrame()
-
 	got, err := p.readBuffer.Read(buf)
 	return got, NewTTransportExceptionFromOsError(err)
 }
@@ -94,12 +102,14 @@ func (p *TFramedTransport) Flush() error {
 	binary.BigEndian.PutUint32(buf, uint32(size))
 	_, err := p.transport.Write(buf)
 	if err != nil {
+		p.writeBuffer.Reset()
 		return NewTTransportExceptionFromOsError(err)
 	}
 	if size > 0 {
 		n, err := p.writeBuffer.WriteTo(p.transport)
 		if err != nil {
 			print("Error while flushing write buffer of size ", size, " to transport, only wrote ", n, " bytes: ", err.Error(), "\n")
+			p.writeBuffer.Reset()
 			return NewTTransportExceptionFromOsError(err)
 		}
 	}
@@ -113,18 +123,17 @@ func (p *TFramedTransport) readFrame() (int, error) {
 	if err != nil {
 		return 0, err
 	}
-	size := int(binary.BigEndian.Uint32(buf))
+	size := int(int32(binary.BigEndian.Uint32(buf)))
 	if size < 0 {
 		// TODO(pomack) log error
-		return 0, NewTTransportException(UNKNOWN_TRANSPORT_EXCEPTION, "Read a negative frame size ("+string(size)+")")
+		return 0, NewTTransportException(UNKNOWN_TRANSPORT_EXCEPTION, "Read a negative frame size ("+strconv.Itoa(size)+")")
 	}
 	if size == 0 {
 		return 0, nil
 	}
-	buf2 := make([]byte, size)
-	n, err := p.transport.ReadAll(buf2)
+	buf2, err := readBytes(p.transport, size)
 	if err != nil {
-		return n, err
+		return 0, err
 	}
 	p.readBuffer = bytes.NewBuffer(buf2)
 	return size, nil
-- 
2.43.0


From c22087b1b9ae57943507aa09322eca1d4c2f49ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:11 +0000
Subject: [PATCH 16/33] fix: timeouts were not reported as TIMED_OUT

An expired deadline became an unknown transport exception, and
TNonblockingSocket.Write returned the error of the net package unconverted.
---
 lib/go/src/thrift/tnonblocking_socket.go  | 3 ++-
 lib/go/src/thrift/ttransport_exception.go | 4 ++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/tnonblocking_socket.go b/lib/go/src/thrift/tnonblocking_socket.go
index a811149..3238e98 100644
--- a/lib/go/src/thrift/tnonblocking_socket.go
+++ b/lib/go/src/thrift/tnonblocking_socket.go
@@ -151,7 +151,8 @@ func (p *TNonblockingSocket) Write(buf []byte) (int, error) {
 		return 0, NewTTransportException(NOT_OPEN, "Connection not open")
 	}
 	p.pushDeadline(false, true)
-	return p.conn.Write(buf)
+	n, err := p.conn.Write(buf)
+	return n, NewTTransportExceptionFromOsError(err)
 }
 
 /**
diff --git a/lib/go/src/thrift/ttransport_exception.go b/lib/go/src/thrift/ttransport_exception.go
index 9450c99..b757b88 100644
--- a/lib/go/src/thrift/ttransport_exception.go
+++ b/lib/go/src/thrift/ttransport_exception.go
@@ -21,6 +21,7 @@ package thrift
 
 import (
 	"io"
+	"net"
 )
 
 /**
@@ -77,6 +78,9 @@ func NewTTransportExceptionFromOsError(e error) TTransportException {
 	if ok {
 		return t
 	}
+	if te, ok := e.(net.Error); ok && te.Timeout() {
+		return NewTTransportException(TIMED_OUT, e.Error())
+	}
 	if e == io.EOF {
 		return NewTTransportException(END_OF_FILE, e.Error())
 	}
-- 
2.43.0


From 69a66ab263dacf1eac9b10aca3a8924d4ec21609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:13 +0000
Subject: [PATCH 17/33] fix: TSocket.Flush used the deadline of an earlier
 Write

The write deadline was set when data was added to the buffer, but data is sent
by Flush: a message that took longer than the timeout to assemble could not be
flushed at all, and a flush could end early, or never after SetTimeout.
---
 lib/go/src/thrift/tsocket.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/go/src/thrift/tsocket.go b/lib/go/src/thrift/tsocket.go
index 257aff0..3db3cef 100644
--- a/lib/go/src/thrift/tsocket.go
+++ b/lib/go/src/thrift/tsocket.go
@@ -212,6 +212,7 @@ func (p *TSocket) Flush() error {
 	if !p.IsOpen() {
 		return NewTTransportException(NOT_OPEN, "Connection not open")
 	}
+	p.pushDeadline(false, true)
 	_, err := p.writeBuffer.WriteTo(p.conn)
 	return NewTTransportExceptionFromOsError(err)
 }
-- 
2.43.0


From 87771f5b23531a8b0f20c1896ebaa2e4b3c02de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:14 +0000
Subject: [PATCH 18/33] fix: TNonblockingSocket.Open ignored the timeout

---
 lib/go/src/thrift/tnonblocking_socket.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/tnonblocking_socket.go b/lib/go/src/thrift/tnonblocking_socket.go
index 3238e98..bdfc9eb 100644
--- a/lib/go/src/thrift/tnonblocking_socket.go
+++ b/lib/go/src/thrift/tnonblocking_socket.go
@@ -119,8 +119,9 @@ func (p *TNonblockingSocket) Open() error {
 		return NewTTransportException(NOT_OPEN, "Cannot open bad address.")
 	}
 
+	// without a timeout this is the same as net.Dial
 	var err error
-	if p.conn, err = net.Dial(p.addr.Network(), p.addr.String()); err != nil {
+	if p.conn, err = net.DialTimeout(p.addr.Network(), p.addr.String(), time.Duration(p.nsecTimeout)); err != nil {
 		LOGGER.Print("Could not open socket", err.Error())
 		return NewTTransportException(NOT_OPEN, err.Error())
 	}
-- 
2.43.0


From 5e97382aafe65188b88b7376d67070644c935076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:46 +0000
Subject: [PATCH 19/33] fix: sockets could not be reopened or interrupted
 safely

TSocket.Open sent what an earlier connection had left in the write buffer. A
close that failed, as it does after Interrupt, left the connection in place, so
that the socket could be neither closed nor opened again. Interrupting a
TNonblockingSocket from another goroutine set conn to nil under a running Read
or Write, which then panicked.
---
 lib/go/src/thrift/tnonblocking_socket.go | 69 +++++++++++++++---------
 lib/go/src/thrift/tsocket.go             | 67 +++++++++++++----------
 2 files changed, 84 insertions(+), 52 deletions(-)

diff --git a/lib/go/src/thrift/tnonblocking_socket.go b/lib/go/src/thrift/tnonblocking_socket.go
index bdfc9eb..ef096b5 100644
--- a/lib/go/src/thrift/tnonblocking_socket.go
+++ b/lib/go/src/thrift/tnonblocking_socket.go
@@ -21,6 +21,7 @@ package thrift
 
 import (
 	"net"
+	"sync"
 	"time"
 )
 
@@ -28,8 +29,9 @@ import (
  * Socket implementation of the TTransport interface. To be commented soon!
  */
 type TNonblockingSocket struct {
-	conn net.Conn
-	addr net.Addr
+	conn  net.Conn // guarded by mutex
+	mutex sync.Mutex
+	addr  net.Addr
 	/**
 	 * Socket timeout
 	 */
@@ -81,17 +83,17 @@ func (p *TNonblockingSocket) SetTimeout(nsecTimeout int64) error {
 	return nil
 }
 
-func (p *TNonblockingSocket) pushDeadline(read, write bool) {
+func (p *TNonblockingSocket) pushDeadline(conn net.Conn, read, write bool) {
 	var t time.Time
 	if p.nsecTimeout > 0 {
 		t = time.Now().Add(time.Duration(p.nsecTimeout))
 	}
 	if read && write {
-		p.conn.SetDeadline(t)
+		conn.SetDeadline(t)
 	} else if read {
-		p.conn.SetReadDeadline(t)
+		conn.SetReadDeadline(t)
 	} else if write {
-		p.conn.SetWriteDeadline(t)
+		conn.SetWriteDeadline(t)
 	}
 }
 
@@ -99,7 +101,20 @@ func (p *TNonblockingSocket) pushDeadline(read, write bool) {
  * Checks whether the socket is connected.
  */
 func (p *TNonblockingSocket) IsOpen() bool {
-	return p.conn != nil
+	return p.getConn() != nil
+}
+
+func (p *TNonblockingSocket) getConn() net.Conn {
+	p.mutex.Lock()
+	defer p.mutex.Unlock()
+	return p.conn
+}
+
+func (p *TNonblockingSocket) setConn(conn net.Conn) (previous net.Conn) {
+	p.mutex.Lock()
+	defer p.mutex.Unlock()
+	previous, p.conn = p.conn, conn
+	return previous
 }
 
 /**
@@ -119,12 +134,16 @@ func (p *TNonblockingSocket) Open() error {
 		return NewTTransportException(NOT_OPEN, "Cannot open bad address.")
 	}
 
-	// without a timeout this is the same as net.Dial
-	var err error
-	if p.conn, err = net.DialTimeout(p.addr.Network(), p.addr.String(), time.Duration(p.nsecTimeout)); err != nil {
+	var timeout time.Duration
+	if p.nsecTimeout > 0 {
+		timeout = time.Duration(p.nsecTimeout)
+	}
+	conn, err := net.DialTimeout(p.addr.Network(), p.addr.String(), timeout)
+	if err != nil {
 		LOGGER.Print("Could not open socket", err.Error())
 		return NewTTransportException(NOT_OPEN, err.Error())
 	}
+	p.setConn(conn)
 	return nil
 }
 
@@ -132,11 +151,12 @@ func (p *TNonblockingSocket) Open() error {
  * Perform a nonblocking read into buffer.
  */
 func (p *TNonblockingSocket) Read(buf []byte) (int, error) {
-	if !p.IsOpen() {
+	conn := p.getConn()
+	if conn == nil {
 		return 0, NewTTransportException(NOT_OPEN, "Connection not open")
 	}
-	p.pushDeadline(true, false)
-	n, err := p.conn.Read(buf)
+	p.pushDeadline(conn, true, false)
+	n, err := conn.Read(buf)
 	return n, NewTTransportExceptionFromOsError(err)
 }
 
@@ -148,11 +168,12 @@ func (p *TNonblockingSocket) ReadAll(buf []byte) (int, error) {
  * Perform a nonblocking write of the data in buffer;
  */
 func (p *TNonblockingSocket) Write(buf []byte) (int, error) {
-	if !p.IsOpen() {
+	conn := p.getConn()
+	if conn == nil {
 		return 0, NewTTransportException(NOT_OPEN, "Connection not open")
 	}
-	p.pushDeadline(false, true)
-	n, err := p.conn.Write(buf)
+	p.pushDeadline(conn, false, true)
+	n, err := conn.Write(buf)
 	return n, NewTTransportExceptionFromOsError(err)
 }
 
@@ -160,10 +181,11 @@ func (p *TNonblockingSocket) Write(buf []byte) (int, error) {
  * Flushes the underlying output stream if not null.
  */
 func (p *TNonblockingSocket) Flush() error {
-	if !p.IsOpen() {
+	conn := p.getConn()
+	if conn == nil {
 		return NewTTransportException(NOT_OPEN, "Connection not open")
 	}
-	f, ok := p.conn.(Flusher)
+	f, ok := conn.(Flusher)
 	if ok {
 		err := f.Flush()
 		if err != nil {
@@ -185,20 +207,17 @@ func (p *TNonblockingSocket) Peek() bool {
  * Closes the socket.
  */
 func (p *TNonblockingSocket) Close() error {
-	if p.conn != nil {
-		if err := p.conn.Close(); err != nil {
-			LOGGER.Print("Could not close socket.", err.Error())
+	// Whatever happens, the connection cannot be used any more
+	if conn := p.setConn(nil); conn != nil {
+		if err := conn.Close(); err != nil {
+			LOGGER.Print("Could not close socket. ", err.Error())
 			return err
 		}
-		p.conn = nil
 	}
 	return nil
 }
 
 func (p *TNonblockingSocket) Interrupt() error {
-	if !p.IsOpen() {
-		return nil
-	}
 	// TODO(pomack) fix Interrupt as it is probably not right
 	return p.Close()
 }
diff --git a/lib/go/src/thrift/tsocket.go b/lib/go/src/thrift/tsocket.go
index 3db3cef..91f633c 100644
--- a/lib/go/src/thrift/tsocket.go
+++ b/lib/go/src/thrift/tsocket.go
@@ -22,6 +22,7 @@ package thrift
 import (
 	"bytes"
 	"net"
+	"sync"
 	"time"
 )
 
@@ -32,9 +33,10 @@ import (
 type TSocket struct {
 	writeBuffer *bytes.Buffer
 	/**
-	 * Wrapped Socket object
+	 * Wrapped Socket object, guarded by mutex
 	 */
-	conn net.Conn
+	conn  net.Conn
+	mutex sync.Mutex
 	/**
 	 * Remote Addr
 	 */
@@ -104,17 +106,17 @@ func (p *TSocket) SetTimeout(nsecTimeout int64) error {
 	return nil
 }
 
-func (p *TSocket) pushDeadline(read, write bool) {
+func (p *TSocket) pushDeadline(conn net.Conn, read, write bool) {
 	var t time.Time
 	if p.nsecTimeout > 0 {
 		t = time.Now().Add(time.Duration(p.nsecTimeout))
 	}
 	if read && write {
-		p.conn.SetDeadline(t)
+		conn.SetDeadline(t)
 	} else if read {
-		p.conn.SetReadDeadline(t)
+		conn.SetReadDeadline(t)
 	} else if write {
-		p.conn.SetWriteDeadline(t)
+		conn.SetWriteDeadline(t)
 	}
 }
 
@@ -122,17 +124,23 @@ func (p *TSocket) pushDeadline(read, write bool) {
  * Returns a reference to the underlying socket.
  */
 func (p *TSocket) Conn() net.Conn {
+	p.mutex.Lock()
+	defer p.mutex.Unlock()
 	return p.conn
 }
 
+func (p *TSocket) setConn(conn net.Conn) (previous net.Conn) {
+	p.mutex.Lock()
+	defer p.mutex.Unlock()
+	previous, p.conn = p.conn, conn
+	return previous
+}
+
 /**
  * Checks whether the socket is connected.
  */
 func (p *TSocket) IsOpen() bool {
-	if p.conn == nil {
-		return false
-	}
-	return true
+	return p.Conn() != nil
 }
 
 /**
@@ -151,18 +159,21 @@ func (p *TSocket) Open() error {
 	if len(p.addr.String()) == 0 {
 		return NewTTransportException(NOT_OPEN, "Cannot open bad address.")
 	}
+	var conn net.Conn
 	var err error
 	if p.nsecTimeout > 0 {
-		if p.conn, err = net.DialTimeout(p.addr.Network(), p.addr.String(), time.Duration(p.nsecTimeout)); err != nil {
+		if conn, err = net.DialTimeout(p.addr.Network(), p.addr.String(), time.Duration(p.nsecTimeout)); err != nil {
 			LOGGER.Print("Could not open socket", err.Error())
 			return NewTTransportException(NOT_OPEN, err.Error())
 		}
 	} else {
-		if p.conn, err = net.Dial(p.addr.Network(), p.addr.String()); err != nil {
+		if conn, err = net.Dial(p.addr.Network(), p.addr.String()); err != nil {
 			LOGGER.Print("Could not open socket", err.Error())
 			return NewTTransportException(NOT_OPEN, err.Error())
 		}
 	}
+	p.writeBuffer.Reset()
+	p.setConn(conn)
 	return nil
 }
 
@@ -170,24 +181,23 @@ func (p *TSocket) Open() error {
  * Closes the socket.
  */
 func (p *TSocket) Close() error {
-	// Close the socket
-	if p.conn != nil {
-		err := p.conn.Close()
-		if err != nil {
+	// Whatever happens, the connection cannot be used any more
+	if conn := p.setConn(nil); conn != nil {
+		if err := conn.Close(); err != nil {
 			LOGGER.Print("Could not close socket. ", err.Error())
 			return err
 		}
-		p.conn = nil
 	}
 	return nil
 }
 
 func (p *TSocket) Read(buf []byte) (int, error) {
-	if !p.IsOpen() {
+	conn := p.Conn()
+	if conn == nil {
 		return 0, NewTTransportException(NOT_OPEN, "Connection not open")
 	}
-	p.pushDeadline(true, false)
-	n, err := p.conn.Read(buf)
+	p.pushDeadline(conn, true, false)
+	n, err := conn.Read(buf)
 	return n, NewTTransportExceptionFromOsError(err)
 }
 
@@ -196,10 +206,11 @@ func (p *TSocket) ReadAll(buf []byte) (int, error) {
 }
 
 func (p *TSocket) Write(buf []byte) (int, error) {
-	if !p.IsOpen() {
+	conn := p.Conn()
+	if conn == nil {
 		return 0, NewTTransportException(NOT_OPEN, "Connection not open")
 	}
-	p.pushDeadline(false, true)
+	p.pushDeadline(conn, false, true)
 	p.writeBuffer.Write(buf)
 	return len(buf), nil
 }
@@ -209,18 +220,20 @@ func (p *TSocket) Peek() bool {
 }
 
 func (p *TSocket) Flush() error {
-	if !p.IsOpen() {
+	conn := p.Conn()
+	if conn == nil {
 		return NewTTransportException(NOT_OPEN, "Connection not open")
 	}
-	p.pushDeadline(false, true)
-	_, err := p.writeBuffer.WriteTo(p.conn)
+	p.pushDeadline(conn, false, true)
+	_, err := p.writeBuffer.WriteTo(conn)
 	return NewTTransportExceptionFromOsError(err)
 }
 
 func (p *TSocket) Interrupt() error {
-	if !p.IsOpen() {
+	conn := p.Conn()
+	if conn == nil {
 		return nil
 	}
 	// TODO(pomack) fix Interrupt as this is probably wrong
-	return p.conn.Close()
+	return conn.Close()
 }
-- 
2.43.0


From a25c2dd212bc078f8cf412c5d2f9cc604252c1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:48 +0000
Subject: [PATCH 20/33] fix: stopping a server could leave it listening or
 panic

Interrupting a TServerSocket between two calls of Accept made the next Accept
listen again and wait forever; interrupting either server socket while Accept
was using the listener dereferenced nil. A TNonblockingServerSocket made from a
listener could not be served at all, because Listen reported that it was open.
---
 .../src/thrift/tnonblocking_server_socket.go  | 52 ++++++----
 lib/go/src/thrift/tserver_socket.go           | 94 +++++++++++++------
 2 files changed, 98 insertions(+), 48 deletions(-)

diff --git a/lib/go/src/thrift/tnonblocking_server_socket.go b/lib/go/src/thrift/tnonblocking_server_socket.go
index e38535d..f65b848 100644
--- a/lib/go/src/thrift/tnonblocking_server_socket.go
+++ b/lib/go/src/thrift/tnonblocking_server_socket.go
@@ -21,13 +21,15 @@ package thrift
 
 import (
 	"net"
+	"sync"
 )
 
 /**
  * Socket implementation of the TTransport interface. To be commented soon!
  */
 type TNonblockingServerSocket struct {
-	listener net.Listener
+	listener net.Listener // guarded by mutex
+	mutex    sync.Mutex
 	addr     net.Addr
 	/**
 	 * Socket timeout
@@ -71,7 +73,21 @@ func NewTNonblockingServerSocketAddrTimeout(addr net.Addr, nsecTimeout int64) (*
 }
 
 func (p *TNonblockingServerSocket) Listen() error {
-	return p.Open()
+	p.mutex.Lock()
+	defer p.mutex.Unlock()
+	return p.listen()
+}
+
+// Must be called with the mutex held.
+func (p *TNonblockingServerSocket) listen() error {
+	if p.listener == nil {
+		l, err := net.Listen(p.addr.Network(), p.addr.String())
+		if err != nil {
+			return err
+		}
+		p.listener = l
+	}
+	return nil
 }
 
 /**
@@ -88,6 +104,8 @@ func (p *TNonblockingServerSocket) SetTimeout(nsecTimeout int64) error {
  * Checks whether the socket is connected.
  */
 func (p *TNonblockingServerSocket) IsOpen() bool {
+	p.mutex.Lock()
+	defer p.mutex.Unlock()
 	return p.listener != nil
 }
 
@@ -95,13 +113,10 @@ func (p *TNonblockingServerSocket) IsOpen() bool {
  * Connects the socket, creating a new socket object if necessary.
  */
 func (p *TNonblockingServerSocket) Open() error {
-	if !p.IsOpen() {
-		l, err := net.Listen(p.addr.Network(), p.addr.String())
-		if err != nil {
-			return err
-		}
-		p.listener = l
-		return nil
+	p.mutex.Lock()
+	defer p.mutex.Unlock()
+	if p.listener == nil {
+		return p.listen()
 	}
 	return NewTTransportException(ALREADY_OPEN, "Server socket already open")
 }
@@ -136,10 +151,13 @@ func (p *TNonblockingServerSocket) Addr() net.Addr {
 }
 
 func (p *TNonblockingServerSocket) Accept() (TTransport, error) {
-	if !p.IsOpen() {
+	p.mutex.Lock()
+	listener := p.listener
+	p.mutex.Unlock()
+	if listener == nil {
 		return nil, NewTTransportException(NOT_OPEN, "No underlying server socket")
 	}
-	conn, err := p.listener.Accept()
+	conn, err := listener.Accept()
 	if err != nil {
 		return nil, NewTTransportExceptionFromOsError(err)
 	}
@@ -154,12 +172,12 @@ func (p *TNonblockingServerSocket) Peek() bool {
  * Closes the socket.
  */
 func (p *TNonblockingServerSocket) Close() (err error) {
-	if p.IsOpen() {
-		err := p.listener.Close()
-		if err != nil {
-			return NewTTransportExceptionFromOsError(err)
-		}
-		p.listener = nil
+	p.mutex.Lock()
+	listener := p.listener
+	p.listener = nil
+	p.mutex.Unlock()
+	if listener != nil {
+		return NewTTransportExceptionFromOsError(listener.Close())
 	}
 	return nil
 }
diff --git a/lib/go/src/thrift/tserver_socket.go b/lib/go/src/thrift/tserver_socket.go
index b750284..9f5204d 100644
--- a/lib/go/src/thrift/tserver_socket.go
+++ b/lib/go/src/thrift/tserver_socket.go
@@ -21,6 +21,7 @@ package thrift
 
 import (
 	"net"
+	"sync"
 )
 
 type TServerSocket struct {
@@ -29,10 +30,17 @@ type TServerSocket struct {
 	 */
 	conn net.Conn
 	/**
-	 * Underlying socket conection object
+	 * Underlying socket conection object, guarded by mutex
 	 */
 	listener net.Listener
 
+	/**
+	 * Whether Accept must not listen again by itself, guarded by mutex
+	 */
+	interrupted bool
+
+	mutex sync.Mutex
+
 	/**
 	 * Address to listen on
 	 */
@@ -84,24 +92,43 @@ func NewTServerSocketAddrTimeout(addr net.Addr, nsecClientTimeout int64) (*TServ
 }
 
 func (p *TServerSocket) Listen() (err error) {
+	p.mutex.Lock()
+	defer p.mutex.Unlock()
+	p.interrupted = false
+	return p.listen("tcp")
+}
+
+// Must be called with the mutex held.
+func (p *TServerSocket) listen(network string) (err error) {
 	if p.listener == nil {
-		if p.listener, err = net.Listen("tcp", p.addr.String()); err != nil {
+		l, err := net.Listen(network, p.addr.String())
+		if err != nil {
 			return err
 		}
+		p.listener = l
 	}
 	return nil
 }
 
+// Returns the listener to accept from, listening first if that was not done.
+func (p *TServerSocket) acceptFrom() (net.Listener, error) {
+	p.mutex.Lock()
+	defer p.mutex.Unlock()
+	if p.interrupted {
+		return nil, NewTTransportException(NOT_OPEN, "Server socket was interrupted")
+	}
+	if err := p.listen("tcp"); err != nil {
+		return nil, NewTTransportExceptionFromOsError(err)
+	}
+	return p.listener, nil
+}
+
 func (p *TServerSocket) Accept() (TTransport, error) {
-	if p.listener == nil {
-		if err := p.Listen(); err != nil {
-			return nil, NewTTransportExceptionFromOsError(err)
-		}
-		if p.listener == nil {
-			return nil, NewTTransportException(NOT_OPEN, "No underlying server socket")
-		}
+	listener, err := p.acceptFrom()
+	if err != nil {
+		return nil, err
 	}
-	conn, err := p.listener.Accept()
+	conn, err := listener.Accept()
 	if err != nil {
 		return nil, NewTTransportExceptionFromOsError(err)
 	}
@@ -112,6 +139,8 @@ func (p *TServerSocket) Accept() (TTransport, error) {
  * Checks whether the socket is connected.
  */
 func (p *TServerSocket) IsOpen() bool {
+	p.mutex.Lock()
+	defer p.mutex.Unlock()
 	return p.listener != nil
 }
 
@@ -119,13 +148,11 @@ func (p *TServerSocket) IsOpen() bool {
  * Connects the socket, creating a new socket object if necessary.
  */
 func (p *TServerSocket) Open() error {
-	if !p.IsOpen() {
-		l, err := net.Listen(p.addr.Network(), p.addr.String())
-		if err != nil {
-			return err
-		}
-		p.listener = l
-		return nil
+	p.mutex.Lock()
+	defer p.mutex.Unlock()
+	if p.listener == nil {
+		p.interrupted = false
+		return p.listen(p.addr.Network())
 	}
 	return NewTTransportException(ALREADY_OPEN, "Server socket already open")
 }
@@ -167,24 +194,29 @@ func (p *TServerSocket) Peek() bool {
  * Closes the socket.
  */
 func (p *TServerSocket) Close() (err error) {
-	if p.IsOpen() {
-		err := p.listener.Close()
-		if err != nil {
-			return NewTTransportExceptionFromOsError(err)
-		}
-		p.listener = nil
+	return p.close(false)
+}
+
+func (p *TServerSocket) close(interrupt bool) (err error) {
+	p.mutex.Lock()
+	listener, conn := p.listener, p.conn
+	p.listener, p.conn = nil, nil
+	if interrupt {
+		p.interrupted = true
 	}
-	if p.conn != nil {
-		err := p.conn.Close()
-		if err != nil {
-			return NewTTransportExceptionFromOsError(err)
+	p.mutex.Unlock()
+	if listener != nil {
+		err = NewTTransportExceptionFromOsError(listener.Close())
+	}
+	if conn != nil {
+		if e := conn.Close(); e != nil && err == nil {
+			err = NewTTransportExceptionFromOsError(e)
 		}
-		p.conn = nil
 	}
-	return nil
+	return err
 }
 
 func (p *TServerSocket) Interrupt() error {
-	// TODO(pomack) fix Interrupt as it is probably not right
-	return NewTTransportExceptionFromOsError(p.Close())
+	// a goroutine that is about to accept must not listen again
+	return p.close(true)
 }
-- 
2.43.0


From b52cc62ba4c45ac297cfb901c358ce855f92a65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:50 +0000
Subject: [PATCH 21/33] fix: a stopped server went on with connections that had
 failed

While stopping, an error of the processor did not end the connection, which
could loop forever, and the flag was accessed from several goroutines without
synchronisation.
---
 lib/go/src/thrift/tnonblocking_server.go | 20 ++++++++++----------
 lib/go/src/thrift/tsimple_server.go      | 18 ++++++++++--------
 2 files changed, 20 insertions(+), 18 deletions(-)

diff --git a/lib/go/src/thrift/tnonblocking_server.go b/lib/go/src/thrift/tnonblocking_server.go
index 399cfe4..2d516d2 100644
--- a/lib/go/src/thrift/tnonblocking_server.go
+++ b/lib/go/src/thrift/tnonblocking_server.go
@@ -19,7 +19,9 @@
 
 package thrift
 
-import ()
+import (
+	"sync/atomic"
+)
 
 /**
  * A nonblocking TServer implementation. This allows for fairness amongst all
@@ -34,7 +36,7 @@ import ()
  */
 type TNonblockingServer struct {
 	/** Flag for stopping the server */
-	stopped bool
+	stopped int32 // accessed atomically
 
 	processorFactory       TProcessorFactory
 	serverTransport        TServerTransport
@@ -121,12 +123,12 @@ func (p *TNonblockingServer) OutputProtocolFactory() TProtocolFactory {
 }
 
 func (p *TNonblockingServer) Serve() error {
-	p.stopped = false
+	atomic.StoreInt32(&p.stopped, 0)
 	err := p.serverTransport.Listen()
 	if err != nil {
 		return err
 	}
-	for !p.stopped {
+	for atomic.LoadInt32(&p.stopped) == 0 {
 		client, err := p.serverTransport.Accept()
 		if err != nil {
 			return err
@@ -139,13 +141,13 @@ func (p *TNonblockingServer) Serve() error {
 }
 
 func (p *TNonblockingServer) Stop() error {
-	p.stopped = true
+	atomic.StoreInt32(&p.stopped, 1)
 	p.serverTransport.Interrupt()
 	return nil
 }
 
 func (p *TNonblockingServer) IsStopped() bool {
-	return p.stopped
+	return atomic.LoadInt32(&p.stopped) != 0
 }
 
 func (p *TNonblockingServer) processRequest(client TTransport) {
@@ -163,10 +165,8 @@ func (p *TNonblockingServer) processRequest(client TTransport) {
 	for {
 		ok, e := processor.Process(inputProtocol, outputProtocol)
 		if e != nil {
-			if !p.stopped {
-				// TODO(pomack) log error
-				break
-			}
+			// TODO(pomack) log error
+			break
 		}
 		if !ok {
 			break
diff --git a/lib/go/src/thrift/tsimple_server.go b/lib/go/src/thrift/tsimple_server.go
index 70a9916..c2df991 100644
--- a/lib/go/src/thrift/tsimple_server.go
+++ b/lib/go/src/thrift/tsimple_server.go
@@ -19,12 +19,16 @@
 
 package thrift
 
+import (
+	"sync/atomic"
+)
+
 /**
  * Simple singlethreaded server for testing.
  *
  */
 type TSimpleServer struct {
-	stopped bool
+	stopped int32 // accessed atomically
 
 	processorFactory       TProcessorFactory
 	serverTransport        TServerTransport
@@ -111,12 +115,12 @@ func (p *TSimpleServer) OutputProtocolFactory() TProtocolFactory {
 }
 
 func (p *TSimpleServer) Serve() error {
-	p.stopped = false
+	atomic.StoreInt32(&p.stopped, 0)
 	err := p.serverTransport.Listen()
 	if err != nil {
 		return err
 	}
-	for !p.stopped {
+	for atomic.LoadInt32(&p.stopped) == 0 {
 		client, err := p.serverTransport.Accept()
 		if err != nil {
 			return err
@@ -129,7 +133,7 @@ func (p *TSimpleServer) Serve() error {
 }
 
 func (p *TSimpleServer) Stop() error {
-	p.stopped = true
+	atomic.StoreInt32(&p.stopped, 1)
 	p.serverTransport.Interrupt()
 	return nil
 }
@@ -149,10 +153,8 @@ func (p *TSimpleServer) processRequest(client TTransport) {
 	for {
 		ok, e := processor.Process(inputProtocol, outputProtocol)
 		if e != nil {
-			if !p.stopped {
-				// TODO(pomack) log error
-				break
-			}
+			// TODO(pomack) log error
+			break
 		}
 		if !ok {
 			break
-- 
2.43.0


From 068f9df042042858f53d5551d074b7e3d699ebde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:16 +0000
Subject: [PATCH 22/33] fix: THttpClient mixed requests and responses

A request that failed left its bytes in the next request and the previous
response readable as the reply. Bodies of replaced and refused responses were
never closed. Close kept the unsent request when there was a response, and
otherwise left a client that could not be opened again and panicked when
written to.
---
 lib/go/src/thrift/thttp_client.go | 39 +++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/lib/go/src/thrift/thttp_client.go b/lib/go/src/thrift/thttp_client.go
index ddbc74e..7baea09 100644
--- a/lib/go/src/thrift/thttp_client.go
+++ b/lib/go/src/thrift/thttp_client.go
@@ -32,6 +32,7 @@ type THttpClient struct {
 	requestBuffer      *bytes.Buffer
 	nsecConnectTimeout int64
 	nsecReadTimeout    int64
+	isPost             bool
 }
 
 type THttpClientTransportFactory struct {
@@ -84,12 +85,15 @@ func NewTHttpPostClient(urlstr string) (TTransport, error) {
 	if err != nil {
 		return nil, err
 	}
-	buf := make([]byte, 0, 1024)
-	return &THttpClient{url: parsedURL, requestBuffer: bytes.NewBuffer(buf)}, nil
+	client := &THttpClient{url: parsedURL, isPost: true}
+	return client, client.Open()
 }
 
 func (p *THttpClient) Open() error {
-	// do nothing
+	// there is no connection to open, only a closed client to make usable again
+	if p.isPost && p.requestBuffer == nil {
+		p.requestBuffer = bytes.NewBuffer(make([]byte, 0, 1024))
+	}
 	return nil
 }
 
@@ -102,16 +106,16 @@ func (p *THttpClient) Peek() bool {
 }
 
 func (p *THttpClient) Close() error {
+	p.requestBuffer = nil
+	return p.closeResponse()
+}
+
+func (p *THttpClient) closeResponse() (err error) {
 	if p.response != nil && p.response.Body != nil {
-		err := p.response.Body.Close()
-		p.response = nil
-		return err
-	}
-	if p.requestBuffer != nil {
-		p.requestBuffer.Reset()
-		p.requestBuffer = nil
+		err = p.response.Body.Close()
 	}
-	return nil
+	p.response = nil
+	return err
 }
 
 func (p *THttpClient) Read(buf []byte) (int, error) {
@@ -127,17 +131,28 @@ func (p *THttpClient) ReadAll(buf []byte) (int, error) {
 }
 
 func (p *THttpClient) Write(buf []byte) (int, error) {
+	if p.requestBuffer == nil {
+		return 0, NewTTransportException(NOT_OPEN, "HTTP client is not open for writing.")
+	}
 	n, err := p.requestBuffer.Write(buf)
 	return n, err
 }
 
 func (p *THttpClient) Flush() error {
-	response, err := http.Post(p.url.String(), "application/x-thrift", p.requestBuffer)
+	if p.requestBuffer == nil {
+		return NewTTransportException(NOT_OPEN, "HTTP client is not open for writing.")
+	}
+	// whatever happens, neither the last response nor this request is used again
+	p.closeResponse()
+	request := p.requestBuffer
+	p.requestBuffer = bytes.NewBuffer(make([]byte, 0, 1024))
+	response, err := http.Post(p.url.String(), "application/x-thrift", request)
 	if err != nil {
 		return NewTTransportExceptionFromOsError(err)
 	}
 	if response.StatusCode != http.StatusOK {
 		// TODO(pomack) log bad response
+		response.Body.Close()
 		return NewTTransportException(UNKNOWN_TRANSPORT_EXCEPTION, "HTTP Response code: "+strconv.Itoa(response.StatusCode))
 	}
 	p.response = response
-- 
2.43.0


From 279e9c88e7de21357207e30894cf2fe44ea56c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:18 +0000
Subject: [PATCH 23/33] fix: TApplicationException.Write ignored a failed
 WriteStructBegin

---
 lib/go/src/thrift/tapplication_exception.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/go/src/thrift/tapplication_exception.go b/lib/go/src/thrift/tapplication_exception.go
index 21d38cd..42e00e4 100644
--- a/lib/go/src/thrift/tapplication_exception.go
+++ b/lib/go/src/thrift/tapplication_exception.go
@@ -139,6 +139,9 @@ func (p *tApplicationException) Read(iprot TProtocol) (error TApplicationExcepti
 
 func (p *tApplicationException) Write(oprot TProtocol) (err error) {
 	err = oprot.WriteStructBegin("TApplicationException")
+	if err != nil {
+		return
+	}
 	if len(p.Error()) > 0 {
 		err = oprot.WriteFieldBegin("message", STRING, 1)
 		if err != nil {
-- 
2.43.0


From 21f30e055223444d5188e1801befb5b85dd206ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:46 +0000
Subject: [PATCH 24/33] fix: TApplicationException could not be read with
 TSimpleJSONProtocol

That protocol has only the names of the fields, as the generated code knows.
---
 lib/go/src/thrift/tapplication_exception.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/lib/go/src/thrift/tapplication_exception.go b/lib/go/src/thrift/tapplication_exception.go
index 42e00e4..09f9517 100644
--- a/lib/go/src/thrift/tapplication_exception.go
+++ b/lib/go/src/thrift/tapplication_exception.go
@@ -86,16 +86,17 @@ func (p *tApplicationException) Read(iprot TProtocol) (error TApplicationExcepti
 	type_ := int32(UNKNOWN_APPLICATION_EXCEPTION)
 
 	for {
-		_, ttype, id, er := iprot.ReadFieldBegin()
+		name, ttype, id, er := iprot.ReadFieldBegin()
 		if er != nil {
 			return nil, er
 		}
 		if ttype == STOP {
 			break
 		}
-		switch id {
-		case 1:
-			if ttype == STRING {
+		// a protocol without field ids and types has the names instead
+		switch {
+		case id == 1 || name == "message":
+			if ttype == STRING || ttype == GENERIC {
 				message, err = iprot.ReadString()
 				if err != nil {
 					return
@@ -107,8 +108,8 @@ func (p *tApplicationException) Read(iprot TProtocol) (error TApplicationExcepti
 				}
 			}
 			break
-		case 2:
-			if ttype == I32 {
+		case id == 2 || name == "type":
+			if ttype == I32 || ttype == GENERIC {
 				type_, err = iprot.ReadI32()
 				if err != nil {
 					return
-- 
2.43.0


From d816b24fb754c790f9e92052425d242209dac320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:26 +0000
Subject: [PATCH 25/33] fix: the second call of a JSON protocol over
 THttpClient failed

A response body may return its last bytes together with the end of the stream;
the buffering reader of the protocol kept that error for the next response.
---
 lib/go/src/thrift/thttp_client.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/go/src/thrift/thttp_client.go b/lib/go/src/thrift/thttp_client.go
index 7baea09..83f46f2 100644
--- a/lib/go/src/thrift/thttp_client.go
+++ b/lib/go/src/thrift/thttp_client.go
@@ -21,6 +21,7 @@ package thrift
 
 import (
 	"bytes"
+	"io"
 	"net/http"
 	"net/url"
 	"strconv"
@@ -123,6 +124,11 @@ func (p *THttpClient) Read(buf []byte) (int, error) {
 		return 0, NewTTransportException(NOT_OPEN, "Response buffer is empty, no request.")
 	}
 	n, err := p.response.Body.Read(buf)
+	if n > 0 && err == io.EOF {
+		// report the end of this response only when it is read past, or a
+		// buffering reader would take it for the end of the next response
+		err = nil
+	}
 	return n, NewTTransportExceptionFromOsError(err)
 }
 
-- 
2.43.0


From 0f2150eb99bc9e65037702dfc423dd5a5454ab1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:44 +0000
Subject: [PATCH 26/33] fix: the JSON protocols wrote the type of a list, set
 or map of binary values as 18

---
 lib/go/src/thrift/tsimple_json_protocol.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/go/src/thrift/tsimple_json_protocol.go b/lib/go/src/thrift/tsimple_json_protocol.go
index 510b1b3..6a013e6 100644
--- a/lib/go/src/thrift/tsimple_json_protocol.go
+++ b/lib/go/src/thrift/tsimple_json_protocol.go
@@ -217,10 +217,10 @@ func (p *TSimpleJSONProtocol) WriteMapBegin(keyType TType, valueType TType, size
 	if e := p.OutputListBegin(); e != nil {
 		return e
 	}
-	if e := p.WriteByte(byte(keyType)); e != nil {
+	if e := p.WriteByte(keyType.ThriftTypeId()); e != nil {
 		return e
 	}
-	if e := p.WriteByte(byte(valueType)); e != nil {
+	if e := p.WriteByte(valueType.ThriftTypeId()); e != nil {
 		return e
 	}
 	return p.WriteI32(int32(size))
@@ -715,7 +715,7 @@ func (p *TSimpleJSONProtocol) OutputElemListBegin(elemType TType, size int) TPro
 	if e := p.OutputListBegin(); e != nil {
 		return e
 	}
-	if e := p.WriteByte(byte(elemType)); e != nil {
+	if e := p.WriteByte(elemType.ThriftTypeId()); e != nil {
 		return e
 	}
 	if e := p.WriteI64(int64(size)); e != nil {
-- 
2.43.0


From 8fa0c72239622740f257d0b30f22eed9e1caa9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:49:32 +0000
Subject: [PATCH 27/33] fix: a stream transport made after the pattern of
 another left its streams open

---
 lib/go/src/thrift/tiostream_transport.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/lib/go/src/thrift/tiostream_transport.go b/lib/go/src/thrift/tiostream_transport.go
index 2bb41f2..bfb8f1a 100644
--- a/lib/go/src/thrift/tiostream_transport.go
+++ b/lib/go/src/thrift/tiostream_transport.go
@@ -54,13 +54,13 @@ func (p *TIOStreamTransportFactory) GetTransport(trans TTransport) TTransport {
 				return NewTIOStreamTransportRW(t.Reader.(io.ReadWriter))
 			}
 			if t.Reader != nil && t.Writer != nil {
-				return NewTIOStreamTransportRAndW(t.Reader, t.Writer)
+				return NewTIOStreamTransportRAndW(t.Reader, t.Writer).over(t)
 			}
 			if t.Reader != nil && t.Writer == nil {
-				return NewTIOStreamTransportR(t.Reader)
+				return NewTIOStreamTransportR(t.Reader).over(t)
 			}
 			if t.Reader == nil && t.Writer != nil {
-				return NewTIOStreamTransportW(t.Writer)
+				return NewTIOStreamTransportW(t.Writer).over(t)
 			}
 			return NewTIOStreamTransportDefault()
 		}
@@ -80,6 +80,17 @@ func (p *TIOStreamTransportFactory) GetTransport(trans TTransport) TTransport {
 	return NewTIOStreamTransportDefault()
 }
 
+// Makes the transport close the streams underneath another one's buffers.
+func (p *TIOStreamTransport) over(t *TIOStreamTransport) *TIOStreamTransport {
+	if t.source != nil {
+		p.source = t.source
+	}
+	if t.sink != nil {
+		p.sink = t.sink
+	}
+	return p
+}
+
 func NewTIOStreamTransportFactory(reader io.Reader, writer io.Writer, isReadWriter bool) *TIOStreamTransportFactory {
 	return &TIOStreamTransportFactory{Reader: reader, Writer: writer, IsReadWriter: isReadWriter}
 }
-- 
2.43.0


From 90a9774706d5aef3d0aeb289040374021f14628a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:10:09 +0000
Subject: [PATCH 28/33] fix: comparing two different structs left a goroutine
 behind for ever

---
 lib/go/src/thrift/ttype.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/ttype.go b/lib/go/src/thrift/ttype.go
index 32ef8ea..5cf6386 100644
--- a/lib/go/src/thrift/ttype.go
+++ b/lib/go/src/thrift/ttype.go
@@ -412,10 +412,14 @@ func (p TType) Compare(i, j interface{}) (int, bool) {
 		if cmp, ok := si.TStructFields().CompareTo(sj.TStructFields()); !ok || cmp != 0 {
 			return cmp, ok
 		}
-		for field := range si.TStructFields().Iter() {
+		fields := si.TStructFields().Iter()
+		for field := range fields {
 			a := si.AttributeFromFieldId(field.Id())
 			b := sj.AttributeFromFieldId(field.Id())
 			if cmp, ok := field.TypeId().Compare(a, b); !ok || cmp != 0 {
+				for _ = range fields {
+					// the goroutine behind Iter ends with the last field
+				}
 				return cmp, ok
 			}
 		}
-- 
2.43.0


From 097098a639bdfe420558f859656f91c060666419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:10:31 +0000
Subject: [PATCH 29/33] fix: maps with the same content compared equal only
 when they happened to be gone through in the same order

---
 lib/go/src/thrift/ttype.go | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/lib/go/src/thrift/ttype.go b/lib/go/src/thrift/ttype.go
index 5cf6386..1499276 100644
--- a/lib/go/src/thrift/ttype.go
+++ b/lib/go/src/thrift/ttype.go
@@ -22,6 +22,7 @@ package thrift
 import (
 	"bytes"
 	"container/list"
+	"sort"
 	"strconv"
 )
 
@@ -441,10 +442,21 @@ func (p TType) Compare(i, j interface{}) (int, bool) {
 		if size := mi.Len(); size != mj.Len() {
 			return CompareInt(size, mj.Len()), true
 		}
-		if c, cok := ki.CompareValueArrays(mi.Keys(), mj.Keys()); c != 0 || !cok {
+		// a map's keys come in no particular order
+		keys, otherKeys := mi.Keys(), mj.Keys()
+		sort.Sort(&tValueSorter{ki, keys})
+		sort.Sort(&tValueSorter{ki, otherKeys})
+		if c, cok := ki.CompareValueArrays(keys, otherKeys); c != 0 || !cok {
 			return c, cok
 		}
-		return vi.CompareValueArrays(mi.Values(), mj.Values())
+		for _, key := range keys {
+			a, _ := mi.Get(key)
+			b, _ := mj.Get(key)
+			if c, cok := vi.Compare(a, b); c != 0 || !cok {
+				return c, cok
+			}
+		}
+		return 0, true
 	case LIST:
 		li, iok := ci.(TList)
 		lj, jok := cj.(TList)
@@ -491,6 +503,23 @@ func (p TType) Compare(i, j interface{}) (int, bool) {
 	return 0, false
 }
 
+// tValueSorter sorts values of one type in ascending order.
+type tValueSorter struct {
+	elemType TType
+	values   []interface{}
+}
+
+func (p *tValueSorter) Len() int { return len(p.values) }
+
+func (p *tValueSorter) Less(i, j int) bool {
+	cmp, ok := p.elemType.Compare(p.values[i], p.values[j])
+	return ok && cmp < 0
+}
+
+func (p *tValueSorter) Swap(i, j int) {
+	p.values[i], p.values[j] = p.values[j], p.values[i]
+}
+
 func (p TType) CompareValueArrays(li, lj []interface{}) (int, bool) {
 	size := len(li)
 	if cmp := CompareInt(size, len(lj)); cmp != 0 {
-- 
2.43.0


From 07391bcfe991541f6b6fff8ab43948f7504db364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:10:53 +0000
Subject: [PATCH 30/33] fix: going through a map whose keys are maps ended the
 process

---
 lib/go/src/thrift/tmap.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/go/src/thrift/tmap.go b/lib/go/src/thrift/tmap.go
index 824a339..4ca583f 100644
--- a/lib/go/src/thrift/tmap.go
+++ b/lib/go/src/thrift/tmap.go
@@ -604,7 +604,7 @@ func (p *tMap) iterate(c chan<- TMapElem) {
 			c <- NewTMapElem(k, v)
 		}
 		close(c)
-	case BINARY, STRUCT, LIST, SET:
+	case BINARY, STRUCT, MAP, SET, LIST:
 		for v := p.l.Front(); v != nil; v = v.Next() {
 			c <- v.Value.(TMapElem)
 		}
@@ -661,7 +661,7 @@ func (p *tMap) iterateKeys(c chan<- interface{}) {
 			c <- k
 		}
 		close(c)
-	case BINARY, STRUCT, LIST, SET:
+	case BINARY, STRUCT, MAP, SET, LIST:
 		for v := p.l.Front(); v != nil; v = v.Next() {
 			c <- v.Value.(TMapElem).Key()
 		}
@@ -717,7 +717,7 @@ func (p *tMap) iterateValues(c chan<- interface{}) {
 			c <- v
 		}
 		close(c)
-	case BINARY, STRUCT, LIST, SET:
+	case BINARY, STRUCT, MAP, SET, LIST:
 		for v := p.l.Front(); v != nil; v = v.Next() {
 			c <- v.Value.(TMapElem).Value()
 		}
-- 
2.43.0


From b1c29c742502611443650dd72a1bc421a88a6ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:11:39 +0000
Subject: [PATCH 31/33] fix: an empty map made with a size reported that many
 keys

---
 lib/go/src/thrift/tmap.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lib/go/src/thrift/tmap.go b/lib/go/src/thrift/tmap.go
index 4ca583f..9d94ba8 100644
--- a/lib/go/src/thrift/tmap.go
+++ b/lib/go/src/thrift/tmap.go
@@ -119,10 +119,8 @@ func (p *tMap) Len() int {
 		return len(p.f64)
 	case STRING, UTF8, UTF16:
 		return len(p.s)
-	default:
-		return p.size
 	}
-	return p.size
+	return 0
 }
 
 func (p *tMap) Get(key interface{}) (interface{}, bool) {
-- 
2.43.0


From 5aaf66d836b540fbb1cc8e8b14ba06b202d29661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:12:19 +0000
Subject: [PATCH 32/33] fix: an empty set made with a size reported that many
 elements

---
 lib/go/src/thrift/tset.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/lib/go/src/thrift/tset.go b/lib/go/src/thrift/tset.go
index ec9a29b..c3fb619 100644
--- a/lib/go/src/thrift/tset.go
+++ b/lib/go/src/thrift/tset.go
@@ -67,10 +67,7 @@ func (p *tSet) Back() *list.Element {
 }
 
 func (p *tSet) Len() int {
-	if p.l.Len() != 0 {
-		return p.l.Len()
-	}
-	return p.size
+	return p.l.Len()
 }
 
 func (p *tSet) Contains(data interface{}) bool {
-- 
2.43.0


From 5753890a9385c792e774fd4a9faa11aff65023c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:12:27 +0000
Subject: [PATCH 33/33] fix: a set lost every element that was smaller than all
 it had

---
 lib/go/src/thrift/tset.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/go/src/thrift/tset.go b/lib/go/src/thrift/tset.go
index c3fb619..5931623 100644
--- a/lib/go/src/thrift/tset.go
+++ b/lib/go/src/thrift/tset.go
@@ -87,6 +87,7 @@ func (p *tSet) Add(other interface{}) {
 					return
 				}
 			}
+			p.l.PushBack(data)
 		}
 	}
 }
-- 
2.43.0

