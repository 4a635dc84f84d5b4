From cf1ba42728231ca950c0f02bb08479225c6536d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:57 +0000
Subject: [PATCH 01/88] fix: bits.Reader loses bits on wide unaligned reads and
 on short reads

A read of more than 56 bits with leftover bits pending shifted up to 7 bits
out of the 64 bit accumulator, and a source that returns fewer bytes than
asked for (allowed by io.Reader) was reported as EOF.
---
 utils/bits/bits.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/utils/bits/bits.go b/utils/bits/bits.go
index 7c1247d..cbb2cb9 100644
--- a/utils/bits/bits.go
+++ b/utils/bits/bits.go
@@ -1,7 +1,6 @@
 package bits
 
 import (
-	"fmt"
 	"io"
 )
 
@@ -12,15 +11,23 @@ type Reader struct {
 }
 
 func (r *Reader) ReadBits64(n int) (bits uint64, err error) {
+	if r.n > 0 && n > 56 {
+		// leftover bits and the new bytes would not fit in 64 bits
+		var hi, lo uint64
+		if hi, err = r.ReadBits64(n - 32); err != nil {
+			return
+		}
+		if lo, err = r.ReadBits64(32); err != nil {
+			return
+		}
+		bits = hi<<32 | lo
+		return
+	}
 	if r.n < n {
 		var b [8]byte
 		var got int
 		want := (n - r.n + 7) / 8
-		if got, err = r.R.Read(b[:want]); err != nil {
-			return
-		}
-		if got < want {
-			err = fmt.Errorf("bits: EOF")
+		if got, err = io.ReadFull(r.R, b[:want]); err != nil {
 			return
 		}
 		for i := 0; i < got; i++ {
-- 
2.43.0


From 06390437a7048d808a491c68acac8e7e033770f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:57 +0000
Subject: [PATCH 02/88] fix: bits.Writer corrupts a field that crosses the 64
 bit accumulator

---
 utils/bits/bits.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/utils/bits/bits.go b/utils/bits/bits.go
index cbb2cb9..bb2c4e4 100644
--- a/utils/bits/bits.go
+++ b/utils/bits/bits.go
@@ -78,14 +78,15 @@ type Writer struct {
 func (w *Writer) WriteBits64(bits uint64, n int) (err error) {
 	if w.n+n > 64 {
 		move := uint(64 - w.n)
-		mask := bits >> move
+		rest := uint(n) - move
+		mask := bits >> rest
 		w.bits = (w.bits << move) | mask
 		w.n = 64
 		if err = w.FlushBits(); err != nil {
 			return
 		}
-		n -= int(move)
-		bits ^= (mask << move)
+		n = int(rest)
+		bits ^= (mask << rest)
 	}
 	w.bits = (w.bits << uint(n)) | bits
 	w.n += n
-- 
2.43.0


From a713eb69205f10d7926a4f938f979dd80ee01f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:57 +0000
Subject: [PATCH 03/88] fix: GolombBitReader.ReadSE returns wrong values for
 negative codes

---
 utils/bits/golomb_reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/bits/golomb_reader.go b/utils/bits/golomb_reader.go
index d4b3c55..d139ac2 100644
--- a/utils/bits/golomb_reader.go
+++ b/utils/bits/golomb_reader.go
@@ -59,7 +59,7 @@ func (r *GolombBitReader) ReadSE() (res uint, err error) {
 	if res&0x01 != 0 {
 		res = (res + 1) / 2
 	} else {
-		res = -res / 2
+		res = -(res / 2)
 	}
 	return
 }
-- 
2.43.0


From e4552cb65aed9529c096e974c775664bc3046fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:57 +0000
Subject: [PATCH 04/88] fix: GolombBitReader drops a byte returned together
 with io.EOF

---
 utils/bits/golomb_reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/bits/golomb_reader.go b/utils/bits/golomb_reader.go
index d139ac2..d4b270e 100644
--- a/utils/bits/golomb_reader.go
+++ b/utils/bits/golomb_reader.go
@@ -12,7 +12,7 @@ type GolombBitReader struct {
 
 func (r *GolombBitReader) ReadBit() (res uint, err error) {
 	if r.left == 0 {
-		if _, err = r.R.Read(r.buf[:]); err != nil {
+		if _, err = io.ReadFull(r.R, r.buf[:]); err != nil {
 			return
 		}
 		r.left = 8
-- 
2.43.0


From 6a8520cab9127d4688efe8f3bcbe0adb212113a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:42 +0000
Subject: [PATCH 05/88] fix: AMF0 ECMA array keys were written without their
 length

---
 format/flv/flvio/amf0.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/format/flv/flvio/amf0.go b/format/flv/flvio/amf0.go
index 5276829..01bdc81 100644
--- a/format/flv/flvio/amf0.go
+++ b/format/flv/flvio/amf0.go
@@ -280,8 +280,11 @@ func FillAMF0Val(b []byte, n *int, _val interface{}) {
 		pio.WriteU8(b, n, ecmaarraymarker)
 		pio.WriteU32BE(b, n, uint32(len(val)))
 		for _, p := range val {
-			pio.WriteString(b, n, p.K)
-			FillAMF0Val(b, n, p.V)
+			if len(p.K) > 0 {
+				pio.WriteU16BE(b, n, uint16(len(p.K)))
+				pio.WriteString(b, n, p.K)
+				FillAMF0Val(b, n, p.V)
+			}
 		}
 		pio.WriteU24BE(b, n, 0x000009)
 
-- 
2.43.0


From a81b1c5ab286ca5d5acbf9571590c27c7773dbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:43 +0000
Subject: [PATCH 06/88] fix: AMF0 strict arrays allocated by the claimed count

Every nested array allocated 16 bytes per byte of the whole message before
reading an element, so a message of nested arrays needed quadratic memory.
---
 format/flv/flvio/amf0.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/format/flv/flvio/amf0.go b/format/flv/flvio/amf0.go
index 01bdc81..4664ca6 100644
--- a/format/flv/flvio/amf0.go
+++ b/format/flv/flvio/amf0.go
@@ -492,12 +492,14 @@ func parseAMF0Val(depth int, b []byte, n *int) (val interface{}, err error) {
 			err = amfParseErr("strictarray.count.toobig", b, *n, err)
 			return
 		}
-		obj := make(AMFArray, count)
+		obj := AMFArray{}
 		for i := 0; i < int(count); i++ {
-			if obj[i], err = parseAMF0Val(depth+1, b, n); err != nil {
+			var aval interface{}
+			if aval, err = parseAMF0Val(depth+1, b, n); err != nil {
 				err = amfParseErr("strictarray.val", b, *n, err)
 				return
 			}
+			obj = append(obj, aval)
 		}
 		val = obj
 
-- 
2.43.0


From 447bf032c8931ded5aa3f08d2820af6e085e49bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:43 +0000
Subject: [PATCH 07/88] fix: AMF3 objects allocated by the claimed member count

A six byte message could allocate half a gigabyte.
---
 format/flv/flvio/amf3.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/format/flv/flvio/amf3.go b/format/flv/flvio/amf3.go
index c280a79..4fdd35b 100644
--- a/format/flv/flvio/amf3.go
+++ b/format/flv/flvio/amf3.go
@@ -284,12 +284,13 @@ func readObject(depth int, b []byte, n *int) (val AMFMap, err error) {
 			val = val.Set(k, v)
 		}
 	} else {
-		keys := make([]string, l)
+		keys := []string{}
 		for i := 0; i < l; i++ {
-			keys[i], err = readString(b, n)
+			k, err = readString(b, n)
 			if err != nil {
 				return
 			}
+			keys = append(keys, k)
 		}
 		for i := 0; i < l; i++ {
 			var v interface{}
-- 
2.43.0


From 745b60ab12e5328c5b896b6668477dde3fe262fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:43 +0000
Subject: [PATCH 08/88] fix: AMF3 booleans swallowed the byte after their
 marker

---
 format/flv/flvio/amf3.go | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/format/flv/flvio/amf3.go b/format/flv/flvio/amf3.go
index 4fdd35b..14cfcd3 100644
--- a/format/flv/flvio/amf3.go
+++ b/format/flv/flvio/amf3.go
@@ -50,17 +50,9 @@ func parseAMF3Val(depth int, b []byte, n *int) (val interface{}, err error) {
 		val = nil
 
 	case amf3falsemarker:
-		if _, err = pio.ReadU8(b, n); err != nil {
-			err = amfParseErr("boolean:false", b, *n, err)
-			return
-		}
 		val = false
 
 	case amf3truemarker:
-		if _, err = pio.ReadU8(b, n); err != nil {
-			err = amfParseErr("boolean:true", b, *n, err)
-			return
-		}
 		val = true
 
 	case amf3integermarker:
-- 
2.43.0


From 1feabf7d445fa67aa8b8a279c0c26fc97d1fdb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:43 +0000
Subject: [PATCH 09/88] fix: AMF3 array elements were left in the input and
 parsed as further values

---
 format/flv/flvio/amf3.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/format/flv/flvio/amf3.go b/format/flv/flvio/amf3.go
index 14cfcd3..0836135 100644
--- a/format/flv/flvio/amf3.go
+++ b/format/flv/flvio/amf3.go
@@ -2,6 +2,7 @@ package flvio
 
 import (
 	"fmt"
+	"strconv"
 	"time"
 
 	"github.com/nareix/joy5/utils/bits/pio"
@@ -219,8 +220,13 @@ func readArray(depth int, b []byte, n *int) (val AMFMap, err error) {
 		}
 		val = val.Set(k, v)
 	}
-	if l == 0 {
-		return
+	for i := 0; i < l; i++ {
+		var v interface{}
+		if v, err = parseAMF3Val(depth, b, n); err != nil {
+			err = amfParseErr("array.val", b, *n, err)
+			return
+		}
+		val = append(val, AMFKv{strconv.Itoa(i), v})
 	}
 	return
 }
-- 
2.43.0


From 5c21971d851a56dc56f3a6b7cb5eb05eec58fae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:51 +0000
Subject: [PATCH 10/88] fix: deeply nested AMF values could exhaust the
 goroutine stack

---
 format/flv/flvio/amf0.go |  8 ++++++++
 format/flv/flvio/amf3.go | 12 ++++++++----
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/format/flv/flvio/amf0.go b/format/flv/flvio/amf0.go
index 4664ca6..1608fe7 100644
--- a/format/flv/flvio/amf0.go
+++ b/format/flv/flvio/amf0.go
@@ -330,6 +330,10 @@ func FillAMF0Val(b []byte, n *int, _val interface{}) {
 	return
 }
 
+// amfMaxDepth bounds the nesting of parsed values: the parsers recurse, and
+// a peer could otherwise exhaust the stack, which is not recoverable.
+const amfMaxDepth = 1000
+
 func ParseAMF0Val(b []byte, n *int) (val interface{}, err error) {
 	val, err = parseAMF0Val(0, b, n)
 	return
@@ -365,6 +369,10 @@ func ParseAMFVals(b []byte, isamf3 bool) (arr []interface{}, err error) {
 func parseAMF0Val(depth int, b []byte, n *int) (val interface{}, err error) {
 	const debug = false
 
+	if depth > amfMaxDepth {
+		err = amfParseErr("too deep", b, *n, nil)
+		return
+	}
 	var marker uint8
 	if marker, err = pio.ReadU8(b, n); err != nil {
 		err = amfParseErr("marker", b, *n, err)
diff --git a/format/flv/flvio/amf3.go b/format/flv/flvio/amf3.go
index 0836135..ce67735 100644
--- a/format/flv/flvio/amf3.go
+++ b/format/flv/flvio/amf3.go
@@ -38,6 +38,10 @@ func parseAMF3Val(depth int, b []byte, n *int) (val interface{}, err error) {
 	const debug = false
 	var marker uint8
 
+	if depth > amfMaxDepth {
+		err = amfParseErr("too deep", b, *n, nil)
+		return
+	}
 	if marker, err = pio.ReadU8(b, n); err != nil {
 		err = amfParseErr("marker", b, *n, err)
 		return
@@ -214,7 +218,7 @@ func readArray(depth int, b []byte, n *int) (val AMFMap, err error) {
 			break
 		}
 		var v interface{}
-		if v, err = parseAMF3Val(depth, b, n); err != nil {
+		if v, err = parseAMF3Val(depth+1, b, n); err != nil {
 			err = amfParseErr("array.val", b, *n, err)
 			return
 		}
@@ -222,7 +226,7 @@ func readArray(depth int, b []byte, n *int) (val AMFMap, err error) {
 	}
 	for i := 0; i < l; i++ {
 		var v interface{}
-		if v, err = parseAMF3Val(depth, b, n); err != nil {
+		if v, err = parseAMF3Val(depth+1, b, n); err != nil {
 			err = amfParseErr("array.val", b, *n, err)
 			return
 		}
@@ -275,7 +279,7 @@ func readObject(depth int, b []byte, n *int) (val AMFMap, err error) {
 				break
 			}
 			var v interface{}
-			if v, err = parseAMF3Val(depth, b, n); err != nil {
+			if v, err = parseAMF3Val(depth+1, b, n); err != nil {
 				err = amfParseErr("array.val", b, *n, err)
 				return
 			}
@@ -292,7 +296,7 @@ func readObject(depth int, b []byte, n *int) (val AMFMap, err error) {
 		}
 		for i := 0; i < l; i++ {
 			var v interface{}
-			if v, err = parseAMF3Val(depth, b, n); err != nil {
+			if v, err = parseAMF3Val(depth+1, b, n); err != nil {
 				return
 			}
 			val = val.Set(keys[i], v)
-- 
2.43.0


From 8fec4babdf3525f9612b49d6e2b1469115bc95b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:18 +0000
Subject: [PATCH 11/88] fix: RTMP three byte chunk stream ids were decoded with
 swapped bytes

The id is (third byte)*256 + second byte + 64, so a three byte id could
collide with a different two byte id and mix their messages.
---
 format/rtmp/msg.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/rtmp/msg.go b/format/rtmp/msg.go
index 167dd5b..b23f83f 100644
--- a/format/rtmp/msg.go
+++ b/format/rtmp/msg.go
@@ -313,7 +313,7 @@ func (c *Conn) readChunk() (msg *message, err error) {
 		if _, err = c.wrapRW.Read(b[:2]); err != nil {
 			return
 		}
-		csid = uint32(pio.U16BE(b)) + 64
+		csid = uint32(b[1])<<8 + uint32(b[0]) + 64
 	}
 
 	newcs := false
-- 
2.43.0


From 4a49aca3d7cb8afb4932950b18179a6a06cf1184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:18 +0000
Subject: [PATCH 12/88] fix: RTMP acknowledgement was not sent when exactly the
 window had arrived

A sender may stop after a full window until it is acknowledged.
---
 format/rtmp/msg.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/rtmp/msg.go b/format/rtmp/msg.go
index b23f83f..dfb0b00 100644
--- a/format/rtmp/msg.go
+++ b/format/rtmp/msg.go
@@ -221,7 +221,7 @@ func (c *Conn) readMsg() (msg *message, err error) {
 			return
 		}
 
-		if c.readAckSize != 0 && c.ackn-c.lastackn > c.readAckSize {
+		if c.readAckSize != 0 && c.ackn-c.lastackn >= c.readAckSize {
 			if err = c.writeAck(c.ackn); err != nil {
 				return
 			}
-- 
2.43.0


From 3d875b26b9e2ea0630c4eea15cc83c73b1099915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:18 +0000
Subject: [PATCH 13/88] fix: RTMP tags stayed in the write buffer and were lost
 on close

Nothing flushed the buffered writer after a tag, so up to a buffer of
media was delayed until later tags pushed it out and the last tags of a
stream never left.
---
 format/rtmp/msg.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/format/rtmp/msg.go b/format/rtmp/msg.go
index dfb0b00..fd703af 100644
--- a/format/rtmp/msg.go
+++ b/format/rtmp/msg.go
@@ -767,12 +767,15 @@ func (c *Conn) WriteTag(tag flvio.Tag) (err error) {
 	} else {
 		csid = 5
 	}
-	return c.writeMsg(csid, message{
+	if err = c.writeMsg(csid, message{
 		msgtypeid: uint8(tag.Type),
 		msgdata:   tag.Data,
 		msgsid:    c.avmsgsid,
 		timenow:   tag.Time,
-	}, tag.FillHeader)
+	}, tag.FillHeader); err != nil {
+		return
+	}
+	return c.flushWrite()
 }
 
 func (c *message) arrToCommand(arr []interface{}) (cmd *command, err error) {
-- 
2.43.0


From b67c23bfea1e59670d9260b5feb3d94c6ca5d8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:18 +0000
Subject: [PATCH 14/88] fix: RTMP abort messages were ignored

The partial message stayed on its chunk stream, and the next message
there was refused.
---
 format/rtmp/msg.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/format/rtmp/msg.go b/format/rtmp/msg.go
index fd703af..be2e3bb 100644
--- a/format/rtmp/msg.go
+++ b/format/rtmp/msg.go
@@ -105,6 +105,7 @@ func (m *message) Start() (err error) {
 
 const (
 	msgtypeidUserControl      = 4
+	msgtypeidAbort            = 2
 	msgtypeidAck              = 3
 	msgtypeidWindowAckSize    = 5
 	msgtypeidSetPeerBandwidth = 6
@@ -881,6 +882,18 @@ func (c *Conn) handleEvent(msg *message) (handled bool, err error) {
 		c.ReadMaxChunkSize = int(v)
 		return
 
+	case msgtypeidAbort:
+		var n int
+		var csid uint32
+		if csid, err = pio.ReadU32BE(msg.msgdata, &n); err != nil {
+			return
+		}
+		handled = true
+		if cs := c.readcsmap[csid]; cs != nil {
+			cs.msgdataleft = 0
+		}
+		return
+
 	case msgtypeidWindowAckSize:
 		var n int
 		var acksize uint32
-- 
2.43.0


From a74a1f154881712a9ecee6bbd7b23b5b15a71386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:11 +0000
Subject: [PATCH 15/88] fix: RTMP server announced a refused publish or play
 with level status

A client, including the one in this package, takes level status as
success and starts sending or waiting for media.
---
 format/rtmp/cmd.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/format/rtmp/cmd.go b/format/rtmp/cmd.go
index fdba509..506949e 100644
--- a/format/rtmp/cmd.go
+++ b/format/rtmp/cmd.go
@@ -78,7 +78,7 @@ func (c *Conn) writePublishOrPlayResult(ok bool, msg string) (err error) {
 			if err = c.writeCommand(5, c.avmsgsid,
 				"onStatus", c.lastcmd.transid, nil,
 				flvio.AMFMap{
-					{K: "level", V: "status"},
+					{K: "level", V: "error"},
 					{K: "code", V: "NetStream.Play.Failed"},
 					{K: "description", V: msg},
 				},
@@ -140,7 +140,7 @@ func (c *Conn) writePublishOrPlayResult(ok bool, msg string) (err error) {
 			if err = c.writeCommand(5, c.avmsgsid,
 				"onStatus", c.lastcmd.transid, nil,
 				flvio.AMFMap{
-					{K: "level", V: "status"},
+					{K: "level", V: "error"},
 					{K: "code", V: "NetStream.Publish.Failed"},
 					{K: "description", V: msg},
 				},
-- 
2.43.0


From 80fa0c4f2ff9e9effa4a059f05c3a7bc804a2995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:57 +0000
Subject: [PATCH 16/88] fix: leave zero bytes around Annex B start codes out of
 the NAL units

---
 codec/h264/h264.go | 32 +++++++++++---------------------
 1 file changed, 11 insertions(+), 21 deletions(-)

diff --git a/codec/h264/h264.go b/codec/h264/h264.go
index 66da903..10511e9 100644
--- a/codec/h264/h264.go
+++ b/codec/h264/h264.go
@@ -346,12 +346,8 @@ func splitAnnexb(b []byte) (out []NALUInfo, ok bool) {
 	//  }
 
 	// Annex B
-	const S = 0
-	const S0 = 1
-	const S00 = 2
-	const S000 = 3
 	nalustart := 0
-	s := S
+	zeros := 0
 	from := 0
 	cut := func(to, next int) {
 		if from < to {
@@ -366,27 +362,21 @@ func splitAnnexb(b []byte) (out []NALUInfo, ok bool) {
 		from = next
 	}
 	for i, c := range b {
-		switch c {
-		case 0:
-			if s < S000 {
-				if s == S {
-					nalustart = i
-				}
-				s++
-			}
-		case 1:
-			switch s {
-			case S00, S000:
-				cut(i-s, i+1)
+		if c == 0 {
+			if zeros == 0 {
+				nalustart = i
 			}
-			s = S
-		default:
-			s = S
+			zeros++
+			continue
+		}
+		if c == 1 && zeros >= 2 {
+			cut(i-zeros, i+1)
 		}
+		zeros = 0
 	}
 
 	if from > 0 {
-		cut(len(b), 0)
+		cut(len(b)-zeros, 0)
 		ok = true
 		return
 	}
-- 
2.43.0


From 2f660a7a184a485b35f68b5d46dd33a68648aa26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:57 +0000
Subject: [PATCH 17/88] fix: report where the start code of each Annex B NAL
 unit is

---
 codec/h264/h264.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/codec/h264/h264.go b/codec/h264/h264.go
index 10511e9..c9f1dfc 100644
--- a/codec/h264/h264.go
+++ b/codec/h264/h264.go
@@ -363,14 +363,16 @@ func splitAnnexb(b []byte) (out []NALUInfo, ok bool) {
 	}
 	for i, c := range b {
 		if c == 0 {
-			if zeros == 0 {
-				nalustart = i
-			}
 			zeros++
 			continue
 		}
 		if c == 1 && zeros >= 2 {
 			cut(i-zeros, i+1)
+			// the start code is 00 00 01 or 00 00 00 01
+			nalustart = i - 2
+			if zeros > 2 {
+				nalustart--
+			}
 		}
 		zeros = 0
 	}
-- 
2.43.0


From 983dd85bbf4e74e981c3a070d916b061f0b4bef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:57 +0000
Subject: [PATCH 18/88] fix: take the profile and level of the AVC record from
 its first SPS

---
 codec/h264/h264.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/codec/h264/h264.go b/codec/h264/h264.go
index c9f1dfc..d616825 100644
--- a/codec/h264/h264.go
+++ b/codec/h264/h264.go
@@ -467,9 +467,8 @@ func (c *Codec) ToConfig() {
 	var config = make([]byte, c.Len())
 	var pos = 0
 	firstSPS := []byte{}
-	for _, s := range c.SPS {
-		firstSPS = s
-		break
+	if sps := Map2arr(c.SPS); len(sps) > 0 {
+		firstSPS = sps[0]
 	}
 
 	var AVCProfileIndication byte
-- 
2.43.0


From 0da71c1d6c16312dd152d94ad7b9b86d1c3d3019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:57 +0000
Subject: [PATCH 19/88] fix: read the chroma and scaling fields of every SPS
 profile that has them

---
 codec/h264/h264.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/codec/h264/h264.go b/codec/h264/h264.go
index d616825..a5bba9d 100644
--- a/codec/h264/h264.go
+++ b/codec/h264/h264.go
@@ -679,7 +679,10 @@ func ParseSPS(data []byte) (s SPSInfo, err error) {
 	if s.ProfileIdc == 100 || s.ProfileIdc == 110 ||
 		s.ProfileIdc == 122 || s.ProfileIdc == 244 ||
 		s.ProfileIdc == 44 || s.ProfileIdc == 83 ||
-		s.ProfileIdc == 86 || s.ProfileIdc == 118 {
+		s.ProfileIdc == 86 || s.ProfileIdc == 118 ||
+		s.ProfileIdc == 128 || s.ProfileIdc == 138 ||
+		s.ProfileIdc == 139 || s.ProfileIdc == 134 ||
+		s.ProfileIdc == 135 {
 
 		var chroma_format_idc uint
 		if chroma_format_idc, err = r.ReadExponentialGolombCode(); err != nil {
-- 
2.43.0


From db7a1b26dd7cd70fc8fd1deb8b248558e10eec3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:57 +0000
Subject: [PATCH 20/88] fix: read all twelve scaling lists of a 4:4:4 SPS

---
 codec/h264/h264.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/codec/h264/h264.go b/codec/h264/h264.go
index a5bba9d..ece832a 100644
--- a/codec/h264/h264.go
+++ b/codec/h264/h264.go
@@ -715,7 +715,11 @@ func ParseSPS(data []byte) (s SPSInfo, err error) {
 		}
 
 		if seq_scaling_matrix_present_flag != 0 {
-			for i := 0; i < 8; i++ {
+			lists := 8
+			if chroma_format_idc == 3 {
+				lists = 12
+			}
+			for i := 0; i < lists; i++ {
 				var seq_scaling_list_present_flag uint
 				if seq_scaling_list_present_flag, err = r.ReadBit(); err != nil {
 					return
-- 
2.43.0


From 60eda369592f38769d0d964bc0c21b90863ce5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:57 +0000
Subject: [PATCH 21/88] fix: crop H.264 pictures in the units of their chroma
 format and field coding

---
 codec/h264/h264.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/codec/h264/h264.go b/codec/h264/h264.go
index ece832a..69938ce 100644
--- a/codec/h264/h264.go
+++ b/codec/h264/h264.go
@@ -676,6 +676,9 @@ func ParseSPS(data []byte) (s SPSInfo, err error) {
 		return
 	}
 
+	// units of the cropping offsets, in luma samples
+	cropUnitX, cropUnitY := uint(2), uint(2)
+
 	if s.ProfileIdc == 100 || s.ProfileIdc == 110 ||
 		s.ProfileIdc == 122 || s.ProfileIdc == 244 ||
 		s.ProfileIdc == 44 || s.ProfileIdc == 83 ||
@@ -689,6 +692,13 @@ func ParseSPS(data []byte) (s SPSInfo, err error) {
 			return
 		}
 
+		switch chroma_format_idc {
+		case 0, 3:
+			cropUnitX, cropUnitY = 1, 1
+		case 2:
+			cropUnitY = 1
+		}
+
 		if chroma_format_idc == 3 {
 			// residual_colour_transform_flag
 			if _, err = r.ReadBit(); err != nil {
@@ -843,8 +853,9 @@ func ParseSPS(data []byte) (s SPSInfo, err error) {
 		}
 	}
 
-	s.Width = (s.MbWidth * 16) - s.CropLeft*2 - s.CropRight*2
-	s.Height = ((2 - frame_mbs_only_flag) * s.MbHeight * 16) - s.CropTop*2 - s.CropBottom*2
+	cropUnitY *= 2 - frame_mbs_only_flag
+	s.Width = (s.MbWidth * 16) - (s.CropLeft+s.CropRight)*cropUnitX
+	s.Height = ((2 - frame_mbs_only_flag) * s.MbHeight * 16) - (s.CropTop+s.CropBottom)*cropUnitY
 
 	vui_parameter_present_flag, err := r.ReadBit()
 	if err != nil {
-- 
2.43.0


From a22bc5f3b9504f3922a1843a1fc98c93763a1765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:03 +0000
Subject: [PATCH 22/88] fix: number the AAC object types as the standard does

---
 codec/aac/aac.go | 84 ++++++++++++++++++++++++------------------------
 1 file changed, 42 insertions(+), 42 deletions(-)

diff --git a/codec/aac/aac.go b/codec/aac/aac.go
index e6af2b8..55b213a 100644
--- a/codec/aac/aac.go
+++ b/codec/aac/aac.go
@@ -80,48 +80,48 @@ func (self SampleFormat) IsPlanar() bool {
 
 // copied from libavcodec/mpeg4audio.h
 const (
-	AOT_AAC_MAIN        = 1 + iota  ///< Y                       Main
-	AOT_AAC_LC                      ///< Y                       Low Complexity
-	AOT_AAC_SSR                     ///< N (code in SoC repo)    Scalable Sample Rate
-	AOT_AAC_LTP                     ///< Y                       Long Term Prediction
-	AOT_SBR                         ///< Y                       Spectral Band Replication
-	AOT_AAC_SCALABLE                ///< N                       Scalable
-	AOT_TWINVQ                      ///< N                       Twin Vector Quantizer
-	AOT_CELP                        ///< N                       Code Excited Linear Prediction
-	AOT_HVXC                        ///< N                       Harmonic Vector eXcitation Coding
-	AOT_TTSI            = 12 + iota ///< N                       Text-To-Speech Interface
-	AOT_MAINSYNTH                   ///< N                       Main Synthesis
-	AOT_WAVESYNTH                   ///< N                       Wavetable Synthesis
-	AOT_MIDI                        ///< N                       General MIDI
-	AOT_SAFX                        ///< N                       Algorithmic Synthesis and Audio Effects
-	AOT_ER_AAC_LC                   ///< N                       Error Resilient Low Complexity
-	AOT_ER_AAC_LTP      = 19 + iota ///< N                       Error Resilient Long Term Prediction
-	AOT_ER_AAC_SCALABLE             ///< N                       Error Resilient Scalable
-	AOT_ER_TWINVQ                   ///< N                       Error Resilient Twin Vector Quantizer
-	AOT_ER_BSAC                     ///< N                       Error Resilient Bit-Sliced Arithmetic Coding
-	AOT_ER_AAC_LD                   ///< N                       Error Resilient Low Delay
-	AOT_ER_CELP                     ///< N                       Error Resilient Code Excited Linear Prediction
-	AOT_ER_HVXC                     ///< N                       Error Resilient Harmonic Vector eXcitation Coding
-	AOT_ER_HILN                     ///< N                       Error Resilient Harmonic and Individual Lines plus Noise
-	AOT_ER_PARAM                    ///< N                       Error Resilient Parametric
-	AOT_SSC                         ///< N                       SinuSoidal Coding
-	AOT_PS                          ///< N                       Parametric Stereo
-	AOT_SURROUND                    ///< N                       MPEG Surround
-	AOT_ESCAPE                      ///< Y                       Escape Value
-	AOT_L1                          ///< Y                       Layer 1
-	AOT_L2                          ///< Y                       Layer 2
-	AOT_L3                          ///< Y                       Layer 3
-	AOT_DST                         ///< N                       Direct Stream Transfer
-	AOT_ALS                         ///< Y                       Audio LosslesS
-	AOT_SLS                         ///< N                       Scalable LosslesS
-	AOT_SLS_NON_CORE                ///< N                       Scalable LosslesS (non core)
-	AOT_ER_AAC_ELD                  ///< N                       Error Resilient Enhanced Low Delay
-	AOT_SMR_SIMPLE                  ///< N                       Symbolic Music Representation Simple
-	AOT_SMR_MAIN                    ///< N                       Symbolic Music Representation Main
-	AOT_USAC_NOSBR                  ///< N                       Unified Speech and Audio Coding (no SBR)
-	AOT_SAOC                        ///< N                       Spatial Audio Object Coding
-	AOT_LD_SURROUND                 ///< N                       Low Delay MPEG Surround
-	AOT_USAC                        ///< N                       Unified Speech and Audio Coding
+	AOT_AAC_MAIN        = 1 + iota ///< Y                       Main
+	AOT_AAC_LC                     ///< Y                       Low Complexity
+	AOT_AAC_SSR                    ///< N (code in SoC repo)    Scalable Sample Rate
+	AOT_AAC_LTP                    ///< Y                       Long Term Prediction
+	AOT_SBR                        ///< Y                       Spectral Band Replication
+	AOT_AAC_SCALABLE               ///< N                       Scalable
+	AOT_TWINVQ                     ///< N                       Twin Vector Quantizer
+	AOT_CELP                       ///< N                       Code Excited Linear Prediction
+	AOT_HVXC                       ///< N                       Harmonic Vector eXcitation Coding
+	AOT_TTSI            = 3 + iota ///< N                       Text-To-Speech Interface
+	AOT_MAINSYNTH                  ///< N                       Main Synthesis
+	AOT_WAVESYNTH                  ///< N                       Wavetable Synthesis
+	AOT_MIDI                       ///< N                       General MIDI
+	AOT_SAFX                       ///< N                       Algorithmic Synthesis and Audio Effects
+	AOT_ER_AAC_LC                  ///< N                       Error Resilient Low Complexity
+	AOT_ER_AAC_LTP      = 4 + iota ///< N                       Error Resilient Long Term Prediction
+	AOT_ER_AAC_SCALABLE            ///< N                       Error Resilient Scalable
+	AOT_ER_TWINVQ                  ///< N                       Error Resilient Twin Vector Quantizer
+	AOT_ER_BSAC                    ///< N                       Error Resilient Bit-Sliced Arithmetic Coding
+	AOT_ER_AAC_LD                  ///< N                       Error Resilient Low Delay
+	AOT_ER_CELP                    ///< N                       Error Resilient Code Excited Linear Prediction
+	AOT_ER_HVXC                    ///< N                       Error Resilient Harmonic Vector eXcitation Coding
+	AOT_ER_HILN                    ///< N                       Error Resilient Harmonic and Individual Lines plus Noise
+	AOT_ER_PARAM                   ///< N                       Error Resilient Parametric
+	AOT_SSC                        ///< N                       SinuSoidal Coding
+	AOT_PS                         ///< N                       Parametric Stereo
+	AOT_SURROUND                   ///< N                       MPEG Surround
+	AOT_ESCAPE                     ///< Y                       Escape Value
+	AOT_L1                         ///< Y                       Layer 1
+	AOT_L2                         ///< Y                       Layer 2
+	AOT_L3                         ///< Y                       Layer 3
+	AOT_DST                        ///< N                       Direct Stream Transfer
+	AOT_ALS                        ///< Y                       Audio LosslesS
+	AOT_SLS                        ///< N                       Scalable LosslesS
+	AOT_SLS_NON_CORE               ///< N                       Scalable LosslesS (non core)
+	AOT_ER_AAC_ELD                 ///< N                       Error Resilient Enhanced Low Delay
+	AOT_SMR_SIMPLE                 ///< N                       Symbolic Music Representation Simple
+	AOT_SMR_MAIN                   ///< N                       Symbolic Music Representation Main
+	AOT_USAC_NOSBR                 ///< N                       Unified Speech and Audio Coding (no SBR)
+	AOT_SAOC                       ///< N                       Spatial Audio Object Coding
+	AOT_LD_SURROUND                ///< N                       Low Delay MPEG Surround
+	AOT_USAC                       ///< N                       Unified Speech and Audio Coding
 )
 
 type ChannelLayout uint16
-- 
2.43.0


From 124fd9b0b6e2fcac88a9cc251123c565b017a7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:03 +0000
Subject: [PATCH 23/88] fix: reject an ADTS header that is cut short

---
 codec/aac/aac.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/codec/aac/aac.go b/codec/aac/aac.go
index 55b213a..dade668 100644
--- a/codec/aac/aac.go
+++ b/codec/aac/aac.go
@@ -196,6 +196,10 @@ var chanConfigTable = []ChannelLayout{
 }
 
 func ParseADTSHeader(frame []byte) (config MPEG4AudioConfig, hdrlen int, framelen int, samples int, err error) {
+	if len(frame) < ADTSHeaderLength {
+		err = fmt.Errorf("aacparser: adts header too short")
+		return
+	}
 	if frame[0] != 0xff || frame[1]&0xf6 != 0xf0 {
 		err = fmt.Errorf("aacparser: not adts header")
 		return
-- 
2.43.0


From 14cea825b119dbcd1295e6f7bc9fcf74e0ae0fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:03 +0000
Subject: [PATCH 24/88] fix: read and write AAC sample rates that are not in
 the table

---
 codec/aac/aac.go | 37 ++++++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/codec/aac/aac.go b/codec/aac/aac.go
index dade668..e3aa742 100644
--- a/codec/aac/aac.go
+++ b/codec/aac/aac.go
@@ -301,28 +301,28 @@ func writeObjectType(w *bits.Writer, objectType uint) (err error) {
 	return
 }
 
-func readSampleRateIndex(r *bits.Reader) (index uint, err error) {
+// sampleRateExplicit is the sample rate index of a config that carries the
+// sample rate itself instead of an index into sampleRateTable.
+const sampleRateExplicit = 0xf
+
+func readSampleRate(r *bits.Reader) (index uint, rate uint, err error) {
 	if index, err = r.ReadBits(4); err != nil {
 		return
 	}
-	if index == 0xf {
-		if index, err = r.ReadBits(24); err != nil {
+	if index == sampleRateExplicit {
+		if rate, err = r.ReadBits(24); err != nil {
 			return
 		}
 	}
 	return
 }
 
-func writeSampleRateIndex(w *bits.Writer, index uint) (err error) {
-	if index >= 0xf {
-		if err = w.WriteBits(0xf, 4); err != nil {
-			return
-		}
-		if err = w.WriteBits(index, 24); err != nil {
-			return
-		}
-	} else {
-		if err = w.WriteBits(index, 4); err != nil {
+func writeSampleRate(w *bits.Writer, index uint, rate uint) (err error) {
+	if err = w.WriteBits(index, 4); err != nil {
+		return
+	}
+	if index == sampleRateExplicit {
+		if err = w.WriteBits(rate, 24); err != nil {
 			return
 		}
 	}
@@ -336,7 +336,7 @@ func (c MPEG4AudioConfig) IsValid() bool {
 func (c *MPEG4AudioConfig) complete() error {
 	if int(c.SampleRateIndex) < len(sampleRateTable) {
 		c.SampleRate = sampleRateTable[c.SampleRateIndex]
-	} else {
+	} else if c.SampleRateIndex != sampleRateExplicit || c.SampleRate <= 0 {
 		return fmt.Errorf("InvalidSampleRateIndex(%d)", c.SampleRateIndex)
 	}
 	if int(c.ChannelConfig) < len(chanConfigTable) {
@@ -354,9 +354,11 @@ func ParseMPEG4AudioConfigBytes(data []byte) (config MPEG4AudioConfig, err error
 	if config.ObjectType, err = readObjectType(br); err != nil {
 		return
 	}
-	if config.SampleRateIndex, err = readSampleRateIndex(br); err != nil {
+	var rate uint
+	if config.SampleRateIndex, rate, err = readSampleRate(br); err != nil {
 		return
 	}
+	config.SampleRate = int(rate)
 	if config.ChannelConfig, err = br.ReadBits(4); err != nil {
 		return
 	}
@@ -372,14 +374,15 @@ func WriteMPEG4AudioConfig(w io.Writer, config MPEG4AudioConfig) (err error) {
 		return
 	}
 
-	if config.SampleRateIndex == 0 {
+	if config.SampleRateIndex == 0 && config.SampleRate > 0 {
+		config.SampleRateIndex = sampleRateExplicit
 		for i, rate := range sampleRateTable {
 			if rate == config.SampleRate {
 				config.SampleRateIndex = uint(i)
 			}
 		}
 	}
-	if err = writeSampleRateIndex(bw, config.SampleRateIndex); err != nil {
+	if err = writeSampleRate(bw, config.SampleRateIndex, uint(config.SampleRate)); err != nil {
 		return
 	}
 
-- 
2.43.0


From 054bfaa6dad296b6dfd7850dc598c9d1f79fd9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:34 +0000
Subject: [PATCH 25/88] fix: reject MP4 boxes smaller than their own header

---
 format/mp4/mp4io/atoms.go | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/format/mp4/mp4io/atoms.go b/format/mp4/mp4io/atoms.go
index e83f72b..3b7a003 100644
--- a/format/mp4/mp4io/atoms.go
+++ b/format/mp4/mp4io/atoms.go
@@ -257,7 +257,7 @@ func (self *Movie) Unmarshal(b []byte, offset int) (n int, err error) {
 	for n+8 < len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
-		if len(b) < n+size {
+		if size < 8 || len(b) < n+size {
 			err = parseErr("TagSizeInvalid", n+offset, err)
 			return
 		}
@@ -554,7 +554,7 @@ func (self *Track) Unmarshal(b []byte, offset int) (n int, err error) {
 	for n+8 < len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
-		if len(b) < n+size {
+		if size < 8 || len(b) < n+size {
 			err = parseErr("TagSizeInvalid", n+offset, err)
 			return
 		}
@@ -884,7 +884,7 @@ func (self *Media) Unmarshal(b []byte, offset int) (n int, err error) {
 	for n+8 < len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
-		if len(b) < n+size {
+		if size < 8 || len(b) < n+size {
 			err = parseErr("TagSizeInvalid", n+offset, err)
 			return
 		}
@@ -1108,7 +1108,7 @@ func (self *MediaInfo) Unmarshal(b []byte, offset int) (n int, err error) {
 	for n+8 < len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
-		if len(b) < n+size {
+		if size < 8 || len(b) < n+size {
 			err = parseErr("TagSizeInvalid", n+offset, err)
 			return
 		}
@@ -1217,7 +1217,7 @@ func (self *DataInfo) Unmarshal(b []byte, offset int) (n int, err error) {
 	for n+8 < len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
-		if len(b) < n+size {
+		if size < 8 || len(b) < n+size {
 			err = parseErr("TagSizeInvalid", n+offset, err)
 			return
 		}
@@ -1311,7 +1311,7 @@ func (self *DataRefer) Unmarshal(b []byte, offset int) (n int, err error) {
 	for n+8 < len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
-		if len(b) < n+size {
+		if size < 8 || len(b) < n+size {
 			err = parseErr("TagSizeInvalid", n+offset, err)
 			return
 		}
@@ -1584,7 +1584,7 @@ func (self *SampleTable) Unmarshal(b []byte, offset int) (n int, err error) {
 	for n+8 < len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
-		if len(b) < n+size {
+		if size < 8 || len(b) < n+size {
 			err = parseErr("TagSizeInvalid", n+offset, err)
 			return
 		}
@@ -1751,7 +1751,7 @@ func (self *SampleDesc) Unmarshal(b []byte, offset int) (n int, err error) {
 	for n+8 < len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
-		if len(b) < n+size {
+		if size < 8 || len(b) < n+size {
 			err = parseErr("TagSizeInvalid", n+offset, err)
 			return
 		}
@@ -1922,7 +1922,7 @@ func (self *MP4ADesc) Unmarshal(b []byte, offset int) (n int, err error) {
 	for n+8 < len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
-		if len(b) < n+size {
+		if size < 8 || len(b) < n+size {
 			err = parseErr("TagSizeInvalid", n+offset, err)
 			return
 		}
@@ -2141,7 +2141,7 @@ func (self *AVC1Desc) Unmarshal(b []byte, offset int) (n int, err error) {
 	for n+8 < len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
-		if len(b) < n+size {
+		if size < 8 || len(b) < n+size {
 			err = parseErr("TagSizeInvalid", n+offset, err)
 			return
 		}
@@ -2642,7 +2642,7 @@ func (self *MovieFrag) Unmarshal(b []byte, offset int) (n int, err error) {
 	for n+8 < len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
-		if len(b) < n+size {
+		if size < 8 || len(b) < n+size {
 			err = parseErr("TagSizeInvalid", n+offset, err)
 			return
 		}
@@ -2797,7 +2797,7 @@ func (self *TrackFrag) Unmarshal(b []byte, offset int) (n int, err error) {
 	for n+8 < len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
-		if len(b) < n+size {
+		if size < 8 || len(b) < n+size {
 			err = parseErr("TagSizeInvalid", n+offset, err)
 			return
 		}
@@ -2894,7 +2894,7 @@ func (self *MovieExtend) Unmarshal(b []byte, offset int) (n int, err error) {
 	for n+8 < len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
-		if len(b) < n+size {
+		if size < 8 || len(b) < n+size {
 			err = parseErr("TagSizeInvalid", n+offset, err)
 			return
 		}
-- 
2.43.0


From c80b6b6dbecab7c6ca9201a3d80d89cf6e85b048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:36 +0000
Subject: [PATCH 26/88] fix: keep an empty MP4 box at the end of its parent

---
 format/mp4/mp4io/atoms.go | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/format/mp4/mp4io/atoms.go b/format/mp4/mp4io/atoms.go
index 3b7a003..9e3da55 100644
--- a/format/mp4/mp4io/atoms.go
+++ b/format/mp4/mp4io/atoms.go
@@ -254,7 +254,7 @@ func (self Movie) Len() (n int) {
 func (self *Movie) Unmarshal(b []byte, offset int) (n int, err error) {
 	(&self.AtomPos).setPos(offset, len(b))
 	n += 8
-	for n+8 < len(b) {
+	for n+8 <= len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
 		if size < 8 || len(b) < n+size {
@@ -551,7 +551,7 @@ func (self Track) Len() (n int) {
 func (self *Track) Unmarshal(b []byte, offset int) (n int, err error) {
 	(&self.AtomPos).setPos(offset, len(b))
 	n += 8
-	for n+8 < len(b) {
+	for n+8 <= len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
 		if size < 8 || len(b) < n+size {
@@ -881,7 +881,7 @@ func (self Media) Len() (n int) {
 func (self *Media) Unmarshal(b []byte, offset int) (n int, err error) {
 	(&self.AtomPos).setPos(offset, len(b))
 	n += 8
-	for n+8 < len(b) {
+	for n+8 <= len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
 		if size < 8 || len(b) < n+size {
@@ -1105,7 +1105,7 @@ func (self MediaInfo) Len() (n int) {
 func (self *MediaInfo) Unmarshal(b []byte, offset int) (n int, err error) {
 	(&self.AtomPos).setPos(offset, len(b))
 	n += 8
-	for n+8 < len(b) {
+	for n+8 <= len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
 		if size < 8 || len(b) < n+size {
@@ -1214,7 +1214,7 @@ func (self DataInfo) Len() (n int) {
 func (self *DataInfo) Unmarshal(b []byte, offset int) (n int, err error) {
 	(&self.AtomPos).setPos(offset, len(b))
 	n += 8
-	for n+8 < len(b) {
+	for n+8 <= len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
 		if size < 8 || len(b) < n+size {
@@ -1308,7 +1308,7 @@ func (self *DataRefer) Unmarshal(b []byte, offset int) (n int, err error) {
 	self.Flags = pio.U24BE(b[n:])
 	n += 3
 	n += 4
-	for n+8 < len(b) {
+	for n+8 <= len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
 		if size < 8 || len(b) < n+size {
@@ -1581,7 +1581,7 @@ func (self SampleTable) Len() (n int) {
 func (self *SampleTable) Unmarshal(b []byte, offset int) (n int, err error) {
 	(&self.AtomPos).setPos(offset, len(b))
 	n += 8
-	for n+8 < len(b) {
+	for n+8 <= len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
 		if size < 8 || len(b) < n+size {
@@ -1748,7 +1748,7 @@ func (self *SampleDesc) Unmarshal(b []byte, offset int) (n int, err error) {
 	n += 1
 	n += 3
 	n += 4
-	for n+8 < len(b) {
+	for n+8 <= len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
 		if size < 8 || len(b) < n+size {
@@ -1919,7 +1919,7 @@ func (self *MP4ADesc) Unmarshal(b []byte, offset int) (n int, err error) {
 	}
 	self.SampleRate = GetFixed32(b[n:])
 	n += 4
-	for n+8 < len(b) {
+	for n+8 <= len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
 		if size < 8 || len(b) < n+size {
@@ -2138,7 +2138,7 @@ func (self *AVC1Desc) Unmarshal(b []byte, offset int) (n int, err error) {
 	}
 	self.ColorTableId = pio.I16BE(b[n:])
 	n += 2
-	for n+8 < len(b) {
+	for n+8 <= len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
 		if size < 8 || len(b) < n+size {
@@ -2639,7 +2639,7 @@ func (self MovieFrag) Len() (n int) {
 func (self *MovieFrag) Unmarshal(b []byte, offset int) (n int, err error) {
 	(&self.AtomPos).setPos(offset, len(b))
 	n += 8
-	for n+8 < len(b) {
+	for n+8 <= len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
 		if size < 8 || len(b) < n+size {
@@ -2794,7 +2794,7 @@ func (self TrackFrag) Len() (n int) {
 func (self *TrackFrag) Unmarshal(b []byte, offset int) (n int, err error) {
 	(&self.AtomPos).setPos(offset, len(b))
 	n += 8
-	for n+8 < len(b) {
+	for n+8 <= len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
 		if size < 8 || len(b) < n+size {
@@ -2891,7 +2891,7 @@ func (self MovieExtend) Len() (n int) {
 func (self *MovieExtend) Unmarshal(b []byte, offset int) (n int, err error) {
 	(&self.AtomPos).setPos(offset, len(b))
 	n += 8
-	for n+8 < len(b) {
+	for n+8 <= len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
 		if size < 8 || len(b) < n+size {
-- 
2.43.0


From e80c636a562e4b0f9de574a0ac768ac1b4744a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:37 +0000
Subject: [PATCH 27/88] fix: check that MP4 table entries are there before
 allocating them

---
 format/mp4/mp4io/atoms.go | 48 +++++++++++++++++++++++++++++----------
 1 file changed, 36 insertions(+), 12 deletions(-)

diff --git a/format/mp4/mp4io/atoms.go b/format/mp4/mp4io/atoms.go
index 9e3da55..ff243e4 100644
--- a/format/mp4/mp4io/atoms.go
+++ b/format/mp4/mp4io/atoms.go
@@ -2259,13 +2259,17 @@ func (self *TimeToSample) Unmarshal(b []byte, offset int) (n int, err error) {
 	self.Flags = pio.U24BE(b[n:])
 	n += 3
 	var _len_Entries uint32
+	if len(b) < n+4 {
+		err = parseErr("_len_Entries", n+offset, err)
+		return
+	}
 	_len_Entries = pio.U32BE(b[n:])
 	n += 4
-	self.Entries = make([]TimeToSampleEntry, _len_Entries)
-	if len(b) < n+LenTimeToSampleEntry*len(self.Entries) {
+	if len(b) < n+LenTimeToSampleEntry*int(_len_Entries) {
 		err = parseErr("TimeToSampleEntry", n+offset, err)
 		return
 	}
+	self.Entries = make([]TimeToSampleEntry, _len_Entries)
 	for i := range self.Entries {
 		self.Entries[i] = GetTimeToSampleEntry(b[n:])
 		n += LenTimeToSampleEntry
@@ -2343,13 +2347,17 @@ func (self *SampleToChunk) Unmarshal(b []byte, offset int) (n int, err error) {
 	self.Flags = pio.U24BE(b[n:])
 	n += 3
 	var _len_Entries uint32
+	if len(b) < n+4 {
+		err = parseErr("_len_Entries", n+offset, err)
+		return
+	}
 	_len_Entries = pio.U32BE(b[n:])
 	n += 4
-	self.Entries = make([]SampleToChunkEntry, _len_Entries)
-	if len(b) < n+LenSampleToChunkEntry*len(self.Entries) {
+	if len(b) < n+LenSampleToChunkEntry*int(_len_Entries) {
 		err = parseErr("SampleToChunkEntry", n+offset, err)
 		return
 	}
+	self.Entries = make([]SampleToChunkEntry, _len_Entries)
 	for i := range self.Entries {
 		self.Entries[i] = GetSampleToChunkEntry(b[n:])
 		n += LenSampleToChunkEntry
@@ -2430,13 +2438,17 @@ func (self *CompositionOffset) Unmarshal(b []byte, offset int) (n int, err error
 	self.Flags = pio.U24BE(b[n:])
 	n += 3
 	var _len_Entries uint32
+	if len(b) < n+4 {
+		err = parseErr("_len_Entries", n+offset, err)
+		return
+	}
 	_len_Entries = pio.U32BE(b[n:])
 	n += 4
-	self.Entries = make([]CompositionOffsetEntry, _len_Entries)
-	if len(b) < n+LenCompositionOffsetEntry*len(self.Entries) {
+	if len(b) < n+LenCompositionOffsetEntry*int(_len_Entries) {
 		err = parseErr("CompositionOffsetEntry", n+offset, err)
 		return
 	}
+	self.Entries = make([]CompositionOffsetEntry, _len_Entries)
 	for i := range self.Entries {
 		self.Entries[i] = GetCompositionOffsetEntry(b[n:])
 		n += LenCompositionOffsetEntry
@@ -2514,13 +2526,17 @@ func (self *SyncSample) Unmarshal(b []byte, offset int) (n int, err error) {
 	self.Flags = pio.U24BE(b[n:])
 	n += 3
 	var _len_Entries uint32
+	if len(b) < n+4 {
+		err = parseErr("_len_Entries", n+offset, err)
+		return
+	}
 	_len_Entries = pio.U32BE(b[n:])
 	n += 4
-	self.Entries = make([]uint32, _len_Entries)
-	if len(b) < n+4*len(self.Entries) {
+	if len(b) < n+4*int(_len_Entries) {
 		err = parseErr("uint32", n+offset, err)
 		return
 	}
+	self.Entries = make([]uint32, _len_Entries)
 	for i := range self.Entries {
 		self.Entries[i] = pio.U32BE(b[n:])
 		n += 4
@@ -2581,13 +2597,17 @@ func (self *ChunkOffset) Unmarshal(b []byte, offset int) (n int, err error) {
 	self.Flags = pio.U24BE(b[n:])
 	n += 3
 	var _len_Entries uint32
+	if len(b) < n+4 {
+		err = parseErr("_len_Entries", n+offset, err)
+		return
+	}
 	_len_Entries = pio.U32BE(b[n:])
 	n += 4
-	self.Entries = make([]uint32, _len_Entries)
-	if len(b) < n+4*len(self.Entries) {
+	if len(b) < n+4*int(_len_Entries) {
 		err = parseErr("uint32", n+offset, err)
 		return
 	}
+	self.Entries = make([]uint32, _len_Entries)
 	for i := range self.Entries {
 		self.Entries[i] = pio.U32BE(b[n:])
 		n += 4
@@ -3095,13 +3115,17 @@ func (self *SampleSize) Unmarshal(b []byte, offset int) (n int, err error) {
 		return
 	}
 	var _len_Entries uint32
+	if len(b) < n+4 {
+		err = parseErr("_len_Entries", n+offset, err)
+		return
+	}
 	_len_Entries = pio.U32BE(b[n:])
 	n += 4
-	self.Entries = make([]uint32, _len_Entries)
-	if len(b) < n+4*len(self.Entries) {
+	if len(b) < n+4*int(_len_Entries) {
 		err = parseErr("uint32", n+offset, err)
 		return
 	}
+	self.Entries = make([]uint32, _len_Entries)
 	for i := range self.Entries {
 		self.Entries[i] = pio.U32BE(b[n:])
 		n += 4
-- 
2.43.0


From 50e5290e5f1a608348f7c626ddd441bc4a82b38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:38 +0000
Subject: [PATCH 28/88] fix: read and write the fields the track run flags
 announce, within the box

---
 format/mp4/mp4io/atoms.go | 41 +++++++++++++++++++--------------------
 format/mp4/mp4io/mp4io.go |  4 ++++
 2 files changed, 24 insertions(+), 21 deletions(-)

diff --git a/format/mp4/mp4io/atoms.go b/format/mp4/mp4io/atoms.go
index ff243e4..2f21acd 100644
--- a/format/mp4/mp4io/atoms.go
+++ b/format/mp4/mp4io/atoms.go
@@ -3171,13 +3171,8 @@ func (self TrackFragRun) marshal(b []byte) (n int) {
 		}
 	}
 
-	for i, entry := range self.Entries {
-		var flags uint32
-		if i > 0 {
-			flags = self.Flags
-		} else {
-			flags = self.FirstSampleFlags
-		}
+	for _, entry := range self.Entries {
+		flags := self.Flags
 		if flags&TRUN_SAMPLE_DURATION != 0 {
 			pio.PutU32BE(b[n:], entry.Duration)
 			n += 4
@@ -3213,13 +3208,8 @@ func (self TrackFragRun) Len() (n int) {
 		}
 	}
 
-	for i := range self.Entries {
-		var flags uint32
-		if i > 0 {
-			flags = self.Flags
-		} else {
-			flags = self.FirstSampleFlags
-		}
+	for range self.Entries {
+		flags := self.Flags
 		if flags&TRUN_SAMPLE_DURATION != 0 {
 			n += 4
 		}
@@ -3251,9 +3241,12 @@ func (self *TrackFragRun) Unmarshal(b []byte, offset int) (n int, err error) {
 	self.Flags = pio.U24BE(b[n:])
 	n += 3
 	var _len_Entries uint32
+	if len(b) < n+4 {
+		err = parseErr("_len_Entries", n+offset, err)
+		return
+	}
 	_len_Entries = pio.U32BE(b[n:])
 	n += 4
-	self.Entries = make([]TrackFragRunEntry, _len_Entries)
 	if self.Flags&TRUN_DATA_OFFSET != 0 {
 		{
 			if len(b) < n+4 {
@@ -3275,13 +3268,19 @@ func (self *TrackFragRun) Unmarshal(b []byte, offset int) (n int, err error) {
 		}
 	}
 
-	for i := 0; i < int(_len_Entries); i++ {
-		var flags uint32
-		if i > 0 {
-			flags = self.Flags
-		} else {
-			flags = self.FirstSampleFlags
+	var entryLen int
+	for _, flag := range []uint32{TRUN_SAMPLE_DURATION, TRUN_SAMPLE_SIZE, TRUN_SAMPLE_FLAGS, TRUN_SAMPLE_CTS} {
+		if self.Flags&flag != 0 {
+			entryLen += 4
 		}
+	}
+	if entryLen == 0 && _len_Entries > maxEmptyRunEntries || len(b) < n+entryLen*int(_len_Entries) {
+		err = parseErr("TrackFragRunEntry", n+offset, err)
+		return
+	}
+	self.Entries = make([]TrackFragRunEntry, _len_Entries)
+	for i := 0; i < int(_len_Entries); i++ {
+		flags := self.Flags
 		entry := &self.Entries[i]
 		if flags&TRUN_SAMPLE_DURATION != 0 {
 			entry.Duration = pio.U32BE(b[n:])
diff --git a/format/mp4/mp4io/mp4io.go b/format/mp4/mp4io/mp4io.go
index 13bcae8..3cd784c 100644
--- a/format/mp4/mp4io/mp4io.go
+++ b/format/mp4/mp4io/mp4io.go
@@ -182,6 +182,10 @@ const (
 	TRUN_SAMPLE_CTS         = 0x800
 )
 
+// maxEmptyRunEntries limits the entries of a track run that take no bytes in
+// the file because all their fields are defaults.
+const maxEmptyRunEntries = 1 << 16
+
 const (
 	MP4ESDescrTag          = 3
 	MP4DecConfigDescrTag   = 4
-- 
2.43.0


From 25163fc36e64cc1b5d998b4dba1624ea992c3bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:39 +0000
Subject: [PATCH 29/88] fix: check the length of MP4 decode time and
 configuration boxes

---
 format/mp4/mp4io/atoms.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/format/mp4/mp4io/atoms.go b/format/mp4/mp4io/atoms.go
index 2f21acd..7873e00 100644
--- a/format/mp4/mp4io/atoms.go
+++ b/format/mp4/mp4io/atoms.go
@@ -2201,6 +2201,10 @@ func (self AVC1Conf) Len() (n int) {
 func (self *AVC1Conf) Unmarshal(b []byte, offset int) (n int, err error) {
 	(&self.AtomPos).setPos(offset, len(b))
 	n += 8
+	if len(b) < n {
+		err = parseErr("hdr", offset, err)
+		return
+	}
 	self.Data = b[n:]
 	n += len(b[n:])
 	return
@@ -3540,10 +3544,17 @@ func (self *TrackFragDecodeTime) Unmarshal(b []byte, offset int) (n int, err err
 	self.Flags = pio.U24BE(b[n:])
 	n += 3
 	if self.Version != 0 {
+		if len(b) < n+8 {
+			err = parseErr("Time", n+offset, err)
+			return
+		}
 		self.Time = GetTime64(b[n:])
 		n += 8
 	} else {
-
+		if len(b) < n+4 {
+			err = parseErr("Time", n+offset, err)
+			return
+		}
 		self.Time = GetTime32(b[n:])
 		n += 4
 	}
-- 
2.43.0


From 327627d06d44d06dabb71d8ba731203324e8b387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:41 +0000
Subject: [PATCH 30/88] fix: keep the number of samples when all have the same
 size

---
 format/mp4/mp4io/atoms.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/format/mp4/mp4io/atoms.go b/format/mp4/mp4io/atoms.go
index 7873e00..865dcb2 100644
--- a/format/mp4/mp4io/atoms.go
+++ b/format/mp4/mp4io/atoms.go
@@ -3054,6 +3054,7 @@ type SampleSize struct {
 	Version    uint8
 	Flags      uint32
 	SampleSize uint32
+	Count      uint32 // number of samples when SampleSize is not zero
 	Entries    []uint32
 	AtomPos
 }
@@ -3072,6 +3073,8 @@ func (self SampleSize) marshal(b []byte) (n int) {
 	pio.PutU32BE(b[n:], self.SampleSize)
 	n += 4
 	if self.SampleSize != 0 {
+		pio.PutU32BE(b[n:], self.Count)
+		n += 4
 		return
 	}
 	pio.PutU32BE(b[n:], uint32(len(self.Entries)))
@@ -3087,10 +3090,10 @@ func (self SampleSize) Len() (n int) {
 	n += 1
 	n += 3
 	n += 4
+	n += 4
 	if self.SampleSize != 0 {
 		return
 	}
-	n += 4
 	n += 4 * len(self.Entries)
 	return
 }
@@ -3116,6 +3119,12 @@ func (self *SampleSize) Unmarshal(b []byte, offset int) (n int, err error) {
 	self.SampleSize = pio.U32BE(b[n:])
 	n += 4
 	if self.SampleSize != 0 {
+		if len(b) < n+4 {
+			err = parseErr("Count", n+offset, err)
+			return
+		}
+		self.Count = pio.U32BE(b[n:])
+		n += 4
 		return
 	}
 	var _len_Entries uint32
-- 
2.43.0


From 9edda22b3284352ba282c7955c3215793258a8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:42 +0000
Subject: [PATCH 31/88] fix: write the lengths of the descriptors in esds

---
 format/mp4/mp4io/mp4io.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/format/mp4/mp4io/mp4io.go b/format/mp4/mp4io/mp4io.go
index 3cd784c..f6baf81 100644
--- a/format/mp4/mp4io/mp4io.go
+++ b/format/mp4/mp4io/mp4io.go
@@ -285,8 +285,8 @@ func (self ElemStreamDesc) Marshal(b []byte) (n int) {
 	pio.PutU32BE(b[n:], 0) // Version
 	n += 4
 	datalen := self.Len()
-	n += self.fillESDescHdr(b[n:], datalen-n-self.lenESDescHdr())
-	n += self.fillDecConfigDescHdr(b[n:], datalen-n-self.lenDescHdr()-1)
+	n += self.fillESDescHdr(b[n:], datalen-n-self.lenDescHdr())
+	n += self.fillDecConfigDescHdr(b[n:], datalen-n-self.lenDescHdr()-self.lenDescHdr()-1)
 	copy(b[n:], self.DecConfig)
 	n += len(self.DecConfig)
 	n += self.fillDescHdr(b[n:], 0x06, datalen-n-self.lenDescHdr())
-- 
2.43.0


From 79449ab62b65e193f9c2b39cf8215b8ec83488dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:43 +0000
Subject: [PATCH 32/88] fix: parse esds descriptors within their lengths

---
 format/mp4/mp4io/mp4io.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/format/mp4/mp4io/mp4io.go b/format/mp4/mp4io/mp4io.go
index f6baf81..260231f 100644
--- a/format/mp4/mp4io/mp4io.go
+++ b/format/mp4/mp4io/mp4io.go
@@ -304,10 +304,12 @@ func (self *ElemStreamDesc) Unmarshal(b []byte, offset int) (n int, err error) {
 	(&self.AtomPos).setPos(offset, len(b))
 	n += 8
 	n += 4
-	return self.parseDesc(b[n:], offset+n)
+	return self.parseDesc(b[n:], offset+n, 0)
 }
 
-func (self *ElemStreamDesc) parseDesc(b []byte, offset int) (n int, err error) {
+// parseDesc parses the descriptor at the start of b, which is inside one with
+// the given tag.
+func (self *ElemStreamDesc) parseDesc(b []byte, offset int, parent uint8) (n int, err error) {
 	var hdrlen int
 	var datalen int
 	var tag uint8
@@ -320,14 +322,20 @@ func (self *ElemStreamDesc) parseDesc(b []byte, offset int) (n int, err error) {
 		err = parseErr("datalen", offset+n, err)
 		return
 	}
+	b = b[:n+datalen]
 
+	if tag <= parent {
+		n += datalen
+		return
+	}
 	switch tag {
 	case MP4ESDescrTag:
 		if len(b) < n+3 {
 			err = parseErr("MP4ESDescrTag", offset+n, err)
 			return
 		}
-		if _, err = self.parseDesc(b[n+3:], offset+n+3); err != nil {
+		self.TrackId = pio.U16BE(b[n:])
+		if _, err = self.parseDesc(b[n+3:], offset+n+3, tag); err != nil {
 			return
 		}
 
@@ -337,7 +345,7 @@ func (self *ElemStreamDesc) parseDesc(b []byte, offset int) (n int, err error) {
 			err = parseErr("MP4DecSpecificDescrTag", offset+n, err)
 			return
 		}
-		if _, err = self.parseDesc(b[n+size:], offset+n+size); err != nil {
+		if _, err = self.parseDesc(b[n+size:], offset+n+size, tag); err != nil {
 			return
 		}
 
-- 
2.43.0


From e22beaaa34e5ddd8fe10b94107f7eb9af5d964bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:26 +0000
Subject: [PATCH 33/88] fix: accept esds descriptors with and without their
 optional fields

---
 format/mp4/mp4io/mp4io.go | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/format/mp4/mp4io/mp4io.go b/format/mp4/mp4io/mp4io.go
index 260231f..876d3f6 100644
--- a/format/mp4/mp4io/mp4io.go
+++ b/format/mp4/mp4io/mp4io.go
@@ -335,7 +335,27 @@ func (self *ElemStreamDesc) parseDesc(b []byte, offset int, parent uint8) (n int
 			return
 		}
 		self.TrackId = pio.U16BE(b[n:])
-		if _, err = self.parseDesc(b[n+3:], offset+n+3, tag); err != nil {
+		next := n + 3
+		if flags := b[n+2]; flags != 0 {
+			if flags&0x80 != 0 { // dependsOn_ES_ID
+				next += 2
+			}
+			if flags&0x40 != 0 { // URL
+				if len(b) < next+1 {
+					err = parseErr("MP4ESDescrTag", offset+next, err)
+					return
+				}
+				next += 1 + int(b[next])
+			}
+			if flags&0x20 != 0 { // OCR_ES_ID
+				next += 2
+			}
+		}
+		if len(b) < next {
+			err = parseErr("MP4ESDescrTag", offset+next, err)
+			return
+		}
+		if _, err = self.parseDesc(b[next:], offset+next, tag); err != nil {
 			return
 		}
 
@@ -345,8 +365,10 @@ func (self *ElemStreamDesc) parseDesc(b []byte, offset int, parent uint8) (n int
 			err = parseErr("MP4DecSpecificDescrTag", offset+n, err)
 			return
 		}
-		if _, err = self.parseDesc(b[n+size:], offset+n+size, tag); err != nil {
-			return
+		if len(b) > n+size {
+			if _, err = self.parseDesc(b[n+size:], offset+n+size, tag); err != nil {
+				return
+			}
 		}
 
 	case MP4DecSpecificDescrTag:
-- 
2.43.0


From ee874d1d14035d959e649dcf1363379562f0b566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:27 +0000
Subject: [PATCH 34/88] fix: write MP4 times that are not set as zero

---
 format/mp4/mp4io/mp4io.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/format/mp4/mp4io/mp4io.go b/format/mp4/mp4io/mp4io.go
index 876d3f6..df93b51 100644
--- a/format/mp4/mp4io/mp4io.go
+++ b/format/mp4/mp4io/mp4io.go
@@ -38,6 +38,11 @@ func GetTime32(b []byte) (t time.Time) {
 }
 
 func PutTime32(b []byte, t time.Time) {
+	if t.IsZero() {
+		// not set
+		pio.PutU32BE(b, 0)
+		return
+	}
 	dur := t.Sub(time.Date(1904, time.January, 1, 0, 0, 0, 0, time.UTC))
 	sec := uint32(dur / time.Second)
 	pio.PutU32BE(b, sec)
@@ -51,6 +56,11 @@ func GetTime64(b []byte) (t time.Time) {
 }
 
 func PutTime64(b []byte, t time.Time) {
+	if t.IsZero() {
+		// not set
+		pio.PutU64BE(b, 0)
+		return
+	}
 	dur := t.Sub(time.Date(1904, time.January, 1, 0, 0, 0, 0, time.UTC))
 	sec := uint64(dur / time.Second)
 	pio.PutU64BE(b, sec)
-- 
2.43.0


From 07547b5ee5027ca35fe059c163836d527ea695f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:28 +0000
Subject: [PATCH 35/88] fix: bound and understand the sizes of top level MP4
 boxes

---
 format/mp4/mp4io/mp4io.go | 42 ++++++++++++++++++++++++++++++++++-----
 1 file changed, 37 insertions(+), 5 deletions(-)

diff --git a/format/mp4/mp4io/mp4io.go b/format/mp4/mp4io/mp4io.go
index df93b51..630c221 100644
--- a/format/mp4/mp4io/mp4io.go
+++ b/format/mp4/mp4io/mp4io.go
@@ -421,8 +421,21 @@ func (self *ElemStreamDesc) parseDescHdr(b []byte, offset int) (n int, tag uint8
 }
 
 func ReadFileAtoms(r io.ReadSeeker) (atoms []Atom, err error) {
+	var offset, end int64
+	if offset, err = r.Seek(0, 1); err != nil {
+		return
+	}
+	if end, err = r.Seek(0, 2); err != nil {
+		return
+	}
+	if _, err = r.Seek(offset, 0); err != nil {
+		return
+	}
+
 	for {
-		offset, _ := r.Seek(0, 1)
+		if offset, err = r.Seek(0, 1); err != nil {
+			return
+		}
 		taghdr := make([]byte, 8)
 		if _, err = io.ReadFull(r, taghdr); err != nil {
 			if err == io.EOF {
@@ -430,8 +443,24 @@ func ReadFileAtoms(r io.ReadSeeker) (atoms []Atom, err error) {
 			}
 			return
 		}
-		size := pio.U32BE(taghdr[0:])
+		hdrlen := int64(8)
+		size := int64(pio.U32BE(taghdr[0:]))
 		tag := Tag(pio.U32BE(taghdr[4:]))
+		switch size {
+		case 0: // up to the end of the file
+			size = end - offset
+		case 1: // 64 bit size
+			var large [8]byte
+			if _, err = io.ReadFull(r, large[:]); err != nil {
+				return
+			}
+			hdrlen = 16
+			size = pio.I64BE(large[:])
+		}
+		if size < hdrlen {
+			err = parseErr("TagSizeInvalid", int(offset), nil)
+			return
+		}
 
 		var atom Atom
 		switch tag {
@@ -442,7 +471,11 @@ func ReadFileAtoms(r io.ReadSeeker) (atoms []Atom, err error) {
 		}
 
 		if atom != nil {
-			b := make([]byte, int(size))
+			if size > end-offset {
+				err = io.ErrUnexpectedEOF
+				return
+			}
+			b := make([]byte, int(size-hdrlen)+8)
 			if _, err = io.ReadFull(r, b[8:]); err != nil {
 				return
 			}
@@ -454,13 +487,12 @@ func ReadFileAtoms(r io.ReadSeeker) (atoms []Atom, err error) {
 		} else {
 			dummy := &Dummy{Tag_: tag}
 			dummy.setPos(int(offset), int(size))
-			if _, err = r.Seek(int64(size)-8, 1); err != nil {
+			if _, err = r.Seek(size-hdrlen, 1); err != nil {
 				return
 			}
 			atoms = append(atoms, dummy)
 		}
 	}
-	return
 }
 
 func printatom(out io.Writer, root Atom, depth int) {
-- 
2.43.0


From 142cab341d31092a41e7629d81ce1ff5a618534b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:53 +0000
Subject: [PATCH 36/88] fix: mp4: av.H264 is video and av.AAC is audio

The composition offsets of video packets were not written.
---
 format/mp4/stream.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/format/mp4/stream.go b/format/mp4/stream.go
index fa38171..71237d5 100644
--- a/format/mp4/stream.go
+++ b/format/mp4/stream.go
@@ -13,8 +13,6 @@ import (
 	"github.com/pkg/errors"
 )
 
-const codecTypeAudioBit = 0x1
-
 type Stream struct {
 	Codec interface{}
 
@@ -64,11 +62,11 @@ func CodecType(codec interface{}) (int, error) {
 }
 
 func IsAudio(t int) bool {
-	return t&codecTypeAudioBit != 0
+	return t == av.AAC
 }
 
 func IsVideo(t int) bool {
-	return t&codecTypeAudioBit == 0
+	return t == av.H264
 }
 
 func timeToTs(tm time.Duration, timeScale int64) int64 {
-- 
2.43.0


From db795c6e50cf769def1972ca48a32910fcee3a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:54 +0000
Subject: [PATCH 37/88] fix: mp4: demuxer reads every stream to its end

The demux ended with the first stream that ran out of samples, and a file
without streams made it panic.
---
 format/mp4/demuxer.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/format/mp4/demuxer.go b/format/mp4/demuxer.go
index bea3293..9309d2e 100644
--- a/format/mp4/demuxer.go
+++ b/format/mp4/demuxer.go
@@ -108,10 +108,18 @@ func (self *Demuxer) ReadPacket() (pkt av.Packet, err error) {
 
 	var chosen *Stream
 	for _, stream := range self.streams {
+		if !stream.isSampleValid() {
+			// all samples of this stream have been read
+			continue
+		}
 		if chosen == nil || stream.tsToTime(stream.dts) < chosen.tsToTime(chosen.dts) {
 			chosen = stream
 		}
 	}
+	if chosen == nil {
+		err = io.EOF
+		return
+	}
 	if false {
 		fmt.Printf("ReadPacket: chosen index=%v time=%v\n", chosen.idx, chosen.tsToTime(chosen.dts))
 	}
-- 
2.43.0


From 62b613d34167f6f14882782c8e7609ada96d7950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:55 +0000
Subject: [PATCH 38/88] fix: mp4: demuxer sets the packet type

---
 format/mp4/demuxer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/format/mp4/demuxer.go b/format/mp4/demuxer.go
index 9309d2e..65556bf 100644
--- a/format/mp4/demuxer.go
+++ b/format/mp4/demuxer.go
@@ -128,6 +128,7 @@ func (self *Demuxer) ReadPacket() (pkt av.Packet, err error) {
 		return
 	}
 	pkt.Time = tm
+	pkt.Type, err = CodecType(chosen.Codec)
 	return
 }
 
-- 
2.43.0


From bab5a4899074ab4015743288df3126b08afc72e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:57 +0000
Subject: [PATCH 39/88] fix: mp4: SeekToTime takes the stream type from the
 codec

It used the index of the stream as its type, and did nothing before the
first packet was read.
---
 format/mp4/demuxer.go | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/format/mp4/demuxer.go b/format/mp4/demuxer.go
index 65556bf..21648b6 100644
--- a/format/mp4/demuxer.go
+++ b/format/mp4/demuxer.go
@@ -141,18 +141,31 @@ func (self *Demuxer) CurrentTime() (tm time.Duration) {
 }
 
 func (self *Demuxer) SeekToTime(tm time.Duration) (err error) {
-	for sType, stream := range self.streams {
+	if err = self.probe(); err != nil {
+		return
+	}
+
+	var video *Stream
+	for _, stream := range self.streams {
+		var sType int
+		if sType, err = CodecType(stream.Codec); err != nil {
+			return
+		}
 		if IsVideo(sType) {
-			if err = stream.seekToTime(tm); err != nil {
-				return
-			}
-			tm = stream.tsToTime(stream.dts)
+			video = stream
 			break
 		}
 	}
 
-	for sType, stream := range self.streams {
-		if !IsVideo(sType) {
+	if video != nil {
+		if err = video.seekToTime(tm); err != nil {
+			return
+		}
+		tm = video.tsToTime(video.dts)
+	}
+
+	for _, stream := range self.streams {
+		if stream != video {
 			if err = stream.seekToTime(tm); err != nil {
 				return
 			}
-- 
2.43.0


From 0e402141417989ddab3b2b2c5e404bded13aa2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:58 +0000
Subject: [PATCH 40/88] fix: mp4: sample index checks follow the sample size
 table

The size table holds one entry for each sample when the sample size is 0,
the checks had it the other way round: a short table made the demuxer panic
and a track with samples of one size was empty. An empty sync sample table
means that there are no key frames, not that there are no samples.
---
 format/mp4/stream.go | 33 ++++++++++++++++-----------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/format/mp4/stream.go b/format/mp4/stream.go
index 71237d5..0e5e294 100644
--- a/format/mp4/stream.go
+++ b/format/mp4/stream.go
@@ -108,13 +108,13 @@ func (self *Stream) setSampleIndex(index int) (err error) {
 		return
 	}
 
+	if index >= self.sampleSizeCount() {
+		err = fmt.Errorf("mp4: stream[%d]: sample index out of range", self.idx)
+		return
+	}
 	if self.sample.SampleSize.SampleSize != 0 {
 		self.sampleOffsetInChunk = int64(self.sampleIndexInChunk) * int64(self.sample.SampleSize.SampleSize)
 	} else {
-		if index >= len(self.sample.SampleSize.Entries) {
-			err = fmt.Errorf("mp4: stream[%d]: sample index out of range", self.idx)
-			return
-		}
 		self.sampleOffsetInChunk = int64(0)
 		for i := index - self.sampleIndexInChunk; i < index; i++ {
 			self.sampleOffsetInChunk += int64(self.sample.SampleSize.Entries[i])
@@ -182,6 +182,14 @@ func (self *Stream) setSampleIndex(index int) (err error) {
 	return
 }
 
+// sampleSizeCount is the number of samples the sample size table describes.
+func (self *Stream) sampleSizeCount() int {
+	if self.sample.SampleSize.SampleSize != 0 {
+		return int(self.sample.SampleSize.Count)
+	}
+	return len(self.sample.SampleSize.Entries)
+}
+
 func (self *Stream) isSampleValid() bool {
 	if self.chunkIndex >= len(self.sample.ChunkOffset.Entries) {
 		return false
@@ -197,17 +205,7 @@ func (self *Stream) isSampleValid() bool {
 			return false
 		}
 	}
-	if self.sample.SyncSample != nil {
-		if self.syncSampleIndex >= len(self.sample.SyncSample.Entries) {
-			return false
-		}
-	}
-	if self.sample.SampleSize.SampleSize != 0 {
-		if self.sampleIndex >= len(self.sample.SampleSize.Entries) {
-			return false
-		}
-	}
-	return true
+	return self.sampleIndex < self.sampleSizeCount()
 }
 
 func (self *Stream) incSampleIndex() (duration int64) {
@@ -263,7 +261,7 @@ func (self *Stream) incSampleIndex() (duration int64) {
 }
 
 func (self *Stream) sampleCount() int {
-	if self.sample.SampleSize.SampleSize == 0 {
+	if self.sample.SampleSize.SampleSize != 0 {
 		chunkGroupIndex := 0
 		count := 0
 		for chunkIndex := range self.sample.ChunkOffset.Entries {
@@ -302,7 +300,8 @@ func (self *Stream) readPacket() (pkt av.Packet, err error) {
 	}
 
 	if self.sample.SyncSample != nil {
-		if self.sample.SyncSample.Entries[self.syncSampleIndex]-1 == uint32(self.sampleIndex) {
+		entries := self.sample.SyncSample.Entries
+		if self.syncSampleIndex < len(entries) && entries[self.syncSampleIndex]-1 == uint32(self.sampleIndex) {
 			pkt.IsKeyFrame = true
 		}
 	}
-- 
2.43.0


From 67335ff865dde0598df3de1b1e86bd7459370c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:59 +0000
Subject: [PATCH 41/88] fix: mp4: demuxer rejects tracks without time scale or
 sample tables

They made it panic.
---
 format/mp4/demuxer.go | 16 +++++++++++++---
 format/mp4/stream.go  | 18 ++++++++++++++++++
 2 files changed, 31 insertions(+), 3 deletions(-)

diff --git a/format/mp4/demuxer.go b/format/mp4/demuxer.go
index 21648b6..ef138a7 100644
--- a/format/mp4/demuxer.go
+++ b/format/mp4/demuxer.go
@@ -78,18 +78,28 @@ func (self *Demuxer) probe() (err error) {
 		}
 		if atrack.Media != nil && atrack.Media.Info != nil && atrack.Media.Info.Sample != nil {
 			stream.sample = atrack.Media.Info.Sample
-			stream.timeScale = int64(atrack.Media.Header.TimeScale)
+			if atrack.Media.Header != nil {
+				stream.timeScale = int64(atrack.Media.Header.TimeScale)
+			}
 		} else {
 			err = fmt.Errorf("mp4: sample table not found")
 			return
 		}
 
-		if avc1 := atrack.GetAVC1Conf(); avc1 != nil {
+		avc1 := atrack.GetAVC1Conf()
+		esds := atrack.GetElemStreamDesc()
+		if avc1 != nil || esds != nil {
+			if err = stream.checkTables(); err != nil {
+				return
+			}
+		}
+
+		if avc1 != nil {
 			if stream.Codec, err = h264.FromDecoderConfig(avc1.Data); err != nil {
 				return
 			}
 			self.streams = append(self.streams, stream)
-		} else if esds := atrack.GetElemStreamDesc(); esds != nil {
+		} else if esds != nil {
 			if stream.Codec, err = aac.FromMPEG4AudioConfigBytes(esds.DecConfig); err != nil {
 				return
 			}
diff --git a/format/mp4/stream.go b/format/mp4/stream.go
index 0e5e294..4b34972 100644
--- a/format/mp4/stream.go
+++ b/format/mp4/stream.go
@@ -90,6 +90,10 @@ func (self *Stream) setSampleIndex(index int) (err error) {
 	start := 0
 	self.chunkGroupIndex = 0
 
+	if len(self.sample.SampleToChunk.Entries) == 0 {
+		err = fmt.Errorf("mp4: stream[%d]: cannot locate sample index in chunk", self.idx)
+		return
+	}
 	for self.chunkIndex = range self.sample.ChunkOffset.Entries {
 		if self.chunkGroupIndex+1 < len(self.sample.SampleToChunk.Entries) &&
 			uint32(self.chunkIndex+1) == self.sample.SampleToChunk.Entries[self.chunkGroupIndex+1].FirstChunk {
@@ -182,6 +186,20 @@ func (self *Stream) setSampleIndex(index int) (err error) {
 	return
 }
 
+// checkTables checks for what the demuxer cannot do without.
+func (self *Stream) checkTables() (err error) {
+	if self.timeScale <= 0 {
+		err = fmt.Errorf("mp4: stream[%d]: time scale invalid", self.idx)
+		return
+	}
+	if self.sample.SampleToChunk == nil || self.sample.TimeToSample == nil ||
+		self.sample.SampleSize == nil || self.sample.ChunkOffset == nil {
+		err = fmt.Errorf("mp4: stream[%d]: sample table incomplete", self.idx)
+		return
+	}
+	return
+}
+
 // sampleSizeCount is the number of samples the sample size table describes.
 func (self *Stream) sampleSizeCount() int {
 	if self.sample.SampleSize.SampleSize != 0 {
-- 
2.43.0


From d36e158e193e45c3a2dfc5cfc7691739c6c678a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:01 +0000
Subject: [PATCH 42/88] fix: mp4: a sample larger than the file is not
 allocated

---
 format/mp4/demuxer.go | 12 +++++++++++-
 format/mp4/stream.go  |  3 +--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/format/mp4/demuxer.go b/format/mp4/demuxer.go
index ef138a7..d738e77 100644
--- a/format/mp4/demuxer.go
+++ b/format/mp4/demuxer.go
@@ -33,10 +33,20 @@ func (self *Demuxer) Streams() (streams []interface{}, err error) {
 	return
 }
 
-func (self *Demuxer) readat(pos int64, b []byte) (err error) {
+func (self *Demuxer) readat(pos int64, n int64) (b []byte, err error) {
+	// do not allocate what the file cannot hold
+	var size int64
+	if size, err = self.r.Seek(0, 2); err != nil {
+		return
+	}
+	if n > size || pos > size-n {
+		err = io.ErrUnexpectedEOF
+		return
+	}
 	if _, err = self.r.Seek(pos, 0); err != nil {
 		return
 	}
+	b = make([]byte, n)
 	if _, err = io.ReadFull(self.r, b); err != nil {
 		return
 	}
diff --git a/format/mp4/stream.go b/format/mp4/stream.go
index 4b34972..c5e60c9 100644
--- a/format/mp4/stream.go
+++ b/format/mp4/stream.go
@@ -312,8 +312,7 @@ func (self *Stream) readPacket() (pkt av.Packet, err error) {
 	}
 
 	sampleOffset := int64(chunkOffset) + self.sampleOffsetInChunk
-	pkt.Data = make([]byte, sampleSize)
-	if err = self.demuxer.readat(sampleOffset, pkt.Data); err != nil {
+	if pkt.Data, err = self.demuxer.readat(sampleOffset, int64(sampleSize)); err != nil {
 		return
 	}
 
-- 
2.43.0


From 409173f7bfbee520ddbb1bcfb7ca68555ba33f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:02 +0000
Subject: [PATCH 43/88] fix: mp4: time conversion does not overflow after 28
 hours

---
 format/mp4/stream.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/format/mp4/stream.go b/format/mp4/stream.go
index c5e60c9..002c26d 100644
--- a/format/mp4/stream.go
+++ b/format/mp4/stream.go
@@ -70,19 +70,19 @@ func IsVideo(t int) bool {
 }
 
 func timeToTs(tm time.Duration, timeScale int64) int64 {
-	return int64(tm * time.Duration(timeScale) / time.Second)
+	return int64(tm/time.Second)*timeScale + int64(tm%time.Second)*timeScale/int64(time.Second)
 }
 
 func tsToTime(ts int64, timeScale int64) time.Duration {
-	return time.Duration(ts) * time.Second / time.Duration(timeScale)
+	return time.Duration(ts/timeScale)*time.Second + time.Duration(ts%timeScale)*time.Second/time.Duration(timeScale)
 }
 
 func (self *Stream) timeToTs(tm time.Duration) int64 {
-	return int64(tm * time.Duration(self.timeScale) / time.Second)
+	return timeToTs(tm, self.timeScale)
 }
 
 func (self *Stream) tsToTime(ts int64) time.Duration {
-	return time.Duration(ts) * time.Second / time.Duration(self.timeScale)
+	return tsToTime(ts, self.timeScale)
 }
 
 func (self *Stream) setSampleIndex(index int) (err error) {
-- 
2.43.0


From 8be5c429d62d4791cb9e9814e36c421a5af3e62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:03 +0000
Subject: [PATCH 44/88] fix: mp4: seeking to the time of a sample finds that
 sample

A key frame at the time asked for was skipped, other samples were missed
because their time had been rounded down, and a long run of samples with one
duration overflowed.
---
 format/mp4/stream.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/format/mp4/stream.go b/format/mp4/stream.go
index 002c26d..dd5decc 100644
--- a/format/mp4/stream.go
+++ b/format/mp4/stream.go
@@ -346,7 +346,10 @@ func (self *Stream) seekToTime(tm time.Duration) (err error) {
 }
 
 func (self *Stream) timeToSampleIndex(tm time.Duration) int {
-	targetTs := self.timeToTs(tm)
+	// the last timestamp that is not after tm, so that seeking to the time of
+	// a sample finds it although the time was rounded down
+	targetTs := int64(tm/time.Second)*self.timeScale +
+		(int64(tm%time.Second+1)*self.timeScale-1)/int64(time.Second)
 	targetIndex := 0
 
 	startTs := int64(0)
@@ -355,7 +358,7 @@ func (self *Stream) timeToSampleIndex(tm time.Duration) int {
 	endIndex := 0
 	found := false
 	for _, entry := range self.sample.TimeToSample.Entries {
-		endTs = startTs + int64(entry.Count*entry.Duration)
+		endTs = startTs + int64(entry.Count)*int64(entry.Duration)
 		endIndex = startIndex + int(entry.Count)
 		if targetTs >= startTs && targetTs < endTs {
 			targetIndex = startIndex + int((targetTs-startTs)/int64(entry.Duration))
@@ -375,7 +378,7 @@ func (self *Stream) timeToSampleIndex(tm time.Duration) int {
 	if self.sample.SyncSample != nil {
 		entries := self.sample.SyncSample.Entries
 		for i := len(entries) - 1; i >= 0; i-- {
-			if entries[i]-1 < uint32(targetIndex) {
+			if entries[i]-1 <= uint32(targetIndex) {
 				targetIndex = int(entries[i] - 1)
 				break
 			}
-- 
2.43.0


From 30aba0ff1b95516cf55da52ac354e6c773b69298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:05 +0000
Subject: [PATCH 45/88] fix: mp4: muxed timestamps do not drift

---
 format/mp4/muxer.go  | 6 +++++-
 format/mp4/stream.go | 1 +
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/format/mp4/muxer.go b/format/mp4/muxer.go
index e9d0593..0fb9846 100644
--- a/format/mp4/muxer.go
+++ b/format/mp4/muxer.go
@@ -218,7 +218,11 @@ func (self *Stream) writePacket(pkt av.Packet, rawdur time.Duration) (err error)
 		self.sample.SyncSample.Entries = append(self.sample.SyncSample.Entries, uint32(self.sampleIndex+1))
 	}
 
-	duration := uint32(self.timeToTs(rawdur))
+	if self.sampleIndex == 0 {
+		self.firstTime = pkt.Time
+	}
+	// from the previous timestamp, so that rounding errors do not add up
+	duration := uint32(self.timeToTs(pkt.Time+rawdur-self.firstTime) - self.duration)
 	if self.sttsEntry == nil || duration != self.sttsEntry.Duration {
 		self.sample.TimeToSample.Entries = append(self.sample.TimeToSample.Entries, mp4io.TimeToSampleEntry{Duration: duration})
 		self.sttsEntry = &self.sample.TimeToSample.Entries[len(self.sample.TimeToSample.Entries)-1]
diff --git a/format/mp4/stream.go b/format/mp4/stream.go
index dd5decc..2dd5858 100644
--- a/format/mp4/stream.go
+++ b/format/mp4/stream.go
@@ -23,6 +23,7 @@ type Stream struct {
 
 	timeScale int64
 	duration  int64
+	firstTime time.Duration
 
 	muxer   *Muxer
 	demuxer *Demuxer
-- 
2.43.0


From 01793f8d4295a9118f7426d5b9427728a6275256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:06 +0000
Subject: [PATCH 46/88] fix: mp4: write the decoder config of audio tracks

The audio of the files could not be decoded, nor demuxed by this package.
---
 format/mp4/muxer.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/format/mp4/muxer.go b/format/mp4/muxer.go
index 0fb9846..59c1272 100644
--- a/format/mp4/muxer.go
+++ b/format/mp4/muxer.go
@@ -140,9 +140,9 @@ func (self *Stream) fillTrackAtom() (err error) {
 			NumberOfChannels: int16(codec.Config.ChannelLayout.Count()),
 			SampleSize:       int16(codec.SampleFormat().BytesPerSample()),
 			SampleRate:       float64(codec.Config.SampleRate),
-			// Conf: &mp4io.ElemStreamDesc{
-			// 	DecConfig: codec.MPEG4AudioConfigBytes(),
-			// },
+			Conf: &mp4io.ElemStreamDesc{
+				DecConfig: codec.ConfigBytes,
+			},
 		}
 		self.trackAtom.Header.Volume = 1
 		self.trackAtom.Header.AlternateGroup = 1
-- 
2.43.0


From c3b9f7c6e0831151e36100a3b60c8872d74d72ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:08 +0000
Subject: [PATCH 47/88] fix: h264: a codec made from a decoder config keeps it

Writing the codec to an mp4 file left the decoder config of the file empty.
---
 codec/h264/h264.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/codec/h264/h264.go b/codec/h264/h264.go
index 69938ce..17a3272 100644
--- a/codec/h264/h264.go
+++ b/codec/h264/h264.go
@@ -568,6 +568,7 @@ func FromDecoderConfig(b []byte) (c *Codec, err error) {
 		nc.AddSPSPPS(pps)
 	}
 
+	nc.ConfigBytes = b
 	c = nc
 	return
 }
-- 
2.43.0


From f1da9fca7c5f86cb67c7161746a0e3686f5c9920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:09 +0000
Subject: [PATCH 48/88] fix: mp4: keep the streams when a later packet adds
 another

---
 format/mp4/muxer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/format/mp4/muxer.go b/format/mp4/muxer.go
index 59c1272..88dc060 100644
--- a/format/mp4/muxer.go
+++ b/format/mp4/muxer.go
@@ -46,6 +46,9 @@ func (self *Muxer) addStreams(codecs []interface{}) (err error) {
 		if err != nil {
 			return err
 		}
+		if _, ok := self.streams[cType]; ok {
+			continue
+		}
 		stream := &Stream{Codec: codec}
 
 		stream.sample = &mp4io.SampleTable{
-- 
2.43.0


From 8776e47bdd3c392e1639cbb0df139e83f965cfd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:10 +0000
Subject: [PATCH 49/88] fix: mp4: write the file header of a file without
 packets

The size of the missing mdat box was written over the movie box.
---
 format/mp4/muxer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/format/mp4/muxer.go b/format/mp4/muxer.go
index 88dc060..145f2dd 100644
--- a/format/mp4/muxer.go
+++ b/format/mp4/muxer.go
@@ -252,6 +252,10 @@ func (self *Stream) writePacket(pkt av.Packet, rawdur time.Duration) (err error)
 }
 
 func (self *Muxer) WriteTrailer() (err error) {
+	if err = self.WriteFileHeader(); err != nil {
+		return
+	}
+
 	for _, stream := range self.streams {
 		if stream.lastpkt != nil {
 			if err = stream.writePacket(*stream.lastpkt, 0); err != nil {
-- 
2.43.0


From d13220a2154d74d2aa2b2095a362394da594dd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:12 +0000
Subject: [PATCH 50/88] fix: mp4: negative composition offsets

---
 format/mp4/muxer.go  | 4 ++++
 format/mp4/stream.go | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/format/mp4/muxer.go b/format/mp4/muxer.go
index 145f2dd..f34b831 100644
--- a/format/mp4/muxer.go
+++ b/format/mp4/muxer.go
@@ -236,6 +236,10 @@ func (self *Stream) writePacket(pkt av.Packet, rawdur time.Duration) (err error)
 		offset := uint32(self.timeToTs(pkt.CTime))
 		if self.cttsEntry == nil || offset != self.cttsEntry.Offset {
 			table := self.sample.CompositionOffset
+			if int32(offset) < 0 {
+				// offsets are signed in this version
+				table.Version = 1
+			}
 			table.Entries = append(table.Entries, mp4io.CompositionOffsetEntry{Offset: offset})
 			self.cttsEntry = &table.Entries[len(table.Entries)-1]
 		}
diff --git a/format/mp4/stream.go b/format/mp4/stream.go
index 2dd5858..79b7c57 100644
--- a/format/mp4/stream.go
+++ b/format/mp4/stream.go
@@ -327,6 +327,9 @@ func (self *Stream) readPacket() (pkt av.Packet, err error) {
 	//println("pts/dts", self.ptsEntryIndex, self.dtsEntryIndex)
 	if self.sample.CompositionOffset != nil && len(self.sample.CompositionOffset.Entries) > 0 {
 		cts := int64(self.sample.CompositionOffset.Entries[self.cttsEntryIndex].Offset)
+		if self.sample.CompositionOffset.Version == 1 {
+			cts = int64(int32(cts))
+		}
 		pkt.CTime = self.tsToTime(cts)
 	}
 
-- 
2.43.0


From b48bd92555087e9d6c606080bff7cbc8e6292567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:13 +0000
Subject: [PATCH 51/88] fix: mp4: tracks are written in order of their ids

The order was random, and the next free track id was one in use.
---
 format/mp4/muxer.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/format/mp4/muxer.go b/format/mp4/muxer.go
index f34b831..299f2d9 100644
--- a/format/mp4/muxer.go
+++ b/format/mp4/muxer.go
@@ -19,6 +19,7 @@ type Muxer struct {
 	bufw           *bufio.Writer
 	wpos           int64
 	streams        map[int]*Stream
+	tracks         []*Stream // streams in the order of their track ids
 	fileHdrWritten bool
 }
 
@@ -104,6 +105,7 @@ func (self *Muxer) addStreams(codecs []interface{}) (err error) {
 		stream.timeScale = 90000
 		stream.muxer = self
 		self.streams[cType] = stream
+		self.tracks = append(self.tracks, stream)
 	}
 
 	return
@@ -260,7 +262,7 @@ func (self *Muxer) WriteTrailer() (err error) {
 		return
 	}
 
-	for _, stream := range self.streams {
+	for _, stream := range self.tracks {
 		if stream.lastpkt != nil {
 			if err = stream.writePacket(*stream.lastpkt, 0); err != nil {
 				return
@@ -274,12 +276,12 @@ func (self *Muxer) WriteTrailer() (err error) {
 		PreferredRate:   1,
 		PreferredVolume: 1,
 		Matrix:          [9]int32{0x10000, 0, 0, 0, 0x10000, 0, 0, 0, 0x40000000},
-		NextTrackId:     2,
+		NextTrackId:     int32(len(self.streams) + 1),
 	}
 
 	maxDur := time.Duration(0)
 	timeScale := int64(10000)
-	for _, stream := range self.streams {
+	for _, stream := range self.tracks {
 		if err = stream.fillTrackAtom(); err != nil {
 			return
 		}
-- 
2.43.0


From af8710eb9e7a18163de0e0191a8c4083d04e1eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:36 +0000
Subject: [PATCH 52/88] fix: mp4io: 64 bit times do not overflow after 292
 years

The decode time of a fragment, which counts timescale units, came out wrong
after 28 hours at 90 kHz.
---
 format/mp4/mp4io/mp4io.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/format/mp4/mp4io/mp4io.go b/format/mp4/mp4io/mp4io.go
index 630c221..89bd434 100644
--- a/format/mp4/mp4io/mp4io.go
+++ b/format/mp4/mp4io/mp4io.go
@@ -49,9 +49,9 @@ func PutTime32(b []byte, t time.Time) {
 }
 
 func GetTime64(b []byte) (t time.Time) {
-	sec := pio.U64BE(b)
+	sec := pio.I64BE(b)
 	t = time.Date(1904, time.January, 1, 0, 0, 0, 0, time.UTC)
-	t = t.Add(time.Second * time.Duration(sec))
+	t = time.Unix(t.Unix()+sec, 0).UTC()
 	return
 }
 
@@ -61,9 +61,8 @@ func PutTime64(b []byte, t time.Time) {
 		pio.PutU64BE(b, 0)
 		return
 	}
-	dur := t.Sub(time.Date(1904, time.January, 1, 0, 0, 0, 0, time.UTC))
-	sec := uint64(dur / time.Second)
-	pio.PutU64BE(b, sec)
+	sec := t.Unix() - time.Date(1904, time.January, 1, 0, 0, 0, 0, time.UTC).Unix()
+	pio.PutI64BE(b, sec)
 }
 
 func PutFixed16(b []byte, f float64) {
-- 
2.43.0


From b5f4c49f09945666771f4602a139e4e91e7b4711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:04 +0000
Subject: [PATCH 53/88] fix: mp4: every sample is a sync sample if there is no
 sync sample table

---
 format/mp4/stream.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/format/mp4/stream.go b/format/mp4/stream.go
index 79b7c57..b46d6bc 100644
--- a/format/mp4/stream.go
+++ b/format/mp4/stream.go
@@ -322,6 +322,9 @@ func (self *Stream) readPacket() (pkt av.Packet, err error) {
 		if self.syncSampleIndex < len(entries) && entries[self.syncSampleIndex]-1 == uint32(self.sampleIndex) {
 			pkt.IsKeyFrame = true
 		}
+	} else if cType, _ := CodecType(self.Codec); IsVideo(cType) {
+		// without this table every sample is a sync sample
+		pkt.IsKeyFrame = true
 	}
 
 	//println("pts/dts", self.ptsEntryIndex, self.dtsEntryIndex)
-- 
2.43.0


From 70bbafdaf060c82f49e28b717b63988650f13de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:45 +0000
Subject: [PATCH 54/88] fix: sdp: media lines without fields crashed,
 attributes of unused media went to the one before

---
 format/rtsp/sdp/parser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/format/rtsp/sdp/parser.go b/format/rtsp/sdp/parser.go
index fa701aa..42a6834 100644
--- a/format/rtsp/sdp/parser.go
+++ b/format/rtsp/sdp/parser.go
@@ -38,7 +38,9 @@ func Parse(content string) (sess Session, medias []Media) {
 
 			switch typeval[0] {
 			case "m":
-				if len(fields) > 0 {
+				// attributes that follow belong to this media, whether it is used or not
+				media = nil
+				if len(fields) == 2 {
 					switch fields[0] {
 					case "audio", "video":
 						medias = append(medias, Media{AVType: fields[0]})
-- 
2.43.0


From b30b9482971680f66292e29cbc63c7fee20e4162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:45 +0000
Subject: [PATCH 55/88] fix: sdp: attributes are read by name and only for the
 payload type in use

---
 format/rtsp/sdp/parser.go | 118 +++++++++++++++++++++-----------------
 1 file changed, 64 insertions(+), 54 deletions(-)

diff --git a/format/rtsp/sdp/parser.go b/format/rtsp/sdp/parser.go
index 42a6834..c12f77b 100644
--- a/format/rtsp/sdp/parser.go
+++ b/format/rtsp/sdp/parser.go
@@ -3,7 +3,6 @@ package sdp
 import (
 	"encoding/base64"
 	"encoding/hex"
-	"fmt"
 	"strconv"
 	"strings"
 
@@ -57,59 +56,7 @@ func Parse(content string) (sess Session, medias []Media) {
 
 			case "a":
 				if media != nil {
-					for _, field := range fields {
-						keyval := strings.SplitN(field, ":", 2)
-						if len(keyval) >= 2 {
-							key := keyval[0]
-							val := keyval[1]
-							switch key {
-							case "control":
-								media.Control = val
-							case "rtpmap":
-								media.Rtpmap, _ = strconv.Atoi(val)
-							}
-						}
-						keyval = strings.Split(field, "/")
-						if len(keyval) >= 2 {
-							key := keyval[0]
-							switch strings.ToUpper(key) {
-							case "MPEG4-GENERIC":
-								media.Type = av.AAC
-							case "H264":
-								media.Type = av.H264
-							}
-							if i, err := strconv.Atoi(keyval[1]); err == nil {
-								media.TimeScale = i
-							}
-							if false {
-								fmt.Println("sdp:", keyval[1], media.TimeScale)
-							}
-						}
-						keyval = strings.Split(field, ";")
-						if len(keyval) > 1 {
-							for _, field := range keyval {
-								keyval := strings.SplitN(field, "=", 2)
-								if len(keyval) == 2 {
-									key := strings.TrimSpace(keyval[0])
-									val := keyval[1]
-									switch key {
-									case "config":
-										media.Config, _ = hex.DecodeString(val)
-									case "sizelength":
-										media.SizeLength, _ = strconv.Atoi(val)
-									case "indexlength":
-										media.IndexLength, _ = strconv.Atoi(val)
-									case "sprop-parameter-sets":
-										fields := strings.Split(val, ",")
-										for _, field := range fields {
-											val, _ := base64.StdEncoding.DecodeString(field)
-											media.SpropParameterSets = append(media.SpropParameterSets, val)
-										}
-									}
-								}
-							}
-						}
-					}
+					media.parseAttr(typeval[1])
 				}
 
 			}
@@ -117,3 +64,66 @@ func Parse(content string) (sess Session, medias []Media) {
 	}
 	return
 }
+
+func (media *Media) parseAttr(attr string) {
+	keyval := strings.SplitN(attr, ":", 2)
+	if len(keyval) != 2 {
+		return
+	}
+	val := strings.TrimSpace(keyval[1])
+
+	switch keyval[0] {
+	case "control":
+		media.Control = val
+		return
+	case "rtpmap", "fmtp":
+	default:
+		return
+	}
+
+	// <payload type> <encoding or parameters>
+	fields := strings.SplitN(val, " ", 2)
+	typ, err := strconv.Atoi(fields[0])
+	if err != nil || typ != media.PayloadType || len(fields) != 2 {
+		return
+	}
+	val = strings.TrimSpace(fields[1])
+
+	if keyval[0] == "rtpmap" {
+		media.Rtpmap = typ
+		enc := strings.Split(val, "/")
+		switch strings.ToUpper(enc[0]) {
+		case "MPEG4-GENERIC":
+			media.Type = av.AAC
+		case "H264":
+			media.Type = av.H264
+		}
+		if len(enc) >= 2 {
+			if i, err := strconv.Atoi(enc[1]); err == nil && i > 0 {
+				media.TimeScale = i
+			}
+		}
+		return
+	}
+
+	for _, param := range strings.Split(val, ";") {
+		keyval := strings.SplitN(param, "=", 2)
+		if len(keyval) != 2 {
+			continue
+		}
+		val := strings.TrimSpace(keyval[1])
+		switch strings.ToLower(strings.TrimSpace(keyval[0])) {
+		case "config":
+			media.Config, _ = hex.DecodeString(val)
+		case "sizelength":
+			media.SizeLength, _ = strconv.Atoi(val)
+		case "indexlength":
+			media.IndexLength, _ = strconv.Atoi(val)
+		case "sprop-parameter-sets":
+			for _, field := range strings.Split(val, ",") {
+				val, _ := base64.StdEncoding.DecodeString(field)
+				media.SpropParameterSets = append(media.SpropParameterSets, val)
+			}
+		}
+	}
+}
-- 
2.43.0


From 0d6f2503d65b626a6a19b838b6fb00a48250c1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:54 +0000
Subject: [PATCH 56/88] fix: rtsp: RTCP blocks of less than 8 bytes crashed the
 reader

---
 format/rtsp/client.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/format/rtsp/client.go b/format/rtsp/client.go
index 978fdcf..29c770a 100644
--- a/format/rtsp/client.go
+++ b/format/rtsp/client.go
@@ -199,6 +199,14 @@ func (self *Client) WriteRequest(req Request) (err error) {
 	return
 }
 
+// blockHeaderSize is the size of the part of a block that parseBlockHeader looks at.
+func blockHeaderSize(h []byte) int {
+	if len(h) >= 2 && h[1]%2 != 0 { // rtcp
+		return 4
+	}
+	return 12
+}
+
 func (self *Client) parseBlockHeader(h []byte) (length int, no int, valid bool) {
 	length = int(h[2])<<8 + int(h[3])
 	no = int(h[1])
@@ -387,7 +395,7 @@ func (self *Client) findRTSP() (block []byte, data []byte, err error) {
 			return
 		}
 
-		if stat == Dollar && len(peek) >= 12 {
+		if stat == Dollar && len(peek) >= blockHeaderSize(peek) {
 			if self.DebugRtp {
 				fmt.Println("rtsp: dollar at", i, len(peek))
 			}
-- 
2.43.0


From 6046804988ae81d073940636edc15560d84eaf29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:55 +0000
Subject: [PATCH 57/88] fix: rtsp: memory for a body was allocated by the
 length the server claims

---
 format/rtsp/client.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/format/rtsp/client.go b/format/rtsp/client.go
index 29c770a..f1d0ebc 100644
--- a/format/rtsp/client.go
+++ b/format/rtsp/client.go
@@ -472,10 +472,12 @@ func (self *Client) readResp(b []byte) (res Response, err error) {
 	}
 	res.ContentLength, _ = strconv.Atoi(res.Headers.Get("Content-Length"))
 	if res.ContentLength > 0 {
-		res.Body = make([]byte, res.ContentLength)
-		if _, err = io.ReadFull(self.brconn, res.Body); err != nil {
+		// grows with what is received, the length is only a claim
+		body := &bytes.Buffer{}
+		if _, err = io.CopyN(body, self.brconn, int64(res.ContentLength)); err != nil {
 			return
 		}
+		res.Body = body.Bytes()
 	}
 	if err = self.handleResp(&res); err != nil {
 		return
-- 
2.43.0


From 5c059a199b5dca1111bacdb6aaf451895283f6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:56 +0000
Subject: [PATCH 58/88] fix: rtsp: a nonce with = in it was ignored

---
 format/rtsp/client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/rtsp/client.go b/format/rtsp/client.go
index f1d0ebc..0d52cf3 100644
--- a/format/rtsp/client.go
+++ b/format/rtsp/client.go
@@ -292,7 +292,7 @@ func (self *Client) handle401(res *Response) (err error) {
 	if len(hdrval) == 2 {
 		for _, field := range strings.Split(hdrval[1], ",") {
 			field = strings.Trim(field, ", ")
-			if keyval := strings.Split(field, "="); len(keyval) == 2 {
+			if keyval := strings.SplitN(field, "=", 2); len(keyval) == 2 {
 				key := keyval[0]
 				val := strings.Trim(keyval[1], `"`)
 				switch key {
-- 
2.43.0


From 4e2b1a217ce03c588000d1f70c54e5013ac73980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:57 +0000
Subject: [PATCH 59/88] fix: rtsp: RTP header extensions and padding were taken
 for payload

---
 format/rtsp/client.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/format/rtsp/client.go b/format/rtsp/client.go
index 0d52cf3..db86742 100644
--- a/format/rtsp/client.go
+++ b/format/rtsp/client.go
@@ -970,8 +970,23 @@ func (self *Stream) handleRtpPacket(packet []byte) (err error) {
 		err = fmt.Errorf("rtp: packet too short")
 		return
 	}
+	if packet[0]&0x10 != 0 { // header extension
+		if payloadOffset+4 > len(packet) {
+			err = fmt.Errorf("rtp: packet too short")
+			return
+		}
+		payloadOffset += 4 + int(binary.BigEndian.Uint16(packet[payloadOffset+2:]))*4
+	}
+	payloadEnd := len(packet)
+	if packet[0]&0x20 != 0 { // the last byte is the length of padding
+		payloadEnd -= int(packet[payloadEnd-1])
+	}
+	if payloadOffset > payloadEnd {
+		err = fmt.Errorf("rtp: packet too short")
+		return
+	}
 	timestamp := binary.BigEndian.Uint32(packet[4:8])
-	payload := packet[payloadOffset:]
+	payload := packet[payloadOffset:payloadEnd]
 
 	/*
 		PT 	Encoding Name 	Audio/Video (A/V) 	Clock Rate (Hz) 	Channels 	Reference
-- 
2.43.0


From 1e5535830e263ce7caf4317a485bf5504e78c3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:09 +0000
Subject: [PATCH 60/88] fix: rtsp: a NAL unit of one byte ended the stream with
 an error

---
 format/rtsp/client.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/format/rtsp/client.go b/format/rtsp/client.go
index db86742..9bbca7f 100644
--- a/format/rtsp/client.go
+++ b/format/rtsp/client.go
@@ -747,7 +747,7 @@ func (self *Stream) makeCodec() (err error) {
 }
 
 func (self *Stream) handleH264Payload(timestamp uint32, packet []byte) (err error) {
-	if len(packet) < 2 {
+	if len(packet) < 1 {
 		err = fmt.Errorf("rtp: h264 packet too short")
 		return
 	}
@@ -864,6 +864,10 @@ func (self *Stream) handleH264Payload(timestamp uint32, packet []byte) (err erro
 			Type: 5 bits
 			The NAL unit payload type as defined in table 7-1 of [1].
 		*/
+		if len(packet) < 2 {
+			err = fmt.Errorf("rtp: h264 packet too short")
+			return
+		}
 		fuIndicator := packet[0]
 		fuHeader := packet[1]
 		isStart := fuHeader&0x80 != 0
-- 
2.43.0


From 35802b64f98a998dce8f912079908a23cd80e8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:10 +0000
Subject: [PATCH 61/88] fix: rtsp: of several slices in a packet only the last
 was kept

---
 format/rtsp/client.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/format/rtsp/client.go b/format/rtsp/client.go
index 9bbca7f..7c3d406 100644
--- a/format/rtsp/client.go
+++ b/format/rtsp/client.go
@@ -785,7 +785,8 @@ func (self *Stream) handleH264Payload(timestamp uint32, packet []byte) (err erro
 		b := make([]byte, 4+len(packet))
 		pio.PutU32BE(b[0:4], uint32(len(packet)))
 		copy(b[4:], packet)
-		self.pkt.Data = b
+		// a packet may carry several slices
+		self.pkt.Data = append(self.pkt.Data, b...)
 		self.timestamp = timestamp
 
 	case naluType == 7: // sps
@@ -1036,7 +1037,8 @@ func (self *Stream) handleRtpPacket(packet []byte) (err error) {
 	*/
 	//payloadType := packet[1]&0x7f
 
-	self.pkt.Type = self.Sdp.Type
+	self.pkt = av.Packet{Type: self.Sdp.Type}
+	self.gotpkt = false
 
 	switch self.Sdp.Type {
 	case av.H264:
-- 
2.43.0


From 65e5d470f1e6a1d6197783f84826744df4eeaaea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:10 +0000
Subject: [PATCH 62/88] fix: rtsp: NAL units with lost fragments were delivered
 as whole

---
 format/rtsp/client.go | 5 +++++
 format/rtsp/stream.go | 1 +
 2 files changed, 6 insertions(+)

diff --git a/format/rtsp/client.go b/format/rtsp/client.go
index 7c3d406..e1e736b 100644
--- a/format/rtsp/client.go
+++ b/format/rtsp/client.go
@@ -990,6 +990,11 @@ func (self *Stream) handleRtpPacket(packet []byte) (err error) {
 		err = fmt.Errorf("rtp: packet too short")
 		return
 	}
+	if seq := binary.BigEndian.Uint16(packet[2:4]); seq != self.nextseq {
+		// the rest of the fragments is lost
+		self.fuStarted = false
+	}
+	self.nextseq = binary.BigEndian.Uint16(packet[2:4]) + 1
 	timestamp := binary.BigEndian.Uint32(packet[4:8])
 	payload := packet[payloadOffset:payloadEnd]
 
diff --git a/format/rtsp/stream.go b/format/rtsp/stream.go
index 8444e1b..e423c71 100644
--- a/format/rtsp/stream.go
+++ b/format/rtsp/stream.go
@@ -15,6 +15,7 @@ type Stream struct {
 	// h264
 	fuStarted  bool
 	fuBuffer   []byte
+	nextseq    uint16
 	sps        []byte
 	pps        []byte
 	spsChanged bool
-- 
2.43.0


From 315f6ac6fbb46ad162ab60264aecc765b2a74bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:11 +0000
Subject: [PATCH 63/88] fix: rtsp: parameter sets of the stream were replaced
 by those of the session description

---
 format/rtsp/client.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/format/rtsp/client.go b/format/rtsp/client.go
index e1e736b..0fd8e6d 100644
--- a/format/rtsp/client.go
+++ b/format/rtsp/client.go
@@ -705,9 +705,11 @@ func (self *Stream) makeCodec() (err error) {
 	if media.PayloadType >= 96 && media.PayloadType <= 127 {
 		switch media.Type {
 		case av.H264:
-			for _, nalu := range media.SpropParameterSets {
-				if len(nalu) > 0 {
-					self.handleH264Payload(0, nalu)
+			if self.Codec == nil {
+				for _, nalu := range media.SpropParameterSets {
+					if len(nalu) > 0 {
+						self.handleH264Payload(0, nalu)
+					}
 				}
 			}
 
-- 
2.43.0


From 213600c31217b628cf5d12d1c04969652a657ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:12 +0000
Subject: [PATCH 64/88] fix: rtsp: timestamps that wrap around or start at zero

---
 format/rtsp/client.go | 25 +++++++++++++++----------
 format/rtsp/stream.go | 10 ++++++----
 2 files changed, 21 insertions(+), 14 deletions(-)

diff --git a/format/rtsp/client.go b/format/rtsp/client.go
index 0fd8e6d..d634a59 100644
--- a/format/rtsp/client.go
+++ b/format/rtsp/client.go
@@ -230,11 +230,9 @@ func (self *Client) parseBlockHeader(h []byte) (length int, no int, valid bool)
 		}
 
 		timestamp := binary.BigEndian.Uint32(h[8:12])
-		if stream.firsttimestamp != 0 {
-			timestamp -= stream.firsttimestamp
-			if timestamp < stream.timestamp {
-				return
-			} else if timestamp-stream.timestamp > uint32(stream.timeScale()*60*60) {
+		if stream.started {
+			// going back is a long way forward
+			if timestamp-stream.lasttimestamp > uint32(stream.timeScale()*60*60) {
 				return
 			}
 		}
@@ -683,6 +681,11 @@ func (self *Stream) timeScale() int {
 	return t
 }
 
+func (self *Stream) ticksToTime(ticks int64) time.Duration {
+	scale := int64(self.timeScale())
+	return time.Duration(ticks/scale)*time.Second + time.Duration(ticks%scale)*time.Second/time.Duration(scale)
+}
+
 func (self *Stream) handleBuggyAnnexbH264Packet(timestamp uint32, packet []byte) (isBuggy bool, err error) {
 	if len(packet) >= 4 && packet[0] == 0 && packet[1] == 0 && packet[2] == 0 && packet[3] == 1 {
 		isBuggy = true
@@ -1135,19 +1138,21 @@ func (self *Client) handleBlock(block []byte) (pkt av.Packet, ok bool, err error
 	if stream.gotpkt {
 		/*
 			TODO: sync AV by rtcp NTP timestamp
-			TODO: handle timestamp overflow
 			https://tools.ietf.org/html/rfc3550
 			A receiver can then synchronize presentation of the audio and video packets by relating
 			their RTP timestamps using the timestamp pairs in RTCP SR packets.
 		*/
-		if stream.firsttimestamp == 0 {
-			stream.firsttimestamp = stream.timestamp
+		if !stream.started {
+			stream.started = true
+			stream.lasttimestamp = stream.timestamp
 		}
-		stream.timestamp -= stream.firsttimestamp
+		// timestamps wrap around
+		stream.ticks += int64(stream.timestamp - stream.lasttimestamp)
+		stream.lasttimestamp = stream.timestamp
 
 		ok = true
 		pkt = stream.pkt
-		pkt.Time = time.Duration(stream.timestamp) * time.Second / time.Duration(stream.timeScale())
+		pkt.Time = stream.ticksToTime(stream.ticks)
 
 		if pkt.Time < stream.lasttime || pkt.Time-stream.lasttime > time.Minute*30 {
 			err = fmt.Errorf("rtp: time invalid  time=%v lasttime=%v", pkt.Time, stream.lasttime)
diff --git a/format/rtsp/stream.go b/format/rtsp/stream.go
index e423c71..4bb5bed 100644
--- a/format/rtsp/stream.go
+++ b/format/rtsp/stream.go
@@ -21,10 +21,12 @@ type Stream struct {
 	spsChanged bool
 	ppsChanged bool
 
-	gotpkt         bool
-	pkt            av.Packet
-	timestamp      uint32
-	firsttimestamp uint32
+	gotpkt        bool
+	pkt           av.Packet
+	timestamp     uint32
+	started       bool
+	lasttimestamp uint32
+	ticks         int64 // since the first packet
 
 	lasttime time.Duration
 }
-- 
2.43.0


From 6e606274402f864974a86db03f4eeb7744f1ca5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:13 +0000
Subject: [PATCH 65/88] fix: rtsp: AAC packets with several access units

---
 format/rtsp/client.go | 60 ++++++++++++++++++++++++++++++++++++++++---
 format/rtsp/stream.go |  3 +++
 2 files changed, 59 insertions(+), 4 deletions(-)

diff --git a/format/rtsp/client.go b/format/rtsp/client.go
index d634a59..e35713c 100644
--- a/format/rtsp/client.go
+++ b/format/rtsp/client.go
@@ -20,6 +20,7 @@ import (
 	"github.com/nareix/joy5/codec/aac"
 	"github.com/nareix/joy5/codec/h264"
 	"github.com/nareix/joy5/format/rtsp/sdp"
+	"github.com/nareix/joy5/utils/bits"
 	"github.com/nareix/joy5/utils/bits/pio"
 )
 
@@ -61,6 +62,7 @@ type Client struct {
 	requestUri string
 	cseq       uint
 	streams    []*Stream
+	pkts       []av.Packet // to be returned before anything is read
 	session    string
 	body       io.Reader
 }
@@ -942,6 +944,42 @@ func (self *Stream) handleH264Payload(timestamp uint32, packet []byte) (err erro
 	return
 }
 
+// splitAACPayload returns the access units of a payload.
+// https://tools.ietf.org/html/rfc3640#section-3.2.1
+func (self *Stream) splitAACPayload(payload []byte) (aus [][]byte, err error) {
+	sizeLen, indexLen := self.Sdp.SizeLength, self.Sdp.IndexLength
+	if sizeLen <= 0 || sizeLen > 16 || indexLen < 0 || indexLen > 16 {
+		sizeLen, indexLen = 13, 3 // AAC-hbr
+	}
+
+	short := fmt.Errorf("rtp: aac packet too short")
+	if len(payload) < 2 {
+		return nil, short
+	}
+	hdrBits := int(binary.BigEndian.Uint16(payload))
+	n := hdrBits / (sizeLen + indexLen)
+	data := payload[2:]
+	if n < 1 || (hdrBits+7)/8 > len(data) {
+		return nil, short
+	}
+	hdr := &bits.Reader{R: bytes.NewReader(data)}
+	data = data[(hdrBits+7)/8:]
+
+	if n == 1 {
+		return [][]byte{data}, nil
+	}
+	for i := 0; i < n; i++ {
+		size, _ := hdr.ReadBits(sizeLen)
+		hdr.ReadBits(indexLen)
+		if int(size) > len(data) {
+			return nil, short
+		}
+		aus = append(aus, data[:size])
+		data = data[size:]
+	}
+	return
+}
+
 func (self *Stream) handleRtpPacket(packet []byte) (err error) {
 	if self.isCodecChange() {
 		err = ErrCodecChange
@@ -1057,13 +1095,13 @@ func (self *Stream) handleRtpPacket(packet []byte) (err error) {
 		}
 
 	case av.AAC:
-		if len(payload) < 4 {
-			err = fmt.Errorf("rtp: aac packet too short")
+		var aus [][]byte
+		if aus, err = self.splitAACPayload(payload); err != nil {
 			return
 		}
-		payload = payload[4:] // TODO: remove this hack
 		self.gotpkt = true
-		self.pkt.Data = payload
+		self.pkt.Data = aus[0]
+		self.more = aus[1:]
 		self.timestamp = timestamp
 
 	default:
@@ -1154,6 +1192,14 @@ func (self *Client) handleBlock(block []byte) (pkt av.Packet, ok bool, err error
 		pkt = stream.pkt
 		pkt.Time = stream.ticksToTime(stream.ticks)
 
+		for i, au := range stream.more {
+			next := pkt
+			next.Data = au
+			next.Time = stream.ticksToTime(stream.ticks + int64(i+1)*1024)
+			self.pkts = append(self.pkts, next)
+		}
+		stream.more = nil
+
 		if pkt.Time < stream.lasttime || pkt.Time-stream.lasttime > time.Minute*30 {
 			err = fmt.Errorf("rtp: time invalid  time=%v lasttime=%v", pkt.Time, stream.lasttime)
 			return
@@ -1176,6 +1222,12 @@ func (self *Client) readPacket() (pkt av.Packet, err error) {
 		return
 	}
 
+	if len(self.pkts) > 0 {
+		pkt = self.pkts[0]
+		self.pkts = self.pkts[1:]
+		return
+	}
+
 	for {
 		var res Response
 		for {
diff --git a/format/rtsp/stream.go b/format/rtsp/stream.go
index 4bb5bed..9b5547f 100644
--- a/format/rtsp/stream.go
+++ b/format/rtsp/stream.go
@@ -21,6 +21,9 @@ type Stream struct {
 	spsChanged bool
 	ppsChanged bool
 
+	// aac
+	more [][]byte // access units after the one in pkt
+
 	gotpkt        bool
 	pkt           av.Packet
 	timestamp     uint32
-- 
2.43.0


From c27ebd09207f10712ddaeee4d59781f14005e49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:59 +0000
Subject: [PATCH 66/88] fix: pktop: streams that do not start at zero were held
 back by their first timestamp

---
 av/pktop/pktop.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/av/pktop/pktop.go b/av/pktop/pktop.go
index e501f8c..591c420 100644
--- a/av/pktop/pktop.go
+++ b/av/pktop/pktop.go
@@ -7,6 +7,7 @@ import (
 )
 
 type NativeRateLimiter struct {
+	started       bool
 	pktTimeStart  time.Duration
 	wallTimeStart time.Time
 }
@@ -19,6 +20,13 @@ func NewNativeRateLimiter() *NativeRateLimiter {
 
 func (l *NativeRateLimiter) Do(in []av.Packet) []av.Packet {
 	for _, pkt := range in {
+		if !l.started {
+			// the stream may start at any time, not only at zero
+			l.started = true
+			l.pktTimeStart = pkt.Time
+			l.wallTimeStart = time.Now()
+			continue
+		}
 		if pktTimeDiff := pkt.Time - l.pktTimeStart; pktTimeDiff > 0 {
 			wallTimeDiff := time.Now().Sub(l.wallTimeStart)
 			if wallTimeDiff < pktTimeDiff {
-- 
2.43.0


From d37a0da43a923a821a17dff5a6a07e3ea4c71e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:19 +0000
Subject: [PATCH 67/88] fix: format: an existing file was truncated before its
 format turned out to be unsupported

---
 format/format.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/format/format.go b/format/format.go
index 483e306..641efaf 100644
--- a/format/format.go
+++ b/format/format.go
@@ -154,11 +154,11 @@ func (o *URLOpener) Create(url_ string, streamer av.Streamer) (w *Writer, err er
 	default:
 		ext := path.Ext(u.Path)
 		var f *os.File
-		if f, err = os.Create(u.Path); err != nil {
-			return
-		}
 		switch ext {
 		case ".flv":
+			if f, err = os.Create(u.Path); err != nil {
+				return
+			}
 			c := flv.NewMuxer(NewStreamsWriteSeeker(f, streamer))
 			if fn := o.OnNewFlvMuxer; fn != nil {
 				fn(c)
@@ -169,11 +169,16 @@ func (o *URLOpener) Create(url_ string, streamer av.Streamer) (w *Writer, err er
 			}
 			return
 		case ".mp4":
+			sw := NewStreamsWriteSeeker(nil, streamer)
 			var m *mp4.Muxer
-			m, err = mp4.NewMuxer(NewStreamsWriteSeeker(f, streamer))
+			m, err = mp4.NewMuxer(sw)
 			if err != nil {
 				return nil, err
 			}
+			if f, err = os.Create(u.Path); err != nil {
+				return
+			}
+			sw.WriteSeeker = f
 			w = &Writer{
 				PacketWriter: m,
 				Closer:       Mp4WriterCloser{f, m},
-- 
2.43.0


From e41bc048b76579fcad7856bb01ec520954b93655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:20 +0000
Subject: [PATCH 68/88] fix: format: creating an MP4 file without streams
 crashed

---
 format/format.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/format/format.go b/format/format.go
index 641efaf..4367078 100644
--- a/format/format.go
+++ b/format/format.go
@@ -169,6 +169,10 @@ func (o *URLOpener) Create(url_ string, streamer av.Streamer) (w *Writer, err er
 			}
 			return
 		case ".mp4":
+			if streamer == nil {
+				err = fmt.Errorf("create `%s` failed: %s", url_, "streams are not known")
+				return
+			}
 			sw := NewStreamsWriteSeeker(nil, streamer)
 			var m *mp4.Muxer
 			m, err = mp4.NewMuxer(sw)
-- 
2.43.0


From 9e35762a762bda41cacc444beb3c8a1e876fd04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:21 +0000
Subject: [PATCH 69/88] fix: format: an MP4 file stayed open if its trailer
 could not be written

---
 format/format.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/format/format.go b/format/format.go
index 4367078..1932219 100644
--- a/format/format.go
+++ b/format/format.go
@@ -33,6 +33,7 @@ type Mp4WriterCloser struct {
 
 func (c Mp4WriterCloser) Close() error {
 	if err := c.Muxer.WriteTrailer(); err != nil {
+		c.Closer.Close()
 		return err
 	}
 	if err := c.Closer.Close(); err != nil {
-- 
2.43.0


From ea624dac80d76c433863dcb4ba33e7833687e336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:22 +0000
Subject: [PATCH 70/88] fix: format: HTTP connections stayed open, and error
 pages were taken for media

---
 format/format.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/format/format.go b/format/format.go
index 1932219..5320366 100644
--- a/format/format.go
+++ b/format/format.go
@@ -20,12 +20,6 @@ import (
 	"github.com/nareix/joy5/format/rtmp"
 )
 
-type dummyCloser struct{}
-
-func (c dummyCloser) Close() error {
-	return nil
-}
-
 type Mp4WriterCloser struct {
 	io.Closer
 	*mp4.Muxer
@@ -264,13 +258,18 @@ func (o *URLOpener) Open(url_ string) (r *Reader, err error) {
 			if hr, err = http.Get(url_); err != nil {
 				return
 			}
+			if hr.StatusCode != http.StatusOK {
+				hr.Body.Close()
+				err = fmt.Errorf("open `%s` failed: %s", url_, hr.Status)
+				return
+			}
 			c := flv.NewDemuxer(hr.Body)
 			if fn := o.OnNewFlvDemuxer; fn != nil {
 				fn(c)
 			}
 			r = &Reader{
 				PacketReader: c,
-				Closer:       dummyCloser{},
+				Closer:       hr.Body,
 				Flv:          c,
 				IsRemote:     true,
 			}
-- 
2.43.0


From 5c92007ee0af2705424f74bbddf6c9bbb54c188e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:23 +0000
Subject: [PATCH 71/88] fix: format: URLs of unknown schemes opened, or
 truncated, local files

---
 format/format.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/format/format.go b/format/format.go
index 5320366..a161b82 100644
--- a/format/format.go
+++ b/format/format.go
@@ -146,7 +146,7 @@ func (o *URLOpener) Create(url_ string, streamer av.Streamer) (w *Writer, err er
 		}
 		return
 
-	default:
+	case "", "file":
 		ext := path.Ext(u.Path)
 		var f *os.File
 		switch ext {
@@ -188,6 +188,10 @@ func (o *URLOpener) Create(url_ string, streamer av.Streamer) (w *Writer, err er
 			err = ErrUnsupported(url_)
 			return
 		}
+
+	default:
+		err = ErrUnsupported(url_)
+		return
 	}
 }
 
@@ -204,7 +208,11 @@ func (o *URLOpener) Open(url_ string) (r *Reader, err error) {
 	}
 
 	switch u.Scheme {
-	case "rtmp":
+	case "rtmp", "rtmps":
+		if isServer && u.Scheme == "rtmps" {
+			err = ErrUnsupported(url_)
+			return
+		}
 		if isServer {
 			var c *rtmp.Conn
 			var nc net.Conn
@@ -280,7 +288,7 @@ func (o *URLOpener) Open(url_ string) (r *Reader, err error) {
 			return
 		}
 
-	default:
+	case "", "file":
 		ext := path.Ext(u.Path)
 		switch ext {
 		case ".flv":
@@ -303,6 +311,10 @@ func (o *URLOpener) Open(url_ string) (r *Reader, err error) {
 			err = ErrUnsupported(url_)
 			return
 		}
+
+	default:
+		err = ErrUnsupported(url_)
+		return
 	}
 }
 
-- 
2.43.0


From da9855d1f0e7693d45ef61c89f781fb9b2d13f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:51 +0000
Subject: [PATCH 72/88] fix: avtool: moving sequence headers overwrote
 /tmp/a.h264

---
 cmd/avtool/seqhdr.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/cmd/avtool/seqhdr.go b/cmd/avtool/seqhdr.go
index 896a17b..6b0b3f9 100644
--- a/cmd/avtool/seqhdr.go
+++ b/cmd/avtool/seqhdr.go
@@ -25,9 +25,6 @@ func doMoveH264SeqhdrToKeyFrame(src, dst string) error {
 	r := flv.NewDemuxer(fr)
 	w := flv.NewMuxer(format.NewStreamsWriteSeeker(fw, nil))
 
-	rawf, _ := os.Create("/tmp/a.h264")
-	defer rawf.Close()
-
 	var h264seqhdr *h264.Codec
 
 	for {
-- 
2.43.0


From 2eb7171cca080b8dddc4c0a29390cda646183baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:52 +0000
Subject: [PATCH 73/88] fix: avtool: a key frame without a sequence header
 crashed

---
 cmd/avtool/seqhdr.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/cmd/avtool/seqhdr.go b/cmd/avtool/seqhdr.go
index 6b0b3f9..52e95cd 100644
--- a/cmd/avtool/seqhdr.go
+++ b/cmd/avtool/seqhdr.go
@@ -46,11 +46,13 @@ func doMoveH264SeqhdrToKeyFrame(src, dst string) error {
 			if pkt.IsKeyFrame {
 				pktnalus, _ := h264.SplitNALUs(pkt.Data)
 				nalus := [][]byte{}
-				for _, b := range h264.Map2arr(h264seqhdr.SPS) {
-					nalus = append(nalus, b)
-				}
-				for _, b := range h264.Map2arr(h264seqhdr.PPS) {
-					nalus = append(nalus, b)
+				if h264seqhdr != nil {
+					for _, b := range h264.Map2arr(h264seqhdr.SPS) {
+						nalus = append(nalus, b)
+					}
+					for _, b := range h264.Map2arr(h264seqhdr.PPS) {
+						nalus = append(nalus, b)
+					}
 				}
 				nalus = append(nalus, pktnalus...)
 				data := h264.JoinNALUsAnnexb(nalus)
-- 
2.43.0


From 08bf9d56519361d5ca71f87432da0e212679d5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:53 +0000
Subject: [PATCH 74/88] fix: avtool: conversions of FLV files ended in an error

---
 cmd/avtool/avcc2annexb.go | 4 ++++
 cmd/avtool/seqhdr.go      | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/cmd/avtool/avcc2annexb.go b/cmd/avtool/avcc2annexb.go
index 5796989..953f657 100644
--- a/cmd/avtool/avcc2annexb.go
+++ b/cmd/avtool/avcc2annexb.go
@@ -1,6 +1,7 @@
 package main
 
 import (
+	"io"
 	"os"
 
 	"github.com/nareix/joy5/av"
@@ -27,6 +28,9 @@ func doAvcc2Annexb(src, dst string) error {
 
 	for {
 		pkt, err := r.ReadPacket()
+		if err == io.EOF {
+			return nil
+		}
 		if err != nil {
 			return err
 		}
diff --git a/cmd/avtool/seqhdr.go b/cmd/avtool/seqhdr.go
index 52e95cd..0ab5814 100644
--- a/cmd/avtool/seqhdr.go
+++ b/cmd/avtool/seqhdr.go
@@ -1,6 +1,7 @@
 package main
 
 import (
+	"io"
 	"os"
 
 	"github.com/nareix/joy5/av"
@@ -29,6 +30,9 @@ func doMoveH264SeqhdrToKeyFrame(src, dst string) error {
 
 	for {
 		pkt, err := r.ReadPacket()
+		if err == io.EOF {
+			return nil
+		}
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From f4e3e71312f8a6d074da5200dc5ebbf565a07d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:13 +0000
Subject: [PATCH 75/88] fix: flvio: a file that ends inside a tag looked like a
 complete one

---
 format/flv/flvio/flvio.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/format/flv/flvio/flvio.go b/format/flv/flvio/flvio.go
index a2c91e3..9398a70 100644
--- a/format/flv/flvio/flvio.go
+++ b/format/flv/flvio/flvio.go
@@ -355,6 +355,14 @@ func ReadTag(r io.Reader, b []byte, malloc func(int) ([]byte, error)) (tag Tag,
 	if _, err = io.ReadFull(r, b[:TagHeaderLength]); err != nil {
 		return
 	}
+
+	// the end of the file is only clean between tags
+	defer func() {
+		if err == io.EOF {
+			err = io.ErrUnexpectedEOF
+		}
+	}()
+
 	var datalen int
 	if tag, datalen, err = ParseTagHeader(b); err != nil {
 		return
-- 
2.43.0


From 15fdd921a427d294e30525402190f39a2c8721d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:03 +0000
Subject: [PATCH 76/88] fix: rtsp: a SETUP the server refuses is no success,
 and is sent again with credentials after a 401

---
 format/rtsp/client.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/format/rtsp/client.go b/format/rtsp/client.go
index e35713c..b3d1f77 100644
--- a/format/rtsp/client.go
+++ b/format/rtsp/client.go
@@ -559,10 +559,20 @@ func (self *Client) Setup(idx []int) (err error) {
 		if self.session != "" {
 			req.Header = append(req.Header, "Session: "+self.session)
 		}
-		if err = self.WriteRequest(req); err != nil {
-			return
+		var res Response
+		for i := 0; i < 2; i++ {
+			if err = self.WriteRequest(req); err != nil {
+				return
+			}
+			if res, err = self.ReadResponse(); err != nil {
+				return
+			}
+			if res.StatusCode != 401 {
+				break
+			}
 		}
-		if _, err = self.ReadResponse(); err != nil {
+		if res.StatusCode/100 != 2 {
+			err = fmt.Errorf("rtsp: Setup failed, StatusCode=%d", res.StatusCode)
 			return
 		}
 	}
-- 
2.43.0


From eb9f553630f31918744bb5b039329d3919f43b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:04 +0000
Subject: [PATCH 77/88] fix: rtsp: a DESCRIBE the server refuses is no
 description, whatever comes with it

---
 format/rtsp/client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/rtsp/client.go b/format/rtsp/client.go
index b3d1f77..6af36d5 100644
--- a/format/rtsp/client.go
+++ b/format/rtsp/client.go
@@ -607,7 +607,7 @@ func (self *Client) Describe() (err error) {
 			break
 		}
 	}
-	if res.ContentLength == 0 {
+	if res.StatusCode != 200 || res.ContentLength == 0 {
 		err = fmt.Errorf("rtsp: Describe failed, StatusCode=%d", res.StatusCode)
 		return
 	}
-- 
2.43.0


From 69338f2bf128f52b0caabad600fa41a6e9035df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:04 +0000
Subject: [PATCH 78/88] fix: rtsp: a PLAY the server refuses is reported, not
 waited on

---
 format/rtsp/client.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/format/rtsp/client.go b/format/rtsp/client.go
index 6af36d5..58ad11b 100644
--- a/format/rtsp/client.go
+++ b/format/rtsp/client.go
@@ -61,6 +61,7 @@ type Client struct {
 	brconn     *bufio.Reader
 	requestUri string
 	cseq       uint
+	playCSeq   uint
 	streams    []*Stream
 	pkts       []av.Packet // to be returned before anything is read
 	session    string
@@ -1136,6 +1137,7 @@ func (self *Client) Play() (err error) {
 	if err = self.WriteRequest(req); err != nil {
 		return
 	}
+	self.playCSeq = self.cseq
 	if self.stage == stageSetupDone {
 		self.stage = stagePlayDone
 	}
@@ -1247,6 +1249,10 @@ func (self *Client) readPacket() (pkt av.Packet, err error) {
 			if len(res.Block) > 0 {
 				break
 			}
+			if res.StatusCode >= 300 && res.Headers.Get("CSeq") == strconv.Itoa(int(self.playCSeq)) {
+				err = fmt.Errorf("rtsp: Play failed, StatusCode=%d", res.StatusCode)
+				return
+			}
 		}
 
 		var ok bool
-- 
2.43.0


From 9064e8a25fc619f1cd3a77716b29942250b50a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:05 +0000
Subject: [PATCH 79/88] fix: rtsp: the keep-alive names the session it keeps
 alive

---
 format/rtsp/client.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/format/rtsp/client.go b/format/rtsp/client.go
index 58ad11b..95bda39 100644
--- a/format/rtsp/client.go
+++ b/format/rtsp/client.go
@@ -155,6 +155,9 @@ func (self *Client) SendRtpKeepalive() (err error) {
 				Method: "OPTIONS",
 				Uri:    self.requestUri,
 			}
+			if self.session != "" {
+				req.Header = append(req.Header, "Session: "+self.session)
+			}
 			if err = self.WriteRequest(req); err != nil {
 				return
 			}
-- 
2.43.0


From 5ad6ae1e261d65bd7c3fd7fa4c1cde5325d8a143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:06 +0000
Subject: [PATCH 80/88] fix: rtsp: the digest is of the uri of the request it
 comes with

---
 format/rtsp/client.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/format/rtsp/client.go b/format/rtsp/client.go
index 95bda39..4c8a575 100644
--- a/format/rtsp/client.go
+++ b/format/rtsp/client.go
@@ -54,7 +54,7 @@ type Client struct {
 	setupIdx []int
 	setupMap []int
 
-	authHeaders func(method string) []string
+	authHeaders func(method, uri string) []string
 
 	url        *url.URL
 	conn       *connWithTimeout
@@ -176,7 +176,7 @@ func (self *Client) WriteRequest(req Request) (err error) {
 	fmt.Fprintf(buf, "CSeq: %d\r\n", self.cseq)
 
 	if self.authHeaders != nil {
-		headers := self.authHeaders(req.Method)
+		headers := self.authHeaders(req.Method, req.Uri)
 		for _, s := range headers {
 			io.WriteString(buf, s)
 			io.WriteString(buf, "\r\n")
@@ -319,7 +319,7 @@ func (self *Client) handle401(res *Response) (err error) {
 			username = self.url.User.Username()
 			password, _ = self.url.User.Password()
 
-			self.authHeaders = func(method string) []string {
+			self.authHeaders = func(method, uri string) []string {
 				var headers []string
 				if nonce == "" {
 					headers = []string{
@@ -327,11 +327,11 @@ func (self *Client) handle401(res *Response) (err error) {
 					}
 				} else {
 					hs1 := md5hash(username + ":" + realm + ":" + password)
-					hs2 := md5hash(method + ":" + self.requestUri)
+					hs2 := md5hash(method + ":" + uri)
 					response := md5hash(hs1 + ":" + nonce + ":" + hs2)
 					headers = []string{fmt.Sprintf(
 						`Authorization: Digest username="%s", realm="%s", nonce="%s", uri="%s", response="%s"`,
-						username, realm, nonce, self.requestUri, response)}
+						username, realm, nonce, uri, response)}
 				}
 				return headers
 			}
-- 
2.43.0


From 272014576407c3638c7a3564859451aae21fe345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:07 +0000
Subject: [PATCH 81/88] fix: rtsp: the address of a stream is relative to
 Content-Base, with one slash between

---
 format/rtsp/client.go | 44 +++++++++++++++++++++++++------------------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/format/rtsp/client.go b/format/rtsp/client.go
index 4c8a575..84d8d07 100644
--- a/format/rtsp/client.go
+++ b/format/rtsp/client.go
@@ -56,16 +56,17 @@ type Client struct {
 
 	authHeaders func(method, uri string) []string
 
-	url        *url.URL
-	conn       *connWithTimeout
-	brconn     *bufio.Reader
-	requestUri string
-	cseq       uint
-	playCSeq   uint
-	streams    []*Stream
-	pkts       []av.Packet // to be returned before anything is read
-	session    string
-	body       io.Reader
+	url         *url.URL
+	conn        *connWithTimeout
+	brconn      *bufio.Reader
+	requestUri  string
+	contentBase string
+	cseq        uint
+	playCSeq    uint
+	streams     []*Stream
+	pkts        []av.Packet // to be returned before anything is read
+	session     string
+	body        io.Reader
 }
 
 type Request struct {
@@ -529,6 +530,19 @@ func (self *Client) ReadResponse() (res Response, err error) {
 	}
 }
 
+// controlUri is the address of a stream, which may be relative to the base the
+// server gave with the description, or else to the one described.
+func (self *Client) controlUri(control string) string {
+	if strings.HasPrefix(control, "rtsp://") {
+		return control
+	}
+	base := self.contentBase
+	if base == "" {
+		base = self.requestUri
+	}
+	return strings.TrimSuffix(base, "/") + "/" + control
+}
+
 func (self *Client) SetupAll() (err error) {
 	idx := []int{}
 	for i := range self.streams {
@@ -551,14 +565,7 @@ func (self *Client) Setup(idx []int) (err error) {
 	for i, si := range idx {
 		self.setupMap[si] = i
 
-		uri := ""
-		control := self.streams[si].Sdp.Control
-		if strings.HasPrefix(control, "rtsp://") {
-			uri = control
-		} else {
-			uri = self.requestUri + "/" + control
-		}
-		req := Request{Method: "SETUP", Uri: uri}
+		req := Request{Method: "SETUP", Uri: self.controlUri(self.streams[si].Sdp.Control)}
 		req.Header = append(req.Header, fmt.Sprintf("Transport: RTP/AVP/TCP;unicast;interleaved=%d-%d", si*2, si*2+1))
 		if self.session != "" {
 			req.Header = append(req.Header, "Session: "+self.session)
@@ -617,6 +624,7 @@ func (self *Client) Describe() (err error) {
 	}
 
 	body := string(res.Body)
+	self.contentBase = res.Headers.Get("Content-Base")
 
 	if self.DebugRtsp {
 		fmt.Println("<", body)
-- 
2.43.0


From d867d05f74233bac594cd12a708313810cfc791d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:08 +0000
Subject: [PATCH 82/88] fix: rtsp: SetupAll before Describe describes first

---
 format/rtsp/client.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/format/rtsp/client.go b/format/rtsp/client.go
index 84d8d07..3f82808 100644
--- a/format/rtsp/client.go
+++ b/format/rtsp/client.go
@@ -544,6 +544,9 @@ func (self *Client) controlUri(control string) string {
 }
 
 func (self *Client) SetupAll() (err error) {
+	if err = self.prepare(stageDescribeDone); err != nil {
+		return
+	}
 	idx := []int{}
 	for i := range self.streams {
 		idx = append(idx, i)
-- 
2.43.0


From 0db3b19472f1899d1302850908232e5dbc4b9de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:08 +0000
Subject: [PATCH 83/88] fix: rtsp: a comma within quotes is no end of a field
 of the challenge

---
 format/rtsp/client.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/format/rtsp/client.go b/format/rtsp/client.go
index 3f82808..bb8a4fd 100644
--- a/format/rtsp/client.go
+++ b/format/rtsp/client.go
@@ -295,7 +295,14 @@ func (self *Client) handle401(res *Response) (err error) {
 	var realm, nonce string
 
 	if len(hdrval) == 2 {
-		for _, field := range strings.Split(hdrval[1], ",") {
+		quoted := false
+		fields := strings.FieldsFunc(hdrval[1], func(r rune) bool {
+			if r == '"' {
+				quoted = !quoted
+			}
+			return r == ',' && !quoted
+		})
+		for _, field := range fields {
 			field = strings.Trim(field, ", ")
 			if keyval := strings.SplitN(field, "=", 2); len(keyval) == 2 {
 				key := keyval[0]
-- 
2.43.0


From 2fa0f4b5941caf6e71781e2dd158e3571ec82b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:08 +0000
Subject: [PATCH 84/88] fix: avtool: only RTMP addresses are forwarded to

---
 cmd/avtool/forwardrtmp.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/avtool/forwardrtmp.go b/cmd/avtool/forwardrtmp.go
index f0bdb28..430bcc8 100644
--- a/cmd/avtool/forwardrtmp.go
+++ b/cmd/avtool/forwardrtmp.go
@@ -3,6 +3,7 @@ package main
 import (
 	"log"
 	"net"
+	"strings"
 	"time"
 	"unsafe"
 
@@ -40,6 +41,11 @@ func doForwardRtmp(listenAddr string) (err error) {
 			log.Println(unsafe.Pointer(c), nc.LocalAddr(), nc.RemoteAddr(), "NoForwardField")
 			return
 		}
+		if !strings.HasPrefix(fwd, "rtmp://") && !strings.HasPrefix(fwd, "rtmps://") {
+			// the publisher does not decide on files and listeners here
+			log.Println(unsafe.Pointer(c), nc.LocalAddr(), nc.RemoteAddr(), "ForwardFieldInvalid")
+			return
+		}
 		log.Println(unsafe.Pointer(c), nc.LocalAddr(), nc.RemoteAddr(), "fwd", fwd)
 
 		fo := newFormatOpener()
-- 
2.43.0


From 5d97b2b1f0efeced1833aea36baf3d6ee8a61fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:09 +0000
Subject: [PATCH 85/88] fix: avtool: a connection the pubsub server is done
 with is closed

---
 cmd/avtool/pubsub.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmd/avtool/pubsub.go b/cmd/avtool/pubsub.go
index 5497c10..a956804 100644
--- a/cmd/avtool/pubsub.go
+++ b/cmd/avtool/pubsub.go
@@ -309,6 +309,8 @@ func doPubsubRtmp(listenAddr string) error {
 	}
 
 	s.HandleConn = func(c *rtmp.Conn, nc net.Conn) {
+		defer nc.Close()
+
 		stream, remove := streams.add(c.URL.Path)
 		defer remove()
 
-- 
2.43.0


From 2b0cfe87bca0b3ffb589863f96320b47bb460e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:43 +0000
Subject: [PATCH 86/88] fix: mp4: seeking ignores streams without samples

---
 format/mp4/demuxer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/format/mp4/demuxer.go b/format/mp4/demuxer.go
index d738e77..4fd10e5 100644
--- a/format/mp4/demuxer.go
+++ b/format/mp4/demuxer.go
@@ -167,6 +167,9 @@ func (self *Demuxer) SeekToTime(tm time.Duration) (err error) {
 
 	var video *Stream
 	for _, stream := range self.streams {
+		if stream.sampleSizeCount() == 0 {
+			continue
+		}
 		var sType int
 		if sType, err = CodecType(stream.Codec); err != nil {
 			return
@@ -185,7 +188,8 @@ func (self *Demuxer) SeekToTime(tm time.Duration) (err error) {
 	}
 
 	for _, stream := range self.streams {
-		if stream != video {
+		// there is nothing to find in a stream without samples
+		if stream != video && stream.sampleSizeCount() > 0 {
 			if err = stream.seekToTime(tm); err != nil {
 				return
 			}
-- 
2.43.0


From 65e9d85d8b23ef0b65fac7d5a7953bd64078481f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:16 +0000
Subject: [PATCH 87/88] fix: rtsp: a change of parameter sets lost the packet
 after it, and the stream when errors are skipped

---
 format/rtsp/client.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/format/rtsp/client.go b/format/rtsp/client.go
index bb8a4fd..5bc9eba 100644
--- a/format/rtsp/client.go
+++ b/format/rtsp/client.go
@@ -65,6 +65,7 @@ type Client struct {
 	playCSeq    uint
 	streams     []*Stream
 	pkts        []av.Packet // to be returned before anything is read
+	pending     []byte      // the block that waits for HandleCodecChange
 	session     string
 	body        io.Reader
 }
@@ -1200,7 +1201,7 @@ func (self *Client) handleBlock(block []byte) (pkt av.Packet, ok bool, err error
 
 	herr := stream.handleRtpPacket(block[4:])
 	if herr != nil {
-		if !self.SkipErrRtpBlock {
+		if !self.SkipErrRtpBlock || herr == ErrCodecChange {
 			err = herr
 			return
 		}
@@ -1262,12 +1263,15 @@ func (self *Client) readPacket() (pkt av.Packet, err error) {
 	}
 
 	for {
-		var res Response
-		for {
+		block := self.pending
+		self.pending = nil
+		for len(block) == 0 {
+			var res Response
 			if res, err = self.poll(); err != nil {
 				return
 			}
 			if len(res.Block) > 0 {
+				block = res.Block
 				break
 			}
 			if res.StatusCode >= 300 && res.Headers.Get("CSeq") == strconv.Itoa(int(self.playCSeq)) {
@@ -1277,7 +1281,11 @@ func (self *Client) readPacket() (pkt av.Packet, err error) {
 		}
 
 		var ok bool
-		if pkt, ok, err = self.handleBlock(res.Block); err != nil {
+		if pkt, ok, err = self.handleBlock(block); err != nil {
+			if err == ErrCodecChange {
+				// to be handled when the change has been
+				self.pending = block
+			}
 			return
 		}
 		if ok {
-- 
2.43.0


From 83d5caa6bb6901c8e43cea65d7877fea898ce5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:06 +0000
Subject: [PATCH 88/88] fix: rtmp: an _error answer to connect or createStream
 is a refusal, not waited past

---
 format/rtmp/cmd.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/format/rtmp/cmd.go b/format/rtmp/cmd.go
index 506949e..3d3521f 100644
--- a/format/rtmp/cmd.go
+++ b/format/rtmp/cmd.go
@@ -344,6 +344,10 @@ func (c *Conn) writeConnect(path string) (err error) {
 			return
 		}
 
+		if cmd.name == "_error" {
+			err = fmt.Errorf("CommandConnectFailed")
+			return
+		}
 		if cmd.name == "_result" {
 			if err = c.checkLevelStatus(cmd); err != nil {
 				err = fmt.Errorf("CommandConnectFailed: %s", err)
@@ -389,6 +393,10 @@ func (c *Conn) connectPublish() (err error) {
 		if cmd, err = c.readCommand(); err != nil {
 			return
 		}
+		if cmd.name == "_error" && int(cmd.transid) == transid {
+			err = fmt.Errorf("CreateStreamFailed")
+			return
+		}
 		if cmd.name == "_result" && int(cmd.transid) == transid {
 			var ok bool
 			if ok, c.avmsgsid = c.checkCreateStreamResult(cmd); !ok {
@@ -452,6 +460,10 @@ func (c *Conn) connectPlay() (err error) {
 			return
 		}
 
+		if cmd.name == "_error" {
+			err = fmt.Errorf("CreateStreamFailed")
+			return
+		}
 		if cmd.name == "_result" {
 			var ok bool
 			if ok, c.avmsgsid = c.checkCreateStreamResult(cmd); !ok {
-- 
2.43.0

