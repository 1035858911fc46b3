From 02b411ef03d4a015effd8b1c066e2c31d157be15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:33 +0000
Subject: [PATCH 01/10] fix: compress an OID with the internet prefix only if
 its 5th subid fits the prefix byte

---
 agentx/encoding.go     | 4 ++--
 agentx/encoding_dbg.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/agentx/encoding.go b/agentx/encoding.go
index 3e8a625..2fb9998 100644
--- a/agentx/encoding.go
+++ b/agentx/encoding.go
@@ -160,7 +160,7 @@ func objectIdEncodingSize(id []uint32) (size int) {
 	size = 4
 	if len(id) > 0 {
 		nsubids := len(id)
-		if len(id) >= 5 && id[0] == 1 && id[1] == 3 && id[2] == 6 && id[3] == 1 && id[4] <= 256 {
+		if len(id) >= 5 && id[0] == 1 && id[1] == 3 && id[2] == 6 && id[3] == 1 && id[4] >= 1 && id[4] <= 255 {
 			nsubids -= 5
 		}
 		size += 4 * nsubids
@@ -174,7 +174,7 @@ func (e encoder) appendObjectId(data []byte, val []uint32, include byte) []byte
 	}
 	nsubids := len(val)
 	prefix := byte(0)
-	if nsubids >= 5 && val[0] == 1 && val[1] == 3 && val[2] == 6 && val[3] == 1 && val[4] <= 256 {
+	if nsubids >= 5 && val[0] == 1 && val[1] == 3 && val[2] == 6 && val[3] == 1 && val[4] >= 1 && val[4] <= 255 {
 		nsubids -= 5
 		prefix = byte(val[4])
 		val = val[5:]
diff --git a/agentx/encoding_dbg.go b/agentx/encoding_dbg.go
index 8724348..99388d9 100644
--- a/agentx/encoding_dbg.go
+++ b/agentx/encoding_dbg.go
@@ -170,7 +170,7 @@ func (e encoderDbg) appendObjectId(data []byte, val []uint32, include byte) []by
 	nsubids := len(val)
 	prefix := byte(0)
 
-	if nsubids >= 5 && val[0] == 1 && val[1] == 3 && val[2] == 6 && val[3] == 1 && val[4] <= 256 {
+	if nsubids >= 5 && val[0] == 1 && val[1] == 3 && val[2] == 6 && val[3] == 1 && val[4] >= 1 && val[4] <= 255 {
 		nsubids -= 5
 		prefix = byte(val[4])
 		val = val[5:]
-- 
2.43.0


From 208372aaacbd73a29f7ca20a70f3b3ac5e6e4fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:34 +0000
Subject: [PATCH 02/10] fix: refuse to encode an OID with more subids than the
 count field may hold

---
 agentx/encoding.go     | 7 +++++++
 agentx/encoding_dbg.go | 3 +++
 2 files changed, 10 insertions(+)

diff --git a/agentx/encoding.go b/agentx/encoding.go
index 2fb9998..ea6e4d8 100644
--- a/agentx/encoding.go
+++ b/agentx/encoding.go
@@ -107,6 +107,10 @@ type decoder struct {
 	byteOrder
 }
 
+// maxSubids is the maximal number of sub-identifiers in the encoded
+// object identifier (RFC 2741, 5.1).
+const maxSubids = 128
+
 var mod2pad [4]int = [4]int{0, 3, 2, 1}
 
 func paddingSize(n int) int {
@@ -179,6 +183,9 @@ func (e encoder) appendObjectId(data []byte, val []uint32, include byte) []byte
 		prefix = byte(val[4])
 		val = val[5:]
 	}
+	if nsubids > maxSubids {
+		panic(ErrEncoding)
+	}
 	data = append(data, byte(nsubids), prefix, include, 0)
 	for _, subid := range val {
 		data = e.appendUint32(data, subid)
diff --git a/agentx/encoding_dbg.go b/agentx/encoding_dbg.go
index 99388d9..c4f4422 100644
--- a/agentx/encoding_dbg.go
+++ b/agentx/encoding_dbg.go
@@ -176,6 +176,9 @@ func (e encoderDbg) appendObjectId(data []byte, val []uint32, include byte) []by
 		val = val[5:]
 	}
 
+	if nsubids > maxSubids {
+		panic("too many subids")
+	}
 	e.log.Writef("appending ObjectId header {nsubids: %d, prefix: %d, include: %d, reserved byte: 0}:",
 		nsubids, prefix, include)
 	data = append(data, byte(nsubids), prefix, include, 0)
-- 
2.43.0


From 5e47f86708f99bae9aa00ec2b5c8493d001e8a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:34 +0000
Subject: [PATCH 03/10] fix: reject an encoded OID whose subid count exceeds
 the RFC 2741 limit of 128

---
 agentx/encoding.go     | 3 +++
 agentx/encoding_dbg.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/agentx/encoding.go b/agentx/encoding.go
index ea6e4d8..ed55322 100644
--- a/agentx/encoding.go
+++ b/agentx/encoding.go
@@ -198,6 +198,9 @@ func (d decoder) parseObjectId(data []byte) (val []uint32, include byte, next []
 		panic(ErrEncoding)
 	}
 	nsubids, prefix, include := int(data[0]), uint32(data[1]), data[2]
+	if nsubids > maxSubids {
+		panic(ErrEncoding)
+	}
 	next = data[4:]
 	if nsubids == 0 && prefix == 0 {
 		return
diff --git a/agentx/encoding_dbg.go b/agentx/encoding_dbg.go
index c4f4422..b05af60 100644
--- a/agentx/encoding_dbg.go
+++ b/agentx/encoding_dbg.go
@@ -204,6 +204,9 @@ func (d *decoderDbg) parseObjectId(startpos int) (val []uint32, include byte, ne
 	if data[3] != 0 {
 		panic("non-zero reserved byte")
 	}
+	if nsubids > maxSubids {
+		panic("too many subids")
+	}
 	if nsubids == 0 && prefix == 0 {
 		d.log.Write("parsed ObjectId: <null>")
 		return
-- 
2.43.0


From 66a14ef6296b6487d3bfc1c2e35d6f3ba8172ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:35 +0000
Subject: [PATCH 04/10] fix: reject a varbind whose 16-bit type is not a known
 tag instead of truncating it

---
 agentx/varbind.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/agentx/varbind.go b/agentx/varbind.go
index bdbe593..c927808 100644
--- a/agentx/varbind.go
+++ b/agentx/varbind.go
@@ -20,7 +20,7 @@ func (e encoder) appendVarbind(data []byte, vb asn.Varbind) []byte {
 func (d decoder) parseVarbind(data []byte) (vb asn.Varbind, next []byte) {
 	var tag int16
 	tag, next = d.parseInt16(data)
-	if vb.Tag = asn.Tag(tag); !vb.Tag.IsValueTag() {
+	if vb.Tag = asn.Tag(tag); int16(vb.Tag) != tag || !vb.Tag.IsValueTag() {
 		panic(ErrEncoding)
 	}
 	if next[0] != 0 || next[1] != 0 {
@@ -60,7 +60,7 @@ func (d decoderDbg) parseVarbind(startpos int) (vb asn.Varbind, nextpos int) {
 	tag, nextpos = d.parseInt16(startpos)
 	vb.Tag = asn.Tag(tag)
 	d.log.Writef("parsed Tag: %s", vb.Tag.String())
-	if vb.Tag = asn.Tag(tag); !vb.Tag.IsValueTag() {
+	if vb.Tag = asn.Tag(tag); int16(vb.Tag) != tag || !vb.Tag.IsValueTag() {
 		panic("Unknown value tag")
 	}
 	d.log.Write("parsing 2 reserved bytes")
-- 
2.43.0


From c73ff45655125c128bfbac3c7ef64f05f3fb65b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:35 +0000
Subject: [PATCH 05/10] fix: check the Opaque size against the available data
 before allocating

---
 agentx/encoding.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/agentx/encoding.go b/agentx/encoding.go
index ed55322..8d2dd92 100644
--- a/agentx/encoding.go
+++ b/agentx/encoding.go
@@ -253,8 +253,9 @@ func (d decoder) parseOpaque(data []byte) (val []byte, next []byte) {
 	if size < 0 {
 		panic(ErrEncoding)
 	}
+	bytes := next[:int(size)]
 	val = make([]byte, int(size))
-	copy(val, next[:int(size)])
+	copy(val, bytes)
 	next = next[int(size):]
 	next = d.parsePaddingBytes(next, int(size))
 	return
-- 
2.43.0


From 56aebb2640c5b962c1161fffc8b4899a0debe457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:36 +0000
Subject: [PATCH 06/10] fix: DecodePduPayload rejects data whose size differs
 from the PayloadSize of the header

---
 agentx/pdu.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/agentx/pdu.go b/agentx/pdu.go
index 66961b1..704f516 100644
--- a/agentx/pdu.go
+++ b/agentx/pdu.go
@@ -145,6 +145,10 @@ func DecodePduPayload(pdu *Pdu, data []byte) (ok bool) {
 		}
 	}()
 
+	if ok = len(data) == int(pdu.PayloadSize); !ok {
+		return
+	}
+
 	d := decoder{byteOrder: pdu.Flags.byteOrder()}
 
 	if pdu.Flags&FlagNonDefaultContext != 0 {
-- 
2.43.0


From 6171cc9296adc08c755729c48a465e198a1e1263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:36 +0000
Subject: [PATCH 07/10] fix: refuse to encode a pdu with flags which its type
 does not allow

---
 agentx/pdu.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/agentx/pdu.go b/agentx/pdu.go
index 704f516..f4a3a4d 100644
--- a/agentx/pdu.go
+++ b/agentx/pdu.go
@@ -67,6 +67,9 @@ func EncodePdu(pdu Pdu) (data []byte, ok bool) {
 		ok = false
 		return
 	}
+	if ok = pdu.Tag.NotAllowedFlags(pdu.Flags) == 0; !ok {
+		return
+	}
 
 	// This panics if pdu.Tag is unknown or pdu.Params = nil
 	payloadSize := pdu.countPayloadSize()
@@ -201,6 +204,11 @@ func EncodePduDbg(pdu Pdu, log logger.Log) (data []byte, ok bool) {
 		log.Write("!!! Error. Invalid type of payload params")
 		return
 	}
+	fooFlags := pdu.Tag.NotAllowedFlags(pdu.Flags)
+	if ok = fooFlags == 0; !ok {
+		log.Writef("!!! Error. Flags %s are not allowed for this pdu", fooFlags.String())
+		return
+	}
 
 	payloadSize := pdu.countPayloadSize()
 	pdu.PayloadSize = int32(payloadSize)
-- 
2.43.0


From 2f382ae73b3614329d4b4e679f456c7361f3e092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:37 +0000
Subject: [PATCH 08/10] fix: refuse to encode GetBulk params which no decoder
 accepts

---
 agentx/payload_params.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/agentx/payload_params.go b/agentx/payload_params.go
index 684924a..7a198bf 100644
--- a/agentx/payload_params.go
+++ b/agentx/payload_params.go
@@ -302,6 +302,9 @@ func (GetBulkParams) encodingSize() int {
 }
 
 func (p GetBulkParams) append(e encoder, data []byte) []byte {
+	if p.NonRepeaters < 0 || p.MaxRepeatitions < 0 {
+		panic(ErrEncoding)
+	}
 	data = e.appendInt16(data, p.NonRepeaters)
 	return e.appendInt16(data, p.MaxRepeatitions)
 }
@@ -318,6 +321,10 @@ func parseGetBulkParams(d decoder, data []byte) (PayloadParams, []byte) {
 
 func (p GetBulkParams) appendDbg(e encoderDbg, data []byte) []byte {
 	e.log.Write("appending GetBulkParams")
+	if p.NonRepeaters < 0 || p.MaxRepeatitions < 0 {
+		e.log.Write("!!! Error. NonRepeaters < 0 or MaxRepeatitions < 0")
+		panic(ErrEncoding)
+	}
 	e.log.Write("appending NonRepeaters")
 	data = e.appendInt16(data, p.NonRepeaters)
 	e.log.Write("appending MaxRepeatitions")
-- 
2.43.0


From 914d6b34def0b57fc0facf32ddb7d490263f8d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:37 +0000
Subject: [PATCH 09/10] fix: refuse to encode a pdu whose payload size
 overflows the length field

---
 agentx/pdu.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/agentx/pdu.go b/agentx/pdu.go
index f4a3a4d..96fe01a 100644
--- a/agentx/pdu.go
+++ b/agentx/pdu.go
@@ -1,6 +1,8 @@
 package agentx
 
 import (
+	"math"
+
 	"github.com/alexispb/mygosnmp/asn"
 	"github.com/alexispb/mygosnmp/hex"
 	"github.com/alexispb/mygosnmp/internal"
@@ -73,6 +75,9 @@ func EncodePdu(pdu Pdu) (data []byte, ok bool) {
 
 	// This panics if pdu.Tag is unknown or pdu.Params = nil
 	payloadSize := pdu.countPayloadSize()
+	if ok = payloadSize <= math.MaxInt32; !ok {
+		return
+	}
 	pdu.PayloadSize = int32(payloadSize)
 
 	data = make([]byte, 0, PduHeaderSize+payloadSize)
@@ -211,6 +216,10 @@ func EncodePduDbg(pdu Pdu, log logger.Log) (data []byte, ok bool) {
 	}
 
 	payloadSize := pdu.countPayloadSize()
+	if ok = payloadSize <= math.MaxInt32; !ok {
+		log.Writef("!!! Error. Too large payload size: %d", payloadSize)
+		return
+	}
 	pdu.PayloadSize = int32(payloadSize)
 	log.Writef("counted payload size: %d", payloadSize)
 
-- 
2.43.0


From ba0075b6a434970cf3c7aa40351f0fb8b07f0a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:38 +0000
Subject: [PATCH 10/10] fix: compare a leaf whose oid is a proper prefix of a
 range bound with that bound

---
 oid/node.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oid/node.go b/oid/node.go
index 5ac2591..9617c89 100644
--- a/oid/node.go
+++ b/oid/node.go
@@ -126,7 +126,8 @@ func (node *Node) getNextNode(oid1, oid2 []uint32, include1 bool, repeatition in
 	var iterate func(*Node, int, bool, bool)
 	iterate = func(node *Node, ind int, eq1, eq2 bool) {
 		if len(node.Children) == 0 {
-			if (!eq1 || include1) && !eq2 {
+			// eq1 (eq2) means that the leaf oid is a prefix of oid1 (oid2)
+			if (!eq1 || include1 && ind == len(oid1)) && (!eq2 || ind < len(oid2)) {
 				if repeatition == 1 {
 					resnode = node
 				} else {
-- 
2.43.0

