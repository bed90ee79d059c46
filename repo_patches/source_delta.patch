From c549ea7a542b73e825e382d600e484be880f3b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:56 +0000
Subject: [PATCH 01/36] fix: decode multi-byte item lengths of 256 and more

The length byte was shifted as a byte, so every high length byte was lost.
---
 go.mod                                      | 4 ++--
 lib-secs2-hsms-go/pkg/parser/hsms/parser.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/go.mod b/go.mod
index 9b6630a..62e68a0 100644
--- a/go.mod
+++ b/go.mod
@@ -8,6 +8,8 @@ require (
 	github.com/looplab/fsm v1.0.1
 	github.com/stretchr/testify v1.8.4
 	go.uber.org/atomic v1.11.0
+	go.uber.org/zap v1.27.1
+	gopkg.in/natefinch/lumberjack.v2 v2.2.1
 )
 
 require (
@@ -15,7 +17,5 @@ require (
 	github.com/pmezard/go-difflib v1.0.0 // indirect
 	github.com/spf13/cast v1.10.0 // indirect
 	go.uber.org/multierr v1.10.0 // indirect
-	go.uber.org/zap v1.27.1 // indirect
-	gopkg.in/natefinch/lumberjack.v2 v2.2.1 // indirect
 	gopkg.in/yaml.v3 v3.0.1 // indirect
 )
diff --git a/lib-secs2-hsms-go/pkg/parser/hsms/parser.go b/lib-secs2-hsms-go/pkg/parser/hsms/parser.go
index a6f2671..65a70bf 100644
--- a/lib-secs2-hsms-go/pkg/parser/hsms/parser.go
+++ b/lib-secs2-hsms-go/pkg/parser/hsms/parser.go
@@ -143,7 +143,7 @@ func (p *parser) parseMessageText() (dataItem ast.ItemNode, ok bool) {
 	var length int
 	for i, b := range lengthBytes {
 		shift := (lengthBytesCount - i - 1) * 8
-		length += int(b << shift)
+		length += int(b) << shift
 	}
 	p.pos += lengthBytesCount
 
-- 
2.43.0


From 53a4833968eff44e54e9766056d9bc3156877bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:56 +0000
Subject: [PATCH 02/36] fix: NewHSMSControlMessage must not index past the ten
 header bytes

---
 lib-secs2-hsms-go/pkg/ast/hsms.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib-secs2-hsms-go/pkg/ast/hsms.go b/lib-secs2-hsms-go/pkg/ast/hsms.go
index b1a6d17..741b333 100644
--- a/lib-secs2-hsms-go/pkg/ast/hsms.go
+++ b/lib-secs2-hsms-go/pkg/ast/hsms.go
@@ -54,7 +54,7 @@ type ControlMessage struct {
 func NewHSMSControlMessage(header []byte) HSMSMessage {
 	headerCopy := make([]byte, 10)
 	for i, b := range header {
-		if i > 10 {
+		if i >= 10 {
 			break
 		}
 		headerCopy[i] = b
-- 
2.43.0


From 6ccc6b771842edce8044ff5424a2db0cc328bd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:17 +0000
Subject: [PATCH 03/36] fix: build Reject.req from the rejected message

The constructor accepted no existing message type, so rejecting a message always
panicked, and it copied the session and status bytes as system bytes.
---
 lib-secs2-hsms-go/pkg/ast/hsms.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/lib-secs2-hsms-go/pkg/ast/hsms.go b/lib-secs2-hsms-go/pkg/ast/hsms.go
index 741b333..4214778 100644
--- a/lib-secs2-hsms-go/pkg/ast/hsms.go
+++ b/lib-secs2-hsms-go/pkg/ast/hsms.go
@@ -206,12 +206,12 @@ func NewHSMSMessageRejectReq(sessionID uint16, pType, sType byte, systemBytes []
 }
 
 func NewHSMSMessageRejectReqFromMsg(rejectReq HSMSMessage, reasonCode byte) HSMSMessage {
-	if rejectReq.Type() != "Reject.req" {
-		panic("expected Reject.req message")
+	msg, ok := rejectReq.(*ControlMessage)
+	if !ok {
+		panic("expected control message")
 	}
 
 	header := make([]byte, 10)
-	msg, _ := rejectReq.(*ControlMessage)
 	header[0] = msg.header[0]
 	header[1] = msg.header[1]
 	if reasonCode == 2 {
@@ -221,10 +221,10 @@ func NewHSMSMessageRejectReqFromMsg(rejectReq HSMSMessage, reasonCode byte) HSMS
 	}
 	header[3] = reasonCode
 	header[5] = sTypeRejectReq
-	header[6] = msg.header[0]
-	header[7] = msg.header[1]
-	header[8] = msg.header[2]
-	header[9] = msg.header[3]
+	header[6] = msg.header[6]
+	header[7] = msg.header[7]
+	header[8] = msg.header[8]
+	header[9] = msg.header[9]
 
 	return &ControlMessage{header}
 }
-- 
2.43.0


From e90e6fb3f53b9587aa7c4605d836cefa61803eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:17 +0000
Subject: [PATCH 04/36] fix: refuse negative values in unsigned items

A negative value wrapped around and, at width 8, was stored as a huge number.
---
 lib-secs2-hsms-go/pkg/ast/uint.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/lib-secs2-hsms-go/pkg/ast/uint.go b/lib-secs2-hsms-go/pkg/ast/uint.go
index fe6f131..fde0867 100644
--- a/lib-secs2-hsms-go/pkg/ast/uint.go
+++ b/lib-secs2-hsms-go/pkg/ast/uint.go
@@ -49,14 +49,29 @@ func NewUintNode(byteSize int, values ...interface{}) ItemNode {
 	for i, value := range values {
 		switch value := value.(type) {
 		case int:
+			if value < 0 {
+				panic("value overflow")
+			}
 			nodeValues = append(nodeValues, uint64(value))
 		case int8:
+			if value < 0 {
+				panic("value overflow")
+			}
 			nodeValues = append(nodeValues, uint64(value))
 		case int16:
+			if value < 0 {
+				panic("value overflow")
+			}
 			nodeValues = append(nodeValues, uint64(value))
 		case int32:
+			if value < 0 {
+				panic("value overflow")
+			}
 			nodeValues = append(nodeValues, uint64(value))
 		case int64:
+			if value < 0 {
+				panic("value overflow")
+			}
 			nodeValues = append(nodeValues, uint64(value))
 		case uint:
 			nodeValues = append(nodeValues, uint64(value))
-- 
2.43.0


From 14bf5b0820aaedc55c76405ed4f0afe916b74d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:18 +0000
Subject: [PATCH 05/36] fix: refuse uint values above MaxInt64 in signed items
 instead of wrapping them

---
 lib-secs2-hsms-go/pkg/ast/int.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib-secs2-hsms-go/pkg/ast/int.go b/lib-secs2-hsms-go/pkg/ast/int.go
index 45e490e..2b00def 100644
--- a/lib-secs2-hsms-go/pkg/ast/int.go
+++ b/lib-secs2-hsms-go/pkg/ast/int.go
@@ -53,6 +53,9 @@ func NewIntNode(byteSize int, values ...interface{}) ItemNode {
 		case int64:
 			nodeValues = append(nodeValues, value)
 		case uint:
+			if uint64(value) > math.MaxInt64 {
+				panic("value overflow")
+			}
 			nodeValues = append(nodeValues, int64(value))
 		case uint8:
 			nodeValues = append(nodeValues, int64(value))
-- 
2.43.0


From 8d3388adf70cbccf7783a2f76e87992b534ff073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:18 +0000
Subject: [PATCH 06/36] fix: refuse malformed binary literals in binary items

A literal such as "0b2" was silently stored as 0.
---
 lib-secs2-hsms-go/pkg/ast/binary.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib-secs2-hsms-go/pkg/ast/binary.go b/lib-secs2-hsms-go/pkg/ast/binary.go
index 4ce63b9..a384b50 100644
--- a/lib-secs2-hsms-go/pkg/ast/binary.go
+++ b/lib-secs2-hsms-go/pkg/ast/binary.go
@@ -54,7 +54,10 @@ func NewBinaryNode(values ...interface{}) ItemNode {
 			nodeValues = append(nodeValues, int(v))
 		case string:
 			if strings.HasPrefix(v, "0b") {
-				vAsInt64, _ := strconv.ParseInt(v, 0, 0)
+				vAsInt64, err := strconv.ParseInt(v, 0, 0)
+				if err != nil {
+					panic("invalid binary value")
+				}
 				nodeValues = append(nodeValues, int(vAsInt64))
 			} else {
 				if _, ok := nodeVariables[v]; ok {
-- 
2.43.0


From 9ca68a6c1b06cc37098adb2f20e6a26edecc5a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:18 +0000
Subject: [PATCH 07/36] fix: refuse data messages with bytes after the item

---
 lib-secs2-hsms-go/pkg/parser/hsms/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib-secs2-hsms-go/pkg/parser/hsms/parser.go b/lib-secs2-hsms-go/pkg/parser/hsms/parser.go
index 65a70bf..b674d16 100644
--- a/lib-secs2-hsms-go/pkg/parser/hsms/parser.go
+++ b/lib-secs2-hsms-go/pkg/parser/hsms/parser.go
@@ -107,7 +107,7 @@ func (p *parser) parseMessage() (ok bool) {
 		sessionID := int(binary.BigEndian.Uint16(headerBytes[:2]))
 		systemBytes := headerBytes[6:10]
 		dataItem, ok := p.parseMessageText()
-		if !ok {
+		if !ok || p.pos != len(p.input) {
 			return false
 		}
 		p.msg = ast.NewHSMSDataMessage("", stream, function, waitBit, "H<->E", dataItem, sessionID, systemBytes)
-- 
2.43.0


From d42585bcd18876ffe42c9e33e32ba04f87d1e682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:18 +0000
Subject: [PATCH 08/36] fix: refuse lists longer than the message before
 allocating them

Nested list headers announcing 16M elements each exhausted memory.
---
 lib-secs2-hsms-go/pkg/parser/hsms/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib-secs2-hsms-go/pkg/parser/hsms/parser.go b/lib-secs2-hsms-go/pkg/parser/hsms/parser.go
index b674d16..e22b1b3 100644
--- a/lib-secs2-hsms-go/pkg/parser/hsms/parser.go
+++ b/lib-secs2-hsms-go/pkg/parser/hsms/parser.go
@@ -149,6 +149,9 @@ func (p *parser) parseMessageText() (dataItem ast.ItemNode, ok bool) {
 
 	switch formatCode {
 	case formatCodeList:
+		if length > (len(p.input)-p.pos)/2 { // an item takes at least 2 bytes
+			return ast.NewEmptyItemNode(), false
+		}
 		values := make([]interface{}, length)
 		for i := 0; i < length; i++ {
 			values[i], ok = p.parseMessageText()
-- 
2.43.0


From a152dec491dc3e412a286f71ce956e2f35c8f143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:41 +0000
Subject: [PATCH 09/36] fix: decode text items in linear time

Appending one character at a time took quadratic time: minutes for a 1 MB text.
---
 lib-secs2-hsms-go/pkg/parser/hsms/parser.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/lib-secs2-hsms-go/pkg/parser/hsms/parser.go b/lib-secs2-hsms-go/pkg/parser/hsms/parser.go
index e22b1b3..0175476 100644
--- a/lib-secs2-hsms-go/pkg/parser/hsms/parser.go
+++ b/lib-secs2-hsms-go/pkg/parser/hsms/parser.go
@@ -162,10 +162,7 @@ func (p *parser) parseMessageText() (dataItem ast.ItemNode, ok bool) {
 		return ast.NewListNode(values...), true
 
 	case formatCodeASCII:
-		var str string
-		for _, v := range p.input[p.pos : p.pos+length] {
-			str += string(v)
-		}
+		str := string(p.input[p.pos : p.pos+length])
 		p.pos += length
 		return ast.NewASCIINode(str), true
 
-- 
2.43.0


From 355be0c7b83bb5770221fc008924fdf63700d2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:41 +0000
Subject: [PATCH 10/36] fix: refuse messages whose lists are nested too deeply

Decoding recurses per level, so a frame of nested one-element lists overflowed
the goroutine stack, which cannot be recovered and ends the process.
---
 lib-secs2-hsms-go/pkg/parser/hsms/parser.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib-secs2-hsms-go/pkg/parser/hsms/parser.go b/lib-secs2-hsms-go/pkg/parser/hsms/parser.go
index 0175476..96c93d3 100644
--- a/lib-secs2-hsms-go/pkg/parser/hsms/parser.go
+++ b/lib-secs2-hsms-go/pkg/parser/hsms/parser.go
@@ -42,6 +42,8 @@ const (
 	formatCodeU1      = 0o51
 	formatCodeU2      = 0o52
 	formatCodeU4      = 0o54
+
+	maxItemDepth = 4096 // lists nested deeper than this are refused
 )
 
 // Parse parses the input bytes that represent a HSMS message.
@@ -71,6 +73,7 @@ type parser struct {
 	input     []byte          // a HSMS input message in bytes
 	pos       int             // current position in input
 	msgLength int             // message length (excluding length bytes)
+	depth     int             // number of lists around the item being parsed
 	msg       ast.HSMSMessage // parsed HSMS message
 }
 
@@ -152,6 +155,10 @@ func (p *parser) parseMessageText() (dataItem ast.ItemNode, ok bool) {
 		if length > (len(p.input)-p.pos)/2 { // an item takes at least 2 bytes
 			return ast.NewEmptyItemNode(), false
 		}
+		if p.depth >= maxItemDepth {
+			return ast.NewEmptyItemNode(), false
+		}
+		p.depth += 1
 		values := make([]interface{}, length)
 		for i := 0; i < length; i++ {
 			values[i], ok = p.parseMessageText()
@@ -159,6 +166,7 @@ func (p *parser) parseMessageText() (dataItem ast.ItemNode, ok bool) {
 				return ast.NewEmptyItemNode(), false
 			}
 		}
+		p.depth -= 1
 		return ast.NewListNode(values...), true
 
 	case formatCodeASCII:
-- 
2.43.0


From 921e605a3e28dcb1b2b3caf5a8418e1fe1fe5323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:33 +0000
Subject: [PATCH 11/36] fix: hand out copies of the values and system bytes of
 immutable items and messages

---
 lib-secs2-hsms-go/pkg/ast/ast.go     | 4 +++-
 lib-secs2-hsms-go/pkg/ast/binary.go  | 4 +++-
 lib-secs2-hsms-go/pkg/ast/boolean.go | 4 +++-
 lib-secs2-hsms-go/pkg/ast/float.go   | 4 +++-
 lib-secs2-hsms-go/pkg/ast/hsms.go    | 4 +++-
 lib-secs2-hsms-go/pkg/ast/int.go     | 4 +++-
 lib-secs2-hsms-go/pkg/ast/list.go    | 4 +++-
 lib-secs2-hsms-go/pkg/ast/uint.go    | 4 +++-
 8 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/lib-secs2-hsms-go/pkg/ast/ast.go b/lib-secs2-hsms-go/pkg/ast/ast.go
index 743615d..5340e85 100644
--- a/lib-secs2-hsms-go/pkg/ast/ast.go
+++ b/lib-secs2-hsms-go/pkg/ast/ast.go
@@ -197,7 +197,9 @@ func (node *DataMessage) SessionID() int {
 // SystemBytes returns the system bytes of the SECS-II message.
 // If the system bytes was not set, it will return []byte{0, 0, 0, 0}.
 func (node *DataMessage) SystemBytes() []byte {
-	return node.systemBytes
+	systemBytes := make([]byte, len(node.systemBytes))
+	copy(systemBytes, node.systemBytes)
+	return systemBytes
 }
 
 // SetSessionIDAndSystemBytes sets session id and system bytes to the message.
diff --git a/lib-secs2-hsms-go/pkg/ast/binary.go b/lib-secs2-hsms-go/pkg/ast/binary.go
index a384b50..71d1d5c 100644
--- a/lib-secs2-hsms-go/pkg/ast/binary.go
+++ b/lib-secs2-hsms-go/pkg/ast/binary.go
@@ -21,7 +21,9 @@ type BinaryNode struct {
 }
 
 func (node *BinaryNode) Values() interface{} {
-	return node.values
+	values := make([]int, len(node.values))
+	copy(values, node.values)
+	return values
 }
 
 func (node *BinaryNode) Type() string {
diff --git a/lib-secs2-hsms-go/pkg/ast/boolean.go b/lib-secs2-hsms-go/pkg/ast/boolean.go
index 938a9ef..11cb255 100644
--- a/lib-secs2-hsms-go/pkg/ast/boolean.go
+++ b/lib-secs2-hsms-go/pkg/ast/boolean.go
@@ -19,7 +19,9 @@ type BooleanNode struct {
 }
 
 func (node *BooleanNode) Values() interface{} {
-	return node.values
+	values := make([]bool, len(node.values))
+	copy(values, node.values)
+	return values
 }
 
 func (node *BooleanNode) Type() string {
diff --git a/lib-secs2-hsms-go/pkg/ast/float.go b/lib-secs2-hsms-go/pkg/ast/float.go
index f79b563..9c238c9 100644
--- a/lib-secs2-hsms-go/pkg/ast/float.go
+++ b/lib-secs2-hsms-go/pkg/ast/float.go
@@ -29,7 +29,9 @@ type FloatNode struct {
 }
 
 func (node *FloatNode) Values() interface{} {
-	return node.values
+	values := make([]float64, len(node.values))
+	copy(values, node.values)
+	return values
 }
 
 func (node *FloatNode) Type() string {
diff --git a/lib-secs2-hsms-go/pkg/ast/hsms.go b/lib-secs2-hsms-go/pkg/ast/hsms.go
index 4214778..0d78578 100644
--- a/lib-secs2-hsms-go/pkg/ast/hsms.go
+++ b/lib-secs2-hsms-go/pkg/ast/hsms.go
@@ -283,7 +283,9 @@ func (msg *ControlMessage) ToBytes() []byte {
 }
 
 func (msg *ControlMessage) SystemBytes() []byte {
-	return msg.header[6:10]
+	systemBytes := make([]byte, 4)
+	copy(systemBytes, msg.header[6:10])
+	return systemBytes
 }
 
 // SessionID returns the session identifier encoded in the control message header.
diff --git a/lib-secs2-hsms-go/pkg/ast/int.go b/lib-secs2-hsms-go/pkg/ast/int.go
index 2b00def..94ab1d3 100644
--- a/lib-secs2-hsms-go/pkg/ast/int.go
+++ b/lib-secs2-hsms-go/pkg/ast/int.go
@@ -95,7 +95,9 @@ func (node *IntNode) Get(indices ...int) (ItemNode, error) {
 }
 
 func (node *IntNode) Values() interface{} {
-	return node.values
+	values := make([]int64, len(node.values))
+	copy(values, node.values)
+	return values
 }
 
 func (node *IntNode) Type() string {
diff --git a/lib-secs2-hsms-go/pkg/ast/list.go b/lib-secs2-hsms-go/pkg/ast/list.go
index 0dd50ba..f2d5fed 100644
--- a/lib-secs2-hsms-go/pkg/ast/list.go
+++ b/lib-secs2-hsms-go/pkg/ast/list.go
@@ -48,7 +48,9 @@ type ListNode struct {
 }
 
 func (node *ListNode) Values() interface{} {
-	return node.values
+	values := make([]ItemNode, len(node.values))
+	copy(values, node.values)
+	return values
 }
 
 func (node *ListNode) Type() string {
diff --git a/lib-secs2-hsms-go/pkg/ast/uint.go b/lib-secs2-hsms-go/pkg/ast/uint.go
index fde0867..45d26a8 100644
--- a/lib-secs2-hsms-go/pkg/ast/uint.go
+++ b/lib-secs2-hsms-go/pkg/ast/uint.go
@@ -22,7 +22,9 @@ type UintNode struct {
 }
 
 func (node *UintNode) Values() interface{} {
-	return node.values
+	values := make([]uint64, len(node.values))
+	copy(values, node.values)
+	return values
 }
 
 func (node *UintNode) Type() string {
-- 
2.43.0


From bbb5c9ab1834ddebb49858ef39f475e6ecc410a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:47 +0000
Subject: [PATCH 12/36] fix: enforce the send limit and refuse negative sizes
 in the fixed length codec

---
 codec/fixlen.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/codec/fixlen.go b/codec/fixlen.go
index 3425c7e..ddc0004 100644
--- a/codec/fixlen.go
+++ b/codec/fixlen.go
@@ -123,7 +123,7 @@ func (c *fixlenCodec) Receive() (interface{}, error) {
 		return nil, err
 	}
 	size := c.headDecoder(c.headBuf)
-	if size > c.maxRecv {
+	if size < 0 || size > c.maxRecv {
 		return nil, ErrTooLargePacket
 	}
 	if cap(c.bodyBuf) < size {
@@ -146,7 +146,11 @@ func (c *fixlenCodec) Send(msg interface{}) error {
 		return err
 	}
 	buff := c.sendBuf.Bytes()
-	c.headEncoder(buff, len(buff)-c.n)
+	size := len(buff) - c.n
+	if size > c.maxSend {
+		return ErrTooLargePacket
+	}
+	c.headEncoder(buff, size)
 	_, err = c.rw.Write(buff)
 	return err
 }
-- 
2.43.0


From 6b37fc21a6ed1008a8a5bd21a9c7be5298ff7a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:13 +0000
Subject: [PATCH 13/36] fix: do not crash when the connection is lost while a
 control message is being sent

---
 hsms/connection.go | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/hsms/connection.go b/hsms/connection.go
index a635b6e..71bde0a 100644
--- a/hsms/connection.go
+++ b/hsms/connection.go
@@ -48,23 +48,25 @@ func (c *HsmsConnection) SetSession(session *link.Session) {
 }
 
 func (c *HsmsConnection) Send(msg interface{}) error {
-	if c.connection == nil {
+	connection := c.connection
+	if connection == nil {
 		return ErrNotConnected
 	}
-	return c.connection.Send(msg)
+	return connection.Send(msg)
 }
 
 func (c *HsmsConnection) Close() error {
-	if c.connection == nil {
+	connection := c.connection
+	if connection == nil {
 		return nil
 	}
-	return c.connection.Close()
+	return connection.Close()
 }
 
 func (c *HsmsConnection) sendRejectRsp(packet ast.HSMSMessage, reasonCode byte) {
 	rejectReq := ast.NewHSMSMessageRejectReqFromMsg(packet, reasonCode)
 	c.hp.logControlMessage("TX", rejectReq)
-	if err := c.connection.Send(rejectReq.ToBytes()); err != nil {
+	if err := c.Send(rejectReq.ToBytes()); err != nil {
 		c.hp.logger.Error("send reject rsp failed", "error", err)
 	}
 }
@@ -76,7 +78,7 @@ func (c *HsmsConnection) sendLinktestReq() {
 
 	message := ast.NewHSMSMessageLinktestReq(c.hp.encodeSystemID(systemID))
 	c.hp.logControlMessage("TX", message)
-	if err := c.connection.Send(message.ToBytes()); err != nil {
+	if err := c.Send(message.ToBytes()); err != nil {
 		c.hp.logger.Error("send linktest.req failed", "error", err)
 		return
 	}
@@ -89,7 +91,7 @@ func (c *HsmsConnection) sendLinktestReq() {
 func (c *HsmsConnection) sendDeselectRsp(message ast.HSMSMessage, status ControlStatus) {
 	response := ast.NewHSMSMessageDeselectRsp(message, byte(status))
 	c.hp.logControlMessage("TX", response)
-	if err := c.connection.Send(response.ToBytes()); err != nil {
+	if err := c.Send(response.ToBytes()); err != nil {
 		c.hp.logger.Error("send deselect.rsp failed", "error", err)
 	}
 }
@@ -97,7 +99,7 @@ func (c *HsmsConnection) sendDeselectRsp(message ast.HSMSMessage, status Control
 func (c *HsmsConnection) sendSelectRsp(message ast.HSMSMessage, status ControlStatus) {
 	response := ast.NewHSMSMessageSelectRsp(message, byte(status))
 	c.hp.logControlMessage("TX", response)
-	if err := c.connection.Send(response.ToBytes()); err != nil {
+	if err := c.Send(response.ToBytes()); err != nil {
 		c.hp.logger.Error("send select.rsp failed", "error", err)
 	}
 }
@@ -105,7 +107,7 @@ func (c *HsmsConnection) sendSelectRsp(message ast.HSMSMessage, status ControlSt
 func (c *HsmsConnection) sendLinkTestRsp(message ast.HSMSMessage) {
 	response := ast.NewHSMSMessageLinktestRsp(message)
 	c.hp.logControlMessage("TX", response)
-	if err := c.connection.Send(response.ToBytes()); err != nil {
+	if err := c.Send(response.ToBytes()); err != nil {
 		c.hp.logger.Error("send linktest.rsp failed", "error", err)
 	}
 }
@@ -113,7 +115,7 @@ func (c *HsmsConnection) sendLinkTestRsp(message ast.HSMSMessage) {
 func (c *HsmsConnection) sendReject(message ast.HSMSMessage, reason RejectReason) {
 	reject := ast.NewHSMSMessageRejectReqFromMsg(message, byte(reason))
 	c.hp.logControlMessage("TX", reject)
-	if err := c.connection.Send(reject.ToBytes()); err != nil {
+	if err := c.Send(reject.ToBytes()); err != nil {
 		c.hp.logger.Error("send reject.req failed", "error", err)
 	}
 }
@@ -125,7 +127,7 @@ func (c *HsmsConnection) sendSelectReq() error {
 
 	request := ast.NewHSMSMessageSelectReq(uint16(c.hp.sessionID), c.hp.encodeSystemID(systemID))
 	c.hp.logControlMessage("TX", request)
-	if err := c.connection.Send(request.ToBytes()); err != nil {
+	if err := c.Send(request.ToBytes()); err != nil {
 		c.hp.logger.Error("send select.req failed", "error", err)
 		return err
 	}
@@ -158,7 +160,7 @@ func (c *HsmsConnection) sendDeselectReq() error {
 
 	request := ast.NewHSMSMessageDeselectReq(uint16(c.hp.sessionID), c.hp.encodeSystemID(systemID))
 	c.hp.logControlMessage("TX", request)
-	if err := c.connection.Send(request.ToBytes()); err != nil {
+	if err := c.Send(request.ToBytes()); err != nil {
 		c.hp.logger.Error("send deselect.req failed", "error", err)
 		return err
 	}
-- 
2.43.0


From 72f4a141f478cc565b1e181c5fde73a72989e081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:03 +0000
Subject: [PATCH 14/36] fix: a message put while a consumer begins to wait or
 times out was not delivered

The notification was lost when the consumer was between releasing the lock and
blocking, and with several consumers only one of them was woken. Keep one pending
notification, pass it on, and look at the queue once more at the deadline.
---
 utils/queue.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/utils/queue.go b/utils/queue.go
index e063378..022b294 100644
--- a/utils/queue.go
+++ b/utils/queue.go
@@ -14,13 +14,19 @@ type Deque struct {
 }
 
 func NewDeque() *Deque {
-	return &Deque{container: list.New(), notEmptyNotify: make(chan struct{})}
+	return &Deque{container: list.New(), notEmptyNotify: make(chan struct{}, 1)}
 }
 
 func (s *Deque) Put(item interface{}) {
 	s.Lock()
 	s.container.PushFront(item)
 	s.Unlock()
+	s.notify()
+}
+
+// notify leaves a token for a waiting consumer; one pending token is enough, since a consumer
+// that leaves items behind passes it on.
+func (s *Deque) notify() {
 	select {
 	case s.notEmptyNotify <- struct{}{}:
 	default:
@@ -28,28 +34,30 @@ func (s *Deque) Put(item interface{}) {
 }
 
 func (s *Deque) Get(timeout int) (interface{}, error) {
-	s.Lock()
 	var item interface{} = nil
 	var lastContainerItem *list.Element = nil
 	endTime := time.Now().Add(time.Duration(timeout) * time.Second)
 	for {
+		remaining := endTime.Sub(time.Now())
+		s.Lock()
 		if s.container.Back() != nil {
 			break
 		}
-		remaining := endTime.Sub(time.Now())
 		s.Unlock()
-		if remaining < 0 {
+		if remaining <= 0 {
 			return nil, errors.New("time out in Get")
 		}
 		select {
 		case <-s.notEmptyNotify:
 		case <-time.After(remaining):
-			return nil, errors.New("time out in Get")
 		}
-		s.Lock()
 	}
 	lastContainerItem = s.container.Back()
 	item = s.container.Remove(lastContainerItem)
+	more := s.container.Back() != nil
 	s.Unlock()
+	if more {
+		s.notify()
+	}
 	return item, nil
 }
-- 
2.43.0


From 43429c70feb9460e51ecea3c27c404778ce8fb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:51 +0000
Subject: [PATCH 15/36] fix: a select.req while selected and a deselect.req
 while not selected were accepted

SEMI E37 asks for status 1 (communication already active / not established).
---
 hsms/protocol.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/hsms/protocol.go b/hsms/protocol.go
index 8520fa6..9ddf18f 100644
--- a/hsms/protocol.go
+++ b/hsms/protocol.go
@@ -532,6 +532,11 @@ func (p *HsmsProtocol) handleHsmsRequests(message ast.HSMSMessage) {
 			p.hsmsConnection.sendReject(message, RejectReasonNotReady)
 			return
 		}
+		if p.connectionState.CurrentState() == StateConnectedSelected {
+			// status 1: communication is already active
+			p.hsmsConnection.sendSelectRsp(message, ControlStatusDenied)
+			return
+		}
 		p.hsmsConnection.sendSelectRsp(message, ControlStatusAccepted)
 		if err := p.connectionState.Select(); err != nil {
 			p.logger.Error("change state to SELECTED failed", "error", err)
@@ -564,6 +569,11 @@ func (p *HsmsProtocol) handleHsmsRequests(message ast.HSMSMessage) {
 			p.hsmsConnection.sendReject(message, RejectReasonNotReady)
 			return
 		}
+		if p.connectionState.CurrentState() != StateConnectedSelected {
+			// status 1: communication is not established
+			p.hsmsConnection.sendDeselectRsp(message, ControlStatusDenied)
+			return
+		}
 		p.hsmsConnection.sendDeselectRsp(message, ControlStatusAccepted)
 		if err := p.connectionState.Deselect(); err != nil {
 			p.logger.Error("change state to NOT-SELECTED failed", "error", err)
-- 
2.43.0


From 2088bac7b7a7be1805b38470b95e254b4ad2b9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:51 +0000
Subject: [PATCH 16/36] fix: a refused deselect ended the selected state

---
 hsms/protocol.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hsms/protocol.go b/hsms/protocol.go
index 9ddf18f..b04c0ee 100644
--- a/hsms/protocol.go
+++ b/hsms/protocol.go
@@ -580,8 +580,10 @@ func (p *HsmsProtocol) handleHsmsRequests(message ast.HSMSMessage) {
 		}
 
 	case hsms.DeselectRspStr:
-		if err := p.connectionState.Deselect(); err != nil {
-			p.logger.Error("change state to NOT-SELECTED failed", "error", err)
+		if ctrl, ok := message.(*ast.ControlMessage); ok && ControlStatus(ctrl.Status()) == ControlStatusAccepted {
+			if err := p.connectionState.Deselect(); err != nil {
+				p.logger.Error("change state to NOT-SELECTED failed", "error", err)
+			}
 		}
 		if queue, ok := p.fetchQueue(systemID); ok {
 			queue.Put(message)
-- 
2.43.0


From 6e952e8257122debb99915572b45c980236f5bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:06 +0000
Subject: [PATCH 17/36] fix: reply only to messages that request a reply, with
 the session of the request

invokeHandler answered messages received without wait bit and put the
local session ID, not that of the request, into the reply.
---
 hsms/protocol.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hsms/protocol.go b/hsms/protocol.go
index b04c0ee..0d558e3 100644
--- a/hsms/protocol.go
+++ b/hsms/protocol.go
@@ -632,7 +632,12 @@ func (p *HsmsProtocol) invokeHandler(handler DataMessageHandler, msg *ast.DataMe
 		return
 	}
 
-	response = response.SetSessionIDAndSystemBytes(p.sessionID, msg.SystemBytes())
+	if msg.WaitBit() != "true" {
+		p.logger.Debug("reply not requested, handler response dropped", "stream", msg.StreamCode(), "function", msg.FunctionCode())
+		return
+	}
+
+	response = response.SetSessionIDAndSystemBytes(msg.SessionID(), msg.SystemBytes())
 	if response.WaitBit() == "optional" {
 		response = response.SetWaitBit(false)
 	}
-- 
2.43.0


From bfb71817b51d17588881e5da787ad592a54788c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:26 +0000
Subject: [PATCH 18/36] fix: S9F3 and S9F5 carry the header of the offending
 message

They carried one byte (the stream or the function) instead of the ten
header bytes that identify the message.
---
 hsms/protocol_s9_helpers.go | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/hsms/protocol_s9_helpers.go b/hsms/protocol_s9_helpers.go
index 1c3505c..6455a5e 100644
--- a/hsms/protocol_s9_helpers.go
+++ b/hsms/protocol_s9_helpers.go
@@ -25,11 +25,11 @@ func (p *HsmsProtocol) sendS9ErrorForUnrecognized(message *ast.DataMessage) {
 
 	if !isKnownStream {
 		// Unknown stream - send S9F3
-		s9Message = BuildS9F3(byte(stream), systemBytes)
+		s9Message = buildS9WithHeader(S9F3UnrecognizedStream, message)
 		p.logger.Info("unrecognized stream, sending S9F3", "stream", stream, "function", function)
 	} else {
 		// Known stream but unknown function - send S9F5
-		s9Message = BuildS9F5(byte(function), systemBytes)
+		s9Message = buildS9WithHeader(S9F5UnrecognizedFunction, message)
 		p.logger.Info("unrecognized function, sending S9F5", "stream", stream, "function", function)
 	}
 
@@ -107,12 +107,8 @@ func (p *HsmsProtocol) sendS9F11DataTooLong(systemBytes []byte) {
 	}
 }
 
-// sendS9F9TransactionTimeout sends S9F9 for T3 transaction timeout
-func (p *HsmsProtocol) sendS9F9TransactionTimeout(originalMsg *ast.DataMessage) {
-	// S9F9: Transaction Timer Timeout
-	// W: <B [10] SHeader>
-	// The stored header of the message associated with the transaction timer timeout.
-
+// messageHeader returns the ten header bytes of a data message
+func messageHeader(originalMsg *ast.DataMessage) []byte {
 	// We need to reconstruct the 10-byte header from the original message
 	// Device ID (2 bytes), Stream (1 byte), Function (1 byte), PType (1 byte), SType (1 byte), System Bytes (4 bytes)
 
@@ -141,7 +137,26 @@ func (p *HsmsProtocol) sendS9F9TransactionTimeout(originalMsg *ast.DataMessage)
 		copy(headerBytes[6:], sysBytes[:4])
 	}
 
-	s9Message := BuildS9F9(headerBytes, nil)
+	return headerBytes
+}
+
+// buildS9WithHeader creates a stream 9 message whose text is the header of the offending message.
+// W: <B [10] MHEAD>
+func buildS9WithHeader(function int, message *ast.DataMessage) *ast.DataMessage {
+	values := make([]interface{}, 0, 10)
+	for _, b := range messageHeader(message) {
+		values = append(values, b)
+	}
+	return ast.NewHSMSDataMessage("", 9, function, 0, "H<-E", ast.NewBinaryNode(values...), 0, message.SystemBytes())
+}
+
+// sendS9F9TransactionTimeout sends S9F9 for T3 transaction timeout
+func (p *HsmsProtocol) sendS9F9TransactionTimeout(originalMsg *ast.DataMessage) {
+	// S9F9: Transaction Timer Timeout
+	// W: <B [10] SHeader>
+	// The stored header of the message associated with the transaction timer timeout.
+
+	s9Message := BuildS9F9(messageHeader(originalMsg), nil)
 
 	if s9Message != nil {
 		// Set session ID and ensure no wait bit for error message
-- 
2.43.0


From 17ae9ba2bc2f53485530a2ea72585d91906c2f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:27 +0000
Subject: [PATCH 19/36] fix: equipment replies S2F18, S2F32, S5F4, S5F6 and
 S5F8 use a valid message direction

---
 gem/alarm_handlers.go | 6 +++---
 gem/clock_handlers.go | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/gem/alarm_handlers.go b/gem/alarm_handlers.go
index bb5ade2..1a8a932 100644
--- a/gem/alarm_handlers.go
+++ b/gem/alarm_handlers.go
@@ -119,7 +119,7 @@ func (g *GemHandler) onS5F7(msg *ast.DataMessage) (*ast.DataMessage, error) {
 //   3 - At least one ALID cannot be enabled
 func (g *GemHandler) buildS5F4(ackc5 byte) *ast.DataMessage {
 	body := ast.NewBinaryNode(int(ackc5))
-	return ast.NewDataMessage("EnableAlarmAck", 5, 4, 0, "E->H", body)
+	return ast.NewDataMessage("EnableAlarmAck", 5, 4, 0, "H<-E", body)
 }
 
 // buildS5F6 creates S5F6 response with alarm list.
@@ -146,7 +146,7 @@ func (g *GemHandler) buildS5F6(alarms []AlarmInfo) *ast.DataMessage {
 	}
 
 	body := ast.NewListNode(items...)
-	return ast.NewDataMessage("AlarmListData", 5, 6, 0, "E->H", body)
+	return ast.NewDataMessage("AlarmListData", 5, 6, 0, "H<-E", body)
 }
 
 // buildS5F8 creates S5F8 response with enabled alarm list (same format as S5F6).
@@ -169,7 +169,7 @@ func (g *GemHandler) buildS5F8(alarms []AlarmInfo) *ast.DataMessage {
 	}
 
 	body := ast.NewListNode(items...)
-	return ast.NewDataMessage("EnabledAlarmListData", 5, 8, 0, "E->H", body)
+	return ast.NewDataMessage("EnabledAlarmListData", 5, 8, 0, "H<-E", body)
 }
 
 // Public APIs for alarm management (Equipment side)
diff --git a/gem/clock_handlers.go b/gem/clock_handlers.go
index cf81a7c..3761ad5 100644
--- a/gem/clock_handlers.go
+++ b/gem/clock_handlers.go
@@ -15,7 +15,7 @@ func (g *GemHandler) onS2F17(msg *ast.DataMessage) (*ast.DataMessage, error) {
 
 	// Build S2F18 response
 	body := ast.NewASCIINode(timeStr)
-	return ast.NewDataMessage("DateTimeData", 2, 18, 0, "E->H", body), nil
+	return ast.NewDataMessage("DateTimeData", 2, 18, 0, "H<-E", body), nil
 }
 
 // onS2F31 handles Date and Time Set Request (Equipment side).
@@ -54,7 +54,7 @@ func (g *GemHandler) onS2F31(msg *ast.DataMessage) (*ast.DataMessage, error) {
 // buildS2F32 creates S2F32 response with TIACK code.
 func (g *GemHandler) buildS2F32(tiack byte) *ast.DataMessage {
 	body := ast.NewBinaryNode(int(tiack))
-	return ast.NewDataMessage("DateTimeSetAck", 2, 32, 0, "E->H", body)
+	return ast.NewDataMessage("DateTimeSetAck", 2, 32, 0, "H<-E", body)
 }
 
 // Public APIs for clock management
-- 
2.43.0


From ed19da2ca809c0e88c192d66b15cc5bc7c79757f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:27 +0000
Subject: [PATCH 20/36] fix: absent values in GEM lists are sent as empty
 lists, not as empty items

---
 gem/collection_event_handlers.go |  4 ++--
 gem/process_program_handlers.go  | 10 +++++-----
 gem/remote_command.go            |  2 +-
 gem/status_equipment_handlers.go | 24 ++++++++++++------------
 gem/status_equipment_messages.go |  8 ++++----
 5 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/gem/collection_event_handlers.go b/gem/collection_event_handlers.go
index 6743e92..2a6edc5 100644
--- a/gem/collection_event_handlers.go
+++ b/gem/collection_event_handlers.go
@@ -141,7 +141,7 @@ func (g *GemHandler) collectReportValues(report *ReportDefinition) []interface{}
 		if node := g.resolveVIDValue(vidKey); node != nil {
 			values = append(values, node)
 		} else {
-			values = append(values, ast.NewEmptyItemNode())
+			values = append(values, ast.NewListNode())
 		}
 	}
 	return values
@@ -171,7 +171,7 @@ func safeDataVariableValue(variable *DataVariable, logger common.Logger) ast.Ite
 		if err != nil {
 			logger.Error("data variable value error", "dvid", variable.ID(), "error", err)
 		}
-		return ast.NewEmptyItemNode()
+		return ast.NewListNode()
 	}
 	return value
 }
diff --git a/gem/process_program_handlers.go b/gem/process_program_handlers.go
index 4cbf641..cc7832b 100644
--- a/gem/process_program_handlers.go
+++ b/gem/process_program_handlers.go
@@ -80,20 +80,20 @@ func (g *GemHandler) onS7F3(msg *ast.DataMessage) (*ast.DataMessage, error) {
 
 func (g *GemHandler) onS7F5(msg *ast.DataMessage) (*ast.DataMessage, error) {
 	if msg == nil {
-		return g.buildS7F6(ast.NewEmptyItemNode(), "", 1), nil
+		return g.buildS7F6(ast.NewListNode(), "", 1), nil
 	}
 	root, err := msg.Get()
 	if err != nil {
-		return g.buildS7F6(ast.NewEmptyItemNode(), "", 1), nil
+		return g.buildS7F6(ast.NewListNode(), "", 1), nil
 	}
 	var ppidNode ast.ItemNode
 	if list, ok := root.(*ast.ListNode); ok {
 		if list.Size() == 0 {
-			return g.buildS7F6(ast.NewEmptyItemNode(), "", 1), nil
+			return g.buildS7F6(ast.NewListNode(), "", 1), nil
 		}
 		first, err := list.Get(0)
 		if err != nil {
-			return g.buildS7F6(ast.NewEmptyItemNode(), "", 1), nil
+			return g.buildS7F6(ast.NewListNode(), "", 1), nil
 		}
 		ppidNode = first
 	} else {
@@ -101,7 +101,7 @@ func (g *GemHandler) onS7F5(msg *ast.DataMessage) (*ast.DataMessage, error) {
 	}
 	ppidInfo, err := newIDInfoFromNode(ppidNode)
 	if err != nil {
-		return g.buildS7F6(ast.NewEmptyItemNode(), "", 1), nil
+		return g.buildS7F6(ast.NewListNode(), "", 1), nil
 	}
 
 	body := ""
diff --git a/gem/remote_command.go b/gem/remote_command.go
index fae4198..21a3daf 100644
--- a/gem/remote_command.go
+++ b/gem/remote_command.go
@@ -263,7 +263,7 @@ func parseRemoteCommandAck(msg *ast.DataMessage) (RemoteCommandResult, error) {
 func itemNodeFromValue(value interface{}) (ast.ItemNode, error) {
 	switch v := value.(type) {
 	case nil:
-		return ast.NewEmptyItemNode(), nil
+		return ast.NewListNode(), nil
 	case ast.ItemNode:
 		return v, nil
 	case string:
diff --git a/gem/status_equipment_handlers.go b/gem/status_equipment_handlers.go
index a31a1bb..c48c380 100644
--- a/gem/status_equipment_handlers.go
+++ b/gem/status_equipment_handlers.go
@@ -124,13 +124,13 @@ func (g *GemHandler) resolveStatusValues(requests []idRequest) []ast.ItemNode {
 	values := make([]ast.ItemNode, 0, len(requests))
 	for _, req := range requests {
 		if !req.ok {
-			values = append(values, ast.NewEmptyItemNode())
+			values = append(values, ast.NewListNode())
 			continue
 		}
 		if variable, ok := g.statusVars[req.info.key]; ok {
 			values = append(values, safeStatusValue(variable, g.logger))
 		} else {
-			values = append(values, ast.NewEmptyItemNode())
+			values = append(values, ast.NewListNode())
 		}
 	}
 	return values
@@ -153,7 +153,7 @@ func (g *GemHandler) resolveStatusInfo(requests []idRequest) []ast.ItemNode {
 	entries := make([]ast.ItemNode, 0, len(requests))
 	for _, req := range requests {
 		if !req.ok {
-			entries = append(entries, ast.NewListNode(ast.NewEmptyItemNode(), ast.NewASCIINode(""), ast.NewASCIINode("")))
+			entries = append(entries, ast.NewListNode(ast.NewListNode(), ast.NewASCIINode(""), ast.NewASCIINode("")))
 			continue
 		}
 		if variable, ok := g.statusVars[req.info.key]; ok {
@@ -172,7 +172,7 @@ func safeStatusValue(variable *StatusVariable, logger common.Logger) ast.ItemNod
 		if err != nil {
 			logger.Error("status variable value error", "svid", variable.ID(), "error", err)
 		}
-		return ast.NewEmptyItemNode()
+		return ast.NewListNode()
 	}
 	return value
 }
@@ -202,13 +202,13 @@ func (g *GemHandler) resolveEquipmentConstantValues(requests []idRequest) []ast.
 	values := make([]ast.ItemNode, 0, len(requests))
 	for _, req := range requests {
 		if !req.ok {
-			values = append(values, ast.NewEmptyItemNode())
+			values = append(values, ast.NewListNode())
 			continue
 		}
 		if constant, ok := g.equipmentConstants[req.info.key]; ok {
 			values = append(values, safeEquipmentConstantValue(constant, g.logger))
 		} else {
-			values = append(values, ast.NewEmptyItemNode())
+			values = append(values, ast.NewListNode())
 		}
 	}
 	return values
@@ -249,7 +249,7 @@ func safeEquipmentConstantValue(constant *EquipmentConstant, logger common.Logge
 		if err != nil {
 			logger.Error("equipment constant value error", "ecid", constant.ID(), "error", err)
 		}
-		return ast.NewEmptyItemNode()
+		return ast.NewListNode()
 	}
 	return value
 }
@@ -257,15 +257,15 @@ func safeEquipmentConstantValue(constant *EquipmentConstant, logger common.Logge
 func buildEquipmentConstantInfoNode(constant *EquipmentConstant) ast.ItemNode {
 	minNode := constant.MinValue
 	if minNode == nil {
-		minNode = ast.NewEmptyItemNode()
+		minNode = ast.NewListNode()
 	}
 	maxNode := constant.MaxValue
 	if maxNode == nil {
-		maxNode = ast.NewEmptyItemNode()
+		maxNode = ast.NewListNode()
 	}
 	defNode := constant.DefaultValue
 	if defNode == nil {
-		defNode = ast.NewEmptyItemNode()
+		defNode = ast.NewListNode()
 	}
 
 	return ast.NewListNode(
@@ -279,11 +279,11 @@ func buildEquipmentConstantInfoNode(constant *EquipmentConstant) ast.ItemNode {
 }
 
 func emptyEquipmentConstantInfo(req idRequest) ast.ItemNode {
-	idNode := ast.NewEmptyItemNode()
+	idNode := ast.NewListNode()
 	if req.ok {
 		idNode = req.info.node
 	}
-	return ast.NewListNode(idNode, ast.NewASCIINode(""), ast.NewEmptyItemNode(), ast.NewEmptyItemNode(), ast.NewEmptyItemNode(), ast.NewASCIINode(""))
+	return ast.NewListNode(idNode, ast.NewASCIINode(""), ast.NewListNode(), ast.NewListNode(), ast.NewListNode(), ast.NewASCIINode(""))
 }
 
 func parseIDRequestList(msg *ast.DataMessage) ([]idRequest, error) {
diff --git a/gem/status_equipment_messages.go b/gem/status_equipment_messages.go
index 55e4683..f4df5d2 100644
--- a/gem/status_equipment_messages.go
+++ b/gem/status_equipment_messages.go
@@ -19,7 +19,7 @@ func (g *GemHandler) buildS1F4(values []ast.ItemNode) *ast.DataMessage {
 	nodes := make([]interface{}, 0, len(values))
 	for _, value := range values {
 		if value == nil {
-			nodes = append(nodes, ast.NewEmptyItemNode())
+			nodes = append(nodes, ast.NewListNode())
 		} else {
 			nodes = append(nodes, value)
 		}
@@ -59,7 +59,7 @@ func (g *GemHandler) buildS2F14(values []ast.ItemNode) *ast.DataMessage {
 	nodes := make([]interface{}, 0, len(values))
 	for _, value := range values {
 		if value == nil {
-			nodes = append(nodes, ast.NewEmptyItemNode())
+			nodes = append(nodes, ast.NewListNode())
 		} else {
 			nodes = append(nodes, value)
 		}
@@ -199,7 +199,7 @@ func (g *GemHandler) buildS6F16(dataID int, ceNode ast.ItemNode, reports []ast.I
 	for _, rpt := range reports {
 		reportNodes = append(reportNodes, rpt)
 	}
-	var ceItem ast.ItemNode = ast.NewEmptyItemNode()
+	var ceItem ast.ItemNode = ast.NewListNode()
 	if ceNode != nil {
 		ceItem = ceNode
 	}
@@ -228,7 +228,7 @@ func (g *GemHandler) buildS7F5(ppid idInfo) *ast.DataMessage {
 func (g *GemHandler) buildS7F6(ppid ast.ItemNode, programBody string, ack int) *ast.DataMessage {
 	ppidNode := ppid
 	if ppidNode == nil {
-		ppidNode = ast.NewEmptyItemNode()
+		ppidNode = ast.NewListNode()
 	}
 	bodyNode := ast.NewASCIINode(programBody)
 	if ack != 0 {
-- 
2.43.0


From ac3bc32e058930558412029e0cf21516b347e6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:49 +0000
Subject: [PATCH 21/36] fix: identifiers above 2^32-1 and non-ASCII identifiers
 no longer panic

---
 gem/id_utils.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/gem/id_utils.go b/gem/id_utils.go
index 299d75b..9d8fccc 100644
--- a/gem/id_utils.go
+++ b/gem/id_utils.go
@@ -2,6 +2,8 @@ package gem
 
 import (
 	"fmt"
+	"math"
+	"unicode"
 
 	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
 )
@@ -50,6 +52,11 @@ func newIDInfo(value interface{}) (idInfo, error) {
 		}
 		return newIDInfoFromUint(uint64(v))
 	case string:
+		for i := 0; i < len(v); i++ {
+			if v[i] > unicode.MaxASCII {
+				return idInfo{}, fmt.Errorf("non-ASCII identifier %q not supported", v)
+			}
+		}
 		return idInfo{raw: v, node: ast.NewASCIINode(v), key: fmt.Sprintf("S:%s", v)}, nil
 	default:
 		return idInfo{}, fmt.Errorf("unsupported identifier type %T", value)
@@ -57,7 +64,11 @@ func newIDInfo(value interface{}) (idInfo, error) {
 }
 
 func newIDInfoFromUint(value uint64) (idInfo, error) {
-	node := ast.NewUintNode(4, value)
+	byteSize := 4
+	if value > math.MaxUint32 {
+		byteSize = 8
+	}
+	node := ast.NewUintNode(byteSize, value)
 	return idInfo{raw: value, node: node, key: fmt.Sprintf("N:%d", value)}, nil
 }
 
-- 
2.43.0


From f7710f99023d82d7bf2f2adf381daf23d81c4514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:50 +0000
Subject: [PATCH 22/36] fix: S5F1 reports the alarm state in bit 8 of ALCD, as
 S5F6 does

---
 gem/alarm.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gem/alarm.go b/gem/alarm.go
index 4f693fb..21aeb4d 100644
--- a/gem/alarm.go
+++ b/gem/alarm.go
@@ -120,7 +120,7 @@ func (g *GemHandler) getEnabledAlarmList() []AlarmInfo {
 func (g *GemHandler) buildS5F1(alarm Alarm, set bool) *ast.DataMessage {
 	alcd := 0
 	if set {
-		alcd = 1
+		alcd = 0x80 // Bit 8: Set
 	}
 
 	body := ast.NewListNode(
@@ -157,7 +157,7 @@ func parseAlarmMessage(msg *ast.DataMessage) (AlarmEvent, error) {
 	if !ok || len(alcdValues) == 0 {
 		return event, fmt.Errorf("gem: S5F1 ALCD missing value")
 	}
-	event.Set = alcdValues[0] != 0
+	event.Set = alcdValues[0]&0x80 != 0
 
 	alidNode, err := msg.Get(1)
 	if err != nil {
-- 
2.43.0


From 1de72bad1b8b223778bf6fb9392f438b222cf30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:50 +0000
Subject: [PATCH 23/36] fix: alarm identifiers of any size can be reported

---
 gem/alarm.go          | 14 +++++++++++++-
 gem/alarm_client.go   |  2 +-
 gem/alarm_handlers.go |  4 ++--
 3 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/gem/alarm.go b/gem/alarm.go
index 21aeb4d..eec59ea 100644
--- a/gem/alarm.go
+++ b/gem/alarm.go
@@ -2,6 +2,7 @@ package gem
 
 import (
 	"fmt"
+	"math"
 	"sort"
 
 	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
@@ -125,7 +126,7 @@ func (g *GemHandler) buildS5F1(alarm Alarm, set bool) *ast.DataMessage {
 
 	body := ast.NewListNode(
 		ast.NewBinaryNode(alcd),
-		ast.NewUintNode(2, alarm.ID),
+		alarmIDNode(alarm.ID),
 		ast.NewASCIINode(alarm.Text),
 	)
 
@@ -137,6 +138,17 @@ func (g *GemHandler) buildS5F1(alarm Alarm, set bool) *ast.DataMessage {
 	return ast.NewDataMessage("AlarmReport", 5, 1, 0, direction, body)
 }
 
+// alarmIDNode encodes an alarm identifier in an integer item wide enough for it.
+func alarmIDNode(id int) ast.ItemNode {
+	if id < 0 {
+		return ast.NewIntNode(signedByteSize(int64(id)), id)
+	}
+	if uint64(id) > math.MaxUint32 {
+		return ast.NewUintNode(8, id)
+	}
+	return ast.NewUintNode(4, id)
+}
+
 func (g *GemHandler) buildS5F2(ack int) *ast.DataMessage {
 	body := ast.NewListNode(ast.NewBinaryNode(ack))
 	return ast.NewDataMessage("AlarmAck", 5, 2, 0, "H->E", body)
diff --git a/gem/alarm_client.go b/gem/alarm_client.go
index 371c936..fb2131e 100644
--- a/gem/alarm_client.go
+++ b/gem/alarm_client.go
@@ -21,7 +21,7 @@ func (h *GemHandler) SendEnableAlarm(alarmIDs []int, enable bool) (byte, error)
 	// Build ALID list
 	alidItems := make([]interface{}, len(alarmIDs))
 	for i, id := range alarmIDs {
-		alidItems[i] = ast.NewUintNode(4, id)
+		alidItems[i] = alarmIDNode(id)
 	}
 
 	// ALED: 128=Enable, 0=Disable
diff --git a/gem/alarm_handlers.go b/gem/alarm_handlers.go
index 1a8a932..40460d2 100644
--- a/gem/alarm_handlers.go
+++ b/gem/alarm_handlers.go
@@ -140,7 +140,7 @@ func (g *GemHandler) buildS5F6(alarms []AlarmInfo) *ast.DataMessage {
 
 		items[i] = ast.NewListNode(
 			ast.NewBinaryNode(alcd),
-			ast.NewUintNode(4, a.ID),
+			alarmIDNode(a.ID),
 			ast.NewASCIINode(a.Text),
 		)
 	}
@@ -163,7 +163,7 @@ func (g *GemHandler) buildS5F8(alarms []AlarmInfo) *ast.DataMessage {
 
 		items[i] = ast.NewListNode(
 			ast.NewBinaryNode(alcd),
-			ast.NewUintNode(4, a.ID),
+			alarmIDNode(a.ID),
 			ast.NewASCIINode(a.Text),
 		)
 	}
-- 
2.43.0


From c15e53b575186ecbfe6bd916f292104c302a6fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:50 +0000
Subject: [PATCH 24/36] fix: S5F3 refuses alarm identifier items that do not
 name exactly one alarm

---
 gem/alarm_handlers.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/gem/alarm_handlers.go b/gem/alarm_handlers.go
index 40460d2..4b09840 100644
--- a/gem/alarm_handlers.go
+++ b/gem/alarm_handlers.go
@@ -2,6 +2,7 @@ package gem
 
 import (
 	"fmt"
+	"math"
 
 	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
 )
@@ -52,14 +53,16 @@ func (g *GemHandler) onS5F3(msg *ast.DataMessage) (*ast.DataMessage, error) {
 		switch typed := alidNode.(type) {
 		case *ast.UintNode:
 			values, _ := typed.Values().([]uint64)
-			if len(values) > 0 {
-				id = int(values[0])
+			if len(values) != 1 || values[0] > math.MaxInt64 {
+				return g.buildS5F4(1), nil
 			}
+			id = int(values[0])
 		case *ast.IntNode:
 			values, _ := typed.Values().([]int64)
-			if len(values) > 0 {
-				id = int(values[0])
+			if len(values) != 1 {
+				return g.buildS5F4(1), nil
 			}
+			id = int(values[0])
 		default:
 			return g.buildS5F4(1), nil
 		}
-- 
2.43.0


From a152cbcb95c14754e825095e0eb5265fc72b97d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:52 +0000
Subject: [PATCH 25/36] fix: S2F33 naming one report twice is refused

---
 gem/collection_event_handlers.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gem/collection_event_handlers.go b/gem/collection_event_handlers.go
index 2a6edc5..8aa1925 100644
--- a/gem/collection_event_handlers.go
+++ b/gem/collection_event_handlers.go
@@ -198,10 +198,15 @@ func (g *GemHandler) handleReportDefinitions(reports []reportDefinitionMessage)
 	g.reportMu.Lock()
 	defer g.reportMu.Unlock()
 
+	requested := make(map[string]bool, len(reports))
 	for _, rpt := range reports {
 		if _, exists := g.reports[rpt.id.key]; exists && len(rpt.vids) > 0 {
 			return DRACKRPTIDRedefined
 		}
+		if requested[rpt.id.key] {
+			return DRACKRPTIDRedefined
+		}
+		requested[rpt.id.key] = true
 	}
 
 	for _, rpt := range reports {
-- 
2.43.0


From 41827798bd2aec1ec586d78bbd7323760354146b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:52 +0000
Subject: [PATCH 26/36] fix: S2F35 naming one event or one report of an event
 twice is refused

---
 gem/collection_event_handlers.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/gem/collection_event_handlers.go b/gem/collection_event_handlers.go
index 8aa1925..3889122 100644
--- a/gem/collection_event_handlers.go
+++ b/gem/collection_event_handlers.go
@@ -274,14 +274,24 @@ func (g *GemHandler) handleEventReportLinks(links []eventReportLinkMessage) LRAC
 	g.reportMu.Lock()
 	defer g.reportMu.Unlock()
 
+	requested := make(map[string]bool, len(links))
 	for _, link := range links {
 		if _, ok := g.collectionEvents[link.ceid.key]; !ok {
 			return LRACKCEIDDoesNotExist
 		}
+		if requested[link.ceid.key] {
+			return LRACKCEIDAlreadyLinked
+		}
+		requested[link.ceid.key] = true
+		named := make(map[string]bool, len(link.rptids))
 		for _, rpt := range link.rptids {
 			if _, ok := g.reports[rpt.key]; !ok {
 				return LRACKRPTIDDoesNotExist
 			}
+			if named[rpt.key] {
+				return LRACKCEIDAlreadyLinked
+			}
+			named[rpt.key] = true
 			if existing, ok := g.eventLinks[link.ceid.key]; ok {
 				for _, existingRpt := range existing.reports {
 					if existingRpt == rpt.key {
-- 
2.43.0


From 125d337b8d820790507f9e0f401aa1158d82e366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:53 +0000
Subject: [PATCH 27/36] fix: a refused S2F37 enables or disables no event

---
 gem/collection_event_handlers.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gem/collection_event_handlers.go b/gem/collection_event_handlers.go
index 3889122..dfd51ec 100644
--- a/gem/collection_event_handlers.go
+++ b/gem/collection_event_handlers.go
@@ -344,12 +344,13 @@ func (g *GemHandler) setCollectionEventState(enable bool, ceids []idInfo) ERACKC
 	}
 
 	for _, ce := range ceids {
-		if link, ok := g.eventLinks[ce.key]; ok {
-			link.enabled = enable
-		} else {
+		if _, ok := g.eventLinks[ce.key]; !ok {
 			return ERACKCEIDUnknown
 		}
 	}
+	for _, ce := range ceids {
+		g.eventLinks[ce.key].enabled = enable
+	}
 	return ERACKAccepted
 }
 
-- 
2.43.0


From 47c823319dc937d706e954ac68c8fbcfcef1b49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:53 +0000
Subject: [PATCH 28/36] fix: an event report is built from one consistent view
 of links and reports

---
 gem/collection_event_handlers.go | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/gem/collection_event_handlers.go b/gem/collection_event_handlers.go
index dfd51ec..a4e83bd 100644
--- a/gem/collection_event_handlers.go
+++ b/gem/collection_event_handlers.go
@@ -106,24 +106,21 @@ func (g *GemHandler) buildCollectionEventPayload(key string) ([]ast.ItemNode, in
 
 	g.reportMu.RLock()
 	link, linked := g.eventLinks[key]
-	g.reportMu.RUnlock()
 	if !linked || !link.enabled || len(link.reports) == 0 {
+		g.reportMu.RUnlock()
 		return nil, 0, nil, nil
 	}
 
-	g.reportMu.RLock()
-	reportKeys := append([]string{}, link.reports...)
-	g.reportMu.RUnlock()
-
-	reportNodes := make([]ast.ItemNode, 0, len(reportKeys))
-	for _, rptKey := range reportKeys {
-		g.reportMu.RLock()
-		report, exists := g.reports[rptKey]
-		g.reportMu.RUnlock()
-		if !exists {
-			continue
+	reports := make([]*ReportDefinition, 0, len(link.reports))
+	for _, rptKey := range link.reports {
+		if report, exists := g.reports[rptKey]; exists {
+			reports = append(reports, report)
 		}
+	}
+	g.reportMu.RUnlock()
 
+	reportNodes := make([]ast.ItemNode, 0, len(reports))
+	for _, report := range reports {
 		values := g.collectReportValues(report)
 		reportNodes = append(reportNodes, ast.NewListNode(report.idNode(), ast.NewListNode(values...)))
 	}
-- 
2.43.0


From 9a2ab050e024ed75e18ab1269d0b7cb254a70e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:53 +0000
Subject: [PATCH 29/36] fix: a refused S2F15 changes no equipment constant

---
 gem/equipment_constants.go       | 42 ++++++++++++++++++++++----------
 gem/status_equipment_handlers.go | 13 +++++++++-
 2 files changed, 41 insertions(+), 14 deletions(-)

diff --git a/gem/equipment_constants.go b/gem/equipment_constants.go
index 7c6a75d..30cba83 100644
--- a/gem/equipment_constants.go
+++ b/gem/equipment_constants.go
@@ -137,35 +137,51 @@ func (ec *EquipmentConstant) Value() (ast.ItemNode, error) {
 
 // ApplyValue stores or forwards a new value.
 func (ec *EquipmentConstant) ApplyValue(node ast.ItemNode) error {
+	if err := ec.validateValue(node); err != nil {
+		return err
+	}
+	if err := ec.forwardValue(node); err != nil {
+		return err
+	}
+	ec.storeValue(node)
+	return nil
+}
+
+// validateValue asks the validator whether the value is acceptable; it changes nothing.
+func (ec *EquipmentConstant) validateValue(node ast.ItemNode) error {
 	if node == nil {
 		return fmt.Errorf("nil value provided for equipment constant %v", ec.ID())
 	}
 
 	ec.mu.RLock()
 	validator := ec.validator
-	updater := ec.updater
-	provider := ec.provider
 	ec.mu.RUnlock()
 
 	if validator != nil {
-		if err := validator(node); err != nil {
-			return err
-		}
+		return validator(node)
 	}
+	return nil
+}
+
+// forwardValue hands the value to the updater.
+func (ec *EquipmentConstant) forwardValue(node ast.ItemNode) error {
+	ec.mu.RLock()
+	updater := ec.updater
+	ec.mu.RUnlock()
 
 	if updater != nil {
-		if err := updater(node); err != nil {
-			return err
-		}
+		return updater(node)
 	}
+	return nil
+}
 
-	if provider == nil {
-		ec.mu.Lock()
+// storeValue keeps the value unless a provider supplies it.
+func (ec *EquipmentConstant) storeValue(node ast.ItemNode) {
+	ec.mu.Lock()
+	defer ec.mu.Unlock()
+	if ec.provider == nil {
 		ec.value = node
-		ec.mu.Unlock()
 	}
-
-	return nil
 }
 
 // EquipmentConstantValue represents an ECID and its associated value payload.
diff --git a/gem/status_equipment_handlers.go b/gem/status_equipment_handlers.go
index c48c380..86b107a 100644
--- a/gem/status_equipment_handlers.go
+++ b/gem/status_equipment_handlers.go
@@ -393,13 +393,24 @@ func (g *GemHandler) applyEquipmentConstantUpdates(updates []equipmentConstantUp
 		}
 	}
 
+	// Nothing is forwarded before every value is valid, nothing stored before every updater accepted.
 	for _, upd := range updates {
 		constant := g.equipmentConstants[upd.id.key]
-		if err := constant.ApplyValue(upd.value); err != nil {
+		if err := constant.validateValue(upd.value); err != nil {
 			g.logger.Warn("equipment constant update rejected", "ecid", constant.ID(), "error", err)
 			return ECACKValidationError
 		}
 	}
+	for _, upd := range updates {
+		constant := g.equipmentConstants[upd.id.key]
+		if err := constant.forwardValue(upd.value); err != nil {
+			g.logger.Warn("equipment constant update rejected", "ecid", constant.ID(), "error", err)
+			return ECACKValidationError
+		}
+	}
+	for _, upd := range updates {
+		g.equipmentConstants[upd.id.key].storeValue(upd.value)
+	}
 
 	return ECACKAccepted
 }
-- 
2.43.0


From 085280181fa667bf8157f2596ac54564ff447edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:24 +0000
Subject: [PATCH 30/36] fix: binary process programs are stored and returned,
 other formats refused

---
 gem/process_program_handlers.go  | 29 ++++++++++++++++++++++++-----
 gem/status_equipment_messages.go | 19 +++++++++++++++++--
 2 files changed, 41 insertions(+), 7 deletions(-)

diff --git a/gem/process_program_handlers.go b/gem/process_program_handlers.go
index cc7832b..ed40f13 100644
--- a/gem/process_program_handlers.go
+++ b/gem/process_program_handlers.go
@@ -55,11 +55,9 @@ func (g *GemHandler) onS7F3(msg *ast.DataMessage) (*ast.DataMessage, error) {
 	if err != nil {
 		return g.buildS7F4(1), nil
 	}
-	body := ""
-	if ascii, ok := bodyNode.(*ast.ASCIINode); ok {
-		if val, ok := ascii.Values().(string); ok {
-			body = val
-		}
+	body, ok := processProgramBody(bodyNode)
+	if !ok {
+		return g.buildS7F4(1), nil
 	}
 
 	ack := 0
@@ -78,6 +76,27 @@ func (g *GemHandler) onS7F3(msg *ast.DataMessage) (*ast.DataMessage, error) {
 	return g.buildS7F4(ack), nil
 }
 
+// processProgramBody extracts the content of a PPBODY item, which is ASCII or binary.
+func processProgramBody(node ast.ItemNode) (string, bool) {
+	switch v := node.(type) {
+	case *ast.ASCIINode:
+		body, ok := v.Values().(string)
+		return body, ok
+	case *ast.BinaryNode:
+		values, ok := v.Values().([]int)
+		if !ok {
+			return "", false
+		}
+		body := make([]byte, len(values))
+		for i, value := range values {
+			body[i] = byte(value)
+		}
+		return string(body), true
+	default:
+		return "", false
+	}
+}
+
 func (g *GemHandler) onS7F5(msg *ast.DataMessage) (*ast.DataMessage, error) {
 	if msg == nil {
 		return g.buildS7F6(ast.NewListNode(), "", 1), nil
diff --git a/gem/status_equipment_messages.go b/gem/status_equipment_messages.go
index f4df5d2..ab5e9aa 100644
--- a/gem/status_equipment_messages.go
+++ b/gem/status_equipment_messages.go
@@ -2,6 +2,7 @@ package gem
 
 import (
 	"fmt"
+	"unicode"
 
 	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
 )
@@ -209,7 +210,7 @@ func (g *GemHandler) buildS6F16(dataID int, ceNode ast.ItemNode, reports []ast.I
 }
 
 func (g *GemHandler) buildS7F3(ppid idInfo, programBody string) *ast.DataMessage {
-	payload := ast.NewListNode(ppid.node, ast.NewASCIINode(programBody))
+	payload := ast.NewListNode(ppid.node, processProgramBodyNode(programBody))
 	return ast.NewDataMessage("ProcessProgramSend", 7, 3, 1, "H->E", payload)
 }
 
@@ -223,6 +224,20 @@ func (g *GemHandler) buildS7F5(ppid idInfo) *ast.DataMessage {
 	return ast.NewDataMessage("ProcessProgramRequest", 7, 5, 1, "H->E", ppid.node)
 }
 
+// processProgramBodyNode encodes a process program as ASCII where possible, as binary otherwise.
+func processProgramBodyNode(body string) ast.ItemNode {
+	for i := 0; i < len(body); i++ {
+		if body[i] > unicode.MaxASCII {
+			values := make([]interface{}, len(body))
+			for k := 0; k < len(body); k++ {
+				values[k] = body[k]
+			}
+			return ast.NewBinaryNode(values...)
+		}
+	}
+	return ast.NewASCIINode(body)
+}
+
 // --- S7F6: ProcessProgramData ---
 // 按标准: <PPID><PPBODY><ACKC7>
 func (g *GemHandler) buildS7F6(ppid ast.ItemNode, programBody string, ack int) *ast.DataMessage {
@@ -230,7 +245,7 @@ func (g *GemHandler) buildS7F6(ppid ast.ItemNode, programBody string, ack int) *
 	if ppidNode == nil {
 		ppidNode = ast.NewListNode()
 	}
-	bodyNode := ast.NewASCIINode(programBody)
+	bodyNode := processProgramBodyNode(programBody)
 	if ack != 0 {
 		bodyNode = ast.NewASCIINode("")
 	}
-- 
2.43.0


From 913f1b4597bc4393092ae460b63f0836b2e690cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:24 +0000
Subject: [PATCH 31/36] fix: an upload handler result outside 0..255 no longer
 panics

---
 gem/process_program_handlers.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gem/process_program_handlers.go b/gem/process_program_handlers.go
index ed40f13..6d5dde5 100644
--- a/gem/process_program_handlers.go
+++ b/gem/process_program_handlers.go
@@ -73,6 +73,9 @@ func (g *GemHandler) onS7F3(msg *ast.DataMessage) (*ast.DataMessage, error) {
 		}
 	}
 
+	if ack < 0 || ack > 255 {
+		ack = 1 // not an acknowledge code, and nothing was stored
+	}
 	return g.buildS7F4(ack), nil
 }
 
-- 
2.43.0


From 5780d217f6ba11d0445512df72a9a2062f72bea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:25 +0000
Subject: [PATCH 32/36] fix: S2F31 refuses text that is not a time and keeps
 the centiseconds

---
 gem/clock.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/gem/clock.go b/gem/clock.go
index f9cf584..91e1969 100644
--- a/gem/clock.go
+++ b/gem/clock.go
@@ -67,13 +67,22 @@ func (c *ClockManager) GetFormattedTime() string {
 	return t.Format("20060102150405") + "00"
 }
 
-// ParseSEMITime parses a SEMI E5 format time string ("YYYYMMDDhhmmss00").
+// ParseSEMITime parses a SEMI E5 format time string ("YYYYMMDDhhmmsscc", or "YYYYMMDDhhmmss").
 func ParseSEMITime(timeStr string) (time.Time, error) {
-	if len(timeStr) < 14 {
+	if len(timeStr) != 14 && len(timeStr) != 16 {
 		return time.Time{}, errors.New("gem: invalid SEMI time format")
 	}
-	// Parse first 14 characters (ignore centiseconds)
-	return time.Parse("20060102150405", timeStr[:14])
+	for i := 0; i < len(timeStr); i++ {
+		if timeStr[i] < '0' || timeStr[i] > '9' {
+			return time.Time{}, errors.New("gem: invalid SEMI time format")
+		}
+	}
+	t, err := time.Parse("20060102150405", timeStr[:14])
+	if err != nil || len(timeStr) == 14 {
+		return t, err
+	}
+	centiseconds := int(timeStr[14]-'0')*10 + int(timeStr[15]-'0')
+	return t.Add(time.Duration(centiseconds) * 10 * time.Millisecond), nil
 }
 
 // HandleTimeSet processes S2F31 time set request.
-- 
2.43.0


From be15fc8c900304917f7160c1e9131b9fc30ea586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:25 +0000
Subject: [PATCH 33/36] fix: a control state notification reports the states of
 its own transition

---
 gem/handler.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/gem/handler.go b/gem/handler.go
index 844c2e4..bdcc472 100644
--- a/gem/handler.go
+++ b/gem/handler.go
@@ -48,6 +48,8 @@ type GemHandler struct {
 	state   *stateMachine
 	control *ControlStateMachine
 
+	controlMu sync.Mutex // held during a control state transition of this handler
+
 	enabled             *atomic.Bool
 	handshakeInProgress *atomic.Bool
 
@@ -386,11 +388,14 @@ func (g *GemHandler) transitionControl(transition func(sm *ControlStateMachine)
 	if g.control == nil {
 		return ErrOperationNotSupported
 	}
+	g.controlMu.Lock()
 	prev := g.control.State()
-	if err := transition(g.control); err != nil {
+	err := transition(g.control)
+	next := g.control.State()
+	g.controlMu.Unlock()
+	if err != nil {
 		return err
 	}
-	next := g.control.State()
 	g.onControlStateTransition(prev, next)
 	return nil
 }
-- 
2.43.0


From 324355773baaff8efffbb971bf0b6a2212016972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:25 +0000
Subject: [PATCH 34/36] fix: S1F15 and S1F17 decide and change the control
 state in one step

---
 gem/handler.go | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/gem/handler.go b/gem/handler.go
index bdcc472..59e7cfe 100644
--- a/gem/handler.go
+++ b/gem/handler.go
@@ -712,8 +712,11 @@ func (g *GemHandler) onS1F15(_ *ast.DataMessage) (*ast.DataMessage, error) {
 	}
 
 	oflack := 0
-	if g.control != nil && g.control.IsOnlineState() {
+	if g.control != nil {
 		if err := g.transitionControl(func(sm *ControlStateMachine) error {
+			if !sm.IsOnlineState() {
+				return nil
+			}
 			return sm.RemoteOffline()
 		}); err != nil {
 			oflack = 1
@@ -729,15 +732,14 @@ func (g *GemHandler) onS1F17(_ *ast.DataMessage) (*ast.DataMessage, error) {
 	}
 
 	onlack := 1
-	state := g.ControlState()
-	if state == ControlStateHostOffline {
-		if err := g.transitionControl(func(sm *ControlStateMachine) error {
-			return sm.RemoteOnline()
-		}); err == nil {
-			onlack = 0
+	if err := g.transitionControl(func(sm *ControlStateMachine) error {
+		if sm.IsOnlineState() {
+			onlack = 2
+			return nil
 		}
-	} else if g.control != nil && g.control.IsOnlineState() {
-		onlack = 2
+		return sm.RemoteOnline()
+	}); err == nil && onlack != 2 {
+		onlack = 0
 	}
 
 	return g.buildS1F18(onlack), nil
-- 
2.43.0


From 468dfeac9c48474bd8e7bbceeec6ff3dc4f9f5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:43 +0000
Subject: [PATCH 35/36] fix: a disabled handler no longer becomes communicating

---
 gem/communication_state.go | 19 +++++++++++++++++++
 gem/handler.go             | 18 +++++++++++++-----
 2 files changed, 32 insertions(+), 5 deletions(-)

diff --git a/gem/communication_state.go b/gem/communication_state.go
index a4e8b37..0e748a5 100644
--- a/gem/communication_state.go
+++ b/gem/communication_state.go
@@ -3,6 +3,8 @@ package gem
 import (
 	"sync"
 	"time"
+
+	"go.uber.org/atomic"
 )
 
 // CommunicationState reflects GEM communication status.
@@ -46,6 +48,23 @@ func (sm *stateMachine) setState(state CommunicationState) (prev CommunicationSt
 	return prev
 }
 
+// enterCommunicating moves to COMMUNICATING unless the handler has been disabled. Disable clears the
+// flag before it changes the state, so a disabled handler never stays communicating.
+func (sm *stateMachine) enterCommunicating(enabled *atomic.Bool) (prev CommunicationState, ok bool) {
+	sm.mu.Lock()
+	defer sm.mu.Unlock()
+
+	prev = sm.state
+	if !enabled.Load() {
+		return prev, false
+	}
+	if prev != CommunicationStateCommunicating {
+		sm.state = CommunicationStateCommunicating
+		sm.stopTimersLocked()
+	}
+	return prev, true
+}
+
 func (sm *stateMachine) setStateWithWaitCRA(state CommunicationState, duration time.Duration, timeout func()) {
 	sm.mu.Lock()
 	defer sm.mu.Unlock()
diff --git a/gem/handler.go b/gem/handler.go
index 59e7cfe..52b214f 100644
--- a/gem/handler.go
+++ b/gem/handler.go
@@ -642,12 +642,17 @@ func (g *GemHandler) scheduleRetry() {
 	g.state.setStateWithWaitDelay(CommunicationStateWaitDelay, g.establishWait, g.onWaitDelayTimeout)
 }
 
-func (g *GemHandler) setCommunicating() {
-	prev := g.state.setState(CommunicationStateCommunicating)
+// setCommunicating reports whether the handler is communicating afterwards; a disabled one is not.
+func (g *GemHandler) setCommunicating() bool {
+	prev, ok := g.state.enterCommunicating(g.enabled)
+	if !ok {
+		return false
+	}
 	if prev != CommunicationStateCommunicating {
 		g.notifyCommunicating()
 	}
 	g.onCommunicationStateChanged(prev, CommunicationStateCommunicating)
+	return true
 }
 
 func (g *GemHandler) onWaitCRATimeout() {
@@ -685,12 +690,15 @@ func (g *GemHandler) onS1F1(_ *ast.DataMessage) (*ast.DataMessage, error) {
 }
 
 func (g *GemHandler) onS1F13(_ *ast.DataMessage) (*ast.DataMessage, error) {
-	g.setCommunicating()
+	commack := 0
+	if !g.setCommunicating() {
+		commack = 1
+	}
 
 	if g.deviceType == DeviceHost {
-		return g.buildS1F14Host(0), nil
+		return g.buildS1F14Host(commack), nil
 	}
-	return g.buildS1F14Equipment(0), nil
+	return g.buildS1F14Equipment(commack), nil
 }
 
 func (g *GemHandler) onS1F14(msg *ast.DataMessage) (*ast.DataMessage, error) {
-- 
2.43.0


From c855a865c3e9d013032517314bc2ee0d0e0ba3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:35 +0000
Subject: [PATCH 36/36] fix: a connection lost and replaced between two looks
 leaves the communicating state

---
 gem/communication_state.go | 11 ++++++++++-
 gem/handler.go             | 17 ++++++++++-------
 hsms/protocol.go           | 11 +++++++++++
 3 files changed, 31 insertions(+), 8 deletions(-)

diff --git a/gem/communication_state.go b/gem/communication_state.go
index 0e748a5..8c3a7ca 100644
--- a/gem/communication_state.go
+++ b/gem/communication_state.go
@@ -23,6 +23,7 @@ type stateMachine struct {
 	state          CommunicationState
 	waitCRATimer   *time.Timer
 	waitDelayTimer *time.Timer
+	connection     uint32 // the connection on which COMMUNICATING was entered
 }
 
 func newStateMachine() *stateMachine {
@@ -48,9 +49,16 @@ func (sm *stateMachine) setState(state CommunicationState) (prev CommunicationSt
 	return prev
 }
 
+// establishedBefore reports whether communication was established on an earlier connection than the given one.
+func (sm *stateMachine) establishedBefore(connection uint32) bool {
+	sm.mu.Lock()
+	defer sm.mu.Unlock()
+	return sm.state == CommunicationStateCommunicating && int32(connection-sm.connection) > 0
+}
+
 // enterCommunicating moves to COMMUNICATING unless the handler has been disabled. Disable clears the
 // flag before it changes the state, so a disabled handler never stays communicating.
-func (sm *stateMachine) enterCommunicating(enabled *atomic.Bool) (prev CommunicationState, ok bool) {
+func (sm *stateMachine) enterCommunicating(enabled *atomic.Bool, connection uint32) (prev CommunicationState, ok bool) {
 	sm.mu.Lock()
 	defer sm.mu.Unlock()
 
@@ -58,6 +66,7 @@ func (sm *stateMachine) enterCommunicating(enabled *atomic.Bool) (prev Communica
 	if !enabled.Load() {
 		return prev, false
 	}
+	sm.connection = connection
 	if prev != CommunicationStateCommunicating {
 		sm.state = CommunicationStateCommunicating
 		sm.stopTimersLocked()
diff --git a/gem/handler.go b/gem/handler.go
index 52b214f..932f7e9 100644
--- a/gem/handler.go
+++ b/gem/handler.go
@@ -525,6 +525,7 @@ func (g *GemHandler) initiateEstablishCommunication() {
 			return
 		}
 
+		connection := g.protocol.Connections()
 		resp, err := g.protocol.SendAndWait(g.buildS1F13Equipment())
 		if err != nil {
 			g.logger.Error("S1F13 request failed", "error", err)
@@ -541,7 +542,7 @@ func (g *GemHandler) initiateEstablishCommunication() {
 			return
 		}
 
-		g.setCommunicating()
+		g.setCommunicating(connection)
 	}()
 }
 
@@ -564,7 +565,8 @@ func (g *GemHandler) observe() {
 		return
 	}
 
-	if !g.protocol.Connected() {
+	// a connection may have been lost and replaced since the last look
+	if !g.protocol.Connected() || g.state.establishedBefore(g.protocol.Connections()) {
 		g.handshakeInProgress.Store(false)
 		g.setCommunicationState(CommunicationStateNotCommunicating)
 		return
@@ -618,6 +620,7 @@ func (g *GemHandler) initiateHandshake() {
 
 		g.state.setStateWithWaitCRA(CommunicationStateWaitCRA, waitCRA, g.onWaitCRATimeout)
 
+		connection := g.protocol.Connections()
 		dataMsg, err := g.protocol.SendAndWait(g.buildS1F13())
 		if err != nil {
 			g.logger.Error("establish communication request failed", "error", err)
@@ -631,7 +634,7 @@ func (g *GemHandler) initiateHandshake() {
 			return
 		}
 
-		g.setCommunicating()
+		g.setCommunicating(connection)
 	}()
 }
 
@@ -643,8 +646,8 @@ func (g *GemHandler) scheduleRetry() {
 }
 
 // setCommunicating reports whether the handler is communicating afterwards; a disabled one is not.
-func (g *GemHandler) setCommunicating() bool {
-	prev, ok := g.state.enterCommunicating(g.enabled)
+func (g *GemHandler) setCommunicating(connection uint32) bool {
+	prev, ok := g.state.enterCommunicating(g.enabled, connection)
 	if !ok {
 		return false
 	}
@@ -691,7 +694,7 @@ func (g *GemHandler) onS1F1(_ *ast.DataMessage) (*ast.DataMessage, error) {
 
 func (g *GemHandler) onS1F13(_ *ast.DataMessage) (*ast.DataMessage, error) {
 	commack := 0
-	if !g.setCommunicating() {
+	if !g.setCommunicating(g.protocol.Connections()) {
 		commack = 1
 	}
 
@@ -706,7 +709,7 @@ func (g *GemHandler) onS1F14(msg *ast.DataMessage) (*ast.DataMessage, error) {
 		return nil, nil
 	}
 	if commack := readCommAck(msg); commack == 0 {
-		g.setCommunicating()
+		g.setCommunicating(g.protocol.Connections())
 	} else {
 		g.logger.Warn("received S1F14 with non-zero COMMACK", "COMMACK", commack)
 		g.scheduleRetry()
diff --git a/hsms/protocol.go b/hsms/protocol.go
index 0d558e3..3cf0f67 100644
--- a/hsms/protocol.go
+++ b/hsms/protocol.go
@@ -73,6 +73,9 @@ type HsmsProtocol struct {
 	enabled   *atomic.Bool
 	connected *atomic.Bool
 
+	// connections counts the connections established so far
+	connections *atomic.Uint32
+
 	logger common.Logger
 
 	systemCounter *atomic.Uint32
@@ -128,6 +131,7 @@ func NewHsmsProtocol(address string, port int, active bool, sessionID int, name
 		name:                 name,
 		enabled:              atomic.NewBool(false),
 		connected:            atomic.NewBool(false),
+		connections:          atomic.NewUint32(0),
 		logger:               logger,
 		systemCounter:        atomic.NewUint32(rand.Uint32()),
 		timeouts:             NewSecsTimeout(),
@@ -312,6 +316,7 @@ func (p *HsmsProtocol) removeQueue(systemID uint32) {
 }
 
 func (p *HsmsProtocol) OnConnectionEstablished() {
+	p.connections.Inc()
 	p.connected.Store(true)
 	if err := p.connectionState.Connect(); err != nil {
 		p.logger.Error("change state to CONNECTED failed", "error", err)
@@ -1078,6 +1083,12 @@ func (p *HsmsProtocol) Connected() bool {
 	return p.connected.Load()
 }
 
+// Connections returns how many connections have been established, so that a caller can tell whether
+// the current one is still the one it saw before.
+func (p *HsmsProtocol) Connections() uint32 {
+	return p.connections.Load()
+}
+
 // CurrentState returns the current connection state name.
 func (p *HsmsProtocol) CurrentState() string {
 	return p.connectionState.CurrentState()
-- 
2.43.0

