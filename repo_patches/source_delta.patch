From d8290cdfad7cba80f095680c4c28c43802141c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:55 +0000
Subject: [PATCH 01/66] fix: decode item lengths above 255 in the HSMS parser

The length bytes were shifted as bytes, so every length byte but the last was
dropped and an item of 256 or more bytes was cut short or rejected.
---
 lib-secs2-hsms-go/pkg/parser/hsms/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib-secs2-hsms-go/pkg/parser/hsms/parser.go b/lib-secs2-hsms-go/pkg/parser/hsms/parser.go
index a6f2671..65a70bf 100644
--- a/lib-secs2-hsms-go/pkg/parser/hsms/parser.go
+++ b/lib-secs2-hsms-go/pkg/parser/hsms/parser.go
@@ -143,7 +143,7 @@ func (p *parser) parseMessageText() (dataItem ast.ItemNode, ok bool) {
 	var length int
 	for i, b := range lengthBytes {
 		shift := (lengthBytesCount - i - 1) * 8
-		length += int(b << shift)
+		length += int(b) << shift
 	}
 	p.pos += lengthBytesCount
 
-- 
2.43.0


From 6c3f54fd19bda8e8d9a9485006bbc113b8c2cdf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:55 +0000
Subject: [PATCH 02/66] fix: reject messages whose text is truncated or
 followed by extra bytes

An item that announced more bytes than the message held was read from the
unused capacity of the caller's buffer, and bytes after the item were ignored.
---
 lib-secs2-hsms-go/pkg/parser/hsms/parser.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib-secs2-hsms-go/pkg/parser/hsms/parser.go b/lib-secs2-hsms-go/pkg/parser/hsms/parser.go
index 65a70bf..24dbd40 100644
--- a/lib-secs2-hsms-go/pkg/parser/hsms/parser.go
+++ b/lib-secs2-hsms-go/pkg/parser/hsms/parser.go
@@ -57,7 +57,9 @@ func Parse(input []byte) (msg ast.HSMSMessage, ok bool) {
 		}
 	}()
 
-	p := &parser{input: input}
+	// The capacity is cut to the length, so that no item can be read from
+	// whatever follows the message in the caller's buffer.
+	p := &parser{input: input[:len(input):len(input)]}
 	if ok := p.parseMessageLength(); !ok {
 		return p.msg, false
 	}
@@ -107,7 +109,7 @@ func (p *parser) parseMessage() (ok bool) {
 		sessionID := int(binary.BigEndian.Uint16(headerBytes[:2]))
 		systemBytes := headerBytes[6:10]
 		dataItem, ok := p.parseMessageText()
-		if !ok {
+		if !ok || p.pos != len(p.input) {
 			return false
 		}
 		p.msg = ast.NewHSMSDataMessage("", stream, function, waitBit, "H<->E", dataItem, sessionID, systemBytes)
-- 
2.43.0


From 8ea54aa68d3328e002e255b5e2852867bada3734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:13 +0000
Subject: [PATCH 03/66] fix: do not let a hostile list header exhaust memory or
 stack in the HSMS parser

A list header announcing 16M items allocated 256 MB before the first item was
looked at, and lists nested a few million deep ended the process with a stack
overflow, which recover cannot catch.
---
 lib-secs2-hsms-go/pkg/parser/hsms/parser.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lib-secs2-hsms-go/pkg/parser/hsms/parser.go b/lib-secs2-hsms-go/pkg/parser/hsms/parser.go
index 24dbd40..c63eb1f 100644
--- a/lib-secs2-hsms-go/pkg/parser/hsms/parser.go
+++ b/lib-secs2-hsms-go/pkg/parser/hsms/parser.go
@@ -42,6 +42,10 @@ const (
 	formatCodeU1      = 0o51
 	formatCodeU2      = 0o52
 	formatCodeU4      = 0o54
+
+	// maxListDepth bounds how deep lists may be nested in a message. The parser
+	// is recursive, and running out of stack cannot be recovered from.
+	maxListDepth = 256
 )
 
 // Parse parses the input bytes that represent a HSMS message.
@@ -73,6 +77,7 @@ type parser struct {
 	input     []byte          // a HSMS input message in bytes
 	pos       int             // current position in input
 	msgLength int             // message length (excluding length bytes)
+	depth     int             // number of lists being parsed
 	msg       ast.HSMSMessage // parsed HSMS message
 }
 
@@ -151,6 +156,11 @@ func (p *parser) parseMessageText() (dataItem ast.ItemNode, ok bool) {
 
 	switch formatCode {
 	case formatCodeList:
+		// Each item takes at least two bytes
+		if length > (len(p.input)-p.pos)/2 || p.depth >= maxListDepth {
+			return ast.NewEmptyItemNode(), false
+		}
+		p.depth += 1
 		values := make([]interface{}, length)
 		for i := 0; i < length; i++ {
 			values[i], ok = p.parseMessageText()
@@ -158,6 +168,7 @@ func (p *parser) parseMessageText() (dataItem ast.ItemNode, ok bool) {
 				return ast.NewEmptyItemNode(), false
 			}
 		}
+		p.depth -= 1
 		return ast.NewListNode(values...), true
 
 	case formatCodeASCII:
-- 
2.43.0


From 23c317045a6e88d37be1e8f089de49e166f52827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:13 +0000
Subject: [PATCH 04/66] fix: decode ASCII items in linear time

Appending byte by byte copied the string for every byte: an item of a megabyte
took minutes, with the receive loop blocked meanwhile.
---
 lib-secs2-hsms-go/pkg/parser/hsms/parser.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/lib-secs2-hsms-go/pkg/parser/hsms/parser.go b/lib-secs2-hsms-go/pkg/parser/hsms/parser.go
index c63eb1f..b7cb8a5 100644
--- a/lib-secs2-hsms-go/pkg/parser/hsms/parser.go
+++ b/lib-secs2-hsms-go/pkg/parser/hsms/parser.go
@@ -172,10 +172,7 @@ func (p *parser) parseMessageText() (dataItem ast.ItemNode, ok bool) {
 		return ast.NewListNode(values...), true
 
 	case formatCodeASCII:
-		var str string
-		for _, v := range p.input[p.pos : p.pos+length] {
-			str += string(v)
-		}
+		str := string(p.input[p.pos : p.pos+length])
 		p.pos += length
 		return ast.NewASCIINode(str), true
 
-- 
2.43.0


From 74d0b061259ca182536a9aa872513e00ee9d9945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:45 +0000
Subject: [PATCH 05/66] fix: check an item's length before reserving space for
 its elements

---
 lib-secs2-hsms-go/pkg/parser/hsms/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib-secs2-hsms-go/pkg/parser/hsms/parser.go b/lib-secs2-hsms-go/pkg/parser/hsms/parser.go
index b7cb8a5..074168b 100644
--- a/lib-secs2-hsms-go/pkg/parser/hsms/parser.go
+++ b/lib-secs2-hsms-go/pkg/parser/hsms/parser.go
@@ -154,6 +154,10 @@ func (p *parser) parseMessageText() (dataItem ast.ItemNode, ok bool) {
 	}
 	p.pos += lengthBytesCount
 
+	if formatCode != formatCodeList && length > len(p.input)-p.pos {
+		return ast.NewEmptyItemNode(), false
+	}
+
 	switch formatCode {
 	case formatCodeList:
 		// Each item takes at least two bytes
-- 
2.43.0


From aeb15f8598384b2a99d122b23fdfc1cf8e2ee2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:22 +0000
Subject: [PATCH 06/66] fix: do not lose the wakeup between Deque.Put and
 Deque.Get

Put signalled an unbuffered channel without waiting, so an item put after Get
had looked but before it was waiting stayed unseen until Get timed out: a reply
that had arrived in time was reported as a T3 or T6 timeout.
---
 utils/queue.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/utils/queue.go b/utils/queue.go
index e063378..b112817 100644
--- a/utils/queue.go
+++ b/utils/queue.go
@@ -14,13 +14,18 @@ type Deque struct {
 }
 
 func NewDeque() *Deque {
-	return &Deque{container: list.New(), notEmptyNotify: make(chan struct{})}
+	return &Deque{container: list.New(), notEmptyNotify: make(chan struct{}, 1)}
 }
 
 func (s *Deque) Put(item interface{}) {
 	s.Lock()
 	s.container.PushFront(item)
 	s.Unlock()
+	s.notify()
+}
+
+// notify leaves a token for one waiter; a token that is already there serves as well.
+func (s *Deque) notify() {
 	select {
 	case s.notEmptyNotify <- struct{}{}:
 	default:
@@ -44,12 +49,16 @@ func (s *Deque) Get(timeout int) (interface{}, error) {
 		select {
 		case <-s.notEmptyNotify:
 		case <-time.After(remaining):
-			return nil, errors.New("time out in Get")
+			// look once more: the item may have come together with the timeout
 		}
 		s.Lock()
 	}
 	lastContainerItem = s.container.Back()
 	item = s.container.Remove(lastContainerItem)
+	more := s.container.Len() > 0
 	s.Unlock()
+	if more {
+		s.notify() // for the next waiter
+	}
 	return item, nil
 }
-- 
2.43.0


From 247560bbcff1d493f6b3aabbbde26b746864ccaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:22 +0000
Subject: [PATCH 07/66] fix: check packet sizes in the FixLen codec

A packet above maxSend was sent with a cut-off length, which desynchronised the
stream, and an 8-byte length with the top bit set made Receive panic.
---
 codec/fixlen.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/codec/fixlen.go b/codec/fixlen.go
index 3425c7e..d428c09 100644
--- a/codec/fixlen.go
+++ b/codec/fixlen.go
@@ -123,7 +123,7 @@ func (c *fixlenCodec) Receive() (interface{}, error) {
 		return nil, err
 	}
 	size := c.headDecoder(c.headBuf)
-	if size > c.maxRecv {
+	if size < 0 || size > c.maxRecv {
 		return nil, ErrTooLargePacket
 	}
 	if cap(c.bodyBuf) < size {
@@ -146,6 +146,9 @@ func (c *fixlenCodec) Send(msg interface{}) error {
 		return err
 	}
 	buff := c.sendBuf.Bytes()
+	if len(buff)-c.n > c.maxSend {
+		return ErrTooLargePacket
+	}
 	c.headEncoder(buff, len(buff)-c.n)
 	_, err = c.rw.Write(buff)
 	return err
-- 
2.43.0


From d544b0f43c3162c575a7aa4099d5fe27fb6dbaad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:22 +0000
Subject: [PATCH 08/66] fix: return an error for a JSON message without body

Receive dereferenced a nil body, so {} from a peer ended the process; Send(nil)
panicked as well.
---
 codec/json.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/codec/json.go b/codec/json.go
index 0e24239..a518fb6 100644
--- a/codec/json.go
+++ b/codec/json.go
@@ -2,11 +2,15 @@ package codec
 
 import (
 	"encoding/json"
+	"errors"
 	link "github.com/younglifestyle/secs4go"
 	"io"
 	"reflect"
 )
 
+// ErrNoBody is returned for a message whose body is missing or null.
+var ErrNoBody = errors.New("json message without body")
+
 type JsonProtocol struct {
 	types map[string]reflect.Type
 	names map[reflect.Type]string
@@ -77,6 +81,9 @@ func (c *jsonCodec) Receive() (interface{}, error) {
 			body = reflect.New(t).Interface()
 		}
 	}
+	if in.Body == nil {
+		return nil, ErrNoBody
+	}
 	err = json.Unmarshal(*in.Body, &body)
 	if err != nil {
 		return nil, err
@@ -87,6 +94,9 @@ func (c *jsonCodec) Receive() (interface{}, error) {
 func (c *jsonCodec) Send(msg interface{}) error {
 	var out jsonOut
 	t := reflect.TypeOf(msg)
+	if t == nil {
+		return ErrNoBody
+	}
 	if t.Kind() == reflect.Ptr {
 		t = t.Elem()
 	}
-- 
2.43.0


From 30b495a5a43b182a64ec345866439de59d8fa211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:22 +0000
Subject: [PATCH 09/66] fix: keep Channel in step with sessions that close

The close callback of a session that had been replaced removed its successor,
and a session that closed while it was put stayed in the channel for good.
---
 channel.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/channel.go b/channel.go
index 225436c..d272772 100644
--- a/channel.go
+++ b/channel.go
@@ -48,9 +48,22 @@ func (channel *Channel) Put(key KEY, session *Session) {
 		channel.remove(key, session)
 	}
 	session.AddCloseCallback(channel, key, func() {
-		channel.Remove(key)
+		channel.removeClosed(key, session)
 	})
 	channel.sessions[key] = session
+	if session.IsClosed() {
+		// its close callbacks may have run already
+		delete(channel.sessions, key)
+	}
+}
+
+// removeClosed removes session, unless another one took its key in the meantime.
+func (channel *Channel) removeClosed(key KEY, session *Session) {
+	channel.mutex.Lock()
+	defer channel.mutex.Unlock()
+	if channel.sessions[key] == session {
+		delete(channel.sessions, key)
+	}
 }
 
 func (channel *Channel) remove(key KEY, session *Session) {
-- 
2.43.0


From 22aba5a6455e721a29cf6cd152f94900e3f04723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:22 +0000
Subject: [PATCH 10/66] fix: run session close callbacks without holding the
 callback lock

Channel.Put and Channel.Remove take the channel lock and then the callback
lock; the close callback they register takes them the other way round, so
closing a session while it was put or removed could deadlock the channel.
---
 session.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/session.go b/session.go
index a010324..fac1b0b 100644
--- a/session.go
+++ b/session.go
@@ -211,10 +211,14 @@ func (session *Session) RemoveCloseCallback(handler, key interface{}) {
 }
 
 func (session *Session) invokeCloseCallbacks() {
+	// Run them without the lock: a callback may wait for a lock (Channel's) whose
+	// holder is waiting to add or remove a callback.
 	session.closeMutex.Lock()
-	defer session.closeMutex.Unlock()
+	callback := session.firstCloseCallback
+	session.firstCloseCallback, session.lastCloseCallback = nil, nil
+	session.closeMutex.Unlock()
 
-	for callback := session.firstCloseCallback; callback != nil; callback = callback.Next {
+	for ; callback != nil; callback = callback.Next {
 		callback.Func()
 	}
 }
-- 
2.43.0


From 736b06aef2986a6f367bc08230c950fff952b16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:22 +0000
Subject: [PATCH 11/66] fix: build Reject.req from the message being rejected

NewHSMSMessageRejectReqFromMsg panicked for every message that can be received
(it asked for a type name no message has), so a linktest.req right behind a
separate.req ended the process; it also took the system bytes from the wrong
place.
---
 lib-secs2-hsms-go/pkg/ast/hsms.go | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/lib-secs2-hsms-go/pkg/ast/hsms.go b/lib-secs2-hsms-go/pkg/ast/hsms.go
index b1a6d17..14f4d16 100644
--- a/lib-secs2-hsms-go/pkg/ast/hsms.go
+++ b/lib-secs2-hsms-go/pkg/ast/hsms.go
@@ -205,26 +205,25 @@ func NewHSMSMessageRejectReq(sessionID uint16, pType, sType byte, systemBytes []
 	return &ControlMessage{header}
 }
 
-func NewHSMSMessageRejectReqFromMsg(rejectReq HSMSMessage, reasonCode byte) HSMSMessage {
-	if rejectReq.Type() != "Reject.req" {
-		panic("expected Reject.req message")
+// NewHSMSMessageRejectReqFromMsg creates HSMS Reject.req control message for the message being rejected.
+func NewHSMSMessageRejectReqFromMsg(rejected HSMSMessage, reasonCode byte) HSMSMessage {
+	raw := rejected.ToBytes()
+	if len(raw) < 14 {
+		panic("rejected message has no HSMS representation")
 	}
+	rejectedHeader := raw[4:14]
 
 	header := make([]byte, 10)
-	msg, _ := rejectReq.(*ControlMessage)
-	header[0] = msg.header[0]
-	header[1] = msg.header[1]
+	header[0] = rejectedHeader[0]
+	header[1] = rejectedHeader[1]
 	if reasonCode == 2 {
-		header[2] = msg.header[4] // pType
+		header[2] = rejectedHeader[4] // pType
 	} else {
-		header[2] = msg.header[5] // sType
+		header[2] = rejectedHeader[5] // sType
 	}
 	header[3] = reasonCode
 	header[5] = sTypeRejectReq
-	header[6] = msg.header[0]
-	header[7] = msg.header[1]
-	header[8] = msg.header[2]
-	header[9] = msg.header[3]
+	copy(header[6:10], rejectedHeader[6:10])
 
 	return &ControlMessage{header}
 }
-- 
2.43.0


From fa23b3168224d213e098c343788f027731852b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:09 +0000
Subject: [PATCH 12/66] fix: reserve memory for a message as it arrives

Receive allocated whatever length a peer announced, up to 4 GB, before any of
the message had arrived: four bytes were enough to exhaust memory.
---
 codec/secs2.go | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/codec/secs2.go b/codec/secs2.go
index ab38fe2..595be1a 100644
--- a/codec/secs2.go
+++ b/codec/secs2.go
@@ -13,6 +13,9 @@ import (
 var ErrMsgParsing = errors.New("message parsing error")
 var ErrMsgFormat = errors.New("message format error")
 
+// readAhead is the space reserved for a message before any of it has arrived.
+const readAhead = 64 * 1024
+
 type SecsIIProtocol struct{}
 
 func (s *SecsIIProtocol) NewCodec(rw io.ReadWriter) (link.Codec, error) {
@@ -51,16 +54,24 @@ func (c *secsIICodec) Receive() (interface{}, error) {
 	}
 
 	required := int(msgLength) + 4
-	if cap(c.bodyBuf) < required {
-		c.bodyBuf = make([]byte, required)
-	} else {
-		c.bodyBuf = c.bodyBuf[:required]
-	}
-
-	binary.BigEndian.PutUint32(c.bodyBuf, msgLength)
-
-	if _, err := io.ReadFull(c.rw, c.bodyBuf[4:required]); err != nil {
-		return nil, err
+	c.bodyBuf = append(c.bodyBuf[:0], c.headBuf...)
+	for len(c.bodyBuf) < required {
+		// The announced length is only the peer's word: grow with what arrives
+		have := len(c.bodyBuf)
+		want := required
+		if want > cap(c.bodyBuf) && want > 2*have+readAhead {
+			want = 2*have + readAhead
+		}
+		if want > cap(c.bodyBuf) {
+			grown := make([]byte, want)
+			copy(grown, c.bodyBuf)
+			c.bodyBuf = grown
+		} else {
+			c.bodyBuf = c.bodyBuf[:want]
+		}
+		if _, err := io.ReadFull(c.rw, c.bodyBuf[have:want]); err != nil {
+			return nil, err
+		}
 	}
 
 	msg, ok := hsms.Parse(c.bodyBuf[:required])
-- 
2.43.0


From d3c4d5639ec78c871290be978ae34147665a4ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:09 +0000
Subject: [PATCH 13/66] fix: ignore bytes after the header in
 NewHSMSControlMessage, as was meant

---
 lib-secs2-hsms-go/pkg/ast/hsms.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib-secs2-hsms-go/pkg/ast/hsms.go b/lib-secs2-hsms-go/pkg/ast/hsms.go
index 14f4d16..cf5b17c 100644
--- a/lib-secs2-hsms-go/pkg/ast/hsms.go
+++ b/lib-secs2-hsms-go/pkg/ast/hsms.go
@@ -54,7 +54,7 @@ type ControlMessage struct {
 func NewHSMSControlMessage(header []byte) HSMSMessage {
 	headerCopy := make([]byte, 10)
 	for i, b := range header {
-		if i > 10 {
+		if i >= 10 {
 			break
 		}
 		headerCopy[i] = b
-- 
2.43.0


From fd7d572774e1b6eebb1d1d8b093cb79bbb77c337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:32 +0000
Subject: [PATCH 14/66] fix: survive a connection that goes away while a
 control message is sent

The session is set and cleared by the receive goroutine while the linktest,
select and Disable paths use it from others, without a lock; the control paths
also dereferenced it when it was nil, for instance for a linktest that came due
after separate.req.
---
 hsms/connection.go | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/hsms/connection.go b/hsms/connection.go
index a635b6e..60123b8 100644
--- a/hsms/connection.go
+++ b/hsms/connection.go
@@ -2,6 +2,7 @@ package hsms
 
 import (
 	"fmt"
+	"sync"
 
 	link "github.com/younglifestyle/secs4go"
 	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
@@ -25,7 +26,9 @@ type HsmsConnection struct {
 	remotePort    int
 	sessionID     int
 	hp            *HsmsProtocol
-	connection    *link.Session
+
+	mu         sync.RWMutex // guards connection
+	connection *link.Session
 }
 
 func NewHsmsConnection(active bool, address string, port int, sessionID int, delegate *HsmsProtocol) *HsmsConnection {
@@ -40,31 +43,37 @@ func NewHsmsConnection(active bool, address string, port int, sessionID int, del
 }
 
 func (c *HsmsConnection) Session() *link.Session {
+	c.mu.RLock()
+	defer c.mu.RUnlock()
 	return c.connection
 }
 
 func (c *HsmsConnection) SetSession(session *link.Session) {
+	c.mu.Lock()
+	defer c.mu.Unlock()
 	c.connection = session
 }
 
 func (c *HsmsConnection) Send(msg interface{}) error {
-	if c.connection == nil {
+	session := c.Session()
+	if session == nil {
 		return ErrNotConnected
 	}
-	return c.connection.Send(msg)
+	return session.Send(msg)
 }
 
 func (c *HsmsConnection) Close() error {
-	if c.connection == nil {
+	session := c.Session()
+	if session == nil {
 		return nil
 	}
-	return c.connection.Close()
+	return session.Close()
 }
 
 func (c *HsmsConnection) sendRejectRsp(packet ast.HSMSMessage, reasonCode byte) {
 	rejectReq := ast.NewHSMSMessageRejectReqFromMsg(packet, reasonCode)
 	c.hp.logControlMessage("TX", rejectReq)
-	if err := c.connection.Send(rejectReq.ToBytes()); err != nil {
+	if err := c.Send(rejectReq.ToBytes()); err != nil {
 		c.hp.logger.Error("send reject rsp failed", "error", err)
 	}
 }
@@ -76,7 +85,7 @@ func (c *HsmsConnection) sendLinktestReq() {
 
 	message := ast.NewHSMSMessageLinktestReq(c.hp.encodeSystemID(systemID))
 	c.hp.logControlMessage("TX", message)
-	if err := c.connection.Send(message.ToBytes()); err != nil {
+	if err := c.Send(message.ToBytes()); err != nil {
 		c.hp.logger.Error("send linktest.req failed", "error", err)
 		return
 	}
@@ -89,7 +98,7 @@ func (c *HsmsConnection) sendLinktestReq() {
 func (c *HsmsConnection) sendDeselectRsp(message ast.HSMSMessage, status ControlStatus) {
 	response := ast.NewHSMSMessageDeselectRsp(message, byte(status))
 	c.hp.logControlMessage("TX", response)
-	if err := c.connection.Send(response.ToBytes()); err != nil {
+	if err := c.Send(response.ToBytes()); err != nil {
 		c.hp.logger.Error("send deselect.rsp failed", "error", err)
 	}
 }
@@ -97,7 +106,7 @@ func (c *HsmsConnection) sendDeselectRsp(message ast.HSMSMessage, status Control
 func (c *HsmsConnection) sendSelectRsp(message ast.HSMSMessage, status ControlStatus) {
 	response := ast.NewHSMSMessageSelectRsp(message, byte(status))
 	c.hp.logControlMessage("TX", response)
-	if err := c.connection.Send(response.ToBytes()); err != nil {
+	if err := c.Send(response.ToBytes()); err != nil {
 		c.hp.logger.Error("send select.rsp failed", "error", err)
 	}
 }
@@ -105,7 +114,7 @@ func (c *HsmsConnection) sendSelectRsp(message ast.HSMSMessage, status ControlSt
 func (c *HsmsConnection) sendLinkTestRsp(message ast.HSMSMessage) {
 	response := ast.NewHSMSMessageLinktestRsp(message)
 	c.hp.logControlMessage("TX", response)
-	if err := c.connection.Send(response.ToBytes()); err != nil {
+	if err := c.Send(response.ToBytes()); err != nil {
 		c.hp.logger.Error("send linktest.rsp failed", "error", err)
 	}
 }
@@ -113,7 +122,7 @@ func (c *HsmsConnection) sendLinkTestRsp(message ast.HSMSMessage) {
 func (c *HsmsConnection) sendReject(message ast.HSMSMessage, reason RejectReason) {
 	reject := ast.NewHSMSMessageRejectReqFromMsg(message, byte(reason))
 	c.hp.logControlMessage("TX", reject)
-	if err := c.connection.Send(reject.ToBytes()); err != nil {
+	if err := c.Send(reject.ToBytes()); err != nil {
 		c.hp.logger.Error("send reject.req failed", "error", err)
 	}
 }
@@ -125,7 +134,7 @@ func (c *HsmsConnection) sendSelectReq() error {
 
 	request := ast.NewHSMSMessageSelectReq(uint16(c.hp.sessionID), c.hp.encodeSystemID(systemID))
 	c.hp.logControlMessage("TX", request)
-	if err := c.connection.Send(request.ToBytes()); err != nil {
+	if err := c.Send(request.ToBytes()); err != nil {
 		c.hp.logger.Error("send select.req failed", "error", err)
 		return err
 	}
@@ -158,7 +167,7 @@ func (c *HsmsConnection) sendDeselectReq() error {
 
 	request := ast.NewHSMSMessageDeselectReq(uint16(c.hp.sessionID), c.hp.encodeSystemID(systemID))
 	c.hp.logControlMessage("TX", request)
-	if err := c.connection.Send(request.ToBytes()); err != nil {
+	if err := c.Send(request.ToBytes()); err != nil {
 		c.hp.logger.Error("send deselect.req failed", "error", err)
 		return err
 	}
-- 
2.43.0


From b162b19eaa49e3e7689d3deb57b02ae9b51a0da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:32 +0000
Subject: [PATCH 15/66] fix: end the linktest loop together with its connection

A connection that dropped before its linktest loop had started left the loop
running for good, one more for every such connection: all of them sent linktests
on later connections and none ended with Disable. A linktest interval of zero
ended the process with a panic in NewTicker.
---
 hsms/protocol.go | 79 ++++++++++++++++++++++++------------------------
 1 file changed, 39 insertions(+), 40 deletions(-)

diff --git a/hsms/protocol.go b/hsms/protocol.go
index 8520fa6..d650db5 100644
--- a/hsms/protocol.go
+++ b/hsms/protocol.go
@@ -97,9 +97,8 @@ type HsmsProtocol struct {
 	handlers       map[string]DataMessageHandler
 	defaultHandler DataMessageHandler
 
-	linktestTimerMu sync.Mutex
-	linktestTimer   *time.Ticker
-	disconnectFlg   chan struct{}
+	linktestMu   sync.Mutex
+	linktestStop chan struct{} // ends the linktest loop of the current connection
 
 	t7TimerMu sync.Mutex
 	t7Timer   *time.Timer
@@ -133,7 +132,6 @@ func NewHsmsProtocol(address string, port int, active bool, sessionID int, name
 		timeouts:             NewSecsTimeout(),
 		systemQueues:         make(map[uint32]*utils.Deque),
 		handlers:             make(map[string]DataMessageHandler),
-		disconnectFlg:        make(chan struct{}, 1),
 		connectThreadRunning: atomic.NewBool(false),
 	}
 	h.logCfg.Writer = os.Stderr
@@ -150,54 +148,58 @@ func NewHsmsProtocol(address string, port int, active bool, sessionID int, name
 	return h
 }
 
-func (p *HsmsProtocol) clearDisconnectFlag() {
-	for {
-		select {
-		case <-p.disconnectFlg:
-		default:
-			return
-		}
-	}
+// newLinktestStop returns the channel that stopLinktestTimer closes, for the
+// linktest loop of a connection that is being established.
+func (p *HsmsProtocol) newLinktestStop() <-chan struct{} {
+	p.stopLinktestTimer()
+
+	p.linktestMu.Lock()
+	defer p.linktestMu.Unlock()
+	p.linktestStop = make(chan struct{})
+	return p.linktestStop
 }
 
-func (p *HsmsProtocol) startLinktestTimer() {
-	ticker := time.NewTicker(time.Duration(p.timeouts.Linktest()) * time.Second)
+// startLinktestTimer sends linktest.req periodically until stop is closed.
+// An interval of zero or less turns the linktest off.
+func (p *HsmsProtocol) startLinktestTimer(stop <-chan struct{}) {
+	interval := time.Duration(p.timeouts.Linktest()) * time.Second
+	if interval <= 0 {
+		return
+	}
 
-	p.linktestTimerMu.Lock()
-	p.linktestTimer = ticker
-	p.linktestTimerMu.Unlock()
+	select {
+	case <-stop:
+		return
+	default:
+	}
 
-	defer func() {
-		ticker.Stop()
-		p.linktestTimerMu.Lock()
-		if p.linktestTimer == ticker {
-			p.linktestTimer = nil
-		}
-		p.linktestTimerMu.Unlock()
-	}()
+	ticker := time.NewTicker(interval)
+	defer ticker.Stop()
 
-	p.clearDisconnectFlag()
 	p.hsmsConnection.sendLinktestReq()
 
 	for {
 		select {
+		case <-stop:
+			return
 		case <-ticker.C:
+			select {
+			case <-stop:
+				return
+			default:
+			}
 			p.hsmsConnection.sendLinktestReq()
-		case <-p.disconnectFlg:
-			return
 		}
 	}
 }
 
 func (p *HsmsProtocol) stopLinktestTimer() {
-	p.linktestTimerMu.Lock()
-	defer p.linktestTimerMu.Unlock()
+	p.linktestMu.Lock()
+	defer p.linktestMu.Unlock()
 
-	if p.linktestTimer != nil {
-		select {
-		case p.disconnectFlg <- struct{}{}:
-		default:
-		}
+	if p.linktestStop != nil {
+		close(p.linktestStop)
+		p.linktestStop = nil
 	}
 }
 
@@ -260,6 +262,7 @@ func (p *HsmsProtocol) onStateDisconnect(ctx context.Context, _ *fsm.Event) {
 
 // onStateConnect is triggered when the HSMS connection transitions out of NOT-CONNECTED.
 func (p *HsmsProtocol) onStateConnect(ctx context.Context, _ *fsm.Event) {
+	stopLinktest := p.newLinktestStop()
 	go func() {
 		if p.active {
 			if err := p.hsmsConnection.sendSelectReq(); err != nil {
@@ -272,7 +275,7 @@ func (p *HsmsProtocol) onStateConnect(ctx context.Context, _ *fsm.Event) {
 			return
 		}
 
-		p.startLinktestTimer()
+		p.startLinktestTimer(stopLinktest)
 	}()
 }
 
@@ -352,10 +355,6 @@ func (p *HsmsProtocol) Disable() {
 			// allow a brief moment for remote to process before closing
 			time.Sleep(200 * time.Millisecond)
 		}
-		select {
-		case p.disconnectFlg <- struct{}{}:
-		default:
-		}
 		if err := p.hsmsConnection.Close(); err != nil {
 			p.logger.Error("close session failed", "error", err)
 		}
-- 
2.43.0


From e3f49c23af84875d5de31707af36d01b27dae57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:33 +0000
Subject: [PATCH 16/66] fix: let Enable and Disable take effect whatever the
 connect thread is doing

Disable while the passive side was about to listen found no server to stop, so
the port stayed open; Enable while the connect thread was on its way out relied
on that thread, so nothing connected any more.
---
 hsms/protocol.go | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/hsms/protocol.go b/hsms/protocol.go
index d650db5..f04ed9d 100644
--- a/hsms/protocol.go
+++ b/hsms/protocol.go
@@ -92,6 +92,7 @@ type HsmsProtocol struct {
 	connDone   chan struct{}
 
 	connectThreadRunning *atomic.Bool
+	reenabled            *atomic.Bool // Enable found the connect thread still running
 
 	handlerMu      sync.RWMutex
 	handlers       map[string]DataMessageHandler
@@ -133,6 +134,7 @@ func NewHsmsProtocol(address string, port int, active bool, sessionID int, name
 		systemQueues:         make(map[uint32]*utils.Deque),
 		handlers:             make(map[string]DataMessageHandler),
 		connectThreadRunning: atomic.NewBool(false),
+		reenabled:            atomic.NewBool(false),
 	}
 	h.logCfg.Writer = os.Stderr
 	h.logCfg.Mode = LoggingModeSML
@@ -324,7 +326,9 @@ func (p *HsmsProtocol) OnConnectionEstablished() {
 // Enable starts the connection manager.
 func (p *HsmsProtocol) Enable() {
 	if p.enabled.CompareAndSwap(false, true) {
+		p.reenabled.Store(true)
 		if p.connectThreadRunning.CompareAndSwap(false, true) {
+			p.reenabled.Store(false)
 			go p.startConnectThread()
 		}
 	}
@@ -384,8 +388,24 @@ func (p *HsmsProtocol) waitForConnectionClosure(timeout time.Duration) {
 }
 
 func (p *HsmsProtocol) startConnectThread() {
-	defer p.connectThreadRunning.Store(false)
+	for {
+		p.connectLoop()
+		p.connectThreadRunning.Store(false)
+
+		// Enable may have come after the loop had seen the protocol disabled,
+		// and left it to this thread to go on.
+		if !p.reenabled.CompareAndSwap(true, false) || !p.enabled.Load() {
+			return
+		}
+		if !p.connectThreadRunning.CompareAndSwap(false, true) {
+			return
+		}
+	}
+}
+
+func (p *HsmsProtocol) connectLoop() {
 	for p.enabled.Load() {
+		p.reenabled.Store(false)
 		if p.active {
 			if err := p.activeConnect(); err != nil {
 				if !p.enabled.Load() {
@@ -448,6 +468,12 @@ func (p *HsmsProtocol) passiveConnect() error {
 	}
 
 	p.serverMu.Lock()
+	if !p.enabled.Load() {
+		// Disable came first and had no server to stop
+		p.serverMu.Unlock()
+		server.Stop()
+		return nil
+	}
 	p.server = server
 	p.serverMu.Unlock()
 
-- 
2.43.0


From d43bc4f1f376530a916865441f4f3847226139a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:33 +0000
Subject: [PATCH 17/66] fix: do not take the peer's primary for the reply to an
 open transaction

Both sides choose their system bytes on their own, so a primary can carry those
of a transaction that is open the other way; it was handed to SendAndWait as
the reply and never reached its handler.
---
 hsms/protocol.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/hsms/protocol.go b/hsms/protocol.go
index f04ed9d..bbcd167 100644
--- a/hsms/protocol.go
+++ b/hsms/protocol.go
@@ -907,10 +907,14 @@ func (p *HsmsProtocol) OnConnectionEstablishedAndStartReceiver(connection *link.
 			continue
 		}
 
-		systemID := binary.BigEndian.Uint32(dataMessage.SystemBytes())
-		if queue, ok := p.fetchQueue(systemID); ok {
-			queue.Put(dataMessage)
-			continue
+		// Only a reply (or an error report on our primary) ends a transaction:
+		// the peer numbers its primaries independently of ours.
+		if dataMessage.FunctionCode()%2 == 0 || dataMessage.StreamCode() == 9 {
+			systemID := binary.BigEndian.Uint32(dataMessage.SystemBytes())
+			if queue, ok := p.fetchQueue(systemID); ok {
+				queue.Put(dataMessage)
+				continue
+			}
 		}
 
 		p.handleDataMessage(dataMessage)
-- 
2.43.0


From 9c623cb01d07fad888e6671ffe1d285c307dd979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:34 +0000
Subject: [PATCH 18/66] fix: ignore select.rsp and deselect.rsp that answer no
 request

An unsolicited select.rsp put either side into SELECTED, and an unsolicited or
refusing deselect.rsp took it out.
---
 hsms/protocol.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/hsms/protocol.go b/hsms/protocol.go
index bbcd167..957cb86 100644
--- a/hsms/protocol.go
+++ b/hsms/protocol.go
@@ -563,9 +563,12 @@ func (p *HsmsProtocol) handleHsmsRequests(message ast.HSMSMessage) {
 		}
 
 	case hsms.SelectRspStr:
-		if queue, ok := p.fetchQueue(systemID); ok {
-			queue.Put(message)
+		queue, ok := p.fetchQueue(systemID)
+		if !ok {
+			p.logger.Warn("received select.rsp without select.req")
+			return
 		}
+		queue.Put(message)
 		ctrl, ok := message.(*ast.ControlMessage)
 		if !ok {
 			p.logger.Warn("received malformed select.rsp")
@@ -595,12 +598,17 @@ func (p *HsmsProtocol) handleHsmsRequests(message ast.HSMSMessage) {
 		}
 
 	case hsms.DeselectRspStr:
-		if err := p.connectionState.Deselect(); err != nil {
-			p.logger.Error("change state to NOT-SELECTED failed", "error", err)
+		queue, ok := p.fetchQueue(systemID)
+		if !ok {
+			p.logger.Warn("received deselect.rsp without deselect.req")
+			return
 		}
-		if queue, ok := p.fetchQueue(systemID); ok {
-			queue.Put(message)
+		if ctrl, ok := message.(*ast.ControlMessage); ok && ControlStatus(ctrl.Status()) == ControlStatusAccepted {
+			if err := p.connectionState.Deselect(); err != nil {
+				p.logger.Error("change state to NOT-SELECTED failed", "error", err)
+			}
 		}
+		queue.Put(message)
 
 	case hsms.LinktestReqStr:
 		if !p.connected.Load() {
-- 
2.43.0


From e1642b36ec421f8aba319b4593d4141e5faf6fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:34 +0000
Subject: [PATCH 19/66] fix: send no reply to a message that does not ask for
 one

Handlers answer whatever they are given, so S5F1 and S6F11 sent without the
wait bit were answered all the same, and the sender, which had no transaction
open, reported each answer to the host as an unrecognized function (S9F5).
---
 hsms/protocol.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hsms/protocol.go b/hsms/protocol.go
index 957cb86..682b7e6 100644
--- a/hsms/protocol.go
+++ b/hsms/protocol.go
@@ -653,6 +653,12 @@ func (p *HsmsProtocol) invokeHandler(handler DataMessageHandler, msg *ast.DataMe
 		return
 	}
 
+	// A reply nobody waits for would reach the sender as an unknown function
+	if msg.WaitBit() != "true" {
+		p.logger.Debug("reply not requested, not sent", "stream", msg.StreamCode(), "function", msg.FunctionCode())
+		return
+	}
+
 	response = response.SetSessionIDAndSystemBytes(p.sessionID, msg.SystemBytes())
 	if response.WaitBit() == "optional" {
 		response = response.SetWaitBit(false)
-- 
2.43.0


From 805de6124bca7e927588ca159fe6d49865dbaaff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:32 +0000
Subject: [PATCH 20/66] fix: use a valid direction in the clock and alarm
 replies

ast.NewDataMessage panics on "E->H", so S2F17, S2F31, S5F3, S5F5 and S5F7
took the equipment process down.
---
 gem/alarm_handlers.go | 6 +++---
 gem/clock_handlers.go | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/gem/alarm_handlers.go b/gem/alarm_handlers.go
index bb5ade2..1a8a932 100644
--- a/gem/alarm_handlers.go
+++ b/gem/alarm_handlers.go
@@ -119,7 +119,7 @@ func (g *GemHandler) onS5F7(msg *ast.DataMessage) (*ast.DataMessage, error) {
 //   3 - At least one ALID cannot be enabled
 func (g *GemHandler) buildS5F4(ackc5 byte) *ast.DataMessage {
 	body := ast.NewBinaryNode(int(ackc5))
-	return ast.NewDataMessage("EnableAlarmAck", 5, 4, 0, "E->H", body)
+	return ast.NewDataMessage("EnableAlarmAck", 5, 4, 0, "H<-E", body)
 }
 
 // buildS5F6 creates S5F6 response with alarm list.
@@ -146,7 +146,7 @@ func (g *GemHandler) buildS5F6(alarms []AlarmInfo) *ast.DataMessage {
 	}
 
 	body := ast.NewListNode(items...)
-	return ast.NewDataMessage("AlarmListData", 5, 6, 0, "E->H", body)
+	return ast.NewDataMessage("AlarmListData", 5, 6, 0, "H<-E", body)
 }
 
 // buildS5F8 creates S5F8 response with enabled alarm list (same format as S5F6).
@@ -169,7 +169,7 @@ func (g *GemHandler) buildS5F8(alarms []AlarmInfo) *ast.DataMessage {
 	}
 
 	body := ast.NewListNode(items...)
-	return ast.NewDataMessage("EnabledAlarmListData", 5, 8, 0, "E->H", body)
+	return ast.NewDataMessage("EnabledAlarmListData", 5, 8, 0, "H<-E", body)
 }
 
 // Public APIs for alarm management (Equipment side)
diff --git a/gem/clock_handlers.go b/gem/clock_handlers.go
index cf81a7c..3761ad5 100644
--- a/gem/clock_handlers.go
+++ b/gem/clock_handlers.go
@@ -15,7 +15,7 @@ func (g *GemHandler) onS2F17(msg *ast.DataMessage) (*ast.DataMessage, error) {
 
 	// Build S2F18 response
 	body := ast.NewASCIINode(timeStr)
-	return ast.NewDataMessage("DateTimeData", 2, 18, 0, "E->H", body), nil
+	return ast.NewDataMessage("DateTimeData", 2, 18, 0, "H<-E", body), nil
 }
 
 // onS2F31 handles Date and Time Set Request (Equipment side).
@@ -54,7 +54,7 @@ func (g *GemHandler) onS2F31(msg *ast.DataMessage) (*ast.DataMessage, error) {
 // buildS2F32 creates S2F32 response with TIACK code.
 func (g *GemHandler) buildS2F32(tiack byte) *ast.DataMessage {
 	body := ast.NewBinaryNode(int(tiack))
-	return ast.NewDataMessage("DateTimeSetAck", 2, 32, 0, "E->H", body)
+	return ast.NewDataMessage("DateTimeSetAck", 2, 32, 0, "H<-E", body)
 }
 
 // Public APIs for clock management
-- 
2.43.0


From 46d5f1ab6dabbeafd5ebd717d4e97e81629a834b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:32 +0000
Subject: [PATCH 21/66] fix: encode missing values as zero-length lists

An EmptyItemNode has no encoding, so replies naming an unknown SVID, ECID or
PPID were malformed, and two such items in one list made NewListNode panic.
---
 gem/collection_event_handlers.go |  4 ++--
 gem/process_program_handlers.go  | 10 +++++-----
 gem/remote_command.go            |  2 +-
 gem/status_equipment_handlers.go | 24 ++++++++++++------------
 gem/status_equipment_messages.go | 15 +++++++++++----
 5 files changed, 31 insertions(+), 24 deletions(-)

diff --git a/gem/collection_event_handlers.go b/gem/collection_event_handlers.go
index 6743e92..d74ef69 100644
--- a/gem/collection_event_handlers.go
+++ b/gem/collection_event_handlers.go
@@ -141,7 +141,7 @@ func (g *GemHandler) collectReportValues(report *ReportDefinition) []interface{}
 		if node := g.resolveVIDValue(vidKey); node != nil {
 			values = append(values, node)
 		} else {
-			values = append(values, ast.NewEmptyItemNode())
+			values = append(values, noValueNode())
 		}
 	}
 	return values
@@ -171,7 +171,7 @@ func safeDataVariableValue(variable *DataVariable, logger common.Logger) ast.Ite
 		if err != nil {
 			logger.Error("data variable value error", "dvid", variable.ID(), "error", err)
 		}
-		return ast.NewEmptyItemNode()
+		return noValueNode()
 	}
 	return value
 }
diff --git a/gem/process_program_handlers.go b/gem/process_program_handlers.go
index 4cbf641..981635e 100644
--- a/gem/process_program_handlers.go
+++ b/gem/process_program_handlers.go
@@ -80,20 +80,20 @@ func (g *GemHandler) onS7F3(msg *ast.DataMessage) (*ast.DataMessage, error) {
 
 func (g *GemHandler) onS7F5(msg *ast.DataMessage) (*ast.DataMessage, error) {
 	if msg == nil {
-		return g.buildS7F6(ast.NewEmptyItemNode(), "", 1), nil
+		return g.buildS7F6(noValueNode(), "", 1), nil
 	}
 	root, err := msg.Get()
 	if err != nil {
-		return g.buildS7F6(ast.NewEmptyItemNode(), "", 1), nil
+		return g.buildS7F6(noValueNode(), "", 1), nil
 	}
 	var ppidNode ast.ItemNode
 	if list, ok := root.(*ast.ListNode); ok {
 		if list.Size() == 0 {
-			return g.buildS7F6(ast.NewEmptyItemNode(), "", 1), nil
+			return g.buildS7F6(noValueNode(), "", 1), nil
 		}
 		first, err := list.Get(0)
 		if err != nil {
-			return g.buildS7F6(ast.NewEmptyItemNode(), "", 1), nil
+			return g.buildS7F6(noValueNode(), "", 1), nil
 		}
 		ppidNode = first
 	} else {
@@ -101,7 +101,7 @@ func (g *GemHandler) onS7F5(msg *ast.DataMessage) (*ast.DataMessage, error) {
 	}
 	ppidInfo, err := newIDInfoFromNode(ppidNode)
 	if err != nil {
-		return g.buildS7F6(ast.NewEmptyItemNode(), "", 1), nil
+		return g.buildS7F6(noValueNode(), "", 1), nil
 	}
 
 	body := ""
diff --git a/gem/remote_command.go b/gem/remote_command.go
index fae4198..7233d75 100644
--- a/gem/remote_command.go
+++ b/gem/remote_command.go
@@ -263,7 +263,7 @@ func parseRemoteCommandAck(msg *ast.DataMessage) (RemoteCommandResult, error) {
 func itemNodeFromValue(value interface{}) (ast.ItemNode, error) {
 	switch v := value.(type) {
 	case nil:
-		return ast.NewEmptyItemNode(), nil
+		return noValueNode(), nil
 	case ast.ItemNode:
 		return v, nil
 	case string:
diff --git a/gem/status_equipment_handlers.go b/gem/status_equipment_handlers.go
index a31a1bb..c566915 100644
--- a/gem/status_equipment_handlers.go
+++ b/gem/status_equipment_handlers.go
@@ -124,13 +124,13 @@ func (g *GemHandler) resolveStatusValues(requests []idRequest) []ast.ItemNode {
 	values := make([]ast.ItemNode, 0, len(requests))
 	for _, req := range requests {
 		if !req.ok {
-			values = append(values, ast.NewEmptyItemNode())
+			values = append(values, noValueNode())
 			continue
 		}
 		if variable, ok := g.statusVars[req.info.key]; ok {
 			values = append(values, safeStatusValue(variable, g.logger))
 		} else {
-			values = append(values, ast.NewEmptyItemNode())
+			values = append(values, noValueNode())
 		}
 	}
 	return values
@@ -153,7 +153,7 @@ func (g *GemHandler) resolveStatusInfo(requests []idRequest) []ast.ItemNode {
 	entries := make([]ast.ItemNode, 0, len(requests))
 	for _, req := range requests {
 		if !req.ok {
-			entries = append(entries, ast.NewListNode(ast.NewEmptyItemNode(), ast.NewASCIINode(""), ast.NewASCIINode("")))
+			entries = append(entries, ast.NewListNode(noValueNode(), ast.NewASCIINode(""), ast.NewASCIINode("")))
 			continue
 		}
 		if variable, ok := g.statusVars[req.info.key]; ok {
@@ -172,7 +172,7 @@ func safeStatusValue(variable *StatusVariable, logger common.Logger) ast.ItemNod
 		if err != nil {
 			logger.Error("status variable value error", "svid", variable.ID(), "error", err)
 		}
-		return ast.NewEmptyItemNode()
+		return noValueNode()
 	}
 	return value
 }
@@ -202,13 +202,13 @@ func (g *GemHandler) resolveEquipmentConstantValues(requests []idRequest) []ast.
 	values := make([]ast.ItemNode, 0, len(requests))
 	for _, req := range requests {
 		if !req.ok {
-			values = append(values, ast.NewEmptyItemNode())
+			values = append(values, noValueNode())
 			continue
 		}
 		if constant, ok := g.equipmentConstants[req.info.key]; ok {
 			values = append(values, safeEquipmentConstantValue(constant, g.logger))
 		} else {
-			values = append(values, ast.NewEmptyItemNode())
+			values = append(values, noValueNode())
 		}
 	}
 	return values
@@ -249,7 +249,7 @@ func safeEquipmentConstantValue(constant *EquipmentConstant, logger common.Logge
 		if err != nil {
 			logger.Error("equipment constant value error", "ecid", constant.ID(), "error", err)
 		}
-		return ast.NewEmptyItemNode()
+		return noValueNode()
 	}
 	return value
 }
@@ -257,15 +257,15 @@ func safeEquipmentConstantValue(constant *EquipmentConstant, logger common.Logge
 func buildEquipmentConstantInfoNode(constant *EquipmentConstant) ast.ItemNode {
 	minNode := constant.MinValue
 	if minNode == nil {
-		minNode = ast.NewEmptyItemNode()
+		minNode = noValueNode()
 	}
 	maxNode := constant.MaxValue
 	if maxNode == nil {
-		maxNode = ast.NewEmptyItemNode()
+		maxNode = noValueNode()
 	}
 	defNode := constant.DefaultValue
 	if defNode == nil {
-		defNode = ast.NewEmptyItemNode()
+		defNode = noValueNode()
 	}
 
 	return ast.NewListNode(
@@ -279,11 +279,11 @@ func buildEquipmentConstantInfoNode(constant *EquipmentConstant) ast.ItemNode {
 }
 
 func emptyEquipmentConstantInfo(req idRequest) ast.ItemNode {
-	idNode := ast.NewEmptyItemNode()
+	idNode := noValueNode()
 	if req.ok {
 		idNode = req.info.node
 	}
-	return ast.NewListNode(idNode, ast.NewASCIINode(""), ast.NewEmptyItemNode(), ast.NewEmptyItemNode(), ast.NewEmptyItemNode(), ast.NewASCIINode(""))
+	return ast.NewListNode(idNode, ast.NewASCIINode(""), noValueNode(), noValueNode(), noValueNode(), ast.NewASCIINode(""))
 }
 
 func parseIDRequestList(msg *ast.DataMessage) ([]idRequest, error) {
diff --git a/gem/status_equipment_messages.go b/gem/status_equipment_messages.go
index 55e4683..d04f58e 100644
--- a/gem/status_equipment_messages.go
+++ b/gem/status_equipment_messages.go
@@ -6,6 +6,13 @@ import (
 	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
 )
 
+// noValueNode stands for a missing value inside a list. A zero-length list is
+// how SECS-II writes it; an EmptyItemNode encodes to no bytes at all, which
+// leaves the enclosing list short of an element.
+func noValueNode() ast.ItemNode {
+	return ast.NewListNode()
+}
+
 func (g *GemHandler) buildS1F3(ids []idInfo) *ast.DataMessage {
 	items := make([]interface{}, 0, len(ids))
 	for _, id := range ids {
@@ -19,7 +26,7 @@ func (g *GemHandler) buildS1F4(values []ast.ItemNode) *ast.DataMessage {
 	nodes := make([]interface{}, 0, len(values))
 	for _, value := range values {
 		if value == nil {
-			nodes = append(nodes, ast.NewEmptyItemNode())
+			nodes = append(nodes, noValueNode())
 		} else {
 			nodes = append(nodes, value)
 		}
@@ -59,7 +66,7 @@ func (g *GemHandler) buildS2F14(values []ast.ItemNode) *ast.DataMessage {
 	nodes := make([]interface{}, 0, len(values))
 	for _, value := range values {
 		if value == nil {
-			nodes = append(nodes, ast.NewEmptyItemNode())
+			nodes = append(nodes, noValueNode())
 		} else {
 			nodes = append(nodes, value)
 		}
@@ -199,7 +206,7 @@ func (g *GemHandler) buildS6F16(dataID int, ceNode ast.ItemNode, reports []ast.I
 	for _, rpt := range reports {
 		reportNodes = append(reportNodes, rpt)
 	}
-	var ceItem ast.ItemNode = ast.NewEmptyItemNode()
+	var ceItem ast.ItemNode = noValueNode()
 	if ceNode != nil {
 		ceItem = ceNode
 	}
@@ -228,7 +235,7 @@ func (g *GemHandler) buildS7F5(ppid idInfo) *ast.DataMessage {
 func (g *GemHandler) buildS7F6(ppid ast.ItemNode, programBody string, ack int) *ast.DataMessage {
 	ppidNode := ppid
 	if ppidNode == nil {
-		ppidNode = ast.NewEmptyItemNode()
+		ppidNode = noValueNode()
 	}
 	bodyNode := ast.NewASCIINode(programBody)
 	if ack != 0 {
-- 
2.43.0


From d34cf5cf5b4c7577ed746e12c10f7937ddc40abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:33 +0000
Subject: [PATCH 22/66] fix: encode identifiers above 32 bits as U8

---
 gem/id_utils.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gem/id_utils.go b/gem/id_utils.go
index 299d75b..2474fba 100644
--- a/gem/id_utils.go
+++ b/gem/id_utils.go
@@ -2,6 +2,7 @@ package gem
 
 import (
 	"fmt"
+	"math"
 
 	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
 )
@@ -57,7 +58,11 @@ func newIDInfo(value interface{}) (idInfo, error) {
 }
 
 func newIDInfoFromUint(value uint64) (idInfo, error) {
-	node := ast.NewUintNode(4, value)
+	byteSize := 4
+	if value > math.MaxUint32 {
+		byteSize = 8
+	}
+	node := ast.NewUintNode(byteSize, value)
 	return idInfo{raw: value, node: node, key: fmt.Sprintf("N:%d", value)}, nil
 }
 
-- 
2.43.0


From 5fb539b1ecd4756e11a1c3dddcac0337521e7b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:33 +0000
Subject: [PATCH 23/66] fix: encode every alarm ID

S5F1 carried the ALID in two bytes, so raising an alarm above 65535 panicked,
as did listing one outside 32 bits.
---
 gem/alarm.go          | 15 ++++++++++++++-
 gem/alarm_client.go   |  2 +-
 gem/alarm_handlers.go |  4 ++--
 3 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/gem/alarm.go b/gem/alarm.go
index 4f693fb..95df9fe 100644
--- a/gem/alarm.go
+++ b/gem/alarm.go
@@ -2,6 +2,7 @@ package gem
 
 import (
 	"fmt"
+	"math"
 	"sort"
 
 	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
@@ -125,7 +126,7 @@ func (g *GemHandler) buildS5F1(alarm Alarm, set bool) *ast.DataMessage {
 
 	body := ast.NewListNode(
 		ast.NewBinaryNode(alcd),
-		ast.NewUintNode(2, alarm.ID),
+		alarmIDNode(alarm.ID),
 		ast.NewASCIINode(alarm.Text),
 	)
 
@@ -142,6 +143,18 @@ func (g *GemHandler) buildS5F2(ack int) *ast.DataMessage {
 	return ast.NewDataMessage("AlarmAck", 5, 2, 0, "H->E", body)
 }
 
+// alarmIDNode encodes an ALID: four bytes, or eight where that is too short.
+func alarmIDNode(id int) ast.ItemNode {
+	switch {
+	case id < 0:
+		return ast.NewIntNode(8, id)
+	case uint64(id) > math.MaxUint32:
+		return ast.NewUintNode(8, id)
+	default:
+		return ast.NewUintNode(4, id)
+	}
+}
+
 func parseAlarmMessage(msg *ast.DataMessage) (AlarmEvent, error) {
 	var event AlarmEvent
 
diff --git a/gem/alarm_client.go b/gem/alarm_client.go
index 371c936..fb2131e 100644
--- a/gem/alarm_client.go
+++ b/gem/alarm_client.go
@@ -21,7 +21,7 @@ func (h *GemHandler) SendEnableAlarm(alarmIDs []int, enable bool) (byte, error)
 	// Build ALID list
 	alidItems := make([]interface{}, len(alarmIDs))
 	for i, id := range alarmIDs {
-		alidItems[i] = ast.NewUintNode(4, id)
+		alidItems[i] = alarmIDNode(id)
 	}
 
 	// ALED: 128=Enable, 0=Disable
diff --git a/gem/alarm_handlers.go b/gem/alarm_handlers.go
index 1a8a932..40460d2 100644
--- a/gem/alarm_handlers.go
+++ b/gem/alarm_handlers.go
@@ -140,7 +140,7 @@ func (g *GemHandler) buildS5F6(alarms []AlarmInfo) *ast.DataMessage {
 
 		items[i] = ast.NewListNode(
 			ast.NewBinaryNode(alcd),
-			ast.NewUintNode(4, a.ID),
+			alarmIDNode(a.ID),
 			ast.NewASCIINode(a.Text),
 		)
 	}
@@ -163,7 +163,7 @@ func (g *GemHandler) buildS5F8(alarms []AlarmInfo) *ast.DataMessage {
 
 		items[i] = ast.NewListNode(
 			ast.NewBinaryNode(alcd),
-			ast.NewUintNode(4, a.ID),
+			alarmIDNode(a.ID),
 			ast.NewASCIINode(a.Text),
 		)
 	}
-- 
2.43.0


From 4ffcc67b799c42dfa34d3a4f291b7cb4edc91bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:33 +0000
Subject: [PATCH 24/66] fix: read an event link and its reports under one lock

The link was read after the lock was released, racing with S2F35 and S2F37,
and a redefinition in between could yield a report mix that never existed.
---
 gem/collection_event_handlers.go | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/gem/collection_event_handlers.go b/gem/collection_event_handlers.go
index d74ef69..9c26c27 100644
--- a/gem/collection_event_handlers.go
+++ b/gem/collection_event_handlers.go
@@ -104,26 +104,24 @@ func (g *GemHandler) buildCollectionEventPayload(key string) ([]ast.ItemNode, in
 		return nil, 0, nil, fmt.Errorf("unknown collection event %s", key)
 	}
 
+	// Take the link and its reports in one step, so that the message shows
+	// one configuration even while S2F33, S2F35 or S2F37 change it.
 	g.reportMu.RLock()
 	link, linked := g.eventLinks[key]
-	g.reportMu.RUnlock()
 	if !linked || !link.enabled || len(link.reports) == 0 {
+		g.reportMu.RUnlock()
 		return nil, 0, nil, nil
 	}
-
-	g.reportMu.RLock()
-	reportKeys := append([]string{}, link.reports...)
-	g.reportMu.RUnlock()
-
-	reportNodes := make([]ast.ItemNode, 0, len(reportKeys))
-	for _, rptKey := range reportKeys {
-		g.reportMu.RLock()
-		report, exists := g.reports[rptKey]
-		g.reportMu.RUnlock()
-		if !exists {
-			continue
+	reports := make([]*ReportDefinition, 0, len(link.reports))
+	for _, rptKey := range link.reports {
+		if report, exists := g.reports[rptKey]; exists {
+			reports = append(reports, report)
 		}
+	}
+	g.reportMu.RUnlock()
 
+	reportNodes := make([]ast.ItemNode, 0, len(reports))
+	for _, report := range reports {
 		values := g.collectReportValues(report)
 		reportNodes = append(reportNodes, ast.NewListNode(report.idNode(), ast.NewListNode(values...)))
 	}
-- 
2.43.0


From 977d0461344e74c811d4a83238ee23ca1a618a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:34 +0000
Subject: [PATCH 25/66] fix: change no event when S2F37 names an unknown CEID

---
 gem/collection_event_handlers.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gem/collection_event_handlers.go b/gem/collection_event_handlers.go
index 9c26c27..6b84417 100644
--- a/gem/collection_event_handlers.go
+++ b/gem/collection_event_handlers.go
@@ -327,12 +327,13 @@ func (g *GemHandler) setCollectionEventState(enable bool, ceids []idInfo) ERACKC
 	}
 
 	for _, ce := range ceids {
-		if link, ok := g.eventLinks[ce.key]; ok {
-			link.enabled = enable
-		} else {
+		if _, ok := g.eventLinks[ce.key]; !ok {
 			return ERACKCEIDUnknown
 		}
 	}
+	for _, ce := range ceids {
+		g.eventLinks[ce.key].enabled = enable
+	}
 	return ERACKAccepted
 }
 
-- 
2.43.0


From 17e52b8855310c44878eb6e3fe2369b4802181fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:34 +0000
Subject: [PATCH 26/66] fix: apply no equipment constant when S2F15 is refused
 by a validator

---
 gem/equipment_constants.go       | 23 ++++++++++++++++++-----
 gem/status_equipment_handlers.go | 12 +++++++++++-
 2 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/gem/equipment_constants.go b/gem/equipment_constants.go
index 7c6a75d..624492b 100644
--- a/gem/equipment_constants.go
+++ b/gem/equipment_constants.go
@@ -141,17 +141,30 @@ func (ec *EquipmentConstant) ApplyValue(node ast.ItemNode) error {
 		return fmt.Errorf("nil value provided for equipment constant %v", ec.ID())
 	}
 
+	if err := ec.validate(node); err != nil {
+		return err
+	}
+	return ec.store(node)
+}
+
+// validate reports whether the constant would accept the value.
+func (ec *EquipmentConstant) validate(node ast.ItemNode) error {
 	ec.mu.RLock()
 	validator := ec.validator
-	updater := ec.updater
-	provider := ec.provider
 	ec.mu.RUnlock()
 
 	if validator != nil {
-		if err := validator(node); err != nil {
-			return err
-		}
+		return validator(node)
 	}
+	return nil
+}
+
+// store hands a validated value to the updater and keeps it.
+func (ec *EquipmentConstant) store(node ast.ItemNode) error {
+	ec.mu.RLock()
+	updater := ec.updater
+	provider := ec.provider
+	ec.mu.RUnlock()
 
 	if updater != nil {
 		if err := updater(node); err != nil {
diff --git a/gem/status_equipment_handlers.go b/gem/status_equipment_handlers.go
index c566915..3eaad98 100644
--- a/gem/status_equipment_handlers.go
+++ b/gem/status_equipment_handlers.go
@@ -393,9 +393,19 @@ func (g *GemHandler) applyEquipmentConstantUpdates(updates []equipmentConstantUp
 		}
 	}
 
+	// Validate everything before applying anything: a refused message must
+	// leave all the constants as they were.
 	for _, upd := range updates {
 		constant := g.equipmentConstants[upd.id.key]
-		if err := constant.ApplyValue(upd.value); err != nil {
+		if err := constant.validate(upd.value); err != nil {
+			g.logger.Warn("equipment constant update rejected", "ecid", constant.ID(), "error", err)
+			return ECACKValidationError
+		}
+	}
+
+	for _, upd := range updates {
+		constant := g.equipmentConstants[upd.id.key]
+		if err := constant.store(upd.value); err != nil {
 			g.logger.Warn("equipment constant update rejected", "ecid", constant.ID(), "error", err)
 			return ECACKValidationError
 		}
-- 
2.43.0


From 2937324fa82f39496b2a665d185125d91a800091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:35 +0000
Subject: [PATCH 27/66] fix: refuse a process program whose body is not text

S7F3 acknowledged any body and stored an empty program when it was not ASCII.
The upload and request handlers are now also safe to install while running.
---
 gem/handler.go                  |  1 +
 gem/process_program_handlers.go | 37 +++++++++++++++++++++++++--------
 2 files changed, 29 insertions(+), 9 deletions(-)

diff --git a/gem/handler.go b/gem/handler.go
index 844c2e4..38e9e32 100644
--- a/gem/handler.go
+++ b/gem/handler.go
@@ -82,6 +82,7 @@ type GemHandler struct {
 	eventLinks       map[string]*collectionEventLink
 
 	processStore          *processProgramStore
+	processMu             sync.RWMutex
 	processUploadHandler  ProcessProgramUploadHandler
 	processRequestHandler ProcessProgramRequestHandler
 
diff --git a/gem/process_program_handlers.go b/gem/process_program_handlers.go
index 981635e..1220082 100644
--- a/gem/process_program_handlers.go
+++ b/gem/process_program_handlers.go
@@ -31,14 +31,30 @@ func (g *GemHandler) ListProcessPrograms() []ProcessProgram {
 
 // SetProcessProgramUploadHandler registers a callback invoked when the host uploads a process program (S7F3).
 func (g *GemHandler) SetProcessProgramUploadHandler(handler ProcessProgramUploadHandler) {
+	g.processMu.Lock()
+	defer g.processMu.Unlock()
 	g.processUploadHandler = handler
 }
 
+func (g *GemHandler) getProcessUploadHandler() ProcessProgramUploadHandler {
+	g.processMu.RLock()
+	defer g.processMu.RUnlock()
+	return g.processUploadHandler
+}
+
 // SetProcessProgramRequestHandler registers a callback used to serve S7F5 requests.
 func (g *GemHandler) SetProcessProgramRequestHandler(handler ProcessProgramRequestHandler) {
+	g.processMu.Lock()
+	defer g.processMu.Unlock()
 	g.processRequestHandler = handler
 }
 
+func (g *GemHandler) getProcessRequestHandler() ProcessProgramRequestHandler {
+	g.processMu.RLock()
+	defer g.processMu.RUnlock()
+	return g.processRequestHandler
+}
+
 func (g *GemHandler) onS7F3(msg *ast.DataMessage) (*ast.DataMessage, error) {
 	if msg == nil {
 		return g.buildS7F4(1), nil
@@ -55,16 +71,19 @@ func (g *GemHandler) onS7F3(msg *ast.DataMessage) (*ast.DataMessage, error) {
 	if err != nil {
 		return g.buildS7F4(1), nil
 	}
-	body := ""
-	if ascii, ok := bodyNode.(*ast.ASCIINode); ok {
-		if val, ok := ascii.Values().(string); ok {
-			body = val
-		}
+	ascii, ok := bodyNode.(*ast.ASCIINode)
+	if !ok {
+		// Programs are kept as text; do not acknowledge one that would be lost.
+		return g.buildS7F4(1), nil
+	}
+	body, ok := ascii.Values().(string)
+	if !ok {
+		return g.buildS7F4(1), nil
 	}
 
 	ack := 0
-	if g.processUploadHandler != nil {
-		ack = g.processUploadHandler(ppidInfo.raw, body)
+	if handler := g.getProcessUploadHandler(); handler != nil {
+		ack = handler(ppidInfo.raw, body)
 	}
 	if ack == 0 {
 		program, err := newProcessProgram(ppidInfo.raw, body)
@@ -106,8 +125,8 @@ func (g *GemHandler) onS7F5(msg *ast.DataMessage) (*ast.DataMessage, error) {
 
 	body := ""
 	ack := 0
-	if g.processRequestHandler != nil {
-		body, ack = g.processRequestHandler(ppidInfo.raw)
+	if handler := g.getProcessRequestHandler(); handler != nil {
+		body, ack = handler(ppidInfo.raw)
 	} else {
 		if program, ok := g.processStore.get(ppidInfo.key); ok {
 			body = program.Body
-- 
2.43.0


From 21284112ef70991e5a0134a3fef7aff02baabfcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:28 +0000
Subject: [PATCH 28/66] fix: refuse a report defined or linked twice in one
 message

S2F33 and S2F35 compare with what was there before the message only.
---
 gem/collection_event_handlers.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/gem/collection_event_handlers.go b/gem/collection_event_handlers.go
index 6b84417..907ea0f 100644
--- a/gem/collection_event_handlers.go
+++ b/gem/collection_event_handlers.go
@@ -196,10 +196,15 @@ func (g *GemHandler) handleReportDefinitions(reports []reportDefinitionMessage)
 	g.reportMu.Lock()
 	defer g.reportMu.Unlock()
 
+	defined := make(map[string]bool, len(reports))
 	for _, rpt := range reports {
-		if _, exists := g.reports[rpt.id.key]; exists && len(rpt.vids) > 0 {
+		if len(rpt.vids) == 0 {
+			continue
+		}
+		if _, exists := g.reports[rpt.id.key]; exists || defined[rpt.id.key] {
 			return DRACKRPTIDRedefined
 		}
+		defined[rpt.id.key] = true
 	}
 
 	for _, rpt := range reports {
@@ -267,6 +272,8 @@ func (g *GemHandler) handleEventReportLinks(links []eventReportLinkMessage) LRAC
 	g.reportMu.Lock()
 	defer g.reportMu.Unlock()
 
+	type pair struct{ ce, rpt string }
+	linked := make(map[pair]bool)
 	for _, link := range links {
 		if _, ok := g.collectionEvents[link.ceid.key]; !ok {
 			return LRACKCEIDDoesNotExist
@@ -275,6 +282,10 @@ func (g *GemHandler) handleEventReportLinks(links []eventReportLinkMessage) LRAC
 			if _, ok := g.reports[rpt.key]; !ok {
 				return LRACKRPTIDDoesNotExist
 			}
+			if linked[pair{link.ceid.key, rpt.key}] {
+				return LRACKCEIDAlreadyLinked
+			}
+			linked[pair{link.ceid.key, rpt.key}] = true
 			if existing, ok := g.eventLinks[link.ceid.key]; ok {
 				for _, existingRpt := range existing.reports {
 					if existingRpt == rpt.key {
-- 
2.43.0


From fe8f1d0fab3a679b9508a8c551c16dddd1932f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:29 +0000
Subject: [PATCH 29/66] fix: make Event.RemoveCallback remove the callback

It compared the addresses of two local variables, which are never equal.
---
 common/events.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/common/events.go b/common/events.go
index fee60da..c90c703 100644
--- a/common/events.go
+++ b/common/events.go
@@ -2,6 +2,7 @@ package common
 
 import (
 	"sync"
+	"unsafe"
 )
 
 // Event represents a class to handle the callbacks for a single event.
@@ -24,14 +25,23 @@ func (e *Event) RemoveCallback(callback func(data map[string]interface{})) {
 	defer e.mutex.Unlock()
 
 	for i, cb := range e.callbacks {
-		if &cb == &callback {
-			// Remove the callback by copying the slice without the element at index i.
-			e.callbacks = append(e.callbacks[:i], e.callbacks[i+1:]...)
+		if funcID(cb) == funcID(callback) {
+			// Copy the slice without the element at index i; Fire may be reading the old one.
+			rest := make([]func(data map[string]interface{}), 0, len(e.callbacks)-1)
+			rest = append(rest, e.callbacks[:i]...)
+			e.callbacks = append(rest, e.callbacks[i+1:]...)
 			return
 		}
 	}
 }
 
+// funcID identifies a function value. Functions do not compare, and their code
+// pointer is the same for all closures made by one func literal; the closure
+// itself is what distinguishes them.
+func funcID(callback func(data map[string]interface{})) unsafe.Pointer {
+	return *(*unsafe.Pointer)(unsafe.Pointer(&callback))
+}
+
 // Fire raises the event and calls all callbacks.
 func (e *Event) Fire(data map[string]interface{}) {
 	e.mutex.Lock()
-- 
2.43.0


From 08a1e26052fbd346dbcfa3420f9a9c7e40e68c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:29 +0000
Subject: [PATCH 30/66] fix: call event callbacks without holding the event
 lock

A callback that added or removed a callback, or whose action fired the same
event (changing the control state from a ControlStateChanged callback, say),
deadlocked.
---
 common/events.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/common/events.go b/common/events.go
index c90c703..0000cea 100644
--- a/common/events.go
+++ b/common/events.go
@@ -45,9 +45,11 @@ func funcID(callback func(data map[string]interface{})) unsafe.Pointer {
 // Fire raises the event and calls all callbacks.
 func (e *Event) Fire(data map[string]interface{}) {
 	e.mutex.Lock()
-	defer e.mutex.Unlock()
+	callbacks := e.callbacks
+	e.mutex.Unlock()
 
-	for _, callback := range e.callbacks {
+	// Not under the lock: a callback may use this event again.
+	for _, callback := range callbacks {
 		callback(data)
 	}
 }
-- 
2.43.0


From 7fff5a24bd3a26074f4c90e69cb9f2311178d55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:55 +0000
Subject: [PATCH 31/66] fix: let T8 limit the gaps within a message only

The deadline covered the wait for a whole message, so an idle connection was
dropped after T8, and so was a sender that was slow but never paused for T8.
---
 api.go           |  7 ++++++
 codec/bufio.go   | 56 ++++++++++++++++++++++++++++++++++++++++--------
 codec/secs2.go   |  9 +++++++-
 hsms/protocol.go | 24 ++++-----------------
 4 files changed, 66 insertions(+), 30 deletions(-)

diff --git a/api.go b/api.go
index 76ca8ba..86f8df6 100644
--- a/api.go
+++ b/api.go
@@ -23,6 +23,13 @@ type Codec interface {
 	Close() error
 }
 
+// IntercharTimeoutCodec limits the time between two pieces of one message;
+// SetIntercharTimeout reports whether the transport supports it.
+type IntercharTimeoutCodec interface {
+	Codec
+	SetIntercharTimeout(time.Duration) bool
+}
+
 type DeadlineCodec interface {
 	Codec
 	SetReadDeadline(time.Time) error
diff --git a/codec/bufio.go b/codec/bufio.go
index 4f731f4..3f0926b 100644
--- a/codec/bufio.go
+++ b/codec/bufio.go
@@ -38,17 +38,18 @@ func (b *bufioProtocol) NewCodec(rw io.ReadWriter) (cc link.Codec, err error) {
 		codec.stream.Writer = rw
 	}
 
-	if b.readBuf > 0 {
-		codec.stream.Reader = bufio.NewReaderSize(rw, b.readBuf)
-	} else {
-		codec.stream.Reader = rw
-	}
-
 	codec.stream.c, _ = rw.(io.Closer)
 	if dc, ok := rw.(deadlineConn); ok {
 		codec.stream.deadline = dc
 	}
 
+	codec.stream.interchar = &intercharReader{r: rw, deadline: codec.stream.deadline}
+	if b.readBuf > 0 {
+		codec.stream.Reader = bufio.NewReaderSize(codec.stream.interchar, b.readBuf)
+	} else {
+		codec.stream.Reader = codec.stream.interchar
+	}
+
 	codec.base, err = b.base.NewCodec(&codec.stream)
 	if err != nil {
 		return
@@ -57,12 +58,40 @@ func (b *bufioProtocol) NewCodec(rw io.ReadWriter) (cc link.Codec, err error) {
 	return
 }
 
+// intercharReader limits the wait for each further piece of a message that has
+// begun to arrive. The wait for the next message is not limited.
+type intercharReader struct {
+	r         io.Reader
+	deadline  deadlineConn
+	timeout   time.Duration
+	inMessage bool
+}
+
+func (r *intercharReader) Read(p []byte) (int, error) {
+	if r.timeout > 0 && r.deadline != nil {
+		var t time.Time
+		if r.inMessage {
+			t = time.Now().Add(r.timeout)
+		}
+		if err := r.deadline.SetReadDeadline(t); err != nil {
+			return 0, err
+		}
+	}
+	return r.r.Read(p)
+}
+
 type bufioStream struct {
 	io.Reader
 	io.Writer
-	c        io.Closer
-	w        *bufio.Writer
-	deadline deadlineConn
+	c         io.Closer
+	w         *bufio.Writer
+	deadline  deadlineConn
+	interchar *intercharReader
+}
+
+// setInMessage tells whether the bytes read next belong to a message that has begun.
+func (s *bufioStream) setInMessage(inMessage bool) {
+	s.interchar.inMessage = inMessage
 }
 
 func (s *bufioStream) Flush() error {
@@ -132,3 +161,12 @@ func (c *bufioCodec) SetReadDeadline(t time.Time) error {
 func (c *bufioCodec) SetWriteDeadline(t time.Time) error {
 	return c.stream.SetWriteDeadline(t)
 }
+
+// SetIntercharTimeout implements link.IntercharTimeoutCodec. Call it before the first Receive.
+func (c *bufioCodec) SetIntercharTimeout(timeout time.Duration) bool {
+	if c.stream.deadline == nil {
+		return false
+	}
+	c.stream.interchar.timeout = timeout
+	return true
+}
diff --git a/codec/secs2.go b/codec/secs2.go
index 595be1a..6ccaccd 100644
--- a/codec/secs2.go
+++ b/codec/secs2.go
@@ -44,7 +44,14 @@ type secsIICodec struct {
 }
 
 func (c *secsIICodec) Receive() (interface{}, error) {
-	if _, err := io.ReadFull(c.rw, c.headBuf); err != nil {
+	if _, err := io.ReadFull(c.rw, c.headBuf[:1]); err != nil {
+		return nil, err
+	}
+	if stream, ok := c.rw.(interface{ setInMessage(bool) }); ok {
+		stream.setInMessage(true)
+		defer stream.setInMessage(false)
+	}
+	if _, err := io.ReadFull(c.rw, c.headBuf[1:]); err != nil {
 		return nil, err
 	}
 
diff --git a/hsms/protocol.go b/hsms/protocol.go
index 682b7e6..130c58b 100644
--- a/hsms/protocol.go
+++ b/hsms/protocol.go
@@ -849,36 +849,20 @@ func (p *HsmsProtocol) OnConnectionEstablishedAndStartReceiver(connection *link.
 	}()
 
 	t8Duration := time.Duration(p.timeouts.T8NetworkIntercharTimeout()) * time.Second
-	var deadlineCodec link.DeadlineCodec
 	if t8Duration > 0 {
-		if dc, ok := connection.Codec().(link.DeadlineCodec); ok {
-			deadlineCodec = dc
-		} else {
-			p.logger.Warn("T8 timeout configured but codec does not support deadlines; disabling T8 enforcement")
+		// T8 runs between the characters of a message, not between messages
+		tc, ok := connection.Codec().(link.IntercharTimeoutCodec)
+		if !ok || !tc.SetIntercharTimeout(t8Duration) {
+			p.logger.Warn("T8 timeout configured but codec does not support it; disabling T8 enforcement")
 			t8Duration = 0
 		}
 	}
-	if deadlineCodec != nil {
-		defer deadlineCodec.SetReadDeadline(time.Time{})
-	}
 
 	p.OnConnectionEstablished()
 
 	for p.enabled.Load() {
-		if deadlineCodec != nil {
-			if err := deadlineCodec.SetReadDeadline(time.Now().Add(t8Duration)); err != nil {
-				p.logger.Error("set read deadline failed", "error", err)
-			}
-		}
-
 		rsp, err := connection.Receive()
 
-		if deadlineCodec != nil {
-			if clrErr := deadlineCodec.SetReadDeadline(time.Time{}); clrErr != nil {
-				p.logger.Error("clear read deadline failed", "error", clrErr)
-			}
-		}
-
 		if err != nil {
 			p.connected.Store(false)
 			p.stopLinktestTimer()
-- 
2.43.0


From d12272cb0783030ff17d878586f7b6c9c76de682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:52 +0000
Subject: [PATCH 32/66] fix: let no stale handshake change the communication
 state

A handshake that failed late (its reply lost with an earlier connection) took
a communicating handler back to WAIT_DELAY, and one that was under way during
Disable left the handler communicating.
---
 gem/communication_state.go | 28 ++++++++++++++++++++++++++--
 gem/handler.go             | 29 ++++++++++++++++++++++-------
 2 files changed, 48 insertions(+), 9 deletions(-)

diff --git a/gem/communication_state.go b/gem/communication_state.go
index a4e8b37..c1fc2f1 100644
--- a/gem/communication_state.go
+++ b/gem/communication_state.go
@@ -46,9 +46,28 @@ func (sm *stateMachine) setState(state CommunicationState) (prev CommunicationSt
 	return prev
 }
 
-func (sm *stateMachine) setStateWithWaitCRA(state CommunicationState, duration time.Duration, timeout func()) {
+// setStateIf changes the state when allowed agrees with the present one.
+func (sm *stateMachine) setStateIf(state CommunicationState, allowed func(CommunicationState) bool) (prev CommunicationState, changed bool) {
 	sm.mu.Lock()
 	defer sm.mu.Unlock()
+
+	prev = sm.state
+	if !allowed(prev) {
+		return prev, false
+	}
+	if prev != state {
+		sm.state = state
+		sm.stopTimersLocked()
+	}
+	return prev, true
+}
+
+func (sm *stateMachine) setStateWithWaitCRA(state CommunicationState, duration time.Duration, timeout func(), allowed func(CommunicationState) bool) bool {
+	sm.mu.Lock()
+	defer sm.mu.Unlock()
+	if !allowed(sm.state) {
+		return false
+	}
 	if sm.state == state {
 		sm.stopWaitCRALocked()
 	} else {
@@ -56,11 +75,15 @@ func (sm *stateMachine) setStateWithWaitCRA(state CommunicationState, duration t
 		sm.stopTimersLocked()
 	}
 	sm.waitCRATimer = time.AfterFunc(duration, timeout)
+	return true
 }
 
-func (sm *stateMachine) setStateWithWaitDelay(state CommunicationState, duration time.Duration, timeout func()) {
+func (sm *stateMachine) setStateWithWaitDelay(state CommunicationState, duration time.Duration, timeout func(), allowed func(CommunicationState) bool) bool {
 	sm.mu.Lock()
 	defer sm.mu.Unlock()
+	if !allowed(sm.state) {
+		return false
+	}
 	if sm.state == state {
 		sm.stopWaitDelayLocked()
 	} else {
@@ -68,6 +91,7 @@ func (sm *stateMachine) setStateWithWaitDelay(state CommunicationState, duration
 		sm.stopTimersLocked()
 	}
 	sm.waitDelayTimer = time.AfterFunc(duration, timeout)
+	return true
 }
 
 func (sm *stateMachine) stopTimers() {
diff --git a/gem/handler.go b/gem/handler.go
index 38e9e32..b8d7cfd 100644
--- a/gem/handler.go
+++ b/gem/handler.go
@@ -612,7 +612,9 @@ func (g *GemHandler) initiateHandshake() {
 			waitCRA = 45 * time.Second
 		}
 
-		g.state.setStateWithWaitCRA(CommunicationStateWaitCRA, waitCRA, g.onWaitCRATimeout)
+		if !g.state.setStateWithWaitCRA(CommunicationStateWaitCRA, waitCRA, g.onWaitCRATimeout, g.handshakePending) {
+			return
+		}
 
 		dataMsg, err := g.protocol.SendAndWait(g.buildS1F13())
 		if err != nil {
@@ -632,14 +634,22 @@ func (g *GemHandler) initiateHandshake() {
 }
 
 func (g *GemHandler) scheduleRetry() {
-	if !g.enabled.Load() {
-		return
-	}
-	g.state.setStateWithWaitDelay(CommunicationStateWaitDelay, g.establishWait, g.onWaitDelayTimeout)
+	g.state.setStateWithWaitDelay(CommunicationStateWaitDelay, g.establishWait, g.onWaitDelayTimeout, g.handshakePending)
+}
+
+// handshakePending reports whether a handshake may still change the state: not
+// when it was overtaken by one that succeeded, nor once the handler is disabled.
+func (g *GemHandler) handshakePending(current CommunicationState) bool {
+	return g.enabled.Load() && current != CommunicationStateCommunicating
 }
 
 func (g *GemHandler) setCommunicating() {
-	prev := g.state.setState(CommunicationStateCommunicating)
+	prev, ok := g.state.setStateIf(CommunicationStateCommunicating, func(CommunicationState) bool {
+		return g.enabled.Load()
+	})
+	if !ok {
+		return
+	}
 	if prev != CommunicationStateCommunicating {
 		g.notifyCommunicating()
 	}
@@ -670,7 +680,12 @@ func (g *GemHandler) onWaitDelayTimeout() {
 		return
 	}
 
-	g.setCommunicationState(CommunicationStateNotCommunicating)
+	prev, ok := g.state.setStateIf(CommunicationStateNotCommunicating, func(current CommunicationState) bool {
+		return current == CommunicationStateWaitDelay
+	})
+	if ok {
+		g.onCommunicationStateChanged(prev, CommunicationStateNotCommunicating)
+	}
 }
 
 func (g *GemHandler) onS1F1(_ *ast.DataMessage) (*ast.DataMessage, error) {
-- 
2.43.0


From 773a2789000e28c6aae27ce1b959f470465e837c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:53 +0000
Subject: [PATCH 33/66] fix: wait EstablishCommunicationWait before the host
 repeats S1F13

The monitor loop repeated it within half a second whatever the state.
---
 gem/handler.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/gem/handler.go b/gem/handler.go
index b8d7cfd..44789c4 100644
--- a/gem/handler.go
+++ b/gem/handler.go
@@ -567,8 +567,11 @@ func (g *GemHandler) observe() {
 	}
 
 	if g.deviceType == DeviceHost && g.protocol.CurrentState() == hsms.StateConnectedSelected {
-		if g.State() == CommunicationStateCommunicating {
+		switch g.State() {
+		case CommunicationStateCommunicating:
 			return
+		case CommunicationStateWaitDelay:
+			return // its timer starts the next attempt
 		}
 		if g.handshakeInProgress.Load() {
 			return
@@ -595,13 +598,14 @@ func (g *GemHandler) ensureCommunicating() error {
 	return nil
 }
 
-func (g *GemHandler) initiateHandshake() {
+// initiateHandshake starts an S1F13 transaction unless one is under way.
+func (g *GemHandler) initiateHandshake() bool {
 	if !g.enabled.Load() {
-		return
+		return false
 	}
 
 	if !g.handshakeInProgress.CompareAndSwap(false, true) {
-		return
+		return false
 	}
 
 	go func() {
@@ -631,6 +635,7 @@ func (g *GemHandler) initiateHandshake() {
 
 		g.setCommunicating()
 	}()
+	return true
 }
 
 func (g *GemHandler) scheduleRetry() {
@@ -676,7 +681,9 @@ func (g *GemHandler) onWaitDelayTimeout() {
 	}
 
 	if g.deviceType == DeviceHost && g.protocol.Connected() && g.protocol.CurrentState() == hsms.StateConnectedSelected {
-		g.initiateHandshake()
+		if !g.initiateHandshake() {
+			g.scheduleRetry() // the previous attempt is still being wound up
+		}
 		return
 	}
 
-- 
2.43.0


From 1723a19adf1c55c9003b6bad5699584c0ba485f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:53 +0000
Subject: [PATCH 34/66] fix: report each control state transition exactly as it
 happened

Two concurrent transitions could both report the union of their changes.
---
 gem/handler.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/gem/handler.go b/gem/handler.go
index 44789c4..ffd0a8d 100644
--- a/gem/handler.go
+++ b/gem/handler.go
@@ -53,6 +53,8 @@ type GemHandler struct {
 
 	events Events
 
+	controlMu sync.Mutex // makes each control transition and its report one step
+
 	waitersMu sync.Mutex
 	waiters   []chan struct{}
 
@@ -387,11 +389,14 @@ func (g *GemHandler) transitionControl(transition func(sm *ControlStateMachine)
 	if g.control == nil {
 		return ErrOperationNotSupported
 	}
+	g.controlMu.Lock()
 	prev := g.control.State()
-	if err := transition(g.control); err != nil {
+	err := transition(g.control)
+	next := g.control.State()
+	g.controlMu.Unlock()
+	if err != nil {
 		return err
 	}
-	next := g.control.State()
 	g.onControlStateTransition(prev, next)
 	return nil
 }
-- 
2.43.0


From bab3b672c42dc91316e1c73dd3624fdd01b0cc0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:11 +0000
Subject: [PATCH 35/66] fix: establish communication again after a quick
 reconnect

The monitor loop polls twice a second. A connection that was replaced between
two polls left the handler communicating, and the equipment online, with a
peer it had never exchanged S1F13 with.
---
 gem/handler.go   | 25 ++++++++++++++++++++-----
 hsms/protocol.go | 10 ++++++++++
 2 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/gem/handler.go b/gem/handler.go
index ffd0a8d..8a5c822 100644
--- a/gem/handler.go
+++ b/gem/handler.go
@@ -50,6 +50,7 @@ type GemHandler struct {
 
 	enabled             *atomic.Bool
 	handshakeInProgress *atomic.Bool
+	commConnection      *atomic.Uint64 // the connection on which communication was established
 
 	events Events
 
@@ -119,6 +120,7 @@ func NewGemHandler(opts Options) (*GemHandler, error) {
 		}),
 		enabled:             atomic.NewBool(false),
 		handshakeInProgress: atomic.NewBool(false),
+		commConnection:      atomic.NewUint64(0),
 		events: Events{
 			HandlerCommunicating:  &common.Event{},
 			AlarmReceived:         &common.Event{},
@@ -526,6 +528,7 @@ func (g *GemHandler) initiateEstablishCommunication() {
 			return
 		}
 
+		connection := g.protocol.ConnectionCount()
 		resp, err := g.protocol.SendAndWait(g.buildS1F13Equipment())
 		if err != nil {
 			g.logger.Error("S1F13 request failed", "error", err)
@@ -542,7 +545,7 @@ func (g *GemHandler) initiateEstablishCommunication() {
 			return
 		}
 
-		g.setCommunicating()
+		g.setCommunicating(connection)
 	}()
 }
 
@@ -571,6 +574,11 @@ func (g *GemHandler) observe() {
 		return
 	}
 
+	// A new connection may have replaced the one communication was established on.
+	if g.State() == CommunicationStateCommunicating && g.commConnection.Load() != g.protocol.ConnectionCount() {
+		g.setCommunicationState(CommunicationStateNotCommunicating)
+	}
+
 	if g.deviceType == DeviceHost && g.protocol.CurrentState() == hsms.StateConnectedSelected {
 		switch g.State() {
 		case CommunicationStateCommunicating:
@@ -625,6 +633,7 @@ func (g *GemHandler) initiateHandshake() bool {
 			return
 		}
 
+		connection := g.protocol.ConnectionCount()
 		dataMsg, err := g.protocol.SendAndWait(g.buildS1F13())
 		if err != nil {
 			g.logger.Error("establish communication request failed", "error", err)
@@ -638,7 +647,7 @@ func (g *GemHandler) initiateHandshake() bool {
 			return
 		}
 
-		g.setCommunicating()
+		g.setCommunicating(connection)
 	}()
 	return true
 }
@@ -653,7 +662,13 @@ func (g *GemHandler) handshakePending(current CommunicationState) bool {
 	return g.enabled.Load() && current != CommunicationStateCommunicating
 }
 
-func (g *GemHandler) setCommunicating() {
+func (g *GemHandler) setCommunicating(connection uint64) {
+	if connection != g.protocol.ConnectionCount() {
+		return // that connection is gone
+	}
+	if g.commConnection.Swap(connection) != connection && g.State() == CommunicationStateCommunicating {
+		g.setCommunicationState(CommunicationStateNotCommunicating)
+	}
 	prev, ok := g.state.setStateIf(CommunicationStateCommunicating, func(CommunicationState) bool {
 		return g.enabled.Load()
 	})
@@ -708,7 +723,7 @@ func (g *GemHandler) onS1F1(_ *ast.DataMessage) (*ast.DataMessage, error) {
 }
 
 func (g *GemHandler) onS1F13(_ *ast.DataMessage) (*ast.DataMessage, error) {
-	g.setCommunicating()
+	g.setCommunicating(g.protocol.ConnectionCount())
 
 	if g.deviceType == DeviceHost {
 		return g.buildS1F14Host(0), nil
@@ -721,7 +736,7 @@ func (g *GemHandler) onS1F14(msg *ast.DataMessage) (*ast.DataMessage, error) {
 		return nil, nil
 	}
 	if commack := readCommAck(msg); commack == 0 {
-		g.setCommunicating()
+		g.setCommunicating(g.protocol.ConnectionCount())
 	} else {
 		g.logger.Warn("received S1F14 with non-zero COMMACK", "COMMACK", commack)
 		g.scheduleRetry()
diff --git a/hsms/protocol.go b/hsms/protocol.go
index 130c58b..ecfc023 100644
--- a/hsms/protocol.go
+++ b/hsms/protocol.go
@@ -73,6 +73,8 @@ type HsmsProtocol struct {
 	enabled   *atomic.Bool
 	connected *atomic.Bool
 
+	connectionCount *atomic.Uint64
+
 	logger common.Logger
 
 	systemCounter *atomic.Uint32
@@ -128,6 +130,7 @@ func NewHsmsProtocol(address string, port int, active bool, sessionID int, name
 		name:                 name,
 		enabled:              atomic.NewBool(false),
 		connected:            atomic.NewBool(false),
+		connectionCount:      atomic.NewUint64(0),
 		logger:               logger,
 		systemCounter:        atomic.NewUint32(rand.Uint32()),
 		timeouts:             NewSecsTimeout(),
@@ -317,6 +320,7 @@ func (p *HsmsProtocol) removeQueue(systemID uint32) {
 }
 
 func (p *HsmsProtocol) OnConnectionEstablished() {
+	p.connectionCount.Inc()
 	p.connected.Store(true)
 	if err := p.connectionState.Connect(); err != nil {
 		p.logger.Error("change state to CONNECTED failed", "error", err)
@@ -1088,6 +1092,12 @@ func (p *HsmsProtocol) Connected() bool {
 	return p.connected.Load()
 }
 
+// ConnectionCount reports how many connections have been established so far. It
+// tells two connections apart when the gap between them went unnoticed.
+func (p *HsmsProtocol) ConnectionCount() uint64 {
+	return p.connectionCount.Load()
+}
+
 // CurrentState returns the current connection state name.
 func (p *HsmsProtocol) CurrentState() string {
 	return p.connectionState.CurrentState()
-- 
2.43.0


From d20f6827d04978a1170c05b43c85effaf9d59451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:12 +0000
Subject: [PATCH 36/66] fix: refuse values a number or binary item cannot hold

---
 lib-secs2-hsms-go/pkg/ast/binary.go |  5 ++++-
 lib-secs2-hsms-go/pkg/ast/int.go    |  3 +++
 lib-secs2-hsms-go/pkg/ast/uint.go   | 15 +++++++++++++++
 3 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/lib-secs2-hsms-go/pkg/ast/binary.go b/lib-secs2-hsms-go/pkg/ast/binary.go
index 4ce63b9..de3eae2 100644
--- a/lib-secs2-hsms-go/pkg/ast/binary.go
+++ b/lib-secs2-hsms-go/pkg/ast/binary.go
@@ -54,7 +54,10 @@ func NewBinaryNode(values ...interface{}) ItemNode {
 			nodeValues = append(nodeValues, int(v))
 		case string:
 			if strings.HasPrefix(v, "0b") {
-				vAsInt64, _ := strconv.ParseInt(v, 0, 0)
+				vAsInt64, err := strconv.ParseInt(v, 0, 0)
+				if err != nil {
+					panic("invalid binary literal")
+				}
 				nodeValues = append(nodeValues, int(vAsInt64))
 			} else {
 				if _, ok := nodeVariables[v]; ok {
diff --git a/lib-secs2-hsms-go/pkg/ast/int.go b/lib-secs2-hsms-go/pkg/ast/int.go
index 45e490e..2b00def 100644
--- a/lib-secs2-hsms-go/pkg/ast/int.go
+++ b/lib-secs2-hsms-go/pkg/ast/int.go
@@ -53,6 +53,9 @@ func NewIntNode(byteSize int, values ...interface{}) ItemNode {
 		case int64:
 			nodeValues = append(nodeValues, value)
 		case uint:
+			if uint64(value) > math.MaxInt64 {
+				panic("value overflow")
+			}
 			nodeValues = append(nodeValues, int64(value))
 		case uint8:
 			nodeValues = append(nodeValues, int64(value))
diff --git a/lib-secs2-hsms-go/pkg/ast/uint.go b/lib-secs2-hsms-go/pkg/ast/uint.go
index fe6f131..fde0867 100644
--- a/lib-secs2-hsms-go/pkg/ast/uint.go
+++ b/lib-secs2-hsms-go/pkg/ast/uint.go
@@ -49,14 +49,29 @@ func NewUintNode(byteSize int, values ...interface{}) ItemNode {
 	for i, value := range values {
 		switch value := value.(type) {
 		case int:
+			if value < 0 {
+				panic("value overflow")
+			}
 			nodeValues = append(nodeValues, uint64(value))
 		case int8:
+			if value < 0 {
+				panic("value overflow")
+			}
 			nodeValues = append(nodeValues, uint64(value))
 		case int16:
+			if value < 0 {
+				panic("value overflow")
+			}
 			nodeValues = append(nodeValues, uint64(value))
 		case int32:
+			if value < 0 {
+				panic("value overflow")
+			}
 			nodeValues = append(nodeValues, uint64(value))
 		case int64:
+			if value < 0 {
+				panic("value overflow")
+			}
 			nodeValues = append(nodeValues, uint64(value))
 		case uint:
 			nodeValues = append(nodeValues, uint64(value))
-- 
2.43.0


From ddc84dcf52564a3aecd31f367efdade4040e24fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:13 +0000
Subject: [PATCH 37/66] fix: print and parse ASCII items with quotes and
 backslashes

---
 lib-secs2-hsms-go/pkg/ast/ascii.go         | 4 ++--
 lib-secs2-hsms-go/pkg/parser/sml/parser.go | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib-secs2-hsms-go/pkg/ast/ascii.go b/lib-secs2-hsms-go/pkg/ast/ascii.go
index 1243e8a..35231c5 100644
--- a/lib-secs2-hsms-go/pkg/ast/ascii.go
+++ b/lib-secs2-hsms-go/pkg/ast/ascii.go
@@ -187,8 +187,8 @@ func (node *ASCIINode) String() string {
 	var sb strings.Builder
 	printableState := false
 	for _, ch := range node.value {
-		if ch < 32 || ch == 127 {
-			// ch is a non-printable control character
+		if ch < 32 || ch == 127 || ch == '"' {
+			// ch is a non-printable control character, or would close the quoted string
 			// 32: space, which is the first printable character, 127: del
 			if printableState {
 				printableState = false
diff --git a/lib-secs2-hsms-go/pkg/parser/sml/parser.go b/lib-secs2-hsms-go/pkg/parser/sml/parser.go
index 0db1739..eeb98d6 100644
--- a/lib-secs2-hsms-go/pkg/parser/sml/parser.go
+++ b/lib-secs2-hsms-go/pkg/parser/sml/parser.go
@@ -419,7 +419,8 @@ func (p *parser) parseASCII(minLength, maxLength int) (item ast.ItemNode, ok boo
 
 		switch t.typ {
 		case tokenTypeQuotedString:
-			val, _ := strconv.Unquote(t.val)
+			// There are no escape sequences in a quoted string
+			val := strings.Trim(t.val, `"`)
 			for _, r := range val {
 				if r > unicode.MaxASCII {
 					val = ""
-- 
2.43.0


From 47082b84a494c70a023c353f7f46fcd418cd4b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:13 +0000
Subject: [PATCH 38/66] fix: report a binary value that is no integer

---
 lib-secs2-hsms-go/pkg/parser/sml/parser.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib-secs2-hsms-go/pkg/parser/sml/parser.go b/lib-secs2-hsms-go/pkg/parser/sml/parser.go
index eeb98d6..c246851 100644
--- a/lib-secs2-hsms-go/pkg/parser/sml/parser.go
+++ b/lib-secs2-hsms-go/pkg/parser/sml/parser.go
@@ -483,8 +483,10 @@ func (p *parser) parseBinary() (item ast.ItemNode, ok bool) {
 	for _, t := range p.getDataItemValueTokens() {
 		switch t.typ {
 		case tokenTypeNumber:
-			val, _ := strconv.ParseInt(t.val, 0, 0)
-			if !(0 <= val && val < 256) {
+			val, err := strconv.ParseInt(t.val, 0, 0)
+			if err != nil && err.(*strconv.NumError).Err == strconv.ErrSyntax {
+				p.errorf(t, "expected binary value, found %q", t.val)
+			} else if !(0 <= val && val < 256) {
 				val = 0
 				p.errorf(t, "binary value overflow, should be in range of [0, 256)")
 			}
-- 
2.43.0


From 737a98a8b39d69bef7e42035663b7d503189e4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:33 +0000
Subject: [PATCH 39/66] fix: do not panic, print or exhaust memory in the SML
 parser

---
 lib-secs2-hsms-go/pkg/parser/sml/lexer.go  | 4 ++++
 lib-secs2-hsms-go/pkg/parser/sml/parser.go | 6 +-----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib-secs2-hsms-go/pkg/parser/sml/lexer.go b/lib-secs2-hsms-go/pkg/parser/sml/lexer.go
index a040773..18675ce 100644
--- a/lib-secs2-hsms-go/pkg/parser/sml/lexer.go
+++ b/lib-secs2-hsms-go/pkg/parser/sml/lexer.go
@@ -233,6 +233,10 @@ func lexMessageHeader(l *lexer) stateFn {
 			l.emit(tokenTypeLeftAngleBracket)
 			return lexMessageText
 		default:
+			if unicode.IsSpace(r) {
+				l.ignore()
+				continue
+			}
 			for {
 				r := l.next()
 				if r == eof || unicode.IsSpace(r) || strings.HasPrefix(l.input[l.pos-1:], "//") {
diff --git a/lib-secs2-hsms-go/pkg/parser/sml/parser.go b/lib-secs2-hsms-go/pkg/parser/sml/parser.go
index c246851..597fddc 100644
--- a/lib-secs2-hsms-go/pkg/parser/sml/parser.go
+++ b/lib-secs2-hsms-go/pkg/parser/sml/parser.go
@@ -347,8 +347,6 @@ func (p *parser) parseList() (item ast.ItemNode, ok bool) {
 				return ast.NewEmptyItemNode(), false
 			}
 			values = append(values, childItem)
-			fmt.Println("childItem.ToBytes() : ", childItem.Size())
-			fmt.Println("childItem.ToBytes() : ", string(childItem.ToBytes()))
 
 		case tokenTypeVariable:
 			t = p.acceptAny()
@@ -451,7 +449,7 @@ func (p *parser) parseASCII(minLength, maxLength int) (item ast.ItemNode, ok boo
 
 			if _, ok := p.variableNames[t.val]; ok {
 				p.errorf(t, "duplicated variable name %q", t.val)
-				return ast.NewASCIINode(strings.Repeat("*", minLength)), true
+				return ast.NewASCIINode(strings.Repeat("*", min(minLength, ast.MAX_BYTE_SIZE))), true
 			} else {
 				p.variableNames[t.val] = true
 				return ast.NewASCIINodeVariable(t.val, minLength, maxLength), true
@@ -467,8 +465,6 @@ func (p *parser) parseASCII(minLength, maxLength int) (item ast.ItemNode, ok boo
 		}
 	}
 
-	fmt.Println("literal : ", literal)
-
 	return ast.NewASCIINode(literal), true
 }
 
-- 
2.43.0


From 0a97c7af88fc678df5acacdc63820d8e3fa3f8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:33 +0000
Subject: [PATCH 40/66] fix: bound the nesting depth in the SML parser

---
 lib-secs2-hsms-go/pkg/parser/sml/parser.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lib-secs2-hsms-go/pkg/parser/sml/parser.go b/lib-secs2-hsms-go/pkg/parser/sml/parser.go
index 597fddc..bd62d20 100644
--- a/lib-secs2-hsms-go/pkg/parser/sml/parser.go
+++ b/lib-secs2-hsms-go/pkg/parser/sml/parser.go
@@ -52,11 +52,15 @@ type parser struct {
 	tokenQueue    []token            // token queue that the lexer tokenized
 	variableNames map[string]bool    // variable names in a message to check duplicates
 	ellipsisCount int                // ellipsis count in a message
+	depth         int                // nesting depth of the data item being parsed
 	messages      []*ast.DataMessage // parsed messages
 	errors        []parseError       // parsing errors
 	warnings      []parseError       // parsing warnings
 }
 
+// maxDepth bounds how deep lists may be nested, as the HSMS parser does.
+const maxDepth = 256
+
 type parseError struct {
 	line int
 	col  int
@@ -222,6 +226,13 @@ func (p *parser) parseDataItem() (item ast.ItemNode, ok bool) {
 		return ast.NewEmptyItemNode(), false
 	}
 
+	if p.depth >= maxDepth {
+		p.errorf(tokenLAB, "data items nested too deeply")
+		return ast.NewEmptyItemNode(), false
+	}
+	p.depth++
+	defer func() { p.depth-- }()
+
 	defer func() {
 		if r := recover(); r != nil {
 			p.errorf(tokenLAB, "%v", r)
-- 
2.43.0


From f1f88692d5b695ff49dc7e42ef4e132707af2498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:51 +0000
Subject: [PATCH 41/66] fix: lex a message name that begins like another header
 token

---
 lib-secs2-hsms-go/pkg/parser/sml/lexer.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/lib-secs2-hsms-go/pkg/parser/sml/lexer.go b/lib-secs2-hsms-go/pkg/parser/sml/lexer.go
index 18675ce..ee5a67e 100644
--- a/lib-secs2-hsms-go/pkg/parser/sml/lexer.go
+++ b/lib-secs2-hsms-go/pkg/parser/sml/lexer.go
@@ -189,6 +189,10 @@ func (l *lexer) terminate() stateFn {
 	return nil
 }
 
+// headerTokenEnd matches what may follow a stream function code or a wait bit.
+// Anything else makes it the beginning of a message name, e.g. "WaferMap".
+const headerTokenEnd = `(?:[Ww]|\[[Ww]\])?(?:$|[\s.<]|//|[Hh](?:->|<->|<-)[Ee])`
+
 // lexMessageHeader scans the elements that can appear in the message header.
 func lexMessageHeader(l *lexer) stateFn {
 	for {
@@ -198,17 +202,17 @@ func lexMessageHeader(l *lexer) stateFn {
 		}
 
 		// Handle stream function code
-		re := regexp.MustCompile(`^[Ss]\d+[Ff]\d+`)
-		if loc := re.FindStringIndex(l.input[l.pos:]); loc != nil {
-			l.pos += loc[1]
+		re := regexp.MustCompile(`^([Ss]\d+[Ff]\d+)` + headerTokenEnd)
+		if loc := re.FindStringSubmatchIndex(l.input[l.pos:]); loc != nil {
+			l.pos += loc[3]
 			l.emitUppercase(tokenTypeStreamFunction)
 			return lexMessageHeader
 		}
 
 		// Handle wait bit
-		re = regexp.MustCompile(`^([Ww]|\[[Ww]\])`)
-		if loc := re.FindStringIndex(l.input[l.pos:]); loc != nil {
-			l.pos += loc[1]
+		re = regexp.MustCompile(`^([Ww]|\[[Ww]\])` + headerTokenEnd)
+		if loc := re.FindStringSubmatchIndex(l.input[l.pos:]); loc != nil {
+			l.pos += loc[3]
 			l.emitUppercase(tokenTypeWaitBit)
 			return lexMessageHeader
 		}
-- 
2.43.0


From ff870f5bab95a843e261ca40cd5353c6f4192fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:40 +0000
Subject: [PATCH 42/66] fix: deliver whole packets through FixLen over Byte

---
 codec/byte.go   | 9 +++++++--
 codec/fixlen.go | 5 +++++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/codec/byte.go b/codec/byte.go
index 032279b..f0f8274 100644
--- a/codec/byte.go
+++ b/codec/byte.go
@@ -35,8 +35,13 @@ type byteCodec struct {
 }
 
 func (c *byteCodec) Receive() (interface{}, error) {
-
-	recvData := make([]byte, 4092)
+	size := 4092
+	if packet, ok := c.r.(interface{ packetLen() int }); ok {
+		if size = packet.packetLen(); size == 0 {
+			return []byte{}, nil
+		}
+	}
+	recvData := make([]byte, size)
 
 	cnt, err := c.r.Read(recvData)
 
diff --git a/codec/fixlen.go b/codec/fixlen.go
index d428c09..bfd69a7 100644
--- a/codec/fixlen.go
+++ b/codec/fixlen.go
@@ -104,6 +104,11 @@ func (rw *fixlenReadWriter) Read(p []byte) (int, error) {
 	return rw.recvBuf.Read(p)
 }
 
+// packetLen returns how much of the received packet is still unread.
+func (rw *fixlenReadWriter) packetLen() int {
+	return rw.recvBuf.Len()
+}
+
 func (rw *fixlenReadWriter) Write(p []byte) (int, error) {
 	return rw.sendBuf.Write(p)
 }
-- 
2.43.0


From c7752aba32b24884666e706aad10bfd87a4277d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:57 +0000
Subject: [PATCH 43/66] fix: do not share the head buffer between FixLen Send
 and Receive

---
 codec/fixlen.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/codec/fixlen.go b/codec/fixlen.go
index bfd69a7..440c222 100644
--- a/codec/fixlen.go
+++ b/codec/fixlen.go
@@ -145,7 +145,8 @@ func (c *fixlenCodec) Receive() (interface{}, error) {
 
 func (c *fixlenCodec) Send(msg interface{}) error {
 	c.sendBuf.Reset()
-	c.sendBuf.Write(c.headBuf)
+	var head [8]byte // room for the head; headBuf belongs to Receive
+	c.sendBuf.Write(head[:c.n])
 	err := c.base.Send(msg)
 	if err != nil {
 		return err
-- 
2.43.0


From e8ae8ebb6be05135be758aae4645a7eb4a5b4dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:11 +0000
Subject: [PATCH 44/66] fix: SML comments ending in a non-ASCII character are
 no longer cut inside it

---
 lib-secs2-hsms-go/pkg/parser/sml/lexer.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lib-secs2-hsms-go/pkg/parser/sml/lexer.go b/lib-secs2-hsms-go/pkg/parser/sml/lexer.go
index ee5a67e..11ab744 100644
--- a/lib-secs2-hsms-go/pkg/parser/sml/lexer.go
+++ b/lib-secs2-hsms-go/pkg/parser/sml/lexer.go
@@ -346,9 +346,7 @@ func lexComment(l *lexer) stateFn {
 		return lexEOF
 	}
 
-	for unicode.IsSpace(rune(l.input[l.pos+i-1])) {
-		i -= 1
-	}
+	i = len(strings.TrimRight(l.input[l.pos:l.pos+i], " \t\r\n"))
 	l.pos += i
 	l.emit(tokenTypeComment)
 	return l.lastState
-- 
2.43.0


From f7db54ed27b5b68a52c3d312f68dd956eab27e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:11 +0000
Subject: [PATCH 45/66] fix: SML quoted string with a line break right after
 the opening quote is unclosed

---
 lib-secs2-hsms-go/pkg/parser/sml/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib-secs2-hsms-go/pkg/parser/sml/lexer.go b/lib-secs2-hsms-go/pkg/parser/sml/lexer.go
index 11ab744..3682e38 100644
--- a/lib-secs2-hsms-go/pkg/parser/sml/lexer.go
+++ b/lib-secs2-hsms-go/pkg/parser/sml/lexer.go
@@ -385,7 +385,7 @@ func lexQuotedString(l *lexer) stateFn {
 	l.accept(`"`)
 	i := strings.Index(l.input[l.pos:], `"`)
 	j := strings.IndexAny(l.input[l.pos:], "\r\n")
-	if i < 0 || (j > 0 && j < i) {
+	if i < 0 || (j >= 0 && j < i) {
 		return l.errorf("unclosed quoted string")
 	}
 	l.pos += i + 1 // Include the double quote
-- 
2.43.0


From a615173bb30a12131978466a5366a9df31d366de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:51 +0000
Subject: [PATCH 46/66] fix: a repeated variable in an SML text item no longer
 reserves the item's size

---
 lib-secs2-hsms-go/pkg/parser/sml/parser.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib-secs2-hsms-go/pkg/parser/sml/parser.go b/lib-secs2-hsms-go/pkg/parser/sml/parser.go
index bd62d20..029a749 100644
--- a/lib-secs2-hsms-go/pkg/parser/sml/parser.go
+++ b/lib-secs2-hsms-go/pkg/parser/sml/parser.go
@@ -259,6 +259,7 @@ func (p *parser) parseDataItem() (item ast.ItemNode, ok bool) {
 		return ast.NewEmptyItemNode(), false
 	}
 
+	errorCount := len(p.errors)
 	switch dataItemType {
 	case "L":
 		item, ok = p.parseList()
@@ -293,8 +294,9 @@ func (p *parser) parseDataItem() (item ast.ItemNode, ok bool) {
 		return ast.NewEmptyItemNode(), false
 	}
 
-	if item.Size() >= 0 {
+	if item.Size() >= 0 && !(dataItemType == "A" && len(p.errors) > errorCount) {
 		// (ASCIINode with variable).Size() == -1
+		// A text item with errors stands for one of unknown size
 		p.checkDataItemSizeError(item.Size(), sizeStart, sizeEnd, tokenDataItemSize)
 	}
 
@@ -460,7 +462,7 @@ func (p *parser) parseASCII(minLength, maxLength int) (item ast.ItemNode, ok boo
 
 			if _, ok := p.variableNames[t.val]; ok {
 				p.errorf(t, "duplicated variable name %q", t.val)
-				return ast.NewASCIINode(strings.Repeat("*", min(minLength, ast.MAX_BYTE_SIZE))), true
+				return ast.NewASCIINode(""), true
 			} else {
 				p.variableNames[t.val] = true
 				return ast.NewASCIINodeVariable(t.val, minLength, maxLength), true
-- 
2.43.0


From 44135306747d43c6da3d77342a558208f60a80eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:22 +0000
Subject: [PATCH 47/66] fix: a message of another type with the system bytes of
 an open transaction ended it

Control responses ended data requests, an even data message was swallowed by
an open select or linktest, and a deselect.rsp to nothing deselected.
---
 hsms/connection.go |  7 ++++---
 hsms/protocol.go   | 32 +++++++++++++++++++++-----------
 2 files changed, 25 insertions(+), 14 deletions(-)

diff --git a/hsms/connection.go b/hsms/connection.go
index 60123b8..817a088 100644
--- a/hsms/connection.go
+++ b/hsms/connection.go
@@ -6,6 +6,7 @@ import (
 
 	link "github.com/younglifestyle/secs4go"
 	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
+	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/parser/hsms"
 )
 
 var HSMSSTYPES = map[int]string{
@@ -80,7 +81,7 @@ func (c *HsmsConnection) sendRejectRsp(packet ast.HSMSMessage, reasonCode byte)
 
 func (c *HsmsConnection) sendLinktestReq() {
 	systemID := c.hp.getNextSystemCounter()
-	queue := c.hp.createQueue(systemID)
+	queue := c.hp.createQueue(systemID, hsms.LinktestRspStr)
 	defer c.hp.removeQueue(systemID)
 
 	message := ast.NewHSMSMessageLinktestReq(c.hp.encodeSystemID(systemID))
@@ -129,7 +130,7 @@ func (c *HsmsConnection) sendReject(message ast.HSMSMessage, reason RejectReason
 
 func (c *HsmsConnection) sendSelectReq() error {
 	systemID := c.hp.getNextSystemCounter()
-	queue := c.hp.createQueue(systemID)
+	queue := c.hp.createQueue(systemID, hsms.SelectRspStr)
 	defer c.hp.removeQueue(systemID)
 
 	request := ast.NewHSMSMessageSelectReq(uint16(c.hp.sessionID), c.hp.encodeSystemID(systemID))
@@ -162,7 +163,7 @@ func (c *HsmsConnection) sendSelectReq() error {
 
 func (c *HsmsConnection) sendDeselectReq() error {
 	systemID := c.hp.getNextSystemCounter()
-	queue := c.hp.createQueue(systemID)
+	queue := c.hp.createQueue(systemID, hsms.DeselectRspStr)
 	defer c.hp.removeQueue(systemID)
 
 	request := ast.NewHSMSMessageDeselectReq(uint16(c.hp.sessionID), c.hp.encodeSystemID(systemID))
diff --git a/hsms/protocol.go b/hsms/protocol.go
index ecfc023..1a22f0c 100644
--- a/hsms/protocol.go
+++ b/hsms/protocol.go
@@ -54,6 +54,12 @@ type LoggingConfig struct {
 
 type DataMessageHandler func(*ast.DataMessage) (*ast.DataMessage, error)
 
+// replyQueue takes what ends an open transaction: a message of type reply, or a reject.req.
+type replyQueue struct {
+	*utils.Deque
+	reply string
+}
+
 func streamFunctionKey(stream, function int) string {
 	return fmt.Sprintf("S%02dF%02d", stream, function)
 }
@@ -84,7 +90,7 @@ type HsmsProtocol struct {
 	hsmsConnection  *HsmsConnection
 
 	queueMu      sync.RWMutex
-	systemQueues map[uint32]*utils.Deque
+	systemQueues map[uint32]replyQueue
 
 	logMu      sync.RWMutex
 	logCfg     LoggingConfig
@@ -134,7 +140,7 @@ func NewHsmsProtocol(address string, port int, active bool, sessionID int, name
 		logger:               logger,
 		systemCounter:        atomic.NewUint32(rand.Uint32()),
 		timeouts:             NewSecsTimeout(),
-		systemQueues:         make(map[uint32]*utils.Deque),
+		systemQueues:         make(map[uint32]replyQueue),
 		handlers:             make(map[string]DataMessageHandler),
 		connectThreadRunning: atomic.NewBool(false),
 		reenabled:            atomic.NewBool(false),
@@ -298,19 +304,23 @@ func (p *HsmsProtocol) getNextSystemCounter() uint32 {
 	return uint32(num)
 }
 
-func (p *HsmsProtocol) createQueue(systemID uint32) *utils.Deque {
+func (p *HsmsProtocol) createQueue(systemID uint32, reply string) *utils.Deque {
 	queue := utils.NewDeque()
 	p.queueMu.Lock()
-	p.systemQueues[systemID] = queue
+	p.systemQueues[systemID] = replyQueue{queue, reply}
 	p.queueMu.Unlock()
 	return queue
 }
 
-func (p *HsmsProtocol) fetchQueue(systemID uint32) (*utils.Deque, bool) {
+// fetchQueue returns the queue of the open transaction that a message of the given type ends.
+func (p *HsmsProtocol) fetchQueue(systemID uint32, messageType string) (*utils.Deque, bool) {
 	p.queueMu.RLock()
 	queue, ok := p.systemQueues[systemID]
 	p.queueMu.RUnlock()
-	return queue, ok
+	if !ok || messageType != queue.reply && messageType != hsms.RejectReqStr {
+		return nil, false
+	}
+	return queue.Deque, true
 }
 
 func (p *HsmsProtocol) removeQueue(systemID uint32) {
@@ -567,7 +577,7 @@ func (p *HsmsProtocol) handleHsmsRequests(message ast.HSMSMessage) {
 		}
 
 	case hsms.SelectRspStr:
-		queue, ok := p.fetchQueue(systemID)
+		queue, ok := p.fetchQueue(systemID, message.Type())
 		if !ok {
 			p.logger.Warn("received select.rsp without select.req")
 			return
@@ -602,7 +612,7 @@ func (p *HsmsProtocol) handleHsmsRequests(message ast.HSMSMessage) {
 		}
 
 	case hsms.DeselectRspStr:
-		queue, ok := p.fetchQueue(systemID)
+		queue, ok := p.fetchQueue(systemID, message.Type())
 		if !ok {
 			p.logger.Warn("received deselect.rsp without deselect.req")
 			return
@@ -633,7 +643,7 @@ func (p *HsmsProtocol) handleHsmsRequests(message ast.HSMSMessage) {
 		p.hsmsConnection.SetSession(nil)
 
 	default:
-		if queue, ok := p.fetchQueue(systemID); ok {
+		if queue, ok := p.fetchQueue(systemID, message.Type()); ok {
 			queue.Put(message)
 		}
 	}
@@ -913,7 +923,7 @@ func (p *HsmsProtocol) OnConnectionEstablishedAndStartReceiver(connection *link.
 		// the peer numbers its primaries independently of ours.
 		if dataMessage.FunctionCode()%2 == 0 || dataMessage.StreamCode() == 9 {
 			systemID := binary.BigEndian.Uint32(dataMessage.SystemBytes())
-			if queue, ok := p.fetchQueue(systemID); ok {
+			if queue, ok := p.fetchQueue(systemID, dataMessage.Type()); ok {
 				queue.Put(dataMessage)
 				continue
 			}
@@ -963,7 +973,7 @@ func (p *HsmsProtocol) SendAndWait(message *ast.DataMessage) (*ast.DataMessage,
 	}
 
 	systemID := p.getNextSystemCounter()
-	queue := p.createQueue(systemID)
+	queue := p.createQueue(systemID, hsms.DataMessageStr)
 	defer p.removeQueue(systemID)
 
 	outgoing := message.SetSessionIDAndSystemBytes(p.sessionID, p.encodeSystemID(systemID))
-- 
2.43.0


From 5ce0e732541dc6eb2bfcf440ef468adb4095b4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:20 +0000
Subject: [PATCH 48/66] fix: an S9 message that ended an open transaction was
 not reported to OnS9Error

---
 hsms/protocol.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hsms/protocol.go b/hsms/protocol.go
index 1a22f0c..8cbeb2f 100644
--- a/hsms/protocol.go
+++ b/hsms/protocol.go
@@ -806,11 +806,6 @@ func (p *HsmsProtocol) logControlMessage(direction string, message ast.HSMSMessa
 }
 
 func (p *HsmsProtocol) handleDataMessage(message *ast.DataMessage) {
-	// Check for S9 messages to trigger callback
-	if message.StreamCode() == 9 {
-		p.triggerS9ErrorCallback(message)
-	}
-
 	handler := p.lookupHandler(message.StreamCode(), message.FunctionCode())
 	if handler != nil {
 		p.invokeHandler(handler, message)
@@ -919,6 +914,11 @@ func (p *HsmsProtocol) OnConnectionEstablishedAndStartReceiver(connection *link.
 			continue
 		}
 
+		// Check for S9 messages to trigger callback
+		if dataMessage.StreamCode() == 9 {
+			p.triggerS9ErrorCallback(dataMessage)
+		}
+
 		// Only a reply (or an error report on our primary) ends a transaction:
 		// the peer numbers its primaries independently of ours.
 		if dataMessage.FunctionCode()%2 == 0 || dataMessage.StreamCode() == 9 {
-- 
2.43.0


From a43b673475d8d48d99b7388a1bfa80ee56028d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:30 +0000
Subject: [PATCH 49/66] fix: Disable waited T6 for a deselect.rsp on a
 connection that had ended

---
 hsms/protocol.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/hsms/protocol.go b/hsms/protocol.go
index 8cbeb2f..3ef7289 100644
--- a/hsms/protocol.go
+++ b/hsms/protocol.go
@@ -329,6 +329,17 @@ func (p *HsmsProtocol) removeQueue(systemID uint32) {
 	p.queueMu.Unlock()
 }
 
+// abortControlTransactions releases who waits for a control message on a connection that has ended.
+func (p *HsmsProtocol) abortControlTransactions() {
+	p.queueMu.RLock()
+	defer p.queueMu.RUnlock()
+	for _, queue := range p.systemQueues {
+		if queue.reply != hsms.DataMessageStr {
+			queue.Put(ErrNotConnected)
+		}
+	}
+}
+
 func (p *HsmsProtocol) OnConnectionEstablished() {
 	p.connectionCount.Inc()
 	p.connected.Store(true)
@@ -853,6 +864,7 @@ func (p *HsmsProtocol) OnConnectionEstablishedAndStartReceiver(connection *link.
 		if sess := p.hsmsConnection.Session(); sess == connection {
 			p.hsmsConnection.SetSession(nil)
 		}
+		p.abortControlTransactions()
 
 		close(done)
 	}()
-- 
2.43.0


From 986966813ebb0b3c94004d915a8dd4abb03d7bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:30 +0000
Subject: [PATCH 50/66] fix: a T7 timeout that had already fired dropped a
 connection just selected, or the next one

---
 hsms/protocol.go | 42 +++++++++++++++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 11 deletions(-)

diff --git a/hsms/protocol.go b/hsms/protocol.go
index 3ef7289..8e3d034 100644
--- a/hsms/protocol.go
+++ b/hsms/protocol.go
@@ -111,6 +111,7 @@ type HsmsProtocol struct {
 
 	t7TimerMu sync.Mutex
 	t7Timer   *time.Timer
+	t7Run     uint64 // counts the timers started
 
 	serverMu sync.Mutex
 	server   *link.Server
@@ -224,18 +225,37 @@ func (p *HsmsProtocol) startT7Timer() {
 	if p.t7Timer != nil {
 		p.t7Timer.Stop()
 	}
-	p.t7Timer = time.AfterFunc(duration, func() {
-		p.logger.Warn("T7 timeout", "duration", duration)
-		p.connected.Store(false)
-		p.stopLinktestTimer()
-		if err := p.connectionState.TimeoutT7(); err != nil {
-			p.logger.Error("timeoutT7 transition error", "error", err)
-		}
-		if err := p.hsmsConnection.Close(); err != nil {
-			p.logger.Error("close session after T7 timeout", "error", err)
-		}
-	})
+	session := p.hsmsConnection.Session()
+	p.t7Run++
+	run := p.t7Run
+	p.t7Timer = time.AfterFunc(duration, func() { p.onT7Timeout(run, session, duration) })
+	p.t7TimerMu.Unlock()
+}
+
+// onT7Timeout drops the connection that run of the timer is for, unless it has been
+// selected or has ended while the timer fired.
+func (p *HsmsProtocol) onT7Timeout(run uint64, session *link.Session, duration time.Duration) {
+	p.t7TimerMu.Lock()
+	current := p.t7Timer != nil && p.t7Run == run
+	if current {
+		p.t7Timer = nil
+	}
 	p.t7TimerMu.Unlock()
+	if !current {
+		return
+	}
+
+	if err := p.connectionState.TimeoutT7(); err != nil {
+		p.logger.Error("timeoutT7 transition error", "error", err)
+		return
+	}
+	p.logger.Warn("T7 timeout", "duration", duration)
+	if session == nil {
+		return
+	}
+	if err := session.Close(); err != nil {
+		p.logger.Error("close session after T7 timeout", "error", err)
+	}
 }
 
 func (p *HsmsProtocol) stopT7Timer() {
-- 
2.43.0


From 402c8b939bd54ed06a98f79a629737a90e04725b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:39 +0000
Subject: [PATCH 51/66] fix: the end of a connection by T7 could reach into the
 next connection and leave it unusable

---
 hsms/connectionStateMachine.go | 20 +++++++++++++++-----
 hsms/protocol.go               |  2 +-
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/hsms/connectionStateMachine.go b/hsms/connectionStateMachine.go
index 42c5768..e117da5 100644
--- a/hsms/connectionStateMachine.go
+++ b/hsms/connectionStateMachine.go
@@ -3,6 +3,8 @@ package hsms
 import (
 	"context"
 	"fmt"
+	"sync"
+
 	"github.com/looplab/fsm"
 )
 
@@ -15,6 +17,7 @@ var (
 
 type ConnectionStateMachine struct {
 	fsm *fsm.FSM
+	mu  sync.Mutex // held over a transition and its callbacks
 }
 
 // NewConnectionStateMachine Callbacks : enter_CONNECTED、leave_CONNECTED、enter_CONNECTED_SELECTED
@@ -61,22 +64,29 @@ func (cs *ConnectionStateMachine) onEnterConnectedSelected(ctx context.Context,
 	fmt.Println("_on_enter_connected_selected")
 }
 
+// event makes a transition once the callbacks of the one before have returned.
+func (cs *ConnectionStateMachine) event(name string) error {
+	cs.mu.Lock()
+	defer cs.mu.Unlock()
+	return cs.fsm.Event(context.Background(), name)
+}
+
 func (cs *ConnectionStateMachine) Connect() error {
-	return cs.fsm.Event(context.Background(), "connect")
+	return cs.event("connect")
 }
 
 func (cs *ConnectionStateMachine) Disconnect() error {
-	return cs.fsm.Event(context.Background(), "disconnect")
+	return cs.event("disconnect")
 }
 
 func (cs *ConnectionStateMachine) Select() error {
-	return cs.fsm.Event(context.Background(), "select")
+	return cs.event("select")
 }
 
 func (cs *ConnectionStateMachine) Deselect() error {
-	return cs.fsm.Event(context.Background(), "deselect")
+	return cs.event("deselect")
 }
 
 func (cs *ConnectionStateMachine) TimeoutT7() error {
-	return cs.fsm.Event(context.Background(), "timeoutT7")
+	return cs.event("timeoutT7")
 }
diff --git a/hsms/protocol.go b/hsms/protocol.go
index 8e3d034..a169ac2 100644
--- a/hsms/protocol.go
+++ b/hsms/protocol.go
@@ -293,6 +293,7 @@ func (p *HsmsProtocol) onStateDisconnect(ctx context.Context, _ *fsm.Event) {
 
 // onStateConnect is triggered when the HSMS connection transitions out of NOT-CONNECTED.
 func (p *HsmsProtocol) onStateConnect(ctx context.Context, _ *fsm.Event) {
+	p.connected.Store(true)
 	stopLinktest := p.newLinktestStop()
 	go func() {
 		if p.active {
@@ -362,7 +363,6 @@ func (p *HsmsProtocol) abortControlTransactions() {
 
 func (p *HsmsProtocol) OnConnectionEstablished() {
 	p.connectionCount.Inc()
-	p.connected.Store(true)
 	if err := p.connectionState.Connect(); err != nil {
 		p.logger.Error("change state to CONNECTED failed", "error", err)
 	}
-- 
2.43.0


From 3153dd5e9dc3c768beef64cb30f18b5ea6bce95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:19 +0000
Subject: [PATCH 52/66] fix: a connection ended by Disable could leave its
 state behind, and no later one could be selected

---
 hsms/protocol.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hsms/protocol.go b/hsms/protocol.go
index a169ac2..72c11eb 100644
--- a/hsms/protocol.go
+++ b/hsms/protocol.go
@@ -884,6 +884,11 @@ func (p *HsmsProtocol) OnConnectionEstablishedAndStartReceiver(connection *link.
 		if sess := p.hsmsConnection.Session(); sess == connection {
 			p.hsmsConnection.SetSession(nil)
 		}
+		if p.connectionState.CurrentState() != StateNotConnected { // Disable ended the loop
+			if err := p.connectionState.Disconnect(); err != nil {
+				p.logger.Error("change state to NOT-CONNECTED failed", "error", err)
+			}
+		}
 		p.abortControlTransactions()
 
 		close(done)
-- 
2.43.0


From 98b9f9e4247bba8870d8efafcabf4281400054fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:20 +0000
Subject: [PATCH 53/66] fix: an active endpoint connected again after a loss
 although automatic reconnection was off

---
 hsms/protocol.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hsms/protocol.go b/hsms/protocol.go
index 72c11eb..8a6ffeb 100644
--- a/hsms/protocol.go
+++ b/hsms/protocol.go
@@ -487,6 +487,10 @@ func (p *HsmsProtocol) connectLoop() {
 			if !p.enabled.Load() {
 				return
 			}
+			if !p.timeouts.AutoReconnect() {
+				p.logger.Info("auto-reconnect disabled, stopping connection attempts")
+				return
+			}
 			time.Sleep(time.Duration(p.timeouts.T5ConnSeparateTimeout()) * time.Second)
 			continue
 		}
-- 
2.43.0


From a0a0682b2675996bb418226f5688112ce07567af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:45 +0000
Subject: [PATCH 54/66] fix: Disable of an active endpoint hung behind senders
 blocked on a peer that does not read

---
 hsms/protocol.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hsms/protocol.go b/hsms/protocol.go
index 8a6ffeb..969ad9a 100644
--- a/hsms/protocol.go
+++ b/hsms/protocol.go
@@ -391,6 +391,10 @@ func (p *HsmsProtocol) Disable() {
 
 	if p.active {
 		if sess := p.hsmsConnection.Session(); sess != nil && !sess.IsClosed() {
+			if wd, ok := sess.Codec().(interface{ SetWriteDeadline(time.Time) error }); ok {
+				// a peer that does not read must not hold up the farewell
+				_ = wd.SetWriteDeadline(time.Now().Add(time.Duration(p.timeouts.T6ControlTransTimeout()) * time.Second))
+			}
 			if p.connectionState.CurrentState() == StateConnectedSelected {
 				if err := p.hsmsConnection.sendDeselectReq(); err != nil {
 					p.logger.Error("deselect failed", "error", err)
-- 
2.43.0


From d0ab0a9898ab1c8077c0e4da7b34dce396137476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:25 +0000
Subject: [PATCH 55/66] fix: Enable and Disable of a GemHandler at the same
 time left it running with no way to stop it

---
 gem/handler.go | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/gem/handler.go b/gem/handler.go
index 8a5c822..055b794 100644
--- a/gem/handler.go
+++ b/gem/handler.go
@@ -223,14 +223,7 @@ func (g *GemHandler) Enable() {
 	}
 
 	g.state.setState(CommunicationStateNotCommunicating)
-	g.protocol.Enable()
-
-	g.stopMu.Lock()
-	stopCh := make(chan struct{})
-	g.stopCh = stopCh
-	g.stopMu.Unlock()
-
-	go g.monitorLoop(stopCh)
+	g.startOrStop()
 }
 
 // Disable stops monitoring and disables the HSMS protocol.
@@ -241,15 +234,26 @@ func (g *GemHandler) Disable() {
 
 	g.setCommunicationState(CommunicationStateNotCommunicating)
 
+	g.startOrStop()
+}
+
+// startOrStop brings monitoring and the protocol in line with enabled. Enable and
+// Disable may run at the same time: the last one to get here sees the outcome.
+func (g *GemHandler) startOrStop() {
 	g.stopMu.Lock()
-	if g.stopCh != nil {
+	defer g.stopMu.Unlock()
+
+	enabled := g.enabled.Load()
+	if enabled && g.stopCh == nil {
+		g.protocol.Enable()
+		g.stopCh = make(chan struct{})
+		go g.monitorLoop(g.stopCh)
+	} else if !enabled && g.stopCh != nil {
 		close(g.stopCh)
 		g.stopCh = nil
+		g.state.stopTimers()
+		g.protocol.Disable()
 	}
-	g.stopMu.Unlock()
-
-	g.state.stopTimers()
-	g.protocol.Disable()
 }
 
 // State returns current communication state.
-- 
2.43.0


From d7d2baefaaed5d2ba611710448b451de955850cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:02 +0000
Subject: [PATCH 56/66] fix: a value source without a usable value crashed the
 receiver or corrupted the reply

---
 gem/collection_event_handlers.go |  2 +-
 gem/status_equipment_handlers.go | 23 +++++------------------
 gem/status_equipment_messages.go |  9 +++++++++
 3 files changed, 15 insertions(+), 19 deletions(-)

diff --git a/gem/collection_event_handlers.go b/gem/collection_event_handlers.go
index 907ea0f..826c900 100644
--- a/gem/collection_event_handlers.go
+++ b/gem/collection_event_handlers.go
@@ -171,7 +171,7 @@ func safeDataVariableValue(variable *DataVariable, logger common.Logger) ast.Ite
 		}
 		return noValueNode()
 	}
-	return value
+	return wireValue(value)
 }
 
 func (g *GemHandler) onS2F33(msg *ast.DataMessage) (*ast.DataMessage, error) {
diff --git a/gem/status_equipment_handlers.go b/gem/status_equipment_handlers.go
index 3eaad98..5f470eb 100644
--- a/gem/status_equipment_handlers.go
+++ b/gem/status_equipment_handlers.go
@@ -174,7 +174,7 @@ func safeStatusValue(variable *StatusVariable, logger common.Logger) ast.ItemNod
 		}
 		return noValueNode()
 	}
-	return value
+	return wireValue(value)
 }
 
 func buildStatusInfoNode(variable *StatusVariable) ast.ItemNode {
@@ -251,29 +251,16 @@ func safeEquipmentConstantValue(constant *EquipmentConstant, logger common.Logge
 		}
 		return noValueNode()
 	}
-	return value
+	return wireValue(value)
 }
 
 func buildEquipmentConstantInfoNode(constant *EquipmentConstant) ast.ItemNode {
-	minNode := constant.MinValue
-	if minNode == nil {
-		minNode = noValueNode()
-	}
-	maxNode := constant.MaxValue
-	if maxNode == nil {
-		maxNode = noValueNode()
-	}
-	defNode := constant.DefaultValue
-	if defNode == nil {
-		defNode = noValueNode()
-	}
-
 	return ast.NewListNode(
 		constant.idNode(),
 		ast.NewASCIINode(constant.Name),
-		minNode,
-		maxNode,
-		defNode,
+		wireValue(constant.MinValue),
+		wireValue(constant.MaxValue),
+		wireValue(constant.DefaultValue),
 		ast.NewASCIINode(constant.Unit),
 	)
 }
diff --git a/gem/status_equipment_messages.go b/gem/status_equipment_messages.go
index d04f58e..244fcfa 100644
--- a/gem/status_equipment_messages.go
+++ b/gem/status_equipment_messages.go
@@ -13,6 +13,15 @@ func noValueNode() ast.ItemNode {
 	return ast.NewListNode()
 }
 
+// wireValue returns a value as it goes into a list: one that has no encoding
+// counts as missing.
+func wireValue(value ast.ItemNode) ast.ItemNode {
+	if value == nil || len(value.ToBytes()) == 0 {
+		return noValueNode()
+	}
+	return value
+}
+
 func (g *GemHandler) buildS1F3(ids []idInfo) *ast.DataMessage {
 	items := make([]interface{}, 0, len(ids))
 	for _, id := range ids {
-- 
2.43.0


From 643e4e6c206934a615ee4b030ad65f4c373670d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:38 +0000
Subject: [PATCH 57/66] fix: a refused S2F15 left earlier constants of the list
 changed

---
 gem/equipment_constants.go       | 28 ++++++++++++++++------------
 gem/status_equipment_handlers.go | 27 +++++++++++++++++++++++++--
 2 files changed, 41 insertions(+), 14 deletions(-)

diff --git a/gem/equipment_constants.go b/gem/equipment_constants.go
index 624492b..640a1a1 100644
--- a/gem/equipment_constants.go
+++ b/gem/equipment_constants.go
@@ -144,7 +144,11 @@ func (ec *EquipmentConstant) ApplyValue(node ast.ItemNode) error {
 	if err := ec.validate(node); err != nil {
 		return err
 	}
-	return ec.store(node)
+	if err := ec.update(node); err != nil {
+		return err
+	}
+	ec.store(node)
+	return nil
 }
 
 // validate reports whether the constant would accept the value.
@@ -159,26 +163,26 @@ func (ec *EquipmentConstant) validate(node ast.ItemNode) error {
 	return nil
 }
 
-// store hands a validated value to the updater and keeps it.
-func (ec *EquipmentConstant) store(node ast.ItemNode) error {
+// update hands a validated value to the updater.
+func (ec *EquipmentConstant) update(node ast.ItemNode) error {
 	ec.mu.RLock()
 	updater := ec.updater
-	provider := ec.provider
 	ec.mu.RUnlock()
 
 	if updater != nil {
-		if err := updater(node); err != nil {
-			return err
-		}
+		return updater(node)
 	}
+	return nil
+}
+
+// store keeps a value the updater has accepted.
+func (ec *EquipmentConstant) store(node ast.ItemNode) {
+	ec.mu.Lock()
+	defer ec.mu.Unlock()
 
-	if provider == nil {
-		ec.mu.Lock()
+	if ec.provider == nil {
 		ec.value = node
-		ec.mu.Unlock()
 	}
-
-	return nil
 }
 
 // EquipmentConstantValue represents an ECID and its associated value payload.
diff --git a/gem/status_equipment_handlers.go b/gem/status_equipment_handlers.go
index 5f470eb..e2ac8d1 100644
--- a/gem/status_equipment_handlers.go
+++ b/gem/status_equipment_handlers.go
@@ -390,13 +390,36 @@ func (g *GemHandler) applyEquipmentConstantUpdates(updates []equipmentConstantUp
 		}
 	}
 
-	for _, upd := range updates {
+	// The updaters may still refuse; those that took their value by then get
+	// the one from before the message back, last one first.
+	previous := make([]ast.ItemNode, len(updates))
+	for i, upd := range updates {
 		constant := g.equipmentConstants[upd.id.key]
-		if err := constant.store(upd.value); err != nil {
+		previous[i], _ = constant.Value()
+		if err := constant.update(upd.value); err != nil {
 			g.logger.Warn("equipment constant update rejected", "ecid", constant.ID(), "error", err)
+			g.restoreEquipmentConstants(updates[:i], previous)
 			return ECACKValidationError
 		}
 	}
 
+	for _, upd := range updates {
+		g.equipmentConstants[upd.id.key].store(upd.value)
+	}
+
 	return ECACKAccepted
 }
+
+// restoreEquipmentConstants hands the previous values back to the updaters.
+func (g *GemHandler) restoreEquipmentConstants(updates []equipmentConstantUpdate, previous []ast.ItemNode) {
+	for i := len(updates) - 1; i >= 0; i-- {
+		constant := g.equipmentConstants[updates[i].id.key]
+		if previous[i] == nil {
+			g.logger.Error("equipment constant not restored: no previous value", "ecid", constant.ID())
+			continue
+		}
+		if err := constant.update(previous[i]); err != nil {
+			g.logger.Error("equipment constant not restored", "ecid", constant.ID(), "error", err)
+		}
+	}
+}
-- 
2.43.0


From b466a3855f53cc91ab461e5fb0bc8807efdea948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:16 +0000
Subject: [PATCH 58/66] fix: an alarm identifier that does not fit was taken
 for another alarm

---
 gem/alarm.go          | 40 +++++++++++++++++++++++++++-------------
 gem/alarm_client.go   | 15 ++-------------
 gem/alarm_handlers.go | 15 ++-------------
 3 files changed, 31 insertions(+), 39 deletions(-)

diff --git a/gem/alarm.go b/gem/alarm.go
index 95df9fe..f0453bd 100644
--- a/gem/alarm.go
+++ b/gem/alarm.go
@@ -155,6 +155,30 @@ func alarmIDNode(id int) ast.ItemNode {
 	}
 }
 
+// alarmIDFromNode reads an ALID. One that is no number, or does not fit, is an
+// error: it must not be taken for another alarm.
+func alarmIDFromNode(node ast.ItemNode) (int, error) {
+	switch typed := node.(type) {
+	case *ast.UintNode:
+		values, _ := typed.Values().([]uint64)
+		if len(values) == 0 {
+			return 0, fmt.Errorf("gem: ALID missing value")
+		}
+		if values[0] > math.MaxInt {
+			return 0, fmt.Errorf("gem: ALID %d out of range", values[0])
+		}
+		return int(values[0]), nil
+	case *ast.IntNode:
+		values, _ := typed.Values().([]int64)
+		if len(values) == 0 {
+			return 0, fmt.Errorf("gem: ALID missing value")
+		}
+		return int(values[0]), nil
+	default:
+		return 0, fmt.Errorf("gem: unsupported ALID type %T", node)
+	}
+}
+
 func parseAlarmMessage(msg *ast.DataMessage) (AlarmEvent, error) {
 	var event AlarmEvent
 
@@ -176,19 +200,9 @@ func parseAlarmMessage(msg *ast.DataMessage) (AlarmEvent, error) {
 	if err != nil {
 		return event, fmt.Errorf("gem: malformed S5F1 ALID: %w", err)
 	}
-	switch typed := alidNode.(type) {
-	case *ast.UintNode:
-		values, _ := typed.Values().([]uint64)
-		if len(values) > 0 {
-			event.ID = int(values[0])
-		}
-	case *ast.IntNode:
-		values, _ := typed.Values().([]int64)
-		if len(values) > 0 {
-			event.ID = int(values[0])
-		}
-	default:
-		return event, fmt.Errorf("gem: unsupported ALID type %T", alidNode)
+	event.ID, err = alarmIDFromNode(alidNode)
+	if err != nil {
+		return event, err
 	}
 
 	altxNode, err := msg.Get(2)
diff --git a/gem/alarm_client.go b/gem/alarm_client.go
index fb2131e..04a3388 100644
--- a/gem/alarm_client.go
+++ b/gem/alarm_client.go
@@ -128,19 +128,8 @@ func parseAlarmListResponse(msg *ast.DataMessage) ([]AlarmInfo, error) {
 		if err != nil {
 			continue
 		}
-		var alid int
-		switch typed := alidNode.(type) {
-		case *ast.UintNode:
-			values, _ := typed.Values().([]uint64)
-			if len(values) > 0 {
-				alid = int(values[0])
-			}
-		case *ast.IntNode:
-			values, _ := typed.Values().([]int64)
-			if len(values) > 0 {
-				alid = int(values[0])
-			}
-		default:
+		alid, err := alarmIDFromNode(alidNode)
+		if err != nil {
 			continue
 		}
 
diff --git a/gem/alarm_handlers.go b/gem/alarm_handlers.go
index 40460d2..db39963 100644
--- a/gem/alarm_handlers.go
+++ b/gem/alarm_handlers.go
@@ -48,19 +48,8 @@ func (g *GemHandler) onS5F3(msg *ast.DataMessage) (*ast.DataMessage, error) {
 			continue
 		}
 
-		var id int
-		switch typed := alidNode.(type) {
-		case *ast.UintNode:
-			values, _ := typed.Values().([]uint64)
-			if len(values) > 0 {
-				id = int(values[0])
-			}
-		case *ast.IntNode:
-			values, _ := typed.Values().([]int64)
-			if len(values) > 0 {
-				id = int(values[0])
-			}
-		default:
+		id, err := alarmIDFromNode(alidNode)
+		if err != nil {
 			return g.buildS5F4(1), nil
 		}
 
-- 
2.43.0


From 40e97ea08e9e97a3fe419345c99850971d426e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:16 +0000
Subject: [PATCH 59/66] fix: a malformed alarm report was acknowledged as
 accepted

---
 gem/handler.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gem/handler.go b/gem/handler.go
index 055b794..35d37a4 100644
--- a/gem/handler.go
+++ b/gem/handler.go
@@ -790,9 +790,12 @@ func (g *GemHandler) onS5F1(msg *ast.DataMessage) (*ast.DataMessage, error) {
 		return g.buildS5F2(1), nil
 	}
 
-	if event, err := parseAlarmMessage(msg); err != nil {
+	event, err := parseAlarmMessage(msg)
+	if err != nil {
 		g.logger.Error("failed to parse S5F1", "error", err)
-	} else if g.events.AlarmReceived != nil {
+		return g.buildS5F2(1), nil
+	}
+	if g.events.AlarmReceived != nil {
 		g.events.AlarmReceived.Fire(map[string]interface{}{"alarm": event})
 	}
 
-- 
2.43.0


From 4944ab18bf5f900b54000acb2a262eaa6c63fe10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:03 +0000
Subject: [PATCH 60/66] fix: refuse process program text and codes that cannot
 be sent

---
 gem/process_program_handlers.go  |  3 +++
 gem/process_programs.go          | 13 +++++++++++++
 gem/status_equipment_client.go   |  4 ++++
 gem/status_equipment_messages.go | 23 +++++++++++++----------
 4 files changed, 33 insertions(+), 10 deletions(-)

diff --git a/gem/process_program_handlers.go b/gem/process_program_handlers.go
index 1220082..12e83ce 100644
--- a/gem/process_program_handlers.go
+++ b/gem/process_program_handlers.go
@@ -127,6 +127,9 @@ func (g *GemHandler) onS7F5(msg *ast.DataMessage) (*ast.DataMessage, error) {
 	ack := 0
 	if handler := g.getProcessRequestHandler(); handler != nil {
 		body, ack = handler(ppidInfo.raw)
+		if ack == 0 && checkProgramText(body) != nil {
+			ack = 1
+		}
 	} else {
 		if program, ok := g.processStore.get(ppidInfo.key); ok {
 			body = program.Body
diff --git a/gem/process_programs.go b/gem/process_programs.go
index 36ee120..dcc4013 100644
--- a/gem/process_programs.go
+++ b/gem/process_programs.go
@@ -26,9 +26,22 @@ func newProcessProgram(id interface{}, body string) (*ProcessProgram, error) {
 	if err != nil {
 		return nil, err
 	}
+	if err := checkProgramText(body); err != nil {
+		return nil, err
+	}
 	return &ProcessProgram{info: info, Body: body}, nil
 }
 
+// checkProgramText reports whether a program body can be sent: bodies travel as ASCII items.
+func checkProgramText(body string) error {
+	for i := 0; i < len(body); i++ {
+		if body[i] > 127 {
+			return fmt.Errorf("process program body is not ASCII: byte 0x%02X at offset %d", body[i], i)
+		}
+	}
+	return nil
+}
+
 func (pp *ProcessProgram) ID() interface{} {
 	return pp.info.raw
 }
diff --git a/gem/status_equipment_client.go b/gem/status_equipment_client.go
index 5c23552..9d3a47c 100644
--- a/gem/status_equipment_client.go
+++ b/gem/status_equipment_client.go
@@ -267,6 +267,10 @@ func (g *GemHandler) UploadProcessProgram(ppid interface{}, body string) (int, e
 		return -1, err
 	}
 
+	if err := checkProgramText(body); err != nil {
+		return -1, err
+	}
+
 	resp, err := g.protocol.SendAndWait(g.buildS7F3(info, body))
 	if err != nil {
 		return -1, err
diff --git a/gem/status_equipment_messages.go b/gem/status_equipment_messages.go
index 244fcfa..54f6234 100644
--- a/gem/status_equipment_messages.go
+++ b/gem/status_equipment_messages.go
@@ -224,6 +224,15 @@ func (g *GemHandler) buildS6F16(dataID int, ceNode ast.ItemNode, reports []ast.I
 	return ast.NewDataMessage("EventReportData", 6, 16, 0, "H<-E", body)
 }
 
+// ackByte returns an application's acknowledgement code as it fits the one byte it has on the
+// wire. A code outside 0..255 stays a refusal.
+func ackByte(ack int) int {
+	if ack < 0 || ack > 255 {
+		return 255
+	}
+	return ack
+}
+
 func (g *GemHandler) buildS7F3(ppid idInfo, programBody string) *ast.DataMessage {
 	payload := ast.NewListNode(ppid.node, ast.NewASCIINode(programBody))
 	return ast.NewDataMessage("ProcessProgramSend", 7, 3, 1, "H->E", payload)
@@ -231,7 +240,7 @@ func (g *GemHandler) buildS7F3(ppid idInfo, programBody string) *ast.DataMessage
 
 func (g *GemHandler) buildS7F4(ack int) *ast.DataMessage {
 	//body := ast.NewListNode(ast.NewBinaryNode(ack))
-	body := ast.NewBinaryNode(ack)
+	body := ast.NewBinaryNode(ackByte(ack))
 	return ast.NewDataMessage("ProcessProgramAcknowledge", 7, 4, 0, "H<-E", body)
 }
 
@@ -246,17 +255,11 @@ func (g *GemHandler) buildS7F6(ppid ast.ItemNode, programBody string, ack int) *
 	if ppidNode == nil {
 		ppidNode = noValueNode()
 	}
-	bodyNode := ast.NewASCIINode(programBody)
 	if ack != 0 {
-		bodyNode = ast.NewASCIINode("")
-	}
-	if ack < 0 {
-		ack = 0
+		programBody = ""
 	}
-	if ack > 255 {
-		ack = 255
-	}
-	ackNode := ast.NewBinaryNode(fmt.Sprintf("0b%b", ack))
+	bodyNode := ast.NewASCIINode(programBody)
+	ackNode := ast.NewBinaryNode(ackByte(ack))
 	payload := ast.NewListNode(ppidNode, bodyNode, ackNode)
 	return ast.NewDataMessage("ProcessProgramData", 7, 6, 0, "H<-E", payload)
 }
-- 
2.43.0


From 46fa1b214a90daa75eac95458d14680dd05f003f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:01 +0000
Subject: [PATCH 61/66] fix: refuse malformed or unencodable remote commands

---
 gem/id_utils.go       | 13 +++++++++++++
 gem/remote_command.go | 21 ++++++++++++++++-----
 2 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/gem/id_utils.go b/gem/id_utils.go
index 2474fba..30ca341 100644
--- a/gem/id_utils.go
+++ b/gem/id_utils.go
@@ -51,12 +51,25 @@ func newIDInfo(value interface{}) (idInfo, error) {
 		}
 		return newIDInfoFromUint(uint64(v))
 	case string:
+		if err := checkASCII(v); err != nil {
+			return idInfo{}, fmt.Errorf("identifier %q: %w", v, err)
+		}
 		return idInfo{raw: v, node: ast.NewASCIINode(v), key: fmt.Sprintf("S:%s", v)}, nil
 	default:
 		return idInfo{}, fmt.Errorf("unsupported identifier type %T", value)
 	}
 }
 
+// checkASCII reports whether a text can be sent as an ASCII item.
+func checkASCII(text string) error {
+	for i := 0; i < len(text); i++ {
+		if text[i] > 127 {
+			return fmt.Errorf("text is not ASCII: byte 0x%02X at offset %d", text[i], i)
+		}
+	}
+	return nil
+}
+
 func newIDInfoFromUint(value uint64) (idInfo, error) {
 	byteSize := 4
 	if value > math.MaxUint32 {
diff --git a/gem/remote_command.go b/gem/remote_command.go
index 7233d75..2ea67bf 100644
--- a/gem/remote_command.go
+++ b/gem/remote_command.go
@@ -3,6 +3,7 @@ package gem
 import (
 	"errors"
 	"fmt"
+	"math"
 
 	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
 )
@@ -147,28 +148,29 @@ func parseRemoteCommand(msg *ast.DataMessage) (RemoteCommandRequest, error) {
 
 	list, ok := paramsNode.(*ast.ListNode)
 	if !ok {
-		return req, nil
+		return RemoteCommandRequest{}, fmt.Errorf("gem: parameters are not a list but %s", paramsNode.Type())
 	}
 
+	// A command is passed on with all its parameters or not at all.
 	for i := 0; i < list.Size(); i++ {
 		entryNode, err := list.Get(i)
 		if err != nil {
-			continue
+			return RemoteCommandRequest{}, fmt.Errorf("gem: invalid parameter %d: %w", i, err)
 		}
 
 		entry, ok := entryNode.(*ast.ListNode)
 		if !ok || entry.Size() == 0 {
-			continue
+			return RemoteCommandRequest{}, fmt.Errorf("gem: parameter %d is not a <CPNAME CPVAL> list", i)
 		}
 
 		nameNode, err := entry.Get(0)
 		if err != nil {
-			continue
+			return RemoteCommandRequest{}, fmt.Errorf("gem: invalid CPNAME of parameter %d: %w", i, err)
 		}
 
 		nameInfo, err := newIDInfoFromNode(nameNode)
 		if err != nil {
-			continue
+			return RemoteCommandRequest{}, fmt.Errorf("gem: invalid CPNAME of parameter %d: %w", i, err)
 		}
 
 		value := ast.NewEmptyItemNode()
@@ -267,6 +269,9 @@ func itemNodeFromValue(value interface{}) (ast.ItemNode, error) {
 	case ast.ItemNode:
 		return v, nil
 	case string:
+		if err := checkASCII(v); err != nil {
+			return nil, fmt.Errorf("gem: CPVAL: %w", err)
+		}
 		return ast.NewASCIINode(v), nil
 	case []byte:
 		ints := make([]interface{}, len(v))
@@ -297,8 +302,14 @@ func itemNodeFromValue(value interface{}) (ast.ItemNode, error) {
 	case uint64:
 		return ast.NewUintNode(unsignedByteSize(v), v), nil
 	case float32:
+		if f := float64(v); math.IsNaN(f) || math.IsInf(f, 0) {
+			return nil, fmt.Errorf("gem: CPVAL %v is not a number", v)
+		}
 		return ast.NewFloatNode(4, float64(v)), nil
 	case float64:
+		if math.IsNaN(v) || math.IsInf(v, 0) {
+			return nil, fmt.Errorf("gem: CPVAL %v is not a number", v)
+		}
 		return ast.NewFloatNode(8, v), nil
 	default:
 		return nil, fmt.Errorf("gem: unsupported CPVAL type %T", value)
-- 
2.43.0


From cfa53bee74df374c5aff2ec05e0fd519d5a88074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:07 +0000
Subject: [PATCH 62/66] fix: refuse time texts with anything but centiseconds
 after the seconds

---
 gem/clock.go                   | 10 ++++++++--
 gem/status_equipment_client.go |  3 +++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/gem/clock.go b/gem/clock.go
index f9cf584..5d399ec 100644
--- a/gem/clock.go
+++ b/gem/clock.go
@@ -67,11 +67,17 @@ func (c *ClockManager) GetFormattedTime() string {
 	return t.Format("20060102150405") + "00"
 }
 
-// ParseSEMITime parses a SEMI E5 format time string ("YYYYMMDDhhmmss00").
+// ParseSEMITime parses a SEMI E5 format time string ("YYYYMMDDhhmmss00"). The
+// centiseconds may be missing and are ignored.
 func ParseSEMITime(timeStr string) (time.Time, error) {
-	if len(timeStr) < 14 {
+	if len(timeStr) != 14 && len(timeStr) != 16 {
 		return time.Time{}, errors.New("gem: invalid SEMI time format")
 	}
+	for _, c := range timeStr[14:] {
+		if c < '0' || c > '9' {
+			return time.Time{}, errors.New("gem: invalid SEMI time format")
+		}
+	}
 	// Parse first 14 characters (ignore centiseconds)
 	return time.Parse("20060102150405", timeStr[:14])
 }
diff --git a/gem/status_equipment_client.go b/gem/status_equipment_client.go
index 9d3a47c..aad11ed 100644
--- a/gem/status_equipment_client.go
+++ b/gem/status_equipment_client.go
@@ -689,6 +689,9 @@ func (g *GemHandler) SetDateTime(timeStr string) (byte, error) {
 	if len(timeStr) < 14 {
 		return 0, fmt.Errorf("gem: invalid time format (need YYYYMMDDhhmmss00)")
 	}
+	if err := checkASCII(timeStr); err != nil {
+		return 0, fmt.Errorf("gem: invalid time format: %w", err)
+	}
 
 	// Build S2F31
 	body := ast.NewASCIINode(timeStr)
-- 
2.43.0


From c9362094581b8768d8aa98aecbcf1073f004f293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:36 +0000
Subject: [PATCH 63/66] fix: communication ends with the selection it was
 established on

---
 gem/handler.go   | 21 +++++++++++++++------
 hsms/protocol.go |  7 +++++--
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/gem/handler.go b/gem/handler.go
index 35d37a4..82b3502 100644
--- a/gem/handler.go
+++ b/gem/handler.go
@@ -574,14 +574,14 @@ func (g *GemHandler) observe() {
 
 	if !g.protocol.Connected() {
 		g.handshakeInProgress.Store(false)
-		g.setCommunicationState(CommunicationStateNotCommunicating)
+		g.loseCommunication(func(CommunicationState) bool { return !g.protocol.Connected() })
 		return
 	}
 
-	// A new connection may have replaced the one communication was established on.
-	if g.State() == CommunicationStateCommunicating && g.commConnection.Load() != g.protocol.ConnectionCount() {
-		g.setCommunicationState(CommunicationStateNotCommunicating)
-	}
+	// The connection communication was established on may have been replaced or deselected.
+	g.loseCommunication(func(current CommunicationState) bool {
+		return current == CommunicationStateCommunicating && g.commConnection.Load() != g.protocol.ConnectionCount()
+	})
 
 	if g.deviceType == DeviceHost && g.protocol.CurrentState() == hsms.StateConnectedSelected {
 		switch g.State() {
@@ -608,6 +608,15 @@ func (g *GemHandler) observe() {
 	}
 }
 
+// loseCommunication ends communication if lost still agrees at that moment: another
+// goroutine may just have established it anew.
+func (g *GemHandler) loseCommunication(lost func(CommunicationState) bool) {
+	prev, ok := g.state.setStateIf(CommunicationStateNotCommunicating, lost)
+	if ok {
+		g.onCommunicationStateChanged(prev, CommunicationStateNotCommunicating)
+	}
+}
+
 func (g *GemHandler) ensureCommunicating() error {
 	if g.State() != CommunicationStateCommunicating {
 		return ErrNotCommunicating
@@ -937,7 +946,7 @@ func (g *GemHandler) buildS1F18(onlack int) *ast.DataMessage {
 }
 
 func readCommAck(msg *ast.DataMessage) int {
-	if msg == nil {
+	if msg == nil || msg.StreamCode() != 1 || msg.FunctionCode() != 14 {
 		return -1
 	}
 	item, err := msg.Get(0)
diff --git a/hsms/protocol.go b/hsms/protocol.go
index 969ad9a..60e61ed 100644
--- a/hsms/protocol.go
+++ b/hsms/protocol.go
@@ -646,6 +646,7 @@ func (p *HsmsProtocol) handleHsmsRequests(message ast.HSMSMessage) {
 			return
 		}
 		p.hsmsConnection.sendDeselectRsp(message, ControlStatusAccepted)
+		p.connectionCount.Inc()
 		if err := p.connectionState.Deselect(); err != nil {
 			p.logger.Error("change state to NOT-SELECTED failed", "error", err)
 		}
@@ -657,6 +658,7 @@ func (p *HsmsProtocol) handleHsmsRequests(message ast.HSMSMessage) {
 			return
 		}
 		if ctrl, ok := message.(*ast.ControlMessage); ok && ControlStatus(ctrl.Status()) == ControlStatusAccepted {
+			p.connectionCount.Inc()
 			if err := p.connectionState.Deselect(); err != nil {
 				p.logger.Error("change state to NOT-SELECTED failed", "error", err)
 			}
@@ -1147,8 +1149,9 @@ func (p *HsmsProtocol) Connected() bool {
 	return p.connected.Load()
 }
 
-// ConnectionCount reports how many connections have been established so far. It
-// tells two connections apart when the gap between them went unnoticed.
+// ConnectionCount reports how many connections have been established or deselected so
+// far. It tells two connections, or two selections of one connection, apart when the gap
+// between them went unnoticed.
 func (p *HsmsProtocol) ConnectionCount() uint64 {
 	return p.connectionCount.Load()
 }
-- 
2.43.0


From 786577325c0c0ac954e00ea3d1cd838424f310ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:26 +0000
Subject: [PATCH 64/66] fix: an attempt on-line left over from a lost
 connection decided the next one

---
 gem/handler.go | 41 ++++++++++++++++++++++++++++++-----------
 1 file changed, 30 insertions(+), 11 deletions(-)

diff --git a/gem/handler.go b/gem/handler.go
index 82b3502..3202117 100644
--- a/gem/handler.go
+++ b/gem/handler.go
@@ -96,7 +96,8 @@ type GemHandler struct {
 
 	logger common.Logger
 
-	controlAttemptInProgress *atomic.Bool
+	controlAttempts          *atomic.Uint64 // attempts on-line begun so far
+	controlAttemptInProgress *atomic.Uint64 // the attempt under way, 0 when there is none
 }
 
 // NewGemHandler creates a GEM handler backed by the provided HSMS protocol.
@@ -140,7 +141,8 @@ func NewGemHandler(opts Options) (*GemHandler, error) {
 		processStore:             newProcessProgramStore(),
 		clockManager:             NewClockManager(),
 		logger:                   resolveLogger(opts.Logger),
-		controlAttemptInProgress: atomic.NewBool(false),
+		controlAttempts:          atomic.NewUint64(0),
+		controlAttemptInProgress: atomic.NewUint64(0),
 	}
 
 	handler.setCommunicationState(CommunicationStateNotCommunicating)
@@ -399,6 +401,9 @@ func (g *GemHandler) transitionControl(transition func(sm *ControlStateMachine)
 	prev := g.control.State()
 	err := transition(g.control)
 	next := g.control.State()
+	if prev == ControlStateAttemptOnline && next != ControlStateAttemptOnline {
+		g.controlAttemptInProgress.Store(0)
+	}
 	g.controlMu.Unlock()
 	if err != nil {
 		return err
@@ -411,9 +416,6 @@ func (g *GemHandler) onControlStateTransition(prev, next ControlState) {
 	if prev == next {
 		return
 	}
-	if prev == ControlStateAttemptOnline && next != ControlStateAttemptOnline {
-		g.controlAttemptInProgress.Store(false)
-	}
 	if g.events.ControlStateChanged != nil {
 		payload := map[string]interface{}{
 			"handler":  g,
@@ -472,12 +474,29 @@ func (g *GemHandler) initiateAttemptOnline() {
 	if g.control == nil {
 		return
 	}
-	if !g.controlAttemptInProgress.CompareAndSwap(false, true) {
+	attempt := g.controlAttempts.Inc()
+	if !g.controlAttemptInProgress.CompareAndSwap(0, attempt) {
 		return
 	}
 
+	// Only the attempt under way decides: one that was abandoned while it waited
+	// for its reply says nothing about the attempt that followed it.
+	conclude := func(transition func(sm *ControlStateMachine) error) {
+		_ = g.transitionControl(func(sm *ControlStateMachine) error {
+			if g.controlAttemptInProgress.Load() != attempt {
+				return nil
+			}
+			return transition(sm)
+		})
+	}
+
 	go func() {
-		defer g.controlAttemptInProgress.Store(false)
+		defer func() {
+			// An attempt begun as this one ended may have found it still under way.
+			if g.controlAttemptInProgress.CompareAndSwap(attempt, 0) && g.ControlState() == ControlStateAttemptOnline {
+				g.initiateAttemptOnline()
+			}
+		}()
 
 		if g.ControlState() != ControlStateAttemptOnline {
 			return
@@ -485,7 +504,7 @@ func (g *GemHandler) initiateAttemptOnline() {
 
 		if g.State() != CommunicationStateCommunicating {
 			g.logger.Warn("attempt online while not communicating")
-			_ = g.transitionControl(func(sm *ControlStateMachine) error {
+			conclude(func(sm *ControlStateMachine) error {
 				return sm.AttemptOnlineFailHostOffline()
 			})
 			return
@@ -494,7 +513,7 @@ func (g *GemHandler) initiateAttemptOnline() {
 		resp, err := g.protocol.SendAndWait(g.buildS1F1())
 		if err != nil {
 			g.logger.Error("S1F1 request failed", "error", err)
-			_ = g.transitionControl(func(sm *ControlStateMachine) error {
+			conclude(func(sm *ControlStateMachine) error {
 				return sm.AttemptOnlineFailHostOffline()
 			})
 			return
@@ -505,13 +524,13 @@ func (g *GemHandler) initiateAttemptOnline() {
 			} else {
 				g.logger.Warn("unexpected nil response to S1F1")
 			}
-			_ = g.transitionControl(func(sm *ControlStateMachine) error {
+			conclude(func(sm *ControlStateMachine) error {
 				return sm.AttemptOnlineFailHostOffline()
 			})
 			return
 		}
 
-		_ = g.transitionControl(func(sm *ControlStateMachine) error {
+		conclude(func(sm *ControlStateMachine) error {
 			return sm.AttemptOnlineSuccess()
 		})
 	}()
-- 
2.43.0


From 67ab8fa91860d6b6e133db32309ab8d025d6620a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:59 +0000
Subject: [PATCH 65/66] fix: replacing the logger and adopting a session are
 safe while the endpoint runs

---
 hsms/connection.go          |  4 ++--
 hsms/protocol.go            | 27 ++++++++++++---------------
 hsms/protocol_s9_helpers.go |  8 ++++----
 hsms/shared_logger.go       | 36 ++++++++++++++++++++++++++++++++++++
 4 files changed, 54 insertions(+), 21 deletions(-)
 create mode 100644 hsms/shared_logger.go

diff --git a/hsms/connection.go b/hsms/connection.go
index 817a088..bd11af9 100644
--- a/hsms/connection.go
+++ b/hsms/connection.go
@@ -133,7 +133,7 @@ func (c *HsmsConnection) sendSelectReq() error {
 	queue := c.hp.createQueue(systemID, hsms.SelectRspStr)
 	defer c.hp.removeQueue(systemID)
 
-	request := ast.NewHSMSMessageSelectReq(uint16(c.hp.sessionID), c.hp.encodeSystemID(systemID))
+	request := ast.NewHSMSMessageSelectReq(uint16(c.hp.sessionID.Load()), c.hp.encodeSystemID(systemID))
 	c.hp.logControlMessage("TX", request)
 	if err := c.Send(request.ToBytes()); err != nil {
 		c.hp.logger.Error("send select.req failed", "error", err)
@@ -166,7 +166,7 @@ func (c *HsmsConnection) sendDeselectReq() error {
 	queue := c.hp.createQueue(systemID, hsms.DeselectRspStr)
 	defer c.hp.removeQueue(systemID)
 
-	request := ast.NewHSMSMessageDeselectReq(uint16(c.hp.sessionID), c.hp.encodeSystemID(systemID))
+	request := ast.NewHSMSMessageDeselectReq(uint16(c.hp.sessionID.Load()), c.hp.encodeSystemID(systemID))
 	c.hp.logControlMessage("TX", request)
 	if err := c.Send(request.ToBytes()); err != nil {
 		c.hp.logger.Error("send deselect.req failed", "error", err)
diff --git a/hsms/protocol.go b/hsms/protocol.go
index 60e61ed..2246f2a 100644
--- a/hsms/protocol.go
+++ b/hsms/protocol.go
@@ -73,7 +73,7 @@ type HsmsProtocol struct {
 	remoteAddress string
 	remotePort    int
 	active        bool
-	sessionID     int
+	sessionID     *atomic.Int64 // changes when the remote session is adopted
 	name          string
 
 	enabled   *atomic.Bool
@@ -81,7 +81,7 @@ type HsmsProtocol struct {
 
 	connectionCount *atomic.Uint64
 
-	logger common.Logger
+	logger *sharedLogger
 
 	systemCounter *atomic.Uint32
 
@@ -127,18 +127,16 @@ type HsmsProtocol struct {
 
 // NewHsmsProtocol creates a new HsmsProtocol instance.
 func NewHsmsProtocol(address string, port int, active bool, sessionID int, name string) *HsmsProtocol {
-	logger := common.NopLogger()
-
 	h := &HsmsProtocol{
 		remoteAddress:        address,
 		remotePort:           port,
 		active:               active,
-		sessionID:            sessionID,
+		sessionID:            atomic.NewInt64(int64(sessionID)),
 		name:                 name,
 		enabled:              atomic.NewBool(false),
 		connected:            atomic.NewBool(false),
 		connectionCount:      atomic.NewUint64(0),
-		logger:               logger,
+		logger:               newSharedLogger(),
 		systemCounter:        atomic.NewUint32(rand.Uint32()),
 		timeouts:             NewSecsTimeout(),
 		systemQueues:         make(map[uint32]replyQueue),
@@ -401,7 +399,7 @@ func (p *HsmsProtocol) Disable() {
 				}
 			}
 			systemID := p.getNextSystemCounter()
-			sep := ast.NewHSMSMessageSeparateReq(uint16(p.sessionID), p.encodeSystemID(systemID))
+			sep := ast.NewHSMSMessageSeparateReq(uint16(p.sessionID.Load()), p.encodeSystemID(systemID))
 			if err := p.hsmsConnection.Send(sep.ToBytes()); err != nil {
 				p.logger.Error("send separate.req failed", "error", err)
 			}
@@ -575,7 +573,7 @@ func (p *HsmsProtocol) handleHsmsRequests(message ast.HSMSMessage) {
 		}
 
 		receivedSession := ctrl.SessionID()
-		expectedSession := uint16(p.sessionID)
+		expectedSession := uint16(p.sessionID.Load())
 		if receivedSession != expectedSession {
 			// 0xFFFF0000 是 HSMS 标准规定的“系统消息会话 ID”，只用于 Select/Linktest 等控制消息。
 			acceptMismatch := false
@@ -590,8 +588,7 @@ func (p *HsmsProtocol) handleHsmsRequests(message ast.HSMSMessage) {
 					"select.req session mismatch: adopting remote session",
 					"remote", receivedSession, "expected", expectedSession,
 				)
-				p.sessionID = int(receivedSession)
-				p.hsmsConnection.sessionID = int(receivedSession)
+				p.sessionID.Store(int64(receivedSession))
 				acceptMismatch = true
 			}
 			if !acceptMismatch {
@@ -714,7 +711,7 @@ func (p *HsmsProtocol) invokeHandler(handler DataMessageHandler, msg *ast.DataMe
 		return
 	}
 
-	response = response.SetSessionIDAndSystemBytes(p.sessionID, msg.SystemBytes())
+	response = response.SetSessionIDAndSystemBytes(int(p.sessionID.Load()), msg.SystemBytes())
 	if response.WaitBit() == "optional" {
 		response = response.SetWaitBit(false)
 	}
@@ -1000,7 +997,7 @@ func (p *HsmsProtocol) SendDataMessage(message *ast.DataMessage) error {
 	}
 
 	systemID := p.getNextSystemCounter()
-	outgoing := message.SetSessionIDAndSystemBytes(p.sessionID, p.encodeSystemID(systemID))
+	outgoing := message.SetSessionIDAndSystemBytes(int(p.sessionID.Load()), p.encodeSystemID(systemID))
 	if outgoing.WaitBit() == "optional" {
 		outgoing = outgoing.SetWaitBit(false)
 	}
@@ -1023,7 +1020,7 @@ func (p *HsmsProtocol) SendAndWait(message *ast.DataMessage) (*ast.DataMessage,
 	queue := p.createQueue(systemID, hsms.DataMessageStr)
 	defer p.removeQueue(systemID)
 
-	outgoing := message.SetSessionIDAndSystemBytes(p.sessionID, p.encodeSystemID(systemID))
+	outgoing := message.SetSessionIDAndSystemBytes(int(p.sessionID.Load()), p.encodeSystemID(systemID))
 	if outgoing.WaitBit() == "optional" {
 		outgoing = outgoing.SetWaitBit(true)
 	}
@@ -1064,7 +1061,7 @@ func (p *HsmsProtocol) SendResponse(message *ast.DataMessage, systemBytes []byte
 		return err
 	}
 
-	outgoing := message.SetSessionIDAndSystemBytes(p.sessionID, systemBytes)
+	outgoing := message.SetSessionIDAndSystemBytes(int(p.sessionID.Load()), systemBytes)
 	if outgoing.WaitBit() == "optional" {
 		outgoing = outgoing.SetWaitBit(false)
 	}
@@ -1101,7 +1098,7 @@ func (p *HsmsProtocol) SetLogger(logger common.Logger) {
 	if logger == nil {
 		logger = common.NopLogger()
 	}
-	p.logger = logger
+	p.logger.set(logger)
 }
 
 // ConfigureLogging enables or updates message logging behaviour.
diff --git a/hsms/protocol_s9_helpers.go b/hsms/protocol_s9_helpers.go
index 1c3505c..fd7ba30 100644
--- a/hsms/protocol_s9_helpers.go
+++ b/hsms/protocol_s9_helpers.go
@@ -35,7 +35,7 @@ func (p *HsmsProtocol) sendS9ErrorForUnrecognized(message *ast.DataMessage) {
 
 	if s9Message != nil {
 		// Set session ID and ensure no wait bit
-		s9Message = s9Message.SetSessionIDAndSystemBytes(p.sessionID, systemBytes)
+		s9Message = s9Message.SetSessionIDAndSystemBytes(int(p.sessionID.Load()), systemBytes)
 		s9Message = s9Message.SetWaitBit(false)
 
 		p.logDataMessage("OUT", s9Message)
@@ -82,7 +82,7 @@ func (p *HsmsProtocol) isKnownStream(stream int) bool {
 // sendS9F7IllegalData sends S9F7 for illegal data format
 func (p *HsmsProtocol) sendS9F7IllegalData(systemBytes []byte) {
 	s9Message := BuildS9F7(systemBytes)
-	s9Message = s9Message.SetSessionIDAndSystemBytes(p.sessionID, systemBytes)
+	s9Message = s9Message.SetSessionIDAndSystemBytes(int(p.sessionID.Load()), systemBytes)
 	s9Message = s9Message.SetWaitBit(false)
 
 	p.logger.Info("illegal data format, sending S9F7")
@@ -96,7 +96,7 @@ func (p *HsmsProtocol) sendS9F7IllegalData(systemBytes []byte) {
 // sendS9F11DataTooLong sends S9F11 for oversized messages
 func (p *HsmsProtocol) sendS9F11DataTooLong(systemBytes []byte) {
 	s9Message := BuildS9F11(systemBytes)
-	s9Message = s9Message.SetSessionIDAndSystemBytes(p.sessionID, systemBytes)
+	s9Message = s9Message.SetSessionIDAndSystemBytes(int(p.sessionID.Load()), systemBytes)
 	s9Message = s9Message.SetWaitBit(false)
 
 	p.logger.Info("message too long, sending S9F11")
@@ -149,7 +149,7 @@ func (p *HsmsProtocol) sendS9F9TransactionTimeout(originalMsg *ast.DataMessage)
 		systemID := p.getNextSystemCounter()
 		nextSys := p.encodeSystemID(systemID)
 
-		s9Message = s9Message.SetSessionIDAndSystemBytes(p.sessionID, nextSys)
+		s9Message = s9Message.SetSessionIDAndSystemBytes(int(p.sessionID.Load()), nextSys)
 		s9Message = s9Message.SetWaitBit(false)
 
 		p.logger.Info("T3 timeout, sending S9F9", "stream", originalMsg.StreamCode(), "function", originalMsg.FunctionCode())
diff --git a/hsms/shared_logger.go b/hsms/shared_logger.go
new file mode 100644
index 0000000..b684216
--- /dev/null
+++ b/hsms/shared_logger.go
@@ -0,0 +1,36 @@
+package hsms
+
+import (
+	"sync/atomic"
+
+	"github.com/younglifestyle/secs4go/common"
+)
+
+// sharedLogger is a common.Logger that can be replaced while it is in use.
+type sharedLogger struct {
+	current atomic.Value // of loggerBox
+}
+
+// loggerBox lets loggers of different types be stored in one atomic.Value.
+type loggerBox struct {
+	common.Logger
+}
+
+func newSharedLogger() *sharedLogger {
+	l := &sharedLogger{}
+	l.set(common.NopLogger())
+	return l
+}
+
+func (l *sharedLogger) set(logger common.Logger) {
+	l.current.Store(loggerBox{logger})
+}
+
+func (l *sharedLogger) get() common.Logger {
+	return l.current.Load().(loggerBox).Logger
+}
+
+func (l *sharedLogger) Debug(msg string, kv ...interface{}) { l.get().Debug(msg, kv...) }
+func (l *sharedLogger) Info(msg string, kv ...interface{})  { l.get().Info(msg, kv...) }
+func (l *sharedLogger) Warn(msg string, kv ...interface{})  { l.get().Warn(msg, kv...) }
+func (l *sharedLogger) Error(msg string, kv ...interface{}) { l.get().Error(msg, kv...) }
-- 
2.43.0


From 980712a532b04d49350d70b574db3b4fd695a21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:46 +0000
Subject: [PATCH 66/66] fix: failed connection attempts before a re-enable
 count no more

---
 hsms/protocol.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hsms/protocol.go b/hsms/protocol.go
index 2246f2a..d9c0f0a 100644
--- a/hsms/protocol.go
+++ b/hsms/protocol.go
@@ -451,8 +451,12 @@ func (p *HsmsProtocol) startConnectThread() {
 }
 
 func (p *HsmsProtocol) connectLoop() {
+	p.resetReconnectionState()
 	for p.enabled.Load() {
-		p.reenabled.Store(false)
+		if p.reenabled.Swap(false) {
+			// the attempts made before count no more
+			p.resetReconnectionState()
+		}
 		if p.active {
 			if err := p.activeConnect(); err != nil {
 				if !p.enabled.Load() {
-- 
2.43.0

