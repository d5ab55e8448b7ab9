From 307e51a4b48bcb6731b0a4d8b0e70e2d1b117f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:22 +0000
Subject: [PATCH 01/17] fix: stop scanning KV entries after the announced count

KVScanner tracked the number of announced entries but never looked at it, so
in a NOTIFY with several messages the following messages were parsed as
arguments of the first one. Stop after the announced count, report a list that
ends early as an error, and do not continue (and forget the error) after a
failed step.
---
 pkg/encoding/kvscanner.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/pkg/encoding/kvscanner.go b/pkg/encoding/kvscanner.go
index 5a5b5ab..d67e90a 100644
--- a/pkg/encoding/kvscanner.go
+++ b/pkg/encoding/kvscanner.go
@@ -184,7 +184,15 @@ func (k *KVEntry) Reset() {
 }
 
 func (k *KVScanner) Next(e *KVEntry) bool {
+	// A negative count means that the list extends to the end of the buffer.
+	if k.lastErr != nil || k.left == 0 {
+		return false
+	}
+
 	if len(k.buf) == 0 {
+		if k.left > 0 {
+			k.lastErr = ErrUnterminatedSequence
+		}
 		return false
 	}
 
@@ -192,7 +200,9 @@ func (k *KVScanner) Next(e *KVEntry) bool {
 		panic("KVEntry cant be nil")
 	}
 	e.Reset()
-	k.left--
+	if k.left > 0 {
+		k.left--
+	}
 
 	nameLen, n, err := Varint(k.buf)
 	if err != nil {
@@ -263,10 +273,6 @@ func (k *KVScanner) Next(e *KVEntry) bool {
 }
 
 func (k *KVScanner) Discard() error {
-	if k.RemainingBuf() == 0 {
-		return nil
-	}
-
 	e := AcquireKVEntry()
 	defer ReleaseKVEntry(e)
 	for k.Next(e) {
-- 
2.43.0


From 3814701b2c215392ec966c4992920f19231acd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:44 +0000
Subject: [PATCH 02/17] fix: reject truncated KV entries instead of panicking

Lengths and values that reach beyond the end of the data made KVScanner.Next
panic on slice bounds. Report them as an unterminated sequence.
---
 pkg/encoding/kvscanner.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/pkg/encoding/kvscanner.go b/pkg/encoding/kvscanner.go
index d67e90a..2b6f403 100644
--- a/pkg/encoding/kvscanner.go
+++ b/pkg/encoding/kvscanner.go
@@ -211,6 +211,11 @@ func (k *KVScanner) Next(e *KVEntry) bool {
 	}
 	k.buf = k.buf[n:]
 
+	// The name is followed by at least the type byte.
+	if nameLen >= uint64(len(k.buf)) {
+		k.lastErr = ErrUnterminatedSequence
+		return false
+	}
 	e.name = k.buf[:nameLen]
 	k.buf = k.buf[nameLen:]
 
@@ -235,10 +240,18 @@ func (k *KVScanner) Next(e *KVEntry) bool {
 		k.buf = k.buf[n:]
 
 	case DataTypeIPV4:
+		if len(k.buf) < net.IPv4len {
+			k.lastErr = ErrUnterminatedSequence
+			return false
+		}
 		e.byteVal = k.buf[:net.IPv4len]
 		k.buf = k.buf[net.IPv4len:]
 
 	case DataTypeIPV6:
+		if len(k.buf) < net.IPv6len {
+			k.lastErr = ErrUnterminatedSequence
+			return false
+		}
 		e.byteVal = k.buf[:net.IPv6len]
 		k.buf = k.buf[net.IPv6len:]
 
@@ -250,6 +263,10 @@ func (k *KVScanner) Next(e *KVEntry) bool {
 		}
 		k.buf = k.buf[n:]
 
+		if nameLen > uint64(len(k.buf)) {
+			k.lastErr = ErrUnterminatedSequence
+			return false
+		}
 		e.byteVal = k.buf[:nameLen]
 		k.buf = k.buf[nameLen:]
 
@@ -261,6 +278,10 @@ func (k *KVScanner) Next(e *KVEntry) bool {
 		}
 		k.buf = k.buf[n:]
 
+		if valLen > uint64(len(k.buf)) {
+			k.lastErr = ErrUnterminatedSequence
+			return false
+		}
 		e.byteVal = k.buf[:valLen]
 		k.buf = k.buf[valLen:]
 
-- 
2.43.0


From f8ad3e1566724c0fabe8b71a1512ddbfe0cdd3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:44 +0000
Subject: [PATCH 03/17] fix: reject truncated messages instead of panicking

A message name reaching beyond the end of the NOTIFY payload, or a payload
ending before the argument count, made MessageScanner.Next panic.
---
 pkg/encoding/messagescanner.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/encoding/messagescanner.go b/pkg/encoding/messagescanner.go
index 3e1cc7a..198393f 100644
--- a/pkg/encoding/messagescanner.go
+++ b/pkg/encoding/messagescanner.go
@@ -85,6 +85,11 @@ func (s *MessageScanner) Next(m *Message) bool {
 	}
 	s.buf = s.buf[n:]
 
+	// The name is followed by at least the argument count.
+	if nameLen >= uint64(len(s.buf)) {
+		s.lastErr = ErrUnterminatedSequence
+		return false
+	}
 	m.name = s.buf[:nameLen]
 	s.buf = s.buf[nameLen:]
 
-- 
2.43.0


From 7af7cfd7846c808942138823cd6cd4b0545dfa3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:44 +0000
Subject: [PATCH 04/17] fix: reject frames too short for their header

A frame shorter than its type and flags was decoded from whatever an earlier
frame had left in the pooled buffer.
---
 spop/frame.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spop/frame.go b/spop/frame.go
index 9868f62..9f834f3 100644
--- a/spop/frame.go
+++ b/spop/frame.go
@@ -126,6 +126,9 @@ func (f *frame) encodeHeader() error {
 func (f *frame) decodeHeader() error {
 	// We don't need to validate here,
 	// there is validation further down the chain
+	if f.buf.Len() < 1+uint32Len {
+		return fmt.Errorf("frame length %d too short for header", f.buf.Len())
+	}
 	f.frameType = frameType(f.buf.ReadNBytes(1)[0])
 
 	f.meta.Flags = frameFlag(binary.BigEndian.Uint32(f.buf.ReadNBytes(uint32Len)))
-- 
2.43.0


From 72d886d9811a4c8c3776df633793849d21bd7d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:15 +0000
Subject: [PATCH 05/17] fix: keep KVWriter output intact when an entry does not
 fit

A buffer without room for the type byte made the setters panic, and a value
that did not fit (or an invalid address) left its name and type behind in
Bytes().
---
 pkg/encoding/kvwriter.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pkg/encoding/kvwriter.go b/pkg/encoding/kvwriter.go
index 4465d8b..77408e8 100644
--- a/pkg/encoding/kvwriter.go
+++ b/pkg/encoding/kvwriter.go
@@ -51,11 +51,17 @@ func (aw *KVWriter) writeKey(name []byte) error {
 		return err
 	}
 
+	// The name is followed by at least the type byte.
+	if n >= len(aw.data)-aw.off {
+		return ErrInsufficientSpace
+	}
+
 	aw.off += n
 	return nil
 }
 
 func (aw *KVWriter) SetString(name string, v string) error {
+	off := aw.off
 	if err := aw.writeKey([]byte(name)); err != nil {
 		return err
 	}
@@ -65,6 +71,7 @@ func (aw *KVWriter) SetString(name string, v string) error {
 
 	n, err := PutBytes(aw.data[aw.off:], []byte(v))
 	if err != nil {
+		aw.off = off
 		return err
 	}
 	aw.off += n
@@ -73,6 +80,7 @@ func (aw *KVWriter) SetString(name string, v string) error {
 }
 
 func (aw *KVWriter) SetBinary(name string, v []byte) error {
+	off := aw.off
 	if err := aw.writeKey([]byte(name)); err != nil {
 		return err
 	}
@@ -82,6 +90,7 @@ func (aw *KVWriter) SetBinary(name string, v []byte) error {
 
 	n, err := PutBytes(aw.data[aw.off:], v)
 	if err != nil {
+		aw.off = off
 		return err
 	}
 	aw.off += n
@@ -122,6 +131,7 @@ func (aw *KVWriter) SetInt32(name string, v int32) error {
 }
 
 func (aw *KVWriter) setInt(name string, d DataType, v int64) error {
+	off := aw.off
 	if err := aw.writeKey([]byte(name)); err != nil {
 		return err
 	}
@@ -131,6 +141,7 @@ func (aw *KVWriter) setInt(name string, d DataType, v int64) error {
 
 	n, err := PutVarint(aw.data[aw.off:], uint64(v))
 	if err != nil {
+		aw.off = off
 		return err
 	}
 	aw.off += n
@@ -146,6 +157,7 @@ func (aw *KVWriter) SetUInt64(name string, v uint64) error {
 }
 
 func (aw *KVWriter) SetAddr(name string, v netip.Addr) error {
+	off := aw.off
 	if err := aw.writeKey([]byte(name)); err != nil {
 		return err
 	}
@@ -156,12 +168,14 @@ func (aw *KVWriter) SetAddr(name string, v netip.Addr) error {
 	case v.Is4():
 		aw.data[aw.off] = byte(DataTypeIPV4)
 	default:
+		aw.off = off
 		return fmt.Errorf("invalid address")
 	}
 	aw.off++
 
 	n, err := PutAddr(aw.data[aw.off:], v)
 	if err != nil {
+		aw.off = off
 		return err
 	}
 	aw.off += n
-- 
2.43.0


From 1c9e198757f5ebfa7a356a660de7cde3ec8ccee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:15 +0000
Subject: [PATCH 06/17] fix: do not leave half an action behind for an invalid
 address

ActionWriter.SetAddr wrote the action header before it looked at the address,
so a rejected address corrupted all following actions of the ACK.
---
 pkg/encoding/actionwriter.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/encoding/actionwriter.go b/pkg/encoding/actionwriter.go
index 168b269..55ea63c 100644
--- a/pkg/encoding/actionwriter.go
+++ b/pkg/encoding/actionwriter.go
@@ -220,6 +220,10 @@ func (aw *ActionWriter) SetUInt64(s varScope, name string, v uint64) error {
 }
 
 func (aw *ActionWriter) SetAddr(s varScope, name string, v netip.Addr) error {
+	if !v.IsValid() {
+		return fmt.Errorf("invalid address")
+	}
+
 	if err := aw.actionHeader(ActionTypeSetVar, s, []byte(name)); err != nil {
 		return err
 	}
-- 
2.43.0


From f2e5d6f98a725fe9064704edf3b446c9d508693c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:15 +0000
Subject: [PATCH 07/17] fix: validate the offered max-frame-size before
 narrowing it

The 64-bit value was truncated to 32 bits first, so that out-of-range offers
such as 2^32+16384 were accepted and answered with a different size.
---
 spop/protocol.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/spop/protocol.go b/spop/protocol.go
index a742d68..71aa473 100644
--- a/spop/protocol.go
+++ b/spop/protocol.go
@@ -128,13 +128,14 @@ func (c *protocolClient) onHAProxyHello(f *frame) error {
 	for s.Next(k) {
 		switch {
 		case k.NameEquals(helloKeyMaxFrameSize):
-			c.maxFrameSize = uint32(k.ValueInt())
-			if c.maxFrameSize < 256 {
-				return fmt.Errorf("maxFrameSize smaller than minimum allowed size: %d", c.maxFrameSize)
+			size := k.ValueInt()
+			if size < 256 {
+				return fmt.Errorf("maxFrameSize smaller than minimum allowed size: %d", size)
 			}
-			if c.maxFrameSize > maxHAProxyFrameSize {
-				return fmt.Errorf("maxFrameSize exceeds HAProxy maximum: %d", c.maxFrameSize)
+			if size > maxHAProxyFrameSize {
+				return fmt.Errorf("maxFrameSize exceeds HAProxy maximum: %d", size)
 			}
+			c.maxFrameSize = uint32(size)
 
 		case k.NameEquals(helloKeyEngineID):
 			// Engine ID allocation is necessary since we need to store it beyond the lifetime
-- 
2.43.0


From 8200b6148bf4f8885b33304e69e6a78c273216ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:16 +0000
Subject: [PATCH 08/17] fix: write each SPOP frame with a single write

Length, header and payload were written separately. Workers handling NOTIFY
frames of one connection at the same time could interleave the pieces.
---
 spop/frame.go | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/spop/frame.go b/spop/frame.go
index 9f834f3..c570333 100644
--- a/spop/frame.go
+++ b/spop/frame.go
@@ -87,20 +87,15 @@ func (f *frame) writeTo(w io.Writer, payload []byte) (int64, error) {
 	}
 	binary.BigEndian.PutUint32(f.length, uint32(frameLen))
 
-	n, err := w.Write(f.length)
-	written := int64(n)
-	if err != nil {
-		return written, err
-	}
-
-	n, err = w.Write(f.buf.ReadBytes())
-	written += int64(n)
-	if err != nil || len(payload) == 0 {
-		return written, err
-	}
-
-	n, err = w.Write(payload)
-	return written + int64(n), err
+	// The workers write to the same connection concurrently, so a frame has to
+	// be handed over in one piece.
+	data := make([]byte, 0, uint32Len+frameLen)
+	data = append(data, f.length...)
+	data = append(data, f.buf.ReadBytes()...)
+	data = append(data, payload...)
+
+	n, err := w.Write(data)
+	return int64(n), err
 }
 
 func (f *frame) encodeHeader() error {
-- 
2.43.0


From 6af7a873dbe33cfa96568ca508f61e4a70387b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:16 +0000
Subject: [PATCH 09/17] fix: limit the length of received peers messages

The announced payload length was passed to make unchecked, so a single message
could panic the process or exhaust its memory.
---
 peers/protocol.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/peers/protocol.go b/peers/protocol.go
index f51b2b7..d591096 100644
--- a/peers/protocol.go
+++ b/peers/protocol.go
@@ -164,6 +164,10 @@ func (c *protocolClient) messageHandler(m *rawMessage) error {
 	}
 }
 
+// maxMessageSize limits the announced payload length of a message. HAProxy's
+// messages have to fit into its buffers (tune.bufsize).
+const maxMessageSize = 16 << 20
+
 type byteReader interface {
 	io.ByteReader
 	io.Reader
@@ -195,6 +199,10 @@ func (m *rawMessage) ReadFrom(r byteReader) (int64, error) {
 			return int64(n), fmt.Errorf("failed decoding data length: %v", err)
 		}
 
+		if dataLength > maxMessageSize {
+			return int64(n), fmt.Errorf("message length %d exceeds maximum %d", dataLength, maxMessageSize)
+		}
+
 		m.Data = make([]byte, dataLength)
 		readData, err = io.ReadFull(r, m.Data)
 		if err != nil {
-- 
2.43.0


From ecdb32e96144ca26f76b93e231bdabf3e2378b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:42 +0000
Subject: [PATCH 10/17] fix: do not swallow messages sent right behind the
 peers handshake

Handshake.ReadFrom wrapped the session's reader into a bufio.Scanner, which
reads ahead and drops everything after the third line. Read line by line from
the session's own buffer instead.
---
 peers/messages.go | 42 ++++++++++++++++++++++++++++++------------
 1 file changed, 30 insertions(+), 12 deletions(-)

diff --git a/peers/messages.go b/peers/messages.go
index 228e47e..169fd9c 100644
--- a/peers/messages.go
+++ b/peers/messages.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io"
 	"os"
+	"strings"
 )
 
 // Handshake is composed by these fields:
@@ -42,25 +43,42 @@ func NewHandshake(remotePeer string) *Handshake {
 }
 
 func (h *Handshake) ReadFrom(r io.Reader) (n int64, err error) {
-	scanner := bufio.NewScanner(r)
+	// Messages may follow right behind the handshake, so a buffer that is
+	// already in use has to keep what was read ahead.
+	br, ok := r.(*bufio.Reader)
+	if !ok {
+		br = bufio.NewReader(r)
+	}
 
-	scanner.Scan()
-	_, err = fmt.Sscanf(scanner.Text(), "%s %s", &h.ProtocolIdentifier, &h.Version)
-	if err != nil {
-		return -1, err
+	readLine := func() (string, error) {
+		line, err := br.ReadSlice('\n')
+		n += int64(len(line))
+		if err != nil {
+			return "", err
+		}
+		return strings.TrimSuffix(string(line[:len(line)-1]), "\r"), nil
 	}
 
-	scanner.Scan()
-	h.RemotePeer = scanner.Text()
+	line, err := readLine()
+	if err != nil {
+		return n, err
+	}
+	_, err = fmt.Sscanf(line, "%s %s", &h.ProtocolIdentifier, &h.Version)
+	if err != nil {
+		return n, err
+	}
 
-	scanner.Scan()
-	_, err = fmt.Sscanf(scanner.Text(), "%s %d %d", &h.LocalPeerIdentifier, &h.ProcessID, &h.RelativeProcessID)
+	h.RemotePeer, err = readLine()
 	if err != nil {
-		return -1, err
+		return n, err
 	}
 
-	//TODO: find out how many bytes where read.
-	return -1, scanner.Err()
+	line, err = readLine()
+	if err != nil {
+		return n, err
+	}
+	_, err = fmt.Sscanf(line, "%s %d %d", &h.LocalPeerIdentifier, &h.ProcessID, &h.RelativeProcessID)
+	return n, err
 }
 
 func (h *Handshake) WriteTo(w io.Writer) (nw int64, err error) {
-- 
2.43.0


From 24e054194abf4fcf7ec673224311e45934047ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:42 +0000
Subject: [PATCH 11/17] fix: return nil for unknown stick-table key types

EntryUpdate.Unmarshal reports an unknown key type as an error, but
KeyType.New panicked before it could, taking the whole process down for a
table with, for example, a boolean key.
---
 peers/sticktable/constants.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peers/sticktable/constants.go b/peers/sticktable/constants.go
index d41c3ac..71f2da9 100644
--- a/peers/sticktable/constants.go
+++ b/peers/sticktable/constants.go
@@ -33,7 +33,7 @@ func (t KeyType) New() MapKey {
 	case KeyTypeBinary:
 		return new(BinaryKey)
 	default:
-		panic("unknown key type: " + t.String())
+		return nil
 	}
 }
 
-- 
2.43.0


From 9726e8f2666fbb59f9fec7ce7d1eac8afdf86754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:42 +0000
Subject: [PATCH 12/17] fix: treat glitch_rate as a rate in stick-table
 definitions

Like all frequency counters it carries its period in the table definition.
Missing it shifted everything decoded after it.
---
 peers/sticktable/constants.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/peers/sticktable/constants.go b/peers/sticktable/constants.go
index 71f2da9..cc5ff3b 100644
--- a/peers/sticktable/constants.go
+++ b/peers/sticktable/constants.go
@@ -110,7 +110,8 @@ func (d DataType) IsDelay() bool {
 		DataTypeBytesInRate,
 		DataTypeBytesOutRate,
 		DataTypeGPC1Rate,
-		DataTypeHttpFailRate:
+		DataTypeHttpFailRate,
+		DataTypeGlitchRate:
 		return true
 	default:
 		return false
-- 
2.43.0


From 69a6f79d553d402f166416e1eaef3e730aa58496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:27 +0000
Subject: [PATCH 13/17] fix: reject truncated stick-table messages instead of
 panicking

Lengths and fixed-size values reaching beyond the end of the message made the
decoders panic, allocate what the message claimed, or silently return short
values. A peers session has no recover, so this took the process down.
---
 peers/sticktable/sticktables.go |  9 +++++++++
 peers/sticktable/values.go      | 18 ++++++++++++++++++
 2 files changed, 27 insertions(+)

diff --git a/peers/sticktable/sticktables.go b/peers/sticktable/sticktables.go
index 134d0b1..ee4a130 100644
--- a/peers/sticktable/sticktables.go
+++ b/peers/sticktable/sticktables.go
@@ -38,6 +38,9 @@ func (s *Definition) Unmarshal(b []byte) (int, error) {
 		return offset, err
 	}
 
+	if nameLength > uint64(len(b)-offset) {
+		return offset, encoding.ErrUnterminatedSequence
+	}
 	name := make([]byte, nameLength)
 	offset += copy(name, b[offset:])
 	s.Name = string(name)
@@ -224,11 +227,17 @@ func (e *EntryUpdate) Unmarshal(b []byte) (int, error) {
 	// We already have a correct update ID loaded from the caller,
 	// so we just override it when the message has its own
 	if e.WithLocalUpdateID {
+		if len(b)-offset < 4 {
+			return offset, encoding.ErrUnterminatedSequence
+		}
 		e.LocalUpdateID = binary.BigEndian.Uint32(b[offset:])
 		offset += 4
 	}
 
 	if e.WithExpiry {
+		if len(b)-offset < 4 {
+			return offset, encoding.ErrUnterminatedSequence
+		}
 		e.Expiry = binary.BigEndian.Uint32(b[offset:])
 		offset += 4
 	}
diff --git a/peers/sticktable/values.go b/peers/sticktable/values.go
index 97fdc92..e2ba452 100644
--- a/peers/sticktable/values.go
+++ b/peers/sticktable/values.go
@@ -17,6 +17,9 @@ type MapKey interface {
 type SignedIntegerKey int32
 
 func (v *SignedIntegerKey) Unmarshal(b []byte, keySize uint64) (int, error) {
+	if len(b) < 4 {
+		return 0, encoding.ErrUnterminatedSequence
+	}
 	*v = SignedIntegerKey(binary.BigEndian.Uint32(b))
 	return 4, nil
 }
@@ -32,6 +35,9 @@ func (v *IPv4AddressKey) Unmarshal(b []byte, keySize uint64) (int, error) {
 		return 0, fmt.Errorf("invalid ipv4 key size: %d", keySize)
 	}
 
+	if len(b) < 4 {
+		return 0, encoding.ErrUnterminatedSequence
+	}
 	*v = IPv4AddressKey(netip.AddrFrom4([4]byte(b)))
 	return 4, nil
 }
@@ -47,6 +53,9 @@ func (v *IPv6AddressKey) Unmarshal(b []byte, keySize uint64) (int, error) {
 		return 0, fmt.Errorf("invalid ipv6 key size: %d", keySize)
 	}
 
+	if len(b) < 16 {
+		return 0, encoding.ErrUnterminatedSequence
+	}
 	*v = IPv6AddressKey(netip.AddrFrom16([16]byte(b)))
 
 	return 16, nil
@@ -66,6 +75,9 @@ func (v *StringKey) Unmarshal(b []byte, keySize uint64) (int, error) {
 	if valueLength == 0 {
 		return n, nil
 	}
+	if valueLength > uint64(len(b)-n) {
+		return n, encoding.ErrUnterminatedSequence
+	}
 	*v = StringKey(b[n : n+int(valueLength)])
 	return n + int(valueLength), nil
 }
@@ -77,6 +89,9 @@ func (v *StringKey) String() string {
 type BinaryKey []byte
 
 func (v *BinaryKey) Unmarshal(b []byte, keySize uint64) (int, error) {
+	if keySize > uint64(len(b)) {
+		return 0, encoding.ErrUnterminatedSequence
+	}
 	*v = b[:keySize]
 	return int(keySize), nil
 }
@@ -225,6 +240,9 @@ func (f *DictData) Unmarshal(b []byte) (int, error) {
 		return offset, nil
 	}
 
+	if valueLength > uint64(len(b)-offset) {
+		return offset, encoding.ErrUnterminatedSequence
+	}
 	value := make([]byte, valueLength)
 	offset += copy(value, b[offset:])
 	f.Value = value
-- 
2.43.0


From 0dbd39a88157077bee257fafcc6ae79ecb3ec7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:28 +0000
Subject: [PATCH 14/17] fix: report short buffers and unfitting keys when
 encoding stick-table data

Encoding into a buffer without enough room panicked or silently produced a
shortened encoding, as did binary keys of another length than the table's.
---
 peers/sticktable/sticktables.go |  9 +++++++++
 peers/sticktable/values.go      | 35 ++++++++++++++++++++++++++++++---
 2 files changed, 41 insertions(+), 3 deletions(-)

diff --git a/peers/sticktable/sticktables.go b/peers/sticktable/sticktables.go
index ee4a130..ee88b1d 100644
--- a/peers/sticktable/sticktables.go
+++ b/peers/sticktable/sticktables.go
@@ -122,6 +122,9 @@ func (s *Definition) Marshal(b []byte) (int, error) {
 		return offset, err
 	}
 
+	if len(s.Name) > len(b)-offset {
+		return offset, encoding.ErrInsufficientSpace
+	}
 	offset += copy(b[offset:], s.Name)
 
 	n, err = encoding.PutVarint(b[offset:], uint64(s.KeyType))
@@ -196,11 +199,17 @@ func (e *EntryUpdate) String() string {
 func (e *EntryUpdate) Marshal(b []byte) (int, error) {
 	var offset int
 	if e.WithLocalUpdateID {
+		if len(b)-offset < 4 {
+			return offset, encoding.ErrInsufficientSpace
+		}
 		binary.BigEndian.PutUint32(b[offset:], e.LocalUpdateID)
 		offset += 4
 	}
 
 	if e.WithExpiry {
+		if len(b)-offset < 4 {
+			return offset, encoding.ErrInsufficientSpace
+		}
 		binary.BigEndian.PutUint32(b[offset:], e.Expiry)
 		offset += 4
 	}
diff --git a/peers/sticktable/values.go b/peers/sticktable/values.go
index e2ba452..b7c44e7 100644
--- a/peers/sticktable/values.go
+++ b/peers/sticktable/values.go
@@ -251,6 +251,9 @@ func (f *DictData) Unmarshal(b []byte) (int, error) {
 }
 
 func (v *SignedIntegerKey) Marshal(b []byte, keySize uint64) (int, error) {
+	if len(b) < 4 {
+		return 0, encoding.ErrInsufficientSpace
+	}
 	binary.BigEndian.PutUint32(b, uint32(*v))
 	return 4, nil
 }
@@ -259,7 +262,14 @@ func (v *IPv4AddressKey) Marshal(b []byte, keySize uint64) (int, error) {
 	if keySize != 4 {
 		return 0, fmt.Errorf("invalid ipv4 key size: %d", keySize)
 	}
-	a := (*netip.Addr)(v).As4()
+	addr := (*netip.Addr)(v)
+	if !addr.Is4() && !addr.Is4In6() {
+		return 0, fmt.Errorf("invalid ipv4 key: %s", addr)
+	}
+	if len(b) < 4 {
+		return 0, encoding.ErrInsufficientSpace
+	}
+	a := addr.As4()
 	copy(b, a[:])
 	return 4, nil
 }
@@ -268,7 +278,14 @@ func (v *IPv6AddressKey) Marshal(b []byte, keySize uint64) (int, error) {
 	if keySize != 16 {
 		return 0, fmt.Errorf("invalid ipv6 key size: %d", keySize)
 	}
-	a := (*netip.Addr)(v).As16()
+	addr := (*netip.Addr)(v)
+	if !addr.IsValid() {
+		return 0, fmt.Errorf("invalid ipv6 key: %s", addr)
+	}
+	if len(b) < 16 {
+		return 0, encoding.ErrInsufficientSpace
+	}
+	a := addr.As16()
 	copy(b, a[:])
 	return 16, nil
 }
@@ -279,11 +296,20 @@ func (v *StringKey) Marshal(b []byte, keySize uint64) (int, error) {
 		return n, err
 	}
 
+	if len(*v) > len(b)-n {
+		return n, encoding.ErrInsufficientSpace
+	}
 	return n + copy(b[n:], *v), nil
 }
 
 func (v *BinaryKey) Marshal(b []byte, keySize uint64) (int, error) {
-	return copy(b[:keySize], *v), nil
+	if keySize != uint64(len(*v)) {
+		return 0, fmt.Errorf("invalid binary key size: %d", keySize)
+	}
+	if len(*v) > len(b) {
+		return 0, encoding.ErrInsufficientSpace
+	}
+	return copy(b, *v), nil
 }
 
 func (f *FreqData) Marshal(b []byte) (int, error) {
@@ -344,6 +370,9 @@ func (f *DictData) Marshal(b []byte) (int, error) {
 			return offset, err
 		}
 
+		if len(f.Value) > len(b)-offset {
+			return offset, encoding.ErrInsufficientSpace
+		}
 		copy(b[offset:], f.Value)
 		offset += len(f.Value)
 	}
-- 
2.43.0


From f7d48217168aa658910109c52cf9115dd23ffcc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:52 +0000
Subject: [PATCH 15/17] fix: encode and decode the length of dictionary entries
 like HAProxy

The length in front of a dictionary entry covers the ID and the optional
length-prefixed value. It was written as the length of the value alone and
only looked at for the values 0 and 1, so entries with a multi-byte ID and
entries without value consumed or produced the wrong bytes, corrupting every
value after them.
---
 peers/sticktable/values.go | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/peers/sticktable/values.go b/peers/sticktable/values.go
index b7c44e7..433db48 100644
--- a/peers/sticktable/values.go
+++ b/peers/sticktable/values.go
@@ -219,6 +219,13 @@ func (f *DictData) Unmarshal(b []byte) (int, error) {
 		return offset, nil
 	}
 
+	// The length covers the ID and, unless the remote peer already knows the
+	// entry, the length-prefixed value.
+	if length > uint64(len(b)-offset) {
+		return offset, encoding.ErrUnterminatedSequence
+	}
+	b = b[:offset+int(length)]
+
 	id, n, err := encoding.Varint(b[offset:])
 	offset += n
 	if err != nil {
@@ -226,7 +233,7 @@ func (f *DictData) Unmarshal(b []byte) (int, error) {
 	}
 	f.ID = id
 
-	if length == 1 {
+	if offset == len(b) {
 		return offset, nil
 	}
 
@@ -237,17 +244,17 @@ func (f *DictData) Unmarshal(b []byte) (int, error) {
 	}
 
 	if valueLength == 0 {
-		return offset, nil
+		return len(b), nil
 	}
 
 	if valueLength > uint64(len(b)-offset) {
 		return offset, encoding.ErrUnterminatedSequence
 	}
 	value := make([]byte, valueLength)
-	offset += copy(value, b[offset:])
+	copy(value, b[offset:])
 	f.Value = value
 
-	return offset, nil
+	return len(b), nil
 }
 
 func (v *SignedIntegerKey) Marshal(b []byte, keySize uint64) (int, error) {
@@ -351,9 +358,18 @@ func (v *UnsignedLongLongData) Marshal(b []byte) (int, error) {
 func (f *DictData) Marshal(b []byte) (int, error) {
 	var offset int
 
-	n, err := encoding.PutVarint(b[offset:], uint64(len(f.Value)))
+	// The length covers everything that follows it, no entry is just a zero.
+	var length uint64
+	if f.ID != 0 || len(f.Value) > 0 {
+		length += varintLen(f.ID)
+	}
+	if len(f.Value) > 0 {
+		length += varintLen(uint64(len(f.Value))) + uint64(len(f.Value))
+	}
+
+	n, err := encoding.PutVarint(b[offset:], length)
 	offset += n
-	if err != nil {
+	if err != nil || length == 0 {
 		return offset, err
 	}
 
@@ -379,3 +395,10 @@ func (f *DictData) Marshal(b []byte) (int, error) {
 
 	return offset, nil
 }
+
+// varintLen returns the encoded length of v.
+func varintLen(v uint64) uint64 {
+	var b [10]byte
+	n, _ := encoding.PutVarint(b[:], v)
+	return uint64(n)
+}
-- 
2.43.0


From db057f97d3f2fd136e6b4dd293fbe598816910b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:52 +0000
Subject: [PATCH 16/17] fix: report a malformed entry in a HAPROXY-DISCONNECT
 frame

---
 spop/protocol.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spop/protocol.go b/spop/protocol.go
index 71aa473..82ed565 100644
--- a/spop/protocol.go
+++ b/spop/protocol.go
@@ -224,6 +224,9 @@ func (c *protocolClient) onHAProxyDisconnect(f *frame) error {
 			return fmt.Errorf("unexpected kv entry in disconnect frame: %q", k.NameBytes())
 		}
 	}
+	if err := s.Error(); err != nil {
+		return err
+	}
 
 	var err error
 	switch code {
-- 
2.43.0


From f045e5198c5eada15ec5155404269be3205f877b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:05 +0000
Subject: [PATCH 17/17] fix: do not panic on an absent key of an unexported
 pointer field

---
 pkg/encoding/kvunmarshal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/encoding/kvunmarshal.go b/pkg/encoding/kvunmarshal.go
index 3b289bc..df435c4 100644
--- a/pkg/encoding/kvunmarshal.go
+++ b/pkg/encoding/kvunmarshal.go
@@ -125,7 +125,7 @@ func (k *KVScanner) Unmarshal(v any) error {
 	// Set pointer fields to nil if they weren't set (important for pooled structs)
 	// Only iterate through known pointer fields instead of all fields
 	for _, idx := range pointerFieldIndices {
-		if !setPointerFields[idx] {
+		if !setPointerFields[idx] && rv.Field(idx).CanSet() {
 			rv.Field(idx).Set(reflect.Zero(rt.Field(idx).Type))
 		}
 	}
-- 
2.43.0

