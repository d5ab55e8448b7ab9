package peers

import (
	"io"

	"github.com/dropmorepackets/haproxy-go/pkg/encoding"
)

// ---- reading messages

//@ requires (*rawMessage).ReadFrom
func reqReadMessage(m *rawMessage, r byteReader) bool { return r != nil }

//@ modifies (*rawMessage).ReadFrom
func modReadMessage(m *rawMessage, r byteReader) {
	vMod(m)
	vModIn(r)
}

//@ grows (*rawMessage).ReadFrom
func grwReadMessage(m *rawMessage, r byteReader) *[]byte { return &m.Data }

// What is accepted is exactly one message, which m holds.
//
//@ ensures (*rawMessage).ReadFrom prop=C16 alloc=1073741824
func ensReadMessage(m *rawMessage, r byteReader, n int64, err error) bool {
	p := vOld(func() int { return vInPos(r) })
	q := vInPos(r)
	if err != nil {
		return q >= p && q <= vInLen(r)
	}
	if q < p+2 || byte(m.MessageClass) != vInAt(r, p) || m.MessageType != vInAt(r, p+1) {
		return false
	}
	if m.MessageType < 128 {
		return q == p+2 && vSame(m.Data, vOld(func() []byte { return m.Data }))
	}
	k := q - p - 2 - len(m.Data)
	return encoding.SpFormR(r, p+2, k) && encoding.SpValR(r, p+2, k) == uint64(len(m.Data)) &&
		vForall(0, len(m.Data), func(i int) bool { return m.Data[i] == vInAt(r, p+2+k+i) })
}

func xMessage(c *vConn) (m *rawMessage, p int, err error) {
	vAssume(c != nil)
	p = vInPos(c)
	vAssume(p >= 0 && p <= vInLen(c))
	m = new(rawMessage)
	_, err = m.ReadFrom(c)
	return m, p, err
}

// A message without payload consumes its header.
//
//@ lemma C16 inline=(*rawMessage).ReadFrom
func lemmaShortMessage(c *vConn) {
	m, p, err := xMessage(c)
	if vInLen(c)-p < 2 {
		vAssert("a stream that ends in the header gives an error", err != nil)
		return
	}
	if vInAt(c, p+1) >= 128 {
		return
	}
	vAssert("a message without payload is accepted", err == nil)
	vAssert("it has the class and type that were sent", byte(m.MessageClass) == vInAt(c, p) && m.MessageType == vInAt(c, p+1))
	vAssert("it has no payload", len(m.Data) == 0)
	vAssert("nothing behind the header is consumed", vInPos(c) == p+2)
}

// A payload whose length takes k bytes.
//
//@ lemma C16 inline=(*rawMessage).ReadFrom
func lemmaPayloadMessage(c *vConn, k int) {
	p0 := vInPos(c)
	vAssume(p0 >= 0 && vInLen(c)-p0 >= 2 && vInAt(c, p0+1) >= 128 && k >= 1 && k <= 10 && encoding.SpFormR(c, p0+2, k))
	m, p, err := xMessage(c)
	l := encoding.SpValR(c, p+2, k)
	have := vInLen(c) - p - 2 - k
	if l > 1<<30 {
		vAssert("a length above the limit is refused", err != nil)
		vAssert("nothing of the payload is read then", vInPos(c) == p+2+k)
		vAssert("no payload is delivered then", len(m.Data) == 0)
		return
	}
	if l > uint64(have) {
		vAssert("a stream that ends in the payload gives an error", err != nil)
		return
	}
	vAssert("a complete message is accepted", err == nil || l > 1<<16)
	if err != nil {
		return
	}
	vAssert("exactly the message is consumed", vInPos(c) == p+2+k+int(l))
	vAssert("it has the class and type that were sent", byte(m.MessageClass) == vInAt(c, p) && m.MessageType == vInAt(c, p+1))
	vAssert("the payload is complete", uint64(len(m.Data)) == l)
	vAssert("the payload is unaltered", vForall(0, len(m.Data), func(i int) bool { return m.Data[i] == vInAt(c, p+2+k+i) }))
}

// A length that never ends.
//
//@ lemma C16 inline=(*rawMessage).ReadFrom
func lemmaOpenMessage(c *vConn) {
	p0 := vInPos(c)
	vAssume(p0 >= 0 && vInLen(c)-p0 >= 2 && vInAt(c, p0+1) >= 128 && encoding.SpOpenR(c, p0+2, vInLen(c)-p0-2))
	_, _, err := xMessage(c)
	vAssert("a stream that ends in the length gives an error", err != nil)
}

var _ io.Reader = (*vConn)(nil)
