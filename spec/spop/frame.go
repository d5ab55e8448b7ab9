package spop

import (
	"io"

	"github.com/dropmorepackets/haproxy-go/pkg/buffer"
	"github.com/dropmorepackets/haproxy-go/pkg/encoding"
)

// ---- frames

// okFrame: the frame's parts exist and do not overlap.
func okFrame(f *frame) bool {
	return f.buf != nil && buffer.SpOK(f.buf) && len(f.length) == 4 && vDisjoint(f.length, buffer.SpBuf(f.buf))
}

// A frame in the pool is as good as new.
//
//@ poolinv framePool
func invFramePool(f *frame) bool {
	return okFrame(f) && buffer.SpR(f.buf) == 0 && buffer.SpW(f.buf) == 0 && len(buffer.SpBuf(f.buf)) >= maxFrameSize &&
		f.frameType == 0 && f.meta.Flags == 0 && f.meta.StreamID == 0 && f.meta.FrameID == 0
}

//@ ensures acquireFrame prop=C12 fresh=yes inline=yes
func ensAcquireFrame(f *frame) bool { return f != nil && invFramePool(f) }

//@ requires releaseFrame
func reqReleaseFrame(f *frame) bool {
	return f != nil && okFrame(f) && len(buffer.SpBuf(f.buf)) >= maxFrameSize && vGhost("released", f) == 0
}

//@ modifies releaseFrame prop=C12 inline=yes
func modReleaseFrame(f *frame) {
	vMod(f)
	buffer.SpMod(f.buf)
	vModGhost("released", f)
}

// ---- reading

func spBE(r any, p int) uint32 {
	return uint32(vInAt(r, p))<<24 | uint32(vInAt(r, p+1))<<16 | uint32(vInAt(r, p+2))<<8 | uint32(vInAt(r, p+3))
}

//@ requires (*frame).readFrom
func reqReadFrom(f *frame, r io.Reader, limit uint32) bool { return okFrame(f) && r != nil }

//@ modifies (*frame).readFrom
func modReadFrom(f *frame, r io.Reader, limit uint32) {
	vModBytes(f.length)
	vMod(&f.frameType)
	vMod(&f.meta)
	buffer.SpMod(f.buf)
	vModBytes(buffer.SpBuf(f.buf))
	vModIn(r)
}

// spDecoded: f holds what the header at the start of b says; err says whether
// there is a complete one.
func spDecoded(f *frame, b []byte, r0 int, err error) bool {
	if len(b) < 5 {
		return err != nil
	}
	v1, n1, e1 := encoding.Varint(b[5:])
	if e1 != nil {
		return err != nil
	}
	v2, n2, e2 := encoding.Varint(b[5+n1:])
	if e2 != nil {
		return err != nil
	}
	return err == nil && byte(f.frameType) == b[0] && uint32(f.meta.Flags) == uint32(b[1])<<24|uint32(b[2])<<16|uint32(b[3])<<8|uint32(b[4]) &&
		f.meta.StreamID == v1 && f.meta.FrameID == v2 && buffer.SpR(f.buf) == r0+5+n1+n2
}

//@ requires (*frame).decodeHeader
func reqDecodeHeader(f *frame) bool { return okFrame(f) }

//@ modifies (*frame).decodeHeader
func modDecodeHeader(f *frame) {
	vMod(&f.frameType)
	vMod(&f.meta)
	buffer.SpMod(f.buf)
}

//@ ensures (*frame).decodeHeader prop=C06
func ensDecodeHeader(f *frame, err error) bool {
	r0 := vOld(func() int { return buffer.SpR(f.buf) })
	w := vOld(func() int { return buffer.SpW(f.buf) })
	return okFrame(f) && vSame(buffer.SpBuf(f.buf), vOld(func() []byte { return buffer.SpBuf(f.buf) })) && buffer.SpW(f.buf) == w &&
		spDecoded(f, buffer.SpBuf(f.buf)[r0:w], r0, err)
}

//@ ensures (*frame).readFrom prop=C06
func ensReadFrom(f *frame, r io.Reader, limit uint32, n int64, err error) bool {
	p := vOld(func() int { return vInPos(r) })
	have := vInLen(r) - p
	if !okFrame(f) || len(buffer.SpBuf(f.buf)) < vOld(func() int { return len(buffer.SpBuf(f.buf)) }) {
		return false
	}
	if have < 4 {
		return err != nil && vInPos(r) == vInLen(r)
	}
	l := spBE(r, p)
	if l > limit {
		// refused before anything of the payload is read or stored
		return err != nil && vInPos(r) == p+4 && vSame(buffer.SpBuf(f.buf), vOld(func() []byte { return buffer.SpBuf(f.buf) })) &&
			buffer.SpR(f.buf) == vOld(func() int { return buffer.SpR(f.buf) }) && buffer.SpW(f.buf) == vOld(func() int { return buffer.SpW(f.buf) })
	}
	if have-4 < int(l) {
		return err != nil && vInPos(r) == vInLen(r)
	}
	// the frame holds exactly the bytes that were sent, and what their header says
	b := buffer.SpBuf(f.buf)
	return vInPos(r) == p+4+int(l) && n == int64(l)+4 && len(b) >= int(l) && buffer.SpW(f.buf) == int(l) &&
		vForall(0, int(l), func(i int) bool { return b[i] == vInAt(r, p+4+i) }) && spDecoded(f, b[:int(l)], 0, err)
}

// A complete frame with a well-formed header is accepted and decoded exactly.
//
//@ lemma C06 concrete=no
func lemmaReadFrame(f *frame, c *vConn, limit uint32, n1, n2, i int) {
	vAssume(f != nil && c != nil && okFrame(f))
	p := vInPos(c)
	l := int(spBE(c, p))
	vAssume(vInLen(c)-p >= 4+l && l <= int(limit))
	n, err := f.readFrom(c, limit)
	b := buffer.SpBuf(f.buf)[:l]
	vAssume(n1 >= 1 && n2 >= 1 && n1 <= l && n2 <= l && 5+n1+n2 <= l && encoding.SpForm(b[5:], n1) && encoding.SpForm(b[5+n1:], n2))
	v1, m1, e1 := encoding.Varint(b[5:])
	encoding.GForm(b[5:], n1, v1, m1, e1)
	v2, m2, e2 := encoding.Varint(b[5+n1:])
	encoding.GForm(b[5+n1:], n2, v2, m2, e2)
	vAssert("a well-formed frame is accepted", err == nil)
	vAssert("exactly the frame is consumed", n == int64(4+l) && vInPos(c) == p+4+l)
	vAssert("the type is the frame's", byte(f.frameType) == vInAt(c, p+4))
	vAssert("the flags are the frame's", uint32(f.meta.Flags) == spBE(c, p+5))
	vAssert("the stream id is the frame's", f.meta.StreamID == encoding.SpVal(b[5:], n1))
	vAssert("the frame id is the frame's", f.meta.FrameID == encoding.SpVal(b[5+n1:], n2))
	got := f.buf.ReadBytes()
	vAssert("the payload is what follows the header", len(got) == l-5-n1-n2)
	vAssume(i >= 0 && i < len(got))
	vAssert("the payload is delivered unaltered", got[i] == vInAt(c, p+9+n1+n2+i))
}

// A frame whose header is incomplete is an error.
//
//@ lemma C06 concrete=no
func lemmaReadFrameShort(f *frame, c *vConn, limit uint32, n1 int) {
	vAssume(f != nil && c != nil && okFrame(f))
	p := vInPos(c)
	l := int(spBE(c, p))
	vAssume(vInLen(c)-p >= 4+l && l <= int(limit))
	_, err := f.readFrom(c, limit)
	if l >= 5 {
		b := buffer.SpBuf(f.buf)[:l]
		v1, m1, e1 := encoding.Varint(b[5:])
		if !encoding.SpOpen(b[5:]) {
			vAssume(n1 >= 1 && n1 <= l-5 && encoding.SpForm(b[5:], n1) && encoding.SpOpen(b[5+n1:]))
			encoding.GForm(b[5:], n1, v1, m1, e1)
			v2, m2, e2 := encoding.Varint(b[5+n1:])
			encoding.GOpen(b[5+n1:], v2, m2, e2)
		} else {
			encoding.GOpen(b[5:], v1, m1, e1)
		}
	}
	vAssert("an incomplete header is an error", err != nil)
}

// ---- writing

//@ requires (*frame).encodeHeader
func reqEncodeHeader(f *frame) bool {
	return okFrame(f) && len(buffer.SpBuf(f.buf))-buffer.SpW(f.buf) >= 25
}

//@ modifies (*frame).encodeHeader
func modEncodeHeader(f *frame) {
	buffer.SpMod(f.buf)
	vModBytes(buffer.SpBuf(f.buf)[buffer.SpW(f.buf):])
}

// spHeader: b starts with the header of n bytes.
func spHeader(b []byte, t byte, flags uint32, sid, fid uint64, n int) bool {
	n1 := encoding.SpLen(sid)
	return n == 5+n1+encoding.SpLen(fid) && n <= len(b) && b[0] == t && b[1] == byte(flags>>24) && b[2] == byte(flags>>16) && b[3] == byte(flags>>8) && b[4] == byte(flags) &&
		encoding.SpIsEnc(b[5:], sid, n1) && encoding.SpIsEnc(b[5+n1:], fid, n-5-n1)
}

//@ ensures (*frame).encodeHeader prop=C07
func ensEncodeHeader(f *frame, err error) bool {
	w := vOld(func() int { return buffer.SpW(f.buf) })
	n := buffer.SpW(f.buf) - w
	return err == nil && okFrame(f) && vSame(buffer.SpBuf(f.buf), vOld(func() []byte { return buffer.SpBuf(f.buf) })) &&
		buffer.SpR(f.buf) == vOld(func() int { return buffer.SpR(f.buf) }) && n <= 25 &&
		spHeader(buffer.SpBuf(f.buf)[w:], byte(f.frameType), uint32(f.meta.Flags), f.meta.StreamID, f.meta.FrameID, n)
}

//@ requires (*frame).writeTo
func reqWriteTo(f *frame, w io.Writer, payload []byte) bool { return okFrame(f) && w != nil && vDisjoint(f.length, payload) }

//@ modifies (*frame).writeTo
func modWriteTo(f *frame, w io.Writer, payload []byte) {
	vModBytes(f.length)
	vModOut(w)
}

// spOutBE: the four bytes at p are v.
func spOutBE(w any, p int, v uint32) bool {
	return vOutAt(w, p) == byte(v>>24) && vOutAt(w, p+1) == byte(v>>16) && vOutAt(w, p+2) == byte(v>>8) && vOutAt(w, p+3) == byte(v)
}

// spOutIs: the bytes at p are b.
func spOutIs(w any, p int, b []byte) bool {
	return vForall(0, len(b), func(i int) bool { return vOutAt(w, p+i) == b[i] })
}

//@ ensures (*frame).writeTo prop=C07
func ensWriteTo(f *frame, w io.Writer, payload []byte, n int64, err error) bool {
	o := vOld(func() int { return vOutLen(w) })
	calls := vOutCalls(w) - vOld(func() int { return vOutCalls(w) })
	l := buffer.SpW(f.buf) - buffer.SpR(f.buf)
	if l+len(payload) > 1<<32-1 {
		return err != nil && calls == 0 && vOutLen(w) == o
	}
	if err != nil {
		return calls == 1 && vOutLen(w) >= o && vOutLen(w) <= o+4+l+len(payload)
	}
	b := buffer.SpBuf(f.buf)[buffer.SpR(f.buf):buffer.SpW(f.buf)]
	return calls == 1 && vOutLen(w) == o+4+l+len(payload) && spOutBE(w, o, uint32(l+len(payload))) && spOutIs(w, o+4, b) && spOutIs(w, o+4+l, payload)
}
