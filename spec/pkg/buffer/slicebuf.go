package buffer

// okBuf: the windows are well-formed.
func okBuf(s *SliceBuffer) bool {
	return s.readOffset >= 0 && s.readOffset <= s.writeOffset && s.writeOffset <= len(s.buf)
}

// spKept: the buffer and its positions are those from before the call.
func spKept(s *SliceBuffer, dr, dw int) bool {
	b := vOld(func() []byte { return s.buf })
	return vSame(s.buf, b) && s.readOffset == vOld(func() int { return s.readOffset })+dr && s.writeOffset == vOld(func() int { return s.writeOffset })+dw && okBuf(s)
}

//@ ensures NewSliceBuffer prop=C21
func ensNewSliceBuffer(size int, s *SliceBuffer) bool {
	return vFresh(s) && vFresh(s.buf) && okBuf(s) && len(s.buf) == size && s.readOffset == 0 && s.writeOffset == 0
}

//@ requires NewSliceBuffer
func reqNewSliceBuffer(size int) bool { return size >= 0 && size < 1<<40 }

//@ ensures NewSliceBufferWithSlice prop=C21
func ensNewSliceBufferWithSlice(b []byte, s *SliceBuffer) bool {
	return vFresh(s) && okBuf(s) && vSame(s.buf, b) && s.readOffset == 0 && s.writeOffset == len(b)
}

//@ modifies (*SliceBuffer).Reset
func modReset(s *SliceBuffer) {
	vMod(&s.readOffset)
	vMod(&s.writeOffset)
}

//@ ensures (*SliceBuffer).Reset prop=C21 inline=yes
func ensReset(s *SliceBuffer) bool {
	return s.readOffset == 0 && s.writeOffset == 0 && s.Len() == 0
}

//@ requires (*SliceBuffer).ReadBytes
func reqReadBytes(s *SliceBuffer) bool { return okBuf(s) }

//@ ensures (*SliceBuffer).ReadBytes prop=C21 inline=yes
func ensReadBytes(s *SliceBuffer, b []byte) bool {
	return vIs(b, s.buf, s.readOffset, s.writeOffset)
}

//@ requires (*SliceBuffer).WriteBytes
func reqWriteBytes(s *SliceBuffer) bool { return okBuf(s) }

//@ ensures (*SliceBuffer).WriteBytes prop=C21 inline=yes
func ensWriteBytes(s *SliceBuffer, b []byte) bool {
	return vIs(b, s.buf, s.writeOffset, len(s.buf)) && cap(b) == cap(s.buf)-s.writeOffset
}

//@ requires (*SliceBuffer).Grow
func reqGrow(s *SliceBuffer, n int) bool { return okBuf(s) && n >= 0 && n < 1<<40 && s.writeOffset < 1<<40 }

//@ modifies (*SliceBuffer).Grow
func modGrow(s *SliceBuffer, n int) { vMod(&s.buf) }

//@ ensures (*SliceBuffer).Grow prop=C21 inline=yes
func ensGrow(s *SliceBuffer, n int) bool {
	old := vOld(func() []byte { return s.buf })
	if n <= len(old)-s.writeOffset {
		return spKept(s, 0, 0)
	}
	return okBuf(s) && vFresh(s.buf) && len(s.buf)-s.writeOffset >= n &&
		vForall(0, s.writeOffset, func(i int) bool { return s.buf[i] == old[i] })
}

//@ requires (*SliceBuffer).AdvanceR
func reqAdvanceR(s *SliceBuffer, n int) bool {
	return okBuf(s) && n >= 0 && n <= s.writeOffset-s.readOffset
}

//@ modifies (*SliceBuffer).AdvanceR
func modAdvanceR(s *SliceBuffer, n int) { vMod(&s.readOffset) }

//@ ensures (*SliceBuffer).AdvanceR prop=C21 inline=yes
func ensAdvanceR(s *SliceBuffer, n int) bool { return spKept(s, n, 0) }

//@ requires (*SliceBuffer).AdvanceW
func reqAdvanceW(s *SliceBuffer, n int) bool {
	return okBuf(s) && n >= 0 && n <= len(s.buf)-s.writeOffset
}

//@ modifies (*SliceBuffer).AdvanceW
func modAdvanceW(s *SliceBuffer, n int) { vMod(&s.writeOffset) }

//@ ensures (*SliceBuffer).AdvanceW prop=C21 inline=yes
func ensAdvanceW(s *SliceBuffer, n int) bool { return spKept(s, 0, n) }

//@ requires (*SliceBuffer).WriteNBytes
func reqWriteNBytes(s *SliceBuffer, n int) bool {
	return okBuf(s) && n >= 0 && n <= len(s.buf)-s.writeOffset
}

//@ modifies (*SliceBuffer).WriteNBytes
func modWriteNBytes(s *SliceBuffer, n int) { vMod(&s.writeOffset) }

//@ ensures (*SliceBuffer).WriteNBytes prop=C21 inline=yes
func ensWriteNBytes(s *SliceBuffer, n int, b []byte) bool {
	return spKept(s, 0, n) && vIs(b, s.buf, s.writeOffset-n, s.writeOffset)
}

//@ requires (*SliceBuffer).ReadNBytes
func reqReadNBytes(s *SliceBuffer, n int) bool {
	return okBuf(s) && n >= 0 && n <= s.writeOffset-s.readOffset
}

//@ modifies (*SliceBuffer).ReadNBytes
func modReadNBytes(s *SliceBuffer, n int) { vMod(&s.readOffset) }

//@ ensures (*SliceBuffer).ReadNBytes prop=C21 inline=yes
func ensReadNBytes(s *SliceBuffer, n int, b []byte) bool {
	return spKept(s, n, 0) && vIs(b, s.buf, s.readOffset-n, s.readOffset)
}

//@ requires (*SliceBuffer).Len
func reqLen(s *SliceBuffer) bool { return okBuf(s) }

//@ ensures (*SliceBuffer).Len prop=C21 inline=yes
func ensLen(s *SliceBuffer, n int) bool { return n == s.writeOffset-s.readOffset }

// ---- what the contracts add up to

// The unread and the free window are disjoint parts of one array, in order,
// so writing the free window changes no unread byte.
//
//@ lemma C21 concrete=no
func lemmaWindowsDisjoint(s *SliceBuffer, i int, x byte, j int) {
	vAssume(s != nil && okBuf(s))
	r, w := s.ReadBytes(), s.WriteBytes()
	vAssume(i >= 0 && i < len(w) && j >= 0 && j < len(r))
	old := r[j]
	w[i] = x
	vAssert("writing the free window leaves the unread bytes alone", s.ReadBytes()[j] == old)
}

// A byte queue: what is written is read back in order, through growth.
//
//@ lemma C21 concrete=no inline=(*SliceBuffer).ReadBytes,(*SliceBuffer).WriteNBytes,(*SliceBuffer).ReadNBytes,(*SliceBuffer).Len
func lemmaQueue(s *SliceBuffer, n, m int, x byte, i int) {
	vAssume(s != nil && okBuf(s) && n >= 1 && n < 1<<39 && m >= 0 && m < 1<<40 && s.writeOffset < 1<<39 && i >= 0 && i < n)
	l := s.Len()
	s.Grow(n)
	w := s.WriteNBytes(n)
	w[i] = x
	s.Grow(m)
	vAssert("writing extends the unread window by as much", s.Len() == l+n)
	s.ReadNBytes(l)
	vAssert("what is written is read after what was there", s.ReadNBytes(n)[i] == x)
	vAssert("nothing else is left", s.Len() == 0 && len(s.ReadBytes()) == 0)
}

//@ lemma C21 concrete=no inline=(*SliceBuffer).ReadBytes,(*SliceBuffer).Len
func lemmaGrowKeeps(s *SliceBuffer, n, i int) {
	vAssume(s != nil && okBuf(s) && n >= 0 && n < 1<<40 && s.writeOffset < 1<<40 && i >= 0 && i < s.Len())
	b := s.ReadBytes()[i]
	l := s.Len()
	s.Grow(n)
	vAssert("growing keeps the unread bytes", s.Len() == l && s.ReadBytes()[i] == b)
	vAssert("growing gives the requested room", len(s.WriteBytes()) >= n)
}
