package buffer

import "bytes"

//@ driver C21
func drvSliceBuffer(r *vRand) {
	size := r.Intn(40)
	var s *SliceBuffer
	var q []byte // unread bytes
	if r.Intn(3) == 0 {
		b := make([]byte, size, size+r.Intn(4))
		r.Read(b)
		q = append(q, b...)
		s = NewSliceBufferWithSlice(b)
	} else {
		s = NewSliceBuffer(size)
		vAssert("a new buffer has the requested room", len(s.WriteBytes()) == size)
	}
	room := func() int { return len(s.WriteBytes()) }
	fill := func(b []byte) {
		r.Read(b)
		q = append(q, b...)
	}
	for k := 2 + r.Intn(20); k > 0; k-- {
		switch r.Intn(8) {
		case 0:
			s.Reset()
			vAssert("reset empties the buffer", s.Len() == 0 && len(s.ReadBytes()) == 0)
			q = nil
		case 1:
			n := r.Intn(60)
			if r.Intn(5) == 0 {
				n = room() + r.Intn(3) - 1
			}
			before := room()
			s.Grow(n)
			vAssert("growing gives the requested room", room() >= n && room() >= before)
		case 2:
			w := s.WriteBytes()
			n := r.Intn(len(w) + 1)
			fill(w[:n])
			s.AdvanceW(n)
		case 3, 4:
			n := r.Intn(room() + 1)
			w := s.WriteNBytes(n)
			vAssert("the window has the requested size", len(w) == n)
			fill(w)
		case 5:
			n := r.Intn(s.Len() + 1)
			s.AdvanceR(n)
			q = q[n:]
		case 6, 7:
			n := r.Intn(s.Len() + 1)
			b := s.ReadNBytes(n)
			vAssert("reading returns the oldest bytes", bytes.Equal(b, q[:n]))
			q = q[n:]
		}
		vAssert("the unread window holds what was written", bytes.Equal(s.ReadBytes(), q))
		vAssert("the unread bytes are counted", s.Len() == len(q))
		// writing the whole free window must not touch the unread bytes
		w := s.WriteBytes()
		for i := range w {
			w[i] ^= 0xff
		}
		vAssert("the free window does not overlap the unread one", bytes.Equal(s.ReadBytes(), q))
	}
}
