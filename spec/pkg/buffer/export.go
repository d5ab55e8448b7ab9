package buffer

// Specification functions for the other packages.

func SpOK(s *SliceBuffer) bool    { return okBuf(s) }
func SpBuf(s *SliceBuffer) []byte { return s.buf }
func SpR(s *SliceBuffer) int      { return s.readOffset }
func SpW(s *SliceBuffer) int      { return s.writeOffset }
func SpMod(s *SliceBuffer)        { vMod(s) }
