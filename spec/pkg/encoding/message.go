package encoding

// ---- pools

// Objects in the pools are as good as new.
//
//@ poolinv kvEntryPool
func invKVEntryPool(e *KVEntry) bool {
	return e.name == nil && e.byteVal == nil && e.intVal == 0 && e.dataType == 0 && !e.boolVar
}

//@ poolinv kvScannerPool
func invKVScannerPool(s *KVScanner) bool { return s.lastErr == nil }

//@ poolinv messagePool
func invMessagePool(m *Message) bool { return m.KV == nil && m.name == nil }

//@ poolinv messageScannerPool
func invMessageScannerPool(s *MessageScanner) bool { return true }

//@ poolinv kvWriterPool
func invKVWriterPool(w *KVWriter) bool { return true }

//@ poolinv actionWriterPool
func invActionWriterPool(w *ActionWriter) bool { return true }

//@ ensures AcquireKVEntry prop=C12 fresh=yes inline=yes
func ensAcquireKVEntry(e *KVEntry) bool {
	return e != nil && e.name == nil && e.byteVal == nil && e.intVal == 0 && e.dataType == 0 && !e.boolVar
}

//@ requires ReleaseKVEntry
func reqReleaseKVEntry(e *KVEntry) bool { return e != nil && vGhost("released", e) == 0 }

//@ modifies ReleaseKVEntry prop=C12 inline=yes
func modReleaseKVEntry(e *KVEntry) {
	vMod(e)
	vModGhost("released", e)
}

//@ ensures AcquireKVScanner prop=C12 fresh=yes inline=yes
func ensAcquireKVScanner(b []byte, count int, s *KVScanner) bool {
	return s != nil && vSame(s.buf, b) && s.left == count && s.lastErr == nil
}

//@ requires ReleaseKVScanner
func reqReleaseKVScanner(s *KVScanner) bool { return s != nil && vGhost("released", s) == 0 }

//@ modifies ReleaseKVScanner prop=C12 inline=yes
func modReleaseKVScanner(s *KVScanner) {
	vMod(s)
	vModGhost("released", s)
}

//@ ensures AcquireMessage prop=C12 fresh=yes inline=yes
func ensAcquireMessage(m *Message) bool { return m != nil && m.KV == nil && m.name == nil }

//@ requires ReleaseMessage
func reqReleaseMessage(m *Message) bool { return m != nil && vGhost("released", m) == 0 }

//@ modifies ReleaseMessage prop=C12 inline=yes
func modReleaseMessage(m *Message) {
	vMod(m)
	vModGhost("released", m)
}

//@ ensures AcquireMessageScanner prop=C12 fresh=yes inline=yes
func ensAcquireMessageScanner(b []byte, s *MessageScanner) bool {
	return s != nil && vSame(s.buf, b) && s.lastErr == nil
}

//@ requires ReleaseMessageScanner
func reqReleaseMessageScanner(s *MessageScanner) bool {
	return s != nil && vGhost("released", s) == 0
}

//@ modifies ReleaseMessageScanner prop=C12 inline=yes
func modReleaseMessageScanner(s *MessageScanner) {
	vMod(s)
	vModGhost("released", s)
}

//@ ensures AcquireKVWriter prop=C12 fresh=yes inline=yes
func ensAcquireKVWriter(b []byte, off int, w *KVWriter) bool {
	return w != nil && vSame(w.data, b) && w.off == off
}

//@ requires ReleaseKVWriter
func reqReleaseKVWriter(w *KVWriter) bool { return w != nil && vGhost("released", w) == 0 }

//@ modifies ReleaseKVWriter prop=C12 inline=yes
func modReleaseKVWriter(w *KVWriter) {
	vMod(w)
	vModGhost("released", w)
}

//@ ensures AcquireActionWriter prop=C12 fresh=yes inline=yes
func ensAcquireActionWriter(b []byte, off int, w *ActionWriter) bool {
	return w != nil && vSame(w.data, b) && w.off == off
}

//@ requires ReleaseActionWriter
func reqReleaseActionWriter(w *ActionWriter) bool { return w != nil && vGhost("released", w) == 0 }

//@ modifies ReleaseActionWriter prop=C12 inline=yes
func modReleaseActionWriter(w *ActionWriter) {
	vMod(w)
	vModGhost("released", w)
}

// ---- the rest of a key/value list

//@ modifies (*KVScanner).Discard
func modDiscard(k *KVScanner) { vMod(k) }

// spScanned: k has read c bytes of the list that it held before, and what is
// left is the rest of it; failed: it had failed before.
func spScanned(k *KVScanner, b []byte, left int, failed bool) bool {
	c := len(b) - len(k.buf)
	return spRestOf(k.buf, b, c) && vImp(failed, k.lastErr != nil) &&
		vImp(!failed, spSkip(b, left) == vIf(k.lastErr != nil, -1, spThen(c, spSkip(k.buf, k.left))))
}

//@ ensures (*KVScanner).Discard prop=C02,C04 hide=ensKVNext
func ensDiscard(k *KVScanner, err error) bool {
	b := vOld(func() []byte { return k.buf })
	left := vOld(func() int { return k.left })
	failed := vOld(func() error { return k.lastErr }) != nil
	c := len(b) - len(k.buf)
	// exactly the announced entries are consumed, or there is an error
	return spRestOf(k.buf, b, c) && err == k.lastErr && vImp(failed, err != nil) && vImp(!failed, vIf(err != nil, -1, c) == spSkip(b, left))
}

//@ inv (*KVScanner).Discard
func invDiscard(k *KVScanner) bool {
	return spScanned(k, vOld(func() []byte { return k.buf }), vOld(func() int { return k.left }), vOld(func() error { return k.lastErr }) != nil)
}

// ---- messages

// spMsgRest is the part of b that the previous message left over.
func spMsgStart(s *MessageScanner, m *Message) int {
	if m.KV == nil {
		return 0
	}
	return len(s.buf) - len(m.KV.buf)
}

//@ requires (*MessageScanner).Next
func reqMsgNext(s *MessageScanner, m *Message) bool {
	return m != nil && (m.KV == nil || len(m.KV.buf) <= len(s.buf) && vGhost("released", m.KV) == 0)
}

//@ modifies (*MessageScanner).Next
func modMsgNext(s *MessageScanner, m *Message) {
	vMod(s)
	vMod(m)
	if m.KV != nil {
		vMod(m.KV)
		vModGhost("released", m.KV)
	}
}

// spIsMsg: m is the message header that starts at position q of b; its
// arguments start at c.
func spIsMsg(m *Message, b []byte, q, n, c int) bool {
	p := n + len(m.name)
	return n > q && spForm(b[q:], n-q) && p < len(b) && p >= n && spVal(b[q:], n-q) == uint64(p-n) && vIs(m.name, b, n, p) &&
		c == p+1 && m.KV != nil && m.KV.lastErr == nil && m.KV.left == int(b[p]) && spRestOf(m.KV.buf, b, c)
}

//@ ensures (*MessageScanner).Next prop=C04
func ensMsgNext(s *MessageScanner, m *Message, ok bool) bool {
	b := vOld(func() []byte { return s.buf })
	q := vOld(func() int { return spMsgStart(s, m) })
	err := vOld(func() error { return s.lastErr })
	c := len(b) - len(s.buf)
	if q == len(b) {
		return !ok && m.KV == nil && s.lastErr == err && len(s.buf) == 0
	}
	if !ok {
		return s.lastErr != nil && m.KV == nil && c >= q && spRestOf(s.buf, b, c)
	}
	return s.lastErr == err && spRestOf(s.buf, b, c) && vFresh(m.KV) && vGhost("released", m.KV) == 0 && spIsMsg(m, b, q, vOff(m.name, b), c)
}

// Reading one entry leaves the rest of the list.
//
//@ lemma C04 concrete=no hide=ensKVNext
func lemmaNextKeepsRest(k *KVScanner, e *KVEntry) {
	vAssume(k != nil && e != nil)
	failed := k.lastErr != nil
	b := k.buf
	left := k.left
	k.Next(e)
	vAssert("the rest of the list is left", spScanned(k, b, left, failed))
}
