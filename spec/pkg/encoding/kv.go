package encoding

import "net/netip"

// ---- length prefixed bytes

// spSameBytes: a and s hold the same bytes.
func spSameBytes(a []byte, s string) bool {
	return len(a) == len(s) && vForall(0, len(s), func(i int) bool { return a[i] == s[i] })
}

func spEqBytes(a, b []byte) bool {
	return len(a) == len(b) && vForall(0, len(b), func(i int) bool { return a[i] == b[i] })
}

// spIsBytes: b starts with the n byte length prefixed form of v.
func spIsBytes(b []byte, v []byte, n int) bool {
	return n == spLen(uint64(len(v)))+len(v) && n <= len(b) && spIsEnc(b, uint64(len(v)), n-len(v)) &&
		vForall(0, len(v), func(i int) bool { return b[n-len(v)+i] == v[i] })
}

//@ requires PutBytes
func reqPutBytes(b, v []byte) bool { return vDisjoint(b, v) }

//@ modifies PutBytes
func modPutBytes(b, v []byte) { vModBytes(b) }

//@ ensures PutBytes prop=C03
func ensPutBytes(b, v []byte, n int, err error) bool {
	if spLen(uint64(len(v)))+len(v) > len(b) {
		return err == ErrInsufficientSpace && n == 0
	}
	return err == nil && spIsBytes(b, v, n)
}

func spAddrLen(ip netip.Addr) int {
	if ip.Is4() {
		return 4
	}
	if ip.Is6() {
		return 16
	}
	return 0
}

func spAddrByte(ip netip.Addr, i int) byte {
	a := ip.As16()
	if ip.Is4() {
		return a[12+i]
	}
	return a[i]
}

func spAddrByteOK(b []byte, ip netip.Addr, i int) bool {
	return i >= spAddrLen(ip) || b[i] == spAddrByte(ip, i)
}

// spIsAddr: b starts with the bytes of ip.
func spIsAddr(b []byte, ip netip.Addr) bool {
	if spAddrLen(ip) > len(b) {
		return false
	}
	return spAddrByteOK(b, ip, 0) && spAddrByteOK(b, ip, 1) && spAddrByteOK(b, ip, 2) && spAddrByteOK(b, ip, 3) &&
		(spAddrLen(ip) < 16 || vForall(4, 16, func(i int) bool { return b[i] == ip.As16()[i] }))
}

//@ modifies PutAddr
func modPutAddr(b []byte, ip netip.Addr) { vModBytes(b) }

//@ ensures PutAddr prop=C03
func ensPutAddr(b []byte, ip netip.Addr, n int, err error) bool {
	if spAddrLen(ip) > len(b) {
		return err == ErrInsufficientSpace && n == 0
	}
	return err == nil && n == spAddrLen(ip) && spIsAddr(b, ip)
}

// ---- the scanner

// spRestOf: now is what is left of b after c bytes.
func spRestOf(now, b []byte, c int) bool {
	return c >= 0 && c <= len(b) && vSame(now, b[c:])
}

// spIsInt: e holds the varint at position p of b, ending at c.
func spIsInt(e *KVEntry, b []byte, p, c int) bool {
	return c > p && spForm(b[p:], c-p) && uint64(e.intVal) == spVal(b[p:], c-p) && e.byteVal == nil
}

// spIsBlob: e's value is the length prefixed run of bytes at position p of
// b, ending at c.
func spIsBlob(e *KVEntry, b []byte, p, c int) bool {
	m := c - p - len(e.byteVal)
	return m > 0 && m <= c-p && spForm(b[p:], m) && spVal(b[p:], m) == uint64(c-p-m) && vIs(e.byteVal, b, p+m, c) && e.intVal == 0
}

func spIsFixed(e *KVEntry, b []byte, p, c, n int) bool {
	return c == p+n && vIs(e.byteVal, b, p, c) && e.intVal == 0
}

func spIsValue(e *KVEntry, b []byte, p, c int) bool {
	switch e.dataType {
	case DataTypeNull, DataTypeBool:
		return c == p && e.byteVal == nil && e.intVal == 0
	case DataTypeInt32, DataTypeUInt32, DataTypeInt64, DataTypeUInt64:
		return spIsInt(e, b, p, c)
	case DataTypeIPV4:
		return spIsFixed(e, b, p, c, 4)
	case DataTypeIPV6:
		return spIsFixed(e, b, p, c, 16)
	case DataTypeString, DataTypeBinary:
		return spIsBlob(e, b, p, c)
	}
	return false
}

// spIsEntry: e is exactly the entry that the first c bytes of b encode; its
// name starts at n.
func spIsEntry(e *KVEntry, b []byte, n, c int) bool {
	p := n + len(e.name)
	return n > 0 && spForm(b, n) && p < len(b) && p >= n && c > p && spVal(b, n) == uint64(p-n) && vIs(e.name, b, n, p) &&
		byte(e.dataType) == b[p]&0x0f && e.boolVar == (b[p]&0x10 != 0) && spIsValue(e, b, p+1, c)
}

// spEntryLen is the length of the entry at the start of b, 0 if there is no
// well-formed one.
//
//@ opaque
func spEntryLen(b []byte) int {
	l, n, err := Varint(b)
	if err != nil || l >= uint64(len(b)-n) {
		return 0
	}
	p := n + int(l) + 1
	switch DataType(b[p-1] & 0x0f) {
	case DataTypeNull, DataTypeBool:
		return p
	case DataTypeInt32, DataTypeUInt32, DataTypeInt64, DataTypeUInt64:
		_, m, err := Varint(b[p:])
		if err != nil {
			return 0
		}
		return p + m
	case DataTypeIPV4:
		if len(b)-p < 4 {
			return 0
		}
		return p + 4
	case DataTypeIPV6:
		if len(b)-p < 16 {
			return 0
		}
		return p + 16
	case DataTypeString, DataTypeBinary:
		x, m, err := Varint(b[p:])
		if err != nil || x > uint64(len(b)-p-m) {
			return 0
		}
		return p + m + int(x)
	}
	return 0
}

func spNameAt(e *KVEntry, b []byte, c int) int {
	// the position of the type byte follows from the value
	return vOff(e.name, b)
}

//@ requires (*KVScanner).Next
func reqKVNext(k *KVScanner, e *KVEntry) bool { return e != nil && k != nil }

//@ modifies (*KVScanner).Next
func modKVNext(k *KVScanner, e *KVEntry) {
	vMod(k)
	vMod(e)
}

//@ ensures (*KVScanner).Next prop=C02
func ensKVNextStep(k *KVScanner, e *KVEntry, ok bool) bool {
	b := vOld(func() []byte { return k.buf })
	left := vOld(func() int { return k.left })
	err := vOld(func() error { return k.lastErr })
	c := len(b) - len(k.buf)
	return spRestOf(k.buf, b, c) && spStep(k, b, left, err, c, ok)
}

func spStep(k *KVScanner, b []byte, left int, err error, c int, ok bool) bool {
	if err != nil || left == 0 {
		return !ok && k.lastErr == err && k.left == left && c == 0
	}
	if len(b) == 0 {
		return !ok && k.left == left && (left > 0) == (k.lastErr != nil)
	}
	return ok == (k.lastErr == nil) && vImp(ok, (left < 0) == (k.left < 0) && vImp(left > 0, k.left == left-1) && c > 0)
}

//@ ensures (*KVScanner).Next prop=C02
func ensKVNext(k *KVScanner, e *KVEntry, ok bool) bool {
	b := vOld(func() []byte { return k.buf })
	c := len(b) - len(k.buf)
	return vImp(ok, spIsEntry(e, b, spNameAt(e, b, c), c))
}

//@ ensures (*KVScanner).Next prop=C02 reveal=spEntryLen
func ensKVNextLen(k *KVScanner, e *KVEntry, ok bool) bool {
	b := vOld(func() []byte { return k.buf })
	if vOld(func() error { return k.lastErr }) != nil || vOld(func() int { return k.left }) == 0 || len(b) == 0 {
		return true
	}
	return spEntryLen(b) == vIf(ok, len(b)-len(k.buf), 0)
}

// spSkip is the length of the list of entries at the start of b, -1 if there
// is no well-formed one; left entries are announced (any number if negative).
func spSkip(b []byte, left int) int { return spSkipN(b, vIf(left < 0, -1, left)) }

//@ rec
func spSkipN(b []byte, left int) int {
	if left == 0 {
		return 0
	}
	if len(b) == 0 {
		return vIf(left < 0, 0, -1)
	}
	c := spEntryLen(b)
	if c <= 0 {
		return -1
	}
	if left > 0 {
		left--
	}
	if c >= len(b) || left == 0 {
		return vIf(left <= 0, c, -1)
	}
	return spThen(c, spSkipN(b[c:], left))
}

//@ fact spEntryLen
func factEntryLen(b []byte, n int) bool { return n >= 0 && n <= len(b) }

//@ fact spSkipN
func factSkip(b []byte, left int, n int) bool { return n >= -1 && n <= len(b) }

// spThen: c bytes, then r more (-1: malformed).
func spThen(c, r int) int {
	if r < 0 {
		return -1
	}
	return c + r
}

// A well-formed entry is accepted, and is reported exactly.
//
//@ lemma C02 inline=(*KVScanner).Next
func lemmaScanAccepts(b []byte, left int) {
	vAssume(left != 0)
	l, n, err := Varint(b)
	vAssume(err == nil && l < uint64(len(b)-n))
	p := n + int(l)
	t := DataType(b[p] & 0x0f)
	p++
	c := p
	v := uint64(0)
	switch t {
	case DataTypeNull, DataTypeBool:
	case DataTypeInt32, DataTypeUInt32, DataTypeInt64, DataTypeUInt64:
		x, m, err := Varint(b[p:])
		vAssume(err == nil)
		v = x
		c = p + m
	case DataTypeIPV4:
		c = p + 4
	case DataTypeIPV6:
		c = p + 16
	case DataTypeString, DataTypeBinary:
		x, m, err := Varint(b[p:])
		vAssume(err == nil && x <= uint64(len(b)-p-m))
		p += m
		c = p + int(x)
	default:
		vAssume(false)
	}
	vAssume(c <= len(b))
	k := &KVScanner{buf: b, left: left}
	e := &KVEntry{}
	ok := k.Next(e)
	vAssert("a well-formed entry is accepted", ok)
	vAssert("a well-formed entry gives no error", k.Error() == nil)
	vAssert("the entry's bytes are consumed exactly", k.RemainingBuf() == len(b)-c)
	vAssert("the name is the announced one", vIs(e.NameBytes(), b, n, n+int(l)))
	vAssert("the type is the announced one", e.Type() == t)
	vAssert("the flag is the announced one", e.ValueBool() == (b[n+int(l)]&0x10 != 0))
	switch t {
	case DataTypeInt32, DataTypeUInt32, DataTypeInt64, DataTypeUInt64:
		vAssert("the integer is the encoded one", e.ValueInt() == int64(v))
	case DataTypeIPV4, DataTypeIPV6, DataTypeString, DataTypeBinary:
		vAssert("the value bytes are the encoded ones", vIs(e.ValueBytes(), b, p, c))
	}
}

// Scanning never yields more entries than announced, and an early end of the
// data is an error.
//
//@ lemma C02
func lemmaScanCount(b []byte, left int) {
	k := NewKVScanner(b, left)
	e := &KVEntry{}
	l1 := len(b)
	if !k.Next(e) {
		vAssert("no announced entry is skipped silently", left == 0 || k.Error() != nil || left < 0 && l1 == 0)
		vAssert("a finished scan stays finished", !k.Next(e))
		return
	}
	vAssert("scanning goes on only while entries are announced", left != 0)
	vAssert("each step consumes something", k.RemainingBuf() < l1)
	if left == 1 {
		vAssert("the announced count ends the scan", !k.Next(e) && k.Error() == nil)
	}
}

// Accessors never panic on what the scanner produced.
//
//@ lemma C02
func lemmaScanAccessors(b []byte, left int) {
	k := NewKVScanner(b, left)
	e := &KVEntry{}
	if !k.Next(e) {
		return
	}
	e.NameBytes()
	e.ValueBytes()
	e.ValueInt()
	e.ValueBool()
	if e.Type() == DataTypeIPV4 || e.Type() == DataTypeIPV6 {
		a := e.ValueAddr()
		vAssert("addresses are the encoded bytes", spIsAddr(e.ValueBytes(), a) && len(e.ValueBytes()) == spAddrLen(a))
	}
	v := e.Value()
	vAssert("a null entry has no value", (v == nil) == (e.Type() == DataTypeNull))
}
