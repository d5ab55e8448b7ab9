package encoding

import "io"

// ---- the HAProxy variable-length integer format

// spAt is byte j of an n byte form, 0 beyond its end.
func spAt(b []byte, n, j int) byte {
	if j < n {
		return b[j]
	}
	return 0
}

// spSum is the value of a form with the given bytes.
//
//@ opaque
func spSum(b0, b1, b2, b3, b4, b5, b6, b7, b8, b9 byte) uint64 {
	return uint64(b0) + uint64(b1)<<4 + uint64(b2)<<11 + uint64(b3)<<18 + uint64(b4)<<25 + uint64(b5)<<32 +
		uint64(b6)<<39 + uint64(b7)<<46 + uint64(b8)<<53 + uint64(b9)<<60
}

// spVal is the value of the n byte form at the start of b.
func spVal(b []byte, n int) uint64 {
	return spSum(b[0], spAt(b, n, 1), spAt(b, n, 2), spAt(b, n, 3), spAt(b, n, 4), spAt(b, n, 5),
		spAt(b, n, 6), spAt(b, n, 7), spAt(b, n, 8), spAt(b, n, 9))
}

// spForm: b starts with a complete form of n bytes.
func spForm(b []byte, n int) bool {
	if n < 1 || n > len(b) {
		return false
	}
	if n == 1 {
		return b[0] < 240
	}
	return b[0] >= 240 && b[n-1] < 128 && vForall(1, n-1, func(j int) bool { return b[j] >= 128 })
}

// spOpen: b holds no complete form.
func spOpen(b []byte) bool {
	return len(b) == 0 || b[0] >= 240 && vForall(1, len(b), func(j int) bool { return b[j] >= 128 })
}

// spRest is what remains to be encoded after the first k bytes, k >= 1.
func spRest(i uint64, k int) uint64 {
	x := (i - 240) >> 4
	for j := 1; j < k; j++ {
		x = (x - 128) >> 7
	}
	return x
}

// spLenFrom counts the bytes needed for x when k bytes precede it.
func spLenFrom(x uint64, k int) int {
	if k >= 10 || x < 128 {
		return k + 1
	}
	return spLenFrom((x-128)>>7, k+1)
}

// spLen is the length of the form of i.
//
//@ opaque
func spLen(i uint64) int {
	if i < 240 {
		return 1
	}
	return spLenFrom((i-240)>>4, 1)
}

//@ fact spLen reveal=spLen
func factLen(i uint64, n int) bool { return n >= 1 && n <= 10 && (i >= 240) == (n > 1) }

// spEncoded: the form of i is complete, and its value is i.
func spEncoded(i uint64) bool {
	n := spLen(i)
	return (spByte(i, n, 0) < 240) == (n == 1) &&
		spMore(i, n, 1) && spMore(i, n, 2) && spMore(i, n, 3) && spMore(i, n, 4) && spMore(i, n, 5) &&
		spMore(i, n, 6) && spMore(i, n, 7) && spMore(i, n, 8) && spMore(i, n, 9) &&
		spSum(spByte(i, n, 0), spByte0(i, n, 1), spByte0(i, n, 2), spByte0(i, n, 3), spByte0(i, n, 4), spByte0(i, n, 5),
			spByte0(i, n, 6), spByte0(i, n, 7), spByte0(i, n, 8), spByte0(i, n, 9)) == i
}

// It always is.
func gEncoded(i uint64) {}

//@ ensures gEncoded prop=C01 reveal=spSum,spByte,spLen
func ensEncoded(i uint64) bool { return spEncoded(i) }

func spMore(i uint64, n, k int) bool { return k >= n || (spByte(i, n, k) < 128) == (k == n-1) }

func spByte0(i uint64, n, k int) byte {
	if k < n {
		return spByte(i, n, k)
	}
	return 0
}

// spByte is byte k of the form of i, which has n bytes.
//
//@ opaque
func spByte(i uint64, n, k int) byte {
	if k == 0 {
		if n == 1 {
			return byte(i)
		}
		return byte(i) | 240
	}
	if k == n-1 {
		return byte(spRest(i, k))
	}
	return byte(spRest(i, k)) | 128
}

func spByteOK(b []byte, i uint64, n, k int) bool {
	return k >= n || b[k] == spByte(i, n, k)
}

// spIsEnc: b starts with the n byte form of i.
func spIsEnc(b []byte, i uint64, n int) bool {
	return n == spLen(i) && n <= len(b) &&
		spByteOK(b, i, n, 0) && spByteOK(b, i, n, 1) && spByteOK(b, i, n, 2) && spByteOK(b, i, n, 3) && spByteOK(b, i, n, 4) &&
		spByteOK(b, i, n, 5) && spByteOK(b, i, n, 6) && spByteOK(b, i, n, 7) && spByteOK(b, i, n, 8) && spByteOK(b, i, n, 9)
}

//@ modifies PutVarint
func modPutVarint(b []byte, i uint64) {
	n := spLen(i)
	if n > len(b) {
		n = len(b)
	}
	vModBytes(b[:n])
}

//@ ensures PutVarint prop=C01 reveal=spSum,spLen,spByte
func ensPutVarint(b []byte, i uint64, n int, err error) bool {
	if spLen(i) > len(b) {
		return err == ErrInsufficientSpace && n == 0
	}
	return err == nil && n >= 1 && n <= 10 && n == spLen(i)
}

//@ ensures PutVarint prop=C01
func ensPutVarintForm(b []byte, i uint64, n int, err error) bool { return err != nil || spIsEnc(b, i, n) }

//@ ensures Varint prop=C01 reveal=spSum det=yes
func ensVarint(b []byte, v uint64, n int, err error) bool {
	if err != nil {
		return spOpen(b) && n == 0 && v == 0 && err == ErrUnterminatedSequence
	}
	return spForm(b, n) && v == spVal(b, n)
}

//@ ensures Varint prop=C01
func ensVarintRange(b []byte, v uint64, n int, err error) bool {
	return n >= 0 && n <= len(b) && (err == nil) == (n > 0)
}

//@ inv Varint
func invVarint(b []byte, off int, r uint, val uint64) bool {
	return off >= 1 && off <= len(b) && r == uint(4+7*(off-1)) && b[0] >= 240 && val == spVal(b, off) &&
		vForall(1, off, func(j int) bool { return b[j] >= 128 })
}

// gDecoded: what Varint makes of the form of x.
func gDecoded(b []byte, x, v uint64, n int, err error) {
	gEncoded(x)
}

//@ requires gDecoded
func reqDecoded(b []byte, x, v uint64, n int, err error) bool {
	return spIsEnc(b, x, spLen(x)) && ensVarint(b, v, n, err)
}

//@ ensures gDecoded prop=C01
func ensDecoded(b []byte, x, v uint64, n int, err error) bool {
	return err == nil && v == x && n == spLen(x)
}

// GForm: Varint accepts a complete form, and it is the only one.
func GForm(b []byte, m int, v uint64, n int, err error) {}

//@ requires GForm
func reqGForm(b []byte, m int, v uint64, n int, err error) bool {
	return spForm(b, m) && ensVarint(b, v, n, err)
}

//@ ensures GForm prop=C01
func ensGForm(b []byte, m int, v uint64, n int, err error) bool {
	return err == nil && n == m && v == spVal(b, m)
}

// GOpen: Varint refuses what has no complete form.
func GOpen(b []byte, v uint64, n int, err error) {}

//@ requires GOpen
func reqGOpen(b []byte, v uint64, n int, err error) bool { return spOpen(b) && ensVarint(b, v, n, err) }

//@ ensures GOpen prop=C01
func ensGOpen(b []byte, v uint64, n int, err error) bool { return err != nil }

// ---- the same over a byte reader: the input from position p on

func spAtR(rd any, p, n, j int) byte {
	if j < n {
		return vInAt(rd, p+j)
	}
	return 0
}

func spValR(rd any, p, n int) uint64 {
	return spSum(vInAt(rd, p), spAtR(rd, p, n, 1), spAtR(rd, p, n, 2), spAtR(rd, p, n, 3), spAtR(rd, p, n, 4), spAtR(rd, p, n, 5),
		spAtR(rd, p, n, 6), spAtR(rd, p, n, 7), spAtR(rd, p, n, 8), spAtR(rd, p, n, 9))
}

func spFormR(rd any, p, n int) bool {
	if n < 1 || p+n > vInLen(rd) {
		return false
	}
	if n == 1 {
		return vInAt(rd, p) < 240
	}
	return vInAt(rd, p) >= 240 && vInAt(rd, p+n-1) < 128 && vForall(1, n-1, func(j int) bool { return vInAt(rd, p+j) >= 128 })
}

//@ requires ReadVarint
func reqReadVarint(rd io.ByteReader) bool { return rd != nil }

//@ modifies ReadVarint
func modReadVarint(rd io.ByteReader) { vModIn(rd) }

//@ ensures ReadVarint prop=C01 reveal=spSum
func ensReadVarint(rd io.ByteReader, v uint64, err error) bool {
	p0 := vOld(func() int { return vInPos(rd) })
	n := vInPos(rd) - p0
	if err != nil {
		return v == 0 && vInPos(rd) == vInLen(rd) && n >= 0 && vImp(n > 0, vInAt(rd, p0) >= 240 && vForall(1, n, func(j int) bool { return vInAt(rd, p0+j) >= 128 }))
	}
	return spFormR(rd, p0, n) && v == spValR(rd, p0, n)
}

//@ inv ReadVarint
func invReadVarint(rd io.ByteReader, off int, r uint, val uint64) bool {
	p0 := vOld(func() int { return vInPos(rd) })
	return off >= 1 && off <= vInLen(rd)-p0 && vInPos(rd) == p0+off && r == uint(4+7*(off-1)) && vInAt(rd, p0) >= 240 && val == spValR(rd, p0, off) &&
		vForall(1, off, func(j int) bool { return vInAt(rd, p0+j) >= 128 })
}

// ---- the property

//@ lemma C01
func lemmaVarintRoundTrip(b []byte, i uint64, extra int) {
	before := len(b)
	n, err := PutVarint(b, i)
	if err != nil {
		vAssert("PutVarint fails only for lack of space", spLen(i) > before)
		vAssert("PutVarint reports lack of space", err == ErrInsufficientSpace)
		return
	}
	vAssert("PutVarint writes the form of the value", spIsEnc(b, i, n))
	vAssert("form length is 1 to 10", n >= 1 && n <= 10)
	// anything may follow the form
	vAssume(extra >= n && extra <= before)
	v, m, err := Varint(b[:extra])
	gDecoded(b[:extra], i, v, m, err)
	vAssert("Varint accepts what PutVarint wrote", err == nil)
	vAssert("Varint returns the encoded value", v == i)
	vAssert("Varint consumes exactly the form", m == n)
}

//@ lemma C01
func lemmaVarintReader(c *vConn, i uint64, n int) {
	// the reader delivers a form of n bytes whose value is i
	vAssume(c != nil)
	p := vInPos(c)
	vAssume(p >= 0 && p <= vInLen(c) && n >= 1 && n <= 10 && spFormR(c, p, n))
	v, err := ReadVarint(c)
	vAssert("ReadVarint accepts a complete form", err == nil)
	vAssert("ReadVarint consumes exactly the form", vInPos(c) == p+n)
	vAssert("ReadVarint agrees with the value of the form", v == spValR(c, p, n))
}

// GDecoded: what Varint makes of b, which starts with the form of x.
func GDecoded(b []byte, x uint64) {
	v, n, err := Varint(b)
	gDecoded(b, x, v, n, err)
}

//@ requires GDecoded
func reqGDecoded(b []byte, x uint64) bool { return spIsEnc(b, x, spLen(x)) }

//@ ensures GDecoded prop=C01
func ensGDecoded(b []byte, x uint64) bool {
	v, n, err := Varint(b)
	return err == nil && v == x && n == spLen(x)
}
