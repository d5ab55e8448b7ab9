package sticktable

import (
	"net/netip"

	"github.com/dropmorepackets/haproxy-go/pkg/encoding"
)

// ---- keys and values survive encoding and decoding

// xKey encodes k and decodes the result into d.
func xKey(k, d MapKey, keySize uint64, buf []byte) (ok bool) {
	n, err := k.Marshal(buf, keySize)
	if err != nil {
		return false
	}
	vAssert("the length lies within the buffer", n >= 0 && n <= len(buf))
	m, err := d.Unmarshal(buf, keySize)
	vAssert("what was encoded is decoded", err == nil)
	vAssert("exactly the encoded bytes are decoded", m == n)
	return true
}

//@ lemma C14
func lemmaSignedIntegerKey(v SignedIntegerKey, keySize uint64, buf []byte) {
	k, d := v, SignedIntegerKey(0)
	ok := xKey(&k, &d, keySize, buf)
	vAssert("there is an error if the buffer is too small", ok == (len(buf) >= 4))
	vAssert("the key is read back", !ok || d == v)
	vAssert("the key is not changed", k == v)
}

//@ lemma C14
func lemmaIPv4Key(v netip.Addr, keySize uint64, buf []byte) {
	vAssume(v.Zone() == "")
	k, d := IPv4AddressKey(v), IPv4AddressKey{}
	ok := xKey(&k, &d, keySize, buf)
	vAssert("there is an error if the buffer is too small or the key does not fit", !ok || len(buf) >= 4 && keySize == 4 && (v.Is4() || v.Is4In6()))
	vAssert("every key that fits is encoded", ok || !(len(buf) >= 4 && keySize == 4 && v.Is4()))
	vAssert("the key is read back", !ok || netip.Addr(d) == v || v.Is4In6())
	vAssert("the key is not changed", netip.Addr(k) == v)
}

//@ lemma C14
func lemmaIPv6Key(v netip.Addr, keySize uint64, buf []byte) {
	vAssume(v.Zone() == "")
	k, d := IPv6AddressKey(v), IPv6AddressKey{}
	ok := xKey(&k, &d, keySize, buf)
	vAssert("there is an error if the buffer is too small or the key does not fit", !ok || len(buf) >= 16 && keySize == 16 && v.IsValid())
	vAssert("every key that fits is encoded", ok || !(len(buf) >= 16 && keySize == 16 && v.Is6()))
	vAssert("the key is read back", !ok || netip.Addr(d) == v || v.Is4())
	vAssert("the key is not changed", netip.Addr(k) == v)
}

//@ lemma C14
func lemmaStringKey(v string, keySize uint64, buf []byte) {
	k, d := StringKey(v), StringKey("")
	n, err := k.Marshal(buf, keySize)
	l := encoding.SpLen(uint64(len(v)))
	vAssert("there is an error exactly if the buffer is too small", (err == nil) == (len(buf) >= l+len(v)))
	vAssert("the key is not changed", string(k) == v)
	if err != nil {
		return
	}
	encoding.GDecoded(buf, uint64(len(v)))
	vAssert("the length is right", n == l+len(v))
	m, err := d.Unmarshal(buf, keySize)
	vAssert("what was encoded is decoded", err == nil)
	vAssert("exactly the encoded bytes are decoded", m == n)
	vAssert("the key is read back", string(d) == v)
}

//@ lemma C14
func lemmaBinaryKey(v []byte, keySize uint64, buf []byte) {
	k, d := BinaryKey(v), BinaryKey(nil)
	vAssume(vDisjoint(v, buf))
	ok := xKey(&k, &d, keySize, buf)
	vAssert("there is an error exactly if the buffer is too small or the key does not fit", ok == (len(buf) >= len(v) && keySize == uint64(len(v))))
	vAssert("the key is read back", !ok || len(d) == len(v) && vForall(0, len(v), func(i int) bool { return d[i] == v[i] }))
}

// xData encodes v and decodes the result into d.
func xInt(v, d MapData, x uint64, buf []byte) bool {
	n, err := v.Marshal(buf)
	l := encoding.SpLen(x)
	vAssert("there is an error exactly if the buffer is too small", (err == nil) == (len(buf) >= l))
	if err != nil {
		return false
	}
	encoding.GDecoded(buf, x)
	vAssert("the length is right", n == l)
	m, err := d.Unmarshal(buf)
	vAssert("what was encoded is decoded", err == nil)
	vAssert("exactly the encoded bytes are decoded", m == n)
	return true
}

//@ lemma C14
func lemmaSignedIntegerData(v SignedIntegerData, buf []byte) {
	k, d := v, SignedIntegerData(0)
	ok := xInt(&k, &d, uint64(int64(v)), buf)
	vAssert("the value is read back", !ok || d == v)
	vAssert("the value is not changed", k == v)
}

//@ lemma C14
func lemmaUnsignedIntegerData(v UnsignedIntegerData, buf []byte) {
	k, d := v, UnsignedIntegerData(0)
	ok := xInt(&k, &d, uint64(v), buf)
	vAssert("the value is read back", !ok || d == v)
	vAssert("the value is not changed", k == v)
}

//@ lemma C14
func lemmaUnsignedLongLongData(v UnsignedLongLongData, buf []byte) {
	k, d := v, UnsignedLongLongData(0)
	ok := xInt(&k, &d, uint64(v), buf)
	vAssert("the value is read back", !ok || d == v)
	vAssert("the value is not changed", k == v)
}

//@ lemma C14
func lemmaFreqData(v FreqData, buf []byte) {
	k, d := v, FreqData{}
	n, err := k.Marshal(buf)
	vAssert("the value is not changed", k == v)
	a, b, c := encoding.SpLen(v.CurrentTick), encoding.SpLen(v.CurrentPeriod), encoding.SpLen(v.LastPeriod)
	vAssert("there is an error exactly if the buffer is too small", (err == nil) == (len(buf) >= a+b+c))
	if err != nil {
		return
	}
	encoding.GDecoded(buf, v.CurrentTick)
	encoding.GDecoded(buf[a:], v.CurrentPeriod)
	encoding.GDecoded(buf[a+b:], v.LastPeriod)
	vAssert("the length is right", n == a+b+c)
	m, err := d.Unmarshal(buf)
	vAssert("what was encoded is decoded", err == nil)
	vAssert("exactly the encoded bytes are decoded", m == n)
	vAssert("the value is read back", d == v)
}

// spDict is the layout of the encoding of v: the lengths of the total length,
// of the identifier and of the value's length.
func spDict(v *DictData) (c, a, b int) {
	l := len(v.Value)
	if l > 0 {
		b = encoding.SpLen(uint64(l))
	}
	if v.ID != 0 || l > 0 {
		a = encoding.SpLen(v.ID)
	}
	return encoding.SpLen(uint64(a + b + l)), a, b
}

//@ modifies (*DictData).Marshal
func modDictMarshal(f *DictData, b []byte) { vModBytes(b) }

//@ ensures (*DictData).Marshal prop=C14
func ensDictMarshal(f *DictData, buf []byte, n int, err error) bool {
	c, a, b := spDict(f)
	l := len(f.Value)
	return (err == nil) == (len(buf) >= c+a+b+l) && (err != nil || n == c+a+b+l)
}

//@ ensures (*DictData).Marshal prop=C14 group=length
func ensDictLength(f *DictData, buf []byte, n int, err error) bool {
	c, a, b := spDict(f)
	return err != nil || encoding.SpIsEnc(buf, uint64(a+b+len(f.Value)), c)
}

//@ ensures (*DictData).Marshal prop=C14 group=id
func ensDictID(f *DictData, buf []byte, n int, err error) bool {
	c, a, _ := spDict(f)
	return err != nil || a == 0 || encoding.SpIsEnc(buf[c:], f.ID, a)
}

//@ ensures (*DictData).Marshal prop=C14 group=vlen
func ensDictValueLength(f *DictData, buf []byte, n int, err error) bool {
	c, a, b := spDict(f)
	return err != nil || b == 0 || encoding.SpIsEnc(buf[c+a:], uint64(len(f.Value)), b)
}

//@ ensures (*DictData).Marshal prop=C14 group=value hide=ensPutVarintForm
func ensDictValue(f *DictData, buf []byte, n int, err error) bool {
	c, a, b := spDict(f)
	return err != nil || !vDisjoint(f.Value, buf) || vForall(0, len(f.Value), func(i int) bool { return buf[c+a+b+i] == f.Value[i] })
}

//@ lemma C14 hide=ensVarint
func lemmaDictData(v DictData, buf []byte) {
	vAssume(vDisjoint(v.Value, buf))
	k, d := v, DictData{}
	n, err := k.Marshal(buf)
	vAssert("the value is not changed", k.ID == v.ID && vSame(k.Value, v.Value))
	l := len(v.Value)
	c, a, b := spDict(&v)
	vAssert("there is an error exactly if the buffer is too small", (err == nil) == (len(buf) >= a+b+c+l))
	if err != nil {
		return
	}
	vAssert("the length is right", n == a+b+c+l)
	encoding.GDecoded(buf, uint64(a+b+l))
	w := buf[:n]
	if a > 0 {
		encoding.GDecoded(w[c:], v.ID)
	}
	if l > 0 {
		encoding.GDecoded(w[c+a:], uint64(l))
	}
	m, err := d.Unmarshal(buf)
	vAssert("what was encoded is decoded", err == nil)
	vAssert("exactly the encoded bytes are decoded", m == n)
	vAssert("the identifier is read back", d.ID == v.ID)
	vAssert("the length of the value is read back", len(d.Value) == l)
	if l == 0 {
		return
	}
	_, n1, _ := encoding.Varint(buf)
	_, n2, _ := encoding.Varint(w[c:])
	_, n3, _ := encoding.Varint(w[c+a:])
	vAssert("the value's position", n1 == c && n2 == a && n3 == b)
	vAssert("the encoded value is read back", vForall(0, l, func(i int) bool { return d.Value[i] == w[n1+n2+n3+i] }))
	vAssert("the value is read back", vForall(0, l, func(i int) bool { return d.Value[i] == v.Value[i] }))
}
