package sticktable

import "github.com/dropmorepackets/haproxy-go/pkg/encoding"

// ---- encoding never panics, changes nothing but the buffer and says how much
// of it was used

//@ requires iface:peers/sticktable.MapKey.Marshal module=yes
func reqKeyMarshal(k MapKey, b []byte, keySize uint64) bool { return k != nil }

//@ modifies iface:peers/sticktable.MapKey.Marshal
func modKeyMarshal(k MapKey, b []byte, keySize uint64) { vModBytes(b) }

//@ ensures iface:peers/sticktable.MapKey.Marshal prop=C14 hide=ensPutVarintForm
func ensKeyMarshal(k MapKey, b []byte, keySize uint64, n int, err error) bool {
	return n >= 0 && n <= len(b)
}

//@ requires iface:peers/sticktable.MapData.Marshal module=yes
func reqDataMarshal(d MapData, b []byte) bool {
	_, entry := d.(*EntryUpdate)
	return d != nil && !entry
}

//@ modifies iface:peers/sticktable.MapData.Marshal
func modDataMarshal(d MapData, b []byte) { vModBytes(b) }

//@ ensures iface:peers/sticktable.MapData.Marshal prop=C14 hide=ensPutVarintForm
func ensDataMarshal(d MapData, b []byte, n int, err error) bool {
	return n >= 0 && n <= len(b)
}

// okEntry: the entry has a table, a key and values.
func okEntry(e *EntryUpdate) bool {
	return e.StickTable != nil && e.Key != nil && vForall(0, len(e.Data), func(i int) bool { return reqDataMarshal(e.Data[i], nil) })
}

func OkEntry(e *EntryUpdate) bool { return okEntry(e) }

//@ requires (*EntryUpdate).Marshal
func reqEntryMarshal(e *EntryUpdate, b []byte) bool { return okEntry(e) }

//@ modifies (*EntryUpdate).Marshal
func modEntryMarshal(e *EntryUpdate, b []byte) { vModBytes(b) }

func spBE(b []byte, i int) uint32 {
	return uint32(b[i])<<24 | uint32(b[i+1])<<16 | uint32(b[i+2])<<8 | uint32(b[i+3])
}

// spFlags is the length of the update id and the expiry.
func spFlags(e *EntryUpdate) int {
	n := 0
	if e.WithLocalUpdateID {
		n += 4
	}
	if e.WithExpiry {
		n += 4
	}
	return n
}

//@ ensures (*EntryUpdate).Marshal prop=C14
func ensEntryMarshal(e *EntryUpdate, b []byte, n int, err error) bool {
	k := spFlags(e)
	return n >= 0 && n <= len(b) && (err != nil || n >= k && (!e.WithLocalUpdateID || spBE(b, 0) == e.LocalUpdateID) &&
		(!e.WithExpiry || spBE(b, k-4) == e.Expiry)) && (len(b) >= k || err != nil)
}

//@ inv (*EntryUpdate).Marshal
func invEntryMarshal(e *EntryUpdate, b []byte, offset int) bool {
	k := spFlags(e)
	return offset >= k && offset <= len(b) && (!e.WithLocalUpdateID || spBE(b, 0) == e.LocalUpdateID) && (!e.WithExpiry || spBE(b, k-4) == e.Expiry)
}

// What precedes the key is read back.
//
//@ ensures (*EntryUpdate).Unmarshal prop=C14
func ensEntryFlags(e *EntryUpdate, b []byte, n int, err error) bool {
	k := spFlags(e)
	return e.WithLocalUpdateID == vOld(func() bool { return e.WithLocalUpdateID }) && e.WithExpiry == vOld(func() bool { return e.WithExpiry }) &&
		(err != nil || n >= k &&
			(e.WithLocalUpdateID && e.LocalUpdateID == spBE(b, 0) || !e.WithLocalUpdateID && e.LocalUpdateID == vOld(func() uint32 { return e.LocalUpdateID })) &&
			(e.WithExpiry && e.Expiry == spBE(b, k-4) || !e.WithExpiry && e.Expiry == vOld(func() uint32 { return e.Expiry })))
}

//@ requires (*Definition).Marshal
func reqDefMarshal(s *Definition, b []byte) bool {
	return vForall(0, len(s.DataTypes), func(i int) bool { return s.DataTypes[i].DataType >= 0 })
}

//@ modifies (*Definition).Marshal
func modDefMarshal(s *Definition, b []byte) { vModBytes(b) }

// spHeader is the layout of the encoding of s: the lengths of the identifier,
// of the name's length, of the key type and of the key length.
func spHeader(s *Definition) (a, b, c, k int) {
	return encoding.SpLen(s.StickTableID), encoding.SpLen(uint64(len(s.Name))), encoding.SpLen(uint64(s.KeyType)), encoding.SpLen(s.KeyLength)
}

//@ ensures (*Definition).Marshal prop=C13 hide=ensPutVarintForm
func ensDefMarshal(s *Definition, buf []byte, n int, err error) bool {
	a, b, c, k := spHeader(s)
	x := encoding.SpLen(s.Expiry)
	h := a + b + len(s.Name) + c + k + 1 + x
	return n >= 0 && n <= len(buf) && (err != nil || n >= h) && (len(s.DataTypes) > 0 || (err == nil) == (len(buf) >= h) && (err != nil || n == h))
}

//@ inv (*Definition).Marshal
func invDefNoTypes(s *Definition, dataTypes uint64) bool {
	return len(s.DataTypes) > 0 || dataTypes == 0
}

//@ inv (*Definition).Marshal
func invDefMarshal(s *Definition, b []byte, offset int) bool {
	x, y, c, k := spHeader(s)
	h := x + y + len(s.Name) + c + k + 1 + encoding.SpLen(s.Expiry)
	return offset <= len(b) && offset >= h && (len(s.DataTypes) > 0 || offset == h)
}

//@ ensures (*Definition).Marshal prop=C13 group=id
func ensDef_id(s *Definition, buf []byte, n int, err error) bool {
	a, b, c, k := spHeader(s)
	l := len(s.Name)
	_, _, _, _, _ = a, b, c, k, l
	return err != nil || encoding.SpIsEnc(buf, s.StickTableID, a)
}

//@ inv (*Definition).Marshal group=id
func invDef_id(s *Definition, b []byte, offset int) bool {
	buf := b
	return invDefid(s, buf)
}

func invDefid(s *Definition, buf []byte) bool {
	a, b, c, k := spHeader(s)
	l := len(s.Name)
	_, _, _, _, _ = a, b, c, k, l
	return encoding.SpIsEnc(buf, s.StickTableID, a)
}

//@ ensures (*Definition).Marshal prop=C13 group=nlen
func ensDef_nlen(s *Definition, buf []byte, n int, err error) bool {
	a, b, c, k := spHeader(s)
	l := len(s.Name)
	_, _, _, _, _ = a, b, c, k, l
	return err != nil || encoding.SpIsEnc(buf[a:], uint64(l), b)
}

//@ inv (*Definition).Marshal group=nlen
func invDef_nlen(s *Definition, b []byte, offset int) bool {
	buf := b
	return invDefnlen(s, buf)
}

func invDefnlen(s *Definition, buf []byte) bool {
	a, b, c, k := spHeader(s)
	l := len(s.Name)
	_, _, _, _, _ = a, b, c, k, l
	return encoding.SpIsEnc(buf[a:], uint64(l), b)
}

//@ ensures (*Definition).Marshal prop=C13 group=name hide=ensPutVarintForm
func ensDef_name(s *Definition, buf []byte, n int, err error) bool {
	a, b, c, k := spHeader(s)
	l := len(s.Name)
	_, _, _, _, _ = a, b, c, k, l
	return err != nil || vForall(0, l, func(i int) bool { return buf[a+b+i] == s.Name[i] })
}

//@ inv (*Definition).Marshal group=name
func invDef_name(s *Definition, b []byte, offset int) bool {
	buf := b
	return invDefname(s, buf)
}

func invDefname(s *Definition, buf []byte) bool {
	a, b, c, k := spHeader(s)
	l := len(s.Name)
	_, _, _, _, _ = a, b, c, k, l
	return vForall(0, l, func(i int) bool { return buf[a+b+i] == s.Name[i] })
}

//@ ensures (*Definition).Marshal prop=C13 group=ktype
func ensDef_ktype(s *Definition, buf []byte, n int, err error) bool {
	a, b, c, k := spHeader(s)
	l := len(s.Name)
	_, _, _, _, _ = a, b, c, k, l
	return err != nil || encoding.SpIsEnc(buf[a+b+l:], uint64(s.KeyType), c)
}

//@ inv (*Definition).Marshal group=ktype
func invDef_ktype(s *Definition, b []byte, offset int) bool {
	buf := b
	return invDefktype(s, buf)
}

func invDefktype(s *Definition, buf []byte) bool {
	a, b, c, k := spHeader(s)
	l := len(s.Name)
	_, _, _, _, _ = a, b, c, k, l
	return encoding.SpIsEnc(buf[a+b+l:], uint64(s.KeyType), c)
}

//@ ensures (*Definition).Marshal prop=C13 group=klen
func ensDef_klen(s *Definition, buf []byte, n int, err error) bool {
	a, b, c, k := spHeader(s)
	l := len(s.Name)
	_, _, _, _, _ = a, b, c, k, l
	return err != nil || encoding.SpIsEnc(buf[a+b+l+c:], s.KeyLength, k)
}

//@ inv (*Definition).Marshal group=klen
func invDef_klen(s *Definition, b []byte, offset int) bool {
	buf := b
	return invDefklen(s, buf)
}

func invDefklen(s *Definition, buf []byte) bool {
	a, b, c, k := spHeader(s)
	l := len(s.Name)
	_, _, _, _, _ = a, b, c, k, l
	return encoding.SpIsEnc(buf[a+b+l+c:], s.KeyLength, k)
}

//@ ensures (*Definition).Marshal prop=C13 group=types reveal=spByte,spLen
func ensDef_types(s *Definition, buf []byte, n int, err error) bool {
	a, b, c, k := spHeader(s)
	l := len(s.Name)
	_, _, _, _, _ = a, b, c, k, l
	return err != nil || len(s.DataTypes) > 0 || encoding.SpIsEnc(buf[a+b+l+c+k:], 0, 1)
}

//@ inv (*Definition).Marshal group=types
func invDef_types(s *Definition, b []byte, offset int) bool {
	buf := b
	return invDeftypes(s, buf)
}

func invDeftypes(s *Definition, buf []byte) bool {
	a, b, c, k := spHeader(s)
	l := len(s.Name)
	_, _, _, _, _ = a, b, c, k, l
	return len(s.DataTypes) > 0 || encoding.SpIsEnc(buf[a+b+l+c+k:], 0, 1)
}

//@ ensures (*Definition).Marshal prop=C13 group=expiry
func ensDef_expiry(s *Definition, buf []byte, n int, err error) bool {
	a, b, c, k := spHeader(s)
	l := len(s.Name)
	_, _, _, _, _ = a, b, c, k, l
	return err != nil || len(s.DataTypes) > 0 || encoding.SpIsEnc(buf[a+b+l+c+k+1:], s.Expiry, encoding.SpLen(s.Expiry))
}

//@ inv (*Definition).Marshal group=expiry
func invDef_expiry(s *Definition, b []byte, offset int) bool {
	buf := b
	return invDefexpiry(s, buf)
}

func invDefexpiry(s *Definition, buf []byte) bool {
	a, b, c, k := spHeader(s)
	l := len(s.Name)
	_, _, _, _, _ = a, b, c, k, l
	return len(s.DataTypes) > 0 || encoding.SpIsEnc(buf[a+b+l+c+k+1:], s.Expiry, encoding.SpLen(s.Expiry))
}

// A definition without data types is read back.
//
//@ lemma C13 hide=ensVarint inline=(*Definition).Unmarshal
func lemmaDefinitionHeader(v Definition, buf []byte) {
	v.DataTypes = nil
	s, d := v, Definition{}
	n, err := s.Marshal(buf)
	a, b, c, k := spHeader(&v)
	x := encoding.SpLen(v.Expiry)
	l := len(v.Name)
	vAssert("the definition is not changed", s.StickTableID == v.StickTableID && s.KeyType == v.KeyType && s.KeyLength == v.KeyLength && s.Expiry == v.Expiry && len(s.DataTypes) == 0)
	vAssert("there is an error exactly if the buffer is too small", (err == nil) == (len(buf) >= a+b+l+c+k+1+x))
	if err != nil {
		return
	}
	vAssert("the length is right", n == a+b+l+c+k+1+x)
	encoding.GDecoded(buf, v.StickTableID)
	encoding.GDecoded(buf[a:], uint64(l))
	encoding.GDecoded(buf[a+b+l:], uint64(v.KeyType))
	encoding.GDecoded(buf[a+b+l+c:], v.KeyLength)
	encoding.GDecoded(buf[a+b+l+c+k:], 0)
	encoding.GDecoded(buf[a+b+l+c+k+1:], v.Expiry)
	m, err := d.Unmarshal(buf)
	vAssert("what was encoded is decoded", err == nil)
	vAssert("exactly the encoded bytes are decoded", m == n)
	vAssert("the numbers are read back", d.StickTableID == v.StickTableID && d.KeyType == v.KeyType && d.KeyLength == v.KeyLength && d.Expiry == v.Expiry && len(d.DataTypes) == 0)
	vAssert("the name is read back", d.Name == v.Name)
}
