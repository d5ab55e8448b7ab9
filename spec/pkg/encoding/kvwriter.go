package encoding

import (
	"bytes"
	"net/netip"
)

// ---- the key/value writer

func okKVWriter(w *KVWriter) bool { return w.off >= 0 && w.off <= len(w.data) }

//@ requires (*KVWriter).writeKey
func reqWriteKey(w *KVWriter, name []byte) bool {
	return okKVWriter(w) && vDisjoint(w.data, name)
}

//@ modifies (*KVWriter).writeKey
func modWriteKey(w *KVWriter, name []byte) {
	vMod(&w.off)
	vModBytes(w.data[w.off:])
}

//@ ensures (*KVWriter).writeKey prop=C03
func ensWriteKey(w *KVWriter, name []byte, err error) bool {
	o := vOld(func() int { return w.off })
	n := spLen(uint64(len(name))) + len(name)
	if n >= len(w.data)-o {
		return err != nil && w.off == o
	}
	return err == nil && w.off == o+n && spIsBytes(w.data[o:], name, n)
}

// spIsStr: b starts with the n byte length prefixed form of v.
func spIsStr(b []byte, v string, n int) bool {
	return n == spLen(uint64(len(v)))+len(v) && n <= len(b) && spIsEnc(b, uint64(len(v)), n-len(v)) &&
		vForall(0, len(v), func(i int) bool { return b[n-len(v)+i] == v[i] })
}

// spKeyLen: the bytes that an entry takes before its value.
func spKeyLen(name string) int { return spLen(uint64(len(name))) + len(name) + 1 }

// spKey: b starts with name and the type byte t.
func spKey(b []byte, name string, t byte) bool {
	n := spKeyLen(name)
	return n <= len(b) && spIsStr(b, name, n-1) && b[n-1] == t
}

// spSet: the state after a call that was to write an entry of need bytes.
func spSet(w *KVWriter, o, need int, err error) bool {
	if need > len(w.data)-o {
		return err != nil && w.off == o
	}
	return err == nil && w.off == o+need
}

// spIntAt: the varint v is at b[n:].
func spIntAt(b []byte, n int, v uint64) bool {
	return n <= len(b) && spIsEnc(b[n:], v, spLen(v))
}

//@ requires (*KVWriter).setInt
func reqSetInt(w *KVWriter, name string, d DataType, v int64) bool {
	return okKVWriter(w) && vDisjoint(w.data, name)
}

//@ modifies (*KVWriter).setInt
func modSetInt(w *KVWriter, name string, d DataType, v int64) {
	vMod(&w.off)
	vModBytes(w.data[w.off:])
}

//@ ensures (*KVWriter).setInt prop=C03
func ensSetInt(w *KVWriter, name string, d DataType, v int64, err error) bool {
	o := vOld(func() int { return w.off })
	b := w.data[o:]
	n := spKeyLen(name)
	return spSet(w, o, n+spLen(uint64(v)), err) && (err != nil || spKey(b, name, byte(d)) && spIntAt(b, n, uint64(v)))
}

//@ requires (*KVWriter).SetInt32
func reqSetInt32(w *KVWriter, name string, v int32) bool {
	return okKVWriter(w) && vDisjoint(w.data, name)
}

//@ modifies (*KVWriter).SetInt32
func modSetInt32(w *KVWriter, name string, v int32) {
	vMod(&w.off)
	vModBytes(w.data[w.off:])
}

//@ ensures (*KVWriter).SetInt32 prop=C03
func ensSetInt32(w *KVWriter, name string, v int32, err error) bool {
	o := vOld(func() int { return w.off })
	b := w.data[o:]
	n := spKeyLen(name)
	x := uint64(int64(v))
	return spSet(w, o, n+spLen(x), err) && (err != nil || spKey(b, name, byte(DataTypeInt32)) && spIntAt(b, n, x))
}

//@ requires (*KVWriter).SetUInt32
func reqSetUInt32(w *KVWriter, name string, v uint32) bool {
	return okKVWriter(w) && vDisjoint(w.data, name)
}

//@ modifies (*KVWriter).SetUInt32
func modSetUInt32(w *KVWriter, name string, v uint32) {
	vMod(&w.off)
	vModBytes(w.data[w.off:])
}

//@ ensures (*KVWriter).SetUInt32 prop=C03
func ensSetUInt32(w *KVWriter, name string, v uint32, err error) bool {
	o := vOld(func() int { return w.off })
	b := w.data[o:]
	n := spKeyLen(name)
	x := uint64(int64(v))
	return spSet(w, o, n+spLen(x), err) && (err != nil || spKey(b, name, byte(DataTypeUInt32)) && spIntAt(b, n, x))
}

//@ requires (*KVWriter).SetInt64
func reqSetInt64(w *KVWriter, name string, v int64) bool {
	return okKVWriter(w) && vDisjoint(w.data, name)
}

//@ modifies (*KVWriter).SetInt64
func modSetInt64(w *KVWriter, name string, v int64) {
	vMod(&w.off)
	vModBytes(w.data[w.off:])
}

//@ ensures (*KVWriter).SetInt64 prop=C03
func ensSetInt64(w *KVWriter, name string, v int64, err error) bool {
	o := vOld(func() int { return w.off })
	b := w.data[o:]
	n := spKeyLen(name)
	x := uint64(int64(v))
	return spSet(w, o, n+spLen(x), err) && (err != nil || spKey(b, name, byte(DataTypeInt64)) && spIntAt(b, n, x))
}

//@ requires (*KVWriter).SetUInt64
func reqSetUInt64(w *KVWriter, name string, v uint64) bool {
	return okKVWriter(w) && vDisjoint(w.data, name)
}

//@ modifies (*KVWriter).SetUInt64
func modSetUInt64(w *KVWriter, name string, v uint64) {
	vMod(&w.off)
	vModBytes(w.data[w.off:])
}

//@ ensures (*KVWriter).SetUInt64 prop=C03
func ensSetUInt64(w *KVWriter, name string, v uint64, err error) bool {
	o := vOld(func() int { return w.off })
	b := w.data[o:]
	n := spKeyLen(name)
	x := uint64(int64(v))
	return spSet(w, o, n+spLen(x), err) && (err != nil || spKey(b, name, byte(DataTypeUInt64)) && spIntAt(b, n, x))
}

//@ requires (*KVWriter).SetNull
func reqSetNull(w *KVWriter, name string) bool { return okKVWriter(w) && vDisjoint(w.data, name) }

//@ modifies (*KVWriter).SetNull
func modSetNull(w *KVWriter, name string) {
	vMod(&w.off)
	vModBytes(w.data[w.off:])
}

//@ ensures (*KVWriter).SetNull prop=C03
func ensSetNull(w *KVWriter, name string, err error) bool {
	o := vOld(func() int { return w.off })
	return spSet(w, o, spKeyLen(name), err) && (err != nil || spKey(w.data[o:], name, byte(DataTypeNull)))
}

//@ requires (*KVWriter).SetBool
func reqSetBool(w *KVWriter, name string, v bool) bool {
	return okKVWriter(w) && vDisjoint(w.data, name)
}

//@ modifies (*KVWriter).SetBool
func modSetBool(w *KVWriter, name string, v bool) {
	vMod(&w.off)
	vModBytes(w.data[w.off:])
}

func spBoolType(v bool) byte {
	if v {
		return byte(DataTypeBool) | 0x10
	}
	return byte(DataTypeBool)
}

//@ ensures (*KVWriter).SetBool prop=C03
func ensSetBool(w *KVWriter, name string, v bool, err error) bool {
	o := vOld(func() int { return w.off })
	return spSet(w, o, spKeyLen(name), err) && (err != nil || spKey(w.data[o:], name, spBoolType(v)))
}

//@ requires (*KVWriter).SetAddr
func reqSetAddr(w *KVWriter, name string, v netip.Addr) bool {
	return okKVWriter(w) && vDisjoint(w.data, name)
}

//@ modifies (*KVWriter).SetAddr
func modSetAddr(w *KVWriter, name string, v netip.Addr) {
	vMod(&w.off)
	vModBytes(w.data[w.off:])
}

func spAddrType(v netip.Addr) byte {
	if v.Is4() {
		return byte(DataTypeIPV4)
	}
	return byte(DataTypeIPV6)
}

//@ ensures (*KVWriter).SetAddr prop=C03
func ensSetAddr(w *KVWriter, name string, v netip.Addr, err error) bool {
	o := vOld(func() int { return w.off })
	b := w.data[o:]
	n := spKeyLen(name)
	if !v.IsValid() {
		return err != nil && w.off == o
	}
	return spSet(w, o, n+spAddrLen(v), err) && (err != nil || spKey(b, name, spAddrType(v)) && spIsAddr(b[n:], v))
}

//@ requires (*KVWriter).SetString
func reqSetString(w *KVWriter, name, v string) bool {
	return okKVWriter(w) && vDisjoint(w.data, name) && vDisjoint(w.data, v)
}

//@ modifies (*KVWriter).SetString
func modSetString(w *KVWriter, name, v string) {
	vMod(&w.off)
	vModBytes(w.data[w.off:])
}

//@ ensures (*KVWriter).SetString prop=C03
func ensSetString(w *KVWriter, name, v string, err error) bool {
	o := vOld(func() int { return w.off })
	b := w.data[o:]
	n := spKeyLen(name)
	l := spLen(uint64(len(v))) + len(v)
	return spSet(w, o, n+l, err) && (err != nil || spKey(b, name, byte(DataTypeString)) && spIsStr(b[n:], v, l))
}

//@ requires (*KVWriter).SetBinary
func reqSetBinary(w *KVWriter, name string, v []byte) bool {
	return okKVWriter(w) && vDisjoint(w.data, name) && vDisjoint(w.data, v)
}

//@ modifies (*KVWriter).SetBinary
func modSetBinary(w *KVWriter, name string, v []byte) {
	vMod(&w.off)
	vModBytes(w.data[w.off:])
}

//@ ensures (*KVWriter).SetBinary prop=C03
func ensSetBinary(w *KVWriter, name string, v []byte, err error) bool {
	o := vOld(func() int { return w.off })
	b := w.data[o:]
	n := spKeyLen(name)
	l := spLen(uint64(len(v))) + len(v)
	return spSet(w, o, n+l, err) && (err != nil || spKey(b, name, byte(DataTypeBinary)) && spIsBytes(b[n:], v, l))
}

// ---- what the writer's postconditions describe is read back unchanged

// xSkipKey is what follows name and the type byte in b, at the positions that
// the scanner arrives at.
func xSkipKey(b []byte, name string) []byte {
	k, m, err := Varint(b)
	gDecoded(b, uint64(len(name)), k, m, err)
	return b[m:][k:][1:]
}

// xRead reads the entry that b starts with; it takes c bytes.
func xRead(b []byte, name string, t DataType, c int) *KVEntry {
	k, m, err := Varint(b)
	gDecoded(b, uint64(len(name)), k, m, err)
	e := &KVEntry{}
	s := NewKVScanner(b, 1)
	vAssert("the entry is accepted", s.Next(e))
	vAssert("the entry's bytes are consumed exactly", s.RemainingBuf() == len(b)-c)
	vAssert("the name is read back", e.NameEqualBytes([]byte(name)))
	vAssert("the type is read back", e.Type() == t)
	return e
}

//@ lemma C03 inline=(*KVScanner).Next concrete=no
func lemmaReadNull(b []byte, name string) {
	vAssume(spKey(b, name, byte(DataTypeNull)))
	e := xRead(b, name, DataTypeNull, spKeyLen(name))
	vAssert("null is read back", e.Value() == nil)
}

//@ lemma C03 inline=(*KVScanner).Next concrete=no
func lemmaReadBool(b []byte, name string, v bool) {
	vAssume(spKey(b, name, spBoolType(v)))
	e := xRead(b, name, DataTypeBool, spKeyLen(name))
	vAssert("the boolean is read back", e.ValueBool() == v)
	vAssert("the typed value is read back", e.Value() == any(v))
}

// xReadInt reads back an integer entry.
func xReadInt(b []byte, name string, t DataType, v int64) *KVEntry {
	n := spKeyLen(name)
	vAssume(spKey(b, name, byte(t)) && spIntAt(b, n, uint64(v)))
	r := xSkipKey(b, name)
	k, m, err := Varint(r)
	gDecoded(r, uint64(v), k, m, err)
	e := xRead(b, name, t, n+m)
	vAssert("the integer is read back", e.ValueInt() == v)
	return e
}

//@ lemma C03 inline=(*KVScanner).Next concrete=no
func lemmaReadInt32(b []byte, name string, v int32) {
	e := xReadInt(b, name, DataTypeInt32, int64(v))
	vAssert("the typed value is read back", e.Value() == any(v))
}

//@ lemma C03 inline=(*KVScanner).Next concrete=no
func lemmaReadUInt32(b []byte, name string, v uint32) {
	e := xReadInt(b, name, DataTypeUInt32, int64(v))
	vAssert("the typed value is read back", e.Value() == any(v))
}

//@ lemma C03 inline=(*KVScanner).Next concrete=no
func lemmaReadInt64(b []byte, name string, v int64) {
	e := xReadInt(b, name, DataTypeInt64, v)
	vAssert("the typed value is read back", e.Value() == any(v))
}

//@ lemma C03 inline=(*KVScanner).Next concrete=no
func lemmaReadUInt64(b []byte, name string, v uint64) {
	e := xReadInt(b, name, DataTypeUInt64, int64(v))
	vAssert("the typed value is read back", e.Value() == any(v))
}

//@ lemma C03 inline=(*KVScanner).Next concrete=no
func lemmaReadAddr(b []byte, name string, v netip.Addr) {
	vAssume(v.IsValid() && v.Zone() == "")
	n := spKeyLen(name)
	vAssume(spKey(b, name, spAddrType(v)) && spIsAddr(b[n:], v))
	e := xRead(b, name, DataType(spAddrType(v)), n+spAddrLen(v))
	vAssert("the address is read back", e.ValueAddr() == v)
}

//@ lemma C03 inline=(*KVScanner).Next concrete=no
func lemmaReadString(b []byte, name, v string) {
	n := spKeyLen(name)
	l := spLen(uint64(len(v)))
	vAssume(spKey(b, name, byte(DataTypeString)) && spIsStr(b[n:], v, l+len(v)))
	r := xSkipKey(b, name)
	k, m, err := Varint(r)
	gDecoded(r, uint64(len(v)), k, m, err)
	e := xRead(b, name, DataTypeString, n+l+len(v))
	vAssert("the string is read back", bytes.Equal(e.ValueBytes(), []byte(v)))
}

//@ lemma C03 inline=(*KVScanner).Next concrete=no
func lemmaReadBinary(b []byte, name string, v []byte) {
	n := spKeyLen(name)
	l := spLen(uint64(len(v)))
	vAssume(spKey(b, name, byte(DataTypeBinary)) && spIsBytes(b[n:], v, l+len(v)))
	r := xSkipKey(b, name)
	k, m, err := Varint(r)
	gDecoded(r, uint64(len(v)), k, m, err)
	e := xRead(b, name, DataTypeBinary, n+l+len(v))
	vAssert("the bytes are read back", bytes.Equal(e.ValueBytes(), v))
}
