package sticktable

// ---- decoding hostile bytes

// spRate: the data types that are rates over a period.
func spRate(d DataType) bool {
	return d == 3 || d == 5 || d == 8 || d == 10 || d == 12 || d == 14 || d == 16 || d == 18 || d == 21 || d == 26
}

// spArray: the array data types.
func spArray(d DataType) bool { return d >= 22 && d <= 24 }

//@ ensures (DataType).IsDelay prop=C13
func ensIsDelay(d DataType, r bool) bool { return spArray(d) || r == spRate(d) }

//@ ensures (DataType).New prop=C14,C15 fresh=yes
func ensDataNew(d DataType, r MapData) bool {
	_, signed := r.(*SignedIntegerData)
	_, ull := r.(*UnsignedLongLongData)
	_, freq := r.(*FreqData)
	_, dict := r.(*DictData)
	_, uint := r.(*UnsignedIntegerData)
	_, entry := r.(*EntryUpdate)
	return !entry && (r == nil) == !(d >= 0 && d <= 26) && (r == nil || spArray(d) ||
		signed == (d == 0) && ull == (d == 13 || d == 15) && freq == spRate(d) && dict == (d == 19) && uint == !(signed || ull || freq || dict))
}

//@ ensures (KeyType).New prop=C14,C15 fresh=yes
func ensKeyNew(t KeyType, r MapKey) bool {
	_, signed := r.(*SignedIntegerKey)
	_, v4 := r.(*IPv4AddressKey)
	_, v6 := r.(*IPv6AddressKey)
	_, str := r.(*StringKey)
	_, bin := r.(*BinaryKey)
	return signed == (t == 2) && v4 == (t == 4) && v6 == (t == 5) && str == (t == 6) && bin == (t == 7) &&
		(r == nil) == !(signed || v4 || v6 || str || bin)
}

//@ modifies iface:peers/sticktable.MapKey.Unmarshal module=yes
func modKeyUnmarshal(k MapKey, b []byte, keySize uint64) { vModObj(k) }

//@ ensures iface:peers/sticktable.MapKey.Unmarshal prop=C15 alloc=b hide=ensVarint
func ensKeyUnmarshal(k MapKey, b []byte, keySize uint64, n int, err error) bool {
	return n >= 0 && n <= len(b)
}

// An entry update has the same methods but is no value.
//
//@ requires iface:peers/sticktable.MapData.Unmarshal
func reqDataUnmarshal(d MapData, b []byte) bool {
	_, entry := d.(*EntryUpdate)
	return !entry
}

//@ modifies iface:peers/sticktable.MapData.Unmarshal module=yes
func modDataUnmarshal(d MapData, b []byte) { vModObj(d) }

//@ ensures iface:peers/sticktable.MapData.Unmarshal prop=C15 alloc=b hide=ensVarint
func ensDataUnmarshal(d MapData, b []byte, n int, err error) bool {
	return n >= 0 && n <= len(b)
}

//@ modifies (*Definition).Unmarshal
func modDefUnmarshal(s *Definition, b []byte) {
	vMod(s)
	vModElems(s.DataTypes[len(s.DataTypes):cap(s.DataTypes)])
}

//@ grows (*Definition).Unmarshal append=yes
func grwDefUnmarshal(s *Definition, b []byte) *[]DataTypeDefinition { return &s.DataTypes }

//@ ensures (*Definition).Unmarshal prop=C15 alloc=b hide=ensVarint
func ensDefUnmarshal(s *Definition, b []byte, n int, err error) bool {
	return n >= 0 && n <= len(b) && (err != nil || len(s.Name) <= n)
}

//@ inv (*Definition).Unmarshal
func invDefUnmarshal(b []byte, offset int, i int) bool {
	return offset >= 0 && offset <= len(b) && i >= 0 && i <= 64
}

//@ inv (*Definition).Unmarshal
func invDefTypes(s *Definition) bool {
	was := vOld(func() []DataTypeDefinition { return s.DataTypes })
	return vAppended(s.DataTypes, was) && len(s.DataTypes) >= len(was)
}

//@ requires (*EntryUpdate).Unmarshal
func reqEntryUnmarshal(e *EntryUpdate, b []byte) bool { return e.StickTable != nil }

//@ modifies (*EntryUpdate).Unmarshal
func modEntryUnmarshal(e *EntryUpdate, b []byte) {
	vMod(e)
	vModElems(e.Data[len(e.Data):cap(e.Data)])
}

//@ grows (*EntryUpdate).Unmarshal append=yes
func grwEntryUnmarshal(e *EntryUpdate, b []byte) *[]MapData { return &e.Data }

//@ ensures (*EntryUpdate).Unmarshal prop=C15 alloc=b
func ensEntryUnmarshal(e *EntryUpdate, b []byte, n int, err error) bool {
	return n >= 0 && n <= len(b) && e.StickTable == vOld(func() *Definition { return e.StickTable }) &&
		(err != nil || e.Key != nil && len(e.Data) == vOld(func() int { return len(e.Data) })+len(e.StickTable.DataTypes))
}

//@ inv (*EntryUpdate).Unmarshal
func invEntryUnmarshal(b []byte, offset int) bool {
	return offset >= 0 && offset <= len(b)
}

//@ inv (*EntryUpdate).Unmarshal
func invEntryData(e *EntryUpdate) bool {
	was := vOld(func() []MapData { return e.Data })
	return vAppended(e.Data, was) && len(e.Data) >= len(was)
}

//@ inv (*EntryUpdate).Unmarshal
func invEntryCount(e *EntryUpdate, rangeindex int) bool {
	return len(e.Data) == vOld(func() int { return len(e.Data) })+rangeindex+1
}
