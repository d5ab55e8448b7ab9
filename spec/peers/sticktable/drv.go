package sticktable

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"net/netip"
	"reflect"
	"runtime"
)

// ---- reference: which types have a period, and how values look on the wire

var dRates = map[DataType]bool{DataTypeGPC0Rate: true, DataTypeConnectionRate: true, DataTypeSessionRate: true, DataTypeHttpRequestsRate: true,
	DataTypeErrorsRate: true, DataTypeBytesInRate: true, DataTypeBytesOutRate: true, DataTypeGPC1Rate: true, DataTypeHttpFailRate: true, DataTypeGlitchRate: true}

var dNumbers = []DataType{DataTypeServerId, DataTypeGPT0, DataTypeGPC0, DataTypeGPC0Rate, DataTypeConnectionsCounter, DataTypeConnectionRate,
	DataTypeNumberOfCurrentConnections, DataTypeSessionsCounter, DataTypeSessionRate, DataTypeHttpRequestsCounter, DataTypeHttpRequestsRate,
	DataTypeErrorsCounter, DataTypeErrorsRate, DataTypeBytesInCounter, DataTypeBytesInRate, DataTypeBytesOutCounter, DataTypeBytesOutRate,
	DataTypeGPC1, DataTypeGPC1Rate, DataTypeServerKey, DataTypeHttpFailCounter, DataTypeHttpFailRate}

// the protocol numbers of the types
func dTypes() []DataType {
	l := append([]DataType{}, dNumbers...)
	for i, d := range l {
		vAssert("the data types have their protocol numbers", int(d) == i)
	}
	vAssert("the data types have their protocol numbers", DataTypeGlitchCounter == 25 && DataTypeGlitchRate == 26)
	return append(l, DataTypeGlitchCounter, DataTypeGlitchRate)
}

func (r *vRand) definition() *Definition {
	d := &Definition{Name: string(r.bytes(300)), StickTableID: r.u64(), KeyLength: r.u64(), Expiry: r.u64()}
	d.KeyType = []KeyType{KeyTypeSignedInteger, KeyTypeIPv4Address, KeyTypeIPv6Address, KeyTypeString, KeyTypeBinary}[r.Intn(5)]
	p := 1 + r.Intn(12)
	for _, t := range dTypes() {
		if r.Intn(p) == 0 {
			x := DataTypeDefinition{DataType: t}
			if dRates[t] {
				x.Counter, x.Period = r.u64(), r.u64()
			}
			d.DataTypes = append(d.DataTypes, x)
		}
	}
	return d
}

func dEncode(d *Definition) []byte {
	out := append(vVarint(d.StickTableID), vBlob([]byte(d.Name))...)
	out = append(append(out, vVarint(uint64(d.KeyType))...), vVarint(d.KeyLength)...)
	var bits uint64
	for _, t := range d.DataTypes {
		bits |= 1 << t.DataType
	}
	out = append(append(out, vVarint(bits)...), vVarint(d.Expiry)...)
	for _, t := range d.DataTypes {
		if dRates[t.DataType] {
			out = append(append(out, vVarint(t.Counter)...), vVarint(t.Period)...)
		}
	}
	return out
}

func dSameDef(a, b *Definition) bool {
	return a.StickTableID == b.StickTableID && a.Name == b.Name && a.KeyType == b.KeyType && a.KeyLength == b.KeyLength && a.Expiry == b.Expiry &&
		len(a.DataTypes) == len(b.DataTypes) && (len(a.DataTypes) == 0 || reflect.DeepEqual(a.DataTypes, b.DataTypes))
}

// buffer is a buffer of n bytes with n+k capacity, filled with noise.
func (r *vRand) buffer(n int) (b, back []byte) {
	back = r.kvRaw(n + 1 + r.Intn(8))
	return back[:n], append([]byte{}, back...)
}

// dMarshal runs enc on buffers that suffice and that do not.
func dMarshal(r *vRand, want []byte, fits bool, enc func([]byte) (int, error)) []byte {
	size := len(want)
	switch r.Intn(3) {
	case 0:
		size += r.Intn(20)
	case 1:
		size = r.Intn(len(want) + 1)
		if r.Intn(2) == 0 && len(want) > 0 {
			size = len(want) - 1
		}
	}
	b, back := r.buffer(size)
	n, err := enc(b)
	full := b[:size+1]
	vAssert("nothing is written behind the buffer", bytes.Equal(full[size:], back[size:size+1]))
	if !fits {
		vAssert("what cannot be encoded is an error", err != nil)
		return nil
	}
	vAssert("encoding fails exactly when the buffer is too small", (err != nil) == (size < len(want)))
	if err != nil {
		return nil
	}
	vAssert("the encoding is exact", n == len(want) && bytes.Equal(b[:n], want))
	vAssert("nothing is written behind the encoding", bytes.Equal(b[n:], back[n:size]))
	return append(append([]byte{}, b[:n]...), r.kvRaw(r.Intn(10))...)
}

//@ driver C13
func drvDefinition(r *vRand) {
	d := r.definition()
	before := *d
	before.DataTypes = append([]DataTypeDefinition{}, d.DataTypes...)
	want := dEncode(d)
	b := dMarshal(r, want, true, d.Marshal)
	vAssert("encoding leaves the definition alone", dSameDef(d, &before))
	if b == nil {
		return
	}
	var e Definition
	n, err := e.Unmarshal(b)
	vAssert("a definition can be read back", err == nil)
	vAssert("reading uses exactly the written bytes", n == len(want))
	vAssert("a definition is read back unchanged", dSameDef(d, &e))
}

func (r *vRand) key(t KeyType, fit bool) (k MapKey, size uint64, enc []byte) {
	size = r.u64()
	switch t {
	case KeyTypeSignedInteger:
		v := SignedIntegerKey(r.u64())
		k, enc = &v, binary.BigEndian.AppendUint32(nil, uint32(v))
	case KeyTypeIPv4Address:
		a := r.addr()
		if fit && !a.Is4() {
			a = netip.AddrFrom4([4]byte(r.kvRaw(4)))
		}
		v := IPv4AddressKey(a)
		k = &v
		if fit || r.Intn(2) == 0 {
			size = 4
		}
		if size == 4 && (a.Is4() || a.Is4In6()) {
			x := a.As4()
			enc = x[:]
		}
	case KeyTypeIPv6Address:
		a := r.addr()
		if fit && (!a.Is6() || a.Zone() != "") {
			a = netip.AddrFrom16([16]byte(r.kvRaw(16)))
		}
		v := IPv6AddressKey(a)
		k = &v
		if fit || r.Intn(2) == 0 {
			size = 16
		}
		if size == 16 && a.IsValid() {
			x := a.As16()
			enc = x[:]
		}
	case KeyTypeString:
		s := r.bytes(300)
		v := StringKey(s)
		k, enc = &v, vBlob(s)
	case KeyTypeBinary:
		s := r.bytes(60)
		v := BinaryKey(s)
		k = &v
		if fit || r.Intn(2) == 0 {
			size = uint64(len(s))
		}
		if size == uint64(len(s)) {
			enc = append([]byte{}, s...)
		}
	}
	return k, size, enc
}

// dKeySame: as values; an IPv4 key read back from a mapped address is plain.
func dKeySame(a, b MapKey) bool {
	switch x := a.(type) {
	case *SignedIntegerKey:
		y, ok := b.(*SignedIntegerKey)
		return ok && *x == *y
	case *IPv4AddressKey:
		y, ok := b.(*IPv4AddressKey)
		return ok && netip.Addr(*x).Unmap() == netip.Addr(*y)
	case *IPv6AddressKey:
		y, ok := b.(*IPv6AddressKey)
		return ok && netip.AddrFrom16(netip.Addr(*x).As16()) == netip.Addr(*y)
	case *StringKey:
		y, ok := b.(*StringKey)
		return ok && *x == *y
	case *BinaryKey:
		y, ok := b.(*BinaryKey)
		return ok && bytes.Equal(*x, *y)
	}
	return false
}

func (r *vRand) data(t DataType) (MapData, []byte) {
	switch {
	case dRates[t]:
		v := &FreqData{CurrentTick: r.u64(), CurrentPeriod: r.u64(), LastPeriod: r.u64()}
		return v, append(append(vVarint(v.CurrentTick), vVarint(v.CurrentPeriod)...), vVarint(v.LastPeriod)...)
	case t == DataTypeServerId:
		v := SignedIntegerData(r.u64())
		return &v, vVarint(uint64(int64(v)))
	case t == DataTypeBytesInCounter || t == DataTypeBytesOutCounter:
		v := UnsignedLongLongData(r.u64())
		return &v, vVarint(uint64(v))
	case t == DataTypeServerKey:
		v := &DictData{ID: r.u64()}
		if r.Intn(3) == 0 {
			v.ID = 0
		}
		if r.Intn(2) == 0 {
			v.Value = r.bytes(300)
		}
		if v.ID == 0 && len(v.Value) == 0 {
			return v, []byte{0}
		}
		in := vVarint(v.ID)
		if len(v.Value) > 0 {
			in = append(in, vBlob(v.Value)...)
		}
		return v, vBlob(in)
	}
	v := UnsignedIntegerData(r.u64())
	return &v, vVarint(uint64(v))
}

func dDataSame(a, b MapData) bool {
	if reflect.TypeOf(a) != reflect.TypeOf(b) {
		return false
	}
	if x, ok := a.(*DictData); ok {
		y := b.(*DictData)
		return x.ID == y.ID && bytes.Equal(x.Value, y.Value)
	}
	return reflect.DeepEqual(a, b)
}

var dKeyTypes = []KeyType{KeyTypeSignedInteger, KeyTypeIPv4Address, KeyTypeIPv6Address, KeyTypeString, KeyTypeBinary}

//@ driver C14
func drvKeyValue(r *vRand) {
	t := dKeyTypes[r.Intn(5)]
	vAssert("the key types have their protocol numbers", int(t) == []int{2, 4, 5, 6, 7}[map[KeyType]int{dKeyTypes[0]: 0, dKeyTypes[1]: 1, dKeyTypes[2]: 2, dKeyTypes[3]: 3, dKeyTypes[4]: 4}[t]])
	k, size, enc := r.key(t, false)
	before := fmt.Sprint(k)
	b := dMarshal(r, enc, enc != nil, func(b []byte) (int, error) { return k.Marshal(b, size) })
	vAssert("encoding leaves the key alone", before == fmt.Sprint(k))
	if b != nil {
		x := t.New()
		vAssert("a supported key type has a value", x != nil)
		n, err := x.Unmarshal(b, size)
		vAssert("a key can be read back", err == nil)
		vAssert("reading a key uses exactly the written bytes", n == len(enc))
		vAssert("a key is read back unchanged", dKeySame(k, x))
	}
	l := dTypes()
	dt := l[r.Intn(len(l))]
	d, enc := r.data(dt)
	before = fmt.Sprint(d)
	b = dMarshal(r, enc, true, d.Marshal)
	vAssert("encoding leaves the value alone", before == fmt.Sprint(d))
	if b != nil {
		x := dt.New()
		vAssert("a supported data type has a value", x != nil)
		n, err := x.Unmarshal(b)
		vAssert("a value can be read back", err == nil)
		vAssert("reading a value uses exactly the written bytes", n == len(enc))
		vAssert("a value is read back unchanged", dDataSame(d, x))
	}
}

//@ driver C14
func drvEntry(r *vRand) {
	def := r.definition()
	k, size, enc := r.key(def.KeyType, true)
	def.KeyLength = size
	e := &EntryUpdate{StickTable: def, Key: k, WithLocalUpdateID: r.Intn(2) == 0, LocalUpdateID: uint32(r.u64()), WithExpiry: r.Intn(2) == 0, Expiry: uint32(r.u64())}
	var want []byte
	if e.WithLocalUpdateID {
		want = binary.BigEndian.AppendUint32(want, e.LocalUpdateID)
	}
	if e.WithExpiry {
		want = binary.BigEndian.AppendUint32(want, e.Expiry)
	}
	want = append(want, enc...)
	for _, t := range def.DataTypes {
		d, b := r.data(t.DataType)
		e.Data = append(e.Data, d)
		want = append(want, b...)
	}
	before := fmt.Sprint(e, e.Expiry, e.WithExpiry, e.WithLocalUpdateID, *def)
	b := dMarshal(r, want, true, e.Marshal)
	vAssert("encoding leaves the entry alone", before == fmt.Sprint(e, e.Expiry, e.WithExpiry, e.WithLocalUpdateID, *def))
	if b == nil {
		return
	}
	id, exp := uint32(r.u64()), uint32(r.u64())
	x := &EntryUpdate{StickTable: def, WithLocalUpdateID: e.WithLocalUpdateID, WithExpiry: e.WithExpiry, LocalUpdateID: id, Expiry: exp}
	n, err := x.Unmarshal(b)
	vAssert("an entry can be read back", err == nil)
	vAssert("reading an entry uses exactly the written bytes", n == len(want))
	if e.WithLocalUpdateID {
		id = e.LocalUpdateID
	}
	if e.WithExpiry {
		exp = e.Expiry
	}
	vAssert("the update id is read back", x.LocalUpdateID == id)
	vAssert("the expiry is read back", x.Expiry == exp)
	vAssert("the key is read back", dKeySame(e.Key, x.Key))
	vAssert("all data is read back", len(x.Data) == len(e.Data))
	for i := range e.Data {
		vAssert("the data is read back", dDataSame(e.Data[i], x.Data[i]))
	}
	// a key that does not fit is an error
	def2 := *def
	if def.KeyType == KeyTypeIPv4Address || def.KeyType == KeyTypeIPv6Address || def.KeyType == KeyTypeBinary {
		def2.KeyLength = size + 1 + uint64(r.Intn(4))
		e.StickTable = &def2
		_, err := e.Marshal(make([]byte, len(want)+20))
		vAssert("a key that does not fit is an error", err != nil)
	}
}

// dAllocated runs f and returns what it allocated (about).
func dAllocated(f func()) uint64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return b.TotalAlloc - a.TotalAlloc
}

// dWithin: s lies within b, or is a copy no longer than it.
func dBytesOK(s, b []byte) bool {
	return len(s) <= len(b) && (len(s) == 0 || bytes.Contains(b, s))
}

//@ driver C15
func drvHostileTables(r *vRand) {
	var in []byte
	def := r.definition()
	if r.Intn(2) == 0 {
		in = dEncode(def)
		if r.Intn(3) > 0 {
			in = r.spoilt(in)
		}
	} else {
		in = r.bytes(80)
	}
	if r.Intn(4) == 0 {
		in = append(in, r.bytes(10)...)
	}
	b, back := r.buffer(len(in))
	copy(b, in)
	copy(back, in)
	check := func(n int, err error) {
		vAssert("a decoder reports at most what it was given", n >= 0 && n <= len(b))
		vAssert("decoding leaves the input alone", bytes.Equal(b[:len(b)+1], back[:len(b)+1]))
	}
	var d Definition
	run := func(f func()) {
		if r.Intn(8) == 0 {
			got := dAllocated(f)
			vAssert("decoding reserves memory in proportion to its input", got < 1<<16+64*uint64(len(b)))
		} else {
			f()
		}
	}
	run(func() {
		n, err := d.Unmarshal(b)
		check(n, err)
		if err == nil {
			vAssert("the name lies within the input", dBytesOK([]byte(d.Name), b[:n]))
		}
	})
	e := &EntryUpdate{StickTable: def, WithLocalUpdateID: r.Intn(2) == 0, WithExpiry: r.Intn(2) == 0}
	if r.Intn(2) == 0 {
		def.KeyType = KeyType(r.Intn(12))
	}
	if r.Intn(20) == 0 {
		def.KeyType = KeyType(r.u64())
	}
	switch r.Intn(4) {
	case 0:
		def.KeyLength = 4
	case 1:
		def.KeyLength = 16
	case 2:
		def.KeyLength = uint64(r.Intn(len(in) + 2))
	}
	if r.Intn(2) == 0 {
		for k := r.Intn(4); k > 0; k-- {
			t := DataType(r.Intn(30))
			if r.Intn(20) == 0 {
				t = DataType(r.u64())
			}
			def.DataTypes = append(def.DataTypes, DataTypeDefinition{DataType: t})
		}
	}
	if r.Intn(2) == 0 {
		in = nil
		if e.WithLocalUpdateID {
			in = append(in, r.kvRaw(4)...)
		}
		if e.WithExpiry {
			in = append(in, r.kvRaw(4)...)
		}
		for _, k := range dKeyTypes {
			if k == def.KeyType {
				_, size, enc := r.key(k, true)
				if r.Intn(4) > 0 {
					def.KeyLength = size
				}
				in = append(in, enc...)
			}
		}
		for _, t := range def.DataTypes {
			_, enc := r.data(t.DataType)
			in = append(in, enc...)
		}
		if r.Intn(3) > 0 {
			in = r.spoilt(in)
		}
		b, back = r.buffer(len(in))
		copy(b, in)
		copy(back, in)
	}
	run(func() {
		n, err := e.Unmarshal(b)
		check(n, err)
		if err != nil {
			return
		}
		switch k := e.Key.(type) {
		case *StringKey:
			vAssert("a key lies within the input", dBytesOK([]byte(*k), b[:n]))
		case *BinaryKey:
			vAssert("a key lies within the input", dBytesOK(*k, b[:n]))
		}
		vAssert("there is one value per data type", len(e.Data) == len(def.DataTypes))
		for _, x := range e.Data {
			if v, ok := x.(*DictData); ok {
				vAssert("a value lies within the input", dBytesOK(v.Value, b[:n]))
			}
		}
	})
}
