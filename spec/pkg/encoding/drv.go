package encoding

import (
	"bytes"
	"fmt"
	"net/netip"
	"reflect"
	"runtime"
)

// ---- a reference codec, used by the drivers

func rfVarint(x uint64) []byte {
	if x < 240 {
		return []byte{byte(x)}
	}
	out := []byte{byte(x) | 240}
	x = (x - 240) >> 4
	for x >= 128 {
		out = append(out, byte(x)|128)
		x = (x - 128) >> 7
	}
	return append(out, byte(x))
}

// rfGetVarint decodes at most 10 bytes; n == 0: no complete form.
func rfGetVarint(b []byte) (v uint64, n int) {
	if len(b) == 0 {
		return 0, 0
	}
	v = uint64(b[0])
	if b[0] < 240 {
		return v, 1
	}
	for i, s := 1, uint(4); i < len(b); i, s = i+1, s+7 {
		v += uint64(b[i]) << s
		if b[i] < 128 {
			return v, i + 1
		}
	}
	return 0, 0
}

func rfBytes(b []byte) []byte { return append(rfVarint(uint64(len(b))), b...) }

type rfEntry struct {
	name []byte
	t    DataType
	flag bool
	i    int64
	b    []byte
}

func (e rfEntry) encode() []byte {
	out := rfBytes(e.name)
	t := byte(e.t)
	if e.flag {
		t |= 0x10
	}
	out = append(out, t)
	switch e.t {
	case DataTypeInt32, DataTypeUInt32, DataTypeInt64, DataTypeUInt64:
		out = append(out, rfVarint(uint64(e.i))...)
	case DataTypeIPV4, DataTypeIPV6:
		out = append(out, e.b...)
	case DataTypeString, DataTypeBinary:
		out = append(out, rfBytes(e.b)...)
	}
	return out
}

// rfDecode decodes the entry at the start of b; n == 0: malformed.
func rfDecode(b []byte) (e rfEntry, n int) {
	l, m := rfGetVarint(b)
	if m == 0 || l >= uint64(len(b)-m) {
		return e, 0
	}
	p := m + int(l)
	e.name = b[m:p]
	e.t = DataType(b[p] & 0x0f)
	e.flag = b[p]&0x10 != 0
	p++
	switch e.t {
	case DataTypeNull, DataTypeBool:
	case DataTypeInt32, DataTypeUInt32, DataTypeInt64, DataTypeUInt64:
		v, m := rfGetVarint(b[p:])
		if m == 0 {
			return e, 0
		}
		e.i = int64(v)
		p += m
	case DataTypeIPV4, DataTypeIPV6:
		k := 4
		if e.t == DataTypeIPV6 {
			k = 16
		}
		if len(b)-p < k {
			return e, 0
		}
		e.b = b[p : p+k]
		p += k
	case DataTypeString, DataTypeBinary:
		v, m := rfGetVarint(b[p:])
		if m == 0 || v > uint64(len(b)-p-m) {
			return e, 0
		}
		p += m
		e.b = b[p : p+int(v)]
		p += int(v)
	default:
		return e, 0
	}
	return e, p
}

func (e rfEntry) value() any {
	switch e.t {
	case DataTypeBool:
		return e.flag
	case DataTypeInt32:
		return int32(e.i)
	case DataTypeUInt32:
		return uint32(e.i)
	case DataTypeInt64:
		return e.i
	case DataTypeUInt64:
		return uint64(e.i)
	case DataTypeIPV4, DataTypeIPV6:
		a, _ := netip.AddrFromSlice(e.b)
		return a
	case DataTypeString:
		return string(e.b)
	case DataTypeBinary:
		return e.b
	}
	return nil
}

func (r *vRand) name() []byte {
	switch r.Intn(12) {
	case 0:
		return []byte{}
	case 1:
		return r.raw(200 + r.Intn(120))
	case 2:
		if r.Intn(8) == 0 {
			return r.raw(2280 + r.Intn(20))
		}
	}
	return r.raw(r.Intn(9))
}

func (r *vRand) raw(n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	return b
}

func (r *vRand) entry() rfEntry {
	e := rfEntry{name: r.name(), t: DataType(r.Intn(10)), flag: r.Intn(2) == 0}
	switch e.t {
	case DataTypeInt32, DataTypeUInt32, DataTypeInt64, DataTypeUInt64:
		e.i = int64(r.u64())
	case DataTypeIPV4:
		e.b = r.raw(4)
	case DataTypeIPV6:
		e.b = r.raw(16)
		if r.Intn(3) == 0 {
			copy(e.b, []byte{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 255, 255})
		}
	case DataTypeString, DataTypeBinary:
		e.b = r.name()
	}
	return e
}

// stream: n encoded entries.
func (r *vRand) stream(n int) []byte {
	var out []byte
	for i := 0; i < n; i++ {
		out = append(out, r.entry().encode()...)
	}
	return out
}

// mutate damages b.
func (r *vRand) mutate(b []byte) []byte {
	b = append([]byte{}, b...)
	for k := r.Intn(4); k > 0 && len(b) > 0; k-- {
		i := r.Intn(len(b))
		switch r.Intn(5) {
		case 0:
			b = b[:i]
		case 1:
			b[i] = byte(r.Intn(256))
		case 2:
			b[i] = 255
		case 3:
			b = append(b[:i:i], append(r.raw(r.Intn(3)), b[i:]...)...)
		case 4:
			b[i] ^= 1 << uint(r.Intn(8))
		}
	}
	return b
}

// framed places b inside a larger array.
func (r *vRand) framed(b []byte) []byte {
	pre, post := r.Intn(5), r.Intn(40)
	all := append(append(r.raw(pre), b...), r.raw(post)...)
	return all[pre : pre+len(b)]
}

func rfCheckEntry(e *KVEntry, w rfEntry) {
	vAssert("the name is the encoded one", bytes.Equal(e.NameBytes(), w.name))
	vAssert("the name is recognised", e.NameEquals(string(w.name)) && e.NameEqualBytes(w.name) && e.NameEqualUnsafe(string(w.name)))
	vAssert("no other name is recognised", !e.NameEquals(string(w.name)+"x") && !e.NameEqualBytes(append([]byte("x"), w.name...)) && !e.NameEqualUnsafe("x"+string(w.name)))
	if len(w.name) > 0 {
		o := append([]byte{}, w.name...)
		o[len(o)-1] ^= 1
		vAssert("no similar name is recognised", !e.NameEquals(string(o)) && !e.NameEqualBytes(o) && !e.NameEqualUnsafe(string(o)))
	}
	vAssert("the type is the encoded one", e.Type() == w.t)
	vAssert("the flag is the encoded one", e.ValueBool() == w.flag)
	vAssert("the integer is the encoded one", e.ValueInt() == w.i)
	vAssert("the value bytes are the encoded ones", bytes.Equal(e.ValueBytes(), w.b))
	vAssert("the typed value is the encoded one", reflect.DeepEqual(e.Value(), w.value()))
	if w.t == DataTypeIPV4 || w.t == DataTypeIPV6 {
		vAssert("the address is the encoded one", e.ValueAddr() == w.value())
	}
}

// rfScan runs s over b and compares every step with the reference.
func rfScan(s *KVScanner, b []byte, left int) {
	e := AcquireKVEntry()
	defer ReleaseKVEntry(e)
	p := 0
	for {
		vAssert("what is left is counted", s.RemainingBuf() == len(b)-p)
		ok := s.Next(e)
		if left == 0 || left < 0 && p == len(b) {
			vAssert("the scan ends where announced", !ok)
			vAssert("a complete scan gives no error", s.Error() == nil)
			vAssert("a finished scan stays finished", !s.Next(e) && s.RemainingBuf() == len(b)-p)
			return
		}
		w, n := rfDecode(b[p:])
		if n == 0 {
			vAssert("malformed data ends the scan", !ok)
			vAssert("malformed data is an error", s.Error() != nil)
			vAssert("a failed scan stays failed", !s.Next(e) && s.Error() != nil)
			vAssert("nothing is left over but input", s.RemainingBuf() <= len(b)-p)
			return
		}
		vAssert("a well-formed entry is accepted", ok && s.Error() == nil)
		p += n
		left--
		rfCheckEntry(e, w)
		vAssert("the entry's bytes are consumed exactly", s.RemainingBuf() == len(b)-p)
	}
}

func (r *vRand) scanInput() ([]byte, int) {
	n := r.Intn(6)
	b := r.stream(n)
	switch r.Intn(5) {
	case 0, 1:
		b = r.mutate(b)
	case 2:
		if r.Intn(3) == 0 {
			b = r.bytes(60)
		}
	}
	left := n
	switch r.Intn(6) {
	case 0:
		left = -1
	case 1:
		left = n + 1
	case 2:
		left = n - 1
	case 3:
		left = r.Intn(300) - 3
	}
	return r.framed(b), left
}

//@ driver C02
func drvScan(r *vRand) {
	b, left := r.scanInput()
	rfScan(NewKVScanner(b, left), b, left)
	s := AcquireKVScanner(b, left)
	rfScan(s, b, left)
	ReleaseKVScanner(s)
	// announced lengths beyond every buffer
	h := append(rfVarint(uint64(1)), 'x', byte(DataTypeString)+byte(r.Intn(2)))
	h = append(append(h, rfVarint(r.u64())...), r.raw(r.Intn(20))...)
	h = r.framed(h)
	rfScan(NewKVScanner(h, 1), h, 1)
	h = r.framed(append(rfVarint(r.u64()), r.raw(r.Intn(20))...))
	rfScan(NewKVScanner(h, 1), h, 1)
}

//@ driver C02
func drvDiscard(r *vRand) {
	b, left := r.scanInput()
	s := NewKVScanner(b, left)
	e := &KVEntry{}
	p, n := 0, 0
	for k := r.Intn(4); k > 0; k-- {
		if s.Next(e) {
			_, m := rfDecode(b[p:])
			p += m
			n++
		}
	}
	ok := true
	for q := left - n; ok && q != 0; q-- {
		if p == len(b) {
			ok = left < 0
			break
		}
		_, m := rfDecode(b[p:])
		if m == 0 {
			ok = false
		}
		p += m
	}
	err := s.Discard()
	vAssert("discarding succeeds exactly on well-formed data", (err == nil) == ok)
	vAssert("discarding reports the scan's error", err == s.Error())
	if ok {
		vAssert("discarding consumes exactly what was announced", s.RemainingBuf() == len(b)-p)
	}
}

// ---- the key/value writer

// rfSet makes one random call of w; the entry it is to append.
func rfSet(r *vRand, w *KVWriter) (err error, want rfEntry, bad bool) {
	want = r.entry()
	n := string(want.name)
	want.flag = false
	switch want.t {
	case DataTypeNull:
		err = w.SetNull(n)
	case DataTypeBool:
		want.flag = r.Intn(2) == 0
		err = w.SetBool(n, want.flag)
	case DataTypeInt32:
		want.i = int64(int32(want.i))
		err = w.SetInt32(n, int32(want.i))
	case DataTypeUInt32:
		want.i = int64(uint32(want.i))
		err = w.SetUInt32(n, uint32(want.i))
	case DataTypeInt64:
		err = w.SetInt64(n, want.i)
	case DataTypeUInt64:
		err = w.SetUInt64(n, uint64(want.i))
	case DataTypeIPV4, DataTypeIPV6:
		a, _ := netip.AddrFromSlice(want.b)
		if r.Intn(10) == 0 {
			a, bad = netip.Addr{}, true
		}
		err = w.SetAddr(n, a)
	case DataTypeString:
		err = w.SetString(n, string(want.b))
	case DataTypeBinary:
		v := append([]byte{}, want.b...)
		err = w.SetBinary(n, v)
		vAssert("the source is left alone", bytes.Equal(v, want.b))
	}
	return err, want, bad
}

//@ driver C03
func drvKVWriter(r *vRand) {
	size := r.Intn(60)
	switch r.Intn(4) {
	case 0:
		size = r.Intn(400)
	case 1:
		size = r.Intn(6000)
	}
	pre, post := r.Intn(4), r.Intn(20)
	all := r.raw(pre + size + post)
	saved := append([]byte{}, all...)
	off := r.Intn(size + 1)
	if r.Intn(2) == 0 {
		off = 0
	}
	buf := all[pre : pre+size]
	w := NewKVWriter(buf, off)
	if r.Intn(2) == 0 {
		w = AcquireKVWriter(buf, off)
	}
	var want []rfEntry
	out := append([]byte{}, buf[:off]...)
	for k := 1 + r.Intn(8); k > 0; k-- {
		err, e, bad := rfSet(r, w)
		enc := e.encode()
		fits := len(out)+len(enc) <= size && !bad
		vAssert("an entry is accepted exactly when it fits", (err == nil) == fits)
		if fits {
			out = append(out, enc...)
			want = append(want, e)
		}
		vAssert("the position is the end of the accepted entries", w.Off() == len(out))
		vAssert("the output is exactly the accepted entries", bytes.Equal(w.Bytes(), out))
	}
	vAssert("nothing outside the buffer is written", bytes.Equal(all[:pre], saved[:pre]) && bytes.Equal(all[pre+size:], saved[pre+size:]))
	s := NewKVScanner(w.Bytes()[off:], len(want))
	e := &KVEntry{}
	for _, x := range want {
		vAssert("every written entry is read back", s.Next(e))
		rfCheckEntry(e, x)
	}
	vAssert("nothing else is read back", !s.Next(e) && s.Error() == nil && s.RemainingBuf() == 0)
}

// ---- actions

//@ driver C05
func drvActions(r *vRand) {
	size := r.Intn(40)
	if r.Intn(3) == 0 {
		size = r.Intn(1000)
	}
	pre, post := r.Intn(4), r.Intn(20)
	all := r.raw(pre + size + post)
	saved := append([]byte{}, all...)
	off := r.Intn(size + 1)
	buf := all[pre : pre+size : pre+size+r.Intn(post+1)]
	if r.Intn(8) == 0 {
		buf, off = nil, 0
	}
	w := NewActionWriter(buf, off)
	if r.Intn(2) == 0 {
		w = AcquireActionWriter(buf, off)
	}
	out := append([]byte{}, buf[:off]...)
	for k := 1 + r.Intn(8); k > 0; k-- {
		e := r.entry()
		sc := varScope(r.Intn(5))
		n := string(e.name)
		var err error
		bad := false
		act := append([]byte{1, 3, byte(sc)}, rfBytes(e.name)...)
		val := []byte{byte(e.t)}
		num := func(v int64) {
			val = append([]byte{byte(DataTypeInt64)}, rfVarint(uint64(v))...)
		}
		if r.Intn(8) == 0 {
			act[0], act[1] = 2, 2
			val = nil
			err = w.Unset(sc, n)
		} else {
			switch e.t {
			case DataTypeNull:
				err = w.SetNull(sc, n)
			case DataTypeBool:
				if e.flag {
					val[0] |= 0x10
				}
				err = w.SetBool(sc, n, e.flag)
			case DataTypeInt32:
				num(int64(int32(e.i)))
				err = w.SetInt32(sc, n, int32(e.i))
			case DataTypeUInt32:
				num(int64(uint32(e.i)))
				err = w.SetUInt32(sc, n, uint32(e.i))
			case DataTypeInt64:
				num(e.i)
				err = w.SetInt64(sc, n, e.i)
			case DataTypeUInt64:
				num(e.i)
				err = w.SetUInt64(sc, n, uint64(e.i))
			case DataTypeIPV4, DataTypeIPV6:
				a, _ := netip.AddrFromSlice(e.b)
				val = append(val, e.b...)
				if r.Intn(8) == 0 {
					a, bad = netip.Addr{}, true
				}
				err = w.SetAddr(sc, n, a)
			case DataTypeString:
				val = append(val, rfBytes(e.b)...)
				if r.Intn(2) == 0 {
					err = w.SetString(sc, n, string(e.b))
				} else {
					err = w.SetStringBytes(sc, n, e.b)
				}
			case DataTypeBinary:
				val = append(val, rfBytes(e.b)...)
				err = w.SetBinary(sc, n, e.b)
			}
		}
		vAssert("only an invalid address is refused", (err != nil) == bad)
		if err == nil {
			out = append(append(out, act...), val...)
		}
		vAssert("the position is the end of the actions", w.Off() == len(out))
		vAssert("the output is exactly the actions", bytes.Equal(w.Bytes(), out))
	}
	vAssert("nothing outside the buffer is written", bytes.Equal(all[:pre], saved[:pre]) && bytes.Equal(all[pre+size:], saved[pre+size:]))
	vAssert("what was written before is left alone", bytes.Equal(all[pre:pre+off], saved[pre:pre+off]))
}

// ---- messages

type rfMsg struct {
	name []byte
	args []rfEntry
}

func (m rfMsg) encode() []byte {
	out := append(rfBytes(m.name), byte(len(m.args)))
	for _, a := range m.args {
		out = append(out, a.encode()...)
	}
	return out
}

func (r *vRand) msgs() []rfMsg {
	var l []rfMsg
	for k := r.Intn(5); k > 0; k-- {
		m := rfMsg{name: r.name()}
		n := r.Intn(5)
		if r.Intn(20) == 0 {
			n = 200 + r.Intn(56)
		}
		for ; n > 0; n-- {
			e := r.entry()
			if len(m.args) > 10 {
				e.name, e.t, e.b, e.i = []byte("k"), DataTypeInt64, nil, int64(n)
			}
			m.args = append(m.args, e)
		}
		l = append(l, m)
	}
	return l
}

//@ driver C04
func drvMessages(r *vRand) {
	l := r.msgs()
	var b []byte
	for _, m := range l {
		b = append(b, m.encode()...)
	}
	b = r.framed(b)
	s := AcquireMessageScanner(b)
	m := AcquireMessage()
	e := AcquireKVEntry()
	defer func() {
		ReleaseMessage(m)
		ReleaseMessageScanner(s)
		ReleaseKVEntry(e)
	}()
	for _, w := range l {
		vAssert("every message is seen", s.Next(m))
		vAssert("the message's name is the encoded one", bytes.Equal(m.NameBytes(), w.name))
		n := len(w.args)
		if r.Intn(2) == 0 {
			n = r.Intn(n + 1)
		}
		for _, a := range w.args[:n] {
			vAssert("every announced argument is seen", m.KV.Next(e))
			rfCheckEntry(e, a)
		}
		if n == len(w.args) {
			vAssert("no other argument is seen", !m.KV.Next(e))
		}
		if n < len(w.args) || r.Intn(2) == 0 {
			vAssert("unread arguments are skipped", m.KV.Discard() == nil)
		}
	}
	vAssert("no other message is seen", !s.Next(m))
	vAssert("well-formed messages give no error", s.Error() == nil)
}

//@ driver C04
func drvHostileMessages(r *vRand) {
	var b []byte
	for _, m := range r.msgs() {
		b = append(b, m.encode()...)
	}
	b = r.mutate(b)
	switch r.Intn(4) {
	case 0:
		b = r.bytes(60)
	case 1:
		b = append(rfVarint(r.u64()), r.raw(r.Intn(30))...)
	}
	b = r.framed(b)
	s := NewMessageScanner(b)
	m := &Message{}
	p := 0
	for {
		ok := s.Next(m)
		if p == len(b) {
			vAssert("the end of the payload ends the scan", !ok && s.Error() == nil)
			return
		}
		l, n := rfGetVarint(b[p:])
		if n == 0 || l >= uint64(len(b)-p-n) {
			vAssert("a malformed message is an error", !ok && s.Error() != nil)
			return
		}
		vAssert("a well-formed message header is accepted", ok && s.Error() == nil)
		p += n
		vAssert("the message's name is the encoded one", bytes.Equal(m.NameBytes(), b[p:p+int(l)]))
		p += int(l)
		c := int(b[p])
		p++
		vAssert("the arguments are those that follow", m.KV.RemainingBuf() == len(b)-p)
		good := true
		for ; good && c > 0; c-- {
			_, n := rfDecode(b[p:])
			good = n > 0
			p += n
		}
		err := m.KV.Discard()
		vAssert("malformed arguments are an error", (err != nil) != good)
		if err != nil {
			return
		}
	}
}

// ---- struct fields

type rfTarget struct {
	String  string      `spoe:"string"`
	Bytes   []byte      `spoe:"bytes,omitempty"`
	I32     int32       `spoe:"i32"`
	I64     int64       `spoe:"i64"`
	U32     uint32      `spoe:"u32"`
	U64     uint64      `spoe:"u64"`
	Bool    bool        `spoe:"bool"`
	Addr    netip.Addr  `spoe:"addr"`
	PString *string     `spoe:"pstring"`
	PBytes  *[]byte     `spoe:"pbytes"`
	PI32    *int32      `spoe:"pi32"`
	PI64    *int64      `spoe:"pi64"`
	PU32    *uint32     `spoe:"pu32"`
	PU64    *uint64     `spoe:"pu64"`
	PBool   *bool       `spoe:"pbool"`
	PAddr   *netip.Addr `spoe:"paddr"`
	Other   float64     `spoe:"other"`
	Strs    []string    `spoe:"strs"`
	Any     any         `spoe:"any"`
	Skip    string      `spoe:"-"`
	NoTag   string
}

// rfFieldValue is what a field of type t holds after e, if e suits it.
func rfFieldValue(t reflect.Type, e rfEntry) (reflect.Value, bool) {
	if t.Kind() == reflect.Pointer {
		if e.t == DataTypeNull {
			return reflect.Zero(t), true
		}
		v, ok := rfFieldValue(t.Elem(), e)
		if !ok || t.Elem().Kind() == reflect.Pointer {
			return v, false
		}
		p := reflect.New(t.Elem())
		p.Elem().Set(v)
		return p, true
	}
	var v any
	switch t {
	case reflect.TypeFor[string]():
		if e.t == DataTypeString {
			v = string(e.b)
		}
	case reflect.TypeFor[[]byte]():
		if e.t == DataTypeString || e.t == DataTypeBinary {
			v = append([]byte{}, e.b...)
		}
	case reflect.TypeFor[int32]():
		if e.t == DataTypeInt32 {
			v = int32(e.i)
		}
	case reflect.TypeFor[int64]():
		if e.t == DataTypeInt64 {
			v = e.i
		}
	case reflect.TypeFor[uint32]():
		if e.t == DataTypeUInt32 {
			v = uint32(e.i)
		}
	case reflect.TypeFor[uint64]():
		if e.t == DataTypeUInt64 {
			v = uint64(e.i)
		}
	case reflect.TypeFor[bool]():
		if e.t == DataTypeBool {
			v = e.flag
		}
	case reflect.TypeFor[netip.Addr]():
		if e.t == DataTypeIPV4 || e.t == DataTypeIPV6 {
			v, _ = netip.AddrFromSlice(e.b)
		}
	}
	if v == nil {
		return reflect.Value{}, false
	}
	return reflect.ValueOf(v), true
}

func rfClone(v reflect.Value) reflect.Value {
	n := reflect.New(v.Type()).Elem()
	n.Set(v)
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() {
			n.Set(reflect.New(v.Type().Elem()))
			n.Elem().Set(rfClone(v.Elem()))
		}
	case reflect.Slice:
		if !v.IsNil() {
			n.Set(reflect.AppendSlice(reflect.MakeSlice(v.Type(), 0, v.Len()), v))
		}
	case reflect.Struct:
		if v.Type() == reflect.TypeFor[rfTarget]() {
			for i := 0; i < v.NumField(); i++ {
				n.Field(i).Set(rfClone(v.Field(i)))
			}
		}
	}
	return n
}

//@ driver C19
func drvUnmarshal(r *vRand) {
	tt := reflect.TypeFor[rfTarget]()
	var x rfTarget
	rv := reflect.ValueOf(&x).Elem()
	for i := 0; i < tt.NumField(); i++ {
		if rv.Field(i).Kind() != reflect.Interface {
			rv.Field(i).Set(r.value(tt.Field(i).Type, 0))
		}
		if rv.Field(i).Kind() == reflect.Pointer && r.Intn(2) == 0 {
			rv.Field(i).Set(reflect.New(tt.Field(i).Type.Elem()))
		}
	}
	before := rfClone(rv)
	names := make([]string, tt.NumField())
	for i := range names {
		names[i] = tt.Field(i).Tag.Get("spoe")
		if names[i] == "bytes,omitempty" {
			names[i] = "bytes"
		}
		if names[i] == "-" {
			names[i] = ""
		}
	}
	var es []rfEntry
	var b []byte
	for k := r.Intn(5); k > 0; k-- {
		e := r.entry()
		f := r.Intn(len(names))
		if r.Intn(8) > 0 {
			e.name = []byte(names[f])
		}
		if r.Intn(8) > 0 {
			// a suitable type
			for j := 0; j < 60; j++ {
				if _, ok := rfFieldValue(tt.Field(f).Type, e); ok {
					break
				}
				n := e.name
				e = r.entry()
				e.name = n
			}
		}
		es = append(es, e)
		b = append(b, e.encode()...)
	}
	cut := r.Intn(10) == 0 && len(b) > 0
	count := len(es)
	if cut {
		b = b[:r.Intn(len(b))]
	} else if r.Intn(3) == 0 {
		count = -1
	}
	// the expected outcome
	want := rfClone(before)
	fails := false
	set := map[int]bool{}
	p := 0
	for _, e := range es {
		_, n := rfDecode(b[p:])
		if n == 0 {
			fails = true
			break
		}
		p += n
		f := -1
		for i, nm := range names {
			if nm != "" && nm == string(e.name) {
				f = i
				break
			}
		}
		if f < 0 {
			continue
		}
		v, ok := rfFieldValue(tt.Field(f).Type, e)
		if !ok {
			fails = true
			break
		}
		want.Field(f).Set(v)
		set[f] = true
	}
	if !fails {
		for i := range names {
			if names[i] != "" && tt.Field(i).Type.Kind() == reflect.Pointer && !set[i] {
				want.Field(i).Set(reflect.Zero(tt.Field(i).Type))
			}
		}
	}
	old := make([]reflect.Value, tt.NumField())
	for i := range old {
		old[i] = reflect.New(tt.Field(i).Type).Elem()
		old[i].Set(rv.Field(i))
	}
	in := r.framed(b)
	err := NewKVScanner(in, count).Unmarshal(&x)
	vAssert("unmarshalling fails exactly when an entry does not suit its field or is malformed", (err != nil) == fails)
	// the result must not depend on the buffer
	for i := range in {
		in[i] ^= 0x5a
	}
	for i := range names {
		a, _ := rv.Field(i).Interface(), 0
		w := want.Field(i).Interface()
		if bs, ok := a.([]byte); ok {
			vAssert("field "+tt.Field(i).Name+" holds exactly the entry's bytes", bytes.Equal(bs, w.([]byte)))
			continue
		}
		vAssert("field "+tt.Field(i).Name+" holds exactly the expected value", reflect.DeepEqual(a, w))
		if set[i] && rv.Field(i).Kind() == reflect.Pointer && !rv.Field(i).IsNil() && !fails {
			vAssert("pointer field "+tt.Field(i).Name+" is set to a fresh value", old[i].IsNil() || rv.Field(i).Pointer() != old[i].Pointer())
		}
	}
	for _, bad := range []any{nil, x, (*rfTarget)(nil), new(int), 3, "x"} {
		vAssert("only a non-nil pointer to a struct is a target", NewKVScanner(b, -1).Unmarshal(bad) != nil)
	}
}

// Byte slices stay valid after everything else is reused.
//
//@ driver C19
func drvUnmarshalFresh(r *vRand) {
	type T struct {
		B []byte  `spoe:"b"`
		P *[]byte `spoe:"p"`
		S *string `spoe:"s"`
	}
	var x, y T
	v1, v2, v3 := r.raw(1+r.Intn(9)), r.raw(1+r.Intn(9)), r.raw(1+r.Intn(9))
	enc := func(a, b, c []byte) []byte {
		out := rfEntry{name: []byte("b"), t: DataTypeBinary, b: a}.encode()
		out = append(out, rfEntry{name: []byte("p"), t: DataTypeString, b: b}.encode()...)
		return append(out, rfEntry{name: []byte("s"), t: DataTypeString, b: c}.encode()...)
	}
	b1 := enc(v1, v2, v3)
	vAssert("suitable entries are accepted", NewKVScanner(b1, 3).Unmarshal(&x) == nil)
	k1, k2, k3 := x.B, x.P, x.S
	b2 := enc(v2, v3, v1)
	vAssert("suitable entries are accepted", NewKVScanner(b2, -1).Unmarshal(&y) == nil)
	vAssert("suitable entries are accepted", NewKVScanner(b2, -1).Unmarshal(&x) == nil)
	copy(b1, make([]byte, len(b1)))
	vAssert("a byte slice is a copy", bytes.Equal(k1, v1) && bytes.Equal(*k2, v2) && *k3 == string(v3))
	vAssert("the later values are stored", bytes.Equal(x.B, v2) && bytes.Equal(*x.P, v3) && *x.S == string(v1))
}

// ---- recycled objects

//@ driver C12
func drvEncodingPools(r *vRand) {
	dirty := func() {
		for i := 0; i < 3; i++ {
			b, left := r.scanInput()
			s := AcquireKVScanner(b, left)
			e := AcquireKVEntry()
			for k := r.Intn(4); k > 0; k-- {
				s.Next(e)
			}
			if r.Intn(2) == 0 {
				s.Discard()
			}
			ReleaseKVScanner(s)
			ReleaseKVEntry(e)
			ms := AcquireMessageScanner(b)
			m := AcquireMessage()
			for k := r.Intn(3); k > 0; k-- {
				if ms.Next(m) && m.KV.Discard() != nil {
					break
				}
			}
			ReleaseMessage(m)
			ReleaseMessageScanner(ms)
			kw := AcquireKVWriter(make([]byte, r.Intn(30)), 0)
			rfSet(r, kw)
			rfSet(r, kw)
			ReleaseKVWriter(kw)
			aw := AcquireActionWriter(make([]byte, r.Intn(30)), 0)
			aw.SetString(VarScopeSession, "n", "v")
			aw.SetAddr(VarScopeSession, "n", netip.Addr{})
			ReleaseActionWriter(aw)
		}
	}
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	dirty()
	b, left := r.scanInput()
	off := r.Intn(len(b) + 1)
	for i := 0; i < 2; i++ {
		vAssert("a recycled scanner is like new", reflect.DeepEqual(AcquireKVScanner(b, left), NewKVScanner(b, left)))
		vAssert("a recycled entry is like new", reflect.DeepEqual(AcquireKVEntry(), &KVEntry{}))
		vAssert("a recycled message scanner is like new", reflect.DeepEqual(AcquireMessageScanner(b), NewMessageScanner(b)))
		vAssert("a recycled message is like new", reflect.DeepEqual(AcquireMessage(), &Message{}))
		vAssert("a recycled key/value writer is like new", reflect.DeepEqual(AcquireKVWriter(b, off), NewKVWriter(b, off)))
		vAssert("a recycled action writer is like new", reflect.DeepEqual(AcquireActionWriter(b, off), NewActionWriter(b, off)))
	}
	e := &KVEntry{name: b, byteVal: b, intVal: int64(r.u64()), dataType: DataType(r.Intn(10)), boolVar: true}
	e.Reset()
	vAssert("a reset entry is like new", reflect.DeepEqual(e, &KVEntry{}))
	_ = fmt.Sprint
}

// No object is handed out twice.
//
//@ driver C12
func drvEncodingPoolsOnce(r *vRand) {
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	l := r.msgs()
	var b []byte
	for _, m := range l {
		b = append(b, m.encode()...)
	}
	if r.Intn(2) == 0 {
		b = r.mutate(b)
	}
	s := AcquireMessageScanner(b)
	m := AcquireMessage()
	e := AcquireKVEntry()
	for s.Next(m) {
		for k := r.Intn(3); k > 0; k-- {
			m.KV.Next(e)
		}
		if m.KV.Discard() != nil {
			break
		}
	}
	ReleaseMessage(m)
	ReleaseMessageScanner(s)
	ReleaseKVEntry(e)
	var x rfTarget
	NewKVScanner(r.stream(2), 2).Unmarshal(&x)
	ks := map[*KVScanner]bool{}
	es := map[*KVEntry]bool{}
	ms := map[*Message]bool{}
	ss := map[*MessageScanner]bool{}
	for i := 0; i < 12; i++ {
		k := AcquireKVScanner(nil, 0)
		vAssert("no scanner is handed out twice", !ks[k])
		ks[k] = true
		e := AcquireKVEntry()
		vAssert("no entry is handed out twice", !es[e])
		es[e] = true
		m := AcquireMessage()
		vAssert("no message is handed out twice", !ms[m])
		ms[m] = true
		s := AcquireMessageScanner(nil)
		vAssert("no message scanner is handed out twice", !ss[s])
		ss[s] = true
	}
}

// ---- C01

// drvVarint: the codec over every kind of value, short buffers and both
// kinds of input, against the reference coder.
//
//@ driver C01
func drvVarint(r *vRand) {
	x := r.u64()
	if r.Intn(2) == 0 {
		// around the group boundaries and forms with chosen bytes
		x = 240
		for k := 1 + r.Intn(9); k > 0; k-- {
			x += uint64(r.Intn(3)+126*r.Intn(3)) << (4 + 7*uint(r.Intn(9)))
		}
		x += uint64(r.Intn(16))
	}
	want := vVarint(x)
	b := r.raw(len(want) + 3)
	old := append([]byte{}, b...)
	k := r.Intn(len(want) + 3)
	n, err := PutVarint(b[:k], x)
	vAssert("nothing beyond the given buffer changes", bytes.Equal(b[k:], old[k:]))
	if k < len(want) {
		vAssert("too small a buffer is an error", err == ErrInsufficientSpace && n == 0)
		n, err = PutVarint(b, x)
	}
	vAssert("the form is written", err == nil && n == len(want) && bytes.Equal(b[:n], want))
	v, m, err := Varint(b)
	vAssert("the slice decoder returns the value", err == nil && v == x && m == n)
	rd := bytes.NewReader(b)
	v, err = ReadVarint(rd)
	vAssert("the reader returns the value", err == nil && v == x && rd.Len() == len(b)-n)
	cut := r.Intn(n)
	v, m, err = Varint(b[:cut])
	vAssert("a truncated form is an error", err == ErrUnterminatedSequence && v == 0 && m == 0)
	_, err = ReadVarint(bytes.NewReader(b[:cut]))
	vAssert("a truncated form is an error of the reader", err == ErrUnterminatedSequence)
	// arbitrary bytes, overlong forms included
	h := r.raw(r.Intn(14))
	if r.Intn(2) == 0 {
		for i := range h {
			h[i] |= 128
		}
		h = append([]byte{240 | byte(r.Intn(16))}, append(h, byte(r.Intn(128)))...)
	}
	w, l := vGetVarint(h)
	v, m, err = Varint(h)
	rd = bytes.NewReader(h)
	v2, err2 := ReadVarint(rd)
	if l == 0 {
		vAssert("no complete form is an error", err == ErrUnterminatedSequence && err2 == ErrUnterminatedSequence)
		return
	}
	vAssert("decoding computes the value of the form", err == nil && v == w && m == l)
	vAssert("the reader computes the value of the form", err2 == nil && v2 == w && rd.Len() == len(h)-l)
}
