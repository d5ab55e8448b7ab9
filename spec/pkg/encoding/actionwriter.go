package encoding

import "net/netip"

// ---- the action writer

func okAW(w *ActionWriter) bool { return w.off >= 0 && w.off <= len(w.data) && len(w.data) < 1<<40 }

// spGrown: everything that was written before is still there.
func spGrown(w *ActionWriter) bool {
	d := vOld(func() []byte { return w.data })
	o := vOld(func() int { return w.off })
	return w.off >= o && w.off <= len(w.data) && len(w.data) >= len(d) &&
		vForall(0, o, func(i int) bool { return w.data[i] == vOld(func() byte { return d[i] }) })
}

//@ requires (*ActionWriter).grow
func reqAWGrow(w *ActionWriter, n int) bool {
	return w.off >= 0 && w.off <= len(w.data) && n >= 0 && n < 1<<40 && len(w.data) < 1<<44
}

//@ grows (*ActionWriter).grow
func grwAWGrow(w *ActionWriter) *[]byte { return &w.data }

//@ modifies (*ActionWriter).grow
func modAWGrow(w *ActionWriter, n int) { vMod(&w.data) }

//@ ensures (*ActionWriter).grow prop=C05
func ensAWGrow(w *ActionWriter, n int) bool {
	return w.off == vOld(func() int { return w.off }) && spGrown(w) && len(w.data)-w.off >= n && len(w.data) < 1<<46 && vImp(vOld(func() int { return len(w.data) }) < 1<<41, len(w.data) < 1<<43)
}

//@ ensures varintLen prop=C05 reveal=spLen
func ensVarintLen(v uint64, n int) bool { return n == spLen(v) }

func spNbArgs(t actionType) byte {
	if t == ActionTypeSetVar {
		return 3
	}
	return 2
}

// spActLen: the bytes that an action takes before its value.
func spActLen(name string) int { return 3 + spLen(uint64(len(name))) + len(name) }

// spAct: b starts with an action of type t for name in scope s.
func spAct(b []byte, t actionType, s varScope, name string) bool {
	n := spActLen(name)
	return n <= len(b) && b[0] == byte(t) && b[1] == spNbArgs(t) && b[2] == byte(s) && spIsStr(b[3:], name, n-3)
}

//@ requires (*ActionWriter).actionHeader
func reqActionHeader(w *ActionWriter, t actionType, s varScope, name []byte) bool {
	return okAW(w) && (t == ActionTypeSetVar || t == ActionTypeUnsetVar) && vDisjoint(w.data, name) && len(name) < 1<<32
}

//@ modifies (*ActionWriter).actionHeader
func modActionHeader(w *ActionWriter, t actionType, s varScope, name []byte) {
	vMod(&w.off)
	vMod(&w.data)
	vModBytes(w.data[w.off:])
}

//@ grows (*ActionWriter).actionHeader
func grwActionHeader(w *ActionWriter) *[]byte { return &w.data }

//@ ensures (*ActionWriter).actionHeader prop=C05
func ensActionHeader(w *ActionWriter, t actionType, s varScope, name []byte, err error) bool {
	o := vOld(func() int { return w.off })
	n := 3 + spLen(uint64(len(name))) + len(name)
	b := w.data[o:]
	return err == nil && spGrown(w) && len(w.data) < 1<<43 && w.off == o+n && b[0] == byte(t) && b[1] == spNbArgs(t) && b[2] == byte(s) && spIsBytes(b[3:], name, n-3)
}

//@ requires (*ActionWriter).Unset
func reqAWUnset(w *ActionWriter, s varScope, name string) bool {
	return okAW(w) && vDisjoint(w.data, name) && len(name) < 1<<32
}

//@ modifies (*ActionWriter).Unset
func modAWUnset(w *ActionWriter, s varScope, name string) {
	vMod(&w.off)
	vMod(&w.data)
	vModBytes(w.data[w.off:])
}

//@ grows (*ActionWriter).Unset
func grwAWUnset(w *ActionWriter) *[]byte { return &w.data }

//@ ensures (*ActionWriter).Unset prop=C05
func ensAWUnset(w *ActionWriter, s varScope, name string, err error) bool {
	o := vOld(func() int { return w.off })
	n := spActLen(name)
	b := w.data[o:]
	return err == nil && spGrown(w) && w.off == o+n && spAct(b, ActionTypeUnsetVar, s, name)
}

//@ requires (*ActionWriter).SetNull
func reqAWSetNull(w *ActionWriter, s varScope, name string) bool {
	return okAW(w) && vDisjoint(w.data, name) && len(name) < 1<<32
}

//@ modifies (*ActionWriter).SetNull
func modAWSetNull(w *ActionWriter, s varScope, name string) {
	vMod(&w.off)
	vMod(&w.data)
	vModBytes(w.data[w.off:])
}

//@ grows (*ActionWriter).SetNull
func grwAWSetNull(w *ActionWriter) *[]byte { return &w.data }

//@ ensures (*ActionWriter).SetNull prop=C05
func ensAWSetNull(w *ActionWriter, s varScope, name string, err error) bool {
	o := vOld(func() int { return w.off })
	n := spActLen(name)
	b := w.data[o:]
	return err == nil && spGrown(w) && w.off == o+n+1 && spAct(b, ActionTypeSetVar, s, name) && b[n] == byte(DataTypeNull)
}

//@ requires (*ActionWriter).SetBool
func reqAWSetBool(w *ActionWriter, s varScope, name string, v bool) bool {
	return okAW(w) && vDisjoint(w.data, name) && len(name) < 1<<32
}

//@ modifies (*ActionWriter).SetBool
func modAWSetBool(w *ActionWriter, s varScope, name string, v bool) {
	vMod(&w.off)
	vMod(&w.data)
	vModBytes(w.data[w.off:])
}

//@ grows (*ActionWriter).SetBool
func grwAWSetBool(w *ActionWriter) *[]byte { return &w.data }

//@ ensures (*ActionWriter).SetBool prop=C05
func ensAWSetBool(w *ActionWriter, s varScope, name string, v bool, err error) bool {
	o := vOld(func() int { return w.off })
	n := spActLen(name)
	b := w.data[o:]
	return err == nil && spGrown(w) && w.off == o+n+1 && spAct(b, ActionTypeSetVar, s, name) && b[n] == spBoolType(v)
}

//@ requires (*ActionWriter).SetInt64
func reqAWSetInt64(w *ActionWriter, s varScope, name string, v int64) bool {
	return okAW(w) && vDisjoint(w.data, name) && len(name) < 1<<32
}

//@ modifies (*ActionWriter).SetInt64
func modAWSetInt64(w *ActionWriter, s varScope, name string, v int64) {
	vMod(&w.off)
	vMod(&w.data)
	vModBytes(w.data[w.off:])
}

//@ grows (*ActionWriter).SetInt64
func grwAWSetInt64(w *ActionWriter) *[]byte { return &w.data }

//@ ensures (*ActionWriter).SetInt64 prop=C05
func ensAWSetInt64(w *ActionWriter, s varScope, name string, v int64, err error) bool {
	o := vOld(func() int { return w.off })
	n := spActLen(name)
	b := w.data[o:]
	return err == nil && spGrown(w) && w.off == o+n+1+spLen(uint64(v)) && spAct(b, ActionTypeSetVar, s, name) && b[n] == byte(DataTypeInt64) && spIntAt(b, n+1, uint64(v))
}

//@ requires (*ActionWriter).SetInt32
func reqAWSetInt32(w *ActionWriter, s varScope, name string, v int32) bool {
	return okAW(w) && vDisjoint(w.data, name) && len(name) < 1<<32
}

//@ modifies (*ActionWriter).SetInt32
func modAWSetInt32(w *ActionWriter, s varScope, name string, v int32) {
	vMod(&w.off)
	vMod(&w.data)
	vModBytes(w.data[w.off:])
}

//@ grows (*ActionWriter).SetInt32
func grwAWSetInt32(w *ActionWriter) *[]byte { return &w.data }

//@ ensures (*ActionWriter).SetInt32 prop=C05
func ensAWSetInt32(w *ActionWriter, s varScope, name string, v int32, err error) bool {
	o := vOld(func() int { return w.off })
	n := spActLen(name)
	b := w.data[o:]
	return err == nil && spGrown(w) && w.off == o+n+1+spLen(uint64(int64(v))) && spAct(b, ActionTypeSetVar, s, name) && b[n] == byte(DataTypeInt64) && spIntAt(b, n+1, uint64(int64(v)))
}

//@ requires (*ActionWriter).SetUInt32
func reqAWSetUInt32(w *ActionWriter, s varScope, name string, v uint32) bool {
	return okAW(w) && vDisjoint(w.data, name) && len(name) < 1<<32
}

//@ modifies (*ActionWriter).SetUInt32
func modAWSetUInt32(w *ActionWriter, s varScope, name string, v uint32) {
	vMod(&w.off)
	vMod(&w.data)
	vModBytes(w.data[w.off:])
}

//@ grows (*ActionWriter).SetUInt32
func grwAWSetUInt32(w *ActionWriter) *[]byte { return &w.data }

//@ ensures (*ActionWriter).SetUInt32 prop=C05
func ensAWSetUInt32(w *ActionWriter, s varScope, name string, v uint32, err error) bool {
	o := vOld(func() int { return w.off })
	n := spActLen(name)
	b := w.data[o:]
	return err == nil && spGrown(w) && w.off == o+n+1+spLen(uint64(int64(v))) && spAct(b, ActionTypeSetVar, s, name) && b[n] == byte(DataTypeInt64) && spIntAt(b, n+1, uint64(int64(v)))
}

//@ requires (*ActionWriter).SetUInt64
func reqAWSetUInt64(w *ActionWriter, s varScope, name string, v uint64) bool {
	return okAW(w) && vDisjoint(w.data, name) && len(name) < 1<<32
}

//@ modifies (*ActionWriter).SetUInt64
func modAWSetUInt64(w *ActionWriter, s varScope, name string, v uint64) {
	vMod(&w.off)
	vMod(&w.data)
	vModBytes(w.data[w.off:])
}

//@ grows (*ActionWriter).SetUInt64
func grwAWSetUInt64(w *ActionWriter) *[]byte { return &w.data }

//@ ensures (*ActionWriter).SetUInt64 prop=C05
func ensAWSetUInt64(w *ActionWriter, s varScope, name string, v uint64, err error) bool {
	o := vOld(func() int { return w.off })
	n := spActLen(name)
	b := w.data[o:]
	return err == nil && spGrown(w) && w.off == o+n+1+spLen(uint64(int64(v))) && spAct(b, ActionTypeSetVar, s, name) && b[n] == byte(DataTypeInt64) && spIntAt(b, n+1, uint64(int64(v)))
}

//@ requires (*ActionWriter).SetString
func reqAWSetString(w *ActionWriter, s varScope, name string, v string) bool {
	return okAW(w) && vDisjoint(w.data, name) && len(name) < 1<<32 && vDisjoint(w.data, v) && len(v) < 1<<32
}

//@ modifies (*ActionWriter).SetString
func modAWSetString(w *ActionWriter, s varScope, name string, v string) {
	vMod(&w.off)
	vMod(&w.data)
	vModBytes(w.data[w.off:])
}

//@ grows (*ActionWriter).SetString
func grwAWSetString(w *ActionWriter) *[]byte { return &w.data }

//@ ensures (*ActionWriter).SetString prop=C05
func ensAWSetString(w *ActionWriter, s varScope, name string, v string, err error) bool {
	o := vOld(func() int { return w.off })
	n := spActLen(name)
	b := w.data[o:]
	return err == nil && spGrown(w) && w.off == o+n+1+spLen(uint64(len(v)))+len(v) && spAct(b, ActionTypeSetVar, s, name) && b[n] == byte(DataTypeString) && spIsStr(b[n+1:], v, spLen(uint64(len(v)))+len(v))
}

//@ requires (*ActionWriter).SetStringBytes
func reqAWSetStringBytes(w *ActionWriter, s varScope, name string, v []byte) bool {
	return okAW(w) && vDisjoint(w.data, name) && len(name) < 1<<32 && vDisjoint(w.data, v) && len(v) < 1<<32
}

//@ modifies (*ActionWriter).SetStringBytes
func modAWSetStringBytes(w *ActionWriter, s varScope, name string, v []byte) {
	vMod(&w.off)
	vMod(&w.data)
	vModBytes(w.data[w.off:])
}

//@ grows (*ActionWriter).SetStringBytes
func grwAWSetStringBytes(w *ActionWriter) *[]byte { return &w.data }

//@ ensures (*ActionWriter).SetStringBytes prop=C05
func ensAWSetStringBytes(w *ActionWriter, s varScope, name string, v []byte, err error) bool {
	o := vOld(func() int { return w.off })
	n := spActLen(name)
	b := w.data[o:]
	return err == nil && spGrown(w) && w.off == o+n+1+spLen(uint64(len(v)))+len(v) && spAct(b, ActionTypeSetVar, s, name) && b[n] == byte(DataTypeString) && spIsBytes(b[n+1:], v, spLen(uint64(len(v)))+len(v))
}

//@ requires (*ActionWriter).SetBinary
func reqAWSetBinary(w *ActionWriter, s varScope, name string, v []byte) bool {
	return okAW(w) && vDisjoint(w.data, name) && len(name) < 1<<32 && vDisjoint(w.data, v) && len(v) < 1<<32
}

//@ modifies (*ActionWriter).SetBinary
func modAWSetBinary(w *ActionWriter, s varScope, name string, v []byte) {
	vMod(&w.off)
	vMod(&w.data)
	vModBytes(w.data[w.off:])
}

//@ grows (*ActionWriter).SetBinary
func grwAWSetBinary(w *ActionWriter) *[]byte { return &w.data }

//@ ensures (*ActionWriter).SetBinary prop=C05
func ensAWSetBinary(w *ActionWriter, s varScope, name string, v []byte, err error) bool {
	o := vOld(func() int { return w.off })
	n := spActLen(name)
	b := w.data[o:]
	return err == nil && spGrown(w) && w.off == o+n+1+spLen(uint64(len(v)))+len(v) && spAct(b, ActionTypeSetVar, s, name) && b[n] == byte(DataTypeBinary) && spIsBytes(b[n+1:], v, spLen(uint64(len(v)))+len(v))
}

//@ requires (*ActionWriter).SetAddr
func reqAWSetAddr(w *ActionWriter, s varScope, name string, v netip.Addr) bool {
	return okAW(w) && vDisjoint(w.data, name) && len(name) < 1<<32
}

//@ modifies (*ActionWriter).SetAddr
func modAWSetAddr(w *ActionWriter, s varScope, name string, v netip.Addr) {
	vMod(&w.off)
	vMod(&w.data)
	vModBytes(w.data[w.off:])
}

//@ grows (*ActionWriter).SetAddr
func grwAWSetAddr(w *ActionWriter) *[]byte { return &w.data }

//@ ensures (*ActionWriter).SetAddr prop=C05
func ensAWSetAddr(w *ActionWriter, s varScope, name string, v netip.Addr, err error) bool {
	o := vOld(func() int { return w.off })
	n := spActLen(name)
	if !v.IsValid() {
		return err != nil && w.off == o && vSame(w.data, vOld(func() []byte { return w.data })) && spGrown(w)
	}
	b := w.data[o:]
	return err == nil && spGrown(w) && w.off == o+n+1+spAddrLen(v) && spAct(b, ActionTypeSetVar, s, name) && b[n] == spAddrType(v) && spIsAddr(b[n+1:], v)
}
