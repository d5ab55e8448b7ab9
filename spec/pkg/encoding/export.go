package encoding

import "net/netip"

// Specification functions for the other packages.

func SpForm(b []byte, n int) bool    { return spForm(b, n) }
func SpVal(b []byte, n int) uint64   { return spVal(b, n) }
func SpOpen(b []byte) bool           { return spOpen(b) }
func SpFormR(rd any, p, n int) bool  { return spFormR(rd, p, n) }
func SpValR(rd any, p, n int) uint64 { return spValR(rd, p, n) }
func SpOpenR(rd any, p, n int) bool {
	return n <= 0 || vInAt(rd, p) >= 240 && vForall(1, n, func(j int) bool { return vInAt(rd, p+j) >= 128 })
}
func SpLen(i uint64) int                       { return spLen(i) }
func SpIsEnc(b []byte, i uint64, n int) bool   { return spIsEnc(b, i, n) }
func SpByte(i uint64, n, k int) byte           { return spByte(i, n, k) }
func SpKeyLen(name string) int                 { return spKeyLen(name) }
func SpKey(b []byte, name string, t byte) bool { return spKey(b, name, t) }
func SpIntAt(b []byte, n int, v uint64) bool   { return spIntAt(b, n, v) }
func SpIsStr(b []byte, v string, n int) bool   { return spIsStr(b, v, n) }
func SpRestOf(now, b []byte, c int) bool       { return spRestOf(now, b, c) }
func SpIsAddr(b []byte, ip netip.Addr) bool    { return spIsAddr(b, ip) }
func SpAddrLen(ip netip.Addr) int              { return spAddrLen(ip) }
func SpScanBuf(k *KVScanner) []byte            { return k.buf }
func SpScanLeft(k *KVScanner) int              { return k.left }
func SpScanErr(k *KVScanner) error             { return k.lastErr }
func SpAWOff(w *ActionWriter) int              { return w.off }
func SpAWData(w *ActionWriter) []byte          { return w.data }
