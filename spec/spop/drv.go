package spop

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"log"
	"net"
	"runtime"
	"sync"
	"time"

	"github.com/dropmorepackets/haproxy-go/pkg/encoding"
)

func init() { log.SetOutput(io.Discard) }

// ---- reference frames

type dFrame struct {
	t        byte
	flags    uint32
	sid, fid uint64
	payload  []byte
}

func (f dFrame) body() []byte {
	b := binary.BigEndian.AppendUint32([]byte{f.t}, f.flags)
	b = append(b, vVarint(f.sid)...)
	b = append(b, vVarint(f.fid)...)
	return append(b, f.payload...)
}

func (f dFrame) bytes() []byte {
	b := f.body()
	return append(binary.BigEndian.AppendUint32(nil, uint32(len(b))), b...)
}

func dDecode(b []byte) (f dFrame, ok bool) {
	if len(b) < 5 {
		return f, false
	}
	f.t = b[0]
	f.flags = binary.BigEndian.Uint32(b[1:])
	b = b[5:]
	v, n := vGetVarint(b)
	if n == 0 {
		return f, false
	}
	f.sid = v
	b = b[n:]
	v, n = vGetVarint(b)
	if n == 0 {
		return f, false
	}
	f.fid = v
	f.payload = b[n:]
	return f, true
}

// dSplit splits a byte stream into frames; ok: it consists of whole frames.
func dSplit(b []byte) (l []dFrame, ok bool) {
	for len(b) > 0 {
		if len(b) < 4 {
			return l, false
		}
		n := binary.BigEndian.Uint32(b)
		if uint64(n) > uint64(len(b)-4) {
			return l, false
		}
		f, ok := dDecode(b[4 : 4+n])
		if !ok {
			return l, false
		}
		l = append(l, f)
		b = b[4+n:]
	}
	return l, true
}

func (r *vRand) frame() dFrame {
	f := dFrame{t: byte(r.Intn(5)), flags: uint32(r.Intn(3)), sid: r.u64(), fid: r.u64()}
	if r.Intn(6) == 0 {
		f.t, f.flags = byte(r.Intn(256)), uint32(r.u64())
	}
	switch r.Intn(8) {
	case 0:
	case 1:
		f.payload = r.kvRaw(r.Intn(3000))
	case 2:
		if r.Intn(10) == 0 {
			f.payload = r.kvRaw(65000 + r.Intn(70000))
		}
	default:
		f.payload = r.kvRaw(r.Intn(60))
	}
	return f
}

func dMeta(f *frame) dFrame {
	return dFrame{t: byte(f.frameType), flags: uint32(f.meta.Flags), sid: f.meta.StreamID, fid: f.meta.FrameID, payload: f.buf.ReadBytes()}
}

func (a dFrame) same(b dFrame) bool {
	return a.t == b.t && a.flags == b.flags && a.sid == b.sid && a.fid == b.fid && bytes.Equal(a.payload, b.payload)
}

func dNewFrame(d dFrame) *frame {
	f := acquireFrame()
	if _, err := f.readFrom(&vConn{in: d.bytes(), fail: -1}, 1<<30); err != nil {
		panic("a well-formed frame is refused: " + err.Error())
	}
	return f
}

//@ driver C06
func drvFrameRead(r *vRand) {
	c := &vConn{fail: -1, frag: r.Intn(4)}
	if r.Intn(3) == 0 {
		c.frag = 1 + r.Intn(200)
	}
	for k := 1 + r.Intn(3); k > 0; k-- {
		b := r.frame().bytes()
		switch r.Intn(6) {
		case 0:
			n := r.Intn(12)
			b = append(binary.BigEndian.AppendUint32(nil, uint32(n)), r.bytes(n)...)
		case 1:
			b = r.spoilt(b)
		case 2:
			// a header whose ids do not end
			b = append(b[:9:9], bytes.Repeat([]byte{255}, r.Intn(12))...)
			binary.BigEndian.PutUint32(b, uint32(len(b)-4))
		}
		c.in = append(c.in, b...)
	}
	if r.Intn(3) == 0 {
		c.in = c.in[:r.Intn(len(c.in)+1)]
	}
	for step := 0; step < 4; step++ {
		rest := c.in[c.pos:]
		start := c.pos
		limit := uint32(maxFrameSize)
		var n uint32
		if len(rest) >= 4 {
			n = binary.BigEndian.Uint32(rest)
			switch r.Intn(3) {
			case 0:
				limit = n + uint32(r.Intn(3)) - 1
			case 1:
				limit = uint32(r.Intn(300000))
			}
		}
		if limit > 1<<20 {
			limit = 1 << 20
		}
		f := acquireFrame()
		var err error
		var got int64
		if limit == maxFrameSize && r.Intn(2) == 0 {
			got, err = f.ReadFrom(c)
		} else {
			got, err = f.readFrom(c, limit)
		}
		used := c.pos - start
		switch {
		case len(rest) < 4:
			vAssert("a truncated length is an error", err != nil)
			releaseFrame(f)
			return
		case n > limit:
			vAssert("a length above the limit is an error", err != nil)
			vAssert("no payload byte of a frame above the limit is read", used == 4)
			vAssert("no payload byte of a frame above the limit is stored", f.buf.Len() == 0)
			releaseFrame(f)
			return
		case uint64(n) > uint64(len(rest)-4):
			vAssert("a truncated payload is an error", err != nil)
			releaseFrame(f)
			return
		}
		vAssert("exactly one frame is consumed", used == 4+int(n))
		want, ok := dDecode(rest[4 : 4+n])
		vAssert("a frame is accepted exactly when its header is complete", ok == (err == nil))
		if ok {
			vAssert("the size is reported", got == int64(4+n))
			vAssert("the frame is decoded as sent", want.same(dMeta(f)))
		}
		releaseFrame(f)
	}
}

//@ driver C07
func drvFrameWrite(r *vRand) {
	c := &vConn{fail: -1}
	c.out = r.kvRaw(r.Intn(5))
	base := len(c.out)
	whole := func(t byte, sid, fid uint64) []byte {
		vAssert("a frame is one write", c.calls == 1)
		out := c.out[base:]
		vAssert("a frame has a length", len(out) >= 4)
		vAssert("the length is that of the rest", int(binary.BigEndian.Uint32(out)) == len(out)-4)
		f, ok := dDecode(out[4:])
		vAssert("a frame has a header", ok && f.t == t && f.flags == 1 && f.sid == sid && f.fid == fid)
		return f.payload
	}
	silent := func(err error) {
		vAssert("a failure is reported", err != nil)
		vAssert("nothing is written for a failed frame", c.calls == 0 && len(c.out) == base)
	}
	switch r.Intn(4) {
	case 0:
		v := string(r.bytes(600))
		if r.Intn(20) == 0 {
			v = string(r.kvRaw(65400 + r.Intn(200)))
		}
		var caps []string
		for k := r.Intn(3); k > 0; k-- {
			caps = append(caps, string(r.bytes(20)))
		}
		size := uint32(r.u64())
		n, err := (&AgentHelloFrame{Version: v, Capabilities: caps, MaxFrameSize: size}).WriteTo(c)
		want := vKV("version", 8, v)
		want = append(want, vKV("max-frame-size", 3, int64(size))...)
		all := ""
		for i, s := range caps {
			if i > 0 {
				all += ","
			}
			all += s
		}
		want = append(want, vKV("capabilities", 8, all)...)
		if err != nil {
			vAssert("an AGENT-HELLO that fits is sent", len(want)+7 > maxFrameSize)
			silent(err)
			return
		}
		vAssert("the AGENT-HELLO holds its entries", bytes.Equal(whole(101, 0, 0), want))
		vAssert("the written size is reported", int(n) == len(c.out)-base)
	case 1:
		code := errorCode(r.Intn(20))
		if r.Intn(4) == 0 {
			code = ErrorUnknown
		}
		n, err := (&AgentDisconnectFrame{ErrCode: code}).WriteTo(c)
		vAssert("an AGENT-DISCONNECT is sent", err == nil)
		want := append(vKV("status-code", 3, int64(code)), vKV("message", 8, code.String())...)
		vAssert("the AGENT-DISCONNECT holds code and message", bytes.Equal(whole(102, 0, 0), want))
		vAssert("the written size is reported", int(n) == len(c.out)-base)
	default:
		sid, fid := r.u64(), r.u64()
		var acts []byte
		bad := r.Intn(4) == 0
		k := r.Intn(4)
		if r.Intn(30) == 0 {
			k = 200 + r.Intn(100)
		}
		big := r.Intn(10) == 0
		seed := r.Int63()
		cb := func(w *encoding.ActionWriter) error {
			for i := 0; i < k; i++ {
				v := make([]byte, int(uint64(seed+int64(i)*7919)%300))
				if big {
					v = make([]byte, 20000)
				}
				acts = append(acts, append([]byte{1, 3, 2, 1, 'n', 9}, vBlob(v)...)...)
				if err := w.SetBinary(encoding.VarScopeTransaction, "n", v); err != nil {
					panic("an action is refused: " + err.Error())
				}
			}
			if bad {
				return errors.New("construction failed")
			}
			return nil
		}
		a := &AckFrame{FrameID: fid, StreamID: sid, ActionWriterCallback: cb}
		// the size is known once the actions are; run the callback once to learn it
		probe := encoding.NewActionWriter(nil, 0)
		_ = cb(probe)
		size := 5 + len(vVarint(sid)) + len(vVarint(fid)) + len(acts)
		acts = nil
		limit := uint32(size)
		switch r.Intn(5) {
		case 0:
			limit--
		case 1:
			limit++
		case 2:
			limit = uint32(r.Intn(2 * size))
		}
		var err error
		var n int64
		if r.Intn(4) == 0 {
			limit = maxFrameSize
			n, err = a.WriteTo(c)
		} else {
			n, err = a.writeTo(c, limit)
		}
		if bad || size > int(limit) {
			silent(err)
			return
		}
		vAssert("an ACK within the limit is sent", err == nil)
		vAssert("the ACK holds exactly the actions", bytes.Equal(whole(103, sid, fid), acts))
		vAssert("the written size is reported", int(n) == len(c.out)-base)
	}
}

func (r *vRand) hello(valid bool) []byte {
	var b []byte
	for k := r.Intn(4); k > 0; k-- {
		switch r.Intn(3) {
		case 0:
			b = append(b, vKV("supported-versions", 8, "2.0")...)
		case 1:
			b = append(b, vKV("engine-id", 8, string(r.kvRaw(r.Intn(40))))...)
		case 2:
			b = append(b, r.kv("capabilities")...)
		}
	}
	size := func() {
		v := int64(256 + r.Intn(70000))
		if !valid {
			switch r.Intn(4) {
			case 0:
				v = int64(r.u64())
			case 1:
				l := []int64{0, -1, 255, 256, 257, 1 << 16, 1<<31 - 1, 1 << 31, 1<<32 + 300, -1 << 63, 1 << 32}
				v = l[r.Intn(len(l))]
			}
		}
		b = append(b, vKV("max-frame-size", []byte{3, 3, 3, 2, 4, 5}[r.Intn(6)], v)...)
	}
	if valid {
		size()
	} else {
		for k := []int{0, 1, 1, 1, 1, 2, 2, 3}[r.Intn(8)]; k > 0; k-- {
			size()
		}
	}
	for k := r.Intn(2); k > 0; k-- {
		b = append(b, vKV("capabilities", 8, "pipelining")...)
	}
	if !valid && r.Intn(5) == 0 {
		b = r.spoilt(b)
	}
	return b
}

//@ driver C08
func drvHello(r *vRand) {
	var in []byte
	first := dFrame{t: 1, flags: 1}
	if r.Intn(6) == 0 {
		first.t = byte(r.Intn(256))
	}
	first.payload = r.hello(r.Intn(3) == 0)
	health := r.Intn(4) == 0
	if health {
		e := vKV("healthcheck", 1, true)
		if r.Intn(2) == 0 {
			first.payload = append(e, first.payload...)
		} else {
			first.payload = append(first.payload, e...)
		}
	}
	// what the HELLO says
	good, ended, size := first.t == 1, false, int64(0)
	for b := first.payload; good && len(b) > 0; {
		name, _, num, n := vSkipKV(b)
		if n == 0 {
			good = false
			break
		}
		b = b[n:]
		if name == "max-frame-size" {
			size = num
			if num < 256 || num > 1<<31-1 {
				good = false
			}
		}
		if name == "healthcheck" {
			ended = true
		}
	}
	if size == 0 {
		good = false
	}
	in = append(in, first.bytes()...)
	// frames after it, queued if within the size
	var want []dFrame
	over := false
	for k := r.Intn(4); k > 0 && !over; k-- {
		f := dFrame{t: byte(2 + r.Intn(3)), flags: 1, sid: r.u64(), fid: r.u64(), payload: r.kvRaw(r.Intn(40))}
		if good && size < 200000 && r.Intn(3) == 0 {
			f.payload = make([]byte, 0)
			n := int(size) - len(f.body()) + r.Intn(3) - 1
			f.payload = r.kvRaw(n)
		}
		in = append(in, f.bytes()...)
		if good && int64(len(f.body())) > size {
			over = true
			break
		}
		want = append(want, f)
	}
	c := &vConn{in: in, fail: -1, frag: []int{0, 0, 1, 7, 100}[r.Intn(5)]}
	as := &asyncScheduler{q: newQueue(16)}
	calls := 0
	p := newProtocolClient(context.Background(), c, as, HandlerFunc(func(context.Context, *encoding.ActionWriter, *encoding.Message) { calls++ }))
	err := wrapPanic(p.Serve)
	out, whole := dSplit(c.out)
	vAssert("only whole frames are sent", whole)
	if !good {
		vAssert("a bad first frame is an error", err != nil)
		vAssert("a bad first frame is not answered", len(c.out) == 0 && c.calls == 0)
		vAssert("nothing is dispatched after a bad first frame", as.q.size == 0 && calls == 0)
		return
	}
	vAssert("a HELLO is answered by one frame", len(out) == 1 && c.calls == 1)
	reply := dFrame{t: 101, flags: 1}
	reply.payload = append(vKV("version", 8, "2.0"), vKV("max-frame-size", 3, size)...)
	reply.payload = append(reply.payload, vKV("capabilities", 8, "")...)
	vAssert("the AGENT-HELLO announces version, size and no capabilities", reply.same(out[0]))
	if ended {
		vAssert("a healthcheck ends the session", p.ctx.Err() != nil && as.q.size == 0)
		vAssert("nothing is read after a healthcheck", c.pos == len(first.bytes()))
		return
	}
	vAssert("the session goes on after a HELLO", p.ctx.Err() == nil)
	vAssert("a frame above the negotiated size is an error", over == (err != nil))
	vAssert("frames within the negotiated size are dispatched", as.q.size == len(want))
	for _, w := range want {
		e := as.q.Get()
		vAssert("frames are dispatched in order and unaltered", e.pc == p && w.same(dMeta(e.f)))
		releaseFrame(e.f)
	}
}

// ---- NOTIFY processing

type dAction struct {
	kind int
	name string
	v    []byte
}

func (a dAction) encode() []byte {
	switch a.kind {
	case 0:
		return append([]byte{2, 2, 1}, vBlob([]byte(a.name))...)
	case 1:
		return append(append(append([]byte{1, 3, 4}, vBlob([]byte(a.name))...), 8), vBlob(a.v)...)
	}
	return append(append(append([]byte{1, 3, 0}, vBlob([]byte(a.name))...), 4), vVarint(uint64(len(a.v)))...)
}

func (a dAction) do(w *encoding.ActionWriter) error {
	switch a.kind {
	case 0:
		return w.Unset(encoding.VarScopeSession, a.name)
	case 1:
		return w.SetString(encoding.VarScopeResponse, a.name, string(a.v))
	}
	return w.SetInt64(encoding.VarScopeProcess, a.name, int64(len(a.v)))
}

type dMsg struct {
	name  string
	args  []string
	raw   []byte
	acts  []dAction
	read  int
	panic any
}

func (r *vRand) msg() dMsg {
	m := dMsg{name: fmt.Sprintf("m%d", r.Intn(1000)), panic: nil}
	m.raw = vBlob([]byte(m.name))
	n := r.Intn(4)
	m.raw = append(m.raw, byte(n))
	for i := 0; i < n; i++ {
		s := fmt.Sprintf("a%d", r.Intn(100))
		m.args = append(m.args, s)
		m.raw = append(m.raw, r.kv(s)...)
	}
	m.read = r.Intn(n + 2)
	for k := r.Intn(3); k > 0; k-- {
		a := dAction{kind: r.Intn(3), name: fmt.Sprintf("v%d", r.Intn(100)), v: r.kvRaw(r.Intn(20))}
		if r.Intn(60) == 0 {
			a.kind, a.v = 1, r.kvRaw(30000+r.Intn(40000))
		}
		m.acts = append(m.acts, a)
	}
	return m
}

type dErr struct{ x int }

func (e *dErr) Error() string { return fmt.Sprint(e.x) }

func (r *vRand) panicValue() any {
	return []any{"text", errors.New("an error"), 7, dErr{3}, (*dErr)(nil), error(nil), func() {}, []byte("b"), runtimeFault}[r.Intn(9)]
}

type dFault struct{}

var runtimeFault = dFault{}

func dIsFault(v any) bool {
	switch v.(type) {
	case func(), []byte:
		return false
	}
	return v == runtimeFault
}

// dRaise panics with v, or with a run-time error.
func dRaise(v any) {
	if dIsFault(v) {
		var b []byte
		_ = b[len(b)]
	}
	panic(v)
}

// dHandle is a handler that follows the plan of the messages.
func dHandle(msgs []dMsg, next *int, bad *string, ctx context.Context) HandlerFunc {
	return func(c context.Context, w *encoding.ActionWriter, m *encoding.Message) {
		fail := func(s string) {
			if *bad == "" {
				*bad = s
			}
		}
		i := *next
		*next = i + 1
		if i >= len(msgs) {
			fail("the handler runs once per message")
			return
		}
		g := msgs[i]
		if string(m.NameBytes()) != g.name {
			fail("the handler sees the messages in order")
		}
		e := encoding.AcquireKVEntry()
		defer encoding.ReleaseKVEntry(e)
		for k := 0; k < g.read; k++ {
			ok := m.KV.Next(e)
			if ok != (k < len(g.args)) {
				fail("the handler sees exactly the announced arguments")
				break
			}
			if ok && string(e.NameBytes()) != g.args[k] {
				fail("the handler sees the arguments in order")
			}
		}
		for _, a := range g.acts {
			if err := a.do(w); err != nil {
				fail("an action is refused")
			}
		}
		if g.panic != nil {
			dRaise(g.panic)
		}
	}
}

//@ driver C09,C10,C04
func drvNotify(r *vRand) {
	var msgs []dMsg
	var raw, acts []byte
	boom := -1
	for k := r.Intn(5); k > 0; k-- {
		m := r.msg()
		if boom < 0 && r.Intn(8) == 0 {
			if m.panic = r.panicValue(); m.panic != nil {
				boom = len(msgs)
			}
		}
		msgs = append(msgs, m)
		raw = append(raw, m.raw...)
		for _, a := range m.acts {
			acts = append(acts, a.encode()...)
		}
	}
	d := dFrame{t: 3, flags: 1, sid: r.u64(), fid: r.u64(), payload: raw}
	size := 5 + len(vVarint(d.sid)) + len(vVarint(d.fid)) + len(acts)
	limit := uint32(maxFrameSize)
	switch r.Intn(4) {
	case 0:
		limit = uint32(size + r.Intn(3) - 1)
	case 1:
		limit = 1<<31 - 1
	}
	cut := false
	if len(raw) > 0 && r.Intn(6) == 0 {
		// cut inside the last message: never well-formed
		last := len(msgs[len(msgs)-1].raw)
		d.payload = raw[:len(raw)-1-r.Intn(last-1)]
		cut = len(d.payload) > len(raw)-last
		vAssume(cut)
	}
	c := &vConn{fail: -1}
	next, bad := 0, ""
	p := newProtocolClient(context.Background(), c, nil, nil)
	p.handler = dHandle(msgs, &next, &bad, p.ctx)
	if cut {
		// the arguments of a damaged message are not compared
		p.handler = HandlerFunc(func(context.Context, *encoding.ActionWriter, *encoding.Message) { next++ })
		boom = -1
	}
	p.gotHello, p.maxFrameSize = true, limit
	f := dNewFrame(d)
	err := wrapPanic(func() error { return p.frameHandler(f) })
	if bad != "" {
		vAssert(bad, false)
	}
	if cut || boom >= 0 || size > int(limit) {
		vAssert("a NOTIFY that cannot be answered is an error", err != nil)
		vAssert("no ACK is sent for it", c.calls == 0 && len(c.out) == 0)
		if boom >= 0 && !cut {
			vAssert("no handler runs after a panic", next == boom+1)
		}
		return
	}
	vAssert("a well-formed NOTIFY is no error", err == nil)
	vAssert("the handler runs once per message", next == len(msgs))
	out, whole := dSplit(c.out)
	vAssert("exactly one ACK is sent", whole && len(out) == 1 && c.calls == 1)
	vAssert("the ACK carries the ids and the actions", out[0].same(dFrame{t: 103, flags: 1, sid: d.sid, fid: d.fid, payload: acts}))
}

// ---- frames of all kinds, whatever they hold

type dPanicConn struct {
	vConn
	boom bool
}

func (c *dPanicConn) Write(b []byte) (int, error) {
	if c.boom {
		panic("write panics")
	}
	return c.vConn.Write(b)
}

func dFramesDistinct() {
	seen := map[*frame]bool{}
	var l []*frame
	for i := 0; i < 8; i++ {
		f := acquireFrame()
		vAssert("no frame is handed out twice", !seen[f])
		seen[f] = true
		l = append(l, f)
	}
	for _, f := range l {
		vAssert("a recycled frame is like new", f.frameType == 0 && f.meta == frameMetadata{} && f.buf.Len() == 0 && len(f.buf.ReadBytes()) == 0 &&
			len(f.length) == 4 && len(f.buf.WriteBytes()) >= maxFrameSize)
		releaseFrame(f)
	}
}

//@ driver C10,C12
func drvFrames(r *vRand) {
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	c := &dPanicConn{vConn: vConn{fail: -1}, boom: r.Intn(4) == 0}
	if r.Intn(4) == 0 {
		c.fail = r.Intn(40)
	}
	h := HandlerFunc(func(ctx context.Context, w *encoding.ActionWriter, m *encoding.Message) {
		if r.Intn(3) == 0 {
			w.SetString(encoding.VarScopeSession, "n", "v")
		}
		if r.Intn(4) == 0 {
			dRaise(r.panicValue())
		}
	})
	p := newProtocolClient(context.Background(), c, nil, h)
	p.maxFrameSize = 256 + uint32(r.Intn(1000))
	for k := 1 + r.Intn(5); k > 0; k-- {
		d := r.frame()
		switch r.Intn(5) {
		case 0:
			d.t, d.payload = 1, r.hello(r.Intn(2) == 0)
		case 1, 2:
			d.t, d.payload = 3, nil
			for n := r.Intn(3); n > 0; n-- {
				d.payload = append(d.payload, r.msg().raw...)
			}
		case 3:
			d.t, d.payload = 2, append(r.kv("status-code"), r.kv("message")...)
		}
		if r.Intn(3) == 0 {
			d.payload = r.spoilt(d.payload)
		}
		f := dNewFrame(d)
		_ = wrapPanic(func() error { return p.frameHandler(f) })
		dFramesDistinct()
	}
	// the other users of frames
	in := append(dFrame{t: byte(1 + r.Intn(3)), payload: r.hello(r.Intn(2) == 0)}.bytes(), r.frame().bytes()...)
	if r.Intn(2) == 0 {
		in = r.spoilt(in)
	}
	c.in, c.pos = in, 0
	as := &asyncScheduler{q: newQueue(16)}
	p = newProtocolClient(context.Background(), c, as, h)
	_ = wrapPanic(p.Serve)
	dFramesDistinct()
	for as.q.size > 0 {
		releaseFrame(as.q.Get().f)
	}
	_ = wrapPanic(func() error { return p.Close() })
	_ = wrapPanic(func() error {
		_, err := (&AckFrame{ActionWriterCallback: func(*encoding.ActionWriter) error { dRaise(r.panicValue()); return nil }}).WriteTo(c)
		return err
	})
	_ = wrapPanic(func() error {
		_, err := (&AgentHelloFrame{Version: string(r.bytes(90))}).WriteTo(c)
		return err
	})
	dFramesDistinct()
}

//@ driver C20
func drvDisconnect(r *vRand) {
	c := &vConn{fail: -1}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	p := newProtocolClient(ctx, c, nil, nil)
	switch r.Intn(4) {
	case 0: // close
		switch r.Intn(3) {
		case 0:
			cancel()
		case 1:
			p.ctxCancel(errors.New("x"))
		case 2:
			if r.Intn(3) == 0 {
				c.fail = r.Intn(30)
			}
		}
		if p.ctx.Err() != nil {
			vAssert("closing a cancelled session is reported", p.Close() != nil)
			vAssert("closing a cancelled session sends nothing", c.calls == 0)
			return
		}
		_ = p.Close()
		vAssert("closing cancels the context", p.ctx.Err() != nil)
		vAssert("closing sends one frame", c.calls == 1)
		if c.fail < 0 {
			want := dFrame{t: 102, flags: 1, payload: append(vKV("status-code", 3, int64(99)), vKV("message", 8, "an unknown error occurred")...)}
			out, whole := dSplit(c.out)
			vAssert("closing sends the AGENT-DISCONNECT", whole && len(out) == 1 && out[0].same(want))
		}
		_ = p.Close()
		vAssert("closing twice sends one frame", c.calls == 1)
	default:
		d := dFrame{t: 2, flags: 1, sid: r.u64(), fid: r.u64()}
		for k := r.Intn(4); k > 0; k-- {
			switch r.Intn(6) {
			case 0, 1, 2:
				v := int64(r.Intn(16))
				if r.Intn(3) == 0 {
					v = int64(r.u64())
				}
				d.payload = append(d.payload, vKV("status-code", byte(2+r.Intn(4)), v)...)
			case 3, 4:
				d.payload = append(d.payload, r.kv("message")...)
			case 5:
				d.payload = append(d.payload, r.kv([]string{"other", "", "status-cod", "messages", "Message"}[r.Intn(5)])...)
			}
		}
		if r.Intn(5) == 0 {
			d.payload = r.spoilt(d.payload)
		}
		bad, code := len(d.payload) == 0, int64(0)
		for b := d.payload; !bad && len(b) > 0; {
			name, _, num, n := vSkipKV(b)
			switch {
			case n == 0 || name != "status-code" && name != "message":
				bad = true
			case name == "status-code":
				code = num
			}
			b = b[n:]
		}
		err := wrapPanic(func() error { return p.frameHandler(dNewFrame(d)) })
		vAssert("nothing is sent for a disconnect", c.calls == 0)
		if bad {
			vAssert("a disconnect without proper content is an error", err != nil)
			return
		}
		vAssert("a disconnect cancels the context", p.ctx.Err() != nil)
		normal := code == 0 || code == 1 || code == 2
		vAssert("a disconnect is an error exactly when its status is none of normal, I/O and timeout", normal == (err == nil))
		vAssert("the cause is an error exactly when the disconnect is one", normal == (context.Cause(p.ctx) == context.Canceled))
	}
}

// ---- the queue

func dUntil(f func() bool) bool {
	end := time.Now().Add(20 * time.Second)
	for i := 0; !f(); i++ {
		if time.Now().After(end) {
			return false
		}
		if i < 100 {
			runtime.Gosched()
		} else {
			time.Sleep(50 * time.Microsecond)
		}
	}
	return true
}

//@ driver C11
func drvQueue(r *vRand) {
	n := 1 + r.Intn(6)
	q := newQueue(n)
	var want []*protocolClient
	for k := r.Intn(40); k > 0; k-- {
		if len(want) < n && (len(want) == 0 || r.Intn(2) == 0) {
			p := &protocolClient{}
			f := &frame{frameType: frameType(len(want))}
			q.Put(f, p)
			want = append(want, p)
		} else if len(want) > 0 {
			e := q.Get()
			vAssert("elements come out in order", e.pc == want[0] && e.f != nil)
			want = want[1:]
		}
	}
	// a put into a full queue waits
	for len(want) < n {
		p := &protocolClient{}
		q.Put(nil, p)
		want = append(want, p)
	}
	extra := &protocolClient{}
	done := make(chan bool)
	go func() { q.Put(nil, extra); close(done) }()
	for i := 0; i < 20; i++ {
		runtime.Gosched()
	}
	select {
	case <-done:
		vAssert("a full queue takes nothing", false)
	default:
	}
	want = append(want, extra)
	for _, p := range want {
		e := q.Get()
		vAssert("elements come out in order", e.pc == p)
	}
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		vAssert("a waiting producer goes on once there is room", false)
	}
}

// Waiting consumers and producers are woken, whatever the timing.
//
//@ driver C11
func drvQueueWake(r *vRand) {
	n := 2 + r.Intn(4)
	q := newQueue(n)
	k := 2 + r.Intn(n-1)
	var mu sync.Mutex
	got := map[*protocolClient]int{}
	count := 0
	take := func() {
		e := q.Get()
		mu.Lock()
		got[e.pc]++
		count++
		mu.Unlock()
	}
	num := func() int { mu.Lock(); defer mu.Unlock(); return count }
	for i := 0; i < k; i++ {
		go take()
	}
	if r.Intn(4) > 0 {
		time.Sleep(time.Duration(r.Intn(300)) * time.Microsecond)
	}
	for i := 0; i < k; i++ {
		q.Put(nil, &protocolClient{maxFrameSize: uint32(i)})
	}
	vAssert("every waiting consumer gets its element", dUntil(func() bool { return num() == k }))
	for _, c := range got {
		vAssert("no element is delivered twice", c == 1)
	}
	// fill, then let producers wait
	for i := 0; i < n; i++ {
		q.Put(nil, &protocolClient{})
	}
	put := 0
	for i := 0; i < k; i++ {
		go func() {
			q.Put(nil, &protocolClient{})
			mu.Lock()
			put++
			mu.Unlock()
		}()
	}
	if r.Intn(4) > 0 {
		time.Sleep(time.Duration(r.Intn(300)) * time.Microsecond)
	}
	for i := 0; i < k; i++ {
		take()
	}
	vAssert("every waiting producer goes on", dUntil(func() bool { mu.Lock(); defer mu.Unlock(); return put == k }))
	for i := 0; i < n; i++ {
		take()
	}
	vAssert("no element is lost or delivered twice", len(got) == 2*k+n)
}

//@ driver C11
func drvQueueStress(r *vRand) {
	n := 1 + r.Intn(4)
	q := newQueue(n)
	np, nc := 1+r.Intn(4), 1+r.Intn(4)
	per := 1 + r.Intn(60)
	clients := make([]protocolClient, np)
	var mu sync.Mutex
	seen := map[[2]uint64]int{}
	lastOf := make([]map[int]uint64, nc)
	total := 0
	ordered := true
	for i := 0; i < np; i++ {
		i := i
		go func() {
			for k := 1; k <= per; k++ {
				q.Put(&frame{meta: frameMetadata{StreamID: uint64(i), FrameID: uint64(k)}}, &clients[i])
			}
		}()
	}
	stop := make(chan bool)
	for j := 0; j < nc; j++ {
		j := j
		lastOf[j] = map[int]uint64{}
		go func() {
			for {
				e := q.Get()
				if e.f.meta.StreamID == 1<<40 {
					stop <- true
					return
				}
				mu.Lock()
				id := int(e.f.meta.StreamID)
				seen[[2]uint64{e.f.meta.StreamID, e.f.meta.FrameID}]++
				if e.f.meta.FrameID <= lastOf[j][id] || e.pc != &clients[id] {
					ordered = false
				}
				lastOf[j][id] = e.f.meta.FrameID
				total++
				mu.Unlock()
			}
		}()
	}
	vAssert("every element is delivered", dUntil(func() bool { mu.Lock(); defer mu.Unlock(); return total >= np*per }))
	for j := 0; j < nc; j++ {
		q.Put(&frame{meta: frameMetadata{StreamID: 1 << 40}}, nil)
	}
	for j := 0; j < nc; j++ {
		select {
		case <-stop:
		case <-time.After(20 * time.Second):
			vAssert("every waiting consumer is woken", false)
		}
	}
	vAssert("each element is delivered once", len(seen) == np*per && total == np*per)
	vAssert("elements of one producer reach a consumer in order", ordered)
}

// ---- a whole agent

type dDuplex struct {
	mu     sync.Mutex
	cond   *sync.Cond
	in     []byte
	eof    bool
	closed int
	frag   int
	writes [][]byte
	boom   bool // Read panics
	vConn
}

func newDuplex() *dDuplex {
	d := &dDuplex{}
	d.cond = sync.NewCond(&d.mu)
	return d
}

func (d *dDuplex) Read(p []byte) (int, error) {
	d.mu.Lock()
	defer d.mu.Unlock()
	for len(d.in) == 0 && !d.eof && d.closed == 0 {
		d.cond.Wait()
	}
	if d.boom {
		panic("read panics")
	}
	if len(d.in) == 0 || d.closed > 0 {
		return 0, io.EOF
	}
	n := copy(p, d.in)
	if d.frag > 0 && n > d.frag {
		n = d.frag
	}
	d.in = d.in[n:]
	return n, nil
}

func (d *dDuplex) Write(p []byte) (int, error) {
	d.mu.Lock()
	defer d.mu.Unlock()
	if d.closed > 0 {
		return 0, io.ErrClosedPipe
	}
	d.writes = append(d.writes, append([]byte{}, p...))
	d.cond.Broadcast()
	return len(p), nil
}

func (d *dDuplex) Close() error {
	d.mu.Lock()
	defer d.mu.Unlock()
	d.closed++
	d.cond.Broadcast()
	return nil
}

func (d *dDuplex) send(b []byte) {
	d.mu.Lock()
	defer d.mu.Unlock()
	d.in = append(d.in, b...)
	d.cond.Broadcast()
}

func (d *dDuplex) end() {
	d.mu.Lock()
	defer d.mu.Unlock()
	d.eof = true
	d.cond.Broadcast()
}

// frames decodes what was written; every write is exactly one frame.
func (d *dDuplex) frames() (l []dFrame, ok bool) {
	d.mu.Lock()
	defer d.mu.Unlock()
	for _, w := range d.writes {
		f, ok := dSplit(w)
		if !ok || len(f) != 1 {
			return l, false
		}
		l = append(l, f[0])
	}
	return l, true
}

func (d *dDuplex) isClosed() bool {
	d.mu.Lock()
	defer d.mu.Unlock()
	return d.closed > 0
}

type dListener struct{ ch chan net.Conn }

func (l *dListener) Accept() (net.Conn, error) {
	c, ok := <-l.ch
	if !ok {
		return nil, net.ErrClosed
	}
	return c, nil
}
func (l *dListener) Close() error   { return nil }
func (l *dListener) Addr() net.Addr { return &net.TCPAddr{} }

var dAgent struct {
	once sync.Once
	l    *dListener
	done chan error
}

// The plan of a message is its first argument: "ok", "panic".
func dAgentHandler(ctx context.Context, w *encoding.ActionWriter, m *encoding.Message) {
	name := string(m.NameBytes())
	e := encoding.AcquireKVEntry()
	defer encoding.ReleaseKVEntry(e)
	mode := ""
	if m.KV.Next(e) {
		mode = string(e.ValueBytes())
	}
	if len(name)%3 == 0 {
		runtime.Gosched()
	}
	if err := w.SetString(encoding.VarScopeTransaction, name, mode); err != nil {
		panic(err)
	}
	switch mode {
	case "panic":
		panic("handler: " + name)
	case "nil":
		var p *dErr
		p.x = 1
	}
}

//@ driver C09,C10,C08,C20
func drvAgent(r *vRand) {
	dAgent.once.Do(func() {
		dAgent.l = &dListener{make(chan net.Conn)}
		dAgent.done = make(chan error, 1)
		go func() { dAgent.done <- (&Agent{Handler: HandlerFunc(dAgentHandler)}).Serve(dAgent.l) }()
	})
	type conn struct {
		d    *dDuplex
		want map[string]int
		n    int
		end  int
	}
	var conns []*conn
	for i := 1 + r.Intn(3); i > 0; i-- {
		c := &conn{d: newDuplex(), want: map[string]int{}}
		c.d.frag = []int{0, 1, 5, 100}[r.Intn(4)]
		hello := append(vKV("supported-versions", 8, "2.0"), vKV("max-frame-size", 3, int64(1000+r.Intn(70000)))...)
		b := dFrame{t: 1, flags: 1, payload: append(hello, vKV("engine-id", 8, "e")...)}.bytes()
		for k := r.Intn(12); k > 0; k-- {
			f := dFrame{t: 3, flags: 1, sid: r.u64(), fid: r.u64()}
			var acts []byte
			ok := true
			for m := r.Intn(4); m > 0; m-- {
				name := fmt.Sprintf("m%d", r.Intn(100000))
				mode := []string{"ok", "ok", "ok", "ok", "panic", "nil"}[r.Intn(6)]
				if mode != "ok" {
					ok = false
				}
				f.payload = append(f.payload, vBlob([]byte(name))...)
				rest := r.Intn(3)
				f.payload = append(f.payload, byte(1+rest))
				f.payload = append(f.payload, vKV("plan", 8, mode)...)
				for ; rest > 0; rest-- {
					f.payload = append(f.payload, r.kv("x")...)
				}
				acts = append(acts, append(append(append([]byte{1, 3, 2}, vBlob([]byte(name))...), 8), vBlob([]byte(mode))...)...)
			}
			if r.Intn(12) == 0 {
				f.payload = append(f.payload, 250)
				ok = false
			}
			if r.Intn(15) == 0 {
				f.t, ok = byte(4+r.Intn(10)), false
			}
			if r.Intn(15) == 0 {
				f.t, ok = 1, false
			}
			b = append(b, f.bytes()...)
			if ok {
				ack := dFrame{t: 103, flags: 1, sid: f.sid, fid: f.fid, payload: acts}
				c.want[string(ack.body())]++
				c.n++
			}
		}
		c.end = r.Intn(4)
		c.d.send(b)
		conns = append(conns, c)
	}
	for _, c := range conns {
		select {
		case dAgent.l.ch <- c.d:
		case err := <-dAgent.done:
			dAgent.done <- err
			vAssert("the agent goes on accepting", false)
		}
	}
	for _, c := range conns {
		enough := func() bool {
			l, ok := c.d.frames()
			return !ok || len(l) >= 1+c.n
		}
		vAssert("every NOTIFY is answered", dUntil(enough))
		l, ok := c.d.frames()
		vAssert("every write is one frame", ok)
		vAssert("the first reply is the AGENT-HELLO", l[0].t == 101)
		for _, f := range l[1:] {
			k := string(f.body())
			vAssert("every ACK answers one NOTIFY exactly", c.want[k] > 0)
			c.want[k]--
		}
	}
	for _, c := range conns {
		before := 1 + c.n
		silent := false
		switch c.end {
		case 0:
			c.d.send(dFrame{t: 2, flags: 1, payload: append(vKV("status-code", 3, int64(r.Intn(3))), vKV("message", 8, "m")...)}.bytes())
			time.Sleep(200 * time.Microsecond)
			c.d.end()
			silent = true
		case 1:
			c.d.end()
		case 2:
			c.d.mu.Lock()
			c.d.boom = true
			c.d.mu.Unlock()
			c.d.end()
		case 3:
			c.d.send([]byte{255, 255, 255, 255, 1, 2, 3})
		}
		vAssert("an ended connection is closed", dUntil(c.d.isClosed))
		l, ok := c.d.frames()
		vAssert("every write is one frame", ok)
		if !silent {
			vAssert("one AGENT-DISCONNECT is sent at the end", len(l) == before+1 && l[before].t == 102)
		} else {
			vAssert("at most one AGENT-DISCONNECT is sent at the end", len(l) <= before+1)
		}
	}
}
