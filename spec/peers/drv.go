package peers

import (
	"bufio"
	"bytes"
	"context"
	"encoding/binary"
	"fmt"
	"io"
	"log"
	"net"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/dropmorepackets/haproxy-go/peers/sticktable"
)

func init() { log.SetOutput(io.Discard) }

// ---- reference messages

type dMsg struct {
	class, typ byte
	data       []byte
}

func (m dMsg) bytes() []byte {
	b := []byte{m.class, m.typ}
	if m.typ >= 128 {
		b = append(b, vBlob(m.data)...)
	}
	return b
}

// dParse takes the message at the start of b; n == 0: it is incomplete.
func dParse(b []byte) (m dMsg, n int) {
	if len(b) < 2 {
		return m, 0
	}
	m.class, m.typ = b[0], b[1]
	if m.typ < 128 {
		return m, 2
	}
	v, k := vGetVarint(b[2:])
	if k == 0 || v > uint64(len(b)-2-k) {
		return m, 0
	}
	m.data = b[2+k : 2+k+int(v)]
	return m, 2 + k + int(v)
}

//@ driver C16
func drvMessage(r *vRand) {
	m := dMsg{class: byte(r.Intn(12)), typ: byte(r.Intn(256))}
	if m.typ >= 128 {
		m.data = r.bytes(400)
		if r.Intn(40) == 0 {
			m.data = r.kvRaw(60000 + r.Intn(100000))
		}
	}
	in := m.bytes()
	whole := len(in)
	end := false
	huge := false
	switch r.Intn(6) {
	case 0:
		in = in[:r.Intn(len(in))]
		end = true
	case 1:
		if m.typ < 128 {
			m.typ += 128
		}
		n := []uint64{1 << 33, 1 << 40, 1 << 47, 1 << 62, 1<<63 - 1, 1 << 63, 1<<64 - 1, 1<<64 - 2, 1<<63 + 1}[r.Intn(9)]
		if r.Intn(2) == 0 {
			n = 1<<40 + r.Uint64()>>1
		}
		in = append([]byte{m.class, m.typ}, vVarint(n)...)
		whole = len(in)
		in = append(in, r.kvRaw(r.Intn(30))...)
		huge = true
	case 2, 3:
		in = append(in, r.bytes(40)...)
	}
	c := &vConn{in: in, fail: -1, frag: []int{0, 1, 3, 50}[r.Intn(4)]}
	var rd byteReader = c
	var br *bufio.Reader
	if r.Intn(2) == 0 {
		br = bufio.NewReaderSize(c, 16+r.Intn(5000))
		rd = br
	}
	var x rawMessage
	n, err := x.ReadFrom(rd)
	used := c.pos
	if br != nil {
		used -= br.Buffered()
	}
	if end {
		vAssert("a message that ends early is an error", err != nil)
		return
	}
	if huge {
		vAssert("a length above the limit is an error", err != nil)
		vAssert("no payload above the limit is read", used <= whole)
		return
	}
	vAssert("a whole message is accepted", err == nil)
	vAssert("exactly one message is consumed", used == whole)
	vAssert("class and type are those of the header", byte(x.MessageClass) == m.class && x.MessageType == m.typ)
	vAssert("the payload is complete and unaltered", bytes.Equal(x.Data, m.data))
	_ = n
}

// ---- sessions

type dSeen struct {
	u    sticktable.EntryUpdate
	text string
}

type dHandler struct {
	seen   []dSeen
	hands  []Handshake
	closed int
	conn   *vConn
	early  string // what was written before the handshake was handled
	mu     sync.Mutex
}

func (h *dHandler) HandleUpdate(_ context.Context, u *sticktable.EntryUpdate) {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.seen = append(h.seen, dSeen{*u, u.String()})
}

func (h *dHandler) HandleHandshake(_ context.Context, x *Handshake) {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.hands = append(h.hands, *x)
	if h.conn != nil {
		h.early = string(h.conn.out)
	}
}

func (h *dHandler) Close() error { h.closed++; return nil }

// table is a definition, with its encoding.
func (r *vRand) table() (*sticktable.Definition, []byte) {
	d := &sticktable.Definition{StickTableID: uint64(r.Intn(1000)), Name: fmt.Sprintf("t%d", r.Intn(1000)), Expiry: r.u64()}
	d.KeyType = []sticktable.KeyType{sticktable.KeyTypeSignedInteger, sticktable.KeyTypeString, sticktable.KeyTypeBinary}[r.Intn(3)]
	d.KeyLength = uint64(r.Intn(9))
	var bits uint64
	for _, t := range []sticktable.DataType{sticktable.DataTypeServerId, sticktable.DataTypeGPC0, sticktable.DataTypeGPC0Rate, sticktable.DataTypeBytesInCounter} {
		if r.Intn(2) == 0 {
			bits |= 1 << t
			x := sticktable.DataTypeDefinition{DataType: t}
			if t == sticktable.DataTypeGPC0Rate {
				x.Counter, x.Period = uint64(r.Intn(4)), r.u64()
			}
			d.DataTypes = append(d.DataTypes, x)
		}
	}
	b := append(vVarint(d.StickTableID), vBlob([]byte(d.Name))...)
	b = append(append(b, vVarint(uint64(d.KeyType))...), vVarint(d.KeyLength)...)
	b = append(append(b, vVarint(bits)...), vVarint(d.Expiry)...)
	for _, x := range d.DataTypes {
		if x.DataType == sticktable.DataTypeGPC0Rate {
			b = append(append(b, vVarint(x.Counter)...), vVarint(x.Period)...)
		}
	}
	return d, b
}

// entry is an entry of table d; enc: key and data.
func (r *vRand) entry(d *sticktable.Definition) (e *sticktable.EntryUpdate, enc []byte) {
	e = &sticktable.EntryUpdate{StickTable: d}
	switch d.KeyType {
	case sticktable.KeyTypeSignedInteger:
		k := sticktable.SignedIntegerKey(r.u64())
		e.Key, enc = &k, binary.BigEndian.AppendUint32(nil, uint32(k))
	case sticktable.KeyTypeString:
		k := sticktable.StringKey(fmt.Sprintf("k%d", r.Intn(100000)))
		if r.Intn(30) == 0 {
			k = sticktable.StringKey(strings.Repeat("x", 1000+r.Intn(60000)))
		}
		e.Key, enc = &k, vBlob([]byte(k))
	case sticktable.KeyTypeBinary:
		k := sticktable.BinaryKey(r.kvRaw(int(d.KeyLength)))
		e.Key, enc = &k, append([]byte{}, k...)
	}
	for _, x := range d.DataTypes {
		v := r.u64()
		switch x.DataType {
		case sticktable.DataTypeServerId:
			w := sticktable.SignedIntegerData(v)
			e.Data, enc = append(e.Data, &w), append(enc, vVarint(uint64(int64(w)))...)
		case sticktable.DataTypeGPC0:
			w := sticktable.UnsignedIntegerData(v)
			e.Data, enc = append(e.Data, &w), append(enc, vVarint(uint64(w))...)
		case sticktable.DataTypeBytesInCounter:
			w := sticktable.UnsignedLongLongData(v)
			e.Data, enc = append(e.Data, &w), append(enc, vVarint(uint64(w))...)
		default:
			w := &sticktable.FreqData{CurrentTick: v, CurrentPeriod: r.u64(), LastPeriod: r.u64()}
			e.Data = append(e.Data, w)
			enc = append(append(append(enc, vVarint(v)...), vVarint(w.CurrentPeriod)...), vVarint(w.LastPeriod)...)
		}
	}
	return e, enc
}

// dPlan is a message with what it must do.
type dPlan struct {
	m    dMsg
	bad  bool
	want *sticktable.EntryUpdate
	sync bool
	noid bool // the update id is the first one and none is carried
}

func (r *vRand) plans(n int) (l []dPlan) {
	var tables []*sticktable.Definition
	last, have := uint32(0), false
	for ; n > 0; n-- {
		var p dPlan
		switch k := r.Intn(16); {
		case k < 3:
			d, b := r.table()
			tables = append(tables, d)
			p.m = dMsg{10, 130, append(b, r.kvRaw(r.Intn(2)*r.Intn(4))...)}
		case k < 11:
			p.m = dMsg{class: 10, typ: []byte{128, 129, 133, 134}[r.Intn(4)]}
			if len(tables) == 0 {
				d, b := r.table()
				if r.Intn(5) > 0 {
					tables = append(tables, d)
					l = append(l, dPlan{m: dMsg{10, 130, b}})
				} else {
					_, enc := r.entry(d)
					p.m.data, p.bad = append(r.kvRaw(8), enc...), true
					break
				}
			}
			d := tables[len(tables)-1]
			e, enc := r.entry(d)
			e.WithLocalUpdateID = p.m.typ == 128 || p.m.typ == 133
			e.WithExpiry = p.m.typ >= 133
			var b []byte
			if e.WithLocalUpdateID {
				e.LocalUpdateID = uint32(r.u64())
				b = binary.BigEndian.AppendUint32(b, e.LocalUpdateID)
			} else {
				e.LocalUpdateID = last + 1
				p.noid = !have
			}
			if e.WithExpiry {
				e.Expiry = uint32(r.u64())
				b = binary.BigEndian.AppendUint32(b, e.Expiry)
			}
			b = append(b, enc...)
			if r.Intn(12) == 0 {
				b, p.bad = b[:r.Intn(len(b)+1)], true
				if len(b) == len(p.m.data) || len(enc) == 0 {
					p.bad = true
				}
			}
			p.m.data = b
			if !p.bad {
				p.want = e
				last, have = e.LocalUpdateID, true
				if p.noid {
					have = false
				}
			}
		case k == 11:
			p.m = dMsg{class: 0, typ: byte(r.Intn(5))}
			p.sync = p.m.typ == 0
		case k == 12:
			p.m = dMsg{class: 10, typ: []byte{131, 132}[r.Intn(2)], data: r.bytes(12)}
		case k == 13:
			p.m = dMsg{class: 0, typ: byte(5 + r.Intn(251)), data: r.bytes(5)}
			p.bad = true
		case k == 14:
			p.m = dMsg{class: 1, typ: byte(r.Intn(256)), data: r.bytes(5)}
			p.bad = true
		default:
			p.m = dMsg{class: byte(r.Intn(256)), typ: byte(r.Intn(256)), data: r.bytes(5)}
			if c := p.m.class; c == 10 && p.m.typ >= 128 && p.m.typ <= 134 || c == 0 && p.m.typ < 5 {
				p.m.class = 77
			}
			p.bad = true
		}
		if p.m.typ < 128 {
			p.m.data = nil
		}
		l = append(l, p)
		if p.bad {
			break
		}
	}
	return l
}

func dSameUpdate(a, b *sticktable.EntryUpdate, noid bool) bool {
	if a.WithExpiry && a.Expiry != b.Expiry || a.WithExpiry != b.WithExpiry || !noid && a.LocalUpdateID != b.LocalUpdateID || len(a.Data) != len(b.Data) {
		return false
	}
	if !b.WithExpiry && b.Expiry != 0 {
		return false
	}
	if a.Key.String() != b.Key.String() || a.StickTable.StickTableID != b.StickTable.StickTableID || a.StickTable.Name != b.StickTable.Name {
		return false
	}
	for i := range a.Data {
		if fmt.Sprintf("%T %v", a.Data[i], a.Data[i]) != fmt.Sprintf("%T %v", b.Data[i], b.Data[i]) {
			return false
		}
	}
	return true
}

// dCheck compares what the handler saw with the plans that were carried out.
func dCheck(h *dHandler, l []dPlan) {
	i := 0
	for _, p := range l {
		if p.want == nil {
			continue
		}
		vAssert("every update is handed to the handler", i < len(h.seen))
		got := &h.seen[i].u
		vAssert("an update is handed over as sent", dSameUpdate(p.want, got, p.noid))
		vAssert("an update stays as it was handed over", got.String() == h.seen[i].text)
		i++
	}
	vAssert("the handler sees nothing but the updates", i == len(h.seen))
}

//@ driver C17
func drvUpdates(r *vRand) {
	// a damaged update can still be well-formed: those are drawn again
	l := r.plans(1 + r.Intn(12))
	h := &dHandler{}
	c := &vConn{fail: -1}
	wmu := &sync.Mutex{}
	w := newWriter(c, wmu)
	p := newProtocolClient(context.Background(), c, h, wmu, w.bufferedWriter())
	var done []dPlan
	base := uint32(0)
	fixed := false
	for _, x := range l {
		seen, out := len(h.seen), len(c.out)
		err := p.messageHandler(&rawMessage{Data: x.m.data, MessageClass: MessageClass(x.m.class), MessageType: x.m.typ})
		if x.bad {
			cut := x.m.class == 10 && x.m.typ != 130 && p.lastTableDefinition != nil && x.m.typ >= 128 && x.m.typ <= 134
			if cut {
				// truncation may leave a well-formed update
				var u sticktable.EntryUpdate
				u.StickTable = p.lastTableDefinition
				u.WithLocalUpdateID, u.WithExpiry = x.m.typ == 128 || x.m.typ == 133, x.m.typ >= 133
				if _, e := u.Unmarshal(x.m.data); e == nil {
					return
				}
			}
			vAssert("a message that cannot be processed is an error", err != nil)
			vAssert("the handler is not called for it", len(h.seen) == seen)
			vAssert("nothing is sent for it", len(c.out) == out)
			break
		}
		vAssert("a proper message is no error", err == nil)
		n := seen
		if x.want != nil {
			n++
		}
		vAssert("the handler is called once per update and never else", len(h.seen) == n)
		if x.want != nil {
			// ids count on from the first one where none is carried
			if x.noid && !fixed {
				base, fixed = h.seen[seen].u.LocalUpdateID-x.want.LocalUpdateID, true
			}
			if x.want.WithLocalUpdateID {
				base, fixed = 0, true
			} else {
				x.want.LocalUpdateID += base
				x.noid = false
			}
		}
		if x.sync {
			vAssert("a sync request is answered with sync-partial", bytes.Equal(c.out[out:], []byte{0, 2}))
		} else {
			vAssert("nothing else is answered", len(c.out) == out)
		}
		done = append(done, x)
	}
	dCheck(h, done)
}

func (r *vRand) word() string {
	b := make([]byte, 1+r.Intn(12))
	for i := range b {
		b[i] = "abcXYZ019-._"[r.Intn(12)]
	}
	return string(b)
}

//@ driver C22,C16,C17
func drvSession(r *vRand) {
	hs := Handshake{ProtocolIdentifier: r.word(), Version: r.word(), RemotePeer: r.word(), LocalPeerIdentifier: r.word(), ProcessID: int(int32(r.u64())), RelativeProcessID: r.Intn(3)}
	want := fmt.Sprintf("%s %s\n%s\n%s %d %d\n", hs.ProtocolIdentifier, hs.Version, hs.RemotePeer, hs.LocalPeerIdentifier, hs.ProcessID, hs.RelativeProcessID)
	var buf bytes.Buffer
	n, err := hs.WriteTo(&buf)
	vAssert("a handshake is three lines", err == nil && n == int64(len(want)) && buf.String() == want)
	in := []byte(want)
	if r.Intn(4) == 0 {
		in = []byte(strings.ReplaceAll(want, "\n", "\r\n"))
	}
	if r.Intn(3) == 0 {
		var got Handshake
		rest := r.kvRaw(r.Intn(30))
		br := bufio.NewReader(&vConn{in: append(append([]byte{}, in...), rest...), fail: -1, frag: []int{0, 1, 7}[r.Intn(3)]})
		n, err := got.ReadFrom(br)
		vAssert("a handshake can be read back", err == nil && got == hs)
		left, _ := io.ReadAll(br)
		vAssert("reading the handshake consumes its three lines", n == int64(len(in)) && bytes.Equal(left, rest))
		return
	}
	var l []dPlan
	if r.Intn(8) > 0 {
		l = r.plans(r.Intn(6))
	}
	sync1 := 0
	bad := false
	for _, p := range l {
		in = append(in, p.m.bytes()...)
		if p.sync {
			sync1++
		}
		if p.bad {
			bad = true
		}
	}
	cutHand := r.Intn(10) == 0
	if cutHand {
		in = in[:r.Intn(len(want))]
	}
	conn := &vConn{in: in, fail: -1, frag: []int{0, 0, 1, 5, 40}[r.Intn(5)]}
	h := &dHandler{conn: conn}
	wmu := &sync.Mutex{}
	w := newWriter(conn, wmu)
	p := newProtocolClient(context.Background(), conn, h, wmu, w.bufferedWriter())
	err = p.Serve()
	defer func() { conn.fail = 0 }() // the heartbeats of this session end
	if cutHand {
		vAssert("a handshake that ends early is an error", err != nil)
		vAssert("no reply to a handshake that ends early", len(conn.out) == 0 && len(h.hands) == 0 && len(h.seen) == 0)
		return
	}
	vAssert("the handler sees the handshake once", len(h.hands) == 1 && h.hands[0] == hs)
	vAssert("the handler sees the handshake before the reply", h.early == "")
	if bad {
		return
	}
	vAssert("a session of proper messages ends without error", err == nil)
	reply := "200\n" + strings.Repeat("\x00\x02", sync1)
	out := strings.ReplaceAll(string(conn.out), "\x00\x04", "") // heartbeats
	vAssert("status 200 is sent once, then the replies", out == reply)
	// the update ids of the first ones depend on the start
	for i := range l {
		if l[i].want != nil && !l[i].want.WithLocalUpdateID {
			l[i].noid = true
		}
	}
	dCheck(h, l)
}

type dOut struct {
	mu   sync.Mutex
	out  []byte
	slow bool
}

func (o *dOut) Write(b []byte) (int, error) {
	if o.slow {
		runtime.Gosched()
	}
	o.mu.Lock()
	defer o.mu.Unlock()
	o.out = append(o.out, b...)
	return len(b), nil
}

func (o *dOut) Read([]byte) (int, error) { return 0, io.EOF }

func (o *dOut) bytes() []byte {
	o.mu.Lock()
	defer o.mu.Unlock()
	return append([]byte{}, o.out...)
}

//@ driver C18
func drvWriter(r *vRand) {
	o := &dOut{}
	wmu := &sync.Mutex{}
	w := newWriter(o, wmu)
	id := uint32(0)
	if r.Intn(4) == 0 {
		id = ^uint32(0) - uint32(r.Intn(3))
		w.nextUpdateID = id
	}
	var want []byte
	one := func(e *sticktable.EntryUpdate, enc []byte) []byte {
		b := binary.BigEndian.AppendUint32(nil, id)
		id++
		t := byte(128)
		if e.WithExpiry {
			t = 133
			b = binary.BigEndian.AppendUint32(b, e.Expiry)
		}
		return dMsg{10, t, append(b, enc...)}.bytes()
	}
	for k := 1 + r.Intn(8); k > 0; k-- {
		d, enc := r.table()
		switch r.Intn(5) {
		case 0:
			vAssert("a definition is sent", w.SendTableDefinition(d) == nil)
			want = append(want, dMsg{10, 130, enc}.bytes()...)
		case 1:
			n := r.u64()
			vAssert("a switch is sent", w.SendTableSwitch(n) == nil)
			want = append(want, dMsg{10, 131, vVarint(n)}.bytes()...)
		case 2, 3:
			e, enc := r.entry(d)
			e.WithExpiry, e.Expiry = r.Intn(2) == 0, uint32(r.u64())
			e.WithLocalUpdateID, e.LocalUpdateID = r.Intn(2) == 0, uint32(r.u64()) // of where it came from
			vAssert("an entry is sent", w.SendEntry(e) == nil)
			want = append(want, one(e, enc)...)
		case 4:
			var l []*sticktable.EntryUpdate
			for n := r.Intn(5); n > 0; n-- {
				e, enc := r.entry(d)
				e.WithExpiry, e.Expiry = r.Intn(2) == 0, uint32(r.u64())
				e.WithLocalUpdateID, e.LocalUpdateID = r.Intn(2) == 0, uint32(r.u64())
				l = append(l, e)
				want = append(want, one(e, enc)...)
			}
			vAssert("entries are sent", w.SendEntries(l) == nil)
		}
		vAssert("what was sent is on the wire", bytes.Equal(o.bytes(), want))
		vAssert("the lock is free after a call", wmu.TryLock())
		wmu.Unlock()
		if r.Intn(4) == 0 {
			// does not fit: an error, and not a byte of it
			var err error
			d := *d
			d.KeyType, d.KeyLength = sticktable.KeyTypeString, 5
			k := sticktable.StringKey(strings.Repeat("y", 65530+r.Intn(40000)))
			e := &sticktable.EntryUpdate{StickTable: &d, Key: &k, WithExpiry: r.Intn(2) == 0}
			if r.Intn(2) == 0 {
				k := sticktable.BinaryKey("123456")
				e.Key = &k
			}
			switch r.Intn(3) {
			case 0:
				err = w.SendEntry(e)
			case 1:
				err = w.SendEntries([]*sticktable.EntryUpdate{e})
			case 2:
				d.Name = strings.Repeat("n", 4090+r.Intn(100))
				err = w.SendTableDefinition(&d)
			}
			vAssert("what does not fit is an error", err != nil)
			id = w.nextUpdateID
			vAssert("nothing of a failed message is sent", bytes.Equal(o.bytes(), want))
			vAssert("the lock is free after a failed call", wmu.TryLock())
			wmu.Unlock()
		}
	}
}

//@ driver C18
func drvWriters(r *vRand) {
	o := &dOut{slow: r.Intn(2) == 0}
	wmu := &sync.Mutex{}
	w := newWriter(o, wmu)
	p := newProtocolClient(context.Background(), o, &dHandler{}, wmu, w.bufferedWriter())
	var wg sync.WaitGroup
	var mu sync.Mutex
	count := map[string]int{}
	entries := 0
	add := func(m dMsg) {
		mu.Lock()
		defer mu.Unlock()
		count[string(m.bytes())]++
	}
	for g := 2 + r.Intn(4); g > 0; g-- {
		kind := r.Intn(5)
		r := &vRand{vNewRand(r.Int63())}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 1 + r.Intn(12); k > 0; k-- {
				d, enc := r.table()
				switch kind {
				case 0:
					_ = w.SendTableDefinition(d)
					add(dMsg{10, 130, enc})
				case 1:
					_ = w.SendTableSwitch(uint64(k))
					add(dMsg{10, 131, vVarint(uint64(k))})
				case 2:
					e, enc := r.entry(d)
					_ = w.SendEntry(e)
					add(dMsg{10, 128, enc})
					mu.Lock()
					entries++
					mu.Unlock()
				case 3:
					var l []*sticktable.EntryUpdate
					for n := 1 + r.Intn(4); n > 0; n-- {
						e, enc := r.entry(d)
						e.WithExpiry = true
						l = append(l, e)
						add(dMsg{10, 133, enc})
						mu.Lock()
						entries++
						mu.Unlock()
					}
					_ = w.SendEntries(l)
				case 4:
					_ = p.messageHandler(&rawMessage{MessageClass: MessageClassControl, MessageType: byte(ControlMessageSyncRequest)})
					add(dMsg{0, 2, nil})
				}
			}
		}()
	}
	wg.Wait()
	id := uint32(0)
	for b := o.bytes(); len(b) > 0; {
		m, n := dParse(b)
		vAssert("messages are whole and contiguous", n > 0)
		b = b[n:]
		if m.class == 10 && (m.typ == 128 || m.typ == 133) {
			k := 4
			if m.typ == 133 {
				k = 8
			}
			vAssert("an entry has an id", len(m.data) >= k)
			vAssert("entries have consecutive ids on the wire", binary.BigEndian.Uint32(m.data) == id)
			id++
			m.data = m.data[k:]
		}
		k := string(m.bytes())
		vAssert("every message on the wire was sent", count[k] > 0)
		count[k]--
	}
	vAssert("every entry has its id", int(id) == entries && w.nextUpdateID == id)
	for _, n := range count {
		vAssert("every sent message is on the wire", n == 0)
	}
}

// A whole session over a real agent: handlers push while they are called.
//
//@ driver C18,C17,C22
func drvPeer(r *vRand) {
	dPeer.once.Do(func() {
		dPeer.ch = make(chan net.Conn)
		dPeer.hs = make(chan *dPush, 1)
		go (&Peer{HandlerSource: func() Handler { return <-dPeer.hs }}).Serve(dPeer)
	})
	d, denc := r.table()
	h := &dPush{d: d, n: make(chan bool, 1000)}
	c := newDuplex()
	hs := Handshake{ProtocolIdentifier: "HAProxyS", Version: "2.1", RemotePeer: "a", LocalPeerIdentifier: "b", ProcessID: 1, RelativeProcessID: 0}
	var buf bytes.Buffer
	hs.WriteTo(&buf)
	in := append(buf.Bytes(), dMsg{10, 130, denc}.bytes()...)
	n := r.Intn(10)
	syncs := 0
	for k := 0; k < n; k++ {
		_, enc := r.entry(d)
		in = append(in, dMsg{10, 129, enc}.bytes()...)
		if r.Intn(2) == 0 {
			in = append(in, 0, 0)
			syncs++
		}
	}
	c.send(in)
	dPeer.hs <- h
	dPeer.ch <- c
	for k := 0; k < n; k++ {
		select {
		case <-h.n:
		case <-time.After(20 * time.Second):
			vAssert("every update reaches the handler", false)
		}
	}
	c.end()
	vAssert("an ended connection is closed", dUntil(c.isClosed))
	vAssert("the handler is closed", dUntil(func() bool { h.mu.Lock(); defer h.mu.Unlock(); return h.closed == 1 }))
	h.wg.Wait()
	out := c.bytes()
	vAssert("the status comes first", bytes.HasPrefix(out, []byte("200\n")))
	out = out[4:]
	id := uint32(0)
	for len(out) > 0 {
		m, n := dParse(out)
		vAssert("messages are whole and contiguous", n > 0)
		out = out[n:]
		switch {
		case m.class == 0 && m.typ == 2:
			syncs--
		case m.class == 0 && m.typ == 4:
		case m.class == 10 && m.typ == 128:
			vAssert("entries have consecutive ids on the wire", binary.BigEndian.Uint32(m.data) == id)
			id++
		case m.class == 10 && m.typ == 131:
		default:
			vAssert("nothing else is sent", false)
		}
	}
	vAssert("every sync request is answered", syncs == 0)
}

type dPush struct {
	d      *sticktable.Definition
	mu     sync.Mutex
	closed int
	n      chan bool
	wg     sync.WaitGroup
}

func (h *dPush) HandleUpdate(ctx context.Context, u *sticktable.EntryUpdate) {
	w := WriterFromContext(ctx)
	u.WithExpiry = false
	h.wg.Add(1)
	go func() {
		defer h.wg.Done()
		w.SendEntry(u)
		w.SendTableSwitch(3)
	}()
	w.SendEntries([]*sticktable.EntryUpdate{u, u})
	h.n <- true
}
func (h *dPush) HandleHandshake(context.Context, *Handshake) {}
func (h *dPush) Close() error                                { h.mu.Lock(); defer h.mu.Unlock(); h.closed++; return nil }

type dListener struct {
	once sync.Once
	ch   chan net.Conn
	hs   chan *dPush
}

var dPeer = &dListener{}

func (l *dListener) Accept() (net.Conn, error) { return <-l.ch, nil }
func (l *dListener) Close() error              { return nil }
func (l *dListener) Addr() net.Addr            { return &net.TCPAddr{} }

func dUntil(f func() bool) bool {
	end := time.Now().Add(20 * time.Second)
	for i := 0; !f(); i++ {
		if time.Now().After(end) {
			return false
		}
		if i < 100 {
			runtime.Gosched()
		} else {
			time.Sleep(50 * time.Microsecond)
		}
	}
	return true
}

type dDuplex struct {
	vConn
	mu     sync.Mutex
	cond   *sync.Cond
	in     []byte
	out    []byte
	eof    bool
	closed int
}

func newDuplex() *dDuplex {
	d := &dDuplex{}
	d.cond = sync.NewCond(&d.mu)
	return d
}

func (d *dDuplex) Read(p []byte) (int, error) {
	d.mu.Lock()
	defer d.mu.Unlock()
	for len(d.in) == 0 && !d.eof && d.closed == 0 {
		d.cond.Wait()
	}
	if len(d.in) == 0 || d.closed > 0 {
		return 0, io.EOF
	}
	n := copy(p, d.in)
	d.in = d.in[n:]
	return n, nil
}

func (d *dDuplex) Write(p []byte) (int, error) {
	d.mu.Lock()
	defer d.mu.Unlock()
	if d.closed > 0 {
		return 0, io.ErrClosedPipe
	}
	d.out = append(d.out, p...)
	return len(p), nil
}

func (d *dDuplex) Close() error {
	d.mu.Lock()
	defer d.mu.Unlock()
	d.closed++
	d.cond.Broadcast()
	return nil
}

func (d *dDuplex) send(b []byte) {
	d.mu.Lock()
	defer d.mu.Unlock()
	d.in = append(d.in, b...)
	d.cond.Broadcast()
}

func (d *dDuplex) end() {
	d.mu.Lock()
	defer d.mu.Unlock()
	d.eof = true
	d.cond.Broadcast()
}

func (d *dDuplex) isClosed() bool {
	d.mu.Lock()
	defer d.mu.Unlock()
	return d.closed > 0
}

func (d *dDuplex) bytes() []byte {
	d.mu.Lock()
	defer d.mu.Unlock()
	return append([]byte{}, d.out...)
}
