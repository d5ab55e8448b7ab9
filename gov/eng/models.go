package eng

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type model func(e *Engine, x *explorer, st *State, cc *ssa.CallCommon, fn *ssa.Function, args []Val) []outcome

var intrinsics, models, ifaceModels, funcModels map[string]model

// split forks on cond.
func (st *State) split(cond *T) (yes, no *State) {
	c := st.e.C
	if cond.IsTrue() || st.known[cond] {
		return st, nil
	}
	nc := c.Not(cond)
	if cond.IsFalse() || st.known[nc] {
		return nil, st
	}
	a := st.feasible(cond)
	b := true
	if a {
		b = st.feasible(nc)
	}
	switch {
	case a && b:
		n := st.clone()
		n.assume(nc)
		st.assume(cond)
		return st, n
	case a:
		st.assume(cond)
		return st, nil
	default:
		st.assume(nc)
		return nil, st
	}
}

func (st *State) ghostRead(g ghostVar, r *T) *T {
	return st.e.read(st.e.memNode(st.mem, g.key, g.leaf), r, st.e.i64(0))
}
func (st *State) ghostWrite(g ghostVar, r, v *T) {
	st.writeLeaf(g.key, g.leaf, r, st.e.i64(0), v)
}

// newErr is a fresh non-nil error distinct from all sentinels.
func (st *State) newErr(wraps Val) Val {
	e := st.e
	r := e.freshRef()
	if wraps != nil {
		n := len(st.writes)
		ls := layout(errType)
		for i, l := range ls {
			st.writeLeaf(memKey{"§wrap", l.Path}, l, r, e.i64(0), wraps[i])
		}
		st.writes = st.writes[:n]
		return Val{e.tag(wrapErrType), e.loc("fmt.wrapError", ""), r, e.i64(0)}
	}
	return Val{e.tag(errStringType), e.loc("errors.errorString", ""), r, e.i64(0)}
}

var errType = types.Universe.Lookup("error").Type()
var wrapErrType types.Type = types.NewPointer(types.NewNamed(types.NewTypeName(0, types.NewPackage("fmt", "fmt"), "wrapError", nil), types.NewStruct(nil, nil), nil))

// anyErr is an arbitrary non-nil error.
func (st *State) anyErr(name string) Val {
	e := st.e
	v := e.symbolic(errType, e.C.FreshName(name), false)
	st.assume(e.C.Ne(v[0], e.C.BV(0, wTag)))
	return v
}

func (e *Engine) errorsIs(m Mem, err, target Val, depth int) *T {
	c := e.C
	if err[0].IsConst() && err[0].Val == 0 {
		return e.equal(m, errType, errType, err, target)
	}
	same := e.equal(m, errType, errType, err, target)
	if depth > 0 && err[0].IsConst() && err[0] == e.tag(wrapErrType) {
		var w Val
		for _, l := range layout(errType) {
			w = append(w, e.read(e.memNode(m, memKey{"§wrap", l.Path}, l), err[2], e.i64(0)))
		}
		return c.Or(same, e.errorsIs(m, w, target, depth-1))
	}
	if err[0].IsConst() && err[0] == e.tag(errStringType) {
		return same
	}
	return c.Or(same, c.And(c.Ne(err[0], c.BV(0, wTag)), c.App("errors.Is", 0, err[0], err[2], target[0], target[2])))
}

// variadic returns the elements of a variadic ...any argument when its length
// is known.
func (e *Engine) variadic(st *State, v Val) ([]Val, bool) {
	if !v[2].IsConst() || v[2].Val > 16 {
		return nil, false
	}
	var out []Val
	at := types.NewInterfaceType(nil, nil)
	for i := uint64(0); i < v[2].Val; i++ {
		out = append(out, e.loadMem(st.mem, at, Val{e.loc("any", ""), v[0], e.C.AddK(v[1], i)}))
	}
	return out, true
}

func (e *Engine) constString(m Mem, v Val) (string, bool) {
	if !v[0].IsConst() || !v[1].IsConst() || !v[2].IsConst() {
		return "", false
	}
	if v[2].Val == 0 {
		return "", true
	}
	if v[0].Val >= strRef0 && v[0].Val < specRef0 {
		s := e.strData[v[0].Val-strRef0]
		if v[1].Val+v[2].Val <= uint64(len(s)) {
			return s[v[1].Val : v[1].Val+v[2].Val], true
		}
	}
	if v[2].Val > 256 {
		return "", false
	}
	var b []byte
	for i := uint64(0); i < v[2].Val; i++ {
		t := e.readByte(m, v[0], e.C.AddK(v[1], i))
		if !t.IsConst() {
			return "", false
		}
		b = append(b, byte(t.Val))
	}
	return string(b), true
}

// format renders a format string into pieces; nil when not understood.
func (e *Engine) format(st *State, f string, args []Val) ([]Val, bool) {
	var out []Val
	lit := ""
	flush := func() {
		if lit != "" {
			out = append(out, e.str(lit))
			lit = ""
		}
	}
	ai := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			lit += string(f[i])
			continue
		}
		i++
		if i >= len(f) {
			return nil, false
		}
		if f[i] == '%' {
			lit += "%"
			continue
		}
		if ai >= len(args) {
			return nil, false
		}
		a := args[ai]
		ai++
		if !a[0].IsConst() || a[0].Val == 0 {
			return nil, false
		}
		t := e.tagTypes[a[0].Val]
		if _, isP := t.Underlying().(*types.Pointer); isP {
			return nil, false
		}
		hasStr := false
		ms := types.NewMethodSet(t)
		if ms.Lookup(nil, "String") != nil || ms.Lookup(nil, "Error") != nil {
			hasStr = true
		}
		v := e.unbox(st.mem, t, a)
		switch f[i] {
		case 's', 'v':
			if isString(t) && !hasStr {
				flush()
				out = append(out, v)
				continue
			}
			if f[i] == 'v' && isInt(t) && !hasStr {
				flush()
				out = append(out, e.decimal(st, t, v[0]))
				continue
			}
			return nil, false
		case 'd':
			if !isInt(t) {
				return nil, false
			}
			flush()
			out = append(out, e.decimal(st, t, v[0]))
		default:
			return nil, false
		}
	}
	flush()
	return out, ai == len(args)
}

// decimal is the decimal rendering of an integer.
func (e *Engine) decimal(st *State, t types.Type, v *T) Val {
	c := e.C
	v64 := e.toI64(v, t)
	if v64.IsConst() {
		if isSigned(t) {
			return e.str(strconv.FormatInt(int64(v64.Val), 10))
		}
		return e.str(strconv.FormatUint(v64.Val, 10))
	}
	nm := "dec"
	if !isSigned(t) {
		nm = "udec"
	}
	r := c.Zext(c.App(nm+".id", 16, v64), wRef) // pre-existing object holding the digits
	n := c.Zext(c.App(nm+".len", 5, v64), 64)
	st.assume(c.And(c.Ne(r, c.BV(0, wRef)), c.Ne(n, e.i64(0)), c.Ule(n, e.i64(20))))
	return Val{r, c.Zext(c.App(nm+".off", 32, v64), 64), n}
}

func (e *Engine) concat(st *State, ps []Val) Val {
	c := e.C
	if len(ps) == 0 {
		return e.str("")
	}
	all := ""
	konst := true
	for _, p := range ps {
		s, ok := e.constString(st.mem, p)
		if !ok {
			konst = false
			break
		}
		all += s
	}
	if konst {
		return e.str(all)
	}
	r := e.freshRef()
	off := c.BV(0, 64)
	w := len(st.writes)
	for _, p := range ps {
		st.copyElems(types.Typ[types.Uint8], r, off, p[0], p[1], p[2])
		off = c.Add(off, p[2])
	}
	st.writes = st.writes[:w]
	return Val{r, c.BV(0, 64), off}
}

func (e *Engine) freshString(st *State) Val {
	c := e.C
	r := e.freshRef()
	st.freshHavoc(types.Typ[types.Uint8], r)
	l := c.Zext(c.FreshVar("strlen", 32), 64)
	return Val{r, c.BV(0, 64), l}
}

// outAppend appends n bytes at (ref, off) of memory to the ghost output of w.
func (st *State) outAppend(w *T, ref, off, n *T) {
	e := st.e
	c := e.C
	ln := st.ghostRead(gOutLen, w)
	src := e.memNode(st.mem, memKey{"uint8", ""}, Leaf{"", 8, KInt})
	nd := e.memNode(st.mem, gOutData.key, gOutData.leaf)
	if n.IsConst() && n.Val <= 16 {
		for j := uint64(0); j < n.Val; j++ {
			nd = e.node(Node{kind: nStore, prev: nd, ref: w, idx: c.AddK(ln, j), val: e.read(src, ref, c.AddK(off, j))})
		}
		st.mem[gOutData.key] = nd
	} else {
		st.mem[gOutData.key] = e.node(Node{kind: nCopy, prev: nd, ref: w, idx: ln, n: n, sref: ref, soff: off, src: src})
	}
	st.wrote(gOutData.key, w, ln, n)
	st.ghostWrite(gOutLen, w, c.Add(ln, n))
}

// writeModel: w.Write(p) for any writer.
func writeModel(e *Engine, x *explorer, st *State, cc *ssa.CallCommon, fn *ssa.Function, args []Val) []outcome {
	c := e.C
	w := ghostOf(args[0])
	p := args[1]
	bad := st.clone()
	n := p[2]
	if k := st.constOf(n); k != nil {
		n = k
	}
	st.outAppend(w, p[0], p[1], n)
	st.ghostWrite(gOutCalls, w, c.AddK(st.ghostRead(gOutCalls, w), 1))
	outs := one(st, append(Val{n}, e.zero(errType)...))
	// failure after a prefix
	k := c.Zext(c.FreshVar("wrote", lenW), 64)
	bad.assume(c.Ule(k, n))
	bad.outAppend(w, p[0], p[1], k)
	bad.ghostWrite(gOutCalls, w, c.AddK(bad.ghostRead(gOutCalls, w), 1))
	return append(outs, outcome{st: bad, v: append(Val{k}, bad.anyErr("werr")...)})
}

func (st *State) inAvail(r *T) (pos, ln *T) {
	pos = st.ghostRead(gInPos, r)
	ln = st.e.inLen(r)
	st.assume(st.e.C.Ule(pos, ln))
	return
}

// fillFromIn stores n stream bytes from pos into memory (ref, off).
func (st *State) fillFromIn(r, ref, off, n *T) {
	e := st.e
	c := e.C
	pos := st.ghostRead(gInPos, r)
	k := memKey{"uint8", ""}
	nd := e.memNode(st.mem, k, Leaf{"", 8, KInt})
	if n.IsConst() && n.Val <= 16 {
		for j := uint64(0); j < n.Val; j++ {
			nd = e.node(Node{kind: nStore, prev: nd, ref: ref, idx: c.AddK(off, j), val: e.inByte(r, c.AddK(pos, j))})
		}
		st.mem[k] = nd
	} else {
		// a copy from the stream, which is an immutable memory class
		sk := memKey{"§stream", "data"}
		src := e.bases[sk]
		if src == nil {
			src = e.node(Node{kind: nBase, uf: "in.data", w: 8, lk: KInt})
			src.w = 8
			e.bases[sk] = src
		}
		st.mem[k] = e.node(Node{kind: nCopy, prev: nd, ref: ref, idx: off, n: n, sref: r, soff: pos, src: src})
	}
	st.wrote(k, ref, off, n)
	st.ghostWrite(gInPos, r, c.Add(pos, n))
}

func readFullModel(e *Engine, x *explorer, st *State, cc *ssa.CallCommon, fn *ssa.Function, args []Val) []outcome {
	c := e.C
	r := ghostOf(args[0])
	b := args[1]
	n := b[2]
	if k := st.constOf(n); k != nil {
		n = k
	}
	pos, ln := st.inAvail(r)
	ok, bad := st.split(c.Ule(n, c.Sub(ln, pos)))
	var outs []outcome
	if ok != nil {
		ok.fillFromIn(r, b[0], b[1], n)
		outs = append(outs, outcome{st: ok, v: append(Val{n}, e.zero(errType)...)})
	}
	if bad != nil {
		k := c.Sub(ln, pos)
		bad.fillFromIn(r, b[0], b[1], k)
		outs = append(outs, outcome{st: bad, v: append(Val{k}, bad.anyErr("rerr")...)})
	}
	return outs
}

func readByteModel(e *Engine, x *explorer, st *State, cc *ssa.CallCommon, fn *ssa.Function, args []Val) []outcome {
	c := e.C
	r := ghostOf(args[0])
	pos, ln := st.inAvail(r)
	ok, bad := st.split(c.Ult(pos, ln))
	var outs []outcome
	if ok != nil {
		b := e.inByte(r, pos)
		ok.ghostWrite(gInPos, r, c.AddK(pos, 1))
		outs = append(outs, outcome{st: ok, v: append(Val{b}, e.zero(errType)...)})
	}
	if bad != nil {
		outs = append(outs, outcome{st: bad, v: append(Val{c.FreshVar("b", 8)}, bad.anyErr("rerr")...)})
	}
	return outs
}

func readModel(e *Engine, x *explorer, st *State, cc *ssa.CallCommon, fn *ssa.Function, args []Val) []outcome {
	c := e.C
	r := ghostOf(args[0])
	b := args[1]
	pos, ln := st.inAvail(r)
	n := c.Zext(c.FreshVar("n", lenW), 64)
	st.assume(c.And(c.Ule(n, b[2]), c.Ule(n, c.Sub(ln, pos))))
	st.fillFromIn(r, b[0], b[1], n)
	er := e.symbolic(errType, c.FreshName("rerr"), false)
	st.assume(c.Or(c.Ne(n, e.i64(0)), c.Eq(b[2], e.i64(0)), c.Ne(er[0], c.BV(0, wTag))))
	return one(st, append(Val{n}, er...))
}

// readDelim models ReadSlice/ReadBytes/ReadString.
func readDelim(str bool) model {
	return func(e *Engine, x *explorer, st *State, cc *ssa.CallCommon, fn *ssa.Function, args []Val) []outcome {
		c := e.C
		r := ghostOf(args[0])
		d := args[1][0]
		pos, ln := st.inAvail(r)
		bad := st.clone()
		mk := func(s *State, n *T) Val {
			ref := e.freshRef()
			w := len(s.writes)
			s.fillFromIn(r, ref, c.BV(0, 64), n)
			_ = w
			v := Val{ref, c.BV(0, 64), n}
			if !str {
				v = append(v, n)
			}
			return v
		}
		n := c.Zext(c.FreshVar("line", lenW), 64)
		st.assume(c.And(c.Ne(n, e.i64(0)), c.Ule(n, c.Sub(ln, pos))))
		q := c.BoundVar(64)
		st.assume(c.Eq(e.inByte(r, c.Add(pos, c.AddK(n, ^uint64(0)))), d))
		st.assume(c.Forall(q, c.Implies(c.Ult(q, c.AddK(n, ^uint64(0))), c.Ne(e.inByte(r, c.Add(pos, q)), d))))
		var outs []outcome
		if st.feasible() {
			outs = append(outs, outcome{st: st, v: append(mk(st, n), e.zero(errType)...)})
		} else {
			st.dead = true
		}
		k := c.Zext(c.FreshVar("part", lenW), 64)
		bad.assume(c.Ule(k, c.Sub(ln, pos)))
		outs = append(outs, outcome{st: bad, v: append(mk(bad, k), bad.anyErr("rerr")...)})
		return outs
	}
}

func retZero(e *Engine, x *explorer, st *State, cc *ssa.CallCommon, fn *ssa.Function, args []Val) []outcome {
	return one(st, e.zero(cc.Signature().Results()))
}

func retAny(e *Engine, x *explorer, st *State, cc *ssa.CallCommon, fn *ssa.Function, args []Val) []outcome {
	v := e.symbolic(cc.Signature().Results(), e.C.FreshName("ret"), false)
	st.assumeAll(e.typeFacts(cc.Signature().Results(), v))
	return one(st, v)
}

// allDistinct objects: a fresh object of the result's pointer type.
func retFresh(e *Engine, x *explorer, st *State, cc *ssa.CallCommon, fn *ssa.Function, args []Val) []outcome {
	t := cc.Signature().Results().At(0).Type().Underlying().(*types.Pointer).Elem()
	r := e.freshRef()
	return one(st, e.ptrTo(t, r))
}

func beGet(n int) model {
	return func(e *Engine, x *explorer, st *State, cc *ssa.CallCommon, fn *ssa.Function, args []Val) []outcome {
		c := e.C
		b := args[len(args)-1]
		st.need(x, c.Ule(e.i64(int64(n)), b[2]), "index out of range", cc.Pos(), st.top().fn)
		return one(st, Val{e.beTerm(st.mem, b, n)})
	}
}

func (e *Engine) beTerm(m Mem, b Val, n int) *T {
	v := e.readByte(m, b[0], b[1])
	for i := 1; i < n; i++ {
		v = e.C.Concat(v, e.readByte(m, b[0], e.C.AddK(b[1], uint64(i))))
	}
	return v
}

func bePut(n int) model {
	return func(e *Engine, x *explorer, st *State, cc *ssa.CallCommon, fn *ssa.Function, args []Val) []outcome {
		c := e.C
		b, v := args[len(args)-2], args[len(args)-1][0]
		st.need(x, c.Ule(e.i64(int64(n)), b[2]), "index out of range", cc.Pos(), st.top().fn)
		for i := 0; i < n; i++ {
			hi := 8*(n-i) - 1
			st.writeLeaf(memKey{"uint8", ""}, Leaf{"", 8, KInt}, b[0], c.AddK(b[1], uint64(i)), c.Extract(v, hi, hi-7))
		}
		return one(st, nil)
	}
}

func beAppend(n int) model {
	return func(e *Engine, x *explorer, st *State, cc *ssa.CallCommon, fn *ssa.Function, args []Val) []outcome {
		c := e.C
		b, v := args[len(args)-2], args[len(args)-1][0]
		tmp := e.freshRef()
		w := len(st.writes)
		for i := 0; i < n; i++ {
			hi := 8*(n-i) - 1
			st.writeLeaf(memKey{"uint8", ""}, Leaf{"", 8, KInt}, tmp, e.i64(int64(i)), c.Extract(v, hi, hi-7))
		}
		st.writes = st.writes[:w]
		return e.appendVals(st, types.Typ[types.Uint8], b, Val{tmp, e.i64(0), e.i64(int64(n)), e.i64(int64(n))})
	}
}

func (e *Engine) appendVals(st *State, et types.Type, s, a Val) []outcome {
	return e.appendCore(st, et, s, a)
}

// ---- netip

func isAddr(v Val) *T { return v[0] }

func (e *Engine) mkAddr(kind *T, bs []*T) Val {
	v := Val{kind, e.C.BV(0, 32)}
	return append(v, bs...)
}

func (e *Engine) v4bytes(b []*T) []*T {
	c := e.C
	var r []*T
	for i := 0; i < 10; i++ {
		r = append(r, c.BV(0, 8))
	}
	r = append(r, c.BV(255, 8), c.BV(255, 8))
	return append(r, b...)
}

func (e *Engine) is4in6(a Val) *T {
	c := e.C
	r := c.Eq(a[0], c.BV(6, 8))
	for i := 0; i < 12; i++ {
		x := uint64(0)
		if i >= 10 {
			x = 255
		}
		r = c.And(r, c.Eq(a[2+i], c.BV(x, 8)))
	}
	return r
}

func (e *Engine) addrFromSlice(m Mem, b Val) Val {
	c := e.C
	l4, l16 := c.Eq(b[2], e.i64(4)), c.Eq(b[2], e.i64(16))
	kind := c.Ite(l4, c.BV(4, 8), c.Ite(l16, c.BV(6, 8), c.BV(0, 8)))
	var bs []*T
	z := c.BV(0, 8)
	for i := 0; i < 16; i++ {
		x16 := c.Ite(l16, e.readByte(m, b[0], c.AddK(b[1], uint64(i))), z)
		switch {
		case i < 10:
			bs = append(bs, x16)
		case i < 12:
			bs = append(bs, c.Ite(l4, c.BV(255, 8), x16))
		default:
			bs = append(bs, c.Ite(l4, e.readByte(m, b[0], c.AddK(b[1], uint64(i-12))), x16))
		}
	}
	return append(e.mkAddr(kind, bs), c.Or(l4, l16))
}

func addrPred(f func(e *Engine, a Val) *T) model {
	return func(e *Engine, x *explorer, st *State, cc *ssa.CallCommon, fn *ssa.Function, args []Val) []outcome {
		return one(st, Val{f(e, args[0])})
	}
}

// lockOf finds the monitor belonging to a mutex pointer.
func (e *Engine) lockOf(p Val) (*MonitorSpec, locInfo) {
	li, ok := e.locOf(p[0])
	if !ok {
		return nil, locInfo{}
	}
	for _, m := range e.P.Monitors {
		if m.Root() == li.root && li.prefix == "."+m.Field {
			return m, li
		}
	}
	return nil, li
}

func (e *Engine) lockName(p Val) (string, string) {
	m, li := e.lockOf(p)
	n := li.root + li.prefix
	if m != nil {
		return lockKey(m.Name, p[1]), short(n)
	}
	return lockKey(n, p[1]), short(n)
}

func (e *Engine) monArgs(m *MonitorSpec, p Val) Val {
	fn := m.Inv
	t := fn.Signature.Params().At(0).Type().Underlying().(*types.Pointer).Elem()
	return Val{e.canonLoc(t), p[1], p[2]}
}

func (e *Engine) monAcquire(st *State, p Val) {
	m, _ := e.lockOf(p)
	if m == nil {
		return
	}
	e.Used["monitor "+m.Name] = true
	if p[1].IsConst() && p[1].Val >= freshRef0 && p[1].Val < globalRef0 {
		return // not shared yet
	}
	a := e.monArgs(m, p)
	if m.Havoc != nil {
		n := len(st.writes)
		for _, r := range e.modRegions([]Clause{{Name: "monitor", Fn: m.Havoc}}, st.mem, []Val{a}) {
			st.havocRegion(r)
		}
		st.writes = st.writes[:n]
	}
	st.adopt(func() (*T, []*T) {
		return e.evalClause(st.eqs, Clause{Name: m.Name, Fn: m.Inv}, st.mem, st.mem, nil, []Val{a})
	})
	e.nextAcq++
	st.acq, st.acqID, st.acqClean = map[string]Mem{"cur": st.mem.clone()}, e.nextAcq, true
}

func (e *Engine) monRelease(st *State, p Val, pos string) {
	m, _ := e.lockOf(p)
	if m == nil {
		return
	}
	a := e.monArgs(m, p)
	t, fs := e.evalClause(st.eqs, Clause{Name: m.Name, Fn: m.Inv}, st.mem, st.old, st.acq, []Val{a})
	st.assumeAll(fs)
	st.check(t, "invariant "+m.Inv.Name()+" of monitor "+m.Name+" when released in "+e.Target, pos, "")
}

func init() {
	initPure()
	intrinsics = map[string]model{
		"vAssume": func(e *Engine, x *explorer, st *State, cc *ssa.CallCommon, fn *ssa.Function, args []Val) []outcome {
			st.assume(args[0][0])
			if !st.dead && !st.feasible() {
				st.dead = true
			}
			return one(st, nil)
		},
		"vIn": func(e *Engine, x *explorer, st *State, cc *ssa.CallCommon, fn *ssa.Function, args []Val) []outcome {
			st.assume(e.C.And(e.C.Sle(args[1][0], args[0][0]), e.C.Sle(args[0][0], args[2][0])))
			if !st.dead && !st.feasible() {
				st.dead = true
			}
			return one(st, args[0])
		},
		"vAssert": func(e *Engine, x *explorer, st *State, cc *ssa.CallCommon, fn *ssa.Function, args []Val) []outcome {
			nm, _ := e.constString(st.mem, args[0])
			st.check(args[1][0], nm+" ["+funcKey(st.top().fn)+"]", e.posStr(cc.Pos()), "")
			return one(st, nil)
		},
		"vHavoc": func(e *Engine, x *explorer, st *State, cc *ssa.CallCommon, fn *ssa.Function, args []Val) []outcome {
			t := fn.Signature.Params().At(0).Type().Underlying().(*types.Pointer).Elem()
			n := len(st.writes)
			st.havocPtr(t, args[0])
			st.writes = st.writes[:n]
			return one(st, nil)
		},
		"vAny": func(e *Engine, x *explorer, st *State, cc *ssa.CallCommon, fn *ssa.Function, args []Val) []outcome {
			t := fn.Signature.Results().At(0).Type()
			v := e.symbolic(t, e.C.FreshName("any"), false)
			st.assumeAll(e.typeFacts(t, v))
			return one(st, v)
		},
		"vSetGhost": func(e *Engine, x *explorer, st *State, cc *ssa.CallCommon, fn *ssa.Function, args []Val) []outcome {
			nm, _ := e.constString(st.mem, args[0])
			st.ghostWrite(ghostNamed(nm), ghostOf(args[1]), args[2][0])
			return one(st, nil)
		},
		"vConn.Write":    writeModel,
		"vConn.Read":     readModel,
		"vConn.ReadByte": readByteModel,
	}
	models = map[string]model{
		"fmt.Errorf": func(e *Engine, x *explorer, st *State, cc *ssa.CallCommon, fn *ssa.Function, args []Val) []outcome {
			f, _ := e.constString(st.mem, args[0])
			if i := strings.Index(f, "%w"); i >= 0 {
				n := strings.Count(strings.ReplaceAll(f[:i], "%%", ""), "%")
				if vs, ok := e.variadic(st, args[1]); ok && n < len(vs) {
					return one(st, st.newErr(vs[n]))
				}
			}
			return one(st, st.newErr(nil))
		},
		"errors.New": func(e *Engine, x *explorer, st *State, cc *ssa.CallCommon, fn *ssa.Function, args []Val) []outcome {
			return one(st, st.newErr(nil))
		},
		"errors.Is": func(e *Engine, x *explorer, st *State, cc *ssa.CallCommon, fn *ssa.Function, args []Val) []outcome {
			return one(st, Val{e.errorsIs(st.mem, args[0], args[1], 3)})
		},
		"fmt.Sprintf": func(e *Engine, x *explorer, st *State, cc *ssa.CallCommon, fn *ssa.Function, args []Val) []outcome {
			if f, ok := e.constString(st.mem, args[0]); ok {
				if vs, ok := e.variadic(st, args[1]); ok {
					if ps, ok := e.format(st, f, vs); ok {
						return one(st, e.concat(st, ps))
					}
				}
			}
			return one(st, e.freshString(st))
		},
		"fmt.Fprintf": func(e *Engine, x *explorer, st *State, cc *ssa.CallCommon, fn *ssa.Function, args []Val) []outcome {
			s := e.freshString(st)
			if f, ok := e.constString(st.mem, args[1]); ok {
				if vs, ok := e.variadic(st, args[2]); ok {
					if ps, ok := e.format(st, f, vs); ok {
						s = e.concat(st, ps)
					}
				}
			}
			return writeModel(e, x, st, cc, fn, []Val{args[0], {s[0], s[1], s[2], s[2]}})
		},
		"io.WriteString": func(e *Engine, x *explorer, st *State, cc *ssa.CallCommon, fn *ssa.Function, args []Val) []outcome {
			s := args[1]
			return writeModel(e, x, st, cc, fn, []Val{args[0], {s[0], s[1], s[2], s[2]}})
		},
		"(*bufio.Writer).WriteString": func(e *Engine, x *explorer, st *State, cc *ssa.CallCommon, fn *ssa.Function, args []Val) []outcome {
			s := args[1]
			return writeModel(e, x, st, cc, fn, []Val{args[0], {s[0], s[1], s[2], s[2]}})
		},
		"(*bufio.Writer).WriteByte": func(e *Engine, x *explorer, st *State, cc *ssa.CallCommon, fn *ssa.Function, args []Val) []outcome {
			r := e.freshRef()
			w := len(st.writes)
			st.writeLeaf(memKey{"uint8", ""}, Leaf{"", 8, KInt}, r, e.i64(0), args[1][0])
			st.writes = st.writes[:w]
			outs := writeModel(e, x, st, cc, fn, []Val{args[0], {r, e.i64(0), e.i64(1), e.i64(1)}})
			for i := range outs {
				outs[i].v = outs[i].v[1:]
			}
			return outs
		},
		"io.ReadFull":           readFullModel,
		"(*bufio.Writer).Write": writeModel,
		"(*bufio.Writer).Flush": func(e *Engine, x *explorer, st *State, cc *ssa.CallCommon, fn *ssa.Function, args []Val) []outcome {
			w := ghostOf(args[0])
			g := ghostNamed("flushed")
			bad := st.clone()
			st.ghostWrite(g, w, st.ghostRead(gOutLen, w))
			return []outcome{{st: st, v: e.zero(errType)}, {st: bad, v: bad.anyErr("ferr")}}
		},
		"bufio.NewReader":            retFresh,
		"bufio.NewReaderSize":        retFresh,
		"bufio.NewWriter":            retFresh,
		"bufio.NewWriterSize":        retFresh,
		"(*bufio.Reader).ReadByte":   readByteModel,
		"(*bufio.Reader).Read":       readModel,
		"(*bufio.Reader).ReadSlice":  readDelim(false),
		"(*bufio.Reader).ReadBytes":  readDelim(false),
		"(*bufio.Reader).ReadString": readDelim(true),
		"bytes.Equal": func(e *Engine, x *explorer, st *State, cc *ssa.CallCommon, fn *ssa.Function, args []Val) []outcome {
			return one(st, Val{e.strEq(st.mem, args[0], args[1])})
		},
		"bytes.Clone": func(e *Engine, x *explorer, st *State, cc *ssa.CallCommon, fn *ssa.Function, args []Val) []outcome {
			return one(st, e.copyToNew(st, args[0][0], args[0][1], args[0][2]))
		},
		"slices.Clone": func(e *Engine, x *explorer, st *State, cc *ssa.CallCommon, fn *ssa.Function, args []Val) []outcome {
			et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
			r := e.freshRef()
			a := args[0]
			w := len(st.writes)
			st.zeroObj(et, r)
			st.copyElems(et, r, e.i64(0), a[0], a[1], a[2])
			st.writes = st.writes[:w]
			return one(st, Val{r, e.i64(0), a[2], a[2]})
		},
		"strings.Clone": func(e *Engine, x *explorer, st *State, cc *ssa.CallCommon, fn *ssa.Function, args []Val) []outcome {
			return one(st, args[0])
		},
		"strings.Join": func(e *Engine, x *explorer, st *State, cc *ssa.CallCommon, fn *ssa.Function, args []Val) []outcome {
			n := args[0][2]
			if k := st.constOf(n); k != nil {
				n = k
			}
			if n.IsConst() && n.Val <= 4 {
				var ps []Val
				for i := uint64(0); i < n.Val; i++ {
					if i > 0 {
						ps = append(ps, args[1])
					}
					ps = append(ps, st.load(types.Typ[types.String], Val{e.loc("string", ""), args[0][0], e.C.AddK(args[0][1], i)}))
				}
				return one(st, e.concat(st, ps))
			}
			return one(st, e.freshString(st))
		},
		"strings.TrimSuffix": func(e *Engine, x *explorer, st *State, cc *ssa.CallCommon, fn *ssa.Function, args []Val) []outcome {
			c := e.C
			s, suf := args[0], args[1]
			has := c.And(c.Ule(suf[2], s[2]), e.bytesEq(st.mem, s[0], c.Add(s[1], c.Sub(s[2], suf[2])), suf[0], suf[1], suf[2]))
			y, n := st.split(has)
			var outs []outcome
			if y != nil {
				outs = append(outs, outcome{st: y, v: Val{s[0], s[1], c.Sub(s[2], suf[2])}})
			}
			if n != nil {
				outs = append(outs, outcome{st: n, v: s})
			}
			return outs
		},
		"encoding/binary.Write": nil,

		"net/netip.AddrFromSlice": func(e *Engine, x *explorer, st *State, cc *ssa.CallCommon, fn *ssa.Function, args []Val) []outcome {
			return one(st, e.addrFromSlice(st.mem, args[0]))
		},
		"net/netip.AddrFrom4": func(e *Engine, x *explorer, st *State, cc *ssa.CallCommon, fn *ssa.Function, args []Val) []outcome {
			return one(st, e.mkAddr(e.C.BV(4, 8), e.v4bytes(args[0])))
		},
		"net/netip.AddrFrom16": func(e *Engine, x *explorer, st *State, cc *ssa.CallCommon, fn *ssa.Function, args []Val) []outcome {
			return one(st, e.mkAddr(e.C.BV(6, 8), args[0]))
		},
		"(net/netip.Addr).Is4":     addrPred(func(e *Engine, a Val) *T { return e.C.Eq(a[0], e.C.BV(4, 8)) }),
		"(net/netip.Addr).Is6":     addrPred(func(e *Engine, a Val) *T { return e.C.Eq(a[0], e.C.BV(6, 8)) }),
		"(net/netip.Addr).IsValid": addrPred(func(e *Engine, a Val) *T { return e.C.Ne(a[0], e.C.BV(0, 8)) }),
		"(net/netip.Addr).Is4In6":  addrPred(func(e *Engine, a Val) *T { return e.is4in6(a) }),
		"(net/netip.Addr).Zone": func(e *Engine, x *explorer, st *State, cc *ssa.CallCommon, fn *ssa.Function, args []Val) []outcome {
			s := e.freshString(st)
			st.assume(e.C.Eq(e.C.Eq(args[0][1], e.C.BV(0, 32)), e.C.Eq(s[2], e.i64(0))))
			return one(st, s)
		},
		"(net/netip.Addr).BitLen": addrPred(func(e *Engine, a Val) *T {
			return e.C.Ite(e.C.Eq(a[0], e.C.BV(4, 8)), e.i64(32), e.C.Ite(e.C.Eq(a[0], e.C.BV(6, 8)), e.i64(128), e.i64(0)))
		}),
		"(net/netip.Addr).As16": func(e *Engine, x *explorer, st *State, cc *ssa.CallCommon, fn *ssa.Function, args []Val) []outcome {
			return one(st, append(Val{}, args[0][2:18]...))
		},
		"(net/netip.Addr).As4": func(e *Engine, x *explorer, st *State, cc *ssa.CallCommon, fn *ssa.Function, args []Val) []outcome {
			a := args[0]
			st.need(x, e.C.Or(e.C.Eq(a[0], e.C.BV(4, 8)), e.is4in6(a)), "As4 called on IPv6 address", cc.Pos(), st.top().fn)
			return one(st, append(Val{}, a[14:18]...))
		},
		"(net/netip.Addr).Unmap": func(e *Engine, x *explorer, st *State, cc *ssa.CallCommon, fn *ssa.Function, args []Val) []outcome {
			a := append(Val{}, args[0]...)
			m := e.is4in6(a)
			a[0] = e.C.Ite(m, e.C.BV(4, 8), a[0])
			a[1] = e.C.Ite(m, e.C.BV(0, 32), a[1])
			return one(st, a)
		},
		"(net/netip.Addr).AsSlice": func(e *Engine, x *explorer, st *State, cc *ssa.CallCommon, fn *ssa.Function, args []Val) []outcome {
			c := e.C
			a := args[0]
			var outs []outcome
			mk := func(s *State, bs []*T) {
				r := e.freshRef()
				w := len(s.writes)
				for i, b := range bs {
					s.writeLeaf(memKey{"uint8", ""}, Leaf{"", 8, KInt}, r, e.i64(int64(i)), b)
				}
				s.writes = s.writes[:w]
				n := e.i64(int64(len(bs)))
				if len(bs) == 0 {
					r = c.BV(0, wRef)
				}
				outs = append(outs, outcome{st: s, v: Val{r, e.i64(0), n, n}})
			}
			y, n := st.split(c.Eq(a[0], c.BV(4, 8)))
			if y != nil {
				mk(y, a[14:18])
			}
			if n != nil {
				y6, z := n.split(c.Eq(a[0], c.BV(6, 8)))
				if y6 != nil {
					mk(y6, a[2:18])
				}
				if z != nil {
					mk(z, nil)
				}
			}
			return outs
		},
		"(net/netip.Addr).String": func(e *Engine, x *explorer, st *State, cc *ssa.CallCommon, fn *ssa.Function, args []Val) []outcome {
			return one(st, e.freshString(st))
		},

		"(*sync.Mutex).Lock":     lockModel,
		"(*sync.RWMutex).Lock":   lockModel,
		"(*sync.Mutex).Unlock":   unlockModel,
		"(*sync.RWMutex).Unlock": unlockModel,
		"(*sync.RWMutex).RLock": func(e *Engine, x *explorer, st *State, cc *ssa.CallCommon, fn *ssa.Function, args []Val) []outcome {
			k, _ := e.lockName(args[0])
			st.held["r:"+k] = true
			return lockModel(e, x, st, cc, fn, args)
		},
		"(*sync.RWMutex).RUnlock": func(e *Engine, x *explorer, st *State, cc *ssa.CallCommon, fn *ssa.Function, args []Val) []outcome {
			k, _ := e.lockName(args[0])
			delete(st.held, "r:"+k)
			return unlockModel(e, x, st, cc, fn, args)
		},
		"sync.NewCond": func(e *Engine, x *explorer, st *State, cc *ssa.CallCommon, fn *ssa.Function, args []Val) []outcome {
			o := retFresh(e, x, st, cc, fn, args)
			v := o[0].v
			t := cc.Signature().Results().At(0).Type()
			w := len(st.writes)
			st.zeroObj(t.Underlying().(*types.Pointer).Elem(), v[1])
			fi := condL(t)
			st.store(cc.Signature().Params().At(0).Type(), e.fieldAddr(v, t, fi), args[0])
			st.writes = st.writes[:w]
			return o
		},
		"(*sync.Cond).Signal":    signalModel,
		"(*sync.Cond).Broadcast": signalModel,
		"(*sync.Cond).Wait": func(e *Engine, x *explorer, st *State, cc *ssa.CallCommon, fn *ssa.Function, args []Val) []outcome {
			// the lock is the one held (checked): release and acquire again
			p := st.curLock
			if p == nil {
				st.check(e.C.False, "Cond.Wait called with the lock held in "+funcKey(st.top().fn), e.posStr(cc.Pos()), "")
				return one(st, nil)
			}
			k, n := e.lockName(p)
			l := st.load(cc.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(condL(cc.Args[0].Type())).Type(), e.fieldAddr(args[0], cc.Args[0].Type(), condL(cc.Args[0].Type())))
			st.check(e.C.And(e.C.Eq(l[2], p[1]), e.C.Eq(l[3], p[2])), "the condition waited for in "+funcKey(st.top().fn)+" belongs to the lock that is held", e.posStr(cc.Pos()), "")
			st.check(e.C.Bool(st.held[k] && !st.held["r:"+k]), "lock "+n+" is held for writing when Cond.Wait is called in "+funcKey(st.top().fn), e.posStr(cc.Pos()), "")
			e.monRelease(st, p, e.posStr(cc.Pos()))
			e.monAcquire(st, p)
			return one(st, nil)
		},
		"(*sync.Pool).Get": poolGet,
		"(*sync.Pool).Put": poolPut,

		"context.Cause": func(e *Engine, x *explorer, st *State, cc *ssa.CallCommon, fn *ssa.Function, args []Val) []outcome {
			c := e.C
			r := ghostOf(args[0])
			can := c.Ne(st.ghostRead(gCancelled, r), e.i64(0))
			y, n := st.split(can)
			var outs []outcome
			if y != nil {
				v := y.loadCause(r)
				y.assume(c.Ne(v[0], c.BV(0, wTag)))
				outs = append(outs, outcome{st: y, v: v})
			}
			if n != nil {
				outs = append(outs, outcome{st: n, v: e.zero(errType)})
			}
			return outs
		},
		"context.WithCancelCause": withCancel,
		"context.WithCancel":      withCancel,
		"runtime.NumCPU": func(e *Engine, x *explorer, st *State, cc *ssa.CallCommon, fn *ssa.Function, args []Val) []outcome {
			n := e.C.Zext(e.C.App("NumCPU", 12, e.i64(0)), 64)
			st.assume(e.C.Ne(n, e.i64(0)))
			return one(st, Val{n})
		},
		"runtime.Stack": func(e *Engine, x *explorer, st *State, cc *ssa.CallCommon, fn *ssa.Function, args []Val) []outcome {
			b := args[0]
			st.havocRef(types.Typ[types.Uint8], b[0], b[1], b[2], "stk")
			n := e.C.Zext(e.C.FreshVar("stk", lenW), 64)
			st.assume(e.C.Ule(n, b[2]))
			return one(st, Val{n})
		},
		"log.Println": retZero,
		"log.Printf":  retZero,
		"log.Print":   retZero,
	}
	delete(models, "encoding/binary.Write")
	for n, sz := range map[string]int{"Uint16": 2, "Uint32": 4, "Uint64": 8} {
		models["(encoding/binary.bigEndian)."+n] = beGet(sz)
		models["(encoding/binary.bigEndian).Put"+n] = bePut(sz)
		models["(encoding/binary.bigEndian).Append"+n] = beAppend(sz)
	}
	ifaceModels = map[string]model{
		"Read":     readModel,
		"Write":    writeModel,
		"ReadByte": readByteModel,
		"Error": func(e *Engine, x *explorer, st *State, cc *ssa.CallCommon, fn *ssa.Function, args []Val) []outcome {
			return one(st, e.freshString(st))
		},
		"Err": func(e *Engine, x *explorer, st *State, cc *ssa.CallCommon, fn *ssa.Function, args []Val) []outcome {
			c := e.C
			can := c.Ne(st.ghostRead(gCancelled, ghostOf(args[0])), e.i64(0))
			y, n := st.split(can)
			var outs []outcome
			if y != nil {
				outs = append(outs, outcome{st: y, v: y.anyErr("ctxerr")})
			}
			if n != nil {
				outs = append(outs, outcome{st: n, v: e.zero(errType)})
			}
			return outs
		},
		"Value": retAny,
		"Done":  retAny,
	}
	cancel := func(withCause bool) model {
		return func(e *Engine, x *explorer, st *State, cc *ssa.CallCommon, fn *ssa.Function, args []Val) []outcome {
			c := e.C
			r := c.Zext(c.App("ctx.of", 16, args[0][0]), wRef)
			was := st.ghostRead(gCancelled, r)
			first := c.Eq(was, e.i64(0))
			cause := Val{e.tag(errStringType), e.loc("errors.errorString", ""), e.ghost("context.Canceled"), e.i64(0)}
			if withCause {
				isNil := c.Eq(args[1][0], c.BV(0, wTag))
				for i := range cause {
					cause[i] = c.Ite(isNil, cause[i], args[1][i])
				}
			}
			old := st.loadCause(r)
			for i, l := range layout(errType) {
				st.writeLeaf(memKey{"§cause", l.Path}, l, r, e.i64(0), c.Ite(first, cause[i], old[i]))
			}
			st.ghostWrite(gCancelled, r, c.AddK(was, 1))
			return one(st, nil)
		}
	}
	funcModels = map[string]model{
		"context.CancelCauseFunc": cancel(true),
		"context.CancelFunc":      cancel(false),
	}
	pureIntr["vCancels"] = func(p *pure, env *penv, i *ssa.Call, fn *ssa.Function, args []Val) Val {
		c := p.e.C
		return Val{c.And(c.Ne(args[0][0], c.BV(0, wFn)), c.Eq(c.Zext(c.App("ctx.of", 16, args[0][0]), wRef), ghostOf(args[1])))}
	}
	pureIntr["vCancelled"] = func(p *pure, env *penv, i *ssa.Call, fn *ssa.Function, args []Val) Val {
		return ghostGet(gCancelled)(p, env, i, fn, args)
	}
	pureIntr["vModCancel"] = func(p *pure, env *penv, i *ssa.Call, fn *ssa.Function, args []Val) Val {
		r := ghostOf(args[0])
		p.mod([]memKey{gCancelled.key}, []Leaf{gCancelled.leaf}, r, p.e.i64(0), p.e.i64(1), nil)
		for _, l := range layout(errType) {
			p.mod([]memKey{{"§cause", l.Path}}, []Leaf{l}, r, p.e.i64(0), p.e.i64(1), nil)
		}
		return nil
	}
	pureIntr["vCauseNil"] = func(p *pure, env *penv, i *ssa.Call, fn *ssa.Function, args []Val) Val {
		// the cause is the plain cancellation
		r := ghostOf(args[0])
		l := layout(errType)
		v := p.e.read(p.e.memNode(p.mem, memKey{"§cause", l[2].Path}, l[2]), r, p.e.i64(0))
		return Val{p.e.C.Eq(v, p.e.ghost("context.Canceled"))}
	}
	for n, h := range map[string]model{"net/netip.AddrFromSlice": models["net/netip.AddrFromSlice"], "net/netip.AddrFrom4": models["net/netip.AddrFrom4"], "net/netip.AddrFrom16": models["net/netip.AddrFrom16"],
		"(net/netip.Addr).Is4": models["(net/netip.Addr).Is4"], "(net/netip.Addr).Is6": models["(net/netip.Addr).Is6"], "(net/netip.Addr).IsValid": models["(net/netip.Addr).IsValid"],
		"(net/netip.Addr).Is4In6": models["(net/netip.Addr).Is4In6"], "(net/netip.Addr).As16": models["(net/netip.Addr).As16"], "(net/netip.Addr).BitLen": models["(net/netip.Addr).BitLen"],
		"(net/netip.Addr).Unmap": models["(net/netip.Addr).Unmap"], "bytes.Equal": models["bytes.Equal"]} {
		h := h
		pureModels[n] = func(p *pure, args []Val) Val {
			s := p.e.newState()
			s.mem = p.mem
			return h(p.e, nil, s, nil, nil, args)[0].v
		}
	}
	pureModels["(net/netip.Addr).As4"] = func(p *pure, args []Val) Val { return append(Val{}, args[0][14:18]...) }
	pureModels["(encoding/binary.bigEndian).Uint32"] = func(p *pure, args []Val) Val {
		return Val{p.e.beTerm(p.mem, args[len(args)-1], 4)}
	}
	pureModels["errors.Is"] = func(p *pure, args []Val) Val { return Val{p.e.errorsIs(p.mem, args[0], args[1], 3)} }
}

var gCancelled = ghostVar{memKey{"§ctx", "cancelled"}, Leaf{"", 64, KLen}}

func (st *State) loadCause(r *T) Val {
	e := st.e
	var v Val
	for _, l := range layout(errType) {
		v = append(v, e.read(e.memNode(st.mem, memKey{"§cause", l.Path}, l), r, e.i64(0)))
	}
	return v
}

func withCancel(e *Engine, x *explorer, st *State, cc *ssa.CallCommon, fn *ssa.Function, args []Val) []outcome {
	c := e.C
	r := c.Zext(c.FreshVar("ctx", 16), wRef)
	f := c.FreshVar("cancel", wFn)
	st.assume(c.And(c.Ne(r, c.BV(0, wRef)), c.Ne(f, c.BV(0, wFn)), c.Eq(c.Zext(c.App("ctx.of", 16, f), wRef), r)))
	t := c.FreshVar("ctxtag", wTag)
	st.assume(c.Ne(t, c.BV(0, wTag)))
	return one(st, Val{t, e.loc("context.ctx", ""), r, e.i64(0), f})
}

func lockModel(e *Engine, x *explorer, st *State, cc *ssa.CallCommon, fn *ssa.Function, args []Val) []outcome {
	p := args[0]
	st.need(x, e.C.Ne(p[1], e.C.BV(0, wRef)), "nil dereference", cc.Pos(), st.top().fn)
	k, n := e.lockName(p)
	st.check(e.C.Bool(!st.held[k]), "lock "+n+" is not already held in "+funcKey(st.top().fn), e.posStr(cc.Pos()), "")
	st.held[k] = true
	st.curLock = p
	e.monAcquire(st, p)
	return one(st, nil)
}

func unlockModel(e *Engine, x *explorer, st *State, cc *ssa.CallCommon, fn *ssa.Function, args []Val) []outcome {
	p := args[0]
	k, n := e.lockName(p)
	st.check(e.C.Bool(st.held[k]), "lock "+n+" is held when released in "+funcKey(st.top().fn), e.posStr(cc.Pos()), "")
	e.monRelease(st, p, e.posStr(cc.Pos()))
	delete(st.held, k)
	if len(st.held) == 0 {
		st.curLock = nil
	}
	return one(st, nil)
}

// condL is the index of the field L of sync.Cond.
func condL(t types.Type) int {
	s := t.Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == "L" {
			return i
		}
	}
	return 0
}

func signalModel(e *Engine, x *explorer, st *State, cc *ssa.CallCommon, fn *ssa.Function, args []Val) []outcome {
	g := ghostNamed("signals")
	r := args[0][1]
	w := len(st.writes)
	st.ghostWrite(g, r, e.C.AddK(st.ghostRead(g, r), 1))
	st.writes = st.writes[:w]
	return one(st, nil)
}

func (e *Engine) poolOf(p Val) *PoolSpec {
	if p[1].IsConst() {
		if g := e.globalBy[p[1].Val]; g != nil {
			return e.P.Pools[short(g.RelString(nil))]
		}
	}
	return nil
}

func poolGet(e *Engine, x *explorer, st *State, cc *ssa.CallCommon, fn *ssa.Function, args []Val) []outcome {
	ps := e.poolOf(args[0])
	if ps == nil || ps.Inv == nil {
		e.fail("sync.Pool without specification")
	}
	e.Used["pool "+ps.Global] = true
	pt := ps.Inv.Signature.Params().At(0).Type()
	et := pt.Underlying().(*types.Pointer).Elem()
	r := e.freshRef()
	st.freshHavoc(et, r)
	p := e.ptrTo(et, r)
	// pointers inside a pooled object are its own
	var opts []ownOpt
	e.ownFields(st, et, p, 0, &opts)
	t, fs := e.evalClause(st.eqs, Clause{Name: "poolinv", Fn: ps.Inv}, st.mem, st.mem, nil, []Val{p})
	st.assumeAll(fs)
	st.assume(t)
	w := len(st.writes)
	for _, o := range opts {
		switch {
		case st.known[o.b] || !st.feasible(e.C.Not(o.b)):
			st.store(o.t, o.p, o.yes)
		case st.known[e.C.Not(o.b)] || !st.feasible(o.b):
			st.store(o.t, o.p, e.zero(o.t))
		}
	}
	st.writes = st.writes[:w]
	return one(st, Val{e.tag(pt), p[0], p[1], p[2]})
}

// ownOpt is a field that is nil or (b) the object's own.
type ownOpt struct {
	b   *T
	t   types.Type
	p   Val
	yes Val
}

// ownFields gives the pointer and slice fields of a pooled object fresh
// targets where the pool invariant says that they are not nil.
func (e *Engine) ownFields(st *State, t types.Type, p Val, depth int, opts *[]ownOpt) {
	s, ok := t.Underlying().(*types.Struct)
	if !ok || depth > 2 {
		return
	}
	if len(layout(t)) > 0 && layout(t)[0].Path == ".kind" {
		return
	}
	li, _ := e.locOf(p[0])
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		fp := Val{e.loc(li.root, li.prefix+"."+s.Field(i).Name()), p[1], p[2]}
		switch u := ft.Underlying().(type) {
		case *types.Pointer:
			nr := e.freshRef()
			st.freshHavoc(u.Elem(), nr)
			n := len(st.writes)
			v := e.ptrTo(u.Elem(), nr)
			// either nil or its own object
			b := e.C.FreshVar("poolfield", 0)
			st.store(ft, fp, Val{v[0], e.C.Ite(b, v[1], e.C.BV(0, wRef)), e.i64(0)})
			st.writes = st.writes[:n]
			*opts = append(*opts, ownOpt{b, ft, fp, v})
			e.ownFields(st, u.Elem(), v, depth+1, opts)
		case *types.Slice:
			nr := e.freshRef()
			st.freshHavoc(u.Elem(), nr)
			n := len(st.writes)
			cur := e.loadMem(st.mem, ft, fp)
			st.assumeAll(e.typeFacts(ft, cur))
			b := e.C.FreshVar("poolfield", 0)
			v := Val{nr, e.i64(0), cur[2], cur[3]}
			z := e.zero(ft)
			m := make(Val, len(v))
			for k := range v {
				m[k] = e.C.Ite(b, v[k], z[k])
			}
			st.store(ft, fp, m)
			st.writes = st.writes[:n]
			*opts = append(*opts, ownOpt{b, ft, fp, v})
		case *types.Struct:
			e.ownFields(st, ft, fp, depth+1, opts)
		}
	}
}

func poolPut(e *Engine, x *explorer, st *State, cc *ssa.CallCommon, fn *ssa.Function, args []Val) []outcome {
	ps := e.poolOf(args[0])
	if ps == nil || ps.Inv == nil {
		e.fail("sync.Pool without specification")
	}
	e.Used["pool "+ps.Global] = true
	v := args[1]
	pt := ps.Inv.Signature.Params().At(0).Type()
	et := pt.Underlying().(*types.Pointer).Elem()
	where := funcKey(st.top().fn)
	nm := "pool " + ps.Global + " gets back an object of its type in " + where
	e.tagObl(nm, "C12")
	st.check(e.C.Eq(v[0], e.tag(pt)), nm, e.posStr(cc.Pos()), "")
	p := Val{e.canonLoc(et), v[2], v[3]}
	t, fs := e.evalClause(st.eqs, Clause{Name: "poolinv", Fn: ps.Inv}, st.mem, st.mem, nil, []Val{p})
	st.assumeAll(fs)
	nm = "pool invariant " + ps.Inv.Name() + " holds for an object given back in " + where
	e.tagObl(nm, "C12")
	st.check(t, nm, e.posStr(cc.Pos()), "")
	nm = "object given back to " + ps.Global + " only once, in " + where
	e.tagObl(nm, "C12")
	g := ghostNamed("released")
	st.check(e.C.Eq(st.ghostRead(g, p[1]), e.i64(0)), nm, e.posStr(cc.Pos()), "")
	st.ghostWrite(g, p[1], e.i64(1))
	st.markReleased(et, p, ps.Global, 0)
	return one(st, nil)
}

// markReleased records that the object p designates, and what it owns, must
// not be used any more on this path.
func (st *State) markReleased(t types.Type, p Val, what string, depth int) {
	e := st.e
	if !p[1].IsConst() || p[1].Val < freshRef0 || p[1].Val >= globalRef0 {
		if !p[1].IsConst() {
			st.relSym = append(st.relSym, p[1])
		}
		return
	}
	st.rel[p[1].Val] = what
	s, ok := t.Underlying().(*types.Struct)
	if !ok || depth > 2 {
		return
	}
	li, ok := e.locOf(p[0])
	if !ok {
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		fp := Val{e.loc(li.root, li.prefix+"."+s.Field(i).Name()), p[1], p[2]}
		switch u := ft.Underlying().(type) {
		case *types.Pointer:
			v := e.loadMem(st.mem, ft, fp)
			if v[1].IsConst() && v[1].Val != 0 {
				st.markReleased(u.Elem(), v, what, depth+1)
			}
		case *types.Slice:
			v := e.loadMem(st.mem, ft, fp)
			if v[0].IsConst() && v[0].Val >= freshRef0 && v[0].Val < globalRef0 {
				st.rel[v[0].Val] = what
			}
		}
	}
}

// usable checks that ref has not been given back.
func (st *State) usable(ref *T, where, pos string) {
	e := st.e
	if st.spec || e.specMode > 0 {
		return
	}
	if ref.IsConst() {
		if what, ok := st.rel[ref.Val]; ok {
			nm := "object of " + what + " not touched after it was given back, in " + where
			e.tagObl(nm, "C12")
			st.check(e.C.False, nm, pos, "")
		}
		return
	}
	for _, r := range st.relSym {
		nm := "object not touched after it was given back, in " + where
		if r == ref {
			e.tagObl(nm, "C12")
			st.check(e.C.False, nm, pos, "")
		}
	}
}

// tagObl attributes an obligation to a property.
func (e *Engine) tagObl(name string, props ...string) {
	if _, ok := e.OblProps[name]; !ok {
		e.OblProps[name] = props
	}
}

var _ = fmt.Sprint
