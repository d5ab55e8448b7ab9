package eng

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"gov/smt"
)

// restart asks for the target to be verified again with other settings.
type restart struct{ why string }

// explore runs all paths from the given states. done is called when the
// outermost frame of a path has returned or panicked.
type explorer struct {
	e     *Engine
	work  []*State
	done  func(st *State, res Val, panicked bool)
	edge  func(st *State, from, to *ssa.BasicBlock) bool // true: the path ends here
	paths int
}

func (e *Engine) newState() *State {
	return &State{e: e, mem: Mem{}, known: map[*T]bool{}, eqs: map[*T]*T{}, rel: map[uint64]string{}, held: map[string]bool{}, acq: map[string]Mem{}, ext: map[string]int{}}
}

func (x *explorer) push(st *State) {
	if !st.dead {
		x.work = append(x.work, st)
	}
}

func (x *explorer) run() {
	for len(x.work) > 0 {
		st := x.work[len(x.work)-1]
		x.work = x.work[:len(x.work)-1]
		x.path(st)
	}
}

func (x *explorer) path(st *State) {
	e := x.e
	st.x = x
	for !st.dead {
		e.steps++
		if e.steps%256 == 0 {
			e.checkTime()
		}
		if len(st.frames) == 0 {
			return
		}
		f := st.top()
		if f.pc >= len(f.block.Instrs) {
			e.fail("fell off block in %s", f.fn)
		}
		in := f.block.Instrs[f.pc]
		f.pc++
		if !e.step(x, st, f, in) {
			break
		}
	}
	e.Paths++
	if e.Paths > e.maxPaths {
		e.fail("too many paths (%d)", e.Paths)
	}
}

func (st *State) pushFrame(fn *ssa.Function, args []Val, binds []Val, call ssa.CallInstruction) *Frame {
	e := st.e
	if len(fn.Blocks) == 0 {
		e.fail("function without body: %s", fn)
	}
	if len(st.frames) > 60 {
		e.fail("call depth exceeded in %s (unbounded recursion needs a contract)", fn)
	}
	f := &Frame{fn: fn, env: map[ssa.Value]Val{}, block: fn.Blocks[0], binds: binds, callee: call, visits: map[*ssa.BasicBlock]int{}, loops: map[*ssa.BasicBlock]*loopState{}}
	for i, p := range fn.Params {
		f.env[p] = args[i]
	}
	st.frames = append(st.frames, f)
	return f
}

// popFrame returns res from the top frame. false: path finished.
func (st *State) popFrame(res Val) bool {
	x := st.x
	f := st.top()
	if f.probing > 0 {
		return false
	}
	st.frames = st.frames[:len(st.frames)-1]
	if f.onRet != nil {
		res = f.onRet(st, res)
	}
	if len(st.frames) == 0 {
		x.done(st, res, false)
		return false
	}
	g := st.top()
	if f.inDefer {
		if g.panicAt {
			if st.panicV != nil {
				return st.unwind()
			}
			g.panicAt = false
			if g.fn.Recover != nil {
				g.block, g.prev, g.pc = g.fn.Recover, nil, 0
				return true
			}
			return st.popFrame(st.e.zero(g.fn.Signature.Results()))
		}
		g.pc-- // RunDefers again
		return true
	}
	if f.callee != nil && !f.discard {
		if v := f.callee.Value(); v != nil {
			g.env[v] = res
		}
	}
	return true
}

// doPanic starts unwinding with value v.
func (st *State) doPanic(v Val, info string) bool {
	st.panicV = v
	st.panicI = info
	st.log = append(st.log, "panic")
	return st.unwind()
}

func (st *State) unwind() bool {
	for {
		if len(st.frames) == 0 {
			st.x.done(st, nil, true)
			return false
		}
		f := st.top()
		f.panicAt = true
		if len(f.defers) > 0 {
			return st.runDefer(f)
		}
		if f.probing > 0 {
			return false
		}
		if f.inDefer {
			// panicking deferred call: the outer function goes on unwinding
			st.frames = st.frames[:len(st.frames)-1]
			continue
		}
		st.frames = st.frames[:len(st.frames)-1]
	}
}

// runDefer starts the last deferred call of f.
func (st *State) runDefer(f *Frame) bool {
	d := f.defers[len(f.defers)-1]
	f.defers = f.defers[:len(f.defers)-1]
	n := len(st.frames)
	cont := st.e.invoke(st.x, st, nil, d.call, d.fn, d.args, func() {})
	if !cont {
		return false
	}
	if len(st.frames) > n {
		st.top().inDefer = true
		st.top().discard = true
		return true
	}
	// native: completed immediately
	if f.panicAt {
		if st.panicV != nil {
			return st.unwind()
		}
	} else {
		f.pc-- // RunDefers again
	}
	return true
}

// panicsAllowed reports whether a run-time panic here is an ordinary outcome.
func (st *State) panicsAllowed() bool {
	if st.mayPanic {
		return true
	}
	for _, f := range st.frames {
		for _, d := range f.defers {
			if fn := st.e.calleeOf(d.fn, d.call); fn != nil && hasRecover(fn) {
				return true
			}
		}
	}
	return false
}

func hasRecover(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if c, ok := i.(*ssa.Call); ok {
				if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "recover" {
					return true
				}
			}
		}
	}
	return false
}

func (e *Engine) calleeOf(v Val, call *ssa.CallCommon) *ssa.Function {
	if call != nil {
		if f := call.StaticCallee(); f != nil {
			return f
		}
	}
	if len(v) == 1 && v[0].IsConst() && v[0].Val > 0 && v[0].Val < uint64(len(e.clos)) {
		return e.clos[v[0].Val].Fn
	}
	return nil
}

// need makes cond necessary for the operation at pos. Where panics are part
// of the behaviour, the failing case continues as a panic.
func (st *State) need(x *explorer, cond *T, kind string, pos token.Pos, fn *ssa.Function) {
	e := st.e
	if cond.IsTrue() || st.known[cond] {
		return
	}
	if st.spec || e.NoPanicChecks {
		st.assume(cond)
		return
	}
	if st.panicsAllowed() {
		if r, _ := st.proves(cond); r == smt.Unsat {
			st.assume(cond)
			return
		}
		n := st.clone()
		n.assume(e.C.Not(cond))
		if !n.dead && n.feasible() {
			n.x = x
			if n.doPanic(e.ifaceStr("runtime error: "+kind), kind+" at "+e.posStr(pos)) {
				x.push(n)
			}
		}
		st.assume(cond)
		return
	}
	st.check(cond, "no panic: "+kind+" in "+funcKey(fn)+lineOf(e, pos), e.posStr(pos), "")
}

func lineOf(e *Engine, pos token.Pos) string {
	s := e.posStr(pos)
	if i := strings.LastIndexByte(s, ':'); i >= 0 {
		return s[i:]
	}
	return ""
}

func (e *Engine) ifaceStr(s string) Val {
	c := e.C
	return Val{e.tag(types.Typ[types.String]), e.loc("panic:"+s, ""), e.ghost("panic:" + s), c.BV(0, 64)}
}

func (e *Engine) mapLoc(p *T, f func(locInfo) *T) *T {
	if p.IsConst() {
		li, ok := e.locOf(p)
		if !ok {
			return p
		}
		return f(li)
	}
	if p.Op == smt.OpIte {
		return e.C.Ite(p.Args[0], e.mapLoc(p.Args[1], f), e.mapLoc(p.Args[2], f))
	}
	e.fail("pointer with unknown location class")
	return nil
}

func (e *Engine) fieldAddr(base Val, t types.Type, i int) Val {
	st := t.Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	name := st.Field(i).Name()
	return Val{e.mapLoc(base[0], func(li locInfo) *T { return e.loc(li.root, li.prefix+"."+name) }), base[1], base[2]}
}

// elemAddr addresses element i of the array a pointer designates.
func (e *Engine) elemAddr(base Val, at *types.Array, i *T) Val {
	li, ok := e.locOf(base[0])
	if ok && li.prefix != "" {
		if i.IsConst() {
			return Val{e.loc(li.root, fmt.Sprintf("%s[%d]", li.prefix, i.Val)), base[1], base[2]}
		}
		r := e.loc(li.root, li.prefix+"[0]")
		for k := int64(1); k < at.Len() && k < 64; k++ {
			r = e.C.Ite(e.C.Eq(i, e.i64(k)), e.loc(li.root, fmt.Sprintf("%s[%d]", li.prefix, k)), r)
		}
		return Val{r, base[1], base[2]}
	}
	return Val{base[0], base[1], e.C.Add(base[2], i)}
}

// toI64 converts an index operand to 64 bits.
func (e *Engine) toI64(v *T, t types.Type) *T {
	if v.W == 64 {
		return v
	}
	if isSigned(t) {
		return e.C.Sext(v, 64)
	}
	return e.C.Zext(v, 64)
}

func (e *Engine) step(x *explorer, st *State, f *Frame, in ssa.Instruction) bool {
	c := e.C
	switch i := in.(type) {
	case *ssa.DebugRef:
		return true
	case *ssa.Phi:
		// all phis of the block at once
		return e.phis(st, f)
	case *ssa.Alloc:
		f.env[i] = st.alloc(i.Type().(*types.Pointer).Elem())
		return true
	case *ssa.Store:
		p := st.val(f, i.Addr)
		if !derived(i.Addr) {
			st.need(x, c.Ne(p[1], c.BV(0, wRef)), "nil dereference", i.Pos(), f.fn)
		}
		t := i.Addr.Type().Underlying().(*types.Pointer).Elem()
		e.guardAccess(st, f, p, i.Pos(), true)
		if !p[1].IsConst() || p[1].Val < freshRef0 || p[1].Val >= globalRef0 {
			st.acqClean = false
		}
		st.store(t, p, st.val(f, i.Val))
		return true
	case *ssa.UnOp:
		if i.Op == token.MUL {
			p := st.val(f, i.X)
			t := i.Type()
			if !derived(i.X) {
				st.need(x, c.Ne(p[1], c.BV(0, wRef)), "nil dereference", i.Pos(), f.fn)
			}
			if st.dead {
				return false
			}
			e.guardAccess(st, f, p, i.Pos(), false)
			if v, ok := e.unsafeLoad(st, t, p); ok {
				f.env[i] = v
				return true
			}
			f.env[i] = st.load(t, p)
			return true
		}
		if i.Op == token.ARROW {
			// receive: unknown value
			v := e.symbolic(i.Type(), c.FreshName("recv"), false)
			f.env[i] = v
			return true
		}
		f.env[i] = e.unop(i.Op, i.X.Type(), st.val(f, i.X))
		return true
	case *ssa.BinOp:
		a, b := st.val(f, i.X), st.val(f, i.Y)
		if (i.Op == token.QUO || i.Op == token.REM) && isInt(i.X.Type()) {
			st.need(x, c.Ne(b[0], c.BV(0, b[0].W)), "division by zero", i.Pos(), f.fn)
		}
		if (i.Op == token.SHL || i.Op == token.SHR) && isSigned(i.Y.Type()) && !b[0].IsConst() {
			st.need(x, c.Not(c.Slt(b[0], c.BV(0, b[0].W))), "negative shift", i.Pos(), f.fn)
		}
		f.env[i] = e.binop(st.mem, st, i.Op, i.X.Type(), i.Y.Type(), a, b)
		return true
	case *ssa.FieldAddr:
		p := st.val(f, i.X)
		st.need(x, c.Ne(p[1], c.BV(0, wRef)), "nil dereference", i.Pos(), f.fn)
		f.env[i] = e.fieldAddr(p, i.X.Type(), i.Field)
		return true
	case *ssa.Field:
		v := st.val(f, i.X)
		o, n := fieldOffset(i.X.Type().Underlying().(*types.Struct), i.Field)
		f.env[i] = v[o : o+n]
		return true
	case *ssa.IndexAddr:
		b := st.val(f, i.X)
		idx := e.toI64(st.val(f, i.Index)[0], i.Index.Type())
		switch u := i.X.Type().Underlying().(type) {
		case *types.Slice:
			st.need(x, c.Ult(idx, b[2]), "index out of range", i.Pos(), f.fn)
			f.env[i] = Val{e.canonLoc(u.Elem()), b[0], c.Add(b[1], idx)}
		case *types.Pointer:
			at := u.Elem().Underlying().(*types.Array)
			st.need(x, c.Ne(b[1], c.BV(0, wRef)), "nil dereference", i.Pos(), f.fn)
			st.need(x, c.Ult(idx, e.i64(at.Len())), "index out of range", i.Pos(), f.fn)
			f.env[i] = e.elemAddr(b, at, idx)
		}
		return true
	case *ssa.Index:
		b := st.val(f, i.X)
		idx := e.toI64(st.val(f, i.Index)[0], i.Index.Type())
		if at, ok := i.X.Type().Underlying().(*types.Array); ok {
			st.need(x, c.Ult(idx, e.i64(at.Len())), "index out of range", i.Pos(), f.fn)
			f.env[i] = e.arrIndex(b, at, idx)
		} else {
			st.need(x, c.Ult(idx, b[2]), "index out of range", i.Pos(), f.fn)
			f.env[i] = Val{e.readByte(st.mem, b[0], c.Add(b[1], idx))}
		}
		return true
	case *ssa.Lookup:
		if isString(i.X.Type()) {
			b := st.val(f, i.X)
			idx := e.toI64(st.val(f, i.Index)[0], i.Index.Type())
			st.need(x, c.Ult(idx, b[2]), "index out of range", i.Pos(), f.fn)
			f.env[i] = Val{e.readByte(st.mem, b[0], c.Add(b[1], idx))}
			return true
		}
		f.env[i] = e.mapLookup(st, i, st.val(f, i.X), st.val(f, i.Index))
		return true
	case *ssa.MapUpdate:
		st.ext["mapupdate"]++
		return true
	case *ssa.MakeMap, *ssa.MakeChan:
		v := in.(ssa.Value)
		f.env[v] = Val{e.freshRef()}
		return true
	case *ssa.Slice:
		f.env[i] = e.sliceOp(x, st, f, i)
		return true
	case *ssa.MakeSlice:
		et := i.Type().Underlying().(*types.Slice).Elem()
		l := e.toI64(st.val(f, i.Len)[0], i.Len.Type())
		cp := e.toI64(st.val(f, i.Cap)[0], i.Cap.Type())
		es := elemSize(et)
		max := uint64(1<<lenW) / uint64(es)
		st.need(x, c.And(c.Ule(l, c.BV(max, 64)), c.Ule(l, cp), c.Ule(cp, c.BV(max, 64))), "makeslice: len or cap out of range", i.Pos(), f.fn)
		e.allocCheck(st, f, cp, es, i.Pos())
		r := e.freshRef()
		st.zeroObj(et, r)
		f.env[i] = Val{r, c.BV(0, 64), l, cp}
		return true
	case *ssa.MakeClosure:
		var bs []Val
		for _, b := range i.Bindings {
			bs = append(bs, st.val(f, b))
		}
		f.env[i] = e.closure(&Closure{Fn: i.Fn.(*ssa.Function), Binds: bs})
		return true
	case *ssa.MakeInterface:
		f.env[i] = e.makeIface(st, i.X.Type(), st.val(f, i.X))
		return true
	case *ssa.ChangeInterface:
		f.env[i] = st.val(f, i.X)
		return true
	case *ssa.ChangeType:
		v := st.val(f, i.X)
		f.env[i] = e.changeType(i.X.Type(), i.Type(), v)
		return true
	case *ssa.Convert:
		f.env[i] = e.convert(st, i.X.Type(), i.Type(), st.val(f, i.X))
		return true
	case *ssa.MultiConvert:
		f.env[i] = e.convert(st, i.X.Type(), i.Type(), st.val(f, i.X))
		return true
	case *ssa.SliceToArrayPointer:
		v := st.val(f, i.X)
		at := i.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		st.need(x, c.Ule(e.i64(at.Len()), v[2]), "slice to array conversion", i.Pos(), f.fn)
		f.env[i] = Val{e.canonLoc(at.Elem()), v[0], v[1]}
		return true
	case *ssa.Extract:
		t := st.val(f, i.Tuple)
		o, n := tupleOffset(i.Tuple.Type().(*types.Tuple), i.Index)
		f.env[i] = t[o : o+n]
		return true
	case *ssa.TypeAssert:
		return e.typeAssert(x, st, f, i)
	case *ssa.Range:
		f.env[i] = append(Val{}, st.val(f, i.X)...)
		return true
	case *ssa.Next:
		// iteration over maps and strings: arbitrary element or end
		f.env[i] = e.symbolic(i.Type(), c.FreshName("next"), false)
		return true
	case *ssa.Select:
		f.env[i] = e.symbolic(i.Type(), c.FreshName("select"), false)
		v := f.env[i]
		n := int64(len(i.States))
		lo := int64(0)
		if !i.Blocking {
			lo = -1
		}
		st.assume(c.And(c.Sle(e.i64(lo), v[0]), c.Slt(v[0], e.i64(n))))
		return true
	case *ssa.Send:
		return true
	case *ssa.Go:
		e.Models["go statement: the spawned function runs as a separate thread of control"] = true
		e.spawn(st, f, i)
		return true
	case *ssa.Defer:
		d := deferred{call: &i.Call}
		if i.Call.IsInvoke() {
			d.args = append(d.args, st.val(f, i.Call.Value))
		} else if _, ok := i.Call.Value.(*ssa.Builtin); !ok {
			d.fn = st.val(f, i.Call.Value)
		}
		for _, a := range i.Call.Args {
			d.args = append(d.args, st.val(f, a))
		}
		f.defers = append(f.defers, d)
		return true
	case *ssa.RunDefers:
		if len(f.defers) == 0 {
			return true
		}
		return st.runDefer(f)
	case *ssa.Call:
		var args []Val
		var fv Val
		if i.Call.IsInvoke() {
			args = append(args, st.val(f, i.Call.Value))
		} else if _, ok := i.Call.Value.(*ssa.Builtin); !ok {
			if i.Call.StaticCallee() == nil || isClosureCall(&i.Call) {
				fv = st.val(f, i.Call.Value)
			}
		}
		for _, a := range i.Call.Args {
			args = append(args, st.val(f, a))
		}
		return e.invoke(x, st, i, &i.Call, fv, args, nil)
	case *ssa.Return:
		var res Val
		for _, r := range i.Results {
			res = append(res, st.val(f, r)...)
		}
		return st.popFrame(res)
	case *ssa.Panic:
		v := st.val(f, i.X)
		if st.spec {
			st.dead = true
			return false
		}
		if st.panicsAllowed() {
			return st.doPanic(v, "panic at "+e.posStr(i.Pos()))
		}
		st.check(c.False, "no panic: explicit panic in "+funcKey(f.fn)+lineOf(e, i.Pos()), e.posStr(i.Pos()), "")
		st.dead = true
		return false
	case *ssa.Jump:
		return e.jump(x, st, f, f.block.Succs[0])
	case *ssa.If:
		cond := st.val(f, i.Cond)[0]
		tb, fb := f.block.Succs[0], f.block.Succs[1]
		if cond.IsTrue() || st.known[cond] {
			return e.jump(x, st, f, tb)
		}
		nc := c.Not(cond)
		if cond.IsFalse() || st.known[nc] {
			return e.jump(x, st, f, fb)
		}
		okT := st.feasible(cond)
		okF := true
		if okT {
			okF = st.feasible(nc)
		}
		ln := e.posStr(i.Cond.Pos())
		if okT && okF {
			n := st.clone()
			n.x = x
			n.assume(nc)
			n.log = append(n.log, ln+"=F")
			if !n.dead {
				if e.jump(x, n, n.top(), fb) {
					x.push(n)
				}
			}
		}
		if okT {
			st.assume(cond)
			if okF {
				st.log = append(st.log, ln+"=T")
			}
			return e.jump(x, st, f, tb)
		}
		st.assume(nc)
		return e.jump(x, st, f, fb)
	}
	e.fail("unsupported instruction %T in %s", in, f.fn)
	return false
}

// derived addresses have been checked where they were computed.
func derived(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Global, *ssa.IndexAddr, *ssa.FieldAddr, *ssa.Alloc:
		return true
	}
	return false
}

func isClosureCall(c *ssa.CallCommon) bool {
	_, ok := c.Value.(*ssa.MakeClosure)
	return ok
}

func (e *Engine) phis(st *State, f *Frame) bool {
	k := -1
	for j, p := range f.block.Preds {
		if p == f.prev {
			k = j
		}
	}
	if k < 0 {
		e.fail("phi without predecessor in %s", f.fn)
	}
	var ps []*ssa.Phi
	var vs []Val
	f.pc--
	for _, in := range f.block.Instrs[f.pc:] {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, p)
		vs = append(vs, st.val(f, p.Edges[k]))
	}
	for j, p := range ps {
		f.env[p] = vs[j]
	}
	f.pc += len(ps)
	return true
}

// jump moves to block to, treating loop headers.
func (e *Engine) jump(x *explorer, st *State, f *Frame, to *ssa.BasicBlock) bool {
	from := f.block
	if x.edge != nil && x.edge(st, from, to) {
		return false
	}
	for _, ls := range f.loops {
		if ls.probe && ls.body[from] && !ls.body[to] {
			return false
		}
	}
	f.prev, f.block, f.pc = from, to, 0
	return e.enterLoop(x, st, f, from, to)
}

func (e *Engine) unop(op token.Token, t types.Type, v Val) Val {
	c := e.C
	switch op {
	case token.NOT:
		return Val{c.Not(v[0])}
	case token.SUB:
		if isInt(t) {
			return Val{c.Neg(v[0])}
		}
		return Val{c.App("fneg", v[0].W, v[0])}
	case token.XOR:
		return Val{c.BNot(v[0])}
	}
	e.fail("unary operator %s", op)
	return nil
}

func (e *Engine) binop(m Mem, st *State, op token.Token, tx, ty types.Type, a, b Val) Val {
	c := e.C
	switch op {
	case token.EQL:
		return Val{e.equal(m, tx, ty, a, b)}
	case token.NEQ:
		return Val{c.Not(e.equal(m, tx, ty, a, b))}
	}
	if isString(tx) {
		switch op {
		case token.ADD:
			if st != nil {
				return e.strConcat(st, a, b)
			}
			return e.strConcatPure(a, b)
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			return Val{c.App("strcmp"+op.String(), 0, append(append([]*T{}, a...), b...)...)}
		}
	}
	if !isInt(tx) {
		if op == token.LSS || op == token.GTR || op == token.LEQ || op == token.GEQ {
			return Val{c.App("fcmp"+op.String(), 0, a[0], b[0])}
		}
		return Val{c.App("fop"+op.String(), a[0].W, a[0], b[0])}
	}
	s := isSigned(tx)
	x, y := a[0], b[0]
	switch op {
	case token.ADD:
		return Val{c.Add(x, y)}
	case token.SUB:
		return Val{c.Sub(x, y)}
	case token.MUL:
		return Val{c.Mul(x, y)}
	case token.QUO:
		if s {
			return Val{c.SDiv(x, y)}
		}
		return Val{c.UDiv(x, y)}
	case token.REM:
		if s {
			return Val{c.SRem(x, y)}
		}
		return Val{c.URem(x, y)}
	case token.AND:
		return Val{c.BAnd(x, y)}
	case token.OR:
		return Val{c.BOr(x, y)}
	case token.XOR:
		return Val{c.BXor(x, y)}
	case token.AND_NOT:
		return Val{c.BAnd(x, c.BNot(y))}
	case token.SHL, token.SHR:
		n := y
		if n.W < x.W {
			n = c.Zext(n, x.W)
		}
		if n.W > x.W {
			// saturate
			big := c.Ule(c.BV(uint64(x.W), n.W), n)
			lo := c.Extract(n, x.W-1, 0)
			n = c.Ite(big, c.BV(uint64(x.W), x.W), lo)
			if x.W == 8 {
				n = c.Ite(big, c.BV(8, 8), lo)
			}
		}
		if op == token.SHL {
			return Val{c.Shl(x, n)}
		}
		if s {
			return Val{c.Ashr(x, n)}
		}
		return Val{c.Lshr(x, n)}
	case token.LSS:
		if s {
			return Val{c.Slt(x, y)}
		}
		return Val{c.Ult(x, y)}
	case token.LEQ:
		if s {
			return Val{c.Sle(x, y)}
		}
		return Val{c.Ule(x, y)}
	case token.GTR:
		if s {
			return Val{c.Slt(y, x)}
		}
		return Val{c.Ult(y, x)}
	case token.GEQ:
		if s {
			return Val{c.Sle(y, x)}
		}
		return Val{c.Ule(y, x)}
	}
	e.fail("binary operator %s", op)
	return nil
}

func (e *Engine) readByte(m Mem, ref, idx *T) *T {
	k := memKey{"uint8", ""}
	return e.read(e.memNode(m, k, Leaf{"", 8, KInt}), ref, idx)
}

// bytesEq states that two byte ranges of equal length n have equal contents.
func (e *Engine) bytesEq(m Mem, ar, ao, br, bo, n *T) *T {
	c := e.C
	if ar == br && ao == bo {
		return c.True
	}
	if n.IsConst() && n.Val <= 64 {
		r := c.True
		for k := uint64(0); k < n.Val; k++ {
			r = c.And(r, c.Eq(e.readByte(m, ar, c.AddK(ao, k)), e.readByte(m, br, c.AddK(bo, k))))
		}
		return r
	}
	q := c.BoundVar(64)
	return c.Forall(q, c.Implies(c.Ult(q, n), c.Eq(e.readByte(m, ar, c.Add(ao, q)), e.readByte(m, br, c.Add(bo, q)))))
}

func (e *Engine) strEq(m Mem, a, b Val) *T {
	c := e.C
	n := a[2]
	if b[2].IsConst() {
		n = b[2]
	}
	return c.And(c.Eq(a[2], b[2]), e.bytesEq(m, a[0], a[1], b[0], b[1], n))
}

func (e *Engine) equal(m Mem, tx, ty types.Type, a, b Val) *T {
	c := e.C
	ix, iy := types.IsInterface(tx), types.IsInterface(ty)
	if ix && !iy {
		st := e.newState()
		st.mem = m.clone()
		b = e.makeIface(st, ty, b)
		m, ty, iy = st.mem, tx, true
	} else if iy && !ix {
		return e.equal(m, ty, tx, b, a)
	}
	if ix {
		r := c.Eq(a[0], b[0])
		if r.IsFalse() {
			return r
		}
		nilc := c.Eq(a[0], c.BV(0, wTag))
		if b[0].IsConst() && b[0].Val == 0 {
			return nilc
		}
		if a[0].IsConst() && a[0].Val == 0 {
			return c.Eq(b[0], a[0])
		}
		tg := a[0]
		if !tg.IsConst() {
			tg = b[0]
		}
		if tg.IsConst() && tg.Val > 0 {
			dt := e.tagTypes[tg.Val]
			if _, isPtr := dt.Underlying().(*types.Pointer); !isPtr && len(layout(dt)) > 0 {
				va := e.loadMem(m, dt, Val{e.canonLoc(dt), a[2], a[3]})
				vb := e.loadMem(m, dt, Val{e.canonLoc(dt), b[2], b[3]})
				return c.And(r, e.equal(m, dt, dt, va, vb))
			}
		}
		return c.And(r, c.Or(nilc, c.And(c.Eq(a[2], b[2]), c.Eq(a[3], b[3]))))
	}
	switch u := tx.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return e.strEq(m, a, b)
		}
		return c.Eq(a[0], b[0])
	case *types.Pointer:
		if len(a) == 3 && len(b) == 3 {
			return c.And(c.Eq(a[1], b[1]), c.Or(c.Eq(a[1], c.BV(0, wRef)), c.And(c.Eq(a[0], b[0]), c.Eq(a[2], b[2]))))
		}
	case *types.Slice:
		// comparison with nil
		if len(b) != 4 {
			return c.Eq(a[0], c.BV(0, wRef))
		}
		if b[0].IsConst() && b[0].Val == 0 {
			return c.Eq(a[0], b[0])
		}
		return c.Eq(a[0], b[0])
	case *types.Struct:
		if len(layout(tx)) > 0 && layout(tx)[0].Path == ".kind" {
			break
		}
		r := c.True
		for i := 0; i < u.NumFields(); i++ {
			o, n := fieldOffset(u, i)
			ft := u.Field(i).Type()
			r = c.And(r, e.equal(m, ft, ft, a[o:o+n], b[o:o+n]))
		}
		return r
	case *types.Map, *types.Chan:
		return c.Eq(a[0], b[0])
	case *types.Signature:
		return c.Eq(a[0], b[0])
	}
	r := c.True
	for i := range a {
		r = c.And(r, c.Eq(a[i], b[i]))
	}
	return r
}

func (e *Engine) arrIndex(b Val, at *types.Array, idx *T) Val {
	n := len(layout(at.Elem()))
	if idx.IsConst() && idx.Val < uint64(at.Len()) {
		return b[int(idx.Val)*n : int(idx.Val+1)*n]
	}
	r := append(Val{}, b[0:n]...)
	for k := int64(1); k < at.Len(); k++ {
		cd := e.C.Eq(idx, e.i64(k))
		for j := 0; j < n; j++ {
			r[j] = e.C.Ite(cd, b[int(k)*n+j], r[j])
		}
	}
	return r
}

func elemSize(t types.Type) int64 {
	s := types.SizesFor("gc", "amd64").Sizeof(t)
	if s == 0 {
		s = 1
	}
	return s
}

func (e *Engine) sliceOp(x *explorer, st *State, f *Frame, i *ssa.Slice) Val {
	c := e.C
	b := st.val(f, i.X)
	get := func(v ssa.Value) *T {
		if v == nil {
			return nil
		}
		return e.toI64(st.val(f, v)[0], v.Type())
	}
	lo, hi, mx := get(i.Low), get(i.High), get(i.Max)
	if lo == nil {
		lo = c.BV(0, 64)
	}
	switch u := i.X.Type().Underlying().(type) {
	case *types.Basic: // string
		if hi == nil {
			hi = b[2]
		}
		st.need(x, c.And(c.Ule(lo, hi), c.Ule(hi, b[2])), "slice bounds out of range", i.Pos(), f.fn)
		return Val{b[0], c.Add(b[1], lo), c.Sub(hi, lo)}
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		st.need(x, c.Ne(b[1], c.BV(0, wRef)), "nil dereference", i.Pos(), f.fn)
		li, ok := e.locOf(b[0])
		if !ok || li.prefix != "" {
			e.fail("slice of an array inside a struct")
		}
		b = Val{b[1], b[2], e.i64(at.Len()), e.i64(at.Len())}
	}
	if hi == nil {
		hi = b[2]
	}
	cp := b[3]
	if mx != nil {
		st.need(x, c.And(c.Ule(lo, hi), c.Ule(hi, mx), c.Ule(mx, cp)), "slice bounds out of range", i.Pos(), f.fn)
		cp = mx
	} else {
		st.need(x, c.And(c.Ule(lo, hi), c.Ule(hi, cp)), "slice bounds out of range", i.Pos(), f.fn)
	}
	return Val{b[0], c.Add(b[1], lo), c.Sub(hi, lo), c.Sub(cp, lo)}
}

func (e *Engine) makeIface(st *State, t types.Type, v Val) Val {
	c := e.C
	if types.IsInterface(t) {
		return v
	}
	switch t.Underlying().(type) {
	case *types.Pointer:
		return Val{e.tag(t), v[0], v[1], v[2]}
	}
	r := e.freshRef()
	p := Val{e.canonLoc(t), r, c.BV(0, 64)}
	n := len(st.writes)
	st.store(t, p, v)
	st.writes = st.writes[:n]
	return Val{e.tag(t), p[0], p[1], p[2]}
}

// unbox reads the dynamic value of type t held by an interface value.
func (e *Engine) unbox(m Mem, t types.Type, v Val) Val {
	if types.IsInterface(t) {
		return v
	}
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		p := v[1]
		if !p.IsConst() {
			p = e.canonLoc(pt.Elem())
		}
		return Val{p, v[2], v[3]}
	}
	return e.loadMem(m, t, Val{e.canonLoc(t), v[2], v[3]})
}

func (e *Engine) implements(t types.Type, it types.Type) bool {
	return types.Implements(t, it.Underlying().(*types.Interface))
}

func (e *Engine) hasType(v Val, t types.Type) *T {
	c := e.C
	if !types.IsInterface(t) {
		return c.Eq(v[0], e.tag(t))
	}
	it := t.Underlying().(*types.Interface)
	if it.NumMethods() == 0 {
		return c.Ne(v[0], c.BV(0, wTag))
	}
	if v[0].IsConst() {
		if v[0].Val == 0 {
			return c.False
		}
		return c.Bool(e.implements(e.tagTypes[v[0].Val], t))
	}
	return c.And(c.Ne(v[0], c.BV(0, wTag)), c.App("implements:"+tname(t), 0, v[0]))
}

func (e *Engine) typeAssert(x *explorer, st *State, f *Frame, i *ssa.TypeAssert) bool {
	c := e.C
	v := st.val(f, i.X)
	ok := e.hasType(v, i.AssertedType)
	res := e.unbox(st.mem, i.AssertedType, v)
	if i.CommaOk {
		zr := e.zero(i.AssertedType)
		out := make(Val, len(res))
		for j := range res {
			out[j] = c.Ite(ok, res[j], zr[j])
		}
		// keep location classes of pointers usable
		if _, isP := i.AssertedType.Underlying().(*types.Pointer); isP && !out[0].IsConst() {
			out[0] = res[0]
		}
		f.env[i] = append(append(Val{}, out...), ok)
		return true
	}
	st.need(x, ok, "interface conversion", i.Pos(), f.fn)
	f.env[i] = res
	if st.dead {
		return false
	}
	st.assumeAll(e.typeFacts(i.AssertedType, res))
	return true
}

func (e *Engine) changeType(from, to types.Type, v Val) Val {
	if fp, ok := from.Underlying().(*types.Pointer); ok {
		if tp, ok := to.Underlying().(*types.Pointer); ok && locType(fp.Elem()) != locType(tp.Elem()) {
			return Val{e.castLoc(v[0], fp.Elem(), tp.Elem()), v[1], v[2]}
		}
	}
	if fs, ok := from.Underlying().(*types.Slice); ok {
		if ts, ok := to.Underlying().(*types.Slice); ok && locType(fs.Elem()) != locType(ts.Elem()) {
			e.fail("slice element type conversion")
		}
	}
	return v
}

// castLoc: converting *A to *B with identical underlying types designates the
// same memory; only supported where both share one layout class.
func (e *Engine) castLoc(p *T, from, to types.Type) *T {
	return e.mapLoc(p, func(li locInfo) *T { return e.loc(li.root, li.prefix) })
}

func (e *Engine) convert(st *State, from, to types.Type, v Val) Val {
	c := e.C
	switch {
	case isInt(from) && isInt(to):
		w := layout(to)[0].W
		if w == v[0].W {
			return v
		}
		if w < v[0].W {
			return Val{c.Extract(v[0], w-1, 0)}
		}
		if isSigned(from) {
			return Val{c.Sext(v[0], w)}
		}
		return Val{c.Zext(v[0], w)}
	case isString(to) && isSliceOf(from):
		return e.copyToNew(st, v[0], v[1], v[2])[:3]
	case isSliceOf(to) && isString(from):
		return e.copyToNew(st, v[0], v[1], v[2])
	case isString(to) && isInt(from):
		return e.symbolic(to, c.FreshName("runestr"), false)
	case isString(to) && isString(from):
		return v
	}
	tl := layout(to)
	if len(tl) == len(v) {
		same := true
		for k := range tl {
			if tl[k].W != v[k].W {
				same = false
			}
		}
		if same {
			_, fi := from.Underlying().(*types.Basic)
			_, ti := to.Underlying().(*types.Basic)
			if !(fi && ti) || tname(from.Underlying()) == tname(to.Underlying()) {
				return v // pointers, unsafe.Pointer
			}
		}
	}
	return Val{c.App("conv:"+tname(from)+":"+tname(to), tl[0].W, v[0])}
}

func isSliceOf(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// copyToNew makes a fresh byte array holding n bytes of (ref, off).
func (e *Engine) copyToNew(st *State, ref, off, n *T) Val {
	c := e.C
	r := e.freshRef()
	z := c.BV(0, 64)
	if n.IsConst() && n.Val == 0 {
		return Val{r, z, z, z}
	}
	w := len(st.writes)
	st.copyElems(types.Typ[types.Uint8], r, z, ref, off, n)
	st.writes = st.writes[:w]
	return Val{r, z, n, n}
}

func (e *Engine) strConcat(st *State, a, b Val) Val {
	c := e.C
	r := e.freshRef()
	z := c.BV(0, 64)
	w := len(st.writes)
	st.copyElems(types.Typ[types.Uint8], r, z, a[0], a[1], a[2])
	st.copyElems(types.Typ[types.Uint8], r, a[2], b[0], b[1], b[2])
	st.writes = st.writes[:w]
	return Val{r, z, c.Add(a[2], b[2])}
}

func (e *Engine) strConcatPure(a, b Val) Val {
	e.fail("string concatenation in a specification")
	return nil
}

func (e *Engine) mapLookup(st *State, i *ssa.Lookup, m, k Val) Val {
	return e.symbolic(i.Type(), e.C.FreshName("lookup"), false)
}

// unsafeLoad recognises reading a slice header as a string header.
func (e *Engine) unsafeLoad(st *State, t types.Type, p Val) (Val, bool) {
	if !isString(t) {
		return nil, false
	}
	li, ok := e.locOf(p[0])
	if !ok || li.root == "string" {
		return nil, false
	}
	for _, pk := range e.P.Pkgs {
		_ = pk
	}
	k := memKey{li.root, li.prefix + ".c"}
	if _, has := st.mem[k]; !has {
		if _, has := e.bases[k]; !has {
			return nil, false
		}
	}
	v := e.loadMem(st.mem, types.NewSlice(types.Typ[types.Uint8]), p)
	st.assumeAll(e.typeFacts(types.NewSlice(types.Typ[types.Uint8]), v))
	return v[:3], true
}

func (e *Engine) guardAccess(st *State, f *Frame, p Val, pos token.Pos, write bool) {
	if st.spec || e.specMode > 0 {
		return
	}
	if len(st.rel) > 0 || len(st.relSym) > 0 {
		st.usable(p[1], funcKey(f.fn), e.posStr(pos))
	}
	li, ok := e.locOf(p[0])
	if !ok || li.prefix == "" {
		return
	}
	for _, m := range e.P.Monitors {
		if li.root != m.Root() {
			continue
		}
		for _, g := range m.Guard {
			if li.prefix == "."+g || strings.HasPrefix(li.prefix, "."+g+".") || strings.HasPrefix(li.prefix, "."+g+"[") {
				if p[1].IsConst() && p[1].Val >= freshRef0 && p[1].Val < globalRef0 {
					return // not shared yet
				}
				key := lockKey(m.Name, p[1])
				e.Used["monitor "+m.Name] = true
				ok := st.held[key] && !(write && st.held["r:"+key])
				st.check(e.C.Bool(ok), "guarded field "+short(li.root)+"."+g+" accessed under lock in "+funcKey(f.fn), e.posStr(pos), "")
				return
			}
		}
	}
}

func lockKey(name string, ref *T) string { return fmt.Sprintf("%s@%d", name, ref.ID) }

// allocCheck bounds memory reservation where a property asks for it.
func (e *Engine) allocCheck(st *State, f *Frame, n *T, es int64, pos token.Pos) {
	if e.AllocLimit == nil || st.spec {
		return
	}
	lim := e.AllocLimit(st)
	if lim == nil {
		return
	}
	st.check(e.C.Ule(n, lim), "allocation bounded in "+funcKey(f.fn)+lineOf(e, pos), e.posStr(pos), "")
}

func (e *Engine) spawn(st *State, f *Frame, i *ssa.Go) {}
