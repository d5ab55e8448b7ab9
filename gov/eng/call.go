package eng

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"gov/smt"
)

type outcome struct {
	st    *State
	v     Val
	panic string
}

func one(st *State, v Val) []outcome { return []outcome{{st: st, v: v}} }

// finish stores the outcomes of a call that completed immediately.
func (e *Engine) finish(x *explorer, st *State, call *ssa.Call, outs []outcome) bool {
	cont := false
	for _, o := range outs {
		if o.st.dead {
			continue
		}
		o.st.x = x
		go1 := true
		if o.panic != "" {
			go1 = o.st.doPanic(e.ifaceStr(o.panic), o.panic)
		} else if call != nil {
			o.st.top().env[call] = o.v
		}
		if o.st == st {
			cont = go1
		} else if go1 {
			if call == nil && o.panic == "" {
				if f := o.st.top(); f.panicAt {
					if !o.st.unwind() {
						continue
					}
				} else {
					f.pc-- // RunDefers again
				}
			}
			x.push(o.st)
		}
	}
	return cont
}

func (e *Engine) isSpecFn(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	pos := fn.Pos()
	if !pos.IsValid() {
		return false
	}
	return strings.Contains(e.P.Fset.Position(pos).Filename, "/zz_verif_")
}

func (e *Engine) intrinsicName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if fn.Parent() != nil || !fn.Pos().IsValid() {
		return ""
	}
	if strings.HasSuffix(e.P.Fset.Position(fn.Pos()).Filename, "/zz_verif_prelude.go") {
		if r := fn.Signature.Recv(); r != nil {
			t := tname(r.Type())
			return t[strings.LastIndexByte(t, '.')+1:] + "." + fn.Name()
		}
		return fn.Name()
	}
	return ""
}

func modelName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return fn.RelString(nil)
}

// invoke performs a call. It returns false when the current path has been
// taken over or ended.
func (e *Engine) invoke(x *explorer, st *State, call *ssa.Call, cc *ssa.CallCommon, fv Val, args []Val, _ func()) bool {
	c := e.C
	pos := cc.Pos()
	if b, ok := cc.Value.(*ssa.Builtin); ok && !cc.IsInvoke() {
		return e.finish(x, st, call, e.builtin(x, st, b.Name(), cc, args))
	}
	if cc.IsInvoke() {
		return e.invokeMethod(x, st, call, cc, args)
	}
	var fn *ssa.Function
	var binds []Val
	if fv != nil {
		id := fv[0]
		if !id.IsConst() {
			// known closures selected by conditions
			if id.Op == smt.OpIte {
				n := st.clone()
				n.x = x
				n.assume(c.Not(id.Args[0]))
				if !n.dead && n.feasible() {
					if e.invoke(x, n, call, cc, Val{id.Args[2]}, args, nil) {
						x.push(n)
					}
				}
				st.assume(id.Args[0])
				if st.dead || !st.feasible() {
					return false
				}
				return e.invoke(x, st, call, cc, Val{id.Args[1]}, args, nil)
			}
			fr := st.frames[len(st.frames)-1]
			st.need(x, c.Ne(id, c.BV(0, wFn)), "call of nil function", pos, fr.fn)
			if st.dead {
				return false
			}
			return e.finish(x, st, call, e.unknownFunc(x, st, cc, args, id))
		}
		if id.Val == 0 {
			st.need(x, c.False, "call of nil function", pos, st.top().fn)
			return false
		}
		cl := e.clos[id.Val]
		if cl.Native != nil {
			r := cl.Native(st, args, cc)
			return e.finish(x, st, call, one(st, r))
		}
		fn, binds = cl.Fn, cl.Binds
	} else {
		fn = cc.StaticCallee()
		if fn == nil {
			e.fail("call without target in %s", st.top().fn)
		}
	}
	return e.callFn(x, st, call, cc, fn, binds, args)
}

func (e *Engine) callFn(x *explorer, st *State, call *ssa.Call, cc *ssa.CallCommon, fn *ssa.Function, binds []Val, args []Val) bool {
	pos := cc.Pos()
	if nm := e.intrinsicName(fn); nm != "" {
		if h, ok := intrinsics[nm]; ok {
			return e.finish(x, st, call, h(e, x, st, cc, fn, args))
		}
		if h, ok := pureIntr[nm]; ok && call != nil {
			p := &pure{e: e, eqs: st.eqs, mem: st.mem, old: st.old, acq: st.acq, fuel: 1}
			v := h(p, &penv{fn: fn, cells: map[cellKey]*T{}}, call, fn, args)
			st.assumeAll(p.facts)
			return e.finish(x, st, call, one(st, v))
		}
	}
	if h, ok := models[modelName(fn)]; ok {
		e.Models[modelName(fn)] = true
		return e.finish(x, st, call, h(e, x, st, cc, fn, args))
	}
	if e.isSpecFn(fn) && fn.Parent() == nil && fn.Signature.Results().Len() > 0 && !strings.HasPrefix(fn.Name(), "x") && fn.Signature.Recv() == nil {
		// specification function: evaluated as a term
		p := &pure{e: e, eqs: st.eqs, mem: st.mem, old: st.old, acq: st.acq, fuel: 1}
		v := p.call(fn, nil, args)
		st.assumeAll(p.facts)
		return e.finish(x, st, call, one(st, v))
	}
	if con := e.P.Contracts[funcKey(fn)]; con != nil && !con.Inline && !e.NoContract[con.Key] && len(st.frames) > 0 && !(st.spec) {
		return e.applyContract(x, st, call, con, fn.Signature, args, pos)
	}
	if len(fn.Blocks) > 0 {
		if !e.isSpecFn(fn) {
			e.Inlined[funcKey(fn)] = true
		}
		st.pushFrame(fn, args, binds, asInstr(call))
		return true
	}
	return e.finish(x, st, call, e.unknownCall(x, st, fn, cc, args))
}

func asInstr(c *ssa.Call) ssa.CallInstruction {
	if c == nil {
		return nil
	}
	return c
}

func (e *Engine) invokeMethod(x *explorer, st *State, call *ssa.Call, cc *ssa.CallCommon, args []Val) bool {
	c := e.C
	recv := args[0]
	pos := cc.Pos()
	st.need(x, c.Ne(recv[0], c.BV(0, wTag)), "method call on nil interface", pos, st.top().fn)
	if st.dead {
		return false
	}
	tag := recv[0]
	if tag.IsConst() && tag.Val > 0 && e.tagTypes[tag.Val] != errStringType {
		dt := e.tagTypes[tag.Val]
		sel := e.P.Prog.MethodSets.MethodSet(dt).Lookup(cc.Method.Pkg(), cc.Method.Name())
		if sel != nil {
			if fn := e.P.Prog.MethodValue(sel); fn != nil {
				a := append([]Val{e.unbox(st.mem, dt, recv)}, args[1:]...)
				return e.callFn(x, st, call, cc, fn, nil, a)
			}
		}
	}
	it := cc.Value.Type()
	key := short(tname(it)) + "." + cc.Method.Name()
	if con := e.P.Contracts["iface:"+key]; con != nil {
		if con.Opts["module"] != "" {
			e.Models["values of "+short(tname(it))+" are of one of the types defined in this module"] = true
		} else {
			e.Models["assumed contract of user-supplied "+key] = true
		}
		return e.applyContract(x, st, call, con, cc.Signature(), args, pos)
	}
	if h, ok := ifaceModels[cc.Method.Name()]; ok {
		e.Models["interface method "+cc.Method.Name()] = true
		return e.finish(x, st, call, h(e, x, st, cc, nil, args))
	}
	// fork over the implementations of the module
	impl := e.implementors(it)
	if len(impl) == 0 || len(impl) > 24 {
		return e.finish(x, st, call, e.unknownCall(x, st, nil, cc, args))
	}
	e.Models["values of "+short(tname(it))+" are of one of the types defined in this module"] = true
	var none []*T
	cont := false
	_ = cont
	for _, dt := range impl {
		cond := c.Eq(tag, e.tag(dt))
		none = append(none, c.Not(cond))
		if !st.feasible(cond) {
			continue
		}
		n := st.clone()
		n.x = x
		n.assume(cond)
		a := append([]Val{}, args...)
		a[0] = Val{e.tag(dt), recv[1], recv[2], recv[3]}
		if e.invokeMethod(x, n, call, cc, a) {
			x.push(n)
		}
	}
	return false
}

func (e *Engine) implementors(it types.Type) []types.Type {
	return e.P.implementors(it)
}

func (pr *Program) implementors(it types.Type) []types.Type {
	var out []types.Type
	iface := it.Underlying().(*types.Interface)
	for _, p := range pr.Pkgs {
		sc := p.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() || types.IsInterface(tn.Type()) {
				continue
			}
			if nt, ok := tn.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
				continue
			}
			if strings.Contains(pr.Fset.Position(tn.Pos()).Filename, "/zz_verif_") {
				continue
			}
			if types.Implements(tn.Type(), iface) {
				out = append(out, tn.Type())
			} else if pt := types.NewPointer(tn.Type()); types.Implements(pt, iface) {
				out = append(out, pt)
			}
		}
	}
	return out
}

// concretes lists the contracts that the methods of the module have to meet
// because con is what callers of the interface method rely on.
func (pr *Program) concretes(con *Contract) []*Contract {
	if con.Opts["module"] == "" || len(con.Ensures) == 0 {
		return nil
	}
	it := con.Ensures[0].Fn.Params[0].Type()
	m := con.Key[strings.LastIndexByte(con.Key, '.')+1:]
	var out []*Contract
	for _, dt := range pr.implementors(it) {
		if _, ok := dt.Underlying().(*types.Pointer); !ok {
			continue
		}
		sel := pr.Prog.MethodSets.MethodSet(dt).Lookup(dt.(*types.Pointer).Elem().(*types.Named).Obj().Pkg(), m)
		if sel == nil {
			continue
		}
		n := *con
		n.Abstract = false
		n.Of = con
		n.Recv = dt
		n.Fn = pr.Prog.MethodValue(sel)
		n.Key = strings.TrimPrefix(con.Key, "iface:") + " of " + short(tname(dt))
		out = append(out, &n)
	}
	return out
}

func (pr *Program) Concretes(con *Contract) []Target {
	var out []Target
	for _, m := range pr.concretes(con) {
		out = append(out, Target{Name: m.Key, Con: m})
	}
	return out
}

// pointerImpls lists the pointer types of the module that implement it.
func (e *Engine) pointerImpls(it types.Type) []types.Type {
	n, ok := types.Unalias(it).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return nil
	}
	var out []types.Type
	for _, dt := range e.P.implementors(it) {
		if _, ok := dt.Underlying().(*types.Pointer); ok {
			out = append(out, dt)
		}
	}
	return out
}

// unknownFunc: a call through an unknown function value.
func (e *Engine) unknownFunc(x *explorer, st *State, cc *ssa.CallCommon, args []Val, id *T) []outcome {
	key := "funcvalue:" + types.TypeString(cc.Value.Type(), func(p *types.Package) string { return p.Name() })
	if h, ok := funcModels[tname(cc.Value.Type())]; ok {
		e.Models["function value of type "+tname(cc.Value.Type())] = true
		return h(e, x, st, cc, nil, append([]Val{{id}}, args...))
	}
	e.Models["assumed frame of unknown "+key] = true
	return e.havocCall(x, st, cc.Signature(), args, true)
}

func (e *Engine) unknownCall(x *explorer, st *State, fn *ssa.Function, cc *ssa.CallCommon, args []Val) []outcome {
	name := "interface method " + cc.String()
	if fn != nil {
		name = fn.RelString(nil)
	} else if cc.IsInvoke() {
		name = "interface method " + short(tname(cc.Value.Type())) + "." + cc.Method.Name()
	}
	e.Models["unspecified external "+name+" (assumed not to panic; may change what its arguments reach directly)"] = true
	return e.havocCall(x, st, cc.Signature(), args, false)
}

// havocCall forgets everything directly reachable from pointer arguments and
// returns an arbitrary result.
func (e *Engine) havocCall(x *explorer, st *State, sig *types.Signature, args []Val, mayPanic bool) []outcome {
	c := e.C
	off := 0
	if sig.Recv() != nil || len(args) > sig.Params().Len() {
		off = len(args) - sig.Params().Len()
	}
	for k, a := range args {
		if k < off {
			continue
		}
		t := sig.Params().At(k - off).Type()
		switch u := t.Underlying().(type) {
		case *types.Slice:
			if !(a[0].IsConst() && a[0].Val == 0) {
				st.havocRef(u.Elem(), a[0], a[1], a[2], "x")
			}
		case *types.Pointer:
			if !(a[1].IsConst() && a[1].Val == 0) {
				st.havocPtr(u.Elem(), a)
			}
		}
	}
	v := e.symbolic(sig.Results(), c.FreshName("ret"), false)
	st.assumeAll(e.typeFacts(sig.Results(), v))
	outs := one(st, v)
	if mayPanic && st.panicsAllowed() {
		n := st.clone()
		outs = append(outs, outcome{st: n, panic: "panic in called function"})
	}
	return outs
}

// havocPtr forgets the object p designates.
func (st *State) havocPtr(t types.Type, p Val) {
	e := st.e
	if a, ok := isArr(t); ok {
		for i := int64(0); i < a.Len() && i < 64; i++ {
			st.havocPtr(a.Elem(), e.elemAddr(p, a, e.i64(i)))
		}
		return
	}
	li, ok := e.locOf(p[0])
	if !ok {
		li = locInfo{locType(t), ""}
	}
	for _, l := range layout(t) {
		st.havocKey(memKey{li.root, li.prefix + l.Path}, l, p[1], p[2], e.C.BV(1, 64), "p")
	}
}

// region is a part of memory named by a modifies clause.
type region struct {
	keys []memKey
	ls   []Leaf
	ref  *T
	idx  *T
	n    *T
	cond *T
	typ  types.Type
}

// modRegions evaluates the modifies clauses of a contract.
func (e *Engine) modRegions(cls []Clause, mem Mem, args []Val) []region {
	var out []region
	for _, cl := range cls {
		p := &pure{e: e, mem: mem, mods: &out, modc: e.C.True}
		p.call(cl.Fn, nil, args[:len(cl.Fn.Params)])
	}
	return out
}

func (st *State) havocRegion(r region) {
	e := st.e
	c := e.C
	if r.cond != nil && r.cond.IsFalse() {
		return
	}
	n := r.n
	if r.cond != nil && !r.cond.IsTrue() {
		if n == nil {
			n = c.BV(1<<lenW, 64)
		}
		n = c.Ite(r.cond, n, c.BV(0, 64))
	}
	for i, k := range r.keys {
		st.havocKey(k, r.ls[i], r.ref, r.idx, n, "m")
	}
}

// adopt assumes what f yields; the object identities that it equates are used
// in evaluating the rest of it.
func (st *State) adopt(f func() (*T, []*T)) {
	for {
		t, fs := f()
		n := len(st.eqs)
		ts := []*T{t}
		if t.Op == smt.OpAnd {
			ts = t.Args
		}
		for _, a := range ts {
			if a.Op == smt.OpEq && a.Args[0].W == wRef && !a.Bnd {
				st.assume(a)
			}
		}
		if len(st.eqs) == n || st.dead {
			st.assumeAll(fs)
			st.assume(t)
			return
		}
	}
}

// evalClause evaluates a boolean clause.
func (e *Engine) evalClause(eqs map[*T]*T, cl Clause, mem, old Mem, acq map[string]Mem, args []Val) (*T, []*T) {
	p := &pure{e: e, eqs: eqs, mem: mem, old: old, acq: acq, fuel: 1}
	if len(args) < len(cl.Fn.Params) {
		e.fail("clause %s has too many parameters", cl.Name)
	}
	v := p.call(cl.Fn, nil, args[:len(cl.Fn.Params)])
	return v[0], p.facts
}

func (e *Engine) applyContract(x *explorer, st *State, call *ssa.Call, con *Contract, sig *types.Signature, args []Val, pos token.Pos) bool {
	c := e.C
	e.Used[con.Key] = true
	fr := st.top()
	for _, r := range con.Requires {
		t, fs := e.evalClause(st.eqs, r, st.mem, st.mem, st.acq, args)
		st.assumeAll(fs)
		st.check(t, "precondition "+r.Name+" of "+con.Key+" in "+funcKey(fr.fn)+lineOf(e, pos), e.posStr(pos), "")
		if st.dead {
			return false
		}
	}
	if len(st.rel) > 0 || len(st.relSym) > 0 {
		for i, a := range args {
			if con.Fn == nil || i >= len(con.Fn.Params) {
				break
			}
			switch con.Fn.Params[i].Type().Underlying().(type) {
			case *types.Pointer:
				st.usable(a[1], funcKey(fr.fn), e.posStr(pos))
			case *types.Slice:
				st.usable(a[0], funcKey(fr.fn), e.posStr(pos))
			}
		}
	}
	pre := st.mem.clone()
	acq := st.acq
	if con.usesAcq() {
		// the callee's acquisition saw some state of what it changes
		n := st.clone()
		for _, r := range e.modRegions(con.Modifies, pre, args) {
			n.havocRegion(r)
		}
		acq = map[string]Mem{"cur": n.mem}
	}
	for _, r := range e.modRegions(con.Modifies, pre, args) {
		st.acqClean = false
		st.havocRegion(r)
		for _, k := range r.keys {
			if k.root == "§released" && !r.cond.IsFalse() {
				if r.ref.IsConst() {
					st.rel[r.ref.Val] = "a pool"
				} else {
					st.relSym = append(st.relSym, r.ref)
				}
			}
		}
	}
	if con.MayPanic {
		if st.panicsAllowed() {
			n := st.clone()
			n.x = x
			for _, en := range con.Panics {
				n.adopt(func() (*T, []*T) { return e.evalClause(n.eqs, en, n.mem, pre, acq, args) })
			}
			if !n.dead && n.doPanic(e.ifaceStr("panic in "+con.Key), "panic in "+con.Key) {
				x.push(n)
			}
		} else if !st.spec {
			st.check(c.False, "no panic: "+con.Key+" may panic, called from "+funcKey(fr.fn)+lineOf(e, pos), e.posStr(pos), "")
		}
	}
	var res Val
	if con.Det {
		res = e.detResult(st.eqs, st.mem, con, sig, args)
	}
	if res == nil {
		res = e.symbolic(sig.Results(), c.FreshName("r."+con.Key[strings.LastIndexByte(con.Key, '.')+1:]), false)
	}
	if con.Fresh {
		off := 0
		e.walkPtrs(sig.Results(), func(et types.Type, at int, kind byte) {
			if impl := ifaceImpls(e, et, kind); impl != nil {
				r := e.freshRef()
				res[at+2], res[at+3] = r, c.BV(0, 64)
				ok := c.Eq(res[at], c.BV(0, wTag))
				for _, dt := range impl {
					st.freshHavoc(dt.(*types.Pointer).Elem(), r)
					ok = c.Or(ok, c.Eq(res[at], e.tag(dt)))
				}
				st.assume(ok)
			}
			if kind == 'p' || kind == 's' {
				r := e.freshRef()
				if kind == 'p' {
					res[at+1], res[at+2] = r, c.BV(0, 64)
					st.freshHavoc(et, r)
				} else {
					st.freshHavoc(et, r)
					res[at] = r
				}
			}
		}, &off)
	}
	st.assumeAll(e.typeFacts(sig.Results(), res))
	all := append([]Val{}, args...)
	for i := 0; i < sig.Results().Len(); i++ {
		o, n := tupleOffset(sig.Results(), i)
		all = append(all, res[o:o+n])
	}
	outs := []outcome{{st: st, v: res}}
	for _, g := range con.Grows {
		// kept, or replaced by a new object
		p := &pure{e: e, mem: pre, old: pre, acq: st.acq}
		ptr := p.call(g.Fn, nil, args[:len(g.Fn.Params)])
		t := g.Fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
		old := e.loadMem(pre, t, ptr)
		for _, o := range outs {
			n := o.st.clone()
			n.x = x
			o.st.assumeAll(p.facts)
			n.assumeAll(p.facts)
			if g.Opts["append"] != "" {
				old = Val{old[0], old[1], e.symbolic(t, c.FreshName("g"), false)[2], old[3]}
				n.assumeAll(e.typeFacts(t, old))
			}
			n.store(t, ptr, old)
			v := e.symbolic(t, c.FreshName("g"), false)
			v[0] = e.freshRef()
			o.st.freshHavoc(t.Underlying().(*types.Slice).Elem(), v[0])
			o.st.assumeAll(e.typeFacts(t, v))
			o.st.store(t, ptr, v)
			outs = append(outs, outcome{st: n, v: res})
		}
	}
	any := false
	for i, o := range outs {
		for _, en := range con.Ensures {
			if e.Hide[en.Name] {
				continue
			}
			o.st.adopt(func() (*T, []*T) { return e.evalClause(o.st.eqs, en, o.st.mem, pre, acq, all) })
		}
		if len(outs) > 1 && !o.st.dead && !o.st.feasible() {
			outs[i].st.dead = true
		}
		if cuts := e.P.Cuts[e.cutKey][con.Key]; len(cuts) > 0 && !o.st.dead {
			for _, cl := range cuts {
				t, fs := e.evalClause(o.st.eqs, cl, o.st.mem, st.old, o.st.acq, append(append([]Val{}, e.cutArgs...), all...))
				o.st.assumeAll(fs)
				o.st.check(t, "intermediate assertion "+cl.Name+" of "+e.Target, e.posStr(pos), "")
				o.st.assume(t)
			}
		}
		any = any || !o.st.dead
	}
	if !any {
		return false
	}
	return e.finish(x, st, call, outs)
}

func ifaceImpls(e *Engine, t types.Type, kind byte) []types.Type {
	if kind != 'i' {
		return nil
	}
	return e.pointerImpls(t)
}

// detResult is the result of a deterministic function, which depends on its
// arguments and the bytes they refer to only.
func (e *Engine) detResult(eqs map[*T]*T, mem Mem, con *Contract, sig *types.Signature, args []Val) Val {
	name := "det:" + con.Key
	var flat []*T
	for i, a := range args {
		flat = append(flat, a...)
		t := con.Fn.Params[i].Type()
		switch u := t.Underlying().(type) {
		case *types.Slice:
			if b, ok := u.Elem().Underlying().(*types.Basic); !ok || b.Kind() != types.Uint8 {
				return nil
			}
			k := memKey{locType(u.Elem()), ""}
			name += fmt.Sprintf("@%d", e.canon(e.memNode(mem, k, layout(u.Elem())[0]), resolve(eqs, a[0])).id)
		case *types.Basic:
		default:
			return nil
		}
	}
	for _, d := range e.det[name] {
		same := true
		for i := range flat {
			same = same && d.args[i] == flat[i]
		}
		if same {
			return d.res
		}
	}
	c := e.C
	res := e.symbolic(sig.Results(), c.FreshName("r."+con.Key[strings.LastIndexByte(con.Key, '.')+1:]), false)
	// equal arguments give equal results
	for _, d := range e.det[name] {
		eqA, eqR := c.True, c.True
		for i := range flat {
			eqA = c.And(eqA, c.Eq(d.args[i], flat[i]))
		}
		for i := range res {
			eqR = c.And(eqR, c.Eq(d.res[i], res[i]))
		}
		if ax := c.Implies(eqA, eqR); !ax.IsTrue() {
			for _, r := range res {
				for r.Op == smt.OpZext {
					r = r.Args[0]
				}
				if !r.IsConst() {
					e.axioms[r] = append(e.axioms[r], ax)
				}
			}
		}
	}
	e.det[name] = append(e.det[name], detRes{flat, res})
	return res
}

// usesAcq: a clause speaks about the state at the acquisition of a lock.
func (con *Contract) usesAcq() bool {
	var scan func(f *ssa.Function) bool
	seen := map[*ssa.Function]bool{}
	scan = func(f *ssa.Function) bool {
		if seen[f] {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if cl, ok := in.(*ssa.Call); ok {
					if g := cl.Call.StaticCallee(); g != nil && (g.Name() == "vAcq" || g.Origin() != nil && g.Origin().Name() == "vAcq" || scan(g)) {
						return true
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			if scan(a) {
				return true
			}
		}
		return false
	}
	for _, cl := range con.Ensures {
		if cl.Fn != nil && scan(cl.Fn) {
			return true
		}
	}
	return false
}

type detRes struct {
	args []*T
	res  Val
}

// detCall is the result of a deterministic function in a specification; its
// contract holds where its arguments are proper values.
func (p *pure) detCall(con *Contract, fn *ssa.Function, args []Val) Val {
	e := p.e
	c := e.C
	res := e.detResult(p.eqs, p.mem, con, fn.Signature, args)
	if res == nil || len(con.Modifies)+len(con.Grows) > 0 || con.MayPanic {
		e.fail("specification calls %s, which is no function of its arguments", fn)
	}
	e.Used[con.Key] = true
	ok := c.True
	all := append([]Val{}, args...)
	for i, a := range args {
		if _, sl := fn.Params[i].Type().Underlying().(*types.Slice); sl {
			ok = c.And(ok, c.Ule(a[2], a[3]))
		}
		for _, f := range e.typeFacts(fn.Params[i].Type(), a) {
			ok = c.And(ok, f)
		}
	}
	holds := c.True
	for _, r := range con.Requires {
		t, fs := e.evalClause(p.eqs, r, p.mem, p.mem, p.acq, args)
		ok = c.And(ok, t)
		for _, f := range fs {
			holds = c.And(holds, f)
		}
	}
	for _, f := range e.typeFacts(fn.Signature.Results(), res) {
		holds = c.And(holds, f)
	}
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		o, n := tupleOffset(fn.Signature.Results(), i)
		all = append(all, res[o:o+n])
	}
	for _, en := range con.Ensures {
		t, fs := e.evalClause(p.eqs, en, p.mem, p.mem, p.acq, all)
		holds = c.And(holds, t)
		for _, f := range fs {
			holds = c.And(holds, f)
		}
	}
	f := c.Implies(ok, holds)
	if f.Bnd {
		e.fail("specification calls %s on a bound variable", fn)
	}
	p.facts = append(p.facts, f)
	return res
}

// freshHavoc gives a new object arbitrary contents.
func (st *State) freshHavoc(t types.Type, r *T) {
	n := len(st.writes)
	st.havocRef(t, r, st.e.C.BV(0, 64), nil, "f")
	st.writes = st.writes[:n]
}

func (e *Engine) builtin(x *explorer, st *State, name string, cc *ssa.CallCommon, args []Val) []outcome {
	c := e.C
	switch name {
	case "len", "cap":
		t := cc.Args[0].Type()
		v := args[0]
		switch u := t.Underlying().(type) {
		case *types.Slice:
			if name == "cap" {
				return one(st, Val{v[3]})
			}
			return one(st, Val{v[2]})
		case *types.Basic:
			return one(st, Val{v[2]})
		case *types.Array:
			return one(st, Val{e.i64(u.Len())})
		case *types.Pointer:
			return one(st, Val{e.i64(u.Elem().Underlying().(*types.Array).Len())})
		}
		n := c.Zext(c.App("maplen", 31, v[0]), 64)
		return one(st, Val{n})
	case "copy":
		d, s := args[0], args[1]
		n := c.Ite(c.Ult(s[2], d[2]), s[2], d[2])
		if r, _ := st.quick(c.Ule(s[2], d[2])); r {
			n = s[2]
		} else if r, _ := st.quick(c.Ule(d[2], s[2])); r {
			n = d[2]
		}
		et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
		if k := st.constOf(n); k != nil {
			n = k
		}
		st.copyElems(et, d[0], d[1], s[0], s[1], n)
		return one(st, Val{n})
	case "append":
		return e.appendOp(x, st, cc, args)
	case "recover":
		f := st.top()
		z := e.zero(types.NewInterfaceType(nil, nil))
		if st.panicV != nil && f.inDefer && len(st.frames) >= 2 && st.frames[len(st.frames)-2].panicAt {
			v := st.panicV
			st.panicV = nil
			if !v[0].IsConst() {
				st.assume(c.Ne(v[0], c.BV(0, wTag)))
			}
			return one(st, v)
		}
		return one(st, z)
	case "print", "println", "close", "delete", "clear":
		return one(st, nil)
	case "ssa:wrapnilchk":
		st.need(x, c.Ne(args[0][1], c.BV(0, wRef)), "nil dereference", cc.Pos(), st.top().fn)
		return one(st, args[0])
	case "min", "max":
		r := args[0][0]
		s := isSigned(cc.Args[0].Type())
		for _, a := range args[1:] {
			var lt *T
			if s {
				lt = c.Slt(a[0], r)
			} else {
				lt = c.Ult(a[0], r)
			}
			if name == "max" {
				if s {
					lt = c.Slt(r, a[0])
				} else {
					lt = c.Ult(r, a[0])
				}
			}
			r = c.Ite(lt, a[0], r)
		}
		return one(st, Val{r})
	case "String", "SliceData", "StringData", "Slice":
		// unsafe.String(ptr, len) and friends
		if name == "String" {
			return one(st, Val{args[0][1], args[0][2], e.toI64(args[1][0], cc.Args[1].Type())})
		}
		if name == "SliceData" || name == "StringData" {
			return one(st, Val{e.canonLoc(types.Typ[types.Uint8]), args[0][0], args[0][1]})
		}
	}
	e.fail("builtin %s", name)
	return nil
}

// quick decides cheaply whether cond is known.
func (st *State) quick(cond *T) (bool, string) {
	if cond.IsTrue() || st.known[cond] {
		return true, ""
	}
	if cond.IsFalse() {
		return false, ""
	}
	as := append(append([]*T{}, st.pc...), st.e.C.Not(cond))
	r, b := st.e.sat(as, 1500, false, nil)
	return r == smt.Unsat, b
}

// constOf finds an equality of t with a constant in the path condition.
func (st *State) constOf(t *T) *T {
	if t.IsConst() {
		return t
	}
	for _, p := range st.pc {
		if p.Op == smt.OpEq {
			if p.Args[0] == t && p.Args[1].IsConst() {
				return p.Args[1]
			}
			if p.Args[1] == t && p.Args[0].IsConst() {
				return p.Args[0]
			}
		}
	}
	return nil
}

func (e *Engine) appendOp(x *explorer, st *State, cc *ssa.CallCommon, args []Val) []outcome {
	return e.appendCore(st, cc.Args[0].Type().Underlying().(*types.Slice).Elem(), args[0], args[1])
}

func (e *Engine) appendCore(st *State, et types.Type, s, a Val) []outcome {
	c := e.C
	n := a[2]
	if k := st.constOf(n); k != nil {
		n = k
	}
	if n.IsConst() && n.Val == 0 {
		return one(st, s)
	}
	nl := c.Add(s[2], n)
	fits := c.Ule(nl, s[3])
	var outs []outcome
	doIn := func(t *State) {
		t.copyElems(et, s[0], c.Add(s[1], s[2]), a[0], a[1], n)
		outs = append(outs, outcome{st: t, v: Val{s[0], s[1], nl, s[3]}})
	}
	doOut := func(t *State) {
		r := e.freshRef()
		z := c.BV(0, 64)
		w := len(t.writes)
		t.zeroObj(et, r)
		t.copyElems(et, r, z, s[0], s[1], s[2])
		t.copyElems(et, r, s[2], a[0], a[1], n)
		t.writes = t.writes[:w]
		cp := c.Zext(c.FreshVar("cap", lenW), 64)
		t.assume(c.And(c.Ule(nl, cp), c.Ult(cp, c.BV(1<<lenW, 64))))
		outs = append(outs, outcome{st: t, v: Val{r, z, nl, cp}})
	}
	okIn := st.feasible(fits)
	okOut := st.feasible(c.Not(fits))
	switch {
	case okIn && okOut:
		n2 := st.clone()
		n2.assume(c.Not(fits))
		doOut(n2)
		st.assume(fits)
		doIn(st)
	case okIn:
		st.assume(fits)
		doIn(st)
	default:
		st.assume(c.Not(fits))
		doOut(st)
	}
	return outs
}

func fmtInt(v int64) string { return fmt.Sprintf("%d", v) }
