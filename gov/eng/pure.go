package eng

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"gov/smt"
)

// pure evaluates side-effect free code to a term: branches are merged, loops
// must have constant bounds, memory outside the evaluation is only read.
type pure struct {
	e     *Engine
	mem   Mem
	old   Mem
	acq   map[string]Mem
	facts []*T
	mods  *[]region
	modc  *T
	depth int
	fuel  int
	eqs   map[*T]*T
}

type cellKey struct {
	k   memKey
	ref uint64
	idx uint64
}

type penv struct {
	fn    *ssa.Function
	vals  map[ssa.Value]Val
	cells map[cellKey]*T
	binds []Val
	n     map[*ssa.BasicBlock]int
}

func (v *penv) clone() *penv {
	r := &penv{fn: v.fn, vals: make(map[ssa.Value]Val, len(v.vals)), cells: v.cells, binds: v.binds, n: make(map[*ssa.BasicBlock]int, len(v.n))}
	for k, x := range v.vals {
		r.vals[k] = x
	}
	for k, x := range v.n {
		r.n[k] = x
	}
	r.cells = make(map[cellKey]*T, len(v.cells))
	for k, x := range v.cells {
		r.cells[k] = x
	}
	return r
}

func (p *pure) call(fn *ssa.Function, binds []Val, args []Val) Val {
	return p.callC(fn, binds, args, nil)
}

func (p *pure) callC(fn *ssa.Function, binds []Val, args []Val, cells map[cellKey]*T) Val {
	e := p.e
	if p.e.P.Rec[fn] {
		return p.recCall(fn, args)
	}
	if con := e.P.Contracts[funcKey(fn)]; con != nil && con.Det {
		return p.detCall(con, fn, args)
	}
	if len(fn.Blocks) == 0 {
		e.fail("specification calls %s which has no body", fn)
	}
	if e.P.Opaque[fn] && !e.Reveal[fn.Name()] {
		for _, a := range args {
			if len(a) != 1 {
				f := p.fuel
				p.fuel = 0
				v := p.recCall(fn, args)
				p.fuel = f
				return v
			}
		}
		if v, ok := p.opaqueCall(fn, args); ok {
			return v
		}
	}
	p.depth++
	if p.depth > 80 {
		e.fail("specification recursion too deep in %s", fn)
	}
	defer func() { p.depth-- }()
	env := &penv{fn: fn, vals: map[ssa.Value]Val{}, cells: map[cellKey]*T{}, binds: binds, n: map[*ssa.BasicBlock]int{}}
	if cells != nil {
		env.cells = cells
	}
	for i, q := range fn.Params {
		env.vals[q] = args[i]
	}
	return p.block(env, fn.Blocks[0], nil)
}

// opaqueCall represents a specification function of scalars by an
// uninterpreted function; its proved facts are attached.
func (p *pure) opaqueCall(fn *ssa.Function, args []Val) (Val, bool) {
	e := p.e
	var flat []*T
	konst := true
	for _, a := range args {
		if len(a) != 1 {
			e.fail("opaque function %s takes scalars only", fn.Name())
		}
		flat = append(flat, a[0])
		if !a[0].IsConst() {
			konst = false
		}
	}
	if konst {
		return nil, false
	}
	rl := layout(fn.Signature.Results())
	if len(rl) != 1 {
		e.fail("opaque function %s has several results", fn.Name())
	}
	v := Val{e.C.App("op:"+fn.Name(), rl[0].W, flat...)}
	if f := e.P.Facts[fn]; f != nil && e.axioms[v[0]] == nil && v[0].Op == smt.OpApp {
		e.axioms[v[0]] = []*T{e.C.True}
		e.Used["fact "+f.Name] = true
		t := p.callC(f.Fn, nil, append(append([]Val{}, args...), v), nil)
		e.axioms[v[0]] = []*T{t[0]}
		if e.axGen[v[0].Name] == nil {
			e.axGen[v[0].Name] = func(args []*T) {
				var vs []Val
				konst := true
				for _, a := range args {
					vs = append(vs, Val{a})
					konst = konst && a.IsConst()
				}
				if !konst {
					p.opaqueCall(fn, vs)
				} else if app := e.C.App("op:"+fn.Name(), rl[0].W, args...); e.axioms[app] == nil {
					e.axioms[app] = []*T{e.C.True}
					e.axioms[app] = []*T{e.C.Eq(app, p.callC(fn, nil, vs, nil)[0])}
				}
			}
		}
	}
	return v, true
}

// recCall represents a recursive specification function by an uninterpreted
// function of its arguments and of the bytes they designate.
func (p *pure) recCall(fn *ssa.Function, args []Val) Val {
	e := p.e
	c := e.C
	name := "rec:" + fn.Name()
	var flat []*T
	sig := fn.Signature
	for i, a := range args {
		flat = append(flat, a...)
		t := sig.Params().At(i).Type()
		if isSliceOf(t) || isString(t) {
			k := memKey{"uint8", ""}
			n := e.canon(e.memNode(p.mem, k, Leaf{"", 8, KInt}), resolve(p.eqs, a[0]))
			name += fmt.Sprintf("@%d", n.id)
		}
	}
	rl := layout(sig.Results())
	out := make(Val, len(rl))
	fresh := false
	for i, l := range rl {
		out[i] = c.App(name+l.Path, l.W, flat...)
	}
	key := out[0]
	if f := e.P.Facts[fn]; f != nil && !e.recFact[key] && !key.Bnd && key.Op == smt.OpApp {
		e.recFact[key] = true
		e.Used["fact "+f.Name] = true
		ok := c.True
		for i, a := range args {
			if isSliceOf(sig.Params().At(i).Type()) {
				ok = c.And(ok, c.Ule(a[2], a[3]))
			}
			for _, g := range e.typeFacts(sig.Params().At(i).Type(), a) {
				ok = c.And(ok, g)
			}
		}
		q := &pure{e: e, eqs: p.eqs, mem: p.mem, old: p.old, depth: p.depth}
		t := q.callC(f.Fn, nil, append(append([]Val{}, args...), out), nil)
		ax := t[0]
		for _, g := range q.facts {
			ax = c.And(ax, g)
		}
		e.axioms[key] = append(e.axioms[key], c.Implies(ok, ax))
	}
	if _, ok := e.fuel[key]; !ok || e.fuel[key] < p.fuel {
		fresh = true
	}
	if fresh && !key.Bnd {
		e.fuel[key] = p.fuel
		if p.fuel > 0 {
			q := &pure{e: e, eqs: p.eqs, mem: p.mem, old: p.old, fuel: p.fuel - 1, depth: p.depth}
			env := &penv{fn: fn, vals: map[ssa.Value]Val{}, cells: map[cellKey]*T{}, n: map[*ssa.BasicBlock]int{}}
			for i, pr := range fn.Params {
				env.vals[pr] = args[i]
			}
			v := q.block(env, fn.Blocks[0], nil)
			ax := c.True
			for i := range v {
				ax = c.And(ax, c.Eq(out[i], v[i]))
			}
			for _, f := range q.facts {
				ax = c.And(ax, f)
			}
			for i := range out {
				e.axioms[out[i]] = append(e.axioms[out[i]], ax)
			}
			if e.axGen[key.Name] == nil {
				mem, old, fuel, depth, eqs := p.mem, p.old, p.fuel, p.depth, p.eqs
				var sizes []int
				for _, a := range args {
					sizes = append(sizes, len(a))
				}
				e.axGen[key.Name] = func(flat []*T) {
					var vs []Val
					for _, n := range sizes {
						vs = append(vs, Val(flat[:n]))
						flat = flat[n:]
					}
					(&pure{e: e, eqs: eqs, mem: mem, old: old, fuel: fuel, depth: depth}).recCall(fn, vs)
				}
			}
		}
	}
	return out
}

func (p *pure) block(env *penv, b, prev *ssa.BasicBlock) Val {
	e := p.e
	c := e.C
	for {
		env.n[b]++
		if env.n[b] > 80 {
			e.fail("unbounded loop in specification %s", env.fn)
		}
		for pi := 0; pi < len(b.Instrs); pi++ {
			switch i := b.Instrs[pi].(type) {
			case *ssa.Phi:
				k := -1
				for j, q := range b.Preds {
					if q == prev {
						k = j
					}
				}
				var ps []*ssa.Phi
				var vs []Val
				for ; pi < len(b.Instrs); pi++ {
					q, ok := b.Instrs[pi].(*ssa.Phi)
					if !ok {
						break
					}
					ps = append(ps, q)
					vs = append(vs, p.val(env, q.Edges[k]))
				}
				pi--
				for j := range ps {
					env.vals[ps[j]] = vs[j]
				}
			case *ssa.Return:
				var r Val
				for _, x := range i.Results {
					r = append(r, p.val(env, x)...)
				}
				return r
			case *ssa.Jump:
				prev, b = b, b.Succs[0]
				goto next
			case *ssa.If:
				cond := p.val(env, i.Cond)[0]
				if cond.IsTrue() {
					prev, b = b, b.Succs[0]
					goto next
				}
				if cond.IsFalse() {
					prev, b = b, b.Succs[1]
					goto next
				}
				mc := p.modc
				if mc != nil {
					p.modc = c.And(mc, cond)
				}
				t := p.block(env.clone(), b.Succs[0], b)
				if mc != nil {
					p.modc = c.And(mc, c.Not(cond))
				}
				f := p.block(env, b.Succs[1], b)
				p.modc = mc
				if t == nil {
					return f
				}
				if f == nil {
					return t
				}
				r := make(Val, len(t))
				for k := range t {
					r[k] = c.Ite(cond, t[k], f[k])
				}
				return r
			case *ssa.Panic:
				return nil
			default:
				p.instr(env, b.Instrs[pi])
			}
		}
		return nil
	next:
	}
}

func (p *pure) val(env *penv, v ssa.Value) Val {
	return p.e.value(env.vals, env.binds, env.fn, v)
}

func (p *pure) load(env *penv, t types.Type, ptr Val) Val {
	e := p.e
	if ptr[1].IsConst() && ptr[1].Val >= specRef0 && ptr[1].Val < ghostRef0 && ptr[2].IsConst() {
		if a, ok := isArr(t); ok && a.Len() <= 64 {
			var out Val
			for i := int64(0); i < a.Len(); i++ {
				out = append(out, p.load(env, a.Elem(), Val{ptr[0], ptr[1], e.C.AddK(ptr[2], uint64(i))})...)
			}
			return out
		}
		li, _ := e.locOf(ptr[0])
		ls := layout(t)
		v := make(Val, len(ls))
		for i, l := range ls {
			x, ok := env.cells[cellKey{memKey{li.root, li.prefix + l.Path}, ptr[1].Val, ptr[2].Val}]
			if !ok {
				x = e.zeroLeaf(l.W)
			}
			v[i] = x
		}
		return v
	}
	v := e.loadMem(p.mem, t, ptr)
	resolveRefs(p.eqs, t, v)
	for _, f := range e.typeFacts(t, v) {
		if !f.Bnd {
			p.facts = append(p.facts, f)
		}
	}
	return v
}

func (p *pure) store(env *penv, t types.Type, ptr, v Val) {
	e := p.e
	if !(ptr[1].IsConst() && ptr[1].Val >= specRef0 && ptr[1].Val < ghostRef0 && ptr[2].IsConst()) {
		e.fail("specification %s writes to memory", env.fn)
	}
	if a, ok := isArr(t); ok && a.Len() <= 64 {
		n := len(v) / int(a.Len())
		for i := int64(0); i < a.Len(); i++ {
			p.store(env, a.Elem(), Val{ptr[0], ptr[1], e.C.AddK(ptr[2], uint64(i))}, v[int(i)*n:int(i+1)*n])
		}
		return
	}
	li, _ := e.locOf(ptr[0])
	for i, l := range layout(t) {
		env.cells[cellKey{memKey{li.root, li.prefix + l.Path}, ptr[1].Val, ptr[2].Val}] = v[i]
	}
}

func (p *pure) instr(env *penv, in ssa.Instruction) {
	e := p.e
	c := e.C
	switch i := in.(type) {
	case *ssa.DebugRef, *ssa.RunDefers:
	case *ssa.Alloc:
		e.nextSpec++
		r := c.BV(e.nextSpec, wRef)
		env.vals[i] = e.ptrTo(i.Type().(*types.Pointer).Elem(), r)
	case *ssa.Store:
		p.store(env, i.Addr.Type().Underlying().(*types.Pointer).Elem(), p.val(env, i.Addr), p.val(env, i.Val))
	case *ssa.UnOp:
		if i.Op == token.MUL {
			env.vals[i] = p.load(env, i.Type(), p.val(env, i.X))
			return
		}
		env.vals[i] = e.unop(i.Op, i.X.Type(), p.val(env, i.X))
	case *ssa.BinOp:
		env.vals[i] = e.binop(p.mem, nil, i.Op, i.X.Type(), i.Y.Type(), p.val(env, i.X), p.val(env, i.Y))
	case *ssa.FieldAddr:
		env.vals[i] = e.fieldAddr(p.val(env, i.X), i.X.Type(), i.Field)
	case *ssa.Field:
		v := p.val(env, i.X)
		o, n := fieldOffset(i.X.Type().Underlying().(*types.Struct), i.Field)
		env.vals[i] = v[o : o+n]
	case *ssa.IndexAddr:
		b := p.val(env, i.X)
		idx := e.toI64(p.val(env, i.Index)[0], i.Index.Type())
		switch u := i.X.Type().Underlying().(type) {
		case *types.Slice:
			env.vals[i] = Val{e.canonLoc(u.Elem()), b[0], c.Add(b[1], idx)}
		case *types.Pointer:
			env.vals[i] = e.elemAddr(b, u.Elem().Underlying().(*types.Array), idx)
		}
	case *ssa.Index:
		b := p.val(env, i.X)
		idx := e.toI64(p.val(env, i.Index)[0], i.Index.Type())
		if at, ok := i.X.Type().Underlying().(*types.Array); ok {
			env.vals[i] = e.arrIndex(b, at, idx)
		} else {
			env.vals[i] = Val{e.readByte(p.mem, b[0], c.Add(b[1], idx))}
		}
	case *ssa.Lookup:
		if !isString(i.X.Type()) {
			e.fail("map lookup in specification")
		}
		b := p.val(env, i.X)
		idx := e.toI64(p.val(env, i.Index)[0], i.Index.Type())
		env.vals[i] = Val{e.readByte(p.mem, b[0], c.Add(b[1], idx))}
	case *ssa.Slice:
		b := p.val(env, i.X)
		get := func(v ssa.Value) *T {
			if v == nil {
				return nil
			}
			return e.toI64(p.val(env, v)[0], v.Type())
		}
		lo, hi := get(i.Low), get(i.High)
		if lo == nil {
			lo = c.BV(0, 64)
		}
		if pt, ok := i.X.Type().Underlying().(*types.Pointer); ok {
			at := pt.Elem().Underlying().(*types.Array)
			b = Val{b[1], b[2], e.i64(at.Len()), e.i64(at.Len())}
		}
		if hi == nil {
			hi = b[2]
		}
		v := Val{b[0], c.Add(b[1], lo), c.Sub(hi, lo)}
		if len(b) > 3 {
			v = append(v, c.Sub(b[3], lo))
		}
		env.vals[i] = v
	case *ssa.Extract:
		t := p.val(env, i.Tuple)
		o, n := tupleOffset(i.Tuple.Type().(*types.Tuple), i.Index)
		env.vals[i] = t[o : o+n]
	case *ssa.MakeClosure:
		var bs []Val
		for _, b := range i.Bindings {
			bs = append(bs, p.val(env, b))
		}
		cl := &Closure{Fn: i.Fn.(*ssa.Function), Binds: bs}
		env.vals[i] = e.closure(cl)
	case *ssa.MakeInterface:
		if pt, ok := i.X.Type().Underlying().(*types.Pointer); ok {
			_ = pt
			v := p.val(env, i.X)
			env.vals[i] = Val{e.tag(i.X.Type()), v[0], v[1], v[2]}
			return
		}
		e.nextSpec++
		ptr := Val{e.canonLoc(i.X.Type()), c.BV(e.nextSpec, wRef), c.BV(0, 64)}
		p.store(env, i.X.Type(), ptr, p.val(env, i.X))
		env.vals[i] = Val{e.tag(i.X.Type()), ptr[0], ptr[1], ptr[2]}
	case *ssa.ChangeInterface:
		env.vals[i] = p.val(env, i.X)
	case *ssa.ChangeType:
		env.vals[i] = e.changeType(i.X.Type(), i.Type(), p.val(env, i.X))
	case *ssa.Convert:
		v := p.val(env, i.X)
		if (isString(i.Type()) && isSliceOf(i.X.Type())) || (isSliceOf(i.Type()) && isString(i.X.Type())) {
			// a view is as good as a copy for reading
			if isString(i.Type()) {
				env.vals[i] = v[:3]
			} else {
				env.vals[i] = Val{v[0], v[1], v[2], v[2]}
			}
			return
		}
		env.vals[i] = e.convert(nil, i.X.Type(), i.Type(), v)
	case *ssa.TypeAssert:
		v := p.val(env, i.X)
		ok := e.hasType(v, i.AssertedType)
		var res Val
		if types.IsInterface(i.AssertedType) {
			res = v
		} else if pt, isP := i.AssertedType.Underlying().(*types.Pointer); isP {
			pp := v[1]
			if !pp.IsConst() {
				pp = e.canonLoc(pt.Elem())
			}
			res = Val{pp, v[2], v[3]}
		} else {
			res = p.load(env, i.AssertedType, Val{e.canonLoc(i.AssertedType), v[2], v[3]})
		}
		if i.CommaOk {
			res = append(append(Val{}, res...), ok)
		}
		env.vals[i] = res
	case *ssa.Call:
		env.vals[i] = p.callInstr(env, i)
	case *ssa.MakeSlice:
		e.nextSpec++
		r := c.BV(e.nextSpec, wRef)
		l := e.toI64(p.val(env, i.Len)[0], i.Len.Type())
		env.vals[i] = Val{r, c.BV(0, 64), l, l}
	default:
		e.fail("specification %s uses %T", env.fn, in)
	}
}

func (p *pure) callInstr(env *penv, i *ssa.Call) Val {
	e := p.e
	c := e.C
	cc := &i.Call
	var args []Val
	for _, a := range cc.Args {
		args = append(args, p.val(env, a))
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok && !cc.IsInvoke() {
		switch b.Name() {
		case "len", "cap":
			v := args[0]
			switch u := cc.Args[0].Type().Underlying().(type) {
			case *types.Slice:
				if b.Name() == "cap" {
					return Val{v[3]}
				}
				return Val{v[2]}
			case *types.Basic:
				return Val{v[2]}
			case *types.Array:
				return Val{e.i64(u.Len())}
			case *types.Pointer:
				return Val{e.i64(u.Elem().Underlying().(*types.Array).Len())}
			}
			return Val{c.Zext(c.App("maplen", 31, v[0]), 64)}
		case "ssa:wrapnilchk":
			return args[0]
		case "min", "max":
			s := &State{e: e}
			o := e.builtin(nil, s, b.Name(), cc, args)
			return o[0].v
		}
		e.fail("builtin %s in specification %s", b.Name(), env.fn)
	}
	if cc.IsInvoke() {
		recv := p.val(env, cc.Value)
		if recv[0].IsConst() && recv[0].Val > 0 {
			dt := e.tagTypes[recv[0].Val]
			sel := e.P.Prog.MethodSets.MethodSet(dt).Lookup(cc.Method.Pkg(), cc.Method.Name())
			if sel != nil {
				fn := e.P.Prog.MethodValue(sel)
				return p.callC(fn, nil, append([]Val{e.unbox(p.mem, dt, recv)}, args...), env.cells)
			}
		}
		if h, ok := pureIface[cc.Method.Name()]; ok {
			return h(p, recv, args)
		}
		e.fail("interface method %s in specification %s", cc.Method.Name(), env.fn)
	}
	fn := cc.StaticCallee()
	var binds []Val
	if fn == nil || isClosureCall(cc) {
		fv := p.val(env, cc.Value)
		cl := e.closOf(fv)
		if cl == nil || cl.Fn == nil {
			e.fail("unknown function value in specification %s", env.fn)
		}
		fn, binds = cl.Fn, cl.Binds
	}
	if nm := e.intrinsicName(fn); nm != "" {
		if h, ok := pureIntr[nm]; ok {
			return h(p, env, i, fn, args)
		}
	}
	if h, ok := pureModels[modelName(fn)]; ok {
		return h(p, args)
	}
	if len(fn.Blocks) == 0 {
		e.fail("specification %s calls %s", env.fn, fn)
	}
	cells := env.cells
	return p.callC(fn, binds, args, cells)
}

func (e *Engine) closOf(v Val) *Closure {
	if len(v) == 1 && v[0].IsConst() && v[0].Val > 0 && v[0].Val < uint64(len(e.clos)) {
		return e.clos[v[0].Val]
	}
	return nil
}

// inMem evaluates closure f of no arguments in memory m.
func (p *pure) inMem(env *penv, m Mem, f Val) Val {
	cl := p.e.closOf(f)
	if cl == nil {
		p.e.fail("intrinsic needs a function literal")
	}
	if m == nil {
		p.e.fail("no earlier state available in specification %s", env.fn)
	}
	save := p.mem
	p.mem = m
	v := p.callC(cl.Fn, cl.Binds, nil, env.cells)
	p.mem = save
	return v
}

type pureFn func(p *pure, env *penv, i *ssa.Call, fn *ssa.Function, args []Val) Val

var pureIntr map[string]pureFn
var pureModels map[string]func(p *pure, args []Val) Val
var pureIface map[string]func(p *pure, recv Val, args []Val) Val

func (p *pure) mod(keys []memKey, ls []Leaf, ref, idx, n *T, t types.Type) {
	if p.mods == nil {
		p.e.fail("modifies intrinsic outside a modifies clause")
	}
	*p.mods = append(*p.mods, region{keys: keys, ls: ls, ref: ref, idx: idx, n: n, cond: p.modc, typ: t})
}

func (p *pure) modPtr(t types.Type, ptr Val) {
	e := p.e
	li, ok := e.locOf(ptr[0])
	if !ok {
		e.fail("modifies clause with unknown pointer")
	}
	var ks []memKey
	ls := layout(t)
	for _, l := range ls {
		ks = append(ks, memKey{li.root, li.prefix + l.Path})
	}
	n := e.C.BV(1, 64)
	if a, ok := isArr(t); ok && li.prefix == "" {
		ks, ls = e.elemKeys(a.Elem())
		n = e.i64(a.Len())
	}
	p.mod(ks, ls, ptr[1], ptr[2], n, t)
}

func initPure() {
	pureIntr = map[string]pureFn{
		"vOld": func(p *pure, env *penv, i *ssa.Call, fn *ssa.Function, args []Val) Val {
			return p.inMem(env, p.old, args[0])
		},
		"vAcq": func(p *pure, env *penv, i *ssa.Call, fn *ssa.Function, args []Val) Val {
			m := p.acq["cur"]
			if m == nil {
				p.e.fail("the state at the acquisition of the lock is not known")
			}
			return p.inMem(env, m, args[0])
		},
		"vForall": func(p *pure, env *penv, i *ssa.Call, fn *ssa.Function, args []Val) Val {
			c := p.e.C
			cl := p.e.closOf(args[2])
			if cl == nil {
				p.e.fail("vForall needs a function literal")
			}
			if args[0][0].IsConst() && args[1][0].IsConst() && int64(args[1][0].Val-args[0][0].Val) <= 64 {
				r := c.True
				for k := int64(args[0][0].Val); k < int64(args[1][0].Val); k++ {
					r = c.And(r, p.callC(cl.Fn, cl.Binds, []Val{{p.e.i64(k)}}, env.cells)[0])
				}
				return Val{r}
			}
			q := c.BoundVar(64)
			body := p.callC(cl.Fn, cl.Binds, []Val{{q}}, env.cells)[0]
			// (q - lo) < (hi - lo) unsigned, with lo <= hi
			lo, hi := args[0][0], args[1][0]
			rng := c.And(c.Sle(lo, q), c.Slt(q, hi))
			if lo.IsConst() && lo.Val == 0 {
				rng = c.And(c.Slt(c.BV(0, 64), hi), c.Ult(q, hi))
			}
			return Val{c.Forall(q, c.Implies(rng, body))}
		},
		"vIf": func(p *pure, env *penv, i *ssa.Call, fn *ssa.Function, args []Val) Val {
			r := make(Val, len(args[1]))
			for k := range r {
				r[k] = p.e.C.Ite(args[0][0], args[1][k], args[2][k])
			}
			return r
		},
		"vIs": func(p *pure, env *penv, i *ssa.Call, fn *ssa.Function, args []Val) Val {
			// s is b[i:j]
			c := p.e.C
			s, b, lo, hi := args[0], args[1], args[2][0], args[3][0]
			n := c.Sub(hi, lo)
			return Val{c.And(c.Eq(s[2], n), c.Or(c.Eq(n, c.BV(0, 64)), c.And(c.Eq(s[0], b[0]), c.Eq(s[1], c.Add(b[1], lo)))))}
		},
		"vOff": func(p *pure, env *penv, i *ssa.Call, fn *ssa.Function, args []Val) Val {
			return Val{p.e.C.Sub(args[0][1], args[1][1])}
		},
		// the same bytes of the same array, including the capacity
		"vSame": func(p *pure, env *penv, i *ssa.Call, fn *ssa.Function, args []Val) Val {
			c := p.e.C
			r := c.True
			for k := range args[0] {
				r = c.And(r, c.Eq(args[0][k], args[1][k]))
			}
			return Val{r}
		},
		"vDisjoint": func(p *pure, env *penv, i *ssa.Call, fn *ssa.Function, args []Val) Val {
			c := p.e.C
			a, b := args[0], args[1]
			return Val{c.Or(c.Ne(a[0], b[0]), c.Ule(c.Add(a[1], a[2]), b[1]), c.Ule(c.Add(b[1], b[2]), a[1]))}
		},
		"vSameArray": func(p *pure, env *penv, i *ssa.Call, fn *ssa.Function, args []Val) Val {
			return Val{p.e.C.Eq(args[0][0], args[1][0])}
		},
		"vMod": func(p *pure, env *penv, i *ssa.Call, fn *ssa.Function, args []Val) Val {
			p.modPtr(i.Call.Args[0].Type().Underlying().(*types.Pointer).Elem(), args[0])
			return nil
		},
		"vAppended": func(p *pure, env *penv, i *ssa.Call, fn *ssa.Function, args []Val) Val {
			c := p.e.C
			a, b := args[0], args[1]
			return Val{c.Or(c.And(c.Eq(a[0], b[0]), c.Eq(a[1], b[1]), c.Eq(a[3], b[3])), c.And(c.Ule(c.BV(freshRef0, wRef), a[0]), c.Ult(a[0], c.BV(globalRef0, wRef))))}
		},
		"vModObj": func(p *pure, env *penv, i *ssa.Call, fn *ssa.Function, args []Val) Val {
			t := i.Call.Args[0].Type()
			if ci, ok := i.Call.Args[0].(*ssa.ChangeInterface); ok {
				t = ci.X.Type()
			}
			v, was := args[0], p.modc
			for _, dt := range p.e.pointerImpls(t) {
				el := dt.(*types.Pointer).Elem()
				p.modc = p.e.C.And(was, p.e.C.Eq(v[0], p.e.tag(dt)))
				if !p.modc.IsFalse() {
					p.modPtr(el, Val{p.e.canonLoc(el), v[2], v[3]})
				}
			}
			p.modc = was
			return nil
		},
		"vModBytes": func(p *pure, env *penv, i *ssa.Call, fn *ssa.Function, args []Val) Val {
			ks, ls := p.e.elemKeys(types.Typ[types.Uint8])
			p.mod(ks, ls, args[0][0], args[0][1], args[0][2], types.Typ[types.Uint8])
			return nil
		},
		"vModElems": func(p *pure, env *penv, i *ssa.Call, fn *ssa.Function, args []Val) Val {
			et := i.Call.Args[0].Type().Underlying().(*types.Slice).Elem()
			ks, ls := p.e.elemKeys(et)
			p.mod(ks, ls, args[0][0], args[0][1], args[0][2], et)
			return nil
		},
		"vModOut": func(p *pure, env *penv, i *ssa.Call, fn *ssa.Function, args []Val) Val {
			r := ghostOf(args[0])
			for _, g := range []ghostVar{gOutLen, gOutCalls} {
				p.mod([]memKey{g.key}, []Leaf{g.leaf}, r, p.e.i64(0), p.e.i64(1), nil)
			}
			p.mod([]memKey{gOutData.key}, []Leaf{gOutData.leaf}, r, p.e.i64(0), nil, nil)
			return nil
		},
		"vModIn": func(p *pure, env *penv, i *ssa.Call, fn *ssa.Function, args []Val) Val {
			r := ghostOf(args[0])
			p.mod([]memKey{gInPos.key}, []Leaf{gInPos.leaf}, r, p.e.i64(0), p.e.i64(1), nil)
			return nil
		},
		"vOutLen":   ghostGet(gOutLen),
		"vOutCalls": ghostGet(gOutCalls),
		"vInPos":    ghostGet(gInPos),
		"vOutAt": func(p *pure, env *penv, i *ssa.Call, fn *ssa.Function, args []Val) Val {
			r := ghostOf(args[0])
			return Val{p.e.read(p.e.memNode(p.mem, gOutData.key, gOutData.leaf), r, args[1][0])}
		},
		"vInAt": func(p *pure, env *penv, i *ssa.Call, fn *ssa.Function, args []Val) Val {
			return Val{p.e.inByte(ghostOf(args[0]), args[1][0])}
		},
		"vInLen": func(p *pure, env *penv, i *ssa.Call, fn *ssa.Function, args []Val) Val {
			return Val{p.e.inLen(ghostOf(args[0]))}
		},
		"vGhost": func(p *pure, env *penv, i *ssa.Call, fn *ssa.Function, args []Val) Val {
			g := ghostNamed(constStrArg(i, 0))
			return Val{p.e.read(p.e.memNode(p.mem, g.key, g.leaf), ghostOf(args[1]), p.e.i64(0))}
		},
		"vModGhost": func(p *pure, env *penv, i *ssa.Call, fn *ssa.Function, args []Val) Val {
			g := ghostNamed(constStrArg(i, 0))
			p.mod([]memKey{g.key}, []Leaf{g.leaf}, ghostOf(args[1]), p.e.i64(0), p.e.i64(1), nil)
			return nil
		},
		"vFresh": func(p *pure, env *penv, i *ssa.Call, fn *ssa.Function, args []Val) Val {
			// the object did not exist before
			c := p.e.C
			r := args[0][0]
			if len(args[0]) == 3 && !isString(fn.Signature.Params().At(0).Type()) {
				r = args[0][1]
			}
			return Val{c.And(c.Ule(c.BV(freshRef0, wRef), r), c.Ult(r, c.BV(globalRef0, wRef)))}
		},
		"vErrWraps": func(p *pure, env *penv, i *ssa.Call, fn *ssa.Function, args []Val) Val {
			return Val{p.e.errorsIs(p.mem, args[0], args[1], 3)}
		},
		"vUnknownBool": func(p *pure, env *penv, i *ssa.Call, fn *ssa.Function, args []Val) Val {
			return Val{p.e.C.App("ub:"+constStrArg(i, 0), 0)}
		},
		"vHeld": func(p *pure, env *penv, i *ssa.Call, fn *ssa.Function, args []Val) Val {
			return Val{p.e.C.True}
		},
	}
	pureModels = map[string]func(p *pure, args []Val) Val{}
	pureIface = map[string]func(p *pure, recv Val, args []Val) Val{}
}

func constStrArg(i *ssa.Call, k int) string {
	if cst, ok := i.Call.Args[k].(*ssa.Const); ok && cst.Value != nil && cst.Value.Kind() == constant.String {
		return constant.StringVal(cst.Value)
	}
	panic(abort{"intrinsic needs a constant string"})
}

// ---- ghost state of streams

type ghostVar struct {
	key  memKey
	leaf Leaf
}

var (
	gOutData  = ghostVar{memKey{"§out", "data"}, Leaf{"", 8, KInt}}
	gOutLen   = ghostVar{memKey{"§out", "len"}, Leaf{"", 64, KLen}}
	gOutCalls = ghostVar{memKey{"§out", "calls"}, Leaf{"", 64, KLen}}
	gInPos    = ghostVar{memKey{"§in", "pos"}, Leaf{"", 64, KLen}}
)

func ghostNamed(n string) ghostVar {
	return ghostVar{memKey{"§" + n, "v"}, Leaf{"", 64, KInt}}
}

// ghostOf is the identity of a stream: the object reference of an interface
// value or pointer.
func ghostOf(v Val) *T {
	switch len(v) {
	case 4:
		return v[2]
	case 3:
		return v[1]
	}
	return v[0]
}

func ghostGet(g ghostVar) pureFn {
	return func(p *pure, env *penv, i *ssa.Call, fn *ssa.Function, args []Val) Val {
		return Val{p.e.read(p.e.memNode(p.mem, g.key, g.leaf), ghostOf(args[0]), p.e.i64(0))}
	}
}

func (e *Engine) inByte(r, i *T) *T { return e.C.App("in.data", 8, r, i) }
func (e *Engine) inLen(r *T) *T     { return e.C.Zext(e.C.App("in.len", lenW, r), 64) }
