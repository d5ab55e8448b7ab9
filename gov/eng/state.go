package eng

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"gov/smt"
)

type WriteRec struct {
	key memKey
	ref *T
	idx *T
	n   *T // nil: everything in ref
}

type deferred struct {
	fn   Val // closure value, or nil
	call *ssa.CallCommon
	args []Val
}

type Frame struct {
	fn      *ssa.Function
	env     map[ssa.Value]Val
	block   *ssa.BasicBlock
	prev    *ssa.BasicBlock
	pc      int
	defers  []deferred
	binds   []Val
	callee  ssa.CallInstruction // call in the caller this frame returns to
	inDefer bool                // runs a deferred call
	unwind  bool                // ... while panicking
	panicAt bool
	visits  map[*ssa.BasicBlock]int
	loops   map[*ssa.BasicBlock]*loopState
	discard bool
	onRet   func(st *State, res Val) Val // native continuation
	callPos token.Pos
	probing int
}

type loopState struct {
	h              *ssa.BasicBlock
	cands          []*cand
	entry          map[ssa.Value]Val
	heads          map[ssa.Value]Val // values at the loop head of the arbitrary iteration
	mem0           Mem               // at the loop head of the arbitrary iteration
	steps          []*cand
	body           map[*ssa.BasicBlock]bool
	probe          bool
	onBack         func(*State, *Frame, *ssa.BasicBlock)
	nwrites, nheld int
}

type State struct {
	e        *Engine
	mem      Mem
	pc       []*T
	known    map[*T]bool
	frames   []*Frame
	panicV   Val // non-nil while panicking
	panicI   string
	recov    bool
	old      Mem // memory at entry of the target
	acq      map[string]Mem
	writes   []WriteRec
	rel      map[uint64]string // released objects (reference -> what)
	eqs      map[*T]*T         // object identities known to be equal to older ones
	relSym   []*T              // ... with symbolic references
	held     map[string]bool
	log      []string
	depth    int
	dead     bool
	oldCtr   uint64
	x        *explorer
	spec     bool // executing specification code: no obligations
	mayPanic bool
	curLock  Val
	acqID    int  // the last acquisition of a monitor
	acqClean bool // nothing was written since
	ext      map[string]int
}

func (st *State) clone() *State {
	n := *st
	n.mem = st.mem.clone()
	n.pc = append([]*T(nil), st.pc...)
	n.known = make(map[*T]bool, len(st.known))
	for k := range st.known {
		n.known[k] = true
	}
	n.frames = make([]*Frame, len(st.frames))
	for i, f := range st.frames {
		n.frames[i] = f.clone()
	}
	n.writes = append([]WriteRec(nil), st.writes...)
	n.rel = map[uint64]string{}
	for k, v := range st.rel {
		n.rel[k] = v
	}
	n.eqs = make(map[*T]*T, len(st.eqs))
	for k, v := range st.eqs {
		n.eqs[k] = v
	}
	n.relSym = append([]*T(nil), st.relSym...)
	n.held = map[string]bool{}
	for k, v := range st.held {
		n.held[k] = v
	}
	n.acq = map[string]Mem{}
	for k, v := range st.acq {
		n.acq[k] = v
	}
	n.ext = map[string]int{}
	for k, v := range st.ext {
		n.ext[k] = v
	}
	n.log = append([]string(nil), st.log...)
	return &n
}

func (f *Frame) clone() *Frame {
	n := *f
	n.env = make(map[ssa.Value]Val, len(f.env)+4)
	for k, v := range f.env {
		n.env[k] = v
	}
	n.visits = make(map[*ssa.BasicBlock]int, len(f.visits))
	for k, v := range f.visits {
		n.visits[k] = v
	}
	n.loops = make(map[*ssa.BasicBlock]*loopState, len(f.loops))
	for k, v := range f.loops {
		n.loops[k] = v
	}
	n.defers = append([]deferred(nil), f.defers...)
	return &n
}

func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }

func (st *State) assume(t *T) {
	if t.IsTrue() || st.known[t] {
		return
	}
	if t.Op == smt.OpAnd {
		for _, a := range t.Args {
			st.assume(a)
		}
		return
	}
	if t.IsFalse() || st.known[st.e.C.Not(t)] {
		st.dead = true
	}
	st.known[t] = true
	st.pc = append(st.pc, t)
	if t.Op == smt.OpEq && t.Args[0].W == wRef && !t.Bnd {
		a, b := resolve(st.eqs, t.Args[0]), resolve(st.eqs, t.Args[1])
		if a.IsConst() || !b.IsConst() && a.ID < b.ID {
			a, b = b, a
		}
		if a != b && !a.IsConst() {
			st.eqs[a] = b
		}
	}
}

// resolve gives the oldest object identity known to equal t.
func resolve(eqs map[*T]*T, t *T) *T {
	for eqs[t] != nil {
		t = eqs[t]
	}
	return t
}

func resolveRefs(eqs map[*T]*T, t types.Type, v Val) {
	if len(eqs) == 0 {
		return
	}
	for i, l := range layout(t) {
		if (l.Kind == KRef || l.Kind == KIRef || l.Kind == KSRef) && i < len(v) {
			v[i] = resolve(eqs, v[i])
		}
	}
}

func (st *State) assumeAll(ts []*T) {
	for _, t := range ts {
		if !t.Bnd {
			st.assume(t)
		}
	}
}

func (st *State) trail() string {
	if len(st.log) > 12 {
		return strings.Join(st.log[len(st.log)-12:], " ")
	}
	return strings.Join(st.log, " ")
}

func (e *Engine) posStr(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := e.P.Fset.Position(p)
	fn := strings.TrimPrefix(q.Filename, e.P.Dir+"/")
	return fmt.Sprintf("%s:%d", fn, q.Line)
}

// ---- memory access with typed values

func (e *Engine) locOf(p *T) (locInfo, bool) {
	if p.IsConst() {
		if p.Val == 0 || p.Val >= uint64(len(e.locs)) {
			return locInfo{}, false
		}
		return e.locs[p.Val], true
	}
	return locInfo{}, false
}

// isArr reports array types that live as consecutive elements.
func isArr(t types.Type) (*types.Array, bool) {
	t = types.Unalias(t)
	if _, named := t.(*types.Named); named {
		return nil, false
	}
	a, ok := t.(*types.Array)
	return a, ok
}

// loadMem reads a T through ptr from m.
func (e *Engine) loadMem(m Mem, t types.Type, ptr Val) Val {
	c := e.C
	li, ok := e.locOf(ptr[0])
	if !ok {
		if ptr[0].Op == smt.OpIte {
			a := e.loadMem(m, t, Val{ptr[0].Args[1], ptr[1], ptr[2]})
			b := e.loadMem(m, t, Val{ptr[0].Args[2], ptr[1], ptr[2]})
			r := make(Val, len(a))
			for i := range a {
				r[i] = c.Ite(ptr[0].Args[0], a[i], b[i])
			}
			return r
		}
		if ptr[0].IsConst() && ptr[0].Val == 0 {
			return e.zero(t) // nil: excluded by a check
		}
		li = locInfo{locType(t), ""}
	}
	if a, ok := isArr(t); ok && a.Len() <= 64 {
		var out Val
		for i := int64(0); i < a.Len(); i++ {
			out = append(out, e.loadMem(m, a.Elem(), Val{ptr[0], ptr[1], c.AddK(ptr[2], uint64(i))})...)
		}
		return out
	}
	if ptr[1].IsConst() {
		if g := e.globalBy[ptr[1].Val]; g != nil && li.prefix == "" {
			if v, ok := e.globalConst(g); ok {
				return v
			}
		}
	}
	ls := layout(t)
	v := make(Val, len(ls))
	for i, l := range ls {
		k := memKey{li.root, li.prefix + l.Path}
		v[i] = e.read(e.memNode(m, k, l), ptr[1], ptr[2])
	}
	e.fixPtrs(t, v)
	return v
}

// globalConst models package variables which never change after
// initialisation: error sentinels.
func (e *Engine) globalConst(g *ssa.Global) (Val, bool) {
	t := g.Type().(*types.Pointer).Elem()
	if tname(t) == "error" {
		r := e.globalRef(g)
		return Val{e.tag(errStringType), e.loc("errors.errorString", ""), r, e.C.BV(0, 64)}, true
	}
	if _, ok := t.Underlying().(*types.Struct); ok && len(layout(t)) == 0 {
		return Val{}, true
	}
	return nil, false
}

var errStringType types.Type = types.NewPointer(types.NewNamed(types.NewTypeName(token.NoPos, types.NewPackage("errors", "errors"), "errorString", nil), types.NewStruct(nil, nil), nil))

func (st *State) load(t types.Type, ptr Val) Val {
	v := st.e.loadMem(st.mem, t, ptr)
	resolveRefs(st.eqs, t, v)
	st.assumeAll(st.e.typeFacts(t, v))
	return v
}

func (st *State) store(t types.Type, ptr Val, v Val) {
	e := st.e
	c := e.C
	li, ok := e.locOf(ptr[0])
	if !ok {
		li = locInfo{locType(t), ""}
	}
	if a, ok := isArr(t); ok && a.Len() <= 64 {
		n := len(v) / int(a.Len())
		for i := int64(0); i < a.Len(); i++ {
			st.store(a.Elem(), Val{ptr[0], ptr[1], c.AddK(ptr[2], uint64(i))}, v[int(i)*n:int(i+1)*n])
		}
		return
	}
	ls := layout(t)
	for i, l := range ls {
		k := memKey{li.root, li.prefix + l.Path}
		st.writeLeaf(k, l, ptr[1], ptr[2], v[i])
	}
}

func (st *State) writeLeaf(k memKey, l Leaf, ref, idx, v *T) {
	e := st.e
	n := e.memNode(st.mem, k, l)
	if v.W != l.W {
		panic(fmt.Sprintf("store width %v %d != %d", k, v.W, l.W))
	}
	st.mem[k] = e.node(Node{kind: nStore, prev: n, ref: ref, idx: idx, val: v})
	st.wrote(k, ref, idx, e.C.BV(1, 64))
}

func (st *State) wrote(k memKey, ref, idx, n *T) {
	st.writes = append(st.writes, WriteRec{k, ref, idx, n})
}

// elemLeaves gives the memory classes of the elements of a []et.
func (e *Engine) elemKeys(et types.Type) ([]memKey, []Leaf) {
	if a, ok := isArr(et); ok {
		et = a.Elem()
	}
	root := locType(et)
	ls := layout(et)
	ks := make([]memKey, len(ls))
	for i, l := range ls {
		ks[i] = memKey{root, l.Path}
	}
	return ks, ls
}

// copyElems copies n elements (memmove semantics).
func (st *State) copyElems(et types.Type, dref, doff, sref, soff, n *T) {
	e := st.e
	if n.IsConst() && n.Val == 0 {
		return
	}
	ks, ls := e.elemKeys(et)
	for i, k := range ks {
		nd := e.memNode(st.mem, k, ls[i])
		if n.IsConst() && n.Val <= 16 {
			// small copies: plain stores of the source values
			var vs []*T
			for j := uint64(0); j < n.Val; j++ {
				vs = append(vs, e.read(nd, sref, e.C.AddK(soff, j)))
			}
			for j := uint64(0); j < n.Val; j++ {
				nd = e.node(Node{kind: nStore, prev: nd, ref: dref, idx: e.C.AddK(doff, j), val: vs[j]})
			}
			st.mem[k] = nd
		} else {
			st.mem[k] = e.node(Node{kind: nCopy, prev: nd, ref: dref, idx: doff, n: n, sref: sref, soff: soff, src: nd})
		}
		st.wrote(k, dref, doff, n)
	}
}

// alloc creates a zeroed object of type t.
func (st *State) alloc(t types.Type) Val {
	e := st.e
	r := e.freshRef()
	st.zeroObj(t, r)
	return e.ptrTo(t, r)
}

func (st *State) zeroObj(t types.Type, r *T) {
	e := st.e
	if a, ok := isArr(t); ok {
		st.zeroObj(a.Elem(), r)
		return
	}
	root := locType(t)
	for _, l := range layout(t) {
		k := memKey{root, l.Path}
		st.mem[k] = e.node(Node{kind: nZero, prev: e.memNode(st.mem, k, l), ref: r})
	}
}

// havocObj creates an object with arbitrary contents.
func (st *State) havocRef(t types.Type, r *T, idx, n *T, tagName string) {
	e := st.e
	if a, ok := isArr(t); ok {
		st.havocRef(a.Elem(), r, idx, n, tagName)
		return
	}
	root := locType(t)
	for _, l := range layout(t) {
		st.havocKey(memKey{root, l.Path}, l, r, idx, n, tagName)
	}
	_ = e
}

func (st *State) havocKey(k memKey, l Leaf, r, idx, n *T, tagName string) {
	e := st.e
	e.nodeN++
	nd := Node{kind: nHavoc, prev: e.memNode(st.mem, k, l), ref: r, idx: idx, n: n, uf: fmt.Sprintf("H%d%s:%s|%s", e.nodeN, tagName, k.root, k.path)}
	if n != nil && n.IsConst() && n.Val == 0 {
		return
	}
	st.mem[k] = e.node(nd)
	st.wrote(k, r, idx, n)
}

func (st *State) havocAllKey(k memKey, l Leaf) {
	e := st.e
	e.nodeN++
	st.mem[k] = e.node(Node{kind: nHavocAll, prev: e.memNode(st.mem, k, l), uf: fmt.Sprintf("A%d:%s|%s", e.nodeN, k.root, k.path)})
	st.writes = append(st.writes, WriteRec{k, nil, nil, nil})
}

// ---- values

func (e *Engine) constVal(k *ssa.Const) Val {
	c := e.C
	t := k.Type()
	if k.Value == nil {
		return e.zero(t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return Val{c.Bool(constant.BoolVal(k.Value))}
		case u.Info()&types.IsString != 0:
			return e.str(constant.StringVal(k.Value))
		case u.Info()&types.IsInteger != 0:
			w := intWidth(u)
			v := constant.ToInt(k.Value)
			if x, ok := constant.Int64Val(v); ok {
				return Val{c.BV(uint64(x), w)}
			}
			x, _ := constant.Uint64Val(v)
			return Val{c.BV(x, w)}
		case u.Info()&types.IsFloat != 0:
			return Val{c.App("float:"+k.Value.ExactString(), 64)}
		}
	}
	return e.zero(t)
}

func (st *State) val(f *Frame, v ssa.Value) Val {
	return st.e.value(f.env, f.binds, f.fn, v)
}

func (e *Engine) value(env map[ssa.Value]Val, binds []Val, fn *ssa.Function, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constVal(x)
	case *ssa.Global:
		t := x.Type().(*types.Pointer).Elem()
		return e.ptrTo(t, e.globalRef(x))
	case *ssa.Function:
		return e.funcVal(x)
	case *ssa.Builtin:
		return nil
	case *ssa.FreeVar:
		for i, fv := range fn.FreeVars {
			if fv == x {
				return binds[i]
			}
		}
	}
	r, ok := env[v]
	if !ok {
		e.fail("value %s of %s has not been computed", v.Name(), fn.Name())
	}
	return r
}
