package eng

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"

	"gov/smt"
)

// Reference numbering. Objects that exist when the verified code starts have
// references below freshRef0, everything created during a run is above.
const (
	freshRef0  = 0x00020000
	globalRef0 = 0x08000000
	strRef0    = 0x10000000
	specRef0   = 0x20000000
	ghostRef0  = 0x30000000
)

type Val []*T

type Closure struct {
	Fn     *ssa.Function
	Binds  []Val
	Native func(st *State, args []Val, call *ssa.CallCommon) Val
	Name   string
}

type locInfo struct{ root, prefix string }

type Obligation struct {
	Name    string `json:"name"`
	Pos     string `json:"pos,omitempty"`
	Status  string `json:"status"` // proved, failed, unknown
	Backend string `json:"backend,omitempty"`
	Detail  string `json:"detail,omitempty"`
	Model   map[string]string
}

type Engine struct {
	group  string
	candMS int // time limit for judging a candidate invariant

	P      *Program
	C      *smt.Ctx
	Solver *smt.Pool

	bases  map[memKey]*Node
	nodeN  int
	locs   []locInfo
	locIdx map[locInfo]uint64
	clos   []*Closure
	fnClos map[*ssa.Function]uint64

	tags     map[string]uint64
	tagTypes []types.Type
	strs     map[string]uint64
	strData  []string
	globals  map[*ssa.Global]uint64
	recFact  map[*T]bool
	det      map[string][]detRes
	globalBy map[uint64]*ssa.Global
	nextRef  uint64
	nextAcq  int
	nextSpec uint64
	ghostRef map[string]uint64

	axioms map[*T][]*T
	axGen  map[string]func([]*T)
	recN   int

	// what is being verified
	Target        string
	self          *ssa.Function
	specMode      int
	Obls          []*Obligation
	oblIdx        map[string]*Obligation
	Unsupp        map[string]bool
	Used          map[string]bool // contracts relied on
	Models        map[string]bool // trusted library models relied on
	Inlined       map[string]bool
	Paths         int
	mute          int // >0: obligations are not recorded (invariant inference)
	muteFail      bool
	loopMode      map[*ssa.BasicBlock]int // 0 auto, 1 invariant
	NoContract    map[string]bool
	Deadline      time.Time
	cache         map[string]smt.Result
	pend          []*pending
	inFlight      map[string]*pending
	Queries       int
	SolveTime     time.Duration
	LastModel     map[string]uint64
	Inputs        []InputVar
	invCache      map[string][]int
	maxPaths      int
	Verbose       bool
	steps         int
	Quick         int // per-query ms
	Full          int
	Prop          string
	loopsInv      map[string]int
	NoPanicChecks bool
	AllocLimit    func(st *State) *T
	OblProps      map[string][]string
	depth         int
	fuel          map[*T]int
	seenLoop      map[*ssa.BasicBlock]bool
	selfCon       *Contract
	cutKey        string // function whose intermediate assertions apply
	cutArgs       []Val
	selfRegions   []region
	Lemma         string
	Reveal        map[string]bool
	Hide          map[string]bool // postconditions not used in this proof
	Cases         []ModelCase
}

// InputVar names a parameter of the target for counterexamples.
type InputVar struct {
	Name string
	Typ  types.Type
	Val  Val
}

func NewEngine(p *Program, solver *smt.Pool) *Engine {
	e := &Engine{P: p, C: smt.NewCtx(), Solver: solver, bases: map[memKey]*Node{}, locIdx: map[locInfo]uint64{}, fnClos: map[*ssa.Function]uint64{},
		tags: map[string]uint64{}, strs: map[string]uint64{}, globals: map[*ssa.Global]uint64{}, globalBy: map[uint64]*ssa.Global{}, nextRef: freshRef0, nextSpec: specRef0,
		ghostRef: map[string]uint64{}, axioms: map[*T][]*T{}, axGen: map[string]func([]*T){}, oblIdx: map[string]*Obligation{}, Unsupp: map[string]bool{}, Used: map[string]bool{},
		Models: map[string]bool{}, Inlined: map[string]bool{}, loopMode: map[*ssa.BasicBlock]int{}, cache: map[string]smt.Result{}, det: map[string][]detRes{}, recFact: map[*T]bool{}, inFlight: map[string]*pending{}, invCache: map[string][]int{},
		NoContract: map[string]bool{}, Reveal: map[string]bool{}, Hide: map[string]bool{}, maxPaths: 20000, Quick: 4000, Full: 20000, loopsInv: map[string]int{}, OblProps: map[string][]string{}, fuel: map[*T]int{}, seenLoop: map[*ssa.BasicBlock]bool{}}
	e.locs = append(e.locs, locInfo{})
	e.clos = append(e.clos, nil)
	e.tagTypes = append(e.tagTypes, nil)
	return e
}

// abort is thrown when a target cannot be decided.
type abort struct{ msg string }

func (e *Engine) fail(f string, a ...any) { panic(abort{fmt.Sprintf(f, a...)}) }

func (e *Engine) loc(root, prefix string) *T {
	k := locInfo{root, prefix}
	i, ok := e.locIdx[k]
	if !ok {
		i = uint64(len(e.locs))
		e.locs = append(e.locs, k)
		e.locIdx[k] = i
	}
	return e.C.BV(i, wPath)
}

func (e *Engine) canonLoc(t types.Type) *T { return e.loc(locType(t), "") }

func (e *Engine) tag(t types.Type) *T {
	k := tname(t)
	i, ok := e.tags[k]
	if !ok {
		i = uint64(len(e.tagTypes))
		e.tagTypes = append(e.tagTypes, t)
		e.tags[k] = i
	}
	return e.C.BV(i, wTag)
}

func (e *Engine) freshRef() *T {
	e.nextRef++
	return e.C.BV(e.nextRef-1, wRef)
}

func (e *Engine) ghost(name string) *T {
	i, ok := e.ghostRef[name]
	if !ok {
		i = ghostRef0 + uint64(len(e.ghostRef)) + 1
		e.ghostRef[name] = i
	}
	return e.C.BV(i, wRef)
}

func (e *Engine) closure(c *Closure) Val {
	e.clos = append(e.clos, c)
	return Val{e.C.BV(uint64(len(e.clos)-1), wFn)}
}

func (e *Engine) funcVal(f *ssa.Function) Val {
	if i, ok := e.fnClos[f]; ok {
		return Val{e.C.BV(i, wFn)}
	}
	v := e.closure(&Closure{Fn: f})
	e.fnClos[f] = uint64(len(e.clos) - 1)
	return v
}

func (e *Engine) str(s string) Val {
	c := e.C
	if s == "" {
		return Val{c.BV(0, wRef), c.BV(0, 64), c.BV(0, 64)}
	}
	i, ok := e.strs[s]
	if !ok {
		i = strRef0 + uint64(len(e.strData))
		e.strData = append(e.strData, s)
		e.strs[s] = i
	}
	return Val{c.BV(i, wRef), c.BV(0, 64), c.BV(uint64(len(s)), 64)}
}

func (e *Engine) strByte(ref, idx *T) *T {
	c := e.C
	k := ref.Val - strRef0
	if k >= uint64(len(e.strData)) {
		return c.App("str?", 8, ref, idx)
	}
	s := e.strData[k]
	if idx.IsConst() {
		if idx.Val < uint64(len(s)) {
			return c.BV(uint64(s[idx.Val]), 8)
		}
		return c.BV(0, 8)
	}
	r := c.BV(0, 8)
	for i := len(s) - 1; i >= 0; i-- {
		r = c.Ite(c.Eq(idx, c.BV(uint64(i), 64)), c.BV(uint64(s[i]), 8), r)
	}
	return r
}

func (e *Engine) globalRef(g *ssa.Global) *T {
	i, ok := e.globals[g]
	if !ok {
		i = globalRef0 + uint64(len(e.globals)) + 1
		e.globals[g] = i
		e.globalBy[i] = g
	}
	return e.C.BV(i, wRef)
}

// ptr builds a pointer to a standalone object.
func (e *Engine) ptrTo(t types.Type, ref *T) Val {
	return Val{e.canonLoc(t), ref, e.C.BV(0, 64)}
}

func (e *Engine) i64(v int64) *T { return e.C.BV(uint64(v), 64) }

func (e *Engine) zero(t types.Type) Val {
	ls := layout(t)
	v := make(Val, len(ls))
	for i, l := range ls {
		v[i] = e.zeroLeaf(l.W)
	}
	return v
}

// symbolic returns an arbitrary value of type t. old: it only refers to
// objects that exist before the verified code starts.
func (e *Engine) symbolic(t types.Type, name string, old bool) Val {
	c := e.C
	ls := layout(t)
	v := make(Val, len(ls))
	for i, l := range ls {
		nm := name + l.Path
		switch l.Kind {
		case KOff, KLen, KCap, KIdx:
			v[i] = c.Zext(c.Var(nm, lenW), l.W)
		case KRef:
			if old {
				v[i] = c.Zext(c.Var(nm, 16), l.W)
			} else {
				v[i] = c.Var(nm, l.W)
			}
		case KIRef:
			if old {
				v[i] = e.oldIRef(c.Var(nm, 17))
			} else {
				v[i] = c.Var(nm, l.W)
			}
		case KSRef:
			if old {
				v[i] = c.Concat(c.BV(1, 16), c.Var(nm, 16))
			} else {
				v[i] = c.Var(nm, l.W)
			}
		default:
			v[i] = c.Var(nm, l.W)
		}
	}
	e.fixPtrs(t, v)
	return v
}

// fixPtrs replaces unknown location classes of pointers by the canonical one:
// pointers found in unknown memory designate standalone variables or slice
// elements of their type.
func (e *Engine) fixPtrs(t types.Type, v Val) {
	off := 0
	e.walkPtrs(t, func(pt types.Type, at int, kind byte) {
		if kind == 'p' {
			if !v[at].IsConst() {
				v[at] = e.canonLoc(pt)
				if e.C.UB(v[at+1]) > 0 {
					// standalone object or element
				}
			}
		}
	}, &off)
}

// walkPtrs enumerates pointer ('p'), slice ('s'), string ('t') and interface
// ('i') components with their leaf offset.
func (e *Engine) walkPtrs(t types.Type, f func(types.Type, int, byte), off *int) {
	t = types.Unalias(t)
	if n, ok := t.(*types.Named); ok {
		if l, ok := opaque[tname(n)]; ok {
			if len(l) == 18 {
				f(t, *off, 'n')
			}
			*off += len(l)
			return
		}
		if st, ok := n.Underlying().(*types.Struct); ok && isNetipAddrStruct(st) {
			f(t, *off, 'n')
			*off += len(layout(t))
			return
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		f(u.Elem(), *off, 'p')
		*off += 3
	case *types.Slice:
		f(u.Elem(), *off, 's')
		*off += 4
	case *types.Interface:
		f(t, *off, 'i')
		*off += 4
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			e.walkPtrs(u.Field(i).Type(), f, off)
		}
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			e.walkPtrs(u.At(i).Type(), f, off)
		}
	case *types.Array:
		if u.Len() > 64 {
			*off++
			return
		}
		for i := int64(0); i < u.Len(); i++ {
			e.walkPtrs(u.Elem(), f, off)
		}
	default:
		if isString(t) {
			f(t, *off, 't')
		}
		*off += len(layout(t))
	}
}

// typeFacts are the representation invariants of the Go runtime for v.
func (e *Engine) typeFacts(t types.Type, v Val) []*T {
	c := e.C
	var out []*T
	off := 0
	lim := c.BV(1<<lenW, 64)
	e.walkPtrs(t, func(et types.Type, at int, kind byte) {
		switch kind {
		case 's':
			r, o, l, cp := v[at], v[at+1], v[at+2], v[at+3]
			if l.IsConst() && cp.IsConst() && o.IsConst() {
				return
			}
			out = append(out, c.Ule(l, cp), c.Ult(o, lim), c.Ult(cp, lim), c.Ult(c.Add(o, cp), lim), c.Or(c.Ne(r, c.BV(0, wRef)), c.Eq(cp, c.BV(0, 64))))
		case 'n':
			k, z := v[at], v[at+1]
			if k.IsConst() {
				return
			}
			is := func(n uint64) *T { return c.Eq(k, c.BV(n, 8)) }
			v4, no := c.True, c.True
			for b := 0; b < 16; b++ {
				x := v[at+2+b]
				no = c.And(no, c.Eq(x, c.BV(0, 8)))
				if b < 10 {
					v4 = c.And(v4, c.Eq(x, c.BV(0, 8)))
				} else if b < 12 {
					v4 = c.And(v4, c.Eq(x, c.BV(255, 8)))
				}
			}
			z0 := c.Eq(z, c.BV(0, 32))
			out = append(out, c.Or(is(0), is(4), is(6)), c.Or(c.Not(is(4)), c.And(v4, z0)), c.Or(c.Not(is(0)), c.And(no, z0)))
		case 't':
			o, l := v[at+1], v[at+2]
			if l.IsConst() && o.IsConst() {
				return
			}
			out = append(out, c.Ult(o, lim), c.Ult(l, lim), c.Ult(c.Add(o, l), lim))
		case 'p':
			if !v[at+1].IsConst() || !v[at+2].IsConst() {
				out = append(out, c.Ult(v[at+2], lim))
			}
		}
	}, &off)
	return out
}

func (e *Engine) record(name, pos, status, backend, detail string) {
	if e.mute > 0 {
		if status != "proved" {
			e.muteFail = true
		}
		return
	}
	o := e.oblIdx[name]
	if o == nil {
		o = &Obligation{Name: name, Pos: pos, Status: status, Backend: backend, Detail: detail}
		e.oblIdx[name] = o
		e.Obls = append(e.Obls, o)
		return
	}
	if o.Backend == "pending" && status == "proved" {
		o.Backend = backend
	}
	if o.Status == "proved" && status != "proved" {
		o.Status, o.Detail, o.Backend, o.Pos = status, detail, backend, pos
	}
}

func (e *Engine) checkTime() {
	if !e.Deadline.IsZero() && time.Now().After(e.Deadline) {
		panic(abort{"time limit for " + e.Target})
	}
}

func (e *Engine) Failed() []*Obligation {
	var r []*Obligation
	for _, o := range e.Obls {
		if o.Status != "proved" {
			r = append(r, o)
		}
	}
	return r
}

func sortedKeys[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func trimDollar(s string) string {
	if i := strings.IndexByte(s, '$'); i >= 0 {
		return s[:i]
	}
	return s
}
