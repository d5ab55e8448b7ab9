package eng

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"gov/smt"
)

const unrollLimit = 14

// cand is a candidate loop invariant.
type cand struct {
	name string
	eval func(st *State, get func(ssa.Value) Val) *T
	dead bool
	spec bool // written by hand: likely to hold
}

type loopInfo struct {
	body map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // header -> blocks
	back map[[2]*ssa.BasicBlock]bool
}

func (e *Engine) loopsOf(fn *ssa.Function) *loopInfo {
	if v, ok := e.P.LoopInfo.Load(fn); ok {
		return v.(*loopInfo)
	}
	li := &loopInfo{body: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}, back: map[[2]*ssa.BasicBlock]bool{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if !s.Dominates(b) {
				continue
			}
			li.back[[2]*ssa.BasicBlock{b, s}] = true
			body := li.body[s]
			if body == nil {
				body = map[*ssa.BasicBlock]bool{s: true}
				li.body[s] = body
			}
			var up func(x *ssa.BasicBlock)
			up = func(x *ssa.BasicBlock) {
				if body[x] {
					return
				}
				body[x] = true
				for _, p := range x.Preds {
					up(p)
				}
			}
			up(b)
		}
	}
	e.P.LoopInfo.Store(fn, li)
	return li
}

func headPhis(b *ssa.BasicBlock) []*ssa.Phi {
	var r []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		r = append(r, p)
	}
	return r
}

func predIndex(b, from *ssa.BasicBlock) int {
	for i, p := range b.Preds {
		if p == from {
			return i
		}
	}
	return -1
}

type wrange struct {
	ref, idx, n *T
}

// wset is what a loop may change.
type wset struct {
	keys map[memKey]*wkey
}

type wkey struct {
	leaf  Leaf
	all   bool
	fresh bool
	refs  map[*T]*wrange
	order []*T
}

func (w *wset) key(k memKey, l Leaf) *wkey {
	e := w.keys[k]
	if e == nil {
		e = &wkey{leaf: l, refs: map[*T]*wrange{}}
		w.keys[k] = e
	}
	return e
}

// invariantTerm: t only mentions things that existed before mark.
func invariantTerm(t *T, mark, nmark int, memo map[*T]bool) bool {
	if t.ID < mark {
		return true
	}
	if v, ok := memo[t]; ok {
		return v
	}
	r := true
	switch t.Op {
	case smt.OpVar:
		r = false
	case smt.OpApp:
		switch {
		case strings.HasPrefix(t.Name, "M:"), strings.HasPrefix(t.Name, "in."):
		case len(t.Name) > 1 && strings.IndexByte("HAN", t.Name[0]) >= 0 && t.Name[1] >= '0' && t.Name[1] <= '9':
			n := 0
			for i := 1; i < len(t.Name) && t.Name[i] >= '0' && t.Name[i] <= '9'; i++ {
				n = n*10 + int(t.Name[i]-'0')
			}
			r = n <= nmark
		default:
			r = false
		}
	case smt.OpForall:
		r = false
	}
	if r {
		for _, a := range t.Args {
			if !invariantTerm(a, mark, nmark, memo) {
				r = false
				break
			}
		}
	}
	memo[t] = r
	return r
}

// collect adds the difference between the memories head and back to w.
func (e *Engine) collect(w *wset, head, back Mem, mark, nmark int, freshFrom uint64) bool {
	grew := false
	memo := map[*T]bool{}
	var ks []memKey
	for k := range back {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool {
		return ks[i].root < ks[j].root || ks[i].root == ks[j].root && ks[i].path < ks[j].path
	})
	for _, k := range ks {
		n := back[k]
		hn := head[k]
		if hn == nil {
			hn = e.bases[k]
		}
		if n == hn {
			continue
		}
		l := Leaf{k.path, n.w, n.lk}
		we := w.key(k, l)
		for n != nil && n != hn {
			switch n.kind {
			case nBase:
				n = nil
				continue
			case nHavocAll:
				if !we.all {
					we.all, grew = true, true
				}
				n = nil
				continue
			case nHavocNew:
				if !we.fresh {
					we.fresh, grew = true, true
				}
				n = n.prev
				continue
			}
			ref := n.ref
			if ref.IsConst() && ref.Val >= freshFrom && ref.Val < globalRef0 {
				if !we.fresh {
					we.fresh, grew = true, true
				}
				n = n.prev
				continue
			}
			if !invariantTerm(ref, mark, nmark, memo) {
				if !we.all {
					we.all, grew = true, true
				}
				n = n.prev
				continue
			}
			idx, cnt := n.idx, n.n
			switch n.kind {
			case nStore:
				cnt = e.C.BV(1, 64)
			case nZero:
				idx, cnt = nil, nil
			}
			if idx != nil && cnt != nil && (!invariantTerm(idx, mark, nmark, memo) || !invariantTerm(cnt, mark, nmark, memo)) {
				idx, cnt = nil, nil
			}
			if cnt == nil {
				idx = nil
			}
			o := we.refs[ref]
			if o == nil {
				we.refs[ref] = &wrange{ref, idx, cnt}
				we.order = append(we.order, ref)
				grew = true
			} else if o.n != nil && (o.idx != idx || o.n != cnt) {
				o.idx, o.n = nil, nil
				grew = true
			}
			n = n.prev
		}
	}
	return grew
}

// bumpRefs reserves references for objects created out of sight and returns
// the bound below which references to created objects lie.
func (e *Engine) bumpRefs() uint64 {
	e.nextRef += 256
	return e.nextRef
}

// refBound: the references in v designate existing objects.
func (st *State) refBound(t types.Type, v Val) {
	e := st.e
	c := e.C
	lim := c.BV(e.nextRef, wRef)
	ls := layout(t)
	for i, l := range ls {
		if (l.Kind == KRef || l.Kind == KIRef || l.Kind == KSRef) && i < len(v) && !v[i].IsConst() && c.UB(v[i]) >= e.nextRef {
			st.assume(c.Or(c.Ult(v[i], lim), c.Ule(c.BV(globalRef0, wRef), v[i])))
		}
	}
}

func (e *Engine) enterLoop(x *explorer, st *State, f *Frame, from, to *ssa.BasicBlock) bool {
	li := e.loopsOf(f.fn)
	body := li.body[to]
	if body == nil {
		return true
	}
	back := li.back[[2]*ssa.BasicBlock{from, to}]
	if e.loopMode[to] == 0 && !e.seenLoop[to] {
		e.seenLoop[to] = true
		if len(e.templates(f, to)) > 0 {
			e.loopMode[to] = 1
		}
	}
	if e.loopMode[to] == 0 {
		if back {
			f.visits[to]++
			if f.visits[to] > unrollLimit && !st.spec {
				e.loopMode[to] = 1
				panic(restart{fmt.Sprintf("loop in %s needs an invariant", f.fn.Name())})
			}
			if f.visits[to] > 300 {
				e.fail("unbounded loop in specification code %s", f.fn.Name())
			}
		} else {
			f.visits[to] = 0
		}
		return true
	}
	if back {
		ls := f.loops[to]
		if ls == nil {
			e.fail("back edge without loop entry in %s", f.fn.Name())
		}
		if ls.onBack != nil {
			ls.onBack(st, f, from)
			return false
		}
		get := e.backGetter(st, f, to, from)
		where := funcKey(f.fn)
		for _, cd := range ls.cands {
			st.check(cd.eval(st, get), "loop invariant "+cd.name+" maintained in "+where, e.posStr(to.Instrs[0].Pos()), "")
		}
		if e.self != nil {
			e.frameCheck(st, ls.nwrites)
		}
		if len(st.held) != ls.nheld {
			st.check(e.C.False, "locks balanced around the loop in "+where, "", "")
		}
		for _, s := range ls.steps {
			save := st.old
			st.old = ls.mem0
			t := s.eval(st, get)
			st.old = save
			st.check(t, "loop step "+s.name+" in "+where, "", "")
		}
		return false
	}
	for b := range body {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Defer); ok {
				e.fail("defer inside a loop in %s", f.fn.Name())
			}
		}
	}
	// loop entry: find what the loop changes and which candidates hold
	phis := headPhis(to)
	k := predIndex(to, from)
	entry := map[ssa.Value]Val{}
	for _, p := range phis {
		entry[p] = st.val(f, p.Edges[k])
	}
	mem0 := st.mem.clone()
	fr := e.nextRef
	mark, nmark := e.C.NumTerms()+1, e.nodeN
	w := &wset{keys: map[memKey]*wkey{}}
	cands := e.candidates(st, f, to, body, entry)
	getEntry := func(v ssa.Value) Val {
		if r, ok := entry[v]; ok {
			return r
		}
		return st.val(f, v)
	}
	cands = append(cands, e.monitorCands(st)...)
	e.judge(st, cands, getEntry)
	memCands := false
	acqLoop, acqKeep := st.acqClean, true
	setAcq := func(s *State) {
		switch {
		case acqLoop:
			s.acq, s.acqClean = map[string]Mem{"cur": s.mem.clone()}, true
		case !acqKeep:
			s.acq, s.acqClean = map[string]Mem{}, false
		}
	}
	for round := 0; ; round++ {
		e.checkTime()
		if round > 40 {
			e.fail("loop analysis of %s does not converge", f.fn.Name())
		}
		p := st.clone()
		pf := p.top()
		ls := &loopState{h: to, body: body, probe: true}
		e.havocLoop(p, pf, to, w, entry, cands, fr)
		setAcq(p)
		head := p.mem.clone()
		type bs struct {
			st   *State
			from *ssa.BasicBlock
		}
		var backs []bs
		ls.onBack = func(s *State, sf *Frame, fb *ssa.BasicBlock) {
			backs = append(backs, bs{s, fb})
		}
		pf.loops[to] = ls
		pf.probing++
		x2 := &explorer{e: e, done: func(*State, Val, bool) {}}
		e.mute++
		x2.push(p)
		x2.run()
		e.mute--
		grew := false
		for _, b := range backs {
			if e.collect(w, head, b.st.mem, mark, nmark, fr) {
				grew = true
			}
			if acqLoop && !b.st.acqClean {
				acqLoop, grew = false, true
			}
			if acqKeep && b.st.acqID != st.acqID {
				acqKeep, grew = false, !acqLoop || grew
			}
		}
		if grew {
			continue
		}
		if !memCands {
			memCands = true
			mc := e.memCandidates(mem0, w)
			e.judge(st, mc, getEntry)
			cands = append(cands, mc...)
			if len(mc) > 0 {
				continue
			}
		}
		killed := false
		for _, b := range backs {
			if e.judge(b.st, cands, e.backGetter(b.st, b.st.top(), to, b.from)) {
				killed = true
			}
		}
		if !killed {
			break
		}
	}
	var live []*cand
	for _, c := range cands {
		if !c.dead {
			live = append(live, c)
		}
	}
	if e.mute == 0 {
		for _, cd := range live {
			st.check(cd.eval(st, getEntry), "loop invariant "+cd.name+" established in "+funcKey(f.fn), e.posStr(to.Instrs[0].Pos()), "")
		}
	}
	ls := &loopState{h: to, body: body, cands: live, nwrites: len(st.writes), nheld: len(st.held)}
	ls.steps = e.stepClauses(f, to)
	e.havocLoop(st, f, to, w, entry, cands, fr)
	setAcq(st)
	ls.mem0 = st.mem.clone()
	f.loops[to] = ls
	if st.dead {
		return false
	}
	return true
}

// monitorCands: the invariant of a monitor whose lock is held may still hold.
func (e *Engine) monitorCands(st *State) []*cand {
	p := st.curLock
	if p == nil {
		return nil
	}
	m, _ := e.lockOf(p)
	if m == nil || p[1].IsConst() && p[1].Val >= freshRef0 && p[1].Val < globalRef0 {
		return nil
	}
	a := e.monArgs(m, p)
	return []*cand{{name: "invariant " + m.Inv.Name() + " of monitor " + m.Name, eval: func(st *State, g func(ssa.Value) Val) *T {
		t, fs := e.evalClause(st.eqs, Clause{Name: m.Name, Fn: m.Inv}, st.mem, st.old, st.acq, []Val{a})
		st.assumeAll(fs)
		return t
	}}}
}

// judge kills the candidates that are not provable in st.
func (e *Engine) judge(st *State, cands []*cand, get func(ssa.Value) Val) bool {
	killed := false
	all := e.C.True
	var ts []*T
	for _, c := range cands {
		if c.dead {
			ts = append(ts, nil)
			continue
		}
		t := c.eval(st, get)
		ts = append(ts, t)
		all = e.C.And(all, t)
	}
	if ok, _ := st.quick(all); ok {
		return false
	}
	for i, c := range cands {
		if c.dead {
			continue
		}
		if r, _ := st.provesQ(ts[i], c.spec); !r {
			c.dead = true
			killed = true
			if os.Getenv("GOV_TRACE") != "" {
				fmt.Fprintf(os.Stderr, "candidate %s killed: %s\n", c.name, explain(ts[i], st.log))
			}
		}
	}
	return killed
}

func (st *State) provesQ(goal *T, likely bool) (bool, string) {
	if goal.IsTrue() || st.known[goal] {
		return true, ""
	}
	if goal.IsFalse() {
		return !st.feasible(), ""
	}
	as := append(append([]*T{}, st.pc...), st.e.C.Not(goal))
	ms := st.e.candMS
	if likely {
		ms *= 4
	}
	r, b := st.e.sat(as, ms, goal.HasQ, nil)
	return r == smt.Unsat, b
}

func (e *Engine) backGetter(st *State, f *Frame, h, from *ssa.BasicBlock) func(ssa.Value) Val {
	k := predIndex(h, from)
	return func(v ssa.Value) Val {
		if p, ok := v.(*ssa.Phi); ok && p.Block() == h {
			return st.val(f, p.Edges[k])
		}
		return st.val(f, v)
	}
}

// havocLoop makes st the start of an arbitrary iteration.
func (e *Engine) havocLoop(st *State, f *Frame, h *ssa.BasicBlock, w *wset, entry map[ssa.Value]Val, cands []*cand, fr uint64) {
	c := e.C
	e.bumpRefs()
	phis := headPhis(h)
	for _, p := range phis {
		nm := p.Comment
		if nm == "" {
			nm = p.Name()
		}
		// a phi that never changes keeps its value
		v := e.symbolic(p.Type(), c.FreshName("L."+nm), false)
		f.env[p] = v
		st.refBound(p.Type(), v)
		st.assumeAll(e.typeFacts(p.Type(), v))
	}
	n := len(st.writes)
	var ks []memKey
	for k := range w.keys {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool {
		return ks[i].root < ks[j].root || ks[i].root == ks[j].root && ks[i].path < ks[j].path
	})
	for _, k := range ks {
		we := w.keys[k]
		if we.all {
			st.havocAllKey(k, we.leaf)
			continue
		}
		if we.fresh {
			e.nodeN++
			st.mem[k] = e.node(Node{kind: nHavocNew, prev: e.memNode(st.mem, k, we.leaf), ref: c.BV(fr, wRef), uf: fmt.Sprintf("N%d:%s|%s", e.nodeN, k.root, k.path)})
		}
		for _, r := range we.order {
			x := we.refs[r]
			idx := x.idx
			if idx == nil {
				idx = c.BV(0, 64)
			}
			st.havocKey(k, we.leaf, x.ref, idx, x.n, "l")
		}
	}
	st.writes = st.writes[:n]
	f.block, f.prev = h, nil
	f.pc = len(phis)
	get := func(v ssa.Value) Val { return st.val(f, v) }
	for _, cd := range cands {
		if !cd.dead {
			st.adopt(func() (*T, []*T) { return cd.eval(st, get), nil })
		}
	}
}

// ---- candidates

func (e *Engine) candidates(st *State, f *Frame, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, entry map[ssa.Value]Val) []*cand {
	c := e.C
	var out []*cand
	out = append(out, e.templateCands(st, f, h, entry)...)
	phis := headPhis(h)
	outside := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Parameter, *ssa.FreeVar:
			return true
		}
		in, ok := v.(ssa.Instruction)
		return ok && !body[in.Block()]
	}
	for _, p := range phis {
		p := p
		nm := p.Comment
		if nm == "" {
			nm = p.Name()
		}
		e0 := entry[p]
		switch {
		case isInt(p.Type()):
			s := isSigned(p.Type())
			le := func(a, b *T) *T {
				if s {
					return c.Sle(a, b)
				}
				return c.Ule(a, b)
			}
			out = append(out,
				&cand{name: nm + " not below its initial value", eval: func(st *State, g func(ssa.Value) Val) *T { return le(e0[0], g(p)[0]) }},
				&cand{name: nm + " not above its initial value", eval: func(st *State, g func(ssa.Value) Val) *T { return le(g(p)[0], e0[0]) }})
			seen := map[ssa.Value]bool{}
			for b := range body {
				for _, in := range b.Instrs {
					bo, ok := in.(*ssa.BinOp)
					if !ok || (bo.Op != token.LSS && bo.Op != token.LEQ && bo.Op != token.GTR && bo.Op != token.GEQ && bo.Op != token.NEQ && bo.Op != token.EQL) {
						continue
					}
					for _, y := range []ssa.Value{bo.X, bo.Y} {
						if seen[y] || !outside(y) || !types.Identical(y.Type().Underlying(), p.Type().Underlying()) {
							continue
						}
						seen[y] = true
						y := y
						out = append(out,
							&cand{name: nm + " <= " + y.Name(), eval: func(st *State, g func(ssa.Value) Val) *T { return le(g(p)[0], g(y)[0]) }},
							&cand{name: nm + " < " + y.Name(), eval: func(st *State, g func(ssa.Value) Val) *T { return c.Not(le(g(y)[0], g(p)[0])) }},
							&cand{name: nm + " >= " + y.Name(), eval: func(st *State, g func(ssa.Value) Val) *T { return le(g(y)[0], g(p)[0]) }})
					}
				}
			}
		default:
			switch p.Type().Underlying().(type) {
			case *types.Slice:
				out = append(out, sliceCands(c, nm, e0, func(st *State, g func(ssa.Value) Val) Val { return g(p) })...)
			case *types.Interface:
				out = append(out, &cand{name: nm + " unchanged", eval: func(st *State, g func(ssa.Value) Val) *T {
					v := g(p)
					r := c.True
					for i := range v {
						r = c.And(r, c.Eq(v[i], e0[i]))
					}
					return r
				}})
			case *types.Pointer:
				out = append(out, &cand{name: nm + " not nil", eval: func(st *State, g func(ssa.Value) Val) *T { return c.Ne(g(p)[1], c.BV(0, wRef)) }})
			}
		}
	}
	return out
}

func sliceCands(c *smt.Ctx, nm string, e0 Val, get func(st *State, g func(ssa.Value) Val) Val) []*cand {
	var out []*cand
	add := func(n string, f func(v Val) *T) {
		out = append(out, &cand{name: nm + " " + n, eval: func(st *State, g func(ssa.Value) Val) *T { return f(get(st, g)) }})
	}
	add("same array", func(v Val) *T { return c.Eq(v[0], e0[0]) })
	add("starts no earlier", func(v Val) *T { return c.Ule(e0[1], v[1]) })
	add("same end", func(v Val) *T { return c.Eq(c.Add(v[1], v[2]), c.Add(e0[1], e0[2])) })
	add("same capacity end", func(v Val) *T { return c.Eq(c.Add(v[1], v[3]), c.Add(e0[1], e0[3])) })
	add("same length", func(v Val) *T { return c.Eq(v[2], e0[2]) })
	add("no shorter", func(v Val) *T { return c.Ule(e0[2], v[2]) })
	return out
}

// memCandidates relate single changed cells to their value at loop entry.
func (e *Engine) memCandidates(mem0 Mem, w *wset) []*cand {
	c := e.C
	var out []*cand
	var ks []memKey
	for k := range w.keys {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool {
		return ks[i].root < ks[j].root || ks[i].root == ks[j].root && ks[i].path < ks[j].path
	})
	for _, k := range ks {
		we := w.keys[k]
		if we.all || k.root == "uint8" {
			continue
		}
		for _, r := range we.order {
			x := we.refs[r]
			if x.n == nil || !x.n.IsConst() || x.n.Val != 1 {
				continue
			}
			k, x, l := k, x, we.leaf
			v0 := e.read(e.memNode(mem0, k, l), x.ref, x.idx)
			rd := func(st *State) *T { return e.read(e.memNode(st.mem, k, l), x.ref, x.idx) }
			nm := short(k.root) + k.path
			out = append(out, &cand{name: nm + " unchanged", eval: func(st *State, g func(ssa.Value) Val) *T { return c.Eq(rd(st), v0) }})
			if l.W > 0 && l.Kind != KTag && l.Kind != KPath && l.Kind != KFn && l.Kind != KRef && l.Kind != KIRef && l.Kind != KSRef {
				out = append(out,
					&cand{name: nm + " not below its entry value", eval: func(st *State, g func(ssa.Value) Val) *T { return c.Ule(v0, rd(st)) }},
					&cand{name: nm + " not above its entry value", eval: func(st *State, g func(ssa.Value) Val) *T { return c.Ule(rd(st), v0) }})
			}
			// slice headers in memory
			if strings.HasSuffix(k.path, ".o") {
				base := strings.TrimSuffix(k.path, ".o")
				kl := memKey{k.root, base + ".l"}
				if wl := w.keys[kl]; wl != nil && wl.refs[r] != nil {
					l0 := e.read(e.memNode(mem0, kl, wl.leaf), x.ref, x.idx)
					out = append(out, &cand{name: short(k.root) + base + " same end", eval: func(st *State, g func(ssa.Value) Val) *T {
						return c.Eq(c.Add(rd(st), e.read(e.memNode(st.mem, kl, wl.leaf), x.ref, x.idx)), c.Add(v0, l0))
					}})
				}
				kc := memKey{k.root, base + ".c"}
				if wl := w.keys[kc]; wl != nil && wl.refs[r] != nil {
					l0 := e.read(e.memNode(mem0, kc, wl.leaf), x.ref, x.idx)
					out = append(out, &cand{name: short(k.root) + base + " same capacity end", eval: func(st *State, g func(ssa.Value) Val) *T {
						return c.Eq(c.Add(rd(st), e.read(e.memNode(st.mem, kc, wl.leaf), x.ref, x.idx)), c.Add(v0, l0))
					}})
				}
			}
		}
	}
	return out
}

// templates that may apply to loop h of the current frame.
func (e *Engine) templates(f *Frame, h *ssa.BasicBlock) []Inv {
	return e.clausesFor(e.P.Invs, f)
}

func (e *Engine) clausesFor(l []Inv, f *Frame) []Inv {
	var out []Inv
	fn := f.fn
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	k := funcKey(fn)
	for _, iv := range l {
		if g := iv.Opts["group"]; g != "" && g != e.group {
			continue
		}
		if iv.Target == "*" || iv.Target == k || (iv.Target == e.Target && !e.isSpecFn(fn)) {
			out = append(out, iv)
		}
	}
	return out
}

type binding func(st *State, get func(ssa.Value) Val) Val

// bindings finds the values a template parameter may stand for.
func (e *Engine) bindings(st *State, f *Frame, h *ssa.BasicBlock, entry map[ssa.Value]Val, name string, t types.Type) (named, typed []binding) {
	same := func(u types.Type) bool { return types.Identical(u, t) }
	val := func(v ssa.Value) binding {
		return func(st *State, get func(ssa.Value) Val) Val { return get(v) }
	}
	seen := map[ssa.Value]bool{}
	for _, p := range headPhis(h) {
		if !same(p.Type()) {
			continue
		}
		if p.Comment == name {
			named = append(named, val(p))
		}
		if p.Comment+"0" == name {
			e0 := entry[p]
			named = append(named, func(*State, func(ssa.Value) Val) Val { return e0 })
		}
		typed = append(typed, val(p))
		seen[p] = true
	}
	for _, p := range f.fn.Params {
		if !same(p.Type()) {
			continue
		}
		if p.Name() == name {
			named = append(named, val(p))
		}
		typed = append(typed, val(p))
		seen[p] = true
	}
	for _, b := range f.fn.Blocks {
		if !b.Dominates(h) || b == h {
			continue
		}
		for _, in := range b.Instrs {
			switch i := in.(type) {
			case *ssa.DebugRef:
				if i.IsAddr || seen[i.X] || !same(i.X.Type()) {
					continue
				}
				if _, ok := f.env[i.X]; !ok {
					continue
				}
				o := i.Object()
				if o != nil && o.Name() == name {
					named = append(named, val(i.X))
				}
				seen[i.X] = true
				typed = append(typed, val(i.X))
			case *ssa.Alloc:
				pt := i.Type().(*types.Pointer).Elem()
				if !same(pt) {
					continue
				}
				if _, ok := f.env[i]; !ok {
					continue
				}
				i2 := i
				bd := func(st *State, get func(ssa.Value) Val) Val { return st.load(pt, get(i2)) }
				if i.Comment == name {
					named = append(named, bd)
				}
				typed = append(typed, bd)
			}
		}
	}
	// parameters of the function under verification
	if len(st.frames) > 1 {
		g := st.frames[0]
		for _, p := range g.fn.Params {
			if same(p.Type()) {
				v := g.env[p]
				bd := func(*State, func(ssa.Value) Val) Val { return v }
				if p.Name() == name && len(named) == 0 {
					named = append(named, bd)
				}
				typed = append(typed, bd)
			}
		}
	}
	if len(named) > 1 {
		named = named[len(named)-1:]
		// the innermost definition wins; phis come first
	}
	return
}

func (e *Engine) bindClause(st *State, f *Frame, h *ssa.BasicBlock, entry map[ssa.Value]Val, iv Inv) []*cand {
	var opts [][]binding
	total := 1
	for _, p := range iv.Fn.Params {
		// phis take precedence over other definitions of the same name
		var phiNamed []binding
		for _, ph := range headPhis(h) {
			if ph.Comment == p.Name() && types.Identical(ph.Type(), p.Type()) {
				ph := ph
				phiNamed = append(phiNamed, func(st *State, get func(ssa.Value) Val) Val { return get(ph) })
			}
		}
		n, t := e.bindings(st, f, h, entry, p.Name(), p.Type())
		switch {
		case len(phiNamed) > 0:
			opts = append(opts, phiNamed)
		case len(n) > 0:
			opts = append(opts, n)
		default:
			if len(t) == 0 {
				return nil
			}
			if len(t) > 6 {
				t = t[:6]
			}
			opts = append(opts, t)
		}
		total *= len(opts[len(opts)-1])
		if total > 64 {
			return nil
		}
	}
	var out []*cand
	idx := make([]int, len(opts))
	for {
		bs := make([]binding, len(opts))
		for i := range opts {
			bs[i] = opts[i][idx[i]]
		}
		out = append(out, &cand{name: iv.Name, spec: true, eval: func(st *State, get func(ssa.Value) Val) *T {
			var args []Val
			for _, b := range bs {
				args = append(args, b(st, get))
			}
			t, fs := e.evalClause(st.eqs, iv.Clause, st.mem, st.old, st.acq, args)
			st.assumeAll(fs)
			return t
		}})
		i := 0
		for ; i < len(idx); i++ {
			idx[i]++
			if idx[i] < len(opts[i]) {
				break
			}
			idx[i] = 0
		}
		if i == len(idx) {
			break
		}
	}
	return out
}

func (e *Engine) templateCands(st *State, f *Frame, h *ssa.BasicBlock, entry map[ssa.Value]Val) []*cand {
	var out []*cand
	for _, iv := range e.templates(f, h) {
		out = append(out, e.bindClause(st, f, h, entry, iv)...)
	}
	return out
}

func (e *Engine) stepClauses(f *Frame, h *ssa.BasicBlock) []*cand {
	return nil
}
