package eng

import (
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"

	"gov/smt"
)

// Target is one unit of verification.
type Target struct {
	Name  string
	Con   *Contract
	Lemma *Lemma
	Pool  *PoolSpec
	// Patience multiplies the time limits of single queries.
	Patience int
	// group: the postconditions to be proved, with their own hints.
	group string
}

// join adds the outcome for another group of postconditions.
func (r *Result) join(s *Result) {
	has := map[string]bool{}
	for _, o := range r.Obls {
		has[o.Name] = true
	}
	for _, o := range s.Obls {
		if !has[o.Name] {
			r.Obls = append(r.Obls, o)
		}
	}
	if r.Err == "" {
		r.Err = s.Err
	}
	for _, m := range []struct{ to, from map[string]bool }{{r.Used, s.Used}, {r.Models, s.Models}, {r.Inlined, s.Inlined}} {
		for k := range m.from {
			m.to[k] = true
		}
	}
	for k, v := range s.Props {
		r.Props[k] = v
	}
	r.Paths += s.Paths
	r.Queries += s.Queries
	r.Solve += s.Solve
	r.Cases = append(r.Cases, s.Cases...)
}

// Result of one target.
type Result struct {
	Target  string
	Obls    []*Obligation
	Props   map[string][]string
	Err     string
	Used    map[string]bool
	Models  map[string]bool
	Inlined map[string]bool
	Paths   int
	Queries int
	Solve   time.Duration
	Wall    time.Duration
	Cases   []ModelCase
}

// Verify decides one target.
func Verify(p *Program, pool *smt.Pool, t Target, limit time.Duration, verbose bool) *Result {
	var r *Result
	start := time.Now()
	groups := []string{""}
	if t.Con != nil {
		for _, en := range t.Con.Ensures {
			if g := en.Opts["group"]; g != "" && groups[len(groups)-1] != g {
				groups = append(groups, g)
			}
		}
	}
	rs := make([]*Result, len(groups))
	var wg sync.WaitGroup
	for i, g := range groups {
		t := t
		t.group = g
		wg.Add(1)
		go func() {
			defer wg.Done()
			modes := map[*ssa.BasicBlock]int{}
			for k := 0; k < 12; k++ {
				var again bool
				rs[i], again = verifyOnce(p, pool, t, start.Add(limit), modes, verbose)
				if !again {
					break
				}
			}
		}()
	}
	wg.Wait()
	for i, s := range rs {
		if i == 0 {
			r = s
			continue
		}
		r.join(s)
	}
	r.Wall = time.Since(start)
	return r
}

func verifyOnce(p *Program, pool *smt.Pool, t Target, deadline time.Time, modes map[*ssa.BasicBlock]int, verbose bool) (res *Result, again bool) {
	e := NewEngine(p, pool)
	e.Deadline = deadline
	e.loopMode = modes
	e.Verbose = verbose
	e.candMS = 5000
	e.group = t.group
	if t.Patience > 1 {
		e.candMS *= t.Patience
		e.Full *= t.Patience
	}
	res = &Result{Target: t.Name}
	fill := func() {
		func() {
			defer func() {
				if x := recover(); x != nil {
					res.Err = fmt.Sprint("solver: ", x)
				}
			}()
			e.mute = 0
			e.settle(0)
		}()
		res.Obls, res.Used, res.Models, res.Inlined, res.Paths, res.Queries, res.Solve, res.Props, res.Cases = e.Obls, e.Used, e.Models, e.Inlined, e.Paths, e.Queries, e.SolveTime, e.OblProps, e.Cases
	}
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(restart); !ok {
				fill()
			}
			switch a := x.(type) {
			case abort:
				res.Err = a.msg
			case restart:
				again = true
				res.Err = "restarted: " + a.why
			default:
				res.Err = fmt.Sprintf("internal error: %v", x)
				if verbose {
					fmt.Fprintf(os.Stderr, "%v\n%s\n", x, debug.Stack())
				}
			}
		}
	}()
	switch {
	case t.Con != nil:
		e.verifyContract(t.Con)
	case t.Lemma != nil && t.Lemma.Of != nil:
		e.verifyFact(t.Lemma)
	case t.Lemma != nil:
		e.verifyLemma(t.Lemma)
	case t.Pool != nil:
		e.verifyPool(t.Pool)
	}
	fill()
	if e.Paths == 0 {
		res.Err = "no path explored"
	}
	return res, false
}

func (e *Engine) params(st *State, fn *ssa.Function) []Val {
	var args []Val
	for _, p := range fn.Params {
		v := e.symbolic(p.Type(), "p."+p.Name(), true)
		st.assumeAll(e.typeFacts(p.Type(), v))
		args = append(args, v)
		e.Inputs = append(e.Inputs, InputVar{p.Name(), p.Type(), v})
	}
	return args
}

func (e *Engine) verifyContract(con *Contract) {
	fn := con.Fn
	c := e.C
	e.Target = con.Key
	e.self = fn
	e.selfCon = con
	for i, cls := range [][]Clause{con.Requires, con.Ensures, con.Modifies, con.Grows, con.Panics} {
		for _, cl := range cls {
			if cl.Opts["group"] == e.group || cl.Opts["group"] == "" && i != 1 {
				e.reveal(cl.Opts)
			}
		}
	}
	st := e.newState()
	args := e.params(st, fn)
	e.cutKey, e.cutArgs = funcKey(fn), args
	if name := con.Opts["alloc"]; name != "" {
		// memory reserved is bounded by the size of an argument
		params := fn.Params
		for _, cl := range con.Ensures {
			if cl.Opts["alloc"] == name {
				params = cl.Fn.Params[:len(params)]
			}
		}
		for i, p := range params {
			if p.Name() == name && isSliceOf(p.Type()) {
				n := c.AddK(c.Zext(args[i][2], 64), 64)
				e.AllocLimit = func(*State) *T { return n }
			}
		}
		if k, err := strconv.ParseInt(name, 10, 64); err == nil {
			n := c.BV(uint64(k), 64)
			e.AllocLimit = func(*State) *T { return n }
		}
		if e.AllocLimit == nil {
			e.fail("no argument %s bounds the memory of %s", name, con.Key)
		}
	}
	if fn.Signature.Recv() != nil {
		if _, ok := fn.Signature.Recv().Type().Underlying().(*types.Pointer); ok {
			st.assume(c.Ne(args[0][1], c.BV(0, wRef)))
		}
	}
	if con.Recv != nil {
		args = append([]Val{append(Val{e.tag(con.Recv)}, args[0]...)}, args[1:]...)
		e.cutArgs = args
	}
	for _, r := range con.Requires {
		st.adopt(func() (*T, []*T) { return e.evalClause(st.eqs, r, st.mem, st.mem, nil, args) })
	}
	if con.Of != nil && (st.dead || !st.feasible()) {
		e.record(con.Key+" is ruled out by the preconditions", "", "proved", "solver", "")
		e.Paths++
		return
	}
	if st.dead || !st.feasible() {
		e.record("preconditions of "+con.Key+" are satisfiable", "", "failed", "", "")
		return
	}
	e.record("preconditions of "+con.Key+" are satisfiable", "", "proved", "solver", "")
	st.old = st.mem.clone()
	st.mayPanic = con.MayPanic
	e.selfRegions = e.modRegions(con.Modifies, st.mem, args)
	returned := 0
	clArgs := args
	x := &explorer{e: e}
	x.done = func(st *State, res Val, panicked bool) {
		args := clArgs
		if panicked {
			if con.MayPanic {
				for _, en := range con.Panics {
					nm := "postcondition " + en.Name + " of " + con.Key + " when it panics"
					if len(en.Props) > 0 {
						e.tagObl(nm, en.Props...)
					}
					t, fs := e.evalClause(st.eqs, en, st.mem, st.old, st.acq, args)
					st.assumeAll(fs)
					st.check(t, nm, e.posStr(fn.Pos()), "")
				}
				e.frameCheck(st, 0)
				return
			}
			st.check(c.False, "no panic: panic escapes "+con.Key+" ("+st.panicI+")", "", "")
			return
		}
		returned++
		all := append([]Val{}, args...)
		rs := fn.Signature.Results()
		for i := 0; i < rs.Len(); i++ {
			o, n := tupleOffset(rs, i)
			all = append(all, res[o:o+n])
		}
		for _, en := range con.Ensures {
			if en.Opts["group"] != e.group {
				continue
			}
			nm := "postcondition " + en.Name + " of " + con.Key
			if len(en.Props) > 0 {
				e.tagObl(nm, en.Props...)
			}
			t, fs := e.evalClause(st.eqs, en, st.mem, st.old, st.acq, all)
			st.assumeAll(fs)
			st.check(t, nm, e.posStr(fn.Pos()), "")
		}
		for _, g := range con.Grows {
			p := &pure{e: e, mem: st.old, old: st.old, acq: st.acq}
			ptr := p.call(g.Fn, nil, args[:len(g.Fn.Params)])
			st.assumeAll(p.facts)
			t := g.Fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
			was, now := e.loadMem(st.old, t, ptr), e.loadMem(st.mem, t, ptr)
			same := c.True
			for i := range was {
				if i == 2 && g.Opts["append"] != "" {
					continue
				}
				same = c.And(same, c.Eq(was[i], now[i]))
			}
			st.check(c.Or(same, c.And(c.Ule(c.BV(freshRef0, wRef), now[0]), c.Ult(now[0], c.BV(globalRef0, wRef)))), "postcondition "+g.Name+" of "+con.Key, e.posStr(fn.Pos()), "")
		}
		if con.Fresh {
			off := 0
			e.walkPtrs(rs, func(et types.Type, at int, kind byte) {
				if kind == 'p' {
					r := res[at+1]
					st.check(c.And(c.Ule(c.BV(freshRef0, wRef), r), c.Ult(r, c.BV(globalRef0, wRef))), "result of "+con.Key+" is a new object", "", "")
				}
				if impl := ifaceImpls(e, et, kind); impl != nil {
					is := c.False
					for _, dt := range impl {
						is = c.Or(is, c.Eq(res[at], e.tag(dt)))
					}
					r := res[at+2]
					st.check(c.Or(c.Eq(res[at], c.BV(0, wTag)), c.And(is, c.Eq(res[at+3], c.BV(0, 64)), c.Ule(c.BV(freshRef0, wRef), r), c.Ult(r, c.BV(globalRef0, wRef)))), "result of "+con.Key+" is a new object", "", "")
				}
				if kind == 's' {
					r := res[at]
					st.check(c.Or(c.Eq(res[at+2], c.BV(0, 64)), c.And(c.Ule(c.BV(freshRef0, wRef), r), c.Ult(r, c.BV(globalRef0, wRef)))), "result of "+con.Key+" is a new object", "", "")
				}
			}, &off)
		}
		e.frameCheck(st, 0)
		st.check(c.Bool(len(st.held) == 0), "locks are released when "+con.Key+" returns", "", "")
	}
	st.x = x
	if con.Recv != nil {
		args = append([]Val{args[0][1:]}, args[1:]...)
	}
	st.pushFrame(fn, args, nil, nil)
	x.push(st)
	x.run()
	if returned == 0 && con.Opts["returns"] != "no" {
		e.record(con.Key+" can return", "", "failed", "exploration", "no path returns: the contracts it relies on may be contradictory")
	}
}

// frameCheck: everything written since record from is covered by the modifies
// clauses.
func (e *Engine) frameCheck(st *State, from int) {
	c := e.C
	if e.mute > 0 || e.selfCon == nil {
		return
	}
	nm := "frame: " + e.Target + " only changes what it declares"
	done := map[string]bool{}
	for _, w := range st.writes[min(from, len(st.writes)):] {
		if w.key.root == "§signals" || w.key.root == "§wrap" {
			continue
		}
		if w.ref != nil && w.ref.IsConst() && w.ref.Val >= freshRef0 && w.ref.Val < globalRef0 {
			continue
		}
		id := fmt.Sprintf("%v|%p|%p|%p", w.key, w.ref, w.idx, w.n)
		if done[id] {
			continue
		}
		done[id] = true
		if w.ref == nil {
			st.check(c.False, nm, "", "all of "+w.key.root+w.key.path)
			continue
		}
		ok := c.And(c.Ule(c.BV(freshRef0, wRef), w.ref), c.Ult(w.ref, c.BV(globalRef0, wRef)))
		if w.n != nil {
			ok = c.Or(ok, c.Eq(w.n, c.BV(0, 64)))
		}
		for _, r := range e.selfRegions {
			match := false
			for _, k := range r.keys {
				if k == w.key {
					match = true
				}
			}
			if !match {
				continue
			}
			t := c.And(r.cond, c.Eq(w.ref, r.ref))
			if r.n != nil {
				if w.n == nil {
					continue
				}
				d := c.Sub(w.idx, r.idx)
				t = c.And(t, c.Ule(d, r.n), c.Ule(w.n, c.Sub(r.n, d)))
			}
			ok = c.Or(ok, t)
		}
		st.check(ok, nm, "", " write to "+short(w.key.root)+w.key.path+" ")
	}
}

func (e *Engine) verifyLemma(l *Lemma) {
	fn := l.Fn
	e.Target = "lemma " + l.Name
	e.Lemma = l.Name
	e.reveal(l.Opts)
	for _, k := range strings.Split(l.Opts["inline"], ",") {
		if k != "" {
			e.NoContract[short(fn.Pkg.Pkg.Path())+"."+k] = true
			e.NoContract[strings.Replace(k, "(*", "(*"+short(fn.Pkg.Pkg.Path())+".", 1)] = true
		}
	}
	st := e.newState()
	args := e.params(st, fn)
	e.cutKey, e.cutArgs = funcKey(fn), args
	st.old = st.mem.clone()
	x := &explorer{e: e}
	ended := 0
	x.done = func(st *State, res Val, panicked bool) {
		if panicked {
			st.check(e.C.False, "no panic: "+st.panicI+" in "+l.Name, "", "")
			return
		}
		ended++
	}
	st.x = x
	st.pushFrame(fn, args, nil, nil)
	x.push(st)
	x.run()
	s := "proved"
	if ended == 0 {
		s = "failed"
	}
	e.record("lemma "+l.Name+" is not vacuous", "", s, "exploration", "")
}

// verifyFact: a fact about an opaque function follows from its body.
func (e *Engine) verifyFact(l *Lemma) {
	e.Target = "fact " + l.Name
	e.reveal(l.Opts)
	e.Reveal[l.Of.Name()] = true
	st := e.newState()
	args := e.params(st, l.Of)
	p := &pure{e: e, mem: st.mem, old: st.mem}
	var v Val
	if e.P.Rec[l.Of] {
		// by induction: the fact holds for the calls that the body makes
		env := &penv{fn: l.Of, vals: map[ssa.Value]Val{}, cells: map[cellKey]*T{}, n: map[*ssa.BasicBlock]int{}}
		for i, pr := range l.Of.Params {
			env.vals[pr] = args[i]
		}
		v = p.block(env, l.Of.Blocks[0], nil)
	} else {
		v = p.call(l.Of, nil, args)
	}
	args = append(args, v)
	t := p.call(l.Fn, nil, args)
	st.assumeAll(p.facts)
	e.Paths++
	st.check(t[0], "fact "+l.Name+" holds", e.posStr(l.Fn.Pos()), "")
}

func (e *Engine) reveal(opts map[string]string) {
	for _, k := range strings.Split(opts["hide"], ",") {
		if k != "" {
			e.Hide[k] = true
		}
	}
	for _, k := range strings.Split(opts["reveal"], ",") {
		if k != "" {
			e.Reveal[k] = true
		}
	}
}

// verifyPool: the pool's New function establishes the pool invariant.
func (e *Engine) verifyPool(ps *PoolSpec) {
	e.Target = "pool " + ps.Global
	newFn := e.P.poolNew(ps.Global)
	if newFn == nil {
		e.fail("constructor of pool %s not found", ps.Global)
	}
	st := e.newState()
	x := &explorer{e: e}
	x.done = func(st *State, res Val, panicked bool) {
		if panicked {
			st.check(e.C.False, "no panic in the constructor of pool "+ps.Global, "", "")
			return
		}
		pt := ps.Inv.Signature.Params().At(0).Type()
		nm := "constructor of pool " + ps.Global + " yields a valid object"
		st.check(e.C.Eq(res[0], e.tag(pt)), nm, e.posStr(newFn.Pos()), "")
		v := e.unbox(st.mem, pt, res)
		st.check(e.C.Ne(v[1], e.C.BV(0, wRef)), nm, "", "")
		t, fs := e.evalClause(st.eqs, Clause{Name: "poolinv", Fn: ps.Inv}, st.mem, st.mem, nil, []Val{v})
		st.assumeAll(fs)
		st.check(t, nm, e.posStr(newFn.Pos()), "")
	}
	st.x = x
	st.old = st.mem.clone()
	st.pushFrame(newFn, nil, nil, nil)
	x.push(st)
	x.run()
}

// poolNew finds the function stored in the New field of a pool variable.
func (p *Program) poolNew(global string) *ssa.Function {
	for _, s := range p.SSAPkgs {
		ini := s.Func("init")
		if ini == nil {
			continue
		}
		fns := []*ssa.Function{ini}
		for _, f := range fns {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					st, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					fa, ok := st.Addr.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					g, _ := fa.X.(*ssa.Global)
					if l, ok := fa.X.(*ssa.Alloc); ok && l.Referrers() != nil {
						// a composite literal copied to the variable
						for _, r := range *l.Referrers() {
							if ld, ok := r.(*ssa.UnOp); ok && ld.Referrers() != nil {
								for _, q := range *ld.Referrers() {
									if s2, ok := q.(*ssa.Store); ok {
										if g2, ok := s2.Addr.(*ssa.Global); ok {
											g = g2
										}
									}
								}
							}
						}
					}
					if g == nil || short(g.RelString(nil)) != global {
						continue
					}
					switch v := st.Val.(type) {
					case *ssa.Function:
						return v
					case *ssa.MakeClosure:
						return v.Fn.(*ssa.Function)
					}
				}
			}
		}
	}
	return nil
}

// Targets returns the units to verify for property prop.
func (p *Program) Targets(prop string) []Target {
	var out []Target
	has := func(l []string) bool {
		for _, x := range l {
			if x == prop {
				return true
			}
		}
		return false
	}
	for _, l := range p.Lemmas {
		if has(l.Props) {
			out = append(out, Target{Name: "lemma " + l.Name, Lemma: l})
		}
	}
	for _, k := range sortedKeys(p.Contracts) {
		con := p.Contracts[k]
		tagged := false
		for _, cls := range [][]Clause{con.Requires, con.Ensures, con.Modifies, con.Grows, con.Panics} {
			for _, cl := range cls {
				if has(cl.Props) {
					tagged = true
				}
			}
		}
		if tagged && !con.Abstract {
			out = append(out, Target{Name: con.Key, Con: con})
		}
		if tagged {
			for _, m := range p.concretes(con) {
				out = append(out, Target{Name: m.Key, Con: m})
			}
		}
	}
	for _, k := range sortedKeys(p.Pools) {
		if prop == "C12" {
			out = append(out, Target{Name: "pool " + k, Pool: p.Pools[k]})
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].Name < out[j].Name })
	return out
}

// Closure lists the further targets that r relied on.
func (p *Program) Closure(r *Result) []Target {
	var out []Target
	for _, k := range sortedKeys(r.Used) {
		if con := p.Contracts[k]; con != nil && !con.Abstract {
			out = append(out, Target{Name: con.Key, Con: con})
		}
		if con := p.Contracts[k]; con != nil {
			for _, m := range p.concretes(con) {
				out = append(out, Target{Name: m.Key, Con: m})
			}
		}
		if strings.HasPrefix(k, "fact ") {
			for _, l := range p.Facts {
				if "fact "+l.Name == k {
					out = append(out, Target{Name: k, Lemma: l})
				}
			}
		}
		if strings.HasPrefix(k, "pool ") {
			g := strings.TrimPrefix(k, "pool ")
			if ps := p.Pools[g]; ps != nil {
				out = append(out, Target{Name: k, Pool: ps})
			}
		}
	}
	return out
}
