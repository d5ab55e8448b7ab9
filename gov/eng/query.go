package eng

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"time"

	"gov/smt"
)

// slowDir receives slow queries when debugging the verifier itself.
var slowDir = os.Getenv("GOV_SLOW")
var slowN int
var profQ = os.Getenv("GOV_PROF") != ""

type polKey struct {
	t   *T
	pos bool
}

// skolem pushes quantifiers into positive positions: universal facts stay,
// existential ones are replaced by fresh constants.
func (e *Engine) skolem(t *T, pos bool, memo map[polKey]*T) *T {
	if !t.HasQ {
		return t
	}
	k := polKey{t, pos}
	if r, ok := memo[k]; ok {
		return r
	}
	c := e.C
	var r *T
	switch t.Op {
	case smt.OpForall:
		if pos {
			body := e.skolem(t.Args[1], pos, memo)
			r = c.Forall(t.Args[0], body)
		} else {
			sk := c.Var(fmt.Sprintf("sk!%d", t.ID), t.Args[0].W)
			r = e.skolem(c.Subst(t.Args[1], t.Args[0], sk), pos, memo)
		}
	case smt.OpNot:
		r = c.Not(e.skolem(t.Args[0], !pos, memo))
	case smt.OpAnd, smt.OpOr:
		as := make([]*T, len(t.Args))
		for i, a := range t.Args {
			as[i] = e.skolem(a, pos, memo)
		}
		if t.Op == smt.OpAnd {
			r = c.And(as...)
		} else {
			r = c.Or(as...)
		}
	case smt.OpIte:
		if t.W == 0 {
			r = e.skolem(c.And(c.Or(c.Not(t.Args[0]), t.Args[1]), c.Or(t.Args[0], t.Args[2])), pos, memo)
		} else {
			r = c.Var(fmt.Sprintf("qabs!%d", t.ID), t.W)
		}
	case smt.OpEq:
		r = e.skolem(c.And(c.Or(c.Not(t.Args[0]), t.Args[1]), c.Or(t.Args[0], c.Not(t.Args[1]))), pos, memo)
	default:
		r = c.Var(fmt.Sprintf("qabs!%d", t.ID), t.W)
	}
	memo[k] = r
	return r
}

type appIdx struct {
	apps  map[string][]*T
	seen  map[*T]bool
	order []*T
	sks   map[int][]*T
}

func (x *appIdx) collect(t *T, onQ func(*T)) {
	if x.seen[t] {
		return
	}
	x.seen[t] = true
	if t.Op == smt.OpForall {
		if onQ != nil {
			onQ(t)
		}
		return
	}
	for _, a := range t.Args {
		x.collect(a, onQ)
	}
	if t.Op == smt.OpApp && !t.Bnd {
		x.apps[t.Name] = append(x.apps[t.Name], t)
		x.order = append(x.order, t)
	}
	if t.Op == smt.OpVar {
		x.order = append(x.order, t)
	}
	if t.Op == smt.OpVar && strings.HasPrefix(t.Name, "sk!") {
		x.sks[t.W] = append(x.sks[t.W], t)
	}
}

type pattern struct {
	name string
	arg  int
	off  *T // arg = q + off
	zw   int
}

// patterns of a quantifier body: applications whose argument is q + t.
func (e *Engine) patterns(q *T) []pattern {
	b := q.Args[0]
	var out []pattern
	seen := map[*T]bool{}
	var rec func(t *T)
	rec = func(t *T) {
		if !t.Bnd || seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.Args {
			rec(a)
		}
		if t.Op != smt.OpApp {
			return
		}
		for i, a := range t.Args {
			if !a.Bnd {
				continue
			}
			if a == b {
				out = append(out, pattern{t.Name, i, e.C.BV(0, b.W), 0})
				continue
			}
			d := e.C.Sub(a, b)
			if a.W == b.W && !d.Bnd {
				out = append(out, pattern{t.Name, i, d, 0})
			}
		}
	}
	rec(q.Args[1])
	return out
}

// ground turns assertions into quantifier free ones (weaker or equal).
func (e *Engine) ground(as []*T) []*T {
	c := e.C
	memo := map[polKey]*T{}
	var out []*T
	for _, a := range as {
		s := e.skolem(a, true, memo)
		if s.Op == smt.OpAnd {
			out = append(out, s.Args...)
		} else {
			out = append(out, s)
		}
	}
	idx := &appIdx{apps: map[string][]*T{}, seen: map[*T]bool{}, sks: map[int][]*T{}}
	qs := map[*T]bool{}
	var qlist []*T
	onQ := func(q *T) {
		if !qs[q] {
			qs[q] = true
			qlist = append(qlist, q)
		}
	}
	for _, a := range out {
		idx.collect(a, onQ)
	}
	// axioms attached to applications
	doneAx := map[*T]bool{}
	addAx := func() bool {
		ch := false
		for i := 0; i < len(idx.order); i++ {
			t := idx.order[i]
			if doneAx[t] {
				continue
			}
			doneAx[t] = true
			for _, ax := range e.axioms[t] {
				s := e.skolem(ax, true, memo)
				out = append(out, s)
				idx.collect(s, onQ)
				ch = true
			}
		}
		return ch
	}
	for addAx() {
	}
	inst := map[*T]map[*T]*T{} // quantifier -> term -> instance
	total := 0
	for round := 0; round < 4; round++ {
		changed := false
		for qi := 0; qi < len(qlist); qi++ {
			q := qlist[qi]
			m := inst[q]
			if m == nil {
				m = map[*T]*T{}
				inst[q] = m
			}
			try := func(g *T) {
				if m[g] != nil || total > 3000 || len(m) > 400 {
					return
				}
				b := c.Subst(q.Args[1], q.Args[0], g)
				b = e.skolem(b, true, memo)
				m[g] = b
				if b.IsTrue() {
					return
				}
				total++
				idx.collect(b, onQ)
				changed = true
			}
			pats := e.patterns(q)
			if len(pats) == 0 || round == 0 {
				for _, s := range idx.sks[q.Args[0].W] {
					try(s)
				}
			}
			for _, p := range pats {
				apps := idx.apps[p.name]
				for i := 0; i < len(apps); i++ {
					a := apps[i]
					try(c.Sub(a.Args[p.arg], p.off))
				}
			}
		}
		for addAx() {
			changed = true
		}
		if !changed {
			break
		}
	}
	// substitute
	rm := map[*T]*T{}
	var rep func(t *T) *T
	rep = func(t *T) *T {
		if !t.HasQ {
			return t
		}
		if r, ok := rm[t]; ok {
			return r
		}
		var r *T
		switch t.Op {
		case smt.OpForall:
			var l []*T
			for _, b := range inst[t] {
				l = append(l, b)
			}
			sort.Slice(l, func(i, j int) bool { return l[i].ID < l[j].ID })
			rm[t] = c.True
			var l2 []*T
			for _, b := range l {
				l2 = append(l2, rep(b))
			}
			r = c.And(l2...)
		case smt.OpNot:
			r = c.Not(rep(t.Args[0]))
		case smt.OpAnd, smt.OpOr:
			as := make([]*T, len(t.Args))
			for i, a := range t.Args {
				as[i] = rep(a)
			}
			if t.Op == smt.OpAnd {
				r = c.And(as...)
			} else {
				r = c.Or(as...)
			}
		default:
			r = c.True
		}
		rm[t] = r
		return r
	}
	var fin []*T
	seen := map[*T]bool{}
	for _, a := range out {
		r := rep(a)
		if r.IsTrue() || seen[r] {
			continue
		}
		seen[r] = true
		if r.IsFalse() {
			return []*T{r}
		}
		fin = append(fin, r)
	}
	return fin
}

func keyOf(as []*T) string {
	ids := make([]int, len(as))
	for i, a := range as {
		ids[i] = a.ID
	}
	sort.Ints(ids)
	var sb strings.Builder
	for _, i := range ids {
		fmt.Fprintf(&sb, "%d,", i)
	}
	return sb.String()
}

// prepared is a query ready for the solvers.
type prepared struct {
	res   smt.Result
	be    string
	done  bool
	key   string
	body  string
	small []string // some of the assertions only: enough if unsatisfiable
	names []string
	want  []*T
}

// shifts reports whether t shifts by an amount that is not constant; such
// goals are left as they are.
func shifts(t *T, seen map[*T]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	switch t.Op {
	case smt.OpShl, smt.OpLshr, smt.OpAshr:
		if !t.Args[1].IsConst() {
			return true
		}
	}
	for _, a := range t.Args {
		if shifts(a, seen) {
			return true
		}
	}
	return false
}

func (e *Engine) prepare(as []*T, full bool, want []*T) *prepared {
	q := &prepared{want: want}
	goals := []*T{as[len(as)-1]}
	if !shifts(goals[0], map[*T]bool{}) {
		as, goals = e.reduce(as, goals[0])
	}
	g := e.ground(as)
	if len(g) == 1 && g[0].IsFalse() {
		q.res, q.be, q.done = smt.Unsat, "simplifier", true
		return q
	}
	if len(g) == 0 && want == nil {
		q.res, q.be, q.done = smt.Sat, "simplifier", true
		return q
	}
	q.key = keyOf(g)
	if want == nil {
		if r, ok := e.cache[q.key]; ok && (r != smt.Unknown || !full) {
			q.res, q.be, q.done = r, "cache", true
			return q
		}
	}
	if want == nil {
		for _, sl := range e.slice(g, goals) {
			p := smt.NewPrinter()
			for _, a := range sl {
				p.Assert(a)
			}
			q.small = append(q.small, p.String())
		}
	}
	p := smt.NewPrinter()
	for _, a := range g {
		p.Assert(a)
	}
	for _, w := range want {
		q.names = append(q.names, p.Ref(w))
	}
	q.body = p.String()
	e.Queries++
	return q
}

// clauses splits a conjunction so that parts of it can be left out.
func (e *Engine) clauses(g []*T) []*T {
	c := e.C
	var out []*T
	seen := map[*T]bool{}
	var add func(t *T, depth int)
	add = func(t *T, depth int) {
		if seen[t] || t.IsTrue() {
			return
		}
		seen[t] = true
		switch {
		case t.Op == smt.OpAnd:
			for _, a := range t.Args {
				add(a, depth)
			}
			return
		case depth > 6:
		case t.Op == smt.OpIte && t.W == 0:
			add(c.Or(c.Not(t.Args[0]), t.Args[1]), depth+1)
			add(c.Or(t.Args[0], t.Args[2]), depth+1)
			return
		case t.Op == smt.OpOr:
			for i, a := range t.Args {
				if a.Op == smt.OpAnd && len(a.Args) <= 4000 {
					rest := append(append([]*T{}, t.Args[:i]...), t.Args[i+1:]...)
					r := c.Or(rest...)
					for _, b := range a.Args {
						add(c.Or(r, b), depth+1)
					}
					return
				}
			}
		case t.Op == smt.OpNot && t.Args[0].Op == smt.OpOr:
			for _, a := range t.Args[0].Args {
				add(c.Not(a), depth)
			}
			return
		}
		out = append(out, t)
	}
	for _, t := range g {
		add(t, 0)
	}
	return out
}

// slice selects assertions that speak about the memory the goal speaks about,
// or about no memory contents at all, in growing sets.
func (e *Engine) slice(g []*T, goals []*T) [][]*T {
	apps := map[*T]map[*T]bool{}
	var appsOf func(t *T) map[*T]bool
	appsOf = func(t *T) map[*T]bool {
		if r, ok := apps[t]; ok {
			return r
		}
		var r map[*T]bool
		own := false
		if t.Op == smt.OpApp && t.W == 8 && !t.Bnd {
			r, own = map[*T]bool{t: true}, true
		}
		for _, a := range t.Args {
			s := appsOf(a)
			if len(s) == 0 {
				continue
			}
			if r == nil {
				r = s
				continue
			}
			if !own {
				n := map[*T]bool{}
				for k := range r {
					n[k] = true
				}
				r, own = n, true
			}
			for k := range s {
				r[k] = true
			}
		}
		apps[t] = r
		return r
	}
	keep := map[*T]bool{}
	for _, goal := range goals {
		for k := range appsOf(e.skolem(goal, true, map[polKey]*T{})) {
			keep[k] = true
		}
	}
	cl := e.clauses(g)
	var out [][]*T
	last := -1
	for level := 0; level < 3; level++ {
		if level > 0 {
			add := map[*T]bool{}
			for _, t := range cl {
				m := appsOf(t)
				if len(m) > 8 {
					continue
				}
				hit, all := false, true
				for k := range m {
					if keep[k] {
						hit = true
					} else {
						all = false
					}
				}
				if hit && !all {
					for k := range m {
						add[k] = true
					}
				}
			}
			for k := range add {
				keep[k] = true
			}
		}
		var l []*T
		for _, t := range cl {
			ok := true
			for k := range appsOf(t) {
				if !keep[k] {
					ok = false
					break
				}
			}
			if ok {
				l = append(l, t)
			}
		}
		if len(l) == len(cl) || len(l) == 0 {
			break
		}
		if len(l) != last {
			out = append(out, l)
		}
		last = len(l)
	}
	return out
}

type answer struct {
	res  smt.Result
	vals map[string]uint64
	be   string
	err  error
	time time.Duration
}

// goalSem bounds the obligations being decided at a time, so that each gets
// its share of the machine within its time limit.
var goalSem = make(chan struct{}, 8)

// solve runs the back ends; it may run concurrently with the engine.
func solve(pool *smt.Pool, target string, small []string, body string, names []string, ms int) (ans answer) {
	t0 := time.Now()
	sl := ""
	for i, q := range small {
		lim := 5000
		if lim > ms {
			lim = ms
		}
		ans = race(pool, q, nil, lim, 2)
		if ans.res == smt.Unsat {
			sl = fmt.Sprint("+slice", i)
			break
		}
		ans = answer{}
	}
	defer func() {
		ans.time = time.Since(t0)
		if profQ {
			fmt.Fprintf(os.Stderr, "Q %s ms=%v %.2f %s_%s%s %v %d\n", target, ms, ans.time.Seconds(), ans.res, ans.be, sl, lens(small), len(body))
		}
		if slowDir != "" && (ans.time > 2*time.Second || os.Getenv("GOV_ALL") != "") {
			slowN++
			os.WriteFile(fmt.Sprintf("%s/q%d_%s_%.1fs_%s_%s.smt2", slowDir, slowN, strings.ReplaceAll(trimDollar(target), "/", "_"), ans.time.Seconds(), ans.res, ans.be), []byte(body+"(check-sat)\n"), 0644)
			for i, q := range small {
				os.WriteFile(fmt.Sprintf("%s/q%d_small%d.smt2", slowDir, slowN, i), []byte(q+"(check-sat)\n"), 0644)
			}
		}
	}()
	if sl == "" {
		ans = race(pool, body, names, ms, smt.NBackends())
	}
	return
}

func lens(l []string) (out []int) {
	for _, s := range l {
		out = append(out, len(s))
	}
	return
}

// race: the back ends join one after the other; the first answer counts.
func race(pool *smt.Pool, body string, names []string, ms, n int) (ans answer) {
	type rr struct {
		r   smt.Result
		v   map[string]uint64
		b   string
		err error
	}
	ch := make(chan rr, n)
	stop := make(chan struct{})
	defer close(stop)
	started, got := 0, 0
	run := make(chan struct{}, n)
	start := func() {
		i := started
		started++
		go func() {
			r, v, b, err := pool.RunStop(i, body, names, ms, stop, run)
			ch <- rr{r, v, b, err}
		}()
	}
	start()
	running := 0
	var end <-chan time.Time
	if ms < 1000 {
		end = time.After(time.Duration(ms)*time.Millisecond + 200*time.Millisecond)
	}
	ans.be = "none"
	for got < n {
		var next <-chan time.Time
		if started < n && running == started {
			next = time.After(120 * time.Millisecond)
		}
		select {
		case x := <-ch:
			got++
			if x.err != nil && strings.Contains(x.err.Error(), "error") && x.b != "cvc5-int" {
				ans.err = x.err
			}
			if x.r != smt.Unknown {
				ans.res, ans.vals, ans.be, ans.err = x.r, x.v, x.b, nil
				return
			}
			if started < n {
				start()
			}
		case <-run:
			running++
		case <-end:
			return
		case <-next:
			start()
		}
	}
	return
}

// sat decides the conjunction as. want: terms whose model values are needed.
func (e *Engine) sat(as []*T, ms int, full bool, want []*T) (smt.Result, string) {
	q := e.prepare(as, full, want)
	if q.done {
		return q.res, q.be
	}
	if full {
		ms = e.Full
	}
	ans := solve(e.Solver, e.Target, q.small, q.body, q.names, ms)
	e.SolveTime += ans.time
	if ans.err != nil {
		panic(abort{"solver: " + ans.err.Error()})
	}
	e.cache[q.key] = ans.res
	if ans.res == smt.Sat && want != nil {
		e.LastModel = map[string]uint64{}
		for n, v := range ans.vals {
			e.LastModel[n] = v
		}
		for i := range want {
			e.LastModel[fmt.Sprintf("#%d", i)] = ans.vals[q.names[i]]
		}
	}
	return ans.res, ans.be
}

// pending is an obligation whose query is being solved.
type pending struct {
	st                *State
	as                []*T
	goal              *T
	name, pos, detail string
	log               []string
	key               string
	ch                chan answer
	twin              *pending // same query
	ans               *answer
}

func (p *pending) wait() answer {
	if p.twin != nil {
		return p.twin.wait()
	}
	if p.ans == nil {
		a := <-p.ch
		p.ans = &a
	}
	return *p.ans
}

// settle collects the answers of pending obligations (all but the last keep).
func (e *Engine) settle(keep int) {
	for len(e.pend) > keep {
		p := e.pend[0]
		e.pend = e.pend[1:]
		a := p.wait()
		if p.twin == nil {
			e.SolveTime += a.time
			delete(e.inFlight, p.key)
			e.cache[p.key] = a.res
		}
		e.conclude(p, a.res, a.be)
	}
}

func (e *Engine) conclude(p *pending, r smt.Result, be string) {
	switch r {
	case smt.Unsat:
		e.record(p.name, p.pos, "proved", be, "")
	case smt.Sat:
		e.counterexample(p.as, p.st.old)
		e.record(p.name, p.pos, "failed", be, p.detail+explain(p.goal, p.log))
	default:
		e.record(p.name, p.pos, "unknown", be, p.detail+explain(p.goal, p.log))
	}
}

// feasible reports whether the path condition may hold.
func (st *State) feasible(extra ...*T) bool {
	for _, x := range extra {
		if x.IsFalse() || st.known[st.e.C.Not(x)] {
			return false
		}
	}
	all := true
	for _, x := range extra {
		if !x.IsTrue() && !st.known[x] {
			all = false
		}
	}
	if all && len(extra) > 0 {
		return true
	}
	as := append(append([]*T{}, st.pc...), extra...)
	if len(as) == 0 {
		return true
	}
	r, _ := st.e.sat(as, 700, false, nil)
	return r != smt.Unsat
}

// proves decides pc => goal.
func (st *State) proves(goal *T) (smt.Result, string) {
	e := st.e
	if goal.IsTrue() || st.known[goal] {
		return smt.Unsat, "simplifier"
	}
	as := append(append([]*T{}, st.pc...), e.C.Not(goal))
	return e.sat(as, e.Quick, true, nil)
}

// check emits an obligation; afterwards the goal is assumed.
func (st *State) check(goal *T, name, pos, detail string) bool {
	e := st.e
	if e.mute > 0 || e.group != "" && !strings.HasPrefix(name, "postcondition ") {
		st.assume(goal)
		return true
	}
	if goal.Op == smt.OpAnd {
		ok := true
		for _, g := range goal.Args {
			if !st.check(g, name, pos, detail) {
				ok = false
			}
		}
		return ok
	}
	if goal.IsTrue() || st.known[goal] {
		e.record(name, pos, "proved", "simplifier", "")
		return true
	}
	as := append(append([]*T{}, st.pc...), e.C.Not(goal))
	p := &pending{st: st, as: as, goal: goal, name: name, pos: pos, detail: detail, log: append([]string(nil), tail(st.log)...)}
	q := e.prepare(as, true, nil)
	if q.done {
		e.conclude(p, q.res, q.be)
	} else {
		p.key = q.key
		if t := e.inFlight[q.key]; t != nil {
			p.twin = t
		} else {
			e.inFlight[q.key] = p
			p.ch = make(chan answer, 1)
			target, ms := e.Target, e.Full
			go func() {
				goalSem <- struct{}{}
				defer func() { <-goalSem }()
				p.ch <- solve(e.Solver, target, q.small, q.body, nil, ms)
			}()
		}
		e.pend = append(e.pend, p)
		if _, ok := e.oblIdx[name]; !ok {
			e.record(name, pos, "proved", "pending", "")
		}
		e.settle(48)
	}
	st.assume(goal)
	return true
}

func tail(l []string) []string {
	if len(l) > 12 {
		return l[len(l)-12:]
	}
	return l
}

func explain(goal *T, log []string) string {
	s := smt.Pretty(goal, 12)
	if len(s) > 3000 {
		s = s[:600] + "..."
	}
	return " goal: " + s + " path: " + strings.Join(log, " ")
}
