package eng

import (
	"sort"
	"strings"

	"gov/smt"
)

// reduce rewrites a conjunction by what its literals say: known literals
// become constants and equations eliminate one of their atoms. Everything
// that is returned follows from what is given, and the other way round.
func (e *Engine) reduce(as []*T, goal *T) ([]*T, []*T) {
	c := e.C
	eqs := map[*T]*T{} // atom -> term without it
	var keys []*T
	lits := map[*T]*T{} // boolean term -> constant
	both := map[*T]*T{}
	onNew := func(o, n *T) {
		if e.axioms[o] != nil && e.axioms[n] == nil && e.axGen[o.Name] != nil {
			e.axGen[o.Name](n.Args)
		}
	}
	var rest []*T
	work := as
	for round := 0; round < 8; round++ {
		var units, others []*T
		seen := map[*T]bool{}
		var flat func(t *T)
		flat = func(t *T) {
			if seen[t] || t.IsTrue() {
				return
			}
			seen[t] = true
			switch {
			case t.Op == smt.OpAnd:
				for _, a := range t.Args {
					flat(a)
				}
			case t.Op == smt.OpNot && t.Args[0].Op == smt.OpOr:
				for _, a := range t.Args[0].Args {
					flat(c.Not(a))
				}
			case t.HasQ || t.Op == smt.OpOr || t.Op == smt.OpNot && t.Args[0].Op == smt.OpAnd || t.Op == smt.OpIte:
				others = append(others, t)
			default:
				units = append(units, t)
			}
		}
		for _, t := range work {
			if t.IsFalse() {
				return []*T{c.False}, nil
			}
			flat(t)
		}
		changed := false
		memoE := map[*T]*T{}
		for _, u := range units {
			u = c.SubstMap(u, eqs, memoE, onNew)
			if u.IsTrue() {
				continue
			}
			if u.IsFalse() {
				return []*T{c.False}, nil
			}
			if u.Op == smt.OpEq && u.Args[0].W > 0 {
				if x, t := e.orient(u.Args[0], u.Args[1]); x != nil {
					one := map[*T]*T{x: t}
					memo := map[*T]*T{}
					for _, k := range keys {
						eqs[k] = c.SubstMap(eqs[k], one, memo, onNew)
					}
					eqs[x] = t
					keys = append(keys, x)
					memoE = map[*T]*T{}
					changed = true
					continue
				}
			}
			k, v := u, c.True
			if u.Op == smt.OpNot {
				k, v = u.Args[0], c.False
			}
			switch old := lits[k]; {
			case old == nil:
				lits[k] = v
				changed = true
			case old != v:
				return []*T{c.False}, nil
			}
		}
		rest = others
		if !changed {
			break
		}
		both = map[*T]*T{}
		for k, v := range lits {
			both[k] = v
		}
		for k, v := range eqs {
			both[k] = v
		}
		memo := map[*T]*T{}
		work = nil
		for _, t := range others {
			work = append(work, c.SubstMap(t, both, memo, onNew))
		}
		rest = work
	}
	var out []*T
	memo := map[*T]*T{}
	var lk []*T
	for k := range lits {
		lk = append(lk, k)
	}
	sort.Slice(lk, func(i, j int) bool { return lk[i].ID < lk[j].ID })
	for _, k := range lk {
		v := lits[k]
		t := c.SubstMap(k, eqs, memo, onNew)
		if v == c.False {
			t = c.Not(t)
		}
		if t.IsFalse() {
			return []*T{c.False}, nil
		}
		out = append(out, t)
	}
	for _, k := range keys {
		out = append(out, c.Eq(k, eqs[k]))
	}
	gs := []*T{c.SubstMap(goal, eqs, memo, onNew), c.SubstMap(goal, both, map[*T]*T{}, onNew)}
	return append(out, rest...), gs
}

// orient turns a = b into atom -> term.
func (e *Engine) orient(a, b *T) (*T, *T) {
	c := e.C
	if a.Bnd || b.Bnd || a.HasQ || b.HasQ {
		return nil, nil
	}
	if b.IsConst() {
		a, b = b, a
	}
	rank := func(t *T) int {
		switch {
		case t.Op == smt.OpVar && strings.HasPrefix(t.Name, "r."):
			return 5
		case t.Op == smt.OpVar && !strings.HasPrefix(t.Name, "p."):
			return 4
		case t.Op == smt.OpApp && strings.HasPrefix(t.Name, "op:"):
			return 0
		case t.Op == smt.OpApp && strings.HasPrefix(t.Name, "H"):
			return 3
		case t.Op == smt.OpApp:
			return 2
		case t.Op == smt.OpVar:
			return 1
		}
		return -1
	}
	if a.IsConst() {
		if b.Op == smt.OpLin {
			// falls through to the linear case
		} else if b.Op == smt.OpVar || b.Op == smt.OpApp || b.Op == smt.OpZext {
			return b, a
		} else {
			return nil, nil
		}
	}
	if a.W <= 8 {
		return nil, nil
	}
	d := c.Sub(a, b)
	args, coefs, _ := smt.LinParts(d)
	var best *T
	var bf uint64
	br := -1
	m := ^uint64(0)
	if d.W < 64 {
		m = 1<<uint(d.W) - 1
	}
	for _, f := range coefs {
		if f != 1 && f != m {
			return nil, nil
		}
	}
	for i, x := range args {
		r := rank(x)
		if r <= br {
			continue
		}
		bad := false
		for j, y := range args {
			if j != i && smt.Contains(y, x) {
				bad = true
			}
		}
		if bad {
			continue
		}
		best, bf, br = x, coefs[i], r
	}
	if best == nil {
		return nil, nil
	}
	// d = bf*best + rest = 0
	var t *T
	if bf == 1 {
		t = c.Sub(best, d)
	} else {
		t = c.Add(d, best)
	}
	if smt.Contains(t, best) {
		return nil, nil
	}
	return best, t
}
