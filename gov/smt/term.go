// Package smt: hash-consed bit-vector/boolean terms with simplification.
package smt

import (
	"fmt"
	"math/bits"
	"sort"
	"strconv"
)

type Op uint8

const (
	OpConst Op = iota // Val, W (W==0: bool)
	OpVar             // Name
	OpApp             // Name(Args)
	OpNot
	OpAnd
	OpOr
	OpIte
	OpEq
	OpLin // sum Coefs[i]*Args[i] + Val
	OpMul
	OpUDiv
	OpURem
	OpSDiv
	OpSRem
	OpBAnd
	OpBOr
	OpBXor
	OpBNot
	OpShl
	OpLshr
	OpAshr
	OpConcat
	OpExtract // Hi, Lo
	OpZext
	OpSext
	OpUlt
	OpSlt
	OpForall // Args[0]=bound var, Args[1]=body
)

type Term struct {
	ID     int
	Op     Op
	W      int // 0 = Bool
	Args   []*Term
	Val    uint64
	Name   string
	Hi, Lo int
	Coefs  []uint64
	Bnd    bool // contains a bound variable
	HasQ   bool // contains a quantifier
}

type Ctx struct {
	table map[string]*Term
	n     int
	True  *Term
	False *Term
	fresh map[string]int
	key   []byte
}

func NewCtx() *Ctx {
	c := &Ctx{table: map[string]*Term{}, fresh: map[string]int{}}
	c.True = c.intern(&Term{Op: OpConst, W: 0, Val: 1})
	c.False = c.intern(&Term{Op: OpConst, W: 0, Val: 0})
	return c
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func (c *Ctx) intern(t *Term) *Term {
	k := c.key[:0]
	k = append(k, byte(t.Op), byte(t.W))
	k = strconv.AppendUint(k, t.Val, 36)
	k = append(k, '|')
	k = append(k, t.Name...)
	k = append(k, '|')
	if t.Op == OpExtract {
		k = append(k, byte(t.Hi), byte(t.Lo))
	}
	for i, a := range t.Args {
		k = strconv.AppendInt(k, int64(a.ID), 36)
		k = append(k, ',')
		if t.Coefs != nil {
			k = strconv.AppendUint(k, t.Coefs[i], 36)
			k = append(k, ';')
		}
	}
	c.key = k
	if o, ok := c.table[string(k)]; ok {
		return o
	}
	t.ID = c.n
	c.n++
	for _, a := range t.Args {
		if a.Bnd {
			t.Bnd = true
		}
		if a.HasQ {
			t.HasQ = true
		}
	}
	if t.Op == OpForall {
		t.HasQ = true
		t.Bnd = false
		// still bound if the body mentions other bound variables
		if hasOtherBound(t.Args[1], t.Args[0]) {
			t.Bnd = true
		}
	}
	c.table[string(k)] = t
	return t
}

func hasOtherBound(t, b *Term) bool {
	seen := map[*Term]bool{}
	var rec func(x *Term) bool
	rec = func(x *Term) bool {
		if !x.Bnd || seen[x] {
			return false
		}
		seen[x] = true
		if x.Op == OpVar {
			return x != b
		}
		for _, a := range x.Args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}

func (c *Ctx) BV(v uint64, w int) *Term {
	return c.intern(&Term{Op: OpConst, W: w, Val: v & mask(w)})
}

func (c *Ctx) Var(name string, w int) *Term { return c.intern(&Term{Op: OpVar, W: w, Name: name}) }

func (c *Ctx) FreshName(prefix string) string {
	c.fresh[prefix]++
	return prefix + "!" + strconv.Itoa(c.fresh[prefix])
}
func (c *Ctx) FreshVar(prefix string, w int) *Term { return c.Var(c.FreshName(prefix), w) }

func (c *Ctx) BoundVar(w int) *Term {
	t := c.Var(c.FreshName("q"), w)
	t.Bnd = true
	return t
}

func (c *Ctx) App(name string, w int, args ...*Term) *Term {
	return c.intern(&Term{Op: OpApp, W: w, Name: name, Args: args})
}

func (t *Term) IsConst() bool { return t.Op == OpConst }
func (t *Term) IsTrue() bool  { return t.Op == OpConst && t.W == 0 && t.Val == 1 }
func (t *Term) IsFalse() bool { return t.Op == OpConst && t.W == 0 && t.Val == 0 }

func (c *Ctx) Not(a *Term) *Term {
	if a.IsConst() {
		return c.Bool(a.Val == 0)
	}
	if a.Op == OpNot {
		return a.Args[0]
	}
	return c.intern(&Term{Op: OpNot, Args: []*Term{a}})
}

func (c *Ctx) nary(op Op, args []*Term) *Term {
	unit, zero := c.True, c.False
	if op == OpOr {
		unit, zero = c.False, c.True
	}
	var out []*Term
	seen := map[int]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a == unit {
			return true
		}
		if a == zero {
			return false
		}
		if a.Op == op {
			for _, x := range a.Args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[a.ID] {
			return true
		}
		if a.Op == OpNot && seen[a.Args[0].ID] {
			return false
		}
		if a.Op != OpNot {
			// complement check
			n := c.Not(a)
			if seen[n.ID] {
				return false
			}
		}
		seen[a.ID] = true
		out = append(out, a)
		return true
	}
	for _, a := range args {
		if !add(a) {
			return zero
		}
	}
	switch len(out) {
	case 0:
		return unit
	case 1:
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return c.intern(&Term{Op: op, Args: out})
}

func (c *Ctx) And(args ...*Term) *Term { return c.nary(OpAnd, args) }
func (c *Ctx) Or(args ...*Term) *Term  { return c.nary(OpOr, args) }
func (c *Ctx) Implies(a, b *Term) *Term {
	return c.Or(c.Not(a), b)
}

func (c *Ctx) Ite(cond, a, b *Term) *Term {
	if cond.IsTrue() {
		return a
	}
	if cond.IsFalse() {
		return b
	}
	if a == b {
		return a
	}
	if a.W != b.W {
		panic(fmt.Sprintf("ite width %d %d", a.W, b.W))
	}
	if cond.Op == OpNot {
		return c.Ite(cond.Args[0], b, a)
	}
	if a.W == 0 {
		if a.IsTrue() {
			return c.Or(cond, b)
		}
		if a.IsFalse() {
			return c.And(c.Not(cond), b)
		}
		if b.IsTrue() {
			return c.Or(c.Not(cond), a)
		}
		if b.IsFalse() {
			return c.And(cond, a)
		}
		if a.HasQ || b.HasQ {
			return c.And(c.Or(c.Not(cond), a), c.Or(cond, b))
		}
	}
	if a.Op == OpIte && a.Args[0] == cond {
		return c.Ite(cond, a.Args[1], b)
	}
	if b.Op == OpIte && b.Args[0] == cond {
		return c.Ite(cond, a, b.Args[2])
	}
	if b.Op == OpIte && b.Args[1] == a {
		return c.Ite(c.Or(cond, b.Args[0]), a, b.Args[2])
	}
	return c.intern(&Term{Op: OpIte, W: a.W, Args: []*Term{cond, a, b}})
}

// ---- linear arithmetic normal form

func (c *Ctx) lin(w int, m map[*Term]uint64, k uint64) *Term {
	mk := mask(w)
	var ts []*Term
	for t, co := range m {
		if co&mk != 0 {
			ts = append(ts, t)
		}
	}
	k &= mk
	if len(ts) == 0 {
		return c.BV(k, w)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].ID < ts[j].ID })
	if len(ts) == 1 && k == 0 && m[ts[0]]&mk == 1 {
		return ts[0]
	}
	co := make([]uint64, len(ts))
	for i, t := range ts {
		co[i] = m[t] & mk
	}
	return c.intern(&Term{Op: OpLin, W: w, Args: ts, Coefs: co, Val: k})
}

func addLin(m map[*Term]uint64, k *uint64, t *Term, f uint64) {
	switch t.Op {
	case OpConst:
		*k += t.Val * f
	case OpLin:
		*k += t.Val * f
		for i, a := range t.Args {
			m[a] += t.Coefs[i] * f
		}
	default:
		m[t] += f
	}
}

func (c *Ctx) Add(a, b *Term) *Term {
	if a.W != b.W {
		panic("add width")
	}
	m := map[*Term]uint64{}
	var k uint64
	addLin(m, &k, a, 1)
	addLin(m, &k, b, 1)
	return c.lin(a.W, m, k)
}
func (c *Ctx) Sub(a, b *Term) *Term {
	if a.W != b.W {
		panic("sub width")
	}
	m := map[*Term]uint64{}
	var k uint64
	addLin(m, &k, a, 1)
	addLin(m, &k, b, ^uint64(0))
	return c.lin(a.W, m, k)
}
func (c *Ctx) Neg(a *Term) *Term { return c.Sub(c.BV(0, a.W), a) }
func (c *Ctx) AddK(a *Term, k uint64) *Term {
	return c.Add(a, c.BV(k, a.W))
}

// LinParts returns the linear decomposition of t.
func LinParts(t *Term) (args []*Term, coefs []uint64, k uint64) {
	switch t.Op {
	case OpConst:
		return nil, nil, t.Val
	case OpLin:
		return t.Args, t.Coefs, t.Val
	}
	return []*Term{t}, []uint64{1}, 0
}

func (c *Ctx) Mul(a, b *Term) *Term {
	if b.IsConst() {
		a, b = b, a
	}
	if a.IsConst() {
		m := map[*Term]uint64{}
		var k uint64
		addLin(m, &k, b, a.Val)
		return c.lin(b.W, m, k)
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return c.intern(&Term{Op: OpMul, W: a.W, Args: []*Term{a, b}})
}

func sx(v uint64, w int) int64 {
	if w >= 64 {
		return int64(v)
	}
	return int64(v<<uint(64-w)) >> uint(64-w)
}

func (c *Ctx) bin(op Op, a, b *Term) *Term {
	if a.W != b.W {
		panic(fmt.Sprintf("bin op %d width %d %d", op, a.W, b.W))
	}
	w := a.W
	if a.IsConst() && b.IsConst() {
		x, y := a.Val, b.Val
		switch op {
		case OpUDiv:
			if y != 0 {
				return c.BV(x/y, w)
			}
		case OpURem:
			if y != 0 {
				return c.BV(x%y, w)
			}
		case OpSDiv:
			if y != 0 && !(sx(y, w) == -1) {
				return c.BV(uint64(sx(x, w)/sx(y, w)), w)
			}
		case OpSRem:
			if y != 0 && !(sx(y, w) == -1) {
				return c.BV(uint64(sx(x, w)%sx(y, w)), w)
			}
		case OpBAnd:
			return c.BV(x&y, w)
		case OpBOr:
			return c.BV(x|y, w)
		case OpBXor:
			return c.BV(x^y, w)
		case OpShl:
			if y >= uint64(w) {
				return c.BV(0, w)
			}
			return c.BV(x<<y, w)
		case OpLshr:
			if y >= uint64(w) {
				return c.BV(0, w)
			}
			return c.BV(x>>y, w)
		case OpAshr:
			if y >= uint64(w) {
				y = uint64(w - 1)
			}
			return c.BV(uint64(sx(x, w)>>y), w)
		}
	}
	switch op {
	case OpBAnd:
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsConst() {
			if b.Val == 0 {
				return b
			}
			if b.Val == mask(w) {
				return a
			}
			if c.UB(a) <= b.Val && b.Val&(b.Val+1) == 0 {
				return a
			}
		}
		if a == b {
			return a
		}
	case OpBOr:
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsConst() {
			if b.Val == 0 {
				return a
			}
			if b.Val == mask(w) {
				return b
			}
		}
		if a == b {
			return a
		}
	case OpBXor:
		if a == b {
			return c.BV(0, w)
		}
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsConst() && b.Val == 0 {
			return a
		}
	case OpShl, OpLshr:
		if b.IsConst() {
			if b.Val == 0 {
				return a
			}
			if b.Val >= uint64(w) {
				return c.BV(0, w)
			}
		}
		if a.IsConst() && a.Val == 0 {
			return a
		}
	case OpAshr:
		if b.IsConst() && b.Val == 0 {
			return a
		}
	case OpUDiv, OpSDiv:
		if b.IsConst() && b.Val == 1 {
			return a
		}
	case OpURem:
		if b.IsConst() && b.Val == 1 {
			return c.BV(0, w)
		}
	}
	if (op == OpBAnd || op == OpBOr || op == OpBXor) && a.ID > b.ID {
		a, b = b, a
	}
	return c.intern(&Term{Op: op, W: w, Args: []*Term{a, b}})
}

func (c *Ctx) UDiv(a, b *Term) *Term { return c.bin(OpUDiv, a, b) }
func (c *Ctx) URem(a, b *Term) *Term { return c.bin(OpURem, a, b) }
func (c *Ctx) SDiv(a, b *Term) *Term { return c.bin(OpSDiv, a, b) }
func (c *Ctx) SRem(a, b *Term) *Term { return c.bin(OpSRem, a, b) }
func (c *Ctx) BAnd(a, b *Term) *Term { return c.bin(OpBAnd, a, b) }
func (c *Ctx) BOr(a, b *Term) *Term  { return c.bin(OpBOr, a, b) }
func (c *Ctx) BXor(a, b *Term) *Term { return c.bin(OpBXor, a, b) }
func (c *Ctx) Shl(a, b *Term) *Term  { return c.bin(OpShl, a, b) }
func (c *Ctx) Lshr(a, b *Term) *Term { return c.bin(OpLshr, a, b) }
func (c *Ctx) Ashr(a, b *Term) *Term { return c.bin(OpAshr, a, b) }
func (c *Ctx) BNot(a *Term) *Term {
	if a.IsConst() {
		return c.BV(^a.Val, a.W)
	}
	return c.intern(&Term{Op: OpBNot, W: a.W, Args: []*Term{a}})
}

func (c *Ctx) Extract(a *Term, hi, lo int) *Term {
	w := hi - lo + 1
	if lo == 0 && w == a.W {
		return a
	}
	switch a.Op {
	case OpConst:
		return c.BV(a.Val>>uint(lo), w)
	case OpZext:
		in := a.Args[0]
		if hi < in.W {
			return c.Extract(in, hi, lo)
		}
		if lo >= in.W {
			return c.BV(0, w)
		}
		if lo == 0 {
			return c.Zext(in, w)
		}
	case OpSext:
		in := a.Args[0]
		if hi < in.W {
			return c.Extract(in, hi, lo)
		}
		if lo == 0 {
			return c.Sext(in, w)
		}
	case OpExtract:
		return c.Extract(a.Args[0], hi+a.Lo, lo+a.Lo)
	case OpIte:
		if a.Args[1].IsConst() || a.Args[2].IsConst() {
			return c.Ite(a.Args[0], c.Extract(a.Args[1], hi, lo), c.Extract(a.Args[2], hi, lo))
		}
	case OpLshr:
		if a.Args[1].IsConst() {
			s := int(a.Args[1].Val)
			if hi+s < a.W {
				return c.Extract(a.Args[0], hi+s, lo+s)
			}
		}
	case OpLin:
		if lo == 0 {
			// truncation distributes over sums
			m := map[*Term]uint64{}
			k := a.Val
			for i, x := range a.Args {
				addLin(m, &k, c.Extract(x, hi, 0), a.Coefs[i])
			}
			return c.lin(w, m, k)
		}
	case OpBAnd, OpBOr, OpBXor:
		return c.bin(a.Op, c.Extract(a.Args[0], hi, lo), c.Extract(a.Args[1], hi, lo))
	}
	return c.intern(&Term{Op: OpExtract, W: w, Args: []*Term{a}, Hi: hi, Lo: lo})
}

func (c *Ctx) Zext(a *Term, w int) *Term {
	if a.W == w {
		return a
	}
	if a.W > w {
		return c.Extract(a, w-1, 0)
	}
	if a.IsConst() {
		return c.BV(a.Val, w)
	}
	if a.Op == OpZext {
		return c.Zext(a.Args[0], w)
	}
	return c.intern(&Term{Op: OpZext, W: w, Args: []*Term{a}})
}

func (c *Ctx) Sext(a *Term, w int) *Term {
	if a.W == w {
		return a
	}
	if a.W > w {
		return c.Extract(a, w-1, 0)
	}
	if a.IsConst() {
		return c.BV(uint64(sx(a.Val, a.W)), w)
	}
	if a.Op == OpZext || c.UB(a) < uint64(1)<<uint(a.W-1) {
		return c.Zext(a, w)
	}
	return c.intern(&Term{Op: OpSext, W: w, Args: []*Term{a}})
}

func (c *Ctx) Concat(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() && a.W+b.W <= 64 {
		return c.BV(a.Val<<uint(b.W)|b.Val, a.W+b.W)
	}
	return c.intern(&Term{Op: OpConcat, W: a.W + b.W, Args: []*Term{a, b}})
}

// UB is a cheap unsigned upper bound.
func (c *Ctx) UB(t *Term) uint64 { return ubd(t, 6) }

func ubd(t *Term, d int) uint64 {
	if d == 0 {
		return mask(t.W)
	}
	switch t.Op {
	case OpConst:
		return t.Val
	case OpZext:
		return ubd(t.Args[0], d-1)
	case OpConcat:
		if t.Args[0].IsConst() {
			return t.Args[0].Val<<uint(t.Args[1].W) | ubd(t.Args[1], d-1)
		}
	case OpIte:
		a, b := ubd(t.Args[1], d-1), ubd(t.Args[2], d-1)
		if a > b {
			return a
		}
		return b
	case OpBAnd:
		a, b := ubd(t.Args[0], d-1), ubd(t.Args[1], d-1)
		if a < b {
			return a
		}
		return b
	case OpBOr, OpBXor:
		a, b := ubd(t.Args[0], d-1), ubd(t.Args[1], d-1)
		n := bits.Len64(a | b)
		return mask(n)
	case OpLshr:
		if t.Args[1].IsConst() && t.Args[1].Val < 64 {
			return ubd(t.Args[0], d-1) >> t.Args[1].Val
		}
	case OpURem:
		if t.Args[1].IsConst() && t.Args[1].Val > 0 {
			return t.Args[1].Val - 1
		}
	case OpLin:
		// small positive coefficients without overflow
		var s = t.Val
		for i, a := range t.Args {
			u := ubd(a, d-1)
			hi, lo := bits.Mul64(u, t.Coefs[i])
			if hi != 0 {
				return mask(t.W)
			}
			var carry uint64
			s, carry = bits.Add64(s, lo, 0)
			if carry != 0 {
				return mask(t.W)
			}
		}
		if s > mask(t.W) {
			return mask(t.W)
		}
		return s
	}
	return mask(t.W)
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.W != b.W {
		panic(fmt.Sprintf("eq width %d %d", a.W, b.W))
	}
	if a.IsConst() && b.IsConst() {
		return c.Bool(a.Val == b.Val)
	}
	if a.W == 0 {
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsTrue() {
			return a
		}
		if b.IsFalse() {
			return c.Not(a)
		}
		if a.HasQ || b.HasQ {
			return c.And(c.Or(c.Not(a), b), c.Or(a, c.Not(b)))
		}
	} else {
		if a.Op == OpLin || b.Op == OpLin {
			d := c.Sub(a, b)
			if d.IsConst() {
				return c.Bool(d.Val == 0)
			}
			if d.Op == OpLin && len(d.Args) == 1 {
				if d.Coefs[0] == 1 {
					return c.Eq(d.Args[0], c.BV(-d.Val, a.W))
				}
				if d.Coefs[0] == mask(a.W) {
					return c.Eq(d.Args[0], c.BV(d.Val, a.W))
				}
			}
			if d.Op == OpLin && len(d.Args) == 2 && d.Val == 0 {
				m := mask(a.W)
				if (d.Coefs[0] == 1 && d.Coefs[1] == m) || (d.Coefs[0] == m && d.Coefs[1] == 1) {
					a, b = d.Args[0], d.Args[1]
				}
			}
		}
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsConst() {
			if c.UB(a) < b.Val {
				return c.False
			}
			if a.Op == OpIte {
				x, y := a.Args[1], a.Args[2]
				if x.IsConst() || y.IsConst() || x.Op == OpIte || y.Op == OpIte {
					return c.Ite(a.Args[0], c.Eq(x, b), c.Eq(y, b))
				}
			}
			if a.Op == OpZext {
				return c.Eq(a.Args[0], c.BV(b.Val, a.Args[0].W))
			}
		}
		if a.Op == OpZext && b.Op == OpConcat {
			a, b = b, a
		}
		if a.Op == OpConcat && a.Args[0].IsConst() {
			lo := a.Args[1]
			switch {
			case b.IsConst():
				if b.Val>>uint(lo.W) != a.Args[0].Val {
					return c.False
				}
				return c.Eq(lo, c.BV(b.Val&mask(lo.W), lo.W))
			case b.Op == OpZext && b.Args[0].W <= lo.W && a.Args[0].Val != 0:
				return c.False
			case b.Op == OpConcat && b.Args[0].IsConst() && b.Args[1].W == lo.W:
				if b.Args[0] != a.Args[0] {
					return c.False
				}
				return c.Eq(lo, b.Args[1])
			}
		}
		if a.Op == OpZext && b.Op == OpZext && a.Args[0].W == b.Args[0].W {
			return c.Eq(a.Args[0], b.Args[0])
		}
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return c.intern(&Term{Op: OpEq, Args: []*Term{a, b}})
}

func (c *Ctx) Ne(a, b *Term) *Term { return c.Not(c.Eq(a, b)) }

func (c *Ctx) Ult(a, b *Term) *Term {
	if a == b {
		return c.False
	}
	if a.W != b.W {
		panic("ult width")
	}
	if a.IsConst() && b.IsConst() {
		return c.Bool(a.Val < b.Val)
	}
	if b.IsConst() {
		if b.Val == 0 {
			return c.False
		}
		if c.UB(a) < b.Val {
			return c.True
		}
		if b.Val == 1 {
			return c.Eq(a, c.BV(0, a.W))
		}
	}
	if a.IsConst() {
		if a.Val >= c.UB(b) {
			return c.False
		}
		if a.Val == 0 {
			return c.Ne(b, a)
		}
	}
	if a.Op == OpZext && b.Op == OpZext && a.Args[0].W == b.Args[0].W {
		return c.Ult(a.Args[0], b.Args[0])
	}
	if a.Op == OpZext && b.IsConst() && b.Val <= mask(a.Args[0].W) {
		return c.Ult(a.Args[0], c.BV(b.Val, a.Args[0].W))
	}
	if a.Op == OpIte && b.IsConst() && a.Args[1].IsConst() && a.Args[2].IsConst() {
		return c.Ite(a.Args[0], c.Ult(a.Args[1], b), c.Ult(a.Args[2], b))
	}
	if b.Op == OpIte && a.IsConst() && b.Args[1].IsConst() && b.Args[2].IsConst() {
		return c.Ite(b.Args[0], c.Ult(a, b.Args[1]), c.Ult(a, b.Args[2]))
	}
	return c.intern(&Term{Op: OpUlt, Args: []*Term{a, b}})
}
func (c *Ctx) Ule(a, b *Term) *Term { return c.Not(c.Ult(b, a)) }

func (c *Ctx) Slt(a, b *Term) *Term {
	if a == b {
		return c.False
	}
	if a.W != b.W {
		panic("slt width")
	}
	if a.IsConst() && b.IsConst() {
		return c.Bool(sx(a.Val, a.W) < sx(b.Val, b.W))
	}
	half := uint64(1) << uint(a.W-1)
	if c.UB(a) < half && c.UB(b) < half {
		return c.Ult(a, b)
	}
	if a.Op == OpIte && b.IsConst() && a.Args[1].IsConst() && a.Args[2].IsConst() {
		return c.Ite(a.Args[0], c.Slt(a.Args[1], b), c.Slt(a.Args[2], b))
	}
	return c.intern(&Term{Op: OpSlt, Args: []*Term{a, b}})
}
func (c *Ctx) Sle(a, b *Term) *Term { return c.Not(c.Slt(b, a)) }

func (c *Ctx) Forall(b, body *Term) *Term {
	if body.IsTrue() {
		return body
	}
	if !body.Bnd || !contains(body, b) {
		return body
	}
	return c.intern(&Term{Op: OpForall, Args: []*Term{b, body}})
}

func contains(t, v *Term) bool {
	seen := map[*Term]bool{}
	var rec func(x *Term) bool
	rec = func(x *Term) bool {
		if x == v {
			return true
		}
		if !x.Bnd || seen[x] {
			return false
		}
		seen[x] = true
		for _, a := range x.Args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

// Subst replaces v by r in t.
func (c *Ctx) Subst(t, v, r *Term) *Term {
	memo := map[*Term]*Term{}
	return c.subst(t, v, r, memo)
}

func (c *Ctx) subst(t, v, r *Term, memo map[*Term]*Term) *Term {
	if t == v {
		return r
	}
	if len(t.Args) == 0 {
		return t
	}
	if v.Bnd && !t.Bnd && !t.HasQ {
		return t
	}
	if o, ok := memo[t]; ok {
		return o
	}
	args := make([]*Term, len(t.Args))
	ch := false
	for i, a := range t.Args {
		args[i] = c.subst(a, v, r, memo)
		if args[i] != a {
			ch = true
		}
	}
	o := t
	if ch {
		o = c.rebuild(t, args)
	}
	memo[t] = o
	return o
}

func (c *Ctx) rebuild(t *Term, args []*Term) *Term {
	switch t.Op {
	case OpApp:
		return c.App(t.Name, t.W, args...)
	case OpNot:
		return c.Not(args[0])
	case OpAnd:
		return c.And(args...)
	case OpOr:
		return c.Or(args...)
	case OpIte:
		return c.Ite(args[0], args[1], args[2])
	case OpEq:
		return c.Eq(args[0], args[1])
	case OpLin:
		m := map[*Term]uint64{}
		k := t.Val
		for i, a := range args {
			addLin(m, &k, a, t.Coefs[i])
		}
		return c.lin(t.W, m, k)
	case OpMul:
		return c.Mul(args[0], args[1])
	case OpUDiv, OpURem, OpSDiv, OpSRem, OpBAnd, OpBOr, OpBXor, OpShl, OpLshr, OpAshr:
		return c.bin(t.Op, args[0], args[1])
	case OpBNot:
		return c.BNot(args[0])
	case OpConcat:
		return c.Concat(args[0], args[1])
	case OpExtract:
		return c.Extract(args[0], t.Hi, t.Lo)
	case OpZext:
		return c.Zext(args[0], t.W)
	case OpSext:
		return c.Sext(args[0], t.W)
	case OpUlt:
		return c.Ult(args[0], args[1])
	case OpSlt:
		return c.Slt(args[0], args[1])
	case OpForall:
		return c.Forall(args[0], args[1])
	}
	panic("rebuild")
}

// NumTerms reports the number of interned terms.
func (c *Ctx) NumTerms() int { return c.n }

// Contains reports whether v occurs in t.
func Contains(t, v *Term) bool { return contains(t, v) }

// SubstMap rewrites the keys of m that occur in t.
func (c *Ctx) SubstMap(t *Term, m map[*Term]*Term, memo map[*Term]*Term, onNew func(old, new *Term)) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.Args) == 0 {
		return t
	}
	if o, ok := memo[t]; ok {
		return o
	}
	args := make([]*Term, len(t.Args))
	ch := false
	for i, a := range t.Args {
		args[i] = c.SubstMap(a, m, memo, onNew)
		if args[i] != a {
			ch = true
		}
	}
	o := t
	if ch {
		o = c.rebuild(t, args)
		if r, ok := m[o]; ok {
			o = r
		} else if onNew != nil && t.Op == OpApp && o.Op == OpApp {
			onNew(t, o)
		}
	}
	memo[t] = o
	return o
}
