package eng

import (
	"gov/smt"
)

type T = smt.Term

// Node is one update in the history of a memory class (one scalar component
// of one type of location). Histories are persistent and shared.
type Node struct {
	id   int
	kind nodeKind
	prev *Node
	w    int
	isRf bool // reference-valued component (base values denote pre-existing objects)
	lk   LeafKind

	ref, idx, val *T
	n             *T // copy/havoc: length
	sref, soff    *T
	src           *Node
	uf            string
	conds         []*T // havoc at a set: unused

	memo map[[2]*T]*T
}

type nodeKind uint8

const (
	nBase     nodeKind = iota
	nStore             // [ref,idx] = val
	nZero              // all idx of ref are zero
	nCopy              // [ref, idx+0..n) = src[sref, soff..)
	nHavoc             // [ref, idx..idx+n) arbitrary (uf); n==nil: all idx
	nHavocAll          // everything arbitrary (uf)
	nHavocNew          // objects created since ref are arbitrary (uf)
)

type memKey struct {
	root, path string
}

type Mem map[memKey]*Node

func (m Mem) clone() Mem {
	r := make(Mem, len(m)+8)
	for k, v := range m {
		r[k] = v
	}
	return r
}

func (e *Engine) node(n Node) *Node {
	e.nodeN++
	n.id = e.nodeN
	if n.prev != nil {
		n.w, n.isRf, n.lk = n.prev.w, n.prev.isRf, n.prev.lk
	}
	n.memo = map[[2]*T]*T{}
	return &n
}

func (e *Engine) base(k memKey, l Leaf) *Node {
	if n, ok := e.bases[k]; ok {
		return n
	}
	n := e.node(Node{kind: nBase, uf: "M:" + k.root + "|" + k.path, w: l.W, lk: l.Kind})
	n.w, n.lk = l.W, l.Kind
	e.bases[k] = n
	return n
}

func (e *Engine) memNode(m Mem, k memKey, l Leaf) *Node {
	if n, ok := m[k]; ok {
		return n
	}
	return e.base(k, l)
}

// ufLeaf builds the value of an uninterpreted memory component, applying the
// representation bounds of its kind.
func (e *Engine) ufLeaf(name string, w int, lk LeafKind, old bool, args ...*T) *T {
	c := e.C
	switch lk {
	case KOff, KLen, KCap:
		return c.Zext(c.App(name, lenW, args...), w)
	case KIdx:
		return c.Zext(c.App(name, lenW, args...), w)
	case KRef:
		if old {
			return c.Zext(c.App(name, 16, args...), w)
		}
	case KIRef:
		if old {
			return e.oldIRef(c.App(name, 17, args...))
		}
	case KSRef:
		if old {
			return c.Concat(c.BV(1, 16), c.App(name, 16, args...))
		}
	}
	return c.App(name, w, args...)
}

// oldIRef: an object that exists when the verified code starts, or a package
// variable.
func (e *Engine) oldIRef(v *T) *T {
	c := e.C
	return c.Concat(c.BV(0, 4), c.Concat(c.Extract(v, 16, 16), c.Concat(c.BV(0, 11), c.Extract(v, 15, 0))))
}

func (e *Engine) zeroLeaf(w int) *T {
	if w == 0 {
		return e.C.False
	}
	return e.C.BV(0, w)
}

// read returns the component at (ref, idx).
func (e *Engine) read(n *Node, ref, idx *T) *T {
	c := e.C
	type fr struct {
		n    *Node
		cond *T
		val  *T
	}
	var stack []fr
	var res *T
	k := [2]*T{ref, idx}
	cur := n
walk:
	for {
		if v, ok := cur.memo[k]; ok {
			res = v
			break
		}
		switch cur.kind {
		case nBase:
			if ref.IsConst() && ref.Val >= strRef0 && ref.Val < specRef0 && cur.uf == "M:uint8|" {
				res = e.strByte(ref, idx)
				break walk
			}
			if cur.uf == "M:§released|v" && ref.IsConst() && ref.Val >= freshRef0 && ref.Val < globalRef0 {
				res = e.i64(0) // created later
				break walk
			}
			res = e.ufLeaf(cur.uf, cur.w, cur.lk, true, ref, idx)
			break walk
		case nStore:
			cond := c.And(c.Eq(ref, cur.ref), c.Eq(idx, cur.idx))
			if cond.IsTrue() {
				res = cur.val
				break walk
			}
			if !cond.IsFalse() {
				stack = append(stack, fr{cur, cond, cur.val})
			}
		case nZero:
			cond := c.Eq(ref, cur.ref)
			if cond.IsTrue() {
				res = e.zeroLeaf(cur.w)
				break walk
			}
			if !cond.IsFalse() {
				stack = append(stack, fr{cur, cond, e.zeroLeaf(cur.w)})
			}
		case nCopy:
			rc := c.Eq(ref, cur.ref)
			if !rc.IsFalse() {
				d := c.Sub(idx, cur.idx)
				cond := c.And(rc, e.inRange(d, cur.n))
				if !cond.IsFalse() {
					v := e.read(cur.src, cur.sref, c.Add(cur.soff, d))
					if cond.IsTrue() {
						res = v
						break walk
					}
					stack = append(stack, fr{cur, cond, v})
				}
			}
		case nHavoc:
			cond := c.Eq(ref, cur.ref)
			if !cond.IsFalse() {
				if cur.n != nil {
					cond = c.And(cond, e.inRange(c.Sub(idx, cur.idx), cur.n))
				}
				if !cond.IsFalse() {
					v := e.ufLeaf(cur.uf, cur.w, cur.lk, false, ref, idx)
					if cond.IsTrue() {
						res = v
						break walk
					}
					stack = append(stack, fr{cur, cond, v})
				}
			}
		case nHavocNew:
			cond := c.And(c.Ule(cur.ref, ref), c.Ult(ref, c.BV(globalRef0, wRef)))
			if !cond.IsFalse() {
				v := e.ufLeaf(cur.uf, cur.w, cur.lk, false, ref, idx)
				if cond.IsTrue() {
					res = v
					break walk
				}
				stack = append(stack, fr{cur, cond, v})
			}
		case nHavocAll:
			res = e.ufLeaf(cur.uf, cur.w, cur.lk, false, ref, idx)
			break walk
		}
		cur = cur.prev
	}
	cur.memo[k] = res
	for i := len(stack) - 1; i >= 0; i-- {
		res = c.Ite(stack[i].cond, stack[i].val, res)
		stack[i].n.memo[k] = res
	}
	n.memo[k] = res
	return res
}

// inRange is 0 <= d < n for lengths (n below 2^63).
func (e *Engine) inRange(d, n *T) *T {
	c := e.C
	if d.IsConst() && d.Val == 0 {
		return c.Ne(n, c.BV(0, 64))
	}
	return c.Ult(d, n)
}

// canon strips updates that cannot concern ref, giving a stable identity for
// the contents of ref.
func (e *Engine) canon(n *Node, ref *T) *Node {
	c := e.C
	for {
		switch n.kind {
		case nStore, nZero, nCopy, nHavoc:
			if c.Eq(ref, n.ref).IsFalse() {
				n = n.prev
				continue
			}
		case nHavocNew:
			if c.And(c.Ule(n.ref, ref), c.Ult(ref, c.BV(globalRef0, wRef))).IsFalse() {
				n = n.prev
				continue
			}
		}
		return n
	}
}
