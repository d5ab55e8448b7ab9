package smt

import (
	"fmt"
	"strings"
)

func sortName(w int) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

var opNames = map[Op]string{OpNot: "not", OpAnd: "and", OpOr: "or", OpIte: "ite", OpEq: "=", OpMul: "bvmul",
	OpUDiv: "bvudiv", OpURem: "bvurem", OpSDiv: "bvsdiv", OpSRem: "bvsrem", OpBAnd: "bvand", OpBOr: "bvor", OpBXor: "bvxor",
	OpBNot: "bvnot", OpShl: "bvshl", OpLshr: "bvlshr", OpAshr: "bvashr", OpConcat: "concat", OpUlt: "bvult", OpSlt: "bvslt"}

func constStr(v uint64, w int) string {
	if w == 0 {
		if v == 1 {
			return "true"
		}
		return "false"
	}
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*x", w/4, v)
	}
	return fmt.Sprintf("(_ bv%d %d)", v, w)
}

type Printer struct {
	sb    strings.Builder
	names map[*Term]string
	decl  map[string]bool
	n     int
}

func NewPrinter() *Printer { return &Printer{names: map[*Term]string{}, decl: map[string]bool{}} }

var quoter = strings.NewReplacer("|", "~", "\\", "/")

func quote(s string) string { return "|" + quoter.Replace(s) + "|" }

// Ref prints definitions needed for t and returns a name/expression for it.
func (p *Printer) Ref(t *Term) string {
	if s, ok := p.names[t]; ok {
		return s
	}
	switch t.Op {
	case OpConst:
		return constStr(t.Val, t.W)
	case OpVar:
		if !p.decl[t.Name] {
			p.decl[t.Name] = true
			fmt.Fprintf(&p.sb, "(declare-fun %s () %s)\n", quote(t.Name), sortName(t.W))
		}
		return quote(t.Name)
	case OpForall:
		panic("quantifier reached printer")
	}
	as := make([]string, len(t.Args))
	for i, a := range t.Args {
		as[i] = p.Ref(a)
	}
	var e string
	switch t.Op {
	case OpApp:
		if !p.decl[t.Name] {
			p.decl[t.Name] = true
			var ss []string
			for _, a := range t.Args {
				ss = append(ss, sortName(a.W))
			}
			fmt.Fprintf(&p.sb, "(declare-fun %s (%s) %s)\n", quote(t.Name), strings.Join(ss, " "), sortName(t.W))
		}
		e = "(" + quote(t.Name) + " " + strings.Join(as, " ") + ")"
	case OpLin:
		var parts []string
		for i, a := range as {
			switch {
			case t.Coefs[i] == 1:
				parts = append(parts, a)
			case t.Coefs[i] == mask(t.W):
				parts = append(parts, "(bvneg "+a+")")
			default:
				parts = append(parts, "(bvmul "+constStr(t.Coefs[i], t.W)+" "+a+")")
			}
		}
		if t.Val != 0 {
			parts = append(parts, constStr(t.Val, t.W))
		}
		e = parts[0]
		for _, q := range parts[1:] {
			e = "(bvadd " + e + " " + q + ")"
		}
	case OpExtract:
		e = fmt.Sprintf("((_ extract %d %d) %s)", t.Hi, t.Lo, as[0])
	case OpZext:
		e = fmt.Sprintf("((_ zero_extend %d) %s)", t.W-t.Args[0].W, as[0])
	case OpSext:
		e = fmt.Sprintf("((_ sign_extend %d) %s)", t.W-t.Args[0].W, as[0])
	default:
		e = "(" + opNames[t.Op] + " " + strings.Join(as, " ") + ")"
	}
	p.n++
	nm := fmt.Sprintf("t%d", p.n)
	fmt.Fprintf(&p.sb, "(define-fun %s () %s %s)\n", nm, sortName(t.W), e)
	p.names[t] = nm
	return nm
}

func (p *Printer) Assert(t *Term) {
	r := p.Ref(t)
	fmt.Fprintf(&p.sb, "(assert %s)\n", r)
}

func (p *Printer) String() string { return p.sb.String() }

// Pretty renders a term for humans (bounded depth).
func Pretty(t *Term, d int) string {
	if d <= 0 {
		return "…"
	}
	switch t.Op {
	case OpConst:
		if t.W == 0 {
			return constStr(t.Val, 0)
		}
		if t.Val > 1<<62 {
			return fmt.Sprintf("%d", sx(t.Val, t.W))
		}
		return fmt.Sprintf("%d", t.Val)
	case OpVar:
		return t.Name
	}
	var as []string
	for i, a := range t.Args {
		s := Pretty(a, d-1)
		if t.Op == OpLin && t.Coefs[i] != 1 {
			s = fmt.Sprintf("%d*%s", sx(t.Coefs[i], t.W), s)
		}
		as = append(as, s)
	}
	switch t.Op {
	case OpApp:
		return t.Name + "(" + strings.Join(as, ",") + ")"
	case OpLin:
		if t.Val != 0 {
			as = append(as, fmt.Sprintf("%d", sx(t.Val, t.W)))
		}
		return "(" + strings.Join(as, "+") + ")"
	case OpExtract:
		return fmt.Sprintf("%s[%d:%d]", as[0], t.Hi, t.Lo)
	case OpZext:
		return "zx(" + as[0] + ")"
	case OpSext:
		return "sx(" + as[0] + ")"
	case OpForall:
		return "forall " + as[0] + ". " + as[1]
	}
	return "(" + opNames[t.Op] + " " + strings.Join(as, " ") + ")"
}
