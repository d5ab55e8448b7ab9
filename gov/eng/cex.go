package eng

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"go/types"

	"gov/smt"
)

// ModelCase is a counterexample candidate for a lemma: argument values as
// JSON, null where the type is not representable.
type ModelCase struct {
	Name string            `json:"name"`
	Args []json.RawMessage `json:"args"`
}

const cexBytes = 80

// counterexample asks the solver for argument values that refute goal.
func (e *Engine) counterexample(as []*T, old Mem) {
	if e.Lemma == "" || len(e.Cases) >= 4 || len(e.Inputs) == 0 {
		return
	}
	var want []*T
	at := make([]int, len(e.Inputs))
	for i, in := range e.Inputs {
		at[i] = len(want)
		switch u := in.Typ.Underlying().(type) {
		case *types.Basic:
			if isString(in.Typ) {
				want = append(want, in.Val[2])
				for k := 0; k < cexBytes; k++ {
					want = append(want, e.readByte(old, in.Val[0], e.C.AddK(in.Val[1], uint64(k))))
				}
			} else {
				want = append(want, in.Val[0])
			}
		case *types.Slice:
			if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				want = append(want, in.Val[2])
				for k := 0; k < cexBytes; k++ {
					want = append(want, e.readByte(old, in.Val[0], e.C.AddK(in.Val[1], uint64(k))))
				}
			}
		}
	}
	r, _ := e.sat(as, 5000, false, want)
	if r != smt.Sat {
		return
	}
	get := func(i int) uint64 { return e.LastModel[fmt.Sprintf("#%d", i)] }
	mc := ModelCase{Name: e.Lemma}
	for i, in := range e.Inputs {
		raw := json.RawMessage("null")
		bytes := func() []byte {
			n := get(at[i])
			if n > cexBytes {
				if n > 1<<20 {
					n = 1 << 20
				}
			}
			b := make([]byte, n)
			for k := range b {
				if k < cexBytes {
					b[k] = byte(get(at[i] + 1 + k))
				}
			}
			return b
		}
		switch u := in.Typ.Underlying().(type) {
		case *types.Basic:
			switch {
			case isString(in.Typ):
				raw, _ = json.Marshal(string(bytes()))
			case u.Info()&types.IsBoolean != 0:
				raw, _ = json.Marshal(get(at[i]) != 0)
			case isSigned(in.Typ):
				w := uint(in.Val[0].W)
				raw, _ = json.Marshal(int64(get(at[i])<<(64-w)) >> (64 - w))
			case isInt(in.Typ):
				raw, _ = json.Marshal(get(at[i]))
			}
		case *types.Slice:
			if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				raw, _ = json.Marshal(base64.StdEncoding.EncodeToString(bytes()))
			}
		}
		mc.Args = append(mc.Args, raw)
	}
	e.Cases = append(e.Cases, mc)
}
