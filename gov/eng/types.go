package eng

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/types/typeutil"
)

// Leaf describes one scalar component of a Go value.
type Leaf struct {
	Path string
	W    int
	Kind LeafKind
}

type LeafKind uint8

const (
	KInt  LeafKind = iota
	KBool          // W==0
	KPath          // pointer: static location class
	KRef           // object identity (pointer, slice, interface payload)
	KIRef          // interface payload: also a package variable (error sentinels)
	KSRef          // bytes of a string: never those of a slice
	KIdx           // pointer: element index
	KOff           // slice/string offset
	KLen           // slice/string length
	KCap           // slice capacity
	KTag           // interface dynamic type
	KFn            // function identity
)

const (
	wPath = 16
	wRef  = 32
	wTag  = 32
	wFn   = 32
	lenW  = 47 // all lengths, capacities and offsets of real memory are below 2^47
)

// Types caches layouts. One per Program (guarded by mutex where shared).
type Types struct {
	lay   map[string][]Leaf
	names typeutil.Map
}

// opaque lists library types which are represented by explicit scalar leaves.
var opaque = map[string][]Leaf{
	"net/netip.Addr": addrLeaves(),
	"sync.Mutex":     {{".opaque", 8, KInt}},
	"sync.RWMutex":   {{".opaque", 8, KInt}},
	"sync.Pool":      {{".opaque", 8, KInt}},
	"sync.Cond":      {{".opaque", 8, KInt}},
	"reflect.Value":  {{".id", 32, KInt}},
}

func addrLeaves() []Leaf {
	l := []Leaf{{".kind", 8, KInt}, {".zone", 32, KInt}}
	for i := 0; i < 16; i++ {
		l = append(l, Leaf{fmt.Sprintf(".a%d", i), 8, KInt})
	}
	return l
}

// tname is the canonical name of a type.
func tname(t types.Type) string {
	t = types.Unalias(t)
	if b, ok := t.(*types.Basic); ok {
		switch b.Kind() {
		case types.Uint8:
			return "uint8"
		case types.Int32:
			return "int32"
		}
		return b.Name()
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Path() })
}

func layout(t types.Type) []Leaf {
	t = types.Unalias(t)
	if n, ok := t.(*types.Named); ok {
		if l, ok := opaque[tname(n)]; ok {
			return l
		}
		// named types whose underlying struct is opaque (type IPv4AddressKey netip.Addr)
		if st, ok := n.Underlying().(*types.Struct); ok && isNetipAddrStruct(st) {
			return opaque["net/netip.Addr"]
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.String || u.Kind() == types.UntypedString:
			return []Leaf{{".r", wRef, KSRef}, {".o", 64, KOff}, {".l", 64, KLen}}
		case u.Info()&types.IsBoolean != 0:
			return []Leaf{{"", 0, KBool}}
		case u.Kind() == types.UnsafePointer:
			return ptrLeaves
		case u.Kind() == types.UntypedNil:
			return ptrLeaves
		case u.Info()&types.IsFloat != 0:
			return []Leaf{{".float", 64, KInt}}
		case u.Info()&types.IsComplex != 0:
			return []Leaf{{".cplx", 64, KInt}}
		}
		return []Leaf{{"", intWidth(u), KInt}}
	case *types.Pointer:
		return ptrLeaves
	case *types.Slice:
		return []Leaf{{".r", wRef, KRef}, {".o", 64, KOff}, {".l", 64, KLen}, {".c", 64, KCap}}
	case *types.Interface:
		return []Leaf{{".t", wTag, KTag}, {".p", wPath, KPath}, {".r", wRef, KIRef}, {".i", 64, KIdx}}
	case *types.Signature:
		return []Leaf{{".f", wFn, KFn}}
	case *types.Struct:
		var out []Leaf
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			for _, l := range layout(f.Type()) {
				out = append(out, Leaf{"." + f.Name() + l.Path, l.W, l.Kind})
			}
		}
		return out
	case *types.Array:
		if u.Len() > 64 {
			return []Leaf{{".bigarray", 32, KInt}}
		}
		var out []Leaf
		el := layout(u.Elem())
		for i := int64(0); i < u.Len(); i++ {
			for _, l := range el {
				out = append(out, Leaf{fmt.Sprintf("[%d]%s", i, l.Path), l.W, l.Kind})
			}
		}
		return out
	case *types.Tuple:
		var out []Leaf
		for i := 0; i < u.Len(); i++ {
			for _, l := range layout(u.At(i).Type()) {
				out = append(out, Leaf{fmt.Sprintf("#%d%s", i, l.Path), l.W, l.Kind})
			}
		}
		return out
	}
	// maps, channels, anything else: an opaque identity
	return []Leaf{{".opq", wRef, KRef}}
}

var ptrLeaves = []Leaf{{".p", wPath, KPath}, {".r", wRef, KRef}, {".i", 64, KIdx}}

func isNetipAddrStruct(st *types.Struct) bool {
	return st.NumFields() == 2 && st.Field(0).Name() == "addr" && st.Field(1).Name() == "z" &&
		st.Field(0).Pkg() != nil && st.Field(0).Pkg().Path() == "net/netip"
}

func intWidth(b *types.Basic) int {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.UntypedRune:
		return 32
	}
	return 64
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// locKey names the location class that a *T points into when T is a
// standalone variable or a slice/array element.
func locType(t types.Type) string {
	if a, ok := types.Unalias(t).Underlying().(*types.Array); ok {
		if _, named := types.Unalias(t).(*types.Named); !named {
			return locType(a.Elem())
		}
	}
	return tname(t)
}

func tupleOffset(tp *types.Tuple, i int) (int, int) {
	off := 0
	for k := 0; k < i; k++ {
		off += len(layout(tp.At(k).Type()))
	}
	return off, len(layout(tp.At(i).Type()))
}

func fieldOffset(st *types.Struct, i int) (int, int) {
	off := 0
	for k := 0; k < i; k++ {
		off += len(layout(st.Field(k).Type()))
	}
	return off, len(layout(st.Field(i).Type()))
}

func short(s string) string {
	s = strings.ReplaceAll(s, "github.com/dropmorepackets/haproxy-go/", "")
	return s
}
