package eng

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const ModPath = "github.com/dropmorepackets/haproxy-go"

// Clause is one contract clause: a Go function of the overlay.
type Clause struct {
	Name  string
	Fn    *ssa.Function
	Props []string // empty: general (always checked)
	Opts  map[string]string
}

// Contract collects the clauses attached to one function.
type Contract struct {
	Fn       *ssa.Function // nil for interface methods
	Key      string
	Requires []Clause
	Ensures  []Clause
	Modifies []Clause
	Uses     []Clause // step clauses
	Panics   []Clause // what holds when it panics
	Grows    []Clause // slices that are kept or replaced by new ones
	Fresh    bool
	Det      bool
	MayPanic bool
	Opts     map[string]string
	Inline   bool       // contract is checked, callers use the body
	Abstract bool       // no body of its own (interface methods)
	Of       *Contract  // the interface method contract that a method has to meet
	Recv     types.Type // its receiver type
}

type Inv struct {
	Clause
	Target string // function key or "*"
}

type Lemma struct {
	Name  string
	Fn    *ssa.Function
	Props []string
	Opts  map[string]string
	Of    *ssa.Function // fact: the opaque function it is about
}

type Program struct {
	Dir       string
	Fset      *token.FileSet
	Pkgs      []*packages.Package
	Prog      *ssa.Program
	SSAPkgs   map[string]*ssa.Package
	Contracts map[string]*Contract // by function key
	Invs      []Inv
	Cuts      map[string]map[string][]Clause // target -> callee -> intermediate assertions
	Lemmas    []*Lemma
	Drivers   []*Lemma
	Rec       map[*ssa.Function]bool
	Opaque    map[*ssa.Function]bool
	Facts     map[*ssa.Function]*Lemma // by opaque function
	Pools     map[string]*PoolSpec
	Monitors  map[string]*MonitorSpec // by "Type.field" of the mutex
	LoopInfo  sync.Map
	SpecFiles map[string]string // overlay path -> real path
	Unroll    map[string]int
	Overlay   map[string][]byte // the specification files as loaded
	Dropped   []Drop

	mu sync.Mutex
}

// Drop is a piece of specification that does not fit the code any more.
type Drop struct {
	Name, Reason string
	Props        []string
	Lemma        bool
}

type PoolSpec struct {
	Global string
	Make   *ssa.Function // nondeterministic constructor
	Inv    *ssa.Function // what Put must establish
}

type MonitorSpec struct {
	Name  string
	Type  string // struct type holding the mutex
	Field string
	Inv   *ssa.Function
	Havoc *ssa.Function // modifies-style
	Guard []string
	Pkg   string
	Props []string
}

// Root is the location class of the struct holding the mutex.
func (m *MonitorSpec) Root() string { return m.Pkg + "." + m.Type }

// funcKey is the stable name of a function.
func funcKey(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	return short(f.RelString(nil))
}

// Load parses and type checks the module in dir together with the
// specification overlay found in specDir.
func Load(dir, specDir string) (*Program, error) {
	p := &Program{Dir: dir, Contracts: map[string]*Contract{}, Rec: map[*ssa.Function]bool{}, Opaque: map[*ssa.Function]bool{}, Facts: map[*ssa.Function]*Lemma{}, Pools: map[string]*PoolSpec{},
		Cuts: map[string]map[string][]Clause{}, Monitors: map[string]*MonitorSpec{}, SSAPkgs: map[string]*ssa.Package{}, SpecFiles: map[string]string{}, Unroll: map[string]int{}}
	overlay := map[string][]byte{}
	err := filepath.Walk(specDir, func(path string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return err
		}
		rel, _ := filepath.Rel(specDir, path)
		d := filepath.Dir(rel)
		to := filepath.Join(dir, d, "zz_verif_"+filepath.Base(rel))
		b, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		overlay[to] = b
		p.SpecFiles[to] = path
		return nil
	})
	if err != nil {
		return nil, err
	}
	// the intrinsics every specification file uses
	dirs := map[string]bool{}
	for to := range overlay {
		dirs[filepath.Dir(to)] = true
	}
	prelude, err := os.ReadFile(filepath.Join(specDir, "prelude.go.in"))
	if err != nil {
		return nil, err
	}
	for d := range dirs {
		b := strings.Replace(string(prelude), "package PKG", "package "+pkgNameOf(d, overlay), 1)
		overlay[filepath.Join(d, "zz_verif_prelude.go")] = []byte(b)
	}
	var pkgs []*packages.Package
	for round := 0; ; round++ {
		cfg := &packages.Config{
			Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
				packages.NeedExportFile | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
			Dir:     dir,
			Overlay: overlay,
			Env:     append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "CGO_ENABLED=0"),
		}
		pkgs, err = packages.Load(cfg, "./pkg/buffer", "./pkg/encoding", "./spop", "./peers", "./peers/sticktable")
		if err != nil {
			return nil, err
		}
		var errs []string
		again := false
		for _, q := range pkgs {
			for _, e := range q.Errors {
				errs = append(errs, e.Error())
				if p.dropAt(overlay, e.Pos, e.Msg) {
					again = true
				}
			}
		}
		if len(errs) == 0 {
			break
		}
		if !again || round > 12 {
			sort.Strings(errs)
			return nil, fmt.Errorf("%s", strings.Join(errs, "\n"))
		}
	}
	p.Overlay = overlay
	p.Pkgs = pkgs
	prog, ssap := ssautil.Packages(pkgs, ssa.InstantiateGenerics|ssa.GlobalDebug)
	p.Prog = prog
	p.Fset = prog.Fset
	for i, s := range ssap {
		if s == nil {
			return nil, fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
		}
		p.SSAPkgs[s.Pkg.Path()] = s
	}
	for _, s := range ssap {
		s.Build()
	}
	for i, q := range pkgs {
		for _, f := range q.Syntax {
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok && fd.Doc != nil {
					if err := p.directives(q, ssap[i], fd); err != nil {
						return nil, err
					}
				}
			}
		}
	}
	return p, nil
}

// dropAt blanks the declaration of a specification file that does not type
// check against the code.
func (p *Program) dropAt(overlay map[string][]byte, pos, msg string) bool {
	f := strings.Split(pos, ":")
	if len(f) < 2 {
		return false
	}
	src, ok := overlay[f[0]]
	if !ok || strings.HasSuffix(f[0], "zz_verif_prelude.go") {
		return false
	}
	line, _ := strconv.Atoi(f[1])
	fset := token.NewFileSet()
	af, err := parser.ParseFile(fset, f[0], src, parser.ParseComments)
	if err != nil {
		return false
	}
	if strings.Contains(msg, "imported and not used") {
		for _, im := range af.Imports {
			if fset.Position(im.Pos()).Line == line {
				a := fset.Position(im.Pos()).Offset
				n := append([]byte{}, src[:a]...)
				n = append(n, "_ "...)
				overlay[f[0]] = append(n, src[a:]...)
				return true
			}
		}
		return false
	}
	for _, d := range af.Decls {
		a, b := d.Pos(), d.End()
		name := "declaration"
		var doc *ast.CommentGroup
		switch x := d.(type) {
		case *ast.FuncDecl:
			doc, name = x.Doc, x.Name.Name
		case *ast.GenDecl:
			doc = x.Doc
			if x.Tok == token.IMPORT {
				continue
			}
		}
		if doc != nil {
			a = doc.Pos()
		}
		if fset.Position(a).Line > line || fset.Position(b).Line < line {
			continue
		}
		dr := Drop{Name: name, Reason: msg}
		if doc != nil {
			for _, cm := range doc.List {
				fs := strings.Fields(strings.TrimPrefix(cm.Text, "//@ "))
				if !strings.HasPrefix(cm.Text, "//@ ") || len(fs) < 2 {
					continue
				}
				if fs[0] == "lemma" || fs[0] == "driver" {
					dr.Props = append(dr.Props, strings.Split(fs[1], ",")...)
					dr.Lemma = true
				}
				for _, o := range fs {
					if strings.HasPrefix(o, "prop=") {
						dr.Props = append(dr.Props, strings.Split(o[5:], ",")...)
					}
				}
			}
		}
		p.Dropped = append(p.Dropped, dr)
		n := append([]byte{}, src...)
		for i := fset.Position(a).Offset; i < fset.Position(b).Offset; i++ {
			if n[i] != '\n' {
				n[i] = ' '
			}
		}
		overlay[f[0]] = n
		return true
	}
	return false
}

func pkgNameOf(dir string, overlay map[string][]byte) string {
	for to, b := range overlay {
		if filepath.Dir(to) == dir {
			for _, l := range strings.Split(string(b), "\n") {
				if strings.HasPrefix(l, "package ") {
					return strings.TrimSpace(strings.TrimPrefix(l, "package "))
				}
			}
		}
	}
	return "x"
}

// lookup resolves "F", "(*T).M", "(T).M" in package s.
func (p *Program) lookup(s *ssa.Package, name string) *ssa.Function {
	if strings.HasPrefix(name, "(") {
		i := strings.Index(name, ").")
		tn := strings.TrimPrefix(name[1:i], "*")
		m := name[i+2:]
		o := s.Pkg.Scope().Lookup(tn)
		if o == nil {
			return nil
		}
		t := o.Type()
		if strings.HasPrefix(name, "(*") {
			t = types.NewPointer(t)
		}
		sel := p.Prog.MethodSets.MethodSet(t).Lookup(s.Pkg, m)
		if sel == nil {
			return nil
		}
		return p.Prog.MethodValue(sel)
	}
	return s.Func(name)
}

func (p *Program) directives(q *packages.Package, s *ssa.Package, fd *ast.FuncDecl) error {
	for _, cm := range fd.Doc.List {
		if !strings.HasPrefix(cm.Text, "//@ ") {
			continue
		}
		fs := strings.Fields(strings.TrimPrefix(cm.Text, "//@ "))
		if len(fs) == 0 {
			continue
		}
		var self *ssa.Function
		if fd.Recv == nil {
			self = s.Func(fd.Name.Name)
		}
		opts := map[string]string{}
		var args []string
		for _, a := range fs[1:] {
			if i := strings.IndexByte(a, '='); i > 0 {
				opts[a[:i]] = a[i+1:]
			} else {
				args = append(args, a)
			}
		}
		var props []string
		if v := opts["prop"]; v != "" {
			props = strings.Split(v, ",")
		}
		cl := Clause{Name: fd.Name.Name, Fn: self, Props: props, Opts: opts}
		con := func() (*Contract, error) {
			if len(args) == 0 {
				return nil, fmt.Errorf("%s: directive %s needs a function", fd.Name.Name, fs[0])
			}
			if strings.HasPrefix(args[0], "iface:") {
				k := args[0]
				c := p.Contracts[k]
				if c == nil {
					c = &Contract{Key: k, Abstract: true}
					p.Contracts[k] = c
				}
				return c, nil
			}
			f := p.lookup(s, args[0])
			if f == nil {
				p.Dropped = append(p.Dropped, Drop{Name: fd.Name.Name, Reason: "function " + args[0] + " under contract does not exist", Props: props})
				return nil, nil
			}
			if why := clauseFits(f, self, fs[0] == "ensures"); why != "" {
				p.Dropped = append(p.Dropped, Drop{Name: fd.Name.Name, Reason: "signature of " + args[0] + ": " + why, Props: props})
				return nil, nil
			}
			k := funcKey(f)
			c := p.Contracts[k]
			if c == nil {
				c = &Contract{Fn: f, Key: k}
				p.Contracts[k] = c
			}
			return c, nil
		}
		switch fs[0] {
		case "requires", "ensures", "modifies", "grows", "panics":
			c, err := con()
			if err != nil {
				return err
			}
			if c == nil {
				continue
			}
			switch fs[0] {
			case "requires":
				c.Requires = append(c.Requires, cl)
			case "ensures":
				c.Ensures = append(c.Ensures, cl)
			case "panics":
				c.Panics = append(c.Panics, cl)
				c.MayPanic = true
			case "modifies":
				c.Modifies = append(c.Modifies, cl)
			case "grows":
				c.Grows = append(c.Grows, cl)
			}
			for k, v := range opts {
				if c.Opts == nil {
					c.Opts = map[string]string{}
				}
				c.Opts[k] = v
				switch k {
				case "fresh":
					c.Fresh = true
				case "det":
					c.Det = true
				case "maypanic":
					c.MayPanic = true
				case "inline":
					c.Inline = true
				}
			}
		case "inv":
			t := "*"
			if len(args) > 0 && args[0] != "*" {
				f := p.lookup(s, args[0])
				if f == nil {
					p.Dropped = append(p.Dropped, Drop{Name: fd.Name.Name, Reason: "function " + args[0] + " does not exist"})
					continue
				}
				t = funcKey(f)
			}
			p.Invs = append(p.Invs, Inv{cl, t})
		case "cut":
			// cut TARGET CALLEE: what the target's proof may use after each
			// call of the callee; proved there.
			if len(args) < 2 {
				return fmt.Errorf("%s: cut needs a target and a callee", fd.Name.Name)
			}
			f := p.lookup(s, args[0])
			g := s
			if i := strings.LastIndexByte(args[1], '!'); i >= 0 {
				for _, q := range p.SSAPkgs {
					if short(q.Pkg.Path()) == args[1][:i] {
						g = q
					}
				}
				args[1] = args[1][i+1:]
			}
			h := p.lookup(g, args[1])
			if f == nil || h == nil {
				p.Dropped = append(p.Dropped, Drop{Name: fd.Name.Name, Reason: "function " + args[0] + " or " + args[1] + " does not exist"})
				continue
			}
			k := funcKey(f)
			if p.Cuts[k] == nil {
				p.Cuts[k] = map[string][]Clause{}
			}
			p.Cuts[k][funcKey(h)] = append(p.Cuts[k][funcKey(h)], cl)
		case "lemma":
			p.Lemmas = append(p.Lemmas, &Lemma{Name: fd.Name.Name, Fn: self, Props: strings.Split(args[0], ","), Opts: opts})
		case "driver":
			p.Drivers = append(p.Drivers, &Lemma{Name: fd.Name.Name, Fn: self, Props: strings.Split(args[0], ","), Opts: opts})
		case "rec":
			p.Rec[self] = true
		case "opaque":
			p.Opaque[self] = true
		case "fact":
			f := s.Func(args[0])
			if f == nil {
				continue
			}
			p.Facts[f] = &Lemma{Name: fd.Name.Name, Fn: self, Opts: opts, Of: f}
		case "poolmake", "poolinv":
			k := short(s.Pkg.Path()) + "." + args[0]
			ps := p.Pools[k]
			if ps == nil {
				ps = &PoolSpec{Global: k}
				p.Pools[k] = ps
			}
			if fs[0] == "poolmake" {
				ps.Make = self
			} else {
				ps.Inv = self
			}
		case "monitor", "monitormod":
			k := short(s.Pkg.Path()) + "." + args[0]
			m := p.Monitors[k]
			if m == nil {
				i := strings.IndexByte(args[0], '.')
				m = &MonitorSpec{Name: k, Type: args[0][:i], Field: args[0][i+1:], Pkg: s.Pkg.Path()}
				p.Monitors[k] = m
			}
			if g := opts["guard"]; g != "" {
				m.Guard = strings.Split(g, ",")
			}
			if len(props) > 0 {
				m.Props = props
			}
			if fs[0] == "monitor" {
				m.Inv = self
			} else {
				m.Havoc = self
			}
		default:
			return fmt.Errorf("%s: unknown directive %q", fd.Name.Name, fs[0])
		}
	}
	return nil
}

// clauseFits compares the parameters of a clause with the function's.
func clauseFits(f, cl *ssa.Function, results bool) string {
	var want []types.Type
	for _, p := range f.Params {
		want = append(want, p.Type())
	}
	if results {
		for i := 0; i < f.Signature.Results().Len(); i++ {
			want = append(want, f.Signature.Results().At(i).Type())
		}
	}
	if len(cl.Params) > len(want) {
		return "too many parameters in the clause"
	}
	for i, p := range cl.Params {
		if !types.Identical(p.Type(), want[i]) {
			return fmt.Sprintf("parameter %d is %v, the clause expects %v", i, want[i], p.Type())
		}
	}
	return ""
}
