package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/inklabs/rangedb"

// Prog is the loaded program.
type Prog struct {
	Dir    string
	Fset   *token.FileSet
	Pkgs   []*packages.Package // of the repository
	ByPath map[string]*packages.Package
	SSA    *ssa.Program
	T      *Terms
	live   map[*ssa.Function]*Liveness
	hdr    map[*ssa.BasicBlock]int
	gconst map[*ssa.Global]int
	All    map[*ssa.Function]bool
	Funcs  []*ssa.Function // every function with a body in the repository
}

// Load type-checks the repository's current source and builds its SSA form.
func Load(dir string) (*Prog, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local")}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, modPath) || p.PkgPath == "" {
			for _, e := range p.Errors {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("the repository does not type-check: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	P := &Prog{Dir: dir, Fset: prog.Fset, SSA: prog, T: NewTerms(), ByPath: map[string]*packages.Package{},
		live: map[*ssa.Function]*Liveness{}, hdr: map[*ssa.BasicBlock]int{}, gconst: map[*ssa.Global]int{}}
	for _, p := range pkgs {
		if strings.HasPrefix(p.PkgPath, modPath) {
			P.Pkgs = append(P.Pkgs, p)
			P.ByPath[p.PkgPath] = p
		}
	}
	sort.Slice(P.Pkgs, func(i, j int) bool { return P.Pkgs[i].PkgPath < P.Pkgs[j].PkgPath })
	P.All = ssautil.AllFunctions(prog)
	// methods of types that nothing in the program converts to an interface
	var addFn func(f *ssa.Function)
	addFn = func(f *ssa.Function) {
		if f == nil || P.All[f] {
			return
		}
		P.All[f] = true
		for _, g := range f.AnonFuncs {
			addFn(g)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && P.InRepo(g) {
						addFn(g)
					}
				}
			}
		}
	}
	for _, p := range P.Pkgs {
		sc := p.Types.Scope()
		for _, n := range sc.Names() {
			switch o := sc.Lookup(n).(type) {
			case *types.TypeName:
				if nm, ok := o.Type().(*types.Named); ok && !o.IsAlias() && nm.TypeParams().Len() == 0 {
					for i := 0; i < nm.NumMethods(); i++ {
						addFn(prog.FuncValue(nm.Method(i)))
					}
				}
			case *types.Func:
				addFn(prog.FuncValue(o))
			}
		}
	}
	for f := range P.All {
		if len(f.Blocks) > 0 && P.InRepo(f) && f.Synthetic == "" {
			P.Funcs = append(P.Funcs, f)
		}
	}
	sort.Slice(P.Funcs, func(i, j int) bool {
		a, b := P.Funcs[i], P.Funcs[j]
		if a.Pos() != b.Pos() {
			return a.Pos() < b.Pos()
		}
		return a.String() < b.String()
	})
	return P, nil
}

func pkgOf(f *ssa.Function) *types.Package {
	for g := f; g != nil; g = g.Parent() {
		if g.Pkg != nil {
			return g.Pkg.Pkg
		}
		if o := g.Object(); o != nil && o.Pkg() != nil {
			return o.Pkg()
		}
	}
	if f.Signature.Recv() != nil {
		if n := namedOf(f.Signature.Recv().Type()); n != nil {
			return n.Obj().Pkg()
		}
	}
	return nil
}

// InRepo: is the function's source in the repository?
func (P *Prog) InRepo(f *ssa.Function) bool {
	if f == nil {
		return false
	}
	p := pkgOf(f)
	if p == nil {
		// wrappers and bound methods
		if len(f.FreeVars) == 1 {
			if n := namedOf(f.FreeVars[0].Type()); n != nil && n.Obj().Pkg() != nil {
				return strings.HasPrefix(n.Obj().Pkg().Path(), modPath)
			}
		}
		return false
	}
	return strings.HasPrefix(p.Path(), modPath)
}

func namedOf(t types.Type) *types.Named {
	for {
		switch x := t.(type) {
		case *types.Pointer:
			t = x.Elem()
		case *types.Named:
			return x
		case *types.Alias:
			t = types.Unalias(x)
		default:
			return nil
		}
	}
}

// IsHeader: is the block a loop header?
func (P *Prog) IsHeader(b *ssa.BasicBlock) bool {
	if v, ok := P.hdr[b]; ok {
		return v == 1
	}
	r := 0
	for _, p := range b.Preds {
		if b.Dominates(p) {
			r = 1
		}
	}
	P.hdr[b] = r
	return r == 1
}

// ConstGlobal: is the package variable assigned only by its package's initialisation?
func (P *Prog) ConstGlobal(g *ssa.Global) bool {
	if v, ok := P.gconst[g]; ok {
		return v == 1
	}
	r := 1
	if g.Pkg == nil || !strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) {
		P.gconst[g] = 1
		return true
	}
	for f := range P.All {
		if f.Name() == "init" && f.Synthetic != "" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && st.Addr == g {
					r = 0
				}
			}
		}
	}
	P.gconst[g] = r
	return r == 1
}

// Liveness of a function's values.
type Liveness struct {
	f   *ssa.Function
	out map[*ssa.BasicBlock]map[ssa.Value]bool
	at  map[*ssa.BasicBlock][]map[ssa.Value]bool
}

func trackable(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin, nil:
		return false
	}
	return true
}

// Live computes (and caches) a function's liveness.
func (P *Prog) Live(f *ssa.Function) *Liveness {
	if l, ok := P.live[f]; ok {
		return l
	}
	l := &Liveness{f: f, out: map[*ssa.BasicBlock]map[ssa.Value]bool{}, at: map[*ssa.BasicBlock][]map[ssa.Value]bool{}}
	P.live[f] = l
	in := map[*ssa.BasicBlock]map[ssa.Value]bool{} // after phis
	transfer := func(b *ssa.BasicBlock, keepAll bool) map[ssa.Value]bool {
		cur := map[ssa.Value]bool{}
		for v := range l.out[b] {
			cur[v] = true
		}
		var ats []map[ssa.Value]bool
		if keepAll {
			ats = make([]map[ssa.Value]bool, len(b.Instrs)+1)
			ats[len(b.Instrs)] = copySet(cur)
		}
		fn := firstNonPhi(b)
		for i := len(b.Instrs) - 1; i >= fn; i-- {
			instr := b.Instrs[i]
			if v, ok := instr.(ssa.Value); ok {
				delete(cur, v)
			}
			var ops [16]*ssa.Value
			for _, op := range instr.Operands(ops[:0]) {
				if op != nil && trackable(*op) {
					cur[*op] = true
				}
			}
			if keepAll {
				ats[i] = copySet(cur)
			}
		}
		if keepAll {
			for i := 0; i < fn; i++ {
				ats[i] = copySet(cur)
			}
			l.at[b] = ats
		}
		return cur
	}
	for changed := true; changed; {
		changed = false
		for i := len(f.Blocks) - 1; i >= 0; i-- {
			b := f.Blocks[i]
			o := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range in[s] {
					if ph, ok := v.(*ssa.Phi); ok && ph.Block() == s {
						continue
					}
					o[v] = true
				}
				for pi, pr := range s.Preds {
					if pr != b {
						continue
					}
					for _, instr := range s.Instrs {
						ph, ok := instr.(*ssa.Phi)
						if !ok {
							break
						}
						if trackable(ph.Edges[pi]) {
							o[ph.Edges[pi]] = true
						}
					}
				}
			}
			l.out[b] = o
			n := transfer(b, false)
			if len(n) != len(in[b]) {
				changed = true
			}
			in[b] = n
		}
	}
	for _, b := range f.Blocks {
		transfer(b, true)
	}
	return l
}

func copySet(m map[ssa.Value]bool) map[ssa.Value]bool {
	n := make(map[ssa.Value]bool, len(m))
	for k := range m {
		n[k] = true
	}
	return n
}

// At: values live before instruction pc of block b (phis of b done).
func (l *Liveness) At(b *ssa.BasicBlock, pc int) map[ssa.Value]bool {
	a := l.at[b]
	if pc >= len(a) {
		pc = len(a) - 1
	}
	return a[pc]
}

// ---------------------------------------------------------------- finding things by type

// Pos renders a position relative to the repository.
func (P *Prog) Pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := P.Fset.Position(p)
	f := strings.TrimPrefix(q.Filename, P.Dir+"/")
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// Lookup finds a package-level object: Lookup("pkg/broadcast", "Broadcaster").
func (P *Prog) Lookup(pkg, name string) types.Object {
	path := modPath
	if pkg != "" {
		path += "/" + pkg
	}
	p := P.ByPath[path]
	if p == nil {
		return nil
	}
	return p.Types.Scope().Lookup(name)
}

// Iface finds an interface type of the repository.
func (P *Prog) Iface(pkg, name string) *types.Interface {
	o := P.Lookup(pkg, name)
	if o == nil {
		return nil
	}
	i, _ := o.Type().Underlying().(*types.Interface)
	return i
}

// IsTestSupport: packages that exist for tests, examples and generators' fixtures.
func IsTestSupport(path string) bool {
	rel := strings.TrimPrefix(strings.TrimPrefix(path, modPath), "/")
	for _, s := range []string{"rangedbtest", "pkg/crypto/cryptotest", "pkg/crypto/aes/aestest", "examples", "gen/", "provider/encryptedstore/encryptedstoretest"} {
		if rel == s || strings.HasPrefix(rel, s+"/") || strings.HasPrefix(rel, s) && strings.HasSuffix(s, "/") {
			return true
		}
	}
	return false
}

// Implementers lists the named types (by pointer) of non-test packages that implement an interface.
func (P *Prog) Implementers(it *types.Interface) []*types.Named {
	var out []*types.Named
	for _, p := range P.Pkgs {
		if IsTestSupport(p.PkgPath) {
			continue
		}
		sc := p.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			nm, ok := tn.Type().(*types.Named)
			if !ok || types.IsInterface(nm) {
				continue
			}
			if types.Implements(types.NewPointer(nm), it) {
				out = append(out, nm)
			}
		}
	}
	return out
}

// Method is the SSA function of a method of *T.
func (P *Prog) Method(n *types.Named, name string) *ssa.Function {
	ms := P.SSA.MethodSets.MethodSet(types.NewPointer(n))
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			f := P.SSA.MethodValue(ms.At(i))
			return f
		}
	}
	return nil
}

// Func finds a package-level function.
func (P *Prog) Func(pkg, name string) *ssa.Function {
	o, _ := P.Lookup(pkg, name).(*types.Func)
	if o == nil {
		return nil
	}
	return P.SSA.FuncValue(o)
}

// ExportedMethods lists the exported methods declared on *T (or T).
func (P *Prog) ExportedMethods(n *types.Named) []*ssa.Function {
	var out []*ssa.Function
	for i := 0; i < n.NumMethods(); i++ {
		m := n.Method(i)
		if m.Exported() {
			if f := P.SSA.FuncValue(m); f != nil {
				out = append(out, f)
			}
		}
	}
	return out
}

// File is the syntax of the file containing a position.
func (P *Prog) File(pos token.Pos) *ast.File {
	for _, p := range P.Pkgs {
		for _, f := range p.Syntax {
			if f.FileStart <= pos && pos <= f.FileEnd {
				return f
			}
		}
	}
	return nil
}

// Rel is a package path relative to the module.
func Rel(path string) string {
	return strings.TrimPrefix(strings.TrimPrefix(path, modPath), "/")
}

// FnName names a function for reports and known-findings keys.
func FnName(f *ssa.Function) string {
	s := f.String()
	s = strings.ReplaceAll(s, modPath+"/", "")
	s = strings.ReplaceAll(s, modPath, "rangedb")
	return s
}
