package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// The caller's context governs what is done on behalf of an operation: in everything an operation reaches, each call
// that takes a context gets the operation's or one derived from it, and no variant without a context is called.

// ctxRoots are the operations: methods of stores, gRPC services and HTTP handlers that are given a context.
func ctxRoots(P *Prog) []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	add := func(f *ssa.Function) {
		if f != nil && !seen[f] && f.Blocks != nil {
			seen[f] = true
			out = append(out, f)
		}
	}
	var ts []*types.Named
	ts = append(ts, P.Implementers(P.Iface("", "Store"))...)
	ts = append(ts, grpcServers(P)...)
	for _, t := range ts {
		for _, f := range P.ExportedMethods(t) {
			for i := 0; i < f.Signature.Params().Len(); i++ {
				if carriesCtx(f.Signature.Params().At(i).Type()) {
					add(f)
				}
			}
		}
	}
	for _, f := range P.Funcs {
		if isHandler(f) && !isExample(f) {
			add(f)
		}
	}
	return out
}

func isExample(f *ssa.Function) bool {
	pk := pkgOf(f)
	if pk == nil {
		return true
	}
	for _, p := range []string{modPath + "/examples", modPath + "/gen", modPath + "/rangedbtest", modPath + "/pkg/crypto/cryptotest"} {
		if pk.Path() == p || len(pk.Path()) > len(p) && pk.Path()[:len(p)+1] == p+"/" {
			return true
		}
	}
	return false
}

// isHandler: a function with the signature of an HTTP handler.
func isHandler(f *ssa.Function) bool {
	p := f.Signature.Params()
	return p.Len() == 2 && isNamedIn(p.At(0).Type(), "net/http", "ResponseWriter") && types.TypeString(p.At(1).Type(), nil) == "*net/http.Request"
}

// carriesCtx: a context, or something with a method Context() that returns one.
func carriesCtx(t types.Type) bool {
	if isCtxType(t) {
		return true
	}
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		f := ms.At(i).Obj().(*types.Func)
		s := f.Type().(*types.Signature)
		if f.Name() == "Context" && s.Params().Len() == 0 && s.Results().Len() == 1 && isCtxType(s.Results().At(0).Type()) {
			return true
		}
	}
	return false
}

// staticReach lists what f reaches through static calls, deferred and spawned calls, and closures it makes.
func staticReach(P *Prog, roots []*ssa.Function) map[*ssa.Function]*ssa.Function {
	from := map[*ssa.Function]*ssa.Function{}
	work := append([]*ssa.Function{}, roots...)
	for _, f := range roots {
		from[f] = nil
	}
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, _ := (*op).(*ssa.Function)
					if g == nil {
						if mc, ok := (*op).(*ssa.MakeClosure); ok {
							g, _ = mc.Fn.(*ssa.Function)
						}
					}
					if g == nil || !P.InRepo(g) || g.Blocks == nil {
						continue
					}
					if _, ok := from[g]; !ok {
						from[g] = f
						work = append(work, g)
					}
				}
			}
		}
	}
	return from
}

// detached finds a context in v's provenance that does not come from a caller. It looks through phis, derivations and
// local variables.
func detached(v ssa.Value, seen map[ssa.Value]bool) ssa.Value {
	if v == nil || seen[v] {
		return nil
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		return x // a nil context
	case *ssa.Phi:
		for _, e := range x.Edges {
			if d := detached(e, seen); d != nil {
				return d
			}
		}
	case *ssa.Extract:
		return detached(x.Tuple, seen)
	case *ssa.MakeInterface:
		return detached(x.X, seen)
	case *ssa.ChangeInterface:
		return detached(x.X, seen)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if a, ok := x.X.(*ssa.Alloc); ok {
				for _, ref := range *a.Referrers() {
					if st, ok := ref.(*ssa.Store); ok && st.Addr == a {
						if d := detached(st.Val, seen); d != nil {
							return d
						}
					}
				}
				return nil
			}
			if g, ok := x.X.(*ssa.Global); ok {
				return g
			}
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				// a context kept in an object that outlives the operation
				if p, ok := fa.X.(*ssa.Parameter); ok && p.Parent().Signature.Recv() != nil && len(p.Parent().Params) > 0 && p.Parent().Params[0] == p && hasCtxParam(p.Parent()) {
					return x
				}
			}
		}
	case *ssa.Call:
		f := x.Call.StaticCallee()
		if f == nil {
			return nil // an interface's Context()
		}
		switch f.String() {
		case "context.Background", "context.TODO", "context.WithoutCancel":
			return x
		}
		for _, a := range x.Call.Args {
			if isCtxType(a.Type()) {
				if d := detached(a, seen); d != nil {
					return d
				}
			}
		}
		if f.Pkg != nil && f.Blocks != nil && x.Parent() != nil && x.Parent().Pkg != nil && len(f.Pkg.Pkg.Path()) >= len(modPath) && f.Pkg.Pkg.Path()[:len(modPath)] == modPath {
			for _, b := range f.Blocks {
				if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					for _, y := range r.Results {
						if isCtxType(y.Type()) {
							if d := detached(y, seen); d != nil {
								return d
							}
						}
					}
				}
			}
		}
	}
	return nil
}

func hasCtxParam(f *ssa.Function) bool {
	for i := 0; i < f.Signature.Params().Len(); i++ {
		if carriesCtx(f.Signature.Params().At(i).Type()) {
			return true
		}
	}
	return false
}

// ctxVariant names the variant of a library function that takes a context, if it has one.
func ctxVariant(f *types.Func) string {
	s := f.Type().(*types.Signature)
	for i := 0; i < s.Params().Len(); i++ {
		if isCtxType(s.Params().At(i).Type()) {
			return ""
		}
	}
	if f.Pkg() == nil {
		return ""
	}
	takes := func(g *types.Func) bool {
		p := g.Type().(*types.Signature).Params()
		return p.Len() > 0 && isCtxType(p.At(0).Type())
	}
	for _, n := range []string{f.Name() + "Context", f.Name() + "WithContext", f.Name() + "Tx"} {
		if s.Recv() == nil {
			if g, ok := f.Pkg().Scope().Lookup(n).(*types.Func); ok && takes(g) {
				return n
			}
			continue
		}
		o, _, _ := types.LookupFieldOrMethod(s.Recv().Type(), true, f.Pkg(), n)
		if g, ok := o.(*types.Func); ok && takes(g) {
			return n
		}
	}
	return ""
}

func ctxPass(P *Prog, R *Report) {
	roots := ctxRoots(P)
	from := staticReach(P, roots)
	for _, f := range roots {
		R.Obl("operations given a context pass it on", FnName(f))
	}
	for f := range from {
		if isExample(f) {
			continue
		}
		R.Item("functions reached by operations", FnName(f))
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && isCtxType(st.Val.Type()) {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
						if d := detached(st.Val, map[ssa.Value]bool{}); d != nil {
							R.Fail("detached:"+FnName(f)+":"+fieldLabel(fa), in.Pos(), FnName(f)+" keeps a context that does not come from the operation's caller", nil)
						}
					}
					continue
				}
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := ci.Common()
				name := calleeLabel(cc)
				for _, a := range cc.Args {
					if !isCtxType(a.Type()) {
						continue
					}
					if isCtxCall(cc) && !isWithoutCancel(cc) {
						continue // the derivation is judged where its result is used
					}
					R.Item("context arguments", P.Pos(in.Pos()))
					if d := detached(a, map[ssa.Value]bool{}); d != nil {
						R.Fail("detached:"+FnName(f)+":"+name, in.Pos(), FnName(f)+" calls "+name+" on behalf of an operation with a context that does not come from the operation's caller", nil)
					}
				}
				if g := cc.StaticCallee(); g != nil && g.Object() != nil && !P.InRepo(g) {
					if fo, ok := g.Object().(*types.Func); ok && blockingLib(fo) {
						if v := ctxVariant(fo); v != "" {
							R.Fail("without-context:"+FnName(f)+":"+name, in.Pos(), FnName(f)+" calls "+name+" on behalf of an operation, which ignores the operation's context ("+v+" takes it)", nil)
						}
					}
				}
			}
		}
	}
	R.Need("operations given a context pass it on", 45)
}

func isCtxCall(cc *ssa.CallCommon) bool {
	g := cc.StaticCallee()
	return g != nil && g.Pkg != nil && g.Pkg.Pkg.Path() == "context"
}

func isWithoutCancel(cc *ssa.CallCommon) bool {
	g := cc.StaticCallee()
	return g != nil && g.String() == "context.WithoutCancel"
}

// blockingLib: libraries that wait for another party.
func blockingLib(f *types.Func) bool {
	return in(f.Pkg().Path(), pkgSQL, "net/http", "net", "os/exec", "google.golang.org/grpc")
}

func calleeLabel(cc *ssa.CallCommon) string {
	if cc.IsInvoke() {
		return cc.Method.FullName()
	}
	if g := cc.StaticCallee(); g != nil {
		return g.String()
	}
	return "a function value"
}

func fieldLabel(fa *ssa.FieldAddr) string {
	if st := structOf(fa.X.Type()); st != nil {
		return st.Field(fa.Field).Name()
	}
	return "field"
}
