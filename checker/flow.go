package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Flow answers where a value comes from, over the whole program: a backward data-flow analysis on the SSA form,
// through calls (all callers of a function, all implementations of an interface method of the repository), fields
// (all stores to the same field of the same type), local variables, slices and maps.
type Flow struct {
	P        *Prog
	calls    map[*ssa.Function][]ssa.CallInstruction // static calls
	dynamic  map[*ssa.Function]bool                  // also reached through a value or an interface
	invokes  map[string][]ssa.CallInstruction        // by method name
	closures map[*ssa.Function][]*ssa.MakeClosure
	fields   map[string][]ssa.Value // values stored to a field
	globals  map[*ssa.Global][]ssa.Value
	byName   map[string][]*ssa.Function // methods of the repository by name
	dynCalls []ssa.CallInstruction      // calls of function values
}

var flowOf *Flow

// NewFlow indexes the program.
func NewFlow(P *Prog) *Flow {
	if flowOf != nil && flowOf.P == P {
		return flowOf
	}
	F := &Flow{P: P, calls: map[*ssa.Function][]ssa.CallInstruction{}, dynamic: map[*ssa.Function]bool{}, invokes: map[string][]ssa.CallInstruction{},
		closures: map[*ssa.Function][]*ssa.MakeClosure{}, fields: map[string][]ssa.Value{}, globals: map[*ssa.Global][]ssa.Value{}, byName: map[string][]*ssa.Function{}}
	fns := append([]*ssa.Function{}, P.Funcs...)
	for f := range P.All {
		if f.Synthetic != "" && f.Blocks != nil && P.InRepo(f) {
			fns = append(fns, f)
		}
	}
	for _, f := range fns {
		if f.Signature.Recv() != nil {
			F.byName[f.Name()] = append(F.byName[f.Name()], f)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var callee ssa.Value
				if ci, ok := in.(ssa.CallInstruction); ok {
					cc := ci.Common()
					if cc.IsInvoke() {
						F.invokes[cc.Method.Name()] = append(F.invokes[cc.Method.Name()], ci)
					} else if g := cc.StaticCallee(); g != nil {
						F.calls[g] = append(F.calls[g], ci)
						callee = cc.Value
					} else {
						F.dynCalls = append(F.dynCalls, ci)
					}
				}
				switch x := in.(type) {
				case *ssa.MakeClosure:
					if g, ok := x.Fn.(*ssa.Function); ok {
						F.closures[g] = append(F.closures[g], x)
					}
				case *ssa.MapUpdate:
					// an entry of a map held in a field
					if u, ok := x.Map.(*ssa.UnOp); ok && u.Op == token.MUL {
						if a, ok := u.X.(*ssa.FieldAddr); ok {
							k := fieldKey(a.X.Type(), a.Field)
							F.fields[k] = append(F.fields[k], x.Key, x.Value)
						}
					}
				case *ssa.Store:
					switch a := x.Addr.(type) {
					case *ssa.FieldAddr:
						k := fieldKey(a.X.Type(), a.Field)
						F.fields[k] = append(F.fields[k], x.Val)
					case *ssa.Global:
						F.globals[a] = append(F.globals[a], x.Val)
					}
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && *op != callee {
						if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == g {
							continue
						}
						F.dynamic[g] = true
					}
				}
			}
		}
	}
	flowOf = F
	return F
}

func fieldKey(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st, _ := t.Underlying().(*types.Struct)
	if st == nil {
		return "?"
	}
	return types.TypeString(t, nil) + "." + st.Field(i).Name()
}

// Walk visits every value v may be made of. visit returns false to stop at a value; the walk then does not look at
// what that value is made of.
type Walk struct {
	F     *Flow
	Visit func(v ssa.Value, key string) bool // key names the field for loads
	Lib   func(c *ssa.Call, idx int) bool    // do a library call's arguments flow into its result?
	// FieldOnly: a field is what is stored to that field of its type, not what the whole struct is made of
	FieldOnly bool
	// Fill (optional) is told of library calls that are given a pointer to something the value may be made of
	Fill  func(ci ssa.CallInstruction, a ssa.Value)
	sv    map[visitKey]bool
	cells map[ssa.Value]bool
	fld   map[string]bool
}

type visitKey struct {
	v   ssa.Value
	idx int
}

func (F *Flow) NewWalk(visit func(v ssa.Value, key string) bool, lib func(c *ssa.Call, idx int) bool) *Walk {
	return &Walk{F: F, Visit: visit, Lib: lib, sv: map[visitKey]bool{}, cells: map[ssa.Value]bool{}, fld: map[string]bool{}}
}

func (w *Walk) V(v ssa.Value) { w.v(v, -1) }

// v visits a value; idx selects a component of a tuple.
func (w *Walk) v(v ssa.Value, idx int) {
	if v == nil {
		return
	}
	vk := visitKey{v, idx}
	if w.sv[vk] {
		return
	}
	w.sv[vk] = true
	key := ""
	switch x := v.(type) {
	case *ssa.FieldAddr:
		key = fieldKey(x.X.Type(), x.Field)
	case *ssa.Field:
		key = fieldKey(x.X.Type(), x.Field)
	}
	if !w.Visit(v, key) {
		return
	}
	switch x := v.(type) {
	case *ssa.Const, *ssa.Builtin, *ssa.Function:
	case *ssa.Global:
		for _, s := range w.F.globals[x] {
			w.v(s, -1)
		}
		w.cell(x)
	case *ssa.Parameter:
		w.param(x)
	case *ssa.FreeVar:
		f := x.Parent()
		for i, fv := range f.FreeVars {
			if fv == x {
				for _, mc := range w.F.closures[f] {
					w.v(mc.Bindings[i], -1)
				}
			}
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			w.v(e, -1)
		}
	case *ssa.ChangeType:
		w.v(x.X, -1)
	case *ssa.ChangeInterface:
		w.v(x.X, -1)
	case *ssa.MakeInterface:
		w.v(x.X, -1)
	case *ssa.Convert:
		w.v(x.X, -1)
	case *ssa.MultiConvert:
		w.v(x.X, -1)
	case *ssa.SliceToArrayPointer:
		w.v(x.X, -1)
	case *ssa.TypeAssert:
		w.v(x.X, -1)
	case *ssa.BinOp:
		switch x.Op {
		case token.EQL, token.NEQ, token.LSS, token.GTR, token.LEQ, token.GEQ:
			return
		}
		w.v(x.X, -1)
		w.v(x.Y, -1)
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return
		}
		w.v(x.X, -1)
	case *ssa.FieldAddr:
		w.field(key)
		// whole values stored into the struct
		if !w.FieldOnly {
			w.cell(x.X)
		}
		w.cell(x)
	case *ssa.Field:
		w.field(key)
		if !w.FieldOnly {
			w.v(x.X, -1)
		}
	case *ssa.IndexAddr:
		w.v(x.X, -1)
	case *ssa.Index:
		w.v(x.X, -1)
	case *ssa.Slice:
		w.v(x.X, -1)
	case *ssa.Lookup:
		w.v(x.X, -1)
	case *ssa.Extract:
		if _, ok := x.Tuple.(*ssa.Call); ok {
			w.v(x.Tuple, x.Index)
		} else {
			w.v(x.Tuple, -1)
		}
	case *ssa.Next:
		w.v(x.Iter, -1)
	case *ssa.Range:
		w.v(x.X, -1)
	case *ssa.Alloc:
		w.cell(x)
	case *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan:
		w.cell(v)
	case *ssa.MakeClosure:
	case *ssa.Call:
		w.call(x, idx)
	}
}

func (w *Walk) field(key string) {
	if w.fld[key] {
		return
	}
	w.fld[key] = true
	for _, s := range w.F.fields[key] {
		w.v(s, -1)
	}
}

// cell: what is stored through an address, a slice, a map or a builder, locally.
func (w *Walk) cell(a ssa.Value) {
	if a == nil || w.cells[a] {
		return
	}
	w.cells[a] = true
	refs := a.Referrers()
	if refs == nil {
		return
	}
	for _, r := range *refs {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr == a {
				w.v(x.Val, -1)
			}
		case *ssa.MapUpdate:
			if x.Map == a {
				w.v(x.Key, -1)
				w.v(x.Value, -1)
			}
		case *ssa.Send:
			if x.Chan == a {
				w.v(x.X, -1)
			}
		case *ssa.IndexAddr:
			if x.X == a {
				w.cell(x)
			}
		case *ssa.FieldAddr:
			if x.X == a {
				w.cell(x)
			}
		case *ssa.Slice:
			if x.X == a {
				w.cell(x)
			}
		case *ssa.MakeInterface:
			if x.X == a {
				w.cell(x)
			}
		case *ssa.ChangeInterface:
			if x.X == a {
				w.cell(x)
			}
		case *ssa.ChangeType:
			if x.X == a {
				w.cell(x)
			}
		case *ssa.Phi:
			w.cell(x)
		case *ssa.MakeClosure:
			if g, ok := x.Fn.(*ssa.Function); ok {
				for i, b := range x.Bindings {
					if b == a {
						w.cell(g.FreeVars[i])
					}
				}
			}
		case ssa.CallInstruction:
			w.writtenBy(x, a)
		}
	}
}

// writtenBy: a call that is given a pointer, slice or builder may fill it with its other arguments.
func (w *Walk) writtenBy(ci ssa.CallInstruction, a ssa.Value) {
	cc := ci.Common()
	if bt, ok := cc.Value.(*ssa.Builtin); ok {
		if bt.Name() == "copy" && len(cc.Args) == 2 && cc.Args[0] == a {
			w.v(cc.Args[1], -1)
		}
		return
	}
	switch a.Type().Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Interface, *types.Map:
	default:
		return
	}
	if g := cc.StaticCallee(); g != nil && w.F.P.InRepo(g) && g.Blocks != nil {
		for i, x := range cc.Args {
			if x == a && i < len(g.Params) {
				w.cell(g.Params[i])
			}
		}
		return
	}
	if w.Fill != nil {
		w.Fill(ci, a)
	}
	c, _ := ci.(*ssa.Call)
	if c == nil || w.Lib == nil || !w.Lib(c, -2) {
		return
	}
	for _, x := range callArgs(cc) {
		if x != a {
			w.v(x, -1)
		}
	}
	// an encoder or writer made for it: what goes through that ends up here
	switch c.Type().Underlying().(type) {
	case *types.Pointer, *types.Interface:
		if !isErrType(c.Type()) {
			w.cell(c)
		}
	}
}

// callArgs: the receiver of an interface call included.
func callArgs(cc *ssa.CallCommon) []ssa.Value {
	if cc.IsInvoke() {
		return append([]ssa.Value{cc.Value}, cc.Args...)
	}
	return cc.Args
}

func (w *Walk) param(x *ssa.Parameter) {
	f := x.Parent()
	i := -1
	for k, p := range f.Params {
		if p == x {
			i = k
		}
	}
	for _, ci := range w.F.calls[f] {
		if a := ci.Common().Args; i < len(a) {
			w.v(a[i], -1)
		}
	}
	if f.Signature.Recv() != nil && i > 0 {
		for _, ci := range w.F.invokes[f.Name()] {
			cc := ci.Common()
			if len(cc.Args) == len(f.Params)-1 && types.Identical(cc.Method.Type().(*types.Signature).Params(), f.Signature.Params()) {
				w.v(cc.Args[i-1], -1)
			}
		}
	}
	if w.F.dynamic[f] || len(w.F.closures[f]) > 0 {
		for _, ci := range w.F.dynCalls {
			cc := ci.Common()
			if s, ok := cc.Value.Type().Underlying().(*types.Signature); ok && types.Identical(s, f.Signature) && i < len(cc.Args) {
				w.v(cc.Args[i], -1)
			}
		}
	}
	w.cell(x)
}

// Targets are the functions of the repository a call may run.
func (F *Flow) Targets(cc *ssa.CallCommon) []*ssa.Function {
	if cc.IsInvoke() {
		var out []*ssa.Function
		it, _ := cc.Value.Type().Underlying().(*types.Interface)
		for _, f := range F.byName[cc.Method.Name()] {
			if it != nil && f.Synthetic == "" && types.Implements(f.Signature.Recv().Type(), it) {
				out = append(out, f)
			}
		}
		return out
	}
	if g := cc.StaticCallee(); g != nil {
		if F.P.InRepo(g) && g.Blocks != nil {
			return []*ssa.Function{g}
		}
		return nil
	}
	return nil
}

func (w *Walk) call(c *ssa.Call, idx int) {
	cc := c.Common()
	if bt, ok := cc.Value.(*ssa.Builtin); ok {
		switch bt.Name() {
		case "append", "min", "max":
			for _, a := range cc.Args {
				w.v(a, -1)
			}
		}
		return
	}
	ts := w.F.Targets(cc)
	for _, g := range ts {
		for _, b := range g.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				for i, y := range r.Results {
					if idx < 0 || i == idx {
						w.v(y, -1)
					}
				}
			}
		}
	}
	if len(ts) == 0 || cc.IsInvoke() {
		if w.Lib != nil && w.Lib(c, idx) {
			for _, a := range callArgs(cc) {
				w.v(a, -1)
			}
			// the arguments' contents
			for _, a := range callArgs(cc) {
				if _, ok := a.Type().Underlying().(*types.Pointer); ok {
					w.cell(a)
				}
			}
		}
	}
}

// inPkg: is the function declared in a package below one of the paths?
func inPkg(f *ssa.Function, paths ...string) bool {
	p := pkgOf(f)
	if p == nil {
		return false
	}
	for _, x := range paths {
		if p.Path() == x || strings.HasPrefix(p.Path(), x+"/") {
			return true
		}
	}
	return false
}
