package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C20: integers survive exactly.

const (
	ruleOpenDecode = "JSON of unknown type is decoded with UseNumber"
	ruleNoFloat    = "no integer goes through a floating-point number"
	ruleParse64    = "numbers in texts are parsed and formatted as 64-bit decimals"
	ruleNarrow     = "sequence numbers are not narrowed"
	ruleSeqType    = "sequence numbers are declared as uint64"
)

type numberRule struct {
	P *Prog
	R *Report
	F *Flow
}

var seqName = regexp.MustCompile(`(?i)sequence_?numbers?$`)

func exactNumbers(P *Prog, R *Report) {
	r := &numberRule{P: P, R: R, F: NewFlow(P)}
	for _, f := range P.Funcs {
		if r.outside(pkgOf(f)) || isExample(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				r.instr(f, ins)
			}
		}
	}
	r.decls()
	r.columns()
	R.Need(ruleOpenDecode, 4)
	R.Need(ruleParse64, 3)
	R.Need(ruleSeqType, 10)
}

// outside: packages that handle no events.
func (r *numberRule) outside(p *types.Package) bool {
	if p == nil || IsTestSupport(p.Path()) {
		return true
	}
	s := Rel(p.Path())
	return strings.HasPrefix(s, "examples/") || strings.HasPrefix(s, "gen/") || strings.HasPrefix(s, "pkg/crypto") || in(s, "pkg/eventparser", "pkg/structparser", "pkg/aggregategenerator", "pkg/commandgenerator", "cmd/gen-random-events")
}

func (r *numberRule) instr(f *ssa.Function, ins ssa.Instruction) {
	where := FnName(f)
	switch x := ins.(type) {
	case *ssa.Convert:
		from, to := basicOf(x.X.Type()), basicOf(x.Type())
		if from == nil || to == nil {
			return
		}
		ff, fi := from.Info()&types.IsFloat != 0, from.Info()&types.IsInteger != 0
		tf, ti := to.Info()&types.IsFloat != 0, to.Info()&types.IsInteger != 0
		if _, isConst := x.X.(*ssa.Const); isConst {
			return
		}
		if ff && ti || fi && tf {
			if r.sequence(x.X) || ff && ti && r.decoded(x.X) {
				r.R.Obl(ruleNoFloat, r.P.Pos(x.Pos()))
				r.R.Fail("float:"+where, x.Pos(), where+" converts between an integer and a floating-point number", nil)
			}
			return
		}
		if fi && ti && from.Kind() == types.Uint64 && to.Kind() != types.Uint64 && to.Kind() != types.Uintptr {
			r.narrow(f, x)
		}
	case *ssa.TypeAssert:
		if b := basicOf(x.AssertedType); b != nil && b.Info()&types.IsFloat != 0 {
			r.R.Obl(ruleNoFloat, r.P.Pos(x.Pos()))
			r.R.Fail("assert-float:"+where, x.Pos(), where+" expects a decoded number to be a floating-point number", nil)
		}
	case ssa.CallInstruction:
		r.call(f, x)
	}
}

func basicOf(t types.Type) *types.Basic {
	b, _ := t.Underlying().(*types.Basic)
	return b
}

// sequence: is the value (made of) a sequence number?
func (r *numberRule) sequence(v ssa.Value) bool {
	found := false
	w := r.F.NewWalk(func(x ssa.Value, key string) bool {
		if found || basicOf(x.Type()) == nil && key == "" {
			if _, ok := x.(*ssa.Alloc); !ok {
				if _, ok := x.Type().(*types.Tuple); !ok {
					return false
				}
			}
		}
		if key != "" {
			if seqName.MatchString(key) {
				found = true
			}
			return false
		}
		if p, ok := x.(*ssa.Parameter); ok && seqName.MatchString(p.Name()) {
			found = true
			return false
		}
		if c, ok := x.(*ssa.Call); ok {
			if bt, ok := c.Call.Value.(*ssa.Builtin); ok && in(bt.Name(), "len", "cap") {
				return false
			}
			nm := ""
			if c.Call.IsInvoke() {
				nm = c.Call.Method.Name()
			} else if g := c.Call.StaticCallee(); g != nil {
				nm = g.Name()
			}
			if seqName.MatchString(nm) {
				found = true
				return false
			}
		}
		return true
	}, nil)
	w.V(v)
	return found
}

// decoded: does a value come out of a decoder or a parser?
func (r *numberRule) decoded(v ssa.Value) bool {
	found := false
	w := r.F.NewWalk(func(x ssa.Value, key string) bool {
		switch y := x.(type) {
		case *ssa.TypeAssert:
			found = true
		case *ssa.Call:
			if g := y.Call.StaticCallee(); g != nil && in(g.String(), "strconv.ParseFloat", "(encoding/json.Number).Float64") {
				found = true
			}
		}
		return !found
	}, nil)
	w.V(v)
	return found
}

func (r *numberRule) narrow(f *ssa.Function, x *ssa.Convert) {
	where := FnName(f)
	// shown by a template function or a formatting call
	shown := false
	if refs := x.Referrers(); refs != nil {
		for _, ref := range *refs {
			if ci, ok := ref.(ssa.CallInstruction); ok {
				if g := ci.Common().StaticCallee(); g != nil && !r.P.InRepo(g) && (inPkg(g, "fmt", "strconv") || strings.Contains(g.String(), "humanize")) && r.F.dynamic[f] {
					if _, ok := x.X.(*ssa.Parameter); ok {
						shown = true
					}
				}
			}
		}
	}
	if refs := x.Referrers(); refs != nil {
		for _, ref := range *refs {
			if c, ok := ref.(*ssa.Convert); ok && basicOf(c.Type()) != nil && basicOf(c.Type()).Kind() == types.Uint64 {
				shown = true // and back again
			}
		}
	}
	if !shown && !r.sequence(x.X) {
		return
	}
	r.R.Obl(ruleNarrow, r.P.Pos(x.Pos()))
	// the width a generated message prescribes
	if refs := x.Referrers(); refs != nil && len(*refs) > 0 {
		all := true
		for _, ref := range *refs {
			ok := false
			if st, isSt := ref.(*ssa.Store); isSt && st.Val == x {
				if fa, isFa := st.Addr.(*ssa.FieldAddr); isFa {
					if n := namedOf(derefT(fa.X.Type())); n != nil && n.Obj().Pkg() != nil && Rel(n.Obj().Pkg().Path()) == "pkg/grpc/rangedbpb" && !seqName.MatchString(fieldKey(fa.X.Type(), fa.Field)) {
						ok = true
					}
				}
			}
			if _, isDbg := ref.(*ssa.DebugRef); isDbg {
				ok = true
			}
			all = all && ok
		}
		if all {
			return
		}
	}
	r.R.Fail("narrow:"+where, x.Pos(), where+" narrows a sequence number to "+x.Type().String(), nil)
}

func derefT(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (r *numberRule) call(f *ssa.Function, ci ssa.CallInstruction) {
	cc := ci.Common()
	g := cc.StaticCallee()
	if g == nil || g.Object() == nil {
		return
	}
	where := FnName(f)
	konst := func(v ssa.Value) (int64, bool) {
		c, ok := v.(*ssa.Const)
		if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
			return 0, false
		}
		n, ok := constant.Int64Val(c.Value)
		return n, ok
	}
	switch s := g.String(); s {
	case "encoding/json.Unmarshal":
		r.target(f, ci, cc.Args[1], nil)
	case "(*encoding/json.Decoder).Decode":
		r.target(f, ci, cc.Args[1], cc.Args[0])
	case "strconv.ParseUint":
		r.R.Obl(ruleParse64, r.P.Pos(ci.Pos()))
		base, ok1 := konst(cc.Args[1])
		bits, ok2 := konst(cc.Args[2])
		if ok1 && base != 10 {
			r.R.Fail("base:"+where, ci.Pos(), fmt.Sprintf("%s parses a number in base %d", where, base), nil)
		}
		if ok2 && bits != 64 && !(bits == 0) {
			r.R.Fail("bits:"+where, ci.Pos(), fmt.Sprintf("%s parses a number with %d bits", where, bits), nil)
		}
	case "strconv.FormatUint", "strconv.AppendUint":
		r.R.Obl(ruleParse64, r.P.Pos(ci.Pos()))
		if base, ok := konst(cc.Args[len(cc.Args)-1]); ok && base != 10 {
			r.R.Fail("base:"+where, ci.Pos(), fmt.Sprintf("%s formats a number in base %d", where, base), nil)
		}
	case "strconv.Atoi", "strconv.ParseInt", "(encoding/json.Number).Int64":
		r.R.Obl(ruleParse64, r.P.Pos(ci.Pos()))
		if c, ok := ci.(*ssa.Call); ok && r.becomesUnsigned(c) {
			r.R.Fail("signed-parse:"+where, ci.Pos(), where+" parses an unsigned 64-bit number as a signed one", nil)
		}
	case "strconv.ParseFloat", "(encoding/json.Number).Float64":
		r.R.Obl(ruleNoFloat, r.P.Pos(ci.Pos()))
		r.R.Fail("parse-float:"+where, ci.Pos(), where+" parses a number as a floating-point number", nil)
	case "(*database/sql.Row).Scan", "(*database/sql.Rows).Scan":
		for _, a := range sinkParts(cc.Args[1]) {
			p, ok := a.Type().Underlying().(*types.Pointer)
			if !ok {
				continue
			}
			b := basicOf(p.Elem())
			if b == nil {
				continue
			}
			r.R.Obl(ruleNoFloat, r.P.Pos(ci.Pos()))
			if b.Info()&types.IsFloat != 0 || b.Info()&types.IsInteger != 0 && !in(b.Name(), "int", "int64", "uint", "uint64") {
				r.R.Fail("scan:"+where+":"+b.Name(), ci.Pos(), where+" scans a column into "+b.Name(), nil)
			}
		}
	}
}

// becomesUnsigned: is a parsed number used as an unsigned 64-bit one?
func (r *numberRule) becomesUnsigned(c *ssa.Call) bool {
	seen := map[ssa.Value]bool{}
	var fwd func(v ssa.Value) bool
	fwd = func(v ssa.Value) bool {
		if v == nil || seen[v] || v.Referrers() == nil {
			return false
		}
		seen[v] = true
		for _, ref := range *v.Referrers() {
			switch x := ref.(type) {
			case *ssa.Convert:
				if b := basicOf(x.Type()); b != nil && in(b.Name(), "uint64", "uint") {
					return true
				}
				if fwd(x) {
					return true
				}
			case *ssa.Extract:
				if x.Index == 0 && fwd(x) {
					return true
				}
			case *ssa.Phi:
				if fwd(x) {
					return true
				}
			case *ssa.Store:
				if a, ok := x.Addr.(*ssa.Alloc); ok && x.Val == v && fwd(a) {
					return true
				}
			case *ssa.UnOp:
				if x.Op == token.MUL && fwd(x) {
					return true
				}
			case *ssa.Return:
				// a helper: its callers
				f := x.Parent()
				for i, res := range x.Results {
					if res != v {
						continue
					}
					for _, ci := range r.F.calls[f] {
						cv, ok := ci.(*ssa.Call)
						if !ok {
							continue
						}
						if len(x.Results) == 1 && fwd(cv) {
							return true
						}
						for _, rr := range *cv.Referrers() {
							if e, ok := rr.(*ssa.Extract); ok && e.Index == i && fwd(e) {
								return true
							}
						}
					}
				}
			}
		}
		return false
	}
	return fwd(c)
}

// target judges a JSON decoding.
func (r *numberRule) target(f *ssa.Function, ci ssa.CallInstruction, v, decoder ssa.Value) {
	where := FnName(f)
	what := ""
	seen := map[ssa.Value]bool{}
	var trace func(v ssa.Value)
	trace = func(v ssa.Value) {
		if v == nil || seen[v] || what != "" {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.MakeInterface:
			t := x.X.Type()
			if s := openType(t); s != "" {
				what = s
			}
		case *ssa.Phi:
			for _, e := range x.Edges {
				trace(e)
			}
		case *ssa.ChangeInterface:
			trace(x.X)
		case *ssa.Parameter:
			i := paramIndex(x.Parent(), x)
			n := 0
			for _, c := range r.F.calls[x.Parent()] {
				if fn := c.(ssa.Instruction).Parent(); IsTestSupport(pkgOf(fn).Path()) || isExample(fn) {
					continue
				}
				n++
				trace(c.Common().Args[i])
			}
			if n == 0 {
				what = "a value of unknown type"
			}
		case *ssa.FreeVar:
			for i, fv := range x.Parent().FreeVars {
				if fv == x {
					for _, mc := range r.F.closures[x.Parent()] {
						trace(mc.Bindings[i])
					}
				}
			}
		case *ssa.UnOp:
			if a, ok := x.X.(*ssa.Alloc); ok {
				for _, ref := range *a.Referrers() {
					if st, ok := ref.(*ssa.Store); ok && st.Addr == a {
						trace(st.Val)
					}
				}
				return
			}
			what = "a value of unknown type"
		case *ssa.Const:
		default:
			what = "a value of unknown type"
		}
	}
	trace(v)
	if what == "" {
		return
	}
	r.R.Obl(ruleOpenDecode, r.P.Pos(ci.Pos()))
	if what == "float" {
		r.R.Fail("float-field:"+where, ci.Pos(), where+" decodes JSON into a floating-point field", nil)
		return
	}
	if decoder == nil {
		r.R.Fail("unmarshal:"+where, ci.Pos(), where+" decodes "+what+" with json.Unmarshal, which turns integers into floating-point numbers", nil)
		return
	}
	if bad := r.noUseNumber(decoder, ci.(ssa.Instruction), map[ssa.Value]bool{}); bad != "" {
		r.R.Fail("use-number:"+where, ci.Pos(), where+" decodes "+what+" with a decoder "+bad+", so integers become floating-point numbers", nil)
	}
}

// openType: does a decoded value contain an interface of no particular type, which decodes numbers by default as floats?
func openType(t types.Type) string {
	seen := map[types.Type]bool{}
	var find func(t types.Type) string
	find = func(t types.Type) string {
		if seen[t] {
			return ""
		}
		seen[t] = true
		if hasMethod(types.NewPointer(t), "UnmarshalJSON") || hasMethod(t, "UnmarshalJSON") {
			return ""
		}
		switch x := t.Underlying().(type) {
		case *types.Pointer:
			return find(x.Elem())
		case *types.Slice:
			return find(x.Elem())
		case *types.Array:
			return find(x.Elem())
		case *types.Map:
			return find(x.Elem())
		case *types.Struct:
			for i := 0; i < x.NumFields(); i++ {
				if x.Field(i).Exported() {
					if s := find(x.Field(i).Type()); s != "" {
						if s == "an interface value" {
							s = "the field " + x.Field(i).Name()
						}
						return s
					}
				}
			}
		case *types.Interface:
			return "an interface value"
		case *types.Basic:
			if x.Info()&types.IsFloat != 0 {
				return "float"
			}
		}
		return ""
	}
	return find(t)
}

// noUseNumber says which way a decoder reaches the call without UseNumber having been called.
func (r *numberRule) noUseNumber(d ssa.Value, at ssa.Instruction, seen map[ssa.Value]bool) string {
	if seen[d] {
		return ""
	}
	seen[d] = true
	// a call of UseNumber on the same value before
	if refs := d.Referrers(); refs != nil {
		for _, ref := range *refs {
			ci, ok := ref.(ssa.CallInstruction)
			if !ok {
				continue
			}
			cc := ci.Common()
			g := cc.StaticCallee()
			if g == nil {
				continue
			}
			isUse := g.String() == "(*encoding/json.Decoder).UseNumber"
			if !isUse && r.P.InRepo(g) && g.Blocks != nil {
				// a helper that does it
				for i, a := range cc.Args {
					if a == d && i < len(g.Params) && r.usesNumber(g, g.Params[i]) {
						isUse = true
					}
				}
			}
			if _, isDefer := ref.(*ssa.Defer); isUse && !isDefer && at != nil && ref.Parent() == at.Parent() && before(ref, at) {
				return ""
			}
		}
	}
	switch x := d.(type) {
	case *ssa.Call:
		g := x.Call.StaticCallee()
		if g == nil {
			return "of unknown origin"
		}
		if g.String() == "encoding/json.NewDecoder" {
			return "on which UseNumber is not called (" + r.P.Pos(x.Pos()) + ")"
		}
		if r.P.InRepo(g) && g.Blocks != nil {
			for _, b := range g.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					for _, res := range ret.Results {
						if types.Identical(res.Type(), d.Type()) {
							if s := r.noUseNumber(res, ret, seen); s != "" {
								return s
							}
						}
					}
				}
			}
			return ""
		}
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			if g := c.Call.StaticCallee(); g != nil && r.P.InRepo(g) {
				for _, b := range g.Blocks {
					if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && x.Index < len(ret.Results) {
						if s := r.noUseNumber(ret.Results[x.Index], ret, seen); s != "" {
							return s
						}
					}
				}
				return ""
			}
		}
	case *ssa.Phi:
		for i, e := range x.Edges {
			pb := x.Block().Preds[i]
			if s := r.noUseNumber(e, pb.Instrs[len(pb.Instrs)-1], seen); s != "" {
				return s
			}
		}
		return ""
	case *ssa.Const:
		return ""
	case *ssa.Parameter:
		i := paramIndex(x.Parent(), x)
		for _, c := range r.F.calls[x.Parent()] {
			fn := c.(ssa.Instruction).Parent()
			if IsTestSupport(pkgOf(fn).Path()) || isExample(fn) {
				continue
			}
			if s := r.noUseNumber(c.Common().Args[i], c.(ssa.Instruction), seen); s != "" {
				return s
			}
		}
		return ""
	case *ssa.FreeVar:
		for i, fv := range x.Parent().FreeVars {
			if fv == x {
				for _, mc := range r.F.closures[x.Parent()] {
					if s := r.noUseNumber(mc.Bindings[i], mc, seen); s != "" {
						return s
					}
				}
			}
		}
		return ""
	case *ssa.UnOp:
		switch a := x.X.(type) {
		case *ssa.Alloc:
			return r.noUseNumberCell(a, a, at, seen)
		case *ssa.FreeVar:
			for i, fv := range a.Parent().FreeVars {
				if fv != a {
					continue
				}
				for _, mc := range r.F.closures[a.Parent()] {
					if c, ok := mc.Bindings[i].(*ssa.Alloc); ok {
						if s := r.noUseNumberCell(c, a, at, seen); s != "" {
							return s
						}
					}
				}
			}
			return ""
		case *ssa.FieldAddr:
			for _, v := range r.F.fields[fieldKey(a.X.Type(), a.Field)] {
				if iv, ok := v.(ssa.Instruction); ok {
					last := lastUse(v)
					if last == nil {
						last = iv
					}
					if s := r.noUseNumber(v, last, seen); s != "" {
						return s
					}
				}
			}
			return ""
		}
	}
	return ""
}

// noUseNumberCell: a decoder kept in a variable; UseNumber called through any load of it counts.
func (r *numberRule) noUseNumberCell(a *ssa.Alloc, via ssa.Value, at ssa.Instruction, seen map[ssa.Value]bool) string {
	cells := []ssa.Value{a}
	if via != a {
		cells = append(cells, via)
	}
	for _, c := range cells {
		for _, ref := range *c.Referrers() {
			u, ok := ref.(*ssa.UnOp)
			if !ok {
				continue
			}
			for _, rr := range *u.Referrers() {
				if ci, ok := rr.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil && g.String() == "(*encoding/json.Decoder).UseNumber" {
						if rr.Parent() != at.Parent() || before(rr, at) {
							return ""
						}
					}
				}
			}
		}
	}
	for _, ref := range *a.Referrers() {
		if st, ok := ref.(*ssa.Store); ok && st.Addr == a {
			if s := r.noUseNumber(st.Val, st, seen); s != "" {
				return s
			}
		}
	}
	return ""
}

// lastUse: the last instruction of the block that uses the value (a place after everything done to it there).
func lastUse(v ssa.Value) ssa.Instruction {
	iv, ok := v.(ssa.Instruction)
	if !ok {
		return nil
	}
	b := iv.Block()
	return b.Instrs[len(b.Instrs)-1]
}

func (r *numberRule) usesNumber(g *ssa.Function, p *ssa.Parameter) bool {
	for _, ref := range *p.Referrers() {
		if ci, ok := ref.(ssa.CallInstruction); ok {
			if h := ci.Common().StaticCallee(); h != nil && h.String() == "(*encoding/json.Decoder).UseNumber" && ref.Block().Dominates(exitBlock(g)) {
				return true
			}
		}
	}
	return false
}

// exitBlock: the only returning block (or the entry if there are several).
func exitBlock(g *ssa.Function) *ssa.BasicBlock {
	var out *ssa.BasicBlock
	for _, b := range g.Blocks {
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			if out != nil {
				return g.Blocks[0]
			}
			out = b
		}
	}
	if out == nil {
		return g.Blocks[0]
	}
	return out
}

// before: x is always executed before y.
func before(x, y ssa.Instruction) bool {
	if x.Block() == y.Block() {
		return indexOf(x.Block(), x) < indexOf(y.Block(), y)
	}
	return x.Block().Dominates(y.Block())
}

// decls: declared types of sequence numbers.
func (r *numberRule) decls() {
	check := func(v *types.Var, where string) {
		b := basicOf(v.Type())
		if b == nil || !seqName.MatchString(v.Name()) || b.Info()&types.IsNumeric == 0 {
			return
		}
		r.R.Obl(ruleSeqType, r.P.Pos(v.Pos()))
		if b.Kind() != types.Uint64 {
			r.R.Fail("type:"+where+":"+v.Name(), v.Pos(), where+" declares "+v.Name()+" as "+b.Name(), nil)
		}
	}
	for _, pk := range r.P.Pkgs {
		if pk.Types == nil || !strings.HasPrefix(pk.Types.Path(), modPath) || r.outside(pk.Types) {
			continue
		}
		for _, o := range pk.TypesInfo.Defs {
			v, ok := o.(*types.Var)
			if !ok {
				continue
			}
			check(v, pk.Types.Name())
		}
	}
}

var ddlColumn = regexp.MustCompile(`(?is)CREATE\s+TABLE.*`)
var ddlField = regexp.MustCompile(`(?i)\b(\w*sequence_?number)"?\s+(\w+)`)

// columns: the columns that hold sequence numbers are 64 bits wide.
func (r *numberRule) columns() {
	for _, f := range r.P.Funcs {
		if r.outside(pkgOf(f)) {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					c, ok := (*op).(*ssa.Const)
					if !ok || c.Value == nil || c.Value.Kind() != constant.String {
						continue
					}
					for _, m := range ddlField.FindAllStringSubmatch(ddlColumn.FindString(constant.StringVal(c.Value)), -1) {
						r.R.Obl(ruleSeqType, "column "+m[1])
						if !in(strings.ToUpper(m[2]), "BIGSERIAL", "SERIAL8", "BIGINT", "INT8", "NUMERIC", "DECIMAL") {
							pos := ins.Pos()
							if !pos.IsValid() {
								pos = f.Pos()
							}
							r.R.Fail("column:"+m[1], pos, FnName(f)+" declares the column "+m[1]+" as "+m[2]+", which does not hold 64-bit numbers", nil)
						}
					}
				}
			}
		}
	}
}

func init() {
	register("C20", "Every JSON decoding outside the key stores and generators is classified by the types it can decode into; those that contain a value of no particular type must use a decoder on which UseNumber was called before. Number parsing, float conversions, narrowing of sequence numbers and their declared types are checked over the whole program.", []string{
		"json.Number is carried through encoding/json unchanged; encoding/json encodes integer types exactly",
		"sequence numbers are the values stored in, passed as or returned by something named so",
	}, exactNumbers)
}
