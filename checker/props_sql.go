package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C21: statement texts are made of program constants, and placeholders match the bound values.

var sqlMethods = map[string]bool{"Query": true, "QueryContext": true, "QueryRow": true, "QueryRowContext": true, "Exec": true, "ExecContext": true, "Prepare": true, "PrepareContext": true}

// sqlSink finds the statement text and the bound list of a call, if it runs or prepares a statement.
func sqlSink(cc *ssa.CallCommon) (text ssa.Value, bound ssa.Value, name string) {
	var m *types.Func
	args := cc.Args
	if cc.IsInvoke() {
		m = cc.Method
	} else if g := cc.StaticCallee(); g != nil {
		m, _ = g.Object().(*types.Func)
		if m == nil || m.Pkg() == nil || m.Pkg().Path() != pkgSQL || len(args) == 0 || m.Type().(*types.Signature).Recv() == nil {
			return
		}
		args = args[1:]
	}
	if m == nil || !sqlMethods[m.Name()] {
		return
	}
	s := m.Type().(*types.Signature)
	if cc.IsInvoke() {
		// an interface that *sql.DB satisfies in this method
		r := s.Results()
		ok := false
		for i := 0; i < r.Len(); i++ {
			if n := namedOf(r.At(i).Type()); n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkgSQL {
				ok = true
			}
		}
		if !ok {
			return
		}
	}
	for i := 0; i < s.Params().Len() && i < len(args); i++ {
		if b, ok := s.Params().At(i).Type().Underlying().(*types.Basic); ok && b.Kind() == types.String {
			text = args[i]
			if s.Variadic() && i+1 < len(args) {
				bound = args[i+1]
			}
			return text, bound, m.Name()
		}
	}
	return
}

// composes: library functions whose result is made of their arguments.
func composes(f *ssa.Function) bool {
	return f != nil && inPkg(f, "fmt", "strings", "strconv", "bytes", "unicode/utf8", "slices", "text/template")
}

type sqlRule struct {
	P    *Prog
	R    *Report
	F    *Flow
	cols map[string]string // column -> kind
}

func sqlTexts(P *Prog, R *Report) {
	r := &sqlRule{P: P, R: R, F: NewFlow(P), cols: map[string]string{}}
	r.columns()
	for _, f := range P.Funcs {
		if isExample(f) || IsTestSupport(pkgOf(f).Path()) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if text, bound, name := sqlSink(ci.Common()); text != nil {
						r.sink(f, ci, text, bound, name)
					}
				}
			}
		}
	}
	R.Need("the statement text is made of program constants", 6)
	R.Need("the placeholders match the bound values", 5)
}

func (r *sqlRule) sink(f *ssa.Function, ci ssa.CallInstruction, text, bound ssa.Value, name string) {
	where := FnName(f)
	pos := ci.Pos()
	if tp, ok := text.(*ssa.Parameter); ok && bound != nil && !r.F.dynamic[f] && !r.entry(f, tp) {
		// a wrapper: its callers are judged
		if bp, ok := bound.(*ssa.Parameter); ok {
			ti, bi := paramIndex(f, tp), paramIndex(f, bp)
			for _, c := range r.F.calls[f] {
				if g, ok := c.(ssa.Instruction); ok {
					r.sink(g.Parent(), c, c.Common().Args[ti], c.Common().Args[bi], name)
				}
			}
			return
		}
	}
	r.R.Item("statements", r.P.Pos(pos))
	r.R.Obl("the statement text is made of program constants", r.P.Pos(pos))
	var formats []*ssa.Call
	var pieces []string
	bad := func(v ssa.Value, what string) bool {
		r.R.Fail("text:"+where+":"+what, pos, where+" executes a statement whose text contains "+what+" ("+r.P.Pos(v.Pos())+")", nil)
		return false
	}
	var w *Walk
	w = r.F.NewWalk(func(v ssa.Value, key string) bool {
		switch x := v.(type) {
		case *ssa.Const:
			if x.Value != nil && x.Value.Kind() == constant.String {
				pieces = append(pieces, constant.StringVal(x.Value))
			}
		case *ssa.Parameter:
			if harmless(x.Type()) {
				return true
			}
			g := x.Parent()
			if r.entry(g, x) {
				return bad(v, "the parameter "+x.Name()+" of "+FnName(g))
			}
		case *ssa.FieldAddr, *ssa.Field:
			if exportedField(v) {
				return bad(v, "the exported field "+key[strings.LastIndex(key, "/")+1:])
			}
			if len(r.F.fields[key]) == 0 && !ownAlloc(v) {
				return bad(v, "the field "+key[strings.LastIndex(key, "/")+1:])
			}
		case *ssa.UnOp:
			if x.Op == token.ARROW {
				return bad(v, "a value received from a channel")
			}
		case *ssa.Call:
			cc := x.Common()
			if _, ok := cc.Value.(*ssa.Builtin); ok {
				return true
			}
			if g := cc.StaticCallee(); g != nil && composes(g) {
				if g.String() == "fmt.Sprintf" {
					formats = append(formats, x)
				}
				return true
			}
			if len(r.F.Targets(cc)) == 0 {
				return bad(v, "the result of "+calleeLabel(cc))
			}
		}
		return true
	}, func(c *ssa.Call, idx int) bool { return composes(c.Common().StaticCallee()) || idx == -2 })
	w.Fill = func(ci ssa.CallInstruction, a ssa.Value) {
		if fillsText(ci, a) {
			bad(a, "what "+calleeLabel(ci.Common())+" fills in")
		}
	}
	w.V(text)

	if name == "Prepare" || name == "PrepareContext" || bound == nil {
		return
	}
	texts, whole := r.texts(text, 0)
	vals, literal := r.boundVals(bound)
	if whole && literal {
		for _, t := range texts {
			r.literal(where, pos, t, vals)
		}
		return
	}
	r.batch(where, pos, pieces, formats, bound)
}

// entry: can a parameter's value come from outside the repository?
func (r *sqlRule) entry(f *ssa.Function, x *ssa.Parameter) bool {
	if f.Parent() != nil {
		return len(r.F.calls[f]) == 0
	}
	o := f.Object()
	if o == nil {
		return true
	}
	if f.Signature.Recv() != nil && len(f.Params) > 0 && f.Params[0] == x {
		return false // the receiver: judged by its fields
	}
	if o.Exported() && pkgOf(f).Name() != "main" {
		return true
	}
	return len(r.F.calls[f]) == 0 && len(r.F.invokes[f.Name()]) == 0
}

func harmless(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func exportedField(v ssa.Value) bool {
	var t types.Type
	i := 0
	switch x := v.(type) {
	case *ssa.FieldAddr:
		t, i = x.X.Type(), x.Field
	case *ssa.Field:
		t, i = x.X.Type(), x.Field
	}
	st := structOf(t)
	n := namedOf(t)
	if p, ok := t.Underlying().(*types.Pointer); ok {
		n = namedOf(p.Elem())
	}
	return st != nil && st.Field(i).Exported() && n != nil && n.Obj().Exported() && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath)
}

// ownAlloc: a field of a local variable.
func ownAlloc(v ssa.Value) bool {
	fa, ok := v.(*ssa.FieldAddr)
	if !ok {
		return true
	}
	_, ok = fa.X.(*ssa.Alloc)
	return ok
}

// texts lists the constant texts a value can have.
func (r *sqlRule) texts(v ssa.Value, depth int) ([]string, bool) {
	if depth > 20 {
		return nil, false
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.String {
			return []string{constant.StringVal(x.Value)}, true
		}
	case *ssa.ChangeType:
		return r.texts(x.X, depth+1)
	case *ssa.Convert:
		return r.texts(x.X, depth+1)
	case *ssa.BinOp:
		if x.Op == token.ADD {
			a, ok1 := r.texts(x.X, depth+1)
			b, ok2 := r.texts(x.Y, depth+1)
			if ok1 && ok2 {
				var out []string
				for _, s := range a {
					for _, t := range b {
						out = append(out, s+t)
					}
				}
				return out, true
			}
		}
	case *ssa.Phi:
		var out []string
		for _, e := range x.Edges {
			a, ok := r.texts(e, depth+1)
			if !ok {
				return nil, false
			}
			out = append(out, a...)
		}
		return out, true
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL && len(r.F.globals[g]) == 1 {
			return r.texts(r.F.globals[g][0], depth+1)
		}
		if a, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
			return r.cellTexts(a, depth)
		}
		if fv, ok := x.X.(*ssa.FreeVar); ok && x.Op == token.MUL {
			for i, p := range fv.Parent().FreeVars {
				if p == fv && len(r.F.closures[fv.Parent()]) == 1 {
					if a, ok := r.F.closures[fv.Parent()][0].Bindings[i].(*ssa.Alloc); ok {
						return r.cellTexts(a, depth)
					}
				}
			}
		}
	case *ssa.Call:
		if g := x.Call.StaticCallee(); g != nil && g.String() == "fmt.Sprintf" {
			f := ssaStr(x.Call.Args[0])
			vals, lit := r.boundVals(x.Call.Args[1])
			if f == "" || !lit || strings.Count(f, "%") != strings.Count(f, "%s") || strings.Count(f, "%s") != len(vals) {
				return nil, false
			}
			out := []string{""}
			for i, part := range strings.Split(f, "%s") {
				var next []string
				ts := []string{""}
				if i > 0 {
					var ok bool
					if ts, ok = r.texts(unwrapIface(vals[i-1]), depth+1); !ok {
						return nil, false
					}
				}
				for _, o := range out {
					for _, t := range ts {
						next = append(next, o+t+part)
					}
				}
				out = next
			}
			return out, true
		}
	case *ssa.Parameter:
		f := x.Parent()
		if r.F.dynamic[f] || len(r.F.calls[f]) != 1 || r.entry(f, x) {
			return nil, false
		}
		for i, p := range f.Params {
			if p == x {
				return r.texts(r.F.calls[f][0].Common().Args[i], depth+1)
			}
		}
	}
	return nil, false
}

func (r *sqlRule) cellTexts(a *ssa.Alloc, depth int) ([]string, bool) {
	var out []string
	for _, ref := range *a.Referrers() {
		if st, ok := ref.(*ssa.Store); ok && st.Addr == a {
			t, ok := r.texts(st.Val, depth+1)
			if !ok {
				return nil, false
			}
			out = append(out, t...)
		}
	}
	return out, len(out) > 0
}

// ssaStr: a constant string.
func ssaStr(v ssa.Value) string {
	if c, ok := v.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
		return constant.StringVal(c.Value)
	}
	return ""
}

func unwrapIface(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		default:
			return v
		}
	}
}

// boundVals: the values of a variadic list written out at the call.
func (r *sqlRule) boundVals(v ssa.Value) ([]ssa.Value, bool) {
	switch x := v.(type) {
	case *ssa.Const:
		return nil, x.Value == nil
	case *ssa.Slice:
		a, ok := x.X.(*ssa.Alloc)
		if !ok || x.Low != nil || x.High != nil {
			return nil, false
		}
		at, ok := a.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if !ok {
			return nil, false
		}
		out := make([]ssa.Value, at.Len())
		for _, ref := range *a.Referrers() {
			ia, ok := ref.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			c, ok := ia.Index.(*ssa.Const)
			if !ok {
				return nil, false
			}
			i, _ := constant.Int64Val(c.Value)
			for _, r2 := range *ia.Referrers() {
				if st, ok := r2.(*ssa.Store); ok && st.Addr == ia && int(i) < len(out) {
					out[i] = st.Val
				}
			}
		}
		for _, y := range out {
			if y == nil {
				return nil, false
			}
		}
		return out, true
	}
	return nil, false
}

var (
	rePlace  = regexp.MustCompile(`\$(\d+)`)
	reCmp    = regexp.MustCompile(`(?i)"?(\w+)"?\s*(=|<>|!=|>=|<=|<|>)\s*(ANY\s*\(\s*)?\$(\d+)`)
	reTable  = regexp.MustCompile(`(?is)CREATE\s+TABLE\s+(?:IF\s+NOT\s+EXISTS\s+)?"?\w+"?\s*\((.*)\)`)
	reColumn = regexp.MustCompile(`(?i)^\s*"?(\w+)"?\s+(TEXT|VARCHAR|CHAR|UUID|JSONB?|BIGINT|INTEGER|INT|SMALLINT|SERIAL|BIGSERIAL|NUMERIC)\b`)
	reIns    = regexp.MustCompile(`(?is)^\s*INSERT\s+INTO\s+"?\w+"?\s*\(([^)]*)\)\s*VALUES\s*(.*)$`)
)

// columns reads the column types from the table definitions in the program.
func (r *sqlRule) columns() {
	for _, f := range r.P.Funcs {
		if isExample(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					c, ok := (*op).(*ssa.Const)
					if !ok || c.Value == nil || c.Value.Kind() != constant.String {
						continue
					}
					m := reTable.FindStringSubmatch(constant.StringVal(c.Value))
					if m == nil {
						continue
					}
					for _, line := range strings.Split(m[1], ",") {
						if k := reColumn.FindStringSubmatch(line); k != nil {
							kind := "number"
							if in(strings.ToUpper(k[2]), "TEXT", "VARCHAR", "CHAR", "UUID", "JSON", "JSONB") {
								kind = "text"
							}
							r.cols[strings.ToLower(k[1])] = kind
						}
					}
				}
			}
		}
	}
}

// literal checks a statement whose text and bound values are written out.
func (r *sqlRule) literal(where string, pos token.Pos, text string, vals []ssa.Value) {
	r.R.Obl("the placeholders match the bound values", r.P.Pos(pos))
	seen := map[int]bool{}
	max := 0
	for _, m := range rePlace.FindAllStringSubmatch(text, -1) {
		n, _ := strconv.Atoi(m[1])
		seen[n] = true
		if n > max {
			max = n
		}
	}
	if max != len(vals) || len(seen) != max {
		r.R.Fail(fmt.Sprintf("placeholders:%s", where), pos, fmt.Sprintf("%s binds %d values to a statement that uses %d placeholders up to $%d", where, len(vals), len(seen), max), nil)
		return
	}
	for _, m := range reCmp.FindAllStringSubmatch(text, -1) {
		n, _ := strconv.Atoi(m[4])
		r.match(where, pos, m[1], vals[n-1], m[3] != "")
	}
	if m := reIns.FindStringSubmatch(text); m != nil {
		cols := splitCols(m[1])
		ps := rePlace.FindAllStringSubmatch(m[2], -1)
		for i, p := range ps {
			if i < len(cols) {
				n, _ := strconv.Atoi(p[1])
				r.match(where, pos, cols[i], vals[n-1], false)
			}
		}
	}
}

// match: the value compared with, or stored in, a column.
func (r *sqlRule) match(where string, pos token.Pos, col string, v ssa.Value, any bool) {
	v = unwrapIface(v)
	kind := r.cols[strings.ToLower(col)]
	isStr, isNum := false, false
	if b, ok := v.Type().Underlying().(*types.Basic); ok {
		isStr, isNum = b.Info()&types.IsString != 0, b.Info()&types.IsNumeric != 0
	}
	if kind == "text" && isNum || kind == "number" && isStr {
		r.R.Fail("column:"+where+":"+col, pos, fmt.Sprintf("%s binds a %s to column %s", where, v.Type(), col), nil)
		return
	}
	if any && (isStr || isNum) {
		r.R.Fail("column:"+where+":"+col, pos, fmt.Sprintf("%s binds a single value where column %s is compared with a list", where, col), nil)
		return
	}
	n := valueName(v)
	if n == "" || strings.EqualFold(n, col) {
		return
	}
	if _, ok := r.cols[strings.ToLower(n)]; ok {
		r.R.Fail("column:"+where+":"+col, pos, fmt.Sprintf("%s binds %s to column %s", where, n, col), nil)
	}
}

// valueName: the field, method or parameter a value was read from.
func valueName(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Parameter:
		return x.Name()
	case *ssa.FreeVar:
		return x.Name()
	case *ssa.Field:
		return structOf(x.X.Type()).Field(x.Field).Name()
	case *ssa.Call:
		if x.Call.IsInvoke() {
			return x.Call.Method.Name()
		}
	case *ssa.Convert:
		return valueName(x.X)
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return ""
		}
		switch a := x.X.(type) {
		case *ssa.FieldAddr:
			return structOf(a.X.Type()).Field(a.Field).Name()
		case *ssa.FreeVar:
			return a.Name()
		case *ssa.Alloc:
			return a.Comment
		}
	}
	return ""
}

// batch checks an insert of many rows: the numbering of its placeholders against the values appended per row.
func (r *sqlRule) batch(where string, pos token.Pos, pieces []string, formats []*ssa.Call, bound ssa.Value) {
	var cols []string
	for _, p := range pieces {
		if m := reIns.FindStringSubmatch(p); m != nil {
			cols = splitCols(m[1])
		}
	}
	groups := r.groups(bound, map[ssa.Value]bool{})
	for _, g := range groups {
		r.R.Obl("the placeholders match the bound values", r.P.Pos(pos))
		if len(cols) > 0 && len(g)%len(cols) != 0 && len(g) > 1 {
			r.R.Fail("batch-values:"+where, pos, fmt.Sprintf("%s binds %d values per row to an insert of %d columns", where, len(g), len(cols)), nil)
		} else if len(g) == len(cols) {
			for i, v := range g {
				r.match(where, pos, cols[i], v, false)
			}
		}
	}
	for _, c := range formats {
		f := ssaStr(c.Call.Args[0])
		n := strings.Count(f, "$%d")
		if n == 0 {
			continue
		}
		r.R.Obl("the placeholders match the bound values", r.P.Pos(c.Pos()))
		if n > 1 && len(cols) > 0 && n != len(cols) {
			r.R.Fail("batch-placeholders:"+where, c.Pos(), fmt.Sprintf("%s makes %d placeholders per row for an insert of %d columns", where, n, len(cols)), nil)
			continue
		}
		vals, lit := r.boundVals(c.Call.Args[1])
		if !lit || len(vals) != n || n < 2 {
			continue
		}
		r.numbering(where, c, vals)
	}
}

// groups: the values appended to a list, per append.
func (r *sqlRule) groups(v ssa.Value, seen map[ssa.Value]bool) [][]ssa.Value {
	if seen[v] {
		return nil
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Phi:
		var out [][]ssa.Value
		for _, e := range x.Edges {
			out = append(out, r.groups(e, seen)...)
		}
		return out
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return r.returned(c, x.Index, seen)
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && len(x.Call.Args) == 2 {
			out := r.groups(x.Call.Args[0], seen)
			if g, lit := r.boundVals(x.Call.Args[1]); lit && len(g) > 0 {
				out = append(out, g)
			}
			return out
		}
		return r.returned(x, 0, seen)
	}
	return nil
}

func (r *sqlRule) returned(c *ssa.Call, i int, seen map[ssa.Value]bool) [][]ssa.Value {
	var out [][]ssa.Value
	for _, g := range r.F.Targets(&c.Call) {
		for _, b := range g.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && i < len(ret.Results) {
				out = append(out, r.groups(ret.Results[i], seen)...)
			}
		}
	}
	return out
}

// linear: a*base + b.
func (r *sqlRule) linear(v ssa.Value, depth int) (a, b int64, base ssa.Value, ok bool) {
	if depth > 12 {
		return
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.Int {
			b, _ = constant.Int64Val(x.Value)
			return 0, b, nil, true
		}
		return
	case *ssa.Convert:
		return r.linear(x.X, depth+1)
	case *ssa.BinOp:
		a1, b1, s1, ok1 := r.linear(x.X, depth+1)
		a2, b2, s2, ok2 := r.linear(x.Y, depth+1)
		if ok1 && ok2 {
			switch x.Op {
			case token.ADD, token.SUB:
				if x.Op == token.SUB {
					a2, b2 = -a2, -b2
				}
				if s1 == nil {
					s1 = s2
				}
				if s2 == nil || s1 == s2 {
					return a1 + a2, b1 + b2, s1, true
				}
			case token.MUL:
				if s1 == nil {
					return a2 * b1, b2 * b1, s2, true
				}
				if s2 == nil {
					return a1 * b2, b1 * b2, s1, true
				}
			}
		}
	case *ssa.Parameter:
		f := x.Parent()
		if len(r.F.calls[f]) == 1 && !r.F.dynamic[f] {
			for i, p := range f.Params {
				if p == x {
					return r.linear(r.F.calls[f][0].Common().Args[i], depth+1)
				}
			}
		}
	case *ssa.Call:
		if bt, ok := x.Call.Value.(*ssa.Builtin); ok && bt.Name() == "len" {
			return 1, 0, x.Call.Args[0], true
		}
	}
	return 1, 0, v, true
}

// numbering: placeholders of one row are consecutive, and the next row continues.
func (r *sqlRule) numbering(where string, c *ssa.Call, vals []ssa.Value) {
	m := int64(len(vals))
	var base ssa.Value
	var a0 int64
	bs := make([]int64, m)
	for i, v := range vals {
		a, b, s, ok := r.linear(unwrapIface(v), 0)
		if !ok || s == nil {
			if s == nil && ok && a == 0 {
				r.R.Fail("numbering:"+where, c.Pos(), where+" numbers the placeholders of every row alike", nil)
			}
			return
		}
		if i == 0 {
			base, a0 = s, a
		} else if s != base {
			return
		} else if a != a0 {
			r.R.Fail("numbering:"+where, c.Pos(), where+" does not number the placeholders of a row consecutively", nil)
			return
		}
		bs[i] = b
	}
	for i := range bs {
		if bs[i] != bs[0]+int64(i) {
			r.R.Fail("numbering:"+where, c.Pos(), where+" does not number the placeholders of a row consecutively", nil)
			return
		}
	}
	// the base
	if ph, ok := base.(*ssa.Phi); ok {
		var init, step int64
		haveI, haveS := false, false
		for _, e := range ph.Edges {
			a, b, s, ok := r.linear(e, 0)
			switch {
			case ok && s == nil:
				init, haveI = b, true
			case ok && s == ph && a == 1:
				step, haveS = b, true
			}
		}
		if !haveI || !haveS {
			return
		}
		if a0*step != m || a0*init+bs[0] != 1 {
			r.R.Fail("numbering:"+where, c.Pos(), fmt.Sprintf("%s numbers %d placeholders per row from $%d on, and those of the next row %d further", where, m, a0*init+bs[0], a0*step), nil)
		}
	}
}

func init() {
	register("C21", "Whole-program backward data flow from every statement text handed to database/sql (directly or through an interface) to program constants; the placeholders of each constant statement against the bound values (number, order, column types), the numbering of generated placeholder lists against the values appended per row.",
		[]string{"database/sql and the driver pass bound values outside of the statement text", "pq.Array encodes a list as one parameter"},
		sqlTexts)
}

func paramIndex(f *ssa.Function, x *ssa.Parameter) int {
	for i, p := range f.Params {
		if p == x {
			return i
		}
	}
	return -1
}
