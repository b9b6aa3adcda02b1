package main

import (
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"text/template/parse"

	"go/token"

	"golang.org/x/tools/go/ssa"
)

// C24: pages are made by escaping templates only.

const pkgHTMLTemplate = "html/template"

// bypassType: a type whose values html/template inserts without escaping.
func bypassType(t types.Type) string {
	seen := map[types.Type]bool{}
	var find func(t types.Type) string
	find = func(t types.Type) string {
		if t == nil || seen[t] {
			return ""
		}
		seen[t] = true
		if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkgHTMLTemplate {
			if in(n.Obj().Name(), "HTML", "JS", "CSS", "URL", "HTMLAttr", "JSStr", "Srcset") {
				return n.Obj().Name()
			}
			return ""
		}
		switch x := types.Unalias(t).(type) {
		case *types.Pointer:
			return find(x.Elem())
		case *types.Slice:
			return find(x.Elem())
		case *types.Map:
			if s := find(x.Key()); s != "" {
				return s
			}
			return find(x.Elem())
		case *types.Named:
			if x.Obj().Pkg() != nil && strings.HasPrefix(x.Obj().Pkg().Path(), modPath) {
				return find(x.Underlying())
			}
		}
		return ""
	}
	return find(t)
}

type renderRule struct {
	P       *Prog
	R       *Report
	F       *Flow
	callers map[*ssa.Function][]ssa.CallInstruction
}

func renderPages(P *Prog, R *Report) {
	r := &renderRule{P: P, R: R, F: NewFlow(P)}
	var roots []*ssa.Function
	for _, f := range P.Funcs {
		if isExample(f) {
			continue
		}
		if isHandler(f) {
			roots = append(roots, f)
			R.Item("request handlers", FnName(f))
		}
	}
	reach := staticReach(P, roots)
	for _, f := range P.Funcs {
		if isExample(f) || IsTestSupport(pkgOf(f).Path()) {
			continue
		}
		_, served := reach[f]
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				r.conversion(f, ins)
				ci, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := ci.Common()
				if g := cc.StaticCallee(); g != nil && g.Object() != nil && g.Signature.Recv() != nil {
					n := namedOf(g.Signature.Recv().Type())
					if n != nil && n.Obj().Name() == "Template" && in(g.Name(), "Execute", "ExecuteTemplate") && n.Obj().Pkg() != nil {
						if n.Obj().Pkg().Path() == pkgHTMLTemplate {
							R.Obl("pages are rendered by escaping templates", P.Pos(ci.Pos()))
						} else if served || r.toResponse(cc.Args[1]) {
							R.Obl("pages are rendered by escaping templates", P.Pos(ci.Pos()))
							R.Fail("text-template:"+FnName(f), ci.Pos(), FnName(f)+" renders a page with "+n.Obj().Pkg().Path()+", which does not escape", nil)
						}
					}
				}
				if served || hasWriterParam(f) {
					r.write(f, ci)
				}
			}
		}
	}
	r.funcMap()
	r.templates()
	R.Need("pages are rendered by escaping templates", 1)
	R.Need("direct output is not HTML made of data", 4)
	R.Need("template sources do not bypass escaping", 5)
}

func hasWriterParam(f *ssa.Function) bool {
	for _, p := range f.Params {
		if isResponseWriter(p.Type()) {
			return true
		}
	}
	return false
}

func isResponseWriter(t types.Type) bool { return isNamedIn(t, "net/http", "ResponseWriter") }

// toResponse: can the writer be a response?
func (r *renderRule) toResponse(v ssa.Value) bool {
	hit := false
	r.F.NewWalk(func(v ssa.Value, _ string) bool {
		if isResponseWriter(v.Type()) {
			hit = true
		}
		return !hit
	}, nil).V(v)
	return hit
}

// conversion: a value gets a type that is inserted as it is.
func (r *renderRule) conversion(f *ssa.Function, ins ssa.Instruction) {
	v, ok := ins.(ssa.Value)
	if !ok {
		return
	}
	var x ssa.Value
	switch c := ins.(type) {
	case *ssa.ChangeType:
		x = c.X
	case *ssa.Convert:
		x = c.X
	case *ssa.MultiConvert:
		x = c.X
	case *ssa.TypeAssert:
		x = c.X
	default:
		return
	}
	name := bypassType(v.Type())
	if name == "" || bypassType(x.Type()) != "" {
		return
	}
	r.R.Obl("values keep the types that are escaped", r.P.Pos(ins.Pos()))
	if what := r.dynamic(x, nil); what != "" {
		r.R.Fail("bypass:"+FnName(f)+":"+name, ins.Pos(), FnName(f)+" turns "+what+" into a template."+name+", which is not escaped", nil)
	}
}

// fillsText: a library call that is given the address of a text and may write to it.
func fillsText(ci ssa.CallInstruction, a ssa.Value) bool {
	pt, ok := a.Type().Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	if b, ok := pt.Elem().Underlying().(*types.Basic); ok && b.Info()&types.IsString == 0 {
		return false
	}
	switch pt.Elem().Underlying().(type) {
	case *types.Basic, *types.Slice:
	default:
		return false
	}
	g := ci.Common().StaticCallee()
	return g == nil || !inPkg(g, "fmt", "log") || in(g.Name(), "Sscan", "Sscanf", "Fscan", "Fscanf")
}

// dynamic describes a part of a text that is neither a constant, a number, nor escaped; "" if there is none.
func (r *renderRule) dynamic(v ssa.Value, extra func(c *ssa.Call) bool) string {
	what := ""
	w := r.F.NewWalk(func(v ssa.Value, key string) bool {
		if what != "" {
			return false
		}
		if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&(types.IsNumeric|types.IsBoolean) != 0 {
			return false
		}
		switch x := v.(type) {
		case *ssa.Parameter:
			if len(r.F.calls[x.Parent()]) == 0 || x.Parent().Object() != nil && x.Parent().Object().Exported() {
				if isErrType(x.Type()) || textual(x.Type()) {
					what = "the parameter " + x.Name()
					return false
				}
			}
		case *ssa.Field, *ssa.FieldAddr:
			if len(r.F.fields[key]) == 0 || exportedField(v) {
				what = "the field " + key[strings.LastIndex(key, ".")+1:]
				return false
			}
		case *ssa.UnOp:
			if x.Op == token.ARROW {
				what = "a received value"
				return false
			}
		case *ssa.Call:
			if _, ok := x.Call.Value.(*ssa.Builtin); ok {
				return true
			}
			g := x.Call.StaticCallee()
			if g != nil && in(g.String(), "html.EscapeString", "html/template.HTMLEscapeString", "html/template.HTMLEscaper", "html/template.JSEscapeString", "html/template.URLQueryEscaper", "net/url.PathEscape", "net/url.QueryEscape", "time.Now") {
				return false
			}
			if g != nil && composes(g) || len(r.F.Targets(&x.Call)) > 0 {
				return true
			}
			what = "the result of " + calleeLabel(&x.Call)
			return false
		}
		return true
	}, func(c *ssa.Call, idx int) bool {
		g := c.Call.StaticCallee()
		if g == nil {
			return false
		}
		if inPkg(g, pkgHTMLTemplate) {
			return false // its output is escaped
		}
		return composes(g) || idx == -2
	})
	w.Fill = func(ci ssa.CallInstruction, a ssa.Value) {
		if fillsText(ci, a) && what == "" {
			what = "what " + calleeLabel(ci.Common()) + " fills in"
		}
	}
	w.V(v)
	return what
}

func isErrType(t types.Type) bool { return types.TypeString(t, nil) == "error" }

func textual(t types.Type) bool {
	switch x := t.Underlying().(type) {
	case *types.Basic:
		return x.Info()&types.IsString != 0
	case *types.Slice:
		return true
	case *types.Interface:
		return !isResponseWriter(t)
	case *types.Map:
		return true
	}
	return false
}

// write: something is written to a response directly.
func (r *renderRule) write(f *ssa.Function, ci ssa.CallInstruction) {
	cc := ci.Common()
	var w ssa.Value
	var data []ssa.Value
	what := ""
	isW := func(v ssa.Value) bool { return isResponseWriter(unwrapIface(v).Type()) }
	switch {
	case cc.IsInvoke() && isW(cc.Value):
		if cc.Method.Name() != "Write" {
			return
		}
		w, data, what = cc.Value, cc.Args, "Write"
	case cc.IsInvoke():
		for _, a := range cc.Args {
			if isW(a) && !isResponseWriter(a.Type()) {
				w, what = a, cc.Method.Name()
			}
		}
	default:
		g := cc.StaticCallee()
		if g == nil {
			return
		}
		for i, a := range cc.Args {
			if isW(a) && !isResponseWriter(a.Type()) {
				w, what = a, g.Name()
				data = append(append([]ssa.Value{}, cc.Args[:i]...), cc.Args[i+1:]...)
			}
		}
		if w == nil {
			return
		}
		if inPkg(g, pkgHTMLTemplate) || inPkg(g, "text/template") {
			return
		}
		if !in(g.String(), "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln", "io.WriteString", "io.Copy", "(*bytes.Buffer).WriteTo", "(*strings.Reader).WriteTo", "(*bytes.Reader).WriteTo") {
			data = nil // an encoder, a stream
		}
	}
	if w == nil {
		return
	}
	r.R.Obl("direct output is not HTML made of data", r.P.Pos(ci.Pos()))
	if len(data) > 0 {
		dyn := ""
		for _, d := range data {
			if x := r.dynamic(d, nil); x != "" {
				dyn = x
			}
		}
		if dyn == "" {
			return
		}
		what = dyn
	} else {
		what = "the output of " + what
	}
	if r.plain(f, ci, map[*ssa.Function]bool{}) {
		return
	}
	r.R.Fail("direct:"+FnName(f), ci.Pos(), FnName(f)+" writes "+what+" to a response that is, or may be taken for, HTML", nil)
}

// plain: a content type other than HTML is set before the instruction on every way to it.
func (r *renderRule) plain(f *ssa.Function, at ssa.CallInstruction, seen map[*ssa.Function]bool) bool {
	if seen[f] {
		return true
	}
	seen[f] = true
	defer delete(seen, f)
	set := false
	for _, b := range f.Blocks {
		for i, ins := range b.Instrs {
			c, ok := ins.(*ssa.Call)
			if !ok {
				continue
			}
			g := c.Call.StaticCallee()
			if g == nil {
				continue
			}
			before := b == at.Block() && i < indexOf(b, at) || b != at.Block() && b.Dominates(at.Block())
			if g.String() == "(net/http.Header).Set" || g.String() == "(net/http.Header).Add" {
				if !strings.EqualFold(ssaStr(c.Call.Args[1]), "Content-Type") || !before {
					continue
				}
				ty := ssaStr(c.Call.Args[2])
				html := strings.Contains(strings.ToLower(ty), "html") || strings.Contains(strings.ToLower(ty), "xml") && ty != ""
				if html {
					return false
				}
				set = true
			} else if before && r.P.InRepo(g) && g.Blocks != nil && r.sets(g, map[*ssa.Function]bool{}) {
				set = true
			}
		}
	}
	if set {
		return true
	}
	calls := r.F.calls[f]
	if isHandler(f) && len(calls) == 0 || len(calls) == 0 {
		return false
	}
	for _, c := range calls {
		g := c.(ssa.Instruction).Parent()
		if isExample(g) {
			continue
		}
		if !r.plain(g, c, seen) {
			return false
		}
	}
	return true
}

// sets: a helper that sets a content type other than HTML before it returns.
func (r *renderRule) sets(g *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[g] || !hasWriterParam(g) && len(g.Params) == 0 {
		return false
	}
	seen[g] = true
	var exits []*ssa.BasicBlock
	for _, b := range g.Blocks {
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			exits = append(exits, b)
		}
	}
	for _, b := range g.Blocks {
		for _, ins := range b.Instrs {
			c, ok := ins.(*ssa.Call)
			if !ok {
				continue
			}
			h := c.Call.StaticCallee()
			if h == nil || h.String() != "(net/http.Header).Set" || !strings.EqualFold(ssaStr(c.Call.Args[1]), "Content-Type") {
				continue
			}
			ty := strings.ToLower(ssaStr(c.Call.Args[2]))
			if strings.Contains(ty, "html") {
				return false
			}
			all := true
			for _, e := range exits {
				if e != b && !b.Dominates(e) {
					all = false
				}
			}
			if all {
				return true
			}
		}
	}
	return false
}

func indexOf(b *ssa.BasicBlock, in ssa.Instruction) int {
	for i, x := range b.Instrs {
		if x == in {
			return i
		}
	}
	return -1
}

// funcMap lists the functions offered to templates; what they convert to an unescaped type is judged by conversion.
func (r *renderRule) funcMap() {
	for f := range r.P.All {
		if !r.P.InRepo(f) || isExample(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				mu, ok := ins.(*ssa.MapUpdate)
				if !ok || !isNamedIn(mu.Map.Type(), pkgHTMLTemplate, "FuncMap") && !isNamedIn(mu.Map.Type(), "text/template", "FuncMap") {
					continue
				}
				s, ok := unwrapIface(mu.Value).Type().Underlying().(*types.Signature)
				if !ok {
					continue
				}
				r.R.Obl("template functions return values that are escaped", ssaStr(mu.Key))
				r.R.Item("template functions offered", ssaStr(mu.Key)+" "+s.Results().String())
			}
		}
	}
}

var (
	reRaw  = regexp.MustCompile(`(?i)\bv-html\b|\binnerHTML\b|\bouterHTML\b|\binsertAdjacentHTML\b|\bdocument\.write(ln)?\b|\bsrcdoc\b|\binner-html\b|\bcreateContextualFragment\b`)
	reBind = regexp.MustCompile(`(?i)(?:\s:|\bv-bind:)(href|src|action|formaction|xlink:href|data)\s*=\s*("([^"]*)"|'([^']*)')`)
	reOn   = regexp.MustCompile(`(?i)(?:\s:|\bv-bind:)(on\w+|style)\s*=`)
)

// templates: the page sources.
func (r *renderRule) templates() {
	filepath.Walk(r.P.Dir, func(path string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel := strings.TrimPrefix(strings.TrimPrefix(path, r.P.Dir), "/")
		if fi.IsDir() {
			if fi.Name() == ".git" || fi.Name() == "node_modules" || rel == "examples" || fi.Name() == "testdata" {
				return filepath.SkipDir
			}
			return nil
		}
		if !in(filepath.Ext(path), ".gohtml", ".html", ".tmpl", ".htm") || !strings.Contains(rel, "template") {
			return nil
		}
		b, err := os.ReadFile(path)
		if err != nil {
			return nil
		}
		r.R.Obl("template sources do not bypass escaping", rel)
		text := string(b)
		line := func(i int) string { return rel + ":" + itoa(1+strings.Count(text[:i], "\n")) }
		fail := func(i int, key, msg string) {
			k := key + ":" + rel
			if _, ok := r.R.Found[k]; !ok {
				r.R.Found[k] = &Finding{Key: k, Msg: msg, Pos: line(i)}
			}
		}
		if m := reRaw.FindStringIndex(text); m != nil {
			fail(m[0], "raw", rel+" inserts data as HTML ("+text[m[0]:m[1]]+")")
		}
		for _, m := range reBind.FindAllStringSubmatchIndex(text, -1) {
			e := ""
			if m[6] >= 0 {
				e = text[m[6]:m[7]]
			} else {
				e = text[m[8]:m[9]]
			}
			e = strings.TrimSpace(e)
			if !regexp.MustCompile("^['\"`](/|https?://|#|\\?)").MatchString(e) {
				fail(m[0], "link", rel+" links to an address that data decides from its start: "+e)
			}
		}
		if m := reOn.FindStringIndex(text); m != nil {
			fail(m[0], "handler", rel+" makes a script or style of data ("+strings.TrimSpace(text[m[0]:m[1]])+")")
		}
		// the functions used
		t := parse.New(rel)
		t.Mode = parse.SkipFuncCheck
		set := map[string]*parse.Tree{}
		if _, err := t.Parse(text, "", "", set); err == nil {
			for _, tr := range set {
				if tr.Root != nil {
					walkTpl(tr.Root, func(id string) {
						if in(id, "html", "urlquery", "js", "print", "printf", "println") {
							return
						}
						r.R.Item("template functions used", id)
					})
				}
			}
		}
		return nil
	})
}

func itoa(i int) string {
	if i == 0 {
		return "0"
	}
	s := ""
	for ; i > 0; i /= 10 {
		s = string(rune('0'+i%10)) + s
	}
	return s
}

func walkTpl(n parse.Node, id func(string)) {
	switch x := n.(type) {
	case *parse.ListNode:
		if x != nil {
			for _, y := range x.Nodes {
				walkTpl(y, id)
			}
		}
	case *parse.ActionNode:
		walkTpl(x.Pipe, id)
	case *parse.PipeNode:
		if x != nil {
			for _, c := range x.Cmds {
				for _, a := range c.Args {
					walkTpl(a, id)
				}
			}
		}
	case *parse.IdentifierNode:
		id(x.Ident)
	case *parse.IfNode:
		walkTpl(x.Pipe, id)
		walkTpl(x.List, id)
		walkTpl(x.ElseList, id)
	case *parse.RangeNode:
		walkTpl(x.Pipe, id)
		walkTpl(x.List, id)
		walkTpl(x.ElseList, id)
	case *parse.WithNode:
		walkTpl(x.Pipe, id)
		walkTpl(x.List, id)
		walkTpl(x.ElseList, id)
	case *parse.TemplateNode:
		walkTpl(x.Pipe, id)
	}
}

func init() {
	register("C24", "Backward data flow from every text written to a response directly, from every conversion to a type html/template does not escape, a type check of the template functions and of the template engine used on the way to a response, and a scan of the page sources for constructs that insert data as HTML.",
		[]string{"html/template escapes according to context", "a JSON content type is not rendered as HTML by a browser"},
		renderPages)
}
