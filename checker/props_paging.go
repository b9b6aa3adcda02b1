package main

import (
	"go/token"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// What request handlers read (C06), and the pages of records they show (C29).
//
// Rule state: links (number the next page begins at), base (whether the link is safe), list (records read), n (how
// many were asked for), pg (page asked for), var:NAME
type pageRule struct {
	Base
	P     *Prog
	R     *Report
	root  *ssa.Function
	name  string
	prop  string
	pages bool // judge the pages; otherwise the reads
	loops *LoopTab

	safe map[string]bool
	op   string // the read the handler's route names
}

const (
	rulePageRead = "a request's read has the start and selection asked for"
	rulePageNext = "the next page begins with the first record not shown"
	rulePageLink = "a link to another page names the stream safely"
	rulePageNum  = "page positions are read in full"
	pkgPaging    = modPath + "/pkg/paging"
)

func (r *pageRule) fail(key string, p *Path, pos token.Pos, msg string) {
	if !pos.IsValid() {
		pos = r.root.Pos()
	}
	r.R.Fail(key+":"+r.name, pos, r.name+": "+msg, p)
}

// pagingCall: a call of the paging package that makes a page position ("new") or its links ("links").
func pagingCall(c *Call) string {
	if c.Fn == nil || pkgOf(c.Fn) == nil || pkgOf(c.Fn).Path() != pkgPaging || c.Fn.Parent() != nil {
		return ""
	}
	res := c.Fn.Signature.Results()
	if res.Len() != 1 {
		return ""
	}
	switch {
	case isNamedIn(res.At(0).Type(), pkgPaging, "Pagination"):
		return "new"
	case isNamedIn(res.At(0).Type(), pkgPaging, "Links"):
		return "links"
	}
	return ""
}

func (r *pageRule) Model(p *Path, c *Call) []Outcome {
	if o := pureEvent(p, c); o != nil {
		return o
	}
	switch pagingCall(c) {
	case "new":
		return []Outcome{{Opaque: true, After: func(q *Path, res *Val) bool {
			q.SetV("pg", nil, "", res)
			return true
		}}}
	case "links":
		return []Outcome{{Opaque: true}}
	}
	if c.Fn != nil && c.Fn.String() == modPath+".ReadNRecords" && r.pages {
		return []Outcome{{Opaque: true, After: func(q *Path, res *Val) bool {
			q.SetV("list", nil, "", res)
			q.SetV("n", nil, "", c.Args[0])
			num := "GlobalSequenceNumber"
			if f := c.Args[1]; f != nil && f.Fn != nil {
				for g := range staticReach(r.P, []*ssa.Function{f.Fn}) {
					if invokesRead(g) == "EventsByStream" {
						num = "StreamSequenceNumber"
					}
				}
			}
			q.Set("num", nil, num)
			// at most as many as asked for
			l := q.E.T.mk(Val{K: KLen, Args: []*Val{res}, T: types.Typ[types.Int]})
			return q.Assume(q.E.T.mk(Val{K: KLt, Args: []*Val{c.Args[0], l}, T: types.Typ[types.Bool]}), false)
		}}}
	}
	if failing(r.P, c) {
		return errFork(nil, nil)
	}
	return nil
}

func (r *pageRule) SelectCase(p *Path, ev *Ev, i int) bool { return true }

// invokesRead: the read operation of a store a function calls.
func invokesRead(g *ssa.Function) string {
	for _, b := range g.Blocks {
		for _, ins := range b.Instrs {
			if ci, ok := ins.(ssa.CallInstruction); ok {
				cc := ci.Common()
				if cc.IsInvoke() && isRead(cc.Method.Name()) && cc.Method.Pkg() != nil && cc.Method.Pkg().Path() == modPath {
					return cc.Method.Name()
				}
			}
		}
	}
	return ""
}

// routeVarIs: v is the route variable name itself.
func routeVarIs(v *Val, name string) bool {
	v = unwrap(v)
	if v == nil || v.K != KLookup || len(v.Args) < 2 {
		return false
	}
	m := unwrap(v.Args[0])
	return m != nil && m.K == KCall && m.FullName() == "github.com/gorilla/mux.Vars" && constStr(v.Args[1]) == name
}

func (r *pageRule) Event(p *Path, ev *Ev) {
	if ev.K != EvCall {
		return
	}
	c := ev.Call
	pos := ev.Instr.Pos()
	if op := isStoreOp(c); !r.pages && isRead(op) {
		r.read(p, c, op, pos)
		p.dead = true
		return
	}
	if !r.pages {
		return
	}
	switch {
	case pagingCall(c) == "links":
		if len(c.Args) != 3 {
			return
		}
		if p.GetV("pg", nil) == nil || c.Args[0] != p.GetV("pg", nil) {
			r.fail("other-page", p, pos, "the links are not those of the page asked for")
		}
		p.SetV("links", nil, "", c.Args[2])
		r.R.Obl(rulePageLink, r.name)
		if bad := r.unsafe(c.Args[1]); bad != nil {
			r.fail("base", p, pos, "the links to other pages contain a name as it is: with a name that contains %, ? or # they lead elsewhere or cannot be made")
		}
	case strings.HasSuffix(c.Name(), "/template.Template).Execute") || strings.HasSuffix(c.Name(), "/template.Template).ExecuteTemplate"):
		r.shown(p, c.Args[len(c.Args)-1], pos)
	}
}

// unsafe: a part of the text that is neither constant nor escaped nor restricted to harmless characters.
func (r *pageRule) unsafe(v *Val) *Val {
	if v == nil || v.K == KConst {
		return nil
	}
	switch v.K {
	case KBin, KTuple:
		for _, a := range v.Args {
			if b := r.unsafe(a); b != nil {
				return b
			}
		}
		return nil
	case KConv:
		return r.unsafe(v.Args[0])
	case KLookup:
		for n := range r.safe {
			if routeVarIs(v, n) {
				return nil
			}
		}
		return v
	case KCall:
		switch v.FullName() {
		case "net/url.PathEscape", "(*net/url.URL).String", "(*net/url.URL).EscapedPath", "(*net/url.URL).RequestURI":
			return nil
		}
		for _, a := range v.Args {
			if a != nil && isStringy(a) {
				if b := r.unsafe(a); b != nil {
					return b
				}
			}
		}
		if len(v.Args) == 0 {
			return v
		}
		return nil
	case KBuiltin:
		for _, a := range v.Args {
			if b := r.unsafe(a); b != nil {
				return b
			}
		}
		return nil
	}
	return v
}

func isStringy(v *Val) bool {
	if v.K == KTuple || v.K == KConv {
		return true
	}
	if v.T == nil {
		return false
	}
	b, ok := v.T.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// read judges the arguments of a read.
func (r *pageRule) read(p *Path, c *Call, op string, pos token.Pos) {
	r.R.Obl(rulePageRead, r.name+" "+op)
	if r.op != "" && op != r.op {
		r.fail("other-read", p, pos, "the request names a selection for "+r.op+", but "+op+" is called")
		return
	}
	pg := p.GetV("pg", nil)
	for i, role := range opRoles[op] {
		if i+1 >= len(c.Args) {
			break
		}
		a := c.Args[i+1]
		switch role {
		case "start", "sstart":
			switch {
			case pg != nil:
				if !reads(a, pg, "CurrentIndex") {
					r.fail("start", p, pos, "the page is not read from the position asked for")
				}
			case !isInt(p.constOf(a), 0) && !isInt(a, 0):
				// or from the number given in the request
				n := unwrap(a)
				given := n.K == KExtract && len(n.Args) > 0 && n.Args[0].K == KCall && n.Args[0].FullName() == "strconv.ParseUint"
				if r.prop == "C06" && !given {
					r.fail("start", p, pos, "records before the start are left out although the request asks for all")
				}
			}
		case "stream":
			if !routeVarIs(a, "streamName") {
				r.fail("stream", p, pos, "the stream read is not the one named in the request")
			}
		case "types":
			els, ok := p.SliceElems(a)
			good := ok && len(els) == 1 && routeVarIs(els[0], "aggregateType")
			if s := unwrap(a); s != nil && s.K == KCall && s.FullName() == "strings.Split" && len(s.Args) == 2 {
				good = routeVarIs(s.Args[0], "aggregateType") && constStr(s.Args[1]) == ","
			}
			if !good {
				r.fail("types", p, pos, "the aggregate types read are not those named in the request")
			}
		}
	}
}

// shown judges the list of records a page shows, together with its links.
func (r *pageRule) shown(p *Path, data *Val, pos token.Pos) {
	data = unwrap(data)
	list, pg, n := p.GetV("list", nil), p.GetV("pg", nil), p.GetV("n", nil)
	if data == nil || data.T == nil || list == nil || pg == nil {
		return
	}
	t := data.T
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return
	}
	var recs *Val
	for i := 0; i < st.NumFields(); i++ {
		if sl, ok := st.Field(i).Type().Underlying().(*types.Slice); ok && isNamedIn(ptrElem(sl.Elem()), modPath, "Record") {
			recs = p.FieldOf(data, st.Field(i).Name())
		}
	}
	r.R.Obl(rulePageNext, r.name)
	next := p.GetV("links", nil)
	if recs == nil || next == nil {
		r.fail("no-page", p, pos, "the page shows records read but no list of them, or no links")
		return
	}
	base := recs
	if recs.K == KSlice {
		base = recs.Args[0]
		if recs.Args[1] != nil && !isInt(recs.Args[1], 0) {
			r.fail("skips", p, pos, "the page leaves out the first records read")
			return
		}
	}
	if base != list {
		r.fail("other-list", p, pos, "the page does not show the records read")
		return
	}
	iv := p.FieldOf(pg, "ItemsPerPage")
	if iv == nil {
		return
	}
	items := p.lin(iv)
	k := p.linLen(recs)
	if !p.atLeast0(items.add(k, -1), r.loops) {
		r.fail("too-many", p, pos, "the page may show more records than a page has")
	}
	if reads(next, pg, "CurrentIndex") || isInt(next, 0) {
		// the last page
		full := p.linLen(list)
		if !p.atLeast0(k.add(full, -1), r.loops) {
			r.fail("end-hides", p, pos, "a page that shows fewer records than were read has no next page")
		}
		m := p.lin(n).add(full, -1)
		m.c--
		if !p.atLeast0(m, r.loops) {
			r.fail("end-unsure", p, pos, "a page has no next page although there may be more records than were read")
		}
		return
	}
	after := int64(0)
	if next.K == KBin && next.Op == "+" {
		// or the number after the last record shown
		for i := 0; i < 2; i++ {
			if isInt(next.Args[i], 1) {
				next, after = next.Args[1-i], 1
				break
			}
		}
	}
	b, f := fieldRead(next)
	if f != p.Get("num", nil) {
		r.fail("next-number", p, pos, "the next page's position is not the "+p.Get("num", nil)+" of a record")
		return
	}
	l, idx := elemOf(b)
	if l == nil || idx == nil {
		r.fail("next-record", p, pos, "the next page's position is not that of a record read")
		return
	}
	if !p.atLeast0(k.add(items, -1), r.loops) {
		r.fail("not-full", p, pos, "a page that has a next page may show fewer records than a page has")
	}
	at := p.lin(idx)
	if l.K == KSlice {
		if l.Args[1] != nil {
			at = at.add(p.lin(l.Args[1]), 1)
		}
		l = l.Args[0]
	}
	at.c += after
	if l != list || !p.atLeast0(at.add(k, -1), r.loops) || !p.atLeast0(k.add(at, -1), r.loops) {
		r.fail("next-record", p, pos, "the next page does not begin with the first record that is not shown")
	}
}

var routePattern = regexp.MustCompile(`\{(\w+):\[([^\]]*)\]\+?\}`)
var plainClass = regexp.MustCompile(`^(a-z|A-Z|0-9|[-_.,~a-zA-Z0-9])*$`)

// safeRouteVars: route variables that are restricted to harmless characters wherever they are declared.
func safeRouteVars(pkg *ssa.Package, P *Prog) map[string]bool {
	out, bad := map[string]bool{}, map[string]bool{}
	for _, f := range P.Funcs {
		if f.Pkg != pkg {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					k, ok := (*op).(*ssa.Const)
					if !ok || k.Value == nil {
						continue
					}
					s := k.Value.ExactString()
					for _, m := range routePattern.FindAllStringSubmatch(s, -1) {
						if plainClass.MatchString(m[2]) {
							out[m[1]] = true
						} else {
							bad[m[1]] = true
						}
					}
				}
			}
		}
	}
	for n := range bad {
		delete(out, n)
	}
	return out
}

// requestReads judges every read of a store made while a request is handled.
func requestReads(P *Prog, R *Report, prop string) {
	for _, f := range P.Funcs {
		if isExample(f) || !isHandler(f) || IsTestSupport(pkgOf(f).Path()) {
			continue
		}
		if f.Parent() != nil && len(f.FreeVars) == 0 && len(NewFlow(P).closures[f]) == 0 && !NewFlow(P).dynamic[f] {
			continue
		}
		reads, paged := false, false
		vars := map[string]bool{}
		for g := range staticReach(P, []*ssa.Function{f}) {
			if invokesRead(g) != "" {
				reads = true
			}
			for _, b := range g.Blocks {
				for _, ins := range b.Instrs {
					if l, ok := ins.(*ssa.Lookup); ok {
						if k, ok := l.Index.(*ssa.Const); ok && k.Value != nil {
							vars[strings.Trim(k.Value.ExactString(), `"`)] = true
						}
					}
					if ci, ok := ins.(ssa.CallInstruction); ok {
						if h := ci.Common().StaticCallee(); h != nil && pkgOf(h) != nil && pkgOf(h).Path() == pkgPaging {
							paged = true
						}
					}
				}
			}
		}
		if !reads || prop == "C29" && !paged {
			continue
		}
		op := "Events"
		if vars["streamName"] {
			op = "EventsByStream"
		} else if vars["aggregateType"] {
			op = "EventsByAggregateTypes"
		}
		for _, pages := range []bool{false, true} {
			if pages && prop != "C29" {
				continue
			}
			r := &pageRule{P: P, R: R, prop: prop, root: f, name: FnName(f), pages: pages, safe: safeRouteVars(f.Pkg, P), op: op}
			e := NewEngine(P, r)
			e.WideInts = true
			e.RunRoot(f, func(p *Path, params []*Val) {
				for _, a := range params {
					if _, ok := a.T.Underlying().(*types.Pointer); ok {
						p.SetNil(a, false)
					}
				}
			})
			R.Engine(e, r.name)
		}
		R.Item("request handlers that read", FnName(f))
	}
}

// pageNumbers: positions are read as decimal numbers of 64 bits.
func pageNumbers(P *Prog, R *Report) {
	for _, f := range P.Funcs {
		if pkgOf(f) == nil || pkgOf(f).Path() != pkgPaging {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				ci, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				h := ci.Common().StaticCallee()
				if h == nil {
					continue
				}
				a := ci.Common().Args
				switch h.String() {
				case "strconv.ParseUint":
					R.Obl(rulePageNum, P.Pos(ci.Pos()))
					if !isConstInt(a[1], 10) || !isConstInt(a[2], 64) && !isConstInt(a[2], 0) {
						R.Fail("number:"+FnName(f), ci.Pos(), FnName(f)+": a page's position is not read as a decimal number of 64 bits", nil)
					}
				case "strconv.ParseInt", "strconv.Atoi", "strconv.ParseFloat":
					R.Fail("number:"+FnName(f), ci.Pos(), FnName(f)+": a page's position is not read as a decimal number of 64 bits", nil)
				case "strconv.FormatUint":
					R.Obl(rulePageNum, P.Pos(ci.Pos()))
					if !isConstInt(a[1], 10) {
						R.Fail("number:"+FnName(f), ci.Pos(), FnName(f)+": a page's position is not written as a decimal number", nil)
					}
				}
			}
		}
	}
}

func isConstInt(v ssa.Value, n int64) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.Value != nil && k.Int64() == n
}

func init() {
	register("C29", "Every path of the handlers that show records page by page is explored, for any page size, position and number of records read (linear arithmetic over their lengths): where the page is read from, which of the records read it shows, and where the next page begins.", []string{
		"rangedb.ReadNRecords returns the first records of the iterator, at most as many as asked for, all if there are fewer (C08)",
		"paging.Pagination.Links puts the numbers it is given into the links (unit tests)",
		"html/template escapes what it prints (C24)",
	}, func(P *Prog, R *Report) {
		requestReads(P, R, "C29")
		pageNumbers(P, R)
		R.Need(rulePageRead, 2)
		R.Need(rulePageNext, 2)
		R.Need(rulePageLink, 2)
		R.Need(rulePageNum, 3)
	})
}
