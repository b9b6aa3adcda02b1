package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C22: what an HTTP handler answers.
//
// Rule state: op (store operation called), kind (its outcome: ok, conflict, notfound, other), status (code answered),
// bad (a validation failed), ct (content type found to be right), shown (the store's number was written)
type httpRule struct {
	Base
	P     *Prog
	R     *Report
	root  *ssa.Function
	name  string
	prop  string
	write bool // reaches a save or delete
}

const (
	ruleStatus  = "the status answered is the outcome of the store operation"
	ruleReject  = "a rejected request is answered as a bad request and never reaches the store"
	ruleOnce    = "one status per request, and nothing after a failure"
	ruleNumber  = "the sequence number reported is the store's"
	ruleArgs    = "the store operation is the one asked for, on the stream asked for"
	unexpSeqErr = "UnexpectedSequenceNumber"
)

func isStoreWrite(c *Call) string {
	if op := isStoreOp(c); in(op, "Save", "OptimisticSave", "OptimisticDeleteStream") {
		return op
	}
	return ""
}

func (r *httpRule) fail(key string, p *Path, pos token.Pos, msg string) {
	if !pos.IsValid() {
		pos = r.root.Pos()
	}
	if r.prop == "C01" && !strings.HasPrefix(key, "expected") && key != "optimistic-unasked" {
		return
	}
	r.R.Fail(key+":"+r.name, pos, r.name+": "+msg, p)
}

func (r *httpRule) obl(rule, what string) {
	if r.prop == "C01" {
		if rule != ruleArgs {
			return
		}
		rule = passObl["C01"]
	}
	r.R.Obl(rule, what)
}

// errKinds: well-known failures a store operation can have.
func (r *httpRule) conflictType() types.Type {
	o := r.P.Lookup("pkg/rangedberror", unexpSeqErr)
	if o == nil {
		return nil
	}
	return types.NewPointer(o.Type())
}

func (r *httpRule) Model(p *Path, c *Call) []Outcome {
	if o := pureEvent(p, c); o != nil {
		return o
	}
	if op := isStoreWrite(c); op != "" {
		kinds := []string{"other"}
		switch op {
		case "OptimisticSave":
			kinds = append(kinds, "conflict")
		case "OptimisticDeleteStream":
			kinds = append(kinds, "conflict", "notfound")
		}
		out := errFork(func(q *Path, res *Val) { q.SetV("kind", nil, "ok", res) }, nil)[:1]
		ct := r.conflictType()
		nf := r.P.gval("", "ErrStreamNotFound")
		for _, k := range kinds {
			k := k
			out = append(out, Outcome{Opaque: true, After: func(q *Path, res *Val) bool {
				e := q.ErrOf(res)
				if !q.SetNil(e, false) {
					return false
				}
				q.SetV("kind", nil, k, e)
				q.Note(c.Instr.Pos(), "the store reports: "+k)
				if ct != nil && !q.Assume(q.E.T.mk(Val{K: KTypeOK, Args: []*Val{e}, T: ct}), k == "conflict") {
					return false
				}
				if nf != nil && !q.Assume(q.E.T.Eq(e, nf), k == "notfound") {
					return false
				}
				return true
			}})
		}
		return out
	}
	switch nm := c.Name(); nm {
	case "(net/http.Header).Get":
		// the request's headers do not change while it is handled
		if c.Args[0].Any(func(x *Val) bool { return x.T != nil && types.TypeString(x.T, nil) == "*net/http.Request" }) && c.Args[1].K == KConst {
			return []Outcome{{Res: p.E.T.mk(Val{K: KBuiltin, Op: "pure:header", Args: []*Val{c.Args[1]}, T: types.Typ[types.String]})}}
		}
	case "errors.As":
		if kv := p.GetV("kind", nil); kv != nil && len(c.Args) == 2 && c.Args[0] == kv {
			if pt, ok := c.Args[1].T.Underlying().(*types.Pointer); ok && r.conflictType() != nil && types.Identical(pt.Elem(), r.conflictType()) {
				yes := p.Get("kind", nil) == "conflict"
				return []Outcome{{Opaque: true, After: func(q *Path, res *Val) bool {
					if yes {
						if v := q.load(c.Args[1], pt.Elem(), c.Instr); v != nil {
							q.SetNil(v, false)
						}
					}
					return q.Assume(res, yes)
				}}}
			}
		}
	case "(*encoding/json.Decoder).Decode", "encoding/json.Unmarshal":
		return errFork(nil, func(q *Path, res *Val) { r.invalid(q, "its body is not valid") })
	case "strconv.ParseUint", "strconv.ParseInt", "strconv.Atoi":
		// every number a stream can reach is read as written
		plain := nm == "strconv.ParseUint" && len(c.Args) == 3 && isInt(c.Args[1], 10) && (isInt(c.Args[2], 64) || isInt(c.Args[2], 0))
		return errFork(func(q *Path, res *Val) {
			if plain {
				q.SetV("number", nil, "1", q.ResOf(res, 0))
			}
		}, func(q *Path, res *Val) { r.invalid(q, "its number is not valid") })
	}
	if failing(r.P, c) {
		return errFork(nil, nil)
	}
	return nil
}

func (r *httpRule) invalid(q *Path, why string) {
	if q.Get("op", nil) == "" && q.Get("bad", nil) == "" {
		q.Set("bad", nil, why)
	}
}

func (r *httpRule) SelectCase(p *Path, ev *Ev, i int) bool { return true }

// isHeaderGet: reading a request header.
func isHeaderGet(v *Val, name string) bool {
	if v == nil {
		return false
	}
	return v.Any(func(x *Val) bool {
		if x.K == KCall && strings.HasPrefix(x.FullName(), "(net/http.Header).") || x.K == KBuiltin && x.Op == "pure:header" {
			for _, a := range x.Args {
				if a != nil && a.K == KConst && a.C.Kind() == constant.String && strings.EqualFold(constant.StringVal(a.C), name) {
					return true
				}
			}
		}
		// r.Header["Name"]
		if x.K == KLookup {
			for _, a := range x.Args {
				if a != nil && a.K == KConst && a.C.Kind() == constant.String && strings.EqualFold(constant.StringVal(a.C), name) {
					return true
				}
			}
		}
		return false
	})
}

func intConst(v *Val) (int64, bool) {
	if v == nil || v.K != KConst || v.C.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(v.C)
}

func (r *httpRule) Event(p *Path, ev *Ev) {
	switch ev.K {
	case EvCall:
		r.call(p, ev)
	case EvBranch:
		// the content type is looked at
		c, taken := ev.Val, ev.Bool
		if c == nil {
			return
		}
		for c.K == KNot {
			c, taken = c.Args[0], !taken
		}
		if isHeaderGet(c, "Content-Type") {
			if c.K == KEq {
				k := c.Args[1]
				if k.K != KConst {
					k = c.Args[0]
				}
				if k.K == KConst && k.C.Kind() == constant.String {
					if taken && strings.Contains(constant.StringVal(k.C), "json") {
						p.Set("ct", nil, "1")
					} else if !taken && strings.Contains(constant.StringVal(k.C), "json") && p.Get("ct", nil) == "" {
						p.Set("ct", nil, "no")
					}
				} else {
					p.Set("ct", nil, "1")
				}
			} else if p.Get("ct", nil) == "" {
				p.Set("ct", nil, "1")
			}
		}
		if isHeaderGet(c, "ExpectedStreamSequenceNumber") {
			if c.K == KEq && c.Args[1].K == KConst && c.Args[1].C.Kind() == constant.String && constant.StringVal(c.Args[1].C) == "" {
				p.Set("given", nil, map[bool]string{true: "no", false: "yes"}[taken])
			}
			if c.K == KLt && len(c.Args) == 2 && c.Args[1].K == KLen && isInt(c.Args[0], 0) {
				p.Set("given", nil, map[bool]string{true: "yes", false: "no"}[taken])
			}
			if c.K == KEq && c.Args[0].K == KLen && isInt(c.Args[1], 0) {
				p.Set("given", nil, map[bool]string{true: "no", false: "yes"}[taken])
			}
		}
	case EvExit:
		r.exit(p, ev)
	}
}

func (r *httpRule) call(p *Path, ev *Ev) {
	c := ev.Call
	pos := ev.Instr.Pos()
	if op := isStoreWrite(c); op != "" {
		r.store(p, ev, op)
		return
	}
	nm := c.Name()
	switch {
	case nm == "(net/http.ResponseWriter).WriteHeader":
		r.status(p, pos, c.Args[1])
	case nm == "net/http.Error" && len(c.Args) == 3:
		r.status(p, pos, c.Args[2])
	case nm == "net/http.NotFound":
		r.status(p, pos, p.E.T.Int(404))
	case nm == "net/http.Redirect" && len(c.Args) == 4:
		r.status(p, pos, c.Args[3])
	default:
		if r.isBody(c) {
			if p.Get("status", nil) == "" {
				p.Set("status", nil, "200")
				p.Set("implicit", nil, r.P.Pos(pos))
			}
			if v := p.GetV("kind", nil); v != nil && p.Get("kind", nil) == "ok" {
				n := p.GetV("removed", nil)
				if p.Get("op", nil) != "OptimisticDeleteStream" {
					n = p.ResOf(v, 0)
				}
				for _, a := range p.XArgs(c) {
					if a == nil {
						continue
					}
					els := []*Val{a}
					if a.K == KTuple {
						els = a.Args
					}
					for _, x := range els {
						if x != nil && (carries(x, n) || p.holds(x, n) != "" || r.mapHolds(p, x, n)) {
							p.Set("shown", nil, "1")
						}
					}
				}
			}
		}
	}
}

// carries: v shows n itself, not something computed from it.
func carries(v, n *Val) bool {
	if v == n {
		return true
	}
	if v == nil || v.K == KBin && isNumeric(v.T) {
		return false
	}
	for _, a := range v.Args {
		if carries(a, n) {
			return true
		}
	}
	return false
}

func isNumeric(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsNumeric != 0
}

// mapHolds: an entry of a map literal has the value.
func (r *httpRule) mapHolds(p *Path, m, n *Val) bool {
	for k, v := range p.mem {
		if k.K == KMapElem && len(k.Args) > 0 && k.Args[0] == m && v == n {
			return true
		}
	}
	return false
}

// isBody: a call that writes the response's body.
func (r *httpRule) isBody(c *Call) bool {
	if c.Name() == "(net/http.ResponseWriter).Write" {
		return true
	}
	if c.Fn != nil && r.P.InRepo(c.Fn) {
		return false
	}
	pkg, name := c.callee()
	switch {
	case pkg == "fmt" && strings.HasPrefix(name, "Fprint"), pkg == "io" && in(name, "WriteString", "Copy"):
		return len(c.Args) > 0 && r.toResponse(c.Args[0])
	case pkg == "encoding/json" && name == "Encode":
		return len(c.Args) > 0 && c.Args[0].Any(func(x *Val) bool { return r.toResponse(x) })
	}
	return false
}

func (r *httpRule) toResponse(v *Val) bool { return v != nil && v.T != nil && isResponseWriter(v.T) }

func (r *httpRule) status(p *Path, pos token.Pos, code *Val) {
	r.obl(ruleOnce, r.name)
	if was := p.Get("status", nil); was != "" {
		if im := p.Get("implicit", nil); im != "" {
			r.fail("late-status", p, pos, "a status is written after the body began at "+im+" (the answer is already 200)")
		} else {
			r.fail("two-statuses", p, pos, "a second status is written after "+was)
		}
		p.dead = true
		return
	}
	n, ok := intConst(p.constOf(code))
	if !ok {
		p.SetV("status", nil, "?", code)
		return
	}
	p.Set("status", nil, fmt.Sprint(n))
}

func (r *httpRule) store(p *Path, ev *Ev, op string) {
	pos := ev.Instr.Pos()
	r.obl(ruleReject, r.name+" "+op)
	if s := p.Get("status", nil); s != "" {
		r.fail("after-answer:"+op, p, pos, "the store operation is called after status "+s+" was answered")
		p.dead = true
		return
	}
	if b := p.Get("bad", nil); b != "" {
		r.fail("invalid-reaches-store:"+op, p, pos, "a request reaches the store although "+b)
	}
	if op != "OptimisticDeleteStream" && p.Get("ct", nil) != "1" {
		r.fail("content-type:"+op, p, pos, "events are saved without the content type having been found right")
	}
	if p.Get("op", nil) != "" {
		r.fail("twice:"+op, p, pos, "a second store operation is called for one request")
	}
	r.obl(ruleArgs, r.name+" "+op)
	c := ev.Call
	given := p.Get("given", nil)
	roles := opRoles[op]
	for i, role := range roles {
		if i+1 >= len(c.Args) {
			break
		}
		a := c.Args[i+1]
		switch role {
		case "stream":
			if !r.routeVar(a, "streamName") && a.K != KParam {
				r.fail("stream:"+op, p, pos, "the stream is not the one named in the request")
			}
		case "expected":
			if op == "OptimisticDeleteStream" {
				p.SetV("removed", nil, "", a)
			}
			n := p.GetV("number", nil)
			switch {
			case given == "no" && op == "OptimisticSave":
				r.fail("optimistic-unasked", p, pos, "events are saved optimistically although the request gives no expected number")
			case given == "no":
			case n == nil || a != n:
				r.fail("expected:"+op, p, pos, "the expected number handed to the store is not the one in the request")
			}
		}
	}
	if op == "Save" && given == "yes" {
		r.fail("expected-ignored", p, pos, "the request's expected number is ignored")
	}
	if op == "Save" && given == "" {
		r.fail("expected-ignored", p, pos, "the request's expected number is not looked at")
	}
	p.Set("op", nil, op)
}

func (r *httpRule) routeVar(v *Val, name string) bool {
	return v != nil && v.Any(func(x *Val) bool {
		if x.K != KLookup && x.K != KMapElem {
			return false
		}
		for _, a := range x.Args {
			if a != nil && a.K == KConst && a.C.Kind() == constant.String && constant.StringVal(a.C) == name {
				return true
			}
		}
		return false
	})
}

func (r *httpRule) exit(p *Path, ev *Ev) {
	if !r.write {
		return
	}
	pos := ev.Instr.Pos()
	s := p.Get("status", nil)
	code := 0
	if s == "?" {
		r.fail("unknown-status", p, pos, "the status answered is not a known one")
		return
	}
	if s == "" {
		code = 200
	} else {
		fmt.Sscan(s, &code)
	}
	show := s
	if s == "" {
		show = "200 (nothing is written)"
	}
	op, kind := p.Get("op", nil), p.Get("kind", nil)
	if op == "" {
		r.obl(ruleReject, r.name+" exit")
		if code < 400 {
			r.fail("success-without-effect", p, pos, "the request is answered with "+show+" although the store was never asked")
		} else if p.Get("bad", nil) != "" && code >= 500 {
			r.fail("reject-status", p, pos, "a request is rejected because "+p.Get("bad", nil)+", but answered with "+show)
		} else if p.Get("bad", nil) != "" && in(s, "404", "409") {
			r.fail("reject-status", p, pos, "a request is rejected because "+p.Get("bad", nil)+", but answered with "+show)
		}
		return
	}
	r.obl(ruleStatus, r.name+" "+op+" "+kind)
	ok := false
	switch kind {
	case "ok":
		ok = code >= 200 && code < 300
	case "conflict":
		ok = code == 409
	case "notfound":
		ok = code == 404
	case "other":
		ok = code >= 500
	}
	if !ok {
		r.fail("status:"+op+":"+kind, p, pos, fmt.Sprintf("%s: the store's answer is %q, the request is answered with %s", op, kind, show))
	}
	if n := p.GetV("removed", nil); kind == "ok" && (op != "OptimisticDeleteStream" || n != nil && n.K != KConst) {
		r.obl(ruleNumber, r.name+" "+op)
		if p.Get("shown", nil) == "" {
			what := "the number the store returned"
			if op == "OptimisticDeleteStream" {
				what = "how many events were deleted"
			}
			r.fail("number:"+op, p, pos, "the answer does not report "+what)
		}
	}
}

func httpAnswers(P *Prog, R *Report, prop string) {
	n := 0
	for _, f := range P.Funcs {
		if isExample(f) || !isHandler(f) || IsTestSupport(pkgOf(f).Path()) {
			continue
		}
		if f.Parent() != nil && len(f.FreeVars) == 0 && len(NewFlow(P).closures[f]) == 0 && !NewFlow(P).dynamic[f] {
			continue
		}
		write := false
		for g := range staticReach(P, []*ssa.Function{f}) {
			for _, b := range g.Blocks {
				for _, ins := range b.Instrs {
					ci, ok := ins.(ssa.CallInstruction)
					if !ok {
						continue
					}
					cc := ci.Common()
					if cc.IsInvoke() && cc.Method.Pkg() != nil && cc.Method.Pkg().Path() == modPath && in(cc.Method.Name(), "Save", "OptimisticSave", "OptimisticDeleteStream") {
						write = true
					}
				}
			}
		}
		if !write && !strings.HasSuffix(pkgOf(f).Path(), "/rangedbapi") {
			continue
		}
		n++
		r := &httpRule{P: P, R: R, prop: prop, root: f, name: FnName(f), write: write}
		R.Item("request handlers", r.name)
		e := NewEngine(P, r)
		e.RunRoot(f, func(p *Path, params []*Val) {
			for _, a := range params {
				if _, ok := a.T.Underlying().(*types.Pointer); ok {
					p.SetNil(a, false)
				}
			}
		})
		R.Engine(e, r.name)
	}
	if prop == "C01" {
		return
	}
	R.Need(ruleStatus, 6)
	R.Need(ruleReject, 4)
	R.Need(ruleOnce, 2)
	R.Need(ruleNumber, 2)
}

func init() {
	register("C22", "Every path of every HTTP handler that saves or deletes is explored, with the store operation succeeding, conflicting, not finding the stream or failing otherwise; the status answered, the number reported, and what reaches the store are judged at each exit.", []string{
		"the store reports a conflict as *rangedberror.UnexpectedSequenceNumber and an absent stream as rangedb.ErrStreamNotFound (C01, C19)",
		"net/http sends the first status and ignores later ones; an answer without a status is 200",
	}, func(P *Prog, R *Report) { httpAnswers(P, R, "C22") })
}
