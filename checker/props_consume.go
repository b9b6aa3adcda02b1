package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// consumeRule (C08): whoever drains a record iterator asks it for its error afterwards and reports that error.
//
// Rule state: nx: last answer of Next; endq: ended, error not asked for; pend: an error not reported (value: the error)
type consumeRule struct {
	Base
	P       *Prog
	R       *Report
	root    *ssa.Function
	name    string
	visited map[ssa.Instruction]bool
	write   bool // judge RecordIoStream.Write's results instead
}

// isIterCall: a call of a method of a record iterator, of whatever type.
func isIterCall(P *Prog, c *Call, name string) bool {
	if isIterMethod(P, c, name) {
		return true
	}
	if c.M == nil || c.M.Name() != name {
		return false
	}
	n := recvNamed(c.M)
	it := P.Iface("", "RecordIterator")
	return n != nil && it != nil && !types.IsInterface(n) && types.Implements(types.NewPointer(n), it)
}

func isIterNextName(s string) bool { return s == "Next" || s == "NextContext" }

// isStreamWrite: a call of a record stream's Write.
func isStreamWrite(P *Prog, c *Call) bool {
	if c.M == nil || c.M.Name() != "Write" {
		return false
	}
	sig := c.M.Type().(*types.Signature)
	if sig.Results().Len() != 1 || sig.Params().Len() != 2 {
		return false
	}
	return isErrChan(sig.Results().At(0).Type())
}

func isErrChan(t types.Type) bool {
	ct, ok := t.Underlying().(*types.Chan)
	return ok && isErrorType(ct.Elem())
}

func (r *consumeRule) Inline(p *Path, c *Call) bool {
	for _, n := range []string{"Next", "NextContext", "Err", "Record"} {
		if isIterCall(r.P, c, n) {
			return false
		}
	}
	if r.write && isStreamWrite(r.P, c) {
		return false
	}
	return true
}

func (r *consumeRule) Model(p *Path, c *Call) []Outcome {
	P := r.P
	if !r.write {
		switch {
		case isIterCall(P, c, "Next"), isIterCall(P, c, "NextContext"):
			if len(c.Args) > 0 && p.GetV("ended", nil) == c.Args[0] && c.Args[0] != nil { // it stays at its end
				return []Outcome{{Res: p.E.T.Bool(false)}}
			}
			return boolFork(func(q *Path, res *Val) {
				q.Set("nx", nil, "t")
				q.Del("endq", nil)
			}, func(q *Path, res *Val) {
				q.Set("nx", nil, "f")
				if len(c.Args) > 0 {
					q.SetV("ended", nil, "1", c.Args[0])
				}
				q.Set("endq", nil, r.P.Pos(c.Instr.Pos()))
				q.Note(c.Instr.Pos(), "the iteration ends")
			})
		case isIterCall(P, c, "Record"):
			return []Outcome{{Opaque: true, After: func(q *Path, res *Val) bool { return q.SetNil(res, q.Get("nx", nil) != "t") }}}
		case isIterCall(P, c, "Err"):
			if p.Get("nx", nil) == "t" {
				return []Outcome{{Res: p.E.T.Nil}}
			}
			if e := p.GetV("err", nil); e != nil && p.NilState(e) == -1 {
				return []Outcome{{Res: e}}
			}
			return errFork(func(q *Path, res *Val) {
				q.Del("endq", nil)
			}, func(q *Path, res *Val) {
				q.Del("endq", nil)
				q.SetV("err", nil, "1", q.ErrOf(res))
				q.SetV("pend", nil, r.P.Pos(c.Instr.Pos()), q.ErrOf(res))
			})
		}
	} else if isStreamWrite(P, c) {
		return []Outcome{{Opaque: true, After: func(q *Path, res *Val) bool {
			q.SetV("wchan", nil, r.P.Pos(c.Instr.Pos()), res)
			return true
		}}}
	}
	if failing(P, c) {
		return errFork(nil, nil)
	}
	return nil
}

func (r *consumeRule) SelectCase(p *Path, ev *Ev, i int) bool { return true }

func isLog(c *Call) bool {
	pkg, name := c.callee()
	return pkg == "log" && (strings.HasPrefix(name, "Print") || strings.HasPrefix(name, "Fatal") || strings.HasPrefix(name, "Output") || strings.HasPrefix(name, "Panic")) ||
		pkg == "log/slog" || pkg == "fmt" && strings.HasPrefix(name, "Fprint")
}

// mentions: does one of the call's arguments contain v?
func (p *Path) mentions(c *Call, v *Val) bool {
	for _, a := range p.XArgs(c) {
		if a != nil && a.Any(func(x *Val) bool { return x == v }) {
			return true
		}
	}
	return false
}

func (r *consumeRule) Event(p *Path, ev *Ev) {
	switch ev.K {
	case EvCall:
		c := ev.Call
		r.visited[ev.Instr] = true
		if v := p.GetV("pend", nil); v != nil && isLog(c) && p.mentions(c, v) {
			p.Del("pend", nil)
		}
	case EvBranch:
		// told apart as one well-known outcome
		if v := p.GetV("pend", nil); v != nil {
			for k, t := range p.truth {
				if t && k.K == KEq && (k.Args[0] == v && k.Args[1].K == KGVal || k.Args[1] == v && k.Args[0].K == KGVal) {
					p.Del("pend", nil)
				}
			}
		}
	case EvGo:
		if ev.Call.Fn != nil {
			p.E.RunGo(p, ev.Call, map[RK]RV{})
		}
	case EvRecv:
		if r.write && ev.Addr == p.GetV("wchan", nil) && ev.Addr != nil {
			p.Del("wchan", nil)
			if p.SetNil(ev.Val, false) { // a failure is reported on the channel
				p.SetV("pend", nil, r.P.Pos(ev.Instr.Pos()), ev.Val)
			}
		}
	case EvSend:
		if v := p.GetV("pend", nil); v != nil && (ev.Val == v || ev.Val.Any(func(x *Val) bool { return x == v }) || p.fieldsMention(ev.Val, v)) {
			p.Del("pend", nil)
		}
		if ev.Addr != nil && isErrChan(ev.Addr.T) && p.NilState(ev.Val) == -1 {
			p.Set("told", nil, "1") // a failure was reported: what is left over need not be asked for its error
		}
	case EvExit:
		r.exit(p, ev)
	}
}

func (p *Path) fieldsMention(v, x *Val) bool {
	f := p.FieldOf(v, "Err")
	return f != nil && f.Any(func(y *Val) bool { return y == x })
}

func (r *consumeRule) exit(p *Path, ev *Ev) {
	fn := p.acts[0].frame.Fn
	if p.acts[0].tag != "go" {
		// a function without any way to report an error is out of scope
		can := false
		for i := 0; i < fn.Signature.Results().Len(); i++ {
			t := fn.Signature.Results().At(i).Type()
			if isErrorType(t) || isErrChan(t) {
				can = true
			}
		}
		if !can && !r.write {
			return
		}
	}
	for i, v := range ev.Res_ {
		if isErrorType(fn.Signature.Results().At(i).Type()) && p.NilState(v) == -1 {
			p.Del("pend", nil)
			p.Del("endq", nil)
		}
		if e := p.GetV("pend", nil); e != nil && v == e {
			p.Del("pend", nil)
		}
	}
	if p.Get("told", nil) != "" {
		p.Del("endq", nil)
	}
	// "return iter.Err()" asks by itself
	rule := "the error of a drained iterator is reported"
	if r.write {
		rule = "the error of a record stream being written is logged"
	}
	if p.Get("nx", nil) == "f" || r.write {
		r.R.Obl(rule, r.name+" "+FnName(fn))
	}
	if x := p.Get("endq", nil); x != "" {
		r.R.Fail("unasked:"+r.name, ev.Instr.Pos(), r.name+": the iteration ended at "+x+", but the iterator is not asked whether it ended with an error", p)
	}
	if x := p.Get("pend", nil); x != "" {
		r.R.Fail("unreported:"+r.name, ev.Instr.Pos(), r.name+": the error asked for at "+x+" is neither returned, sent nor logged", p)
	}
	if x := p.Get("wchan", nil); x != "" {
		r.R.Fail("undrained:"+r.name, ev.Instr.Pos(), r.name+": nobody receives the errors of the record stream written at "+x, p)
	}
}

// inCycle: can the block be reached from itself?
func inCycle(b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock{}, b.Succs...)
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if x == b {
			return true
		}
		if !seen[x] {
			seen[x] = true
			work = append(work, x.Succs...)
		}
	}
	return false
}

// callSites lists the instructions of non-test functions whose callee satisfies pred.
func callSites(P *Prog, pred func(f *ssa.Function, c *Call) bool) map[*ssa.Function][]ssa.Instruction {
	out := map[*ssa.Function][]ssa.Instruction{}
	for _, f := range P.Funcs {
		if IsTestSupport(pkgOf(f).Path()) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := ci.Common()
				c := &Call{Instr: in, Common: cc}
				if cc.IsInvoke() {
					c.M = cc.Method
				} else if sc := cc.StaticCallee(); sc != nil {
					c.Fn = sc
					c.M, _ = sc.Object().(*types.Func)
				}
				if pred(f, c) {
					out[f] = append(out[f], in)
				}
			}
		}
	}
	return out
}

// staticCallers maps each function to the functions that call it, or contain it.
func staticCallers(P *Prog) map[*ssa.Function][]*ssa.Function {
	out := map[*ssa.Function][]*ssa.Function{}
	for _, f := range P.Funcs {
		if f.Parent() != nil {
			out[f] = append(out[f], f.Parent())
		}
		if IsTestSupport(pkgOf(f).Path()) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if sc := ci.Common().StaticCallee(); sc != nil && sc.Parent() == nil {
						out[sc] = append(out[sc], f)
					}
				}
			}
		}
	}
	return out
}

// climb finds the outermost functions from which f is reached: exported ones, or those nobody calls.
func climb(f *ssa.Function, callers map[*ssa.Function][]*ssa.Function) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	var walk func(g *ssa.Function)
	walk = func(g *ssa.Function) {
		if seen[g] {
			return
		}
		seen[g] = true
		exported := g.Parent() == nil && g.Object() != nil && g.Object().Exported()
		cs := callers[g]
		if exported || len(cs) == 0 {
			out = append(out, g)
			return
		}
		for _, c := range cs {
			walk(c)
		}
	}
	walk(f)
	return out
}

func init() {
	register("C08", "Every function that moves a record iterator on is explored from its outermost callers: after the iteration ended the error is asked for and, if there is one, returned, sent on or logged on every path.", iterAssume, func(P *Prog, R *Report) {
		it := P.Iface("", "RecordIterator")
		pbase := func(f *ssa.Function) bool {
			if it == nil {
				return true
			}
			g := f
			for g.Parent() != nil {
				g = g.Parent()
			}
			// the iterators themselves, and makers of iterators (C07)
			if rv := g.Signature.Recv(); rv != nil && types.Implements(rv.Type(), it) {
				return true
			}
			return strings.Contains(pkgOf(f).Path(), "/examples/") || strings.HasSuffix(pkgOf(f).Path(), "generator")
		}
		callers := staticCallers(P)
		for _, write := range []bool{false, true} {
			sites := callSites(P, func(f *ssa.Function, c *Call) bool {
				if pbase(f) {
					return false
				}
				if write {
					return isStreamWrite(P, c)
				}
				return (isIterCall(P, c, "Next") || isIterCall(P, c, "NextContext")) && inCycle(c.Instr.Block())
			})
			visited := map[ssa.Instruction]bool{}
			done := map[*ssa.Function]bool{}
			explore := func(g *ssa.Function) {
				if done[g] {
					return
				}
				done[g] = true
				r := &consumeRule{P: P, R: R, root: g, name: FnName(g), visited: visited, write: write}
				e := NewEngine(P, r)
				e.RunRoot(g, nil)
				R.Engine(e, r.name)
			}
			var fs []*ssa.Function
			for _, f := range P.Funcs {
				if len(sites[f]) > 0 {
					fs = append(fs, f)
				}
			}
			for _, f := range fs {
				roots := climb(f, callers)
				produce := false
				for _, g := range roots {
					for i := 0; i < g.Signature.Results().Len(); i++ {
						if types.Implements(g.Signature.Results().At(i).Type(), it) {
							produce = true
						}
					}
				}
				if produce {
					continue // a producer: C07
				}
				for _, g := range roots {
					explore(g)
				}
				for _, in := range sites[f] {
					if !visited[in] {
						explore(f)
						break
					}
				}
				for _, in := range sites[f] {
					R.Item("places that drain a record iterator", P.Pos(in.Pos()))
					if !visited[in] {
						R.Fail("undecided:"+FnName(f), in.Pos(), FnName(f)+": the analysis does not reach this consumer of records", nil)
					}
				}
			}
		}
		R.Need("the error of a drained iterator is reported", 9)
		R.Need("the error of a record stream being written is logged", 3)
	})
}
