package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C23: what dispatching a command does.
//
// Rule state: iter (iterator of the command's stream), loaded, list (events handled), pend (event being considered),
// tried (its save was attempted), owed (its save succeeded, not yet in the result), acc (list of exactly the saved
// events), exh (all considered)

const (
	ruleLoadFirst = "the aggregate is loaded from the command's whole stream before it handles the command"
	ruleSaveOwn   = "each resulting event is saved to its own stream, in order"
	ruleReturn    = "exactly the saved events are returned"
	ruleRegister  = "aggregates are registered under the command types they handle"
)

func init() {
	register("C23", "Every path of the command dispatcher is explored, for every outcome of looking up the handler and of saving each event: the handler registered for the command's type loads the iterator of the command's whole stream, then handles the command; each event it returns is saved once, in order, to the stream its own type and identifier name; the list returned is the one the successfully saved events, and only those, were appended to; without a handler nothing is called.",
		[]string{"an aggregate's Load reads the iterator it is given and Handle answers from what was loaded", "the store behaves as its own properties say"},
		func(P *Prog, R *Report) {
			it := P.Iface("pkg/cqrs", "CommandDispatcher")
			if it == nil {
				R.Fail("no-dispatcher", token.NoPos, "no command dispatcher interface found", nil)
				return
			}
			for _, n := range P.Implementers(it) {
				if f := P.Method(n, "Dispatch"); f != nil {
					r := &cqrsRule{P: P, R: R, root: f, name: FnName(f), loops: NewLoopTab()}
					for _, r.first = range []bool{true, false} {
						e := NewEngine(P, r)
						e.RunRoot(f, func(p *Path, pa []*Val) {
							p.SetNil(pa[0], false)
							r.cmd = pa[1]
						})
						if !r.first {
							R.Engine(e, r.name)
							R.Item("dispatchers", r.name)
						}
					}
				}
			}
			registerAggregates(P, R)
			R.Need(ruleLoadFirst, 1)
			R.Need(ruleSaveOwn, 1)
			R.Need(ruleReturn, 1)
			R.Need(ruleRegister, 1)
		})
}

type cqrsRule struct {
	Base
	P     *Prog
	R     *Report
	root  *ssa.Function
	name  string
	cmd   *Val
	loops *LoopTab
	first bool
}

func (r *cqrsRule) fail(key string, p *Path, pos token.Pos, msg string) {
	if !r.first {
		r.R.Fail(key+":"+r.name, pos, r.name+": "+msg, p)
	}
}

func isPure(v *Val, name string, of *Val) bool {
	return v != nil && v.K == KBuiltin && v.Op == "pure:"+name && v.Args[0] == of
}

// streamOwner: the message whose aggregate type and identifier v is the stream name of.
func streamOwner(v *Val) *Val {
	var parts []*Val
	var flat func(x *Val) bool
	flat = func(x *Val) bool {
		switch {
		case x.K == KBin && x.Op == "+":
			return flat(x.Args[0]) && flat(x.Args[1])
		case x.K == KCall && x.FullName() == "fmt.Sprintf" && len(x.Args) == 2 && x.Args[1].K == KTuple && (sqlText(x.Args[0]) == "%s!%s" || sqlText(x.Args[0]) == "%v!%v"):
			parts = append(parts, x.Args[1].Args[0], nil, x.Args[1].Args[1])
			return true
		case x.K == KConst && sqlText(x) == "!":
			parts = append(parts, nil)
			return true
		case x.K == KConst && sqlText(x) == "":
			return true
		}
		parts = append(parts, x)
		return true
	}
	if v == nil || !flat(v) || len(parts) != 3 || parts[1] != nil || parts[0] == nil || parts[2] == nil {
		return nil
	}
	a, b := unwrap(parts[0]), unwrap(parts[2])
	if a.K == KBuiltin && a.Op == "pure:AggregateType" && b.K == KBuiltin && b.Op == "pure:AggregateID" && a.Args[0] == b.Args[0] {
		return a.Args[0]
	}
	return nil
}

// unwrap removes conversions to interfaces.
func unwrap(v *Val) *Val {
	for v != nil && (v.K == KConv) && len(v.Args) == 1 {
		v = v.Args[0]
	}
	return v
}

func isAggregateCall(c *Call) string {
	if c.Fn != nil || c.M == nil || len(c.Args) == 0 {
		return ""
	}
	n := recvNamed(c.M)
	if n == nil || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != modPath+"/pkg/cqrs" || n.Obj().Name() != "Aggregate" {
		return ""
	}
	return c.M.Name()
}

func (r *cqrsRule) Model(p *Path, c *Call) []Outcome {
	if o := pureEvent(p, c); o != nil {
		return o
	}
	if c.M != nil && c.M.Name() == "CommandType" && c.Fn == nil && len(c.Args) == 1 {
		return []Outcome{{Res: pureOf(p, "CommandType", c.Args[0])}}
	}
	switch op := isStoreOp(c); op {
	case "Save", "OptimisticSave":
		return errFork(func(q *Path, res *Val) {
			if e := q.GetV("pend", nil); e != nil && q.GetV("this", nil) == e {
				q.SetV("owed", nil, "1", e)
			}
		}, func(q *Path, res *Val) { q.Note(c.Instr.Pos(), "this event is not saved") })
	case "EventsByStream":
		return []Outcome{{Opaque: true, After: func(q *Path, res *Val) bool {
			q.SetNil(res, false)
			if r.firstIs(c) {
				q.SetV("iter", nil, "1", res)
			}
			return true
		}}}
	}
	if isAggregateCall(c) == "Handle" {
		return []Outcome{{Opaque: true, After: func(q *Path, res *Val) bool {
			q.SetV("list", nil, "1", res)
			return true
		}}}
	}
	return nil
}

// firstIs: the read is of the command's stream from its beginning.
func (r *cqrsRule) firstIs(c *Call) bool {
	return len(c.Args) == 4 && isInt(c.Args[2], 0) && streamOwner(c.Args[3]) == r.cmd
}

// isList: the events to save (the handled ones, perhaps copied behind an empty list).
func (r *cqrsRule) isList(p *Path, v *Val) bool {
	l := p.GetV("list", nil)
	if v == nil || l == nil {
		return false
	}
	if v == l {
		return true
	}
	if v.K == KAppend && len(v.Args) == 2 && v.Args[1] == l {
		return p.emptyList(v.Args[0])
	}
	return false
}

// emptyList: a list known to have no elements.
func (p *Path) emptyList(v *Val) bool {
	if v == nil {
		return false
	}
	return v.K == KNil || p.NilState(v) == 1 || p.sliceLen(v) == 0 || v.K == KMake && len(v.Args) > 0 && v.Args[0] != nil && isInt(v.Args[0], 0)
}

func (r *cqrsRule) Event(p *Path, ev *Ev) {
	r.loops.Observe(p, ev)
	pos := token.NoPos
	if ev.Instr != nil {
		pos = ev.Instr.Pos()
	}
	switch ev.K {
	case EvBranch:
		l, idx, more := listBranch(ev)
		if !r.isList(p, l) {
			return
		}
		if p.Get("pend", nil) != "" && p.Get("tried", nil) == "" {
			r.fail("not-saved", p, pos, "goes on to the next event although this one was not saved")
		}
		r.settle(p, pos)
		p.Del("pend", nil)
		p.Del("tried", nil)
		if more {
			if !r.first && !r.loops.everyIndex(idx) {
				r.fail("not-every-event", p, pos, "the events are not taken one by one from the first")
			}
			p.SetV("pend", nil, "1", idx)
		} else {
			p.Set("exh", nil, "1")
		}
	case EvStore:
		if b := ev.Addr; b.K == KIndexAddr && r.isList(p, b.Args[0]) {
			r.fail("event-replaced", p, pos, "an event of the handler is replaced")
		}
	case EvAppend:
		r.append(p, ev)
	case EvCall:
		r.call(p, ev, pos)
	case EvExit:
		r.exit(p, ev)
	}
}

// settle: the event just considered was saved but is not in the result.
func (r *cqrsRule) settle(p *Path, pos token.Pos) {
	if p.Get("owed", nil) != "" {
		r.fail("saved-not-returned", p, pos, "an event was saved but is not among those returned")
		p.Del("owed", nil)
	}
}

func (r *cqrsRule) append(p *Path, ev *Ev) {
	acc := p.GetV("acc", nil)
	if acc == nil && !p.emptyList(ev.Addr) || acc != nil && ev.Addr != acc {
		return
	}
	if len(ev.Elems) != 1 || ev.Elems[0] == nil {
		return
	}
	l, idx := elemOf(unwrap(ev.Elems[0]))
	if o := p.GetV("owed", nil); o != nil && r.isList(p, l) && o == idx {
		p.SetV("acc", nil, "1", ev.Res)
		p.Del("owed", nil)
	}
}

func (r *cqrsRule) call(p *Path, ev *Ev, pos token.Pos) {
	c := ev.Call
	switch m := isAggregateCall(c); m {
	case "Load", "Handle":
		r.R.Obl(ruleLoadFirst, r.name)
		if !r.handler(p, c.Args[0]) {
			r.fail("other-handler:"+m, p, pos, m+" is called on something else than the handler found for the command's type")
		}
		if m == "Load" {
			if it := p.GetV("iter", nil); it == nil || c.Args[1] != it {
				r.fail("other-stream", p, pos, "the aggregate is not loaded from the whole stream of the command")
			}
			if p.Get("loaded", nil) != "" {
				r.fail("loaded-twice", p, pos, "the aggregate is loaded twice for one command")
			}
			p.SetV("loaded", nil, "1", c.Args[0])
			return
		}
		if p.GetV("loaded", nil) != c.Args[0] {
			r.fail("not-loaded", p, pos, "the command is handled by an aggregate that was not loaded")
		}
		if p.Get("list", nil) != "" {
			r.fail("handled-twice", p, pos, "the command is handled twice")
		}
		if unwrap(c.Args[1]) != r.cmd {
			r.fail("other-command", p, pos, "another command is handled")
		}
		return
	}
	op := isStoreOp(c)
	if op == "" {
		return
	}
	if !in(op, "Save", "OptimisticSave", "OptimisticDeleteStream") {
		return
	}
	r.R.Obl(ruleSaveOwn, r.name)
	if p.Get("list", nil) == "" {
		r.fail("effect-unhandled:"+op, p, pos, "the store is changed without the command having been handled")
		return
	}
	if op == "OptimisticDeleteStream" {
		r.fail("delete", p, pos, "a stream is deleted")
		return
	}
	r.settle(p, pos)
	x := p.XArgs(c)
	els := x[len(x)-1]
	if els == nil || els.K != KTuple || len(els.Args) != 1 {
		r.fail("batch", p, pos, "it cannot be told that one event is saved")
		return
	}
	e := p.FieldOf(els.Args[0], "Event")
	l, idx := elemOf(unwrap(e))
	if !r.isList(p, l) || p.GetV("pend", nil) != idx {
		r.fail("other-event", p, pos, "something else is saved than the event being considered")
		return
	}
	if p.Get("tried", nil) != "" {
		r.fail("saved-twice", p, pos, "one event is saved twice")
	}
	p.Set("tried", nil, "1")
	p.SetV("this", nil, "1", idx)
	if o := streamOwner(x[len(x)-2]); o == nil || unwrap(o) != unwrap(e) {
		r.fail("stream", p, pos, "the event is saved to another stream than its own")
	}
}

// handler: v was looked up, and found, under the command's type.
func (r *cqrsRule) handler(p *Path, v *Val) bool {
	if v == nil {
		return false
	}
	if v.K == KExtract {
		v = v.Args[0]
	}
	if v.K != KLookup || len(v.Args) < 2 || !isPure(unwrap(v.Args[1]), "CommandType", r.cmd) {
		return false
	}
	return true
}

func (r *cqrsRule) exit(p *Path, ev *Ev) {
	r.R.Obl(ruleReturn, r.name)
	pos := ev.Instr.Pos()
	r.settle(p, pos)
	res := ev.Res_[0]
	if p.Get("pend", nil) != "" || p.Get("list", nil) != "" && p.Get("exh", nil) == "" && !p.emptyList(p.GetV("list", nil)) {
		r.fail("not-all", p, pos, "returns before every event was considered")
	}
	if a := p.GetV("acc", nil); a != nil {
		if res != a {
			r.fail("other-list", p, pos, "the list returned is not the one the saved events were collected in")
		}
	} else if !p.emptyList(res) {
		r.fail("unsaved-returned", p, pos, "events are returned although none was saved")
	}
}

// registerAggregates: what is put into a table of aggregates is filed under one of its own command types, and
// under each of them.
func registerAggregates(P *Prog, R *Report) {
	F := NewFlow(P)
	for _, f := range P.Funcs {
		if pkgOf(f) == nil || !strings.HasPrefix(pkgOf(f).Path(), modPath) {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				mu, ok := ins.(*ssa.MapUpdate)
				if !ok {
					continue
				}
				mt, ok := mu.Map.Type().Underlying().(*types.Map)
				if !ok || !isNamedIn(mt.Elem(), modPath+"/pkg/cqrs", "Aggregate") {
					continue
				}
				registered(P, R, F, mu, mu.Key, mu.Value, 0)
			}
		}
	}
}

// registered judges one place (a map update, or a call of a function that does it) where an aggregate is filed.
func registered(P *Prog, R *Report, F *Flow, at ssa.Instruction, key, agg ssa.Value, depth int) {
	f := at.Parent()
	if kp, ok := key.(*ssa.Parameter); ok && depth < 4 && !F.dynamic[f] && len(F.calls[f]) > 0 {
		ki, ai := paramIndex(f, kp), -1
		if ap, ok := agg.(*ssa.Parameter); ok {
			ai = paramIndex(f, ap)
		}
		if ai >= 0 {
			if at.Block() != f.Blocks[0] && !always(at.Block()) {
				R.Fail("register-some:"+FnName(f), at.Pos(), FnName(f)+": an aggregate may not be registered for a command type it declares", nil)
			}
			for _, c := range F.calls[f] {
				if g, ok := c.(ssa.Instruction); ok {
					registered(P, R, F, g, c.Common().Args[ki], c.Common().Args[ai], depth+1)
				}
			}
			return
		}
	}
	R.Obl(ruleRegister, P.Pos(at.Pos()))
	call := ofCall(key, "CommandTypes", map[ssa.Value]bool{})
	if call == nil {
		R.Fail("register-key:"+FnName(f), at.Pos(), FnName(f)+": an aggregate is registered under something else than a command type", nil)
		return
	}
	if recv := call.Call.Value; !sameSource(recv, agg) {
		R.Fail("register-other:"+FnName(f), at.Pos(), FnName(f)+": an aggregate is registered under a command type of another one", nil)
	}
	if !everyTurn(at.Block()) || !stepping(key) || !stepping(agg) {
		R.Fail("register-some:"+FnName(f), at.Pos(), FnName(f)+": an aggregate is not registered for every command type it declares", nil)
	}
}

// always: every way through the function that returns passes the block.
func always(b *ssa.BasicBlock) bool {
	for _, x := range b.Parent().Blocks {
		if n := len(x.Instrs); n > 0 {
			if _, ok := x.Instrs[n-1].(*ssa.Return); ok && !b.Dominates(x) {
				return false
			}
		}
	}
	return true
}

// stepping: if v is an element of a list, its index changes from turn to turn of a loop.
func stepping(v ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return true
	}
	ia, ok := u.X.(*ssa.IndexAddr)
	if !ok {
		return true
	}
	var steps func(x ssa.Value, seen map[ssa.Value]bool) bool
	steps = func(x ssa.Value, seen map[ssa.Value]bool) bool {
		if seen[x] {
			return false
		}
		seen[x] = true
		switch y := x.(type) {
		case *ssa.Const:
			return false
		case *ssa.Phi:
			if headOf(y.Block()) {
				return true
			}
			for _, e := range y.Edges {
				if steps(e, seen) {
					return true
				}
			}
			return false
		case *ssa.BinOp:
			return steps(y.X, seen) || steps(y.Y, seen)
		case *ssa.Convert:
			return steps(y.X, seen)
		}
		return true
	}
	return steps(ia.Index, map[ssa.Value]bool{})
}

// everyTurn: the block is passed in every turn of each loop it is in, and the loops are only left at their heads
// (or by a panic). A loop's head may be followed by one that ends the turn, as "for range" makes them.
func everyTurn(b *ssa.BasicBlock) bool {
	f := b.Parent()
	loops := 0
	for _, h := range f.Blocks {
		body := map[*ssa.BasicBlock]bool{}
		for _, l := range h.Preds {
			if !h.Dominates(l) {
				continue
			}
			work := []*ssa.BasicBlock{l}
			body[h] = true
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if body[x] {
					continue
				}
				body[x] = true
				work = append(work, x.Preds...)
			}
		}
		if !body[b] {
			continue
		}
		loops++
		// the way from the head back to it passes the block, or an inner loop's head that leads to it
		inner := b
		for x := b; x != nil && x != h; x = x.Idom() {
			if body[x] && len(x.Preds) > 1 && headOf(x) {
				inner = x
			}
		}
		for x := range body {
			for _, s := range x.Succs {
				if s == h && inner != h && !inner.Dominates(x) {
					return false
				}
				if !body[s] && x != h && !panics(s) {
					return false
				}
			}
		}
	}
	return loops > 0
}

func headOf(b *ssa.BasicBlock) bool {
	for _, p := range b.Preds {
		if b.Dominates(p) {
			return true
		}
	}
	return false
}

func panics(b *ssa.BasicBlock) bool {
	if n := len(b.Instrs); n > 0 {
		_, ok := b.Instrs[n-1].(*ssa.Panic)
		return ok
	}
	return false
}

// ofCall: v is an element of the result of method name.
func ofCall(v ssa.Value, name string, seen map[ssa.Value]bool) *ssa.Call {
	if v == nil || seen[v] {
		return nil
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Call:
		if x.Call.IsInvoke() && x.Call.Method.Name() == name {
			return x
		}
	case *ssa.UnOp:
		return ofCall(x.X, name, seen)
	case *ssa.IndexAddr:
		return ofCall(x.X, name, seen)
	case *ssa.Index:
		return ofCall(x.X, name, seen)
	case *ssa.ChangeType:
		return ofCall(x.X, name, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if c := ofCall(e, name, seen); c != nil {
				return c
			}
		}
	}
	return nil
}

// sameSource: two reads of the same place.
func sameSource(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	if ok && ok2 && x.Op == y.Op {
		if sameSource(x.X, y.X) {
			return true
		}
		i, ok := x.X.(*ssa.IndexAddr)
		j, ok2 := y.X.(*ssa.IndexAddr)
		return ok && ok2 && i.X == j.X && i.Index == j.Index
	}
	return false
}
