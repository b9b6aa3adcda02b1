package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// iterRule explores a function that returns a record iterator, and the goroutine that feeds it.
//
// Rule state: chan[c]: open|closed|handed  pend: a failure not yet told  endq: a source ended, its error not yet asked
// cancelled: the context was found cancelled  errsent: an error was handed over  nx: last Next  got[r]: record in hand
// elem[v]: list element in hand  foreign: this entry was found not to belong  exh: the source is exhausted
type iterRule struct {
	Base
	P     *Prog
	R     *Report
	prop  string
	root  *ssa.Function
	name  string
	kind  string // store kind, "" otherwise
	op    string // Events, EventsByAggregateTypes, EventsByStream, "" otherwise
	ctx   *Val
	start *Val
	sel   *Val // stream name or aggregate types
	tab   *LoopTab
	e     *Engine
	// facts over all paths
	selIdx    map[*Val]bool // index terms of the requested types looked up
	recvT     types.Type
	elemIdx   map[*Val]map[*Val]bool // list -> index terms
	published int
	goCount   int
	inGo      bool
	sqlReads  int
}

func isCtxType(t types.Type) bool {
	return t != nil && types.TypeString(t, nil) == "context.Context"
}

// iterRoots: exported functions and methods that return a record iterator.
func iterRoots(P *Prog) []*ssa.Function {
	it := P.Iface("", "RecordIterator")
	if it == nil {
		return nil
	}
	var out []*ssa.Function
	for _, f := range P.Funcs {
		if f.Parent() != nil || IsTestSupport(pkgOf(f).Path()) {
			continue
		}
		if o := f.Object(); o == nil || !o.Exported() {
			continue
		}
		res := f.Signature.Results()
		ok := false
		for i := 0; i < res.Len(); i++ {
			t := res.At(i).Type()
			if types.Implements(t, it) {
				ok = true
			}
		}
		if ok {
			out = append(out, f)
		}
	}
	return out
}

func (r *iterRule) fail(key string, p *Path, pos token.Pos, msg string) {
	if !pos.IsValid() {
		pos = p.pos()
	}
	r.R.Fail(key+":"+r.name, pos, r.name+": "+msg, p)
}

func (r *iterRule) is(ps ...string) bool { return in(r.prop, ps...) }

func isResultChan(v *Val) bool {
	if v == nil || v.T == nil {
		return false
	}
	ct, ok := v.T.Underlying().(*types.Chan)
	if !ok {
		return false
	}
	n := namedOf(ct.Elem())
	return n != nil && n.Obj().Name() == "ResultRecord" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == modPath
}

func isNamedIn(t types.Type, pkg, name string) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Name() == name && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg
}

// isDone: is v the Done channel of the root's context (or one derived from it)?
func (r *iterRule) isDone(v *Val) bool {
	return isDoneOf(v, r.ctx)
}

func isDoneOf(v, ctx *Val) bool {
	if ctx == nil || v == nil || v.K != KCall || v.M == nil || v.M.Name() != "Done" || len(v.Args) == 0 {
		return false
	}
	return v.Args[0].Any(func(x *Val) bool { return x == ctx })
}

func isAfter(v *Val) bool {
	if v == nil {
		return false
	}
	if v.K == KCall && v.FullName() == "time.After" {
		return true
	}
	// timer.C
	return v.Any(func(x *Val) bool { return x.K == KCall && in(x.FullName(), "time.NewTimer", "time.After") })
}

var errExempt = map[string]bool{"Close": true, "Release": true, "Err": true, "Unwrap": true, "Shutdown": true}

// failing: is this an opaque call whose error means that something failed?
func failing(P *Prog, c *Call) bool {
	if !hasErr(c) || c.Bltn != "" {
		return false
	}
	if c.Fn != nil && len(c.Fn.Blocks) > 0 && P.InRepo(c.Fn) {
		return false
	}
	pkg, name := c.callee()
	if errExempt[name] {
		return false
	}
	if pkg == "encoding/binary" || pkg == "errors" || pkg == "log" {
		return false
	}
	if pkg == "fmt" || strings.HasSuffix(pkg, "grpc/status") || strings.HasSuffix(pkg, "internal/status") {
		return false
	}
	if pkg == "io" && name == "WriteString" || pkg == "strings" || pkg == "bytes" {
		return false
	}
	return true
}

// isIterMethod: a method of the record iterator interface called on a value of unknown type.
func isIterMethod(P *Prog, c *Call, name string) bool {
	if c.M == nil || c.M.Name() != name || c.Fn != nil {
		return false
	}
	n := recvNamed(c.M)
	if n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == modPath {
		return n.Obj().Name() == "RecordIterator"
	}
	if n == nil && c.M.Pkg() != nil && c.M.Pkg().Path() == modPath {
		it := P.Iface("", "RecordIterator")
		return it != nil && len(c.Args) > 0 && c.Args[0].T != nil && types.Implements(c.Args[0].T, it)
	}
	return false
}

func isLDBIter(c *Call) bool {
	return c.M != nil && c.M.Pkg() != nil && strings.HasPrefix(c.M.Pkg().Path(), pkgLevelDB)
}

// sourceNext: a call that moves a source of records on and says by a boolean whether there is more.
func sourceNext(P *Prog, c *Call) bool {
	switch {
	case isIterMethod(P, c, "Next"), isIterMethod(P, c, "NextContext"):
		return true
	case c.Name() == "(*database/sql.Rows).Next", c.Name() == "(*encoding/json.Decoder).More", c.Name() == "(*bufio.Scanner).Scan":
		return true
	case isLDBIter(c) && in(c.M.Name(), "Next", "Prev", "First", "Last", "Seek") && c.Common.Signature().Results().Len() == 1:
		return true
	}
	return false
}

// sourceErr: a call that asks a source for its error.
func sourceErr(P *Prog, c *Call) bool {
	switch {
	case isIterMethod(P, c, "Err"):
		return true
	case in(c.Name(), "(*database/sql.Rows).Err", "(*bufio.Scanner).Err"):
		return true
	case isLDBIter(c) && c.M.Name() == "Error":
		return true
	}
	return false
}

func (r *iterRule) Model(p *Path, c *Call) []Outcome {
	if o := pureEvent(p, c); o != nil {
		return o
	}
	if o := iterModel(r.P, c, func(q *Path, res *Val) {
		q.Del("endq", nil)
		q.Del("foreign", nil)
		q.Set("round", nil, "open")
		q.Set("seen", nil, "1")
	}, func(q *Path, res *Val) {
		q.Note(c.Instr.Pos(), "no further entry")
		q.SetV("endq", nil, r.P.Pos(c.Instr.Pos()), nil)
		q.Set("exh", nil, "1")
		q.Del("round", nil)
	}, func(q *Path, res *Val) {
		q.Set("got", res, "have")
	}, func(q *Path, res *Val) {
		r.setPend(q, c, res)
	}); o != nil {
		return o
	}
	if failing(r.P, c) {
		return errFork(func(q *Path, res *Val) {
			if !in(q.calleeName(c), "Scan") {
				q.Del("endq", nil)
			}
			q.Set("mid", nil, "1")
			if q.calleeName(c) == "Token" {
				q.Set("opened", nil, "1")
			}
			r.obtained(q, c, res)
		}, func(q *Path, res *Val) {
			r.setPend(q, c, res)
		})
	}
	return nil
}

// iterModel models the methods of sources (record iterators, rows, storage iterators).
func iterModel(P *Prog, c *Call, more, end, rec, fail func(q *Path, res *Val)) []Outcome {
	if isIterMethod(P, c, "Record") {
		set := func(isNil bool) func(q *Path, res *Val) bool {
			return func(q *Path, res *Val) bool {
				x := q.Get("nx", nil)
				if isNil && x == "rec" || !isNil && in(x, "f", "norec") {
					return false
				}
				if !q.SetNil(res, isNil) {
					return false
				}
				if x == "t" {
					q.Set("nx", nil, map[bool]string{true: "norec", false: "rec"}[isNil])
				}
				if !isNil && rec != nil {
					rec(q, res)
				}
				return true
			}
		}
		return []Outcome{{Opaque: true, After: set(false)}, {Opaque: true, After: set(true)}}
	}
	if sourceNext(P, c) {
		return boolFork(func(q *Path, res *Val) {
			q.Set("nx", nil, "t")
			if !isIterMethod(P, c, "Next") && !isIterMethod(P, c, "NextContext") {
				q.Set("nx", nil, "")
			}
			more(q, res)
		}, func(q *Path, res *Val) {
			q.Set("nx", nil, "f")
			end(q, res)
		})
	}
	if sourceErr(P, c) {
		return errFork(func(q *Path, res *Val) {
			q.Del("endq", nil)
			if q.Get("nx", nil) == "norec" {
				q.dead = true
			}
			if q.Get("nx", nil) == "t" {
				q.Set("nx", nil, "rec")
			}
		}, func(q *Path, res *Val) {
			if q.Get("nx", nil) == "rec" {
				q.dead = true
				return
			}
			if q.Get("nx", nil) == "t" {
				q.Set("nx", nil, "norec")
			}
			q.Del("endq", nil)
			fail(q, res)
		})
	}
	return nil
}

func (p *Path) calleeName(c *Call) string { _, n := c.callee(); return n }

// obtained: a call produced a record (or the message it is made of).
func (r *iterRule) obtained(q *Path, c *Call, res *Val) {
	_, name := c.callee()
	v := res
	if tt, ok := res.T.(*types.Tuple); ok && tt.Len() > 0 {
		v = q.ResOf(res, 0)
	}
	if isNamedIn(v.T, modPath, "Record") {
		q.Set("got", v, "have")
		q.Del("round", nil)
	}
	if name == "Recv" {
		q.Set("round", nil, "open")
	}
	if name == "Scan" {
		q.Set("round", nil, "open")
	}
}

func (r *iterRule) setPend(q *Path, c *Call, res *Val) {
	e := q.ErrOf(res)
	_, name := c.callee()
	// an end of input is an end only when the next item was asked for
	// (an input that was opened by a token is complete only with the closing one)
	first := q.Get("mid", nil) == "" || in(name, "Recv", "Token")
	if name == "Token" && q.Get("opened", nil) != "" {
		first = false
	}
	x := "fail"
	if strings.Contains(c.Name(), "esdb.Client)") && name == "ReadAll" {
		x = "input" // it receives the first answer
	}
	if first && in(name, "Recv", "Token", "Decode", "Read", "ReadBytes", "ReadString", "ReadLine") {
		x = "input"
	}
	q.SetV("pend", nil, x+"@"+r.P.Pos(c.Instr.Pos())+" ("+c.Name()+")", e)
}

// isEnd: was the failure recognised as the end of the input?
func (r *iterRule) isEnd(p *Path) bool {
	x := p.Get("pend", nil)
	if !strings.HasPrefix(x, "input@") {
		return false
	}
	e := p.GetV("pend", nil)
	return r.isEOF(p, e)
}

// isEOF: e is known to mean that there is nothing more. (To EventStoreDB the list of all events may be missing.)
func (r *iterRule) isEOF(p *Path, e *Val) bool {
	return isEOF(p, e) || r.kind == "esdb" && r.op != "EventsByStream" && isSentinel(p, e, "ErrStreamNotFound")
}

// isSentinel: e was found equal to the package variable of that name.
func isSentinel(p *Path, e *Val, name string) bool {
	for k, v := range p.truth {
		if v && k.K == KEq && k.Any(func(y *Val) bool { return y == e }) && k.Any(func(y *Val) bool {
			if y.K != KGVal {
				return false
			}
			g, ok := y.Site.(*ssa.Global)
			return ok && g.Name() == name
		}) {
			return true
		}
	}
	return false
}

func isEOF(p *Path, e *Val) bool {
	if isSentinel(p, e, "EOF") {
		return true
	}
	for k, v := range p.eqc {
		if k.K == KCall && k.M != nil && k.M.Name() == "Error" && len(k.Args) > 0 && k.Args[0] == e && v.K == KConst && v.C.Kind() == constant.String && constant.StringVal(v.C) == "EOF" {
			return true
		}
	}
	return false
}

func (r *iterRule) SelectCase(p *Path, ev *Ev, i int) bool { return true }

func (r *iterRule) Event(p *Path, ev *Ev) {
	r.tab.Observe(p, ev)
	switch ev.K {
	case EvCall:
		r.onCall(p, ev)
	case EvCallDone:
	case EvGo:
		r.spawn(p, ev)
	case EvClose:
		if isResultChan(ev.Addr) {
			if p.Get("chan", ev.Addr) == "closed" {
				if r.is("C09") {
					r.fail("close-twice", p, ev.Instr.Pos(), "the channel behind the record iterator is closed twice")
				}
			}
			p.Set("chan", ev.Addr, "closed")
		}
	case EvSelect:
		r.onSelect(p, ev)
	case EvCase:
		if ev.N >= 0 && ev.N < len(ev.Sel) {
			s := ev.Sel[ev.N]
			if !s.Send && r.isDone(s.Chan) {
				p.Set("cancelled", nil, "1")
			}
		}
	case EvSend:
		r.onSend(p, ev)
	case EvMapRead:
		r.onMapRead(p, ev)
	case EvLoad:
		if ev.Addr.K == KIndexAddr && r.isIDList(ev.Addr.Args[0]) {
			r.onElem(p, ev.Addr.Args[0], ev.Addr.Args[1], ev.Res, ev.Instr.Pos())
		}
	case EvStore:
		if r.is("C06") && r.kind == "leveldb" && ev.Addr.K == KFieldAddr && isNamedIn(ptrElem(ev.Addr.Args[0].T), pkgLevelDB+"/util", "Range") {
			r.onRange(p, ev)
		}
	case EvBranch:
		r.onBranch(p, ev)
	case EvLoop:
		r.settle(p)
		if p.Get("round", nil) == "open" && p.top().frame.Fn.Parent() != nil && r.is("C06") {
			// the entry was passed over
			if p.Get("foreign", nil) == "" && !r.stopped(p) && r.loopHasSource(ev) {
				r.fail("skipped", p, ev.Instr.Pos(), "an entry is passed over without having been found to be below the requested position or to belong to another stream or type")
			}
		}
		if len(p.acts) == 1 {
			p.Del("mid", nil)
		}
	case EvInlineRet:
		if len(ev.Res_) == 1 && p.Truth(ev.Res_[0]) == -1 && ev.Call != nil {
			for _, a := range ev.Call.Args {
				if a != nil && a.Any(isKeyCall) {
					p.Set("foreign", nil, "1")
				}
			}
		}
	case EvExit:
		r.onExit(p, ev)
	}
}

// loopHasSource: does the loop (its header's blocks) move a source on?
func (r *iterRule) loopHasSource(ev *Ev) bool {
	h := ev.Instr.Block()
	for _, b := range h.Parent().Blocks {
		if !h.Dominates(b) {
			continue
		}
		for _, in := range b.Instrs {
			ci, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			c := ci.Common()
			n := ""
			if c.IsInvoke() {
				n = c.Method.Name()
			} else if f := c.StaticCallee(); f != nil {
				n = f.Name()
			}
			if sourceCallName[n] {
				return true
			}
		}
	}
	return false
}

var sourceCallName = map[string]bool{"Next": true, "NextContext": true, "Recv": true, "More": true, "Scan": true, "Prev": true}

func (r *iterRule) stopped(p *Path) bool {
	return p.Get("cancelled", nil) != "" || p.Get("errsent", nil) != "" || p.Get("pend", nil) != ""
}

func (r *iterRule) isIDList(v *Val) bool {
	t := v.T
	if t == nil {
		return false
	}
	if s, ok := t.Underlying().(*types.Slice); ok {
		b, ok := s.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Uint64
	}
	return false
}

// settle: records and elements in hand that were found to be below the start may be dropped.
func (r *iterRule) settle(p *Path) {
	if r.start == nil {
		return
	}
	p.Each("got", func(k *Val, x RV) {
		if x.S == "have" && r.below(p, k) {
			p.Set("got", k, "below")
		}
	})
	p.Each("elem", func(k *Val, x RV) {
		if p.Truth(p.E.T.Lt(k, r.start)) == 1 && r.op != "EventsByStream" {
			p.Del("elem", k)
		}
	})
}

func (r *iterRule) seqField() string {
	if r.op == "EventsByStream" {
		return "StreamSequenceNumber"
	}
	return "GlobalSequenceNumber"
}

func (r *iterRule) below(p *Path, rec *Val) bool {
	g := p.FieldOf(rec, r.seqField())
	return g != nil && p.Truth(p.E.T.Lt(g, r.start)) == 1
}

func (r *iterRule) notBelow(p *Path, rec *Val) bool {
	g := p.FieldOf(rec, r.seqField())
	return g != nil && p.Truth(p.E.T.Lt(g, r.start)) == -1
}

// drop: a new record is asked for (or the end reached) with one still in hand.
func (r *iterRule) drop(p *Path, pos token.Pos) {
	r.settle(p)
	if !r.is("C06") {
		p.DelAll("got")
		p.DelAll("elem")
		return
	}
	p.Each("got", func(k *Val, x RV) {
		if x.S == "have" && !r.stopped(p) && p.NilState(k) != 1 {
			r.fail("dropped", p, pos, "a record that was read is not handed over although nothing says that it lies below the requested position")
		}
	})
	p.Each("elem", func(k *Val, x RV) {
		if !r.stopped(p) {
			r.fail("dropped-id", p, pos, "an entry of the index is passed over although nothing says that it lies below the requested position")
		}
	})
	p.DelAll("got")
	p.DelAll("elem")
}

func (r *iterRule) onElem(p *Path, list, idx, v *Val, pos token.Pos) {
	if p.top().frame.Fn == r.root || !r.inGo {
		return
	}
	r.drop(p, pos)
	p.Set("elem", v, "have")
	p.Set("seen", nil, "1")
	if r.elemIdx[list] == nil {
		r.elemIdx[list] = map[*Val]bool{}
	}
	r.elemIdx[list][idx] = true
}

func isKeyCall(x *Val) bool {
	return x.K == KCall && x.M != nil && x.M.Name() == "Key" && x.M.Pkg() != nil && strings.HasPrefix(x.M.Pkg().Path(), pkgLevelDB)
}

func (r *iterRule) onBranch(p *Path, ev *Ev) {
	if x := p.Get("pend", nil); strings.HasPrefix(x, "input@") && r.isEOF(p, p.GetV("pend", nil)) {
		p.Del("pend", nil)
		p.Del("endq", nil)
		p.Set("exh", nil, "1")
	}
	if l, _, more := listBranch(ev); l != nil && l == r.sel && !more {
		p.Del("selwalk", nil)
	}
	v, want := ev.Val, ev.Bool
	for v.K == KNot {
		v, want = v.Args[0], !want
	}
	// a key found not to belong
	if !want && v.Any(isKeyCall) {
		p.Set("foreign", nil, "1")
	}
	// a stored record that the index names is missing
	if !want && v.K == KLookup && v.Op == "ok" && r.inGo && p.Get("elem", v.Args[1]) == "" && v.Args[1].T != nil {
		if b, ok := v.Args[1].T.Underlying().(*types.Basic); ok && b.Kind() == types.Uint64 {
			p.SetV("pend", nil, "fail@"+r.P.Pos(ev.Instr.Pos())+" (no stored record for an index entry)", nil)
		}
	}
	if !want && v.K == KLt && v.Args[1].K == KLen && r.isIDList(v.Args[1].Args[0]) {
		p.Set("exh", nil, "1")
	}
}

func (r *iterRule) onMapRead(p *Path, ev *Ev) {
	if ev.Key == nil {
		return
	}
	if p.Get("elem", ev.Key) != "" {
		p.Del("elem", ev.Key)
		if r.is("C07") {
			r.R.Obl("a missing stored record is reported", r.name)
		}
	}
	// selection
	if r.is("C06") && r.kind == "memory" && r.sel != nil && ev.Addr.K != KMake {
		mt, ok := ev.Addr.T.Underlying().(*types.Map)
		if !ok {
			return
		}
		if b, ok := mt.Key().Underlying().(*types.Basic); !ok || b.Kind() != types.String {
			return
		}
		r.R.Obl("the selection asked for is the one looked up", r.name)
		k := ev.Key
		ok = false
		if r.op == "EventsByStream" {
			ok = k == r.sel
		} else if r.op == "EventsByAggregateTypes" {
			ok = k.Any(func(x *Val) bool { return x == r.sel })
			if l, i := elemOf(k); l != nil && l.K == KSlice && l != r.sel && (l.Args[1] != nil || l.Args[2] != nil) {
				r.fail("selection-part", p, ev.Instr.Pos(), "only a part of the aggregate types asked for is looked up")
			} else if l == r.sel && i != nil {
				one := p.E.T.Eq(p.E.T.mk(Val{K: KLen, Args: []*Val{l}, T: types.Typ[types.Int]}), p.E.T.Int(1))
				if !(isInt(i, 0) && p.Truth(one) == 1) {
					r.selIdx[i] = true
					p.Set("selwalk", nil, "1")
				}
			}
		}
		if !ok {
			r.fail("selection", p, ev.Instr.Pos(), "the index is looked up under something else than the stream or aggregate type asked for: "+k.String())
		}
	}
}

func (r *iterRule) onSelect(p *Path, ev *Ev) {
	if !ev.Block {
		return
	}
	send, done, after := false, false, false
	recordSend := false
	for _, s := range ev.Sel {
		if s.Send {
			if isResultChan(s.Chan) {
				send = true
				rec := p.FieldOf(s.Val, "Record")
				if rec == nil || p.NilState(rec) != 1 {
					recordSend = true
				}
				if st := p.Get("chan", s.Chan); st == "closed" && r.is("C09") {
					r.fail("send-closed", p, ev.Instr.Pos(), "a record is handed over on a channel that was already closed")
				}
				if ci := s.Chan; ci.K == KMake && len(ci.Args) > 0 && ci.Args[0] != nil && !isInt(ci.Args[0], 0) && p.Get("sent", ci) == "" {
					return // first send on a buffered channel
				}
			}
		} else {
			if r.isDone(s.Chan) {
				done = true
			}
			if isAfter(s.Chan) {
				after = true
			}
		}
	}
	if r.is("C09") {
		if send {
			r.R.Obl("handing over gives up when the context is cancelled", r.name+" "+r.P.Pos(ev.Instr.Pos()))
		}
		if r.ctx != nil && !done && !(after && p.Get("cancelled", nil) != "") {
			what := "a wait"
			if send {
				what = "handing over a result"
			}
			r.fail("uncancellable", p, ev.Instr.Pos(), what+" does not end when the reader's context is cancelled")
		}
		if send && recordSend && p.Get("cancelled", nil) != "" {
			r.fail("after-cancel", p, ev.Instr.Pos(), "the producer goes on handing over records after it found the context cancelled")
		}
		if send && p.Get("errsent", nil) != "" {
			r.fail("after-error", p, ev.Instr.Pos(), "something is handed over after an error: the reader has stopped reading, so the producer never ends")
		}
	}
	if r.is("C07", "C06") && send && after && p.Get("cancelled", nil) == "" {
		r.fail("gives-up", p, ev.Instr.Pos(), "handing over is given up after a time although the reader's context is not cancelled; the read ends as if complete")
	}
}

func (r *iterRule) onSend(p *Path, ev *Ev) {
	if !isResultChan(ev.Addr) {
		return
	}
	p.Set("sent", ev.Addr, "1")
	rec, er := p.FieldOf(ev.Val, "Record"), p.FieldOf(ev.Val, "Err")
	isErr := er != nil && p.NilState(er) == -1
	if rec != nil && p.NilState(rec) == 1 && er != nil && p.NilState(er) != 1 && p.Get("cancelled", nil) != "" {
		isErr = true // ctx.Err() of a cancelled context
	}
	if isErr {
		if r.is("C07") {
			r.R.Obl("failures are handed over", r.name+" "+r.P.Pos(ev.Instr.Pos()))
			if rec != nil && p.NilState(rec) == -1 {
				r.fail("record-with-error", p, ev.Instr.Pos(), "a record is presented together with an error")
			}
		}
		p.Del("pend", nil)
		p.Del("endq", nil)
		p.Set("errsent", nil, "1")
		p.DelAll("got")
		p.DelAll("elem")
		p.Del("round", nil)
		return
	}
	if rec == nil || p.NilState(rec) == 1 {
		if r.is("C07") && p.Get("cancelled", nil) == "" {
			r.fail("empty", p, ev.Instr.Pos(), "a result without record and without error is handed over: the reader takes it for the end")
		}
		return
	}
	// a record
	r.published++
	if x := p.Get("pend", nil); x != "" {
		if r.is("C07") {
			r.fail("swallowed", p, ev.Instr.Pos(), "a record is handed over although a failure before it ("+strings.TrimPrefix(strings.TrimPrefix(x, "fail@"), "input@")+") was not reported")
		}
	}
	p.Del("round", nil)
	if r.is("C06") {
		r.checkPublished(p, ev, rec)
	}
	p.Del("got", rec)
	if p.Get("recvd", nil) != "" {
		p.Del("recvd", nil)
	}
}

func (r *iterRule) checkPublished(p *Path, ev *Ev, rec *Val) {
	if r.start == nil {
		return
	}
	switch r.kind {
	case "memory", "leveldb":
		r.R.Obl("only records at or after the start are handed over", r.name)
		if !r.notBelow(p, rec) {
			r.fail("unfiltered", p, ev.Instr.Pos(), "a record is handed over without its "+r.seqField()+" having been found not to be below the requested start")
		}
	}
}

func (r *iterRule) onCall(p *Path, ev *Ev) {
	c := ev.Call
	if sourceNext(r.P, c) || isIterMethod(r.P, c, "Record") {
		if sourceNext(r.P, c) {
			r.next(p, ev.Instr.Pos())
		}
	}
	_, name := c.callee()
	if name == "Recv" && c.Fn == nil {
		r.next(p, ev.Instr.Pos())
	}
	if r.is("C05") && isDBQuery(c) {
		r.sqlRead(p, ev)
	}
	if r.is("C06") {
		if r.kind == "memory" {
			r.onSort(p, c, ev.Instr.Pos())
		}
		if r.kind == "leveldb" && isLDBIter(c) && r.inGo && in(c.M.Name(), "Prev", "Last", "Seek") && c.Common.Signature().Results().Len() == 1 {
			r.fail("backwards", p, ev.Instr.Pos(), "the entries are not read from the first to the last ("+c.M.Name()+")")
		}
		if isDBQuery(c) {
			r.sqlRead(p, ev)
		}
		if r.kind == "leveldb" && strings.HasSuffix(c.Name(), "iterator.NewMergedIterator") && len(c.Args) >= 3 {
			r.R.Obl("several aggregate types are merged by number", r.name)
			if r.P.SSA == nil || p.Truth(c.Args[2]) != 1 {
				r.fail("merge-strict", p, ev.Instr.Pos(), "the merged iterator does not pass on the errors of its sources (strict is not set)")
			}
			r.checkComparer(p, c.Args[1], ev.Instr.Pos())
		}
	}
}

func isDBQuery(c *Call) bool {
	pkg, name := c.callee()
	if !in(name, "QueryContext", "QueryRowContext", "Query", "QueryRow") {
		return false
	}
	if pkg == pkgSQL {
		return true
	}
	// an interface of the repository with the same method
	return c.M != nil && c.Fn == nil && strings.HasPrefix(pkg, modPath) && len(c.Args) >= 2
}

// checkComparer: the merged iterator's order is that of the big-endian number at the end of the keys.
func (r *iterRule) checkComparer(p *Path, cmp *Val, pos token.Pos) {
	n := namedOf(cmp.T)
	if n == nil || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
		r.fail("merge-order", p, pos, "the entries of several aggregate types are merged in key order (by type first), not in the order of their numbers")
		return
	}
	var f *ssa.Function
	for i := 0; i < n.NumMethods(); i++ {
		if n.Method(i).Name() == "Compare" {
			f = r.P.SSA.FuncValue(n.Method(i))
		}
	}
	if f == nil {
		r.fail("merge-order", p, pos, "the merged iterator's comparer does not compare numbers")
		return
	}
	cr := &cmpRule{P: r.P}
	e := NewEngine(r.P, cr)
	np := len(f.Params)
	msg := ""
	cr.exit = func(q *Path, res []*Val) {
		a, b := cr.a, cr.b
		if len(res) != 1 {
			return
		}
		oa, ob := q.Get("own", a), q.Get("own", b)
		sign := 2
		if res[0].K == KConst && res[0].C.Kind() == constant.Int {
			sign = constant.Sign(res[0].C)
		}
		switch {
		case ascending(res[0], a, b):
			if oa == "f" || ob == "f" {
				msg = "the comparer of the merged iterator compares the number of a key that is only longer than one of the keys asked for"
			} else if oa == "" || ob == "" {
				msg = "the comparer of the merged iterator takes every key under a prefix for one that ends in its number, so a longer key of another aggregate type holds back the records after it"
			}
		case oa == "t" && ob == "f" && sign == 1, oa == "f" && ob == "t" && sign == -1, oa == "f" && ob == "f" && sign == 0:
		default:
			msg = "the comparer of the merged iterator does not order entries by the number at the end of their keys"
		}
	}
	e.RunRoot(f, func(q *Path, pa []*Val) { cr.a, cr.b = pa[np-2], pa[np-1] })
	if msg != "" {
		r.fail("merge-order", p, f.Pos(), msg)
	}
}

// cmpRule observes the exits of a comparison of keys; functions of the repository that judge one of the keys fork.
//
// Rule state: own (a key: is it exactly one asked for and a number?)
type cmpRule struct {
	Base
	P    *Prog
	a, b *Val
	exit func(p *Path, res []*Val)
}

func (r *cmpRule) Model(p *Path, c *Call) []Outcome {
	if c.Fn == nil || !r.P.InRepo(c.Fn) || c.Fn.Signature.Results().Len() != 1 {
		return nil
	}
	if bt, ok := c.Fn.Signature.Results().At(0).Type().Underlying().(*types.Basic); !ok || bt.Kind() != types.Bool {
		return nil
	}
	for _, k := range []*Val{r.a, r.b} {
		for _, x := range c.Args {
			if x != k {
				continue
			}
			k := k
			if s := p.Get("own", k); s != "" {
				return boolForkOnly(s == "t", func(q *Path, res *Val) {})
			}
			return boolFork(func(q *Path, res *Val) { q.Set("own", k, "t") }, func(q *Path, res *Val) { q.Set("own", k, "f") })
		}
	}
	return nil
}

func (r *cmpRule) Event(p *Path, ev *Ev) {
	if ev.K == EvExit && len(p.acts) == 1 {
		r.exit(p, ev.Res_)
	}
}

// ascending: is v bytes.Compare(tail of a, tail of b)?
func ascending(v, a, b *Val) bool {
	if v.K == KCall && in(v.FullName(), "bytes.Compare", "strings.Compare", "cmp.Compare") && len(v.Args) >= 2 {
		return tailOf(v.Args[0], a) && tailOf(v.Args[1], b)
	}
	return false
}

func tailOf(v, a *Val) bool {
	if v.K == KCall && strings.Contains(v.FullName(), "Uint64") || v.K == KCall && len(v.Args) == 1 {
		return tailOf(v.Args[0], a)
	}
	if v.K != KSlice || v.Args[0] != a || v.Args[1] == nil || v.Args[2] != nil {
		return false
	}
	l := v.Args[1]
	return l.K == KBin && l.Op == "-" && l.Args[0].K == KLen && l.Args[0].Args[0] == a && isInt(l.Args[1], 8)
}

// next: the source is asked for the next entry.
func (r *iterRule) next(p *Path, pos token.Pos) {
	r.drop(p, pos)
	if r.is("C09", "C07") {
		if x := p.Get("pend", nil); x != "" && r.is("C07") && !r.isEnd(p) {
			r.fail("passed-over", p, pos, "the next record is asked for although a failure ("+strings.TrimPrefix(strings.TrimPrefix(x, "fail@"), "input@")+") was not reported")
		}
		if p.Get("cancelled", nil) != "" && r.is("C09") && r.ctx != nil {
			r.fail("goes-on", p, pos, "the producer goes on reading after it found the context cancelled")
		}
		if p.Get("errsent", nil) != "" && r.is("C09") {
			r.fail("goes-on-error", p, pos, "the producer goes on reading after it handed over an error")
		}
	}
}

func (r *iterRule) sqlRead(p *Path, ev *Ev) {
	c := ev.Call
	xa := p.XArgs(c)
	// receiver, ctx, text, args...
	i := -1
	for j, a := range c.Args {
		if j > 0 && a.T != nil && i < 0 {
			if b, ok := a.T.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				i = j
			}
		}
	}
	if i < 0 {
		return
	}
	text := strings.Join(strings.Fields(sqlText(c.Args[i])), " ")
	up := strings.ToUpper(text)
	var args []*Val
	if l := xa[len(xa)-1]; l.K == KTuple {
		args = l.Args
	}
	r.sqlReads++
	pos := ev.Instr.Pos()
	bad := func(k, m string) {
		if r.is("C06") || in(k, "where", "sel") {
			r.fail("sql-"+k, p, pos, m+": "+text)
		}
	}
	for _, w := range []string{" LIMIT ", " OFFSET ", " DISTINCT ", "GROUP BY", " DESC", "HAVING", " JOIN ", " UNION "} {
		if strings.Contains(" "+up+" ", w) {
			bad("shape", "the query does not return every matching record in ascending order ("+strings.TrimSpace(w)+")")
		}
	}
	wh, ord := "", ""
	if k := strings.Index(up, " WHERE "); k >= 0 {
		wh = up[k+7:]
	}
	if k := strings.Index(wh, "ORDER BY "); k >= 0 {
		ord = strings.TrimSpace(wh[k+9:])
		wh = strings.TrimSpace(wh[:k])
	}
	col := strings.ToUpper(r.seqField())
	if r.is("C05") {
		r.R.Obl("the query selects exactly the requested stream or aggregate types", r.name)
	} else {
		r.R.Obl("the query selects by the requested start and orders by number", r.name)
	}
	if !in(strings.TrimSuffix(ord, " ASC"), "GLOBALSEQUENCENUMBER", col) {
		bad("order", "the query does not order by the sequence number")
	}
	startOK, selOK := false, r.sel == nil
	for _, cond := range strings.Split(wh, " AND ") {
		cond = strings.Trim(strings.TrimSpace(cond), "()")
		f := strings.Fields(strings.NewReplacer(">=", " >= ", "=", " = ", "> =", ">=", "<", " < ", "(", " ( ", ")", " ) ").Replace(cond))
		j := strings.Join(f, " ")
		j = strings.ReplaceAll(j, ">  =", ">=")
		n := placeholder(cond)
		var arg *Val
		if n >= 1 && n <= len(args) {
			arg = args[n-1]
		}
		switch {
		case strings.HasPrefix(j, col) && strings.Contains(cond, ">=") && arg == r.start:
			startOK = true
		case r.op == "EventsByAggregateTypes" && strings.HasPrefix(j, "AGGREGATETYPE") && strings.Contains(j, "ANY") && arg != nil && r.wraps(arg, r.sel):
			selOK = true
		case r.op == "EventsByStream" && strings.HasPrefix(j, "STREAMNAME = $") && arg == r.sel:
			selOK = true
		default:
			bad("where", "the query filters by something else than the requested start and selection ("+cond+")")
		}
	}
	if !startOK {
		bad("start", "the query does not select the records at or after the requested start (column "+r.seqField()+", >=, bound to the start)")
	}
	if !selOK {
		bad("sel", "the query does not select the requested stream or aggregate types")
	}
}

// wraps: is v (a conversion or wrapper of) x unchanged?
func (r *iterRule) wraps(v, x *Val) bool {
	if v == x {
		return true
	}
	switch v.K {
	case KCall:
		return in(v.FullName(), "github.com/lib/pq.Array") && len(v.Args) > 0 && r.wraps(v.Args[0], x)
	case KConv:
		return r.wraps(v.Args[0], x)
	}
	return false
}

func placeholder(s string) int {
	i := strings.IndexByte(s, '$')
	if i < 0 {
		return 0
	}
	n := 0
	for _, ch := range s[i+1:] {
		if ch < '0' || ch > '9' {
			break
		}
		n = n*10 + int(ch-'0')
	}
	return n
}

func ptrElem(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		return pt.Elem()
	}
	return t
}

// onRange: the bounds of a storage iterator are changed.
func (r *iterRule) onRange(p *Path, ev *Ev) {
	v := ev.Val
	if v == nil || ev.Addr.Op != "Start" {
		r.fail("range", p, ev.Instr.Pos(), "the range of keys read is cut off at its end")
		return
	}
	r.R.Obl("a storage iterator starts at the requested position", r.name)
	if !v.Any(func(x *Val) bool { return x == r.start }) || v.Any(func(x *Val) bool {
		return x.K == KBin && x.Any(func(y *Val) bool { return y == r.start })
	}) {
		r.fail("range", p, ev.Instr.Pos(), "the range of keys read does not start at the requested position")
	}
}

// onSort: a list of index entries is put in order.
func (r *iterRule) onSort(p *Path, c *Call, pos token.Pos) {
	if len(c.Args) == 0 || !r.isIDList(c.Args[0]) {
		return
	}
	switch n := c.Name(); {
	case in(n, "sort.Slice", "sort.SliceStable") && len(c.Args) == 2 && c.Args[1].Fn != nil:
		if !lessAscending(r.P, c.Args[1].Fn) {
			r.fail("sort", p, pos, "the entries of several aggregate types are not sorted by ascending number")
			return
		}
	case strings.HasPrefix(n, "slices.Sort"):
		if len(c.Args) != 1 {
			return
		}
	default:
		return
	}
	r.R.Obl("several aggregate types are merged by number", r.name)
	p.Set("sorted", c.Args[0], "1")
}

// lessAscending: does the less function of a sort order its elements by value, smallest first?
func lessAscending(P *Prog, f *ssa.Function) bool {
	cr := &cmpRule{}
	e := NewEngine(P, cr)
	ok, n := true, 0
	cr.exit = func(q *Path, res []*Val) {
		n++
		i, j := q.E.Params(f)[0], q.E.Params(f)[1]
		v := res[0]
		if v.K != KLt {
			ok = false
			return
		}
		l1, x := elemOf(v.Args[0])
		l2, y := elemOf(v.Args[1])
		if l1 == nil || l1 != l2 || x != i || y != j {
			ok = false
		}
	}
	e.RunRoot(f, nil)
	return ok && n > 0
}

// spawn explores the goroutine that feeds the iterator.
func (r *iterRule) spawn(p *Path, ev *Ev) {
	c := ev.Call
	rs := map[RK]RV{}
	handed := false
	refs := append([]*Val{}, c.Args...)
	if c.FV != nil {
		refs = append(refs, c.FV.Args...)
	}
	p.Each("chan", func(k *Val, x RV) {
		for _, a := range refs {
			if a == nil {
				continue
			}
			if a == k || a.K == KAlloc && p.mem[a] == k {
				handed = true
				rs[RK{"chan", k}] = RV{S: "open"}
				p.Set("chan", k, "handed")
			}
		}
	})
	// made but not yet noted
	for _, a := range refs {
		v := a
		if v != nil && v.K == KAlloc {
			v = p.mem[v]
		}
		if v != nil && v.K == KMake && isResultChan(v) && p.Get("chan", v) == "" {
			handed = true
			rs[RK{"chan", v}] = RV{S: "open"}
			p.Set("chan", v, "handed")
		}
	}
	if !handed {
		return
	}
	for _, a := range refs {
		if a != nil && a.K == KAlloc {
			a = p.mem[a]
		}
		if a != nil && r.is("C06") && r.kind == "memory" && r.isIDList(a) && in(kindNames[a.K], "loop", "widen", "append") && p.Get("sorted", a) == "" {
			r.fail("unsorted", p, c.Instr.Pos(), "a list made of several index lists is read without having been sorted by number")
		}
		if a != nil && r.is("C06") && r.kind == "memory" && r.op != "" && r.isIDList(a) {
			b, _ := fieldRead(a)
			if whole := b != nil && b.T == r.recvT; whole != (r.op == "Events") {
				r.fail("selection-list", p, c.Instr.Pos(), "the list of entries that is read is not the one of the selection asked for")
			}
		}
		if a != nil && a.K == KNil {
			rs[RK{"emptylist", nil}] = RV{S: "1"}
		}
	}
	if r.is("C06") && p.Get("selwalk", nil) != "" {
		r.fail("selection-part", p, c.Instr.Pos(), "the read starts before every aggregate type asked for was looked up")
	}
	p.Del("pend", nil) // a failure before the goroutine is checked at the root's exit only if nothing was handed over
	r.goCount++
	r.R.Item("producing goroutines", r.name)
	was := r.inGo
	r.inGo = true
	if !p.E.RunGo(p, c, rs) {
		r.R.Fail("undecided-go:"+r.name, ev.Instr.Pos(), "the goroutine that feeds the iterator cannot be resolved", p)
	}
	r.inGo = was
}

func (r *iterRule) onExit(p *Path, ev *Ev) {
	pos := ev.Instr.Pos()
	if p.top().tag == "go" {
		r.drop(p, pos)
		p.Each("chan", func(k *Val, x RV) {
			if r.is("C09") {
				r.R.Obl("the producer closes the iterator on every path", r.name)
				if x.S != "closed" {
					r.fail("not-closed", p, pos, "the producer ends on this path without closing the iterator: the reader waits for ever")
				}
			}
		})
		if r.is("C07") {
			r.R.Obl("the producer ends without error only when nothing failed", r.name)
			if x := p.Get("pend", nil); x != "" && p.Get("cancelled", nil) == "" && !r.isEnd(p) {
				r.fail("unreported", p, pos, "the read ends as if complete after a failure ("+strings.TrimPrefix(strings.TrimPrefix(x, "fail@"), "input@")+")")
			}
			if x := p.Get("endq", nil); x != "" && !r.stopped(p) {
				r.fail("unasked", p, pos, "the read ends as if complete without asking the source that ended at "+x+" for its error")
			}
		}
		if r.is("C06") && !r.stopped(p) && p.Get("exh", nil) == "" && !(p.Get("seen", nil) == "" && p.Get("emptylist", nil) != "") {
			r.fail("early-end", p, pos, "the read ends although its source is neither exhausted nor failed")
		}
		return
	}
	// the root itself
	if r.is("C07") {
		if x := p.Get("pend", nil); x != "" {
			r.fail("unreported", p, pos, "an iterator without error is returned after a failure ("+strings.TrimPrefix(x, "fail@")+")")
		}
	}
	if r.is("C09") {
		p.Each("chan", func(k *Val, x RV) {
			if x.S == "open" {
				r.fail("no-producer", p, pos, "an iterator is returned that nothing closes")
			}
		})
	}
}

func (r *iterRule) run() {
	r.tab = NewLoopTab()
	r.elemIdx = map[*Val]map[*Val]bool{}
	r.selIdx = map[*Val]bool{}
	if rv := r.root.Signature.Recv(); rv != nil {
		r.recvT = rv.Type()
	}
	r.name = FnName(r.root)
	e := NewEngine(r.P, r)
	r.e = e
	e.RunRoot(r.root, func(p *Path, params []*Val) {
		for _, a := range params {
			if isCtxType(a.T) && r.ctx == nil {
				r.ctx = a
			}
			if isErrorType(a.T) {
				p.SetNil(a, false)
			}
		}
		if r.op != "" {
			n := r.root.Signature.Params()
			off := len(params) - n.Len()
			r.start = params[off+1]
			if n.Len() > 2 {
				r.sel = params[off+2]
			}
		}
	})
	r.R.Engine(e, r.name)
	r.R.Item("iterator producers", r.name)
	if r.is("C06") && (r.kind == "memory") {
		r.checkOrder()
	}
	if r.is("C06") && in(r.kind, "memory", "leveldb") && r.published == 0 {
		r.R.Fail("no-records:"+r.name, r.root.Pos(), r.name+" never hands over a record", nil)
	}
	if r.is("C06") && r.kind == "postgres" && r.sqlReads == 0 {
		r.R.Fail("no-query:"+r.name, r.root.Pos(), r.name+" reads nothing from the database", nil)
	}
}

// checkOrder: index lists are walked from the first to the last entry, one by one, and lists made of several are sorted.
func (r *iterRule) checkOrder() {
	walked := len(r.selIdx) == 0
	for i := range r.selIdx {
		walked = walked || i.K != KConst
	}
	for i := range r.selIdx {
		r.R.Obl("every aggregate type asked for is looked up", r.name)
		if !r.tab.everyIndex(i) || !walked {
			r.R.Fail("selection-part:"+r.name, r.root.Pos(), fmt.Sprintf("%s: not every aggregate type asked for is looked up (%s)", r.name, i), nil)
		}
	}
	var lists []*Val
	for l := range r.elemIdx {
		lists = append(lists, l)
	}
	sort.Slice(lists, func(i, j int) bool { return lists[i].ID < lists[j].ID })
	for _, l := range lists {
		for i := range r.elemIdx[l] {
			r.R.Obl("index lists are walked in ascending order", r.name)
			if !ascIndex(r.tab, i) {
				r.R.Fail("walk:"+r.name, r.root.Pos(), fmt.Sprintf("%s: the index is not walked entry by entry from the first to the last (%s)", r.name, i), nil)
			}
		}
	}
	if len(lists) == 0 {
		r.R.Fail("walk:"+r.name, r.root.Pos(), r.name+": no index list is walked", nil)
	}
}

// ascIndex: does the index term run 0,1,2,...?
func ascIndex(t *LoopTab, i *Val) bool {
	if debugStates {
		fmt.Println("ascIndex", i, t.Init, t.Step)
	}
	want := int64(0)
	v := i
	if v.K == KBin && v.Op == "+" && isInt(v.Args[1], 1) {
		v, want = v.Args[0], -1
	}
	if v.K == KConst {
		return isInt(i, 0)
	}
	in0, steps, ok := t.Carried(v)
	if !ok {
		return false
	}
	for x := range in0 {
		if !isInt(x, want) {
			return false
		}
	}
	return onlySteps(steps, "+1") && steps["+1"]
}
