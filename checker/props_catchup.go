package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Catch-up subscriptions: what a subscription delivers is a gap-free continuation of what it delivered before. A ghost
// value follows the number of the next record that is due; every read must start there, and every record that arrives
// live must be delivered if, and only if, its number is at least that.

const pkgSub = modPath + "/pkg/recordsubscriber"

// subNew are the constructors of subscriptions: functions that take a subscription's configuration.
func subNew(P *Prog) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range P.Funcs {
		if pkgOf(f) == nil || pkgOf(f).Path() != pkgSub || f.Parent() != nil || !token.IsExported(f.Name()) || f.Signature.Recv() != nil {
			continue
		}
		if f.Signature.Params().Len() == 1 && isNamedIn(f.Signature.Params().At(0).Type(), pkgSub, "Config") && f.Signature.Results().Len() > 0 {
			out = append(out, f)
		}
	}
	return out
}

type catchRule struct {
	Base
	P     *Prog
	R     *Report
	name  string
	root  *ssa.Function // the constructor
	typ   *types.Named
	op    string // method under judgement
	conf  *Val
	self  *Val
	gsn   *Val
	loop  *LoopTab
	bound map[*ssa.Function]bool
	// learnt from the methods
	recvChan *Val // what Receiver hands out
	doneChan *Val // what Done hands out
}

func (r *catchRule) Inline(p *Path, c *Call) bool { return true }

func (r *catchRule) SelectCase(p *Path, ev *Ev, i int) bool { return true }

func (r *catchRule) fail(p *Path, key string, pos token.Pos, msg string) {
	if !pos.IsValid() {
		pos = r.root.Pos()
	}
	r.R.Fail(key+":"+r.name, pos, r.name+": "+msg, p)
	p.dead = true
}

// confCall: the field of the configuration a dynamic call calls.
func (r *catchRule) confCall(c *Call) string {
	if c.FV == nil || c.Fn != nil {
		return ""
	}
	b, n := fieldRead(c.FV)
	if b != nil && b == r.conf {
		return n
	}
	return ""
}

func (r *catchRule) Model(p *Path, c *Call) []Outcome {
	T := p.E.T
	switch r.confCall(c) {
	case "GetRecords":
		return []Outcome{{Opaque: true, After: func(q *Path, res *Val) bool { return q.SetNil(res, false) }}}
	case "Subscribe", "Unsubscribe":
		return []Outcome{{Res: T.Nil}}
	case "ConsumeRecord":
		e := T.mk(Val{K: KBuiltin, Op: "error:consume", T: errorType()})
		return []Outcome{
			{Res: T.Nil},
			{Res: e, Apply: func(q *Path) bool {
				q.SetNil(e, false)
				q.Note(q.pos(), "the record cannot be delivered")
				q.Set("stopped", nil, "1")
				return true
			}},
		}
	}
	if o := iterModel(r.P, c, func(q *Path, res *Val) {
		if q.Get("open", nil) != "" {
			r.fail(q, "left-out", q.pos(), "a stored record is left out")
			return
		}
		q.Set("open", nil, "stored")
		q.Del("cur", nil)
	}, func(q *Path, res *Val) {
		if q.Get("open", nil) != "" {
			r.fail(q, "left-out", q.pos(), "a stored record is left out")
			return
		}
		q.Set("ended", nil, "1")
	}, func(q *Path, res *Val) {
		q.SetV("cur", nil, "1", res)
	}, func(q *Path, res *Val) {
		q.Set("stopped", nil, "1")
	}); o != nil {
		if sourceErr(r.P, c) {
			for i := range o {
				af := o[i].After
				o[i].After = func(q *Path, res *Val) bool {
					if af != nil && !af(q, res) {
						return false
					}
					if q.Get("ended", nil) != "" && q.NilState(res) == 1 {
						q.Set("okread", nil, "1")
					}
					return true
				}
			}
		}
		return o
	}
	if failing(r.P, c) {
		return errFork(nil, nil)
	}
	return nil
}

func errorType() types.Type { return types.Universe.Lookup("error").Type() }

// due is the number of the next record to be delivered.
func (r *catchRule) due(p *Path) linExp {
	x := p.RS[RK{"g:next", nil}]
	var off int64
	fmt.Sscan(x.S, &off)
	e := linConst(off)
	if x.V != nil {
		e = e.add(p.lin(x.V), 1)
	}
	return e
}

func (r *catchRule) setDue(p *Path, v *Val, off int64) {
	p.SetV("g:next", nil, fmt.Sprint(off), v)
}

// number is the global number of a record.
func (r *catchRule) number(p *Path, rec *Val) *Val {
	st := structOf(rec.T)
	if st == nil {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if f := st.Field(i); f.Name() == "GlobalSequenceNumber" {
			return p.load(p.fieldAddr(rec, i, f), f.Type(), p.top().block.Instrs[0])
		}
	}
	return nil
}

func (r *catchRule) read(p *Path, c *Call, pos token.Pos) {
	if p.Get("stopped", nil) != "" {
		r.fail(p, "goes-on", pos, "reads on after a failure")
		return
	}
	if p.Get("inGo", nil) != "" {
		r.fail(p, "late-read", pos, "stored records are read while live ones are delivered")
		return
	}
	if len(c.Args) == 0 {
		return
	}
	d := p.lin(c.Args[0]).add(r.due(p), -1)
	same := len(d.m) == 0 && d.c == 0
	if !same {
		// the start position was zero: its successor is as good
		n := p.lin(c.Args[0])
		if x := p.RS[RK{"g:next", nil}]; x.V == r.gsn && len(n.m) == 0 && n.c <= 1 && p.zeroNow(r.gsn) {
			same = true
		}
	}
	if !same {
		r.fail(p, "start", pos, fmt.Sprintf("a read of stored records does not start at the next record that is due (%v)", c.Args[0]))
		return
	}
	r.R.Obl("each read starts at the record that is due", r.name+" "+r.P.Pos(pos)+" subscribed:"+p.Get("subscribed", nil))
	p.Set("first", nil, "1")
	p.Del("ended", nil)
	p.Del("okread", nil)
	if p.Get("subscribed", nil) != "" {
		p.Set("second", nil, "1")
	}
}

func (p *Path) zeroNow(v *Val) bool {
	k := p.constOf(v)
	return k != nil && k.C.Kind() == constant.Int && constant.Sign(k.C) == 0 || p.Truth(p.E.T.Lt(p.E.T.Int(0), v)) == -1
}

func (r *catchRule) consume(p *Path, c *Call, pos token.Pos) {
	if len(c.Args) == 0 {
		return
	}
	if p.Get("stopped", nil) != "" {
		r.fail(p, "goes-on", pos, "delivers further records after one could not be delivered")
		return
	}
	rec := c.Args[0]
	if p.Get("open", nil) == "" || p.GetV("cur", nil) != rec {
		r.fail(p, "other", pos, fmt.Sprintf("what is delivered is not the record at hand (%v)", rec))
		return
	}
	n := r.number(p, rec)
	if p.Get("open", nil) == "live" {
		if !p.atLeast0(p.lin(n).add(r.due(p), -1), r.loop) {
			r.fail(p, "repeated", pos, "a live record may be delivered that was already delivered")
			return
		}
		r.R.Obl("a live record is delivered only if it was not yet", r.name+" "+r.op)
	} else {
		r.R.Obl("stored records are all delivered", r.name+" "+r.op)
	}
	p.Del("open", nil)
	p.Del("cur", nil)
	r.setDue(p, n, 1)
}

// next closes the record at hand: if it was not delivered, it must be known to have been delivered before.
func (r *catchRule) next(p *Path, pos token.Pos) {
	if p.Get("open", nil) != "live" {
		return
	}
	rec := p.GetV("cur", nil)
	if p.Get("stopped", nil) == "" {
		e := r.due(p).add(p.lin(r.number(p, rec)), -1)
		e.c--
		if !p.atLeast0(e, r.loop) {
			r.fail(p, "left-out", pos, "a live record is passed over that was not yet delivered")
			return
		}
		r.R.Obl("only delivered live records are passed over", r.name+" "+r.op)
	}
	p.Del("open", nil)
	p.Del("cur", nil)
}

func (r *catchRule) received(p *Path, rec *Val, ch *Val, pos token.Pos) {
	if !isRecord(rec.T) {
		return
	}
	if ch != nil && r.recvChan != nil && ch != r.recvChan {
		return
	}
	p.SetNil(rec, false)
	if n := r.number(p, rec); n != nil && !p.Assume(p.E.T.Lt(p.E.T.Int(0), n), true) { // numbers start at 1
		p.dead = true
		return
	}
	p.Set("open", nil, "live")
	p.SetV("cur", nil, "1", rec)
}

func (r *catchRule) Event(p *Path, ev *Ev) {
	pos := token.NoPos
	if ev.Instr != nil {
		pos = ev.Instr.Pos()
	}
	switch ev.K {
	case EvCall:
		switch r.confCall(ev.Call) {
		case "GetRecords":
			r.read(p, ev.Call, pos)
		case "ConsumeRecord":
			r.consume(p, ev.Call, pos)
		case "Subscribe":
			if p.Get("subscribed", nil) != "" {
				r.fail(p, "twice", pos, "subscribes twice")
				return
			}
			if r.op == "StartFrom" && (p.Get("first", nil) == "" || p.Get("okread", nil) == "") {
				r.fail(p, "early", pos, "registers for live records before the stored ones were delivered")
				return
			}
			if len(ev.Call.Args) != 1 || ev.Call.Args[0] != r.self {
				r.fail(p, "whom", pos, "registers something else than the subscription")
				return
			}
			p.Set("subscribed", nil, "1")
		case "Unsubscribe":
			if p.Get("subscribed", nil) != "1" {
				r.fail(p, "unsub", pos, "unsubscribes what is not subscribed")
				return
			}
			if len(ev.Call.Args) != 1 || ev.Call.Args[0] != r.self {
				r.fail(p, "whom", pos, "unregisters something else than the subscription")
				return
			}
			p.Set("subscribed", nil, "2")
		}
	case EvLoop:
		if p.Get("open", nil) == "live" {
			r.next(p, pos)
		}
		r.settle(p)
	case EvSelect:
		r.next(p, pos)
	case EvRecv:
		if ev.Val != nil && ev.Val.T != nil && isRecord(ev.Val.T) {
			r.next(p, pos)
			if !p.dead {
				r.received(p, ev.Val, ev.Addr, pos)
			}
		}
	case EvGo:
		if p.Get("stopped", nil) != "" || p.Get("subscribed", nil) != "1" {
			r.fail(p, "works", pos, "live records are delivered without a registration")
			return
		}
		if r.op == "StartFrom" && (p.Get("second", nil) == "" || p.Get("okread", nil) == "") {
			r.fail(p, "gap", pos, "live records are delivered before the stored ones that arrived before the registration")
			return
		}
		if p.Get("started", nil) != "" {
			r.fail(p, "works-twice", pos, "two goroutines deliver records")
			return
		}
		p.Set("started", nil, "1")
		p.E.RunGo(p, ev.Call, map[RK]RV{{"inGo", nil}: {S: "1"}, {"subscribed", nil}: {S: "1"}, {"g:next", nil}: p.RS[RK{"g:next", nil}], {"stage", nil}: {S: "go"}})
	case EvStore:
		if p.Get("started", nil) != "" && p.Get("inGo", nil) == "" && ev.Addr.K == KFieldAddr && ev.Addr.Args[0] == r.self {
			r.fail(p, "raced", pos, "changes the subscription while its goroutine is at work")
		}
	case EvClose:
		if p.Get("inGo", nil) != "" {
			p.SetV("closed", nil, "1", ev.Addr)
		}
	case EvInlineRet:
		if p.top().tag == "cont" {
			r.exit(p, ev, ev.Res_)
		}
	case EvExit:
		if p.Get("stage", nil) == "go" {
			r.exit(p, ev, ev.Res_)
			return
		}
		if p.Get("stage", nil) == "" {
			if len(ev.Res_) == 0 {
				return
			}
			r.begin(p, ev.Res_[0])
		}
	}
}

// settle keeps the ghost value expressible when the variables it is known by are generalised.
func (r *catchRule) settle(p *Path) {
	x := p.RS[RK{"g:next", nil}]
	if x.V == nil || x.V == r.gsn {
		return
	}
	e := r.due(p)
	for k, v := range p.mem {
		if k.K != KFieldAddr || k.Args[0] != r.self || v.T == nil || !isIntT(v.T) {
			continue
		}
		d := e.add(p.lin(v), -1)
		if len(d.m) == 0 && v.K != KConst {
			r.setDue(p, v, d.c)
			return
		}
	}
}

func (r *catchRule) begin(p *Path, self *Val) {
	m := r.P.Method(r.typ, r.op)
	if m == nil {
		p.dead = true
		return
	}
	r.self = self
	p.Set("stage", nil, "1")
	args := []*Val{self}
	r.gsn = nil
	switch r.op {
	case "StartFrom":
		args = append(args, r.gsnParam(p, m))
		r.gsn = args[1]
		r.setDue(p, r.gsn, 0)
	case "Start":
		r.setDue(p, nil, 1)
	}
	p.Continue(m, args, nil)
}

func (r *catchRule) gsnParam(p *Path, m *ssa.Function) *Val {
	return p.E.T.mk(Val{K: KBuiltin, Op: "start position", T: m.Params[len(m.Params)-1].Type()})
}

func (r *catchRule) exit(p *Path, ev *Ev, res []*Val) {
	pos := ev.Instr.Pos()
	switch {
	case p.Get("stage", nil) == "go":
		r.next(p, pos)
		if p.dead {
			return
		}
		r.R.Obl("a subscription that ends is unregistered", r.name+" "+r.P.Pos(pos))
		if p.Get("subscribed", nil) != "2" {
			r.fail(p, "left-registered", pos, "the subscription ends but stays registered")
		}
	case r.op == "Receiver":
		if len(res) == 1 {
			r.recvChan = unconv(res[0])
		}
	case r.op == "Done":
		if len(res) == 1 {
			r.doneChan = unconv(res[0])
		}
	default:
		if len(res) == 0 {
			return
		}
		err := res[len(res)-1]
		ok := p.NilState(err)
		if p.Get("started", nil) != "" {
			if ok != 1 {
				r.fail(p, "error-late", pos, "reports an error although the subscription is at work")
			}
			return
		}
		if ok == 1 {
			r.fail(p, "not-started", pos, "reports success without having started to deliver live records")
			return
		}
		if p.Get("subscribed", nil) == "1" {
			r.fail(p, "left-registered", pos, "fails but stays registered")
		}
	}
}

func unconv(v *Val) *Val {
	for v != nil && v.K == KConv {
		v = v.Args[0]
	}
	return v
}

func (r *catchRule) run() {
	for _, op := range []string{"Receiver", "Done", "Start", "StartFrom"} {
		r.op = op
		e := NewEngine(r.P, r)
		r.name = FnName(r.root)
		if m := r.P.Method(r.typ, op); m != nil {
			r.name = FnName(m)
		}
		e.RunRoot(r.root, func(p *Path, params []*Val) { r.conf = params[0] })
		r.R.Engine(e, r.name)
	}
}

func catchUp(P *Prog, R *Report) {
	for _, f := range subNew(P) {
		n := namedOf(derefT(f.Signature.Results().At(0).Type()))
		if n == nil {
			R.Fail("constructor:"+FnName(f), f.Pos(), FnName(f)+" does not return a subscription of a known type", nil)
			continue
		}
		(&catchRule{P: P, R: R, root: f, typ: n, loop: NewLoopTab()}).run()
	}
	R.Need("each read starts at the record that is due", 2)
	R.Need("a live record is delivered only if it was not yet", 1)
	R.Need("only delivered live records are passed over", 1)
	R.Need("stored records are all delivered", 1)
	R.Need("a subscription that ends is unregistered", 1)
}

func init() {
	register("C12", "On every path through a subscription (constructor, then Receiver, Done, Start or StartFrom and the goroutine it starts) a ghost value holds the number of the next record due: every read of stored records must start there, a live record must be delivered exactly if its number is not below it, registration must lie between the first and the second read, and every end after registration must unregister. For every configuration a subscription is made of, its four functions are explored and compared: what is read, registered for and unregistered must be the same selection on the same broadcaster, the read must start at the requested number, and the record handed on must be the one received, once.",
		[]string{"reads return what C06 says", "record numbers start at 1 (C04)", "announcements arrive in order (C13)", "the Subscribe and Unsubscribe functions of a configuration do not change the subscription"},
		func(P *Prog, R *Report) { catchUp(P, R); pairs(P, R) })
}

// pairRule judges how subscriptions are configured: what they read, what they register for and unregister, what they
// do with a record, and where they start.
type pairRule struct {
	Base
	P     *Prog
	R     *Report
	name  string
	root  *ssa.Function
	news  map[*ssa.Function]bool
	sub   map[string][]feed // what the closures of the configuration at hand do
	req   *Val
	types *Val
	seen  int
}

type feed struct {
	kind  string // all, types
	list  *Val
	of    *Val // store or broadcaster
	stop  bool // unregisters
	start *Val
	bad   string
}

func (r *pairRule) Inline(p *Path, c *Call) bool {
	return !r.news[c.Fn] && !r.isSubMethod(c)
}

// isSubMethod: Start, StartFrom, … of a subscription.
func (r *pairRule) isSubMethod(c *Call) bool {
	if c.Fn == nil || c.Fn.Signature.Recv() == nil || pkgOf(c.Fn) == nil {
		return false
	}
	n := namedOf(derefT(c.Fn.Signature.Recv().Type()))
	for f := range r.news {
		if n != nil && n == namedOf(derefT(f.Signature.Results().At(0).Type())) {
			return true
		}
	}
	return false
}

func (r *pairRule) SelectCase(p *Path, ev *Ev, i int) bool { return true }

func (r *pairRule) fail(p *Path, key string, pos token.Pos, msg string) {
	if !pos.IsValid() {
		pos = r.root.Pos()
	}
	r.R.Fail(key+":"+r.name, pos, r.name+": "+msg, p)
}

func (r *pairRule) feedOf(c *Call) *feed {
	if c.M == nil || c.M.Type().(*types.Signature).Recv() == nil {
		return nil
	}
	switch c.M.Name() {
	case "SubscribeAllEvents", "UnsubscribeAllEvents":
		return &feed{kind: "all", of: c.Args[0], stop: c.M.Name()[0] == 'U'}
	case "SubscribeAggregateTypes", "UnsubscribeAggregateTypes":
		if len(c.Args) == 3 {
			return &feed{kind: "types", list: c.Args[2], of: c.Args[0], stop: c.M.Name()[0] == 'U'}
		}
	case "Events":
		if len(c.Args) == 3 {
			return &feed{kind: "all", of: c.Args[0], start: c.Args[2]}
		}
	case "EventsByAggregateTypes":
		if len(c.Args) == 4 {
			return &feed{kind: "types", list: c.Args[3], of: c.Args[0], start: c.Args[2]}
		}
	}
	return nil
}

func (r *pairRule) Model(p *Path, c *Call) []Outcome {
	if p.Get("in", nil) != "" {
		if f := r.feedOf(c); f != nil {
			return []Outcome{{Opaque: true}}
		}
	}
	if p.Get("in", nil) == "ConsumeRecord" && r.delivers(p, c) && hasErr(c) {
		return errFork(nil, func(q *Path, res *Val) { q.Set("sendfail", nil, "1") })
	}
	if failing(r.P, c) {
		return errFork(nil, nil)
	}
	return nil
}

// delivers: does the call hand the record at hand to someone?
func (r *pairRule) delivers(p *Path, c *Call) bool {
	if c.Fn != nil && r.P.InRepo(c.Fn) || isLog(c) {
		return false
	}
	pkg, _ := c.callee()
	if in(pkg, "encoding/json", "fmt", "log", "strings", "bytes", "errors", "") && c.FV == nil {
		return false
	}
	rec := p.GetV("rec", nil)
	if rec == nil {
		return false
	}
	for _, a := range p.XArgs(c) {
		if a == nil {
			continue
		}
		if p.mentionsVal(a, rec) {
			return true
		}
		if a.K == KAlloc && roleFields(a.T) != nil {
			if f := p.FieldOf(a, "GlobalSequenceNumber"); f != nil && p.mentionsVal(f, rec) {
				return true
			}
		}
	}
	return false
}

func (r *pairRule) Event(p *Path, ev *Ev) {
	pos := token.NoPos
	if ev.Instr != nil {
		pos = ev.Instr.Pos()
	}
	which := p.Get("in", nil)
	switch ev.K {
	case EvCall:
		c := ev.Call
		if which != "" {
			if f := r.feedOf(c); f != nil {
				if which == "GetRecords" && f.start != p.GetV("arg", nil) {
					f.bad = "does not read from the position it is asked for"
				}
				if which != "GetRecords" && len(c.Args) > 1 {
					ok := c.Args[1] == p.GetV("arg", nil)
					if l, known := p.SliceElems(c.Args[1]); known && len(l) == 1 && l[0] == p.GetV("arg", nil) {
						ok = true
					}
					if !ok {
						f.bad = "registers someone else than the subscription"
					}
				}
				p.Set("fed", nil, "1")
				r.sub[which] = append(r.sub[which], *f)
			}
			if which == "ConsumeRecord" && r.delivers(p, c) {
				n := "1"
				if p.Get("sent", nil) != "" {
					n = "2"
				}
				p.Set("sent", nil, n)
			}
			return
		}
		if r.news[c.Fn] && len(c.Args) == 1 {
			r.config(p, c, pos)
			return
		}
		if r.isSubMethod(c) {
			r.start(p, c, pos)
		}
	case EvBranch:
		cond, want := ev.Val, ev.Bool
		for cond.K == KNot {
			cond, want = cond.Args[0], !want
		}
		if cond.K == KEq && want {
			for i := 0; i < 2; i++ {
				x, k := cond.Args[i], cond.Args[1-i]
				if x.K == KLen {
					x = x.Args[0]
				}
				n, num := intOf(k)
				s, str := strOf(k)
				if startQuery(x) && (num && n == 0 || str && s == "") {
					p.Set("absent", nil, "1")
				}
			}
		}
	case EvGo:
		if which == "" {
			p.E.RunGo(p, ev.Call, map[RK]RV{{"inGo", nil}: {S: "1"}})
		}
	case EvExit:
		switch {
		case which == "ConsumeRecord":
			err := (*Val)(nil)
			if n := len(ev.Res_); n > 0 {
				err = ev.Res_[n-1]
			}
			if err != nil && p.NilState(err) != -1 {
				switch {
				case p.Get("sendfail", nil) != "":
					r.fail(p, "lost-failure", pos, "a record that could not be delivered counts as delivered")
				case p.Get("sent", nil) == "":
					r.fail(p, "not-delivered", pos, "a record counts as delivered that was not handed on")
				}
			}
			if p.Get("sent", nil) == "2" {
				r.fail(p, "delivered-twice", pos, "a record is handed on twice")
			}
			r.R.Obl("a consumed record is handed on once", r.name+" "+r.P.Pos(pos))
		case which != "":
			if p.Get("fed", nil) == "" {
				r.sub[which] = append(r.sub[which], feed{bad: "does nothing on some path"})
			}
		}
	}
}

// config judges a configuration a subscription is made of.
func (r *pairRule) config(p *Path, c *Call, pos token.Pos) {
	conf := c.Args[0]
	r.sub = map[string][]feed{}
	r.seen++
	for _, field := range []string{"GetRecords", "Subscribe", "Unsubscribe", "ConsumeRecord"} {
		f := p.FieldOf(conf, field)
		if f == nil || f.K != KClosure && f.K != KFunc || f.Fn == nil || len(f.Fn.Params) != 1 {
			r.fail(p, "unknown-"+field, pos, field+" of a subscription is not a function known here")
			return
		}
		arg := p.E.T.mk(Val{K: KBuiltin, Op: "argument of " + field, T: f.Fn.Params[0].Type()})
		rs := map[RK]RV{{"in", nil}: {S: field}, {"arg", nil}: {S: "1", V: arg}}
		if field == "ConsumeRecord" {
			rs[RK{"rec", nil}] = RV{S: "1", V: arg}
		}
		r.runHere(p, &Call{Instr: c.Instr, Fn: f.Fn, FV: f, Args: []*Val{arg}}, rs, arg)
	}
	var base *feed
	for _, field := range []string{"GetRecords", "Subscribe", "Unsubscribe"} {
		l := r.sub[field]
		if len(l) == 0 {
			r.fail(p, "nothing-"+field, pos, field+" of a subscription neither reads nor registers")
			return
		}
		for i := range l {
			f := &l[i]
			switch {
			case f.bad != "":
				r.fail(p, "feed-"+field, pos, field+" "+f.bad)
				return
			case field == "GetRecords" && f.start == nil || field != "GetRecords" && f.start != nil:
				r.fail(p, "feed-"+field, pos, field+" is mixed up with another function of the subscription")
				return
			case field == "Subscribe" && f.stop, field == "Unsubscribe" && !f.stop:
				r.fail(p, "feed-"+field, pos, field+" does the opposite")
				return
			}
			if base == nil {
				base = f
				continue
			}
			if f.kind != base.kind || f.kind == "types" && f.list != base.list {
				r.fail(p, "selection-"+field, pos, field+" of a subscription selects other events than its stored records")
				return
			}
		}
	}
	for _, f := range append(append([]feed{}, r.sub["Subscribe"]...), r.sub["Unsubscribe"]...) {
		if f.of != r.sub["Subscribe"][0].of {
			r.fail(p, "broadcaster", pos, "a subscription is unregistered at another broadcaster")
			return
		}
	}
	var kind string
	var list *Val
	switch r.root.Name() {
	case "AllEventsSubscription":
		kind = "all"
	case "AggregateTypesSubscription":
		kind = "types"
		list = r.types
	}
	if r.req != nil && kind == "" {
		kind = "all"
		st := structOf(r.req.T)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "AggregateTypes" {
				kind = "types"
			}
		}
	}
	if kind != "" && base.kind != kind || list != nil && base.list != list || kind == "types" && r.req != nil && !reads(base.list, r.req, "AggregateTypes") {
		r.fail(p, "asked", pos, "the subscription does not select the events it is asked for")
		return
	}
	r.R.Obl("reading, registering and unregistering select the same events", r.name+" "+r.P.Pos(pos))
}

// runHere explores a function value called from here.
func (r *pairRule) runHere(p *Path, c *Call, rs map[RK]RV, arg *Val) {
	q := p.clone()
	parent := p.top().frame
	q.acts = nil
	q.RS = rs
	q.SetNil(arg, false)
	q.push(p.E.T.Frame(parent, c.Instr, c.Fn), c.Args, c.FV.Args)
	q.top().tag = "go"
	q.top().call = c
	p.E.Run(q)
}

// startQuery: the start position among a request's query parameters.
func startQuery(v *Val) bool {
	return v != nil && v.K == KCall && in(v.FullName(), "(net/url.Values).Get", "(*net/http.Request).FormValue") && len(v.Args) == 2 && constStr(v.Args[1]) == "global-sequence-number"
}

// start judges where a subscription starts.
func (r *pairRule) start(p *Path, c *Call, pos token.Pos) {
	if !in(c.Fn.Name(), "Start", "StartFrom") {
		return
	}
	asked := false
	if r.req != nil {
		st := structOf(r.req.T)
		for i := 0; st != nil && i < st.NumFields(); i++ {
			asked = asked || st.Field(i).Name() == "GlobalSequenceNumber"
		}
	}
	if c.Fn.Name() == "Start" {
		if asked {
			r.fail(p, "start-ignored", pos, "the requested start position is not used")
		}
		return
	}
	r.R.Obl("a subscription starts where the caller asked", r.name+" "+r.P.Pos(pos))
	v := c.Args[1]
	if asked {
		if !reads(v, r.req, "GlobalSequenceNumber") {
			r.fail(p, "start-other", pos, fmt.Sprintf("the subscription does not start at the requested position (%v)", v))
		}
		return
	}
	if isHandler(r.root) {
		n, zero := intOf(v)
		switch {
		case v.K == KExtract && v.Idx == 0 && v.Args[0].K == KCall && v.Args[0].FullName() == "strconv.ParseUint" && startQuery(v.Args[0].Args[0]):
		case zero && n == 0 && p.Get("absent", nil) != "":
		default:
			r.fail(p, "start-other", pos, fmt.Sprintf("the subscription does not start at the requested position (%v)", v))
		}
	}
}

func (r *pairRule) run(f *ssa.Function) {
	r.root = f
	r.name = FnName(f)
	e := NewEngine(r.P, r)
	e.RunRoot(f, func(p *Path, params []*Val) {
		if n := len(params); n > 0 && f.Signature.Variadic() {
			r.types = params[n-1]
		}
		for _, a := range params {
			if _, ok := a.T.Underlying().(*types.Pointer); ok {
				p.SetNil(a, false)
			}
			if st := structOf(a.T); st != nil && pkgOfType(a.T) == pkgPB {
				r.req = a
			}
		}
	})
	r.R.Engine(e, r.name)
}

func pkgOfType(t types.Type) string {
	if n := namedOf(derefT(t)); n != nil && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path()
	}
	return ""
}

func pairs(P *Prog, R *Report) {
	news := map[*ssa.Function]bool{}
	for _, f := range subNew(P) {
		news[f] = true
	}
	callers := staticCallers(P)
	done := map[*ssa.Function]bool{}
	for f := range news {
		for _, g := range callers[f] {
			if IsTestSupport(pkgOf(g).Path()) || isExample(g) {
				continue
			}
			for _, h := range climb(g, callers) {
				if !done[h] && !IsTestSupport(pkgOf(h).Path()) && !isExample(h) {
					done[h] = true
				}
			}
		}
	}
	for _, f := range P.Funcs {
		if done[f] {
			(&pairRule{P: P, R: R, news: news}).run(f)
		}
	}
	R.Need("reading, registering and unregistering select the same events", 6)
	R.Need("a consumed record is handed on once", 6)
	R.Need("a subscription starts where the caller asked", 2)
}
