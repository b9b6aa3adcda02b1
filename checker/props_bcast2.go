package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// endRule judges how a subscription ends: stopping it must not wait and must wake up its goroutine, which ends, and on
// its end closes the channel Done hands out.
type endRule struct {
	Base
	P        *Prog
	R        *Report
	name     string
	root     *ssa.Function
	typ      *types.Named
	op       string
	conf     *Val
	self     *Val
	recvChan *Val
	doneChan *Val
	stopCh   *Val // closed by Stop
	stopCtx  *Val // the context Stop cancels (the call that made it)
	derived  bool // which comes from the configuration's context
}

func (r *endRule) Inline(p *Path, c *Call) bool { return true }

func (r *endRule) SelectCase(p *Path, ev *Ev, i int) bool { return true }

func (r *endRule) fail(p *Path, key string, pos token.Pos, msg string) {
	if !pos.IsValid() {
		pos = r.root.Pos()
	}
	r.R.Fail(key+":"+r.name, pos, r.name+": "+msg, p)
	p.dead = true
}

func (r *endRule) Model(p *Path, c *Call) []Outcome {
	if c.FV != nil && c.Fn == nil {
		if b, n := fieldRead(c.FV); b != nil && b == r.conf {
			if hasErr(c) {
				return errFork(nil, nil)
			}
			if n == "GetRecords" {
				return []Outcome{{Opaque: true, After: func(q *Path, res *Val) bool { return q.SetNil(res, false) }}}
			}
			return []Outcome{{Res: p.E.T.Nil}}
		}
	}
	if failing(r.P, c) {
		return errFork(nil, nil)
	}
	return nil
}

// signal: does ch tell the goroutine to end?
func (r *endRule) signal(ch *Val) bool {
	ch = unconv(ch)
	if r.stopCh != nil && ch == r.stopCh {
		return true
	}
	d := doneOf(ch)
	return d != nil && r.stopCtx != nil && d.K == KExtract && d.Idx == 0 && d.Args[0] == r.stopCtx
}

// fromConf: does ch become ready when the configuration's context ends?
func (r *endRule) fromConf(ch *Val) bool {
	d := doneOf(unconv(ch))
	for d != nil {
		if b, n := fieldRead(d); b == r.conf && b != nil && n == "Ctx" {
			return true
		}
		if d.K == KExtract && d.Idx == 0 && d.Args[0].K == KCall && in(d.Args[0].FullName(), "context.WithCancel", "context.WithTimeout", "context.WithDeadline", "context.WithValue") {
			d = d.Args[0].Args[0]
			continue
		}
		return false
	}
	return false
}

func (r *endRule) Event(p *Path, ev *Ev) {
	pos := token.NoPos
	if ev.Instr != nil {
		pos = ev.Instr.Pos()
	}
	if !pos.IsValid() {
		pos = p.pos()
	}
	stage := p.Get("stage", nil)
	switch ev.K {
	case EvExit:
		switch stage {
		case "":
			if len(ev.Res_) == 0 {
				return
			}
			r.self = unconv(ev.Res_[0])
			m := r.P.Method(r.typ, r.op)
			if m == nil {
				p.dead = true
				return
			}
			p.Set("stage", nil, "op")
			p.SetV("self", nil, "1", r.self)
			args := []*Val{r.self}
			for _, a := range m.Params[1:] {
				args = append(args, p.E.T.mk(Val{K: KBuiltin, Op: "argument " + a.Name(), T: a.Type()}))
			}
			p.Continue(m, args, nil)
		case "go":
			if p.Get("closed", nil) == "" {
				r.fail(p, "not-announced", pos, "the subscription ends without closing the channel that tells so")
				return
			}
			r.R.Obl("a subscription that ends says so", r.name+" "+r.P.Pos(pos))
		}
	case EvInlineRet:
		if p.top().tag != "cont" {
			return
		}
		switch r.op {
		case "Receiver":
			r.recvChan = unconv(ev.Res_[0])
		case "Done":
			r.doneChan = unconv(ev.Res_[0])
		case "Stop":
			if p.Get("stops", nil) == "" {
				r.fail(p, "stop", pos, "stopping has no effect on some path")
				return
			}
			r.R.Obl("stopping does not wait", r.name)
		}
	case EvCall:
		if r.op == "Stop" && stage == "op" {
			if x := cancelled(ev.Call); x != nil {
				r.stopCtx = x
				p.Set("stops", nil, "1")
			}
		}
	case EvClose:
		ch := unconv(ev.Addr)
		switch {
		case r.op == "Stop" && stage == "op":
			r.stopCh = ch
			p.Set("stops", nil, "1")
		case ch == r.doneChan && stage == "go":
			if p.Get("closed", nil) != "" {
				r.fail(p, "announced-twice", pos, "the channel that tells the end of the subscription is closed twice")
				return
			}
			p.Set("closed", nil, "1")
		case ch == r.recvChan && ch != nil:
			r.fail(p, "receiver-closed", pos, "closes the channel the broadcaster sends on")
		case ch == r.doneChan && ch != nil && p.Get("started", nil) != "":
			r.fail(p, "announced", pos, "tells the end of a subscription that is at work")
		}
	case EvGo:
		if stage == "op" {
			p.Set("started", nil, "1")
			p.E.RunGo(p, ev.Call, map[RK]RV{{"stage", nil}: {S: "go"}, {"self", nil}: {S: "1", V: r.self}})
		}
	case EvSelect:
		if !ev.Block {
			return
		}
		switch {
		case r.op == "Stop":
			r.fail(p, "stop-waits", pos, "stopping a subscription may wait")
		case stage == "go":
			if p.Get("closed", nil) != "" {
				r.fail(p, "announced", pos, "goes on after having announced its end")
				return
			}
			if p.Get("told", nil) != "" {
				r.fail(p, "goes-on", pos, "goes on after having been stopped")
				return
			}
			var sig, conf, recv bool
			for _, s := range ev.Sel {
				if s.Send {
					continue
				}
				sig = sig || r.signal(s.Chan)
				conf = conf || r.fromConf(s.Chan)
				recv = recv || unconv(s.Chan) == r.recvChan
			}
			switch {
			case !sig:
				r.fail(p, "deaf", pos, "waits without being woken up by Stop")
			case !conf:
				r.fail(p, "deaf-context", pos, "waits without being woken up when the context ends")
			case !recv:
				r.fail(p, "deaf-records", pos, "waits without listening for records")
			default:
				r.R.Obl("a waiting subscription wakes up when stopped", r.name+" "+r.P.Pos(pos))
			}
		}
	case EvRecv:
		if stage == "go" && (r.signal(ev.Addr) || r.fromConf(ev.Addr)) {
			p.Set("told", nil, "1")
		}
	}
}

func (r *endRule) run() {
	for _, op := range []string{"Receiver", "Done", "Stop", "Start", "StartFrom"} {
		r.op = op
		e := NewEngine(r.P, r)
		r.name = FnName(r.root)
		if m := r.P.Method(r.typ, op); m != nil {
			r.name = FnName(m)
		}
		e.RunRoot(r.root, func(p *Path, params []*Val) { r.conf = params[0] })
		r.R.Engine(e, r.name)
	}
}

// waitRule judges those who wait on behalf of a subscription: they must wake up when it ends.
type waitRule struct {
	Base
	P    *Prog
	R    *Report
	name string
	root *ssa.Function
	news map[*ssa.Function]bool
	subs *pairRule
	shut string // "": a handler; else the field of a broadcaster that a Stop method must close
	bad  bool
}

func (r *waitRule) Inline(p *Path, c *Call) bool { return !r.news[c.Fn] && !r.subs.isSubMethod(c) }

func (r *waitRule) SelectCase(p *Path, ev *Ev, i int) bool { return true }

func (r *waitRule) Model(p *Path, c *Call) []Outcome {
	if r.subs.isSubMethod(c) && in(c.Fn.Name(), "Start", "StartFrom") {
		return errFork(nil, nil)
	}
	if r.subs.isSubMethod(c) && c.Fn.Name() == "Done" {
		return []Outcome{{Opaque: true}}
	}
	if failing(r.P, c) {
		return errFork(nil, nil)
	}
	return nil
}

func (r *waitRule) fail(p *Path, key string, pos token.Pos, msg string) {
	if !pos.IsValid() {
		pos = r.root.Pos()
	}
	r.R.Fail(key+":"+r.name, pos, r.name+": "+msg, p)
	p.dead = true
}

func (r *waitRule) Event(p *Path, ev *Ev) {
	pos := token.NoPos
	if ev.Instr != nil {
		pos = ev.Instr.Pos()
	}
	switch ev.K {
	case EvCall:
		c := ev.Call
		if r.news[c.Fn] && len(c.Args) == 1 {
			p.SetV("conf", nil, "1", c.Args[0])
			// what ends together with the subscription
			if f := p.FieldOf(c.Args[0], "Unsubscribe"); f != nil && f.K == KClosure && f.Fn != nil && len(f.Fn.Params) == 1 {
				arg := p.E.T.mk(Val{K: KBuiltin, Op: "argument of Unsubscribe", T: f.Fn.Params[0].Type()})
				r.bad = false
				closes := map[*Val]bool{}
				n := 0
				q := &closeScan{closes: closes, paths: &n}
				r.scan(p, &Call{Instr: c.Instr, Fn: f.Fn, FV: f, Args: []*Val{arg}}, q)
				for v, every := range closes {
					if every {
						p.Set("ends", v, "1")
					}
				}
			}
			return
		}
		if r.subs.isSubMethod(c) && in(c.Fn.Name(), "Start", "StartFrom") {
			p.SetV("sub", nil, "1", c.Args[0])
			return
		}
		if p.GetV("sub", nil) != nil && c.M != nil && in(c.M.Name(), "ReadMessage", "NextReader", "ReadJSON") && len(c.Args) > 0 {
			if p.Get("ends", unconv(c.Args[0])) == "" {
				r.fail(p, "waits", pos, "waits for the client without being woken up when the subscription ends")
				return
			}
			r.R.Obl("who waits wakes up when the subscription ends", r.name+" "+r.P.Pos(pos))
		}
	case EvSelect:
		sub := p.GetV("sub", nil)
		if sub == nil || !ev.Block {
			return
		}
		for _, s := range ev.Sel {
			ch := unconv(s.Chan)
			if !s.Send && ch.K == KCall && ch.Fn != nil && ch.Fn.Name() == "Done" && len(ch.Args) > 0 && unconv(ch.Args[0]) == unconv(sub) {
				r.R.Obl("who waits wakes up when the subscription ends", r.name+" "+r.P.Pos(pos))
				return
			}
		}
		r.fail(p, "waits", pos, "waits without being woken up when the subscription ends")
	}
}

// closeScan collects what a function closes on every path.
type closeScan struct {
	Base
	closes map[*Val]bool
	paths  *int
}

func (s *closeScan) Inline(p *Path, c *Call) bool { return true }

func (s *closeScan) SelectCase(p *Path, ev *Ev, i int) bool { return true }

func (s *closeScan) Event(p *Path, ev *Ev) {
	switch ev.K {
	case EvCall:
		if c := ev.Call; c.M != nil && c.M.Name() == "Close" && len(c.Args) == 1 {
			p.Set("closes", unconv(c.Args[0]), "1")
		}
	case EvExit:
		*s.paths++
		for v := range s.closes {
			if p.Get("closes", v) == "" {
				s.closes[v] = false
			}
		}
		p.Each("closes", func(k *Val, x RV) {
			if _, ok := s.closes[k]; !ok {
				s.closes[k] = *s.paths == 1
			}
		})
	}
}

// scan explores a function value from here under another rule.
func (r *waitRule) scan(p *Path, c *Call, rule *closeScan) {
	q := p.clone()
	parent := p.top().frame
	e := NewEngine(r.P, rule)
	q.E = e
	q.acts = nil
	q.RS = map[RK]RV{}
	for _, a := range c.Args {
		q.SetNil(a, false)
	}
	q.push(e.T.Frame(parent, c.Instr, c.Fn), c.Args, c.FV.Args)
	q.top().tag = "go"
	q.top().call = c
	e.Run(q)
	r.R.Engine(e, FnName(c.Fn))
}

// shutRule: the Stop method of a server closes its broadcaster.
type shutRule struct {
	Base
	P    *Prog
	R    *Report
	name string
	root *ssa.Function
	self *Val
}

func (r *shutRule) Inline(p *Path, c *Call) bool { return true }

func (r *shutRule) SelectCase(p *Path, ev *Ev, i int) bool { return true }

func (r *shutRule) Model(p *Path, c *Call) []Outcome {
	if failing(r.P, c) {
		return errFork(nil, nil)
	}
	return nil
}

func (r *shutRule) Event(p *Path, ev *Ev) {
	switch ev.K {
	case EvCall:
		if c := ev.Call; c.M != nil && c.M.Name() == "Close" && len(c.Args) == 1 && isBroadcaster(r.P, c.Args[0].T) {
			if b, _ := fieldRead(c.Args[0]); b == r.self {
				p.Set("closed", nil, "1")
			}
		}
	case EvExit:
		if p.Get("closed", nil) == "" {
			r.R.Fail("shutdown:"+r.name, ev.Instr.Pos(), r.name+": the server stops without closing its broadcaster", p)
			return
		}
		r.R.Obl("a server that stops closes its broadcaster", r.name)
	}
}

func isBroadcaster(P *Prog, t types.Type) bool {
	it := P.Iface("pkg/broadcast", "Broadcaster")
	return it != nil && t != nil && types.Implements(t, it)
}

func endings(P *Prog, R *Report) {
	news := map[*ssa.Function]bool{}
	for _, f := range subNew(P) {
		news[f] = true
		n := namedOf(derefT(f.Signature.Results().At(0).Type()))
		if n == nil {
			R.Fail("constructor:"+FnName(f), f.Pos(), FnName(f)+" does not return a subscription of a known type", nil)
			continue
		}
		(&endRule{P: P, R: R, root: f, typ: n}).run()
	}
	callers := staticCallers(P)
	done := map[*ssa.Function]bool{}
	for f := range news {
		for _, g := range callers[f] {
			for _, h := range climb(g, callers) {
				if !IsTestSupport(pkgOf(h).Path()) && !isExample(h) {
					done[h] = true
				}
			}
		}
	}
	for _, f := range P.Funcs {
		if !done[f] {
			continue
		}
		r := &waitRule{P: P, R: R, root: f, name: FnName(f), news: news, subs: &pairRule{P: P, R: R, news: news}}
		e := NewEngine(P, r)
		e.RunRoot(f, func(p *Path, params []*Val) {
			for _, a := range params {
				if _, ok := a.T.Underlying().(*types.Pointer); ok {
					p.SetNil(a, false)
				}
			}
		})
		R.Engine(e, r.name)
	}
	// servers
	for _, f := range P.Funcs {
		if f.Name() != "Stop" || f.Signature.Recv() == nil || f.Parent() != nil || f.Synthetic != "" || pkgOf(f) == nil || IsTestSupport(pkgOf(f).Path()) || isExample(f) {
			continue
		}
		n := namedOf(derefT(f.Signature.Recv().Type()))
		st := structOf(f.Signature.Recv().Type())
		if n == nil || st == nil || !serves(P, n) {
			continue
		}
		has := false
		for i := 0; i < st.NumFields(); i++ {
			has = has || isBroadcaster(P, st.Field(i).Type())
		}
		if !has {
			continue
		}
		r := &shutRule{P: P, R: R, root: f, name: FnName(f)}
		e := NewEngine(P, r)
		e.OnceFirst = true
		e.RunRoot(f, func(p *Path, params []*Val) { r.self = params[0]; p.SetNil(r.self, false) })
		R.Engine(e, r.name)
	}
	R.Need("a subscription that ends says so", 1)
	R.Need("stopping does not wait", 1)
	R.Need("a waiting subscription wakes up when stopped", 1)
	R.Need("who waits wakes up when the subscription ends", 4)
	R.Need("a server that stops closes its broadcaster", 2)
}

// serves: a gRPC server or an HTTP handler.
func serves(P *Prog, n *types.Named) bool {
	for _, g := range grpcServers(P) {
		if g == n {
			return true
		}
	}
	return P.Method(n, "ServeHTTP") != nil
}
