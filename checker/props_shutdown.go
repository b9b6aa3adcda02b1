package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C26: orderly shutdown of server processes.
//
// Rule state: sub (a constructed part with a stopping method: "running"/"stopped"), store (an opened store with a
// closing method: "open"/"closed"), srv (a listener's server: "serving"/"stopped"), notify (interrupts are delivered to
// this channel), signal (the interrupt arrived)

const (
	ruleCloseStore = "the store is closed on every way out after the interrupt"
	ruleStopFirst  = "what serves requests is stopped before the store is closed"
	ruleOrderly    = "an orderly stop of a listener does not end the process"
	ruleInterrupt  = "the interrupt is awaited"
	ruleCloses     = "closing a store closes what it holds"
)

func init() {
	register("C26", "Every path of each server program's main function (its own helpers inlined) is explored from start to return: an interrupt is asked for and awaited; afterwards every part that serves requests (gRPC server, HTTP server, and every constructed part with a stopping method) is stopped before the store's closing method is called, which is called on every path, and nothing ends the process before. Every goroutine that serves a listener is explored with the errors an orderly stop gives, none of which may end the process. Every store's closing method closes its database on every path.",
		[]string{"grpc.Server.Stop and http.Server.Shutdown return", "failures during start-up, before the interrupt is awaited, may end the process"},
		func(P *Prog, R *Report) {
			n := 0
			for _, f := range P.Funcs {
				if f.Name() != "main" || f.Parent() != nil || pkgOf(f).Name() != "main" || isExample(f) {
					continue
				}
				if !servesListener(P, f) {
					continue
				}
				n++
				r := &shutdownRule{P: P, R: R, root: f, name: FnName(f), gos: map[*ssa.Function]bool{}, closers: closingMethods(P)}
				e := NewEngine(P, r)
				e.RunRoot(f, nil)
				R.Engine(e, r.name)
				R.Item("server programs", r.name)
			}
			storeClosers(P, R)
			R.Need(ruleCloseStore, 1)
			R.Need(ruleStopFirst, 3)
			R.Need(ruleOrderly, 2)
			R.Need(ruleInterrupt, 1)
			R.Need(ruleCloses, 2)
		})
}

// serveCall: serving a listener until stopped; returns the server.
func serveCall(c *Call) (kind string) {
	switch c.Name() {
	case "(*google.golang.org/grpc.Server).Serve":
		return "grpc"
	case "(*net/http.Server).Serve", "(*net/http.Server).ListenAndServe", "(*net/http.Server).ServeTLS", "(*net/http.Server).ListenAndServeTLS":
		return "http"
	}
	return ""
}

// libVar is a package-level variable of a library (an error value).
func (P *Prog) libVar(pkg, name string) *Val {
	sp := P.SSA.ImportedPackage(pkg)
	if sp == nil || sp.Var(name) == nil {
		return nil
	}
	g := sp.Var(name)
	return P.T.mk(Val{K: KGVal, Site: g, T: g.Type().(*types.Pointer).Elem()})
}

func servesListener(P *Prog, f *ssa.Function) bool {
	for g := range staticReach(P, []*ssa.Function{f}) {
		for _, b := range g.Blocks {
			for _, ins := range b.Instrs {
				if ci, ok := ins.(ssa.CallInstruction); ok {
					if h := ci.Common().StaticCallee(); h != nil && in(h.String(), "(*google.golang.org/grpc.Server).Serve", "(*net/http.Server).Serve", "(*net/http.Server).ListenAndServe") {
						return true
					}
				}
			}
		}
	}
	return false
}

// releasesDB: a library call that closes a database or its client.
func releasesDB(name string) bool {
	return in(name, "(*github.com/syndtr/goleveldb/leveldb.DB).Close", "(*database/sql.DB).Close", "(*google.golang.org/grpc.ClientConn).Close") || strings.HasSuffix(name, "esdb.Client).Close")
}

// closingMethods: for each store, the exported methods without parameters that reach the closing of its database.
func closingMethods(P *Prog) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for _, n := range P.Implementers(P.Iface("", "Store")) {
		if IsTestSupport(n.Obj().Pkg().Path()) {
			continue
		}
		for _, m := range P.ExportedMethods(n) {
			if m.Signature.Params().Len() != 0 {
				continue
			}
			for g := range staticReach(P, []*ssa.Function{m}) {
				for _, b := range g.Blocks {
					for _, ins := range b.Instrs {
						if ci, ok := ins.(ssa.CallInstruction); ok {
							if h := ci.Common().StaticCallee(); h != nil && releasesDB(h.String()) {
								out[m] = true
							}
						}
					}
				}
			}
		}
	}
	return out
}

type shutdownRule struct {
	Base
	P       *Prog
	R       *Report
	root    *ssa.Function
	name    string
	gos     map[*ssa.Function]bool
	closers map[*ssa.Function]bool
}

func (r *shutdownRule) fail(key string, p *Path, pos token.Pos, msg string) {
	if !pos.IsValid() {
		pos = r.root.Pos()
	}
	r.R.Fail(key+":"+r.name, pos, r.name+": "+msg, p)
}

func (r *shutdownRule) Inline(p *Path, c *Call) bool {
	return c.Fn != nil && pkgOf(c.Fn) == pkgOf(r.root)
}

// stopName: a method that ends what an object does.
func stopName(s string) bool { return in(s, "Stop", "Close", "Shutdown", "GracefulStop", "CloseDB") }

// stoppable: an object of the repository with a stopping method.
func (r *shutdownRule) stoppable(t types.Type) bool {
	n := namedOf(t)
	if n == nil || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
		return false
	}
	for _, m := range r.P.ExportedMethods(n) {
		if stopName(m.Name()) {
			return true
		}
	}
	return false
}

func (r *shutdownRule) isStore(t types.Type) bool {
	it := r.P.Iface("", "Store")
	return it != nil && t != nil && (types.Implements(t, it) || types.Implements(types.NewPointer(t), it))
}

func (r *shutdownRule) closable(t types.Type) bool {
	n := namedOf(t)
	if n == nil {
		return false
	}
	for _, m := range r.P.ExportedMethods(n) {
		if r.closers[m] {
			return true
		}
	}
	return false
}

func (r *shutdownRule) Model(p *Path, c *Call) []Outcome {
	switch c.Name() {
	case "log.Fatal", "log.Fatalf", "log.Fatalln", "os.Exit", "(*log.Logger).Fatal", "(*log.Logger).Fatalf", "(*log.Logger).Fatalln", "log.Panic", "log.Panicf":
		r.exits(p, c)
		return []Outcome{{Apply: func(q *Path) bool { return false }}}
	}
	if k := serveCall(c); k != "" {
		sentinel := r.P.libVar("net/http", "ErrServerClosed")
		if k == "grpc" {
			sentinel = r.P.libVar("google.golang.org/grpc", "ErrServerStopped")
		}
		out := []Outcome{{Opaque: true, After: func(q *Path, res *Val) bool {
			q.SetV("served", nil, k, res)
			if sentinel == nil || !q.SetNil(res, false) {
				return false
			}
			q.Note(c.Instr.Pos(), "stopped in order: "+k+" says "+sentinel.String())
			return q.Assume(q.E.T.Eq(res, sentinel), true)
		}}}
		if k == "grpc" {
			out = append(out, Outcome{Opaque: true, After: func(q *Path, res *Val) bool {
				q.SetV("served", nil, k, res)
				q.Note(c.Instr.Pos(), "stopped in order, without an error")
				return q.SetNil(res, true)
			}})
		}
		return out
	}
	if c.Fn != nil && r.P.InRepo(c.Fn) && c.Fn.Signature.Recv() == nil && pkgOf(c.Fn) != pkgOf(r.root) {
		// a constructor of the repository
		return r.construct(c)
	}
	if c.Fn != nil && r.P.InRepo(c.Fn) && c.Fn.Signature.Recv() != nil && hasErr(c) {
		return errFork(nil, nil)
	}
	if hasErr(c) && (c.Fn == nil || !r.P.InRepo(c.Fn)) {
		return errFork(nil, nil)
	}
	return nil
}

func (r *shutdownRule) construct(c *Call) []Outcome {
	made := func(q *Path, res *Val) {
		sig := c.Fn.Signature.Results()
		for i := 0; i < sig.Len(); i++ {
			t := sig.At(i).Type()
			v := res
			if sig.Len() > 1 {
				v = q.ResOf(res, i)
			}
			switch {
			case r.isStore(t):
				if r.closable(t) {
					q.Set("store", v, "open")
				}
			case r.stoppable(t):
				q.Set("sub", v, "running")
			}
		}
	}
	if hasErr(c) {
		return errFork(made, nil)
	}
	return []Outcome{{Opaque: true, After: func(q *Path, res *Val) bool { made(q, res); return true }}}
}

// exits: the process ends here.
func (r *shutdownRule) exits(p *Path, c *Call) {
	if p.Get("inGo", nil) != "" {
		if k := p.Get("served", nil); k != "" {
			r.fail("orderly-stop-fatal:"+k, p, c.Instr.Pos(), "an orderly stop of the "+k+" server ends the process, perhaps before the store is closed")
		}
		return
	}
	if p.Get("signal", nil) == "" {
		return // starting up
	}
	p.Each("store", func(k *Val, x RV) {
		if x.S == "open" {
			r.fail("ends-open", p, c.Instr.Pos(), "the process ends after the interrupt with the store open")
		}
	})
}

func (r *shutdownRule) SelectCase(p *Path, ev *Ev, i int) bool { return true }

func (r *shutdownRule) Event(p *Path, ev *Ev) {
	pos := token.NoPos
	if ev.Instr != nil {
		pos = ev.Instr.Pos()
	}
	switch ev.K {
	case EvGo:
		if ev.Call.Fn != nil {
			r.spawn(p, ev.Call, pos)
		}
	case EvRecv:
		r.await(p, ev.Addr, pos)
	case EvCase:
		if ev.Addr != nil {
			r.await(p, ev.Addr, pos)
		} else if ev.N >= 0 && ev.N < len(ev.Sel) && !ev.Sel[ev.N].Send {
			r.await(p, ev.Sel[ev.N].Chan, pos)
		}
	case EvCall:
		r.call(p, ev, pos)
	case EvExit:
		if p.Get("inGo", nil) != "" || p.Get("signal", nil) == "" && !r.serving(p) {
			return
		}
		r.R.Obl(ruleCloseStore, r.name)
		p.Each("store", func(k *Val, x RV) {
			if x.S == "open" {
				r.fail("not-closed", p, pos, "returns with the store open")
			}
		})
	}
}

func (r *shutdownRule) serving(p *Path) bool {
	n := false
	p.Each("srv", func(*Val, RV) { n = true })
	return n
}

// await: something was received from a channel.
func (r *shutdownRule) await(p *Path, ch *Val, pos token.Pos) {
	if p.Get("inGo", nil) != "" {
		return
	}
	if ch != nil && (p.Get("notify", unwrap(ch)) != "" || isNotifyCtx(ch)) && p.Get("signal", nil) == "" {
		r.R.Obl(ruleInterrupt, r.name)
		p.Set("signal", nil, "1")
	}
}

// isDone: the Done channel of a context made by signal.NotifyContext.
func isNotifyCtx(v *Val) bool {
	return v.Any(func(x *Val) bool { return x.K == KCall && x.FullName() == "os/signal.NotifyContext" })
}

func (r *shutdownRule) spawn(p *Path, c *Call, pos token.Pos) {
	// is it a listener's goroutine?
	serves := false
	for g := range staticReach(r.P, []*ssa.Function{c.Fn}) {
		for _, b := range g.Blocks {
			for _, ins := range b.Instrs {
				if ci, ok := ins.(ssa.CallInstruction); ok {
					if h := ci.Common().StaticCallee(); h != nil && serveCall(&Call{M: objOf(h)}) != "" {
						serves = true
					}
				}
			}
		}
	}
	if !serves && pkgOf(c.Fn) != pkgOf(r.root) && serveCall(c) == "" {
		return
	}
	if p.Get("signal", nil) != "" {
		return
	}
	rs := map[RK]RV{{"inGo", nil}: {S: "1"}}
	if k := serveCall(c); k != "" {
		// go server.Serve(listener): its error is dropped
		if recv, _ := r.receiver(p, c); recv != nil {
			p.Set("srv", recv, k)
		}
		r.R.Obl(ruleOrderly, r.P.Pos(pos))
		return
	}
	// which server it serves: a server among its arguments or captured variables
	r.R.Obl(ruleOrderly, FnName(c.Fn))
	for _, a := range append(append([]*Val{}, c.Args...), bindingsOf(p, c)...) {
		if a == nil || a.T == nil {
			continue
		}
		switch types.TypeString(a.T, nil) {
		case "*google.golang.org/grpc.Server":
			p.Set("srv", a, "grpc")
		case "*net/http.Server":
			p.Set("srv", a, "http")
		}
	}
	p.E.RunGo(p, c, rs)
}

// bindingsOf: what variables captured by a function value hold.
func bindingsOf(p *Path, c *Call) []*Val {
	var out []*Val
	if c.FV == nil {
		return nil
	}
	for _, b := range c.FV.Args {
		if b == nil {
			continue
		}
		out = append(out, b)
		if w, ok := p.mem[b]; ok {
			out = append(out, w)
		}
	}
	return out
}

func objOf(f *ssa.Function) *types.Func {
	o, _ := f.Object().(*types.Func)
	return o
}

func (r *shutdownRule) call(p *Path, ev *Ev, pos token.Pos) {
	if p.Get("inGo", nil) != "" {
		return
	}
	c := ev.Call
	recv, name := r.receiver(p, c)
	full := c.Name()
	if recv != nil && full == "" || len(c.Args) == 0 && recv != nil {
		full = "(" + types.TypeString(recv.T, nil) + ")." + name
	}
	switch full {
	case "os/signal.Notify":
		if len(c.Args) >= 2 && r.interrupts(p, c) {
			if ch := unwrap(c.Args[0]); ch.K == KMake && ch.Op == "chan" && len(ch.Args) > 0 && isInt(ch.Args[0], 0) {
				r.fail("notify-unbuffered", p, pos, "an interrupt that arrives while nobody receives is lost: the channel has no room for it")
			}
			p.Set("notify", unwrap(c.Args[0]), "1")
		}
		return
	case "(*google.golang.org/grpc.Server).GracefulStop":
		p.Each("sub", func(k *Val, x RV) {
			if x.S == "running" && r.feedsGRPC(k) {
				r.fail("graceful-before-feeds", p, pos, "waits for the gRPC calls to end although live feeds are still running")
			}
		})
		p.Set("srv", recv, "stopped")
		return
	case "(*google.golang.org/grpc.Server).Stop", "(*net/http.Server).Shutdown", "(*net/http.Server).Close":
		if p.Get("srv", recv) != "" {
			p.Set("srv", recv, "stopped")
		} else {
			p.Each("srv", func(k *Val, x RV) {
				if same(k, recv) {
					p.Set("srv", k, "stopped")
				}
			})
		}
		return
	}
	if recv == nil || !stopName(name) {
		return
	}
	if p.Get("sub", recv) == "running" {
		p.Set("sub", recv, "stopped")
		return
	}
	if p.Get("store", recv) != "open" {
		return
	}
	// the store is closed
	fn := c.Fn
	if fn != nil && fn.Object() != nil && !r.closers[fn] {
		for m := range r.closers {
			if m.Object() == fn.Object() {
				fn = m
			}
		}
	}
	if fn != nil && !r.closers[fn] {
		return
	}
	p.Set("store", recv, "closed")
	p.Each("srv", func(k *Val, x RV) {
		r.R.Obl(ruleStopFirst, r.name+" "+types.TypeString(k.T, nil))
		if x.S != "stopped" {
			r.fail("closed-while-serving:"+x.S, p, pos, "the store is closed while the "+x.S+" server is serving")
		}
	})
	p.Each("sub", func(k *Val, x RV) {
		t := types.TypeString(k.T, nil)
		t = t[strings.LastIndex(t, "/")+1:]
		r.R.Obl(ruleStopFirst, r.name+" "+t)
		if x.S == "running" {
			r.fail("closed-while-running:"+t, p, pos, "the store is closed while "+t+" is running")
		}
	})
	if r.serving(p) && p.Get("signal", nil) == "" {
		r.fail("closed-early", p, pos, "the store is closed without an interrupt having been awaited")
	}
}

// same: two names of one value.
func same(a, b *Val) bool { return a == b }

// receiver: the object a stopping method is called on, also through a method value.
func (r *shutdownRule) receiver(p *Path, c *Call) (*Val, string) {
	if c.Fn != nil && len(c.Fn.FreeVars) == 1 && strings.HasSuffix(c.Fn.Name(), "$bound") {
		if c.FV != nil && len(c.FV.Args) > 0 {
			return c.FV.Args[0], strings.TrimSuffix(c.Fn.Name(), "$bound")
		}
	}
	if c.Fn != nil && c.Fn.Signature.Recv() != nil && len(c.Args) > 0 {
		return c.Args[0], c.Fn.Name()
	}
	if c.Fn == nil && c.M == nil && c.FV != nil && c.FV.K == KClosure {
		if f, ok := c.FV.Site.(*ssa.Function); ok && strings.HasSuffix(f.Name(), "$bound") && len(c.FV.Args) > 0 {
			return c.FV.Args[0], strings.TrimSuffix(f.Name(), "$bound")
		}
	}
	if c.M != nil && len(c.Args) > 0 && c.M.Type().(*types.Signature).Recv() != nil {
		return unwrap(c.Args[0]), c.M.Name()
	}
	return nil, ""
}

// feedsGRPC: the part is a gRPC service.
func (r *shutdownRule) feedsGRPC(v *Val) bool {
	n := namedOf(v.T)
	for _, g := range grpcServers(r.P) {
		if g == n {
			return true
		}
	}
	return false
}

// interrupts: os.Interrupt (or every signal) is asked for.
func (r *shutdownRule) interrupts(p *Path, c *Call) bool {
	x := p.XArgs(c)
	l := x[len(x)-1]
	if l.K == KNil {
		return true
	}
	els := []*Val{l}
	if l.K == KTuple {
		els = l.Args
	}
	if len(els) == 0 {
		return true
	}
	for _, e := range els {
		if e.Any(func(y *Val) bool {
			if y.K == KConst && y.C.Kind() == constant.Int {
				n, _ := constant.Int64Val(y.C)
				return n == 2
			}
			g, ok := y.Site.(*ssa.Global)
			return ok && y.K == KGVal && g.Name() == "Interrupt" && g.Pkg.Pkg.Path() == "os"
		}) {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- the stores' closing methods

type closeRule struct {
	Base
	P    *Prog
	R    *Report
	name string
	pos  token.Pos
}

func (r *closeRule) Model(p *Path, c *Call) []Outcome {
	if releasesDB(c.Name()) {
		p.Set("closed", nil, "1")
		return errFork(nil, nil)
	}
	if failing(r.P, c) || hasErr(c) && !r.P.InRepo(c.Fn) {
		return errFork(nil, nil)
	}
	return nil
}

func (r *closeRule) Event(p *Path, ev *Ev) {
	if ev.K == EvExit && p.Get("closed", nil) == "" {
		r.R.Fail("left-open:"+r.name, r.pos, r.name+": returns without having closed the database", p)
	}
}

func storeClosers(P *Prog, R *Report) {
	for m := range closingMethods(P) {
		R.Obl(ruleCloses, FnName(m))
		r := &closeRule{P: P, R: R, name: FnName(m), pos: m.Pos()}
		e := NewEngine(P, r)
		e.OnceFirst = true
		e.RunRoot(m, func(p *Path, pa []*Val) { p.SetNil(pa[0], false) })
		R.Engine(e, r.name)
	}
	// every store that opens a database can be closed
	for _, n := range P.Implementers(P.Iface("", "Store")) {
		if IsTestSupport(n.Obj().Pkg().Path()) {
			continue
		}
		st := structOf(n)
		if st == nil {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			t := types.TypeString(st.Field(i).Type(), nil)
			if !in(t, "*github.com/syndtr/goleveldb/leveldb.DB", "*database/sql.DB") {
				continue
			}
			ok := false
			for m := range closingMethods(P) {
				if namedOf(m.Signature.Recv().Type()) == n {
					ok = true
				}
			}
			R.Obl(ruleCloses, n.Obj().Name())
			if !ok {
				R.Fail("no-close:"+n.Obj().Name(), n.Obj().Pos(), n.Obj().Name()+" holds a database but has no method that closes it", nil)
			}
		}
	}
}
