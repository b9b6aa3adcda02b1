package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Resources (C27): what a function obtains and has to be released is released on every path, handed to an
// owner that releases it, and not used afterwards.
//
// Rule state: res: handle -> "open|kind" or "rel|kind" (V: the cancel function of a context)
type releaseRule struct {
	Base
	P      *Prog
	R      *Report
	root   *ssa.Function
	owned  map[string]ownedAt // owner fields that took a resource
	ret    map[*ssa.Function]bool
	where  map[*Val]token.Pos
	inside map[*Val]*ssa.Function
}

type ownedAt struct {
	st   *types.Named
	i    int
	kind string
	pos  token.Pos
}

const (
	ruleReleased = "what is obtained is released on every path or handed over"
	ruleOwners   = "an owner releases what it was handed"
)

var resKinds = []struct{ pkg, name, kind string }{
	{pkgLDBIter, "Iterator", "storage iterator"},
	{"database/sql", "Rows", "SQL result set"},
	{"net/http", "Response", "HTTP response"},
	{"os", "File", "file"},
	{"net", "Listener", "network listener"},
	{"net", "Conn", "network connection"},
	{"net", "TCPListener", "network listener"},
	{"net", "TCPConn", "network connection"},
	{"crypto/tls", "Conn", "network connection"},
	{"google.golang.org/grpc", "ClientConn", "gRPC connection"},
	{"github.com/gorilla/websocket", "Conn", "websocket connection"},
	{"github.com/lib/pq", "Listener", "notification listener"},
	{"database/sql", "DB", "database handle"},
	{"database/sql", "Stmt", "prepared statement"},
	{"github.com/syndtr/goleveldb/leveldb", "DB", "LevelDB database"},
}

func resKind(t types.Type) string {
	n := namedOf(t)
	if n == nil || n.Obj().Pkg() == nil {
		return ""
	}
	for _, k := range resKinds {
		if n.Obj().Name() == k.name && n.Obj().Pkg().Path() == k.pkg {
			return k.kind
		}
	}
	return ""
}

// ctxMaker: context.WithCancel and its kin.
func ctxMaker(c *Call) bool {
	pkg, name := c.callee()
	return pkg == "context" && in(name, "WithCancel", "WithTimeout", "WithDeadline", "WithCancelCause", "WithTimeoutCause", "WithDeadlineCause") ||
		pkg == "os/signal" && name == "NotifyContext"
}

// acquires: the call obtains a resource: its kind and the index of the result.
func acquires(P *Prog, c *Call) (string, int) {
	if ctxMaker(c) {
		return "derived context", 0
	}
	if c.Bltn != "" || c.Fn != nil && P.InRepo(c.Fn) && len(c.Fn.Blocks) > 0 || c.Common == nil {
		return "", 0
	}
	sig := c.Common.Signature()
	if sig == nil {
		return "", 0
	}
	kind, i := "", 0
	for j := 0; j < sig.Results().Len(); j++ {
		k := resKind(sig.Results().At(j).Type())
		if k != "" && (kind == "" || kind == "HTTP response") {
			// a response that comes with a connection belongs to it
			kind, i = k, j
		} else if k == "HTTP response" {
			continue
		}
	}
	if kind == "" {
		return "", 0
	}
	if c.M != nil {
		if n := recvNamed(c.M); n != nil && strings.HasSuffix(resKind(n), " connection") && strings.HasSuffix(kind, " connection") {
			return "", 0 // a view of a resource
		}
	}
	return kind, i
}

func (r *releaseRule) fail(key string, p *Path, pos token.Pos, msg string) {
	r.R.Fail(key, pos, msg, p)
}

func (r *releaseRule) acquired(q *Path, c *Call, res *Val, kind string, i int) {
	v := res
	if c.Common.Signature().Results().Len() > 1 {
		v = q.ResOf(res, i)
	}
	if v == nil {
		return
	}
	fn := c.Instr.Parent()
	r.R.Obl(ruleReleased, kind+" at "+r.P.Pos(c.Instr.Pos()))
	q.SetNil(v, false)
	r.where[v], r.inside[v] = c.Instr.Pos(), fn
	if kind == "derived context" {
		q.SetV("res", v, "open|"+kind, q.ResOf(res, 1))
		return
	}
	q.Set("res", v, "open|"+kind)
	if strings.HasSuffix(c.Name(), "iterator.NewMergedIterator") || strings.HasSuffix(c.Name(), "iterator.NewIndexedIterator") {
		// takes the listed iterators over
		q.DelAll("listed")
		q.Each("res", func(k *Val, x RV) {
			if k != v && x.S == "open|"+kind {
				for _, a := range q.XArgs(c) {
					if a.Any(func(y *Val) bool { return y == k }) {
						q.Del("res", k)
					}
				}
			}
		})
	}
}

func (r *releaseRule) Model(p *Path, c *Call) []Outcome {
	switch c.Name() {
	case "log.Fatal", "log.Fatalf", "log.Fatalln", "os.Exit", "log.Panic", "log.Panicf", "log.Panicln", "(*log.Logger).Fatal", "(*log.Logger).Fatalf", "runtime.Goexit":
		return []Outcome{{Apply: func(q *Path) bool { return false }}}
	}
	if o := pureEvent(p, c); o != nil {
		return o
	}
	if kind, i := acquires(r.P, c); kind != "" {
		if hasErr(c) {
			return errFork(func(q *Path, res *Val) { r.acquired(q, c, res, kind, i) }, nil)
		}
		return []Outcome{{Opaque: true, After: func(q *Path, res *Val) bool {
			r.acquired(q, c, res, kind, i)
			return true
		}}}
	}
	if c.M != nil && c.M.Name() == "Next" && len(c.Args) == 1 && recvNamed(c.M) != nil && resKind(recvNamed(c.M)) == "SQL result set" {
		rows := c.Args[0]
		return boolFork(nil, func(q *Path, res *Val) {
			if q.Get("res", rows) == "open|SQL result set" {
				// the end of the rows releases them
				q.Set("res", rows, "end|SQL result set")
			}
		})
	}
	if c.Fn != nil && r.quiet(c.Fn, map[*ssa.Function]bool{}) {
		open := false
		for _, a := range p.XArgs(c) {
			open = open || r.holds(p, a)
		}
		if !open {
			return []Outcome{{Opaque: true}}
		}
	}
	if failing(r.P, c) || hasErr(c) && !(c.Fn != nil && r.P.InRepo(c.Fn)) {
		return errFork(nil, nil)
	}
	return nil
}

// quiet: computing a plain value, the function (or what it calls) neither obtains nor releases anything.
func (r *releaseRule) quiet(f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[f] {
		return true
	}
	seen[f] = true
	if !r.P.InRepo(f) {
		return true
	}
	if len(f.Blocks) == 0 || len(seen) > 30 {
		return false
	}
	if len(seen) == 1 {
		res := f.Signature.Results()
		for i := 0; i < res.Len(); i++ {
			b, ok := res.At(i).Type().Underlying().(*types.Basic)
			if !ok || b.Kind() == types.Bool {
				return false
			}
		}
		if res.Len() == 0 {
			return false
		}
	}
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Go, *ssa.Defer:
				return false
			case *ssa.Call:
				if x.Call.IsInvoke() && releaseName(x.Call.Method.Name()) {
					return false
				}
				sig := x.Call.Signature()
				for i := 0; i < sig.Results().Len(); i++ {
					if resKind(sig.Results().At(i).Type()) != "" {
						return false
					}
				}
				sc := x.Call.StaticCallee()
				if sc == nil {
					if _, ok := x.Call.Value.(*ssa.Builtin); !ok && !x.Call.IsInvoke() {
						return false
					}
					continue
				}
				if o, ok := sc.Object().(*types.Func); ok && (releaseName(o.Name()) || o.Pkg() != nil && o.Pkg().Path() == "context") {
					return false
				}
				if !r.quiet(sc, seen) {
					return false
				}
			}
		}
	}
	return true
}

func (r *releaseRule) SelectCase(p *Path, ev *Ev, i int) bool { return true }

func releaseName(s string) bool { return in(s, "Close", "Release", "CloseNow", "Shutdown") }

// handle: does argument a give access to resource v?
func handle(kind string, v, a *Val) bool {
	if a == v {
		return true
	}
	if kind == "HTTP response" {
		return a != nil && a.Any(func(x *Val) bool {
			b, name := fieldRead(x)
			return name == "Body" && b == v
		})
	}
	return false
}

// handOver: v may now be reached through something else.
func (r *releaseRule) handOver(p *Path, x *Val, why string) {
	if x == nil {
		return
	}
	p.Each("res", func(v *Val, s RV) {
		if !strings.HasPrefix(s.S, "open|") {
			return
		}
		if x == v || x == s.V && s.V != nil || x.Any(func(y *Val) bool {
			return y == v && x.K != KCall && x.K != KLoad && x.K != KField || y == s.V && s.V != nil
		}) || r.reaches(p, x, v, 0) || s.V != nil && r.reaches(p, x, s.V, 0) {
			p.Del("res", v)
		}
	})
}

// reaches: is v stored in an object made here that x refers to?
func (r *releaseRule) reaches(p *Path, x, v *Val, depth int) bool {
	if x == nil || depth > 3 {
		return false
	}
	if x == v {
		return true
	}
	if x.K == KClosure {
		for _, a := range x.Args {
			if r.reaches(p, a, v, depth+1) {
				return true
			}
		}
	}
	if x.K == KTuple {
		for _, a := range x.Args {
			if r.reaches(p, a, v, depth+1) {
				return true
			}
		}
	}
	if x.K == KAlloc || x.K == KMake {
		for a, w := range p.mem {
			if rootOf(a) == x && w != nil && w != x && r.reaches(p, w, v, depth+1) {
				return true
			}
		}
	}
	return false
}

func (r *releaseRule) Event(p *Path, ev *Ev) {
	pos := token.NoPos
	if ev.Instr != nil {
		pos = ev.Instr.Pos()
	}
	switch ev.K {
	case EvStore:
		r.noteOwner(p, ev)
		if !local(ev.Addr) {
			if ro := rootOf(ev.Addr); ro != nil && ro.K == KParam && ev.Addr.K == KFieldAddr && r.holds(p, ev.Val) {
				r.ret[r.root] = true
			}
			r.handOver(p, ev.Val, "stored")
		}
	case EvMapUpdate, EvSend:
		r.handOver(p, ev.Val, "stored")
	case EvAppend:
		for _, e := range ev.Elems {
			p.Each("res", func(v *Val, s RV) {
				if v == e && strings.HasPrefix(s.S, "open|") {
					p.Del("res", v)
					if s.S == "open|storage iterator" {
						p.Set("listed", nil, r.P.Pos(r.where[v]))
					}
				}
			})
		}
	case EvGo:
		r.spawn(p, ev.Call)
	case EvCall:
		r.call(p, ev.Call, pos)
	case EvExit:
		r.exit(p, ev, pos)
	}
}

// holds: does the value give access to an open resource?
func (r *releaseRule) holds(p *Path, x *Val) bool {
	h := false
	p.Each("res", func(v *Val, s RV) {
		if strings.HasPrefix(s.S, "open|") && x != nil && (r.reaches(p, x, v, 0) || s.V != nil && r.reaches(p, x, s.V, 0)) {
			h = true
		}
	})
	return h
}

// noteOwner remembers the fields resources are kept in.
func (r *releaseRule) noteOwner(p *Path, ev *Ev) {
	if ev.Addr.K != KFieldAddr || ev.Val == nil {
		return
	}
	st := namedOf(ev.Addr.Args[0].T)
	if st == nil || st.Obj().Pkg() == nil || !strings.HasPrefix(st.Obj().Pkg().Path(), modPath) {
		return
	}
	s, ok := st.Underlying().(*types.Struct)
	if !ok {
		return
	}
	p.Each("res", func(v *Val, x RV) {
		if v != ev.Val && (x.V == nil || x.V != ev.Val) || !strings.HasPrefix(x.S, "open|") {
			return
		}
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == ev.Addr.Op {
				kind := strings.TrimPrefix(x.S, "open|")
				if v == ev.Val && x.V != nil {
					return // the context itself, not what ends it
				}
				if types.IsInterface(s.Field(i).Type()) && !canRelease(s.Field(i).Type()) {
					return // a view
				}
				if x.V != nil {
					p.Del("res", v) // ends with its parent, or by its owner
				} else {
					p.SetV("kept", v, "y", rootOf(ev.Addr))
				}
				r.owned[st.String()+"."+ev.Addr.Op] = ownedAt{st, i, kind, ev.Instr.Pos()}
			}
		}
	})
}

// mayOwn: can the callee release what it is given?
func (r *releaseRule) mayOwn(c *Call, kind string, v *Val) bool {
	sig := c.Common.Signature()
	n := sig.Params().Len()
	off := len(c.Args) - len(c.Common.Args)
	for i, a := range c.Args {
		if !handle(kind, v, a) || i < off {
			continue
		}
		if j := i - off; j >= n || sig.Variadic() && j == n-1 || canRelease(sig.Params().At(j).Type()) {
			return true
		}
	}
	return false
}

func canRelease(t types.Type) bool {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if releaseName(ms.At(i).Obj().Name()) {
			return true
		}
	}
	return false
}

func (r *releaseRule) spawn(p *Path, c *Call) {
	rs := map[RK]RV{}
	p.Each("res", func(v *Val, s RV) {
		if !strings.HasPrefix(s.S, "open|") {
			return
		}
		given := false
		for _, a := range p.XArgs(c) {
			if p.Get("kept", v) == "" && (r.reaches(p, a, v, 0) || s.V != nil && r.reaches(p, a, s.V, 0)) {
				given = true
			}
		}
		if given {
			rs[RK{"res", v}] = RV{S: s.S, V: s.V}
		}
	})
	if len(rs) == 0 {
		return
	}
	if c.Fn == nil || !r.P.InRepo(c.Fn) {
		for k := range rs {
			p.Del("res", k.V)
		}
		return
	}
	// whoever releases it: the goroutine, or the one who started it
	released := map[*Val]bool{}
	for k := range rs {
		if r.goReleases(c.Fn, map[*ssa.Function]bool{}, k.V) {
			released[k.V] = true
		}
	}
	gs := map[RK]RV{}
	for k, s := range rs {
		if released[k.V] {
			gs[k] = s
			p.Del("res", k.V)
		}
	}
	if len(gs) > 0 {
		p.E.RunGo(p, c, gs)
	}
}

// goReleases: does the goroutine's code release something of this type at all?
func (r *releaseRule) goReleases(f *ssa.Function, seen map[*ssa.Function]bool, v *Val) bool {
	if seen[f] || len(f.Blocks) == 0 {
		return false
	}
	seen[f] = true
	kind := ""
	if v.T != nil {
		kind = resKind(v.T)
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			cc := ci.Common()
			if cc.IsInvoke() {
				if releaseName(cc.Method.Name()) {
					return true
				}
				continue
			}
			if sc := cc.StaticCallee(); sc != nil {
				if o, ok := sc.Object().(*types.Func); ok && releaseName(o.Name()) && kind != "" {
					return true
				}
				if sc.Signature.Recv() == nil && strings.HasPrefix(sc.Name(), "Serve") || serveName(sc.Name()) {
					return true
				}
				if r.P.InRepo(sc) && r.goReleases(sc, seen, v) {
					return true
				}
			} else if kind == "" {
				if n := namedOf(cc.Value.Type()); n != nil && n.Obj().Name() == "CancelFunc" {
					return true
				}
			}
		}
	}
	return false
}

func serveName(s string) bool { return in(s, "Serve", "ServeTLS", "ServeConn", "ServeListener") }

func (r *releaseRule) call(p *Path, c *Call, pos token.Pos) {
	name := ""
	if c.M != nil {
		name = c.M.Name()
	} else if c.Fn != nil {
		name = c.Fn.Name()
	}
	inRepo := c.Fn != nil && r.P.InRepo(c.Fn) && len(c.Fn.Blocks) > 0
	var args []*Val
	args = append(args, c.Args...)
	p.Each("res", func(v *Val, s RV) {
		state, kind, _ := strings.Cut(s.S, "|")
		if s.V != nil { // a derived context
			if c.FV == s.V {
				p.SetV("res", v, "rel|"+kind, s.V)
				return
			}
			if state == "rel" && !inRepo && !releaseName(name) {
				for _, a := range args {
					if a == v && !(c.M != nil && len(c.Args) > 0 && c.Args[0] == v) {
						r.fail("use-after:"+kind+":"+FnName(r.inside[v]), p, pos, "a "+kind+" is used after it was cancelled")
					}
				}
			}
			// the function that ends it goes elsewhere
			if state == "open" && !inRepo {
				for _, a := range args {
					if a != nil && a == s.V {
						p.Del("res", v)
					}
				}
			}
			return
		}
		used := false
		for _, a := range p.XArgs(c) {
			if handle(kind, v, a) {
				used = true
			}
			if kind != "HTTP response" && a != nil && a.K == KTuple {
				for _, x := range a.Args {
					if x == v {
						used = true
					}
				}
			}
		}
		if !used {
			return
		}
		recv := len(c.Args) > 0 && handle(kind, v, c.Args[0])
		switch {
		case releaseName(name) && recv && !inRepo:
			p.Set("res", v, "rel|"+kind)
		case state == "rel" && !inRepo && !in(name, "Err", "Error", "Name", "Addr", "String"):
			r.fail("use-after:"+kind+":"+FnName(r.inside[v]), p, pos, "a "+kind+" is used after it was released")
		case serveName(name) && state == "open":
			p.Del("res", v)
		case !inRepo && c.Fn == nil && c.M != nil && c.M.Pkg() != nil && strings.HasPrefix(c.M.Pkg().Path(), modPath) && !recv && r.mayOwn(c, kind, v):
			// given to an unknown part of the repository
			p.Del("res", v)
		}
	})
}

func (r *releaseRule) exit(p *Path, ev *Ev, pos token.Pos) {
	for _, x := range ev.Res_ {
		p.Each("res", func(v *Val, s RV) {
			kept := p.GetV("kept", v)
			if strings.HasPrefix(s.S, "open|") && (kept != nil && x == kept || r.reaches(p, x, v, 0) || s.V != nil && r.reaches(p, x, s.V, 0)) {
				p.Del("res", v)
				if x == v || s.V != nil && x == s.V || p.Get("kept", v) == "" {
					r.ret[r.root] = true
				}
			}
		})
		if l := p.Get("listed", nil); l != "" && x != nil && types.IsInterface(x.T) == false && isSliceT(x.T) {
			p.Del("listed", nil)
		}
	}
	p.Each("res", func(v *Val, s RV) {
		if strings.HasPrefix(s.S, "open|") {
			kind := strings.TrimPrefix(s.S, "open|")
			r.fail("leak:"+kind+":"+FnName(r.inside[v]), p, r.where[v], "the "+kind+" obtained here is not released on a path out of "+FnName(r.root))
		}
	})
	if l := p.Get("listed", nil); l != "" {
		r.fail("leak:listed:"+FnName(r.root), p, pos, "storage iterators collected in a list (made at "+l+") are not released on a path out of "+FnName(r.root))
	}
}

func init() {
	register("C27", "Every function that obtains a storage iterator, result set, response, file, connection, listener or derived context is explored over all its paths, error paths included: released or handed over at each exit, not used afterwards; fields that take one over have a releasing counterpart.", []string{
		"the end of a process releases everything; main functions' fatal exits are not judged",
		"functions are inlined up to 16 deep, loops generalised",
	}, releaseProp)
}

func releaseProp(P *Prog, R *Report) {
	roots := callSites(P, func(f *ssa.Function, c *Call) bool {
		k, _ := acquires(P, c)
		return k != ""
	})
	callers := staticCallers(P)
	owned := map[string]ownedAt{}
	done := map[*ssa.Function]bool{}
	var queue []*ssa.Function
	for _, f := range P.Funcs {
		if roots[f] != nil {
			queue = append(queue, f)
		}
	}
	for len(queue) > 0 {
		f := queue[0]
		queue = queue[1:]
		if done[f] || IsTestSupport(pkgOf(f).Path()) || f.Name() == "main" && pkgOf(f).Name() == "main" {
			continue
		}
		done[f] = true
		R.Item("functions that obtain resources", FnName(f))
		r := &releaseRule{P: P, R: R, root: f, owned: owned, ret: map[*ssa.Function]bool{}, where: map[*Val]token.Pos{}, inside: map[*Val]*ssa.Function{}}
		e := NewEngine(P, r)
		e.RunRoot(f, nil)
		R.Engine(e, "resources of "+FnName(f))
		if r.ret[f] {
			queue = append(queue, callers[f]...)
		}
	}
	for k, o := range owned {
		if in(o.kind, "database handle", "LevelDB database") {
			continue // kept for the life of the process
		}
		R.Obl(ruleOwners, k)
		if !ownerReleases(P, o) {
			R.Fail("owner:"+k, o.pos, "a "+o.kind+" is kept in field "+k+", but nothing ever releases what that field holds", nil)
		}
	}
	R.Need(ruleReleased, 8)
}

// ownerReleases: somewhere the content of the field is released (or called, for a context's cancel function).
func ownerReleases(P *Prog, o ownedAt) bool {
	for _, f := range P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := ci.Common()
				var got ssa.Value
				switch {
				case cc.IsInvoke() && releaseName(cc.Method.Name()):
					got = cc.Value
				case !cc.IsInvoke() && cc.StaticCallee() != nil:
					if m, ok := cc.StaticCallee().Object().(*types.Func); ok && releaseName(m.Name()) && len(cc.Args) > 0 {
						got = cc.Args[0]
					} else {
						// handed to a function that releases it
						for _, a := range cc.Args {
							if fieldOfOwner(a, o, 0) && P.InRepo(cc.StaticCallee()) {
								return true
							}
						}
					}
				case !cc.IsInvoke():
					got = cc.Value
				}
				if got != nil && fieldOfOwner(got, o, 0) {
					return true
				}
			}
		}
	}
	return false
}

// fieldOfOwner: the value comes from the owner's field.
func fieldOfOwner(v ssa.Value, o ownedAt, depth int) bool {
	if depth > 6 {
		return false
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		return fieldOfOwner(x.X, o, depth+1)
	case *ssa.MakeInterface:
		return fieldOfOwner(x.X, o, depth+1)
	case *ssa.ChangeInterface:
		return fieldOfOwner(x.X, o, depth+1)
	case *ssa.ChangeType:
		return fieldOfOwner(x.X, o, depth+1)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if fieldOfOwner(e, o, depth+1) {
				return true
			}
		}
	case *ssa.FieldAddr:
		pt, ok := x.X.Type().Underlying().(*types.Pointer)
		if !ok {
			return false
		}
		n := namedOf(pt.Elem())
		if n != nil && n.Obj() == o.st.Obj() && x.Field == o.i {
			return true
		}
		return fieldOfOwner(x.X, o, depth+1) // e.g. the Body of a kept response
	case *ssa.Field:
		n := namedOf(x.X.Type())
		return n != nil && n.Obj() == o.st.Obj() && x.Field == o.i
	}
	return false
}
