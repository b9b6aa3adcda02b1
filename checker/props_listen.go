package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The PostgreSQL notification listener (C13): the loop that turns notifications into announcements never ends
// on its own, takes the nil notification that reports a reconnection, passes over what it cannot decode and
// announces every other notification exactly once, in order.
//
// Rule state: n: the notification being worked on (pending, bad, told); inGo
type listenRule struct {
	Base
	P    *Prog
	R    *Report
	root *ssa.Function
}

const (
	ruleListenAll   = "every decoded notification is announced exactly once"
	ruleListenNil   = "the notification of a reconnection is not dereferenced"
	ruleListenLoop  = "the listener goes on after every notification"
	ruleListenNames = "the database notifies the channel that is listened to"
)

func isNotificationPtr(t types.Type) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Name() == "Notification" && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "lib/pq")
}

func isNotificationChan(t types.Type) bool {
	c, ok := t.Underlying().(*types.Chan)
	return ok && isNotificationPtr(c.Elem())
}

func (r *listenRule) fail(key string, p *Path, pos token.Pos, msg string) {
	r.R.Fail("listener:"+key, pos, "PostgreSQL store: the notification listener "+msg, p)
}

func (r *listenRule) Model(p *Path, c *Call) []Outcome {
	switch c.Name() {
	case "log.Fatal", "log.Fatalf", "log.Fatalln", "os.Exit", "log.Panic", "log.Panicf", "log.Panicln", "runtime.Goexit":
		r.fail("process-ends", p, c.Instr.Pos(), "ends the process")
		return []Outcome{{Apply: func(q *Path) bool { return false }}}
	}
	if o := pureEvent(p, c); o != nil {
		return o
	}
	if strings.HasSuffix(c.Name(), "encoding/json.Decoder).Token") {
		// the end of the input is good news
		if eof := r.P.libVar("io", "EOF"); eof != nil {
			end := Outcome{Opaque: true, After: func(q *Path, res *Val) bool {
				err := q.ErrOf(res)
				return q.SetNil(err, false) && q.Assume(q.E.T.Eq(err, eof), true)
			}}
			return append(errFork(nil, func(q *Path, res *Val) {
				q.Assume(q.E.T.Eq(q.ErrOf(res), eof), false)
				r.bad(q)
			}), end)
		}
	}
	if failing(r.P, c) {
		return errFork(nil, func(q *Path, res *Val) { r.bad(q) })
	}
	return nil
}

// bad: something about the present notification failed.
func (r *listenRule) bad(q *Path) {
	if n := q.GetV("n", nil); n != nil && q.Get("inGo", nil) == "" && q.Get("n", nil) == "pending" {
		q.SetV("n", nil, "bad", n)
	}
}

func (r *listenRule) done(p *Path, pos token.Pos) {
	n := p.GetV("n", nil)
	if n == nil {
		return
	}
	r.R.Obl(ruleListenAll, r.P.Pos(pos))
	if p.Get("n", nil) == "pending" && p.NilState(n) != 1 {
		r.fail("passed-over", p, pos, "passes over a notification without announcing it although nothing failed")
	}
	p.Del("n", nil)
}

func (r *listenRule) Event(p *Path, ev *Ev) {
	pos := token.NoPos
	if ev.Instr != nil {
		pos = ev.Instr.Pos()
	}
	inGo := p.Get("inGo", nil) != ""
	switch ev.K {
	case EvGo:
		p.E.RunGo(p, ev.Call, map[RK]RV{{"inGo", nil}: {S: "1"}})
	case EvSelect:
		if inGo {
			return
		}
		p.Del("why", nil)
		for _, s := range ev.Sel {
			if !s.Send && isNotificationChan(s.Chan.T) {
				r.done(p, pos)
			}
		}
	case EvRecv:
		if inGo {
			return
		}
		if isNotificationChan(ev.Addr.T) {
			if ev.Res != nil && p.Truth(ev.Res) == -1 {
				p.Set("why", nil, "closed")
				return
			}
			p.SetV("n", nil, "pending", ev.Val)
			if ev.Res != nil {
				p.SetV("ok", nil, "1", ev.Res)
			}
		} else if ct, ok := ev.Addr.T.Underlying().(*types.Chan); ok {
			if st, ok := ct.Elem().Underlying().(*types.Struct); ok && st.NumFields() == 0 {
				p.Set("why", nil, "stop")
			}
		}
	case EvBranch:
		if ok := p.GetV("ok", nil); ok != nil && !inGo && p.Truth(ok) == -1 {
			p.Set("why", nil, "closed")
			p.Del("n", nil)
			p.Del("ok", nil)
		}
	case EvLoad:
		n := p.GetV("n", nil)
		if n != nil && ev.Addr != n && rootOf(ev.Addr) == n || n != nil && ev.Addr == n {
			r.R.Obl(ruleListenNil, r.P.Pos(pos))
			if p.NilState(n) != -1 {
				r.fail("nil-notification", p, pos, "uses a notification that is nil after a reconnection")
				p.SetNil(n, false)
			}
		}
	case EvCall:
		c := ev.Call
		if in(c.Name(), "errors.New", "fmt.Errorf") {
			r.bad(p)
		}
		if c.M == nil {
			return
		}
		if in(c.M.Name(), "Close", "Unlisten", "UnlistenAll") {
			if rn := recvNamed(c.M); rn != nil && rn.Obj().Name() == "Listener" {
				r.fail("stops-listening", p, pos, "stops listening")
			}
		}
		if isAccept(r.P, c) {
			n := p.GetV("n", nil)
			switch {
			case inGo:
				r.fail("announces-aside", p, pos, "announces a record in a goroutine of its own, so that the order can change")
			case n == nil:
				r.fail("announces-nothing", p, pos, "announces a record without a notification")
			case p.Get("n", nil) == "told":
				r.fail("announced-twice", p, pos, "announces a notification more than once")
			case p.Get("n", nil) == "bad":
				r.fail("announces-undecoded", p, pos, "announces a notification that could not be decoded")
			default:
				p.SetV("n", nil, "told", n)
			}
		}
	case EvPanic:
		if !inGo {
			r.fail("panics", p, pos, "panics")
		}
	case EvExit:
		if inGo {
			return
		}
		if p.Get("why", nil) == "" {
			r.fail("ends", p, pos, "ends, so that later events are never announced")
		}
	}
}

// isAccept: a call of a broadcaster's Accept.
func isAccept(P *Prog, c *Call) bool {
	if c.M == nil || c.M.Name() != "Accept" {
		return false
	}
	sig := c.M.Type().(*types.Signature)
	if sig.Params().Len() != 1 || sig.Results().Len() != 0 {
		return false
	}
	n := namedOf(sig.Params().At(0).Type())
	rec := P.Lookup("", "Record")
	return n != nil && rec != nil && n.Obj() == rec
}

// Inline: the broadcaster is not entered.
func (r *listenRule) Inline(p *Path, c *Call) bool { return !isAccept(r.P, c) }

var (
	rePgNotify  = regexp.MustCompile(`(?is)\bpg_notify\s*\(\s*'([^']*)'\s*,\s*(.*?)\)\s*;`)
	reTrigger   = regexp.MustCompile(`(?is)\bCREATE\s+(OR\s+REPLACE\s+)?TRIGGER\b`)
	reTrigGood  = regexp.MustCompile(`(?is)\bAFTER\s+INSERT\s+ON\s+"?record"?\s+FOR\s+EACH\s+ROW\s+EXECUTE\s+(PROCEDURE|FUNCTION)\s+(\w+)\s*\(`)
	reRowToJSON = regexp.MustCompile(`(?is)^row_to_json\s*\(\s*NEW\s*\)`)
)

func pgListener(P *Prog, R *Report) {
	st := P.StoreOf("postgres")
	if st == nil {
		return
	}
	// the functions that take notifications, up to the goroutine they run in
	up := map[*ssa.Function][]*ssa.Function{}
	started := map[*ssa.Function]bool{}
	var takers []*ssa.Function
	listens := map[string]token.Pos{}
	for _, f := range P.Funcs {
		if pkgOf(f) != st.N.Obj().Pkg() {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Go:
					if g := x.Call.StaticCallee(); g != nil {
						started[g] = true
					}
				case ssa.CallInstruction:
					if g := x.Common().StaticCallee(); g != nil {
						up[g] = append(up[g], f)
						if strings.HasSuffix(g.String(), "lib/pq.Listener).Listen") && len(x.Common().Args) == 2 {
							if c, ok := x.Common().Args[1].(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
								listens[constant.StringVal(c.Value)] = in.Pos()
							}
						}
					}
				case *ssa.UnOp:
					if x.Op == token.ARROW && isNotificationChan(x.X.Type()) {
						takers = append(takers, f)
					}
				case *ssa.Select:
					for _, s := range x.States {
						if s.Dir == types.RecvOnly && isNotificationChan(s.Chan.Type()) {
							takers = append(takers, f)
						}
					}
				}
			}
		}
	}
	done := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if done[f] {
			return
		}
		done[f] = true
		if started[f] || len(up[f]) == 0 {
			R.Item("listener loops", FnName(f))
			R.Obl(ruleListenLoop, FnName(f))
			e := NewEngine(P, &listenRule{P: P, R: R, root: f})
			e.RunRoot(f, nil)
			R.Engine(e, "listener "+FnName(f))
			return
		}
		for _, g := range up[f] {
			visit(g)
		}
	}
	for _, f := range takers {
		visit(f)
	}
	R.Need(ruleListenLoop, 1)
	R.Need(ruleListenAll, 1)

	// what the database is told to notify
	told, trig := 0, 0
	eachConst(P, st.N.Obj().Pkg(), func(s string, pos token.Pos) {
		if m := rePgNotify.FindStringSubmatch(s); m != nil {
			told++
			R.Obl(ruleListenNames, P.Pos(pos))
			if _, ok := listens[m[1]]; !ok && len(listens) > 0 {
				R.Fail("listener:channel:"+m[1], pos, "PostgreSQL store: the database notifies the channel "+m[1]+", which is not listened to", nil)
			}
			if !reRowToJSON.MatchString(strings.TrimSpace(m[2])) {
				R.Fail("listener:payload", pos, "PostgreSQL store: the database does not notify the whole inserted row", nil)
			}
		}
		if reTrigger.MatchString(s) {
			trig++
			if !reTrigGood.MatchString(s) {
				R.Fail("listener:trigger", pos, "PostgreSQL store: the notification trigger does not run after the insertion of each row", nil)
			}
		}
	})
	if len(listens) > 0 && told > 0 && trig == 0 {
		R.Fail("listener:no-trigger", token.NoPos, "PostgreSQL store: no trigger runs the function that notifies listeners", nil)
	}
	R.Need(ruleListenNames, 1)
}

// eachConst visits the texts that occur in a package's functions.
func eachConst(P *Prog, pkg *types.Package, visit func(s string, pos token.Pos)) {
	seen := map[string]bool{}
	for _, f := range P.Funcs {
		if pkgOf(f) != pkg {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var ops [16]*ssa.Value
				for _, o := range in.Operands(ops[:0]) {
					if o == nil {
						continue
					}
					c, ok := (*o).(*ssa.Const)
					if !ok || c.Value == nil || c.Value.Kind() != constant.String {
						continue
					}
					s := constant.StringVal(c.Value)
					if !seen[s] {
						seen[s] = true
						visit(s, in.Pos())
					}
				}
			}
		}
	}
}
