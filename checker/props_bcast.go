package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The broadcaster: every record reaches every subscriber it is meant for, each waited for at most for a bounded time;
// the sets of subscribers belong to one goroutine; closing releases everybody.

const pkgBcast = modPath + "/pkg/broadcast"

var bcastOps = []string{"Close", "Accept", "SubscribeAllEvents", "UnsubscribeAllEvents", "SubscribeAggregateTypes", "UnsubscribeAggregateTypes"}

type bcRule struct {
	Base
	P     *Prog
	R     *Report
	name  string
	root  *ssa.Function
	op    string // method under judgement; "" is the goroutine
	first bool
	loop  *LoopTab

	self             *Val
	list, other, rec *Val // arguments of the method under judgement
	closed           string
	cancel           *Val              // the call that made the context whose cancellation closes
	role             map[string]string // channel -> method that sends on it
	typeF, subF      string            // parts of what is sent for aggregate types
	allKey, typesKey string            // where the sets are kept
	spawn            string
}

func (r *bcRule) Inline(p *Path, c *Call) bool { return true }

func (r *bcRule) SelectCase(p *Path, ev *Ev, i int) bool { return true }

func (r *bcRule) fail(p *Path, key string, pos token.Pos, msg string) {
	p.dead = true
	if r.first {
		return
	}
	if !pos.IsValid() {
		pos = r.root.Pos()
	}
	r.R.Fail(key+":"+r.name, pos, r.name+": "+msg, p)
}

func (r *bcRule) obl(kind, what string) {
	if !r.first {
		r.R.Obl(kind, what)
	}
}

// key names the part of the broadcaster that holds a channel or map.
func (r *bcRule) key(p *Path, v *Val) string {
	v = unconv(v)
	if v == nil || r.self == nil {
		return ""
	}
	path := func(a *Val) string {
		s := ""
		for a.K == KFieldAddr {
			s = "." + a.Op + s
			a = a.Args[0]
		}
		if a != r.self {
			return ""
		}
		return s
	}
	if v.K == KLoad && v.Args[0].K == KFieldAddr {
		return path(v.Args[0])
	}
	best := ""
	for k, x := range p.mem {
		if k.K == KFieldAddr && unconv(x) == v {
			if s := path(k); s != "" && (best == "" || s < best) {
				best = s
			}
		}
	}
	return best
}

// isClosed: does ch become ready when the broadcaster is closed?
func (r *bcRule) isClosed(p *Path, ch *Val) bool {
	ch = unconv(ch)
	if r.closed != "" && r.key(p, ch) == r.closed {
		return true
	}
	d := doneOf(ch)
	return d != nil && r.cancel != nil && d.K == KExtract && d.Idx == 0 && d.Args[0] == r.cancel
}

// doneOf: the context ch is the Done channel of.
func doneOf(ch *Val) *Val {
	ch = unconv(ch)
	if ch != nil && ch.K == KCall && ch.FullName() == "(context.Context).Done" && len(ch.Args) > 0 {
		return ch.Args[0]
	}
	return nil
}

// cancelled: the context a call of a cancel function ends.
func cancelled(c *Call) *Val {
	if c.FV != nil && c.FV.K == KExtract && c.FV.Idx == 1 && len(c.FV.Args) == 1 && c.FV.Args[0].K == KCall && in(c.FV.Args[0].FullName(), "context.WithCancel", "context.WithTimeout", "context.WithDeadline") {
		return c.FV.Args[0]
	}
	return nil
}

// mapRole says which set a map is.
func (r *bcRule) mapRole(p *Path, m *Val) (role string, typ *Val) {
	switch k := r.key(p, m); {
	case k != "" && k == r.allKey:
		return "all", nil
	case k != "" && k == r.typesKey:
		return "types", nil
	case k != "":
		return "set" + k, nil
	}
	if m.K == KLookup && len(m.Args) > 1 && r.typesKey != "" && r.key(p, m.Args[0]) == r.typesKey {
		return "inner", m.Args[1]
	}
	if m.K == KNext && m.Op == "v" && r.key(p, m.Args[0].Args[0]) == r.typesKey {
		return "each", p.E.T.mk(Val{K: KNext, Op: "k", Args: m.Args})
	}
	if x := p.GetV("fresh", m); x != nil {
		return "inner", x
	}
	return "", nil
}

// absent: is it known that set m is empty, or that there is no set for the type?
func (r *bcRule) absent(p *Path, set, typ *Val) bool {
	if set == nil {
		return false
	}
	if typ == nil {
		return r.empty(p, set) || p.Get("absent", set) == "all"
	}
	if p.GetV("absent", set) == typ {
		return true
	}
	for k, v := range p.mem {
		if k.K == KMapElem && k.Args[0] == set && k.Args[1] == typ {
			if k.Op == "ok" && p.Truth(v) == -1 || k.Op == "" && (p.NilState(v) == 1 || r.empty(p, v)) {
				return true
			}
		}
	}
	return false
}

func (r *bcRule) empty(p *Path, m *Val) bool {
	n := p.E.T.mk(Val{K: KLen, Args: []*Val{m}, T: types.Typ[types.Int]})
	return p.Truth(p.E.T.Lt(p.E.T.Int(0), n)) == -1 || p.Truth(p.E.T.Eq(n, p.E.T.Int(0))) == 1
}

// setVal is the map kept under key.
func (r *bcRule) setVal(p *Path, key string) *Val {
	for k, x := range p.mem {
		if k.K == KFieldAddr && r.key(p, x) == key && key != "" {
			return x
		}
	}
	return nil
}

func (r *bcRule) Model(p *Path, c *Call) []Outcome {
	if c.M != nil && c.Fn == nil && len(c.Args) > 0 && in(c.M.Name(), "Stop", "Receiver") {
		return []Outcome{{Opaque: true}}
	}
	if r.op == "Close" && c.Name() == "(*sync.Once).Do" && c.Args[1].Fn != nil && rootOf(c.Args[0]) == r.self {
		// a later call finds the broadcaster closed
		return []Outcome{{Apply: func(q *Path) bool { q.Set("closes", nil, "1"); return true }}, {Apply: p.E.onceRun(c)}}
	}
	return nil
}

// armed: does ch become ready after a bounded time that began for the subscriber at hand?
func (r *bcRule) armed(p *Path, ch *Val) bool {
	ch = unconv(ch)
	if p.Get("armed", ch) != "" {
		return true
	}
	if ch.K == KLoad && ch.Args[0].K == KFieldAddr && ch.Args[0].Op == "C" {
		return p.Get("armed", ch.Args[0].Args[0]) != ""
	}
	if d := doneOf(ch); d != nil && d.K == KExtract && d.Idx == 0 {
		return p.Get("armed", d.Args[0]) != ""
	}
	return false
}

func (r *bcRule) Event(p *Path, ev *Ev) {
	if r.first {
		r.loop.Observe(p, ev)
	}
	pos := token.NoPos
	if ev.Instr != nil {
		pos = ev.Instr.Pos()
	}
	if !pos.IsValid() {
		pos = p.pos()
	}
	switch ev.K {
	case EvGo:
		st := p.Get("stage", nil)
		if st == "" && r.op != "" {
			return
		}
		if st == "" {
			p.E.RunGo(p, ev.Call, map[RK]RV{{"stage", nil}: {S: "go"}, {"spawn", nil}: {S: fmt.Sprint(ev.Instr.Pos())}, {"self", nil}: {S: "1", V: r.self}})
			return
		}
		p.E.RunGo(p, ev.Call, map[RK]RV{{"stage", nil}: {S: "other"}, {"self", nil}: {S: "1", V: r.self}})
		return
	case EvExit:
		switch p.Get("stage", nil) {
		case "":
			if len(ev.Res_) > 0 {
				r.begin(p, ev.Res_[0])
			}
			return
		case "go":
			r.goEnd(p, pos)
			return
		}
	case EvInlineRet:
		if p.top().tag == "cont" && p.Get("stage", nil) == "op" {
			r.opEnd(p, pos)
		}
		return
	case EvStore:
		if p.Get("stage", nil) == "" && ev.Addr.K == KFieldAddr && r.op == "" {
			r.learnSelf(ev.Addr)
		}
	}
	switch p.Get("stage", nil) {
	case "op":
		r.opEvent(p, ev, pos)
	case "go":
		r.goEvent(p, ev, pos)
	case "other":
		r.touch(p, ev, pos)
	}
}

// learnSelf: the goroutine starts before the constructor returns, so the object is known by its type.
func (r *bcRule) learnSelf(a *Val) {
	root := rootOf(a)
	if root.K != KAlloc || root.T == nil || r.self == root {
		return
	}
	if it := r.P.Iface("pkg/broadcast", "Broadcaster"); it != nil && types.Implements(root.T, it) {
		r.self = root
	}
}

// touch: a set of subscribers is used outside its goroutine.
func (r *bcRule) touch(p *Path, ev *Ev, pos token.Pos) {
	switch ev.K {
	case EvMapRead, EvMapUpdate, EvMapDelete:
		if ev.Addr == nil {
			return
		}
		if role, _ := r.mapRole(p, ev.Addr); role != "" && role != "inner" || role == "inner" && p.GetV("fresh", ev.Addr) == nil {
			r.fail(p, "owner", pos, "a set of subscribers is used by a second goroutine")
		}
	}
}

func (r *bcRule) begin(p *Path, self *Val) {
	r.self = unconv(self)
	if r.op == "" {
		p.dead = true
		return
	}
	n := namedOf(derefT(r.self.T))
	if n == nil {
		p.dead = true
		return
	}
	m := r.P.Method(n, r.op)
	if m == nil {
		r.fail(p, "method", token.NoPos, "has no method "+r.op)
		return
	}
	r.name = FnName(m)
	p.Set("stage", nil, "op")
	p.SetV("self", nil, "1", r.self)
	args := []*Val{r.self}
	for i, a := range m.Params[1:] {
		v := p.E.T.mk(Val{K: KBuiltin, Op: fmt.Sprintf("argument %d of %s", i+1, r.op), T: a.Type()})
		args = append(args, v)
	}
	r.list, r.other, r.rec = nil, nil, nil
	switch r.op {
	case "Accept":
		r.rec = args[1]
	case "SubscribeAllEvents", "UnsubscribeAllEvents":
		r.list = args[1]
	case "SubscribeAggregateTypes", "UnsubscribeAggregateTypes":
		r.other, r.list = args[1], args[2]
	}
	p.Continue(m, args, nil)
}

func (r *bcRule) subscribes() bool { return strings.HasPrefix(r.op, "Subscribe") }

// cur: is v the element of the list at hand?
func (r *bcRule) cur(p *Path, v *Val) bool {
	v = unconv(v)
	return v != nil && v.K == KLoad && v.Args[0].K == KIndexAddr && v.Args[0].Args[0] == r.list && v.Args[0].Args[1] == p.GetV("cur", nil)
}

// settled: the element at hand was taken care of.
func (r *bcRule) settle(p *Path, pos token.Pos) {
	if p.Get("cur", nil) == "" {
		return
	}
	switch {
	case p.Get("sent", nil) == "1" && p.Get("stopped", nil) == "":
	case p.Get("stopped", nil) != "" && p.Get("closed", nil) != "":
	case p.Get("closed", nil) != "" && !r.subscribes():
	case p.Get("sent", nil) == "2":
		r.fail(p, "sent-twice", pos, "an element of the list is handed on twice")
	case p.Get("closed", nil) != "":
		r.fail(p, "left-hanging", pos, "a subscriber that comes after closing is not stopped")
	default:
		r.fail(p, "passed-over", pos, "an element of the list is passed over")
	}
	for _, k := range []string{"cur", "sent"} {
		p.Del(k, nil)
	}
	if r.other == nil {
		p.Del("stopped", nil)
	}
}

func (r *bcRule) opEvent(p *Path, ev *Ev, pos token.Pos) {
	r.touch(p, ev, pos)
	if p.dead {
		return
	}
	switch ev.K {
	case EvBranch:
		l, idx, more := listBranch(ev)
		if l == nil || r.list == nil || l != r.list {
			return
		}
		r.settle(p, pos)
		if p.dead {
			return
		}
		if more {
			if !r.first && !r.loop.everyIndex(idx) {
				r.fail(p, "some", pos, "does not go through the whole list")
				return
			}
			p.SetV("cur", nil, "1", idx)
		} else {
			p.Set("ended", nil, "1")
		}
	case EvSelect:
		if !ev.Block {
			return
		}
		for _, s := range ev.Sel {
			if !s.Send && r.isClosed(p, s.Chan) {
				r.obl("a method that waits also wakes up when the broadcaster is closed", r.name+" "+r.P.Pos(pos))
				return
			}
		}
		if r.op != "Close" || r.closed != "" || r.cancel != nil {
			r.fail(p, "blocks", pos, "waits without being woken up when the broadcaster is closed")
		}
	case EvRecv:
		if r.isClosed(p, ev.Addr) {
			p.Set("closed", nil, "1")
		}
	case EvSend:
		r.sent(p, ev, pos)
	case EvClose:
		if r.op == "Close" {
			if k := r.key(p, ev.Addr); k != "" {
				r.closed = k
				p.Set("closes", nil, "1")
			}
		} else if r.key(p, ev.Addr) != "" {
			r.fail(p, "closes", pos, "closes a channel of the broadcaster")
		}
	case EvCall:
		c := ev.Call
		if x := cancelled(c); x != nil && r.op == "Close" {
			r.cancel = x
			p.Set("closes", nil, "1")
		}
		if c.M != nil && c.M.Name() == "Stop" && len(c.Args) == 1 && (r.cur(p, c.Args[0]) || r.other != nil && c.Args[0] == r.other) {
			p.Set("stopped", nil, "1")
		}
	}
}

func (r *bcRule) sent(p *Path, ev *Ev, pos token.Pos) {
	key := r.key(p, ev.Addr)
	if key == "" {
		return
	}
	v := ev.Val
	good := false
	switch {
	case r.op == "Accept":
		good = v == r.rec
	case r.other == nil && r.list != nil:
		good = r.cur(p, v)
	case r.list != nil:
		st := structOf(v.T)
		tf, sf := "", ""
		for i := 0; st != nil && i < st.NumFields(); i++ {
			n := st.Field(i).Name()
			x := p.FieldOf(v, n)
			switch {
			case x == nil:
			case r.cur(p, x):
				tf = n
			case x == r.other:
				sf = n
			}
		}
		if good = tf != "" && sf != ""; good {
			if r.typeF != "" && (r.typeF != tf || r.subF != sf) {
				good = false
			}
			r.typeF, r.subF = tf, sf
		}
	}
	if !good {
		r.fail(p, "sends", pos, fmt.Sprintf("what is handed to the goroutine is not what the caller gave (%v)", v))
		return
	}
	if o := r.role[key]; o != "" && o != r.op {
		r.fail(p, "mixed", pos, "uses the channel of "+o)
		return
	}
	r.role[key] = r.op
	n := "1"
	if p.Get("sent", nil) != "" {
		n = "2"
	}
	p.Set("sent", nil, n)
}

func (r *bcRule) opEnd(p *Path, pos token.Pos) {
	closed := p.Get("closed", nil) != ""
	switch {
	case r.op == "Close":
		if p.Get("closes", nil) == "" {
			r.fail(p, "open", pos, "may return without having closed the broadcaster")
			return
		}
		r.obl("Close closes", r.name)
	case r.op == "Accept":
		if p.Get("sent", nil) != "1" && !closed {
			r.fail(p, "dropped", pos, "may drop a record")
			return
		}
		r.obl("what a caller gives reaches the goroutine", r.name)
	default:
		if p.Get("cur", nil) != "" {
			all := r.other != nil && p.Get("stopped", nil) != "" || closed && !r.subscribes()
			r.settle(p, pos)
			if !all && !p.dead {
				r.fail(p, "rest", pos, "returns before the whole list was taken care of")
			}
		} else if p.Get("ended", nil) == "" && !r.absentList(p) && !(r.other != nil && p.Get("stopped", nil) != "") && !(closed && !r.subscribes()) {
			r.fail(p, "rest", pos, "returns before the whole list was taken care of")
		}
		if !p.dead {
			r.obl("what a caller gives reaches the goroutine", r.name)
		}
	}
}

func (r *bcRule) absentList(p *Path) bool { return p.NilState(r.list) == 1 || r.empty(p, r.list) }

// ---------------------------------------------------------------- the goroutine

func (r *bcRule) goEvent(p *Path, ev *Ev, pos token.Pos) {
	job := p.Get("job", nil)
	switch ev.K {
	case EvMapRead, EvMapUpdate, EvMapDelete:
		if ev.Addr == nil {
			return
		}
		role, typ := r.mapRole(p, ev.Addr)
		if role != "" && role != "inner" {
			r.owner(p, pos)
		}
		if p.dead {
			return
		}
		switch ev.K {
		case EvMapUpdate:
			r.update(p, ev, role, typ, job, pos)
		case EvMapDelete:
			r.remove(p, ev, role, typ, job, pos)
		}
	case EvStore:
		if ev.Addr.K == KFieldAddr && r.key(p, p.E.T.mk(Val{K: KLoad, Args: []*Val{ev.Addr}})) != "" && ev.Val != nil && ev.Val.T != nil {
			if _, isMap := ev.Val.T.Underlying().(*types.Map); isMap && job != "closing" {
				r.fail(p, "replaced", pos, "a set of subscribers is replaced")
			}
		}
	case EvBranch:
		c, want := ev.Val, ev.Bool
		for c.K == KNot {
			c, want = c.Args[0], !want
		}
		if c.K == KNext && c.Op == "ok" {
			r.round(p, c, want, pos)
			return
		}
		if l, idx, m := listBranch(ev); l != nil && job == "broadcast" && p.Get("elem", nil) == "" {
			if sl, isSlice := l.T.Underlying().(*types.Slice); isSlice && isSubscriber(r.P, sl.Elem()) {
				r.lateRound(p, l, idx, m, pos)
				return
			}
		}
		// sets found to be empty
		var set *Val
		switch {
		case c.K == KLookup && c.Op == "ok" && !want:
			set = c
		case c.K == KEq && want:
			for i := 0; i < 2; i++ {
				x, k := c.Args[i], c.Args[1-i]
				if n, isNum := intOf(k); k.K == KNil || isNum && n == 0 && x.K == KLen {
					set = x
				}
			}
		case c.K == KLt && !want && isInt(c.Args[0], 0):
			set = c.Args[1]
		}
		if set != nil && set.K == KLen {
			set = set.Args[0]
		}
		switch {
		case set == nil:
		case set.K == KLookup && len(set.Args) > 1:
			p.SetV("absent", set.Args[0], "1", set.Args[1])
		case r.key(p, set) != "":
			p.Set("absent", set, "all")
		}
	case EvSelect:
		r.sel(p, ev, pos)
	case EvCase:
		send := false
		for _, x := range ev.Sel {
			send = send || x.Send
		}
		if p.Get("elem", nil) != "" && job == "broadcast" && send {
			switch {
			case ev.N < 0:
				p.Set("st", nil, "late")
			case ev.Sel[ev.N].Send:
				p.Set("st", nil, "got")
			case !r.isClosed(p, ev.Sel[ev.N].Chan):
				p.Set("st", nil, "late")
			}
		}
	case EvRecv:
		r.received(p, ev, pos)
	case EvAppend:
		for _, x := range ev.Elems {
			if job == "broadcast" && p.Get("elem", nil) != "" && unconv(x) == p.GetV("elem", nil) && p.Get("st", nil) == "late" {
				p.Set("kept", nil, "1")
			}
		}
	case EvCallDone:
		c := ev.Call
		pkg, n := c.callee()
		full := pkg + "." + n
		switch {
		case in(full, "time.After", "time.NewTimer", "context.WithTimeout"):
			if p.Get("elem", nil) != "" {
				p.Set("armed", ev.Res, "1")
			}
		}
		if pkg == "time" && strings.HasSuffix(n, "Reset") && len(c.Args) > 0 && p.Get("elem", nil) != "" {
			p.Set("armed", c.Args[0], "1")
		}
	case EvCall:
		c := ev.Call
		if c.M != nil && c.M.Name() == "Stop" && len(c.Args) == 1 {
			switch {
			case p.Get("elem", nil) != "" && unconv(c.Args[0]) == p.GetV("elem", nil), r.lateOne(p, c.Args[0]):
				p.Set("stopped", nil, "1")
			}
		}
	}
}

// lateOne: is v the element at hand of the list of late subscribers?
func (r *bcRule) lateOne(p *Path, v *Val) bool {
	v = unconv(v)
	l := p.GetV("late", nil)
	if l == nil && v != nil && v.K == KLoad && v.Args[0].K == KIndexAddr && isInt(v.Args[0].Args[1], 0) && p.Get("owed", nil) != "" && p.Get("elem", nil) == "" {
		// the first round over a list known not to be empty
		l = v.Args[0].Args[0]
		p.SetV("late", nil, "1", l)
		p.SetV("lateidx", nil, "1", v.Args[0].Args[1])
	}
	return l != nil && v != nil && v.K == KLoad && v.Args[0].K == KIndexAddr && v.Args[0].Args[0] == l && v.Args[0].Args[1] == p.GetV("lateidx", nil)
}

// lateRound: the next round of a loop over subscribers that were found to be late.
func (r *bcRule) lateRound(p *Path, l, idx *Val, more bool, pos token.Pos) {
	if p.Get("owed", nil) == "" {
		return
	}
	if p.GetV("late", nil) != nil {
		stopped, removed := p.Get("stopped", nil) != "", p.Get("removed", nil) != ""
		p.Del("late", nil)
		p.Del("stopped", nil)
		p.Del("removed", nil)
		if !stopped || !removed {
			r.fail(p, "not-stopped", pos, "a subscriber that does not take the record in time is not stopped and removed")
			return
		}
		r.obl("a subscriber gets the record, or is stopped and removed", r.name+" late list")
	}
	if !more {
		p.Del("owed", nil)
		p.Del("owedtype", nil)
		return
	}
	if !r.first && (l.K == KSlice || !r.loop.everyIndex(idx)) {
		r.fail(p, "some", pos, "does not go through the whole list of late subscribers")
		return
	}
	p.SetV("late", nil, "1", l)
	p.SetV("lateidx", nil, "1", idx)
}

// owner: only one of the goroutines may use the sets.
func (r *bcRule) owner(p *Path, pos token.Pos) {
	s := p.Get("spawn", nil)
	if r.spawn == "" {
		r.spawn = s
	}
	if r.spawn != s {
		r.fail(p, "owner", pos, "a set of subscribers is used by a second goroutine")
	}
}

func (r *bcRule) update(p *Path, ev *Ev, role string, typ *Val, job string, pos token.Pos) {
	v := p.GetV("job", nil)
	switch job {
	case "SubscribeAllEvents":
		if ev.Key == v && strings.HasPrefix(role, "set") && r.allKey == "" {
			r.allKey = role[3:]
			role = "all"
		}
		if role != "all" || ev.Key != v {
			r.fail(p, "adds", pos, "adds something else than the subscriber to the set for all events")
			return
		}
		p.Set("done", nil, "1")
	case "SubscribeAggregateTypes":
		wantT, wantS := p.FieldOf(v, r.typeF), p.FieldOf(v, r.subF)
		if strings.HasPrefix(role, "set") && ev.Key == wantT && r.typesKey == "" {
			r.typesKey = role[3:]
			role = "types"
		}
		if role == "" && ev.Addr.K == KLookup && len(ev.Addr.Args) > 1 && ev.Addr.Args[1] == wantT {
			if k := r.key(p, ev.Addr.Args[0]); k != "" && r.typesKey == "" {
				r.typesKey = k
				role, typ = "inner", wantT
			}
		}
		switch {
		case role == "types" && ev.Key == wantT:
			set := ev.Addr
			if ev.Val.K != KMake {
				if x, t := r.mapRole(p, ev.Val); x != "inner" || t != wantT {
					r.fail(p, "adds", pos, "replaces the set of a type's subscribers")
				}
				return
			}
			if !r.absent(p, set, wantT) {
				r.fail(p, "forgets", pos, "the subscribers a type already has are forgotten")
				return
			}
			p.SetV("fresh", ev.Val, "1", wantT)
			if p.GetV("has", ev.Val) == wantS {
				p.Set("done", nil, "1")
			}
		case role == "inner" && typ == wantT && ev.Key == wantS:
			p.Set("done", nil, "1")
		case role == "" && ev.Addr.K == KMake:
			p.SetV("has", ev.Addr, "1", ev.Key)
		default:
			r.fail(p, "adds", pos, "adds something else than the subscriber to the set of its type")
		}
	default:
		if role != "" {
			r.fail(p, "adds", pos, "changes a set of subscribers without being asked to")
		}
	}
}

func (r *bcRule) remove(p *Path, ev *Ev, role string, typ *Val, job string, pos token.Pos) {
	v := p.GetV("job", nil)
	switch job {
	case "UnsubscribeAllEvents":
		if role != "all" || ev.Key != v {
			r.fail(p, "removes", pos, "removes something else than the subscriber")
			return
		}
		p.Set("done", nil, "1")
	case "UnsubscribeAggregateTypes":
		wantT, wantS := p.FieldOf(v, r.typeF), p.FieldOf(v, r.subF)
		switch {
		case role == "inner" && typ == wantT && ev.Key == wantS:
			p.Set("done", nil, "1")
		case role == "types" && ev.Key == wantT && p.Get("done", nil) != "" && r.absent(p, ev.Addr, wantT):
		default:
			r.fail(p, "removes", pos, "removes something else than the subscriber")
		}
	case "broadcast":
		er, et := p.Get("elem", nil), p.GetV("elemtype", nil)
		if role == er && typ == et && ev.Key == p.GetV("elem", nil) {
			p.Set("removed", nil, "1")
			return
		}
		if r.lateOne(p, ev.Key) && role == p.Get("owed", nil) && typ == p.GetV("owedtype", nil) {
			p.Set("removed", nil, "1")
			return
		}
		r.fail(p, "removes", pos, "removes someone else than the subscriber that did not take the record")
	case "closing":
	default:
		r.fail(p, "removes", pos, "removes a subscriber without being asked to")
	}
}

// round: the next round of a loop over a set.
func (r *bcRule) round(p *Path, ok *Val, more bool, pos token.Pos) {
	rng := ok.Args[0]
	m := rng.Args[0]
	role, typ := r.mapRole(p, m)
	if p.GetV("elemrange", nil) == rng {
		r.closeElem(p, pos)
	}
	if p.GetV("outer", nil) == rng {
		if p.Get("outerdone", nil) == "" && p.Get("job", nil) == "closing" {
			r.fail(p, "not-stopped", pos, "closing does not stop the subscribers of every type")
		}
		p.Del("outer", nil)
		p.Del("outerdone", nil)
	}
	if p.dead {
		return
	}
	if !more {
		switch role {
		case "all":
			p.Set("done:all", nil, "1")
		case "types":
			p.Set("done:types", nil, "1")
		case "inner":
			p.SetV("done:inner", nil, "1", typ)
		case "each":
			p.Set("outerdone", nil, "1")
		}
		return
	}
	var k *Val
	if x, isNext := ok.Site.(*ssa.Next); isNext {
		if t := p.top().env[x]; t != nil && t.K == KTuple && len(t.Args) > 1 {
			k = t.Args[1]
		}
	}
	switch role {
	case "types":
		p.SetV("outer", nil, "1", rng)
	case "all", "inner", "each":
		p.SetV("elem", nil, role, k)
		p.SetV("elemrange", nil, "1", rng)
		p.Del("elemtype", nil)
		if typ != nil {
			p.SetV("elemtype", nil, "1", typ)
		}
	}
}

// closeElem: was the subscriber at hand taken care of?
func (r *bcRule) closeElem(p *Path, pos token.Pos) {
	st, stopped, removed := p.Get("st", nil), p.Get("stopped", nil) != "", p.Get("removed", nil) != ""
	role, typ := p.Get("elem", nil), p.GetV("elemtype", nil)
	kept := p.Get("kept", nil) != "" && !stopped && !removed
	p.Del("kept", nil)
	for _, k := range []string{"elem", "elemrange", "elemtype", "st", "stopped", "removed"} {
		p.Del(k, nil)
	}
	p.DelAll("armed")
	switch p.Get("job", nil) {
	case "broadcast":
		switch {
		case st == "got" && (stopped || removed):
			r.fail(p, "punished", pos, "a subscriber that took the record is stopped or removed")
		case st == "got":
		case st == "late" && kept:
			if o := p.Get("owed", nil); o != "" && (o != role || p.GetV("owedtype", nil) != typ) {
				r.fail(p, "mixed-late", pos, "late subscribers of two sets are mixed up")
				return
			}
			p.Set("owed", nil, role)
			if typ != nil {
				p.SetV("owedtype", nil, "1", typ)
			}
		case st == "late" && !stopped:
			r.fail(p, "not-stopped", pos, "a subscriber that does not take the record in time is not stopped")
		case st == "late" && !removed:
			r.fail(p, "not-removed", pos, "a subscriber that does not take the record in time stays registered")
		case st == "late":
		default:
			r.fail(p, "passed-over", pos, "a subscriber is passed over")
		}
		if !p.dead {
			r.obl("a subscriber gets the record, or is stopped and removed", r.name+" "+role+" "+st)
		}
	case "closing":
		if !stopped {
			r.fail(p, "not-stopped", pos, "closing does not stop every subscriber")
		}
	}
}

// sel judges where the goroutine waits.
func (r *bcRule) sel(p *Path, ev *Ev, pos token.Pos) {
	if p.Get("elem", nil) != "" {
		rec := p.GetV("job", nil)
		timer := !ev.Block
		for _, s := range ev.Sel {
			switch {
			case s.Send:
				ch := unconv(s.Chan)
				if ch.K != KCall || len(ch.Args) == 0 || !strings.HasSuffix(ch.FullName(), "Receiver") || unconv(ch.Args[0]) != p.GetV("elem", nil) {
					r.fail(p, "whom", pos, "hands a record to someone else than the subscriber at hand")
					return
				}
				if s.Val != rec {
					r.fail(p, "what", pos, "hands on something else than the record")
					return
				}
				if p.Get("st", nil) == "got" {
					r.fail(p, "twice", pos, "hands the record to a subscriber twice")
					return
				}
			case r.armed(p, s.Chan):
				timer = true
			}
		}
		if !timer {
			r.fail(p, "unbounded", pos, "waits for a subscriber without a limit that starts with this subscriber")
		}
		return
	}
	if !ev.Block {
		return
	}
	r.endJob(p, pos)
	if p.dead {
		return
	}
	have := map[string]bool{}
	closed := false
	for _, s := range ev.Sel {
		if s.Send {
			r.fail(p, "waits", pos, "the goroutine waits for someone to receive")
			return
		}
		closed = closed || r.isClosed(p, s.Chan)
		have[r.role[r.key(p, s.Chan)]] = true
	}
	if !closed {
		r.fail(p, "deaf", pos, "the goroutine waits without being woken up when the broadcaster is closed")
		return
	}
	for _, op := range bcastOps[1:] {
		if !have[op] {
			r.fail(p, "deaf", pos, "the goroutine waits without listening to "+op)
			return
		}
	}
	r.obl("the goroutine listens to everybody", r.name)
}

func (r *bcRule) received(p *Path, ev *Ev, pos token.Pos) {
	start := func(job string, v *Val) {
		for _, k := range []string{"elem", "elemrange", "elemtype", "st", "stopped", "removed", "kept", "owed", "owedtype", "late", "outer", "outerdone", "done", "done:all", "done:types", "done:inner"} {
			p.Del(k, nil)
		}
		p.DelAll("armed")
		p.DelAll("absent")
		p.SetV("job", nil, job, v)
	}
	if r.isClosed(p, ev.Addr) {
		start("closing", nil)
		return
	}
	if p.Get("elem", nil) != "" {
		return
	}
	switch op := r.role[r.key(p, ev.Addr)]; op {
	case "":
	case "Accept":
		start("broadcast", ev.Val)
		p.SetNil(ev.Val, false)
	default:
		start(op, ev.Val)
	}
}

func (r *bcRule) endJob(p *Path, pos token.Pos) {
	job, v := p.Get("job", nil), p.GetV("job", nil)
	p.Del("job", nil)
	switch job {
	case "", "closing":
		return
	case "broadcast":
		if p.Get("elem", nil) != "" {
			r.fail(p, "left-off", pos, "leaves off in the middle of the subscribers")
			return
		}
		if p.Get("owed", nil) != "" {
			r.fail(p, "not-stopped", pos, "a subscriber that does not take the record in time is not stopped")
			return
		}
		if all := r.setVal(p, r.allKey); p.Get("done:all", nil) == "" && !r.absent(p, all, nil) {
			r.fail(p, "not-all", pos, "a record does not go to every subscriber of all events")
			return
		}
		t := p.FieldOf(v, "AggregateType")
		if t == nil {
			t = p.field2(v, "AggregateType")
		}
		if d := p.GetV("done:inner", nil); (d == nil || d != t && !reads(d, v, "AggregateType")) && !r.absent(p, r.setVal(p, r.typesKey), t) && !reads(p.GetV("absent", r.setVal(p, r.typesKey)), v, "AggregateType") {
			r.fail(p, "not-types", pos, "a record does not go to every subscriber of its aggregate type")
			return
		}
		r.obl("a record goes to all subscribers it is meant for", r.name)
	case "UnsubscribeAggregateTypes":
		if p.Get("done", nil) == "" && !r.absent(p, r.setVal(p, r.typesKey), p.FieldOf(v, r.typeF)) {
			r.fail(p, "not-done", pos, "a subscriber is not unregistered")
			return
		}
		r.obl("registering and unregistering take effect", job)
	default:
		if p.Get("done", nil) == "" {
			r.fail(p, "not-done", pos, "a subscriber is not registered or unregistered ("+job+")")
			return
		}
		r.obl("registering and unregistering take effect", job)
	}
	for _, k := range []string{"done", "done:all", "done:types", "done:inner"} {
		p.Del(k, nil)
	}
	p.DelAll("fresh")
	p.DelAll("has")
	p.DelAll("absent")
}

// field2 is a field of the record a pointer points to, as loads name it.
func (p *Path) field2(v *Val, name string) *Val {
	st := structOf(v.T)
	for i := 0; st != nil && i < st.NumFields(); i++ {
		if f := st.Field(i); f.Name() == name {
			return p.mem[p.fieldAddr(v, i, f)]
		}
	}
	return nil
}

func (r *bcRule) goEnd(p *Path, pos token.Pos) {
	if r.spawn != "" && p.Get("spawn", nil) != r.spawn {
		return
	}
	if p.Get("job", nil) != "closing" {
		r.fail(p, "ends", pos, "the goroutine ends although the broadcaster was not closed")
		return
	}
	all := p.Get("done:all", nil) != "" || r.absent(p, r.setVal(p, r.allKey), nil)
	types := p.Get("done:types", nil) != "" || r.absent(p, r.setVal(p, r.typesKey), nil)
	if !all || !types {
		r.fail(p, "not-stopped", pos, "closing does not stop every subscriber")
		return
	}
	r.obl("closing stops every subscriber", r.name)
}

func (r *bcRule) run() {
	for _, op := range append(bcastOps, "") {
		r.op = op
		for _, first := range []bool{true, false} {
			r.first = first
			r.name = FnName(r.root)
			e := NewEngine(r.P, r)
			e.RunRoot(r.root, func(p *Path, params []*Val) {})
			if !first {
				r.R.Engine(e, r.name)
			}
		}
	}
}

func isSubscriber(P *Prog, t types.Type) bool {
	it := P.Iface("pkg/broadcast", "RecordSubscriber")
	return it != nil && types.Implements(t, it)
}

func broadcasts(P *Prog, R *Report) {
	it := P.Iface("pkg/broadcast", "Broadcaster")
	if it == nil {
		R.Fail("interface:broadcast.Broadcaster", token.NoPos, "the Broadcaster interface is not found", nil)
		return
	}
	for _, f := range P.Funcs {
		if pkgOf(f) == nil || f.Parent() != nil || !token.IsExported(f.Name()) || f.Signature.Recv() != nil || f.Signature.Results().Len() == 0 || IsTestSupport(pkgOf(f).Path()) || isExample(f) {
			continue
		}
		if types.Implements(f.Signature.Results().At(0).Type(), it) {
			(&bcRule{P: P, R: R, root: f, loop: NewLoopTab(), role: map[string]string{}}).run()
		}
	}
	R.Need("a method that waits also wakes up when the broadcaster is closed", 5)
	R.Need("what a caller gives reaches the goroutine", 5)
	R.Need("Close closes", 1)
	R.Need("registering and unregistering take effect", 4)
	R.Need("a subscriber gets the record, or is stopped and removed", 4)
	R.Need("a record goes to all subscribers it is meant for", 1)
	R.Need("closing stops every subscriber", 1)
	R.Need("the goroutine listens to everybody", 1)
}

func init() {
	register("C14", "Exploration of the broadcaster's methods and of its goroutine under a typestate per subscriber: every wait of a method is a select that closing makes ready; what a caller gives is sent on a channel of its own; the goroutine listens to all of them, puts subscribers into and out of the right set, loops over both sets for a record, waits for each subscriber in a select with a timer armed for that subscriber, and stops and removes exactly those that are late; closing stops everyone before the goroutine ends; no other goroutine uses the sets. Subscriptions: Stop does not wait and wakes the goroutine, which ends and closes the channel Done returns. Servers waiting for a subscription also wait for its Done channel, or for a connection its end closes.",
		[]string{"a subscriber's Receiver and Stop do not block (checked for the subscriptions of this repository)", "timer durations are finite", "the consumer of a record may itself take long: the subscriber is then dropped by the broadcaster"},
		func(P *Prog, R *Report) { broadcasts(P, R); endings(P, R) })
}
