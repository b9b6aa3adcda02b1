package main

import (
	"go/token"
	"go/types"
	"reflect"

	"golang.org/x/tools/go/ssa"
)

// C15: the encrypting store encrypts every event before it hands a save on, and wraps every iterator and subscriber so
// that records are decrypted; the event encryptor uses the key stored for the subject.

var encAssume = []string{
	"the wrapped store, the key store and the cipher behave as their own properties say",
	"events implement SelfEncryptor as the generator writes it",
}

func init() {
	register("C15", "Every path of the encrypting store's saves, reads and subscriptions, of the decrypting iterator and subscriber, and of the event encryptor and its key engine is explored: each event of the batch passes Encrypt successfully before the save is handed on, each record passes Decrypt before it is presented, and keys come from the key store.", encAssume, func(P *Prog, R *Report) {
		s := P.StoreOf("encrypting")
		if s == nil {
			R.Fail("no-store", token.NoPos, "no encrypting store found", nil)
			return
		}
		for _, op := range []string{"Save", "OptimisticSave"} {
			if f := P.Method(s.N, op); f != nil {
				encSave(P, R, f)
			}
		}
		its, subs := map[*types.Named]bool{}, map[*types.Named]bool{}
		for _, op := range []string{"Events", "EventsByAggregateTypes", "EventsByStream", "AllEventsSubscription", "AggregateTypesSubscription"} {
			if f := P.Method(s.N, op); f != nil {
				encWrap(P, R, f, its, subs)
			}
		}
		for n := range its {
			for _, m := range []string{"Next", "NextContext"} {
				decNext(P, R, n, P.Method(n, m))
				if f := P.Method(n, m); f != nil {
					(&iterScen{P: P, R: R, n: n, root: f}).run()
				}
			}
		}
		for _, n := range P.Implementers(P.Iface("", "RecordSubscriber")) {
			st := structOf(n)
			for i := 0; st != nil && i < st.NumFields(); i++ {
				if isNamedIn(st.Field(i).Type(), modPath+"/pkg/crypto", "EventEncryptor") {
					subs[n] = true
				}
			}
		}
		for n := range subs {
			decAccept(P, R, P.Method(n, "Accept"))
		}
		encryptors(P, R)
		R.Need("every event is encrypted before the save is handed on", 2)
		R.Need("a read's records pass decryption", 3)
		R.Need("a subscriber's records pass decryption", 2)
		R.Need("a record handed out has been decrypted", 2)
		R.Need("a record received is delivered", 2)
		R.Need("a record shared with other subscribers is left as it is", 2)
		R.Need("self-encrypting events are encrypted and decrypted, others refused if they would be", 2)
		R.Need("the key used is the one stored for the subject", 2)
	})
}

// ---------------------------------------------------------------- saves

type encSaveRule struct {
	Base
	P      *Prog
	R      *Report
	root   *ssa.Function
	name   string
	events *Val
	loops  *LoopTab
	first  bool
}

func encSave(P *Prog, R *Report, f *ssa.Function) {
	r := &encSaveRule{P: P, R: R, root: f, name: FnName(f), loops: NewLoopTab()}
	for _, r.first = range []bool{true, false} {
		e := NewEngine(P, r)
		e.RunRoot(f, func(p *Path, pa []*Val) {
			p.SetNil(pa[0], false)
			r.events = pa[len(pa)-1]
		})
		if !r.first {
			R.Engine(e, r.name)
		}
	}
}

func (r *encSaveRule) fail(key string, p *Path, pos token.Pos, msg string) {
	if !r.first {
		r.R.Fail(key+":"+r.name, pos, r.name+": "+msg, p)
	}
}

func (r *encSaveRule) Model(p *Path, c *Call) []Outcome {
	if isCryptoCall(c, "Encrypt") && c.Fn == nil {
		ev := c.Args[1]
		return errFork(func(q *Path, res *Val) {
			el, n := fieldRead(ev)
			if el == nil || n != "Event" {
				return
			}
			if l, idx := elemOf(el); l == r.events {
				q.SetV("enc", nil, "1", idx)
			}
		}, func(q *Path, res *Val) {
			q.SetV("failed", nil, "1", q.ErrOf(res))
		})
	}
	if isStoreOp(c) != "" {
		return errFork(nil, nil)
	}
	if failing(r.P, c) {
		return errFork(nil, nil)
	}
	return nil
}

func (r *encSaveRule) Event(p *Path, ev *Ev) {
	r.loops.Observe(p, ev)
	switch ev.K {
	case EvBranch:
		l, idx, more := listBranch(ev)
		if l != r.events {
			return
		}
		if p.Get("pend", nil) != "" {
			if e := p.Get("enc", nil); e == "" || p.GetV("enc", nil) != p.GetV("pend", nil) {
				r.fail("not-encrypted", p, ev.Instr.Pos(), "goes on to the next event of the batch although this one has not been encrypted")
			}
			p.Del("pend", nil)
		}
		p.Del("enc", nil)
		if more {
			if !r.loops.everyIndex(idx) && !r.first {
				return
			}
			p.SetV("pend", nil, "1", idx)
			p.Del("exh", nil)
		} else if r.loops.everyIndex(idx) {
			p.Set("exh", nil, "1")
		}
	case EvStore:
		// an event replaced after it was encrypted, or the batch changed
		if b := ev.Addr; b.K == KIndexAddr && b.Args[0] == r.events {
			r.fail("batch-changed", p, ev.Instr.Pos(), "an element of the batch is replaced")
		}
	case EvCall:
		op := isStoreOp(ev.Call)
		if op == "" {
			return
		}
		r.R.Obl("every event is encrypted before the save is handed on", r.name)
		a := ev.Call.Args
		if !in(op, "Save", "OptimisticSave") {
			return
		}
		if p.Get("failed", nil) != "" {
			r.fail("saved-after-failure", p, ev.Instr.Pos(), "the save is handed on although an event could not be encrypted")
			return
		}
		if a[len(a)-1] != r.events {
			r.fail("other-batch", p, ev.Instr.Pos(), "another list of events is handed on than the one that was encrypted")
			return
		}
		if p.Get("exh", nil) == "" {
			r.fail("not-all-encrypted", p, ev.Instr.Pos(), "the save is handed on before every event of the batch was encrypted")
		}
	case EvExit:
		if p.Get("failed", nil) != "" {
			e := ev.Res_[len(ev.Res_)-1]
			if p.NilState(e) != -1 || !p.mentionsVal(e, p.GetV("failed", nil)) {
				r.fail("failure-hidden", p, ev.Instr.Pos(), "an event could not be encrypted, but the caller does not get that error")
			}
		}
	}
}

// mentionsVal: is x (part of) v, an error wrapping included?
func (p *Path) mentionsVal(v, x *Val) bool {
	return v != nil && x != nil && (v == x || v.Contains(x))
}

// ---------------------------------------------------------------- wrapping

type encWrapRule struct {
	Base
	P         *Prog
	R         *Report
	root      *ssa.Function
	name      string
	recv      *Val
	sub       *Val
	its, subs map[*types.Named]bool
}

func encWrap(P *Prog, R *Report, f *ssa.Function, its, subs map[*types.Named]bool) {
	r := &encWrapRule{P: P, R: R, root: f, name: FnName(f), its: its, subs: subs}
	e := NewEngine(P, r)
	e.RunRoot(f, func(p *Path, pa []*Val) {
		r.recv = pa[0]
		p.SetNil(pa[0], false)
		for _, a := range pa {
			if isNamedIn(a.T, modPath, "RecordSubscriber") {
				r.sub = a
			}
		}
	})
	R.Engine(e, r.name)
}

func isSubscriptionOp(c *Call) bool {
	return c.M != nil && c.Fn == nil && c.M.Pkg() != nil && c.M.Pkg().Path() == modPath && in(c.M.Name(), "AllEventsSubscription", "AggregateTypesSubscription")
}

// usesEncryptor: the wrapper got the store's event encryptor.
func (r *encWrapRule) usesEncryptor(p *Path, w *Val) bool {
	st := structOf(w.T)
	if st == nil {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if isNamedIn(st.Field(i).Type(), modPath+"/pkg/crypto", "EventEncryptor") {
			v := p.FieldOf(w, st.Field(i).Name())
			b, _ := fieldRead(v)
			if b == r.recv && isNamedIn(v.T, modPath+"/pkg/crypto", "EventEncryptor") {
				return true
			}
		}
	}
	return false
}

func (r *encWrapRule) Event(p *Path, ev *Ev) {
	if p.GetV("record", nil) != nil {
		r.acceptEvent(p, ev)
		return
	}
	switch ev.K {
	case EvCallDone:
		if isRead(isStoreOp(ev.Call)) {
			p.SetV("read", nil, "1", ev.Res)
		}
	case EvCall:
		if !isSubscriptionOp(ev.Call) {
			return
		}
		r.R.Obl("a subscriber's records pass decryption", r.name)
		for i, a := range ev.Call.Args {
			if i == 0 || a == nil {
				continue
			}
			if a == r.sub {
				r.R.Fail("subscriber-bare:"+r.name, ev.Instr.Pos(), r.name+": the subscriber is registered without decryption", p)
				return
			}
			if a.T == nil || types.IsInterface(a.T) {
				continue
			}
			sel := r.P.SSA.MethodSets.MethodSet(a.T).Lookup(nil, "Accept")
			if sel == nil {
				continue
			}
			fn := r.P.SSA.MethodValue(sel)
			if fn == nil || len(fn.Params) != 2 || len(fn.Blocks) == 0 {
				continue
			}
			r.accept(p, ev.Call, fn, a)
			p.Set("wrapped", nil, "1")
			if n := namedOf(a.T); n != nil && a.K == KAlloc && p.holds(a, r.sub) != "" {
				r.subs[n] = true
			}
		}
		if p.Get("wrapped", nil) == "" {
			r.R.Fail("subscriber-wrapper:"+r.name, ev.Instr.Pos(), r.name+": the subscriber that is registered is not recognised as one that decrypts for the caller's subscriber", p)
		}
	case EvExit:
		if r.sub != nil {
			if p.Get("wrapped", nil) == "" {
				r.R.Fail("subscriber-lost:"+r.name, ev.Instr.Pos(), r.name+": the subscriber is not registered with the wrapped store", p)
			}
			return
		}
		r.R.Obl("a read's records pass decryption", r.name)
		w := ev.Res_[0]
		n := namedOf(w.T)
		if w.K != KAlloc || n == nil || p.holds(w, p.GetV("read", nil)) == "" {
			r.R.Fail("read-bare:"+r.name, ev.Instr.Pos(), r.name+": the iterator returned is not one that decrypts the wrapped store's records", p)
			return
		}
		if !r.usesEncryptor(p, w) {
			r.R.Fail("read-encryptor:"+r.name, ev.Instr.Pos(), r.name+": the iterator returned does not use the store's event encryptor", p)
		}
		r.its[n] = true
	}
}

// accept explores what the registered subscriber does with a record. The wrapped store hands the same record to all of
// its subscribers, so the event is decrypted in a copy.
func (r *encWrapRule) accept(p *Path, c *Call, fn *ssa.Function, recv *Val) {
	q := p.clone()
	rec := q.E.T.mk(Val{K: KBuiltin, Op: "record", T: fn.Params[1].Type()})
	parent := p.top().frame
	q.acts = nil
	q.RS = map[RK]RV{{"record", nil}: {S: "1", V: rec}}
	q.SetNil(rec, false)
	q.push(p.E.T.Frame(parent, c.Instr, fn), []*Val{recv, rec}, nil)
	q.top().tag = "go"
	q.top().call = c
	p.E.Run(q)
}

func (r *encWrapRule) Model(p *Path, c *Call) []Outcome {
	rec := p.GetV("record", nil)
	if rec == nil || !isCryptoCall(c, "Decrypt") || c.Fn != nil {
		return nil
	}
	b, _ := fieldRead(c.Args[0])
	if b != r.recv {
		r.R.Fail("subscriber-encryptor:"+r.name, c.Instr.Pos(), r.name+": the subscriber's wrapper does not use the store's event encryptor", p)
	}
	x := unconv(c.Args[1])
	r.R.Obl("a record shared with other subscribers is left as it is", r.name)
	if reads(x, rec, "Data") && p.Get("value", nil) == "" {
		r.R.Fail("shared-event:"+r.name, c.Instr.Pos(), r.name+": the event is decrypted in the record that the wrapped store also hands to its other subscribers", p)
	}
	done := func(q *Path, res *Val) { q.Set("ok", x, "1") }
	return errFork(done, done)
}

func (r *encWrapRule) acceptEvent(p *Path, ev *Ev) {
	rec := p.GetV("record", nil)
	switch ev.K {
	case EvStore:
		if b := ev.Addr; b != nil && b.Contains(rec) {
			r.R.Fail("shared-record:"+r.name, ev.Instr.Pos(), r.name+": a record is changed that the wrapped store also hands to its other subscribers", p)
		}
	case EvBranch:
		c, want := ev.Val, ev.Bool
		for c.K == KNot {
			c, want = c.Args[0], !want
		}
		if c.K == KTypeOK && !want && (isNamedIn(c.T, modPath, "Event") || isNamedIn(c.T, modPath+"/pkg/crypto", "SelfEncryptor")) {
			p.Set("ok", unconv(c.Args[0]), "1")
		}
		// not a pointer, or nil: nothing is shared
		if c.K == KCall && want && c.FullName() == "(reflect.Value).IsNil" && reads(reflected(c), rec, "Data") {
			p.Set("value", nil, "1")
		}
		if c.K == KEq && len(c.Args) == 2 {
			for i, k := range c.Args {
				if k.K == KCall && in(k.FullName(), "(reflect.Value).Kind", "(reflect.Type).Kind", "(*reflect.rtype).Kind") && reads(reflected(k), rec, "Data") {
					if n, ok := intOf(c.Args[1-i]); ok && (n == int64(reflect.Ptr)) != want {
						p.Set("value", nil, "1")
					}
				}
			}
		}
	case EvCall:
		c := ev.Call
		switch c.Name() {
		case "(reflect.Value).Set":
			if src := reflected(c.Args[1]); reads(src, rec, "Data") {
				p.Set("filled", c.Args[0], "1")
			}
		}
		if c.M == nil || c.M.Name() != "Accept" || c.Fn != nil || len(c.Args) != 2 {
			return
		}
		r.R.Obl("a subscriber is given the record received, its event decrypted", r.name)
		y := c.Args[1]
		if c.Args[0] != r.sub {
			r.R.Fail("other-subscriber:"+r.name, ev.Instr.Pos(), r.name+": a record is delivered to another subscriber than the caller's", p)
			return
		}
		if p.Get("sent", nil) != "" {
			r.R.Fail("twice:"+r.name, ev.Instr.Pos(), r.name+": a record is delivered twice", p)
		}
		p.Set("sent", nil, "1")
		x := unconv(p.FieldOf(y, "Data"))
		if y != rec {
			st := structOf(rec.T)
			for i := 0; i < st.NumFields(); i++ {
				n := st.Field(i).Name()
				if v := p.FieldOf(y, n); n != "Data" && !reads(v, rec, n) {
					r.R.Fail("other-record:"+r.name, ev.Instr.Pos(), r.name+": the record delivered differs in "+n+" from the one received", p)
					return
				}
			}
		}
		if p.Get("ok", x) == "" {
			r.R.Fail("not-decrypted:"+r.name, ev.Instr.Pos(), r.name+": a record is delivered before its event was decrypted", p)
		}
		if !reads(x, rec, "Data") && !r.copyOf(p, x, rec) {
			r.R.Fail("other-event:"+r.name, ev.Instr.Pos(), r.name+": the event delivered is not known to be a copy of the one received", p)
		}
	case EvExit:
		r.R.Obl("a record received is delivered", r.name)
		if p.Get("sent", nil) == "" {
			r.R.Fail("not-delivered:"+r.name, ev.Instr.Pos(), r.name+": a record is not delivered", p)
		}
	}
}

// reflected: the value that a reflect expression is about.
func reflected(v *Val) *Val {
	for v != nil && v.K == KCall && len(v.Args) > 0 {
		switch v.FullName() {
		case "(reflect.Value).Elem", "(reflect.Value).Kind", "(reflect.Value).IsNil", "reflect.Indirect", "(reflect.Value).Type", "(reflect.Type).Kind", "(reflect.Type).Elem", "reflect.ValueOf", "reflect.TypeOf":
			v = unconv(v.Args[0])
		default:
			return v
		}
	}
	return v
}

// copyOf: x is made from the event of rec.
func (r *encWrapRule) copyOf(p *Path, x, rec *Val) bool {
	isNew := func(v *Val) bool { return v.K == KCall && in(v.FullName(), "reflect.New", "reflect.Zero") }
	if !x.Any(isNew) {
		return x.Any(func(v *Val) bool { return reads(v, rec, "Data") })
	}
	for k := range p.RS {
		if k.S == "filled" && k.V.Any(func(v *Val) bool { return isNew(v) && x.Contains(v) }) {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- decrypting iterator and subscriber

// decRule: a record that is presented or delivered is not an event, or has been through Decrypt.
type decRule struct {
	Base
	P    *Prog
	R    *Report
	root *ssa.Function
	name string
	rec  *Val // the record (subscriber)
	it   bool
}

func decNext(P *Prog, R *Report, n *types.Named, f *ssa.Function) {
	if f == nil {
		return
	}
	r := &decRule{P: P, R: R, root: f, name: FnName(f), it: true}
	e := NewEngine(P, r)
	e.RunRoot(f, func(p *Path, pa []*Val) { p.SetNil(pa[0], false) })
	R.Engine(e, r.name)
}

func decAccept(P *Prog, R *Report, f *ssa.Function) {
	if f == nil {
		return
	}
	r := &decRule{P: P, R: R, root: f, name: FnName(f)}
	e := NewEngine(P, r)
	e.RunRoot(f, func(p *Path, pa []*Val) {
		p.SetNil(pa[0], false)
		r.rec = pa[1]
	})
	R.Engine(e, r.name)
}

func (r *decRule) Model(p *Path, c *Call) []Outcome {
	switch {
	case !r.it:
	case isIterMethod(r.P, c, "Next"), isIterMethod(r.P, c, "NextContext"):
		return boolFork(func(q *Path, res *Val) { q.Set("more", nil, "1"); q.Del("ok", nil) }, nil)
	case isIterMethod(r.P, c, "Record"):
		if v := p.GetV("rec", nil); v != nil {
			return []Outcome{{Res: v}}
		}
		return []Outcome{{Opaque: true, After: func(q *Path, res *Val) bool {
			q.SetV("rec", nil, "1", res)
			return q.SetNil(res, q.Get("more", nil) == "")
		}}}
	}
	if isCryptoCall(c, "Decrypt") && c.Fn == nil {
		rec := r.rec
		if r.it {
			rec = p.GetV("rec", nil)
		}
		ok := func(q *Path, res *Val) {
			if rec != nil && reads(c.Args[1], rec, "Data") {
				q.Set("ok", nil, "1")
			}
		}
		return errFork(ok, ok)
	}
	return nil
}

func (r *decRule) Event(p *Path, ev *Ev) {
	switch ev.K {
	case EvBranch:
		c, want := ev.Val, ev.Bool
		for c.K == KNot {
			c, want = c.Args[0], !want
		}
		rec := r.rec
		if r.it {
			rec = p.GetV("rec", nil)
		}
		if c.K == KTypeOK && !want && rec != nil && reads(c.Args[0], rec, "Data") && (isNamedIn(c.T, modPath, "Event") || isNamedIn(c.T, modPath+"/pkg/crypto", "SelfEncryptor")) {
			p.Set("ok", nil, "1")
		}
	case EvCall:
		c := ev.Call
		if r.it || c.M == nil || c.M.Name() != "Accept" || c.Fn != nil {
			return
		}
		r.R.Obl("a delivered record has been decrypted", r.name)
		if len(c.Args) != 2 || c.Args[1] != r.rec {
			r.R.Fail("other-record:"+r.name, ev.Instr.Pos(), r.name+": another record is delivered than the one received", p)
		}
		if p.Get("ok", nil) == "" {
			r.R.Fail("not-decrypted:"+r.name, ev.Instr.Pos(), r.name+": a record is delivered before its event was decrypted", p)
		}
		if p.Get("sent", nil) != "" {
			r.R.Fail("twice:"+r.name, ev.Instr.Pos(), r.name+": a record is delivered twice", p)
		}
		p.Set("sent", nil, "1")
	case EvExit:
		if !r.it {
			if p.Get("sent", nil) == "" {
				r.R.Fail("not-delivered:"+r.name, ev.Instr.Pos(), r.name+": a record is not delivered", p)
			}
			return
		}
		r.R.Obl("a record handed out has been decrypted", r.name)
		if len(ev.Res_) == 1 && p.Truth(ev.Res_[0]) != -1 && p.Get("ok", nil) == "" {
			r.R.Fail("not-decrypted:"+r.name, ev.Instr.Pos(), r.name+": a record is presented whose event has not been decrypted", p)
		}
	}
}

// ---------------------------------------------------------------- event encryptor and key engine

func encryptors(P *Prog, R *Report) {
	for _, n := range P.Implementers(P.Iface("pkg/crypto", "EventEncryptor")) {
		for _, m := range []string{"Encrypt", "Decrypt"} {
			r := &evEncRule{P: P, R: R, root: P.Method(n, m), op: m}
			r.run()
		}
	}
	for _, n := range P.Implementers(P.Iface("pkg/crypto", "Encryptor")) {
		st := structOf(n)
		ks := false
		for i := 0; st != nil && i < st.NumFields(); i++ {
			if isNamedIn(st.Field(i).Type(), modPath+"/pkg/crypto", "KeyStore") {
				ks = true
			}
		}
		if !ks {
			continue
		}
		for _, m := range []string{"Encrypt", "Decrypt"} {
			r := &engineRule{P: P, R: R, root: P.Method(n, m), op: m}
			r.run()
		}
	}
}

type evEncRule struct {
	Base
	P     *Prog
	R     *Report
	root  *ssa.Function
	op    string
	name  string
	event *Val
}

func (r *evEncRule) run() {
	r.name = FnName(r.root)
	e := NewEngine(r.P, r)
	e.RunRoot(r.root, func(p *Path, pa []*Val) {
		p.SetNil(pa[0], false)
		r.event = pa[1]
	})
	r.R.Engine(e, r.name)
}

func isSelfCrypto(c *Call) bool {
	return c.M != nil && c.Fn == nil && isNamedIn(recvType(c.M), modPath+"/pkg/crypto", "SelfEncryptor")
}

func recvType(m *types.Func) types.Type {
	if s, ok := m.Type().(*types.Signature); ok && s.Recv() != nil {
		return s.Recv().Type()
	}
	return types.Typ[types.Invalid]
}

func (r *evEncRule) Model(p *Path, c *Call) []Outcome {
	if isSelfCrypto(c) {
		mark := func(s string) func(q *Path, res *Val) {
			return func(q *Path, res *Val) { q.SetV("self", nil, s, q.ErrOf(res)) }
		}
		return errFork(mark("ok"), mark("failed"))
	}
	if c.M != nil && c.M.Name() == "Implements" && c.M.Pkg() != nil && c.M.Pkg().Path() == "reflect" {
		return boolFork(func(q *Path, res *Val) { q.Set("impl", nil, "t") }, func(q *Path, res *Val) { q.Set("impl", nil, "f") })
	}
	return nil
}

func (r *evEncRule) Event(p *Path, ev *Ev) {
	bad := func(k, m string) { r.R.Fail(k+":"+r.name, ev.Instr.Pos(), r.name+": "+m, p) }
	switch ev.K {
	case EvBranch:
		c, want := ev.Val, ev.Bool
		for c.K == KNot {
			c, want = c.Args[0], !want
		}
		if c.K == KTypeOK && c.Args[0] == r.event && isNamedIn(c.T, modPath+"/pkg/crypto", "SelfEncryptor") {
			if want {
				p.Set("is", nil, "t")
			} else {
				p.Set("is", nil, "f")
			}
		}
	case EvCall:
		if c := ev.Call; isSelfCrypto(c) {
			if c.Args[0] != r.event {
				bad("other-event", "another event is worked on than the one given")
			}
			if c.M.Name() != r.op {
				bad("wrong-way", r.op+" ends up in "+c.M.Name())
			}
			if p.Get("self", nil) != "" {
				bad("twice", "an event is put through "+r.op+" twice")
			}
		}
	case EvExit:
		r.R.Obl("self-encrypting events are encrypted and decrypted, others refused if they would be", r.name)
		err := ev.Res_[0]
		ns := p.NilState(err)
		switch p.Get("self", nil) {
		case "ok":
		case "failed":
			if ns != -1 {
				bad("failure-hidden", "an event's "+r.op+" failed, but no error is returned")
			}
		default:
			if ns == -1 {
				return
			}
			if p.Get("is", nil) != "f" {
				bad("not-done", "an event that encrypts itself is not put through "+r.op)
			}
			if r.op == "Encrypt" && p.Get("impl", nil) != "f" {
				bad("value-event", "an event given by value, whose pointer encrypts itself, is accepted unencrypted")
			}
		}
	}
}

type engineRule struct {
	Base
	P             *Prog
	R             *Report
	root          *ssa.Function
	op            string
	name          string
	subject, data *Val
}

func (r *engineRule) run() {
	r.name = FnName(r.root)
	e := NewEngine(r.P, r)
	e.RunRoot(r.root, func(p *Path, pa []*Val) {
		p.SetNil(pa[0], false)
		r.subject, r.data = pa[1], pa[2]
	})
	r.R.Engine(e, r.name)
}

func isKeyStoreCall(c *Call, name string) bool {
	return c.M != nil && c.Fn == nil && c.M.Name() == name && isNamedIn(recvType(c.M), modPath+"/pkg/crypto", "KeyStore")
}

func isCipherCall(c *Call) bool {
	return c.M != nil && c.Fn == nil && isNamedIn(recvType(c.M), modPath+"/pkg/crypto", "Encryptor")
}

func (P *Prog) gval(pkg, name string) *Val {
	o := P.Lookup(pkg, name)
	v, ok := o.(*types.Var)
	if !ok {
		return nil
	}
	sp := P.SSA.Package(v.Pkg())
	if sp == nil {
		return nil
	}
	g := sp.Var(name)
	return P.T.mk(Val{K: KGVal, Site: g, T: v.Type()})
}

func (r *engineRule) Model(p *Path, c *Call) []Outcome {
	nf := r.P.gval("pkg/crypto", "ErrKeyNotFound")
	switch {
	case isKeyStoreCall(c, "Get"):
		return []Outcome{
			{Opaque: true, After: func(q *Path, res *Val) bool {
				if c.Args[1] == r.subject {
					q.SetV("key", nil, "stored", q.ResOf(res, 0))
				}
				return q.SetNil(q.ErrOf(res), true)
			}},
			{Opaque: true, After: func(q *Path, res *Val) bool {
				q.Set("notfound", nil, "1")
				q.Note(c.Instr.Pos(), "the key store has no key for the subject")
				e := q.ErrOf(res)
				return q.SetNil(e, false) && q.Assume(q.E.T.Eq(e, nf), true)
			}},
			{Opaque: true, After: func(q *Path, res *Val) bool {
				q.Set("failed", nil, "1")
				q.Note(c.Instr.Pos(), "the key store fails, or reports the key as deleted")
				e := q.ErrOf(res)
				return q.SetNil(e, false) && q.Assume(q.E.T.Eq(e, nf), false)
			}},
		}
	case isKeyStoreCall(c, "Set"):
		return errFork(func(q *Path, res *Val) {
			if c.Args[1] == r.subject {
				q.SetV("key", nil, "new", c.Args[2])
			}
		}, func(q *Path, res *Val) { q.Set("failed", nil, "1") })
	case isCipherCall(c):
		return errFork(func(q *Path, res *Val) { q.SetV("out", nil, "ok", q.ResOf(res, 0)) }, func(q *Path, res *Val) { q.Set("failed", nil, "1") })
	}
	if failing(r.P, c) {
		return errFork(nil, func(q *Path, res *Val) { q.Set("failed", nil, "1") })
	}
	return nil
}

func (r *engineRule) Event(p *Path, ev *Ev) {
	bad := func(k, m string) { r.R.Fail(k+":"+r.name, ev.Instr.Pos(), r.name+": "+m, p) }
	switch ev.K {
	case EvCall:
		c := ev.Call
		switch {
		case isKeyStoreCall(c, "Set"):
			if p.Get("notfound", nil) == "" || r.op != "Encrypt" {
				bad("key-created", "a key is created although the key store did not say that there is none")
			}
		case isKeyStoreCall(c, "Delete"):
			bad("key-deleted", "a key is deleted")
		case isCipherCall(c):
			r.R.Obl("the key used is the one stored for the subject", r.name)
			if c.M.Name() != r.op {
				bad("wrong-way", r.op+" ends up in "+c.M.Name())
			}
			if p.Get("failed", nil) != "" {
				bad("key-failed", "goes on although the key could not be read or stored")
			}
			if k := p.GetV("key", nil); k == nil || c.Args[1] != k {
				bad("other-key", "the key used is not the one the key store has for the subject")
			}
			if c.Args[2] != r.data {
				bad("other-data", "the data handed to the cipher is not what was given")
			}
		}
	case EvExit:
		ns := p.NilState(ev.Res_[1])
		if p.Get("failed", nil) != "" || p.Get("notfound", nil) != "" && p.GetV("key", nil) == nil {
			if ns != -1 {
				bad("failure-hidden", "reports success although a key or cipher operation failed")
			}
			return
		}
		if ns != -1 && (p.GetV("out", nil) == nil || ev.Res_[0] != p.GetV("out", nil)) {
			bad("other-result", "what is returned is not the cipher's result")
		}
	}
}
