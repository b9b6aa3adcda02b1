package main

import (
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- in-memory store

// keyClass names what a map key of the in-memory store is.
func (r *storeRule) keyClass(p *Path, k *Val) string {
	switch {
	case k == nil:
		return "?"
	case k == r.stream:
		return "stream"
	case k.K == KBuiltin && k.Op == "pure:AggregateType":
		return "aggregateType"
	case k.T != nil && isIntT(k.T):
		return "number"
	case k.K == KLoad && k.Args[0].K == KFieldAddr && k.Args[0].Op == "AggregateType":
		return "aggregateType"
	case k.T != nil && types.Identical(k.T.Underlying(), types.Typ[types.String]):
		if c, ok := r.strClass(p, k); ok {
			return c
		}
		return "string"
	}
	return "?"
}

// strClass: loop variables that only ever hold one class of string.
func (r *storeRule) strClass(p *Path, k *Val) (string, bool) {
	in, _, ok := r.loops.Carried(k)
	if !ok {
		return "", false
	}
	c := ""
	for x := range in {
		if x.K == KConst || x == k {
			continue
		}
		y := r.keyClass(p, x)
		if c != "" && c != y {
			return "", false
		}
		c = y
	}
	return c, c != ""
}

func (r *storeRule) content(p *Path, f, v, old *Val) bool {
	if v == nil {
		return false
	}
	if old != nil && v == old {
		return true
	}
	return r.recvField(v) == f
}

// amount: how many elements a term counts relative to the number of completed rounds
// (0: one per completed round, 1: one more), if it counts created records.
func (r *storeRule) amount(p *Path, v *Val) (int, bool) {
	if v == nil {
		return 0, false
	}
	if v.K == KLen {
		l, n := v.Args[0], 0
		for l.K == KAppend && len(l.Args) == 3 {
			l, n = l.Args[0], n+1
		}
		if l.K == KNil || l.K == KMake {
			return n, true
		}
		if _, st, ok := r.loops.Carried(l); ok && onlySteps(st, "append1") && len(st) > 0 {
			return n, true
		}
		return 0, false
	}
	n := 0
	if v.K == KBin && v.Op == "+" && isInt(v.Args[1], 1) {
		v, n = v.Args[0], 1
	}
	if isInt(v, int64(n)) && v.K == KConst {
		return n, true
	}
	if in, st, ok := r.loops.Carried(v); ok && onlySteps(st, "+1") && len(st) > 0 {
		for x := range in {
			if !isInt(x, 0) {
				return 0, false
			}
		}
		return n, true
	}
	return 0, false
}

func atoi(s string) int { n, _ := strconv.Atoi(s); return n }

func (r *storeRule) memChange(p *Path, ev *Ev) {
	pos := ev.Instr.Pos()
	switch ev.K {
	case EvStore:
		f := ev.Addr
		if f.K != KFieldAddr || f.Args[0] != r.recv {
			return
		}
		r.effect(p, pos, "field "+f.Op)
		if !r.isSave() {
			r.memDeleteStore(p, ev, f)
			return
		}
		v := ev.Val
		switch {
		case ev.Val.K == KAppend && r.content(p, f, v.Args[0], ev.Old):
			r.growth(p, f, nil, pos)
			if r.recElem(p, v) != p.GetV("gsn", nil) {
				r.fail("C05", "index-entry:"+f.Op, p, pos, "enters something else than the record's global sequence number into "+f.Op)
			}
		case v.K == KBin && v.Op == "+" && v.Args[1].K == KConst && r.content(p, f, v.Args[0], ev.Old) && isIntT(v.T):
			r.growth(p, f, nil, pos)
		case v == p.GetV("gsn", nil) && isIntT(v.T) && v.Any(func(x *Val) bool { return phiOf(x) != nil }):
			r.growth(p, f, nil, pos)
		case v.K == KBin && v.Op == "-" && r.content(p, f, v.Args[0], ev.Old):
			r.undo(p, f, nil, v.Args[1], pos)
		case v.K == KSlice && r.content(p, f, v.Args[0], ev.Old) && v.Args[1] == nil && v.Args[2] != nil && v.Args[2].K == KBin && v.Args[2].Op == "-":
			r.undo(p, f, nil, v.Args[2].Args[1], pos)
		case v == p.GetV("snap", f):
			r.undone(p, f)
		case r.content(p, f, v, ev.Old):
			// unchanged
		default:
			if isIntT(v.T) || isSliceT(v.T) {
				r.fail("C02", "unknown-change:"+f.Op, p, pos, "changes "+f.Op+" in a way that is neither an addition nor its undoing")
				if isIntT(v.T) {
					r.fail("C04", "counter:"+f.Op, p, pos, "sets "+f.Op+" to something that is not one more than before")
				}
			}
		}
	case EvMapUpdate:
		f := r.recvField(ev.Addr)
		if f == nil {
			return
		}
		r.effect(p, pos, "map "+f.Op)
		if !r.isSave() {
			r.memDeleteUpdate(p, ev, f)
			return
		}
		v := ev.Val
		if v.K == KSlice && v.Args[1] == nil && v.Args[2] != nil && v.Args[2].K == KBin && v.Args[2].Op == "-" {
			if g, k := r.mapContent(v.Args[0]); g == f && k == ev.Key {
				r.undo(p, f, ev.Key, v.Args[2].Args[1], pos)
				return
			}
		}
		if v.K == KLookup && v.Args[0] == ev.Addr && v.Args[1] == ev.Key && p.Get("grewsym", v) == "" {
			r.undone(p, f)
			return
		}
		if v.K == KAppend {
			if g, k := r.mapContent(v); g != f || k != ev.Key {
				r.fail("C05", "index-mix:"+f.Op, p, pos, "the list stored under a key of "+f.Op+" does not extend the list that was there")
			} else if r.recElem(p, v) != p.GetV("gsn", nil) {
				r.fail("C05", "index-entry:"+f.Op, p, pos, "enters something else than the record's global sequence number into "+f.Op)
			}
		}
		kc := r.keyClass(p, ev.Key)
		if r.gKey[f] == nil {
			r.gKey[f] = map[string]bool{}
		}
		r.gKey[f][kc] = true
		if kc == "number" && ev.Key != p.GetV("gsn", nil) {
			r.fail("C05", "data-key:"+f.Op, p, pos, "stores the record's data under another number than its global sequence number")
		}
		r.growth(p, f, ev.Key, pos)
	case EvMapDelete:
		f := r.recvField(ev.Addr)
		if f == nil {
			return
		}
		r.effect(p, pos, "map "+f.Op)
		if !r.isSave() {
			r.memDeleteDelete(p, ev, f)
			return
		}
		// one entry per created record, or an emptied list
		if l, _ := elemOf(ev.Key); l != nil {
			if n, ok := r.amount(p, p.E.T.mk(Val{K: KLen, Args: []*Val{l}})); ok {
				r.undoN(p, f, nil, n, pos)
				return
			}
		}
		g, k := f, ev.Key
		empty := false
		for a, v := range p.mem {
			if a.K == KMapElem && a.Op == "" && a.Args[0] == ev.Addr && a.Args[1] == k && p.Truth(p.E.T.Lt(p.E.T.Int(0), p.E.T.mk(Val{K: KLen, Args: []*Val{v}, T: types.Typ[types.Int]}))) == -1 {
				empty = true
			}
		}
		if !empty {
			r.fail("C02", "removes:"+g.Op, p, pos, "a save removes "+g.Op+" entries that it may not have created")
		}
	}
}

func (r *storeRule) recElem(p *Path, v *Val) *Val {
	if v.K == KAppend && len(v.Args) == 3 {
		return v.Args[2]
	}
	return nil
}

func (r *storeRule) growth(p *Path, f, key *Val, pos token.Pos) {
	r.grown[f] = true
	p.Set("cnt", f, strconv.Itoa(atoi(p.Get("cnt", f))+1))
	p.SetV("grew", f, "1", key)
	p.Set("effect", nil, "1")
	p.Del("undoing", nil)
	p.Del("undone", f)
	r.obl("C02", "what a save adds can be undone", f.Op+" at "+r.P.Pos(pos))
}

func (r *storeRule) undo(p *Path, f, key, by *Val, pos token.Pos) {
	n, ok := r.amount(p, by)
	if !ok {
		r.fail("C02", "undo-amount:"+f.Op, p, pos, "undoing a failed save takes a number of entries from "+f.Op+" that is not the number of events stored by it")
		return
	}
	r.undoN(p, f, key, n, pos)
}

func (r *storeRule) undoN(p *Path, f, key *Val, n int, pos token.Pos) {
	r.obl("C02", "undoing takes back exactly what was added", f.Op+" at "+r.P.Pos(pos))
	p.Set("undoing", nil, "1")
	if c := atoi(p.Get("cnt", f)); c != n {
		r.fail("C02", "undo-count:"+f.Op, p, pos, "undoing a failed save takes another number of entries from "+f.Op+" than were added")
	}
	if key != nil {
		if g := p.GetV("grew", f); g != nil && g != key && p.Truth(p.E.T.Eq(g, key)) != 1 {
			r.fail("C02", "undo-key:"+f.Op, p, pos, "undoing a failed save takes entries of "+f.Op+" from under another key than they were added to")
		}
	}
	r.undone(p, f)
}

func (r *storeRule) undone(p *Path, f *Val) {
	p.Set("undone", f, "1")
	p.Set("undoing", nil, "1")
}

// memNet: may this path have changed the store on balance?
func (r *storeRule) memNet(p *Path) bool {
	if !r.isSave() {
		return p.Get("effect", nil) == "1"
	}
	net := false
	p.Each("grew", func(f *Val, _ RV) {
		if p.Get("undone", f) != "1" {
			net = true
		}
	})
	return net
}

func (r *storeRule) memLoop(p *Path, h *ssa.BasicBlock) {
	if !r.isSave() {
		return
	}
	if p.Get("undoing", nil) == "1" {
		return
	}
	any := p.AnyRS("cnt", "")
	if any {
		r.growLp[h] = true
		if !r.collect {
			for f := range r.grown {
				if p.Get("cnt", f) != "1" {
					r.fail("C02", "uneven:"+f.Op, p, token.NoPos, "one event of a batch changes "+f.Op+" another number of times than once")
					r.fail("C05", "uneven:"+f.Op, p, token.NoPos, "one event of a batch is entered into "+f.Op+" another number of times than once")
				}
			}
		}
		p.DelAll("cnt")
	} else if r.growLp[h] && p.Get("elem", nil) == "1" {
		r.fail("C02", "event-skipped", p, token.NoPos, "passes over an event without storing it")
	}
}

func (r *storeRule) memExit(p *Path, pos token.Pos, mayOK, mayErr bool) {
	if !r.isSave() {
		if mayOK {
			r.memDeleteExit(p, pos)
		} else if p.Get("effect", nil) == "1" {
			r.fail("C01", "effect-then-error", p, pos, "reports an error after having changed the store")
		}
		return
	}
	if mayErr {
		p.Each("grew", func(f *Val, _ RV) {
			r.obl("C02", "a failed save undoes every field", f.Op+" at "+r.P.Pos(pos))
			if p.Get("undone", f) != "1" {
				r.fail("C02", "not-undone:"+f.Op, p, pos, "reports an error although "+f.Op+" still holds what was added for earlier events of the batch")
			}
		})
	}
	if mayOK && !r.collect {
		for f := range r.grown {
			r.obl("C02", "a successful save has stored its events", f.Op+" at "+r.P.Pos(pos))
			if p.Get("grew", f) != "1" {
				r.fail("C02", "success-without-store:"+f.Op, p, pos, "reports success although nothing was entered into "+f.Op)
			}
			if p.Get("undone", f) == "1" {
				r.fail("C02", "success-undone:"+f.Op, p, pos, "reports success after having undone "+f.Op)
			}
		}
	}
}

// ---------------------------------------------------------------- in-memory delete

// streamIDs: is v a number from the deleted stream's list?
func (r *storeRule) streamID(v *Val) bool {
	l, _ := elemOf(v)
	if l == nil {
		return false
	}
	f, k := r.mapContent(l)
	return f != nil && k == r.stream
}

func (r *storeRule) eqStreamID(p *Path, v *Val) bool {
	if r.streamID(v) {
		return true
	}
	ok := false
	for c, t := range p.truth {
		if t && c.K == KEq {
			if c.Args[0] == v && r.streamID(c.Args[1]) || c.Args[1] == v && r.streamID(c.Args[0]) {
				ok = true
			}
		}
	}
	return ok
}

// removesOne: v is list without its element at an index at which a stream's number was found.
func (r *storeRule) removesOne(p *Path, v *Val) (bool, bool) {
	if v.K != KAppend || len(v.Args) < 2 || v.Args[0].K != KSlice || v.Args[1] == nil || v.Args[1].K != KSlice {
		return false, false
	}
	a, b := v.Args[0], v.Args[1]
	if a.Args[1] != nil || a.Args[2] == nil || b.Args[1] == nil || b.Args[2] != nil {
		return false, false
	}
	i := a.Args[2]
	if b.Args[1] != p.E.T.Bin(token.ADD, i, p.E.T.Int(1), types.Typ[types.Int]) {
		return true, false
	}
	// is the element at i known to be one of the stream's?
	for c, t := range p.truth {
		if !t || c.K != KEq {
			continue
		}
		for j := 0; j < 2; j++ {
			l, ix := elemOf(c.Args[j])
			if l != nil && ix == i && r.streamID(c.Args[1-j]) && sameList(r, l, a.Args[0]) {
				return true, true
			}
		}
	}
	return true, false
}

// sameList: two terms for (versions of) the same list of the receiver.
func sameList(r *storeRule, a, b *Val) bool {
	root := func(v *Val) string {
		for v != nil {
			if f := r.recvField(v); f != nil {
				return f.Op
			}
			switch v.K {
			case KAppend, KSlice:
				v = v.Args[0]
				continue
			case KLookup, KNext:
				if v.K == KNext {
					if v.Args[0].K == KRange {
						if f := r.recvField(v.Args[0].Args[0]); f != nil {
							return f.Op + "[]"
						}
					}
					return "?"
				}
				if f := r.recvField(v.Args[0]); f != nil {
					return f.Op + "[]"
				}
				return "?"
			case KWiden, KLoad:
				if len(v.Args) > 0 && v.Args[0].K == KMapElem {
					if f := r.recvField(v.Args[0].Args[0]); f != nil {
						return f.Op + "[]"
					}
				}
				return "?"
			}
			return "?"
		}
		return "?"
	}
	return root(a) == root(b) && root(a) != "?"
}

func (r *storeRule) memDeleteStore(p *Path, ev *Ev, f *Val) {
	pos := ev.Instr.Pos()
	v := ev.Val
	if isIntT(v.T) {
		r.fail("C04", "delete-counter:"+f.Op, p, pos, "deleting a stream changes "+f.Op+", so global sequence numbers can be given out again")
		return
	}
	if !isSliceT(v.T) {
		return
	}
	r.removal(p, f, v, pos)
}

func (r *storeRule) removal(p *Path, f, v *Val, pos token.Pos) {
	r.obl("C05", "a delete removes exactly the stream's entries", f.Op+" at "+r.P.Pos(pos))
	r.rmFld[f] = true
	p.Set("rm", f, "1")
	p.Set("effect", nil, "1")
	if is, ok := r.removesOne(p, v); is {
		if !ok {
			r.fail("C05", "removes-other:"+f.Op, p, pos, "deleting a stream removes an entry of "+f.Op+" that was not found to be one of the stream's")
		}
		return
	}
	// a list rebuilt from the old one
	if r.rebuilt(p, v) {
		return
	}
	r.fail("C05", "removes-other:"+f.Op, p, pos, "deleting a stream changes "+f.Op+" in a way not recognised as removing the stream's entries")
}

func (r *storeRule) rebuilt(p *Path, v *Val) bool {
	for v.K == KAppend {
		v = v.Args[0]
	}
	if v.K == KNil || v.K == KMake {
		return true
	}
	if ph := phiOf(v); ph != nil {
		return len(r.elems[ph]) > 0
	}
	if v.K == KSlice && isInt(v.Args[2], 0) {
		return true
	}
	return false
}

func (r *storeRule) memDeleteUpdate(p *Path, ev *Ev, f *Val) {
	if isSliceT(ev.Val.T) {
		r.removal(p, f, ev.Val, ev.Instr.Pos())
		return
	}
	r.fail("C05", "delete-writes:"+f.Op, p, ev.Instr.Pos(), "deleting a stream writes into "+f.Op)
}

func (r *storeRule) memDeleteDelete(p *Path, ev *Ev, f *Val) {
	pos := ev.Instr.Pos()
	r.obl("C05", "a delete removes exactly the stream's entries", f.Op+" at "+r.P.Pos(pos))
	r.rmFld[f] = true
	p.Set("rm", f, "1")
	p.Set("effect", nil, "1")
	switch {
	case ev.Key == r.stream:
		p.Set("rmstream", f, "1")
	case r.eqStreamID(p, ev.Key):
	default:
		r.fail("C05", "removes-other:"+f.Op, p, pos, "deleting a stream removes an entry of "+f.Op+" that was not found to be one of the stream's")
	}
}

func (r *storeRule) memDeleteExit(p *Path, pos token.Pos) {
	if r.collect {
		return
	}
	p.Each("pend", func(l *Val, _ RV) {
		{
			r.fail("C05", "delete-incomplete", p, pos, "deleting a stream reports success without having worked through all of the stream's records")
		}
	})
	has := false
	p.Each("rmstream", func(f *Val, _ RV) { has = true })
	if !has {
		r.fail("C05", "delete-stream-index", p, pos, "deleting a stream reports success without having removed the stream itself")
	}
	if p.Get("wasguarded", nil) != "1" {
		r.fail("C01", "success-unguarded", p, pos, "reports success without having found the expected sequence number equal to the current one")
	}
}

// indexFields lists the receiver's slices and maps that its read operations use.
func (P *Prog) indexFields(n *types.Named, roots ...string) map[string]map[string]bool {
	out := map[string]map[string]bool{}
	for _, m := range roots {
		seen := map[*ssa.Function]bool{}
		var visit func(f *ssa.Function)
		visit = func(f *ssa.Function) {
			if f == nil || seen[f] || !P.InRepo(f) {
				return
			}
			seen[f] = true
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if fa, ok := in.(*ssa.FieldAddr); ok {
						if namedOf(fa.X.Type()) == n {
							st := n.Underlying().(*types.Struct)
							fd := st.Field(fa.Field)
							switch fd.Type().Underlying().(type) {
							case *types.Slice, *types.Map:
								if out[fd.Name()] == nil {
									out[fd.Name()] = map[string]bool{}
								}
								out[fd.Name()][m] = true
							}
						}
					}
					if mc, ok := in.(*ssa.MakeClosure); ok {
						visit(mc.Fn.(*ssa.Function))
					}
					if ci, ok := in.(ssa.CallInstruction); ok {
						visit(ci.Common().StaticCallee())
					}
				}
			}
		}
		visit(P.Method(n, m))
	}
	return out
}

// memIndexes: C05 over the tables of the in-memory store's operations.
func memIndexes(P *Prog, R *Report, st *StoreInfo, saves []*storeRule, del *storeRule) {
	idx := P.indexFields(st.N, "Events", "EventsByAggregateTypes", "EventsByStream")
	for f, by := range idx {
		for _, s := range saves {
			R.Obl("every index read from is written by saves", f+" by "+s.op)
			ok := false
			for g := range s.grown {
				if g.Op == f {
					ok = true
				}
			}
			if !ok {
				R.Fail("memory."+s.op+":index-not-written:"+f, token.NoPos, "in-memory store: reads use "+f+" but "+s.op+" does not enter events into it", nil)
			}
			for g, ks := range s.gKey {
				if g.Op != f {
					continue
				}
				for k := range ks {
					want := ""
					if len(by) == 1 && by["EventsByStream"] {
						want = "stream"
					} else if len(by) == 1 && by["EventsByAggregateTypes"] {
						want = "aggregateType"
					} else if len(by) == 3 {
						want = "number"
					}
					if want != "" && k != want {
						R.Fail("memory."+s.op+":index-key:"+f, token.NoPos, "in-memory store: "+f+" is written under a "+k+" but read by "+want, nil)
					}
				}
			}
		}
		R.Obl("every index read from is cleared by a delete", f)
		ok := false
		for g := range del.rmFld {
			if g.Op == f {
				ok = true
			}
		}
		if !ok {
			R.Fail("memory.OptimisticDeleteStream:index-not-cleared:"+f, token.NoPos, "in-memory store: reads use "+f+" but deleting a stream does not remove its records from it", nil)
		}
	}
	// the current number is read from an index that saves extend and deletes clear
	for _, s := range append(append([]*storeRule{}, saves...), del) {
		for f := range s.seqFld {
			R.Obl("the current number comes from the stream index", f.Op+" in "+s.op)
			if by := idx[f.Op]; by == nil || !by["EventsByStream"] {
				R.Fail("memory."+s.op+":seq-field:"+f.Op, token.NoPos, "in-memory store: "+s.op+" takes the stream's current number from "+f.Op+", which is not the stream index", nil)
			}
		}
	}
	_ = strings.ToLower
}
