package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// A batch whose events are of different aggregates is refused (C02): some loop over the events compares, in every
// round but the first, both the event's aggregate type and its aggregate id with those of another event of the batch,
// and no save succeeds after such a comparison found a difference.
//
// Rule state: mxh (the loop header of the event looked at), mxfirst (this is the first round), mx:<name> (compared)

var mixedNames = []string{"AggregateType", "AggregateID"}

type mixedTab struct {
	cmp, miss map[string]bool // loop + name
	phi       map[*ssa.Phi]string
}

func newMixedTab() *mixedTab {
	return &mixedTab{cmp: map[string]bool{}, miss: map[string]bool{}, phi: map[*ssa.Phi]string{}}
}

func blockKey(b *ssa.BasicBlock) string { return fmt.Sprintf("%s#%d", b.Parent(), b.Index) }

// aggClass: v is an event's aggregate type or id (or a variable that holds that of an earlier event).
func (r *storeRule) aggClass(v *Val) string {
	if v == nil {
		return ""
	}
	if v.K == KBuiltin {
		for _, n := range mixedNames {
			if v.Op == "pure:"+n {
				return n
			}
		}
	}
	if ph := phiOf(v); ph != nil {
		return r.mixed.phi[ph]
	}
	if c := cellOf(v); c != nil {
		got := ""
		for x := range r.loops.Cell[c] {
			if k := r.aggClass1(x); k != "" {
				got = k
			}
		}
		return got
	}
	return ""
}

func (r *storeRule) aggClass1(v *Val) string {
	if v != nil && v.K == KBuiltin {
		return r.aggClass(v)
	}
	return ""
}

func (r *storeRule) onMixed(p *Path, ev *Ev) {
	if !r.isSave() || r.events == nil {
		return
	}
	m := r.mixed
	switch ev.K {
	case EvIndex:
		l, off := ev.Addr, false
		for l != nil && l.K == KSlice {
			if lo := l.Args[1]; lo != nil && !isInt(lo, 0) {
				off = true
			}
			l = l.Args[0]
		}
		if l != r.events {
			return
		}
		if !off && isInt(ev.Key, 0) {
			p.Set("mxfirst", nil, "1")
			return
		}
		for _, s := range ev.Key.Syms() {
			if ph := phiOf(s); ph != nil {
				p.Set("mxh", nil, blockKey(ph.Block()))
			}
		}
	case EvPhiStep:
		ph := ev.Instr.(*ssa.Phi)
		if ev.Val != nil {
			if k := r.aggClass1(ev.Val); k != "" {
				m.phi[ph] = k
			}
		}
	case EvBranch:
		c, want := ev.Val, ev.Bool
		for c.K == KNot {
			c, want = c.Args[0], !want
		}
		if r.saysFirst(c, want) {
			p.Set("mxfirst", nil, "1")
		}
		if c.K != KEq {
			return
		}
		a, b := r.aggClass(c.Args[0]), r.aggClass(c.Args[1])
		if a == "" && b == "" {
			return
		}
		if a != b {
			return
		}
		p.Set("mx:"+a, nil, "1")
		if !want && (r.aggClass1(c.Args[0]) != "" || r.aggClass1(c.Args[1]) != "") {
			p.Set("differs", nil, a)
		}
	case EvLoop:
		h := p.Get("mxh", nil)
		if h == "" || h != blockKey(headerOf(ev.Instr)) {
			return
		}
		for _, n := range mixedNames {
			if p.Get("mx:"+n, nil) == "1" {
				m.cmp[h+n] = true
			} else if p.Get("mxfirst", nil) != "1" {
				m.miss[h+n] = true
			}
			p.Del("mx:"+n, nil)
		}
		p.Del("mxfirst", nil)
		p.Del("mxh", nil)
	case EvExit:
		if k := p.Get("differs", nil); k != "" {
			if e := ev.Res_[len(ev.Res_)-1]; p.NilState(e) >= 0 {
				r.fail("C02", "mixed-success:"+k, p, ev.Instr.Pos(), "reports success although two events of the batch differ in their "+k)
			}
		}
	}
}

// saysFirst: the condition holds only in the first round of a loop.
func (r *storeRule) saysFirst(c *Val, want bool) bool {
	phi := func(v *Val) *ssa.Phi {
		if v != nil && v.K == KBin && v.Op == "+" && v.Args[1].K == KConst {
			v = v.Args[0]
		}
		return phiOf(v)
	}
	onlyInit := func(ph *ssa.Phi, ok func(*Val) bool) bool {
		if len(r.loops.Init[ph]) == 0 {
			return false
		}
		for x := range r.loops.Init[ph] {
			if !ok(x) {
				return false
			}
		}
		return true
	}
	switch c.K {
	case KLt:
		return !want && isInt(c.Args[0], 0) && phi(c.Args[1]) != nil || want && isInt(c.Args[1], 1) && phi(c.Args[0]) != nil
	case KEq:
		for j := 0; j < 2; j++ {
			a, b := c.Args[j], c.Args[1-j]
			if want && isInt(b, 0) && phi(a) != nil {
				return true
			}
			if ph := phiOf(a); want && b.K == KNil && ph != nil && onlyInit(ph, func(x *Val) bool { return x.K == KNil }) {
				return true
			}
		}
	case KLoop:
		if ph := phiOf(c); ph != nil && c.T != nil && types.Identical(c.T.Underlying(), types.Typ[types.Bool]) {
			return onlyInit(ph, func(x *Val) bool {
				return x.K == KConst && x.C.Kind() == constant.Bool && constant.BoolVal(x.C) == want
			})
		}
	}
	return false
}

// judgeMixed is called when the whole operation has been explored.
func (r *storeRule) judgeMixed() {
	if !r.isSave() || r.prop != "C02" {
		return
	}
	for _, n := range mixedNames {
		r.obl("C02", "a batch of different aggregates is refused", r.st.Kind+"."+r.op+" "+n)
		ok := false
		for k := range r.mixed.cmp {
			if len(k) > len(n) && k[len(k)-len(n):] == n && !r.mixed.miss[k] {
				ok = true
			}
		}
		if !ok {
			r.R.Fail(r.st.Kind+"."+r.op+":mixed:"+n, token.NoPos, r.st.Kind+" store, "+r.op+": no loop over the batch compares the "+n+" of every event after the first with another's", nil)
		}
	}
}
