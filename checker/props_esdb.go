package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C01 for the EventStoreDB adapter: the database compares, so it must be told what to compare with.
//
// Rule state: asked: a change was asked for; read: the stream was read after that; err: the error of the change
type esdbRule struct {
	Base
	P     *Prog
	R     *Report
	root  *ssa.Function
	name  string
	exp   *Val
	wrong *Val // the client's error for a mismatch
}

const (
	ruleEsdbTold   = "EventStoreDB is told the expected sequence number with the change"
	ruleEsdbActual = "a mismatch EventStoreDB finds is reported with both numbers"
)

func (r *esdbRule) fail(key string, p *Path, pos token.Pos, msg string) {
	if !pos.IsValid() {
		pos = r.root.Pos()
	}
	r.R.Fail("esdb-"+key+":"+r.name, pos, r.name+": "+msg, p)
}

// esdbChange: a call of the EventStoreDB client that changes a stream.
func esdbChange(c *Call) bool {
	n := c.Name()
	if !strings.Contains(n, "esdb.Client)") {
		return false
	}
	return in(n[strings.LastIndex(n, ".")+1:], "AppendToStream", "TombstoneStream", "DeleteStream")
}

func (r *esdbRule) Inline(p *Path, c *Call) bool {
	for _, n := range []string{"Next", "NextContext", "Err", "Record"} {
		if isIterCall(r.P, c, n) {
			return false
		}
	}
	return true
}

func (r *esdbRule) Model(p *Path, c *Call) []Outcome {
	if c.Name() == "errors.Is" && len(c.Args) == 2 && strings.Contains(c.Args[1].String(), "ErrWrongExpectedStreamRevision") {
		r.wrong = c.Args[1]
	}
	if esdbChange(c) {
		return errFork(nil, func(q *Path, res *Val) { q.SetV("err", nil, "bad", q.ErrOf(res)) })
	}
	return nil
}

func (r *esdbRule) SelectCase(p *Path, ev *Ev, i int) bool { return true }

// zero: is the expected number known to be 0 (1), known not to be (-1)? Both (2)?
func (r *esdbRule) zero(p *Path) int {
	T := p.E.T
	if k := p.constOf(r.exp); k != nil && k.C != nil {
		if isInt(k, 0) {
			return 1
		}
		return -1
	}
	z := 0
	for _, t := range []struct {
		v *Val
		s int
	}{{T.Eq(r.exp, T.Int(0)), 1}, {T.Lt(T.Int(0), r.exp), -1}, {T.Lt(r.exp, T.Int(1)), 1}} {
		if x := p.Truth(t.v) * t.s; x != 0 {
			if z != 0 && x != z {
				return 2
			}
			z = x
		}
	}
	return z
}

func (r *esdbRule) change(p *Path, c *Call, pos token.Pos) {
	z := r.zero(p)
	if z == 2 {
		p.dead = true // no such number
		return
	}
	p.Set("asked", nil, r.P.Pos(pos))
	p.Del("read", nil)
	r.R.Obl(ruleEsdbTold, r.P.Pos(pos)+" "+r.name)
	var rev *Val
	for _, a := range c.Args {
		if a == nil || a.T == nil {
			continue
		}
		if st, ok := a.T.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if n := namedOf(st.Field(i).Type()); n != nil && n.Obj().Name() == "ExpectedRevision" {
					rev = p.FieldOf(a, st.Field(i).Name())
				}
			}
		}
	}
	if rev == nil || rev.K == KNil {
		r.fail("any", p, pos, "the change is made whatever the stream's current sequence number is: EventStoreDB is not told the expected one")
		return
	}
	w := unwrap(rev)
	kind := ""
	if n := namedOf(w.T); n != nil {
		kind = n.Obj().Name()
	}
	switch kind {
	case "NoStream":
		if z != 1 {
			r.fail("nostream", p, pos, "EventStoreDB is told that there is no such stream although the expected number need not be 0")
		}
	case "StreamRevision":
		var x *Val
		if w.K == KCall && len(w.Args) == 1 {
			x = w.Args[0]
		} else {
			x = p.FieldOf(w, "Value")
		}
		if z == 1 {
			r.fail("zero", p, pos, "with an expected number of 0 EventStoreDB is asked to expect a stream with one event")
			return
		}
		d := p.lin(x).add(p.lin(r.exp), -1)
		for v, n := range d.m {
			// the number just read, found to be the expected one
			if n == 1 && len(d.m) == 2 && d.m[r.exp] == -1 && v != r.exp && p.Truth(p.E.T.Eq(v, r.exp)) == 1 {
				d = linConst(d.c)
				break
			}
		}
		if x == nil || z != -1 || len(d.m) != 0 || d.c != -1 {
			r.fail("revision", p, pos, "EventStoreDB is not told the revision of the expected sequence number (the number less one)")
		}
	default:
		r.fail("any", p, pos, "EventStoreDB is told to expect "+kind+", not the expected sequence number")
	}
}

func (r *esdbRule) Event(p *Path, ev *Ev) {
	pos := ev.Instr.Pos()
	switch ev.K {
	case EvCall:
		switch {
		case esdbChange(ev.Call):
			r.change(p, ev.Call, pos)
		case isIterCall(r.P, ev.Call, "Next"), isIterCall(r.P, ev.Call, "NextContext"):
			p.Set("read", nil, "1")
		}
	case EvExit:
		err := p.GetV("err", nil)
		if err == nil || len(ev.Res_) == 0 {
			return
		}
		got := ev.Res_[len(ev.Res_)-1]
		if r.wrong != nil && p.Truth(p.E.T.Eq(err, r.wrong)) == -1 {
			return
		}
		r.R.Obl(ruleEsdbActual, r.P.Pos(pos)+" "+r.name)
		found, ok := false, false
		got.Any(func(x *Val) bool {
			if x.K != KAlloc || x.T == nil {
				return false
			}
			n := namedOf(x.T)
			if n == nil || n.Obj().Name() != "UnexpectedSequenceNumber" {
				return false
			}
			found = true
			e, a := p.FieldOf(x, "Expected"), p.FieldOf(x, "ActualSequenceNumber")
			ok = e == r.exp && a != nil && p.Get("read", nil) != ""
			return ok
		})
		switch {
		case r.wrong == nil || p.Truth(p.E.T.Eq(err, r.wrong)) != 1:
			// not asked on this path: another error was recognised first
		case found && !ok:
			r.fail("actual", p, pos, "a mismatch found by EventStoreDB is reported without the stream's actual sequence number")
		case !found && p.Get("read", nil) == "":
			r.fail("mismatch", p, pos, "a mismatch found by EventStoreDB is not reported as an unexpected sequence number")
		}
	}
}

func esdbStores(P *Prog, R *Report) {
	n := 0
	for _, s := range P.Stores() {
		if s.Kind != "esdb" {
			continue
		}
		for _, op := range []string{"OptimisticSave", "OptimisticDeleteStream"} {
			f := P.Method(s.N, op)
			if f == nil {
				continue
			}
			n++
			r := &esdbRule{P: P, R: R, root: f, name: FnName(f)}
			e := NewEngine(P, r)
			e.RunRoot(f, func(p *Path, params []*Val) {
				for _, a := range params {
					if a.T != nil && types.TypeString(a.T, nil) == "uint64" && r.exp == nil {
						r.exp = a
					}
				}
				p.SetNil(params[0], false)
			})
			R.Engine(e, r.name)
			if r.wrong == nil {
				r.R.Fail("esdb-mismatch:"+r.name, f.Pos(), r.name+": a mismatch found by EventStoreDB is not told apart from other errors", nil)
			}
		}
	}
	if n > 0 {
		R.Need(ruleEsdbTold, 2)
		R.Need(ruleEsdbActual, 1)
	}
}
