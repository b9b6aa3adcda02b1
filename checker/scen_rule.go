package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// iterScen calls the methods of a record iterator one after another on the same receiver: an error once seen must end
// the iteration for good, and a record that failed to decrypt must not be presented.
//
// Rule state: stage, nx (last answer of the wrapped iterator), perr: the wrapped iterator ended with an error,
// decfail: a decryption failed
type iterScen struct {
	Base
	P    *Prog
	R    *Report
	n    *types.Named
	root *ssa.Function
	name string
	recv *Val
	rest []*Val
	dec  bool // a decryption was seen
}

func isDecrypt(P *Prog, c *Call) bool { return isCryptoCall(c, "Decrypt") }

// isCryptoCall: a call of an event encryptor's Encrypt or Decrypt.
func isCryptoCall(c *Call, name string) bool {
	if c.M == nil || c.M.Name() != name || c.M.Pkg() == nil || c.M.Pkg().Path() != modPath+"/pkg/crypto" {
		return false
	}
	sig := c.M.Type().(*types.Signature)
	return sig.Params().Len() == 1 && isNamedIn(sig.Params().At(0).Type(), modPath, "Event")
}

func (r *iterScen) Model(p *Path, c *Call) []Outcome {
	P := r.P
	switch {
	case isIterMethod(P, c, "Next"), isIterMethod(P, c, "NextContext"):
		if p.Get("perr", nil) != "" {
			return boolForkOnly(false, func(q *Path, res *Val) {})
		}
		return boolFork(func(q *Path, res *Val) { q.Set("nx", nil, "t") }, func(q *Path, res *Val) { q.Set("nx", nil, "f") })
	case isIterMethod(P, c, "Err"):
		if p.Get("perr", nil) != "" {
			return []Outcome{{Res: p.GetV("perr", nil)}}
		}
		if p.Get("nx", nil) == "t" {
			return []Outcome{{Res: p.E.T.Nil}}
		}
		return errFork(nil, func(q *Path, res *Val) { q.SetV("perr", nil, "1", q.ErrOf(res)) })
	case isIterMethod(P, c, "Record"):
		return []Outcome{{Opaque: true, After: func(q *Path, res *Val) bool { return q.SetNil(res, q.Get("nx", nil) != "t") }}}
	case isDecrypt(P, c):
		r.dec = true
		return errFork(nil, func(q *Path, res *Val) { q.Set("decfail", nil, "1") })
	}
	return nil
}

func boolForkOnly(b bool, f func(q *Path, res *Val)) []Outcome {
	return []Outcome{{Opaque: true, After: func(q *Path, res *Val) bool {
		if !q.Assume(res, b) {
			return false
		}
		f(q, res)
		return true
	}}}
}

func (r *iterScen) SelectCase(p *Path, ev *Ev, i int) bool { return true }

func (r *iterScen) Event(p *Path, ev *Ev) {
	switch ev.K {
	case EvInlineRet:
		if p.top().tag == "cont" {
			r.result(p, ev.Res_)
		}
	case EvExit:
		if p.Get("stage", nil) == "" {
			r.result(p, ev.Res_)
		}
		if p.dead {
			return
		}
		m := map[string]string{"1": "Err", "2": "Record", "3": "Next", "4": "Err"}[p.Get("stage", nil)]
		if m == "" {
			return
		}
		f := r.P.Method(r.n, m)
		if f == nil {
			return
		}
		p.Continue(f, []*Val{r.recv}, nil)
	}
}

func (r *iterScen) result(p *Path, res []*Val) {
	if len(res) != 1 {
		return
	}
	v := res[0]
	dec := p.Get("decfail", nil) != ""
	bad := func(k, m string) { r.R.Fail(k+":"+r.name, r.root.Pos(), r.name+": "+m, p); p.dead = true }
	switch p.Get("stage", nil) {
	case "":
		p.Set("stage", nil, "1")
	case "1":
		switch p.NilState(v) {
		case 1:
			if dec {
				bad("decrypt-hidden", "a record could not be decrypted, but the iterator reports no error")
			}
			p.dead = true
			return
		case 0:
			if dec {
				bad("decrypt-hidden", "a record could not be decrypted, but the iterator need not report an error")
				return
			}
			if !p.SetNil(v, false) {
				p.dead = true
				return
			}
		}
		p.Set("stage", nil, "2")
	case "2":
		if dec {
			r.R.Obl("a failed decryption ends the iteration", r.name)
			if p.NilState(v) != 1 {
				bad("decrypt-shown", "a record that could not be decrypted is still presented")
				return
			}
		}
		p.Set("stage", nil, "3")
	case "3":
		r.R.Obl("an error ends the iteration for good", r.name)
		if p.Truth(v) != -1 {
			bad("error-overrun", "after an error the iterator can be moved on to a further record")
			return
		}
		p.Set("stage", nil, "4")
	case "4":
		if p.NilState(v) != -1 {
			bad("error-lost", "after an error, asking for a further record makes the iterator forget the error")
			return
		}
		p.Set("stage", nil, "end")
	}
}

func (r *iterScen) run() {
	r.name = FnName(r.root)
	e := NewEngine(r.P, r)
	e.RunRoot(r.root, func(p *Path, params []*Val) {
		r.recv = params[0]
		p.SetNil(params[0], false)
	})
	r.R.Engine(e, r.name)
}

// iterImpls: the record iterators of the repository.
func iterImpls(P *Prog) []*types.Named {
	var out []*types.Named
	for _, n := range P.Implementers(P.Iface("", "RecordIterator")) {
		if !IsTestSupport(n.Obj().Pkg().Path()) {
			out = append(out, n)
		}
	}
	return out
}

func iterScenarios(P *Prog, R *Report) {
	for _, n := range iterImpls(P) {
		for _, m := range []string{"Next", "NextContext"} {
			if f := P.Method(n, m); f != nil {
				(&iterScen{P: P, R: R, n: n, root: f}).run()
			}
		}
	}
}
