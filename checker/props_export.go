package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C30: a stream of records written is complete, or says that it is not.
//
// Rule state: nx: last answer of Next; rec: a record was taken and not written yet; bad: what failed (not told yet);
// told: a failure was told; buffered: written into a buffer that was not flushed; closed: the channel was closed
type exportRule struct {
	Base
	P      *Prog
	R      *Report
	root   *ssa.Function
	name   string
	writer *Val
	gos    int
}

const (
	ruleExportTold = "what fails while records are written is told"
	ruleExportAll  = "every record read is written before the next one"
	ruleExportEnd  = "the error channel is closed, after at most one error"
)

func (r *exportRule) fail(key string, p *Path, pos token.Pos, msg string) {
	if !pos.IsValid() {
		pos = r.root.Pos()
	}
	r.R.Fail(key+":"+r.name, pos, r.name+": "+msg, p)
}

func (r *exportRule) Inline(p *Path, c *Call) bool {
	for _, n := range []string{"Next", "NextContext", "Err", "Record"} {
		if isIterCall(r.P, c, n) {
			return false
		}
	}
	// what turns a record into bytes
	if c.Fn != nil && hasErr(c) && c.Common.Signature().Results().Len() == 2 {
		for _, a := range c.Args {
			if a != nil && a.T != nil && isNamedIn(ptrElem(a.T), modPath, "Record") && !r.toWriter(c) {
				return false
			}
		}
	}
	return true
}

func (r *exportRule) isWriter(v *Val) bool { return v != nil && unwrap(v) == r.writer }

// toWriter: the call is given the writer, or something made from it.
func (r *exportRule) toWriter(c *Call) bool {
	for _, a := range c.Args {
		if a != nil && a.Any(func(x *Val) bool { return x == r.writer }) {
			return true
		}
	}
	return false
}

func isBufio(v *Val) bool {
	v = unwrap(v)
	return v != nil && v.T != nil && types.TypeString(v.T, nil) == "*bufio.Writer"
}

func (r *exportRule) Model(p *Path, c *Call) []Outcome {
	P := r.P
	bad := func(what string) func(q *Path, res *Val) {
		return func(q *Path, res *Val) {
			if q.Get("bad", nil) == "" && q.Get("told", nil) == "" {
				q.Set("bad", nil, what)
			}
		}
	}
	switch {
	case isIterCall(P, c, "Next"), isIterCall(P, c, "NextContext"):
		if p.Get("nx", nil) == "f" { // it stays at its end
			return []Outcome{{Res: p.E.T.Bool(false)}}
		}
		return boolFork(func(q *Path, res *Val) { q.Set("nx", nil, "t") }, func(q *Path, res *Val) {
			q.Set("nx", nil, "f")
			q.Note(c.Instr.Pos(), "the iteration ends")
		})
	case isIterCall(P, c, "Record"):
		return []Outcome{{Opaque: true, After: func(q *Path, res *Val) bool { return q.SetNil(res, q.Get("nx", nil) != "t") }}}
	case isIterCall(P, c, "Err"):
		if p.Get("nx", nil) == "t" {
			return []Outcome{{Res: p.E.T.Nil}}
		}
		if e := p.GetV("err", nil); e != nil {
			return []Outcome{{Res: e}}
		}
		return errFork(func(q *Path, res *Val) { q.SetV("err", nil, "ok", q.ErrOf(res)) }, func(q *Path, res *Val) {
			q.SetV("err", nil, "bad", q.ErrOf(res))
			bad("the read")(q, res)
		})
	}
	if hasErr(c) && c.Bltn == "" && !(c.Fn != nil && len(c.Fn.Blocks) > 0 && P.InRepo(c.Fn)) && r.toWriter(c) {
		_, name := c.callee()
		// a buffer keeps an error until it is flushed
		for _, a := range c.Args {
			if isBufio(a) && name != "Flush" {
				return nil
			}
		}
		return errFork(nil, bad("writing"))
	}
	if failing(P, c) || c.Fn != nil && !r.Inline(p, c) {
		return errFork(nil, bad("a call at "+P.Pos(c.Instr.Pos())))
	}
	return nil
}

func (r *exportRule) SelectCase(p *Path, ev *Ev, i int) bool { return true }

func (r *exportRule) Event(p *Path, ev *Ev) {
	pos := ev.Instr.Pos()
	switch ev.K {
	case EvCall:
		c := ev.Call
		switch {
		case isIterCall(r.P, c, "Next"), isIterCall(r.P, c, "NextContext"):
			// the answer to the last one was "yes", and its record was not written
			if p.Get("nx", nil) == "t" && p.Get("told", nil) == "" && p.Get("bad", nil) == "" {
				r.R.Obl(ruleExportAll, r.name)
				if p.Get("rec", nil) != "written" {
					r.fail("skipped", p, pos, "a record is passed over without having been written")
				}
			}
			p.Del("rec", nil)
		case hasErr(c) && r.toWriter(c) && !(c.Fn != nil && len(c.Fn.Blocks) > 0 && r.P.InRepo(c.Fn)):
			_, name := c.callee()
			if name == "Flush" {
				p.Del("buffered", nil)
				return
			}
			buf := false
			for _, a := range c.Args {
				if isBufio(a) {
					buf = true
				}
			}
			if buf {
				p.Set("buffered", nil, r.P.Pos(pos))
			}
			if p.Get("nx", nil) == "t" && (r.record(p, c) || p.Get("rec", nil) == "" && r.some(p, c)) {
				p.Set("rec", nil, "written")
			}
		}
	case EvGo:
		if ev.Call.Fn != nil {
			r.gos++
			p.E.RunGo(p, ev.Call, map[RK]RV{})
		}
	case EvSend:
		if ev.Addr == nil || !isErrChan(ev.Addr.T) {
			return
		}
		if p.NilState(ev.Val) == 1 {
			return
		}
		if p.Get("told", nil) != "" {
			r.fail("two-errors", p, pos, "a second error is sent after that at "+p.Get("told", nil)+"; who asked for one does not receive it")
			p.dead = true
			return
		}
		p.Set("told", nil, r.P.Pos(pos))
		p.Del("bad", nil)
	case EvClose:
		if ev.Addr != nil && isErrChan(ev.Addr.T) {
			p.Set("closed", nil, "1")
		}
	case EvExit:
		if p.acts[0].tag == "go" {
			r.exit(p, ev)
		}
	}
}

// record: is what is written made of the record?
func (r *exportRule) record(p *Path, c *Call) bool {
	for _, a := range p.XArgs(c) {
		if a != nil && a.Any(func(x *Val) bool {
			return x.T != nil && isNamedIn(ptrElem(x.T), modPath, "Record")
		}) {
			return true
		}
	}
	return false
}

// some: is something written that is not a constant?
func (r *exportRule) some(p *Path, c *Call) bool {
	for _, a := range p.XArgs(c) {
		if a != nil && a.K != KConst && unwrap(a) != r.writer && !isBufio(a) && !allConst(a) {
			return true
		}
	}
	return false
}

func allConst(v *Val) bool {
	if v.K == KTuple || v.K == KConv {
		for _, a := range v.Args {
			if a != nil && !allConst(a) {
				return false
			}
		}
		return true
	}
	return v.K == KConst
}

func (r *exportRule) exit(p *Path, ev *Ev) {
	pos := ev.Instr.Pos()
	r.R.Obl(ruleExportTold, r.name)
	r.R.Obl(ruleExportEnd, r.name)
	if p.Get("closed", nil) == "" {
		r.fail("not-closed", p, pos, "the error channel is not closed")
	}
	if b := p.Get("bad", nil); b != "" {
		r.fail("untold:"+strings.Fields(b)[0], p, pos, b+" fails, but the error channel is closed as if everything had been written")
		return
	}
	if p.Get("told", nil) != "" {
		return
	}
	if p.Get("nx", nil) != "f" {
		r.fail("stops-early", p, pos, "writing ends before the records do")
	} else if p.GetV("err", nil) == nil {
		r.fail("unasked", p, pos, "the read is not asked whether it ended with an error")
	}
	if b := p.Get("buffered", nil); b != "" {
		r.fail("unflushed", p, pos, "what was written at "+b+" stays in a buffer")
	}
}

func init() {
	register("C30", "Every path of the functions that write a stream of records is explored, with each call that can fail failing: on each way out a failure was sent on the error channel, or every record taken from the iterator was handed to the writer.", []string{
		"a writer that reports no error has taken what it was given (io.Writer)",
		"encoders write the whole record (C18)",
		"whoever gets the error channel receives at least once",
	}, func(P *Prog, R *Report) {
		n := 0
		for _, t := range P.Implementers(P.Iface("", "RecordIoStream")) {
			if IsTestSupport(t.Obj().Pkg().Path()) {
				continue
			}
			f := P.Method(t, "Write")
			if f == nil {
				continue
			}
			n++
			R.Item("record streams", t.Obj().Name())
			r := &exportRule{P: P, R: R, root: f, name: FnName(f)}
			e := NewEngine(P, r)
			e.RunRoot(f, func(p *Path, params []*Val) {
				for _, a := range params {
					if a.T != nil && types.TypeString(a.T, nil) == "io.Writer" {
						r.writer = a
					}
				}
				p.SetNil(params[0], false)
			})
			if r.gos == 0 {
				r.R.Obl(ruleExportTold, r.name+" (no goroutine)")
			}
			R.Engine(e, r.name)
		}
		R.Need(ruleExportTold, 2)
		R.Need(ruleExportAll, 2)
		R.Need(ruleExportEnd, 2)
	})
}
