package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Errors across the gRPC boundary: for each kind of failure the store behind the server can report, the server's
// method is explored with that failure to learn the status (code and text) it answers with; then the remote client's
// operation is explored with exactly that status as the outcome of its call, and what its caller gets is compared.

const (
	pkgStatus = "google.golang.org/grpc/status"
	pkgCodes  = "google.golang.org/grpc/codes"
	pkgRErr   = modPath + "/pkg/rangedberror"
)

// numbers of the unexpected sequence number; they do not survive 53 or 63 bits, are not equal and have equal length
const numExpected, numActual = uint64(18446744073709551557), uint64(18446744073709551533)

var codeNames = []string{"OK", "Canceled", "Unknown", "InvalidArgument", "DeadlineExceeded", "NotFound", "AlreadyExists", "PermissionDenied", "ResourceExhausted", "FailedPrecondition", "Aborted", "OutOfRange", "Unimplemented", "Internal", "Unavailable", "DataLoss", "Unauthenticated"}

func codeOf(v *Val) string {
	for v != nil && v.K == KConv && len(v.Args) == 1 {
		v = v.Args[0]
	}
	if v != nil && v.K == KConst && v.C.Kind() == constant.Int {
		if i, ok := constant.Int64Val(v.C); ok && i >= 0 && int(i) < len(codeNames) {
			return codeNames[i]
		}
	}
	return ""
}

func codeNum(name string) int64 {
	for i, n := range codeNames {
		if n == name {
			return int64(i)
		}
	}
	return 2
}

type answer struct{ code, text string }

func (a answer) wire() string { return fmt.Sprintf("rpc error: code = %s desc = %s", a.code, a.text) }

func (a answer) String() string { return fmt.Sprintf("%s %q", a.code, a.text) }

// failure is a kind of failure of the store.
type failure struct {
	name string
	text string
}

const (
	fCanceled   = "cancelled context"
	fNotFound   = "missing stream"
	fUnexpected = "unexpected sequence number"
	fOther      = "other failure"
)

// meets: can the operation meet the failure?
func (f failure) meets(op string) bool {
	switch f.name {
	case fNotFound:
		return in(op, "EventsByStream", "OptimisticDeleteStream")
	case fUnexpected:
		return in(op, "OptimisticSave", "OptimisticDeleteStream")
	}
	return true
}

// boundary holds what both passes share.
type boundary struct {
	P    *Prog
	R    *Report
	kind failure
	exc  *Val // the store's error
	errT *types.Named
}

func (b *boundary) errText(p *Path, v *Val) (string, bool) {
	if v == nil {
		return "", false
	}
	if v == b.exc {
		return b.kind.text, true
	}
	if s, ok := textOfError(v); ok {
		return s, true
	}
	if a, ok := statusOf(v, "staterr:"); ok {
		return a.wire(), true
	}
	if v.K == KGVal {
		if g, ok := v.Site.(*ssa.Global); ok {
			if t := b.P.sentinelText(g); t != "" {
				return t, true
			}
		}
	}
	return "", false
}

// sentinelText is the text of a package-level error.
func (P *Prog) sentinelText(g *ssa.Global) string {
	if c := P.globalInit(g); c != nil {
		if f := c.Call.StaticCallee(); f != nil && in(f.String(), "errors.New", "fmt.Errorf") {
			return constArg(c, 0)
		}
	}
	switch g.String() {
	case "context.Canceled":
		return "context canceled"
	case "io.EOF":
		return "EOF"
	}
	return ""
}

func (p *Path) newStatus(prefix string, a answer, t types.Type) *Val {
	return p.E.T.mk(Val{K: KBuiltin, Op: prefix + a.code + "\x00" + a.text, T: t})
}

func statusOf(v *Val, prefix string) (answer, bool) {
	if v == nil || v.K != KBuiltin || !strings.HasPrefix(v.Op, prefix) {
		return answer{}, false
	}
	i := strings.IndexByte(v.Op, 0)
	return answer{v.Op[len(prefix):i], v.Op[i+1:]}, true
}

// parseWire takes the text of an error of a call apart.
func parseWire(s string) (answer, bool) {
	if !strings.HasPrefix(s, "rpc error: code = ") {
		return answer{}, false
	}
	s = strings.TrimPrefix(s, "rpc error: code = ")
	i := strings.Index(s, " desc = ")
	if i < 0 {
		return answer{}, false
	}
	return answer{s[:i], s[i+8:]}, true
}

// statusCall models the status package.
func (b *boundary) statusCall(p *Path, c *Call) []Outcome {
	T := p.E.T
	pkg, name := c.callee()
	one := func(v *Val) []Outcome {
		return []Outcome{{Res: v, Apply: func(q *Path) bool {
			if v.K == KBuiltin {
				return q.SetNil(v, false)
			}
			return true
		}}}
	}
	res := func(i int) types.Type {
		r := c.Common.Signature().Results()
		if i < r.Len() {
			return r.At(i).Type()
		}
		return nil
	}
	switch pkg {
	case pkgStatus, "google.golang.org/grpc/internal/status":
		if c.Common.Signature().Recv() != nil || len(c.Args) > 0 && c.Args[0] != nil && c.Args[0].T != nil && strings.HasSuffix(c.Args[0].T.String(), "status.Status") {
			a, ok := statusOf(c.Args[0], "status:")
			if !ok {
				return nil
			}
			switch name {
			case "Err":
				if a.code == "OK" {
					return []Outcome{{Res: T.Nil}}
				}
				return one(p.newStatus("staterr:", a, res(0)))
			case "Message":
				return one(p.str(a.text))
			case "Code":
				return one(T.Const(constant.MakeInt64(codeNum(a.code)), res(0)))
			case "WithDetails":
				return []Outcome{{Res: T.mk(Val{K: KTuple, Args: []*Val{c.Args[0], T.Nil}})}}
			}
			return nil
		}
		switch name {
		case "New", "Error":
			if s, ok := strOf(c.Args[1]); ok && codeOf(c.Args[0]) != "" {
				pre := map[string]string{"New": "status:", "Error": "staterr:"}[name]
				if name == "Error" && codeOf(c.Args[0]) == "OK" {
					return []Outcome{{Res: T.Nil}}
				}
				return one(p.newStatus(pre, answer{codeOf(c.Args[0]), s}, res(0)))
			}
		case "Newf", "Errorf":
			xa := p.XArgs(c)
			f, ok := strOf(xa[1])
			l := xa[len(xa)-1]
			if !ok || codeOf(xa[0]) == "" || l.K != KTuple && l.K != KNil {
				return nil
			}
			var args []any
			for _, a := range l.Args {
				x, ok := plain(p, b, a)
				if !ok {
					return nil
				}
				args = append(args, x)
			}
			pre := map[string]string{"Newf": "status:", "Errorf": "staterr:"}[name]
			return one(p.newStatus(pre, answer{codeOf(xa[0]), fmt.Sprintf(f, args...)}, res(0)))
		case "FromContextError":
			if v := c.Args[0]; v == b.exc {
				switch b.kind.name {
				case fCanceled:
					return one(p.newStatus("status:", answer{"Canceled", b.kind.text}, res(0)))
				default:
					return one(p.newStatus("status:", answer{"Unknown", b.kind.text}, res(0)))
				}
			}
		case "FromError", "Convert", "Code":
			a, ok := b.statusOfErr(p, c.Args[0])
			if !ok {
				return nil
			}
			is := true
			if _, raw := b.raw(c.Args[0]); raw {
				is = false
			}
			switch name {
			case "Code":
				return one(T.Const(constant.MakeInt64(codeNum(a.code)), res(0)))
			case "Convert":
				return one(p.newStatus("status:", a, res(0)))
			}
			st := p.newStatus("status:", a, res(0))
			return []Outcome{{Res: T.mk(Val{K: KTuple, Args: []*Val{st, T.Bool(is)}}), Apply: func(q *Path) bool { return q.SetNil(st, false) }}}
		}
	case pkgCodes:
		if name == "String" && len(c.Args) == 1 && codeOf(c.Args[0]) != "" {
			return one(p.str(codeOf(c.Args[0])))
		}
	}
	return nil
}

// raw: an error that is not a status.
func (b *boundary) raw(v *Val) (string, bool) {
	if v == b.exc && v != nil {
		return b.kind.text, true
	}
	if v != nil && v.K == KGVal {
		if g, ok := v.Site.(*ssa.Global); ok {
			if t := b.P.sentinelText(g); t != "" {
				return t, true
			}
		}
	}
	if s, ok := textOfError(v); ok {
		if _, w := parseWire(s); !w {
			return s, true
		}
	}
	return "", false
}

// statusOfErr is the status an error stands for (grpc-go answers Unknown with the error's text for an ordinary error).
func (b *boundary) statusOfErr(p *Path, v *Val) (answer, bool) {
	if a, ok := statusOf(v, "staterr:"); ok {
		return a, true
	}
	if s, ok := b.raw(v); ok {
		return answer{"Unknown", s}, true
	}
	if s, ok := textOfError(v); ok {
		return parseWire(s)
	}
	return answer{}, false
}

// is decides errors.As and type assertions for the errors of the scenario.
func (b *boundary) is(p *Path, v *Val, t types.Type) (bool, bool) {
	if v == nil {
		return false, false
	}
	if _, ok := b.statusOfErr(p, v); !ok {
		return false, false
	}
	if _, iface := t.Underlying().(*types.Interface); iface {
		return false, false
	}
	return v == b.exc && b.kind.name == fUnexpected && types.Identical(t, v.T), true
}

func (b *boundary) common(p *Path, c *Call) []Outcome {
	if o := b.statusCall(p, c); o != nil {
		return o
	}
	switch c.Name() {
	case "errors.As":
		if len(c.Args) == 2 {
			t := elemType(c.Args[1].T)
			if yes, ok := b.is(p, c.Args[0], t); ok {
				dst, v := c.Args[1], c.Args[0]
				if yes {
					return []Outcome{{Res: p.E.T.True, Apply: func(q *Path) bool { q.store(dst, v); return true }}}
				}
				return []Outcome{{Res: p.E.T.False}}
			}
		}
	case "errors.Unwrap":
		return []Outcome{{Res: p.E.T.Nil}}
	}
	if c.M != nil && c.M.Name() == "GRPCStatus" && len(c.Args) == 1 {
		if a, ok := b.statusOfErr(p, c.Args[0]); ok {
			st := p.newStatus("status:", a, c.Common.Signature().Results().At(0).Type())
			return []Outcome{{Res: st, Apply: func(q *Path) bool { return q.SetNil(st, false) }}}
		}
	}
	if c.M != nil && c.M.Name() == "Err" && len(c.Args) == 1 && c.Args[0] != nil && c.Args[0].T != nil && isCtxType(c.Args[0].T) {
		return []Outcome{{Res: p.E.T.Nil}}
	}
	return foldText(p, c, b)
}

// branch ends paths on which an error of the scenario is taken for something it is not.
func (b *boundary) branch(p *Path, ev *Ev) {
	v := ev.Val
	want := ev.Bool
	for v != nil && v.K == KNot {
		v, want = v.Args[0], !want
	}
	if v == nil {
		return
	}
	known := func(x *Val) bool { _, ok := b.statusOfErr(p, x); return ok }
	switch {
	case v.K == KEq && want:
		x, y := v.Args[0], v.Args[1]
		if x != y && known(x) && known(y) {
			p.dead = true
		}
	case v.K == KTypeOK:
		if yes, ok := b.is(p, v.Args[0], v.T); ok && yes != want {
			p.dead = true
		}
	}
}

// serverErr explores one server method with one kind of failure.
type serverErr struct {
	*boundary
	f    front
	name string
	out  map[answer]bool
}

func (r *serverErr) Inline(p *Path, c *Call) bool {
	return !(c.Fn != nil && c.Fn.Name() == "NewRawEvent" && pkgOf(c.Fn).Path() == modPath)
}

func (r *serverErr) SelectCase(p *Path, ev *Ev, i int) bool {
	return i < 0 || ev.Sel[i].Send || !doneChan(ev.Sel[i].Chan)
}

func doneChan(v *Val) bool {
	return v != nil && v.K == KCall && v.M != nil && v.M.Name() == "Done"
}

func (r *serverErr) Model(p *Path, c *Call) []Outcome {
	T := p.E.T
	if o := pureEvent(p, c); o != nil {
		return o
	}
	if op := isStoreOp(c); op != "" {
		if isRead(op) {
			return nil
		}
		res := r.exc
		if rr := c.Common.Signature().Results(); rr.Len() == 2 {
			res = T.mk(Val{K: KTuple, Args: []*Val{T.Int(0), r.exc}})
		}
		return []Outcome{{Res: res, Apply: func(q *Path) bool {
			q.Set("failed", nil, "1")
			q.Note(q.pos(), "the store reports: "+r.kind.name)
			return q.SetNil(r.exc, false)
		}}}
	}
	switch {
	case isIterMethod(r.P, c, "Next"), isIterMethod(r.P, c, "NextContext"):
		if p.Get("failed", nil) != "" {
			return []Outcome{{Res: T.False}}
		}
		return []Outcome{
			{Res: T.True},
			// an error can come instead of a further record
			{Res: T.False, Apply: func(q *Path) bool {
				q.Set("failed", nil, "1")
				q.Note(q.pos(), "the store reports: "+r.kind.name)
				return q.SetNil(r.exc, false)
			}},
		}
	case isIterMethod(r.P, c, "Err"):
		if p.Get("failed", nil) != "" {
			return []Outcome{{Res: r.exc}}
		}
		return []Outcome{{Res: T.Nil}}
	}
	if o := r.common(p, c); o != nil {
		return o
	}
	if failing(r.P, c) {
		return errFork(nil, nil)
	}
	return nil
}

func (r *serverErr) Event(p *Path, ev *Ev) {
	switch ev.K {
	case EvBranch:
		r.branch(p, ev)
	case EvExit:
		if p.Get("failed", nil) == "" {
			return
		}
		pos := ev.Instr.Pos()
		res := ev.Res_
		if len(res) == 0 {
			return
		}
		err := res[len(res)-1]
		r.R.Obl("a failure of the store is answered with an error", r.name+" "+r.kind.name)
		if p.NilState(err) == 1 {
			r.R.Fail("success:"+r.name+":"+r.kind.name, pos, fmt.Sprintf("%s: the store failed (%s), but the answer is success", r.name, r.kind.name), p)
			return
		}
		a, ok := r.statusOfErr(p, err)
		if !ok {
			if p.NilState(err) != -1 {
				r.R.Fail("maybe-success:"+r.name+":"+r.kind.name, pos, fmt.Sprintf("%s: the store failed (%s), but the answer need not be an error (%v)", r.name, r.kind.name, err), p)
				return
			}
			r.R.Fail("text:"+r.name+":"+r.kind.name, pos, fmt.Sprintf("%s: the store failed (%s); what the client is told cannot be recognised as that failure (%v)", r.name, r.kind.name, err), p)
			return
		}
		if a.code == "OK" {
			r.R.Fail("success:"+r.name+":"+r.kind.name, pos, fmt.Sprintf("%s: the store failed (%s), but the answer carries code OK", r.name, r.kind.name), p)
			return
		}
		r.out[a] = true
	}
}

func (r *serverErr) run() {
	r.name = FnName(r.f.root)
	e := NewEngine(r.P, r)
	e.RunRoot(r.f.root, func(p *Path, params []*Val) {
		for _, a := range params {
			if _, ok := a.T.Underlying().(*types.Pointer); ok {
				p.SetNil(a, false)
			}
		}
		r.scene(p)
	})
	r.R.Engine(e, r.name+" "+r.kind.name)
}

// scene makes the store's error.
func (b *boundary) scene(p *Path) {
	T := p.E.T
	switch b.kind.name {
	case fCanceled:
		b.exc = b.P.libVar("context", "Canceled")
	case fNotFound:
		b.exc = b.P.gval("", "ErrStreamNotFound")
	case fUnexpected:
		b.exc = T.mk(Val{K: KAlloc, Op: "unexpected", T: types.NewPointer(b.errT)})
		st := b.errT.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			p.store(p.fieldAddr(b.exc, i, f), T.Const(constant.MakeUint64(numOf(f.Name())), f.Type()))
		}
	default:
		b.exc = T.mk(Val{K: KBuiltin, Op: "error:" + b.kind.text, T: types.Universe.Lookup("error").Type()})
	}
	p.SetNil(b.exc, false)
}

func numOf(field string) uint64 {
	if strings.Contains(field, "Expected") {
		return numExpected
	}
	return numActual
}

// clientErr explores one remote operation with one outcome of its call.
type clientErr struct {
	*boundary
	f    front
	name string
	op   string
	got  answer
	e    *Val
	srv  bool // the answer is the server's
	seen bool
}

func (r *clientErr) Inline(p *Path, c *Call) bool { return true }

func (r *clientErr) SelectCase(p *Path, ev *Ev, i int) bool {
	return i < 0 || ev.Sel[i].Send || !doneChan(ev.Sel[i].Chan)
}

func (r *clientErr) isRecv(c *Call) bool {
	if c.M == nil || c.M.Name() != "Recv" || c.Fn != nil {
		return false
	}
	rr := c.Common.Signature().Results()
	return rr.Len() == 2 && isNamedIn(derefT(rr.At(0).Type()), pkgPB, "Record") && isErrorType(rr.At(1).Type())
}

func (r *clientErr) Model(p *Path, c *Call) []Outcome {
	T := p.E.T
	if o := pureEvent(p, c); o != nil {
		return o
	}
	fails := func(q *Path) bool {
		q.Set("failed", nil, "1")
		q.Note(q.pos(), "this call fails: "+r.got.wire())
		return q.SetNil(r.e, false)
	}
	if isRPC(c) != "" || r.isRecv(c) {
		if p.Get("failed", nil) != "" {
			return nil
		}
		r.seen = true
		out := []Outcome{{Res: T.mk(Val{K: KTuple, Args: []*Val{T.Nil, r.e}, T: c.Common.Signature().Results()}), Apply: fails}}
		if isRPC(c) != "" && isRead(r.f.op) && r.srv {
			out = nil // the server's status of a stream arrives when reading from it
		}
		if isRead(r.f.op) {
			out = append(out, errFork(nil, nil)[0])
		}
		return out
	}
	if o := r.common(p, c); o != nil {
		return o
	}
	if failing(r.P, c) {
		return errFork(nil, nil)
	}
	return nil
}

func (r *clientErr) Event(p *Path, ev *Ev) {
	switch ev.K {
	case EvBranch:
		r.branch(p, ev)
	case EvGo:
		rs := map[RK]RV{{"inGo", nil}: {S: "1"}}
		if p.Get("failed", nil) != "" {
			rs[RK{"failed", nil}] = RV{S: "1"}
			p.Set("offered", nil, "1")
		}
		p.E.RunGo(p, ev.Call, rs)
	case EvSelect:
		for _, s := range ev.Sel {
			if s.Send && isResultChan(s.Chan) {
				r.result(p, ev.Instr.Pos(), s.Val)
			}
		}
	case EvSend:
		if !ev.Bool && isResultChan(ev.Addr) {
			r.result(p, ev.Instr.Pos(), ev.Val)
		}
	case EvExit:
		if p.Get("failed", nil) == "" {
			return
		}
		if isRead(r.f.op) || p.Get("inGo", nil) != "" {
			r.R.Obl("a failed call is reported to the caller", r.name+" "+r.kind.name+" "+r.got.code)
			if p.Get("offered", nil) == "" {
				r.bad(p, ev.Instr.Pos(), "silent", "the call failed, but no error is handed to the reader")
			}
			return
		}
		if n := len(ev.Res_); n > 0 {
			r.judge(p, ev.Instr.Pos(), ev.Res_[n-1])
		}
	}
}

func (r *clientErr) result(p *Path, pos token.Pos, v *Val) {
	if p.Get("failed", nil) == "" || v == nil || p.Get("offered", nil) != "" {
		return
	}
	p.Set("offered", nil, "1")
	e := p.FieldOf(v, "Err")
	if e == nil {
		r.bad(p, pos, "silent", "the call failed, but what is handed to the reader need not carry an error")
		return
	}
	r.judge(p, pos, e)
}

func (r *clientErr) bad(p *Path, pos token.Pos, key, msg string) {
	if !pos.IsValid() {
		pos = r.f.root.Pos()
	}
	r.R.Fail(key+":"+r.name+":"+r.kind.name, pos, fmt.Sprintf("%s: the store reported %s, the server answered %s: %s", r.name, r.kind.name, r.got, msg), p)
}

func (r *clientErr) judge(p *Path, pos token.Pos, e *Val) {
	r.R.Obl("errors keep their meaning", r.name+" "+r.kind.name+" "+r.got.code)
	if c := p.constOf(e); c != nil {
		e = c
	}
	switch r.kind.name {
	case fCanceled:
		if e != r.P.libVar("context", "Canceled") {
			r.bad(p, pos, "meaning", fmt.Sprintf("the caller gets %v instead of context.Canceled", r.show(p, e)))
		}
	case fNotFound:
		if e != r.P.gval("", "ErrStreamNotFound") {
			r.bad(p, pos, "meaning", fmt.Sprintf("the caller gets %v instead of ErrStreamNotFound", r.show(p, e)))
		}
	case fUnexpected:
		pt, _ := e.T.(*types.Pointer)
		if pt == nil || !types.Identical(pt.Elem(), r.errT) {
			r.bad(p, pos, "meaning", fmt.Sprintf("the caller gets %v instead of an UnexpectedSequenceNumber", r.show(p, e)))
			return
		}
		st := r.errT.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			v := p.FieldOf(e, f.Name())
			want := constant.MakeUint64(numOf(f.Name()))
			if v == nil || v.K != KConst || !constant.Compare(v.C, token.EQL, want) {
				r.bad(p, pos, "numbers", fmt.Sprintf("the caller's error has %s = %v, the store's had %s", f.Name(), v, want))
			}
		}
	default:
		if p.NilState(e) != -1 {
			r.bad(p, pos, "lost", "the caller need not get an error")
		}
	}
}

func (r *clientErr) show(p *Path, e *Val) string {
	if s, ok := r.errText(p, e); ok {
		return fmt.Sprintf("%q", s)
	}
	if p.NilState(e) == 1 {
		return "no error"
	}
	return e.String()
}

func (r *clientErr) run() {
	r.name = FnName(r.f.root)
	e := NewEngine(r.P, r)
	e.RunRoot(r.f.root, func(p *Path, params []*Val) {
		for _, a := range params {
			if _, ok := a.T.Underlying().(*types.Pointer); ok {
				p.SetNil(a, false)
			}
		}
		r.e = p.E.T.mk(Val{K: KBuiltin, Op: "error:" + r.got.wire(), T: types.Universe.Lookup("error").Type()})
		p.SetNil(r.e, false)
	})
	r.R.Engine(e, r.name+" "+r.kind.name+" "+r.got.code)
	if !r.seen {
		r.R.Fail("no-call:"+r.name, r.f.root.Pos(), r.name+": no call of the gRPC client was found in it", nil)
	}
}

// textRule learns the text of an error with known fields.
type textRule struct {
	*boundary
	texts map[string]bool
}

func (r *textRule) Inline(p *Path, c *Call) bool           { return true }
func (r *textRule) SelectCase(p *Path, ev *Ev, i int) bool { return true }
func (r *textRule) Model(p *Path, c *Call) []Outcome       { return foldText(p, c, r.boundary) }
func (r *textRule) Event(p *Path, ev *Ev) {
	if ev.K == EvExit && len(ev.Res_) == 1 {
		s, ok := strOf(ev.Res_[0])
		if !ok {
			s = ""
		}
		r.texts[s] = true
	}
}

// unexpectedText is the text of the unexpected sequence number with the scenario's numbers.
func unexpectedText(P *Prog, R *Report, n *types.Named) string {
	f := P.Method(n, "Error")
	if f == nil || len(f.Params) != 1 {
		return ""
	}
	r := &textRule{boundary: &boundary{P: P, R: R, errT: n, kind: failure{name: fUnexpected}}, texts: map[string]bool{}}
	e := NewEngine(P, r)
	st := n.Underlying().(*types.Struct)
	var vals []*Val
	for i := 0; i < st.NumFields(); i++ {
		vals = append(vals, P.T.Const(constant.MakeUint64(numOf(st.Field(i).Name())), st.Field(i).Type()))
	}
	if _, ptr := f.Params[0].Type().(*types.Pointer); ptr {
		a := P.T.mk(Val{K: KAlloc, Op: "unexpected", T: types.NewPointer(n)})
		p := e.Start(f, []*Val{a})
		for i := range vals {
			p.store(p.fieldAddr(a, i, st.Field(i)), vals[i])
		}
		p.SetNil(a, false)
		e.Run(p)
	} else {
		e.Run(e.Start(f, []*Val{P.T.mk(Val{K: KStruct, Args: vals, T: n})}))
	}
	R.Engine(e, FnName(f))
	if len(r.texts) != 1 {
		return ""
	}
	for s := range r.texts {
		return s
	}
	return ""
}

func boundaryErrors(P *Prog, R *Report) {
	o := P.Lookup("pkg/rangedberror", "UnexpectedSequenceNumber")
	tn, ok := o.(*types.TypeName)
	if !ok {
		R.Fail("anchor", token.NoPos, "rangedberror.UnexpectedSequenceNumber not found", nil)
		return
	}
	n := tn.Type().(*types.Named)
	ut := unexpectedText(P, R, n)
	if ut == "" {
		R.Fail("text:UnexpectedSequenceNumber", o.Pos(), "the text of an UnexpectedSequenceNumber cannot be determined from its fields", nil)
		return
	}
	nf := P.gval("", "ErrStreamNotFound")
	nft := ""
	if nf != nil {
		nft = P.sentinelText(nf.Site.(*ssa.Global))
	}
	kinds := []failure{{fCanceled, "context canceled"}, {fNotFound, nft}, {fUnexpected, ut}, {fOther, "something else went wrong"}}
	type key struct{ op, kind string }
	ans := map[key]map[answer]bool{}
	for _, f := range fronts(P) {
		if f.side != "server" {
			continue
		}
		op := rpcOp(f.root.Name())
		for _, k := range kinds {
			if !k.meets(op) || k.text == "" {
				continue
			}
			m := ans[key{op, k.name}]
			if m == nil {
				m = map[answer]bool{}
				ans[key{op, k.name}] = m
			}
			r := &serverErr{boundary: &boundary{P: P, R: R, kind: k, errT: n}, f: f, out: m}
			r.run()
		}
	}
	for _, f := range fronts(P) {
		if f.side != "remote" {
			continue
		}
		for _, k := range kinds {
			set := map[answer]bool{}
			for a := range ans[key{f.op, k.name}] {
				set[a] = true
			}
			switch k.name {
			case fCanceled:
				// the caller's own context
				set[answer{"Canceled", "context canceled"}] = true
			case fOther:
				set[answer{"Unavailable", "transport is closing"}] = true
				set[answer{"Internal", "grpc: error while marshaling"}] = true
			}
			var l []answer
			for a := range set {
				l = append(l, a)
			}
			sort.Slice(l, func(i, j int) bool { return l[i].String() < l[j].String() })
			for _, a := range l {
				r := &clientErr{boundary: &boundary{P: P, R: R, kind: k, errT: n}, f: f, got: a, srv: ans[key{f.op, k.name}][a]}
				r.run()
			}
		}
	}
	R.Need("a failure of the store is answered with an error", 15)
	R.Need("errors keep their meaning", 20)
	R.Need("a failed call is reported to the caller", 8)
}

func init() {
	register("C19", "server and client are explored with each kind of failure; the caller's error is compared with the store's",
		[]string{"grpc-go turns an ordinary error of a handler into a status with code Unknown and the error's text, and a status error's text into \"rpc error: code = C desc = T\" (v1.35.0)",
			"status details can be attached (WithDetails succeeds)",
			"the iterator of the store ends with the error it met (C07)"},
		boundaryErrors)
}
