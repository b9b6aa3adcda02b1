package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Fronts: what stands in front of a store (encrypting store, remote client, gRPC server) hands each operation on
// unchanged, exactly once, and hands its outcome back.

const pkgPB = modPath + "/pkg/grpc/rangedbpb"

// opRoles are the roles of each operation's parameters.
var opRoles = map[string][]string{
	"Events":                 {"ctx", "start"},
	"EventsByAggregateTypes": {"ctx", "start", "types"},
	"EventsByStream":         {"ctx", "sstart", "stream"},
	"OptimisticDeleteStream": {"ctx", "expected", "stream"},
	"OptimisticSave":         {"ctx", "expected", "stream", "events"},
	"Save":                   {"ctx", "stream", "events"},
	"TotalEventsInStream":    {"ctx", "stream"},
}

var roleField = map[string]string{"start": "GlobalSequenceNumber", "sstart": "StreamSequenceNumber", "types": "AggregateTypes", "stream": "StreamName", "expected": "ExpectedStreamSequenceNumber", "events": "Events"}

// rpcOp is the store operation an RPC stands for.
func rpcOp(name string) string {
	if name == "EventsByAggregateType" {
		return "EventsByAggregateTypes"
	}
	if _, ok := opRoles[name]; ok {
		return name
	}
	return ""
}

func isRead(op string) bool { return in(op, "Events", "EventsByAggregateTypes", "EventsByStream") }

// isStoreOp: an interface call of a store operation.
func isStoreOp(c *Call) string {
	if c.M == nil || c.Fn != nil || c.M.Pkg() == nil || c.M.Pkg().Path() != modPath {
		return ""
	}
	if _, ok := opRoles[c.M.Name()]; !ok {
		return ""
	}
	if n := recvNamed(c.M); n != nil && !types.IsInterface(n) {
		return ""
	}
	return c.M.Name()
}

// isRPC: a call of the generated client.
func isRPC(c *Call) string {
	if c.M == nil || c.M.Pkg() == nil || c.M.Pkg().Path() != pkgPB {
		return ""
	}
	n := recvNamed(c.M)
	if n == nil || n.Obj().Name() != "RangeDBClient" {
		return ""
	}
	return c.M.Name()
}

type front struct {
	root *ssa.Function
	side string // encrypting, remote, server
	op   string
}

// grpcServers are the implementations of the gRPC service.
func grpcServers(P *Prog) []*types.Named {
	it := P.Iface("pkg/grpc/rangedbpb", "RangeDBServer")
	if it == nil {
		return nil
	}
	var out []*types.Named
	for _, n := range P.Implementers(it) {
		if n.Obj().Pkg().Path() != pkgPB {
			out = append(out, n)
		}
	}
	return out
}

func fronts(P *Prog) []front {
	var out []front
	for _, side := range []string{"encrypting", "remote"} {
		s := P.StoreOf(side)
		if s == nil {
			continue
		}
		for _, op := range sortedKeys(opRoles) {
			if f := P.Method(s.N, op); f != nil {
				out = append(out, front{f, side, op})
			}
		}
	}
	for _, n := range grpcServers(P) {
		for _, f := range P.ExportedMethods(n) {
			if op := rpcOp(f.Name()); op != "" {
				out = append(out, front{f, "server", op})
			}
		}
	}
	return out
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	for i := range ks {
		for j := i + 1; j < len(ks); j++ {
			if ks[j] < ks[i] {
				ks[i], ks[j] = ks[j], ks[i]
			}
		}
	}
	return ks
}

// fieldRead: v reads field name of base.
func fieldRead(v *Val) (base *Val, name string) {
	if v == nil {
		return nil, ""
	}
	switch v.K {
	case KLoad, KWiden, KOut:
		if len(v.Args) > 0 && v.Args[0].K == KFieldAddr {
			return v.Args[0].Args[0], v.Args[0].Op
		}
	case KField:
		return v.Args[0], v.Op
	}
	return nil, ""
}

// reads: does v read field name of base (or of the struct base points to)?
func reads(v, base *Val, name string) bool {
	b, n := fieldRead(v)
	if n != name || b == nil {
		return false
	}
	return b == base || (b.K == KLoad && len(b.Args) > 0 && b.Args[0] == base)
}

// derivedCtx: is v the context ctx or derived from it without losing its cancellation?
func derivedCtx(v *Val, is func(v *Val) bool) bool {
	for i := 0; v != nil && i < 20; i++ {
		if is(v) {
			return true
		}
		switch v.K {
		case KExtract:
			v = v.Args[0]
		case KCall:
			if v.FullName() == "context.WithoutCancel" {
				return false
			}
			var nx *Val
			for _, a := range v.Args {
				if a != nil && isCtxType(a.T) {
					nx = a
					break
				}
			}
			if nx == nil || len(v.Args) == 0 {
				return false
			}
			v = nx
		default:
			return false
		}
	}
	return false
}

type passRule struct {
	Base
	P    *Prog
	R    *Report
	prop string
	f    front
	name string
	req  *Val
	par  map[string]*Val
	rctx func(v *Val) bool
}

func (r *passRule) fail(key string, p *Path, pos token.Pos, msg string) {
	if !pos.IsValid() {
		pos = r.f.root.Pos()
	}
	r.R.Fail(key+":"+r.name, pos, r.name+": "+msg, p)
}

func (r *passRule) target(c *Call) string {
	if r.f.side == "remote" {
		return rpcOp(isRPC(c))
	}
	return isStoreOp(c)
}

func (r *passRule) Inline(p *Path, c *Call) bool {
	return !(c.Fn != nil && c.Fn.Name() == "NewRawEvent" && pkgOf(c.Fn).Path() == modPath)
}

func (r *passRule) Model(p *Path, c *Call) []Outcome {
	if o := pureEvent(p, c); o != nil {
		return o
	}
	if r.target(c) != "" {
		if hasErr(c) {
			return errFork(func(q *Path, res *Val) {
				q.SetV("done", nil, "ok", res)
				if tt, ok := res.T.(*types.Tuple); ok && tt.Len() == 2 {
					q.SetNil(q.ResOf(res, 0), false)
				}
			}, func(q *Path, res *Val) {
				q.SetV("done", nil, "failed", res)
			})
		}
		return []Outcome{{Opaque: true, After: func(q *Path, res *Val) bool {
			q.SetV("done", nil, "ok", res)
			return true
		}}}
	}
	if failing(r.P, c) {
		return errFork(nil, nil)
	}
	return nil
}

func (r *passRule) SelectCase(p *Path, ev *Ev, i int) bool { return true }

// relevant: is the role part of what the property promises?
func (r *passRule) relevant(role string) bool {
	switch r.prop {
	case "C01":
		return in(role, "expected", "stream")
	case "C06":
		return in(role, "start", "sstart", "types", "stream")
	case "C10":
		return role == "ctx"
	case "C18":
		return role != "ctx" && !(role == "events")
	}
	return false
}

func (r *passRule) opOK() bool {
	switch r.prop {
	case "C01":
		return !isRead(r.f.op) && r.f.op != "TotalEventsInStream"
	case "C06":
		return isRead(r.f.op)
	}
	return true
}

var roleText = map[string]string{"start": "start position", "sstart": "start position", "types": "aggregate types", "stream": "stream name", "expected": "expected sequence number", "events": "events", "ctx": "context"}

var passObl = map[string]string{
	"C01": "the optimistic operation is handed on with the caller's number",
	"C06": "a read is passed on with the start and selection asked for",
	"C10": "the operation's context is handed on",
	"C18": "a request is handed on with every field",
}

func (r *passRule) want(role string, v *Val) bool {
	if role == "ctx" {
		return derivedCtx(v, r.rctx)
	}
	if r.f.side == "server" {
		if b, n := fieldRead(v); n == roleField[role] && b == r.req {
			return true
		}
		return false
	}
	return v == r.par[role]
}

func (r *passRule) Event(p *Path, ev *Ev) {
	switch ev.K {
	case EvCall:
		c := ev.Call
		op := r.target(c)
		if op == "" {
			return
		}
		if p.Get("done", nil) != "" {
			r.fail("twice", p, ev.Instr.Pos(), "the operation is handed on a second time")
			return
		}
		p.Set("done", nil, "called")
		r.R.Obl(passObl[r.prop], r.name)
		if op != r.f.op {
			r.fail("other-op", p, ev.Instr.Pos(), "the operation is handed on as another one ("+op+")")
			return
		}
		roles := opRoles[op]
		for i, role := range roles {
			if !r.relevant(role) {
				continue
			}
			var got *Val
			if r.f.side == "remote" && role != "ctx" {
				if len(c.Args) < 3 {
					continue
				}
				got = p.FieldOf(c.Args[2], roleField[role])
			} else if i+1 < len(c.Args) {
				got = c.Args[i+1]
			}
			if !r.want(role, got) {
				r.fail("changed-"+role, p, ev.Instr.Pos(), fmt.Sprintf("the %s is not handed on as it was given (%v)", roleText[role], got))
			}
		}
		if r.prop == "C01" && r.f.side == "encrypting" && in("events", roles...) {
			if got := c.Args[len(c.Args)-1]; got != r.par["events"] {
				r.fail("changed-events", p, ev.Instr.Pos(), "the events are not handed on as they were given")
			}
		}
	case EvExit:
		r.exit(p, ev)
	}
}

func (r *passRule) exit(p *Path, ev *Ev) {
	pos := ev.Instr.Pos()
	res := ev.Res_
	var err *Val
	if n := len(res); n > 0 && isErrorType(r.f.root.Signature.Results().At(n-1).Type()) {
		err = res[n-1]
	}
	switch p.Get("done", nil) {
	case "":
		if err == nil || p.NilState(err) != -1 {
			r.fail("not-passed", p, pos, "the operation ends without an error and without having been handed on")
		}
	case "ok":
		if r.prop != "C18" && r.prop != "C01" {
			return
		}
		call := p.GetV("done", nil)
		if isRead(r.f.op) || err == nil || p.NilState(err) == -1 {
			return
		}
		// what the caller gets is what the store (or server) said
		switch {
		case r.f.side == "encrypting" && len(res) == 2:
			if res[0] != p.ResOf(call, 0) {
				r.fail("result", p, pos, "the number returned is not the one the store returned")
			}
		case r.f.side == "remote" && len(res) == 2:
			fn := "LastStreamSequenceNumber"
			if r.f.op == "TotalEventsInStream" {
				fn = "TotalEvents"
			}
			if !reads(res[0], p.ResOf(call, 0), fn) {
				r.fail("result", p, pos, "the number returned is not the server's "+fn)
			}
		case r.f.side == "server" && len(res) == 2 && r.f.op != "OptimisticDeleteStream":
			fn := "LastStreamSequenceNumber"
			if r.f.op == "TotalEventsInStream" {
				fn = "TotalEvents"
			}
			if p.FieldOf(res[0], fn) != p.ResOf(call, 0) {
				r.fail("result", p, pos, "the response's "+fn+" is not the number the store returned")
			}
		}
	}
}

func (r *passRule) run() {
	r.name = FnName(r.f.root)
	r.par = map[string]*Val{}
	e := NewEngine(r.P, r)
	e.RunRoot(r.f.root, func(p *Path, params []*Val) {
		for _, a := range params {
			if _, ok := a.T.Underlying().(*types.Pointer); ok {
				p.SetNil(a, false)
			}
			if isNamedIn(a.T, pkgPB, pbName(a.T)) && strings.HasSuffix(pbName(a.T), "Request") {
				r.req = a
			}
		}
		sig := r.f.root.Signature
		off := len(params) - sig.Params().Len()
		if r.f.side != "server" {
			for i, role := range opRoles[r.f.op] {
				if off+i < len(params) {
					r.par[role] = params[off+i]
				}
			}
		}
		r.rctx = ctxOf(params)
	})
	r.R.Engine(e, r.name)
}

// ctxOf recognises the context an operation was given: a context parameter, or that of a request or stream.
func ctxOf(params []*Val) func(v *Val) bool {
	return func(v *Val) bool {
		for _, a := range params {
			if v == a && isCtxType(a.T) {
				return true
			}
			if v.K == KCall && v.M != nil && v.M.Name() == "Context" && len(v.Args) == 1 && v.Args[0] == a {
				return true
			}
		}
		return false
	}
}

func pbName(t types.Type) string {
	if n := namedOf(t); n != nil {
		return n.Obj().Name()
	}
	return ""
}

func runPass(P *Prog, R *Report, prop string, sides ...string) {
	for _, f := range fronts(P) {
		r := &passRule{P: P, R: R, prop: prop, f: f}
		if len(sides) > 0 && !in(f.side, sides...) || !r.opOK() {
			continue
		}
		r.run()
	}
}

func passThrough(P *Prog, R *Report, prop string) {
	runPass(P, R, prop)
	R.Need(passObl[prop], 7)
}

func passReads(P *Prog, R *Report) { runPass(P, R, "C06") }
