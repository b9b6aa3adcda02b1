package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const maxDepth = 16

func firstNonPhi(b *ssa.BasicBlock) int {
	for i, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); !ok {
			return i
		}
	}
	return len(b.Instrs)
}

func (p *Path) val(v ssa.Value) *Val {
	T := p.E.T
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			switch x.Type().Underlying().(type) {
			case *types.Struct, *types.Array:
				return T.mk(Val{K: KZero, T: x.Type()})
			case *types.Basic:
				if b := x.Type().Underlying().(*types.Basic); b.Kind() != types.UntypedNil && b.Kind() != types.UnsafePointer {
					return p.zero(x.Type())
				}
			}
			return T.Nil
		}
		if x.Value.Kind() == constant.Bool {
			return T.Bool(constant.BoolVal(x.Value))
		}
		return T.Const(x.Value, x.Type())
	case *ssa.Global:
		return T.mk(Val{K: KGlobal, Site: x, T: x.Type()})
	case *ssa.Function:
		return T.mk(Val{K: KFunc, Fn: x, T: x.Type()})
	case *ssa.Builtin:
		return T.mk(Val{K: KBuiltin, Op: x.Name()})
	}
	if r, ok := p.top().env[v]; ok && r != nil {
		return r
	}
	// unset (should not happen): an unknown
	return T.mk(Val{K: KLoad, Op: "unset", Site: v, Frame: p.top().frame, T: v.Type()})
}

func (p *Path) pos() token.Pos {
	for i := len(p.acts) - 1; i >= 0; i-- {
		a := p.acts[i]
		for pc := a.pc; pc >= 0; pc-- {
			if pc < len(a.block.Instrs) {
				if ps := a.block.Instrs[pc].Pos(); ps.IsValid() {
					return ps
				}
			}
		}
	}
	return token.NoPos
}

func (e *Engine) ev(p *Path, ev *Ev) {
	if p.dead {
		return
	}
	if len(p.acts) > 0 {
		ev.Frame = p.top().frame
	}
	e.R.Event(p, ev)
}

// step runs a path up to its next fork or block entry.
func (e *Engine) step(p *Path) []*Path {
	for {
		if p.dead {
			return nil
		}
		a := p.top()
		if a.pc >= len(a.block.Instrs) {
			return nil
		}
		in := a.block.Instrs[a.pc]
		p.steps++
		switch x := in.(type) {
		case *ssa.If:
			c := p.val(x.Cond)
			switch p.Truth(c) {
			case 1:
				if !e.jump(p, a.block.Succs[0]) {
					return nil
				}
				continue
			case -1:
				if !e.jump(p, a.block.Succs[1]) {
					return nil
				}
				continue
			}
			q := p.clone()
			pos := x.Cond.Pos()
			if !pos.IsValid() {
				pos = p.pos()
			}
			var out []*Path
			if q.Assume(c, false) {
				q.Note(pos, "not "+c.String())
				e.ev(q, &Ev{K: EvBranch, Instr: x, Val: c, Bool: false})
				if e.jump(q, a.block.Succs[1]) {
					out = append(out, q)
				}
			}
			if p.Assume(c, true) {
				p.Note(pos, c.String())
				e.ev(p, &Ev{K: EvBranch, Instr: x, Val: c, Bool: true})
				if e.jump(p, a.block.Succs[0]) {
					out = append(out, p)
				}
			}
			return out
		case *ssa.Jump:
			if !e.jump(p, a.block.Succs[0]) {
				return nil
			}
			continue
		case *ssa.Return:
			var res []*Val
			for _, r := range x.Results {
				res = append(res, p.val(r))
			}
			if !e.ret(p, res) {
				return nil
			}
			continue
		case *ssa.Panic:
			e.ev(p, &Ev{K: EvPanic, Instr: in, Val: p.val(x.X)})
			return nil
		case *ssa.RunDefers:
			if len(a.defers) == 0 {
				a.pc++
				continue
			}
			d := a.defers[len(a.defers)-1]
			a.defers = a.defers[:len(a.defers)-1]
			out, cont := e.call(p, d, nil)
			if !cont {
				return out
			}
			continue
		case *ssa.Defer:
			c := p.resolve(&x.Call, in)
			c.Deferd = true
			n := 0
			for _, d := range a.defers {
				if d.Instr == in {
					n++
				}
			}
			if n < 2 {
				a.defers = append(a.defers, c)
			}
			a.pc++
			continue
		case *ssa.Go:
			c := p.resolve(&x.Call, in)
			a.pc++
			e.ev(p, &Ev{K: EvGo, Instr: in, Call: c})
			continue
		case *ssa.Call:
			c := p.resolve(&x.Call, in)
			a.pc++
			out, cont := e.call(p, c, x)
			if !cont {
				return out
			}
			continue
		case *ssa.Select:
			a.pc++
			return e.selectFork(p, x)
		}
		e.simple(p, in)
		a.pc++
	}
}

func (p *Path) resolve(cc *ssa.CallCommon, in ssa.Instruction) *Call {
	c := &Call{Instr: in, Common: cc, Frame: p.top().frame}
	if cc.IsInvoke() {
		recv := p.val(cc.Value)
		c.Args = append(c.Args, recv)
		c.M = cc.Method
		if t := recv.T; t != nil && !types.IsInterface(t) {
			if sel := p.E.P.SSA.MethodSets.MethodSet(t).Lookup(cc.Method.Pkg(), cc.Method.Name()); sel != nil {
				if f := p.E.P.SSA.MethodValue(sel); f != nil {
					c.Fn = f
					if o, ok := f.Object().(*types.Func); ok {
						c.M = o
					}
				}
			}
		}
	} else {
		switch f := cc.Value.(type) {
		case *ssa.Builtin:
			c.Bltn = f.Name()
		case *ssa.Function:
			c.Fn = f
		default:
			v := p.val(cc.Value)
			c.FV = v
			if v.K == KFunc || v.K == KClosure {
				c.Fn = v.Fn
			}
		}
		if c.Fn != nil {
			if o, ok := c.Fn.Object().(*types.Func); ok {
				c.M = o
			}
		}
	}
	if c.FV != nil && c.FV.K == KClosure && c.Fn != nil && len(c.FV.Args) == 1 && strings.HasPrefix(c.Fn.Synthetic, "bound method wrapper") && !p.E.P.InRepo(c.Fn) {
		// a method value of a library type
		if o, ok := c.Fn.Object().(*types.Func); ok && !types.IsInterface(c.FV.Args[0].T) {
			c.M = o
			c.Args = append(c.Args, c.FV.Args[0])
			c.Fn = p.E.P.SSA.FuncValue(o)
			c.FV = nil
		}
	}
	for _, x := range cc.Args {
		c.Args = append(c.Args, p.val(x))
	}
	return c
}

// call performs a call; the bool says whether to go on with p itself.
func (e *Engine) call(p *Path, c *Call, site *ssa.Call) ([]*Path, bool) {
	if c.Bltn != "" {
		r := e.builtin(p, c)
		if site != nil && !p.dead {
			p.top().env[site] = r
		}
		return nil, !p.dead
	}
	e.ev(p, &Ev{K: EvCall, Instr: c.Instr, Call: c})
	if p.dead {
		return nil, false
	}
	outs := e.R.Model(p, c)
	if outs == nil {
		outs = e.model(p, c)
	}
	if outs != nil {
		var res []*Path
		for i, o := range outs {
			q := p
			if i < len(outs)-1 {
				q = p.clone()
			}
			if o.Apply != nil && !o.Apply(q) {
				continue
			}
			if o.Opaque {
				r := e.opaque(q, c)
				if site != nil {
					q.top().env[site] = r
				}
				e.ev(q, &Ev{K: EvCallDone, Instr: c.Instr, Call: c, Res: r})
				if o.After != nil && !o.After(q, r) {
					continue
				}
			}
			if site != nil && o.Res != nil {
				q.top().env[site] = o.Res
			}
			if !q.dead {
				res = append(res, q)
			}
		}
		return res, false
	}
	if c.Fn != nil && len(c.Fn.Blocks) > 0 && e.inlineable(p, c) {
		var bind []*Val
		if c.FV != nil && c.FV.K == KClosure {
			bind = c.FV.Args
		}
		fr := e.T.Frame(p.top().frame, c.Instr, c.Fn)
		p.push(fr, c.Args, bind)
		p.top().isDef = c.Deferd
		p.top().call = c
		p.top().retTo = site
		if !e.enter(p) {
			return nil, false
		}
		return nil, true
	}
	res := e.opaque(p, c)
	e.ev(p, &Ev{K: EvCallDone, Instr: c.Instr, Call: c, Res: res})
	if p.dead {
		return nil, false
	}
	if site != nil {
		p.top().env[site] = res
	}
	return nil, true
}

// opaque performs a call to unknown code: what it can reach is forgotten.
func (e *Engine) opaque(p *Path, c *Call) *Val {
	n := c.Name()
	e.Opaque[n]++
	var t types.Type
	if c.Common != nil {
		t = c.Common.Signature().Results()
		if tt, ok := t.(*types.Tuple); ok && tt.Len() == 1 {
			t = tt.At(0).Type()
		}
	}
	args := p.XArgs(c)
	raw := c.Args
	if c.FV != nil {
		raw = append([]*Val{c.FV}, raw...)
	}
	var before []*Val
	for _, v := range raw {
		if v != nil && v.K == KAlloc {
			if w, ok := p.mem[v]; ok && w.K != KConst {
				before = append(before, w)
			}
		}
	}
	p.outArgs = args
	if readsOnly(c) {
		raw = nil
	}
	for i, v := range raw {
		p.clobber(v, c.Instr, i, map[*Val]bool{})
	}
	p.outArgs = nil
	if len(before) > 0 {
		args = append(append([]*Val{}, args...), before...)
	}
	if readsOnly(c) && in(c.M.Name(), "Serialize", "Marshal", "MarshalIndent") {
		// the result does not point into what was serialised
		var keep []*Val
		for _, a := range args {
			if a == nil || a.K != KAlloc {
				keep = append(keep, a)
			}
		}
		args = keep
	}
	rv := Val{K: KCall, Site: c.Instr, Frame: p.top().frame, M: c.M, Fn: c.Fn, Args: args, T: t, Op: "dyn"}
	res := p.fresh(e.T.mk(rv))
	if isLockName(n) {
		p.ForgetShared()
	}
	return res
}

// readsOnly: calls that leave what their arguments point to unchanged.
func readsOnly(c *Call) bool {
	if c.M == nil {
		return false
	}
	pkg := ""
	if c.M.Pkg() != nil {
		pkg = c.M.Pkg().Path()
	}
	switch pkg {
	case "fmt":
		return !strings.Contains(c.M.Name(), "can") // Scan, Sscanf
	case "log", "errors", "strings", "strconv", "time", "path", "path/filepath":
		return true
	case "encoding/json":
		return in(c.M.Name(), "Marshal", "MarshalIndent", "Encode")
	case "github.com/vmihailenco/msgpack/v4", "google.golang.org/protobuf/proto", "github.com/golang/protobuf/proto":
		return c.M.Name() == "Marshal"
	case modPath:
		return c.M.Name() == "Serialize"
	case "context":
		return true
	}
	return false
}

// ErrOf is the error a call's result carries.
func (p *Path) ErrOf(res *Val) *Val {
	if res == nil {
		return nil
	}
	if res.K == KTuple {
		return res.Args[len(res.Args)-1]
	}
	if tt, ok := res.T.(*types.Tuple); ok {
		if tt.Len() == 0 {
			return nil
		}
		i := tt.Len() - 1
		return p.E.T.mk(Val{K: KExtract, Idx: i, Args: []*Val{res}, T: tt.At(i).Type()})
	}
	return res
}

// ResOf is result i of a call.
func (p *Path) ResOf(res *Val, i int) *Val {
	if res.K == KTuple {
		return res.Args[i]
	}
	if tt, ok := res.T.(*types.Tuple); ok {
		return p.E.T.mk(Val{K: KExtract, Idx: i, Args: []*Val{res}, T: tt.At(i).Type()})
	}
	return res
}

// XArgs are a call's arguments with a variadic list of known elements spelled out.
func (p *Path) XArgs(c *Call) []*Val {
	args := append([]*Val(nil), c.Args...)
	if c.Common != nil && len(args) > 0 && c.Common.Signature().Variadic() {
		l := args[len(args)-1]
		if l.K == KSlice || l.K == KNil {
			if el, ok := p.SliceElems(l); ok {
				ok2 := true
				for _, e := range el {
					if e == nil {
						ok2 = false
					}
				}
				if ok2 {
					args[len(args)-1] = p.E.T.mk(Val{K: KTuple, Args: el})
				}
			}
		}
	}
	if c.FV != nil {
		args = append([]*Val{c.FV}, args...)
	}
	return args
}

func isLockName(n string) bool {
	switch n {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock", "(sync.Locker).Lock":
		return true
	}
	return false
}

func (e *Engine) inlineable(p *Path, c *Call) bool {
	if !e.P.InRepo(c.Fn) {
		return false
	}
	if len(p.acts) >= maxDepth {
		return false
	}
	for i, a := range p.acts {
		if i == 0 && len(p.acts) > 1 && p.acts[1].tag == "cont" {
			continue // it has returned
		}
		if a.frame.Fn == c.Fn {
			return false
		}
	}
	return e.R.Inline(p, c)
}

// model holds the engine's own call models.
func (e *Engine) model(p *Path, c *Call) []Outcome {
	switch c.Name() {
	case "errors.Is":
		if c.Args[1].K == KGVal {
			return []Outcome{{Res: e.T.Eq(c.Args[0], c.Args[1])}}
		}
	case "(*sync.Once).Do":
		if c.Args[1].Fn != nil {
			if e.OnceFirst {
				return []Outcome{{Apply: e.onceRun(c)}}
			}
			return []Outcome{{}, {Apply: e.onceRun(c)}}
		}
	}
	return nil
}

// onceRun runs the function a sync.Once is given.
func (e *Engine) onceRun(c *Call) func(q *Path) bool {
	return func(q *Path) bool {
		fv := c.Args[1]
		cc := &Call{Instr: c.Instr, Fn: fv.Fn, FV: fv, Frame: c.Frame, Deferd: c.Deferd}
		var bind []*Val
		if fv.K == KClosure {
			bind = fv.Args
		}
		q.push(e.T.Frame(q.top().frame, c.Instr, fv.Fn), nil, bind)
		q.top().isDef = true
		q.top().call = cc
		return e.enter(q)
	}
}

func (e *Engine) ret(p *Path, res []*Val) bool {
	a := p.top()
	if len(p.acts) == 1 {
		e.ev(p, &Ev{K: EvExit, Instr: a.block.Instrs[a.pc], Res_: res})
		if len(p.acts) == 1 { // a rule may have continued the path with another call
			return false
		}
		return !p.dead
	}
	e.ev(p, &Ev{K: EvInlineRet, Instr: a.block.Instrs[a.pc], Call: a.call, Res_: res})
	if p.dead {
		return false
	}
	p.acts = p.acts[:len(p.acts)-1]
	if a.isDef || a.retTo == nil {
		return true
	}
	switch len(res) {
	case 0:
	case 1:
		p.top().env[a.retTo] = res[0]
	default:
		p.top().env[a.retTo] = e.T.mk(Val{K: KTuple, Args: res, T: a.frame.Fn.Signature.Results()})
	}
	return true
}

// enter counts a configuration at a block entry; false if it was seen before.
func (e *Engine) enter(p *Path) bool {
	k := p.key()
	if e.Visited[k] {
		return false
	}
	e.Visited[k] = true
	e.States++
	return true
}

func depthOf(v *Val) int {
	d := 0
	for _, a := range v.Args {
		if a != nil {
			if x := depthOf(a); x > d {
				d = x
			}
		}
	}
	return d + 1
}

// keep: may this value be carried round a loop unchanged?
func keepRound(v *Val) bool {
	switch v.K {
	case KConst:
		return v.C.Kind() != constant.Int && v.C.Kind() != constant.Float
	case KNil, KParam, KGlobal, KGVal, KFunc, KClosure, KAlloc, KMake:
		return true
	}
	return false
}

// shortLoop: the loop over a short list of known length, counted by a constant; it is explored turn by turn.
func shortLoop(p *Path, s *ssa.BasicBlock) bool {
	iff, ok := s.Instrs[len(s.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	cond, ok := iff.Cond.(*ssa.BinOp)
	if !ok || cond.Op != token.LSS {
		return false
	}
	num := func(v *Val) (int64, bool) {
		if v == nil || v.K != KConst || v.C.Kind() != constant.Int {
			return 0, false
		}
		return constant.Int64Val(v.C)
	}
	a := p.top()
	var n int64
	if c, isC := cond.Y.(*ssa.Const); isC {
		n, ok = num(p.val(c))
	} else {
		n, ok = num(a.env[cond.Y])
	}
	if !ok || n > 6 {
		return false
	}
	ph, isPhi := cond.X.(*ssa.Phi)
	if b, isB := cond.X.(*ssa.BinOp); isB && b.Op == token.ADD {
		ph, isPhi = b.X.(*ssa.Phi)
	}
	if !isPhi || ph.Block() != s {
		return false
	}
	for i, pr := range s.Preds {
		if pr == a.block {
			k, ok := num(p.val(ph.Edges[i]))
			return ok && k >= 0 && k <= n
		}
	}
	return false
}

// jump moves p to block s; false if the configuration was seen before (or is dead).
func (e *Engine) jump(p *Path, s *ssa.BasicBlock) bool {
	a := p.top()
	b := a.block
	edge := -1
	for i, pr := range s.Preds {
		if pr == b {
			edge = i
			// two edges from the same block: pick by position (if-else to the same block)
			if len(b.Succs) == 2 && b.Succs[0] == b.Succs[1] {
				break
			}
		}
	}
	back := s.Dominates(b)
	header := e.P.IsHeader(s)
	type pv struct {
		phi *ssa.Phi
		v   *Val
	}
	var phis []pv
	for _, in := range s.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		v := p.val(ph.Edges[edge])
		if bt, ok := ph.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.Bool && v.K != KConst {
			// a known truth value stays known
			if t := p.Truth(v); t != 0 {
				v = e.T.Bool(t == 1)
			}
		}
		phis = append(phis, pv{ph, v})
	}
	unroll := back && shortLoop(p, s)
	if unroll {
		for _, x := range phis {
			e.ev(p, &Ev{K: EvPhiStep, Instr: x.phi, Old: a.env[x.phi], Val: x.v, N: edge})
		}
		if p.dead {
			return false
		}
		for _, x := range phis {
			a.env[x.phi] = x.v
		}
	} else if back {
		e.ev(p, &Ev{K: EvLoop, Instr: s.Instrs[0]})
		for _, x := range phis {
			e.ev(p, &Ev{K: EvPhiStep, Instr: x.phi, Old: a.env[x.phi], Val: x.v, N: edge})
		}
		if p.dead {
			return false
		}
		type fact struct {
			n, t int
			pos  bool
		}
		facts := map[*ssa.Phi]fact{}
		widen := map[*ssa.Phi]bool{}
		for _, x := range phis {
			if x.v == a.env[x.phi] || keepRound(x.v) {
				continue
			}
			facts[x.phi] = fact{p.NilState(x.v), p.Truth(x.v), p.nonEmpty(x.v)}
			widen[x.phi] = true
		}
		refd := map[*ssa.Phi]bool{}
		for _, x := range phis {
			if !widen[x.phi] {
				a.env[x.phi] = x.v
				continue
			}
			delete(a.env, x.phi)
			if x.v.K == KConst {
				continue
			}
			for _, v := range p.RS {
				if v.V == x.v {
					refd[x.phi] = true
				}
			}
			if refd[x.phi] {
				a.env[x.phi] = x.v // kept until the variable is generalised
			}
		}
		for _, x := range phis {
			if !widen[x.phi] {
				continue
			}
			// what a rule remembers about the value, it then remembers about the variable
			l := p.sym(KLoop, x.phi, x.phi.Type(), "", 0)
			if xv := a.env[x.phi]; xv != nil {
				for k, v := range p.RS {
					if v.V == xv {
						p.RS[k] = RV{v.S, l}
					}
				}
			}
			a.env[x.phi] = l
			f := facts[x.phi]
			if f.n != 0 {
				p.nil_[l] = f.n == 1
			}
			if f.pos {
				p.Assume(e.T.Lt(e.T.Int(0), e.T.mk(Val{K: KLen, Args: []*Val{l}, T: types.Typ[types.Int]})), true)
			}
		}
		p.widenMem(s)
	} else {
		for _, x := range phis {
			if header {
				e.ev(p, &Ev{K: EvPhiStep, Instr: x.phi, Val: x.v, Bool: true})
			}
			a.env[x.phi] = x.v
		}
	}
	a.prev, a.block, a.pc = b, s, firstNonPhi(s)
	if header {
		snap := make(map[*Val]*Val, len(p.mem))
		for k, v := range p.mem {
			snap[k] = v
		}
		a.snaps[s] = snap
	}
	return e.enter(p)
}

// widenMem generalises memory that changed since the loop header was last visited.
func (p *Path) widenMem(h *ssa.BasicBlock) {
	a := p.top()
	snap := a.snaps[h]
	var chg []*Val
	for k, v := range p.mem {
		if k.K == KBuiltin {
			continue
		}
		if sv, ok := snap[k]; ok && sv == v {
			continue
		}
		if !local(k) && (v.K == KLoad || v.K == KLookup || v.K == KField) {
			if _, ok := snap[k]; !ok {
				delete(p.mem, k) // only read: it is read again when needed
				continue
			}
		}
		if keepRound(v) {
			continue
		}
		chg = append(chg, k)
	}
	// deterministic order
	for i := 0; i < len(chg); i++ {
		for j := i + 1; j < len(chg); j++ {
			if chg[j].ID < chg[i].ID {
				chg[i], chg[j] = chg[j], chg[i]
			}
		}
	}
	for _, k := range chg {
		v, ok := p.mem[k]
		if !ok {
			continue
		}
		n := p.NilState(v)
		pos := p.nonEmpty(v)
		delete(p.mem, k)
		w := p.sym(KWiden, h.Instrs[0], elemType(k.T), "", 0, k)
		p.mem[k] = w
		if v.K != KConst {
			// what a rule follows under a "g:" key goes with the variable
			for rk, rv := range p.RS {
				if rv.V == v && (k.K == KAlloc || strings.HasPrefix(rk.S, "g:")) {
					p.RS[rk] = RV{rv.S, w}
				}
			}
		}
		if n != 0 {
			p.nil_[w] = n == 1
		}
		if pos {
			p.Assume(p.E.T.Lt(p.E.T.Int(0), p.E.T.mk(Val{K: KLen, Args: []*Val{w}, T: types.Typ[types.Int]})), true)
		}
	}
}

// neverDone: the Done channel of a context that cannot end.
func neverDone(ch *Val) bool {
	if ch.K != KCall || ch.M == nil || ch.M.FullName() != "(context.Context).Done" || len(ch.Args) == 0 {
		return false
	}
	switch ctx := unwrap(ch.Args[0]); ctx.FullName() {
	case "context.Background", "context.TODO":
		return true
	}
	return false
}

func (e *Engine) selectFork(p *Path, x *ssa.Select) []*Path {
	ev := &Ev{K: EvSelect, Instr: x, Block: x.Blocking}
	for _, st := range x.States {
		s := &SelState{Send: st.Dir == types.SendOnly, Chan: p.val(st.Chan)}
		if st.Send != nil {
			s.Val = p.val(st.Send)
		}
		ev.Sel = append(ev.Sel, s)
	}
	e.ev(p, ev)
	if p.dead {
		return nil
	}
	var out []*Path
	lo := 0
	if !x.Blocking {
		lo = -1
	}
	for i := lo; i < len(ev.Sel); i++ {
		if !e.R.SelectCase(p, ev, i) {
			continue
		}
		if i >= 0 && ev.Sel[i].Chan.K == KNil {
			continue // a nil channel is never ready
		}
		if i >= 0 && neverDone(ev.Sel[i].Chan) {
			continue
		}
		q := p.clone()
		q.dead = false
		args := []*Val{e.T.Int(int64(i))}
		ok := q.sym(KRecv, x, types.Typ[types.Bool], "ok", 500)
		args = append(args, ok)
		for j, s := range ev.Sel {
			if s.Send {
				continue
			}
			et := elemType(s.Chan.T)
			if ct, isC := s.Chan.T.Underlying().(*types.Chan); isC {
				et = ct.Elem()
			}
			args = append(args, q.sym(KRecv, x, et, "", j, s.Chan))
		}
		q.top().env[x] = e.T.mk(Val{K: KTuple, Args: args, T: x.Type()})
		pos := x.Pos()
		if !pos.IsValid() {
			pos = q.pos()
		}
		if i >= 0 {
			q.Note(pos, "select case "+ev.Sel[i].Chan.String())
		} else {
			q.Note(pos, "select default")
		}
		e.ev(q, &Ev{K: EvCase, Instr: x, N: i, Sel: ev.Sel, Block: x.Blocking})
		if i >= 0 {
			if ev.Sel[i].Send {
				e.ev(q, &Ev{K: EvSend, Instr: x, Addr: ev.Sel[i].Chan, Val: ev.Sel[i].Val, Bool: true})
			} else {
				n := 0
				for j := 0; j < i; j++ {
					if !ev.Sel[j].Send {
						n++
					}
				}
				e.ev(q, &Ev{K: EvRecv, Instr: x, Addr: ev.Sel[i].Chan, Val: args[2+n], Res: args[1], Bool: true})
			}
		}
		if !q.dead {
			out = append(out, q)
		}
	}
	return out
}

func (e *Engine) builtin(p *Path, c *Call) *Val {
	T := e.T
	var rt types.Type
	if v, ok := c.Instr.(ssa.Value); ok {
		rt = v.Type()
	}
	switch c.Bltn {
	case "len":
		x := c.Args[0]
		if k := p.constOf(T.mk(Val{K: KLen, Args: []*Val{x}, T: rt})); k != nil {
			return k
		}
		if x.K == KMake && len(x.Args) > 0 && x.Args[0] != nil && x.Op == "slice" {
			return x.Args[0]
		}
		return T.mk(Val{K: KLen, Args: []*Val{x}, T: rt})
	case "cap":
		return T.mk(Val{K: KCap, Args: c.Args, T: rt})
	case "append":
		ev := &Ev{K: EvAppend, Instr: c.Instr, Call: c, Addr: c.Args[0]}
		if len(c.Args) > 1 {
			if el, ok := p.SliceElems(c.Args[1]); ok {
				ev.Elems = el
				ev.Bool = true
			}
			ev.Val = c.Args[1]
		}
		args := []*Val{c.Args[0], ev.Val}
		args = append(args, ev.Elems...)
		r := T.mk(Val{K: KAppend, Args: args, T: rt})
		ev.Res = r
		e.ev(p, ev)
		return r
	case "close":
		e.ev(p, &Ev{K: EvClose, Instr: c.Instr, Addr: c.Args[0], Call: c})
		return T.Nil
	case "delete":
		e.ev(p, &Ev{K: EvMapDelete, Instr: c.Instr, Addr: c.Args[0], Key: c.Args[1], Call: c})
		for k := range p.mem {
			if k.K == KMapElem && k.Args[0] == c.Args[0] {
				delete(p.mem, k)
			}
		}
		return T.Nil
	case "copy":
		p.clobber(c.Args[0], c.Instr, 0, map[*Val]bool{})
		e.ev(p, &Ev{K: EvCallDone, Instr: c.Instr, Call: c})
		return p.sym(KCall, c.Instr, rt, "copy", 0, c.Args...)
	case "panic":
		e.ev(p, &Ev{K: EvPanic, Instr: c.Instr})
		p.dead = true
		return T.Nil
	case "recover":
		return T.Nil
	case "ssa:wrapnilchk":
		return c.Args[0]
	case "print", "println":
		e.ev(p, &Ev{K: EvCallDone, Instr: c.Instr, Call: c})
		return T.Nil
	}
	return p.sym(KCall, c.Instr, rt, "builtin."+c.Bltn, 0, c.Args...)
}

func intSize(b *types.Basic) int {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 1
	case types.Int16, types.Uint16:
		return 2
	case types.Int32, types.Uint32:
		return 4
	case types.Float32:
		return 4
	}
	return 8
}

// convKeeps: does converting from a to b keep the value (so that the term may be shared)?
func convKeeps(a, b types.Type) bool {
	ua, ub := a.Underlying(), b.Underlying()
	ba, ok1 := ua.(*types.Basic)
	bb, ok2 := ub.(*types.Basic)
	if ok1 && ok2 {
		ia, ib := ba.Info(), bb.Info()
		switch {
		case ia&types.IsString != 0 && ib&types.IsString != 0:
			return true
		case ia&types.IsInteger != 0 && ib&types.IsInteger != 0:
			return ba.Info()&types.IsUntyped != 0 || intSize(bb) >= intSize(ba)
		}
		return ba.Kind() == bb.Kind()
	}
	// string <-> []byte
	isStr := func(t types.Type) bool {
		x, ok := t.(*types.Basic)
		return ok && x.Info()&types.IsString != 0
	}
	isBytes := func(t types.Type) bool {
		s, ok := t.(*types.Slice)
		if !ok {
			return false
		}
		x, ok := s.Elem().Underlying().(*types.Basic)
		return ok && x.Kind() == types.Uint8
	}
	if isStr(ua) && isBytes(ub) || isBytes(ua) && isStr(ub) {
		return true
	}
	return !ok1 && !ok2
}

// simple executes an instruction without control effects.
func (e *Engine) simple(p *Path, in ssa.Instruction) {
	a := p.top()
	T := e.T
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		s := p.sym(KAlloc, x, x.Type(), "", 0)
		a.env[x] = s
	case *ssa.MakeChan:
		a.env[x] = p.sym(KMake, x, x.Type(), "chan", 0, p.val(x.Size))
	case *ssa.MakeMap:
		a.env[x] = p.sym(KMake, x, x.Type(), "map", 0)
	case *ssa.MakeSlice:
		a.env[x] = p.sym(KMake, x, x.Type(), "slice", 0, p.val(x.Len))
	case *ssa.MakeClosure:
		v := Val{K: KClosure, Fn: x.Fn.(*ssa.Function), T: x.Type(), Site: x, Frame: a.frame}
		for _, b := range x.Bindings {
			v.Args = append(v.Args, p.val(b))
		}
		a.env[x] = T.mk(v)
	case *ssa.MakeInterface:
		v := p.val(x.X)
		if v.T == nil || types.IsInterface(v.T) || !types.Identical(v.T, x.X.Type()) {
			// keep the dynamic type
			if v.K == KNil {
				v = T.mk(Val{K: KConv, Op: "iface", Args: []*Val{v}, T: x.X.Type()})
				p.nil_[v] = false
			} else if v.K == KConst {
				v = T.mk(Val{K: KConst, C: v.C, T: x.X.Type()})
			}
		}
		if n := p.NilState(v); n == 0 {
			if _, isPtr := x.X.Type().Underlying().(*types.Pointer); !isPtr && !types.IsInterface(x.X.Type()) {
				switch x.X.Type().Underlying().(type) {
				case *types.Struct, *types.Basic, *types.Array:
					p.nil_[v] = false
				}
			}
		}
		a.env[x] = v
	case *ssa.ChangeInterface:
		a.env[x] = p.val(x.X)
	case *ssa.ChangeType:
		v := p.val(x.X)
		if v.K == KClosure || v.K == KFunc {
			// the methods of a named function type
			v = T.mk(Val{K: v.K, Fn: v.Fn, T: x.Type(), Site: v.Site, Frame: v.Frame, Args: v.Args})
		}
		a.env[x] = v
	case *ssa.SliceToArrayPointer:
		a.env[x] = p.val(x.X)
	case *ssa.Convert:
		v := p.val(x.X)
		if v.K == KConst {
			v = T.Const(v.C, x.Type())
			a.env[x] = v
		} else if convKeeps(x.X.Type(), x.Type()) {
			a.env[x] = v
		} else {
			a.env[x] = T.mk(Val{K: KConv, Args: []*Val{v}, T: x.Type()})
		}
	case *ssa.MultiConvert:
		a.env[x] = p.val(x.X)
	case *ssa.BinOp:
		l, r := p.val(x.X), p.val(x.Y)
		// a concrete non-pointer value in an interface is never nil
		a.env[x] = T.Bin(x.Op, l, r, x.Type())
	case *ssa.UnOp:
		v := p.val(x.X)
		switch x.Op {
		case token.NOT:
			a.env[x] = T.Not(v)
		case token.SUB:
			if v.K == KConst {
				a.env[x] = T.Const(constant.UnaryOp(token.SUB, v.C, 0), x.Type())
			} else {
				a.env[x] = T.mk(Val{K: KNeg, Args: []*Val{v}, T: x.Type()})
			}
		case token.XOR:
			a.env[x] = T.mk(Val{K: KNeg, Op: "^", Args: []*Val{v}, T: x.Type()})
		case token.MUL:
			r := p.load(v, x.Type(), x)
			a.env[x] = r
			if !local(v) {
				e.ev(p, &Ev{K: EvLoad, Instr: in, Addr: v, Res: r})
			}
		case token.ARROW:
			e.ev(p, &Ev{K: EvSelect, Instr: in, Block: true, Sel: []*SelState{{Chan: v}}})
			et := x.Type()
			if x.CommaOk {
				et = et.(*types.Tuple).At(0).Type()
			}
			r := p.sym(KRecv, x, et, "", 0, v)
			if x.CommaOk {
				ok := p.sym(KRecv, x, types.Typ[types.Bool], "ok", 1, v)
				a.env[x] = T.mk(Val{K: KTuple, Args: []*Val{r, ok}, T: x.Type()})
				e.ev(p, &Ev{K: EvRecv, Instr: in, Addr: v, Val: r, Res: ok})
			} else {
				a.env[x] = r
				e.ev(p, &Ev{K: EvRecv, Instr: in, Addr: v, Val: r})
			}
		}
	case *ssa.Store:
		addr, v := p.val(x.Addr), p.val(x.Val)
		e.ev(p, &Ev{K: EvStore, Instr: in, Addr: addr, Val: v, Old: p.mem[addr]})
		p.store(addr, v)
	case *ssa.Send:
		ch, v := p.val(x.Chan), p.val(x.X)
		e.ev(p, &Ev{K: EvSelect, Instr: in, Block: true, Sel: []*SelState{{Send: true, Chan: ch, Val: v}}})
		e.ev(p, &Ev{K: EvSend, Instr: in, Addr: ch, Val: v})
	case *ssa.FieldAddr:
		st := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		a.env[x] = p.fieldAddr(p.val(x.X), x.Field, st.Field(x.Field))
	case *ssa.Field:
		st := x.X.Type().Underlying().(*types.Struct)
		a.env[x] = p.field(p.val(x.X), x.Field, st.Field(x.Field).Name(), x.Type())
	case *ssa.IndexAddr:
		b, i := p.val(x.X), p.val(x.Index)
		e.ev(p, &Ev{K: EvIndex, Instr: in, Addr: b, Key: i})
		base := b
		if b.K == KSlice && b.Args[1] == nil {
			base = b.Args[0]
		}
		a.env[x] = T.mk(Val{K: KIndexAddr, Args: []*Val{base, i}, T: x.Type()})
	case *ssa.Index:
		b, i := p.val(x.X), p.val(x.Index)
		e.ev(p, &Ev{K: EvIndex, Instr: in, Addr: b, Key: i})
		if b.K == KStruct && i.K == KConst {
			if n := idxOf(i); int(n) < len(b.Args) && b.Args[n] != nil {
				a.env[x] = b.Args[n]
				return
			}
		}
		a.env[x] = T.mk(Val{K: KIndex, Args: []*Val{b, i}, T: x.Type()})
	case *ssa.Slice:
		b := p.val(x.X)
		args := []*Val{b, nil, nil}
		if x.Low != nil {
			if l := p.val(x.Low); !isInt(l, 0) {
				args[1] = l
			}
		}
		if x.High != nil {
			args[2] = p.val(x.High)
		}
		e.ev(p, &Ev{K: EvSlice, Instr: in, Addr: b, Key: args[1], Val: args[2]})
		if s, ok := subStr(b, args[1], args[2]); ok {
			a.env[x] = T.Const(constant.MakeString(s), x.Type())
			return
		}
		if args[1] == nil && args[2] == nil && b.T != nil {
			if _, isPtr := b.T.Underlying().(*types.Pointer); !isPtr {
				a.env[x] = b
				return
			}
		}
		a.env[x] = T.mk(Val{K: KSlice, Args: args, T: x.Type()})
	case *ssa.Lookup:
		m, k := p.val(x.X), p.val(x.Index)
		if _, isMap := x.X.Type().Underlying().(*types.Map); !isMap {
			e.ev(p, &Ev{K: EvIndex, Instr: in, Addr: m, Key: k})
			a.env[x] = T.mk(Val{K: KIndex, Args: []*Val{m, k}, T: x.Type()})
			return
		}
		et := x.Type()
		if x.CommaOk {
			et = et.(*types.Tuple).At(0).Type()
		}
		addr := T.mk(Val{K: KMapElem, Args: []*Val{m, k}, T: types.NewPointer(et)})
		okA := T.mk(Val{K: KMapElem, Op: "ok", Args: []*Val{m, k}, T: types.NewPointer(types.Typ[types.Bool])})
		v, have := p.mem[addr]
		if !have {
			v = p.sym(KLookup, x, et, "", 0, m, k)
			p.mem[addr] = v
		}
		r := v
		if x.CommaOk {
			ok, haveOk := p.mem[okA]
			if !haveOk {
				ok = p.sym(KLookup, x, types.Typ[types.Bool], "ok", 1, m, k)
				p.mem[okA] = ok
			}
			r = T.mk(Val{K: KTuple, Args: []*Val{v, ok}, T: x.Type()})
		}
		a.env[x] = r
		e.ev(p, &Ev{K: EvMapRead, Instr: in, Addr: m, Key: k, Res: v})
	case *ssa.MapUpdate:
		m, k, v := p.val(x.Map), p.val(x.Key), p.val(x.Value)
		e.ev(p, &Ev{K: EvMapUpdate, Instr: in, Addr: m, Key: k, Val: v})
		addr := T.mk(Val{K: KMapElem, Args: []*Val{m, k}, T: types.NewPointer(x.Value.Type())})
		okA := T.mk(Val{K: KMapElem, Op: "ok", Args: []*Val{m, k}, T: types.NewPointer(types.Typ[types.Bool])})
		p.store(addr, v)
		p.store(okA, T.True)
		p.mem[addr] = v
	case *ssa.Range:
		m := p.val(x.X)
		a.env[x] = p.sym(KRange, x, x.X.Type(), "", 0, m)
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			e.ev(p, &Ev{K: EvMapRead, Instr: in, Addr: m, Key: nil})
		}
	case *ssa.Next:
		it := p.val(x.Iter)
		tt := x.Type().(*types.Tuple)
		ok := p.sym(KNext, x, types.Typ[types.Bool], "ok", 0, it)
		k := p.sym(KNext, x, tt.At(1).Type(), "k", 1, it)
		v := p.sym(KNext, x, tt.At(2).Type(), "v", 2, it)
		a.env[x] = T.mk(Val{K: KTuple, Args: []*Val{ok, k, v}, T: x.Type()})
		if !x.IsString {
			e.ev(p, &Ev{K: EvMapRead, Instr: in, Addr: it.Args[0], Key: k, Res: v})
		}
	case *ssa.Extract:
		t := p.val(x.Tuple)
		if t.K == KTuple {
			a.env[x] = t.Args[x.Index]
		} else {
			a.env[x] = T.mk(Val{K: KExtract, Idx: x.Index, Args: []*Val{t}, T: x.Type()})
		}
	case *ssa.TypeAssert:
		v := p.val(x.X)
		ok := T.mk(Val{K: KTypeOK, Args: []*Val{v}, T: x.AssertedType})
		if x.CommaOk {
			a.env[x] = T.mk(Val{K: KTuple, Args: []*Val{v, ok}, T: x.Type()})
		} else {
			e.ev(p, &Ev{K: EvAssert, Instr: in, Val: v})
			p.Assume(ok, true)
			a.env[x] = v
		}
	default:
		if v, ok := in.(ssa.Value); ok {
			a.env[v] = p.sym(KLoad, in, v.Type(), "?", 0)
		}
	}
}

// RunGo explores a spawned goroutine from the spawn point with the given rule state.
func (e *Engine) RunGo(p *Path, c *Call, rs map[RK]RV) bool {
	if c.Fn == nil || len(c.Fn.Blocks) == 0 || !e.P.InRepo(c.Fn) {
		return false
	}
	q := p.clone()
	var bind []*Val
	if c.FV != nil && c.FV.K == KClosure {
		bind = c.FV.Args
	}
	parent := p.top().frame
	q.acts = nil
	q.RS = rs
	fr := e.T.Frame(parent, c.Instr, c.Fn)
	q.push(fr, c.Args, bind)
	q.top().tag = "go"
	q.top().call = c
	q.Note(c.Instr.Pos(), "goroutine "+c.Fn.Name())
	// memory shared with the spawner may change
	q.ForgetShared()
	e.Run(q)
	return true
}

// Continue makes the path go on with a call of fn after the root returned (scenario roots).
func (p *Path) Continue(fn *ssa.Function, args []*Val, bind []*Val) {
	base := p.acts[0]
	base.retTo = nil
	fr := p.E.T.Frame(base.frame, base.block.Instrs[base.pc], fn)
	p.push(fr, args, bind)
	p.top().retTo = nil
	p.top().tag = "cont"
}

func relTo(s string) string { return strings.TrimPrefix(s, "/repo/") }

// subStr is a part of a known text.
func subStr(b, lo, hi *Val) (string, bool) {
	if b == nil || b.K != KConst || b.C.Kind() != constant.String {
		return "", false
	}
	s := constant.StringVal(b.C)
	i, j := int64(0), int64(len(s))
	for k, v := range []*Val{lo, hi} {
		if v == nil {
			continue
		}
		if v.K != KConst || v.C.Kind() != constant.Int {
			return "", false
		}
		n, ok := constant.Int64Val(v.C)
		if !ok {
			return "", false
		}
		if k == 0 {
			i = n
		} else {
			j = n
		}
	}
	if i < 0 || i > j || j > int64(len(s)) {
		return "", false
	}
	return s[i:j], true
}
