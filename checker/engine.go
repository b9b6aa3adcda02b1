package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"hash/fnv"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Act is one activation on a path's (fully inlined) call stack.
type Act struct {
	frame  *Frame
	block  *ssa.BasicBlock
	prev   *ssa.BasicBlock
	pc     int
	env    map[ssa.Value]*Val
	defers []*Call
	snaps  map[*ssa.BasicBlock]map[*Val]*Val
	isDef  bool // a deferred call: its result is dropped
	panics bool // unwinding an explicit panic
	tag    string
	call   *Call
	retTo  *ssa.Call
}

// RK and RV are key and value of a rule's automaton state.
type RK struct {
	S string
	V *Val
}
type RV struct {
	S string
	V *Val
}

// Trace is the witness path (not part of a configuration's identity).
type Trace struct {
	up  *Trace
	pos token.Pos
	msg string
}

// Path is one abstract configuration: stack, memory, facts and rule state.
type Path struct {
	E     *Engine
	acts  []*Act
	mem   map[*Val]*Val
	truth map[*Val]bool
	nil_  map[*Val]bool // true: nil, false: not nil
	eqc   map[*Val]*Val
	RS    map[RK]RV
	trace *Trace
	dead  bool
	over  bool // path was replaced by forks
	steps int

	outArgs []*Val
}

// Call is a resolved call.
type Call struct {
	Instr  ssa.Instruction
	Common *ssa.CallCommon
	M      *types.Func   // callee object (concrete method/function or interface method)
	Fn     *ssa.Function // static callee, if known
	FV     *Val          // the called value for dynamic calls
	Bltn   string
	Args   []*Val // receiver first
	Deferd bool
	Frame  *Frame
}

// Name is the full name of the callee ("" if unknown).
func (c *Call) Name() string {
	if c.Bltn != "" {
		return "builtin." + c.Bltn
	}
	if c.M != nil {
		return c.M.FullName()
	}
	if c.Fn != nil {
		return c.Fn.String()
	}
	return ""
}

// EvKind classifies what a rule observes.
type EvKind int

const (
	EvCall     EvKind = iota // about to call (before inlining or opaque treatment)
	EvCallDone               // an opaque call returned
	EvStore
	EvLoad // read through a non-local address
	EvMapUpdate
	EvMapRead
	EvMapDelete
	EvSend
	EvRecv
	EvClose
	EvSelect // select about to wait
	EvCase   // a select case was taken (N index, -1 default)
	EvGo
	EvExit  // the root returned
	EvPanic // explicit panic
	EvPhiStep
	EvAppend
	EvIndex
	EvSlice
	EvAssert // one-value type assertion
	EvInlineRet
	EvLoop // arrival at a loop header via a back edge
	EvBranch
)

// Ev is one observation.
type Ev struct {
	K     EvKind
	Instr ssa.Instruction
	Call  *Call
	Addr  *Val // address, map, channel, slice
	Key   *Val
	Val   *Val // stored/sent/received value
	Res   *Val
	Old   *Val
	Elems []*Val
	Res_  []*Val // results at exit
	N     int
	Sel   []*SelState
	Block bool // select without default
	Frame *Frame
	Bool  bool
}

// SelState is one case of a select.
type SelState struct {
	Send bool
	Chan *Val
	Val  *Val
}

// Outcome is one modelled result of a call.
type Outcome struct {
	Res    *Val
	Opaque bool // treat the call as opaque code and hand its result to After
	Apply  func(p *Path) bool
	After  func(p *Path, res *Val) bool
}

// Rule observes and steers an exploration.
type Rule interface {
	Event(p *Path, ev *Ev)
	Inline(p *Path, c *Call) bool
	Model(p *Path, c *Call) []Outcome
	SelectCase(p *Path, ev *Ev, i int) bool // may case i be taken?
}

// Base is a rule that observes nothing.
type Base struct{}

func (Base) Event(*Path, *Ev)                {}
func (Base) Inline(*Path, *Call) bool        { return true }
func (Base) Model(*Path, *Call) []Outcome    { return nil }
func (Base) SelectCase(*Path, *Ev, int) bool { return true }

// Engine explores one root.
type Engine struct {
	P         *Prog
	T         *Terms
	R         Rule
	Max       int
	WideInts  bool // conversions between integers keep the number
	OnceFirst bool // each sync.Once is done for the first time
	Visited   map[[16]byte]bool
	Over      bool // state bound exceeded
	States    int
	Funcs     map[*ssa.Function]bool
	Opaque    map[string]int
	retKept   bool
	weak      map[string]bool // kinds of rule state that do not keep their terms alive
}

// WeakState is implemented by rules with state that is dropped when its terms are dead.
type WeakState interface{ Weak() []string }

var maxStates = 150000

func NewEngine(p *Prog, r Rule) *Engine {
	w := map[string]bool{}
	if ws, ok := r.(WeakState); ok {
		for _, k := range ws.Weak() {
			w[k] = true
		}
	}
	return &Engine{P: p, T: p.T, R: r, weak: w, Max: maxStates, Funcs: map[*ssa.Function]bool{}, Opaque: map[string]int{}}
}

// Start makes the initial path of a root.
func (e *Engine) Start(fn *ssa.Function, args []*Val) *Path {
	fr := e.T.Frame(nil, nil, fn)
	p := &Path{E: e, mem: map[*Val]*Val{}, truth: map[*Val]bool{}, nil_: map[*Val]bool{}, eqc: map[*Val]*Val{}, RS: map[RK]RV{}}
	p.push(fr, args, nil)
	return p
}

// Params makes parameter terms for a root function.
func (e *Engine) Params(fn *ssa.Function) []*Val {
	var out []*Val
	for i, pa := range fn.Params {
		out = append(out, e.T.mk(Val{K: KParam, Op: pa.Name(), Idx: i, Site: fn, T: pa.Type()}))
	}
	return out
}

// FreeVars makes terms for the free variables of a closure analysed as a root.
func (e *Engine) FreeVars(fn *ssa.Function) []*Val {
	var out []*Val
	for i, fv := range fn.FreeVars {
		out = append(out, e.T.mk(Val{K: KParam, Op: fv.Name(), Idx: 1000 + i, Site: fn, T: fv.Type()}))
	}
	return out
}

// RunRoot explores a function with symbolic parameters.
func (e *Engine) RunRoot(fn *ssa.Function, init func(p *Path, params []*Val)) {
	args := e.Params(fn)
	p := e.Start(fn, args)
	for i, fv := range e.FreeVars(fn) {
		p.top().env[fn.FreeVars[i]] = fv
	}
	if init != nil {
		init(p, args)
	}
	e.Run(p)
}

// Run explores everything reachable from a path.
func (e *Engine) Run(start *Path) {
	saved := e.Visited
	e.Visited = map[[16]byte]bool{}
	defer func() { e.Visited = saved }()
	work := []*Path{start}
	for len(work) > 0 {
		p := work[len(work)-1]
		work = work[:len(work)-1]
		work = append(work, e.step(p)...)
		if e.States > e.Max {
			e.Over = true
			return
		}
	}
}

func (p *Path) top() *Act { return p.acts[len(p.acts)-1] }

// Root is the function the exploration started with.
func (p *Path) Root() *ssa.Function { return p.acts[0].frame.Fn }

func (p *Path) clone() *Path {
	n := &Path{E: p.E, trace: p.trace, steps: p.steps}
	n.acts = make([]*Act, len(p.acts))
	for i, a := range p.acts {
		b := *a
		b.env = make(map[ssa.Value]*Val, len(a.env))
		for k, v := range a.env {
			b.env[k] = v
		}
		b.defers = append([]*Call(nil), a.defers...)
		b.snaps = make(map[*ssa.BasicBlock]map[*Val]*Val, len(a.snaps))
		for k, v := range a.snaps {
			b.snaps[k] = v
		}
		n.acts[i] = &b
	}
	n.mem = make(map[*Val]*Val, len(p.mem))
	for k, v := range p.mem {
		n.mem[k] = v
	}
	n.truth = make(map[*Val]bool, len(p.truth))
	for k, v := range p.truth {
		n.truth[k] = v
	}
	n.nil_ = make(map[*Val]bool, len(p.nil_))
	for k, v := range p.nil_ {
		n.nil_[k] = v
	}
	n.eqc = make(map[*Val]*Val, len(p.eqc))
	for k, v := range p.eqc {
		n.eqc[k] = v
	}
	n.RS = make(map[RK]RV, len(p.RS))
	for k, v := range p.RS {
		n.RS[k] = v
	}
	return n
}

// Note adds a line to the witness path.
func (p *Path) Note(pos token.Pos, msg string) {
	p.trace = &Trace{up: p.trace, pos: pos, msg: msg}
}

func (p *Path) push(fr *Frame, args []*Val, bindings []*Val) {
	fn := fr.Fn
	a := &Act{frame: fr, block: fn.Blocks[0], env: map[ssa.Value]*Val{}, snaps: map[*ssa.BasicBlock]map[*Val]*Val{}}
	for i, pa := range fn.Params {
		if i < len(args) {
			a.env[pa] = args[i]
		}
	}
	for i, fv := range fn.FreeVars {
		if i < len(bindings) {
			a.env[fv] = bindings[i]
		}
	}
	p.acts = append(p.acts, a)
	p.E.Funcs[fn] = true
}

// ---------------------------------------------------------------- facts

// NilState: 1 nil, -1 not nil, 0 unknown.
func (p *Path) NilState(v *Val) int {
	if v == nil {
		return 0
	}
	switch v.K {
	case KNil:
		return 1
	case KConst, KAlloc, KMake, KFunc, KClosure, KGlobal, KFieldAddr, KIndexAddr, KStruct:
		return -1
	case KSlice:
		if v.Args[0] != nil && v.Args[0].K == KAlloc {
			return -1 // a part of an array
		}
	case KGVal:
		if isErrorType(v.T) {
			return -1 // package level error values are initialised to errors
		}
	case KCall:
		if nonNilResult(v) {
			return -1
		}
	case KAppend:
		if p.lenPositive(v) {
			return -1
		}
	}
	if v.T != nil && v.K != KTypeOK {
		switch v.T.Underlying().(type) {
		case *types.Basic, *types.Struct, *types.Array:
			if b, ok := v.T.Underlying().(*types.Basic); !ok || b.Kind() != types.UntypedNil && b.Kind() != types.UnsafePointer {
				return -1
			}
		}
	}
	if b, ok := p.nil_[v]; ok {
		if b {
			return 1
		}
		return -1
	}
	if c, ok := p.eqc[v]; ok && c.K != KNil {
		return -1
	}
	return 0
}

var nonNilFuncs = map[string]bool{
	"errors.New": true, "fmt.Errorf": true,
	"(*google.golang.org/grpc/internal/status.Status).Err": true,
	"(*google.golang.org/grpc/status.Status).Err":          true,
	"google.golang.org/grpc/status.New":                    true,
	"google.golang.org/grpc/status.Error":                  true,
	"google.golang.org/grpc/status.Errorf":                 true,
	"context.Background":                                   true, "context.TODO": true, "context.WithValue": true,
	"time.After": true, "time.NewTimer": true,
}

func nonNilResult(v *Val) bool { return nonNilFuncs[v.FullName()] }

func isErrorType(t types.Type) bool {
	return t != nil && types.Identical(t, types.Universe.Lookup("error").Type())
}

func (p *Path) lenPositive(v *Val) bool {
	if v.K == KAppend {
		if len(v.Args) > 1 && v.Args[1] != nil && p.sliceLen(v.Args[1]) > 0 {
			return true
		}
		return p.lenPositive(v.Args[0])
	}
	return p.sliceLen(v) > 0
}

// nonEmpty: is the slice known to have an element?
func (p *Path) nonEmpty(v *Val) bool {
	if v == nil || v.T == nil {
		return false
	}
	if _, ok := v.T.Underlying().(*types.Slice); !ok {
		return false
	}
	return p.Truth(p.E.T.Lt(p.E.T.Int(0), p.E.T.mk(Val{K: KLen, Args: []*Val{v}, T: types.Typ[types.Int]}))) == 1
}

// sliceLen is the constant length of a slice of a local array (-1: unknown).
func (p *Path) sliceLen(v *Val) int {
	if v.K == KSlice && v.Args[1] == nil && v.Args[2] == nil {
		t := v.Args[0].T
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			if at, ok := pt.Elem().Underlying().(*types.Array); ok {
				return int(at.Len())
			}
		}
	}
	if v.K == KNil {
		return 0
	}
	return -1
}

// Truth: 1 true, -1 false, 0 unknown.
func (p *Path) Truth(v *Val) int {
	switch v.K {
	case KConst:
		if v.C.Kind() == constant.Bool {
			if constant.BoolVal(v.C) {
				return 1
			}
			return -1
		}
	case KNot:
		return -p.Truth(v.Args[0])
	case KEq:
		if r := p.eqTruth(v.Args[0], v.Args[1]); r != 0 {
			return r
		}
	case KLt:
		if r := p.ltTruth(v.Args[0], v.Args[1]); r != 0 {
			return r
		}
	case KTypeOK:
		if v.Args[0].K == KNil || p.NilState(v.Args[0]) == 1 {
			return -1
		}
		if t := v.Args[0].T; t != nil && !types.IsInterface(t) {
			if types.Identical(t, v.T) {
				return 1
			}
			if it, ok := v.T.Underlying().(*types.Interface); ok {
				if types.Implements(t, it) {
					return 1
				}
				return -1
			}
			return -1
		}
	}
	if b, ok := p.truth[v]; ok {
		if b {
			return 1
		}
		return -1
	}
	return 0
}

func (p *Path) constOf(v *Val) *Val {
	if v.K == KConst {
		return v
	}
	if c, ok := p.eqc[v]; ok {
		return c
	}
	if v.K == KLen {
		if n := p.sliceLen(v.Args[0]); n >= 0 {
			return p.E.T.Int(int64(n))
		}
		if v.Args[0].K == KConst && v.Args[0].C.Kind() == constant.String {
			return p.E.T.Int(int64(len(constant.StringVal(v.Args[0].C))))
		}
		if p.NilState(v.Args[0]) == 1 {
			return p.E.T.Int(0)
		}
	}
	return nil
}

func isBoolT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func (p *Path) eqTruth(a, b *Val) int {
	if a != b && a.T != nil && isBoolT(a.T) {
		if x, y := p.Truth(a), p.Truth(b); x != 0 && y != 0 {
			if x == y {
				return 1
			}
			return -1
		}
	}
	if b.K == KNil {
		if n := p.NilState(a); n != 0 {
			return n
		}
		return 0
	}
	if a.K == KNil {
		return p.NilState(b)
	}
	if a == b {
		if a.Gen > 0 {
			return 0
		}
		return 1
	}
	ca, cb := p.constOf(a), p.constOf(b)
	if ca != nil && cb != nil {
		if ca.K == KConst && cb.K == KConst && ca.C.Kind() == cb.C.Kind() || isNumK(ca) && isNumK(cb) {
			if constant.Compare(ca.C, token.EQL, cb.C) {
				return 1
			}
			return -1
		}
	}
	if a.K == KAlloc && b.K == KAlloc {
		return -1
	}
	// a nil error is not a sentinel error
	if p.NilState(a)*p.NilState(b) == -1 {
		return -1
	}
	if a.K == KGVal && b.K == KGVal && a != b && isErrorType(a.T) {
		return -1
	}
	if p.truthOf(p.E.T.Lt(a, b)) == 1 || p.truthOf(p.E.T.Lt(b, a)) == 1 {
		return -1
	}
	return 0
}

func isNumK(v *Val) bool {
	return v.K == KConst && (v.C.Kind() == constant.Int || v.C.Kind() == constant.Float)
}

func (p *Path) truthOf(v *Val) int {
	if b, ok := p.truth[v]; ok {
		if b {
			return 1
		}
		return -1
	}
	return 0
}

// phiMin: the least value of a loop variable after one round, if it starts from constants and only goes up.
func phiMin(ph *ssa.Phi) (int64, bool) {
	bt, ok := ph.Type().Underlying().(*types.Basic)
	if !ok || !in2(bt.Kind(), types.Int, types.Int64, types.Uint64, types.Uint) {
		return 0, false
	}
	var start, step int64
	haveStart, haveStep := false, false
	for _, e := range ph.Edges {
		if c, ok := e.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
			n, exact := constant.Int64Val(c.Value)
			if !exact {
				return 0, false
			}
			if !haveStart || n < start {
				start, haveStart = n, true
			}
			continue
		}
		b, ok := e.(*ssa.BinOp)
		if !ok || b.Op != token.ADD || b.X != ssa.Value(ph) {
			return 0, false
		}
		c, ok := b.Y.(*ssa.Const)
		if !ok || c.Value == nil || constant.Sign(c.Value) <= 0 {
			return 0, false
		}
		n, exact := constant.Int64Val(c.Value)
		if !exact {
			return 0, false
		}
		if !haveStep || n < step {
			step, haveStep = n, true
		}
	}
	return start + step, haveStart && haveStep
}

func in2[T comparable](x T, ys ...T) bool {
	for _, y := range ys {
		if x == y {
			return true
		}
	}
	return false
}

// minOf: a number that v is never below.
func minOf(v *Val) (int64, bool) {
	switch v.K {
	case KConst:
		if v.C.Kind() == constant.Int {
			return constant.Int64Val(v.C)
		}
	case KLoop:
		if ph := phiOf(v); ph != nil {
			return phiMin(ph)
		}
	case KBin:
		if v.Op == "+" && v.Args[1].K == KConst && v.Args[1].C.Kind() == constant.Int {
			if n, ok := minOf(v.Args[0]); ok {
				if c, ok := constant.Int64Val(v.Args[1].C); ok {
					return n + c, true
				}
			}
		}
	}
	return 0, false
}

func (p *Path) ltTruth(a, b *Val) int {
	if a == b && a.Gen == 0 {
		return -1
	}
	ca, cb := p.constOf(a), p.constOf(b)
	if ca != nil && cb != nil && isNumK(ca) && isNumK(cb) {
		if constant.Compare(ca.C, token.LSS, cb.C) {
			return 1
		}
		return -1
	}
	if cb != nil && isNumK(cb) && constant.Sign(cb.C) <= 0 {
		if a.K == KLen || isUnsigned(a.T) {
			return -1
		}
	}
	if ca != nil && isNumK(ca) && constant.Sign(ca.C) < 0 && (b.K == KLen || isUnsigned(b.T)) {
		return 1
	}
	if ca != nil && isNumK(ca) && constant.Sign(ca.C) == 0 && b.K == KLen && p.lenPositive(b.Args[0]) {
		return 1
	}
	if ca != nil && b.K != KConst && ca.C.Kind() == constant.Int {
		if n, ok := minOf(b); ok {
			if c, ok := constant.Int64Val(ca.C); ok && c < n {
				return 1
			}
		}
	}
	if cb != nil && a.K != KConst && cb.C.Kind() == constant.Int {
		if n, ok := minOf(a); ok {
			if c, ok := constant.Int64Val(cb.C); ok && n >= c {
				return -1
			}
		}
	}
	if p.truthOf(p.E.T.Lt(b, a)) == 1 {
		return -1
	}
	if a.K != KConst && b.K != KConst && p.truthOf(p.E.T.Eq(a, b)) == 1 {
		return -1
	}
	return 0
}

func isUnsigned(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

// Assume adds cond==want; false if that contradicts what is known.
func (p *Path) Assume(cond *Val, want bool) bool {
	t := p.Truth(cond)
	if t != 0 {
		return (t == 1) == want
	}
	for cond.K == KNot {
		cond, want = cond.Args[0], !want
	}
	switch cond.K {
	case KEq:
		a, b := cond.Args[0], cond.Args[1]
		if b.K == KNil {
			p.setNil(a, want)
			return true
		}
		if want {
			if b.K == KConst {
				p.eqc[a] = b
				return true
			}
			p.truth[cond] = true
			if p.NilState(b) == -1 {
				p.setNil(a, false)
			} else if p.NilState(a) == -1 {
				p.setNil(b, false)
			}
			return true
		}
	case KTypeOK:
		if want {
			p.setNil(cond.Args[0], false)
		}
	case KLt:
		if want && cond.Args[1].K == KLen && isInt(cond.Args[0], 0) {
			p.setNil(cond.Args[1].Args[0], false)
		}
	}
	p.truth[cond] = want
	if want && cond.K == KCall && len(cond.Args) > 0 && (cond.FullName() == "errors.As" || cond.FullName() == "os.IsNotExist") {
		p.setNil(cond.Args[0], false)
	}
	return true
}

func (p *Path) setNil(v *Val, isNil bool) {
	if p.NilState(v) != 0 {
		return
	}
	p.nil_[v] = isNil
}

// SetNil records that v is (not) nil; false on contradiction.
func (p *Path) SetNil(v *Val, isNil bool) bool {
	if n := p.NilState(v); n != 0 {
		return (n == 1) == isNil
	}
	p.nil_[v] = isNil
	return true
}

// subst replaces symbol from by to everywhere.
func (p *Path) subst(from, to *Val) {
	memo := map[*Val]*Val{}
	T := p.E.T
	for _, a := range p.acts {
		for k, v := range a.env {
			if v != nil && v.HasSym(from) {
				a.env[k] = T.Subst(v, from, to, memo)
			}
		}
		for i, d := range a.defers {
			nd := *d
			nd.Args = make([]*Val, len(d.Args))
			for j, v := range d.Args {
				nd.Args[j] = T.Subst(v, from, to, memo)
			}
			nd.FV = T.Subst(d.FV, from, to, memo)
			a.defers[i] = &nd
		}
	}
	for k, v := range p.mem {
		if k.HasSym(from) || v.HasSym(from) {
			delete(p.mem, k)
			p.mem[T.Subst(k, from, to, memo)] = T.Subst(v, from, to, memo)
		}
	}
	for k, v := range p.truth {
		if k.HasSym(from) {
			delete(p.truth, k)
			p.truth[T.Subst(k, from, to, memo)] = v
		}
	}
	for k, v := range p.nil_ {
		if k.HasSym(from) {
			delete(p.nil_, k)
			p.nil_[T.Subst(k, from, to, memo)] = v
		}
	}
	for k, v := range p.eqc {
		if k.HasSym(from) {
			delete(p.eqc, k)
			p.eqc[T.Subst(k, from, to, memo)] = v
		}
	}
	for k, v := range p.RS {
		if k.V != nil && k.V.HasSym(from) || v.V != nil && v.V.HasSym(from) {
			delete(p.RS, k)
			p.RS[RK{k.S, T.Subst(k.V, from, to, memo)}] = RV{v.S, T.Subst(v.V, from, to, memo)}
		}
	}
}

func (p *Path) dropFacts(s *Val) {
	for k := range p.truth {
		if k.HasSym(s) {
			delete(p.truth, k)
		}
	}
	for k := range p.nil_ {
		if k.HasSym(s) {
			delete(p.nil_, k)
		}
	}
	for k := range p.eqc {
		if k.HasSym(s) {
			delete(p.eqc, k)
		}
	}
}

// alive reports whether symbol s is still referred to.
func (p *Path) alive(s *Val) bool {
	for _, a := range p.acts {
		for _, v := range a.env {
			if v != nil && v.HasSym(s) {
				return true
			}
		}
		for _, d := range a.defers {
			for _, v := range d.Args {
				if v != nil && v.HasSym(s) {
					return true
				}
			}
		}
	}
	for k, v := range p.mem {
		if k.HasSym(s) || v.HasSym(s) {
			return true
		}
	}
	for k := range p.truth {
		if k.HasSym(s) {
			return true
		}
	}
	for k := range p.nil_ {
		if k.HasSym(s) {
			return true
		}
	}
	for k := range p.eqc {
		if k.HasSym(s) {
			return true
		}
	}
	for k, v := range p.RS {
		if k.V != nil && k.V.HasSym(s) || v.V != nil && v.V.HasSym(s) {
			return true
		}
	}
	return false
}

// fresh (re)creates symbol s: what an earlier execution of the same site made is renamed.
func (p *Path) fresh(s *Val) *Val {
	if s.Gen != 0 || !p.alive(s) {
		return s
	}
	o := *s
	o.ID, o.syms, o.symsD = 0, nil, false
	o.Gen = 1
	old := p.E.T.mk(o)
	if p.alive(old) {
		p.dropFacts(old)
		// both generations become one: facts about the newer are not valid for it
		p.dropFactsOf(s)
	}
	p.subst(s, old)
	return s
}

func (p *Path) dropFactsOf(s *Val) { p.dropFacts(s) }

func (p *Path) sym(k Kind, site ssa.Instruction, t types.Type, op string, idx int, args ...*Val) *Val {
	return p.fresh(p.E.T.mk(Val{K: k, Site: site, Frame: p.top().frame, T: t, Op: op, Idx: idx, Args: args}))
}

// ---------------------------------------------------------------- memory

func rootOf(addr *Val) *Val {
	for addr.K == KFieldAddr || addr.K == KIndexAddr || (addr.K == KSlice && len(addr.Args) > 0) || addr.K == KMapElem {
		addr = addr.Args[0]
	}
	return addr
}

func local(addr *Val) bool { r := rootOf(addr); return r.K == KAlloc || r.K == KMake }

func (p *Path) zero(t types.Type) *Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return p.E.T.False
		case u.Info()&types.IsString != 0:
			return p.E.T.Const(constant.MakeString(""), t)
		case u.Info()&types.IsNumeric != 0:
			return p.E.T.Const(constant.MakeInt64(0), t)
		}
		return p.E.T.Nil
	case *types.Struct, *types.Array:
		return p.E.T.mk(Val{K: KZero, T: t})
	}
	return p.E.T.Nil
}

func elemType(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	case *types.Chan:
		return u.Elem()
	}
	return t
}

// field projects field i of a struct value.
func (p *Path) field(v *Val, i int, name string, t types.Type) *Val {
	switch v.K {
	case KZero:
		return p.zero(t)
	case KStruct:
		if v.Args[i] != nil {
			return v.Args[i]
		}
		return p.zero(t)
	}
	return p.E.T.mk(Val{K: KField, Op: name, Idx: i, Args: []*Val{v}, T: t})
}

// load reads an address.
func (p *Path) load(addr *Val, t types.Type, site ssa.Instruction) *Val {
	if v, ok := p.mem[addr]; ok {
		if st, isStruct := t.Underlying().(*types.Struct); isStruct && (isSym(v.K) || v.K == KStruct || v.K == KZero) {
			return p.overridden(addr, v, st, t, site)
		}
		return v
	}
	T := p.E.T
	if addr.K == KGlobal {
		g := addr.Site.(*ssa.Global)
		if p.E.P.ConstGlobal(g) {
			return T.mk(Val{K: KGVal, Site: g, T: t})
		}
	}
	// whole struct of a tracked object: assemble it
	if st, ok := t.Underlying().(*types.Struct); ok && addr.K != KGlobal {
		anyField := local(addr)
		for i := 0; i < st.NumFields() && !anyField; i++ {
			if _, ok := p.mem[T.mk(Val{K: KFieldAddr, Op: st.Field(i).Name(), Idx: i, Args: []*Val{addr}, T: types.NewPointer(st.Field(i).Type())})]; ok {
				anyField = true
			}
		}
		if anyField {
			args := make([]*Val, st.NumFields())
			for i := range args {
				f := st.Field(i)
				args[i] = p.load(p.fieldAddr(addr, i, f), f.Type(), site)
			}
			return T.mk(Val{K: KStruct, Args: args, T: t})
		}
	}
	// part of a whole value stored at an enclosing address
	switch addr.K {
	case KFieldAddr:
		if v, ok := p.lookupWhole(addr.Args[0]); ok {
			r := p.field(v, addr.Idx, addr.Op, t)
			p.mem[addr] = r
			return r
		}
	case KIndexAddr:
		if v, ok := p.lookupWhole(addr.Args[0]); ok && v.K == KZero {
			return p.zero(t)
		}
	}
	if r := rootOf(addr); (r.K == KAlloc) && r.Gen == 0 {
		if _, clob := p.mem[p.clobKey(r)]; !clob && !p.weakIndex(addr) {
			return p.zero(t)
		}
	}
	s := p.sym(KLoad, site, t, "", 0, addr)
	p.mem[addr] = s
	return s
}

// overridden is the struct at addr: the whole value stored there with the parts that were replaced since.
func (p *Path) overridden(addr, v *Val, st *types.Struct, t types.Type, site ssa.Instruction) *Val {
	part := false
	for k := range p.mem {
		if k.K == KFieldAddr && isPart(k, addr) {
			part = true
			break
		}
	}
	if !part {
		return v
	}
	args := make([]*Val, st.NumFields())
	same := true
	for i := range args {
		f := st.Field(i)
		args[i] = p.load(p.fieldAddr(addr, i, f), f.Type(), site)
		same = same && args[i] == p.field(v, i, f.Name(), f.Type())
	}
	if same {
		return v
	}
	return p.E.T.mk(Val{K: KStruct, Args: args, T: t})
}

func (p *Path) weakIndex(addr *Val) bool {
	for addr.K == KFieldAddr || addr.K == KIndexAddr {
		if addr.K == KIndexAddr && addr.Args[1].K != KConst {
			return true
		}
		if addr.K == KIndexAddr {
			// stores through unknown indices
			for k := range p.mem {
				if k.K == KIndexAddr && k.Args[0] == addr.Args[0] && k.Args[1].K != KConst {
					return true
				}
			}
		}
		addr = addr.Args[0]
	}
	return addr.K == KMapElem
}

func (p *Path) clobKey(root *Val) *Val {
	return p.E.T.mk(Val{K: KBuiltin, Op: "clobbered", Args: []*Val{root}})
}

func (p *Path) lookupWhole(addr *Val) (*Val, bool) {
	if v, ok := p.mem[addr]; ok {
		return v, true
	}
	if addr.K == KFieldAddr {
		if v, ok := p.lookupWhole(addr.Args[0]); ok {
			return p.field(v, addr.Idx, addr.Op, elemType(addr.T)), true
		}
	}
	return nil, false
}

func (p *Path) fieldAddr(base *Val, i int, f *types.Var) *Val {
	return p.E.T.mk(Val{K: KFieldAddr, Op: f.Name(), Idx: i, Args: []*Val{base}, T: types.NewPointer(f.Type()), Site: f})
}

// store writes an address.
func (p *Path) store(addr, v *Val) {
	// drop parts of the address and aliases of it
	for k := range p.mem {
		if k == addr {
			continue
		}
		if k.K == KBuiltin {
			continue
		}
		if isPart(k, addr) {
			delete(p.mem, k)
			continue
		}
		if mayAlias(k, addr) {
			delete(p.mem, k)
		}
	}
	p.mem[addr] = v
}

// isPart: k is an address inside addr.
func isPart(k, addr *Val) bool {
	for k.K == KFieldAddr || k.K == KIndexAddr || k.K == KMapElem {
		k = k.Args[0]
		if k == addr {
			return true
		}
	}
	return false
}

func mayAlias(a, b *Val) bool {
	if a.K != b.K {
		return false
	}
	switch a.K {
	case KFieldAddr:
		if a.Site != b.Site || a.Idx != b.Idx {
			return false
		}
		ra, rb := rootOf(a), rootOf(b)
		if ra != rb && (ra.K == KAlloc || rb.K == KAlloc || ra.K == KGlobal && rb.K == KGlobal) {
			return false
		}
		return true
	case KIndexAddr, KMapElem:
		if a.Args[0] == b.Args[0] {
			ca, cb := a.Args[1], b.Args[1]
			if ca.K == KConst && cb.K == KConst {
				return false
			}
			return true
		}
		ra, rb := rootOf(a), rootOf(b)
		if ra.K == KAlloc || rb.K == KAlloc || ra.K == KMake || rb.K == KMake {
			return false
		}
		return types.Identical(a.T, b.T)
	case KLoad, KCall, KParam, KExtract, KField:
		return a != b && types.Identical(a.T, b.T)
	}
	return false
}

// clobber forgets what is known about the memory reachable from v (passed to unknown code).
func (p *Path) clobber(v *Val, site ssa.Instruction, idx int, seen map[*Val]bool) {
	if v == nil || seen[v] {
		return
	}
	seen[v] = true
	switch v.K {
	case KStruct, KTuple:
		for _, a := range v.Args {
			p.clobber(a, site, idx, seen)
		}
		return
	case KSlice:
		// the elements' targets may be written (Scan(dest...)), the array itself is only read
		r := rootOf(v)
		if at, ok := elemType(r.T).Underlying().(*types.Array); ok && r.K == KAlloc {
			if _, basic := at.Elem().Underlying().(*types.Basic); basic {
				p.clobber(r, site, idx, seen)
				return
			}
		}
		for k, x := range p.mem {
			if k.K == KIndexAddr && k.Args[0] == r {
				p.clobber(x, site, idx*100+int(idxOf(k.Args[1])), seen)
			}
		}
		return
	case KAlloc, KFieldAddr, KIndexAddr:
	default:
		return
	}
	if v.K != KAlloc && !local(v) {
		// &param.field passed out: forget it
		delete(p.mem, v)
		return
	}
	for k, x := range p.mem {
		if k.K == KBuiltin {
			continue
		}
		if k == v || isPart(k, v) {
			// (pointers stored inside are reachable too)
			if x.K == KAlloc {
				p.clobber(x, site, idx, seen)
			}
			delete(p.mem, k)
		}
	}
	s := p.sym(KOut, site, elemType(v.T), "", idx, append([]*Val{v}, p.outArgs...)...)
	p.mem[v] = s
	if v.K == KAlloc {
		p.mem[p.clobKey(v)] = p.E.T.True
	}
}

func idxOf(v *Val) int64 {
	if v.K == KConst {
		if i, ok := constant.Int64Val(constant.ToInt(v.C)); ok {
			return i
		}
	}
	return 99
}

// ForgetShared drops what is known about memory other goroutines can change.
func (p *Path) ForgetShared() {
	for k := range p.mem {
		if !local(k) && k.K != KBuiltin {
			delete(p.mem, k)
		}
	}
}

// SliceElems lists the elements of a slice of a local array (variadic arguments).
func (p *Path) SliceElems(v *Val) ([]*Val, bool) {
	if v == nil || v.K == KNil {
		return nil, true
	}
	n := p.sliceLen(v)
	if n < 0 {
		return nil, false
	}
	out := make([]*Val, n)
	arr := v.Args[0]
	for i := range out {
		for k, x := range p.mem {
			if k.K == KIndexAddr && k.Args[0] == arr && isInt(k.Args[1], int64(i)) {
				out[i] = x
			}
		}
		if out[i] == nil {
			if w, ok := p.mem[arr]; ok && w.K == KStruct && i < len(w.Args) {
				out[i] = w.Args[i]
			}
		}
	}
	return out, true
}

// FieldOf reads field name of the object a pointer (or struct value) refers to, without a load event.
func (p *Path) FieldOf(v *Val, name string) *Val {
	t := v.T
	if t == nil {
		return nil
	}
	ptr := false
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t, ptr = pt.Elem(), true
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if f.Name() != name {
			continue
		}
		if !ptr {
			return p.field(v, i, name, f.Type())
		}
		a := p.fieldAddr(v, i, f)
		if x, ok := p.mem[a]; ok {
			return x
		}
		if w, ok := p.lookupWhole(v); ok {
			return p.field(w, i, name, f.Type())
		}
		if v.K == KAlloc && v.Gen == 0 {
			if _, clob := p.mem[p.clobKey(v)]; !clob {
				return p.zero(f.Type())
			}
		}
		return nil
	}
	return nil
}

// ---------------------------------------------------------------- identity of configurations

func (p *Path) gc() {
	live := map[*Val]bool{}
	var mark func(v *Val)
	mark = func(v *Val) {
		if v == nil || live[v] {
			return
		}
		live[v] = true
		for _, a := range v.Args {
			mark(a)
		}
	}
	for i, a := range p.acts {
		_ = i
		lv := p.E.P.Live(a.frame.Fn).At(a.block, a.pc)
		for k, v := range a.env {
			if !lv[k] {
				delete(a.env, k)
				continue
			}
			mark(v)
		}
		for _, d := range a.defers {
			mark(d.FV)
			for _, v := range d.Args {
				mark(v)
			}
		}
	}
	weak := p.E.weak
	for k, v := range p.RS {
		if weak[k.S] {
			continue
		}
		mark(k.V)
		mark(v.V)
	}
	done := map[*Val]bool{}
	for again := true; again; {
		again = false
		for k, v := range p.mem {
			if done[k] {
				continue
			}
			keep := true
			for _, s := range k.Syms() {
				if !live[s] {
					keep = false
				}
			}
			if keep {
				done[k] = true
				again = true
				mark(k)
				mark(v)
			}
		}
	}
	for k := range p.mem {
		if !done[k] {
			delete(p.mem, k)
		}
	}
	ok := func(t *Val) bool {
		for _, s := range t.Syms() {
			if !live[s] {
				return false
			}
		}
		return true
	}
	for k := range p.truth {
		if !ok(k) {
			delete(p.truth, k)
		}
	}
	for k := range p.nil_ {
		if !ok(k) {
			delete(p.nil_, k)
		}
	}
	for k := range p.eqc {
		if !ok(k) {
			delete(p.eqc, k)
		}
	}
	for k, v := range p.RS {
		if weak[k.S] && (k.V != nil && !ok(k.V) || v.V != nil && !ok(v.V)) {
			delete(p.RS, k)
		}
	}
}

func (p *Path) key() [16]byte {
	p.gc()
	var b []string
	P := p.E.P
	var s strings.Builder
	for _, a := range p.acts {
		fmt.Fprintf(&s, "A%d.%d.%d.%v%v%s;", a.frame.ID, a.block.Index, a.pc, a.isDef, a.panics, a.tag)
		b = b[:0]
		for k, v := range a.env {
			if v != nil {
				b = append(b, fmt.Sprintf("%d=%d", P.T.oid(k), v.ID))
			}
		}
		sort.Strings(b)
		s.WriteString(strings.Join(b, ","))
		for _, d := range a.defers {
			fmt.Fprintf(&s, "D%d", P.T.oid(d.Instr))
			for _, v := range d.Args {
				if v != nil {
					fmt.Fprintf(&s, ",%d", v.ID)
				}
			}
			if d.FV != nil {
				fmt.Fprintf(&s, "f%d", d.FV.ID)
			}
		}
	}
	sec := func(name string, n int, f func(add func(string))) {
		b = b[:0]
		f(func(x string) { b = append(b, x) })
		sort.Strings(b)
		s.WriteString(name)
		s.WriteString(strings.Join(b, ","))
	}
	sec("M", len(p.mem), func(add func(string)) {
		for k, v := range p.mem {
			add(fmt.Sprintf("%d=%d", k.ID, v.ID))
		}
	})
	sec("T", 0, func(add func(string)) {
		for k, v := range p.truth {
			add(fmt.Sprintf("%d=%v", k.ID, v))
		}
	})
	sec("N", 0, func(add func(string)) {
		for k, v := range p.nil_ {
			add(fmt.Sprintf("%d=%v", k.ID, v))
		}
	})
	sec("E", 0, func(add func(string)) {
		for k, v := range p.eqc {
			add(fmt.Sprintf("%d=%d", k.ID, v.ID))
		}
	})
	sec("R", 0, func(add func(string)) {
		id := func(v *Val) int {
			if v == nil {
				return 0
			}
			return v.ID
		}
		for k, v := range p.RS {
			add(fmt.Sprintf("%s#%d=%s#%d", k.S, id(k.V), v.S, id(v.V)))
		}
	})
	if debugStates {
		p.E.debugKey(p, s.String())
	}
	h := fnv.New128a()
	h.Write([]byte(s.String()))
	var r [16]byte
	copy(r[:], h.Sum(nil))
	return r
}
