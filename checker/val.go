package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Kind is the constructor of an abstract value (a hash-consed term).
type Kind uint8

// Term constructors. The "symbol" kinds (isSym) stand for an unknown runtime value made at one
// program site in one calling context; all others are built from their arguments.
const (
	KConst Kind = iota
	KNil
	KZero // zero value of a struct or array type
	KParam
	KGlobal // address of a package variable
	KGVal   // value of a package variable that is only assigned by initialisation
	KFunc
	KClosure
	KTuple
	KExtract
	KBin
	KEq
	KLt
	KNot
	KNeg
	KField
	KFieldAddr
	KIndexAddr
	KIndex
	KSlice
	KConv
	KLen
	KCap
	KAppend
	KStruct
	KMapElem // pseudo address of a map element
	KTypeOK  // "x has dynamic type T"
	KBuiltin

	// symbols
	KAlloc
	KMake
	KCall
	KLoad
	KLookup
	KRecv
	KNext
	KLoop
	KWiden
	KOut
	KAssert
	KRange
)

var kindNames = map[Kind]string{KConst: "const", KNil: "nil", KZero: "zero", KParam: "param", KGlobal: "&global", KGVal: "global", KFunc: "func", KClosure: "closure", KTuple: "tuple", KExtract: "extract", KBin: "bin", KEq: "==", KLt: "<", KNot: "!", KNeg: "neg", KField: "field", KFieldAddr: "&field", KIndexAddr: "&index", KIndex: "index", KSlice: "slice", KConv: "conv", KLen: "len", KCap: "cap", KAppend: "append", KStruct: "struct", KMapElem: "&mapelem", KTypeOK: "is", KBuiltin: "builtin", KAlloc: "alloc", KMake: "make", KCall: "call", KLoad: "load", KLookup: "lookup", KRecv: "recv", KNext: "next", KLoop: "loop", KWiden: "widen", KOut: "out", KAssert: "assert", KRange: "range"}

func isSym(k Kind) bool { return k >= KAlloc }

// Val is a hash-consed term; equal terms are the same pointer.
type Val struct {
	ID    int
	K     Kind
	Op    string
	T     types.Type
	C     constant.Value
	Args  []*Val
	Site  any // ssa.Instruction, *ssa.Global, *types.Var ...
	Frame *Frame
	Fn    *ssa.Function // KFunc, KClosure; KCall: static callee when known
	M     *types.Func   // KCall: resolved callee object (concrete or interface method)
	Idx   int
	Gen   int
	syms  []*Val
	symsD bool
}

// Frame is an interned calling context.
type Frame struct {
	ID     int
	Parent *Frame
	Call   ssa.Instruction
	Fn     *ssa.Function
	Depth  int
}

// Terms interns values and frames.
type Terms struct {
	vals   map[string]*Val
	frames map[string]*Frame
	ids    map[any]int
	Nil    *Val
	True   *Val
	False  *Val
}

func NewTerms() *Terms {
	t := &Terms{vals: map[string]*Val{}, frames: map[string]*Frame{}, ids: map[any]int{}}
	t.Nil = t.mk(Val{K: KNil})
	t.True = t.mk(Val{K: KConst, C: constant.MakeBool(true), T: types.Typ[types.Bool]})
	t.False = t.mk(Val{K: KConst, C: constant.MakeBool(false), T: types.Typ[types.Bool]})
	return t
}

func (t *Terms) oid(x any) int {
	if x == nil {
		return 0
	}
	if i, ok := t.ids[x]; ok {
		return i
	}
	i := len(t.ids) + 1
	t.ids[x] = i
	return i
}

func (t *Terms) Frame(parent *Frame, call ssa.Instruction, fn *ssa.Function) *Frame {
	pid, d := 0, 0
	if parent != nil {
		pid, d = parent.ID, parent.Depth+1
	}
	k := fmt.Sprintf("%d|%d|%d", pid, t.oid(call), t.oid(fn))
	if f, ok := t.frames[k]; ok {
		return f
	}
	f := &Frame{ID: len(t.frames) + 1, Parent: parent, Call: call, Fn: fn, Depth: d}
	t.frames[k] = f
	return f
}

func (t *Terms) mk(v Val) *Val {
	var b strings.Builder
	fmt.Fprintf(&b, "%d|%s|%d|%d|%d|", v.K, v.Op, v.Idx, v.Gen, t.oid(v.Site))
	if v.Frame != nil {
		fmt.Fprintf(&b, "f%d|", v.Frame.ID)
	}
	if v.C != nil {
		fmt.Fprintf(&b, "c%s|%d", v.C.ExactString(), v.C.Kind())
	}
	if v.Fn != nil {
		fmt.Fprintf(&b, "n%d", t.oid(v.Fn))
	}
	switch v.K {
	case KConv, KZero, KTypeOK, KAssert, KStruct:
		fmt.Fprintf(&b, "t%s", types.TypeString(v.T, nil))
	}
	if v.K == KClosure || v.K == KFunc {
		if n, ok := v.T.(*types.Named); ok {
			fmt.Fprintf(&b, "t%s", types.TypeString(n, nil))
		}
	}
	for _, a := range v.Args {
		if a == nil {
			b.WriteString(",_")
			continue
		}
		fmt.Fprintf(&b, ",%d", a.ID)
	}
	k := b.String()
	if x, ok := t.vals[k]; ok {
		return x
	}
	n := v
	n.ID = len(t.vals) + 1
	t.vals[k] = &n
	return &n
}

func (t *Terms) Bool(b bool) *Val {
	if b {
		return t.True
	}
	return t.False
}

func (t *Terms) Const(c constant.Value, ty types.Type) *Val {
	return t.mk(Val{K: KConst, C: c, T: ty})
}

func (t *Terms) Int(i int64) *Val {
	return t.mk(Val{K: KConst, C: constant.MakeInt64(i), T: types.Typ[types.Int]})
}

// Syms lists the symbols (and their arguments' symbols) a term is made of.
func (v *Val) Syms() []*Val {
	if v.symsD {
		return v.syms
	}
	seen := map[*Val]bool{}
	var out []*Val
	add := func(x *Val) {
		if !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	}
	if isSym(v.K) {
		add(v)
	}
	for _, a := range v.Args {
		if a == nil {
			continue
		}
		for _, s := range a.Syms() {
			add(s)
		}
	}
	v.syms, v.symsD = out, true
	return out
}

func (v *Val) HasSym(s *Val) bool {
	for _, x := range v.Syms() {
		if x == s {
			return true
		}
	}
	return false
}

// Contains reports whether sub occurs anywhere in v.
func (v *Val) Contains(sub *Val) bool {
	if v == nil {
		return false
	}
	if v == sub {
		return true
	}
	for _, a := range v.Args {
		if a.Contains(sub) {
			return true
		}
	}
	return false
}

// Any reports whether a sub-term satisfies f.
func (v *Val) Any(f func(*Val) bool) bool {
	if v == nil {
		return false
	}
	if f(v) {
		return true
	}
	for _, a := range v.Args {
		if a.Any(f) {
			return true
		}
	}
	return false
}

// Subst replaces the symbol from by to.
func (t *Terms) Subst(v, from, to *Val, memo map[*Val]*Val) *Val {
	if v == nil {
		return nil
	}
	if v == from {
		return to
	}
	if !v.HasSym(from) {
		return v
	}
	if r, ok := memo[v]; ok {
		return r
	}
	n := *v
	n.ID, n.syms, n.symsD = 0, nil, false
	n.Args = make([]*Val, len(v.Args))
	for i, a := range v.Args {
		n.Args[i] = t.Subst(a, from, to, memo)
	}
	r := t.mk(n)
	memo[v] = r
	return r
}

// Eq builds a canonical equality.
func (t *Terms) Eq(a, b *Val) *Val {
	if a.ID > b.ID {
		a, b = b, a
	}
	// put constants and nil on the right
	if (a.K == KConst || a.K == KNil) && !(b.K == KConst || b.K == KNil) {
		a, b = b, a
	}
	if b.K == KConst && b.C.Kind() == constant.Bool {
		if constant.BoolVal(b.C) {
			return a
		}
		return t.Not(a)
	}
	// len(x) == 0  <=>  !(0 < len(x))
	if a.K == KLen && isInt(b, 0) {
		return t.Not(t.Lt(t.Int(0), a))
	}
	// a freshly made error is not a package-level one
	if freshErr(a) && b.K == KGVal || freshErr(b) && a.K == KGVal {
		return t.False
	}
	return t.mk(Val{K: KEq, Args: []*Val{a, b}, T: types.Typ[types.Bool]})
}

func freshErr(v *Val) bool {
	if v.K == KBuiltin && (strings.HasPrefix(v.Op, "error:") || strings.HasPrefix(v.Op, "staterr:")) {
		return true
	}
	return v.K == KCall && in(v.FullName(), "fmt.Errorf", "errors.New", "google.golang.org/grpc/status.Error", "google.golang.org/grpc/status.Errorf")
}

func isInt(v *Val, i int64) bool {
	if v == nil || v.K != KConst || v.C.Kind() != constant.Int {
		return false
	}
	x, ok := constant.Int64Val(v.C)
	return ok && x == i
}

// Lt builds a canonical less-than.
func (t *Terms) Lt(a, b *Val) *Val {
	// len(x) < 1  <=>  !(0 < len(x))
	if a.K == KLen && isInt(b, 1) {
		return t.Not(t.Lt(t.Int(0), a))
	}
	return t.mk(Val{K: KLt, Args: []*Val{a, b}, T: types.Typ[types.Bool]})
}

func (t *Terms) Not(a *Val) *Val {
	if a == t.True {
		return t.False
	}
	if a == t.False {
		return t.True
	}
	if a.K == KNot {
		return a.Args[0]
	}
	return t.mk(Val{K: KNot, Args: []*Val{a}, T: types.Typ[types.Bool]})
}

func (t *Terms) Bin(op token.Token, a, b *Val, ty types.Type) *Val {
	switch op {
	case token.EQL:
		return t.Eq(a, b)
	case token.NEQ:
		return t.Not(t.Eq(a, b))
	case token.LSS:
		return t.Lt(a, b)
	case token.GTR:
		return t.Lt(b, a)
	case token.GEQ:
		return t.Not(t.Lt(a, b))
	case token.LEQ:
		return t.Not(t.Lt(b, a))
	}
	if a.K == KConst && b.K == KConst {
		func() {
			defer func() { _ = recover() }()
			var c constant.Value
			switch op {
			case token.SHL, token.SHR:
				s, _ := constant.Uint64Val(b.C)
				c = constant.Shift(a.C, op, uint(s))
			case token.QUO:
				if a.C.Kind() == constant.Int && b.C.Kind() == constant.Int {
					c = constant.BinaryOp(a.C, token.QUO_ASSIGN, b.C)
				}
			default:
				c = constant.BinaryOp(a.C, op, b.C)
			}
			if c != nil && c.Kind() != constant.Unknown {
				a = t.Const(c, ty)
				b = nil
			}
		}()
		if b == nil {
			return a
		}
	}
	switch op {
	case token.ADD, token.MUL, token.AND, token.OR, token.XOR:
		bt, _ := ty.Underlying().(*types.Basic)
		isStr := bt != nil && bt.Info()&types.IsString != 0
		if !isStr {
			// constants on the right; x + 0 = x; (x + c1) + c2 = x + (c1+c2)
			if a.K == KConst && b.K != KConst {
				a, b = b, a
			} else if a.K != KConst && b.K != KConst && a.ID > b.ID {
				a, b = b, a
			}
			if op == token.ADD && isInt(b, 0) {
				return a
			}
			if op == token.ADD && b.K == KConst && a.K == KBin && a.Op == "+" && a.Args[1].K == KConst {
				return t.Bin(token.ADD, a.Args[0], t.Bin(token.ADD, a.Args[1], b, ty), ty)
			}
			if op == token.ADD && b.K == KConst && a.K == KBin && a.Op == "-" && a.Args[1].K == KConst {
				return t.Bin(token.ADD, a.Args[0], t.Bin(token.SUB, b, a.Args[1], ty), ty)
			}
		}
	case token.SUB:
		if isInt(b, 0) {
			return a
		}
		if a == b {
			return t.Const(constant.MakeInt64(0), ty)
		}
		if b.K == KConst && a.K == KBin && a.Op == "+" && a.Args[1].K == KConst {
			d := t.Bin(token.SUB, a.Args[1], b, ty)
			if d.K == KConst && constant.Sign(d.C) >= 0 {
				return t.Bin(token.ADD, a.Args[0], d, ty)
			}
			return t.Bin(token.SUB, a.Args[0], t.Const(constant.UnaryOp(token.SUB, d.C, 0), ty), ty)
		}
	}
	return t.mk(Val{K: KBin, Op: op.String(), Args: []*Val{a, b}, T: ty})
}

func (v *Val) String() string { return v.str(6) }

func (v *Val) str(d int) string {
	if v == nil {
		return "_"
	}
	if d == 0 {
		return "…"
	}
	args := func() string {
		var s []string
		for _, a := range v.Args {
			s = append(s, a.str(d-1))
		}
		return strings.Join(s, ", ")
	}
	g := ""
	if v.Gen > 0 {
		g = "'"
	}
	switch v.K {
	case KConst:
		return v.C.String()
	case KNil:
		return "nil"
	case KParam:
		return v.Op
	case KGlobal:
		return "&" + v.Site.(*ssa.Global).Name()
	case KGVal:
		return v.Site.(*ssa.Global).Name()
	case KFunc, KClosure:
		return v.Fn.Name()
	case KBin:
		return "(" + v.Args[0].str(d-1) + " " + v.Op + " " + v.Args[1].str(d-1) + ")"
	case KEq:
		return "(" + v.Args[0].str(d-1) + " == " + v.Args[1].str(d-1) + ")"
	case KLt:
		return "(" + v.Args[0].str(d-1) + " < " + v.Args[1].str(d-1) + ")"
	case KNot:
		return "!" + v.Args[0].str(d-1)
	case KField, KFieldAddr:
		a := ""
		if v.K == KFieldAddr {
			a = "&"
		}
		return a + v.Args[0].str(d-1) + "." + v.Op
	case KExtract:
		return v.Args[0].str(d-1) + "#" + fmt.Sprint(v.Idx)
	case KLoad:
		return "*" + v.Args[0].str(d-1) + g
	case KCall:
		n := v.Op
		if v.M != nil {
			n = v.M.Name()
		}
		return n + "(" + args() + ")" + g
	case KLen:
		return "len(" + args() + ")"
	}
	return kindNames[v.K] + v.Op + "(" + args() + ")" + g
}

// FullName is the callee's full name of a call term.
func (v *Val) FullName() string {
	if v.M != nil {
		return v.M.FullName()
	}
	if v.Fn != nil {
		return v.Fn.String()
	}
	return v.Op
}

// Shape prints a term without the identity of its sites, so that equal computations at
// different places have equal shapes.
func (v *Val) Shape() string {
	if v == nil {
		return "_"
	}
	var s []string
	for _, a := range v.Args {
		s = append(s, a.Shape())
	}
	if v.K == KEq {
		sort.Strings(s)
	}
	h := kindNames[v.K]
	switch v.K {
	case KConst:
		return v.C.ExactString()
	case KNil:
		return "nil"
	case KParam:
		return "$" + v.Op
	case KGlobal, KGVal:
		h += ":" + v.Site.(*ssa.Global).String()
	case KFunc, KClosure:
		h += ":" + v.Fn.String()
	case KCall:
		h += ":" + v.FullName()
	case KField, KFieldAddr, KBin, KBuiltin:
		h += ":" + v.Op
	case KExtract:
		h += fmt.Sprintf(":%d", v.Idx)
	case KConv, KZero, KTypeOK, KAssert:
		h += ":" + types.TypeString(v.T, nil)
	case KAlloc, KMake, KLoop, KWiden, KNext, KRecv, KOut:
		h += fmt.Sprintf(":%d", v.ID)
	}
	return h + "(" + strings.Join(s, ",") + ")"
}
