package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- rule state helpers

func (p *Path) Set(s string, v *Val, x string)          { p.RS[RK{s, v}] = RV{S: x} }
func (p *Path) SetV(s string, v *Val, x string, y *Val) { p.RS[RK{s, v}] = RV{S: x, V: y} }
func (p *Path) Get(s string, v *Val) string             { return p.RS[RK{s, v}].S }
func (p *Path) GetV(s string, v *Val) *Val              { return p.RS[RK{s, v}].V }
func (p *Path) Del(s string, v *Val)                    { delete(p.RS, RK{s, v}) }

// Each calls f for every entry of kind s, in a fixed order.
func (p *Path) Each(s string, f func(k *Val, x RV)) {
	var ks []*Val
	for k := range p.RS {
		if k.S == s {
			ks = append(ks, k.V)
		}
	}
	for i := range ks {
		for j := i + 1; j < len(ks); j++ {
			if vid(ks[j]) < vid(ks[i]) {
				ks[i], ks[j] = ks[j], ks[i]
			}
		}
	}
	for _, k := range ks {
		if x, ok := p.RS[RK{s, k}]; ok {
			f(k, x)
		}
	}
}

func vid(v *Val) int {
	if v == nil {
		return 0
	}
	return v.ID
}

// AnyRS: is there an entry of kind s with value x?
func (p *Path) AnyRS(s, x string) bool {
	for k, v := range p.RS {
		if k.S == s && (x == "" || v.S == x) {
			return true
		}
	}
	return false
}

func (p *Path) DelAll(s string) {
	for k := range p.RS {
		if k.S == s {
			delete(p.RS, k)
		}
	}
}

// ---------------------------------------------------------------- callee classification

// callee is the package path and name of a call's target.
func (c *Call) callee() (pkg, name string) {
	if c.M != nil {
		if c.M.Pkg() != nil {
			return c.M.Pkg().Path(), c.M.Name()
		}
		return "", c.M.Name() // error.Error
	}
	if c.Fn != nil {
		if p := pkgOf(c.Fn); p != nil {
			return p.Path(), c.Fn.Name()
		}
		return "", c.Fn.Name()
	}
	return "", ""
}

func in(s string, l ...string) bool {
	for _, x := range l {
		if s == x {
			return true
		}
	}
	return false
}

// recvNamed is the named type of the callee's receiver (nil for functions).
func recvNamed(m *types.Func) *types.Named {
	if m == nil {
		return nil
	}
	sig := m.Type().(*types.Signature)
	if sig.Recv() == nil {
		return nil
	}
	return namedOf(sig.Recv().Type())
}

func recvTypeName(m *types.Func) string {
	if n := recvNamed(m); n != nil {
		return n.Obj().Name()
	}
	return ""
}

const (
	pkgLevelDB = "github.com/syndtr/goleveldb/leveldb"
	pkgLDBIter = "github.com/syndtr/goleveldb/leveldb/iterator"
	pkgSQL     = "database/sql"
)

// lockOp classifies mutex operations: "W+", "W-", "R+", "R-".
func lockOp(c *Call) string {
	switch c.Name() {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		return "W+"
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
		return "W-"
	case "(*sync.RWMutex).RLock":
		return "R+"
	case "(*sync.RWMutex).RUnlock":
		return "R-"
	}
	return ""
}

// lockOf is the lock an operation is on: a lock that is pointed to by a field is known by the field.
func lockOf(c *Call) *Val {
	a := unconv(c.Args[0])
	if a.K == KLoad && len(a.Args) > 0 && a.Args[0].K == KFieldAddr {
		return a.Args[0]
	}
	return a
}

// hasErr: does the call return an error as its last result?
func hasErr(c *Call) bool {
	if c.Common == nil {
		return false
	}
	r := c.Common.Signature().Results()
	return r.Len() > 0 && isErrorType(r.At(r.Len()-1).Type())
}

// errFork treats a call as opaque and forks on its error.
func errFork(ok, fail func(q *Path, res *Val)) []Outcome {
	return []Outcome{
		{Opaque: true, After: func(q *Path, res *Val) bool {
			e := q.ErrOf(res)
			if e != nil && !q.SetNil(e, true) {
				return false
			}
			if ok != nil {
				ok(q, res)
			}
			return !q.dead
		}},
		{Opaque: true, After: func(q *Path, res *Val) bool {
			e := q.ErrOf(res)
			if e == nil || !q.SetNil(e, false) {
				return false
			}
			q.Note(q.pos(), "this call fails")
			if fail != nil {
				fail(q, res)
			}
			return !q.dead
		}},
	}
}

// boolFork treats a call as opaque and forks on its boolean result.
func boolFork(t, f func(q *Path, res *Val)) []Outcome {
	return []Outcome{
		{Opaque: true, After: func(q *Path, res *Val) bool {
			if !q.Assume(res, true) {
				return false
			}
			if t != nil {
				t(q, res)
			}
			return !q.dead
		}},
		{Opaque: true, After: func(q *Path, res *Val) bool {
			if !q.Assume(res, false) {
				return false
			}
			if f != nil {
				f(q, res)
			}
			return !q.dead
		}},
	}
}

// pureEvent models the accessors of events (AggregateType, AggregateID, EventType) as functions of the event.
func pureEvent(p *Path, c *Call) []Outcome {
	if c.M == nil || len(c.Args) != 1 || c.Fn != nil {
		return nil
	}
	switch c.M.Name() {
	case "AggregateType", "AggregateID", "EventType":
	default:
		return nil
	}
	if c.M.Pkg() == nil || !strings.HasPrefix(c.M.Pkg().Path(), modPath) {
		return nil
	}
	return []Outcome{{Res: pureOf(p, c.M.Name(), c.Args[0])}}
}

func pureOf(p *Path, name string, recv *Val) *Val {
	return p.E.T.mk(Val{K: KBuiltin, Op: "pure:" + name, Args: []*Val{recv}, T: types.Typ[types.String]})
}

// ---------------------------------------------------------------- SQL text

// sqlText spells out what is constant in a statement's text; \x00 stands for a computed part.
func sqlText(v *Val) string {
	switch v.K {
	case KConst:
		if v.C.Kind() == constant.String {
			return constant.StringVal(v.C)
		}
	case KBin:
		if v.Op == "+" {
			return sqlText(v.Args[0]) + sqlText(v.Args[1])
		}
	case KCall:
		if v.FullName() == "fmt.Sprintf" && len(v.Args) > 0 {
			f := sqlText(v.Args[0])
			var el []*Val
			if len(v.Args) > 1 && v.Args[1].K == KTuple {
				el = v.Args[1].Args
			}
			var b strings.Builder
			n := 0
			for i := 0; i < len(f); i++ {
				if f[i] == '%' && i+1 < len(f) {
					i++
					if f[i] == '%' {
						b.WriteByte('%')
						continue
					}
					for i < len(f)-1 && strings.IndexByte("0123456789.+-# ", f[i]) >= 0 {
						i++
					}
					if n < len(el) && el[n] != nil {
						b.WriteString(sqlText(el[n]))
					} else {
						b.WriteByte(0)
					}
					n++
					continue
				}
				b.WriteByte(f[i])
			}
			return b.String()
		}
	}
	return "\x00"
}

func sqlVerb(t string) string {
	f := strings.Fields(t)
	if len(f) == 0 {
		return ""
	}
	return strings.ToUpper(f[0])
}

// ---------------------------------------------------------------- stores

// StoreInfo is one implementation of rangedb.Store.
type StoreInfo struct {
	N    *types.Named
	Kind string // memory, leveldb, postgres, esdb, remote, encrypting
}

// Stores finds and classifies the implementations of rangedb.Store by what they are made of.
func (P *Prog) Stores() []StoreInfo {
	it := P.Iface("", "Store")
	var out []StoreInfo
	if it == nil {
		return nil
	}
	for _, n := range P.Implementers(it) {
		st, ok := n.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		kind := ""
		maps := 0
		for i := 0; i < st.NumFields(); i++ {
			t := st.Field(i).Type()
			s := types.TypeString(t, nil)
			switch {
			case s == "*"+pkgLevelDB+".DB":
				kind = "leveldb"
			case s == "*database/sql.DB":
				kind = "postgres"
			case strings.Contains(s, "esdb.Client") || strings.Contains(s, "EventStore-Client-Go"):
				kind = "esdb"
			case strings.HasSuffix(s, "rangedbpb.RangeDBClient"):
				kind = "remote"
			case s == modPath+".Store":
				kind = "encrypting"
			}
			if _, ok := t.Underlying().(*types.Map); ok {
				maps++
			}
		}
		if kind == "" && maps > 0 {
			kind = "memory"
		}
		out = append(out, StoreInfo{n, kind})
	}
	return out
}

// StoreOf finds the store of a kind.
func (P *Prog) StoreOf(kind string) *StoreInfo {
	for _, s := range P.Stores() {
		if s.Kind == kind {
			x := s
			return &x
		}
	}
	return nil
}

// ---------------------------------------------------------------- loops

// LoopTab collects how loop-carried values start and change, over all explored paths.
type LoopTab struct {
	Init  map[*ssa.Phi]map[*Val]bool
	Step  map[*ssa.Phi]map[string]bool // "+0" "+1" "-1" "append1" "appendN" "other"
	Cell  map[*Val]map[*Val]bool       // local variables: every value stored (nil old)
	Cstep map[*Val]map[string]bool
}

func NewLoopTab() *LoopTab {
	return &LoopTab{map[*ssa.Phi]map[*Val]bool{}, map[*ssa.Phi]map[string]bool{}, map[*Val]map[*Val]bool{}, map[*Val]map[string]bool{}}
}

func stepKind(old, v *Val) string {
	if v == old {
		return "+0"
	}
	if v != nil && old != nil {
		if v.K == KBin && v.Op == "+" && v.Args[0] == old && v.Args[1].K == KConst {
			return "+" + v.Args[1].C.ExactString()
		}
		if v.K == KBin && v.Op == "-" && v.Args[0] == old && v.Args[1].K == KConst {
			return "-" + v.Args[1].C.ExactString()
		}
		if v.K == KAppend && v.Args[0] == old {
			if n := len(v.Args) - 2; n >= 1 {
				return fmt.Sprintf("append%d", n)
			}
			return "appendN"
		}
	}
	if v != nil && v.K == KConst && old != nil && old.K == KConst {
		a, _ := constant.Int64Val(old.C)
		b, _ := constant.Int64Val(v.C)
		if old.C.Kind() == constant.Int && v.C.Kind() == constant.Int {
			return fmt.Sprintf("%+d", b-a)
		}
	}
	if v != nil && v.K == KAppend && old != nil && old.K == KNil {
		return "other"
	}
	return "other"
}

// phiStep is the kind of step a loop variable made; its old value may be dead already.
func phiStep(ph *ssa.Phi, ev *Ev) string {
	if ev.Old == nil && ev.N < len(ph.Edges) {
		if b, ok := ph.Edges[ev.N].(*ssa.BinOp); ok && b.X == ssa.Value(ph) {
			if c, ok := b.Y.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
				switch b.Op {
				case token.ADD:
					return "+" + c.Value.ExactString()
				case token.SUB:
					return "-" + c.Value.ExactString()
				}
			}
		}
	}
	if ev.Old == nil && ev.N < len(ph.Edges) && ev.Val != nil {
		e := ph.Edges[ev.N]
		if e == ssa.Value(ph) {
			return "+0"
		}
		if c, ok := e.(*ssa.Call); ok && ev.Val.K == KAppend {
			if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && c.Call.Args[0] == ssa.Value(ph) {
				return stepKind(ev.Val.Args[0], ev.Val)
			}
		}
	}
	return stepKind(ev.Old, ev.Val)
}

// Observe records loop steps and stores to local variables.
func (t *LoopTab) Observe(p *Path, ev *Ev) {
	switch ev.K {
	case EvPhiStep:
		ph := ev.Instr.(*ssa.Phi)
		if ev.Bool {
			if t.Init[ph] == nil {
				t.Init[ph] = map[*Val]bool{}
			}
			t.Init[ph][ev.Val] = true
		} else {
			if t.Step[ph] == nil {
				t.Step[ph] = map[string]bool{}
			}
			t.Step[ph][phiStep(ph, ev)] = true
		}
	case EvStore:
		if ev.Addr.K == KAlloc {
			k := stepKind(ev.Old, ev.Val)
			if k == "other" || ev.Old == nil {
				if t.Cell[ev.Addr] == nil {
					t.Cell[ev.Addr] = map[*Val]bool{}
				}
				t.Cell[ev.Addr][ev.Val] = true
			} else {
				if t.Cstep[ev.Addr] == nil {
					t.Cstep[ev.Addr] = map[string]bool{}
				}
				t.Cstep[ev.Addr][k] = true
			}
		}
	}
}

// phiOf is the loop header variable a symbol stands for.
func phiOf(v *Val) *ssa.Phi {
	if v == nil || v.K != KLoop {
		return nil
	}
	ph, _ := v.Site.(*ssa.Phi)
	return ph
}

// cellOf is the local variable a widened or loaded value was read from.
func cellOf(v *Val) *Val {
	if v == nil || (v.K != KWiden && v.K != KLoad) || len(v.Args) == 0 {
		return nil
	}
	if v.Args[0].K == KAlloc {
		return v.Args[0]
	}
	return nil
}

// Carried describes a loop-carried value: its initial values and step kinds.
func (t *LoopTab) Carried(v *Val) (inits map[*Val]bool, steps map[string]bool, ok bool) {
	if ph := phiOf(v); ph != nil {
		return t.Init[ph], t.Step[ph], true
	}
	if c := cellOf(v); c != nil {
		return t.Cell[c], t.Cstep[c], true
	}
	return nil, nil, false
}

func onlySteps(m map[string]bool, allowed ...string) bool {
	for k := range m {
		if !in(k, allowed...) {
			return false
		}
	}
	return true
}

func hasStepN(m map[string]bool, k string) bool { return m[k] }

// elemLoads: does v read element idx of list?
func elemOf(v *Val) (list, idx *Val) {
	if v == nil {
		return nil, nil
	}
	switch v.K {
	case KLoad, KWiden:
		if len(v.Args) > 0 && v.Args[0].K == KIndexAddr {
			return v.Args[0].Args[0], v.Args[0].Args[1]
		}
	case KIndex:
		return v.Args[0], v.Args[1]
	case KNext:
		return v.Args[0], nil
	}
	return nil, nil
}
