package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"regexp"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Folding of text functions of the standard library whose arguments are known: the texts of errors are followed from
// where they are made to where they are taken apart.

// texter knows the text of the errors of a scenario.
type texter interface {
	errText(p *Path, e *Val) (string, bool)
}

func strOf(v *Val) (string, bool) {
	if v != nil && v.K == KConst && v.C.Kind() == constant.String {
		return constant.StringVal(v.C), true
	}
	if v != nil && v.K == KConv && len(v.Args) == 1 {
		return strOf(v.Args[0])
	}
	return "", false
}

func (p *Path) str(s string) *Val {
	return p.E.T.Const(constant.MakeString(s), types.Typ[types.String])
}

// list makes a slice value with known elements.
func (p *Path) list(c *Call, l []string) *Val {
	T := p.E.T
	at := types.NewArray(types.Typ[types.String], int64(len(l)))
	arr := T.mk(Val{K: KAlloc, Op: fmt.Sprintf("list%d", len(l)), Site: c.Instr, Frame: p.top().frame, T: types.NewPointer(at)})
	for k := range p.mem {
		if k.K == KIndexAddr && k.Args[0] == arr {
			delete(p.mem, k)
		}
	}
	for i, s := range l {
		p.mem[T.mk(Val{K: KIndexAddr, Args: []*Val{arr, T.Int(int64(i))}, T: types.NewPointer(types.Typ[types.String])})] = p.str(s)
	}
	return T.mk(Val{K: KSlice, Args: []*Val{arr, nil, nil}, T: types.NewSlice(types.Typ[types.String])})
}

// globalInit is the call a package variable is initialised with.
func (P *Prog) globalInit(g *ssa.Global) *ssa.Call {
	if g == nil || g.Pkg == nil {
		return nil
	}
	f := g.Pkg.Func("init")
	if f == nil {
		return nil
	}
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if st, ok := ins.(*ssa.Store); ok && st.Addr == g {
				v := st.Val
				for {
					if mi, ok := v.(*ssa.MakeInterface); ok {
						v = mi.X
						continue
					}
					break
				}
				c, _ := v.(*ssa.Call)
				return c
			}
		}
	}
	return nil
}

func constArg(c *ssa.Call, i int) string {
	if c == nil || i >= len(c.Call.Args) {
		return ""
	}
	if k, ok := c.Call.Args[i].(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
		return constant.StringVal(k.Value)
	}
	return ""
}

// plain is the Go value of a known argument, for formatting.
func plain(p *Path, tx texter, v *Val) (any, bool) {
	if v == nil {
		return nil, false
	}
	if v.K == KConst {
		switch v.C.Kind() {
		case constant.String:
			return constant.StringVal(v.C), true
		case constant.Bool:
			return constant.BoolVal(v.C), true
		case constant.Int:
			if u, ok := constant.Uint64Val(v.C); ok {
				return u, true
			}
			i, ok := constant.Int64Val(v.C)
			return i, ok
		}
		return nil, false
	}
	if s, ok := tx.errText(p, v); ok {
		return s, true
	}
	return strOf(v)
}

// foldText evaluates a text function on known arguments (nil: not one, or not known).
func foldText(p *Path, c *Call, tx texter) []Outcome {
	T := p.E.T
	one := func(v *Val) []Outcome { return []Outcome{{Res: v}} }
	tuple := func(vs ...*Val) []Outcome { return one(T.mk(Val{K: KTuple, Args: vs})) }
	b := func(x bool) []Outcome { return one(T.Bool(x)) }
	pkg, name := c.callee()
	if c.M != nil && name == "Error" && len(c.Args) == 1 {
		if s, ok := tx.errText(p, c.Args[0]); ok {
			return one(p.str(s))
		}
		return nil
	}
	var s []string
	all := true
	var nums []int
	for _, a := range c.Args {
		x, ok := strOf(a)
		if !ok && a != nil && a.K == KConst && a.C.Kind() == constant.Int {
			i, _ := constant.Int64Val(a.C)
			nums = append(nums, int(i))
			s = append(s, "")
			continue
		}
		all = all && ok
		s = append(s, x)
	}
	switch pkg {
	case "strings":
		if !all || len(s) == 0 || c.Common.Signature().Recv() != nil {
			return nil
		}
		switch name {
		case "Contains":
			return b(strings.Contains(s[0], s[1]))
		case "ContainsAny":
			return b(strings.ContainsAny(s[0], s[1]))
		case "HasPrefix":
			return b(strings.HasPrefix(s[0], s[1]))
		case "HasSuffix":
			return b(strings.HasSuffix(s[0], s[1]))
		case "EqualFold":
			return b(strings.EqualFold(s[0], s[1]))
		case "Index":
			return one(T.Int(int64(strings.Index(s[0], s[1]))))
		case "LastIndex":
			return one(T.Int(int64(strings.LastIndex(s[0], s[1]))))
		case "Count":
			return one(T.Int(int64(strings.Count(s[0], s[1]))))
		case "TrimSpace":
			return one(p.str(strings.TrimSpace(s[0])))
		case "ToLower":
			return one(p.str(strings.ToLower(s[0])))
		case "ToUpper":
			return one(p.str(strings.ToUpper(s[0])))
		case "TrimPrefix":
			return one(p.str(strings.TrimPrefix(s[0], s[1])))
		case "TrimSuffix":
			return one(p.str(strings.TrimSuffix(s[0], s[1])))
		case "Trim":
			return one(p.str(strings.Trim(s[0], s[1])))
		case "TrimLeft":
			return one(p.str(strings.TrimLeft(s[0], s[1])))
		case "TrimRight":
			return one(p.str(strings.TrimRight(s[0], s[1])))
		case "ReplaceAll":
			return one(p.str(strings.ReplaceAll(s[0], s[1], s[2])))
		case "Replace":
			if len(nums) == 1 {
				return one(p.str(strings.Replace(s[0], s[1], s[2], nums[0])))
			}
		case "Cut":
			x, y, ok := strings.Cut(s[0], s[1])
			return tuple(p.str(x), p.str(y), T.Bool(ok))
		case "CutPrefix":
			x, ok := strings.CutPrefix(s[0], s[1])
			return tuple(p.str(x), T.Bool(ok))
		case "Split", "SplitAfter", "Fields":
			l := map[string]func() []string{"Split": func() []string { return strings.Split(s[0], s[1]) }, "SplitAfter": func() []string { return strings.SplitAfter(s[0], s[1]) }, "Fields": func() []string { return strings.Fields(s[0]) }}[name]()
			return one(p.list(c, l))
		case "SplitN":
			if len(nums) == 1 {
				return one(p.list(c, strings.SplitN(s[0], s[1], nums[0])))
			}
		}
	case "strconv":
		switch {
		case in(name, "ParseUint", "ParseInt", "Atoi") && len(s) > 0 && all:
			base, bits := 10, 64
			if len(nums) == 2 {
				base, bits = nums[0], nums[1]
			}
			if name == "Atoi" {
				base, bits = 10, 64
			}
			var k constant.Value
			var err error
			if name == "ParseUint" {
				var u uint64
				u, err = strconv.ParseUint(s[0], base, bits)
				k = constant.MakeUint64(u)
			} else {
				var i int64
				i, err = strconv.ParseInt(s[0], base, bits)
				k = constant.MakeInt64(i)
			}
			n := T.Const(k, c.Common.Signature().Results().At(0).Type())
			if err == nil {
				return tuple(n, T.Nil)
			}
			return errFork(nil, nil)[1:]
		case in(name, "FormatUint", "FormatInt", "Itoa"):
			base := 10
			if a := c.Args[0]; a != nil && a.K == KConst && a.C.Kind() == constant.Int {
				if len(c.Args) > 1 {
					if k, ok := constant.Int64Val(c.Args[1].C); ok {
						base = int(k)
					}
				}
				if u, ok := constant.Uint64Val(a.C); ok {
					return one(p.str(strconv.FormatUint(u, base)))
				}
				if i, ok := constant.Int64Val(a.C); ok {
					return one(p.str(strconv.FormatInt(i, base)))
				}
			}
		case name == "Quote" && all && len(s) == 1:
			return one(p.str(strconv.Quote(s[0])))
		}
	case "fmt":
		xa := p.XArgs(c)
		if len(xa) == 0 {
			return nil
		}
		last := xa[len(xa)-1]
		if last.K == KNil {
			last = T.mk(Val{K: KTuple})
		}
		if last.K != KTuple {
			return nil
		}
		switch name {
		case "Sprintf", "Errorf", "Sprint", "Sprintln":
			var args []any
			for _, a := range last.Args {
				x, ok := plain(p, tx, a)
				if !ok {
					return nil
				}
				args = append(args, x)
			}
			text := ""
			switch name {
			case "Sprint":
				text = fmt.Sprint(args...)
			case "Sprintln":
				text = fmt.Sprintln(args...)
			default:
				f, ok := strOf(xa[0])
				if !ok {
					return nil
				}
				text = fmt.Sprintf(strings.ReplaceAll(f, "%w", "%v"), args...)
			}
			if name != "Errorf" {
				return one(p.str(text))
			}
			return []Outcome{p.newError(text)}
		case "Sscanf", "Sscan", "Sscanln":
			in0, ok := strOf(xa[0])
			if !ok {
				return nil
			}
			dst := make([]any, len(last.Args))
			for i, a := range last.Args {
				bt, _ := elemType(a.T).Underlying().(*types.Basic)
				if bt == nil {
					return nil
				}
				switch {
				case bt.Info()&types.IsUnsigned != 0:
					dst[i] = new(uint64)
				case bt.Info()&types.IsInteger != 0:
					dst[i] = new(int64)
				case bt.Info()&types.IsString != 0:
					dst[i] = new(string)
				default:
					return nil
				}
			}
			var n int
			var err error
			switch name {
			case "Sscanf":
				f, ok := strOf(xa[1])
				if !ok {
					return nil
				}
				n, err = fmt.Sscanf(in0, f, dst...)
			case "Sscan":
				n, err = fmt.Sscan(in0, dst...)
			default:
				n, err = fmt.Sscanln(in0, dst...)
			}
			addrs := last.Args
			o := Outcome{Apply: func(q *Path) bool {
				for i := 0; i < n; i++ {
					var k constant.Value
					switch x := dst[i].(type) {
					case *uint64:
						k = constant.MakeUint64(*x)
					case *int64:
						k = constant.MakeInt64(*x)
					case *string:
						k = constant.MakeString(*x)
					}
					t := elemType(addrs[i].T)
					// a narrow destination does not hold the number
					if bt, ok := t.Underlying().(*types.Basic); ok && in(bt.Name(), "int8", "int16", "int32", "uint8", "uint16", "uint32") {
						k = constant.MakeInt64(0)
					}
					q.store(addrs[i], T.Const(k, t))
				}
				return true
			}}
			e := T.Nil
			if err != nil {
				e = p.newError(err.Error()).Res
				o.Res = T.mk(Val{K: KTuple, Args: []*Val{T.Int(int64(n)), e}})
				ap := o.Apply
				o.Apply = func(q *Path) bool { return ap(q) && q.SetNil(e, false) }
				return []Outcome{o}
			}
			o.Res = T.mk(Val{K: KTuple, Args: []*Val{T.Int(int64(n)), e}})
			return []Outcome{o}
		}
	case "errors":
		if name == "New" && len(s) == 1 && all {
			return []Outcome{p.newError(s[0])}
		}
	case "regexp":
		if len(c.Args) < 2 {
			return nil
		}
		pat := p.pattern(c.Args[0])
		in0, ok := strOf(c.Args[1])
		if pat == "" || !ok {
			return nil
		}
		re, err := regexp.Compile(pat)
		if err != nil {
			return nil
		}
		switch name {
		case "MatchString":
			return b(re.MatchString(in0))
		case "FindString":
			return one(p.str(re.FindString(in0)))
		case "FindStringSubmatch":
			l := re.FindStringSubmatch(in0)
			if l == nil {
				return one(T.Nil)
			}
			return one(p.list(c, l))
		case "FindAllString":
			if len(nums) == 1 {
				return one(p.list(c, re.FindAllString(in0, nums[0])))
			}
		}
	}
	return nil
}

// pattern is the text a regular expression was compiled from.
func (p *Path) pattern(v *Val) string {
	if v == nil {
		return ""
	}
	switch v.K {
	case KGVal:
		if g, ok := v.Site.(*ssa.Global); ok {
			return constArg(p.E.P.globalInit(g), 0)
		}
	case KLoad:
		if len(v.Args) > 0 && v.Args[0].K == KGlobal {
			if g, ok := v.Args[0].Site.(*ssa.Global); ok {
				return constArg(p.E.P.globalInit(g), 0)
			}
		}
	case KCall:
		if strings.HasSuffix(v.FullName(), "Compile") && len(v.Args) > 0 {
			return constStr(v.Args[0])
		}
	case KExtract:
		return p.pattern(v.Args[0])
	}
	return ""
}

// newError is an error with a known text.
func (p *Path) newError(text string) Outcome {
	e := p.E.T.mk(Val{K: KBuiltin, Op: "error:" + text, T: types.Universe.Lookup("error").Type()})
	return Outcome{Res: e, Apply: func(q *Path) bool { return q.SetNil(e, false) }}
}

func textOfError(e *Val) (string, bool) {
	if e != nil && e.K == KBuiltin && strings.HasPrefix(e.Op, "error:") {
		return e.Op[6:], true
	}
	return "", false
}
