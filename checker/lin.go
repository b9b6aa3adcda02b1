package main

import (
	"go/constant"
	"go/types"
)

// A small reasoner for linear facts about lengths and indices: enough to show that a slice or index expression is in
// bounds from the comparisons made before it.

type linExp struct {
	c int64
	m map[*Val]int64
}

func (e linExp) add(f linExp, k int64) linExp {
	r := linExp{e.c + k*f.c, map[*Val]int64{}}
	for v, n := range e.m {
		r.m[v] = n
	}
	for v, n := range f.m {
		if r.m[v] += k * n; r.m[v] == 0 {
			delete(r.m, v)
		}
	}
	return r
}

func linConst(c int64) linExp { return linExp{c, map[*Val]int64{}} }

func (p *Path) lin(v *Val) linExp {
	if v == nil {
		return linConst(0)
	}
	if k := p.constOf(v); k != nil && k.C != nil && k.C.Kind() == constant.Int {
		if x, ok := constant.Int64Val(k.C); ok {
			return linConst(x)
		}
	}
	switch v.K {
	case KBin:
		switch v.Op {
		case "+":
			return p.lin(v.Args[0]).add(p.lin(v.Args[1]), 1)
		case "-":
			return p.lin(v.Args[0]).add(p.lin(v.Args[1]), -1)
		case "*":
			a, b := p.lin(v.Args[0]), p.lin(v.Args[1])
			if len(a.m) == 0 {
				return linConst(0).add(b, a.c)
			}
			if len(b.m) == 0 {
				return linConst(0).add(a, b.c)
			}
		}
	case KLen:
		return p.linLen(v.Args[0])
	case KConv:
		// where numbers are known to be small, a conversion between integers changes nothing
		if p.E.WideInts && isNumeric(v.T) && isNumeric(v.Args[0].T) {
			return p.lin(v.Args[0])
		}
	}
	return linExp{0, map[*Val]int64{v: 1}}
}

// linLen is the length of a slice or string.
func (p *Path) linLen(x *Val) linExp {
	switch x.K {
	case KNil:
		return linConst(0)
	case KConst:
		if x.C.Kind() == constant.String {
			return linConst(int64(len(constant.StringVal(x.C))))
		}
	case KSlice:
		var hi linExp
		if x.Args[2] != nil {
			hi = p.lin(x.Args[2])
		} else {
			hi = p.linLen(x.Args[0])
		}
		return hi.add(p.lin(x.Args[1]), -1)
	case KMake:
		if x.Op == "slice" && len(x.Args) > 0 && x.Args[0] != nil {
			return p.lin(x.Args[0])
		}
	case KAppend:
		r := p.linLen(x.Args[0])
		if len(x.Args) > 2 {
			return r.add(linConst(int64(len(x.Args)-2)), 1)
		}
		if len(x.Args) > 1 && x.Args[1] != nil {
			return r.add(p.linLen(x.Args[1]), 1)
		}
		return r
	}
	if x.T != nil {
		t := x.T.Underlying()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem().Underlying()
		}
		if at, ok := t.(*types.Array); ok {
			return linConst(at.Len())
		}
	}
	l := p.E.T.mk(Val{K: KLen, Args: []*Val{x}, T: types.Typ[types.Int]})
	if k := p.constOf(l); k != nil && k.C != nil {
		if n, ok := constant.Int64Val(k.C); ok {
			return linConst(n)
		}
	}
	return linExp{0, map[*Val]int64{l: 1}}
}

// linFacts are the expressions known to be >= 0, and those known not to be 0.
func (p *Path) linFacts(loops *LoopTab, about linExp) (ge, ne []linExp) {
	num := func(v *Val) bool {
		if v.K == KLen || v.K == KConst && v.C.Kind() == constant.Int {
			return true
		}
		if v.T == nil {
			return false
		}
		b, ok := v.T.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsInteger != 0
	}
	for f, t := range p.truth {
		switch f.K {
		case KLt:
			a, b := f.Args[0], f.Args[1]
			if !num(a) || !num(b) {
				continue
			}
			d := p.lin(b).add(p.lin(a), -1)
			if t {
				d.c--
				ge = append(ge, d)
			} else {
				ge = append(ge, linConst(0).add(d, -1))
			}
		case KEq:
			a, b := f.Args[0], f.Args[1]
			if !num(a) || !num(b) {
				continue
			}
			d := p.lin(b).add(p.lin(a), -1)
			if t {
				ge = append(ge, d, linConst(0).add(d, -1))
			} else {
				ne = append(ne, d)
			}
		}
	}
	atoms := map[*Val]bool{}
	for v := range about.m {
		atoms[v] = true
	}
	for _, f := range append(append([]linExp{}, ge...), ne...) {
		for v := range f.m {
			atoms[v] = true
		}
	}
	for v := range atoms {
		if v.K == KLen || v.K == KCap || isUnsigned(v.T) || v.K == KBuiltin || loops != nil && loops.everyIndex(v) {
			ge = append(ge, linExp{0, map[*Val]int64{v: 1}})
		}
		if v.T != nil {
			if b, ok := v.T.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				ge = append(ge, linExp{255, map[*Val]int64{v: -1}})
			}
		}
		if v.K == KLoop && loops != nil {
			// an index that starts at -1 and is raised before use
			if in, st, ok := loops.Carried(v); ok && len(in) > 0 && onlySteps(st, "+1") {
				min, all := int64(0), true
				for x := range in {
					n, ok := constInt(x)
					if !ok {
						all = false
					} else if n < min {
						min = n
					}
				}
				if all {
					ge = append(ge, linExp{-min, map[*Val]int64{v: 1}})
				}
			}
		}
		if v.K == KBin && v.Op == "%" {
			ge = append(ge, linExp{0, map[*Val]int64{v: 1}})
			if m, ok := constInt(v.Args[1]); ok {
				ge = append(ge, linExp{m - 1, map[*Val]int64{v: -1}})
			}
		}
	}
	return ge, ne
}

func constInt(v *Val) (int64, bool) {
	if v == nil || v.K != KConst || v.C.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(v.C)
}

// atLeast0 proves e >= 0 on this path.
func (p *Path) atLeast0(e linExp, loops *LoopTab) bool {
	ge, ne := p.linFacts(loops, e)
	// a multiple of m that is more than k*m is at least (k+1)*m
	for f, k := range p.eqc {
		m, ok := int64(0), false
		if f.K == KBin && f.Op == "%" && isInt(k, 0) {
			m, ok = constInt(f.Args[1])
		}
		if !ok || m <= 1 {
			continue
		}
		g := p.lin(f.Args[0])
		for i := int64(3); i > 0; i-- {
			x := g
			x.c -= (i-1)*m + 1
			if proveGE(x, ge, ne, 3) {
				x.c -= m - 1
				ge = append(ge, x)
				break
			}
		}
	}
	return proveGE(e, ge, ne, 4)
}

func proveGE(e linExp, ge, ne []linExp, depth int) bool {
	if len(e.m) == 0 {
		return e.c >= 0
	}
	if depth == 0 {
		return false
	}
	for _, f := range ge {
		// e = f + rest, f >= 0: enough to prove rest >= 0; f must remove an atom
		for v, n := range f.m {
			if en := e.m[v]; en != 0 && n != 0 && en%n == 0 && en/n > 0 {
				if proveGE(e.add(f, -(en/n)), ge, ne, depth-1) {
					return true
				}
			}
		}
	}
	// e + 1 >= 0 and e + 1 != 0
	for _, d := range ne {
		for _, s := range []int64{1, -1} {
			x := linConst(0).add(d, s)
			if y := x.add(e, -1); len(y.m) == 0 && y.c == 1 {
				if proveGE(x, ge, nil, depth-1) {
					return true
				}
			}
		}
	}
	return false
}

// sliceSafe: is base[lo:hi] within bounds on this path?
func (p *Path) sliceSafe(base, lo, hi *Val, loops *LoopTab) bool {
	n := p.linLen(base)
	l, h := p.lin(lo), n
	if hi != nil {
		h = p.lin(hi)
	}
	return p.atLeast0(l, loops) && p.atLeast0(h.add(l, -1), loops) && p.atLeast0(n.add(h, -1), loops)
}

// indexSafe: is base[i] within bounds on this path?
func (p *Path) indexSafe(base, i *Val, loops *LoopTab) bool {
	x := p.lin(i)
	d := p.linLen(base).add(x, -1)
	d.c--
	return p.atLeast0(x, loops) && p.atLeast0(d, loops)
}

// multipleOf proves that e is a multiple of m.
func (p *Path) multipleOf(e linExp, m int64) bool {
	if e.c%m != 0 {
		return false
	}
	for v, n := range e.m {
		if n%m == 0 {
			continue
		}
		ok := false
		for f, k := range p.eqc { // v % m == 0
			if f.K == KBin && f.Op == "%" && isInt(f.Args[1], m) && isInt(k, 0) {
				g := p.lin(f.Args[0])
				if len(g.m) == 1 && g.m[v] == 1 && g.c%m == 0 {
					ok = true
				}
			}
		}
		if !ok {
			return false
		}
	}
	return true
}
