package main

import "go/types"

// everyIndex: does v take the values 0, 1, 2, ... one per round (an index that reaches every element)?
func (t *LoopTab) everyIndex(v *Val) bool {
	if v == nil {
		return false
	}
	if isInt(v, 0) {
		return true
	}
	if v.K == KConst {
		return false
	}
	base, off := v, int64(0)
	if v.K == KBin && v.Op == "+" && isInt(v.Args[1], 1) {
		base, off = v.Args[0], 1
	}
	in, st, ok := t.Carried(base)
	if !ok || len(in) == 0 || !onlySteps(st, "+1") {
		return false
	}
	for x := range in {
		if !isInt(x, -off) {
			return false
		}
	}
	return true
}

// listBranch recognises "is there a further element of list": list is nil if the branch is about something else.
func listBranch(ev *Ev) (list, idx *Val, more bool) {
	c, want := ev.Val, ev.Bool
	for c.K == KNot {
		c, want = c.Args[0], !want
	}
	switch c.K {
	case KLt:
		if c.Args[1].K == KLen {
			return c.Args[1].Args[0], c.Args[0], want
		}
	case KEq:
		for i := 0; i < 2; i++ {
			if l := c.Args[i]; l.K == KLen {
				return l.Args[0], c.Args[1-i], !want
			}
		}
	}
	return nil, nil, false
}

// isStruct: the struct type behind a (pointer to a) named type.
func structOf(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

// holds: a field of the object v points to has the value x.
func (p *Path) holds(v, x *Val) string {
	st := structOf(v.T)
	if st == nil || x == nil {
		return ""
	}
	for i := 0; i < st.NumFields(); i++ {
		if p.FieldOf(v, st.Field(i).Name()) == x {
			return st.Field(i).Name()
		}
	}
	return ""
}
