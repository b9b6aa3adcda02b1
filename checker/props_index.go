package main

import (
	"go/token"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- LevelDB: the keys of saves, deletes and reads (C05)

// readKeyRule explores a read operation of the LevelDB store and collects the prefixes it reads.
type readKeyRule struct {
	Base
	P     *Prog
	op    string
	sel   *Val
	elems map[string]bool // texts put into lists
	pre   map[string]ssa.Instruction
	tab   *LoopTab
}

func (r *readKeyRule) Model(p *Path, c *Call) []Outcome {
	if o := pureEvent(p, c); o != nil {
		return o
	}
	nop := func(*Path, *Val) {}
	if o := iterModel(r.P, c, nop, nop, nop, nop); o != nil {
		return o
	}
	if failing(r.P, c) {
		return errFork(nil, nil)
	}
	return nil
}

func (r *readKeyRule) name(p *Path) func(x *Val) (string, bool) {
	var name func(x *Val) (string, bool)
	name = func(x *Val) (string, bool) {
		if s, ok := bufText(p, x, name); ok {
			return s, true
		}
		if x == r.sel {
			return "{stream}", true
		}
		if l, _ := elemOf(x); l != nil && x.T != nil && types.Identical(x.T.Underlying(), types.Typ[types.String]) {
			if l == r.sel {
				return "{agg}", true
			}
			return "{elem}", true
		}
		return "", false
	}
	return name
}

func (r *readKeyRule) Weak() []string { return []string{"buf:text", "buf:num"} }

func (r *readKeyRule) Event(p *Path, ev *Ev) {
	switch ev.K {
	case EvGo:
		p.E.RunGo(p, ev.Call, map[RK]RV{})
	case EvAppend:
		for _, e := range ev.Elems {
			r.elem(p, e)
		}
	case EvStore:
		if ev.Addr.K == KIndexAddr {
			if pt, ok := ev.Addr.T.(*types.Pointer); ok && isStr(pt.Elem()) {
				r.elem(p, ev.Val)
			}
		}
	case EvCallDone:
		noteBuf(p, ev.Call)
	case EvCall:
		c := ev.Call
		if strings.HasSuffix(c.Name(), "leveldb/util.BytesPrefix") && len(c.Args) == 1 {
			r.pre[flatKey(c.Args[0], r.name(p))] = ev.Instr
		}
	}
}

func isStr(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// elem records a text put into a list of texts.
func (r *readKeyRule) elem(p *Path, e *Val) {
	if e == nil || e.T == nil || !isStr(e.T) {
		return
	}
	if s := flatKey(e, r.name(p)); s != "{elem}" && s != "{agg}" && s != "{stream}" && !strings.Contains(s, "{key") && !strings.Contains(s, "{?}") {
		r.elems[s] = true
	}
}

func (r *readKeyRule) run(fn *ssa.Function) map[string]ssa.Instruction {
	r.elems, r.pre = map[string]bool{}, map[string]ssa.Instruction{}
	e := NewEngine(r.P, r)
	e.RunRoot(fn, func(p *Path, params []*Val) { r.sel = params[len(params)-1] })
	out := map[string]ssa.Instruction{}
	for k, in := range r.pre {
		if !strings.Contains(k, "{elem}") {
			out[k] = in
			continue
		}
		for x := range r.elems {
			out[strings.Replace(k, "{elem}", x, 1)] = in
		}
	}
	return out
}

var reKeyNumber = regexp.MustCompile(`\{(ssn|gsn|sgn)\}$`)

func keyHead(k string) string {
	if i := strings.Index(k, "{"); i >= 0 {
		return k[:i]
	}
	return k
}

func ldbKeys(P *Prog, R *Report, put []*storeRule, del *storeRule) {
	st := P.StoreOf("leveldb")
	if st == nil || del == nil || len(put) == 0 {
		return
	}
	saved := map[string]bool{} // prefix -> by every save
	for k := range put[0].keysPut {
		saved[k] = true
	}
	for _, r := range put {
		for k := range r.keysPut {
			if !saved[k] {
				R.Fail("leveldb:save-keys:"+k, token.NoPos, "LevelDB store: one save writes the key "+k+", another does not", nil)
			}
		}
		if len(r.keysPut) != len(saved) {
			R.Fail("leveldb:save-keys", token.NoPos, "LevelDB store: the saves write different keys", nil)
		}
	}
	pre := map[string]string{}
	var ks []string
	for k := range saved {
		if strings.Contains(k, "{") {
			pre[reKeyNumber.ReplaceAllString(k, "")] = k
		}
		ks = append(ks, k)
	}
	for i, a := range ks {
		for _, b := range ks[i+1:] {
			R.Obl("keys of different indexes cannot be the same", a+" "+b)
			x, y := keyHead(a), keyHead(b)
			if strings.HasPrefix(x, y) || strings.HasPrefix(y, x) {
				R.Fail("leveldb:keys-overlap", token.NoPos, "LevelDB store: the keys "+a+" and "+b+" of different indexes begin with the same text, so that one can be taken for the other", nil)
			}
		}
	}
	// a delete removes every key of a record that a save wrote
	for k := range saved {
		if !strings.Contains(k, "{") {
			continue
		}
		R.Obl("a delete removes every key a save wrote for a record", k)
		if !del.keysPut[k] {
			R.Fail("leveldb:delete-misses:"+k, token.NoPos, "LevelDB store: deleting a stream does not remove the key "+k+" written by saves", nil)
		}
	}
	for k := range del.keysPut {
		if !saved[k] {
			R.Fail("leveldb:delete-other:"+k, token.NoPos, "LevelDB store: deleting a stream removes the key "+k+", which no save writes", nil)
		}
	}
	// reads
	for _, op := range []string{"Events", "EventsByAggregateTypes", "EventsByStream"} {
		fn := P.Method(st.N, op)
		if fn == nil {
			continue
		}
		r := &readKeyRule{P: P, op: op}
		for k, in := range r.run(fn) {
			R.Item("prefixes read", op+" "+k)
			if strings.Contains(k, "{?}") || strings.Contains(k, "{elem}") {
				continue
			}
			R.Obl("reads look where saves write", op+" "+k)
			full, ok := pre[k]
			kind := "Events"
			if strings.Contains(full, "{stream}") {
				kind = "EventsByStream"
			} else if strings.Contains(full, "{agg}") {
				kind = "EventsByAggregateTypes"
			}
			if !ok {
				R.Fail("leveldb."+op+":prefix:"+k, in.Pos(), "LevelDB store: "+op+" reads the keys that begin with "+k+", but no save writes keys of that form followed by a number", nil)
			} else if kind != op {
				R.Fail("leveldb."+op+":index:"+k, in.Pos(), "LevelDB store: "+op+" reads the index "+k, nil)
			}
		}
	}
}

// ---------------------------------------------------------------- PostgreSQL: the table (C04)

var (
	reCreateRec = regexp.MustCompile(`(?is)CREATE\s+TABLE\s+(IF\s+NOT\s+EXISTS\s+)?"?record"?\s*\(`)
	reSerial    = regexp.MustCompile(`(?is)\bGlobalSequenceNumber"?\s+(BIGSERIAL|SERIAL8|BIGINT\s+GENERATED\s+(ALWAYS|BY\s+DEFAULT)\s+AS\s+IDENTITY)\b`)
	reSerialPK  = regexp.MustCompile(`(?is)\bGlobalSequenceNumber"?[^,]*\b(PRIMARY\s+KEY|UNIQUE)\b|PRIMARY\s+KEY\s*\(\s*"?GlobalSequenceNumber"?\s*\)`)
	reSeqMove   = regexp.MustCompile(`(?is)\bsetval\s*\(|\bALTER\s+SEQUENCE\b|\bRESTART\s+(IDENTITY|WITH)\b|\bTRUNCATE\b|\bDROP\s+TABLE\b|\bCACHE\b|\bCYCLE\b`)
)

func serialDDL(P *Prog, R *Report) {
	st := P.StoreOf("postgres")
	if st == nil {
		return
	}
	eachConst(P, st.N.Obj().Pkg(), func(s string, pos token.Pos) {
		if reCreateRec.MatchString(s) {
			R.Obl("the database numbers records from a sequence of its own", P.Pos(pos))
			if !reSerial.MatchString(s) {
				R.Fail("postgres:serial", pos, "PostgreSQL store: the table's GlobalSequenceNumber is not numbered by a sequence of the database", nil)
			}
			if !reSerialPK.MatchString(s) {
				R.Fail("postgres:serial-unique", pos, "PostgreSQL store: the table's GlobalSequenceNumber is not declared unique", nil)
			}
		}
		if m := reSeqMove.FindString(s); m != "" {
			R.Fail("postgres:sequence-moved:"+strings.ToUpper(m), pos, "PostgreSQL store: a statement can move the sequence that numbers records back, or drop its table ("+m+")", nil)
		}
	})
	R.Need("the database numbers records from a sequence of its own", 1)
}
