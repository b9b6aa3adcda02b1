package main

import (
	"fmt"
	"go/token"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Translations between the representations of records and events: whatever carries the fields of a record is made of
// the corresponding fields of one source. The exploration tracks, for each value, which field of which source it holds
// (through encoding, decoding, SQL columns and accessors); when a representation leaves the place it was put together
// in, every one of its fields is compared.

var canonFields = []string{"StreamName", "AggregateType", "AggregateID", "GlobalSequenceNumber", "StreamSequenceNumber", "InsertTimestamp", "EventID", "EventType", "Data", "Metadata"}

func canon(s string) string {
	for _, c := range canonFields {
		if strings.EqualFold(c, s) {
			return c
		}
	}
	return ""
}

// fieldCanon is the role of field i of st: its JSON name if that names a role, else its own.
func fieldCanon(st *types.Struct, i int) string {
	tag := reflect.StructTag(st.Tag(i)).Get("json")
	if c := canon(strings.Split(tag, ",")[0]); c != "" {
		return c
	}
	return canon(st.Field(i).Name())
}

// roleFields are the fields of t that carry a part of a record (nil: t is not a representation of one).
func roleFields(t types.Type) map[string]string {
	st := structOf(t)
	if st == nil {
		return nil
	}
	m := map[string]string{}
	n := 0
	for i := 0; i < st.NumFields(); i++ {
		if c := fieldCanon(st, i); c != "" {
			m[st.Field(i).Name()] = c
			n++
		}
	}
	if isNamedIn(derefT(t), modPath, "EventRecord") {
		m["Event"] = "Data"
		return m
	}
	has := map[string]bool{}
	for _, c := range m {
		has[c] = true
	}
	if n < 4 || !has["AggregateType"] || !has["EventType"] || !has["Data"] {
		return nil
	}
	return m
}

type fieldRule struct {
	Base
	P    *Prog
	R    *Report
	name string
	root *ssa.Function
	kind string // translate, save, read, notify, front
	sink func(c *Call) string
	par  *Val // the stream name given to the operation
	tab  *LoopTab
	loop bool // first pass: only learn about loops
	seen int
}

func (r *fieldRule) Inline(p *Path, c *Call) bool {
	return !isNewRawEvent(c)
}

func isNewRawEvent(c *Call) bool {
	return c.Fn != nil && c.Fn.Name() == "NewRawEvent" && pkgOf(c.Fn) != nil && pkgOf(c.Fn).Path() == modPath
}

func decodedOf(p *Path, src *Val, t types.Type) *Val {
	return p.E.T.mk(Val{K: KBuiltin, Op: "decoded", Args: []*Val{src}, T: t})
}

// source is the text a reader or decoder reads.
func source(v *Val) *Val {
	for i := 0; v != nil && i < 8; i++ {
		switch v.K {
		case KConv:
			v = v.Args[0]
		case KExtract:
			v = v.Args[0]
		case KCall:
			if in(v.FullName(), "encoding/json.NewDecoder", "strings.NewReader", "bytes.NewReader", "bytes.NewBuffer", "bytes.NewBufferString", "bufio.NewReader") && len(v.Args) > 0 {
				v = v.Args[0]
				continue
			}
			return v
		default:
			return v
		}
	}
	return v
}

func (r *fieldRule) Model(p *Path, c *Call) []Outcome {
	T := p.E.T
	if o := pureEvent(p, c); o != nil {
		return o
	}
	decode := func(src, dst *Val) []Outcome {
		if dst == nil || src == nil {
			return nil
		}
		if _, ok := r.role(p, src); !ok {
			return nil
		}
		v := decodedOf(p, src, nil)
		out := errFork(nil, nil)
		to := dst
		if to.K == KAlloc || local(to) {
			af := out[0].After
			out[0].After = func(q *Path, res *Val) bool {
				q.store(to, v)
				return af(q, res)
			}
		}
		return out
	}
	switch c.Name() {
	case "(*encoding/json.Decoder).Decode":
		return decode(source(c.Args[0]), c.Args[1])
	case "encoding/json.Unmarshal":
		return decode(c.Args[0], c.Args[1])
	case "(*database/sql.Rows).Scan", "(*database/sql.Row).Scan":
		xa := p.XArgs(c)
		cols := columnsOf(c.Args[0])
		l := xa[len(xa)-1]
		if cols == nil || l.K != KTuple || len(l.Args) != len(cols) {
			break
		}
		rows := c.Args[0]
		out := errFork(nil, nil)
		af := out[0].After
		out[0].After = func(q *Path, res *Val) bool {
			for i, a := range l.Args {
				if a != nil && local(a) {
					q.store(a, T.mk(Val{K: KBuiltin, Op: "column:" + cols[i], Args: []*Val{rows}, T: elemType(a.T)}))
				}
			}
			return af(q, res)
		}
		return out
	}
	if failing(r.P, c) {
		return errFork(nil, nil)
	}
	return nil
}

// columnsOf are the columns of the query whose rows are given.
func columnsOf(rows *Val) []string {
	for rows != nil && rows.K == KExtract {
		rows = rows.Args[0]
	}
	if rows == nil || rows.K != KCall {
		return nil
	}
	for _, a := range rows.Args {
		if a == nil || a.T == nil || !types.Identical(a.T.Underlying(), types.Typ[types.String]) {
			continue
		}
		t := strings.Join(strings.Fields(sqlText(a)), " ")
		u := strings.ToUpper(t)
		if !strings.HasPrefix(u, "SELECT ") {
			continue
		}
		j := strings.Index(u, " FROM ")
		if j < 0 || strings.Contains(t[:j], "(") || strings.Contains(t[:j], "\x00") {
			return nil
		}
		var out []string
		for _, s := range strings.Split(t[7:j], ",") {
			s = strings.Trim(strings.TrimSpace(s), `"`)
			if k := strings.LastIndexByte(s, '.'); k >= 0 {
				s = s[k+1:]
			}
			out = append(out, s)
		}
		return out
	}
	return nil
}

type roleOf struct {
	name string // canonical field
	base *Val   // what it is a field of
	bad  string // what was done to it on the way
	enc  int    // times it was encoded less times it was decoded
	text bool   // the source keeps it encoded
}

func isTextT(t types.Type) bool {
	if t == nil {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Slice:
		b, ok := u.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Byte
	}
	return false
}

// role tells which part of a record a value holds.
func (r *fieldRule) role(p *Path, v *Val) (x roleOf, ok bool) {
	enc := 0
	var at *Val
	defer func() {
		x.enc += enc
		if ok && at != nil && !x.text {
			x.text = isTextT(at.T)
		}
	}()
	for i := 0; v != nil && i < 12; i++ {
		if v == r.par && v != nil {
			return roleOf{name: "StreamName"}, true
		}
		at = v
		if b, n := fieldRead(v); b != nil {
			base := b
			if base.K == KLoad && len(base.Args) > 0 {
				if base.Args[0].K == KIndexAddr {
					base = base.Args[0]
				}
			}
			st := structOf(b.T)
			if st == nil {
				return roleOf{}, false
			}
			for k := 0; k < st.NumFields(); k++ {
				if st.Field(k).Name() != n {
					continue
				}
				if n == "Event" && isNamedIn(derefT(b.T), modPath, "EventRecord") {
					return roleOf{name: "Data", base: b}, true
				}
				if c := fieldCanon(st, k); c != "" {
					return roleOf{name: c, base: b}, true
				}
			}
			return roleOf{}, false
		}
		switch v.K {
		case KConv:
			from, to := v.Args[0].T, v.T
			if from != nil && to != nil && isIntT(from) && isIntT(to) && !convKeeps2(from, to) {
				x, ok := r.role(p, v.Args[0])
				x.bad = "is narrowed to " + to.String()
				return x, ok
			}
			v = v.Args[0]
		case KSlice:
			v = v.Args[0]
		case KExtract:
			if v.Idx != 0 {
				return roleOf{}, false
			}
			v = v.Args[0]
		case KCall:
			if in(v.FullName(), "encoding/json.Marshal") && len(v.Args) > 0 {
				enc++
				v = v.Args[0]
				continue
			}
			return roleOf{}, false
		case KBuiltin:
			switch {
			case v.Op == "decoded":
				enc--
				v = v.Args[0]
				continue
			case strings.HasPrefix(v.Op, "column:"):
				if c := canon(v.Op[7:]); c != "" {
					return roleOf{name: c, base: v.Args[0]}, true
				}
			case strings.HasPrefix(v.Op, "pure:"):
				x := roleOf{name: canon(v.Op[5:]), base: v.Args[0]}
				if b, n := fieldRead(v.Args[0]); n == "Event" {
					x.base = b
				}
				return x, x.name != ""
			}
			return roleOf{}, false
		default:
			return roleOf{}, false
		}
	}
	return roleOf{}, false
}

func isZeroConst(v *Val) bool {
	if s, ok := strOf(v); ok {
		return s == ""
	}
	n, ok := intOf(v)
	return ok && n == 0
}

func convKeeps2(from, to types.Type) bool {
	a, ok1 := from.Underlying().(*types.Basic)
	b, ok2 := to.Underlying().(*types.Basic)
	return !ok1 || !ok2 || intSize(b) >= intSize(a)
}

func (r *fieldRule) fail(p *Path, key string, pos token.Pos, msg string) {
	if r.loop {
		return
	}
	if !pos.IsValid() {
		pos = p.pos()
	}
	if !pos.IsValid() {
		pos = r.root.Pos()
	}
	r.R.Fail(key+":"+r.name, pos, r.name+": "+msg, p)
}

// absent: the source has no metadata on this path.
func (r *fieldRule) absent(p *Path) bool { return p.Get("nometa", nil) != "" }

// judge compares the fields of a representation that is handed on.
func (r *fieldRule) judge(p *Path, v *Val, pos token.Pos) {
	if v == nil || v.T == nil {
		return
	}
	if v.K != KAlloc && v.K != KStruct {
		return
	}
	rf := roleFields(v.T)
	if rf == nil || p.Get("judged", v) != "" {
		return
	}
	if v.K == KAlloc {
		if w, ok := p.mem[v]; ok {
			// decoded as a whole representation
			if w.K == KOut || w.K == KBuiltin {
				return
			}
		}
		p.Set("judged", v, "1")
	}
	var base *Val
	baseField := ""
	got := map[string]roleOf{}
	unknown := map[string]*Val{}
	st := structOf(v.T)
	tn := types.TypeString(derefT(v.T), func(q *types.Package) string { return q.Name() })
	for i := 0; i < st.NumFields(); i++ {
		fn := st.Field(i).Name()
		want := rf[fn]
		if want == "" {
			continue
		}
		x := p.FieldOf(v, fn)
		if fn == "Event" && want == "Data" {
			if x != nil && p.Get("raw", x) != "" {
				got[want] = roleOf{name: "Data", base: p.GetV("raw", x)}
				continue
			}
		}
		ro, ok := r.role(p, x)
		if !ok {
			unknown[want] = x
			continue
		}
		got[want] = ro
		if ro.bad != "" {
			r.fail(p, "narrowed-"+want, pos, fmt.Sprintf("%s of the source %s on the way to %s.%s", ro.name, ro.bad, tn, fn))
		}
		if ro.name != want {
			r.fail(p, "swapped-"+want, pos, fmt.Sprintf("%s.%s is given the source's %s", tn, fn, ro.name))
			continue
		}
		if in(want, "Data", "Metadata") {
			n := ro.enc
			if ro.text {
				n++
			}
			if to := isTextT(st.Field(i).Type()); to && n != 1 || !to && n != 0 {
				r.fail(p, "form-"+want, pos, fmt.Sprintf("%s.%s is not in the form it is kept in (%v)", tn, fn, x))
			}
		}
		if ro.base != nil {
			b := r.baseKey(ro.base)
			if base == nil {
				base, baseField = b, want
			} else if b != base {
				r.fail(p, "mixed-"+want, pos, fmt.Sprintf("%s.%s and %s.%s come from different sources", tn, fn, tn, baseField))
			}
		}
	}
	if len(got) == 0 && len(unknown) == len(rf) && base == nil && r.kind != "translate" {
		return // not a translation
	}
	r.seen++
	if !r.loop {
		r.R.Obl("every field is carried over", r.name+" "+tn+" "+r.P.Pos(pos))
	}
	var shared map[string]string
	if base != nil {
		shared = roleFields(base.T)
	}
	has := func(c string) bool {
		for _, x := range shared {
			if x == c {
				return true
			}
		}
		return false
	}
	for c, x := range unknown {
		switch {
		case c == "Metadata" && x != nil && p.NilState(x) == 1 && (r.absent(p) || r.kind == "dispatch"):
		case in(c, "StreamName", "AggregateType", "AggregateID", "EventType", "Data", "Metadata") || has(c):
			r.fail(p, "dropped-"+c, pos, fmt.Sprintf("%s of a %s is not the source's (%v)", c, tn, x))
		case x == nil || x.K == KNil || x.K == KZero || x.K == KConst && (r.kind != "save" || isZeroConst(x)):
			r.fail(p, "unset-"+c, pos, fmt.Sprintf("%s of a %s is not set (%v)", c, tn, x))
		}
	}
}

// baseKey identifies a source.
func (r *fieldRule) baseKey(b *Val) *Val {
	for b != nil && (b.K == KLoad || b.K == KBuiltin && b.Op == "decoded") && len(b.Args) > 0 && b.Args[0] != nil && b.Args[0].K != KFieldAddr && b.Args[0].K != KIndexAddr {
		b = b.Args[0]
	}
	return b
}

func (r *fieldRule) SelectCase(p *Path, ev *Ev, i int) bool { return true }

func (r *fieldRule) Event(p *Path, ev *Ev) {
	if r.loop {
		r.tab.Observe(p, ev)
	}
	pos := token.NoPos
	if ev.Instr != nil {
		pos = ev.Instr.Pos()
	}
	switch ev.K {
	case EvGo:
		p.E.RunGo(p, ev.Call, map[RK]RV{{"inGo", nil}: {S: "1"}})
	case EvCall:
		c := ev.Call
		if c.Bltn != "" {
			return
		}
		if isNewRawEvent(c) {
			return
		}
		if r.P.InRepo(c.Fn) && p.E.inlineable(p, c) {
			return // judged where it leaves
		}
		pkg, _ := c.callee()
		if in(pkg, "fmt", "log", "errors", "reflect") {
			return
		}
		for _, a := range p.XArgs(c) {
			if a != nil && a.K == KTuple {
				for _, x := range a.Args {
					r.judge(p, x, pos)
				}
				continue
			}
			r.judge(p, a, pos)
		}
		r.insert(p, c, pos)
		if r.sink != nil {
			if l := r.sinkList(p, c); l != nil {
				r.listAtSink(p, l, pos)
			}
		}
	case EvCallDone:
		if c := ev.Call; isNewRawEvent(c) && len(c.Args) == 4 {
			r.rawEvent(p, c, ev.Res, pos)
		}
	case EvAppend:
		r.onAppend(p, ev, pos)
	case EvStore:
		if e := ev.Val; e != nil && e.T != nil && ev.Addr.K == KIndexAddr && roleFields(e.T) != nil && (e.K == KAlloc || e.K == KStruct) {
			r.judge(p, e, pos)
			if r.sink != nil && (r.loop || r.tab.everyIndex(ev.Addr.Args[1])) {
				p.Del("open", nil)
			}
		}
	case EvLoop:
		if p.Get("row", nil) != "" {
			p.Set("rowdone", nil, p.Get("row", nil))
			p.Del("row", nil)
		}
	case EvSend:
		r.judgeSent(p, ev.Val, pos)
	case EvSelect:
		for _, s := range ev.Sel {
			if s.Send {
				r.judgeSent(p, s.Val, pos)
			}
		}
	case EvBranch:
		r.branch(p, ev)
	case EvExit:
		if n := len(ev.Res_); n > 0 {
			if err := ev.Res_[n-1]; n > 1 && isErrorType(r.root.Signature.Results().At(n-1).Type()) && p.NilState(err) == -1 {
				return
			}
			for _, x := range ev.Res_ {
				r.judge(p, x, pos)
			}
		}
	}
}

func (r *fieldRule) judgeSent(p *Path, v *Val, pos token.Pos) {
	if v == nil {
		return
	}
	if n := namedOf(v.T); n != nil && n.Obj().Name() == "ResultRecord" {
		if rec := p.FieldOf(v, "Record"); rec != nil {
			r.judge(p, rec, pos)
		}
		return
	}
	r.judge(p, v, pos)
}

// rawEvent judges the arguments an event is made of.
func (r *fieldRule) rawEvent(p *Path, c *Call, res *Val, pos token.Pos) {
	want := []string{"AggregateType", "AggregateID", "EventType", "Data"}
	var base *Val
	for i, w := range want {
		ro, ok := r.role(p, c.Args[i])
		if !ok || ro.name != w || ro.bad != "" {
			r.fail(p, "raw-"+w, pos, fmt.Sprintf("the event's %s is not the source's (%v)", w, c.Args[i]))
			return
		}
		b := r.baseKey(ro.base)
		if base == nil {
			base = b
		} else if b != base {
			r.fail(p, "raw-mixed", pos, "an event is put together from different sources")
			return
		}
	}
	if !r.loop {
		r.R.Obl("events are made of the source's fields", r.name+" "+r.P.Pos(pos))
	}
	p.SetV("raw", res, "1", base)
}

// branch notes paths on which the source has no metadata, and the walk over the source's events.
func (r *fieldRule) branch(p *Path, ev *Ev) {
	c, want := ev.Val, ev.Bool
	for c.K == KNot {
		c, want = c.Args[0], !want
	}
	if c.K == KEq {
		for i := 0; i < 2; i++ {
			k, x := c.Args[i], c.Args[1-i]
			if s, ok := strOf(k); ok && (s == "" || s == "null") {
				if ro, ok := r.role(p, x); ok && ro.name == "Metadata" {
					if want {
						p.Set("nometa", nil, "1")
					} else {
						p.Del("nometa", nil)
					}
				}
			}
		}
	}
	if r.sink == nil {
		return
	}
	l, idx, more := listBranch(ev)
	if l == nil || l.T == nil {
		return
	}
	sl, ok := l.T.Underlying().(*types.Slice)
	if !ok || roleFields(sl.Elem()) == nil {
		return
	}
	if l.K == KSlice && l.Args[0].T != nil && types.Identical(l.Args[0].T, l.T) {
		r.fail(p, "part", ev.Instr.Pos(), "only a part of the events is gone through")
	}
	if p.Get("open", nil) != "" {
		r.fail(p, "left-out", ev.Instr.Pos(), "an event is left out")
		p.Del("open", nil)
	}
	if more {
		if !r.loop && !r.tab.everyIndex(idx) {
			return
		}
		p.Set("open", nil, "1")
		p.Del("walked", nil)
		return
	}
	p.Set("walked", nil, "1")
}

func (r *fieldRule) onAppend(p *Path, ev *Ev, pos token.Pos) {
	if !ev.Bool {
		return
	}
	for _, e := range ev.Elems {
		if e == nil {
			continue
		}
		was := p.Get("judged", e)
		r.judge(p, e, pos)
		if r.sink != nil && e.T != nil && roleFields(e.T) != nil && was == "" {
			p.Del("open", nil)
		}
	}
	if r.kind != "save" || len(ev.Elems) == 0 {
		return
	}
	var roles []string
	any := false
	for _, e := range ev.Elems {
		ro, ok := r.role(p, e)
		n := "?"
		if ok {
			n = ro.name
			any = true
		}
		roles = append(roles, n)
	}
	if !any {
		return
	}
	s := strings.Join(roles, ",")
	if old := p.Get("row", nil); old != "" && p.GetV("row", nil) == ev.Addr {
		s = old + "," + s
	}
	p.SetV("row", nil, s, ev.Res)
}

// insert compares an INSERT's columns with the values appended for one row.
func (r *fieldRule) insert(p *Path, c *Call, pos token.Pos) {
	if r.kind != "save" {
		return
	}
	for _, a := range c.Args {
		if a == nil || a.T == nil || !types.Identical(a.T.Underlying(), types.Typ[types.String]) {
			continue
		}
		t := strings.Join(strings.Fields(sqlText(a)), " ")
		u := strings.ToUpper(t)
		if !strings.HasPrefix(u, "INSERT INTO ") {
			continue
		}
		i := strings.IndexByte(t, '(')
		j := strings.IndexByte(t, ')')
		if i < 0 || j < i {
			continue
		}
		var cols []string
		for _, s := range strings.Split(t[i+1:j], ",") {
			cols = append(cols, canon(strings.Trim(strings.TrimSpace(s), `"`)))
		}
		var roles []string
		if s := p.Get("rowdone", nil); s != "" {
			roles = strings.Split(s, ",")
		} else if s := p.Get("row", nil); s != "" {
			roles = strings.Split(s, ",")
		} else if xa := p.XArgs(c); len(xa) > 0 && xa[len(xa)-1].K == KTuple {
			for _, x := range xa[len(xa)-1].Args {
				n := "?"
				if ro, ok := r.role(p, x); ok {
					n = ro.name
				}
				roles = append(roles, n)
			}
		}
		if len(roles) == 0 {
			continue
		}
		if !r.loop {
			r.R.Obl("each column of a saved row gets its own field", r.name)
		}
		if len(roles) != len(cols) {
			r.fail(p, "columns", pos, fmt.Sprintf("a row has %d columns and %d values", len(cols), len(roles)))
			continue
		}
		for k := range cols {
			if cols[k] != "" && roles[k] != cols[k] && !(roles[k] == "?" && in(cols[k], "InsertTimestamp", "EventID", "StreamSequenceNumber")) {
				r.fail(p, "column-"+cols[k], pos, fmt.Sprintf("column %s is given the event's %s", cols[k], roles[k]))
			}
		}
	}
}

// sinkList is the list of events a call hands on (nil: not the sink).
func (r *fieldRule) sinkList(p *Path, c *Call) *Val {
	op := r.sink(c)
	if op == "" {
		return nil
	}
	for _, a := range c.Args {
		if a == nil || a.T == nil {
			continue
		}
		if sl, ok := a.T.Underlying().(*types.Slice); ok && roleFields(sl.Elem()) != nil {
			return a
		}
		if st := structOf(a.T); st != nil {
			if l := p.FieldOf(a, "Events"); l != nil {
				return l
			}
		}
	}
	return nil
}

func (r *fieldRule) listAtSink(p *Path, l *Val, pos token.Pos) {
	if !r.loop {
		r.R.Obl("every event is handed on", r.name+" "+r.P.Pos(pos))
	}
	if p.Get("open", nil) != "" {
		r.fail(p, "left-out", pos, "an event is left out")
	}
	if p.Get("walked", nil) == "" {
		r.fail(p, "not-all", pos, "the events are handed on before all of them were translated")
	}
}

func (r *fieldRule) run(f *ssa.Function) {
	r.name = FnName(f)
	r.root = f
	r.tab = NewLoopTab()
	passes := []bool{false}
	if r.sink != nil {
		passes = []bool{true, false}
	}
	for _, first := range passes {
		r.loop = first
		r.seen = 0
		e := NewEngine(r.P, r)
		e.RunRoot(f, func(p *Path, params []*Val) {
			for _, a := range params {
				if _, ok := a.T.Underlying().(*types.Pointer); ok {
					p.SetNil(a, false)
				}
			}
			off := len(params) - f.Signature.Params().Len()
			if r.kind == "save" {
				for i, role := range opRoles[f.Name()] {
					if role == "stream" && off+i < len(params) {
						r.par = params[off+i]
					}
				}
			}
		})
		if !first {
			r.R.Engine(e, r.name)
		}
	}
}

// translators are the functions between records and their protobuf form.
func translators(P *Prog) []*ssa.Function {
	isRec := func(t types.Type) bool {
		_, ptr := t.(*types.Pointer)
		return ptr && isNamedIn(derefT(t), modPath, "Record")
	}
	isPB := func(t types.Type) bool {
		_, ptr := t.(*types.Pointer)
		return ptr && isNamedIn(derefT(t), pkgPB, "Record")
	}
	var out []*ssa.Function
	for _, f := range P.Funcs {
		if pkgOf(f) == nil || IsTestSupport(pkgOf(f).Path()) || f.Parent() != nil || !token.IsExported(f.Name()) || f.Signature.Results().Len() == 0 {
			continue
		}
		res := f.Signature.Results().At(0).Type()
		for i := 0; i < f.Signature.Params().Len(); i++ {
			t := f.Signature.Params().At(i).Type()
			if isRec(t) && isPB(res) || isPB(t) && isRec(res) {
				out = append(out, f)
			}
		}
	}
	return out
}

// notified are the functions that receive notifications of the database.
func notified(P *Prog) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range P.Funcs {
		if pkgOf(f) == nil || IsTestSupport(pkgOf(f).Path()) {
			continue
		}
		is := func(t types.Type) bool {
			c, ok := t.Underlying().(*types.Chan)
			return ok && isNamedIn(derefT(c.Elem()), "github.com/lib/pq", "Notification")
		}
		found := false
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Select:
					for _, s := range x.States {
						found = found || is(s.Chan.Type())
					}
				case *ssa.UnOp:
					found = found || x.Op == token.ARROW && is(x.X.Type())
				}
			}
		}
		if found {
			out = append(out, f)
		}
	}
	return out
}

func fieldsKept(P *Prog, R *Report) {
	runPass(P, R, "C18")
	for _, f := range translators(P) {
		(&fieldRule{P: P, R: R, kind: "translate"}).run(f)
	}
	for _, f := range notified(P) {
		(&fieldRule{P: P, R: R, kind: "notify"}).run(f)
	}
	for _, kind := range []string{"memory", "leveldb", "postgres"} {
		s := P.StoreOf(kind)
		if s == nil {
			continue
		}
		for _, op := range []string{"Save", "OptimisticSave"} {
			if f := P.Method(s.N, op); f != nil {
				(&fieldRule{P: P, R: R, kind: "save"}).run(f)
			}
		}
		if kind == "postgres" {
			for _, op := range sortedKeys(opRoles) {
				if f := P.Method(s.N, op); f != nil && isRead(op) {
					(&fieldRule{P: P, R: R, kind: "read"}).run(f)
				}
			}
		}
	}
	for _, f := range fronts(P) {
		if f.side == "encrypting" || !in(f.op, "Save", "OptimisticSave") {
			continue
		}
		side := f.side
		(&fieldRule{P: P, R: R, kind: "front", sink: func(c *Call) string {
			if side == "remote" {
				return rpcOp(isRPC(c))
			}
			return isStoreOp(c)
		}}).run(f.root)
	}
	for _, f := range P.Funcs {
		if isHandler(f) && !isExample(f) && savesEvents(P, f) {
			(&fieldRule{P: P, R: R, kind: "front", sink: isStoreOp}).run(f)
		}
	}
	fieldNames(P, R)
	rawEvents(P, R)
	codersKept(P, R)
	R.Need("every field is carried over", 12)
	R.Need("events are made of the source's fields", 2)
	R.Need("every event is handed on", 4)
	R.Need("each column of a saved row gets its own field", 1)
}

// savesEvents: does the handler reach a saving operation of a store?
func savesEvents(P *Prog, f *ssa.Function) bool {
	for g := range staticReach(P, []*ssa.Function{f}) {
		for _, b := range g.Blocks {
			for _, ins := range b.Instrs {
				if ci, ok := ins.(ssa.CallInstruction); ok {
					if m := ci.Common().Method; m != nil && in(m.Name(), "Save", "OptimisticSave") && m.Pkg() != nil && m.Pkg().Path() == modPath {
						return true
					}
				}
			}
		}
	}
	return false
}

func init() {
	register("C18", "every representation of a record or event that leaves the function it is put together in is compared field by field with its one source",
		[]string{"encoding/json writes and reads the exported fields of a struct under their names", "row_to_json names a row's fields like its columns"},
		fieldsKept)
}
