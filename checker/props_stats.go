package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C28: statistics projections that can be saved as snapshots, the stores of snapshots, and the server that resumes from one.

const (
	ruleStatsOnce   = "an accepted record is counted once, in one exclusive section"
	ruleStatsRead   = "statistics are read under their lock"
	ruleStatsSave   = "a snapshot holds all statistics of one moment"
	ruleStatsLoad   = "a loaded snapshot replaces all statistics at once and leaves them usable"
	ruleStatsErr    = "a snapshot that could not be written or read completely is reported"
	ruleStatsResume = "the projection resumes after the position of the loaded snapshot"
)

func init() {
	register("C28", "Every path of the counting method, the getters, the snapshot methods and the constructor of every statistics projection, of every snapshot store, and of the server function that loads a snapshot and starts the projection's subscription is explored with every failing call. The fields are the ones the exported getters return.", []string{
		"encoding/json writes and reads back the exported fields of a struct under their names",
		"a file whose Sync or Close succeeded holds what was written to it",
	}, func(P *Prog, R *Report) {
		snap := P.Iface("pkg/projection", "SnapshotProjection")
		sub := P.Iface("", "RecordSubscriber")
		if snap == nil || sub == nil {
			R.Fail("anchors", token.NoPos, "the interfaces SnapshotProjection and RecordSubscriber were not found", nil)
			return
		}
		for _, t := range P.Implementers(snap) {
			if !types.Implements(types.NewPointer(t), sub) {
				continue
			}
			s := &statsProj{P: P, R: R, t: t, leaf: map[string]string{}, names: map[string]string{}}
			s.run()
		}
		if it := P.Iface("pkg/projection", "SnapshotStore"); it != nil {
			for _, t := range P.Implementers(it) {
				d := &snapStore{P: P, R: R, t: t}
				d.run()
			}
			statsResume(P, R)
		}
		R.Need(ruleStatsOnce, 1)
		R.Need(ruleStatsRead, 3)
		R.Need(ruleStatsSave, 1)
		R.Need(ruleStatsLoad, 1)
		R.Need(ruleStatsErr, 4)
		R.Need(ruleStatsResume, 1)
	})
}

type statsProj struct {
	P     *Prog
	R     *Report
	t     *types.Named
	leaf  map[string]string // role (total, latest, types) -> path of the field
	names map[string]string // path -> name in the snapshot
	enc   types.Type
	lock  string
}

var statsGetters = map[string]string{"TotalEvents": "total", "LatestGlobalSequenceNumber": "latest", "TotalEventsByAggregateType": "types"}

func (s *statsProj) run() {
	for _, g := range []string{"TotalEvents", "LatestGlobalSequenceNumber", "TotalEventsByAggregateType"} {
		if s.P.Method(s.t, g) == nil {
			s.R.Fail("getter:"+g, s.t.Obj().Pos(), "the statistics projection "+s.t.Obj().Name()+" has no method "+g, nil)
			return
		}
		s.one(g)
	}
	if len(s.leaf) < 3 {
		return
	}
	s.one("Accept")
	s.one("SaveSnapshot")
	s.one("LoadFromSnapshot")
	s.constructors()
}

func (s *statsProj) one(name string) {
	f := s.P.Method(s.t, name)
	r := &statsRule{statsProj: s, op: name, root: f, name: FnName(f)}
	e := NewEngine(s.P, r)
	e.RunRoot(f, func(p *Path, pa []*Val) {
		p.SetNil(pa[0], false)
		r.recv = pa[0]
		if len(pa) > 1 {
			r.arg = pa[1]
			if name != "TotalEventsByAggregateType" {
				p.SetNil(pa[1], false)
			}
		}
	})
	s.R.Engine(e, r.name)
}

// constructors: exported functions that return a projection leave its map usable.
func (s *statsProj) constructors() {
	for _, f := range s.P.Funcs {
		if f.Parent() != nil || f.Object() == nil || !f.Object().Exported() || f.Signature.Recv() != nil || pkgOf(f) != s.t.Obj().Pkg() {
			continue
		}
		res := f.Signature.Results()
		if res.Len() == 0 || namedOf(res.At(0).Type()) != s.t {
			continue
		}
		r := &statsRule{statsProj: s, op: "new", root: f, name: FnName(f)}
		e := NewEngine(s.P, r)
		e.RunRoot(f, nil)
		s.R.Engine(e, r.name)
	}
}

type statsRule struct {
	Base
	*statsProj
	op   string
	root *ssa.Function
	name string
	recv *Val
	arg  *Val
}

func (r *statsRule) fail(key string, p *Path, pos token.Pos, msg string) {
	if !pos.IsValid() {
		pos = r.root.Pos()
	}
	r.R.Fail(key+":"+r.name, pos, r.name+": "+msg, p)
}

// fieldPathOf: the field of base an address or value denotes, by name ("" if it is none).
func fieldPathOf(v, base *Val) string {
	if v == nil {
		return ""
	}
	join := func(b *Val, n string) string {
		if b == base || (b.K == KLoad || b.K == KOut || b.K == KWiden) && len(b.Args) > 0 && b.Args[0] == base {
			return n
		}
		if s := fieldPathOf(b, base); s != "" {
			return s + "." + n
		}
		return ""
	}
	switch v.K {
	case KFieldAddr, KField:
		return join(v.Args[0], v.Op)
	case KLoad, KWiden, KOut:
		if len(v.Args) > 0 {
			return fieldPathOf(v.Args[0], base)
		}
	}
	return ""
}

func (r *statsRule) role(path string) string {
	for k, v := range r.leaf {
		if v == path && path != "" {
			return k
		}
	}
	return ""
}

// leaves of a stored value: the roles it covers and the value of each.
func (r *statsRule) parts(p *Path, path string, v *Val) map[string]*Val {
	out := map[string]*Val{}
	for role, lp := range r.leaf {
		if lp == path {
			out[role] = v
		}
		if strings.HasPrefix(lp, path+".") {
			if x := partOf(p, v, strings.Split(lp[len(path)+1:], ".")); x != nil {
				out[role] = x
			}
		}
	}
	return out
}

// partOf: the component of a struct value (or of the struct a pointer leads to) under the given field names.
func partOf(p *Path, v *Val, names []string) *Val {
	for _, n := range names {
		if v == nil || v.T == nil {
			return nil
		}
		if _, isPtr := v.T.Underlying().(*types.Pointer); isPtr {
			v = p.FieldOf(v, n)
			continue
		}
		st := structOf(v.T)
		if st == nil {
			return nil
		}
		var x *Val
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == n {
				x = p.field(v, i, n, st.Field(i).Type())
			}
		}
		v = x
	}
	return v
}

func (r *statsRule) section(p *Path) string {
	if p.Get("lock", nil) == "" {
		return ""
	}
	return p.Get("sec", nil)
}

func (r *statsRule) onLock(p *Path, c *Call, o string) {
	lp := fieldPathOf(c.Args[0], r.recv)
	if lp == "" {
		return
	}
	if r.lock == "" {
		r.lock = lp
	}
	if lp != r.lock {
		r.fail("other-lock", p, c.Instr.Pos(), "the statistics are guarded by two different locks ("+r.lock+" and "+lp+")")
	}
	if strings.HasSuffix(o, "+") {
		p.Set("lock", nil, o[:1])
		n := len(p.Get("sec", nil))
		if n < 4 {
			p.Set("sec", nil, strings.Repeat("i", n+1))
		}
	} else {
		p.Del("lock", nil)
	}
}

func (r *statsRule) Event(p *Path, ev *Ev) {
	pos := ev.Instr.Pos()
	switch ev.K {
	case EvCall:
		if o := lockOp(ev.Call); o != "" {
			r.onLock(p, ev.Call, o)
			return
		}
		r.onCall(p, ev.Call, pos)
	case EvLoad:
		if path := fieldPathOf(ev.Addr, r.recv); path != "" {
			r.onRead(p, path, ev.Res, pos)
		}
	case EvMapRead:
		if path := fieldPathOf(ev.Addr, r.recv); path != "" {
			if p.Get("lock", nil) == "" && r.role(path) != "" {
				r.fail("unlocked-map", p, pos, "the counts per aggregate type are read without the lock")
			}
			if ev.Res != nil {
				p.Set("at", ev.Res, r.section(p))
			}
		}
	case EvMapUpdate:
		r.onMapUpdate(p, ev, pos)
	case EvMapDelete:
		if r.role(fieldPathOf(ev.Addr, r.recv)) != "" {
			r.fail("map-delete", p, pos, "a count is removed")
		}
	case EvStore:
		if path := fieldPathOf(ev.Addr, r.recv); path != "" && ev.Addr.K == KFieldAddr {
			for role, v := range r.parts(p, path, ev.Val) {
				r.onStore(p, role, v, pos)
			}
		}
	case EvBranch:
		if c := ev.Val; c.K == KNext && c.Op == "ok" {
			p.Del("pending", nil)
			if ev.Bool {
				p.SetV("pending", nil, "1", c.Args[0])
			} else if p.Get("skipped", nil) == "" {
				p.SetV("ended", nil, r.section(p), c.Args[0].Args[0])
			}
		}
		r.onBranch(p, ev)
	case EvLoop:
		if p.Get("pending", nil) != "" {
			p.Set("skipped", nil, "1")
		}
	case EvExit:
		r.exit(p, ev)
	}
}

// copyOf: the map whose entries were all copied into the new map m, and the lock section of the copy.
func (r *statsRule) copyOf(p *Path, m *Val) (*Val, string) {
	if p.Get("skipped", nil) != "" {
		return nil, ""
	}
	if src := p.GetV("copy", m); src != nil {
		return src, p.Get("copy", m)
	}
	return p.GetV("ended", nil), p.Get("ended", nil)
}

func (r *statsRule) onRead(p *Path, path string, v *Val, pos token.Pos) {
	if len(r.leaf) < 3 && r.leaf[statsGetters[r.op]] == "" || r.role(path) != "" {
		p.Set("at", v, r.section(p))
		if p.Get("lock", nil) == "" {
			p.Set("unlocked", v, "1")
			if r.role(path) != "" {
				r.fail("unlocked-read", p, pos, "the field "+path+" is read without the lock")
			}
		}
		return
	}
	// a struct that holds counters
	for _, lp := range r.leaf {
		if strings.HasPrefix(lp, path+".") {
			p.Set("at", v, r.section(p))
			if _, isStruct := v.T.Underlying().(*types.Struct); isStruct && p.Get("lock", nil) == "" {
				r.fail("unlocked-read", p, pos, "the statistics are read without the lock")
			}
			return
		}
	}
}

// at: the lock section a value of the receiver was read in.
func (r *statsRule) at(p *Path, v *Val) string {
	for i := 0; v != nil && i < 6; i++ {
		if s := p.Get("at", v); s != "" {
			return s
		}
		if v.K != KField {
			return ""
		}
		v = v.Args[0]
	}
	return ""
}

// plusOne: v is one more than the returned value.
func plusOne(v *Val) *Val {
	if v == nil || v.K != KBin || v.Op != "+" {
		return nil
	}
	a, b := v.Args[0], v.Args[1]
	if isInt(b, 1) {
		return a
	}
	if isInt(a, 1) {
		return b
	}
	return nil
}

func (r *statsRule) recordField(v *Val, name string) bool {
	b, n := fieldRead(v)
	return n == name && b == r.arg
}

func (r *statsRule) onMapUpdate(p *Path, ev *Ev, pos token.Pos) {
	m := ev.Addr
	path := fieldPathOf(m, r.recv)
	if r.role(path) == "types" {
		if r.op != "Accept" {
			r.fail("map-write", p, pos, "a count per aggregate type is written outside the counting method")
			return
		}
		r.needW(p, pos)
		if !r.recordField(ev.Key, "AggregateType") {
			r.fail("count-key", p, pos, "the count is not kept under the record's aggregate type")
		}
		ok := false
		if b := plusOne(ev.Val); b != nil && b.K == KLookup && len(b.Args) > 1 && r.role(fieldPathOf(b.Args[0], r.recv)) == "types" && b.Args[1] == ev.Key {
			ok = true
			if r.at(p, b) != r.section(p) {
				r.fail("stale-count", p, pos, "the count is increased from a value read before the lock was taken")
			}
		}
		if isInt(ev.Val, 1) {
			okA := p.E.T.mk(Val{K: KMapElem, Op: "ok", Args: []*Val{m, ev.Key}, T: types.NewPointer(types.Typ[types.Bool])})
			if v := p.mem[okA]; v != nil && p.Truth(v) < 0 {
				ok = true
			}
		}
		if !ok {
			r.fail("count-value", p, pos, "the count of the aggregate type is not increased by one")
		}
		r.done(p, "types", pos)
		return
	}
	if m.K == KMake && ev.Key != nil && ev.Key.K == KNext && ev.Val.K == KNext && ev.Key.Args[0] == ev.Val.Args[0] && ev.Key.Op == "k" && ev.Val.Op == "v" {
		// a copy of another map
		p.SetV("copy", m, r.section(p), ev.Key.Args[0].Args[0])
		p.Del("pending", nil)
	}
}

func (r *statsRule) needW(p *Path, pos token.Pos) {
	if p.Get("lock", nil) != "W" {
		r.fail("unlocked-write", p, pos, "the statistics are changed without holding the lock exclusively")
	}
}

func (r *statsRule) done(p *Path, role string, pos token.Pos) {
	if s := p.Get("did:"+role, nil); s != "" {
		r.fail("twice:"+role, p, pos, "the statistic is updated twice for one record")
	}
	s := r.section(p)
	if s == "" {
		s = "none"
	}
	p.Set("did:"+role, nil, s)
}

func (r *statsRule) onStore(p *Path, role string, v *Val, pos token.Pos) {
	if r.op == "new" {
		return
	}
	r.needW(p, pos)
	switch r.op {
	case "Accept":
		switch role {
		case "latest":
			if !r.recordField(v, "GlobalSequenceNumber") {
				if b := v; !(b.K == KCall && b.Op == "dyn" || b.K == KBuiltin) || !r.maxOf(v) {
					if fieldPathOf(v, r.recv) == r.leaf["latest"] && r.at(p, v) == r.section(p) {
						return // unchanged
					}
					r.fail("latest", p, pos, "the latest position is not the record's global sequence number")
				}
			}
		case "total":
			b := plusOne(v)
			if b == nil || fieldPathOf(b, r.recv) != r.leaf["total"] {
				if b == nil && fieldPathOf(v, r.recv) == r.leaf["total"] && r.at(p, v) == r.section(p) {
					return
				}
				r.fail("total", p, pos, "the total is not increased by one")
			} else if r.at(p, b) != r.section(p) {
				r.fail("stale-total", p, pos, "the total is increased from a value read before the lock was taken")
			}
		case "types":
			if fieldPathOf(v, r.recv) == r.leaf["types"] || v.K == KMake && p.Get("did:types", nil) == "" {
				return
			}
			r.fail("types", p, pos, "the counts per aggregate type are replaced")
			return
		}
		r.done(p, role, pos)
	case "LoadFromSnapshot":
		x := p.GetV("target", nil)
		if x == nil || p.Get("decoded", nil) == "" {
			r.fail("early-store", p, pos, "statistics are replaced before the snapshot was decoded")
			return
		}
		want := r.names[r.leaf[role]]
		if role == "types" {
			if p.NilState(v) != -1 && v.K != KMake {
				r.fail("nil-map", p, pos, "the counts per aggregate type can be left without a map: counting the next record panics")
			}
			if v.K == KMake {
				src, _ := r.copyOf(p, v)
				if src == nil && p.Get("nilmap", nil) == "" {
					r.fail("types-lost", p, pos, "the counts per aggregate type of the snapshot are not restored")
				}
				if src != nil && r.nameIn(src, x) != want {
					r.fail("types-lost", p, pos, "the counts per aggregate type are not restored from the snapshot")
				}
			} else if r.nameIn(v, x) != want {
				r.fail("types-lost", p, pos, "the counts per aggregate type are not restored from the snapshot")
			}
		} else if r.nameIn(v, x) != want {
			r.fail("load:"+role, p, pos, fmt.Sprintf("%s is not restored from the field %q of the snapshot", r.leaf[role], want))
		}
		r.done(p, role, pos)
	default:
		r.fail("write:"+role, p, pos, "the statistics are changed by "+r.op)
	}
}

func (r *statsRule) maxOf(v *Val) bool {
	if v.K == KBuiltin && v.Op == "max" || v.K == KCall && strings.HasSuffix(v.FullName(), "max") {
		a, b := false, false
		for _, x := range v.Args {
			a = a || r.recordField(x, "GlobalSequenceNumber")
			b = b || fieldPathOf(x, r.recv) == r.leaf["latest"]
		}
		return a && b
	}
	return false
}

func (r *statsRule) onBranch(p *Path, ev *Ev) {
	c := ev.Val
	if r.op == "Accept" && (c.K == KLt || c.K == KEq) && len(c.Args) == 2 {
		a, b := c.Args[0], c.Args[1]
		old := func(v *Val) bool { return fieldPathOf(v, r.recv) == r.leaf["latest"] && r.at(p, v) == r.section(p) }
		gsn := func(v *Val) bool { return r.recordField(v, "GlobalSequenceNumber") }
		if c.K == KLt && (old(a) && gsn(b) && !ev.Bool || gsn(a) && old(b) && ev.Bool) {
			p.Set("notgreater", nil, r.section(p))
		}
	}
	if r.op == "LoadFromSnapshot" && c.K == KEq {
		for i, a := range c.Args {
			if a.K == KNil && ev.Bool {
				if x := p.GetV("target", nil); x != nil && r.nameIn(c.Args[1-i], x) == r.names[r.leaf["types"]] {
					p.Set("nilmap", nil, "1")
				}
			}
		}
	}
}

// jsonName is the name a field has in JSON ("" if it is not written).
func jsonName(st *types.Struct, i int) string {
	f := st.Field(i)
	if !f.Exported() {
		return ""
	}
	tag := reflect.StructTag(st.Tag(i)).Get("json")
	n := strings.Split(tag, ",")[0]
	if n == "-" && tag == "-" {
		return ""
	}
	if n == "" {
		n = f.Name()
	}
	return n
}

// nameIn: the JSON name of the field of the decoded object x that v reads.
func (r *statsRule) nameIn(v, x *Val) string {
	path := fieldPathOf(v, x)
	if path == "" {
		return ""
	}
	t := x.T
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	return jsonPath(t, strings.Split(path, "."))
}

func jsonPath(t types.Type, names []string) string {
	var out []string
	for _, n := range names {
		st := structOf(t)
		if st == nil {
			return ""
		}
		found := false
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == n {
				j := jsonName(st, i)
				if j == "" {
					return ""
				}
				out = append(out, j)
				t = st.Field(i).Type()
				found = true
			}
		}
		if !found {
			return ""
		}
	}
	return strings.Join(out, ".")
}

func isJSON(c *Call, names ...string) bool {
	pkg, n := c.callee()
	return pkg == "encoding/json" && in(n, names...)
}

func (r *statsRule) Model(p *Path, c *Call) []Outcome {
	if !failing(r.P, c) {
		return nil
	}
	return errFork(func(q *Path, res *Val) {
		switch {
		case isJSON(c, "Decode", "Unmarshal"):
			q.Set("decoded", nil, "1")
		case isJSON(c, "Encode"):
			q.Set("encoded", nil, "1")
			if r.writesTo(q, c.Args[0]) {
				q.Set("written", nil, "1")
			}
		case isJSON(c, "Marshal", "MarshalIndent"):
			q.Set("encoded", nil, "1")
		default:
			_, n := c.callee()
			if q.Get("encoded", nil) != "" && in(n, "Write", "WriteString", "WriteTo", "Copy", "Flush") {
				for _, a := range c.Args {
					if a == r.arg || n == "Flush" && r.mentionsArg(a) {
						q.Set("written", nil, "1")
					}
				}
			}
		}
	}, func(q *Path, res *Val) {
		q.SetV("failed", nil, "1", q.ErrOf(res))
	})
}

func (r *statsRule) mentionsArg(v *Val) bool {
	return r.arg != nil && v != nil && v.Any(func(x *Val) bool { return x == r.arg })
}

// writesTo: does an encoder write straight to the root's writer?
func (r *statsRule) writesTo(p *Path, enc *Val) bool {
	return enc != nil && enc.K == KCall && strings.HasSuffix(enc.FullName(), "encoding/json.NewEncoder") && len(enc.Args) > 0 && enc.Args[0] == r.arg
}

func (r *statsRule) onCall(p *Path, c *Call, pos token.Pos) {
	switch {
	case r.op == "SaveSnapshot" && isJSON(c, "Encode", "Marshal", "MarshalIndent"):
		i := 0
		if c.M != nil && c.M.Name() == "Encode" {
			i = 1
		}
		r.encode(p, c.Args[i], pos)
	case r.op == "LoadFromSnapshot" && isJSON(c, "Decode", "Unmarshal"):
		x := c.Args[1]
		if fieldPathOf(x, r.recv) != "" || x == r.recv {
			r.fail("decode-in-place", p, pos, "the snapshot is decoded into the projection itself: a bad snapshot leaves it half replaced")
			return
		}
		p.SetV("target", nil, "1", x)
		if x.T != nil && r.enc != nil {
			t := x.T
			if pt, ok := t.Underlying().(*types.Pointer); ok {
				t = pt.Elem()
			}
			if pt, ok := t.Underlying().(*types.Pointer); ok {
				t = pt.Elem()
			}
		}
	}
}

// encode judges what a snapshot is made of.
func (r *statsRule) encode(p *Path, v *Val, pos token.Pos) {
	r.R.Obl(ruleStatsSave, r.P.Pos(pos))
	t := v.T
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	r.enc = t
	path := fieldPathOf(v, r.recv)
	_, isPtr := v.T.Underlying().(*types.Pointer)
	secs := map[string]bool{}
	for role, lp := range r.leaf {
		var val *Val
		var in []string
		switch {
		case path != "" && strings.HasPrefix(lp, path+"."):
			in = strings.Split(lp[len(path)+1:], ".")
			if isPtr {
				if p.Get("lock", nil) == "" {
					r.fail("encode-unlocked", p, pos, "the statistics are encoded without the lock")
				}
				val = nil
				secs[r.section(p)] = true
			} else {
				secs[r.at(p, v)] = true
			}
			if role == "types" && p.Get("lock", nil) == "" {
				r.fail("encode-unlocked", p, pos, "the map of counts is encoded without the lock")
			}
		default:
			// a struct made for the snapshot: find the field that holds this statistic
			for _, names := range leafPaths(t, nil, 3) {
				x := partOf(p, v, names)
				if x == nil {
					continue
				}
				src, csec := x, ""
				if x.K == KMake {
					if m, s := r.copyOf(p, x); m != nil {
						src, csec = m, s
					}
				}
				if fieldPathOf(src, r.recv) == lp {
					val, in = x, names
					if role == "types" && src == x && p.Get("lock", nil) == "" {
						r.fail("encode-unlocked", p, pos, "the map of counts is encoded without the lock")
					}
					if src != x {
						secs[csec] = true
					} else {
						secs[r.at(p, x)] = true
					}
				}
			}
			if val == nil {
				r.fail("not-saved:"+role, p, pos, "the snapshot does not hold "+lp)
				continue
			}
		}
		n := jsonPath(t, in)
		if n == "" {
			r.fail("not-saved:"+role, p, pos, "the snapshot does not hold "+lp+": the field is not encoded")
		}
		r.names[lp] = n
	}
	if len(secs) > 1 {
		r.fail("torn", p, pos, "the parts of the snapshot are read in different lock sections")
	}
	for s := range secs {
		if s == "" {
			r.fail("encode-unlocked", p, pos, "the statistics are read without the lock")
		}
	}
}

// leafPaths lists the fields of a struct type, nested ones by path.
func leafPaths(t types.Type, up []string, d int) [][]string {
	st := structOf(t)
	if st == nil || d == 0 {
		return nil
	}
	var out [][]string
	for i := 0; i < st.NumFields(); i++ {
		n := append(append([]string{}, up...), st.Field(i).Name())
		if structOf(st.Field(i).Type()) != nil {
			out = append(out, leafPaths(st.Field(i).Type(), n, d-1)...)
		} else {
			out = append(out, n)
		}
	}
	return out
}

func (r *statsRule) exit(p *Path, ev *Ev) {
	pos := ev.Instr.Pos()
	var err *Val
	if n := len(ev.Res_); n > 0 && isErrorType(r.root.Signature.Results().At(n-1).Type()) {
		err = ev.Res_[n-1]
	}
	if p.Get("lock", nil) != "" {
		r.fail("held", p, pos, "the lock is still held at the end")
	}
	if p.Get("failed", nil) != "" && err != nil {
		r.R.Obl(ruleStatsErr, r.name)
		if p.NilState(err) != -1 {
			r.fail("failure-lost", p, pos, "a failure is not reported")
		}
	}
	switch r.op {
	case "TotalEvents", "LatestGlobalSequenceNumber", "TotalEventsByAggregateType":
		role := statsGetters[r.op]
		v := ev.Res_[0]
		if role == "types" {
			if isInt(v, 0) {
				return
			}
			if v.K != KLookup || v.Args[1] != r.arg {
				r.fail("getter", p, pos, "the count of the aggregate type asked for is not returned")
				return
			}
			r.setLeaf(p, role, fieldPathOf(v.Args[0], r.recv), v.Args[0], pos)
			return
		}
		r.setLeaf(p, role, fieldPathOf(v, r.recv), v, pos)
	case "Accept":
		r.R.Obl(ruleStatsOnce, r.name)
		secs := map[string]bool{}
		for _, role := range []string{"types", "latest", "total"} {
			s := p.Get("did:"+role, nil)
			if s == "" && role == "latest" {
				s = p.Get("notgreater", nil)
			}
			if s == "" {
				r.fail("not-counted:"+role, p, pos, "a path does not update "+r.leaf[role]+" for an accepted record")
				continue
			}
			secs[s] = true
		}
		if len(secs) > 1 {
			r.fail("not-atomic", p, pos, "the statistics of one record are updated in more than one lock section")
		}
	case "SaveSnapshot":
		if p.NilState(err) == -1 {
			return
		}
		if p.Get("written", nil) == "" {
			r.fail("not-written", p, pos, "success is reported although the snapshot was not written completely")
		}
	case "LoadFromSnapshot":
		r.R.Obl(ruleStatsLoad, r.name)
		secs := map[string]bool{}
		var miss []string
		n := 0
		for _, role := range []string{"types", "latest", "total"} {
			s := p.Get("did:"+role, nil)
			if s == "" {
				miss = append(miss, r.leaf[role])
				continue
			}
			n++
			secs[s] = true
		}
		if p.NilState(err) == -1 {
			if n > 0 {
				r.fail("half-loaded", p, pos, "an error is returned after statistics were replaced")
			}
			return
		}
		sort.Strings(miss)
		if len(miss) > 0 {
			r.fail("not-restored", p, pos, "success is reported although "+strings.Join(miss, ", ")+" was not restored from the snapshot")
		}
		if len(secs) > 1 {
			r.fail("not-atomic", p, pos, "the statistics are replaced in more than one lock section")
		}
	case "new":
		if p.NilState(ev.Res_[0]) == 1 || err != nil && p.NilState(err) == -1 {
			return
		}
		m := partOf(p, ev.Res_[0], strings.Split(r.leaf["types"], "."))
		r.R.Obl(ruleStatsLoad, r.name)
		if m == nil || p.NilState(m) != -1 && m.K != KMake {
			r.fail("nil-map", p, pos, "a new projection has no map of counts: counting the first record panics")
		}
	}
}

func (r *statsRule) setLeaf(p *Path, role, path string, v *Val, pos token.Pos) {
	r.R.Obl(ruleStatsRead, r.name)
	if path == "" {
		r.fail("getter", p, pos, "the statistic returned is not a field of the projection")
		return
	}
	if p.Get("at", v) == "" {
		r.fail("unlocked-getter", p, pos, "the field "+path+" is read without the lock")
	}
	if o, ok := r.leaf[role]; ok && o != path {
		r.fail("getter", p, pos, "the statistic returned is not always the same field")
	}
	for k, v := range r.leaf {
		if v == path && k != role {
			r.fail("getter", p, pos, "two different statistics are the same field")
		}
	}
	r.leaf[role] = path
}

// ---------------------------------------------------------------- snapshot stores

type snapStore struct {
	P    *Prog
	R    *Report
	t    *types.Named
	path map[string]string
}

func (s *snapStore) run() {
	s.path = map[string]string{}
	for _, op := range []string{"Save", "Load"} {
		f := s.P.Method(s.t, op)
		if f == nil {
			continue
		}
		r := &snapRule{snapStore: s, op: op, root: f, name: FnName(f)}
		e := NewEngine(s.P, r)
		e.RunRoot(f, func(p *Path, pa []*Val) {
			p.SetNil(pa[0], false)
			p.SetNil(pa[1], false)
			r.recv, r.proj = pa[0], pa[1]
		})
		s.R.Engine(e, r.name)
	}
	if a, b := s.path["Save"], s.path["Load"]; a != b && a != "" && b != "" {
		s.R.Fail("path:"+s.t.Obj().Name(), s.t.Obj().Pos(), "a snapshot is written to "+a+" but read from "+b, nil)
	}
}

type snapRule struct {
	Base
	*snapStore
	op   string
	root *ssa.Function
	name string
	recv *Val
	proj *Val
}

func (r *snapRule) fail(key string, p *Path, pos token.Pos, msg string) {
	if !pos.IsValid() {
		pos = r.root.Pos()
	}
	r.R.Fail(key+":"+r.name, pos, r.name+": "+msg, p)
}

// shape renders a value without the places it was computed at.
func shape(v *Val, name func(*Val) string) string {
	if v == nil {
		return "_"
	}
	if s := name(v); s != "" {
		return s
	}
	var a []string
	for _, x := range v.Args {
		a = append(a, shape(x, name))
	}
	h := kindNames[v.K] + v.Op
	switch v.K {
	case KConst:
		h = v.C.ExactString()
	case KCall:
		h = v.FullName()
	case KAlloc, KMake:
		h = "new"
	}
	if len(a) == 0 {
		return h
	}
	return h + "(" + strings.Join(a, ",") + ")"
}

func (r *snapRule) Model(p *Path, c *Call) []Outcome {
	if !failing(r.P, c) {
		return nil
	}
	_, n := c.callee()
	// failures that do no harm: the next step fails, or nothing depends on it
	if in(c.Name(), "os.Remove", "os.RemoveAll", "os.MkdirAll", "os.Mkdir", "os.Chmod") {
		return errFork(nil, nil)
	}
	return errFork(func(q *Path, res *Val) {
		switch {
		case in(c.Name(), "os.Create", "os.OpenFile", "os.CreateTemp", "io/ioutil.TempFile"):
			if r.op == "Save" {
				q.SetV("file", nil, "1", q.ResOf(res, 0))
			}
			if c.Name() != "os.CreateTemp" && c.Name() != "io/ioutil.TempFile" {
				q.Set("wpath", nil, r.shapeOf(q, c.Args[0]))
			}
			r.opened(q, c, res)
		case c.Name() == "os.Open":
			q.Set("rpath", nil, r.shapeOf(q, c.Args[0]))
			r.opened(q, c, res)
		case c.Name() == "os.Rename":
			q.Set("wpath", nil, r.shapeOf(q, c.Args[1]))
			q.Set("named", nil, "1")
		case in(c.Name(), "os.WriteFile", "io/ioutil.WriteFile"):
			q.Set("wpath", nil, r.shapeOf(q, c.Args[0]))
			q.Set("durable", nil, "1")
		case in(c.Name(), "(*os.File).Sync", "(*os.File).Close"):
			if q.Get("did", nil) != "" && q.Get("unflushed", nil) == "" {
				q.Set("durable", nil, "1")
			}
			if n == "Close" {
				q.Del("open", nil)
			}
		case n == "Flush":
			q.Del("unflushed", nil)
		case n == "SaveSnapshot" || n == "LoadFromSnapshot":
			q.Set("did", nil, "1")
			if a := c.Args[1]; n == "SaveSnapshot" && a.Any(func(x *Val) bool { return x.K == KCall && in(x.FullName(), "bufio.NewWriter", "bufio.NewWriterSize") }) {
				q.Set("unflushed", nil, "1")
			}
		}
	}, func(q *Path, res *Val) {
		if n == "Close" {
			q.Del("open", nil)
			if r.op == "Load" || q.Get("durable", nil) != "" {
				return
			}
		}
		if c.Deferd && n == "Close" && q.Get("failed", nil) != "" {
			return
		}
		q.SetV("failed", nil, "1", q.ErrOf(res))
	})
}

func (r *snapRule) opened(q *Path, c *Call, res *Val) { q.Set("open", nil, "1") }

func (r *snapRule) shapeOf(p *Path, v *Val) string {
	return shape(v, func(x *Val) string {
		switch {
		case x == r.recv:
			return "store"
		case x == r.proj:
			return "projection"
		case x.K == KLoad && len(x.Args) > 0:
			return shape(x.Args[0], func(y *Val) string {
				if y == r.recv {
					return "store"
				}
				return ""
			})
		}
		return ""
	})
}

func (r *snapRule) Event(p *Path, ev *Ev) {
	pos := ev.Instr.Pos()
	switch ev.K {
	case EvCall:
		c := ev.Call
		if c.M == nil || len(c.Args) == 0 {
			return
		}
		if in(c.M.Name(), "SaveSnapshot", "LoadFromSnapshot") && c.Args[0] != r.proj {
			r.fail("other-projection", p, pos, "the snapshot of another projection is used")
		}
	case EvExit:
		err := ev.Res_[len(ev.Res_)-1]
		r.R.Obl(ruleStatsErr, r.name)
		if p.Get("failed", nil) != "" {
			if p.NilState(err) != -1 {
				r.fail("failure-lost", p, pos, "a failure is not reported")
			}
			return
		}
		if p.NilState(err) == -1 {
			return
		}
		if p.Get("did", nil) == "" {
			r.fail("nothing-done", p, pos, "success is reported although the snapshot was not "+map[string]string{"Save": "written", "Load": "loaded"}[r.op])
			return
		}
		if r.op == "Save" && (p.Get("wpath", nil) != "" || p.Get("open", nil) != "") {
			if p.Get("unflushed", nil) != "" {
				r.fail("not-flushed", p, pos, "success is reported although the buffered snapshot was not flushed")
			} else if p.Get("durable", nil) == "" {
				r.fail("not-durable", p, pos, "success is reported although neither Sync nor Close of the written file was seen to succeed")
			}
		}
		k := map[string]string{"Save": "wpath", "Load": "rpath"}[r.op]
		if s := p.Get(k, nil); s != "" {
			if !strings.Contains(s, "SnapshotName") {
				r.fail("path", p, pos, "the file of a snapshot does not depend on the projection's name")
			}
			r.path[r.op] = s
		}
	}
}

// ---------------------------------------------------------------- the server

func isSnapStore(P *Prog, c *Call, names ...string) bool {
	if c.M == nil || c.Fn != nil || !in(c.M.Name(), names...) {
		return false
	}
	n := recvNamed(c.M)
	return n != nil && isNamedIn(n, modPath+"/pkg/projection", "SnapshotStore")
}

func isNewSub(P *Prog, name string) bool {
	return in(name, "AllEventsSubscription", "AggregateTypesSubscription")
}

func statsResume(P *Prog, R *Report) {
	sites := callSites(P, func(f *ssa.Function, c *Call) bool { return isSnapStore(P, c, "Load") })
	callers := staticCallers(P)
	roots := map[*ssa.Function]bool{}
	for f := range sites {
		if strings.HasSuffix(pkgOf(f).Path(), "/pkg/projection") {
			continue
		}
		for _, g := range climb(f, callers) {
			roots[g] = true
		}
	}
	if len(roots) == 0 {
		R.Fail("no-resume", token.NoPos, "nothing loads a snapshot", nil)
	}
	// functions that matter: from which one of the calls is reached
	relevant := map[*ssa.Function]bool{}
	for f := range callSites(P, func(f *ssa.Function, c *Call) bool {
		return isSnapStore(P, c, "Load", "Save") || c.M != nil && (isNewSub(P, c.M.Name()) || in(c.M.Name(), "Start", "StartFrom") || statsGetters[c.M.Name()] != "")
	}) {
		relevant[f] = true
	}
	for ch := true; ch; {
		ch = false
		for f, cs := range callers {
			if !relevant[f] {
				continue
			}
			for _, c := range cs {
				if !relevant[c] {
					relevant[c] = true
					ch = true
				}
			}
		}
	}
	var list []*ssa.Function
	for f := range roots {
		list = append(list, f)
	}
	sort.Slice(list, func(i, j int) bool { return list[i].String() < list[j].String() })
	for _, f := range list {
		r := &resumeRule{P: P, R: R, root: f, name: FnName(f), relevant: relevant}
		e := NewEngine(P, r)
		e.RunRoot(f, nil)
		R.Engine(e, r.name)
	}
}

type resumeRule struct {
	Base
	P        *Prog
	R        *Report
	root     *ssa.Function
	name     string
	relevant map[*ssa.Function]bool
}

func (r *resumeRule) fail(key string, p *Path, pos token.Pos, msg string) {
	r.R.Fail(key+":"+r.name, pos, r.name+": "+msg, p)
}

func (r *resumeRule) Inline(p *Path, c *Call) bool {
	if c.M != nil && statsGetters[c.M.Name()] != "" {
		return false
	}
	if c.Fn != nil && c.Fn.Signature.Recv() == nil && strings.HasSuffix(pkgOf(c.Fn).Path(), "/pkg/projection") {
		return true
	}
	return r.relevant[c.Fn]
}

func (r *resumeRule) getter(v *Val) (role string, proj *Val) {
	if v != nil && v.K == KCall && v.M != nil && len(v.Args) > 0 {
		if role := statsGetters[v.M.Name()]; role != "" {
			return role, v.Args[0]
		}
	}
	return "", nil
}

func (r *resumeRule) Model(p *Path, c *Call) []Outcome {
	switch {
	case isSnapStore(r.P, c, "Load"):
		return errFork(func(q *Path, res *Val) {
			q.SetV("loaded", c.Args[1], "ok", c.Args[1])
		}, func(q *Path, res *Val) {
			q.SetV("loaded", c.Args[1], "failed", c.Args[1])
		})
	case c.M != nil && c.Fn == nil && in(c.M.Name(), "StartFrom", "Start") && hasErr(c):
		return errFork(nil, func(q *Path, res *Val) { q.SetV("startfailed", nil, "1", q.ErrOf(res)) })
	case isSnapStore(r.P, c, "Save"):
		return errFork(nil, nil)
	}
	if role := ""; c.M != nil {
		role = statsGetters[c.M.Name()]
		if role != "" {
			return []Outcome{{Opaque: true, After: func(q *Path, res *Val) bool {
				if q.Get("loaded", c.Args[0]) != "" {
					q.SetV("after", res, role, c.Args[0])
				}
				return true
			}}}
		}
	}
	return nil
}

func (r *resumeRule) Event(p *Path, ev *Ev) {
	pos := ev.Instr.Pos()
	switch ev.K {
	case EvBranch:
		c := ev.Val
		if c.K != KEq && c.K != KLt {
			return
		}
		for i, a := range c.Args {
			role, proj := r.getter(a)
			if proj == nil || role == "types" {
				continue
			}
			b := c.Args[1-i]
			// known to be zero
			if c.K == KEq && isInt(b, 0) && ev.Bool || c.K == KLt && i == 1 && isInt(b, 0) && !ev.Bool || c.K == KLt && i == 0 && isInt(b, 1) && ev.Bool {
				p.SetV("empty", proj, "1", proj)
			}
		}
	case EvCall:
		c := ev.Call
		switch {
		case c.M != nil && c.Fn == nil && isNewSub(r.P, c.M.Name()):
		case c.M != nil && c.Fn == nil && in(c.M.Name(), "StartFrom", "Start"):
			r.start(p, c, pos)
		case isSnapStore(r.P, c, "Save"):
			if p.Get("started", c.Args[1]) == "" && p.Get("loaded", c.Args[1]) == "" {
				r.fail("save-other", p, pos, "a snapshot is saved of a projection that was neither loaded nor started")
			}
		case isSnapStore(r.P, c, "Load"):
			if p.Get("started", c.Args[1]) != "" {
				r.fail("load-late", p, pos, "the snapshot is loaded into a projection that already receives records")
			}
		}
	case EvExit:
		if p.Get("startfailed", nil) != "" {
			n := len(ev.Res_)
			if n == 0 || !isErrorType(r.root.Signature.Results().At(n-1).Type()) || p.NilState(ev.Res_[n-1]) != -1 {
				r.fail("start-failure", p, pos, "the projection's subscription could not be started, which is not reported")
			}
			return
		}
		for k, v := range p.RS {
			if k.S == "loaded" && v.S == "ok" && p.Get("started", k.V) == "" {
				n := len(ev.Res_)
				if n > 0 && isErrorType(r.root.Signature.Results().At(n-1).Type()) && p.NilState(ev.Res_[n-1]) == -1 {
					continue
				}
				r.fail("not-started", p, pos, "a projection is loaded from a snapshot but its subscription is not started")
			}
		}
	}
}

func (r *resumeRule) start(p *Path, c *Call, pos token.Pos) {
	s := c.Args[0]
	var proj *Val
	all := false
	s.Any(func(x *Val) bool {
		if x.K == KCall && x.M != nil && isNewSub(r.P, x.M.Name()) {
			all = x.M.Name() == "AllEventsSubscription"
			for _, a := range x.Args {
				if a != nil && a.T != nil && p.dynProjection(a) {
					proj = a
				}
			}
			return true
		}
		return false
	})
	if proj == nil {
		return
	}
	r.R.Obl(ruleStatsResume, r.P.Pos(pos))
	if !all {
		r.fail("not-all", p, pos, "the projection does not receive the events of all aggregate types")
	}
	if p.Get("started", proj) != "" {
		r.fail("started-twice", p, pos, "the projection is subscribed twice: records are counted twice")
	}
	p.SetV("started", proj, "1", proj)
	if c.M.Name() == "Start" {
		r.fail("live-only", p, pos, "the projection receives new records only: stored ones are not counted")
		return
	}
	n := c.Args[1]
	loaded := p.Get("loaded", proj)
	if len(r.otherLoaded(p, proj)) > 0 && loaded == "" {
		r.fail("other", p, pos, "the projection that is started is not the one the snapshot was loaded into")
	}
	if n.K == KConst && n.C.Kind() == constant.Int {
		if i, ok := constant.Uint64Val(n.C); !ok || i > 1 {
			r.fail("skips", p, pos, "the projection does not start at the first record")
		}
		if loaded == "ok" && p.Get("empty", proj) == "" {
			r.fail("counts-again", p, pos, "the projection starts at the first record although a snapshot was loaded: records are counted twice")
		}
		return
	}
	b := plusOne(n)
	role, q := r.getter(b)
	if role != "latest" || q != proj {
		r.fail("position", p, pos, "the projection does not resume from the position after the latest one of the snapshot")
		return
	}
	if p.Get("after", b) == "" && loaded != "" {
		r.fail("position-early", p, pos, "the position to resume from is read before the snapshot is loaded")
	}
}

func (r *resumeRule) otherLoaded(p *Path, proj *Val) []string {
	var out []string
	for k := range p.RS {
		if k.S == "loaded" && k.V != proj {
			out = append(out, "x")
		}
	}
	return out
}

// dynProjection: is the value a snapshot projection?
func (p *Path) dynProjection(v *Val) bool {
	it := p.E.P.Iface("pkg/projection", "SnapshotProjection")
	if it == nil || v.T == nil {
		return false
	}
	return types.Implements(v.T, it)
}
