package main

import (
	"go/token"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Whole records that are encoded or decoded by a library, and the types whose fields libraries name.

func isEncode(name string) bool {
	return name == "encoding/json.Marshal" || name == "encoding/json.MarshalIndent" || strings.HasSuffix(name, "Encoder).Encode") ||
		strings.HasSuffix(name, "msgpack/v4.Marshal") || strings.HasSuffix(name, "msgpack/v5.Marshal") || strings.HasSuffix(name, "msgpack.Marshal") || strings.HasSuffix(name, "Conn).WriteJSON")
}

func isDecode(name string) bool {
	return name == "encoding/json.Unmarshal" || strings.HasSuffix(name, "Decoder).Decode") || strings.HasSuffix(name, "msgpack/v4.Unmarshal")
}

func isRecord(t types.Type) bool { return t != nil && isNamedIn(derefT(t), modPath, "Record") }

// carriesRecord: is t a record, or a message with a record in it?
func carriesRecord(t types.Type) bool {
	if isRecord(t) {
		return true
	}
	st := structOf(t)
	if st == nil {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if isRecord(st.Field(i).Type()) {
			return true
		}
	}
	return false
}

// coders are the functions that encode records with a library, and those that decode them.
func coders(P *Prog) (enc, dec []*ssa.Function) {
	for _, f := range P.Funcs {
		if pkgOf(f) == nil || IsTestSupport(pkgOf(f).Path()) || isExample(f) {
			continue
		}
		e, d := false, false
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				ci, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := ci.Common().StaticCallee()
				if g == nil {
					continue
				}
				name := g.String()
				for _, a := range ci.Common().Args {
					mi, ok := a.(*ssa.MakeInterface)
					if !ok || !carriesRecord(mi.X.Type()) {
						continue
					}
					e = e || isEncode(name)
					d = d || isDecode(name) && isRecord(mi.X.Type())
				}
			}
		}
		if e {
			enc = append(enc, f)
		}
		if d {
			dec = append(dec, f)
		}
	}
	return
}

// coderRule: a record is encoded with all its fields (its event data possibly after the rest), and a decoded record is
// handed out with all the fields it was decoded with.
type coderRule struct {
	Base
	P    *Prog
	R    *Report
	name string
	root *ssa.Function
	dec  bool
}

func (r *coderRule) Inline(p *Path, c *Call) bool { return true }

func (r *coderRule) fail(p *Path, key string, pos token.Pos, msg string) {
	if !pos.IsValid() {
		pos = r.root.Pos()
	}
	r.R.Fail(key+":"+r.name, pos, r.name+": "+msg, p)
}

func (r *coderRule) Model(p *Path, c *Call) []Outcome {
	if isDecode(c.Name()) && len(c.Args) == 2 && c.Args[1] != nil {
		src, dst := source(c.Args[0]), c.Args[1]
		out := errFork(nil, nil)
		af := out[0].After
		out[0].After = func(q *Path, res *Val) bool {
			if local(dst) {
				if isRecord(dst.T) {
					if d := q.FieldOf(dst, "Data"); d != nil && local(d) {
						q.store(d, decodedOf(q, src, elemType(d.T)))
						q.Set("filled", d, "1")
					}
					q.Set("whole", dst, "1")
				}
				q.store(dst, decodedOf(q, src, elemType(dst.T)))
			}
			q.Set("filled", dst, "1")
			return af(q, res)
		}
		return out
	}
	if isEncode(c.Name()) {
		return errFork(nil, nil)
	}
	if failing(r.P, c) {
		return errFork(nil, nil)
	}
	return nil
}

func (r *coderRule) SelectCase(p *Path, ev *Ev, i int) bool { return true }

func (r *coderRule) Event(p *Path, ev *Ev) {
	pos := token.NoPos
	if ev.Instr != nil {
		pos = ev.Instr.Pos()
	}
	switch ev.K {
	case EvGo:
		p.E.RunGo(p, ev.Call, map[RK]RV{{"inGo", nil}: {S: "1"}})
	case EvCall:
		if r.dec || !isEncode(ev.Call.Name()) || len(ev.Call.Args) == 0 {
			return
		}
		r.encode(p, ev.Call.Args[len(ev.Call.Args)-1], pos)
	case EvExit:
		n := len(ev.Res_)
		if n == 0 || n > 1 && p.NilState(ev.Res_[n-1]) == -1 {
			return
		}
		if p.Get("owed", nil) != "" {
			r.fail(p, "data-missing", pos, "a record is encoded without its event data")
		}
		if r.dec {
			for _, x := range ev.Res_ {
				r.decoded(p, x, pos)
			}
		}
	}
}

func (r *coderRule) encode(p *Path, v *Val, pos token.Pos) {
	if v == nil {
		return
	}
	if owed := p.GetV("owed", nil); owed != nil && reads(v, owed, "Data") {
		p.Del("owed", nil)
		return
	}
	if !carriesRecord(v.T) {
		return
	}
	if !isRecord(v.T) {
		st := structOf(v.T)
		for i := 0; i < st.NumFields(); i++ {
			if isRecord(st.Field(i).Type()) {
				v = p.FieldOf(v, st.Field(i).Name())
				break
			}
		}
	}
	r.R.Obl("an encoded record is whole", r.name+" "+r.P.Pos(pos))
	if v == nil {
		return
	}
	if _, ptr := v.T.(*types.Pointer); ptr && !local(v) {
		return // the record itself
	}
	if v.K == KLoad {
		return
	}
	var base *Val
	noData := false
	for _, c := range canonFields {
		x := p.FieldOf(v, c)
		b, n := fieldRead(x)
		if c == "Data" && x != nil && p.NilState(x) == 1 {
			noData = true
			continue
		}
		if b == nil || n != c {
			r.fail(p, "encoded-"+c, pos, "the encoded record's "+c+" is not the record's")
			continue
		}
		if b.K == KLoad && len(b.Args) > 0 {
			b = b.Args[0]
		}
		if base == nil {
			base = b
		} else if b != base {
			r.fail(p, "encoded-mixed", pos, "fields of different records are encoded as one")
		}
	}
	if noData && base != nil {
		p.SetV("owed", nil, "1", base)
	}
}

func (r *coderRule) decoded(p *Path, v *Val, pos token.Pos) {
	if v == nil || !isRecord(v.T) || !local(v) {
		return
	}
	if p.Get("whole", v) == "" {
		r.fail(p, "not-decoded", pos, "the record handed out was not decoded")
		return
	}
	r.R.Obl("a decoded record is whole", r.name)
	for _, c := range canonFields {
		x := p.FieldOf(v, c)
		if c == "Data" {
			if x == nil || p.Get("filled", x) == "" && !(x.K == KBuiltin && x.Op == "decoded") {
				r.fail(p, "decoded-Data", pos, "the event data handed out was not decoded")
			}
			continue
		}
		if b, n := fieldRead(x); b == nil || n != c || !(b.K == KBuiltin && b.Op == "decoded") {
			r.fail(p, "decoded-"+c, pos, "the record's "+c+" is not the decoded one")
		}
	}
}

// fieldNames: the names libraries use for the fields of a representation are distinct, present, and those of the field.
func fieldNames(P *Prog, R *Report) {
	for _, pk := range P.Pkgs {
		if IsTestSupport(pk.PkgPath) || !strings.HasPrefix(pk.PkgPath, modPath) {
			continue
		}
		sc := pk.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || roleFields(tn.Type()) == nil {
				continue
			}
			st := structOf(tn.Type())
			for _, kind := range []string{"json", "msgpack"} {
				seen := map[string]string{}
				for i := 0; i < st.NumFields(); i++ {
					f := st.Field(i)
					if fieldCanon(st, i) == "" {
						continue
					}
					tag, has := reflect.StructTag(st.Tag(i)).Lookup(kind)
					name := strings.Split(tag, ",")[0]
					if !has || name == "" {
						name = f.Name()
					}
					R.Obl("fields are named for what they hold", pk.PkgPath+"."+n+"."+f.Name()+" "+kind)
					key := n + "." + f.Name() + "-" + kind
					switch {
					case name == "-":
						R.Fail("left-out:"+key, f.Pos(), n+"."+f.Name()+" is left out of its "+kind+" form", nil)
					case seen[strings.ToLower(name)] != "":
						R.Fail("same-name:"+key, f.Pos(), n+"."+f.Name()+" has the same "+kind+" name as "+seen[strings.ToLower(name)], nil)
					case kind == "json" && canon(name) != canon(f.Name()):
						R.Fail("misnamed:"+key, f.Pos(), n+"."+f.Name()+" is called "+name+" in its "+kind+" form", nil)
					}
					if st.Field(i).Exported() {
						seen[strings.ToLower(name)] = f.Name()
					}
				}
			}
		}
	}
}

// rawEvents: an event made from its parts gives back those parts.
func rawEvents(P *Prog, R *Report) {
	f := P.Func("", "NewRawEvent")
	if f == nil {
		return
	}
	r := &rawRule{P: P, R: R, holds: map[string]string{}}
	r.name = FnName(f)
	e := NewEngine(P, r)
	e.RunRoot(f, func(p *Path, params []*Val) { r.params = params })
	R.Engine(e, r.name)
	if r.typ == nil {
		R.Fail("raw-type", f.Pos(), "NewRawEvent does not return an event of one known type", nil)
		return
	}
	for _, m := range []string{"AggregateType", "AggregateID", "EventType", "MarshalJSON"} {
		g := P.Method(r.typ, m)
		if g == nil {
			continue
		}
		r.want = m
		r.name = FnName(g)
		e := NewEngine(P, r)
		e.RunRoot(g, func(p *Path, params []*Val) {
			r.recv = params[0]
			if _, ok := r.recv.T.(*types.Pointer); ok {
				p.SetNil(r.recv, false)
			}
		})
		R.Engine(e, r.name)
	}
	R.Need("an event gives back what it was made of", 4)
}

type rawRule struct {
	Base
	P      *Prog
	R      *Report
	name   string
	params []*Val
	typ    *types.Named
	holds  map[string]string // field -> accessor
	want   string
	recv   *Val
}

func (r *rawRule) Inline(p *Path, c *Call) bool { return true }

func (r *rawRule) Event(p *Path, ev *Ev) {
	if ev.K != EvExit || len(ev.Res_) == 0 {
		return
	}
	v := ev.Res_[0]
	pos := ev.Instr.Pos()
	if r.want == "" {
		if v == nil || v.T == nil || structOf(v.T) == nil {
			return
		}
		r.typ = namedOf(derefT(v.T))
		st := structOf(v.T)
		for i := 0; i < st.NumFields(); i++ {
			x := p.FieldOf(v, st.Field(i).Name())
			for k, n := range []string{"AggregateType", "AggregateID", "EventType", "MarshalJSON"} {
				if k < len(r.params) && x == r.params[k] {
					r.holds[st.Field(i).Name()] = n
				}
			}
		}
		return
	}
	x := v
	if r.want == "MarshalJSON" {
		if len(ev.Res_) > 1 && p.NilState(ev.Res_[1]) == -1 {
			return
		}
		for x != nil && x.K == KExtract {
			x = x.Args[0]
		}
		if x == nil || x.K != KCall || x.FullName() != "encoding/json.Marshal" {
			r.R.Fail("raw-accessor:"+r.want, pos, r.name+": not the JSON of the event's data", p)
			return
		}
		x = x.Args[0]
	}
	_, n := fieldRead(x)
	if r.holds[n] != r.want {
		r.R.Fail("raw-accessor:"+r.want, pos, r.name+" does not return what the event was made of", p)
		return
	}
	r.R.Obl("an event gives back what it was made of", r.name)
}

func codersKept(P *Prog, R *Report) {
	enc, dec := coders(P)
	for _, f := range enc {
		r := &coderRule{P: P, R: R, root: f, name: FnName(f)}
		e := NewEngine(P, r)
		e.RunRoot(f, nil)
		R.Engine(e, r.name)
	}
	for _, f := range dec {
		r := &coderRule{P: P, R: R, root: f, name: FnName(f), dec: true}
		e := NewEngine(P, r)
		e.RunRoot(f, nil)
		R.Engine(e, r.name)
	}
	R.Need("an encoded record is whole", 3)
	R.Need("a decoded record is whole", 2)
	R.Need("fields are named for what they hold", 20)
}
