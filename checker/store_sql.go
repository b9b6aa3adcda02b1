package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- numbers of a record (C04)

// isSSN: one more than the stream's current number.
func (r *storeRule) isSSN(p *Path, v *Val) bool {
	if v == nil {
		return false
	}
	one := func(x *Val) bool { return x.K == KConst && isInt(x, 1) }
	if v.K == KConst {
		return one(v) && p.Get("absnow", nil) == "1"
	}
	k := int64(0)
	b := v
	if v.K == KBin && v.Op == "+" {
		if n, ok := intOf(v.Args[1]); ok {
			b, k = v.Args[0], n
		}
	}
	if ph := phiOf(b); ph != nil {
		return onlySteps(r.loops.Step[ph], "+1") && r.startsAt(p, ph, 1-k)
	}
	if k != 1 {
		// current + position in the batch + 1 is written (c + i) + 1
		return false
	}
	if r.isC(p, b) {
		return true
	}
	if b.K == KBin && b.Op == "+" {
		for j := 0; j < 2; j++ {
			if r.isC(p, b.Args[j]) && r.roundIndex(b.Args[1-j]) {
				return true
			}
		}
	}
	return false
}

// numbered: an element gets a stream number; two elements never get the same.
func (r *storeRule) numbered(p *Path, rec, ssn *Val, pos token.Pos) {
	var base *Val
	if ssn != nil && ssn.K == KBin && ssn.Op == "+" && !ssn.Any(func(x *Val) bool { return phiOf(x) != nil }) {
		base = ssn.Args[0]
	}
	if old := p.GetV("ssnbase", nil); base != nil && old == base && (rec == nil || p.GetV("ssnrec", nil) != rec) {
		r.fail("C04", "stream-number-twice", p, pos, "several records of a batch get the same stream sequence number: "+ssn.String())
	}
	p.SetV("ssnbase", nil, "1", base)
	p.SetV("ssn", nil, "1", ssn)
	if rec != nil {
		p.SetV("ssnrec", nil, "1", rec)
	}
	p.Del("absnow", nil)
	p.Del("ssnold", nil)
}

// noStream: the stream was found to have no events.
func (r *storeRule) noStream(p *Path) {
	p.Set("absent", nil, "1")
	p.Set("absnow", nil, "1")
}

func intOf(v *Val) (int64, bool) {
	if v == nil || v.K != KConst || v.C == nil || v.C.Kind() != constant.Int {
		return 0, false
	}
	n, ok := constant.Int64Val(v.C)
	return n, ok
}

// startsAt: the loop variable always starts d above the stream's current number.
func (r *storeRule) startsAt(p *Path, ph *ssa.Phi, d int64) bool {
	any := false
	for _, abs := range []bool{false, true} {
		m := cInits[initKey{ph, abs}]
		if abs && p.Get("absent", nil) == "" || m == nil {
			continue
		}
		if !abs && p.Get("absent", nil) == "1" && cInits[initKey{ph, true}] != nil {
			continue
		}
		for x := range m {
			if x != d {
				return false
			}
			any = true
		}
	}
	return any
}

type initKey struct {
	ph  *ssa.Phi
	abs bool
}

// roundIndex: 0, 1, 2, ... over a list of events.
func (r *storeRule) roundIndex(v *Val) bool {
	off := 0
	if v.K == KBin && v.Op == "+" && isInt(v.Args[1], 1) {
		v, off = v.Args[0], 1
	}
	in, st, ok := r.loops.Carried(v)
	if !ok || !onlySteps(st, "+1") {
		return false
	}
	for x := range in {
		if !isInt(x, int64(-off)) {
			return false
		}
	}
	return true
}

func (r *storeRule) cInit(p *Path, ph *ssa.Phi) bool { return r.startsAt(p, ph, 0) }

// cInits: how far above the stream's current number a loop variable starts (unknownInit if something else).
var cInits = map[initKey]map[int64]bool{}

const unknownInit = int64(1) << 40

// noteInit remembers where a loop variable starts, relative to the stream's current number.
func (r *storeRule) noteInit(p *Path, ev *Ev) {
	if ev.K != EvPhiStep || !ev.Bool {
		return
	}
	ph := ev.Instr.(*ssa.Phi)
	abs := p.Get("absent", nil) == "1"
	d := unknownInit
	if v := ev.Val; v != nil {
		if n, ok := intOf(v); ok {
			if abs {
				d = n
			}
		} else if r.isC(p, v) {
			d = 0
		} else if v.K == KBin && v.Op == "+" {
			if n, ok := intOf(v.Args[1]); ok && r.isC(p, v.Args[0]) {
				d = n
			}
		}
	}
	key := initKey{ph, abs}
	if cInits[key] == nil {
		cInits[key] = map[int64]bool{}
	}
	cInits[key][d] = true
}

// serialized: a record has been turned into what will be stored.
func (r *storeRule) serialized(p *Path, c *Call, res *Val) {
	if len(c.Args) < 2 || !r.isSave() {
		return
	}
	rec := c.Args[1]
	pos := c.Instr.Pos()
	n := namedOf(rec.T)
	if rec.K != KAlloc || n == nil || n.Obj().Name() != "Record" {
		r.fail("C04", "record", p, pos, "the stored record is not one made by this operation")
		return
	}
	r.obl("C04", "the stored record carries the next stream number", r.P.Pos(pos))
	ssn, gsn := p.FieldOf(rec, "StreamSequenceNumber"), p.FieldOf(rec, "GlobalSequenceNumber")
	if !r.isSSN(p, ssn) {
		r.fail("C04", "stream-number", p, pos, "the stored record's stream sequence number is not one more than the stream's current one: "+ssn.String())
	}
	r.numbered(p, nil, ssn, pos)
	p.SetV("gsn", nil, "1", gsn)
	p.SetV("data", nil, "1", p.ResOf(res, 0))
	r.obl("C04", "the stored record carries the next global number", r.P.Pos(pos))
	r.checkGSN(p, gsn, pos)
	r.obl("C05", "the stored record carries its stream and aggregate type", r.P.Pos(pos))
	if p.FieldOf(rec, "StreamName") != r.stream {
		r.fail("C05", "record-stream", p, pos, "the stored record does not carry the name of the stream it is saved to")
	}
	at := p.FieldOf(rec, "AggregateType")
	if at == nil || r.keyClass(p, at) != "aggregateType" {
		r.fail("C05", "record-type", p, pos, "the stored record does not carry the aggregate type of its event")
	}
}

// counterRead: v is the stored global counter, read by this operation where it excludes others.
func (r *storeRule) counterRead(p *Path, v *Val) bool {
	if v == nil {
		return false
	}
	switch r.st.Kind {
	case "memory":
		return r.recvField(v) != nil && isIntT(v.T) && p.Get("stale", v) != "1"
	case "leveldb":
		return v.Any(func(x *Val) bool { return r.isGet(x) })
	}
	return false
}

// gInits: how far above the stored global counter a loop variable starts.
var gInits = map[*ssa.Phi]map[int64]bool{}

func (r *storeRule) noteGInit(p *Path, ev *Ev) {
	if ev.K != EvPhiStep || !ev.Bool || ev.Val == nil {
		return
	}
	ph := ev.Instr.(*ssa.Phi)
	d := unknownInit
	if r.counterRead(p, ev.Val) {
		d = 0
	} else if ev.Val.K == KBin && ev.Val.Op == "+" {
		if n, ok := intOf(ev.Val.Args[1]); ok && r.counterRead(p, ev.Val.Args[0]) {
			d = n
		}
	} else if n, ok := intOf(ev.Val); ok && r.st.Kind == "leveldb" && p.Get("nocounter", nil) == "1" {
		d = n
	}
	if gInits[ph] == nil {
		gInits[ph] = map[int64]bool{}
	}
	gInits[ph][d] = true
}

func (r *storeRule) checkGSN(p *Path, g *Val, pos token.Pos) {
	if r.st.Kind != "memory" && r.st.Kind != "leveldb" {
		return
	}
	b, k := g, int64(0)
	if g.K == KBin && g.Op == "+" {
		if n, ok := intOf(g.Args[1]); ok {
			b, k = g.Args[0], n
		}
	}
	ok := false
	if ph := phiOf(b); ph != nil && onlySteps(r.loops.Step[ph], "+1") {
		ok = len(gInits[ph]) > 0
		for d := range gInits[ph] {
			if d+k != 1 {
				ok = false
			}
		}
		if ok {
			// the key it is stored under was noted when it was read
			return
		}
	}
	if old := p.GetV("gsnbase", nil); old != nil && old == b && k == 1 && !b.Any(func(x *Val) bool { return phiOf(x) != nil }) {
		r.fail("C04", "global-number-twice", p, pos, "several records of a batch get the same global sequence number: "+g.String())
	}
	if k == 1 {
		p.SetV("gsnbase", nil, "1", b)
	}
	switch r.st.Kind {
	case "memory":
		if k == 1 {
			if f := r.recvField(b); f != nil && isIntT(b.T) {
				p.SetV("gsnf", nil, "1", f)
				return
			}
			// after the counter was moved in the same round: counter stored as x+1, record gets x+1
		}
		for a, v := range p.mem {
			if v == g && a.K == KFieldAddr && a.Args[0] == r.recv && isIntT(g.T) && k == 1 {
				return
			}
		}
		r.fail("C04", "global-number", p, pos, "the stored record's global sequence number is not one more than the stored counter: "+g.String())
	case "leveldb":
		ok := false
		if k == 1 {
			ok = b.Any(func(x *Val) bool { return r.isGet(x) })
		} else if isInt(g, 1) {
			ok = p.Get("nocnow", nil) == "1"
		}
		if !ok {
			r.fail("C04", "global-number", p, pos, "the stored record's global sequence number is not one more than the stored counter: "+g.String())
			return
		}
		p.Del("nocnow", nil)
		b.Any(func(x *Val) bool {
			r.noteCounter(p, x, pos)
			return false
		})
	}
}

// noteCounter remembers the key the global counter is read from.
func (r *storeRule) noteCounter(p *Path, x *Val, pos token.Pos) {
	if !r.isGet(x) {
		return
	}
	if k := r.flatKey(p, x.Args[1]); k != "" {
		p.Set("gsnkey", nil, k)
	}
	if x.M.Name() == "Get" && recvTypeName(x.M) == "DB" {
		r.fail("C04", "global-number-stale", p, pos, "the global counter is not read through the transaction, so a batch would use one number twice")
	}
}

func (r *storeRule) isGet(x *Val) bool {
	return x.K == KCall && x.M != nil && x.M.Name() == "Get" && x.M.Pkg() != nil && x.M.Pkg().Path() == pkgLevelDB
}

// returned: the number a successful save reports is that of its last record.
func (r *storeRule) returned(p *Path, v *Val, pos token.Pos) {
	if r.collect {
		return
	}
	r.obl("C04", "the save returns its last record's stream number", r.P.Pos(pos))
	if s := p.GetV("ssn", nil); s != nil && v == s {
		return
	}
	if ph := phiOf(v); ph != nil {
		if p.Get("ssnphi", r.P.T.mk(Val{K: KBuiltin, Op: "phi", Site: ph})) == "1" {
			return
		}
		if r.st.Kind == "postgres" && r.cInit(p, ph) && onlySteps(r.loops.Step[ph], "+1") {
			return
		}
	}
	if v.K == KLoad && v.Args[0].K == KFieldAddr && v.Args[0].Op == "StreamSequenceNumber" {
		if l, _ := elemOf(v.Args[0].Args[0]); l != nil && r.isList(l) {
			return
		}
	}
	// current + number of events
	if v.K == KBin && v.Op == "+" {
		for j := 0; j < 2; j++ {
			if (r.isC(p, v.Args[j]) || phiOf(v.Args[j]) != nil && r.cInit(p, phiOf(v.Args[j]))) && v.Args[1-j].K == KLen && r.isList(v.Args[1-j].Args[0]) {
				return
			}
		}
	}
	r.fail("C04", "returned-number", p, pos, "a successful save returns something else than the stream sequence number of its last record: "+v.String())
}

// ---------------------------------------------------------------- PostgreSQL statements

var (
	reInsert = regexp.MustCompile(`(?is)^\s*INSERT\s+INTO\s+record\s*\(([^)]*)\)\s*VALUES`)
	reDelete = regexp.MustCompile(`(?is)^\s*DELETE\s+FROM\s+record\s+WHERE\s+StreamName\s*=\s*\$1\s*;?\s*$`)
)

func (r *storeRule) sqlWriteText(p *Path, c *Call, text, verb string, i int) {
	pos := c.Instr.Pos()
	switch {
	case verb == "INSERT":
		m := reInsert.FindStringSubmatch(text)
		if m == nil {
			r.fail("C05", "insert-text", p, pos, "the insert's column list is not a constant of the program")
			return
		}
		cols := splitCols(m[1])
		r.obl("C05", "the insert fills every column that is read", r.P.Pos(pos))
		r.obl("C04", "the database assigns the global number", r.P.Pos(pos))
		want := map[string]bool{}
		for _, f := range recordFields {
			want[strings.ToLower(f)] = true
		}
		for _, k := range cols {
			if strings.EqualFold(k, "GlobalSequenceNumber") {
				r.fail("C04", "insert-global-number", p, pos, "the insert sets the global sequence number instead of leaving it to the database's sequence")
			}
			delete(want, strings.ToLower(k))
		}
		delete(want, "globalsequencenumber")
		for k := range want {
			r.fail("C05", "insert-column:"+k, p, pos, "the insert does not fill column "+k)
		}
		// the bound values
		list := c.Args[len(c.Args)-1]
		rows := r.rowsOf(list)
		if len(rows) == 0 && !r.collect {
			r.fail("C05", "insert-values", p, pos, "the values bound to the insert are not recognised")
		}
		for _, row := range rows {
			if len(row) != len(cols) {
				r.fail("C05", "insert-count", p, pos, "the insert binds another number of values per event than it has columns")
				continue
			}
			for k, v := range row {
				r.checkColumn(p, cols[k], v, pos)
			}
		}
	case verb == "DELETE":
		r.obl("C05", "the delete is filtered by equality on the stream name", r.P.Pos(pos))
		xa := p.XArgs(c)
		a := xa[len(xa)-1]
		if !reDelete.MatchString(text) || a.K != KTuple || len(a.Args) != 1 || a.Args[0] != r.stream {
			r.fail("C05", "delete-filter", p, pos, "the delete is not exactly filtered by equality on the stream name")
		}
		if r.isSave() {
			r.fail("C02", "save-deletes", p, pos, "a save deletes records")
		}
	default:
		if !advLock.MatchString(text) {
			r.fail("C05", "statement:"+verb, p, pos, "executes a statement that is neither the insert nor the delete of records: "+verb)
		}
	}
}

func splitCols(s string) []string {
	var out []string
	for _, k := range strings.Split(s, ",") {
		out = append(out, strings.Trim(strings.TrimSpace(k), `"`))
	}
	return out
}

// rowsOf: the groups of values appended to a bound list.
func (r *storeRule) rowsOf(list *Val) [][]*Val {
	if ph := phiOf(list); ph != nil {
		return r.rows()[ph]
	}
	if list.K == KAppend {
		out := [][]*Val{list.Args[2:]}
		return append(out, r.rowsOf(list.Args[0])...)
	}
	return nil
}

var rowTab = map[*ssa.Phi][][]*Val{}

func (r *storeRule) rows() map[*ssa.Phi][][]*Val { return rowTab }

func (r *storeRule) noteRow(ev *Ev) {
	if ev.K != EvPhiStep || ev.Bool || ev.Val == nil || ev.Val.K != KAppend || len(ev.Val.Args) < 3 {
		return
	}
	ph := ev.Instr.(*ssa.Phi)
	row := ev.Val.Args[2:]
	// appended one by one: join up to the old value
	for b := ev.Val.Args[0]; b != ev.Old && b != nil && b.K == KAppend; b = b.Args[0] {
		row = append(append([]*Val{}, b.Args[2:]...), row...)
	}
next:
	for _, x := range rowTab[ph] {
		if len(x) != len(row) {
			continue
		}
		for i := range x {
			if x[i] != row[i] {
				continue next
			}
		}
		return
	}
	rowTab[ph] = append(rowTab[ph], row)
}

func (r *storeRule) checkColumn(p *Path, col string, v *Val, pos token.Pos) {
	r.obl("C05", "each column is bound to the field of the same name", col)
	if v == nil {
		return
	}
	name := ""
	switch {
	case v.K == KLoad && v.Args[0].K == KFieldAddr:
		name = v.Args[0].Op
	case v.K == KField:
		name = v.Op
	default:
		return
	}
	if strings.EqualFold(name, col) {
		return
	}
	for _, f := range recordFields {
		if strings.EqualFold(f, name) {
			r.fail("C05", "column:"+strings.ToLower(col), p, pos, "column "+col+" is bound to field "+name)
			r.fail("C18", "column:"+strings.ToLower(col), p, pos, "column "+col+" is bound to field "+name)
		}
	}
}

// noteSQLElem: records prepared for the insert carry consecutive stream numbers and the right names.
func (r *storeRule) noteSQLElem(p *Path, ev *Ev) {
	if r.st.Kind != "postgres" || ev.K != EvAppend {
		return
	}
	for _, e := range ev.Elems {
		if e == nil || e.K != KAlloc {
			continue
		}
		s := p.FieldOf(e, "StreamSequenceNumber")
		if s == nil {
			continue
		}
		pos := ev.Instr.Pos()
		r.obl("C04", "the stored record carries the next stream number", r.P.Pos(pos))
		if !r.isSSN(p, s) {
			r.fail("C04", "stream-number", p, pos, "the stored record's stream sequence number is not one more than the stream's current one: "+s.String())
		}
		r.numbered(p, e, s, pos)
		if v := p.FieldOf(e, "StreamName"); v != nil && v != r.stream {
			r.fail("C05", "record-stream", p, pos, "the stored record does not carry the name of the stream it is saved to")
		}
		if v := p.FieldOf(e, "AggregateType"); v != nil && r.keyClass(p, v) != "aggregateType" {
			r.fail("C05", "record-type", p, pos, "the stored record does not carry the aggregate type of its event")
		}
		if v := p.FieldOf(e, "AggregateID"); v != nil && !(v.K == KBuiltin && v.Op == "pure:AggregateID") {
			if c, ok := r.strClass(p, v); !ok || c == "aggregateType" {
				r.fail("C05", "record-id", p, pos, "the stored record does not carry the aggregate id of its event")
			}
		}
	}
}

// ---------------------------------------------------------------- LevelDB keys

// flatKey spells a key out: literals, {stream}, {agg}, {ssn}, {gsn}, {n:?}; "" if unknown.
func (r *storeRule) flatKey(p *Path, v *Val) string {
	var name func(x *Val) (string, bool)
	name = func(x *Val) (string, bool) {
		if s, ok := bufText(p, x, name); ok {
			return s, true
		}
		switch {
		case x == r.stream:
			return "{stream}", true
		case x != nil && x == p.GetV("ssn", nil) && x == p.GetV("gsn", nil):
			return "{sgn}", true // the first event of all: both numbers are 1
		case x == p.GetV("ssn", nil) && x != nil:
			return "{ssn}", true
		case x == p.GetV("gsn", nil) && x != nil:
			return "{gsn}", true
		case x.K == KBuiltin && x.Op == "pure:AggregateType":
			return "{agg}", true
		}
		return "", false
	}
	return flatKey(v, name)
}

// noteBuf follows what is written into a byte buffer made for a key: copy(buf, text), and
// binary.BigEndian.PutUint64(buf, n) at its start or right after the copied text.
func noteBuf(p *Path, c *Call) {
	if len(c.Args) < 2 {
		return
	}
	if c.Bltn == "copy" {
		dst := c.Args[0]
		for dst.K == KSlice && (dst.Args[1] == nil || isInt(dst.Args[1], 0)) {
			dst = dst.Args[0]
		}
		if dst.K == KMake || dst.K == KAlloc {
			p.SetV("buf:text", dst, "1", c.Args[1])
			p.Del("buf:num", dst)
		}
		return
	}
	pkg, name := c.callee()
	if pkg != "encoding/binary" || !strings.HasPrefix(name, "PutUint") && !strings.HasSuffix(name, ".PutUint64") {
		return
	}
	n := len(c.Args)
	if n < 3 || !c.Args[0].Any(isBigEndian) && !strings.Contains(c.Name(), "bigEndian") {
		return
	}
	dst, at := c.Args[n-2], (*Val)(nil)
	for dst.K == KSlice {
		if l := dst.Args[1]; l != nil && !isInt(l, 0) {
			if at != nil {
				return
			}
			at = l
		}
		dst = dst.Args[0]
	}
	if dst.K != KMake && dst.K != KAlloc {
		return
	}
	t := p.GetV("buf:text", dst)
	after := false
	if at != nil && t != nil {
		if str := constStr(t); str != "" {
			after = isInt(at, int64(len(str)))
		} else {
			after = at.K == KLen && bufSame(at.Args[0], t)
		}
	}
	if at == nil && t == nil || after {
		p.SetV("buf:num", dst, "1", c.Args[n-1])
	}
}

func bufSame(a, b *Val) bool {
	strip := func(v *Val) *Val {
		for v.K == KConv {
			v = v.Args[0]
		}
		return v
	}
	return strip(a) == strip(b)
}

// bufText spells out a buffer filled as noteBuf saw.
func bufText(p *Path, x *Val, name func(*Val) (string, bool)) (string, bool) {
	if x == nil || x.K != KMake && x.K != KAlloc {
		return "", false
	}
	n := p.GetV("buf:num", x)
	if n == nil {
		return "", false
	}
	s := ""
	if t := p.GetV("buf:text", x); t != nil {
		s = flatKey(t, name)
	}
	num := flatKey(n, name)
	return s + num, true
}

// flatKey spells out a key term; name classifies the variable parts.
func flatKey(v *Val, name func(*Val) (string, bool)) string {
	if v == nil {
		return "{?}"
	}
	if s, ok := name(v); ok {
		return s
	}
	switch v.K {
	case KConst:
		if v.C.Kind() == constant.String {
			return constant.StringVal(v.C)
		}
		return "{n}"
	case KBin:
		if v.Op == "+" && v.T != nil && types.Identical(v.T.Underlying(), types.Typ[types.String]) {
			return flatKey(v.Args[0], name) + flatKey(v.Args[1], name)
		}
	case KAppend:
		s := flatKey(v.Args[0], name)
		if v.Args[0].K == KNil || v.Args[0].K == KMake {
			s = ""
		}
		if len(v.Args) > 1 && v.Args[1] != nil && len(v.Args) == 2 {
			return s + flatKey(v.Args[1], name)
		}
		for _, a := range v.Args[2:] {
			s += flatKey(a, name)
		}
		return s
	case KSlice:
		return flatKey(v.Args[0], name)
	case KConv:
		return flatKey(v.Args[0], name)
	case KLoad, KField:
		f := ""
		if v.K == KField {
			f = v.Op
		} else if len(v.Args) > 0 && v.Args[0].K == KFieldAddr {
			f = v.Args[0].Op
		}
		switch f {
		case "StreamName":
			return "{stream}"
		case "AggregateType":
			return "{agg}"
		case "GlobalSequenceNumber":
			return "{gsn}"
		case "StreamSequenceNumber":
			return "{ssn}"
		}
	case KCall:
		n := v.FullName()
		switch {
		case n == "fmt.Sprintf" && len(v.Args) > 1 && v.Args[1].K == KTuple:
			f := flatKey(v.Args[0], name)
			k := 0
			var b strings.Builder
			for i := 0; i < len(f); i++ {
				if f[i] == '%' && i+1 < len(f) {
					i++
					if f[i] == '%' {
						b.WriteByte('%')
					} else if k < len(v.Args[1].Args) && (f[i] == 's' || f[i] == 'v') {
						b.WriteString(flatKey(v.Args[1].Args[k], name))
						k++
					} else {
						b.WriteString("{?}")
						k++
					}
					continue
				}
				b.WriteByte(f[i])
			}
			return b.String()
		case v.M != nil && v.M.Name() == "Bytes" && strings.HasPrefix(n, "(*bytes.Buffer)"):
			// the number written into the buffer
			s, be := "{?}", false
			v.Any(func(x *Val) bool {
				if x.K == KOut {
					for _, a := range x.Args {
						if a != nil && a.Any(isBigEndian) {
							be = true
						}
						if t, ok := name(a); ok {
							s = t
						} else if t := flatNum(a); t != "" {
							s = t
						}
					}
				}
				return false
			})
			if !be {
				return "{?}"
			}
			return s
		case strings.Contains(n, "encoding/binary.bigEndian") && v.M != nil && v.M.Name() == "AppendUint64" && len(v.Args) >= 3:
			return flatKey(v.Args[1], name) + flatKey(v.Args[2], name)
		case v.M != nil && v.M.Name() == "Key":
			return "{key:" + flatIter(v.Args[0], name) + "}"
		case v.M != nil && v.M.Name() == "Join":
			if len(v.Args) == 2 && v.Args[0].K != KNil {
				return "{?}"
			}
		}
	case KOut:
		// PutUint64(buf, n)
		for i := len(v.Args) - 1; i > 0; i-- {
			if s, ok := name(v.Args[i]); ok {
				for _, a := range v.Args {
					if a.Any(isBigEndian) {
						return s
					}
				}
			}
		}
	case KNil:
		return ""
	}
	if s := flatNum(v); s != "" {
		return s
	}
	return "{?}"
}

func flatNum(v *Val) string {
	if v == nil {
		return ""
	}
	f := ""
	if v.K == KField {
		f = v.Op
	} else if (v.K == KLoad || v.K == KWiden) && len(v.Args) > 0 && v.Args[0].K == KFieldAddr {
		f = v.Args[0].Op
	}
	switch f {
	case "GlobalSequenceNumber":
		return "{gsn}"
	case "StreamSequenceNumber":
		return "{ssn}"
	}
	return ""
}

func isBigEndian(x *Val) bool {
	switch x.K {
	case KGVal, KGlobal:
		return x.Site.(*ssa.Global).Name() == "BigEndian"
	case KZero, KConst, KStruct:
		return x.T != nil && strings.HasSuffix(types.TypeString(x.T, nil), "encoding/binary.bigEndian")
	}
	return x.T != nil && strings.HasSuffix(types.TypeString(x.T, nil), "encoding/binary.bigEndian")
}

// flatIter: the key prefix an iterator covers.
func flatIter(it *Val, name func(*Val) (string, bool)) string {
	s := "?"
	it.Any(func(x *Val) bool {
		if x.K == KCall && strings.HasSuffix(x.FullName(), "leveldb/util.BytesPrefix") {
			s = flatKey(x.Args[0], name)
			return true
		}
		return false
	})
	return s
}

// ldbBatch: an entry is added to a batch of changes.
func (r *storeRule) ldbBatch(p *Path, c *Call, name string) {
	pos := c.Instr.Pos()
	k := r.flatKey(p, c.Args[1])
	b := c.Args[0]
	if r.isSave() {
		if name != "Put" {
			r.fail("C02", "save-deletes", p, pos, "a save deletes an entry")
			return
		}
		r.obl("C05", "keys are built from literals and the record's names and numbers", k)
		v := c.Args[2]
		p.SetV("put", r.P.T.mk(Val{K: KTuple, Args: []*Val{b, r.P.T.Const(constant.MakeString(k), types.Typ[types.String])}}), k, v)
		if strings.Contains(k, "{?}") {
			r.fail("C05", "key-unknown", p, pos, "an index key is not built from literals and the record's names and numbers: "+k)
		}
		switch {
		case v == p.GetV("data", nil):
			p.SetV("dataput", b, k, c.Args[1])
		case !strings.Contains(k, "{"):
			if x := r.flatKey(p, v); x != "{gsn}" && x != "{sgn}" {
				r.fail("C04", "counter-value", p, pos, "the stored counter is not set to the record's global sequence number")
			}
			if k == p.Get("gsnkey", nil) || p.Get("gsnkey", nil) == "" {
				p.Set("gsnput", b, k)
			}
		}
		if !strings.Contains(k, "{sgn}") {
			r.keysPut[k] = true
		}
		return
	}
	// delete
	r.obl("C05", "a delete removes the keys a save wrote", k)
	if name == "Put" {
		r.fail("C05", "delete-writes", p, pos, "deleting a stream writes an entry")
		return
	}
	if strings.HasPrefix(k, "{key:") {
		k = strings.TrimSuffix(strings.TrimPrefix(k, "{key:"), "}") + "{ssn}"
		if !strings.Contains(k, "{stream}") {
			r.fail("C05", "delete-foreign-key", p, pos, "deleting a stream removes entries found under "+k)
		}
		p.Each("it", func(it *Val, x RV) {
			if c.Args[1].Contains(it) || c.Args[1].Any(func(y *Val) bool { return y == it }) {
				r.filteredUse(p, it, pos)
			}
		})
	} else if !strings.Contains(k, "{") {
		r.fail("C04", "delete-counter", p, pos, "deleting a stream removes the global counter")
	}
	p.Set("delkey", nil, "1")
	r.keysPut[k] = true
	p.SetV("rmk", r.P.T.Const(constant.MakeString(k), types.Typ[types.String]), "1", nil)
}

// filteredUse: an entry found under a stream's prefix is used only after its key was checked to be
// exactly the prefix and a number.
func (r *storeRule) filteredUse(p *Path, it *Val, pos token.Pos) {
	r.obl("C05", "entries found under a prefix are used only if nothing but a number follows it", r.P.Pos(pos))
	if p.Get("exact", it) != "1" && !exactLen(p, it) {
		r.fail("C05", "unfiltered", p, pos, "uses an entry found under the stream's prefix without checking that its key is exactly the prefix and a number")
	}
}

// keyLen: v is the length of an iterator's current key; returns the iterator.
func keyLen(v *Val) *Val {
	if v.K == KLen && v.Args[0].Gen == 0 && v.Args[0].K == KCall && v.Args[0].M != nil && v.Args[0].M.Name() == "Key" && len(v.Args[0].Args) > 0 {
		return v.Args[0].Args[0]
	}
	return nil
}

// exactLen: is the length of the iterator's current key known to equal something (or not exceed)?
func exactLen(p *Path, it *Val) bool {
	for c, t := range p.truth {
		if !t || c.K != KEq {
			continue
		}
		for j := 0; j < 2; j++ {
			l := c.Args[j]
			if l.K == KLen && l.Args[0].Gen == 0 && l.Args[0].K == KCall && l.Args[0].M != nil && l.Args[0].M.Name() == "Key" && len(l.Args[0].Args) > 0 && l.Args[0].Args[0] == it {
				return true
			}
		}
	}
	return false
}

// ldbWrite: a batch has been written to the transaction.
func (r *storeRule) ldbWrite(p *Path, c *Call) {
	pos := c.Instr.Pos()
	if !r.isSave() {
		return
	}
	var b *Val
	if c.M.Name() == "Write" {
		b = c.Args[1]
	}
	r.obl("C04", "the counter is written with the record", r.P.Pos(pos))
	if p.Get("gsnput", b) == "" {
		r.fail("C04", "counter-not-written", p, pos, "writes a record without writing the global counter it was numbered from in the same step")
	}
	r.obl("C05", "each event is entered into every index in one step", r.P.Pos(pos))
	dk := p.GetV("dataput", b)
	dks := p.Get("dataput", b)
	if dk == nil {
		r.fail("C05", "data-not-written", p, pos, "writes a batch without the record's data")
		return
	}
	if !strings.Contains(dks, "{stream}") || !strings.HasSuffix(dks, "{ssn}") && !strings.HasSuffix(dks, "{sgn}") {
		r.fail("C05", "data-key", p, pos, "the record is not stored under its stream name followed by its stream sequence number: "+dks)
	}
	agg, all := false, false
	p.Each("put", func(k *Val, x RV) {
		if k.Args[0] != b || x.S == dks || !strings.Contains(x.S, "{") {
			return
		}
		if !strings.HasSuffix(x.S, "{gsn}") && !strings.HasSuffix(x.S, "{sgn}") {
			r.fail("C05", "lookup-key", p, pos, "a lookup entry does not end in the record's global sequence number: "+x.S)
		}
		if x.V != dk && r.flatKey(p, x.V) != dks {
			r.fail("C05", "lookup-target", p, pos, "a lookup entry does not point to the record's key")
		}
		if strings.Contains(x.S, "{agg}") {
			agg = true
		} else if !strings.Contains(x.S, "{stream}") {
			all = true
		}
	})
	if !agg {
		r.fail("C05", "no-aggregate-entry", p, pos, "an event is stored without an entry under its aggregate type")
	}
	if !all {
		r.fail("C05", "no-all-entry", p, pos, "an event is stored without an entry among all events")
	}
	p.DelAll("put")
	p.DelAll("dataput")
	p.DelAll("gsnput")
	p.Del("gsnkey", nil)
	p.Del("nocounter", nil)
}
