package main

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// storeRule follows Save, OptimisticSave and OptimisticDeleteStream of the in-memory, LevelDB and
// PostgreSQL stores along every path and decides, for one property at a time, the obligations of
// C01-C05, C10 and C13 on them.
type storeRule struct {
	Base
	P         *Prog
	R         *Report
	prop      string
	st        *StoreInfo
	op        string
	collect   bool // first pass: only fill the tables
	cancelled bool // the caller's context is already cancelled

	recv, ctx, expected, stream, events *Val

	loops   *LoopTab
	grown   map[*Val]bool            // in-memory: fields that grow in a save
	growLp  map[*ssa.BasicBlock]bool // loops in which something is stored
	mixed   *mixedTab
	badCnt  map[*ssa.Phi]bool        // counters that also count other streams' keys
	annLp   map[*ssa.BasicBlock]bool // loops that announce
	elemLp  map[*ssa.BasicBlock]bool // loops over a list of events
	annList map[*Val]bool            // lists announced
	elems   map[*ssa.Phi][]*Val      // what is appended to a list
	elemFld map[string]map[*Val]bool // field -> values in appended list elements
	ssnPhi  map[*ssa.Phi]bool
	gKey    map[*Val]map[string]bool // in-memory field -> key classes used by saves
	rmFld   map[*Val]bool            // in-memory: fields a delete removes from
	keysPut map[string]bool          // LevelDB key shapes written
	seqFld  map[*Val]bool            // in-memory: fields the current number is read from
	visited map[ssa.Instruction]bool
}

func (r *storeRule) fail(prop, key string, p *Path, pos token.Pos, msg string) {
	if r.collect || prop != r.prop {
		return
	}
	if !pos.IsValid() && p != nil {
		pos = p.pos()
	}
	r.R.Fail(r.st.Kind+"."+r.op+":"+key, pos, r.st.Kind+" store, "+r.op+": "+msg, p)
}

func (r *storeRule) obl(prop, rule, what string) {
	if r.collect || prop != r.prop {
		return
	}
	r.R.Obl(rule, r.st.Kind+"."+r.op+": "+what)
}

// Weak: state that is only of interest while the terms it is about can still be used.
func (r *storeRule) Weak() []string {
	return []string{"it", "dir", "iuse", "fresh", "lastkey", "snap", "exh", "abs", "dirtydone", "dataput", "put", "gsnput", "data", "gsn", "adv", "ssn", "ssnbase", "ssnrec", "gsnbase", "ird", "buf:text", "buf:num"}
}

func (r *storeRule) optimistic() bool { return strings.HasPrefix(r.op, "Optimistic") }
func (r *storeRule) isSave() bool     { return r.op == "Save" || r.op == "OptimisticSave" }

// run explores one operation twice: to collect tables, then to decide.
func (r *storeRule) run() {
	fn := r.P.Method(r.st.N, r.op)
	if fn == nil {
		r.R.Fail(r.st.Kind+"."+r.op+":missing", token.NoPos, "operation "+r.op+" not found", nil)
		return
	}
	r.loops = NewLoopTab()
	r.grown, r.growLp, r.annLp, r.annList = map[*Val]bool{}, map[*ssa.BasicBlock]bool{}, map[*ssa.BasicBlock]bool{}, map[*Val]bool{}
	r.elems, r.elemFld, r.ssnPhi = map[*ssa.Phi][]*Val{}, map[string]map[*Val]bool{}, map[*ssa.Phi]bool{}
	r.gKey, r.rmFld, r.seqFld = map[*Val]map[string]bool{}, map[*Val]bool{}, map[*Val]bool{}
	r.visited = map[ssa.Instruction]bool{}
	r.badCnt = map[*ssa.Phi]bool{}
	r.elemLp = map[*ssa.BasicBlock]bool{}
	for _, pass := range []bool{true, true, false} {
		r.collect = pass
		if ph := r.mixed; ph == nil {
			r.mixed = newMixedTab()
		} else {
			r.mixed.cmp, r.mixed.miss = map[string]bool{}, map[string]bool{}
		}
		e := NewEngine(r.P, r)
		e.RunRoot(fn, func(p *Path, pa []*Val) {
			r.recv, r.ctx = pa[0], pa[1]
			i := 2
			r.expected, r.events = nil, nil
			if r.optimistic() {
				r.expected = pa[i]
				i++
			}
			r.stream = pa[i]
			if i+1 < len(pa) {
				r.events = pa[i+1]
			}
			for _, x := range pa {
				if x.T != nil && strings.HasSuffix(types.TypeString(x.T, nil), "context.Context") {
					r.ctx = x
				}
			}
		})
		if debugStates {
			fmt.Println("===", r.prop, r.st.Kind, r.op, pass, e.States)
			dumpDebug()
		}
		if !pass {
			r.R.Engine(e, r.st.Kind+"."+r.op)
			r.judgeMixed()
		}
	}
}

// ---------------------------------------------------------------- classification of terms

// recvField: the receiver field v was read from (its address).
func (r *storeRule) recvField(v *Val) *Val {
	if v == nil {
		return nil
	}
	if (v.K == KLoad || v.K == KWiden) && len(v.Args) > 0 && v.Args[0].K == KFieldAddr && v.Args[0].Args[0] == r.recv {
		return v.Args[0]
	}
	return nil
}

func (r *storeRule) isE(v *Val) bool {
	if v == nil || r.expected == nil {
		return false
	}
	if v == r.expected {
		return true
	}
	if in, st, ok := r.loops.Carried(v); ok {
		if len(in) == 0 || !onlySteps(st, "+0", "+1") {
			return false
		}
		for x := range in {
			if x == v || x == r.expected {
				continue
			}
			if x.K == KBin && x.Op == "+" && isInt(x.Args[1], 1) && (x.Args[0] == v || x.Args[0] == r.expected) {
				continue
			}
			return false
		}
		return true
	}
	if v.K == KBin && v.Op == "+" {
		return r.isE(v.Args[0]) && v.Args[1].K != KConst || r.isE(v.Args[1]) && v.Args[0].K != KConst
	}
	return false
}

// dependsOnStream: is v computed from the stream name?
func (r *storeRule) dependsOnStream(p *Path, v *Val) bool {
	return v.Any(func(x *Val) bool {
		return x == r.stream || p.Get("abs", x) == "1"
	})
}

// isC: is v the stream's current last sequence number, read where this operation excludes others?
func (r *storeRule) isC(p *Path, v *Val) bool {
	if v == nil {
		return false
	}
	if isInt(v, 0) {
		return p.Get("absent", nil) == "1"
	}
	switch r.st.Kind {
	case "memory":
		x := v
		if x.K == KLen {
			x = x.Args[0]
		}
		if x.K == KLookup && p.Get("fresh", x) == "1" && x.Args[1] == r.stream {
			if f := r.recvField(x.Args[0]); f != nil {
				r.seqFld[f] = true
				return true
			}
		}
		// after this operation changed the list itself
		if v.K == KLen && !v.Args[0].Any(func(y *Val) bool { return p.Get("stale", y) == "1" }) {
			if f, k := r.mapContent(v.Args[0]); f != nil && k == r.stream {
				r.seqFld[f] = true
				return true
			}
		}
	case "leveldb":
		if in, st, ok := r.loops.Carried(v); ok {
			if p.Get("absent", nil) == "1" {
				z := len(in) > 0
				for x := range in {
					if !isInt(x, 0) {
						z = false
					}
				}
				if z && onlySteps(st, "+0", "+1") && st["+1"] {
					return !r.badCnt[phiOf(v)]
				}
			}
			return false
		}
		return v.Any(func(x *Val) bool {
			return x.K == KCall && x.M != nil && x.M.Name() == "Key" && p.Get("fresh", x) == "1" && p.Get("lastkey", x) == "1" && r.dependsOnStream(p, x) && p.Get("keyexact", x) == "1"
		})
	case "postgres":
		return v.Any(func(x *Val) bool {
			return x.K == KCall && p.Get("fresh", x) == "1"
		})
	}
	return false
}

// mapContent: v is (a changed version of) the list stored in a receiver map under a key.
func (r *storeRule) mapContent(v *Val) (f, key *Val) {
	for v != nil {
		switch v.K {
		case KLookup:
			if f := r.recvField(v.Args[0]); f != nil {
				return f, v.Args[1]
			}
			return nil, nil
		case KWiden, KLoad:
			if len(v.Args) > 0 && v.Args[0].K == KMapElem {
				if f := r.recvField(v.Args[0].Args[0]); f != nil {
					return f, v.Args[0].Args[1]
				}
			}
			return nil, nil
		case KAppend, KSlice:
			v = v.Args[0]
		default:
			return nil, nil
		}
	}
	return nil, nil
}

func (r *storeRule) locked(p *Path) bool {
	switch r.st.Kind {
	case "memory", "leveldb":
		return p.AnyRS("lock", "W")
	}
	return p.AnyRS("adv", "1")
}

// ---------------------------------------------------------------- calls

var advLock = regexp.MustCompile(`(?i)\bpg_advisory_xact_lock\s*\(`)

// txOf finds the transaction a method is called on.
func (r *storeRule) isTx(p *Path, v *Val) bool { return v != nil && p.Get("tx", v) != "" }

func (r *storeRule) Model(p *Path, c *Call) []Outcome {
	if o := pureEvent(p, c); o != nil {
		return o
	}
	pkg, name := c.callee()
	rt := recvTypeName(c.M)
	if o := r.ctxModel(p, c, pkg, name); o != nil {
		return o
	}
	switch pkg {
	case pkgLevelDB:
		switch {
		case rt == "DB" && name == "OpenTransaction":
			r.visited[c.Instr] = true
			return errFork(func(q *Path, res *Val) {
				t := q.ResOf(res, 0)
				q.SetNil(t, false)
				q.Set("tx", t, "open")
			}, nil)
		case rt == "Transaction" && name == "Commit":
			t := c.Args[0]
			return errFork(func(q *Path, res *Val) { r.commit(q, t, c, true) }, func(q *Path, res *Val) { r.commit(q, t, c, false) })
		case rt == "Transaction" && name == "Discard":
			t := c.Args[0]
			return []Outcome{{Opaque: true, After: func(q *Path, res *Val) bool {
				if s := q.Get("tx", t); s == "open" || s == "failcommit" {
					q.Set("tx", t, "done")
				}
				return true
			}}}
		case rt == "Transaction" && in(name, "Write", "Put", "Delete"):
			t := c.Args[0]
			r.write(p, t, c)
			return errFork(func(q *Path, res *Val) { r.wrote(q, t, c, true) }, func(q *Path, res *Val) { r.wrote(q, t, c, false) })
		case rt == "DB" && in(name, "Write", "Put", "Delete"):
			r.fail("C03", "bypass:"+name, p, c.Instr.Pos(), "writes to the database outside the transaction")
			r.effect(p, c.Instr.Pos(), "database write")
			return errFork(func(q *Path, res *Val) { q.Set("effect", nil, "1") }, nil)
		case (rt == "Transaction" || rt == "DB") && in(name, "Get", "Has"):
			nf := r.P.T.mk(Val{K: KGVal, Site: r.ldbNotFound(), T: types.Universe.Lookup("error").Type()})
			counter := func(q *Path) bool {
				k := r.flatKey(q, c.Args[1])
				if k == "" || strings.Contains(k, "{") {
					return false
				}
				q.Set("gsnkey", nil, k)
				return true
			}
			return []Outcome{
				{Opaque: true, After: func(q *Path, res *Val) bool {
					counter(q)
					return q.SetNil(q.ErrOf(res), true)
				}},
				{Opaque: true, After: func(q *Path, res *Val) bool {
					e := q.ErrOf(res)
					q.SetNil(e, false)
					if counter(q) {
						q.Set("nocounter", nil, "1")
						q.Set("nocnow", nil, "1")
					}
					return q.Assume(q.E.T.Eq(e, nf), true)
				}},
				{Opaque: true, After: func(q *Path, res *Val) bool {
					e := q.ErrOf(res)
					q.SetNil(e, false)
					q.Assume(q.E.T.Eq(e, nf), false)
					q.Set("readfailed", nil, "1")
					q.Note(c.Instr.Pos(), "this read fails")
					return true
				}},
			}
		case rt == "Batch" && in(name, "Put", "Delete", "Reset"):
			r.batchOp(p, c, name)
		}
	case pkgLDBIter, "github.com/syndtr/goleveldb/leveldb/util":
		if len(c.Args) == 0 || c.M.Type().(*types.Signature).Recv() == nil {
			break
		}
		it := c.Args[0]
		switch name {
		case "Next", "Prev", "First", "Last", "Seek":
			return boolFork(func(q *Path, res *Val) {
				q.Del("exact", it)
				q.Set("it", it, "at")
				switch name {
				case "Last":
					q.Set("dir", it, "last")
				case "Prev":
				default:
					q.Set("dir", it, "fwd")
				}
			}, func(q *Path, res *Val) {
				q.Set("it", it, "end")
			})
		case "Release":
			return []Outcome{{Opaque: true, After: func(q *Path, res *Val) bool {
				q.Del("it", it)
				q.Del("dir", it)
				return true
			}}}
		case "Error":
			return errFork(func(q *Path, res *Val) {
				if q.Get("it", it) == "end" {
					if r.dependsOnStream(q, it) && q.Get("staleit", it) != "1" {
						r.noStream(q)
					}
				}
			}, func(q *Path, res *Val) { q.Set("readfailed", nil, "1") })
		}
	case pkgSQL:
		switch {
		case rt == "DB" && in(name, "BeginTx", "Begin"):
			r.visited[c.Instr] = true
			if r.cancelled && name == "BeginTx" && r.isCtx(p, c.Args[1]) {
				return errFork(nil, nil)[1:]
			}
			return errFork(func(q *Path, res *Val) {
				t := q.ResOf(res, 0)
				q.SetNil(t, false)
				q.Set("tx", t, "open")
			}, nil)
		case rt == "Tx" && name == "Commit":
			t := c.Args[0]
			return errFork(func(q *Path, res *Val) { r.commit(q, t, c, true) }, func(q *Path, res *Val) { r.commit(q, t, c, false) })
		case rt == "Tx" && name == "Rollback":
			t := c.Args[0]
			return []Outcome{{Opaque: true, After: func(q *Path, res *Val) bool {
				if q.Get("tx", t) == "open" {
					q.Set("tx", t, "done")
				}
				return true
			}}}
		case in(name, "Exec", "ExecContext", "Query", "QueryContext", "QueryRow", "QueryRowContext"):
			return r.sqlCall(p, c, rt, name)
		case rt == "Rows" && name == "Next":
			rows := c.Args[0]
			return boolFork(nil, func(q *Path, res *Val) { _ = rows })
		case rt == "Rows" && in(name, "Err", "Scan"):
			rows := c.Args[0]
			return errFork(func(q *Path, res *Val) {
				if name == "Err" {
					q.Del("unchecked", rows)
				}
			}, func(q *Path, res *Val) {
				if t := q.GetV("rowsof", rows); t != nil {
					q.Set("txw", t, "failed")
				}
				q.Set("readfailed", nil, "1")
			})
		case rt == "Row" && in(name, "Scan", "Err"):
			nr := r.P.T.mk(Val{K: KGVal, Site: r.sqlNoRows(), T: types.Universe.Lookup("error").Type()})
			row := c.Args[0]
			return []Outcome{
				{Opaque: true, After: func(q *Path, res *Val) bool { return q.SetNil(q.ErrOf(res), true) }},
				{Opaque: true, After: func(q *Path, res *Val) bool {
					e := q.ErrOf(res)
					q.SetNil(e, false)
					if q.Get("fresh", row) == "1" {
						r.noStream(q)
					}
					return q.Assume(q.E.T.Eq(e, nr), true)
				}},
				{Opaque: true, After: func(q *Path, res *Val) bool {
					e := q.ErrOf(res)
					q.SetNil(e, false)
					q.Assume(q.E.T.Eq(e, nr), false)
					q.Set("readfailed", nil, "1")
					q.Note(c.Instr.Pos(), "this read fails")
					return true
				}},
			}
		}
	}
	// the serialiser and other error returning code outside the repository
	if hasErr(c) && (c.Fn == nil || !r.P.InRepo(c.Fn)) && !strings.HasPrefix(pkg, "fmt") && pkg != "errors" && c.Bltn == "" && pkg != "" {
		if pkg == modPath || in(pkg, "encoding/json") {
			ser := name == "Serialize"
			return errFork(func(q *Path, res *Val) {
				if ser {
					r.serialized(q, c, res)
				}
			}, func(q *Path, res *Val) { q.Set("ierr", nil, "1") })
		}
	}
	return nil
}

func (r *storeRule) ldbNotFound() any {
	if p := r.P.SSA.ImportedPackage(pkgLevelDB); p != nil {
		return p.Var("ErrNotFound")
	}
	return nil
}

func (r *storeRule) sqlNoRows() any {
	if p := r.P.SSA.ImportedPackage(pkgSQL); p != nil {
		return p.Var("ErrNoRows")
	}
	return nil
}

// isCtx: is v the caller's context or derived from it?
func (r *storeRule) isCtx(p *Path, v *Val) bool {
	return derivedCtx(v, func(x *Val) bool { return x == r.ctx })
}

// ctxModel: what a context says when it is already cancelled.
func (r *storeRule) ctxModel(p *Path, c *Call, pkg, name string) []Outcome {
	if pkg == "context" && name == "Err" && len(c.Args) == 1 && r.isCtx(p, c.Args[0]) {
		if r.cancelled {
			return errFork(nil, nil)[1:]
		}
		return errFork(nil, nil)
	}
	return nil
}

func (r *storeRule) SelectCase(p *Path, ev *Ev, i int) bool {
	if !r.cancelled || i >= 0 {
		return true
	}
	for _, s := range ev.Sel {
		if !s.Send && s.Chan.K == KCall && s.Chan.M != nil && s.Chan.M.Name() == "Done" && len(s.Chan.Args) > 0 && r.isCtx(p, s.Chan.Args[0]) {
			return false
		}
	}
	return true
}

func (r *storeRule) batchOp(p *Path, c *Call, name string) {
	b := c.Args[0]
	if name == "Reset" {
		p.Del("dirty", b)
		return
	}
	p.Set("dirty", b, "dirty")
	if r.st.Kind == "leveldb" {
		r.ldbBatch(p, c, name)
	}
}

// write: a write through transaction t is about to happen.
func (r *storeRule) write(p *Path, t *Val, c *Call) {
	r.obl("C03", "writes go through an open transaction", r.P.Pos(c.Instr.Pos()))
	switch p.Get("tx", t) {
	case "open":
	case "":
		r.fail("C03", "write-unknown-tx", p, c.Instr.Pos(), "writes to a transaction this operation did not open")
	default:
		r.fail("C03", "write-after-end", p, c.Instr.Pos(), "writes to a transaction that was already committed or discarded")
	}
	r.effect(p, c.Instr.Pos(), "transaction write")
}

func (r *storeRule) wrote(q *Path, t *Val, c *Call, ok bool) {
	if !ok {
		q.Set("txw", t, "failed")
		q.Set("ierr", nil, "1")
		return
	}
	q.Set("effect", nil, "1")
	q.Set("wrote", nil, "1")
	for _, a := range c.Args[1:] {
		if q.Get("dirty", a) == "dirty" {
			q.Del("dirty", a)
		}
	}
	if r.st.Kind == "leveldb" {
		q.Set("itw", nil, "1")
		r.ldbWrite(q, c)
	}
}

func (r *storeRule) commit(q *Path, t *Val, c *Call, ok bool) {
	r.obl("C03", "commit only after successful writes", r.P.Pos(c.Instr.Pos()))
	pos := c.Instr.Pos()
	switch q.Get("tx", t) {
	case "open":
	default:
		r.fail("C03", "commit-not-open", q, pos, "commits a transaction that is not open")
	}
	if q.Get("txw", t) == "failed" {
		r.fail("C03", "commit-after-failed-write", q, pos, "commits although a write of the transaction failed")
	}
	if q.AnyRS("dirty", "dirty") {
		r.fail("C03", "commit-before-write", q, pos, "commits while a batch of changes was not written to the transaction")
	}
	if q.AnyRS("unchecked", "1") {
		r.fail("C03", "commit-unchecked-rows", q, pos, "commits without having checked the insert's rows for an error")
		r.fail("C02", "commit-unchecked-rows", q, pos, "commits without having checked the insert's rows for an error")
	}
	if r.optimistic() && q.Get("guarded", nil) != "1" {
		r.fail("C01", "commit-unguarded", q, pos, "commits without having found the expected sequence number equal to the current one")
	}
	if q.Get("readfailed", nil) == "1" {
		r.fail("C01", "commit-after-failed-read", q, pos, "commits although reading the current state failed")
	}
	if ok {
		r.exhausted(q, pos)
		q.Set("tx", t, "committed")
		q.Set("committed", nil, "1")
		q.DelAll("adv")
	} else if r.st.Kind == "leveldb" {
		q.Set("tx", t, "failcommit")
	} else {
		q.Set("tx", t, "done")
	}
}

// effect: the store is about to be changed.
func (r *storeRule) effect(p *Path, pos token.Pos, what string) {
	if r.optimistic() {
		r.obl("C01", "a change follows the exact match under the exclusive lock", what+" at "+r.P.Pos(pos))
		if p.Get("guarded", nil) != "1" {
			r.fail("C01", "unguarded", p, pos, "changes the store ("+what+") without having found the expected sequence number equal to the stream's current one under the exclusive lock")
		} else if !r.locked(p) {
			r.fail("C01", "unlocked", p, pos, "changes the store ("+what+") outside the critical section of the comparison")
		}
	} else if r.isSave() {
		r.obl("C01", "a change follows the exact match under the exclusive lock", what+" at "+r.P.Pos(pos))
		if !r.locked(p) {
			r.fail("C01", "unlocked", p, pos, "changes the store ("+what+") without holding the exclusive lock that optimistic saves rely on")
			r.fail("C04", "unlocked", p, pos, "assigns sequence numbers without holding the exclusive lock")
		}
	}
	if p.Get("readfailed", nil) == "1" {
		r.fail("C01", "after-failed-read", p, pos, "changes the store although reading the current state failed")
		r.fail("C02", "after-failed-read", p, pos, "changes the store although reading the current state failed")
	}
}

func (r *storeRule) sqlCall(p *Path, c *Call, rt, name string) []Outcome {
	i := 1
	if strings.HasSuffix(name, "Context") {
		i = 2
	}
	text := sqlText(c.Args[i])
	verb := sqlVerb(text)
	recv := c.Args[0]
	tx := rt == "Tx"
	adv := advLock.MatchString(text)
	isWrite := verb != "SELECT" || strings.Contains(text, "\x00") && verb == ""
	pos := c.Instr.Pos()
	ctxDead := r.cancelled && i == 2 && r.isCtx(p, c.Args[1])
	if isWrite {
		if tx {
			r.write(p, recv, c)
		} else {
			r.fail("C03", "bypass:"+verb, p, pos, "executes "+verb+" outside the transaction")
			r.effect(p, pos, verb)
		}
		r.sqlWriteText(p, c, text, verb, i)
	}
	okf := func(q *Path, res *Val) {
		if adv && tx && q.Get("tx", recv) == "open" {
			dep := false
			for _, a := range q.XArgs(c)[i+1:] {
				if r.dependsOnStream(q, a) {
					dep = true
				}
			}
			if dep {
				q.Set("adv", recv, "1")
			}
		}
		if isWrite {
			r.wrote(q, recv, c, true)
			if strings.HasPrefix(name, "Query") {
				rows := q.ResOf(res, 0)
				q.SetV("rowsof", rows, "1", recv)
				q.Set("unchecked", rows, "1")
			}
		}
	}
	failf := func(q *Path, res *Val) {
		if isWrite || adv {
			q.Set("txw", recv, "failed")
		}
	}
	if strings.HasPrefix(name, "QueryRow") {
		return []Outcome{{Opaque: true, After: func(q *Path, res *Val) bool {
			if tx && q.Get("adv", recv) == "1" && q.Get("tx", recv) == "open" && r.currentQuery(q, c, text, i) {
				q.Set("fresh", res, "1")
			}
			return true
		}}}
	}
	if ctxDead {
		return errFork(okf, failf)[1:]
	}
	return errFork(okf, failf)
}

var (
	reMaxSSN  = regexp.MustCompile(`(?is)^\s*SELECT\s+(COALESCE\s*\(\s*)?MAX\s*\(\s*StreamSequenceNumber\s*\)`)
	reLastSSN = regexp.MustCompile(`(?is)^\s*SELECT\s+StreamSequenceNumber\b.*ORDER\s+BY\s+StreamSequenceNumber\s+DESC\s+LIMIT\s+1`)
	reStream1 = regexp.MustCompile(`(?is)WHERE\s+StreamName\s*=\s*\$1\s*(GROUP|ORDER|LIMIT|;|$)`)
)

// currentQuery: does the query read the stream's last sequence number?
func (r *storeRule) currentQuery(p *Path, c *Call, text string, i int) bool {
	if !(reMaxSSN.MatchString(text) || reLastSSN.MatchString(text)) || !reStream1.MatchString(text) {
		return false
	}
	xa := p.XArgs(c)
	if len(xa) <= i+1 {
		return false
	}
	a := xa[i+1]
	return a.K == KTuple && len(a.Args) == 1 && a.Args[0] == r.stream
}

// ---------------------------------------------------------------- events

func (r *storeRule) Event(p *Path, ev *Ev) {
	r.loops.Observe(p, ev)
	r.noteInit(p, ev)
	r.noteGInit(p, ev)
	r.noteRow(ev)
	r.noteSQLElem(p, ev)
	if r.prop == "C02" {
		r.onMixed(p, ev)
	}
	switch ev.K {
	case EvCall:
		r.onCall(p, ev.Call)
	case EvCallDone:
		r.onCallDone(p, ev)
	case EvBranch:
		r.onBranch(p, ev)
	case EvMapRead:
		if r.st.Kind == "memory" && ev.Res != nil && r.recvField(ev.Addr) != nil {
			if p.AnyRS("lock", "W") {
				p.Set("fresh", ev.Res, "1")
			} else {
				p.Set("stale", ev.Res, "1")
			}
		}
	case EvLoad:
		if r.st.Kind == "memory" && ev.Addr.K == KFieldAddr && ev.Addr.Args[0] == r.recv && ev.Res != nil && isIntT(ev.Res.T) {
			p.Del("stale", ev.Res)
			if p.AnyRS("lock", "W") {
				p.Set("ird", ev.Res, "1")
			} else {
				p.Set("stale", ev.Res, "1")
			}
		}
		if r.st.Kind == "memory" && ev.Addr.K == KFieldAddr && ev.Addr.Args[0] == r.recv && p.AnyRS("lock", "W") {
			if p.Get("grew", ev.Addr) == "" && p.Get("snap", ev.Addr) == "" && (isIntT(ev.Res.T) || isSliceT(ev.Res.T)) {
				p.SetV("snap", ev.Addr, "1", ev.Res)
			}
		}
	case EvStore, EvMapUpdate, EvMapDelete:
		if r.st.Kind == "memory" {
			r.memChange(p, ev)
		}
	case EvIndex:
		r.onIndex(p, ev)
	case EvPhiStep:
		r.onPhi(p, ev)
	case EvLoop:
		r.onLoop(p, ev)
	case EvInlineRet:
		if n := len(ev.Res_); n > 0 && ev.Res_[n-1] != nil && ev.Res_[n-1].T != nil && isErrorType(ev.Res_[n-1].T) && p.NilState(ev.Res_[n-1]) == -1 {
			p.Set("ierr", nil, "1")
		}
	case EvExit:
		r.onExit(p, ev)
	}
}

func isIntT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isSliceT(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

func (r *storeRule) onCall(p *Path, c *Call) {
	switch lockOp(c) {
	case "W+":
		p.Set("lock", lockOf(c), "W")
		if r.st.Kind == "memory" {
			// what was read before may have changed
			for a := range p.mem {
				if b := a; b.K == KFieldAddr && b.Args[0] == r.recv || b.K == KMapElem && r.recvField(b.Args[0]) != nil {
					delete(p.mem, a)
				}
			}
		}
	case "R+":
		p.Set("lock", lockOf(c), "R")
	case "W-", "R-":
		p.Del("lock", lockOf(c))
		if r.st.Kind != "postgres" {
			p.Each("fresh", func(x *Val, _ RV) { p.Set("stale", x, "1") })
			p.DelAll("fresh")
			p.Each("ird", func(x *Val, _ RV) { p.Set("stale", x, "1") })
			p.DelAll("ird")
			p.Del("guarded", nil)
		}
	}
	if r.isAccept(c) {
		r.accept(p, c)
	}
}

// isAccept: the broadcaster (or any record subscriber) of the store is handed a record.
func (r *storeRule) isAccept(c *Call) bool {
	if c.M == nil || c.M.Name() != "Accept" || c.M.Pkg() == nil || !strings.HasPrefix(c.M.Pkg().Path(), modPath) || len(c.Args) != 2 {
		return false
	}
	return types.TypeString(c.Args[1].T, nil) == "*"+modPath+".Record" || c.Args[1].T == nil
}

func (r *storeRule) onCallDone(p *Path, ev *Ev) {
	c := ev.Call
	noteBuf(p, c)
	// objects that absorb the stream name (a hash of it)
	if len(c.Args) > 1 && c.Args[0] != nil && isSym(c.Args[0].K) && c.M != nil && c.M.Type().(*types.Signature).Recv() != nil {
		for _, a := range c.Args[1:] {
			if a != nil && r.dependsOnStream(p, a) && (a == r.stream || a.K != KCall) {
				if pkg, _ := c.callee(); pkg == "io" || strings.HasPrefix(pkg, "hash") || pkg == "strings" || pkg == "bytes" {
					p.Set("abs", c.Args[0], "1")
				}
			}
		}
	}
	if c.M != nil && c.M.Name() == "NewIterator" && recvTypeName(c.M) == "DB" && p.Get("wrote", nil) == "1" {
		// what the open transaction has written is not seen
		p.Set("staleit", ev.Res, "1")
	}
	if c.M != nil && c.M.Name() == "Key" && len(c.Args) == 1 && r.st.Kind == "leveldb" {
		if pkg, _ := c.callee(); pkg == pkgLDBIter {
			if r.locked(p) && p.Get("staleit", c.Args[0]) != "1" {
				p.Set("fresh", ev.Res, "1")
			}
			if p.Get("dir", c.Args[0]) == "last" {
				p.Set("lastkey", ev.Res, "1")
				if p.Get("exact", c.Args[0]) == "1" {
					p.Set("keyexact", ev.Res, "1")
				}
			}
		}
	}
}

func (r *storeRule) onBranch(p *Path, ev *Ev) {
	c, want := ev.Val, ev.Bool
	for c.K == KNot {
		c, want = c.Args[0], !want
	}
	switch c.K {
	case KEq:
		a, b := c.Args[0], c.Args[1]
		if r.isE(b) && !r.isE(a) {
			a, b = b, a
		}
		if r.isE(a) && r.isC(p, b) {
			r.matched(p, a, b, want)
		}
		if b.K == KNil && isErrorType(a.T) && !want {
			p.Set("ierr", nil, "1")
		}
		for i := 0; i < 2; i++ {
			if l := c.Args[i]; l.K == KLen && want {
				r.exhaust(p, l.Args[0], true)
				if it := keyLen(l); it != nil {
					p.Set("exact", it, "1")
					p.Set("keyexact", l.Args[0], "1")
					p.Each("lastkey", func(k *Val, _ RV) {
						if k.Args[0] == it {
							p.Set("keyexact", k, "1")
						}
					})
				}
			}
		}
	case KLt:
		a, b := c.Args[0], c.Args[1]
		if b.K == KLen {
			r.exhaust(p, b.Args[0], !want)
		}
		e, cu := a, b
		if !r.isE(e) {
			e, cu = b, a
		}
		if r.isE(e) && r.isC(p, cu) {
			if want {
				r.matched(p, e, cu, false)
			} else if p.truthOf(p.E.T.Lt(b, a)) == -1 {
				r.matched(p, e, cu, true)
			}
		}
	case KLookup:
		if c.Op == "ok" && !want && r.recvField(c.Args[0]) != nil && c.Args[1] == r.stream && p.AnyRS("lock", "W") {
			r.noStream(p)
		}
	case KNext:
		if c.Op == "ok" {
			r.exhaust(p, c.Args[0], !want)
		}
	case KLoad:
		if f := r.recvField(c); f != nil && c.T != nil {
			p.Set("flag", f, fmt.Sprint(want))
		}
	}
	if isErrorType(c.T) {
		_ = c
	}
}

func (r *storeRule) matched(p *Path, e, c *Val, equal bool) {
	r.obl("C01", "the expected number is compared with the current one", r.P.Pos(p.pos()))
	if equal {
		if r.locked(p) {
			p.Set("guarded", nil, "1")
			p.Set("wasguarded", nil, "1")
		}
		return
	}
	p.SetV("mismatch", nil, "1", r.P.T.mk(Val{K: KTuple, Args: []*Val{e, c}}))
}

// isList: is v the list of events, or a list built from it one element per event?
func (r *storeRule) isList(v *Val) bool {
	if v == nil {
		return false
	}
	if v == r.events {
		return true
	}
	if v.T == nil || !isSliceT(v.T) {
		return false
	}
	if _, st, ok := r.loops.Carried(v); ok {
		for k := range st {
			if strings.HasPrefix(k, "append") {
				return true
			}
		}
		if c := cellOf(v); c != nil {
			for x := range r.loops.Cell[c] {
				if x.K == KAppend {
					return true
				}
			}
		}
	}
	return false
}

func (r *storeRule) onIndex(p *Path, ev *Ev) {
	l := ev.Addr
	if l.T != nil && (isSliceT(l.T)) && (r.isList(l) || r.mapList(l)) {
		perEvent := true
		if ph := phiOf(l); ph != nil {
			perEvent = r.elemLp[ph.Block()] // built by a loop over the events
		}
		if perEvent && p.Get("exh", l) != "1" && p.Truth(p.E.T.Lt(ev.Key, p.E.T.mk(Val{K: KLen, Args: []*Val{l}, T: types.Typ[types.Int]}))) == 1 {
			p.Set("pend", l, "1")
		}
		for _, s := range ev.Key.Syms() {
			if ph := phiOf(s); ph != nil {
				r.elemLp[ph.Block()] = true
			}
		}
		if l == r.events {
			p.Set("elem", nil, "1")
		}
	}
}

// mapList: the list of a stream's records in a receiver map (delete).
func (r *storeRule) mapList(l *Val) bool {
	if r.st.Kind != "memory" || r.isSave() {
		return false
	}
	f, k := r.mapContent(l)
	return f != nil && k == r.stream
}

// exhausted: at a success point every list of events that was worked through was worked through to its end.
func (r *storeRule) exhausted(p *Path, pos token.Pos) {
	p.Each("pend", func(l *Val, _ RV) {
		r.fail("C02", "not-exhausted", p, pos, "reports success without having worked through all of "+l.String())
	})
}

// exhaust: a loop over a list found (no) further element.
func (r *storeRule) exhaust(p *Path, l *Val, end bool) {
	if !(r.isList(l) || r.mapList(l) || l.K == KRange) {
		return
	}
	if !end {
		p.Del("exh", l)
		return
	}
	r.obl("C02", "lists of events are worked through to the end", l.String())
	p.Set("exh", l, "1")
	p.Del("pend", l)
	if r.annList[l] && (r.st.Kind == "memory" || p.Get("committed", nil) == "1") {
		p.Set("annexh", nil, "1")
	}
}

func headerOf(in ssa.Instruction) *ssa.BasicBlock { return in.Block() }

func (r *storeRule) onPhi(p *Path, ev *Ev) {
	ph := ev.Instr.(*ssa.Phi)
	if ev.Bool || r.st.Kind == "" {
		return
	}
	if ev.Val != nil && ev.Val.K == KAppend {
		for _, e := range ev.Val.Args[2:] {
			r.addElem(p, ph, e)
		}
	}
	// does this variable hold the number of the last record?
	key := r.P.T.mk(Val{K: KBuiltin, Op: "phi", Site: ph})
	if r.st.Kind == "leveldb" && ev.Val != nil && ev.Val.K == KBin && ev.Val.Op == "+" && isInt(ev.Val.Args[1], 1) {
		p.Each("it", func(it *Val, x RV) {
			if x.S == "at" && p.Get("exact", it) != "1" && !exactLen(p, it) && r.dependsOnStream(p, it) {
				r.badCnt[ph] = true
			}
		})
	}
	if ev.Val != ev.Old {
		if v := p.GetV("ssn", nil); v != nil && ev.Val == v {
			p.Set("ssnphi", key, "1")
		} else if v := p.GetV("ssnold", nil); v != nil && ev.Val == v {
			p.Set("ssnphi", key, "1")
		} else if r.listNumber(ev.Val) {
			p.Set("ssnphi", key, "1")
		} else {
			p.Del("ssnphi", key)
		}
	} else {
		p.Del("ssnphi", key)
	}
	if r.isSave() && !r.collect {
		// lists must gain one element per event
		st := r.loops.Step[ph]
		app, skip := false, false
		for k := range st {
			if strings.HasPrefix(k, "append") {
				app = true
			} else {
				skip = true
			}
		}
		if app {
			r.obl("C02", "lists built from the events gain one entry per event", ph.Comment+" in "+FnName(ph.Parent()))
			if skip {
				r.fail("C02", "list-skips:"+ph.Comment, p, p.pos(), "the list "+ph.Comment+" does not gain an entry for every event")
			}
		}
	}
}

// listNumber: the stream number of an element of a list built from the events.
func (r *storeRule) listNumber(v *Val) bool {
	if v == nil || v.K != KLoad || v.Args[0].K != KFieldAddr || v.Args[0].Op != "StreamSequenceNumber" {
		return false
	}
	l, _ := elemOf(v.Args[0].Args[0])
	return l != nil && r.isList(l)
}

func (r *storeRule) addElem(p *Path, ph *ssa.Phi, e *Val) {
	if e == nil {
		return
	}
	for _, x := range r.elems[ph] {
		if x == e {
			return
		}
	}
	r.elems[ph] = append(r.elems[ph], e)
	if e.K == KAlloc {
		if pt, ok := e.T.Underlying().(*types.Pointer); ok {
			if st, ok := pt.Elem().Underlying().(*types.Struct); ok {
				for i := 0; i < st.NumFields(); i++ {
					n := st.Field(i).Name()
					if v := p.FieldOf(e, n); v != nil {
						if r.elemFld[n] == nil {
							r.elemFld[n] = map[*Val]bool{}
						}
						r.elemFld[n][v] = true
					}
				}
			}
		}
	}
}

func (r *storeRule) onLoop(p *Path, ev *Ev) {
	h := headerOf(ev.Instr)
	if !r.elemLp[h] {
		return
	}
	if v := p.GetV("ssn", nil); v != nil && v.K == KConst {
		p.SetV("ssnold", nil, "1", v)
		p.Del("ssn", nil)
	}
	ann := p.Get("accn", nil)
	if ann != "" {
		r.annLp[h] = true
	}
	if r.annLp[h] && !r.collect {
		r.obl("C13", "each event is announced exactly once", "loop at "+r.P.Pos(firstPos(h)))
		if ann == "2" {
			r.fail("C13", "announced-twice", p, token.NoPos, "announces an event more than once")
		}
		if ann == "" && p.Get("ierr", nil) != "1" {
			r.fail("C13", "not-announced", p, token.NoPos, "passes over an event without announcing it although nothing failed")
		}
	}
	p.Del("accn", nil)
	p.Del("ierr", nil)
	if r.st.Kind == "memory" {
		r.memLoop(p, h)
	}
	if r.st.Kind == "leveldb" && r.isSave() {
		if p.Get("itw", nil) == "1" {
			r.growLp[h] = true
		} else if r.growLp[h] && p.Get("elem", nil) == "1" {
			r.fail("C02", "event-skipped", p, token.NoPos, "passes over an event without storing it")
		}
		p.Del("itw", nil)
	}
	p.Del("elem", nil)
}

func firstPos(b *ssa.BasicBlock) token.Pos {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	if len(b.Instrs) > 0 {
		return b.Parent().Pos()
	}
	return token.NoPos
}

// ---------------------------------------------------------------- announcements

func (r *storeRule) accept(p *Path, c *Call) {
	pos := c.Instr.Pos()
	r.obl("C13", "announcements follow the commit", r.P.Pos(pos))
	if !r.isSave() {
		r.fail("C13", "announce-delete", p, pos, "announces a record in an operation that saves none")
	}
	switch r.st.Kind {
	case "memory":
		if p.Get("exh", r.events) != "1" {
			r.fail("C13", "announce-early", p, pos, "announces a record before every event of the batch has been stored")
			r.fail("C02", "announce-early", p, pos, "announces a record before every event of the batch has been stored")
		}
	default:
		if p.Get("committed", nil) != "1" {
			r.fail("C13", "announce-early", p, pos, "announces a record before the transaction was committed")
			r.fail("C02", "announce-early", p, pos, "announces a record before the transaction was committed")
		}
	}
	if r.st.Kind != "postgres" && !p.AnyRS("lock", "W") {
		r.fail("C13", "announce-unlocked", p, pos, "announces outside the section that orders the saves")
	}
	// the record comes from the list's element at an ascending index
	rec := c.Args[1]
	found := false
	check := func(v *Val) {
		v.Any(func(x *Val) bool {
			l, i := elemOf(x)
			if l == nil || !r.isList(l) || i == nil {
				return false
			}
			found = true
			r.annList[l] = true
			if _, st, ok := r.loops.Carried(i); ok && !onlySteps(st, "+1") {
				r.fail("C13", "announce-order", p, pos, "announces the events in another order than they were saved")
			}
			if b := i; b.K == KBin {
				if _, st, ok := r.loops.Carried(b.Args[0]); !(ok && onlySteps(st, "+1") && b.Op == "+" && b.Args[1].K == KConst) {
					r.fail("C13", "announce-order", p, pos, "announces the events in another order than they were saved")
				}
			}
			return false
		})
	}
	check(rec)
	if rec.K == KAlloc {
		for _, n := range recordFields {
			if v := p.FieldOf(rec, n); v != nil {
				check(v)
			}
		}
	}
	if !found && !r.collect {
		r.fail("C13", "announce-what", p, pos, "the announced record does not come from the saved events")
	}
	n := "1"
	if p.Get("accn", nil) != "" {
		n = "2"
	}
	p.Set("accn", nil, n)
	p.Set("announced", nil, "1")
}

var recordFields = []string{"StreamName", "AggregateType", "AggregateID", "GlobalSequenceNumber", "StreamSequenceNumber", "InsertTimestamp", "EventID", "EventType", "Data", "Metadata"}

// ---------------------------------------------------------------- exits

func (r *storeRule) onExit(p *Path, ev *Ev) {
	pos := ev.Instr.Pos()
	err := ev.Res_[len(ev.Res_)-1]
	st := p.NilState(err)
	mayOK, mayErr := st >= 0, st <= 0
	if r.cancelled {
		r.obl("C10", "a cancelled context stops the operation without effect", r.P.Pos(pos))
		if mayOK {
			r.fail("C10", "cancelled-success", p, pos, "reports success although the caller's context was already cancelled")
		}
		eff := p.Get("committed", nil) == "1"
		if r.st.Kind == "memory" {
			eff = r.memNet(p)
		}
		if eff {
			r.fail("C10", "cancelled-effect", p, pos, "changes the store although the caller's context was already cancelled")
		}
		return
	}
	// C03: every transaction ended, success means committed
	p.Each("tx", func(t *Val, x RV) {
		r.obl("C03", "transactions are ended on every path", fmt.Sprintf("exit at %s (%s)", r.P.Pos(pos), x.S))
		switch x.S {
		case "open":
			r.fail("C03", "left-open", p, pos, "returns while the transaction is neither committed nor discarded")
		case "failcommit":
			r.fail("C03", "left-open-after-failed-commit", p, pos, "returns after a failed commit without discarding the transaction, which stays open")
		case "committed":
			if !mayOK {
				r.fail("C03", "committed-error", p, pos, "reports an error although the transaction was committed")
				r.fail("C13", "committed-error", p, pos, "reports an error although the save was committed")
				r.fail("C02", "committed-error", p, pos, "reports an error although the save was committed")
			}
		default:
			if mayOK {
				r.fail("C03", "success-without-commit", p, pos, "reports success although the transaction was not committed")
			}
		}
	})
	if r.st.Kind != "memory" && mayOK {
		r.obl("C03", "success means committed", r.P.Pos(pos))
		if p.Get("committed", nil) != "1" {
			r.fail("C03", "success-without-commit", p, pos, "reports success although nothing was committed")
			r.fail("C02", "success-without-store", p, pos, "reports success although nothing was committed")
		} else if p.Get("wrote", nil) != "1" {
			r.fail("C03", "success-without-write", p, pos, "reports success although nothing was written")
			r.fail("C02", "success-without-store", p, pos, "reports success although nothing was written")
		}
	}
	// C01
	if r.optimistic() {
		if mayOK && p.Get("guarded", nil) != "1" && p.Get("wasguarded", nil) != "1" && r.st.Kind != "memory" {
			r.fail("C01", "success-unguarded", p, pos, "reports success without having found the expected sequence number equal to the current one")
		}
		if mm := p.GetV("mismatch", nil); mm != nil {
			r.obl("C01", "a mismatch is reported with both numbers", r.P.Pos(pos))
			if mayOK {
				r.fail("C01", "mismatch-success", p, pos, "reports success although the expected sequence number did not match")
			}
			r.mismatchErr(p, err, mm, pos)
		}
	}
	// C02, C13
	if !mayOK {
		r.obl("C02", "a failed save leaves nothing behind", r.P.Pos(pos))
		if p.Get("announced", nil) == "1" {
			r.fail("C13", "announced-failed", p, pos, "reports an error after having announced a record")
			r.fail("C02", "announced-failed", p, pos, "reports an error after having announced a record")
		}
	}
	if r.st.Kind == "memory" {
		r.memExit(p, pos, mayOK, mayErr)
	}
	if mayOK && r.isSave() {
		r.exhausted(p, pos)
		r.successSave(p, ev, pos)
	}
}

func (r *storeRule) mismatchErr(p *Path, err, mm *Val, pos token.Pos) {
	ok := false
	msg := "does not report a mismatch as an unexpected sequence number error"
	err.Any(func(x *Val) bool {
		if x.K != KAlloc || x.T == nil {
			return false
		}
		n := namedOf(x.T)
		if n == nil || n.Obj().Name() != "UnexpectedSequenceNumber" {
			return false
		}
		e, a := p.FieldOf(x, "Expected"), p.FieldOf(x, "ActualSequenceNumber")
		if e == mm.Args[0] && a == mm.Args[1] {
			ok = true
		} else {
			msg = "the unexpected sequence number error does not carry the expected and the actual number"
		}
		return false
	})
	if !ok {
		r.fail("C01", "mismatch-error", p, pos, msg)
	}
}

// successSave: obligations of a save that reports success.
func (r *storeRule) successSave(p *Path, ev *Ev, pos token.Pos) {
	// announced?
	excused := false
	if r.st.Kind == "postgres" {
		p.Each("flag", func(f *Val, x RV) {
			if x.S == "true" && r.notifyFlag(f) {
				excused = true
			}
		})
	}
	if !excused {
		r.obl("C13", "a successful save announces its events", r.P.Pos(pos))
		done := false
		if p.Get("annexh", nil) == "1" {
			done = true
		}
		if !done && !r.collect {
			r.fail("C13", "not-announced-exit", p, pos, "reports success without having announced every event of the batch")
		}
	} else if p.Get("announced", nil) == "1" {
		r.fail("C13", "announced-twice", p, pos, "announces events that the database announces as well")
	}
	r.returned(p, ev.Res_[0], pos)
}

// notifyFlag: the receiver field that also decides whether the database notifies the listener.
func (r *storeRule) notifyFlag(f *Val) bool {
	return r.P.fieldGuardsText(r.st.N, f.Op, "pg_notify")
}

// fieldGuardsText: does a method of n mention a text only where field f is true?
func (P *Prog) fieldGuardsText(n *types.Named, field, text string) bool {
	for i := 0; i < n.NumMethods(); i++ {
		fn := P.SSA.FuncValue(n.Method(i))
		if fn == nil {
			continue
		}
		found := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var ops [16]*ssa.Value
				for _, o := range in.Operands(ops[:0]) {
					if o == nil {
						continue
					}
					if c, ok := (*o).(*ssa.Const); ok && c.Value != nil && strings.Contains(c.Value.ExactString(), text) {
						for d := b; d != nil; d = d.Idom() {
							p := d.Idom()
							if p == nil {
								break
							}
							if iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok && p.Succs[0].Dominates(b) && p.Succs[1] != p.Succs[0] && len(p.Succs[0].Preds) == 1 {
								if u, ok := iff.Cond.(*ssa.UnOp); ok && u.Op == token.MUL {
									if fa, ok := u.X.(*ssa.FieldAddr); ok {
										st := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
										if st.Field(fa.Field).Name() == field {
											found = true
										}
									}
								}
							}
						}
					}
				}
			}
		}
		if found {
			return true
		}
	}
	return false
}
