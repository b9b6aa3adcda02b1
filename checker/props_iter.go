package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

var iterAssume = []string{
	"the Go compiler and runtime, database/sql, goleveldb, gRPC and encoding/json behave as documented",
	"loops are generalised over their variables; functions are inlined up to 16 deep; nothing is bounded by a number of rounds",
	"C06 does not cover the experimental EventStoreDB adapter",
}

func init() {
	register("C07", "Every path of every producer of a record iterator (exported functions returning one, and the goroutines they start) is explored; a failure must be handed over as an error before the iterator ends, and a source that ended must be asked for its error.", iterAssume, func(P *Prog, R *Report) {
		runIters(P, R, "C07")
		iterScenarios(P, R)
		R.Need("the producer ends without error only when nothing failed", 10)
		R.Need("failures are handed over", 10)
		R.Need("a failed decryption ends the iteration", 1)
		R.Need("an error ends the iteration for good", 1)
	})
	register("C09", "Every path of every producer of a record iterator is explored: the channel is closed exactly once, nothing is sent afterwards, and every wait in it also waits for the reader's context.", iterAssume, func(P *Prog, R *Report) {
		runIters(P, R, "C09")
		readN(P, R)
		R.Need("the producer closes the iterator on every path", 10)
		R.Need("handing over gives up when the context is cancelled", 3)
		R.Need("a bounded read cancels and drains", 1)
	})
	register("C06", "Every path of the reads of the in-memory, LevelDB and PostgreSQL stores is explored: each entry is handed over or was found below the start or foreign, in the order of the index; queries are checked clause by clause; stores and servers in front pass their arguments on unchanged.", iterAssume, func(P *Prog, R *Report) {
		runIters(P, R, "C06")
		passReads(P, R)
		mergeOrder(P, R)
		R.Need("only records at or after the start are handed over", 6)
		R.Need("the query selects by the requested start and orders by number", 3)
		R.Need("index lists are walked in ascending order", 3)
		requestReads(P, R, "C06")
		R.Need("a read is passed on with the start and selection asked for", 6)
		R.Need(rulePageRead, 3)
	})
}

func runIters(P *Prog, R *Report, prop string) {
	for _, f := range iterRoots(P) {
		r := &iterRule{P: P, R: R, prop: prop, root: f}
		if recv := f.Signature.Recv(); recv != nil {
			for _, s := range P.Stores() {
				if n := namedOf(recv.Type()); n == s.N && in(f.Name(), "Events", "EventsByAggregateTypes", "EventsByStream") {
					r.kind, r.op = s.Kind, f.Name()
				}
			}
		}
		if prop == "C05" && r.kind != "postgres" {
			continue
		}
		if prop == "C06" && !in(r.kind, "memory", "leveldb", "postgres", "remote") {
			continue
		}
		r.run()
	}
}

func rootsNamed(P *Prog, pred func(f *ssa.Function) bool) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range P.Funcs {
		if f.Parent() == nil && !IsTestSupport(pkgOf(f).Path()) && pred(f) {
			out = append(out, f)
		}
	}
	return out
}

func shortPkg(f *ssa.Function) string { return strings.TrimPrefix(pkgOf(f).Path(), modPath+"/") }

// readN: a bounded read cancels the read it made and then drains it.
func readN(P *Prog, R *Report) {
	f := P.Func("", "ReadNRecords")
	if f == nil {
		return
	}
	r := &readNRule{P: P, R: R, root: f}
	e := NewEngine(P, r)
	e.RunRoot(f, nil)
	R.Engine(e, FnName(f))
}

type readNRule struct {
	Base
	P    *Prog
	R    *Report
	root *ssa.Function
}

func (r *readNRule) Model(p *Path, c *Call) []Outcome {
	if isIterMethod(r.P, c, "Next") || isIterMethod(r.P, c, "NextContext") {
		return boolFork(func(q *Path, res *Val) { q.Set("nx", nil, "t") }, func(q *Path, res *Val) { q.Set("nx", nil, "f") })
	}
	return nil
}

func (r *readNRule) Event(p *Path, ev *Ev) {
	name := FnName(r.root)
	switch ev.K {
	case EvCall:
		c := ev.Call
		if isIterMethod(r.P, c, "Record") {
			p.Set("nx", nil, "used")
		}
		if isIterMethod(r.P, c, "Next") || isIterMethod(r.P, c, "NextContext") {
			if p.Get("nx", nil) == "t" && p.Get("cancelled", nil) == "" {
				r.R.Fail("reads-on", ev.Instr.Pos(), name+": reads on after the last record wanted without cancelling the read", p)
			}
			p.Del("nx", nil)
		}
		if c.FV != nil && isNamedIn(c.FV.T, "context", "CancelFunc") {
			p.Set("cancelled", nil, "1")
		}
	case EvExit:
		r.R.Obl("a bounded read cancels and drains", name)
		if p.Get("cancelled", nil) == "" {
			r.R.Fail("not-cancelled", ev.Instr.Pos(), name+": returns without cancelling the read", p)
		}
		if p.Get("nx", nil) != "f" {
			r.R.Fail("not-drained", ev.Instr.Pos(), name+": returns without having drained the read: its producer may stay blocked and hold the store", p)
		}
	}
}

// mergeOrder: numbers in LevelDB keys are written so that the order of keys is the order of numbers.
func mergeOrder(P *Prog, R *Report) {
	st := P.StoreOf("leveldb")
	if st == nil {
		return
	}
	for _, f := range P.Funcs {
		if pkgOf(f) != st.N.Obj().Pkg() {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok || g.Pkg == nil || g.Pkg.Pkg.Path() != "encoding/binary" {
						continue
					}
					R.Obl("numbers are written big-endian in keys", FnName(f))
					if g.Name() != "BigEndian" {
						R.Fail("endian:"+FnName(f), in.Pos(), "numbers are written in an order ("+g.Name()+") in which the order of keys is not the order of numbers", nil)
					}
				}
			}
		}
	}
	R.Need("numbers are written big-endian in keys", 1)
}
