package main

import (
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var storeAssume = []string{
	"the Go compiler, runtime, database/sql, lib/pq and goleveldb behave as documented",
	"event values' AggregateType, AggregateID and EventType are pure",
	"loops are generalised over their variables; functions are inlined up to 16 deep; nothing is bounded by a number of rounds",
}

func init() {
	register("C01", "Every path of the optimistic save and delete of the three stores is explored; each change must follow a branch on the equality of the caller's expected number and the number read under the same exclusive lock or advisory-locked transaction.", storeAssume, func(P *Prog, R *Report) {
		runStores(P, R, "C01", "OptimisticSave", "OptimisticDeleteStream", "Save")
		passThrough(P, R, "C01")
		esdbStores(P, R)
		httpAnswers(P, R, "C01")
		R.Need("a change follows the exact match under the exclusive lock", 6)
		R.Need("the expected number is compared with the current one", 5)
		R.Need("a mismatch is reported with both numbers", 6)
	})
	register("C02", "Every path of the saves of the three stores is explored; on each failing exit everything added must have been undone (in-memory) or not committed, on each successful one every event must have been stored.", storeAssume, func(P *Prog, R *Report) {
		runStores(P, R, "C02", "OptimisticSave", "Save")
		R.Need("a failed save leaves nothing behind", 4)
		R.Need("lists of events are worked through to the end", 6)
	})
	register("C03", "Typestate of every LevelDB and PostgreSQL transaction over all paths of the operations that open one.", storeAssume, func(P *Prog, R *Report) {
		rs := runStores(P, R, "C03", "OptimisticSave", "Save", "OptimisticDeleteStream")
		txSites(P, R, rs)
		R.Need("transactions are ended on every path", 12)
		R.Need("commit only after successful writes", 4)
		R.Need("every transaction is opened by an analysed operation", 2)
	})
	register("C04", "Terms of the sequence numbers given to stored records, over all paths of the saves and deletes of the three stores.", storeAssume, func(P *Prog, R *Report) {
		runStores(P, R, "C04", "OptimisticSave", "Save", "OptimisticDeleteStream")
		serialDDL(P, R)
		R.Need("the stored record carries the next stream number", 3)
		R.Need("the save returns its last record's stream number", 6)
	})
	register("C05", "Index entries made by saves, removed by deletes and used by reads are compared, field by field (in-memory), key by key (LevelDB) and column by column (PostgreSQL).", storeAssume, func(P *Prog, R *Report) {
		rs := runStores(P, R, "C05", "OptimisticSave", "Save", "OptimisticDeleteStream")
		var mem []*storeRule
		var memDel *storeRule
		var put []*storeRule
		var ldel *storeRule
		for _, r := range rs {
			if r.cancelled {
				continue
			}
			switch {
			case r.st.Kind == "memory" && r.isSave():
				mem = append(mem, r)
			case r.st.Kind == "memory":
				memDel = r
			case r.st.Kind == "leveldb" && r.isSave():
				put = append(put, r)
			case r.st.Kind == "leveldb":
				ldel = r
			}
		}
		if memDel != nil {
			memIndexes(P, R, memDel.st, mem, memDel)
		}
		ldbKeys(P, R, put, ldel)
		runIters(P, R, "C05")
		R.Need("the query selects exactly the requested stream or aggregate types", 3)
		R.Need("every index read from is written by saves", 8)
		R.Need("every index read from is cleared by a delete", 4)
		R.Need("each event is entered into every index in one step", 2)
		R.Need("a delete removes the keys a save wrote", 3)
		R.Need("the insert fills every column that is read", 2)
	})
	register("C13", "Every hand-over of a record to the broadcaster is located on all paths of the saves: after the commit, once per event, in order, inside the ordering section; the notification listener is explored as a loop without exit.", storeAssume, func(P *Prog, R *Report) {
		runStores(P, R, "C13", "OptimisticSave", "Save", "OptimisticDeleteStream")
		pgListener(P, R)
		R.Need("announcements follow the commit", 6)
		R.Need("a successful save announces its events", 6)
	})
	register("C10", "Saves and deletes are explored under the assumption that the caller's context is already cancelled; context arguments of all blocking calls made by stores, client and server must be the operation's context or derived from it.", storeAssume, func(P *Prog, R *Report) {
		runStores(P, R, "C10", "OptimisticSave", "Save", "OptimisticDeleteStream")
		ctxPass(P, R)
		R.Need("a cancelled context stops the operation without effect", 9)
	})
}

func runStores(P *Prog, R *Report, prop string, ops ...string) []*storeRule {
	var out []*storeRule
	for _, kind := range []string{"memory", "leveldb", "postgres"} {
		st := P.StoreOf(kind)
		if st == nil {
			R.Fail("store:"+kind, token.NoPos, "no implementation of the "+kind+" store found", nil)
			continue
		}
		for _, op := range ops {
			r := &storeRule{P: P, R: R, prop: prop, st: st, op: op, cancelled: prop == "C10", keysPut: map[string]bool{}}
			r.run()
			out = append(out, r)
		}
	}
	return out
}

// txSites: every place in the repository that opens a transaction is inside an analysed operation.
func txSites(P *Prog, R *Report, rs []*storeRule) {
	for _, f := range P.Funcs {
		if IsTestSupport(pkgOf(f).Path()) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				c := ci.Common()
				name := ""
				if c.IsInvoke() {
					name = c.Method.FullName()
				} else if sc := c.StaticCallee(); sc != nil {
					name = sc.String()
				}
				if !(strings.HasSuffix(name, "leveldb.DB).OpenTransaction") || strings.HasSuffix(name, "sql.DB).BeginTx") || strings.HasSuffix(name, "sql.DB).Begin") || strings.HasSuffix(name, "sql.Conn).BeginTx")) {
					continue
				}
				R.Obl("every transaction is opened by an analysed operation", P.Pos(in.Pos()))
				seen := false
				for _, r := range rs {
					if r.visited[in] {
						seen = true
					}
				}
				if !seen {
					R.Fail("tx-site:"+FnName(f), in.Pos(), "a transaction is opened here, outside the analysed store operations", nil)
				}
			}
		}
	}
}
