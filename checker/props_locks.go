package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Shared state and its locks. For every shared object (store, key store, registry, projection) the fields its methods
// change are found first; then every access must happen while the lock that guards the field is held, in the mode the
// access needs. Locks are followed along every path, into the goroutines they are handed to.

type lockRule struct {
	Base
	P     *Prog
	R     *Report
	name  string
	root  *ssa.Function
	typ   *types.Named
	first bool
	self  *Val

	changed  map[string]token.Pos // parts that are assigned
	inplace  map[string]token.Pos // parts whose contents are changed in place
	mutexes  map[string]bool
	held     map[string]map[string]int // part -> mutex -> accesses while it is held
	handed   []*handOff
	order    map[string]map[string]token.Pos // lock order between types
	accesses int
}

// handOff is what a goroutine does with a lock it got from the one who started it.
type handOff struct {
	rel, keep int
	used      []func() // complaints about uses, in case the lock is not handed over
}

func (r *lockRule) Inline(p *Path, c *Call) bool { return true }

func (r *lockRule) SelectCase(p *Path, ev *Ev, i int) bool { return true }

func (r *lockRule) Model(p *Path, c *Call) []Outcome {
	if lockOp(c) != "" {
		return nil
	}
	if c.M != nil && c.M.Name() == "TryLock" {
		return nil
	}
	if failing(r.P, c) {
		return errFork(nil, nil)
	}
	return nil
}

func (r *lockRule) fail(p *Path, key string, pos token.Pos, msg string) {
	if r.first {
		return
	}
	if !pos.IsValid() {
		pos = r.root.Pos()
	}
	r.R.Fail(key+":"+r.name, pos, r.name+": "+msg, p)
}

// place names the part of the object an address stands for.
func (r *lockRule) place(a *Val) string {
	s := ""
	for a != nil && a.K == KFieldAddr {
		s = "." + a.Op + s
		a = a.Args[0]
	}
	if a == nil || a != r.self {
		return ""
	}
	return s
}

// origin names the part of the object whose contents v shares: "" if none.
func (r *lockRule) origin(v *Val) string {
	for i := 0; v != nil && i < 20; i++ {
		v = unconv(v)
		switch v.K {
		case KLoad, KWiden, KOut:
			if len(v.Args) == 0 {
				return ""
			}
			a := v.Args[0]
			switch a.K {
			case KFieldAddr:
				if s := r.place(a); s != "" {
					return s
				}
				return ""
			case KMapElem:
				if s := r.origin(a.Args[0]); s != "" {
					return s + "[]"
				}
				return ""
			case KIndexAddr:
				if s := r.origin(a.Args[0]); s != "" {
					return s + "[]"
				}
				return ""
			}
			return ""
		case KField:
			if s := r.origin(v.Args[0]); s != "" {
				return s + "." + v.Op
			}
			return ""
		case KLookup:
			if v.Op == "ok" {
				return ""
			}
			if s := r.origin(v.Args[0]); s != "" {
				return s + "[]"
			}
			return ""
		case KNext:
			if v.Op != "v" || len(v.Args) == 0 || len(v.Args[0].Args) == 0 {
				return ""
			}
			if s := r.origin(v.Args[0].Args[0]); s != "" {
				return s + "[]"
			}
			return ""
		case KSlice, KAppend:
			v = v.Args[0]
			continue
		case KFieldAddr:
			return ""
		}
		return ""
	}
	return ""
}

// shares: can a value of type t share memory with where it came from?
func shares(t types.Type) bool {
	if t == nil {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Map, *types.Slice, *types.Pointer:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if shares(u.Field(i).Type()) {
				return true
			}
		}
	}
	return false
}

// mutexKey names a lock.
func (r *lockRule) mutexKey(p *Path, a *Val) string {
	a = unconv(a)
	if s := r.place(a); s != "" {
		return s
	}
	if a.K == KLoad {
		if s := r.place(a.Args[0]); s != "" {
			return s
		}
	}
	if a.K == KFieldAddr && a.Args[0].T != nil {
		if n := namedOf(derefT(a.Args[0].T)); n != nil {
			return n.Obj().Name() + "." + a.Op
		}
	}
	return a.String()
}

func (r *lockRule) Event(p *Path, ev *Ev) {
	pos := token.NoPos
	if ev.Instr != nil {
		pos = ev.Instr.Pos()
	}
	if !pos.IsValid() {
		pos = p.pos()
	}
	switch ev.K {
	case EvCall:
		r.call(p, ev.Call, pos)
	case EvLoad:
		if s := r.place(ev.Addr); s != "" {
			if !r.isLock(ev.Addr.T) {
				r.access(p, s, false, false, pos)
			}
		} else if ev.Addr.K == KIndexAddr {
			if s := r.origin(ev.Addr.Args[0]); s != "" {
				r.access(p, s, true, false, pos)
			}
		}
	case EvStore:
		if s := r.place(ev.Addr); s != "" {
			r.access(p, s, false, true, pos)
			if v := unconv(ev.Val); v != nil && (v.K == KSlice && r.origin(v) == s) {
				r.mark(r.inplace, s, pos)
			}
		} else if ev.Addr.K == KIndexAddr {
			if s := r.origin(ev.Addr.Args[0]); s != "" {
				r.access(p, s, true, true, pos)
			}
		}
	case EvMapRead:
		if s := r.origin(ev.Addr); s != "" {
			r.access(p, s, true, false, pos)
		}
	case EvMapUpdate, EvMapDelete:
		if s := r.origin(ev.Addr); s != "" {
			r.access(p, s, true, true, pos)
			if v := unconv(ev.Val); v != nil && v.K == KSlice && r.origin(v) == s+"[]" {
				r.mark(r.inplace, s+"[]", pos)
			}
		}
	case EvAppend:
		if s := r.origin(ev.Addr); s != "" && unconv(ev.Addr).K == KSlice {
			r.access(p, s, true, true, pos)
		}
		if ev.Val != nil {
			if s := r.origin(ev.Val); s != "" {
				r.access(p, s, true, false, pos)
			}
		}
	case EvSelect:
		r.wait(p, ev, pos)
	case EvGo:
		r.spawn(p, ev.Call, pos)
	case EvExit:
		r.exit(p, ev, pos)
	}
}

func (r *lockRule) isLock(t types.Type) bool {
	n := namedOf(derefT(derefT(t)))
	return n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync"
}

func (r *lockRule) mark(m map[string]token.Pos, s string, pos token.Pos) {
	if _, ok := m[s]; !ok {
		m[s] = pos
	}
}

// guardOf is the mutex that guards a part: the one held most often when it is used.
func (r *lockRule) guardOf(s string) string {
	best, n := "", 0
	var ks []string
	for k := range r.held[s] {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if c := r.held[s][k]; c > n {
			best, n = k, c
		}
	}
	if best == "" && len(r.mutexes) == 1 {
		for k := range r.mutexes {
			best = k
		}
	}
	return best
}

// overlaps: is one of two parts within the other?
func overlaps(a, b string) bool {
	in := func(x, y string) bool {
		return x == y || strings.HasPrefix(x, y) && (x[len(y)] == '.' || x[len(y)] == '[')
	}
	return in(a, b) || in(b, a)
}

// access judges a use of a part of the object: of the variable itself, or of its contents.
func (r *lockRule) access(p *Path, s string, contents, write bool, pos token.Pos) {
	if r.first {
		if write && contents {
			r.mark(r.inplace, s, pos)
		} else if write {
			r.mark(r.changed, s, pos)
		}
		p.Each("lock", func(k *Val, x RV) {
			m := r.mutexKey(p, k)
			if r.held[s] == nil {
				r.held[s] = map[string]int{}
			}
			r.held[s][m]++
		})
		return
	}
	mutable := false
	if contents {
		_, mutable = r.inplace[s]
	} else {
		for k := range r.changed {
			mutable = mutable || overlaps(k, s)
		}
	}
	if !mutable {
		return
	}
	guard := r.guardOf(s)
	what := "read"
	if write {
		what = "changed"
	}
	r.accesses++
	mode, lent := "", false
	p.Each("lock", func(k *Val, x RV) {
		if r.mutexKey(p, k) == guard {
			mode = x.S[:1]
			lent = strings.HasSuffix(x.S, "lent")
		}
	})
	part := typeName(r.typ) + s
	switch {
	case guard == "" || mode == "":
		r.fail(p, "unguarded"+s, pos, part+" is "+what+" without its lock")
	case write && mode == "R":
		r.fail(p, "shared-write"+s, pos, part+" is changed while its lock is only held for reading")
	default:
		if lent && len(r.handed) > 0 {
			h := r.handed[len(r.handed)-1]
			q := p.clone()
			h.used = append(h.used, func() {
				r.fail(q, "unguarded"+s, pos, part+" is "+what+" by a goroutine that does not hold its lock")
			})
		}
		r.R.Obl("mutable state is used under its lock", part+" "+r.P.Pos(pos)+" "+what)
	}
}

func typeName(n *types.Named) string { return n.Obj().Name() }

func (r *lockRule) call(p *Path, c *Call, pos token.Pos) {
	op := lockOp(c)
	if op != "" && len(c.Args) > 0 {
		r.lock(p, c, op, pos)
		return
	}
	if c.Fn != nil && r.P.InRepo(c.Fn) && len(c.Fn.Blocks) > 0 {
		return
	}
	pkg, name := c.callee()
	atomic := strings.HasPrefix(pkg, "sync/atomic")
	for _, a := range p.XArgs(c) {
		if a == nil {
			continue
		}
		a = unconv(a)
		if s := r.place(a); s != "" && !r.isLock(a.T) {
			if atomic {
				if r.first && !strings.HasPrefix(name, "Load") {
					r.mark(r.changed, s, pos)
				}
				continue
			}
			r.access(p, s, false, !readsOnly(c) && !strings.HasPrefix(name, "Marshal") && name != "Encode", pos)
			continue
		}
		if s := r.origin(a); s != "" && shares(a.T) {
			for k := range r.inplace {
				if overlaps(k, s) {
					r.access(p, k, true, pkg == "sort", pos)
				}
			}
			if r.first && pkg == "sort" {
				r.mark(r.inplace, s, pos)
			}
		}
	}
	if p.AnyRS("lock", "") {
		r.waits(p, c, pkg, name, pos)
	}
}

// waits: calls that wait for someone else.
func (r *lockRule) waits(p *Path, c *Call, pkg, name string, pos token.Pos) {
	full := pkg + "." + name
	what := ""
	switch {
	case in(full, "sync.(*WaitGroup).Wait", "sync.(*Cond).Wait", "time.Sleep"), in(c.Name(), "(*sync.WaitGroup).Wait", "(*sync.Cond).Wait"):
		what = "waits"
	case c.M != nil && c.Fn == nil && name0(c) == "Next" && len(c.Args) == 1 && r.isIter(c.Args[0].T):
		what = "waits for the next record of another source"
	case c.M != nil && c.Fn == nil && name0(c) == "Accept" && len(c.Args) == 2 && !isBroadcaster(r.P, c.Args[0].T) && isRecord(c.Args[1].T):
		what = "hands a record to a subscriber, who may take for ever,"
	case c.M != nil && in(name0(c), "Start", "StartFrom") && r.isSubscription(c):
		what = "starts a subscription, which waits for its consumer,"
	}
	if what == "" {
		return
	}
	r.fail(p, "waits", pos, what+" while holding a lock")
}

func name0(c *Call) string { return c.M.Name() }

func (r *lockRule) isIter(t types.Type) bool {
	it := r.P.Iface("", "RecordIterator")
	return it != nil && t != nil && types.Implements(t, it)
}

func (r *lockRule) isSubscription(c *Call) bool {
	it := r.P.Iface("", "RecordSubscription")
	return it != nil && len(c.Args) > 0 && c.Args[0].T != nil && types.Implements(c.Args[0].T, it)
}

func (r *lockRule) lock(p *Path, c *Call, op string, pos token.Pos) {
	a := lockOf(c)
	key := r.mutexKey(p, a)
	if r.first {
		if strings.HasPrefix(key, ".") {
			r.mutexes[key] = true
		}
	}
	cur := p.Get("lock", a)
	switch op {
	case "W+", "R+":
		if cur != "" {
			r.fail(p, "again", pos, "acquires "+key+" while it is already held")
			p.dead = true
			return
		}
		p.Each("lock", func(k *Val, x RV) {
			h := r.mutexKey(p, k)
			if r.order[r.full(h)] == nil {
				r.order[r.full(h)] = map[string]token.Pos{}
			}
			if _, ok := r.order[r.full(h)][r.full(key)]; !ok {
				r.order[r.full(h)][r.full(key)] = pos
			}
		})
		p.Set("lock", a, op[:1])
		if !r.first {
			r.R.Obl("a lock is not acquired twice", r.P.Pos(pos))
		}
	default:
		if cur == "" {
			r.fail(p, "unheld", pos, "releases "+key+", which is not held")
			p.dead = true
			return
		}
		if cur[:1] != op[:1] {
			r.fail(p, "mode", pos, "releases "+key+" in another mode than it was acquired in")
			p.dead = true
			return
		}
		if strings.HasSuffix(cur, "lent") && len(r.handed) > 0 {
			p.Set("gave", nil, "1")
		}
		p.Del("lock", a)
	}
}

// full qualifies a lock with its type.
func (r *lockRule) full(key string) string {
	if strings.HasPrefix(key, ".") {
		return typeName(r.typ) + key
	}
	return key
}

// wait judges channel operations while a lock is held.
func (r *lockRule) wait(p *Path, ev *Ev, pos token.Pos) {
	if !ev.Block || !p.AnyRS("lock", "") {
		return
	}
	for _, s := range ev.Sel {
		ch := unconv(s.Chan)
		if !s.Send && (doneOf(ch) != nil || isTimer(ch)) {
			r.obl("a wait under a lock can be cancelled", r.P.Pos(pos))
			return
		}
		if s.Send && ch.K == KMake && len(ch.Args) > 0 && ch.Args[0] != nil && ch.Args[0].K == KConst && !isInt(ch.Args[0], 0) {
			return // a buffered channel made here
		}
	}
	r.fail(p, "waits", pos, "waits for another party, without a way to cancel, while holding a lock")
}

func (r *lockRule) obl(kind, what string) {
	if !r.first {
		r.R.Obl(kind, what)
	}
}

// isTimer: a channel that becomes ready after some time.
func isTimer(ch *Val) bool {
	return ch.K == KCall && ch.FullName() == "time.After" || ch.Any(func(x *Val) bool { return x.K == KCall && in(x.FullName(), "time.NewTimer", "time.After") })
}

func (r *lockRule) spawn(p *Path, c *Call, pos token.Pos) {
	rs := map[RK]RV{{"stage", nil}: {S: "go"}}
	lent := false
	p.Each("lock", func(k *Val, x RV) {
		rs[RK{"lock", k}] = RV{S: x.S[:1] + " lent"}
		lent = true
	})
	h := &handOff{}
	r.handed = append(r.handed, h)
	known := p.E.RunGo(p, c, rs)
	r.handed = r.handed[:len(r.handed)-1]
	if !known || !lent {
		return
	}
	switch {
	case h.rel > 0 && h.keep > 0:
		r.fail(p, "handed", pos, "a goroutine releases the lock it was given on some of its paths only")
		p.dead = true
	case h.rel > 0:
		// the goroutine owns the lock now
		p.DelAll("lock")
		r.obl("a lock handed to a goroutine is released by it", r.P.Pos(pos))
	default:
		for _, f := range h.used {
			f()
		}
	}
}

func (r *lockRule) exit(p *Path, ev *Ev, pos token.Pos) {
	own, lent := false, false
	p.Each("lock", func(k *Val, x RV) {
		if strings.HasSuffix(x.S, "lent") {
			lent = true
		} else {
			own = true
		}
	})
	if p.Get("stage", nil) == "go" && len(r.handed) > 0 {
		h := r.handed[len(r.handed)-1]
		if lent {
			h.keep++
		} else if p.Get("gave", nil) != "" {
			h.rel++
		}
	}
	if own {
		r.fail(p, "kept", pos, "returns without releasing a lock")
		return
	}
	if p.Get("stage", nil) == "" {
		for _, v := range ev.Res_ {
			if v == nil || !shares(v.T) {
				continue
			}
			s := r.origin(v)
			if s == "" {
				continue
			}
			for k := range r.inplace {
				if overlaps(k, s) {
					r.fail(p, "handed-out"+s, pos, typeName(r.typ)+s+", which is changed in place, is handed out to be read without the lock")
				}
			}
		}
	}
}

// methodsOf lists what runs on an object: its exported methods and the ones its goroutines run.
func methodsOf(P *Prog, n *types.Named) []*ssa.Function {
	var out []*ssa.Function
	spawned := map[*ssa.Function]bool{}
	for _, f := range P.Funcs {
		top := f
		for top.Parent() != nil {
			top = top.Parent()
		}
		if recv := top.Signature.Recv(); recv != nil && namedOf(derefT(recv.Type())) == n {
			continue // explored from there
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if g, ok := i.(*ssa.Go); ok {
					if c := g.Call.StaticCallee(); c != nil {
						spawned[c] = true
					}
				}
			}
		}
	}
	for _, f := range P.Funcs {
		if f.Signature.Recv() == nil || f.Parent() != nil || f.Synthetic != "" || len(f.Blocks) == 0 {
			continue
		}
		if namedOf(derefT(f.Signature.Recv().Type())) == n && (token.IsExported(f.Name()) || spawned[f]) {
			out = append(out, f)
		}
	}
	return out
}

// sharedTypes are the types whose objects are used by several goroutines.
func sharedTypes(P *Prog) []*types.Named {
	seen := map[*types.Named]bool{}
	var out []*types.Named
	add := func(n *types.Named) {
		if n == nil || seen[n] || n.Obj().Pkg() == nil || IsTestSupport(n.Obj().Pkg().Path()) || strings.Contains(n.Obj().Pkg().Path(), "/examples/") || strings.Contains(n.Obj().Pkg().Path(), "/gen/") {
			return
		}
		if _, ok := n.Underlying().(*types.Struct); !ok {
			return
		}
		seen[n] = true
		out = append(out, n)
	}
	for _, x := range [][2]string{{"", "Store"}, {"pkg/crypto", "KeyStore"}, {"", "RecordSerializer"}, {"", "EventTypeIdentifier"}, {"", "EventBinder"}, {"", "RecordSubscriber"}} {
		it := P.Iface(x[0], x[1])
		if it == nil {
			continue
		}
		for _, n := range P.Implementers(it) {
			if !isBroadcaster(P, types.NewPointer(n)) {
				add(n)
			}
		}
	}
	for _, f := range P.Funcs {
		if f.Signature.Recv() == nil || f.Parent() != nil {
			continue
		}
		n := namedOf(derefT(f.Signature.Recv().Type()))
		if n == nil {
			continue
		}
		st, ok := n.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			if m := namedOf(derefT(st.Field(i).Type())); m != nil && m.Obj().Pkg() != nil && m.Obj().Pkg().Path() == "sync" && in(m.Obj().Name(), "Mutex", "RWMutex") {
				add(n)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

func locks(P *Prog, R *Report) {
	order := map[string]map[string]token.Pos{}
	guarded := 0
	for _, n := range sharedTypes(P) {
		r := &lockRule{P: P, R: R, typ: n, changed: map[string]token.Pos{}, inplace: map[string]token.Pos{}, mutexes: map[string]bool{}, held: map[string]map[string]int{}, order: order}
		ms := methodsOf(P, n)
		for _, first := range []bool{true, false} {
			r.first = first
			for _, f := range ms {
				r.root = f
				r.name = FnName(f)
				e := NewEngine(P, r)
				e.RunRoot(f, func(p *Path, params []*Val) {
					r.self = params[0]
					if _, ok := r.self.T.Underlying().(*types.Pointer); ok {
						p.SetNil(r.self, false)
					}
				})
				if !first {
					R.Engine(e, r.name)
				}
			}
		}
		if len(r.mutexes) > 0 {
			guarded++
			R.Obl("types with a lock", n.Obj().Name())
		}
	}
	// a cycle in the order of locks
	var names []string
	for k := range order {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		seen := map[string]bool{}
		var visit func(x string) bool
		visit = func(x string) bool {
			for y := range order[x] {
				if y == k {
					return true
				}
				if !seen[y] {
					seen[y] = true
					if visit(y) {
						return true
					}
				}
			}
			return false
		}
		if visit(k) {
			for _, pos := range order[k] {
				R.Fail("order:"+k, pos, fmt.Sprintf("the locks around %s are acquired in different orders", k), nil)
				break
			}
		}
	}
	R.Need("types with a lock", 4)
	R.Need("mutable state is used under its lock", 20)
	R.Need("a lock is not acquired twice", 10)
	R.Need("a lock handed to a goroutine is released by it", 2)
	R.Need("a wait under a lock can be cancelled", 1)
}

func init() {
	register("C11",
		"For every shared type (implementers of the store, key store, serializer, type registry and subscriber interfaces, and every type with a mutex) the exported methods and the goroutines they start are explored along every path. A first pass collects the parts of the object that are changed outside its construction and the mutex that guards them; a second pass requires that mutex at every access (exclusively for a change), one release in the same mode per acquisition on every path including paths of a goroutine the lock was handed to, no second acquisition by a holder, no wait under a lock that cannot be cancelled or timed out, no result that exposes contents changed in place, and no cycle in the order of locks.",
		[]string{
			"the part's guard is the mutex held most often when it is used",
			"constructors and options run before the object is shared",
			"handing a record to the broadcaster under a lock ends (C14)",
			"library objects (maps of package sync, atomics, database handles) synchronise themselves",
		},
		func(P *Prog, R *Report) { locks(P, R) })
}
