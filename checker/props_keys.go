package main

import (
	"encoding/json"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C17: key stores. Get, Set and Delete of every key store are explored along every path, once more with an empty key.

func init() {
	register("C17", "Every path of Get, Set and Delete of every key store is explored, Set also with an empty key: the existence check and the write are one critical section or one conditional request, failures are reported, deletion leaves a tombstone that Get looks at, and the cache asks and writes its authoritative store first.", []string{
		"PostgreSQL, DynamoDB and Vault execute conditional writes, unique constraints and check-and-set as documented",
		"a PostgreSQL or DynamoDB table is the one this code creates",
	}, func(P *Prog, R *Report) {
		for _, t := range P.Implementers(P.Iface("pkg/crypto", "KeyStore")) {
			k := keyStoreKind(t)
			if k == "" {
				R.Fail("kind:"+t.String(), t.Obj().Pos(), "a key store that is built on none of the known backends: "+t.String(), nil)
				continue
			}
			ks := &keyStore{P: P, R: R, t: t, kind: k, tomb: map[string]bool{}, checked: map[string]bool{}, mapsW: map[*Val]bool{}}
			ks.run()
		}
		R.Need("an empty key is refused without a write", 4)
		R.Need("a key is written only if there is none", 4)
		R.Need("deletion leaves a tombstone", 4)
		R.Need("only a present, undeleted key is returned", 5)
		R.Need("failures are reported", 10)
		R.Need("the authoritative store comes first", 3)
	})
}

func keyStoreKind(t *types.Named) string {
	st := structOf(t)
	if st == nil {
		return ""
	}
	k := ""
	for i := 0; i < st.NumFields(); i++ {
		ft := st.Field(i).Type()
		s := types.TypeString(ft, nil)
		switch {
		case s == "*database/sql.DB":
			return "postgres"
		case strings.Contains(s, "dynamodbiface.") || strings.Contains(s, "service/dynamodb."):
			return "dynamodb"
		case s == "*net/http.Client":
			return "vault"
		case isNamedIn(ft, modPath+"/pkg/crypto", "KeyStore"):
			return "cache"
		}
		if _, ok := ft.Underlying().(*types.Map); ok {
			k = "memory"
		}
	}
	return k
}

type keyStore struct {
	P       *Prog
	R       *Report
	t       *types.Named
	kind    string
	tomb    map[string]bool // attributes or columns a delete sets
	checked map[string]bool
	mapsW   map[*Val]bool
	auth    string // cache: the field of the store asked last
}

func (k *keyStore) run() {
	if k.kind == "cache" {
		k.one("Get", false)
		k.one("Delete", false)
	} else {
		k.one("Delete", false)
		k.one("Get", false)
	}
	k.one("Set", false)
	if k.kind != "cache" {
		k.one("Set", true)
	}
	if k.kind == "postgres" {
		k.ddl()
	}
}

func (k *keyStore) one(op string, empty bool) {
	f := k.P.Method(k.t, op)
	if f == nil {
		return
	}
	r := &keyRule{keyStore: k, op: op, empty: empty, root: f, name: FnName(f)}
	e := NewEngine(k.P, r)
	e.RunRoot(f, func(p *Path, pa []*Val) {
		p.SetNil(pa[0], false)
		r.recv, r.subject = pa[0], pa[1]
		if op == "Set" {
			r.key = pa[2]
			es := k.P.T.Eq(r.key, k.P.T.Const(constant.MakeString(""), types.Typ[types.String]))
			p.Assume(es, empty)
		}
	})
	k.R.Engine(e, r.name)
}

type keyRule struct {
	Base
	*keyStore
	op         string
	empty      bool
	root       *ssa.Function
	name       string
	recv       *Val
	subject    *Val
	key        *Val
	nextFailed bool
}

func (r *keyRule) fail(key string, p *Path, pos token.Pos, msg string) {
	if !pos.IsValid() {
		pos = r.root.Pos()
	}
	r.R.Fail(key+":"+r.name, pos, r.name+": "+msg, p)
}

func isInnerKey(c *Call) bool {
	return isKeyStoreCall(c, "Get") || isKeyStoreCall(c, "Set") || isKeyStoreCall(c, "Delete")
}

func isAWS(c *Call) string {
	pkg, name := c.callee()
	if strings.HasPrefix(pkg, "github.com/aws/aws-sdk-go/service/dynamodb") {
		return name
	}
	return ""
}

// isWrite: a call that can change the backend.
func (r *keyRule) isWrite(c *Call) bool {
	_, name := c.callee()
	switch {
	case isInnerKey(c):
		return name != "Get"
	case isAWS(c) != "":
		return !in(strings.TrimSuffix(strings.TrimSuffix(name, "WithContext"), "Request"), "GetItem", "Query", "Scan", "BatchGetItem", "Unmarshal", "UnmarshalMap", "Marshal", "MarshalMap")
	case r.kind == "postgres" && c.M != nil && c.M.Pkg() != nil && c.M.Pkg().Path() == pkgSQL:
		return strings.HasPrefix(name, "Exec")
	case r.kind == "vault" && c.Name() == "(*net/http.Client).Do":
		return !r.isGetRequest(c.Args[1])
	}
	return false
}

// httpMethod of a request term.
func requestCall(v *Val) *Val {
	var out *Val
	v.Any(func(x *Val) bool {
		if x.K == KCall && in(x.FullName(), "net/http.NewRequest", "net/http.NewRequestWithContext") {
			out = x
			return true
		}
		return false
	})
	return out
}

func requestMethod(v *Val) string {
	c := requestCall(v)
	if c == nil {
		return ""
	}
	for _, a := range c.Args {
		if a != nil && a.K == KConst && a.C.Kind() == constant.String {
			return constant.StringVal(a.C)
		}
	}
	return ""
}

func (r *keyRule) isGetRequest(v *Val) bool { return requestMethod(v) == "GET" }

func (r *keyRule) Model(p *Path, c *Call) []Outcome {
	failed := func(q *Path, res *Val) {
		q.SetV("failed", nil, "1", q.ErrOf(res))
		if r.isWrite(c) {
			q.Set("wfailed", nil, "1")
		}
	}
	switch {
	case isInnerKey(c):
		f := r.recvFieldName(c.Args[0])
		switch c.M.Name() {
		case "Get":
			return errFork(func(q *Path, res *Val) {
				q.SetV("got", nil, f, q.ResOf(res, 0))
			}, func(q *Path, res *Val) {
				if q.Get("miss", nil) != "" {
					q.SetV("failed", nil, "1", q.ErrOf(res))
				}
				q.Set("miss", nil, f)
			})
		}
		return errFork(func(q *Path, res *Val) { q.Set("did:"+f, nil, "1") }, func(q *Path, res *Val) {
			failed(q, res)
			q.Set("didfail:"+f, nil, "1")
		})
	case r.kind == "postgres" && c.M != nil && recvTypeName(c.M) == "Row" && c.M.Name() == "Scan":
		nr := r.P.sqlNoRows()
		return []Outcome{
			{Opaque: true, After: func(q *Path, res *Val) bool {
				q.Set("scanned", nil, "1")
				return q.SetNil(q.ErrOf(res), true)
			}},
			{Opaque: true, After: func(q *Path, res *Val) bool {
				e := q.ErrOf(res)
				q.Set("absent", nil, "1")
				return q.SetNil(e, false) && q.Assume(q.E.T.Eq(e, nr), true)
			}},
			{Opaque: true, After: func(q *Path, res *Val) bool {
				e := q.ErrOf(res)
				q.SetV("failed", nil, "1", e)
				q.Note(c.Instr.Pos(), "this read fails")
				return q.SetNil(e, false) && q.Assume(q.E.T.Eq(e, nr), false)
			}},
		}
	}
	if failing(r.P, c) {
		return errFork(func(q *Path, res *Val) {
			if r.isWrite(c) {
				q.Set("wrote", nil, "1")
				if c.Name() == "(*net/http.Client).Do" {
					q.SetV("resp", nil, "w", q.ResOf(res, 0))
				}
			} else if c.Name() == "(*net/http.Client).Do" {
				q.SetV("resp", nil, "r", q.ResOf(res, 0))
			}
			if isAWS(c) == "Unmarshal" {
				q.SetV("attr", c.Args[1], r.attrOf(c.Args[0]), c.Args[1])
			}
		}, failed)
	}
	return nil
}

func (P *Prog) sqlNoRows() *Val {
	for _, p := range P.SSA.AllPackages() {
		if p.Pkg.Path() == pkgSQL {
			if g := p.Var("ErrNoRows"); g != nil {
				return P.T.mk(Val{K: KGVal, Site: g, T: types.Universe.Lookup("error").Type()})
			}
		}
	}
	return P.T.Nil
}

// attrOf: the constant attribute name an item value was looked up under.
func (r *keyRule) attrOf(v *Val) string {
	out := ""
	v.Any(func(x *Val) bool {
		if (x.K == KLookup || x.K == KMapElem) && len(x.Args) > 1 && x.Args[1] != nil && x.Args[1].K == KConst && x.Args[1].C.Kind() == constant.String {
			out = constant.StringVal(x.Args[1].C)
			return true
		}
		return false
	})
	return out
}

func (r *keyRule) recvFieldName(v *Val) string {
	if b, n := fieldRead(v); b == r.recv {
		return n
	}
	return ""
}

func (r *keyRule) Event(p *Path, ev *Ev) {
	pos := ev.Instr.Pos()
	switch ev.K {
	case EvCall:
		c := ev.Call
		if o := lockOp(c); o != "" && r.kind == "memory" {
			switch o {
			case "W+", "R+":
				p.Set("lock", nil, o[:1])
			default:
				p.Del("lock", nil)
				p.DelAll("absent")
			}
			return
		}
		r.onCall(p, c, pos)
	case EvInlineRet:
		if r.op == "Set" && ev.Call != nil && ev.Call.Fn != nil && ev.Call.Fn == r.P.Method(r.t, "Get") {
			// a failed look before a conditional write
			p.Del("failed", nil)
			p.Del("resp", nil)
		}
	case EvMapRead:
		if r.kind == "memory" && r.onRecv(ev.Addr) && p.Get("lock", nil) == "" {
			r.fail("unlocked-read", p, pos, "a map of the key store is read without its lock")
		}
	case EvMapUpdate:
		r.onMapUpdate(p, ev, pos)
	case EvMapDelete:
		if r.kind == "memory" && r.onRecv(ev.Addr) && isStringMap(ev.Addr) {
			r.fail("map-delete", p, pos, "an entry is removed: nothing remembers that the subject had a key")
		}
	case EvBranch:
		r.onBranch(p, ev)
		if c := ev.Val; c.K == KEq && ev.Bool {
			for _, a := range c.Args {
				if strings.Contains(constStr(a), "NotFound") {
					p.Set("nothing", nil, "1")
				}
			}
		}
		if c := ev.Val; r.kind == "vault" && r.op == "Get" {
			if _, n := fieldRead(c); n == "Destroyed" {
				if ev.Bool {
					p.Set("scanned", nil, "1")
				} else {
					p.Set("absent", nil, "1")
				}
			}
		}
	case EvExit:
		r.exit(p, ev, pos)
	}
}

func (r *keyRule) onRecv(m *Val) bool { return r.recvFieldName(m) != "" }

func isStringMap(m *Val) bool {
	if m.T == nil {
		return false
	}
	mt, ok := m.T.Underlying().(*types.Map)
	if !ok {
		return false
	}
	b, ok := mt.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.String
}

func (r *keyRule) onBranch(p *Path, ev *Ev) {
	c, want := ev.Val, ev.Bool
	for c.K == KNot {
		c, want = c.Args[0], !want
	}
	if r.kind == "dynamodb" && r.op == "Get" && c.K == KLookup && c.Op == "ok" && r.tomb["cleared:"+constStr(c.Args[1])] && !want {
		p.Set("absent", nil, "1")
	}
	if r.kind == "memory" && c.K == KLookup && c.Op == "ok" && c.Args[1] == r.subject && isStringMap(c.Args[0]) && p.Get("lock", nil) != "" {
		if want {
			p.Set("present", c.Args[0], "1")
		} else {
			p.Set("absent", c.Args[0], "1")
		}
	}
}

func (r *keyRule) onMapUpdate(p *Path, ev *Ev, pos token.Pos) {
	if r.kind == "dynamodb" {
		// attributes of an item under construction
		if ev.Key.K == KConst && ev.Val != nil && ev.Val.K == KAlloc {
			p.SetV("item:"+constant.StringVal(ev.Key.C), ev.Addr, "1", ev.Val)
		}
		return
	}
	if r.kind != "memory" || !r.onRecv(ev.Addr) {
		if ev.Key.K == KConst && ev.Key.C.Kind() == constant.String {
			p.SetV("map:"+constant.StringVal(ev.Key.C), ev.Addr, "1", ev.Val)
		}
		return
	}
	if p.Get("lock", nil) != "W" {
		r.fail("unlocked-write", p, pos, "a map of the key store is written without its exclusive lock")
	}
	if r.empty {
		r.fail("empty-key", p, pos, "an empty key is stored")
	}
	if !isStringMap(ev.Addr) {
		return
	}
	switch r.op {
	case "Set":
		r.R.Obl("a key is written only if there is none", r.name)
		if ev.Key != r.subject || ev.Val != r.key {
			r.fail("other-entry", p, pos, "another entry is written than the key of the subject")
		}
		if p.Get("absent", ev.Addr) == "" {
			r.fail("overwrite", p, pos, "a key is written although it was not established, in the same critical section, that the subject never had one")
		}
		p.Set("wrote", nil, "1")
	case "Delete":
		r.R.Obl("deletion leaves a tombstone", r.name)
		if ev.Key != r.subject || !(ev.Val.K == KConst && constant.StringVal(ev.Val.C) == "") {
			r.fail("tombstone", p, pos, "deletion does not leave an empty key for the subject")
		}
		p.Set("wrote", nil, "1")
	case "Get":
		r.fail("get-writes", p, pos, "reading a key changes the key store")
	}
}

var (
	reKeyInsert = regexp.MustCompile(`(?is)^\s*INSERT\s+INTO\s+(\w+)\s*\(([^)]*)\)\s*VALUES\s*\(([^)]*)\)\s*;?\s*$`)
	reKeyUpdate = regexp.MustCompile(`(?is)^\s*UPDATE\s+(\w+)\s+SET\s+(.*?)\s+WHERE\s+(\w+)\s*=\s*\$(\d+)\s*;?\s*$`)
	reKeySelect = regexp.MustCompile(`(?is)^\s*SELECT\s+(.*?)\s+FROM\s+(\w+)\s+WHERE\s+(\w+)\s*=\s*\$1\s*;?\s*$`)
	reKeyTable  = regexp.MustCompile(`(?is)CREATE\s+TABLE\s+(?:IF\s+NOT\s+EXISTS\s+)?(\w+)\s*\((.*)\)`)
)

func (r *keyRule) sqlArgs(p *Path, c *Call) (text string, args []*Val) {
	x := p.XArgs(c)
	for i, a := range x {
		if a != nil && a.T != nil && i > 0 {
			if b, ok := a.T.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				text = sqlText(a)
				if i+1 < len(x) && x[i+1] != nil && x[i+1].K == KTuple {
					args = x[i+1].Args
				}
				return
			}
		}
	}
	return "", nil
}

func (r *keyRule) onCall(p *Path, c *Call, pos token.Pos) {
	_, name := c.callee()
	write := r.isWrite(c)
	if write {
		if r.op == "Get" && r.kind != "cache" {
			r.fail("get-writes", p, pos, "reading a key changes the key store")
		}
		if r.empty {
			r.fail("empty-key", p, pos, "an empty key reaches the backend")
		}
		if p.Get("wfailed", nil) != "" {
			r.fail("after-failure", p, pos, "goes on writing after a failed write")
		}
	}
	switch r.kind {
	case "postgres":
		if c.M == nil || c.M.Pkg() == nil || c.M.Pkg().Path() != pkgSQL || !(strings.HasPrefix(name, "Exec") || strings.HasPrefix(name, "Query")) {
			if c.M != nil && name == "Scan" && recvTypeName(c.M) == "Row" {
				if el := p.XArgs(c); len(el) > 1 && el[1].K == KTuple {
					p.SetV("dests", nil, "1", el[1])
				}
			}
			return
		}
		text, args := r.sqlArgs(p, c)
		r.sql(p, name, text, args, pos)
	case "dynamodb":
		r.dynamo(p, c, name, pos)
	case "vault":
		r.vault(p, c, pos)
	case "cache":
		if isInnerKey(c) {
			r.cacheCall(p, c, pos)
		}
	}
}

func colNames(s string) []string {
	var out []string
	for _, x := range strings.Split(s, ",") {
		out = append(out, strings.ToLower(strings.TrimSpace(x)))
	}
	return out
}

// keyCols are the subject and key columns of the insert.
var keyCols = map[*keyStore][3]string{}

func (r *keyRule) sql(p *Path, name, text string, args []*Val, pos token.Pos) {
	switch {
	case strings.HasPrefix(name, "Exec") && r.op == "Set":
		r.R.Obl("a key is written only if there is none", r.name)
		m := reKeyInsert.FindStringSubmatch(text)
		if m == nil {
			r.fail("overwrite", p, pos, "a key is written by something else than a plain insert: "+strings.TrimSpace(text))
			return
		}
		cols, vals := colNames(m[2]), colNames(m[3])
		var sc, kc string
		for i := range cols {
			if i >= len(vals) || !strings.HasPrefix(vals[i], "$") {
				continue
			}
			n := atoi(vals[i][1:])
			if n >= 1 && n <= len(args) {
				switch args[n-1] {
				case r.subject:
					sc = cols[i]
				case r.key:
					kc = cols[i]
				}
			}
		}
		if sc == "" || kc == "" {
			r.fail("other-entry", p, pos, "the insert does not bind the subject and its key")
			return
		}
		keyCols[r.keyStore] = [3]string{strings.ToLower(m[1]), sc, kc}
	case strings.HasPrefix(name, "Exec") && r.op == "Delete":
		r.R.Obl("deletion leaves a tombstone", r.name)
		m := reKeyUpdate.FindStringSubmatch(text)
		if m == nil {
			r.fail("tombstone", p, pos, "a key is deleted by something else than an update of the subject's row: "+strings.TrimSpace(text))
			return
		}
		if n := atoi(m[4]); n < 1 || n > len(args) || args[n-1] != r.subject {
			r.fail("other-entry", p, pos, "another row than the subject's is updated")
		}
		for _, a := range strings.Split(m[2], ",") {
			col, v, _ := strings.Cut(a, "=")
			col, v = strings.ToLower(strings.TrimSpace(col)), strings.TrimSpace(v)
			switch {
			case strings.HasPrefix(v, "$"):
				if n := atoi(v[1:]); n >= 1 && n <= len(args) && p.NilState(args[n-1]) != 1 && args[n-1].K != KNil {
					r.tomb[col] = true
				}
			case strings.EqualFold(v, "NULL") || v == "''":
				r.tomb["cleared:"+col] = true
			default:
				r.tomb[col] = true
			}
		}
		cleared, mark := false, false
		for k := range r.tomb {
			if strings.HasPrefix(k, "cleared:") {
				cleared = true
			} else {
				mark = true
			}
		}
		if !cleared {
			r.fail("key-kept", p, pos, "deletion does not clear the key")
		}
		if !mark {
			r.fail("tombstone", p, pos, "deletion does not mark the subject's row as deleted")
		}
	case r.op == "Get":
		m := reKeySelect.FindStringSubmatch(text)
		if m == nil || len(args) != 1 || args[0] != r.subject {
			r.fail("other-entry", p, pos, "the key read is not selected by the subject: "+strings.TrimSpace(text))
			return
		}
		p.Set("cols", nil, m[1])
	}
}

// ddl: the column of the subject is unique in the table the code creates.
func (k *keyStore) ddl() {
	c, ok := keyCols[k]
	if !ok {
		return
	}
	found := false
	for _, f := range k.P.Funcs {
		if pk := pkgOf(f); pk == nil || pk != k.t.Obj().Pkg() {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					cn, ok := (*op).(*ssa.Const)
					if !ok || cn.Value == nil || cn.Value.Kind() != constant.String {
						continue
					}
					m := reKeyTable.FindStringSubmatch(constant.StringVal(cn.Value))
					if m == nil || !strings.EqualFold(m[1], c[0]) {
						continue
					}
					for _, d := range strings.Split(m[2], ",") {
						w := strings.Fields(strings.ToLower(d))
						if len(w) > 0 && w[0] == c[1] {
							found = strings.Contains(strings.Join(w, " "), "primary key") || strings.Contains(strings.Join(w, " "), "unique") && strings.Contains(strings.Join(w, " "), "not null")
						}
					}
				}
			}
		}
	}
	k.R.Obl("a key is written only if there is none", "unique column of "+c[0])
	if !found {
		k.R.Fail("not-unique:"+c[0], k.t.Obj().Pos(), "the table created for keys does not make the subject's column ("+c[1]+") a primary key, so an insert does not fail for a subject that has a key", nil)
	}
}

// ---------------------------------------------------------------- DynamoDB

// awsString is the text behind aws.String(x).
func awsString(v *Val) *Val {
	if v != nil && v.K == KCall && v.FullName() == "github.com/aws/aws-sdk-go/aws.String" && len(v.Args) == 1 {
		return v.Args[0]
	}
	return nil
}

func constStr(v *Val) string {
	if v != nil && v.K == KConst && v.C.Kind() == constant.String {
		return constant.StringVal(v.C)
	}
	return ""
}

// items lists the attributes put into a map under construction.
func (r *keyRule) items(p *Path, m *Val) map[string]*Val {
	out := map[string]*Val{}
	for k, v := range p.RS {
		if k.V == m && (strings.HasPrefix(k.S, "item:") || strings.HasPrefix(k.S, "map:")) {
			out[k.S[strings.Index(k.S, ":")+1:]] = v.V
		}
	}
	return out
}

func (r *keyRule) dynamo(p *Path, c *Call, name string, pos token.Pos) {
	op := isAWS(c)
	if op == "" || c.M == nil || len(c.Args) < 2 {
		return
	}
	input := c.Args[1]
	op = strings.TrimSuffix(op, "WithContext")
	if op != name {
		input = c.Args[2]
	}
	subj := func(m *Val) (string, bool) {
		for a, v := range r.items(p, m) {
			if v != nil && awsString(p.FieldOf(v, "S")) == r.subject {
				return a, true
			}
		}
		return "", false
	}
	switch {
	case op == "GetItem":
		if r.op != "Get" {
			return
		}
		if _, ok := subj(p.FieldOf(input, "Key")); !ok {
			r.fail("other-entry", p, pos, "the item read is not the subject's")
		}
		if l := p.FieldOf(input, "AttributesToGet"); l != nil && l.K != KNil {
			el, _ := p.SliceElems(l)
			for _, e := range el {
				p.Set("want:"+constStr(awsString(e)), nil, "1")
			}
			p.Set("limited", nil, "1")
		}
		if l := p.FieldOf(input, "ProjectionExpression"); l != nil && l.K != KNil {
			for _, a := range strings.FieldsFunc(constStr(awsString(l)), func(c rune) bool { return c == ',' || c == ' ' }) {
				p.Set("want:"+a, nil, "1")
			}
			p.Set("limited", nil, "1")
		}
	case !r.isWrite(c):
	case r.op == "Set":
		r.R.Obl("a key is written only if there is none", r.name)
		if op != "PutItem" {
			r.fail("overwrite", p, pos, "a key is written with "+op)
			return
		}
		m := p.FieldOf(input, "Item")
		a, ok := subj(m)
		if !ok {
			r.fail("other-entry", p, pos, "the item written is not the subject's")
		}
		attrs := r.items(p, m)
		hasKey := false
		for _, v := range attrs {
			if v != nil && awsString(p.FieldOf(v, "S")) == r.key {
				hasKey = true
			}
		}
		if !hasKey {
			r.fail("other-entry", p, pos, "the item written does not hold the key")
		}
		cond := strings.ReplaceAll(constStr(awsString(p.FieldOf(input, "ConditionExpression"))), " ", "")
		okc := false
		for x := range attrs {
			if cond == "attribute_not_exists("+x+")" || strings.HasPrefix(cond, "attribute_not_exists("+x+")AND") {
				okc = true
			}
		}
		_ = a
		if !okc {
			r.fail("overwrite", p, pos, "the write is not conditional on the subject having no item")
		}
	case r.op == "Delete":
		r.R.Obl("deletion leaves a tombstone", r.name)
		if op != "UpdateItem" {
			r.fail("tombstone", p, pos, "a key is deleted with "+op+", which leaves no tombstone")
			return
		}
		if _, ok := subj(p.FieldOf(input, "Key")); !ok {
			r.fail("other-entry", p, pos, "the item updated is not the subject's")
		}
		names := map[string]string{}
		for k, v := range r.items2(p, p.FieldOf(input, "ExpressionAttributeNames")) {
			names[k] = constStr(awsString(v))
		}
		vals := r.items(p, p.FieldOf(input, "ExpressionAttributeValues"))
		expr := strings.TrimSpace(constStr(awsString(p.FieldOf(input, "UpdateExpression"))))
		if !strings.HasPrefix(strings.ToUpper(expr), "SET ") || strings.Contains(strings.ToUpper(expr), "REMOVE ") {
			r.fail("tombstone", p, pos, "deletion does not set a mark: "+expr)
			return
		}
		cleared, mark := false, false
		for _, as := range strings.Split(expr[4:], ",") {
			l, v, _ := strings.Cut(as, "=")
			l, v = strings.TrimSpace(l), strings.TrimSpace(v)
			if n, ok := names[l]; ok {
				l = n
			}
			if x := vals[v]; x != nil {
				if s := awsString(p.FieldOf(x, "S")); s != nil && s.K == KConst && constant.StringVal(s.C) == "" {
					cleared = true
					r.tomb["cleared:"+l] = true
				} else {
					mark = true
					r.tomb[l] = true
				}
			}
		}
		if !cleared {
			r.fail("key-kept", p, pos, "deletion does not clear the key")
		}
		if !mark {
			r.fail("tombstone", p, pos, "deletion does not mark the subject's item as deleted")
		}
	}
}

// items2 lists the entries of a map of pointers to strings.
func (r *keyRule) items2(p *Path, m *Val) map[string]*Val {
	out := map[string]*Val{}
	if m == nil {
		return out
	}
	for a, v := range p.mem {
		if a.K == KMapElem && a.Op == "" && len(a.Args) == 2 && a.Args[0] == m && a.Args[1] != nil && a.Args[1].K == KConst {
			out[constStr(a.Args[1])] = v
		}
	}
	return out
}

// ---------------------------------------------------------------- Vault

func (r *keyRule) vault(p *Path, c *Call, pos token.Pos) {
	if c.Name() == "encoding/json.Marshal" && r.op == "Set" {
		v := c.Args[0]
		if v.K == KAlloc || v.K == KStruct || v.K == KLoad {
			p.SetV("payload", nil, "1", v)
		}
		cas := false
		for k, x := range p.RS {
			if k.S == "map:cas" && isInt(x.V, 0) {
				cas = true
			}
		}
		if cas {
			p.Set("cas", nil, "1")
		}
		hasKey := false
		for k, x := range p.RS {
			if strings.HasPrefix(k.S, "map:") && x.V == r.key {
				hasKey = true
			}
		}
		if hasKey {
			p.Set("haskey", nil, "1")
		}
		return
	}
	if c.Name() != "(*net/http.Client).Do" {
		return
	}
	req := requestCall(c.Args[1])
	if req == nil {
		r.fail("request", p, pos, "a request of unknown origin is sent")
		return
	}
	url := ""
	hasSubject := false
	for _, a := range req.Args {
		if a == nil || a.T == nil {
			continue
		}
		if b, ok := a.T.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			if t := sqlText(a); strings.Contains(t, "/") {
				url = t
				hasSubject = a.Any(func(x *Val) bool { return x == r.subject })
			}
		}
	}
	if !hasSubject {
		r.fail("other-entry", p, pos, "the request's path is not the subject's")
	}
	switch {
	case r.isGetRequest(c.Args[1]):
	case r.op == "Set":
		r.R.Obl("a key is written only if there is none", r.name)
		if p.Get("cas", nil) == "" {
			r.fail("overwrite", p, pos, "the write is not conditional on the subject having no key (check-and-set 0)")
		}
		if p.Get("haskey", nil) == "" {
			r.fail("other-entry", p, pos, "the request does not carry the key")
		}
		if !strings.Contains(url, "/data/") {
			r.fail("other-path", p, pos, "the key is written to another path than it is read from: "+url)
		}
	case r.op == "Delete":
		r.R.Obl("deletion leaves a tombstone", r.name)
		if !strings.Contains(url, "/destroy/") || requestMethod(c.Args[1]) == "DELETE" {
			r.fail("tombstone", p, pos, "deletion does not destroy the versions of the key (which keeps the subject's metadata): "+url)
		}
		req.Any(func(x *Val) bool {
			if s := constStr(x); strings.Contains(s, "versions") {
				var b struct{ Versions []int }
				first := false
				if json.Unmarshal([]byte(s), &b) == nil {
					for _, v := range b.Versions {
						first = first || v == 1
					}
				}
				if !first {
					r.fail("key-kept", p, pos, "deletion does not destroy the first version of the secret, the one Set writes: "+s)
				}
			}
			return false
		})
	}
}

// statusOK: is the response's status known to be a success?
func (r *keyRule) statusOK(p *Path, resp *Val) bool {
	for t, k := range p.eqc {
		if b, n := fieldRead(t); n == "StatusCode" && b == resp {
			if v, ok := constInt(k); ok && v >= 200 && v < 300 {
				return true
			}
		}
	}
	return false
}

// ---------------------------------------------------------------- cache

func (r *keyRule) cacheCall(p *Path, c *Call, pos token.Pos) {
	f := r.recvFieldName(c.Args[0])
	if len(c.Args) > 1 && c.Args[1] != r.subject {
		r.fail("other-entry", p, pos, "another subject is asked about than the one given")
	}
	if c.M.Name() == "Get" {
		if p.Get("miss", nil) != "" {
			if r.auth != "" && r.auth != f {
				r.fail("authority", p, pos, "the two key stores are asked in different orders")
			}
			r.auth = f
			r.R.Obl("the authoritative store comes first", r.name)
		}
		return
	}
	if r.op == "Get" {
		// filling the cache
		if f == r.auth || c.M.Name() != "Set" || p.GetV("got", nil) == nil || c.Args[2] != p.GetV("got", nil) {
			r.fail("fill", p, pos, "the cache is filled with something else than the key the authoritative store returned")
		}
		return
	}
	if c.M.Name() != r.op {
		r.fail("other-op", p, pos, r.op+" is carried out as "+c.M.Name())
		return
	}
	r.R.Obl("the authoritative store comes first", r.name)
	if r.op == "Set" && c.Args[2] != r.key {
		r.fail("other-key", p, pos, "another key is stored than the one given")
	}
	if f != r.auth && p.Get("did:"+r.auth, nil) == "" {
		r.fail("authority", p, pos, "the cache is changed before the authoritative store was")
	}
}

// ---------------------------------------------------------------- exits

func (r *keyRule) exit(p *Path, ev *Ev, pos token.Pos) {
	res := ev.Res_
	err := res[len(res)-1]
	ns := p.NilState(err)
	if p.Get("failed", nil) != "" {
		r.R.Obl("failures are reported", r.name)
		if ns != -1 && !p.mentionsVal(err, p.GetV("failed", nil)) {
			r.fail("failure-hidden", p, pos, "a failure of the backend is not reported")
			return
		}
		if r.op == "Get" && r.kind != "cache" && !r.saysAbsent(p) && (r.is(p, err, "ErrKeyNotFound") || r.is(p, err, "ErrKeyWasDeleted")) {
			r.fail("failure-as-absence", p, pos, "a failure while reading is reported as an absent or deleted key")
		}
	}
	if r.kind == "cache" && r.op == "Get" {
		if f := p.GetV("failed", nil); f != nil && !p.mentionsVal(err, f) {
			r.fail("other-error", p, pos, "what the authoritative store reports (the key is absent or was deleted) is replaced by another error")
		}
	}
	if r.empty {
		r.R.Obl("an empty key is refused without a write", r.name)
		if ns != -1 {
			r.fail("empty-key", p, pos, "setting an empty key does not fail")
		}
		return
	}
	if ns == -1 {
		r.errKind(p, err, pos)
		return
	}
	if r.op != "Get" {
		switch {
		case r.kind == "cache":
			if p.Get("did:"+r.auth, nil) == "" {
				r.fail("not-written", p, pos, r.op+" reports success without the authoritative store having carried it out")
			}
			n := 0
			for k := range p.RS {
				if strings.HasPrefix(k.S, "did:") {
					n++
				}
			}
			if n < 2 {
				r.fail("cache-stale", p, pos, r.op+" reports success without the cache having followed")
			}
		case p.Get("wrote", nil) == "":
			r.fail("not-written", p, pos, r.op+" reports success without having written anything")
		case r.kind == "vault":
			if resp := p.GetV("resp", nil); resp != nil && !r.statusOK(p, resp) {
				r.fail("status", p, pos, r.op+" reports success although the server's answer was not a success")
			}
		}
		return
	}
	// Get
	r.R.Obl("only a present, undeleted key is returned", r.name)
	v := res[0]
	switch r.kind {
	case "memory":
		if !(v.K == KLookup && v.Args[1] == r.subject && r.onRecv(v.Args[0])) {
			r.fail("other-key", p, pos, "what is returned is not the subject's entry")
			return
		}
		es := r.P.T.Eq(v, r.P.T.Const(constant.MakeString(""), types.Typ[types.String]))
		if p.Truth(es) != -1 && !p.nonEmptyStr(v) {
			r.fail("deleted-returned", p, pos, "a deleted key may be returned as a key")
		}
	case "postgres":
		r.pgGet(p, v, pos)
	case "dynamodb":
		r.dynGet(p, v, pos)
	case "vault":
		if resp := p.GetV("resp", nil); resp == nil || !r.statusOK(p, resp) {
			r.fail("status", p, pos, "a key is returned although the server's answer was not a success")
		}
	case "cache":
		if g := p.GetV("got", nil); g == nil || v != g {
			r.fail("other-key", p, pos, "what is returned is not a key one of the stores returned")
		}
	}
}

func (p *Path) nonEmptyStr(v *Val) bool {
	return p.Truth(p.E.T.Lt(p.E.T.Int(0), p.E.T.mk(Val{K: KLen, Args: []*Val{v}, T: types.Typ[types.Int]}))) == 1
}

func (r *keyRule) is(p *Path, err *Val, name string) bool {
	g := r.P.gval("pkg/crypto", name)
	return err == g || p.Truth(r.P.T.Eq(err, g)) == 1 || err.Contains(g)
}

// saysAbsent: the failure was found to be the backend's way of saying that there is nothing.
func (r *keyRule) saysAbsent(p *Path) bool { return p.Get("nothing", nil) != "" }

// errKind: an absent key is reported as not found, a deleted one as deleted.
func (r *keyRule) errKind(p *Path, err *Val, pos token.Pos) {
	if r.op != "Get" || p.Get("failed", nil) != "" {
		return
	}
	is := func(name string) bool { return r.is(p, err, name) }
	if r.kind == "dynamodb" && r.dynDeleted(p) && !is("ErrKeyWasDeleted") {
		r.fail("deleted", p, pos, "a deleted key is not reported as deleted")
	}
	absent := p.Get("absent", nil) != "" || p.AnyRS("absent", "1")
	if absent && !is("ErrKeyNotFound") {
		r.fail("absent", p, pos, "an absent key is not reported as not found")
	}
	if (p.AnyRS("present", "1") || p.Get("scanned", nil) != "") && !is("ErrKeyWasDeleted") {
		r.fail("deleted", p, pos, "a deleted key is not reported as deleted")
	}
}

// pgGet: the key column is returned, and the column a delete marks was found unset.
func (r *keyRule) pgGet(p *Path, v *Val, pos token.Pos) {
	cols := colNames(p.Get("cols", nil))
	d := p.GetV("dests", nil)
	if d == nil || len(d.Args) != len(cols) {
		r.fail("columns", p, pos, "the columns selected and the variables scanned do not match")
		return
	}
	okKey, unset := false, false
	for i, col := range cols {
		dst := d.Args[i]
		if v.Any(func(x *Val) bool { return x == dst }) && r.tomb["cleared:"+col] {
			okKey = true
			if val := p.FieldOf(dst, "Valid"); val != nil && p.Truth(val) == 1 {
				unset = true
			}
		}
		if r.tomb[col] {
			cur := p.mem[dst]
			if cur != nil && p.NilState(cur) == 1 {
				unset = true
			}
			if val := p.FieldOf(dst, "Valid"); val != nil && p.Truth(val) == -1 {
				unset = true
			}
		}
	}
	if !okKey {
		r.fail("other-key", p, pos, "what is returned is not the column that holds the key")
	}
	if !unset {
		r.fail("deleted-returned", p, pos, "a deleted key may be returned as a key")
	}
}

// dynGet: the attribute a delete marks was read and found unset.
// dynDeleted: the attribute a delete sets was found set.
func (r *keyRule) dynDeleted(p *Path) bool {
	for k, x := range p.RS {
		if cur := p.mem[k.V]; k.S == "attr" && r.tomb[x.S] && cur != nil && p.Truth(r.P.T.Lt(r.P.T.Int(0), cur)) == 1 {
			return true
		}
	}
	return false
}

func (r *keyRule) dynGet(p *Path, v *Val, pos token.Pos) {
	okKey, unset := false, false
	for k, x := range p.RS {
		if k.S != "attr" {
			continue
		}
		a := x.S
		if p.Get("limited", nil) != "" && p.Get("want:"+a, nil) == "" {
			r.fail("not-requested", p, pos, "the attribute "+a+" is looked at but not requested")
		}
		cur := p.mem[k.V]
		if r.tomb["cleared:"+a] && (v == cur || v.Any(func(y *Val) bool { return y == k.V })) {
			okKey = true
		}
		if r.tomb[a] && cur != nil {
			if p.Truth(r.P.T.Lt(r.P.T.Int(0), cur)) == -1 || p.Truth(r.P.T.Eq(cur, r.P.T.Int(0))) == 1 {
				unset = true
			}
			for e, c := range p.eqc {
				if e == cur && isInt(c, 0) {
					unset = true
				}
			}
		}
	}
	if !okKey {
		r.fail("other-key", p, pos, "what is returned is not the attribute that holds the key")
	}
	if !unset {
		r.fail("deleted-returned", p, pos, "a deleted key may be returned as a key")
	}
}
