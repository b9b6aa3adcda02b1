package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C25: credentials and keys do not flow to logs, output, errors or file names.

var secretName = regexp.MustCompile(`(?i)(passw(or)?d|secret|token|access_?key|api_?key|credential|encryption_?key|private_?key|data_?source_?name|connection_?string|dsn$)`)

type secretRule struct {
	P        *Prog
	R        *Report
	F        *Flow
	fields   map[string]string    // field key -> what it holds
	values   map[ssa.Value]string // values known to be keys
	getters  map[*ssa.Function]bool
	setters  map[*ssa.Function]bool
	ciphers  map[*ssa.Function]bool
	subjects map[ssa.Value]bool     // parameters that identify a subject
	keyReach map[*ssa.Function]bool // what the key stores' Get runs
	ksIface  *types.Interface
	enIface  *types.Interface
}

func secretFlows(P *Prog, R *Report) {
	r := &secretRule{P: P, R: R, F: NewFlow(P), fields: map[string]string{}, values: map[ssa.Value]string{}, getters: map[*ssa.Function]bool{}, setters: map[*ssa.Function]bool{}, ciphers: map[*ssa.Function]bool{}, subjects: map[ssa.Value]bool{}, keyReach: map[*ssa.Function]bool{}}
	r.sources()
	for _, f := range P.Funcs {
		if isExample(f) || IsTestSupport(pkgOf(f).Path()) {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				r.instr(f, ins)
			}
		}
	}
	R.Need("no credential or key is reported", 100)
	R.Need("credentials are quoted in connection strings", 1)
}

func textType(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Slice:
		b, ok := u.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Byte
	case *types.Pointer:
		return textType(u.Elem())
	}
	return false
}

func (r *secretRule) sources() {
	P := r.P
	// fields by name
	for _, pk := range P.Pkgs {
		if pk.Types == nil || !strings.HasPrefix(pk.Types.Path(), modPath) || strings.Contains(pk.Types.Path(), "/examples/") {
			continue
		}
		sc := pk.Types.Scope()
		for _, nm := range sc.Names() {
			tn, ok := sc.Lookup(nm).(*types.TypeName)
			if !ok {
				continue
			}
			st, ok := tn.Type().Underlying().(*types.Struct)
			if !ok {
				continue
			}
			for i := 0; i < st.NumFields(); i++ {
				if fd := st.Field(i); textType(fd.Type()) && secretName.MatchString(fd.Name()) {
					r.fields[fieldKey(tn.Type(), i)] = "the " + fd.Name() + " of " + pk.Types.Name() + "." + nm
				}
			}
		}
	}
	r.ksIface = P.Iface("pkg/crypto", "KeyStore")
	r.enIface = P.Iface("pkg/crypto", "Encryptor")
	mark := func(v ssa.Value, what string) {
		if _, ok := v.(*ssa.Const); !ok && r.values[v] == "" {
			r.values[v] = what
		}
	}
	if r.ksIface != nil {
		for _, n := range P.Implementers(r.ksIface) {
			if n.Obj().Pkg() != nil && IsTestSupport(n.Obj().Pkg().Path()) {
				continue
			}
			if g := P.Method(n, "Get"); g != nil && g.Blocks != nil {
				r.getters[g] = true
				r.R.Item("key stores", FnName(g))
				r.closure(g, mark)
				for f := range staticReach(P, []*ssa.Function{g}) {
					r.keyReach[f] = true
				}
			}
			if g := P.Method(n, "Set"); g != nil && g.Blocks != nil && len(g.Params) == 3 {
				r.setters[g] = true
				mark(g.Params[2], "an encryption key")
			}
		}
	}
	if r.enIface != nil {
		for _, n := range P.Implementers(r.enIface) {
			for _, m := range []string{"Encrypt", "Decrypt"} {
				if g := P.Method(n, m); g != nil && g.Blocks != nil && len(g.Params) == 3 && n.Obj().Pkg() != nil && !IsTestSupport(n.Obj().Pkg().Path()) {
					if r.bySubject(g) {
						r.subjects[g.Params[1]] = true
						continue
					}
					r.ciphers[g] = true
					mark(g.Params[1], "an encryption key")
				}
			}
		}
	}
	// values used as keys
	use := func(v ssa.Value) { mark(v, "an encryption key") }
	for _, f := range P.Funcs {
		if IsTestSupport(pkgOf(f).Path()) || isExample(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				ci, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := ci.Common()
				switch {
				case r.isSet(cc):
					use(cc.Args[len(cc.Args)-1])
				case r.isCipher(cc):
					use(cc.Args[len(cc.Args)-2])
				case cc.StaticCallee() != nil && in(cc.StaticCallee().String(), "crypto/aes.NewCipher", "golang.org/x/crypto/chacha20poly1305.NewX", "golang.org/x/crypto/chacha20poly1305.New"):
					use(cc.Args[0])
				}
			}
		}
	}
	for k, what := range r.fields {
		r.R.Item("fields that hold credentials", what+" ("+Rel(k)+")")
	}
}

// bySubject: an encryptor that takes the subject, and looks the key up itself.
func (r *secretRule) bySubject(g *ssa.Function) bool {
	for f := range staticReach(r.P, []*ssa.Function{g}) {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if ci, ok := ins.(ssa.CallInstruction); ok && r.isGet(ci.Common()) {
					return true
				}
			}
		}
	}
	return false
}

// closure: the text values and fields a key store's Get takes its result from.
func (r *secretRule) closure(g *ssa.Function, mark func(v ssa.Value, what string)) {
	w := r.F.NewWalk(func(v ssa.Value, key string) bool {
		switch x := v.(type) {
		case *ssa.Const, *ssa.Global, *ssa.Parameter, *ssa.FreeVar:
			return false
		case *ssa.Alloc:
			if textType(x.Type()) {
				mark(v, "an encryption key")
			}
			return true
		}
		if isErrType(v.Type()) {
			return false
		}
		if key != "" {
			var t types.Type
			if fa, ok := v.(*ssa.FieldAddr); ok {
				t = fa.Type()
			} else {
				t = v.Type()
			}
			if fa, ok := v.(*ssa.FieldAddr); ok && !strings.HasPrefix(key, modPath) && !strings.HasPrefix(key, "struct{") {
				if a, ok := fa.X.(*ssa.Alloc); ok {
					mark(a, "an encryption key")
				}
			}
			if textType(t) && (strings.HasPrefix(key, modPath) || strings.HasPrefix(key, "struct{")) {
				if r.fields[key] == "" {
					r.fields[key] = "an encryption key"
				}
				return false
			}
		}
		if textType(v.Type()) {
			mark(v, "an encryption key")
		}
		return true
	}, func(c *ssa.Call, idx int) bool { return false })
	for _, b := range g.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(ret.Results) > 0 {
			w.V(ret.Results[0])
		}
	}
}

func (r *secretRule) isSet(cc *ssa.CallCommon) bool {
	if cc.IsInvoke() {
		return cc.Method.Name() == "Set" && r.ksIface != nil && types.Implements(cc.Value.Type(), r.ksIface)
	}
	return cc.StaticCallee() != nil && r.setters[cc.StaticCallee()]
}

func (r *secretRule) isGet(cc *ssa.CallCommon) bool {
	if cc.IsInvoke() {
		return cc.Method.Name() == "Get" && r.ksIface != nil && types.Implements(cc.Value.Type(), r.ksIface)
	}
	return cc.StaticCallee() != nil && r.getters[cc.StaticCallee()]
}

func (r *secretRule) isCipher(cc *ssa.CallCommon) bool {
	return cc.StaticCallee() != nil && r.ciphers[cc.StaticCallee()]
}

// instr looks for a place that reports a value.
func (r *secretRule) instr(f *ssa.Function, ins ssa.Instruction) {
	switch x := ins.(type) {
	case *ssa.Panic:
		r.sink(f, ins, x.X, "a panic")
	case *ssa.Store:
		fa, ok := x.Addr.(*ssa.FieldAddr)
		if !ok {
			return
		}
		pt := fa.X.Type()
		errT, _ := types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
		if p, ok := pt.Underlying().(*types.Pointer); ok && (types.Implements(pt, errT) || types.Implements(p.Elem(), errT)) {
			r.sink(f, ins, x.Val, "an error")
		}
	case ssa.CallInstruction:
		cc := x.Common()
		for _, s := range r.sinkArgs(cc) {
			r.sink(f, ins, s.v, s.what)
		}
		r.dsn(f, x)
	}
}

type secretSink struct {
	v    ssa.Value
	what string
}

func (r *secretRule) sinkArgs(cc *ssa.CallCommon) []secretSink {
	var out []secretSink
	add := func(what string, vs ...ssa.Value) {
		for _, v := range vs {
			out = append(out, secretSink{v, what})
		}
	}
	if bt, ok := cc.Value.(*ssa.Builtin); ok {
		if in(bt.Name(), "print", "println") {
			add("standard error", cc.Args...)
		}
		return out
	}
	if cc.IsInvoke() {
		switch {
		case isResponseWriter(cc.Value.Type()) && cc.Method.Name() == "Write":
			add("an HTTP response", cc.Args...)
		case cc.Method.Pkg() != nil && in(cc.Method.Name(), "Print", "Printf", "Println", "Fatal", "Fatalf", "Fatalln", "Panic", "Panicf", "Debug", "Debugf", "Info", "Infof", "Warn", "Warnf", "Error", "Errorf", "Log", "Logf") && len(cc.Args) > 0:
			add("a log", cc.Args...)
		}
		return out
	}
	g := cc.StaticCallee()
	if g == nil || g.Object() == nil || g.Object().Pkg() == nil {
		return nil
	}
	pkg, nm, s := g.Object().Pkg().Path(), g.Name(), g.String()
	switch {
	case pkg == "log" || pkg == "log/slog" || pkg == "log/syslog":
		if in(nm, "New", "SetOutput", "SetFlags", "Default", "Writer") {
			return nil
		}
		as := cc.Args
		if g.Signature.Recv() != nil {
			as = as[1:]
		}
		add("a log", as...)
	case pkg == "fmt" && in(nm, "Print", "Printf", "Println"):
		add("standard output", cc.Args...)
	case pkg == "fmt" && in(nm, "Fprint", "Fprintf", "Fprintln") || pkg == "io" && nm == "WriteString":
		if what := r.outward(cc.Args[0]); what != "" {
			add(what, cc.Args[1:]...)
		}
	case pkg == "fmt" && nm == "Errorf" || pkg == "errors" && nm == "New":
		add("an error", cc.Args...)
	case pkg == "net/http" && nm == "Error":
		add("an HTTP response", cc.Args[1])
	case pkg == "net/http" && nm == "Redirect":
		add("an HTTP response", cc.Args[2])
	case s == "(*os.File).WriteString" || s == "(*os.File).Write":
		if what := r.outward(cc.Args[0]); what != "" {
			add(what, cc.Args[1])
		}
	case pkg == "google.golang.org/grpc/status" || pkg == "google.golang.org/grpc/internal/status":
		if in(nm, "Error", "Errorf", "New", "Newf") {
			add("an error", cc.Args[1:]...)
		}
	case (pkg == "os" || pkg == "io/ioutil") && g.Signature.Recv() == nil:
		n := 1
		if in(nm, "Rename", "Symlink", "Link", "MkdirTemp", "CreateTemp", "TempDir", "TempFile") {
			n = 2
		}
		if in(nm, "Getenv", "LookupEnv", "Exit", "Getpid", "Setenv", "Unsetenv", "ExpandEnv", "Expand", "ReadAll", "NopCloser") {
			return nil
		}
		for i := 0; i < n && i < len(cc.Args); i++ {
			if textType(cc.Args[i].Type()) {
				add("a file path", cc.Args[i])
			}
		}
	case s == "github.com/syndtr/goleveldb/leveldb.OpenFile":
		add("a file path", cc.Args[0])
	case s == "net/http.NewRequest":
		add("a request's URL, which its errors quote,", cc.Args[1])
	case s == "net/http.NewRequestWithContext":
		add("a request's URL, which its errors quote,", cc.Args[2])
	case in(s, "net/http.Get", "net/http.Post", "net/http.Head", "net/http.PostForm"):
		add("a request's URL, which its errors quote,", cc.Args[0])
	case in(s, "(*net/http.Client).Get", "(*net/http.Client).Post", "(*net/http.Client).Head", "(*net/http.Client).PostForm"):
		add("a request's URL, which its errors quote,", cc.Args[1])
	case pkg == "net/url" && in(nm, "Parse", "ParseRequestURI", "ParseQuery"):
		if g.Signature.Recv() == nil {
			add("a parser whose errors quote its input", cc.Args[0])
		}
	case pkg == "strconv" && (strings.HasPrefix(nm, "Parse") || nm == "Atoi" || nm == "Unquote"):
		add("a parser whose errors quote its input", cc.Args[0])
	case nm == "ParseConnectionString":
		add("a parser whose errors quote its input", cc.Args[len(cc.Args)-1])
	case pkg == "flag" && len(cc.Args) >= 2:
		for _, a := range cc.Args {
			if textType(a.Type()) && a.Type().Underlying().String() == "string" {
				add("a flag's usage text", a)
			}
		}
	}
	return out
}

// outward: does a writer lead out of the process (standard output, a log file, a response)?
func (r *secretRule) outward(v ssa.Value) string {
	what := ""
	w := r.F.NewWalk(func(x ssa.Value, key string) bool {
		if isResponseWriter(x.Type()) {
			what = "an HTTP response"
			return false
		}
		if g, ok := x.(*ssa.Global); ok && g.Pkg != nil && g.Pkg.Pkg.Path() == "os" && in(g.Name(), "Stdout", "Stderr") {
			what = "standard output"
		}
		return true
	}, nil)
	w.V(v)
	return what
}

func secretLib(c *ssa.Call, idx int) bool {
	g := c.Common().StaticCallee()
	if g == nil {
		return c.Common().IsInvoke() && idx == -2
	}
	if isRandomOrHash(g) {
		return false
	}
	if o := g.Object(); o != nil && o.Pkg() != nil && o.Pkg().Path() == "strconv" && (strings.HasPrefix(g.Name(), "Parse") || g.Name() == "Atoi") {
		return false
	}
	if inPkg(g, "fmt") && strings.HasPrefix(g.Name(), "Errorf") {
		return false
	}
	if idx == 0 && in(g.String(), "io.ReadAll", "io/ioutil.ReadAll") {
		return true
	}
	return composes(g) || inPkg(g, "encoding", "net/url", "path", "html", "regexp", "bufio", "os.Expand", "text/tabwriter") || g.String() == "os.ExpandEnv" ||
		in(g.String(), "(net/http.Header).Get", "(net/http.Header).Values", "(net/http.Header).Clone") ||
		in(g.String(), "github.com/aws/aws-sdk-go/aws.String", "github.com/aws/aws-sdk-go/aws.StringValue") ||
		strings.HasPrefix(g.String(), "net/http/httputil.Dump")
}

func isRandomOrHash(g *ssa.Function) bool { return inPkg(g, "crypto", "hash", "math/rand") }

// sink traces a reported value back.
func (r *secretRule) sink(f *ssa.Function, at ssa.Instruction, v ssa.Value, what string) {
	where := FnName(f)
	r.R.Obl("no credential or key is reported", r.P.Pos(at.Pos()))
	done := map[string]bool{}
	bad := func(x ssa.Value, src string) bool {
		if !done[src] {
			done[src] = true
			r.R.Fail("leak:"+where+":"+what+":"+src, at.Pos(), where+": "+src+" ("+r.P.Pos(x.Pos())+") flows into "+strings.TrimSuffix(what, ","), nil)
		}
		return false
	}
	// a whole struct
	for _, x := range sinkParts(v) {
		if src := r.holds(x.Type(), 0); src != "" {
			bad(x, src)
		}
	}
	w := r.F.NewWalk(func(x ssa.Value, key string) bool {
		if isErrType(x.Type()) {
			return false
		}
		if key != "" && r.fields[key] != "" {
			return bad(x, r.fields[key])
		}
		if r.subjects[x] {
			return false
		}
		if s := r.values[x]; s != "" {
			return bad(x, s)
		}
		switch y := x.(type) {
		case *ssa.FieldAddr:
			if key == "net/http.Response.Body" && r.keyReach[f] && !r.failedStatus(f, at.Block(), 0) {
				return bad(x, "the body of a response that can hold a key")
			}
			if key == "net/http.Request.Header" && r.ownRequest(y.X) {
				return bad(x, "the header of a request that carries credentials")
			}
			if r.values[y.X] != "" {
				return bad(x, r.values[y.X])
			}
		case *ssa.Call:
			cc := y.Common()
			if r.isGet(cc) {
				return bad(x, "an encryption key")
			}
			if g := cc.StaticCallee(); g != nil {
				if in(g.String(), "os.Getenv", "os.LookupEnv") && len(cc.Args) == 1 {
					if nm := ssaStr(cc.Args[0]); secretName.MatchString(nm) || strings.HasSuffix(nm, "_KEY_ID") {
						return bad(x, "the environment variable "+nm)
					}
					return false
				}
				if strings.HasPrefix(g.String(), "net/http/httputil.DumpRequest") && r.ownRequest(cc.Args[0]) {
					return bad(x, "a request that carries credentials")
				}
				if in(g.String(), "os.Environ") {
					return bad(x, "the environment")
				}
			}
		case *ssa.Extract:
			if c, ok := y.Tuple.(*ssa.Call); ok && r.isGet(c.Common()) {
				if y.Index == 0 {
					return bad(x, "an encryption key")
				}
				return false
			}
		}
		return true
	}, secretLib)
	w.FieldOnly = true
	w.V(v)
}

// failedStatus: the block runs only for a response with a failure status.
func (r *secretRule) failedStatus(f *ssa.Function, at *ssa.BasicBlock, depth int) bool {
	for _, b := range f.Blocks {
		c, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || len(b.Succs) != 2 {
			continue
		}
		op, ok := c.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		k, v := op.Y, op.X
		if _, ok := k.(*ssa.Const); !ok {
			k, v = op.X, op.Y
		}
		kc, ok := k.(*ssa.Const)
		if !ok || kc.Value == nil || kc.Value.Kind() != constant.Int || !readsField(v, "net/http.Response.StatusCode", 0) {
			continue
		}
		n, _ := constant.Int64Val(kc.Value)
		okStatus := n >= 200 && n < 300
		var fail *ssa.BasicBlock
		switch {
		case op.Op == token.NEQ && okStatus:
			fail = b.Succs[0]
		case op.Op == token.EQL && okStatus:
			fail = b.Succs[1]
		case op.Op == token.EQL && !okStatus:
			fail = b.Succs[0]
		case op.Op == token.NEQ && !okStatus:
			fail = b.Succs[1]
		case in(op.Op.String(), ">", ">=") && op.Y == k && n >= 299:
			fail = b.Succs[0]
		}
		if fail != nil && len(fail.Preds) == 1 && fail.Dominates(at) {
			return true
		}
	}
	if depth > 4 || len(r.F.calls[f]) == 0 || r.F.dynamic[f] {
		return false
	}
	for _, c := range r.F.calls[f] {
		ins := c.(ssa.Instruction)
		if r.keyReach[ins.Parent()] && !r.failedStatus(ins.Parent(), ins.Block(), depth+1) {
			return false
		}
	}
	return !r.getters[f]
}

// readsField: a value loaded from a field, directly.
func readsField(v ssa.Value, key string, d int) bool {
	if d > 4 {
		return false
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		return readsField(x.X, key, d+1)
	case *ssa.FieldAddr:
		return fieldKey(x.X.Type(), x.Field) == key
	case *ssa.Field:
		return fieldKey(x.X.Type(), x.Field) == key
	case *ssa.Phi:
		for _, e := range x.Edges {
			if readsField(e, key, d+1) {
				return true
			}
		}
	}
	return false
}

// sinkParts: a variadic argument's elements.
func sinkParts(v ssa.Value) []ssa.Value {
	if s, ok := v.(*ssa.Slice); ok {
		if a, ok := s.X.(*ssa.Alloc); ok {
			var out []ssa.Value
			for _, ref := range *a.Referrers() {
				if ia, ok := ref.(*ssa.IndexAddr); ok {
					for _, rr := range *ia.Referrers() {
						if st, ok := rr.(*ssa.Store); ok && st.Addr == ia {
							out = append(out, unwrapIface(st.Val))
						}
					}
				}
			}
			return out
		}
	}
	return []ssa.Value{unwrapIface(v)}
}

// holds: does printing a value of the type print a credential?
func (r *secretRule) holds(t types.Type, depth int) string {
	if depth > 6 || t == nil {
		return ""
	}
	if hasMethod(t, "String") || hasMethod(t, "Error") || hasMethod(t, "Format") {
		return ""
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if depth > 0 {
			return ""
		}
		t = p.Elem()
	}
	switch x := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < x.NumFields(); i++ {
			if s := r.fields[fieldKey(t, i)]; s != "" {
				return s
			}
			if s := r.holds(x.Field(i).Type(), depth+1); s != "" {
				return s
			}
		}
	case *types.Slice:
		return r.holds(x.Elem(), depth+1)
	case *types.Array:
		return r.holds(x.Elem(), depth+1)
	case *types.Map:
		return r.holds(x.Elem(), depth+1)
	}
	if n := namedOf(t); n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "net/http" && n.Obj().Name() == "Request" && depth == 0 {
		return ""
	}
	return ""
}

func hasMethod(t types.Type, name string) bool {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return true
		}
	}
	return false
}

// ownRequest: a request made here (not one that is being served).
func (r *secretRule) ownRequest(v ssa.Value) bool {
	own := false
	w := r.F.NewWalk(func(x ssa.Value, key string) bool {
		if c, ok := x.(*ssa.Call); ok {
			if g := c.Call.StaticCallee(); g != nil && in(g.String(), "net/http.NewRequest", "net/http.NewRequestWithContext") {
				own = true
			}
		}
		return true
	}, nil)
	w.V(v)
	return own
}

// dsn: a credential put into a connection string must be quoted, or parts of it are read as something else (and quoted in errors).
func (r *secretRule) dsn(f *ssa.Function, ci ssa.CallInstruction) {
	cc := ci.Common()
	g := cc.StaticCallee()
	if g == nil {
		return
	}
	var v ssa.Value
	switch g.String() {
	case "database/sql.Open":
		v = cc.Args[1]
	case "github.com/lib/pq.NewListener", "github.com/lib/pq.Open", "github.com/lib/pq.NewConnector":
		v = cc.Args[0]
	default:
		return
	}
	r.R.Obl("credentials are quoted in connection strings", r.P.Pos(ci.Pos()))
	where := FnName(f)
	var w *Walk
	w = r.F.NewWalk(func(x ssa.Value, key string) bool {
		if key != "" && r.fields[key] != "" {
			if s := r.fields[key]; strings.Contains(strings.ToLower(s), "passw") || strings.Contains(strings.ToLower(s), "secret") {
				r.R.Fail("raw-dsn:"+where+":"+s, ci.Pos(), s+" ("+r.P.Pos(x.Pos())+") is put into the connection string unquoted: parts of it are read as other settings and quoted in errors", nil)
				return false
			}
			return true
		}
		if c, ok := x.(*ssa.Call); ok {
			if g := c.Call.StaticCallee(); g != nil {
				if inPkg(g, "strings") && strings.HasPrefix(g.Name(), "Replace") || inPkg(g, "net/url") && in(g.Name(), "QueryEscape", "PathEscape", "UserPassword", "String") {
					return false
				}
				if r.quotes(g) {
					return false
				}
			}
		}
		return true
	}, func(c *ssa.Call, idx int) bool { return composes(c.Call.StaticCallee()) })
	w.FieldOnly = true
	w.V(v)
}

// quotes: a helper from text to text that treats quotes and backslashes.
func (r *secretRule) quotes(g *ssa.Function) bool {
	if !r.P.InRepo(g) || g.Signature.Results().Len() != 1 || !textType(g.Signature.Results().At(0).Type()) {
		return false
	}
	n := 0
	for _, p := range g.Params {
		if textType(p.Type()) {
			n++
		}
	}
	if n == 0 {
		return false
	}
	quote, back := false, false
	var scan func(f *ssa.Function, d int)
	scan = func(f *ssa.Function, d int) {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					switch c := (*op).(type) {
					case *ssa.Const:
						if c.Value == nil {
							continue
						}
						switch c.Value.Kind() {
						case constant.String:
							s := constant.StringVal(c.Value)
							quote = quote || strings.Contains(s, "'")
							back = back || strings.Contains(s, `\`)
						case constant.Int:
							i, _ := constant.Int64Val(c.Value)
							quote = quote || i == '\''
							back = back || i == '\\'
						}
					case *ssa.Function:
						if d < 3 && r.P.InRepo(c) && c != f {
							scan(c, d+1)
						}
					case *ssa.Global:
						for _, s := range r.F.globals[c] {
							if k, ok := s.(*ssa.Call); ok {
								for _, a := range sinkParts(k.Call.Args[0]) {
									t := ssaStr(a)
									quote = quote || strings.Contains(t, "'")
									back = back || strings.Contains(t, `\`)
								}
							}
						}
					}
				}
			}
		}
	}
	scan(g, 0)
	return quote && back
}

func init() {
	register("C25", "Every place that reports a value (log, standard output, error, panic, HTTP or gRPC response, file path, request URL, parsers whose errors quote their input) is traced back over all callers, fields and maps; it must not reach a credential field, a credential environment variable, or an encryption key.", []string{
		"credentials are the text fields and environment variables named as such (password, secret, token, access key, encryption key, connection string), what key stores return and are given, and what ciphers are keyed with",
		"a library call reports its arguments only if it is one of the listed ones; fmt, strings, strconv, bytes, encoding, net/url and path compose their results from their arguments",
	}, secretFlows)
}
