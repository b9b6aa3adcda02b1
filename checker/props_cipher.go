package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C16: ciphers. Every path of Encrypt and Decrypt of each cipher, and of the creation of keys, is explored.

func init() {
	register("C16", "Every path of Encrypt and Decrypt of every cipher and of the creation of keys is explored: the nonce is a buffer made in this call, filled completely from crypto/rand (or an injected reader), used once and part of the result; every slice, index, block and nonce length on the way of decryption is proved to be within bounds from the comparisons made before; no text is returned together with an error.", []string{
		"crypto/aes, crypto/cipher, chacha20poly1305 and encoding/base64 behave as documented (AEADs reject tampered texts)",
		"a reader injected through a setter is the injector's responsibility",
	}, func(P *Prog, R *Report) {
		n := 0
		for _, t := range P.Implementers(P.Iface("pkg/crypto", "Encryptor")) {
			ks := false
			st := structOf(t)
			for i := 0; st != nil && i < st.NumFields(); i++ {
				if isNamedIn(st.Field(i).Type(), modPath+"/pkg/crypto", "KeyStore") {
					ks = true
				}
			}
			ops := []string{"Encrypt", "Decrypt"}
			if ks {
				ops = ops[:1]
			}
			for _, m := range ops {
				r := &cipherRule{P: P, R: R, root: P.Method(t, m), t: t, op: m, keys: ks}
				r.run()
				n++
			}
		}
		weakRandom(P, R)
		R.Need("a nonce is fresh, complete, random and used once", 3)
		R.Need("the nonce is stored with the cipher text", 3)
		R.Need("nothing is out of bounds in decryption", 4)
		R.Need("an error comes without text", 6)
		R.Need("a new key is random", 1)
	})
}

type cipherRule struct {
	Base
	P     *Prog
	R     *Report
	t     *types.Named
	root  *ssa.Function
	name  string
	op    string
	keys  bool
	recv  *Val
	key   *Val
	text  *Val
	loops *LoopTab
	first bool
}

func (r *cipherRule) run() {
	if r.root == nil {
		return
	}
	r.name = FnName(r.root)
	r.loops = NewLoopTab()
	for _, r.first = range []bool{true, false} {
		e := NewEngine(r.P, r)
		e.RunRoot(r.root, func(p *Path, pa []*Val) {
			p.SetNil(pa[0], false)
			r.recv, r.key, r.text = pa[0], pa[1], pa[2]
		})
		if !r.first {
			r.R.Engine(e, r.name)
		}
	}
}

func (r *cipherRule) fail(key string, p *Path, pos token.Pos, msg string) {
	if r.first {
		return
	}
	if !pos.IsValid() {
		pos = r.root.Pos()
	}
	r.R.Fail(key+":"+r.name, pos, r.name+": "+msg, p)
}

const pkgCipher = "crypto/cipher"

// madeBy is the constructor a cipher object came from, and its arguments.
func madeBy(v *Val) (string, []*Val) {
	if v != nil && v.K == KExtract {
		v = v.Args[0]
	}
	if v != nil && v.K == KCall {
		return v.FullName(), v.Args
	}
	return "", nil
}

func (r *cipherRule) Model(p *Path, c *Call) []Outcome {
	pkg, name := c.callee()
	T := r.P.T
	ok := c.M != nil
	if ok && pkg == pkgCipher && in(name, "NonceSize", "BlockSize", "Overhead") && len(c.Args) == 1 {
		mk, args := madeBy(c.Args[0])
		if name == "NonceSize" {
			switch mk {
			case "crypto/cipher.NewGCM":
				return []Outcome{{Res: T.Int(12)}}
			case "golang.org/x/crypto/chacha20poly1305.NewX":
				return []Outcome{{Res: T.Int(24)}}
			case "golang.org/x/crypto/chacha20poly1305.New":
				return []Outcome{{Res: T.Int(12)}}
			case "crypto/cipher.NewGCMWithNonceSize":
				if len(args) > 1 {
					return []Outcome{{Res: args[1]}}
				}
			}
		}
		if name == "BlockSize" && mk == "crypto/aes.NewCipher" {
			return []Outcome{{Res: T.Int(16)}}
		}
		return []Outcome{{Res: T.mk(Val{K: KBuiltin, Op: "pure:" + name, Args: []*Val{c.Args[0]}, T: types.Typ[types.Int]})}}
	}
	if pkg == "encoding/base64" && name == "EncodeToString" && len(c.Args) == 2 && r.empty(p, c.Args[1]) {
		return []Outcome{{Res: T.Const(constant.MakeString(""), types.Typ[types.String])}}
	}
	failed := func(q *Path, res *Val) { q.Set("failed", nil, "1") }
	switch {
	case isRandRead(c):
		buf := c.Args[len(c.Args)-1]
		return errFork(func(q *Path, res *Val) { q.Set("filled", buf, "1") }, failed)
	case pkg == pkgCipher && name == "Open":
		return errFork(func(q *Path, res *Val) { q.SetV("out", nil, "1", q.ResOf(res, 0)) }, func(q *Path, res *Val) {
			failed(q, res)
			q.SetNil(q.ResOf(res, 0), true)
		})
	case isKeyStoreCall(c, "Get"), isKeyStoreCall(c, "Set"):
		return errFork(nil, nil)
	case isCipherCall(c):
		return errFork(nil, failed)
	case pkg == "encoding/base64" && name == "DecodeString":
		return errFork(nil, failed)
	}
	if failing(r.P, c) {
		return errFork(nil, failed)
	}
	return nil
}

// isRandRead: fills its last argument completely from a reader.
func isRandRead(c *Call) bool { return in(c.Name(), "io.ReadFull", "crypto/rand.Read") }

// bufRoot is the object a byte slice is (a part of).
func bufRoot(v *Val) *Val {
	for v != nil {
		switch v.K {
		case KSlice, KAppend:
			v = v.Args[0]
			continue
		}
		break
	}
	return v
}

// empty: is v a text without content?
func (r *cipherRule) empty(p *Path, v *Val) bool {
	if v == nil {
		return false
	}
	if v.K == KConst && v.C.Kind() == constant.String {
		return constant.StringVal(v.C) == ""
	}
	if v.K == KConv {
		return r.empty(p, v.Args[0])
	}
	if p.NilState(v) == 1 || v.K == KNil {
		return true
	}
	l := p.linLen(v)
	return len(l.m) == 0 && l.c == 0
}

// secure: is v crypto/rand's reader, or a reader that can only be replaced from outside?
func (r *cipherRule) secure(v *Val) string {
	if v == nil {
		return "an unknown reader"
	}
	if isRandReader(v) {
		return ""
	}
	if b, f := fieldRead(v); b != nil && (b == r.recv || b.Any(func(x *Val) bool { return x == r.recv })) {
		if st := structOf(b.T); st != nil {
			return r.P.readerField(namedOf(b.T), f)
		}
	}
	return "a reader other than crypto/rand's"
}

func isRandReader(v *Val) bool {
	if v == nil {
		return false
	}
	if g, ok := v.Site.(*ssa.Global); ok && v.K == KGVal && g.String() == "crypto/rand.Reader" {
		return true
	}
	if v.K == KLoad && len(v.Args) > 0 && v.Args[0].K == KGlobal {
		if g, ok := v.Args[0].Site.(*ssa.Global); ok {
			return g.String() == "crypto/rand.Reader"
		}
	}
	return false
}

// readerField checks every assignment to a reader field: crypto/rand's reader, or a parameter.
func (P *Prog) readerField(n *types.Named, field string) string {
	if n == nil {
		return "a reader of unknown origin"
	}
	sets, bad := 0, ""
	for _, f := range P.Funcs {
		if !P.InRepo(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || namedOf(fa.X.Type()) != n {
					continue
				}
				if structOf(fa.X.Type()).Field(fa.Field).Name() != field {
					continue
				}
				switch v := st.Val.(type) {
				case *ssa.UnOp:
					if g, ok := v.X.(*ssa.Global); ok && g.String() == "crypto/rand.Reader" {
						sets++
						continue
					}
				case *ssa.Parameter:
					continue
				}
				bad = "a reader set to something else than crypto/rand's (" + P.Pos(st.Pos()) + ")"
			}
		}
	}
	if bad == "" && sets == 0 {
		bad = "a reader that is never set to crypto/rand's"
	}
	return bad
}

func (r *cipherRule) Event(p *Path, ev *Ev) {
	r.loops.Observe(p, ev)
	pos := ev.Instr.Pos()
	switch ev.K {
	case EvCall:
		r.onCall(p, ev.Call, pos)
	case EvPanic:
		r.fail("panic", p, pos, "a panic can be reached")
	case EvSlice:
		if r.op != "Decrypt" || isArrayPtr(ev.Addr) {
			return
		}
		if !r.first {
			r.R.Obl("nothing is out of bounds in decryption", r.P.Pos(pos))
		}
		if !p.sliceSafe(ev.Addr, ev.Key, ev.Val, r.loops) {
			r.fail("slice-bounds", p, pos, "a slice expression is not shown to be within bounds for every cipher text")
		}
		// the length of the padding
		if ev.Val != nil && p.GetV("plain", nil) != nil && bufRoot(ev.Addr) == p.GetV("plain", nil) {
			d := p.linLen(ev.Addr).add(p.lin(ev.Val), -1) // what is cut off
			lo := d
			lo.c--
			hi := linConst(16).add(d, -1)
			if len(d.m) > 0 && !(p.atLeast0(lo, r.loops) && p.atLeast0(hi, r.loops)) {
				r.fail("padding", p, pos, "padding of an impossible length (none, or more than a block) is accepted")
			}
		}
	case EvIndex:
		if r.op != "Decrypt" || isArrayPtr(ev.Addr) {
			return
		}
		if !r.first {
			r.R.Obl("nothing is out of bounds in decryption", r.P.Pos(pos))
		}
		if !p.indexSafe(ev.Addr, ev.Key, r.loops) {
			r.fail("index-bounds", p, pos, "an index is not shown to be within bounds for every cipher text")
		}
	case EvExit:
		r.exit(p, ev)
	}
}

func isArrayPtr(v *Val) bool {
	if v == nil || v.T == nil {
		return false
	}
	pt, ok := v.T.Underlying().(*types.Pointer)
	if !ok {
		_, ok = v.T.Underlying().(*types.Array)
		return ok
	}
	_, ok = pt.Elem().Underlying().(*types.Array)
	return ok
}

func (r *cipherRule) fromKey(v *Val) bool { return v.Any(func(x *Val) bool { return x == r.key }) }

func (r *cipherRule) onCall(p *Path, c *Call, pos token.Pos) {
	pkg, name := c.callee()
	switch {
	case c.Name() == "io.ReadFull" && r.op == "Encrypt":
		if m := r.secure(c.Args[0]); m != "" {
			r.fail("weak-random", p, pos, "random bytes come from "+m)
		}
	case in(c.Name(), "crypto/aes.NewCipher", "golang.org/x/crypto/chacha20poly1305.NewX", "golang.org/x/crypto/chacha20poly1305.New"):
		if !r.fromKey(c.Args[0]) {
			r.fail("key", p, pos, "the cipher's key is not the key that was given")
		}
	case pkg == pkgCipher && name == "Seal":
		r.nonce(p, c.Args[2], p.lin(r.sizeOf(p, c.Args[0], "NonceSize")), pos)
		if !c.Args[3].Any(func(x *Val) bool { return x == r.text }) {
			r.fail("plain", p, pos, "what is encrypted is not the text that was given")
		}
		p.SetV("sealed", nil, "dst", c.Args[1])
		r.aad(p, c.Args[4], pos)
	case c.Name() == "crypto/cipher.NewCBCEncrypter":
		r.nonce(p, c.Args[1], linConst(16), pos)
	case in(c.Name(), "crypto/cipher.NewCTR", "crypto/cipher.NewCFBEncrypter", "crypto/cipher.NewOFB") && r.op == "Encrypt":
		r.nonce(p, c.Args[1], linConst(16), pos)
	case pkg == pkgCipher && name == "Open":
		r.aad(p, c.Args[4], pos)
		n := p.linLen(c.Args[2]).add(p.lin(r.sizeOf(p, c.Args[0], "NonceSize")), -1)
		if !p.zero0(n, r.loops) {
			r.fail("nonce-length", p, pos, "Open may be called with a nonce of the wrong length (it panics)")
		}
		if !r.first {
			r.R.Obl("nothing is out of bounds in decryption", "Open at "+r.P.Pos(pos))
		}
	case c.Name() == "crypto/cipher.NewCBCDecrypter":
		n := p.linLen(c.Args[1])
		n.c -= 16
		if !p.zero0(n, r.loops) {
			r.fail("iv-length", p, pos, "the initialisation vector may have the wrong length (panics)")
		}
	case pkg == pkgCipher && name == "CryptBlocks":
		dst, src := c.Args[1], c.Args[2]
		if r.op == "Encrypt" {
			if len(c.Args) > 0 && !src.Any(func(x *Val) bool { return x == r.text }) {
				r.fail("plain", p, pos, "what is encrypted is not the text that was given")
			}
			if unconv(src) == r.text {
				r.fail("padding", p, pos, "a text is encrypted without padding, which is taken off again in decryption")
			}
			p.SetV("sealed", nil, "blocks", bufRoot(dst))
			return
		}
		if !r.first {
			r.R.Obl("nothing is out of bounds in decryption", "CryptBlocks at "+r.P.Pos(pos))
		}
		if !p.multipleOf(p.linLen(src), 16) {
			r.fail("blocks", p, pos, "CryptBlocks may be called with an incomplete block (it panics)")
		}
		if !p.atLeast0(p.linLen(dst).add(p.linLen(src), -1), r.loops) {
			r.fail("blocks-dst", p, pos, "CryptBlocks may be called with too small a result buffer (it panics)")
		}
		p.SetV("plain", nil, "1", bufRoot(dst))
		p.SetV("out", nil, "1", bufRoot(dst))
	case isKeyStoreCall(c, "Set") && r.keys:
		k := c.Args[2]
		r.R.Obl("a new key is random", r.name)
		ok := false
		p.Each("filled", func(b *Val, _ RV) {
			l := p.linLen(b)
			if k.Any(func(x *Val) bool { return x == b }) && len(l.m) == 0 && l.c >= 16 {
				ok = true
			}
		})
		if !ok {
			r.fail("new-key", p, pos, "the key stored is not made from completely random bytes")
		}
	}
}

// aad: additional data that differs from text to text has to be the same in encryption and decryption; none is used.
func (r *cipherRule) aad(p *Path, v *Val, pos token.Pos) {
	if v.Any(func(x *Val) bool {
		return x == r.text || x.K == KMake || x.K == KAlloc || x.K == KCall || p.Get("filled", x) != ""
	}) {
		r.fail("aad", p, pos, "the additional data authenticated depends on more than the key")
	}
}

// zero0 proves e == 0.
func (p *Path) zero0(e linExp, loops *LoopTab) bool {
	return p.atLeast0(e, loops) && p.atLeast0(linConst(0).add(e, -1), loops)
}

func (r *cipherRule) sizeOf(p *Path, aead *Val, what string) *Val {
	o := r.Model(p, &Call{M: aeadMethod(r.P, what), Args: []*Val{aead}})
	if len(o) == 1 {
		return o[0].Res
	}
	return nil
}

func aeadMethod(P *Prog, name string) *types.Func {
	for _, p := range P.SSA.AllPackages() {
		if p.Pkg.Path() == pkgCipher {
			if tn, ok := p.Pkg.Scope().Lookup("AEAD").(*types.TypeName); ok {
				it := tn.Type().Underlying().(*types.Interface)
				for i := 0; i < it.NumMethods(); i++ {
					if it.Method(i).Name() == name {
						return it.Method(i)
					}
				}
			}
		}
	}
	return nil
}

func (r *cipherRule) nonce(p *Path, n *Val, size linExp, pos token.Pos) {
	if !r.first {
		r.R.Obl("a nonce is fresh, complete, random and used once", r.name)
	}
	root := bufRoot(n)
	if root == nil || root.K != KMake && root.K != KAlloc {
		r.fail("nonce-fresh", p, pos, "the nonce or initialisation vector is not a buffer of this call")
		return
	}
	switch p.Get("filled", n) {
	case "":
		r.fail("nonce-random", p, pos, "the nonce or initialisation vector has not been filled completely with random bytes")
		return
	case "used":
		r.fail("nonce-reused", p, pos, "a nonce or initialisation vector is used for a second encryption")
		return
	}
	if d := p.linLen(n).add(size, -1); !p.zero0(d, r.loops) {
		r.fail("nonce-size", p, pos, "the nonce or initialisation vector does not have the size the cipher requires")
	}
	p.Set("filled", n, "used")
	p.SetV("nonce", nil, "1", root)
}

// keeps: is the buffer part of v (other than as the nonce of a sealing call)?
func (r *cipherRule) keeps(v, root *Val) bool {
	if v == nil {
		return false
	}
	if v == root {
		return true
	}
	if v.K == KCall && v.M != nil && v.M.Name() == "Seal" && len(v.Args) > 1 {
		return r.keeps(v.Args[1], root)
	}
	for _, a := range v.Args {
		if r.keeps(a, root) {
			return true
		}
	}
	return false
}

func (r *cipherRule) exit(p *Path, ev *Ev) {
	pos := ev.Instr.Pos()
	text, err := ev.Res_[0], ev.Res_[1]
	ns := p.NilState(err)
	if r.keys {
		if p.Get("failed", nil) != "" && ns != -1 {
			r.fail("failure-hidden", p, pos, "a failure is not reported")
		}
		return
	}
	if !r.first {
		r.R.Obl("an error comes without text", r.name)
	}
	if ns != 1 && !r.empty(p, text) {
		r.fail("text-with-error", p, pos, "a text may be returned together with an error")
	}
	if p.Get("failed", nil) != "" {
		if ns != -1 {
			r.fail("failure-hidden", p, pos, "a failure is not reported")
		}
		return
	}
	if ns == -1 {
		return
	}
	if r.op == "Encrypt" {
		n := p.GetV("nonce", nil)
		if n == nil {
			r.fail("no-nonce", p, pos, "a text is returned that was not encrypted with a nonce")
			return
		}
		if !r.first {
			r.R.Obl("the nonce is stored with the cipher text", r.name)
		}
		if !r.keeps(text, n) {
			r.fail("nonce-lost", p, pos, "the nonce is not stored with the cipher text")
		}
		if p.Get("sealed", nil) == "blocks" && !text.Any(func(x *Val) bool { return x == p.GetV("sealed", nil) }) {
			r.fail("other-result", p, pos, "what is returned is not the cipher text")
		}
		return
	}
	o := p.GetV("out", nil)
	if o == nil || !text.Any(func(x *Val) bool { return x == o }) {
		r.fail("other-result", p, pos, "what is returned is not what the cipher decrypted")
	}
}

// weakRandom: nothing in the packages that make keys and cipher texts uses math/rand.
func weakRandom(P *Prog, R *Report) {
	var pk []string
	for _, it := range []string{"Encryptor", "EventEncryptor", "KeyStore"} {
		for _, t := range P.Implementers(P.Iface("pkg/crypto", it)) {
			pk = append(pk, t.Obj().Pkg().Path())
		}
	}
	for f, sites := range callSites(P, func(f *ssa.Function, c *Call) bool {
		pkg, _ := c.callee()
		return strings.HasPrefix(pkg, "math/rand")
	}) {
		if pp := pkgOf(f); pp != nil && in(pp.Path(), pk...) {
			R.Fail("math-rand:"+FnName(f), sites[0].Pos(), FnName(f)+": random numbers that can be predicted (math/rand)", nil)
		}
	}
}
