package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Finding is one violated obligation.
type Finding struct {
	Key   string // rule + construct, independent of lines
	Msg   string
	Pos   string
	Trace []string
}

// Report collects what a check analysed and found.
type Report struct {
	P        *Prog
	Prop     string
	Rule     string
	Found    map[string]*Finding
	Counts   map[string]int
	Items    map[string][]string // what was analysed, by kind
	Notes    []string
	Start    time.Time
	obl      map[string]bool
	oblOrder []string
}

func NewReport(P *Prog, prop string) *Report {
	return &Report{P: P, Prop: prop, Found: map[string]*Finding{}, Counts: map[string]int{}, Items: map[string][]string{}, Start: time.Now(), obl: map[string]bool{}}
}

// Obl records an obligation (an instance of a rule at a construct).
func (r *Report) Obl(rule, construct string) {
	k := rule + " @ " + construct
	if !r.obl[k] {
		r.obl[k] = true
		r.oblOrder = append(r.oblOrder, k)
		r.Counts["obligations: "+rule]++
	}
}

// NObl counts the instances of a rule.
func (r *Report) NObl(rule string) int { return r.Counts["obligations: "+rule] }

// Item records an analysed construct.
func (r *Report) Item(kind, what string) {
	for _, x := range r.Items[kind] {
		if x == what {
			return
		}
	}
	r.Items[kind] = append(r.Items[kind], what)
	r.Counts[kind]++
}

// Need fails the check if fewer than n instances of a rule were found.
func (r *Report) Need(rule string, n int) {
	if c := r.NObl(rule); c < n {
		r.Fail("instances:"+rule, token.NoPos, fmt.Sprintf("rule %q matched %d constructs, at least %d are known to exist: the analysis no longer finds what it must check", rule, c, n), nil)
	}
}

// Fail records a violation.
func (r *Report) Fail(key string, pos token.Pos, msg string, p *Path) {
	if f, ok := r.Found[key]; ok {
		_ = f
		return
	}
	f := &Finding{Key: key, Msg: msg, Pos: r.P.Pos(pos)}
	if p != nil {
		f.Trace = p.TraceLines()
	}
	r.Found[key] = f
}

// TraceLines renders the witness path.
func (p *Path) TraceLines() []string {
	var out []string
	for t := p.trace; t != nil; t = t.up {
		out = append(out, p.E.P.Pos(t.pos)+": "+t.msg)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	if len(out) > 60 {
		out = append(append([]string{}, out[:20]...), out[len(out)-40:]...)
	}
	return out
}

// Engine statistics.
func (r *Report) Engine(e *Engine, root string) {
	r.Counts["abstract configurations explored"] += e.States
	for f := range e.Funcs {
		r.Item("functions analysed", FnName(f))
	}
	if e.Over {
		r.Fail("undecided:"+root, token.NoPos, "the exploration of "+root+" exceeded its bound; the property is undecided", nil)
	}
}

func loadKnown(verif string) map[string]string {
	out := map[string]string{}
	f, err := os.Open(filepath.Join(verif, "known_findings.txt"))
	if err != nil {
		return out
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		// finding: property=C01 key=<key> :: description
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		l = strings.TrimPrefix(l, "finding: ")
		a, d, _ := strings.Cut(l, " :: ")
		pr, k, ok := strings.Cut(a, " key=")
		if !ok {
			continue
		}
		out[strings.TrimPrefix(pr, "property=")+"|"+k] = d
	}
	return out
}

// Finish prints the result, writes the evidence and returns the exit code.
func (r *Report) Finish(verif string, meta *PropMeta) int {
	known := loadKnown(verif)
	var keys []string
	for k := range r.Found {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var viol, kf []string
	var vios []map[string]any
	for _, k := range keys {
		f := r.Found[k]
		if d, ok := known[r.Prop+"|"+k]; ok {
			kf = append(kf, fmt.Sprintf("KNOWN-FINDING: property=%s %s (%s)", r.Prop, d, k))
			continue
		}
		viol = append(viol, k)
		vios = append(vios, map[string]any{"key": k, "where": f.Pos, "what": f.Msg})
	}
	fmt.Printf("property %s: %s\n", r.Prop, meta.Title)
	var cs []string
	for k := range r.Counts {
		cs = append(cs, k)
	}
	sort.Strings(cs)
	for _, k := range cs {
		fmt.Printf("  %-60s %d\n", k, r.Counts[k])
	}
	for _, l := range kf {
		fmt.Println(l)
	}
	code := 0
	replay := filepath.Join(verif, "evidence", r.Prop+".report.txt")
	_ = os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	var b strings.Builder
	for _, k := range viol {
		f := r.Found[k]
		fmt.Fprintf(&b, "%s: %s\n  rule/construct: %s\n", f.Pos, f.Msg, k)
		for _, t := range f.Trace {
			fmt.Fprintf(&b, "    %s\n", t)
		}
	}
	_ = os.WriteFile(replay, []byte(b.String()), 0o644)
	if len(viol) > 0 {
		fmt.Print(b.String())
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, replay)
		code = 1
	} else {
		fmt.Printf("OK property=%s: %d obligations hold\n", r.Prop, len(r.oblOrder))
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	var exp strings.Builder
	exp.WriteString(meta.Rule)
	exp.WriteString(" Analysed: ")
	for i, k := range cs {
		if i > 0 {
			exp.WriteString(", ")
		}
		fmt.Fprintf(&exp, "%s: %d", k, r.Counts[k])
	}
	exp.WriteString(".")
	cov := map[string]any{
		"explanation":     exp.String(),
		"counts":          r.Counts,
		"obligation_list": r.oblOrder,
		"obligations":     len(r.oblOrder),
		"discharged":      len(r.oblOrder) - len(viol),
		"analysed":        r.Items,
	}
	if len(r.Notes) > 0 {
		cov["notes"] = r.Notes
	}
	if len(kf) > 0 {
		cov["known_findings"] = kf
	}
	ev := map[string]any{
		"property": r.Prop, "tier": tier, "seed": seed, "level": meta.Level,
		"coverage": cov, "wall_s": time.Since(r.Start).Seconds(),
		"assumptions": meta.Assumptions,
	}
	if vios == nil {
		vios = []map[string]any{}
	}
	ev["violations"] = len(vios)
	if len(vios) > 0 {
		cov["violations"] = vios
	}
	js, _ := json.MarshalIndent(ev, "", "  ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", r.Prop+".json"), js, 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
	}
	return code
}
