package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"

	"go/token"
)

// PropMeta describes a check.
type PropMeta struct {
	ID          string
	Title       string
	Level       string
	Rule        string // what is decided, in one or two sentences
	Assumptions []string
	Run         func(P *Prog, R *Report)
}

var props = map[string]*PropMeta{}

func register(id, rule string, assumptions []string, run func(P *Prog, R *Report)) {
	props[id] = &PropMeta{ID: id, Level: "other", Rule: rule, Assumptions: assumptions, Run: run}
}

func titles(verif string) {
	f, err := os.Open(filepath.Join(verif, "properties.jsonl"))
	if err != nil {
		return
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<22)
	for sc.Scan() {
		var x struct{ ID, Title string }
		if json.Unmarshal(sc.Bytes(), &x) == nil {
			if m := props[x.ID]; m != nil {
				m.Title = x.Title
			}
		}
	}
}

func main() {
	prop := flag.String("prop", "", "property id, comma separated list, or all")
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "verification directory")
	dump := flag.String("dump", "", "debug: dump the SSA of functions whose name contains this")
	cpu := flag.String("cpuprofile", "", "debug: write a CPU profile")
	flag.Parse()
	if *cpu != "" {
		f, _ := os.Create(*cpu)
		_ = pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	debug.SetGCPercent(400)
	titles(*verif)
	var ids []string
	if *prop == "all" {
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	} else if *prop != "" {
		ids = strings.Split(*prop, ",")
	}
	P, err := Load(*repo)
	if err != nil {
		fmt.Println("cannot load the repository:", err)
		for _, id := range ids {
			if m := props[id]; m != nil {
				R := NewReport(&Prog{Dir: *repo}, id)
				R.Found["load"] = &Finding{Key: "load", Msg: "the repository's source cannot be analysed: " + err.Error(), Pos: "?"}
				R.Finish(*verif, m)
			}
		}
		os.Exit(1)
	}
	if *dump != "" {
		for _, f := range P.Funcs {
			if strings.Contains(f.String(), *dump) {
				f.WriteTo(os.Stdout)
			}
		}
		return
	}
	code := 0
	for _, id := range ids {
		m := props[id]
		if m == nil {
			fmt.Println("unknown property", id)
			os.Exit(2)
		}
		R := NewReport(P, id)
		func() {
			defer func() {
				if x := recover(); x != nil {
					R.Fail("internal", token.NoPos, fmt.Sprintf("the analysis failed: %v\n%s", x, debug.Stack()), nil)
				}
			}()
			m.Run(P, R)
		}()
		if c := R.Finish(*verif, m); c > code {
			code = c
		}
	}
	os.Exit(code)
}
