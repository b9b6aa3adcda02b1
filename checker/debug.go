package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
)

// debugStates (RDB_DEBUG=1) counts configurations by place and by what makes them differ.
var debugStates = os.Getenv("RDB_DEBUG") != ""

func init() {
	if debugStates {
		maxStates = 8000
	}
}

type dbgLoc struct {
	n    int
	var_ map[string]int
}

var dbg = map[string]*dbgLoc{}

func (e *Engine) debugKey(p *Path, key string) {
	var st []string
	for _, a := range p.acts {
		st = append(st, fmt.Sprintf("%s.%d.%d", a.frame.Fn.Name(), a.block.Index, a.pc))
	}
	loc := strings.Join(st, ">")
	d := dbg[loc]
	if d == nil {
		d = &dbgLoc{var_: map[string]int{}}
		dbg[loc] = d
	}
	d.n++
	add := func(s string) { d.var_[s]++ }
	for _, a := range p.acts {
		for k, v := range a.env {
			add("env " + a.frame.Fn.Name() + "." + k.Name() + "=" + v.String())
		}
	}
	for k, v := range p.mem {
		add("mem " + k.String() + "=" + v.String())
	}
	for k, v := range p.truth {
		add(fmt.Sprint("truth ", k.String(), "=", v))
	}
	for k, v := range p.nil_ {
		add(fmt.Sprint("nil ", k.String(), "=", v))
	}
	for k, v := range p.eqc {
		add("eqc " + k.String() + "=" + v.String())
	}
	for k, v := range p.RS {
		add(fmt.Sprintf("rs %s %v = %s %v", k.S, k.V, v.S, v.V))
	}
}

func dumpDebug() {
	var ls []string
	for l := range dbg {
		ls = append(ls, l)
	}
	sort.Slice(ls, func(i, j int) bool { return dbg[ls[i]].n > dbg[ls[j]].n })
	for i, l := range ls {
		if i > 4 {
			break
		}
		d := dbg[l]
		fmt.Println("LOC", d.n, l)
		var vs []string
		for v, n := range d.var_ {
			if n < d.n {
				vs = append(vs, v)
			}
		}
		sort.Slice(vs, func(i, j int) bool { return d.var_[vs[i]] > d.var_[vs[j]] })
		for j, v := range vs {
			if j > 60 {
				break
			}
			if len(v) > 220 {
				v = v[:220]
			}
			fmt.Println("   ", d.var_[v], v)
		}
	}
	dbg = map[string]*dbgLoc{}
}
