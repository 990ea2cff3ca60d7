package main

import (
	"fmt"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func main() {
	if len(os.Args) > 1 && os.Args[1] == "pta" {
		p, err := load(repoDir(), os.Getenv("SA_TARGET"))
		if err != nil {
			fmt.Println(err)
			os.Exit(3)
		}
		p.pointsTo().dump()
		return
	}
	if len(os.Args) > 2 && os.Args[1] == "dump" {
		dump(os.Args[2:])
		return
	}
	if len(os.Args) > 2 && os.Args[1] == "check" {
		os.Exit(checkMain(os.Args[2:]))
	}
	fmt.Println("usage: analyzer check ID|all, analyzer dump PKG FUNC")
	os.Exit(1)
}

func repoDir() string {
	if d := os.Getenv("SA_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func dump(args []string) {
	p, err := load(repoDir(), os.Getenv("SA_TARGET"))
	if err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	cfg := &Config{PanicCallbacks: os.Getenv("PC") != "", Bounds: os.Getenv("BOUNDS") != "", Loads: os.Getenv("LOADS") != ""}
	if os.Getenv("SPLIT") != "" {
		cfg.Split = (&Check{P: p}).splitMeasures
	}
	opq := os.Getenv("OPAQUE")
	cfg.Opaque = func(f *ssa.Function) bool {
		for _, o := range strings.Fields(opq) {
			if strings.HasSuffix(f.String(), o) {
				return true
			}
		}
		return false
	}
	fn := p.Func(args[0], args[1])
	if fn == nil {
		fmt.Println("no such function")
		os.Exit(3)
	}
	it := p.Run(fn, cfg)
	it.print(os.Stdout)
}

func (it *Interp) print(w *os.File) {
	fmt.Fprintf(w, "%s: %d paths, %d steps\n", it.Root, len(it.Paths), it.Steps)
	for _, u := range it.Undec {
		fmt.Fprintln(w, "UNDECIDED", u)
	}
	var ks []string
	for k := range it.Loops {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		l := it.Loops[k]
		fmt.Fprintf(w, "loop %s\n", k)
		for t, i := range l.Init {
			fmt.Fprintf(w, "   %s := %s\n", t, i)
		}
	}
	for i, p := range it.Paths {
		fmt.Fprintf(w, "--- path %d: %s %s", i, p.Out, it.P.posStr(p.Pos))
		for _, r := range p.Ret {
			fmt.Fprintf(w, " %s", r)
		}
		fmt.Fprintln(w)
		for _, e := range p.Events {
			fmt.Fprintln(w, "   ", it.evStr(e))
		}
		for l, n := range p.Next {
			fmt.Fprintf(w, "    next %s = %s\n", l, n)
		}
	}
}

func (it *Interp) evStr(e *Event) string {
	s := fmt.Sprintf("%-7s %s", e.Kind, it.P.posStr(e.Pos))
	if e.Defer {
		s += " defer"
	}
	if e.Name != "" {
		s += " " + shortName(e.Name)
	}
	if e.Addr != nil {
		s += " @" + e.Addr.String()
	}
	if e.Val != nil {
		s += " = " + e.Val.String()
	}
	if e.Cond != nil {
		s += fmt.Sprintf(" %s is %v", e.Cond, e.Taken)
	}
	if len(e.Args) > 0 {
		s += " ("
		for i, a := range e.Args {
			if i > 0 {
				s += ", "
			}
			s += a.String()
		}
		s += ")"
	}
	if len(e.Res) > 0 {
		s += " ->"
		for _, r := range e.Res {
			s += " " + r.String()
		}
	}
	if e.Loop != nil {
		s += " " + e.Loop.Key
	}
	if e.Aux != "" {
		s += " [" + e.Aux + "]"
	}
	return s
}
