package main

import (
	"fmt"
	"os"
	"strconv"
	"strings"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: sa check|dump ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(cmdCheck(os.Args[2:]))
	case "layout":
		cmdLayout("/repo")
	case "count":
		w, err := Load("/repo")
		if err != nil {
			panic(err)
		}
		cmdCount(w)
	case "dump":
		w, err := Load("/repo")
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		fn := w.Fn(os.Args[2])
		if fn == nil {
			fmt.Println("no such function")
			os.Exit(2)
		}
		max := 5
		cfg := Config{}
		brief := false
		for _, a := range os.Args[3:] {
			switch a {
			case "arith":
				cfg.Arith = true
			case "brief":
				brief = true
			case "bounds":
				cfg.Bounds = true
			case "imp":
				cfg = importerCfg(fn)
			case "intra":
				cfg.Stop = func(f *ssaFunc, d int) bool { return true }
			default:
				if strings.HasPrefix(a, "stop=") {
					cfg.Stop = stopNames(strings.Split(a[5:], ",")...)
				}
				if n, err := strconv.Atoi(a); err == nil {
					max = n
				}
			}
		}
		in := NewInterp(w, cfg)
		n := 0
		in.Run(fn, func(t *Trace) {
			n++
			if n <= max {
				fmt.Printf("--- path %d (%s)\n", n, t.Outcome)
				for _, e := range t.Events {
					if brief && (e.Kind == "enter" || e.Kind == "leave" || e.Kind == "branch" && e.Cond.Op == "const" || e.Kind == "store" && (e.Addr.Op == "alloc" || baseOf(e.Addr).Sym == "varargs")) {
						continue
					}
					fmt.Println(w.fmtEvent(e))
				}
				fmt.Printf("  => %v\n", t.Rets)
			}
		})
		fmt.Printf("%d paths, cut %d, steps %d, truncated %v, fns %d\n", in.Stats.Paths, in.Stats.Cut, in.Stats.Steps, in.Stats.Truncated, len(in.Stats.Fns))
	}
}

func cmdCount(w *World) {
	for _, fn := range w.Fns {
		if fn.Parent() != nil || fn.Synthetic != "" || fn.Object() == nil || !fn.Object().Exported() || !w.production(fn) {
			continue
		}
		in := NewInterp(w, Config{MaxPaths: 30000})
		in.Run(fn, func(t *Trace) {})
		fmt.Printf("%-45s paths %d cut %d steps %d trunc %v fns %d\n", fnName(fn), in.Stats.Paths, in.Stats.Cut, in.Stats.Steps, in.Stats.Truncated, len(in.Stats.Fns))
	}
}
