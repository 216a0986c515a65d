package main

import (
	"flag"
	"fmt"
	"os"
	"strings"
	"time"
)

var (
	repoDir     = flag.String("repo", "/repo", "repository")
	contractDir = flag.String("contracts", "/verif/contracts", "contract files")
	verifDir    = flag.String("verif", "/verif", "output directory")
	timeout     = flag.Duration("timeout", 20*time.Second, "solver timeout per obligation")
)

func main() {
	flag.BoolVar(&dbgTrace, "trace", false, "print stacks of translation errors")
	flag.BoolVar(&dbgCand, "cand", false, "print dropped candidates")
	flag.BoolVar(&dbgLoop, "loops", false, "print loop debugging")
	flag.StringVar(&dumpDir, "dump", "", "dump queries")
	verbose := flag.Bool("v", false, "all obligations")
	thorough := flag.Bool("thorough", false, "thorough tier")
	flag.Parse()
	args := flag.Args()
	if len(args) == 0 {
		fmt.Fprintln(os.Stderr, "usage: vgo unit PATTERN | check PROP | list")
		os.Exit(2)
	}
	switch args[0] {
	case "check":
		os.Exit(runCheck(args[1], *thorough))
	case "unit":
		e, err := loadEngine(*repoDir, *contractDir)
		if err != nil {
			fmt.Println("load:", err)
			os.Exit(2)
		}
		bad := 0
		for _, k := range e.specs.Order {
			ct := e.specs.Contracts[k]
			if ct.Trusted || len(args) > 1 && !strings.Contains(k, args[1]) {
				continue
			}
			us, err := e.unitsOf(ct)
			if err != nil {
				fmt.Println("ERR", err)
				bad++
				continue
			}
			for _, u := range us {
				if len(args) > 2 && !strings.Contains(u.Name, args[2]) {
					continue
				}
				r := e.runUnit(u, nil, *timeout)
				n, f := 0, 0
				for _, x := range r.Errs {
					fmt.Println("  ERROR", x)
					f++
				}
				for _, o := range r.Obls {
					n++
					if !o.ok() {
						f++
					}
					if !o.ok() || *verbose {
						fmt.Printf("  %-8s %s %v %s [%s %v] %s\n", o.Res.Status, o.Name, o.Props, o.Pos, o.Res.Solver, o.Res.Dur.Round(time.Millisecond), o.Err)
					}
				}
				fmt.Printf("%s: %d obligations, %d failed, %d rounds, %d cands, %v; used %v inlined %d trusted %v\n", u.Name, n, f, r.Rounds, r.Cands, r.Dur.Round(time.Millisecond), r.Used, len(r.Inlined), r.Trusted)
				bad += f
			}
		}
		if bad > 0 {
			os.Exit(1)
		}
	case "touch":
		e, err := loadEngine(*repoDir, *contractDir)
		if err != nil {
			fmt.Println("load:", err)
			os.Exit(2)
		}
		for l, fs := range e.touchers() {
			for f := range fs {
				fmt.Println(l.Type+"."+l.Field, f, e.specs.Contracts[f] != nil)
			}
		}
	case "fns":
		e, err := loadEngine(*repoDir, *contractDir)
		if err != nil {
			fmt.Println("load:", err)
			os.Exit(2)
		}
		for _, k := range sortedKeys(e.fns) {
			if len(args) < 2 || strings.Contains(k, args[1]) {
				fmt.Println(k, e.fns[k].Signature)
			}
		}
	}
}
