package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/pprof"
	"strings"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gvc dev|check|worker ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "dev":
		dev(os.Args[2:])
	case "check":
		check(os.Args[2:])
	case "worker":
		worker(os.Args[2:])
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(2)
	}
}

func dev(args []string) {
	fs := flag.NewFlagSet("dev", flag.ExitOnError)
	prop := fs.String("p", "C01", "property")
	dir := fs.String("c", "/verif/contracts", "contract directory")
	only := fs.String("f", "", "function filter (substring, comma separated)")
	verbose := fs.Bool("v", false, "verbose")
	dump := fs.String("dump", "", "directory for failing queries")
	list := fs.Bool("l", false, "list tasks")
	drop := fs.String("drop", "", "contracts to drop")
	rl := fs.Int("rlimit", 0, "rlimit")
	prof := fs.String("prof", "", "cpu profile")
	ssaOut := fs.Bool("ssa", false, "print ssa")
	fs.StringVar(&repoDir, "repo", repoDir, "repository")
	fs.Parse(args)
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	start := time.Now()
	v, err := newVerifier(*dir, *prop, "quick")
	if err != nil {
		fmt.Println("ERROR", err)
		os.Exit(2)
	}
	v.verbose = *verbose
	if *rl > 0 {
		v.rlimit = *rl
	}
	for _, d := range strings.Split(*drop, ",") {
		if d != "" {
			v.dropped[d] = true
		}
	}
	fmt.Printf("loaded in %.1fs, %d functions, %d ctors\n", time.Since(start).Seconds(), len(v.allFns), len(v.ctors))
	if *verbose {
		fmt.Println("init:", v.init.err, v.init.refs, "refs, stable", len(v.init.stable), "fields", sortedKeys(v.init.fields))
	}
	if *only != "none" {
		for _, l := range v.lemmaTasks() {
			if *only == "" || strings.Contains("lemma "+l.name, *only) {
				ok, s, d := l.run(v)
				if !ok {
					fmt.Println("LEMMA FAILED", l.name, s, d)
					if *dump != "" {
						os.WriteFile(*dump+"/lemma-"+l.name+".smt2", []byte(l.query), 0644)
					}
				} else if *verbose {
					fmt.Println("lemma", l.name, s)
				}
			}
		}
	}
	tasks, missing := v.tasks()
	for _, m := range missing {
		fmt.Println("MISSING", m)
	}
	tot, bad := 0, 0
	for _, t := range tasks {
		match := *only == ""
		for _, f := range strings.Split(*only, ",") {
			if f != "" && (strings.Contains(t.name, f)) {
				match = true
			}
			if f != "" && strings.HasPrefix(f, "=") && t.name == f[1:] {
				match = true
			}
		}
		if !match {
			continue
		}
		if *list {
			fmt.Println(t.name)
			continue
		}
		if *ssaOut {
			t.fn.WriteTo(os.Stdout)
		}
		r := v.verify(t)
		nf := 0
		for _, o := range r.Obls {
			tot++
			if !o.OK {
				nf++
			}
		}
		status := "ok"
		if nf > 0 || r.Err != "" || r.Unsup != "" || r.Vacuous != "" {
			status = "FAIL"
			bad++
		}
		fmt.Printf("%-4s %s: %d obligations, %d failed, %d exits, %d queries, %d ms\n", status, r.Name, len(r.Obls), nf, r.Exits, r.Queries, r.WallMS)
		if r.Err != "" {
			fmt.Println("    ERROR", r.Err)
		}
		if r.Unsup != "" {
			fmt.Println("    UNSUPPORTED", r.Unsup)
		}
		if r.Vacuous != "" {
			fmt.Println("    VACUOUS", r.Vacuous)
		}
		if *verbose {
			for _, l := range r.Loops {
				fmt.Println("    loop", l)
			}
			fmt.Println("    used", r.Used)
			fmt.Println("    inlined", r.Inlined)
			for _, o := range r.Obls {
				if o.OK {
					fmt.Printf("    ok %s %s (%s, %dms)\n", o.Kind, o.Name, o.Solver, o.MS)
				}
			}
		}
		for i, o := range r.Obls {
			if !o.OK {
				fmt.Printf("    FAILED %s %s @%s (%.300s, %dms)\n", o.Kind, o.Name, o.Pos, o.Detail, o.MS)
				for j := len(o.Trace) - 1; j >= 0; j-- {
					fmt.Println("        ", o.Trace[j])
				}
				if *dump != "" {
					os.WriteFile(fmt.Sprintf("%s/%d.smt2", *dump, i), []byte(o.Query), 0644)
					fmt.Printf("        dumped %d.smt2\n", i)
				}
			}
		}
	}
	fmt.Printf("total %d obligations, %d functions failed, %d queries (%d cached), %.1fs solver, %.1fs wall\n", tot, bad, statQueries, statCached, statTime.Seconds(), time.Since(start).Seconds())
}
