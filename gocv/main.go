package main

import (
	"fmt"
	"os"
	"runtime/pprof"
	"strings"
)

func main() {
	setupEnv()
	if f := os.Getenv("GOCV_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	if len(os.Args) < 2 {
		fatal("usage: gocv fn|dump ...")
	}
	repo := envOr("GOCV_REPO", "/repo")
	contracts := envOr("GOCV_CONTRACTS", "/verif/contracts")
	switch os.Args[1] {
	case "check":
		checkMain(os.Args[2:])
	case "one":
		oneMain(os.Args[2:])
	case "dump":
		v := LoadProgram(repo, contracts)
		for k, f := range v.funcs {
			if strings.Contains(k, os.Args[2]) {
				fmt.Println("==", k)
				f.WriteTo(os.Stdout)
			}
		}
	case "keys":
		v := LoadProgram(repo, contracts)
		m := map[string]bool{}
		for k := range v.funcs {
			m[k] = true
		}
		for _, k := range keysOf(m) {
			fmt.Println(k)
		}
	case "fn":
		v := LoadProgram(repo, contracts)
		v.outDir = envOr("GOCV_OUT", "/tmp/gocv")
		v.prop = os.Getenv("GOCV_PROP")
		v.spec.prune(v.prop)
		for _, k := range os.Args[2:] {
			cs := ""
			if i := strings.Index(k, ":"); i >= 0 {
				k, cs = k[:i], k[i+1:]
			}
			if strings.HasPrefix(k, "lemma.") {
				show(v.VerifyLemma(k[6:]))
				continue
			}
			found := false
			for _, c := range v.spec.Contracts[k] {
				if c.Case == cs {
					found = true
					show(v.VerifyFn(k, c))
				}
			}
			if !found {
				fmt.Println("no contract for", k, cs)
			}
		}
	}
}

func show(r *FnResult) {
	n := 0
	for _, o := range r.Obls {
		if o.Secs > 1 {
			fmt.Printf("  slow %s [%s] %s %s %.1fs by %s\n", o.Func, o.Kind, o.Label, o.Pos, o.Secs, o.By)
		}
		if o.Status == "proved" {
			n++
		} else {
			fmt.Printf("  FAILED %s [%s] %s %s: %s\n     %s %s\n", o.Func, o.Kind, o.Label, o.Pos, o.Text, o.File, o.Detail)
		}
	}
	fmt.Printf("%s %s: %d/%d proved, %d trivial, %d paths, %d queries %.1fs solver %.1fs total", r.Key, r.Case, n, len(r.Obls), r.Trivial, r.Paths, r.Queries, r.SolverS, r.Secs)
	if r.Err != "" {
		fmt.Printf(" ERROR %s", r.Err)
	}
	if r.Vacuous != "" {
		fmt.Printf(" VACUOUS %s", r.Vacuous)
	}
	fmt.Println()
	if debug {
		fmt.Println("  inlined", r.Inlined, "externs", r.Externs, "needs", r.Needs)
	}
}
