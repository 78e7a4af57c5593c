package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"time"

	"golang.org/x/tools/go/ssa"
)

type checkFn func(r *Report, thorough bool)

var checks = map[string]checkFn{}

func main() {
	t0 := time.Now()
	root := os.Getenv("VERIF_REPO")
	if root == "" {
		root = "/repo/src"
	}
	if len(os.Args) < 2 {
		fmt.Println("usage: vc check ID [quick|thorough] | all | dev [fn] [kinds]")
		os.Exit(2)
	}
	verif := os.Getenv("VERIF_DIR")
	if verif == "" {
		verif = "/verif"
	}
	p, err := loadProgram(root)
	if err != nil {
		fmt.Println("ERROR", err)
		os.Exit(2)
	}
	if pf := os.Getenv("PROF"); pf != "" {
		f, _ := os.Create(pf)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	tier := "quick"
	if len(os.Args) > 3 {
		tier = os.Args[3]
	}
	switch os.Args[1] {
	case "devpanic":
		devPanic(p)
	case "devext":
		devExt(p)
	case "devnil":
		devNil(p)
	case "dev":
		dev(p)
	case "check":
		os.Exit(runCheck(p, verif, os.Args[2], tier, t0))
	case "all":
		rc := 0
		for _, id := range sortedKeys(checks) {
			if len(os.Args) > 2 && !contains(os.Args[2:], id) {
				continue
			}
			t := time.Now()
			if c := runCheck(p, verif, id, "quick", t); c > rc {
				rc = c
			}
		}
		os.Exit(rc)
	}
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func runCheck(p *Program, verif, id, tier string, t0 time.Time) (rc int) {
	f := checks[id]
	if f == nil {
		fmt.Println("ERROR unknown property", id)
		return 2
	}
	r := newReport(id, p)
	func() {
		defer func() {
			if x := recover(); x != nil {
				// A rule that cannot resolve its anchors does not pass
				r.violations = append(r.violations, Violation{"analysis", "panic", "", fmt.Sprint("analysis failed: ", x), []string{string(debug.Stack())}})
			}
		}()
		f(r, tier == "thorough")
	}()
	return r.finish(verif, tier, t0)
}

func devExt(p *Program) {
	m := map[string]int{}
	for _, fn := range p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if f := c.Common().StaticCallee(); f != nil && !p.inModule[f] {
						m[f.String()]++
					}
				}
			}
		}
	}
	for _, k := range sortedKeys(m) {
		fmt.Println(m[k], k)
	}
}
