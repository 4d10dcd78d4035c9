// Command analyzer decides the properties of /verif/properties.jsonl on /repo's current source.
package main

import (
	"strconv"
	"verif/analyzer/auto"

	"golang.org/x/tools/go/ssa"

	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"

	"verif/analyzer/ai"
	"verif/analyzer/lint"
	"verif/analyzer/prog"
	"verif/analyzer/report"
	"verif/analyzer/specs"
)

func main() {
	propID := flag.String("prop", "", "property id")
	tier := flag.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "where evidence and known findings live")
	flag.Parse()
	debug.SetGCPercent(800)
	debug.SetMemoryLimit(5 << 30)
	if *tier == "" {
		*tier = "quick"
	}
	if f := os.Getenv("AI_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		code := run(*propID, *tier, *repo, *verif)
		pprof.StopCPUProfile()
		os.Exit(code)
	}
	os.Exit(run(*propID, *tier, *repo, *verif))
}

func run(id, tier, repo, verif string) (code int) {
	r := report.New(id, tier)
	min := 1
	defer func() {
		if e := recover(); e != nil {
			r.Fail(report.Violation{Rule: "analysis-panic", Where: "-", Func: "-", What: fmt.Sprint(e)})
			code = r.Finish(verif, 0)
		}
	}()
	var files map[string][]byte
	spec := specOf[id]
	if spec.files != nil {
		files = specs.Files(append([]string{"intrinsics"}, spec.files...)...)
	}
	p, err := prog.Load(repo, files)
	if err != nil {
		r.Fail(report.Violation{Rule: "load", Where: "-", Func: "-", What: err.Error()})
		return r.Finish(verif, 0)
	}
	switch id {
	case "C09":
		lint.Globals(p, r)
		min = 8
	case "C02":
		lint.ErrorFlow(p, r, lint.ParseRoots, true)
		drivers(p, r, id, spec)
		min = spec.min
	case "C05":
		if os.Getenv("AI_DRIVER") == "" {
			lint.ErrorFlow(p, r, lint.MarshalRoots, true)
		}
		drivers(p, r, id, spec)
		min = spec.min
	case "C24":
		if os.Getenv("AI_DRIVER") == "" {
			lint.ErrorFlow(p, r, lint.ImportRoots, true)
		}
		drivers(p, r, id, spec)
		min = spec.min
	case "C10":
		nilness(p, r, repo)
		min = 90
	case "C04":
		lint.Input(p, r)
		min = 6
	case "C01":
		ai.RunContracts(func() *ai.Interp { return ai.NewInterp(p) }, p.Spec, id+os.Getenv("AI_DRIVER"), r)
		min = spec.min
	case "C25":
		lint.Unsafe(p, r)
		min = 2
	default:
		if spec.files != nil {
			drivers(p, r, id, spec)
			min = spec.min
			break
		}
		fmt.Println("unknown property", id)
		return 2
	}
	return r.Finish(verif, min)
}

// nilness decides C10: by dataflow where that is enough, and with drivers of their own for the other functions.
func nilness(p *prog.Program, r *report.Report, repo string) {
	n := lint.NewNilness(p)
	r.Rule = "Greatest fixpoint over the SSA form: each result of type *V or of an interface of the repository is non-nil at every return, given the same of the functions called, dominating nil tests, error results of the same call, and members of trees being initialised (C13). Functions for which that fails get a driver of their own."
	var ts []auto.Target
	n.Failing(func(fn *ssa.Function, i int, ok bool) {
		r.Functions[fn.RelString(p.Main.Pkg)] = true
		r.Oblige(fn.RelString(p.Main.Pkg) + " #" + strconv.Itoa(i))
		if !ok {
			ts = append(ts, auto.Target{Fn: fn, Res: i})
		}
	})
	if len(ts) == 0 {
		return
	}
	src, rest := auto.NonNil(p, "C10", ts)
	if os.Getenv("AI_SRC") != "" {
		fmt.Println(src)
	}
	for _, t := range rest {
		r.Fail(report.Violation{Rule: "nil-result", Where: p.Pos(t.Fn.Pos()), Func: t.Fn.RelString(p.Main.Pkg), What: "result " + strconv.Itoa(t.Res) + " may be nil: " + n.Why(t.Fn, t.Res)})
	}
	files := specs.Files("intrinsics")
	files["auto.go"] = []byte(src)
	q, err := prog.Load(repo, files)
	if err != nil {
		r.Fail(report.Violation{Rule: "load", Where: "-", Func: "-", What: err.Error()})
		return
	}
	m := lint.NewNilness(q)
	drivers(q, r, "C10", specInfo{setup: func(in *ai.Interp) { in.Known, in.KnownMethod, in.Budget = m.Known, m.KnownMethod, 150 }})
}

func drivers(p *prog.Program, r *report.Report, id string, spec specInfo) {
	ai.RunDrivers(func() *ai.Interp {
		in := ai.NewInterp(p)
		if spec.setup != nil {
			spec.setup(in)
		}
		return in
	}, p.Spec, id+os.Getenv("AI_DRIVER"), r)
}

type specInfo struct {
	files []string
	min   int
	setup func(*ai.Interp)
}

var specOf = map[string]specInfo{
	"C23": {files: []string{"text", "c23"}, min: 20},
	"C15": {files: []string{"text", "c15"}, min: 20},
	"C21": {files: []string{"c21"}, min: 10},
	"C05": {files: []string{"text", "c05"}, min: 40},
	"C01": {files: []string{"c01"}, min: 40},
	"C14": {files: []string{"c14"}, min: 90, setup: func(in *ai.Interp) { in.EnumMaps = true; in.Limit *= 8 }},
	"C03": {files: []string{"c03"}, min: 40},
	"C24": {files: []string{"c24"}, min: 40},
	"C02": {files: []string{"c02"}, min: 60},
	"C12": {files: []string{"c12"}, min: 6},
	"C11": {files: []string{"c11"}, min: 14},
	"C13": {files: []string{"c13"}, min: 6},
	"C08": {files: []string{"text", "c08"}, min: 40},
	"C06": {files: []string{"c06"}, min: 4},
	"C22": {files: []string{"c22"}, min: 6},
	"C20": {files: []string{"c20"}, min: 6},
	"C19": {files: []string{"c19"}, min: 6},
	"C17": {files: []string{"c17"}, min: 6},
	"C18": {files: []string{"c18"}, min: 20},
	"C07": {files: []string{"c07"}, min: 20},
	"C16": {files: []string{"c16"}, min: 6},
}
