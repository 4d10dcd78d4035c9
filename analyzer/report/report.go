// Package report collects obligations and writes evidence and verdicts.
package report

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Violation is one construct which breaks a rule.
type Violation struct {
	Rule  string   `json:"rule"`
	Where string   `json:"where"`
	Func  string   `json:"func"`
	What  string   `json:"what"`
	Path  []string `json:"path,omitempty"`
}

// Key identifies a violation by rule and construct (not by line).
func (v Violation) Key() string { return v.Rule + "|" + v.Func + "|" + v.What }

// Report is what one check has to say.
type Report struct {
	Property    string
	Tier        string
	Rule        string
	Obligations map[string]int // by rule instance: number of obligations
	Failed      map[string]bool
	Violations  []Violation
	Analysed    map[string]interface{}
	Functions   map[string]bool
	Assumptions []string
	Samples     []string
	start       time.Time
	seen        map[string]bool
}

// New starts a report.
func New(prop, tier string) *Report {
	return &Report{Property: prop, Tier: tier, Obligations: map[string]int{}, Failed: map[string]bool{}, Analysed: map[string]interface{}{},
		Functions: map[string]bool{}, start: time.Now(), seen: map[string]bool{}}
}

// Oblige counts an obligation of a rule instance.
func (r *Report) Oblige(inst string) { r.Obligations[inst]++ }

// Fail reports a violation.
func (r *Report) Fail(v Violation) {
	if r.seen[v.Key()] {
		return
	}
	r.seen[v.Key()] = true
	r.Failed[v.Rule] = true
	r.Violations = append(r.Violations, v)
}

// Assume notes an assumption.
func (r *Report) Assume(s string) {
	for _, a := range r.Assumptions {
		if a == s {
			return
		}
	}
	r.Assumptions = append(r.Assumptions, s)
}

// Finding is an entry of the known-findings file.
type finding struct{ prop, key, text string }

func known(dir, prop string) []finding {
	b, err := os.ReadFile(filepath.Join(dir, "known-findings.txt"))
	if err != nil {
		return nil
	}
	var out []finding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		// finding: property=<id> key=<key> :: <text>
		l = strings.TrimPrefix(l, "finding: ")
		parts := strings.SplitN(l, " :: ", 2)
		f := finding{}
		if len(parts) == 2 {
			f.text = parts[1]
		}
		kv := strings.SplitN(parts[0], " key=", 2)
		f.prop = strings.TrimPrefix(kv[0], "property=")
		if len(kv) == 2 {
			f.key = kv[1]
		}
		if f.prop == prop && f.key != "" {
			out = append(out, f)
		}
	}
	return out
}

// Finish prints the verdict, writes the evidence and returns the exit code. minimum is the number of obligations
// below which the analysis must have missed its target.
func (r *Report) Finish(verif string, minimum int) int {
	total := 0
	insts := []string{}
	for k, n := range r.Obligations {
		total += n
		insts = append(insts, k)
	}
	sort.Strings(insts)
	if total < minimum && os.Getenv("AI_DRIVER") == "" {
		r.Fail(Violation{Rule: "coverage", Where: "-", Func: "-", What: fmt.Sprintf("only %d obligations were found, at least %d were expected: the rule no longer matches the code", total, minimum)})
	}
	var bad []Violation
	kf := known(verif, r.Property)
	for _, v := range r.Violations {
		listed := false
		for _, f := range kf {
			if f.key == v.Key() {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.Property, f.text)
				listed = true
			}
		}
		if !listed {
			bad = append(bad, v)
		}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	failed := len(r.Failed)
	if failed > total {
		failed = total
	}
	fns := []string{}
	for f := range r.Functions {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	cov := map[string]interface{}{
		"explanation":      r.Rule,
		"obligations":      total,
		"discharged":       total - failed,
		"rule_instances":   r.Obligations,
		"functions":        fns,
		"functions_number": len(fns),
	}
	for k, v := range r.Analysed {
		cov[k] = v
	}
	if len(r.Samples) > 0 {
		cov["samples"] = r.Samples
	}
	ev := map[string]interface{}{
		"property": r.Property, "tier": r.Tier, "seed": seed, "level": "other", "coverage": cov,
		"wall_s": time.Since(r.start).Seconds(), "violations": len(bad), "assumptions": r.Assumptions,
	}
	if r.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	dir := filepath.Join(verif, "evidence")
	_ = os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, r.Property+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
	}
	rp := filepath.Join(dir, r.Property+".violations.json")
	_ = os.Remove(rp)
	if len(bad) > 0 {
		b, _ := json.MarshalIndent(bad, "", " ")
		_ = os.WriteFile(rp, append(b, '\n'), 0o644)
		for i, v := range bad {
			if i == 12 {
				fmt.Printf("  ... and %d more\n", len(bad)-i)
				break
			}
			fmt.Printf("  [%s] %s in %s: %s\n", v.Rule, v.Where, v.Func, v.What)
			for _, p := range v.Path {
				fmt.Printf("      %s\n", p)
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, rp)
		return 1
	}
	fmt.Printf("ok property=%s obligations=%d instances=%d functions=%d wall=%.1fs\n", r.Property, total, len(insts), len(fns), time.Since(r.start).Seconds())
	return 0
}
