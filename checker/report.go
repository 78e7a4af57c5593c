package main

// Reports: obligations, violations, evidence files and exit codes

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Violation struct {
	Rule   string
	Key    string // stable identification: function and construct, no line
	Pos    string
	Msg    string
	Detail []string
}

type Report struct {
	id         string
	p          *Program
	rules      map[string]*ruleStats
	order      []string
	violations []Violation
	notes      []string
	extra      map[string]any
}

type ruleStats struct {
	Text      string   `json:"rule"`
	Instances int      `json:"instances"`
	Decided   int      `json:"discharged"`
	Excluded  int      `json:"not_decided"`
	Samples   []string `json:"samples"`
	Reasons   []string `json:"not_decided_reasons,omitempty"`
	fns       map[string]bool
	Functions int `json:"functions"`
	floor     int
}

func newReport(id string, p *Program) *Report {
	return &Report{id: id, p: p, rules: map[string]*ruleStats{}, extra: map[string]any{}}
}

// Declare a rule, with the least number of instances it must find
func (r *Report) rule(name, text string, floor int) {
	r.rules[name] = &ruleStats{Text: text, fns: map[string]bool{}, floor: floor}
	r.order = append(r.order, name)
}

func (r *Report) seen(rule string, fn *ssa.Function, sample string) *ruleStats {
	s := r.rules[rule]
	if s == nil {
		panic("undeclared rule " + rule)
	}
	s.Instances++
	if fn != nil {
		s.fns[shortFn(fn)] = true
	}
	if len(s.Samples) < 12 && sample != "" {
		s.Samples = append(s.Samples, sample)
	}
	return s
}

func (r *Report) ok(rule string, fn *ssa.Function, sample string) {
	r.seen(rule, fn, sample).Decided++
}

func (r *Report) excluded(rule string, fn *ssa.Function, what, reason string) {
	s := r.seen(rule, fn, "")
	s.Excluded++
	t := what + ": " + reason
	for _, x := range s.Reasons {
		if x == t {
			return
		}
	}
	s.Reasons = append(s.Reasons, t)
}

func (r *Report) fail(rule string, fn *ssa.Function, key, pos, msg string, detail ...string) {
	r.seen(rule, fn, "")
	for _, v := range r.violations {
		if v.Rule == rule && v.Key == key && v.Pos == pos {
			return
		}
	}
	r.violations = append(r.violations, Violation{rule, key, pos, msg, detail})
}

func (r *Report) note(f string, a ...any) { r.notes = append(r.notes, fmt.Sprintf(f, a...)) }

type known struct{ property, key, text string }

func loadKnown(file string) []known {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		// known: property=<id> key=<key> :: <what fails>
		rest := strings.TrimPrefix(l, "known: ")
		head, text, _ := strings.Cut(rest, " :: ")
		head = strings.TrimPrefix(head, "property=")
		id, key, _ := strings.Cut(head, " key=")
		out = append(out, known{id, strings.TrimSpace(key), text})
	}
	return out
}

func (r *Report) finish(verif, tier string, t0 time.Time) int {
	for _, n := range r.order {
		s := r.rules[n]
		s.Functions = len(s.fns)
		if s.Instances < s.floor {
			r.violations = append(r.violations, Violation{n, "floor", "", fmt.Sprintf(
				"rule matched %d instances, at least %d were expected: its anchors moved and the rule no longer decides the property", s.Instances, s.floor), nil})
		}
	}
	kn := loadKnown(filepath.Join(verif, "known-findings.txt"))
	var viol, found []Violation
	for _, v := range r.violations {
		k := v.Rule + "/" + v.Key
		listed := false
		for _, x := range kn {
			if x.property == r.id && x.key == k {
				listed = true
				fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", r.id, x.text, v.Pos)
				break
			}
		}
		if listed {
			found = append(found, v)
		} else {
			viol = append(viol, v)
		}
	}
	sort.SliceStable(viol, func(i, j int) bool { return viol[i].Pos < viol[j].Pos })

	inst, dec, exc := 0, 0, 0
	rules := map[string]any{}
	var texts []string
	for _, n := range r.order {
		s := r.rules[n]
		inst += s.Instances
		dec += s.Decided
		exc += s.Excluded
		rules[n] = s
		texts = append(texts, fmt.Sprintf("%s: %s (%d instances in %d functions, %d discharged, %d not decided)", n, s.Text, s.Instances, s.Functions, s.Decided, s.Excluded))
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var npk int
	for _, pk := range r.p.pkgs {
		if r.p.isModPkg(pk.Types) {
			npk++
		}
	}
	cov := map[string]any{
		"explanation":       "Static analysis of the type-checked SSA form of every package of the module, rebuilt from the current source. " + strings.Join(texts, "; "),
		"packages":          npk,
		"functions_loaded":  len(r.p.funcs),
		"obligations":       inst,
		"discharged":        dec,
		"not_decided":       exc,
		"known_findings":    len(found),
		"rules":             rules,
		"analysis_notes":    r.notes,
		"violation_details": viol,
	}
	for k, v := range r.extra {
		cov[k] = v
	}
	ev := map[string]any{
		"property": r.id, "tier": tier, "seed": seed, "level": "other",
		"coverage": cov, "wall_s": time.Since(t0).Seconds(), "violations": len(viol),
		"assumptions": []string{
			"go/types, go/ssa and the Go toolchain represent the program faithfully; no unsafe, cgo or reflection is used by the module",
			"native commands registered by embedding programs follow the same rules as the ones in this repository",
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", r.id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("ERROR", err)
		return 2
	}
	for _, n := range r.order {
		s := r.rules[n]
		fmt.Printf("%s %s: %d instances in %d functions, %d discharged, %d not decided\n", r.id, n, s.Instances, s.Functions, s.Decided, s.Excluded)
	}
	vf := filepath.Join(verif, "evidence", r.id+".violations.txt")
	os.Remove(vf)
	if len(viol) == 0 {
		fmt.Printf("%s: property holds on everything analysed\n", r.id)
		return 0
	}
	var sb strings.Builder
	for _, v := range viol {
		fmt.Fprintf(&sb, "%s: [%s] %s (%s)\n", v.Pos, v.Rule, v.Msg, v.Key)
		for _, d := range v.Detail {
			fmt.Fprintf(&sb, "    %s\n", d)
		}
	}
	os.WriteFile(vf, []byte(sb.String()), 0o644)
	fmt.Print(sb.String())
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.id, vf)
	return 1
}
