package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"verif/checker/eng"
)

// Finding is one violation of a property.
type Finding struct {
	Rule, Key string
	Pos       string
	Msg       string
	Trace     []string
}

// Report collects what one check analysed and found.
type Report struct {
	Prop        string
	Tier        string
	W           *World
	Findings    []Finding
	Obligations int
	Discharged  int
	Instances   map[string]int // rule -> instances
	Samples     []string
	Rules       []string
	States      int
	Paths       int
	Branches    int
	Fns         map[string]bool
	Calls       int
	Assumptions []string
	start       time.Time
}

func (r *Report) rule(s string) { r.Rules = append(r.Rules, s) }

// inst counts an instance (site, path class, obligation) of a rule.
func (r *Report) inst(rule string, n int) { r.Instances[rule] += n }

func (r *Report) sample(format string, a ...any) {
	s := fmt.Sprintf(format, a...)
	for _, x := range r.Samples {
		if x == s {
			return
		}
	}
	if len(r.Samples) < 40 {
		r.Samples = append(r.Samples, s)
	}
}

func (r *Report) find(rule, key string, pos token.Pos, format string, a ...any) {
	for _, f := range r.Findings {
		if f.Rule == rule && f.Key == key {
			return
		}
	}
	p := "-"
	if r.W != nil {
		p = shortPos(r.W.Prog.Fset.Position(pos))
	}
	r.Findings = append(r.Findings, Finding{Rule: rule, Key: key, Pos: p, Msg: fmt.Sprintf(format, a...)})
}

func shortPos(q token.Position) string {
	if !q.IsValid() {
		return "-"
	}
	f := q.Filename
	if i := strings.LastIndex(f, "/repo/"); i >= 0 {
		f = f[i+6:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// need reports an unresolved anchor unless ok.
func (r *Report) need(ok bool, rule, what string) bool {
	if !ok {
		r.find("anchor", rule+":"+what, token.NoPos, "cannot resolve what the rule %q analyses: %s", rule, what)
	}
	return ok
}

// absorb takes over engine results.
func (r *Report) absorb(e *eng.Engine) {
	r.States += e.States
	if os.Getenv("SIGDEBUG") != "" {
		var ks []string
		for k := range e.Hist {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(i, j int) bool { return e.Hist[ks[i]] > e.Hist[ks[j]] })
		for i, k := range ks {
			if i > 40 {
				break
			}
			fmt.Println("   ", e.Hist[k], k)
		}
	}
	r.Paths += e.Paths
	r.Branches += e.Branches
	for f := range e.FnsSeen {
		r.Fns[eng.FnName(f)] = true
	}
	r.Calls += len(e.CallsSeen)
	for _, k := range e.Order {
		v := e.Violations[k]
		dup := false
		for _, f := range r.Findings {
			if f.Rule == v.Rule && f.Key == v.Key {
				dup = true
			}
		}
		if !dup {
			r.Findings = append(r.Findings, Finding{v.Rule, v.Key, shortPos(v.Pos), v.Msg, v.Trace})
		}
	}
	if e.Exceeded {
		r.Findings = append(r.Findings, Finding{Rule: "undecided", Key: "state-bound", Pos: "-", Msg: "the exploration exceeded its state bound; the property is undecided"})
	}
}

type known struct{ prop, key, desc string }

func loadKnown(path string) []known {
	f, err := os.Open(path)
	if err != nil {
		return nil
	}
	defer f.Close()
	var out []known
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		parts := strings.SplitN(strings.TrimPrefix(l, "known: "), " :: ", 3)
		if len(parts) != 3 {
			continue
		}
		out = append(out, known{strings.TrimPrefix(strings.TrimSpace(parts[0]), "property="), strings.TrimSpace(parts[1]), strings.TrimSpace(parts[2])})
	}
	return out
}

func (r *Report) finish(verif string, seed int, level string) int {
	kn := loadKnown(filepath.Join(verif, "known-findings.txt"))
	var bad []Finding
	var knownHit []string
	for _, f := range r.Findings {
		k := f.Rule + "|" + f.Key
		hit := false
		for _, x := range kn {
			if x.prop == r.Prop && x.key == k {
				hit = true
				fmt.Printf("KNOWN-FINDING: property=%s %s [%s] at %s\n", r.Prop, x.desc, k, f.Pos)
				knownHit = append(knownHit, k)
			}
		}
		if !hit {
			bad = append(bad, f)
		}
	}
	var fns []string
	for f := range r.Fns {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	total := 0
	for _, n := range r.Instances {
		total += n
	}
	cov := map[string]any{
		"explanation": "Static analysis of /repo's current source (go/types + go/ssa): every construct below was resolved and decided on this run; nothing was executed.",
		"rules":       r.Rules, "rule_instances": r.Instances, "obligations": total, "discharged": total - len(r.Findings),
		"functions_analysed": len(fns), "functions": fns, "abstract_states": r.States, "paths_completed": r.Paths,
		"branch_forks": r.Branches, "call_sites": r.Calls, "samples": r.Samples, "known_findings": knownHit,
		"exhaustive": true,
	}
	if len(fns) > 120 {
		cov["functions"] = fns[:120]
	}
	ev := map[string]any{"property": r.Prop, "tier": r.Tier, "seed": seed, "level": level, "coverage": cov,
		"assumptions": r.Assumptions, "wall_s": time.Since(r.start).Seconds(), "violations": len(bad)}
	_ = os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", r.Prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "cannot write evidence:", err)
	}
	rp := filepath.Join(verif, "evidence", r.Prop+".violation.txt")
	if len(bad) == 0 {
		_ = os.Remove(rp)
		fmt.Printf("%s holds: %d rule instances, %d functions, %d abstract states, %d known findings (%.1fs)\n", r.Prop, total, len(fns), r.States, len(knownHit), time.Since(r.start).Seconds())
		return 0
	}
	var sb strings.Builder
	for _, f := range bad {
		fmt.Fprintf(&sb, "%s: rule %s, construct %s\n  %s\n", f.Pos, f.Rule, f.Key, f.Msg)
		for _, t := range f.Trace {
			fmt.Fprintf(&sb, "    %s\n", t)
		}
	}
	_ = os.WriteFile(rp, []byte(sb.String()), 0o644)
	fmt.Print(sb.String())
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, rp)
	return 1
}

func atoi(s string) int { n, _ := strconv.Atoi(s); return n }
