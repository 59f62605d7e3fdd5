// sigcheck decides the semantic properties of philippseith/signalr listed in
// /verif/properties.jsonl by static analysis of the repository's current source.
package main

import (
	"flag"
	"fmt"
	"go/token"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

type check struct {
	fn func(w *World, r *Report)
}

var checks = map[string]check{}

func register(id string, fn func(w *World, r *Report)) { checks[id] = check{fn} }

func main() {
	prop := flag.String("prop", "", "property id(s), comma separated, or all")
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "framework directory")
	tier := flag.String("tier", "", "quick or thorough")
	flag.Parse()
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	seed := atoi(os.Getenv("VERIF_SEED"))
	start := time.Now()
	var ids []string
	if *prop == "all" {
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	} else {
		ids = strings.Split(*prop, ",")
	}
	w, err := load(*repo)
	rc := 0
	for _, id := range ids {
		r := &Report{Prop: id, Tier: *tier, W: w, Instances: map[string]int{}, Fns: map[string]bool{}, start: start}
		c, ok := checks[id]
		switch {
		case err != nil:
			r.find("load", "type-check", token.NoPos, "the repository cannot be analysed: %v", err)
		case !ok:
			fmt.Fprintln(os.Stderr, "unknown property", id)
			os.Exit(2)
		default:
			w.repo = *repo
			func() {
				defer func() {
					if p := recover(); p != nil {
						r.find("internal", "panic", token.NoPos, "the checker failed: %v\n%s", p, debug.Stack())
					}
				}()
				c.fn(w, r)
			}()
			total := 0
			for _, n := range r.Instances {
				total += n
			}
			if total == 0 && len(r.Findings) == 0 {
				r.find("anchor", "no-instances", token.NoPos, "the rules matched no site at all; nothing was decided")
			}
		}
		if x := r.finish(*verif, seed, "other"); x != 0 {
			rc = x
		}
		start = time.Now()
	}
	os.Exit(rc)
}
