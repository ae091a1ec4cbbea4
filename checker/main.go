// Command checker decides the properties in /verif/properties.jsonl by static
// analysis of /repo's current source.
//
//	checker [-repo DIR] [-out DIR] [-known FILE] [-v] ID...
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"verif/checker/flow"
)

var (
	repoDir = flag.String("repo", "/repo", "source tree to analyse")
	outDir  = flag.String("out", "/verif/evidence", "where evidence is written")
	known   = flag.String("known", "/verif/known_findings.txt", "known findings file")
	verbose = flag.Bool("v", false, "verbose")
	tier    = flag.String("tier", "quick", "quick or thorough")
)

// checkDef is one registered check.
type checkDef struct {
	ID    string
	Title string
	Rule  string // the rule applied, for evidence
	Trust []string
	Run   func(c *C)
}

var checks = map[string]checkDef{}

func register(d checkDef) { checks[d.ID] = d }

func main() {
	flag.Parse()
	ids := flag.Args()
	if len(ids) == 1 && ids[0] == "all" {
		ids = nil
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	}
	exit := 0
	start := time.Now()
	prog, err := load(*repoDir)
	loadTime := time.Since(start)
	for _, id := range ids {
		d, ok := checks[id]
		if !ok {
			fmt.Fprintf(os.Stderr, "unknown check %s\n", id)
			os.Exit(2)
		}
		if runCheck(d, prog, err, loadTime) {
			exit = 1
		}
	}
	os.Exit(exit)
}

func runCheck(d checkDef, prog *Prog, loadErr error, loadTime time.Duration) (bad bool) {
	start := time.Now()
	flow.Reset()
	c := &C{P: prog, ID: d.ID, counts: map[string]int{}}
	if loadErr != nil {
		c.viol = append(c.viol, viol{Key: "load", Msg: "the source tree could not be loaded and type-checked: " + loadErr.Error()})
	} else {
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(abort); ok {
						return
					}
					c.viol = append(c.viol, viol{Key: "internal", Msg: fmt.Sprintf("the analysis could not decide this tree (%v)", r)})
					fmt.Fprintf(os.Stderr, "%v\n%s\n", r, debug.Stack())
				}
			}()
			d.Run(c)
		}()
		c.checkNeeds()
	}
	// dedupe
	seen := map[string]bool{}
	vs := []viol{}
	for _, v := range c.viol {
		k := v.Key + "|" + v.Msg
		if !seen[k] {
			seen[k] = true
			vs = append(vs, v)
		}
	}
	kf := readKnown(d.ID)
	news := []viol{}
	matched := map[string]bool{}
	for _, v := range vs {
		if msg, ok := kf[v.Key]; ok {
			matched[v.Key] = true
			_ = msg
			continue
		}
		news = append(news, v)
	}
	for k, msg := range kf {
		if matched[k] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", d.ID, msg)
		}
	}
	wall := (time.Since(start) + loadTime).Seconds()
	replay := filepath.Join(*outDir, d.ID+".replay.txt")
	os.MkdirAll(*outDir, 0o755)
	total := 0
	for _, n := range c.counts {
		total += n
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	tierName := *tier
	if t := os.Getenv("VERIF_TIER"); t == "quick" || t == "thorough" {
		tierName = t
	}
	ev := map[string]any{
		"property": d.ID, "tier": tierName, "seed": seed, "level": "other", "wall_s": wall, "violations": len(news),
		"coverage": map[string]any{
			"explanation":        d.Rule,
			"rule_instances":     c.counts,
			"obligations":        total,
			"functions_analysed": c.funcList(),
			"abstract_states":    c.states,
			"packages":           c.pkgNames(),
			"findings":           violStrings(vs),
			"instances":          c.samples,
			"exhaustive":         true,
		},
		"assumptions": d.Trust,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(*outDir, d.ID+".json"), b, 0o644)
	fmt.Printf("%s %s: %d obligations over %d functions, %d abstract states, %.1fs\n", d.ID, d.Title, total, len(c.funcs), c.states, wall)
	if *verbose {
		keys := []string{}
		for k := range c.counts {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			fmt.Printf("   %-60s %d\n", k, c.counts[k])
		}
		for _, s := range c.samples {
			fmt.Println("   ·", s)
		}
	}
	os.Remove(replay)
	if len(news) == 0 {
		return false
	}
	var rb strings.Builder
	fmt.Fprintf(&rb, "property %s: %s\nrule: %s\n\n", d.ID, d.Title, d.Rule)
	for _, v := range news {
		fmt.Printf("  %s: [%s] %s\n", v.Pos, v.Key, v.Msg)
		fmt.Fprintf(&rb, "%s: [%s] %s\n", v.Pos, v.Key, v.Msg)
		if v.Path != "" {
			fmt.Printf("      path: %s\n", v.Path)
			fmt.Fprintf(&rb, "    path: %s\n", v.Path)
		}
	}
	os.WriteFile(replay, []byte(rb.String()), 0o644)
	fmt.Printf("VIOLATION property=%s replay=%s\n", d.ID, replay)
	return true
}

func violStrings(vs []viol) []string {
	out := []string{}
	for _, v := range vs {
		out = append(out, v.Pos+": ["+v.Key+"] "+v.Msg)
	}
	return out
}

// readKnown reads "known: property=<id> key=<key> <text>" lines.
func readKnown(id string) map[string]string {
	out := map[string]string{}
	f, err := os.Open(*known)
	if err != nil {
		return out
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		line := sc.Text()
		if !strings.HasPrefix(line, "known: property="+id+" key=") {
			continue
		}
		rest := strings.TrimPrefix(line, "known: property="+id+" key=")
		key, msg, _ := strings.Cut(rest, " ")
		out[key] = msg
	}
	return out
}
