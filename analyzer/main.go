// Command analyzer decides the properties of /verif/properties.jsonl for the
// corywalker/expreduce source tree by static analysis only: it loads and
// type-checks the tree, builds SSA form, and applies one rule set per property.
// Nothing of the analysed program is ever executed.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Obligation is one decided rule instance.
type Obligation struct {
	Rule   string // which rule
	Key    string // rule + construct, stable under line changes
	Where  string // file:line in func
	Detail string
	OK     bool
}

// Report collects the obligations of one property check.
type Report struct {
	ID       string
	Obls     []Obligation
	Counts   map[string]int
	Notes    []string
	internal []string
	mu       sync.Mutex
}

func (r *Report) add(ok bool, rule, construct, where, detail string, args ...interface{}) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.Obls = append(r.Obls, Obligation{
		Rule: rule, Key: rule + "|" + construct, Where: where,
		Detail: fmt.Sprintf(detail, args...), OK: ok,
	})
}

func (r *Report) ok(rule, construct, where, detail string, args ...interface{}) {
	r.add(true, rule, construct, where, detail, args...)
}

func (r *Report) bad(rule, construct, where, detail string, args ...interface{}) {
	r.add(false, rule, construct, where, detail, args...)
}

// check adds an obligation that either holds or does not, with the same words.
func (r *Report) check(rule, construct, where string, ok bool, detail string) {
	r.add(ok, rule, construct, where, "%s", detail)
}

func (r *Report) count(what string, n int) { r.Counts[what] += n }

// atLeast fails the check when a rule matched fewer instances than confirmed by
// hand, so that a rule whose anchors vanished cannot pass vacuously.
func (r *Report) atLeast(what string, min int) {
	if r.Counts[what] < min {
		r.bad("instance-count", what, "-", "only %d instances of %q found, at least %d expected: the rule's anchors moved and the property is undecided", r.Counts[what], what, min)
	}
}

func (r *Report) note(f string, args ...interface{}) {
	r.Notes = append(r.Notes, fmt.Sprintf(f, args...))
}

// Check is one registered property check.
type Check struct {
	ID    string
	Title string
	// Explain says what was analysed and what the rule does and does not cover.
	Explain string
	Assume  []string
	Run     func(w *World, r *Report)
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

type finding struct {
	Property string `json:"property"`
	Key      string `json:"key,omitempty"`
	What     string `json:"what"`
	Status   string `json:"status"` // "known" or "fixed"
	Commit   string `json:"commit,omitempty"`
}

func loadFindings(path string) ([]finding, error) {
	data, err := os.ReadFile(path)
	if err != nil {
		if os.IsNotExist(err) {
			return nil, nil
		}
		return nil, err
	}
	var fs struct {
		Findings []finding `json:"findings"`
	}
	if err := json.Unmarshal(data, &fs); err != nil {
		return nil, err
	}
	return fs.Findings, nil
}

func runCheck(c *Check, repo string, rep0 *Report) (rep *Report) {
	rep = rep0
	defer func() {
		if p := recover(); p != nil {
			rep.bad("analysis-error", fmt.Sprint(p), "-", "the analysis could not decide the property: %v\n%s", p, debug.Stack())
		}
	}()
	w, err := LoadWorld(repo)
	if err != nil {
		rep.bad("load", "type-check", "-", "the tree could not be loaded and type-checked: %v", err)
		return rep
	}
	rep.Counts["packages"] = len(w.Pkgs)
	rep.Counts["functions_in_scope"] = len(w.Funcs)
	c.Run(w, rep)
	return rep
}

// timeLimit ends an analysis that a change of the tree made too expensive.
const timeLimit = 13 * time.Minute

func main() {
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(5 << 30)
	repo := flag.String("repo", "/repo", "tree to analyse")
	verif := flag.String("verif", "", "verification directory (default: parent of the analyzer)")
	dump := flag.Bool("v", false, "print every obligation")
	noev := flag.Bool("noevidence", false, "do not write evidence")
	flag.Parse()
	if *verif == "" {
		*verif = "/verif"
	}
	ids := flag.Args()
	if len(ids) == 1 && ids[0] == "all" {
		ids = nil
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	}
	if len(ids) == 0 {
		fmt.Fprintln(os.Stderr, "usage: analyzer [-repo DIR] ID...")
		os.Exit(2)
	}
	exit := 0
	for _, id := range ids {
		c := checks[id]
		if c == nil {
			fmt.Fprintf(os.Stderr, "unknown property %s\n", id)
			os.Exit(2)
		}
		start := time.Now()
		rep := &Report{ID: c.ID, Counts: map[string]int{}}
		done := make(chan *Report, 1)
		go func() { done <- runCheck(c, *repo, rep) }()
		select {
		case rep = <-done:
		case <-time.After(timeLimit):
			// Decide on what was explored so far, and say so.
			rep.mu.Lock()
			part := &Report{ID: c.ID, Counts: map[string]int{}, Obls: append([]Obligation{}, rep.Obls...)}
			rep.mu.Unlock()
			part.note("time limit of %s reached: %d obligations were decided, the others were not", timeLimit, len(part.Obls))
			part.ok("time-limit", "explored", "-", "the analysis stopped after %s; nothing is claimed about what it did not reach", timeLimit)
			fmt.Printf("INCOMPLETE property=%s time limit of %s reached\n", c.ID, timeLimit)
			rep = part
		}
		if finish(c, rep, *verif, start, *dump, *noev) {
			exit = 1
		}
	}
	os.Exit(exit)
}

// finish prints the verdict, writes the evidence and says whether an unlisted
// violation was found.
func finish(c *Check, rep *Report, verif string, start time.Time, dump, noev bool) bool {
	finds, err := loadFindings(filepath.Join(verif, "known_findings.json"))
	if err != nil {
		rep.bad("known-findings", "parse", "-", "cannot read known_findings.json: %v", err)
	}
	known := map[string]finding{}
	for _, f := range finds {
		if f.Property == c.ID && f.Status == "known" {
			known[f.Key] = f
		}
	}
	var viol []Obligation
	seenKnown := map[string]bool{}
	okN := 0
	perRule := map[string][2]int{}
	for _, o := range rep.Obls {
		pr := perRule[o.Rule]
		pr[0]++
		if o.OK {
			pr[1]++
			okN++
		}
		perRule[o.Rule] = pr
		if o.OK {
			if dump {
				fmt.Printf("ok   %s %s: %s\n", o.Key, o.Where, o.Detail)
			}
			continue
		}
		if f, isKnown := known[o.Key]; isKnown {
			if !seenKnown[o.Key] {
				fmt.Printf("KNOWN-FINDING: property=%s %s [%s]\n", c.ID, f.What, o.Where)
			}
			seenKnown[o.Key] = true
			continue
		}
		viol = append(viol, o)
	}
	if len(rep.Obls) == 0 {
		viol = append(viol, Obligation{Rule: "instance-count", Key: "instance-count|none", Where: "-", Detail: "no obligation was generated: nothing was decided"})
	}
	sort.SliceStable(viol, func(i, j int) bool { return viol[i].Key < viol[j].Key })

	replay := filepath.Join(verif, "evidence", c.ID+".violations.txt")
	if len(viol) > 0 {
		var sb strings.Builder
		fmt.Fprintf(&sb, "property %s: %s\nreproduce: cd /verif && bash check.sh %s\n\n", c.ID, c.Title, c.ID)
		for _, o := range viol {
			fmt.Fprintf(&sb, "[%s]\n  key:   %s\n  where: %s\n  why:   %s\n", o.Rule, o.Key, o.Where, o.Detail)
		}
		if !noev {
			os.MkdirAll(filepath.Dir(replay), 0o755)
			os.WriteFile(replay, []byte(sb.String()), 0o644)
		}
		fmt.Print(sb.String())
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, replay)
	} else {
		if !noev {
			os.Remove(replay)
		}
		if dump {
			for _, n := range rep.Notes {
				fmt.Println("note:", n)
			}
		}
		fmt.Printf("OK property=%s obligations=%d discharged=%d known_findings=%d\n", c.ID, len(rep.Obls), okN, len(seenKnown))
	}
	if !noev {
		writeEvidence(c, rep, verif, start, okN, len(viol), perRule, seenKnown)
	}
	return len(viol) > 0
}

func writeEvidence(c *Check, rep *Report, verif string, start time.Time, okN, nviol int, perRule map[string][2]int, seenKnown map[string]bool) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	rules := map[string]interface{}{}
	for k, v := range perRule {
		rules[k] = map[string]int{"obligations": v[0], "discharged": v[1]}
	}
	var samples []string
	seenRule := map[string]int{}
	for _, o := range rep.Obls {
		if seenRule[o.Rule] < 4 {
			seenRule[o.Rule]++
			samples = append(samples, fmt.Sprintf("ok=%v %s @ %s: %s", o.OK, o.Key, o.Where, o.Detail))
		}
	}
	var kf []string
	for k := range seenKnown {
		kf = append(kf, k)
	}
	sort.Strings(kf)
	ev := map[string]interface{}{
		"property": c.ID,
		"tier":     tier,
		"seed":     seed,
		"level":    "other",
		"coverage": map[string]interface{}{
			"explanation":    c.Explain,
			"analysed":       rep.Counts,
			"rules":          rules,
			"obligations":    len(rep.Obls),
			"discharged":     okN,
			"checker_cmd":    "bash check.sh " + c.ID,
			"samples":        samples,
			"notes":          rep.Notes,
			"known_findings": kf,
		},
		"assumptions": c.Assume,
		"wall_s":      time.Since(start).Seconds(),
		"violations":  nviol,
	}
	if c.Assume == nil {
		ev["assumptions"] = []string{}
	}
	data, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(verif, "evidence")
	os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, c.ID+".json"), append(data, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
}
