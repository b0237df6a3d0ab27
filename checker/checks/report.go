package checks

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"gevcheck/model"
)

// Prop says how a property is decided.
type Prop struct {
	ID       string
	Analyses []string
	Level    string
	Rule     string
	Need     []string // rules that must have been evaluated
	Trusted  []string
}

var repo = "/repo"

// SetRepo changes the directory under analysis (for self-tests).
func SetRepo(d string) { repo = d }

// Thorough is set for the deeper exploration of the properties that have bounds.
var Thorough bool

// Decide runs the check of one property and returns the exit status.
func Decide(verif, id, tier string) int {
	Thorough = tier == "thorough"
	t0 := time.Now()
	pr, ok := Props[id]
	if !ok {
		fmt.Println("unknown property", id)
		return 2
	}
	res := newResult()
	p, err := Load(repo, "", ".", "./eventloop", "./poller", "./plugins/...", "./log")
	if err != nil {
		res.Undecided = append(res.Undecided, "the module does not type-check: "+err.Error())
	} else {
		var fs []func() *Result
		for _, a := range pr.Analyses {
			f := Analyses[a]
			fs = append(fs, func() *Result { return f(p) })
		}
		res = parallel(fs...)
	}
	known := readKnown(filepath.Join(verif, "known-findings.txt"), id)
	var lines []string
	viol, knownHit := 0, 0
	replay := filepath.Join(verif, "evidence", "replay", id+".txt")
	var rep strings.Builder
	report := func(key, msg string, path []string) {
		fmt.Fprintf(&rep, "%s: %s\n", key, msg)
		for _, s := range path {
			fmt.Fprintf(&rep, "    %s\n", s)
		}
	}
	seenKnown := map[string]bool{}
	for _, f := range res.Findings {
		if !f.Is(id) {
			continue
		}
		if k, ok := known[f.ID()]; ok {
			if !seenKnown[k] {
				seenKnown[k] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
			}
			knownHit++
			continue
		}
		viol++
		lines = append(lines, fmt.Sprintf("%s at %s: %s", f.Rule, f.Where, f.Msg))
		report(f.Rule+" at "+f.Where, f.Msg, f.Path)
	}
	for _, u := range res.Undecided {
		viol++
		lines = append(lines, "undecided: "+u)
		report("undecided", u, nil)
	}
	rules := map[string]int{}
	total := 0
	for k, n := range res.Checked {
		if strings.HasPrefix(k, id+"|") {
			rules[k[len(id)+1:]] += n
			total += n
		}
	}
	if viol == 0 {
		for _, n := range pr.Need {
			if rules[n] == 0 {
				viol++
				lines = append(lines, "vacuous: the rule "+n+" was never evaluated: what it looks at is gone from the source")
				report("vacuous", n, nil)
			}
		}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var samples []string
	for r, n := range rules {
		samples = append(samples, fmt.Sprintf("%s: %d", r, n))
	}
	sort.Strings(samples)
	discharged := total - viol - knownHit
	if discharged < 0 {
		discharged = 0
	}
	cov := map[string]interface{}{
		"obligations":        total,
		"discharged":         discharged,
		"rules":              samples,
		"rule":               pr.Rule,
		"checker_cmd":        "checks/run.sh " + id,
		"trusted_base":       append(append([]string{}, pr.Trusted...), trusted(pr)...),
		"functions":          short(res.Funcs),
		"functions_analysed": len(res.Funcs),
		"measured":           res.Counts,
		"opaque_calls":       res.Unknown,
		"explanation":        pr.Rule,
		"samples":            samples,
	}
	if cov["opaque_calls"] == nil || res.Unknown == nil {
		delete(cov, "opaque_calls")
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": pr.Level, "coverage": cov,
		"wall_s": time.Since(t0).Seconds(), "violations": viol,
		"assumptions": append(append([]string{}, pr.Trusted...), trusted(pr)...),
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verif, "evidence", id+".json"), append(b, '\n'), 0o644)
	fmt.Printf("%s: %d obligations, %d functions analysed, %v, %.1fs\n", id, total, len(res.Funcs), res.Counts, time.Since(t0).Seconds())
	if viol > 0 {
		os.MkdirAll(filepath.Dir(replay), 0o755)
		os.WriteFile(replay, []byte(rep.String()), 0o644)
		for _, l := range lines {
			fmt.Println("  " + l)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
		return 1
	}
	fmt.Printf("OK property=%s\n", id)
	return 0
}

func trusted(pr Prop) []string {
	var r []string
	for _, a := range pr.Analyses {
		for _, x := range trustedOf[a] {
			dup := false
			for _, y := range r {
				dup = dup || x == y
			}
			if !dup {
				r = append(r, x)
			}
		}
	}
	return r
}

func short(fs []string) []string {
	var r []string
	for _, f := range fs {
		r = append(r, strings.ReplaceAll(f, "github.com/Allenxuxu/", ""))
	}
	return r
}

// readKnown reads the recorded findings of a property: lines
// "known: property=<id> <rule@construct> <what fails>".
func readKnown(file, id string) map[string]string {
	m := map[string]string{}
	f, err := os.Open(file)
	if err != nil {
		return m
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		pre := "known: property=" + id + " "
		if strings.HasPrefix(l, pre) {
			w := strings.SplitN(l[len(pre):], " ", 2)
			if len(w) == 2 {
				m[w[0]] = w[1]
			}
		}
	}
	return m
}

var _ = model.Gev
