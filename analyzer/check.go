package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// A Check decides one property.
type Check struct {
	ID       string
	P        *Prog
	Tier     string
	viols    []violation
	seen     map[string]bool
	obl      map[string]int // obligations discharged, by rule
	funcs    map[string]bool
	paths    int
	loops    int
	steps    int
	sample   []string
	known    map[string]string
	knownHit map[string]bool
	constant map[string][]wseg // bytes that are the same in whatever a codec writes
}

type violation struct {
	Key  string // stable: rule and construct
	Pos  string
	Text string
}

type checkDef struct {
	id   string
	run  func(c *Check)
	rule string
	// obligations that must have been found at least this often
	floor  map[string]int
	assume []string
}

var checks = map[string]*checkDef{}

func register(d *checkDef) { checks[d.id] = d }

// fail reports a violation of the rule at a construct.
func (c *Check) fail(key string, pos token.Pos, f string, a ...interface{}) {
	c.failAt(key, c.P.posStr(pos), f, a...)
}

func (c *Check) failAt(key, pos string, f string, a ...interface{}) {
	txt := fmt.Sprintf(f, a...)
	k := key + "|" + txt
	if c.seen[k] {
		return
	}
	c.seen[k] = true
	c.viols = append(c.viols, violation{key, pos, txt})
}

// ok counts an obligation that holds.
func (c *Check) ok(rule string) { c.obl[rule]++ }

func (c *Check) okN(rule string, n int) { c.obl[rule] += n }

// must reports unless cond holds.
func (c *Check) must(cond bool, rule string, key string, pos token.Pos, f string, a ...interface{}) bool {
	if cond {
		c.ok(rule)
		return true
	}
	c.fail(rule+":"+key, pos, f, a...)
	return false
}

func (c *Check) note(f string, a ...interface{}) {
	if len(c.sample) < 60 {
		c.sample = append(c.sample, fmt.Sprintf(f, a...))
	}
}

// run analyses a function; what cannot be decided is a violation.
func (c *Check) run(fn *ssa.Function, cfg *Config) *Interp {
	it := c.P.Run(fn, cfg)
	for f := range it.Funcs {
		c.funcs[f.String()] = true
	}
	c.paths += len(it.Paths)
	c.loops += len(it.Loops)
	c.steps += it.Steps
	for _, u := range it.Undec {
		c.fail("undecided:"+fn.String(), fn.Pos(), "cannot be decided: %s", u)
	}
	return it
}

// fn finds an anchor.
func (c *Check) fn(rel, name string) *ssa.Function {
	f := c.P.Func(rel, name)
	if f == nil || len(f.Blocks) == 0 {
		c.fail("anchor:"+rel+"."+name, token.NoPos, "%s.%s not found", rel, name)
		return nil
	}
	return f
}

func newCheck(p *Prog, id, tier string) *Check {
	return &Check{ID: id, P: p, Tier: tier, seen: map[string]bool{}, obl: map[string]int{}, funcs: map[string]bool{}, known: map[string]string{}, knownHit: map[string]bool{}}
}

func runCheck(p *Prog, loadErr error, id, tier string) *Check {
	c := newCheck(p, id, tier)
	d := checks[id]
	if loadErr != nil {
		c.P = &Prog{Fset: token.NewFileSet()}
		c.fail("load", token.NoPos, "the module cannot be analysed: %v", loadErr)
		return c
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				st := string(debug.Stack())
				if os.Getenv("SA_TRACE") != "" {
					fmt.Fprintln(os.Stderr, st)
				}
				c.fail("internal", token.NoPos, "the analysis failed: %v", r)
			}
		}()
		d.run(c)
	}()
	var ks []string
	for k := range d.floor {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if c.obl[k] < d.floor[k] && len(c.viols) == 0 {
			c.fail("floor:"+k, token.NoPos, "only %d instances of rule %q were found, at least %d expected", c.obl[k], k, d.floor[k])
		}
	}
	return c
}

// knownFindings reads the entries of the known findings file for a property.
func knownFindings(file, id string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(file)
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		// finding: property=C13 key=<key> <what fails>
		if !strings.HasPrefix(l, "finding: property="+id+" key=") {
			continue
		}
		rest := strings.TrimPrefix(l, "finding: property="+id+" key=")
		i := strings.IndexByte(rest, ' ')
		if i < 0 {
			i = len(rest)
		}
		m[rest[:i]] = strings.TrimSpace(rest[i:])
	}
	return m
}

func verifDir() string {
	if d := os.Getenv("SA_VERIF"); d != "" {
		return d
	}
	return "."
}

// report prints the outcome, writes the evidence, and returns the exit status.
func (c *Check) report(start time.Time) int {
	d := checks[c.ID]
	dir := verifDir()
	known := knownFindings(filepath.Join(dir, "KNOWN_FINDINGS"), c.ID)
	var open []violation
	for _, v := range c.viols {
		k := strings.ReplaceAll(v.Key, " ", "_")
		if txt, ok := known[k]; ok {
			if !c.knownHit[k] {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.ID, txt)
			}
			c.knownHit[k] = true
			continue
		}
		open = append(open, v)
	}
	n := 0
	for _, v := range c.obl {
		n += v
	}
	var fns []string
	for f := range c.funcs {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	if len(c.sample) == 0 {
		c.sample = []string{}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if seed == 0 {
		seed = 1
	}
	ev := map[string]interface{}{
		"property": c.ID,
		"tier":     c.Tier,
		"seed":     seed,
		"level":    "other",
		"coverage": map[string]interface{}{
			"explanation":            "static analysis of the source of /repo; rule: " + d.rule,
			"obligations":            n + len(c.viols),
			"discharged":             n,
			"obligations_by_rule":    c.obl,
			"functions_analysed":     fns,
			"paths_analysed":         c.paths,
			"loops_summarised":       c.loops,
			"instructions_simulated": c.steps,
			"samples":                c.sample,
			"known_findings":         len(c.viols) - len(open),
		},
		"assumptions": d.assume,
		"wall_s":      time.Since(start).Seconds(),
		"violations":  len(open),
	}
	if d.assume == nil {
		ev["assumptions"] = []string{}
	}
	os.MkdirAll(filepath.Join(dir, "evidence"), 0755)
	if b, err := json.MarshalIndent(ev, "", " "); err == nil {
		os.WriteFile(filepath.Join(dir, "evidence", c.ID+".json"), append(b, '\n'), 0644)
	}
	if len(open) == 0 {
		fmt.Printf("%s: %d obligations hold (%d functions, %d paths)\n", c.ID, n, len(fns), c.paths)
		return 0
	}
	rep := filepath.Join(dir, "evidence", c.ID+".violations.txt")
	var sb strings.Builder
	fmt.Fprintf(&sb, "property %s\nrule: %s\n", c.ID, d.rule)
	for _, v := range open {
		fmt.Fprintf(&sb, "\n%s: %s\n    [%s]\n", v.Pos, v.Text, v.Key)
	}
	os.WriteFile(rep, []byte(sb.String()), 0644)
	for i, v := range open {
		if i == 12 {
			fmt.Printf("... and %d more\n", len(open)-i)
			break
		}
		fmt.Printf("%s: %s [%s]\n", v.Pos, v.Text, v.Key)
	}
	abs, err := filepath.Abs(rep)
	if err != nil {
		abs = rep
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, abs)
	return 1
}

func checkMain(args []string) int {
	start := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	p, err := load(repoDir(), os.Getenv("SA_TARGET"))
	if args[0] == "all" {
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			t0 := time.Now()
			c := runCheck(p, err, id, tier)
			if len(c.viols) == 0 {
				n := 0
				for _, v := range c.obl {
					n += v
				}
				fmt.Printf("%s ok %d obligations, %d paths, %.2fs\n", id, n, c.paths, time.Since(t0).Seconds())
			} else {
				fmt.Printf("%s %d VIOLATIONS %.2fs\n", id, len(c.viols), time.Since(t0).Seconds())
				for i, v := range c.viols {
					if i > 5 {
						break
					}
					fmt.Printf("     %s: %s [%s]\n", v.Pos, v.Text, v.Key)
				}
			}
		}
		return 0
	}
	if checks[args[0]] == nil {
		fmt.Println("no such check")
		return 1
	}
	c := runCheck(p, err, args[0], tier)
	if tier == "thorough" {
		// the source that other platforms are built from
		for _, t := range []string{"linux/arm64", "darwin/arm64", "windows/amd64", "freebsd/amd64", "linux/s390x"} {
			p, err := load(repoDir(), t)
			o := runCheck(p, err, args[0], tier)
			have := map[string]bool{}
			for _, v := range c.viols {
				have[v.Key] = true
			}
			for _, v := range o.viols {
				if !have[v.Key] {
					v.Text = t + ": " + v.Text
					c.viols = append(c.viols, v)
				}
			}
			for k, n := range o.obl {
				c.obl[k] += n
			}
			for f := range o.funcs {
				c.funcs[f] = true
			}
			c.paths += o.paths
			c.loops += o.loops
			c.steps += o.steps
		}
	}
	return c.report(start)
}
