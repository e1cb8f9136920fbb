package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Check decides one property.
type Check struct {
	ID    string
	Title string
	// Floor is the least number of obligations a run must decide: the
	// analysis must never pass because it found nothing to look at.
	Floor int
	// Rule describes what is decided and by which analysis.
	Rule string
	Run  func(c *Ctx)
}

var checks = map[string]*Check{}

func register(c *Check) {
	if checks[c.ID] != nil {
		panic("duplicate check " + c.ID)
	}
	checks[c.ID] = c
}

// Fail is one undischarged obligation.
type Fail struct {
	Rule string `json:"rule"`
	Site string `json:"site"`
	Pos  string `json:"pos"`
	What string `json:"what"`
}

// Key identifies a failure independently of line numbers.
func (f Fail) Key() string { return f.Rule + "@" + f.Site }

// Ctx is one run of one check.
type Ctx struct {
	R        *Repo
	In       *Interp
	ID       string
	Thorough bool
	ob       int
	perRule  map[string]int
	fails    []Fail
	und      []Fail // rules the analysis could not decide
	samples  []string
	notes    []string
	sites    map[string]bool
	sp       []*State
	// what calls left in package variables, and what the current run began
	// with.
	slots   slotUse
	left    map[string]*leftover
	residue map[int]Val
	how     string
	// sure: what this check reports does not depend on what unknown calls do.
	sure bool
}

// Ob decides one obligation of a rule at a site.
func (c *Ctx) Ob(ok bool, rule, site string, pos token.Pos, format string, a ...interface{}) bool {
	c.ob++
	c.perRule[rule]++
	c.sites[rule+"@"+site] = true
	if ok {
		if c.perRule[rule] <= 2 && len(c.samples) < 40 {
			c.samples = append(c.samples, fmt.Sprintf("%s @ %s (%s)", rule, site, c.R.Pos(pos)))
		}
		return true
	}
	f := Fail{rule, site, c.R.Pos(pos), fmt.Sprintf(format, a...) + c.how}
	if c.In != nil && !c.sure {
		why := c.In.Taint
		if why == "" {
			why = c.In.dependsOnUnknown(f.What)
		}
		if why != "" {
			c.undecided(rule, site, pos, why+": "+f.What)
			return false
		}
	}
	for _, g := range c.fails {
		if g.Key() == f.Key() && g.Pos == f.Pos {
			return false
		}
	}
	c.fails = append(c.fails, f)
	return false
}

// Guard runs a rule. What lies beyond the analysis (a construct the engine
// has no transfer function for, an exhausted budget, a missing anchor) is
// recorded as undecided: it is reported, but it is no violation, because
// nothing has been shown to be wrong.
func (c *Ctx) Guard(rule string, f func()) {
	defer func() {
		if e := recover(); e != nil {
			why := fmt.Sprint(e)
			if u, ok := e.(Undecided); ok {
				why = u.Why
			} else if os.Getenv("SA_DEBUG") != "" {
				debug.PrintStack()
			}
			if os.Getenv("SA_DEBUG") == "2" {
				debug.PrintStack()
			}
			c.undecided(rule, "analysis", noPos, why)
		}
	}()
	f()
}

func (c *Ctx) undecided(rule, site string, pos token.Pos, why string) {
	f := Fail{rule, site, "-", why}
	if c.R != nil && pos.IsValid() {
		f.Pos = c.R.Pos(pos)
	}
	for _, g := range c.und {
		if g == f {
			return
		}
	}
	c.und = append(c.und, f)
}

func fnName(f *ssa.Function) string { return short(f.String()) }

type known struct {
	prop, key, text string
}

func loadKnown(path string) []known {
	var r []known
	f, err := os.Open(path)
	if err != nil {
		return nil
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		// known: property=<id> key=<rule@site> <text>
		p := strings.SplitN(l[7:], " ", 3)
		if len(p) != 3 {
			continue
		}
		r = append(r, known{
			strings.TrimPrefix(p[0], "property="),
			strings.TrimPrefix(p[1], "key="), p[2],
		})
	}
	return r
}

func runCheck(r *Repo, ck *Check, thorough bool) *Ctx {
	c := &Ctx{
		R: r, ID: ck.ID, Thorough: thorough, perRule: map[string]int{},
		sites: map[string]bool{},
	}
	c.Guard("analysis", func() {
		c.In = NewInterp(r)
		c.In.ScenarioSteps, c.In.Deadline = 1_000_000, time.Now().Add(240*time.Second)
		if thorough {
			c.In.ScenarioSteps, c.In.Deadline = 5_000_000, time.Now().Add(700*time.Second)
		}
		c.In.OnUndecided = func(why string) {
			c.undecided("scenario", "analysis", noPos, why)
		}
		ck.Run(c)
		c.afterwards(func() { ck.Run(c) })
		c.slots.judge(c)
	})
	if c.ob < ck.Floor && len(c.und) == 0 {
		c.fails = append(c.fails, Fail{"floor", "obligations", "-",
			fmt.Sprintf("only %d obligations were found, at least %d are expected", c.ob, ck.Floor)})
	}
	return c
}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: sa list | sa ID|all [quick|thorough]")
		os.Exit(2)
	}
	dir, verif := "/repo", "/verif"
	if d := os.Getenv("SA_REPO"); d != "" {
		dir = d
	}
	if d := os.Getenv("SA_VERIF"); d != "" {
		verif = d
	}
	tier := "quick"
	if t := os.Getenv("VERIF_TIER"); t == "thorough" {
		tier = t
	}
	if len(os.Args) > 2 && (os.Args[2] == "quick" || os.Args[2] == "thorough") {
		tier = os.Args[2]
	}
	var ids []string
	for id := range checks {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	switch os.Args[1] {
	case "list":
		for _, id := range ids {
			fmt.Println(id, checks[id].Title)
		}
		return
	case "all":
	default:
		if strings.HasSuffix(os.Args[1], "*") {
			var sel []string
			for _, id := range ids {
				if strings.HasPrefix(id, strings.TrimSuffix(os.Args[1], "*")) {
					sel = append(sel, id)
				}
			}
			ids = sel
			break
		}
		if checks[os.Args[1]] == nil {
			fmt.Println("unknown property", os.Args[1])
			os.Exit(2)
		}
		ids = []string{os.Args[1]}
	}
	knowns := loadKnown(filepath.Join(verif, "known_findings.txt"))
	start := time.Now()
	r, err := Load(dir)
	exit := 0
	for _, id := range ids {
		ck := checks[id]
		t0 := time.Now()
		if len(ids) == 1 {
			t0 = start
		}
		var c *Ctx
		if err != nil {
			fmt.Println("cannot analyse the tree:", err)
			os.Exit(2)
		} else {
			c = runCheck(r, ck, tier == "thorough")
		}
		if !report(c, ck, tier, verif, knowns, time.Since(t0)) {
			exit = 1
		}
	}
	os.Exit(exit)
}

func report(c *Ctx, ck *Check, tier, verif string, knowns []known, wall time.Duration) bool {
	var fresh []Fail
	var listed []string
	printed := map[string]bool{}
	for _, f := range c.fails {
		k := ""
		for _, kn := range knowns {
			if kn.prop == c.ID && kn.key == f.Key() {
				k = kn.text
			}
		}
		if k == "" {
			fresh = append(fresh, f)
			continue
		}
		if !printed[f.Key()] {
			printed[f.Key()] = true
			listed = append(listed, f.Key())
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.ID, k)
		}
	}
	ev := filepath.Join(verif, "evidence")
	os.MkdirAll(ev, 0o755)
	var sites []string
	for s := range c.sites {
		sites = append(sites, s)
	}
	sort.Strings(sites)
	nsites := len(sites)
	if len(sites) > 200 {
		sites = sites[:200]
	}
	cov := map[string]interface{}{
		"explanation": ck.Rule + " The obligations below were decided on the SSA form of the current working tree.",
		"obligations": c.ob,
		"discharged":  c.ob - len(c.fails),
		"rules":       c.perRule,
		"sites":       nsites,
		"site_list":   sites,
		"samples":     c.samples,
	}
	if c.R != nil {
		cov["functions_in_tree"] = len(c.R.Funcs)
	}
	if c.In != nil {
		var fs []string
		for f := range c.In.Visited {
			if f.Pkg != nil && c.R.SSA[f.Pkg.Pkg.Path()] == f.Pkg || f.Parent() != nil {
				fs = append(fs, fnName(f))
			}
		}
		sort.Strings(fs)
		cov["functions_analysed"] = fs
		cov["abstract_steps"] = c.In.steps
		cov["trace_partitions"] = c.In.Paths
	}
	if len(c.und) > 0 {
		cov["undecided"] = c.und
		for _, u := range c.und {
			w := u.What
			if len(w) > 400 {
				w = w[:400] + "…"
			}
			fmt.Printf("UNDECIDED property=%s rule=%s %s %s: %s\n", c.ID, u.Rule, u.Site, u.Pos, w)
		}
		if os.Getenv("SA_STRICT") != "" {
			fresh = append(fresh, c.und...)
		}
	}
	if len(listed) > 0 {
		cov["known_findings"] = listed
	}
	if len(c.notes) > 0 {
		cov["notes"] = c.notes
	}
	if os.Getenv("SA_STATS") != "" && c.In != nil {
		fmt.Println(c.ID, "steps", c.In.steps, "most", c.In.MostSteps, "outs", c.In.MostOuts, "wall", wall)
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	e := map[string]interface{}{
		"property": c.ID, "tier": tier, "seed": seed, "level": "other",
		"coverage": cov, "wall_s": wall.Seconds(), "violations": len(fresh),
		"assumptions": assumptions,
	}
	b, _ := json.MarshalIndent(e, "", " ")
	if err := os.WriteFile(filepath.Join(ev, c.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("evidence:", err)
	}
	vio := filepath.Join(ev, c.ID+".violations.json")
	os.Remove(vio)
	if len(fresh) == 0 {
		fmt.Printf("OK property=%s obligations=%d sites=%d known=%d %.1fs\n", c.ID, c.ob, nsites, len(listed), wall.Seconds())
		return true
	}
	b, _ = json.MarshalIndent(fresh, "", " ")
	os.WriteFile(vio, append(b, '\n'), 0o644)
	for i, f := range fresh {
		if i == 12 {
			fmt.Printf("  ... and %d more\n", len(fresh)-i)
			break
		}
		w := f.What
		if len(w) > 1200 {
			w = w[:1200] + "…"
		}
		fmt.Printf("%s: %s [%s] %s\n", f.Pos, f.Site, f.Rule, w)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, vio)
	return false
}

var assumptions = []string{
	"calls that leave the code base behave as modelled: standard library, gRPC status, lnd lnwire primitives and key/hash/signature operations are modelled by contract, everything else may return any value or fail",
	"collection lengths and loop unrolling are bounded as stated in DESIGN.md; codecs and handlers are uniform in them",
	"no unsafe, reflection or cgo in the code base",
}
