package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

// a failure is a run that differs from the specification.
type failure struct {
	Property string    `json:"property"`
	Scenario *Scenario `json:"scenario"`
	Expected *Outcome  `json:"expected"`
	Diff     string    `json:"diff"`
	Race     bool      `json:"race"`
	Order    []string  `json:"order,omitempty"` // schedule for the hooks
}

type check struct {
	id       string
	tier     string
	seed     int64
	plan     plan
	bin      string // yot as users build it
	race     string // with the race detector and the hooks
	hooks    string // with the hooks
	deadline time.Time

	mu        sync.Mutex
	fails     []failure
	flaky     []string
	undecided int // runs that ended with a known limit of the JSONPath library
	states    int
	distinct  int
	replayed  int
	rejected  int
	failing   int
	hits      map[string]int
	exact     map[string]bool
	samples   []any
	parts     map[string]any
	knownSeen []string
}

func (c *check) thorough() bool { return c.tier == "thorough" }

func (c *check) left() time.Duration { return time.Until(c.deadline) }

func (c *check) rng(salt int64) *rand.Rand {
	h := int64(0)
	for _, ch := range c.id {
		h = h*31 + int64(ch)
	}
	return rand.New(rand.NewSource(c.seed*1000003 + h*7919 + salt))
}

func rootOf(s *Scenario) string { return filepath.Join(workDir, "s", s.ID) }

const runTimeout = 30 * time.Second

// execute runs a scenario in a fresh sandbox.
func (c *check) execute(s *Scenario, env ...string) (*Observed, error) {
	root := rootOf(s)
	os.RemoveAll(root)
	bin := c.bin
	if c.plan.race {
		bin = c.race
	} else if len(env) > 0 && c.hooks != "" {
		bin = c.hooks
	}
	return s.execYot(bin, root, runTimeout, env...)
}

// conform runs the scenarios through the specification and through yot and compares.
func (c *check) conform(scs []*Scenario) (map[string]*Outcome, map[string]*Observed, error) {
	exp, st, err := outcomes(scs, 10*time.Minute)
	if err != nil {
		return nil, nil, err
	}
	obs, err := c.against(scs, exp)
	c.mu.Lock()
	c.states += st.States
	c.distinct += st.Distinct
	c.mu.Unlock()
	return exp, obs, err
}

// against runs yot on scenarios with known outcomes.
func (c *check) against(scs []*Scenario, exp map[string]*Outcome) (map[string]*Observed, error) {
	obs := map[string]*Observed{}
	var first error
	parallel(len(scs), func(i int) {
		s := scs[i]
		e := exp[s.ID]
		if c.enough() {
			return
		}
		if e == nil {
			c.mu.Lock()
			first = fmt.Errorf("no outcome for %s", s.ID)
			c.mu.Unlock()
			return
		}
		d, o, err := c.one(s, e)
		c.mu.Lock()
		defer c.mu.Unlock()
		if err != nil {
			first = err
			return
		}
		obs[s.ID] = o
		c.count(s, e)
		if d != "" {
			c.fails = append(c.fails, failure{Property: c.id, Scenario: s, Expected: e, Diff: d, Race: c.plan.race})
		}
	})
	return obs, first
}

// enough is when further runs would only find more of the same.
func (c *check) enough() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	slow := 0
	for _, f := range c.fails {
		if f.Diff == didNotEnd {
			slow++
		}
	}
	return len(c.fails) >= 60 || slow >= 2
}

func (c *check) count(s *Scenario, e *Outcome) {
	c.replayed++
	if e.Rejected {
		c.rejected++
	}
	if e.Exit != 0 {
		c.failing++
	}
	for _, f := range e.Files {
		for _, h := range f.Hits {
			c.hits[h]++
		}
	}
	if len(c.samples) < 3 {
		c.samples = append(c.samples, sample(s, e))
	}
}

func sample(s *Scenario, e *Outcome) any {
	fs := map[string]string{}
	for _, f := range s.Files {
		fs[f.Path] = f.Text
	}
	m := map[string]any{"arguments": s.Argv("."), "files": fs, "expected exit status": e.Exit}
	for _, f := range e.Out {
		t, _ := emitted(f.Docs, 2)
		m["expected "+f.Target] = t
	}
	return m
}

// one compares one run and confirms a difference by further runs.
func (c *check) one(s *Scenario, e *Outcome, env ...string) (string, *Observed, error) {
	root := rootOf(s)
	defer os.RemoveAll(root)
	o, err := c.execute(s, env...)
	if err != nil {
		return "", nil, err
	}
	d := compare(s, root, e, o)
	if d == "" {
		return "", o, nil
	}
	if strings.Contains(o.Stderr, "invalid type of value passed to compareNodeValues") && s.comparesPaths() {
		// known finding K6: what the paths of a filter find may be maps or lists in a run
		c.mu.Lock()
		c.undecided++
		c.mu.Unlock()
		return "", o, nil
	}
	first, o1 := d, o
	for i := 0; i < 25; i++ {
		if o.Timeout && i == 2 {
			break
		}
		o2, err := c.execute(s, append(append([]string{}, env...), fmt.Sprintf("GOMAXPROCS=%d", []int{0, 1, 2, 8, 32}[i%5]))...)
		if err != nil {
			return "", nil, err
		}
		if d2 := compare(s, root, e, o2); d2 != "" {
			return d2, o2, nil
		}
	}
	if o1.Timeout || o1.Exit == -1 || strings.Contains(o1.Stderr, "no space left") || strings.Contains(o1.Stderr, "too many open files") ||
		strings.Contains(o1.Stderr, "cannot allocate memory") || strings.Contains(o1.Stderr, "resource temporarily unavailable") {
		// the sandbox, not yot
		c.mu.Lock()
		c.flaky = append(c.flaky, s.ID+": "+first)
		c.mu.Unlock()
		return "", o, nil
	}
	return first + "\n(once in 26 runs)", o1, nil
}

// random runs a batch of random scenarios of a profile.
func (c *check) random(p Profile, n int, salt int64, prefix string) error {
	g := &Gen{r: c.rng(salt), p: p}
	var scs []*Scenario
	var equiv [][2]string
	for i := 0; i < n; i++ {
		s := g.scenario(fmt.Sprintf("%s%d", prefix, i))
		scs = append(scs, s)
		if g.pct(p.Equivalent) {
			if q := s.equivalent(); q != nil {
				scs = append(scs, q)
				equiv = append(equiv, [2]string{s.ID, q.ID})
			}
		}
	}
	exp, obs, err := c.conform(scs)
	if err != nil {
		return err
	}
	for _, e := range equiv {
		if !sameOutcome(exp[e[0]], exp[e[1]]) {
			for _, s := range scs {
				if s.ID == e[0] {
					b, _ := json.MarshalIndent(sample(s, exp[e[0]]), "", " ")
					x, _ := json.Marshal(exp[e[0]])
					y, _ := json.Marshal(exp[e[1]])
					return fmt.Errorf("the specification tells %s and %s apart: %s\n%s\n%s", e[0], e[1], b, x, y)
				}
			}
		}
	}
	c.addPart("equivalent instructions files compared", len(equiv))
	if p.Rerun {
		return c.rerun(scs, exp, obs)
	}
	return nil
}

func (c *check) addPart(name string, n int) {
	if n == 0 {
		return
	}
	old, _ := c.parts[name].(int)
	c.parts[name] = old + n
}

func byTarget(fs []OutFile) []OutFile {
	fs = append([]OutFile{}, fs...)
	for i := range fs {
		fs[i].In = ""
	}
	sort.SliceStable(fs, func(i, j int) bool { return fs[i].Target < fs[j].Target })
	return fs
}

func sameOutcome(a, b *Outcome) bool {
	x, y := *a, *b
	x.ID, y.ID = "", ""
	x.Files, y.Files = nil, nil
	x.Out, y.Out = byTarget(x.Out), byTarget(y.Out)
	if x.Exit != 0 {
		// what may be written before a failure need not be the same
		return y.Exit != 0 && x.Rejected == y.Rejected
	}
	s, _ := json.Marshal(x)
	t, _ := json.Marshal(y)
	return string(s) == string(t)
}

func runCheck(id, tier string, seed int64) int {
	pl, ok := plans[id]
	if !ok {
		fmt.Println("no such property:", id)
		return 2
	}
	start := time.Now()
	c := &check{id: id, tier: tier, seed: seed, plan: pl, hits: map[string]int{}, parts: map[string]any{}, exact: map[string]bool{}}
	c.deadline = start.Add(12 * time.Minute)
	var err error
	if c.bin, err = build("yot"); err == nil && pl.race {
		c.race, err = build("yotrace", "-race", "-tags", "verif")
	}
	if err == nil && pl.hooks {
		c.hooks, err = build("yothooks", "-tags", "verif")
	}
	if err == nil {
		err = c.known()
	}
	if err == nil {
		err = c.run()
	}
	if err != nil {
		fmt.Println("error:", err)
		if len(c.fails) == 0 {
			return 2
		}
	}
	c.addPart("runs the sandbox could not finish at first", len(c.flaky))
	c.addPart("runs with a filter that compares maps (K6), not decided", c.undecided)
	return c.report(start)
}

func (c *check) run() error {
	for _, f := range c.plan.special {
		if err := f(c); err != nil {
			return err
		}
	}
	for _, m := range c.plan.models {
		if err := c.model(m); err != nil {
			return err
		}
	}
	for i, p := range c.plan.profiles {
		if err := c.random(p, c.plan.n, int64(i), fmt.Sprintf("p%d-", i)); err != nil {
			return err
		}
	}
	// thorough: more of the same until the time is over
	for round := 1; c.thorough() && len(c.fails) == 0 && c.left() > 2*time.Minute && len(c.plan.profiles) > 0; round++ {
		for i, p := range c.plan.profiles {
			if c.left() < 2*time.Minute {
				break
			}
			p.MaxFiles += round % 2
			p.Depth += round % 3 / 2
			p.MaxOvs += round % 2
			if err := c.random(p, 1500, int64(100*round+i), fmt.Sprintf("t%d-%d-", round, i)); err != nil {
				return err
			}
		}
		c.parts["thorough rounds"] = round
	}
	return nil
}

// report writes the evidence and the verdict.
func (c *check) report(start time.Time) int {
	cov := map[string]any{
		"states": c.distinct, "transitions": c.states, "traces_validated_against_impl": c.replayed,
		"runs expected to be rejected": c.rejected, "runs expected to fail": c.failing,
		"overlay applications by what they did": c.hits, "samples": c.samples,
	}
	for k, v := range c.parts {
		cov[k] = v
	}
	ev := map[string]any{
		"property": c.id, "tier": c.tier, "seed": c.seed, "level": "model_checking", "coverage": cov,
		"assumptions": []string{
			"the specification in /verif/spec says what the property says, within the generated inputs",
			"gopkg.in/yaml.v3 reads and writes YAML correctly",
		},
		"wall_s": time.Since(start).Seconds(), "violations": len(c.fails),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0755)
	if err := os.WriteFile(filepath.Join(verifDir, "evidence", c.id+".json"), append(b, '\n'), 0644); err != nil {
		fmt.Println("error:", err)
		return 2
	}
	fmt.Printf("%s: %d runs against the specification, %d states, %.0fs\n", c.id, c.replayed, c.distinct, time.Since(start).Seconds())
	if len(c.fails) == 0 {
		return 0
	}
	sort.SliceStable(c.fails, func(i, j int) bool { return weight(c.fails[i]) < weight(c.fails[j]) })
	dir := filepath.Join(verifDir, "replay")
	os.MkdirAll(dir, 0755)
	for i, f := range c.fails {
		if i == maxShown {
			fmt.Printf("and %d more\n", len(c.fails)-maxShown)
			break
		}
		p := filepath.Join(dir, fmt.Sprintf("%s-%d-%d.json", c.id, c.seed, i))
		b, _ := json.MarshalIndent(f, "", " ")
		os.WriteFile(p, b, 0644)
		fmt.Printf("VIOLATION property=%s replay=%s\n  %s\n", c.id, p, strings.ReplaceAll(f.Diff, "\n", "\n  "))
	}
	return 1
}

func weight(f failure) int {
	n := 0
	if f.Scenario == nil {
		return 1 << 30
	}
	for _, x := range f.Scenario.Files {
		n += len(x.Text)
	}
	return n
}

// replay runs the scenario of a replay file again.
func replay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var f failure
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Println(err)
		return 2
	}
	c := &check{id: f.Property, plan: plans[f.Property], hits: map[string]int{}, parts: map[string]any{}}
	if c.bin, err = build("yot"); err == nil && f.Race {
		c.race, err = build("yotrace", "-race", "-tags", "verif")
	}
	if err != nil {
		fmt.Println(err)
		return 2
	}
	s := f.Scenario
	for _, x := range s.Files {
		fmt.Printf("--- %s\n%s\n", x.Path, x.Text)
	}
	if s.Stdin != "" {
		fmt.Printf("--- standard input\n%s\n", s.Stdin)
	}
	fmt.Printf("cd %s; env %v yot %v\n", s.Cwd, s.Environ("."), s.Argv("."))
	for _, x := range f.Expected.Out {
		t, _ := emitted(x.Docs, 2)
		fmt.Printf("--- expected %s\n%s\n", x.Target, t)
	}
	d, o, err := c.one(s, f.Expected)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	fmt.Printf("--- exit status %d\n--- standard output\n%s--- standard error\n%s", o.Exit, o.Stdout, tail(o.Stderr, 2000))
	root := rootOf(s)
	for _, p := range changes(o) {
		fmt.Printf("--- %s\n%s", strings.TrimPrefix(p, root+"/"), o.After[p])
	}
	if d == "" {
		fmt.Println("as expected")
		return 0
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n  %s\n", f.Property, file, d)
	return 1
}

// maxShown is how many violations get a replay file.
var maxShown = 3

func init() {
	if v := os.Getenv("SHOW"); v != "" {
		fmt.Sscan(v, &maxShown)
	}
}
