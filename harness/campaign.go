package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"time"
)

// batch is the scenarios of a profile with their outcomes.
type batch struct {
	ID        string
	Scenarios []*Scenario
	Outcomes  map[string]*Outcome
}

// cache computes the scenarios and outcomes of every profile once, to try many versions of yot on them.
func cache(dir string, seed int64) error {
	os.MkdirAll(dir, 0755)
	save := func(b batch, i int) error {
		j, err := json.Marshal(b)
		if err != nil {
			return err
		}
		return os.WriteFile(filepath.Join(dir, fmt.Sprintf("%s-%d.json", b.ID, i)), j, 0644)
	}
	seen := map[string]bool{}
	for id, pl := range plans {
		for i, m := range pl.models {
			if m.ordered || m.silent || seen[m.module] {
				continue
			}
			seen[m.module] = true
			sr, err := m.runs(m.quick, seed%int64(m.quick))
			if err != nil {
				return err
			}
			if err := save(batch{id, sr.scs, sr.exp}, 10+i); err != nil {
				return err
			}
		}
		for i, p := range pl.profiles {
			c := &check{id: id, seed: seed, plan: pl}
			g := &Gen{r: c.rng(int64(i)), p: p}
			b := batch{ID: id}
			for k := 0; k < min(pl.n, limit()); k++ {
				b.Scenarios = append(b.Scenarios, g.scenario(fmt.Sprintf("%s-%d-%d", id, i, k)))
			}
			exp, _, err := outcomes(b.Scenarios, 10*time.Minute)
			if err != nil {
				return err
			}
			b.Outcomes = exp
			if err := save(b, i); err != nil {
				return err
			}
		}
	}
	return nil
}

// tryAll runs a yot on the cached scenarios and prints how many runs of which check differ.
func tryAll(dir string, bins []string) error {
	fs, _ := filepath.Glob(filepath.Join(dir, "*.json"))
	sort.Strings(fs)
	for _, bin := range bins {
		fmt.Printf("%s:", filepath.Base(bin))
		for _, f := range fs {
			j, err := os.ReadFile(f)
			if err != nil {
				return err
			}
			var b batch
			if err := json.Unmarshal(j, &b); err != nil {
				return err
			}
			c := &check{id: b.ID, bin: bin, hits: map[string]int{}, parts: map[string]any{}}
			var n int
			parallel(len(b.Scenarios), func(i int) {
				s := b.Scenarios[i]
				c.mu.Lock()
				done := n >= 3
				c.mu.Unlock()
				if done {
					return
				}
				root := rootOf(s)
				defer os.RemoveAll(root)
				o, err := c.execute(s)
				if err != nil || compare(s, root, b.Outcomes[s.ID], o) != "" {
					c.mu.Lock()
					n++
					c.mu.Unlock()
				}
			})
			if n > 0 {
				fmt.Printf(" %s", b.ID)
				if os.Getenv("ALL") == "" {
					break
				}
			}
		}
		fmt.Println()
	}
	return nil
}

// limit is the number of scenarios of a profile that are cached.
func limit() int {
	n := 200
	if v := os.Getenv("N"); v != "" {
		fmt.Sscan(v, &n)
	}
	return n
}
