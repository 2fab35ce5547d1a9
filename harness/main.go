package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"time"
)

var repoDir = orElse(os.Getenv("YOT_REPO"), "/repo")
var verifDir = orElse(os.Getenv("YOT_VERIF"), "/verif")

func main() {
	if len(os.Args) < 2 {
		os.Exit(2)
	}
	if err := makeWorkDir(); err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	code := 0
	switch os.Args[1] {
	case "try":
		code = try()
	case "check":
		seed := int64(1)
		if v := os.Getenv("VERIF_SEED"); v != "" {
			fmt.Sscan(v, &seed)
		}
		tier := "quick"
		if os.Getenv("VERIF_TIER") == "thorough" || len(os.Args) > 3 && os.Args[3] == "thorough" {
			tier = "thorough"
		}
		code = runCheck(os.Args[2], tier, seed)
	case "cache": // cache DIR SEED
		seed := int64(1)
		fmt.Sscan(os.Args[3], &seed)
		if err := cache(os.Args[2], seed); err != nil {
			fmt.Println(err)
			code = 2
		}
	case "against": // against DIR BINARY...
		if err := tryAll(os.Args[2], os.Args[3:]); err != nil {
			fmt.Println(err)
			code = 2
		}
	case "model": // model MODULE PARTS PART [ordered]
		m := model{module: os.Args[2], ordered: len(os.Args) > 5}
		seed := int64(0)
		fmt.Sscan(os.Args[3], &m.quick)
		fmt.Sscan(os.Args[4], &seed)
		plans["model"] = plan{models: []model{m}, hooks: true}
		code = runCheck("model", "quick", seed)
	case "spec": // spec FILE: what the specification says about the scenario of a replay file
		code = specSays(os.Args[2])
	case "replay":
		code = replay(os.Args[2])
	default:
		code = 2
	}
	os.RemoveAll(workDir)
	os.Exit(code)
}

func try() int {
	n := 300
	seed := int64(1)
	fmt.Sscan(os.Args[2], &n)
	fmt.Sscan(os.Args[3], &seed)
	bin, err := build("yot")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	prof := base()
	if len(os.Args) > 4 {
		prof = plans[os.Args[4]].profiles[0]
	}
	g := &Gen{r: rand.New(rand.NewSource(seed)), p: prof}
	var scs []*Scenario
	for i := 0; i < n; i++ {
		scs = append(scs, g.scenario(fmt.Sprintf("r%d", i)))
	}
	exp, st, err := outcomes(scs, 5*time.Minute)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	fmt.Printf("TLC %.1fs %d states\n", st.Wall, st.States)
	diffs := make([]string, n)
	t0 := time.Now()
	parallel(n, func(i int) {
		s := scs[i]
		root := rootOf(s)
		o, err := s.execYot(bin, root, 20*time.Second)
		if err != nil {
			diffs[i] = "cannot run: " + err.Error()
			return
		}
		diffs[i] = compare(s, root, exp[s.ID], o)
		if diffs[i] == "" {
			os.RemoveAll(root)
		} else {
			diffs[i] += "\n   stdout: " + clip(o.Stdout) + "\n   stderr: " + clip(o.Stderr)
		}
	})
	fmt.Printf("runs %.1fs\n", time.Since(t0).Seconds())
	bad := 0
	hitsN := map[string]int{}
	exits := map[int]int{}
	rej := 0
	for i, d := range diffs {
		e := exp[scs[i].ID]
		exits[e.Exit]++
		if e.Rejected {
			rej++
		}
		for _, f := range e.Files {
			for _, h := range f.Hits {
				hitsN[h]++
			}
		}
		if d != "" {
			bad++
			if bad <= 6 {
				fmt.Printf("== %s: %s\n   args %v cwd %s\n", scs[i].ID, d, scs[i].Argv("R"), scs[i].Cwd)
				for _, f := range scs[i].Files {
					fmt.Printf("--- %s\n%s\n", f.Path, f.Text)
				}
				if scs[i].Stdin != "" {
					fmt.Printf("--- stdin\n%s\n", scs[i].Stdin)
				}
			}
		}
	}
	fmt.Println("mismatches", bad, "exits", exits, "rejected", rej, "hits", hitsN)
	return 0
}

func orElse(s, d string) string {
	if s == "" {
		return d
	}
	return s
}

func specSays(file string) int {
	var rp failure
	b, err := os.ReadFile(file)
	if err == nil {
		err = json.Unmarshal(b, &rp)
	}
	if err != nil {
		fmt.Println(err)
		return 2
	}
	res, _, err := outcomes([]*Scenario{rp.Scenario}, 5*time.Minute)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	for _, e := range res {
		rp.Expected = e
	}
	b, _ = json.Marshal(rp)
	fmt.Println(string(b))
	return 0
}
