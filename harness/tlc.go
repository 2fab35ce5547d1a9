package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"time"
)

// OutFile is a file that a run may write, OutDoc its documents.
type OutFile struct {
	In     string  `json:"in"`
	Target string  `json:"target"`
	Docs   []*Node `json:"docs"`
}

type FileInfo struct {
	In   string   `json:"in"`
	St   string   `json:"st"`
	Why  string   `json:"why"`
	Hits []string `json:"hits"`
}

// Outcome is what the specification says about a scenario.
type Outcome struct {
	ID        string     `json:"id"`
	Exit      int        `json:"exit"`
	Rejected  bool       `json:"rejected"`
	Stdout    bool       `json:"stdout"`
	Indent    string     `json:"indent"`
	Style     int        `json:"style"`
	StyleText string     `json:"styleText"`
	Out       []OutFile  `json:"out"`
	Files     []FileInfo `json:"files"`
	Settings  []KV       `json:"settings"`
	Level     int        `json:"level"`
}

type TLCStats struct {
	States, Distinct int
	Wall             float64
	Lines            []string // what PrintT printed after @@
	Output           string
	Code             int
}

var statesRe = regexp.MustCompile(`([0-9]+) states generated, ([0-9]+) distinct states found`)

const tlaJars = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

// runTLC checks a module; env gives it its input files.
func runTLC(module, cfg string, workers int, env []string, timeout time.Duration, args ...string) (*TLCStats, error) {
	meta, err := os.MkdirTemp(workDir, "tlc")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(meta)
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	a := []string{"-XX:+UseSerialGC", "-Xmx4g", "-Xss64m", "-Dtlc2.tool.queue.IStateQueue=MemStateQueue", "-cp", tlaJars, "tlc2.TLC", "-nowarning", "-noGenerateSpecTE", "-workers", strconv.Itoa(workers), "-metadir", meta, "-config", cfg}
	a = append(a, args...)
	a = append(a, module)
	cmd := exec.CommandContext(ctx, "java", a...)
	cmd.Dir = filepath.Join(verifDir, "spec")
	cmd.Env = append(os.Environ(), "JAVA_TOOL_OPTIONS=-Dfile.encoding=UTF-8 -Dsun.stdout.encoding=UTF-8 -Dstdout.encoding=UTF-8")
	cmd.Env = append(cmd.Env, env...)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	start := time.Now()
	err = cmd.Run()
	st := &TLCStats{Wall: time.Since(start).Seconds()}
	if ctx.Err() != nil {
		return st, fmt.Errorf("TLC did not finish %s within %v", module, timeout)
	}
	var rest strings.Builder
	sc := bufio.NewScanner(&out)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		l := sc.Text()
		if strings.HasPrefix(l, `"@@`) {
			var s string
			if e := json.Unmarshal([]byte(l), &s); e != nil {
				return st, fmt.Errorf("cannot read TLC output %.200s: %v", l, e)
			}
			st.Lines = append(st.Lines, s[2:])
			continue
		}
		if m := statesRe.FindStringSubmatch(l); m != nil {
			st.States, _ = strconv.Atoi(m[1])
			st.Distinct, _ = strconv.Atoi(m[2])
		}
		rest.WriteString(l + "\n")
	}
	st.Output = rest.String()
	if ee, ok := err.(*exec.ExitError); ok {
		st.Code = ee.ExitCode()
	} else if err != nil {
		return st, err
	}
	return st, nil
}

// specRoot is the sandbox directory in what the specification gets.
const specRoot = "/R"

func realPath(root, p string) string {
	if p == specRoot || strings.HasPrefix(p, specRoot+"/") {
		return root + p[len(specRoot):]
	}
	return p
}

// in gives the outcome for a sandbox.
func (e *Outcome) in(root string) *Outcome {
	c := *e
	c.Out = nil
	var tree func(n *Node) *Node
	tree = func(n *Node) *Node {
		t := *n
		t.V = realPath(root, n.V)
		t.C = nil
		for _, x := range n.C {
			t.C = append(t.C, tree(x))
		}
		return &t
	}
	for _, f := range e.Out {
		x := OutFile{realPath(root, f.In), realPath(root, f.Target), nil}
		for _, d := range f.Docs {
			x.Docs = append(x.Docs, tree(d))
		}
		c.Out = append(c.Out, x)
	}
	return &c
}

// outcomes runs scenarios through the specification, in several TLC processes.
func outcomes(scs []*Scenario, timeout time.Duration) (map[string]*Outcome, *TLCStats, error) {
	n := len(scs)/60 + 1
	if n > 4 {
		n = 4
	}
	files := make([]*os.File, n)
	bufs := make([]*bufio.Writer, n)
	for i := range files {
		f, err := os.CreateTemp(workDir, "scenarios*.ndjson")
		if err != nil {
			return nil, nil, err
		}
		defer os.Remove(f.Name())
		files[i], bufs[i] = f, bufio.NewWriter(f)
	}
	for i, s := range scs {
		bufs[i%n].WriteString(s.SpecJSON(specRoot) + "\n")
	}
	sts := make([]*TLCStats, n)
	errs := make([]error, n)
	var wg sync.WaitGroup
	for i := range files {
		bufs[i].Flush()
		files[i].Close()
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			sts[i], errs[i] = runTLC("Conf.tla", "Conf.cfg", workers/n, []string{"SCENARIOS=" + files[i].Name()}, timeout)
			if errs[i] == nil && sts[i].Code != 0 {
				errs[i] = fmt.Errorf("TLC failed on the scenarios: %s", complaint(sts[i].Output))
			}
		}(i)
	}
	wg.Wait()
	if k := os.Getenv("KEEP"); k != "" {
		var all []byte
		for _, f := range files {
			b, _ := os.ReadFile(f.Name())
			all = append(all, b...)
		}
		os.WriteFile(k, all, 0644)
	}
	total := &TLCStats{}
	res := map[string]*Outcome{}
	for i, st := range sts {
		if errs[i] != nil {
			return nil, st, errs[i]
		}
		total.States += st.States
		total.Distinct += st.Distinct
		if st.Wall > total.Wall {
			total.Wall = st.Wall
		}
		for _, l := range st.Lines {
			o := new(Outcome)
			if err := json.Unmarshal([]byte(l), o); err != nil {
				return nil, st, fmt.Errorf("cannot read outcome %.200s: %v", l, err)
			}
			res[o.ID] = o
		}
	}
	if len(res) != len(scs) {
		return nil, total, fmt.Errorf("the specification gave %d outcomes for %d scenarios", len(res), len(scs))
	}
	return res, total, nil
}

// complaint is the part of TLC's output that tells what is wrong.
func complaint(s string) string {
	if i := strings.Index(s, "Error:"); i >= 0 {
		s = s[i:]
	}
	const within = "but it produced the following error:"
	if i := strings.LastIndex(s, within); i >= 0 {
		s = "Error:" + s[i+len(within):]
	}
	if len(s) > 3000 {
		s = s[:3000] + "..."
	}
	return s
}

func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}
