package main

import (
	"fmt"
	"path"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"gopkg.in/yaml.v3"
)

const didNotEnd = "yot did not end"

var levelRe = regexp.MustCompile(`(?m)^.{0,30}\[(CRITICAL|ERROR|WARNING|NOTICE|INFO|DEBUG)\]`)

// levels: no message above the level in force is shown, and with debug there are some when overlays apply.
func levels(e *Outcome, text string) string {
	names := map[string]int{"CRITICAL": 0, "ERROR": 1, "WARNING": 2, "NOTICE": 3, "INFO": 4, "DEBUG": 5}
	debug := false
	for _, m := range levelRe.FindAllStringSubmatch(text, -1) {
		if names[m[1]] > e.Level {
			return fmt.Sprintf("message of a level that is not shown: %s (level in force: %d)", clip(m[0]), e.Level)
		}
		debug = debug || m[1] == "DEBUG"
	}
	if e.Level == 5 && !debug {
		for _, f := range e.Files {
			if len(f.Hits) > 0 {
				return "no messages although the level is debug"
			}
		}
	}
	return ""
}

// compare tells how a run differs from what the specification says; "" if it does not.
func compare(s *Scenario, root string, e *Outcome, o *Observed) string {
	e = e.in(root)
	if o.Timeout {
		return didNotEnd
	}
	if strings.Contains(o.Stderr, "goroutine ") && strings.Contains(o.Stderr, "panic") || strings.Contains(o.Stderr, "fatal error:") || o.Exit == 2 {
		return "yot crashed: " + clip(o.Stderr)
	}
	if strings.Contains(o.Stderr, "WARNING: DATA RACE") {
		return "data race: " + tail(o.Stderr, 1500)
	}
	if o.Exit != e.Exit {
		return fmt.Sprintf("exit status %d, expected %d (rejected: %v; %s); stderr %s", o.Exit, e.Exit, e.Rejected, whys(e), clip(o.Stderr))
	}
	if o.Exit != 0 && strings.TrimSpace(o.Stderr) == "" {
		return "failed without a message"
	}
	if s.Levels && e.Level >= 0 {
		if d := levels(e, o.Stderr); d != "" {
			return d
		}
	}
	changed := changes(o)
	if s.EnvCmd {
		if len(changed) > 0 {
			return "files written by yot env: " + strings.Join(changed, " ")
		}
		if o.Exit != 0 {
			return ""
		}
		return s.compareEnv(root, e, o.Stdout)
	}
	if e.Rejected {
		if o.Stdout != "" && !strings.HasPrefix(o.Stdout, "Usage:") {
			return "output of a rejected run: " + clip(o.Stdout)
		}
		if len(changed) > 0 {
			return "files written by a rejected run: " + strings.Join(changed, " ")
		}
		return ""
	}
	indent, _ := strconv.Atoi(e.Indent)
	if s.Full && !e.Stdout {
		o.Stdout = namesOf(e)
	}
	if e.Stdout {
		if len(changed) > 0 {
			return "files written with -s: " + strings.Join(changed, " ")
		}
		return s.compareStdout(e, o.Stdout, indent)
	}
	// files
	byTarget := map[string][]OutFile{}
	for _, f := range e.Out {
		p := abs(abs(root, s.Cwd), f.Target)
		byTarget[p] = append(byTarget[p], f)
	}
	// the paths of the written files, once each
	expected := map[string]int{}
	for _, f := range e.Out {
		expected[f.Target]++
	}
	lines := strings.Split(o.Stdout, "\n")
	if lines[len(lines)-1] != "" {
		return "standard output does not end with a line: " + clip(o.Stdout)
	}
	listed := map[string]bool{}
	for _, l := range lines[:len(lines)-1] {
		if expected[l] == 0 {
			return fmt.Sprintf("unexpected line on standard output: %q; expected %v", l, keysOf(expected))
		}
		expected[l]--
		listed[abs(abs(root, s.Cwd), l)] = true
	}
	if e.Exit == 0 {
		for t, n := range expected {
			if n > 0 {
				return fmt.Sprintf("%q is not on standard output: %s", t, clip(o.Stdout))
			}
		}
	}
	for _, p := range changed {
		if byTarget[p] == nil {
			return "unexpected file written or changed: " + p
		}
	}
	for p, fs := range byTarget {
		text, there := o.After[p]
		if !there {
			if e.Exit == 0 {
				return "missing output file " + p
			}
			continue
		}
		if text == o.Before[p] && e.Exit != 0 && (s.Full || !listed[p]) {
			continue // not written
		}
		first := ""
		for _, f := range fs {
			d := s.compareText(f.Docs, text, e, indent)
			if d == "" {
				first = ""
				break
			}
			if first == "" {
				first = fmt.Sprintf("%s: %s", p, d)
			}
		}
		if first != "" {
			return first
		}
	}
	return ""
}

func keysOf(m map[string]int) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func whys(e *Outcome) string {
	var w []string
	for _, f := range e.Files {
		w = append(w, path.Base(f.In)+" "+f.St+" "+f.Why)
	}
	return strings.Join(w, ", ")
}

func changes(o *Observed) []string {
	var c []string
	for p, t := range o.After {
		if b, ok := o.Before[p]; !ok || b != t {
			c = append(c, p)
		}
	}
	for p := range o.Before {
		if _, ok := o.After[p]; !ok {
			c = append(c, p)
		}
	}
	sort.Strings(c)
	return c
}

// compareText checks the text of one file's output.
func (s *Scenario) compareText(docs []*Node, text string, e *Outcome, indent int) string {
	if !strings.HasPrefix(text, "---\n") {
		return "no document separator at the beginning: " + clip(strconv.Quote(text))
	}
	want, err := emitted(docs, indent)
	if err == nil && want == text {
		if s.Text {
			// presentation does not change the data
			got, err := parseDocs(text)
			if err != nil {
				return fmt.Sprintf("not YAML (%v): %q", err, clip(text))
			}
			return sameDocs(docs, got)
		}
		return ""
	}
	if s.Text || e.Style&^64 != 0 {
		return fmt.Sprintf("expected %q, got %q", want, text)
	}
	got, perr := parseDocs(text)
	if perr != nil {
		return fmt.Sprintf("not YAML (%v): %q", perr, clip(text))
	}
	return sameDocs(docs, got)
}

func sameDocs(docs []*Node, got []*yaml.Node) string {
	if len(docs) != len(got) {
		return fmt.Sprintf("expected %d documents, got %d", len(docs), len(got))
	}
	for i := range docs {
		if d := sameData(docs[i], resolved(got[i]), fmt.Sprintf("document %d", i)); d != "" {
			return d
		}
		if d := sameAliases(docs[i], got[i], map[string]*yaml.Node{}, fmt.Sprintf("document %d", i)); d != "" {
			return d
		}
	}
	return ""
}

// compareStdout: the files' blocks, in any order.
func (s *Scenario) compareStdout(e *Outcome, text string, indent int) string {
	if text == "" {
		if e.Exit == 0 && len(e.Out) > 0 {
			return "nothing on standard output"
		}
		return ""
	}
	if !strings.HasPrefix(text, "---\n") {
		return "no document separator at the beginning: " + clip(strconv.Quote(text))
	}
	// as texts
	wants := make([]string, len(e.Out))
	ok := true
	for i, f := range e.Out {
		w, err := emitted(f.Docs, indent)
		if err != nil {
			ok = false
		}
		wants[i] = w
	}
	if ok && fits(wants, make([]bool, len(wants)), text, e.Exit != 0) {
		if s.Text {
			if _, err := parseDocs(text); err != nil {
				return fmt.Sprintf("not YAML (%v): %q", err, clip(text))
			}
		}
		return ""
	}
	if s.Text || e.Style&^64 != 0 {
		return fmt.Sprintf("expected the blocks %q, got %q", wants, text)
	}
	got, err := parseDocs(text)
	if err != nil {
		return fmt.Sprintf("not YAML (%v): %q", err, clip(text))
	}
	why := ""
	if fitDocs(e.Out, make([]bool, len(e.Out)), got, e.Exit != 0, &why, map[string]bool{}) {
		return ""
	}
	return why
}

// fits determines whether a text consists of the wanted ones in any order, or if it may be cut short, of some of them.
func fits(wants []string, used []bool, text string, partly bool) bool {
	dead := map[string]bool{} // what has been tried, equal texts are interchangeable
	var rec func(text string) bool
	rec = func(text string) bool {
		if text == "" {
			if partly {
				return true
			}
			for _, u := range used {
				if !u {
					return false
				}
			}
			return true
		}
		key := fmt.Sprint(len(text), used)
		if dead[key] {
			return false
		}
		tried := map[string]bool{}
		for i, w := range wants {
			if !used[i] && !tried[w] && strings.HasPrefix(text, w) {
				tried[w] = true
				used[i] = true
				if rec(text[len(w):]) {
					return true
				}
				used[i] = false
			}
		}
		dead[key] = true
		return false
	}
	return rec(text)
}

func fitDocs(outs []OutFile, used []bool, got []*yaml.Node, partly bool, why *string, dead map[string]bool) bool {
	if len(got) == 0 {
		if partly {
			return true
		}
		for i, u := range used {
			if !u {
				*why = "the documents of " + outs[i].In + " are not on standard output"
				return false
			}
		}
		return true
	}
	if *why == "" {
		*why = fmt.Sprintf("nobody's documents begin with %s", brief(got[0]))
	}
	key := fmt.Sprint(len(got), used)
	if dead[key] {
		return false
	}
	dead[key] = true
	for i, f := range outs {
		if used[i] || len(f.Docs) > len(got) {
			continue
		}
		if d := sameDocs(f.Docs, got[:len(f.Docs)]); d == "" {
			used[i] = true
			if fitDocs(outs, used, got[len(f.Docs):], partly, why, dead) {
				return true
			}
			used[i] = false
		} else if len(outs) == 1 || strings.HasPrefix(*why, "nobody") {
			*why = f.In + ": " + d
		}
	}
	return false
}

// compareEnv: the settings printed by yot env.
func (s *Scenario) compareEnv(root string, e *Outcome, text string) string {
	got := map[string]string{}
	for _, l := range strings.Split(strings.TrimSuffix(text, "\n"), "\n") {
		n, v, ok := strings.Cut(l, "=")
		if !ok || len(v) < 2 || v[0] != '"' || v[len(v)-1] != '"' {
			return "yot env printed " + strconv.Quote(l)
		}
		got[n] = v[1 : len(v)-1]
	}
	if len(got) != len(e.Settings) {
		return fmt.Sprintf("yot env printed %d settings, expected %d", len(got), len(e.Settings))
	}
	norm := func(n, v string) string {
		if n == "outputStyle" {
			return strings.Trim(strings.Join(strings.FieldsFunc(v, func(r rune) bool { return strings.ContainsRune("[], ", r) }), ","), ",")
		}
		return v
	}
	for _, kv := range e.Settings {
		want := norm(kv.N, realPath(root, kv.V))
		if g, ok := got[envNames[kv.N]]; !ok || norm(kv.N, g) != want {
			return fmt.Sprintf("yot env printed %s=%q, expected %q", envNames[kv.N], g, want)
		}
	}
	return ""
}

// namesOf is what a run that writes files prints.
func namesOf(e *Outcome) string {
	t := ""
	for _, f := range e.Out {
		t += f.Target + "\n"
	}
	return t
}
