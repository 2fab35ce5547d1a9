package main

import (
	"bytes"
	"context"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"
)

const nobody = 65534

var (
	workDir string // everything the harness writes
	workers = 8
	dropped bool // yot runs as nobody
)

// Observed is what a run of yot did.
type Observed struct {
	Exit    int
	Stdout  string
	Stderr  string
	Timeout bool
	Before  map[string]string
	After   map[string]string
	Trace   string
}

func makeWorkDir() error {
	d, err := os.MkdirTemp("", "yotverif")
	if err != nil {
		return err
	}
	if err := os.Chmod(d, 0755); err != nil {
		return err
	}
	workDir = d
	c := exec.Command("/bin/true")
	c.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: nobody, Gid: nobody}}
	dropped = os.Getuid() == 0 && c.Run() == nil
	return nil
}

// build compiles yot from the working tree.
func build(name string, args ...string) (string, error) {
	out := filepath.Join(workDir, name)
	a := append([]string{"build", "-o", out}, args...)
	a = append(a, "./cmd/yot")
	c := exec.Command("go", a...)
	c.Dir = repoDir
	c.Env = append(os.Environ(), "GOTOOLCHAIN=local", "GOFLAGS=-mod=mod", "GOPROXY=off")
	b, err := c.CombinedOutput()
	if err != nil {
		return "", &buildError{string(b)}
	}
	return out, os.Chmod(out, 0755)
}

type buildError struct{ s string }

func (e *buildError) Error() string { return "cannot build yot: " + e.s }

// snapshot gives the files by path; what links lead to, below links/, is shown where the links are.
func (s *Scenario) snapshot(root string) map[string]string {
	m := map[string]string{}
	filepath.WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		if err == nil && d.Type().IsRegular() {
			b, _ := os.ReadFile(p)
			for i, l := range s.Links {
				if rest, ok := strings.CutPrefix(p, linked(root, i)); ok {
					p = abs(root, l) + rest
					if _, there := m[p]; there {
						return nil
					}
				}
			}
			m[p] = string(b)
		}
		return nil
	})
	return m
}

// linked is what a symbolic link leads to.
func linked(root string, i int) string { return filepath.Join(root, "links", fmt.Sprintf("%03d", i)) }

func (s *Scenario) layLinks(root string) error {
	for i, l := range s.Links {
		p, t := abs(root, l), linked(root, i)
		if _, err := os.Lstat(p); err == nil {
			continue
		}
		dir := true
		for _, f := range s.Files {
			dir = dir && f.Path != l
		}
		if err := os.MkdirAll(filepath.Dir(p), 0755); err != nil {
			return err
		}
		made := filepath.Dir(t)
		if dir {
			made = t
		}
		if err := os.MkdirAll(made, 0755); err != nil {
			return err
		}
		if err := os.Symlink(t, p); err != nil {
			return err
		}
	}
	return nil
}

func own(p string) {
	if dropped {
		os.Chown(p, nobody, nobody)
	}
}

func ownAll(root string) {
	if dropped {
		filepath.WalkDir(root, func(p string, d fs.DirEntry, err error) error {
			os.Chown(p, nobody, nobody)
			return nil
		})
	}
}

// lay writes the files of a scenario below its sandbox.
func (s *Scenario) lay(root string) error {
	if err := s.layLinks(root); err != nil {
		return err
	}
	dirs := append([]string{s.Cwd, "home"}, s.Dirs...)
	for _, d := range dirs {
		if err := os.MkdirAll(abs(root, d), 0755); err != nil {
			return err
		}
	}
	for _, f := range s.Files {
		p := abs(root, f.Path)
		if err := os.MkdirAll(filepath.Dir(p), 0755); err != nil {
			return err
		}
		if err := os.WriteFile(p, []byte(in(root, f.Text)), 0644); err != nil {
			return err
		}
	}
	ownAll(root)
	return nil
}

// execYot runs yot once; env is added to the environment of the scenario.
func (s *Scenario) execYot(bin, root string, timeout time.Duration, env ...string) (*Observed, error) {
	if err := s.lay(root); err != nil {
		return nil, err
	}
	o := &Observed{Before: s.snapshot(root)}
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	c := exec.CommandContext(ctx, bin, s.Argv(root)...)
	c.Dir = abs(root, s.Cwd)
	c.Env = append(s.Environ(root), env...)
	c.Stdin = strings.NewReader(in(root, s.Stdin))
	var so, se bytes.Buffer
	c.Stdout, c.Stderr = &so, &se
	if s.Full {
		full, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
		if err != nil {
			return nil, err
		}
		defer full.Close()
		c.Stdout = full
	}
	if dropped {
		c.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: nobody, Gid: nobody}}
	}
	err := c.Run()
	o.Stdout, o.Stderr = so.String(), se.String()
	o.After = s.snapshot(root)
	if ctx.Err() != nil {
		o.Timeout = true
		return o, nil
	}
	if ee, ok := err.(*exec.ExitError); ok {
		o.Exit = ee.ExitCode()
	} else if err != nil && !strings.Contains(err.Error(), "broken pipe") {
		return o, err
	}
	return o, nil
}

// parallel calls f for every index.
func parallel(n int, f func(i int)) {
	var wg sync.WaitGroup
	ch := make(chan int)
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				f(i)
			}
		}()
	}
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	wg.Wait()
}
