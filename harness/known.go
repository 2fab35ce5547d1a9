package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

// knownRun is a run that is known to fail: the standard output a property asks for and yot does not give.
type knownRun struct {
	Property string            `json:"property"`
	Args     []string          `json:"args"`
	Files    map[string]string `json:"files"`
	Want     string            `json:"want"`
}

// known runs the listed findings of the property.
func (c *check) known() error {
	b, err := os.ReadFile(filepath.Join(verifDir, "known-findings.txt"))
	if err != nil {
		return err
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.SplitN(l, " ", 4)
		if len(f) != 4 || f[0] != "known:" || f[1] != "property="+c.id {
			continue
		}
		var k knownRun
		b, err := os.ReadFile(filepath.Join(verifDir, "known", f[2]+".json"))
		if err == nil {
			err = json.Unmarshal(b, &k)
		}
		if err != nil {
			return err
		}
		s := &Scenario{ID: f[2], Cwd: "w", RawArgs: k.Args}
		for n, t := range k.Files {
			s.Files = append(s.Files, SFile{"w/" + n, t})
		}
		o, err := c.execute(s)
		if err != nil {
			return err
		}
		os.RemoveAll(rootOf(s))
		if o.Stdout != k.Want || o.Exit != 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.id, f[3])
			c.addPart("known findings that still fail", 1)
		}
	}
	return nil
}
