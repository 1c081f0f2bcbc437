package main

import (
	"encoding/json"
	"os"
	"strings"
)

// Known is one entry of /verif/known_findings.json.  Entries with status
// "finding" describe genuine, unrepaired defects and match a violation by its
// rule plus the specific circumstances (scenario and a fragment that names the
// failing input, call site or history).  Entries with status "fixed" match nothing.
type Known struct {
	ID       string   `json:"id"`
	Property string   `json:"property"`
	Status   string   `json:"status"`
	What     string   `json:"what"`
	Rule     string   `json:"rule"`
	Contains []string `json:"contains"`
	Commit   string   `json:"commit,omitempty"`
}

var known []Known

func loadKnown(path string) {
	bz, err := os.ReadFile(path)
	if err != nil {
		return
	}
	if err := json.Unmarshal(bz, &known); err != nil {
		panic(err)
	}
}

func matchKnown(prop string, f *FoundX) *Known {
	for i := range known {
		k := &known[i]
		if k.Status != "finding" || k.Property != prop || k.Rule != f.Rule {
			continue
		}
		ok := true
		for _, c := range k.Contains {
			if !strings.Contains(f.Msg, c) {
				ok = false
			}
		}
		if ok && len(k.Contains) > 0 {
			return k
		}
	}
	return nil
}
