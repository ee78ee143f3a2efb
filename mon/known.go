package main

import (
	"bufio"
	"os"
	"path/filepath"
	"strings"
)

// loadKnown reads the keys of the known findings of property p.
// Line format: finding: property=<id> key=<key> <description>
func loadKnown(p string) map[string]bool {
	m := map[string]bool{}
	f, err := os.Open(filepath.Join(envOr("VERIF_DIR", "/verif"), "KNOWN_FINDINGS.txt"))
	if err != nil {
		return m
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		w := strings.Fields(sc.Text())
		if len(w) >= 3 && w[0] == "finding:" && w[1] == "property="+p && strings.HasPrefix(w[2], "key=") {
			m[strings.TrimPrefix(w[2], "key=")] = true
		}
	}
	return m
}
