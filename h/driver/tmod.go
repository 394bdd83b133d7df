package main

import (
	"os"
	"path/filepath"
	"strings"
)

// tmpModule writes a throw-away Go module that uses the ginkgo under test.
func tmpModule(name string, files map[string]string) string {
	dir := filepath.Join(*flagWork, name)
	os.RemoveAll(dir)
	gm, err := os.ReadFile("/repo/go.mod")
	if err != nil {
		fatal("%v", err)
	}
	mod := strings.Replace(string(gm), "module github.com/onsi/ginkgo/v2", "module tmod", 1)
	mod += "\nrequire github.com/onsi/ginkgo/v2 v2.0.0\nreplace github.com/onsi/ginkgo/v2 => /repo\n"
	gs, _ := os.ReadFile("/repo/go.sum")
	writeTree(dir, map[string]string{"go.mod": mod, "go.sum": string(gs)})
	writeTree(dir, files)
	return dir
}

func writeTree(dir string, files map[string]string) {
	for f, s := range files {
		p := filepath.Join(dir, f)
		if err := os.MkdirAll(filepath.Dir(p), 0755); err != nil {
			fatal("%v", err)
		}
		if err := os.WriteFile(p, []byte(s), 0644); err != nil {
			fatal("%v", err)
		}
	}
}

func tmodEnv() []string { return []string{"GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off"} }
