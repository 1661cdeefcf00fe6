package main

// A tool for finding out what the generators do not reach: with SIM_COVER=FILE
// the system under test reports each statement it executes first, and the check
// appends to FILE those that were (+) and those that were not (-) executed. The
// verdicts of such a run do not count.

import (
	"bufio"
	"fmt"
	"go/ast"
	"os"
	"path/filepath"
	"strings"
	"sync"
)

var coverFile = os.Getenv("SIM_COVER")

var coverNames []string

var coverHits sync.Map

const simcoverSrc = `package simyield

import "syscall"

var seen = make([]bool, 100000)

func H(n int) {
	if !seen[n] {
		seen[n] = true
		if syscall.SimOn {
			syscall.SimCall(1300, int64(n), 0, nil)
		}
	}
}
`

func instrumentCover(repo string, put func(target, name string, data []byte) error) error {
	if err := put(filepath.Join(repo, "cmd/utils/simyield/simyield.go"), "cover/simyield.go", []byte(simcoverSrc)); err != nil {
		return err
	}
	return filepath.Walk(repo, func(n string, fi os.FileInfo, err error) error {
		rel, _ := filepath.Rel(repo, n)
		if err != nil || fi.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") || rel == "main.go" || strings.HasPrefix(rel, "cmd/web/") || strings.HasPrefix(rel, "docs") || strings.HasPrefix(rel, "zz_") {
			return err
		}
		b, err := instrumentFile(n, func(line int, _ ast.Stmt) string {
			coverNames = append(coverNames, fmt.Sprintf("%s:%d", rel, line))
			return fmt.Sprintf("simyield.H(%d); ", len(coverNames)-1)
		})
		if err != nil {
			return err
		}
		return put(n, "cover/"+rel, b)
	})
}

func coverReport() {
	if coverFile == "" {
		return
	}
	f, err := os.OpenFile(coverFile, os.O_WRONLY|os.O_CREATE|os.O_APPEND, 0644)
	if err != nil {
		return
	}
	defer f.Close()
	w := bufio.NewWriter(f)
	for i, n := range coverNames {
		mark := "-"
		if _, ok := coverHits.Load(int64(i)); ok {
			mark = "+"
		}
		fmt.Fprintf(w, "%s %s\n", mark, n)
	}
	w.Flush()
}
