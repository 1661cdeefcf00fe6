package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
)

// usage:
//
//	sim check ID WORKDIR VERIFDIR     build the system under test and check a property
//	sim replay BIN BINCONC VERIFDIR FILE
//	sim build WORKDIR                 build only (both variants)
//	sim run WORKDIR VERIFDIR FILE     build and replay, showing the trace
func main() {
	repo := os.Getenv("SIM_REPO")
	if repo == "" {
		repo = "/repo"
	}
	die := func(err error) {
		fmt.Printf("ERROR of the harness: %v\n", err)
		os.Exit(2)
	}
	build := func(work string, conc bool) (string, string) {
		bin, binConc := filepath.Join(work, "sut"), ""
		if err := buildSUT(repo, work, bin, false); err != nil {
			die(err)
		}
		if conc {
			binConc = filepath.Join(work, "sutconc")
			if err := buildSUT(repo, work, binConc, true); err != nil {
				die(err)
			}
		}
		return bin, binConc
	}
	if len(os.Args) < 3 {
		die(fmt.Errorf("usage"))
	}
	switch os.Args[1] {
	case "check":
		p := properties[os.Args[2]]
		if p == nil {
			die(fmt.Errorf("unknown property %s", os.Args[2]))
		}
		seed := uint64(1)
		if s := os.Getenv("VERIF_SEED"); s != "" {
			n, err := strconv.ParseUint(s, 10, 64)
			if err != nil {
				n = strSeed(s)
			}
			seed = n
		}
		tier := os.Getenv("VERIF_TIER")
		if tier != "thorough" {
			tier = "quick"
		}
		bin, binConc := build(os.Args[3], p.Conc)
		rc := runCheck(p, bin, binConc, os.Args[4], tier, seed)
		coverReport()
		os.Exit(rc)
	case "replay":
		os.Exit(runReplay(os.Args[2], os.Args[3], os.Args[5], false))
	case "run":
		var rf replayFile
		if b, err := os.ReadFile(os.Args[4]); err != nil {
			die(err)
		} else if err := json.Unmarshal(b, &rf); err != nil {
			die(err)
		}
		p := properties[rf.Property]
		bin, binConc := build(os.Args[2], p != nil && p.Conc)
		os.Exit(runReplay(bin, binConc, os.Args[4], true))
	case "build":
		build(os.Args[2], len(os.Args) > 3)
	default:
		die(fmt.Errorf("usage"))
	}
}
