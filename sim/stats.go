package main

import (
	"fmt"
	"sort"
	"unsafe"
)

func ptr(b []byte) unsafe.Pointer { return unsafe.Pointer(&b[0]) }

// Stats are the measured counts of one batch of runs.
type Stats struct {
	Runs, Procs, Ops int
	SimNs            int64
	Faults           map[string]int
	Unmod            map[int64]int
	Probes           map[string]int
	Shapes           map[string]bool
	Nontrivial       int
}

func newStats() *Stats {
	return &Stats{Faults: map[string]int{}, Unmod: map[int64]int{}, Probes: map[string]int{}, Shapes: map[string]bool{}}
}

func (s *Stats) fault(class, act string) { s.Faults[class+":"+act]++ }
func (s *Stats) unmodelled(n int64)      { s.Unmod[n]++ }
func (s *Stats) probe(name string)       { s.Probes[name]++ }

func (s *Stats) merge(o *Stats) {
	s.Runs += o.Runs
	s.Procs += o.Procs
	s.Ops += o.Ops
	s.SimNs += o.SimNs
	s.Nontrivial += o.Nontrivial
	for k, v := range o.Faults {
		s.Faults[k] += v
	}
	for k, v := range o.Unmod {
		s.Unmod[k] += v
	}
	for k, v := range o.Probes {
		s.Probes[k] += v
	}
	for k := range o.Shapes {
		s.Shapes[k] = true
	}
}

func countList(m map[string]int) []string {
	var out []string
	for k, v := range m {
		out = append(out, fmt.Sprintf("%s=%d", k, v))
	}
	sort.Strings(out)
	return out
}
