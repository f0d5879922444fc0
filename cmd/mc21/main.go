// Command mc21 explores the interleavings of operations on shared fonts. It is
// built from instrumented code, and runs one schedule at a time.
//
//	mc21 solo                 prints each operation's result in a new process
//	mc21 one OP               prints one
//	mc21 explore SHARD N TIER prints what was found
//	mc21 replay CASE
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"strconv"
	"strings"
	"time"

	"verif/internal/conc"
	"verif/sched"

	"github.com/golang/freetype"
	"github.com/golang/freetype/raster"
	"github.com/golang/freetype/truetype"
)

// Case is a schedule of some operations.
type Case struct {
	Ops  []int
	Plan []sched.Segment // None for one after the other.
	Post []int           // Run afterwards, one after the other.
}

// Report is what a shard found.
type Report struct {
	Pairs, Schedules, Steps, Sequences, Validated int64
	MaxSteps                                      map[string]int
	Bound2                                        int64 // Pairs explored with two preemptions.
	Bound3                                        int64
	Stuck                                         int
	Complete                                      bool
	Fail                                          string
	Case                                          *Case
	Samples                                       []Case
}

func reset() {
	raster.VerifReset()
	truetype.VerifReset()
	freetype.VerifReset()
}

var solo []uint64

func readSolo() {
	b := os.Getenv("MC21_SOLO")
	for _, f := range strings.Split(b, ",") {
		v, err := strconv.ParseUint(f, 10, 64)
		if err != nil {
			panic(err)
		}
		solo = append(solo, v)
	}
}

func main() {
	switch os.Args[1] {
	case "one":
		conc.One()
	case "solo":
		conc.Solo()
	case "explore":
		readSolo()
		shard, _ := strconv.Atoi(os.Args[2])
		n, _ := strconv.Atoi(os.Args[3])
		b, _ := json.Marshal(explore(shard, n, os.Args[4] == "thorough"))
		fmt.Println(string(b))
	case "replay":
		readSolo()
		var c Case
		if err := json.Unmarshal([]byte(os.Args[2]), &c); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		_, msg := run(&c)
		fmt.Println(msg)
		if msg != "" {
			os.Exit(1)
		}
	}
}

// run runs a case with new fonts and new package-level variables.
func run(c *Case) (steps []int, msg string) {
	reset()
	e := conc.NewEnv()
	res := make([]uint64, len(c.Ops))
	pans := make([]string, len(c.Ops))
	if c.Plan != nil {
		var bodies []func()
		for i, o := range c.Ops {
			bodies = append(bodies, func() { res[i], pans[i] = conc.Ops[o].Do(e) })
		}
		var err error
		if steps, err = sched.Run(bodies, c.Plan); err != nil {
			return steps, "stuck"
		}
	} else {
		for i, o := range c.Ops {
			res[i], pans[i] = conc.Ops[o].Do(e)
		}
	}
	for i, o := range c.Ops {
		if res[i] != solo[o] {
			return steps, describe(c, fmt.Sprintf("operation %d (%q) does not return what it returns on its own; panic: %q", i, conc.Ops[o].Name, pans[i]))
		}
	}
	for _, o := range c.Post {
		r, pan := conc.Ops[o].Do(e)
		if r != solo[o] {
			return steps, describe(c, fmt.Sprintf("%q, run afterwards, does not return what it returns on its own; panic: %q", conc.Ops[o].Name, pan))
		}
	}
	return steps, ""
}

func describe(c *Case, what string) string {
	var names []string
	for _, o := range c.Ops {
		names = append(names, conc.Ops[o].Name)
	}
	how := "one after the other"
	if c.Plan != nil {
		how = fmt.Sprintf("concurrently, switching by %v (thread, steps)", c.Plan)
	}
	return fmt.Sprintf("%q, run %s: %s", names, how, what)
}

func explore(shard, n int, thorough bool) *Report {
	r := &Report{MaxSteps: map[string]int{}, Complete: true}
	budget := 60 * time.Second
	if thorough {
		budget = time.Hour
	}
	deadline := time.Now().Add(budget)
	try := func(c *Case) ([]int, bool) {
		steps, msg := run(c)
		if msg == "stuck" {
			r.Stuck++
			r.Complete = false
			return steps, false
		}
		if msg != "" {
			for k := 0; k < 4; k++ {
				if _, m := run(c); m == "" {
					msg = ""
					r.Complete = false
				}
			}
			if msg != "" {
				r.Fail, r.Case = msg, c
			}
			return steps, false
		}
		r.Validated++
		if len(r.Samples) < 2 || r.Validated == 1000 {
			r.Samples = append(r.Samples, *c)
		}
		for _, s := range steps {
			r.Steps += int64(s)
		}
		return steps, true
	}
	limit2, limit3 := 20000, 0
	if thorough {
		limit2, limit3 = 500000, 3000
	}
	k := 0
	N := len(conc.Ops)
	mine := func() bool { k++; return (k-1)%n == shard }
	// Sequences.
	for a := 0; a < N; a++ {
		for b := 0; b < N; b++ {
			if !mine() {
				continue
			}
			for c := 0; c < N; c++ {
				r.Sequences++
				if _, ok := try(&Case{Ops: []int{a, b, c, a}}); !ok {
					return r
				}
			}
		}
	}
	// All ways to interrupt one operation by another.
	for a := 0; a < N; a++ {
		for b := 0; b < N; b++ {
			if !mine() {
				continue
			}
			if time.Now().After(deadline) {
				r.Complete = false
				return r
			}
			r.Pairs++
			post := []int{a, b}
			steps, ok := try(&Case{Ops: []int{a, b}, Plan: []sched.Segment{{Thread: 0}}, Post: post})
			if !ok {
				return r
			}
			na, nb := steps[0], steps[1]
			r.MaxSteps[conc.Ops[a].Name] = na
			for i := 1; i <= na; i++ {
				r.Schedules++
				if _, ok := try(&Case{Ops: []int{a, b}, Plan: []sched.Segment{{0, i}, {1, 0}}, Post: post}); !ok {
					return r
				}
			}
			if na*nb <= limit2 {
				r.Bound2++
				for i := 1; i <= na; i++ {
					for j := 1; j <= nb; j++ {
						r.Schedules++
						if _, ok := try(&Case{Ops: []int{a, b}, Plan: []sched.Segment{{0, i}, {1, j}, {0, 0}}, Post: post}); !ok {
							return r
						}
					}
				}
			}
			if na*nb <= limit3 {
				r.Bound3++
				for i := 1; i <= na; i++ {
					for j := 1; j <= nb; j++ {
						for l := 1; l <= na-i; l++ {
							r.Schedules++
							if _, ok := try(&Case{Ops: []int{a, b}, Plan: []sched.Segment{{0, i}, {1, j}, {0, l}, {1, 0}}, Post: post}); !ok {
								return r
							}
						}
					}
				}
			}
		}
	}
	return r
}
