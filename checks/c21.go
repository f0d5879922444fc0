package checks

import (
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif/internal/conc"
	"verif/internal/mc"
)

// A schedCase is a schedule, as cmd/mc21 has it.
type schedCase struct {
	Ops  []int
	Plan []struct{ Thread, Steps int }
	Post []int
}

// A raceCase is two operations, in goroutines of their own.
type raceCase struct{ A, B int }

type schedReport struct {
	Pairs, Schedules, Steps, Sequences, Validated int64
	MaxSteps                                      map[string]int
	Bound2, Bound3                                int64
	Stuck                                         int
	Complete                                      bool
	Fail                                          string
	Case                                          *schedCase
	Samples                                       []schedCase
}

func tail(s string, n int) string {
	if len(s) > n {
		s = s[:n]
	}
	return s
}

var c21 = &mc.Check{
	ID: "C21",
	Rule: "Operations on two shared fonts, each through objects of its own, run on instrumented code under a scheduler that " +
		"switches at any statement: all pairs, at every statement of the one (one preemption), with two preemptions where " +
		"the product of the two lengths is within a limit, and all sequences a, b, c, a of operations, each result compared " +
		"with what the operation returns in a new process; and all pairs in goroutines under the race detector.",
	Assumptions: []string{
		"the scheduler switches between statements, not within one; accesses within a statement are covered by the race detector",
		"two threads; one preemption for all pairs, two for short ones",
		"if the code under test starts goroutines itself, only the race detector's runs remain",
	},
	Run: runC21,
}

func runC21(c *mc.Ctx) {
	bin := os.Getenv("VERIF_BIN_DIR")
	mc21, race21 := filepath.Join(bin, "mc21"), filepath.Join(bin, "race21")
	have := func(f string) bool { _, err := os.Stat(f); return err == nil }
	var solo string
	soloOf := func(prog string) string {
		out, err := exec.Command(prog, "solo").Output()
		if err != nil {
			fmt.Fprintln(os.Stderr, prog, "solo:", err)
			os.Exit(2)
		}
		return strings.TrimSpace(string(out))
	}
	solo = soloOf(race21)
	env := append(os.Environ(), "GOMAXPROCS=1", "GOGC=400", "MC21_SOLO="+solo)
	scheds := have(mc21)
	if !scheds {
		c.Note("the code under test starts goroutines of its own or could not be instrumented: no schedules were explored")
	} else if s := soloOf(mc21); s != solo {
		// An operation on its own depends on something else than its arguments.
		c.Note("instrumented and plain code differ; no schedules were explored")
		scheds = false
	}

	raceEnv := append(os.Environ(), "MC21_SOLO="+solo, "GORACE=halt_on_error=1 exitcode=66")
	mc.Explore(c, "race", func(yield func(raceCase) bool) {
		for a := range conc.Ops {
			if !yield(raceCase{a, -1}) {
				return
			}
		}
	}, func(x *mc.X, t raceCase) error {
		run := func(b int) error {
			args := []string{strconv.Itoa(t.A)}
			if b >= 0 {
				args = append(args, strconv.Itoa(b))
			}
			cmd := exec.Command(race21, args...)
			cmd.Env = raceEnv
			out, err := cmd.CombinedOutput()
			x.Step(strings.Count(string(out), "PAIR"))
			x.ValidatedN(strings.Count(string(out), "PAIR"))
			var ee *exec.ExitError
			if err == nil {
				return nil
			}
			if !errors.As(err, &ee) {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(2)
			}
			text := string(out)
			last := text[strings.LastIndex(text, "PAIR"):]
			var pa, pb int
			fmt.Sscanf(last, "PAIR %d %d", &pa, &pb)
			return fmt.Errorf("%q and %q in goroutines of their own, on shared fonts: %s", conc.Ops[pa].Name, conc.Ops[pb].Name, tail(last, 3000))
		}
		x.Outcome(uint64(t.A))
		return run(t.B)
	})
	if c.Violated() {
		return
	}

	mc.Explore(c, "schedule", func(yield func(schedCase) bool) {}, func(x *mc.X, t schedCase) error {
		if !scheds {
			return nil
		}
		b, _ := json.Marshal(t)
		cmd := exec.Command(mc21, "replay", string(b))
		cmd.Env = env
		if out, err := cmd.CombinedOutput(); err != nil {
			return errors.New(tail(string(out), 3000))
		}
		return nil
	})
	if c.Replaying() || !scheds {
		return
	}
	t0 := time.Now()
	const nShards = 16
	reps := make([]schedReport, nShards)
	var wg sync.WaitGroup
	sem := make(chan int, 8)
	for i := range reps {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- 0
			defer func() { <-sem }()
			cmd := exec.Command(mc21, "explore", strconv.Itoa(i), strconv.Itoa(nShards), c.Tier)
			cmd.Env = env
			cmd.Stderr = os.Stderr
			out, err := cmd.Output()
			if err == nil {
				err = json.Unmarshal(out, &reps[i])
			}
			if err != nil {
				// The exploration itself died, for example of a fatal error that cannot be recovered from.
				fmt.Fprintln(os.Stderr, "mc21:", err)
				reps[i] = schedReport{}
				c.Note("shard %d gave no answer: %v", i, err)
			}
		}()
	}
	wg.Wait()
	sum := schedReport{Complete: true, MaxSteps: map[string]int{}}
	for i, r := range reps {
		sum.Pairs += r.Pairs
		sum.Schedules += r.Schedules
		sum.Steps += r.Steps
		sum.Sequences += r.Sequences
		sum.Validated += r.Validated
		sum.Bound2 += r.Bound2
		sum.Bound3 += r.Bound3
		sum.Stuck += r.Stuck
		sum.Complete = sum.Complete && r.Complete
		for k, v := range r.MaxSteps {
			sum.MaxSteps[k] = v
		}
		if i == 0 {
			sum.Samples = r.Samples
		}
		if r.Fail != "" {
			c.Fail("schedule", r.Case, "%s", r.Fail)
		}
	}
	if sum.Stuck > 0 {
		c.Note("%d schedules did not end, which a scheduler of this kind cannot tell from a wait it does not know of", sum.Stuck)
	}
	var samples []any
	for _, s := range sum.Samples {
		samples = append(samples, s)
	}
	c.Extra("pairs", sum.Pairs)
	c.Extra("schedules", sum.Schedules)
	c.Extra("sequences", sum.Sequences)
	c.Extra("pairs_with_two_preemptions", sum.Bound2)
	c.Extra("pairs_with_three_preemptions", sum.Bound3)
	c.Extra("statements_per_operation", sum.MaxSteps)
	c.AddPart("schedules", sum.Schedules+sum.Sequences, sum.Schedules+sum.Sequences, sum.Steps, sum.Validated, int64(len(sum.MaxSteps)), sum.Complete, time.Since(t0).Seconds(), samples...)
}
