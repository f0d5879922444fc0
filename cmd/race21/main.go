// Command race21 runs operations on shared fonts in two goroutines at once. It
// is built with the race detector: two operations between which it sees no
// conflicting accesses have the same result in every schedule.
//
//	race21 solo   prints each operation's result in a new process
//	race21 A [B]  runs A together with itself and then with every operation, or only with B
package main

import (
	"fmt"
	"os"
	"strconv"
	"strings"
	"sync"

	"verif/internal/conc"
)

func main() {
	switch os.Args[1] {
	case "solo":
		conc.Solo()
		return
	case "one":
		conc.One()
		return
	}
	var solo []uint64
	for _, f := range strings.Split(os.Getenv("MC21_SOLO"), ",") {
		v, err := strconv.ParseUint(f, 10, 64)
		if err != nil {
			fmt.Fprintln(os.Stderr, "MC21_SOLO:", err)
			os.Exit(2)
		}
		solo = append(solo, v)
	}
	a, _ := strconv.Atoi(os.Args[1])
	order := []int{a}
	if len(os.Args) > 2 {
		b, _ := strconv.Atoi(os.Args[2])
		order = []int{b}
	} else {
		for b := range conc.Ops {
			if b != a {
				order = append(order, b)
			}
		}
	}
	for _, b := range order {
		e := conc.NewEnv()
		// The detector's report names no operations, so say which these are.
		fmt.Printf("PAIR %d %d\n", a, b)
		start := make(chan int)
		var wg sync.WaitGroup
		ops := []int{a, b}
		if len(os.Args) == 2 {
			ops = []int{a, b, a}
		}
		res := make([]uint64, len(ops))
		pans := make([]string, len(ops))
		for i, o := range ops {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				res[i], pans[i] = conc.Ops[o].Do(e)
			}()
		}
		close(start)
		wg.Wait()
		for i, o := range ops {
			if res[i] != solo[o] {
				fmt.Printf("WRONG %q does not return what it returns on its own; panic: %q\n", conc.Ops[o].Name, pans[i])
				os.Exit(67)
			}
		}
	}
}
