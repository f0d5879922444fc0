package conc

import (
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"strconv"
	"strings"
	"sync"
)

// One prints the result of the operation that the second argument says.
func One() {
	i, _ := strconv.Atoi(os.Args[2])
	r, pan := Ops[i].Do(NewEnv())
	if pan != "" {
		fmt.Fprintf(os.Stderr, "operation %q panics on its own: %s\n", Ops[i].Name, pan)
	}
	fmt.Println(r)
}

// Solo prints the results of all operations, each run in a new process.
func Solo() {
	out := make([]string, len(Ops))
	var wg sync.WaitGroup
	sem := make(chan int, runtime.NumCPU())
	for i := range Ops {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- 0
			defer func() { <-sem }()
			b, err := exec.Command(os.Args[0], "one", strconv.Itoa(i)).Output()
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(2)
			}
			out[i] = strings.TrimSpace(string(b))
		}()
	}
	wg.Wait()
	fmt.Println(strings.Join(out, ","))
}
