package mc

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/maphash"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// Main runs the check named by the first argument. The exploration runs in a
// child process, so that a crash Go cannot recover from (stack exhaustion, out
// of memory) is a finding with a replay file too, and not an error of the check.
func Main(checks []*Check) {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: mc ID [-replay FILE]")
		os.Exit(2)
	}
	id := os.Args[1]
	var ck *Check
	for _, c := range checks {
		if c.ID == id {
			ck = c
		}
	}
	if ck == nil {
		fmt.Fprintln(os.Stderr, "no such check:", id)
		os.Exit(2)
	}
	dir := os.Getenv("VERIF_DIR")
	if dir == "" {
		dir = "."
	}
	if os.Getenv("MC_CHILD") == "" {
		os.Exit(parent(ck, dir))
	}
	if ck.ID != "C21" { // The race detector reserves more.
		// An allocation out of all proportion is to fail, and not to take the
		// machine's memory. A single case needs less.
		limit := uint64(20 << 30)
		if len(os.Args) >= 4 && os.Args[2] == "-replay" {
			limit = 3 << 30
		}
		if err := syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: limit, Max: limit}); err != nil {
			fmt.Fprintln(os.Stderr, "setrlimit:", err)
		}
	}
	c := &Ctx{Check: ck, Tier: os.Getenv("VERIF_TIER"), Dir: dir, start: time.Now(), knownHit: map[string]string{},
		extra: map[string]any{}, seed: maphash.MakeSeed(), journal: os.Getenv("MC_JOURNAL")}
	if c.Tier != "thorough" {
		c.Tier = "quick"
	}
	c.Seed, _ = strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	budget := 300 * time.Second
	if c.Thorough() {
		budget = 2 * time.Hour
	}
	if s := os.Getenv("VERIF_BUDGET_S"); s != "" {
		n, _ := strconv.Atoi(s)
		budget = time.Duration(n) * time.Second
	}
	c.Deadline = c.start.Add(budget)
	c.known = readKnown(filepath.Join(dir, "known_findings.txt"))
	if len(os.Args) >= 4 && os.Args[2] == "-replay" {
		b, err := os.ReadFile(os.Args[3])
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		var v Violation
		if err := json.Unmarshal(b, &v); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		c.replayPart, c.replayCase = v.Part, v.Case
	}
	ck.Run(c)
	os.Exit(c.finish())
}

// Lines of known_findings.txt:
//
//	known: property=C02 key=<key> <what fails>
//	fixed: property=C01 <commit> <what failed>
//
// Only "known:" lines suppress anything, and only failures with that exact key.
func readKnown(path string) (ks []Known) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) < 3 || f[0] != "known:" {
			continue
		}
		ks = append(ks, Known{strings.TrimPrefix(f[1], "property="), strings.TrimPrefix(f[2], "key="), strings.Join(f[3:], " ")})
	}
	return ks
}

func runChild(args []string, env ...string) (out string, code int) {
	var buf bytes.Buffer
	cmd := exec.Command(os.Args[0], args...)
	cmd.Env = append(append(os.Environ(), "MC_CHILD=1"), env...)
	tail := &tailWriter{}
	cmd.Stdout = io.MultiWriter(os.Stdout, &buf)
	cmd.Stderr = tail
	if os.Getenv("VERIF_VERBOSE") != "" {
		cmd.Stderr = io.MultiWriter(os.Stderr, tail)
	}
	err := cmd.Run()
	code = 0
	if err != nil {
		code = -1
		if ee, ok := err.(*exec.ExitError); ok {
			code = ee.ExitCode()
		}
	}
	return tail.String(), code
}

// tailWriter keeps the first 8 kB.
type tailWriter struct{ b []byte }

func (t *tailWriter) Write(p []byte) (int, error) {
	if len(t.b) < 8192 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}
func (t *tailWriter) String() string { return string(t.b) }

func parent(ck *Check, dir string) int {
	out, code := runChild(os.Args[1:])
	if code == 0 || code == 1 {
		return code
	}
	// The child died. Run it again with a journal to find the case.
	fmt.Printf("child ended with code %d; repeating with a journal\n%s\n", code, indent(oneLine(out)))
	jd, err := os.MkdirTemp("", "mcj")
	if err != nil {
		return 2
	}
	defer os.RemoveAll(jd)
	out2, code2 := runChild(os.Args[1:], "MC_JOURNAL="+jd)
	if code2 == 1 || code2 == 0 {
		return code2
	}
	files, _ := filepath.Glob(filepath.Join(jd, "w*"))
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil || len(b) == 0 {
			continue
		}
		var v Violation
		if json.Unmarshal(b, &v) != nil {
			continue
		}
		bad := 0
		var last string
		for k := 0; k < 3; k++ {
			o, rc := runChild([]string{ck.ID, "-replay", f})
			if rc != 0 {
				bad++
				last = o
			}
		}
		if bad == 3 {
			v.Message = "the process crashes on this case: " + oneLine(last)
			path := writeReplay(dir, v, 0)
			fmt.Printf("%s\n  part=%s case=%s\nVIOLATION property=%s replay=%s\n", indent(v.Message), v.Part, v.Case, ck.ID, path)
			writeCrashEvidence(ck, dir)
			return 1
		}
	}
	if strings.Contains(out+out2, "fatal error: concurrent map") {
		// Objects that the cases do not share have shared something. One case
		// at a time decides the property, unless it is about that.
		fmt.Println("no single case reproduces it; repeating with one case at a time")
		_, code3 := runChild(os.Args[1:], "VERIF_WORKERS=1")
		if code3 == 0 && ck.Sharing {
			v := Violation{Property: ck.ID, Part: "all", Case: json.RawMessage("null"), Message: "objects that are used by different goroutines write to the same map: " + oneLine(out2)}
			path := writeReplay(dir, v, 0)
			fmt.Printf("%s\nVIOLATION property=%s replay=%s\n", indent(v.Message), ck.ID, path)
			writeCrashEvidence(ck, dir)
			return 1
		}
		if code3 == 0 || code3 == 1 {
			return code3
		}
	}
	fmt.Fprintf(os.Stderr, "the explorer crashed and no single case reproduces it:\n%s\n", out2)
	return 2
}

func writeCrashEvidence(ck *Check, dir string) {
	os.MkdirAll(filepath.Join(dir, "evidence"), 0o755)
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	b, _ := json.Marshal(map[string]any{"property": ck.ID, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]any{"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []any{}, "exhaustive": false,
			"notes": []string{"the process crashed on the reported case"}}, "assumptions": []string{}, "wall_s": 0, "violations": 1})
	os.WriteFile(filepath.Join(dir, "evidence", ck.ID+".json"), b, 0o644)
}
