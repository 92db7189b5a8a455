package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"strconv"
	"strings"
	"time"
)

// check is one property's monitor and workload.
type check struct {
	level  string
	rule   string
	assume []string
	// minimum observation counts; a run below them observed too little and is inconclusive (exit 2)
	floors map[string]int64
	run    func(r *Run)
}

var checks = map[string]check{}

// A run is a supervisor and a child. The child drives the real code under the monitors; if it
// dies (fatal error, stack overflow, out of memory) the supervisor still reports.
func main() {
	prop := flag.String("prop", "", "property id")
	child := flag.Bool("child", false, "")
	out := flag.String("out", "/verif/evidence", "")
	scratch := flag.String("scratch", "", "")
	only := flag.Int("case", -1, "run only this case")
	wall := flag.Float64("wall", 0, "seconds already spent building")
	flag.Parse()
	c, ok := checks[*prop]
	if !ok {
		fmt.Println("unknown property", *prop)
		os.Exit(2)
	}
	seed, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	r := &Run{Prop: *prop, Tier: tier, Seed: seed, OutDir: *out, Scratch: *scratch, Level: c.level,
		counts: map[string]int64{}, distinct: map[uint64]struct{}{}, start: time.Now(), rule: c.rule, assume: c.assume, wall: *wall}
	onlyCase = *only
	if r.Scratch == "" {
		d, err := os.MkdirTemp("", "zcheck")
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		r.Scratch = d
		defer os.RemoveAll(d)
	}
	if !*child {
		code := supervise(r)
		if *scratch == "" {
			os.RemoveAll(r.Scratch)
		}
		os.Exit(code)
	}

	debug.SetMaxStack(700 << 20)
	r.crumbs, _ = os.OpenFile(filepath.Join(r.Scratch, "crumbs"), os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0o644)
	finish := func() {
		r.writeEvidence()
		r.report()
	}
	r.watchdog(finish)
	c.run(r)
	r.writeEvidence()
	code := r.report()
	if code == 0 && onlyCase < 0 {
		for k, min := range c.floors {
			if r.counts[k] < min {
				fmt.Printf("inconclusive: observed only %d of %s (needs %d)\n", r.counts[k], k, min)
				code = 2
			}
		}
	}
	for _, b := range r.broken {
		fmt.Printf("inconclusive: the harness failed: %s\n", trunc(b, 3000))
		if code == 0 {
			code = 2
		}
	}
	keys, _ := json.Marshal(r.counts)
	fmt.Printf("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1fs, observed %s\n", r.Prop, r.Tier, r.Seed, r.cases, len(r.distinct), time.Since(r.start).Seconds(), keys)
	os.Exit(code)
}

func supervise(r *Run) int {
	args := append([]string{"-child", "-scratch", r.Scratch}, os.Args[1:]...)
	cmd := exec.Command(os.Args[0], args...)
	var stderr bytes.Buffer
	cmd.Stdout = os.Stdout
	cmd.Stderr = &tailWriter{b: &stderr, max: 4 << 20}
	cmd.Env = os.Environ()
	if raceEnabled {
		cmd.Env = append(cmd.Env, "GORACE=log_path="+filepath.Join(r.Scratch, "race")+" exitcode=0 halt_on_error=0 history_size=4")
	}
	err := cmd.Run()
	code := cmd.ProcessState.ExitCode()
	if err == nil || code == 1 || code == 2 && !strings.Contains(stderr.String(), "goroutine ") && !strings.Contains(stderr.String(), "fatal error") {
		if code != 0 {
			os.Stderr.WriteString(trunc(stderr.String(), 4000))
		}
		return code
	}
	// The child died: the code under test took the process down.
	var names []string
	crumbs := readCrumbs(filepath.Join(r.Scratch, "crumbs"))
	for _, c := range crumbs {
		names = append(names, strconv.Itoa(c))
	}
	v := Violation{What: fmt.Sprintf("the process running the library died (%v) while running case(s) %s\n%s", err, strings.Join(names, ", "), trunc(stderr.String(), 6000))}
	if len(crumbs) > 0 {
		v.Case = crumbs[0]
	}
	r.violate(v)
	r.writeEvidence()
	return r.report()
}

type tailWriter struct {
	b   *bytes.Buffer
	max int
}

func (w *tailWriter) Write(p []byte) (int, error) {
	if w.b.Len() < w.max {
		w.b.Write(p)
	}
	return len(p), nil
}
