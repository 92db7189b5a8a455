package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// ---------------------------------------------------------------- run context

type Run struct {
	Prop    string
	Tier    string
	Seed    int64
	OutDir  string // evidence directory
	Scratch string // scratch directory, removed by the wrapper
	Level   string

	mu       sync.Mutex
	counts   map[string]int64
	distinct map[uint64]struct{}
	samples  []any
	viol     []Violation
	cases    int64
	start    time.Time
	inflight []atomic.Int64 // current case per worker, +1
	crumbs   *os.File
	rule     string
	assume   []string
	wall     float64
	broken   []string // failures of the harness itself
}

type Violation struct {
	Property string   `json:"property"`
	Tier     string   `json:"tier"`
	Seed     int64    `json:"seed"`
	Case     int      `json:"case"`
	What     string   `json:"what"`
	Trace    []string `json:"trace,omitempty"`
	Replay   string   `json:"replay_cmd,omitempty"`
}

func (r *Run) thorough() bool { return r.Tier == "thorough" }

// n picks the number of cases of this tier.
func (r *Run) n(quick, thorough int) int {
	if r.thorough() {
		return thorough
	}
	if pct, err := strconv.Atoi(os.Getenv("ZVERIF_SCALE")); err == nil { // for experiments
		return max(1, quick*pct/100)
	}
	return quick
}

func (r *Run) count(k string, n int) {
	r.mu.Lock()
	r.counts[k] += int64(n)
	r.mu.Unlock()
}

// T is the context of one case.
type T struct {
	run   *Run
	idx   int
	rng   *rand.Rand
	trace []string
	cnt   map[string]int
	sig   uint64
	nontr bool
	samp  any
}

type caseFailure struct{ what string }

func (t *T) Failf(f string, a ...any) { panic(caseFailure{fmt.Sprintf(f, a...)}) }

func (t *T) Log(f string, a ...any) {
	if len(t.trace) < 4000 {
		t.trace = append(t.trace, trunc(fmt.Sprintf(f, a...), 1200))
	}
}

func (t *T) Count(k string, n int) { t.cnt[k] += n }

// Nontrivial marks the case as non-trivial, with a signature used to count distinct ones.
func (t *T) Nontrivial(sig string) {
	h := fnv.New64a()
	var b [8]byte
	binary.LittleEndian.PutUint64(b[:], t.sig)
	h.Write(b[:])
	h.Write([]byte(sig))
	t.sig = h.Sum64()
	t.nontr = true
}

func (t *T) Sample(v any) { t.samp = v }

func (t *T) Intn(n int) int      { return t.rng.Intn(n) }
func (t *T) Chance(pct int) bool { return t.rng.Intn(100) < pct }
func pick[V any](t *T, vs []V) V { return vs[t.rng.Intn(len(vs))] }
func shuffled[V any](t *T, vs []V) []V {
	c := append([]V(nil), vs...)
	t.rng.Shuffle(len(c), func(i, j int) { c[i], c[j] = c[j], c[i] })
	return c
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + fmt.Sprintf("...(+%d bytes)", len(s)-n)
	}
	return s
}

func caseSeed(prop string, seed int64, idx int) int64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%d/%d", prop, seed, idx)
	return int64(h.Sum64() >> 1)
}

// ---------------------------------------------------------------- case pool

// Cases runs n cases of f on all cores. base keeps case numbers of several pools apart.
func (r *Run) Cases(base, n int, f func(t *T)) { r.CasesW(base, n, runtime.NumCPU(), f) }

func (r *Run) CasesW(base, n, workers int, f func(t *T)) {
	if os.Getenv("ZVERIF_BASE") != "" && os.Getenv("ZVERIF_BASE") != strconv.Itoa(base) { // for experiments
		return
	}
	if only := onlyCase; only >= 0 {
		if only < base || only >= base+n {
			return
		}
		r.one(0, only, f)
		return
	}
	if workers > n {
		workers = n
	}
	var next atomic.Int64
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for {
				i := int(next.Add(1) - 1)
				if i >= n || r.stopped() {
					return
				}
				r.one(w, base+i, f)
			}
		}(w)
	}
	wg.Wait()
}

var onlyCase = -1

func (r *Run) stopped() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.viol) >= 5 || len(r.broken) >= 3
}

func (r *Run) one(w, idx int, f func(t *T)) {
	t := &T{run: r, idx: idx, rng: rand.New(rand.NewSource(caseSeed(r.Prop, r.Seed, idx))), cnt: map[string]int{}}
	r.crumb(w, idx)
	defer r.crumb(w, -1)
	if slow, err := time.ParseDuration(os.Getenv("ZVERIF_SLOW")); err == nil { // for experiments
		start := time.Now()
		defer func() {
			if d := time.Since(start); d > slow {
				fmt.Fprintf(os.Stderr, "case %d took %v: %v\n", idx, d, t.samp)
			}
		}()
	}
	defer func() {
		if p := recover(); p != nil {
			what := ""
			if cf, ok := p.(caseFailure); ok {
				what = cf.what
			} else {
				st := string(debug.Stack())
				what = fmt.Sprintf("panic: %v\n%s", p, trunc(st, 4000))
				if !libraryFrame(st) {
					r.mu.Lock()
					r.broken = append(r.broken, fmt.Sprintf("case %d: %s", idx, what))
					r.mu.Unlock()
					what = ""
				}
			}
			if what != "" {
				r.violate(Violation{Case: idx, What: what, Trace: t.trace})
			}
		}
		r.mu.Lock()
		r.cases++
		for k, v := range t.cnt {
			r.counts[k] += int64(v)
		}
		if t.nontr {
			r.distinct[t.sig] = struct{}{}
		}
		if t.samp != nil && len(r.samples) < 4 {
			r.samples = append(r.samples, t.samp)
		}
		r.mu.Unlock()
	}()
	f(t)
}

// libraryFrame tells whether the innermost frames of a panic belong to the code under test.
func libraryFrame(stack string) bool {
	i := strings.LastIndex(stack, "panic(")
	if i < 0 {
		return false
	}
	for _, l := range strings.Split(stack[i:], "\n")[2:] {
		if strings.HasPrefix(l, "\t") || strings.HasPrefix(l, "runtime.") {
			continue
		}
		if strings.HasPrefix(l, "main.") {
			return false
		}
		if strings.HasPrefix(l, "github.com/sourcenetwork/zanzi") {
			return true
		}
	}
	return false
}

func (r *Run) violate(v Violation) {
	v.Property, v.Tier, v.Seed = r.Prop, r.Tier, r.Seed
	r.mu.Lock()
	defer r.mu.Unlock()
	r.viol = append(r.viol, v)
}

// crumb leaves the case number a worker is running in a file, so that the
// supervisor can name it if the process dies.
func (r *Run) crumb(w, idx int) {
	if r.crumbs == nil {
		return
	}
	var b [8]byte
	binary.LittleEndian.PutUint64(b[:], uint64(int64(idx+1)))
	r.crumbs.WriteAt(b[:], int64(w)*8)
}

func readCrumbs(path string) []int {
	b, _ := os.ReadFile(path)
	var out []int
	for i := 0; i+8 <= len(b); i += 8 {
		v := int64(binary.LittleEndian.Uint64(b[i:]))
		if v > 0 {
			out = append(out, int(v-1))
		}
	}
	return out
}

// ---------------------------------------------------------------- watchdogs

type inflightCall struct {
	name  string
	since time.Time
	t     *T
}

var (
	callsMu sync.Mutex
	calls   = map[*inflightCall]struct{}{}
)

func enter(t *T, name string) *inflightCall {
	c := &inflightCall{name: name, since: time.Now(), t: t}
	callsMu.Lock()
	calls[c] = struct{}{}
	callsMu.Unlock()
	return c
}

func leave(c *inflightCall) {
	callsMu.Lock()
	delete(calls, c)
	callsMu.Unlock()
}

// hangLimit is the wall clock after which a call that normally takes milliseconds counts as
// not returning.
const hangLimit = 100 * time.Second
const heapLimit = 10 << 30

func (r *Run) watchdog(finish func()) {
	go func() {
		for {
			time.Sleep(250 * time.Millisecond)
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			var worst *inflightCall
			callsMu.Lock()
			for c := range calls {
				if worst == nil || c.since.Before(worst.since) {
					worst = c
				}
			}
			callsMu.Unlock()
			if worst == nil {
				continue
			}
			age := time.Since(worst.since)
			why := ""
			if age > hangLimit {
				why = fmt.Sprintf("call %s did not return within %v", worst.name, hangLimit)
			} else if ms.HeapAlloc > heapLimit && age > 3*time.Second {
				why = fmt.Sprintf("call %s is still running after %v and the heap grew beyond %d GB", worst.name, age.Round(time.Second), heapLimit>>30)
			}
			if why == "" {
				continue
			}
			buf := make([]byte, 1<<20)
			n := runtime.Stack(buf, true)
			v := Violation{What: why + "\n" + trunc(string(buf[:n]), 12000)}
			if worst.t != nil {
				v.Case = worst.t.idx
				v.Trace = append([]string(nil), worst.t.trace...)
			}
			r.violate(v)
			finish()
			os.Exit(1)
		}
	}()
}

// ---------------------------------------------------------------- evidence

func (r *Run) writeEvidence() {
	r.mu.Lock()
	defer r.mu.Unlock()
	cov := map[string]any{
		"evaluations":         r.cases,
		"distinct_nontrivial": len(r.distinct),
		"rule":                r.rule,
		"samples":             r.samples,
	}
	keys := make([]string, 0, len(r.counts))
	for k := range r.counts {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	obs := map[string]int64{}
	for _, k := range keys {
		obs[k] = r.counts[k]
	}
	cov["observed"] = obs
	if r.samples == nil {
		cov["samples"] = []any{}
	}
	ev := map[string]any{
		"property": r.Prop, "tier": r.Tier, "seed": r.Seed, "level": r.Level,
		"coverage": cov, "wall_s": time.Since(r.start).Seconds() + r.wall,
		"violations": len(r.viol), "assumptions": r.assume,
	}
	if r.assume == nil {
		delete(ev, "assumptions")
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(r.OutDir, 0o755)
	os.WriteFile(filepath.Join(r.OutDir, r.Prop+".json"), append(b, '\n'), 0o644)
}

// report writes the replay files, prints the VIOLATION lines and returns the exit code.
func (r *Run) report() int {
	r.mu.Lock()
	viol := append([]Violation(nil), r.viol...)
	r.mu.Unlock()
	for i, v := range viol {
		dir := filepath.Join(r.OutDir, "replay")
		os.MkdirAll(dir, 0o755)
		p := filepath.Join(dir, fmt.Sprintf("%s-%d.json", v.Property, i))
		v.Replay = fmt.Sprintf("VERIF_SEED=%d VERIF_TIER=%s bash /verif/run.sh %s --case %d", v.Seed, v.Tier, v.Property, v.Case)
		b, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(p, append(b, '\n'), 0o644)
		fmt.Printf("%s\n", trunc(firstLines(v.What, 12), 2000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", v.Property, p)
	}
	if len(viol) > 0 {
		return 1
	}
	return 0
}

func firstLines(s string, n int) string {
	l := strings.SplitN(s, "\n", n+1)
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

func newRng(seed int64) *rand.Rand { return rand.New(rand.NewSource(seed)) }
