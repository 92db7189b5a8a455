package main

import (
	"context"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	rcdb "github.com/sourcenetwork/raccoondb"
	"google.golang.org/protobuf/proto"

	zanzi "github.com/sourcenetwork/zanzi"
	"github.com/sourcenetwork/zanzi/pkg/api"
)

func init() {
	checks["C21"] = check{level: "exploration",
		rule:   "A case is one instance used by 4 to 10 callers at the same time under the Go race detector, 12 to 40 operations each of all fourteen kinds, half of the requests being message objects shared by all callers, a fifth of the cases partly over gRPC, some callers cancelling their contexts, some cases with failing stores. Callers re-read their earlier answers and scribble over their own requests after each call. After the callers return, the goroutines of the process and the open store iterators are counted. Non-trivial: at least two callers overlapped with a write; distinct by the order in which operations were entered and left.",
		floors: map[string]int64{"operations under the race detector": 20000, "overlapping pairs with a write": 20000, "operations on shared messages": 5000, "gRPC operations": 1000, "goroutine censuses": 50},
		assume: []string{"The race detector reports conflicting accesses of the executions observed; accesses that were never executed are not judged."},
		run: func(r *Run) {
			if !raceEnabled {
				r.broken = append(r.broken, "the harness was built without the race detector")
				return
			}
			n := r.n(700, 14000)
			batch := 50
			for b := 0; b < n; b += batch {
				r.CasesW(b, min(batch, n-b), 6, func(t *T) { c21(t, false) })
				r.races(b)
				if r.stopped() {
					return
				}
			}
			// One case at a time, with a census of goroutines before and after.
			m := r.n(80, 1500)
			r.CasesW(1000000, m, 1, func(t *T) { c21(t, true) })
			r.races(1000000)
		}}
}

// harnessAccess matches a report one of whose accesses is made by a function of the harness.
var harnessAccess = regexp.MustCompile(`(?m)^(Write|Read|Previous write|Previous read|Atomic \w+|Previous atomic \w+) (at|of) .*\n\s+main\.`)

// races turns the reports of the race detector so far into violations.
func (r *Run) races(base int) {
	b, _ := os.ReadFile(filepath.Join(r.Scratch, fmt.Sprintf("race.%d", os.Getpid())))
	seen := map[string]bool{}
	for _, rep := range strings.Split(string(b), "==================") {
		if !strings.Contains(rep, "WARNING: DATA RACE") || r.stopped() {
			continue
		}
		if !strings.Contains(rep, "github.com/sourcenetwork/zanzi") || harnessAccess.MatchString(strings.ReplaceAll(rep, "main.scribble", "scribble")) {
			r.mu.Lock()
			r.broken = append(r.broken, "race outside the library: "+trunc(rep, 3000))
			r.mu.Unlock()
			continue
		}
		key := regexp.MustCompile(`0x[0-9a-f]+|goroutine \d+|\+0x\w+`).ReplaceAllString(rep, "")
		if seen[key] || len(seen) >= 3 {
			continue
		}
		seen[key] = true
		r.violate(Violation{Case: max(base, onlyCase), What: "the race detector reported\n" + trunc(strings.TrimSpace(rep), 6000)})
	}
}

var goroutineHead = regexp.MustCompile(`^goroutine (\d+) `)

// libraryGoroutines returns the goroutines that run, or were started by, code of the library,
// apart from those of a running server.
func libraryGoroutines() map[int]string {
	buf := make([]byte, 8<<20)
	out := map[int]string{}
	for _, g := range strings.Split(string(buf[:runtime.Stack(buf, true)]), "\n\n") {
		m := goroutineHead.FindStringSubmatch(g)
		if m == nil || !strings.Contains(g, "github.com/sourcenetwork/zanzi") || strings.Contains(g, "created by main.serve") {
			continue
		}
		id, _ := strconv.Atoi(m[1])
		out[id] = g
	}
	return out
}

func c21(t *T, census bool) {
	var base rcdb.KVStore = newMapKV()
	if t.Chance(60) {
		base = rcdb.NewMemKV()
	}
	m := &monKV{base: base}
	z, err := zanzi.New(zanzi.WithLogger(logger(t, 30)), zanzi.WithKVStore(m))
	if err != nil {
		t.Failf("zanzi.New: %v", err)
	}
	s := fromZanzi(z)
	var rem *remote
	if t.Chance(20) {
		addr, err := serve(z)
		if err != nil {
			t.Failf("server: %v", err)
		}
		rem, err = dialRemote(addr)
		if err != nil {
			t.Failf("dial: %v", err)
		}
		defer rem.conn.Close()
		if _, err := rem.Do(t, &api.ListPolicyIdsRequest{}); err != nil {
			t.Failf("the server does not answer: %v", err)
		}
	}

	w := newWorld()
	h := newHist(t, w, t.Chance(20), allWeights)
	if t.Chance(50) {
		h.junkPct = 0
	}
	for i := 15 + t.Intn(25); i > 0; i-- {
		step(t, s, w, h.next())
	}
	if t.Chance(40) { // mostly reads, so that evaluations meet
		h = newHist(t, w, false, map[string]int{"check": 20, "explain": 8, "expand": 8, "dump": 6, "find": 10, "getpol": 4, "get": 6, "list": 4, "set": 4, "del": 2})
		h.polIds = w.ids()
		if len(h.polIds) == 0 {
			h.polIds = []string{"p1"}
		}
	}
	var shared []proto.Message
	for i := 0; i < 12; i++ {
		shared = append(shared, h.next())
	}
	if t.Chance(40) {
		shared = append(shared, h.make("badpol"), h.make("badpol"))
	}
	callers := 4 + t.Intn(7)
	type call struct {
		req    proto.Message
		own    bool
		remote bool
		cancel int // 0 no, 1 before, 2 during
	}
	lists := make([][]call, callers)
	nShared, nRemote := 0, 0
	for i := range lists {
		for n := 12 + t.Intn(29); n > 0; n-- {
			c := call{req: pick(t, shared), remote: rem != nil && t.Chance(50)}
			if t.Chance(50) {
				c.req, c.own = h.next(), true
			} else {
				nShared++
			}
			if t.Chance(6) {
				c.cancel = 1 + t.Intn(2)
			}
			if c.remote {
				nRemote++
			}
			lists[i] = append(lists[i], c)
		}
	}
	if t.Chance(70) {
		m.delay = jitter(caseSeed("jitter", t.run.Seed, t.idx), 5+t.Intn(20))
	}
	if t.Chance(15) {
		var k atomic.Uint64
		k.Store(uint64(t.Intn(1000)))
		m.fault = func(int64, kvEvent) faultKind {
			if k.Add(2654435761)%97 == 0 {
				return faultErr
			}
			return faultNone
		}
	}
	var before map[int]string
	if census {
		before = libraryGoroutines()
	}
	var clock atomic.Int64
	var mu sync.Mutex
	var all []*concOp
	var panics []string
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i, l := range lists {
		wg.Add(1)
		go func(i int, l []call) {
			defer wg.Done()
			<-start
			var got []proto.Message
			var texts [][]byte
			one := func(c call) (resp proto.Message, err error) {
				f := enter(t, opName(c.req))
				defer leave(f)
				defer func() {
					if p := recover(); p != nil {
						mu.Lock()
						panics = append(panics, fmt.Sprintf("%s panicked: %v\n%s", opName(c.req), p, trunc(string(debug.Stack()), 4000)))
						mu.Unlock()
						err = fmt.Errorf("panic")
					}
				}()
				ctx, cancel := context.WithCancel(context.Background())
				defer cancel()
				switch c.cancel {
				case 1:
					cancel()
				case 2:
					time.AfterFunc(time.Duration(i*37)*time.Microsecond, cancel)
				}
				if c.remote {
					return rem.dispatch(ctx, c.req)
				}
				return s.dispatch(ctx, c.req)
			}
			for _, c := range l {
				op := &concOp{req: c.req, by: i}
				op.call = clock.Add(1)
				op.resp, op.err = one(c)
				op.ret = clock.Add(1)
				op.out = strconv.FormatBool(op.err == nil)
				// the answer to a creation or update may share the caller's own policy message
				if op.err == nil && !sharesRequest(c.req) {
					b, _ := proto.MarshalOptions{Deterministic: true}.Marshal(op.resp)
					got, texts = append(got, op.resp), append(texts, b)
				}
				if len(got) > 3 { // an answer stays what it was
					k := (i + len(got)) % len(got)
					b, _ := proto.MarshalOptions{Deterministic: true}.Marshal(got[k])
					if string(b) != string(texts[k]) {
						mu.Lock()
						panics = append(panics, fmt.Sprintf("an answer changed after it was returned: %T", got[k]))
						mu.Unlock()
					}
				}
				if c.own { // the caller reuses its message once the call returned
					scribble(c.req)
				}
				op.req = &api.ListPolicyIdsRequest{}
				if !isRead(c.req) {
					op.req = &api.DeletePolicyRequest{}
				}
				mu.Lock()
				all = append(all, op)
				mu.Unlock()
			}
		}(i, l)
	}
	close(start)
	wg.Wait()
	// delay and fault stay set: a cancelled gRPC call may still be running in the server
	if len(panics) > 0 {
		t.Failf("%s", panics[0])
	}
	deadline := time.Now().Add(10 * time.Second)
	for m.openIters.Load() != 0 && time.Now().Before(deadline) {
		time.Sleep(5 * time.Millisecond) // a cancelled gRPC call may still be running in the server
	}
	if o := m.openIters.Load(); o != 0 {
		t.Failf("%d store iterators are open after all operations returned", o)
	}
	if census {
		for {
			var left []string
			for id, g := range libraryGoroutines() {
				if before[id] == "" && !strings.Contains(g, "sourcenetwork/zanzi/pkg/server") {
					left = append(left, g)
				}
			}
			if len(left) == 0 {
				break
			}
			if time.Now().After(deadline) {
				t.Failf("%d goroutines of the library are still running 10 s after all calls returned, for example\n%s", len(left), trunc(left[0], 3000))
			}
			time.Sleep(5 * time.Millisecond)
		}
		t.Count("goroutine censuses", 1)
	}
	noteOverlap(t, all)
	t.Count("operations under the race detector", len(all))
	t.Count("operations on shared messages", nShared)
	t.Count("gRPC operations", nRemote)
	t.Count("store calls", int(m.events.Load()))
	if t.idx%100 == 0 {
		t.Sample(map[string]any{"callers": callers, "operations": len(all), "shared": nShared, "grpc": nRemote})
	}
}

func sharesRequest(m proto.Message) bool {
	switch m.(type) {
	case *api.CreatePolicyRequest, *api.UpdatePolicyRequest, *api.SetRelationshipRequest:
		return true
	}
	return false
}
