package main

import (
	"context"
	"fmt"
	"runtime/debug"
	"sync"
	"sync/atomic"
	"time"

	"google.golang.org/protobuf/proto"

	zanzi "github.com/sourcenetwork/zanzi"
	"github.com/sourcenetwork/zanzi/pkg/api"
	"github.com/sourcenetwork/zanzi/pkg/types"
)

func init() {
	checks["C27"] = check{level: "fault_enumeration",
		rule: "On generated states, each of the fourteen operations is called with a context that is done before the call, becomes done at a chosen store call (before or after it, enumerated up to a cap), at the n-th time the context is asked, or after a short time while the store is slow; embedded and, through a client which gives up, over gRPC. An error is accepted, an answer has to be the one without cancellation; after a failed change everything it is not about is as before, and the operation repeated with a fresh context on the same instance is carried out completely. Contexts which carry values or deadlines and do not become done during the call, or only after it, must not change anything. Non-trivial: the context became done inside the operation; distinct by request and point.",
		floors: map[string]int64{"done before the call": 3000, "done at a store call": 10000, "done when asked": 3000, "timed out": 150, "not done": 3000, "done after the call": 3000,
			"gRPC calls given up": 100, "repeated after an error": 50},
		run: func(r *Run) {
			r.Cases(0, r.n(1500, 20000), c27)
			r.CasesW(1000000, r.n(90, 1200), 8, c27remote)
		}}
}

// askedCtx becomes done at the n-th time it is asked.
type askedCtx struct {
	context.Context
	left atomic.Int64
	once sync.Once
	done chan struct{}
	dead atomic.Bool
}

func newAsked(n int) *askedCtx {
	c := &askedCtx{Context: context.Background(), done: make(chan struct{})}
	c.left.Store(int64(n))
	return c
}

func (c *askedCtx) ask() {
	if c.left.Add(-1) <= 0 {
		c.trip()
	}
}

func (c *askedCtx) trip() {
	c.once.Do(func() { c.dead.Store(true); close(c.done) })
}

func (c *askedCtx) Done() <-chan struct{} { c.ask(); return c.done }
func (c *askedCtx) Err() error {
	c.ask()
	if c.dead.Load() {
		return context.Canceled
	}
	return nil
}

type ctxKey struct{}

var c27ops = []string{"create", "update", "delpol", "getpol", "list", "set", "set", "del", "get", "find", "delmany", "check", "check", "explain", "expand", "dump"}

func c27state(t *T) (*mapKV, *World, *Hist) {
	kv, w, h := populate(t, t.Chance(35), 15+t.Intn(25))
	h.junkPct = 3
	return kv, w, h
}

func c27request(t *T, w *World, h *Hist, op string) proto.Message {
	if t.Chance(50) {
		return aimed(t, w, op)
	}
	return h.make(op)
}

func c27(t *T) {
	kv, w, h := c27state(t)
	if len(w.pols) == 0 {
		return
	}
	for _, op := range c27ops {
		if t.Chance(30) {
			continue
		}
		req := c27request(t, w, h, op)
		w1 := w.clone()
		exp := w1.Apply(req)
		if exp.err == errAny || exp.err == errMay {
			continue
		}
		// the plain run
		points := 0
		func() {
			g := &gateKV{KVStore: kv.clone()}
			s := c27instance(t, g)
			var n atomic.Int64
			g.hook = func() { n.Add(1) }
			resp, err := s.Do(t, proto.Clone(req))
			judge(t, req, resp, err, exp)
			points = int(n.Load())
		}()
		t.Log("%s (%d points)", show(req), points)
		c27run(t, kv, w, w1, req, exp, "done before the call", func(g *gateKV) (context.Context, func()) {
			if t.Chance(50) {
				ctx, cancel := context.WithDeadline(context.Background(), time.Now().Add(-time.Second))
				return ctx, cancel
			}
			ctx, cancel := context.WithCancel(context.Background())
			cancel()
			return ctx, cancel
		})
		ks := make([]int, points)
		for i := range ks {
			ks[i] = i + 1
		}
		if len(ks) > 8 {
			ks = shuffled(t, ks)[:8]
		}
		for _, k := range ks {
			c27run(t, kv, w, w1, req, exp, "done at a store call", func(g *gateKV) (context.Context, func()) {
				ctx, cancel := context.WithCancel(context.Background())
				var n atomic.Int64
				g.hook = func() {
					if n.Add(1) == int64(k) {
						cancel()
					}
				}
				return ctx, cancel
			})
			t.Nontrivial(fmt.Sprintf("%s %d", show(req), k))
		}
		c27run(t, kv, w, w1, req, exp, "done when asked", func(g *gateKV) (context.Context, func()) {
			c := newAsked(1 + t.Intn(6))
			return c, c.trip
		})
		c27run(t, kv, w, w1, req, exp, "not done", func(g *gateKV) (context.Context, func()) {
			ctx := context.WithValue(context.Background(), ctxKey{}, "policy")
			return context.WithDeadline(ctx, time.Now().Add(time.Hour))
		})
		c27run(t, kv, w, w1, req, exp, "done after the call", func(g *gateKV) (context.Context, func()) {
			return context.WithCancel(context.Background())
		})
		if t.Chance(8) {
			c27run(t, kv, w, w1, req, exp, "timed out", func(g *gateKV) (context.Context, func()) {
				g.hook = func() { time.Sleep(100 * time.Microsecond) }
				return context.WithTimeout(context.Background(), time.Duration(100+t.Intn(1500))*time.Microsecond)
			})
		}
	}
}

func c27instance(t *T, g *gateKV) *embedded {
	z, err := zanzi.New(zanzi.WithLogger(&types.NoopLogger{}), zanzi.WithKVStore(g))
	if err != nil {
		t.Failf("zanzi.New: %v", err)
	}
	return fromZanzi(z)
}

func c27run(t *T, kv *mapKV, w, w1 *World, req proto.Message, exp Exp, mode string, mk func(g *gateKV) (context.Context, func())) {
	g := &gateKV{KVStore: kv.clone()}
	s := c27instance(t, g)
	if t.Chance(20) { // not the first call of the instance
		s.Do(t, proto.Clone(&api.ListPolicyIdsRequest{}))
		if isRead(req) {
			s.Do(t, proto.Clone(req))
		}
	}
	ctx, cancel := mk(g)
	resp, err := s.doCtx(t, ctx, proto.Clone(req))
	g.hook = nil
	cancel()
	noPanic(t, req, err)
	t.Count(mode, 1)
	c27judge(t, s, w, w1, req, resp, err, exp, mode)
}

func c27judge(t *T, s Svc, w, w1 *World, req, resp proto.Message, err error, exp Exp, mode string) {
	when := fmt.Sprintf("with a context %s", mode)
	harmless := mode == "not done" || mode == "done after the call"
	if err == nil || harmless {
		if err != nil && exp.err != errMust {
			t.Failf("%s fails %s: %v\nrequest: %s", opName(req), when, err, show(req))
		}
		if err == nil {
			if exp.err == errMust {
				t.Failf("%s succeeded %s where it must be refused (%s)\nrequest: %s", opName(req), when, exp.why, show(req))
			}
			c, cerr := canon(req, resp)
			if cerr != nil {
				t.Failf("%s answered malformed %s: %v\nrequest: %s", opName(req), when, cerr, show(req))
			}
			if !exp.skip && c != exp.canon {
				t.Failf("%s answered wrong %s\nrequest: %s\nexpected: %s\n     got: %s", opName(req), when, show(req), trunc(exp.canon, 2000), trunc(c, 2000))
			}
		}
		if !isRead(req) || t.Chance(10) {
			sweep(t, s, w1)
		}
		return
	}
	t.Count("answered by an error", 1)
	if exp.err == errMust {
		if !isRead(req) {
			sweep(t, s, w)
		}
		return
	}
	if !isRead(req) {
		intact(t, s, w, req, when)
	}
	resp, err = s.Do(t, proto.Clone(req))
	noPanic(t, req, err)
	t.Count("repeated after an error", 1)
	if err != nil {
		if _, create := req.(*api.CreatePolicyRequest); !create { // it may have been carried out
			t.Failf("%s fails when repeated with a fresh context, after a call %s: %v\nrequest: %s", opName(req), when, err, show(req))
		}
	}
	if isRead(req) {
		if c, _ := canon(req, resp); !exp.skip && c != exp.canon {
			t.Failf("%s repeated with a fresh context answers wrong, after a call %s\nrequest: %s\nexpected: %s\n     got: %s", opName(req), when, show(req), trunc(exp.canon, 2000), trunc(c, 2000))
		}
		return
	}
	sweep(t, s, w1)
}

// doCtx is Do with a context.
func (e *embedded) doCtx(t *T, ctx context.Context, req proto.Message) (resp proto.Message, err error) {
	c := enter(t, opName(req))
	defer leave(c)
	defer func() {
		if p := recover(); p != nil {
			resp, err = nil, &opPanic{p, trunc(string(debug.Stack()), 6000)}
		}
	}()
	return e.dispatch(ctx, req)
}

// c27remote: a client gives up while the server is at work.
func c27remote(t *T) {
	kv, w, h := c27state(t)
	if len(w.pols) == 0 {
		return
	}
	g := &gateKV{KVStore: kv.clone()}
	addr, err := startServer(g)
	if err != nil {
		panic("harness: cannot serve: " + err.Error())
	}
	cl, err := dialRemote(addr)
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer cl.conn.Close()
	sweep(t, cl, w)
	for _, op := range shuffled(t, c27ops)[:8] {
		req := c27request(t, w, h, op)
		w1 := w.clone()
		exp := w1.Apply(req)
		if exp.err == errAny || exp.err == errMay {
			continue
		}
		ctx, cancel := context.WithCancel(context.Background())
		var n atomic.Int64
		at := int64(1 + t.Intn(10))
		hook := func() {
			if n.Add(1) == at {
				cancel()
				time.Sleep(3 * time.Millisecond) // let the server hear of it
			}
		}
		g.hookP.Store(&hook)
		c := enter(t, "grpc "+opName(req))
		resp, err := cl.dispatch(ctx, proto.Clone(req))
		leave(c)
		cancel()
		// the server may still be at work: wait until it has been quiet for a while
		for last, still := n.Load(), 0; still < 5; {
			time.Sleep(2 * time.Millisecond)
			if x := n.Load(); x != last {
				last, still = x, 0
			} else {
				still++
			}
		}
		g.hookP.Store(nil)
		if err != nil && exp.err != errMust {
			t.Count("gRPC calls given up", 1)
		}
		t.Log("%s given up at point %d: %v", show(req), at, err)
		c27judge(t, cl, w, w1, req, resp, err, exp, "given up by a gRPC client")
		if exp.err == errNever && !isRead(req) {
			w = w1
			h.w = w
		}
	}
	sweep(t, cl, w)
}
