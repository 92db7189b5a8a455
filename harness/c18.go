package main

import (
	"bytes"
	"context"
	"fmt"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"

	rcdb "github.com/sourcenetwork/raccoondb"
	zanzi "github.com/sourcenetwork/zanzi"
	"github.com/sourcenetwork/zanzi/pkg/api"
	"github.com/sourcenetwork/zanzi/pkg/types"
)

func init() {
	checks["C18"] = check{level: "exploration",
		rule:   "A case starts the real zanzid binary on a scratch data directory and a loopback port, lets several clients issue writes (each on its own policies, every acknowledged response compared with the model), kills the process with SIGKILL at a random moment, restarts it on the same directory and compares everything through get, find, list and check with the acknowledged state; the at most one request in flight per client may or may not have taken effect and is repeated. Up to four kill/restart rounds per case. Non-trivial: a kill found at least ten acknowledged writes and a request in flight; distinct by case. ",
		floors: map[string]int64{"kills": 60, "acknowledged writes": 5000, "kills with requests in flight": 20, "records compared after restart": 3000},
		run:    func(r *Run) { r.CasesW(0, r.n(180, 1500), 6, c18) }}
	checks["C19"] = check{level: "exploration",
		rule:   histRule + "The same history is issued to four instances (embedded on the in-memory store, embedded on the on-disk store, and the repository's gRPC server over the in-memory and over the on-disk store) and every answer compared: failure exactly together, equal data on success, and all four agree with the model. Requests include malformed ones and all operations and formats. Non-trivial: all fourteen operations were answered successfully in the case; distinct by final state.",
		floors: map[string]int64{"answers compared": 15000, "failures compared": 1000, "cases with all fourteen operations": 40, "large requests": 100},
		run:    func(r *Run) { r.CasesW(0, r.n(1200, 16000), 8, c19) }}
}

type daemon struct {
	cmd  *exec.Cmd
	addr string
	out  *bytes.Buffer
	done chan struct{}
}

func zanzidPath(r *Run) string { return filepath.Join(filepath.Dir(r.Scratch), "zanzid") }

var daemonSeq atomic.Uint32

// daemonAddr is a loopback address no other daemon of this run has used or will use, on a port the
// kernel gives to no outgoing connection: a daemon killed here must not be mistaken for another.
func daemonAddr() string {
	for try := 0; try < 1000; try++ {
		n := daemonSeq.Add(1)
		port := 10000 + (uint32(os.Getpid())*131+n*7)%20000
		for _, ip := range []string{fmt.Sprintf("127.%d.%d.%d", 1+os.Getpid()%250, n>>8&255, n&255), "127.0.0.1"} {
			if l, err := net.Listen("tcp", fmt.Sprintf("%s:%d", ip, port)); err == nil {
				l.Close()
				return fmt.Sprintf("%s:%d", ip, port)
			}
		}
	}
	panic("harness: no loopback port")
}

// startDaemon runs zanzid on a data directory. The port is chosen by us; a start that finds it
// taken is repeated.
func startDaemon(t *T, dir string) *daemon {
	for try := 0; try < 10; try++ {
		addr := daemonAddr()
		d := &daemon{addr: addr, out: &bytes.Buffer{}, done: make(chan struct{})}
		d.cmd = exec.Command(zanzidPath(t.run), "--address", addr, "--data_dir", dir)
		d.cmd.Env = []string{"HOME=" + dir, "PATH=/usr/bin:/bin"}
		d.cmd.Dir = dir
		d.cmd.Stdout, d.cmd.Stderr = &tailWriter{d.out, 1 << 16}, &tailWriter{d.out, 1 << 16}
		d.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		if err := d.cmd.Start(); err != nil {
			panic("harness: cannot start zanzid: " + err.Error())
		}
		go func() { d.cmd.Wait(); close(d.done) }()
		deadline := time.Now().Add(60 * time.Second)
		for time.Now().Before(deadline) {
			select {
			case <-d.done:
				if strings.Contains(d.out.String(), "address already in use") {
					goto again
				}
				t.Failf("zanzid did not start on the data directory it was killed on: %s", trunc(d.out.String(), 3000))
			default:
			}
			c, err := net.DialTimeout("tcp", addr, time.Second)
			if err == nil {
				c.Close()
				select {
				case <-d.done:
					continue // not our daemon that answered
				default:
				}
				return d
			}
			time.Sleep(5 * time.Millisecond)
		}
		d.kill()
		t.Failf("zanzid did not start serving within a minute: %s", trunc(d.out.String(), 3000))
	again:
	}
	panic("harness: no free port")
}

func (d *daemon) kill() {
	d.cmd.Process.Kill()
	<-d.done
}

// transportErr tells a lost connection from an answer.
func transportErr(err error) bool {
	if err == nil {
		return false
	}
	c := status.Code(err)
	return c == codes.Unavailable || c == codes.Canceled || c == codes.DeadlineExceeded
}

type c18client struct {
	w        *World
	h        *Hist
	inflight proto.Message
	ids      []string
	fail     string
	acked    int
}

func c18(t *T) {
	dir, err := os.MkdirTemp(t.run.Scratch, "data")
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer os.RemoveAll(dir)
	nc := 1 + t.Intn(3)
	var cs []*c18client
	for i := 0; i < nc; i++ {
		w := newWorld()
		// the generator draws from its own source, clients run at the same time
		ct := &T{run: t.run, idx: t.idx, rng: newRng(caseSeed("client", t.run.Seed, t.idx*10+i)), cnt: map[string]int{}}
		h := newHist(ct, w, ct.Chance(40), map[string]int{"create": 5, "update": 3, "delpol": 2, "set": 50, "del": 10, "delmany": 2, "get": 2, "check": 3})
		h.polIds = []string{fmt.Sprintf("c%d", i), fmt.Sprintf("c%d/", i), fmt.Sprintf("c%d/x", i)}[:1+ct.Intn(3)]
		cs = append(cs, &c18client{w: w, h: h, ids: h.polIds})
	}
	rounds := 1 + t.Intn(4)
	for round := 0; round < rounds; round++ {
		d := startDaemon(t, dir)
		c18verify(t, d, cs)
		var wg sync.WaitGroup
		var stop atomic.Bool
		for _, c := range cs {
			wg.Add(1)
			go func(c *c18client) {
				defer wg.Done()
				cl, err := dialRemote(d.addr)
				if err != nil {
					c.fail = "harness: " + err.Error()
					return
				}
				defer cl.conn.Close()
				for !stop.Load() {
					req := c.h.next()
					w2 := c.w.clone()
					e := w2.Apply(req)
					if e.err == errAny {
						continue
					}
					c.inflight = req
					ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
					resp, err := cl.dispatch(ctx, req)
					cancel()
					if transportErr(err) {
						return // killed
					}
					c.inflight = nil
					out := "error"
					if err == nil {
						var cerr error
						if out, cerr = canon(req, resp); cerr != nil {
							out = "malformed: " + cerr.Error()
						}
					}
					if !agree(e, out) {
						c.fail = fmt.Sprintf("%s answered wrong before any kill was near\nrequest: %s\nexpected: %s %s\n     got: %s (%v)", opName(req), show(req), trunc(e.canon, 1000), e.why, trunc(out, 1000), err)
						return
					}
					if err == nil && !isRead(req) {
						c.acked++
					}
					c.w.pols = w2.pols
				}
			}(c)
		}
		time.Sleep(time.Duration(t.Intn(300)) * time.Millisecond)
		d.kill()
		stop.Store(true)
		wg.Wait()
		inflight, acked := 0, 0
		for _, c := range cs {
			if c.fail != "" {
				if strings.HasPrefix(c.fail, "harness") {
					panic(c.fail)
				}
				t.Failf("%s", c.fail)
			}
			if c.inflight != nil && !isRead(c.inflight) {
				inflight++
				t.Log("in flight at the kill: %s", show(c.inflight))
			}
			acked += c.acked
			c.acked = 0
		}
		t.Count("kills", 1)
		t.Count("acknowledged writes", acked)
		if inflight > 0 {
			t.Count("kills with requests in flight", 1)
			if acked >= 10 {
				t.Nontrivial(fmt.Sprint(t.idx, round))
			}
		}
		t.Log("round %d: killed after %d acknowledged writes", round, acked)
	}
	d := startDaemon(t, dir)
	c18verify(t, d, cs)
	d.kill()
	t.Sample(map[string]any{"clients": nc, "rounds": rounds, "log": append([]string(nil), t.trace[max(0, len(t.trace)-6):]...)})
}

// c18verify compares a restarted daemon with what was acknowledged.
func c18verify(t *T, d *daemon, cs []*c18client) {
	cl, err := dialRemote(d.addr)
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer cl.conn.Close()
	// what the requests in flight are not about
	for _, c := range cs {
		if c.inflight == nil || isRead(c.inflight) {
			c.inflight = nil
			continue
		}
		c18intact(t, cl, c.w, c.inflight, cs)
		// repeat the interrupted request
		w2 := c.w.clone()
		e := w2.Apply(c.inflight)
		resp, err := cl.Do(t, c.inflight)
		if e.err == errNever && err != nil {
			if _, create := c.inflight.(*api.CreatePolicyRequest); !create {
				t.Failf("the request interrupted by the kill fails when repeated: %v\nrequest: %s", err, show(c.inflight))
			}
		}
		_ = resp
		c.w.pols = w2.pols
		c.inflight = nil
	}
	all := newWorld()
	n := 0
	var extra []string
	for _, c := range cs {
		for id, st := range c.w.pols {
			all.pols[id] = st
			n += 1 + len(st.tuples)
		}
		extra = append(extra, c.ids...)
	}
	sweep(t, cl, all, extra...)
	for _, c := range cs {
		for id, st := range c.w.pols {
			for i, u := range st.list() {
				if i >= 12 {
					break
				}
				q := &api.CheckRequest{PolicyId: id, AccessRequest: accessOf(u)}
				resp, err := cl.Do(t, q)
				judge(t, q, resp, err, all.Apply(q))
			}
		}
	}
	t.Count("records compared after restart", n)
}

// c18intact is intact for a client whose policies live among those of other clients.
func c18intact(t *T, s Svc, w *World, req proto.Message, cs []*c18client) {
	all := newWorld()
	for _, c := range cs {
		other := c.inflight != nil && c.w != w && !isRead(c.inflight)
		for id, st := range c.w.pols {
			if other && id == targetPolicy(c.inflight) {
				continue // judged when its own request is
			}
			all.pols[id] = st
		}
	}
	// policies another client's request in flight may have created or removed are left out of the
	// list comparison by asking only about the rest
	q := &api.ListPolicyIdsRequest{}
	resp, err := s.Do(t, q)
	if err != nil {
		t.Failf("listing policies fails after a restart: %v", err)
	}
	pending := map[string]bool{}
	for _, c := range cs {
		if c.inflight != nil {
			pending[targetPolicy(c.inflight)] = true
		}
	}
	known := map[string]bool{}
	for _, c := range cs {
		for id := range c.w.pols {
			known[id] = true
		}
	}
	for _, x := range resp.(*api.ListPolicyIdsResponse).Records {
		if !known[x.GetId()] && !pending[x.GetId()] {
			t.Failf("policy %q, never acknowledged, exists after the restart", x.GetId())
		}
	}
	touch := touches(req)
	for id, st := range all.pols {
		if id == targetPolicy(req) {
			if _, del := req.(*api.DeletePolicyRequest); del {
				continue
			}
		}
		q := &api.FindRelationshipRecordsRequest{PolicyId: id, Selector: anySel()}
		resp, err := s.Do(t, q)
		if err != nil {
			t.Failf("finding the relationships of policy %q fails after a restart: %v", id, err)
		}
		have := map[Tuple]string{}
		for _, x := range resp.(*api.FindRelationshipRecordsResponse).GetResult().GetRecords() {
			u, _ := tupleOf(x.GetRelationship())
			have[u] = string(x.AppData)
		}
		mine := id == targetPolicy(req)
		for u, a := range st.tuples {
			if mine && touch(u) {
				continue
			}
			if b, ok := have[u]; !ok || a != b {
				t.Failf("the acknowledged relationship %v of policy %q was lost or changed by the kill (app data %q, want %q)", u, id, b, a)
			}
		}
		for u := range have {
			if _, ok := st.tuples[u]; !ok && !(mine && touch(u)) {
				t.Failf("the relationship %v of policy %q, deleted or never requested, exists after the restart", u, id)
			}
		}
	}
}

// ---------------------------------------------------------------- C19

func c19(t *T) {
	dir, err := os.MkdirTemp(t.run.Scratch, "level")
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer os.RemoveAll(dir)
	level := func(name string) (zanzi.Zanzi, error) {
		return zanzi.New(zanzi.WithLogger(&types.NoopLogger{}), zanzi.WithDefaultKVStore(filepath.Join(dir, name)))
	}
	mem := mustEmbedded(t, rcdb.NewMemKV())
	zl, err := level("a")
	if err != nil {
		t.Failf("the on-disk store does not open: %v", err)
	}
	defer closeDisk(&zl)
	disk := fromZanzi(zl)
	dial := func(addr string, err error) *remote {
		if err != nil {
			panic("harness: cannot serve: " + err.Error())
		}
		cl, err := dialRemote(addr)
		if err != nil {
			panic("harness: " + err.Error())
		}
		return cl
	}
	g1 := dial(startServer(rcdb.NewMemKV()))
	defer g1.conn.Close()
	zg, err := level("b")
	if err != nil {
		t.Failf("the on-disk store does not open: %v", err)
	}
	defer closeDisk(&zg)
	g2 := dial(serve(zg))
	defer g2.conn.Close()
	svcs := []Svc{mem, disk, g1, g2}
	names := []string{"embedded, in-memory", "embedded, on-disk", "gRPC, in-memory", "gRPC, on-disk"}
	w := newWorld()
	h := newHist(t, w, t.Chance(50), allWeights)
	h.junkPct = 12
	ok := map[string]bool{}
	n := 80 + t.Intn(80)
	reqs := 0
	issue := func(req proto.Message) {
		t.Log("%s", show(req))
		e := w.Apply(req)
		if e.err == errAny {
			e = Exp{err: errAny}
		}
		var first string
		var firstErr error
		for i, s := range svcs {
			resp, err := s.Do(t, proto.Clone(req))
			noPanic(t, req, err)
			if i > 0 && transportErr(err) {
				t.Failf("%s is not answered over gRPC: %v\nrequest: %s", opName(req), err, show(req))
			}
			if i > 0 && status.Code(err) == codes.Unimplemented {
				t.Failf("%s is not reachable over gRPC: %v", opName(req), err)
			}
			out := "error"
			if err == nil {
				var cerr error
				if out, cerr = canon(req, resp); cerr != nil {
					t.Failf("%s (%s) answered malformed: %v", opName(req), names[i], cerr)
				}
			}
			if i == 0 {
				first, firstErr = out, err
				if !agree(e, out) {
					t.Failf("%s answered wrong (%s)\nrequest: %s\nexpected: %s%s\n     got: %s %v", opName(req), names[0], show(req), trunc(e.canon, 1500), e.why, trunc(out, 1500), err)
				}
				continue
			}
			if out != first {
				t.Failf("%s answers differently:\n%s: %s (%v)\n%s: %s (%v)\nrequest: %s", opName(req), names[0], trunc(first, 1500), firstErr, names[i], trunc(out, 1500), err, show(req))
			}
			t.Count("answers compared", 1)
			if err != nil {
				t.Count("failures compared", 1)
			}
		}
		if firstErr == nil {
			ok[opName(req)] = true
		}
		reqs++
	}
	for i, fat := 0, 0; i < n; i++ {
		req := h.next()
		if fat < 6 && t.Chance(8) && fatten(t, req) { // together less than gRPC carries in one answer
			fat++
			t.Count("large requests", 1)
		}
		issue(req)
	}
	for _, id := range w.ids() {
		issue(&api.GetPolicyRequest{Id: id})
		issue(&api.FindRelationshipRecordsRequest{PolicyId: id, Selector: anySel()})
		issue(&api.DumpRelationshipsRequest{PolicyId: id})
	}
	issue(&api.ListPolicyIdsRequest{})
	// the on-disk instance keeps its data when opened again (it was not closed; only copy readers)
	if len(ok) == 14 {
		t.Count("cases with all fourteen operations", 1)
		t.Nontrivial(w.render())
		t.Sample(map[string]any{"requests": reqs, "instances": names, "last": t.trace[len(t.trace)-1]})
	}
}

// fatten gives a request a large application payload, well within what gRPC carries by default.
func fatten(t *T, req proto.Message) bool {
	b := make([]byte, pick(t, []int{5 << 10, 20 << 10, 33 << 10, 70 << 10, 140 << 10, 300 << 10}))
	for i := range b {
		b[i] = byte(i * 31)
	}
	switch r := req.(type) {
	case *api.CreatePolicyRequest:
		r.AppData = b
	case *api.UpdatePolicyRequest:
		r.AppData = b
	case *api.SetRelationshipRequest:
		r.AppData = b
	default:
		return false
	}
	return true
}
