package main

import (
	"fmt"
	"sync"
	"sync/atomic"
	"time"

	rcdb "github.com/sourcenetwork/raccoondb"
	"google.golang.org/protobuf/proto"

	zanzi "github.com/sourcenetwork/zanzi"
	"github.com/sourcenetwork/zanzi/pkg/api"
	"github.com/sourcenetwork/zanzi/pkg/domain"
)

// Chosen interleavings. One operation is stopped at a chosen point (before or after one of its
// store calls, or where it writes to the log), others run while it stands there, until they have
// returned or do not get on, and then it goes on. Points are enumerated over the operation.

// gates stops the calls of two parties at chosen points. Which party a call belongs to is told by
// the phase: the first party runs alone until it stops.
type gates struct {
	mu       sync.Mutex
	phase    int
	count    [2]int // points passed by each party in its phase
	stopAt   [2]int // the point to stop at; 0: none
	stopped  [2]chan struct{}
	release  [2]chan struct{}
	progress atomic.Int64
}

func newGates(a, b int) *gates {
	g := &gates{stopAt: [2]int{a, b}}
	for i := range g.stopped {
		g.stopped[i], g.release[i] = make(chan struct{}), make(chan struct{})
	}
	return g
}

func (g *gates) point() {
	g.progress.Add(1)
	g.mu.Lock()
	p := g.phase
	if p > 1 {
		g.mu.Unlock()
		return
	}
	g.count[p]++
	stop := g.count[p] == g.stopAt[p]
	if stop {
		g.phase++
	}
	g.mu.Unlock()
	if stop {
		close(g.stopped[p])
		<-g.release[p]
	}
}

// settled waits until done is closed, or nothing has moved for a while.
func (g *gates) settled(done ...<-chan struct{}) {
	for {
		n := g.progress.Load()
		select {
		case <-done[0]:
			return
		case <-done[len(done)-1]:
			return
		case <-time.After(3 * time.Millisecond):
			if g.progress.Load() == n {
				return
			}
		}
	}
}

type gateKV struct {
	rcdb.KVStore
	g     atomic.Pointer[gates]
	hook  func() // called at every point
	hookP atomic.Pointer[func()]
}

func (k *gateKV) point() {
	if k.hook != nil {
		k.hook()
	}
	if h := k.hookP.Load(); h != nil {
		(*h)()
	}
	if g := k.g.Load(); g != nil {
		g.point()
	}
}

func (k *gateKV) Get(key []byte) ([]byte, error) {
	k.point()
	defer k.point()
	return k.KVStore.Get(key)
}

func (k *gateKV) Has(key []byte) (bool, error) {
	k.point()
	defer k.point()
	return k.KVStore.Has(key)
}

func (k *gateKV) Set(key, val []byte) error {
	k.point()
	defer k.point()
	return k.KVStore.Set(key, val)
}

func (k *gateKV) Delete(key []byte) error {
	k.point()
	defer k.point()
	return k.KVStore.Delete(key)
}

func (k *gateKV) Iterator(a, b []byte) rcdb.Iterator {
	k.point()
	defer k.point()
	return k.KVStore.Iterator(a, b)
}

// a logger whose calls are points as well
func (k *gateKV) Errorf(string, ...any) { k.point() }
func (k *gateKV) Warnf(string, ...any)  { k.point() }
func (k *gateKV) Infof(string, ...any)  { k.point() }
func (k *gateKV) Debugf(string, ...any) { k.point() }

func c17gates(t *T) {
	kv0 := newMapKV()
	s0 := mustEmbedded(t, kv0)
	w0 := newWorld()
	var lists [][]proto.Message
	switch t.idx % 4 {
	case 0:
		lists = c17lifecycle(t, s0, w0)
	case 1:
		lists = c17records(t, s0, w0)
	case 2:
		lists = c17graph(t, s0, w0)
	case 3:
		lists = c17mixed(t, s0, w0)
	}
	var reqs []proto.Message
	for _, l := range lists {
		reqs = append(reqs, l...)
	}
	a := pick(t, reqs)
	var b []proto.Message
	switch x := t.Intn(10); {
	case x < 4: // a change, and questions of one kind about what it changes
		a = aimed(t, w0, pick(t, []string{"delpol", "delpol", "delmany", "delmany", "set", "del", "update", "create"}))
		q := pick(t, []string{"get", "get", "find", "check", "explain", "expand", "dump", "getpol", "list"})
		for n := 2 + t.Intn(3); len(b) < n; {
			b = append(b, aimed(t, w0, q))
		}
	case x < 7: // a question, and changes to what it asks about
		a = aimed(t, w0, pick(t, []string{"get", "find", "check", "explain", "expand", "dump", "getpol", "list"}))
		for n := 1 + t.Intn(3); len(b) < n; {
			b = append(b, aimed(t, w0, pick(t, []string{"delpol", "delmany", "set", "set", "del", "update", "create"})))
		}
	default:
		for n := 1 + t.Intn(3); len(b) < n; {
			r := pick(t, reqs)
			if isRead(r) && isRead(a) {
				r = pick(t, reqs)
			}
			b = append(b, r)
		}
	}
	warm := t.Chance(50)
	total := 1 << 30
	for k, tried := 1, 0; k <= total && tried < 40; k++ {
		if k > 16 && t.Chance(60) { // long operations: a sample of the points
			continue
		}
		tried++
		stopB := 0
		if t.Chance(35) {
			stopB = 1 + t.Intn(12)
		}
		if reached := gateRun(t, kv0, w0, a, b, k, stopB, warm); !reached {
			total = k
		}
	}
}

// gateRun stops a at its k-th point while b runs (and stops at its m-th, while a goes on), and
// judges what was answered. It reports whether a has a k-th point.
func gateRun(t *T, kv0 *mapKV, w0 *World, a proto.Message, b []proto.Message, k, m int, warm bool) bool {
	kv := &gateKV{KVStore: kv0.clone()}
	z, err := zanzi.New(zanzi.WithLogger(kv), zanzi.WithKVStore(kv))
	if err != nil {
		t.Failf("zanzi.New: %v", err)
	}
	s := fromZanzi(z)
	if warm {
		for _, r := range append([]proto.Message{a}, b...) {
			if isRead(r) {
				s.Do(t, proto.Clone(r))
			}
		}
	}
	g := newGates(k, m)
	kv.g.Store(g)
	var clock atomic.Int64
	perform := func(by int, reqs []proto.Message, out *[]*concOp) <-chan struct{} {
		done := make(chan struct{})
		go func() {
			defer close(done)
			for _, r := range reqs {
				op := &concOp{req: proto.Clone(r), by: by}
				op.call = clock.Add(1)
				op.resp, op.err = s.Do(t, op.req)
				op.ret = clock.Add(1)
				g.progress.Add(1)
				*out = append(*out, op)
			}
		}()
		return done
	}
	var opsA, opsB []*concOp
	doneA := perform(0, []proto.Message{a}, &opsA)
	select {
	case <-g.stopped[0]:
	case <-doneA:
		return false
	}
	doneB := perform(1, b, &opsB)
	g.settled(doneB, g.stopped[1])
	select {
	case <-doneB:
		t.Count("others ran while one stood", 1)
	case <-g.stopped[1]:
		t.Count("both stopped inside", 1)
	default:
		t.Count("others had to wait", 1)
	}
	close(g.release[0])
	select {
	case <-g.stopped[1]:
		g.settled(doneA)
	default:
	}
	g.mu.Lock()
	g.phase = 2 // no further stops
	g.mu.Unlock()
	close(g.release[1])
	<-doneA
	<-doneB
	kv.g.Store(nil)
	t.Count("points stopped at", 1)
	ops := append(opsA, opsB...)
	last := clock.Load()
	read := []proto.Message{&api.ListPolicyIdsRequest{}}
	seen := map[string]bool{}
	for _, r := range append([]proto.Message{a}, b...) {
		if id := targetPolicy(r); id != "" && !seen[id] {
			seen[id] = true
			read = append(read, &api.GetPolicyRequest{Id: id}, &api.FindRelationshipRecordsRequest{PolicyId: id, Selector: anySel()})
		}
		switch q := r.(type) {
		case *api.SetRelationshipRequest:
			read = append(read, &api.GetRelationshipRequest{PolicyId: q.PolicyId, Relationship: q.Relationship})
		case *api.DeleteRelationshipRequest:
			read = append(read, &api.GetRelationshipRequest{PolicyId: q.PolicyId, Relationship: q.Relationship})
		}
		if isRead(r) {
			read = append(read, r)
		}
	}
	for _, r := range read {
		o := &concOp{req: r, by: 99, call: last + 1, ret: last + 2}
		o.resp, o.err = s.Do(t, r)
		last += 2
		ops = append(ops, o)
	}
	linearizable(t, w0, ops)
	noteOverlap(t, ops)
	if t.samp == nil {
		t.Sample(map[string]any{"stopped": trunc(show(a), 200), "at point": k, "others": fmt.Sprint(len(b))})
	}
	return true
}

// aimed is a request of the given kind about something the state holds.
func aimed(t *T, w *World, op string) proto.Message {
	id, u := "p", Tuple{"doc", "1", "owner", 'e', "user", "u", ""}
	var def *domain.Policy
	if ids := w.ids(); len(ids) > 0 {
		id = pick(t, ids)
		st := w.pols[id]
		def = proto.Clone(st.def).(*domain.Policy)
		if l := st.list(); len(l) > 0 {
			u = pick(t, l)
		}
	} else {
		def, _ = defPolicy(thisPol("p", &RelDef{Name: "owner"}).def(t, 0))
		def = proto.Clone(def).(*domain.Policy)
	}
	wrap := func() *api.PolicyDefinition {
		def.Description = fmt.Sprint("changed ", t.Intn(1000))
		return &api.PolicyDefinition{Definition: &api.PolicyDefinition_Policy{Policy: def}}
	}
	acc := &domain.AccessRequest{Object: ent(u.ORes, u.OId), Relation: u.Rel, Subject: ent("user", "u")}
	if u.SK == 'e' {
		acc.Subject = ent(u.SRes, u.SId)
	}
	sel := anySel()
	if t.Chance(50) {
		// not by names an update may have removed: what deleting by those does is not specified
		if x := (Sel{OK: 'o', ORes: u.ORes, OId: u.OId, RK: '*', SK: '*'}); w.pols[id] != nil && x.defined(w.pols[id].p) == valid {
			sel = x.proto()
		}
	}
	switch op {
	case "create":
		return &api.CreatePolicyRequest{PolicyDefinition: wrap(), AppData: []byte{byte(t.Intn(200))}}
	case "update":
		return &api.UpdatePolicyRequest{PolicyDefinition: wrap(), AppData: []byte{byte(t.Intn(200))}}
	case "delpol":
		return &api.DeletePolicyRequest{Id: id}
	case "getpol":
		return &api.GetPolicyRequest{Id: id}
	case "list":
		return &api.ListPolicyIdsRequest{}
	case "set":
		return &api.SetRelationshipRequest{PolicyId: id, Relationship: u.proto(), AppData: []byte{byte(t.Intn(200)), 1}}
	case "del":
		return &api.DeleteRelationshipRequest{PolicyId: id, Relationship: u.proto()}
	case "get":
		return &api.GetRelationshipRequest{PolicyId: id, Relationship: u.proto()}
	case "find":
		return &api.FindRelationshipRecordsRequest{PolicyId: id, Selector: sel}
	case "delmany":
		return &api.DeleteRelationshipsRequest{PolicyId: id, Selector: sel}
	case "check":
		return &api.CheckRequest{PolicyId: id, AccessRequest: acc}
	case "explain":
		return &api.ExplainCheckRequest{PolicyId: id, AccessRequest: acc, Format: api.ExplainFormat_JSON}
	case "expand":
		return &api.ExpandRequest{PolicyId: id, Root: Node{'s', u.ORes, u.OId, u.Rel}.proto(), Format: api.ExplainFormat_JSON}
	case "dump":
		return &api.DumpRelationshipsRequest{PolicyId: id}
	}
	panic("harness: " + op)
}
