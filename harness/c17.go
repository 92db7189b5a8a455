package main

import (
	"fmt"
	"hash/fnv"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/anishathalye/porcupine"
	rcdb "github.com/sourcenetwork/raccoondb"
	"google.golang.org/protobuf/proto"

	"github.com/sourcenetwork/zanzi/pkg/api"
	"github.com/sourcenetwork/zanzi/pkg/domain"
)

func init() {
	checks["C17"] = check{level: "exploration",
		rule:   "A case is a concurrent history of 3 to 5 callers issuing 3 to 6 operations each on one instance over a store that yields and sleeps at random between store calls, after a sequential prefix. Profiles: policy lifecycle races on one id, set/delete/find races on few relationships, checks racing with two-step changes that never grant access at a single moment, bulk deletions, a random mix of all operations. The recorded calls, answers and real-time order are checked for linearizability against the reference model by the porcupine checker; a final sequential read-back belongs to the history. A second pool stops one operation at a chosen point (around each of its store calls and log messages, enumerated), lets one to three others run until they return or do not get on, sometimes stops those inside as well, and goes on; the answers and a read-back are judged the same way. Non-trivial: at least two operations overlapped in time and one of them wrote; distinct by the observed order of invocations and returns and their answers.",
		floors: map[string]int64{"histories checked": 20000, "overlapping pairs": 100000, "overlapping pairs with a write": 50000, "points stopped at": 20000},
		run: func(r *Run) {
			r.CasesW(0, r.n(30000, 600000), 24, c17)
			r.CasesW(1000000, r.n(7000, 120000), 24, c17gates)
		}}
}

type concOp struct {
	req  proto.Message
	resp proto.Message
	err  error
	call int64
	ret  int64
	by   int
	out  string
}

// outcome is what the linearizability checker compares.
func (c *concOp) finish() {
	if c.err != nil {
		c.out = "error"
		return
	}
	s, err := canon(c.req, c.resp)
	if err != nil {
		s = "malformed: " + err.Error()
	}
	c.out = s
}

func agree(e Exp, out string) bool {
	if e.err == errAny {
		return true
	}
	if out == "error" {
		return e.err != errNever
	}
	if e.err == errMust {
		return false
	}
	return e.skip && !strings.HasPrefix(out, "malformed") || out == e.canon
}

type linState struct {
	w *World
	r string
}

func linState0(w *World) *linState { return &linState{w, w.render()} }

// concurrent runs one list of requests per caller at the same time.
func concurrent(t *T, s Svc, lists [][]proto.Message) []*concOp {
	var clock atomic.Int64
	var mu sync.Mutex
	var all []*concOp
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i, l := range lists {
		wg.Add(1)
		go func(i int, l []proto.Message) {
			defer wg.Done()
			<-start
			for _, req := range l {
				op := &concOp{req: req, by: i}
				op.call = clock.Add(1)
				op.resp, op.err = s.Do(t, req)
				op.ret = clock.Add(1)
				mu.Lock()
				all = append(all, op)
				mu.Unlock()
			}
		}(i, l)
	}
	close(start)
	wg.Wait()
	sort.Slice(all, func(i, j int) bool { return all[i].call < all[j].call })
	return all
}

func linearizable(t *T, w *World, ops []*concOp) {
	var hist []porcupine.Operation
	for _, o := range ops {
		noPanic(t, o.req, o.err)
		o.finish()
		hist = append(hist, porcupine.Operation{ClientId: o.by, Input: o.req, Call: o.call, Output: o.out, Return: o.ret})
	}
	model := porcupine.Model{
		Init: func() any { return linState0(w.clone()) },
		Step: func(st, in, out any) (bool, any) {
			s := st.(*linState)
			req := in.(proto.Message)
			if isRead(req) {
				return agree(s.w.Apply(req), out.(string)), s
			}
			n := s.w.clone()
			e := n.Apply(req)
			if !agree(e, out.(string)) {
				return false, s
			}
			return true, linState0(n)
		},
		Equal: func(a, b any) bool { return a.(*linState).r == b.(*linState).r },
		Hash: func(a any) uint64 {
			h := fnv.New64a()
			h.Write([]byte(a.(*linState).r))
			return h.Sum64()
		},
	}
	res, _ := porcupine.CheckOperationsVerbose(model, hist, 20*time.Second)
	switch res {
	case porcupine.Unknown:
		t.Count("histories too large to decide", 1)
		return
	case porcupine.Illegal:
		var b strings.Builder
		for _, o := range ops {
			fmt.Fprintf(&b, "[%d,%d] caller %d %s\n    -> %s\n", o.call, o.ret, o.by, show(o.req), trunc(o.out, 300))
		}
		t.trace = append(t.trace, b.String())
		t.Failf("the history has no sequential explanation:\n%s\ninitial state:\n%s", trunc(b.String(), 6000), trunc(w.render(), 1500))
	}
	t.Count("histories checked", 1)
}

func noteOverlap(t *T, ops []*concOp) {
	over, wr := 0, 0
	for i, a := range ops {
		for _, b := range ops[i+1:] {
			if a.by != b.by && b.call < a.ret {
				over++
				if !isRead(a.req) || !isRead(b.req) {
					wr++
				}
			}
		}
	}
	t.Count("overlapping pairs", over)
	t.Count("overlapping pairs with a write", wr)
	if wr > 0 {
		var sig strings.Builder
		for _, o := range ops {
			fmt.Fprintf(&sig, "%d %d %d %s %s;", o.by, o.call, o.ret, opName(o.req), o.out)
		}
		t.Nontrivial(sig.String())
	}
}

func c17(t *T) {
	var base rcdb.KVStore = newMapKV()
	if t.Chance(40) {
		base = rcdb.NewMemKV()
	}
	m := &monKV{base: base}
	s := mustEmbedded(t, m)
	w := newWorld()
	var lists [][]proto.Message
	switch t.idx % 5 {
	case 0:
		lists = c17lifecycle(t, s, w)
	case 1:
		lists = c17records(t, s, w)
	case 2, 3:
		lists = c17graph(t, s, w)
	case 4:
		lists = c17mixed(t, s, w)
	}
	m.delay = jitter(caseSeed("jitter", t.run.Seed, t.idx), 10+t.Intn(40))
	w0 := w.clone()
	ops := concurrent(t, s, lists)
	m.delay = nil
	if o := m.openIters.Load(); o != 0 {
		t.Failf("%d store iterators are open after all operations returned", o)
	}
	// read everything back; these reads follow all others in real time
	last := int64(0)
	for _, o := range ops {
		last = max(last, o.ret)
	}
	read := []proto.Message{&api.ListPolicyIdsRequest{}}
	seen := map[string]bool{}
	for _, l := range lists {
		for _, r := range l {
			if id := targetPolicy(r); id != "" && !seen[id] {
				seen[id] = true
				read = append(read, &api.GetPolicyRequest{Id: id}, &api.FindRelationshipRecordsRequest{PolicyId: id, Selector: anySel()})
			}
		}
	}
	for _, r := range read {
		o := &concOp{req: r, by: 99, call: last + 1, ret: last + 2}
		o.resp, o.err = s.Do(t, r)
		last += 2
		ops = append(ops, o)
	}
	linearizable(t, w0, ops)
	noteOverlap(t, ops)
	if t.idx%200 == 0 {
		var l []string
		for _, o := range ops {
			l = append(l, fmt.Sprintf("[%d,%d] caller %d %s -> %s", o.call, o.ret, o.by, trunc(show(o.req), 120), trunc(o.out, 60)))
		}
		t.Sample(map[string]any{"history": l})
	}
}

func thisPol(id string, rels ...*RelDef) *Pol {
	for _, d := range rels {
		if d.E == nil {
			d.E = eThis()
		}
		d.Form, d.Restr = 'x', '*'
	}
	return &Pol{ID: id, Res: []*ResDef{{Name: "user"}, {Name: "doc", Rels: rels}}}
}

func c17lifecycle(t *T, s Svc, w *World) [][]proto.Message {
	mk := func(id, desc string) *api.PolicyDefinition {
		p := thisPol(id, &RelDef{Name: "owner"}, &RelDef{Name: "viewer", E: eOp(eThis(), '+', eCU("owner"))})
		p.Desc = desc
		return p.def(t, 0)
	}
	ids := []string{"p", "p", "p", "p/1"}
	if t.Chance(70) {
		step(t, s, w, &api.CreatePolicyRequest{PolicyDefinition: mk("p", "first")})
		for i := t.Intn(4); i > 0; i-- {
			step(t, s, w, &api.SetRelationshipRequest{PolicyId: "p", Relationship: Tuple{"doc", fmt.Sprint(i), "owner", 'e', "user", "u", ""}.proto()})
		}
	}
	var lists [][]proto.Message
	for c := 0; c < 3+t.Intn(2); c++ {
		var l []proto.Message
		for n := 3 + t.Intn(3); n > 0; n-- {
			id := pick(t, ids)
			u := Tuple{"doc", fmt.Sprint(t.Intn(3)), "owner", 'e', "user", "u", ""}
			var r proto.Message
			switch x := t.Intn(20); {
			case x < 5:
				r = &api.CreatePolicyRequest{PolicyDefinition: mk(id, fmt.Sprint("by ", c, n)), AppData: []byte{byte(c)}}
			case x < 9:
				r = &api.DeletePolicyRequest{Id: id}
			case x < 14:
				r = &api.SetRelationshipRequest{PolicyId: id, Relationship: u.proto(), AppData: []byte{byte(c), byte(n)}}
			case x < 15:
				r = &api.UpdatePolicyRequest{PolicyDefinition: mk(id, fmt.Sprint("upd ", c, n)), AppData: []byte{byte(n)}}
			case x < 16:
				r = &api.GetPolicyRequest{Id: id}
			case x < 17:
				r = &api.ListPolicyIdsRequest{}
			case x < 19:
				r = &api.FindRelationshipRecordsRequest{PolicyId: id, Selector: anySel()}
			default:
				r = &api.CheckRequest{PolicyId: id, AccessRequest: &domain.AccessRequest{Object: ent("doc", u.OId), Relation: "viewer", Subject: ent("user", "u")}}
			}
			l = append(l, r)
		}
		lists = append(lists, l)
	}
	return lists
}

func c17records(t *T, s Svc, w *World) [][]proto.Message {
	step(t, s, w, &api.CreatePolicyRequest{PolicyDefinition: thisPol("p", &RelDef{Name: "owner"}, &RelDef{Name: "viewer"}).def(t, 0)})
	us := []Tuple{{"doc", "1", "owner", 'e', "user", "u", ""}, {"doc", "1", "viewer", 's', "doc", "1", "owner"}, {"doc", "2", "owner", 'w', "user", "", ""}}
	us = us[:1+t.Intn(3)]
	for _, u := range us {
		if t.Chance(50) {
			step(t, s, w, &api.SetRelationshipRequest{PolicyId: "p", Relationship: u.proto(), AppData: []byte("initial")})
		}
	}
	var lists [][]proto.Message
	for c := 0; c < 3+t.Intn(3); c++ {
		var l []proto.Message
		for n := 3 + t.Intn(3); n > 0; n-- {
			u := pick(t, us)
			var r proto.Message
			switch x := t.Intn(20); {
			case x < 6:
				r = &api.SetRelationshipRequest{PolicyId: "p", Relationship: u.proto(), AppData: []byte(fmt.Sprintf("%d/%d", c, n))}
			case x < 11:
				r = &api.DeleteRelationshipRequest{PolicyId: "p", Relationship: u.proto()}
			case x < 14:
				r = &api.GetRelationshipRequest{PolicyId: "p", Relationship: u.proto()}
			case x < 17:
				r = &api.FindRelationshipRecordsRequest{PolicyId: "p", Selector: pick(t, []Sel{{OK: '*', RK: '*', SK: '*'}, {OK: 'o', ORes: "doc", OId: "1", RK: '*', SK: '*'}, {OK: 'r', ORes: "doc", RK: 'n', Rel: "owner", SK: '*'}}).proto()}
			case x < 19:
				r = &api.DeleteRelationshipsRequest{PolicyId: "p", Selector: pick(t, []Sel{{OK: '*', RK: '*', SK: '*'}, {OK: 'o', ORes: "doc", OId: "1", RK: '*', SK: '*'}}).proto()}
			default:
				r = &api.DumpRelationshipsRequest{PolicyId: "p"}
			}
			l = append(l, r)
		}
		lists = append(lists, l)
	}
	return lists
}

// c17graph: writers make changes in an order that never grants (or never withdraws) access at a
// single moment, while checkers evaluate.
func c17graph(t *T, s Svc, w *World) [][]proto.Message {
	e := pick(t, []*Expr{
		eOp(eCU("a"), '&', eCU("b")), eOp(eCU("b"), '&', eCU("a")), eOp(eCU("a"), '-', eCU("b")),
		eOp(eOp(eThis(), '+', eCU("a")), '&', eOp(eCU("b"), '+', eTTU("p", "b"))), eOp(eTTU("p", "a"), '&', eCU("b")), eOp(eCU("a"), '+', eCU("b")),
	})
	def := func(e *Expr) *api.PolicyDefinition {
		return thisPol("p", &RelDef{Name: "a"}, &RelDef{Name: "b"}, &RelDef{Name: "p"}, &RelDef{Name: "x", E: e}).def(t, 0)
	}
	step(t, s, w, &api.CreatePolicyRequest{PolicyDefinition: def(e)})
	us := []Tuple{
		{"doc", "1", "a", 'e', "user", "u", ""}, {"doc", "1", "b", 'e', "user", "u", ""}, {"doc", "1", "p", 'e', "doc", "2", ""},
		{"doc", "2", "a", 'e', "user", "u", ""}, {"doc", "2", "b", 's', "doc", "1", "a"}, {"doc", "1", "a", 's', "doc", "2", "b"},
	}
	for _, u := range us {
		if t.Chance(50) {
			step(t, s, w, &api.SetRelationshipRequest{PolicyId: "p", Relationship: u.proto()})
		}
	}
	set := func(u Tuple) proto.Message {
		return &api.SetRelationshipRequest{PolicyId: "p", Relationship: u.proto()}
	}
	del := func(u Tuple) proto.Message {
		return &api.DeleteRelationshipRequest{PolicyId: "p", Relationship: u.proto()}
	}
	var lists [][]proto.Message
	for c := 1 + t.Intn(2); c > 0; c-- {
		var l []proto.Message
		for n := 2 + t.Intn(2); n > 0; n-- {
			u, v := pick(t, us), pick(t, us)
			switch t.Intn(5) {
			case 0, 1:
				l = append(l, del(u), set(v))
			case 2:
				l = append(l, set(u), del(v))
			case 3:
				l = append(l, &api.UpdatePolicyRequest{PolicyDefinition: def(pick(t, []*Expr{eOp(eCU("a"), '&', eCU("b")), eOp(eCU("b"), '-', eCU("a")), eThis(), e}))})
			case 4:
				l = append(l, &api.DeleteRelationshipsRequest{PolicyId: "p", Selector: Sel{OK: 'o', ORes: "doc", OId: pick(t, []string{"1", "2"}), RK: '*', SK: '*'}.proto()})
			}
		}
		lists = append(lists, l)
	}
	for c := 2; c > 0; c-- {
		var l []proto.Message
		for n := 3 + t.Intn(4); n > 0; n-- {
			a := &domain.AccessRequest{Object: ent("doc", "1"), Relation: "x", Subject: ent("user", "u")}
			switch t.Intn(10) {
			case 0:
				l = append(l, &api.ExplainCheckRequest{PolicyId: "p", AccessRequest: a, Format: api.ExplainFormat_JSON})
			case 1:
				l = append(l, &api.ExpandRequest{PolicyId: "p", Root: Node{'s', "doc", "1", "x"}.proto(), Format: api.ExplainFormat_JSON})
			case 2:
				l = append(l, &api.DumpRelationshipsRequest{PolicyId: "p"})
			case 3:
				l = append(l, &api.FindRelationshipRecordsRequest{PolicyId: "p", Selector: anySel()})
			default:
				l = append(l, &api.CheckRequest{PolicyId: "p", AccessRequest: a})
			}
		}
		lists = append(lists, l)
	}
	return lists
}

func c17mixed(t *T, s Svc, w *World) [][]proto.Message {
	h := newHist(t, w, t.Chance(30), allWeights)
	h.polIds = h.polIds[:min(2, len(h.polIds))]
	h.ids = h.ids[:2]
	h.o.maxRes, h.o.maxRel = 2, 2
	for i := 0; i < 10; i++ {
		step(t, s, w, h.next())
	}
	var lists [][]proto.Message
	for c := 0; c < 3; c++ {
		var l []proto.Message
		for n := 4 + t.Intn(2); n > 0; n-- {
			// a bulk deletion by names the policy may not define at that time is not specified
			r := h.next()
			if d, ok := r.(*api.DeleteRelationshipsRequest); ok {
				d.Selector = anySel()
			}
			l = append(l, r)
		}
		lists = append(lists, l)
	}
	return lists
}
