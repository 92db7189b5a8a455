package main

import (
	"fmt"
	"sort"

	"google.golang.org/protobuf/proto"

	"github.com/sourcenetwork/zanzi/pkg/api"
	"github.com/sourcenetwork/zanzi/pkg/domain"
)

func init() {
	checks["C15"] = check{level: "fault_enumeration",
		rule:   "A case populates a store by a random history, then takes requests of all fourteen operations; for every store call the operation makes (every Get, Has, Set, Delete, iterator creation and iterator step; sampled above a cap) it re-runs the operation on a copy with that call failing once, or with that call and all later ones failing, iterators failing by error or by being absent, writes failing before or after taking effect. The answer must be an error or the fault-free answer, unrelated data must be intact, and after the store heals the repeated operation must succeed and leave exactly the fault-free state, as must another operation that settles the same matter instead. Mutations that are refused get the same faults: they stay refused and change nothing. Non-trivial: the operation made at least two store calls; distinct by request and failing call.",
		floors: map[string]int64{"faults injected": 20000, "faults answered by an error": 10000, "repeated after healing": 10000, "operations": 1500, "failing IteratorStep": 1000, "failing Set": 300, "failing Delete": 300, "settled by another operation": 500, "faults in refused operations": 500},
		run:    func(r *Run) { r.Cases(0, r.n(500, 8000), c15); r.Cases(bigBase, r.n(24, 800), c15big) }}
	checks["C16"] = check{level: "fault_enumeration",
		rule:   "A case populates a store by a random history, then takes writing requests; for every number of store writes w below what the operation makes, the operation is run on a copy that dies after w writes, a fresh instance is opened on what was written, all unrelated data compared with the model, and the operation repeated (sometimes dying again at a second point before completing). The final state must be exactly the uninterrupted one. On a further copy the matter is settled by another operation instead (the relationship is deleted or set otherwise, the policy is cleared or deleted and created again), which must leave exactly its own result. Refused requests are interrupted at each of their writes, if any, and must leave nothing. For interrupted policy deletions the id is also re-created: no relationship may reappear. Non-trivial: the operation makes at least two writes and died between them.",
		floors: map[string]int64{"crash points": 6000, "crashes between writes": 3000, "crashed policy deletions": 800, "re-creations after a crashed deletion": 500, "second crashes": 500, "settled by another operation": 2000, "refused operations": 500},
		run:    func(r *Run) { r.Cases(0, r.n(700, 12000), c16); r.Cases(bigBase, r.n(24, 1000), c16big) }}
}

// populate fills a store through the public interface and returns the model.
func populate(t *T, hostile bool, n int) (*mapKV, *World, *Hist) {
	kv := newMapKV()
	s := mustEmbedded(t, kv)
	w := newWorld()
	h := newHist(t, w, hostile, map[string]int{"create": 4, "update": 1, "set": 40, "del": 2})
	h.junkPct = 3
	for i := 0; i < n; i++ {
		step(t, s, w, h.next())
	}
	return kv, w, h
}

// targetPolicy names the policy a request writes to.
func targetPolicy(req proto.Message) string {
	switch r := req.(type) {
	case *api.CreatePolicyRequest:
		p, _ := defPolicy(r.PolicyDefinition)
		return p.GetId()
	case *api.UpdatePolicyRequest:
		p, _ := defPolicy(r.PolicyDefinition)
		return p.GetId()
	case *api.DeletePolicyRequest:
		return r.Id
	case interface{ GetPolicyId() string }:
		return r.GetPolicyId()
	}
	return ""
}

// touches tells which relationships of its policy a request may change.
func touches(req proto.Message) func(Tuple) bool {
	switch r := req.(type) {
	case *api.SetRelationshipRequest:
		u, _ := tupleOf(r.Relationship)
		return func(v Tuple) bool { return v == u }
	case *api.DeleteRelationshipRequest:
		u, _ := tupleOf(r.Relationship)
		return func(v Tuple) bool { return v == u }
	case *api.DeleteRelationshipsRequest:
		s, _ := selOf(r.Selector)
		return s.matches
	case *api.DeletePolicyRequest:
		return func(Tuple) bool { return true }
	}
	return func(Tuple) bool { return false }
}

// intact checks that everything a half-done request is not about is as before it.
func intact(t *T, s Svc, w *World, req proto.Message, when string) {
	tgt := targetPolicy(req)
	q := &api.ListPolicyIdsRequest{}
	resp, err := s.Do(t, q)
	noPanic(t, q, err)
	if err != nil {
		t.Failf("listing policies failed %s: %v", when, err)
	}
	got := map[string]int{}
	for _, x := range resp.(*api.ListPolicyIdsResponse).Records {
		got[x.GetId()]++
	}
	for id := range w.pols {
		if got[id] != 1 && !(id == tgt && got[id] == 0) {
			t.Failf("policy %q is listed %d times %s\nrequest: %s", id, got[id], when, show(req))
		}
	}
	for id := range got {
		if w.pols[id] == nil && id != tgt {
			t.Failf("policy %q appeared from nowhere %s\nrequest: %s", id, when, show(req))
		}
	}
	touch := touches(req)
	for id, st := range w.pols {
		if id != tgt {
			for _, q := range []proto.Message{&api.GetPolicyRequest{Id: id}, &api.FindRelationshipRecordsRequest{PolicyId: id, Selector: anySel()}} {
				resp, err := s.Do(t, q)
				e := w.Apply(q)
				if err != nil {
					t.Failf("%s of another policy fails %s: %v\nrequest: %s", opName(q), when, err, show(req))
				}
				if c, cerr := canon(q, resp); cerr != nil || c != e.canon {
					t.Failf("another policy, %q, changed %s\nrequest: %s\nexpected: %s\n     got: %s", id, when, show(req), trunc(e.canon, 1500), trunc(c, 1500))
				}
			}
			continue
		}
		if _, del := req.(*api.DeletePolicyRequest); del {
			continue
		}
		q := &api.FindRelationshipRecordsRequest{PolicyId: id, Selector: anySel()}
		resp, err := s.Do(t, q)
		noPanic(t, q, err)
		if err != nil {
			t.Failf("finding relationships fails %s: %v\nrequest: %s", when, err, show(req))
		}
		have := map[Tuple]string{}
		for _, x := range resp.(*api.FindRelationshipRecordsResponse).GetResult().GetRecords() {
			u, ok := tupleOf(x.GetRelationship())
			if !ok {
				t.Failf("an incomplete relationship is found %s: %s", when, show(x))
			}
			have[u] = string(x.AppData)
		}
		for u, a := range st.tuples {
			if touch(u) {
				continue
			}
			if b, ok := have[u]; !ok || b != a {
				t.Failf("the unrelated relationship %v was lost or changed %s (app data %q, want %q)\nrequest: %s", u, when, b, a, show(req))
			}
		}
		for u := range have {
			if _, ok := st.tuples[u]; !ok && !touch(u) {
				t.Failf("the relationship %v appeared from nowhere %s\nrequest: %s", u, when, show(req))
			}
		}
	}
}

func c15(t *T) {
	hostile := t.Chance(35)
	kv, w, h := populate(t, hostile, 20+t.Intn(30))
	if len(w.pols) == 0 {
		return
	}
	ops := []string{"create", "update", "delpol", "getpol", "list", "set", "set", "del", "del", "get", "find", "delmany", "check", "check", "explain", "expand", "dump"}
	for _, op := range ops {
		if t.Chance(35) {
			continue
		}
		h.junkPct = 3
		req := h.make(op)
		if op == "delpol" {
			req = &api.DeletePolicyRequest{Id: pick(t, w.ids())}
		}
		c15op(t, kv, w, req)
	}
	for i := 0; i < 3; i++ {
		c15op(t, kv, w, refusedReq(t, h))
	}
}

// refusedReq makes a mutation that is likely to be refused.
func refusedReq(t *T, h *Hist) proto.Message {
	switch t.Intn(5) {
	case 0, 1:
		return h.make("badpol")
	case 2:
		h.junkPct = 100
		defer func() { h.junkPct = 3 }()
		return h.make("set")
	case 3: // the id is taken
		id := pick(t, h.w.ids())
		p := proto.Clone(h.w.pols[id].def).(*domain.Policy)
		p.Name += "'"
		return &api.CreatePolicyRequest{PolicyDefinition: &api.PolicyDefinition{Definition: &api.PolicyDefinition_Policy{Policy: p}}}
	default: // there is no such policy
		id := pick(t, h.w.ids())
		p := proto.Clone(h.w.pols[id].def).(*domain.Policy)
		p.Id += "-none"
		return &api.UpdatePolicyRequest{PolicyDefinition: &api.PolicyDefinition{Definition: &api.PolicyDefinition_Policy{Policy: p}}}
	}
}

// c15refused fails every store call of a mutation that is refused: it must be refused all the same, and change nothing.
func c15refused(t *T, kv *mapKV, w *World, req proto.Message, kinds []kvEvent) {
	t.Count("refused operations", 1)
	n := len(kinds)
	t.Log("%s (refused, %d store calls)", show(req), n)
	if n > 30 {
		n = 30
	}
	for k := 1; k <= n; k++ {
		for mode := 0; mode < 2; mode++ {
			base := kv.clone()
			m := &monKV{base: base}
			s := mustEmbedded(t, m)
			m.events.Store(0)
			m.fault = func(i int64, e kvEvent) faultKind {
				if i == int64(k) || mode == 1 && i > int64(k) {
					return faultErr
				}
				return faultNone
			}
			_, err := s.Do(t, proto.Clone(req))
			noPanic(t, req, err)
			m.fault = nil
			t.Count("faults injected", 1)
			desc := fmt.Sprintf("store call %d (%v) failing", k, kinds[k-1])
			if err == nil {
				t.Failf("%s is refused, but succeeds with %s\nrequest: %s", opName(req), desc, show(req))
			}
			t.Count("faults in refused operations", 1)
			sweep(t, mustEmbedded(t, base), w, targetPolicy(req))
		}
		t.Nontrivial(fmt.Sprintf("%s %d", show(req), k))
	}
}

// settle runs, after an interrupted request, another one that decides the same matter; it must leave exactly its own result.
func settle(t *T, kv *mapKV, w *World, req proto.Message, when string) {
	id := targetPolicy(req)
	st := w.pols[id]
	var seq []proto.Message
	create := func(p *domain.Policy) proto.Message {
		return &api.CreatePolicyRequest{PolicyDefinition: &api.PolicyDefinition{Definition: &api.PolicyDefinition_Policy{Policy: p}}}
	}
	if _, create := req.(*api.CreatePolicyRequest); !create && st == nil {
		return
	}
	var gone []Tuple // what must not be there unless the model says so
	if st != nil {
		gone = st.list()
	}
	clear := func() {
		if t.Chance(50) {
			seq = append(seq, &api.DeleteRelationshipsRequest{PolicyId: id, Selector: anySel()})
		} else {
			seq = append(seq, &api.DeletePolicyRequest{Id: id}, create(st.def))
		}
	}
	switch r := req.(type) {
	case *api.SetRelationshipRequest:
		u, _ := tupleOf(r.Relationship)
		gone = append(gone, u)
		switch t.Intn(4) {
		case 0, 1:
			seq = append(seq, &api.DeleteRelationshipRequest{PolicyId: id, Relationship: r.Relationship})
		case 2:
			seq = append(seq, &api.SetRelationshipRequest{PolicyId: id, Relationship: r.Relationship, AppData: []byte("settled")})
		default:
			clear()
		}
	case *api.DeleteRelationshipRequest:
		u, _ := tupleOf(r.Relationship)
		gone = append(gone, u)
		if st.tuples[u] != "" || t.Chance(50) {
			set := &api.SetRelationshipRequest{PolicyId: id, Relationship: r.Relationship, AppData: []byte("settled")}
			if e := w.clone().Apply(set); e.err == errNever {
				seq = append(seq, set)
				break
			}
		}
		clear()
	case *api.DeleteRelationshipsRequest:
		clear()
	case *api.DeletePolicyRequest:
		// either half of the deletion may be undone by hand
		seq = append(seq, &api.DeletePolicyRequest{Id: id}, create(st.def))
	case *api.UpdatePolicyRequest:
		if t.Chance(50) {
			seq = append(seq, &api.UpdatePolicyRequest{PolicyDefinition: &api.PolicyDefinition{Definition: &api.PolicyDefinition_Policy{Policy: st.def}}, AppData: []byte("settled")})
		} else {
			seq = append(seq, &api.DeletePolicyRequest{Id: id}, create(st.def))
		}
	case *api.CreatePolicyRequest:
		seq = append(seq, &api.DeletePolicyRequest{Id: id})
	default:
		return
	}
	s := mustEmbedded(t, kv)
	w2 := w.clone()
	for _, q := range seq {
		e := w2.Apply(q)
		if e.err == errAny {
			return
		}
		if e.err != errNever {
			t.Count("settlings the model refuses", 1)
			return
		}
		_, err := s.Do(t, proto.Clone(q))
		noPanic(t, q, err)
		if err != nil {
			t.Failf("%s fails %s: %v\nrequest: %s\ninterrupted: %s", opName(q), when, err, show(q), show(req))
		}
	}
	t.Count("settled by another operation", 1)
	what := fmt.Sprintf("%s settled by %s, %s", opName(req), opName(seq[0]), when)
	t.Log("%s", what)
	sweep(t, s, w2, id)
	if w2.pols[id] == nil {
		return
	}
	for _, u := range gone {
		q := &api.GetRelationshipRequest{PolicyId: id, Relationship: u.proto()}
		resp, err := s.Do(t, q)
		judge(t, q, resp, err, w2.Apply(q))
	}
	q := &api.DumpRelationshipsRequest{PolicyId: id}
	resp, err := s.Do(t, q)
	judge(t, q, resp, err, w2.Apply(q))
}

func c15op(t *T, kv *mapKV, w *World, req proto.Message) {
	w1 := w.clone()
	exp := w1.Apply(req)
	if exp.err == errAny {
		return
	}
	// fault-free run
	base := kv.clone()
	m := &monKV{base: base}
	s := mustEmbedded(t, m)
	m.events.Store(0)
	var kinds []kvEvent
	m.fault = func(n int64, e kvEvent) faultKind { kinds = append(kinds, e); return faultNone }
	resp0, err0 := s.Do(t, proto.Clone(req))
	judge(t, req, resp0, err0, exp)
	if err0 != nil {
		if !isRead(req) {
			c15refused(t, kv, w, req, kinds)
		}
		return
	}
	c0, _ := canon(req, resp0)
	n := len(kinds)
	t.Count("operations", 1)
	t.Log("%s (%d store calls)", show(req), n)
	points := make([]int, n)
	for i := range points {
		points[i] = i + 1
	}
	if cap := 45; n > cap {
		points = shuffled(t, points)[:cap]
		sort.Ints(points)
		t.Count("operations sampled above the cap", 1)
	}
	for _, k := range points {
		kind := kinds[k-1]
		t.Count("failing "+kind.String(), 1)
		for mode := 0; mode < 4; mode++ {
			persist := mode&1 == 1
			alt := mode&2 == 2 // iterators absent; writes that fail after taking effect
			if alt && kind != evIter && kind != evSet && kind != evDelete {
				continue
			}
			if persist && t.Chance(50) {
				continue
			}
			c15fault(t, kv, w, w1, req, exp, c0, k, kind, persist, alt)
		}
		if n >= 2 {
			t.Nontrivial(fmt.Sprintf("%s %d", show(req), k))
		}
	}
}

func c15fault(t *T, kv *mapKV, w, w1 *World, req proto.Message, exp Exp, c0 string, k int, kind kvEvent, persist, alt bool) {
	base := kv.clone()
	m := &monKV{base: base}
	s := mustEmbedded(t, m)
	m.events.Store(0)
	fired := 0
	m.fault = func(n int64, e kvEvent) faultKind {
		if n == int64(k) || persist && n > int64(k) {
			fired++
			if alt {
				return faultNilIter
			}
			return faultErr
		}
		return faultNone
	}
	m.applyThenFail = alt
	desc := fmt.Sprintf("store call %d (%v) failing once", k, kind)
	if persist {
		desc = fmt.Sprintf("store calls from %d (%v) on failing", k, kind)
	}
	if alt {
		if kind == evIter {
			desc += " (no iterator)"
		} else {
			desc += " (after taking effect)"
		}
	}
	r := proto.Clone(req)
	resp, err := s.Do(t, r)
	noPanic(t, req, err)
	t.Count("faults injected", 1)
	if fired == 0 {
		t.Count("faults not reached", 1) // the operation took another path this time
		return
	}
	if o := m.openIters.Load(); o != 0 {
		t.Failf("%s with %s left %d store iterators open; the in-memory store blocks writers on them", opName(req), desc, o)
	}
	m.fault, m.applyThenFail = nil, false
	if err == nil {
		c, cerr := canon(req, resp)
		if cerr != nil {
			t.Failf("%s answered a malformed success with %s: %v\nrequest: %s", opName(req), desc, cerr, show(req))
		}
		if !exp.skip && c != c0 {
			t.Failf("%s answered wrong with %s\nrequest: %s\nfault-free: %s\n   faulty: %s", opName(req), desc, show(req), trunc(c0, 2000), trunc(c, 2000))
		}
		t.Count("faults without effect on the answer", 1)
		if !isRead(req) {
			sweep(t, s, w1)
		}
		return
	}
	t.Count("faults answered by an error", 1)
	if !isRead(req) {
		intact(t, s, w, req, "after an operation that failed with "+desc)
		if t.Chance(35) {
			settle(t, base.clone(), w, req, "after an operation that failed with "+desc)
		}
	}
	resp, err = s.Do(t, proto.Clone(req))
	noPanic(t, req, err)
	t.Count("repeated after healing", 1)
	if err != nil {
		// a creation that took effect although the store reported an error cannot be created again
		if _, create := req.(*api.CreatePolicyRequest); !(create && alt) {
			t.Failf("%s fails when repeated on the healed store, after %s: %v\nrequest: %s", opName(req), desc, err, show(req))
		}
	}
	if isRead(req) {
		if c, _ := canon(req, resp); !exp.skip && c != c0 {
			t.Failf("%s repeated on the healed store answers differently, after %s\nrequest: %s\nfault-free: %s\n repeated: %s", opName(req), desc, show(req), trunc(c0, 2000), trunc(c, 2000))
		}
		return
	}
	sweep(t, s, w1)
	if t.Chance(10) {
		t.Sample(map[string]any{"request": show(req), "fault": desc, "answer": err == nil})
	}
}

// ---------------------------------------------------------------- C16

// crashDo runs a request on a store that dies after n writes; it reports whether it died.
func crashDo(t *T, kv *mapKV, req proto.Message, n int) (died bool) {
	m := &monKV{base: kv}
	s := mustEmbedded(t, m)
	m.crashOn, m.writesLeft = true, int64(n)
	_, err := s.Do(t, req)
	if p, ok := err.(*opPanic); ok {
		if _, c := p.val.(crashed); c {
			return true
		}
		noPanic(t, req, err)
	}
	return m.dead.Load()
}

func c16(t *T) {
	hostile := t.Chance(40)
	kv, w, h := populate(t, hostile, 20+t.Intn(40))
	if len(w.pols) == 0 {
		return
	}
	ops := []string{"create", "update", "delpol", "delpol", "set", "set", "del", "del", "delmany", "delmany"}
	for _, op := range ops {
		h.junkPct = 0
		req := h.make(op)
		switch op {
		case "delpol":
			req = &api.DeletePolicyRequest{Id: pick(t, w.ids())}
		case "del":
			if st := w.pols[targetPolicy(req)]; st != nil && len(st.tuples) > 0 && t.Chance(70) {
				req = &api.DeleteRelationshipRequest{PolicyId: targetPolicy(req), Relationship: pick(t, st.list()).proto()}
			}
		}
		c16op(t, kv, w, req)
	}
	for i := 0; i < 3; i++ {
		c16op(t, kv, w, refusedReq(t, h))
	}
}

func c16op(t *T, kv *mapKV, w *World, req proto.Message) {
	w1 := w.clone()
	exp := w1.Apply(req)
	if exp.err == errAny {
		return
	}
	m := &monKV{base: kv.clone()}
	s := mustEmbedded(t, m)
	m.writes.Store(0)
	resp0, err0 := s.Do(t, proto.Clone(req))
	judge(t, req, resp0, err0, exp)
	n := int(m.writes.Load())
	t.Log("%s (%d writes)", show(req), n)
	if err0 != nil {
		// a refused request has nothing to write; if it writes, a crash must not leave any of it
		t.Count("refused operations", 1)
		for k := 0; k <= n && k < 30; k++ {
			c := kv.clone()
			if crashDo(t, c, proto.Clone(req), k) {
				t.Count("crashes in refused operations", 1)
			}
			sweep(t, mustEmbedded(t, c), w, targetPolicy(req))
		}
		return
	}
	points := make([]int, n)
	for i := range points {
		points[i] = i
	}
	if n > 40 {
		points = shuffled(t, points)[:40]
	}
	for _, k := range points {
		c := kv.clone()
		if !crashDo(t, c, proto.Clone(req), k) {
			continue // the operation makes fewer writes this time; nothing to interrupt
		}
		t.Count("crash points", 1)
		if k > 0 && k < n {
			t.Count("crashes between writes", 1)
			t.Nontrivial(fmt.Sprintf("%s %d", show(req), k))
		}
		when := fmt.Sprintf("after a crash following write %d of %d of %s", k, n, opName(req))
		fresh := mustEmbedded(t, c)
		intact(t, fresh, w, req, when)
		del, isDel := req.(*api.DeletePolicyRequest)
		if isDel {
			t.Count("crashed policy deletions", 1)
			// if the deletion already shows, the id can be used again at once
			g, err := fresh.Do(t, &api.GetPolicyRequest{Id: del.Id})
			if err == nil && g.(*api.GetPolicyResponse).Record == nil {
				c16recreate(t, c.clone(), w1, w, del.Id, when)
			}
		}
		if !isDel || t.Chance(25) {
			settle(t, c.clone(), w, req, when)
		}
		// the repeated operation may be interrupted as well
		if n > 1 && t.Chance(40) {
			if crashDo(t, c, proto.Clone(req), t.Intn(n)) {
				t.Count("second crashes", 1)
				when += " and another crash during its repetition"
				intact(t, mustEmbedded(t, c), w, req, when)
			}
		}
		fresh = mustEmbedded(t, c)
		if create, ok := req.(*api.CreatePolicyRequest); ok {
			// repeating a creation that had taken effect is refused
			_ = create
			if _, err := fresh.Do(t, proto.Clone(req)); err != nil {
				noPanic(t, req, err)
			}
		} else {
			_, err := fresh.Do(t, proto.Clone(req))
			noPanic(t, req, err)
			if err != nil {
				t.Failf("%s cannot be repeated %s: %v\nrequest: %s", opName(req), when, err, show(req))
			}
		}
		sweep(t, fresh, w1, targetPolicy(req))
		if isDel && w.pols[del.Id] != nil && len(w.pols[del.Id].tuples) > 0 {
			c16recreate(t, c, w1, w, del.Id, when)
			t.Count("re-creations after a crashed deletion", 1)
		}
		if t.Chance(5) {
			t.Sample(map[string]any{"request": show(req), "writes": n, "died after": k})
		}
	}
}

// c16recreate creates the deleted policy again and looks for leftovers.
func c16recreate(t *T, kv *mapKV, w1, w *World, id, when string) {
	s := mustEmbedded(t, kv)
	w2 := w1.clone()
	req := &api.CreatePolicyRequest{PolicyDefinition: &api.PolicyDefinition{Definition: &api.PolicyDefinition_Policy{Policy: w.pols[id].def}}}
	e := w2.Apply(req)
	resp, err := s.Do(t, req)
	judge(t, req, resp, err, e)
	sweep(t, s, w2)
	for u := range w.pols[id].tuples {
		q := &api.GetRelationshipRequest{PolicyId: id, Relationship: u.proto()}
		resp, err := s.Do(t, q)
		noPanic(t, q, err)
		if err == nil && resp.(*api.GetRelationshipResponse).Record != nil {
			t.Failf("relationship %v of the deleted policy %q reappeared when the id was used again, %s", u, id, when)
		}
	}
	q := &api.DumpRelationshipsRequest{PolicyId: id}
	resp, err = s.Do(t, q)
	judge(t, q, resp, err, w2.Apply(q))
}
