package main

import (
	"fmt"
	"strings"
	"time"

	rcdb "github.com/sourcenetwork/raccoondb"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"

	"github.com/sourcenetwork/zanzi/pkg/api"
	"github.com/sourcenetwork/zanzi/pkg/domain"
)

const histRule = "A case is a random request history over a small set of policies (ordinary names or names whose concatenations and separators collide), every response compared with a reference map model and the whole state read back at intervals. "

func init() {
	checks["C06"] = check{level: "exploration",
		rule:   histRule + "Weighted towards relationship writes, deletes, gets and finds, with near-miss relationships (field boundaries shifted, subject kind changed). Non-trivial: at least 5 relationships were stored at once and one was overwritten or deleted; distinct by final state and length.",
		floors: map[string]int64{"op SetRelationship": 5000, "op GetRelationship": 3000, "op FindRelationshipRecords": 1500, "sweeps": 500},
		run: func(r *Run) {
			r.Cases(0, r.n(8000, 120000), c06)
			r.Cases(bigBase, r.n(60, 3000), c06big)
			r.Cases(hugeBase, r.n(6, 60), dataHuge)
			r.Cases(longBase, r.n(16, 400), longLife(weightsFor("get", "find")))
		}}
	checks["C07"] = check{level: "exploration",
		rule:   histRule + "At least two policies, often identical in shape and content, ids that are prefixes of each other or look like store keys; every request on a policy is also sent to an instance that holds only that policy and the answers compared. Non-trivial: two policies held relationships at the same time.",
		floors: map[string]int64{"solo comparisons": 10000, "sweeps": 500, "policy deletions with survivors": 100},
		run: func(r *Run) {
			r.Cases(0, r.n(5000, 80000), c07)
			r.Cases(bigBase, r.n(60, 3000), c07big)
			r.Cases(longBase, r.n(16, 400), longLife(weightsFor("get", "find", "check", "getpol", "dump", "expand")))
		}}
	checks["C08"] = check{level: "exploration",
		rule:   histRule + "Weighted towards policy creation, update, deletion, listing and re-creation, on the in-memory store that blocks writers while an iterator is open and on a map store; creation times are tracked. Non-trivial: a policy with relationships was deleted and its id re-created, or updated with relationships present.",
		floors: map[string]int64{"op ListPolicyIds": 2000, "re-created": 200, "updates with relationships": 300, "creation times compared": 1000},
		run: func(r *Run) {
			r.Cases(0, r.n(8000, 120000), c08)
			r.Cases(bigBase, r.n(60, 3000), c08big)
			r.Cases(hugeBase, r.n(6, 60), dataHuge)
			r.Cases(longBase, r.n(16, 400), longLife(map[string]int{"create": 16, "update": 12, "delpol": 9, "getpol": 10, "list": 14, "set": 30, "find": 4, "get": 3}))
		}}
	checks["C09"] = check{level: "exploration",
		rule:   "A case is a random well-formed policy, which create and update must accept, and a set of single-defect variants of it (names, duplicates, references, restrictions, expression syntax, incomplete trees), which create and update must refuse leaving every stored byte unchanged; the verdict of every variant comes from an independent well-formedness oracle. Non-trivial: at least 3 relations and 5 defects tried; distinct by policy.",
		floors: map[string]int64{"accepted": 2000, "refused": 8000},
		run:    func(r *Run) { r.Cases(0, r.n(6000, 80000), c09); r.Cases(bigBase, r.n(80, 2000), c09big) }}
	checks["C10"] = check{level: "exploration",
		rule:   "A case is a random policy with mixed subject restrictions; every combination of object resource, relation, subject kind, subject resource and subject relation over the policy's names plus one undefined and the empty name is submitted to SetRelationship and the outcome compared with the restriction oracle; refused ones must leave every stored byte unchanged. Non-trivial: both outcomes occurred with a restriction set.",
		floors: map[string]int64{"admitted": 1000, "refused": 20000},
		run:    func(r *Run) { r.Cases(0, r.n(5000, 80000), c10); r.Cases(bigBase, r.n(80, 2000), c10big) }}
	checks["C11"] = check{level: "exploration",
		rule:   "A case is a policy with a relationship set; every combination of object, relation and subject part over its names (exhaustive in the selector shape) is used for find, in several message representations (built, cloned, decoded from the wire, reused after marshalling), and for deletion on a copy of the store; results are compared with a matching oracle. Non-trivial: a selector matched some but not all relationships.",
		floors: map[string]int64{"finds": 15000, "deletions": 1500, "partial matches": 3000, "refused": 300},
		run: func(r *Run) {
			r.Cases(0, r.n(3000, 50000), c11)
			r.Cases(bigBase, r.n(60, 3000), c11big)
			r.Cases(hugeBase, r.n(6, 60), dataHuge)
			r.Cases(longBase, r.n(16, 400), longLife(weightsFor("find")))
		}}
	checks["C20"] = check{level: "exploration",
		rule:   histRule + "The store is byte-compared around every read and every refused request and its write calls counted; request messages are compared with copies taken before the call, responses handed out earlier with copies at the end, and reads are repeated. Non-trivial: at least 20 reads and 3 refused requests on a non-empty store.",
		floors: map[string]int64{"reads without writes": 10000, "refused without change": 1500, "responses kept intact": 10000},
		run:    func(r *Run) { r.Cases(0, r.n(6000, 90000), c20) }}
}

func noteHist(t *T, w *World, n int, ok bool) {
	if ok {
		t.Nontrivial(w.render() + fmt.Sprint(n))
		if t.idx%50 == 0 {
			t.Sample(map[string]any{"history": append([]string(nil), t.trace[max(0, len(t.trace)-12):]...), "length": n})
		}
	}
}

func baseKV(t *T) rcdb.KVStore {
	if t.Chance(35) {
		return rcdb.NewMemKV()
	}
	return newMapKV()
}

func c06(t *T) {
	w := newWorld()
	m := &monKV{base: baseKV(t)}
	s := mustEmbedded(t, m)
	h := newHist(t, w, t.Chance(65), map[string]int{"create": 2, "update": 2, "delpol": 1, "set": 40, "del": 14, "get": 18, "find": 12, "delmany": 4, "check": 14, "expand": 3})
	n := 30 + t.Intn(80)
	most, over := 0, false
	for i := 0; i < n; i++ {
		resp, _ := step(t, s, w, h.next())
		switch r := resp.(type) {
		case *api.SetRelationshipResponse:
			over = over || r.RecordOverwritten
		case *api.DeleteRelationshipResponse:
			over = over || r.Found
		}
		for _, st := range w.pols {
			most = max(most, len(st.tuples))
		}
		if i%25 == 24 {
			sweep(t, s, w, h.polIds...)
		}
	}
	sweep(t, s, w)
	// every near miss of a stored relationship is absent unless it is stored itself
	for id, st := range w.pols {
		for _, u := range st.list() {
			v := nearMiss(t, u, h.ids)
			step(t, s, w, &api.GetRelationshipRequest{PolicyId: id, Relationship: v.proto()})
		}
	}
	noteHist(t, w, n, most >= 5 && over)
}

func c07(t *T) {
	w := newWorld()
	s := mustEmbedded(t, &monKV{base: baseKV(t)})
	h := newHist(t, w, t.Chance(75), map[string]int{"create": 6, "update": 3, "delpol": 3, "getpol": 3, "list": 1, "set": 40, "del": 10, "get": 10, "find": 10, "delmany": 4, "check": 12, "expand": 5, "explain": 3, "dump": 5})
	if len(h.polIds) < 2 {
		h.polIds = []string{"p1", "p2", "p1/"}
	}
	h.o.restr = 'u'
	solo := map[string]*embedded{}
	of := func(req proto.Message) string {
		switch r := req.(type) {
		case *api.CreatePolicyRequest:
			p, _ := defPolicy(r.PolicyDefinition)
			return p.GetId()
		case *api.UpdatePolicyRequest:
			p, _ := defPolicy(r.PolicyDefinition)
			return p.GetId()
		case *api.DeletePolicyRequest:
			return r.Id
		case *api.GetPolicyRequest:
			return r.Id
		case *api.ListPolicyIdsRequest:
			return ""
		case interface{ GetPolicyId() string }:
			return r.GetPolicyId()
		}
		return ""
	}
	n := 40 + t.Intn(80)
	both := false
	for i := 0; i < n; i++ {
		req := h.next()
		// identical relationships in several policies are the interesting case
		if r, ok := req.(*api.SetRelationshipRequest); ok && t.Chance(50) {
			for _, id := range h.polIds {
				if st := w.pols[id]; st != nil && id != r.PolicyId {
					if l := st.list(); len(l) > 0 {
						r.Relationship = pick(t, l).proto()
					}
				}
			}
		}
		if d, ok := req.(*api.DeletePolicyRequest); ok && w.pols[d.Id] != nil && len(w.pols) > 1 {
			t.Count("policy deletions with survivors", 1)
		}
		resp, err := step(t, s, w, req)
		id := of(req)
		if _, isList := req.(*api.ListPolicyIdsRequest); !isList {
			if solo[id] == nil {
				solo[id] = mustEmbedded(t, newMapKV())
			}
			r2, err2 := solo[id].Do(t, proto.Clone(req))
			noPanic(t, req, err2)
			if (err == nil) != (err2 == nil) {
				t.Failf("%s fails with the other policies present (%v) but not without them (%v), or the reverse\nrequest: %s", opName(req), err, err2, show(req))
			}
			if err == nil {
				a, _ := canon(req, resp)
				b, _ := canon(req, r2)
				if a != b {
					t.Failf("%s on policy %q answers differently when other policies exist\nrequest: %s\nwith:    %s\nwithout: %s", opName(req), id, show(req), trunc(a, 2000), trunc(b, 2000))
				}
			}
			t.Count("solo comparisons", 1)
		}
		c := 0
		for _, st := range w.pols {
			if len(st.tuples) > 0 {
				c++
			}
		}
		both = both || c >= 2
		if i%20 == 19 {
			sweep(t, s, w, h.polIds...)
			for _, pid := range w.ids() {
				step(t, s, w, &api.DumpRelationshipsRequest{PolicyId: pid})
			}
		}
	}
	sweep(t, s, w, h.polIds...)
	noteHist(t, w, n, both)
}

func c08(t *T) {
	w := newWorld()
	m := &monKV{base: baseKV(t)}
	s := mustEmbedded(t, m)
	h := newHist(t, w, t.Chance(60), map[string]int{"create": 16, "update": 12, "delpol": 9, "getpol": 10, "list": 14, "set": 30, "find": 4, "check": 6, "get": 3, "delmany": 1})
	created := map[string][2]int64{} // creation time by id
	deletedWith := map[string]bool{}
	n := 40 + t.Intn(60)
	nontr := false
	for i := 0; i < n; i++ {
		req := h.next()
		if u, ok := req.(*api.UpdatePolicyRequest); ok {
			if p, _ := defPolicy(u.PolicyDefinition); w.pols[p.GetId()] != nil && len(w.pols[p.GetId()].tuples) > 0 {
				t.Count("updates with relationships", 1)
				nontr = true
			}
		}
		if d, ok := req.(*api.DeletePolicyRequest); ok && w.pols[d.Id] != nil && len(w.pols[d.Id].tuples) > 0 {
			deletedWith[d.Id] = true
		}
		began := time.Now()
		resp, err := step(t, s, w, req)
		if o := m.openIters.Load(); o != 0 {
			t.Failf("%s left %d store iterators open", opName(req), o)
		}
		switch r := resp.(type) {
		case *api.CreatePolicyResponse:
			if err == nil {
				id := r.Record.Policy.Id
				ts := r.Record.GetCreatedAt()
				created[id] = [2]int64{ts.GetSeconds(), int64(ts.GetNanos())}
				// some room for the steps of a system clock
				if at := ts.AsTime(); at.Before(began.Add(-20*time.Millisecond)) || at.After(time.Now().Add(20*time.Millisecond)) {
					t.Failf("policy %q was created at %v; its creation time is %v", id, began, at)
				}
				if deletedWith[id] {
					delete(deletedWith, id)
					nontr = true
					t.Count("re-created", 1)
					step(t, s, w, &api.FindRelationshipRecordsRequest{PolicyId: id, Selector: anySel()})
				}
			}
		case *api.GetPolicyResponse:
			if err == nil && r.Record != nil {
				id := r.Record.Policy.Id
				ts := r.Record.GetCreatedAt()
				if got := [2]int64{ts.GetSeconds(), int64(ts.GetNanos())}; got != created[id] {
					t.Failf("the creation time of policy %q is %v, it was created at %v", id, got, created[id])
				}
				t.Count("creation times compared", 1)
			}
		}
		if i%20 == 19 {
			sweep(t, s, w, h.polIds...)
		}
	}
	sweep(t, s, w, h.polIds...)
	for _, id := range w.ids() {
		resp, err := step(t, s, w, &api.GetPolicyRequest{Id: id})
		if err == nil {
			ts := resp.(*api.GetPolicyResponse).Record.GetCreatedAt()
			if got := [2]int64{ts.GetSeconds(), int64(ts.GetNanos())}; got != created[id] {
				t.Failf("the creation time of policy %q is %v, it was created at %v", id, got, created[id])
			}
		}
	}
	noteHist(t, w, n, nontr)
}

// ---------------------------------------------------------------- C09

// defects lists single changes to a structured policy; most make it ill-formed, all are judged by
// the oracle.
func defects(t *T, p *domain.Policy) []*domain.Policy {
	var out []*domain.Policy
	mut := func(f func(q *domain.Policy) bool) {
		q := proto.Clone(p).(*domain.Policy)
		if f(q) {
			out = append(out, q)
		}
	}
	mut(func(q *domain.Policy) bool {
		q.Resources = append(q.Resources, &domain.Resource{Name: ""})
		return true
	})
	mut(func(q *domain.Policy) bool { q.Resources = append(q.Resources, nil); return true })
	for ri := range p.Resources {
		ri := ri
		mut(func(q *domain.Policy) bool { q.Resources[ri].Name = ""; return true })
		mut(func(q *domain.Policy) bool {
			q.Resources = append(q.Resources, &domain.Resource{Name: q.Resources[ri].Name})
			return true
		})
		for li := range p.Resources[ri].Relations {
			li := li
			rel := func(q *domain.Policy) *domain.Relation { return q.Resources[ri].Relations[li] }
			expr := func(s string) func(q *domain.Policy) bool {
				return func(q *domain.Policy) bool {
					rel(q).RelationExpression = &domain.RelationExpression{Expression: &domain.RelationExpression_Expr{Expr: s}}
					return true
				}
			}
			tree := func(e *domain.RelationExpressionTree) func(q *domain.Policy) bool {
				return func(q *domain.Policy) bool {
					rel(q).RelationExpression = &domain.RelationExpression{Expression: &domain.RelationExpression_Tree{Tree: e}}
					return true
				}
			}
			own := p.Resources[ri].Relations[t.Intn(len(p.Resources[ri].Relations))].Name
			other := own
			for _, r2 := range p.Resources {
				for _, d2 := range r2.Relations {
					if t.Chance(40) {
						other = d2.Name
					}
				}
			}
			mut(func(q *domain.Policy) bool { rel(q).Name = ""; return true })
			mut(func(q *domain.Policy) bool {
				q.Resources[ri].Relations = append(q.Resources[ri].Relations, proto.Clone(rel(q)).(*domain.Relation))
				return true
			})
			mut(func(q *domain.Policy) bool { rel(q).RelationExpression = nil; return true })
			mut(func(q *domain.Policy) bool { rel(q).RelationExpression = &domain.RelationExpression{}; return true })
			for _, s := range []string{"", " ", "_this +", "(_this", "_this)", "_this _this", "_this + nosuchrel", "nosuchrel->" + own, "nosuchrel", "_this - (nosuchrel & _this)", "_this->" + own, "_this ? _this", "()", "_this + + _this", "_this & (_this + (_this - nosuchrel))"} {
				mut(expr(s))
			}
			mut(expr("_this + " + own))
			mut(expr(own + "->" + other))
			mut(expr(other + "->nosuchrelanywhere"))
			mut(expr(other))
			mut(tree(nil))
			mut(tree(&domain.RelationExpressionTree{}))
			mut(tree(&domain.RelationExpressionTree{Node: &domain.RelationExpressionTree_Rule{Rule: &domain.Rule{}}}))
			th := eThis().tree()
			mut(tree(&domain.RelationExpressionTree{Node: &domain.RelationExpressionTree_OpNode{OpNode: &domain.OpNode{Left: th}}}))
			mut(tree(&domain.RelationExpressionTree{Node: &domain.RelationExpressionTree_OpNode{OpNode: &domain.OpNode{Right: th, Operator: domain.Operator_DIFFERENCE}}}))
			mut(tree(&domain.RelationExpressionTree{Node: &domain.RelationExpressionTree_OpNode{OpNode: &domain.OpNode{Left: th, Right: th, Operator: 7}}}))
			mut(tree(eOp(eThis(), '-', eCU("nosuchrel")).tree()))
			mut(tree(eOp(eOp(eThis(), '&', eTTU("nosuchrel", own)), '+', eThis()).tree()))
			mut(tree(eTTU(own, "").tree()))
			mut(tree(eCU("").tree()))
			mut(tree(eTTU(own, "nosuchrelanywhere").tree()))
			mut(tree(eTTU(other, own).tree()))
			mut(tree(eOp(eCU(other), '+', eThis()).tree()))
			restr := func(as ...Restr) func(q *domain.Policy) bool {
				return func(q *domain.Policy) bool {
					rel(q).SubjectRestriction = restrProto(&RelDef{Restr: 's', Allow: as})
					return true
				}
			}
			okr := p.Resources[t.Intn(len(p.Resources))].Name
			mut(restr(Restr{Res: "nosuchres"}))
			mut(restr(Restr{Res: okr}, Restr{Res: "nosuchres"}))
			mut(restr(Restr{Res: okr, Rel: "nosuchrel"}))
			mut(restr(Restr{Res: "nosuchres", Rel: own}))
			mut(restr(Restr{Res: okr}, Restr{Res: okr, Rel: other}))
			mut(restr())
			mut(func(q *domain.Policy) bool { rel(q).SubjectRestriction = nil; return true })
			mut(restr(Restr{Res: ""}))
		}
	}
	mut(func(q *domain.Policy) bool { q.Id = ""; return true })
	return out
}

func c09(t *T) {
	kv := newMapKV()
	s := mustEmbedded(t, kv)
	w := newWorld()
	hostile := t.Chance(50)
	o := polOpts{hostile: hostile, maxRes: 3, maxRel: 4, depth: 3, restr: 'm', diffPct: 20, ttuPct: 30}
	bystander := genPol(t, "bystander", o)
	step(t, s, w, &api.CreatePolicyRequest{PolicyDefinition: bystander.def(t, 0)})
	base := genPol(t, "p", o)
	base.Desc = "original"
	step(t, s, w, &api.CreatePolicyRequest{PolicyDefinition: base.def(t, 30), AppData: []byte("x")})
	if u, ok := genAllowed(t, base, plainIds[:2]); ok {
		step(t, s, w, &api.SetRelationshipRequest{PolicyId: "p", Relationship: u.proto()})
	}
	ds := shuffled(t, defects(t, base.proto()))
	tried := 0
	for i, q := range ds {
		if i >= 40 {
			break
		}
		tried++
		_, v, why := compile(q)
		for _, upd := range []bool{false, true} {
			c := proto.Clone(q).(*domain.Policy)
			if !upd && c.Id != "" {
				c.Id = fmt.Sprintf("new%d", i)
			}
			def := &api.PolicyDefinition{Definition: &api.PolicyDefinition_Policy{Policy: c}}
			var req proto.Message = &api.CreatePolicyRequest{PolicyDefinition: def, AppData: []byte("new")}
			if upd {
				req = &api.UpdatePolicyRequest{PolicyDefinition: def, AppData: []byte("new")}
			}
			before := kv.snapshot()
			if v == unjudged {
				resp, err := s.Do(t, req)
				noPanic(t, req, err)
				_ = resp
				kv.restore(before)
				continue
			}
			_, err := step(t, s, w, req)
			if err != nil {
				if d := sameSnapshot(before, kv.snapshot()); d != "" {
					t.Failf("a rejected definition (%s) changed the store: %s\nrequest: %s", why, d, show(req))
				}
				t.Count("refused", 0)
			} else {
				t.Count("accepted", 1)
				// restore the original so that every variant differs from it in one place
				if upd {
					step(t, s, w, &api.UpdatePolicyRequest{PolicyDefinition: base.def(t, 0), AppData: []byte("x")})
				}
			}
		}
	}
	// YAML renderings of ill-formed policies
	if doc, _, ok := base.yaml(t); ok && len(base.Res) > 0 {
		for _, rep := range [][2]string{{"id: ", "id: ''\nname: "}} {
			bad := strings.Replace(doc, rep[0], rep[1], 1)
			if strings.Count(bad, "name:") > 1 {
				continue
			}
			yamlPolicies.Store(bad, &domain.Policy{})
			before := kv.snapshot()
			step(t, s, w, &api.CreatePolicyRequest{PolicyDefinition: &api.PolicyDefinition{Definition: &api.PolicyDefinition_PolicyYaml{PolicyYaml: bad}}})
			if d := sameSnapshot(before, kv.snapshot()); d != "" {
				t.Failf("a rejected definition changed the store: %s", d)
			}
		}
	}
	sweep(t, s, w)
	nrel := 0
	for _, r := range base.Res {
		nrel += len(r.Rels)
	}
	if nrel >= 3 && tried >= 5 {
		t.Nontrivial(detText(base.proto()))
		t.Sample(map[string]any{"policy": showPol(base), "variants": tried})
	}
}

// ---------------------------------------------------------------- C10

func c10(t *T) {
	kv := newMapKV()
	s := mustEmbedded(t, kv)
	w := newWorld()
	o := polOpts{hostile: t.Chance(40), maxRes: 3, maxRel: 3, depth: 1, restr: 'm', diffPct: 10, ttuPct: 20}
	p := genPol(t, "p", o)
	step(t, s, w, &api.CreatePolicyRequest{PolicyDefinition: p.def(t, 35)})
	if t.Chance(50) {
		q := p.clone()
		tweakPol(t, q, o)
		step(t, s, w, &api.UpdatePolicyRequest{PolicyDefinition: q.def(t, 20)})
		p = w.pols["p"].p
	}
	resNames := []string{"nosuch", ""}
	relNames := []string{"nosuch", ""}
	for _, r := range p.Res {
		resNames = append(resNames, r.Name)
		for _, d := range r.Rels {
			relNames = append(relNames, d.Name)
		}
	}
	relNames = dedupKeep(relNames)
	ids := []string{"x", "", pick(t, hostileIds)}
	adm, ref := 0, 0
	try := func(pid string, u Tuple) {
		before := kv.snapshot()
		_, err := step(t, s, w, &api.SetRelationshipRequest{PolicyId: pid, Relationship: u.proto(), AppData: []byte("d")})
		after := kv.snapshot()
		if err != nil {
			ref++
			if d := sameSnapshot(before, after); d != "" {
				t.Failf("a rejected relationship %v changed the store: %s", u, d)
			}
		} else {
			adm++
		}
	}
	var combos []Tuple
	for _, ores := range resNames {
		for _, rel := range relNames {
			for _, sres := range resNames {
				for _, srel := range relNames {
					combos = append(combos, Tuple{ores, "x", rel, 's', sres, "y", srel})
				}
				combos = append(combos, Tuple{ores, "x", rel, 'e', sres, "y", ""}, Tuple{ores, "x", rel, 'w', sres, "", ""})
			}
		}
	}
	combos = shuffled(t, combos)
	if len(combos) > 400 {
		combos = combos[:400]
	}
	for _, u := range combos {
		u.OId = ids[0]
		if t.Chance(12) {
			u.OId = pick(t, ids)
		}
		if u.SK != 'w' && t.Chance(12) {
			u.SId = pick(t, ids)
		}
		try("p", u)
	}
	try("nosuchpolicy", combos[0])
	if v, ok := genAllowed(t, p, ids[:1]); ok {
		try("nosuchpolicy", v)
		try("p", v)
		v.OId = ""
		try("p", v)
	}
	sweep(t, s, w)
	t.Count("admitted", adm)
	t.Count("refused", 0)
	hasSet := false
	for _, r := range p.Res {
		for _, d := range r.Rels {
			hasSet = hasSet || d.Restr == 's' && len(d.Allow) > 0
		}
	}
	if adm > 0 && ref > 0 && hasSet {
		t.Nontrivial(detText(p.proto()))
		t.Sample(map[string]any{"policy": detProto(p), "combinations": len(combos), "admitted": adm, "refused": ref})
	}
}

func detProto(p *Pol) string { return show(p.proto()) }

func dedupKeep(s []string) []string {
	seen := map[string]bool{}
	var out []string
	for _, x := range s {
		if !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	}
	return out
}

// ---------------------------------------------------------------- C11

// forms returns the same selector message in representations that differ internally.
func forms(t *T, m *domain.RelationshipSelector) *domain.RelationshipSelector {
	switch t.Intn(4) {
	case 0:
		return m
	case 1:
		return proto.Clone(m).(*domain.RelationshipSelector)
	case 2: // decoded from the wire
		b, err := proto.Marshal(m)
		if err != nil {
			return m
		}
		x := &domain.RelationshipSelector{}
		if proto.Unmarshal(b, x) != nil {
			return m
		}
		return x
	}
	// marshalled before, which leaves internal state in the message
	proto.Marshal(m)
	_ = m.String()
	return m
}

func c11(t *T) {
	kv := newMapKV()
	s := mustEmbedded(t, kv)
	w := newWorld()
	hostile := t.Chance(50)
	o := polOpts{hostile: hostile, maxRes: 3, maxRel: 3, depth: 1, restr: 'u', diffPct: 10, ttuPct: 20}
	p := genPol(t, "p", o)
	ids := plainIds[:2+t.Intn(2)]
	if hostile {
		ids = shuffled(t, hostileIds)[:2+t.Intn(3)]
	}
	step(t, s, w, &api.CreatePolicyRequest{PolicyDefinition: p.def(t, 20)})
	for n := 4 + t.Intn(26); n > 0; n-- {
		u := genTuple(t, p, ids, 0)
		step(t, s, w, &api.SetRelationshipRequest{PolicyId: "p", Relationship: u.proto(), AppData: []byte(fmt.Sprint(n))})
	}
	if t.Chance(30) { // a second policy with the same relationships
		q := p.clone()
		q.ID = "p/"
		step(t, s, w, &api.CreatePolicyRequest{PolicyDefinition: q.def(t, 0)})
		for _, u := range w.pols["p"].list() {
			step(t, s, w, &api.SetRelationshipRequest{PolicyId: "p/", Relationship: u.proto()})
		}
	}
	have := w.pols["p"].list()
	partial := 0
	n := 60
	for i := 0; i < n; i++ {
		sel := genSel(t, p, ids, have, 12)
		m := 0
		for _, u := range have {
			if sel.matches(u) {
				m++
			}
		}
		msg := forms(t, sel.proto())
		_, err := step(t, s, w, &api.FindRelationshipRecordsRequest{PolicyId: "p", Selector: msg})
		t.Count("finds", 1)
		if err != nil {
			continue
		}
		if m > 0 && m < len(have) {
			partial++
		}
		if i%5 == 0 && sel.defined(p) == valid {
			// delete on a copy
			kv2 := kv.clone()
			s2 := mustEmbedded(t, kv2)
			w2 := w.clone()
			step(t, s2, w2, &api.DeleteRelationshipsRequest{PolicyId: "p", Selector: forms(t, sel.proto())})
			sweep(t, s2, w2)
			t.Count("deletions", 1)
			step(t, s2, w2, &api.DeleteRelationshipsRequest{PolicyId: "p", Selector: forms(t, sel.proto())})
		}
	}
	step(t, s, w, &api.FindRelationshipRecordsRequest{PolicyId: "nosuchpolicy", Selector: anySel()})
	t.Count("partial matches", partial)
	if partial > 0 {
		t.Nontrivial(fmt.Sprint(have))
		t.Sample(map[string]any{"relationships": fmt.Sprint(have), "selectors": n, "partial": partial})
	}
}

// ---------------------------------------------------------------- C20

func isRead(req proto.Message) bool {
	switch req.(type) {
	case *api.GetPolicyRequest, *api.ListPolicyIdsRequest, *api.GetRelationshipRequest, *api.FindRelationshipRecordsRequest, *api.CheckRequest, *api.ExplainCheckRequest, *api.ExpandRequest, *api.DumpRelationshipsRequest:
		return true
	}
	return false
}

func c20(t *T) {
	w := newWorld()
	kv := newMapKV()
	m := &monKV{base: kv}
	s := mustEmbedded(t, m)
	h := newHist(t, w, t.Chance(50), allWeights)
	h.junkPct = 15
	type kept struct {
		req  proto.Message
		resp proto.Message
		copy proto.Message
	}
	var keptResp []kept
	n := 60 + t.Intn(60)
	reads, refused := 0, 0
	for i := 0; i < n; i++ {
		req := h.next()
		orig := proto.Clone(req)
		before := kv.snapshot()
		writes := m.writes.Load()
		t.Log("%s", show(req))
		e := w.Apply(proto.Clone(req))
		resp, err := s.Do(t, req)
		judge(t, req, resp, err, e)
		if !proto.Equal(orig, req) {
			t.Failf("%s modified the request it was given\nbefore: %s\nafter:  %s", opName(req), show(orig), show(req))
		}
		wrote := m.writes.Load() - writes
		if isRead(req) {
			if wrote != 0 {
				t.Failf("%s wrote to the store (%d write calls)\nrequest: %s", opName(req), wrote, show(req))
			}
			if d := sameSnapshot(before, kv.snapshot()); d != "" {
				t.Failf("%s changed the store: %s", opName(req), d)
			}
			reads++
			t.Count("reads without writes", 1)
			// repeat
			r2, err2 := s.Do(t, proto.Clone(req))
			if (err == nil) != (err2 == nil) {
				t.Failf("repeating %s gave %v after %v\nrequest: %s", opName(req), err2, err, show(req))
			}
			if err == nil {
				a, ea := canon(req, resp)
				b, eb := canon(req, r2)
				if ea != nil || eb != nil || a != b {
					t.Failf("repeating %s with no write in between gave a different answer\nrequest: %s\nfirst: %s\nthen:  %s", opName(req), show(req), trunc(a, 1500), trunc(b, 1500))
				}
				switch req.(type) {
				case *api.GetPolicyRequest, *api.GetRelationshipRequest, *api.CheckRequest:
					if !proto.Equal(resp, r2) {
						t.Failf("repeating %s with no write in between gave a different answer\nfirst: %s\nthen:  %s", opName(req), show(resp), show(r2))
					}
				}
			}
		} else if err != nil {
			if d := sameSnapshot(before, kv.snapshot()); d != "" {
				t.Failf("%s was refused (%v) but changed the store: %s\nrequest: %s", opName(req), err, d, show(req))
			}
			refused++
			t.Count("refused without change", 1)
		}
		if err == nil && resp != nil && t.Chance(25) {
			scribble(resp) // the answer belongs to the caller
		} else if err == nil && resp != nil {
			keptResp = append(keptResp, kept{req, resp, proto.Clone(resp)})
		}
		// the caller reuses and scribbles over its message afterwards; stored data must not care
		if t.Chance(30) {
			scribble(req)
		}
	}
	for _, k := range keptResp {
		if _, own := k.resp.(*api.CreatePolicyResponse); own {
			continue // may share the caller's own policy message, which this caller scribbled over
		}
		if !proto.Equal(k.resp, k.copy) {
			t.Failf("the data behind an earlier response of %s was modified later\nbefore: %s\nafter:  %s", opName(k.req), show(k.copy), show(k.resp))
		}
		t.Count("responses kept intact", 1)
	}
	sweep(t, s, w, h.polIds...)
	total := 0
	for _, st := range w.pols {
		total += len(st.tuples)
	}
	noteHist(t, w, n, reads >= 20 && refused >= 3 && total > 0)
}

// scribble overwrites, in place, everything in a message its caller owns.
func scribble(m proto.Message) { scribbleMsg(m.ProtoReflect()) }

func scribbleMsg(r protoreflect.Message) {
	r.Range(func(f protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		switch {
		case f.IsMap():
			v.Map().Set(protoreflect.ValueOfString("scribbled").MapKey(), v.Map().NewValue())
		case f.IsList():
			l := v.List()
			for i := 0; i < l.Len(); i++ {
				switch f.Kind() {
				case protoreflect.MessageKind:
					if l.Get(i).Message().IsValid() {
						scribbleMsg(l.Get(i).Message())
					}
				case protoreflect.StringKind:
					l.Set(i, protoreflect.ValueOfString("scribbled"))
				}
			}
		case f.Kind() == protoreflect.MessageKind:
			if v.Message().IsValid() {
				scribbleMsg(v.Message())
			}
		case f.Kind() == protoreflect.StringKind:
			r.Set(f, protoreflect.ValueOfString("scribbled"))
		case f.Kind() == protoreflect.BytesKind:
			for i := range v.Bytes() {
				v.Bytes()[i] = '!'
			}
		}
		return true
	})
}
