package main

import (
	"fmt"

	rcdb "github.com/sourcenetwork/raccoondb"
	"google.golang.org/protobuf/proto"

	"github.com/sourcenetwork/zanzi/pkg/api"
	"github.com/sourcenetwork/zanzi/pkg/domain"
)

func init() {
	checks["C02"] = check{level: "exploration",
		rule:   "A case is a relationship graph built to blow up (layered diamonds over relationships, rewrites, tuple-to-usersets and operators, complete mutually nested groups, long chains, cycles, resource-wide tupleset subjects, random dense graphs), loaded into a store that counts reads and panics beyond 64+4*R*(N+1)^2 reads per call (N reachable nodes, R rules per relation); Check, ExplainCheck, Expand and DumpRelationships are issued under that budget, a 100 s limit and a 10 GB heap limit. Non-trivial: the graph has at least 6 reachable nodes.",
		assume: []string{"reads are Get, Has and Iterator calls on the key-value store; 100 s without an answer counts as not terminating (ordinary calls take milliseconds)"},
		floors: map[string]int64{"calls under budget": 2000, "graphs with more than 1000 paths": 50},
		run: func(r *Run) {
			r.Cases(0, r.n(300, 6000), c02)
			r.CasesW(100000, r.n(6, 24), 3, c02deep)
		}}
}

func layered(t *T, L, width int, kind string) *Inst {
	in := &Inst{shape: "layers-" + kind, ids: []string{"0"}}
	id := func(l, i int) string { return fmt.Sprintf("%d_%d", l, i) }
	switch kind {
	case "groups", "and", "diff":
		expr := map[string]string{"groups": "_this", "and": "_this & member2", "diff": "_this - member2"}[kind]
		in.p = &Pol{ID: "p", Res: []*ResDef{{Name: "user"}, {Name: "group", Rels: rels("member", expr, "member2", "_this")}}}
		for l := 0; l < L; l++ {
			for i := 0; i < width; i++ {
				for j := 0; j < width; j++ {
					in.tuples = append(in.tuples, S("group", id(l, i), "member", "group", id(l+1, j), "member"))
					if kind == "and" {
						in.tuples = append(in.tuples, S("group", id(l, i), "member2", "group", id(l+1, j), "member"))
					}
				}
				if kind == "diff" {
					in.tuples = append(in.tuples, S("group", id(l, i), "member2", "group", "none", "member"))
				}
			}
		}
		in.tuples = append(in.tuples, E("group", id(L, 0), "member", "user", "u"))
	case "ttu":
		in.p = &Pol{ID: "p", Res: []*ResDef{{Name: "user"}, {Name: "group", Rels: rels("parent", "_this", "member", "_this + parent->member")}}}
		for l := 0; l < L; l++ {
			for i := 0; i < width; i++ {
				for j := 0; j < width; j++ {
					in.tuples = append(in.tuples, E("group", id(l, i), "parent", "group", id(l+1, j)))
				}
			}
		}
		in.tuples = append(in.tuples, E("group", id(L, 0), "member", "user", "u"))
	case "owner":
		// a tuple-to-userset leads into the nested groups
		in.p = &Pol{ID: "p", Res: []*ResDef{{Name: "user"}, {Name: "group", Rels: rels("member", pick(t, []string{"_this", "_this + member2"}), "member2", "_this")},
			{Name: "file", Rels: rels("owner", "_this", "read", pick(t, []string{"owner->member", "_this + owner->member", "owner->member & owner->member", "owner->member - blocked"}), "blocked", "_this")}}}
		for i := 0; i < width; i++ {
			in.tuples = append(in.tuples, E("file", id(0, 0), "owner", "group", id(0, i)))
		}
		for l := 0; l < L; l++ {
			for i := 0; i < width; i++ {
				for j := 0; j < width; j++ {
					in.tuples = append(in.tuples, S("group", id(l, i), "member", "group", id(l+1, j), "member"))
				}
			}
		}
		in.tuples = append([]Tuple{S("file", id(0, 0), "read", "group", id(0, 0), "member")}, append(in.tuples, E("group", id(L, 0), "member", "user", "u"))...)
	case "rewrite":
		// one object; relation k is defined through relation k+1 several times
		in.p = &Pol{ID: "p", Res: []*ResDef{{Name: "user"}, {Name: "group"}}}
		op := pick(t, []string{"+", "&", "mix"})
		for l := 0; l <= L; l++ {
			d := txt("_this")
			if l < L {
				o := op
				if o == "mix" {
					o = []string{"+", "&"}[l%2]
				}
				nx := fmt.Sprintf("r%d", l+1)
				s := nx
				for k := 1; k < width; k++ {
					s += " " + o + " " + nx
				}
				d = txt(s)
			}
			d.Name = fmt.Sprintf("r%d", l)
			in.p.Res[1].Rels = append(in.p.Res[1].Rels, d)
		}
		in.tuples = append(in.tuples, E("group", id(0, 0), fmt.Sprintf("r%d", L), "user", "u"))
	}
	in.tuples = uniq(in.tuples)
	in.ids = []string{id(0, 0)}
	return in
}

// close leads from the last layer, and sometimes from others, back to the first: what is found out on the way
// is known only for as long as the first is being looked into.
func (in *Inst) close(t *T, L, width int) {
	id := func(l, i int) string { return fmt.Sprintf("%d_%d", l, i) }
	rel, kind := "member", byte('s')
	switch in.shape {
	case "layers-rewrite":
		last := in.p.Res[1].Rels[L]
		name := last.Name
		*last = *txt("_this + r0")
		last.Name = name
		in.shape += "-closed"
		return
	case "layers-ttu":
		rel, kind = "parent", 'e'
	case "layers-diff":
		return // no cycles through a difference
	}
	back := func(l, i int) {
		if kind == 'e' {
			in.tuples = append(in.tuples, E("group", id(l, i), rel, "group", id(0, 0)))
		} else {
			in.tuples = append(in.tuples, S("group", id(l, i), rel, "group", id(0, 0), "member"))
		}
	}
	for i := 0; i < width; i++ {
		back(L, i)
	}
	for n := t.Intn(4); n > 0; n-- {
		back(1+t.Intn(L), t.Intn(width))
	}
	in.tuples = uniq(in.tuples)
	in.shape += "-closed"
}

func complete(t *T, n int) *Inst {
	in := &Inst{shape: "complete", ids: []string{"g0"}}
	in.p = &Pol{ID: "p", Res: []*ResDef{{Name: "user"}, {Name: "group", Rels: rels("member", pick(t, []string{"_this", "_this + other", "_this & other"}), "other", pick(t, []string{"_this", "_this + member"}))}}}
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			in.tuples = append(in.tuples, S("group", fmt.Sprintf("g%d", i), "member", "group", fmt.Sprintf("g%d", j), pick(t, []string{"member", "member", "other"})))
		}
	}
	if t.Chance(60) {
		in.tuples = append(in.tuples, E("group", fmt.Sprintf("g%d", t.Intn(n)), pick(t, []string{"member", "other"}), "user", "u"))
	}
	in.tuples = uniq(in.tuples)
	return in
}

func chain(n int, kind string) *Inst {
	in := &Inst{shape: "chain-" + kind, ids: []string{"0"}}
	if kind == "ttu" {
		in.p = &Pol{ID: "p", Res: []*ResDef{{Name: "user"}, {Name: "group", Rels: rels("parent", "_this", "member", "_this + parent->member")}}}
	} else {
		in.p = &Pol{ID: "p", Res: []*ResDef{{Name: "user"}, {Name: "group", Rels: rels("member", "_this")}}}
	}
	for i := 0; i < n; i++ {
		if kind == "ttu" {
			in.tuples = append(in.tuples, E("group", fmt.Sprint(i), "parent", "group", fmt.Sprint(i+1)))
		} else {
			in.tuples = append(in.tuples, S("group", fmt.Sprint(i), "member", "group", fmt.Sprint(i+1), "member"))
		}
	}
	in.tuples = append(in.tuples, E("group", fmt.Sprint(n), "member", "user", "u"))
	return in
}

func maxRules(p *Pol) int {
	m := 1
	for _, r := range p.Res {
		for _, d := range r.Rels {
			n := 0
			d.E.leaves(func(*Expr) { n++ })
			if n > m {
				m = n
			}
		}
	}
	return m
}

// pathCount counts root-to-leaf walks up to a cap, to tell which graphs would blow up.
func pathCount(g *Graph, cap int) int {
	n := 0
	on := map[Node]bool{}
	var rec func(x Node)
	rec = func(x Node) {
		if n >= cap || on[x] {
			return
		}
		on[x] = true
		for _, d := range g.deps(x) {
			if d.to.K == 's' {
				n++
				rec(d.to)
			}
		}
		delete(on, x)
	}
	rec(g.origin)
	return n
}

// budgeted issues a call under the read budget.
func budgeted(t *T, m *monKV, s Svc, req proto.Message, nodes, rules int) (proto.Message, error) {
	m.reads.Store(0)
	m.readBudget = int64(64 + 4*rules*(nodes+1)*(nodes+1))
	resp, err := s.Do(t, req)
	if p, ok := err.(*opPanic); ok {
		if b, ok := p.val.(budgetExceeded); ok {
			t.Failf("%s performed more than %d store reads on a graph of %d reachable nodes (budget %d)\nrequest: %s", opName(req), b.reads-1, nodes, m.readBudget, show(req))
		}
	}
	noPanic(t, req, err)
	m.readBudget = 0
	if o := m.openIters.Load(); o != 0 {
		t.Count("iterators left open", int(o))
	}
	t.Count("calls under budget", 1)
	t.Count("reads", int(m.reads.Load()))
	return resp, err
}

func loadRaw(t *T, s Svc, in *Inst) {
	for _, req := range append([]proto.Message{&api.CreatePolicyRequest{PolicyDefinition: in.p.def(t, 0)}}, setReqs(in)...) {
		if _, err := s.Do(t, req); err != nil {
			t.Failf("loading: %v: %s", err, show(req))
		}
	}
}

func setReqs(in *Inst) []proto.Message {
	var out []proto.Message
	for _, u := range in.tuples {
		out = append(out, &api.SetRelationshipRequest{PolicyId: in.p.ID, Relationship: u.proto()})
	}
	return out
}

func c02(t *T) {
	var in *Inst
	deepTree := false
	switch x := t.Intn(100); {
	case x < 35:
		L, width := 3+t.Intn(22), 2+t.Intn(2)
		if t.Chance(35) { // fewer layers, more paths from each to the next
			L, width = 2+t.Intn(6), 4+t.Intn(6)
		}
		if t.Chance(25) { // so many layers that they cannot be got through twice each
			L, width = 40+t.Intn(50), 2
		}
		in = layered(t, L, width, pick(t, []string{"groups", "and", "diff", "ttu", "rewrite", "owner", "owner"}))
		if t.Chance(50) {
			in.close(t, L, width)
		}
		deepTree = true
	case x < 60:
		in = complete(t, 3+t.Intn(9))
	case x < 70:
		in = chain(20+t.Intn(120), pick(t, []string{"group", "ttu"}))
	default:
		in = genInst(t, false)
	}
	m := &monKV{base: newMapKV()}
	s := mustEmbedded(t, m)
	loadRaw(t, s, in)
	w := newWorld()
	w.Apply(&api.CreatePolicyRequest{PolicyDefinition: in.p.def(t, 0)})
	for _, r := range setReqs(in) {
		w.Apply(r)
	}
	st := w.pols[in.p.ID]
	idx := st.index()
	rules := maxRules(in.p)
	origins := in.origins(t, 3)
	if len(in.tuples) > 0 {
		origins = append(origins, in.tuples[0].src(), pick(t, in.tuples).src())
	}
	for _, o := range origins {
		g := explore(st.p, idx, o)
		if len(g.nodes) >= 6 {
			t.Nontrivial(sigInst(in) + fmt.Sprint(o))
		}
		if pathCount(g, 1001) > 1000 {
			t.Count("graphs with more than 1000 paths", 1)
		}
		for _, sub := range [][2]string{{"user", "u"}, {"user", "nobody"}, {"group", "g0"}} {
			acc := &domain.AccessRequest{Object: ent(o.Res, o.Id), Relation: o.Rel, Subject: ent(sub[0], sub[1])}
			reqs := []proto.Message{
				&api.CheckRequest{PolicyId: in.p.ID, AccessRequest: acc},
				&api.ExplainCheckRequest{PolicyId: in.p.ID, AccessRequest: acc, Format: api.ExplainFormat_DOT},
				&api.ExplainCheckRequest{PolicyId: in.p.ID, AccessRequest: acc, Format: api.ExplainFormat_JSON},
			}
			if !deepTree && len(g.nodes) < 40 {
				reqs = append(reqs, &api.ExplainCheckRequest{PolicyId: in.p.ID, AccessRequest: acc, Format: api.ExplainFormat_SPEW})
			}
			for _, req := range reqs {
				resp, err := budgeted(t, m, s, req, len(g.nodes), rules)
				if err != nil && !g.undefined {
					t.Failf("%s failed: %v", show(req), err)
				}
				if c, ok := resp.(*api.CheckResponse); ok && !g.negCycle && c.GetResult().GetAuthorized() != g.check(sub[0], sub[1]) {
					t.Count("verdicts differing from the reference (decided by C01)", 1)
				}
			}
		}
		for _, f := range []api.ExplainFormat{api.ExplainFormat_DOT, api.ExplainFormat_JSON} {
			budgeted(t, m, s, &api.ExpandRequest{PolicyId: in.p.ID, Root: o.proto(), Format: f}, len(g.nodes), rules)
		}
	}
	nodes := map[Node]bool{}
	for _, u := range in.tuples {
		nodes[u.src()], nodes[u.dst()] = true, true
	}
	if _, err := budgeted(t, m, s, &api.DumpRelationshipsRequest{PolicyId: in.p.ID}, len(nodes), rules); err != nil {
		t.Failf("DumpRelationships failed: %v", err)
	}
	t.Count("shape "+in.shape, 1)
	t.Sample(map[string]any{"shape": in.shape, "policy": showPol(in.p), "relationships": len(in.tuples)})
}

// c02deep: chains whose depth would exhaust a stack or a quadratic algorithm.
func c02deep(t *T) {
	n := t.run.n(3000, 12000)
	in := chain(n, []string{"group", "ttu"}[t.idx%2])
	if t.idx%3 == 2 { // close the chain to one huge cycle
		in.tuples[len(in.tuples)-1] = S("group", fmt.Sprint(n), "member", "group", "0", "member")
		if t.idx%2 == 1 {
			in.tuples[len(in.tuples)-1] = E("group", fmt.Sprint(n), "parent", "group", "0")
		}
	}
	m := &monKV{base: rcdb.NewMemKV()}
	s := mustEmbedded(t, m)
	loadRaw(t, s, in)
	acc := &domain.AccessRequest{Object: ent("group", "0"), Relation: "member", Subject: ent("user", "u")}
	rules := maxRules(in.p)
	resp, err := budgeted(t, m, s, &api.CheckRequest{PolicyId: "p", AccessRequest: acc}, n+2, rules)
	if err != nil {
		t.Failf("Check on a chain of %d failed: %v", n, err)
	}
	t.Log("authorized: %v", resp)
	for _, req := range []proto.Message{
		&api.ExplainCheckRequest{PolicyId: "p", AccessRequest: acc, Format: api.ExplainFormat_DOT},
		&api.ExpandRequest{PolicyId: "p", Root: Node{'s', "group", "0", "member"}.proto(), Format: api.ExplainFormat_DOT},
		&api.DumpRelationshipsRequest{PolicyId: "p"},
	} {
		if _, err := budgeted(t, m, s, req, n+2, rules); err != nil {
			t.Failf("%s on a chain of %d failed: %v", opName(req), n, err)
		}
	}
	t.Nontrivial(fmt.Sprint(in.shape, n, t.idx%3 == 2))
	t.Count("deep chains", 1)
}
