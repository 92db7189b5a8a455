package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"google.golang.org/protobuf/proto"

	"github.com/sourcenetwork/zanzi/pkg/api"
	"github.com/sourcenetwork/zanzi/pkg/domain"
	"github.com/sourcenetwork/zanzi/pkg/types"
)

func init() {
	checks["C25"] = check{level: "exploration",
		rule:   "A case draws names (ordinary ones and ones with separators, quotes, backslashes, line breaks) and drives the public helper types with random call sequences: relationship, selector, expression and record constructors are compared with messages assembled field by field (and, through a live instance, requests made of them with the answers of the model), accessors with the data they were made from, graphs and containers with map models, and DOT renderings are parsed back and compared node by node and edge by edge. Non-trivial: every group of helpers was exercised; distinct by the names and graph drawn.",
		floors: map[string]int64{"builders compared": 20000, "selectors built": 5000, "requests of built messages": 3000, "graph reads": 20000, "edges refused": 1500, "graphs rendered": 1500, "node ids compared": 1000000, "expressions": 1500},
		run: func(r *Run) {
			r.Cases(0, r.n(6000, 60000), c25)
			r.Cases(1000000, r.n(6, 24), c25many)
		}}
}

func same25(t *T, what string, got, want proto.Message) {
	t.Count("builders compared", 1)
	if !proto.Equal(got, want) {
		t.Failf("%s gives %s, expected %s", what, show(got), show(want))
	}
}

func c25(t *T) {
	names := append([]string{"file", "user", "reader", "owner", "alice", "", "x"}, shuffled(t, append(append([]string{"a\\", "\\\"", "tab\there", "a\"];\nb", "{}", "a->b", "<b>", "G", "node", "\r\n"}, hostileIds...), hostileRes...))[:10]...)
	for i := 0; i < 3; i++ {
		names = append(names, twin(t, pick(t, names)))
	}
	names = append(names, twinIds(t)...)
	nm := func() string { return pick(t, names) }
	c25domain(t, nm)
	c25selectors(t, nm)
	c25live(t)
	c25nodes(t, nm)
	c25graph(t, nm)
	c25dot(t, nm)
	c25values(t, nm)
	t.Nontrivial(strings.Join(names, "\x00") + fmt.Sprint(t.rng.Int63()))
}

func subj25(k byte, res, id, rel string) *domain.Subject {
	switch k {
	case 'e':
		return &domain.Subject{Subject: &domain.Subject_Entity{Entity: &domain.Entity{Resource: res, Id: id}}}
	case 's':
		return &domain.Subject{Subject: &domain.Subject_EntitySet{EntitySet: &domain.EntitySet{Entity: &domain.Entity{Resource: res, Id: id}, Relation: rel}}}
	}
	return &domain.Subject{Subject: &domain.Subject_ResourceSet{ResourceSet: &domain.ResourceSet{ResourceName: res}}}
}

func c25domain(t *T, nm func() string) {
	rb := domain.RelationshipBuilder{}
	for i := 0; i < 6; i++ {
		or, oi, rel, sr, si, srel := nm(), nm(), nm(), nm(), nm(), nm()
		want := func(k byte) *domain.Relationship {
			return &domain.Relationship{Object: &domain.Entity{Resource: or, Id: oi}, Relation: rel, Subject: subj25(k, sr, si, srel)}
		}
		a := rb.Relationship(or, oi, rel, sr, si)
		same25(t, fmt.Sprintf("Relationship(%q,%q,%q,%q,%q)", or, oi, rel, sr, si), &a, want('e'))
		b := rb.EntitySet(or, oi, rel, sr, si, srel)
		same25(t, fmt.Sprintf("EntitySet(%q,%q,%q,%q,%q,%q)", or, oi, rel, sr, si, srel), &b, want('s'))
		c := rb.Wildcard(or, oi, rel, sr)
		same25(t, fmt.Sprintf("Wildcard(%q,%q,%q,%q)", or, oi, rel, sr), &c, want('w'))
		// the messages share nothing
		a.Object.Id, b.Object.Id = "changed", "changed too"
		same25(t, "Wildcard, after its siblings changed,", &c, want('w'))
		same25(t, fmt.Sprintf("NewEntity(%q,%q)", or, oi), domain.NewEntity(or, oi), &domain.Entity{Resource: or, Id: oi})
		for _, s := range []*domain.Subject{a.Subject, b.Subject, c.Subject} {
			if got := s.GetResourceName(); got != sr {
				t.Failf("the resource name of %s is %q", show(s), got)
			}
		}
		if got := (&domain.Subject{}).GetResourceName(); got != "" {
			t.Failf("the resource name of an empty subject is %q", got)
		}
		pid, data := nm(), []byte(nm())
		before := time.Now().Add(-time.Second)
		rec := domain.NewRelationshipRecord(pid, &c, data)
		if !proto.Equal(rec.Relationship, &c) || rec.PolicyId != pid || string(rec.AppData) != string(data) {
			t.Failf("NewRelationshipRecord(%q, %s, %q) gives %s", pid, show(&c), data, show(rec))
		}
		if at := rec.CreatedAt.AsTime(); at.Before(before) || at.After(time.Now().Add(time.Second)) {
			t.Failf("NewRelationshipRecord: created at %v", at)
		}
	}
	// policies
	pol := genPol(t, "p", polOpts{hostile: true, maxRes: 4, maxRel: 4, depth: 2, restr: 'm', diffPct: 20, ttuPct: 30})
	dp := pol.proto()
	data := []byte(nm())
	before := time.Now().Add(-time.Second)
	pr := domain.NewPolicyRecord(dp, data)
	if !proto.Equal(pr.Policy, dp) || string(pr.AppData) != string(data) {
		t.Failf("NewPolicyRecord gives %s", show(pr))
	}
	if at := pr.CreatedAt.AsTime(); at.Before(before) || at.After(time.Now().Add(time.Second)) {
		t.Failf("NewPolicyRecord: created at %v", at)
	}
	has := map[string]bool{}
	for _, r := range dp.Resources {
		has[r.Name] = true
		if got := dp.GetResourceByName(r.Name); got == nil || !proto.Equal(got, r) {
			t.Failf("GetResourceByName(%q) gives %s", r.Name, show(got))
		}
		rels := map[string]bool{}
		for _, rel := range r.Relations {
			rels[rel.Name] = true
			if got := r.GetRelationByName(rel.Name); got == nil || !proto.Equal(got, rel) {
				t.Failf("GetRelationByName(%q) gives %s", rel.Name, show(got))
			}
		}
		for i := 0; i < 4; i++ {
			if n := nm(); !rels[n] && r.GetRelationByName(n) != nil {
				t.Failf("GetRelationByName(%q) finds a relation that is not there", n)
			}
		}
	}
	for i := 0; i < 4; i++ {
		if n := nm(); !has[n] && dp.GetResourceByName(n) != nil {
			t.Failf("GetResourceByName(%q) finds a resource that is not there", n)
		}
	}
	t.Count("builders compared", 4)
	// expressions
	for i := 0; i < 2; i++ {
		e := genExpr(t, polOpts{hostile: true, diffPct: 30, ttuPct: 30}, []string{nm(), nm(), "a", "b"}, []string{nm(), nm(), "c"}, 1+t.Intn(5))
		tree := build25(t, e)
		same25(t, "the expression constructors", tree, e.tree())
		if got := tree.RelationExpression(); got != e.text() {
			t.Failf("RelationExpression of %s is %q", e.text(), got)
		}
		var want, got []string
		e.leaves(func(l *Expr) { want = append(want, l.text()) })
		for _, r := range tree.GetRules() {
			got = append(got, r.RelationExpression())
		}
		sort.Strings(want)
		sort.Strings(got)
		if fmt.Sprintf("%q", want) != fmt.Sprintf("%q", got) {
			t.Failf("the rules of %s are %q", e.text(), got)
		}
		t.Count("expressions", 1)
	}
}

// build25 makes the expression with the public constructors.
func build25(t *T, e *Expr) *domain.RelationExpressionTree {
	switch e.K {
	case 't':
		return domain.ThisNode()
	case 'c':
		return domain.CUNode(e.A)
	case 'u':
		return domain.TTUNode(e.A, e.B)
	}
	l, r := build25(t, e.L), build25(t, e.R)
	op := map[byte]domain.Operator{'+': domain.Operator_UNION, '&': domain.Operator_INTERSECTION, '-': domain.Operator_DIFFERENCE}[e.Op]
	if t.Chance(30) {
		return domain.NewOpNode(l, op, r)
	}
	switch e.Op {
	case '+':
		return domain.UnionNode(l, r)
	case '&':
		return domain.IntersectionNode(l, r)
	}
	return domain.DifferenceNode(l, r)
}

// c25selectors drives one selector builder through a random call sequence.
func c25selectors(t *T, nm func() string) {
	b := &domain.SelectorBuilder{}
	want := &domain.RelationshipSelector{}
	var calls []string
	type kept struct {
		calls     string
		got, want *domain.RelationshipSelector
	}
	var built []kept
	for i := 0; i < 25; i++ {
		same := b
		switch t.Intn(8) {
		case 0:
			same = b.AnyObject()
			calls = append(calls, "AnyObject()")
			want.ObjectSelector = &domain.ObjectSelector{Selector: &domain.ObjectSelector_Wildcard{Wildcard: &domain.WildcardSelector{}}}
		case 1:
			e := &domain.Entity{Resource: nm(), Id: nm()}
			same = b.WithObject(e)
			calls = append(calls, fmt.Sprintf("WithObject(%q,%q)", e.Resource, e.Id))
			want.ObjectSelector = &domain.ObjectSelector{Selector: &domain.ObjectSelector_ObjectSpec{ObjectSpec: proto.Clone(e).(*domain.Entity)}}
		case 2:
			same = b.AnyRelation()
			calls = append(calls, "AnyRelation()")
			want.RelationSelector = &domain.RelationSelector{Selector: &domain.RelationSelector_Wildcard{Wildcard: &domain.WildcardSelector{}}}
		case 3:
			r := nm()
			same = b.WithRelation(r)
			calls = append(calls, fmt.Sprintf("WithRelation(%q)", r))
			want.RelationSelector = &domain.RelationSelector{Selector: &domain.RelationSelector_RelationName{RelationName: r}}
		case 4:
			same = b.AnySubject()
			calls = append(calls, "AnySubject()")
			want.SubjectSelector = &domain.SubjectSelector{Selector: &domain.SubjectSelector_Wildcard{Wildcard: &domain.WildcardSelector{}}}
		case 5:
			s := subj25(pick(t, []byte("esw")), nm(), nm(), nm())
			same = b.WithSubject(s)
			calls = append(calls, fmt.Sprintf("WithSubject(%s)", show(s)))
			want.SubjectSelector = &domain.SubjectSelector{Selector: &domain.SubjectSelector_SubjectSpec{SubjectSpec: proto.Clone(s).(*domain.Subject)}}
		case 6:
			if t.Chance(30) {
				b.Reset()
				calls = append(calls, "Reset()")
				want = &domain.RelationshipSelector{}
			}
		case 7:
			got := b.Build()
			calls = append(calls, "Build()")
			k := kept{strings.Join(calls, "."), &got, proto.Clone(want).(*domain.RelationshipSelector)}
			same25(t, k.calls, k.got, k.want)
			t.Count("selectors built", 1)
			built = append(built, k)
		}
		if same != b {
			b = same // chained calls go on with what they return
		}
	}
	got := b.Build()
	same25(t, strings.Join(calls, ".")+".Build()", &got, want)
	t.Count("selectors built", 1)
	for _, k := range built {
		same25(t, k.calls+", after the builder was used again,", k.got, k.want)
	}
}

// c25live issues requests made with the builders to a live instance.
func c25live(t *T) {
	w := newWorld()
	h := newHist(t, w, t.Chance(50), allWeights)
	s := mustEmbedded(t, newMapKV())
	for i := 0; i < 12; i++ {
		step(t, s, w, h.next())
	}
	rb := domain.RelationshipBuilder{}
	for i := 0; i < 6; i++ {
		pid, st := h.live()
		if st == nil {
			return
		}
		have := st.list()
		if r, ok := h.make("set").(*api.SetRelationshipRequest); ok && r.GetRelationship() != nil && t.Chance(60) {
			if u, ok := tupleOf(r.Relationship); ok {
				pid, have = r.PolicyId, []Tuple{u}
			}
		}
		if len(have) == 0 {
			continue
		}
		u := pick(t, have)
		var r domain.Relationship
		switch u.SK {
		case 'e':
			r = rb.Relationship(u.ORes, u.OId, u.Rel, u.SRes, u.SId)
		case 's':
			r = rb.EntitySet(u.ORes, u.OId, u.Rel, u.SRes, u.SId, u.SRel)
		default:
			r = rb.Wildcard(u.ORes, u.OId, u.Rel, u.SRes)
		}
		sb := &domain.SelectorBuilder{}
		sb.AnyObject().AnyRelation().AnySubject()
		if t.Chance(50) {
			sb.WithObject(domain.NewEntity(u.ORes, u.OId))
		}
		if t.Chance(50) {
			sb.WithRelation(u.Rel)
		}
		if t.Chance(50) {
			sb.WithSubject(r.Subject)
		}
		sel := sb.Build()
		step(t, s, w, &api.SetRelationshipRequest{PolicyId: pid, Relationship: &r})
		step(t, s, w, &api.GetRelationshipRequest{PolicyId: pid, Relationship: &r})
		step(t, s, w, &api.FindRelationshipRecordsRequest{PolicyId: pid, Selector: &sel})
		if ms, ok := selOf(&sel); ok && t.Chance(30) && w.pols[pid] != nil && ms.defined(w.pols[pid].p) == valid {
			step(t, s, w, &api.DeleteRelationshipsRequest{PolicyId: pid, Selector: &sel})
		}
		if t.Chance(30) {
			step(t, s, w, &api.DeleteRelationshipRequest{PolicyId: pid, Relationship: &r})
		}
		t.Count("requests of built messages", 3)
	}
	sweep(t, s, w)
}

// c25many looks for two nodes with one id among very many.
func c25many(t *T) {
	const n = 400000
	seen := make(map[string]Node, n)
	tag := fmt.Sprintf("%x-", t.rng.Int63())
	for i := 0; i < n; i++ {
		m := Node{K: "esw"[i%3], Res: "res"}
		name := fmt.Sprint(tag, i)
		switch {
		case m.K == 'w':
			m.Res = name
		case m.K == 's' && i%2 == 0:
			m.Id, m.Rel = "x", name
		case m.K == 's':
			m.Id, m.Rel = name, "r"
		default:
			m.Id = name
		}
		id := m.proto().Id()
		if o, ok := seen[id]; ok {
			t.Failf("%q and %q have the same id", nodeKey(o), nodeKey(m))
		}
		seen[id] = m
	}
	t.Count("node ids compared", n)
	t.Nontrivial(tag)
}

// c25nodes checks the accessors and ids of relation nodes.
func c25nodes(t *T, nm func() string) {
	seen := map[string]Node{}
	ids := map[Node]string{}
	for i := 0; i < 40; i++ {
		n := Node{K: pick(t, []byte("esw")), Res: nm()}
		if n.K != 'w' {
			n.Id = nm()
		}
		if n.K == 's' {
			n.Rel = nm()
		}
		p := n.proto()
		id := p.Id()
		if m, ok := seen[id]; ok && m != n {
			t.Failf("%q and %q have the same id", nodeKey(m), nodeKey(n))
		}
		if was, ok := ids[n]; ok && was != id {
			t.Failf("%q has two ids", nodeKey(n))
		}
		seen[id], ids[n] = n, id
		if got := p.IsEntity(); got != (n.K == 'e') {
			t.Failf("IsEntity of %q is %v", nodeKey(n), got)
		}
		if got := p.IsTerminalNode(); got != (n.K != 's') {
			t.Failf("IsTerminalNode of %q is %v", nodeKey(n), got)
		}
		obj := p.GetObject()
		if n.K == 'w' && obj != nil || n.K != 'w' && (obj.GetResource() != n.Res || obj.GetId() != n.Id) {
			t.Failf("GetObject of %q is %s", nodeKey(n), show(obj))
		}
		for _, part := range []string{n.Res, n.Id, n.Rel} {
			if !strings.Contains(p.PrettyString(), part) {
				t.Failf("%q reads %q", nodeKey(n), p.PrettyString())
			}
		}
		t.Count("node ids compared", 1)
	}
}

// c25graph compares a graph container with a map model.
func c25graph(t *T, nm func() string) {
	g := types.New[string]()
	nodes := map[string]string{}
	edges := map[[2]string]bool{}
	read := func(id string) {
		t.Count("graph reads", 1)
		o := g.GetNode(id)
		v, ok := nodes[id]
		if o.IsEmpty() == ok || ok && o.Value() != v {
			t.Failf("the node %q reads %+v, expected %q %v", id, o, v, ok)
		}
		for dir, got := range map[int][]string{0: g.GetSucessors(id), 1: g.GetAncestors(id)} {
			var want []string
			for e := range edges {
				if e[dir] == id {
					want = append(want, nodes[e[1-dir]])
				}
			}
			got = append([]string(nil), got...)
			sort.Strings(got)
			sort.Strings(want)
			if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
				t.Failf("the neighbours (%d) of %q are %q, expected %q (edges %v)", dir, id, got, want, edges)
			}
		}
	}
	for i := 0; i < 40; i++ {
		a, b := nm(), nm()
		switch t.Intn(3) {
		case 0:
			v := fmt.Sprint(i)
			g.SetNode(a, v)
			nodes[a] = v
		default:
			_, okA := nodes[a]
			_, okB := nodes[b]
			err := g.SetEdge(a, b)
			if (err == nil) != (okA && okB) {
				t.Failf("SetEdge(%q,%q) gives %v; the nodes exist: %v %v", a, b, err, okA, okB)
			}
			if err == nil {
				edges[[2]string{a, b}] = true
			} else {
				t.Count("edges refused", 1)
			}
		}
		read(a)
		read(b)
	}
}

// c25dot builds a graph message, reads it and parses its DOT rendering.
func c25dot(t *T, nm func() string) {
	g := types.NewMapDiGraph()
	data := map[string]string{}
	var ids []string
	for i := 1 + t.Intn(8); i > 0; i-- {
		id, d := nm(), nm()
		if id == "" {
			continue
		}
		if _, ok := data[id]; !ok {
			ids = append(ids, id)
		}
		g.AddNode(&types.GraphNode{Id: id, Data: d})
		data[id] = d
	}
	if len(ids) == 0 {
		return
	}
	want := map[[2]string]bool{}
	for i := t.Intn(12); i > 0; i-- {
		e := &types.GraphEdge{Source: pick(t, ids), Dest: pick(t, ids)}
		g.AddEdge(e)
		want[[2]string{e.Source, e.Dest}] = true
	}
	for _, id := range append(ids, "no such node") {
		n := g.GetNode(id)
		if d, ok := data[id]; ok != (n != nil) || ok && (n.Id != id || n.Data != d) {
			t.Failf("the node %q of the graph is %v", id, n)
		}
	}
	stored := map[[2]string]int{}
	for src, m := range g.ForwardEdges {
		for dst := range m.Edges {
			stored[[2]string{src, dst}]++
		}
	}
	for dst, m := range g.BackEdges {
		for src := range m.Edges {
			stored[[2]string{src, dst}]++
		}
	}
	for e := range want {
		if stored[e] != 2 {
			t.Failf("the edge %q is stored %d times, expected forward and back", e, stored[e])
		}
	}
	if len(stored) != len(want) {
		t.Failf("the graph has edges that were not added: %v", stored)
	}
	dot := types.GraphToDOT(g)
	t.Count("graphs rendered", 1)
	parsed, err := readDot(dot)
	if err != nil {
		t.Failf("GraphToDOT of nodes %q: %v", data, err)
	}
	if len(parsed.Nodes.Nodes) != len(ids) {
		t.Failf("GraphToDOT of %d nodes %q shows %d: %s", len(ids), data, len(parsed.Nodes.Nodes), dot)
	}
	if !parsed.Directed {
		t.Failf("GraphToDOT shows an undirected graph: %s", dot)
	}
	for _, n := range parsed.Nodes.Nodes {
		id := unquoteDot(n.Name)
		d, ok := data[id]
		if !ok || unquoteDot(n.Attrs["label"]) != d {
			t.Failf("GraphToDOT shows a node %q labelled %q, expected %q (%v): %s", id, unquoteDot(n.Attrs["label"]), d, ok, dot)
		}
	}
	shown := map[[2]string]bool{}
	for _, e := range parsed.Edges.Edges {
		shown[[2]string{unquoteDot(e.Src), unquoteDot(e.Dst)}] = true
	}
	if len(parsed.Edges.Edges) != len(want) || fmt.Sprint(len(shown)) != fmt.Sprint(len(want)) {
		t.Failf("GraphToDOT shows edges %v, expected %v", shown, want)
	}
	for e := range want {
		if !shown[e] {
			t.Failf("GraphToDOT does not show %q: %s", e, dot)
		}
	}
}

func c25values(t *T, nm func() string) {
	a, b := nm(), t.Intn(1000)
	p := types.NewPair(a, b)
	if p.First() != a || p.Second() != b {
		t.Failf("the pair of %q and %d reads %q and %d", a, b, p.First(), p.Second())
	}
	some, none := types.Some(a), types.None[string]()
	if some.IsEmpty() || some.Value() != a || !none.IsEmpty() {
		t.Failf("options of %q: %v %v", a, some, none)
	}
	func() {
		defer func() {
			if recover() == nil {
				t.Failf("the value of an empty option reads as if there was one")
			}
		}()
		none.Value()
	}()
}
