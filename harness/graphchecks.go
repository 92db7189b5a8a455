package main

import (
	"fmt"
	"sort"
	"strings"

	"google.golang.org/protobuf/proto"

	"github.com/sourcenetwork/zanzi/pkg/api"
	"github.com/sourcenetwork/zanzi/pkg/domain"
)

func sortPairs(k [][2]string) {
	sort.Slice(k, func(i, j int) bool {
		if k[i][0] != k[j][0] {
			return k[i][0] < k[j][0]
		}
		return k[i][1] < k[j][1]
	})
}

func init() {
	checks["C01"] = check{level: "exploration",
		rule:   "A case is a random valid policy with a relationship set (random, nested groups, folder hierarchies, mutually defined relations; cyclic and shared nodes included), loaded through the API, queried with Check for many object/relation/subject triples, mutated (relationships set/deleted, policy updated) and queried again; each verdict is compared with a stratified least-fixpoint reference evaluation. Non-trivial: at least one query's reachable graph has 3 or more object-relation pairs and the case saw both verdicts; distinct by policy and relationships.",
		assume: []string{"the reference semantics is the set semantics stated in the property; queries whose reachable graph has a cycle through a difference are not judged"},
		floors: map[string]int64{"verdict authorized": 1000, "verdict denied": 1000, "queries with cycle": 300},
		run: func(r *Run) {
			r.Cases(0, r.n(7000, 90000), c01)
			r.Cases(bigBase, r.n(160, 6000), c01big)
			r.Cases(knotBase, r.n(220, 20000), c01knot)
			r.Cases(hugeBase, r.n(4, 40), c01huge)
			r.Cases(longBase, r.n(16, 400), longLife(weightsFor("check")))
		}}
	checks["C03"] = check{level: "exploration",
		rule:   "A case is an instance as in C01; for many queries Check and ExplainCheck in the three formats are issued, the goal trees parsed (JSON, DOT) and every recorded node result checked against its children and, for successes, against the reference semantics. Non-trivial: a tree with an operator node and at least 4 nodes was checked.",
		floors: map[string]int64{"JSON trees": 1000, "DOT trees": 1000, "SPEW trees": 300, "agreeing errors": 5},
		run: func(r *Run) {
			r.Cases(0, r.n(5000, 50000), c03)
			r.Cases(bigBase, r.n(80, 3000), c03big)
			r.Cases(longBase, r.n(16, 400), longLife(weightsFor("explain")))
		}}
	checks["C04"] = check{level: "exploration",
		rule:   "A case is an instance as in C01; Expand is issued for many roots in JSON and DOT; the set of relation nodes in the JSON tree must equal the set the reference reaches, and the operator structure in the DOT tree must mirror the expression. Non-trivial: an expansion with at least 4 nodes.",
		floors: map[string]int64{"expansions": 3000, "structures mirrored": 1000, "refused roots": 5},
		run: func(r *Run) {
			r.Cases(0, r.n(10000, 120000), c04)
			r.Cases(bigBase, r.n(80, 3000), c04big)
			r.Cases(hugeBase, r.n(2, 40), c04huge)
			r.Cases(longBase, r.n(16, 400), longLife(weightsFor("expand")))
		}}
	checks["C05"] = check{level: "exploration",
		rule:   "A case is an instance as in C01 (cyclic groups and hostile names included); relationships are set and deleted step by step and after each change the dump is parsed and its edges compared with the stored relationships as a multiset. Non-trivial: a dump of at least 3 edges; distinct by its edges.",
		floors: map[string]int64{"dumps": 2000, "edges compared": 10000, "dumps without an acyclic root": 50},
		run: func(r *Run) {
			r.Cases(0, r.n(8000, 100000), c05)
			r.Cases(bigBase, r.n(80, 3000), c05big)
			r.Cases(hugeBase, r.n(2, 40), c05huge)
			r.Cases(longBase, r.n(16, 400), longLife(weightsFor("dump")))
		}}
}

func sigInst(in *Inst) string { return fmt.Sprint(detText(in.p.proto()), in.tuples) }

func cyc(g *Graph) bool {
	for _, c := range g.sccs {
		if len(c) > 1 {
			return true
		}
	}
	for _, n := range g.order {
		for _, d := range g.deps(n) {
			if d.to == n {
				return true
			}
		}
	}
	return false
}

// queryRound asks many Checks and compares them with the reference.
func queryRound(t *T, s Svc, w *World, in *Inst, origins, subjects int) (yes, no, big int) {
	st := w.pols[in.p.ID]
	idx := st.index()
	subs := in.subjects(t, subjects)
	for _, o := range in.origins(t, origins) {
		g := explore(st.p, idx, o)
		c := cyc(g)
		for _, sub := range subs {
			req := &api.CheckRequest{PolicyId: in.p.ID, AccessRequest: &domain.AccessRequest{Object: ent(o.Res, o.Id), Relation: o.Rel, Subject: ent(sub[0], sub[1])}}
			resp, err := s.Do(t, req)
			noPanic(t, req, err)
			if g.originUndef {
				if err == nil {
					t.Failf("Check of an undefined relation %v gave an answer: %v", o, resp)
				}
				t.Count("undefined relation refused", 1)
				continue
			}
			if err != nil {
				if !g.undefined {
					t.Failf("Check failed: %v\nrequest: %s", err, show(req))
				}
				t.Count("undefined reached", 1)
				continue
			}
			if g.negCycle {
				t.Count("not judged (negation cycle)", 1)
				continue
			}
			got := resp.(*api.CheckResponse).GetResult().GetAuthorized()
			want := g.check(sub[0], sub[1])
			if got != want {
				t.Failf("Check says authorized=%v, the policy and relationships say %v\nrequest: %s\npolicy: %s\nrelationships: %v", got, want, show(req), showPol(st.p), st.list())
			}
			if c {
				t.Count("queries with cycle", 1)
			}
			if want {
				yes++
			} else {
				no++
			}
			if len(g.order) >= 3 {
				big++
			}
		}
	}
	t.Count("verdict authorized", yes)
	t.Count("verdict denied", no)
	return
}

func showPol(p *Pol) string {
	var b strings.Builder
	for _, r := range p.Res {
		for _, d := range r.Rels {
			fmt.Fprintf(&b, "%q.%q = %s; ", r.Name, d.Name, d.E.text())
		}
	}
	return b.String()
}

func c01(t *T) {
	kv := newMapKV()
	s := mustEmbedded(t, kv)
	w := newWorld()
	in := genInst(t, t.Chance(30))
	load(t, s, w, in)
	y, n, b := queryRound(t, s, w, in, 14, 6)
	// change the data and ask again
	for round := 0; round < 2; round++ {
		for k := 1 + t.Intn(4); k > 0; k-- {
			if len(in.tuples) > 0 && t.Chance(50) {
				i := t.Intn(len(in.tuples))
				step(t, s, w, &api.DeleteRelationshipRequest{PolicyId: in.p.ID, Relationship: in.tuples[i].proto()})
				in.tuples = append(in.tuples[:i:i], in.tuples[i+1:]...)
			} else if u := genTuple(t, in.p, in.ids, 0); in.p.allowed(u) {
				step(t, s, w, &api.SetRelationshipRequest{PolicyId: in.p.ID, Relationship: u.proto()})
				in.tuples = uniq(append(in.tuples, u))
			}
		}
		if t.Chance(40) {
			q := w.pols[in.p.ID].p.clone()
			tweakPol(t, q, polOpts{maxRes: 3, maxRel: 4, depth: 2, restr: 'u', diffPct: 15, ttuPct: 30})
			step(t, s, w, &api.UpdatePolicyRequest{PolicyDefinition: q.def(t, 10)})
			t.Count("policy updates", 1)
			in.p = w.pols[in.p.ID].p
		}
		y2, n2, b2 := queryRound(t, s, w, in, 8, 5)
		y, n, b = y+y2, n+n2, b+b2
	}
	// undefined relations are errors
	req := &api.CheckRequest{PolicyId: in.p.ID, AccessRequest: &domain.AccessRequest{Object: ent(in.p.Res[0].Name, in.ids[0]), Relation: "nosuchrel", Subject: ent(in.p.Res[0].Name, in.ids[0])}}
	step(t, s, w, req)
	if y > 0 && n > 0 && b > 0 {
		t.Nontrivial(sigInst(in))
		t.Sample(map[string]any{"shape": in.shape, "policy": showPol(in.p), "relationships": fmt.Sprint(in.tuples), "authorized": y, "denied": n})
	}
	t.Count("shape "+in.shape, 1)
}

// ---------------------------------------------------------------- C03

func c03(t *T) {
	s := mustEmbedded(t, newMapKV())
	w := newWorld()
	in := genInst(t, t.Chance(35))
	load(t, s, w, in)
	st := w.pols[in.p.ID]
	idx := st.index()
	subs := in.subjects(t, 4)
	origins := in.origins(t, 6)
	if t.Chance(30) {
		origins = append(origins, Node{'s', in.p.Res[0].Name, in.ids[0], "nosuchrel"}, Node{'s', "nosuch", "1", "owner"})
	}
	biggest := 0
	for _, o := range origins {
		g := explore(st.p, idx, o)
		for _, sub := range subs {
			acc := &domain.AccessRequest{Object: ent(o.Res, o.Id), Relation: o.Rel, Subject: ent(sub[0], sub[1])}
			creq := &api.CheckRequest{PolicyId: in.p.ID, AccessRequest: acc}
			cresp, cerr := s.Do(t, creq)
			noPanic(t, creq, cerr)
			want := cerr == nil && cresp.(*api.CheckResponse).GetResult().GetAuthorized()
			for f := 0; f < 3; f++ {
				format := api.ExplainFormat(f)
				if format == api.ExplainFormat_SPEW && (len(g.nodes) > 60 || !t.Chance(30)) {
					continue
				}
				ereq := &api.ExplainCheckRequest{PolicyId: in.p.ID, AccessRequest: proto.Clone(acc).(*domain.AccessRequest), Format: format}
				resp, err := s.Do(t, ereq)
				noPanic(t, ereq, err)
				if (err != nil) != (cerr != nil) {
					t.Failf("Check and ExplainCheck disagree on failing: Check %v, ExplainCheck %v\nrequest: %s", cerr, err, show(ereq))
				}
				if err != nil {
					t.Count("agreeing errors", 1)
					continue
				}
				er := resp.(*api.ExplainCheckResponse)
				if er.Authorized != want {
					t.Failf("ExplainCheck says %v, Check says %v\nrequest: %s", er.Authorized, want, show(ereq))
				}
				if er.Format != format {
					t.Failf("ExplainCheck was asked for %v and names format %v\nrequest: %s", format, er.Format, show(ereq))
				}
				n := checkGoalTree(t, ereq, er, want, g, sub)
				if n > biggest {
					biggest = n
				}
				t.Count(format.String()+" trees", 1)
			}
		}
	}
	if biggest >= 4 {
		t.Nontrivial(sigInst(in))
		t.Sample(map[string]any{"policy": showPol(in.p), "relationships": fmt.Sprint(in.tuples), "largest tree": biggest})
	}
}

func checkGoalTree(t *T, req *api.ExplainCheckRequest, er *api.ExplainCheckResponse, want bool, g *Graph, sub [2]string) int {
	if er.GoalTree == "" {
		t.Failf("ExplainCheck returned an empty goal tree\nrequest: %s", show(req))
	}
	var tree *goal
	var err error
	switch er.Format {
	case api.ExplainFormat_JSON:
		tree, err = parseGoalJSON(er.GoalTree)
	case api.ExplainFormat_DOT:
		tree, err = parseGoalDot(er.GoalTree)
	default:
		// the dump of the tree starts with its root, whose result is the verdict
		if !strings.Contains(er.GoalTree, "PathNode") {
			t.Failf("SPEW goal tree does not show a tree: %s\nrequest: %s", trunc(er.GoalTree, 400), show(req))
		}
		return 0
	}
	if err != nil {
		t.Failf("goal tree of format %v is not well formed: %v\nrequest: %s", er.Format, err, show(req))
	}
	if want != (tree.result == "SUCCESS") {
		t.Failf("the root of the %v goal tree is recorded %s, the verdict is authorized=%v\nrequest: %s\n%s", er.Format, tree.result, want, show(req), trunc(er.GoalTree, 3000))
	}
	root := Node{'s', req.AccessRequest.Object.Resource, req.AccessRequest.Object.Id, req.AccessRequest.Relation}
	if tree.kind != 'p' || er.Format == api.ExplainFormat_JSON && tree.node != root {
		t.Failf("the root of the goal tree is %v, not the requested %v", tree.node, root)
	}
	if er.Format == api.ExplainFormat_DOT && !strings.Contains(tree.label, root.String()) {
		t.Failf("the root of the DOT goal tree is %q, not the requested %v", tree.label, root)
	}
	if err := tree.sane(); err != nil {
		t.Failf("%v goal tree: %v\nrequest: %s\n%s", er.Format, err, show(req), trunc(er.GoalTree, 4000))
	}
	n, ops := 0, 0
	var mem map[Node]bool
	if !g.negCycle {
		mem = g.members(sub[0], sub[1])
	}
	tree.walk(func(x *goal) {
		n++
		if x.kind != 'p' {
			ops++
			return
		}
		if er.Format != api.ExplainFormat_JSON {
			if len(g.nodes) > 300 {
				return
			}
			cands := g.shown(x.label)
			if len(cands) == 0 {
				t.Failf("the DOT goal tree shows %q, which is not reachable from %v\nrequest: %s", x.label, root, show(req))
			}
			if x.result == "SUCCESS" && mem != nil {
				for _, c := range cands {
					if contains(mem, c, sub) {
						t.Count("success labels confirmed", 1)
						return
					}
				}
				t.Failf("the DOT goal tree records SUCCESS for %q, which does not contain %v\nrequest: %s\n%s", x.label, sub, show(req), trunc(er.GoalTree, 4000))
			}
			return
		}
		if !g.nodes[x.node] {
			t.Failf("goal tree mentions %v, which is not reachable from %v", x.node, root)
		}
		if x.result == "SUCCESS" && mem != nil {
			if !contains(mem, x.node, sub) {
				t.Failf("goal tree records SUCCESS for %v, which does not contain %v\nrequest: %s\n%s", x.node, sub, show(req), trunc(er.GoalTree, 4000))
			}
			t.Count("success nodes confirmed", 1)
		}
	})
	t.Count("tree nodes", n)
	if ops == 0 {
		return 0
	}
	return n
}

// contains tells whether a node's set includes the subject; mem are the object-relation pairs
// that do.
func contains(mem map[Node]bool, n Node, sub [2]string) bool {
	switch n.K {
	case 'e':
		return n.Res == sub[0] && n.Id == sub[1]
	case 'w':
		return n.Res == sub[0]
	}
	return mem[n]
}

// shown returns the reachable nodes a label can stand for: those whose text it contains, the
// longest of them if there are several.
func (g *Graph) shown(label string) []Node {
	var out []Node
	best := 0
	for n := range g.nodes {
		s := n.String()
		if len(s) < best || !strings.Contains(label, s) {
			continue
		}
		if len(s) > best {
			best, out = len(s), nil
		}
		out = append(out, n)
	}
	return out
}

// ---------------------------------------------------------------- C04

func c04(t *T) {
	s := mustEmbedded(t, newMapKV())
	w := newWorld()
	hostile := t.Chance(25)
	in := genInst(t, hostile)
	load(t, s, w, in)
	st := w.pols[in.p.ID]
	idx := st.index()
	biggest := 0
	origins := in.origins(t, 8)
	for _, o := range origins {
		if n := expandCase(t, s, st, idx, o); n > biggest {
			biggest = n
		}
	}
	for _, o := range []Node{{'s', in.p.Res[0].Name, in.ids[0], "nosuchrel"}, {'s', "nosuchres", in.ids[0], "x"}} {
		req := &api.ExpandRequest{PolicyId: in.p.ID, Root: o.proto(), Format: pick(t, []api.ExplainFormat{0, 1, 2})}
		_, err := s.Do(t, req)
		noPanic(t, req, err)
		if err == nil {
			t.Failf("Expand of an undefined relation succeeded: %s", show(req))
		}
		t.Count("refused roots", 1)
	}
	if biggest >= 4 {
		t.Nontrivial(sigInst(in))
		t.Sample(map[string]any{"policy": showPol(in.p), "relationships": fmt.Sprint(in.tuples), "nodes in largest expansion": biggest})
	}
}

// expandCase expands a root in both formats and compares the trees with the reference; it returns
// the number of different nodes shown.
func expandCase(t *T, s Svc, st *PolState, idx Tuples, o Node) int {
	g := explore(st.p, idx, o)
	jreq := &api.ExpandRequest{PolicyId: st.p.ID, Root: o.proto(), Format: api.ExplainFormat_JSON}
	resp, err := s.Do(t, jreq)
	noPanic(t, jreq, err)
	if g.originUndef && err == nil {
		t.Failf("Expand of an undefined relation succeeded: %s", show(jreq))
	}
	if err != nil {
		if !g.undefined {
			t.Failf("Expand failed: %v\nrequest: %s", err, show(jreq))
		}
		t.Count("undefined reached", 1)
		return 0
	}
	er := resp.(*api.ExpandResponse)
	if er.Format != api.ExplainFormat_JSON {
		t.Failf("Expand names format %v", er.Format)
	}
	tree, err := parseGoalJSON(er.GoalTree)
	if err != nil {
		t.Failf("Expand: %v", err)
	}
	got := map[Node]bool{}
	tree.walk(func(x *goal) {
		if x.kind == 'p' {
			got[x.node] = true
		}
	})
	for n := range g.nodes {
		if !got[n] {
			t.Failf("Expand of %v does not show the reachable %v\npolicy: %s\nrelationships: %v\n%s", o, n, showPol(st.p), st.list(), trunc(er.GoalTree, 4000))
		}
	}
	for n := range got {
		if !g.nodes[n] {
			t.Failf("Expand of %v shows %v, which is not reachable\npolicy: %s\nrelationships: %v", o, n, showPol(st.p), st.list())
		}
	}
	t.Count("expansions", 1)
	t.Count("nodes compared", len(got))
	mirrorJSON(t, g, tree)

	dreq := &api.ExpandRequest{PolicyId: st.p.ID, Root: o.proto(), Format: api.ExplainFormat_DOT}
	dresp, err := s.Do(t, dreq)
	noPanic(t, dreq, err)
	if err != nil {
		t.Failf("Expand in DOT format failed where JSON succeeds: %v", err)
	}
	dt, err := parseGoalDot(dresp.(*api.ExpandResponse).GoalTree)
	if err != nil {
		t.Failf("Expand: %v", err)
	}
	if d := g.def(o); d != nil && len(dt.kids) == 1 {
		if e := mirrors(dt.kids[0], d.E); e != "" {
			t.Failf("the operators of the expansion of %v do not mirror its expression %s: %s\n%s", o, d.E.text(), e, trunc(dresp.(*api.ExpandResponse).GoalTree, 3000))
		}
		t.Count("structures mirrored", 1)
	} else if d != nil {
		t.Failf("the expansion of %v has no body", o)
	}
	if len(g.nodes) <= 120 {
		mirrorDot(t, g, dt)
	}
	return len(got)
}

// mirrors compares the operator nodes of an expansion with an expression; rules are ORs over
// relation nodes.
func mirrors(x *goal, e *Expr) string {
	if e.K != 'o' {
		if x.kind != 'o' {
			return fmt.Sprintf("rule %s is shown as %q", e.text(), x.label)
		}
		for _, k := range x.kids {
			if k.kind != 'p' {
				return fmt.Sprintf("rule %s leads to %q", e.text(), k.label)
			}
		}
		return ""
	}
	want := map[byte]byte{'+': 'o', '&': 'a', '-': 'd'}[e.Op]
	if x.kind != want {
		return fmt.Sprintf("operator %c is shown as %q", e.Op, x.label)
	}
	if len(x.kids) != 2 {
		return fmt.Sprintf("operator %c has %d operands", e.Op, len(x.kids))
	}
	if m := mirrors(x.kids[0], e.L); m != "" {
		return m
	}
	return mirrors(x.kids[1], e.R)
}

// mirrorJSON checks, for every expanded object-relation pair, that each rule of its expression
// shows exactly the successors it leads to.
func mirrorJSON(t *T, g *Graph, tree *goal) {
	expanded := map[Node]bool{}
	var rec func(n Node, x *goal, e *Expr)
	rec = func(n Node, x *goal, e *Expr) {
		if e.K == 'o' {
			if (e.Op == '-') != (x.kind == 'd') || len(x.kids) != 2 {
				t.Failf("expansion of %v: operator %c of %s is shown with kind %c and %d operands", n, e.Op, e.text(), x.kind, len(x.kids))
			}
			rec(n, x.kids[0], e.L)
			rec(n, x.kids[1], e.R)
			return
		}
		var got, want []string
		for _, k := range x.kids {
			got = append(got, fmt.Sprintf("%q", k.node))
		}
		for _, k := range g.succ(n, e) {
			want = append(want, fmt.Sprintf("%q", k))
		}
		sort.Strings(got)
		sort.Strings(want)
		want, got = dedup(want), dedup(got)
		if fmt.Sprint(got) != fmt.Sprint(want) {
			t.Failf("expansion of %v: rule %s shows %v, it leads to %v", n, e.text(), got, want)
		}
		t.Count("rules compared", 1)
	}
	tree.walk(func(x *goal) {
		if x.kind == 'p' && x.node.K == 's' && len(x.kids) > 0 {
			expanded[x.node] = true
			if d := g.def(x.node); d != nil {
				rec(x.node, x.kids[0], d.E)
			}
		}
	})
	for n := range g.nodes {
		if n.K == 's' && g.def(n) != nil && !expanded[n] {
			t.Failf("%v appears in the expansion but is nowhere expanded", n)
		}
	}
}

// mirrorDot checks the labels of an expansion in DOT format: they show the reachable nodes, and
// each rule leads to the successors it has.
func mirrorDot(t *T, g *Graph, tree *goal) {
	seen := map[string]bool{}
	names := map[*goal]string{}
	var rec func(n Node, x *goal, e *Expr)
	rec = func(n Node, x *goal, e *Expr) {
		if e.K == 'o' {
			if x.kind != map[byte]byte{'+': 'o', '&': 'a', '-': 'd'}[e.Op] || len(x.kids) != 2 {
				t.Failf("DOT expansion of %v: operator %c of %s is shown as %q with %d operands", n, e.Op, e.text(), x.label, len(x.kids))
			}
			rec(n, x.kids[0], e.L)
			rec(n, x.kids[1], e.R)
			return
		}
		var got, want []string
		for _, k := range x.kids {
			got = append(got, names[k])
		}
		for _, k := range g.succ(n, e) {
			want = append(want, k.String())
		}
		sort.Strings(got)
		sort.Strings(want)
		if want, got = dedup(want), dedup(got); fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
			t.Failf("DOT expansion of %v: rule %s shows %q, it leads to %q", n, e.text(), got, want)
		}
		t.Count("DOT rules compared", 1)
	}
	nodes := map[*goal][]Node{}
	tree.walk(func(x *goal) {
		if x.kind != 'p' {
			return
		}
		c := g.shown(x.label)
		if len(c) == 0 {
			t.Failf("the DOT expansion shows %q, which is not reachable", x.label)
		}
		nodes[x], names[x] = c, c[0].String()
		seen[names[x]] = true
	})
	for n := range g.nodes {
		if !seen[n.String()] {
			t.Failf("the DOT expansion does not show the reachable %v", n)
		}
	}
	tree.walk(func(x *goal) {
		// nodes that read the same cannot be told apart
		if x.kind == 'p' && len(x.kids) > 0 && len(nodes[x]) == 1 {
			if d := g.def(nodes[x][0]); d != nil && nodes[x][0].K == 's' {
				rec(nodes[x][0], x.kids[0], d.E)
			}
		}
	})
}

func dedup(s []string) []string {
	var out []string
	for i, x := range s {
		if i == 0 || x != s[i-1] {
			out = append(out, x)
		}
	}
	return out
}

// ---------------------------------------------------------------- C05

func c05(t *T) {
	s := mustEmbedded(t, newMapKV())
	w := newWorld()
	in := genInst(t, t.Chance(40))
	tuples := in.tuples
	in.tuples = nil
	load(t, s, w, in)
	if t.Chance(50) { // another policy whose relationships must not show up
		q := in.p.clone()
		q.ID = "p2"
		step(t, s, w, &api.CreatePolicyRequest{PolicyDefinition: q.def(t, 0)})
		for _, u := range tuples {
			if t.Chance(30) {
				step(t, s, w, &api.SetRelationshipRequest{PolicyId: "p2", Relationship: u.proto()})
			}
		}
	}
	dump := func() {
		step(t, s, w, &api.DumpRelationshipsRequest{PolicyId: in.p.ID})
		n := len(w.pols[in.p.ID].tuples)
		t.Count("dumps", 1)
		t.Count("edges compared", n)
		if n > 0 {
			dst := map[Node]bool{}
			for u := range w.pols[in.p.ID].tuples {
				dst[u.dst()] = true
			}
			root := false
			for u := range w.pols[in.p.ID].tuples {
				root = root || !dst[u.src()]
			}
			if !root {
				t.Count("dumps without an acyclic root", 1)
			}
		}
	}
	dump()
	for i, u := range tuples {
		step(t, s, w, &api.SetRelationshipRequest{PolicyId: in.p.ID, Relationship: u.proto()})
		if i%4 == 3 || i < 3 {
			dump()
		}
	}
	dump()
	if n := len(w.pols[in.p.ID].tuples); n >= 3 {
		t.Nontrivial(fmt.Sprint(w.pols[in.p.ID].list()))
		t.Sample(map[string]any{"relationships": fmt.Sprint(w.pols[in.p.ID].list())})
	}
	for _, u := range shuffled(t, tuples) {
		step(t, s, w, &api.DeleteRelationshipRequest{PolicyId: in.p.ID, Relationship: u.proto()})
		if t.Chance(30) {
			dump()
		}
	}
	dump()
	step(t, s, w, &api.DumpRelationshipsRequest{PolicyId: "nosuchpolicy"})
}
