package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"sync"

	"github.com/awalterschulze/gographviz"
	"google.golang.org/protobuf/encoding/prototext"
	"google.golang.org/protobuf/proto"

	"github.com/sourcenetwork/zanzi/pkg/api"
	"github.com/sourcenetwork/zanzi/pkg/domain"
)

// World is the reference state: what a correct instance holds.
type World struct{ pols map[string]*PolState }

type PolState struct {
	def    *domain.Policy
	p      *Pol
	app    string
	tuples map[Tuple]string
}

func newWorld() *World { return &World{pols: map[string]*PolState{}} }

func (w *World) clone() *World {
	c := newWorld()
	for k, v := range w.pols {
		n := &PolState{def: v.def, p: v.p, app: v.app, tuples: make(map[Tuple]string, len(v.tuples))}
		for a, b := range v.tuples {
			n.tuples[a] = b
		}
		c.pols[k] = n
	}
	return c
}

func (w *World) ids() []string {
	var out []string
	for k := range w.pols {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (s *PolState) list() []Tuple {
	out := make([]Tuple, 0, len(s.tuples))
	for u := range s.tuples {
		out = append(out, u)
	}
	sort.Slice(out, func(i, j int) bool { return tupleLess(out[i], out[j]) })
	return out
}

func tupleLess(a, b Tuple) bool {
	for _, c := range []int{strings.Compare(a.ORes, b.ORes), strings.Compare(a.OId, b.OId), strings.Compare(a.Rel, b.Rel), int(a.SK) - int(b.SK), strings.Compare(a.SRes, b.SRes), strings.Compare(a.SId, b.SId), strings.Compare(a.SRel, b.SRel)} {
		if c != 0 {
			return c < 0
		}
	}
	return false
}

func (s *PolState) index() Tuples {
	m := Tuples{}
	for u := range s.tuples {
		m[u.src()] = append(m[u.src()], u.dst())
	}
	return m
}

// render is the canonical text of the whole state.
func (w *World) render() string {
	var b strings.Builder
	for _, id := range w.ids() {
		s := w.pols[id]
		fmt.Fprintf(&b, "policy %q %s app=%q\n", id, detText(s.def), s.app)
		for _, u := range s.list() {
			fmt.Fprintf(&b, "  %s app=%q\n", u, s.tuples[u])
		}
	}
	return b.String()
}

func detText(m proto.Message) string {
	b, err := proto.MarshalOptions{Deterministic: true}.Marshal(m)
	if err != nil {
		return prototext.Format(m)
	}
	return fmt.Sprintf("%x", b)
}

// ---------------------------------------------------------------- expectations

type errMode int

const (
	errNever errMode = iota
	errMust
	errMay
	errAny // nothing is claimed about this request
)

// Exp is what a correct instance answers.
type Exp struct {
	err   errMode
	canon string
	why   string
	skip  bool // the content of a successful answer is not judged
}

func must(f string, a ...any) Exp  { return Exp{err: errMust, why: fmt.Sprintf(f, a...)} }
func gives(f string, a ...any) Exp { return Exp{canon: fmt.Sprintf(f, a...)} }

// yamlPolicies maps YAML documents made by the generators to the policy they describe (nil: the
// document must be rejected).
var yamlPolicies sync.Map

func defPolicy(d *api.PolicyDefinition) (*domain.Policy, bool) {
	switch v := d.GetDefinition().(type) {
	case *api.PolicyDefinition_Policy:
		return v.Policy, true
	case *api.PolicyDefinition_PolicyYaml:
		p, ok := yamlPolicies.Load(v.PolicyYaml)
		if !ok {
			return nil, false
		}
		return p.(*domain.Policy), true
	}
	return nil, true
}

// Apply performs a request on the reference state and returns the expected answer. read-only
// requests leave the state alone; so do rejected ones.
func (w *World) Apply(req proto.Message) Exp {
	switch r := req.(type) {
	case *api.CreatePolicyRequest:
		def, known := defPolicy(r.PolicyDefinition)
		if !known {
			return Exp{err: errAny}
		}
		p, v, why := compile(def)
		if def != nil && w.pols[def.GetId()] != nil {
			return must("policy exists")
		}
		switch v {
		case invalid:
			return must("invalid policy: %s", why)
		case unjudged:
			return Exp{err: errAny}
		}
		w.pols[p.ID] = &PolState{def: proto.Clone(def).(*domain.Policy), p: p, app: string(r.AppData), tuples: map[Tuple]string{}}
		return gives("policy %s app=%q", detText(def), r.AppData)
	case *api.UpdatePolicyRequest:
		def, known := defPolicy(r.PolicyDefinition)
		if !known {
			return Exp{err: errAny}
		}
		p, v, why := compile(def)
		if v == invalid {
			return must("invalid policy: %s", why)
		}
		st := w.pols[def.GetId()]
		if st == nil {
			return must("no such policy")
		}
		if v == unjudged {
			return Exp{err: errAny}
		}
		st.def, st.p, st.app = proto.Clone(def).(*domain.Policy), p, string(r.AppData)
		return gives("updated")
	case *api.DeletePolicyRequest:
		st := w.pols[r.Id]
		if st == nil {
			return gives("deleted found=false n=0")
		}
		delete(w.pols, r.Id)
		return gives("deleted found=true n=%d", len(st.tuples))
	case *api.GetPolicyRequest:
		st := w.pols[r.Id]
		if st == nil {
			return gives("none")
		}
		return gives("policy %s app=%q", detText(st.def), st.app)
	case *api.ListPolicyIdsRequest:
		return gives("ids %q", w.ids())
	case *api.SetRelationshipRequest:
		st := w.pols[r.PolicyId]
		if st == nil {
			return must("no such policy")
		}
		u, ok := tupleOf(r.Relationship)
		if !ok {
			return must("incomplete relationship")
		}
		if !st.p.allowed(u) {
			return must("relationship %v not allowed", u)
		}
		_, had := st.tuples[u]
		st.tuples[u] = string(r.AppData)
		return gives("set overwritten=%v", had)
	case *api.DeleteRelationshipRequest:
		u, ok := tupleOf(r.Relationship)
		if !ok {
			return Exp{err: errMay, canon: "deleted found=false"}
		}
		st := w.pols[r.PolicyId]
		if st == nil {
			// the statement of C06 is about relationships of a policy; deleting from a policy that
			// does not exist may be an error or "not found"
			return Exp{err: errMay, canon: "deleted found=false"}
		}
		_, had := st.tuples[u]
		delete(st.tuples, u)
		return gives("deleted found=%v", had)
	case *api.GetRelationshipRequest:
		u, ok := tupleOf(r.Relationship)
		if !ok {
			return Exp{err: errMay, canon: "none"}
		}
		st := w.pols[r.PolicyId]
		if st == nil {
			return Exp{err: errMay, canon: "none"}
		}
		a, had := st.tuples[u]
		if !had {
			return gives("none")
		}
		return gives("%s", recText(r.PolicyId, u, a))
	case *api.FindRelationshipRecordsRequest:
		st := w.pols[r.PolicyId]
		if st == nil {
			return must("no such policy")
		}
		s, ok := selOf(r.Selector)
		if !ok {
			return must("incomplete selector")
		}
		e := Exp{}
		switch s.defined(st.p) {
		case invalid:
			return must("selector names something the policy does not define")
		case unjudged:
			e.err = errMay
		}
		var recs []string
		for u, a := range st.tuples {
			if s.matches(u) {
				recs = append(recs, recText(r.PolicyId, u, a))
			}
		}
		sort.Strings(recs)
		e.canon = fmt.Sprintf("found %d\n%s", len(recs), strings.Join(recs, "\n"))
		return e
	case *api.DeleteRelationshipsRequest:
		s, ok := selOf(r.Selector)
		if !ok {
			return must("incomplete selector")
		}
		st := w.pols[r.PolicyId]
		if st == nil {
			return Exp{err: errMay, canon: "removed 0"}
		}
		n := 0
		for u := range st.tuples {
			if s.matches(u) {
				n++
			}
		}
		if s.defined(st.p) != valid {
			// relationships of relations an update removed can be selected by name; refusing to is
			// not excluded by the statement either, so only generate this where it does not matter
			if n > 0 {
				return Exp{err: errAny}
			}
			return Exp{err: errMay, canon: "removed 0"}
		}
		for u := range st.tuples {
			if s.matches(u) {
				delete(st.tuples, u)
			}
		}
		return gives("removed %d", n)
	case *api.CheckRequest:
		return w.check(r.PolicyId, r.AccessRequest, "authorized=%v")
	case *api.ExplainCheckRequest:
		if _, ok := api.ExplainFormat_name[int32(r.Format)]; !ok {
			return must("unknown format")
		}
		return w.check(r.PolicyId, r.AccessRequest, "authorized=%v format="+r.Format.String())
	case *api.ExpandRequest:
		st := w.pols[r.PolicyId]
		if st == nil {
			return must("no such policy")
		}
		if _, ok := api.ExplainFormat_name[int32(r.Format)]; !ok {
			return must("unknown format")
		}
		n, ok := nodeOf(r.Root)
		if !ok {
			return Exp{err: errAny}
		}
		g := explore(st.p, st.index(), n)
		if g.originUndef {
			return must("relation not defined")
		}
		e := Exp{}
		if g.undefined {
			e.err = errMay
		}
		if r.Format != api.ExplainFormat_JSON {
			e.canon = "expanded " + r.Format.String()
			return e
		}
		e.canon = nodesText(g.nodes)
		return e
	case *api.DumpRelationshipsRequest:
		st := w.pols[r.PolicyId]
		if st == nil {
			return must("no such policy")
		}
		if r.Format != api.DumpRelationshipsRequest_DOT {
			return must("unknown format")
		}
		g := labelled{}
		for u := range st.tuples {
			g.edge(nodeKey(u.src()), u.src().String(), nodeKey(u.dst()), u.dst().String())
		}
		return gives("dump\n%s", g.canon())
	}
	panic(fmt.Sprintf("model: %T", req))
}

func (w *World) check(pid string, a *domain.AccessRequest, f string) Exp {
	st := w.pols[pid]
	if st == nil {
		return must("no such policy")
	}
	if a.GetObject() == nil || a.GetSubject() == nil {
		return Exp{err: errMay, canon: fmt.Sprintf(f, false)}
	}
	g := explore(st.p, st.index(), Node{'s', a.Object.Resource, a.Object.Id, a.Relation})
	if g.originUndef {
		return must("relation not defined")
	}
	e := Exp{skip: g.negCycle}
	if g.undefined {
		e.err = errMay
	}
	e.canon = fmt.Sprintf(f, g.check(a.Subject.Resource, a.Subject.Id))
	return e
}

func recText(pid string, u Tuple, app string) string {
	return fmt.Sprintf("%q %s app=%q", pid, u, app)
}

func nodeOf(n *domain.RelationNode) (Node, bool) {
	switch v := n.GetNode().(type) {
	case *domain.RelationNode_EntitySet:
		if v.EntitySet.GetObject() == nil {
			return Node{}, false
		}
		return Node{'s', v.EntitySet.Object.Resource, v.EntitySet.Object.Id, v.EntitySet.Relation}, true
	case *domain.RelationNode_Entity:
		if v.Entity.GetObject() == nil {
			return Node{}, false
		}
		return Node{'e', v.Entity.Object.Resource, v.Entity.Object.Id, ""}, true
	case *domain.RelationNode_Wildcard:
		if v.Wildcard == nil {
			return Node{}, false
		}
		return Node{'w', v.Wildcard.Resource, "", ""}, true
	}
	return Node{}, false
}

func (n Node) proto() *domain.RelationNode {
	switch n.K {
	case 's':
		return &domain.RelationNode{Node: &domain.RelationNode_EntitySet{EntitySet: &domain.EntitySetNode{Object: ent(n.Res, n.Id), Relation: n.Rel}}}
	case 'e':
		return &domain.RelationNode{Node: &domain.RelationNode_Entity{Entity: &domain.EntityNode{Object: ent(n.Res, n.Id)}}}
	}
	return &domain.RelationNode{Node: &domain.RelationNode_Wildcard{Wildcard: &domain.WildcardNode{Resource: n.Res}}}
}

func nodeKey(n Node) string { return fmt.Sprintf("%c %q %q %q", n.K, n.Res, n.Id, n.Rel) }

func nodesText(ns map[Node]bool) string {
	var out []string
	for n := range ns {
		out = append(out, fmt.Sprintf("%c %q %q %q", n.K, n.Res, n.Id, n.Rel))
	}
	sort.Strings(out)
	return "nodes\n" + strings.Join(out, "\n")
}

// ---------------------------------------------------------------- answers

// canon turns an answer into the text the model predicts. err is non-nil if the answer is not
// well formed.
func canon(req, resp proto.Message) (string, error) {
	switch r := resp.(type) {
	case *api.CreatePolicyResponse:
		if r.GetRecord().GetPolicy() == nil {
			return "", fmt.Errorf("CreatePolicy answered without a policy record")
		}
		return fmt.Sprintf("policy %s app=%q", detText(r.Record.Policy), r.Record.AppData), nil
	case *api.UpdatePolicyResponse:
		return "updated", nil
	case *api.DeletePolicyResponse:
		return fmt.Sprintf("deleted found=%v n=%d", r.Found, r.RelationshipsRemoved), nil
	case *api.GetPolicyResponse:
		if r.Record == nil {
			return "none", nil
		}
		return fmt.Sprintf("policy %s app=%q", detText(r.Record.GetPolicy()), r.Record.AppData), nil
	case *api.ListPolicyIdsResponse:
		ids := []string{}
		for _, x := range r.Records {
			ids = append(ids, x.GetId())
		}
		sort.Strings(ids)
		if len(ids) == 0 {
			ids = nil
		}
		return fmt.Sprintf("ids %q", ids), nil
	case *api.SetRelationshipResponse:
		return fmt.Sprintf("set overwritten=%v", r.RecordOverwritten), nil
	case *api.DeleteRelationshipResponse:
		return fmt.Sprintf("deleted found=%v", r.Found), nil
	case *api.GetRelationshipResponse:
		if r.Record == nil {
			return "none", nil
		}
		u, ok := tupleOf(r.Record.Relationship)
		if !ok {
			return "", fmt.Errorf("GetRelationship answered with an incomplete relationship %v", r.Record)
		}
		return recText(r.Record.PolicyId, u, string(r.Record.AppData)), nil
	case *api.FindRelationshipRecordsResponse:
		var recs []string
		for _, x := range r.GetResult().GetRecords() {
			u, ok := tupleOf(x.GetRelationship())
			if !ok {
				return "", fmt.Errorf("FindRelationshipRecords answered with an incomplete relationship %v", x)
			}
			recs = append(recs, recText(x.PolicyId, u, string(x.AppData)))
		}
		sort.Strings(recs)
		return fmt.Sprintf("found %d\n%s", len(recs), strings.Join(recs, "\n")), nil
	case *api.DeleteRelationshipsResponse:
		return fmt.Sprintf("removed %d", r.RecordsAffected), nil
	case *api.CheckResponse:
		return fmt.Sprintf("authorized=%v", r.GetResult().GetAuthorized()), nil
	case *api.ExplainCheckResponse:
		return fmt.Sprintf("authorized=%v format=%v", r.Authorized, r.Format), nil
	case *api.ExpandResponse:
		q := req.(*api.ExpandRequest)
		if r.Format != q.Format {
			return "", fmt.Errorf("Expand asked for %v and answered %v", q.Format, r.Format)
		}
		if r.Format != api.ExplainFormat_JSON {
			return "expanded " + r.Format.String(), nil
		}
		t, err := parseGoalJSON(r.GoalTree)
		if err != nil {
			return "", err
		}
		ns := map[Node]bool{}
		t.walk(func(g *goal) {
			if g.kind == 'p' {
				ns[g.node] = true
			}
		})
		return nodesText(ns), nil
	case *api.DumpRelationshipResponse:
		g, err := parseDump(r.GetDot())
		if err != nil {
			return "", err
		}
		return "dump\n" + g.canon(), nil
	}
	return "", fmt.Errorf("no response (%T)", resp)
}

// judge compares an answer with the expectation.
func judge(t *T, req, resp proto.Message, err error, e Exp) {
	noPanic(t, req, err)
	if e.err == errAny {
		return
	}
	if err != nil {
		if e.err == errNever {
			t.Failf("%s failed where the model succeeds: %v\nrequest: %s\nexpected: %s", opName(req), err, show(req), trunc(e.canon, 1500))
		}
		return
	}
	if e.err == errMust {
		t.Failf("%s succeeded where it must be refused (%s)\nrequest: %s\nresponse: %s", opName(req), e.why, show(req), show(resp))
	}
	c, cerr := canon(req, resp)
	if cerr != nil {
		t.Failf("%s: malformed answer: %v\nrequest: %s", opName(req), cerr, show(req))
	}
	if e.skip {
		return
	}
	if c != e.canon {
		t.Failf("%s answered wrong\nrequest: %s\nexpected: %s\n     got: %s", opName(req), show(req), trunc(e.canon, 3000), trunc(c, 3000))
	}
}

func show(m proto.Message) string {
	if m == nil {
		return "<nil>"
	}
	return trunc(fmt.Sprintf("%s{%s}", m.ProtoReflect().Descriptor().Name(), prototext.MarshalOptions{Multiline: false}.Format(m)), 2500)
}

// step issues a request, judges the answer against the model and advances the model.
func step(t *T, s Svc, w *World, req proto.Message) (proto.Message, error) {
	t.Log("%s", show(req))
	t.Count("op "+opName(req), 1)
	e := w.Apply(req)
	resp, err := s.Do(t, req)
	judge(t, req, resp, err, e)
	if err != nil {
		t.Count("refused", 1)
	}
	return resp, err
}

// sweep reads everything back through the public interface and compares it with the model.
func sweep(t *T, s Svc, w *World, extraIds ...string) {
	do := func(req proto.Message) {
		e := w.Apply(req) // reads leave the model alone
		resp, err := s.Do(t, req)
		judge(t, req, resp, err, e)
	}
	do(&api.ListPolicyIdsRequest{})
	for _, id := range append(w.ids(), extraIds...) {
		do(&api.GetPolicyRequest{Id: id})
		do(&api.FindRelationshipRecordsRequest{PolicyId: id, Selector: anySel()})
		if st := w.pols[id]; st != nil {
			for _, u := range st.list() {
				do(&api.GetRelationshipRequest{PolicyId: id, Relationship: u.proto()})
			}
		}
	}
	t.Count("sweeps", 1)
}

func anySel() *domain.RelationshipSelector { return Sel{OK: '*', RK: '*', SK: '*'}.proto() }

// ---------------------------------------------------------------- goal trees

type goal struct {
	kind   byte // 'p' path, 'b' branch (OR or AND in JSON), 'o' OR, 'a' AND, 'd' difference
	result string
	node   Node
	label  string
	kids   []*goal
}

func (g *goal) walk(f func(*goal)) {
	if g == nil {
		return
	}
	f(g)
	for _, k := range g.kids {
		k.walk(f)
	}
}

func parseGoalJSON(s string) (*goal, error) {
	var v any
	if err := json.Unmarshal([]byte(s), &v); err != nil {
		return nil, fmt.Errorf("goal tree is not JSON: %v: %s", err, trunc(s, 300))
	}
	return goalFromJSON(v)
}

func field(m map[string]any, names ...string) (any, bool) {
	for k, v := range m {
		for _, n := range names {
			if strings.EqualFold(strings.ReplaceAll(k, "_", ""), n) {
				return v, true
			}
		}
	}
	return nil, false
}

func str(m map[string]any, n string) string {
	v, _ := field(m, n)
	s, _ := v.(string)
	return s
}

func goalFromJSON(v any) (*goal, error) {
	m, ok := v.(map[string]any)
	if !ok {
		return nil, fmt.Errorf("goal tree node is %T", v)
	}
	g := &goal{result: str(m, "result")}
	add := func(v any) error {
		k, err := goalFromJSON(v)
		if err == nil {
			g.kids = append(g.kids, k)
		}
		return err
	}
	if rn, ok := field(m, "relationnode"); ok {
		g.kind = 'p'
		n, err := nodeFromJSON(rn)
		if err != nil {
			return nil, err
		}
		g.node = n
		if p, _ := field(m, "path"); p != nil {
			return g, add(p)
		}
		return g, nil
	}
	if l, ok := field(m, "left"); ok {
		g.kind = 'd'
		r, _ := field(m, "right")
		if err := add(l); err != nil {
			return nil, err
		}
		return g, add(r)
	}
	ps, ok := field(m, "paths")
	if !ok {
		return nil, fmt.Errorf("unknown goal tree node %v", m)
	}
	g.kind = 'b'
	if ps != nil {
		list, ok := ps.([]any)
		if !ok {
			return nil, fmt.Errorf("paths is %T", ps)
		}
		for _, p := range list {
			if err := add(p); err != nil {
				return nil, err
			}
		}
	}
	return g, nil
}

func nodeFromJSON(v any) (Node, error) {
	m, ok := v.(map[string]any)
	if !ok {
		return Node{}, fmt.Errorf("relation node is %T", v)
	}
	if in, ok := field(m, "node"); ok {
		if mm, ok := in.(map[string]any); ok {
			m = mm
		}
	}
	obj := func(m map[string]any) (string, string) {
		o, _ := field(m, "object")
		om, _ := o.(map[string]any)
		return str(om, "resource"), str(om, "id")
	}
	if e, ok := field(m, "entityset"); ok {
		em, _ := e.(map[string]any)
		r, i := obj(em)
		return Node{'s', r, i, str(em, "relation")}, nil
	}
	if e, ok := field(m, "entity"); ok {
		em, _ := e.(map[string]any)
		r, i := obj(em)
		return Node{'e', r, i, ""}, nil
	}
	if e, ok := field(m, "wildcard"); ok {
		em, _ := e.(map[string]any)
		return Node{'w', str(em, "resource"), "", ""}, nil
	}
	return Node{}, fmt.Errorf("unknown relation node %v", m)
}

// unquoteDot undoes the quoting of a DOT string.
func unquoteDot(s string) string {
	if len(s) >= 2 && s[0] == '"' && s[len(s)-1] == '"' {
		s = s[1 : len(s)-1]
	} else {
		return s
	}
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == '\\' && i+1 < len(s) {
			i++
			switch s[i] {
			case 'n':
				b.WriteByte('\n')
			case 'r':
				b.WriteByte('\r')
			default:
				b.WriteByte(s[i])
			}
			continue
		}
		b.WriteByte(s[i])
	}
	return strings.ReplaceAll(b.String(), nulMark, "\x00")
}

// nulMark stands for the NUL character while a document is read: DOT has no way to write it other
// than as it is, and the parser does not read that.
const nulMark = "\ue0f0"

func readDot(s string) (*gographviz.Graph, error) {
	ast, err := gographviz.ParseString(strings.ReplaceAll(s, "\x00", nulMark))
	if err != nil {
		return nil, fmt.Errorf("not a DOT document: %v: %s", err, trunc(s, 500))
	}
	g := gographviz.NewGraph()
	if err := gographviz.Analyse(ast, g); err != nil {
		return nil, fmt.Errorf("not a DOT graph: %v: %s", err, trunc(s, 500))
	}
	return g, nil
}

// labelled is a directed graph whose nodes have labels that need not be unique.
type labelled struct {
	label map[string]string
	edges [][2]string
}

func (g *labelled) edge(a, la, b, lb string) {
	if g.label == nil {
		g.label = map[string]string{}
	}
	g.label[a], g.label[b] = la, lb
	g.edges = append(g.edges, [2]string{a, b})
}

// canon lists the edges by the labels of their ends. Nodes that share a label are told apart by
// the edges around them, so that the text does not depend on the names of the nodes but does show
// whether two of them were merged.
func (g *labelled) canon() string {
	var es []string
	share := map[string]map[string]bool{}
	for _, e := range g.edges {
		es = append(es, g.label[e[0]]+" => "+g.label[e[1]])
		for _, n := range e {
			l := g.label[n]
			if share[l] == nil {
				share[l] = map[string]bool{}
			}
			share[l][n] = true
		}
	}
	sort.Strings(es)
	out := strings.Join(es, "\n")
	for _, l := range sortedKeys(share) {
		if len(share[l]) < 2 {
			continue
		}
		var around []string
		for n := range share[l] {
			var ns []string
			for _, e := range g.edges {
				if e[0] == n {
					ns = append(ns, " => "+g.label[e[1]])
				}
				if e[1] == n {
					ns = append(ns, " <= "+g.label[e[0]])
				}
			}
			sort.Strings(ns)
			around = append(around, fmt.Sprint(ns))
		}
		sort.Strings(around)
		out += fmt.Sprintf("\n%d nodes are called %s: %q", len(share[l]), l, around)
	}
	return out
}

// parseDump reads the edges of a dump, leaving out the artificial root.
func parseDump(s string) (*labelled, error) {
	g, err := readDot(s)
	if err != nil {
		return nil, err
	}
	label := map[string]string{}
	for _, n := range g.Nodes.Nodes {
		l, ok := n.Attrs["label"]
		if !ok {
			l = n.Name
		}
		label[n.Name] = unquoteDot(l)
	}
	out := &labelled{}
	for _, e := range g.Edges.Edges {
		a, ok1 := label[e.Src]
		b, ok2 := label[e.Dst]
		if !ok1 || !ok2 {
			return nil, fmt.Errorf("dump edge %s -> %s names an undeclared node", e.Src, e.Dst)
		}
		if a == "root" {
			continue
		}
		out.edge(e.Src, a, e.Dst, b)
	}
	return out, nil
}

// parseGoalDot reads a goal tree in DOT format. Children keep the order of their ids.
func parseGoalDot(s string) (*goal, error) {
	g, err := readDot(s)
	if err != nil {
		return nil, err
	}
	nodes := map[string]*goal{}
	for _, n := range g.Nodes.Nodes {
		l := unquoteDot(n.Attrs["label"])
		x := &goal{label: l}
		switch {
		case strings.HasPrefix(l, "PathNode"):
			x.kind = 'p'
		case strings.HasPrefix(l, "ORNode"):
			x.kind = 'o'
		case strings.HasPrefix(l, "ANDNode"):
			x.kind = 'a'
		case strings.HasPrefix(l, "DifferenceNode"):
			x.kind = 'd'
		case l == "":
			x.kind = 'r'
		default:
			return nil, fmt.Errorf("unknown goal tree label %q", l)
		}
		if i := strings.LastIndex(l, "result: "); i >= 0 {
			x.result = l[i+len("result: "):]
		}
		nodes[unquoteDot(n.Name)] = x
	}
	parents := map[*goal]int{}
	for _, e := range g.Edges.Sorted() {
		_ = e
	}
	es := append([]*gographviz.Edge(nil), g.Edges.Edges...)
	sort.SliceStable(es, func(i, j int) bool {
		a, b := unquoteDot(es[i].Dst), unquoteDot(es[j].Dst)
		if len(a) != len(b) {
			return len(a) < len(b)
		}
		return a < b
	})
	for _, e := range es {
		a, b := nodes[unquoteDot(e.Src)], nodes[unquoteDot(e.Dst)]
		if a == nil || b == nil {
			return nil, fmt.Errorf("goal tree edge %s -> %s names an undeclared node", e.Src, e.Dst)
		}
		a.kids = append(a.kids, b)
		parents[b]++
	}
	root := nodes["root"]
	if root == nil || len(root.kids) != 1 {
		return nil, fmt.Errorf("goal tree has no single root")
	}
	n := 0
	root.kids[0].walk(func(*goal) { n++ })
	if n != len(nodes)-1 {
		return nil, fmt.Errorf("goal tree has %d nodes of which %d hang from the root", len(nodes)-1, n)
	}
	for x, p := range parents {
		if p != 1 {
			return nil, fmt.Errorf("goal tree node %q has %d parents", x.label, p)
		}
	}
	return root.kids[0], nil
}

// sane checks that the recorded results follow from the children under the operators.
func (g *goal) sane() error {
	var err error
	g.walk(func(n *goal) {
		if err != nil || n.result == "UNKNOWN" || len(n.kids) == 0 && n.kind == 'p' {
			return
		}
		if n.result != "SUCCESS" && n.result != "FAILURE" {
			err = fmt.Errorf("node result is %q", n.result)
			return
		}
		all, some := true, false
		for _, k := range n.kids {
			s := k.result == "SUCCESS"
			all = all && s
			some = some || s
		}
		ok := n.result == "SUCCESS"
		bad := false
		switch n.kind {
		case 'p':
			bad = len(n.kids) != 1 || n.result != n.kids[0].result
		case 'o':
			bad = ok != some
		case 'a':
			bad = ok != all
		case 'b': // JSON does not tell OR from AND
			bad = ok && !some || !ok && all && len(n.kids) > 0
		case 'd':
			bad = len(n.kids) != 2 || ok != (n.kids[0].result == "SUCCESS" && n.kids[1].result != "SUCCESS")
		}
		if bad {
			var ks []string
			for _, k := range n.kids {
				ks = append(ks, k.result)
			}
			err = fmt.Errorf("node of kind %c %v %q is recorded %s over children %v", n.kind, n.node, n.label, n.result, ks)
		}
	})
	return err
}
