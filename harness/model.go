package main

import (
	"fmt"
	"sort"
	"strings"
	"unicode"
	"unicode/utf8"

	"google.golang.org/protobuf/proto"

	"github.com/sourcenetwork/zanzi/pkg/domain"
)

// ---------------------------------------------------------------- expressions

type Expr struct {
	K    byte   // 't' this, 'c' computed userset, 'u' tuple to userset, 'o' operator
	A, B string // c: A target; u: A tupleset, B computed relation
	Op   byte   // '+', '&', '-'
	L, R *Expr
}

func eThis() *Expr                        { return &Expr{K: 't'} }
func eCU(r string) *Expr                  { return &Expr{K: 'c', A: r} }
func eTTU(a, b string) *Expr              { return &Expr{K: 'u', A: a, B: b} }
func eOp(l *Expr, op byte, r *Expr) *Expr { return &Expr{K: 'o', Op: op, L: l, R: r} }

// text prints a fully parenthesised expression.
func (e *Expr) text() string {
	switch e.K {
	case 't':
		return "_this"
	case 'c':
		return e.A
	case 'u':
		return e.A + "->" + e.B
	}
	return "(" + e.L.text() + " " + string(e.Op) + " " + e.R.text() + ")"
}

// pretty prints with as few parentheses as left association allows.
func (e *Expr) pretty() string {
	if e.K != 'o' {
		return e.text()
	}
	r := e.R.pretty()
	if e.R.K == 'o' {
		r = "(" + r + ")"
	}
	return e.L.pretty() + " " + string(e.Op) + " " + r
}

func (e *Expr) tree() *domain.RelationExpressionTree {
	switch e.K {
	case 't':
		return &domain.RelationExpressionTree{Node: &domain.RelationExpressionTree_Rule{Rule: &domain.Rule{Rule: &domain.Rule_This{This: &domain.This{}}}}}
	case 'c':
		return &domain.RelationExpressionTree{Node: &domain.RelationExpressionTree_Rule{Rule: &domain.Rule{Rule: &domain.Rule_Cu{Cu: &domain.ComputedUserset{TargetRelation: e.A}}}}}
	case 'u':
		return &domain.RelationExpressionTree{Node: &domain.RelationExpressionTree_Rule{Rule: &domain.Rule{Rule: &domain.Rule_Ttu{Ttu: &domain.TupleToUserset{TuplesetRelation: e.A, ComputedUsersetRelation: e.B}}}}}
	}
	op := map[byte]domain.Operator{'+': domain.Operator_UNION, '&': domain.Operator_INTERSECTION, '-': domain.Operator_DIFFERENCE}[e.Op]
	return &domain.RelationExpressionTree{Node: &domain.RelationExpressionTree_OpNode{OpNode: &domain.OpNode{Left: e.L.tree(), Operator: op, Right: e.R.tree()}}}
}

func (e *Expr) leaves(f func(*Expr)) {
	if e.K == 'o' {
		e.L.leaves(f)
		e.R.leaves(f)
		return
	}
	f(e)
}

// identifiers reports whether all names in the expression can be written as text.
func (e *Expr) textable() bool {
	ok := true
	e.leaves(func(l *Expr) {
		if l.K == 'c' && !isIdent(l.A) || l.K == 'u' && !(isIdent(l.A) && isIdent(l.B)) {
			ok = false
		}
	})
	return ok
}

func isIdentRune(r rune) bool { return unicode.IsLetter(r) || unicode.IsDigit(r) || r == '_' }

func isIdent(s string) bool {
	if s == "" || s == "_this" || !utf8.ValidString(s) {
		return false
	}
	for _, r := range s {
		if !isIdentRune(r) {
			return false
		}
	}
	return true
}

// parseExpr is the oracle for the documented grammar. It is written from the documentation
// (equal precedence, left associative, maximal munch), not from the library's parser.
func parseExpr(s string) (*Expr, bool) {
	var toks []string
	for i := 0; i < len(s); {
		r, w := utf8.DecodeRuneInString(s[i:])
		switch {
		case r == utf8.RuneError && w <= 1:
			return nil, false
		case unicode.IsSpace(r):
			i += w
		case isIdentRune(r):
			j := i
			for j < len(s) {
				r, w := utf8.DecodeRuneInString(s[j:])
				if !isIdentRune(r) {
					break
				}
				j += w
			}
			toks = append(toks, s[i:j])
			i = j
		case strings.HasPrefix(s[i:], "->"):
			toks = append(toks, "->")
			i += 2
		case strings.ContainsRune("()+-&", r):
			toks = append(toks, string(r))
			i++
		default:
			return nil, false
		}
	}
	// shunting over an explicit stack, so that nesting depth is no concern
	type frame struct {
		acc *Expr
		op  byte
	}
	stack := []frame{{}}
	i := 0
	wantTerm := true
	put := func(e *Expr) {
		f := &stack[len(stack)-1]
		if f.acc == nil {
			f.acc = e
		} else {
			f.acc = eOp(f.acc, f.op, e)
		}
		wantTerm = false
	}
	ident := func(t string) bool { r, _ := utf8.DecodeRuneInString(t); return isIdentRune(r) }
	for i < len(toks) {
		t := toks[i]
		if wantTerm {
			switch {
			case t == "(":
				stack = append(stack, frame{})
				i++
			case t == "_this":
				put(eThis())
				i++
			case ident(t):
				if i+1 < len(toks) && toks[i+1] == "->" {
					if i+2 >= len(toks) || !ident(toks[i+2]) || toks[i+2] == "_this" {
						return nil, false
					}
					put(eTTU(t, toks[i+2]))
					i += 3
				} else {
					put(eCU(t))
					i++
				}
			default:
				return nil, false
			}
			continue
		}
		switch t {
		case "+", "-", "&":
			stack[len(stack)-1].op = t[0]
			wantTerm = true
			i++
		case ")":
			if len(stack) == 1 {
				return nil, false
			}
			e := stack[len(stack)-1].acc
			stack = stack[:len(stack)-1]
			put(e)
			i++
		default:
			return nil, false
		}
	}
	if wantTerm || len(stack) != 1 {
		return nil, false
	}
	return stack[0].acc, true
}

func exprFromTree(t *domain.RelationExpressionTree) (*Expr, bool) {
	switch n := t.GetNode().(type) {
	case *domain.RelationExpressionTree_Rule:
		switch r := n.Rule.GetRule().(type) {
		case *domain.Rule_This:
			return eThis(), true
		case *domain.Rule_Cu:
			return eCU(r.Cu.GetTargetRelation()), true
		case *domain.Rule_Ttu:
			return eTTU(r.Ttu.GetTuplesetRelation(), r.Ttu.GetComputedUsersetRelation()), true
		}
	case *domain.RelationExpressionTree_OpNode:
		l, ok := exprFromTree(n.OpNode.GetLeft())
		if !ok {
			return nil, false
		}
		r, ok := exprFromTree(n.OpNode.GetRight())
		if !ok {
			return nil, false
		}
		switch n.OpNode.GetOperator() {
		case domain.Operator_UNION:
			return eOp(l, '+', r), true
		case domain.Operator_INTERSECTION:
			return eOp(l, '&', r), true
		case domain.Operator_DIFFERENCE:
			return eOp(l, '-', r), true
		}
	}
	return nil, false
}

// ---------------------------------------------------------------- policies

type Restr struct{ Res, Rel string } // Rel == "": entity restriction

type RelDef struct {
	Name, Desc string
	E          *Expr
	Form       byte   // how the expression is given: 'x' tree, 'p' pretty text, 'f' full text, 'r' raw text
	Raw        string // for 'r'
	Restr      byte   // '*' universal, 's' set, 0 absent
	Allow      []Restr
}

type ResDef struct {
	Name, Desc string
	Rels       []*RelDef
}

type Pol struct {
	ID, Name, Desc string
	Attrs          map[string]string
	Res            []*ResDef
}

func (p *Pol) res(n string) *ResDef {
	for _, r := range p.Res {
		if r.Name == n {
			return r
		}
	}
	return nil
}

func (p *Pol) rel(res, rel string) *RelDef {
	if r := p.res(res); r != nil {
		for _, d := range r.Rels {
			if d.Name == rel {
				return d
			}
		}
	}
	return nil
}

func (d *RelDef) exprText() string {
	switch d.Form {
	case 'f':
		return d.E.text()
	case 'r':
		return d.Raw
	}
	return d.E.pretty()
}

func (p *Pol) proto() *domain.Policy {
	out := &domain.Policy{Id: p.ID, Name: p.Name, Description: p.Desc}
	if len(p.Attrs) > 0 {
		out.Attributes = map[string]string{}
		for k, v := range p.Attrs {
			out.Attributes[k] = v
		}
	}
	for _, r := range p.Res {
		res := &domain.Resource{Name: r.Name, Description: r.Desc}
		for _, d := range r.Rels {
			rel := &domain.Relation{Name: d.Name, Description: d.Desc, SubjectRestriction: restrProto(d)}
			if d.Form == 'x' {
				rel.RelationExpression = &domain.RelationExpression{Expression: &domain.RelationExpression_Tree{Tree: d.E.tree()}}
			} else {
				rel.RelationExpression = &domain.RelationExpression{Expression: &domain.RelationExpression_Expr{Expr: d.exprText()}}
			}
			res.Relations = append(res.Relations, rel)
		}
		out.Resources = append(out.Resources, res)
	}
	return out
}

func restrProto(d *RelDef) *domain.SubjectRestriction {
	switch d.Restr {
	case '*':
		return &domain.SubjectRestriction{SubjectRestriction: &domain.SubjectRestriction_UniversalSet{UniversalSet: &domain.UniversalSet{}}}
	case 's':
		set := &domain.SubjectRestrictionSet{}
		for _, a := range d.Allow {
			if a.Rel == "" {
				set.Restrictions = append(set.Restrictions, &domain.SubjectRestrictionSet_Restriction{Entry: &domain.SubjectRestrictionSet_Restriction_Entity{Entity: &domain.EntityRestriction{ResourceName: a.Res}}})
			} else {
				set.Restrictions = append(set.Restrictions, &domain.SubjectRestrictionSet_Restriction{Entry: &domain.SubjectRestrictionSet_Restriction_EntitySet{EntitySet: &domain.EntitySetRestriction{ResourceName: a.Res, RelationName: a.Rel}}})
			}
		}
		return &domain.SubjectRestriction{SubjectRestriction: &domain.SubjectRestriction_RestrictionSet{RestrictionSet: set}}
	}
	return nil
}

type verdict int

const (
	invalid verdict = iota
	valid
	unjudged // the statement does not say
)

// compile is the oracle of C09: it decides whether a structured policy is well formed and
// translates it to the model.
func compile(p *domain.Policy) (*Pol, verdict, string) {
	if p == nil {
		return nil, invalid, "absent policy"
	}
	out := &Pol{ID: p.GetId(), Name: p.GetName(), Desc: p.GetDescription(), Attrs: p.GetAttributes()}
	judge, why := valid, ""
	bad := func(f string, a ...any) (*Pol, verdict, string) { return nil, invalid, fmt.Sprintf(f, a...) }
	if p.GetId() == "" {
		return bad("empty policy id")
	}
	resNames := map[string]map[string]bool{}
	for _, r := range p.GetResources() {
		if r.GetName() == "" {
			return bad("empty resource name")
		}
		if _, dup := resNames[r.GetName()]; dup {
			return bad("duplicate resource %q", r.GetName())
		}
		m := map[string]bool{}
		resNames[r.GetName()] = m
		for _, d := range r.GetRelations() {
			if d.GetName() == "" {
				return bad("empty relation name")
			}
			if m[d.GetName()] {
				return bad("duplicate relation %q", d.GetName())
			}
			m[d.GetName()] = true
		}
	}
	for _, r := range p.GetResources() {
		rd := &ResDef{Name: r.GetName(), Desc: r.GetDescription()}
		out.Res = append(out.Res, rd)
		for _, d := range r.GetRelations() {
			m := &RelDef{Name: d.GetName(), Desc: d.GetDescription()}
			rd.Rels = append(rd.Rels, m)
			var ok bool
			switch e := d.GetRelationExpression().GetExpression().(type) {
			case *domain.RelationExpression_Expr:
				m.Form, m.Raw = 'r', e.Expr
				if m.E, ok = parseExpr(e.Expr); !ok {
					return bad("relation %q: expression %q is not in the grammar", d.GetName(), e.Expr)
				}
			case *domain.RelationExpression_Tree:
				m.Form = 'x'
				if m.E, ok = exprFromTree(e.Tree); !ok {
					return bad("relation %q: incomplete tree", d.GetName())
				}
			default:
				return bad("relation %q: no expression", d.GetName())
			}
			bads := ""
			m.E.leaves(func(l *Expr) {
				switch l.K {
				case 'c':
					if !resNames[rd.Name][l.A] {
						bads = fmt.Sprintf("relation %q: unknown computed userset %q", d.GetName(), l.A)
					}
				case 'u':
					if !resNames[rd.Name][l.A] {
						bads = fmt.Sprintf("relation %q: unknown tupleset %q", d.GetName(), l.A)
					} else if l.B == "" {
						bads = "incomplete tuple to userset"
					}
				}
			})
			if bads != "" {
				return bad("%s", bads)
			}
			switch s := d.GetSubjectRestriction().GetSubjectRestriction().(type) {
			case *domain.SubjectRestriction_UniversalSet:
				m.Restr = '*'
			case *domain.SubjectRestriction_RestrictionSet:
				m.Restr = 's'
				for _, e := range s.RestrictionSet.GetRestrictions() {
					switch v := e.GetEntry().(type) {
					case *domain.SubjectRestrictionSet_Restriction_Entity:
						n := v.Entity.GetResourceName()
						if resNames[n] == nil {
							return bad("restriction names unknown resource %q", n)
						}
						m.Allow = append(m.Allow, Restr{Res: n})
					case *domain.SubjectRestrictionSet_Restriction_EntitySet:
						n, rl := v.EntitySet.GetResourceName(), v.EntitySet.GetRelationName()
						if !resNames[n][rl] {
							return bad("restriction names unknown relation %q:%q", n, rl)
						}
						m.Allow = append(m.Allow, Restr{Res: n, Rel: rl})
					default:
						judge, why = unjudged, "restriction without variant"
					}
				}
			default:
				if d.GetSubjectRestriction() != nil {
					judge, why = unjudged, "subject restriction without variant"
				}
			}
		}
	}
	return out, judge, why
}

// ---------------------------------------------------------------- relationships

// Tuple is a relationship. SK: 'e' entity, 's' userset, 'w' resource-wide.
type Tuple struct {
	ORes, OId, Rel  string
	SK              byte
	SRes, SId, SRel string
}

func (u Tuple) String() string {
	switch u.SK {
	case 's':
		return fmt.Sprintf("%q:%q#%q@(%q:%q#%q)", u.ORes, u.OId, u.Rel, u.SRes, u.SId, u.SRel)
	case 'w':
		return fmt.Sprintf("%q:%q#%q@(%q:*)", u.ORes, u.OId, u.Rel, u.SRes)
	}
	return fmt.Sprintf("%q:%q#%q@(%q:%q)", u.ORes, u.OId, u.Rel, u.SRes, u.SId)
}

func ent(res, id string) *domain.Entity { return &domain.Entity{Resource: res, Id: id} }

func (u Tuple) subject() *domain.Subject {
	switch u.SK {
	case 's':
		return &domain.Subject{Subject: &domain.Subject_EntitySet{EntitySet: &domain.EntitySet{Entity: ent(u.SRes, u.SId), Relation: u.SRel}}}
	case 'w':
		return &domain.Subject{Subject: &domain.Subject_ResourceSet{ResourceSet: &domain.ResourceSet{ResourceName: u.SRes}}}
	}
	return &domain.Subject{Subject: &domain.Subject_Entity{Entity: ent(u.SRes, u.SId)}}
}

func (u Tuple) proto() *domain.Relationship {
	return &domain.Relationship{Object: ent(u.ORes, u.OId), Relation: u.Rel, Subject: u.subject()}
}

// tupleOf reads a relationship message; ok is false if a part is absent.
func tupleOf(r *domain.Relationship) (u Tuple, ok bool) {
	if r.GetObject() == nil {
		return u, false
	}
	u = Tuple{ORes: r.Object.Resource, OId: r.Object.Id, Rel: r.Relation}
	switch s := r.GetSubject().GetSubject().(type) {
	case *domain.Subject_Entity:
		if s.Entity == nil {
			return u, false
		}
		u.SK, u.SRes, u.SId = 'e', s.Entity.Resource, s.Entity.Id
	case *domain.Subject_EntitySet:
		if s.EntitySet.GetEntity() == nil {
			return u, false
		}
		u.SK, u.SRes, u.SId, u.SRel = 's', s.EntitySet.Entity.Resource, s.EntitySet.Entity.Id, s.EntitySet.Relation
	case *domain.Subject_ResourceSet:
		if s.ResourceSet == nil {
			return u, false
		}
		u.SK, u.SRes = 'w', s.ResourceSet.ResourceName
	default:
		return u, false
	}
	return u, true
}

// allowed is the oracle of C10.
func (p *Pol) allowed(u Tuple) bool {
	if u.OId == "" || u.Rel == "" || u.ORes == "" || u.SRes == "" {
		return false
	}
	if u.SK != 'w' && u.SId == "" || u.SK == 's' && u.SRel == "" {
		return false
	}
	d := p.rel(u.ORes, u.Rel)
	if d == nil || p.res(u.SRes) == nil {
		return false
	}
	if u.SK == 's' && p.rel(u.SRes, u.SRel) == nil {
		return false
	}
	switch d.Restr {
	case '*':
		return true
	case 's':
		for _, a := range d.Allow {
			if a.Res == u.SRes && (u.SK == 's') == (a.Rel != "") && (u.SK != 's' || a.Rel == u.SRel) {
				return true
			}
		}
	}
	return false
}

// ---------------------------------------------------------------- reference semantics

// Node of the relation graph. K: 's' object-relation pair, 'e' entity, 'w' resource-wide subject.
type Node struct {
	K            byte
	Res, Id, Rel string
}

func (n Node) String() string {
	switch n.K {
	case 's':
		return fmt.Sprintf("(%s:%s, %s)", n.Res, n.Id, n.Rel)
	case 'w':
		return fmt.Sprintf("(%s:*)", n.Res)
	}
	return fmt.Sprintf("(%s:%s)", n.Res, n.Id)
}

func (u Tuple) src() Node { return Node{'s', u.ORes, u.OId, u.Rel} }
func (u Tuple) dst() Node {
	switch u.SK {
	case 's':
		return Node{'s', u.SRes, u.SId, u.SRel}
	case 'w':
		return Node{'w', u.SRes, "", ""}
	}
	return Node{'e', u.SRes, u.SId, ""}
}

// Graph is the part of the relation graph reachable from an origin.
type Graph struct {
	p           *Pol
	out         map[Node][]Node // stored relationships
	origin      Node
	nodes       map[Node]bool
	order       []Node // set nodes
	undefined   bool   // a reachable set node names a relation the policy does not define
	originUndef bool
	negCycle    bool
	sccs        [][]Node // reverse topological order
	edges       int
}

type Tuples map[Node][]Node

func index(ts []Tuple) Tuples {
	m := Tuples{}
	for _, u := range ts {
		m[u.src()] = append(m[u.src()], u.dst())
	}
	for _, v := range m {
		sort.Slice(v, func(i, j int) bool { return v[i].String() < v[j].String() })
	}
	return m
}

// succ lists the nodes a leaf rule leads to.
func (g *Graph) succ(n Node, l *Expr) []Node {
	switch l.K {
	case 't':
		return g.out[n]
	case 'c':
		return []Node{{'s', n.Res, n.Id, l.A}}
	}
	var o []Node
	for _, d := range g.out[Node{'s', n.Res, n.Id, l.A}] {
		if d.K != 'w' {
			o = append(o, Node{'s', d.Res, d.Id, l.B})
		}
	}
	return o
}

func (g *Graph) def(n Node) *RelDef {
	if n.K != 's' {
		return nil
	}
	return g.p.rel(n.Res, n.Rel)
}

type depEdge struct {
	to  Node
	neg bool
}

func (g *Graph) deps(n Node) []depEdge {
	d := g.def(n)
	if d == nil {
		return nil
	}
	var out []depEdge
	var walk func(e *Expr, neg bool)
	walk = func(e *Expr, neg bool) {
		if e.K == 'o' {
			walk(e.L, neg)
			walk(e.R, neg || e.Op == '-')
			return
		}
		for _, s := range g.succ(n, e) {
			out = append(out, depEdge{s, neg})
		}
	}
	walk(d.E, false)
	return out
}

func explore(p *Pol, tuples Tuples, origin Node) *Graph {
	g := &Graph{p: p, out: tuples, origin: origin, nodes: map[Node]bool{origin: true}}
	if origin.K == 's' && p.rel(origin.Res, origin.Rel) == nil {
		g.originUndef = true
	}
	depsOf := map[Node][]depEdge{}
	queue := []Node{origin}
	for len(queue) > 0 {
		n := queue[0]
		queue = queue[1:]
		if n.K != 's' {
			continue
		}
		g.order = append(g.order, n)
		if g.def(n) == nil {
			g.undefined = true
		}
		ds := g.deps(n)
		depsOf[n] = ds
		g.edges += len(ds)
		for _, d := range ds {
			if !g.nodes[d.to] {
				g.nodes[d.to] = true
				queue = append(queue, d.to)
			}
		}
	}
	// strongly connected components, iterative Tarjan
	idx := map[Node]int{}
	low := map[Node]int{}
	comp := map[Node]int{}
	on := map[Node]bool{}
	var st []Node
	type fr struct {
		n Node
		i int
	}
	for _, root := range g.order {
		if _, ok := idx[root]; ok {
			continue
		}
		fs := []fr{{root, 0}}
		for len(fs) > 0 {
			f := &fs[len(fs)-1]
			if f.i == 0 {
				idx[f.n] = len(idx)
				low[f.n] = idx[f.n]
				st = append(st, f.n)
				on[f.n] = true
			}
			ds := depsOf[f.n]
			adv := false
			for f.i < len(ds) {
				d := ds[f.i].to
				f.i++
				if d.K != 's' {
					continue
				}
				if _, ok := idx[d]; !ok {
					fs = append(fs, fr{d, 0})
					adv = true
					break
				} else if on[d] && idx[d] < low[f.n] {
					low[f.n] = idx[d]
				}
			}
			if adv {
				continue
			}
			if f.i == 0 {
				f.i = 1
			}
			n := f.n
			fs = fs[:len(fs)-1]
			if len(fs) > 0 && low[n] < low[fs[len(fs)-1].n] {
				low[fs[len(fs)-1].n] = low[n]
			}
			if low[n] == idx[n] {
				var c []Node
				for {
					m := st[len(st)-1]
					st = st[:len(st)-1]
					on[m] = false
					comp[m] = len(g.sccs)
					c = append(c, m)
					if m == n {
						break
					}
				}
				g.sccs = append(g.sccs, c)
			}
		}
	}
	for n, ds := range depsOf {
		for _, d := range ds {
			if d.neg && d.to.K == 's' && comp[d.to] == comp[n] {
				g.negCycle = true
			}
		}
	}
	return g
}

// members computes, for every reachable object-relation pair, whether the subject is in the
// set it denotes (least fixpoint, stratum by stratum).
func (g *Graph) members(sRes, sId string) map[Node]bool {
	val := map[Node]bool{}
	in := func(n Node) bool {
		switch n.K {
		case 'e':
			return n.Res == sRes && n.Id == sId
		case 'w':
			return n.Res == sRes
		}
		return val[n]
	}
	var ev func(n Node, e *Expr) bool
	ev = func(n Node, e *Expr) bool {
		if e.K == 'o' {
			l, r := ev(n, e.L), ev(n, e.R)
			switch e.Op {
			case '+':
				return l || r
			case '&':
				return l && r
			}
			return l && !r
		}
		for _, s := range g.succ(n, e) {
			if in(s) {
				return true
			}
		}
		return false
	}
	for _, c := range g.sccs {
		for rounds := 0; rounds <= len(c)+1; rounds++ {
			changed := false
			for _, n := range c {
				d := g.def(n)
				if d == nil || val[n] {
					continue
				}
				if ev(n, d.E) {
					val[n] = true
					changed = true
				}
			}
			if !changed {
				break
			}
		}
	}
	return val
}

func (g *Graph) check(sRes, sId string) bool { return g.members(sRes, sId)[g.origin] }

// ---------------------------------------------------------------- selectors

// Sel is a selector. OK/SK: '*' any, 'o'/'x' specific, 'r' resource. RK: '*' or 'n'.
type Sel struct {
	OK        byte
	ORes, OId string
	RK        byte
	Rel       string
	SK        byte
	SRes      string
	S         Tuple // specific subject, only its subject fields
}

func (s Sel) proto() *domain.RelationshipSelector {
	out := &domain.RelationshipSelector{}
	switch s.OK {
	case '*':
		out.ObjectSelector = &domain.ObjectSelector{Selector: &domain.ObjectSelector_Wildcard{Wildcard: &domain.WildcardSelector{}}}
	case 'o':
		out.ObjectSelector = &domain.ObjectSelector{Selector: &domain.ObjectSelector_ObjectSpec{ObjectSpec: ent(s.ORes, s.OId)}}
	case 'r':
		out.ObjectSelector = &domain.ObjectSelector{Selector: &domain.ObjectSelector_ResourceSpec{ResourceSpec: s.ORes}}
	}
	switch s.RK {
	case '*':
		out.RelationSelector = &domain.RelationSelector{Selector: &domain.RelationSelector_Wildcard{Wildcard: &domain.WildcardSelector{}}}
	case 'n':
		out.RelationSelector = &domain.RelationSelector{Selector: &domain.RelationSelector_RelationName{RelationName: s.Rel}}
	}
	switch s.SK {
	case '*':
		out.SubjectSelector = &domain.SubjectSelector{Selector: &domain.SubjectSelector_Wildcard{Wildcard: &domain.WildcardSelector{}}}
	case 'x':
		out.SubjectSelector = &domain.SubjectSelector{Selector: &domain.SubjectSelector_SubjectSpec{SubjectSpec: s.S.subject()}}
	case 'r':
		out.SubjectSelector = &domain.SubjectSelector{Selector: &domain.SubjectSelector_ResourceSpec{ResourceSpec: s.SRes}}
	}
	return out
}

// selOf reads a selector message; ok is false if a part is absent.
func selOf(m *domain.RelationshipSelector) (s Sel, ok bool) {
	switch o := m.GetObjectSelector().GetSelector().(type) {
	case *domain.ObjectSelector_Wildcard:
		s.OK = '*'
	case *domain.ObjectSelector_ObjectSpec:
		if o.ObjectSpec == nil {
			return s, false
		}
		s.OK, s.ORes, s.OId = 'o', o.ObjectSpec.Resource, o.ObjectSpec.Id
	case *domain.ObjectSelector_ResourceSpec:
		s.OK, s.ORes = 'r', o.ResourceSpec
	default:
		return s, false
	}
	switch o := m.GetRelationSelector().GetSelector().(type) {
	case *domain.RelationSelector_Wildcard:
		s.RK = '*'
	case *domain.RelationSelector_RelationName:
		s.RK, s.Rel = 'n', o.RelationName
	default:
		return s, false
	}
	switch o := m.GetSubjectSelector().GetSelector().(type) {
	case *domain.SubjectSelector_Wildcard:
		s.SK = '*'
	case *domain.SubjectSelector_ResourceSpec:
		s.SK, s.SRes = 'r', o.ResourceSpec
	case *domain.SubjectSelector_SubjectSpec:
		s.SK = 'x'
		u, k := tupleOf(&domain.Relationship{Object: &domain.Entity{}, Subject: o.SubjectSpec})
		if !k {
			return s, false
		}
		s.S = u
	default:
		return s, false
	}
	return s, true
}

func (s Sel) matches(u Tuple) bool {
	switch s.OK {
	case 'o':
		if u.ORes != s.ORes || u.OId != s.OId {
			return false
		}
	case 'r':
		if u.ORes != s.ORes {
			return false
		}
	}
	if s.RK == 'n' && u.Rel != s.Rel {
		return false
	}
	switch s.SK {
	case 'r':
		return u.SRes == s.SRes
	case 'x':
		return u.SK == s.S.SK && u.SRes == s.S.SRes && u.SId == s.S.SId && u.SRel == s.S.SRel
	}
	return true
}

// defined tells whether every name in the selector is one the policy defines; unjudged if the
// only undefined name is the relation of a userset subject.
func (s Sel) defined(p *Pol) verdict {
	switch s.OK {
	case 'o', 'r':
		if p.res(s.ORes) == nil {
			return invalid
		}
		if s.RK == 'n' && p.rel(s.ORes, s.Rel) == nil {
			return invalid
		}
	default:
		if s.RK == 'n' {
			ok := false
			for _, r := range p.Res {
				ok = ok || p.rel(r.Name, s.Rel) != nil
			}
			if !ok {
				return invalid
			}
		}
	}
	switch s.SK {
	case 'r':
		if p.res(s.SRes) == nil {
			return invalid
		}
	case 'x':
		if p.res(s.S.SRes) == nil {
			return invalid
		}
		if s.S.SK == 's' && p.rel(s.S.SRes, s.S.SRel) == nil {
			return unjudged
		}
	}
	return valid
}

func sameMsg(a, b proto.Message) bool { return proto.Equal(a, b) }
