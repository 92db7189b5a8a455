package main

import (
	"fmt"
	"strings"

	"google.golang.org/protobuf/proto"

	"github.com/sourcenetwork/zanzi/pkg/api"
	"github.com/sourcenetwork/zanzi/pkg/domain"
)

func init() {
	checks["C12"] = check{level: "exploration",
		rule:   "Part one: random, mutated and enumerated short token strings (whitespace, unicode, reserved-word look-alikes, unbalanced brackets) are submitted as relation expressions and accepted or refused as an independent recogniser of the documented grammar says. Part two: an expression is given as text in several renderings, as a tree and as the library's own printing of the tree; for every assignment of its leaves (one subject per assignment) Check of each variant is compared with the set semantics. Part three goes through the characters of Unicode: letters and digits are part of an identifier wherever they stand, space separates, all others are refused. Non-trivial: an expression with at least two operators, or a refused string; distinct by text.",
		floors: map[string]int64{"strings accepted": 1500, "strings refused": 3000, "truth table rows": 40000, "printed and parsed back": 800, "identifier characters": 30000, "other characters": 20000},
		run: func(r *Run) {
			r.Cases(0, r.n(1200, 30000), c12strings)
			r.Cases(1000000, r.n(1000, 25000), c12table)
			r.Cases(2000000, r.n(16, 200), c12deep)
			r.Cases(bigBase, r.n(200, 4000), c12big)
			r.Cases(runeBase, runeChunks, c12runes)
		}}
}

var c12idents = []string{"a", "b", "ab", "_", "_a", "a_b", "A", "é", "用户", "_this", "_thisx", "_This", "this", "_this_", "x_this", "1", "12", "1a", "a1", "_thi", "__this", "ß", "٣"}

func (t *T) space() string {
	return pick(t, []string{"", "", "", " ", " ", "  ", "\t", "\n", "\r\n", " \t ", "\u00a0", "\u2003"})
}

// c12policy has one resource with every identifier of the pool as a relation, so that only syntax
// decides.
func c12policy(id, expr string) *domain.Policy {
	p := &Pol{ID: id, Res: []*ResDef{{Name: "doc"}}}
	for _, n := range c12idents {
		p.Res[0].Rels = append(p.Res[0].Rels, &RelDef{Name: n, E: eThis(), Form: 'p', Restr: '*'})
	}
	p.Res[0].Rels = append(p.Res[0].Rels, &RelDef{Name: "target", Form: 'r', Raw: expr, Restr: '*'})
	return p.proto()
}

func c12gen(t *T, depth int) string {
	var b strings.Builder
	term := func() {
		b.WriteString(t.space())
		switch x := t.Intn(10); {
		case x < 2 && depth > 0:
			b.WriteString("(" + c12gen(t, depth-1) + ")")
		case x < 4:
			b.WriteString(pick(t, c12idents) + t.space() + "->" + t.space() + pick(t, c12idents))
		case x < 6:
			b.WriteString("_this")
		default:
			b.WriteString(pick(t, c12idents))
		}
		b.WriteString(t.space())
	}
	term()
	for n := t.Intn(4); n > 0; n-- {
		b.WriteString(pick(t, []string{"+", "-", "&"}))
		term()
	}
	return b.String()
}

func c12mutate(t *T, s string) string {
	r := []rune(s)
	ins := []rune("()+-&> _a1>\u00a0\u200b!|^,.*:/\\\"'#@\x00\n-->")
	for n := 1 + t.Intn(2); n > 0; n-- {
		i := t.Intn(len(r) + 1)
		switch t.Intn(4) {
		case 0:
			r = append(r[:i:i], append([]rune{ins[t.Intn(len(ins))]}, r[i:]...)...)
		case 1:
			if i < len(r) {
				r = append(r[:i:i], r[i+1:]...)
			}
		case 2:
			if i < len(r) {
				r[i] = ins[t.Intn(len(ins))]
			}
		case 3:
			if i < len(r) {
				j := t.Intn(len(r))
				r[i], r[j] = r[j], r[i]
			}
		}
	}
	return string(r)
}

func c12strings(t *T) {
	s := mustEmbedded(t, newMapKV())
	w := newWorld()
	toks := []string{"a", "_this", "->", "(", ")", "+", "-", "&", " ", "_thisx", ">", "1"}
	for i := 0; i < 12; i++ {
		var x string
		switch y := t.Intn(10); {
		case y < 3:
			x = c12gen(t, 3)
		case y < 7:
			x = c12mutate(t, c12gen(t, 2))
		case y < 9: // short token sequences; the space of these is nearly exhausted over a run
			for n := t.Intn(6); n >= 0; n-- {
				x += pick(t, toks)
			}
		default:
			x = pick(t, []string{"", " ", "\n", "_this\x00", "a\xffb", "a - > b", "a-->b", "a->b->c", "a->(b)", "(a)->b", "a->_this", "_this->a", "a -b", "a-b", "a->-b", "a+-b", "((a)", "(a))", "()", "a()", "(a)(b)", "a b", "_this_this", "_this _this", "_thisa", "a_this", "+a", "a+", "a++b", "a+&b", "a->", "->a", "a<-b", "a=>b", "(a+b)-c&_this", "a\u200bb", "a\u00a0+\u00a0b", "a //c", "a|b", "a&&b", "!a", "a,b", "[a]", "{a}"})
		}
		d := c12policy(fmt.Sprintf("p%d", i), x)
		e, ok := parseExpr(x)
		_, err := step(t, s, w, &api.CreatePolicyRequest{PolicyDefinition: &api.PolicyDefinition{Definition: &api.PolicyDefinition_Policy{Policy: d}}})
		_ = ok
		if err == nil {
			t.Count("strings accepted", 1)
			if e != nil && strings.Count(x, "+")+strings.Count(x, "&") > 1 {
				t.Nontrivial(x)
			}
		} else {
			t.Count("strings refused", 1)
			t.Nontrivial(x)
		}
	}
	t.Sample(map[string]any{"submitted": append([]string(nil), t.trace[len(t.trace)-1:]...)})
}

// c12leaf draws leaves whose truth can be set independently: relations a, b and the reserved-word
// look-alikes through direct relationships, arrows through one target object per tupleset.
var c12cu = []string{"a", "b", "_thisx", "A", "x_this", "__this"}
var c12sets = []string{"p", "_thisp"}
var c12ttuRel = []string{"q", "a", "_this1"}

func c12expr(t *T, depth int) *Expr {
	if depth > 0 && t.Chance(80) {
		return eOp(c12expr(t, depth-1), pick(t, []byte("+&-")), c12expr(t, depth-1-t.Intn(2)))
	}
	switch x := t.Intn(10); {
	case x < 3:
		return eThis()
	case x < 5:
		return eTTU(pick(t, c12sets), pick(t, c12ttuRel))
	}
	return eCU(pick(t, c12cu))
}

// c12render writes an expression with random whitespace and random redundant brackets.
func c12render(t *T, e *Expr, right bool) string {
	var s string
	switch e.K {
	case 't':
		s = "_this"
	case 'c':
		s = e.A
	case 'u':
		s = e.A + t.space() + "->" + t.space() + e.B
	default:
		s = c12render(t, e.L, false) + t.space() + string(e.Op) + t.space() + c12render(t, e.R, true)
	}
	if e.K == 'o' && right || t.Chance(15) {
		s = "(" + t.space() + s + t.space() + ")"
	}
	return s
}

func countOps(e *Expr) int {
	if e.K != 'o' {
		return 0
	}
	return 1 + countOps(e.L) + countOps(e.R)
}

func c12table(t *T) { c12run(t, c12expr(t, 1+t.Intn(4)), 6, false) }

// c12deep uses long chains and deep nesting, on a sample of the assignments.
func c12deep(t *T) {
	n := 30 + t.Intn(60)
	e := c12expr(t, 0)
	for i := 0; i < n; i++ {
		op := pick(t, []byte("+&-"))
		switch t.idx % 3 {
		case 0:
			e = eOp(e, op, c12expr(t, 0))
		case 1:
			e = eOp(c12expr(t, 0), op, e)
		case 2:
			if t.Chance(50) {
				e = eOp(e, op, c12expr(t, 0))
			} else {
				e = eOp(c12expr(t, 0), op, e)
			}
		}
	}
	c12run(t, e, 4, true)
}

func c12run(t *T, e *Expr, bits int, deep bool) {
	s := mustEmbedded(t, newMapKV())
	w := newWorld()
	var leaves []string
	seen := map[string]bool{}
	e.leaves(func(l *Expr) {
		if !seen[l.text()] {
			seen[l.text()] = true
			leaves = append(leaves, l.text())
		}
	})
	p := &Pol{ID: "p", Res: []*ResDef{{Name: "user"}, {Name: "doc"}}}
	doc := p.Res[1]
	for _, n := range append(append(append([]string{}, c12cu...), c12sets...), c12ttuRel...) {
		if p.rel("doc", n) == nil {
			doc.Rels = append(doc.Rels, &RelDef{Name: n, E: eThis(), Form: 'p', Restr: '*'})
		}
	}
	printed := e.tree().RelationExpression()
	variants := []*RelDef{
		{Name: "v_tree", E: e, Form: 'x'},
		{Name: "v_full", E: e, Form: 'f'},
		{Name: "v_pretty", E: e, Form: 'p'},
		{Name: "v_printed", Form: 'r', Raw: printed},
		{Name: "v_spaced", Form: 'r', Raw: c12render(t, e, false)},
	}
	for _, v := range variants {
		v.Restr = '*'
		doc.Rels = append(doc.Rels, v)
	}
	if pe, ok := parseExpr(printed); !ok {
		t.Failf("the library prints the expression %s as %q, which is not in the grammar", e.text(), printed)
	} else if pe.text() != e.text() && !deep {
		// a different tree is fine as long as the meaning is the same; the table below decides
		t.Count("printed differently", 1)
	}
	for _, v := range variants[3:] {
		v.E = e
	}
	def := p.proto()
	// the model's meaning of every variant is the meaning of e, whatever the text says
	req := &api.CreatePolicyRequest{PolicyDefinition: &api.PolicyDefinition{Definition: &api.PolicyDefinition_Policy{Policy: def}}}
	t.Log("%s", show(req))
	if resp, err := s.Do(t, req); err != nil {
		noPanic(t, req, err)
		_ = resp
		t.Failf("expression %s was refused in one of its renderings: %v\nprinted: %q\nspaced: %q", e.pretty(), err, printed, variants[4].Raw)
	}
	w.pols["p"] = &PolState{def: proto.Clone(def).(*domain.Policy), p: p, tuples: map[Tuple]string{}}
	t.Count("printed and parsed back", 1)
	// subjects: one per assignment of up to `bits` leaves; further leaves get random truth
	k := min(bits, len(leaves))
	rows := 1 << k
	set := func(u Tuple) {
		step(t, s, w, &api.SetRelationshipRequest{PolicyId: "p", Relationship: u.proto()})
	}
	for _, v := range c12sets {
		set(Tuple{"doc", "o", v, 'e', "doc", "t" + v, ""})
	}
	for row := 0; row < rows; row++ {
		sub := fmt.Sprint("s", row)
		for i, l := range leaves {
			on := i < k && row>>i&1 == 1 || i >= k && t.Chance(50)
			if !on {
				continue
			}
			switch le, _ := parseExpr(l); le.K {
			case 't':
				for _, v := range variants {
					set(Tuple{"doc", "o", v.Name, 'e', "user", sub, ""})
				}
			case 'c':
				set(Tuple{"doc", "o", le.A, 'e', "user", sub, ""})
			case 'u':
				set(Tuple{"doc", "t" + le.A, le.B, 'e', "user", sub, ""})
			}
		}
	}
	st := w.pols["p"]
	g := map[string]*Graph{}
	for _, v := range variants {
		g[v.Name] = explore(st.p, st.index(), Node{'s', "doc", "o", v.Name})
	}
	for row := 0; row < rows; row++ {
		sub := fmt.Sprint("s", row)
		want := g["v_tree"].check("user", sub)
		for _, v := range variants {
			req := &api.CheckRequest{PolicyId: "p", AccessRequest: &domain.AccessRequest{Object: ent("doc", "o"), Relation: v.Name, Subject: ent("user", sub)}}
			resp, err := s.Do(t, req)
			noPanic(t, req, err)
			if err != nil {
				t.Failf("Check of %s (given as %s %q) failed: %v", e.pretty(), v.Name, v.Raw, err)
			}
			if got := resp.(*api.CheckResponse).GetResult().GetAuthorized(); got != want {
				var as []string
				for i := 0; i < k; i++ {
					as = append(as, fmt.Sprintf("%s=%v", leaves[i], row>>i&1 == 1))
				}
				t.Failf("expression %s given as %s %q is %v where the set semantics says %v, for %s", e.pretty(), v.Name, v.Raw, got, want, strings.Join(as, " "))
			}
			t.Count("truth table rows", 1)
		}
	}
	if countOps(e) >= 2 {
		t.Nontrivial(e.text())
		t.Sample(map[string]any{"expression": trunc(e.pretty(), 300), "leaves": len(leaves), "assignments": rows, "variants": len(variants)})
	}
}
