package main

import (
	"fmt"
	"unicode"

	"github.com/sourcenetwork/zanzi/pkg/api"
	"github.com/sourcenetwork/zanzi/pkg/domain"
)

const runeBase = 9000000
const runeChunks = 64

// c12runes goes through the characters of Unicode (chunk t.idx of runeChunks): a letter or digit is part of an
// identifier wherever it stands, space separates, anything else but the operators is refused wherever it stands.
func c12runes(t *T) {
	s := mustEmbedded(t, newMapKV())
	w := newWorld()
	all := t.run.Tier != "quick"
	var names []string
	n := 0
	flush := func() {
		if len(names) == 0 {
			return
		}
		p := &domain.Policy{Id: fmt.Sprint("p", n), Resources: []*domain.Resource{{Name: "doc"}}}
		n++
		for i, x := range names {
			other := names[(i+1)%len(names)]
			expr := pick(t, []string{"%[2]s", "_this+%[2]s", "(%[2]s)", "%[2]s - %[1]s", "%[2]s->%[1]s", "%[1]s->%[2]s&_this"})
			text := fmt.Sprintf(expr, x, other)
			if expr == "%[2]s" || expr == "_this+%[2]s" || expr == "(%[2]s)" {
				text = fmt.Sprintf(expr+"%.0[1]s", x, other)
			}
			p.Resources[0].Relations = append(p.Resources[0].Relations, relText(x, text))
		}
		step(t, s, w, &api.CreatePolicyRequest{PolicyDefinition: &api.PolicyDefinition{Definition: &api.PolicyDefinition_Policy{Policy: p}}})
		step(t, s, w, &api.DeletePolicyRequest{Id: p.Id})
		names = nil
	}
	try := func(text string, defs ...string) {
		p := &domain.Policy{Id: "q", Resources: []*domain.Resource{{Name: "doc", Relations: []*domain.Relation{relText("target", text)}}}}
		for _, d := range defs {
			p.Resources[0].Relations = append(p.Resources[0].Relations, relText(d, "_this"))
		}
		req := &api.CreatePolicyRequest{PolicyDefinition: &api.PolicyDefinition{Definition: &api.PolicyDefinition_Policy{Policy: p}}}
		if _, err := step(t, s, w, req); err == nil {
			step(t, s, w, &api.DeletePolicyRequest{Id: "q"})
		}
	}
	for r := rune(t.idx - runeBase); r <= unicode.MaxRune; r += runeChunks {
		if r >= 0xD800 && r < 0xE000 {
			continue
		}
		c := string(r)
		switch {
		case unicode.IsLetter(r) || unicode.IsDigit(r) || r == '_':
			if unicode.In(r, unicode.Han, unicode.Hangul) && !all && !t.Chance(50) {
				continue
			}
			names = append(names, c, "x"+c, c+"y", "x"+c+"y")
			if r < 0x80 && len(c) == 1 {
				names = names[:len(names)-3] // x, y and the like occur twice otherwise
				if c == "x" || c == "y" {
					names = names[:len(names)-1]
				}
			}
			t.Count("identifier characters", 1)
			if len(names) > 200 {
				flush()
			}
		case unicode.IsSpace(r):
			try("x"+c+"+"+c+"y", "x", "y")
			try(c+"x"+c, "x")
			try("x"+c+"y", "x", "y", "x"+c+"y")
			try("x"+c+"->"+c+"y", "x", "y")
			t.Count("space characters", 1)
		default:
			switch r {
			case '+', '-', '&', '(', ')':
				continue
			}
			if !unicode.In(r, unicode.M, unicode.N, unicode.P, unicode.S, unicode.Z, unicode.Cc, unicode.Cf) && !all && !t.Chance(10) {
				continue
			}
			try("x"+c+"y", "x", "y", "x"+c+"y", c)
			try("x+"+c+"y", "x", "y", c+"y", c)
			if t.Chance(20) {
				try("x"+c, "x", "x"+c, c)
				try("x"+c+"->y", "x", "y", "x"+c)
				try("(x"+c+")", "x", "x"+c)
			}
			t.Count("other characters", 1)
		}
	}
	flush()
	t.Nontrivial(fmt.Sprint("characters ", t.idx))
}

func relText(name, expr string) *domain.Relation {
	return &domain.Relation{Name: name,
		RelationExpression: &domain.RelationExpression{Expression: &domain.RelationExpression_Expr{Expr: expr}},
		SubjectRestriction: &domain.SubjectRestriction{SubjectRestriction: &domain.SubjectRestriction_UniversalSet{UniversalSet: &domain.UniversalSet{}}}}
}
