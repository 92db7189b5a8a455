package main

import (
	"fmt"
	"strings"

	"google.golang.org/protobuf/proto"

	"github.com/sourcenetwork/zanzi/pkg/api"
	"github.com/sourcenetwork/zanzi/pkg/domain"
)

// Policies and expressions of uncommon size, for limits that small ones never meet.

// genBigPol is a well-formed policy with many resources, relations, restrictions, or long names.
func genBigPol(t *T, id string, textOnly bool) *Pol {
	p := &Pol{ID: id, Name: "large " + id, Desc: strings.Repeat("line of a description\n", t.Intn(300))}
	nres, nrel := pick(t, []int{2, 12, 40, 130, 280}), pick(t, []int{1, 3, 9, 30})
	if nres*nrel > 1500 {
		nrel = 3
	}
	if t.Chance(25) {
		nres, nrel = 2, pick(t, []int{70, 140, 300})
	}
	pre := pick(t, []string{"", "r", "r", strings.Repeat("long_name_", 1+t.Intn(60))})
	if t.Chance(40) {
		p.Attrs = map[string]string{}
		for i := t.Intn(200); i > 0; i-- {
			p.Attrs[fmt.Sprintf("%sk%d", pre, i)] = strings.Repeat("v", t.Intn(40))
		}
	}
	var all []string
	for i := 0; i < nrel; i++ {
		all = append(all, fmt.Sprintf("%srel%d", pre, i))
	}
	for i := 0; i < nres; i++ {
		r := &ResDef{Name: fmt.Sprintf("%sres%d", pre, i)}
		n := nrel
		if t.Chance(30) {
			n = t.Intn(nrel + 1)
		}
		if i == 0 {
			n = nrel
		}
		for _, m := range all[:n] {
			r.Rels = append(r.Rels, &RelDef{Name: m})
		}
		p.Res = append(p.Res, r)
	}
	o := polOpts{restr: 'm', diffPct: 10, ttuPct: 20}
	for i, r := range p.Res {
		var own []string
		for _, d := range r.Rels {
			own = append(own, d.Name)
		}
		for _, d := range r.Rels {
			d.E = genExpr(t, o, own, all, t.Intn(3))
			if i < 3 && t.Chance(5) {
				d.E = genExpr(t, o, own, all, 7)
			}
			d.Form = pick(t, []byte{'x', 'p', 'f'})
			if textOnly && d.Form == 'x' {
				d.Form = 'p'
			}
			genRestr(t, o, p, d)
			if textOnly && d.Restr == 0 {
				d.Restr = 's'
			}
			if d.Restr == 's' && t.Chance(20) {
				for k := t.Intn(120); k > 0; k-- {
					r := pick(t, p.Res)
					a := Restr{Res: r.Name}
					if len(r.Rels) > 0 && t.Chance(50) {
						a.Rel = pick(t, r.Rels).Name
					}
					d.Allow = append(d.Allow, a)
				}
			}
		}
	}
	return p
}

func (t *T) noteBigPol(p *Pol) {
	n := 0
	for _, r := range p.Res {
		n += len(r.Rels)
	}
	t.Count("large policies", 1)
	t.Nontrivial(fmt.Sprintf("%s %d %d %s", p.ID, len(p.Res), n, p.Res[0].Name))
}

func c09big(t *T) {
	kv := newMapKV()
	s := mustEmbedded(t, kv)
	w := newWorld()
	base := genBigPol(t, "p", false)
	step(t, s, w, &api.CreatePolicyRequest{PolicyDefinition: base.def(t, 20)})
	step(t, s, w, &api.GetPolicyRequest{Id: "p"})
	// a small part with one defect, somewhere inside the large policy
	ds := shuffled(t, defects(t, genPol(t, "p", polOpts{maxRes: 2, maxRel: 3, depth: 2, restr: 'm', diffPct: 20, ttuPct: 30}).proto()))
	rest := base.proto().Resources
	for i, q := range ds[:min(10, len(ds))] {
		at := t.Intn(len(rest) + 1)
		var rs []*domain.Resource
		for _, r := range rest {
			rs = append(rs, proto.Clone(r).(*domain.Resource))
		}
		q.Resources = append(append(append([]*domain.Resource{}, rs[:at]...), q.Resources...), rs[at:]...)
		if _, v, _ := compile(q); v == unjudged {
			continue
		}
		if q.Id != "" && t.Chance(50) {
			q.Id = fmt.Sprint("new", i)
		}
		def := &api.PolicyDefinition{Definition: &api.PolicyDefinition_Policy{Policy: q}}
		var req proto.Message = &api.UpdatePolicyRequest{PolicyDefinition: def}
		if q.Id != "p" {
			req = &api.CreatePolicyRequest{PolicyDefinition: def}
		}
		before := kv.snapshot()
		if _, err := step(t, s, w, req); err != nil {
			if d := sameSnapshot(before, kv.snapshot()); d != "" {
				t.Failf("a rejected definition changed the store: %s", d)
			}
		}
	}
	// one defect in the large policy itself, behind many sound parts
	for i := 0; i < 6; i++ {
		q := base.clone()
		r := pick(t, q.Res)
		if t.Chance(40) {
			r = q.Res[len(q.Res)-1]
		}
		if len(r.Rels) == 0 {
			r.Rels = []*RelDef{{Name: "extra", E: eThis(), Form: 'x', Restr: '*'}}
		}
		d := pick(t, r.Rels)
		if t.Chance(40) {
			d = r.Rels[len(r.Rels)-1]
		}
		n := pick(t, []int{5, 12, 18, 40, 70, 130, 200})
		bad := t.Chance(70)
		switch t.Intn(3) {
		case 0: // restrictions
			d.Restr, d.Allow = 's', nil
			for k := 0; k < n; k++ {
				a := Restr{Res: pick(t, q.Res).Name}
				if t.Chance(50) {
					a = Restr{Res: r.Name, Rel: pick(t, r.Rels).Name}
				}
				d.Allow = append(d.Allow, a)
			}
			if bad {
				at := pick(t, []int{n - 1, t.Intn(n)})
				d.Allow[at] = pick(t, []Restr{{Res: "nosuchres"}, {Res: r.Name, Rel: "nosuchrel"}, {Res: "nosuchres", Rel: d.Name}})
			}
		case 1: // operands
			at := pick(t, []int{n - 1, t.Intn(n)})
			d.E = eThis()
			for k := 0; k < n; k++ {
				x := eCU(pick(t, r.Rels).Name)
				if t.Chance(30) {
					x = eTTU(pick(t, r.Rels).Name, "whatever")
				}
				if bad && k == at {
					x = pick(t, []*Expr{eCU("nosuchrel"), eTTU("nosuchrel", d.Name)})
				}
				d.E = eOp(d.E, pick(t, []byte("+&-")), x)
			}
			d.Form = pick(t, []byte("xp"))
			if !d.E.textable() {
				d.Form = 'x'
			}
		case 2:
			if bad {
				breakPol(t, q)
			}
		}
		if _, v, _ := compile(q.proto()); v == unjudged {
			continue
		}
		before := kv.snapshot()
		if _, err := step(t, s, w, &api.UpdatePolicyRequest{PolicyDefinition: &api.PolicyDefinition{Definition: &api.PolicyDefinition_Policy{Policy: q.proto()}}}); err != nil {
			t.Count("large policies refused", 1)
			if d := sameSnapshot(before, kv.snapshot()); d != "" {
				t.Failf("a rejected definition changed the store: %s", d)
			}
		}
	}
	sweep(t, s, w)
	t.noteBigPol(base)
}

func c10big(t *T) {
	s := mustEmbedded(t, newMapKV())
	w := newWorld()
	p := genBigPol(t, "p", false)
	step(t, s, w, &api.CreatePolicyRequest{PolicyDefinition: p.def(t, 20)})
	for i := 0; i < 300; i++ {
		u := genTuple(t, p, plainIds, 6)
		if t.Chance(70) { // a relation with restrictions, and something close to what it admits
			r := pick(t, p.Res)
			if len(r.Rels) > 0 {
				d := pick(t, r.Rels)
				u.ORes, u.Rel = r.Name, d.Name
				if len(d.Allow) > 0 {
					a := pick(t, d.Allow)
					if t.Chance(40) {
						a = d.Allow[len(d.Allow)-1]
					}
					u.SRes, u.SRel, u.SK, u.SId = a.Res, a.Rel, 'e', "1"
					if a.Rel != "" {
						u.SK = 's'
					} else if t.Chance(30) {
						u.SK, u.SId = 'w', ""
					}
					if t.Chance(25) {
						u.SRes = pick(t, p.Res).Name
					}
				}
			}
		}
		step(t, s, w, &api.SetRelationshipRequest{PolicyId: "p", Relationship: u.proto()})
	}
	sweep(t, s, w)
	t.noteBigPol(p)
}

func c13big(t *T) {
	p := genBigPol(t, "p", true)
	doc, want, ok := p.yaml(t)
	if !ok {
		return
	}
	s := mustEmbedded(t, newMapKV())
	w := newWorld()
	step(t, s, w, &api.CreatePolicyRequest{PolicyDefinition: yamlDef(doc)})
	resp, err := step(t, s, w, &api.GetPolicyRequest{Id: "p"})
	if err != nil {
		t.Failf("a policy just created is not there: %v", err)
	}
	if got := resp.(*api.GetPolicyResponse).GetRecord().GetPolicy(); !proto.Equal(got, want) {
		t.Failf("the policy stored from a large YAML document differs from the one it describes\ndocument:\n%s\nstored: %s\nwant:   %s", trunc(doc, 4000), show(got), show(want))
	}
	c13direct(t, doc, want)
	for n := 0; n < 40; n++ {
		u := genTuple(t, w.pols["p"].p, plainIds, 8)
		step(t, s, w, &api.SetRelationshipRequest{PolicyId: "p", Relationship: u.proto()})
	}
	yamlPolicies.Delete(doc)
	t.Count("documents", 1)
	t.noteBigPol(p)
}

// c12big submits expressions of uncommon length, depth and spelling.
func c12big(t *T) {
	s := mustEmbedded(t, newMapKV())
	w := newWorld()
	id := strings.Repeat(pick(t, []string{"a", "ab", "_", "é"}), 1+t.Intn(2000))
	n := pick(t, []int{10, 40, 70, 110, 140, 270}) // the parser takes quadratic time
	var b strings.Builder
	switch t.Intn(6) {
	case 0: // parentheses around one operand
		b.WriteString(strings.Repeat("(", n) + "a" + strings.Repeat(")", n))
	case 1: // many operands
		b.WriteString("a")
		for i := 0; i < n; i++ {
			b.WriteString(pick(t, []string{"+", " & ", " -"}) + " " + pick(t, []string{"a", "b", "_this", "a->b", "(a)"}))
		}
	case 2: // nesting to the left
		b.WriteString(strings.Repeat("(", n) + "a")
		for i := 0; i < n; i++ {
			b.WriteString(pick(t, []string{"+", "&", "-"}) + "b)")
		}
	case 3: // nesting to the right
		for i := 0; i < n; i++ {
			b.WriteString("a" + pick(t, []string{"+", "&"}) + "(")
		}
		b.WriteString("b" + strings.Repeat(")", n))
	case 4: // long identifiers
		b.WriteString(id + " + " + id + " -> " + id + " & (" + id + ")")
	case 5: // white space
		b.WriteString(strings.Repeat(" \t\n", 20*n) + "a" + strings.Repeat(" ", n) + "->" + strings.Repeat("\n", n) + "b" + strings.Repeat(" ", n))
	}
	x := b.String()
	for _, text := range []string{x, c12break(t, x)} {
		p := &Pol{ID: fmt.Sprintf("p%d", len(w.pols)), Res: []*ResDef{{Name: "doc"}}}
		for _, m := range []string{"a", "b", id} {
			if p.rel("doc", m) == nil {
				p.Res[0].Rels = append(p.Res[0].Rels, &RelDef{Name: m, E: eThis(), Form: 'p', Restr: '*'})
			}
		}
		p.Res[0].Rels = append(p.Res[0].Rels, &RelDef{Name: "target", Form: 'r', Raw: text, Restr: '*'})
		_, err := step(t, s, w, &api.CreatePolicyRequest{PolicyDefinition: &api.PolicyDefinition{Definition: &api.PolicyDefinition_Policy{Policy: p.proto()}}})
		if err != nil {
			t.Count("strings refused", 1)
			continue
		}
		t.Count("strings accepted", 1)
		for _, r := range []string{"a", "b", "target"} {
			step(t, s, w, &api.SetRelationshipRequest{PolicyId: p.ID, Relationship: Tuple{"doc", "o", r, 'e', "doc", "s" + r, ""}.proto()})
		}
		for _, r := range []string{"a", "b", "target", "none"} {
			step(t, s, w, &api.CheckRequest{PolicyId: p.ID, AccessRequest: &domain.AccessRequest{Object: ent("doc", "o"), Relation: "target", Subject: ent("doc", "s"+r)}})
		}
		step(t, s, w, &api.GetPolicyRequest{Id: p.ID})
	}
	t.Count("large expressions", 1)
	t.Nontrivial(x)
}

// c12break takes one character away or adds one.
func c12break(t *T, x string) string {
	r := []rune(x)
	i := t.Intn(len(r))
	switch t.Intn(4) {
	case 0:
		return string(r[:i]) + string(r[i+1:])
	case 1:
		return string(r[:i]) + pick(t, []string{"(", ")", "+", ">", "!", "a"}) + string(r[i:])
	case 2:
		return x + pick(t, []string{")", "+", "->", "("})
	}
	return pick(t, []string{"(", ")", "&", "->"}) + x
}
