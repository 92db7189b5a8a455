package main

import (
	"fmt"
	"strings"

	"google.golang.org/protobuf/proto"

	"github.com/sourcenetwork/zanzi/pkg/api"
	"github.com/sourcenetwork/zanzi/pkg/domain"
	"github.com/sourcenetwork/zanzi/pkg/policy_definition"
)

func init() {
	checks["C13"] = check{level: "exploration",
		rule:   "A case is a random policy written as several YAML documents (key order, quoting, block and flow style, comments, anchors, block scalars chosen at random). Each is created or updated from on a fresh instance several times; the stored policy read back must equal the structured policy the document describes, byte for byte, and the relationships it admits and the checks it answers are compared with the model. The same documents, and sketches of policies with placeholders for resources and relations, go through PolicyFromYaml directly. Single changes that add an unknown field or a value of the wrong shape at any level must be refused and leave every stored byte unchanged. Non-trivial: at least two resources or three relations; distinct by document.",
		floors: map[string]int64{"documents": 3000, "documents mapped directly": 5000, "documents refused": 6000, "restrictions exercised": 5000},
		run:    func(r *Run) { r.Cases(0, r.n(12000, 200000), c13); r.Cases(bigBase, r.n(100, 2500), c13big) }}
}

func yamlDef(doc string) *api.PolicyDefinition {
	return &api.PolicyDefinition{Definition: &api.PolicyDefinition_PolicyYaml{PolicyYaml: doc}}
}

// c13flow renders the policy in YAML flow style (JSON with a few liberties).
func c13flow(t *T, p *Pol) (string, bool) {
	q := func(s string) string {
		x := yamlString(t, s)
		if x == s {
			x = "\"" + s + "\""
		}
		return x
	}
	obj := func(kv []string) string { return "{" + strings.Join(shuffled(t, kv), ", ") + "}" }
	var top []string
	top = append(top, "id: "+q(p.ID), "name: "+q(p.Name), "doc: "+q(p.Desc))
	if len(p.Attrs) > 0 {
		var as []string
		for _, k := range sortedKeys(p.Attrs) {
			as = append(as, q(k)+": "+q(p.Attrs[k]))
		}
		top = append(top, "attributes: "+obj(as))
	}
	var rs []string
	for _, r := range p.Res {
		var ds []string
		for _, d := range r.Rels {
			if !d.E.textable() {
				return "", false
			}
			f := []string{"expr: " + q(d.exprTextYaml())}
			if d.Desc != "" {
				f = append(f, "doc: "+q(d.Desc))
			}
			var ts []string
			if d.Restr == '*' {
				ts = []string{q("*")}
			}
			for _, a := range d.Allow {
				if strings.Contains(a.Res, ":") || a.Res == "*" && a.Rel == "" {
					return "", false
				}
				if a.Rel == "" {
					ts = append(ts, q(a.Res))
				} else {
					ts = append(ts, q(a.Res+":"+a.Rel))
				}
			}
			if len(ts) > 0 || t.Chance(50) {
				f = append(f, "types: ["+strings.Join(ts, ", ")+"]")
			}
			ds = append(ds, q(d.Name)+": "+obj(f))
		}
		var f []string
		if r.Desc != "" {
			f = append(f, "doc: "+q(r.Desc))
		}
		if len(ds) > 0 || t.Chance(50) {
			f = append(f, "relations: "+obj(ds))
		}
		rs = append(rs, q(r.Name)+": "+obj(f))
	}
	top = append(top, "resources: "+obj(rs))
	return obj(top) + "\n", true
}

func (d *RelDef) exprTextYaml() string {
	switch d.Form {
	case 'f':
		return d.E.text()
	case 'r':
		if d.Raw != "" {
			return d.Raw
		}
	}
	return d.E.pretty()
}

// c13bad makes documents that must be refused out of the lines of a good one.
func c13bad(t *T, doc string) []string {
	lines := strings.Split(strings.TrimSuffix(doc, "\n"), "\n")
	var out []string
	with := func(i int, repl ...string) {
		l := append([]string{}, lines[:i]...)
		l = append(l, repl...)
		l = append(l, lines[i+1:]...)
		out = append(out, strings.Join(l, "\n")+"\n")
	}
	after := func(i int, add string) { with(i, lines[i], add) }
	for i, l := range lines {
		ind := l[:len(l)-len(strings.TrimLeft(l, " "))]
		f := strings.TrimSpace(l)
		if strings.HasPrefix(f, "#") || f == "---" {
			continue
		}
		switch {
		case ind == "" && strings.HasPrefix(f, "id:"):
			after(i, pick(t, []string{"version: 1", "policy: x", "resource: {}", "Id: x", "ids: [a]"}))
			with(i, "id: [a, b]")
			with(i, "id: {a: b}")
		case ind == "" && strings.HasPrefix(f, "name:"):
			with(i, "name: [x]")
			with(i, l, l) // the same field twice
		case ind == "" && f == "attributes:":
			with(i, "attributes: [a, b]\nxattributes:")
		case ind == "" && f == "resources:":
			with(i, "resources: text\nxresources:")
		case len(ind) == 4 && f == "relations:":
			with(i, "    relation:")
			with(i, "    unknownfield: 1", l)
			with(i, "    relations: [a]", "    xrelations:")
		case len(ind) == 8 && strings.HasPrefix(f, "expr:"):
			after(i, "        unknown: 1")
			after(i, "        type: [user]")
			with(i, "        expr: [a]")
			with(i, "        expr: {a: b}")
			with(i, l, l)
		case len(ind) == 8 && strings.HasPrefix(f, "types: ["):
			with(i, "        types: user")
			with(i, "        types: {user: group}")
			with(i, "        types: [[user]]")
			with(i, "        types: [{user: x}]")
		}
	}
	out = append(out, "", "\n", "just text", "- a\n- b\n", "[]", "5", doc+"\tx: [", doc+"unknowntop: 1\n", "id: p\n  name: x\n", "id: 'p", "{id: p", "id: p\nresources:\n  - doc\n", "id: p\nresources:\n  doc: text\n", "id: p\nresources:\n  doc:\n    relations:\n      - owner\n", "id: p\nresources:\n  doc:\n    relations:\n      owner: _this\n", "id: p\nresources:\n  doc: {}\n  doc: {}\n")
	return out
}

func c13(t *T) {
	o := polOpts{hostile: t.Chance(50), maxRes: 4, maxRel: 4, depth: 3, restr: 'm', diffPct: 20, ttuPct: 25, noneTree: true}
	var p *Pol
	var doc string
	var want *domain.Policy
	for i := 0; ; i++ {
		p = genPol(t, t.polIdOf(o.hostile), o)
		for _, r := range p.Res {
			if t.Chance(30) {
				r.Desc = pick(t, []string{"a resource", "multi\nline", "with: colon", "# hash", "用户"})
			}
			for _, d := range r.Rels {
				if t.Chance(30) {
					d.Desc = pick(t, []string{"about", "x: y", "- dash", " lead", "tab\there"})
				}
				if d.Restr == 0 {
					d.Restr = 's'
				}
			}
		}
		var ok bool
		if doc, want, ok = p.yaml(t); ok {
			break
		}
		if i > 300 {
			return
		}
	}
	docs := []string{doc}
	for i := 0; i < 2; i++ {
		if d, w2, ok := p.yaml(t); ok {
			if !proto.Equal(want, w2) {
				panic("harness: two renderings describe different policies")
			}
			docs = append(docs, d)
		}
	}
	if d, ok := c13flow(t, p); ok {
		yamlPolicies.Store(d, want)
		docs = append(docs, d)
	}
	// YAML features that do not change the meaning
	v := "# leading comment\n" + doc + "# trailing comment\n"
	docs = append(docs, v)
	yamlPolicies.Store(v, want)
	if !strings.HasPrefix(doc, "---") {
		v = "---\n" + doc + "...\n"
		docs = append(docs, v)
		yamlPolicies.Store(v, want)
	}
	var first proto.Message
	for i, d := range docs {
		kv := newMapKV()
		s := mustEmbedded(t, kv)
		w := newWorld()
		if t.Chance(40) { // through update
			step(t, s, w, &api.CreatePolicyRequest{PolicyDefinition: &api.PolicyDefinition{Definition: &api.PolicyDefinition_Policy{Policy: &domain.Policy{Id: p.ID, Name: "before"}}}})
			step(t, s, w, &api.UpdatePolicyRequest{PolicyDefinition: yamlDef(d), AppData: []byte("a")})
		} else {
			step(t, s, w, &api.CreatePolicyRequest{PolicyDefinition: yamlDef(d), AppData: []byte("a")})
		}
		resp, err := step(t, s, w, &api.GetPolicyRequest{Id: p.ID})
		if err == nil {
			got := resp.(*api.GetPolicyResponse).GetRecord().GetPolicy()
			if !proto.Equal(got, want) {
				t.Failf("the policy stored from a YAML document differs from the one it describes\ndocument:\n%s\nstored: %s\nwant:   %s", d, show(got), show(want))
			}
			if first == nil {
				first = got
			} else if !proto.Equal(first, got) {
				t.Failf("two renderings of one YAML policy were stored differently\nfirst:  %s\nsecond: %s", show(first), show(got))
			}
		}
		c13direct(t, d, want)
		t.Count("documents", 1)
		if i == 0 && p.hasRels() { // behaviour: the restrictions and expressions work as described
			ids := plainIds[:2]
			for n := 0; n < 14; n++ {
				u := genTuple(t, w.pols[p.ID].p, ids, 8)
				step(t, s, w, &api.SetRelationshipRequest{PolicyId: p.ID, Relationship: u.proto()})
				t.Count("restrictions exercised", 1)
			}
			for n := 0; n < 6; n++ {
				a, b := genTuple(t, w.pols[p.ID].p, ids, 0), genTuple(t, w.pols[p.ID].p, ids, 0)
				step(t, s, w, &api.CheckRequest{PolicyId: p.ID, AccessRequest: &domain.AccessRequest{Object: ent(a.ORes, a.OId), Relation: a.Rel, Subject: ent(b.SRes, ids[0])}})
			}
		}
		// the same document on another fresh instance
		for k := 0; k < 2; k++ {
			s2 := mustEmbedded(t, newMapKV())
			r2, err2 := s2.Do(t, &api.CreatePolicyRequest{PolicyDefinition: yamlDef(d)})
			if err2 != nil {
				t.Failf("a document was accepted once and then refused: %v\n%s", err2, d)
			}
			if got := r2.(*api.CreatePolicyResponse).GetRecord().GetPolicy(); !proto.Equal(got, want) {
				t.Failf("the same document yields different policies\ndocument:\n%s\nonce: %s\nthen: %s", d, show(want), show(got))
			}
		}
	}
	sd, sw := c13sketch(t)
	c13direct(t, sd, sw)
	kv := newMapKV()
	s := mustEmbedded(t, kv)
	w := newWorld()
	step(t, s, w, &api.CreatePolicyRequest{PolicyDefinition: yamlDef(docs[0])})
	bad := shuffled(t, c13bad(t, doc))
	for i, d := range bad {
		if i >= 10 {
			break
		}
		if _, known := yamlPolicies.Load(d); known {
			continue
		}
		if got, err := policy_definition.PolicyFromYaml(d); err == nil {
			t.Failf("PolicyFromYaml accepted a YAML document with an unknown field or a wrong shape\ndocument:\n%s\npolicy: %s", d, show(got))
		}
		before := kv.snapshot()
		for _, upd := range []bool{true, false} {
			var req proto.Message = &api.UpdatePolicyRequest{PolicyDefinition: yamlDef(d)}
			svc := s
			if !upd {
				req = &api.CreatePolicyRequest{PolicyDefinition: yamlDef(d)}
				svc = mustEmbedded(t, newMapKV())
			}
			t.Log("%s", show(req))
			resp, err := svc.Do(t, req)
			noPanic(t, req, err)
			if err == nil {
				t.Failf("%s accepted a YAML document with an unknown field or a wrong shape\ndocument:\n%s\nresponse: %s", opName(req), d, show(resp))
			}
			t.Count("documents refused", 1)
		}
		if df := sameSnapshot(before, kv.snapshot()); df != "" {
			t.Failf("a refused YAML document changed the store: %s\ndocument:\n%s", df, d)
		}
	}
	sweep(t, s, w)
	for _, d := range docs {
		yamlPolicies.Delete(d)
	}
	nrel := 0
	for _, r := range p.Res {
		nrel += len(r.Rels)
	}
	if len(p.Res) >= 2 || nrel >= 3 {
		t.Nontrivial(doc)
		if t.idx%40 == 0 {
			t.Sample(map[string]any{"document": doc, "renderings": len(docs), "refused variants": min(10, len(bad)), "checked against": fmt.Sprint(trunc(show(want), 400))})
		}
	}
}

// c13direct maps a document with the library's own function, which does not validate.
func c13direct(t *T, doc string, want *domain.Policy) {
	for i := 0; i < 2; i++ {
		got, err := policy_definition.PolicyFromYaml(doc)
		if err != nil {
			t.Failf("PolicyFromYaml refuses a well-formed document: %v\n%s", err, doc)
		}
		if !proto.Equal(got, want) {
			t.Failf("PolicyFromYaml does not yield the policy the document describes\ndocument:\n%s\n got: %s\nwant: %s", doc, show(got), show(want))
		}
	}
	t.Count("documents mapped directly", 1)
}

// c13sketch is a document of a policy still being written: resources and relations that have a
// name and some or none of their fields.
func c13sketch(t *T) (string, *domain.Policy) {
	want := &domain.Policy{}
	var b strings.Builder
	if t.Chance(70) {
		want.Id = "sketch"
		b.WriteString("id: sketch\n")
	}
	if t.Chance(40) {
		want.Name = "a name"
		b.WriteString("name: a name\n")
	}
	if t.Chance(20) {
		b.WriteString(pick(t, []string{"attributes:\n", "attributes: {}\n", "doc:\n"}))
	}
	b.WriteString("resources:\n")
	names := []string{"Zeta", "_x", "alpha", "alpha2", "alphabet", "beta", "été"} // in byte order
	for _, rn := range names {
		if t.Chance(45) {
			continue
		}
		r := &domain.Resource{Name: rn}
		want.Resources = append(want.Resources, r)
		switch t.Intn(6) {
		case 0:
			b.WriteString("  " + rn + ":\n")
			continue
		case 1:
			b.WriteString("  " + rn + pick(t, []string{": {}", ": null", ": ~"}) + "\n")
			continue
		}
		b.WriteString("  " + rn + ":\n")
		if t.Chance(40) {
			r.Description = "about " + rn
			b.WriteString("    doc: about " + rn + "\n")
		}
		b.WriteString("    relations:\n")
		type rel struct {
			text string
			d    *domain.Relation
		}
		var rels []rel
		for _, n := range names {
			if t.Chance(55) {
				continue
			}
			d := &domain.Relation{Name: n}
			text := "      " + n + ":"
			expr := ""
			var restr []*domain.SubjectRestrictionSet_Restriction
			star := false
			if t.Chance(55) {
				text += pick(t, []string{"", " {}", " null", " ~"}) + "\n"
			} else {
				text += "\n"
				empty := true
				if t.Chance(40) {
					d.Description, empty = "doc "+n, false
					text += "        doc: doc " + n + "\n"
				}
				if t.Chance(40) {
					expr, empty = "_this", false
					text += "        expr: _this\n"
				}
				if t.Chance(50) || empty {
					text += "        types: " + pick(t, []string{"[]", "", "~"}) + "\n"
				} else if t.Chance(50) {
					text += "        types: [user, 'group:member', '*x', 'a:b:c', 'x:', ':y']\n"
					e := func(n string) *domain.SubjectRestrictionSet_Restriction {
						return &domain.SubjectRestrictionSet_Restriction{Entry: &domain.SubjectRestrictionSet_Restriction_Entity{Entity: &domain.EntityRestriction{ResourceName: n}}}
					}
					s := func(n, m string) *domain.SubjectRestrictionSet_Restriction {
						return &domain.SubjectRestrictionSet_Restriction{Entry: &domain.SubjectRestrictionSet_Restriction_EntitySet{EntitySet: &domain.EntitySetRestriction{ResourceName: n, RelationName: m}}}
					}
					restr = append(restr, e("user"), s("group", "member"), e("*x"), s("a", "b:c"), s("x", ""), s("", "y"))
				} else {
					text += "        types: [user, '*']\n"
					star = true
				}
			}
			d.RelationExpression = &domain.RelationExpression{Expression: &domain.RelationExpression_Expr{Expr: expr}}
			if star {
				d.SubjectRestriction = &domain.SubjectRestriction{SubjectRestriction: &domain.SubjectRestriction_UniversalSet{UniversalSet: &domain.UniversalSet{}}}
			} else {
				d.SubjectRestriction = &domain.SubjectRestriction{SubjectRestriction: &domain.SubjectRestriction_RestrictionSet{RestrictionSet: &domain.SubjectRestrictionSet{Restrictions: restr}}}
			}
			r.Relations = append(r.Relations, d)
			rels = append(rels, rel{text, d})
		}
		for _, x := range shuffled(t, rels) {
			b.WriteString(x.text)
		}
	}
	return b.String(), want
}

func (t *T) polIdOf(hostile bool) string {
	if hostile {
		return pick(t, []string{"p", "p/q", "policy: x", "1", "true", "null", "é", "a\"b", "a'b", "#x", " lead", "- x", "{a}", "*", "&a", "!t", "%d", "a\nb", "0x1F", "~"})
	}
	return pick(t, []string{"p", "my-policy", "policy_1"})
}
